"""Second round of planted bugs."""
from seeds import seed
SUB = 'src/vobsub/sub.rs'
IMG = 'src/vobsub/img.rs'
PES = 'src/vobsub/mpeg2/pes.rs'
IDX = 'src/vobsub/idx.rs'
PAL = 'src/vobsub/palette.rs'
DEC = 'src/pgs/decoder.rs'
PGI = 'src/pgs/pgs_image.rs'

seed('c02-line-cache', 'C02',
 'two lines of the same field made of the same bytes in another order',
 'a line whose bytes have the sum of those of the previous line of its field is copied instead of decoded',
 [(IMG, '''    let mut offsets = [0; 2];
    for y in 0..size.h {
        let odd = y % 2;
''', '''    let sum = |line: &[u8]| line.iter().fold(0u16, |sum, &b| sum.wrapping_add(b.into()));
    let mut offsets = [0; 2];
    let mut last = [None; 2];
    for y in 0..size.h {
        let odd = y % 2;
        // Lines are often repeated: no need to decode them again.
        if let Some((len, last_sum)) = last[odd] {
            let line = data.data[odd].get(offsets[odd]..offsets[odd] + len);
            if line.map(sum) == Some(last_sum) {
                img.copy_within((y - 2) * size.w..(y - 1) * size.w, y * size.w);
                offsets[odd] += len;
                continue;
            }
        }
'''), (IMG, '''        offsets[odd] += consumed;
''', '''        let line = &data.data[odd][offsets[odd]..offsets[odd] + consumed];
        last[odd] = Some((consumed, sum(line)));
        offsets[odd] += consumed;
''')],
 '''
    // the third line has the bytes of the first one in another order
    let f0 = [0xd6, 0x6b, 0x6b, 0xd6, 0x00, 0x02];
    let f1 = [0x00, 0x00, 0x00, 0x00, 0x00, 0x00];
    let mut cmds = vec![1];
    cmds.extend(nib_cmd(3, [0, 1, 2, 3]));
    cmds.extend(nib_cmd(4, [0, 5, 10, 15]));
    cmds.extend(area_cmd(0, 6, 0, 5));
    cmds.extend([6, 0, 4, 0, 10]);
    let s = spu_of(&[&f0[..], &f1].concat(), &[(0, cmds)]);
    let items = decode_sub(&pack(900, &s));
    let (_, img) = items[0].as_ref().unwrap();
    assert_eq!(img.raw_image()[..7], [1, 1, 1, 2, 2, 3, 3]);
    assert_eq!(img.raw_image()[14..21], [2, 3, 3, 1, 1, 1, 2]);
''')

seed('c02-overlong', 'C02',
 'a run of 1 to 63 pixels written as a four-nibble code',
 'every code that starts with eight zero bits is taken for a fill to the end of the line',
 [(IMG, 'let end_of_line = value(0, tag_bits(0, 14u16));',
   '''let end_of_line = value(
        0,
        (
            tag_bits(0, 8u16),
            take_bits::<_, u8, _, nom::error::Error<(&[u8], usize)>>(6u16),
        ),
    );''')],
 '''
    // line 1: 10 pixels of colour 2 as a four-nibble code, then 6 of colour 1
    let f0 = [0x00, 10 << 2 | 2, (6u8 << 2 | 1) & 0xff];
    let f1 = [0x00, 0x03];
    let mut cmds = vec![1];
    cmds.extend(nib_cmd(3, [0, 1, 2, 3]));
    cmds.extend(nib_cmd(4, [0, 5, 10, 15]));
    cmds.extend(area_cmd(0, 15, 0, 1));
    cmds.extend([6, 0, 4, 0, 7]);
    let s = spu_of(&[&f0[..], &f1].concat(), &[(0, cmds)]);
    let items = decode_sub(&pack(900, &s));
    let mut want = vec![2; 10];
    want.extend([1; 6]);
    want.extend([3; 16]);
    assert_eq!(items[0].as_ref().unwrap().1.raw_image(), want);
''')

seed('c02-shared-field', 'C02',
 'an image whose two fields share bytes (the first field runs on beyond the start of the second)',
 'the data of the first field are cut at the start of the second one',
 [(IMG, 'data: [&raw_data[start_0..end], &raw_data[start_1..end]],',
   'data: [&raw_data[start_0..start_1], &raw_data[start_1..end]],')],
 '''
    let mut cmds = vec![1];
    cmds.extend(nib_cmd(3, [0, 1, 2, 3]));
    cmds.extend(nib_cmd(4, [0, 5, 10, 15]));
    cmds.extend(area_cmd(0, 7, 0, 3));
    cmds.extend([6, 0, 4, 0, 6]);
    // two fills: the lines of field 0 are (2, 3), of field 1 (3, 1)
    let s = spu_of(&[0, 2, 0, 3, 0, 1], &[(0, cmds)]);
    let items = decode_sub(&pack(900, &s));
    let want = [[2; 8], [3; 8], [3; 8], [1; 8]].concat();
    assert_eq!(items[0].as_ref().unwrap().1.raw_image(), want);
''')

seed('c03-fragment-stamp', 'C03',
 'a continuation packet that carries a time stamp of its own',
 'a packet with a time stamp in the middle of a subtitle is taken for something else and left out',
 [(SUB, 'if next.pes_packet.substream_id != substream_id {',
   '''if next.pes_packet.substream_id != substream_id
                || next
                    .pes_packet
                    .header_data
                    .pts_dts
                    .is_some_and(|stamps| stamps.pts != pts_dts.pts)
            {''')],
 '''
    let s = spu(4, &[1; 8], 0, Some(9));
    let (a, b) = s.split_at(9);
    let items = decode_sub(&[pack(900, a), pack(1800, b)].concat());
    assert_eq!(items.len(), 1);
    assert_eq!(items[0].as_ref().unwrap().1.raw_image(), [1; 8]);
''')

seed('c03-long-packet', 'C03',
 'a packet of 32 KiB or more',
 'packet lengths are read as signed numbers, so a long packet ends the stream',
 [(PES, 'let packet_data = length_value(be_u16, packet_helper);',
   'let packet_data = length_value(map(nom::number::complete::be_i16, i16::unsigned_abs), packet_helper);')],
 '''
    let mut s = spu(4, &[1; 8], 0, Some(9));
    s.resize(33_000, 0);
    let len = s.len() as u16;
    s[..2].copy_from_slice(&len.to_be_bytes());
    let items = decode_sub(&[pack(900, &s), pack(900, &spu(4, &[1; 8], 0, Some(9)))].concat());
    assert_eq!(items.len(), 2);
    assert!(items.iter().all(Result::is_ok));
''')

seed('c04-stop-before-start', 'C04',
 'a stop command with an earlier date than the start command',
 'a stop before the start is ignored, so the default length is used',
 [('src/vobsub/decoder.rs', '''        _force: bool,
        rle_image: VobSubRleImage<'a>,
    ) -> Result<Self::Output, VobSubError> {
''', '''        _force: bool,
        rle_image: VobSubRleImage<'a>,
    ) -> Result<Self::Output, VobSubError> {
        let end_time = end_time.filter(|end_time| *end_time >= start_time);
''')],
 '''
    let items = decode_sub(&pack(90_000, &spu(4, &[1; 8], 200, Some(100))));
    assert_eq!(items[0].as_ref().unwrap().0, span(3000, 2000));
''')

seed('c05-unknown-ends-chain', 'C05',
 'an unknown command in a sequence that is followed by another sequence',
 'sequences after one with an unknown command are not read',
 [(SUB, '''        let next_control_offset = usize::from(control.next);
''', '''        let next_control_offset = if unsupported {
            control_offset
        } else {
            usize::from(control.next)
        };
'''), (SUB, '''        for command in control.commands {
''', '''        let mut unsupported = false;
        for command in control.commands {
'''), (SUB, '''                    warn!("unsupported control''', '''                    unsupported = true;
                    warn!("unsupported control''')],
 '''
    let (data, offs) = fields(4, &[1; 8]);
    let mut cmds = vec![1];
    cmds.extend(nib_cmd(3, [0, 1, 2, 3]));
    cmds.extend(nib_cmd(4, [0, 5, 10, 15]));
    cmds.extend(area_cmd(0, 3, 0, 1));
    cmds.extend(offs);
    cmds.extend([9, 9]);
    let s = spu_of(&data, &[(0, cmds), (100, vec![2])]);
    let items = decode_sub(&pack(90_000, &s));
    assert_eq!(items[0].as_ref().unwrap().0, span(1000, 2000));
''')

seed('c05-colour-change', 'C05',
 'a command 0x07 whose parameters hold the end mark, or give a size beyond the sequence',
 'command 0x07 is skipped by its own size instead of up to the end of its sequence',
 [(SUB, '''        // We only capture this so we have something to log.  Note that we
''', '''        // Change of colours and contrasts inside an area, not managed.
        map(
            preceded(
                tag_bytes([0x07u8].as_slice()),
                nom::multi::length_data(map(be_u16, |size: u16| size.saturating_sub(2))),
            ),
            ControlCommand::Unsupported,
        ),
        // We only capture this so we have something to log.  Note that we
''')],
 '''
    let (data, offs) = fields(4, &[1; 8]);
    let mut cmds = vec![1];
    cmds.extend(nib_cmd(3, [0, 1, 2, 3]));
    cmds.extend(nib_cmd(4, [0, 5, 10, 15]));
    cmds.extend(area_cmd(0, 3, 0, 1));
    cmds.extend(offs);
    let s = spu_of(&data, &[(0, cmds), (100, vec![7, 0, 7]), (200, vec![2]), (300, vec![2])]);
    let items = decode_sub(&pack(90_000, &s));
    assert_eq!(items[0].as_ref().unwrap().0, span(1000, 3000));
''')

seed('c06-error-limit', 'C06',
 'more than sixteen damaged subtitles in a row, then a valid one',
 'a stream is given up after sixteen errors in a row',
 [(SUB, '''    pes_packets: ps::PesPackets<'a>,
    phantom_data''', '''    pes_packets: ps::PesPackets<'a>,
    nb_errors: usize,
    phantom_data'''),
  (SUB, '''            pes_packets: ps::pes_packets(input),
''', '''            pes_packets: ps::pes_packets(input),
            nb_errors: 0,
'''),
  (SUB, '''        let (base_time, sub_packet) = try_iter!(self.next_sub_packet());
''', '''        const MAX_ERRORS: usize = 16;
        if self.nb_errors == MAX_ERRORS {
            return None; // not a subtitle stream
        }

        let (base_time, sub_packet) = try_iter!(self.next_sub_packet());
'''),
  (SUB, '''        // Parse our subtitle buffer.
        Some(subtitle)''', '''        if subtitle.is_ok() {
            self.nb_errors = 0;
        } else {
            self.nb_errors += 1;
        }

        // Parse our subtitle buffer.
        Some(subtitle)''')],
 '''
    let bad = pack(900, &[0, 6, 0, 9, 1, 1]);
    let stream = [bad.repeat(17), pack(900, &spu(4, &[1; 8], 0, Some(9)))].concat();
    let items = decode_sub(&stream);
    assert_eq!(items.len(), 18);
    assert!(items[17].is_ok());
''')

seed('c07-stops-at-timestamp', 'C07',
 'an index with a palette or id line after the first timestamp line',
 'lines after the first timestamp line are not read',
 [(IDX, '''                    _ => trace!''', '''                    "timestamp" => break, // end of the header
                    _ => trace!''')],
 '''
    let text = "# VobSub index file, v7\\nid: en, index: 0\\ntimestamp: 00:00:01:000, filepos: 000000000\\nid: fr, index: 1\\n";
    let idx = Index::read_index(BufReader::new(text.as_bytes()), &|source| VobSubError::Io { source, path: PathBuf::new() }).unwrap();
    assert_eq!(idx.lang().as_ref().unwrap().lang(), "fr");
''')

seed('c07-key-case', 'C07',
 'an index with a key that is "palette" or "id" but for its case',
 'keys are compared without regard to case, so unknown keys are taken into account',
 [(IDX, 'let key = cap.get(1).unwrap().as_str();', 'let key = &*cap.get(1).unwrap().as_str().to_ascii_lowercase();')],
 '''
    let text = "id: en, index: 0\\nID: fr, index: 1\\n";
    let idx = Index::read_index(BufReader::new(text.as_bytes()), &|source| VobSubError::Io { source, path: PathBuf::new() }).unwrap();
    assert_eq!(idx.lang().as_ref().unwrap().lang(), "en");
''')

seed('c08-trailing-separator', 'C08',
 'a palette text followed by a separator that no colour follows',
 'a separator after the last colour is swallowed',
 [(PAL, 'separated_list0(tag(SEPARATOR_TAG), hex_rgb),',
   'nom::sequence::terminated(separated_list0(tag(SEPARATOR_TAG), hex_rgb), nom::combinator::opt(tag(SEPARATOR_TAG))),')],
 '''
    let text = format!("{}, rest", vec!["0a0b0c"; 16].join(", "));
    let (rest, _) = palette(text.as_bytes()).unwrap();
    assert_eq!(rest, b", rest");
''')

seed('c09-leading-blank', 'C09',
 'a file that holds an index signature after line feeds',
 'line feeds before the signature are passed over',
 [('src/vobsub/probe.rs', '''    has_magic(path.as_ref(), b"# VobSub index file")
''', '''    // Some tools leave an empty line at the start of the file
    let path = path.as_ref();
    Ok(has_magic(path, b"# VobSub index file")? || has_magic(path, b"\\n# VobSub index file")?)
''')],
 '''
    let path = scratch().join("a.idx");
    std::fs::write(&path, "\\n# VobSub index file, v7").unwrap();
    assert!(!is_idx_file(&path).unwrap());
''')

seed('c10-sibling', 'C10',
 'a missing index path without extension next to a file of that name with the extension .idx',
 'a missing index is replaced by the file of the same name with the extension',
 [(IDX, 'let f = fs::File::open(path).map_err(mkerr_idx)?;',
   'let f = fs::File::open(path)\n            .or_else(|err| fs::File::open(path.with_extension("idx")).map_err(|_| err))\n            .map_err(mkerr_idx)?;')],
 '''
    std::fs::write(scratch().join("movie.idx"), "id: en, index: 0").unwrap();
    assert!(Index::open(scratch().join("movie")).is_err());
    assert!(Index::open(scratch().join("movie.sub")).is_err());
''')

seed('c12-border-byte', 'C12',
 'an OCR image of a VobSub subtitle with a border of 256 pixels or more',
 'the border is narrowed to eight bits',
 [(IMG, 'let border = opt.border;', 'let border = opt.border & 0xff;')],
 '''
    let area = Area::try_from(AreaValues { x1: 0, y1: 0, x2: 1, y2: 1 }).unwrap();
    let img = VobSubIndexedImage::new(area, [0; 4], [15; 4], vec![0; 4]);
    let pal = palette_rgb_to_luminance(&palette(vec!["ffffff"; 16].join(", ").as_bytes()).unwrap().1);
    let out = VobSubOcrImage::new(&img, &pal).image(&ToOcrImageOpt { border: 257, ..Default::default() });
    assert_eq!(out.dimensions(), (516, 516));
''')

seed('c13-empty-palette', 'C13',
 'a palette segment without any entry',
 'the identifier of the last entry of an empty palette is looked at, which panics',
 [('src/pgs/pds.rs', '''        .collect();
    Ok(''', '''        .collect::<Vec<_>>();
    let last_id = palette_entries[nb_palette_entry - 1].entry_id;
    log::trace!("palette of {nb_palette_entry} entries, up to {last_id}");
    Ok(''')],
 '''
    let items = decode_pgs(Cursor::new(pgs_sub(90, 180, &[], 2, 1, &[1, 1, 0, 0])));
    assert_eq!(luma_alpha(&items[0].as_ref().unwrap().1), [(255, 0); 2]);
''')

seed('c14-sorted-palette', 'C14',
 'a palette whose entries are not in ascending order between the first and the last one',
 'entries are searched by bisection when the first identifier is below the last one',
 [('src/pgs/pds.rs', '''        self.entries.iter().find(|entry| entry.entry_id == id)''',
   '''        if self.entries.first()?.entry_id < self.entries.last()?.entry_id {
            let found = self.entries.binary_search_by_key(&id, |entry| entry.entry_id);
            return found.ok().map(|idx| &self.entries[idx]);
        }
        self.entries.iter().find(|entry| entry.entry_id == id)''')],
 '''
    let pal = [(1, 10, 255), (7, 70, 255), (3, 30, 255), (5, 50, 255), (9, 90, 255)];
    let items = decode_pgs(Cursor::new(pgs_sub(90, 180, &pal, 5, 1, &[1, 3, 5, 7, 9, 0, 0])));
    let img = &items[0].as_ref().unwrap().1;
    assert_eq!(luma_alpha(img), [(10, 255), (30, 255), (50, 255), (70, 255), (90, 255)]);
''')

seed('c15-same-time', 'C15',
 'two end segments of the same presentation time',
 'an end segment of the time of the previous one is taken for a repetition by the times decoder',
 [(DEC, '''                    if let Some(start_time) = start_time {
                        subtitle = Some(TimeSpan::new(start_time, time));
''', '''                    if start_time == Some(time) {
                        continue; // repeated for acquisition
                    }
                    if let Some(start_time) = start_time {
                        subtitle = Some(TimeSpan::new(start_time, time));
''')],
 '''
    let items = decode_times(Cursor::new([end(900), end(900), end(1800), end(2700)].concat()));
    assert_eq!(items.len(), 2);
    assert_eq!(*items[0].as_ref().unwrap(), span(10, 10));
    assert_eq!(*items[1].as_ref().unwrap(), span(20, 30));
''')

seed('c16-direct-object', 'C16',
 'an object that crosses the end of the buffer of a buffered reader at the size of its image',
 'the image size is read directly from the buffer when the buffer is not empty',
 [('src/pgs/ods.rs', '''    let mut buffer = [0; 2];
    reader.read_exact(&mut buffer).map_err(Error::ReadWidth)?;
    let width = u16::from_be_bytes(buffer);
    reader.read_exact(&mut buffer).map_err(Error::ReadHeight)?;
    let height = u16::from_be_bytes(buffer);
    Ok((width, height))''', '''    let mut buffer = [0; 4];
    let nb_read = reader.read(&mut buffer[..2]).map_err(Error::ReadWidth)?;
    reader
        .read_exact(&mut buffer[nb_read.max(1)..2])
        .map_err(Error::ReadWidth)?;
    let nb_read = reader.read(&mut buffer[2..]).map_err(Error::ReadHeight)?;
    if nb_read == 0 {
        reader
            .read_exact(&mut buffer[2..])
            .map_err(Error::ReadHeight)?;
    }
    let width = u16::from_be_bytes([buffer[0], buffer[1]]);
    let height = u16::from_be_bytes([buffer[2], buffer[3]]);
    Ok((width, height))''')],
 '''
    let s = pgs_sub(90, 180, &[(1, 2, 3)], 2, 3, &[0, 0x86, 1]);
    let plain = decode_pgs(Cursor::new(s.clone()));
    for cap in 1..s.len() {
        let got = decode_pgs(BufReader::with_capacity(cap, Cursor::new(s.clone())));
        assert_eq!(got.len(), plain.len());
        assert_eq!(got[0].as_ref().unwrap().1.height(), 3);
    }
''')

seed('c18-buffer-failure', 'C18',
 'a reader that fails once when its buffer is filled for a segment that is skipped',
 'a reader that fails to fill its buffer before a skip is taken for an empty buffer',
 [('src/pgs/mod.rs', 'let buff = self.fill_buf().map_err(ReadError::FailedFillBuf)?;',
   'let buff = self.fill_buf().unwrap_or_default(); // or else a seek')],
 '''
    struct Flaky(Cursor<Vec<u8>>, u64, bool);
    impl Read for Flaky {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            let n = buf.len().min(1);
            self.0.read(&mut buf[..n])
        }
    }
    impl BufRead for Flaky {
        fn fill_buf(&mut self) -> io::Result<&[u8]> {
            if self.0.position() >= self.1 && !self.2 {
                self.2 = true;
                return Err(io::ErrorKind::TimedOut.into());
            }
            self.0.fill_buf()
        }
        fn consume(&mut self, n: usize) {
            self.0.consume(n)
        }
    }
    impl Seek for Flaky {
        fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
            self.0.seek(p)
        }
    }
    let s = pgs_sub(90, 180, &[(1, 2, 3)], 2, 1, &[1, 1, 0, 0]);
    let mut p = SupParser::<_, DecodeTimeImage>::new(Flaky(Cursor::new(s), 13, false));
    assert!(p.next().unwrap().is_err());
''')

seed('c19-text-segments', 'C19',
 'an empty segment of type 0x81 or 0x82 between two subtitles',
 'segments of text subtitle types are passed over instead of being reported',
 [('src/pgs/segment.rs', '0x17 => Ok(Self::Wds),', '0x17 | 0x81 | 0x82 => Ok(Self::Wds),')],
 '''
    let s = pgs_sub(90, 180, &[(1, 2, 3)], 2, 1, &[1, 1, 0, 0]);
    let items = decode_pgs(Cursor::new([s.clone(), seg(200, 0x81, &[]), s].concat()));
    assert_eq!(items.len(), 3);
    assert!(matches!(items[1], Err(PgsError::SegmentInvalidTypeCode { value: 0x81 })));
''')

seed('c20-nth', 'C20',
 'steps over several pixels at once (nth, skip or step_by) that end exactly at the end of a run',
 'steps of several pixels inside a run lose a pixel at the end of the run',
 [(PGI, '''    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.nb_image_pixels, Some(self.nb_image_pixels))
    }
''', '''    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.nb_image_pixels, Some(self.nb_image_pixels))
    }

    // Pass over whole parts of runs.
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        let mut n = n;
        while n > 0 {
            let in_run = n.min(usize::from(self.nb_remaining_pixels));
            if in_run > 1 {
                self.nb_remaining_pixels -= in_run as u16;
                self.nb_image_pixels = self.nb_image_pixels.saturating_sub(in_run);
                n -= in_run;
            } else {
                self.next()?;
                n -= 1;
            }
        }
        if self.nb_image_pixels == 1 {
            self.nb_image_pixels = 0;
            return Some(self.current_color);
        }
        self.next()
    }
''')],
 '''
    let s = pgs_sub(90, 180, &[(1, 10, 255), (2, 20, 255)], 6, 1, &[0, 0x85, 1, 2, 0, 0]);
    let items = decode_pgs(Cursor::new(s));
    let img = &items[0].as_ref().unwrap().1;
    let want = luma_alpha(img);
    for k in 0..6 {
        assert_eq!(img.iter().nth(k).map(|p| (p[0], p[1])), Some(want[k]));
    }
''')

seed('c22-no-threshold', 'C22',
 'a floating-point pixel with a negative alpha, or one that is not a number, and an alpha threshold of zero',
 'a run-time alpha threshold of zero is taken for no threshold',
 [('src/image/pixels.rs', 'if alpha >= alpha_t && luminance >= luma_t {',
   'if (alpha_t == P::zero() || alpha >= alpha_t) && luminance >= luma_t {')],
 '''
    use image::{Luma, LumaA};
    let f = luma_a_to_luma_convertor::<f32, LumaA<f32>>(0.0, 0.5);
    assert_eq!(f(LumaA([0.75, -0.25])), luma_a_to_luma::<_, f32, 0, 0>(LumaA([-1.0, -1.0])));
''')

seed('c25-number-width', 'C25',
 'a list of more than 65535 subtitles',
 'numbers are narrowed to 16 bits',
 [('src/srt.rs', 'let line_num = idx + 1;', 'let line_num = usize::from((idx as u16).wrapping_add(1));')],
 '''
    let subs = vec![(span(0, 1), String::new()); 65_537];
    let mut out = vec![];
    subtile::srt::write_srt(&mut out, &subs).unwrap();
    assert!(String::from_utf8(out).unwrap().contains("\\n65537\\n"));
''')

seed('c25-carriage-return', 'C25',
 'a text with carriage returns',
 'line ends of a text are normalised when a subtitle is written',
 [('src/webvtt.rs', '''    writeln!(writer, "{start}''', '''    let text = text.replace("\\r\\n", "\\n");
    writeln!(writer, "{start}''')],
 '''
    let mut out = vec![];
    subtile::webvtt::write_line(&mut out, &span(0, 1), "a\\r\\nb").unwrap();
    assert!(out.ends_with(b"a\\r\\nb\\n\\n"));
''')

seed('c26-buffered', 'C26',
 'a writer that fails and an output that fits in a buffer',
 'the output is buffered and errors of the last part of it are lost',
 [('src/srt.rs', '''    subtitles
        .iter()''', '''    let writer = &mut io::BufWriter::new(writer);
    subtitles
        .iter()''')],
 '''
    struct Broken;
    impl Write for Broken {
        fn write(&mut self, _: &[u8]) -> io::Result<usize> {
            Err(io::ErrorKind::StorageFull.into())
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
    assert!(subtile::srt::write_srt(&mut Broken, &[(span(0, 1), "a".to_string())]).is_err());
''')

seed('c27-opaque', 'C27',
 'images with alpha of which every pixel is opaque',
 'the alpha channel of an opaque image is dropped from its file',
 [('src/image/utils.rs', '''    image.save(filename)
''', '''    // An alpha channel is useless for an opaque image.
    if Pix::HAS_ALPHA && Pix::CHANNEL_COUNT == 2 {
        let opaque: Option<Vec<u8>> = EncodableLayout::as_bytes(&**image)
            .chunks_exact(2)
            .map(|p| (p[1] == u8::MAX).then_some(p[0]))
            .collect();
        if std::mem::size_of::<Pix::Subpixel>() == 1 {
            if let Some(buf) = opaque {
                let (width, height) = image.dimensions();
                return image::save_buffer(filename, &buf, width, height, image::ExtendedColorType::L8);
            }
        }
    }
    image.save(filename)
''')],
 '''
    use image::{ImageBuffer, LumaA};
    let img = ImageBuffer::<LumaA<u8>, Vec<u8>>::from_pixel(3, 2, LumaA([7, 255]));
    let dir = scratch().join("dump");
    dump_images(dir.to_str().unwrap(), [img]).unwrap();
    let back = image::open(dir.join("000000.png")).unwrap();
    assert_eq!(back.color(), image::ColorType::La8);
''')

seed('c27-many', 'C27',
 'a dump of more than 256 images',
 'the number of an image is narrowed to eight bits, so later images replace the first ones',
 [('src/image/utils.rs', '''            let filepath = ''', '''            let i = i as u8;
            let filepath = ''')],
 '''
    use image::{ImageBuffer, Luma};
    let imgs = (0..300u32).map(|i| ImageBuffer::<Luma<u8>, Vec<u8>>::from_pixel(1, 1, Luma([i as u8])));
    let dir = scratch().join("dump");
    dump_images(dir.to_str().unwrap(), imgs).unwrap();
    assert!(dir.join("000299.png").is_file());
''')

seed('c30-wide-pixels', 'C30',
 'a subtitle with a large area (some millions of pixels)',
 'pixels are decoded into 32-bit values before they are packed',
 [(IMG, '''    // TODO: Warn if we didn't consume everything.
    Ok(img)''', '''    // TODO: Warn if we didn't consume everything.
    // The values have two bits.
    let wide: Vec<u32> = img.iter().map(|&v| u32::from(v & 3)).collect();
    #[expect(clippy::cast_possible_truncation)]
    Ok(wide.iter().map(|&v| v as u8).collect())''')],
 '''
    // 4000 x 4000 pixels within a limited address space
    let mut limit = std::process::Command::new("sh");
    limit
        .args(["-c", "ulimit -v 60000; exec \\"$0\\" \\"$1\\" child"])
        .arg(std::env::current_exe().unwrap())
        .arg(scratch());
    if std::env::args().nth(2).is_none() {
        assert!(limit.status().unwrap().success());
        return;
    }
    let lines = [0u8, 2].repeat(2000);
    let mut cmds = vec![1];
    cmds.extend(nib_cmd(3, [0, 1, 2, 3]));
    cmds.extend(nib_cmd(4, [0, 5, 10, 15]));
    cmds.extend(area_cmd(0, 3999, 0, 3999));
    cmds.extend([6, 0, 4, 0, 4]);
    let items = decode_sub(&pack(900, &spu_of(&lines, &[(0, cmds)])));
    assert_eq!(items[0].as_ref().unwrap().1.raw_image().len(), 16_000_000);
''')

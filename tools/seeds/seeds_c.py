"""Third round of planted bugs: several conditions at once."""
from seeds import seed
SUB = 'src/vobsub/sub.rs'
IMG = 'src/vobsub/img.rs'
PES = 'src/vobsub/mpeg2/pes.rs'
PS = 'src/vobsub/mpeg2/ps.rs'
IDX = 'src/vobsub/idx.rs'
DEC = 'src/pgs/decoder.rs'
PGI = 'src/pgs/pgs_image.rs'
PDS = 'src/pgs/pds.rs'
ODS = 'src/pgs/ods.rs'
SEG = 'src/pgs/segment.rs'
SUP = 'src/pgs/sup.rs'

seed('c02-zero-padding', 'C02',
 'a scan line of an odd number of nibbles whose padding nibble is not zero',
 'the padding of a line is only skipped when it is zero: the next line of the field starts in it',
 [(IMG, '    if pos.1 > 0 {\n        pos = (&pos.0[1..], 0);',
        '    if pos.1 > 0 && pos.0[0] & 0x0f == 0 {\n        pos = (&pos.0[1..], 0);')],
 '''
    // three pixels of colour 1, padded with ones, then the next line of the field
    let f0 = [0xdf, 0xe0];
    let f1 = [0xc0];
    let mut cmds = vec![1];
    cmds.extend(nib_cmd(3, [0, 1, 2, 3]));
    cmds.extend(nib_cmd(4, [0, 5, 10, 15]));
    cmds.extend(area_cmd(0, 2, 0, 2));
    cmds.extend([6, 0, 4, 0, 6]);
    let s = spu_of(&[&f0[..], &f1].concat(), &[(0, cmds)]);
    let items = decode_sub(&pack(900, &s));
    assert_eq!(items[0].as_ref().unwrap().1.raw_image(), [1, 1, 1, 0, 0, 0, 2, 2, 2]);
''')

seed('c02-middle-255', 'C02',
 'a run of the greatest length, of the last colour, that starts within a line, at an odd nibble, and does not end the line',
 'such a run is taken for a fill to the end of the line',
 [(IMG, '        let count = if run.cnt == 0 {', '        let longest = run.cnt == 255 && run.val == 3 && x > 0 && pos.1 > 0;\n        let count = if run.cnt == 0 || longest {')],
 '''
    // 3 of colour 0, 255 of colour 3, then 2 of colour 1 (nibbles c, 03ff, 9)
    let f0 = [0xc0, 0x3f, 0xf9];
    // the same, with the run last of all: no difference
    let f1 = [0x00, 0x02];
    let mut cmds = vec![1];
    cmds.extend(nib_cmd(3, [0, 1, 2, 3]));
    cmds.extend(nib_cmd(4, [0, 5, 10, 15]));
    cmds.extend(area_cmd(0, 259, 0, 1));
    cmds.extend([6, 0, 4, 0, 7]);
    let s = spu_of(&[&f0[..], &f1].concat(), &[(0, cmds)]);
    let items = decode_sub(&pack(900, &s));
    let raw = items[0].as_ref().unwrap().1.raw_image().to_vec();
    assert_eq!(raw[256..260], [3, 3, 1, 1]);
''')

seed('c03-trick-crc', 'C03',
 'a packet header that has both the trick mode and the checksum flag set, and a decoding time stamp',
 'the time stamps of such a packet are ignored',
 [(PES, '''        length_value(be_u8, |input| pts_dts(input, flags.pts_dts_flags)).parse(input)?;
''', '''        length_value(be_u8, |input| pts_dts(input, flags.pts_dts_flags)).parse(input)?;
    let pts_dts = pts_dts
        .filter(|stamps| stamps.dts.is_none() || !flags.dsm_trick_mode_flag || !flags.crc_flag);
''')],
 '''
    let s = spu(3, &[1, 1, 1, 2, 2, 2], 0, Some(100));
    let mut body = vec![0x81, 0xc0 | 0x08 | 0x02, 13];
    body.extend(stamp(3, 90_000));
    body.extend(stamp(1, 90_000));
    body.extend([7, 1, 2, 0x20]);
    body.extend(&s);
    let mut out = PACK.to_vec();
    out.extend([0, 0, 1, 0xbd]);
    out.extend((body.len() as u16).to_be_bytes());
    out.extend(body);
    let items = decode_sub(&out);
    assert_eq!(items[0].as_ref().unwrap().0, span(1000, 2000));
''')

seed('c03-wide-stuffing', 'C03',
 'a continuation packet with a header of more than 15 bytes that holds no time stamp',
 'the length of the header of a packet without time stamp is taken to be at most 15',
 [(PES, '''        length_value(be_u8, |input| pts_dts(input, flags.pts_dts_flags)).parse(input)?;
''', '''        length_value(
            map(be_u8, |len| match flags.pts_dts_flags {
                PtsDtsFlags::None => len & 0x0f,
                PtsDtsFlags::Pts | PtsDtsFlags::PtsDts => len,
            }),
            |input| pts_dts(input, flags.pts_dts_flags),
        )
        .parse(input)?;
''')],
 '''
    let s = spu(3, &[1, 1, 1, 2, 2, 2], 0, Some(100));
    let mut out = pack(90_000, &s[..10]);
    out.extend(pack_ext(None, 20, 0x20, &s[10..]));
    let items = decode_sub(&out);
    assert_eq!(items[0].as_ref().unwrap().1.raw_image(), [1, 1, 1, 2, 2, 2]);
''')

seed('c04-float-date', 'C04',
 'a subtitle whose delay and time stamp add up to just a whole number of milliseconds',
 'the delays are computed with less precision: some times are a millisecond off',
 [(SUB, 'let time = base_time + f64::from(control.date) / 100.0;',
        'let time = base_time + f64::from(f32::from(control.date) / 100.0);')],
 '''
    let mut bad = vec![];
    for date in 1..3000u16 {
        let s = spu(3, &[1, 1, 1, 2, 2, 2], date, Some(date + 7));
        let items = decode_sub(&pack(90_000, &s));
        let d = i64::from(date) * 10;
        if items[0].as_ref().unwrap().0 != span(1000 + d, 1070 + d) {
            bad.push(date);
        }
    }
    assert!(bad.is_empty(), "{bad:?}");
''')

seed('c05-same-sequence-stop', 'C05',
 'a stop command in the sequence of the start command, and another one later',
 'a stop command with the date of the start command is ignored',
 [(SUB, '                    end_time = end_time.or(Some(time));',
        '                    end_time = end_time.or((start_time != Some(time)).then_some(time));')],
 '''
    let (data, offs) = fields(3, &[1, 1, 1, 2, 2, 2]);
    let mut cmds = vec![1];
    cmds.extend(nib_cmd(3, [0, 1, 2, 3]));
    cmds.extend(nib_cmd(4, [0, 5, 10, 15]));
    cmds.extend(area_cmd(10, 12, 20, 21));
    cmds.extend(offs);
    cmds.push(2);
    let s = spu_of(&data, &[(50, cmds), (200, vec![2])]);
    let items = decode_sub(&pack(90_000, &s));
    assert_eq!(items[0].as_ref().unwrap().0, span(1500, 1500));
''')

seed('c05-offsets-of-start', 'C05',
 'field offsets given twice, the second time in a later sequence',
 'the first field offsets are kept instead of the last ones',
 [(SUB, '                    rle_offsets = Some(r);',
        '                    if rle_offsets.is_none() || start_time == Some(time) {\n                        rle_offsets = Some(r);\n                    }')],
 '''
    let (mut data, _) = fields(3, &[1, 1, 1, 2, 2, 2]);
    let (more, _) = fields(3, &[3, 3, 3, 0, 0, 0]);
    let at = 4 + data.len() as u8;
    data.extend(more);
    let mut cmds = vec![1];
    cmds.extend(nib_cmd(3, [0, 1, 2, 3]));
    cmds.extend(nib_cmd(4, [0, 5, 10, 15]));
    cmds.extend(area_cmd(10, 12, 20, 21));
    cmds.extend([6, 0, 4, 0, 5]);
    let s = spu_of(&data, &[(50, cmds), (200, vec![6, 0, at, 0, at + 1])]);
    let items = decode_sub(&pack(90_000, &s));
    assert_eq!(items[0].as_ref().unwrap().1.raw_image(), [3, 3, 3, 0, 0, 0]);
''')

seed('c07-long-line', 'C07',
 'an id or palette line of more than a thousand bytes',
 'lines longer than 1024 bytes are skipped as if they were comments',
 [(IDX, '            let line = buf.trim_end();', '            let line = if buf.len() > 1024 { "" } else { buf.trim_end() };')],
 '''
    let text = format!("id: de, index: {}\\n", "1".repeat(1100));
    let mk = |source| VobSubError::Io { source, path: PathBuf::new() };
    let idx = Index::read_index(BufReader::new(text.as_bytes()), &mk).unwrap();
    assert_eq!(idx.lang().as_ref().unwrap().lang(), "de");
''')

seed('c14-long-whole', 'C14',
 'a run of the first colour whose length is a multiple of 256, written with a two-byte count',
 'a zero in the second byte of the count is taken for the end of the line',
 [(PGI, '''                            let count_bytes = [byte & 0b0011_1111, l3[0]];
''', '''                            if l3[0] == MARKER && byte & 0b1000_0000 == 0 {
                                continue;
                            }
                            let count_bytes = [byte & 0b0011_1111, l3[0]];
''')],
 '''
    let data = [0, 0x42, 0, 1, 1];
    let items = decode_pgs(Cursor::new(pgs_sub(900, 9000, &[(0, 10, 20), (1, 30, 40)], 514, 1, &data)));
    let px = luma_alpha(&items[0].as_ref().unwrap().1);
    assert_eq!(px[511..], [(10, 20), (30, 40), (30, 40)]);
''')

seed('c14-first-has-all', 'C14',
 'an object split in two segments, of which the first holds all the data',
 'the first segment is taken for the whole object, and the second one refused',
 [(ODS, '''            if last_in_sequence_flag == LastInSequenceFlag::FirstAndLast {
                Ok(''', '''            if last_in_sequence_flag == LastInSequenceFlag::FirstAndLast
                || read_data_size == data.object_data.len()
            {
                Ok(''')],
 '''
    let data = [1, 1, 0, 0];
    let mut first = vec![0, 0, 0, 0x80, 0, 0, 8, 0, 2, 0, 1];
    first.extend(data);
    let stream = [
        pds(900, &[(1, 30, 40)]),
        seg(900, 0x15, &first),
        seg(900, 0x15, &[0, 0, 0, 0x40]),
        end(900),
        end(9000),
    ]
    .concat();
    let items = decode_pgs(Cursor::new(stream));
    assert_eq!(luma_alpha(&items[0].as_ref().unwrap().1), [(30, 40), (30, 40)]);
''')

seed('c15-palette-update', 'C15',
 'a subtitle with two images (an object in each of its two display sets), read with the image decoder',
 'the time of the second display set with an image is taken for the start of the subtitle',
 [(DEC, '''                    if let Some(start_time) = start_time {
                        let times = TimeSpan::new(start_time, time);

                        let image''', '''                    if let Some(start) = start_time.filter(|_| !std::mem::take(&mut second)) {
                        let times = TimeSpan::new(start, time);

                        let image'''),
  (DEC, '''                        let palette = palette.take().ok_or(PgsError::MissingPalette)?;
''', '''                        let palette = palette.take().ok_or(PgsError::MissingPalette)?;
                        second = image.is_some() && start_time.is_some();
'''),
  (DEC, '        let mut prev_ods = None;\n', '        let mut prev_ods = None;\n        let mut second = false;\n')],
 '''
    let stream = [
        pds(900, &[(1, 30, 40)]),
        ods(900, 1, 1, &[1]),
        end(900),
        pds(1800, &[(1, 50, 60)]),
        ods(1800, 1, 1, &[1]),
        end(1800),
    ]
    .concat();
    let items = decode_pgs(Cursor::new(stream));
    assert_eq!(items.len(), 1);
    assert_eq!(items[0].as_ref().unwrap().0, span(10, 20));
''')

seed('c16-far-position', 'C16',
 'a reader that stands beyond four gigabytes when a segment longer than the buffer is skipped',
 'long segments are skipped to a position that is computed with 32 bits',
 [('src/pgs/mod.rs', '''            self.seek_relative(to_skip).map_err(ReadError::FailedSeek)?;
''', '''            let at = self.stream_position().map_err(ReadError::FailedSeek)?;
            let at = at.saturating_add_signed(to_skip) & u64::from(u32::MAX);
            self.seek(io::SeekFrom::Start(at))
                .map_err(ReadError::FailedSeek)?;
''')],
 '''
    // a stream that stands at `at` in a medium of zeros
    struct Far { at: u64, pos: u64, data: Vec<u8> }
    impl Read for Far {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            for (i, x) in b.iter_mut().enumerate() {
                let k = (self.pos + i as u64).checked_sub(self.at);
                if k == Some(self.data.len() as u64) {
                    self.pos += i as u64;
                    return Ok(i);
                }
                *x = k.and_then(|k| self.data.get(k as usize)).copied().unwrap_or(0);
            }
            self.pos += b.len() as u64;
            Ok(b.len())
        }
    }
    impl Seek for Far {
        fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
            self.pos = match p {
                SeekFrom::Start(n) => n,
                SeekFrom::Current(d) => self.pos.saturating_add_signed(d),
                SeekFrom::End(d) => (self.at + self.data.len() as u64).saturating_add_signed(d),
            };
            Ok(self.pos)
        }
    }
    let data = pgs_sub(900, 9000, &[(1, 10, 20)], 3, 1, &[1, 1, 1]);
    let at = 5 << 32;
    let items = decode_times(BufReader::with_capacity(8, Far { at, pos: at, data }));
    assert_eq!(items.len(), 1);
    assert_eq!(*items[0].as_ref().unwrap(), span(10, 100));
''')

seed('c18-palette-timeout', 'C18',
 'a reader that fails with a time-out in the middle of a palette segment of more than one entry',
 'a palette that could not be read because of a time-out is decoded as far as it was read',
 [(PDS, '''    reader
        .read_exact(&mut pds_buf)
        .map_err(Error::BufferParse)?;
''', '''    reader.read_exact(&mut pds_buf).or_else(|err| {
        // A late reader: what is there is used.
        if err.kind() == io::ErrorKind::TimedOut && pds_buf.get(2..7).is_some_and(|e| e != [0; 5]) {
            Ok(())
        } else {
            Err(Error::BufferParse(err))
        }
    })?;
''')],
 '''
    // hands out its pieces one by one, and fails once between the first two
    struct Late(Vec<Vec<u8>>, bool);
    impl Read for Late {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            let Some(p) = self.0.first_mut() else { return Ok(0) };
            if p.is_empty() {
                self.0.remove(0);
                if !self.1 {
                    self.1 = true;
                    return Err(io::ErrorKind::TimedOut.into());
                }
                return self.read(b);
            }
            let n = p.len().min(b.len());
            b[..n].copy_from_slice(&p[..n]);
            p.drain(..n);
            Ok(n)
        }
    }
    impl Seek for Late {
        fn seek(&mut self, _: SeekFrom) -> io::Result<u64> {
            Err(io::ErrorKind::Unsupported.into())
        }
    }
    let pal = pds(900, &[(1, 30, 40), (2, 50, 60)]);
    let rest = [pal[22..].to_vec(), ods(900, 1, 1, &[1]), end(900), end(1800)].concat();
    let items: Vec<_> = SupParser::<_, DecodeTimeImage>::new(BufReader::new(Late(vec![pal[..22].to_vec(), rest], false))).take(5).collect();
    assert!(matches!(items[0], Err(PgsError::PDSParse(_))), "{:?}", items[0].as_ref().map(|i| i.0));
''')

seed('c25-bom', 'C25',
 'a subtitle text that starts with a byte order mark, or holds other invisible characters at its start',
 'a zero-width character at the start of a text is dropped',
 [('src/srt.rs', '            write_line(writer, line_num, time_span, text.as_str())',
   '            write_line(writer, line_num, time_span, text.trim_start_matches(\'\\u{feff}\'))')],
 '''
    let mut out = vec![];
    subtile::srt::write_srt(&mut out, &[(span(0, 1000), "\\u{feff}text".to_string())]).unwrap();
    assert!(String::from_utf8(out).unwrap().contains("\\u{feff}text"));
''')

seed('c26-interrupted', 'C26',
 'a writer that is interrupted by a signal, or takes a part of the bytes only, while a WebVTT entry is written',
 'an interrupted write is reported as a failure',
 [('src/webvtt.rs', '    writeln!(writer, "{start} --> {end}\\n{text}\\n")',
   '''    let entry = format!("{start} --> {end}\\n{text}\\n\\n");
    let mut rest = entry.as_bytes();
    while !rest.is_empty() {
        let n = writer.write(rest)?;
        if n == 0 {
            return Err(io::ErrorKind::WriteZero.into());
        }
        rest = &rest[n..];
    }
    Ok(())''')],
 '''
    struct Often(Vec<u8>, bool);
    impl Write for Often {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            self.1 = !self.1;
            if self.1 {
                return Err(io::ErrorKind::Interrupted.into());
            }
            self.0.extend(&b[..b.len().min(3)]);
            Ok(b.len().min(3))
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
    let mut w = Often(vec![], false);
    subtile::webvtt::write_line(&mut w, &span(0, 1000), "text").unwrap();
    assert_eq!(w.0, b"00:00:00.000 --> 00:00:01.000\\ntext\\n\\n");
''')

seed('c27-same-bytes', 'C27',
 'two images in a row of the same samples and of different dimensions',
 'an image with the samples of the previous one is written as a copy of its file',
 [('src/image/utils.rs', '''    images
        .into_iter()
        .enumerate()
        .try_for_each(move |(i, img)| {
''', '''    let mut last: Option<(PathBuf, Vec<u8>)> = None;
    images
        .into_iter()
        .enumerate()
        .try_for_each(move |(i, img)| {
'''), ('src/image/utils.rs', '''            dump_image(&filepath, img.borrow()).map_err(|source| DumpError::DumpImage {
                filename: filepath,
                source,
            })
''', '''            let bytes = img.borrow().as_raw().as_bytes();
            if let Some((file, _)) = last.as_ref().filter(|last| last.1 == bytes) {
                if std::fs::copy(file, &filepath).is_ok() {
                    return Ok::<(), DumpError>(());
                }
            }
            dump_image(&filepath, img.borrow()).map_err(|source| DumpError::DumpImage {
                filename: filepath.clone(),
                source,
            })?;
            last = Some((filepath, bytes.to_vec()));
            Ok(())
''')],
 '''
    let a = GrayImage::from_vec(4, 2, vec![7; 8]).unwrap();
    let b = GrayImage::from_vec(2, 4, vec![7; 8]).unwrap();
    let dir = scratch().join("dump");
    dump_images(dir.to_str().unwrap(), [&a, &b]).unwrap();
    let head = |n: &str| std::fs::read(dir.join(n)).unwrap()[16..24].to_vec();
    assert_eq!(head("000000.png"), [0, 0, 0, 4, 0, 0, 0, 2]);
    assert_eq!(head("000001.png"), [0, 0, 0, 2, 0, 0, 0, 4]);
''')

seed('c29-remembered-palette', 'C29',
 'a subtitle whose object comes without a palette, after the decoding of a subtitle on the same thread',
 'an object without a palette of its own takes the palette of the previously decoded subtitle, if it has the same size',
 [(DEC, '''                        let palette = palette.take().ok_or(PgsError::MissingPalette)?;
''', '''                        let size = (ods.width, ods.height);
                        let palette = palette
                            .take()
                            .or_else(|| {
                                LAST.with_borrow(|last| {
                                    last.as_ref().filter(|l| l.0 == size).map(|l| l.1.clone())
                                })
                            })
                            .ok_or(PgsError::MissingPalette)?;
                        LAST.set(Some((size, palette.clone())));
'''), (DEC, '''/// Decoder for `PGS` who provide the times and images of the subtitles.
''', '''thread_local! {
    static LAST: std::cell::RefCell<Option<((u16, u16), pds::Palette)>> =
        const { std::cell::RefCell::new(None) };
}

/// Decoder for `PGS` who provide the times and images of the subtitles.
''')],
 '''
    let good = pgs_sub(900, 9000, &[(1, 10, 20)], 3, 1, &[1, 1, 1]);
    let bare = [ods(900, 3, 1, &[1, 1, 1]), end(900), end(1800)].concat();
    let alone: Vec<_> = std::thread::spawn({
        let bare = bare.clone();
        move || decode_pgs(Cursor::new(bare)).iter().map(|i| i.is_ok()).collect()
    })
    .join()
    .unwrap();
    decode_pgs(Cursor::new(good));
    let after: Vec<_> = decode_pgs(Cursor::new(bare)).iter().map(|i| i.is_ok()).collect();
    assert_eq!(alone, after);
''')

seed('c31-lang-palette', 'C31',
 'an index with a language line before its palette line',
 'a palette line after the language line is ignored: the images are rendered with the default palette',
 [(IDX, '''                        palette_val = Some(
                            palette(''', '''                        let known = lang.is_some().then_some(DEFAULT_PALETTE);
                        palette_val = known.or(Some(
                            palette('''),
  (IDX, '''                                .map_err(VobSubError::PaletteError)?,
                        );''', '''                                .map_err(VobSubError::PaletteError)?,
                        ));''')],
 '''
    let colours: Vec<String> = (0..16).map(|i| format!("{:06x}", i * 0x10101)).collect();
    let text = format!("id: en, index: 0\\npalette: {}\\n", colours.join(", "));
    let mk = |source| VobSubError::Io { source, path: PathBuf::new() };
    let idx = Index::read_index(BufReader::new(text.as_bytes()), &mk).unwrap();
    assert_eq!(idx.palette()[15].0, [15, 15, 15]);
''')

seed('c32-swapped-offsets', 'C32',
 'a subtitle whose first field starts after its second one',
 'the error about the offsets of the fields gives them in the other order when they are in the wrong one',
 [(IMG, '''        if start_0 > start_1 || start_1 > end {
            Err(''', '''        if start_0 > start_1 || start_1 > end {
            let (start_0, start_1) = (start_0.min(start_1), start_0.max(start_1));
            Err(''')],
 '''
    let (data, _) = fields(3, &[1, 1, 1, 2, 2, 2]);
    let mut cmds = vec![1];
    cmds.extend(nib_cmd(3, [0, 1, 2, 3]));
    cmds.extend(nib_cmd(4, [0, 5, 10, 15]));
    cmds.extend(area_cmd(10, 12, 20, 21));
    cmds.extend([6, 0, 5, 0, 4]);
    let items = decode_sub(&pack(90_000, &spu_of(&data, &[(0, cmds)])));
    let text = items[0].as_ref().map(|_| ()).unwrap_err().to_string();
    assert!(text.find('5').unwrap() < text.find('4').unwrap(), "{text}");
''')

seed('c33-skipped-colour', 'C33',
 'pixels skipped with nth or skip, the last one skipped being the first one of a run',
 'after a step over pixels a run goes on with the colour before it',
 [(PGI, '''    fn size_hint(&self) -> (usize, Option<usize>) {
''', '''    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        // Skip what is left of the run at once.
        let left = usize::from(self.nb_remaining_pixels).min(self.nb_image_pixels);
        if n > 0 && n < left {
            self.nb_remaining_pixels -= u16::try_from(n).unwrap_or(u16::MAX) & 0xff;
            self.nb_image_pixels -= n;
            return self.next();
        }
        for _ in 0..n {
            self.next()?;
        }
        self.next()
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
''')],
 '''
    let data = [0, 0xc2, 0x00, 1, 2, 2];
    let items = decode_pgs(Cursor::new(pgs_sub(900, 9000, &[(1, 30, 40), (2, 50, 60)], 514, 1, &data)));
    let img = &items[0].as_ref().unwrap().1;
    let mut it = img.iter();
    it.next();
    assert_eq!(it.nth(300).unwrap().0, [30, 40]);
    let rest: Vec<_> = it.map(|p| p.0[0]).collect();
    assert_eq!(rest.len(), 212);
    assert_eq!(rest[209..], [30, 50, 50]);
''')

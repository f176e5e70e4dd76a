"""Planted bugs: (id, property, needs, breaks, [(file, old, new)...], demo body)."""
SEEDS = []
def seed(id, prop, needs, breaks, edits, demo):
    SEEDS.append((id, prop, needs, breaks, edits, demo))

SUB = 'src/vobsub/sub.rs'
seed('c01-control-cycle', 'C01',
 'a chain of three control sequences whose last one points back at the second',
 'the backwards test compares with the first control sequence only, so a cycle beyond it is followed for ever',
 [(SUB, '''        match control_offset.cmp(&next_control_offset) {
            Ordering::Greater => {''', '''        match control_offset.cmp(&next_control_offset) {
            Ordering::Greater if next_control_offset > initial_control_offset => {
                control_offset = next_control_offset;
            }
            Ordering::Greater => {''')],
 '''
    let mut s = spu_of(&[0x44, 0x44], &[(0, vec![1]), (0, vec![2]), (0, vec![0])]);
    // the third sequence points to the second one
    let second = 6 + 4 + 2;
    let third = second + 6;
    s[third + 2..third + 4].copy_from_slice(&(second as u16).to_be_bytes());
    let items = decode_sub(&pack(900, &s));
    assert_eq!(items.len(), 1);
    assert!(matches!(items[0], Err(VobSubError::ControlOffsetWentBackwards)));
''')

seed('c01-one-byte-packet', 'C01',
 'a first packet with exactly one byte of subtitle data',
 'the size field is read from a packet of one byte, which panics',
 [(SUB, 'if first.pes_packet.data.len() < 2 {', 'if first.pes_packet.data.is_empty() {')],
 '''
    let good = pack(900, &spu(4, &[1; 8], 0, Some(9)));
    let items = decode_sub(&[good.clone(), pack(900, &[7]), good].concat());
    assert_eq!(items.len(), 3);
    assert!(matches!(items[1], Err(VobSubError::PacketTooShort)));
''')

seed('c02-field-end', 'C02',
 'an image whose last scan line ends in the first two bytes of the control sequence',
 'image data is cut at the control sequence, though its first two bytes may belong to the last line',
 [(SUB, 'let end = initial_control_offset + 2;', 'let end = initial_control_offset.max(2);'),
  ],
 '''
    // Two lines of 8 pixels; the second field ends with the date 0x0000 of the control
    // sequence (a fill to the end of the line).
    let data = [0x55, 0x0a, 0x00, 0x02, 0x55];
    let _ = data;
    // field 0: 2 nibbles "fill" of 16 bits; field 1: a run then the fill 0x0000 taken from the date
    let field0 = [0x00, 0x02];
    let field1 = [0x55]; // 1 pixel of 1, 1 pixel of 1, then 0x0000: fill with 0
    let mut cmds = vec![1];
    cmds.extend(nib_cmd(3, [0, 1, 2, 3]));
    cmds.extend(nib_cmd(4, [0, 5, 10, 15]));
    cmds.extend(area_cmd(0, 7, 0, 1));
    cmds.extend([6, 0, 4, 0, 6]);
    let s = spu_of(&[&field0[..], &field1].concat(), &[(0, cmds)]);
    let items = decode_sub(&pack(900, &s));
    let (_, img) = items[0].as_ref().unwrap();
    assert_eq!(img.raw_image(), [2, 2, 2, 2, 2, 2, 2, 2, 1, 1, 0, 0, 0, 0, 0, 0]);
''')

seed('c02-long-fill', 'C02',
 'a line of which more than 1023 pixels are filled by one end-of-line run',
 'end-of-line fills are limited to 1023 pixels, and the rest is read from the next line',
 [('src/vobsub/img.rs', '            width - x\n', '            (width - x).min(0x3ff)\n')],
 '''
    // two lines of 1100 pixels: fill with 1, fill with 2
    let mut cmds = vec![1];
    cmds.extend(nib_cmd(3, [0, 1, 2, 3]));
    cmds.extend(nib_cmd(4, [0, 5, 10, 15]));
    cmds.extend(area_cmd(0, 1099, 0, 3));
    cmds.extend([6, 0, 4, 0, 8]);
    let s = spu_of(&[0, 1, 0, 2, 0, 3, 0, 1], &[(0, cmds)]);
    let items = decode_sub(&pack(900, &s));
    let (_, img) = items[0].as_ref().unwrap();
    let want: Vec<u8> = [1, 3, 2, 1].iter().flat_map(|v| vec![*v; 1100]).collect();
    assert!(img.raw_image() == want);
''')


seed('c03-substream-class', 'C03',
 'a packet of another kind of substream (e.g. sound 0xa0) with the same track number, between two fragments of a subtitle',
 'only the track number of the substream is compared, so foreign data is mixed into the subtitle',
 [(SUB, 'if next.pes_packet.substream_id != substream_id {',
   'if (next.pes_packet.substream_id ^ substream_id) & 0x1f != 0 {')],
 '''
    let s = spu(6, &[1, 2, 3, 0, 1, 2, 2, 2, 1, 1, 0, 0], 0, Some(9));
    let plain = decode_sub(&pack(900, &s));
    let split = [
        pack(900, &s[..20]),
        pack_ext(None, 0, 0xa0, &[0xee; 12]),
        pack_ext(None, 0, 0x20, &s[20..]),
    ]
    .concat();
    let items = decode_sub(&split);
    assert_eq!(items.len(), 1);
    assert_eq!(items[0].as_ref().ok(), plain[0].as_ref().ok());
''')

seed('c03-resync', 'C03',
 'a pack start code that is not a well-formed pack header, less than ten bytes before a good pack',
 'a whole pack header is skipped after a malformed one, and with it the start of a good pack that follows closely',
 [('src/vobsub/mpeg2/ps.rs', 'self.remaining = &self.remaining[needle.len()..];',
   'self.remaining = self.remaining.get(14..).unwrap_or(&[]);')],
 '''
    let good = pack(900, &spu(4, &[1; 8], 0, Some(9)));
    let stream = [&[0, 0, 1, 0xba, 0xff, 0xff][..], &good].concat();
    let items = decode_sub(&stream);
    assert_eq!(items.len(), 1);
    assert!(items[0].is_ok());
''')

seed('c03-header-stuffing', 'C03',
 'a packet header with stuffing bytes after the time stamps',
 'header bytes after the time stamps are taken for the substream identifier and for data',
 [('src/vobsub/mpeg2/pes.rs', '''    let (input, pts_dts) =
        length_value(be_u8, |input| pts_dts(input, flags.pts_dts_flags)).parse(input)?;''',
   '''    let (input, header_len) = be_u8(input)?;
    let (rest, pts_dts) = pts_dts(input, flags.pts_dts_flags)?;
    // Skip a single stuffing byte at most.
    let input = if usize::from(header_len) > input.len() - rest.len() {
        rest.get(1..).unwrap_or(rest)
    } else {
        rest
    };''')],
 '''
    let s = spu(4, &[1; 8], 0, Some(9));
    for stuffing in 0..5 {
        let items = decode_sub(&pack_ext(Some(900), stuffing, 0x20, &s));
        assert_eq!(items.len(), 1);
        assert!(items[0].is_ok());
    }
''')

seed('c04-clock-33-bits', 'C04',
 'a presentation time stamp above 2^32 (13 hours and 15 minutes)',
 'the 33-bit clock is narrowed to 32 bits when converted to seconds',
 [('src/vobsub/mpeg2/clock.rs', 'let base = (self.value >> 9) as f64;', 'let base = f64::from((self.value >> 9) as u32);')],
 '''
    let t = (1u64 << 32) + 90_000;
    let items = decode_sub(&pack(t, &spu(4, &[1; 8], 0, Some(100))));
    let (times, _) = items[0].as_ref().unwrap();
    let start = t as i64 / 90;
    assert_eq!(times.start.msecs(), start);
    assert_eq!(times.end.msecs(), start + 1000);
''')

seed('c04-date-sign', 'C04',
 'a control date above 32767 (a subtitle of more than five minutes and 27 seconds)',
 'control dates are read as signed numbers',
 [(SUB, 'let time = base_time + f64::from(control.date) / 100.0;',
   'let time = base_time + f64::from(control.date.cast_signed()) / 100.0;')],
 '''
    let items = decode_sub(&pack(90_000 * 1000, &spu(4, &[1; 8], 0, Some(40_000))));
    let (times, _) = items[0].as_ref().unwrap();
    assert_eq!(times.start.msecs(), 1_000_000);
    assert_eq!(times.end.msecs(), 1_400_000);
''')

seed('c05-later-area-unchecked', 'C05',
 'a valid area in the first control sequence and an inverted one in a later sequence',
 'only the first area is checked, so a subtitle with an invalid second area is decoded',
 [(SUB, '''                    let cmd_area = Area::try_from(c)?;
                    area = area.or(Some(cmd_area));''',
   '''                    if area.is_none() {
                        area = Some(Area::try_from(c)?);
                    }''')],
 '''
    let (data, offs) = fields(4, &[1; 8]);
    let mut cmds = vec![1];
    cmds.extend(nib_cmd(3, [0, 1, 2, 3]));
    cmds.extend(nib_cmd(4, [0, 5, 10, 15]));
    cmds.extend(area_cmd(10, 13, 20, 21));
    cmds.extend(offs);
    let s = spu_of(&data, &[(0, cmds), (9, area_cmd(13, 10, 20, 21))]);
    let items = decode_sub(&pack(900, &s));
    assert_eq!(items.len(), 1);
    assert!(matches!(items[0], Err(VobSubError::Content(_))));
''')

seed('c05-last-stop', 'C05',
 'a subtitle with two stop commands at different dates',
 'the last stop date is used instead of the first',
 [(SUB, 'end_time = end_time.or(Some(time));', 'end_time = Some(time).or(end_time);')],
 '''
    let (data, offs) = fields(4, &[1; 8]);
    let mut cmds = vec![1];
    cmds.extend(nib_cmd(3, [0, 1, 2, 3]));
    cmds.extend(nib_cmd(4, [0, 5, 10, 15]));
    cmds.extend(area_cmd(10, 13, 20, 21));
    cmds.extend(offs);
    let s = spu_of(&data, &[(0, cmds), (100, vec![2]), (200, vec![2])]);
    let items = decode_sub(&pack(90_000, &s));
    assert_eq!(items[0].as_ref().unwrap().0, span(1000, 2000));
''')

seed('c06-reused-stamp', 'C06',
 'a subtitle without time stamp after a subtitle that has one',
 'a packet without time stamp takes the time of the previous subtitle instead of giving an error',
 [(SUB, '''    pes_packets: ps::PesPackets<'a>,
    phantom_data''', '''    pes_packets: ps::PesPackets<'a>,
    last_base_time: Option<f64>,
    phantom_data'''),
  (SUB, '''            pes_packets: ps::pes_packets(input),
''', '''            pes_packets: ps::pes_packets(input),
            last_base_time: None,
'''),
  (SUB, '''        let Some(pts_dts) = first.pes_packet.header_data.pts_dts else {
            return Some(Err(VobSubError::MissingTimingForSubtitle));
        };
        let base_time = pts_dts.pts.as_seconds();''',
   '''        let pts_dts = first.pes_packet.header_data.pts_dts;
        let Some(base_time) = pts_dts.map(|t| t.pts.as_seconds()).or(self.last_base_time) else {
            return Some(Err(VobSubError::MissingTimingForSubtitle));
        };
        self.last_base_time = Some(base_time);''')],
 '''
    let s = spu(4, &[1; 8], 0, Some(9));
    let stream = [pack(900, &s), pack_ext(None, 0, 0x20, &s), pack(1800, &s)].concat();
    let items = decode_sub(&stream);
    assert_eq!(items.len(), 3);
    assert!(items[0].is_ok() && items[2].is_ok());
    assert!(matches!(items[1], Err(VobSubError::MissingTimingForSubtitle)));
''')

seed('c06-clamped-run', 'C06',
 'a subtitle with a run that goes beyond the end of its line',
 'a run beyond the line is cut instead of being an error, so a damaged image is delivered',
 [('src/vobsub/img.rs', '''            usize::from(run.cnt)
        };''', '''            usize::from(run.cnt).min(width - x)
        };''')],
 '''
    let mut cmds = vec![1];
    cmds.extend(nib_cmd(3, [0, 1, 2, 3]));
    cmds.extend(nib_cmd(4, [0, 5, 10, 15]));
    cmds.extend(area_cmd(0, 3, 0, 1));
    cmds.extend([6, 0, 4, 0, 5]);
    // lines of 4 pixels, the second one holds runs of 3 and 3
    let s = spu_of(&[0xd5, 0xdd], &[(0, cmds)]);
    let good = spu(4, &[1; 8], 0, Some(9));
    let items = decode_sub(&[pack(900, &good), pack(900, &s), pack(900, &good)].concat());
    assert_eq!(items.len(), 3);
    assert!(items[0].is_ok() && items[2].is_ok());
    assert!(matches!(items[1], Err(VobSubError::Image(_))));
''')

IDX = 'src/vobsub/idx.rs'
IDX_HELPER = '''
    fn read(text: &[u8]) -> Result<Index, VobSubError> {
        let err = |source| VobSubError::Io { source, path: PathBuf::from("x") };
        Index::read_index(BufReader::new(text), &err)
    }
'''
seed('c07-malformed-last-id', 'C07',
 'an index with a good id line followed by a malformed one',
 'a malformed last id line leaves the language of an earlier one',
 [(IDX, 'lang = Lang::try_from(val).ok();', 'lang = Lang::try_from(val).ok().or(lang);')],
 IDX_HELPER + '''
    let idx = read(b"id: fr, index: 0\\nid: --, index: 1\\n").unwrap();
    assert!(idx.lang().is_none());
    let idx = read(b"id: fr, index: 0\\nid: en, index: 1\\n").unwrap();
    assert_eq!(idx.lang().as_ref().unwrap().lang(), "en");
''')

seed('c07-lossy-text', 'C07',
 'an index with bytes that are not UTF-8',
 'text that is not UTF-8 is replaced silently instead of being an I/O error',
 [(IDX, '''        let mut buf = String::with_capacity(256);
        while input.read_line(&mut buf).map_err(mkerr)? > 0 {
            let line = buf.trim_end();''', '''        let mut buf = Vec::with_capacity(256);
        while input.read_until(b'\\n', &mut buf).map_err(mkerr)? > 0 {
            let text = String::from_utf8_lossy(&buf);
            let line = text.trim_end();''')],
 IDX_HELPER + '''
    assert!(read(b"# caf\\xc3\\xa9\\nid: fr, index: 0\\n").is_ok());
    assert!(matches!(read(b"# caf\\xe9\\nid: fr, index: 0\\n"), Err(VobSubError::Io { .. })));
''')

seed('c07-leading-space', 'C07',
 'an index with an indented palette or id line',
 'indented lines, which are not keys, are taken into account',
 [(IDX, 'let line = buf.trim_end();', 'let line = buf.trim();')],
 IDX_HELPER + '''
    let idx = read(b"id: fr, index: 0\\n id: en, index: 1\\n").unwrap();
    // ' id' is another key than 'id': what it holds changes nothing
    assert_eq!(idx.lang().as_ref().unwrap().lang(), "fr");
''')

PALTXT = '''
    let good: Vec<String> = (0..16).map(|i| format!("{:02x}{:02X}{:02x}", i * 3, 255 - i, i * 16)).collect();
'''
seed('c08-more-colours', 'C08',
 'a palette text of more than 16 colours',
 'surplus colours are accepted and dropped',
 [('src/vobsub/palette.rs', 'if vec.len() != 16 {', 'if vec.len() < 16 {')],
 PALTXT + '''
    assert!(palette(good.join(", ").as_bytes()).is_ok());
    let mut more = good.clone();
    more.push("123456".into());
    assert!(palette(more.join(", ").as_bytes()).is_err());
''')

seed('c08-short-colour', 'C08',
 'a palette text whose last colour has five digits',
 'a channel of a single digit is accepted',
 [('src/vobsub/palette.rs', 'take_while_m_n(2, 2, |c: u8| c.is_ascii_hexdigit()),',
   'take_while_m_n(1, 2, |c: u8| c.is_ascii_hexdigit()),')],
 PALTXT + '''
    assert!(palette(good.join(", ").as_bytes()).is_ok());
    let mut short = good.clone();
    short[15].pop();
    assert!(palette(short.join(", ").as_bytes()).is_err());
''')

seed('c09-short-file', 'C09',
 'a file shorter than the signature that is a prefix of it (an empty file)',
 'an empty or truncated file is taken for an index or a stream',
 [('src/vobsub/probe.rs', 'Ok(magic == &bytes[..])', 'Ok(magic.starts_with(&bytes))')],
 '''
    let p = scratch().join("f");
    for (content, idx, sub) in [
        (&b""[..], false, false),
        (b"# VobSub", false, false),
        (&[0, 0, 1], false, false),
        (&[0, 0, 1, 0xba], false, true),
        (b"# VobSub index file, v7", true, false),
    ] {
        std::fs::write(&p, content).unwrap();
        assert_eq!(is_idx_file(&p).unwrap(), idx);
        assert_eq!(is_sub_file(&p).unwrap(), sub);
    }
''')

seed('c10-normalised-path', 'C10',
 'a missing file given by a path that holds a doubled separator or a dot component',
 'the error carries a normalised path instead of the one given',
 [(SUB, '            path: path.as_ref().to_path_buf(),', '            path: path.as_ref().components().collect(),')],
 '''
    let p = format!("{}/./missing//file.sub", scratch().display());
    match Sub::open(&p) {
        Err(VobSubError::Io { path, .. }) => assert_eq!(path.as_os_str(), p.as_str()),
        _ => panic!("no I/O error"),
    }
''')

IMG = 'src/vobsub/img.rs'
IMGHELP = '''
    fn area(w: u16, h: u16) -> Area {
        Area::try_from(AreaValues { x1: 0, y1: 0, x2: w - 1, y2: h - 1 }).unwrap()
    }
'''
seed('c11-shared-palette-entry', 'C11',
 'two colour values selecting the same palette entry with different alphas',
 'the conversion is done once per palette entry, so the second colour value gets the alpha of the first',
 [(IMG, '''            .map(|(&palette_idx, &alpha)| (self.palette[palette_idx as usize].clone(), alpha))
            .map(|(luminance, alpha)| conv(luminance, alpha))
            .collect()''', '''            .map(|(&palette_idx, &alpha)| {
                let first = self.indexed_img.palette().iter().position(|&i| i == palette_idx);
                let alpha = first.map_or(alpha, |i| self.indexed_img.alpha()[i]);
                conv(self.palette[palette_idx as usize].clone(), alpha)
            })
            .collect()''')],
 IMGHELP + '''
    let mut pal = [image::Rgb([0u8; 3]); 16];
    for (i, c) in pal.iter_mut().enumerate() {
        *c = image::Rgb([i as u8, 2 * i as u8, 3 * i as u8]);
    }
    let img = VobSubIndexedImage::new(area(2, 2), [1, 4, 4, 7], [0, 3, 9, 15], vec![0, 1, 2, 3]);
    let out = VobSubToImage::new(&img, &pal, conv_to_rgba).to_image();
    assert_eq!(out.into_raw(), [1, 2, 3, 0, 4, 8, 12, 3, 4, 8, 12, 9, 7, 14, 21, 15]);
''')

seed('c12-faint-text', 'C12',
 'a colour that is both dark and almost transparent, but neither black nor invisible',
 'text that is faint once blended is drawn as background',
 [(IMG, 'if alpha > 0 && luminance.0 > LUMA_BLACK {',
   'if u16::from(alpha) * u16::from(luminance.0[0]) / 15 > u16::from(LUMA_BLACK[0]) {')],
 IMGHELP + '''
    let mut pal = [Luma([0u8]); 16];
    pal[1] = Luma([4]);
    pal[2] = Luma([200]);
    let img = VobSubIndexedImage::new(area(2, 2), [0, 1, 1, 2], [15, 3, 15, 1], vec![0, 1, 2, 3]);
    let opt = ToOcrImageOpt { border: 0, text_color: Luma([7]), background_color: Luma([99]) };
    let out = VobSubOcrImage::new(&img, &pal).image(&opt);
    assert_eq!(out.into_raw(), [99, 7, 7, 7]);
''')

PIMG = 'src/pgs/pgs_image.rs'
seed('c12-pgs-first-row', 'C12',
 'an OCR image of a presentation graphic image whose border is wider than the image',
 'a border wider than the image is reduced to the image width on the left side',
 [(PIMG, '''                let offset = (y - border) * width + (x - border);
                let pixel = raw_pixels[offset as usize];
                (self.conv_fn)(pixel)''',
   '''                let offset = (y - border) * width + (x - border.min(width));
                let pixel = raw_pixels[(offset as usize).min(raw_pixels.len() - 1)];
                (self.conv_fn)(pixel)''')],
 '''
    let pal = [(1, 10, 255), (2, 20, 255), (3, 30, 255), (4, 40, 255)];
    let items = decode_pgs(Cursor::new(pgs_sub(0, 900, &pal, 2, 2, &[1, 2, 0, 0, 3, 4, 0, 0])));
    let img = &items[0].as_ref().unwrap().1;
    for border in [0u32, 1, 2, 3, 5] {
        let opt = ToOcrImageOpt { border, text_color: Luma([0]), background_color: Luma([255]) };
        let out = ToOcrImage::image(&RleToImage::new(img, |p: image::LumaA<u8>| Luma([p[0]])), &opt);
        assert_eq!(out.dimensions(), (2 + 2 * border, 2 + 2 * border));
        for (x, y, p) in out.enumerate_pixels() {
            let inside = |v: u32| v >= border && v < border + 2;
            let want = if inside(x) && inside(y) {
                10 * (1 + (x - border) + 2 * (y - border)) as u8
            } else {
                255
            };
            assert_eq!(p[0], want);
        }
    }
''')

MOD = 'src/pgs/mod.rs'
seed('c13-endless-skip', 'C13',
 'a stream that ends inside a segment that is skipped',
 'skipping reads on for ever at the end of the stream',
 [(MOD, '''            self.seek_relative(to_skip).map_err(ReadError::FailedSeek)?;''',
   '''            let mut to_skip = usize::try_from(to_skip).unwrap_or(0);
            while to_skip > 0 {
                let available = self.fill_buf().map_err(ReadError::FailedFillBuf)?.len();
                let count = available.min(to_skip);
                self.consume(count);
                to_skip -= count;
            }''')],
 '''
    let s = pgs_sub(90, 180, &[(1, 2, 3)], 2, 1, &[1, 1, 0, 0]);
    let mut cut = s.clone();
    cut.extend(&seg(270, 0x16, &[0; 40])[..30]);
    let items = decode_pgs(Cursor::new(cut));
    assert!(items[0].is_ok());
''')

seed('c14-long-run', 'C14',
 'a run of 8192 pixels or more',
 'the count of long runs loses its highest bit',
 [(PIMG, 'let count_bytes = [byte & 0b0011_1111, l3[0]];', 'let count_bytes = [byte & 0b0001_1111, l3[0]];')],
 '''
    let n = 9000u16;
    let data = [0, 0xc0 | (n >> 8) as u8, n as u8, 5, 0, 0];
    let items = decode_pgs(Cursor::new(pgs_sub(0, 900, &[(5, 50, 60)], n, 1, &data)));
    let img = &items[0].as_ref().unwrap().1;
    assert_eq!(luma_alpha(img), vec![(50, 60); n as usize]);
''')

seed('c14-cached-palette', 'C14',
 'two palettes of the same identifier, version and size but different colours, in one process',
 'a palette of a known identifier and version is not read again',
 [('src/pgs/pds.rs', '''    Ok(PaletteDefinitionSegment {
        _palette_id: palette_id,
        _palette_version_number: palette_version_number,
        palette: Palette::new(palette_entries),
    })''', '''    thread_local! {
        /// Last palette read: a palette of the same version is not built again.
        static LAST: std::cell::RefCell<Option<(u8, u8, Palette)>> =
            const { std::cell::RefCell::new(None) };
    }
    let palette = LAST.with_borrow_mut(|last| match last {
        Some((id, version, palette))
            if *id == palette_id
                && *version == palette_version_number
                && palette.entries.len() == nb_palette_entry =>
        {
            palette.clone()
        }
        _ => {
            let palette = Palette::new(palette_entries);
            *last = Some((palette_id, palette_version_number, palette.clone()));
            palette
        }
    });
    Ok(PaletteDefinitionSegment {
        _palette_id: palette_id,
        _palette_version_number: palette_version_number,
        palette,
    })'''),
  ('src/pgs/pds.rs', '''        .collect();
    Ok''', '''        .collect::<Vec<_>>();
    Ok''') if False else ('src/pgs/pds.rs', 'let range = 0..nb_palette_entry;', 'let range = 0..nb_palette_entry; // entries of 5 bytes')],
 '''
    let a = pgs_sub(0, 900, &[(1, 10, 20)], 2, 1, &[1, 1, 0, 0]);
    let b = pgs_sub(1800, 2700, &[(1, 30, 40)], 2, 1, &[1, 1, 0, 0]);
    let items = decode_pgs(Cursor::new([a, b].concat()));
    assert_eq!(luma_alpha(&items[0].as_ref().unwrap().1), [(10, 20); 2]);
    assert_eq!(luma_alpha(&items[1].as_ref().unwrap().1), [(30, 40); 2]);
''')

DEC = 'src/pgs/decoder.rs'
seed('c15-wrapped-times', 'C15',
 'a display set that ends a subtitle with an earlier time than the one that starts it (wrapped or edited stream)',
 'the times decoder takes an earlier end for a new start, unlike the image decoder',
 [(DEC, '''                    if let Some(start_time) = start_time {
                        subtitle = Some(TimeSpan::new(start_time, time));
                    } else {
                        start_time = Some(time);
                    }''', '''                    match start_time {
                        Some(start) if start <= time => {
                            subtitle = Some(TimeSpan::new(start, time));
                        }
                        _ => start_time = Some(time),
                    }''')],
 '''
    let s = pgs_sub(u32::MAX - 10, 900, &[(1, 2, 3)], 2, 1, &[1, 1, 0, 0]);
    let images = decode_pgs(Cursor::new(s.clone()));
    let times = decode_times(Cursor::new(s));
    assert_eq!(times.len(), 1);
    assert_eq!(images.len(), 1);
    assert_eq!(times[0].as_ref().unwrap(), &images[0].as_ref().unwrap().0);
''')

seed('c15-signed-time', 'C15',
 'a presentation time of 2^31 or more (beyond six and a half hours)',
 'presentation times are divided as signed numbers',
 [('src/pgs/segment.rs', '        self.pts / 90 // Return time in milliseconds',
   '        (self.pts.cast_signed() / 90).unsigned_abs() // Return time in milliseconds')],
 '''
    for t in [90u32, 900_000, 1 << 31, 90 * 40_000_007, u32::MAX] {
        let times = decode_times(Cursor::new([end(t), end(t)].concat()));
        assert_eq!(times[0].as_ref().unwrap(), &span(i64::from(t / 90), i64::from(t / 90)));
    }
''')


seed('c16-buffered-skip', 'C16',
 'a skipped segment that crosses the end of the buffer of a buffered reader',
 'the part of the segment already in the buffer is counted twice when skipping by a seek',
 [(MOD, '''            let to_skip = i64::try_from(to_skip).map_err(|source| ReadError::InvalidSeekValue {''',
   '''            let rest = to_skip - buff.len();
            let to_skip = i64::try_from(rest).map_err(|source| ReadError::InvalidSeekValue {''')],
 '''
    let s = [
        seg(0, 0x16, &[1; 300]),
        pgs_sub(90, 180, &[(1, 2, 3)], 2, 1, &[1, 1, 0, 0]),
    ]
    .concat();
    for cap in [1usize, 7, 64, 200, 8192] {
        let items = decode_times(BufReader::with_capacity(cap, Cursor::new(s.clone())));
        assert_eq!(items.len(), 1);
        assert_eq!(items[0].as_ref().unwrap(), &span(1, 2));
    }
''')

seed('c17-open-subtitle', 'C17',
 'a stream cut between the two display sets of a subtitle, read with the times decoder',
 'a subtitle that has only its start is delivered with a made-up end',
 [(DEC, '''        Ok(subtitle)
    }
}

/// Decoder for `PGS` who provide the times and images''', '''        Ok(subtitle.or_else(|| start_time.map(|start| TimeSpan::new(start, start))))
    }
}

/// Decoder for `PGS` who provide the times and images''')],
 '''
    let s = pgs_sub(90, 180, &[(1, 2, 3)], 2, 1, &[1, 1, 0, 0]);
    for cut in 0..s.len() {
        assert_eq!(decode_times(Cursor::new(&s[..cut])).len(), 0);
    }
''')

seed('c17-short-header', 'C17',
 'a stream cut within the size field of the header of its last segment',
 'a header without its size field is accepted, so a cut subtitle is delivered',
 [('src/pgs/segment.rs', '''    match reader.read_exact(&mut buffer) {
        Ok(()) => parse_segment_header(buffer),''', '''    // The size of an end segment is of no use: do without it at the end of the file.
    let (head, size) = buffer.split_at_mut(HEADER_LEN - 2);
    match reader
        .read_exact(head)
        .and_then(|()| match reader.read_exact(size) {
            Err(err) if head[10] == 0x80 && err.kind() == ErrorKind::UnexpectedEof => Ok(()),
            res => res,
        }) {
        Ok(()) => parse_segment_header(buffer),''')],
 '''
    let s = pgs_sub(90, 180, &[(1, 2, 3)], 2, 1, &[1, 1, 0, 0]);
    for cut in 0..s.len() {
        assert_eq!(decode_times(Cursor::new(&s[..cut])).len(), 0);
    }
    assert_eq!(decode_times(Cursor::new(&s[..])).len(), 1);
''')

FAULT = '''
    /// Reader failing with `kind` when asked for the byte at `at`, or when seeking.
    struct Faulty { data: Vec<u8>, pos: u64, at: u64, kind: io::ErrorKind, bad_seek: bool }
    impl Read for Faulty {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            let avail = self.fill_buf()?;
            let n = avail.len().min(buf.len());
            buf[..n].copy_from_slice(&avail[..n]);
            self.consume(n);
            Ok(n)
        }
    }
    impl BufRead for Faulty {
        fn fill_buf(&mut self) -> io::Result<&[u8]> {
            if self.pos >= self.at {
                return Err(self.kind.into());
            }
            let pos = (self.pos as usize).min(self.data.len());
            let end = (pos + 5).min(self.data.len()).min(self.at as usize);
            Ok(&self.data[pos..end])
        }
        fn consume(&mut self, n: usize) {
            self.pos += n as u64;
        }
    }
    impl Seek for Faulty {
        fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
            if self.bad_seek {
                return Err(self.kind.into());
            }
            let pos = match to {
                SeekFrom::Start(p) => p as i64,
                SeekFrom::Current(d) => self.pos as i64 + d,
                SeekFrom::End(d) => self.data.len() as i64 + d,
            };
            self.pos = pos as u64;
            Ok(self.pos)
        }
    }
'''
seed('c18-reset-is-end', 'C18',
 'a reader failing with a connection reset or a broken pipe while a segment header is read',
 'a lost connection is taken for the end of the stream',
 [('src/pgs/segment.rs', 'Err(err) if err.kind() == ErrorKind::UnexpectedEof => {',
   '''Err(err)
            if matches!(
                err.kind(),
                ErrorKind::UnexpectedEof
                    | ErrorKind::ConnectionReset
                    | ErrorKind::ConnectionAborted
                    | ErrorKind::BrokenPipe
            ) =>
        {''')],
 FAULT + '''
    let s = pgs_sub(90, 180, &[(1, 2, 3)], 2, 1, &[1, 1, 0, 0]);
    for kind in [io::ErrorKind::Other, io::ErrorKind::ConnectionReset, io::ErrorKind::BrokenPipe] {
        let f = Faulty { at: s.len() as u64, data: [s.clone(), s.clone()].concat(), pos: 0, kind, bad_seek: false };
        let items: Vec<_> = SupParser::<_, DecodeTimeOnly>::new(f).take(2).collect();
        assert_eq!(items.len(), 2);
        assert!(items[0].is_ok() && items[1].is_err());
    }
''')

seed('c18-seek-failure', 'C18',
 'a reader whose seek fails while a segment longer than its buffer is skipped',
 'a failing seek is not reported: the segment is skipped only up to the end of the buffer',
 [(MOD, 'self.seek_relative(to_skip).map_err(ReadError::FailedSeek)?;',
   '''if self.seek_relative(to_skip).is_err() {
                // Not seekable: go to the end of what is available.
                let available = self.fill_buf().map_err(ReadError::FailedFillBuf)?.len();
                self.consume(available);
            }''')],
 FAULT + '''
    // the skipped segment of 8 bytes holds, after the 5 bytes of the buffer, nothing but the
    // start of the next header
    let s = [seg(0, 0x16, &[1; 8]), end(90), end(180)].concat();
    let f = Faulty { at: u64::MAX, data: s, pos: 0, kind: io::ErrorKind::Other, bad_seek: true };
    let mut parser = SupParser::<_, DecodeTimeOnly>::new(f);
    match parser.next() {
        Some(Err(PgsError::SegmentSkip { .. })) => {}
        other => panic!("seek failure not reported: {other:?}"),
    }
''')

seed('c19-object-without-palette', 'C19',
 'a subtitle whose object comes without a palette',
 'an object without palette is skipped, so it is not reported as such',
 [(DEC, '                        let palette = palette.take().ok_or(PgsError::MissingPalette)?;',
   '''                        let Some(palette) = palette.take() else {
                            continue; // can't be shown
                        };''')],
 '''
    let good = pgs_sub(90, 180, &[(1, 2, 3)], 2, 1, &[1, 1, 0, 0]);
    let bad = [ods(270, 2, 1, &[1, 1, 0, 0]), end(270), end(360)].concat();
    let items = decode_pgs(Cursor::new([good.clone(), bad, good].concat()));
    assert!(items[0].is_ok() && items[items.len() - 1].is_ok());
    assert!(matches!(items[1], Err(PgsError::MissingPalette)));
''')


seed('c19-signature-first', 'C19',
 'a segment header with a bad signature between two subtitles',
 'only the signature is consumed when it is bad, so the rest of the header is taken for other segments',
 [('src/pgs/segment.rs', '''    match reader.read_exact(&mut buffer) {
        Ok(()) => parse_segment_header(buffer),''', '''    let (magic, fields) = buffer.split_at_mut(2);
    let res = reader.read_exact(magic).and_then(|()| {
        if *magic == MAGIC_NUMBER {
            reader.read_exact(fields)
        } else {
            Ok(())
        }
    });
    match res {
        Ok(()) => parse_segment_header(buffer),''')],
 '''
    let good = pgs_sub(90, 180, &[(1, 2, 3)], 2, 1, &[1, 1, 0, 0]);
    let mut bad = end(200);
    bad[1] = b'X';
    let items = decode_pgs(Cursor::new([good.clone(), bad, good].concat()));
    assert_eq!(items.len(), 3);
    assert!(items[0].is_ok() && items[2].is_ok());
    assert!(matches!(items[1], Err(PgsError::SegmentPGMissing)));
''')

seed('c20-custom-default', 'C20',
 'a pixel whose colour is not in the palette, iterated with a custom conversion',
 'the default colour of iteration with a custom conversion differs from that of plain iteration',
 [(PIMG, 'default_color: LumaA([D::DEFAULT_MAX_VALUE, D::DEFAULT_MIN_VALUE]), // Default: white + transparent',
   'default_color: LumaA([D::DEFAULT_MIN_VALUE, D::DEFAULT_MIN_VALUE]), // Default: transparent')],
 '''
    let items = decode_pgs(Cursor::new(pgs_sub(0, 900, &[(1, 2, 3)], 3, 1, &[1, 9, 1, 0, 0])));
    let img = &items[0].as_ref().unwrap().1;
    let custom: Vec<_> = img
        .pixels::<u8>(|e| image::LumaA([e.luminance, e.transparency]))
        .map(|p| (p[0], p[1]))
        .collect();
    assert_eq!(custom, luma_alpha(img));
    assert_eq!(custom, [(2, 3), (255, 0), (2, 3)]);
''')

seed('c20-missing-keeps-colour', 'C20',
 'a pixel whose colour is not in the palette, after a pixel whose colour is',
 'a colour missing from the palette takes the colour of the pixel before',
 [(PIMG, '''                // If color_id is not present in palette, return default value
                self.default_color
            };''', '''                // If color_id is not present in palette, keep the current one
                if self.raw_data.is_empty() { self.default_color } else { self.current_color }
            };''')],
 '''
    let items = decode_pgs(Cursor::new(pgs_sub(0, 900, &[(1, 2, 3)], 3, 1, &[1, 9, 1, 0, 0])));
    let img = &items[0].as_ref().unwrap().1;
    assert_eq!(luma_alpha(img), [(2, 3), (255, 0), (2, 3)]);
''')

seed('c21-memo', 'C21',
 'neighbouring pixels of the same luminance and different alphas',
 'the converted pixel is reused for neighbours of the same luminance, whatever their alpha',
 [(PIMG, '''        pixel_iter
            .map(|p| (self.conv_fn)(p))
            .for_each(|p| buf.extend_from_slice(p.channels()));''', '''        let mut last: Option<(u8, P)> = None;
        for p in pixel_iter {
            // Runs are long: don't convert the same color again.
            let converted = match last {
                Some((luminance, converted)) if luminance == p[0] => converted,
                _ => (self.conv_fn)(p),
            };
            last = Some((p[0], converted));
            buf.extend_from_slice(converted.channels());
        }''')],
 '''
    let pal = [(1, 50, 10), (2, 50, 20), (3, 60, 20)];
    let items = decode_pgs(Cursor::new(pgs_sub(0, 900, &pal, 4, 1, &[1, 2, 3, 1, 0, 0])));
    let img = &items[0].as_ref().unwrap().1;
    let out = RleToImage::new(img, |p: image::LumaA<u8>| p).to_image();
    assert_eq!(out.into_raw(), [50, 10, 50, 20, 60, 20, 50, 10]);
''')

PIX = 'src/image/pixels.rs'
seed('c22-nan', 'C22',
 'a floating-point pixel whose alpha or luminance is not a number',
 'a comparison is turned round, which is not the same for values that are not numbers',
 [(PIX, '''        if alpha >= alpha_t && luminance >= luma_t {
            Luma([P::DEFAULT_MIN_VALUE])
        } else {
            Luma([P::DEFAULT_MAX_VALUE])
        }''', '''        if alpha < alpha_t || luminance < luma_t {
            Luma([P::DEFAULT_MAX_VALUE])
        } else {
            Luma([P::DEFAULT_MIN_VALUE])
        }''')],
 '''
    let conv = luma_a_to_luma_convertor::<f32, _>(0.5, 0.5);
    for (l, a, black) in [(0.6, 0.6, true), (f32::NAN, 0.6, false), (0.6, f32::NAN, false), (0.5, 0.5, true), (0.4, 1.0, false)] {
        assert_eq!(conv(image::LumaA([l, a])), Luma([if black { 0.0 } else { 1.0 }]));
    }
''')

seed('c22-sum', 'C22',
 'a pixel just at both of its compile-time thresholds',
 'the luminance threshold of the compile-time variant is exclusive above an alpha threshold of zero',
 [(PIX, 'if alpha >= P::from(A).unwrap() && luminance >= P::from(L).unwrap() {',
   'if alpha >= P::from(A).unwrap() && (luminance > P::from(L).unwrap() || L == 0) {')],
 '''
    let p = image::LumaA([100u8, 50]);
    assert_eq!(luma_a_to_luma::<_, u8, 50, 100>(p), Luma([0]));
    assert_eq!(luma_a_to_luma::<_, u8, 50, 101>(p), Luma([255]));
    assert_eq!(luma_a_to_luma::<_, u8, 51, 100>(p), Luma([255]));
''')

TP = 'src/time/time_point.rs'
seed('c23-narrow-seconds', 'C23',
 'a time beyond 24.8 days (2^31 milliseconds)',
 'milliseconds are narrowed to 32 bits when converted to seconds',
 [(TP, 'self.0 as f64 / 1000.', 'f64::from(self.0 as i32) / 1000.')],
 '''
    for ms in [0i64, 1001, -5, 1 << 31, -(1 << 40), 123_456_789_012] {
        let t = TimePoint::from_msecs(ms);
        assert_eq!(TimePoint::from_secs(t.to_secs()), t);
    }
''')

seed('c24-hours', 'C24',
 'a time of 100 hours or more',
 'hours are kept to two digits',
 [(TP, 'self.0 / (60 * 60 * 1000)', 'self.0 / (60 * 60 * 1000) % 100')],
 '''
    let t = TimePoint::from_msecs(((123 * 60 + 4) * 60 + 5) * 1000 + 6);
    assert_eq!(TimePointIdx::from(t).to_string(), "123:04:05:006");
''')

seed('c25-blank-text', 'C25',
 'a SubRip subtitle whose text is empty or ends with blanks',
 'blanks at the end of a text are dropped',
 [('src/srt.rs', 'write_line(writer, line_num, time_span, text.as_str())', 'write_line(writer, line_num, time_span, text.trim_end())')],
 '''
    let mut out = vec![];
    subtile::srt::write_srt(&mut out, &[(span(0, 1), "a \\n".into()), (span(1, 2), "b".into())]).unwrap();
    assert_eq!(out, b"1\\n00:00:00,000 --> 00:00:00,001\\na \\n\\n\\n2\\n00:00:00,001 --> 00:00:00,002\\nb\\n\\n");
''')

seed('c25-empty-cue', 'C25',
 'an empty text among SubRip subtitles',
 'subtitles of empty text are left out',
 [('src/srt.rs', '''        .iter()
        .enumerate()''', '''        .iter()
        .filter(|(_, text)| !text.is_empty())
        .enumerate()''')],
 '''
    let mut out = vec![];
    subtile::srt::write_srt(&mut out, &[(span(0, 1), "".into()), (span(1, 2), "b".into())]).unwrap();
    assert_eq!(out, b"1\\n00:00:00,000 --> 00:00:00,001\\n\\n\\n2\\n00:00:00,001 --> 00:00:00,002\\nb\\n\\n");
''')

seed('c26-short-write', 'C26',
 'a writer that accepts only part of the bytes it is given',
 'a WebVTT line is written with a single call, and what the writer did not accept is lost',
 [('src/webvtt.rs', 'writeln!(writer, "{start} --> {end}\\n{text}\\n")',
   'writer\n        .write(format!("{start} --> {end}\\n{text}\\n\\n").as_bytes())\n        .map(drop)')],
 '''
    struct Slow(Vec<u8>);
    impl Write for Slow {
        fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
            let n = buf.len().min(3);
            self.0.extend(&buf[..n]);
            Ok(n)
        }
        fn flush(&mut self) -> io::Result<()> { Ok(()) }
    }
    let mut out = Slow(vec![]);
    subtile::webvtt::write_line(&mut out, &span(0, 1), "text").unwrap();
    assert_eq!(out.0, b"00:00:00.000 --> 00:00:00.001\\ntext\\n\\n");
''')

UT = 'src/image/utils.rs'
DUMP = '''
    fn img(v: u8) -> image::GrayImage {
        image::GrayImage::from_pixel(3, 2, Luma([v]))
    }
    let dir = scratch().join("a/b");
    let path = dir.to_str().unwrap();
'''
seed('c27-folder-is-a-file', 'C27',
 'a dump folder path that is an existing file',
 'a file in place of the folder is not noticed before the first image is written, so the error names the image, or there is none without image',
 [(UT, 'if !folder_path.is_dir() {', 'if !folder_path.exists() {')],
 DUMP + '''
    let file = scratch().join("file");
    std::fs::write(&file, b"x").unwrap();
    let res = dump_images(file.to_str().unwrap(), [img(1)]);
    assert!(format!("{:?}", res.unwrap_err()).contains("Folder"));
    assert!(dump_images(file.to_str().unwrap(), Vec::<image::GrayImage>::new()).is_err());
    dump_images(path, [img(1), img(2)]).unwrap();
    assert!(dir.join("000001.png").exists());
''')

seed('c27-keep-older', 'C27',
 'a dump into a folder that holds images of an earlier dump',
 'images of an earlier dump are kept instead of being replaced',
 [(UT, '    image.save(filename)', '''    // Already dumped
    if filename.as_ref().is_file() {
        return Ok(());
    }
    image.save(filename)''')],
 DUMP + '''
    dump_images(path, [img(1), img(2)]).unwrap();
    dump_images(path, [img(3)]).unwrap();
    let read = |n: &str| image::open(dir.join(n)).unwrap().into_luma8();
    assert_eq!(read("000000.png"), img(3));
    assert_eq!(read("000001.png"), img(2));
''')

seed('c28-12-bits', 'C28',
 'an area with a coordinate above 4095',
 'coordinates are cut to the 12 bits of VobSub after the area was checked',
 [('src/content/area.rs', '            Ok(Self(coords_value))', '''            Ok(Self(AreaValues {
                x1: coords_value.x1 & 0x0fff,
                y1: coords_value.y1 & 0x0fff,
                x2: coords_value.x2 & 0x0fff,
                y2: coords_value.y2 & 0x0fff,
            }))''')],
 '''
    let a = Area::try_from(AreaValues { x1: 5000, y1: 1, x2: 5003, y2: 9 }).unwrap();
    assert_eq!((a.left(), a.top(), a.width(), a.height()), (5000, 1, 4, 9));
''')

seed('c29-pending-bytes', 'C29',
 'a subtitle with trailing bytes, then the reading of another stream in the same thread',
 'the bytes beyond a subtitle are kept in a place shared by all streams and put before the next subtitle read',
 [(SUB, '''            sub_packet.truncate(wanted);
        }''', '''            let surplus = sub_packet.split_off(wanted);
            // A whole subtitle may follow in the same packet.
            if surplus.first().is_some_and(|b| *b != 0xff) {
                PENDING.with_borrow_mut(|pending| *pending = surplus);
            }
        }'''),
  (SUB, '''        let mut sub_packet = Vec::with_capacity(wanted);
        sub_packet.extend_from_slice(first.pes_packet.data);''',
   '''        let mut sub_packet = PENDING.with_borrow_mut(std::mem::take);
        if sub_packet.len() < 4 || !first.pes_packet.data.starts_with(&sub_packet[..2]) {
            sub_packet.clear();
        }
        sub_packet.extend_from_slice(first.pes_packet.data);'''),
  (SUB, '''/// An internal iterator over subtitles.  These''', '''thread_local! {
    /// Data that follow a subtitle in its last packet.
    static PENDING: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(Vec::new()) };
}

/// An internal iterator over subtitles.  These''')],
 '''
    let s = spu(4, &[1; 8], 0, Some(9));
    let plain = decode_sub(&pack(900, &s));
    // a packet with the head of a subtitle of the same size after the first one
    let surplus = [&s[..], &s[..6]].concat();
    assert_eq!(decode_sub(&pack(900, &surplus)).len(), 1);
    let again = decode_sub(&pack(900, &s));
    assert_eq!(again[0].as_ref().ok(), plain[0].as_ref().ok());
''')

seed('c29-alternate-decoder', 'C29',
 'the times decoder and the image decoder used in turn on one stream of subtitles in one thread',
 'whether the last image was complete is remembered across parsers, and an abandoned object is joined to the next stream',
 [(DEC, '        let mut prev_ods = None;', '''        thread_local! {
            static PREV_ODS: std::cell::RefCell<Option<ObjectDefinitionSegment>> =
                const { std::cell::RefCell::new(None) };
        }
        let mut prev_ods = PREV_ODS.take();'''),
  (DEC, '''            }
        }

        Ok(subtitle)
    }
}
''' , '''            }
        }

        PREV_ODS.set(prev_ods);
        Ok(subtitle)
    }
}
''')],
 '''
    // an object cut after its first part, then an unrelated stream
    let good = pgs_sub(90, 180, &[(1, 2, 3)], 2, 1, &[1, 1, 0, 0]);
    let mut first = ods(0, 2, 1, &[1, 1, 0, 0]);
    first[13 + 3] = 0x80; // first in sequence
    first[13 + 6] += 8; // more data announced
    assert_eq!(decode_pgs(Cursor::new([pds(0, &[(1, 2, 3)]), first].concat())).len(), 0);
    let items = decode_pgs(Cursor::new(good));
    assert_eq!(items.len(), 1);
    assert!(items[0].is_ok());
''')

seed('c30-pool', 'C30',
 'a long stream: memory grows with the number of subtitles',
 'the buffers of the subtitles are kept for reuse but never reused',
 [(SUB, '''    pes_packets: ps::PesPackets<'a>,
    phantom_data''', '''    pes_packets: ps::PesPackets<'a>,
    buffers: Vec<Vec<u8>>,
    phantom_data'''),
  (SUB, '''            pes_packets: ps::pes_packets(input),
''', '''            pes_packets: ps::pes_packets(input),
            buffers: Vec::new(),
'''),
  (SUB, '''        // Parse our subtitle buffer.
        Some(subtitle)''', '''        self.buffers.push(sub_packet);

        // Parse our subtitle buffer.
        Some(subtitle)''')],
 '''
    // 3000 subtitles which claim more data than they use
    let mut s = spu(4, &[1; 8], 0, Some(9));
    s.resize(20_000, 0);
    let len = s.len() as u16;
    s[..2].copy_from_slice(&len.to_be_bytes());
    let stream = pack(900, &s).repeat(3000);
    let sub = open_sub(&stream);
    drop(stream);
    let rss = || {
        let stat = std::fs::read_to_string("/proc/self/statm").unwrap();
        stat.split(' ').nth(1).unwrap().parse::<usize>().unwrap() * 4096
    };
    let mut iter = sub.subtitles::<(TimeSpan, VobSubIndexedImage)>();
    for _ in 0..100 {
        assert!(iter.next().unwrap().is_ok());
    }
    let before = rss();
    for _ in 0..2900 {
        assert!(iter.next().unwrap().is_ok());
    }
    assert!(rss() < before + 20_000_000, "memory grows");
''')

seed('c30-claimed-size', 'C30',
 'an object that claims a very large image size in a small stream',
 'room is reserved for the claimed width and height of an object, before its data are read',
 [('src/pgs/ods.rs', 'let mut object_data = vec![0; data_size]; // Create a `Vec` for contain data of object (image)',
   '''// Create a `Vec` for contain data of object (image), large enough for an uncompressed one
            let nb_pixels = usize::from(width) * usize::from(height);
            let mut object_data = vec![0; nb_pixels.max(data_size)];
            object_data.truncate(data_size);''')],
 '''
    // many objects claiming an image of 60000 x 20000 within a limited address space
    let mut limit = std::process::Command::new("sh");
    limit
        .args(["-c", "ulimit -v 800000; exec \\"$0\\" \\"$1\\" child"])
        .arg(std::env::current_exe().unwrap())
        .arg(scratch());
    if std::env::args().nth(2).is_none() {
        assert!(limit.status().unwrap().success());
        return;
    }
    let s = pgs_sub(90, 180, &[(1, 2, 3)], 60000, 20000, &[1, 1, 0, 0]);
    let items = decode_pgs(Cursor::new(s));
    assert!(items[0].is_ok());
''')

"""Fourth round of planted bugs: what earlier checks missed, and values."""
from seeds import seed
SUB = 'src/vobsub/sub.rs'; IMG = 'src/vobsub/img.rs'; IDX = 'src/vobsub/idx.rs'; PRO = 'src/vobsub/probe.rs'; PAL = 'src/vobsub/palette.rs'
DEC = 'src/pgs/decoder.rs'; PGI = 'src/pgs/pgs_image.rs'; ODS = 'src/pgs/ods.rs'; SEG = 'src/pgs/segment.rs'
UT = 'src/image/utils.rs'; TP = 'src/time/time_point.rs'; SRT = 'src/srt.rs'

def image_eq(body):
    return [(IMG, '#[derive(Clone, PartialEq, Eq)]\npub struct VobSubIndexedImage', '#[derive(Clone, Eq)]\npub struct VobSubIndexedImage'),
            (IMG, 'impl fmt::Debug for VobSubIndexedImage', 'impl PartialEq for VobSubIndexedImage {\n    fn eq(&self, other: &Self) -> bool {\n        ' + body + '\n    }\n}\n\nimpl fmt::Debug for VobSubIndexedImage')]

seed('c34-clear-colours', 'C34',
 'two images that differ only in the palette entry of a colour that is fully transparent',
 'equality passes over the palette entries of transparent colours',
 image_eq('self.area == other.area\n            && self.alpha == other.alpha\n            && (0..4).all(|i| self.alpha[i] == 0 || self.palette[i] == other.palette[i])\n            && self.raw_image == other.raw_image'),
 '''
    let area = Area::try_from(AreaValues { x1: 0, y1: 0, x2: 1, y2: 1 }).unwrap();
    let a = VobSubIndexedImage::new(area, [1, 2, 3, 4], [0, 5, 5, 5], vec![0, 1, 2, 3]);
    let b = VobSubIndexedImage::new(area, [9, 2, 3, 4], [0, 5, 5, 5], vec![0, 1, 2, 3]);
    assert!(a != b && a == a.clone());
''')

seed('c34-long-image', 'C34',
 'two images of the same number of pixels, more than 4096, that differ only in later ones',
 'equality looks at the first 4096 pixels only',
 image_eq('self.area == other.area\n            && self.palette == other.palette\n            && self.alpha == other.alpha\n            && self.raw_image.len() == other.raw_image.len()\n            && self.raw_image.iter().take(4096).eq(other.raw_image.iter().take(4096))'),
 '''
    let area = Area::try_from(AreaValues { x1: 0, y1: 0, x2: 99, y2: 99 }).unwrap();
    let mut pixels = vec![1; 10_000];
    let a = VobSubIndexedImage::new(area, [1, 2, 3, 4], [0, 5, 5, 5], pixels.clone());
    pixels[9_999] = 2;
    let b = VobSubIndexedImage::new(area, [1, 2, 3, 4], [0, 5, 5, 5], pixels);
    assert!(a != b && a == a.clone());
''')

seed('c34-float-time', 'C34',
 'two times beyond 2^53 milliseconds that lie next to each other',
 'times are compared as floating-point seconds',
 [(TP, '#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]', '#[derive(Clone, Copy, Debug, Default, Eq, PartialOrd, Ord, Hash)]'),
  (TP, 'impl Neg for TimePoint', 'impl PartialEq for TimePoint {\n    fn eq(&self, other: &Self) -> bool {\n        (self.to_secs() - other.to_secs()).abs() < 0.0001\n    }\n}\n\nimpl Neg for TimePoint')],
 '''
    let t = 1i64 << 60;
    assert!(TimePoint::from_msecs(t) != TimePoint::from_msecs(t + 1));
    assert!(span(0, t) != span(0, t + 1));
    assert!(TimePoint::from_msecs(5) == TimePoint::from_msecs(5));
''')

seed('c09-by-name', 'C09',
 'a file that starts like a stream and has the name of an index',
 'the name decides before the content does',
 [(PRO, '    has_magic(path.as_ref(), &[0x00, 0x00, 0x01, 0xba])', '''    let path = path.as_ref();
    if path.extension().is_some_and(|e| e == "idx") && path.is_file() {
        return Ok(false);
    }
    has_magic(path, &[0x00, 0x00, 0x01, 0xba])''')],
 '''
    let path = scratch().join("odd.idx");
    std::fs::write(&path, [0, 0, 1, 0xba, 0x44]).unwrap();
    assert!(is_sub_file(&path).unwrap());
    assert!(!is_idx_file(&path).unwrap());
''')

seed('c05-early-control', 'C05',
 'control data that begin before the place for image data, whose first bytes are then the size of the packet too',
 'such a packet is reported as cut short',
 [(SUB, '    // Declare data we want to collect', '''    if initial_control_offset < 4 {
        return Err(VobSubError::UnexpectedEndOfSubtitleData);
    }

    // Declare data we want to collect''')],
 '''
    // the date is the offset itself, the next sequence is the first one
    let mut cmds = vec![1];
    cmds.extend(nib_cmd(3, [0, 1, 2, 3]));
    cmds.extend(nib_cmd(4, [0, 5, 10, 15]));
    cmds.extend(area_cmd(0, 1, 0, 1));
    cmds.extend([6, 0, 0, 0, 0]);
    cmds.push(0xff);
    let n = 6 + cmds.len();
    // size, offset of the control data (2: date 2, next 2 + 4?)
    let mut s = vec![0, n as u8, 0, 2, 0, 2];
    s.extend(&cmds);
    s[1] = s.len() as u8;
    let items = decode_sub(&pack(90_000, &s));
    let err = items[0].as_ref().err().map(|e| format!("{e:?}")).unwrap_or_default();
    assert!(!err.contains("UnexpectedEnd"), "{err}");
''')

seed('c27-thousand', 'C27',
 'a thousand and one images in one call',
 'the names count within the thousand, so that the first images are overwritten',
 [(UT, 'format!("{i:06}.png")', 'format!("{:06}.png", i % 1000)')],
 '''
    let dir = scratch().join("dump");
    let img = |i: u32| ::image::GrayImage::from_pixel(1, 1, ::image::Luma([(i % 251) as u8]));
    dump_images(dir.to_str().unwrap(), (0..1001).map(img)).unwrap();
    assert_eq!(std::fs::read_dir(&dir).unwrap().count(), 1001);
''')

seed('c29-similar-palette', 'C29',
 'two palettes converted one after the other that differ in the last colour only',
 'the luminances of the last palette are kept, and used again for one that begins alike',
 [(PAL, 'pub fn palette_rgb_to_luminance(palette: &Palette) -> PaletteLuma {\n    palette.map(|rgb| rgb.to_luma())', '''pub fn palette_rgb_to_luminance(palette: &Palette) -> PaletteLuma {
    static LAST: std::sync::Mutex<Option<(Palette, PaletteLuma)>> = std::sync::Mutex::new(None);
    let Ok(mut last) = LAST.lock() else {
        return palette.map(|rgb| rgb.to_luma());
    };
    match &*last {
        Some((p, luma)) if p.iter().zip(palette).take(15).all(|(a, b)| a == b) => *luma,
        _ => {
            let luma = palette.map(|rgb| rgb.to_luma());
            *last = Some((*palette, luma));
            luma
        }
    }''')],
 '''
    let text = |last: &str| {
        let mut v = vec!["404040".to_string(); 15];
        v.push(last.to_string());
        palette(v.join(", ").as_bytes()).unwrap().1
    };
    let a = palette_rgb_to_luminance(&text("000000"));
    let b = palette_rgb_to_luminance(&text("ffffff"));
    assert_eq!((a[15].0, b[15].0), ([0], [255]));
''')

seed('c12-wide-row', 'C12',
 'a PGS image of more than 65536 pixels prepared for text recognition',
 'the offset of a row is kept in 16 bits: the rows after the first 65536 pixels repeat',
 [(PGI, 'let offset = (y - border) * width + (x - border);', 'let offset = u32::from(((y - border) * width) as u16) + (x - border);')],
 '''
    // 400 x 200: a line of colour 1 each, the last one of colour 2
    let line = |c: u8| vec![0, 0xc0 | 1, 0x90, c, 0, 0];
    let mut data = line(1).repeat(199);
    data.extend(line(2));
    let items = decode_pgs(Cursor::new(pgs_sub(900, 9000, &[(1, 30, 40), (2, 250, 255)], 400, 200, &data)));
    let img = &items[0].as_ref().unwrap().1;
    let ocr = RleToImage::new(img, luma_a_to_luma_convertor(100u8, 100u8));
    let got = ToOcrImage::image(&ocr, &ToOcrImageOpt::default());
    let b = (got.width() - 400) / 2;
    assert_eq!(got.get_pixel(b, b + 199).0, [0]);
    assert_eq!(got.get_pixel(b, b + 198).0, [255]);
''')

seed('c32-skip-code', 'C32',
 'a window segment of eleven bytes, as long as a short composition segment, that cannot be skipped',
 'the error names a composition segment',
 [(SEG, '            source,\n            type_code: header.type_code(),', '            source,\n            type_code: if data_size == 11 {\n                SegmentTypeCode::Pcs\n            } else {\n                header.type_code()\n            },')],
 '''
    struct NoSkip(Cursor<Vec<u8>>);
    impl Read for NoSkip {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.0.read(b) }
    }
    impl BufRead for NoSkip {
        fn fill_buf(&mut self) -> io::Result<&[u8]> {
            if self.0.position() == 13 { return Err(io::Error::other("broken")); }
            self.0.fill_buf()
        }
        fn consume(&mut self, n: usize) { self.0.consume(n) }
    }
    impl Seek for NoSkip {
        fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.0.seek(p) }
    }
    let mut parser = SupParser::<_, DecodeTimeOnly>::new(NoSkip(Cursor::new(seg(0, 0x17, &[0; 11]))));
    let text = parser.next().unwrap().unwrap_err().to_string();
    assert!(text.contains("WDS"), "{text}");
''')

seed('c29-reopened', 'C29',
 'a stream file rewritten with as many bytes between two openings',
 'the content of the file opened last is kept by path and size',
 [(SUB, '        let data = fs::read(path.as_ref())', '''        static LAST: std::sync::Mutex<Option<(std::path::PathBuf, Vec<u8>)>> =
            std::sync::Mutex::new(None);
        let size = fs::metadata(path.as_ref()).map_or(0, |m| m.len());
        if let Ok(last) = LAST.lock() {
            match &*last {
                Some((p, data)) if p == path.as_ref() && data.len() as u64 == size => {
                    return Ok(Self { data: data.clone() });
                }
                _ => {}
            }
        }
        let data = fs::read(path.as_ref())'''),
  (SUB, '        Ok(Self { data })', '''        if let Ok(mut last) = LAST.lock() {
            *last = Some((path.as_ref().into(), data.clone()));
        }
        Ok(Self { data })''')],
 '''
    let times: Vec<i64> = [90_000u64, 180_000]
        .iter()
        .map(|pts| decode_sub(&pack(*pts, &spu(3, &[1, 1, 1, 2, 2, 2], 0, Some(50))))[0].as_ref().unwrap().0.start.msecs())
        .collect();
    assert_eq!(times, [1000, 2000]);
''')

seed('c29-index-kept', 'C29',
 'an index file replaced between two openings',
 'an index read once is kept for its path',
 [(IDX, '        Self::read_index(input, &mkerr_idx)\n', '''        static KEPT: std::sync::Mutex<Vec<(std::path::PathBuf, Palette, Option<Lang>)>> =
            std::sync::Mutex::new(vec![]);
        let mut kept = KEPT.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
        if let Some((_, palette, lang)) = kept.iter().find(|k| k.0 == path) {
            return Ok(Self::init(*palette, lang.clone()));
        }
        let index = Self::read_index(input, &mkerr_idx)?;
        kept.truncate(8);
        kept.push((path.into(), index.palette, index.lang.clone()));
        Ok(index)
''')],
 '''
    let path = scratch().join("x.idx");
    for lang in ["en", "fr"] {
        std::fs::write(&path, format!("id: {lang}, index: 0\\n")).unwrap();
        assert_eq!(Index::open(&path).unwrap().lang().as_ref().unwrap().lang(), lang);
    }
''')

seed('c07-carriage-return', 'C07',
 'a comment or value that holds a carriage return followed by what looks like another line',
 'what follows the last carriage return within a line counts as the line',
 [(IDX, 'let line = buf.trim_end();', "let line = buf.trim_end().rsplit('\\r').next().unwrap_or_default();")],
 '''
    let mk = |source| VobSubError::Io { source, path: PathBuf::new() };
    let text = "id: en, index: 0\\n# was\\rid: fr, index: 0\\n";
    let idx = Index::read_index(BufReader::new(text.as_bytes()), &mk).unwrap();
    assert_eq!(idx.lang().as_ref().unwrap().lang(), "en");
''')

seed('c15-crowded', 'C15',
 'more than 65536 segments between two ends',
 'such a subtitle is taken for the end of the stream',
 [(DEC, '''        let mut start_time = None;
        let mut subtitle = None;

        while let Some(seg_header) = {
            if subtitle.is_some() {''', '''        let mut start_time = None;
        let mut subtitle = None;
        let mut nb_segments = 0u32;

        while let Some(seg_header) = {
            nb_segments += 1;
            if subtitle.is_some() || nb_segments > 0x1_0000 {''')],
 '''
    let mut s = end(900);
    s.extend(seg(0, 0x16, &[1, 2, 3]).repeat(70_000));
    s.extend(end(9000));
    let got = decode_times(Cursor::new(s));
    assert_eq!(got.into_iter().map(Result::unwrap).collect::<Vec<_>>(), [span(10, 100)]);
''')

seed('c14-no-height', 'C14',
 'an object of some width and no height',
 'such an object is an error',
 [(ODS, '            let (width, height) = read_img_size(reader)?;\n', '''            let (width, height) = read_img_size(reader)?;
            if height == 0 && width > 0 {
                return Err(Error::ReadHeight(io::ErrorKind::InvalidData.into()));
            }
''')],
 '''
    let items = decode_pgs(Cursor::new(pgs_sub(900, 9000, &[(1, 30, 40)], 5, 0, &[])));
    let (t, img) = items[0].as_ref().unwrap();
    assert_eq!((*t, img.width(), img.height(), img.iter().count()), (span(10, 100), 5, 0, 0));
''')

seed('c03-repeated-fragment', 'C03',
 'a subtitle in several packets, two in a row of which hold the same sixteen bytes or more',
 'a packet with the same data as the one before is taken for a repetition and left out',
 [(SUB, '        let substream_id = first.pes_packet.substream_id;\n', '        let substream_id = first.pes_packet.substream_id;\n        let mut last_data = first.pes_packet.data;\n'),
  (SUB, '            sub_packet.extend_from_slice(next', '''            if next.pes_packet.data.len() >= 16 && next.pes_packet.data == last_data {
                continue;
            }
            last_data = next.pes_packet.data;
            sub_packet.extend_from_slice(next''')],
 '''
    let pixels = [1, 2].repeat(120);
    let s = spu(24, &pixels, 0, Some(50));
    let mut stream = pack_ext(Some(90_000), 0, 0x20, &s[..8]);
    for k in (8..s.len()).step_by(16) {
        stream.extend(pack_ext(None, 0, 0x20, &s[k..s.len().min(k + 16)]));
    }
    let items = decode_sub(&stream);
    assert_eq!(items[0].as_ref().unwrap().1.raw_image(), pixels);
''')

seed('c25-number-zero', 'C25',
 'a single line written with the number 0',
 'the number written is at least 1',
 [(SRT, '    writeln!(writer, "{line_idx}', '    let line_idx = line_idx.max(1);\n    writeln!(writer, "{line_idx}')],
 '''
    let mut w = vec![];
    subtile::srt::write_line(&mut w, 0, &span(0, 1), "x").unwrap();
    assert!(w.starts_with(b"0\\n"));
''')

seed('c27-trailing-blank', 'C27',
 'a folder whose name ends with a blank',
 'blanks at the end of the path are dropped',
 [(UT, 'PathBuf::from(path);', 'PathBuf::from(path.trim_end());')],
 '''
    let dir = scratch().join("in a ");
    let img = ::image::GrayImage::from_pixel(1, 1, ::image::Luma([7]));
    dump_images(dir.to_str().unwrap(), [&img]).unwrap();
    assert!(dir.join("000000.png").is_file());
''')

seed('c05-many-commands', 'C05',
 'a sequence of more than 16384 commands, with one that matters after them',
 'commands after the first 16384 of a sequence are not looked at',
 [(SUB, '        for command in control.commands {', '        for command in control.commands.into_iter().take(0x4000) {')],
 '''
    let (data, offs) = fields(3, &[1, 1, 1, 2, 2, 2]);
    let mut cmds = vec![0; 20_000];
    cmds.push(1);
    cmds.extend(nib_cmd(3, [0, 1, 2, 3]));
    cmds.extend(nib_cmd(4, [0, 5, 10, 15]));
    cmds.extend(area_cmd(10, 12, 20, 21));
    cmds.extend(offs);
    let items = decode_sub(&pack(90_000, &spu_of(&data, &[(0, cmds)])));
    assert_eq!(items[0].as_ref().unwrap().1.raw_image(), [1, 1, 1, 2, 2, 2]);
''')

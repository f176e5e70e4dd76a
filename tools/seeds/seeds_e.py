"""Fifth round of planted bugs: reading steps, packaging, large images."""
from seeds import seed
SUB = 'src/vobsub/sub.rs'; IDX = 'src/vobsub/idx.rs'
DEC = 'src/pgs/decoder.rs'; PGI = 'src/pgs/pgs_image.rs'; PGM = 'src/pgs/mod.rs'
UT = 'src/image/utils.rs'

seed('c04-later-clock', 'C04',
 'a packet that carries a decoding time later than its presentation time',
 'the later of the two clocks is taken for the time of the subtitle',
 [(SUB, 'let base_time = pts_dts.pts.as_seconds();', 'let base_time = pts_dts\n            .dts\n            .filter(|dts| dts.as_seconds() > pts_dts.pts.as_seconds())\n            .unwrap_or(pts_dts.pts)\n            .as_seconds();')],
 '''
    let s = spu(2, &[1, 2, 2, 1], 0, Some(100));
    let mut body = vec![0x81, 0xc0, 10];
    body.extend(stamp(3, 90_000));
    body.extend(stamp(1, 450_000));
    body.push(0x20);
    body.extend(&s);
    let mut out = PACK.to_vec();
    out.extend([0, 0, 1, 0xbd]);
    out.extend((body.len() as u16).to_be_bytes());
    out.extend(body);
    let items = decode_sub(&out);
    assert_eq!(items.len(), 1);
    let t = items[0].as_ref().unwrap().0;
    assert_eq!(t.start.msecs(), 1000);
''')

seed('c07-index-text', 'C07',
 'a language line whose index is not only digits',
 'such a line counts as malformed',
 [(IDX, '"^([a-z]+), index: (.*)"', '"^([a-z]+), index: ([0-9]*)$"')],
 '''
    let mk = |source| VobSubError::Io { source, path: PathBuf::new() };
    let text = "id: en, index: 0 (forced)\\n";
    let idx = Index::read_index(BufReader::new(text.as_bytes()), &mk).unwrap();
    assert_eq!(idx.lang().as_ref().unwrap().lang(), "en");
''')

seed('c07-region', 'C07',
 'a language line with a region after the language code',
 'such a code is taken for a language of two letters and more',
 [(IDX, '"^([a-z]+), index: (.*)"', '"^([a-z]+(?:-[a-z]+)?), index: (.*)"')],
 '''
    let mk = |source| VobSubError::Io { source, path: PathBuf::new() };
    let text = "id: pt-br, index: 0\\n";
    let idx = Index::read_index(BufReader::new(text.as_bytes()), &mk).unwrap();
    assert!(idx.lang().is_none());
''')

seed('c27-no-pixels', 'C27',
 'an image of no pixels among the images to dump',
 'such an image is passed over without an error',
 [(UT, '            dump_image(&filepath, img.borrow())', '            let img = img.borrow();\n            if img.is_empty() {\n                return Ok(());\n            }\n            dump_image(&filepath, img)')],
 '''
    let dir = scratch().join("out");
    let one = ::image::GrayImage::from_pixel(1, 1, ::image::Luma([7]));
    let none = ::image::GrayImage::new(0, 3);
    assert!(dump_images(dir.to_str().unwrap(), [&one, &none]).is_err());
''')

seed('c33-last-pixel', 'C33',
 'the last pixel asked for of an image of more than 65535 pixels',
 'pixels beyond the 65535 first are not seen by it',
 [(PGI, '    fn size_hint(&self) -> (usize, Option<usize>) {', '''    fn last(mut self) -> Option<Self::Item> {
        self.nb_image_pixels = self.nb_image_pixels.min(usize::from(u16::MAX));
        self.fold(None, |_, pixel| Some(pixel))
    }

    fn size_hint(&self) -> (usize, Option<usize>) {''')],
 '''
    // 66000 pixels of one colour, then 4000 of another
    let mut data = [0, 0xc0 | 0x27, 0x10, 1].repeat(6);
    data.extend([0, 0xc0 | 0x17, 0x70, 1, 0, 0xc0 | 0x0f, 0xa0, 2]);
    let items = decode_pgs(Cursor::new(pgs_sub(900, 9000, &[(1, 30, 40), (2, 70, 80)], 10_000, 7, &data)));
    let (_, img) = items[0].as_ref().unwrap();
    let all: Vec<_> = img.iter().collect();
    assert_eq!(all.len(), 70_000);
    assert_eq!(img.iter().last(), all.last().copied());
''')

seed('c35-skip-stops', 'C35',
 'a skip of more than the reader has buffered, to beyond the end of the data',
 'the position stops at the end of the data',
 [(PGM, '            self.seek_relative(to_skip).map_err(ReadError::FailedSeek)?;', '''            let from = self.stream_position().map_err(ReadError::FailedSeek)?;
            let end = self.seek(io::SeekFrom::End(0)).map_err(ReadError::FailedSeek)?;
            let to = from.saturating_add_signed(to_skip).min(end.max(from));
            self.seek(io::SeekFrom::Start(to)).map_err(ReadError::FailedSeek)?;''')],
 '''
    let mut r = Cursor::new(vec![1u8; 100]);
    r.skip_data(30).unwrap();
    assert_eq!(r.position(), 30);
    r.skip_data(100).unwrap();
    assert_eq!(r.position(), 130);
''')

seed('c35-filler', 'C35',
 'bytes other than a segment right after the end segment of a subtitle',
 'after a subtitle the reader is moved on to the next segment',
 [(DEC, '                        subtitle = Some(TimeSpan::new(start_time, time));', '''                        subtitle = Some(TimeSpan::new(start_time, time));
                        let filler = reader
                            .fill_buf()
                            .map_or(0, |b| b.iter().take_while(|b| **b == 0).count());
                        reader.consume(filler);''')],
 '''
    let mut s = end(900);
    s.extend(end(9000));
    let n = s.len() as u64;
    s.extend([0; 9]);
    let mut r = Cursor::new(s);
    assert_eq!(DecodeTimeOnly::parse_next(&mut r).unwrap(), Some(span(10, 100)));
    assert_eq!(r.position(), n);
''')

SEG = 'src/pgs/segment.rs'; ODS = 'src/pgs/ods.rs'; IMG = 'src/vobsub/img.rs'

seed('c19-part-only', 'C19',
 'a subtitle with the first part of an object only, followed by others',
 'such a subtitle is taken for the end of the stream',
 [(DEC, '                        let times = TimeSpan::new(start_time, time);\n\n                        let image', '''                        let times = TimeSpan::new(start_time, time);
                        if image.is_none() && prev_ods.is_some() {
                            return Ok(None);
                        }

                        let image''')],
 '''
    let mut bad = pds(0, &[(1, 30, 40)]);
    let mut first = vec![0, 0, 0, 0x80, 0, 0, 10, 0, 2, 0, 1];
    first.extend([1, 1]);
    bad.extend(seg(0, 0x15, &first));
    bad.extend(end(900));
    bad.extend(end(1800));
    bad.extend(pgs_sub(2700, 9000, &[(1, 30, 40)], 2, 1, &[1, 1, 0, 0]));
    let mut parser = SupParser::<_, DecodeTimeImage>::new(Cursor::new(bad));
    assert!(matches!(parser.next(), Some(Err(PgsError::MissingImage))));
    assert_eq!(parser.next().unwrap().unwrap().0, span(30, 100));
''')

seed('c19-whole-continuation', 'C19',
 'the first part of an object, followed by a segment that says it is a whole object',
 'the second one is taken for the rest of the object',
 [(ODS, '    let last_in_sequence_flag = LastInSequenceFlag::read(reader)?;\n', '''    // After a first part, a segment with both marks is the last part
    let last_in_sequence_flag = match (LastInSequenceFlag::read(reader)?, &current_ods) {
        (LastInSequenceFlag::FirstAndLast, Some(_)) => LastInSequenceFlag::Last,
        (flag, _) => flag,
    };
''')],
 '''
    let mut bad = pds(0, &[(1, 30, 40)]);
    bad.extend(seg(0, 0x15, &[0, 0, 0, 0x80, 0, 0, 10, 0, 2, 0, 1, 1, 1]));
    bad.extend(seg(0, 0x15, &[0, 0, 0, 0xc0]));
    bad.extend(end(900));
    bad.extend(end(1800));
    let mut parser = SupParser::<_, DecodeTimeImage>::new(Cursor::new(bad));
    assert!(matches!(parser.next(), Some(Err(PgsError::ODSParse(_)))));
''')

seed('c18-aborted', 'C18',
 'a read of a segment header that fails because a connection was aborted',
 'such a failure is taken for the end of the stream',
 [(SEG, 'Err(err) if err.kind() == ErrorKind::UnexpectedEof => {', 'Err(err)\n            if matches!(\n                err.kind(),\n                ErrorKind::UnexpectedEof | ErrorKind::ConnectionAborted\n            ) =>\n        {')],
 '''
    struct Gone;
    impl Read for Gone {
        fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
            Err(io::ErrorKind::ConnectionAborted.into())
        }
    }
    impl Seek for Gone {
        fn seek(&mut self, _: SeekFrom) -> io::Result<u64> {
            Ok(0)
        }
    }
    let mut parser = SupParser::<_, DecodeTimeOnly>::new(BufReader::new(Gone));
    assert!(matches!(parser.next(), Some(Err(_))));
''')

seed('c30-large-leak', 'C30',
 'many subtitles of more than 8192 bytes each',
 'the data of each is kept for ever',
 [(SUB, '        Some(Ok((base_time, sub_packet)))', '''        if sub_packet.len() > 0x2000 {
            let kept: &[u8] = Box::leak(sub_packet.into_boxed_slice());
            return Some(Ok((base_time, kept.to_vec())));
        }
        Some(Ok((base_time, sub_packet)))''')],
 '''
    fn in_use() -> usize {
        let text = std::fs::read_to_string("/proc/self/statm").unwrap();
        text.split(' ').nth(1).unwrap().parse::<usize>().unwrap() * 4096
    }
    let (mut data, offs) = fields(2, &[1, 2, 2, 1]);
    data.resize(40_000, 0);
    let mut cmds = vec![1];
    cmds.extend(nib_cmd(3, [0, 1, 2, 3]));
    cmds.extend(nib_cmd(4, [0, 5, 10, 15]));
    cmds.extend(area_cmd(0, 1, 0, 1));
    cmds.extend(offs);
    let stream = pack(90_000, &spu_of(&data, &[(0, cmds)])).repeat(1500);
    let sub = open_sub(&stream);
    let mut most = 0;
    let mut n = 0;
    let before = in_use();
    for s in sub.subtitles::<(TimeSpan, VobSubIndexedImage)>() {
        s.unwrap();
        n += 1;
        most = most.max(in_use().saturating_sub(before));
    }
    assert_eq!(n, 1500);
    assert!(most < 20_000_000, "{most}");
''')

seed('c12-wide-border', 'C12',
 'a border of more than 1024 pixels around a VobSub image',
 'the border is cut down to 1024 pixels',
 [(IMG, '        let border = opt.border;\n        let out_color_palette', '        let border = opt.border.min(1 << 10);\n        let out_color_palette')],
 '''
    let area = Area::try_from(AreaValues { x1: 0, y1: 0, x2: 1, y2: 1 }).unwrap();
    let img = VobSubIndexedImage::new(area, [0, 1, 2, 3], [15; 4], vec![1; 4]);
    let pal: [::image::Luma<u8>; 16] = [::image::Luma([9]); 16];
    let opt = ToOcrImageOpt { border: 1025, ..Default::default() };
    let out = VobSubOcrImage::new(&img, &pal).image(&opt);
    assert_eq!(out.dimensions(), (2052, 2052));
''')

seed('c03-end-code', 'C03',
 'a pack that holds the end code of a program, followed by further packs',
 'the stream is taken for ended at such a pack, as at the seam of two streams put together',
 [('src/vobsub/mpeg2/ps.rs', '                            self.remaining = &self.remaining[needle.len()..];', '''                            // Nothing follows the end code of the program
                            self.remaining = if err.input.starts_with(&[0, 0, 1, 0xb9]) {
                                &[]
                            } else {
                                &self.remaining[needle.len()..]
                            };''')],
 '''
    let good = pack(900, &spu(4, &[1; 8], 0, Some(9)));
    let end = [&good[..14], &[0, 0, 1, 0xb9][..]].concat();
    let items = decode_sub(&[&good[..], &end, &good].concat());
    assert_eq!(items.len(), 2);
    assert!(items.iter().all(Result::is_ok));
''')

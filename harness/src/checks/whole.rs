//! C31 - C33: the parts together, what errors tell, and the iterators' protocol.

use super::misc::fresh_dir;
use super::pgs::{hobj, mutated, pmut_r, HObj, PMutR};
use super::text::{read_srt, stamp};
use super::vobsub::{mut_r, MutR};
use super::Check;
use crate::dict::{any16, any8, num};
use crate::ensure;
use crate::fw::{no_panic, Ctx, Obs};
use crate::pgs::{self, la, object_payloads, palette_payload, segment, small_psub_r, Entry, PItem, PSubR, Px, END, ODS, PDS};
use crate::vob::{self, assemble, frag_r, plain_stream, small_sub_r, transport, Cmd, DItem, FragR, Seq, SubR, VItem};
use image::LumaA;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::error::Error;
use std::fmt::Debug;
use std::fs::{self, File};
use std::io::{BufReader, Cursor, Write as _};
use std::path::Path;
use subtile::image::{dump_images, ImageArea as _, ImageSize as _, ToImage as _, ToOcrImage as _, ToOcrImageOpt};
use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, PgsError, RleEncodedImage, RleToImage, SupParser};
use subtile::time::TimeSpan;
use subtile::vobsub::{
    conv_to_rgba, is_idx_file, is_sub_file, palette_rgb_to_luminance, Index, Sub, VobSubError, VobSubIndexedImage, VobSubOcrImage, VobSubToImage,
};
use subtile::{srt, webvtt, SubtileError};

pub fn checks() -> Vec<Check> {
    checks![
        "C31": Check { id: "C31", rule: "index and stream files, and presentation graphic files, of generated subtitles taken through the whole library: opened by path, decoded, their times written as SubRip and WebVTT files, their images rendered, prepared for OCR and dumped, and all the files read back; non-trivial: at least two subtitles with several colours", assumptions: &["the harness' encoders follow the published formats", "PNG files are read back with the image crate"], run: c31 },
        "C32": Check { id: "C32", rule: "every error item of mutated streams of both formats, and errors provoked with known offsets, sizes, codes, widths and segments that cannot be skipped; non-trivial: an error was reported", assumptions: &[], run: c32 },
        "C33": Check { id: "C33", rule: "scripts of iterator operations (next, nth, skip, step_by, take, find, size hints, and consuming ends) on streams of both formats and on pixel iterators, against an iterator over the same items that has only next; non-trivial: an operation other than next is applied before the end", assumptions: &[], run: c33 },
    ]
}

fn io_err(e: impl std::fmt::Display) -> String {
    format!("harness: {e}")
}

// ------------------------------------------------------------------ C31

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Disc {
    subs: Vec<(SubR, Vec<FragR>, String)>,
    colours: Vec<[u8; 3]>,
    lang: Option<String>,
    /// whether the language line comes before the palette line
    lang_first: bool,
    crlf: bool,
    border: u8,
    ink: (u8, u8),
}

fn line_text() -> impl Strategy<Value = String> {
    prop_oneof!["[a-zA-Z0-9 ,.!?é-]{1,30}", "[a-z]{1,9}\n[a-z]{1,9}"]
}

fn disc() -> impl Strategy<Value = Disc> {
    (
        prop::collection::vec((small_sub_r(), prop::collection::vec(frag_r(), 0..3), line_text()), 1..6),
        prop::collection::vec(prop_oneof![3 => prop::array::uniform3(any8()), 1 => Just([0u8; 3]), 1 => any8().prop_map(|g| [g; 3])], 16),
        prop::option::weighted(0.7, "[a-z]{2}"),
        (any::<bool>(), any::<bool>()),
        (num(0u8..9), any8(), any8()),
    )
        .prop_map(|(subs, colours, lang, (lang_first, crlf), (border, a, b))| Disc { subs, colours, lang, lang_first, crlf, border, ink: (a, b) })
}

fn read_png(dir: &Path, i: usize) -> Result<image::DynamicImage, String> {
    let b = fs::read(dir.join(format!("{i:06}.png"))).map_err(|e| format!("image {i} is not on disk: {e}"))?;
    image::load_from_memory_with_format(&b, image::ImageFormat::Png).map_err(|e| format!("image {i} does not read back: {e}"))
}

fn files(dir: &Path) -> Result<usize, String> {
    Ok(fs::read_dir(dir).map_err(io_err)?.count())
}

/// Write the times and texts as files and read them back.
fn texts(dir: &Path, want: &[(i64, i64, String)], spans: &[TimeSpan]) -> Result<(), String> {
    let list: Vec<(TimeSpan, String)> = spans.iter().copied().zip(want.iter().map(|w| w.2.clone())).collect();
    let at = dir.join("t.srt");
    let mut f = File::create(&at).map_err(io_err)?;
    srt::write_srt(&mut f, &list).map_err(|e| format!("write_srt: {e}"))?;
    drop(f);
    let back = read_srt(&fs::read_to_string(&at).map_err(io_err)?)?;
    ensure!(back == want, "the SubRip file reads {back:?} instead of {want:?}");
    let at = dir.join("t.vtt");
    let mut f = File::create(&at).map_err(io_err)?;
    f.write_all(b"WEBVTT\n\n").map_err(io_err)?;
    let mut expect = "WEBVTT\n\n".to_string();
    for ((span, text), w) in list.iter().zip(want) {
        webvtt::write_line(&mut f, span, text).map_err(|e| format!("webvtt: {e}"))?;
        expect += &format!("{} --> {}\n{}\n\n", stamp(w.0, '.'), stamp(w.1, '.'), w.2);
    }
    drop(f);
    let got = fs::read_to_string(&at).map_err(io_err)?;
    ensure!(got == expect, "the WebVTT file is {got:?} instead of {expect:?}");
    Ok(())
}

fn from_disc(d: &Disc, o: &mut Obs) -> Result<(), String> {
    let dir = fresh_dir("disc")?;
    let (idx, sub) = (dir.join("film.idx"), dir.join("film.sub"));
    let eol = if d.crlf { "\r\n" } else { "\n" };
    let pal: Vec<String> = d.colours.iter().map(|c| format!("{:02x}{:02x}{:02x}", c[0], c[1], c[2])).collect();
    let palette = format!("palette: {}", pal.join(", "));
    let id = d.lang.as_ref().map_or("#".to_string(), |l| format!("id: {l}, index: 0"));
    let (a, b) = if d.lang_first { (&id, &palette) } else { (&palette, &id) };
    let mut text = ["# VobSub index file, v7 (do not modify this line!)", "#", "size: 720x576", "org: 0, 0", "", a, "langidx: 0", "", b, ""].join(eol);
    let mut stream = vec![];
    let mut want: Vec<VItem> = vec![];
    for (s, f, _) in &d.subs {
        let (item, packet, _) = vob::realise(s);
        text += &format!("{eol}timestamp: {}, filepos: {:09x}", stamp(item.start, ':'), stream.len());
        transport(&packet, s.pts, 0x20, f, &[], &mut stream);
        want.push(item);
    }
    text += eol;
    fs::write(&idx, &text).map_err(io_err)?;
    fs::write(&sub, &stream).map_err(io_err)?;

    ensure!(is_idx_file(&idx).map_err(|e| e.to_string())?, "the index is not recognised");
    // what comes first may be something else than a pack
    let pack = stream.starts_with(&[0, 0, 1, 0xBA]);
    ensure!(is_sub_file(&sub).map_err(|e| e.to_string())? == pack, "the stream's kind is not recognised");
    let index = no_panic(|| Index::open(&idx))?.map_err(|e| format!("index: {e}"))?;
    let lang = index.lang().as_ref().map(|l| l.lang().to_string());
    ensure!(lang == d.lang, "language {lang:?} instead of {:?}", d.lang);
    let opened = Sub::open(&sub).map_err(|e| format!("stream: {e}"))?;
    let items = no_panic(|| opened.subtitles::<(TimeSpan, VobSubIndexedImage)>().collect::<Result<Vec<_>, _>>())?.map_err(|e| format!("a valid subtitle is an error: {e}"))?;
    ensure!(items.len() == want.len(), "{} subtitles instead of {}", items.len(), want.len());

    let spans: Vec<TimeSpan> = items.iter().map(|i| i.0).collect();
    let lines: Vec<(i64, i64, String)> = want.iter().zip(&d.subs).map(|(w, s)| (w.start, w.end, s.2.clone())).collect();
    texts(&dir, &lines, &spans)?;

    let colour = |w: &VItem, k: u8| d.colours[usize::from(w.palette[usize::from(k)])];
    let images: Vec<image::RgbaImage> = items.iter().map(|(_, i)| VobSubToImage::new(i, index.palette(), conv_to_rgba).to_image()).collect();
    let out = dir.join("rgba");
    dump_images(out.to_str().unwrap(), images.iter()).map_err(|e| format!("dump: {e}"))?;
    let luma = palette_rgb_to_luminance(index.palette());
    let opt = ToOcrImageOpt { border: d.border.into(), text_color: image::Luma([d.ink.0]), background_color: image::Luma([d.ink.1]) };
    let ocr: Vec<image::GrayImage> = items.iter().map(|(_, i)| VobSubOcrImage::new(i, &luma).image(&opt)).collect();
    let ocr_out = dir.join("ocr");
    dump_images(ocr_out.to_str().unwrap(), ocr.iter()).map_err(|e| format!("dump: {e}"))?;
    ensure!(files(&out)? == want.len() && files(&ocr_out)? == want.len(), "the folders do not hold one file per subtitle");
    for (i, (w, (_, img))) in want.iter().zip(&items).enumerate() {
        let (x, y, width, height) = w.area;
        let a = img.area();
        ensure!((u32::from(a.left()), u32::from(a.top())) == (x, y), "subtitle {i} is at {}, {} instead of {x}, {y}", a.left(), a.top());
        let image::DynamicImage::ImageRgba8(p) = read_png(&out, i)? else { return Err(format!("image {i} is not RGBA")) };
        ensure!(p.dimensions() == (width, height), "image {i} is {:?} instead of {width}x{height}", p.dimensions());
        let image::DynamicImage::ImageLuma8(q) = read_png(&ocr_out, i)? else { return Err(format!("OCR image {i} is not grey")) };
        let b = u32::from(d.border);
        ensure!(q.dimensions() == (width + 2 * b, height + 2 * b), "OCR image {i} is {:?} for {width}x{height} and border {b}", q.dimensions());
        for (n, k) in w.pixels.iter().enumerate() {
            let (px, py) = (n as u32 % width, n as u32 / width);
            let [r, g, bl] = colour(w, *k);
            let e = [r, g, bl, w.alpha[usize::from(*k)]];
            ensure!(p.get_pixel(px, py).0 == e, "image {i}: pixel ({px}, {py}) is {:?} instead of {e:?}", p.get_pixel(px, py).0);
            // every colour but black has some luminance, unless it is nearly black
            let light = u32::from(r) + u32::from(g) + u32::from(bl);
            let e = if w.alpha[usize::from(*k)] == 0 || light == 0 {
                d.ink.1
            } else if r.min(g).min(bl) > 0 || light > 60 {
                d.ink.0
            } else {
                continue;
            };
            let v = q.get_pixel(px + b, py + b).0[0];
            ensure!(v == e, "OCR image {i}: pixel ({px}, {py}) is {v} instead of {e}");
        }
        for (px, py, v) in q.enumerate_pixels() {
            let inside = (b..b + width).contains(&px) && (b..b + height).contains(&py);
            ensure!(inside || v.0[0] == d.ink.1, "OCR image {i}: border pixel ({px}, {py}) is {}", v.0[0]);
        }
    }
    ensure!(fs::read(&sub).map_err(io_err)? == stream && fs::read_to_string(&idx).map_err(io_err)? == text, "the files read were changed");
    o.nontrivial_if(want.len() > 1 && want.iter().any(|w| w.pixels.iter().any(|p| *p != w.pixels[0])));
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Blu {
    subs: Vec<(PSubR, String)>,
    border: u8,
    back: u8,
}

fn from_blu(d: &Blu, o: &mut Obs) -> Result<(), String> {
    let dir = fresh_dir("blu")?;
    let real: Vec<pgs::PSub> = d.subs.iter().map(|s| pgs::realise(&s.0)).collect();
    let bytes = pgs::stream(&real);
    let at = dir.join("film.sup");
    fs::write(&at, &bytes).map_err(io_err)?;
    let want: Vec<&PItem> = real.iter().map(|r| &r.item).collect();
    let spans: Vec<TimeSpan> = SupParser::<BufReader<File>, DecodeTimeOnly>::from_file(&at)
        .map_err(|e| format!("from_file: {e}"))?
        .collect::<Result<_, _>>()
        .map_err(|e| format!("a valid subtitle is an error: {e}"))?;
    let items: Vec<(TimeSpan, RleEncodedImage)> = SupParser::<BufReader<File>, DecodeTimeImage>::from_file(&at)
        .map_err(|e| format!("from_file: {e}"))?
        .collect::<Result<_, _>>()
        .map_err(|e| format!("a valid subtitle is an error: {e}"))?;
    ensure!(items.len() == want.len() && spans.len() == want.len(), "{} subtitles and {} spans instead of {}", items.len(), spans.len(), want.len());
    let lines: Vec<(i64, i64, String)> = want.iter().zip(&d.subs).map(|(w, s)| (w.start, w.end, s.1.clone())).collect();
    texts(&dir, &lines, &spans)?;
    let full: Vec<TimeSpan> = items.iter().map(|i| i.0).collect();
    texts(&dir, &lines, &full)?;

    let images: Vec<image::ImageBuffer<LumaA<u8>, Vec<u8>>> = items.iter().map(|i| RleToImage::new(&i.1, |p: LumaA<u8>| p).to_image()).collect();
    let out = dir.join("images");
    dump_images(out.to_str().unwrap(), images.iter()).map_err(|e| format!("dump: {e}"))?;
    let opt = ToOcrImageOpt { border: d.border.into(), background_color: image::Luma([d.back]), ..Default::default() };
    let conv = |p: LumaA<u8>| image::Luma([if p.0[1] >= 100 && p.0[0] >= 100 { 0u8 } else { 255 }]);
    let ocr: Vec<image::GrayImage> = items.iter().map(|i| RleToImage::new(&i.1, conv).image(&opt)).collect();
    let ocr_out = dir.join("ocr");
    dump_images(ocr_out.to_str().unwrap(), ocr.iter()).map_err(|e| format!("dump: {e}"))?;
    ensure!(files(&out)? == want.len() && files(&ocr_out)? == want.len(), "the folders do not hold one file per subtitle");
    for (i, w) in want.iter().enumerate() {
        let image::DynamicImage::ImageLumaA8(p) = read_png(&out, i)? else { return Err(format!("image {i} is not grey and alpha")) };
        ensure!(p.dimensions() == (w.w, w.h), "image {i} is {:?} instead of {}x{}", p.dimensions(), w.w, w.h);
        let got: Vec<Px> = p.pixels().map(|p| la(*p)).collect();
        if let Some(n) = (0..w.pixels.len()).find(|n| got.get(*n) != Some(&w.pixels[*n])) {
            return Err(format!("image {i}: pixel {n} is {:?} instead of {:?}", got.get(n), w.pixels[n]));
        }
        let image::DynamicImage::ImageLuma8(q) = read_png(&ocr_out, i)? else { return Err(format!("OCR image {i} is not grey")) };
        let b = u32::from(d.border);
        ensure!(q.dimensions() == (w.w + 2 * b, w.h + 2 * b), "OCR image {i} is {:?} for {}x{} and border {b}", q.dimensions(), w.w, w.h);
        for (px, py, v) in q.enumerate_pixels() {
            let e = if (b..b + w.w).contains(&px) && (b..b + w.h).contains(&py) {
                let Some(k) = w.pixels.get(((py - b) * w.w + px - b) as usize) else { continue };
                conv(LumaA([k.0, k.1])).0[0]
            } else {
                d.back
            };
            ensure!(v.0[0] == e, "OCR image {i}: pixel ({px}, {py}) is {} instead of {e}", v.0[0]);
        }
    }
    ensure!(fs::read(&at).map_err(io_err)? == bytes, "the file read was changed");
    o.nontrivial_if(want.len() > 1 && want.iter().any(|w| w.pixels.iter().any(|p| *p != w.pixels[0])));
    Ok(())
}

fn c31(c: &Ctx) {
    c.search("vobsub", 12_000, 200_000, disc, from_disc);
    c.search(
        "pgs",
        12_000,
        200_000,
        || {
            (prop::collection::vec((small_psub_r(), line_text()), 1..6), num(0u8..9), any8())
                .prop_map(|(subs, border, back)| Blu { subs, border, back })
        },
        from_blu,
    );
}

// ------------------------------------------------------------------ C32

/// The messages of an error and its causes.
fn chain(e: &(dyn Error + 'static)) -> Result<Vec<String>, String> {
    let mut v = vec![];
    let mut at = Some(e);
    while let Some(e) = at {
        let (m, d) = no_panic(|| (e.to_string(), format!("{e:?}")))?;
        ensure!(!m.trim().is_empty() && !d.trim().is_empty(), "an error without a message below {v:?}");
        v.push(m);
        ensure!(v.len() <= 10, "causes without end: {v:?}");
        at = e.source();
    }
    Ok(v)
}

/// Is `n` one of the numbers, in decimal or hexadecimal, in the messages?
fn names(v: &[String], n: usize) -> bool {
    let forms = [n.to_string(), format!("{n:x}"), format!("{n:02x}"), format!("{n:04x}")];
    v.iter().any(|m| {
        m.split(|c: char| !c.is_ascii_alphanumeric())
            .map(|w| w.strip_prefix("0x").unwrap_or(w).to_ascii_lowercase())
            .any(|w| forms.contains(&w))
    })
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Fault {
    ControlBeyond(u16),
    ChainBeyond(u16),
    Offsets(u16, u16),
    LongLine(u8, u8),
    SegmentType(u8),
    ObjectFlag(u8),
    PaletteSize(u16),
    ObjectSize(u16, u16),
    /// first part, rest, what the second segment has beyond it
    ObjectRest(u16, u16, u16),
    /// a segment that cannot be skipped: kind, size, by which decoder
    Skipped(u8, u16, bool),
}

fn fault() -> impl Strategy<Value = Fault> {
    prop_oneof![
        any16().prop_map(Fault::ControlBeyond),
        any16().prop_map(Fault::ChainBeyond),
        (any16(), any16()).prop_map(|(a, b)| Fault::Offsets(a, b)),
        (num(2u8..250), any8()).prop_map(|(a, b)| Fault::LongLine(a, b)),
        any8().prop_map(Fault::SegmentType),
        any8().prop_map(Fault::ObjectFlag),
        num(0u16..2000).wide(0u16..=u16::MAX).prop_map(Fault::PaletteSize),
        (num(0u16..300), num(1u16..300)).prop_map(|(a, b)| Fault::ObjectSize(a, b)),
        (num(0u16..300), num(0u16..300), num(1u16..300)).prop_map(|(a, b, c)| Fault::ObjectRest(a, b, c)),
        (any8(), num(1u16..40).wide(1u16..=u16::MAX), any::<bool>()).prop_map(|(a, b, c)| Fault::Skipped(a, b, c)),
    ]
}

fn first_vob(packet: &[u8]) -> Result<VobSubError, String> {
    let sub = vob::open(&plain_stream(&[(packet.to_vec(), 9000)]))?;
    match no_panic(|| sub.subtitles::<(TimeSpan, VobSubIndexedImage)>().next())? {
        Some(Err(e)) => Ok(e),
        _ => Err("no error for a broken subtitle".into()),
    }
}

fn first_pgs(bytes: &[u8]) -> Result<Option<PgsError>, String> {
    let mut p = SupParser::<_, DecodeTimeImage>::new(Cursor::new(bytes));
    Ok(no_panic(|| p.next())?.and_then(Result::err))
}

fn named(f: &Fault, o: &mut Obs) -> Result<(), String> {
    let cmds = |area: Cmd, off: Cmd| Seq { date: 1, cmds: vec![Cmd::Start, Cmd::Palette([1, 2, 3, 4]), Cmd::Alpha([5, 6, 7, 8]), area, off], gap: 0 };
    let data = [0u8, 1, 0, 2];
    let area = Cmd::Coords(10, 13, 20, 21);
    o.nontrivial();
    match *f {
        Fault::ControlBeyond(d) | Fault::ChainBeyond(d) => {
            let mut p = assemble(&data, &[cmds(area, Cmd::Offsets(4, 6))], 0);
            let n = p.len();
            let to = n + usize::from(d) % (65_536 - n);
            let at = if matches!(f, Fault::ControlBeyond(_)) { 2 } else { 4 + data.len() + 2 };
            p[at..at + 2].copy_from_slice(&(to as u16).to_be_bytes());
            let e = first_vob(&p)?;
            let v = chain(&e)?;
            let VobSubError::ControlOffsetBiggerThanPacket { offset, packet } = e else { return Err(format!("control data at {to} in {n} bytes: {v:?}")) };
            ensure!((offset, packet) == (to, n), "control data at {to} in {n} bytes is reported as {offset} in {packet}");
            ensure!(names(&v[..1], to) && names(&v[..1], n), "control data at {to} in {n} bytes is reported as {v:?}");
        }
        Fault::Offsets(a, b) => {
            let p = assemble(&data, &[cmds(area, Cmd::Offsets(a, b))], 0);
            if a <= b && usize::from(b) <= 4 + data.len() + 2 {
                return Ok(());
            }
            let e = first_vob(&p)?;
            let v = chain(&e)?;
            let VobSubError::InvalidScanLineOffsets { start_0, start_1, end } = e else { return Err(format!("field offsets {a} and {b}: {v:?}")) };
            ensure!((start_0, start_1) == (a.into(), b.into()), "field offsets {a} and {b} are reported as {start_0} and {start_1}");
            ensure!(end == 4 + data.len() + 2 || end == 4 + data.len(), "field offsets {a} and {b}: the end of the data is reported as {end}");
            ensure!(names(&v[..1], a.into()) && names(&v[..1], b.into()), "field offsets {a} and {b} are reported as {v:?}");
        }
        Fault::LongLine(w, more) => {
            let n = (usize::from(w) + 1 + usize::from(more)).min(255);
            let (mut d, _) = vob::encode_line(&[(1, n, vob::SHORTEST)]);
            let o1 = 4 + d.len() as u16;
            d.extend([0, 1, 0, 1]);
            let p = assemble(&d, &[cmds(Cmd::Coords(0, u16::from(w) - 1, 0, 1), Cmd::Offsets(4, o1))], 0);
            let e = first_vob(&p)?;
            let v = chain(&e)?;
            ensure!(matches!(e, VobSubError::Image(_)), "a line of {n} pixels for a width of {w}: {v:?}");
            ensure!(names(&v, w.into()), "a line of {n} pixels for a width of {w} is reported as {v:?}");
        }
        Fault::SegmentType(t) => {
            let mut b = vec![];
            if [PDS, ODS, END, pgs::PCS, pgs::WDS].contains(&t) {
                return Ok(());
            }
            segment(t, 90, 0, &[], &mut b);
            if let Some(e) = first_pgs(&b)? {
                let v = chain(&e)?;
                let PgsError::SegmentInvalidTypeCode { value } = e else { return Err(format!("segment type {t:#x}: {v:?}")) };
                ensure!(value == t, "segment type {t:#x} is reported as {value:#x}");
                ensure!(names(&v, t.into()), "segment type {t:#x} is reported as {v:?}");
                o.label("unknown segment type");
            }
        }
        Fault::ObjectFlag(t) => {
            let mut obj = object_payloads(2, 1, &[1, 1, 0, 0], None, [0; 3]).remove(0);
            obj[3] = t;
            let mut b = vec![];
            let pal: Vec<Entry> = vec![(1, 2, 3, 4, 5)];
            segment(PDS, 90, 0, &palette_payload(0, 0, &pal), &mut b);
            segment(ODS, 90, 0, &obj, &mut b);
            segment(END, 90, 0, &[], &mut b);
            segment(END, 180, 0, &[], &mut b);
            match (first_pgs(&b)?, t) {
                (Some(e), 0x40 | 0x80 | 0xC0) => {
                    chain(&e)?;
                }
                (Some(e), _) => {
                    let v = chain(&e)?;
                    ensure!(matches!(e, PgsError::ODSParse(_)), "object flag {t:#x}: {v:?}");
                    ensure!(names(&v, t.into()), "object flag {t:#x} is reported as {v:?}");
                    o.label("unknown object flag");
                }
                (None, 0x80 | 0xC0) => {}
                (None, _) => return Err(format!("object flag {t:#x} is not reported")),
            }
        }
        Fault::PaletteSize(n) => {
            let mut b = vec![];
            segment(PDS, 90, 0, &vec![1u8; n.into()], &mut b);
            segment(END, 90, 0, &[], &mut b);
            if n >= 2 && (n - 2) % 5 == 0 {
                return Ok(());
            }
            let Some(e) = first_pgs(&b)? else { return Err(format!("a palette segment of {n} bytes is not reported")) };
            let v = chain(&e)?;
            ensure!(matches!(e, PgsError::PDSParse(_)), "a palette segment of {n} bytes: {v:?}");
            ensure!(names(&v, n.into()), "a palette segment of {n} bytes is reported as {v:?}");
        }
        Fault::ObjectSize(n, more) => {
            // more object data announced than a first and last segment holds
            let data = vec![1u8; n.into()];
            let mut obj = object_payloads(2, 1, &data, None, [0; 3]).remove(0);
            let said = usize::from(n) + 4 + usize::from(more);
            obj[4..7].copy_from_slice(&(said as u32).to_be_bytes()[1..]);
            let mut b = vec![];
            segment(ODS, 90, 0, &obj, &mut b);
            segment(END, 90, 0, &[], &mut b);
            segment(END, 90, 0, &[], &mut b);
            if let Some(e) = first_pgs(&b)? {
                let v = chain(&e)?;
                if matches!(e, PgsError::ODSParse(_)) {
                    o.label("object size");
                    ensure!(names(&v, obj.len()) || names(&v, usize::from(n)) || names(&v, said) || names(&v, said - 4), "{said} bytes of object data announced in a segment of {} are reported as {v:?}", obj.len());
                }
            }
        }
        Fault::ObjectRest(first, rest, more) => {
            // the second segment of an object brings more than is missing
            let all = usize::from(first) + usize::from(rest);
            let parts = object_payloads(2, 1, &vec![1u8; all], Some(first.into()), [0; 3]);
            let mut last = parts[1].clone();
            last.extend(vec![1u8; more.into()]);
            let mut b = vec![];
            segment(PDS, 90, 0, &palette_payload(0, 0, &[(1, 2, 3, 4, 5)]), &mut b);
            segment(ODS, 90, 0, &parts[0], &mut b);
            segment(ODS, 90, 0, &last, &mut b);
            segment(END, 90, 0, &[], &mut b);
            segment(END, 180, 0, &[], &mut b);
            let Some(e) = first_pgs(&b)? else { return Err(format!("{more} bytes more than the object's {all} are not reported")) };
            let v = chain(&e)?;
            ensure!(matches!(e, PgsError::ODSParse(_)), "{more} bytes more than the object's {all}: {v:?}");
            o.label("object data beyond its size");
            ensure!(
                (names(&v, last.len()) || names(&v, last.len() - 4)) && (names(&v, all) || names(&v, all + 4)),
                "{} bytes of object data in a second segment of {}, for an object of {all}, are reported as {v:?}",
                last.len() - 4,
                last.len()
            );
        }
        Fault::Skipped(k, size, times) => {
            let (kind, name) = if times {
                [(pgs::PCS, "PCS"), (pgs::WDS, "WDS"), (ODS, "ODS"), (PDS, "PDS")][usize::from(k) % 4]
            } else {
                [(pgs::PCS, "PCS"), (pgs::WDS, "WDS")][usize::from(k) % 2]
            };
            let mut b = vec![];
            segment(kind, 90, 0, &vec![7u8; size.into()], &mut b);
            // the header in one reading, then what the skipping needs
            let r = pgs::FaultReader::new(Cursor::new(&b), 1, true, std::io::ErrorKind::Other);
            let e = if times {
                no_panic(|| SupParser::<_, DecodeTimeOnly>::new(r).next())?.and_then(Result::err)
            } else {
                no_panic(|| SupParser::<_, DecodeTimeImage>::new(r).next())?.and_then(Result::err)
            };
            let Some(e) = e else { return Err(format!("{name} of {size} bytes: the failure is not reported")) };
            let v = chain(&e)?;
            // the error about a header has no cause
            if let PgsError::SegmentSkip { type_code, .. } = &e {
                ensure!(v.iter().any(|m| m.contains("injected")), "{name} of {size} bytes: the failure is not among {v:?}");
                o.label("segment that cannot be skipped");
                ensure!(type_code.to_string() == name && v[0].contains(name), "{name} of {size} bytes: {type_code} is reported, as {v:?}");
            }
        }
    }
    Ok(())
}

fn c32(c: &Ctx) {
    c.search("vobsub", 60_000, 1_000_000, mut_r, |m: &MutR, o: &mut Obs| {
        let sub = vob::open(&m.bytes())?;
        let all = no_panic(|| sub.subtitles::<(TimeSpan, VobSubIndexedImage)>().take(1000).collect::<Vec<_>>())?;
        for r in all {
            match r {
                Ok((t, i)) => {
                    let _ = no_panic(|| format!("{t:?} {i:?} {:0.3?} {:0.3?}", t.start, t.end))?;
                }
                Err(e) => {
                    o.nontrivial();
                    o.label(vob::err_kind(&e));
                    let v = chain(&e)?;
                    let e = SubtileError::from(e);
                    let w = chain(&e)?;
                    ensure!(w[1..] == v, "wrapped, {v:?} becomes {w:?}");
                }
            }
        }
        Ok(())
    });
    c.search("pgs", 100_000, 2_000_000, pmut_r, |m: &PMutR, o: &mut Obs| {
        let bytes = mutated(m);
        let all = no_panic(|| SupParser::<_, DecodeTimeImage>::new(Cursor::new(&bytes)).take(bytes.len() + 1).collect::<Vec<_>>())?;
        for r in all {
            match r {
                Ok((t, _)) => {
                    let _ = no_panic(|| format!("{t:?}"))?;
                }
                Err(e) => {
                    o.nontrivial();
                    o.label(pgs::err_kind(&e));
                    chain(&e)?;
                }
            }
        }
        let all = no_panic(|| SupParser::<_, DecodeTimeOnly>::new(Cursor::new(&bytes)).take(bytes.len() + 1).collect::<Vec<_>>())?;
        for e in all.into_iter().filter_map(Result::err) {
            o.nontrivial();
            chain(&e)?;
        }
        Ok(())
    });
    c.search("named", 300_000, 3_000_000, fault, named);
}

// ------------------------------------------------------------------ C33

#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
enum Op {
    Next,
    Nth(u16),
    /// by_ref().take(n) to its end
    Take(u8),
    /// by_ref().skip(n).next()
    Skip(u8),
    /// by_ref().step_by(n + 1).take(k)
    Step(u8, u8),
    /// all up to the k-th one, by a closure that says when to stop
    Find(u8),
    Any(u8),
    TryFold(u8),
}

#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
enum Fin {
    Count,
    Last,
    Fold,
    ForEach,
    Collect,
    Extend,
    Skip(u8),
    Step(u8),
    Peek,
    Partition,
}

/// An object of long runs.
fn long_runs() -> impl Strategy<Value = HObj> {
    let run = prop_oneof![
        2 => (num(0u8..5), any8(), any8()).prop_map(|(h, l, c)| vec![0, 0xC0 | h, l, c]),
        1 => (num(0u8..5), any8()).prop_map(|(h, l)| vec![0, 0x40 | h, l]),
        1 => any8().prop_map(|c| vec![c.max(1)]),
    ];
    (num(1u16..120), num(1u16..100), pgs::palette(), prop::collection::vec(run, 1..12)).prop_map(|(w, h, p, runs)| HObj {
        w,
        h,
        palette: pgs::distinct(&p),
        data: runs.concat(),
        split: None,
    })
}

/// An object of more pixels than 16 bits can count, with data up to its end or nearly so.
fn many_pixels() -> impl Strategy<Value = HObj> {
    let size = (64u32..1920, 65_500u32..260_000, any::<bool>()).prop_map(|(a, n, swap)| {
        let b = n / a + 1;
        if swap { (b as u16, a as u16) } else { (a as u16, b as u16) }
    });
    let tail = prop_oneof![2 => Just(0u32), 1 => num(0u32..40), 1 => num(0u32..9_000)];
    (size, pgs::palette(), prop::collection::vec((num(1u16..0x4000), any8()), 1..30), tail).prop_map(|((w, h), p, runs, tail)| {
        let mut left = (u32::from(w) * u32::from(h)).saturating_sub(tail);
        let mut data = vec![];
        let palette = pgs::distinct(&p);
        for (n, c) in runs.iter().cycle() {
            if left == 0 || data.len() > 60_000 {
                break;
            }
            // the shorter half of the runs would need too much data for a whole image
            let n = left.min(u32::from(*n).max(64)) as u16;
            left -= u32::from(n);
            let c = match palette.get(usize::from(*c) % (palette.len() + 1)) {
                Some(e) => e.0,
                None => *c,
            };
            data.extend([0, 0xC0 | (n >> 8) as u8, n as u8, c]);
        }
        HObj { w, h, palette, data, split: None }
    })
}

fn script(far: u16) -> impl Strategy<Value = (Vec<Op>, Fin)> {
    let op = prop_oneof![
        3 => Just(Op::Next),
        2 => num(0u16..5).wide(0u16..=far).prop_map(Op::Nth),
        1 => num(0u16..5 + far / 2).prop_map(Op::Nth),
        1 => num(0u8..6).prop_map(Op::Take),
        1 => num(0u8..6).prop_map(Op::Skip),
        1 => (num(0u8..4), num(0u8..4)).prop_map(|(a, b)| Op::Step(a, b)),
        1 => num(0u8..5).prop_map(Op::Find),
        1 => num(0u8..5).prop_map(Op::Any),
        1 => num(0u8..5).prop_map(Op::TryFold),
    ];
    let fin = prop_oneof![
        Just(Fin::Count),
        Just(Fin::Last),
        Just(Fin::Fold),
        Just(Fin::ForEach),
        Just(Fin::Collect),
        Just(Fin::Extend),
        num(0u8..6).prop_map(Fin::Skip),
        num(0u8..4).prop_map(Fin::Step),
        Just(Fin::Peek),
        Just(Fin::Partition),
    ];
    (prop::collection::vec(op, 0..8), fin)
}

/// Only `next`, so everything else is the standard library's.
struct Plain<T>(VecDeque<T>);
impl<T> Iterator for Plain<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.pop_front()
    }
}

/// What the operations give, with the number of items still to come after each.
fn play<I: Iterator, T>(mut it: I, (ops, fin): &(Vec<Op>, Fin), f: impl Fn(I::Item) -> T, mut hint: impl FnMut((usize, Option<usize>))) -> Vec<Vec<T>> {
    let mut out = vec![];
    for op in ops {
        hint(it.size_hint());
        let v: Vec<T> = match *op {
            Op::Next => it.next().map(&f).into_iter().collect(),
            Op::Nth(n) => it.nth(n.into()).map(&f).into_iter().collect(),
            Op::Take(n) => it.by_ref().take(n.into()).map(&f).collect(),
            Op::Skip(n) => it.by_ref().skip(n.into()).next().map(&f).into_iter().collect(),
            Op::Step(n, k) => it.by_ref().step_by(usize::from(n) + 1).take(k.into()).map(&f).collect(),
            Op::Find(k) => {
                let mut n = 0;
                it.find(|_| {
                    n += 1;
                    n > k
                })
                .map(&f)
                .into_iter()
                .collect()
            }
            Op::Any(k) => {
                let mut v = vec![];
                it.any(|x| {
                    v.push(f(x));
                    v.len() > k.into()
                });
                v
            }
            Op::TryFold(k) => {
                let mut v = vec![];
                let _ = it.try_fold(0u8, |n, x| {
                    v.push(f(x));
                    if n >= k {
                        None
                    } else {
                        Some(n + 1)
                    }
                });
                v
            }
        };
        out.push(v);
    }
    hint(it.size_hint());
    out.push(match *fin {
        Fin::Count => {
            // as many of the last value as were counted cannot be had: count them
            let n = it.count();
            COUNT.with(|c| c.set(n));
            vec![]
        }
        Fin::Last => it.last().map(&f).into_iter().collect(),
        Fin::Fold => it.fold(vec![], |mut v, x| {
            v.push(f(x));
            v
        }),
        Fin::ForEach => {
            let mut v = vec![];
            it.for_each(|x| v.push(f(x)));
            v
        }
        Fin::Collect => it.collect::<Vec<_>>().into_iter().map(&f).collect(),
        Fin::Extend => {
            let mut v = Vec::new();
            v.extend(it);
            v.into_iter().map(&f).collect()
        }
        Fin::Skip(n) => it.skip(n.into()).map(&f).collect(),
        Fin::Step(n) => it.step_by(usize::from(n) + 1).map(&f).collect(),
        Fin::Peek => {
            let mut p = it.peekable();
            let _ = p.peek();
            p.map(&f).collect()
        }
        Fin::Partition => {
            let mut n = 0;
            let (a, b): (Vec<_>, Vec<_>) = it.partition(|_| {
                n += 1;
                n % 2 == 0
            });
            a.into_iter().chain(b).map(&f).collect()
        }
    });
    out
}

thread_local! {
    static COUNT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

/// Play the script on both and compare.
fn judge<I: Iterator, T: Debug + Clone>(
    name: &str,
    it: I,
    all: &[T],
    s: &(Vec<Op>, Fin),
    f: impl Fn(I::Item) -> T,
    same: impl Fn(&T, &T) -> bool,
) -> Result<(), String> {
    let mut left = vec![];
    COUNT.with(|c| c.set(0));
    let want = {
        let p = Plain(all.iter().cloned().collect());
        // how many are left before each step: by playing the leading part again
        for k in 0..=s.0.len() {
            let part = (s.0[..k].to_vec(), Fin::Collect);
            let v = play(Plain(all.iter().cloned().collect()), &part, |x| x, |_| {});
            left.push(v.last().map_or(0, Vec::len));
        }
        play(p, s, |x| x, |_| {})
    };
    let want_n = COUNT.with(|c| c.replace(0));
    let mut hints = vec![];
    let got = no_panic(|| play(it, s, f, |h| hints.push(h)))?;
    let got_n = COUNT.with(std::cell::Cell::get);
    for (i, (h, l)) in hints.iter().zip(&left).enumerate() {
        ensure!(h.0 <= *l && h.1.is_none_or(|u| u >= *l), "{name}: before step {i}, {l} items are to come but {h:?} are announced");
    }
    ensure!(want_n == got_n, "{name}: {got_n} items counted instead of {want_n}");
    for (i, (w, g)) in want.iter().zip(&got).enumerate() {
        let what = s.0.get(i).map_or_else(|| format!("{:?}", s.1), |o| format!("{o:?}"));
        ensure!(w.len() == g.len(), "{name}: step {i}, {what}, gives {} items instead of {}", g.len(), w.len());
        if let Some(k) = (0..w.len()).find(|k| !same(&w[*k], &g[*k])) {
            let clip = |t: &T| format!("{t:?}").chars().take(200).collect::<String>();
            return Err(format!("{name}: step {i}, {what}: item {k} is {} instead of {}", clip(&g[k]), clip(&w[k])));
        }
    }
    Ok(())
}

fn c33(c: &Ctx) {
    let busy = |s: &(Vec<Op>, Fin), n: usize, o: &mut Obs| {
        o.nontrivial_if(n > 1 && (s.0.iter().any(|x| !matches!(x, Op::Next)) || !matches!(s.1, Fin::Collect)));
        for op in &s.0 {
            o.label(match op {
                Op::Next => "next",
                Op::Nth(_) => "nth",
                Op::Take(_) => "take",
                Op::Skip(_) => "skip",
                Op::Step(..) => "step_by",
                Op::Find(_) => "find",
                Op::Any(_) => "any",
                Op::TryFold(_) => "try_fold",
            });
        }
    };
    let sub_list = || prop_oneof![
        3 => prop::collection::vec(small_sub_r(), 1..12).prop_map(|v| (v, vec![])),
        1 => mut_r().prop_map(|m| (vec![], m.bytes())),
    ];
    c.search("vobsub", 80_000, 1_500_000, move || (sub_list(), script(20)), move |((subs, raw), s): &((Vec<SubR>, Vec<u8>), (Vec<Op>, Fin)), o: &mut Obs| {
        let mut bytes = raw.clone();
        for r in subs {
            let (_, p, _) = vob::realise(r);
            transport(&p, r.pts, 0x20, &[], &[], &mut bytes);
        }
        let all = vob::decode(&bytes)?;
        busy(s, all.len(), o);
        let sub = vob::open(&bytes)?;
        crate::guard::arm(4 * vob::work_budget(&bytes), false);
        let same = |a: &DItem, b: &DItem| match (a, b) {
            (Ok(a), Ok(b)) => a.diff(b).is_none(),
            (Err(a), Err(b)) => a == b,
            _ => false,
        };
        judge(
            "VobSub subtitles",
            sub.subtitles::<(TimeSpan, VobSubIndexedImage)>(),
            &all,
            s,
            |r| r.map(|(t, i)| vob::to_item(&t, &i)).map_err(|e| vob::err_kind(&e)),
            same,
        )
    });
    let sup_list = || prop_oneof![
        3 => prop::collection::vec(small_psub_r(), 1..12).prop_map(|v| (v, None)),
        1 => pmut_r().prop_map(|m| (vec![], Some(m))),
    ];
    c.search("pgs", 80_000, 1_500_000, move || (sup_list(), script(20)), move |((subs, raw), s): &((Vec<PSubR>, Option<PMutR>), (Vec<Op>, Fin)), o: &mut Obs| {
        let bytes = match raw {
            Some(m) => mutated(m),
            None => pgs::stream(&subs.iter().map(pgs::realise).collect::<Vec<_>>()),
        };
        let all = pgs::decode(&bytes)?;
        busy(s, all.len(), o);
        judge(
            "presentation graphic subtitles",
            SupParser::<_, DecodeTimeImage>::new(Cursor::new(&bytes)),
            &all,
            s,
            |r| {
                r.map(|(t, img)| PItem { start: t.start.msecs(), end: t.end.msecs(), w: img.width(), h: img.height(), pixels: pgs::pixels_of(&img) })
                    .map_err(|e| pgs::err_kind(&e))
            },
            |a, b| match (a, b) {
                (Ok(a), Ok(b)) => a.diff(b).is_none(),
                (Err(a), Err(b)) => a == b,
                _ => false,
            },
        )?;
        let n = bytes.len();
        let times = pgs::decode_times(Cursor::new(&bytes), n)?;
        judge(
            "presentation graphic times",
            SupParser::<_, DecodeTimeOnly>::new(Cursor::new(&bytes)),
            &times,
            s,
            |r| r.map(|t| (t.start.msecs(), t.end.msecs())).map_err(|e| pgs::err_kind(&e)),
            |a, b| a == b,
        )
    });
    let pixels = |h: &HObj, s: &(Vec<Op>, Fin), o: &mut Obs| {
        let all = h.expected(h.total());
        busy(s, all.len(), o);
        h.with_image(|img| {
            judge("pixels", img.iter(), &all, s, la, |a, b| a == b)?;
            judge("pixels of a reference", img.into_iter(), &all, s, la, |a, b| a == b)?;
            judge("converted pixels", img.pixels(|e| LumaA([e.luminance, e.transparency])), &all, s, la, |a, b| a == b)
        })
    };
    c.search("pixels", 100_000, 2_000_000, || (prop_oneof![2 => hobj().boxed(), 1 => long_runs().boxed()], prop_oneof![script(600), script(2400)]), move |(h, s): &(HObj, (Vec<Op>, Fin)), o: &mut Obs| {
        if h.total() > 1 << 14 {
            return Ok(());
        }
        pixels(h, s, o)
    });
    // of more pixels than 16 bits can count
    c.search(
        "large_pixels",
        300,
        6_000,
        || (many_pixels(), prop_oneof![script(2400), script(u16::MAX)]),
        move |(h, s): &(HObj, (Vec<Op>, Fin)), o: &mut Obs| {
            o.label(if h.total() > 1 << 16 { "more than 65536 pixels" } else { "fewer" });
            pixels(h, s, o)
        },
    );
}

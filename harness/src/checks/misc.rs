//! C27 - C30: dumped images, areas, independence, memory.

use crate::dict::{any16, any8, num};
use super::pgs::{hobj, large_hobj, mutated, pmut_r, sup_soup, HObj, PMutR};
use super::vobsub::{chain_r, hostile_r, mut_r, token_soup, ChainR, HostileR, MutR};
use super::Check;
use crate::ensure;
use crate::fw::{no_panic, scratch, Ctx, Obs, Tier};
use crate::guard::{self, peak_during};
use crate::pgs::{self, small_psub_r, PItem, PSubR};
use crate::vob::{self, frag_r, small_sub_r, to_item, transport, DItem, FragR, SubR, Tweak, VItem};
use image::{ImageBuffer, Luma, LumaA, Pixel, PixelWithColorType, Rgb, Rgba};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::fs;
use std::io::Cursor;
use std::path::{Path, PathBuf};
use subtile::content::{Area, AreaValues, ContentError};
use subtile::image::{dump_images, DumpError, ImageArea, ImageSize as _, ToImage as _, ToOcrImage as _, ToOcrImageOpt};
use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, SupParser};
use subtile::time::{TimePoint, TimeSpan};
use subtile::vobsub::{
    conv_to_rgba, palette_rgb_to_luminance, Index, Sub, VobSubError, VobSubIndexedImage, VobSubOcrImage, VobSubToImage,
};
use subtile::SubtileError;

pub fn checks() -> Vec<Check> {
    checks![
        "C27": Check { id: "C27", rule: "lists of 0 to 12 (many: up to 1100, counts: up to 10 001) images in eight pixel formats, dumped by value or by reference to folders that are absent, nested, or populated with older dumps, other files, files and folders in the way, or images of no pixels; the whole tree is compared before and after; non-trivial: at least two different images, or something already there", assumptions: &["the folder is a scratch directory on a local file system; running as root, missing permissions cannot be provoked"], run: c27 },
        "C28": Check { id: "C28", rule: "a grid of boundary coordinates, every second coordinate for a range of first coordinates, random quadruples; non-trivial: accepted, or rejected by one axis only", assumptions: &[], run: c28 },
        "C29": Check { id: "C29", rule: "pairs of valid streams of both formats concatenated; two to four iterators stepped in a random interleaving, some steps on other threads, with different output types; decoding repeated after decoding garbage; several parsers one after another on one reader; subtitles, palettes, indexes and images that differ from those before in one small thing; non-trivial: both streams (or at least two iterators) deliver a subtitle", assumptions: &["thread schedules are those the operating system produces; the shared data is immutable, so interleavings of steps are decided by the explicit ones"], run: c29 },
        "C34": Check { id: "C34", rule: "areas, times and images made (of up to a million pixels) or decoded in pairs that differ in one part, in nothing or in everything, compared, ordered (times) and copied; what mutated streams decode to, printed; non-trivial: the two differ, or something is printed", assumptions: &[], run: c34 },
        "C30": Check { id: "C30", rule: "valid, mutated and hostile streams of both formats decoded with every allocation counted, streams repeated 20 and 400 times, and streams of thousands of different subtitles; non-trivial: the stream yields an item", assumptions: &["memory is what the process' allocator hands out, on the decoding thread"], run: c30 },
    ]
}

// ------------------------------------------------------------------ C27

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct DumpR {
    format: u8,
    /// width, height, first samples (repeated with a drift)
    images: Vec<(u8, u8, Vec<u16>)>,
    by_ref: bool,
    /// folders of the path below the scratch directory, and how many exist
    path: Vec<String>,
    existing: u8,
    slash: bool,
    /// what is in the folder already
    prior: Vec<Prior>,
    /// a file where the n-th folder of the path should be
    blocked: Option<u8>,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Prior {
    /// an older file of this number, with these contents
    Number(u8, Vec<u8>),
    /// a longer older file of this number
    Long(u8, u16),
    /// a folder of this name in the way, with or without a file inside
    Folder(u8, bool),
    /// some other file
    Other(String, Vec<u8>),
    /// a folder of this name
    Dir(String),
    /// an older file of this number that its permissions protect, or nearly
    Guarded(u8, u16, Vec<u8>),
}

fn name() -> impl Strategy<Value = String> {
    prop_oneof![
        4 => prop::sample::select(vec!["out", "a b", "d", "été", "dump.d", "000000", "x.png", "UP", "日本", "-n"]).prop_map(String::from),
        1 => "[a-zA-Z0-9_]{1,12}",
        1 => prop::sample::select(vec!["a ", " a", " ", "a.", "...", "%20", "a\tb", "a\n", "\\", "a\\b", "*", "?", "a:b", ".hidden", "#", "{}", "%s", "~", "$HOME", "${HOME}", "$0", "a~", "*.png", "a;b", "a&b", "<a>", "a|b", "!", "a=b", "a,b", "COM1", "nul", "con.png", "@", "[a]", "(a)", "file:", "i:06", "{i}", "'a'", "\"a\"", "\u{feff}a", "a\u{a0}"]).prop_map(String::from),
    ]
}

fn dump_r() -> impl Strategy<Value = DumpR> {
    let img = || {
        (
            prop_oneof![24 => num(1u8..12), 4 => num(1u8..=255), 4 => Just(1u8), 1 => num(0u8..2)],
            prop_oneof![24 => num(1u8..12), 4 => num(1u8..40), 4 => Just(1u8), 1 => num(0u8..2)],
            prop::collection::vec(any16(), 1..24),
        )
    };
    let other = prop::sample::select(vec![
        "1.png", "000000.PNG", "000000.txt", "0000000.png", "00000.png", "notes.txt", "000999.png", "999999.png", "-1.png", ".png", "000000", "000001.png.bak",
    ])
    .prop_map(String::from);
    let prior = prop_oneof![
        3 => (num(0u8..14), prop::collection::vec(any8(), 0..60)).prop_map(|(n, b)| Prior::Number(n, b)),
        2 => (num(0u8..6), any16()).prop_map(|(n, k)| Prior::Long(n, k)),
        3 => (other, prop::collection::vec(any8(), 0..20)).prop_map(|(n, b)| Prior::Other(n, b)),
        1 => (num(0u8..10), any::<bool>()).prop_map(|(n, f)| Prior::Folder(n, f)),
        1 => name().prop_map(Prior::Dir),
        1 => (num(0u8..6), prop::sample::select(vec![0o444u16, 0o400, 0o000, 0o200, 0o555, 0o777, 0o644, 0o600]), prop::collection::vec(any8(), 0..60)).prop_map(|(n, m, b)| Prior::Guarded(n, m, b)),
    ];
    (
        (num(0u8..8), prop::collection::vec(img(), 0..13), any::<bool>()),
        (prop::collection::vec(name(), 1..4), num(0u8..4), any::<bool>()),
        prop::collection::vec(prior, 0..5),
        prop::option::weighted(0.12, num(0u8..3)),
    )
        .prop_map(|((format, images, by_ref), (path, existing, slash), prior, blocked)| DumpR {
            format,
            images,
            by_ref,
            path,
            existing,
            slash,
            prior,
            blocked,
        })
}

/// Sample types of the supported formats.
trait Sample: image::Primitive + Debug {
    fn of(v: u16) -> Self;
}
impl Sample for u8 {
    fn of(v: u16) -> Self {
        v as u8
    }
}
impl Sample for u16 {
    fn of(v: u16) -> Self {
        v
    }
}

/// Every file (with contents) and folder (None) below `root`.
fn tree(root: &Path) -> BTreeMap<PathBuf, Option<Vec<u8>>> {
    let mut out = BTreeMap::new();
    let mut todo = vec![root.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in fs::read_dir(&d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                out.insert(p.clone(), None);
                todo.push(p);
            } else {
                out.insert(p.clone(), Some(fs::read(&p).unwrap_or_default()));
            }
        }
    }
    out
}

pub fn fresh_dir(name: &str) -> Result<PathBuf, String> {
    // below this thread's scratch directory, created by the harness
    let p = scratch().join(name);
    if p.exists() {
        fs::remove_dir_all(&p).map_err(|e| format!("harness: {e}"))?;
    }
    fs::create_dir_all(&p).map_err(|e| format!("harness: {e}"))?;
    Ok(p)
}

fn dump_case<P>(r: &DumpR, channels: usize, back: fn(image::DynamicImage) -> Option<(u32, u32, Vec<P::Subpixel>)>, o: &mut Obs) -> Result<(), String>
where
    P: Pixel + PixelWithColorType + Debug + 'static,
    P::Subpixel: Sample,
    [P::Subpixel]: image::EncodableLayout,
{
    let harness = |e: std::io::Error| format!("harness: {e}");
    let images: Vec<ImageBuffer<P, Vec<P::Subpixel>>> = r
        .images
        .iter()
        .map(|(w, h, s)| {
            let n = usize::from(*w) * usize::from(*h) * channels;
            let raw = (0..n).map(|i| P::Subpixel::of(s[i % s.len()].wrapping_add(((i / s.len()) as u16).wrapping_mul(259)))).collect();
            ImageBuffer::from_raw(u32::from(*w), u32::from(*h), raw).expect("enough samples")
        })
        .collect();

    let root = fresh_dir("dump")?;
    fs::write(root.join("beside.txt"), b"beside").map_err(harness)?;
    let mut folder = root.clone();
    let mut stop = None;
    for (i, part) in r.path.iter().enumerate() {
        folder.push(part);
        if stop.is_none() {
            if r.blocked == Some(i as u8) {
                fs::write(&folder, b"in the way").map_err(harness)?;
                stop = Some(true);
            } else if i < usize::from(r.existing) {
                fs::create_dir(&folder).map_err(harness)?;
            } else {
                stop = Some(false);
            }
        }
    }
    let blocked = stop == Some(true);
    let mut way: Option<usize> = None;
    if folder.is_dir() {
        for p in &r.prior {
            match p {
                Prior::Number(n, b) => {
                    let f = folder.join(format!("{n:06}.png"));
                    if !f.exists() {
                        fs::write(f, b).map_err(harness)?;
                    }
                }
                Prior::Long(n, k) => {
                    let f = folder.join(format!("{n:06}.png"));
                    if !f.exists() {
                        fs::write(f, vec![*k as u8; 4096 + usize::from(*k)]).map_err(harness)?;
                    }
                }
                Prior::Folder(n, inside) => {
                    let f = folder.join(format!("{n:06}.png"));
                    if !f.exists() {
                        fs::create_dir(&f).map_err(harness)?;
                        if *inside {
                            fs::write(f.join("kept"), b"kept").map_err(harness)?;
                        }
                        if usize::from(*n) < images.len() && way.map_or(true, |w| usize::from(*n) < w) {
                            way = Some(usize::from(*n));
                        }
                    }
                }
                Prior::Other(n, b) => {
                    let f = folder.join(n);
                    if !f.exists() {
                        fs::write(f, b).map_err(harness)?;
                    }
                }
                Prior::Dir(n) => {
                    let _ = fs::create_dir(folder.join(n));
                }
                Prior::Guarded(n, mode, b) => {
                    use std::os::unix::fs::PermissionsExt as _;
                    let f = folder.join(format!("{n:06}.png"));
                    if !f.exists() {
                        fs::write(&f, b).map_err(harness)?;
                        fs::set_permissions(&f, fs::Permissions::from_mode(u32::from(*mode))).map_err(harness)?;
                        // whether that stops anyone depends on who runs the check
                        let n = usize::from(*n);
                        if fs::OpenOptions::new().write(true).open(&f).is_err() && n < images.len() && way.map_or(true, |w| n < w) {
                            way = Some(n);
                        }
                        o.label("file with permissions of its own");
                    }
                }
            }
        }
        o.label_if(!r.prior.is_empty(), "populated folder");
    }
    // no PNG file can hold an image of no pixels
    if let Some(w) = images.iter().position(|i| i.is_empty()) {
        way = Some(way.map_or(w, |v| v.min(w)));
        o.label("image of no pixels");
    }
    let before = tree(&root);

    let mut path = folder.to_str().expect("made of strings").to_string();
    if r.slash && !blocked {
        path.push('/');
    }
    let result = no_panic(|| {
        if r.by_ref {
            dump_images(&path, images.iter())
        } else {
            dump_images(&path, images.clone())
        }
    })?;
    let after = tree(&root);

    let file = |i: usize| folder.join(format!("{i:06}.png"));
    let mut expect_ok = images.len();
    if blocked {
        expect_ok = 0;
        o.label("folder cannot be created");
        match &result {
            Err(SubtileError::ImageDump(DumpError::Folder { path: p, .. })) => {
                ensure!(p == &folder, "the error names {p:?} instead of the folder {folder:?}");
            }
            other => return Err(format!("the folder cannot be created, but the result is {other:?}")),
        }
        ensure!(before == after, "something was changed although the folder cannot be created");
    } else if let Some(w) = way {
        expect_ok = w;
        o.label("image cannot be written");
        match &result {
            Err(SubtileError::ImageDump(DumpError::DumpImage { filename, .. })) => {
                ensure!(filename == &file(w), "the error names {filename:?} instead of {:?}", file(w));
            }
            other => return Err(format!("image {w} cannot be written, but the result is {other:?}")),
        }
    } else {
        ensure!(result.is_ok(), "dumping {} images failed: {result:?}", images.len());
        ensure!(folder.is_dir(), "the folder does not exist after dumping {} images", images.len());
    }
    for (i, img) in images.iter().take(expect_ok).enumerate() {
        let bytes = after.get(&file(i)).ok_or_else(|| format!("image {i} is not on disk"))?.as_ref().ok_or("a folder")?;
        let d = image::load_from_memory_with_format(bytes, image::ImageFormat::Png).map_err(|e| format!("image {i} does not read back: {e}"))?;
        let kind = d.color();
        ensure!(kind == <P as PixelWithColorType>::COLOR_TYPE.into_color()?, "image {i} reads back in format {kind:?}");
        let (w, h, s) = back(d).ok_or("format")?;
        ensure!((w, h) == img.dimensions(), "image {i} reads back as {w}x{h} instead of {:?}", img.dimensions());
        ensure!(&s == img.as_raw(), "image {i} reads back with other pixels");
    }
    // everything else is as before
    let ours: Vec<PathBuf> = (0..images.len()).map(file).collect();
    for (p, c) in &before {
        if c.is_some() && ours.contains(p) {
            continue;
        }
        ensure!(after.get(p) == Some(c), "{p:?} was changed or removed");
    }
    for p in after.keys() {
        ensure!(
            before.contains_key(p) || ours.contains(p) || folder.starts_with(p),
            "{p:?} was created"
        );
    }
    o.nontrivial_if(images.len() > 1 && images.windows(2).any(|w| w[0].as_raw() != w[1].as_raw()) || (before.len() > 2));
    Ok(())
}

trait IntoColor {
    fn into_color(self) -> Result<image::ColorType, String>;
}
impl IntoColor for image::ExtendedColorType {
    fn into_color(self) -> Result<image::ColorType, String> {
        use image::{ColorType as C, ExtendedColorType as E};
        Ok(match self {
            E::L8 => C::L8,
            E::La8 => C::La8,
            E::Rgb8 => C::Rgb8,
            E::Rgba8 => C::Rgba8,
            E::L16 => C::L16,
            E::La16 => C::La16,
            E::Rgb16 => C::Rgb16,
            E::Rgba16 => C::Rgba16,
            other => return Err(format!("harness: format {other:?}")),
        })
    }
}

macro_rules! back {
    ($($v:ident)|+) => {
        |d| match d {
            $(image::DynamicImage::$v(i) => Some((i.width(), i.height(), i.into_raw())),)+
            _ => None,
        }
    };
}

fn dump_any(r: &DumpR, o: &mut Obs) -> Result<(), String> {
    match r.format % 8 {
        0 => dump_case::<Luma<u8>>(r, 1, back!(ImageLuma8), o),
        1 => dump_case::<LumaA<u8>>(r, 2, back!(ImageLumaA8), o),
        2 => dump_case::<Rgb<u8>>(r, 3, back!(ImageRgb8), o),
        3 => dump_case::<Rgba<u8>>(r, 4, back!(ImageRgba8), o),
        4 => dump_case::<Luma<u16>>(r, 1, back!(ImageLuma16), o),
        5 => dump_case::<LumaA<u16>>(r, 2, back!(ImageLumaA16), o),
        6 => dump_case::<Rgb<u16>>(r, 3, back!(ImageRgb16), o),
        _ => dump_case::<Rgba<u16>>(r, 4, back!(ImageRgba16), o),
    }
}

fn c27(c: &Ctx) {
    c.search("dumps", 80_000, 800_000, dump_r, dump_any);
    // two- and three-digit numbers, in one go
    c.search(
        "many",
        64,
        600,
        || {
            let few = || prop::collection::vec((num(1u8..3), num(1u8..3), prop::collection::vec(any16(), 4)), 1..20);
            (num(0u8..8), few().prop_flat_map(|v| (Just(v), num(100usize..700).wide(100usize..=1100))), any::<bool>())
                .prop_map(|(f, (v, n), r)| (f, v.into_iter().cycle().take(n).collect(), r))
        },
        |(format, images, by_ref): &(u8, Vec<(u8, u8, Vec<u16>)>, bool), o: &mut Obs| {
            let r = DumpR {
                format: *format,
                images: images.clone(),
                by_ref: *by_ref,
                path: vec!["many".into()],
                existing: 0,
                slash: false,
                prior: vec![],
                blocked: None,
            };
            dump_any(&r, o)
        },
    );
    // numbers of more digits, and counts next to round ones
    let counts = [999usize, 1001, 1025, 2049, 4097, 5000, 8193, 10_001];
    c.enumerate("counts", false, counts.into_iter(), |&n: &usize, o: &mut Obs| {
        let dir = fresh_dir("counts")?;
        o.nontrivial();
        let img = |i: usize| ImageBuffer::<Luma<u8>, Vec<u8>>::from_fn(1 + (i as u32 >> 8 & 1), 1, |x, _| Luma([(i as u32 + x) as u8 ^ (i >> 8) as u8]));
        let r = no_panic(|| dump_images(dir.to_str().expect("a string"), (0..n).map(img)))?;
        ensure!(r.is_ok(), "{n} images: {r:?}");
        let files = fs::read_dir(&dir).map_err(|e| format!("harness: {e}"))?.count();
        ensure!(files == n, "{n} images dumped, {files} files there");
        for i in 0..n {
            let p = dir.join(format!("{i:06}.png"));
            let got = image::open(&p).map_err(|e| format!("image {i} of {n}: {e}"))?.into_luma8();
            ensure!(got == img(i), "image {i} of {n} does not read back");
        }
        fs::remove_dir_all(&dir).map_err(|e| format!("harness: {e}"))
    });
    // a second dump over a first one
    c.search("again", 12_000, 120_000, || (dump_r(), dump_r()), |(a, b): &(DumpR, DumpR), o: &mut Obs| {
        let dir = fresh_dir("again")?;
        let path = dir.to_str().expect("a string").to_string();
        let make = |r: &DumpR| -> Vec<ImageBuffer<Rgb<u8>, Vec<u8>>> {
            r.images
                .iter()
                .map(|(w, h, s)| {
                    ImageBuffer::from_fn(u32::from(*w).max(1), u32::from(*h).max(1), |x, y| {
                        let v = s[(x + 3 * y) as usize % s.len()];
                        Rgb([v as u8, (v >> 8) as u8, x as u8])
                    })
                })
                .collect()
        };
        let (a, b) = (make(a), make(b));
        for set in [&a, &b] {
            let r = no_panic(|| dump_images(&path, set.iter()))?;
            ensure!(r.is_ok(), "dump failed: {r:?}");
        }
        let got = tree(&dir);
        let n = a.len().max(b.len());
        ensure!(got.len() == n, "{} files after dumps of {} and {} images", got.len(), a.len(), b.len());
        for i in 0..n {
            let want = b.get(i).or_else(|| a.get(i)).expect("one of them");
            let bytes = got.get(&dir.join(format!("{i:06}.png"))).and_then(Option::as_ref).ok_or_else(|| format!("image {i} is not on disk"))?;
            let d = image::load_from_memory_with_format(bytes, image::ImageFormat::Png).map_err(|e| format!("image {i} does not read back: {e}"))?;
            ensure!(matches!(&d, image::DynamicImage::ImageRgb8(g) if g == want), "image {i} reads back differently");
        }
        o.nontrivial_if(!a.is_empty() && !b.is_empty());
        Ok(())
    });
    c.enumerate("impossible_names", true, ["a\0b", "a\0", "\0"].map(String::from).into_iter(), |n: &String, o: &mut Obs| {
        o.nontrivial();
        let root = fresh_dir("names")?;
        let path = root.join(n);
        let img: ImageBuffer<Luma<u8>, Vec<u8>> = ImageBuffer::from_pixel(2, 2, Luma([1]));
        let r = no_panic(|| dump_images(path.to_str().expect("a string"), [&img]))?;
        match r {
            Err(SubtileError::ImageDump(DumpError::Folder { path: p, .. })) if p == path => {}
            other => return Err(format!("the folder cannot be created, but the result is {other:?}")),
        }
        ensure!(tree(&root).is_empty(), "something was created");
        Ok(())
    });
}

// ------------------------------------------------------------------ C28

struct Holder(Area);
impl ImageArea for Holder {
    fn area(&self) -> Area {
        self.0
    }
}

fn area_case(v: [u16; 4]) -> Result<bool, String> {
    let [x1, y1, x2, y2] = v;
    let span = |a: u16, b: u16| i64::from(b) - i64::from(a) + 1;
    let (w, h) = (span(x1, x2), span(y1, y2));
    let valid = x2 > x1 && y2 > y1 && w <= 65_535 && h <= 65_535;
    match Area::try_from(AreaValues { x1, y1, x2, y2 }) {
        Ok(a) => {
            ensure!(valid, "({x1}, {y1})-({x2}, {y2}) is accepted");
            ensure!((a.left(), a.top()) == (x1, y1), "({x1}, {y1})-({x2}, {y2}): first corner ({}, {})", a.left(), a.top());
            ensure!(
                (i64::from(a.width()), i64::from(a.height())) == (w, h),
                "({x1}, {y1})-({x2}, {y2}): {}x{} instead of {w}x{h}",
                a.width(),
                a.height()
            );
            let s = a.size();
            ensure!((s.w as i64, s.h as i64) == (w, h), "({x1}, {y1})-({x2}, {y2}): size {}x{} instead of {w}x{h}", s.w, s.h);
            let i = Holder(a);
            ensure!(
                (i64::from(i.width()), i64::from(i.height())) == (w, h),
                "({x1}, {y1})-({x2}, {y2}): image size {}x{} instead of {w}x{h}",
                i.width(),
                i.height()
            );
            Ok(true)
        }
        Err(e) => {
            ensure!(!valid, "({x1}, {y1})-({x2}, {y2}) is rejected");
            ensure!(matches!(e, ContentError::InvalidAreaBounding), "({x1}, {y1})-({x2}, {y2}) is rejected with {e:?}");
            Ok(false)
        }
    }
}

fn c28(c: &Ctx) {
    const B: [u16; 14] = [0, 1, 2, 3, 254, 255, 256, 4095, 4096, 32_767, 32_768, 65_533, 65_534, 65_535];
    let grid = (0..B.len().pow(4)).map(|i| [i, i / 14, i / 196, i / 2744].map(|k| B[k % 14]));
    c.enumerate("grid", true, grid, |v: &[u16; 4], o: &mut Obs| {
        if area_case(*v)? || (v[2] > v[0]) != (v[3] > v[1]) {
            o.nontrivial();
        }
        Ok(())
    });
    let coord = || prop_oneof![3 => any16(), 2 => num(0u16..2000), 1 => prop::sample::select(B.to_vec())];
    c.search(
        "random",
        2_000_000,
        20_000_000,
        || (coord(), coord(), coord(), coord(), num(0u8..8)).prop_map(|(a, b, c, d, k)| match k {
            // mostly in order, sometimes close together
            0 => [a, b, c, d],
            1 => [a, b, a.wrapping_add(c % 3), b.wrapping_add(d % 3)],
            2 => [c, b, a, d],
            _ => [a.min(c), b.min(d), a.max(c), b.max(d)],
        }),
        |v: &[u16; 4], o: &mut Obs| {
            if no_panic(|| area_case(*v))?? || (v[2] > v[0]) != (v[3] > v[1]) {
                o.nontrivial();
            }
            Ok(())
        },
    );
    let step = if c.tier == Tier::Quick { 61 } else { 1 };
    let rows = (0..=65_535u16).step_by(step).chain(B);
    c.enumerate("every_second_coordinate", c.tier == Tier::Thorough, rows, |&a: &u16, o: &mut Obs| {
        o.nontrivial();
        for b in 0..=65_535 {
            area_case([a, 7, b, 9])?;
            area_case([65_534, a, 65_535, b])?;
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C29

trait Timed {
    fn span(&self) -> (i64, i64);
}
impl Timed for TimeSpan {
    fn span(&self) -> (i64, i64) {
        (self.start.msecs(), self.end.msecs())
    }
}
impl<I> Timed for (TimeSpan, I) {
    fn span(&self) -> (i64, i64) {
        self.0.span()
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct VStream {
    subs: Vec<(SubR, Vec<FragR>)>,
    end_code: bool,
}

fn vstream(max: usize) -> impl Strategy<Value = VStream> {
    (prop::collection::vec((small_sub_r(), prop::collection::vec(frag_r(), 0..3)), 1..max), any::<bool>()).prop_map(|(mut subs, end_code)| {
        // the stream begins with a pack
        if let Some(f) = subs[0].1.first_mut() {
            f.before.clear();
        }
        VStream { subs, end_code }
    })
}

impl VStream {
    fn realise(&self) -> (Vec<u8>, Vec<Option<VItem>>) {
        let mut out = vec![];
        let mut items = vec![];
        for (s, f) in &self.subs {
            let (i, p, _) = vob::realise(s);
            transport(&p, s.pts, 0x20, f, &[], &mut out);
            items.push(Some(i));
        }
        if self.end_code {
            out.extend([0, 0, 1, 0xB9]);
        }
        (out, items)
    }
}

fn vitem(r: Result<(TimeSpan, VobSubIndexedImage), subtile::vobsub::VobSubError>) -> DItem {
    r.map(|(t, i)| to_item(&t, &i)).map_err(|e| vob::err_kind(&e))
}

fn same_items(what: &str, want: &[DItem], got: &[DItem]) -> Result<(), String> {
    for (i, (w, g)) in want.iter().zip(got).enumerate() {
        match (w, g) {
            (Ok(w), Ok(g)) => {
                if let Some(d) = w.diff(g) {
                    return Err(format!("{what}: subtitle {i}: {d}"));
                }
            }
            (Err(a), Err(b)) if a == b => {}
            _ => return Err(format!("{what}: item {i} is {g:?} instead of {w:?}")),
        }
    }
    ensure!(want.len() == got.len(), "{what}: {} items instead of {}", got.len(), want.len());
    Ok(())
}

/// Times only, filled up with the images expected.
fn take_times<R: std::io::BufRead + std::io::Seek>(r: &mut R, n: usize, want: &[pgs::PResult]) -> Vec<pgs::PResult> {
    SupParser::<&mut R, DecodeTimeOnly>::new(r)
        .take(n)
        .enumerate()
        .map(|(i, t)| {
            let t = t.map_err(|e| pgs::err_kind(&e))?;
            let mut item = match want.get(i) {
                Some(Ok(w)) => w.clone(),
                _ => PItem { start: 0, end: 0, w: 0, h: 0, pixels: vec![] },
            };
            (item.start, item.end) = (t.start.msecs(), t.end.msecs());
            Ok(item)
        })
        .collect()
}

fn same_pgs(what: &str, i: usize, w: &pgs::PResult, g: &pgs::PResult) -> Result<(), String> {
    let d = match (w, g) {
        (Ok(w), Ok(g)) => w.diff(g),
        (Err(a), Err(b)) if a == b => None,
        (w, g) => Some(format!("{:?} instead of {:?}", g.as_ref().map(|_| "a subtitle"), w.as_ref().map(|_| "a subtitle"))),
    };
    d.map_or(Ok(()), |d| Err(format!("{what}: item {i}: {d}")))
}

fn c29(c: &Ctx) {
    c.search("vobsub_concatenation", 60_000, 1_500_000, || (vstream(4), vstream(4)), |(a, b): &(VStream, VStream), o: &mut Obs| {
        let (ab, ai) = a.realise();
        let (bb, bi) = b.realise();
        let joined = vob::decode(&[ab.clone(), bb.clone()].concat())?;
        let mut parts = vob::decode(&ab)?;
        parts.extend(vob::decode(&bb)?);
        same_items("the concatenation against its parts", &parts, &joined)?;
        vob::compare(&[ai, bi].concat(), &joined)?;
        let back = vob::decode(&[bb.clone(), ab.clone(), bb].concat())?;
        let nb = b.subs.len();
        same_items("second stream before the first", &joined[a.subs.len()..], &back[..nb.min(back.len())])?;
        ensure!(back.len() == 2 * nb + a.subs.len(), "three concatenated streams give {} items", back.len());
        o.nontrivial_if(!parts.is_empty() && parts.iter().all(Result::is_ok));
        Ok(())
    });
    c.search(
        "pgs_concatenation",
        60_000,
        1_500_000,
        || (prop::collection::vec(small_psub_r(), 1..4), prop::collection::vec(small_psub_r(), 1..4)),
        |(a, b): &(Vec<PSubR>, Vec<PSubR>), o: &mut Obs| {
            let real = |v: &[PSubR]| -> (Vec<u8>, Vec<Option<PItem>>) {
                let s: Vec<pgs::PSub> = v.iter().map(pgs::realise).collect();
                (pgs::stream(&s), s.into_iter().map(|s| Some(s.item)).collect())
            };
            let (ab, ai) = real(a);
            let (bb, bi) = real(b);
            let joined = [ab.clone(), bb.clone()].concat();
            let whole = pgs::decode(&joined)?;
            let mut parts = pgs::decode(&ab)?;
            parts.extend(pgs::decode(&bb)?);
            let want: Vec<Option<PItem>> = parts.iter().map(|p| p.as_ref().ok().cloned()).collect();
            pgs::compare(&want, &whole).map_err(|d| format!("the concatenation against its parts: {d}"))?;
            pgs::compare(&[ai, bi].concat(), &whole)?;
            let n = joined.len();
            let times = pgs::decode_times(Cursor::new(&joined), n)?;
            let mut tparts = pgs::decode_times(Cursor::new(&ab), n)?;
            tparts.extend(pgs::decode_times(Cursor::new(&bb), n)?);
            ensure!(times == tparts, "times of the concatenation are {times:?}, of its parts {tparts:?}");
            let wt: Vec<(i64, i64)> = whole.iter().flatten().map(|i| (i.start, i.end)).collect();
            ensure!(times.iter().flatten().copied().eq(wt.iter().copied()), "times alone are {times:?}, with images {wt:?}");
            o.nontrivial_if(whole.iter().all(Result::is_ok));
            Ok(())
        },
    );
    c.search(
        "vobsub_interleaved",
        50_000,
        1_000_000,
        || (vstream(5), prop::option::weighted(0.3, mut_r()), prop::collection::vec(any8(), 0..40), prop::bool::weighted(0.2)),
        |(s, bad, steps, threads): &(VStream, Option<MutR>, Vec<u8>, bool), o: &mut Obs| {
            let mut bytes = s.realise().0;
            if let Some(m) = bad {
                bytes.extend(m.bytes());
            }
            let want = vob::decode(&bytes)?;
            let sub: Sub = vob::open(&bytes)?;
            guard::arm(20 * vob::work_budget(&bytes), false);
            let r = no_panic(|| -> Result<(), String> {
                // three iterators on the same stream, one of times
                let mut its = [sub.subtitles::<(TimeSpan, VobSubIndexedImage)>(), sub.subtitles(), sub.subtitles()];
                let mut times = sub.subtitles::<TimeSpan>();
                let mut got: [Vec<DItem>; 3] = Default::default();
                let mut got_t: Vec<Result<(i64, i64), &'static str>> = vec![];
                for k in steps {
                    match k % 4 {
                        3 => got_t.extend(times.next().map(|r| r.map(|t| t.span()).map_err(|e| vob::err_kind(&e)))),
                        k => {
                            let k = usize::from(k);
                            got[k].extend(its[k].next().map(vitem));
                        }
                    }
                }
                if *threads {
                    // the rest on one thread each, and two more from the start
                    o.label("threads");
                    let sub = &sub;
                    std::thread::scope(|sc| {
                        let rest: Vec<_> = its
                            .into_iter()
                            .zip(std::mem::take(&mut got))
                            .map(|(it, mut g)| {
                                sc.spawn(move || {
                                    g.extend(it.map(vitem));
                                    g
                                })
                            })
                            .collect();
                        let more: Vec<_> = (0..2).map(|_| sc.spawn(move || sub.subtitles::<(TimeSpan, VobSubIndexedImage)>().map(vitem).collect::<Vec<_>>())).collect();
                        for h in rest.into_iter().chain(more) {
                            let g = h.join().map_err(|_| "a decoding thread panicked".to_string())?;
                            same_items("an iterator on a thread of its own", &want, &g)?;
                        }
                        Ok::<(), String>(())
                    })?;
                } else {
                    for (it, g) in its.into_iter().zip(&mut got) {
                        g.extend(it.map(vitem));
                    }
                    for g in &got {
                        same_items("an interleaved iterator", &want, g)?;
                    }
                }
                got_t.extend(times.map(|r| r.map(|t| t.span()).map_err(|e| vob::err_kind(&e))));
                ensure!(
                    got_t.iter().flatten().copied().eq(want.iter().flatten().map(|i| (i.start, i.end))),
                    "times alone are {got_t:?}, the subtitles are {want:?}"
                );
                Ok(())
            });
            guard::disarm();
            r??;
            drop(sub);
            same_items("decoding again", &want, &vob::decode(&bytes)?)?;
            o.label_if(bad.is_some(), "damaged part");
            o.nontrivial_if(want.iter().flatten().count() > 0 && steps.iter().any(|k| k % 4 != steps[0] % 4));
            Ok(())
        },
    );
    c.search(
        "pgs_interleaved",
        60_000,
        1_200_000,
        || {
            (
                prop::collection::vec(small_psub_r(), 1..4),
                pmut_r(),
                prop::collection::vec(any8(), 0..30),
                prop::bool::weighted(0.1),
            )
        },
        |(subs, other, steps, threads): &(Vec<PSubR>, PMutR, Vec<u8>, bool), o: &mut Obs| {
            let s: Vec<pgs::PSub> = subs.iter().map(pgs::realise).collect();
            let good = pgs::stream(&s);
            let bad = mutated(other);
            type R<'a> = SupParser<Cursor<&'a [u8]>, DecodeTimeImage>;
            let item = |r: Option<_>| -> Option<pgs::PResult> {
                r.map(|r: Result<(TimeSpan, subtile::pgs::RleEncodedImage), subtile::pgs::PgsError>| {
                    r.map(|(t, img)| PItem {
                        start: t.start.msecs(),
                        end: t.end.msecs(),
                        w: img.width(),
                        h: img.height(),
                        pixels: pgs::pixels_of(&img),
                    })
                    .map_err(|e| pgs::err_kind(&e))
                })
            };
            let want = pgs::decode(&good)?;
            let want_bad = pgs::decode(&bad)?;
            let r = no_panic(|| -> Result<(), String> {
                let mut its: [R; 3] = [SupParser::new(Cursor::new(&good[..])), SupParser::new(Cursor::new(&bad[..])), SupParser::new(Cursor::new(&good[..]))];
                let mut times = SupParser::<_, DecodeTimeOnly>::new(Cursor::new(&good[..]));
                let mut got: [Vec<pgs::PResult>; 3] = Default::default();
                let mut got_t = vec![];
                for k in steps {
                    match k % 4 {
                        3 => got_t.extend(times.next().map(|r| r.map(|t| t.span()).map_err(|e| pgs::err_kind(&e)))),
                        k => {
                            let k = usize::from(k);
                            got[k].extend(item(its[k].next()));
                        }
                    }
                }
                if *threads {
                    o.label("threads");
                    let item = &item;
                    got = std::thread::scope(|sc| {
                        let hs: Vec<_> = its
                            .into_iter()
                            .zip(got)
                            .map(|(mut it, mut g)| {
                                sc.spawn(move || {
                                    while let Some(i) = item(it.next()) {
                                        g.push(i);
                                    }
                                    g
                                })
                            })
                            .collect();
                        let mut out: [Vec<pgs::PResult>; 3] = Default::default();
                        for (o, h) in out.iter_mut().zip(hs) {
                            *o = h.join().map_err(|_| "a decoding thread panicked".to_string())?;
                        }
                        Ok::<_, String>(out)
                    })?;
                } else {
                    for (it, g) in its.iter_mut().zip(&mut got) {
                        while let Some(i) = item(it.next()) {
                            g.push(i);
                        }
                    }
                }
                got_t.extend(times.map(|r| r.map(|t| t.span()).map_err(|e| pgs::err_kind(&e))));
                for (k, (g, w)) in got.iter().zip([&want, &want_bad, &want]).enumerate() {
                    ensure!(g.len() == w.len(), "parser {k}: {} items instead of {}", g.len(), w.len());
                    for (i, (g, w)) in g.iter().zip(w).enumerate() {
                        let ok = match (g, w) {
                            (Ok(g), Ok(w)) => w.diff(g).is_none(),
                            (Err(a), Err(b)) => a == b,
                            _ => false,
                        };
                        ensure!(ok, "parser {k}: item {i} differs from that of a parser used alone");
                    }
                }
                ensure!(
                    got_t.iter().flatten().copied().eq(want.iter().flatten().map(|i| (i.start, i.end))),
                    "times alone are {got_t:?}"
                );
                Ok(())
            });
            r??;
            o.nontrivial_if(want.len() > 1 || !want_bad.is_empty());
            Ok(())
        },
    );
    // subtitles that differ little from those read before, in one stream or several
    c.search("vobsub_near", 50_000, 900_000, || (vob::near_subs(), any::<bool>()), |((first, changes), apart): &((SubR, Vec<(Tweak, bool)>), bool), o: &mut Obs| {
        let mut items = vec![];
        let mut packets = vec![];
        for s in vob::near(first, changes, SubR::tweaked) {
            let (i, p, _) = vob::realise(&s);
            items.push(Some(i));
            packets.push((p, s.pts));
        }
        o.nontrivial_if(items.windows(2).any(|w| w[0] != w[1]));
        o.label(if *apart { "a stream each" } else { "one stream" });
        if *apart {
            for (i, p) in items.iter().zip(packets) {
                vob::compare(std::slice::from_ref(i), &vob::decode(&vob::plain_stream(&[p]))?)?;
            }
            return Ok(());
        }
        vob::compare(&items, &vob::decode(&vob::plain_stream(&packets))?)
    });
    c.search("pgs_near", 50_000, 900_000, || (pgs::near_psubs(), any::<bool>()), |((first, changes), apart): &((PSubR, Vec<(Tweak, bool)>), bool), o: &mut Obs| {
        let subs: Vec<pgs::PSub> = vob::near(first, changes, PSubR::tweaked).iter().map(pgs::realise).collect();
        o.nontrivial_if(subs.windows(2).any(|w| w[0].item.diff(&w[1].item).is_some()));
        o.label(if *apart { "a stream each" } else { "one stream" });
        let times = |b: &[u8]| pgs::decode_times(Cursor::new(b), b.len());
        if *apart {
            for s in &subs {
                let b = s.bytes();
                pgs::compare(&[Some(s.item.clone())], &pgs::decode(&b)?)?;
                let t = times(&b)?;
                ensure!(t == [Ok((s.item.start, s.item.end))], "times alone are {t:?}");
            }
            return Ok(());
        }
        let b = pgs::stream(&subs);
        let items: Vec<_> = subs.iter().map(|s| Some(s.item.clone())).collect();
        pgs::compare(&items, &pgs::decode(&b)?)?;
        let t = times(&b)?;
        ensure!(t.iter().flatten().copied().eq(subs.iter().map(|s| (s.item.start, s.item.end))), "times alone are {t:?}");
        Ok(())
    });
    // conversions of things that differ little from those converted before
    c.search("conversions", 40_000, 700_000, || (prop::collection::vec(prop::array::uniform3(any8()), 16), prop::collection::vec((any8(), any16()), 2..30)), |(first, steps): &(Vec<[u8; 3]>, Vec<Tweak>), o: &mut Obs| {
        let mut pal: [Rgb<u8>; 16] = std::array::from_fn(|i| Rgb(first[i]));
        let mut lang = *b"en";
        let mut raw = [0u8, 1, 2, 3, 3, 2];
        let (mut colours, mut alpha) = ([0u8, 1, 2, 3], [15u8, 14, 13, 0]);
        let mut lumas = vec![];
        o.nontrivial();
        for &(what, k) in steps {
            let i = usize::from(k);
            match what % 8 {
                0..=2 => pal[i % 16].0[i / 16 % 3] ^= 1 << (k >> 13),
                3 => lang[i % 2] = b'a' + (i / 2 % 26) as u8,
                4 => raw[i % 6] = (i / 6 % 4) as u8,
                5 => colours[i % 4] = (i / 4 % 16) as u8,
                6 => alpha[i % 4] = (i / 4 % 16) as u8,
                _ => {}
            }
            // the palette's luminance
            let luma = no_panic(|| palette_rgb_to_luminance(&pal))?;
            lumas.push((pal, luma));
            // an index with this palette and language
            let hex: Vec<String> = pal.iter().map(|c| format!("{:02x}{:02x}{:02x}", c.0[0], c.0[1], c.0[2])).collect();
            let lang = std::str::from_utf8(&lang).expect("letters");
            let text = format!("# VobSub index file\npalette: {}\nid: {lang}, index: 0\n", hex.join(", "));
            let index = no_panic(|| Index::read_index(std::io::BufReader::new(text.as_bytes()), &|source| VobSubError::Io { source, path: "x".into() }))?
                .map_err(|e| format!("index: {e}"))?;
            ensure!(*index.palette() == pal, "an index read after others has the palette {:?} instead of {pal:?}", index.palette());
            ensure!(index.lang().as_ref().is_some_and(|l| l.lang() == lang), "an index read after others has the language {:?} instead of {lang}", index.lang());
            // an image of them
            let area = Area::try_from(AreaValues { x1: 0, y1: 0, x2: 2, y2: 1 }).map_err(|e| format!("area rejected: {e:?}"))?;
            let img = VobSubIndexedImage::new(area, colours, alpha, raw.to_vec());
            let (rgba, ocr) = no_panic(|| (VobSubToImage::new(&img, &pal, conv_to_rgba).to_image(), VobSubOcrImage::new(&img, &luma).image(&ToOcrImageOpt::default())))?;
            for (n, r) in raw.iter().enumerate() {
                let (x, y) = (n as u32 % 3, n as u32 / 3);
                let (c, a) = (usize::from(colours[usize::from(*r)]), alpha[usize::from(*r)]);
                let [red, green, blue] = pal[c].0;
                let want = Rgba([red, green, blue, a]);
                ensure!(*rgba.get_pixel(x, y) == want, "pixel {n} is {:?} instead of {want:?}", rgba.get_pixel(x, y));
                let b = ToOcrImageOpt::default().border;
                let want = Luma([if a > 0 && luma[c].0[0] > 0 { 0 } else { 255 }]);
                ensure!(*ocr.get_pixel(x + b, y + b) == want, "OCR pixel {n} is {:?} instead of {want:?}", ocr.get_pixel(x + b, y + b));
            }
        }
        // every colour has the luminance it has among its like
        for (n, (pal, luma)) in lumas.iter().enumerate() {
            for (c, l) in pal.iter().zip(luma) {
                let alone = palette_rgb_to_luminance(&[*c; 16])[n % 16];
                ensure!(*l == alone, "{c:?} has luminance {l:?} in the palette converted after {n} others, {alone:?} alone");
            }
        }
        Ok(())
    });
    // files whose contents change between one opening and the next, and while opened
    let versions = || {
        let v = (vstream(3), small_psub_r(), prop::array::uniform3(any8()), any16());
        (prop::collection::vec((v, prop::bool::weighted(0.3)), 2..6), any::<bool>())
    };
    c.search("reopened", 6_000, 120_000, versions, |(versions, removed): &(Vec<((VStream, PSubR, [u8; 3], u16), bool)>, bool), o: &mut Obs| {
        let dir = fresh_dir("reopened")?;
        let h = |e: std::io::Error| format!("harness: {e}");
        let (sub, sup, idx) = (dir.join("a.sub"), dir.join("a.sup"), dir.join("a.idx"));
        let mut opened = vec![];
        // all of one size, as an editor that changes a few bytes leaves them
        let (mut most_v, mut most_p) = (0, 0);
        let made: Vec<_> = versions
            .iter()
            .map(|((v, p, colour, at), same)| {
                let (b, items) = v.realise();
                let p = pgs::realise(p);
                most_v = most_v.max(b.len());
                most_p = most_p.max(p.bytes().len());
                (b, items, p, *colour, usize::from(*at) % 16, *same)
            })
            .collect();
        for (b, items, p, colour, at, same) in made {
            if *removed {
                for f in [&sub, &sup, &idx] {
                    let _ = fs::remove_file(f);
                }
            }
            let mut stream = b;
            if same {
                stream.resize(most_v, 0);
                o.label("same size");
            }
            fs::write(&sub, &stream).map_err(h)?;
            fs::write(&sup, p.bytes()).map_err(h)?;
            let mut pal = [[0x11u8, 0x22, 0x33]; 16];
            pal[at] = colour;
            let lang = [b'a' + at as u8, b'a' + colour[0] % 26];
            let lang = std::str::from_utf8(&lang).expect("letters").to_string();
            let hex: Vec<String> = pal.iter().map(|c| format!("{:02x}{:02x}{:02x}", c[0], c[1], c[2])).collect();
            fs::write(&idx, format!("# VobSub index file\npalette: {}\nid: {lang}, index: 0\n", hex.join(", "))).map_err(h)?;
            let s = no_panic(|| Sub::open(&sub))?.map_err(|e| format!("stream: {e}"))?;
            let i = no_panic(|| Index::open(&idx))?.map_err(|e| format!("index: {e}"))?;
            let parser = SupParser::<std::io::BufReader<fs::File>, DecodeTimeImage>::from_file(&sup).map_err(|e| format!("presentation graphics: {e}"))?;
            let got: Vec<pgs::PResult> = parser
                .take(3)
                .map(|r| r.map(|(t, img)| PItem { start: t.start.msecs(), end: t.end.msecs(), w: img.width(), h: img.height(), pixels: pgs::pixels_of(&img) }).map_err(|e| pgs::err_kind(&e)))
                .collect();
            pgs::compare(&[Some(p.item.clone())], &got).map_err(|d| format!("opened after other contents: {d}"))?;
            opened.push((s, i, items, pal, lang, stream));
            // all those opened before are what they were
            for (n, (s, i, items, pal, lang, stream)) in opened.iter().enumerate() {
                guard::arm(20 * vob::work_budget(stream), false);
                let got: Result<Vec<DItem>, String> = no_panic(|| s.subtitles::<(TimeSpan, VobSubIndexedImage)>().map(vitem).collect());
                guard::disarm();
                vob::compare(items, &got?).map_err(|d| format!("stream opened {n}th of {}: {d}", opened.len()))?;
                ensure!(i.palette().map(|c| c.0) == *pal, "the index opened {n}th of {} has the palette {:x?} instead of {pal:x?}", opened.len(), i.palette());
                ensure!(i.lang().as_ref().is_some_and(|l| l.lang() == lang), "the index opened {n}th of {} has the language {:?} instead of {lang}", opened.len(), i.lang());
            }
        }
        o.label(if *removed { "removed first" } else { "overwritten" });
        o.nontrivial();
        fs::remove_dir_all(&dir).map_err(h)
    });
    // parsers one after the other on one reader, each for some subtitles
    c.search(
        "pgs_resumed",
        60_000,
        1_200_000,
        || (prop::collection::vec(small_psub_r(), 1..7), prop::option::weighted(0.3, pmut_r()), prop::collection::vec(any8(), 1..8), num(1u16..64)),
        |(subs, bad, steps, cap): &(Vec<PSubR>, Option<PMutR>, Vec<u8>, u16), o: &mut Obs| {
            let s: Vec<pgs::PSub> = subs.iter().map(pgs::realise).collect();
            let bytes = match bad {
                Some(m) => mutated(m),
                None => pgs::stream(&s),
            };
            let want = pgs::decode(&bytes)?;
            let (mut a, mut b) = (Cursor::new(&bytes), std::io::BufReader::with_capacity((*cap).into(), Cursor::new(&bytes)));
            let r = no_panic(|| -> Result<(), String> {
                for buffered in [false, true] {
                    let mut k = 0;
                    for i in 0.. {
                        let step = steps[i % steps.len()];
                        let n = 1 + usize::from(step / 2 % 3);
                        // the two decoders take different parts of a broken stream
                        let with_images = step & 1 == 0 || bad.is_some();
                        let got: Vec<pgs::PResult> = match (buffered, with_images) {
                            (false, true) => pgs::take_images(&mut a, n),
                            (true, true) => pgs::take_images(&mut b, n),
                            (false, false) => take_times(&mut a, n, want.get(k..).unwrap_or(&[])),
                            (true, false) => take_times(&mut b, n, want.get(k..).unwrap_or(&[])),
                        };
                        for (j, g) in got.iter().enumerate() {
                            let Some(w) = want.get(k + j) else { return Err(format!("more than the {} items of the stream", want.len())) };
                            same_pgs(&format!("parser {i}"), k + j, w, g)?;
                        }
                        k += got.len();
                        if got.len() < n {
                            break;
                        }
                    }
                    ensure!(k == want.len(), "{k} items by several parsers instead of {}", want.len());
                }
                Ok(())
            });
            r??;
            o.nontrivial_if(want.len() > 1);
            Ok(())
        },
    );
}

// ------------------------------------------------------------------ C34

/// A VobSub image of 3x2 pixels, and what differs in another one.
type Parts = ([u16; 4], [u8; 4], [u8; 4], Vec<u8>);

fn hashed<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher as _;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn equal<T: PartialEq + Clone + Debug>(what: &str, a: &T, b: &T, same: bool) -> Result<(), String> {
    ensure!((a == b) == same && (b == a) == same && (a != b) != same, "{what}: {a:?} and {b:?} are {}, their parts {}", a == b, same);
    ensure!(a.clone() == *a && b.clone() == *b, "{what}: a copy of {a:?} or {b:?} is not equal to it");
    Ok(())
}

fn c34(c: &Ctx) {
    let corner = || prop_oneof![3 => num(0u16..6), 1 => any16()];
    let parts = move || {
        (prop::array::uniform4(corner()), prop::array::uniform4(num(0u8..16)), prop::array::uniform4(num(0u8..16)), prop::collection::vec(num(0u8..4), 6..40))
            .prop_map(|([x, y, w, h], p, a, raw)| -> Parts { ([x, y, x.saturating_add(w.max(1)), y.saturating_add(h.max(1))], p, a, raw) })
    };
    c.search("values", 300_000, 4_000_000, move || (parts(), parts(), any16(), any8()), |(a, other, k, how): &(Parts, Parts, u16, u8), o: &mut Obs| {
        let mut b = a.clone();
        let i = usize::from(*k);
        let bit = 1 << (k >> 13);
        let part = ["first corner", "second corner", "palette", "alpha", "pixel", "number of pixels", "nothing", "everything"][usize::from(how % 8)];
        match how % 8 {
            0 => b.0[i % 2] = b.0[i % 2].saturating_sub(1),
            1 => b.0[2 + i % 2] = b.0[2 + i % 2].saturating_add(1),
            2 => b.1[i % 4] ^= bit & 15,
            3 => b.2[i % 4] ^= bit & 15,
            4 => {
                let n = b.3.len();
                b.3[i % n] ^= bit & 3;
            }
            5 => b.3.push(0),
            6 => {}
            _ => b.clone_from(other),
        }
        let values = |c: &[u16; 4]| AreaValues { x1: c[0], y1: c[1], x2: c[2], y2: c[3] };
        equal("corners", &values(&a.0), &values(&b.0), a.0 == b.0)?;
        if let (Ok(x), Ok(y)) = (Area::try_from(values(&a.0)), Area::try_from(values(&b.0))) {
            equal("areas", &x, &y, a.0 == b.0)?;
            let img = |p: &Parts, area| VobSubIndexedImage::new(area, p.1, p.2, p.3.clone());
            equal("images", &img(a, x), &img(&b, y), *a == b)?;
            let copy = img(a, x).clone();
            ensure!(
                copy.area() == x && *copy.palette() == a.1 && *copy.alpha() == a.2 && copy.raw_image() == a.3,
                "a copy of an image has other parts: {copy:?} of {a:?}"
            );
            o.label(part);
            o.nontrivial_if(*a != b);
        }
        // the same numbers as times, also far from zero
        let far = [0, 1 << 31, 1 << 32, 1 << 53, 1 << 62, -(1 << 53), i64::MIN + (1 << 20), i64::MAX - (1 << 20)][usize::from(how >> 3) % 8];
        let ms = |c: &[u16; 4], j: usize| {
            let off = (i64::from(c[j]) - 3) * if far == 0 { [1, 60_000, 1 << 32, -(1 << 40)][i % 4] } else { 1 };
            TimePoint::from_msecs(far + off)
        };
        for (x, y) in [(0, 1), (2, 3), (0, 3)] {
            let (p, q) = (ms(&a.0, x), ms(&b.0, y));
            equal("time points", &p, &q, p.msecs() == q.msecs())?;
            ensure!(p != q || hashed(&p) == hashed(&q), "{p:?} and {q:?} are equal but hash differently");
            let order = p.msecs().cmp(&q.msecs());
            ensure!(
                p.cmp(&q) == order && q.cmp(&p) == order.reverse() && p.partial_cmp(&q) == Some(order) && (p < q) == order.is_lt() && p.max(q).msecs() == p.msecs().max(q.msecs()),
                "the order of {p:?} and {q:?} is {:?}, that of their milliseconds {order:?}",
                p.cmp(&q)
            );
            let (r, s) = (TimeSpan::new(p, ms(&a.0, y)), TimeSpan::new(q, ms(&b.0, x)));
            equal("time spans", &r, &s, (r.start.msecs(), r.end.msecs()) == (s.start.msecs(), s.end.msecs()))?;
        }
        equal("default time spans", &TimeSpan::default(), &TimeSpan::new(TimePoint::from_msecs(0), TimePoint::default()), true)
    });
    // one pixel anywhere in a large image
    let size = || prop_oneof![3 => num(1u32..70_000), 1 => num(65_530u32..66_000), 1 => num(1u32..1_100_000)];
    c.search("large_images", 4_000, 60_000, move || (size(), any8(), any::<u32>(), num(0u8..3)), |&(n, seed, at, how): &(u32, u8, u32, u8), o: &mut Obs| {
        let Ok(area) = Area::try_from(AreaValues { x1: 0, y1: 0, x2: (n % 1999) as u16, y2: 99 }) else { return Ok(()) };
        let pixels: Vec<u8> = (0..n).map(|i| (i.wrapping_mul(2_654_435_761) >> 13) as u8 ^ seed & 3).collect();
        let mut other = pixels.clone();
        // the change is often at one of the ends
        let at = (if seed & 1 == 0 { at % n } else if seed & 2 == 0 { n - 1 - at % n.min(3) } else { at % n.min(3) }) as usize;
        match how {
            0 => other[at] ^= 1 << (seed >> 6),
            1 => {
                other.pop();
            }
            _ => {}
        }
        let (p, q) = (VobSubIndexedImage::new(area, [1, 2, 3, 4], [0, 5, 5, 5], pixels.clone()), VobSubIndexedImage::new(area, [1, 2, 3, 4], [0, 5, 5, 5], other));
        let same = how == 2;
        ensure!((p == q) == same && (q == p) == same && (p != q) != same, "images of {n} pixels, {}: said equal: {}", ["one different", "one less", "the same"][usize::from(how)], p == q);
        let copy = p.clone();
        ensure!(copy == p && copy.raw_image() == pixels, "a copy of an image of {n} pixels differs from it");
        o.label(if n > 65_535 { "over 65535 pixels" } else { "fewer" });
        o.nontrivial_if(!same);
        Ok(())
    });
    // images decoded rather than made
    c.search("decoded", 40_000, 700_000, || vob::near_subs(), |(first, changes): &(SubR, Vec<(Tweak, bool)>), o: &mut Obs| {
        let mut items = vec![];
        let mut packets = vec![];
        for s in vob::near(first, changes, SubR::tweaked) {
            let (i, p, _) = vob::realise(&s);
            items.push(i);
            packets.push((p, s.pts));
        }
        let bytes = vob::plain_stream(&packets);
        let sub = vob::open(&bytes)?;
        guard::arm(vob::work_budget(&bytes), false);
        let got: Result<Vec<_>, _> = no_panic(|| sub.subtitles::<(TimeSpan, VobSubIndexedImage)>().collect());
        guard::disarm();
        let got: Vec<(TimeSpan, VobSubIndexedImage)> = got?.into_iter().flatten().collect();
        ensure!(got.len() == items.len(), "{} subtitles instead of {}", got.len(), items.len());
        let picture = |i: &VItem| (i.area, i.palette, i.alpha, i.pixels.clone());
        for (x, w) in got.iter().zip(&items) {
            for (y, v) in got.iter().zip(&items) {
                let same = picture(w) == picture(v);
                equal("decoded images", &x.1, &y.1, same)?;
                equal("decoded subtitles", x, y, same && (w.start, w.end) == (v.start, v.end))?;
                o.label(if same { "equal images" } else { "different images" });
                o.nontrivial_if(!same);
            }
        }
        Ok(())
    });
    // whatever is decoded can be printed
    c.search("printed", 60_000, 900_000, || (mut_r(), pmut_r(), any::<bool>()), |(v, p, alternate): &(MutR, PMutR, bool), o: &mut Obs| {
        let mut show = |d: &dyn Debug| -> Result<(), String> {
            let n = no_panic(|| if *alternate { format!("{d:#?}") } else { format!("{d:?}") })?.len();
            o.nontrivial();
            ensure!(n > 0, "a value prints as nothing");
            Ok(())
        };
        let bytes = v.bytes();
        let sub = vob::open(&bytes)?;
        guard::arm(20 * vob::work_budget(&bytes), false);
        let got: Result<Vec<_>, _> = no_panic(|| sub.subtitles::<(TimeSpan, VobSubIndexedImage)>().take(50).collect());
        guard::disarm();
        for r in &got? {
            show(r)?;
            if let Err(e) = r {
                no_panic(|| e.to_string())?;
            }
        }
        let bytes = mutated(p);
        let got: Vec<_> = no_panic(|| SupParser::<_, DecodeTimeOnly>::new(Cursor::new(&bytes)).take(50).collect())?;
        for r in &got {
            show(r)?;
            if let Err(e) = r {
                no_panic(|| e.to_string())?;
            }
        }
        let errors: Vec<_> = no_panic(|| SupParser::<_, DecodeTimeImage>::new(Cursor::new(&bytes)).take(50).filter_map(Result::err).collect())?;
        for e in &errors {
            show(e)?;
            no_panic(|| e.to_string())?;
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C30

const BOUND: usize = 40 << 20;

fn within(what: &str, peak: usize, bytes: usize, o: &mut Obs) -> Result<(), String> {
    o.label(match peak {
        0..=65_535 => "peak below 64 KiB",
        65_536..=1_048_575 => "peak below 1 MiB",
        1_048_576..=16_777_215 => "peak below 16 MiB",
        _ => "peak of 16 MiB or more",
    });
    ensure!(
        peak <= BOUND + 4 * bytes,
        "{what}: {peak} bytes in use while decoding {bytes} bytes of input"
    );
    Ok(())
}

/// Decode, dropping each item; its number and the peak.
fn vob_peak(bytes: &[u8]) -> Result<(usize, usize), String> {
    let sub = vob::open(bytes)?;
    guard::arm(vob::work_budget(bytes), false);
    let max = vob::start_codes(bytes);
    let (n, peak) = peak_during(|| {
        no_panic(|| {
            let mut n = 0;
            for i in sub.subtitles::<(TimeSpan, VobSubIndexedImage)>() {
                drop(i);
                n += 1;
                if n > max {
                    break;
                }
            }
            n
        })
    });
    guard::disarm();
    // a panic is another property's matter
    Ok((n.unwrap_or(0), peak))
}

fn pgs_peak(bytes: &[u8], times: bool) -> (usize, usize) {
    let (n, peak) = peak_during(|| {
        no_panic(|| {
            let r = super::pgs::Budget::new(Cursor::new(bytes), bytes.len());
            let max = bytes.len() + 1;
            if times {
                SupParser::<_, DecodeTimeOnly>::new(r).take(max).map(drop).count()
            } else {
                SupParser::<_, DecodeTimeImage>::new(r).take(max).map(drop).count()
            }
        })
    });
    (n.unwrap_or(0), peak)
}

fn vob_case(bytes: &[u8], o: &mut Obs) -> Result<(), String> {
    let (n, peak) = vob_peak(bytes)?;
    o.nontrivial_if(n > 0);
    within("VobSub", peak, bytes.len(), o)
}

fn pgs_case(bytes: &[u8], o: &mut Obs) -> Result<(), String> {
    for t in [false, true] {
        let (n, peak) = pgs_peak(bytes, t);
        o.nontrivial_if(n > 0);
        within(if t { "PGS times" } else { "PGS" }, peak, bytes.len(), o)?;
    }
    Ok(())
}

/// Segments whose claimed sizes are far beyond what follows.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct ClaimR {
    kind: u8,
    size: u16,
    w: u16,
    h: u16,
    object_size: u32,
    flag: u8,
    data: Vec<u8>,
    end: bool,
    repeat: u8,
}

impl ClaimR {
    fn bytes(&self) -> Vec<u8> {
        let mut out = vec![];
        for _ in 0..=self.repeat % 4 {
            pgs::segment(pgs::PDS, 0, 0, &pgs::palette_payload(0, 0, &[(1, 2, 3, 4, 5)]), &mut out);
            let mut p = vec![0, 1, 0, self.flag];
            p.extend(&self.object_size.to_be_bytes()[1..]);
            p.extend(self.w.to_be_bytes());
            p.extend(self.h.to_be_bytes());
            p.extend(&self.data);
            let at = out.len();
            pgs::segment(self.kind, 0, 0, &p, &mut out);
            if self.size != 0 {
                out[at + 11..at + 13].copy_from_slice(&self.size.to_be_bytes());
            }
            if self.end {
                pgs::segment(pgs::END, 0, 0, &[], &mut out);
                pgs::segment(pgs::END, 90, 0, &[], &mut out);
            }
        }
        out
    }
}

fn claim_r() -> impl Strategy<Value = ClaimR> {
    (
        prop_oneof![5 => Just(pgs::ODS), 1 => Just(pgs::PDS), 1 => Just(pgs::PCS), 1 => Just(pgs::WDS)],
        prop_oneof![2 => Just(0u16), 1 => any16(), 1 => Just(65_535u16)],
        prop_oneof![1 => any16(), 1 => Just(65_535u16), 1 => num(0u16..9)],
        prop_oneof![1 => any16(), 1 => Just(65_535u16), 1 => num(0u16..9)],
        prop_oneof![2 => Just(0xFF_FFFFu32), 2 => num(0u32..0x100_0000), 1 => num(0u32..300)],
        prop::sample::select(vec![0xC0u8, 0x80, 0x40, 0x00]),
        prop::collection::vec(any8(), 0..60),
        any::<bool>(),
        any8(),
    )
        .prop_map(|(kind, size, w, h, object_size, flag, data, end, repeat)| ClaimR {
            kind,
            size,
            w,
            h,
            object_size,
            flag,
            data,
            end,
            repeat,
        })
}

fn c30(c: &Ctx) {
    c.search("vobsub_bytes", 42_000, 1_500_000, token_soup, |b: &Vec<u8>, o| {
        let _g = c.on_runaway("vobsub_bytes", b);
        vob_case(b, o)
    });
    c.search("vobsub_mutated", 35_000, 1_200_000, mut_r, |m: &MutR, o| {
        let _g = c.on_runaway("vobsub_mutated", m);
        vob_case(&m.bytes(), o)
    });
    c.search("vobsub_hostile", 42_000, 1_200_000, hostile_r, |h: &HostileR, o| {
        let _g = c.on_runaway("vobsub_hostile", h);
        vob_case(&h.bytes(), o)
    });
    c.search(
        "vobsub_largest",
        600,
        20_000,
        || {
            hostile_r().prop_map(|mut h| {
                h.big = true;
                h.area = (h.area.0 & 15, h.area.1 | 0xFF0, h.area.2 & 15, h.area.3 | 0xFF0);
                // lines filled by two bytes each, and what was generated
                let mut d: Vec<u8> = (0..2300u16).flat_map(|_| [0, 1]).collect();
                d.extend(h.data);
                h.data = d;
                h.offsets = (4, 5 + (h.offsets.1 & 1));
                h
            })
        },
        |h: &HostileR, o| {
            let _g = c.on_runaway("vobsub_largest", h);
            vob_case(&h.bytes(), o)
        },
    );
    c.search("vobsub_control", 35_000, 1_000_000, chain_r, |r: &ChainR, o| {
        let _g = c.on_runaway("vobsub_control", r);
        vob_case(&vob::plain_stream(&[(r.packet(), r.pts)]), o)
    });
    c.search("pgs_soup", 105_000, 3_000_000, sup_soup, |b: &Vec<u8>, o| {
        let _g = c.on_runaway("pgs_soup", b);
        pgs_case(b, o)
    });
    c.search("pgs_mutated", 70_000, 2_000_000, pmut_r, |r: &PMutR, o| {
        let _g = c.on_runaway("pgs_mutated", r);
        pgs_case(&mutated(r), o)
    });
    c.search("pgs_objects", 56_000, 1_600_000, hobj, |h: &HObj, o| {
        let _g = c.on_runaway("pgs_objects", h);
        pgs_case(&h.bytes(), o)
    });
    c.search("pgs_claims", 70_000, 2_000_000, claim_r, |r: &ClaimR, o| {
        let _g = c.on_runaway("pgs_claims", r);
        pgs_case(&r.bytes(), o)
    });
    // many subtitles take no more than a few
    let grown = |few: usize, many: usize, bytes: usize| -> Result<(), String> {
        ensure!(
            many <= few + 8192,
            "{many} bytes in use on 400 repetitions of {bytes} bytes, {few} on 20"
        );
        Ok(())
    };
    c.search(
        "vobsub_repeated",
        1500,
        30_000,
        || vstream(3),
        |s: &VStream, o: &mut Obs| {
            let _g = c.on_runaway("vobsub_repeated", s);
            let b = s.realise().0;
            if b.len() > 4000 {
                return Ok(());
            }
            let (_, few) = vob_peak(&b.repeat(20))?;
            let (n, many) = vob_peak(&b.repeat(400))?;
            o.nontrivial_if(n >= 400);
            grown(few, many, b.len())
        },
    );
    c.search(
        "pgs_repeated",
        2500,
        50_000,
        || prop::collection::vec(small_psub_r(), 1..3),
        |s: &Vec<PSubR>, o: &mut Obs| {
            let _g = c.on_runaway("pgs_repeated", s);
            let s: Vec<pgs::PSub> = s.iter().map(pgs::realise).collect();
            let b = pgs::stream(&s);
            if b.len() > 4000 {
                return Ok(());
            }
            for t in [false, true] {
                let (_, few) = pgs_peak(&b.repeat(20), t);
                let (n, many) = pgs_peak(&b.repeat(400), t);
                o.nontrivial_if(n >= 400);
                grown(few, many, b.len())?;
            }
            Ok(())
        },
    );
    // the same of large ones
    let grown_large = |few: usize, many: usize, bytes: usize| -> Result<(), String> {
        ensure!(many <= few + 8192, "{many} bytes in use on 48 repetitions of {bytes} bytes, {few} on 4");
        Ok(())
    };
    c.search(
        "vobsub_repeated_large",
        400,
        8_000,
        || {
            let fit = (prop_oneof![2 => num(2000u16..65_535), 1 => num(2000u16..6_000)], any8());
            prop_oneof![3 => (small_sub_r(), fit).prop_map(|(s, f)| SubR { fit: Some(f), ..s }).boxed(), 1 => vob::sub_r_with(vob::dense_img_r()).boxed()]
        },
        |s: &SubR, o: &mut Obs| {
            let _g = c.on_runaway("vobsub_repeated_large", s);
            let (_, p, _) = vob::realise(s);
            if p.len() < 2000 || p.len() > 0xFFFF {
                return Ok(());
            }
            let b = vob::plain_stream(&[(p, s.pts)]);
            let (_, few) = vob_peak(&b.repeat(4))?;
            let (n, many) = vob_peak(&b.repeat(48))?;
            o.label_if(b.len() > 1 << 14, "over 16384 bytes each");
            o.nontrivial_if(n >= 48);
            grown_large(few, many, b.len())
        },
    );
    c.search(
        "pgs_repeated_large",
        150,
        3_000,
        large_hobj,
        |h: &HObj, o: &mut Obs| {
            let _g = c.on_runaway("pgs_repeated_large", h);
            let b = h.bytes();
            for t in [false, true] {
                let (_, few) = pgs_peak(&b.repeat(4), t);
                let (n, many) = pgs_peak(&b.repeat(48), t);
                o.nontrivial_if(n >= 48);
                grown_large(few, many, b.len())?;
            }
            Ok(())
        },
    );
    // nor do many that are all different, though of one size
    let distinct = |few: usize, many: usize| -> Result<(), String> {
        ensure!(
            many <= few + 2048,
            "{many} bytes in use on 800 subtitles of one size, all different, {few} on 20"
        );
        Ok(())
    };
    c.search(
        "vobsub_distinct",
        600,
        12_000,
        || (small_sub_r(), num(1u64..200_000)),
        |v: &(SubR, u64), o: &mut Obs| {
            let (s, step) = v;
            let _g = c.on_runaway("vobsub_distinct", v);
            let nth = |i: u64| {
                let mut s = s.clone();
                s.pts = (s.pts + i * step) & 0x1_FFFF_FFFF;
                s.palette = [0, 4, 8, 12].map(|b| (i >> b) as u8 & 15);
                s.alpha = [12, 8, 4, 0].map(|b| (i >> b) as u8 & 15);
                for (l, line) in s.img.lines.iter_mut().enumerate() {
                    for r in line {
                        r.0 ^= (i >> (2 * (l % 5))) as u8 & 3;
                    }
                }
                (vob::realise(&s).1, s.pts)
            };
            let (p, _) = nth(0);
            if p.len() > 700 {
                return Ok(());
            }
            let all: Vec<_> = (0..800).map(nth).collect();
            if all.iter().any(|q| q.0.len() != p.len()) {
                return Ok(());
            }
            let (_, few) = vob_peak(&vob::plain_stream(&all[..20]))?;
            let (n, many) = vob_peak(&vob::plain_stream(&all))?;
            o.nontrivial_if(n == 800);
            distinct(few, many)
        },
    );
    c.search(
        "pgs_distinct",
        1000,
        20_000,
        || (small_psub_r(), num(1u32..200_000)),
        |v: &(PSubR, u32), o: &mut Obs| {
            let (s, step) = v;
            let _g = c.on_runaway("pgs_distinct", v);
            let nth = |i: u32| {
                let mut s = s.clone();
                s.start = s.start.wrapping_add(i.wrapping_mul(*step));
                s.end = s.end.wrapping_add(i.wrapping_mul(*step));
                let b = i.to_be_bytes();
                for e in &mut s.palette {
                    (e.1, e.2) = (e.1 ^ b[3], e.2 ^ b[2]);
                }
                for (j, id) in s.ids.iter_mut().enumerate() {
                    *id ^= b[3 - j % 2];
                }
                pgs::realise(&s).bytes()
            };
            let size = nth(0).len();
            if size > 1200 {
                return Ok(());
            }
            let all: Vec<u8> = (0..800).flat_map(nth).collect();
            ensure!(all.len() == 800 * size, "the model's subtitles differ in size");
            for t in [false, true] {
                let (_, few) = pgs_peak(&all[..20 * size], t);
                let (n, many) = pgs_peak(&all, t);
                o.nontrivial_if(n >= 800);
                distinct(few, many)?;
            }
            Ok(())
        },
    );
}

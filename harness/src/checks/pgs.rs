//! C13 - C20: presentation graphic streams.

use crate::dict::{any16, any32, any64, any8, num};
use super::Check;
use crate::ensure;
use crate::fw::{no_panic, scratch, Ctx, Obs};
use crate::mutate::{self, muts, Mut};
use crate::pgs::*;
use crate::vob::{near, Tweak};
use image::{Luma, LumaA};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::fs::File;
use std::sync::Arc;
use std::io::{self, BufRead, BufReader, Cursor, Read, Seek, SeekFrom};
use subtile::image::{ImageSize as _, ToImage as _, ToOcrImage as _, ToOcrImageOpt};
use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, RleEncodedImage, RleToImage, SupParser};

const MODEL: &[&str] = &["the harness' encoder of segments and pixel runs follows the published description of the format"];

pub fn checks() -> Vec<Check> {
    checks![
        "C13": Check { id: "C13", rule: "random bytes, soups of well- and badly-framed segments, mutated valid streams, accepted objects with arbitrary pixel data, and pieces of streams repeated many times; non-trivial: the stream yields an item, or the pixel data is not a plain encoding of the image", assumptions: &["termination is judged by a deterministic budget on reader operations and items; a run beyond the wall-clock limit is an error of the check, not a verdict", "images of more than 2^18 pixels are iterated for their first 2^18 pixels only"], run: c13 },
        "C14": Check { id: "C14", rule: "1 to 4 (many: up to hundreds, multitudes: over 65536) subtitles with random geometry, palettes, run writings, object splits and surrounding segments, nearly the same ones one after another, objects of no pixels among them, compared with the model; non-trivial: several run forms and several colours, or an ordinary subtitle after an object of no pixels", assumptions: MODEL, run: c14 },
        "C15": Check { id: "C15", rule: "sequences (up to over 65536) of well-framed segments of all kinds with arbitrary contents and 32-bit times, also thousands of them between two ends; non-trivial: at least one span, and a skipped segment inside it", assumptions: MODEL, run: c15 },
        "C16": Check { id: "C16", rule: "valid, mutated and arbitrary streams, each read from memory, through buffered readers of arbitrary capacity, from a file, in arbitrary pieces, and from a reader standing anywhere in its data; non-trivial: the stream yields an item and a reader's pieces are smaller than the stream", assumptions: &[], run: c16 },
        "C17": Check { id: "C17", rule: "valid streams cut at every byte (streams over 1500 bytes: around every segment border and at 200 generated cuts), both decoders; non-trivial: the cut falls inside a subtitle", assumptions: MODEL, run: c17 },
        "C18": Check { id: "C18", rule: "valid streams whose reader fails at every operation (over 400 operations: 400 of them), with every error kind, once or from then on, for several buffer sizes, and readers interrupted periodically; non-trivial: the failure was hit", assumptions: &["after the reported failure nothing is required: the position in the stream is then unknown"], run: c18 },
        "C19": Check { id: "C19", rule: "streams of 2 to 7 (crowds: thousands of) subtitles, some without object or without palette, with empty unknown segments or bad signatures in between, or object segments that continue nothing; non-trivial: a defect next to a valid subtitle", assumptions: MODEL, run: c19 },
        "C20": Check { id: "C20", rule: "images of valid and of arbitrary pixel data, asked for their length before every step, iterated in every way; non-trivial: several pixels and a run longer than one", assumptions: &[], run: c20 },
    ]
}

// --------------------------------------------------------- hostile streams

/// Panics when more operations are asked of it than any honest parse needs.
pub struct Budget<R> {
    inner: R,
    left: Cell<u64>,
}
impl<R> Budget<R> {
    pub fn new(inner: R, bytes: usize) -> Self {
        Self { inner, left: Cell::new(64 * bytes as u64 + 10_000) }
    }
    fn step(&self) {
        let l = self.left.get();
        assert!(l > 0, "work budget exceeded: the parser keeps reading this input");
        self.left.set(l - 1);
    }
}
impl<R: Read> Read for Budget<R> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.step();
        self.inner.read(b)
    }
}
impl<R: BufRead> BufRead for Budget<R> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.step();
        self.inner.fill_buf()
    }
    fn consume(&mut self, n: usize) {
        self.inner.consume(n);
    }
}
impl<R: Seek> Seek for Budget<R> {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        self.step();
        self.inner.seek(s)
    }
}

/// A segment whose parts may all be wrong.
fn soup_segment() -> impl Strategy<Value = Vec<u8>> {
    let kind = prop_oneof![
        10 => prop::sample::select(vec![PDS, ODS, PCS, WDS, END]),
        1 => any8(),
    ];
    let len24 = prop_oneof![3 => Just(None), 2 => (num(0u32..40)).prop_map(Some), 1 => any32().prop_map(|v| Some(v & 0xFF_FFFF))];
    let flag = prop_oneof![4 => prop::sample::select(vec![0xC0u8, 0x80, 0x40, 0]), 1 => any8()];
    let dim = prop_oneof![16 => num(0u16..20), 1 => any16(), 1 => Just(65_535u16)];
    let object = (prop::array::uniform3(any8()), flag, len24, dim.clone(), dim, rle_soup(30)).prop_map(|(id, flag, len, w, h, d)| {
        let mut p = vec![id[0], id[1], id[2], flag];
        if flag != 0x40 {
            p.extend(&len.unwrap_or(d.len() as u32 + 4).to_be_bytes()[1..]);
            p.extend(w.to_be_bytes());
            p.extend(h.to_be_bytes());
        }
        p.extend(d);
        p
    });
    let pal = (prop::collection::vec(entry(), 0..6), prop::collection::vec(any8(), 0..5), num(0u8..8)).prop_map(|(e, extra, t)| {
        let mut p = palette_payload(1, 2, &e);
        if t == 0 {
            p.extend(extra);
        } else if t == 1 {
            p.truncate(extra.len());
        }
        p
    });
    let any_payload = prop::collection::vec(any8(), 0..30);
    (
        kind,
        object,
        pal,
        any_payload,
        prop::bool::weighted(0.9),
        pts32(),
        prop_oneof![12 => Just(None), 1 => any16().prop_map(Some), 1 => (num(0u16..20)).prop_map(Some)],
        prop::bool::weighted(0.97),
    )
        .prop_map(|(kind, object, pal, junk, fit, pts, size, magic)| {
            let payload = match (kind, fit) {
                (ODS, true) => object,
                (PDS, true) => pal,
                (END, true) => vec![],
                _ => junk,
            };
            let mut v = vec![];
            segment(kind, pts, 0, &payload, &mut v);
            if let Some(s) = size {
                v[11..13].copy_from_slice(&s.to_be_bytes());
            }
            if !magic {
                v[0] ^= 1;
            }
            v
        })
}

/// Pixel data codes, some meaningless, some cut short.
pub fn rle_soup(max: usize) -> impl Strategy<Value = Vec<u8>> {
    let code = prop_oneof![
        4 => any8().prop_map(|b| vec![b]),
        3 => (num(1u8..64)).prop_map(|n| vec![0, n]),
        3 => (num(0u8..64), any8()).prop_map(|(n, c)| vec![0, 0x80 | n, c]),
        2 => (num(0u8..2), any8()).prop_map(|(h, l)| vec![0, 0x40 | h, l]),
        2 => (num(0u8..2), any8(), any8()).prop_map(|(h, l, c)| vec![0, 0xC0 | h, l, c]),
        1 => (num(0u8..64), any8(), any8()).prop_map(|(h, l, c)| vec![0, 0xC0 | h, l, c]),
        2 => Just(vec![0, 0]),
        1 => Just(vec![0]),
        1 => Just(vec![0, 0x40, 0]),
        1 => Just(vec![0, 0xC0, 0]),
        1 => Just(vec![0, 0x80]),
    ];
    prop::collection::vec(code, 0..max).prop_map(|v| v.concat())
}

pub fn sup_soup() -> impl Strategy<Value = Vec<u8>> {
    prop::collection::vec(
        prop_oneof![
            24 => soup_segment(),
            3 => hobj().prop_map(|h| h.bytes()),
            3 => hobj().prop_map(|h| {
                // palette and object, and whatever follows
                let b = h.bytes();
                b[..b.len() - 26].to_vec()
            }),
            2 => prop::collection::vec(any8(), 0..16),
            1 => Just(b"PG".to_vec()),
        ],
        0..12,
    )
    .prop_map(|v| v.concat())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct PMutR {
    pub subs: Vec<PSubR>,
    pub muts: Vec<Mut>,
    /// which segment's payload or header to aim at, if any
    pub aim: Option<(u8, u16)>,
}

pub fn pmut_r() -> impl Strategy<Value = PMutR> {
    (
        prop::collection::vec(small_psub_r(), 1..3),
        muts(5),
        prop::option::of((any8(), num(0u16..24))),
    )
        .prop_map(|(subs, muts, aim)| PMutR { subs, muts, aim })
}

pub fn mutated(r: &PMutR) -> Vec<u8> {
    let subs: Vec<PSub> = r.subs.iter().map(realise).collect();
    match r.aim {
        None => mutate::apply(stream(&subs), &r.muts),
        Some((s, from)) => {
            // mutate the first bytes of one segment, keep the rest in place
            let mut segs: Vec<Vec<u8>> = subs.iter().flat_map(|s| s.segments.iter().map(|x| x.1.clone())).collect();
            let k = usize::from(s) % segs.len();
            let n = segs[k].len().min(usize::from(from) + 1);
            let head = mutate::apply(segs[k][..n].to_vec(), &r.muts);
            segs[k].splice(..n, head);
            segs.concat()
        }
    }
}

/// Whatever was accepted must be usable as an image.
fn usable(img: &RleEncodedImage, o: &mut Obs) -> Result<(), String> {
    let total = img.width() as usize * img.height() as usize;
    let px = pixels_of(img);
    ensure!(
        px.len() == total.min(PIXEL_CAP + 1) || (total > PIXEL_CAP && px.len() == PIXEL_CAP + 1),
        "a {}x{} image iterates over {} pixels",
        img.width(),
        img.height(),
        px.len()
    );
    if total <= PIXEL_CAP && (total < 1 << 14 || img.width() % 4 == 0) {
        let r = RleToImage::new(img, |p: LumaA<u8>| p).to_image();
        ensure!(
            (r.width(), r.height()) == (img.width(), img.height()) && r.pixels().map(|p| (p.0[0], p.0[1])).eq(px.iter().copied()),
            "the rendered image differs from the iterated pixels"
        );
        let opt = ToOcrImageOpt { border: 2, ..Default::default() };
        let g = RleToImage::new(img, |p: LumaA<u8>| Luma([p.0[0]])).image(&opt);
        ensure!(
            (g.width(), g.height()) == (img.width() + 4, img.height() + 4),
            "OCR image of a {}x{} image is {}x{}",
            img.width(),
            img.height(),
            g.width(),
            g.height()
        );
        o.label("image rendered");
    } else {
        o.label("large image sampled");
    }
    Ok(())
}

pub fn clean(bytes: &[u8], o: &mut Obs) -> Result<(), String> {
    let mut items = 0;
    for_each_image(Budget::new(Cursor::new(bytes), bytes.len()), bytes.len(), |i| {
        items += 1;
        match i {
            Ok((_, _, img)) => {
                o.label("subtitle");
                usable(&img, o)
            }
            Err(k) => {
                o.label(k);
                Ok(())
            }
        }
    })?;
    let t = decode_times(Budget::new(Cursor::new(bytes), bytes.len()), bytes.len())?;
    o.nontrivial_if(items > 0 || !t.is_empty());
    Ok(())
}

/// An object with arbitrary pixel data in a valid frame.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct HObj {
    pub w: u16,
    pub h: u16,
    pub palette: Vec<Entry>,
    pub data: Vec<u8>,
    pub split: Option<u16>,
}

pub fn hobj() -> impl Strategy<Value = HObj> {
    let side = prop_oneof![80 => num(0u16..24), 1 => prop::sample::select(vec![255u16, 1920, 65_535])];
    (
        side.clone(),
        side,
        palette(),
        prop_oneof![4 => rle_soup(40), 1 => prop::collection::vec(any8(), 0..60)],
        prop::option::weighted(0.3, any16()),
    )
        .prop_map(|(w, h, p, data, split)| HObj { w, h, palette: distinct(&p), data, split })
}

/// Objects of more pixels than 16 bits can count, most of them in long runs.
pub fn large_hobj() -> impl Strategy<Value = HObj> {
    let run = prop_oneof![
        4 => (num(0u8..8).wide(0u8..=63), any8(), any8()).prop_map(|(h, l, c)| vec![0, 0xC0 | h, l, c]),
        1 => (num(0u8..8).wide(0u8..=63), any8()).prop_map(|(h, l)| vec![0, 0x40 | h, l]),
        2 => (num(3u8..64), any8()).prop_map(|(l, c)| vec![0, 0x80 | l, c]),
        2 => any8().prop_map(|c| vec![c.max(1)]),
    ];
    let dim = prop_oneof![3 => (num(400u16..1921), num(40u16..136)), 1 => (num(1u16..40), num(3000u16..6000)), 1 => (num(8000u16..65_535), num(1u16..5))];
    (dim, palette(), prop::collection::vec(run, 20..240), prop::option::weighted(0.3, any16()))
        .prop_map(|((w, h), p, runs, split)| HObj { w, h, palette: distinct(&p), data: runs.concat(), split })
}

impl HObj {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = vec![];
        segment(PDS, 0, 0, &palette_payload(0, 0, &self.palette), &mut v);
        let split = self.split.map(|s| usize::from(s) % (self.data.len() + 1));
        for p in object_payloads(self.w, self.h, &self.data, split, [0; 3]) {
            segment(ODS, 0, 0, &p, &mut v);
        }
        segment(END, 90, 0, &[], &mut v);
        segment(END, 180, 0, &[], &mut v);
        v
    }
    pub fn total(&self) -> usize {
        usize::from(self.w) * usize::from(self.h)
    }
    pub fn expected(&self, n: usize) -> Vec<Px> {
        reference_rle(&self.data, n, &lookup(&self.palette))
    }
    pub fn with_image<R>(&self, f: impl FnOnce(&RleEncodedImage) -> Result<R, String>) -> Result<R, String> {
        let bytes = self.bytes();
        let img = no_panic(|| SupParser::<_, DecodeTimeImage>::new(Cursor::new(&bytes)).next())?;
        match img {
            Some(Ok((_, img))) => {
                ensure!(
                    (img.width(), img.height()) == (u32::from(self.w), u32::from(self.h)),
                    "a {}x{} object has size {}x{}",
                    self.w,
                    self.h,
                    img.width(),
                    img.height()
                );
                no_panic(|| f(&img))?
            }
            Some(Err(e)) => Err(format!("well-framed object gives error {}", err_kind(&e))),
            None => Err("well-framed object gives no subtitle".into()),
        }
    }
}

fn c13(c: &Ctx) {
    c.search("random", 75_000, 3_000_000, || prop::collection::vec(any8(), 0..200), |b: &Vec<u8>, o| clean(b, o));
    c.search("soup", 250_000, 10_000_000, sup_soup, |b: &Vec<u8>, o| clean(b, o));
    // thousands of the same segments
    c.search(
        "repeated",
        1000,
        20_000,
        || (sup_soup(), prop::collection::vec(soup_segment(), 1..4), num(1u16..6000), sup_soup()),
        |(before, b, n, after): &(Vec<u8>, Vec<Vec<u8>>, u16, Vec<u8>), o| {
            let b = b.concat();
            let n = usize::from(*n).min(200_000 / b.len().max(1));
            o.label_if(n > 1000, "over 1000 times");
            clean(&[before.clone(), b.repeat(n), after.clone()].concat(), o)
        },
    );
    c.search("mutated", 125_000, 5_000_000, pmut_r, |r: &PMutR, o| clean(&mutated(r), o));
    c.search("pixel_data", 125_000, 5_000_000, hobj, |h: &HObj, o| {
        let n = h.total().min(PIXEL_CAP);
        let expected = h.expected(n);
        h.with_image(|img| {
            let got: Vec<Px> = img.iter().take(n + 1).map(la).collect();
            let want = if h.total() > n { n + 1 } else { n };
            ensure!(got.len() == want, "a {}x{} image iterates over {} pixels", h.w, h.h, got.len());
            if let Some(i) = (0..n).find(|&i| got[i] != expected[i]) {
                return Err(format!("pixel {i} (luminance, alpha): expected {:?}, got {:?}", expected[i], got[i]));
            }
            usable(img, o)
        })?;
        // how many pixels the data holds, capped
        let held = reference_rle(&h.data, n + 1, &|_| (1, 1)).iter().filter(|p| **p != NO_COLOUR).count();
        o.label(match held.cmp(&n) {
            std::cmp::Ordering::Less => "too few pixels",
            std::cmp::Ordering::Equal => "exact",
            std::cmp::Ordering::Greater => "too many pixels",
        });
        o.nontrivial_if(held != n && n > 0);
        Ok(())
    });
}

// ------------------------------------------------------------------ C14

fn several_colours(s: &PSub) -> bool {
    s.item.pixels.iter().any(|p| *p != s.item.pixels[0])
}

/// An object of no pixels (times, which side is zero, split), and the subtitle after it.
type NoPixels = ((u16, u16, u32, u32, bool, bool), Option<PSubR>);

fn c14(c: &Ctx) {
    let test = |v: &Vec<PSubR>, o: &mut Obs| {
        let subs: Vec<PSub> = v.iter().map(realise).collect();
        let expected: Vec<Option<PItem>> = subs.iter().map(|s| Some(s.item.clone())).collect();
        let bytes = stream(&subs);
        compare(&expected, &decode(&bytes)?)?;
        for (r, s) in v.iter().zip(&subs) {
            o.label_if(s.segments.iter().filter(|x| x.0 == ODS).count() == 2, "split object");
            o.label_if(r.end_palette.is_some(), "palette in the ending display set");
            o.label_if(s.data.len() > 60_000, "object over 60000 bytes");
            o.nontrivial_if(several_colours(s) && s.kinds.count_ones() > 1);
        }
        Ok(())
    };
    c.search("streams", 120_000, 2_500_000, || prop::collection::vec(psub_r(), 1..4), test);
    c.search("small", 200_000, 4_000_000, || prop::collection::vec(small_psub_r(), 1..3), test);
    c.search("near", 40_000, 800_000, near_psubs, |(first, changes): &(PSubR, Vec<(Tweak, bool)>), o: &mut Obs| test(&near(first, changes, PSubR::tweaked), o));
    c.search("many", 300, 6_000, || prop::collection::vec(small_psub_r(), 20..200), test);
    // objects of no pixels between others
    let without = || {
        let object = (num(0u16..4), num(0u16..40).wide(0u16..=u16::MAX), pts32(), pts32(), any::<bool>(), any::<bool>());
        prop::collection::vec((object, prop::option::of(small_psub_r())), 1..4)
    };
    c.search("without_pixels", 40_000, 800_000, without, |v: &Vec<NoPixels>, o: &mut Obs| {
        let mut bytes = vec![];
        let mut want = vec![];
        for ((short, long, start, end, upright, split), next) in v {
            let long = *long / (short + 1);
            let (w, h) = if *upright { (0, long) } else { (long, 0) };
            let data = [0, 0].repeat(usize::from(h.min(20_000)));
            let mut segs = vec![(PDS, 0, 0, palette_payload(0, 0, &[(1, 2, 3, 4, 5)]))];
            segs.extend(object_payloads(w, h, &data, split.then_some(data.len() / 2), [0; 3]).into_iter().map(|p| (ODS, 0, 0, p)));
            segs.extend([(END, *start, 0, vec![]), (END, *end, 0, vec![])]);
            bytes.extend(frame(&segs));
            want.push(Some(PItem { start: i64::from(start / 90), end: i64::from(end / 90), w: u32::from(w), h: u32::from(h), pixels: vec![] }));
            o.label(if (w, h) == (0, 0) { "neither width nor height" } else if w == 0 { "no width" } else { "no height" });
            if let Some(r) = next {
                let s = realise(r);
                bytes.extend(s.bytes());
                want.push(Some(s.item));
                o.nontrivial();
            }
        }
        compare(&want, &decode(&bytes)?)
    });
    // a few subtitles over and over, past what 16 bits count
    c.search("multitudes", 4, 60, multitude_r, |(v, n): &(Vec<PSubR>, u32), o| {
        let (subs, bytes) = multitude(v, *n as usize);
        o.nontrivial();
        let mut k = 0;
        for_each_image(Cursor::new(&bytes), bytes.len(), |i| {
            let (start, end, img) = i.map_err(|e| format!("subtitle {k}: {e}"))?;
            let got = PItem { start, end, w: img.width(), h: img.height(), pixels: pixels_of(&img) };
            if let Some(d) = subs[k % subs.len()].item.diff(&got) {
                return Err(format!("subtitle {k}: {d}"));
            }
            k += 1;
            Ok(())
        })?;
        ensure!(k == *n as usize, "{n} subtitles give {k}");
        Ok(())
    });
    // every run length in every writing of colour zero and of another colour
    let items = (1u32..=16383)
        .step_by(if c.tier == crate::fw::Tier::Quick { 7 } else { 1 })
        .chain((1..=300).chain([16_320, 16_383]))
        .flat_map(|n| [0u8, 9].into_iter().flat_map(move |col| (0u8..8).map(move |f| (n, col, f))));
    c.enumerate("run_lengths", false, items, |&(n, col, form): &(u32, u8, u8), o: &mut Obs| {
        let w = n + 2;
        let pal: Vec<Entry> = vec![(0, 10, 1, 2, 255), (9, 200, 3, 4, 128), (77, 3, 0, 0, 4)];
        let look = lookup(&pal);
        let mut data = vec![77];
        let mut kinds = 0;
        encode_run(col, n as usize, form, &mut data, &mut kinds);
        data.extend([77, 0, 0]);
        let h = HObj { w: w as u16, h: 1, palette: pal, data, split: None };
        let mut want = vec![look(77)];
        want.extend(std::iter::repeat_n(look(col), n as usize));
        want.push(look(77));
        o.nontrivial();
        h.with_image(|img| {
            let got: Vec<Px> = img.iter().take(want.len() + 1).map(la).collect();
            ensure!(got == want, "run of {n} pixels of colour {col} decodes to {} pixels", got.len());
            Ok(())
        })
    });
    // the longest objects: every byte of the three-byte length counts
    c.search(
        "large",
        300,
        6_000,
        || (num(60_000u32..130_000), any16(), any8(), any::<bool>()),
        |&(n, split, col, long): &(u32, u16, u8, bool), o: &mut Obs| {
            let w = 500usize;
            let h = n as usize / w;
            let pal: Vec<Entry> = (0..=255u8).map(|i| (i, i, 0, 0, 255 - i)).collect();
            let mut data = vec![];
            let mut ids = vec![];
            let mut x = u32::from(col) + 1;
            for _ in 0..h {
                for _ in 0..w {
                    x = x.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
                    let k = ((x >> 24) as u8).max(1);
                    ids.push(k);
                    data.push(k);
                }
                data.extend([0, 0]);
            }
            if !long {
                data.truncate(data.len() - 2);
            }
            let lo = data.len().saturating_sub(65_531);
            let hi = data.len().min(65_524);
            if lo > hi {
                return Ok(());
            }
            let at = lo + usize::from(split) % (hi - lo + 1);
            let mut v = vec![];
            segment(PDS, 0, 0, &palette_payload(0, 0, &pal), &mut v);
            for p in object_payloads(w as u16, h as u16, &data, Some(at), [0; 3]) {
                segment(ODS, 0, 0, &p, &mut v);
            }
            segment(END, 90, 0, &[], &mut v);
            segment(END, 180, 0, &[], &mut v);
            let look = lookup(&pal);
            let item = PItem { start: 1, end: 2, w: w as u32, h: h as u32, pixels: ids.iter().map(|i| look(*i)).collect() };
            o.nontrivial();
            compare(&[Some(item)], &decode(&v)?)
        },
    );
}

fn multitude_r() -> impl Strategy<Value = (Vec<PSubR>, u32)> {
    let tiny = small_psub_r().prop_map(|mut s| {
        s.end_palette = None;
        s
    });
    (prop::collection::vec(tiny, 1..6), num(66_000u32..80_000))
}

/// `n` subtitles, the given ones in turn.
fn multitude(v: &[PSubR], n: usize) -> (Vec<PSub>, Vec<u8>) {
    let subs: Vec<PSub> = v.iter().map(realise).collect();
    let one: Vec<Vec<u8>> = subs.iter().map(|s| stream(std::slice::from_ref(s))).collect();
    let bytes = (0..n).flat_map(|i| one[i % one.len()].iter().copied()).collect();
    (subs, bytes)
}

// ------------------------------------------------------------------ C15

fn times_of(segs: &[(u8, u32, u32, Vec<u8>)]) -> Vec<(i64, i64)> {
    let ends: Vec<i64> = segs.iter().filter(|s| s.0 == END).map(|s| i64::from(s.1 / 90)).collect();
    ends.chunks_exact(2).map(|c| (c[0], c[1])).collect()
}

fn any_segments() -> impl Strategy<Value = Vec<(u8, u32, u32, Vec<u8>)>> {
    let seg = (
        prop::sample::select(vec![END, END, END, PDS, ODS, PCS, WDS]),
        pts32(),
        pts32(),
        prop_oneof![
            5 => prop::collection::vec(any8(), 0..30),
            2 => prop::collection::vec(prop::sample::select(vec![b'P', b'G', 0x80, 0]), 0..40),
            1 => Just(vec![]),
            1 => Just(b"PG\0\0\0\x5A\0\0\0\0\x80\0\0".to_vec()),
        ],
        prop_oneof![30 => Just(0u16), 1 => any16()],
    )
        .prop_map(|(k, p, d, mut b, long)| {
            if k == END {
                b.clear();
            } else if long > 0 {
                b.resize(usize::from(long), 0x50);
            }
            (k, p, d, b)
        });
    prop::collection::vec(seg, 0..16)
}

fn frame(segs: &[(u8, u32, u32, Vec<u8>)]) -> Vec<u8> {
    let mut v = vec![];
    for (k, p, d, b) in segs {
        segment(*k, *p, *d, b, &mut v);
    }
    v
}

/// Objects of a display set, its time, a palette that no object uses, and other segments.
type Set = (Vec<PSubR>, u32, Option<Vec<Entry>>, Vec<SegR>);

/// Kind of segments, how many, their payload, and an object.
type CrowdPart = (u8, u32, Vec<u8>, PSubR);

fn c15(c: &Ctx) {
    c.search("times", 400_000, 8_000_000, any_segments, |segs: &Vec<(u8, u32, u32, Vec<u8>)>, o| {
        let want = times_of(segs);
        let bytes = frame(segs);
        let got = decode_times(Cursor::new(&bytes), bytes.len())?;
        let want_r: Vec<TResult> = want.iter().map(|w| Ok(*w)).collect();
        ensure!(got == want_r, "spans: expected {want:?}, got {got:?}");
        // the decoder of images must agree whenever it has no complaint
        let img = decode_images(Cursor::new(&bytes), bytes.len())?;
        if img.iter().all(Result::is_ok) {
            let t: Vec<(i64, i64)> = img.iter().flatten().map(|i| (i.start, i.end)).collect();
            ensure!(t == want, "spans with images: expected {want:?}, got {t:?}");
        }
        o.nontrivial_if(!want.is_empty() && segs.iter().any(|s| s.0 != END && !s.3.is_empty()));
        Ok(())
    });
    c.search(
        "both_decoders",
        100_000,
        2_000_000,
        || prop::collection::vec(small_psub_r(), 1..5),
        |v: &Vec<PSubR>, o: &mut Obs| {
            let subs: Vec<PSub> = v.iter().map(realise).collect();
            let bytes = stream(&subs);
            let want: Vec<(i64, i64)> = subs.iter().map(|s| (s.item.start, s.item.end)).collect();
            let t = decode_times(Cursor::new(&bytes), bytes.len())?;
            ensure!(t == want.iter().map(|w| Ok(*w)).collect::<Vec<TResult>>(), "times decoder: expected {want:?}, got {t:?}");
            let i = decode(&bytes)?;
            let i: Vec<TResult> = i.iter().map(|i| i.as_ref().map(|i| (i.start, i.end)).map_err(|e| *e)).collect();
            ensure!(i == t, "times-and-images decoder: expected {t:?}, got {i:?}");
            o.nontrivial_if(v.iter().any(|s| !s.extra.is_empty()));
            Ok(())
        },
    );
    // display sets with any number of images each, and the subtitle's start at the first
    c.search(
        "several_images",
        60_000,
        1_200_000,
        || {
            let set = |least: usize| (prop::collection::vec(small_psub_r(), least..4), pts32(), prop::option::of(palette()), prop::collection::vec(extra_seg(12), 0..2));
            prop::collection::vec((set(1), set(0)), 1..5)
        },
        |v: &Vec<(Set, Set)>, o: &mut Obs| {
            let mut segs = vec![];
            for (objects, time, spare, extra) in v.iter().flat_map(|(a, b)| [a, b]) {
                for (i, r) in objects.iter().enumerate() {
                    let s = realise(r);
                    segs.push((PDS, r.times[0], 0, palette_payload(i as u8, r.ids[1], &s.palette)));
                    let split = r.split.map(|k| usize::from(k) % (s.data.len() + 1));
                    for p in object_payloads(s.item.w as u16, s.item.h as u16, &s.data, split, [0, i as u8, r.ids[4]]) {
                        segs.push((ODS, r.times[1], 0, p));
                    }
                }
                segs.extend(spare.iter().map(|p| (PDS, 0, 0, palette_payload(0, 0, &distinct(p)))));
                segs.extend(extra.iter().map(|e| (if e.kind % 2 == 0 { PCS } else { WDS }, e.pts, e.dts, e.payload.clone())));
                segs.push((END, *time, 0, vec![]));
            }
            let bytes = frame(&segs);
            let want = times_of(&segs);
            let got = decode_times(Cursor::new(&bytes), bytes.len())?;
            ensure!(got == want.iter().map(|w| Ok(*w)).collect::<Vec<TResult>>(), "times decoder: expected {want:?}, got {got:?}");
            let img = decode(&bytes)?;
            if img.iter().all(Result::is_ok) {
                let t: Vec<(i64, i64)> = img.iter().flatten().map(|i| (i.start, i.end)).collect();
                ensure!(t == want, "times-and-images decoder: expected {want:?}, got {t:?}");
                o.label("decodes");
                o.nontrivial_if(v.iter().any(|(a, b)| a.0.len() + b.0.len() > 1));
            }
            Ok(())
        },
    );
    c.search("multitudes", 4, 60, multitude_r, |(v, n): &(Vec<PSubR>, u32), o: &mut Obs| {
        let (subs, bytes) = multitude(v, *n as usize);
        o.nontrivial();
        let t = decode_times(Cursor::new(&bytes), bytes.len())?;
        ensure!(t.len() == *n as usize, "{n} display sets with an image give {} spans", t.len());
        for (i, (s, t)) in subs.iter().cycle().zip(&t).enumerate() {
            ensure!(*t == Ok((s.item.start, s.item.end)), "span {i}: expected {:?}, got {t:?}", (s.item.start, s.item.end));
        }
        Ok(())
    });
    // thousands of other segments between the ends
    let crowd = || {
        let part = (num(0u8..6), num(0u32..300).wide(0u32..9000), prop::collection::vec(any8(), 0..12), small_psub_r());
        (prop::collection::vec(part, 1..5), pts32(), pts32(), prop::bool::weighted(0.01))
    };
    c.search("crowded_sets", 4_000, 80_000, crowd, |(v, start, end, huge): &(Vec<CrowdPart>, u32, u32, bool), o: &mut Obs| {
        let mut segs = vec![];
        let mut times = vec![*start, *end];
        for (i, (kind, n, payload, r)) in v.iter().enumerate() {
            let n = if *huge && i == 0 && n % 2 == 0 { 66_000 + *n as usize } else { *n as usize };
            let s = realise(r);
            let palette = (PDS, r.times[0], 0, palette_payload(0, r.ids[1], &s.palette));
            let objects = object_payloads(s.item.w as u16, s.item.h as u16, &s.data, None, [0; 3]).into_iter().map(|p| (ODS, r.times[1], 0, p));
            let one: Vec<(u8, u32, u32, Vec<u8>)> = match kind {
                0 => vec![(PCS, r.times[0], 0, payload.clone())],
                1 => vec![(WDS, r.times[0], 0, payload.clone())],
                2 => vec![palette],
                3 => std::iter::once(palette).chain(objects).collect(),
                4 => vec![(ODS, 0, 0, payload.clone())],
                _ => vec![(PCS, 0, 0, payload.clone()), (WDS, 0, 0, vec![])],
            };
            segs.extend(std::iter::repeat_n(one, n).flatten());
            o.label_if(n > 255, "more than 255 segments");
            o.label_if(n > 65_535, "more than 65535 segments");
            if i == v.len() / 2 {
                segs.push((END, *start, 0, vec![]));
            }
        }
        segs.push((END, *end, 0, vec![]));
        // and one that is as usual
        let last = realise(&v[0].3);
        let mut bytes = frame(&segs);
        bytes.extend(last.bytes());
        times.iter_mut().for_each(|t| *t /= 90);
        let want = [(i64::from(times[0]), i64::from(times[1])), (last.item.start, last.item.end)];
        let got = decode_times(Cursor::new(&bytes), bytes.len())?;
        ensure!(got == want.map(Ok), "times decoder: expected {want:?}, got {got:?}");
        let img = decode_images(Cursor::new(&bytes), bytes.len())?;
        if img.iter().all(Result::is_ok) {
            let t: Vec<(i64, i64)> = img.iter().flatten().map(|i| (i.start, i.end)).collect();
            ensure!(t == want, "times-and-images decoder: expected {want:?}, got {t:?}");
            o.label("decodes");
        }
        o.nontrivial_if(v.iter().any(|p| p.1 > 20));
        Ok(())
    });
    // each bit of the time field, and every residue of the division
    c.enumerate(
        "time_field",
        false,
        (0..32u32).flat_map(|b| [1u32 << b, (1 << b) - 1, !(1 << b)]).chain(0..2000),
        |&p: &u32, o: &mut Obs| {
            o.nontrivial();
            let bytes = frame(&[(END, p, 7, vec![]), (END, !p, 9, vec![])]);
            let got = decode_times(Cursor::new(&bytes), 2)?;
            let want = (i64::from(p / 90), i64::from(!p / 90));
            ensure!(got == [Ok(want)], "times {p}, {}: expected {want:?}, got {got:?}", !p);
            Ok(())
        },
    );
}

// ------------------------------------------------------------------ C16

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Src {
    Valid(Vec<PSubR>),
    Mutated(PMutR),
    Soup(Vec<u8>),
}

impl Src {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Self::Valid(v) => stream(&v.iter().map(realise).collect::<Vec<_>>()),
            Self::Mutated(m) => mutated(m),
            Self::Soup(b) => b.clone(),
        }
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Buffered {
    src: Src,
    cap: u16,
    sizes: Vec<u16>,
}

fn c16(c: &Ctx) {
    let src = || {
        prop_oneof![
            3 => prop::collection::vec(small_psub_r(), 1..4).prop_map(Src::Valid),
            1 => prop::collection::vec(psub_r(), 1..3).prop_map(Src::Valid),
            3 => pmut_r().prop_map(Src::Mutated),
            2 => sup_soup().prop_map(Src::Soup),
        ]
    };
    let sized = || {
        (
            prop_oneof![3 => num(1u16..40), 1 => num(40u16..4000), 1 => prop::sample::select(vec![1u16, 12, 13, 14, 8192])],
            prop_oneof![2 => prop::collection::vec(num(1u16..20), 1..8), 1 => prop::collection::vec(num(1u16..3000), 1..5), 1 => Just(vec![1u16])],
        )
    };
    let strat = || (src(), sized()).prop_map(|(src, (cap, sizes))| Buffered { src, cap, sizes });
    let same_images = |name: &str, want: &[PResult], got: &[PResult]| -> Result<(), String> {
        for (i, (w, g)) in want.iter().zip(got).enumerate() {
            let d = match (w, g) {
                (Ok(a), Ok(b)) => a.diff(b),
                (Err(a), Err(b)) if a == b => None,
                (a, b) => Some(format!(
                    "{:?} from memory, {:?} here",
                    a.as_ref().map(|_| "subtitle"),
                    b.as_ref().map(|_| "subtitle")
                )),
            };
            if let Some(d) = d {
                return Err(format!("{name}: item {i}: {d}"));
            }
        }
        ensure!(want.len() == got.len(), "{name}: {} items from memory, {} here", want.len(), got.len());
        Ok(())
    };
    c.search("readers", 150_000, 3_000_000, strat, move |r: &Buffered, o| {
        let bytes = r.src.bytes();
        let n = bytes.len();
        let want = decode_images(Cursor::new(&bytes), n)?;
        let times = decode_times(Cursor::new(&bytes), n)?;
        let cap = usize::from(r.cap);
        same_images(
            &format!("buffer of {cap} bytes"),
            &want,
            &decode_images(BufReader::with_capacity(cap, Cursor::new(&bytes)), n)?,
        )?;
        same_images(
            "buffer around pieces",
            &want,
            &decode_images(BufReader::with_capacity(cap, ChunkReader::new(&bytes, &r.sizes, 0)), n)?,
        )?;
        same_images("pieces", &want, &decode_images(ChunkReader::new(&bytes, &r.sizes, 0), n)?)?;
        let t = decode_times(ChunkReader::new(&bytes, &r.sizes, 0), n)?;
        ensure!(t == times, "times in pieces: {t:?}, from memory: {times:?}");
        let t = decode_times(BufReader::with_capacity(cap, Cursor::new(&bytes)), n)?;
        ensure!(t == times, "times through a buffer of {cap} bytes: {t:?}, from memory: {times:?}");
        o.label(match r.src {
            Src::Valid(_) => "valid",
            Src::Mutated(_) => "mutated",
            Src::Soup(_) => "soup",
        });
        o.nontrivial_if(!want.is_empty() && cap < n);
        Ok(())
    });
    // a stream that begins where the reader stands
    let strat = || {
        ((src(), sized()).prop_map(|(src, (cap, sizes))| Buffered { src, cap, sizes }), prop::collection::vec(any8(), 1..40), num(0u16..40).wide(0u16..=20_000))
    };
    c.search("standing_readers", 60_000, 1_000_000, strat, move |(r, front, more): &(Buffered, Vec<u8>, u16), o| {
        let bytes = r.src.bytes();
        let n = bytes.len();
        let want = decode_images(Cursor::new(&bytes), n)?;
        let times = decode_times(Cursor::new(&bytes), n)?;
        let mut all: Vec<u8> = front.iter().copied().cycle().take(front.len() + usize::from(*more)).collect();
        let at = all.len();
        all.extend_from_slice(&bytes);
        let cap = usize::from(r.cap);
        let seek = |e: io::Error| format!("harness: {e}");
        let mut rd = Cursor::new(&all);
        rd.set_position(at as u64);
        same_images("memory", &want, &decode_images(rd.clone(), n)?)?;
        same_images("buffer around the rest", &want, &decode_images(BufReader::with_capacity(cap, rd.clone()), n)?)?;
        let t = decode_times(rd, n)?;
        ensure!(t == times, "times: {t:?}, of the stream alone: {times:?}");
        let mut rd = BufReader::with_capacity(cap, Cursor::new(&all));
        io::copy(&mut rd.by_ref().take(at as u64), &mut io::sink()).map_err(seek)?;
        same_images("buffer already read from", &want, &decode_images(rd, n)?)?;
        let mut rd = ChunkReader::new(&all, &r.sizes, 0);
        rd.seek(SeekFrom::Start(at as u64)).map_err(seek)?;
        same_images("pieces", &want, &decode_images(rd, n)?)?;
        o.nontrivial_if(!want.is_empty());
        Ok(())
    });
    // far from the beginning
    let strat = || {
        let base = prop_oneof![
            1 => num(0u64..1000),
            2 => num(0u64..70_000).prop_map(|k| (1 << 32) - k),
            2 => num(0u64..70_000).prop_map(|k| (1 << 31) - k),
            2 => (num(1u64..1 << 20), any32()).prop_map(|(h, l)| h << 32 | u64::from(l)),
            1 => any32().prop_map(|l| (1 << 62) + u64::from(l)),
        ];
        ((src(), sized()).prop_map(|(src, (cap, sizes))| Buffered { src, cap, sizes }), base)
    };
    c.search("far_readers", 40_000, 800_000, strat, move |(r, base): &(Buffered, u64), o| {
        let bytes = r.src.bytes();
        let n = bytes.len();
        let want = decode_images(Cursor::new(&bytes), n)?;
        let times = decode_times(Cursor::new(&bytes), n)?;
        let cap = usize::from(r.cap);
        let memory = || FarReader { inner: Cursor::new(&bytes), base: *base };
        let pieces = || FarReader { inner: ChunkReader::new(&bytes, &r.sizes, 0), base: *base };
        same_images(&format!("memory from position {base}"), &want, &decode_images(memory(), n)?)?;
        same_images(&format!("buffer of {cap} bytes from position {base}"), &want, &decode_images(BufReader::with_capacity(cap, memory()), n)?)?;
        same_images(&format!("pieces from position {base}"), &want, &decode_images(pieces(), n)?)?;
        let t = decode_times(pieces(), n)?;
        ensure!(t == times, "times in pieces from position {base}: {t:?}, from memory: {times:?}");
        let t = decode_times(BufReader::with_capacity(cap, memory()), n)?;
        ensure!(t == times, "times through a buffer of {cap} bytes from position {base}: {t:?}, from memory: {times:?}");
        o.nontrivial_if(!want.is_empty());
        Ok(())
    });
    let strat = || (src(), sized()).prop_map(|(src, (cap, sizes))| Buffered { src, cap, sizes });
    c.search("files", 20_000, 400_000, strat, move |r: &Buffered, o| {
        let bytes = r.src.bytes();
        let n = bytes.len();
        let p = scratch().join("s.sup");
        std::fs::write(&p, &bytes).map_err(|e| format!("harness: {e}"))?;
        let want = decode_images(Cursor::new(&bytes), n)?;
        let times = decode_times(Cursor::new(&bytes), n)?;
        let f = File::open(&p).map_err(|e| format!("harness: {e}"))?;
        same_images("file", &want, &decode_images(BufReader::with_capacity(usize::from(r.cap), f), n)?)?;
        let opened = no_panic(|| {
            let s = SupParser::<BufReader<File>, DecodeTimeImage>::from_file(&p).map_err(|e| format!("from_file: {e}"))?;
            Ok::<_, String>(
                s.take(n + 1)
                    .map(|i| match i {
                        Ok((t, img)) => Ok(PItem {
                            start: t.start.msecs(),
                            end: t.end.msecs(),
                            w: img.width(),
                            h: img.height(),
                            pixels: pixels_of(&img),
                        }),
                        Err(e) => Err(err_kind(&e)),
                    })
                    .collect::<Vec<PResult>>(),
            )
        })??;
        same_images("from_file", &want, &opened)?;
        let t = no_panic(|| {
            let s = SupParser::<BufReader<File>, DecodeTimeOnly>::from_file(&p).map_err(|e| format!("from_file: {e}"))?;
            Ok::<_, String>(
                s.take(n + 1)
                    .map(|i| i.map(|t| (t.start.msecs(), t.end.msecs())).map_err(|e| err_kind(&e)))
                    .collect::<Vec<TResult>>(),
            )
        })??;
        ensure!(t == times, "times from_file: {t:?}, from memory: {times:?}");
        o.nontrivial_if(!want.is_empty());
        Ok(())
    });
}

// ------------------------------------------------------------------ C17

/// Positions below `n` derived from a seed.
fn points(seed: u64, n: usize) -> impl Iterator<Item = usize> {
    let mut x = seed;
    std::iter::repeat_with(move || {
        x = x.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1_442_695_040_888_963_407);
        (x >> 33) as usize % n
    })
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Cuts {
    subs: Vec<PSubR>,
    at: u64,
    sizes: Vec<u16>,
}

fn c17(c: &Ctx) {
    let strat = || {
        (
            prop_oneof![
                6 => prop::collection::vec(small_psub_r(), 1..4),
                1 => prop::collection::vec(psub_r(), 1..3),
            ],
            any64(),
            prop::collection::vec(num(1u16..40), 1..4),
        )
            .prop_map(|(subs, at, sizes)| Cuts { subs, at, sizes })
    };
    c.search("cuts", 14_000, 150_000, strat, |r: &Cuts, o| {
        let subs: Vec<PSub> = r.subs.iter().map(realise).collect();
        let bytes = stream(&subs);
        let n = bytes.len();
        let mut borders = vec![];
        let mut done = vec![];
        let mut base = 0;
        for s in &subs {
            done.push(base + s.complete_at());
            for (_, b) in &s.segments {
                borders.push(base);
                base += b.len();
            }
        }
        let cuts: Vec<usize> = if n <= 1500 {
            (0..=n).collect()
        } else {
            let mut v: Vec<usize> = borders
                .iter()
                .flat_map(|b| (b.saturating_sub(3)..b + 28).collect::<Vec<_>>())
                .chain(points(r.at, n + 1).take(200))
                .filter(|c| *c <= n)
                .collect();
            v.sort_unstable();
            v.dedup();
            v
        };
        o.label_if(n <= 1500, "every cut");
        o.nontrivial_if(n > 100);
        // unused parts of the largest pixel buffers need not be compared at each cut
        for cut in cuts {
            let k = done.iter().take_while(|d| **d <= cut).count();
            let part = &bytes[..cut];
            let judge = |name: &str, got: Vec<Result<PItem, &'static str>>| -> Result<(), String> {
                let oks = got.iter().take_while(|g| g.is_ok()).count();
                ensure!(oks == k, "{name}, cut at {cut} of {n}: {k} subtitles are complete, {oks} were delivered");
                for (i, (s, g)) in subs.iter().zip(&got).take(k).enumerate() {
                    if let Some(d) = s.item.diff(g.as_ref().unwrap()) {
                        return Err(format!("{name}, cut at {cut} of {n}: subtitle {i}: {d}"));
                    }
                }
                ensure!(
                    got.len() <= k + 1,
                    "{name}, cut at {cut} of {n}: {} items after the last complete subtitle",
                    got.len() - k
                );
                Ok(())
            };
            judge("memory", decode(part)?)?;
            if cut % 3 == 0 {
                judge("pieces", decode_images(ChunkReader::new(part, &r.sizes, 0), cut)?)?;
            }
            let t = decode_times(Cursor::new(part), cut)?;
            let want: Vec<TResult> = subs[..k].iter().map(|s| Ok((s.item.start, s.item.end))).collect();
            ensure!(
                t.len() <= k + 1 && t.starts_with(&want) && t[k..].iter().all(Result::is_err),
                "times, cut at {cut} of {n}: expected {want:?}, got {t:?}"
            );
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C18

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Faults {
    subs: Vec<PSubR>,
    sizes: Vec<u16>,
    kind: u8,
    sticky: bool,
    at: u64,
    every: u8,
}

use crate::fw::IO_KINDS as KINDS;

/// Error items that can stand for a failing reader.
fn is_read_failure(k: &str) -> bool {
    matches!(k, "Io" | "SegmentFailReadHeader" | "SegmentSkip" | "ODSParse" | "PDSParse")
}

fn c18(c: &Ctx) {
    let strat = || {
        (
            prop::collection::vec(small_psub_r(), 1..4),
            prop_oneof![2 => prop::collection::vec(num(1u16..60), 1..5), 1 => Just(vec![8192u16]), 1 => Just(vec![13u16])],
            any8(),
            any::<bool>(),
            any64(),
            num(2u8..9),
        )
            .prop_map(|(subs, sizes, kind, sticky, at, every)| Faults { subs, sizes, kind, sticky, at, every })
    };
    let fault = |r: &Faults, o: &mut Obs, buffered: bool| -> Result<(), String> {
        let subs: Vec<PSub> = r.subs.iter().map(realise).collect();
        let bytes = stream(&subs);
        let n = bytes.len();
        let cap = usize::from(r.sizes[0]);
        let times: Vec<(i64, i64)> = subs.iter().map(|s| (s.item.start, s.item.end)).collect();

        // one run of either decoder: items up to the first error, operations
        // done when each was delivered
        fn run<R: BufRead + Seek>(
            mut rd: R,
            images: bool,
            ops: impl Fn(&R) -> usize,
            max: usize,
        ) -> Result<(Vec<(Result<Result<PItem, (i64, i64)>, &'static str>, usize)>, usize), String> {
            use subtile::pgs::PgsDecoder as _;
            no_panic(move || {
                let mut out = vec![];
                loop {
                    let i = if images {
                        DecodeTimeImage::parse_next(&mut rd).map(|i| {
                            i.map(|(t, img)| {
                                Ok(PItem { start: t.start.msecs(), end: t.end.msecs(), w: img.width(), h: img.height(), pixels: pixels_of(&img) })
                            })
                        })
                    } else {
                        DecodeTimeOnly::parse_next(&mut rd).map(|i| i.map(|t| Err((t.start.msecs(), t.end.msecs()))))
                    };
                    let n = ops(&rd);
                    match i.transpose() {
                        None => return Ok((out, n)),
                        Some(Ok(i)) => out.push((Ok(i), n)),
                        Some(Err(e)) => {
                            out.push((Err(err_kind(&e)), n));
                            return Ok((out, n));
                        }
                    }
                    if out.len() > max {
                        return Err(format!("more than {max} items delivered"));
                    }
                }
            })?
        }
        let mk = |fail_at, sticky| FaultReader::new(ChunkReader::new(&bytes, &r.sizes, 0), fail_at, sticky, KINDS[usize::from(r.kind) % KINDS.len()]);
        for images in [true, false] {
            let go = |fail_at: usize| {
                if buffered {
                    run(BufReader::with_capacity(cap, mk(fail_at, r.sticky)), images, |r| r.get_ref().ops, n)
                } else {
                    run(mk(fail_at, r.sticky), images, |r| r.ops, n)
                }
            };
            let (whole, total) = go(usize::MAX)?;
            ensure!(
                whole.len() == subs.len() && whole.iter().all(|i| i.0.is_ok()),
                "without failure: {} items for {} subtitles",
                whole.len(),
                subs.len()
            );
            let points: Vec<usize> = if total <= 400 {
                (0..total).collect()
            } else {
                points(r.at, total).take(400).collect()
            };
            for f in points {
                let k = whole.iter().take_while(|w| w.1 <= f).count();
                let (got, _) = go(f)?;
                let name = format!("failure {:?} at operation {f} of {total}", KINDS[usize::from(r.kind) % KINDS.len()]);
                let oks = got.iter().take_while(|g| g.0.is_ok()).count();
                ensure!(oks == k, "{name}: {k} subtitles were complete, {oks} were delivered before it");
                for (i, g) in got.iter().take(k).enumerate() {
                    match g.0.as_ref().unwrap() {
                        Ok(item) => {
                            if let Some(d) = subs[i].item.diff(item) {
                                return Err(format!("{name}: subtitle {i}: {d}"));
                            }
                        }
                        Err(t) => ensure!(*t == times[i], "{name}: subtitle {i}: expected {:?}, got {t:?}", times[i]),
                    }
                }
                match got.get(k) {
                    None => return Err(format!("{name}: taken as the end of the stream")),
                    Some((Err(e), _)) => ensure!(is_read_failure(e), "{name}: reported as {e}"),
                    Some((Ok(_), _)) => unreachable!(),
                }
                o.nontrivial();
            }
        }
        Ok(())
    };
    c.search("faults", 12_000, 100_000, strat, move |r: &Faults, o| fault(r, o, false));
    c.search("faults_buffered", 12_000, 100_000, strat, move |r: &Faults, o| fault(r, o, true));
    c.search("interrupted", 180_000, 1_200_000, strat, |r: &Faults, o| {
        let subs: Vec<PSub> = r.subs.iter().map(realise).collect();
        let bytes = stream(&subs);
        let every = usize::from(r.every);
        for buffered in [false, true] {
            let mut ok = 0;
            let mut err = false;
            let mut see = |i: Result<(i64, i64, RleEncodedImage), &'static str>| -> Result<(), String> {
                if err {
                    return Ok(());
                }
                match i {
                    Ok((start, end, img)) => {
                        ensure!(ok < subs.len(), "interrupted reads: {} subtitles for {}", ok + 1, subs.len());
                        let got = PItem { start, end, w: img.width(), h: img.height(), pixels: pixels_of(&img) };
                        if let Some(d) = subs[ok].item.diff(&got) {
                            return Err(format!("interrupted reads: subtitle {ok}: {d}"));
                        }
                        ok += 1;
                    }
                    Err(k) => {
                        ensure!(is_read_failure(k), "interrupted reads: reported as {k}");
                        err = true;
                    }
                }
                Ok(())
            };
            let rd = ChunkReader::new(&bytes, &r.sizes, every);
            if buffered {
                for_each_image(BufReader::with_capacity(usize::from(r.sizes[0]), rd), bytes.len(), &mut see)?;
            } else {
                for_each_image(rd, bytes.len(), &mut see)?;
            }
            ensure!(err || ok == subs.len(), "interrupted reads: {ok} of {} subtitles and no error", subs.len());
            o.label(if err { "reported" } else { "fault-free result" });
        }
        o.nontrivial();
        Ok(())
    });
}

// ------------------------------------------------------------------ C19

#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
enum Defect {
    None,
    /// drop the object segments; drop the palette too if set
    NoImage(bool),
    NoPalette,
    /// an empty segment of unknown type before the subtitle
    BadType(u8),
    /// a header without the signature before the subtitle
    BadMagic(u8, u8),
    /// an empty object segment that continues nothing, or of an unknown flag, in the
    /// display set with the object, after it or before it
    Stray(u8, bool),
    /// an object in two segments, of which the second is missing
    Half,
    /// an object in two segments, with an empty one of this flag for the second
    Broken(u8),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Mixed(Vec<(PSubR, Defect)>);

fn c19(c: &Ctx) {
    let defect = prop_oneof![
        3 => Just(Defect::None),
        1 => any::<bool>().prop_map(Defect::NoImage),
        1 => Just(Defect::NoPalette),
        1 => any8().prop_filter("known type", |k| ![PDS, ODS, PCS, WDS, END].contains(k)).prop_map(Defect::BadType),
        1 => (any8(), any8()).prop_filter("signature", |m| *m != (b'P', b'G')).prop_map(|(a, b)| Defect::BadMagic(a, b)),
        1 => (prop_oneof![3 => Just(0x40u8), 1 => any8()].prop_filter("known flag", |f| ![0x80, 0xC0].contains(f)), any::<bool>())
            .prop_map(|(f, a)| Defect::Stray(f, a)),
        1 => Just(Defect::Half),
        1 => prop_oneof![2 => Just(0xC0u8), 1 => Just(0x80u8), 1 => any8()].prop_filter("the last one", |f| *f != 0x40).prop_map(Defect::Broken),
    ];
    let strat = || prop::collection::vec((small_psub_r(), defect.clone()), 2..8).prop_map(Mixed);
    c.search("mixed", 150_000, 3_000_000, strat, |r: &Mixed, o| judge(&r.0.iter().map(|(s, d)| (s, *d, 1)).collect::<Vec<_>>(), o));
    // crowds of the same defect between valid subtitles
    let times = || prop_oneof![2 => Just(1u16), 7 => num(1u16..40), 1 => num(1u16..=1000)];
    let strat = || prop::collection::vec((small_psub_r(), defect.clone(), times()), 2..6);
    c.search("crowds", 1_600, 30_000, strat, |r: &Vec<(PSubR, Defect, u16)>, o| {
        judge(&r.iter().map(|(s, d, n)| (s, *d, usize::from(*n))).collect::<Vec<_>>(), o)
    });
}

#[derive(Debug, Clone)]
enum Want {
    Sub(Arc<PItem>),
    Err(&'static str),
    /// up to three errors, none a subtitle
    MoreErrors,
}

/// Does what was got match what is wanted?
fn fits(want: &[Want], got: &[PResult], full: bool) -> bool {
    // the numbers of items of `got` that can stand for those of `want` so far
    let mut at = vec![0];
    for w in want {
        let mut next: Vec<usize> = vec![];
        for i in at {
            let ok = match (w, got.get(i)) {
                (Want::MoreErrors, _) => {
                    next.extend((i..=got.len().min(i + 3)).take_while(|k| got[i..*k].iter().all(Result::is_err)));
                    continue;
                }
                (Want::Sub(item), Some(Ok(x))) => !full || item.diff(x).is_none(),
                (Want::Err(e), Some(Err(k))) => e == k,
                _ => false,
            };
            if ok {
                next.push(i + 1);
            }
        }
        next.sort_unstable();
        next.dedup();
        at = next;
    }
    at.contains(&got.len())
}

/// Decode subtitles with defects, each repeated.
fn judge(r: &[(&PSubR, Defect, usize)], o: &mut Obs) -> Result<(), String> {
        let mut bytes = vec![];
        let mut want = vec![];
        for (s, d, n) in r {
            let mut s = (*s).clone();
            let (from, wfrom) = (bytes.len(), want.len());
            one_defect(&mut s, *d, &mut bytes, &mut want, o);
            let (b, w) = (bytes[from..].to_vec(), want[wfrom..].to_vec());
            for _ in 1..*n {
                bytes.extend_from_slice(&b);
                want.extend_from_slice(&w);
            }
            o.label_if(*n >= 256, "256 or more of a kind");
        }
        let got = decode(&bytes)?;
        if !fits(&want, &got, true) {
            let kinds = |v: &[PResult]| v.iter().map(|i| i.as_ref().map_or_else(|e| *e, |_| "subtitle")).collect::<Vec<_>>();
            let wanted: Vec<&str> = want
                .iter()
                .map(|w| match w {
                    Want::Sub(_) => "subtitle",
                    Want::Err(e) => e,
                    Want::MoreErrors => "(errors)",
                })
                .collect();
            if fits(&want, &got, false) {
                let subs = want.iter().filter_map(|w| if let Want::Sub(i) = w { Some(i) } else { None });
                for (i, (w, g)) in subs.zip(got.iter().flatten()).enumerate() {
                    if let Some(d) = w.diff(g) {
                        return Err(format!("valid subtitle {i}: {d}"));
                    }
                }
            }
            return Err(format!("expected {wanted:?}, got {:?}", kinds(&got)));
        }
        o.nontrivial_if(
            r.iter().any(|d| matches!(d.1, Defect::None)) && r.iter().any(|d| !matches!(d.1, Defect::None)),
        );
        Ok(())
}

/// A subtitle with its defect, and what is expected of it.
fn one_defect(s: &mut PSubR, d: Defect, bytes: &mut Vec<u8>, want: &mut Vec<Want>, o: &mut Obs) {
            // a palette in the ending display set would stand for the missing one
            if matches!(d, Defect::NoPalette | Defect::NoImage(_)) {
                s.end_palette = None;
            }
            // one of an object split in two would be its second half, or its missing rest
            if matches!(d, Defect::Stray(..)) {
                s.split = None;
                s.end_palette = None;
            }
            if matches!(d, Defect::Half | Defect::Broken(_)) {
                s.split = s.split.or(Some(s.w));
                s.end_palette = None;
            }
            let sub = realise(s);
            let mut add = |skip: &dyn Fn(u8) -> bool| {
                for (k, b) in &sub.segments {
                    if !skip(*k) {
                        bytes.extend_from_slice(b);
                    }
                }
            };
            match d {
                Defect::None => {}
                Defect::NoImage(both) => {
                    o.label("no image");
                    add(&|k| k == ODS || (both && k == PDS));
                    want.push(Want::Err("MissingImage"));
                    return;
                }
                Defect::NoPalette => {
                    o.label("no palette");
                    add(&|k| k == PDS);
                    want.push(Want::Err("MissingPalette"));
                    want.push(Want::MoreErrors);
                    return;
                }
                Defect::Half => {
                    o.label("half an object");
                    let mut seen = 0;
                    for (k, b) in &sub.segments {
                        seen += usize::from(*k == ODS);
                        if *k != ODS || seen == 1 {
                            bytes.extend_from_slice(b);
                        }
                    }
                    want.push(Want::Err("MissingImage"));
                    return;
                }
                Defect::Broken(flag) => {
                    o.label("object not continued");
                    let mut seen = 0;
                    for (k, b) in &sub.segments {
                        seen += usize::from(*k == ODS);
                        if *k == ODS && seen == 2 {
                            segment(ODS, s.start, s.end, &[0, 1, 0, flag], bytes);
                        } else {
                            bytes.extend_from_slice(b);
                        }
                    }
                    want.push(Want::Err("ODSParse"));
                    want.push(Want::MoreErrors);
                    return;
                }
                Defect::BadType(t) => {
                    o.label("unknown type");
                    segment(t, s.start, s.end, &[], bytes);
                    want.push(Want::Err("SegmentInvalidTypeCode"));
                }
                Defect::BadMagic(a, b) => {
                    o.label("bad signature");
                    let at = bytes.len();
                    segment(END, s.start, s.end, &[], bytes);
                    bytes[at] = a;
                    bytes[at + 1] = b;
                    want.push(Want::Err("SegmentPGMissing"));
                }
                Defect::Stray(flag, after) => {
                    if sub.segments.iter().filter(|g| g.0 == ODS).count() != 1 {
                        // too large for one segment
                        for (_, b) in &sub.segments {
                            bytes.extend_from_slice(b);
                        }
                        want.push(Want::Sub(Arc::new(sub.item.clone())));
                        return;
                    }
                    o.label("stray object segment");
                    for (k, b) in &sub.segments {
                        if *k == ODS && after {
                            bytes.extend_from_slice(b);
                        }
                        if *k == ODS {
                            segment(ODS, s.start, s.end, &[0, 1, 0, flag], bytes);
                        }
                        if *k != ODS || !after {
                            bytes.extend_from_slice(b);
                        }
                    }
                    want.push(Want::Err("ODSParse"));
                    want.push(Want::MoreErrors);
                    return;
                }
            }
            for (_, b) in &sub.segments {
                bytes.extend_from_slice(b);
            }
            want.push(Want::Sub(Arc::new(sub.item.clone())));
}

// ------------------------------------------------------------------ C20

fn c20(c: &Ctx) {
    fn lengths<P: Copy + PartialEq + std::fmt::Debug>(
        name: &str,
        mut it: impl ExactSizeIterator<Item = P>,
        want: &[P],
    ) -> Result<(), String> {
        for (i, w) in want.iter().enumerate() {
            let left = want.len() - i;
            ensure!(it.len() == left, "{name}: {left} pixels to come, announced {}", it.len());
            ensure!(it.size_hint() == (left, Some(left)), "{name}: {left} pixels to come, hint {:?}", it.size_hint());
            let g = it.next();
            ensure!(g.as_ref() == Some(w), "{name}: pixel {i}: expected {w:?}, got {g:?}");
        }
        for _ in 0..3 {
            ensure!(it.len() == 0 && it.size_hint() == (0, Some(0)), "{name}: ended, announced {:?}", it.size_hint());
            ensure!(it.next().is_none(), "{name}: a pixel after the end");
        }
        Ok(())
    }
    let test = |h: &HObj, o: &mut Obs| {
        let n = h.total();
        if n > 1 << 14 {
            // announced lengths at the start and after some steps only
            o.label("large");
            fn some<P: Copy>(name: &str, mut it: impl ExactSizeIterator<Item = P>, n: usize, to_end: bool, o: &mut Obs) -> Result<(), String> {
                ensure!(it.len() == n, "{name}: {n} pixels to come, announced {}", it.len());
                let k = 1000 + n % 777;
                ensure!(it.by_ref().take(k).count() == k, "{name}: fewer than {k} pixels");
                ensure!(it.len() == n - k, "{name}: {} pixels to come, announced {}", n - k, it.len());
                if to_end {
                    o.label("large, to the end");
                    let mut left = n - k;
                    while it.next().is_some() {
                        left = left.checked_sub(1).ok_or_else(|| format!("{name}: more than {n} pixels"))?;
                        ensure!(left % 1021 != 0 || it.len() == left, "{name}: {left} pixels to come, announced {}", it.len());
                    }
                    ensure!(left == 0, "{name}: {left} pixels fewer than {n}");
                    ensure!(it.len() == 0 && it.next().is_none(), "{name}: a pixel after the end");
                }
                Ok(())
            }
            return h.with_image(|img| {
                let to_end = n < 1 << 17 || (n < 5 << 20 && n % 16 == 0);
                some("iter", img.iter(), n, to_end, o)?;
                some("into_iter", img.into_iter(), n, false, o)?;
                some("clone", img.clone().iter(), n, false, o)?;
                some("pixels", img.pixels(|e| LumaA([e.luminance, e.transparency])), n, to_end && n % 3 == 0, o)
            });
        }
        let expected = h.expected(n);
        h.with_image(|img| {
            let want: Vec<LumaA<u8>> = expected.iter().map(|p| LumaA([p.0, p.1])).collect();
            lengths("iter", img.iter(), &want)?;
            lengths("into_iter", img.into_iter(), &want)?;
            lengths("pixels", img.pixels(|e| LumaA([e.luminance, e.transparency])), &want)?;
            let copy = img.clone();
            lengths("clone", copy.iter(), &want)?;
            lengths("iter again", img.iter(), &want)?;
            // other sample types: what the conversion says, or their own white
            let pal = lookup(&h.palette);
            let in_palette = |c: Px| h.palette.iter().any(|e| pal(e.0) == c);
            let want16: Vec<LumaA<u16>> = expected
                .iter()
                .map(|p| LumaA([u16::from(p.0) * 257, u16::from(p.1) * 257]))
                .collect();
            lengths(
                "pixels u16",
                img.pixels(|e| LumaA([u16::from(e.luminance) * 257, u16::from(e.transparency) * 257])),
                &want16,
            )?;
            if !in_palette(NO_COLOUR) {
                let wantf: Vec<LumaA<f32>> = expected
                    .iter()
                    .map(|p| if *p == NO_COLOUR { LumaA([1.0, 0.0]) } else { LumaA([f32::from(p.0) + 2.0, f32::from(p.1) + 3.0]) })
                    .collect();
                lengths(
                    "pixels f32",
                    img.pixels(|e| LumaA([f32::from(e.luminance) + 2.0, f32::from(e.transparency) + 3.0])),
                    &wantf,
                )?;
            }
            // interleaved iterations do not disturb each other
            let (mut a, mut b) = (img.iter(), copy.iter());
            for (i, w) in want.iter().enumerate() {
                ensure!(a.next() == Some(*w), "interleaved iteration: pixel {i}");
                if i % 2 == 0 {
                    ensure!(b.next() == Some(want[i / 2]), "interleaved iteration: pixel {} of the copy", i / 2);
                }
            }
            // standard adaptors that rely on the length
            let k = n / 3;
            ensure!(img.iter().skip(k).len() == n - k, "skip({k}) announces {}", img.iter().skip(k).len());
            ensure!(img.iter().nth(k) == want.get(k).copied(), "nth({k})");
            ensure!(img.iter().last() == want.last().copied(), "last");
            ensure!(img.iter().count() == n, "count is {}", img.iter().count());
            o.nontrivial_if(n > 3 && h.data.iter().any(|b| *b == 0));
            Ok(())
        })
    };
    c.search("arbitrary_data", 300_000, 3_000_000, hobj, test);
    c.search(
        "valid_data",
        200_000,
        2_000_000,
        || {
            small_psub_r().prop_map(|r| {
                let s = realise(&r);
                HObj { w: s.item.w as u16, h: s.item.h as u16, palette: s.palette, data: s.data, split: None }
            })
        },
        test,
    );
}

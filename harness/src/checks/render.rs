//! C11, C12, C21, C22: images made from decoded subtitles.

use crate::dict::{any64, any16, any32, any8, num};
use super::pgs::{hobj, large_hobj, HObj};
use super::Check;
use crate::ensure;
use crate::fw::{no_panic, Ctx, Obs, Tier};
use crate::pgs::{realise, small_psub_r, Px, PIXEL_CAP};
use image::{ImageBuffer, Luma, LumaA, Pixel, Primitive, Rgb, Rgba};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use subtile::content::{Area, AreaValues};
use subtile::image::{luma_a_to_luma, luma_a_to_luma_convertor, ImageArea as _, ImageSize as _, ToImage, ToOcrImage, ToOcrImageOpt};
use subtile::pgs::RleToImage;
use subtile::vobsub::{conv_to_rgba, palette_rgb_to_luminance, VobSubIndexedImage, VobSubOcrImage, VobSubToImage};

pub fn checks() -> Vec<Check> {
    checks![
        "C11": Check { id: "C11", rule: "images of random size, position, indices, palettes and alphas, rendered with six conversion functions over four pixel formats and three palette entry types, small and of more than 65536 pixels; non-trivial: several colour values with distinct colours", assumptions: &["images are built from their public constructor; C02 shows what decoding delivers"], run: c11 },
        "C12": Check { id: "C12", rule: "the same images and presentation graphic objects, small and large, with any border and colours, and every grey level and random colours for luminance; non-trivial: both text and background appear, and a border", assumptions: &[], run: c12 },
        "C21": Check { id: "C21", rule: "presentation graphic objects of valid and arbitrary pixel data rendered to one to four channels with capturing conversion functions, small and of more than 65536 pixels; non-trivial: at least two different pixels", assumptions: &[], run: c21 },
        "C22": Check { id: "C22", rule: "every 8-bit pixel against a grid of compile-time thresholds, every 8-bit luminance-threshold and alpha-threshold pair around equality, and random 16-bit, 32-bit and floating-point pixels and thresholds including non-numbers; non-trivial: a component equals its threshold or the two comparisons disagree", assumptions: &[], run: c22 },
    ]
}

// ---------------------------------------------------------------- C11, C12

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct VImg {
    x: u16,
    y: u16,
    w: u16,
    h: u16,
    palette: [u8; 4],
    alpha: [u8; 4],
    /// indices, repeated to fill the image
    raw: Vec<u8>,
    colours: Vec<[u8; 3]>,
}

fn vimg() -> impl Strategy<Value = VImg> {
    let side = || prop_oneof![20 => num(2u16..30), 1 => num(2u16..300), 1 => prop::sample::select(vec![2u16, 255, 256, 257])];
    let nib = || prop_oneof![4 => num(0u8..16), 1 => Just(0u8), 1 => Just(15u8)];
    (
        (any16(), any16(), side(), side()),
        (
            (nib(), nib(), nib(), nib()).prop_map(|(a, b, c, d)| [a, b, c, d]),
            (nib(), nib(), nib(), nib()).prop_map(|(a, b, c, d)| [a, b, c, d]),
        ),
        prop::collection::vec(num(0u8..4), 1..80),
        prop::collection::vec(
            prop_oneof![3 => prop::array::uniform3(any8()), 1 => Just([0u8; 3]), 1 => any8().prop_map(|g| [g; 3]), 1 => (num(0u8..3)).prop_map(|g| [g, 0, 1])],
            16,
        ),
    )
        .prop_map(|((x, y, w, h), (palette, alpha), raw, colours)| VImg {
            x: x % 60_000,
            y: y % 60_000,
            w,
            h,
            palette,
            alpha,
            raw,
            colours,
        })
}

/// More pixels than 16 bits can count, at times.
fn large_vimg() -> impl Strategy<Value = VImg> {
    let dim = prop_oneof![2 => (num(200u16..800), num(80u16..600)), 1 => (num(2u16..40), num(2000u16..4096)), 1 => (num(2000u16..4096), num(2u16..64))];
    (vimg(), dim, prop::collection::vec(num(0u8..4), 40..90)).prop_map(|(v, (w, h), raw)| VImg { w, h, raw, ..v })
}

impl VImg {
    fn build(&self) -> Result<(VobSubIndexedImage, Vec<u8>), String> {
        let n = usize::from(self.w) * usize::from(self.h);
        // a step that is no divisor of the width, so that lines differ
        let raw: Vec<u8> = (0..n).map(|i| self.raw[(i + i / 7) % self.raw.len()] & 3).collect();
        let area = Area::try_from(AreaValues { x1: self.x, y1: self.y, x2: self.x + self.w - 1, y2: self.y + self.h - 1 })
            .map_err(|e| format!("area rejected: {e:?}"))?;
        let img = VobSubIndexedImage::new(area, self.palette, self.alpha, raw.clone());
        ensure!(img.area() == area, "the image's area is {:?} instead of {area:?}", img.area());
        ensure!(
            (img.width(), img.height()) == (u32::from(self.w), u32::from(self.h)),
            "the image's size is {}x{} instead of {}x{}",
            img.width(),
            img.height(),
            self.w,
            self.h
        );
        ensure!(img.palette() == &self.palette && img.alpha() == &self.alpha && img.raw_image() == raw, "the image's parts differ from the given ones");
        Ok((img, raw))
    }
    fn rgb(&self) -> [Rgb<u8>; 16] {
        std::array::from_fn(|i| Rgb(self.colours[i % self.colours.len()]))
    }
}

fn same<P>(name: &str, img: &ImageBuffer<P, Vec<u8>>, w: u32, h: u32, want: impl Fn(u32, u32) -> P) -> Result<(), String>
where
    P: Pixel<Subpixel = u8> + Debug + PartialEq,
{
    ensure!((img.width(), img.height()) == (w, h), "{name}: size {}x{} instead of {w}x{h}", img.width(), img.height());
    for y in 0..h {
        for x in 0..w {
            let e = want(x, y);
            ensure!(*img.get_pixel(x, y) == e, "{name}: pixel ({x}, {y}): expected {e:?}, got {:?}", img.get_pixel(x, y));
        }
    }
    Ok(())
}

fn render<I: Clone, P>(name: &str, v: &VImg, img: &VobSubIndexedImage, raw: &[u8], pal: &[I; 16], f: fn(I, u8) -> P) -> Result<(), String>
where
    P: Pixel<Subpixel = u8> + Debug + PartialEq,
{
    let out = no_panic(|| VobSubToImage::new(img, pal, f).to_image())?;
    let w = u32::from(v.w);
    same(name, &out, w, u32::from(v.h), |x, y| {
        let c = usize::from(raw[(y * w + x) as usize]);
        f(pal[usize::from(v.palette[c])].clone(), v.alpha[c])
    })
}

fn c11(c: &Ctx) {
    let test = |v: &VImg, o: &mut Obs| {
        let (img, raw) = v.build()?;
        let rgb = v.rgb();
        // the ready-made conversion, against its description
        let out = no_panic(|| VobSubToImage::new(&img, &rgb, conv_to_rgba).to_image())?;
        let w = u32::from(v.w);
        same("conv_to_rgba", &out, w, u32::from(v.h), |x, y| {
            let k = usize::from(raw[(y * w + x) as usize]);
            let [r, g, b] = rgb[usize::from(v.palette[k])].0;
            Rgba([r, g, b, v.alpha[k]])
        })?;
        // palette entries that identify themselves
        let tags: [u16; 16] = std::array::from_fn(|i| i as u16 * 0x1111 ^ 0x00F0);
        render("tag to RGBA", v, &img, &raw, &tags, |t, a| Rgba([(t >> 8) as u8, t as u8, a, !a]))?;
        render("tag to luma", v, &img, &raw, &tags, |t, a| Luma([(t as u8 & 0xF0) | a]))?;
        let names: [String; 16] = std::array::from_fn(|i| format!("colour {i}"));
        render("name to luma and alpha", v, &img, &raw, &names, |s: String, a| LumaA([s.bytes().fold(0, u8::wrapping_add), a.wrapping_mul(16)]))?;
        render("RGB unchanged", v, &img, &raw, &rgb, |p, _| p)?;
        let luma = palette_rgb_to_luminance(&rgb);
        render("luminance", v, &img, &raw, &luma, |l: Luma<u8>, a| LumaA([l.0[0], a * 17]))?;
        let used: std::collections::BTreeSet<u8> = raw.iter().copied().collect();
        o.label_if(used.len() == 4, "all four colour values");
        o.label_if(raw.len() > 65_536, "over 65536 pixels");
        o.nontrivial_if(used.iter().map(|k| v.palette[usize::from(*k)]).collect::<std::collections::BTreeSet<_>>().len() > 1);
        Ok(())
    };
    c.search("images", 360_000, 1_500_000, vimg, test);
    c.search("large_images", 900, 20_000, large_vimg, test);
    c.enumerate(
        "conv_to_rgba",
        false,
        (0..=255u8).flat_map(|a| (0..=255u8).map(move |b| (a, b))),
        |&(a, b): &(u8, u8), o: &mut Obs| {
            o.nontrivial();
            for p in [[a, b, 3], [b, 3, a], [3, a, b]] {
                for al in [0, 1, 15, a, b] {
                    let got = conv_to_rgba(Rgb(p), al);
                    ensure!(got == Rgba([p[0], p[1], p[2], al]), "{p:?} with alpha {al} gives {got:?}");
                }
            }
            Ok(())
        },
    );
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Opt {
    border: u32,
    text: u8,
    background: u8,
}

fn opt() -> impl Strategy<Value = Opt> {
    (
        prop_oneof![10 => num(0u32..9), 2 => num(9u32..60), 1 => prop::sample::select(vec![0u32, 255, 256])],
        prop_oneof![1 => Just(0u8), 2 => any8()],
        prop_oneof![1 => Just(255u8), 2 => any8()],
    )
        .prop_map(|(border, text, background)| Opt { border, text, background })
}

/// Options with a border wider than any picture needs.
fn wide() -> impl Strategy<Value = Opt> {
    let border = prop_oneof![3 => num(60u32..1200), 1 => num(1200u32..2200), 1 => prop::sample::select(vec![511u32, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049])];
    (border, opt()).prop_map(|(border, o)| Opt { border, ..o })
}

impl Opt {
    fn get(&self) -> ToOcrImageOpt {
        ToOcrImageOpt { border: self.border, text_color: Luma([self.text]), background_color: Luma([self.background]) }
    }
    fn inside(&self, x: u32, y: u32, w: u32, h: u32) -> Option<(u32, u32)> {
        let (x, y) = (x.checked_sub(self.border)?, y.checked_sub(self.border)?);
        (x < w && y < h).then_some((x, y))
    }
}

fn c12(c: &Ctx) {
    let test = |(v, p): &(VImg, Opt), o: &mut Obs| {
        let (img, raw) = v.build()?;
        let rgb = v.rgb();
        let luma = palette_rgb_to_luminance(&rgb);
        // a luminance palette of its own too, with many zeros
        let own: [Luma<u8>; 16] = std::array::from_fn(|i| Luma([rgb[i].0[0] & rgb[i].0[1] & 0x81]));
        let (w, h) = (u32::from(v.w), u32::from(v.h));
        let mut seen = [false; 2];
        for pal in [&luma, &own] {
            let out = no_panic(|| VobSubOcrImage::new(&img, pal).image(&p.get()))?;
            let text: [bool; 4] = std::array::from_fn(|k| v.alpha[k] > 0 && pal[usize::from(v.palette[k])].0[0] > 0);
            for r in &raw {
                seen[usize::from(text[usize::from(*r)])] = true;
            }
            same("OCR image", &out, w + 2 * p.border, h + 2 * p.border, |x, y| {
                Luma([match p.inside(x, y, w, h) {
                    Some((x, y)) if text[usize::from(raw[(y * w + x) as usize])] => p.text,
                    _ => p.background,
                }])
            })?;
        }
        o.label_if(p.border == 0, "no border");
        o.nontrivial_if(seen[0] && seen[1] && p.border > 0);
        Ok(())
    };
    c.search("vobsub", 60_000, 1_500_000, || (vimg(), opt()), test);
    c.search("vobsub_large", 1200, 20_000, || (large_vimg(), opt()), test);
    c.search("vobsub_wide_borders", 60, 900, || (vimg(), wide()), test);
    let test = |(h, p, t): &(HObj, Opt, [u8; 2]), o: &mut Obs| {
        if h.total() > PIXEL_CAP {
            return Ok(());
        }
        let px = h.expected(h.total());
        let (w, ht) = (u32::from(h.w), u32::from(h.h));
        let [a, b] = *t;
        let conv = move |l: LumaA<u8>| Luma([l.0[0].wrapping_mul(3) ^ l.0[1].rotate_left(2) ^ a]);
        h.with_image(|img| {
            let out = RleToImage::new(img, conv).image(&p.get());
            same("OCR image", &out, w + 2 * p.border, ht + 2 * p.border, |x, y| match p.inside(x, y, w, ht) {
                Some((x, y)) => {
                    let q = px[(y * w + x) as usize];
                    conv(LumaA([q.0, q.1]))
                }
                None => Luma([p.background]),
            })?;
            // with the threshold conversions, as an OCR user would
            let thr = luma_a_to_luma_convertor(a, b);
            let out = RleToImage::new(img, |l: LumaA<u8>| thr(l)).image(&p.get());
            same("thresholded OCR image", &out, w + 2 * p.border, ht + 2 * p.border, |x, y| match p.inside(x, y, w, ht) {
                Some((x, y)) => {
                    let q = px[(y * w + x) as usize];
                    Luma([if q.1 >= a && q.0 >= b { 0 } else { 255 }])
                }
                None => Luma([p.background]),
            })
        })?;
        o.nontrivial_if(p.border > 0 && px.iter().any(|q| *q != px[0]));
        Ok(())
    };
    c.search("pgs", 60_000, 1_500_000, || (hobj(), opt(), prop::array::uniform2(any8())), test);
    c.search("pgs_large", 900, 20_000, || (large_hobj(), opt(), prop::array::uniform2(any8())), test);
    c.search("pgs_wide_borders", 60, 900, || (hobj(), wide(), prop::array::uniform2(any8())), test);
    c.search("luminance", 300_000, 6_000_000, || prop::collection::vec(prop::array::uniform3(any8()), 16), |v: &Vec<[u8; 3]>, o: &mut Obs| {
        let pal: [Rgb<u8>; 16] = std::array::from_fn(|i| Rgb(v[i]));
        let l = no_panic(|| palette_rgb_to_luminance(&pal))?;
        for i in 0..16 {
            let (lo, hi) = (*v[i].iter().min().unwrap(), *v[i].iter().max().unwrap());
            ensure!((lo..=hi).contains(&l[i].0[0]), "luminance of {:?} is {}", v[i], l[i].0[0]);
        }
        o.nontrivial();
        Ok(())
    });
    c.enumerate("greys", true, (0..=255u8).step_by(1), |&g: &u8, o: &mut Obs| {
        let pal: [Rgb<u8>; 16] = std::array::from_fn(|i| Rgb([g.wrapping_add(i as u8 * 16); 3]));
        let l = palette_rgb_to_luminance(&pal);
        for i in 0..16 {
            ensure!(l[i].0[0] == pal[i].0[0], "grey {} has luminance {}", pal[i].0[0], l[i].0[0]);
        }
        o.nontrivial();
        Ok(())
    });
    c.enumerate("default_options", true, [()].into_iter(), |&(): &(), o: &mut Obs| {
        let d = ToOcrImageOpt::default();
        o.nontrivial();
        ensure!(d.text_color == Luma([0]) && d.background_color == Luma([255]), "default colours are {d:?}");
        Ok(())
    });
}

// ------------------------------------------------------------------ C21

fn c21(c: &Ctx) {
    let test = |(h, key): &(HObj, u32), o: &mut Obs| {
        if h.total() > PIXEL_CAP {
            return Ok(());
        }
        let px: Vec<Px> = h.expected(h.total());
        let (w, ht) = (u32::from(h.w), u32::from(h.h));
        let k = key.to_be_bytes();
        let at = |x: u32, y: u32| {
            let q = px[(y * w + x) as usize];
            LumaA([q.0, q.1])
        };
        h.with_image(|img| {
            let f = |p: LumaA<u8>| Luma([p.0[0].wrapping_add(p.0[1].wrapping_mul(k[0] | 1))]);
            same("one channel", &RleToImage::new(img, f).to_image(), w, ht, |x, y| f(at(x, y)))?;
            let f = |p: LumaA<u8>| LumaA([p.0[1] ^ k[1], p.0[0]]);
            same("two channels", &RleToImage::new(img, f).to_image(), w, ht, |x, y| f(at(x, y)))?;
            let f = |p: LumaA<u8>| Rgb([p.0[0], p.0[1], k[2]]);
            same("three channels", &RleToImage::new(img, f).to_image(), w, ht, |x, y| f(at(x, y)))?;
            let f = |p: LumaA<u8>| Rgba([k[3], p.0[0], !p.0[1], p.0[1]]);
            same("four channels", &RleToImage::new(img, f).to_image(), w, ht, |x, y| f(at(x, y)))?;
            let id = |p: LumaA<u8>| p;
            same("unchanged", &RleToImage::new(img, id).to_image(), w, ht, at)
        })?;
        o.label_if(h.total() == 0, "empty image");
        o.nontrivial_if(px.iter().any(|q| *q != px[0]));
        Ok(())
    };
    c.search("arbitrary_data", 240_000, 1_500_000, || (hobj(), any32()), test);
    c.search(
        "valid_data",
        320_000,
        1_500_000,
        || {
            (small_psub_r(), any32()).prop_map(|(r, k)| {
                let s = realise(&r);
                (HObj { w: s.item.w as u16, h: s.item.h as u16, palette: s.palette, data: s.data, split: r.split }, k)
            })
        },
        test,
    );
    c.search("large_data", 600, 15_000, || (large_hobj(), any32()), test);
}

// ------------------------------------------------------------------ C22

fn thresholds<P, const A: u8, const L: u8>(px: &[(P, P)], o: &mut Obs) -> Result<(), String>
where
    P: Primitive + Debug,
{
    let (a, l) = (P::from(A).unwrap(), P::from(L).unwrap());
    let run = luma_a_to_luma_convertor::<P, LumaA<P>>(a, l);
    for &(lum, alpha) in px {
        let p = LumaA([lum, alpha]);
        let run_ref = luma_a_to_luma_convertor::<P, &LumaA<P>>(a, l);
        let black = alpha >= a && lum >= l;
        let want = if black { P::DEFAULT_MIN_VALUE } else { P::DEFAULT_MAX_VALUE };
        let got = [
            luma_a_to_luma::<LumaA<P>, P, A, L>(p).0[0],
            luma_a_to_luma::<&LumaA<P>, P, A, L>(&p).0[0],
            run(p).0[0],
            run_ref(&p).0[0],
        ];
        ensure!(
            got.iter().all(|g| *g == want),
            "luminance {lum:?}, alpha {alpha:?}, thresholds alpha {A}, luminance {L}: expected {want:?}, got {got:?} (constant by value, by reference, run-time by value, by reference)"
        );
        o.nontrivial_if(lum == l || alpha == a || (alpha >= a) != (lum >= l));
    }
    Ok(())
}

macro_rules! grid {
    ($p:ty, $px:expr, $o:expr, [$($a:literal)*]) => { $( grid!(@row $p, $px, $o, $a, [0 1 2 100 127 128 129 254 255]); )* };
    (@row $p:ty, $px:expr, $o:expr, $a:literal, [$($l:literal)*]) => { $( thresholds::<$p, $a, $l>($px, $o)?; )* };
}

fn runtime<P: Primitive + Debug>(lum: P, alpha: P, at: P, lt: P, min: P, max: P, o: &mut Obs) -> Result<(), String> {
    let p = LumaA([lum, alpha]);
    let want = if alpha >= at && lum >= lt { min } else { max };
    let got = [
        luma_a_to_luma_convertor::<P, LumaA<P>>(at, lt)(p).0[0],
        luma_a_to_luma_convertor::<P, &LumaA<P>>(at, lt)(&p).0[0],
    ];
    ensure!(
        got.iter().all(|g| *g == want),
        "luminance {lum:?}, alpha {alpha:?}, thresholds alpha {at:?}, luminance {lt:?}: expected {want:?}, got {got:?}"
    );
    o.nontrivial_if(lum == lt || alpha == at || (alpha >= at) != (lum >= lt));
    Ok(())
}

fn c22(c: &Ctx) {
    // every 8-bit pixel for each pair of compile-time thresholds of the grid
    c.enumerate("constant_u8", true, 0..=255u8, |&lum: &u8, o: &mut Obs| {
        let px: Vec<(u8, u8)> = (0..=255).map(|a| (lum, a)).collect();
        grid!(u8, &px, o, [0 1 2 100 127 128 129 254 255]);
        Ok(())
    });
    let v16 = || prop_oneof![2 => any16(), 3 => num(0u16..260), 1 => prop::sample::select(vec![0u16, 127, 128, 255, 256, 257, 65_535])];
    c.search("constant_wide", 120_000, 400_000, move || prop::collection::vec((v16(), v16()), 1..12), |v: &Vec<(u16, u16)>, o: &mut Obs| {
        grid!(u16, v, o, [0 1 128 255]);
        let w: Vec<(u32, u32)> = v.iter().map(|p| (u32::from(p.0), u32::from(p.1))).collect();
        grid!(u32, &w, o, [0 1 128 255]);
        let f: Vec<(f32, f32)> = v.iter().map(|p| (f32::from(p.0) / 2.0, f32::from(p.1) / 2.0)).collect();
        grid!(f32, &f, o, [0 1 128 255]);
        Ok(())
    });
    let step = if c.tier == Tier::Quick { 3 } else { 1 };
    // every luminance and threshold, with alphas around their threshold
    c.enumerate(
        "runtime_u8",
        false,
        (0..=255u8).step_by(step).flat_map(|l| (0..=255u8).map(move |t| (l, t))),
        |&(l, t): &(u8, u8), o: &mut Obs| {
            for (a, at) in [(0u8, 0u8), (0, 1), (1, 1), (127, 128), (128, 128), (255, 255), (254, 255), (255, 0), (l, t), (t, l)] {
                runtime(l, a, at, t, 0, 255, o)?;
                runtime(a, l, t, at, 0, 255, o)?;
            }
            Ok(())
        },
    );
    c.search(
        "runtime_all",
        1_800_000,
        6_000_000,
        move || (prop::array::uniform4(any64()), num(0u8..16)),
        |(v, tie): &([u64; 4], u8), o: &mut Obs| {
            // sometimes make components equal to their threshold
            let mut v = *v;
            if tie & 1 != 0 {
                v[0] = v[3];
            }
            if tie & 2 != 0 {
                v[1] = v[2];
            }
            let u = v.map(|x| x as u16);
            runtime(u[0], u[1], u[2], u[3], 0, u16::MAX, o)?;
            let u = v.map(|x| x as u8);
            runtime(u[0], u[1], u[2], u[3], 0, u8::MAX, o)?;
            let u = v.map(|x| x as u32);
            runtime(u[0], u[1], u[2], u[3], 0, u32::MAX, o)?;
            runtime(v[0], v[1], v[2], v[3], 0, u64::MAX, o)?;
            // any bit pattern: infinities and non-numbers too
            let f = v.map(|x| f32::from_bits((x >> 16) as u32));
            runtime(f[0], f[1], f[2], f[3], 0.0, 1.0, o)?;
            let f = v.map(|x| (x as u8 as f32) / 255.0);
            runtime(f[0], f[1], f[2], f[3], 0.0, 1.0, o)?;
            let f = v.map(f64::from_bits);
            runtime(f[0], f[1], f[2], f[3], 0.0, 1.0, o)?;
            let f = v.map(|x| [f32::NAN, 0.0, -0.0, 0.5, 1.0, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE][(x >> 8) as usize % 8]);
            runtime(f[0], f[1], f[2], f[3], 0.0, 1.0, o)
        },
    );
}

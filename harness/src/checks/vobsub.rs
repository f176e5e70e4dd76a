//! C01 - C06: VobSub streams.

use crate::dict::{any16, any32, any64, any8, num};
use super::Check;
use crate::ensure;
use crate::fw::{Ctx, Obs};
use crate::mutate::{self, muts, Mut};
use crate::vob::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

const MODEL: &[&str] = &[
    "the harness' encoder of DVD subtitle packets and MPEG-2 packs follows the published formats",
    "streams are given as files in a scratch directory, the only public way in",
];

pub fn checks() -> Vec<Check> {
    checks![
        "C01": Check { id: "C01", rule: "byte soups, mutated and truncated valid streams, hostile packets in valid framing, arbitrary control chains, pieces of streams repeated many times; non-trivial: the stream yields at least one item (subtitle or error)", assumptions: &["termination is judged by a deterministic budget on log records and items; a run beyond the wall-clock limit is an error of the check, not a verdict"], run: c01 },
        "C02": Check { id: "C02", rule: "1 to 4 (many: up to hundreds, multitudes: over 65536) valid subtitles with random geometry, palettes and run-length lines, encoded plainly and as densely as the format allows, nearly the same ones one after another, plus every run length of every colour; non-trivial: some line has several runs", assumptions: MODEL, run: c02 },
        "C03": Check { id: "C03", rule: "valid subtitles carried by random fragmentation, pack and packet headers, junk between packets and surplus bytes, also in packets, fragments and stretches of junk by the ten thousand, compared with the model and with plain packaging; non-trivial: several fragments, junk, stuffing or surplus present", assumptions: MODEL, run: c03 },
        "C04": Check { id: "C04", rule: "33-bit time stamps times start and stop dates, in the smallest and in arbitrary subtitles; non-trivial: pts and a date are both non-zero, or the stop date is absent", assumptions: MODEL, run: c04 },
        "C05": Check { id: "C05", rule: "arbitrary chains of control sequences with arbitrary commands, well formed, with bytes bent anywhere, with control data at the very start of the packet, and with thousands of sequences and commands, judged by an interpreter of the rules; non-trivial: at least two sequences or an error expected", assumptions: MODEL, run: c05 },
        "C06": Check { id: "C06", rule: "streams of 2 to 8 (crowds: thousands of) subtitles, some damaged in one of 14 ways or by bytes bent in them; non-trivial: a damaged one has a valid neighbour", assumptions: MODEL, run: c06 },
    ]
}

// ------------------------------------------------------------------ C01

fn clean(bytes: &[u8], o: &mut Obs, format: bool) -> Result<(), String> {
    let items = decode_opt(bytes, format)?;
    for i in &items {
        match i {
            Ok(i) => {
                well_formed(i)?;
                o.label("subtitle");
            }
            Err(k) => o.label(k),
        }
    }
    o.nontrivial_if(!items.is_empty());
    Ok(())
}

pub fn token_soup() -> impl Strategy<Value = Vec<u8>> {
    let tok = prop_oneof![
        4 => Just(vec![0u8, 0, 1, 0xBA]),
        3 => Just(vec![0u8, 0, 1, 0xBD]),
        // a whole well-formed pack header
        6 => any64().prop_map(|s| {
            let mut f = plain_frag();
            f.scr = s;
            f.stuffing = (s >> 40) as u8 & 7;
            let mut v = vec![];
            pack_header(&f, &mut v);
            v
        }),
        // a well-formed packet with arbitrary data
        6 => (prop::option::weighted(0.8, pts33()), prop::collection::vec(any8(), 0..40)).prop_map(|(p, d)| {
            let mut v = vec![];
            pack_header(&plain_frag(), &mut v);
            pes(&plain_frag(), p, None, 0x20, &d, &mut v);
            v
        }),
        3 => prop::collection::vec(any8(), 0..20),
        2 => filler(30),
        1 => Just(vec![0u8; 4]),
        1 => any16().prop_map(|v| v.to_be_bytes().to_vec()),
    ];
    prop::collection::vec(tok, 0..12).prop_map(|v| v.concat())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct MutR {
    pub subs: Vec<(SubR, Vec<FragR>)>,
    pub muts: Vec<Mut>,
    pub cut: Option<u32>,
    /// mutate the subtitle packet rather than the stream
    pub inside: bool,
}

impl MutR {
    pub fn bytes(&self) -> Vec<u8> {
        let mut out = vec![];
        for (i, (s, f)) in self.subs.iter().enumerate() {
            let (_, mut p, _) = realise(s);
            if self.inside && i == 0 {
                p = mutate::apply(p, &self.muts);
                p.truncate(65_000);
            }
            transport(&p, s.pts, 0x20, f, &[], &mut out);
        }
        if !self.inside {
            out = mutate::apply(out, &self.muts);
        }
        if let Some(c) = self.cut {
            out.truncate(c as usize % (out.len() + 1));
        }
        out
    }
}

pub fn mut_r() -> impl Strategy<Value = MutR> {
    (
        prop::collection::vec((small_sub_r(), prop::collection::vec(frag_r(), 0..4)), 1..4),
        muts(8),
        prop::option::weighted(0.2, any32()),
        any::<bool>(),
    )
        .prop_map(|(subs, muts, cut, inside)| MutR { subs, muts, cut, inside })
}

/// A packet with valid framing and control data around hostile image data and
/// geometry.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct HostileR {
    pub data: Vec<u8>,
    pub area: (u16, u16, u16, u16),
    pub offsets: (u16, u16),
    pub big: bool,
}

impl HostileR {
    pub fn bytes(&self) -> Vec<u8> {
        let (x1, x2, y1, y2) = self.area;
        let cap = |v: u16| if self.big { v & 0xFFF } else { v & 0x3F };
        let len = self.data.len() as u16 + 8;
        let seq = Seq {
            date: 0,
            cmds: vec![
                Cmd::Start,
                Cmd::Palette([0, 1, 2, 3]),
                Cmd::Alpha([15, 15, 15, 0]),
                Cmd::Coords(cap(x1), cap(x2), cap(y1), cap(y2)),
                Cmd::Offsets(self.offsets.0 % len, self.offsets.1 % len),
            ],
            gap: 0,
        };
        let p = assemble(&self.data, &[seq], 0);
        plain_stream(&[(p, 90_000)])
    }
}

pub fn hostile_r() -> impl Strategy<Value = HostileR> {
    (
        prop::collection::vec(prop_oneof![any8(), Just(0u8), num(0u8..16)], 0..200),
        (any16(), any16(), any16(), any16()),
        (any16(), any16()),
        prop::bool::weighted(0.02),
    )
        .prop_map(|(data, (a, b, c, d), (o0, o1), big)| HostileR {
            data,
            // mostly well ordered
            area: (a.min(b), a.max(b), c.min(d), c.max(d)),
            offsets: (o0.min(o1), o0.max(o1)),
            big,
        })
}

fn c01(c: &Ctx) {
    c.search("soup", 60_000, 1_500_000, token_soup, |b: &Vec<u8>, o| clean(b, o, true));
    // thousands of the same things
    c.search(
        "repeated",
        1_500,
        30_000,
        || (token_soup(), token_soup(), num(1u16..6000), token_soup()),
        |(before, b, n, after): &(Vec<u8>, Vec<u8>, u16, Vec<u8>), o| {
            let n = usize::from(*n).min(200_000 / b.len().max(1));
            let b = [before.clone(), b.repeat(n), after.clone()].concat();
            o.label_if(start_codes(&b) > 1000, "over 1000 start codes");
            clean(&b, o, false)
        },
    );
    c.search("bytes", 20_000, 500_000, || prop::collection::vec(any8(), 0..300), |b: &Vec<u8>, o| {
        clean(b, o, false)
    });
    c.search("mutated", 60_000, 1_500_000, mut_r, |m: &MutR, o| {
        let b = m.bytes();
        o.label_if(m.cut.is_some(), "cut");
        clean(&b, o, m.muts.len() % 4 == 0)
    });
    c.search("hostile_image", 60_000, 1_500_000, hostile_r, |h: &HostileR, o| clean(&h.bytes(), o, false));
    c.search("hostile_control", 60_000, 1_500_000, chain_r, |r: &ChainR, o| {
        clean(&plain_stream(&[(r.packet(), r.pts)]), o, true)
    });
}

// ------------------------------------------------------------------ C02

fn expected(subs: &[SubR]) -> (Vec<Option<VItem>>, Vec<(Vec<u8>, u64)>) {
    let mut e = vec![];
    let mut p = vec![];
    for s in subs {
        let (i, b, _) = realise(s);
        e.push(Some(i));
        p.push((b, s.pts));
    }
    (e, p)
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct RunCase {
    n: u16,
    c: u8,
    first: bool,
    long: bool,
}

fn c02(c: &Ctx) {
    let test = |subs: &Vec<SubR>, o: &mut Obs| {
        let (e, p) = expected(subs);
        for s in subs {
            let img = realise_image(&s.img);
            o.nontrivial_if(s.img.lines.iter().any(|l| l.len() > 1));
            o.label_if(img.codes & 1 != 0, "1-nibble code");
            o.label_if(img.codes & 2 != 0, "2-nibble code");
            o.label_if(img.codes & 4 != 0, "3-nibble code");
            o.label_if(img.codes & 8 != 0, "4-nibble code");
            o.label_if(img.codes & 16 != 0, "fill code");
            o.label_if(s.img.share, "shared field");
            o.label_if(s.overlap & 1 != 0, "overlapping fields");
            o.label_if(s.overlap >> 1 != 0, "image ending in the control data");
            o.label_if(img.area.3 % 2 == 1, "odd height");
            o.label_if(img.area.2 >= 720, "wide");
            o.label_if(img.area.3 >= 300, "tall");
            o.label_if(img.data.len() > 0x7FFF, "image data over 32 KiB");
        }
        compare_opt(&e, &decode(&plain_stream(&p))?, false)
    };
    c.enumerate(
        "every_run",
        true,
        (1..=255u16).flat_map(|n| {
            (0..4u8).flat_map(move |c| {
                [true, false]
                    .into_iter()
                    .flat_map(move |first| [false, true].into_iter().map(move |long| RunCase { n, c, first, long }))
            })
        }),
        |r: &RunCase, o: &mut Obs| {
            o.nontrivial();
            // the run alone, then the run followed or preceded by a run of another colour
            let w = usize::from(r.n) + 3;
            let d = r.c ^ 1;
            let way = if r.long { LONGEST } else { SHORTEST };
            let line = if r.first {
                vec![(r.c, usize::from(r.n), way), (d, 3, SHORTEST)]
            } else {
                vec![(d, 3, SHORTEST), (r.c, usize::from(r.n), way)]
            };
            let other = vec![(r.c, w, FILL)];
            let (a, _) = encode_line(&line);
            let (b, _) = encode_line(&other);
            let mut pixels: Vec<u8> = line.iter().flat_map(|(c, n, _)| std::iter::repeat(*c).take(*n)).collect();
            pixels.extend(std::iter::repeat(r.c).take(w));
            let data = [a.clone(), b].concat();
            let seq = Seq {
                date: 0,
                cmds: vec![
                    Cmd::Start,
                    Cmd::Palette([1, 2, 3, 4]),
                    Cmd::Alpha([5, 6, 7, 8]),
                    Cmd::Coords(0, w as u16 - 1, 0, 1),
                    Cmd::Offsets(4, 4 + a.len() as u16),
                ],
                gap: 0,
            };
            let item = VItem {
                start: 0,
                end: 5000,
                area: (0, 0, w as u32, 2),
                palette: [1, 2, 3, 4],
                alpha: [5, 6, 7, 8],
                pixels,
            };
            compare_opt(
                &[Some(item)],
                &decode(&plain_stream(&[(assemble(&data, &[seq], 0), 0)]))?,
                false,
            )
        },
    );
    c.search("streams", 48_000, 500_000, || prop::collection::vec(sub_r(), 1..4), test);
    c.search("small", 160_000, 1_500_000, || prop::collection::vec(small_sub_r(), 1..5), test);
    // nearly the same image again and again
    c.search("near", 30_000, 700_000, near_subs, |(first, changes): &(SubR, Vec<(Tweak, bool)>), o: &mut Obs| test(&near(first, changes, SubR::tweaked), o));
    c.search("dense", 600, 30_000, || prop::collection::vec(sub_r_with(dense_img_r()), 1..3), test);
    c.search("many", 300, 6_000, || prop::collection::vec(small_sub_r(), 20..300), test);
    // a few subtitles over and over, past what 16 bits count
    c.search(
        "multitudes",
        4,
        60,
        || (prop::collection::vec(tiny_sub_r(), 1..6), num(66_000u32..80_000)),
        |(subs, n): &(Vec<SubR>, u32), o| {
            o.nontrivial();
            let n = *n as usize;
            let (e, bytes) = multitude(subs, n);
            let got = decode(&bytes)?;
            ensure!(got.len() == n, "{n} subtitles give {} items", got.len());
            for (i, g) in got.iter().enumerate() {
                compare_opt(&[Some(e[i % e.len()].clone())], std::slice::from_ref(g), false)
                    .map_err(|d| format!("subtitle {i}: {d}"))?;
            }
            Ok(())
        },
    );
}

/// Subtitles of which tens of thousands can be kept.
pub fn tiny_sub_r() -> impl Strategy<Value = SubR> {
    small_sub_r().prop_map(|mut s| {
        s.img.w = 2 + s.img.w % 15;
        s.img.h = 2 + s.img.h % 7;
        s.fit = None;
        s
    })
}

/// `n` subtitles, the given ones in turn.
pub fn multitude(subs: &[SubR], n: usize) -> (Vec<VItem>, Vec<u8>) {
    let (e, p) = expected(subs);
    let e: Vec<VItem> = e.into_iter().flatten().collect();
    let one: Vec<Vec<u8>> = p.iter().map(|p| plain_stream(std::slice::from_ref(p))).collect();
    (e, (0..n).flat_map(|i| one[i % one.len()].iter().copied()).collect())
}

// ------------------------------------------------------------------ C03

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct CarriedR {
    sub: SubR,
    frags: Vec<FragR>,
    surplus: Vec<u8>,
    substream: u8,
}

fn carried(s: impl Strategy<Value = SubR>) -> impl Strategy<Value = CarriedR> {
    (
        s,
        prop::collection::vec(frag_r(), 0..6),
        prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(any8(), 1..50), 1 => filler(40)],
        any8(),
    )
        .prop_map(|(sub, frags, surplus, substream)| CarriedR { sub, frags, surplus, substream })
}

fn c03(c: &Ctx) {
    let test = |(subs, tail): &(Vec<CarriedR>, Vec<u8>), o: &mut Obs| {
        let mut plain = vec![];
        let mut bytes = vec![];
        for s in subs {
            let (_, p, _) = realise(&s.sub);
            transport(&p, s.sub.pts, s.substream, &s.frags, &s.surplus, &mut bytes);
            plain.push((p, s.sub.pts));
            o.nontrivial_if(
                s.frags.len() > 1
                    || !s.surplus.is_empty()
                    || s.frags.iter().any(|f| !f.before.is_empty() || f.stuffing & 7 != 0),
            );
            o.label_if(s.frags.len() > 1, "fragmented");
            o.label_if(s.frags.len() > 8, "many fragments");
            o.label_if(!s.surplus.is_empty(), "surplus");
            for (i, f) in s.frags.iter().enumerate() {
                o.label_if(f.stuffing & 7 != 0, "stuffing");
                o.label_if(f.ts % 3 == 2, "pts+dts");
                for j in &f.before {
                    o.label(match j {
                        Junk::Bytes(_) => "filler",
                        Junk::Long(..) => "long filler",
                        Junk::Padding(_) => "padding",
                        Junk::Video(_) => "other stream",
                        Junk::BadPack(..) => "bad pack",
                        Junk::Foreign(..) if i > 0 => "other substream",
                        Junk::Foreign(..) => "(none)",
                    });
                }
            }
        }
        let mut tail = defuse(tail);
        // nothing that could begin a start code with what precedes it
        tail.insert(0, 0xFF);
        bytes.extend(tail);
        let got = decode(&bytes)?;
        let reference = decode(&plain_stream(&plain))?;
        let e: Vec<Option<VItem>> = reference.into_iter().filter_map(|i| i.ok().map(Some)).collect();
        ensure!(e.len() == subs.len(), "the plainest packaging is not decoded");
        compare(&e, &got).map_err(|d| format!("differs from the plainest packaging: {d}"))
    };
    c.search(
        "small",
        60_000,
        1_500_000,
        || (prop::collection::vec(carried(small_sub_r()), 1..4), filler(20)),
        test,
    );
    c.search("large", 8_000, 200_000, || (prop::collection::vec(carried(sub_r()), 1..3), filler(20)), test);
    // large images in many packets, as on a disc or in smaller ones
    let many = || {
        (carried(sub_r_with(dense_img_r())), prop::collection::vec(frag_r(), 1..5), num(20usize..400), num(0u8..3)).prop_map(|(mut c, base, n, kind)| {
            c.frags = (0..n)
                .map(|i| {
                    let mut f = base[i % base.len()].clone();
                    f.take = match kind {
                        0 => 2025,
                        1 => f.take % 40,
                        _ => f.take.min(2025),
                    };
                    if i % 7 != 0 {
                        f.before.clear();
                    }
                    f
                })
                .collect();
            c
        })
    };
    c.search("many_packets", 600, 30_000, move || (prop::collection::vec(many(), 1..3), filler(20)), test);
    // long streams
    c.search(
        "many_subtitles",
        300,
        6_000,
        || (prop::collection::vec(carried(small_sub_r()), 20..200), filler(20)),
        test,
    );
    // crowds of packets of other streams, malformed packs, stray bytes
    c.search(
        "crowds",
        400,
        8_000,
        || {
            (
                prop::collection::vec(carried(small_sub_r()), 1..4),
                prop_oneof![2 => prop::collection::vec(junk_r(), 1), 1 => prop::collection::vec(junk_r(), 2..4)],
                prop_oneof![4 => num(1u32..3000), 1 => num(1u32..=70_000)],
                any8(),
            )
                .prop_map(|(mut subs, junk, n, at)| {
                    let k = usize::from(at) % subs.len();
                    let s = &mut subs[k];
                    if s.frags.is_empty() {
                        s.frags.push(plain_frag());
                    }
                    let m = s.frags.len();
                    s.frags[usize::from(at) / 7 % m].before = junk;
                    (subs, k as u8, n)
                })
        },
        move |(subs, k, n): &(Vec<CarriedR>, u8, u32), o| {
            let mut subs = subs.clone();
            for f in &mut subs[usize::from(*k)].frags {
                let b = std::mem::take(&mut f.before);
                if b.is_empty() {
                    continue;
                }
                // at most 16 MiB of it
                let size: usize = b.iter().map(junk_size).sum();
                let n = (*n as usize).min((16 << 20) / size.max(1)).max(1);
                o.label_if(n > 1000, "more than 1000 times");
                o.label_if(n > 65_535, "more than 65535 times");
                for _ in 0..n {
                    f.before.extend(b.iter().cloned());
                }
            }
            test(&(subs, vec![]), o)
        },
    );
}

fn junk_size(j: &Junk) -> usize {
    60 + match j {
        Junk::Bytes(b) | Junk::Video(b) | Junk::BadPack(_, b) | Junk::Foreign(_, b) => b.len(),
        Junk::Padding(n) => usize::from(*n),
        Junk::Long(_, n, _) => usize::from(*n),
    }
}

// ------------------------------------------------------------------ C04

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct TimeR {
    pts: u64,
    start: u16,
    stop: Option<u16>,
    later_start: Option<u16>,
    later_stop: Option<u16>,
}

fn c04(c: &Ctx) {
    let date = || prop_oneof![1 => Just(0u16), 2 => num(0u16..1000), 2 => any16(), 1 => Just(u16::MAX)];
    c.search(
        "times",
        1_500_000,
        5_000_000,
        || {
            (
                pts33(),
                date(),
                prop::option::weighted(0.8, date()),
                prop::option::weighted(0.2, date()),
                prop::option::weighted(0.2, date()),
            )
                .prop_map(|(pts, start, stop, later_start, later_stop)| TimeR {
                    pts,
                    start,
                    stop,
                    later_start,
                    later_stop,
                })
        },
        |r: &TimeR, o| {
            o.nontrivial_if((r.pts > 0 && (r.start > 0 || r.stop.is_some())) || r.stop.is_none());
            o.label_if(r.stop.is_none(), "no stop date");
            o.label_if(r.pts % 90 == 0, "whole millisecond stamp");
            o.label_if(r.pts >= 1 << 32, "stamp over 32 bits");
            o.label_if(r.stop.is_some_and(|s| s < r.start), "stop before start");
            let mut seqs = vec![Seq {
                date: r.start,
                cmds: vec![
                    Cmd::Start,
                    Cmd::Palette([0; 4]),
                    Cmd::Alpha([0; 4]),
                    Cmd::Coords(0, 1, 0, 1),
                    Cmd::Offsets(4, 6),
                ],
                gap: 0,
            }];
            let mut push = |date, cmd| seqs.push(Seq { date, cmds: vec![cmd], gap: 0 });
            if let Some(d) = r.later_start {
                push(d, Cmd::Start);
            }
            if let Some(d) = r.stop {
                push(d, Cmd::Stop);
                if let Some(d) = r.later_stop {
                    push(d, Cmd::Stop);
                }
            }
            let p = assemble(&[0, 1, 0, 2], &seqs, 0);
            let start = ms(r.pts, r.start);
            let end = r.stop.map_or(start + 5000, |d| ms(r.pts, d));
            match decode(&plain_stream(&[(p, r.pts)]))?.as_slice() {
                [Ok(i)] => {
                    ensure!(i.start == start, "start: expected {start} ms, got {} ms", i.start);
                    ensure!(i.end == end, "end: expected {end} ms, got {} ms", i.end);
                    Ok(())
                }
                x => Err(format!("expected one subtitle, got {x:?}")),
            }
        },
    );
    // the times of subtitles of any content and form
    let test = |subs: &Vec<SubR>, o: &mut Obs| {
        let (e, p) = expected(subs);
        let got = decode(&plain_stream(&p))?;
        ensure!(got.len() == e.len(), "expected {} subtitles, got {}", e.len(), got.len());
        for (i, (e, g)) in e.iter().zip(&got).enumerate() {
            match (e, g) {
                (Some(e), Ok(g)) => {
                    ensure!(
                        (g.start, g.end) == (e.start, e.end),
                        "subtitle {i}: expected {}..{} ms, got {}..{} ms",
                        e.start,
                        e.end,
                        g.start,
                        g.end
                    );
                    o.nontrivial_if(e.start > 0);
                }
                (_, Err(k)) => return Err(format!("subtitle {i}: error {k}")),
                _ => {}
            }
        }
        Ok(())
    };
    c.search("subtitles", 200_000, 2_000_000, || prop::collection::vec(small_sub_r(), 1..4), test);
    c.search("large_subtitles", 20_000, 200_000, || prop::collection::vec(sub_r(), 1..3), test);
    // in packets of any form: only the first packet's presentation time stamp counts
    c.search("packaged", 60_000, 800_000, || prop::collection::vec(carried(small_sub_r()), 1..4), |subs: &Vec<CarriedR>, o: &mut Obs| {
        let mut bytes = vec![];
        let mut want = vec![];
        for s in subs {
            let (i, p, _) = realise(&s.sub);
            transport(&p, s.sub.pts, s.substream, &s.frags, &s.surplus, &mut bytes);
            want.push((i.start, i.end));
            o.label_if(s.frags.first().is_some_and(|f| f.ts % 3 == 2), "decoding time stamp");
            o.nontrivial_if(!s.frags.is_empty());
        }
        let got = decode(&bytes)?;
        let got: Vec<(i64, i64)> = got.iter().flatten().map(|g| (g.start, g.end)).collect();
        ensure!(got == want, "times in other packaging: expected {want:?}, got {got:?}");
        Ok(())
    });
}

// ------------------------------------------------------------------ C05

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Next {
    Forward,
    SelfEnd,
    Back(u16),
    Beyond(u16),
    /// into the middle of anything
    Anywhere(u16),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct ChainR {
    pub pts: u64,
    /// lines of each field: colour of each
    pub fields: (Vec<u8>, Vec<u8>),
    pub seqs: Vec<(u16, Vec<CmdR>, Next, u8)>,
    /// drop the end mark of the last sequence
    pub unterminated: bool,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum CmdR {
    Force,
    Start,
    Stop,
    Palette([u8; 4]),
    Alpha([u8; 4]),
    /// x, y, width, height of a valid area (height within the lines there are)
    Area(u16, u16, u8, u8),
    BadArea(u16, u16, u8),
    /// line numbers to start from
    Offsets(u8, u8),
    /// any values
    RawOffsets(u16, u16),
    Unknown(u8, Vec<u8>),
}

fn cmd_r() -> impl Strategy<Value = CmdR> {
    prop_oneof![
        1 => Just(CmdR::Force),
        3 => Just(CmdR::Start),
        2 => Just(CmdR::Stop),
        3 => nib4().prop_map(CmdR::Palette),
        3 => nib4().prop_map(CmdR::Alpha),
        3 => (num(0u16..4000), num(0u16..4000), num(2u8..60), any8()).prop_map(|(a, b, c, d)| CmdR::Area(a, b, c, d)),
        3 => (any8(), any8()).prop_map(|(a, b)| CmdR::Offsets(a, b)),
    ]
}

fn odd_cmd_r() -> impl Strategy<Value = CmdR> {
    prop_oneof![
        30 => cmd_r(),
        1 => (num(0u16..4096), num(0u16..4096), any8()).prop_map(|(a, b, c)| CmdR::BadArea(a, b, c)),
        1 => (any16(), any16()).prop_map(|(a, b)| CmdR::RawOffsets(a, b)),
        1 => (num(7u8..0xFF), prop::collection::vec(any8(), 0..6)).prop_map(|(a, b)| CmdR::Unknown(a, b)),
    ]
}

fn full_set() -> impl Strategy<Value = Vec<CmdR>> {
    (
        nib4(),
        nib4(),
        (num(0u16..4000), num(0u16..4000), num(2u8..60), any8()),
        (any8(), any8()),
        prop::option::weighted(0.15, num(0usize..5)),
    )
        .prop_map(|(p, a, (x, y, w, h), (o0, o1), drop)| {
            let mut v = vec![
                CmdR::Start,
                CmdR::Palette(p),
                CmdR::Alpha(a),
                CmdR::Area(x, y, w, h),
                CmdR::Offsets(o0, o1),
            ];
            if let Some(d) = drop {
                v.remove(d);
            }
            v
        })
        .prop_shuffle()
}

pub fn chain_r() -> impl Strategy<Value = ChainR> {
    let next = || {
        prop_oneof![
            30 => Just(Next::Forward),
            2 => Just(Next::SelfEnd),
            1 => any16().prop_map(Next::Back),
            1 => prop_oneof![any16(), num(0u16..4)].prop_map(Next::Beyond),
            1 => any16().prop_map(Next::Anywhere),
        ]
    };
    let seq = move || {
        prop_oneof![
            (any16(), prop::collection::vec(odd_cmd_r(), 0..8), next(), num(0u8..4)),
            (any16(), full_set(), next(), num(0u8..4)),
        ]
    };
    (
        pts33(),
        (prop::collection::vec(num(0u8..4), 1..6), prop::collection::vec(num(0u8..4), 1..6)),
        prop_oneof![
            20 => prop::collection::vec(seq(), 1..5),
            1 => prop::collection::vec(seq(), 5..80).prop_map(|mut v| {
                // long chains which are followed to their end
                v.iter_mut().for_each(|s| s.2 = Next::Forward);
                v
            }),
        ],
        prop::bool::weighted(0.02),
    )
        .prop_map(|(pts, fields, seqs, unterminated)| ChainR { pts, fields, seqs, unterminated })
}

impl ChainR {
    fn lines(&self) -> (usize, usize) {
        (self.fields.0.len(), self.fields.1.len())
    }

    fn cmd(&self, c: &CmdR) -> Cmd {
        let (n0, n1) = self.lines();
        match c {
            CmdR::Force => Cmd::Force,
            CmdR::Start => Cmd::Start,
            CmdR::Stop => Cmd::Stop,
            CmdR::Palette(p) => Cmd::Palette(p.map(|v| v & 15)),
            CmdR::Alpha(p) => Cmd::Alpha(p.map(|v| v & 15)),
            CmdR::Area(x, y, w, h) => {
                let w = u16::from(*w).max(2);
                let h = 2 + u16::from(*h) % (2 * n0.min(n1) as u16).max(2);
                let x = (*x).min(4096 - w);
                let y = (*y).min(4096 - h);
                Cmd::Coords(x, x + w - 1, y, y + h - 1)
            }
            CmdR::BadArea(a, b, k) => {
                let (a, b) = (a & 0xFFF, b & 0xFFF);
                let (lo, hi) = (a.min(b), a.max(b).max(1));
                let lo = lo.min(hi - 1);
                match k % 4 {
                    0 => Cmd::Coords(hi, lo, lo, hi),
                    1 => Cmd::Coords(lo, hi, hi, lo),
                    2 => Cmd::Coords(lo, lo, lo, hi),
                    _ => Cmd::Coords(lo, hi, hi, hi),
                }
            }
            CmdR::Offsets(a, b) => {
                // each line is two bytes long
                let o0 = 4 + 2 * (usize::from(*a) % n0);
                let o1 = 4 + 2 * n0 + 2 * (usize::from(*b) % n1);
                Cmd::Offsets(o0 as u16, o1 as u16)
            }
            CmdR::RawOffsets(a, b) => Cmd::Offsets(*a, *b),
            CmdR::Unknown(t, p) => Cmd::Unknown(*t, p.clone()),
        }
    }

    fn data(&self) -> Vec<u8> {
        self.fields.0.iter().chain(&self.fields.1).flat_map(|c| [0, c & 3]).collect()
    }

    pub fn packet(&self) -> Vec<u8> {
        let data = self.data();
        let n = self.seqs.len();
        let seqs: Vec<Seq> = self
            .seqs
            .iter()
            .map(|(d, c, _, g)| Seq {
                date: *d,
                cmds: c.iter().map(|c| self.cmd(c)).collect(),
                gap: usize::from(*g),
            })
            .collect();
        let mut p = assemble(&data, &seqs, 0);
        let mut o = 4 + data.len();
        for (i, s) in seqs.iter().enumerate() {
            let mut b = vec![];
            for c in &s.cmds {
                encode_cmd(c, &mut b);
            }
            let len = 4 + b.len() + 1 + s.gap;
            let next = match self.seqs[i].2 {
                Next::Forward => {
                    if i + 1 < n {
                        o + len
                    } else {
                        o
                    }
                }
                Next::SelfEnd => o,
                Next::Back(d) => usize::from(d) % o,
                Next::Beyond(d) => {
                    let l = p.len();
                    l + usize::from(d) % (65_536 - l)
                }
                Next::Anywhere(d) => usize::from(d) % p.len(),
            };
            p[o + 2..o + 4].copy_from_slice(&(next as u16).to_be_bytes());
            o += len;
        }
        if self.unterminated {
            while p.last() == Some(&0xFF) {
                p.pop();
            }
            let l = p.len() as u16;
            p[..2].copy_from_slice(&l.to_be_bytes());
        }
        p
    }
}

/// What the rules say of a packet.
#[derive(Debug)]
enum Rules {
    Decodes(Box<VItem>),
    /// the error kinds allowed; empty: any error
    Fails(Vec<&'static str>),
    /// the rules leave it open (a code or a command cut by the end of its data)
    Open,
}

/// The rules, applied to the bytes of a packet of at least four bytes. Returns the
/// number of control sequences followed as well.
fn interpret(packet: &[u8], pts: u64) -> (Rules, usize) {
    let word = |i: usize| u16::from_be_bytes([packet[i], packet[i + 1]]);
    let ctrl = usize::from(word(2));
    let mut errors = vec![];
    let (mut start, mut stop, mut pal, mut alp, mut area, mut off) = (None, None, None, None, None, None);
    let nibbles = |i: usize| {
        let (a, b) = (packet[i], packet[i + 1]);
        [b & 15, b >> 4, a & 15, a >> 4]
    };
    let mut o = ctrl;
    let mut sequences = 0;
    loop {
        if o >= packet.len() {
            errors.push("ControlOffsetBiggerThanPacket");
            break;
        }
        if packet.len() - o < 4 {
            return (Rules::Fails(vec![]), sequences);
        }
        sequences += 1;
        let (date, next) = (word(o), usize::from(word(o + 2)));
        let mut i = o + 4;
        loop {
            let Some(tag) = packet.get(i) else {
                // no end mark
                return (Rules::Fails(vec![]), sequences);
            };
            let params = match tag {
                3 | 4 => 2,
                5 => 6,
                6 => 4,
                _ => 0,
            };
            if i + 1 + params > packet.len() {
                // a command that is cut: an unknown one if an end mark follows
                if packet[i..].contains(&0xFF) {
                    return (Rules::Open, sequences);
                }
                return (Rules::Fails(vec![]), sequences);
            }
            let v = |k: usize| u16::from(packet[i + k]);
            match tag {
                0 => {}
                1 => start = start.or(Some(date)),
                2 => stop = stop.or(Some(date)),
                3 => pal = pal.or(Some(nibbles(i + 1))),
                4 => alp = alp.or(Some(nibbles(i + 1))),
                5 => {
                    let (x1, x2) = (v(1) << 4 | v(2) >> 4, (v(2) & 15) << 8 | v(3));
                    let (y1, y2) = (v(4) << 4 | v(5) >> 4, (v(5) & 15) << 8 | v(6));
                    if x2 <= x1 || y2 <= y1 {
                        errors.push("Content");
                    } else {
                        area = area.or(Some((x1, x2, y1, y2)));
                    }
                }
                6 => off = Some((word(i + 1), word(i + 3))),
                0xFF => break,
                _ => match packet[i..].iter().position(|b| *b == 0xFF) {
                    Some(_) => break,
                    None => return (Rules::Fails(vec![]), sequences),
                },
            }
            i += 1 + params;
        }
        if next == o {
            break;
        }
        if next < o {
            errors.push("ControlOffsetWentBackwards");
            break;
        }
        o = next;
    }
    if !errors.is_empty() {
        return (Rules::Fails(errors), sequences);
    }
    for (missing, k) in [
        (start.is_none(), "Missing:StartTime"),
        (area.is_none(), "Missing:Area"),
        (pal.is_none(), "Missing:Palette"),
        (alp.is_none(), "Missing:AlphaPalette"),
        (off.is_none(), "Missing:RleOffset"),
    ] {
        if missing {
            errors.push(k);
        }
    }
    if let Some((a, b)) = off {
        if a > b || usize::from(b) > ctrl + 2 {
            errors.push("InvalidScanLineOffsets");
        }
    }
    if !errors.is_empty() {
        return (Rules::Fails(errors), sequences);
    }
    let (x1, x2, y1, y2) = area.unwrap();
    let (w, h) = (usize::from(x2 - x1) + 1, usize::from(y2 - y1) + 1);
    let (a, b) = off.unwrap();
    let r = match reference_fields(packet, (a.into(), b.into()), ctrl + 2, w, h) {
        None => Rules::Open,
        Some(Err(())) => Rules::Fails(vec!["Image"]),
        Some(Ok(pixels)) => {
            let st = ms(pts, start.unwrap());
            Rules::Decodes(Box::new(VItem {
                start: st,
                end: stop.map_or(st + 5000, |d| ms(pts, d)),
                area: (x1.into(), y1.into(), w as u32, h as u32),
                palette: pal.unwrap(),
                alpha: alp.unwrap(),
                pixels,
            }))
        }
    };
    (r, sequences)
}

/// Decode a packet and hold the result against the rules.
fn by_the_rules(packet: &[u8], pts: u64, o: &mut Obs) -> Result<(), String> {
    let (want, sequences) = interpret(packet, pts);
    let got = decode(&plain_stream(&[(packet.to_vec(), pts)]))?;
    ensure!(got.len() == 1, "expected one item, got {}", got.len());
    o.nontrivial_if(sequences > 1 || matches!(want, Rules::Fails(_)));
    match (&want, &got[0]) {
        (Rules::Open, g) => {
            o.label("left open by the rules");
            g.as_ref().map_or(Ok(()), well_formed)
        }
        (Rules::Decodes(w), Ok(g)) => {
            o.label("decoded");
            o.label_if(sequences > 1, "decoded, several sequences");
            match w.diff(g) {
                None => Ok(()),
                Some(d) => Err(d),
            }
        }
        (Rules::Decodes(_), Err(k)) => Err(format!("expected to decode, got error {k}")),
        (Rules::Fails(e), Ok(_)) => Err(format!("expected error {e:?}, got a subtitle")),
        (Rules::Fails(e), Err(k)) => {
            o.label(e.first().copied().unwrap_or("control data cut"));
            ensure!(e.is_empty() || e.contains(k), "expected error {e:?}, got {k}");
            Ok(())
        }
    }
}

/// A chain whose control data are mutated bytewise.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct BentChain {
    chain: ChainR,
    muts: Vec<Mut>,
    /// bytes of image data in front, which move the control data beyond 0x7FFF
    far: u16,
}

fn c05(c: &Ctx) {
    c.search("chains", 250_000, 6_000_000, chain_r, |r: &ChainR, o| {
        o.label_if(r.seqs.iter().any(|s| matches!(s.2, Next::Anywhere(_))), "sequence anywhere");
        by_the_rules(&r.packet(), r.pts, o)
    });
    let bent = || {
        (chain_r(), muts(5), prop_oneof![20 => Just(0u16), 1 => num(0u16..60_000)])
            .prop_map(|(chain, muts, far)| BentChain { chain, muts, far })
    };
    c.search("bent_chains", 250_000, 6_000_000, bent, |r: &BentChain, o| {
        let mut r = r.clone();
        // more lines in the second field, up to where the control data should be
        r.chain.fields.1.resize(r.chain.fields.1.len() + usize::from(r.far) / 2, 2);
        let p = r.chain.packet();
        let ctrl = 4 + r.chain.data().len();
        let mut q = p[..ctrl].to_vec();
        q.extend(mutate::apply(p[ctrl..].to_vec(), &r.muts));
        q.truncate(65_000);
        let n = q.len() as u16;
        q[..2].copy_from_slice(&n.to_be_bytes());
        o.label_if(ctrl > 0x7FFF, "control data far away");
        by_the_rules(&q, r.chain.pts, o)
    });
    // control data that begin within the first four bytes, which then serve twice
    let heads = || {
        (
            pts33(),
            num(0u8..4),
            any8(),
            prop_oneof![2 => full_set(), 1 => prop::collection::vec(odd_cmd_r(), 0..8)],
            (prop::bool::weighted(0.8), num(0u8..5), num(0u8..5)),
            num(0u8..40),
        )
            .prop_map(|(pts, ctrl, byte, cmds, offsets, pad)| HeadR { pts, ctrl, byte, cmds, offsets, pad })
    };
    c.search("headless", 60_000, 1_500_000, heads, |r: &HeadR, o| {
        o.label(["control data at 0", "control data at 1", "control data at 2", "control data at 3"][usize::from(r.ctrl & 3)]);
        by_the_rules(&r.packet(), r.pts, o)
    });
    // sequences and commands by the thousand
    let crowded = || {
        (chain_r(), prop_oneof![60 => num(1u16..200).wide(1u16..=9000), 1 => 9000u16..=u16::MAX], any8(), prop::option::weighted(0.6, num(0u8..3)), prop::bool::ANY)
            .prop_map(|(chain, n, at, cmd, inside)| CrowdedChain { chain, n, at, cmd, inside })
    };
    c.search("crowded_chains", 30_000, 600_000, crowded, |r: &CrowdedChain, o| {
        let mut chain = r.chain.clone();
        for s in &mut chain.seqs {
            if !matches!(s.2, Next::SelfEnd) {
                s.2 = Next::Forward;
            }
        }
        let at = usize::from(r.at) % chain.seqs.len();
        let filler = r.cmd.map(|c| match c {
            0 => CmdR::Force,
            1 => CmdR::Start,
            _ => CmdR::Stop,
        });
        // within the 65535 bytes of a packet
        let (room, n) = (65_535 - chain.packet().len(), usize::from(r.n));
        if r.inside {
            let n = n.min(room);
            let k = chain.seqs[at].1.len() / 2;
            chain.seqs[at].1.splice(k..k, std::iter::repeat_n(filler.unwrap_or(CmdR::Force), n));
            o.label_if(n > 255, "more than 255 commands");
        } else {
            let n = n.min(room / 6);
            let d = chain.seqs[at].0;
            let s = (d.wrapping_add(1), filler.into_iter().collect(), Next::Forward, 0);
            chain.seqs.splice(at..at, std::iter::repeat_n(s, n));
            o.label_if(n > 255, "more than 255 sequences");
        }
        by_the_rules(&chain.packet(), chain.pts, o)
    });
}

/// A packet whose control data begin at 0 to 3.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct HeadR {
    pts: u64,
    ctrl: u8,
    byte: u8,
    cmds: Vec<CmdR>,
    /// both fields at the packet's start, or where
    offsets: (bool, u8, u8),
    pad: u8,
}

impl HeadR {
    fn packet(&self) -> Vec<u8> {
        // the size of the packet is a run of pixels: as wide as it is long
        let n = self.with_width(2).len();
        self.with_width((n >> 2 & 0xFF) as u16)
    }

    fn with_width(&self, w: u16) -> Vec<u8> {
        let mut p = vec![0, 0, 0, self.ctrl & 3];
        match self.ctrl & 3 {
            0 => {}
            // the next sequence is at 256 or more
            1 => p.push(self.byte),
            2 => p.extend([0, 2]),
            _ => p.extend([self.byte, 0, 3]),
        }
        for c in &self.cmds {
            let cmd = match c {
                CmdR::Force => Cmd::Force,
                CmdR::Start => Cmd::Start,
                CmdR::Stop => Cmd::Stop,
                CmdR::Palette(v) => Cmd::Palette(v.map(|n| n & 15)),
                CmdR::Alpha(v) => Cmd::Alpha(v.map(|n| n & 15)),
                CmdR::Area(x, y, ..) => {
                    let w = w.max(2);
                    let (x, y) = ((*x).min(4096 - w), (*y).min(4094));
                    Cmd::Coords(x, x + w - 1, y, y + 1)
                }
                CmdR::BadArea(x, y, _) => Cmd::Coords(x & 0xFFF, x & 0xFFF, y & 0xFFF, y & 0xFFF),
                CmdR::Offsets(..) if self.offsets.0 => Cmd::Offsets(0, 0),
                CmdR::Offsets(..) => Cmd::Offsets(self.offsets.1.into(), self.offsets.2.into()),
                CmdR::RawOffsets(a, b) => Cmd::Offsets(*a, *b),
                CmdR::Unknown(t, v) => Cmd::Unknown(*t, v.clone()),
            };
            encode_cmd(&cmd, &mut p);
        }
        p.push(0xFF);
        if self.ctrl & 3 == 1 {
            let at = 256 + usize::from(self.byte);
            p.resize(at.max(p.len()), 0xFF);
            if p.len() == at {
                p.extend([0, self.pad, 1, self.byte, 0xFF]);
            }
        }
        p.extend(vec![0xFF; self.pad.into()]);
        let n = p.len() as u16;
        p[..2].copy_from_slice(&n.to_be_bytes());
        p
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct CrowdedChain {
    chain: ChainR,
    n: u16,
    at: u8,
    cmd: Option<u8>,
    /// the commands in one sequence, or one each in sequences of their own
    inside: bool,
}

// ------------------------------------------------------------------ C06

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct DamagedR {
    sub: SubR,
    damage: Option<(u8, u16)>,
    frags: Vec<FragR>,
    substream: u8,
}

const DAMAGES: u8 = 14;

/// How the pieces of a damaged subtitle are carried.
struct Carrier<'a> {
    frags: &'a [FragR],
    substream: u8,
}

/// The packet pieces of a damaged subtitle, appended to the stream.
fn damaged(s: &SubR, kind: u8, arg: u16, c: &Carrier, out: &mut Vec<u8>) -> &'static str {
    // what is carried by one packet only
    let mut f = c.frags.first().cloned().unwrap_or_else(plain_frag);
    f.before = vec![];
    f.take = u16::MAX;
    let sub = c.substream;
    let (item, packet, img) = realise(s);
    let (x, y, w, h) = item.area;
    let coords = |x1: u32, x2: u32, y1: u32, y2: u32| Cmd::Coords(x1 as u16, x2 as u16, y1 as u16, y2 as u16);
    let good_area = coords(x, x + w - 1, y, y + h - 1);
    let offsets = Cmd::Offsets(img.offsets.0, img.offsets.1);
    let build = |data: &[u8], area: Cmd, off: Cmd, drop: Option<usize>| {
        let mut cmds = vec![Cmd::Start, Cmd::Palette(item.palette), Cmd::Alpha(item.alpha), area, off];
        if let Some(d) = drop {
            cmds.remove(d);
        }
        assemble(data, &[Seq { date: s.start, cmds, gap: 0 }], 0)
    };
    let ctrl = 4 + img.data.len();
    let carry = |p: &[u8], out: &mut Vec<u8>| transport(p, s.pts, sub, c.frags, &[], out);
    match kind % DAMAGES {
        0 => {
            carry(&build(&img.data, good_area, offsets, Some(usize::from(arg) % 5)), out);
            "missing part"
        }
        1 => {
            let a = if arg & 1 == 0 {
                coords(x + w - 1, x, y, y + h - 1)
            } else {
                coords(x, x + w - 1, y, y)
            };
            carry(&build(&img.data, a, offsets, None), out);
            "bad area"
        }
        2 => {
            let o = if arg & 1 == 0 {
                Cmd::Offsets(img.offsets.1 + 1, img.offsets.0)
            } else {
                Cmd::Offsets(img.offsets.0, (ctrl + 3 + usize::from(arg) % 500).min(65_535) as u16)
            };
            carry(&build(&img.data, good_area, o, None), out);
            "bad offsets"
        }
        3 => {
            // chain going back
            let mut p = build(&img.data, good_area, offsets, None);
            let b = arg as usize % ctrl;
            p[ctrl + 2..ctrl + 4].copy_from_slice(&(b as u16).to_be_bytes());
            carry(&p, out);
            "chain backwards"
        }
        4 => {
            let mut p = build(&img.data, good_area, offsets, None);
            let b = (p.len() + arg as usize % 500).min(65_535);
            p[ctrl + 2..ctrl + 4].copy_from_slice(&(b as u16).to_be_bytes());
            carry(&p, out);
            "chain beyond"
        }
        5 => {
            // control data beyond the packet
            let mut p = packet;
            let b = (p.len() + arg as usize % 500).min(65_535);
            p[2..4].copy_from_slice(&(b as u16).to_be_bytes());
            carry(&p, out);
            "control beyond"
        }
        6 => {
            // no end mark
            let mut p = build(&img.data, good_area, offsets, None);
            p.pop();
            let l = p.len() as u16;
            p[..2].copy_from_slice(&l.to_be_bytes());
            // the last byte must not be taken for an end mark either
            if p.last() == Some(&0xFF) {
                *p.last_mut().unwrap() = 0;
            }
            carry(&p, out);
            "no end mark"
        }
        7 => {
            // first line too long: a run of w + 1 .. in a packet of its own data
            let n = (w as usize + 1 + usize::from(arg) % 50).min(250);
            let n = if n <= w as usize { return damaged(s, 8, arg, c, out) } else { n };
            let (mut d, _) = encode_line(&[(1, n, SHORTEST)]);
            let o1 = d.len() + 4;
            d.extend([0, 1].repeat(h as usize));
            carry(&build(&d, good_area, Cmd::Offsets(4, o1 as u16), None), out);
            "line too long"
        }
        8 => {
            // fewer bytes than lines
            let d = [0, 1, 0, 2];
            let tall = coords(0, 3, 0, 40 + u32::from(arg) % 500);
            carry(&build(&d, tall, Cmd::Offsets(4, 6), None), out);
            "image data ends early"
        }
        9 => {
            // declared size too small to hold the offsets
            let mut p = packet;
            let n = arg % 4;
            p.truncate(60_000);
            p[..2].copy_from_slice(&n.to_be_bytes());
            transport(&p, s.pts, sub, std::slice::from_ref(&f), &[], out);
            "size too small"
        }
        10 => {
            pack_header(&f, out);
            pes(&f, Some(s.pts), None, sub, &packet[..usize::from(arg) % 2], out);
            "packet too short"
        }
        11 => {
            pack_header(&f, out);
            pes(&f, None, None, sub, &packet[..packet.len().min(60_000)], out);
            "no time stamp"
        }
        12 => {
            // both fields empty: they start where the data ends
            let end = (ctrl + 2) as u16;
            carry(&build(&img.data, good_area, Cmd::Offsets(end, end), None), out);
            "no image data"
        }
        _ => {
            // control data ends before the first sequence's fields
            let mut p = build(&img.data, good_area, offsets, None);
            let n = ctrl + 1 + usize::from(arg) % 3;
            p.truncate(n);
            p[..2].copy_from_slice(&(n as u16).to_be_bytes());
            carry(&p, out);
            "control data cut"
        }
    }
}

/// A packet whose bytes are mutated, its declared size being kept true.
fn bent(s: &SubR, muts: &[Mut]) -> Vec<u8> {
    let (_, p, _) = realise(s);
    let mut q = vec![0, 0];
    q.extend(mutate::apply(p[2..].to_vec(), muts));
    q.truncate(65_535);
    let n = q.len() as u16;
    q[..2].copy_from_slice(&n.to_be_bytes());
    q
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct MixedR {
    sub: SubR,
    /// an empty list: valid
    muts: Vec<Mut>,
    frags: Vec<FragR>,
    substream: u8,
}

fn c06(c: &Ctx) {
    let some_sub = || prop_oneof![12 => small_sub_r().boxed(), 1 => sub_r().boxed()];
    let one = move || {
        (
            some_sub(),
            prop::option::weighted(0.5, (0..DAMAGES, any16())),
            prop::collection::vec(frag_r(), 0..3),
            prop_oneof![2 => Just(0x20u8), 1 => any8()],
        )
            .prop_map(|(sub, damage, frags, substream)| DamagedR { sub, damage, frags, substream })
    };
    c.search(
        "streams",
        150_000,
        2_500_000,
        move || prop_oneof![60 => prop::collection::vec(one(), 2..8), 1 => prop::collection::vec(one(), 8..60)],
        |subs: &Vec<DamagedR>, o| {
            let mut bytes = vec![];
            let mut e = vec![];
            for s in subs {
                match s.damage {
                    None => {
                        let (_, p, _) = realise(&s.sub);
                        transport(&p, s.sub.pts, s.substream, &s.frags, &[], &mut bytes);
                        e.push(Some(alone(&p, s.sub.pts)?));
                    }
                    Some((k, a)) => {
                        let c = Carrier { frags: &s.frags, substream: s.substream };
                        o.label(damaged(&s.sub, k, a, &c, &mut bytes));
                        e.push(None);
                    }
                }
            }
            o.label_if(subs.len() >= 8, "long stream");
            o.nontrivial_if(e.windows(2).any(|w| w[0].is_some() != w[1].is_some()));
            compare(&e, &decode(&bytes)?)
        },
    );
    // crowds of the same damage between valid subtitles
    c.search(
        "crowds",
        1_600,
        30_000,
        move || {
            prop::collection::vec(
                (one(), prop_oneof![2 => Just(1u16), 7 => num(1u16..40), 1 => num(1u16..=1000)]),
                2..6,
            )
        },
        |groups: &Vec<(DamagedR, u16)>, o| {
            let mut bytes = vec![];
            let mut e = vec![];
            for (s, n) in groups {
                let mut b = vec![];
                let want = match s.damage {
                    None => {
                        let (_, p, _) = realise(&s.sub);
                        transport(&p, s.sub.pts, s.substream, &s.frags, &[], &mut b);
                        Some(alone(&p, s.sub.pts)?)
                    }
                    Some((k, a)) => {
                        let c = Carrier { frags: &s.frags, substream: s.substream };
                        o.label(damaged(&s.sub, k, a, &c, &mut b));
                        None
                    }
                };
                // at most 4 MiB each
                let n = usize::from(*n).min((4 << 20) / b.len()).max(1);
                for _ in 0..n {
                    bytes.extend_from_slice(&b);
                    e.push(want.clone());
                }
                o.label_if(n >= 16, "16 or more of a kind");
                o.label_if(n >= 256, "256 or more of a kind");
            }
            o.nontrivial_if(e.windows(2).any(|w| w[0].is_some() != w[1].is_some()));
            compare(&e, &decode(&bytes)?)
        },
    );
    // whatever is done to a packet, it gives one item, the one it gives alone
    let one = move || {
        (
            some_sub(),
            prop_oneof![1 => Just(vec![]), 2 => muts(5)],
            prop::collection::vec(frag_r(), 0..3),
            any8(),
        )
            .prop_map(|(sub, muts, frags, substream)| MixedR { sub, muts, frags, substream })
    };
    c.search(
        "bent_streams",
        60_000,
        1_200_000,
        move || prop::collection::vec(one(), 2..6),
        |subs: &Vec<MixedR>, o| {
            let mut bytes = vec![];
            let mut want: Vec<DItem> = vec![];
            for s in subs {
                let p = bent(&s.sub, &s.muts);
                transport(&p, s.sub.pts, s.substream, &s.frags, &[], &mut bytes);
                let mut a = decode(&plain_stream(&[(p, s.sub.pts)]))?;
                ensure!(a.len() == 1, "one packet alone gives {} items", a.len());
                let a = a.pop().unwrap();
                o.label(match (&a, s.muts.is_empty()) {
                    (_, true) => "valid",
                    (Ok(_), _) => "bent, still decoded",
                    (Err(k), _) => k,
                });
                ensure!(a.is_ok() || !s.muts.is_empty(), "a valid subtitle alone is not decoded");
                want.push(a);
            }
            let got = decode(&bytes)?;
            o.nontrivial_if(want.iter().any(Result::is_ok) && want.iter().any(Result::is_err));
            ensure!(got.len() == want.len(), "{} packets give {} items", want.len(), got.len());
            for (i, (w, g)) in want.iter().zip(&got).enumerate() {
                match (w, g) {
                    (Ok(w), Ok(g)) => {
                        if let Some(d) = w.diff(g) {
                            return Err(format!("item {i} differs from what it is alone: {d}"));
                        }
                    }
                    (Err(_), Err(_)) => {}
                    (Ok(_), Err(k)) => return Err(format!("item {i} decodes alone, but not here: {k}")),
                    (Err(k), Ok(_)) => return Err(format!("item {i} is an error alone ({k}), but decodes here")),
                }
            }
            Ok(())
        },
    );
}

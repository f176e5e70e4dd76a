//! C35: reading step by step.

use super::Check;
use crate::dict::{any64, any8, num};
use crate::ensure;
use crate::fw::{IO_KINDS, no_panic, scratch, Ctx, Obs};
use crate::pgs::{realise, small_psub_r, ChunkReader, FarReader, FaultReader, PSub, PSubR};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::error::Error;
use std::fs::{self, File};
use std::io::{self, BufRead, BufReader, Cursor, Seek, SeekFrom};
use subtile::image::ImageSize as _;
use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, PgsDecoder as _, ReadError, ReadExt as _, SupParser};

pub fn checks() -> Vec<Check> {
    checks![
        "C35": Check { id: "C35", rule: "sequences of skips (of any number of bytes), reads and position queries on readers of six kinds, with and without a failing operation, against a position and a slice; and streams decoded one call at a time, times or images or a skip of the whole subtitle; non-trivial: a skip that goes beyond what is buffered, a failure that was hit, or two different kinds of step", assumptions: &["after an error nothing is required of the position"], run: c35 },
    ]
}

#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
enum Step {
    Skip(u64),
    Read(u16),
    Tell,
    Fill,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Walk {
    len: u32,
    sizes: Vec<u16>,
    steps: Vec<Step>,
    kind: u8,
    at: u64,
    fault: u8,
}

fn step() -> impl Strategy<Value = Step> {
    prop_oneof![
        6 => num(0u64..40).prop_map(Step::Skip),
        2 => num(0u64..70_000).prop_map(Step::Skip),
        1 => any64().prop_map(Step::Skip),
        1 => prop::sample::select(vec![(1u64 << 31) - 1, 1 << 31, u64::from(u32::MAX), 1 << 32, (1 << 32) + 5, i64::MAX as u64, 1 << 63, u64::MAX]).prop_map(Step::Skip),
        5 => num(0u16..40).prop_map(Step::Read),
        1 => num(0u16..10_000).prop_map(Step::Read),
        2 => Just(Step::Tell),
        2 => Just(Step::Fill),
    ]
}

fn walk() -> impl Strategy<Value = Walk> {
    (
        prop_oneof![3 => num(0u32..200), 1 => num(0u32..100_000)],
        prop_oneof![3 => prop::collection::vec(num(1u16..40), 1..5), 1 => prop::collection::vec(num(1u16..9_000), 1..4), 1 => Just(vec![8192u16])],
        prop::collection::vec(step(), 1..14),
        any8(),
        any64(),
        any8(),
    )
        .prop_map(|(len, sizes, steps, kind, at, fault)| Walk { len, sizes, steps, kind, at, fault })
}

fn cause(e: &ReadError) -> Option<io::ErrorKind> {
    e.source()?.downcast_ref::<io::Error>().map(io::Error::kind)
}

/// Walk through a reader standing at `base` + `pos`. `fired` tells whether a failure was injected.
fn go<R: BufRead + Seek>(name: &str, mut r: R, data: &[u8], base: u64, pos: u64, w: &Walk, o: &mut Obs, fault: Option<(io::ErrorKind, fn(&R) -> bool)>) -> Result<(), String> {
    let n = data.len() as u64;
    let limit = i64::MAX as u64 / 2;
    let mut pos = pos;
    let fired = |r: &R| fault.is_some_and(|f| f.1(r));
    for (i, s) in w.steps.iter().enumerate() {
        let from = pos;
        let what = || format!("{name}, step {i} {s:?} at {from} of {n}");
        let hit = |e: &ReadError, o: &mut Obs| -> Result<(), String> {
            o.nontrivial();
            o.label("failure hit");
            let kind = fault.map(|f| f.0);
            ensure!(cause(e) == kind, "{}: failed with {kind:?}, said to fail because of {:?}", what(), cause(e));
            Ok(())
        };
        match *s {
            Step::Tell | Step::Fill => {
                let got = if matches!(s, Step::Tell) { r.stream_position().map(Some) } else { r.fill_buf().map(|_| None) };
                if fired(&r) {
                    return Ok(());
                }
                match got {
                    Ok(None) => {}
                    Ok(Some(p)) => ensure!(p == base + pos, "{}: the reader stands at {}", what(), p - base),
                    Err(e) => return Err(format!("harness: {}: {e}", what())),
                }
            }
            Step::Skip(k) => {
                let k = usize::try_from(k).unwrap_or(usize::MAX);
                let got = no_panic(|| r.skip_data(k)).map_err(|e| format!("{}: {e}", what()))?;
                if let (Err(e), true) = (&got, fired(&r)) {
                    return hit(e, o);
                }
                let far = (k as u64) > limit || base + pos + k as u64 > limit || (name == "file" && pos + k as u64 > 1 << 40);
                match got {
                    Ok(()) => pos = pos.checked_add(k as u64).ok_or_else(|| format!("{}: done, beyond any position", what()))?,
                    Err(e) if far => {
                        o.label("too far");
                        if let ReadError::InvalidSeekValue { value, .. } = &e {
                            ensure!(*value == k && k as u64 > i64::MAX as u64, "{}: {value} called invalid", what());
                        }
                        ensure!(!e.to_string().is_empty(), "{}: no message", what());
                        return Ok(());
                    }
                    Err(e) => return Err(format!("{}: {e}, {:?}", what(), e.source())),
                }
                if k > 40 {
                    o.nontrivial();
                }
                if far {
                    match r.stream_position() {
                        Ok(p) => ensure!(p == base + pos || fired(&r), "{}: the reader stands at {p}, not {}", what(), base + pos),
                        Err(e) => ensure!(fired(&r), "harness: {}: {e}", what()),
                    }
                    return Ok(());
                }
            }
            Step::Read(k) => {
                let mut buf = vec![0xA5; usize::from(k)];
                let got = no_panic(|| r.read_buffer(&mut buf)).map_err(|e| format!("{}: {e}", what()))?;
                if let (Err(e), true) = (&got, fired(&r)) {
                    return hit(e, o);
                }
                let a = pos.min(n) as usize;
                if u64::from(k) <= n - a as u64 || k == 0 {
                    if let Err(e) = got {
                        return Err(format!("{}: {e}, {:?}", what(), e.source()));
                    }
                    ensure!(k == 0 || buf == data[a..a + usize::from(k)], "{}: other bytes", what());
                    pos += u64::from(k);
                } else {
                    match got {
                        Ok(()) => return Err(format!("{}: read beyond the end", what())),
                        Err(e) => {
                            ensure!(matches!(e, ReadError::FailedReadBuffer { buffer_size, .. } if buffer_size == usize::from(k)), "{}: {e:?}", what());
                            ensure!(cause(&e) == Some(io::ErrorKind::UnexpectedEof), "{}: because of {:?}", what(), cause(&e));
                            o.label("end reached");
                            return Ok(());
                        }
                    }
                }
            }
        }
        ensure!(!fired(&r) || matches!(s, Step::Tell | Step::Fill), "{}: a failure of the reader is not reported", what());
    }
    Ok(())
}

fn data_of(w: &Walk) -> Vec<u8> {
    (0..w.len).map(|i| (i.wrapping_mul(2_654_435_761) >> 11) as u8).collect()
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Steps {
    subs: Vec<PSubR>,
    steps: Vec<u8>,
    sizes: Vec<u16>,
    kind: u8,
    base: u64,
    /// foreign bytes after each subtitle, which the caller skips
    between: Vec<Vec<u8>>,
}

impl Steps {
    fn after(&self, i: usize) -> &[u8] {
        self.between.get(i % self.between.len().max(1)).map_or(&[], |b| b)
    }
}

fn at_end<R: Seek>(r: &mut R, want: u64, what: &str) -> Result<(), String> {
    let got = r.stream_position().map_err(|e| format!("harness: {what}: {e}"))?;
    ensure!(got == want, "{what}: the reader stands at {got}, the subtitle ends at {want}");
    Ok(())
}

fn stepwise<R: BufRead + Seek>(mut r: R, base: u64, subs: &[PSub], s: &Steps, o: &mut Obs) -> Result<(), String> {
    let mut pos = base;
    let mut kinds = 0u8;
    for (i, sub) in subs.iter().enumerate() {
        let how = s.steps[i % s.steps.len()];
        let size = sub.bytes().len();
        pos += size as u64;
        kinds |= 1 << (how % 5);
        let times = (sub.item.start, sub.item.end);
        let what = format!("subtitle {i} of {}, step {}", subs.len(), how % 5);
        let got = no_panic(|| match how % 5 {
            0 => DecodeTimeOnly::parse_next(&mut r).map(|t| t.map(|t| (t, None))),
            1 => DecodeTimeImage::parse_next(&mut r).map(|t| t.map(|(t, i)| (t, Some(i)))),
            2 => SupParser::<_, DecodeTimeOnly>::new(&mut r).next().transpose().map(|t| t.map(|t| (t, None))),
            3 => SupParser::<_, DecodeTimeImage>::new(&mut r).next().transpose().map(|t| t.map(|(t, i)| (t, Some(i)))),
            _ => Ok(r.skip_data(size).ok().map(|()| (subtile::time::TimeSpan::default(), None))),
        })
        .map_err(|e| format!("{what}: {e}"))?;
        let Ok(got) = got else { return Err(format!("{what}: an error")) };
        let Some((t, img)) = got else { return Err(format!("{what}: nothing")) };
        if how % 5 != 4 {
            let got = (t.start.msecs(), t.end.msecs());
            ensure!(got == times, "{what}: expected {times:?}, got {got:?}");
        }
        if let Some(img) = img {
            ensure!((img.width(), img.height()) == (sub.item.w, sub.item.h), "{what}: expected {}x{}, got {}x{}", sub.item.w, sub.item.h, img.width(), img.height());
        }
        if how & 0x80 == 0 || i + 1 == subs.len() {
            at_end(&mut r, pos, &what)?;
        }
        let foreign = s.after(i);
        if !foreign.is_empty() {
            pos += foreign.len() as u64;
            if how & 0x40 == 0 {
                let mut got = vec![0; foreign.len()];
                r.read_buffer(&mut got).map_err(|e| format!("{what}: the bytes after it: {e}"))?;
                ensure!(got == foreign, "{what}: the bytes after it are {got:?}, not {foreign:?}");
            } else {
                r.skip_data(foreign.len()).map_err(|e| format!("{what}: the bytes after it: {e}"))?;
            }
        }
    }
    for k in 0..3 {
        let none = no_panic(|| if (s.kind >> k) & 1 == 0 { DecodeTimeOnly::parse_next(&mut r).map(|t| t.is_none()) } else { DecodeTimeImage::parse_next(&mut r).map(|t| t.is_none()) })?;
        ensure!(matches!(none, Ok(true)), "step {k} at the end: {none:?}");
        at_end(&mut r, pos, "after the end")?;
    }
    o.nontrivial_if(kinds.count_ones() > 1);
    Ok(())
}

fn between() -> impl Strategy<Value = Vec<Vec<u8>>> {
    let foreign = || {
        prop_oneof![
            2 => Just(vec![]),
            2 => prop::collection::vec(any8(), 1..30),
            2 => (num(1usize..40), prop::sample::select(vec![0u8, 0xff, b'P', b' ', b'\n'])).prop_map(|(n, b)| vec![b; n]),
            // what looks like a segment, whole or not
            2 => (prop::sample::select(vec![0x14u8, 0x15, 0x16, 0x17, 0x80, 0]), num(0u16..9), num(1usize..20)).prop_map(|(t, size, n)| {
                let mut v = vec![b'P', b'G', 0, 0, 3, 0x84, 0, 0, 0, 0, t];
                v.extend(size.to_be_bytes());
                v.extend(vec![0; usize::from(size)]);
                v.truncate(n.max(1));
                v
            }),
        ]
    };
    prop_oneof![1 => Just(vec![]), 2 => prop::collection::vec(foreign(), 1..4)]
}

fn c35(c: &Ctx) {
    let bases = || prop_oneof![2 => Just(0u64), 1 => num(0u64..1 << 40), 1 => prop::sample::select(vec![(1u64 << 31) - 3, u64::from(u32::MAX), 1 << 32, 1 << 53])];
    c.search("walks", 700_000, 8_000_000, move || (walk(), bases()), |(w, base): &(Walk, u64), o: &mut Obs| {
        let data = data_of(w);
        let cap = usize::from(w.sizes[0]);
        let pos = if w.len == 0 { 0 } else { w.at % u64::from(w.len) };
        let mut start = Cursor::new(&data[..]);
        start.set_position(pos);
        let mut chunks = ChunkReader::new(&data, &w.sizes, 0);
        let _ = chunks.seek(SeekFrom::Start(pos));
        match w.kind % 4 {
            0 => go("memory", start, &data, 0, pos, w, o, None),
            1 => go("buffered", BufReader::with_capacity(cap, start), &data, 0, pos, w, o, None),
            2 => go("pieces", FarReader { inner: chunks, base: *base }, &data, *base, pos, w, o, None),
            _ => go("buffered pieces", BufReader::with_capacity(cap, FarReader { inner: chunks, base: *base }), &data, *base, pos, w, o, None),
        }
    });
    c.search("walks_files", 15_000, 150_000, walk, |w: &Walk, o: &mut Obs| {
        let data = data_of(w);
        let path = scratch().join("walk.bin");
        let pos = if w.len == 0 { 0 } else { w.at % u64::from(w.len) };
        let ready = fs::write(&path, &data).and_then(|()| File::open(&path)).and_then(|mut f| f.seek(SeekFrom::Start(pos)).map(|_| f));
        let f = ready.map_err(|e| format!("harness: {e}"))?;
        go("file", BufReader::with_capacity(usize::from(w.sizes[0]), f), &data, 0, pos, w, o, None)
    });
    c.search("walks_failing", 500_000, 5_000_000, walk, |w: &Walk, o: &mut Obs| {
        let data = data_of(w);
        let kind = *IO_KINDS.get(usize::from(w.kind >> 2) % (IO_KINDS.len() + 1)).unwrap_or(&io::ErrorKind::UnexpectedEof);
        let rd = FaultReader::new(ChunkReader::new(&data, &w.sizes, 0), usize::from(w.fault) % 24, w.kind & 1 == 1, kind);
        if w.kind & 2 == 0 {
            go("failing", rd, &data, 0, 0, w, o, Some((kind, |r| r.fired)))
        } else {
            go("buffered failing", BufReader::with_capacity(usize::from(w.sizes[0]), rd), &data, 0, 0, w, o, Some((kind, |r| r.get_ref().fired)))
        }
    });
    let steps = move || {
        (prop::collection::vec(small_psub_r(), 1..6), prop::collection::vec(any8(), 1..6), prop::collection::vec(num(1u16..60), 1..4), any8(), bases(), between())
            .prop_map(|(subs, steps, sizes, kind, base, between)| Steps { subs, steps, sizes, kind, base, between })
    };
    c.search("stepwise", 150_000, 2_000_000, steps, |s: &Steps, o: &mut Obs| {
        let subs: Vec<PSub> = s.subs.iter().map(realise).collect();
        let bytes: Vec<u8> = subs.iter().enumerate().flat_map(|(i, sub)| [&sub.bytes(), s.after(i)].concat()).collect();
        let cap = usize::from(s.sizes[0]);
        match s.kind % 4 {
            0 => stepwise(Cursor::new(&bytes), 0, &subs, s, o),
            1 => stepwise(BufReader::with_capacity(cap, Cursor::new(&bytes)), 0, &subs, s, o),
            2 => stepwise(FarReader { inner: ChunkReader::new(&bytes, &s.sizes, 0), base: s.base }, s.base, &subs, s, o),
            _ => stepwise(BufReader::with_capacity(cap, FarReader { inner: ChunkReader::new(&bytes, &s.sizes, 0), base: s.base }), s.base, &subs, s, o),
        }
    });
}

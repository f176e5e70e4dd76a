//! Reference model and encoder for presentation graphic streams (`.sup`),
//! written from the format's description, not from the code under test, and the
//! readers used to feed the parser.

use crate::dict::{any16, any32, any8, num};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{self, BufRead, Read, Seek, SeekFrom};

// ------------------------------------------------------------------ model

pub type Px = (u8, u8);
/// transparent white: what a position without a colour shows
pub const NO_COLOUR: Px = (255, 0);

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct PItem {
    pub start: i64,
    pub end: i64,
    pub w: u32,
    pub h: u32,
    pub pixels: Vec<Px>,
}

impl PItem {
    pub fn diff(&self, o: &Self) -> Option<String> {
        if (self.start, self.end) != (o.start, o.end) {
            return Some(format!(
                "times: expected {}..{} ms, got {}..{} ms",
                self.start, self.end, o.start, o.end
            ));
        }
        if (self.w, self.h) != (o.w, o.h) {
            return Some(format!("size: expected {}x{}, got {}x{}", self.w, self.h, o.w, o.h));
        }
        if self.pixels.len() != o.pixels.len() {
            return Some(format!(
                "pixel count: expected {}, got {}",
                self.pixels.len(),
                o.pixels.len()
            ));
        }
        if let Some(i) = (0..self.pixels.len()).find(|&i| self.pixels[i] != o.pixels[i]) {
            let w = self.w.max(1) as usize;
            return Some(format!(
                "pixel ({}, {}) (luminance, alpha): expected {:?}, got {:?}",
                i % w,
                i / w,
                self.pixels[i],
                o.pixels[i]
            ));
        }
        None
    }
}

/// Palette entry: identifier, luminance, Cr, Cb, alpha.
pub type Entry = (u8, u8, u8, u8, u8);
/// A run: colour, length selector, selector of the way it is written.
pub type RunR = (u8, u16, u8);

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct SegR {
    pub kind: u8,
    pub pts: u32,
    pub dts: u32,
    pub payload: Vec<u8>,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct PSubR {
    pub start: u32,
    pub end: u32,
    pub w: u16,
    pub h: u16,
    pub palette: Vec<Entry>,
    pub lines: Vec<Vec<RunR>>,
    /// where to split the object's data over two segments
    pub split: Option<u16>,
    /// composition and window segments, placed by `slots`
    pub extra: Vec<SegR>,
    pub slots: Vec<u8>,
    /// identifiers and versions in palette and object segments, their times
    pub ids: [u8; 5],
    pub times: [u32; 2],
    /// a palette in the display set that ends the subtitle
    pub end_palette: Option<Vec<Entry>>,
    /// leave out the last end-of-line mark
    pub no_last_eol: bool,
    /// instead of the lines: one line without runs, whose object has this length
    #[serde(default)]
    pub fit: Option<u16>,
}

pub fn segment(kind: u8, pts: u32, dts: u32, payload: &[u8], out: &mut Vec<u8>) {
    out.extend(b"PG");
    out.extend(pts.to_be_bytes());
    out.extend(dts.to_be_bytes());
    out.push(kind);
    out.extend((payload.len() as u16).to_be_bytes());
    out.extend_from_slice(payload);
}

pub const PDS: u8 = 0x14;
pub const ODS: u8 = 0x15;
pub const PCS: u8 = 0x16;
pub const WDS: u8 = 0x17;
pub const END: u8 = 0x80;

pub fn palette_payload(id: u8, version: u8, entries: &[Entry]) -> Vec<u8> {
    let mut p = vec![id, version];
    for e in entries {
        p.extend([e.0, e.1, e.2, e.3, e.4]);
    }
    p
}

/// Keep the first entry of each identifier.
pub fn distinct(entries: &[Entry]) -> Vec<Entry> {
    let mut seen = [false; 256];
    entries
        .iter()
        .filter(|e| !std::mem::replace(&mut seen[usize::from(e.0)], true))
        .copied()
        .collect()
}

fn run_len(sel: u16, room: usize) -> usize {
    const B: [usize; 10] = [1, 2, 3, 62, 63, 64, 65, 255, 256, 16383];
    let n = if sel % 3 == 0 {
        B[usize::from(sel / 3) % B.len()]
    } else {
        1 + usize::from(sel / 3) % 200
    };
    n.clamp(1, room)
}

/// Write a run of `n` pixels (n >= 1) in the way `form` selects.
pub fn encode_run(c: u8, n: usize, form: u8, out: &mut Vec<u8>, kinds: &mut u8) {
    let mut left = n;
    let mut form = form;
    while left > 0 {
        match form % 4 {
            // one byte per pixel
            0 if c != 0 && left <= 24 => {
                out.extend(std::iter::repeat(c).take(left));
                *kinds |= 1;
                left = 0;
            }
            // long form whatever the length
            1 => {
                let k = left.min(16383);
                left -= k;
                let hi = (k >> 8) as u8;
                if c == 0 && form & 4 == 0 {
                    out.extend([0, 0x40 | hi, k as u8]);
                    *kinds |= 2;
                } else {
                    out.extend([0, 0xC0 | hi, k as u8, c]);
                    *kinds |= 4;
                }
            }
            // short form, split if too long
            2 if left <= 63 * 4 => {
                let k = left.min(63);
                left -= k;
                if c == 0 && form & 4 == 0 {
                    out.extend([0, k as u8]);
                    *kinds |= 8;
                } else {
                    out.extend([0, 0x80 | k as u8, c]);
                    *kinds |= 16;
                }
            }
            // the shortest form
            _ => {
                let k = left.min(16383);
                left -= k;
                if k < 3 && c != 0 {
                    out.extend(std::iter::repeat(c).take(k));
                    *kinds |= 1;
                } else if k < 64 {
                    if c == 0 {
                        out.extend([0, k as u8]);
                        *kinds |= 8;
                    } else {
                        out.extend([0, 0x80 | k as u8, c]);
                        *kinds |= 16;
                    }
                } else if c == 0 {
                    out.extend([0, 0x40 | (k >> 8) as u8, k as u8]);
                    *kinds |= 2;
                } else {
                    out.extend([0, 0xC0 | (k >> 8) as u8, k as u8, c]);
                    *kinds |= 4;
                }
            }
        }
        form = form.rotate_left(3);
    }
}

pub const MAX_DATA: usize = 120_000;

/// Encoded data and colour identifiers of an image recipe; the height may be
/// reduced to keep the data within what two segments hold.
pub fn realise_pixels(w: u16, h: u16, lines: &[Vec<RunR>], no_last_eol: bool) -> (Vec<u8>, Vec<u8>, u16, u8) {
    let w = usize::from(w.max(1));
    let h = usize::from(h.max(1)).min((1 << 22) / w).max(1);
    let empty = vec![];
    let mut data = vec![];
    let mut ids = vec![];
    let mut kinds = 0;
    let mut y = 0;
    while y < h {
        let recipe = if lines.is_empty() { &empty } else { &lines[y % lines.len()] };
        let mut line = vec![];
        let mut x = 0;
        let n0 = ids.len();
        for &(c, sel, form) in recipe {
            if x == w {
                break;
            }
            let n = run_len(sel, w - x);
            x += n;
            encode_run(c, n, form, &mut line, &mut kinds);
            ids.extend(std::iter::repeat(c).take(n));
        }
        if x < w {
            let c = recipe.last().map_or(0, |r| r.0 ^ 1);
            encode_run(c, w - x, 3, &mut line, &mut kinds);
            ids.extend(std::iter::repeat(c).take(w - x));
        }
        line.extend([0, 0]);
        if y > 0 && data.len() + line.len() > MAX_DATA {
            ids.truncate(n0);
            break;
        }
        data.extend(line);
        y += 1;
    }
    if no_last_eol {
        data.truncate(data.len() - 2);
    }
    (data, ids, y as u16, kinds)
}

/// Reference decoder of run-length data: the first `n` pixels the data holds,
/// completed with the colour of nothing.
pub fn reference_rle(data: &[u8], n: usize, look: &dyn Fn(u8) -> Px) -> Vec<Px> {
    let mut out = vec![];
    let mut i = 0;
    'codes: while out.len() < n && i < data.len() {
        let b = data[i];
        i += 1;
        if b != 0 {
            out.push(look(b));
            continue;
        }
        let Some(&f) = data.get(i) else { break };
        i += 1;
        if f == 0 {
            continue; // end of line
        }
        let mut len = usize::from(f & 0x3F);
        if f & 0x40 != 0 {
            let Some(&l) = data.get(i) else { break 'codes };
            i += 1;
            len = len << 8 | usize::from(l);
        }
        let mut c = 0;
        if f & 0x80 != 0 {
            let Some(&k) = data.get(i) else { break 'codes };
            i += 1;
            c = k;
        }
        out.extend(std::iter::repeat(look(c)).take(len.min(n - out.len())));
    }
    out.resize(n, NO_COLOUR);
    out
}

pub fn lookup(palette: &[Entry]) -> impl Fn(u8) -> Px {
    let m: BTreeMap<u8, Px> = palette.iter().map(|e| (e.0, (e.1, e.4))).collect();
    move |c| m.get(&c).copied().unwrap_or(NO_COLOUR)
}

/// Object segment payloads: one, or a first and a last one.
pub fn object_payloads(w: u16, h: u16, data: &[u8], split: Option<usize>, id: [u8; 3]) -> Vec<Vec<u8>> {
    let len = (data.len() + 4) as u32;
    let head = |flag: u8| {
        let mut p = vec![id[0], id[1], id[2], flag];
        p.extend_from_slice(&len.to_be_bytes()[1..]);
        p.extend(w.to_be_bytes());
        p.extend(h.to_be_bytes());
        p
    };
    match split {
        None => {
            let mut p = head(0xC0);
            p.extend_from_slice(data);
            vec![p]
        }
        Some(k) => {
            let mut p = head(0x80);
            p.extend_from_slice(&data[..k]);
            let mut q = vec![id[0], id[1], id[2], 0x40];
            q.extend_from_slice(&data[k..]);
            vec![p, q]
        }
    }
}

pub struct PSub {
    pub item: PItem,
    /// (kind, bytes) of each segment in order
    pub segments: Vec<(u8, Vec<u8>)>,
    pub kinds: u8,
    pub data: Vec<u8>,
    pub palette: Vec<Entry>,
}
impl PSub {
    pub fn bytes(&self) -> Vec<u8> {
        self.segments.iter().flat_map(|s| s.1.iter().copied()).collect()
    }
    /// Offset just after the header of the last segment, from the subtitle's start.
    pub fn complete_at(&self) -> usize {
        let n: usize = self.segments.iter().map(|s| s.1.len()).sum();
        n - self.segments.last().unwrap().1.len() + 13
    }
}

pub fn realise(r: &PSubR) -> PSub {
    let (w, (data, ids, h, kinds)) = match r.fit {
        None => (r.w.max(1), realise_pixels(r.w, r.h, &r.lines, r.no_last_eol)),
        Some(n) => {
            let w = n.max(7) - 6;
            let mut ids: Vec<u8> = r.lines.iter().flatten().map(|c| c.0.max(1)).collect();
            if ids.is_empty() {
                ids.push(1);
            }
            let ids: Vec<u8> = ids.into_iter().cycle().take(usize::from(w)).collect();
            (w, ([&ids[..], &[0, 0]].concat(), ids, 1, 1))
        }
    };
    let palette = distinct(&r.palette);
    let look = lookup(&palette);
    // as many as are looked at
    let looked_at = if ids.len() > PIXEL_CAP { PIXEL_CAP + 1 } else { ids.len() };
    let pixels: Vec<Px> = ids[..looked_at].iter().map(|c| look(*c)).collect();
    let must_split = data.len() + 11 > 65_535;
    let split = match (r.split, must_split) {
        (None, false) => None,
        (s, _) => {
            let lo = data.len().saturating_sub(65_531);
            let hi = data.len().min(65_524);
            Some(lo + usize::from(s.unwrap_or(30_000)) % (hi - lo + 1))
        }
    };
    let objects = object_payloads(w, h, &data, split, [r.ids[2], r.ids[3], r.ids[4]]);

    // base order, then composition and window segments wherever the recipe says
    let mut segs: Vec<(u8, u32, u32, Vec<u8>)> = vec![(
        PDS,
        r.times[0],
        r.times[1],
        palette_payload(r.ids[0], r.ids[1], &palette),
    )];
    for o in objects {
        segs.push((ODS, r.times[1], r.times[0], o));
    }
    segs.push((END, r.start, r.times[0], vec![]));
    if let Some(p) = &r.end_palette {
        segs.push((PDS, r.times[0], 0, palette_payload(0, 0, &distinct(p))));
    }
    segs.push((END, r.end, r.times[1], vec![]));
    for (i, e) in r.extra.iter().enumerate() {
        let at = usize::from(r.slots.get(i).copied().unwrap_or(0)) % segs.len();
        let kind = if e.kind % 2 == 0 { PCS } else { WDS };
        segs.insert(at, (kind, e.pts, e.dts, e.payload.clone()));
    }
    let segments = segs
        .into_iter()
        .map(|(k, p, d, b)| {
            let mut out = vec![];
            segment(k, p, d, &b, &mut out);
            (k, out)
        })
        .collect();
    PSub {
        item: PItem {
            start: i64::from(r.start / 90),
            end: i64::from(r.end / 90),
            w: u32::from(w),
            h: u32::from(h),
            pixels,
        },
        segments,
        kinds,
        data,
        palette,
    }
}

pub fn stream(subs: &[PSub]) -> Vec<u8> {
    subs.iter().flat_map(PSub::bytes).collect()
}

// ------------------------------------------------------------------ readers

/// Hands out its bytes in pieces of the given sizes, sometimes interrupted.
#[derive(Clone)]
pub struct ChunkReader<'a> {
    data: &'a [u8],
    pos: u64,
    end: u64,
    sizes: &'a [u16],
    next: usize,
    interrupt_every: usize,
    ops: usize,
}
impl<'a> ChunkReader<'a> {
    pub fn new(data: &'a [u8], sizes: &'a [u16], interrupt_every: usize) -> Self {
        Self {
            data,
            pos: 0,
            end: 0,
            sizes,
            next: 0,
            interrupt_every,
            ops: 0,
        }
    }
    fn interrupted(&mut self) -> io::Result<()> {
        self.ops += 1;
        if self.interrupt_every > 1 && self.ops % self.interrupt_every == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        Ok(())
    }
    fn window(&mut self) -> &'a [u8] {
        let n = self.data.len() as u64;
        if self.pos >= self.end {
            let k = if self.sizes.is_empty() {
                1
            } else {
                self.sizes[self.next % self.sizes.len()].max(1)
            };
            self.next += 1;
            self.end = (self.pos + u64::from(k)).min(n.max(self.pos));
        }
        let a = self.pos.min(n) as usize;
        let b = self.end.min(n) as usize;
        &self.data[a..b.max(a)]
    }
}
impl Read for ChunkReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.interrupted()?;
        let w = self.window();
        let n = w.len().min(buf.len());
        buf[..n].copy_from_slice(&w[..n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl BufRead for ChunkReader<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.interrupted()?;
        Ok(self.window())
    }
    fn consume(&mut self, n: usize) {
        assert!(self.pos + n as u64 <= self.end.max(self.pos), "consume beyond the buffer");
        self.pos += n as u64;
    }
}
impl Seek for ChunkReader<'_> {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        let p = match s {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::Current(d) => i128::from(self.pos) + i128::from(d),
            SeekFrom::End(d) => self.data.len() as i128 + i128::from(d),
        };
        if p < 0 {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.pos = p as u64;
        self.end = self.pos;
        Ok(self.pos)
    }
}

/// A reader whose stream begins at position `base`, with nothing to read before it.
#[derive(Clone)]
pub struct FarReader<R> {
    pub inner: R,
    pub base: u64,
}
impl<R: Read> Read for FarReader<R> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.inner.read(buf)
    }
}
impl<R: BufRead> BufRead for FarReader<R> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.inner.fill_buf()
    }
    fn consume(&mut self, n: usize) {
        self.inner.consume(n);
    }
}
impl<R: Seek> Seek for FarReader<R> {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        let s = match s {
            SeekFrom::Start(p) => SeekFrom::Start(p.checked_sub(self.base).ok_or(io::ErrorKind::InvalidInput)?),
            s => s,
        };
        Ok(self.inner.seek(s)? + self.base)
    }
}

/// Fails the `fail_at`-th operation (and, if sticky, all later ones).
pub struct FaultReader<R> {
    pub inner: R,
    pub fail_at: usize,
    pub sticky: bool,
    pub kind: io::ErrorKind,
    pub ops: usize,
    pub fired: bool,
}
impl<R> FaultReader<R> {
    pub fn new(inner: R, fail_at: usize, sticky: bool, kind: io::ErrorKind) -> Self {
        Self {
            inner,
            fail_at,
            sticky,
            kind,
            ops: 0,
            fired: false,
        }
    }
    fn step(&mut self) -> io::Result<()> {
        let n = self.ops;
        self.ops += 1;
        if n == self.fail_at || (self.sticky && self.fired) {
            self.fired = true;
            return Err(io::Error::new(self.kind, "injected"));
        }
        Ok(())
    }
}
impl<R: Read> Read for FaultReader<R> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.step()?;
        self.inner.read(buf)
    }
}
impl<R: BufRead> BufRead for FaultReader<R> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.step()?;
        self.inner.fill_buf()
    }
    fn consume(&mut self, n: usize) {
        self.inner.consume(n);
    }
}
impl<R: Seek> Seek for FaultReader<R> {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        self.step()?;
        self.inner.seek(s)
    }
}

pub type PResult = Result<PItem, &'static str>;
pub type TResult = Result<(i64, i64), &'static str>;

/// Images with more pixels than this are only iterated for this many.
pub const PIXEL_CAP: usize = 1 << 18;

pub fn compare(expected: &[Option<PItem>], got: &[PResult]) -> Result<(), String> {
    for (i, (e, g)) in expected.iter().zip(got).enumerate() {
        match (e, g) {
            (Some(e), Ok(g)) => {
                if let Some(d) = e.diff(g) {
                    return Err(format!("subtitle {i}: {d}"));
                }
            }
            (Some(_), Err(k)) => return Err(format!("subtitle {i}: expected to decode, got error {k}")),
            (None, Ok(_)) => return Err(format!("subtitle {i}: expected an error, got a subtitle")),
            (None, Err(_)) => {}
        }
    }
    if expected.len() != got.len() {
        return Err(format!("expected {} items, got {}", expected.len(), got.len()));
    }
    Ok(())
}

// ---------------------------------------------------------------- strategies

pub fn pts32() -> BoxedStrategy<u32> {
    let s = {
        prop_oneof![
            4 => any32(),
            2 => num(0u32..1_000_000),
            1 => prop::sample::select(vec![0u32, 1, 89, 90, 91, u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1, 1 << 16]),
        ]
    };
    s.boxed()
}

pub fn entry() -> BoxedStrategy<Entry> {
    let s = {
        (any8(), any8(), any8(), any8(), any8())
    };
    s.boxed()
}

pub fn palette() -> BoxedStrategy<Vec<Entry>> {
    let s = {
        prop_oneof![
            // any set in any order
            3 => prop::collection::vec(entry(), 0..12),
            // identifiers in sequence from some first one
            2 => (any8(), prop::collection::vec(entry(), 1..20)).prop_map(|(first, mut v)| {
                for (i, e) in v.iter_mut().enumerate() {
                    e.0 = first.wrapping_add(i as u8);
                }
                v
            }),
            // all 256 identifiers, in some order
            1 => (any8(), num(0u8..128), entry()).prop_map(|(a, m, e)| {
                (0..=255u8)
                    .map(|i| {
                        (i.wrapping_mul(2 * m + 1).wrapping_add(a), i ^ e.1, e.2, e.3, i.wrapping_mul(3) ^ e.4)
                    })
                    .collect()
            }),
        ]
    };
    s.boxed()
}

/// Draw colours close to those of the palette: an identifier in it most of the
/// time, a neighbour or another one otherwise.
fn lines_for(p: Vec<Entry>, max_lines: usize, max_runs: usize) -> impl Strategy<Value = (Vec<Entry>, Vec<Vec<RunR>>)> {
    let ids: Vec<u8> = if p.is_empty() { vec![0, 1, 255] } else { p.iter().map(|e| e.0).collect() };
    let c = prop_oneof![
        5 => prop::sample::select(ids.clone()),
        1 => prop::sample::select(ids).prop_map(|c| c.wrapping_add(1)),
        1 => Just(0u8),
        1 => any8(),
    ];
    let run = (c, any16(), any8());
    (
        Just(p),
        prop::collection::vec(prop::collection::vec(run, 0..max_runs), 0..max_lines),
    )
}

pub fn extra_seg(max: usize) -> impl Strategy<Value = SegR> {
    (
        any8(),
        pts32(),
        pts32(),
        prop_oneof![
            8 => prop::collection::vec(any8(), 0..max),
            2 => prop::collection::vec(prop::sample::select(vec![b'P', b'G', 0x80, 0x15, 0x14, 0]), 0..max),
            // a whole end segment as payload
            1 => Just(b"PG\0\0\0\x5A\0\0\0\0\x80\0\0".to_vec()),
            1 => prop_oneof![4 => num(0u16..2000), 1 => any16(), 1 => prop::sample::select(vec![4096u16, 8191, 8192, 8193, 32767, 32768, 65535])]
                .prop_map(|n| vec![0x50; usize::from(n)]),
        ],
    )
        .prop_map(|(kind, pts, dts, payload)| SegR { kind, pts, dts, payload })
}

fn psub_with(
    wh: impl Strategy<Value = (u16, u16)>,
    max_lines: usize,
    max_runs: usize,
) -> impl Strategy<Value = PSubR> {
    (
        (pts32(), pts32(), wh),
        palette().prop_flat_map(move |p| lines_for(p, max_lines, max_runs)),
        (
            prop::option::weighted(0.4, any16()),
            prop::collection::vec(extra_seg(40), 0..5),
            prop::collection::vec(any8(), 0..5),
            // mostly as usual encoders write them: the same everywhere
            prop_oneof![1 => prop::array::uniform5(any8()), 2 => Just([0; 5]), 1 => prop::array::uniform5(num(0u8..2))],
            prop::array::uniform2(any32()),
        ),
        (
            prop::option::weighted(0.1, prop::collection::vec(entry(), 0..3)),
            prop::bool::weighted(0.05),
            prop::option::weighted(0.1, num(7u16..1500).wide(7u16..=u16::MAX)),
        ),
    )
        .prop_map(
            |((start, end, (w, h)), (palette, lines), (split, extra, slots, ids, times), (end_palette, no_last_eol, fit))| {
                PSubR {
                    start,
                    end,
                    w,
                    h,
                    palette,
                    lines,
                    split,
                    extra,
                    slots,
                    ids,
                    times,
                    end_palette,
                    no_last_eol,
                    fit,
                }
            },
        )
}

pub fn psub_r() -> BoxedStrategy<PSubR> {
    let s = {
        psub_with(
            prop_oneof![
                20 => (num(1u16..40).wide(1u16..=2000), num(1u16..30).wide(1u16..=2000)),
                3 => (num(1u16..400).wide(1u16..=9000), num(1u16..20).wide(1u16..=400)),
                1 => (num(1u16..1000), num(1u16..400)),
                1 => (prop::sample::select(vec![1u16, 63, 64, 65, 255, 256, 720, 1920, 4096, 16383, 16384, 40000, 65535]), num(1u16..4)),
                1 => (num(1u16..4), prop::sample::select(vec![256u16, 1080, 4096, 65535])),
            ],
            6,
            10,
        )
    };
    s.boxed()
}

pub fn small_psub_r() -> BoxedStrategy<PSubR> {
    let s = {
        psub_with((num(1u16..12).wide(1u16..=800), num(1u16..8).wide(1u16..=600)), 4, 5)
    };
    s.boxed()
}

impl PSubR {
    /// The recipe of a subtitle that differs from this one in one small thing, or in nothing.
    pub fn tweaked(&self, &(what, k): &crate::vob::Tweak) -> Self {
        let mut r = self.clone();
        let i = usize::from(k);
        let bit = 1u8 << (k >> 13);
        match what % 20 {
            0 => r.start ^= 1 << (k % 32),
            1 => r.end ^= 1 << (k % 32),
            2..=6 => {
                let n = r.palette.len().max(1);
                if let Some(e) = r.palette.get_mut(i % n) {
                    match what % 20 {
                        2 | 3 => e.1 ^= bit,
                        4 => e.4 ^= bit,
                        5 => e.2 ^= bit,
                        _ => e.0 ^= bit,
                    }
                }
            }
            7 => {
                r.palette.pop();
            }
            8 => r.w += u16::from(r.w < 900),
            9 => r.h += u16::from(r.h < 900),
            10 | 11 | 12 => {
                let n = r.lines.len().max(1);
                if let Some(l) = r.lines.get_mut(i % n) {
                    let m = l.len().max(1);
                    if let Some(run) = l.get_mut(i / n % m) {
                        match what % 20 {
                            10 | 11 => run.0 ^= bit,
                            _ => run.1 ^= 3 << (k >> 13),
                        }
                    }
                }
            }
            13 | 14 => r.ids[i % 5] ^= bit,
            15 => r.times[i % 2] ^= 1 << (k >> 11),
            16 => {
                let n = r.palette.len().max(1);
                if i % n != 0 {
                    r.palette.swap(0, i % n);
                }
            }
            17 => r.split = if r.split.is_some() { None } else { Some(k) },
            18 => {
                r.extra.pop();
            }
            _ => {}
        }
        r
    }
}

/// Subtitles that each differ from the one before, or from the first, in one small thing.
pub fn near_psubs() -> impl Strategy<Value = (PSubR, Vec<(crate::vob::Tweak, bool)>)> {
    (small_psub_r(), prop::collection::vec(((any8(), any16()), prop::bool::weighted(0.7)), 1..10))
}

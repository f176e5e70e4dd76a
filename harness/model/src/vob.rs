//! Reference model and encoder for VobSub `.sub` streams, written from the DVD
//! subtitle and MPEG-2 program stream formats, not from the code under test.

use crate::dict::{any16, any32, any64, any8, num};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------------ model

/// What a valid subtitle must decode to.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct VItem {
    pub start: i64,
    pub end: i64,
    /// left, top, width, height
    pub area: (u32, u32, u32, u32),
    pub palette: [u8; 4],
    pub alpha: [u8; 4],
    pub pixels: Vec<u8>,
}

impl VItem {
    /// Short description of the first difference.
    pub fn diff(&self, other: &Self) -> Option<String> {
        if self.start != other.start || self.end != other.end {
            return Some(format!(
                "times: expected {}..{} ms, got {}..{} ms",
                self.start, self.end, other.start, other.end
            ));
        }
        if self.area != other.area {
            return Some(format!("area (x,y,w,h): expected {:?}, got {:?}", self.area, other.area));
        }
        if self.palette != other.palette {
            return Some(format!("palette: expected {:?}, got {:?}", self.palette, other.palette));
        }
        if self.alpha != other.alpha {
            return Some(format!("alpha: expected {:?}, got {:?}", self.alpha, other.alpha));
        }
        if self.pixels.len() != other.pixels.len() {
            return Some(format!(
                "pixel count: expected {}, got {}",
                self.pixels.len(),
                other.pixels.len()
            ));
        }
        if let Some(i) = (0..self.pixels.len()).find(|&i| self.pixels[i] != other.pixels[i]) {
            let w = self.area.2 as usize;
            return Some(format!(
                "pixel ({}, {}): expected {}, got {}",
                i % w,
                i / w,
                self.pixels[i],
                other.pixels[i]
            ));
        }
        None
    }
}

/// A run of the image recipe: colour (2 bits), length selector, writing selector.
pub type RunR = (u8, u16, u8);

/// Recipe of an image; see [`realise_image`].
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct ImgR {
    pub x: u16,
    pub y: u16,
    pub w: u16,
    pub h: u16,
    pub lines: Vec<Vec<RunR>>,
    /// both fields start at the same offset (their lines then agree)
    pub share: bool,
    /// unused bytes before the first field and between the fields
    pub gap: (u8, u8),
}

pub struct Img {
    pub area: (u32, u32, u32, u32),
    pub pixels: Vec<u8>,
    /// bytes to place right after the 4-byte packet header
    pub data: Vec<u8>,
    /// offsets of the two fields from the start of the packet
    pub offsets: (u16, u16),
    /// (number of lines, some line had several runs, kinds of codes used)
    pub codes: u8,
}

pub const MAX_DATA: usize = 60_000;

fn run_len(sel: u16, room: usize) -> usize {
    // favour the boundaries of the four code lengths
    const B: [usize; 12] = [1, 2, 3, 4, 5, 15, 16, 17, 63, 64, 255, 254];
    let n = if sel % 3 == 0 {
        B[(sel as usize / 3) % B.len()]
    } else {
        1 + (sel as usize / 3) % 300
    };
    n.clamp(1, room)
}

/// Ways to write a run: the shortest codes, to the end of the line, the longest codes.
pub const SHORTEST: u8 = 0;
pub const FILL: u8 = 1;
pub const LONGEST: u8 = 2;

/// Expand one line recipe to runs that exactly fill `w`.
pub fn line_runs(recipe: &[RunR], w: usize) -> Vec<(u8, usize, u8)> {
    let mut out = vec![];
    let mut x = 0;
    for &(c, sel, form) in recipe {
        if x == w {
            break;
        }
        let n = run_len(sel, w - x);
        x += n;
        let way = match form {
            f if x == w && f & 1 == 1 => FILL,
            f if f >> 5 == 7 => LONGEST,
            _ => SHORTEST,
        };
        out.push((c & 3, n, way));
    }
    if x < w {
        let c = recipe.last().map_or(0, |r| r.0.wrapping_add(1) & 3);
        out.push((c, w - x, FILL));
    }
    out
}

/// Encode the runs of one line; returns bytes and a bit set of code kinds used.
pub fn encode_line(runs: &[(u8, usize, u8)]) -> (Vec<u8>, u8) {
    encode_line_padded(runs, 0)
}

/// The same, with `pad` as the unused nibble that ends a line of an odd number of nibbles.
pub fn encode_line_padded(runs: &[(u8, usize, u8)], pad: u8) -> (Vec<u8>, u8) {
    let mut nib: Vec<u8> = vec![];
    let mut kinds = 0u8;
    for &(c, n, way) in runs {
        if way == FILL {
            nib.extend_from_slice(&[0, 0, 0, c]);
            kinds |= 16;
            continue;
        }
        let mut left = n;
        while left > 0 {
            let k = left.min(255);
            left -= k;
            let v = (k << 2) as u16 | u16::from(c);
            let len = match k {
                _ if way == LONGEST => 4,
                1..=3 => 1,
                4..=15 => 2,
                16..=63 => 3,
                _ => 4,
            };
            kinds |= 1 << (len - 1);
            for i in (0..len).rev() {
                nib.push((v >> (4 * i)) as u8 & 15);
            }
        }
    }
    if nib.len() % 2 == 1 {
        nib.push(pad & 15);
    }
    (nib.chunks(2).map(|p| p[0] << 4 | p[1]).collect(), kinds)
}

pub fn realise_image(r: &ImgR) -> Img {
    let w = usize::from(r.w).clamp(2, 4096);
    let h_max = usize::from(r.h).clamp(2, 4096);
    let n = r.lines.len();
    let empty = vec![];
    let recipe = |y: usize| -> &Vec<RunR> {
        if n == 0 {
            &empty
        } else if r.share {
            &r.lines[(y / 2) % n]
        } else {
            &r.lines[y % n]
        }
    };
    let (g0, g1) = (usize::from(r.gap.0 % 8), usize::from(r.gap.1 % 8));
    let mut fields = [vec![], vec![]];
    let mut pixels = vec![];
    let mut codes = 0;
    let mut h = 0;
    while h < h_max {
        let runs = line_runs(recipe(h), w);
        let pad = recipe(h).last().map_or(0, |r| r.2 >> 1);
        let (bytes, k) = encode_line_padded(&runs, pad);
        if h >= 2 && fields[0].len() + fields[1].len() + bytes.len() > MAX_DATA {
            break;
        }
        codes |= k;
        fields[h % 2].extend_from_slice(&bytes);
        for (c, n, _) in &runs {
            pixels.extend(std::iter::repeat(*c).take(*n));
        }
        h += 1;
    }
    let mut data = vec![0xEE; g0];
    let o0 = 4 + data.len();
    data.extend_from_slice(&fields[0]);
    let o1 = if r.share {
        o0
    } else {
        data.extend(std::iter::repeat(0xEE).take(g1));
        let o = 4 + data.len();
        data.extend_from_slice(&fields[1]);
        o
    };
    let x = u32::from(r.x).min(4096 - w as u32);
    let y = u32::from(r.y).min(4096 - h as u32);
    Img {
        area: (x, y, w as u32, h as u32),
        pixels,
        data,
        offsets: (o0 as u16, o1 as u16),
        codes,
    }
}

/// Let the end of the first field and the beginning of the second one share bytes.
fn overlap_fields(img: &mut Img) {
    let (o0, o1) = (usize::from(img.offsets.0) - 4, usize::from(img.offsets.1) - 4);
    if o0 >= o1 {
        return;
    }
    let (first, second) = img.data.split_at(o1);
    let most = (first.len() - o0).min(second.len()).min(64);
    let Some(k) = (1..=most).rev().find(|k| first.ends_with(&second[..*k])) else { return };
    img.data.drain(o1 - k..o1);
    img.offsets.1 -= k as u16;
}

/// Reference decoder of the two fields of an image. `None`: not decidable (a code
/// is cut by the end of the data); `Some(Err(()))`: the data does not describe an
/// image of this size.
pub fn reference_fields(
    packet: &[u8],
    offsets: (usize, usize),
    end: usize,
    w: usize,
    h: usize,
) -> Option<Result<Vec<u8>, ()>> {
    let mut pos = [offsets.0 * 2, offsets.1 * 2]; // in nibbles
    let end = end * 2;
    let nib = |p: usize| u16::from(packet[p / 2] >> (if p % 2 == 0 { 4 } else { 0 }) & 15);
    let mut out = Vec::with_capacity(w * h);
    for y in 0..h {
        let p = &mut pos[y % 2];
        let mut x = 0;
        while x < w {
            if *p >= end {
                return Some(Err(()));
            }
            // a code has as many nibbles as it needs leading zeros
            let mut v = nib(*p);
            *p += 1;
            for limit in [4u16, 16, 64] {
                if v >= limit {
                    break;
                }
                if *p >= end {
                    return None;
                }
                v = v << 4 | nib(*p);
                *p += 1;
            }
            let (n, c) = (usize::from(v >> 2), (v & 3) as u8);
            let n = if n == 0 { w - x } else { n };
            if x + n > w {
                return Some(Err(()));
            }
            out.extend(std::iter::repeat(c).take(n));
            x += n;
        }
        *p += *p % 2;
    }
    Some(Ok(out))
}

// --------------------------------------------------------- control sequences

#[derive(Clone, Debug, Hash, Serialize, Deserialize, PartialEq, Eq)]
pub enum Cmd {
    Force,
    Start,
    Stop,
    /// by colour value 0..3
    Palette([u8; 4]),
    Alpha([u8; 4]),
    /// x1, x2, y1, y2 (12 bits each)
    Coords(u16, u16, u16, u16),
    Offsets(u16, u16),
    /// unknown tag and parameter bytes; swallows the rest of the sequence
    Unknown(u8, Vec<u8>),
}

pub fn encode_cmd(c: &Cmd, out: &mut Vec<u8>) {
    let nibbles = |v: &[u8; 4]| [v[3] << 4 | v[2] & 15, v[1] << 4 | v[0] & 15];
    match c {
        Cmd::Force => out.push(0),
        Cmd::Start => out.push(1),
        Cmd::Stop => out.push(2),
        Cmd::Palette(p) => {
            out.push(3);
            out.extend(nibbles(p));
        }
        Cmd::Alpha(p) => {
            out.push(4);
            out.extend(nibbles(p));
        }
        Cmd::Coords(x1, x2, y1, y2) => {
            out.push(5);
            for (a, b) in [(x1, x2), (y1, y2)] {
                let v = u32::from(*a) << 12 | u32::from(*b);
                out.extend_from_slice(&v.to_be_bytes()[1..]);
            }
        }
        Cmd::Offsets(a, b) => {
            out.push(6);
            out.extend(a.to_be_bytes());
            out.extend(b.to_be_bytes());
        }
        Cmd::Unknown(t, params) => {
            out.push((*t).clamp(7, 0xFE));
            out.extend(params.iter().map(|b| if *b == 0xFF { 0xFE } else { *b }));
        }
    }
}

pub struct Seq {
    pub date: u16,
    pub cmds: Vec<Cmd>,
    /// bytes left unused after this sequence
    pub gap: usize,
}

/// Assemble a subtitle packet: header, image data, chained control sequences.
pub fn assemble(data: &[u8], seqs: &[Seq], trail: usize) -> Vec<u8> {
    let ctrl = 4 + data.len();
    let bodies: Vec<Vec<u8>> = seqs
        .iter()
        .map(|s| {
            let mut b = vec![];
            for c in &s.cmds {
                encode_cmd(c, &mut b);
            }
            b.push(0xFF);
            b
        })
        .collect();
    let mut offs = vec![];
    let mut o = ctrl;
    for (b, s) in bodies.iter().zip(seqs) {
        offs.push(o);
        o += 4 + b.len() + s.gap;
    }
    let total = o + trail;
    let mut p = vec![];
    p.extend((total as u16).to_be_bytes());
    p.extend((ctrl as u16).to_be_bytes());
    p.extend_from_slice(data);
    for (i, (b, s)) in bodies.iter().zip(seqs).enumerate() {
        let next = offs.get(i + 1).copied().unwrap_or(offs[i]);
        p.extend(s.date.to_be_bytes());
        p.extend((next as u16).to_be_bytes());
        p.extend_from_slice(b);
        p.extend(std::iter::repeat(0xFF).take(s.gap));
    }
    p.extend(std::iter::repeat(0xFF).take(trail));
    assert_eq!(p.len(), total);
    p
}

/// Recipe of a valid subtitle.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct SubR {
    pub pts: u64,
    pub img: ImgR,
    pub palette: [u8; 4],
    pub alpha: [u8; 4],
    /// order of the commands of the first sequence
    pub order: Vec<u8>,
    pub start: u16,
    pub stop: Option<u16>,
    pub force: bool,
    /// later sequence repeating palette/alpha/area with other values (ignored)
    pub fade: Option<(u16, [u8; 4])>,
    /// unknown command at the end of the last sequence
    pub unknown: Option<(u8, Vec<u8>)>,
    pub gap: u8,
    pub trail: u8,
    /// bytes of image data that serve for something else as well: for the second
    /// field (bit 0) and, with this number, for the start date that follows
    pub overlap: u8,
    /// unused bytes up to this packet size, and where they go
    #[serde(default)]
    pub fit: Option<(u16, u8)>,
}

pub fn ms(pts: u64, date: u16) -> i64 {
    ((pts + 900 * u64::from(date)) / 90) as i64
}

fn permute<T>(items: &mut [T], order: &[u8]) {
    for i in (1..items.len()).rev() {
        let j = usize::from(order.get(i).copied().unwrap_or(0)) % (i + 1);
        items.swap(i, j);
    }
}

/// Valid packet of a recipe, with what it must decode to.
pub fn realise(r: &SubR) -> (VItem, Vec<u8>, Img) {
    let mut img = realise_image(&r.img);
    if r.overlap & 1 != 0 {
        overlap_fields(&mut img);
    }
    // the last bytes of the image are the first ones of the control sequence: the date
    let mut r = r.clone();
    let k = usize::from(r.overlap >> 1).min(2);
    if k > 0 && img.data.len() > k {
        let at = img.data.len() - k;
        let mut date = r.start.to_be_bytes();
        date[..k].copy_from_slice(&img.data[at..]);
        if r.stop == Some(r.start) {
            r.stop = Some(u16::from_be_bytes(date));
        }
        r.start = u16::from_be_bytes(date);
        img.data.truncate(at);
    }
    let r = &r;
    let (x, y, w, h) = img.area;
    let pal = r.palette.map(|v| v & 15);
    let alp = r.alpha.map(|v| v & 15);
    let mut cmds = vec![
        Cmd::Start,
        Cmd::Palette(pal),
        Cmd::Alpha(alp),
        Cmd::Coords(x as u16, (x + w - 1) as u16, y as u16, (y + h - 1) as u16),
        Cmd::Offsets(img.offsets.0, img.offsets.1),
    ];
    if r.force {
        cmds.push(Cmd::Force);
    }
    if r.stop == Some(r.start) {
        cmds.push(Cmd::Stop);
    }
    permute(&mut cmds, &r.order);
    let gap = usize::from(r.gap % 5);
    let mut seqs = vec![Seq { date: r.start, cmds, gap }];
    if let Some((d, a)) = &r.fade {
        let a = a.map(|v| v & 15);
        seqs.push(Seq {
            date: *d,
            cmds: vec![Cmd::Alpha(a), Cmd::Palette(a), Cmd::Coords(0, 9, 0, 9), Cmd::Start],
            gap: 0,
        });
    }
    if let Some(stop) = r.stop {
        if stop != r.start {
            seqs.push(Seq { date: stop, cmds: vec![Cmd::Stop], gap });
        }
    }
    if let Some((t, p)) = &r.unknown {
        seqs.last_mut().unwrap().cmds.push(Cmd::Unknown(*t, p.clone()));
    }
    let mut trail = usize::from(r.trail % 6);
    let mut packet = assemble(&img.data, &seqs, trail);
    if let Some((size, place)) = r.fit {
        let more = usize::from(size).saturating_sub(packet.len());
        match place % 3 {
            0 if k == 0 => img.data.extend(std::iter::repeat(0xEE).take(more)),
            1 => seqs[0].gap += more,
            _ => trail += more,
        }
        packet = assemble(&img.data, &seqs, trail);
    }
    let start = ms(r.pts, r.start);
    let item = VItem {
        start,
        end: r.stop.map_or(start + 5000, |d| ms(r.pts, d)),
        area: img.area,
        palette: pal,
        alpha: alp,
        pixels: img.pixels.clone(),
    };
    (item, packet, img)
}

// ------------------------------------------------------------------ transport

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct FragR {
    /// selects how many bytes this fragment takes
    pub take: u16,
    pub scr: u64,
    pub ext: u16,
    pub rate: u32,
    pub reserved: u8,
    pub stuffing: u8,
    /// low 6 bits of the first header byte (scrambling .. original)
    pub flags1: u8,
    /// low 6 bits of the second header byte (ESCR .. extension)
    pub flags2: u8,
    /// further header bytes
    pub header_extra: Vec<u8>,
    /// 0 none, 1 PTS, 2 PTS and DTS (the first fragment always has a PTS)
    pub ts: u8,
    pub dts: u64,
    pub before: Vec<Junk>,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Junk {
    Bytes(Vec<u8>),
    Padding(u8),
    Video(Vec<u8>),
    /// a pack that is not well formed: kind and payload
    BadPack(u8, Vec<u8>),
    /// a packet of another substream (only between fragments)
    Foreign(u8, Vec<u8>),
    /// much of a short pattern: as bytes, padding, or another stream's packet
    Long(u8, u16, Vec<u8>),
}

/// Break any pack start code inside filler bytes.
pub fn defuse(b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    let mut i = 0;
    while i + 4 <= v.len() {
        if v[i..i + 4] == [0, 0, 1, 0xBA] {
            v[i + 3] = 0xBB;
        }
        i += 1;
    }
    v
}

fn clock36(prefix: u8, v: u64) -> [u8; 5] {
    // 4-bit prefix, 3 bits, marker, 15 bits, marker, 15 bits, marker
    let v = v & ((1 << 33) - 1);
    let bits: u64 = u64::from(prefix & 15) << 36
        | (v >> 30 & 7) << 33
        | 1 << 32
        | (v >> 15 & 0x7FFF) << 17
        | 1 << 16
        | (v & 0x7FFF) << 1
        | 1;
    let b = bits.to_be_bytes();
    [b[3], b[4], b[5], b[6], b[7]]
}

pub fn pack_header(f: &FragR, out: &mut Vec<u8>) {
    out.extend([0, 0, 1, 0xBA]);
    let scr = f.scr & ((1 << 33) - 1);
    let rate = u128::from(f.rate & 0x3F_FFFF);
    let stuffing = f.stuffing & 7;
    let mut bits: u128 = 0b01;
    let mut put = |n: u32, v: u128| bits = bits << n | (v & ((1 << n) - 1));
    put(3, u128::from(scr >> 30));
    put(1, 1);
    put(15, u128::from(scr >> 15));
    put(1, 1);
    put(15, u128::from(scr));
    put(1, 1);
    put(9, u128::from(f.ext));
    put(1, 1);
    put(22, rate);
    put(2, 3);
    put(5, u128::from(f.reserved));
    put(3, u128::from(stuffing));
    out.extend_from_slice(&bits.to_be_bytes()[6..]);
    out.extend(std::iter::repeat(0xFF).take(usize::from(stuffing)));
}

/// Private stream 1 packet. `ts`: presentation and decode time stamps.
pub fn pes(f: &FragR, pts: Option<u64>, dts: Option<u64>, substream: u8, data: &[u8], out: &mut Vec<u8>) {
    let mut h = vec![];
    let code = match (pts, dts) {
        (None, _) => 0u8,
        (Some(p), None) => {
            h.extend(clock36(0b0010, p));
            0b10
        }
        (Some(p), Some(d)) => {
            h.extend(clock36(0b0011, p));
            h.extend(clock36(0b0001, d));
            0b11
        }
    };
    let room = 255 - h.len();
    h.extend(f.header_extra.iter().take(room));
    let len = 3 + h.len() + 1 + data.len();
    out.extend([0, 0, 1, 0xBD]);
    out.extend((len as u16).to_be_bytes());
    out.push(0x80 | f.flags1 & 0x3F);
    out.push(code << 6 | f.flags2 & 0x3F);
    out.push(h.len() as u8);
    out.extend(h);
    out.push(substream);
    out.extend_from_slice(data);
}

pub fn plain_frag() -> FragR {
    FragR {
        take: u16::MAX,
        scr: 0,
        ext: 0,
        rate: 25_200,
        reserved: 0x1F,
        stuffing: 0,
        flags1: 1,
        flags2: 0,
        header_extra: vec![],
        ts: 1,
        dts: 0,
        before: vec![],
    }
}

fn junk(j: &Junk, f: &FragR, substream: u8, between: bool, out: &mut Vec<u8>) {
    match j {
        Junk::Bytes(b) => {
            out.extend(defuse(b));
            out.push(0xFF); // no start code across two pieces of filler
        }
        Junk::Padding(n) => {
            out.extend([0, 0, 1, 0xBE]);
            out.extend(u16::from(*n).to_be_bytes());
            out.extend(std::iter::repeat(0xFF).take(usize::from(*n)));
        }
        Junk::Long(kind, n, b) => {
            // patterns must not come together as a start code
            let b: Vec<u8> = b.iter().map(|v| if *v == 1 { 0x81 } else { *v }).collect();
            let b = if b.is_empty() { vec![0] } else { b };
            let many = b.iter().copied().cycle().take(usize::from(*n));
            match kind % 3 {
                0 => {
                    out.extend(many);
                    out.push(0xFF);
                }
                k => {
                    if k == 2 {
                        pack_header(f, out);
                    }
                    out.extend([0, 0, 1, if k == 1 { 0xBE } else { 0xE0 | kind / 3 % 16 }]);
                    out.extend(n.to_be_bytes());
                    out.extend(many);
                    out.push(0xFF);
                }
            }
        }
        Junk::Video(b) => {
            pack_header(f, out);
            let b = defuse(b);
            // any stream or code but a pack's and the subtitles' one: the end code,
            // a system header, padding, navigation, sound, video...
            let code = match b.first() {
                Some(v) if v % 2 == 1 => match 0xB9 + v / 2 % 0x47 {
                    0xBA | 0xBD => 0xB9,
                    code => code,
                },
                _ => 0xE0,
            };
            out.extend([0, 0, 1, code]);
            out.extend((b.len() as u16).to_be_bytes());
            out.extend(b);
            out.push(0xFF);
        }
        Junk::BadPack(kind, b) => {
            let b = defuse(b);
            let start = out.len();
            match kind % 10 {
                // a bare start code and a few bytes
                6 | 7 => {
                    out.extend([0, 0, 1, 0xBA]);
                    out.extend(b.iter().take(usize::from(kind / 10) % 12).map(|v| v | 0x80));
                    return;
                }
                // a pack header without packet
                8 => return pack_header(f, out),
                // the beginning of a pack header
                9 => {
                    pack_header(f, out);
                    out.truncate(start + 5 + usize::from(kind / 10) % 9);
                    out.push(0x80);
                    return;
                }
                _ => {}
            }
            pack_header(f, out);
            let pes_at = out.len();
            pes(f, Some(1), None, substream, &b, out);
            match kind % 10 {
                // MPEG-1 style version bits
                0 => out[start + 4] = 0x20 | out[start + 4] & 0x0F,
                // first marker bit of the clock cleared
                1 => out[start + 4] &= !0x04,
                // marker bits after the rate cleared
                2 => out[start + 12] &= !0x03,
                // packet marker bits wrong
                3 => out[pes_at + 6] &= 0x3F,
                // header longer than the packet (extra bytes only, so that the
                // packet as a whole is still inside the stream)
                4 => {
                    let len = u16::from_be_bytes([out[pes_at + 4], out[pes_at + 5]]);
                    if len < 250 {
                        out[pes_at + 8] = 255;
                    } else {
                        out[pes_at + 6] &= 0x3F;
                    }
                }
                // wrong time stamp prefix
                _ => out[pes_at + 9] = 0x50 | out[pes_at + 9] & 0x0F,
            }
            // a changed byte may complete a start code with its neighbours
            let tail = defuse(&out[start + 1..]);
            out.truncate(start + 1);
            out.extend(tail);
            out.push(0xFF);
        }
        Junk::Foreign(d, b) => {
            if between {
                pack_header(f, out);
                let other = substream.wrapping_add(1 + d % 254);
                pes(f, if f.ts % 2 == 1 { Some(7) } else { None }, None, other, b, out);
            }
        }
    }
}

/// Carry one subtitle packet in the stream as the recipe says.
pub fn transport(packet: &[u8], pts: u64, substream: u8, frags: &[FragR], surplus: &[u8], out: &mut Vec<u8>) {
    let plain = plain_frag();
    let mut rest = packet;
    let mut i = 0;
    loop {
        let f = frags.get(i).unwrap_or(&plain);
        let mut open = false;
        for j in &f.before {
            match j {
                // bytes which look like a packet would complete the pack before them
                Junk::Bytes(b) if open => {
                    let b: Vec<u8> = b.iter().map(|v| if *v == 1 { 0x81 } else { *v }).collect();
                    junk(&Junk::Bytes(b), f, substream, i > 0, out);
                }
                j => junk(j, f, substream, i > 0, out),
            }
            open = match j {
                Junk::BadPack(kind, _) => kind % 10 >= 6,
                Junk::Foreign(..) => open && i == 0,
                _ => open && matches!(j, Junk::Bytes(_)),
            };
        }
        pack_header(f, out);
        let last_planned = i + 1 >= frags.len();
        let mut n = usize::from(f.take);
        if i == 0 {
            n = n.max(2);
        }
        n = n.min(rest.len()).min(60_000);
        if last_planned {
            n = rest.len().min(60_000);
        }
        let mut data = rest[..n].to_vec();
        rest = &rest[n..];
        let done = rest.is_empty();
        if done {
            data.extend_from_slice(surplus);
        }
        let (p, d) = if i == 0 {
            (Some(pts), (f.ts % 3 == 2).then_some(f.dts))
        } else {
            match f.ts % 3 {
                0 => (None, None),
                1 => (Some(f.dts), None),
                _ => (Some(f.dts), Some(f.dts / 2)),
            }
        };
        pes(f, p, d, substream, &data, out);
        if done {
            return;
        }
        i += 1;
    }
}

pub fn plain_stream(packets: &[(Vec<u8>, u64)]) -> Vec<u8> {
    let mut out = vec![];
    for (p, pts) in packets {
        transport(p, *pts, 0x20, &[], &[], &mut out);
    }
    out
}

pub type DItem = Result<VItem, &'static str>;

pub fn start_codes(bytes: &[u8]) -> usize {
    bytes.windows(4).filter(|w| *w == [0, 0, 1, 0xBA]).count()
}

pub fn work_budget(bytes: &[u8]) -> u64 {
    20_000 + 2_000 * bytes.len() as u64
}

pub fn well_formed(i: &VItem) -> Result<(), String> {
    let (_, _, w, h) = i.area;
    if w < 2 || h < 2 {
        return Err(format!("delivered area {w}x{h} is smaller than 2x2"));
    }
    if i.pixels.len() != (w * h) as usize {
        return Err(format!("image has {} values for an area of {w}x{h}", i.pixels.len()));
    }
    if let Some(p) = i.pixels.iter().find(|p| **p > 3) {
        return Err(format!("image value {p} does not fit in 2 bits"));
    }
    if i.palette.iter().chain(&i.alpha).any(|v| *v > 15) {
        return Err(format!("palette {:?} or alpha {:?} exceeds 4 bits", i.palette, i.alpha));
    }
    Ok(())
}

/// Compare a decoding with what is expected; `None` expects some error.
pub fn compare(expected: &[Option<VItem>], got: &[DItem]) -> Result<(), String> {
    compare_opt(expected, got, true)
}

pub fn compare_opt(expected: &[Option<VItem>], got: &[DItem], times: bool) -> Result<(), String> {
    for (i, (e, g)) in expected.iter().zip(got).enumerate() {
        match (e, g) {
            (Some(e), Ok(g)) => {
                let mut e = e.clone();
                if !times {
                    (e.start, e.end) = (g.start, g.end);
                }
                if let Some(d) = e.diff(g) {
                    return Err(format!("subtitle {i}: {d}"));
                }
            }
            (Some(_), Err(k)) => return Err(format!("subtitle {i}: expected to decode, got error {k}")),
            (None, Ok(_)) => return Err(format!("subtitle {i}: expected an error, got a subtitle")),
            (None, Err(_)) => {}
        }
    }
    if expected.len() != got.len() {
        return Err(format!("expected {} items, got {}", expected.len(), got.len()));
    }
    Ok(())
}

// ---------------------------------------------------------------- strategies

pub fn pts33() -> BoxedStrategy<u64> {
    let s = {
        prop_oneof![
            3 => num(0u64..(1 << 33)),
            1 => num(0u64..100_000),
            1 => (num(0u64..95_443_717)).prop_map(|m| m * 90),
            1 => prop::sample::select(vec![0, (1 << 33) - 1, 1 << 32, 1 << 30, (1 << 30) - 1, 1 << 15, (1 << 15) - 1, 0x5555_5555]),
        ]
    };
    s.boxed()
}

pub fn run_r() -> BoxedStrategy<RunR> {
    let s = {
        (num(0u8..4), any16(), any8())
    };
    s.boxed()
}

pub fn nib4() -> BoxedStrategy<[u8; 4]> {
    let s = {
        prop::array::uniform4(num(0u8..16))
    };
    s.boxed()
}

/// Sizes: mostly small, sometimes real-world or extreme.
pub fn dim() -> BoxedStrategy<u16> {
    let s = {
        prop_oneof![
            8 => num(2u16..40).wide(2u16..=4096),
            2 => num(40u16..300).wide(2u16..=4096),
            1 => prop::sample::select(vec![2u16, 3, 255, 256, 257, 720, 719, 1920]),
        ]
    };
    s.boxed()
}

pub fn img_r() -> BoxedStrategy<ImgR> {
    let s = {
        (
            prop_oneof![
                12 => (dim(), dim()),
                1 => (num(2u16..30), num(300u16..1100)),
                1 => (num(1000u16..=4096), num(2u16..10)),
                1 => (prop::sample::select(vec![4095u16, 4096]), num(2u16..4)),
                1 => (num(2u16..4), prop::sample::select(vec![4095u16, 4096])),
            ],
            (num(0u16..4096), num(0u16..4096)),
            prop::collection::vec(prop::collection::vec(run_r(), 0..14), 0..7),
            prop::bool::weighted(0.15),
            (num(0u8..8), num(0u8..8)),
        )
            .prop_map(|((w, h), (x, y), lines, share, gap)| ImgR { x, y, w, h, lines, share, gap })
    };
    s.boxed()
}

/// Images whose data fill up to what a packet can hold: short runs everywhere.
pub fn dense_img_r() -> BoxedStrategy<ImgR> {
    let s = {
        let run = (num(0u8..4), prop_oneof![8 => (num(0u16..5)).prop_map(|k| 3 * k), 1 => any16()], any8());
        (
            (num(200u16..1000), num(100u16..1100)),
            (num(0u16..4096), num(0u16..4096)),
            prop::collection::vec(prop::collection::vec(run, 100..400), 1..4),
            (num(0u8..8), num(0u8..8)),
        )
            .prop_map(|((w, h), (x, y), lines, gap)| ImgR { x, y, w, h, lines, share: false, gap })
    };
    s.boxed()
}

pub fn small_img_r() -> BoxedStrategy<ImgR> {
    let s = {
        (
            (num(2u16..24).wide(2u16..=1100), num(2u16..12).wide(2u16..=800)),
            (num(0u16..4096), num(0u16..4096)),
            prop::collection::vec(prop::collection::vec(run_r(), 0..6), 0..4),
        )
            .prop_map(|((w, h), (x, y), lines)| ImgR { x, y, w, h, lines, share: false, gap: (0, 0) })
    };
    s.boxed()
}

pub fn sub_r_with(img: impl Strategy<Value = ImgR>) -> impl Strategy<Value = SubR> {
    (
        (pts33(), img, nib4(), nib4()),
        (
            prop::collection::vec(any8(), 0..8),
            prop_oneof![2 => Just(0u16), 1 => num(0u16..1000), 1 => any16()],
            prop_oneof![3 => any16().prop_map(Some), 1 => (num(0u16..1000)).prop_map(Some), 1 => Just(None)],
            any::<bool>(),
        ),
        (
            prop::option::weighted(0.2, (any16(), nib4())),
            prop::option::weighted(0.2, (num(7u8..0xFF), prop::collection::vec(any8(), 0..8))),
            num(0u8..5),
            num(0u8..6),
            prop_oneof![2 => Just(0u8), 1 => num(0u8..6)],
            prop::option::weighted(0.12, (num(40u16..2000).wide(40u16..=u16::MAX), num(0u8..3))),
        ),
    )
        .prop_map(|((pts, img, palette, alpha), (order, start, stop, force), (fade, unknown, gap, trail, overlap, fit))| SubR {
            pts,
            img,
            palette,
            alpha,
            order,
            start,
            stop,
            force,
            fade,
            unknown,
            gap,
            trail,
            overlap,
            fit,
        })
}

pub fn sub_r() -> BoxedStrategy<SubR> {
    let s = {
        sub_r_with(img_r())
    };
    s.boxed()
}
pub fn small_sub_r() -> BoxedStrategy<SubR> {
    let s = {
        sub_r_with(small_img_r())
    };
    s.boxed()
}

/// Filler bytes rich in pieces of start codes.
pub fn filler(max: usize) -> BoxedStrategy<Vec<u8>> {
    let s = {
        prop::collection::vec(
            prop_oneof![3 => any8(), 3 => Just(0u8), 1 => Just(1u8), 1 => Just(0xBAu8), 1 => Just(0xBDu8)],
            0..max,
        )
    };
    s.boxed()
}

pub fn junk_r() -> BoxedStrategy<Junk> {
    let s = {
        let short = prop_oneof![
            filler(20).prop_map(Junk::Bytes),
            any8().prop_map(Junk::Padding),
            filler(30).prop_map(Junk::Video),
            (any8(), filler(20)).prop_map(|(k, b)| Junk::BadPack(k, b)),
            (any8(), filler(20)).prop_map(|(k, b)| Junk::Foreign(k, b)),
        ];
        let long = (
            any8(),
            prop_oneof![4 => num(0u16..3000), 1 => any16(), 1 => prop::sample::select(vec![2048u16, 4096, 8192, 32768])],
            prop::collection::vec(prop_oneof![Just(0u8), any8()], 0..4),
        )
            .prop_map(|(k, n, b)| Junk::Long(k, n, b));
        prop_oneof![60 => short, 1 => long]
    };
    s.boxed()
}

pub fn frag_r() -> BoxedStrategy<FragR> {
    let s = {
        (
            (
                prop_oneof![2 => num(0u16..30), 2 => num(30u16..3000), 1 => Just(u16::MAX)],
                any64(),
                any16(),
                any32(),
                any8(),
                num(0u8..8),
            ),
            (
                any8(),
                prop_oneof![2 => Just(0u8), 1 => any8()],
                prop_oneof![2 => Just(vec![]), 2 => prop::collection::vec(Just(0xFFu8), 0..40), 1 => prop::collection::vec(any8(), 0..60), 1 => (any8(), num(0usize..256)).prop_map(|(b, n)| vec![b; n])],
                num(0u8..3),
                any64(),
                prop::collection::vec(junk_r(), 0..3),
            ),
        )
            .prop_map(|((take, scr, ext, rate, reserved, stuffing), (flags1, flags2, header_extra, ts, dts, before))| FragR {
                take,
                scr,
                ext,
                rate,
                reserved,
                stuffing,
                flags1,
                flags2,
                header_extra,
                ts,
                dts,
                before,
            })
    };
    s.boxed()
}

/// One small change of a recipe.
pub type Tweak = (u8, u16);

fn nibble(v: &mut [u8; 4], k: u16) {
    let i = usize::from(k % 4);
    v[i] = (v[i] & 15) ^ (1 << (k / 4 % 4));
}

impl SubR {
    /// The recipe of a subtitle that differs from this one in one small thing, or in nothing.
    pub fn tweaked(&self, &(what, k): &Tweak) -> Self {
        let mut r = self.clone();
        let i = usize::from(k);
        match what % 20 {
            0 => r.pts = (r.pts ^ (1 << (k % 33))) & ((1 << 33) - 1),
            1 => r.pts = (r.pts + 90) & ((1 << 33) - 1),
            2 | 3 => nibble(&mut r.palette, k),
            4 | 5 => nibble(&mut r.alpha, k),
            6 => r.img.x += u16::from(r.img.x < 3000),
            7 => r.img.y += u16::from(r.img.y < 3000),
            8 => r.img.w += u16::from(r.img.w < 900),
            9 => r.img.h += u16::from(r.img.h < 700),
            10 | 11 | 12 => {
                let n = r.img.lines.len().max(1);
                if let Some(l) = r.img.lines.get_mut(i % n) {
                    let m = l.len().max(1);
                    if let Some(run) = l.get_mut(i / n % m) {
                        match what % 20 {
                            10 | 11 => run.0 ^= 1 + (k >> 12 & 1) as u8,
                            _ => run.1 ^= 3 << (k >> 13),
                        }
                    }
                }
            }
            13 => r.start ^= 1 << (k % 10),
            14 => r.stop = r.stop.map(|s| s ^ 1 << (k % 10)),
            15 => r.force = !r.force,
            16 => r.gap = r.gap.wrapping_add(1),
            17 => r.trail = r.trail.wrapping_add(1),
            18 => r.palette.rotate_left(1),
            _ => {}
        }
        r
    }
}

/// Subtitles that each differ from the one before, or from the first, in one small thing.
pub fn near_subs() -> impl Strategy<Value = (SubR, Vec<(Tweak, bool)>)> {
    (small_sub_r(), prop::collection::vec(((any8(), any16()), prop::bool::weighted(0.7)), 1..10))
}

pub fn near<T: Clone>(first: &T, changes: &[(Tweak, bool)], by: impl Fn(&T, &Tweak) -> T) -> Vec<T> {
    let mut out = vec![first.clone()];
    for (t, last) in changes {
        let from = if *last { &out[out.len() - 1] } else { first };
        out.push(by(from, t));
    }
    out
}

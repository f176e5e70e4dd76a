// Small stream builders shared by the demonstrations.
#![allow(dead_code, unused_imports, unused_variables)]
pub use std::io::{self, BufRead, BufReader, Cursor, Read, Seek, SeekFrom, Write};
pub use std::path::{Path, PathBuf};
pub use subtile::content::{Area, AreaValues};
pub use subtile::image::*;
pub use subtile::pgs::*;
pub use subtile::time::*;
pub use subtile::vobsub::*;

/// Scratch folder given by demo.sh.
pub fn scratch() -> PathBuf {
    PathBuf::from(std::env::args().nth(1).expect("scratch folder"))
}

// ---------------------------------------------------------------- VobSub

/// Encode a line with one-nibble runs (1 to 3 pixels).
pub fn scan_line(line: &[u8]) -> Vec<u8> {
    let mut nibbles = vec![];
    let mut i = 0;
    while i < line.len() {
        let mut n = 1;
        while n < 3 && i + n < line.len() && line[i + n] == line[i] {
            n += 1;
        }
        nibbles.push((n as u8) << 2 | line[i]);
        i += n;
    }
    if nibbles.len() % 2 == 1 {
        nibbles.push(0);
    }
    nibbles.chunks(2).map(|c| c[0] << 4 | c[1]).collect()
}

pub fn area_cmd(x1: u16, x2: u16, y1: u16, y2: u16) -> Vec<u8> {
    let mut v = vec![5];
    for (a, b) in [(x1, x2), (y1, y2)] {
        v.extend([(a >> 4) as u8, (a << 4 | b >> 8) as u8, b as u8]);
    }
    v
}

/// Nibbles are given from colour 0 to colour 3, stored the other way round.
pub fn nib_cmd(cmd: u8, p: [u8; 4]) -> Vec<u8> {
    vec![cmd, p[3] << 4 | p[2], p[1] << 4 | p[0]]
}

/// A control sequence: date and commands (without the end mark).
pub type Seq = (u16, Vec<u8>);

/// Chain sequences after `data` (which starts at offset 4 of the subtitle).
pub fn spu_of(data: &[u8], seqs: &[Seq]) -> Vec<u8> {
    let ctrl = 4 + data.len();
    let mut out = vec![0, 0, (ctrl >> 8) as u8, ctrl as u8];
    out.extend(data);
    for (i, (date, cmds)) in seqs.iter().enumerate() {
        let here = out.len();
        let next = if i + 1 == seqs.len() { here } else { here + 4 + cmds.len() + 1 };
        out.extend(date.to_be_bytes());
        out.extend((next as u16).to_be_bytes());
        out.extend(cmds);
        out.push(0xff);
    }
    let len = out.len() as u16;
    out[..2].copy_from_slice(&len.to_be_bytes());
    out
}

/// Both fields of an image, and the command locating them.
pub fn fields(w: usize, pixels: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let mut f = [vec![], vec![]];
    for (y, line) in pixels.chunks(w).enumerate() {
        f[y % 2].extend(scan_line(line));
    }
    let o1 = 4 + f[0].len() as u16;
    let cmd = vec![6, 0, 4, (o1 >> 8) as u8, o1 as u8];
    (f.concat(), cmd)
}

/// Plain subtitle at (10, 20), `w` pixels wide.
pub fn spu(w: usize, pixels: &[u8], start: u16, stop: Option<u16>) -> Vec<u8> {
    let h = pixels.len() / w;
    let (data, offs) = fields(w, pixels);
    let mut cmds = vec![1];
    cmds.extend(nib_cmd(3, [0, 1, 2, 3]));
    cmds.extend(nib_cmd(4, [0, 5, 10, 15]));
    cmds.extend(area_cmd(10, 10 + w as u16 - 1, 20, 20 + h as u16 - 1));
    cmds.extend(offs);
    let mut seqs = vec![(start, cmds)];
    if let Some(stop) = stop {
        seqs.push((stop, vec![2]));
    }
    spu_of(&data, &seqs)
}

pub fn stamp(prefix: u8, t: u64) -> [u8; 5] {
    [
        prefix << 4 | ((t >> 30) as u8 & 7) << 1 | 1,
        (t >> 22) as u8,
        ((t >> 15) as u8) << 1 | 1,
        (t >> 7) as u8,
        (t as u8) << 1 | 1,
    ]
}

pub const PACK: [u8; 14] = [0, 0, 1, 0xba, 0x44, 0, 4, 0, 4, 1, 0, 0, 3, 0xf8];

/// A pack holding one PES packet of the private stream.
pub fn pack_ext(pts: Option<u64>, stuffing: usize, substream: u8, payload: &[u8]) -> Vec<u8> {
    let mut body = vec![0x81, if pts.is_some() { 0x80 } else { 0 }];
    let hdr = pts.map_or(vec![], |t| stamp(2, t).to_vec());
    body.push((hdr.len() + stuffing) as u8);
    body.extend(hdr);
    body.extend(vec![0xff; stuffing]);
    body.push(substream);
    body.extend(payload);
    let mut out = PACK.to_vec();
    out.extend([0, 0, 1, 0xbd]);
    out.extend((body.len() as u16).to_be_bytes());
    out.extend(body);
    out
}

pub fn pack(pts: u64, payload: &[u8]) -> Vec<u8> {
    pack_ext(Some(pts), 0, 0x20, payload)
}

pub type VobItem = Result<(TimeSpan, VobSubIndexedImage), VobSubError>;

pub fn open_sub(stream: &[u8]) -> Sub {
    let path = scratch().join("stream.sub");
    std::fs::write(&path, stream).unwrap();
    Sub::open(path).unwrap()
}

pub fn decode_sub(stream: &[u8]) -> Vec<VobItem> {
    open_sub(stream).subtitles::<(TimeSpan, VobSubIndexedImage)>().collect()
}

// ------------------------------------------------------------------- PGS

pub fn seg(pts: u32, code: u8, payload: &[u8]) -> Vec<u8> {
    let mut v = b"PG".to_vec();
    v.extend(pts.to_be_bytes());
    v.extend([0; 4]);
    v.push(code);
    v.extend((payload.len() as u16).to_be_bytes());
    v.extend(payload);
    v
}

/// Palette of (id, luminance, alpha).
pub fn pds(pts: u32, entries: &[(u8, u8, u8)]) -> Vec<u8> {
    let mut p = vec![0, 0];
    for (id, y, a) in entries {
        p.extend([*id, *y, 128, 128, *a]);
    }
    seg(pts, 0x14, &p)
}

pub fn ods(pts: u32, w: u16, h: u16, data: &[u8]) -> Vec<u8> {
    let mut p = vec![0, 0, 0, 0xc0];
    p.extend(&((data.len() + 4) as u32).to_be_bytes()[1..]);
    p.extend(w.to_be_bytes());
    p.extend(h.to_be_bytes());
    p.extend(data);
    seg(pts, 0x15, &p)
}

pub fn end(pts: u32) -> Vec<u8> {
    seg(pts, 0x80, &[])
}

/// A subtitle of 90 kHz times `t0` and `t1`.
pub fn pgs_sub(t0: u32, t1: u32, pal: &[(u8, u8, u8)], w: u16, h: u16, data: &[u8]) -> Vec<u8> {
    [
        seg(t0, 0x16, &[7; 19]),
        seg(t0, 0x17, &[9; 10]),
        pds(t0, pal),
        ods(t0, w, h, data),
        end(t0),
        seg(t1, 0x16, &[7; 11]),
        seg(t1, 0x17, &[9; 10]),
        end(t1),
    ]
    .concat()
}

pub type PgsItem = Result<(TimeSpan, RleEncodedImage), PgsError>;

pub fn decode_pgs<R: BufRead + Seek>(reader: R) -> Vec<PgsItem> {
    let mut parser = SupParser::<R, DecodeTimeImage>::new(reader);
    let mut items = vec![];
    while let Some(item) = parser.next() {
        items.push(item);
        assert!(items.len() < 10_000, "endless items");
    }
    items
}

pub fn decode_times<R: BufRead + Seek>(reader: R) -> Vec<Result<TimeSpan, PgsError>> {
    let mut parser = SupParser::<R, DecodeTimeOnly>::new(reader);
    let mut items = vec![];
    while let Some(item) = parser.next() {
        items.push(item);
        assert!(items.len() < 10_000, "endless items");
    }
    items
}

pub fn span(a: i64, b: i64) -> TimeSpan {
    TimeSpan::new(TimePoint::from_msecs(a), TimePoint::from_msecs(b))
}

pub fn luma_alpha(img: &RleEncodedImage) -> Vec<(u8, u8)> {
    img.iter().map(|p| (p[0], p[1])).collect()
}

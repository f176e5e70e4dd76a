//! C07 - C10: index files, palette text, probing, unreadable paths.

use crate::fw::IO_KINDS;
use crate::dict::{word, word_if, any16, any32, any64, any8, num};
use super::Check;
use crate::ensure;
use crate::fw::{no_panic, scratch, Ctx, Obs};
use crate::mutate::{self, muts, Mut};
use crate::pgs::FaultReader;

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::error::Error as _;
use std::ffi::{OsStr, OsString};
use std::io::{self, BufReader, Cursor, Read};
use std::os::unix::ffi::OsStrExt as _;
use std::path::{Path, PathBuf};
use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, PgsError, SupParser};
use subtile::vobsub::{self, is_idx_file, is_sub_file, palette, IResultExt as _, Index, NomError, Sub, VobSubError};

pub fn checks() -> Vec<Check> {
    checks![
        "C07": Check { id: "C07", rule: "index texts built line by line (palettes, languages, comments, unknown keys, blank lines, malformed lines; both line endings, with or without a final one), read through buffers of any capacity, in pieces, with failing readers and from a path, with tens of thousands of lines or very long ones, and arbitrary bytes; non-trivial: a palette or id line present among others, or an error expected", assumptions: &["a text that has both a malformed palette and invalid UTF-8 may be reported as either"], run: c07 },
        "C08": Check { id: "C08", rule: "palettes written with any letter case followed by anything, near misses by mutation, and arbitrary bytes, judged by an independent parser of the grammar; non-trivial: 15 to 17 colours are involved", assumptions: &[], run: c08 },
        "C09": Check { id: "C09", rule: "files starting with a full, cut or altered signature of either kind followed by anything, of every length from empty, under names that suggest either kind or none; non-trivial: at least one leading byte of a signature is present", assumptions: &["the content is read from a file in a scratch directory"], run: c09 },
        "C10": Check { id: "C10", rule: "missing files, missing parents, files used as directories, dangling links, directories, names too long, names with odd, non UTF-8 or NUL bytes; every case is non-trivial", assumptions: &["permission failures cannot be provoked by root and are not covered"], run: c10 },
    ]
}

type Pal = [[u8; 3]; 16];

/// The palette of an index that has none.
const DEFAULT: Pal = [
    [0x00, 0x00, 0x00], [0xf0, 0xf0, 0xf0], [0xcc, 0xcc, 0xcc], [0x99, 0x99, 0x99],
    [0x33, 0x33, 0xfa], [0x11, 0x11, 0xbb], [0xfa, 0x33, 0x33], [0xbb, 0x11, 0x11],
    [0x33, 0xfa, 0x33], [0x11, 0xbb, 0x11], [0xfa, 0xfa, 0x33], [0xbb, 0xbb, 0x11],
    [0xfa, 0x33, 0xfa], [0xbb, 0x11, 0xbb], [0x33, 0xfa, 0xfa], [0x11, 0xbb, 0xbb],
];

fn plain(p: &vobsub::Palette) -> Pal {
    p.map(|c| c.0)
}

fn colours() -> impl Strategy<Value = Pal> {
    prop_oneof![
        3 => prop::array::uniform16(prop::array::uniform3(any8())),
        1 => Just(DEFAULT),
        1 => any8().prop_map(|s| std::array::from_fn(|i| [s.wrapping_add(i as u8), i as u8, 0xA0 | i as u8])),
    ]
}

/// Hexadecimal digits; bit i of `case` makes digit i upper case.
fn hex(c: [u8; 3], case: u8) -> String {
    let s = format!("{:02x}{:02x}{:02x}", c[0], c[1], c[2]);
    s.chars()
        .enumerate()
        .map(|(i, ch)| if case >> i & 1 == 1 { ch.to_ascii_uppercase() } else { ch })
        .collect()
}

fn palette_text(p: &Pal, case: u64) -> String {
    let v: Vec<String> = p
        .iter()
        .enumerate()
        .map(|(i, c)| hex(*c, (case.rotate_left(i as u32 * 6) & 0x3F) as u8))
        .collect();
    v.join(", ")
}

// ------------------------------------------------------------------ C07

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum L {
    Palette(Pal, u64),
    /// a palette line with another number of colours, or a spoilt one
    BadPalette(Pal, u8, u8),
    Id(String, u32),
    BadId(String),
    /// a language line with something else for an index
    IdOf(String, String),
    Comment(String),
    Blank(String),
    Unknown(String, String),
    NoKey(String),
    /// so many time stamp lines
    Stamps(u16),
    /// a comment, key or value of this length
    Long(u8, u32),
    /// a language line whose index has this many digits more
    LongId(String, u32),
    /// a palette line with this many blanks at its end
    LongPalette(Pal, u8, u32),
}

impl L {
    fn text(&self) -> String {
        match self {
            Self::Palette(p, c) => format!("palette: {}", palette_text(p, *c)),
            Self::BadPalette(p, how, at) => {
                let mut v: Vec<String> = p.iter().map(|c| hex(*c, 0)).collect();
                let i = usize::from(*at) % 16;
                match how % 8 {
                    0 => v.truncate(i.max(1)),
                    1 => v.extend(std::iter::repeat_n("a1b2c3".to_string(), i + 1)),
                    2 => v[i].truncate(5),
                    3 => v[i].replace_range(3..4, "g"),
                    4 => v[i].push('0'),
                    5 => return format!("palette: {}", v.join(",")),
                    // something after the colours
                    7 => return format!("palette: {}{}", v.join(", "), ["\0", ",", ";", " #", "\u{feff}", ", x", "\r#", " 0"][i % 8]),
                    _ => v[i].insert(0, '#'),
                }
                format!("palette: {}", v.join(", "))
            }
            Self::Id(l, n) => format!("id: {l}, index: {n}"),
            Self::BadId(v) => format!("id: {v}"),
            Self::IdOf(l, i) => format!("id: {l}, index: {i}"),
            Self::Comment(t) => format!("#{t}"),
            Self::Blank(t) | Self::NoKey(t) => t.clone(),
            Self::Unknown(k, v) => format!("{k}: {v}"),
            Self::Stamps(n) => (0..u32::from(*n))
                .map(|i| format!("timestamp: {:02}:{:02}:{:02}:000, filepos: {:09x}", i / 3600, i / 60 % 60, i % 60, i * 0x800))
                .collect::<Vec<_>>()
                .join("\n"),
            Self::LongId(l, n) => format!("id: {l}, index: 1{}", "0".repeat(*n as usize)),
            Self::LongPalette(p, k, n) => {
                let blank = if k & 1 == 0 { " " } else { "\t" };
                format!("palette: {}{}", palette_text(p, u64::from(*k)), blank.repeat(*n as usize))
            }
            Self::Long(k, n) => {
                let t = "palette: id: en, index: ".repeat(*n as usize / 24 + 1);
                match k % 5 {
                    0 => format!("# {t}"),
                    1 => format!("alt: {t}"),
                    // of characters of two to four bytes, at any offset
                    2 | 3 => format!("#{}{}", "-".repeat(usize::from(k / 5 % 7)), "é漢😀".repeat(*n as usize / 24 + 1)),
                    _ => format!("{}: x", "k".repeat(*n as usize + 1)),
                }
            }
        }
    }
}

/// A text of the library's source that can stand within a line.
fn inline_word() -> impl Strategy<Value = String> {
    word_if("x", |w| !w.contains(['\n', '\r']))
}

fn line() -> impl Strategy<Value = L> {
    let free = "[ -~]{0,30}";
    prop_oneof![
        3 => (colours(), any64()).prop_map(|(p, c)| L::Palette(p, c)),
        1 => (colours(), any8(), any8()).prop_map(|(p, h, a)| L::BadPalette(p, h, a)),
        3 => ("[a-z]{1,3}|[a-z]{4,40}", num(0u32..200)).prop_map(|(l, n)| L::Id(l, n)),
        1 => ("[a-z]{2}", any32()).prop_map(|(l, n)| L::Id(l, n)),
        1 => (word_if("en", |w| !w.is_empty() && w.bytes().all(|b| b.is_ascii_lowercase())), num(0u32..200)).prop_map(|(l, n)| L::Id(l, n)),
        1 => (inline_word(), inline_word()).prop_map(|(a, b)| L::Comment(a + &b)),
        1 => (word_if("alt", |w| w != "id" && w != "palette" && w.bytes().all(|b| b.is_ascii_alphabetic() || b == b'/' || b == b' ')), inline_word()).prop_map(|(k, v)| L::Unknown(k, v)),
        1 => prop::sample::select(vec![
            "--, index: 0", "\0en, index: 0", "\u{feff}en, index: 0", "EN, index: 0", "en index: 0", "en", ", index: 1", "en, index 0", "en; index: 0", "e1, index: 0", "en,index: 0", "en, Index: 0", "é, index: 0", "en-us, index: 0", "en-, index: 0", "pt_br, index: 0", "en , index: 0", "en.us, index: 0", "en/us, index: 0", "en us, index: 0", "enG, index: 0", "en+, index: 0", "(en), index: 0",
        ]).prop_map(|s| L::BadId(s.to_string())),
        1 => ("[a-z]{1,4}", prop_oneof![
            3 => prop::sample::select(vec!["x", "?", "-1", "0x1F", "1 # note", "1, 2", "é", " 7", "007", "1.5", "0, index: 1", "\"0\"", "99999999999999999999", "0\tfr", "id: de, index: 2", "#"]).prop_map(String::from),
            1 => word_if("x", |w| !w.contains(['\n', '\r']) && !w.trim().is_empty()),
        ]).prop_map(|(l, i)| L::IdOf(l, i)),
        2 => free.prop_map(L::Comment),
        1 => (colours(), any64()).prop_map(|(p, c)| L::Comment(format!(" palette: {}", palette_text(&p, c)))),
        1 => (colours(), any64()).prop_map(|(p, c)| L::Comment(format!("palette: {}", palette_text(&p, c)))),
        1 => Just(L::Comment("id: zz, index: 0".to_string())),
        1 => prop::sample::select(vec!["", " ", "\t", "   "]).prop_map(|s| L::Blank(s.to_string())),
        4 => (
            prop::sample::select(vec!["size", "org", "scale", "alpha", "smooth", "fadein/out", "align", "time offset", "forced subs", "langidx", "timestamp", "delay", "custom colors", "alt", "Idx", "xpalette", "palettes", "pid", "idx", "Palette", "ID", " id", " palette", "  id", "id ", "palette ", "x/id"]),
            prop_oneof![free.prop_map(String::from), (colours(), any64()).prop_map(|(p, c)| palette_text(&p, c)), Just("720x480".to_string()), Just("00:00:01:101, filepos: 000000000".to_string()), Just("OFF, tridx: 1000, colors: 000000, ffffff, 000000, 444444".to_string()), Just("en, index: 0".to_string())],
        ).prop_map(|(k, v)| L::Unknown(k.to_string(), v)),
        // a line that would be one of a palette or language, if it began later
        1 => (
            prop::sample::select(vec!["\u{feff}", "\0", "\r", "-", "\"", "1", "; ", "x\r", "x: \r", "\u{a0}", "\u{b}", "é", "a.", "<", "//!"]),
            prop_oneof![(colours(), any64()).prop_map(|(p, c)| format!("palette: {}", palette_text(&p, c))), "[a-z]{2}".prop_map(|l| format!("id: {l}, index: 0"))],
        ).prop_map(|(p, l)| L::NoKey(format!("{p}{l}"))),
        1 => prop::sample::select(vec!["no key here", "palette", "id", "12: 34", "\u{feff}", "é: è", "????"]).prop_map(|s| L::NoKey(s.to_string())),
    ]
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Idx {
    lines: Vec<(L, u8)>,
    last_newline: bool,
    header: bool,
    /// where to put bytes that are not UTF-8
    bad_utf8: Option<(u16, u8)>,
    cap: u16,
    sizes: Vec<u8>,
    fail: Option<(u16, u8)>,
}

impl Idx {
    fn bytes(&self) -> Vec<u8> {
        let mut s = String::new();
        if self.header {
            s += "# VobSub index file, v7 (do not modify this line!)\n";
        }
        let n = self.lines.len();
        for (i, (l, e)) in self.lines.iter().enumerate() {
            s += &l.text();
            if e & 4 != 0 {
                s += [" ", "  ", "\t"][usize::from(e >> 3) % 3];
            }
            if i + 1 < n || self.last_newline {
                s += if e & 1 == 0 { "\n" } else { "\r\n" };
            }
        }
        let mut b = s.into_bytes();
        if let Some((at, k)) = self.bad_utf8 {
            let bad: &[u8] = [&[0xFFu8][..], &[0xC3, 0x28], &[0x80], &[0xED, 0xA0, 0x80], &[0xF5, 0x80, 0x80, 0x80]][usize::from(k) % 5];
            let mut i = usize::from(at) % (b.len() + 1);
            // not in the middle of a character, where it could complete nothing anyway
            while i < b.len() && b[i] & 0xC0 == 0x80 {
                i += 1;
            }
            b.splice(i..i, bad.iter().copied());
        }
        b
    }
}

struct Pieces<'a> {
    data: &'a [u8],
    sizes: &'a [u8],
    n: usize,
}
impl Read for Pieces<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let k = if self.sizes.is_empty() { 255 } else { self.sizes[self.n % self.sizes.len()] };
        self.n += 1;
        if k == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = usize::from(k).min(buf.len()).min(self.data.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

type Read_ = (Pal, Option<String>);

fn outcome(r: Result<Index, VobSubError>, path: &Path) -> Result<Result<Read_, &'static str>, String> {
    Ok(match r {
        Ok(i) => {
            let lang = i.lang().as_ref().map(|l| l.lang().to_string());
            let copy = Index::init(*i.palette(), i.lang().clone());
            ensure!(
                plain(copy.palette()) == plain(i.palette()) && copy.lang().as_ref().map(|l| l.lang().to_string()) == lang,
                "an index made from a palette and a language does not return them"
            );
            Ok((plain(i.palette()), lang))
        }
        Err(VobSubError::PaletteError(_)) => Err("palette"),
        Err(VobSubError::Io { path: p, .. }) => {
            ensure!(p == path, "the error names {p:?} instead of {path:?}");
            Err("io")
        }
        Err(e) => return Err(format!("unexpected error {e:?}")),
    })
}

fn read_with<R: Read>(r: R, cap: usize) -> Result<Result<Read_, &'static str>, String> {
    let path = Path::new("some/name.idx");
    let mkerr = |source| VobSubError::Io { source, path: path.into() };
    let r = no_panic(|| Index::read_index(BufReader::with_capacity(cap, r), &mkerr))?;
    outcome(r, path)
}

fn c07(c: &Ctx) {
    let strat_of = |lines: BoxedStrategy<Vec<(L, u8)>>| {
        (
            lines,
            any::<bool>(),
            any::<bool>(),
            prop::option::weighted(0.15, (any16(), any8())),
            prop_oneof![3 => num(1u16..65), 1 => num(65u16..9000)],
            prop::collection::vec(prop_oneof![1 => Just(0u8), 8 => num(1u8..40)], 0..6).prop_map(|mut v| {
                v.push(7);
                v
            }),
            prop::option::weighted(0.3, (any16(), any8())),
        )
            .prop_map(|(lines, last_newline, header, bad_utf8, cap, sizes, fail)| Idx {
                lines,
                last_newline,
                header,
                bad_utf8,
                cap,
                sizes,
                fail,
            })
    };
    let strat = || strat_of(prop::collection::vec((line(), any8()), 0..10).boxed());
    let long = || {
        let l = prop_oneof![
            3 => line(),
            1 => num(0u16..4000).wide(0u16..=u16::MAX).prop_map(L::Stamps),
            1 => (any8(), num(0u32..200_000)).prop_map(|(k, n)| L::Long(k, n)),
            1 => ("[a-z]{2}", num(0u32..3000).wide(0u32..200_000)).prop_map(|(l, n)| L::LongId(l, n)),
            1 => (colours(), any8(), num(0u32..3000).wide(0u32..200_000)).prop_map(|(p, k, n)| L::LongPalette(p, k, n)),
        ];
        strat_of(prop_oneof![
            prop::collection::vec((l, any8()), 1..10),
            prop::collection::vec((line(), any8()), 10..400),
        ].boxed())
    };
    let judge = |r: &Idx, o: &mut Obs, file: bool| -> Result<(), String> {
        let bytes = r.bytes();
        let bad_palette = r.lines.iter().any(|l| matches!(l.0, L::BadPalette(..)));
        let pal = r
            .lines
            .iter()
            .rev()
            .find_map(|l| if let L::Palette(p, _) | L::LongPalette(p, ..) = &l.0 { Some(*p) } else { None })
            .unwrap_or(DEFAULT);
        let lang = r
            .lines
            .iter()
            .rev()
            .find_map(|l| match &l.0 {
                L::Id(l, _) | L::LongId(l, _) | L::IdOf(l, _) => Some(Some(l.clone())),
                L::BadId(_) => Some(None),
                _ => None,
            })
            .flatten();
        let check = |name: &str, got: Result<Read_, &'static str>| -> Result<(), String> {
            match (r.bad_utf8.is_some(), bad_palette) {
                (true, true) => ensure!(got.is_err(), "{name}: malformed text accepted"),
                (true, false) => ensure!(got == Err("io"), "{name}: text that is not UTF-8 gives {got:?}"),
                (false, true) => ensure!(got == Err("palette"), "{name}: a malformed palette gives {got:?}"),
                (false, false) => match got {
                    Err(e) => return Err(format!("{name}: {e} error on a well-formed index")),
                    Ok((p, l)) => {
                        ensure!(p == pal, "{name}: palette: expected {pal:x?}, got {p:x?}");
                        ensure!(l == lang, "{name}: language: expected {lang:?}, got {l:?}");
                    }
                },
            }
            Ok(())
        };
        check("memory", read_with(Cursor::new(&bytes), 8192)?)?;
        check(&format!("buffer of {}", r.cap), read_with(Cursor::new(&bytes), usize::from(r.cap))?)?;
        check("pieces", read_with(Pieces { data: &bytes, sizes: &r.sizes, n: 0 }, usize::from(r.cap))?)?;
        if file {
            let p = scratch().join("t.idx");
            std::fs::write(&p, &bytes).map_err(|e| format!("harness: {e}"))?;
            check("path", outcome(no_panic(|| Index::open(&p))?, &p)?)?;
        }
        if let Some((at, k)) = r.fail {
            // a failing reader: the error unless the bad palette comes first
            let inner = Pieces { data: &bytes, sizes: &[9], n: 0 };
            let ops = bytes.len() / 9 + 1;
            let f = FaultReader::new(inner, usize::from(at) % ops, true, IO_KINDS[usize::from(k) % IO_KINDS.len()]);
            let got = read_with(f, usize::from(r.cap))?;
            if bad_palette || r.bad_utf8.is_some() {
                ensure!(got.is_err(), "failing reader: accepted");
            } else {
                ensure!(got == Err("io"), "failing reader: {got:?}");
            }
            o.label("failing reader");
        }
        let keyed = r.lines.iter().filter(|l| matches!(l.0, L::Palette(..) | L::LongPalette(..) | L::Id(..) | L::LongId(..) | L::BadId(_) | L::IdOf(..))).count();
        o.label_if(bad_palette, "bad palette");
        o.label_if(r.bad_utf8.is_some(), "not UTF-8");
        o.label_if(keyed > 0 && pal == DEFAULT, "default palette");
        o.label_if(lang.is_some(), "language");
        o.nontrivial_if((keyed > 0 && r.lines.len() > 1) || bad_palette || r.bad_utf8.is_some());
        Ok(())
    };
    c.search("lines", 120_000, 2_500_000, strat, move |r: &Idx, o| judge(r, o, false));
    c.search("files", 40_000, 800_000, strat, move |r: &Idx, o| judge(r, o, true));
    c.search("long", 1_500, 30_000, long, move |r: &Idx, o| judge(r, o, true));
    c.search(
        "bytes",
        150_000,
        3_000_000,
        || {
            let tok = prop_oneof![
                3 => Just(b"palette: ".to_vec()),
                2 => Just(b"id: ".to_vec()),
                2 => Just(b", index: ".to_vec()),
                2 => Just(b"\n".to_vec()),
                1 => Just(b"\r".to_vec()),
                4 => prop::array::uniform3(any8()).prop_map(|c| format!("{}, ", hex(c, c[0])).into_bytes()),
                2 => (colours(), any64()).prop_map(|(p, c)| palette_text(&p, c).into_bytes()),
                2 => prop::collection::vec(any8(), 0..8),
                1 => "\\PC{0,6}".prop_map(String::into_bytes),
                1 => word().prop_map(String::into_bytes),
            ];
            (prop::collection::vec(tok, 0..14).prop_map(|v| v.concat()), num(1u16..100))
        },
        |(b, cap): &(Vec<u8>, u16), o: &mut Obs| {
            let a = read_with(Cursor::new(b), usize::from(*cap))?;
            let d = read_with(Cursor::new(b), 8192)?;
            ensure!(a == d, "buffer of {cap}: {a:?}, buffer of 8192: {d:?}");
            ensure!(std::str::from_utf8(b).is_ok() || a.is_err(), "bytes that are not UTF-8 accepted");
            o.nontrivial_if(b.windows(9).any(|w| w == b"palette: "));
            Ok(())
        },
    );
}

// ------------------------------------------------------------------ C08

/// The grammar, read independently: colour (", " colour)*, exactly 16.
fn reference_palette(b: &[u8]) -> Option<(Pal, &[u8])> {
    fn nibble(c: u8) -> Option<u8> {
        match c {
            b'0'..=b'9' => Some(c - b'0'),
            b'a'..=b'f' => Some(c - b'a' + 10),
            b'A'..=b'F' => Some(c - b'A' + 10),
            _ => None,
        }
    }
    fn colour(b: &[u8]) -> Option<[u8; 3]> {
        let mut out = [0; 3];
        for (i, o) in out.iter_mut().enumerate() {
            *o = nibble(*b.get(2 * i)?)? << 4 | nibble(*b.get(2 * i + 1)?)?;
        }
        Some(out)
    }
    let mut v = vec![colour(b)?];
    let mut at = 6;
    while b[at..].starts_with(b", ") {
        match colour(&b[at + 2..]) {
            Some(c) => v.push(c),
            None => break,
        }
        at += 8;
    }
    Some((v.try_into().ok()?, &b[at..]))
}

fn judge_palette(b: &[u8], o: &mut Obs) -> Result<(), String> {
    let want = reference_palette(b);
    let got = no_panic(|| palette(b).ok().map(|(rest, p)| (rest.len(), plain(&p))))?;
    let want = want.map(|(p, rest)| (rest.len(), p));
    ensure!(got == want, "expected (rest length, palette) {want:x?}, got {got:x?}");
    // the library's own ways of taking a result
    let strict = no_panic(|| palette(b).to_result_no_rest().map(|p| plain(&p)))?;
    let message = strict.as_ref().err().map(ToString::to_string);
    match (&want, &strict) {
        (Some((0, p)), Ok(q)) => ensure!(p == q, "read strictly: expected {p:x?}, got {q:x?}"),
        (Some((n, _)), r) if *n > 0 => ensure!(matches!(r, Err(NomError::UnexpectedInput)), "read strictly with {n} bytes too many: {r:x?}"),
        (None, r) => ensure!(matches!(r, Err(NomError::Error(_) | NomError::Failure(_))), "read strictly, not being a palette: {r:x?}"),
        (w, r) => return Err(format!("read strictly: expected {w:x?}, got {r:x?}")),
    }
    ensure!(message.as_deref() != Some(""), "an error without message");
    let loose = no_panic(|| palette(b).to_result().map(|(rest, p)| (rest == &b[b.len() - rest.len()..], rest.len(), plain(&p))))?;
    ensure!(loose.as_ref().ok().map(|l| (l.1, l.2)) == want && loose.as_ref().map_or(true, |l| l.0), "read loosely: expected {want:x?}, got {loose:x?}");
    o.label(if got.is_some() { "accepted" } else { "rejected" });
    let n = b.windows(2).filter(|w| w == b", ").count();
    o.nontrivial_if((14..=16).contains(&n));
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct PText {
    p: Pal,
    case: u64,
    rest: Vec<u8>,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct PMut {
    p: Pal,
    case: u64,
    count: u8,
    muts: Vec<Mut>,
    spoil: u16,
}

fn c08(c: &Ctx) {
    let rest = || {
        prop_oneof![
            4 => Just(vec![]),
            3 => prop::sample::select(vec![" ", ",", ", ", ", 12345", "\n", "\r\n", "0", "ff", "f", ", gggggg", ",000000", " 000000", ";", ", 12345g", ",  000000", "123456"]).prop_map(|s| s.as_bytes().to_vec()),
            1 => prop::collection::vec(any8(), 0..10),
            1 => word().prop_map(String::into_bytes),
        ]
    };
    c.search(
        "valid",
        600_000,
        6_000_000,
        || (colours(), any64(), rest()).prop_map(|(p, case, rest)| PText { p, case, rest }),
        |t: &PText, o| {
            let mut b = palette_text(&t.p, t.case).into_bytes();
            let n = b.len();
            b.extend(&t.rest);
            o.nontrivial();
            judge_palette(&b, o)?;
            // is the rest itself another separated colour?
            let more = t.rest.len() >= 8 && t.rest.starts_with(b", ") && t.rest[2..8].iter().all(u8::is_ascii_hexdigit);
            let got = no_panic(|| palette(&b).ok().map(|(rest, p)| (rest.to_vec(), plain(&p))))?;
            if more {
                ensure!(got.is_none(), "17 colours accepted");
            } else {
                match got {
                    None => return Err(format!("16 colours in {n} bytes rejected")),
                    Some((rest, p)) => {
                        ensure!(p == t.p, "expected {:x?}, got {p:x?}", t.p);
                        ensure!(rest == t.rest, "left {rest:?} instead of {:?}", t.rest);
                    }
                }
            }
            Ok(())
        },
    );
    c.search(
        "near_misses",
        800_000,
        8_000_000,
        || {
            (colours(), any64(), prop_oneof![3 => Just(16u8), 2 => num(14u8..19), 1 => num(0u8..40)], muts(4), any16())
                .prop_map(|(p, case, count, muts, spoil)| PMut { p, case, count, muts, spoil })
        },
        |t: &PMut, o| {
            let mut cols: Vec<String> = (0..usize::from(t.count)).map(|i| hex(t.p[i % 16], (t.case >> (i % 32)) as u8)).collect();
            // sometimes only a wrong count, sometimes one character replaced, sometimes any mutation
            let b = match t.spoil % 4 {
                0 => cols.join(", ").into_bytes(),
                1 if !cols.is_empty() => {
                    let i = usize::from(t.spoil >> 2) % cols.len();
                    let bad = ["g", "G", " ", "", "+", "-", "x", "é", "/", ":", "@", "`", "_", "\0"];
                    let at = usize::from(t.spoil >> 6) % 6;
                    cols[i].replace_range(at..=at, bad[usize::from(t.spoil >> 9) % bad.len()]);
                    cols.join(", ").into_bytes()
                }
                2 if cols.len() > 1 => {
                    let i = usize::from(t.spoil >> 2) % (cols.len() - 1);
                    let sep = [",", " ,", ",  ", " ", ";", "; ", ",\t", "\n", ""][usize::from(t.spoil >> 7) % 9];
                    format!("{}{sep}{}", cols[..=i].join(", "), cols[i + 1..].join(", ")).into_bytes()
                }
                _ => mutate::apply(cols.join(", ").into_bytes(), &t.muts),
            };
            judge_palette(&b, o)
        },
    );
    c.search("bytes", 400_000, 4_000_000, || prop::collection::vec(any8(), 0..140), |b: &Vec<u8>, o| {
        judge_palette(b, o)?;
        o.nontrivial_if(!b.is_empty());
        Ok(())
    });
    // every byte value at every position of the first, a middle and the last colour
    c.enumerate(
        "single_byte",
        true,
        (0usize..126).flat_map(|at| (0..=255u8).map(move |v| (at, v))),
        |&(at, v): &(usize, u8), o: &mut Obs| {
            let mut b = palette_text(&DEFAULT, 0x5A5A_1234_9999_0F0F).into_bytes();
            ensure!(b.len() == 126, "harness: {} bytes", b.len());
            b[at] = v;
            judge_palette(&b, o)
        },
    );

}

// ------------------------------------------------------------------ C09

const IDX_MAGIC: &[u8] = b"# VobSub index file";
const SUB_MAGIC: &[u8] = &[0, 0, 1, 0xBA];

/// Names of files to probe, which say something of the content, or nothing.
const NAMES: [&str; 10] = ["probe.bin", "probe", "probe.idx", "probe.sub", "PROBE.IDX", "probe.SUB", "probe.sup", "probe.txt", ".idx", "# VobSub index file"];

fn probe((content, name): &(Vec<u8>, u8), o: &mut Obs) -> Result<(), String> {
    let p = scratch().join("c09");
    std::fs::create_dir_all(&p).map_err(|e| format!("harness: {e}"))?;
    let p = p.join(NAMES[usize::from(*name) % NAMES.len()]);
    std::fs::write(&p, content).map_err(|e| format!("harness: {e}"))?;
    let (i, s) = no_panic(|| (is_idx_file(&p), is_sub_file(p.as_os_str())))?;
    for (name, got, magic) in [("index", i, IDX_MAGIC), ("stream", s, SUB_MAGIC)] {
        let want = content.starts_with(magic);
        match got {
            Ok(g) => ensure!(g == want, "{name} probe: expected {want}, got {g}"),
            Err(e) => return Err(format!("{name} probe of {} bytes: expected {want}, got error {e:?}", content.len())),
        }
        o.label_if(want, "positive");
        o.nontrivial_if(!content.is_empty() && content[0] == magic[0]);
    }
    o.label_if(content.len() < 4, "shorter than both signatures");
    Ok(())
}

fn c09(c: &Ctx) {
    c.enumerate(
        "near_signatures",
        false,
        [IDX_MAGIC, SUB_MAGIC].into_iter().flat_map(|m| {
            let cuts = (0..=m.len()).map(move |n| m[..n].to_vec());
            let flips = (0..m.len()).flat_map(move |i| {
                [1u8, 0x20, 0x80, 0xFF].into_iter().flat_map(move |x| {
                    let mut v = m.to_vec();
                    v[i] ^= x;
                    let mut w = v.clone();
                    w.extend(b"tail");
                    [v, w]
                })
            });
            let tails = (0..40usize).map(move |n| [m, &vec![0xFE; n][..]].concat());
            cuts.chain(flips).chain(tails).flat_map(|b| (0..NAMES.len() as u8).map(move |n| (b.clone(), n)))
        }),
        probe,
    );
    c.search(
        "files",
        600_000,
        1_000_000,
        || {
            let head = prop_oneof![
                Just(IDX_MAGIC.to_vec()),
                Just(SUB_MAGIC.to_vec()),
                Just(vec![]),
                Just(b"\xEF\xBB\xBF# VobSub index file".to_vec()),
                Just(b" # VobSub index file".to_vec()),
                Just(b"# vobsub index file".to_vec()),
                Just(vec![0, 0, 0, 1, 0xBA]),
                word().prop_map(String::into_bytes),
            ];
            (head, muts(2), prop::bool::weighted(0.4), any8(), prop_oneof![8 => prop::collection::vec(any8(), 0..40), 1 => (num(0usize..20_000)).prop_map(|n| vec![7; n])])
                .prop_map(|(h, m, mutate, name, tail)| {
                    let mut v = if mutate { mutate::apply(h, &m) } else { h };
                    v.extend(tail);
                    (v, name)
                })
        },
        probe,
    );
}

// ------------------------------------------------------------------ C10

#[derive(PartialEq, Eq, Clone, Copy, Debug, Hash, Serialize, Deserialize)]
enum Bad {
    Missing,
    MissingParent,
    FileAsParent,
    DanglingLink,
    LinkLoop,
    Directory,
    TooLong,
    Nul,
    Empty,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct BadPath {
    kind: Bad,
    name: Vec<u8>,
    /// what stands between the folder and the name
    via: u8,
}

fn io_error(what: &str, source: &io::Error, path: &Path, want: &Path, text: &str, truth: &io::Error) -> Result<(), String> {
    // not as paths, which compare without doubled separators and the like
    ensure!(path.as_os_str() == want.as_os_str(), "{what}: the error names {path:?} instead of {want:?}");
    ensure!(
        source.kind() == truth.kind() && source.raw_os_error() == truth.raw_os_error(),
        "{what}: cause {source:?} instead of {truth:?}"
    );
    let shown = want.display().to_string();
    ensure!(text.contains(&shown), "{what}: message {text:?} does not contain the path {shown:?}");
    Ok(())
}

fn vob_error<T>(what: &str, r: Result<T, VobSubError>, want: &Path, truth: &io::Error) -> Result<(), String> {
    match r {
        Ok(_) => Err(format!("{what}: succeeded on {want:?}")),
        Err(e) => {
            let text = e.to_string();
            ensure!(e.source().is_some_and(|s| s.is::<io::Error>()), "{what}: the error has no I/O cause: {e:?}");
            match &e {
                VobSubError::Io { source, path } => io_error(what, source, path, want, &text, truth),
                e => Err(format!("{what}: not an I/O error: {e:?}")),
            }
        }
    }
}

fn sup_error<D>(what: &str, p: &Path, truth: &io::Error, directory: bool) -> Result<(), String>
where
    D: subtile::pgs::PgsDecoder,
{
    let r = no_panic(|| SupParser::<BufReader<std::fs::File>, D>::from_file(p))?;
    match r {
        Ok(mut s) => {
            ensure!(directory, "{what}: succeeded on {p:?}");
            let first = no_panic(|| s.next().map(|i| i.is_err()))?;
            ensure!(first == Some(true), "{what}: a directory gives {} first", match first {
                None => "the end",
                _ => "a subtitle",
            });
            Ok(())
        }
        Err(e) => {
            let text = e.to_string();
            ensure!(e.source().is_some_and(|s| s.is::<io::Error>()), "{what}: the error has no I/O cause: {e:?}");
            match &e {
                PgsError::Io { source, path } => io_error(what, source, path, p, &text, truth),
                e => Err(format!("{what}: not an I/O error: {e:?}")),
            }
        }
    }
}

fn c10(c: &Ctx) {
    let name = || {
        prop_oneof![
            3 => "[a-zA-Z0-9 ._'\"{}%-]{1,30}".prop_map(String::into_bytes),
            2 => "\\PC{1,12}".prop_map(String::into_bytes),
            2 => prop::collection::vec(num(1u8..=255), 1..20),
            1 => prop::collection::vec(word(), 1..3).prop_map(|v| v.concat().into_bytes()),
            1 => prop::sample::select(vec!["a.sub", "a.idx", "a.sup", "...", "-x", "\n", "~", "x'y", "{path}", "a:b"]).prop_map(|s| s.as_bytes().to_vec()),
        ]
    };
    let kind = || {
        prop::sample::select(vec![
            Bad::Missing,
            Bad::Missing,
            Bad::MissingParent,
            Bad::FileAsParent,
            Bad::DanglingLink,
            Bad::LinkLoop,
            Bad::Directory,
            Bad::TooLong,
            Bad::Nul,
            Bad::Empty,
        ])
    };
    let strat = || {
        (kind(), name(), prop_oneof![1 => Just(0u8), 1 => any8()]).prop_map(|(kind, name, via)| BadPath { kind, name, via })
    };
    c.search("paths", 240_000, 500_000, strat, |r: &BadPath, o| {
        let root = scratch().join("c10");
        let _ = std::fs::remove_dir_all(&root);
        std::fs::create_dir_all(&root).map_err(|e| format!("harness: {e}"))?;
        let mut name: Vec<u8> = r.name.iter().copied().filter(|b| *b != b'/' && *b != 0).take(60).collect();
        if name.is_empty() || name == b"." || name == b".." {
            name = b"n".to_vec();
        }
        let os = |b: &[u8]| -> OsString { OsStr::from_bytes(b).to_os_string() };
        let own = root.join(os(&name));
        let herr = |e: io::Error| format!("harness: {e}");
        let p: PathBuf = match r.kind {
            Bad::Missing => own,
            Bad::MissingParent => own.join("below.sub"),
            Bad::FileAsParent => {
                std::fs::write(&own, b"a file").map_err(herr)?;
                own.join("below.idx")
            }
            Bad::DanglingLink => {
                std::os::unix::fs::symlink(root.join("nowhere"), &own).map_err(herr)?;
                own
            }
            Bad::LinkLoop => {
                std::os::unix::fs::symlink(&own, &own).map_err(herr)?;
                own
            }
            Bad::Directory => {
                std::fs::create_dir(&own).map_err(herr)?;
                own
            }
            Bad::TooLong => root.join(os(&name.repeat(300 / name.len() + 1))),
            Bad::Nul => {
                name.insert(name.len() / 2, 0);
                root.join(os(&name))
            }
            Bad::Empty => PathBuf::new(),
        };
        // the same path, written less plainly
        // (a folder whose name is longer than any generated one)
        let aside = "\u{e9}".repeat(40);
        let back = format!("{aside}/../");
        let via = ["", "/", "./", "//.//", "././", "../c10/", &back][usize::from(r.via) % 7];
        let p = match p.strip_prefix(&root) {
            Ok(below) if r.kind != Bad::Empty => {
                let mut s = root.clone().into_os_string();
                s.push("/");
                s.push(via);
                s.push(below);
                PathBuf::from(s)
            }
            _ => p,
        };
        std::fs::create_dir_all(root.join(&aside)).map_err(herr)?;
        // the truth, from the standard library
        let truth = match std::fs::read(&p) {
            Err(e) => e,
            Ok(_) => return Err("harness: the path is readable".into()),
        };
        vob_error("Sub::open", no_panic(|| Sub::open(&p))?, &p, &truth)?;
        vob_error("Index::open", no_panic(|| Index::open(&p))?, &p, &truth)?;
        vob_error("is_idx_file", no_panic(|| is_idx_file(&p))?, &p, &truth)?;
        vob_error("is_sub_file", no_panic(|| is_sub_file(&p))?, &p, &truth)?;
        let dir = matches!(r.kind, Bad::Directory);
        sup_error::<DecodeTimeImage>("SupParser::from_file", &p, &truth, dir)?;
        sup_error::<DecodeTimeOnly>("SupParser::from_file (times)", &p, &truth, dir)?;
        o.label(match r.kind {
            Bad::Missing => "missing",
            Bad::MissingParent => "missing parent",
            Bad::FileAsParent => "file as parent",
            Bad::DanglingLink => "dangling link",
            Bad::LinkLoop => "link loop",
            Bad::Directory => "directory",
            Bad::TooLong => "name too long",
            Bad::Nul => "NUL in name",
            Bad::Empty => "empty path",
        });
        o.nontrivial();
        let _ = std::fs::remove_dir_all(&root);
        Ok(())
    });
}

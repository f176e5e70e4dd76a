//! C25, C26: SubRip and WebVTT output.

use crate::dict::{word, any32, any8, num};
use super::time::{msecs, read_stamp};
use super::Check;
use crate::ensure;
use crate::fw::{no_panic, Ctx, Obs};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io;
use subtile::time::{TimePoint, TimeSpan};
use subtile::{srt, webvtt};

pub fn checks() -> Vec<Check> {
    checks![
        "C25": Check { id: "C25", rule: "lists of subtitles with arbitrary times and texts (unicode, line breaks, control characters, text that looks like a stamp), compared byte for byte with an independent writer and read back; non-trivial: at least one subtitle with text", assumptions: &[], run: c25 },
        "C26": Check { id: "C26", rule: "the same lists given to writers that fail at every byte, accept few bytes, are interrupted or accept nothing; non-trivial: the writer misbehaved before the output was complete", assumptions: &[], run: c26 },
    ]
}

pub type Line = (i64, i64, String);

fn text() -> impl Strategy<Value = String> {
    prop_oneof![
        3 => "[ -~]{0,30}",
        2 => "\\PC{0,20}",
        2 => prop::collection::vec("[a-z]{0,5}", 0..4).prop_map(|v| v.join("\n")),
        1 => prop::collection::vec(any::<char>(), 0..10).prop_map(|v| v.into_iter().collect()),
        1 => prop::sample::select(vec!["", "\n", "\r\n", "{}", "%s", "1\n00:00:00,000 --> 00:00:01,000\nx", "-->", "\0", "<i>x</i>", "\u{feff}"]).prop_map(String::from),
        1 => prop::collection::vec(word(), 1..3).prop_map(|v| v.concat()),
        1 => (num(1usize..3000)).prop_map(|n| "long ".repeat(n)),
    ]
}

fn lines(max: usize) -> impl Strategy<Value = Vec<Line>> {
    prop::collection::vec((msecs(), msecs(), text()), 0..max)
}

/// Independent writer of a stamp.
pub fn stamp(m: i64, sep: char) -> String {
    let a = i128::from(m).abs();
    format!(
        "{}{:0>2}:{:0>2}:{:0>2}{sep}{:0>3}",
        if m < 0 { "-" } else { "" },
        a / 3_600_000,
        a / 60_000 % 60,
        a / 1000 % 60,
        a % 1000
    )
}

fn srt_text(v: &[Line]) -> String {
    let mut s = String::new();
    for (i, l) in v.iter().enumerate() {
        s += &srt_line(i + 1, l);
    }
    s
}
fn srt_line(i: usize, (a, b, t): &Line) -> String {
    [&i.to_string(), "\n", &stamp(*a, ','), " --> ", &stamp(*b, ','), "\n", t, "\n\n"].concat()
}
fn vtt_line((a, b, t): &Line) -> String {
    [&stamp(*a, '.'), " --> ", &stamp(*b, '.'), "\n", t, "\n\n"].concat()
}
fn span(a: i64, b: i64) -> TimeSpan {
    TimeSpan::new(TimePoint::from_msecs(a), TimePoint::from_msecs(b))
}
fn subs(v: &[Line]) -> Vec<(TimeSpan, String)> {
    v.iter().map(|(a, b, t)| (span(*a, *b), t.clone())).collect()
}

fn differ(what: &str, want: &[u8], got: &[u8]) -> Result<(), String> {
    if want == got {
        return Ok(());
    }
    let i = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
    let cut = |x: &[u8]| String::from_utf8_lossy(&x[i.min(x.len())..(i + 40).min(x.len())]).into_owned();
    Err(format!(
        "{what}: output differs at byte {i}: expected {:?}, got {:?} (lengths {} and {})",
        cut(want),
        cut(got),
        want.len(),
        got.len()
    ))
}

/// A plain SubRip reader, for texts without empty lines.
pub fn read_srt(text: &str) -> Result<Vec<Line>, String> {
    let mut out = vec![];
    let mut rest = text;
    while !rest.is_empty() {
        let Some((block, r)) = rest.split_once("\n\n") else {
            return Err("last block is not closed by an empty line".into());
        };
        rest = r;
        let mut it = block.splitn(3, '\n');
        let (n, times, t) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
        if n != (out.len() + 1).to_string() {
            return Err(format!("block {} is numbered {n:?}", out.len() + 1));
        }
        let Some((a, b)) = times.split_once(" --> ") else {
            return Err(format!("times line {times:?}"));
        };
        out.push((read_stamp(a, ',')?, read_stamp(b, ',')?, t.to_string()));
    }
    Ok(out)
}

fn c25(c: &Ctx) {
    c.search("lists", 600_000, 3_000_000, || (lines(7), prop_oneof![num(0usize..12), num(0usize..200_000), any::<usize>(), Just(usize::MAX)]), |(v, n): &(Vec<Line>, usize), o: &mut Obs| {
        o.nontrivial_if(v.iter().any(|l| !l.2.is_empty()));
        o.label_if(v.iter().any(|l| l.2.contains('\n')), "several text lines");
        o.label_if(v.iter().any(|l| !l.2.is_ascii()), "not ascii");
        let mut w = vec![];
        srt::write_srt(&mut w, &subs(v)).map_err(|e| format!("write_srt failed: {e}"))?;
        differ("write_srt", srt_text(v).as_bytes(), &w)?;
        if v.iter().all(|l| !l.2.is_empty() && !l.2.split('\n').any(str::is_empty)) {
            o.label("read back");
            let back = read_srt(std::str::from_utf8(&w).map_err(|e| e.to_string())?)?;
            ensure!(&back == v, "reading the file back gives {back:?}");
        }
        for l in v {
            let (a, b, t) = l;
            let mut w = vec![];
            srt::write_line(&mut w, *n, &span(*a, *b), t).map_err(|e| format!("srt line failed: {e}"))?;
            differ("srt::write_line", srt_line(*n, l).as_bytes(), &w)?;
            let mut w = vec![];
            webvtt::write_line(&mut w, &span(*a, *b), t).map_err(|e| format!("vtt line failed: {e}"))?;
            differ("webvtt::write_line", vtt_line(l).as_bytes(), &w)?;
        }
        Ok(())
    });
    // many subtitles: numbering beyond one and two digits
    c.search("long_lists", 1600, 8_000, || (prop_oneof![100 => num(1usize..1500), 1 => num(65_500usize..100_500)], any32()), |&(n, k): &(usize, u32), o| {
        o.nontrivial();
        let v: Vec<Line> =
            (0..n).map(|i| (i as i64 * 1000, i as i64 * 1000 + i64::from(k % 999), format!("t{}", i ^ k as usize))).collect();
        let mut w = vec![];
        srt::write_srt(&mut w, &subs(&v)).map_err(|e| format!("write_srt failed: {e}"))?;
        differ("write_srt", srt_text(&v).as_bytes(), &w)
    });
}

// ------------------------------------------------------------------ C26

#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize, PartialEq, Eq)]
enum Behave {
    /// fail for good once this many bytes were accepted
    FailAt(u32, u8),
    /// fail once at this call, work afterwards
    FailOnce(u32, u8),
    /// accept nothing any more after this many bytes
    Full(u32),
    /// accept at most so many bytes per call, interrupted every so many calls
    Slow(u8, u8),
}

use crate::fw::IO_KINDS as KINDS;

struct Writer {
    b: Behave,
    got: Vec<u8>,
    calls: u32,
    failed: bool,
    after: bool,
}
impl Writer {
    fn fail(&mut self, k: u8) -> io::Result<usize> {
        self.failed = true;
        Err(io::Error::new(KINDS[usize::from(k) % KINDS.len()], "injected"))
    }
}
impl io::Write for Writer {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.failed {
            self.after = true;
        }
        self.calls += 1;
        let n = match self.b {
            Behave::FailAt(k, e) => {
                let room = (k as usize).saturating_sub(self.got.len());
                if room == 0 {
                    return self.fail(e);
                }
                buf.len().min(room)
            }
            Behave::FailOnce(k, e) => {
                if self.calls == k + 1 {
                    return self.fail(e);
                }
                buf.len()
            }
            Behave::Full(k) => {
                let room = (k as usize).saturating_sub(self.got.len());
                if room == 0 {
                    self.failed = true;
                    return Ok(0);
                }
                buf.len().min(room)
            }
            Behave::Slow(k, i) => {
                if i > 1 && self.calls % u32::from(i) == 0 {
                    return Err(io::ErrorKind::Interrupted.into());
                }
                buf.len().min(usize::from(k.max(1)))
            }
        };
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn c26(c: &Ctx) {
    let behave = || {
        prop_oneof![
            (num(0u32..400), any8()).prop_map(|(a, b)| Behave::FailAt(a, b)),
            (num(0u32..60), any8()).prop_map(|(a, b)| Behave::FailOnce(a, b)),
            (num(0u32..400)).prop_map(Behave::Full),
            (num(1u8..20), num(0u8..5)).prop_map(|(a, b)| Behave::Slow(a, b)),
        ]
    };
    let short = || prop::collection::vec((msecs(), msecs(), "[a-zé\\n]{0,12}"), 1..5);
    let run = |which: u8, b: Behave, v: &[Line], o: &mut Obs| -> Result<(), String> {
        let mut w = Writer { b, got: vec![], calls: 0, failed: false, after: false };
        let l = &v[0];
        let (want, r) = match which % 3 {
            0 => {
                let s = subs(v);
                (srt_text(v), no_panic(|| srt::write_srt(&mut w, &s))?)
            }
            1 => (srt_line(7, l), no_panic(|| srt::write_line(&mut w, 7, &span(l.0, l.1), &l.2))?),
            _ => (vtt_line(l), no_panic(|| webvtt::write_line(&mut w, &span(l.0, l.1), &l.2))?),
        };
        let want = want.as_bytes();
        ensure!(
            want.starts_with(&w.got),
            "what the writer accepted ({:?}) is not the leading part of the output ({:?})",
            String::from_utf8_lossy(&w.got),
            String::from_utf8_lossy(want)
        );
        ensure!(!w.after, "something was written after the failure");
        if w.failed {
            o.nontrivial();
            let Err(e) = r else { return Err("the writer failed but the call succeeded".into()) };
            match b {
                Behave::FailAt(_, k) | Behave::FailOnce(_, k) => {
                    let kind = KINDS[usize::from(k) % KINDS.len()];
                    ensure!(
                        e.kind() == kind && e.to_string().contains("injected"),
                        "the writer failed with {kind:?} but the call returned {e:?}"
                    );
                }
                _ => ensure!(e.kind() == io::ErrorKind::WriteZero, "a full writer gives {e:?}"),
            }
            o.label("failed");
        } else {
            o.nontrivial_if(matches!(b, Behave::Slow(..)));
            r.map_err(|e| format!("the writer never failed but the call returned {e:?}"))?;
            ensure!(w.got == want, "the call succeeded but only {} of {} bytes were written", w.got.len(), want.len());
            o.label("complete");
        }
        Ok(())
    };
    c.search("writers", 1_000_000, 4_000_000, move || (num(0u8..3), behave(), short()), |(k, b, v): &(u8, Behave, Vec<Line>), o| {
        run(*k, *b, v, o)
    });
    // every failing byte of one output, every function
    c.search("every_byte", 10_000, 40_000, move || (num(0u8..3), any8(), short()), |(k, e, v): &(u8, u8, Vec<Line>), o| {
        let n = match k % 3 {
            0 => srt_text(v).len(),
            1 => srt_line(7, &v[0]).len(),
            _ => vtt_line(&v[0]).len(),
        };
        for at in 0..=n as u32 {
            run(*k, Behave::FailAt(at, *e), v, o).map_err(|m| format!("failing at byte {at}: {m}"))?;
        }
        Ok(())
    });
}

//! C23, C24: time points and time stamp text.

use crate::dict::{any16, any64, num};
use super::Check;
use crate::ensure;
use crate::fw::{no_panic, Ctx, Obs};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt;
use subtile::srt::TimePointSrt;
use subtile::time::{TimePoint, TimeSpan};
use subtile::vobsub::TimePointIdx;
use subtile::webvtt::TimePointVtt;

pub fn checks() -> Vec<Check> {
    checks![
        "C23": Check { id: "C23", rule: "milliseconds over the whole 64-bit range and seconds from decimal text, rationals, neighbours of whole milliseconds and raw bit patterns, judged by exact integer arithmetic; non-trivial: not zero and not a whole second", assumptions: &["a seconds value nearer to a whole millisecond than one rounding of its own magnitude must give that millisecond, one farther than eight must be truncated, between the two either answer is accepted"], run: c23 },
        "C24": Check { id: "C24", rule: "milliseconds over the whole 64-bit range, in every format and with arbitrary separators, written and read back by an independent reader; non-trivial: negative, over 99 hours or with all components non-zero", assumptions: &[], run: c24 },
    ]
}

pub fn msecs() -> impl Strategy<Value = i64> {
    prop_oneof![
        3 => any::<i64>(),
        3 => num(-400_000_000_000i64..400_000_000_000),
        3 => num(0i64..400_000_000),
        2 => num(-100_000i64..100_000),
        2 => (prop::sample::select(vec![0i64, 1000, 60_000, 3_600_000, 86_400_000, 360_000_000, 99 * 3_600_000, 100 * 3_600_000]), num(-3i64..4), prop::bool::ANY)
            .prop_map(|(b, d, n)| if n { -(b + d) } else { b + d }),
        1 => prop::sample::select(vec![i64::MIN, i64::MIN + 1, i64::MAX, i64::MAX - 1, 0, -1, 1]),
    ]
}

/// A finite seconds value as sign * m * 2^e exactly: `Some((num, shift))` with
/// value * 1000 = num / 2^shift, when it fits 128 bits.
fn exact_msecs(s: f64) -> Option<(i128, u32)> {
    let bits = s.to_bits();
    let e = ((bits >> 52) & 0x7FF) as i32;
    let f = (bits & ((1 << 52) - 1)) as i128;
    let (m, e) = if e == 0 { (f, -1074) } else { (f | 1 << 52, e - 1075) };
    let m = if s.is_sign_negative() { -m } else { m } * 1000;
    if e >= 0 {
        (e <= 55).then(|| (m << e, 0))
    } else if -e <= 120 {
        // |m| < 2^63, no overflow as nothing is shifted left
        Some((m, (-e) as u32))
    } else {
        None
    }
}

/// Check `got` against the truncation of `s` seconds.
fn check_secs(s: f64, got: i64) -> Result<(), String> {
    let Some((num, shift)) = exact_msecs(s) else {
        ensure!(got == 0, "{s:e} s gives {got} ms, expected 0");
        return Ok(());
    };
    let trunc = num / (1i128 << shift);
    // nearest whole millisecond and distance to it
    let half = if shift == 0 { 0 } else { 1i128 << (shift - 1) };
    let near = (num + half).div_euclid(1i128 << shift);
    let dist = ((num - (near << shift)).abs()) as f64 / (shift as f64).exp2();
    let magnitude = (s.abs() * 1000.0) * f64::EPSILON;
    if magnitude > 0.05 {
        // beyond 7000 years a double no longer tells milliseconds apart
        let off = (i128::from(got) - near).unsigned_abs() as f64;
        ensure!(off <= 1.0 + magnitude * 4.0, "{s:?} s is about {near} ms, got {got} ms");
    } else if dist <= magnitude * 0.5 {
        ensure!(
            i128::from(got) == near,
            "{s:?} s is {near} ms up to rounding, got {got} ms"
        );
    } else if dist > magnitude * 8.0 {
        ensure!(i128::from(got) == trunc, "{s:?} s truncates to {trunc} ms, got {got} ms");
    } else {
        let g = i128::from(got);
        ensure!(g == near || g == trunc, "{s:?} s gives {got} ms, expected {trunc} or {near}");
    }
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Secs(u64);

fn c23(c: &Ctx) {
    c.search("msecs", 1_000_000, 20_000_000, || (msecs(), msecs()), |&(a, b): &(i64, i64), o: &mut Obs| {
        o.nontrivial_if(a % 1000 != 0);
        let (p, q) = (TimePoint::from_msecs(a), TimePoint::from_msecs(b));
        ensure!(p.msecs() == a, "from_msecs({a}).msecs() is {}", p.msecs());
        ensure!(p.cmp(&q) == a.cmp(&b), "ordering of {a} and {b}");
        ensure!((p == q) == (a == b), "equality of {a} and {b}");
        ensure!(p.partial_cmp(&q) == a.partial_cmp(&b), "partial ordering of {a} and {b}");
        if a != i64::MIN {
            ensure!((-p).msecs() == -a, "negation of {a} is {}", (-p).msecs());
        }
        let span = TimeSpan::new(p, q);
        ensure!(span.start.msecs() == a && span.end.msecs() == b, "span of {a}, {b} is {span:?}");
        // 285 years
        if a.unsigned_abs() <= 285 * 31_556_952_000 {
            let back = TimePoint::from_secs(p.to_secs());
            ensure!(back.msecs() == a, "{a} ms to seconds and back gives {} ms", back.msecs());
            o.label("round trip");
        }
        ensure!(
            (p.to_secs() - a as f64 / 1000.0).abs() <= (a as f64).abs() * 1e-18,
            "{a} ms is {} s",
            p.to_secs()
        );
        Ok(())
    });
    c.enumerate(
        "first_days",
        false,
        (0..4_000_000i64).flat_map(|m| [m, -m]).step_by(if c.tier == crate::fw::Tier::Quick { 3 } else { 1 }),
        |&m: &i64, o: &mut Obs| {
            o.nontrivial_if(m % 1000 != 0);
            let back = TimePoint::from_secs(TimePoint::from_msecs(m).to_secs()).msecs();
            ensure!(back == m, "{m} ms to seconds and back gives {back} ms");
            // the literal a user would write
            Ok(())
        },
    );
    c.search(
        "secs",
        1_000_000,
        20_000_000,
        || {
            prop_oneof![
                // decimal text with up to 6 decimals
                3 => (num(0u64..10_000_000), num(0u64..1_000_000), num(0u32..7), any::<bool>()).prop_map(|(i, f, d, n)| {
                    let f = f / 10u64.pow(6 - d);
                    let t = format!("{}{i}.{f:0w$}", if n { "-" } else { "" }, w = d as usize);
                    t.trim_end_matches('.').parse::<f64>().unwrap()
                }),
                // neighbours of whole milliseconds
                3 => (msecs(), num(-12i64..13)).prop_map(|(m, d)| {
                    let x = m as f64 / 1000.0;
                    f64::from_bits((x.to_bits() as i64).saturating_add(d) as u64)
                }),
                // clock values
                2 => (num(0u64..1 << 33), any16()).prop_map(|(p, d)| p as f64 / 90_000.0 + f64::from(d) / 100.0),
                2 => any64().prop_map(f64::from_bits),
                1 => -1.0f64..1.0,
                1 => prop::sample::select(vec![0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN_POSITIVE, 9.3e15, -9.3e15, 1e300]),
            ]
            .prop_map(|f| Secs(f.to_bits()))
        },
        |s: &Secs, o| {
            let s = f64::from_bits(s.0);
            let r = no_panic(|| TimePoint::from_secs(s).msecs());
            // the limit is 9223372036854775.807 s
            if s.is_nan() || s.abs() >= 9.2233720368547785e15 {
                o.label("not representable");
                o.nontrivial();
                return match r {
                    Ok(v) => Err(format!("{s:?} s gives {v} ms instead of panicking")),
                    Err(_) => Ok(()),
                };
            }
            if s.abs() > 9.22337203685477e15 {
                o.label("at the limit: not judged");
                return Ok(());
            }
            let v = r?;
            o.nontrivial_if(s != s.trunc());
            o.label_if(s < 0.0, "negative");
            check_secs(s, v)
        },
    );
}

struct Sep(TimePoint, char);
impl fmt::Display for Sep {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt_separator(f, self.1)
    }
}

/// Independent reader of `[-]H..HMMSSmmm` text.
pub fn read_stamp(text: &str, sep: char) -> Result<i64, String> {
    let bad = |w: &str| Err(format!("{text:?}: {w}"));
    let (neg, t) = match text.strip_prefix('-') {
        Some(t) => (true, t),
        None => (false, text),
    };
    let mut parts = t.splitn(3, ':');
    let (Some(h), Some(m), Some(rest)) = (parts.next(), parts.next(), parts.next()) else {
        return bad("not three parts");
    };
    let Some(s) = rest.get(..2) else { return bad("no seconds") };
    let mut cs = rest[2..].chars();
    if cs.next() != Some(sep) {
        return bad("separator");
    }
    let ms = cs.as_str();
    let digits = |x: &str| !x.is_empty() && x.bytes().all(|b| b.is_ascii_digit());
    if !digits(h) || !digits(m) || !digits(s) || !digits(ms) {
        return bad("not digits");
    }
    if h.len() < 2 || (h.len() > 2 && h.starts_with('0')) {
        return bad("hours are not written with two digits or as many as needed");
    }
    if m.len() != 2 || ms.len() != 3 {
        return bad("width of a component");
    }
    let (h, m, s, ms): (i128, i128, i128, i128) =
        (h.parse().unwrap(), m.parse().unwrap(), s.parse().unwrap(), ms.parse().unwrap());
    if m > 59 || s > 59 {
        return bad("minutes or seconds over 59");
    }
    let v = ((h * 60 + m) * 60 + s) * 1000 + ms;
    let v = if neg { -v } else { v };
    if neg && v == 0 {
        return bad("negative zero");
    }
    i64::try_from(v).map_err(|_| format!("{text:?}: out of range"))
}

fn c24(c: &Ctx) {
    c.search(
        "stamps",
        6_000_000,
        20_000_000,
        || (msecs(), prop_oneof![1 => prop::sample::select(vec!['.', ',', ':', ';', '-', '0', ' ']), 1 => any::<char>()]),
        |&(m, sep): &(i64, char), o| {
            o.label_if(m < 0, "negative");
            o.label_if(m.unsigned_abs() > 99 * 3_600_000, "over 99 hours");
            o.nontrivial_if(
                m < 0
                    || m > 99 * 3_600_000
                    || (m % 1000 != 0 && m / 1000 % 60 != 0 && m / 60_000 % 60 != 0 && m / 3_600_000 != 0),
            );
            let t = TimePoint::from_msecs(m);
            for (name, text, s) in [
                ("SubRip", TimePointSrt::from(t).to_string(), ','),
                ("WebVTT", TimePointVtt::from(t).to_string(), '.'),
                ("index", TimePointIdx::from(t).to_string(), ':'),
                ("any separator", Sep(t, sep).to_string(), sep),
            ] {
                let back = read_stamp(&text, s).map_err(|e| format!("{name}, {m} ms: {e}"))?;
                ensure!(back == m, "{name}: {m} ms is written {text:?}, which is {back} ms");
            }
            Ok(())
        },
    );
}

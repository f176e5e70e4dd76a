//! Byte-level mutations with generated positions, so that they shrink and replay.

use crate::dict::{any16, any32, any8, num};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Mut {
    Flip(u32, u8),
    Set(u32, u8),
    Set16(u32, u16),
    Set24(u32, u32),
    Insert(u32, Vec<u8>),
    Delete(u32, u16),
    /// copy `len` bytes at the first position and insert them at the second
    Dup(u32, u16, u32),
    Truncate(u32),
    Add(u32, i8),
}

fn at(pos: u32, len: usize) -> usize {
    if len == 0 {
        0
    } else {
        pos as usize % len
    }
}

pub fn apply(mut b: Vec<u8>, muts: &[Mut]) -> Vec<u8> {
    for m in muts {
        let n = b.len();
        match m {
            Mut::Flip(p, k) if n > 0 => b[at(*p, n)] ^= 1 << (k & 7),
            Mut::Set(p, v) if n > 0 => b[at(*p, n)] = *v,
            Mut::Add(p, v) if n > 0 => {
                let i = at(*p, n);
                b[i] = b[i].wrapping_add(*v as u8);
            }
            Mut::Set16(p, v) if n > 1 => {
                let i = at(*p, n - 1);
                b[i..i + 2].copy_from_slice(&v.to_be_bytes());
            }
            Mut::Set24(p, v) if n > 2 => {
                let i = at(*p, n - 2);
                b[i..i + 3].copy_from_slice(&v.to_be_bytes()[1..]);
            }
            Mut::Insert(p, v) => {
                let i = at(*p, n + 1);
                b.splice(i..i, v.iter().copied());
            }
            Mut::Delete(p, k) if n > 0 => {
                let i = at(*p, n);
                let e = (i + usize::from(*k)).min(n);
                b.drain(i..e);
            }
            Mut::Dup(p, k, q) if n > 0 => {
                let i = at(*p, n);
                let e = (i + usize::from(*k).min(4096)).min(n);
                let part = b[i..e].to_vec();
                let j = at(*q, n + 1);
                b.splice(j..j, part);
            }
            Mut::Truncate(p) if n > 0 => b.truncate(at(*p, n)),
            _ => {}
        }
    }
    b
}

pub fn muts(max: usize) -> impl Strategy<Value = Vec<Mut>> {
    let byte = prop_oneof![any8(), prop::sample::select(vec![0u8, 1, 2, 0x7F, 0x80, 0xC0, 0xFE, 0xFF])];
    let m = prop_oneof![
        4 => (any32(), num(0u8..8)).prop_map(|(p, k)| Mut::Flip(p, k)),
        4 => (any32(), byte).prop_map(|(p, v)| Mut::Set(p, v)),
        2 => (any32(), num(-3i8..4)).prop_map(|(p, v)| Mut::Add(p, v)),
        3 => (any32(), prop_oneof![any16(), num(0u16..40), Just(0xFFFFu16)]).prop_map(|(p, v)| Mut::Set16(p, v)),
        1 => (any32(), prop_oneof![any32(), num(0u32..40), Just(0xFF_FFFFu32)]).prop_map(|(p, v)| Mut::Set24(p, v)),
        2 => (any32(), prop::collection::vec(any8(), 1..8)).prop_map(|(p, v)| Mut::Insert(p, v)),
        2 => (any32(), num(1u16..20)).prop_map(|(p, k)| Mut::Delete(p, k)),
        1 => (any32(), num(1u16..200), any32()).prop_map(|(p, k, q)| Mut::Dup(p, k, q)),
        1 => any32().prop_map(Mut::Truncate),
    ];
    prop::collection::vec(m, 1..max)
}

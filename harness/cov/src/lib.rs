//! What the compiler's coverage instrumentation calls, per thread: how often each
//! edge was taken while recording, and how close each comparison came to
//! equality. The crate itself is not instrumented.

use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

const PC_BITS: u32 = 14;
const BITMAP: usize = 1 << (PC_BITS + 7);

/// What one thread has seen.
pub struct Cover {
    counts: Vec<u8>,
    touched: Vec<u32>,
    /// classes of counts seen so far, one bit each
    classes: Vec<u8>,
    compared: Vec<u64>,
    new_compared: u32,
}

thread_local! {
    static CUR: Cell<*mut Cover> = const { Cell::new(std::ptr::null_mut()) };
}
static EDGES: AtomicU32 = AtomicU32::new(0);

/// Number of instrumented edges; 0 in a build without instrumentation.
pub fn edges() -> u32 {
    EDGES.load(Relaxed)
}

fn class(n: u8) -> u8 {
    match n {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

/// What a run showed that none before did.
#[derive(Clone, Copy, Default, Debug)]
pub struct News {
    /// edges never taken before
    pub edges: u32,
    /// edges taken another number of times than before
    pub counts: u32,
    /// comparisons closer to equality than before
    pub compared: u32,
}

impl Default for Cover {
    fn default() -> Self {
        let n = edges() as usize + 1;
        Self { counts: vec![0; n], touched: Vec::with_capacity(n), classes: vec![0; n], compared: vec![0; BITMAP / 64], new_compared: 0 }
    }
}

impl Cover {
    /// Record what this thread does in `f`.
    pub fn record<R>(&mut self, f: impl FnOnce() -> R) -> (R, News) {
        self.new_compared = 0;
        struct Off;
        impl Drop for Off {
            fn drop(&mut self) {
                CUR.with(|c| c.set(std::ptr::null_mut()));
            }
        }
        let off = Off;
        CUR.with(|c| c.set(self));
        let r = f();
        drop(off);
        let mut news = News { compared: self.new_compared, ..News::default() };
        for i in self.touched.drain(..) {
            let i = i as usize;
            let k = class(self.counts[i]);
            self.counts[i] = 0;
            if self.classes[i] == 0 {
                news.edges += 1;
            } else if self.classes[i] & k == 0 {
                news.counts += 1;
            }
            self.classes[i] |= k;
        }
        (r, news)
    }

    /// Number of edges taken at least once.
    pub fn taken(&self) -> usize {
        self.classes.iter().filter(|c| **c != 0).count()
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        *p = EDGES.fetch_add(1, Relaxed) + 1;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let c = CUR.with(Cell::get);
    if c.is_null() {
        return;
    }
    let c = &mut *c;
    let i = *guard;
    let Some(n) = c.counts.get_mut(i as usize) else { return };
    if *n == 0 {
        c.touched.push(i);
    }
    *n = n.saturating_add(1);
}

extern "C" fn compared(a: u64, b: u64, pc: usize) {
    let c = CUR.with(Cell::get);
    if c.is_null() {
        return;
    }
    let c = unsafe { &mut *c };
    // the same wherever the program is loaded
    let at = pc.wrapping_sub(__sanitizer_cov_trace_pc_guard as *const () as usize) as u64;
    let h = (at.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> (64 - PC_BITS)) as usize;
    let same = (a ^ b).count_ones().min(63) as usize;
    let near = (64 - a.abs_diff(b).leading_zeros()).min(63) as usize;
    for i in [h << 7 | same, h << 7 | 64 | near] {
        let (w, bit) = (i / 64, 1u64 << (i % 64));
        if c.compared[w] & bit == 0 {
            c.compared[w] |= bit;
            c.new_compared += 1;
        }
    }
}

unsafe extern "C" fn switched(v: u64, cases: *const u64, pc: usize) {
    if CUR.with(Cell::get).is_null() {
        return;
    }
    let n = *cases as usize;
    for i in 0..n {
        compared(v, *cases.add(2 + i), pc.wrapping_add(i));
    }
}

macro_rules! compare {
    ($($name:ident $narrow:literal,)*) => {$(
        /// Adds the caller's address as a third argument.
        #[unsafe(naked)]
        #[no_mangle]
        pub extern "C" fn $name() {
            core::arch::naked_asm!($narrow, "mov rdx, [rsp]", "jmp {f}", f = sym compared)
        }
    )*};
}
compare! {
    __sanitizer_cov_trace_cmp1 "movzx edi, dil\nmovzx esi, sil",
    __sanitizer_cov_trace_cmp2 "movzx edi, di\nmovzx esi, si",
    __sanitizer_cov_trace_cmp4 "mov edi, edi\nmov esi, esi",
    __sanitizer_cov_trace_cmp8 "",
    __sanitizer_cov_trace_const_cmp1 "movzx edi, dil\nmovzx esi, sil",
    __sanitizer_cov_trace_const_cmp2 "movzx edi, di\nmovzx esi, si",
    __sanitizer_cov_trace_const_cmp4 "mov edi, edi\nmov esi, esi",
    __sanitizer_cov_trace_const_cmp8 "",
}

#[unsafe(naked)]
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_switch() {
    core::arch::naked_asm!("mov rdx, [rsp]", "jmp {f}", f = sym switched)
}

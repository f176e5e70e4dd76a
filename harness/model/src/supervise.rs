//! Runs a check in a process of its own, so that a case which kills it (stack
//! overflow, abort) or never returns is found, shrunk where that is cheap, and
//! reported like any other failing case.

use crate::fw::Violation;
use std::ffi::c_void;
use std::os::fd::AsRawFd;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

extern "C" {
    fn mmap(a: *mut c_void, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
    fn clock_gettime(c: i32, t: *mut [i64; 2]) -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn _exit(c: i32) -> !;
}

/// Processor time one case may take, and time altogether; the slowest cases of
/// the checks take about a second.
const CPU_LIMIT: f64 = 60.0;
const WALL_LIMIT: f64 = 200.0;

const SLOTS: usize = 64;
/// sub-search, case + 1 (0 when idle), number of begins, clock, stuck
type Words = [AtomicU64; 5];

static OWN: [Words; SLOTS] = [const { [const { AtomicU64::new(0) }; 5] }; SLOTS];
static TABLE: AtomicPtr<Words> = AtomicPtr::new(std::ptr::null_mut());

fn table() -> &'static [Words] {
    let p = TABLE.load(SeqCst);
    if p.is_null() {
        &OWN
    } else {
        // mapped for the life of the process
        unsafe { std::slice::from_raw_parts(p, SLOTS) }
    }
}

const SLOTS_SIZE: usize = std::mem::size_of::<Words>() * SLOTS;
/// Room for the choices of one guided case.
pub const TAPE: usize = 1 << 18;
const TAPES: usize = SLOTS - crate::guided::FIRST;
const SIZE: usize = SLOTS_SIZE + TAPES * TAPE;

fn map(path: &str) -> Option<*mut Words> {
    let f = std::fs::OpenOptions::new().read(true).write(true).open(path).ok()?;
    let p = unsafe { mmap(std::ptr::null_mut(), SIZE, 3, 1, f.as_raw_fd(), 0) };
    (p as isize != -1).then_some(p.cast())
}

/// The part of the mapped file for one worker's choices; each worker has its own.
fn tape_of(worker: usize) -> Option<&'static mut [u8]> {
    let p = TABLE.load(SeqCst);
    let i = worker.checked_sub(crate::guided::FIRST).filter(|i| *i < TAPES)?;
    (!p.is_null()).then(|| unsafe { std::slice::from_raw_parts_mut(p.cast::<u8>().add(SLOTS_SIZE + i * TAPE), TAPE) })
}

/// The choices a guided worker was on, written for a hunt.
pub fn tape(h: &Hunt) -> Option<crate::guided::Made> {
    let b = std::fs::read(format!("{}.tape", h.file)).ok()?;
    let word = |i: usize| b.get(i..i + 8).map(|w| u64::from_le_bytes(w.try_into().unwrap()));
    let n = word(16)? as usize;
    Some(crate::guided::Made { focus: word(0)?, tail: word(8)?, tape: b.get(24..24 + n)?.to_vec() })
}

/// What this worker is doing, for the supervisor and the watchdog.
pub struct Slot(&'static Words, Option<&'static mut [u8]>);
impl Slot {
    pub fn new(sub: u64, worker: usize) -> Self {
        let w = &table()[worker % SLOTS];
        let mut clock = 0i32;
        unsafe { pthread_getcpuclockid(pthread_self(), &mut clock) };
        w[1].store(0, SeqCst);
        w[0].store(sub, SeqCst);
        w[3].store(clock as u32 as u64, SeqCst);
        let tape = (worker >= crate::guided::FIRST).then(|| tape_of(worker)).flatten();
        Self(w, tape)
    }
    /// As `begin`, for a case made from recorded choices.
    pub fn begin_guided(&mut self, case: u64, made: &crate::guided::Made) {
        if let Some(t) = &mut self.1 {
            let n = made.tape.len().min(TAPE - 24);
            t[..8].copy_from_slice(&made.focus.to_le_bytes());
            t[8..16].copy_from_slice(&made.tail.to_le_bytes());
            t[16..24].copy_from_slice(&(n as u64).to_le_bytes());
            t[24..24 + n].copy_from_slice(&made.tape[..n]);
        }
        self.begin(case);
    }
    pub fn begin(&self, case: u64) {
        self.0[2].fetch_add(1, SeqCst);
        self.0[1].store(case + 1, SeqCst);
    }
    pub fn end(&self) {
        self.0[1].store(0, SeqCst);
    }
}
impl Drop for Slot {
    fn drop(&mut self) {
        self.0[1].store(0, SeqCst);
    }
}

fn cpu(clock: u64) -> Option<f64> {
    let mut t = [0i64; 2];
    (unsafe { clock_gettime(clock as u32 as i32, &mut t) } == 0).then(|| t[0] as f64 + t[1] as f64 / 1e9)
}

/// End the process when one case goes on for longer than any case can.
fn watch() {
    let mut seen: Vec<(u64, f64, Instant)> = vec![(0, 0.0, Instant::now()); SLOTS];
    loop {
        std::thread::sleep(Duration::from_millis(500));
        for (w, s) in table().iter().zip(&mut seen) {
            let (case, begun) = (w[1].load(SeqCst), w[2].load(SeqCst));
            let Some(now) = cpu(w[3].load(SeqCst)) else { continue };
            if case == 0 || begun != s.0 {
                *s = (begun, now, Instant::now());
            } else if now - s.1 > CPU_LIMIT || s.2.elapsed().as_secs_f64() > WALL_LIMIT {
                w[4].store(1, SeqCst);
                unsafe { _exit(5) }
            }
        }
    }
}

/// To be called first in the process that runs the cases.
pub fn enter() {
    unsafe { prctl(1, 9, 0, 0, 0) };
    if let Some(p) = std::env::var("VH_SLOTS").ok().and_then(|p| map(&p)) {
        TABLE.store(p, SeqCst);
    }
    std::thread::spawn(watch);
}

fn child(args: &[String]) -> Command {
    let exe = std::env::current_exe().unwrap_or_else(|_| "/proc/self/exe".into());
    let mut c = Command::new(exe);
    c.arg("run").args(args).env_remove("VH_SLOTS").env_remove("VH_ALONE");
    c
}

fn temp(what: &str) -> String {
    let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    format!("{base}/vh-{what}-{}", std::process::id())
}

/// How a process ended, if not in one of the usual ways.
fn death(s: std::process::ExitStatus) -> Option<(String, bool)> {
    match (s.code(), s.signal()) {
        (_, Some(n)) => Some((format!("the process was killed by signal {n} on this case (6, 7, 11: abort or stack overflow)"), false)),
        (Some(4), _) => Some(("this case takes memory without bound".into(), true)),
        (Some(5), _) => Some(("this case does not return".into(), true)),
        _ => None,
    }
}

/// Does this case fail in a process of its own? And was that slow to find out?
pub fn dies(id: &str, seed: u64, v: &Violation, file: &str) -> Option<(String, bool)> {
    crate::write_replay_to(file, id, seed, v);
    let args = [id.to_string(), "--replay".into(), file.to_string()];
    let out = child(&args).env("VH_ALONE", "1").stderr(Stdio::null()).output().ok()?;
    if let Some(d) = death(out.status) {
        return Some(d);
    }
    (out.status.code() == Some(1)).then(|| {
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        let head = format!("{id}/{}: ", v.sub);
        let line = text.lines().find_map(|l| l.strip_prefix(&head)).unwrap_or("fails when run alone");
        (line.to_string(), false)
    })
}

#[derive(Clone, Debug)]
pub struct Hunt {
    pub sub: u64,
    pub worker: usize,
    pub index: u64,
    pub file: String,
}

/// `vh check ...`: run the check in a child; returns the exit code.
pub fn check(args: &[String]) -> i32 {
    let id = args.first().cloned().unwrap_or_default();
    let replay = args.iter().any(|a| a == "--replay");
    let slots = temp("slots");
    let _ = std::fs::File::create(&slots).and_then(|f| f.set_len(SIZE as u64));
    let mut c = child(args);
    c.env("VH_SLOTS", &slots);
    if replay {
        c.env("VH_ALONE", "1");
    }
    let status = match c.spawn().and_then(|mut p| {
        let pid = p.id();
        p.wait().map(|s| (s, pid))
    }) {
        Ok((s, pid)) => {
            // the child's own scratch directory, in case it could not remove it
            for base in ["/dev/shm", "/tmp"] {
                let _ = std::fs::remove_dir_all(format!("{base}/vh-scratch-{pid}"));
            }
            s
        }
        Err(e) => {
            crate::out(&format!("cannot start the check: {e}"));
            let _ = std::fs::remove_file(&slots);
            return 2;
        }
    };
    let died = death(status);
    let mapped = map(&slots);
    let table: Vec<[u64; 5]> = mapped
        .map(|p| unsafe { std::slice::from_raw_parts(p, SLOTS) }.iter().map(|w| std::array::from_fn(|i| w[i].load(SeqCst))).collect())
        .unwrap_or_default();
    if let Some(p) = mapped {
        TABLE.store(p, SeqCst);
    }
    let _ = std::fs::remove_file(&slots);
    let Some((what, _)) = died else { return status.code().unwrap_or(2) };
    if replay {
        let file = args.last().cloned().unwrap_or_default();
        crate::out(&format!("{id}: {what}"));
        crate::out(&format!("VIOLATION property={id} replay={file}"));
        return 1;
    }
    let mut suspects: Vec<(usize, [u64; 5])> = table.into_iter().enumerate().filter(|(_, w)| w[1] > 0).collect();
    suspects.sort_by_key(|(_, w)| std::cmp::Reverse(w[4]));
    if suspects.iter().any(|(_, w)| w[4] > 0) {
        suspects.retain(|(_, w)| w[4] > 0);
    }
    let file = temp("hunt");
    for (worker, w) in suspects {
        let args = [
            id.clone(),
            "--hunt".into(),
            format!("{},{worker},{},{file}", w[0], w[1] - 1),
        ];
        let tape = format!("{file}.tape");
        if let Some(t) = tape_of(worker) {
            let _ = std::fs::write(&tape, &*t);
        }
        let out = child(&args).stderr(Stdio::null()).output();
        let _ = std::fs::remove_file(&file);
        let _ = std::fs::remove_file(&tape);
        if let Ok(o) = out {
            if o.status.code() == Some(1) {
                crate::out(String::from_utf8_lossy(&o.stdout).trim_end());
                return 1;
            }
        }
    }
    crate::out(&format!("{id}: {what}, but no single case was found that does it alone: inconclusive"));
    4
}

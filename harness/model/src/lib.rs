//! What the checks are made of, apart from calls into the library: the search
//! framework, generators, encoders and reference results.

pub mod dict;
pub mod fw;
pub mod guard;
pub mod guided;
pub mod mutate;
pub mod pgs;
pub mod supervise;
pub mod vob;

use std::io::Write as _;
use std::os::fd::FromRawFd as _;
use std::sync::OnceLock;

static OUT: OnceLock<std::sync::Mutex<std::fs::File>> = OnceLock::new();

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}

/// Keep the real standard output for the harness and send whatever the library
/// prints to it (it prints some read errors) to /dev/null.
pub fn take_stdout() {
    unsafe {
        let fd = dup(1);
        let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
        use std::os::fd::AsRawFd as _;
        dup2(null.as_raw_fd(), 1);
        let _ = OUT.set(std::sync::Mutex::new(std::fs::File::from_raw_fd(fd)));
    }
}

/// Print a line on the real standard output.
pub fn out(s: &str) {
    match OUT.get() {
        Some(f) => {
            let mut f = f.lock().unwrap();
            let _ = writeln!(f, "{s}");
        }
        None => println!("{s}"),
    }
}

pub const VERIF: &str = "/verif";
pub const REPO: &str = "/repo";

/// Write the replay file of a violation and return its path.
pub fn write_replay(id: &str, seed: u64, v: &fw::Violation) -> String {
    let _ = std::fs::create_dir_all(format!("{VERIF}/replays"));
    let path = format!("{VERIF}/replays/{id}-{}.json", v.sub);
    write_replay_to(&path, id, seed, v);
    path
}

pub fn write_replay_to(path: &str, id: &str, seed: u64, v: &fw::Violation) {
    let doc = serde_json::json!({
        "property": id,
        "search": v.sub,
        "message": v.message,
        "seed": seed,
        "case": v.case_json,
        "case_debug": v.case_debug,
    });
    let _ = std::fs::write(path, serde_json::to_string_pretty(&doc).unwrap_or_default() + "\n");
}

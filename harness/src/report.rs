//! Verdicts, counters, samples and the history of the current iteration.
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub struct Report {
    pub out: String,
    pub accept: Vec<String>,
    pub header: Vec<(String, String)>,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub foreign: Vec<String>,
    pub notes: Vec<String>,
}
pub static REPORT: Mutex<Option<Report>> = Mutex::new(None);
static HISTORY: Mutex<Vec<String>> = Mutex::new(Vec::new());
pub static ITER: AtomicU64 = AtomicU64::new(0);
pub static ITER_SEED: AtomicU64 = AtomicU64::new(0);
const HISTORY_MAX: usize = 4000;

fn lock() -> std::sync::MutexGuard<'static, Option<Report>> {
    match REPORT.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    }
}
fn hlock() -> std::sync::MutexGuard<'static, Vec<String>> {
    match HISTORY.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    }
}
pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","))
}
pub fn init(r: Report) {
    *lock() = Some(r);
}
pub fn log(s: impl Into<String>) {
    let mut h = hlock();
    if h.len() < HISTORY_MAX {
        h.push(s.into());
    } else {
        let half = HISTORY_MAX / 2;
        h.drain(HISTORY_MAX / 8..HISTORY_MAX / 8 + half / 2);
        h.push(s.into());
    }
}
pub fn begin_iter(i: u64, seed: u64) {
    ITER.store(i, Ordering::Relaxed);
    ITER_SEED.store(seed, Ordering::Relaxed);
    hlock().clear();
}
pub fn history() -> Vec<String> {
    hlock().clone()
}
pub fn count(k: &str, n: u64) {
    if let Some(r) = lock().as_mut() {
        *r.counters.entry(k.to_string()).or_insert(0) += n;
    }
}
pub fn max(k: &str, n: u64) {
    if let Some(r) = lock().as_mut() {
        let e = r.counters.entry(k.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
}
/// Record a distinct non-trivial case by its fingerprint.
pub fn distinct(h: u64) {
    if let Some(r) = lock().as_mut() {
        if r.distinct.len() < 2_000_000 {
            r.distinct.insert(h);
        }
    }
}
pub fn sample(s: impl FnOnce() -> String) {
    if let Some(r) = lock().as_mut() {
        if r.samples.len() < 3 {
            let s = s();
            r.samples.push(s);
        }
    }
}
pub fn note(s: String) {
    if let Some(r) = lock().as_mut() {
        if r.notes.len() < 20 {
            r.notes.push(s);
        }
    }
}
pub struct Hash(pub u64);
impl Hash {
    pub fn new() -> Hash {
        Hash(0xcbf2_9ce4_8422_2325)
    }
    pub fn add(&mut self, x: u64) {
        self.0 = crate::rng::mix(self.0, x);
    }
    pub fn adds(&mut self, s: &str) {
        for b in s.bytes() {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
}

fn dump(verdict: &str, kind: &str, detail: &str) {
    for (k, v) in [("stalls", &crate::shim::STALLS), ("instructions_stepped", &crate::shim::STEPPED)] {
        let v = v.swap(0, Ordering::Relaxed);
        if v > 0 {
            count(k, v);
        }
    }
    let g = lock();
    let r = match g.as_ref() {
        Some(r) => r,
        None => return,
    };
    let mut o = String::from("{");
    for (k, v) in &r.header {
        let _ = write!(o, "{}:{},", esc(k), v);
    }
    let _ = write!(o, "\"verdict\":{},\"kind\":{},\"detail\":{},", esc(verdict), esc(kind), esc(detail));
    let _ = write!(o, "\"iter\":{},\"iter_seed\":{},", ITER.load(Ordering::Relaxed), esc(&ITER_SEED.load(Ordering::Relaxed).to_string()));
    let _ = write!(o, "\"distinct\":{},", r.distinct.len());
    let _ = write!(
        o,
        "\"counters\":{{{}}},",
        r.counters.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",")
    );
    let _ = write!(o, "\"samples\":{},\"foreign\":{},\"notes\":{}", arr(&r.samples), arr(&r.foreign), arr(&r.notes));
    if verdict != "held" {
        let h = history();
        let _ = write!(o, ",\"history\":{}", arr(&h));
    }
    o.push_str("}\n");
    if r.out == "-" {
        print!("{o}");
    } else {
        if std::fs::write(&r.out, &o).is_err() {
            // Perhaps the limit on descriptors is lowered just now.
            unsafe {
                let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
                l.rlim_cur = l.rlim_max;
                libc::setrlimit(libc::RLIMIT_NOFILE, &l);
            }
            std::fs::write(&r.out, o).expect("harness: cannot write the result file");
        }
    }
}
/// Payload used to abandon an iteration after a violation that belongs to another property.
pub struct Foreign;

pub fn accepted(kind: &str) -> bool {
    let g = lock();
    match g.as_ref() {
        None => true,
        Some(r) => r.accept.is_empty() || r.accept.iter().any(|a| kind == a || (a.ends_with('*') && kind.starts_with(&a[..a.len() - 1]))),
    }
}
/// The property under check is violated: write the witness and end the process.
pub fn violation(kind: &str, detail: impl Into<String>) -> ! {
    crate::shim::off();
    let detail = detail.into();
    if accepted(kind) {
        dump("violation", kind, &detail);
        unsafe { libc::_exit(10) }
    }
    foreign(kind, detail)
}
fn foreign(kind: &str, detail: String) -> ! {
    if let Some(r) = lock().as_mut() {
        if r.foreign.len() < 10 {
            r.foreign.push(format!("{kind}: {detail}"));
        }
    }
    // Only the thread that runs the iterations can abandon one; otherwise end the run.
    if crate::vp::on_driver_thread() {
        std::panic::panic_any(Foreign);
    }
    dump("foreign", kind, &detail);
    unsafe { libc::_exit(11) }
}
pub fn inconclusive(why: impl Into<String>) -> ! {
    crate::shim::off();
    dump("inconclusive", "inconclusive", &why.into());
    unsafe { libc::_exit(12) }
}
pub fn finish() -> ! {
    let f = lock().as_ref().map_or(0, |r| r.foreign.len());
    if f > 0 {
        dump("foreign", "foreign", "violations of other properties were observed");
        unsafe { libc::_exit(11) }
    }
    dump("held", "", "");
    if std::env::var_os("VH_NORMAL_EXIT").is_some() {
        // Leak checkers run at exit.
        std::process::exit(0);
    }
    unsafe { libc::_exit(0) }
}

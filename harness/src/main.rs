mod conc;
mod lin;
mod misc;
mod report;
mod rng;
mod seq;
#[cfg(vh_kq)]
mod simkq;
#[cfg(any(vh_kq, vh_port))]
mod simseq;
mod shim;
mod src;
mod sys;
mod timing;
mod vp;
mod windows;

use rng::Rng;
use std::collections::BTreeMap;
use std::time::Duration;

pub struct Ctx {
    pub rng: Rng,
    pub profile: String,
    pub params: BTreeMap<String, String>,
    pub iter: u64,
    pub seed: u64,
    pub thorough: bool,
    pub deadline_ns: u64,
}
impl Ctx {
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.params.get(k).map_or(d, |v| v.parse().expect("harness: bad parameter"))
    }
    pub fn out_of_time(&self) -> bool {
        sys::now_ns() > self.deadline_ns
    }
}

static SECCOMP: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
/// Is the kernel made to refuse this facility?
pub fn seccomp_has(what: &str) -> bool {
    (cfg!(vh_redox) && matches!(what, "timerfd" | "eventfd")) || SECCOMP.lock().unwrap().iter().any(|s| s == what)
}

fn main() {
    let mut a = std::env::args().skip(1);
    let (mut scenario, mut out, mut seed, mut secs, mut iters, mut first, mut only) = (String::new(), "-".to_string(), 1u64, 5f64, u64::MAX, 0u64, None);
    let mut accept = vec![];
    let mut params = BTreeMap::new();
    let mut seccomp = vec![];
    while let Some(x) = a.next() {
        let mut v = || a.next().expect("harness: missing value");
        match x.as_str() {
            "--scenario" => scenario = v(),
            "--out" => out = v(),
            "--seed" => seed = v().parse().unwrap(),
            "--secs" => secs = v().parse().unwrap(),
            "--iters" => iters = v().parse().unwrap(),
            "--first" => first = v().parse().unwrap(),
            "--iter" => only = Some(v().parse::<u64>().unwrap()),
            "--accept" => accept = v().split(',').filter(|s| !s.is_empty()).map(String::from).collect(),
            "--param" => {
                let s = v();
                let (k, x) = s.split_once('=').expect("harness: --param k=v");
                params.insert(k.to_string(), x.to_string());
            }
            "--seccomp" => {
                for c in v().split(',').filter(|s| !s.is_empty()) {
                    SECCOMP.lock().unwrap().push(c.to_string());
                    seccomp.push(match c {
                        "eventfd" => libc::SYS_eventfd2,
                        "timerfd" => libc::SYS_timerfd_create,
                        "pipe2" => libc::SYS_pipe2,
                        _ => panic!("harness: unknown call {c}"),
                    });
                }
            }
            _ => panic!("harness: unknown option {x}"),
        }
    }
    let backend = if vp::KQUEUE { "kqueue" } else if vp::PORT { "port" } else if vp::POLL { "poll" } else if cfg!(polling_test_epoll_pipe) { "epoll-pipe" } else { "epoll" };
    report::init(report::Report {
        out,
        accept,
        header: vec![
            ("scenario".into(), report::esc(&scenario)),
            ("backend".into(), report::esc(backend)),
            ("shim".into(), format!("{}", shim::ACTIVE)),
            ("seed".into(), seed.to_string()),
            ("params".into(), report::esc(&params.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" "))),
        ],
        counters: BTreeMap::new(),
        distinct: Default::default(),
        samples: vec![],
        foreign: vec![],
        notes: vec![],
    });
    if !seccomp.is_empty() && !sys::seccomp_refuse(&seccomp, [libc::ENOSYS, libc::EPERM, libc::EACCES, libc::EINVAL][(seed % 4) as usize]) {
        report::inconclusive("seccomp filters are not available");
    }
    vp::install_panic_hook();
    vp::mark_driver();
    vp::start_monitor();
    let f: fn(&mut Ctx) = match scenario.as_str() {
        "seq" => seq::run,
        #[cfg(any(vh_kq, vh_port))]
        "simseq" => simseq::run,
        #[cfg(vh_kq)]
        "filters" => simkq::run,
        "registrations" => conc::registrations,
        "reactor" => conc::reactor,
        "notify" => conc::notify_storm,
        "bursts" => conc::bursts,
        "relay" => conc::relay,
        "floods" => conc::floods,
        "second" => conc::second_waiter,
        "waiters" => conc::many_waiters,
        "deletions" => conc::deletions,
        "pollers" => conc::pollers,
        "windows" => windows::windows,
        "timing" => timing::timing,
        "longwaits" => timing::long_waits,
        "vtime" => timing::vtime,
        "optime" => timing::optime,
        "sigtime" => timing::sigtime,
        "resources" => misc::resources,
        "createfaults" => misc::create_faults,
        "realfaults" => misc::real_faults,
        "nested" => misc::nested,
        "connects" => misc::connects,
        s => panic!("harness: unknown scenario {s}"),
    };
    let end = sys::now_ns() + (secs * 1e9) as u64;
    let (lo, hi) = match only {
        Some(i) => (i, i + 1),
        None => (first, first.saturating_add(iters)),
    };
    let mut nforeign = 0u64;
    for i in lo..hi {
        if i > lo && sys::now_ns() > end {
            break;
        }
        let sub = rng::mix(rng::mix(seed, 0x5eed), i);
        report::begin_iter(i, sub);
        let mut cx = Ctx {
            rng: Rng::new(sub),
            profile: params.get("profile").cloned().unwrap_or_default(),
            params: params.clone(),
            iter: i,
            seed,
            thorough: params.get("thorough").is_some(),
            deadline_ns: end,
        };
        shim::set_regime_off();
        let storm = cx.num("signals", 0);
        let _s = (storm > 0).then(|| sys::Storm::start(Duration::from_micros(storm)));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut cx)));
        vp::clear_owed();
        drop(_s);
        match r {
            Ok(()) => report::count("iterations", 1),
            Err(p) if p.is::<report::Foreign>() => {
                nforeign += 1;
                report::count("abandoned", 1);
                shim::off_undo();
                if nforeign > 200 {
                    break;
                }
            }
            Err(_) => report::inconclusive("harness panic"),
        }
    }
    report::finish();
}

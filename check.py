#!/usr/bin/env python3
"""Build the harness against /repo's working tree and decide properties.

  check.py setup                 build every variant
  check.py run <property>        decide one property (VERIF_TIER, VERIF_SEED)
  check.py replay <file>         run a recorded violation again
  check.py all [tier]            every property in turn (for development)
"""
import concurrent.futures as cf
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VH_REPO", "/repo")
HARNESS = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
TRIPLE = "x86_64-unknown-linux-gnu"

BACK = {"epoll": "", "poll": "--cfg polling_test_poll_backend", "pipe": "--cfg polling_test_epoll_pipe"}
VARIANTS = {}
for b, f in BACK.items():
    VARIANTS["raw-" + b] = dict(flags=f, cargo=[], extra=[])
    VARIANTS["shim-" + b] = dict(flags="--cfg vh_shim --cfg rustix_use_libc " + f, cargo=[], extra=[])
    VARIANTS["tsan-" + b] = dict(flags="-Zsanitizer=thread --cfg vh_slow --cfg rustix_use_libc " + f, cargo=["+nightly"], extra=["-Zbuild-std", "--target", TRIPLE], san="tsan")
    VARIANTS["asan-" + b] = dict(flags="-Zsanitizer=address --cfg vh_slow --cfg rustix_use_libc " + f, cargo=["+nightly"], extra=["--target", TRIPLE], san="asan")
# The library as compiled for other systems, on a simulation of what those have (simos/).
SIMOS = dict(freebsd="--cfg vh_kq", netbsd="--cfg vh_kq --cfg vh_kqpipe", illumos="--cfg vh_port", redox="--cfg vh_redox",
             haiku="--cfg vh_poll", espidf="--cfg vh_poll", vita="--cfg vh_poll")
SIMHARNESS = os.path.join(HERE, "simos", "harness")
SIMSRC = os.path.join(BUILD, "sim-src")
for o, f in SIMOS.items():
    VARIANTS["sim-" + o] = dict(flags=f'--cfg polling_sim_os="{o}" --cfg vh_sim {f} -Aunexpected_cfgs', cargo=[], extra=[], sim=True)
# Miri, with a kernel that is part of the program (miri/).
MIRI = os.path.join(HERE, "miri", "harness")
for b, f in BACK.items():
    VARIANTS["miri-" + b] = dict(flags=f + " -Aunexpected_cfgs -Adeprecated", cargo=["+nightly"], extra=[], miri=True)
MIRIS = ["miri-" + b for b in BACK]
KQUEUE = ["sim-freebsd", "sim-netbsd"]
OWN = KQUEUE + ["sim-illumos"]
OTHER = ["sim-haiku", "sim-espidf", "sim-vita", "sim-redox"]
RAW = ["raw-epoll", "raw-poll", "raw-pipe"]
SHIM = ["shim-epoll", "shim-poll", "shim-pipe"]
EPOLL = ["raw-epoll", "raw-pipe"]
TSAN = ["tsan-epoll", "tsan-poll", "tsan-pipe"]
ASAN = ["asan-epoll", "asan-poll"]

# --------------------------------------------------------------------------------------------
# What decides each property: groups of (variants, scenario, parameters, accepted kinds).
def seq(*profiles, **kw):
    return [("seq", dict(profile=p, **kw)) for p in profiles]
def sc(*names, **kw):
    return [(n, dict(kw)) for n in names]

MISSED = "missed-*,wait-error,not-linearizable:missed,wait-blocked,wait0-blocked"
TRUTH = "spurious-event,unknown-key,stale-event,dup-*,internal-event,event-flags:*,fault-events,not-linearizable:delivery"
ONCE = "dup-oneshot,dup-edge-oneshot,missed-oneshot,missed-edge-oneshot,missed-ready-blocked,missed-returned-empty,missed-now,stale-event,spurious-event,not-linearizable:*"
LEVEL = "missed-level,missed-now,missed-ready-blocked,missed-returned-empty,missed-oneshot,spurious-event,stale-event,unknown-key,dup-*,edge-dup,not-linearizable:*"
EDGE = "edge-dup,missed-*,dup-edge-oneshot,mode-support,op-result,spurious-event,stale-event"
CONTRACT = "op-result,op-blocked,mode-support,unknown-key,stale-event,spurious-event,missed-*,dup-*,edge-dup,event-flags:*,wait-error,fault-*,not-linearizable:*"
CONC = "op-result,op-blocked,not-linearizable:*,missed-*,dup-*,stale-event,unknown-key,spurious-event,wait-error,notify-blocked,wait-blocked,wait0-blocked,source-data,timeout-overrun,early-timeout,notify-lost"
NOTIFY = "notify-lost,notify-error,notify-blocked,wait-error,wait-blocked,op-blocked"
TRACE = "early-timeout,notify-*,internal-event,missed-*,dup-*,poller-fd-stuck,wait-error,spurious-event,edge-dup"
EARLY = "early-timeout"
LATE = "timeout-overrun,wait0-blocked,wait-error,missed-now,missed-oneshot,missed-ready-blocked"
ALL = ""
SECOND = "second-wait-*,early-timeout,missed-*,dup-*,notify-lost,wait-error,wait-blocked,timeout-overrun,spurious-event,internal-event,notify-error"
CONTAINER = "count,container,internal-event,dup-in-wait,second-wait-container,fault-events,event-api"
FLAGS = "event-flags:*,event-api,spurious-event,missed-*,wait-error"
SOURCE = "source-*,fd-closed"
FDS = "fd-*,cloexec,source-closed,create-error,fault-error"
POLLERFD = "poller-fd,poller-fd-silent,poller-fd-stuck"
REUSE = "stale-event,unknown-key,missed-*,dup-*,op-result,edge-dup,event-flags:*,spurious-event,not-linearizable:*"

P = {
    "C01": [(RAW, seq("general", "many", "notify") + sc("reactor", "relay"), MISSED), (SHIM, sc("reactor", "registrations", "waiters"), MISSED), (["raw-poll", "raw-epoll"], seq("level", "edge", "reuse", "oneshot"), MISSED)],
    "C02": [(RAW, seq("general", "flags", "reuse", "many", "regerr", "multi"), TRUTH), (SHIM, seq("faults", "eintr") + sc("deletions"), TRUTH)],
    "C03": [(RAW, seq("oneshot", "general", "flags", "many"), ONCE), (RAW, sc("reactor", "waiters"), ONCE), (SHIM, sc("reactor", "registrations"), ONCE), (["raw-epoll"], seq("edge"), ONCE)],
    "C04": [(RAW, seq("level", "general", "flags", "reuse"), LEVEL), (SHIM, sc("reactor"), LEVEL), (RAW, sc("registrations"), LEVEL), (["raw-poll", "raw-epoll"], seq("many"), LEVEL)],
    "C05": [(EPOLL + ["shim-epoll", "shim-pipe"], seq("edge"), EDGE), (EPOLL, seq("general", "flags", "notify") + sc("reactor", "deletions"), EDGE), (["raw-poll"], seq("general", "regerr"), EDGE), (["shim-epoll"], seq("eintr") + sc("reactor"), EDGE)],
    "C06": [(RAW, seq("regerr", "general", "reuse"), CONTRACT), (SHIM, seq("regerr", "faults"), CONTRACT), (RAW, sc("registrations"), CONTRACT), (EPOLL, seq("edge"), CONTRACT), (RAW, sc("resources"), CONTRACT)],
    "C07": [(RAW + SHIM, sc("registrations", "reactor"), CONC), (RAW + ["shim-poll"], sc("optime"), CONC), (RAW, sc("deletions", "floods"), CONC), (SHIM, sc("waiters"), CONC), (RAW + ["shim-poll"], sc("windows"), CONC)],
    "C08": [(RAW + SHIM, sc("notify"), NOTIFY), (RAW, sc("relay"), NOTIFY), (RAW + SHIM, sc("bursts"), NOTIFY), (RAW, sc("floods", "longwaits") + seq("notify"), NOTIFY), (SHIM, sc("second") + seq("faults", "notify"), NOTIFY), (["shim-epoll", "shim-poll"], sc("vtime"), NOTIFY), (SHIM, sc("windows"), NOTIFY)],
    "C09": [(RAW, seq("notify") + sc("floods", "notify", "relay"), TRACE), (RAW + SHIM, sc("bursts"), TRACE), (SHIM, seq("notify", "eintr") + sc("notify"), TRACE), (RAW, sc("longwaits"), TRACE), (["raw-epoll"], sc("nested"), TRACE), (["raw-poll", "raw-pipe"], sc("windows"), TRACE)],
    "C10": [(RAW, sc("timing", "longwaits", "sigtime", "optime"), EARLY), (SHIM, sc("vtime", "timing"), EARLY), (RAW, sc("second", "notify", "waiters"), EARLY), (["shim-epoll", "shim-pipe"], sc("vtime", seccomp="timerfd"), EARLY), (RAW, seq("general"), EARLY)],
    "C11": [(SHIM, sc("vtime"), LATE), (["shim-epoll", "shim-pipe"], sc("vtime", seccomp="timerfd"), LATE), (RAW + ["shim-poll"], sc("optime"), LATE), (RAW, sc("timing", "longwaits", "sigtime") + seq("general"), LATE), (SHIM, seq("eintr"), LATE)],
    "C12": [(RAW, sc("sigtime", "longwaits") + seq("general", "notify", signals="60"), ALL), (SHIM, seq("eintr") + sc("vtime"), ALL), (RAW, sc("timing", "notify"), ALL), (["raw-epoll"], seq("edge", signals="40"), ALL), (["raw-poll"], seq("level", signals="40"), ALL)],
    "C13": [(RAW + SHIM, sc("second", "waiters"), SECOND), (RAW, sc("relay", "realfaults"), SECOND), (SHIM, seq("faults"), SECOND)],
    "C14": [(RAW, seq("container", "general", "many", "notify"), CONTAINER), (SHIM, seq("container", "eintr", "faults") + sc("second"), CONTAINER), (RAW, sc("waiters"), CONTAINER)],
    "C15": [(RAW, seq("flags") + sc("connects"), FLAGS), (["raw-epoll", "raw-poll"], seq("general", "edge", "level", "oneshot"), FLAGS), (SHIM, seq("flags") + sc("connects"), FLAGS)],
    "C16": [(RAW, seq("general", "reuse", "flags", "multi") + sc("reactor"), SOURCE), (SHIM, seq("faults", "general") + sc("reactor"), SOURCE)],
    "C17": [(RAW, sc("resources") + seq("fd", "multi", "reuse"), FDS), (SHIM, sc("createfaults", "resources") + seq("faults"), FDS), (["raw-epoll"], sc("resources", seccomp="eventfd,pipe2"), FDS), (["raw-poll"], sc("resources", seccomp="eventfd,pipe2"), FDS), (["raw-epoll"], sc("resources", seccomp="timerfd"), FDS)],
    "C18": [(RAW, seq("multi") + sc("pollers"), ALL), (SHIM, seq("multi") + sc("pollers"), ALL), (RAW, sc("timing", pollers="1"), ALL)],
    "C19": [(["raw-epoll"], [x for s in ("eventfd", "timerfd", "eventfd,timerfd,pipe2", "eventfd,pipe2") for x in sc("notify", "timing", "resources", seccomp=s) + seq("general", seccomp=s)], ALL),
            (["raw-poll"], [x for s in ("eventfd", "eventfd,timerfd,pipe2") for x in sc("notify", "floods", "resources", "registrations", seccomp=s) + seq("general", seccomp=s)], ALL),
            (["raw-pipe"], [x for s in ("pipe2", "timerfd,pipe2") for x in sc("notify", "floods", "resources", seccomp=s) + seq("general", seccomp=s)], ALL),
            (SHIM, sc("createfaults"), ALL), (["shim-epoll", "shim-pipe"], sc("vtime", seccomp="timerfd"), ALL), (["raw-epoll"], sc("floods", "longwaits", seccomp="eventfd,timerfd,pipe2"), ALL)],
    "C20": [(TSAN, sc("registrations", "reactor", "notify", "waiters", "second", "deletions"), ALL), (ASAN, seq("general", "flags", "container") + sc("reactor", "deletions", "resources"), ALL), (TSAN, seq("general", "many"), ALL), (ASAN, seq("many", "regerr") + sc("longwaits"), ALL), (RAW, seq("general", "regerr", "container") + sc("longwaits"), "panic"), (SHIM, sc("vtime"), "panic"),
            (MIRIS, sc("miri-notifications", "miri-registrations", "miri-reactor", "miri-waiters", "miri-timeouts", "miri-single"), ALL)],
    "C21": [(SHIM, seq("faults") + sc("createfaults"), ALL), (RAW, sc("realfaults", "resources"), ALL), (SHIM, seq("faults", "notify"), ALL)],
    "C22": [(EPOLL + ["shim-epoll"], seq("fd", "notify", "general") + sc("nested"), POLLERFD), (["shim-epoll", "shim-pipe"], seq("faults", "eintr"), POLLERFD), (["raw-epoll"], seq("fd", "notify", seccomp="eventfd") + sc("nested", seccomp="timerfd"), POLLERFD), (EPOLL, sc("notify", "bursts"), POLLERFD), (["shim-pipe"], sc("bursts"), POLLERFD)],
    "C24": [(OWN, [("simseq", dict(profile=p)) for p in ("", "multi", "faults", "notify", "eintr", "regerr", "fd")], ALL),
            (KQUEUE, [("simseq", dict(profile=p)) for p in ("edge", "level")], ALL),
            (OWN, sc("registrations", "reactor", "notify", "bursts", "relay", "second", "waiters", "deletions", "windows", "pollers", "timing", "longwaits", "resources", "connects"), ALL),
            (OTHER, seq("general", "notify", "regerr", "many") + sc("registrations", "reactor", "notify", "bursts", "relay", "second", "timing", "resources"), ALL)],
    "C25": [(KQUEUE, [("filters", dict(profile=p)) for p in ("", "faults", "", "faults")], ALL)],
    "C23": [(RAW, seq("reuse", "general") + sc("deletions"), REUSE), (SHIM, sc("deletions", "registrations") + seq("reuse"), REUSE), (EPOLL, seq("edge"), REUSE)],
}
# Seconds of observation per job in the quick tier (default 8).
QUICK_S = {"C20": 6, "C19": 6, "C24": 5}
LEVELS = {"C17": "exploration", "C19": "fault_enumeration", "C21": "fault_enumeration"}
RULES = {
    "seq": "a seeded random history of operations on 1-4 pollers over sockets, pipes, eventfds and listeners, compared step by step with a reference model and raw kernel probes; distinct by the sequence of operations, outcomes and deliveries, non-trivial if at least one event was delivered",
    "simseq": "a seeded random history of operations on 1-4 pollers on the simulated kqueue or event ports, compared step by step with a model of what those deliver; distinct by the sequence of operations and outcomes, non-trivial if at least one event was delivered",
    "filters": "a seeded random history of timers, signals, processes and descriptors on the simulated kqueue, compared with a model; distinct by the sequence of operations and outcomes, non-trivial if at least one event was delivered",
    "registrations": "a multi-threaded add/modify/delete history against a thread in wait; distinct by the order in which operations completed, non-trivial if every source's history was linearized",
    "reactor": "writers, registered sources, a reactor thread and workers that re-arm; distinct by the sequence of deliveries",
    "notify": "threads that notify and require the waiter to return; distinct by the sequence of wait results",
    "bursts": "bursts of notifications and registration calls against waits that do not block, after which one wait consumes all; distinct by numbers of waits",
    "relay": "one thread blocking and others polling on the same poller, with threads stalled at arbitrary instructions; what is sent to a wait seen asleep must end it; distinct by kinds and number of exchanges",
    "floods": "70000 calls of one kind without (or in step with) waits, then a normal exchange; distinct by kind",
    "second": "waits by other threads while one is asleep in wait; distinct by how the first ends, numbers and delays",
    "waiters": "threads that all wait on one poller; distinct by the interleaving of their waits",
    "deletions": "sources deleted, closed and their numbers reused during waits; distinct by which registrations were delivered and how often",
    "windows": "threads held after a chosen number of instructions, or at a chosen system call, of a library call while others carry out whole calls, then released in some order; distinct by calls, places and order",
    "pollers": "pollers sharing a source, each with a thread in wait; distinct by the sequence of operations",
    "timing": "sequences of real waits with measured durations among events, notifications, signals and registrations; distinct by the sequence of timeouts",
    "longwaits": "waits with timeouts from seconds to Duration::MAX watched asleep, disturbed and then ended; distinct by timeout",
    "vtime": "waits of any magnitude on a virtual clock with interruptions, events and notifications at planned instants; distinct by timeouts and plans",
    "sigtime": "waits under dense real signals up to and beyond their deadline; distinct by timeout, density and ending",
    "optime": "registration calls by another thread, also refused ones, up to and beyond the moment a wait has to return; distinct by timeout, density and ending",
    "resources": "pollers created, used and dropped, also at the descriptor limit, with the descriptor table compared; distinct by order and outcome",
    "createfaults": "Poller::new with the n-th call of a kind failing with an errno and facilities missing; distinct by the combination, non-trivial if the fault was hit",
    "realfaults": "waits the kernel itself refuses, then a normal exchange; distinct by seed",
    "nested": "a poller registered in another poller; distinct by the sequence of operations",
    "miri-notifications": "under Miri: threads that notify and require the waiter to answer; distinct by order of system calls and results",
    "miri-registrations": "under Miri: concurrent registration calls and deliveries that must have a sequential explanation; distinct by order of system calls, operations and results",
    "miri-reactor": "under Miri: a waiting thread and workers that re-arm; distinct by order of system calls and results",
    "miri-waiters": "under Miri: several threads that wait on one poller; distinct by order of system calls and results",
    "miri-timeouts": "under Miri: waits on a virtual clock with interruptions and registration calls; distinct by order of system calls and results",
    "miri-single": "under Miri: a history of one thread, compared with a model; distinct by order of system calls and results",
    "connects": "TCP connections refused or established; distinct by outcomes, order and mode",
}

# --------------------------------------------------------------------------------------------
def tree_hash(*paths):
    h = hashlib.sha256()
    for p in paths:
        files = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()

def miri_env(v, flags):
    env = dict(os.environ, RUSTFLAGS=VARIANTS[v]["flags"].strip(), MIRIFLAGS=flags, XDG_CACHE_HOME=os.path.join(BUILD, "cache"), CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "MIRI_SYSROOT", "RUSTUP_TOOLCHAIN"):
        env.pop(k, None)
    return env

def build_miri(v):
    """Miri's standard library, then a first run (which compiles everything)."""
    tdir = os.path.join(BUILD, v)
    os.makedirs(tdir, exist_ok=True)
    env = miri_env(v, "")
    with open(os.path.join(BUILD, ".mirilock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["cargo", "+nightly", "miri", "setup"], cwd=MIRI, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            return r.stderr[-3000:]
    with open(os.path.join(tdir, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        want = tree_hash(os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(HARNESS, "src", "lin.rs"), os.path.join(HERE, "miri", "rustix"), os.path.join(MIRI, "src"))
        mark = os.path.join(tdir, ".tree")
        have = open(mark).read() if os.path.exists(mark) else ""
        if have == want:
            return None
        if have:
            shutil.rmtree(os.path.join(tdir, "miri"), ignore_errors=True)
        r = subprocess.run(miri_command(v, ["none"]), cwd=MIRI, env=env, capture_output=True, text=True)
        if r.returncode != 0 or "VH-RUN" not in r.stdout:
            return r.stderr[-3000:]
        with open(mark, "w") as f:
            f.write(want)
    return None

def miri_command(v, args):
    return ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--target-dir", os.path.join(BUILD, v, "miri"), "--"] + args

MIRI_RATES = ("0.002", "0.01", "0.05", "0.002")
def run_miri(j, scratch, tag):
    """Schedules chosen by seeds, in chunks, until the time is up."""
    what = j["scenario"][5:]
    t0 = time.time()
    seen, counters, samples = set(), dict(iterations=0), []
    first = j.get("iter") if j.get("iter") is not None else j["seed"] % (1 << 28)
    n, chunk, text = 0, 32, ""
    while True:
        rate = j.get("rate") or MIRI_RATES[n % len(MIRI_RATES)]
        flags = f"-Zmiri-preemption-rate={rate} "
        flags += f"-Zmiri-seed={first}" if j.get("iter") is not None else f"-Zmiri-many-seeds={first}..{first + chunk}"
        p = subprocess.Popen(miri_command(j["variant"], [what]), cwd=MIRI, env=miri_env(j["variant"], flags), stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        try:
            so, se = p.communicate(timeout=150)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            so, se = p.communicate()
            rc = "timeout"
        so, text = so.decode(errors="replace"), se.decode(errors="replace")
        for l in so.splitlines():
            m = re.match(r"VH-RUN (\w+) (.*)", l)
            if m:
                counters["iterations"] += 1
                seen.add(m.group(1))
                for kv in m.group(2).split():
                    k, _, x = kv.partition("=")
                    counters["miri_" + k] = counters.get("miri_" + k, 0) + int(x)
                if len(samples) < 1:
                    samples.append(f"{what}: {m.group(2)}")
        res = dict(counters=counters, distinct=len(seen), samples=samples)
        if rc != 0:
            break
        if j.get("iter") is not None or time.time() - t0 > j["secs"]:
            return "held", res, text
        n += 1
        first += chunk
        chunk = 64
    text = re.sub(r"(Trying seed: \d+\s*)", "", text)
    bad = re.search(r"FAILING SEED: (\d+)", text)
    it = int(bad.group(1)) if bad else j.get("iter")
    j["rate"] = rate
    def violation(kind, detail):
        return "violation", dict(res, kind=kind, detail=detail, iter=it), text[-6000:]
    m = re.search(r"^VH-VIOLATION (\S+) (.*)", text, re.M)
    if m and m.group(1) != "harness":
        return violation(m.group(1), m.group(2))
    m = re.search(r"^error: (Undefined Behavior: .*|memory leaked: .*|.*evaluated program deadlocked.*|abnormal termination: .*)", text, re.M)
    if m:
        kind = "miri-ub" if "Undefined" in m.group(1) else "miri-leak" if "leaked" in m.group(1) else "miri-deadlock" if "deadlocked" in m.group(1) else "miri-abort"
        return violation(kind, m.group(1) + " " + text[m.end():m.end() + 700])
    m = re.search(r"panicked at (\S+?):\d+:\d+:\n(.*)", text)
    if m and "src/kernel.rs" not in m.group(1):
        return violation("panic", f"{m.group(1)}: {m.group(2)}")
    return "inconclusive", res, f"exit status {rc}; {text[-1500:]}"

def binary(v):
    d = os.path.join(BUILD, v)
    if "san" in VARIANTS[v]:
        d = os.path.join(d, TRIPLE)
    return os.path.join(d, "release", "vh")

def sim_source():
    """The library's source with its tests for the system turned into tests for the simulated one."""
    os.makedirs(SIMSRC, exist_ok=True)
    with open(os.path.join(BUILD, ".simlock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        want = {}
        for d, _, fs in os.walk(os.path.join(REPO, "src")):
            for f in fs:
                p = os.path.join(d, f)
                with open(p, encoding="utf-8", errors="surrogateescape") as fh:
                    want[os.path.relpath(p, REPO)] = re.sub(r'\btarget_(os|vendor)(\s*=\s*")', r"polling_sim_\1\2", fh.read())
        with open(os.path.join(REPO, "Cargo.toml")) as fh:
            want["Cargo.toml"] = fh.read()
        for d, _, fs in os.walk(SIMSRC):
            for f in fs:
                p = os.path.join(d, f)
                if os.path.relpath(p, SIMSRC) not in want and f != "Cargo.lock":
                    os.remove(p)
        for p, t in want.items():
            p = os.path.join(SIMSRC, p)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", encoding="utf-8", errors="surrogateescape") as fh:
                fh.write(t)

def build(v):
    """Build one variant from /repo's working tree; returns an error text or None."""
    spec = VARIANTS[v]
    if "miri" in spec:
        return build_miri(v)
    tdir = os.path.join(BUILD, v)
    cwd = SIMHARNESS if "sim" in spec else HARNESS
    os.makedirs(tdir, exist_ok=True)
    with open(os.path.join(tdir, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        want = tree_hash(os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(HARNESS, "src"), os.path.join(HARNESS, "Cargo.toml"), *([os.path.join(HERE, "simos")] if "sim" in spec else []))
        mark = os.path.join(tdir, ".tree")
        have = open(mark).read() if os.path.exists(mark) else ""
        if have == want and os.path.exists(binary(v)):
            return None
        env = dict(os.environ, RUSTFLAGS=spec["flags"].strip(), CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1")
        env.pop("CARGO_TARGET_DIR", None)
        env.pop("CARGO_BUILD_TARGET", None)
        base = ["cargo"] + spec["cargo"]
        if have:
            os.remove(mark) if os.path.exists(mark) else None
            # File times say nothing in a restored tree: rebuild what depends on the sources.
            t = ["--target", TRIPLE] if "san" in spec else []
            subprocess.run(base + ["clean", "--release", "-p", "polling", "-p", "vh"] + (["-p", "rustix@0.38.900"] if "sim" in spec else []) + ["--offline", "--target-dir", tdir] + t, cwd=cwd, env=env, capture_output=True)
        for attempt in (1, 2):
            r = subprocess.run(base + ["build", "--release", "--offline", "--target-dir", tdir] + spec["extra"], cwd=cwd, env=env, capture_output=True, text=True)
            if r.returncode == 0:
                break
            if attempt == 1 and "error[" not in r.stderr:
                shutil.rmtree(tdir, ignore_errors=True)
                os.makedirs(tdir, exist_ok=True)
                time.sleep(1)
        if r.returncode != 0:
            return r.stderr[-3000:]
        with open(mark, "w") as f:
            f.write(want)
        return None

OPTIONAL = {"sim", "miri"}
def build_all(vs):
    bad = {}
    if any("sim" in VARIANTS[v] for v in vs):
        sim_source()
    with cf.ThreadPoolExecutor(8) as ex:
        for v, e in zip(vs, ex.map(build, vs)):
            if e:
                bad[v] = e
    return bad

# --------------------------------------------------------------------------------------------
def jobs_of(prop, tier, seed):
    q = QUICK_S.get(prop, 8)
    out = []
    for vs, scs, accept in P[prop]:
        for name, params in scs:
            for v in vs:
                params_ = dict(params)
                sec = params_.pop("seccomp", "")
                out.append(dict(variant=v, scenario=name, params=params_, seccomp=sec, accept=accept, secs=q + 6 if "miri" in VARIANTS[v] else q))
    reps = 1 if tier == "quick" else 3
    res = []
    for r in range(reps):
        for i, j in enumerate(out):
            k = dict(j)
            s = hashlib.sha256(f"{seed}/{prop}/{i}/{r}".encode()).digest()
            k["seed"] = int.from_bytes(s[:6], "big")
            if tier != "quick":
                # The whole stays below 15 minutes.
                k["secs"] = max(10, min(60, 760 * 7 // (3 * len(out))))
                k["params"] = dict(k["params"], thorough="1")
            res.append(k)
    return res

def command(j, out):
    c = [binary(j["variant"]), "--scenario", j["scenario"], "--seed", str(j["seed"]), "--secs", str(j["secs"]), "--out", out]
    for k, v in j["params"].items():
        c += ["--param", f"{k}={v}"]
    if j["seccomp"]:
        c += ["--seccomp", j["seccomp"]]
    if j["accept"]:
        c += ["--accept", j["accept"] + ",panic"]
    if "iter" in j:
        c += ["--iter", str(j["iter"])]
    return c

def run_job(j, scratch, tag):
    """Returns (outcome, result, text): held, violation, foreign, inconclusive."""
    if "miri" in VARIANTS[j["variant"]]:
        return run_miri(j, scratch, tag)
    out = os.path.join(scratch, f"{tag}.json")
    san = os.path.join(scratch, f"{tag}.san")
    env = dict(os.environ)
    env["VH_NORMAL_EXIT"] = "1"
    # log_path would be split at colons; the scratch directory has none.
    env["TSAN_OPTIONS"] = f"exitcode=66 halt_on_error=1 log_path={san}"
    env["ASAN_OPTIONS"] = f"exitcode=66 detect_leaks=1 allocator_may_return_null=1 log_path={san}"
    env["LSAN_OPTIONS"] = "exitcode=66"
    limit = j["secs"] + (150 if "san" in VARIANTS[j["variant"]] else 100)
    p = subprocess.Popen(command(j, out), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, start_new_session=True)
    try:
        so, se = p.communicate(timeout=limit)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        so, se = p.communicate()
        rc = "timeout"
    try:
        res = json.load(open(out))
    except Exception:
        res = None
    text = (se or b"").decode(errors="replace")[-4000:]
    for f in sorted(os.listdir(scratch)):
        if f.startswith(f"{tag}.san"):
            text += open(os.path.join(scratch, f), errors="replace").read()[:6000]
    if rc == 0 and res:
        return "held", res, text
    if rc == 10 and res:
        return "violation", res, text
    if rc == 11 and res:
        return "foreign", res, text
    if rc == 12:
        return "inconclusive", res, text
    if rc == 66 and "Sanitizer" in text:
        m = re.search(r"(ERROR|WARNING|SUMMARY): (\w+Sanitizer: .*)", text)
        what = m.group(2) if m else "sanitizer report"
        if "out of memory" in what or "allocation-size" in what or "CHECK failed" in what:
            return "inconclusive", res, text
        return "violation", dict(kind="sanitizer", detail=what, iter=None), text
    if isinstance(rc, int) and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP, signal.SIGSYS, signal.SIGPIPE):
        return "violation", dict(kind="crash", detail=f"the process died of {signal.Signals(-rc).name}: {text[-600:]}", iter=None), text
    return "inconclusive", res, f"exit status {rc}; {text}"

def findings(prop):
    path = os.path.join(HERE, "known-findings.txt")
    out = []
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"open: property=(\S+) match=/(.*)/ (.*)", l)
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3).strip()))
    return out

def run(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(EVID, exist_ok=True)
    jobs = jobs_of(prop, tier, seed)
    vs = sorted({j["variant"] for j in jobs})
    bad = build_all(vs)
    for v, e in bad.items():
        print(f"cannot build variant {v}:\n{e}", file=sys.stderr)
    if any(not OPTIONAL & set(VARIANTS[v]) for v in bad):
        return 3
    # (What a simulation lacks is no fault of the library's.)
    unbuilt = sorted(bad)
    jobs = [j for j in jobs if j["variant"] not in bad]
    known = findings(prop)
    scratch = os.path.join(BUILD, "run", f"{prop}-{os.getpid()}")
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    state = dict(found=None)
    lock = threading.Lock()
    results = []

    def one(i):
        j = jobs[i]
        if state["found"]:
            return
        o, r, text = run_job(j, scratch, f"j{i}")
        if o == "inconclusive" and not state["found"]:
            first = (r or {}).get("detail") or text[-300:]
            o, r, text = run_job(dict(j, seed=j["seed"] + 1), scratch, f"j{i}b")
            if o == "inconclusive":
                text = f"{first} / {text}"
        with lock:
            kf = None
            if o == "violation":
                sig = f"{j['variant']} {j['scenario']} {r['kind']} {r['detail']}"
                kf = next((d for rx, d in known if rx.search(sig)), None)
                if kf is None and not state["found"]:
                    state["found"] = (i, j, r, text)
            results.append((i, j, o if kf is None else "known", r, text))

    with cf.ThreadPoolExecutor(int(os.environ.get("VH_PAR", "7"))) as ex:
        list(ex.map(one, range(len(jobs))))

    # Evidence: what was actually observed.
    ev = nt = 0
    counters, samples, outcomes, rules, table, foreign = {}, [], {}, {}, [], []
    for i, j, o, r, text in sorted(results, key=lambda x: x[0]):
        outcomes[o] = outcomes.get(o, 0) + 1
        c = (r or {}).get("counters") or {}
        n = c.get("iterations", 0)
        ev += n
        nt += min((r or {}).get("distinct") or 0, n)
        for k, x in c.items():
            counters[k] = max(counters.get(k, 0), x) if k.startswith("largest") else counters.get(k, 0) + x
        rules[j["scenario"]] = RULES[j["scenario"]]
        prof = ",".join(f"{k}={v}" for k, v in j["params"].items() if k != "thorough") + (f" without {j['seccomp']}" if j["seccomp"] else "")
        table.append(f"{j['variant']} {j['scenario']} {prof}".strip() + f": {o}, {n} runs, {(r or {}).get('distinct') or 0} distinct")
        for s in ((r or {}).get("samples") or [])[:1]:
            if len(samples) < 8 and all(x["scenario"] != j["scenario"] for x in samples):
                samples.append(dict(variant=j["variant"], scenario=j["scenario"], seed=j["seed"], case=s[:1500]))
        for f in ((r or {}).get("foreign") or [])[:2]:
            foreign.append(f"{j['variant']} {j['scenario']}: {f[:300]}")
        if o == "inconclusive":
            foreign.append(f"{j['variant']} {j['scenario']}: inconclusive: {((r or {}).get('detail') or text)[:300]}")
    cov = dict(evaluations=ev, distinct_nontrivial=nt, rule="; ".join(f"{k}: {v}" for k, v in sorted(rules.items())), samples=samples or ["no run was completed"], observed=counters, jobs=table, outcomes=outcomes)
    foreign += [f"{v}: cannot be built: {bad[v][-300:]}" for v in unbuilt]
    if foreign:
        cov["set_aside"] = foreign[:20]
    doc = dict(property=prop, tier=tier, seed=seed, level=LEVELS.get(prop, "exploration"), coverage=cov,
               assumptions=["Linux kernel semantics are as observed through raw system calls of the harness", "executions not produced by the workloads are not covered"],
               wall_s=round(time.time() - t0, 1), violations=1 if state["found"] else 0)
    tmp = os.path.join(EVID, f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(tmp, os.path.join(EVID, f"{prop}.json"))
    for rx, d in known:
        print(f"KNOWN-FINDING: property={prop} {d}")
    shutil.rmtree(scratch, ignore_errors=True)
    if state["found"]:
        i, j, r, text = state["found"]
        rp = os.path.join(EVID, f"replay-{prop}.json")
        with open(rp, "w") as f:
            json.dump(dict(property=prop, job=j, kind=r["kind"], detail=r["detail"], iteration=r.get("iter"), history=r.get("history"), output=text,
                           how=f"python3 {HERE}/check.py replay {rp}"), f, indent=1)
        print(f"{j['variant']} {j['scenario']} {j['params']} {j['seccomp']} seed {j['seed']} run {r.get('iter')}: {r['kind']}: {r['detail'][:1500]}")
        for l in (r.get("history") or [])[-30:]:
            print("   " + l[:300])
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    held = outcomes.get("held", 0) + outcomes.get("known", 0) + outcomes.get("foreign", 0)
    print(f"{prop}: held on {ev} runs ({nt} distinct) in {len(results)} jobs, {doc['wall_s']} s; {outcomes}")
    if held == 0 or ev == 0:
        print("nothing was observed", file=sys.stderr)
        return 2
    return 0

def replay(path):
    d = json.load(open(path))
    j = d["job"]
    e = build_all([j["variant"]]).get(j["variant"])
    if e:
        print(e, file=sys.stderr)
        return 3
    scratch = os.path.join(BUILD, "run", f"replay-{os.getpid()}")
    os.makedirs(scratch, exist_ok=True)
    tries = [dict(j, iter=d["iteration"], secs=5)] * 5 if d.get("iteration") is not None else []
    for k, jj in enumerate(tries + [j]):
        o, r, text = run_job(jj, scratch, f"r{k}")
        print(o, (r or {}).get("kind"), (r or {}).get("detail"))
        if o == "violation":
            for l in (r.get("history") or []):
                print("   " + l)
            print(text)
            print(f"VIOLATION property={d['property']} replay={path}")
            return 1
    return 0

def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        bad = build_all(list(v for v in VARIANTS if v not in ("asan-pipe",)))
        for v, e in bad.items():
            print(f"cannot build variant {v}:\n{e}", file=sys.stderr)
        return 1 if any(not OPTIONAL & set(VARIANTS[v]) for v in bad) else 0
    if a[:1] == ["run"]:
        return run(a[1])
    if a[:1] == ["replay"]:
        return replay(a[1])
    if a[:1] == ["all"]:
        rc = 0
        for p in a[2:] or P:
            os.environ["VERIF_TIER"] = a[1] if len(a) > 1 else "quick"
            r = run(p)
            rc = rc or r
        return rc
    print(__doc__)
    return 3
sys.exit(main())

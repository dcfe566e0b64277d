#!/usr/bin/env python3
"""Write MANIFEST.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": ("trace monitor: every wait compared with raw kernel probes; stall watchdog over threaded reactors", "exploration"),
    "C02": ("online reference model of registrations, every event explained by raw kernel probes", "exploration"),
    "C03": ("online per-registration delivery counter; linearizability check of threaded histories", "exploration"),
    "C04": ("online monitor: level registrations against raw kernel probes before and after every wait", "exploration"),
    "C05": ("online monitor against a second raw edge-triggered epoll instance holding the same registrations", "exploration"),
    "C06": ("online reference model of call results and of the state left by refused calls", "exploration"),
    "C07": ("linearizability checking of recorded multi-threaded histories, with injected delays", "exploration"),
    "C08": ("stress with a notification accounting monitor and a stall watchdog, injected delays in the kernel calls", "exploration"),
    "C09": ("online monitor of what a notification leaves behind", "exploration"),
    "C10": ("time monitor on real and on a simulated clock", "exploration"),
    "C11": ("time monitor on a simulated clock (exact) and on the real one (bounded by thread state, not by time)", "exploration"),
    "C12": ("injected EINTR, storms of real signals, simulated clock; all monitors on", "exploration"),
    "C13": ("monitor of concurrent waits: one waiter asleep (seen in /proc), results of the others checked", "exploration"),
    "C14": ("online monitor of the container after every wait", "exploration"),
    "C15": ("online monitor of every flag of every event against raw kernel probes", "exploration"),
    "C16": ("byte-accounting monitor on every source, descriptor flags and identities compared", "exploration"),
    "C17": ("descriptor-table monitor around every life-cycle step, with injected failures", "exploration"),
    "C18": ("several pollers over shared sources, one model each, all monitors on", "exploration"),
    "C19": ("fault enumeration: facilities removed with seccomp, all monitors on", "fault_enumeration"),
    "C20": ("ThreadSanitizer, AddressSanitizer, LeakSanitizer, debug assertions and overflow checks under all workloads", "exploration"),
    "C21": ("fault enumeration: system calls of the library made to fail, state checked afterwards", "fault_enumeration"),
    "C22": ("online monitor: the exported descriptor's raw readiness against what is pending", "exploration"),
    "C23": ("online reference model under forced descriptor reuse, and deletions during waits", "exploration"),
    "C24": ("online reference models and all workload monitors on the library compiled for FreeBSD, NetBSD, illumos, Redox, Haiku, ESP-IDF and Vita, over a simulation of their system calls", "exploration"),
    "C25": ("online reference model of timers, signals and processes on the library compiled for FreeBSD and NetBSD, over a simulated kqueue", "exploration"),
}
NOTE = ("Holds on every execution explored (numbers in the evidence file); not a proof. The real library runs on the real Linux kernel in all three "
        "Linux configurations (epoll+eventfd, epoll+pipe, poll). Trusted: the harness's own raw system calls as the account of what the kernel holds.")
EXTRA = {
    "C11": " Lateness is decided exactly on a simulated clock; on the real clock only from the state of the waiting thread, never from a duration that load could stretch.",
    "C20": " Sanitizers see the library, rustix and the harness (std too for ThreadSanitizer), in the libc back end of rustix.",
    "C24": " Here the kernel is not real: kqueue, event ports and the notification primitives of the other systems are simulated on top of epoll (simos/), taking the reading most favourable to the library where their documentation leaves room; the library's source is compiled unchanged but for the names of its configuration tests. Covers FreeBSD (and what shares its code: Apple, DragonFly), NetBSD (OpenBSD), illumos (Solaris), Redox, Haiku, ESP-IDF, Vita; not Hermit.",
    "C25": " The kqueue is simulated (simos/); Fork and Exec are not exercised, and modes of a signal are held only to what every kqueue does.",
    "C19": " Facilities covered: eventfd, timerfd, pipe2.",
}
NA = [("C26", "the Windows back end needs NT system calls, handles and std::os::windows types that neither exist here nor can be stood in for: its code cannot be compiled, and runtime monitoring needs executions")]
checks = []
for p, (t, l) in T.items():
    checks.append(dict(property=p, quick_cmd=f"python3 check.py run {p}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py run {p}", evidence_file=f"evidence/{p}.json",
                       technique="runtime monitoring: " + t, level=l, level_note=NOTE + EXTRA.get(p, "")))
d = dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=[dict(property=p, reason=r) for p, r in NA],
         notes="No hooks in /repo: the library is observed through its public interface, raw system calls, seccomp filters and interposed libc symbols (rustix's libc back end, chosen by a cfg of rustix). Findings: known-findings.txt.")
json.dump(d, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")

import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":observe or ["Poller::wait","Events::iter"],"hook_needed":hook}})
E="src/epoll.rs";L="src/lib.rs";O="src/poll.rs"
S=lambda n,m,w:{"name":n,"meaning":m,"where":w}

p("C01","Readiness is never lost",
"Whenever a registered source is armed (never delivered since it was last added or modified if one-shot; always if level-triggered) and a condition its interest asks for holds, a wait that is in progress or is started next returns instead of blocking, and repeated waits deliver that source. This holds for every mix of sources, modes, keys, container capacities (down to one event), numbers of simultaneously ready sources, timeouts, notifications, signals and concurrent activity in other threads, and no ready source is starved by others.",
["inputs","histories","schedules","configurations"],
"every history of registrations, peer activity and waits, every container capacity and number of ready sources, every interleaving of a waiting thread with threads that re-arm, write, notify",
"tests use at most 100 one-event-at-a-time connections, default capacity 1024, and two threads separated by sleeps; nothing covers more ready sources than capacity, re-arming races or mixed modes",
[E,O,L],[("interest to OS flags",E+":epoll_flags / "+O+":poll_events"),("batch collection and disarm",O+":Poller::wait"),("kernel wait",E+":Poller::wait"),("single waiter and retry loop",L+":Poller::wait")],
[S("interest set","what each source waits for","epoll instance / poll_fds")])

p("C02","Delivered events are truthful",
"Every event that wait delivers belongs to a source registered at that moment and carries, unchanged, the key given by the latest successful add or modify of that source, for any key other than usize::MAX. It claims readability, writability, interrupt, priority or error only if the source is really in that condition, and apart from hangups and errors only if the interest in force asked for it. One wait reports a source at most once, and no event the caller did not register for (such as an internal wake-up) is ever visible.",
["inputs","histories","schedules"],
"every history of registrations and peer activity, every key value, every order of deletion and insertion, every number of sources",
"tests check one source with small keys at a time; index bookkeeping after deletions, wide or shared keys and interest masks over mixed sources are not sampled",
[E,O,L],[("event decoding",E+":Events::iter"),("index bookkeeping on delete",O+":Poller::delete"),("hiding internal events",L+":Events::iter")])

p("C03","One-shot delivers once per arming",
"A source registered in one-shot (or edge-one-shot) mode is delivered at most once per add or modify, whatever made it ready, including hangup or error, and then stays silent in every later wait until modify re-arms it. A modify re-arms it completely: if the condition still holds, the next waits deliver it again, including when modify is called from another thread while a wait is in progress.",
["histories","schedules","configurations"],
"every history of deliveries, re-arms and peer activity incl. hangups, with one or many sources ready in the same wait and several threads re-arming",
"tests deliver one readable event on one source and check silence once; they never hang up a disarmed source, deliver several sources in one batch or re-arm concurrently",
[E,O],[("kernel one-shot flag",E+":epoll_flags"),("disarm after delivery",O+":Poller::wait"),("re-arm",L+":Poller::modify")],
[S("armed flag","whether the registration may still deliver","kernel / poll_fds entry")])

p("C04","Level mode reports while the condition lasts",
"A source registered in level-triggered mode is delivered again by every sufficiently large wait for as long as the condition its interest asks for holds, without any modify. It stops being delivered as soon as the condition is gone, the interest is dropped or changed to another mode by modify, or the source is deleted.",
["histories","inputs","configurations"],
"every history of partial reads/writes, mode changes and waits over any number of level, one-shot and edge sources in one poller",
"tests follow one source through one partial read; mixing level with one-shot sources, mode switches and many simultaneous sources is not tested",
[E,O],[("level mode flag",E+":epoll_flags"),("remove-on-delivery flag",O+":FdData.remove")])

p("C05","Edge modes report each new event once",
"Where edge mode is supported, a source in edge mode is delivered once after registration or modify if it is already ready and once more after each new arrival (arrivals between two waits may be merged), never again without a new arrival, and no arrival is missed; edge-one-shot additionally falls silent after one delivery until modify. A mode is accepted by add and modify exactly when supports_level / supports_edge says so (one-shot always); otherwise the call fails with an Unsupported error.",
["histories","inputs","configurations"],
"every history of arrivals, partial reads, modifies and waits, in every backend configuration",
"tests cover one source and two arrivals; merged arrivals, edges while disarmed, modifies between edges and the refusal of modes are barely touched",
[E,O],[("edge flags",E+":epoll_flags"),("mode refusal",O+":cvt_mode_as_remove"),("capability predicates",L+":Poller::supports_edge")])

p("C06","Registration follows its contract; failed calls change nothing",
"Adding a source that is registered fails with AlreadyExists; modifying or deleting one that is not fails with NotFound; a key of usize::MAX is refused with InvalidInput by add and modify in every mode; any other call on a pollable source in a supported mode succeeds. A successful call replaces key, interest and mode completely, and a call that returns an error leaves every registration exactly as it was: key, interest, mode, armed state and pending events.",
["histories","inputs","configurations"],
"every history of successful and failing add/modify/delete calls interleaved with waits, in all modes and backends",
"tests check one double insert; state after failing calls (wrong mode, reserved key, unknown source) and long add/modify/delete histories are never observed",
[E,O,L],[("reserved key check",L+":Poller::add_with_mode, modify_with_mode"),("registration table",O+":Poller::add/modify/delete"),("epoll_ctl",E+":Poller::add/modify/delete")],
observe=["return values of add/modify/delete","subsequent Poller::wait results"])

p("C07","Concurrent registration is atomic and never blocked by a waiter",
"add, modify and delete called from any number of threads behave as if executed one at a time in an order consistent with real time, also while another thread is blocked in wait. They return without waiting for that wait to end, however long its timeout, and a wait already in progress acts on the new registrations: a source added or re-armed while ready is delivered by that very wait. However many such calls run or have run, calls and waits keep completing.",
["schedules","histories"],
"all interleavings of several threads calling add/modify/delete on shared sources with one thread in wait, any number of calls",
"tests have one thread doing one operation after a 100 ms sleep",
[O,E],[("waiting operations counter, wake-up byte and condition variable",O+":modify_fds, Poller::wait"),("kernel-side interest list",E)],
[S("waiting_operations","operations wanting the table",O),S("operations_complete","condvar the waiter sleeps on",O)],
observe=["add/modify/delete call and return","Poller::wait"])

p("C08","A notification is never lost",
"After notify returns Ok, the wait in progress, or otherwise the next wait that does not yield to another waiter, returns promptly and without an error even with no timeout and no events. This holds for every interleaving of any number of notifying threads with waits that are starting, blocked, timing out, delivering events, interrupted by signals or racing with registration calls, and for any number of notifications sent before.",
["schedules","histories","configurations"],
"all interleavings of notifiers with every phase of wait and with add/modify/delete; arbitrarily long notification histories; all wake-up mechanisms (eventfd, pipe)",
"tests notify ten times sequentially and twice concurrently",
[L,E,O],[("notified flag",L+":Poller::notify, Poller::wait"),("eventfd/pipe notifier",E+":Notifier"),("notify flag and pipe",O+":Poller::notify, Poller::wait")],
[S("notified","a notification is pending",L),S("notified","same, inside the poll backend",O)],
observe=["Poller::notify return","Poller::wait return"])

p("C09","A notification wakes once and leaves no trace",
"All notifications sent before a wait starts are consumed together by that wait: it returns, later waits with nothing new block normally again, no notification is ever visible as an event, and no I/O event is lost, duplicated or delayed past the following waits because of one. notify itself always returns Ok without blocking, however many notifications are outstanding or have been sent before.",
["histories","schedules","inputs"],
"every number and timing of notifications relative to waits and I/O events, any capacity",
"tests check that ten sequential notifications give empty containers; residue, tens of thousands of notifications and mixtures with events are not covered",
[L,E,O],[("clearing and re-arming the notifier",E+":Poller::wait, Notifier::clear"),("popping notification bytes",O+":notify"),("coalescing",L+":Poller::notify")])

p("C10","A wait never times out early",
"With no events and no notifications, wait(Some(t)) does not return before t has elapsed, and wait(None) does not return at all, for every t from one nanosecond up to decades, whatever timeouts, events and notifications earlier waits had, and regardless of signals and of registration calls made by other threads meanwhile.",
["inputs","histories","schedules","configurations"],
"every duration and every sequence of earlier waits, with signals and concurrent registration calls, with and without timerfd",
"tests measure 100 us, 3.1 ms and 1 s on an otherwise idle fresh poller",
[L,E,O],[("deadline computation",L+":Poller::wait"),("timerfd programming and ms rounding",E+":Poller::wait"),("ms rounding and re-computation",O+":Poller::wait")],
[S("timer_fd","armed timeout",E)],observe=["monotonic clock around Poller::wait","virtual clock at the syscall boundary"])

p("C11","A wait ends when its timeout does, for every duration",
"wait(Some(t)) returns Ok once t has elapsed even if nothing ever becomes ready, overshooting by no more than the timer granularity (about one millisecond, well below that where the timer is precise), and wait(Some(0)) never blocks but still reports what is ready. Every Duration is accepted without panic or error, including sub-microsecond ones, hours, and Duration::MAX, which still can be ended by events and notifications.",
["inputs","histories","schedules","configurations"],
"every duration, every sequence of waits with different timeouts on the same poller, with signals and concurrent registration calls arriving during the wait",
"tests use four durations on idle pollers and never an extreme one",
[L,E,O],[("deadline overflow handling",L+":Poller::wait"),("timerfd or ms timeout",E+":Poller::wait"),("ms timeout clamp",O+":Poller::wait")],
observe=["virtual clock at the syscall boundary","blocked state of the waiting thread"])

p("C12","Signals are invisible to callers of wait",
"A signal handled while a thread is in wait neither makes wait return, fail or panic, nor shortens or extends its timeout, nor loses a pending notification, an armed registration or an event. However many signals arrive and whenever, the wait ends exactly when an uninterrupted one would, with the same events.",
["schedules","fault_sequences","histories"],
"every number and timing of interruptions in every phase of wait, combined with timeouts, notifications, registration calls and ready sources",
"one test sends one signal 100 ms into a 1 s wait and checks only that there are no events",
[L,E,O],[("retry on Interrupted with the original deadline",L+":Poller::wait")],observe=["Poller::wait","signal handler counters"])

p("C13","Only one thread waits; others return at once",
"At any moment at most one wait on a poller collects events: if a wait is in progress, any other wait returns Ok(0) immediately whatever its timeout and leaves its container as it was, without consuming or disturbing events, notifications or the timeout of the wait in progress. Once that wait has returned, in whichever way (events, timeout, notification, error), the next wait of any thread works normally.",
["schedules","histories"],
"all interleavings of several threads calling wait with different timeouts, with events and notifications arriving",
"no test calls wait from two threads",
[L],[("try_lock guard",L+":Poller::wait")],[S("lock","held by the waiting thread",L)])

p("C14","The returned count and the container agree",
"When wait returns Ok(n), n is the number of new events; a container that was cleared first then holds exactly those n, and len, iter and is_empty agree with n; events of an earlier wait are never counted as new. After an Ok(0) there is no event to see, clear empties the container, a container can be reused across waits and pollers, capacity is never below the one requested, and no wait leaves more events in the container than its reported capacity.",
["inputs","histories"],
"every capacity, number of ready sources, reuse pattern (cleared or not, same container in several pollers) and way for wait to return",
"tests look at one or zero events in fresh or cleared default-size containers",
[L,E,O],[("count computation",L+":Poller::wait"),("container",E+":Events, "+O+":Events")],observe=["Poller::wait return value","Events accessors"])

p("C15","Interrupt, priority and error information is right",
"An event's interrupt, priority and error indications are set exactly when the source had hung up, had urgent data the interest covers, or had an error; a failed connect is reported with is_err and is_connect_failed true and an established one with both false. Registering interest with_priority alone is enough to be woken by urgent data, in every mode and with any combination of readable and writable. An Event asks for exactly what its readable, writable, interrupt and priority state say, even if it is a delivered event modified and passed back, and clear_extra removes all extra information.",
["inputs","histories","configurations"],
"every combination of interest and extra flags, source kind and condition, including events obtained from wait and reused as interest",
"tests strip the extra information (with_no_extra) from every event they look at",
[L,E,O],[("EventExtra",E+":EventExtra, "+O+":EventExtra"),("interest flags",E+":Poller::add/modify, "+O+":poll_events")],observe=["Event accessors on delivered events"])

p("C16","Sources are left untouched",
"No operation of a poller reads from, writes to, closes, duplicates into other processes or changes the mode (blocking state, flags, options) of a registered source: all bytes sent by peers are still there for the application in order, and after delete or after the poller is dropped the source is usable and configured as before.",
["histories","inputs"],
"every history of poller operations over every kind of source, including failing operations and dropping a poller with registered sources",
"tests never compare source state before and after, and read at most a few bytes",
[E,O,L],[("operations only touch interest sets and the internal notifier",E+", "+O)],observe=["fcntl flags, queue contents and open state of sources"])

p("C17","Pollers do not leak or mix up descriptors",
"Creating, using and dropping any number of pollers, successfully or not, with or without sources still registered, leaves the process with exactly the descriptors it had before; dropping a poller closes only its own. Every descriptor a poller creates is close-on-exec, and using a poller for any length of time creates no further ones.",
["histories","fault_sequences","configurations"],
"every sequence of creation (failing at any step), use and drop of pollers, in every configuration of available kernel facilities",
"no test looks at descriptors",
[E,O],[("owned descriptors",E+":Poller::new, Drop; "+O+":Notify::new"),("CLOEXEC flags",E+":Notifier::new, "+O+":Notify::new")],observe=["/proc/self/fd before, during and after"])

p("C18","Pollers are independent of each other",
"Registrations, deliveries, modes, keys, timeouts, notifications and the waiting thread of one poller never affect another, even when they share sources: a source registered in several pollers is managed and delivered in each according to that poller's own registration. Waits on different pollers can block and return concurrently in different threads.",
["histories","schedules"],
"every history over several pollers sharing sources, in one or several threads",
"tests register one source in two pollers and look at one event each, sequentially",
[L,E,O],[("per-poller state",L+":Poller")])

p("C19","Missing kernel facilities do not change the contract",
"When the kernel refuses to provide an event descriptor, a timer descriptor or pipes created with flags, in any combination, creating a poller still succeeds by falling back, and the poller obeys the same contract: readiness, modes, notifications (also from several threads and in large numbers), timeouts never early and ending on time, close-on-exec descriptors, no leaks.",
["fault_sequences","configurations"],
"every combination of unavailable facilities (eventfd, timerfd, pipe2), followed by arbitrary histories",
"CI forces the pipe notifier at compile time; timerfd and pipe2 failures and the run-time fallback are never exercised",
[E,O],[("notifier fallback",E+":Notifier::new"),("optional timer and ms timeout",E+":Poller::new, Poller::wait"),("pipe fallback",O+":Notify::new")],observe=["system calls failed on purpose","Poller behaviour afterwards"])

p("C20","No data races, memory errors or panics",
"No use of the public API within its safety contract causes undefined behaviour: no data race, invalid or uninitialised memory access, leak of allocated memory or panic, from any number of threads sharing a poller, for any capacity, timeout, key, interest and mode.",
["schedules","inputs","histories"],
"all workloads of the other properties, run under sanitizers and an undefined-behaviour interpreter",
"tests run uninstrumented with almost no concurrency",
[E,O,L],[("unsafe blocks",E+":wait, TS_ZERO, add; "+O+":borrow_raw"),("atomics, mutex, condvar",L+", "+O)],observe=["ThreadSanitizer, AddressSanitizer, LeakSanitizer, Miri, panic hook"])

p("C21","Failures of the operating system are reported and survivable",
"If the operating system fails a call a poller depends on (creation, registration or waiting, other than an interruption by a signal), the operation returns that error instead of succeeding, panicking or hanging, delivers no events, and has no partial effect: a failed creation releases everything, a failed registration changes nothing. The poller stays usable: after failures stop, registrations, notifications (including one sent before or during a failed wait) and waits work as if the failed calls had not been made.",
["fault_sequences","histories"],
"every single and repeated failure of each system call at each position of a history",
"tests never make a system call fail",
[E,O,L],[("error propagation",E+", "+O),("notification flag on error paths",L+":Poller::wait")],observe=["return values under injected system-call failures","behaviour afterwards"])

p("C22","A poller's own descriptor can be polled",
"Where a poller exposes a descriptor, that descriptor is stable over the poller's life and becomes readable whenever a wait would return because of an armed ready source or an unconsumed notification, so it can be registered in another poller or event loop. It is not readable when nothing is registered as ready, nothing was notified and no timeout of an earlier wait is still running, in particular after a wait has consumed the notification or the one-shot events.",
["histories","configurations"],
"every history of registrations, notifications and waits, observed through the exported descriptor after each step, including nesting in another poller",
"no test uses the exported descriptor",
[L,E],[("AsRawFd/AsFd",L+":raw_fd_impl"),("notifier registered in the epoll set",E+":Poller::new, Poller::wait")],observe=["readiness of the exported descriptor"])

p("C23","Deregistration is final and leaves nothing behind",
"Once delete has returned, no wait started afterwards delivers the source under that registration, whether or not it was ready, armed, disarmed or being delivered concurrently, and other sources are unaffected. The source may then be added again, or closed and its descriptor number reused by a different source, and the new registration has none of the old key, interest, mode, armed state or pending events.",
["histories","schedules"],
"every history of add/delete/close/reuse with many sources in arbitrary order, including deletes concurrent with a wait",
"tests delete sources at the end and never reuse a descriptor or delete during a wait",
[O,E],[("swap-remove with index repair",O+":Poller::delete"),("EPOLL_CTL_DEL",E+":Poller::delete")],[S("fd_data / poll_fds","descriptor to slot mapping",O)])

p("C24","The same contract holds on the other Unix-like operating systems",
"On systems with kqueue, with event ports, or with poll or epoll and other notification facilities, a poller obeys the same contract as on Linux for registration, delivery, one-shot, level and edge modes as far as the system has them, notification, timeouts, single waiting, refused and failed calls, resources and concurrent use. Where a direction of a registration is a filter of its own, each is delivered and disarmed by itself; where a system lacks a mode, asking for it is refused without effect.",
["configurations","histories","schedules","crash_points"],
"every history, schedule and failing system call on every other supported Unix-like system",
"the code for other operating systems is not even compiled by the tests that can run here",
["src/kqueue.rs","src/port.rs",O,L],[("filters and the set of sources","src/kqueue.rs:Poller::add, modify, delete"),("EVFILT_USER or pipe notification","src/kqueue.rs:notify"),("associations","src/port.rs:Poller::modify, wait"),("pipe or eventfd notification",O+":notify")],
hook="a simulation of the facilities of those systems under the unchanged source")

p("C25","kqueue filters: timers, signals and processes are reported truly",
"A timer registered as a filter is never reported before its time has passed since it was added or last modified, a one-shot timer once and a periodic one no more often than its period allows; a signal only after it was sent since the last report; a process only after it has ended. Each is reported readable under its own key, also if numbers of timers, signals, processes and descriptors coincide, and not after a one-shot delivery or a delete until it is modified or added again. Adding twice is AlreadyExists, modifying or deleting what is not registered is NotFound, and a call that fails changes nothing.",
["histories","inputs","crash_points"],
"every history of filters, keys, intervals, signals and failing system calls",
"no test that can run here compiles this code",
["src/os/kqueue.rs","src/kqueue.rs"],[("PollerKqueueExt","src/os/kqueue.rs:add_filter, modify_filter, delete_filter"),("Filter","src/os/kqueue.rs:Timer, Signal, Process"),("source identities","src/kqueue.rs:SourceId")],
hook="a simulated kqueue")

p("C26","The same contract holds on Windows",
"With I/O completion ports a poller obeys the same contract for registration, one-shot delivery, notification, timeouts and single waiting as on Linux, and posted packets and waitable handles are delivered once each under their key.",
["configurations","histories"],
"every history on Windows",
"the Windows code is not compiled by the tests that can run here",
["src/iocp/mod.rs","src/iocp/afd.rs","src/iocp/port.rs"],[("completion ports and AFD","src/iocp/mod.rs, src/iocp/afd.rs")],
hook="a Windows kernel")
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"])
    n=x["statement"].count(". ")+1
    print(x["id"],n,x["title"])

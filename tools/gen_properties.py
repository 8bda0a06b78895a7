#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
L,E,O="src/lib.rs","src/epoll.rs","src/poll.rs"
WAIT="Poller::wait / Events::iter"

p("C01","Every reported event is genuine",
 "Every event a wait reports carries the key of a source that is registered with that poller under that key at that moment, with interest still enabled, and there is at most one event per registration per wait. The event's readable (writable) flag is set only if that direction was asked for and a read (write) on the source would not block, or the source is in a hang-up or error state. A source that was never added, was deleted, was given another key or interest, or is not ready is never reported by a wait that starts afterwards.",
 ["histories","inputs","configurations"],"all sequences of add/modify/delete/wait/notify and I/O over several sources, pollers, keys, modes and buffer sizes, on each Linux backend",
 "The tests use one or two sources in fixed order with key 0, 1 or an index; no test deletes or re-keys one source among several ready ones, or checks that nothing else is reported.",
 [L,E,O],[("interest to kernel mask",E+": epoll_flags/read_flags/write_flags"),("interest to poll mask",O+": poll_events/read_events"),("event decoding",E+": Events::iter; "+O+": Poller::wait"),("fd table",O+": Fds, FdData, delete's swap_remove")],
 [("fd_data","fd -> slot, key, oneshot flag",O+": Fds")],[WAIT])

p("C02","A ready source with enabled interest is reported",
 "If a source is ready in a direction its enabled interest asks for (hang-up and error states count as ready in both directions) when a wait starts, or becomes so while the wait is blocked, that wait returns at once instead of sitting out its timeout. It reports the source with that direction set, unless a notification ended the wait or the event buffer was too small; then a later wait does. No history of operations, on this source or on others, can make a registered ready source go unreported.",
 ["histories","schedules","configurations"],"all histories of registrations, I/O and waits, with readiness arriving before or during the wait, on each Linux backend",
 "Each test checks a handful of hand-picked readiness transitions of TCP sockets; hang-up, shutdown, full-buffer, listener, pipe and eventfd sources, mixed interests and long histories are not reached.",
 [L,E,O],[("arming",E+": add/modify; "+O+": add/modify"),("collection of revents",O+": Poller::wait"),("read/write condition masks",E+": read_flags/write_flags; "+O+": read_events/write_events")],
 [("poll_fds","array handed to poll(2)",O+": Fds")],[WAIT])

p("C03","Oneshot registrations deliver one event per arming",
 "A oneshot registration (the default mode) is reported at most once after each successful add or modify, and then stays silent, even while its condition (including hang-up or error) persists, until it is modified or deleted and re-added. Modifying it enables it again: if the condition still holds the next wait reports it again. This holds for each source independently and also when several threads register, modify and wait.",
 ["histories","schedules"],"all histories and interleavings of arming, delivery and I/O for sources in oneshot or edge-oneshot mode",
 "Tests check one source once, single-threaded, for plain readability; never hang-up states, writability, batches in which only some sources fire, or re-arming that races with delivery.",
 [L,E,O],[("EPOLLONESHOT",E+": epoll_flags"),("interest removed after delivery",O+": Poller::wait"),("default mode",L+": add/modify")],
 [("remove","slot is disarmed after delivery",O+": FdData")],[WAIT])

p("C04","Level mode repeats exactly while the condition holds",
 "A level-triggered registration is reported by every wait that starts while its condition holds, without any re-arming, and is not reported (hang-up and error states aside) by waits that start when the condition does not hold. Switching the registration to or from another mode takes effect from the next wait.",
 ["histories","configurations"],"all histories mixing level registrations with partial reads, refills, mode switches and other sources",
 "One test performs one partial and one full read on one TCP socket; writability, repeated delivery in batches, coexistence with oneshot sources and mode switches both ways are not covered.",
 [E,O],[("no ONESHOT flag",E+": epoll_flags"),("remove = false",O+": cvt_mode_as_remove, Poller::wait")],(),[WAIT])

p("C05","Edge modes report each new event once",
 "Where edge modes are supported, an edge-triggered registration reports readiness that is present when it is added or modified and each later new arrival of readiness, and is silent in waits with no new activity on the source even if data is left unread. An edge-oneshot registration additionally goes silent after one event until it is modified. Where they are not supported, add_with_mode and modify_with_mode fail with an Unsupported error.",
 ["histories","configurations"],"all histories of writes, partial reads, drains, modifies and waits on sources registered in edge or edge-oneshot mode",
 "Two tests run one fixed write/read script on a single TCP socket; writability edges, re-arming with data pending, batches, limited buffers and other file types are not reached.",
 [E,O],[("EPOLLET",E+": epoll_flags"),("unsupported modes",O+": cvt_mode_as_remove")],(),[WAIT,"Poller::supports_edge"])

p("C06","Modify replaces key, interest and mode completely",
 "After a successful modify, waits behave as if the source had just been added with the new key, interest and mode: the old key, old interest bits and old mode have no further effect, and nothing of the requested interest is ignored. Only the key, the two directions and the interrupt and priority requests of the passed interest value matter, even when that value was itself obtained from an earlier wait. Other sources are unaffected.",
 ["histories","inputs"],"all sequences of modifications over all keys, interest combinations and modes, with interest values built fresh or recycled from delivered events",
 "Tests modify only from none to readable or re-arm with the identical interest; they never shrink an interest, change a key, or pass a delivered event back as interest.",
 [L,E,O],[("EPOLL_CTL_MOD with full mask",E+": modify"),("slot rewrite",O+": modify"),("extra flags",L+": Event; "+E+"/"+O+": EventExtra")],(),[WAIT])

p("C07","Registration calls fail cleanly and without side effects",
 "Adding a registered source fails with AlreadyExists, modifying or deleting an unregistered one fails with NotFound, using the key usize::MAX fails with InvalidInput, and a mode the poller does not support (per supports_level / supports_edge) fails with Unsupported; every other valid call succeeds. A failed call changes nothing: the source's registration, and everybody else's, keeps behaving exactly as before.",
 ["histories","inputs","configurations"],"all sequences of valid and invalid registration calls in every registration state",
 "One test adds twice; failing modify, delete, mode and key errors and the state after a failure are not tested.",
 [L,E,O],[("reserved key check",L+": add_with_mode/modify_with_mode"),("kernel EEXIST/ENOENT",E),("table lookups",O+": add/modify/delete")],
 [("fd_data","who is registered",O)],["Poller::add_with_mode","Poller::modify_with_mode","Poller::delete",WAIT])

p("C08","Delete removes exactly one source, which can come back",
 "Deleting a source ends its events and leaves the key, interest, mode and pending readiness of every other source intact, whatever the order in which sources were added and deleted. A deleted source, or a new one that reuses its file descriptor number, can be added again and then behaves like a fresh registration with no trace of the old one.",
 ["histories"],"all orders of adding, deleting, re-adding and closing sources, including descriptor-number reuse",
 "many_connections deletes the source that just fired from a table of identical readable registrations; distinct interests or modes, re-adding and descriptor reuse are not tested.",
 [E,O],[("EPOLL_CTL_DEL",E+": delete"),("swap_remove with index fix-up",O+": delete")],
 [("poll_fds_index","slot of each fd",O+": FdData")],[WAIT])

p("C09","A notification is never lost",
 "After notify() is called, the wait in progress or, if there is none, the next wait returns without waiting for its timeout or for I/O, for every interleaving of notifying threads, waiting threads, registration calls and I/O. The notifying call itself does not fail and does not block. No sequence of earlier notifications, waits, interrupted waits or rejected concurrent waits can make a later notification ineffective.",
 ["schedules","histories"],"all interleavings of notify, wait, add/modify/delete and I/O by several threads, and all sequential histories",
 "The two notify tests run notify-then-wait and one unsynchronised two-thread race; windows of a few instructions between flag, pipe and syscall are practically never hit.",
 [L,E,O],[("notified flag compare-exchange / reset",L+": notify, wait"),("eventfd or pipe notifier, re-armed after each wait",E+": Notifier, wait"),("notified flag, pipe and condvar",O+": notify, wait, modify_fds")],
 [("notified","a notification is outstanding",L+": Poller; "+O+": Poller")],["Poller::notify",WAIT])

p("C10","Notifications are invisible and do not accumulate",
 "A notification never shows up as an event and never makes a pending I/O event disappear: I/O not reported by a notified wait is reported by a later one. Any number of notify() calls before a wait end just that one wait, and in every interleaving the number of waits that return early with no event is at most the number of notify() calls (plus calls turned away because another thread was waiting), so the poller does not spin.",
 ["histories","schedules"],"all numbers and placements of notify calls relative to waits, I/O, buffer sizes and threads",
 "Tests never notify twice before a wait, never combine notification with I/O, and never check that a later wait blocks again.",
 [L,E,O],[("filter on the reserved key",L+": Events::iter"),("notifier drained",E+": Notifier::clear"),("pipe drained",O+": pop_notification/pop_all_notifications")],(),[WAIT])

p("C11","A wait never returns empty before its timeout",
 "With no event to report, no notification and no other thread inside wait, a wait with a timeout does not return before that much time has passed on the monotonic clock, and a wait without timeout does not return. This holds for every duration from one nanosecond to about 24 days, for any preceding history of waits, and when the wait is delayed or interrupted part-way; registration calls by other threads do not end the wait either.",
 ["inputs","histories","fault_sequences","schedules"],"all timeouts, preceding histories, scheduling delays and interruptions",
 "Tests sample 100 us, 3.1 ms and 1 s on a fresh poller in real time; other magnitudes, left-over timers, the fallback without timerfd and interrupted waits are not covered.",
 [L,E,O],[("deadline recomputation",L+": wait"),("timerfd programming / ms rounding up",E+": wait"),("ms rounding up and deadline loop",O+": wait")],
 [("timer_fd","timer that ends the wait",E+": Poller")],["Poller::wait elapsed time"])

p("C12","A wait never outlasts its timeout",
 "A wait with a timeout returns once the timeout has elapsed (within the backend's documented-by-construction granularity of at most one millisecond), also when it was interrupted, delayed or disturbed by registration calls part-way, and a zero timeout never blocks. Every Duration value is accepted: none makes wait fail or panic, and one too large to represent as a deadline means waiting without limit.",
 ["inputs","histories","fault_sequences","schedules"],"all timeouts including zero and Duration::MAX, with preceding waits, interruptions, delays and concurrent registration calls",
 "Tests check the upper bound for two durations only, and never restart a wait part-way or use huge values.",
 [L,E,O],[("checked_add deadline",L+": wait"),("timeout_ms computation, timerfd disarm",E+": wait"),("deadline loop",O+": wait")],(),["Poller::wait elapsed time"])

p("C13","Signals do not disturb a wait",
 "A signal handler running during a wait never makes it fail or return early: the wait resumes, keeps its original deadline and still reports events and notifications that arrive later. Any number and timing of signals loses, duplicates or invents no event and no notification.",
 ["fault_sequences","histories","schedules"],"any number of interruptions at any moment of any wait, in all histories and interleavings",
 "One test sends one signal to one wait that has nothing to report and checks only that the result is empty.",
 [L],[("Interrupted retry loop with remaining time",L+": wait")],(),[WAIT])

p("C14","Registration calls take effect during a wait and never block",
 "add, modify and delete called from other threads while a thread is blocked in wait return promptly, without waiting for that wait to end, and succeed or fail as if it were not there. They take effect on the running wait: a ready source added or enabled is reported by it, and after a delete, or a modify to another key, has returned no wait started later reports the old registration. In any interleaving each arming of a source is reported consistently with some order of the calls.",
 ["schedules"],"all interleavings of registration calls, waits, notifications and I/O by several threads",
 "Two tests sleep 100 ms and then perform one add or modify from one thread; several concurrent modifiers, deletes, races with delivery and with notify are not explored.",
 [E,O],[("kernel-side registration",E+": add/modify/delete"),("waiting_operations hand-shake, pipe and condvar",O+": modify_fds, wait")],
 [("waiting_operations","calls asking wait for the table",O+": Poller")],["Poller::add/modify/delete",WAIT])

p("C15","Only one thread waits; others return at once",
 "While one thread is in wait on a poller, wait calls from other threads return immediately with zero new events, whatever their timeout. A call turned away like this consumes nothing: it does not take events or a notification from the waiting thread, leave the caller's buffer with foreign events, or affect later waits.",
 ["schedules"],"all interleavings of two or more waiting threads with notifications, I/O and registration calls",
 "No test calls wait from two threads.",
 [L],[("try_lock around the wait",L+": wait")],[("lock","held by the waiting thread",L+": Poller")],[WAIT])

p("C16","Small event buffers lose and starve nothing",
 "With any buffer capacity, even 1, a wait reports at most that capacity's worth of new events where capacity limits it, and every ready registration is reported within a number of consecutive waits proportional to the number of ready registrations divided by the capacity. Registrations that did not fit stay pending: a oneshot one is not disarmed and an edge is not forgotten. A notification or an elapsed timeout sharing the buffer does not displace events for good.",
 ["histories","inputs"],"all capacities and numbers of ready sources in all modes, with notifications and timeouts mixed in",
 "All tests use the default capacity of 1024 and at most one ready source at a time.",
 [L,E,O],[("EventVec capacity given to epoll_wait",E+": wait, Events"),("notifier and timer share the buffer",E+": wait"),("growing Vec",O+": wait")],(),[WAIT,"Events::with_capacity"])

p("C17","wait's result and the Events container agree",
 "The number wait returns equals the number of new events in the container; len, is_empty and iter always agree, and with a container cleared before the call the container holds exactly the new events. clear empties it and keeps it usable, an empty result leaves no stale events after a clear, and capacity reports at least the requested capacity. A container may be moved to another thread, reused, or shared among pollers without affecting what is reported.",
 ["histories","inputs"],"all histories of waits, clears and reuse of containers of any capacity with any number of pollers",
 "Tests check len for zero or one event and never reuse one container for several pollers or capacities.",
 [L,E,O],[("return value",L+": wait"),("Events wrapper",L+": Events; "+E+": Events; "+O+": Events")],(),["Events::len/iter/is_empty/capacity/clear","Poller::wait return value"])

p("C18","Keys and Event values survive unchanged",
 "Any key other than usize::MAX is reported exactly as registered. Event constructors set exactly what they say; set_interrupt, set_priority and their with_ forms change only their own bit, in both directions and any order; is_interrupt and is_priority read it back; clear_extra and with_no_extra reset all extra information without touching key, readable or writable, so that equality compares just those afterwards.",
 ["inputs"],"all keys and all sequences of Event constructors and setters, on fresh and on delivered events",
 "Tests use keys 0 to 100 and never call the setters.",
 [L,E,O],[("key in epoll data",E+": add/modify, Events::iter"),("EventExtra bit operations",E+", "+O+": EventExtra")],(),["Event accessors",WAIT])

p("C19","Extra event information tells the truth",
 "A reported event says is_interrupt exactly when the source is hung up, is_priority when urgent data is pending and was asked for (by a readable or a priority interest) and never otherwise, and is_err is Some(true) exactly when the source has an error condition. is_connect_failed is Some(true) for a refused connection and Some(false) for a source with neither hang-up nor error. Asking only for priority or interrupt events, without readable or writable, is enough to get them.",
 ["histories","inputs"],"all combinations of interest and of pending data, urgent data, hang-up, half-close and error on sockets, pipes and eventfds",
 "No test looks at the extra information at all.",
 [L,E,O],[("flag accessors",E+", "+O+": EventExtra"),("requested extra flags",E+": add/modify; "+O+": poll_events")],(),["Event::is_interrupt/is_priority/is_err/is_connect_failed"])

p("C20","Pollers are independent of each other and composable",
 "A source registered with several pollers has an independent registration in each: operations, deliveries and notifications on one poller change nothing about another's key, interest, mode, armed state or notification. Where a poller exposes a file descriptor, that descriptor is readable whenever the poller has something to report or a pending notification, so it can itself be registered with another poller.",
 ["histories","configurations"],"all histories over several pollers sharing sources, nested pollers, and drops of some of them",
 "The tests register one socket with two pollers in the same mode and perform the same fixed steps on both; nothing is nested, deleted from one only, or dropped.",
 [L,E,O],[("separate epoll instances / tables",E+", "+O),("AsFd/AsRawFd",L+": raw_fd_impl; "+E)],(),[WAIT,"Poller::as_fd"])

p("C21","Everything works without eventfd or timerfd",
 "When the system refuses eventfd, timerfd or pipe flags, a poller can still be created and all other guarantees hold unchanged: notifications wake waits and are not lost, timeouts are never early and at most about a millisecond late, events are reported correctly, and nothing is inherited across exec. The only permitted difference is timeout granularity.",
 ["configurations","fault_sequences","histories"],"all subsets of refused facilities, combined with all histories",
 "The test suite runs with eventfd compiled out but timerfd and pipe2 always present.",
 [E,O],[("pipe fallback of the notifier",E+": Notifier::new/notify/clear"),("millisecond timeouts without timerfd",E+": wait"),("pipe fallback",O+": notify::Notify::new")],
 [("timer_fd","None when timerfd is unavailable",E+": Poller")],["Poller::new",WAIT])

p("C22","No descriptor leaks, on success or failure",
 "Creating, using and dropping pollers leaves the process with exactly the descriptors it had before; registered sources stay open and unchanged. If creating a poller fails part-way for lack of any resource, the error is returned and nothing leaks. Every descriptor a poller owns is close-on-exec.",
 ["fault_sequences","histories"],"every point and combination of system-call failures during creation, and all histories of use before the drop",
 "No test fails a system call or counts descriptors.",
 [E,O],[("owned descriptors",E+": Poller::new, Drop, Notifier; "+O+": notify::Notify"),("CLOEXEC flags",E+"; "+O)],(),["/proc/self/fd","FD_CLOEXEC"])

p("C23","No amount of use without waiting blocks or fills anything",
 "notify, add, modify and delete can be called any number of times, with no wait in between and in any mixture, without ever blocking, failing or changing what the next wait does. Likewise any number of waits, rejected waits, notifications and pollers created and dropped accumulates no descriptors, stale wake-ups, queued bytes or memory.",
 ["histories"],"arbitrarily long histories without waits, in particular longer than any kernel buffer used for wake-ups",
 "The longest test history has 1000 timed waits; none repeats notify or registration calls enough to fill a pipe.",
 [L,E,O],[("one outstanding notification",L+": notify"),("byte taken back after each operation",O+": modify_fds"),("notifier drained each wait",E+": Notifier::clear")],(),["return of notify/add/modify/delete"])

p("C24","A failed wait consumes nothing",
 "If the system fails a wait (for instance for lack of memory), the error is returned to the caller and the poller stays usable: registrations, pending events, armed oneshots and a pending notification are all still there for the next wait, and other threads can wait and notify as before.",
 ["fault_sequences","histories","schedules"],"failures of the underlying blocking call at any wait of any history or interleaving",
 "No test makes a wait fail.",
 [L,E,O],[("error path of wait",L+": wait; "+E+": wait; "+O+": wait")],(),["Poller::wait"])

p("C25","IOCP: packets exactly once, waitables and sockets under the same contract",
 "On Windows, against a system that behaves as documented, every completion packet posted to a poller is reported exactly once per post, by some wait of that poller, with the event it was created with; packets may be posted again, to several pollers, and during a wait. Waitable handles follow the rules of sockets: only registered and enabled handles that have become signaled since are reported, under their current key, mode and directions; a signaled one is reported by a wait that starts or is blocked then; adding twice fails with AlreadyExists, modifying an unregistered one with NotFound, edge modes are refused without effect; once remove_waitable has returned or the poller is gone, the handle is not waited for any more, and one signal of an auto-reset object is reported once. Registration calls of other threads, on sockets and waitables, take effect on a wait that is beginning or blocked. What the system refuses to add is not registered, and what it refused once can be asked for again. Notifications, timeouts and waits that the system fails behave as elsewhere and lose nothing.",
 ["histories","schedules","fault_sequences"],"all histories of post, add/modify/remove of waitables and sockets, signals, notifications and waits, with calls of other threads before, during and across the beginning of a wait",
 "Windows-only tests post one packet and wait on one handle; they do not even build on this platform.",
 ["src/os/iocp.rs","src/iocp/mod.rs","src/iocp/afd.rs","src/iocp/port.rs"],[("completion port",  "src/iocp/port.rs"),("waitable registration and status","src/iocp/mod.rs: PacketInner::Waitable, WaitableStatus"),("queue of updates","src/iocp/mod.rs: update_packets/push_update"),("AFD poll","src/iocp/mod.rs: update_socket, feed_event; src/iocp/afd.rs")],
 [("sources, waitables","registered sockets and handles","src/iocp/mod.rs: Poller"),("packet status","idle, polling, posted, cancelled, user removed","src/iocp/mod.rs")],["PollerIocpExt",WAIT])

p("C26","kqueue and event-port backends honour the same contract",
 "On kqueue systems (BSDs, Apple) and event-port systems (illumos, Solaris), against a kernel that behaves as its manual says, histories of calls keep the contract: only registered, enabled and ready sources are reported, under their current key; every due source is reported by a wait that starts or becomes due while it is blocked, unless the buffer is full; oneshot, level and edge modes re-fire as documented; notifications end one wait, timeouts are neither early nor late, interruptions and failed waits lose nothing, and registration calls during a wait take effect on it. On kqueue, adding a registered source fails with AlreadyExists and modifying or deleting an unregistered one with NotFound, for sockets and for signal, process and timer filters alike; what the system refuses to add is not registered. Filters are reported as readable under the key they were registered with, timers not before their time. On event ports only oneshot mode exists, others fail with Unsupported and no effect.",
 ["histories","configurations","fault_sequences"],"all histories over sockets and signal, process and timer filters, with refused registrations, failed and interrupted waits",
 "Only a handful of fixed scripts, run by the project's CI on those systems and not here.",
 ["src/kqueue.rs","src/os/kqueue.rs","src/port.rs"],[("registered source set","src/kqueue.rs: add_source/has_source/remove_source"),("port association","src/port.rs: modify")],
 [("sources","registered ids","src/kqueue.rs")],["PollerKqueueExt"])
p("C27","The poll backend keeps the contract with the notifiers of other systems",
 "On the systems where the poll backend wakes a blocked wait in another way (ESP-IDF and Hermit: one event descriptor; PS Vita: a pipe whose data may arrive some time after the write; Haiku: a pipe made without flags), and through Hermit's own system-call layer, every history and interleaving of calls keeps the same guarantees as on other systems: no due event or notification is lost or invented, timeouts are neither early nor late, modes re-fire as documented, calls that add, modify or delete a source return promptly and take effect on a wait that is blocked meanwhile, no call blocks for ever or fails because another thread consumed a wake-up first, and nothing piles up however many calls are made.",
 ["histories","schedules","configurations"],"all histories and interleavings of calls, on each of these systems' variants",
 "The variants are compiled out on every system where the tests run.",
 ["src/poll.rs"],[("wake-up of modify_fds","src/poll.rs: modify_fds/pop_notification"),("event descriptor","src/poll.rs: notify::Notify (espidf, hermit)"),("system-call layer","src/poll.rs: syscall (hermit)")],
 [("notify","pending wake-ups","src/poll.rs")],["Poller::add","Poller::modify","Poller::delete","Poller::notify","Poller::wait"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P),"properties")

#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "model-based stateful property testing (proptest histories against a reference model on real descriptors, virtual time)"
CONC = "property-based concurrency testing (generated programs and preemption schedules on a deterministic scheduler, history oracle)"
ALG = "property-based testing of Event values against an algebraic model, keys round-tripped through a real poller"
SIM = "model-based stateful property testing of the other systems' backends, compiled for Linux over a simulated kernel (proptest histories, a reference model, bounded-exhaustive short histories)"
WIN = "model-based stateful property testing of the IOCP backend, compiled for Linux over simulated completion ports, AFD and registered waits (proptest histories, a reference model, bounded-exhaustive short histories)"
OTH = "the same on the poll backend compiled for Linux as for ESP-IDF, Hermit, PS Vita and Haiku, whose event descriptors and pipes are simulated"
FLT = "fault enumeration and generated fault injection on every system call of construction, registration and drop"
T = {
 "C01": [SEQ, CONC], "C02": [SEQ, CONC], "C03": [SEQ, CONC], "C04": [SEQ, CONC], "C05": [SEQ, CONC], "C06": [SEQ, CONC],
 "C07": [SEQ, CONC, FLT], "C08": [SEQ, CONC], "C09": [CONC, SEQ], "C10": [SEQ, CONC], "C11": [SEQ, CONC], "C12": [SEQ, CONC],
 "C13": [SEQ, CONC], "C14": [CONC, SEQ], "C15": [CONC, SEQ], "C16": [SEQ, CONC], "C17": [SEQ, CONC], "C18": [ALG, SEQ],
 "C19": [SEQ, CONC], "C20": [SEQ, CONC], "C21": [SEQ, CONC, FLT], "C22": [FLT, SEQ], "C23": [SEQ, CONC], "C24": [CONC, SEQ],
 "C25": [WIN], "C26": [SIM], "C27": [SEQ, CONC, OTH],
}
checks = []
for p, t in T.items():
    checks.append({
        "property": p,
        "quick_cmd": f"python3 run.py check {p} quick",
        "thorough_cmd": f"python3 run.py check {p} thorough",
        "technique": "; ".join(t),
        "level": "fault_enumeration" if p == "C22" else "exploration",
        "level_note": ("Generated-input search with an explicit oracle on src/kqueue.rs, src/os/kqueue.rs and src/port.rs, compiled here by exchanging the names of the target systems, over a simulated kqueue / event port on real sockets. Absence is not proved. Trusts that the simulation matches the manual pages; what real systems leave open is not judged." if p == "C26" else "Generated-input search with an explicit oracle on src/iocp/*.rs and src/os/iocp.rs, compiled here by naming Linux as Windows, over a simulated system (completion ports, AFD polls, event objects, registered waits). Absence is not proved. Trusts that the simulation matches Microsoft's documentation and, for AFD, what the code's comments and wepoll say of it." if p == "C25" else "Generated-input search with an explicit oracle on src/poll.rs compiled as for ESP-IDF, Hermit, PS Vita and Haiku by exchanging the names of the systems, with the descriptors behaving as those systems document (or the code's comments say). Absence is not proved. Trusts these stand-ins, the kernel's readiness, the simulated clock and blocking, and sequential consistency of the explored interleavings." if p == "C27" else "Generated-input search with an explicit oracle on the unmodified library, in three Linux configurations (epoll, epoll with the pipe notifier, poll); failures shrink to a replay file. Absence is not proved. Trusts the kernel's readiness, the simulated clock, timer descriptor and blocking, and sequential consistency of the explored interleavings."),
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3 run.py build",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: the library is observed through its API, libc symbol interposition and compiler-inserted coverage callbacks. Genuine defects found and repaired are in known-findings.txt.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

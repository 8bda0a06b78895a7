#!/usr/bin/env python3
"""Driver of the checks.

  run.py check ID quick|thorough   build, search, write evidence/ID.json; exit 0 / 1
  run.py replay FILE               re-run a saved case (exit 1 if it still violates)
  run.py build                     build everything
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import signal
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
KQSIM = os.path.join(HERE, "kqsim")
IOCPSIM = os.path.join(HERE, "iocpsim")
POLLVAR = os.path.join(HERE, "pollvar")
CONFIGS = ["epoll", "pipe", "poll"]
# The other systems' backends, on a simulated kernel.
SIMULATED = ["freebsd", "netbsd", "illumos"]
WINDOWS = ["windows"]
# The poll backend as compiled for systems on which it is notified in another way.
OTHERS = ["espidf", "hermit", "vita", "haiku"]
ABOUT = {
    "epoll": "epoll backend (eventfd, timerfd)",
    "pipe": "epoll backend with the pipe notifier (--cfg polling_test_epoll_pipe)",
    "poll": "poll() backend (--cfg polling_test_poll_backend)",
    "freebsd": "kqueue backend with EVFILT_USER, simulated kernel",
    "netbsd": "kqueue backend with the socket notifier, simulated kernel",
    "illumos": "event-port backend, simulated kernel",
    "windows": "IOCP backend, simulated system",
    "espidf": "poll() backend as for ESP-IDF (notified by an event descriptor that never blocks and is read as 0 when empty)",
    "hermit": "poll() backend as for Hermit (its own system-call layer, notified by an event descriptor)",
    "vita": "poll() backend as for the PS Vita (pipe whose data may arrive later)",
    "haiku": "poll() backend as for Haiku (pipe without flags)",
}
SHARDS = 8
QUICK = 5000          # generated cases per shard and configuration
THOROUGH = 60000
# Relative cost of a property's cases.
SCALE = {"C25": 20, "C26": 2, "C18": 1.3, "C23": 0.35, "C08": 0.8, "C16": 0.7, "C02": 0.8, "C22": 1.5}
FAULT = {"C22"}
# The parts of C27: the searches of the other properties.
PARTS = ["CONC", "TMPL", "CROWD", "REAL"] + [f"C{i:02}" for i in range(1, 25) if i != 18]


def parts(prop):
    """The searches that a check makes."""
    return PARTS if prop == "C27" else [prop]


def configs(prop):
    return {"C25": WINDOWS, "C26": SIMULATED, "C27": OTHERS}.get(prop, CONFIGS)


def home(c):
    return KQSIM if c in SIMULATED else IOCPSIM if c in WINDOWS else POLLVAR if c in OTHERS else HARNESS


def command(c):
    if c in SIMULATED:
        return [os.path.join(KQSIM, "target", "debug", "kqsim"), c]
    if c in WINDOWS:
        return [os.path.join(IOCPSIM, "target", "debug", "iocpsim"), c]
    return [os.path.join(home(c), f"target-{c}", "debug", "pollsim")]


def build(which=CONFIGS + SIMULATED + WINDOWS + OTHERS):
    for top in sorted({home(c) for c in which}):
        with open(os.path.join(top, ".build-lock"), "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            r = subprocess.run(["bash", os.path.join(top, "build.sh")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout)
            print("ERROR: the harness does not build against the current tree")
            sys.exit(3)


def save(prop, config, obj):
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    h = hashlib.sha1(json.dumps(obj.get("case"), sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(HERE, "replays", f"{prop}-{config}-{h}.json")
    obj = dict(obj, property=prop, config=config)
    with open(path, "w") as f:
        json.dump(obj, f, indent=1)
    return path


def report(prop, config, v):
    path = save(prop, config, v)
    print(f"configuration: {ABOUT[config]}")
    for line in v.get("log", [])[-60:]:
        print("   ", line)
    print("violated:", v["msg"])
    print(f"re-run with: python3 {os.path.join(HERE, 'run.py')} replay {path}")
    print(f"VIOLATION property={prop} replay={path}", flush=True)


class Jobs:
    """Worker processes; all are ended when one finds a violation."""

    def __init__(self):
        self.lock = threading.Lock()
        self.procs = set()
        self.stop = False

    def run(self, cmd, timeout):
        with self.lock:
            if self.stop:
                return None, ""
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            self.procs.add(p)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
            out += "\nERROR: time limit"
        with self.lock:
            self.procs.discard(p)
            stopped = self.stop
        return (None if stopped and p.returncode < 0 else p.returncode), out

    def end(self):
        with self.lock:
            self.stop = True
            for p in self.procs:
                p.kill()


def shard(jobs, prop, part, config, i, n, seed, cases, enum, tmp, limit):
    out = os.path.join(tmp, f"{config}-{part}-{i}.json")
    cur = os.path.join(tmp, f"{config}-{part}-{i}.cur")
    rc, txt = jobs.run(
        command(config) + ["run", "--prop", part, "--seed", str(seed), "--shard", str(i), "--shards", str(n),
         "--cases", str(cases), "--enum", str(enum), "--out", out, "--cur", cur], limit)
    if rc is None:
        return None
    if rc == 0:
        with open(out) as f:
            d = json.load(f)
        if d["violation"]:
            jobs.end()
        return d
    if rc < 0 and rc not in (-signal.SIGKILL, -signal.SIGTERM):
        # The process died: does the case it was in do that again?
        try:
            with open(cur) as f:
                case = json.loads(f.readline())
        except (OSError, ValueError):
            case = None
        if case:
            rep = os.path.join(tmp, f"{config}-{part}-{i}.crash")
            with open(rep, "w") as f:
                json.dump({"case": case}, f)
            r = subprocess.run(command(config) + ["replay", rep], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == rc:
                jobs.end()
                return {"violation": {"case": case, "tags": [prop], "log": txt.splitlines()[-20:],
                                      "msg": f"the process dies of signal {-rc} in this case"}, "crash": True}
    return {"error": f"{config} {part} shard {i}: exit {rc}: {txt[-1500:]}"}


def regressions(prop):
    """The replay tier: cases that once failed."""
    runs = []
    for f in sorted(glob.glob(os.path.join(HERE, "regress", "*.json"))):
        with open(f) as h:
            d = json.load(h)
        if prop in d["properties"]:
            runs += [(f, c, d) for c in configs(prop)]

    def one(x):
        f, c, d = x
        r = subprocess.run(command(c) + ["replay", f, prop], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        return r.returncode, r.stdout

    with cf.ThreadPoolExecutor(8) as ex:
        for (f, c, d), (rc, txt) in zip(runs, ex.map(one, runs)):
            if rc == 1 or (rc < 0 and rc != -signal.SIGKILL):
                lines = txt.splitlines()
                m = [line for line in lines if line.startswith("VIOLATES")]
                msg = m[0] if m else f"the process dies of signal {-rc}"
                return len(runs), (c, {"case": d["case"], "tags": [prop], "msg": msg, "log": lines})
            if rc != 0:
                print(txt[-1500:])
                print(f"ERROR: replaying {f} on {c}: exit {rc}")
                sys.exit(3)
    return len(runs), None


def known(prop):
    try:
        with open(os.path.join(HERE, "known-findings.txt")) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) (.*)", line)
                if m and m.group(1) == prop:
                    print(f"KNOWN-FINDING: property={prop} {m.group(2)}")
    except OSError:
        pass


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    build(configs(prop))
    tb = time.time() - t0
    known(prop)
    nreg, bad = regressions(prop)
    if bad:
        report(prop, bad[0], bad[1])
        evidence(prop, tier, seed, t0, {}, nreg, 1, tb)
        return 1
    shards = SHARDS if tier == "quick" else 8 * SHARDS
    cases = QUICK if tier == "quick" else THOROUGH / 8
    enum = 10000 if tier == "quick" else 10**9
    if prop == "C27":
        shards, cases, enum = (1, 700, 700) if tier == "quick" else (SHARDS, THOROUGH / 8, 20000)
    limit = 700 if tier == "quick" else 4 * 3600
    tmp = os.path.join(HERE, "replays", f".tmp-{prop}-{os.getpid()}")
    os.makedirs(tmp, exist_ok=True)
    jobs = Jobs()
    res = {c: [] for c in configs(prop)}
    errors, viol = [], None
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            todo = [(c, p, i) for i in range(shards) for c in configs(prop) for p in parts(prop)]
            todo.sort(key=lambda x: (x[2], x[1] != "C23"))
            fut = {ex.submit(shard, jobs, prop, p, c, i, shards, seed, int(cases * SCALE.get(p, 1)), enum, tmp, limit): c
                   for c, p, i in todo}
            for f in cf.as_completed(fut):
                d = f.result()
                if d is None:
                    continue
                if "error" in d:
                    errors.append(d["error"])
                elif d.get("violation") and (viol is None or len(json.dumps(d["violation"]["case"])) < len(json.dumps(viol[1]["case"]))):
                    viol = (fut[f], d["violation"])
                if "error" not in d and not d.get("crash"):
                    res[fut[f]].append(d)
    finally:
        for f in glob.glob(os.path.join(tmp, "*")):
            os.unlink(f)
        os.rmdir(tmp)
    evidence(prop, tier, seed, t0, res, nreg, 1 if viol else 0, tb)
    if viol:
        report(prop, viol[0], viol[1])
        return 1
    if errors:
        print("\n".join(errors[:3]))
        print("ERROR: the check could not be completed")
        return 2
    with open(os.path.join(HERE, "evidence", f"{prop}.json")) as f:
        c = json.load(f)["coverage"]
    print(f"{prop} {tier}: held on {c['evaluations']} cases ({c['distinct_nontrivial']} distinct non-trivial), {time.time() - t0:.0f} s")
    return 0


RULE = ("A case is a history of operations on up to three pollers and up to 24 real descriptors (engine 0, judged by a "
        "reference model), a set of concurrent programs with a preemption schedule and injected faults (engine 1, judged by "
        "rules over the history), a sequence of operations on Event values (engine 2), a construction with failing system "
        "calls (engine 3), a crowd of up to 1100 sources on one poller (engine 4, a set model) or a script for threads that "
        "really block in the kernel (engine 5, real time); generated by proptest from VERIF_SEED, plus the enumerated ones (preemptions of the template programs "
        "of this property and of all programs of few steps, all histories of few steps, the fault grid, runs of up to 65537 "
        "calls). A case counts as non-trivial if, when run, it showed all of "
        "one of: ")


SIMULATED_RULE = ("A case is a history of operations on two pollers, up to four real sockets, timers, signals and processes, some of "
                  "them while a wait is blocked, run on the kqueue and event-port backends compiled for this system over a simulated "
                  "kernel, and judged by a reference model; generated by proptest from VERIF_SEED, plus all histories of up to four steps "
                  "over a small alphabet. A case counts as non-trivial if, when run, it showed all of one of: ")
WINDOWS_RULE = ("A case is a history of operations on two pollers, four event objects, four sockets and completion packets, some of "
                "them from a second thread while a wait is blocked or overlapping its beginning, run on the IOCP backend compiled here "
                "over a simulated system, and judged by a reference model; generated by proptest from VERIF_SEED, plus all histories of "
                "up to four steps over a small alphabet. A case counts as non-trivial if, when run, it showed all of one of: ")


def evidence(prop, tier, seed, t0, res, nreg, nviol, tb):
    distinct, labels, others, samples, rules = set(), {}, {}, [], []
    ev = en = ena = points = switches = 0
    per = {}
    for c, ds in res.items():
        cov = set()
        for d in ds:
            ev += d["evaluations"]
            en += d["enumerated"]
            points += d["points"]
            switches += d["switches"]
            rules += [r for r in d["nontrivial"] if r not in rules]
            distinct |= {c + h for h in d["distinct"]}
            cov |= set(d["covered"])
            for k, v in d["labels"].items():
                labels[k] = labels.get(k, 0) + v
            for k, v in d["others"].items():
                others[k] = others.get(k, 0) + v
        if ds:
            ena += sum({d.get("prop"): d["enumerable"] for d in ds}.values())
            per[c] = {"evaluations": sum(d["evaluations"] for d in ds), "distinct_nontrivial": sum(len(d["distinct"]) for d in ds),
                      "library_blocks_reached": len(cov), "library_blocks": ds[0]["guards"]}
            s = [x for d in ds for x in d["samples"]]
            samples += [dict(x, config=c) for x in s[:2]]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    out = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "fault_enumeration" if prop in FAULT else "exploration",
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": len(distinct),
            "rule": {"C25": WINDOWS_RULE, "C26": SIMULATED_RULE}.get(prop, RULE) + "; ".join(rules) + ".",
            "samples": samples or ["none: the run ended before a sample was taken"],
            "enumerated_cases": en,
            "enumerable_cases": ena,
            "replayed_regressions": nreg,
            "scheduling_points": points,
            "thread_switches": switches,
            "per_configuration": per,
            "cases_showing": dict(sorted(labels.items())),
            "violations_of_other_properties_seen": others,
        },
        "assumptions": [
            "Linux as the host; src/kqueue.rs, src/os/kqueue.rs and src/port.rs compiled with the names of the target systems exchanged",
            "the simulated kernel behaves as kqueue(2) and port_create(3C) say; points on which systems differ are not judged (kqsim/README.md)",
            "time is virtual; calls from other threads happen while a wait is blocked, not at any instant",
        ] if prop == "C26" else [
            "Linux as the host; src/iocp/*.rs and src/os/iocp.rs compiled with Linux named as Windows and what std has there only replaced",
            "the simulated completion ports, AFD device and registered waits behave as documented; what is left open is not judged (iocpsim/README.md)",
            "time is virtual; calls from other threads run or are stopped at chosen points, not at any instant",
        ] if prop == "C25" else [
            "Linux, x86-64; src/poll.rs compiled with the names of the target systems exchanged, Hermit's system calls mapped to those of Linux",
            "an ESP-IDF event descriptor never blocks and is read as 0 when empty; a Hermit one blocks unless made otherwise; the first "
            "read after a write to a Vita pipe may find nothing (pollvar/README.md)",
            "time is virtual except in engine 5; one thread runs at a time except in engine 5 (sequentially consistent interleavings "
            "at basic-block granularity)",
        ] if prop == "C27" else [
            "Linux, x86-64; the epoll (eventfd/timerfd and pipe) and poll() backends, on the kernel of this sandbox",
            "time is virtual except in engine 5: the clock, timer descriptors and blocking calls are simulated on top of real readiness",
            "one thread runs at a time except in engine 5 (sequentially consistent interleavings at basic-block granularity)",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": nviol,
    }
    out["coverage"]["build_s"] = round(tb, 1)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(out, f, indent=1)


def replay(path):
    with open(path) as f:
        d = json.load(f)
    which = [d["config"]] if d.get("config") else {"kqsim": SIMULATED, "iocpsim": WINDOWS}.get(d["case"].get("engine"), CONFIGS)
    build(which)
    rc = 0
    for c in which:
        print("configuration:", ABOUT[c], flush=True)
        r = subprocess.run(command(c) + ["replay", path] + ([d["property"]] if "property" in d else []))
        rc = rc or r.returncode
    return 1 if rc else 0


if __name__ == "__main__":
    if sys.argv[1] == "check":
        sys.exit(check(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")))
    elif sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    elif sys.argv[1] == "build":
        build()

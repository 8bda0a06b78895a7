#!/usr/bin/env python3
"""Copies the library's sources from /repo with Linux named as one of the systems on which the poll backend is
notified in another way, so that the code for that system is what gets compiled. The copies keep the package's
name; the harness is built against each of them. Files are written only when they change."""
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
OSES = ["espidf", "hermit", "vita", "haiku"]
LIB = """[package]
name = "polling"
version = "3.7.4"
edition = "2021"
publish = false

[lib]
path = "src/lib.rs"
doctest = false

[dependencies]
cfg-if = "1"
tracing = {{ version = "0.1.37", default-features = false }}
{more}
[lints.rust]
unexpected_cfgs = {{ level = "allow", check-cfg = [] }}
"""
RUSTIX = """
[dependencies.rustix]
version = "0.38.31"
features = ["event", "fs", "pipe", "process", "std", "time"]
default-features = false
"""
HERMIT = """
[dependencies.hermit-abi]
package = "fake-hermit"
path = "../../fake-hermit"
"""


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


with open(os.path.join(HERE, "..", "harness", "Cargo.toml")) as h:
    harness = h.read()
assert harness.count('path = "/repo"') == 1

for o in OSES:
    top = os.path.join(HERE, "gen", o)
    put(os.path.join(top, "Cargo.toml"), LIB.format(more=HERMIT if o == "hermit" else RUSTIX))
    seen = set()
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if not f.endswith(".rs"):
                continue
            with open(os.path.join(d, f)) as h:
                t = h.read()
            t = re.sub(r'(target_os\s*=\s*)"linux"', r'\1"not-linux"', t)
            t = re.sub(r'(target_os\s*=\s*)"%s"' % o, r'\1"linux"', t)
            if o == "hermit":
                t = re.sub(r'(?<=[(,\s])unix(?=\s*[,)])', 'target_os = "not-unix"', t)
                t = re.sub(r'\bstd::os::hermit::io\b', 'std::os::fd', t)
            p = os.path.join(top, os.path.relpath(os.path.join(d, f), REPO))
            put(p, t)
            seen.add(p)
    for d, _, fs in os.walk(os.path.join(top, "src")):
        for f in fs:
            if os.path.join(d, f) not in seen:
                os.unlink(os.path.join(d, f))
    # The harness, on that copy.
    put(os.path.join(HERE, "gen", f"harness-{o}", "Cargo.toml"),
        harness.replace('path = "/repo"', f'path = "../{o}"')
        .replace("[workspace]", '[workspace]\n\n[[bin]]\nname = "pollsim"\npath = "../../../harness/src/main.rs"'))
    lock = os.path.join(HERE, "locks", f"{o}.lock")
    if os.path.exists(lock):
        with open(lock) as h:
            put(os.path.join(HERE, "gen", f"harness-{o}", "Cargo.lock"), h.read())
sys.exit(0)

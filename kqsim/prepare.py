#!/usr/bin/env python3
"""Copies the library's sources from /repo and names Linux as one of the other systems, so that the code
for that system is what gets compiled. Files are written only when they change."""
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
OSES = ["freebsd", "netbsd", "illumos"]
TOML = """[package]
name = "polling-{os}"
version = "0.0.0"
edition = "2021"
publish = false

[lib]
name = "polling_{os}"
doctest = false

[dependencies]
cfg-if = "1"
tracing = {{ version = "0.1.37", default-features = false }}
rustix = {{ package = "fake-rustix", path = "../../fake-rustix" }}
"""


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


for o in OSES:
    top = os.path.join(HERE, "gen", o)
    put(os.path.join(top, "Cargo.toml"), TOML.format(os=o))
    seen = set()
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if not f.endswith(".rs"):
                continue
            with open(os.path.join(d, f)) as h:
                t = h.read()
            t = re.sub(r'(target_os\s*=\s*)"linux"', r'\1"not-linux"', t)
            t = re.sub(r'(target_os\s*=\s*)"%s"' % o, r'\1"linux"', t)
            p = os.path.join(top, os.path.relpath(os.path.join(d, f), REPO))
            put(p, t)
            seen.add(p)
    for d, _, fs in os.walk(os.path.join(top, "src")):
        for f in fs:
            if os.path.join(d, f) not in seen:
                os.unlink(os.path.join(d, f))
sys.exit(0)

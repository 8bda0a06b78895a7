#!/usr/bin/env python3
"""Copies the library's sources from /repo with Linux named as Windows, so that the IOCP backend is what gets
compiled; what std has on Windows only comes from fake-windows. Files are written only when they change."""
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TOML = """[package]
name = "polling-windows"
version = "0.0.0"
edition = "2021"
publish = false

[lib]
name = "polling_windows"
doctest = false

[dependencies]
cfg-if = "1"
tracing = { version = "0.1.37", default-features = false }
pin-project-lite = "0.2.9"
windows-sys = { package = "fake-windows", path = "../../fake-windows" }
concurrent-queue = { package = "fake-queue", path = "../../fake-queue" }

[lints.rust]
unexpected_cfgs = { level = "allow", check-cfg = [] }
"""


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


top = os.path.join(HERE, "gen", "windows")
put(os.path.join(top, "Cargo.toml"), TOML)
seen = set()
for d, _, fs in os.walk(os.path.join(REPO, "src")):
    for f in fs:
        if not f.endswith(".rs"):
            continue
        with open(os.path.join(d, f)) as h:
            t = h.read()
        t = re.sub(r'(target_os\s*=\s*)"linux"', r'\1"not-linux"', t)
        t = re.sub(r'(target_os\s*=\s*)"windows"', r'\1"linux"', t)
        # The bare names of the families, as conditions.
        t = re.sub(r'(?<=[(,\s])unix(?=\s*[,)])', 'target_os = "not-unix"', t)
        t = re.sub(r'(?<=[(,\s])windows(?=\s*[,)])', 'target_os = "linux"', t)
        t = re.sub(r'\bstd::os::windows\b', 'windows_sys::os', t)
        t = re.sub(r'\b((std::)?io::)?Error::last_os_error\b', 'windows_sys::os::last_os_error', t)
        p = os.path.join(top, os.path.relpath(os.path.join(d, f), REPO))
        put(p, t)
        seen.add(p)
for d, _, fs in os.walk(os.path.join(top, "src")):
    for f in fs:
        if os.path.join(d, f) not in seen:
            os.unlink(os.path.join(d, f))
sys.exit(0)

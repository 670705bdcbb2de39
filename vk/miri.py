"""Running monitors under Miri and under AddressSanitizer."""
import os
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

from . import build as B
from . import core
from . import run as R
from . import spec as S

FLAGS = "-Zmiri-disable-isolation"
MAIN = "#![allow(warnings)]\n#[global_allocator]\nstatic A: rt::Meter = rt::Meter;\n"


def workspace(name, variant, progs, shards):
    """Programs in a few crates; returns the workspace and the programs of each crate."""
    ws = B.Workspace(name, variant)
    out = {}
    for i in range(min(shards, len(progs))):
        mine = progs[i::shards]
        fs = {"src/%s.rs" % p.name: S.Render(p).source() for p in mine}
        fs["src/main.rs"] = MAIN + "".join("mod %s;\n" % p.name for p in mine) + "fn main() { rt::main_loop(&[%s]) }\n" % ", ".join(
            '("%s", %s::run as rt::Runner)' % (p.name, p.name) for p in mine)
        ws.add("g%d" % i, fs)
        out["g%d" % i] = [p.name for p in mine]
    ws.finish()
    return ws, out


def miri_cmd(ws, member, variant, args=(), flags="", target=None):
    e = {"CARGO_TARGET_DIR": B.target_dir("miri-" + variant), "MIRIFLAGS": FLAGS + " " + flags, "RUSTFLAGS": "-Awarnings"}
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--manifest-path", os.path.join(ws.dir, member, "Cargo.toml")]
    cmd += (["--target", target] if target else []) + ["--"]
    return cmd + [str(a) for a in args], e


def warm(ws, member, variant, target=None):
    """Builds the library once, so that runs started together do not wait for it."""
    cmd, e = miri_cmd(ws, member, variant, ["template", "0"], target=target)
    return subprocess.run(cmd, env=B.env(e), cwd=ws.dir, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)


def ub(text):
    """The report of Miri in a process's output, if there is one."""
    for mark in ("Undefined Behavior", "memory leaked", "error: unsupported operation", "error: abnormal termination", "data race",
                 "ERROR: AddressSanitizer", "ERROR: LeakSanitizer", "the evaluated program"):
        i = text.find(mark)
        if i >= 0:
            return text[max(0, i - 100):i + 1500]
    return None


ASAN = {"RUSTFLAGS": "-Zsanitizer=address -Cunsafe-allow-abi-mismatch=sanitizer"}
TARGET = "x86_64-unknown-linux-gnu"


def asan_build(ws, variant):
    return ws.build(extra=["--target", TARGET], toolchain="nightly", flags="-Zsanitizer=address", tdir="asan-" + variant)

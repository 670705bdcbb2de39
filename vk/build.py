"""Builds the monitors against /repo's working tree."""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
HARNESS = os.path.join(VERIF, "harness")


class BuildError(Exception):
    """The library, or the harness itself, does not build: no verdict."""


def env(extra=None):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUST_BACKTRACE", "DEBUG_TEMPLATE", "RUSTC_WRAPPER"):
            e.pop(k)
    e["RUST_BACKTRACE"] = "0"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(extra or {})
    return e


def repo_hash():
    h = hashlib.sha256()
    for top in ("binread/src", "binread_derive/src", "binread/Cargo.toml", "binread_derive/Cargo.toml"):
        p = os.path.join(REPO, top)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()[:16]


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def target_dir(variant):
    """One target directory per variant; binread is rebuilt whenever the content
    of its sources changes, whatever the file times say."""
    t = os.path.join(BUILD, "target-" + variant)
    os.makedirs(t, exist_ok=True)
    stamp = os.path.join(t, "repo.hash")
    h = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != h:
        if old is not None:
            # drop what was built from other sources, keep the dependencies
            for root, dirs, files in os.walk(t):
                for n in list(dirs) + files:
                    b = n[3:] if n.startswith("lib") else n
                    if b.startswith(("binread-", "binread_derive-", "rt-", "g0-", "g1-", "g2-", "g3-", "g4-", "g5-", "probe", "special")):
                        p = os.path.join(root, n)
                        if os.path.isdir(p):
                            shutil.rmtree(p, ignore_errors=True)
                            dirs.remove(n) if n in dirs else None
                        else:
                            os.unlink(p)
        with open(stamp, "w") as f:
            f.write(h)
    return t


FEATURES = {
    "std": ("std", []),
    "nostd": ("nostd", []),
    "cg": ("cg", ["cg"]),
    "nostd-cg": ("nostd-cg", ["cg"]),
    "dbg": ("dbg", ["dbg"]),
    "all": ("all", ["dbg", "cg"]),
}


def crate_toml(name, variant, deps="", bins="", edition="2021"):
    feats = list(FEATURES[variant][1])
    if not variant.startswith("nostd"):
        feats.append("std")
    bfeats = [{"cg": "const_generics", "dbg": "debug_template"}.get(f, f) for f in feats]
    return """[package]
name = "%s"
version = "0.1.0"
edition = "%s"

[dependencies]
rt = { path = "%s/rt", default-features = false, features = %s }
binread = { path = "%s/binread", default-features = false, features = %s }
%s
%s""" % (name, edition, HARNESS, json.dumps(feats), REPO, json.dumps(bfeats), deps, bins)


def cargo(args, cwd, extra_env=None, timeout=840, toolchain=None):
    cmd = ["cargo"] + (["+" + toolchain] if toolchain else []) + args
    return subprocess.run(cmd, cwd=cwd, env=env(extra_env), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          timeout=timeout, text=True, errors="replace")


def diagnostics(out):
    """Cargo's JSON messages."""
    for line in out.splitlines():
        if line.startswith("{"):
            try:
                yield json.loads(line)
            except ValueError:
                pass


class Workspace:
    """A scratch workspace with a few crates of generated programs."""

    def __init__(self, name, variant="std"):
        self.name, self.variant = name, variant
        self.dir = os.path.join(BUILD, "ws", name + "-" + variant)
        self.members = {}
        if os.path.isdir(self.dir):
            shutil.rmtree(self.dir)
        os.makedirs(self.dir)

    def add(self, member, files, toml_deps="", bins="", edition="2021"):
        self.members[member] = list(files)
        d = os.path.join(self.dir, member)
        write_if_changed(os.path.join(d, "Cargo.toml"), crate_toml(member, self.variant, toml_deps, bins, edition))
        for f, text in files.items():
            write_if_changed(os.path.join(d, f), text)

    def finish(self):
        write_if_changed(os.path.join(self.dir, "Cargo.toml"), """[workspace]
members = %s
resolver = "2"

[profile.dev]
debug = 0
incremental = false
opt-level = %d
[profile.dev.package."*"]
debug = 0
""" % (json.dumps(sorted(self.members)), 0))
        shutil.copy(os.path.join(HARNESS, "Cargo.lock.base"), os.path.join(self.dir, "Cargo.lock"))

    def build(self, command="build", extra=(), toolchain=None, flags=None, target=None, tdir=None, timeout=840):
        """Returns ({member: [diagnostic]}, {bin: path})."""
        t = target_dir(tdir or self.variant)
        e = {"CARGO_TARGET_DIR": t}
        if flags:
            e["RUSTFLAGS"] = flags
        r = cargo([command, "--offline", "--workspace", "--keep-going", "--message-format=json", "-q"] + list(extra),
                  self.dir, e, timeout, toolchain)
        errors, bins, other = {}, {}, []
        for m in diagnostics(r.stdout):
            if m.get("reason") == "compiler-artifact" and m.get("executable"):
                bins[m["target"]["name"]] = m["executable"]
            if m.get("reason") == "compiler-message" and m["message"]["level"].startswith("error"):
                pkg = m["target"]["name"]
                if pkg in self.members:
                    errors.setdefault(pkg, []).append(m["message"])
                else:
                    other.append(m["message"].get("rendered", ""))
        if other or (r.returncode and not errors):
            raise BuildError("the library or the harness does not build:\n" + "\n".join(other)[:3000] + r.stderr[-3000:])
        return errors, bins

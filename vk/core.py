"""Programs in, verdicts out."""
import json
import os
import random
import re
import sys
import time
from collections import Counter

from . import build as B
from . import gen as G
from . import model as M
from . import run as R
from . import spec as S


def seed():
    return int(os.environ.get("VERIF_SEED", "1") or 1)


def tier():
    return os.environ.get("VERIF_TIER", "quick")


_ws = re.compile(r'"((?:[0-9a-f]{2})*)"')


def norm(text):
    """Messages made from source text are compared without white space."""
    def f(m):
        s = bytes.fromhex(m.group(1)).decode("utf-8", "replace")
        if "rt" in s and "::" in s:
            s = "".join(s.split())
        return '"%s"' % s.encode().hex()
    return _ws.sub(f, text)


def match_display(pattern, text):
    return re.fullmatch(".*".join(re.escape(x) for x in pattern.split("\0")), text, re.S) is not None


def compare(c, o, x, check):
    """None, or what differs between an observation and what was expected.

    check: the parts which are compared: value, error, pos, events, display, foot
    """
    if o.crash:
        return "executor died: " + o.crash
    if o.kind == "P":
        return "panicked: " + o.text
    if x.ok is not None:
        if o.kind != "K":
            return "expected Ok(%s), observed %s" % (x.ok[:300], o.brief())
        if o.text != x.ok:
            return "expected value %s, observed %s" % (x.ok[:300], o.text[:300])
        if "pos" in check and o.pos != x.pos:
            return "expected final position %d, observed %d" % (x.pos, o.pos)
        if "foot" in check:
            bad = beyond(o.req, x.req)
            if bad:
                return "asked for bytes %s outside of what the value occupies" % (bad,)
    else:
        want = norm(x.err.dump())
        if o.kind != "E":
            return "expected error %s, observed %s" % (want[:300], o.brief())
        if "error" in check and norm(o.text) != want:
            return "expected error %s, observed %s" % (want[:300], norm(o.text)[:300])
        if "display" in check:
            disp, dbg = (o.display.replace("\\n", "\n").replace("\\\\", "\\").split("|", 1) + [""])[:2] if o.display.count("|") == 1 else (None, None)
            if disp is not None:
                for t in (disp, dbg):
                    if not match_display(x.err.display(), t):
                        return "error text %r does not have the form %r" % (t[:200], x.err.display()[:200])
        if "rewind" in check and x.rewinds and o.pos != x.pos:
            return "expected the reader back at %d after the error, observed %d" % (x.pos, o.pos)
    if "events" in check:
        if [e for e in o.events if e[0] < S.ONCE] != x.events:
            return "expected callbacks %s, observed %s" % (x.events[:30], o.events[:30])
        once = sorted(e for e in o.events if e[0] >= S.ONCE)
        if x.once is not None and once != x.once:
            return "expected the expressions of directives evaluated as %s, observed %s" % (x.once[:30], once[:30])
    return None


def beyond(got, allowed):
    allowed = sorted(allowed)
    merged = []
    for a, b in allowed:
        if merged and a <= merged[-1][1]:
            merged[-1][1] = max(merged[-1][1], b)
        else:
            merged.append([a, b])
    for a, b in got:
        if not any(x <= a and b <= y for x, y in merged):
            return (a, b)
    return None


def known_findings(prop):
    """The findings which are recorded for a property: `known: property=<id> <what>`."""
    out = []
    try:
        for l in open(os.path.join(B.VERIF, "known_findings.txt")):
            m = re.match(r"known: property=(\w+) (.*)", l)
            if m and m.group(1) == prop:
                out.append(m.group(2).strip())
    except OSError:
        pass
    return out


class Verdict:
    def __init__(self, prop, level="exploration"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.violations = []
        self.known = []
        self.cov = {}
        self.assumptions = []
        self.inconclusive = None

    def violation(self, what, replay):
        self.violations.append((what, replay))

    def finish(self):
        d = os.path.join(B.VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        ev = {"property": self.prop, "tier": tier() if tier() in ("quick", "thorough") else "quick", "seed": seed(), "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if self.violations:
            rd = os.path.join(B.BUILD, "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%d.txt" % (self.prop, seed()))
            with open(path, "w") as f:
                for what, replay in self.violations[:20]:
                    f.write("## %s\n%s\n\n" % (what, replay))
            for what, _ in self.violations[:5]:
                print("  " + what[:600].replace("\n", " "))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        if self.inconclusive:
            print("INCONCLUSIVE property=%s %s" % (self.prop, self.inconclusive))
            return 3
        c = self.cov
        print("OK property=%s %s evaluations, %s distinct non-trivial, %.1f s" % (
            self.prop, c.get("evaluations", "?"), c.get("distinct_nontrivial", "?"), time.time() - self.t0))
        return 0


def programs(rng, profile, n, prefix="t", accept=None):
    out = []
    tries = 0
    while len(out) < n and tries < n * 30:
        tries += 1
        g = G.Gen(random.Random(rng.randrange(1 << 60)), profile, "%s%d" % (prefix, len(out)))
        p = g.program()
        if accept and not accept(p):
            continue
        out.append(p)
    return out


def build_programs(name, progs, variant="std", shards=6, render=None, main=None, opt=None, **kw):
    """Compile programs; returns ({program name: executable}, {program name: compile error})."""
    ws = B.Workspace(name, variant)
    shards = min(shards, len(progs)) or 1
    files = {}
    for i, p in enumerate(progs):
        sh = i % shards
        fs = files.setdefault(sh, {})
        src = render(p) if render else S.Render(p).source()
        fs["src/%s.rs" % p.name] = src
    gone = {}
    where = {}
    for attempt in range(4):
        for sh, fs in files.items():
            mods = sorted(f[4:-3] for f in fs)
            m = "#![allow(warnings)]\n#[global_allocator]\nstatic A: rt::Meter = rt::Meter;\n"
            m += "".join("mod %s;\n" % x for x in mods)
            m += "fn main() { rt::main_loop(&[%s]) }\n" % ", ".join('("%s", %s::run as rt::Runner)' % (x, x) for x in mods)
            ws.add("g%d" % sh, dict(fs, **{"src/main.rs": m}))
        ws.finish()
        errors, bins = ws.build(**kw)
        if not errors:
            break
        found = False
        for pkg, ms in errors.items():
            sh = int(pkg[1:])
            for m in ms:
                for sp in all_spans(m):
                    mod = os.path.basename(sp)[:-3]
                    k = "src/%s.rs" % mod
                    if k in files[sh]:
                        del files[sh][k]
                        gone[mod] = m.get("rendered", m.get("message", ""))
                        found = True
                        break
        for sh in list(files):
            if not files[sh]:
                del files[sh]
        if not found:
            raise B.BuildError("errors outside of the generated programs:\n" + "\n".join(
                m.get("rendered", "") for ms in errors.values() for m in ms)[:3000])
        # rebuild the workspace without the failing programs
        import shutil
        shutil.rmtree(ws.dir)
        ws = B.Workspace(name, variant)
    exe = {}
    for sh, fs in files.items():
        for f in fs:
            exe[f[4:-3]] = bins["g%d" % sh]
    return exe, gone


def all_spans(m):
    out = []

    def walk(s):
        out.append(s["file_name"])
        e = s.get("expansion")
        if e:
            walk(e["span"])
    for s in sorted(m.get("spans", []), key=lambda s: not s.get("is_primary")):
        walk(s)
    for c in m.get("children", []):
        out += all_spans(c)
    return out


def execute(exe, cases, **kw):
    """Run all cases, in one process per executable, at the same time."""
    from concurrent.futures import ThreadPoolExecutor
    by = {}
    for i, c in enumerate(cases):
        if c["prog"] in exe:
            by.setdefault(exe[c["prog"]], []).append(i)
    res = [None] * len(cases)

    def one(path):
        idx = by[path]
        return idx, R.Exec(path, **kw).run([cases[i] for i in idx])
    with ThreadPoolExecutor(8) as ex:
        for idx, obs in ex.map(one, list(by)):
            for i, o in zip(idx, obs):
                res[i] = o
    return res


def replay_text(prog, c, what, render=None):
    return "case: %s\nexpected: %s\n\nprogram:\n%s" % (
        R.case_line(0, c), (c["expect"].ok or c["expect"].err.dump())[:2000] if "expect" in c else "",
        (render(prog) if render else S.Render(prog).source()) if prog else "")

"""Runs cases in an executor process and returns the observations."""
import os
import resource
import select
import signal
import subprocess
import time

from .build import env

KINDS = ["Other", "PermissionDenied", "TimedOut", "BrokenPipe", "InvalidData", "ConnectionReset", "WouldBlock", "NotFound", "Interrupted", "UnexpectedEof", "InvalidInput"]


def case_line(cid, c):
    out = ["%d" % cid, "p=%s" % c["prog"], "e=%d" % c["endian"], "b=%d" % c["base"], "s=%d" % c["start"],
           "d=%s" % (c["data"].hex() or "-")]
    for k, s in (("offset", "o"), ("count", "c"), ("mode", "m"), ("extra", "x"), ("short", "sh"), ("intr", "in"),
                 ("fault_addr", "fa"), ("fault_op", "fo"), ("fault_once", "f1"), ("fault_kind", "fk"), ("limit", "l")):
        v = c.get(k)
        if v is not None:
            out.append("%s=%d" % (s, v))
    return " ".join(out)


class Obs:
    """ok / err / panic / crash / hang / alloc"""

    def __init__(self, fields=None, crash=None):
        self.crash = crash
        self.kind = self.text = None
        self.events, self.req = [], []
        if fields:
            self.kind, self.text = fields[0], fields[1]
            if self.kind == "?":
                self.crash = "no such program"
                return
            self.pos = int(fields[2])
            self.events = [tuple(int(x) for x in e.split("=")) for e in fields[3].split()]
            n = [int(x) for x in fields[4].split()]
            self.ops, self.reads, self.seeks, self.max_req, self.faulted, self.peak = n
            self.req = [tuple(int(y) for y in x.split("-")) for x in fields[5].split()]
            self.display = fields[6] if len(fields) > 6 else ""
            self.extra = fields[7] if len(fields) > 7 else ""
            self.template = fields[8] if len(fields) > 8 else ""

    def brief(self):
        if self.crash:
            return "crash: " + self.crash
        return "%s %s pos=%d" % ({"K": "Ok", "E": "Err", "P": "panic"}[self.kind], self.text[:400], self.pos)


class Exec:
    CPU = 30

    def __init__(self, path, args=(), extra_env=None, cpu=None, wall=600):
        self.path, self.args, self.env, self.wall = path, list(args), env(extra_env), wall
        self.cpu = cpu or self.CPU

    def limits(self):
        resource.setrlimit(resource.RLIMIT_CPU, (self.cpu, self.cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    def run(self, cases, cwd="/"):
        """cases: list of dicts. Returns a list of Obs in order."""
        res = [None] * len(cases)
        todo = list(range(len(cases)))
        crashes = 0
        while todo:
            p = subprocess.Popen([self.path] + self.args if isinstance(self.path, str) else self.path + self.args,
                                 stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                 env=self.env, preexec_fn=self.limits, cwd=cwd)
            text = "".join(case_line(i, cases[i]) + "\n" for i in todo).encode()
            try:
                out, err = p.communicate(text, timeout=self.wall)
                timed_out = False
            except subprocess.TimeoutExpired:
                p.kill()
                out, err = p.communicate()
                timed_out = True
            last = None
            for line in out.decode("utf-8", "replace").split("\n"):
                if line.startswith("@"):
                    last = int(line[1:])
                elif line:
                    f = line.split("\t")
                    if f[0].isdigit() and len(f) >= 3:
                        i = int(f[0])
                        res[i] = Obs(f[1:])
                        if last == i:
                            last = None
            if p.returncode == 0 and not timed_out:
                for i in todo:
                    if res[i] is None:
                        res[i] = Obs(crash="no observation")
                break
            if last is None:
                # died before or after all cases
                left = [i for i in todo if res[i] is None]
                if not left:
                    break
                last = left[0]
            why = "exit %s" % p.returncode
            if timed_out:
                why = "wall-clock limit"
            elif p.returncode == 77:
                why = "allocation of more than 1 GiB"
            elif p.returncode == -signal.SIGXCPU or p.returncode == -signal.SIGKILL:
                why = "CPU limit of %d s" % self.cpu
            elif p.returncode and p.returncode < 0:
                why = "signal %d" % -p.returncode
            res[last] = Obs(crash=why + " " + err.decode("utf-8", "replace")[-1500:])
            crashes += 1
            todo = [i for i in todo if res[i] is None]
            if crashes > 6:
                for i in todo:
                    res[i] = Obs(crash="skipped after repeated crashes")
                break
        return res

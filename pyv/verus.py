"""Runs Verus and maps its messages back to obligations."""
import json
import os
import re
import signal
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERUS = os.environ.get("PYV_VERUS", "verus")


class Result:
    def __init__(self):
        self.failed = {}        # obligation id -> message
        self.hints = []         # failed hint texts
        self.undecided = set()  # obligation ids / path indices where the solver gave up
        self.probes = set()     # probes that failed (as they should)
        self.compile_error = None
        self.verified = 0
        self.errors = 0
        self.time = 0.0
        self.smt_ms = 0
        self.output = ""


ERR = re.compile(r"^(error|warning|note)(\[\w+\])?: (.*)$")
LOC = re.compile(r"^\s*--> ([^:]+):(\d+):(\d+)")


def parse(out, path):
    """Yields (level, message, [lines in the file])."""
    cur = None
    for line in out.splitlines():
        m = ERR.match(line)
        if m:
            if cur:
                yield cur
            cur = (m.group(1), (m.group(2) or "") + m.group(3), [])
            continue
        m = LOC.match(line)
        if m and cur is not None:
            if os.path.abspath(m.group(1)) == path or os.path.basename(m.group(1)) == os.path.basename(path):
                cur[2].append(int(m.group(2)))
            continue
        m = re.match(r"^(\d+)\s+\|", line)
        if m and cur is not None:
            cur[2].append(int(m.group(1)))
    if cur:
        yield cur


def run_file(path, args, timeout):
    t0 = time.time()
    p = subprocess.Popen([VERUS, path, "--output-json", "--time", "--num-threads", "1", "--triggers-mode", "silent"] + args,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=os.path.dirname(path), start_new_session=True,
                         env={**os.environ, "RUST_MIN_STACK": str(512 << 20)})
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err, time.time() - t0
    except BaseException as e:
        try:
            os.killpg(p.pid, signal.SIGKILL)     # the solver too
        except OSError:
            pass
        out, err = p.communicate()
        if isinstance(e, subprocess.TimeoutExpired):
            return None, out, err, time.time() - t0
        raise



def check(em, workdir, name, rlimit=30, multi=60, timeout=600, extra=()):
    """Verify an Emitted file; returns Result."""
    r = Result()
    if em.paths == 0:
        return r
    path = os.path.join(workdir, re.sub(r"\W", "_", name) + ".rs")
    with open(path, "w") as f:
        f.write(em.text)
    rc, so, se, dt = run_file(path, ["--verify-root", "--rlimit", str(rlimit), "--multiple-errors", str(multi)]
                              + list(extra), timeout)
    r.time = dt
    r.output = se
    if rc is None:
        r.undecided = set(em.obs)
        r.compile_error = "verifier timed out after %d s" % timeout
        return r
    js = None
    try:
        js = json.loads(so[so.index("{"):])
        r.verified = js["verification-results"].get("verified", 0)
        r.errors = js["verification-results"].get("errors", 0)
        r.smt_ms = js.get("times-ms", {}).get("smt", {}).get("total", 0)
    except (ValueError, KeyError):
        pass
    if js is None or js["verification-results"].get("encountered-vir-error") or \
            "verified" not in js.get("verification-results", {}):
        r.compile_error = first_errors(se)
        r.bad_paths = set()
        for lvl, msg, ls in parse(se, path):
            if lvl == "error":
                for l in ls:
                    for a, b, pi in em.fn_lines:
                        if a <= l <= b:
                            r.bad_paths.add(pi)
        return r
    for lvl, msg, ls in parse(se, path):
        if lvl != "error" or msg.startswith("aborting due to"):
            continue
        if msg.startswith("["):
            r.compile_error = first_errors(se)
            continue
        if "rlimit" in msg.lower() or "resource limit" in msg.lower() or "could not be verified" in msg.lower():
            for l in ls:
                for a, b, pi in em.fn_lines:
                    if a <= l <= b:
                        r.undecided.add(("path", pi))
            if not ls:
                r.undecided.add(("path", None))
            continue
        hit = False
        for l in ls:
            x = em.lines.get(l)
            if x is None:
                continue
            hit = True
            if x[0] == "ob":
                r.failed[x[1]] = msg
            elif x[0] == "probe":
                r.probes.add(x[1])
            else:
                r.hints.append((x[2], msg, x[1]))
            break
        if not hit:
            r.undecided.add(("msg", msg))
    if not (r.failed or r.hints or r.undecided or r.probes) and r.verified != em.paths:
        r.compile_error = "%d of %d path functions verified; " % (r.verified, em.paths) + first_errors(se)
    if r.errors and not (r.failed or r.hints or r.undecided or r.probes):
        r.compile_error = first_errors(se) or "unparsed verifier output"
    return r


def first_errors(se):
    return "\n".join(l for l in se.splitlines() if l.strip())[:3000]

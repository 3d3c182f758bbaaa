"""Verifies contracts: symbolic execution, invariant inference, Verus."""
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
from concurrent.futures import ProcessPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

from pyv import emit as emitm
from pyv import verus
from pyv.engine import Engine
from pyv.spec import Spec
from pyv.values import Unsupported
from pyv.world import World

MODULES = ["nibble", "hashing", "node", "mpt", "proofs", "serial", "digests", "merkle", "refs", "empt", "crypto", "proofobj"]
CACHE = os.path.join(ROOT, "contracts", "loops.json")


LIB_ORDER = ["base", "nib", "codec", "text", "hashes", "tree", "trie", "mpt", "proofs", "serial", "merkle", "refs", "emap", "json", "crypto", "proofobj"]


def load_spec():
    spec = Spec()
    for m in MODULES:
        mod = importlib.import_module("contracts." + m)
        before = set(id(c) for cs in spec.contracts.values() for c in cs)
        mod.setup(spec)
        for cs in spec.contracts.values():
            for c in cs:
                if id(c) not in before:
                    c.libs = getattr(c, "libs", None) or list(spec.libs)
                    c.group = m
    return spec


def lib_paths(libs):
    return [(os.path.join(ROOT, "lib", l + ".rs"), l) for l in libs]


def load_cache():
    try:
        with open(CACHE) as f:
            return json.load(f)
    except (OSError, ValueError):
        return {}


class Outcome:
    """Result for one contract."""

    def __init__(self, name):
        self.name = name
        self.status = "?"          # proved / failed / undecided / unsupported
        self.failed = []           # (label, expr, line, message)
        self.undecided = []
        self.unsupported = None
        self.obligations = 0
        self.trivial = 0
        self.paths = 0
        self.time = 0.0
        self.smt_ms = 0
        self.loops = {}
        self.callees = []
        self.inlined = []
        self.assumptions = []
        self.output = ""
        self.houdini = False
        self.lines = (0, 0)
        self.module = ""

    def to_json(self):
        return dict(self.__dict__)


_w = _s = None


def world_spec():
    global _w, _s
    if _w is None:
        _w = World()
        _s = load_spec()
    return _w, _s


def attempt(cname, mode, cache, workdir, rlimit, multi=40):
    w, spec = world_spec()
    c = spec.by_name(cname)
    e = Engine(w, spec, loop_cache=cache)
    e.loop_mode = mode
    libs = lib_paths(c.libs)
    k = [0]

    def prover(paths):
        k[0] += 1
        em = emitm.emit(paths, libs)
        r = verus.check(em, workdir, "houdini_%s_%d" % (cname, k[0]), rlimit=10, multi=400, timeout=200)
        if os.environ.get("PYV_DEBUG"):
            print("  houdini round", k[0], "obs", len(em.obs), "failed", len(r.failed), "undecided", list(r.undecided)[:3],
                  (r.compile_error or "")[:1500], "%.1fs" % r.time, file=sys.stderr)
        if r.compile_error:
            return None
        bad = set(r.failed)
        hard = {u[1] for u in r.undecided if isinstance(u, tuple) and u[0] == "path"}
        alone = []
        for i, p in enumerate(paths):
            if hard & {i, None} and not bad & {t[1] for t in p[0] if t[0] == "ob"}:     # otherwise without the failing candidates first
                alone += [([t for t in p[0] if t[0] != "ob" or t[1] == o[1]],) + tuple(p[1:]) for o in p[0] if o[0] == "ob"]
        if alone:       # every candidate by itself: a hard one must not take the others along
            r = verus.check(emitm.emit(alone, libs), workdir, "houdini_%s_%d_alone" % (cname, k[0]), rlimit=20, multi=400, timeout=300)
            if r.compile_error:
                return None
            bad |= set(r.failed)
            for u in r.undecided:
                if isinstance(u, tuple) and u[0] == "path":
                    bad.update(t[1] for i, p in enumerate(alone) if u[1] is None or i == u[1] for t in p[0] if t[0] == "ob")
        return bad
    e.prover = prover
    vc = e.verify(c)
    o = Outcome(cname)
    o.lines = vc.lines
    o.module = os.path.relpath(vc.module.path, w.repo) if getattr(vc, "module", None) is not None and hasattr(vc.module, "path") else ""
    o.loops = e.loop_used
    o.stale = e.loop_stale
    o.trivial = getattr(e, "trivial", 0)
    o.callees = sorted(vc.callees)
    o.inlined = sorted(vc.inlined)
    o.assumptions = sorted(e.assumptions)
    o.houdini = k[0] > 0
    if vc.unsupported:
        o.status = "unsupported"
        o.unsupported = vc.unsupported
        return o
    em = emitm.emit(vc.paths, libs)
    o.paths = len(vc.paths)
    o.obligations = len(em.obs)
    o.returns = sum(1 for p in vc.paths if p[1] == "return")
    r = verus.check(em, workdir, cname + "_" + mode, rlimit=rlimit, multi=multi)
    o.time, o.smt_ms = r.time, r.smt_ms
    if r.compile_error:
        o.status = "unsupported"
        o.unsupported = ("verifier rejected the translation: " + r.compile_error, None)
        o.output = r.output[-6000:]
        return o
    for ob in r.failed:
        lab, expr, line = em.obs[ob]
        o.failed.append((lab, expr, line, r.failed[ob]))
    for pi, msg, h in r.hints:
        o.failed.append(("precondition of a lemma used in the argument: " + h, h, None, msg))
    o.undecided = [str(u) for u in r.undecided]
    o.output = r.output[-6000:] if o.failed or o.undecided else ""
    o.status = "failed" if o.failed else "undecided" if o.undecided else "proved"
    return o


def probe_one(args):
    """Is some path of the contract reachable?  (asserting false at its end must fail)"""
    cname, tier = args
    sys.setrecursionlimit(20000)
    w, spec = world_spec()
    c = spec.by_name(cname)
    e = Engine(w, spec, loop_cache=load_cache())
    vc = e.verify(c)
    if vc.unsupported:
        return True
    workdir = tempfile.mkdtemp(prefix="pyv_")
    try:
        never = all("false" in r.ensures.values() for r in c.returns)
        idx = [i for i, p in enumerate(vc.paths) if p[1] == ("raise" if never else "return")]
        # shortest first: reachable paths are usually found at once
        idx.sort(key=lambda i: len(vc.paths[i][0]))
        groups = [idx[i:i + 6] for i in range(0, len(idx), 6)]
        for g in groups:
            em = emitm.emit(vc.paths, lib_paths(c.libs), probe=set(g), keep=set())
            r = verus.check(em, workdir, "probe", rlimit=5, multi=0, timeout=120)
            if r.compile_error or r.probes or r.undecided:
                return True
        return False
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


class OutOfTime(BaseException):
    pass


def alarm(*_):
    raise OutOfTime()


def prove_one(args):
    cname, cache, rlimit, infer, keep = args[:5]
    deadline = args[5] if len(args) > 5 else None
    sys.setrecursionlimit(20000)
    workdir = tempfile.mkdtemp(prefix="pyv_")
    t0 = time.time()
    o = None
    try:
        if deadline:
            signal.signal(signal.SIGALRM, alarm)
            signal.setitimer(signal.ITIMER_REAL, max(1, deadline - t0))
        o = attempt(cname, "cache", cache, workdir, rlimit)
        if infer and o.status in ("failed", "undecided", "unsupported") and (o.loops or getattr(o, "stale", False)):
            o2 = attempt(cname, "infer", cache, workdir, rlimit)
            if o2.status == "proved" or o2.status == "failed" and (o.status != "failed" or len(o2.failed) <= len(o.failed)):
                o = o2
    except OutOfTime:
        o = Outcome(cname)
        o.status = "unsupported"
        o.unsupported = ("time ran out", None)
    except Exception:
        o = Outcome(cname)
        o.status = "unsupported"
        o.unsupported = ("front end error: " + traceback.format_exc(), None)
    finally:
        if deadline:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if keep:
            print("kept", workdir, file=sys.stderr)
        else:
            shutil.rmtree(workdir, ignore_errors=True)
    o.wall = time.time() - t0
    return o


def prove(names, rlimit=30, infer=True, jobs=7, keep=False, progress=None):
    cache = load_cache()
    out = {}
    args = [(n, cache, rlimit, infer, keep) for n in names]
    if jobs == 1 or len(names) == 1:
        for a in args:
            out[a[0]] = prove_one(a)
            if progress:
                progress(out[a[0]])
        check_recursion(out)
        return out
    with ProcessPoolExecutor(jobs) as ex:
        for o in ex.map(prove_one, args):
            out[o.name] = o
            if progress:
                progress(o)
    check_recursion(out)
    return out


def check_recursion(outs):
    """Contracts that call each other in a cycle must share a termination measure."""
    w, spec = world_spec()
    edges = {n: [c for c in o.callees if c in outs] for n, o in outs.items()}

    def reaches(a, b, seen):
        for x in edges.get(a, ()):
            if x == b:
                return True
            if x not in seen:
                seen.add(x)
                if reaches(x, b, seen):
                    return True
        return False
    for n, o in outs.items():
        c = spec.by_name(n)
        for x in edges[n]:
            d = spec.by_name(x)
            if (x == n or reaches(x, n, set())) and (c.rec is None or c.rec != d.rec or c.decreases is None or d.decreases is None):
                o.failed.append(("termination of the recursive call of " + x, "false", None, "no termination measure"))
                o.status = "failed"


def update_cache(outs):
    cache = load_cache()
    for o in outs.values():
        if o.status == "proved":
            for k in [k for k in cache if k.split("|")[0] == o.name]:
                if k not in o.loops:
                    del cache[k]
            cache.update(o.loops)
    with open(CACHE, "w") as f:
        json.dump(cache, f, indent=1, sort_keys=True)
        f.write("\n")


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("names", nargs="*")
    ap.add_argument("--rlimit", type=float, default=30)
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--update-cache", action="store_true")
    ap.add_argument("-j", type=int, default=7)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    w, spec = world_spec()
    allc = [c.name for cs in spec.contracts.values() for c in cs if c.trusted is None]
    names = []
    for n in a.names or [""]:
        names += [x for x in allc if (x.startswith(n) or x == n) and x not in names]
        if n in allc:
            pass
    def show(o):
        print("%-50s %-11s obs=%d trivial=%d paths=%d %.1fs %s" % (
            o.name, o.status, o.obligations, o.trivial, o.paths, o.wall, "(houdini)" if o.houdini else ""))
        if o.unsupported:
            print("     unsupported:", o.unsupported[0][-1800:], "line", o.unsupported[1])
        for f in o.failed:
            print("     FAILED %s [line %s]\n            %s" % (f[0], f[2], f[1][:600]))
        if o.undecided:
            print("     undecided", o.undecided[:5])
        if a.v and o.output:
            print(o.output)
        sys.stdout.flush()
    t0 = time.time()
    outs = prove(names, a.rlimit, jobs=a.j, keep=a.keep, progress=show)
    print("total %.1fs; %d/%d proved" % (time.time() - t0, sum(o.status == "proved" for o in outs.values()), len(outs)))
    if a.update_cache:
        update_cache(outs)


if __name__ == "__main__":
    main()

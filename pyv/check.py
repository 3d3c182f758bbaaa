"""The check of one property: verify the contracts of its cone on /repo's current source,
report the outcome, write the evidence."""
import json
import os
import re
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ProcessPoolExecutor, FIRST_COMPLETED, wait

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

from pyv import prove, verus
from pyv.world import World

PYTHON = "/opt/venv/bin/python"
EVID = os.environ.get("PYV_EVIDENCE", os.path.join(ROOT, "evidence"))
JOBS = int(os.environ.get("PYV_JOBS", "7"))


def lib_task(libs):
    """Verify the lemma library (its lemmas are used as hints by the obligations)."""
    with tempfile.TemporaryDirectory(prefix="pyv_lib_") as d:
        p = os.path.join(d, "library.rs")
        with open(p, "w") as f:
            for path, name in prove.lib_paths(libs):
                f.write('#[path = "%s"] mod %s;\n' % (path, name))
            f.write("fn main() {}\n")
        rc, so, se, dt = verus.run_file(p, ["--rlimit", "60"], 600)
        try:
            js = json.loads(so[so.index("{"):])
            v = js["verification-results"]
            return {"verified": v.get("verified", 0), "errors": v.get("errors", 1), "time": dt,
                    "ok": rc == 0 and v.get("errors", 1) == 0 and v.get("verified", 0) > 0,
                    "smt_ms": js.get("times-ms", {}).get("smt", {}).get("total", 0), "output": se[-3000:]}
        except (ValueError, KeyError):
            return {"verified": 0, "errors": 1, "ok": False, "time": dt, "smt_ms": 0, "output": se[-3000:]}


def axioms_of(libs):
    """Every assumption of the lemma library, listed mechanically."""
    out = []
    for path, name in prove.lib_paths(libs):
        text = open(path).read()
        for m in re.finditer(r"(?m)^\s*pub (?:broadcast )?axiom fn (\w+)", text):
            out.append("axiom %s::%s" % (name, m.group(1)))
        for m in re.finditer(r"(?m)^\s*pub uninterp spec fn (\w+)", text):
            out.append("uninterpreted %s::%s" % (name, m.group(1)))
        if re.search(r"\b(assume|admit)\s*\(", text) or "external_body" in text:
            raise SystemExit("unlisted assumption in " + path)
    return out


def search(prop, seconds, seed, out):
    try:
        p = subprocess.run([PYTHON, os.path.join(ROOT, "search", "runner.py"), prop, str(seconds), str(seed), out],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=seconds + 120, cwd=ROOT)
    except subprocess.TimeoutExpired as e:
        return None, "search timed out"
    return p.returncode, p.stdout[-3000:]


def close_cone(roots, spec, rlimit, deadline):
    """Verify the roots and, transitively, every contract they rely on."""
    cache = prove.load_cache()
    outs, pending, seen = {}, {}, set()
    try:
        cones = json.load(open(os.path.join(ROOT, "contracts", "cones.json")))
    except (OSError, ValueError):
        cones = {}
    with ProcessPoolExecutor(JOBS) as ex:
        libs = []
        queue = []

        def want(n):
            if n in seen:
                return
            seen.add(n)
            c = spec.by_name(n)
            if c.trusted is None:
                queue.append(n)
            for l in c.libs:
                if l not in libs:
                    libs.append(l)
        for r in roots:
            want(r)
        for r in list(roots):
            for n in cones.get(r, []):
                try:
                    want(n)
                except KeyError:
                    pass
        used = set(roots)
        lib_future = ex.submit(lib_task, sorted_libs(libs))
        while queue or pending:
            while queue:
                n = queue.pop(0)
                pending[ex.submit(prove.prove_one, (n, cache, rlimit, True, False, deadline))] = n
            done, _ = wait(list(pending), return_when=FIRST_COMPLETED, timeout=max(1, deadline + 30 - time.time()))
            if not done:
                for f in pending:
                    f.cancel()
                break
            for f in done:
                n = pending.pop(f)
                o = f.result()
                outs[n] = o
                for cn in o.callees:
                    want(cn)
        lib = lib_future.result()
    prove.check_recursion(outs)
    # the contracts actually in the cone
    cone, todo = set(), list(roots)
    while todo:
        n = todo.pop()
        if n in cone:
            continue
        cone.add(n)
        if n in outs:
            todo += outs[n].callees
    return outs, cone, lib, sorted_libs(libs), [n for n in pending.values()]


def sorted_libs(libs):
    order = prove.LIB_ORDER
    return [l for l in order if l in libs]


def main():
    import argparse
    from contracts.props import PROPS
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--rlimit", type=float, default=0)
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop, tier = a.prop, a.tier
    P = PROPS[prop]
    w, spec = prove.world_spec()
    rlimit = a.rlimit or (60 if tier == "quick" else 120)
    outs, cone, lib, libs, unfinished = close_cone(P["roots"], spec, rlimit, t0 + (420 if tier == "quick" else 2400))
    cone_out = [outs[n] for n in sorted(cone) if n in outs]
    failed, undecided = [], []
    for o in cone_out:
        if o.status == "failed":
            failed += [(o.name, o.module) + tuple(f) for f in o.failed]
            if o.undecided:
                undecided.append((o.name, "solver gave up on: " + "; ".join(o.undecided)))
        elif o.status == "undecided":
            undecided.append((o.name, "solver gave up on: " + "; ".join(o.undecided)))
        elif o.status == "unsupported":
            undecided.append((o.name, "%s (line %s)" % o.unsupported))
    undecided += [(n, "time ran out") for n in unfinished]
    if not lib["ok"]:
        undecided.append(("lemma library", lib["output"]))
    nobs = sum(o.obligations for o in cone_out)
    if nobs == 0 and not failed and not undecided:
        undecided.append(("engine", "no obligation was generated"))
    # reachability behind the contracts
    vac = []
    if not failed and not undecided:
        vac = vacuity(cone_out, tier)
        for n in vac:
            undecided.append((n, "the contract's assumptions are contradictory (reachability probe was proved)"))
    # search for a failing input on the real code
    os.makedirs(EVID, exist_ok=True)
    replay = os.path.join(EVID, prop + ".replay.json")
    if os.path.exists(replay):
        os.remove(replay)
    if failed or undecided:
        secs = 90 if tier == "quick" else 240
    else:
        secs = P.get("smoke", 4) if tier == "quick" else 120
    rc, stext = search(prop, secs, seed, replay)
    discharged = sum(o.obligations - min(o.obligations, len(o.failed)) for o in cone_out
                     if o.status in ("proved", "failed"))
    bounded = sorted(set(n for n, _ in undecided))
    trusted = sorted(n for n in cone if spec.by_name(n).trusted)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": nobs,
            "discharged": discharged,
            "checker_cmd": "verus (Z3 back end) on proof functions generated from /repo's source; "
                           "python3-vt -m pyv.check %s --tier %s" % (prop, tier),
            "trusted_base": [
                "the front end /verif/pyv (symbolic execution of the Python source, semantics of builtins)",
                "Verus and Z3",
            ] + axioms_of(libs) + ["trusted contract of %s: %s" % (n, spec.by_name(n).trusted) for n in trusted],
            "functions_under_contract": [
                {"contract": o.name, "file": o.module, "lines": list(o.lines), "status": o.status,
                 "obligations": o.obligations, "discharged_by_construction": o.trivial, "paths": o.paths,
                 "solver_ms": o.smt_ms, "inlined": o.inlined, "loop_invariants_inferred": o.houdini}
                for o in cone_out],
            "lemma_library": {"files": libs, "lemmas_verified": lib["verified"], "ok": lib["ok"]},
            "solver_time_s": round((sum(o.smt_ms for o in cone_out) + lib["smt_ms"]) / 1000.0, 2),
            "bounded_not_proved": [{"function": n, "why": y[:500], "bound": "random search for %d s: %s" % (secs, stext.strip()[-200:])}
                                   for n, y in undecided],
            "cross_check_on_cpython": stext.strip()[-300:],
            "reachability_probes": "vacuous: %s" % vac if vac else "every contract has a reachable path",
        },
        "assumptions": sorted(set(x for o in cone_out for x in o.assumptions)) + P.get("assumptions", []),
        "wall_s": 0.0, "violations": 0,
    }
    code = 0
    if rc == 3:
        d = json.load(open(replay))
        d["obligations"] = describe(failed)
        d["undecided"] = [list(u) for u in undecided]
        json.dump(d, open(replay, "w"), indent=1)
        print("property %s fails on the real code: %s" % (prop, d["message"]))
        for l in describe(failed)[:10]:
            print("  failed obligation:", l)
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        code = 1
    elif failed:
        json.dump({"property": prop, "case": None, "obligations": describe(failed),
                   "verifier_output": {o.name: o.output for o in cone_out if o.failed},
                   "search": stext}, open(replay, "w"), indent=1)
        for l in describe(failed)[:10]:
            print("  failed obligation:", l)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))
        code = 1
    else:
        if rc not in (0, 3):
            print("search did not finish:", stext)
        for n, y in undecided:
            print("not proved (bounded check instead): %s: %s" % (n, y[:600]))
        print("property %s: %d obligations, %d discharged, %d contracts (%d not proved), %.1f s; search: %s" % (
            prop, nobs, discharged, len(cone_out), len(bounded), time.time() - t0, stext.strip()[-120:]))
    ev["violations"] = code
    ev["wall_s"] = round(time.time() - t0, 2)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    return code


def describe(failed):
    return ["%s (%s line %s): %s :: %s" % (n, m, line, lab, expr[:400]) for n, m, lab, expr, line, msg in failed]


def vacuity(cone_out, tier):
    """Contracts none of whose paths is reachable."""
    names = [o.name for o in cone_out]
    with ProcessPoolExecutor(JOBS) as ex:
        rs = list(ex.map(prove.probe_one, [(n, tier) for n in names]))
    return [n for n, ok in zip(names, rs) if not ok]


if __name__ == "__main__":
    sys.exit(main())

"""Turns the paths of a function into Verus proof functions."""
import re


ALLOW = "#![allow(unused_imports, unused_parens, unused_variables, non_snake_case, dead_code, unused_mut, non_shorthand_field_patterns)]"
HEADER = """use vstd::prelude::*;
%s
verus! {
"""


LIT = re.compile(r"(?<=\{ )(\(?-?\d+\)?)(?= \})")


def ints(t):
    """Literals that are a whole arm of a conditional need their type spelled out."""
    return LIT.sub(r"(\1 as int)", t)


class Emitted:
    def __init__(self):
        self.text = ""
        self.lines = {}        # line -> ("ob", id) | ("hint", text, path index)
        self.fn_lines = []     # (first, last, path index)
        self.obs = {}          # id -> (label, expr, source line)
        self.paths = 0


def emit(paths, libs, probe=None, rlimit=None, keep=None):
    """paths: list of (trace, kind, ...).  probe: set of path indices whose end gets assert(false).
    keep: set of obligation ids to prove (the others become facts)."""
    em = Emitted()
    out = [ALLOW + "\n"]
    for l in libs:
        out.append("#[path = \"%s\"] mod %s;\n" % l)
    out.append(HEADER % "\n".join("use crate::%s::*;" % l[1] for l in libs))
    if any("bor(" in str(x) for p in paths for t in p[0] for x in t):
        out.append("broadcast use crate::base::lemma_bor;\n")
    buf = "".join(out)
    lines = buf.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    seen = set()

    def put(t):
        lines.extend(t.split("\n"))
        return len(lines) - t.count("\n")
    for pi, p in enumerate(paths):
        trace = p[0]
        todo = False
        for t in trace:
            if t[0] == "ob" and t[1] not in seen and (keep is None or t[1] in keep):
                todo = True
        if not todo and (probe is None or pi not in probe):
            continue
        em.paths += 1
        first = len(lines) + 1
        last_ob = max([i for i, t in enumerate(trace) if t[0] == "ob" and t[1] not in seen
                       and (keep is None or t[1] in keep)] + [-1])
        if probe is not None and pi in probe:
            last_ob = len(trace)
        decls = []
        indep = len(p) > 2 and p[2] == "independent"
        if indep:
            for t in trace:
                if t[0] == "ob":
                    decls.append("on_%d: bool" % t[1])
        req = []
        i = 0
        while i < len(trace):
            t = trace[i]
            if t[0] == "decl":
                decls.append("%s: %s" % (t[1], t[2]))
            i += 1
        # leading facts
        i = 0
        while i < len(trace) and (trace[i][0] in ("decl", "fact") or
                                  trace[i][0] == "ob" and (trace[i][1] in seen or keep is not None and trace[i][1] not in keep)):
            if trace[i][0] == "fact":
                req.append(trace[i][1])
            elif trace[i][0] == "ob":
                req.append(trace[i][3])
            i += 1
        if rlimit:
            put("#[verifier::rlimit(%d)]" % rlimit)
        put("proof fn path_%d(%s)" % (pi, ", ".join(decls)))
        if req:
            put("    requires")
            for r in req:
                put("        (%s)," % ints(r))
        put("{")
        depth = 0
        while i <= last_ob and i < len(trace):
            t = trace[i]
            if t[0] == "fact" or t[0] == "ob" and (t[1] in seen or keep is not None and t[1] not in keep):
                put("if %s {" % ints(t[1] if t[0] == "fact" else t[3]))
                depth += 1
            elif t[0] == "ob":
                seen.add(t[1])
                em.obs[t[1]] = (t[2], t[3], t[4])
                a = len(lines) + 1
                if indep:
                    put("if on_%d { assert(%s); }" % (t[1], ints(t[3])))
                else:
                    put("assert(%s);" % ints(t[3]))
                for k in range(a, len(lines) + 1):
                    em.lines[k] = ("ob", t[1])
            elif t[0] == "hint":
                a = len(lines) + 1
                put(ints(t[1]))
                for k in range(a, len(lines) + 1):
                    em.lines[k] = ("hint", t[1], pi)
            i += 1
        if probe is not None and pi in probe:
            k = put("assert(false);")
            em.lines[k] = ("probe", pi)
        put("}" * (depth + 1))
        em.fn_lines.append((first, len(lines), pi))
    put("} // verus!")
    put("fn main() {}")
    em.text = "\n".join(lines) + "\n"
    return em

"""Loops over symbolic sequences and while loops: discovery of what the body modifies,
havoc, inductive invariants (templates instantiated and filtered by Houdini, or taken from
a cache of a previous run and re-proved), termination measures."""
import ast
import itertools
import re

from .engine import neg, FnVC
from .values import *

GENERIC = [
    "0 <= {a:int}",
    "{a:int} == {@}",
    "{a:int} <= {b:int*}",
    "{a:int} < {b:int*}",
    "{a:int} == {b:int}",
    "{s:Seq<int>}.len() == {a:int*}",
    "{s:Seq<Seq<int>>}.len() == {a:int*}",
    "{s:Seq<int>}.len() == {@}",
    "{s:Seq<Seq<int>>}.len() == {@}",
]
MV = re.compile(r"\{(@|#|\w+)(?::([^{}*]+)(\*?))?\}")
MAX_CANDS = 1200


class LoopRunner:
    def __init__(self, eng, node, st, vi):
        self.e = eng
        self.node = node
        self.st = st
        self.vi = vi
        self.line = getattr(node, "lineno", None)
        self.src = None

    # ------------------------------------------------------------ main
    def run(self):
        e, n = self.e, self.node
        vc, c = e.cur, e.cur_contract
        self.key = "%s|%s" % (c.name, self.loop_ordinal())
        self.types = {}
        self.mods = self.discover()
        if self.vi is not None and any(("loc", l) in self.mods or ("field", l) == m[:2]
                                       for l in self.vi.srcs for m in self.mods):
            raise Unsupported("a sequence is modified while it is iterated", n)
        self.accs = self.accumulated()
        cands = self.candidates()
        measure = None
        mode = e.loop_mode
        cached = e.loop_cache.get(self.key)
        use = None
        if mode == "cache" and cached is not None:
            use = [x for x in (self.from_text(t) for t in cached.get("inv", [])) if x is not None]
            measure = self.from_text(cached["measure"]) if cached.get("measure") else None
            if len(use) < len(cached.get("inv", [])):
                e.loop_stale = True
        elif mode == "cache":
            e.loop_stale = True
            use = []
        if use is None:
            use, measure = self.houdini(cands)
        if self.vi is None and measure is None:
            ms = self.measures()
            measure = ms[0] if ms else None
        e.loop_used[self.key] = self.merge_used(e.loop_used.get(self.key), use, measure)
        vc.loops.append((self.key, [u[0] for u in use]))
        yield from self.execute(use, measure, vc, final=True)

    def merge_used(self, old, use, measure):
        inv = [u[0] for u in use]
        if old:
            # keep the invariants common to every path that reaches the loop, then the others
            inv = [i for i in old["inv"] if i in inv] or inv
        return {"inv": inv, "measure": measure[0] if measure else (old or {}).get("measure")}

    def loop_ordinal(self):
        stack = self.e.inline_stack
        key = id(self.node)
        m = self.e.loop_ord.setdefault(self.e.cur_contract.name, {})
        if key not in m:
            m[key] = len(m)
        return "%d%s" % (m[key], "@" + stack[-1][0] if stack else "")

    # ------------------------------------------------------------ discovery of the modified state
    def discover(self):
        """Set of access paths: ('env', name) / ('loc', loc) / ('field', loc, field)."""
        e = self.e
        mods = {}
        self.shared = set()      # modified variables whose object is reachable some other way too
        self.froze = {}
        saved = (e.cur, e.loop_mode)
        for _ in range(12):
            e.cur = FnVC("discovery", e.cur_contract)
            e.loop_mode = "cache" if saved[1] == "cache" else "probe"
            st, it = self.head(mods, [])
            new = {}
            grown = False
            for s, k, p in self.body(st, it):
                if k in ("next", "continue"):
                    self.diff(st, s, new)
                    grown |= self.sharing(s, list(new) + list(mods))
            e.cur, e.loop_mode = saved
            grown |= self.sharing(self.st, list(new) + list(mods))
            for m, ty in new.items():
                if m not in mods:
                    mods[m] = ty
                    grown = True
                elif ty is not None and mods[m] is not None and repr(ty) != repr(mods[m]):
                    j = self.join(mods[m], ty)
                    if repr(j) != repr(mods[m]):
                        mods[m] = j
                        grown = True
            if not grown:
                return mods
        raise Unsupported("the state modified by the loop does not stabilise", self.node)

    def value_at(self, m, s):
        if m[0] == "env":
            return s.env.get(m[1])
        if m[0] == "loc":
            h = s.heap.get(m[1])
            return VTuple(list(h.items)) if isinstance(h, LList) else None
        h = s.heap.get(m[1])
        return h.fields.get(m[2]) if isinstance(h, Inst) else None

    def sharing(self, s, mods):
        """Objects bound to what the loop modifies that are also reachable otherwise at s: neither may
        be changed in place afterwards, since the head state gives every modified place an object of its own."""
        e = self.e
        n0 = (len(self.shared), len(self.froze))
        places = [("env", k) for k in s.env if not k.startswith("__")]
        places += [("field", l, f) for l, h in s.heap.items() if isinstance(h, Inst) for f in h.fields]
        owners = {}
        for pl in places:
            v = s.env.get(pl[1]) if pl[0] == "env" else s.heap[pl[1]].fields[pl[2]]
            for x in (v.items if isinstance(v, VTuple) else [v]):
                if isinstance(x, VRef):
                    owners[x.loc] = owners.get(x.loc, 0) + 1
        for l, h in s.heap.items():
            for x in (h.items if isinstance(h, LList) else [b for _, b in h.items] if isinstance(h, CDict) else []):
                for y in (x.items if isinstance(x, VTuple) else [x]):
                    if isinstance(y, VRef):
                        owners[y.loc] = owners.get(y.loc, 0) + 1
        for m in mods:
            v = self.value_at(m, s)
            if v is None:
                continue
            locs = e.reach_set(v, s)
            bad = [l for l in locs if owners.get(l, 0) > 1 or isinstance(s.frozen.get(l), str)]
            if m[0] == "loc" and locs:
                bad = list(locs)
            if bad:
                self.shared.add(m)
                for l in bad:
                    if l in self.st.heap and l not in self.st.frozen:
                        self.froze[l] = "shared with a variable of a loop"
        for l, w in s.frozen.items():
            if l in self.st.heap and l not in self.st.frozen:
                self.froze[l] = w
        return n0 != (len(self.shared), len(self.froze))

    def join(self, a, b):
        if "unknown" in repr(a):
            return b
        if "unknown" in repr(b):
            return a
        if a is None or b is None or repr(a) == repr(b):
            return a or b
        if {a.kind, b.kind} <= {"bytes", "bytearray", "byteslike"}:
            return parse_ty("byteslike")
        if a.kind == "list" and b.kind == "list":
            return Ty("list", self.join(a.args[0], b.args[0]))
        if a.kind == "none":
            return b if b.kind == "opt" else Ty("opt", b)
        if b.kind == "none":
            return a if a.kind == "opt" else Ty("opt", a)
        if a.kind == "opt" and a.args[0] == b:
            return a
        if b.kind == "opt" and b.args[0] == a:
            return b
        j = self.e.join_types(a, b)
        if j is not None:
            return j
        raise Unsupported("variable of changing type in a loop (%r, %r)" % (a, b), self.node)

    def diff(self, a, b, out):
        e = self.e

        def put(m, ty):
            if m in out and out[m] is not None and ty is not None:
                out[m] = self.join(out[m], ty)
            else:
                out[m] = ty
        for nm, v in b.env.items():
            if nm.startswith("__"):
                continue
            o = a.env.get(nm)
            if o is v:
                continue
            if isinstance(o, VRef) and isinstance(v, VRef) and o.loc == v.loc:
                continue
            if type(o) is type(v) and getattr(o, "t", 0) is not None and getattr(o, "t", 0) == getattr(v, "t", 1) \
                    and getattr(o, "kind", 0) == getattr(v, "kind", 0):
                continue
            if nm not in self.st.env:
                put(("env", nm), None)
                continue
            ty = e.type_of(v, b)
            o0 = self.st.env[nm]
            if o0 is not None:
                ty = self.join(self.type0(o0), ty)
            put(("env", nm), ty)
        for loc, h in b.heap.items():
            o = a.heap.get(loc)
            if o is None or o is h or loc not in self.st.heap:
                continue
            if isinstance(h, Dead):
                # replaced through the field that owned it (a modification of its own); any other use of it is refused
                put(("dead", loc), None)
                continue
            if isinstance(h, Inst):
                for f, v in h.fields.items():
                    ov = o.fields.get(f)
                    if ov is v or isinstance(ov, VRef) and isinstance(v, VRef) and ov.loc == v.loc:
                        continue
                    cs = e.class_spec(h.cls)
                    put(("field", loc, f), cs.fields.get(f) if cs and f in cs.fields else e.type_of(v, b))
            elif isinstance(h, (LList, SList)):
                ty = Ty("list", h.ety) if isinstance(h, SList) else e.type_of(VRef(loc), b)
                o0 = self.st.heap[loc]
                if isinstance(o0, LList) and o0.items:
                    ty = self.join(e.type_of(VRef(loc), self.st), ty)
                put(("loc", loc), ty)
            else:
                if isinstance(h, SDict):
                    ty = Ty("dict", h.kty, h.vty)
                else:
                    k0, v0 = h.items[0]
                    ty = Ty("dict", e.type_of(k0, b), e.type_of(v0, b))
                put(("loc", loc), ty)

    def type0(self, v):
        return self.e.type_of(v, self.st)

    # ------------------------------------------------------------ head state
    def head(self, mods, inv, assume=True):
        e = self.e
        s = self.st.copy()
        env = dict(s.env)
        if self.froze:
            s.frozen = {**s.frozen, **{l: w for l, w in self.froze.items() if l not in s.frozen}}
        for m, ty in mods.items():
            known = set(s.heap)
            if m[0] == "env":
                if m[1] not in self.st.env:
                    env.pop(m[1], None)
                    continue
                outs = list(e.fresh(s, ty, m[1]))
                if len(outs) != 1:
                    raise Unsupported("loop variable of alternative types", self.node)
                s, v = outs[0]
                env[m[1]] = v
                if m in self.shared:
                    s.freeze([l for l in s.heap if l not in known], "shared with a variable of a loop")
            elif m[0] == "dead":
                s.heap[m[1]] = Dead("replaced in a loop")
            elif m[0] == "loc":
                if ty is None or "unknown" in repr(ty):
                    raise Unsupported("list of unknown element type modified in a loop", self.node)
                outs = list(e.fresh(s, ty, "heap"))
                s, v = outs[0]
                s.heap[m[1]] = s.heap[v.loc]
            else:
                outs = list(e.fresh(s, ty, m[2]))
                if len(outs) != 1:
                    raise Unsupported("loop field of alternative types", self.node)
                s, v = outs[0]
                s.heap[m[1]] = s.heap[m[1]].set(m[2], v)
                cs = e.class_spec(s.heap[m[1]].cls)
                if cs is not None:
                    e.register_alias(s, m[1], cs)
                if m in self.shared:
                    s.freeze([l for l in s.heap if l not in known], "shared with a variable of a loop")
        s = s.with_env(env)
        it = None
        if self.vi is not None:
            it = e.decl(s, "it", "int")
            s.fact("0 <= %s" % it)
            s.fact("%s <= %s" % (it, self.vi.length))
        for c in inv:
            t = self.render_inv(c, s, it)
            if t is not None:
                s.fact(t)
        return s, it

    def body(self, st, it):
        """Paths of one iteration from the head state (test true / element available)."""
        e, n = self.e, self.node
        if self.vi is not None:
            s = st.copy()
            s.fact("%s < %s" % (it, self.vi.length))
            x = self.vi.elem(it, s)
            for s1, ex in e.assign(n.target, x, s):
                if ex is not None:
                    yield s1, "raise", ex
                else:
                    yield from e.exec_block(n.body, s1)
        else:
            for s1, b in e.ev_cond(n.test, st):
                if isinstance(b, Exc):
                    yield s1, "raise", b
                    continue
                for s2, d in e.fork(s1, b):
                    if d:
                        yield from e.exec_block(n.body, s2)

    def exits(self, st, it):
        e, n = self.e, self.node
        if self.vi is not None:
            s = st.copy()
            s.fact("%s == %s" % (it, self.vi.length))
            yield from e.exec_block(n.orelse, s)
        else:
            for s1, b in e.ev_cond(n.test, st):
                if isinstance(b, Exc):
                    continue        # already reported by the body paths
                for s2, d in e.fork(s1, b):
                    if not d:
                        yield from e.exec_block(n.orelse, s2)

    # ------------------------------------------------------------ terms visible to invariants
    def terms(self, s, it):
        """path -> (sort, term, modified)."""
        e = self.e
        out = {}
        modenv = set(m[1] for m in self.mods if m[0] == "env")
        modloc = set(m[1] for m in self.mods if m[0] == "loc")
        modfld = set((m[1], m[2]) for m in self.mods if m[0] == "field")

        def add(path, v, mod, depth):
            if isinstance(v, VInt):
                out[path] = ("int", v.t, mod)
            elif isinstance(v, VBool):
                out[path] = ("bool", v.t, mod)
            elif isinstance(v, VBytes):
                out[path] = ("Seq<int>", v.t, mod)
            elif isinstance(v, VCtx) and v.kind == "hashfn":
                out[path] = ("Seq<int>", v.data.t, mod)
            elif isinstance(v, VUnion):
                try:
                    out[path] = (e.sort(e.type_of(v, s)), v.t, mod)
                except Unsupported:
                    pass
            elif isinstance(v, VTuple) and depth < 2:
                for i, x in enumerate(v.items):
                    add("%s.%d" % (path, i), x, mod, depth + 1)
            elif isinstance(v, VRef):
                h = s.heap.get(v.loc)
                if isinstance(h, Inst):
                    if depth < 3:
                        cs = e.class_spec(h.cls)
                        for f, x in h.fields.items():
                            fm = mod or (v.loc, f) in modfld
                            ft = cs.fields.get(f) if cs is not None else None
                            if ft is not None and ft.kind == "opt" and not isinstance(x, VUnion):
                                try:
                                    out["%s.%s" % (path, f)] = (e.sort(ft), e.render(x, s, ft), fm)
                                except Unsupported:
                                    pass
                            else:
                                add("%s.%s" % (path, f), x, fm, depth + 1)
                    try:
                        t = e.render(v, s)
                        cs = e.class_spec(h.cls)
                        if cs is not None and cs.sort:
                            out[path] = (cs.sort, t, mod or any((v.loc, f) in modfld for f in h.fields))
                    except Unsupported:
                        pass
                elif h is not None:
                    m = mod or v.loc in modloc
                    ty = None
                    for mm, t in self.mods.items():
                        if mm == ("loc", v.loc):
                            ty = t
                    if ty is None and path in self.types:
                        ty = self.types[path]
                    try:
                        if ty is None:
                            ty = e.type_of(v, s)
                        if "unknown" in repr(ty) or ty.kind == "cdict":
                            return
                        self.types[path] = ty
                        out[path] = (e.sort(ty), e.render(v, s, ty), m)
                    except Unsupported:
                        pass
        for nm, v in s.env.items():
            if nm.startswith("__"):
                continue
            if nm in modenv and nm not in self.st.env:
                continue
            ty = self.mods.get(("env", nm))
            if ty is not None and ty.kind == "opt" and not isinstance(v, VUnion):
                try:
                    out[nm] = (e.sort(ty), e.render(v, s, ty), True)
                except Unsupported:
                    pass
                continue
            if ty is not None and ty.kind == "list":
                self.types[nm] = ty
            add(nm, v, nm in modenv, 0)
        if it is not None:
            out["@"] = ("int", it, True)
            if self.vi is not None and self.vi.keys is not None:
                term, ety = self.vi.keys
                out["#"] = ("Seq<%s>" % e.sort(ety), term, True)       # the sequence iterated over
        return out

    def render_py(self, text, s):
        """A Python comparison over the variables in scope at s."""
        try:
            expr = ast.parse(text, mode="eval").body
            outs = [v for s1, v in self.e.ev(expr, s.copy())]
        except (Unsupported, SyntaxError, KeyError):
            return None
        return "(%s)" % outs[0].t if len(outs) == 1 and isinstance(outs[0], VBool) and isinstance(outs[0].t, str) else None

    FLIP = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}

    def comparisons(self):
        """Comparisons (left, operator, right) that hold as long as a while loop goes on."""
        def read(t, on):
            if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                yield from read(t.operand, not on)
            elif isinstance(t, ast.Compare) and len(t.ops) == 1:
                op = type(t.ops[0])
                if on or op in self.FLIP:
                    yield ast.unparse(t.left), op if on else self.FLIP[op], ast.unparse(t.comparators[0])
            else:
                for c in ast.iter_child_nodes(t):
                    yield from read(c, on)
        if not isinstance(self.node, ast.While):
            return
        yield from read(self.node.test, True)
        for n in self.node.body:
            for c in ast.walk(n):
                if isinstance(c, ast.If) and any(isinstance(x, (ast.Break, ast.Return)) for y in c.body for x in ast.walk(y)):
                    yield from read(c.test, False)
                if isinstance(c, ast.If) and any(isinstance(x, (ast.Break, ast.Return)) for y in c.orelse for x in ast.walk(y)):
                    yield from read(c.test, True)

    def from_test(self):
        """Comparisons of the loop test, weakened to what the last iteration leaves."""
        for a, op, b in self.comparisons():
            if op in (ast.Lt, ast.LtE, ast.NotEq):
                yield "py:%s <= %s" % (a, b)
            if op in (ast.Gt, ast.GtE, ast.NotEq):
                yield "py:%s >= %s" % (a, b)

    def render_inv(self, inv, s, it):
        text, tpl, binding = inv
        if tpl.startswith("py:"):
            return self.render_py(tpl[3:], s)
        if tpl[:4] in ("acc:", "all:"):
            return self.render_acc(tpl[:3], tpl[4:], s, it)
        terms = self.terms(s, it)
        ok = True

        def sub(m):
            nonlocal ok
            p = m.group(1) if m.group(1) in "@#" else binding.get(m.group(1))
            if p is None or p not in terms:
                ok = False
                return ""
            t = terms[p][1]
            return self.e.paren2(t if not re.fullmatch(r"\d+", t) else t + "int")
        t = MV.sub(sub, tpl)
        if not ok:
            return None
        try:
            names, types, entry = self.e.entry
            return self.e.tpl(t, names, entry, s, types)
        except Unsupported:
            return None

    def from_text(self, text):
        """Invariant text: template ## name=path,..."""
        tpl, _, b = text.partition(" ## ")
        binding = dict(x.split("=", 1) for x in b.split(";") if x)
        inv = (text, tpl, binding)
        s, it = self.head(self.mods, [])
        return inv if self.render_inv(inv, s, it) is not None else None

    def make(self, tpl, binding):
        return (tpl + " ## " + ";".join("%s=%s" % kv for kv in binding.items()), tpl, binding)

    def candidates(self):
        s, it = self.head(self.mods, [])
        terms = self.terms(s, it)
        out = []
        seen = set()
        for nm, v in s.env.items():
            if isinstance(v, VRef) and isinstance(s.heap.get(v.loc), Inst) and any(m[:2] == ("field", v.loc) for m in self.mods):
                cs = self.e.class_spec(s.heap[v.loc].cls)
                if cs is not None and cs.inv:       # the class invariant, while its fields change
                    inv = self.make(cs.inv, {f: "%s.%s" % (nm, f) for f in cs.fields if "{%s}" % f in cs.inv})
                    t = self.render_inv(inv, s, it)
                    if t is not None:
                        seen.add(t)
                        out.append(inv)
        for tpl in self.templates(terms, it) + GENERIC + [w + a for a in self.accs for w in ("acc:", "all:")] + list(self.from_test()):
            if "{@}" in tpl and it is None or any(terms.get("#", ("",))[0] != m.group(2) for m in MV.finditer(tpl) if m.group(1) == "#"):
                continue
            for b in self.bindings(tpl, terms):
                inv = self.make(tpl, b)
                t = self.render_inv(inv, s, it)
                if t is None or t in seen:
                    continue
                seen.add(t)
                out.append(inv)
                if len(out) > MAX_CANDS:
                    return out
        return out

    def templates(self, terms, it):
        """The contract's templates.  Where the loop has no index or sequence of its own (a while loop, a range),
        any variable it changes stands for the index and any sequence for the one iterated over."""
        out = []
        for tpl in self.e.cur_contract.loops:
            if it is None:
                tpl = tpl.replace("{@}", "{at_:int}")
            if "#" not in terms:
                tpl = re.sub(r"\{#:([^{}]*)\}", r"{seq_:\1*}", tpl)
            if tpl not in out:
                out.append(tpl)
        return out

    # ------------------------------------------------------------ lists that grow by one element per iteration
    IDENT = re.compile(r"[A-Za-z_]\w*")

    def accumulated(self):
        """list -> (counter, its initial value, element as a function of the counter): lists (terms of the environment)
        to which every iteration appends one element that only depends on a counter and on what the loop leaves alone."""
        e = self.e
        if getattr(self, "accs", None) is not None:
            return self.accs
        saved = (e.cur, e.loop_mode)
        e.cur = FnVC("accumulators", e.cur_contract)
        e.loop_mode = "cache" if saved[1] == "cache" else "probe"
        try:
            s0, it = self.head(self.mods, [])
            ends = [s for s, k, _ in self.body(s0.copy(), it) if k in ("next", "continue")]
        finally:
            e.cur, e.loop_mode = saved
        if not ends:
            return {}
        havoc = {t[1] for t in s0.trace[len(self.st.trace):] if t[0] == "decl"}
        t0, ti = self.terms(s0, it), self.terms(self.st, "0" if it is not None else None)
        ts = [self.terms(s, it) for s in ends]
        counters = [("@", it, "0")] if it is not None else []
        for p, (so, t, mod) in t0.items():
            if so == "int" and mod and p != "@" and p in ti and all(x.get(p, ("",) * 3)[1] in ("(%s + 1)" % t, "%s + 1" % t) for x in ts):
                counters.append((p, t, ti[p][1]))
        out = {}
        for p, (so, t, mod) in t0.items():
            if not (so.startswith("Seq<") and mod and p != "#" and p in ti):
                continue
            pieces = []
            for s, x in zip(ends, ts):
                new = x.get(p, ("", "", False))[1]
                pre = "%s.push(" % e.paren2(t)
                if not (new.startswith(pre) and new.endswith(")")):
                    break
                names, guards, ok = {}, [], True
                sub = e.bm.inliner(names)
                trace = s.trace[len(s0.trace):]
                for n, r in enumerate(trace):
                    nx = trace[n + 1] if n + 1 < len(trace) else ("", "")
                    if r[0] == "decl" and nx[0] == "fact" and nx[1].startswith(r[1] + " == "):
                        names[r[1]] = "(%s)" % sub(nx[1][len(r[1]) + 4:])
                    elif r[0] == "decl":
                        names[r[1]] = None
                        ok = False
                        havoc.add(r[1])
                        del names[r[1]]
                    elif r[0] == "fact" and r[1] is not None and not (n and trace[n - 1][0] == "decl" and r[1].startswith(trace[n - 1][1] + " == ")):
                        guards.append(sub(r[1]))
                pieces.append((guards, sub(new[len(pre):-1])))
            else:
                common = [g for g in pieces[0][0] if all(g in gs for gs, _ in pieces)]
                term = pieces[-1][1]
                for gs, x in reversed(pieces[:-1]):
                    if x != term:
                        term = "(if %s { %s } else { %s })" % (" && ".join("(%s)" % g for g in gs if g not in common) or "true", x, term)
                for c, ct, ci in counters:
                    used = set(self.IDENT.findall(term)) & havoc
                    if used <= {ct}:
                        fine = [[g for g in gs if set(self.IDENT.findall(g)) & havoc <= {ct} and g not in s0.facts] for gs, _ in pieces]
                        out[p] = (c, ci, ct, term, " || ".join("(%s)" % " && ".join("(%s)" % g for g in gs) for gs in fine) if all(fine) else "")
                        break
        return out

    def render_acc(self, what, path, s, it):
        if path not in self.accs:
            return None
        c, ci, ct, term, guard = self.accs[path]
        terms, first = self.terms(s, it), self.terms(self.st, "0" if it is not None else None)
        if path not in terms or path not in first or c not in terms:
            return None
        def at(t, k):
            return re.sub(r"\b%s\b" % re.escape(ct), k, t)
        n = "(%s - %s)" % (self.e.paren2(terms[c][1]), self.e.paren2(ci)) if ci != "0" else "(%s as int)" % terms[c][1]
        if what == "all":        # what held of every element so far
            if not guard:
                return None
            if re.search(r"\[\(*acc_k\)*\]|\w\((?:[^()]*, )?acc_k[,)]", at(guard, "acc_k")):
                return "forall|acc_k: int| #![auto] %s <= acc_k < %s ==> (%s)" % (ci, terms[c][1], at(guard, "acc_k"))
            # no term of the condition can trigger it: the element itself does
            k = "(acc_k - acc_b)" if ci == "0" else "(%s + acc_k - acc_b)" % self.e.paren2(ci)
            return "({ let acc_s = %s; let acc_b = (%s).len(); forall|acc_k: int| #![trigger acc_s[acc_k]] acc_b <= acc_k < acc_b + %s ==> (%s) })" % (
                terms[path][1], first[path][1], n, at(guard, k))
        elem = at(term, "acc_k" if ci == "0" else "(%s + acc_k)" % self.e.paren2(ci))
        before = first[path][1]
        before = "" if re.fullmatch(r"Seq::<.*>::empty\(\)", before) else "(%s) + " % before
        return "0 <= %s && (%s) =~= %sSeq::new(%s as nat, |acc_k: int| %s)" % (n, terms[path][1], before, n, elem)

    def step_hints(self, s, it):
        """The lemmas the contract names for an iteration of a while loop, on the state at its head."""
        if self.vi is not None or not self.e.cur_contract.steps:
            return
        terms = self.terms(s, it)
        for tpl in self.e.cur_contract.steps:
            for b in self.bindings(tpl, terms):
                t = self.render_inv(self.make(tpl, b), s, it)
                if t is not None:
                    s.hint(t)

    def bindings(self, tpl, terms):
        mvs = {}
        for m in MV.finditer(tpl):
            if m.group(1) not in "@#" and m.group(2):
                mvs[m.group(1)] = (m.group(2), bool(m.group(3)))
        opts = [[(nm, p) for p, (so, t, mod) in terms.items() if so == sort and (mod or star) and p not in "@#"]
                for nm, (sort, star) in mvs.items()]
        opts = [self.preferred(o) for o in opts]
        for combo in itertools.product(*opts):
            b = dict(combo)
            if len(set(b.values())) == len(b):
                yield b

    def preferred(self, options):
        """Only the variable a contract expects in this role, where the loop has one of that name."""
        want = self.e.cur_contract.prefer
        named = [o for o in options if want.get(o[0]) == o[1]]
        return named or options

    # ------------------------------------------------------------ termination measures
    def measures(self):
        out = []
        t = self.node.test if isinstance(self.node, ast.While) else None
        for tpl in getattr(self.e.cur_contract, "measures", ()):
            s, it = self.head(self.mods, [])
            terms = self.terms(s, it)
            mvs = {m.group(1): (m.group(2), m.group(3)) for m in MV.finditer(tpl) if m.group(2)}
            opts = [[(nm, p) for p, (so, _, mod) in terms.items() if so == sort] for nm, (sort, _) in mvs.items()]
            opts = [self.preferred(o) for o in opts]
            for combo in itertools.product(*opts):
                out.append(self.make(tpl, dict(combo)))
        if t is None:
            return out
        for a, op, b in self.comparisons():
            for m in (["py:(%s) - (%s)" % (b, a)] if op in (ast.Lt, ast.LtE, ast.NotEq) else []) + \
                    (["py:(%s) - (%s)" % (a, b)] if op in (ast.Gt, ast.GtE, ast.NotEq) else []):
                if all(m != o[0] for o in out):
                    out.append((m, None, None))
        for c in ast.walk(t):
            if isinstance(c, ast.Name):
                out.append(("py:" + c.id, None, None))
                out.append(("py:len(%s)" % c.id, None, None))
        return out

    def measure_term(self, m, s, it):
        if m[0].startswith("py:"):
            try:
                expr = ast.parse(m[0][3:], mode="eval").body
                outs = [(s1, v) for s1, v in self.e.ev(expr, s) if isinstance(v, VInt)]
            except (Unsupported, SyntaxError):
                return None
            return outs[0][1].t if len(outs) == 1 else None
        return self.render_inv(m, s, it)

    # ------------------------------------------------------------ execution with given invariants
    def execute(self, inv, measure, vc, final):
        e = self.e
        s0 = self.st.copy()
        for c in inv:
            t = self.render_inv(c, s0, "0")
            if t is not None:
                e.ob(s0, "loop invariant holds initially: " + c[0], t, line=self.line)
            else:
                e.ob(s0, "loop invariant holds initially: " + c[0], "false", line=self.line)
        vc.paths.append((list(s0.trace), "loop-init"))
        saved = self.st
        # after the loop the initial obligations are facts of the prefix
        st, it = self.head_from(s0, inv)
        self.step_hints(st, it)
        m0 = self.measure_term(measure, st, it) if measure else None
        for s, k, p in self.body(st.copy(), it):
            if k in ("next", "continue"):
                s = s.copy()
                it2 = "(%s + 1)" % it if it is not None else None
                self.check_complete(st, s)
                for c in inv:
                    t = self.render_inv(c, s, it2)
                    e.ob(s, "loop invariant preserved: " + c[0], t if t is not None else "false", line=self.line)
                if self.vi is None:
                    if m0 is None:
                        e.ob(s, "termination of the loop", "false", line=self.line)
                    else:
                        m1 = self.measure_term(measure, s, it2)
                        e.ob(s, "termination of the loop", "0 <= (%s) && (%s) < (%s)" % (m0, m1, m0) if m1 else "false",
                             line=self.line)
                vc.paths.append((s.trace, "loop-body"))
            elif k == "break":
                yield s, "next", None
            else:
                yield s, k, p
        for s, k, p in self.exits(st.copy(), it):
            yield s, k, p

    def check_complete(self, a, b):
        """The discovered set covers what this execution of the body modified."""
        new = {}
        self.diff(a, b, new)
        for m, ty in new.items():
            if m not in self.mods:
                raise Unsupported("the loop modifies more than was discovered", self.node)
            if ty is not None and self.mods[m] is not None and repr(self.join(self.mods[m], ty)) != repr(self.mods[m]):
                raise Unsupported("the loop changes a type", self.node)

    def head_from(self, s0, inv):
        saved = self.st
        self.st = s0
        try:
            return self.head(self.mods, inv)
        finally:
            self.st = saved

    # ------------------------------------------------------------ Houdini
    def houdini(self, cands):
        e = self.e
        if e.loop_mode == "probe" or e.prover is None:
            return [], (self.measures() or [None])[0]
        ms = self.measures()
        live = list(cands)
        saved = (e.cur, e.loop_mode)
        mlive = list(ms)
        for rnd in range(30):
            e.cur = FnVC("houdini", e.cur_contract)
            e.loop_mode = "probe"
            obs, paths = self.houdini_paths(live, mlive, rnd == 0)
            e.cur, e.loop_mode = saved
            if not paths:
                break
            failed = e.prover(paths)
            if failed is None:
                raise Unsupported("invariant inference got no answer", self.node)
            bad = set(obs[o] for o in failed if o in obs)
            if __import__("os").environ.get("PYV_HOUD"): print("houdini", rnd, sorted(bad))
            if not bad:
                break
            live = [c for c in live if c[0] not in bad]
            mlive = [m for m in mlive if m[0] not in bad]
        return live, (mlive[0] if mlive else None)

    def houdini_paths(self, live, mlive, with_init):
        e = self.e
        obs = {}
        paths = []

        def addob(s, c, t):
            if t in s.facts or t == "true":
                return
            e.obn += 1
            obs[e.obn] = c[0]
            s.trace.append(("ob", e.obn, c[0], t, self.line))
        s0 = self.st.copy()
        s0.trace = [t if t[0] != "ob" else ("fact", t[3]) for t in s0.trace]
        for c in live:
            t = self.render_inv(c, s0, "0")
            addob(s0, c, t if t is not None else "false")
        paths.append((s0.trace, "init", "independent"))
        st, it = self.head(self.mods, live)
        self.step_hints(st, it)
        st.trace = [t if t[0] != "ob" else ("fact", t[3]) for t in st.trace]
        mark = len(st.trace)
        m0 = {m[0]: self.measure_term(m, st, it) for m in mlive}
        for s, k, p in self.body(st.copy(), it):
            if k not in ("next", "continue"):
                continue
            s = s.copy()
            s.trace = [t if t[0] != "ob" else ("fact", t[3]) for t in s.trace]
            it2 = "(%s + 1)" % it if it is not None else None
            for c in live:
                t = self.render_inv(c, s, it2)
                addob(s, c, t if t is not None else "false")
            for m in mlive:
                a, b = m0[m[0]], self.measure_term(m, s, it2)
                if a == b:
                    a = None
                addob(s, m, "0 <= (%s) && (%s) < (%s)" % (a, b, a) if a and b else "false")
            paths.append((s.trace, "body", "independent"))
        return obs, paths

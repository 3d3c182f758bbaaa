"""Loads /repo's current source: modules, classes, functions, name resolution."""
import ast
import builtins
import os

from .values import *

REPO = os.environ.get("PYV_REPO", "/repo")


class ClassInfo:
    def __init__(self, name, node, module, outer=None):
        self.name, self.node, self.module, self.outer = name, node, module, outer
        self.methods = {}
        self.setters = {}
        self.deleters = {}
        self.props = set()
        self.static = set()
        self.clsm = set()
        self.attrs = {}
        self.inner = {}
        self.bases = []


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.funcs = {}
        self.classes = {}
        self.imports = {}
        self.assigns = {}


def own_bytearrays(fn):
    """A local bytearray no one else can see is built like an immutable string:
    x.append(e)  becomes  x = x + bytes([e]),  x += e  becomes  x = x + e."""
    params = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
    inner = set()
    for n in ast.walk(fn):
        if n is not fn and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            inner.update(x.id for x in ast.walk(n) if isinstance(x, ast.Name))
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            inner.update(n.names)
    stored = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)} | params
    if stored & {"bytes", "bytearray", "len"} or any(isinstance(n, ast.Try) and n.finalbody for n in ast.walk(fn)):
        return
    made, fine, builds = set(), set(), []
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) \
                and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "bytearray":
            made.add(n.targets[0].id)
            fine.add(id(n.targets[0]))
        elif isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and isinstance(n.target, ast.Name):
            fine.add(id(n.target))
            builds.append(n)
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) \
                and n.value.func.attr == "append" and isinstance(n.value.func.value, ast.Name) and len(n.value.args) == 1 \
                and not n.value.keywords and not isinstance(n.value.args[0], ast.Starred):
            fine.add(id(n.value.func.value))
            builds.append(n)
        elif isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id in ("bytes", "len")
                                          or isinstance(n.func, ast.Attribute) and n.func.attr == "hash_function"):
            fine.update(id(a) for a in n.args)
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
            fine.add(id(n.value))
        elif isinstance(n, ast.Return) and n.value is not None:
            fine.add(id(n.value))
    made -= params | inner
    made -= {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and id(x) not in fine}
    new = {}
    for n in builds:
        x = n.target.id if isinstance(n, ast.AugAssign) else n.value.func.value.id
        if x in made:
            e = n.value if isinstance(n, ast.AugAssign) else ast.Call(
                ast.Name("bytes", ast.Load()), [ast.List([n.value.args[0]], ast.Load())], [])
            a = ast.Assign([ast.Name(x, ast.Store())], ast.BinOp(ast.Name(x, ast.Load()), ast.Add(), e))
            new[id(n)] = ast.fix_missing_locations(ast.copy_location(a, n))
    for n in ast.walk(fn):
        for field in ("body", "orelse", "finalbody"):
            block = getattr(n, field, None)
            if isinstance(block, list):
                block[:] = [new.get(id(s), s) for s in block]


class Matches(ast.NodeTransformer):
    """`match` statements as chains of `if`.  Patterns that cannot be put that way stay, and are unsupported."""

    def visit_Match(self, n):
        self.generic_visit(n)
        subject = "match@%d@%d" % (n.lineno, n.col_offset)
        try:
            chain, last = [], None
            for c in n.cases:
                tests, binds = self.pattern(c.pattern, ast.Name(subject, ast.Load()))
                if c.guard is not None:
                    if {x.id for x in ast.walk(c.guard) if isinstance(x, ast.Name)} & {b for b, _ in binds} or \
                            any(isinstance(x, ast.NamedExpr) for x in ast.walk(c.guard)):
                        return n
                    tests = tests + [c.guard]
                body = [ast.Assign([ast.Name(b, ast.Store())], e) for b, e in binds] + c.body
                test = ast.Constant(True) if not tests else tests[0] if len(tests) == 1 else ast.BoolOp(ast.And(), tests)
                branch = [ast.If(test, body, [])] if tests else body
                if last is None:
                    chain = branch
                else:
                    last.orelse = branch
                if not tests:
                    break
                last = branch[0]
        except NotImplementedError:
            return n
        out = [ast.Assign([ast.Name(subject, ast.Store())], n.subject)] + chain
        for x in out:
            for y in ast.walk(x):
                if "lineno" in getattr(y, "_attributes", ()) and not hasattr(y, "lineno"):
                    ast.copy_location(y, n)
        return out

    def pattern(self, p, e):
        """Tests and bindings of a pattern on an expression that may be read many times."""
        if isinstance(p, ast.MatchValue):
            return [ast.Compare(e, [ast.Eq()], [p.value])], []
        if isinstance(p, ast.MatchSingleton):
            return [ast.Compare(e, [ast.Is()], [ast.Constant(p.value)])], []
        if isinstance(p, ast.MatchAs):
            tests, binds = self.pattern(p.pattern, e) if p.pattern is not None else ([], [])
            return tests, binds + ([(p.name, e)] if p.name is not None else [])
        if isinstance(p, ast.MatchOr):
            alts = [self.pattern(q, e) for q in p.patterns]
            if any(b or not t for t, b in alts):
                raise NotImplementedError
            return [ast.BoolOp(ast.Or(), [t[0] if len(t) == 1 else ast.BoolOp(ast.And(), t) for t, _ in alts])], []
        if isinstance(p, ast.MatchSequence) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
            tests = [ast.Call(ast.Name("isinstance", ast.Load()), [e, ast.Tuple([
                ast.Name("tuple", ast.Load()), ast.Name("list", ast.Load())], ast.Load())], []),
                ast.Compare(ast.Call(ast.Name("len", ast.Load()), [e], []), [ast.Eq()], [ast.Constant(len(p.patterns))])]
            binds = []
            for i, q in enumerate(p.patterns):
                t, b = self.pattern(q, ast.Subscript(e, ast.Constant(i), ast.Load()))
                tests, binds = tests + t, binds + b
            return tests, binds
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_attrs:
            return [ast.Call(ast.Name("isinstance", ast.Load()), [e, p.cls], [])], []
        raise NotImplementedError


class World:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.src = os.path.join(self.repo, "src", "pymt")
        self.modules = {}
        self.classes = {}
        self.functions = {}  # qualname -> VFunc
        self.files = {}
        self.unsound = []
        self.multi = set()
        for m, p in self.find_modules().items():
            self.load(m, os.path.join(self.src, p))
        self.survey()

    def find_modules(self):
        out = {}
        for d, dirs, files in os.walk(self.src):
            rel = os.path.relpath(d, self.src)
            if rel.split(os.sep)[0] in ("tests", "__pycache__", "examples"):
                continue
            for f in files:
                if not f.endswith(".py"):
                    continue
                r = os.path.normpath(os.path.join(rel, f))
                name = r[:-3].replace(os.sep, ".")
                if name.endswith("__init__"):
                    name = name[: -len("__init__")].rstrip(".") or "__pkg__"
                out[name] = r
        return out

    def load(self, name, path):
        text = open(path, newline="").read()
        self.files[name] = (path, text)
        tree = Matches().visit(ast.parse(text))
        m = Module(name, path)
        m.is_pkg = os.path.basename(path) == "__init__.py"
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.late_binding(n)
                own_bytearrays(n)
        self.modules[name] = m
        self.scan(tree.body, m)

    # ------------------------------------------------------------ dynamic features
    def survey(self):
        """Names that code anywhere in the package may rebind behind the back of the front end."""
        self.stored_attrs, self.class_stores, self.rebound = set(), set(), set()
        self.self_stores, self.other_stores = {}, set()     # attribute -> classes storing it on self / stored otherwise
        for name, (path, text) in self.files.items():
            self.survey_stores(ast.parse(text), None, None)
        for name, (path, text) in self.files.items():
            tree = ast.parse(text)
            called = {id(n.func) for n in ast.walk(tree) if isinstance(n, ast.Call)}
            for n in ast.walk(tree):
                if isinstance(n, ast.Global):
                    self.rebound.update(n.names)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    self.stored_attrs.add(n.attr)
                    if not (isinstance(n.value, ast.Name) and n.value.id not in self.classes and n.value.id != "cls"):
                        if not isinstance(n.value, ast.Attribute) or n.value.attr == "__class__":
                            self.class_stores.add(n.attr)
                elif isinstance(n, ast.Name) and n.id in ("setattr", "delattr", "vars", "globals", "exec", "eval"):
                    self.unsound.append("%s uses %s" % (name, n.id))
                elif isinstance(n, ast.Attribute) and (n.attr == "__setattr__" or n.attr == "__dict__" and id(n) not in called):
                    self.unsound.append("%s uses %s" % (name, n.attr))

    def only_read(self, name):
        """Is every use of the name in the package a membership test, an iteration or an element read?"""
        for path, text in self.files.values():
            tree = ast.parse(text)
            fine = set()
            for n in ast.walk(tree):
                if isinstance(n, ast.Compare):
                    fine.update(id(c) for o, c in zip(n.ops, n.comparators) if isinstance(o, (ast.In, ast.NotIn)))
                elif isinstance(n, (ast.For, ast.comprehension)):
                    fine.add(id(n.iter))
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                    fine.add(id(n.value))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("len", "sorted", "tuple", "list"):
                    fine.update(id(a) for a in n.args)
            for n in ast.walk(tree):
                if isinstance(n, ast.Attribute) and n.attr == name or isinstance(n, ast.Name) and n.id == name:
                    if id(n) not in fine and not (isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)):
                        return False
        return True

    def survey_stores(self, n, cls, me):
        """Where instance attributes are stored: on the own object of a class, or elsewhere."""
        if isinstance(n, ast.ClassDef):
            cls, me = n.name, None
        elif isinstance(n, (ast.FunctionDef, ast.Lambda)):
            ps = n.args.posonlyargs + n.args.args
            me = ps[0].arg if cls is not None and me is None and ps else None
            if any(isinstance(x, ast.Name) and x.id == me and isinstance(x.ctx, ast.Store) for x in ast.walk(n)):
                me = None
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
            if me is not None and isinstance(n.value, ast.Name) and n.value.id == me:
                self.self_stores.setdefault(n.attr, set()).add(cls)
            else:
                self.other_stores.add(n.attr)
        for c in ast.iter_child_nodes(n):
            self.survey_stores(c, cls, me)

    def late_binding(self, fn):
        """Inner functions see later assignments to the variables they capture: not modelled."""
        inner, stores, loops = [], [], []

        def walk(n, inl):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    inner.append((c, inl))
                    if not isinstance(c, ast.Lambda):
                        stores.append((c.name, c.lineno, inl, c))
                    continue
                if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                    stores.append((c.id, c.lineno, inl, None))
                if isinstance(c, ast.ExceptHandler) and c.name:
                    stores.append((c.name, c.lineno, inl, None))
                walk(c, inl + (c,) if isinstance(c, (ast.For, ast.While)) else inl)
        walk(fn, ())
        for f, inl in inner:
            body = f.body if isinstance(f.body, list) else [f.body]
            used = {x.id for b in body for x in ast.walk(b) if isinstance(x, ast.Name)}
            a = f.args
            used -= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
            for nm, line, sl, own in stores:
                if own is not f and nm in used and (line >= f.lineno or set(inl) & set(sl)):
                    f.pyv_unsupported = "inner function captures %s, assigned later" % nm

    def scan(self, body, m):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                if n.decorator_list:
                    n.pyv_unsupported = "decorator " + ast.unparse(n.decorator_list[0])
                m.funcs[n.name] = n
                q = n.name
                if q not in self.functions or self.functions[q].module is m:
                    self.functions[q] = VFunc(n, m, None, q)
            elif isinstance(n, ast.ClassDef):
                self.scan_class(n, m, None)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        m.imports[a.asname] = ("ext", a.name)
                    else:
                        m.imports[a.name.split(".")[0]] = ("ext", a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    nm = a.asname or a.name
                    if n.level or (n.module or "").split(".")[0] == "pymt":
                        base = m.name.split(".")
                        if n.level:
                            if not m.is_pkg:
                                base = base[:-1]
                            if m.name == "__pkg__":
                                base = []
                            base = base[: len(base) - (n.level - 1)] if n.level > 1 else base
                            mod = ".".join(base + ([n.module] if n.module else []))
                        else:
                            mod = ".".join(n.module.split(".")[1:])
                        m.imports[nm] = ("repo", mod, a.name)
                    else:
                        m.imports[nm] = ("ext", n.module + "." + a.name)
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                tg = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in tg:
                    if isinstance(t, ast.Name) and n.value is not None:
                        if t.id in m.assigns:
                            self.multi.add((m.name, t.id))
                        m.assigns[t.id] = n.value
                    elif not isinstance(t, ast.Name):
                        self.unsound.append("%s assigns %s at module level" % (m.name, ast.unparse(t)))
            elif isinstance(n, (ast.Pass, ast.Assert)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                pass
            elif isinstance(n, ast.Try):
                # imports with a fallback: the last binding that is importable is the
                # standard-library one in this sandbox (django is not installed)
                self.scan(n.body, m)
                for h in n.handlers:
                    self.scan(h.body, m)
            elif isinstance(n, ast.If):
                self.scan_if(n, m)
            else:
                self.unsound.append("%s: module-level statement %s" % (m.name, ast.unparse(n)[:80]))

    def scan_if(self, n, m):
        src = ast.unparse(n.test)
        if "__name__" in src or "version_info" in src or "TYPE_CHECKING" in src:
            self.scan(n.orelse, m)
        else:
            self.scan(n.body, m)
            self.scan(n.orelse, m)

    def scan_class(self, n, m, outer):
        c = ClassInfo(n.name, n, m, outer)
        q = n.name
        if outer is None:
            m.classes[n.name] = c
        else:
            outer.inner[n.name] = c
        self.classes[q] = c
        for b in n.bases:
            c.bases.append(ast.unparse(b))
        if n.decorator_list or n.keywords:
            self.unsound.append("class %s has a decorator or keyword" % q)
        for s in n.body:
            if isinstance(s, ast.FunctionDef):
                decs = [ast.unparse(d) for d in s.decorator_list]
                if any(d.endswith(".setter") for d in decs):
                    c.setters[s.name] = s
                    continue
                if any(d.endswith(".deleter") for d in decs):
                    c.deleters[s.name] = s
                    continue
                c.methods[s.name] = s
                if s.name in ("__getattr__", "__getattribute__", "__setattr__", "__delattr__", "__new__", "__init_subclass__",
                              "__set_name__", "__bool__", "__class_getitem__"):
                    self.unsound.append("class %s defines %s" % (q, s.name))
                if "property" in decs:
                    c.props.add(s.name)
                if "staticmethod" in decs:
                    c.static.add(s.name)
                if "classmethod" in decs:
                    c.clsm.add(s.name)
                extra = [d for d in decs if d not in ("property", "staticmethod", "classmethod", "abstractmethod")]
                if extra:
                    c.methods[s.name].pyv_unsupported = "decorator " + extra[0]
                qq = n.name + "." + s.name
                self.functions[qq] = VFunc(s, m, n.name, qq, is_static=s.name in c.static)
            elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                tg = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in tg:
                    if isinstance(t, ast.Name) and s.value is not None:
                        c.attrs[t.id] = s.value
                        # alias of a method: name = other
                        if isinstance(s.value, ast.Name) and s.value.id in c.methods:
                            c.methods[t.id] = c.methods[s.value.id]
                            qq = n.name + "." + t.id
                            self.functions[qq] = VFunc(c.methods[t.id], m, n.name, qq,
                                                       is_static=s.value.id in c.static)
            elif isinstance(s, ast.ClassDef):
                self.scan_class(s, m, c)
            elif not (isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                self.unsound.append("class %s: statement %s" % (q, ast.unparse(s)[:80]))

    # ------------------------------------------------------------ hierarchy
    def base_names(self, cname):
        c = self.classes.get(cname)
        if c is None:
            return []
        return [b.split(".")[-1] for b in c.bases]

    def mro(self, cname):
        """C3 linearisation over repository classes (external bases at the end)."""
        if cname not in self.classes:
            return [cname]
        seqs = []
        bs = self.base_names(cname)
        for b in bs:
            seqs.append(list(self.mro(b)))
        seqs.append(list(bs))
        out = [cname]
        while any(seqs):
            seqs = [s for s in seqs if s]
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported("no MRO for " + cname)
            out.append(h)
            for s in seqs:
                if s and s[0] == h:
                    del s[0]
        return out

    def find_method(self, cname, meth, after=None):
        mro = self.mro(cname)
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for k in mro:
            c = self.classes.get(k)
            if c and meth in c.methods:
                return self.functions[k + "." + meth], c
        return None, None

    def is_subclass(self, cname, target):
        if cname == target or target == "object":
            return True
        return target in self.mro(cname)

    # exception hierarchy ------------------------------------------------
    EXT_EXC = {
        "DecodingError": "RLPException", "DeserializationError": "RLPException",
        "ListDeserializationError": "DeserializationError",
        "SerializationError": "RLPException", "EncodingError": "RLPException",
        "RLPException": "Exception",
        "JSONDecodeError": "ValueError",
    }

    def exc_is(self, name, target):
        if name == "*":
            return None
        if name == target:
            return True
        if name in self.classes:
            return any(self.exc_is(b, target) for b in self.base_names(name))
        if name in self.EXT_EXC:
            return self.exc_is(self.EXT_EXC[name], target)
        a, b = getattr(builtins, name, None), getattr(builtins, target, None)
        if isinstance(a, type) and isinstance(b, type):
            return issubclass(a, b)
        return False

"""Contract descriptors (sidecar specifications)."""
import re

from .values import parse_ty


class ClassSpec:
    def __init__(self, fields, inv=None, view=None, sort=None, bases=(), cls=None, rebind=(), may_alias=None):
        self.rebind = tuple(rebind)        # fields a method may replace by another object
        self.may_alias = dict(may_alias or {})   # list field -> fields whose elements may be that list
        self.cls = cls              # the class this describes, when the name is another
        self.fields = {k: parse_ty(v) for k, v in fields.items()}
        self.inv = inv
        self.view = view
        self.sort = sort
        self.bases = bases


class UnionSpec:
    """Tagged union: sort and cases (guard template, type, projection template, inject)."""

    def __init__(self, sort, cases):
        self.sort = sort
        self.cases = [(g, parse_ty(t), p, inj) for g, t, p, inj in cases]


class Ret:
    def __init__(self, ty="none", ensures=None, modifies=None, value=None, alias=None, hints=(), shares=None):
        self.ty = parse_ty(ty)
        self.ensures = dict(ensures or {})
        self.modifies = modifies
        self.value = value
        self.alias = alias
        self.hints = list(hints)
        self.shares = dict(shares or {})   # path of an object after the call -> parameter it is


class Rais:
    def __init__(self, classes=("*",), ensures=None, modifies=()):
        self.classes = tuple(classes)
        self.ensures = dict(ensures or {})
        self.modifies = modifies


class Contract:
    def __init__(self, qual, params, returns=None, raises=None, requires=None, modifies=(),
                 decreases=None, rec=None, entry=(), loops=(), variant="", ghost=None,
                 props=(), exit=(), trusted=None, value=None, ret="none", doc="", ext_kinds=None,
                 after_calls=None, slots=None, let=None, opaque=None, noreads=(), determined=None, exact=False, measures=(), steps=(), prefer=None, open=()):
        self.qual = qual
        self.params = {k: parse_ty(v) for k, v in params.items()}
        if returns is None:
            returns = [Ret(ret, value=value)]
        self.returns = returns if isinstance(returns, list) else [returns]
        self.raises = list(raises or [])
        self.requires = dict(requires or {})
        self.modifies = tuple(modifies)
        self.decreases = decreases
        self.rec = rec
        self.entry = list(entry)      # lemma calls / facts proved by the library, at entry
        self.exit = list(exit)        # lemma calls at normal exit (before the ensures)
        self.open = tuple(open)       # objects whose class invariant may be broken at entry and at exit
        self.loops = list(loops)      # invariant templates
        self.measures = list(measures)  # termination measures of loops, over the variables of the loop
        self.steps = list(steps)      # lemma calls at the start of an iteration of a while loop
        self.prefer = dict(prefer or {})  # the variable names expected in the roles of loop templates
        self.variant = variant
        self.ghost = dict(ghost or {})
        self.props = tuple(props)
        self.trusted = trusted
        # outcome as a function of what may be read (callers may use that it is one; noreads shows it)
        self.determined = determined
        self.exact = exact            # about this very function: a class may have another in its place
        self.noreads = tuple(noreads)   # fields the outcome does not depend on
        self.doc = doc
        self.after_calls = dict(after_calls or {})
        self.let = dict(let or {})
        for r in self.returns:
            if r.modifies is None:
                r.modifies = self.modifies

    @property
    def name(self):
        return self.qual + ("#" + self.variant if self.variant else "")


class Spec:
    def __init__(self):
        self.classes = {}
        self.unions = {}
        self.contracts = {}
        self.inline = set()
        self.ext = {}
        self.assumptions = {}

    def add(self, c):
        self.contracts.setdefault(c.qual, []).append(c)
        return c

    def by_name(self, name):
        q, _, v = name.partition("#")
        for c in self.contracts.get(q, []):
            if c.variant == v:
                return c
        raise KeyError(name)


TPL = re.compile(r"\$([A-Za-z_]\w*)('?)((?:\.(?:[A-Za-z_]\w*|\d+)(?![\w(]))*)")

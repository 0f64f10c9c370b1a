"""Symbolic values, symbolic documents and the solver interface of the verifier.

Values of the verified program are either native Python values or one of the classes
below.  Booleans that guard something are Python bools or z3 Bool terms ("guards").
"""
import z3

from . import docs
from .docs import (BOOL, CHILD, COLOR, ENT, GID, INT, KIND, NUM, PATH, POS, SEQ, STR, TEXT,
                   MapOf, Rec, Rows, SeqOf, Whole)

StrS = z3.DeclareSort("Str")       # texts: only equality, literals are pairwise distinct
PathS = z3.DeclareSort("Path")     # file system paths: free algebra of join/parent/...
ColorS = z3.DeclareSort("ColorText")   # a color text without its optional '#'
OpaqS = z3.DeclareSort("Opaque")

I, R, B, S = "I", "R", "B", "S"
SORT = {I: z3.IntSort(), R: z3.RealSort(), B: z3.BoolSort(), S: StrS}

_lits = {}
STR_AXIOM = []      # distinctness of the literals seen so far


def lit(s):
    """The term of a text literal."""
    if s not in _lits:
        _lits[s] = z3.Const("lit!%d!%s" % (len(_lits), "".join(c if c.isalnum() else "_" for c in s)[:12]), StrS)
    return _lits[s]


def literals():
    return dict(_lits)


def axioms():
    out = []
    if len(_lits) > 1:
        out.append(z3.Distinct(*_lits.values()))
    return out


# ------------------------------------------------------------------------- guards
def And(*a):
    out = []
    for x in a:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*a):
    out = []
    for x in a:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def Implies(a, b):
    return Or(Not(a), b)


def zb(g):
    return z3.BoolVal(g) if isinstance(g, bool) else g


def Eq(a, b):
    """Equality of two z3 terms of one sort, simplified when syntactic."""
    if a.eq(b):
        return True
    if z3.is_int_value(a) and z3.is_int_value(b):
        return a.as_long() == b.as_long()
    if z3.is_rational_value(a) and z3.is_rational_value(b):
        return a.as_fraction() == b.as_fraction()
    return a == b


# ------------------------------------------------------------------------- values
class Sc:
    """A symbolic scalar."""
    __slots__ = ("s", "t", "src", "part")

    def __init__(self, s, t, src=None):
        self.s, self.t, self.src = s, t, src
        self.part = None         # (packed integer, {its byte: place}): the sum of byte * 256 ** place

    def __repr__(self):
        return "<%s %s>" % (self.s, self.t)


class Text:
    """Base of structured symbolic texts (their type is str)."""


class NumT(Text):
    """The text of a number: sort I, R or B ('1'/'0'); `pad`: surrounded by white space."""

    def __init__(self, v, pad=False):
        self.v, self.pad = v, pad

    def __repr__(self):
        return "<text of %r%s>" % (self.v, " padded" if self.pad else "")


class JoinT(Text):
    """sep.join(images of a sequence), possibly with white space around pieces and ends."""

    def __init__(self, sep, seq, fn, pad=False):
        self.sep, self.seq, self.fn, self.pad = sep, seq, fn, pad


class TupT(Text):
    """sep.join of finitely many pieces."""

    def __init__(self, sep, pieces):
        self.sep, self.pieces = sep, pieces


class B64T(Text):
    def __init__(self, ints, comp):
        self.ints, self.comp = ints, comp


class BlankT(Text):
    """Non-empty white space."""


class CatT(Text):
    """Concatenation of texts (only compared structurally)."""

    def __init__(self, parts):
        self.parts = parts


class ContentT(Text):
    """The whole text of a file: `lead` white space may be in front of the content."""

    def __init__(self, file, lead=True):
        self.file, self.lead = file, lead


class OpaqueT(Text):
    """Some text nobody looks at (messages)."""

    def __init__(self, why=""):
        self.why = why


class CharStr(Text):
    """An arbitrary text given by its characters (code points) and an unknown rest."""

    def __init__(self, chars, rest=None):
        self.chars, self.rest = list(chars), rest   # rest: None or a z3 Int length >= 1


class CharV(Text):
    """One character of a CharStr."""

    def __init__(self, t):
        self.t = t


class BytesV:
    """The bytes of packed little-endian 32 bit integers, possibly compressed."""

    def __init__(self, ints, comp):
        self.ints, self.comp = ints, comp


class PathV:
    def __init__(self, t, how=None):
        self.t, self.how = t, how

    def __repr__(self):
        return "<path %s>" % self.t


class NumLike:
    """A JSON number whose text is `text` (only str() and isinstance look at it)."""

    def __init__(self, text, isint):
        self.text, self.isint = text, isint


class Tup:
    """A tuple; `cls` is the NamedTuple class or tuple."""

    def __init__(self, cls, items):
        self.cls, self.items = cls, tuple(items)

    def __repr__(self):
        return "%s%r" % (self.cls.__name__, self.items)


class U:
    """A union: [(guard, value)], guards exclusive and exhaustive under the path condition."""

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "U%r" % (self.alts,)


class Ref:
    """A reference to a heap record."""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "&%d" % self.n

    def __eq__(self, o):
        return isinstance(o, Ref) and o.n == self.n

    def __hash__(self):
        return hash(("Ref", self.n))


class Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = Undef()


class Unsupported(Exception):
    """The verifier does not model this; the obligation stays undecided."""


def sort_of(v):
    if isinstance(v, bool):
        return B
    if isinstance(v, int):
        return I
    if isinstance(v, float):
        return R
    if isinstance(v, str):
        return S
    if isinstance(v, Sc):
        return v.s
    return None


def real_val(f):
    import fractions
    fr = fractions.Fraction(f)
    return z3.RealVal("%d/%d" % (fr.numerator, fr.denominator))


def term(v, s=None):
    """z3 term of a scalar, coerced to sort s (I -> R only)."""
    if isinstance(v, bool):
        t, k = z3.BoolVal(v), B
    elif isinstance(v, int):
        t, k = z3.IntVal(v), I
    elif isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float")
        t, k = real_val(v), R
    elif isinstance(v, str):
        t, k = lit(v), S
    elif isinstance(v, Sc):
        t, k = v.t, v.s
    else:
        raise Unsupported("not a scalar: %r" % (v,))
    if s is None or s == k:
        return t
    if (k, s) == (I, R):
        return z3.RealVal(t.as_long()) if z3.is_int_value(t) else z3.ToReal(t)
    raise Unsupported("coercion %s->%s" % (k, s))


def ite_term(g, a, b):
    if a.eq(b):
        return a
    return z3.If(g, a, b)


def same(a, b):
    """Certainly the same value (no solver)."""
    if a is b:
        return True
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.n == b.n
    if isinstance(a, Sc) and isinstance(b, Sc):
        return a.s == b.s and a.t.eq(b.t)
    if isinstance(a, PathV) and isinstance(b, PathV):
        return a.t.eq(b.t)
    if type(a) is type(b) and isinstance(a, (bool, int, float, str, type(None))):
        return a == b
    if isinstance(a, Tup) and isinstance(b, Tup):
        return a.cls is b.cls and len(a.items) == len(b.items) and all(map(same, a.items, b.items))
    if isinstance(a, NumT) and isinstance(b, NumT):
        return a.pad == b.pad and same(a.v, b.v)
    if isinstance(a, (BytesV, B64T)) and type(a) is type(b):
        return a.comp == b.comp and a.ints.key == b.ints.key
    if isinstance(a, Whole) and isinstance(b, Whole):
        return whole_key(a) == whole_key(b)
    if isinstance(a, U) and isinstance(b, U) and len(a.alts) == len(b.alts):
        return all(g1 is g2 or (not isinstance(g1, bool) and not isinstance(g2, bool) and g1.eq(g2))
                   for (g1, _), (g2, _) in zip(a.alts, b.alts)) and all(
            same(v1, v2) for (_, v1), (_, v2) in zip(a.alts, b.alts))
    return False


def arg_key(x):
    if isinstance(x, PathV):
        return ("path", x.t.sexpr())
    if isinstance(x, Sc):
        return ("sc", x.s, x.t.sexpr())
    if isinstance(x, (bool, int, float, str, type(None))):
        return (type(x).__name__, x)
    if isinstance(x, U):
        return ("u", tuple((str(g), arg_key(v)) for g, v in x.alts))
    if hasattr(x, "key"):
        return ("doc", x.key)
    return ("id", id(x))


def whole_key(w):
    return (w.spec.__name__, w.d.key, tuple(arg_key(a) for a in w.args))


def alts_of(v):
    return v.alts if isinstance(v, U) else [(True, v)]


def merge(g, a, b):
    """The value that is a under g and b otherwise."""
    if g is True:
        return a
    if g is False:
        return b
    if same(a, b):
        return a
    if isinstance(a, (U,)) or isinstance(b, (U,)):
        alts = [(And(g, ga), va) for ga, va in alts_of(a)] + [(And(Not(g), gb), vb) for gb, vb in alts_of(b)]
        return union(alts)
    r = merge1(g, a, b)
    return U([(g, a), (Not(g), b)]) if r is None else r


def merge1(g, a, b):
    """A single value for both, or None."""
    if same(a, b):
        return a
    sa, sb = sort_of(a), sort_of(b)
    if sa and sb:
        if sa == sb and sa != S:
            return Sc(sa, ite_term(g, term(a), term(b)))
        if sa == sb == S and isinstance(a, Sc) and isinstance(b, Sc):
            return Sc(S, ite_term(g, a.t, b.t))
        if {sa, sb} == {I, R}:
            return Sc(R, ite_term(g, term(a, R), term(b, R)))
        return None
    if isinstance(a, Tup) and isinstance(b, Tup) and a.cls is b.cls and len(a.items) == len(b.items):
        return Tup(a.cls, [merge(g, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, NumT) and isinstance(b, NumT):
        v = merge1(g, a.v, b.v) if sort_of(a.v) == sort_of(b.v) else None
        if v is not None:
            return NumT(v, a.pad or b.pad)
    if isinstance(a, PathV) and isinstance(b, PathV) and a.how is None and b.how is None:
        return PathV(ite_term(g, a.t, b.t))
    return None


def union(alts):
    """Normalised union of guarded values: equal ones are joined, scalars of one sort merged."""
    out = []
    for g, v in alts:
        if g is False:
            continue
        for i, (g2, v2) in enumerate(out):
            if same(v, v2):
                out[i] = (Or(g2, g), v2)
                break
            m = merge1(zb(g), v, v2)
            if m is not None:
                out[i] = (Or(g2, g), m)
                break
        else:
            out.append((g, v))
    if not out:
        raise Unsupported("empty union")
    if len(out) == 1:
        return out[0][1]
    return U(out)


def case_of(alts):
    """Union of exclusive, exhaustive alternatives."""
    return union(alts)


# ------------------------------------------------------------------------- documents
_funs = {}


def fun(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _funs:
        _funs[k] = z3.Function(name, *sorts) if len(sorts) > 1 else None
        if len(sorts) == 1:
            _funs[k] = z3.Const(name, sorts[0])
    return _funs[k]


def app(name, idx, sort):
    if not idx:
        return fun(name, sort)
    return fun(name, *([z3.IntSort()] * len(idx) + [sort]))(*idx)


INT_SEQS = {}       # (name of its function, indices) -> sequence of integers


class SeqV:
    """A document sequence (of entities or of integers)."""

    def __init__(self, d, name):
        self.d, self.name = d, name
        self.elem = SEQ[(d.ent, name)]
        self.path = d.path + "." + name
        self.idx = d.idx
        self.key = ("seq", self.path, tuple(t.sexpr() for t in self.idx))
        self.n = app("len:" + self.path, self.idx, z3.IntSort())
        self.memo = {}
        if self.elem == INT:
            INT_SEQS["int:" + self.path, self.key[2]] = self

    def at(self, i):
        k = i.sexpr()
        if k not in self.memo:
            if self.elem == INT:
                self.memo[k] = Sc(I, app("int:" + self.path, self.idx + (i,), z3.IntSort()))
            else:
                self.memo[k] = SymDoc(self.elem, self.path, self.idx + (i,), self.d, self.name)
        return self.memo[k]

    def facts(self):
        out = [self.n >= 0]
        if self.name == "points":
            out.append(self.n >= 1)
        if self.name in ("properties", "tiles"):
            out.append(z3.Implies(zb(self.d.present(self.name)), self.n >= 1))
        if self.name == "data":
            w, h = self.d.leaf("width").t, self.d.leaf("height").t
            out += [w >= 1, h >= 1, self.n == w * h]
        if self.name == "wangid":
            out.append(self.n == 8)
        return out

    def __repr__(self):
        return "<seq %s%s>" % (self.path, list(self.idx))


class Concat:
    def __init__(self, parts):
        self.parts = parts


class SymDoc:
    """A symbolic document node: every leaf is an uninterpreted function of the indices."""

    def __init__(self, ent, path, idx=(), parent=None, role=None):
        self.ent, self.path, self.idx, self.parent, self.role = ent, path, tuple(idx), parent, role
        self.key = ("doc", path, tuple(t.sexpr() for t in self.idx))
        self.memo = {}

    @property
    def M(self):
        return SM

    def _m(self, k, fn):
        if k not in self.memo:
            self.memo[k] = fn()
        return self.memo[k]

    def leaf(self, name):
        def make():
            f = ENT[self.ent][name]
            ov = overrides.get((self.path, "leaf", name))
            if ov is not None:
                return ov(self)
            n = self.path + "." + name
            if f.typ in (INT, POS, GID):
                return Sc(I, app(n, self.idx, z3.IntSort()), (self, name))
            if f.typ == NUM:
                return Sc(R, app(n, self.idx, z3.RealSort()), (self, name))
            if f.typ == BOOL:
                return Sc(B, app(n, self.idx, z3.BoolSort()), (self, name))
            return Sc(S, app(n, self.idx, StrS), (self, name))
        return self._m(("leaf", name), make)

    def _bool(self, kind, name):
        ov = overrides.get((self.path, kind, name))
        if ov is not None:
            return ov(self) if callable(ov) else ov
        return app(kind + ":" + self.path + "." + name, self.idx, z3.BoolSort())

    def has(self, name, fmt=None):
        f = ENT[self.ent].get(name)
        if f is not None and f.tmx_always and fmt == "tmx":
            return True
        if f is not None and f.json_only and fmt == "tmx":
            return False
        return self.present(name)

    def present(self, name):
        return self._m(("has", name), lambda: self._has(name))

    def _has(self, name):
        """Which parts can be present at all (the same domain as the sampled documents)."""
        if name == "template" and (self.role != "objects" or self.in_tile()):
            return False
        if (self.ent, name) == ("Template", "tileset") and (self.path, "has", name) not in overrides:
            return self.M.is_kind(self.child("object").kind("kind"), "tile")
        b = self._bool("has", name)
        if (self.ent, name) in (("Tileset", "imagewidth"), ("Tileset", "imageheight"), ("Tileset", "transparentcolor"),
                                ("Tile", "imagewidth"), ("Tile", "imageheight")):
            return And(self.present("image"), b)
        if (self.ent, name) == ("Layer", "startx"):
            return And(self.M.is_kind(self.kind("kind"), "tile"), self.present("chunks"), b)
        return b

    def in_tile(self):
        d = self
        while d is not None:
            if d.ent == "Tile":
                return True
            d = d.parent
        return False

    def flag(self, name):
        return self._m(("flag", name), lambda: self._bool("flag", name))

    def kind(self, name):
        def make():
            ov = overrides.get((self.path, "kind", name))
            if ov is not None:
                return Kind((self.ent, name), None, ov)
            if (self.ent, name) == ("Layer", "kind") and self.role == "objectgroup":
                return Kind((self.ent, name), None, "object")
            return Kind((self.ent, name), app("kind:" + self.path + "." + name, self.idx, z3.IntSort()))
        return self._m(("kind", name), make)

    def seq(self, name):
        return self._m(("seq", name), lambda: SeqV(self, name))

    ints = seq

    def child(self, name):
        return self._m(("child", name), lambda: SymDoc(
            CHILD[(self.ent, name)], self.path + "." + name, self.idx, self, name))

    def facts(self):
        """What holds for every node of the domain (schema invariants)."""
        out = []
        for n, f in ENT[self.ent].items():
            v = self.leaf(n)
            if f.typ == POS and isinstance(v, Sc):
                out.append(v.t >= 1)
            elif f.typ == GID:
                out += [v.t >= 1, v.t < 2 ** 32]
            elif f.typ == PATH and n != "v_file":
                out.append(v.t != lit(""))
            elif f.typ == COLOR:
                out += [zb(color_ok(v)), v.t != lit("")]
        if self.ent == "Tile":
            out.append(self.leaf("id").t >= 0)
        if self.ent == "Property":
            # the older dictionary form has no types
            k = self.kind("ptype")
            if k.t is not None:
                g = And(self.parent.flag("legacyprops"), SM.legacy_ok(self.parent))
                out.append(z3.Implies(zb(g), k.t < 4))
        if self.ent == "Tileset":
            out.append(self.leaf("tilecount").t >= 0)
        for (e, n), alts in KIND.items():
            if e == self.ent:
                k = self.kind(n)
                if k.t is not None:
                    out += [k.t >= 0, k.t < len(alts)]
        for (e, n) in SEQ:
            if e == self.ent and n != "data":
                out += self.seq(n).facts()
        if self.ent in ("Layer", "Chunk"):
            out += self.seq("data").facts()
        return out

    def __repr__(self):
        return "<doc %s%s>" % (self.path, list(self.idx))


overrides = {}     # (path, 'has'|'flag'|'kind'|'leaf', name) -> fixed value (task preconditions)


class Kind:
    def __init__(self, dom, t, fixed=None):
        self.dom, self.t, self.fixed = dom, t, fixed

    def is_(self, name):
        if self.fixed is not None:
            return self.fixed == name
        return self.t == KIND[self.dom].index(name)


def color_core(v):
    """The text after the optional '#', as a term of its own sort."""
    return z3.Function("core", StrS, ColorS)(v.t)


def color_ok(v):
    return z3.Function("validcolor", ColorS, z3.BoolSort())(color_core(v))


def hash_first(v):
    return z3.Function("starts_with_hash", StrS, z3.BoolSort())(v.t)


def color_of_core(core):
    return Rec("Color", [(c, Sc(I, z3.Function("color_" + c, ColorS, z3.IntSort())(core)))
                         for c in ("red", "green", "blue", "alpha")])


def path_fn(name, *sorts):
    return z3.Function(name, *sorts)


p_join = path_fn("p_join", PathS, StrS, PathS)
p_parent = path_fn("p_parent", PathS, PathS)
p_resolve = path_fn("p_resolve", PathS, PathS)
p_of = path_fn("p_of", StrS, PathS)


class SymMode:
    """The mode object of symbolic documents (see docs.py)."""

    def ite(self, c, a, b):
        if isinstance(c, Sc):
            c = c.t
        if c is True:
            return a()
        if c is False:
            return b()
        return merge(c, a(), b())

    def gite(self, c, a, b):
        """A guard: a under c, else b."""
        if c is True:
            return a()
        if c is False:
            return b()
        return Or(And(c, a()), And(Not(c), b()))

    def case(self, k, alts):
        if k.fixed is not None:
            return alts[k.fixed]()
        return case_of([(k.is_(n), th()) for n, th in alts.items()])

    def is_kind(self, k, name):
        if isinstance(k, U):
            return Or(*[And(g, v.is_(name)) for g, v in k.alts])
        return k.is_(name)

    def kind_text(self, k):
        return self.case(k, {n: (lambda n=n: n) for n in KIND[k.dom]})

    def and_(self, *a):
        return And(*a)

    def or_(self, *a):
        return Or(*a)

    def not_(self, a):
        return Not(a)

    def ne(self, a, b):
        s = sort_of(a)
        if s == B and isinstance(b, bool):
            return Not(a.t) if b else a.t
        return Not(Eq(term(a), term(b, s)))

    def on(self, x, fn):
        if isinstance(x, U):
            return union([(g, fn(v)) for g, v in x.alts])
        return fn(x)

    def concat(self, a, b):
        return Concat([a, b])

    def whole(self, spec, d, field, *args):
        return Whole(spec, d.seq(field) if field else d, args)

    def color(self, v):
        return color_of_core(color_core(v))

    def path(self, v):
        return PathV(p_of(v.t), ("of", v))

    def join(self, a, v):
        return PathV(p_join(a.t, v.t), ("join", a, v))

    def parent(self, p):
        return PathV(p_parent(p.t), ("parent", p))

    def resolve(self, p):
        return PathV(p_resolve(p.t), ("resolve", p))

    def raw_tileset(self, ref):
        return RawTSV(ref)

    # texts
    def text_of(self, typ, v):
        if typ in (INT, POS, GID, NUM, BOOL):
            return NumT(v)
        return v

    def text_or_none(self, v):
        return merge(Eq(v.t, lit("")), None, v)

    def blank(self):
        return BlankT()

    def points_text(self, seq):
        def one(seq):
            return JoinT(" ", seq, lambda p: TupT(",", [NumT(p.leaf("x")), NumT(p.leaf("y"))]))
        return self.on(seq, one)

    def ints_text(self, seq):
        return JoinT(",", seq, lambda v: NumT(v))

    def csv_text(self, seq, w):
        return JoinT(",", seq, lambda v: NumT(v, True), True)

    def b64(self, ints, comp, xml=False):
        return B64T(ints, comp)

    def number_with_text(self, d):
        return NumLike(d.leaf("version"), d.flag("version:isint"))

    def legacy_ok(self, d):
        """The older dictionary form: the sequence has distinct names and only scalar types."""
        return d.flag("legacy_ok")

    def legacy_value(self, p):
        return self.case(p.kind("ptype"), {k: (lambda k=k: p.leaf("v_" + k)) for k in KIND[("Property", "ptype")]})


class RawTSV:
    """The unparsed tileset a template brings (spec value)."""

    def __init__(self, ref):
        self.ref = ref


SM = SymMode()


# ------------------------------------------------------------------------- solver
class Solver:
    def __init__(self, timeout_ms=10000):
        self.timeout = timeout_ms
        self.cache = {}
        self.stats = {"checks": 0, "time": 0.0}

    def check(self, fs, timeout=None):
        import time
        fs = [f for f in fs if f is not True]
        if any(f is False for f in fs):
            return "unsat", None
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", timeout or self.timeout)
        for a in axioms():
            s.add(a)
        for f in fs:
            s.add(f)
        r = s.check()
        self.stats["checks"] += 1
        self.stats["time"] += time.time() - t0
        return str(r), (s.model() if r == z3.sat else None)

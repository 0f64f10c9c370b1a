"""Quantified facts about sequences, by instantiation.

A search, a maximum or a lookup in a computed dictionary says "some element is such that ..." or "no element
is such that ...".  The first introduces a witness (a fresh index), the second a fact that is instantiated at
the generic index of the sequence and at all witnesses.  Instances of a true universal statement are true, so
nothing is lost but completeness.
"""
import re

import z3

from . import sym
from .docs import Whole
from .interp import force, symbols
from .sym import And, Concat, NumT, PathV, Sc, SymDoc, Tup, U, Unsupported, zb


class Universals:
    def __init__(self, ip):
        self.ip = ip
        OPEN.clear()
        self.points = {}        # sequence -> index terms
        self.ones = {}          # sequence -> facts of one index
        self.pairs = []         # (sequence, sequence, fact of two indices)

    def snapshot(self):
        return ({k: list(v) for k, v in self.points.items()}, {k: list(v) for k, v in self.ones.items()},
                list(self.pairs))

    def restore(self, snap):
        self.points = {k: list(v) for k, v in snap[0].items()}
        self.ones = {k: list(v) for k, v in snap[1].items()}
        self.pairs = list(snap[2])

    def note(self, seq):
        if seq.key not in self.points:
            self.points[seq.key] = []
            self.point(seq, self.ip.index(seq))

    def point(self, seq, t):
        ps = self.points[seq.key]
        if any(p.eq(t) for p in ps):
            return
        ps.append(t)
        see = getattr(self.ip, "see")
        x = seq.at(t)
        see(x)
        for f in self.ones.get(seq.key, ()):
            self.say(f(t))
        for a, b, f in self.pairs:
            if a.key == seq.key:
                for u in self.points.get(b.key, ()):
                    self.say(f(t, u))
            if b.key == seq.key:
                for u in self.points.get(a.key, ()):
                    self.say(f(u, t))

    def say(self, f):
        if not isinstance(f, bool):
            self.ip.add_fact(f)
        elif f is False:
            raise Unsupported("contradictory fact")

    def all(self, seq, f):
        """f(i) for all i in range."""
        self.note(seq)
        g = lambda t: z3.Implies(z3.And(t >= 0, t < seq.n), zb(f(t)))
        self.ones.setdefault(seq.key, []).append(g)
        for t in list(self.points[seq.key]):
            self.say(g(t))

    def all_pairs(self, a, b, f):
        self.note(a)
        self.note(b)
        g = lambda t, u: z3.Implies(z3.And(t >= 0, t < a.n, u >= 0, u < b.n), zb(f(t, u)))
        self.pairs.append((a, b, g))
        for t in list(self.points[a.key]):
            for u in list(self.points[b.key]):
                self.say(g(t, u))

    def some(self, seq, when=True, what="w"):
        """A fresh index, in range if `when`."""
        self.note(seq)
        w = self.ip.fresh(what)
        self.say(z3.Implies(zb(when), z3.And(w >= 0, w < seq.n)))
        self.point(seq, w)
        return w


def private(ip, t, before):
    """Does the term mention something that was introduced after `before`?"""
    from .interp import names_in
    for n in names_in(t):
        if "!" in n and n.rsplit("!", 1)[1].isdigit() and int(n.rsplit("!", 1)[1]) > before and n in ip.fresh_names:
            return True
    return False


OPEN = {}       # number of an introduced name -> indices it may depend on


def replace(t, sub):
    """The term for other indices; names that were chosen for this index say nothing about the others."""
    mine = {str(i) for i, _ in sub}
    for n in symbols(t):
        for k in re.findall(r"!(\d+)(?!\d)", n):
            if mine & set(OPEN.get(int(k), ())):
                raise Unsupported("a choice that depends on the element")
    return z3.substitute(t, *sub)


def subst(v, sub):
    """The value with index terms replaced: sub [(constant, term)]."""
    v = force(v)
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    if isinstance(v, Sc):
        return Sc(v.s, replace(v.t, sub))
    if isinstance(v, PathV):
        return PathV(replace(v.t, sub))
    if isinstance(v, Tup):
        return Tup(v.cls, [subst(x, sub) for x in v.items])
    if isinstance(v, U):
        return U([(gsubst(g, sub), subst(x, sub)) for g, x in v.alts])
    if isinstance(v, NumT):
        return NumT(subst(v.v, sub), v.pad)
    if isinstance(v, Whole):
        return Whole(v.spec, doc_subst(v.d, sub), tuple(subst(a, sub) for a in v.args))
    raise Unsupported("another element of the same sequence")


def gsubst(g, sub):
    return g if isinstance(g, bool) else replace(g, sub)


def doc_subst(d, sub):
    if not isinstance(d, SymDoc):
        return doc_subst(d.d, sub).seq(d.name)      # a sequence of a node
    new = tuple(replace(t, sub) for t in d.idx)
    if all(a.eq(b) for a, b in zip(new, d.idx)):
        return d
    home = getattr(d, "home", None)
    if home is not None:
        return home.at(new[-1])
    p = d.parent
    if p is None:
        raise Unsupported("another node of the document")
    q = doc_subst(p, sub)
    if len(d.idx) == len(p.idx):
        return q.child(d.role)
    s = q.seq(d.role)
    if d.path == s.path + "*":
        from .contracts import flat
        s = flat(s)
    return s.at(new[-1])

"""Comparison of symbolic results with the specification: named proof obligations."""
import z3

from . import docs, sym
from .conc import strict, tags_of
from .docs import MapOf, Rec, Rows, SeqOf, Whole
from .interp import (AccRec, Comp, DComp, Dead, DictRec, ExcV, Frame, GenV, Interp, ListRec, ObjRec, One, RangeSeq,
                     Ref, RowsSeg, SliceSeg, St, XRec, force)
from .lib import ident_seq
from .loops import MultiSeg
from .sym import (B, I, R, S, And, Concat, Eq, Not, Or, PathV, RawTSV, Sc, SeqV, SymDoc, Text, Tup, U, Unsupported,
                  alts_of, sort_of, term, zb)

DISCHARGED, REFUTED, UNDECIDED = "discharged", "refuted", "undecided"


class Ob:
    """A proof obligation and what became of it."""

    def __init__(self, name, tags, status, detail="", model=None, formulas=()):
        self.name, self.tags, self.status, self.detail, self.model = name, frozenset(tags), status, detail, model
        self.formulas = formulas

    def __repr__(self):
        return "%s %s %s %s" % (self.status, self.name, sorted(self.tags), self.detail)


class Comparer:
    def __init__(self, ip, st, obs, tags, name, dump=None):
        self.ip, self.st, self.obs, self.base_tags, self.name, self.dump = ip, st, obs, frozenset(tags), name, dump

    # ------------------------------------------------------------------ recording
    def label(self, path):
        return self.name + ("/" + ".".join(path) if path else "")

    def claim(self, pc, g, path, tags, detail=""):
        ip = self.ip
        if g is True:
            self.obs.append(Ob(self.label(path), tags, DISCHARGED, "syntactic"))
            return
        fs = list(pc) + [Not(g)]
        r, m = ip.check(fs)
        if r == "unsat":
            self.obs.append(Ob(self.label(path), tags, DISCHARGED, "smt", formulas=tuple(fs)))
        elif r == "sat":
            self.obs.append(Ob(self.label(path), tags, REFUTED, detail, m, tuple(fs)))
        else:
            self.obs.append(Ob(self.label(path), tags, UNDECIDED, "solver: " + r + " " + detail))

    def mismatch(self, pc, path, tags, detail):
        self.claim(pc, False, path, tags, detail)

    def undecided(self, path, tags, detail):
        self.obs.append(Ob(self.label(path), tags, UNDECIDED, detail))

    # ------------------------------------------------------------------ the walk
    def compare(self, pc, act, spec, path, tags):
        try:
            self.compare1(pc, act, spec, path, tags)
        except Unsupported as e:
            self.undecided(path, tags, "%s: %s" % (type(e).__name__, e))

    def compare1(self, pc, act, spec, path, tags):
        ip, st = self.ip, self.st
        act, spec = force(act), force(spec)
        if type(spec).__name__ == "Hole":
            return spec.fn(act, tuple(pc))
        if isinstance(spec, U):
            for g, x in spec.alts:
                if ip.feasible(pc, g):
                    self.compare(pc + (g,) if g is not True else pc, act, x, path, tags)
            return
        if isinstance(act, U):
            for g, x in act.alts:
                if ip.feasible(pc, g):
                    self.compare(pc + (g,) if g is not True else pc, x, spec, path, tags)
            return
        if isinstance(act, Whole) and ip.affected(st, act):
            self.see(act.d)
            return self.compare1(pc, ip.expand(st, act), spec, path, tags)
        if isinstance(spec, Whole):
            if isinstance(act, Whole):
                return self.wholes(pc, act, spec, path, tags)
            self.see(spec.d)
            return self.compare1(pc, act, spec.spec(spec.d, *spec.args), path, tags)
        if isinstance(act, Whole):
            self.see(act.d)
            act = ip.expand(st, act)
            return self.compare1(pc, act, spec, path, tags)
        if isinstance(spec, Rec):
            return self.record(pc, act, spec, path, tags)
        if isinstance(spec, SeqOf):
            return self.sequence(pc, act, spec, path, tags)
        if isinstance(spec, MapOf):
            return self.mapping(pc, act, spec, path, tags)
        if isinstance(spec, Rows):
            return self.rows(pc, act, spec, path, tags)
        if isinstance(spec, RawTSV):
            ok = False
            if isinstance(act, Ref):
                r = ip.rec(st, act)
                d = getattr(r, "doc", None)
                ok = d is not None and getattr(r, "what", None) == "tileset" and d.key == spec.ref.child("ts").key \
                    and ip.deep_pristine(st, act, d)
            if ok:
                return self.claim(pc, True, path, tags)
            return self.mismatch(pc, path, tags, "not the template's tileset: %s" % self.show(act))
        if isinstance(spec, PathV):
            if isinstance(act, PathV):
                return self.claim(pc, Eq(act.t, spec.t), path, tags, "path %s instead of %s" % (act.t, spec.t))
            return self.mismatch(pc, path, tags, "no path: %s" % self.show(act))
        if spec is None:
            if act is None:
                return self.claim(pc, True, path, tags)
            return self.mismatch(pc, path, tags, "%s instead of None" % self.show(act))
        ss, sa = sort_of(spec), sort_of(act)
        if isinstance(act, Text) and ss == S:
            return self.claim(pc, ip.lib.text_equal(st, act, spec), path, tags, "text %s" % self.show(act))
        if ss is None:
            raise Unsupported("specified value %r" % (spec,))
        if sa is None or (ss in (B, S)) != (sa in (B, S)) or (ss in (B, S) and ss != sa):
            return self.mismatch(pc, path, tags, "%s instead of %s" % (self.show(act), self.show(spec)))
        if ss == I and sa == R and strict(0, path):
            return self.mismatch(pc, path, tags, "a float (%s) instead of the integer %s" % (self.show(act), self.show(spec)))
        self.claim(pc, ip.equal(st, act, spec), path, tags, "%s instead of %s" % (self.show(act), self.show(spec)))

    def show(self, v):
        if isinstance(v, Ref):
            r = self.ip.rec(self.st, v)
            return "%s(%s)" % (type(r).__name__, getattr(r, "cls", ""))
        if isinstance(v, Sc):
            return str(v.t)[:120].replace("\n", " ")
        return repr(v)[:120]

    def see(self, d):
        self.ip.see(d if isinstance(d, SymDoc) else d.d)

    def wholes(self, pc, act, spec, path, tags):
        if act.spec is not spec.spec or act.d.key != spec.d.key or len(act.args) != len(spec.args):
            if act.spec is not spec.spec:
                return self.compare1(pc, self.ip.expand(self.st, act), spec.spec(spec.d, *spec.args), path, tags)
            # another node of the document: equal only if the results happen to be equal
            self.see(act.d)
            self.see(spec.d)
            return self.compare1(pc, self.ip.expand(self.st, act), spec.spec(spec.d, *spec.args), path, tags)
        gs, paths = [], True
        for a, b in zip(act.args, spec.args):
            if isinstance(a, PathV) or isinstance(b, PathV):
                paths = And(paths, Eq(a.t, b.t) if isinstance(a, PathV) and isinstance(b, PathV) else False)
            elif sort_of(a) and sort_of(b):
                gs.append(Eq(term(a), term(b)))
            elif a is None or b is None or isinstance(a, str):
                if a != b:
                    gs.append(False)
            elif not sym.same(a, b):
                raise Unsupported("contract argument")
        self.claim(pc, And(*gs), path, tags, "argument %s instead of %s" % (act.args, spec.args))
        # relative to which directory
        self.claim(pc, paths, path, tags | {"C10"}, "argument %s instead of %s" % (act.args, spec.args))

    def record(self, pc, act, spec, path, tags):
        ip, st = self.ip, self.st
        if isinstance(act, Tup) and act.cls is not tuple:
            names = list(getattr(act.cls, "_fields", ()))
            if act.cls.__name__ != spec.cls or names != [k for k, _ in spec.fields]:
                return self.mismatch(pc, path, tags, "%s instead of %s" % (act.cls.__name__, spec.cls))
            for (k, v), x in zip(spec.fields, act.items):
                self.compare(pc, x, v, path + [k], tags)
            return
        if not isinstance(act, Ref) or not isinstance(ip.rec(st, act), ObjRec):
            return self.mismatch(pc, path, tags, "%s instead of %s" % (self.show(act), spec.cls))
        r = ip.rec(st, act)
        kind_tags = self.kind_tags(spec, tags)
        if r.cls.__name__ != spec.cls:
            return self.mismatch(pc, path, kind_tags, "%s instead of %s" % (r.cls.__name__, spec.cls))
        self.claim(pc, True, path + [spec.cls], kind_tags)
        dic = ip.rec(st, r.dic)
        if not isinstance(dic, DictRec) or dic.comps:
            raise Unsupported("object with computed attributes")
        names = {k for k, _ in spec.fields}
        for k, (g, v) in dic.known.items():
            if k not in names and g is not False and ip.feasible(pc, g):
                self.mismatch(pc + ((g,) if g is not True else ()), path + [spec.cls, k], kind_tags, "extra attribute")
        for k, v in spec.fields:
            g, x = dic.known.get(k, (False, None))
            t = tags_of(spec.cls, k, {"f": names}) or tags
            p = path + [spec.cls, k]
            if g is not True:
                self.claim(pc, g, p, t, "missing attribute")
            self.compare(pc + ((g,) if not isinstance(g, bool) else ()), x, v, p, frozenset(t))

    KIND_TAG = {"TileLayer": "C04", "ObjectLayer": "C04", "ImageLayer": "C04", "LayerGroup": "C04",
                "Rectangle": "C06", "Ellipse": "C06", "Point": "C06", "Polygon": "C06", "Polyline": "C06",
                "Text": "C06"}

    def kind_tags(self, spec, tags):
        if spec.cls == "Tile":
            return frozenset({"C06" if any(k == "gid" for k, _ in spec.fields) else "C09"})
        if spec.cls in self.KIND_TAG:
            return frozenset({self.KIND_TAG[spec.cls]})
        t = tags_of(spec.cls, "\0", {"f": ()})
        return frozenset(t) if t else tags

    # ------------------------------------------------------------------ containers
    def spec_parts(self, spec):
        parts = spec.seq.parts if isinstance(spec.seq, Concat) else [spec.seq]
        return [p for p in parts if not isinstance(p, tuple)]

    def live(self, pc, segs):
        """Segments that can be there at all."""
        out = []
        for s in segs:
            if isinstance(s, One):
                if self.ip.feasible(pc, s.guard):
                    out.append(s)
            elif isinstance(s, (Comp, DComp)):
                if self.ip.feasible(pc + self.ip.binder_facts(s.binders), s.cond):
                    out.append(s)
            elif isinstance(s, SliceSeg):
                if self.ip.feasible(pc, s.ln > 0):
                    out.append(s)
            else:
                out.append(s)
        return out

    def sequence(self, pc, act, spec, path, tags):
        ip, st = self.ip, self.st
        if isinstance(act, GenV) or not isinstance(act, Ref) or not isinstance(ip.rec(st, act), ListRec):
            if isinstance(act, (list,)) and not act:
                segs = []
            else:
                return self.mismatch(pc, path, tags, "%s instead of a list" % self.show(act))
        else:
            segs = ip.rec(st, act).segs
        parts = self.spec_parts(spec)
        segs = self.live(pc, segs)
        parts = [p for p in parts if ip.feasible(pc + tuple(f for f in p.facts() if not isinstance(f, bool)), p.n > 0)]
        if len(segs) > len(parts) and self.cases(pc, segs, lambda c: self.sequence(c, act, spec, path, tags)):
            return
        for j, p in enumerate(parts):
            if j >= len(segs):
                for f in p.facts():
                    ip.add_fact(f)
                self.mismatch(pc + (p.n > 0,), path, tags, "elements of %s are missing" % p.path)
                return
            s = segs[j]
            self.part(pc, s, p, spec.fn, path, tags)
        for s in segs[len(parts):]:
            g = s.guard if isinstance(s, One) else And(s.cond, *ip.binder_facts(s.binders)) if isinstance(s, Comp) \
                else None
            if g is None:
                raise Unsupported("list segments")
            self.mismatch(pc + ((g,) if g is not True else ()), path, tags, "extra elements")

    def cases(self, pc, segs, go):
        """Splits on a condition that decides which of the segments are there."""
        for s in segs:
            own = set()
            g = s.guard if isinstance(s, One) else getattr(s, "cond", True)
            for _, i in getattr(s, "binders", ()):
                own.add(i.sexpr())
            for a in conjuncts(g):
                if own & {str(x) for x in consts(a)} or not self.ip.feasible(pc, a) or not self.ip.feasible(pc, Not(a)):
                    continue
                go(pc + (a,))
                go(pc + (Not(a),))
                return True
        return False

    def part(self, pc, s, p, fn, path, tags):
        ip = self.ip
        for f in p.facts():
            if not isinstance(f, bool):
                ip.add_fact(f)
        if isinstance(s, SliceSeg) and s.seq.key == p.key:
            return self.claim(pc, And(Eq(s.start, z3.IntVal(0)), Eq(s.ln, p.n)), path, tags, "part of the sequence")
        if not isinstance(s, Comp) or len(s.binders) != 1:
            raise Unsupported("list of %s: %s" % (p.path, type(s).__name__))
        seq, i = s.binders[0]
        if seq.key != p.key:
            if isinstance(seq, RangeSeq) and seq.start is None and seq.step is None:
                self.claim(pc, Eq(seq.n, p.n), path, tags, "length")
            elif isinstance(seq, SeqV):
                self.claim(pc + (seq.n != p.n,), False, path, tags, "elements of %s instead of %s" % (seq.path, p.path))
                return
            else:
                raise Unsupported("list over another sequence")
        inner = pc + ip.binder_facts([(seq, i)]) + (i < p.n,)
        self.claim(inner, s.cond, path, tags, "elements are dropped")
        x = p.at(i)
        ip.see(x)
        c = (s.cond,) if s.cond is not True else ()
        self.compare(inner + c, s.value, fn(x), path + ["[]"], tags)

    def mapping(self, pc, act, spec, path, tags):
        ip, st = self.ip, self.st
        if isinstance(act, dict) and not act:
            comps, known = (), {}
        elif not isinstance(act, Ref) or not isinstance(ip.rec(st, act), DictRec):
            return self.mismatch(pc, path, tags, "%s instead of a dictionary" % self.show(act))
        else:
            r = ip.rec(st, act)
            comps, known = r.comps, r.known
        for k, (g, v) in known.items():
            if g is not False and ip.feasible(pc, g):
                self.mismatch(pc + ((g,) if g is not True else ()), path, tags, "extra key %r" % (k,))
        parts = [p for p in self.spec_parts(spec)
                 if ip.feasible(pc + tuple(f for f in p.facts() if not isinstance(f, bool)), p.n > 0)]
        comps = self.live(pc, comps)
        if len(comps) > len(parts) and self.cases(pc, comps, lambda c: self.mapping(c, act, spec, path, tags)):
            return
        for j, p in enumerate(parts):
            for f in p.facts():
                if not isinstance(f, bool):
                    ip.add_fact(f)
            if j >= len(comps):
                self.mismatch(pc + (p.n > 0,), path, tags, "entries of %s are missing" % p.path)
                return
            c = comps[j]
            if len(c.binders) != 1:
                raise Unsupported("dictionary of %s" % p.path)
            seq, i = c.binders[0]
            if seq.key != p.key:
                if isinstance(seq, SeqV):
                    self.claim(pc + (seq.n != p.n,), False, path, tags,
                               "entries of %s instead of %s" % (seq.path, p.path))
                    return
                raise Unsupported("dictionary over another sequence")
            inner = pc + ip.binder_facts(c.binders)
            ok = c.cond
            if ok is not True and j < len(parts) - 1:
                # an entry may be left out if its key comes again later
                later = [DComp([(q, ip.index(q))], True, spec.key(q.at(ip.index(q))), None) for q in parts[j:]]
                ok = Or(ok, ip.overridden(later, 0))
            self.claim(inner, ok, path, tags, "entries are dropped")
            cc = (c.cond,) if c.cond is not True else ()
            x = p.at(i)
            ip.see(x)
            self.compare(inner + cc, c.key, spec.key(x), path + ["key"], tags)
            self.compare(inner + cc, c.value, spec.val(x), path + ["{}"], tags)
        for c in comps[len(parts):]:
            self.mismatch(pc + ip.binder_facts(c.binders) + ((c.cond,) if c.cond is not True else ()), path, tags,
                          "extra entries")

    def rows(self, pc, act, spec, path, tags):
        ip, st = self.ip, self.st
        if not isinstance(act, Ref) or not isinstance(ip.rec(st, act), ListRec):
            return self.mismatch(pc, path, tags, "%s instead of a grid" % self.show(act))
        segs = self.live(pc, ip.rec(st, act).segs)
        w, h = term(spec.w), term(spec.h)
        for f in spec.seq.facts():
            ip.add_fact(f)
        if len(segs) == 1 and isinstance(segs[0], RowsSeg):
            s = segs[0]
            if s.seq.key != spec.seq.key:
                return self.mismatch(pc, path, tags, "rows of %s instead of %s" % (s.seq.path, spec.seq.path))
            self.claim(pc, Eq(s.w, w), path, tags, "width of the rows")
            return self.claim(pc, Eq(s.n, h), path, tags, "number of rows")
        if len(segs) == 1 and isinstance(segs[0], Comp) and len(segs[0].binders) == 1 \
                and isinstance(segs[0].binders[0][0], RangeSeq):
            s = segs[0]
            rng, i = s.binders[0]
            lemma = (z3.Implies(i < h, (i + 1) * w <= w * h), z3.Implies(rng.n < h, (rng.n + 1) * w <= w * h),
                     z3.Implies(rng.n > h, rng.n * w >= (h + 1) * w), (h + 1) * w == w * h + w)
            from .lib import DIV
            lemma += (DIV(spec.seq.n, w) == h,)
            self.claim(pc + lemma, Eq(rng.n, h), path, tags, "number of rows")
            inner = pc + lemma + (i >= 0, i < h, w >= 1, h >= 1)
            self.claim(inner, s.cond, path, tags, "rows are dropped")
            row = force(s.value)
            if isinstance(row, Ref) and isinstance(ip.rec(st, row), ListRec):
                rs = ip.rec(st, row).segs
                if len(rs) == 1 and isinstance(rs[0], SliceSeg) and rs[0].seq.key == spec.seq.key:
                    self.claim(inner, Eq(rs[0].start, i * w), path, tags, "start of the row")
                    return self.claim(inner, Eq(rs[0].ln, w), path, tags, "length of the row")
        raise Unsupported("grid")


def conjuncts(g):
    if isinstance(g, bool):
        return []
    if z3.is_and(g):
        return [x for a in g.children() for x in conjuncts(a)]
    return [g]


def consts(t):
    if z3.is_app(t) and not t.children():
        return {t}
    out = set()
    for c in t.children():
        out |= consts(c)
    return out


# ---------------------------------------------------------------------- sharing (C19)
class Sharing:
    """No mutable container is reachable twice, or from two elements, or existed before the call."""

    def __init__(self, ip, st, obs, name):
        self.ip, self.st, self.obs, self.name = ip, st, obs, name
        self.seen = {}
        self.bad = []

    def run(self, v):
        try:
            self.walk((), v, [], ())
        except Unsupported as e:
            self.obs.append(Ob(self.name + "/isolation", ("C19",), UNDECIDED, str(e)))
            return
        if not self.bad:
            self.obs.append(Ob(self.name + "/isolation", ("C19",), DISCHARGED, "ownership"))
        for path, why, pc in self.bad:
            if why == "one container for all elements":
                # by ownership only: the elements may have containers of their own all the same
                self.obs.append(Ob("%s/isolation/%s" % (self.name, ".".join(path)), ("C19",), UNDECIDED, why))
                continue
            r, m = self.ip.check(list(pc))
            self.obs.append(Ob("%s/isolation/%s" % (self.name, ".".join(path)), ("C19",),
                               {"sat": REFUTED, "unsat": DISCHARGED}.get(r, UNDECIDED), why, m, tuple(pc)))

    def walk(self, pc, v, path, marks):
        ip, st = self.ip, self.st
        v = force(v)
        if isinstance(v, U):
            for g, x in v.alts:
                if ip.feasible(pc, g):
                    self.walk(pc + ((g,) if g is not True else ()), x, path, marks)
            return
        if isinstance(v, Tup):
            for j, x in enumerate(v.items):
                self.walk(pc, x, path + [str(j)], marks)
            return
        if isinstance(v, (list, dict, set)) or (hasattr(type(v), "__attrs_attrs__")):
            self.bad.append((path, "a container that exists before the call", pc))
            return
        if isinstance(v, Whole) and ip.affected(st, v):
            v = ip.expand(st, v)
        if not isinstance(v, Ref):
            return
        for n, pc0, p0 in self.seen.get(v.n, ()):
            if ip.feasible(pc + pc0):
                self.bad.append((path, "the same container as at " + ".".join(p0), pc + pc0))
        self.seen.setdefault(v.n, []).append((v.n, pc, path))
        if len(self.seen[v.n]) > 1:
            return
        for ivs, binders in marks:
            if not any(a <= v.n < b for a, b in ivs) and not ip.loops.owned(v.n, binders):
                self.bad.append((path, "one container for all elements", pc))
        r = ip.rec(st, v)
        if isinstance(r, ObjRec):
            dic = ip.rec(st, r.dic)
            for k, (g, x) in dic.known.items():
                if g is not False:
                    self.walk(pc + ((g,) if g is not True else ()), x, path + [k], marks)
        elif isinstance(r, DictRec):
            for k, (g, x) in r.known.items():
                self.walk(pc + ((g,) if not isinstance(g, bool) else ()), x, path + [str(k)], marks)
            for c in r.comps:
                self.walk(self.inside(pc, c), c.value, path + ["{}"], self.marks(marks, c))
        elif isinstance(r, ListRec):
            for s in r.segs:
                if isinstance(s, One):
                    self.walk(pc + ((s.guard,) if not isinstance(s.guard, bool) else ()), s.value, path + ["[]"], marks)
                elif isinstance(s, Comp):
                    self.walk(self.inside(pc, s), s.value, path + ["[]"], self.marks(marks, s))
                elif isinstance(s, MultiSeg):
                    for p in s.parts:
                        q = Comp(s.binders + getattr(p, "binders", ()), And(s.cond, p.guard if isinstance(p, One) else p.cond),
                                 p.value)
                        q.levels = (s.levels or ()) + (getattr(p, "levels", None) or ())
                        self.walk(self.inside(pc, q), q.value, path + ["[]"], self.marks(marks, q))
        elif isinstance(r, XRec):
            return

    def inside(self, pc, c):
        return pc + self.ip.binder_facts(c.binders) + ((c.cond,) if c.cond is not True else ())

    def marks(self, marks, c):
        return marks + (c.levels or ())


# ---------------------------------------------------------------------- running a function
class Outcome:
    def __init__(self, st, value, raised, returned):
        self.st, self.value, self.raised, self.returned = st, value, raised, returned


def run_function(ip, fn, args, kwargs=None, assume=()):
    st = St()
    st.assume(*assume)
    ip.frames = [Frame(None, fn.__globals__, {}, "task")]
    ip.raises = [[]]
    ip.top = top_of(ip, st, fn, args)
    try:
        v = ip.call_function(st, fn, args, kwargs or {})
        ret = True
    except Dead:
        v, ret = None, False
    return Outcome(st, v, ip.raises[0], ret)


def top_of(ip, st, fn, args):
    """The function and the document it is verified for: its contract may be used only for other documents."""
    c = ip.contracts.get(fn)
    if hasattr(c, "doc_of"):
        d = c.doc_of(ip, st, args[0]) if args else None
    elif hasattr(c, "fmt"):
        d = ip.file_system.root if ip.file_system is not None else None
    else:
        return (fn, None)
    return (fn, d.key if d is not None else None)


def no_exceptions(ip, out, obs, name, tags):
    live = [(s, e) for s, e in out.raised if ip.feasible(s.pc)]
    if not live:
        obs.append(Ob(name + "/no-exception", tags, DISCHARGED, "smt"))
    for s, e in live:
        r, m = ip.check(list(s.pc))
        obs.append(Ob("%s/no-exception/%s" % (name, e.cls.__name__), tags,
                      {"sat": REFUTED, "unsat": DISCHARGED}.get(r, UNDECIDED),
                      "%s%r" % (e.cls.__name__, tuple(str(a)[:80] for a in e.args)), m, tuple(s.pc)))


def effects(ip, obs, name):
    if not ip.effects:
        obs.append(Ob(name + "/no-side-effects", ("C19",), DISCHARGED, "no output, no writes"))
    for kind, what, pc in ip.effects:
        r, m = ip.check(list(pc))
        obs.append(Ob("%s/no-side-effects/%s" % (name, kind), ("C19",),
                      {"sat": REFUTED, "unsat": DISCHARGED}.get(r, UNDECIDED), str(what)[:100], m, tuple(pc)))


def frame(ip, out, obs, name, raw, pure, tags):
    """The function changes at most what its contract says."""
    bad = []
    allowed = set()
    if not pure:
        allowed = ip.within(raw)
    for n, r in out.st.heap.items():
        b = ip.base[n]
        if r is b or n in allowed or not getattr(b, "lifted", False):
            continue
        if getattr(b, "file", None):
            continue
        d = getattr(b, "doc", None)
        d = getattr(d, "d", d)
        if d is not None and in_template(d):
            continue     # read by the function itself from the template's file
        bad.append(getattr(b, "what", None))
    obs.append(Ob(name + "/frame", tags, UNDECIDED if bad else DISCHARGED, "changes %s" % bad if bad else "frame"))


def in_template(d):
    while d is not None:
        if d.ent == "Template":
            return True
        d = d.parent
    return False

"""The declared invariant of the loop that resolves the tilesets of templates (tiled_map.parse).

The map's dictionary of tilesets, at the start of any iteration, consists of the map's own tilesets (all of
them, unchanged) and of tilesets that were added before, such that all ranges of gids are disjoint.  One
iteration (one object of one object layer) is verified against this:

  * a tileset is added only for an object whose template brings one, only if no tileset has its name, under a
    firstgid with a range of gids that is disjoint from all others, and it is the tileset of that file;
  * the object's gid is the template's gid moved into the range of the (found or added) tileset;
    nothing is left of the template's data, and nothing else of the object changes;
  * an object that brings no tileset is not changed at all, and no tileset is added for it.

The invariant holds before the loop (the map's own tilesets, which are disjoint in a valid document) and each
iteration preserves it, so it holds for every history of objects.
"""
import z3

from . import docs, sym
from .contracts import flat
from .docs import MapOf, Rec, Whole, spec_object, spec_tileset, tileset_of_ref
from .interp import DComp, DictRec, Lazy, Ref, alias, force
from .sym import And, Eq, Not, Or, PathS, PathV, Sc, SeqV, SymDoc, U, Unsupported, alts_of, term, zb


class Hole:
    def __init__(self, fn):
        self.fn = fn


class KnownSeq(SeqV):
    """Tilesets that templates brought so far: an arbitrary sequence."""

    def __init__(self, name):
        self.d, self.name, self.elem = None, name, "TSRef"
        self.path = "map." + name
        self.idx = ()
        self.key = ("known", self.path)
        self.n = sym.app("len:" + self.path, (), z3.IntSort())
        self.memo = {}

    def at(self, i):
        k = i.sexpr()
        if k not in self.memo:
            d = SymDoc("TSRef", self.path, (i,), None, self.name)
            d.home = self
            self.memo[k] = d
        return self.memo[k]

    def facts(self):
        return [self.n >= 0]


class AbsDict(DictRec):
    """The map's tilesets and those of `known`; all keys differ."""
    apart = True

    def __init__(self, inv, comps, known):
        super().__init__({}, comps)
        self.inv, self.known_seq = inv, known


def ext_of(ts):
    """Number of gids the tileset needs."""
    tc = ts.leaf("tilecount").t
    m = max_id(ts) + 1
    a = z3.If(And(zb(ts.present("tiles")), m > tc), m, tc)
    return z3.If(a >= 1, a, z3.IntVal(1))


def max_id(ts):
    return sym.app("max:" + ts.path + ".tiles.id", ts.idx, z3.IntSort())


def key_of(r):
    return r.leaf("firstgid").t


class TilesetInvariant:
    def __init__(self, ip, root, fmt, file, name):
        self.ip, self.root, self.fmt, self.file, self.name = ip, root, fmt, file, name
        self.own = root.seq("tilesets")
        self.dir = PathV(sym.p_parent(file.t), ("parent", file))
        self.obs, self.done, self.effects = [], [], {}
        u = ip.univ
        u.all_pairs(self.own, self.own, self.disjoint(self.own, self.own))

    def mark(self):
        return len(self.obs), len(self.done), self.ip.fact_mark()

    def reset(self, m):
        del self.obs[m[0]:]
        del self.done[m[1]:]
        self.ip.fact_reset(m[2])

    # -- the invariant
    def disjoint(self, a, b):
        def f(t, u):
            x, y = a.at(t), b.at(u)
            k, l = key_of(x), key_of(y)
            apart = Or(k + ext_of(x.child("ts")) <= l, l + ext_of(y.child("ts")) <= k)
            return apart if a.key != b.key else z3.Or(t == u, apart)
        return f

    def fresh(self):
        """An arbitrary dictionary that satisfies the invariant."""
        ip = self.ip
        ip.fresh("state")
        k = KnownSeq("added!%d" % ip.fresh_n)
        u = ip.univ
        u.all_pairs(k, k, self.disjoint(k, k))
        u.all_pairs(self.own, k, self.disjoint(self.own, k))
        comps = []
        for seq, val in ((self.own, lambda r: tileset_of_ref(r, self.fmt, self.dir)), (k, self.added)):
            i = ip.index(seq)
            x = seq.at(i)
            ip.see(x)
            c = DComp([(seq, i)], True, x.leaf("firstgid"), Lazy(lambda x=x, val=val: val(x)))
            c.distinct = True
            comps.append(c)
            for f in seq.facts():
                ip.add_fact(f)
        return AbsDict(self, comps, k)

    def added(self, r):
        where = PathV(sym.app("dir:" + r.path, r.idx, PathS))
        k = r.kind("fmt")
        return sym.union([(k.is_(f), Whole(spec_tileset, r.child("ts"), (f, r.leaf("firstgid"), where)))
                          for f in ("json", "tmx")])

    # -- where it is used
    def find(self, st):
        """The map's dictionary of tilesets."""
        out = []
        for n, r in st.heap.items():
            if isinstance(r, AbsDict):
                out.append(n)
            elif isinstance(r, DictRec) and r.comps and not r.known and r.comps[0].binders and \
                    r.comps[0].binders[0][0].key == self.own.key:
                out.append(n)
        return out[0] if len(out) == 1 else None

    def relevant(self, seg):
        """A loop over layers or objects."""
        return bool(seg.binders) and seg.binders[-1][0].elem in ("Layer", "Object")

    def start(self, st, n):
        """The invariant holds before the first iteration."""
        from .verify import Comparer
        if isinstance(self.ip.rec(st, Ref(n)), AbsDict):
            return
        spec = MapOf(self.own, lambda r: r.leaf("firstgid"), lambda r: tileset_of_ref(r, self.fmt, self.dir))
        Comparer(self.ip, st, self.obs, {"C15"}, self.name + "/before the templates").compare(
            st.pc, Ref(n), spec, ["tilesets"], frozenset({"C15", "C13"}))

    def claim(self, name, pc, g, detail, tags=frozenset({"C15"})):
        from .tasks_more import claim
        claim(self.ip, self.obs, "%s/object/%s" % (self.name, name), set(tags), tuple(pc), g, detail)

    # -- one iteration
    def step(self, st, seg, pc0, t, before, after, own):
        ip = self.ip
        objs = [(q, i) for q, i in seg.binders if q.elem == "Object"]
        if not objs:
            if not isinstance(after, AbsDict):
                raise Unsupported("tilesets are added outside of the loop over the objects")
            return
        if len(objs) != 1 or objs[0] != seg.binders[-1]:
            raise Unsupported("objects")
        q, j = objs[0]
        d = q.at(j)
        ip.see(d)
        L = d.parent
        if not (isinstance(L, SymDoc) and "*" in L.path):
            raise Unsupported("objects of other layers")
        fs = flat(self.root.seq("layers"))
        if L.key != fs.at(ip.index(fs)).key or not j.eq(ip.index(q)):
            raise Unsupported("objects by other indices")
        pc = tuple(t.pc)
        if isinstance(after, AbsDict):
            if after is not before:
                raise Unsupported("tilesets change in an inner loop")
            puts = []
        else:
            n = len(before.comps)
            if not isinstance(after, DictRec) or after.known or after.comps[:n] != before.comps:
                raise Unsupported("tilesets are replaced")
            puts = list(after.comps[n:])
        if any(c.binders for c in puts) or any(ip.feasible(pc, And(a.cond, b.cond)) for k, a in enumerate(puts)
                                               for b in puts[k + 1:]):
            raise Unsupported("several tilesets are added")
        tmpl = d.child("template")
        ts = tmpl.child("tileset")
        ip.see(ts)
        ip.see(ts.child("ts"))
        new = ts.child("ts").leaf("name").t
        spec, brings = self.resolved(d, puts, before, new)
        from .verify import Comparer
        if not puts:
            self.claim("added/none", pc, True, "")
        for c in puts:
            g = pc + ((c.cond,) if c.cond is not True else ())
            F = term(c.key)
            self.claim("added/only for an object that brings one", g, brings, "a tileset is added for another object")
            self.claim("added/firstgid", g, F >= 1, "firstgid")
            for seq in (self.own, before.known_seq):
                e = ip.index(seq)
                x = seq.at(e)
                inr = (e >= 0, e < seq.n)
                self.claim("added/new name", g + inr, x.child("ts").leaf("name").t != new,
                           "a tileset of that name is there already")
                self.claim("added/range", g + inr,
                           Or(key_of(x) + ext_of(x.child("ts")) <= F, F + ext_of(ts.child("ts")) <= key_of(x)),
                           "the ranges of gids overlap")
            self.common_rule(g, F, before)
            where = PathV(sym.p_parent(sym.p_join(sym.p_parent(sym.p_join(self.dir.t, tmpl.leaf("source").t)),
                                                  ts.leaf("source").t)))
            k = ts.kind("fmt")
            v = sym.union([(k.is_(f), Whole(spec_tileset, ts.child("ts"), (f, Sc(sym.I, F), where)))
                           for f in ("json", "tmx")])
            Comparer(ip, t, self.obs, {"C15"}, self.name + "/object/added").compare(
                g, c.value, v, ["tileset"], frozenset({"C15"}))
        act = Whole(spec_object, d, (self.fmt, self.dir))
        Comparer(ip, t, self.obs, {"C15"}, self.name + "/object/resolved").compare(
            pc, act, spec, [], frozenset({"C15"}))
        for n in own:
            if n in ip.owners:
                if alias(d, ip.owners[n]) != "same":
                    raise Unsupported("another object is changed")
                self.effects[n] = t.heap[n]
        self.done.append((pc0, seg.cond))

    def common_rule(self, g, F, before):
        """C15 leaves the choice of the firstgid open; for both formats to give the same map it has to be one and the
        same: the end of the last range."""
        ends = []
        for seq in (self.own, before.known_seq):
            e = self.ip.index(seq)
            x = seq.at(e)
            self.claim("firstgid of both formats/not before", g + (e >= 0, e < seq.n), F >= key_of(x) + ext_of(x.child("ts")),
                       "not behind the last range", {"C18"})
            for w in self.ip.univ.points[seq.key]:
                y = seq.at(w)
                ends.append(And(w >= 0, w < seq.n, F == key_of(y) + ext_of(y.child("ts"))))
        ends.append(And(self.own.n == 0, before.known_seq.n == 0, F == 1))
        self.claim("firstgid of both formats/not after", g, Or(*ends), "a gap before the firstgid", {"C18"})

    def resolved(self, d, puts, before, new):
        """The object as it has to be after the iteration."""
        ip = self.ip
        bring = []

        def conv(v, g):
            v = force(v)
            if isinstance(v, U):
                return U([(h, conv(x, And(g, h))) for h, x in v.alts])
            f = dict(v.fields) if isinstance(v, Rec) else {}
            if not isinstance(v, Rec) or v.cls != "Tile":
                return v
            raw = force(f["new_tileset"])
            b = Or(*[h for h, x in alts_of(raw) if x is not None])
            bring.append(And(g, b))
            gid = f["gid"]

            def check(act, pc):
                self.gid(act, pc, b, gid, puts, before, new)
            out = []
            for k, x in v.fields:
                out.append((k, Hole(check) if k == "gid" else None if k.startswith("new_tileset") else x))
            return Rec("Tile", out)
        spec = conv(spec_object(d, self.fmt, self.dir), True)
        return spec, Or(*bring)

    def gid(self, act, pc, brings, gid, puts, before, new):
        ip = self.ip
        gid = force(gid)

        def is_(x):
            def one(v):
                if sym.sort_of(v) != sym.I or isinstance(v, bool):
                    return False
                return Eq(term(v), x)
            return Or(*[And(g, one(v)) for g, v in alts_of(force(act))])
        for h, v in alts_of(gid):
            p = pc + ((h,) if h is not True else ())
            g0 = term(v)
            self.claim("gid/own", p + (zb(Not(brings)),), is_(g0), "the gid of an object without a new tileset changes")
            p += (zb(brings),)
            none = And(*[Not(c.cond) for c in puts])
            for c in puts:
                self.claim("gid/added", p + (zb(c.cond),), is_(g0 - 1 + term(c.key)), "gid in the new tileset")
            if none is False:
                continue
            found = []
            for seq in (self.own, before.known_seq):
                for w in ip.univ.points[seq.key]:
                    x = seq.at(w)
                    found.append(And(w >= 0, w < seq.n, x.child("ts").leaf("name").t == new,
                                     is_(g0 - 1 + key_of(x))))
            self.claim("gid/known", p + ((none,) if none is not True else ()), Or(*found),
                       "no tileset of that name, or another gid")

    # -- afterwards
    def finish(self, out):
        """Every object was visited; nothing else was changed."""
        ip = self.ip
        fs = flat(self.root.seq("layers"))
        i = ip.index(fs)
        q = fs.at(i).seq("objects")
        j = ip.index(q)
        d = q.at(j)
        ip.see(d)
        _, brings = self.resolved(d, [], None, None)
        pc = tuple(out.st.pc) + (i >= 0, i < fs.n, j >= 0, j < q.n, zb(brings))
        self.claim("every object is visited", pc, Or(*[And(*p, c) for p, c in self.done]), "an object is left out")
        for n, r in self.effects.items():
            if out.st.heap.get(n) is r:
                del out.st.heap[n]

    def tilesets(self, st):
        """What the tilesets of the result have to be."""
        def check(act, pc):
            r = self.ip.rec(st, act) if isinstance(act, Ref) else None
            if not (isinstance(r, AbsDict) and r.inv is self):
                raise Unsupported("tilesets of the map")
            self.claim("tilesets of the map", pc, True, "")
        return Hole(check)

"""Symbolic evaluator of the real functions: from /repo's source to verification conditions.

The function bodies are taken from the imported modules with `inspect` on every run.  A
state is (path condition, locals, heap); branches are executed on both sides and the
states merged, so one pass over a function covers all its paths.  Loops over document
sequences are summarised (loops.py); calls of functions under contract use the contract
(contracts.py), all other functions of the package are inlined.
"""
import ast
import builtins
import contextlib
import functools
import inspect
import operator
import re
import textwrap
import types

import attr
import z3

from . import docs, sym
from .docs import JDict, JList, JObj, MapOf, Rec, Rows, SeqOf, Whole, XElem, XSeq
from .sym import (B, I, R, S, UNDEF, And, B64T, BlankT, BytesV, CatT, CharStr, CharV, Concat, ContentT, Eq, Implies,
                  JoinT, Not, NumLike, NumT, OpaqueT, Or, PathV, RawTSV, Ref, Sc, SeqV, Text, Tup, TupT, U, Undef,
                  Unsupported, alts_of, lit, merge, same, sort_of, term, union, zb)


CACHED = type(functools.lru_cache(len))


class Dead(Exception):
    """The current path ended (returned, raised, broke off)."""


class NeedInv(Unsupported):
    """A loop reads what it accumulates: it needs an invariant."""


# --------------------------------------------------------------------------- records
class Lazy:
    def __init__(self, fn):
        self.fn, self.done, self.v = fn, False, None

    def get(self):
        if not self.done:
            self.v, self.done = self.fn(), True
        return self.v


def force(v):
    while isinstance(v, Lazy):
        v = v.get()
    return v


class One:
    """A list element that is there under a guard."""

    def __init__(self, guard, value):
        self.guard, self.value = guard, value


class Comp:
    """Images of all index tuples (in order) that satisfy cond: binders [(seq, index term)]."""

    def __init__(self, binders, cond, value, make=None):
        self.binders, self.cond, self.value, self.make = tuple(binders), cond, value, make

    tags = None
    levels = None           # which records belong to one index: [((intervals of records), binders)]; None: all

    def guarded(self, g):
        c = Comp(self.binders, And(g, self.cond), self.value, self.make)
        c.tags = self.tags
        for k in ("levels", "unordered"):
            if hasattr(self, k):
                setattr(c, k, getattr(self, k))
        return c


class RowsSeg:
    """The first n rows of width w of an integer sequence."""

    def __init__(self, seq, w, n):
        self.seq, self.w, self.n = seq, w, n


class SliceSeg:
    """seq[start:start+len]."""

    def __init__(self, seq, start, ln):
        self.seq, self.start, self.ln = seq, start, ln


class RangeSeq:
    """0..n-1 as a sequence (of integers)."""
    elem = "RANGE"

    def __init__(self, n, start=None, step=None, key=None):
        self.n, self.start, self.step = n, start, step
        self.key = key or ("range", n.sexpr(), str(start), str(step))

    def at(self, i):
        t = i
        if self.step is not None:
            t = t * self.step
        if self.start is not None:
            t = self.start + t
        return Sc(I, t)

    def facts(self):
        return []


class DComp:
    """Dictionary entries key -> value for all index tuples (in order) that satisfy cond."""
    distinct = False        # the keys of different indices are known to differ
    levels = None

    def __init__(self, binders, cond, key, value):
        self.binders, self.cond, self.key, self.value = tuple(binders), cond, key, value

    def guarded(self, g):
        c = DComp(self.binders, And(g, self.cond), self.key, self.value)
        c.distinct = self.distinct
        c.levels = self.levels
        return c


UNIQUE = {"map.tilesets": "firstgid", ".tiles": "id"}


def apart(c):
    """Are the keys of different indices known to differ (see trust.py: distinct first gids, tile ids)?"""
    if c.distinct:
        return True
    if len(c.binders) != 1:
        return False
    (q, i), = c.binders
    k = force(c.key)
    if not (isinstance(k, Sc) and isinstance(q, SeqV) and z3.is_app(k.t) and k.t.num_args()):
        return False
    return any((q.path == p or p[0] == "." and q.path.endswith(p)) and k.t.decl().name() == q.path + "." + n
               for p, n in UNIQUE.items()) and k.t.children()[-1].eq(i)


class DictRec:
    def __init__(self, known=None, comps=(), doc=None, what=None, mixed=False):
        self.known, self.comps, self.doc, self.what = dict(known or {}), tuple(comps), doc, what
        self.mixed = mixed       # the order of the entries is not known

    def put(self, k, v):
        d = dict(self.known)
        g = d[k][0] if k in d else False
        if g is False:
            d.pop(k, None)
        d[k] = (True, v)
        return DictRec(d, self.comps, mixed=self.mixed or not isinstance(g, bool))

    def drop(self, k):
        d = dict(self.known)
        d.pop(k, None)
        return DictRec(d, self.comps, mixed=self.mixed)


class ListRec:
    def __init__(self, segs=(), doc=None, what=None):
        self.segs, self.doc, self.what = tuple(segs), doc, what


class MaybeArg:
    """A keyword argument (of a dictionary passed with **) that is given only if g holds."""

    def __init__(self, g, v):
        self.g, self.v = g, v


class ObjRec:
    def __init__(self, cls, dic):
        self.cls, self.dic = cls, dic


class XRec:
    def __init__(self, tag, attrib, kids, text, doc=None, what=None):
        self.tag, self.attrib, self.kids, self.text, self.doc, self.what = tag, attrib, tuple(kids), text, doc, what

    def with_kids(self, kids):
        return XRec(self.tag, self.attrib, kids, self.text, None, None)


class AccRec:
    """A record that a summarised loop only adds to: `log` of (op, guard, args)."""

    def __init__(self, base, log=()):
        self.base, self.log = base, tuple(log)


class HavocRec:
    """A record that a contract's frame allows to change: nothing is known about it any more."""


class Stale:
    """A local whose value depends on the loop iteration before."""

    def __init__(self, name):
        self.name = name


# values of the verified program that only occur inside it
class BoundM:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class InterpFn:
    def __init__(self, node, env, glob, name):
        self.node, self.env, self.glob, self.name = node, env, glob, name


class FileV:
    def __init__(self, path, file):
        self.path, self.file = path, file


class TreeV:
    """Result of ElementTree.parse."""

    def __init__(self, root):
        self.root = root


class ExcV:
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args

    def __repr__(self):
        return "%s%r" % (self.cls.__name__, tuple(self.args))


class DictView:
    def __init__(self, ref, what):
        self.ref, self.what = ref, what


class GenV:
    """An evaluated generator/iterator: a list reference that may be consumed once."""

    def __init__(self, ref):
        self.ref = ref


class St:
    __slots__ = ("pc", "env", "heap")

    def __init__(self, pc=(), env=None, heap=None):
        self.pc, self.env, self.heap = tuple(pc), env if env is not None else {}, heap if heap is not None else {}

    def fork(self, *g):
        s = St(self.pc, dict(self.env), dict(self.heap))
        s.assume(*g)
        return s

    def assume(self, *g):
        self.pc = self.pc + tuple(x for x in g if x is not True)

    def become(self, o):
        self.pc, self.env, self.heap = o.pc, o.env, o.heap


class Frame:
    def __init__(self, fn, glob, cells=None, name=""):
        self.fn, self.glob, self.cells, self.name = fn, glob, cells or {}, name
        self.returns, self.loops, self.yields = [], [], None


class LoopCtx:
    def __init__(self):
        self.breaks, self.continues = [], []


def bval(g):
    """A guard as a value of the program."""
    return g if isinstance(g, bool) else Sc(B, g)


_ast_cache = {}


class MatchToIf(ast.NodeTransformer):
    """match statements (values, singletons, classes, alternatives, captures, fixed tuples) as if chains."""

    class No(Exception):
        pass

    def visit_Match(self, s):
        self.generic_visit(s)
        try:
            pre, subj = [], s.subject
            if isinstance(subj, ast.Tuple):
                subj = ast.Tuple([self.name(x, pre, s) for x in subj.elts], ast.Load())
            else:
                subj = self.name(subj, pre, s)
            chain = []
            for c in reversed(s.cases):
                conds = self.pattern(c.pattern, subj)
                if c.guard is not None:
                    conds.append(c.guard)
                if not conds:
                    chain = c.body
                    continue
                t = conds[0] if len(conds) == 1 else ast.BoolOp(ast.And(), conds)
                chain = [ast.copy_location(ast.If(t, c.body, chain), c.body[0])]
            return [ast.copy_location(x, s) for x in pre] + (chain or [ast.copy_location(ast.Pass(), s)])
        except MatchToIf.No:
            return s

    def name(self, e, pre, s):
        if isinstance(e, (ast.Name, ast.Constant)):
            return e
        n = "match:%d:%d" % (s.lineno, len(pre))
        pre.append(ast.Assign([ast.Name(n, ast.Store())], e))
        return ast.Name(n, ast.Load())

    def pattern(self, p, subj):
        if isinstance(p, ast.MatchSequence) and isinstance(subj, ast.Tuple):
            if any(isinstance(x, ast.MatchStar) for x in p.patterns):
                raise MatchToIf.No()
            if len(p.patterns) != len(subj.elts):
                return [ast.Constant(False)]
            return [c for x, y in zip(p.patterns, subj.elts) for c in self.pattern(x, y)]
        if isinstance(p, ast.MatchAs):
            out = self.pattern(p.pattern, subj) if p.pattern is not None else []
            if p.name is not None:
                bind = ast.NamedExpr(ast.Name(p.name, ast.Store()), subj)
                out.append(ast.BoolOp(ast.Or(), [ast.Compare(bind, [ast.Is()], [ast.Constant(None)]),
                                                 ast.Constant(True)]))
            return out
        if isinstance(p, ast.MatchOr):
            parts = [self.pattern(x, subj) for x in p.patterns]
            if any(not x for x in parts):
                return []
            return [ast.BoolOp(ast.Or(), [x[0] if len(x) == 1 else ast.BoolOp(ast.And(), x) for x in parts])]
        if isinstance(subj, ast.Tuple):
            raise MatchToIf.No()
        if isinstance(p, ast.MatchValue):
            return [ast.Compare(subj, [ast.Eq()], [p.value])]
        if isinstance(p, ast.MatchSingleton):
            return [ast.Compare(subj, [ast.Is()], [ast.Constant(p.value)])]
        if isinstance(p, ast.MatchMapping) and p.rest is None:
            out = [ast.Call(ast.Name("isinstance", ast.Load()), [subj, ast.Name("dict", ast.Load())], [])]
            for k, x in zip(p.keys, p.patterns):
                out.append(ast.Compare(k, [ast.In()], [subj]))
                out += self.pattern(x, ast.Subscript(subj, k, ast.Load()))
            return out
        if isinstance(p, ast.MatchClass) and not p.kwd_patterns and len(p.patterns) <= 1:
            out = [ast.Call(ast.Name("isinstance", ast.Load()), [subj, p.cls], [])]
            if p.patterns:
                if not (isinstance(p.cls, ast.Name) and p.cls.id in ("int", "str", "float", "bool", "dict", "list")):
                    raise MatchToIf.No()
                out += self.pattern(p.patterns[0], subj)
            return out
        raise MatchToIf.No()


def fn_ast(fn):
    code = fn.__code__
    if code not in _ast_cache:
        try:
            src = textwrap.dedent(inspect.getsource(fn))
            tree = ast.parse(src)
        except SyntaxError:
            # a lambda in the middle of an expression: found in its module by its line
            with open(code.co_filename, encoding="utf-8") as file:
                tree = ast.parse(file.read())
            lam = [n for n in ast.walk(tree) if isinstance(n, ast.Lambda) and n.lineno == code.co_firstlineno]
            if fn.__name__ != "<lambda>" or len(lam) != 1:
                raise Unsupported("source of %r" % fn)
            tree = ast.Expression(lam[0])
        tree = ast.fix_missing_locations(MatchToIf().visit(tree))
        node = tree.body[0] if isinstance(tree, ast.Module) else tree.body
        if not isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            # a lambda assigned somewhere
            lam = [n for n in ast.walk(tree) if isinstance(n, ast.Lambda)]
            if len(lam) != 1:
                raise Unsupported("source of %r" % fn)
            node = lam[0]
        _ast_cache[code] = node
    return _ast_cache[code]


def has_yield(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


BINOPS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.FloorDiv: "floordiv", ast.Mod: "mod",
          ast.LShift: "lshift", ast.RShift: "rshift", ast.BitAnd: "and", ast.BitOr: "or", ast.BitXor: "xor",
          ast.Pow: "pow"}


class Interp:
    PKG = "pytiled_parser"

    def __init__(self, contracts=None, timeout=5000, deadline=None):
        from . import lib, loops
        self.lib, self.loops = lib.Lib(self), loops.Loops(self)
        self.contracts = contracts or {}
        self.base = {}
        self.inv = None              # the declared invariant of a loop (templates.py)
        self.fresh_names = set()
        self.owners = {}             # records of results of contracts -> the node of the document
        self.prog = set()            # initial records of all references
        self.solver = sym.Solver(timeout)
        self.deadline = deadline
        self.top = None
        self.uses = {}
        self.raises = [[]]
        self.frames = []
        self.depth = 0
        self.effects = []         # (kind, detail, pc): prints, writes to shared state, files written
        self.used = {}            # functions inlined / contracts used
        self.facts = {}           # doc key -> facts
        self._feas = {}
        self.fresh_n = 0
        self.file_system = None
        self.docs_seen = {}
        self.contract_uses = []
        self.gen_consts = {}
        self.globals_read = set()
        self.open_binders = ()    # indices of the generic iterations that are being executed
        self.univ = quant_mod().Universals(self)

    # ------------------------------------------------------------------ basics
    def fresh(self, name, sort=I):
        self.fresh_n += 1
        n = "%s!%d" % (name, self.fresh_n)
        self.fresh_names.add(n)
        quant_mod().OPEN[self.fresh_n] = self.open_binders
        return z3.Const(n, sym.SORT.get(sort, sort))

    def tick(self):
        import time
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time limit of the verifier")

    def alloc(self, st, rec):
        """A new record; the ones the program itself makes are listed in the heap of their state."""
        n = len(self.base)
        self.base[n] = rec
        if st is not None:
            self.prog.add(n)
            st.heap[n] = rec
        return Ref(n)

    def alloc_doc(self, rec):
        rec.lifted = True
        return self.alloc(None, rec)

    def rec(self, st, ref):
        r = st.heap.get(ref.n)
        if isinstance(r, HavocRec):
            raise Unsupported("use of data that a callee may have changed (or an iterator that was read)")
        return self.base[ref.n] if r is None else r

    def put(self, st, ref, rec):
        if isinstance(self.rec(st, ref), AccRec) and not isinstance(rec, AccRec):
            raise NeedInv("write to an accumulator")
        st.heap[ref.n] = rec

    def havoc(self, st, ref):
        """The callee may have changed anything within the document part `ref`."""
        for n in self.within(ref):
            st.heap[n] = HavocRec()

    MAY_CHANGE = ("layer", "object", "tile")

    def within(self, ref):
        """The records below (and at) layers, objects and tiles of a document part that were built so far."""
        out, seen, todo = set(), set(), [(ref, False)]
        while todo:
            v, on = todo.pop()
            while isinstance(v, Lazy):
                if not v.done:
                    v = None
                    break
                v = v.v
            if isinstance(v, U):
                todo += [(x, on) for _, x in v.alts]
            elif isinstance(v, Tup):
                todo += [(x, on) for x in v.items]
            elif isinstance(v, Ref) and (v.n, on) not in seen:
                r = self.base[v.n]
                on = on or getattr(r, "what", None) in self.MAY_CHANGE
                seen.add((v.n, on))
                if on:
                    out.add(v.n)
                below = []
                if isinstance(r, DictRec):
                    below = [x for _, x in r.known.values()] + [c.value for c in r.comps]
                elif isinstance(r, ListRec):
                    below = [s.value for s in r.segs if isinstance(s, (One, Comp))]
                elif isinstance(r, XRec):
                    below = [r.attrib] + [s.value for s in r.kids if isinstance(s, (One, Comp))]
                todo += [(x, on) for x in below]
        return out

    def deep_pristine(self, st, ref, d):
        """Neither the record nor anything lifted from the same document node was changed."""
        if not self.pristine(st, ref):
            return False
        w = getattr(self.base[ref.n], "what", None)
        prefix = d.path if isinstance(d, sym.SymDoc) else d.d.path
        if isinstance(w, tuple):
            prefix += "." + w[1]
        elif w == "properties":
            prefix += ".properties"
        for n, r in st.heap.items():
            b = self.base[n]
            if r is b:
                continue
            e = getattr(b, "doc", None)
            e = getattr(e, "d", e)
            if e is None:
                if getattr(b, "lifted", False):
                    return False
                continue
            ew = getattr(b, "what", None)
            if (e.path + "." + ew[1] if isinstance(ew, tuple) and ew[0] in ("list", "dict") else e.path).startswith(
                    prefix) and tuple(t.sexpr() for t in e.idx[:len(d.idx)]) == \
                    tuple(t.sexpr() for t in d.idx):
                return False
        return True

    def pristine(self, st, ref):
        return ref.n not in st.heap or st.heap[ref.n] is self.base[ref.n]

    # ------------------------------------------------------------------ solver
    def relevant(self, fs):
        """Schema facts that talk about symbols of the formulas."""
        syms = set()
        for f in fs:
            if not isinstance(f, bool):
                syms |= symbols(f)
        out, todo = [], True
        seen = set()
        while todo:
            todo = False
            for k, (f, ss) in self.facts.items():
                if k not in seen and ss & syms:
                    seen.add(k)
                    out.append(f)
                    if len(ss) < 8 and not ss <= syms:
                        syms |= ss
                        todo = True
        return out

    def note_doc(self, d):
        """Registers the schema facts of a document node."""
        if d.key in self.docs_seen:
            return
        self.docs_seen[d.key] = d
        for f in d.facts():
            if isinstance(f, bool):
                continue
            self.add_fact(f)
        if d.parent is not None:
            self.note_doc(d.parent)

    def add_fact(self, f):
        k = f.sexpr()
        if k not in self.facts:
            self.facts[k] = (f, symbols(f))

    def fact_mark(self):
        return self.fresh_n, self.univ.snapshot()

    def fact_reset(self, mark):
        """Forgets what is known about names that were introduced after the mark (by a discarded trial)."""
        n, snap = mark
        self.univ.restore(snap)
        old = [k for k, (f, ss) in self.facts.items() if any(introduced(x) > n for x in ss)]
        for k in old:
            del self.facts[k]

    def check(self, fs, timeout=None):
        self.tick()
        fs = [f for f in fs if f is not True]
        if any(f is False for f in fs):
            return "unsat", None
        return self.solver.check(fs + self.relevant(fs), timeout)

    def feasible(self, pc, *g):
        fs = [x for x in tuple(pc) + g if x is not True]
        if any(x is False for x in fs):
            return False
        if not fs:
            return True
        k = tuple(sorted(x.get_id() for x in fs)) + (len(self.facts),)
        if k not in self._feas:
            self._feas[k] = (self.check(fs, 3000)[0] != "unsat", fs)
        return self._feas[k][0]

    def valid(self, pc, g):
        """Is g implied by the path condition?"""
        if g is True:
            return True
        if g is False:
            return not self.feasible(pc)
        return self.check(list(pc) + [Not(g)], 5000)[0] == "unsat"

    # ------------------------------------------------------------------ branching
    def nbranch(self, st, alts):
        """alts: exclusive and exhaustive [(guard, fn(state) -> value)]."""
        self.tick()
        live = [(g, f) for g, f in alts if g is not False and self.feasible(st.pc, g)]
        if not live:
            raise Dead()
        if len(live) == 1:
            return live[0][1](st)
        out = []
        for g, f in live:
            s = st.fork(g)
            try:
                v = f(s)
            except Dead:
                continue
            out.append((g, s, v))
        if not out:
            raise Dead()
        vals = self.merge_states(st, [(g, s) for g, s, _ in out], len(live) == len(out))
        return union([(g, v) for g, (_, _, v) in zip(vals, out)]) if len(out) > 1 else out[0][2]

    def branch(self, st, cond, a, b):
        if cond is True:
            return a(st)
        if cond is False:
            return b(st)
        return self.nbranch(st, [(cond, a), (Not(cond), b)])

    def split(self, st, v, fn):
        v = force(v)
        if isinstance(v, Whole):
            v = self.expand(st, v)
        if not isinstance(v, U):
            return fn(st, v)
        return self.nbranch(st, [(g, (lambda s, x=x: self.split(s, x, fn))) for g, x in v.alts])

    def merge_states(self, st, gs, exhaustive):
        """Merges states (with discriminating guards) into st; returns the guards to use."""
        base = st.pc
        n = len(base)
        rels, plain = [], exhaustive
        for g, s in gs:
            rest = s.pc[n:]
            if rest != (() if g is True else (g,)):
                if not (len(rest) == 1 and rest[0] is g):
                    plain = False
            rels.append(And(*rest))
        if len(gs) == 1:
            st.become(gs[0][1])
            return [True]
        env = {}
        names = []
        for _, s in gs:
            for k in s.env:
                if k not in env:
                    env[k] = None
                    names.append(k)
        for k in names:
            vs = [(g, s.env.get(k, UNDEF)) for g, s in gs]
            v0 = vs[0][1]
            env[k] = v0 if all(v is v0 or same(v, v0) for _, v in vs) else merge_env(vs)
        heap = {}
        for _, s in gs:
            for k in s.heap:
                if k in heap:
                    continue
                # a record that was made in some of the states does not exist in the others
                rs = [(g, t.heap.get(k, self.base[k])) for g, t in gs if k in t.heap or k not in self.prog]
                heap[k] = self.merge_recs(rs)
        st.env, st.heap = env, heap
        st.pc = base if plain else base + (zb(Or(*rels)),)
        return [g for g, _ in gs]

    def merge_recs(self, rs):
        r0 = rs[0][1]
        if all(r is r0 for _, r in rs):
            return r0
        acc_g, acc = rs[-1]
        for g, r in reversed(rs[:-1]):
            acc = self.merge_rec2(g, r, acc)
        return acc

    def merge_rec2(self, g, a, b):
        if a is b:
            return a
        if g is True:
            return a
        if isinstance(a, HavocRec) or isinstance(b, HavocRec):
            return HavocRec()
        if type(a) is not type(b) and not (isinstance(a, DictRec) and isinstance(b, DictRec)):
            raise Unsupported("merging different records")
        if isinstance(a, AccRec):
            log = common_prefix(a.log, b.log)
            n = len(log)
            return AccRec(a.base, log + tuple((op, And(g, h), args) for op, h, args in a.log[n:]) +
                          tuple((op, And(Not(g), h), args) for op, h, args in b.log[n:]))
        if isinstance(a, DictRec):
            if getattr(a, "inv", None) is not None and getattr(b, "inv", None) is a.inv:
                return a.inv.fresh()         # both satisfy the invariant
            known = {}
            for k in list(a.known) + [k for k in b.known if k not in a.known]:
                ga, va = a.known.get(k, (False, None))
                gb, vb = b.known.get(k, (False, None))
                if ga is False:
                    known[k] = (And(Not(g), gb), vb)
                elif gb is False:
                    known[k] = (And(g, ga), va)
                elif va is vb:
                    known[k] = (ga if ga is gb else Or(And(g, ga), And(Not(g), gb)), va)
                else:
                    gd = ga if ga is gb else Or(And(g, ga), And(Not(g), gb))
                    known[k] = (gd, Lazy(lambda va=va, vb=vb: merge(g, force(va), force(vb))))
            comps = common_prefix(a.comps, b.comps)
            n = len(comps)
            comps += tuple(c.guarded(g) for c in a.comps[n:])
            comps += tuple(c.guarded(Not(g)) for c in b.comps[n:])
            mixed = a.mixed or b.mixed or [k for k in known if k in b.known] != list(b.known)
            return DictRec(known, comps, mixed=mixed)
        if isinstance(a, ListRec):
            return ListRec(merge_segs(g, a.segs, b.segs))
        if isinstance(a, XRec):
            return XRec(merge(g, a.tag, b.tag), a.attrib, merge_segs(g, a.kids, b.kids),
                        Lazy(lambda: merge(g, force(a.text), force(b.text))))
        if isinstance(a, ObjRec) and a.cls is b.cls:
            raise Unsupported("merging objects")
        raise Unsupported("merging records")

    # ------------------------------------------------------------------ exceptions
    def throw(self, st, exc):
        self.raises[-1].append((st.fork(), exc))
        raise Dead()

    def throw_if(self, st, cond, cls, *args):
        """Raises cls where cond holds; afterwards the path condition excludes it."""
        if cond is False:
            return
        if cond is True:
            self.throw(st, ExcV(cls, args))
        if not self.feasible(st.pc, cond):
            return
        s = st.fork(cond)
        self.raises[-1].append((s, ExcV(cls, args)))
        st.assume(Not(cond))
        if not self.feasible(st.pc):
            raise Dead()

    # ------------------------------------------------------------------ lifting documents
    def lift(self, v, st=None):
        """A value of the rendered document as a value of the program."""
        v = force(v)
        if isinstance(v, U):
            return union([(g, self.lift(x)) for g, x in v.alts])
        if isinstance(v, JObj):
            if v.doc is not None:
                self.note_doc(v.doc)
            known = {}
            for k, g, th in v.items:
                if g is False:
                    continue
                known[k] = (g, Lazy(lambda th=th: self.lift(th())))
            return self.alloc_doc(DictRec(known, (), v.doc, v.what))
        if isinstance(v, JList):
            return self.alloc_doc(ListRec(self.doc_segs(v.seq, v.fn), getattr(v.seq, "d", None),
                                            ("list", getattr(v.seq, "name", None))))
        if isinstance(v, JDict):
            i = self.index(v.seq)
            x = v.seq.at(i)
            self.see(x)
            c = DComp([(v.seq, i)], True, Lazy(lambda: self.lift(v.key(x))), Lazy(lambda: self.lift(v.fn(x))))
            c.distinct = True
            return self.alloc_doc(DictRec({}, [c], v.seq.d, ("dict", v.seq.name)))
        if isinstance(v, XElem):
            if v.doc is not None:
                self.note_doc(v.doc)
            known = {}
            for k, g, th in v.attrs:
                if g is False:
                    continue
                known[k] = (g, Lazy(lambda th=th: self.lift(th())))
            attrib = self.alloc_doc(DictRec(known, (), v.doc, (v.what or v.tag, "attrib")))
            kids = []
            for g, th in v.children:
                if g is False:
                    continue
                c = th()
                if isinstance(c, XSeq):
                    kids += [s.guarded(g) if g is not True else s for s in self.doc_segs(c.seq, c.fn, c.tags)]
                else:
                    kids.append(One(g, LazyX(c.tag, Lazy(lambda c=c: self.lift(c)))))
            text = Lazy(lambda: self.lift(v.text())) if v.text is not None else None
            return self.alloc_doc(XRec(v.tag, attrib, kids, text, v.doc, v.what))
        if isinstance(v, RawTSV):
            raise Unsupported("raw tileset value")
        return v

    def see(self, x):
        if isinstance(x, sym.SymDoc):
            self.note_doc(x)

    def index(self, seq):
        """The canonical generic index of a sequence."""
        if seq.key not in self.gen_consts:
            self.fresh_n += 1
            self.gen_consts[seq.key] = z3.Int("%s@%d" % ("i", self.fresh_n))
        return self.gen_consts[seq.key]

    def doc_segs(self, seq, fn, tags=None):
        if isinstance(seq, Concat):
            out = []
            for p in seq.parts:
                out += self.doc_segs(p, fn, tags)
            return out
        if isinstance(seq, (tuple, list)):
            return [One(True, Lazy(lambda x=x: self.lift(fn(x)))) for x in seq]
        i = self.index(seq)
        x = seq.at(i)
        self.see(x)
        if seq.elem == docs.INT and seq.name == "data":
            self.add_fact(x.t >= 0)
            self.add_fact(x.t < 2 ** 32)
        def make(t):
            y = seq.at(t)
            self.see(y)
            return self.lift(fn(y))
        c = Comp([(seq, i)], True, Lazy(lambda: self.lift(fn(x))), make)
        c.tags = tags
        return [c]

    # ------------------------------------------------------------------ contracts' results
    def expand(self, st, w):
        """The result object a contract promises, as a heap object."""
        k = sym.whole_key(w)
        if self.affected(st, w) == "maybe":
            raise Unsupported("a result that may have been changed elsewhere")
        memo = self.__dict__.setdefault("_expanded", {})
        if k not in memo:
            memo[k] = self.materialise(w.spec(w.d, *w.args), w.d)
            self.see(w.d)
        return memo[k]

    def written(self, st):
        """The nodes of the document whose results (of contracts) the program has changed."""
        out = {}
        for n in self.owners.keys() & st.heap.keys():
            if st.heap[n] is not self.base[n]:
                d = self.owners[n]
                out[d.key] = d
        return list(out.values())

    def affected(self, st, w):
        """Has the result of a contract been changed since? False, "same" (exactly this one) or "maybe"."""
        r = False
        for d in self.written(st):
            x = alias(w.d, d)
            if x == "maybe":
                return x
            r = r or x
        return r

    def materialise(self, v, owner=None):
        v = force(v)
        if isinstance(v, U):
            return U([(g, self.materialise(x, owner)) for g, x in v.alts])
        if isinstance(v, Rec):
            cls = self.result_class(v.cls, [k for k, _ in v.fields])
            if cls is None:
                raise Unsupported("class " + v.cls)
            if issubclass(cls, tuple):
                return Tup(cls, [self.materialise(x, owner) for _, x in v.fields])
            dic = self.alloc_of(owner, DictRec({k: (True, Lazy(lambda x=x: self.materialise(x, owner)))
                                                for k, x in v.fields}))
            return self.alloc_of(owner, ObjRec(cls, dic))
        if isinstance(v, SeqOf):
            return self.alloc_of(owner, ListRec(self.spec_segs(v, owner)))
        if isinstance(v, MapOf):
            return self.alloc_of(owner, DictRec({}, self.spec_entries(v, owner)))
        if isinstance(v, Rows):
            return self.alloc_of(owner, ListRec([RowsSeg(v.seq, term(v.w), term(v.h))]))
        if isinstance(v, sym.RawTSV):
            return self.lift_raw_tileset(v)
        return v

    def alloc_of(self, owner, rec):
        r = self.alloc(None, rec)
        if owner is not None:
            self.owners[r.n] = owner
        return r

    def lift_raw_tileset(self, v):
        """The unparsed tileset of a template as the object parser hands it out: the content of its own file."""
        d = v.ref.child("ts")
        k = v.ref.kind("fmt")
        self.see(v.ref)
        self.see(d)
        return union([(k.is_("json"), self.lift(docs.json_tileset(d))), (k.is_("tmx"), self.lift(docs.tmx_tileset(d)))])

    def spec_segs(self, v, owner=None):
        parts = v.seq.parts if isinstance(v.seq, Concat) else [v.seq]
        out = []
        for s in parts:
            if isinstance(s, tuple):
                continue
            i = self.index(s)
            x = s.at(i)
            self.see(x)
            out.append(Comp([(s, i)], True, Lazy(lambda x=x: self.materialise(v.fn(x), owner))))
        return out

    def spec_entries(self, v, owner=None):
        parts = v.seq.parts if isinstance(v.seq, Concat) else [v.seq]
        out = []
        for s in parts:
            if isinstance(s, tuple):
                continue
            i = self.index(s)
            x = s.at(i)
            self.see(x)
            out.append(DComp([(s, i)], True, Lazy(lambda x=x: v.key(x)), Lazy(lambda x=x: self.materialise(v.val(x), owner))))
        return out

    def result_class(self, name, fields):
        import pytiled_parser as pp
        from pytiled_parser import common_types, layer, tiled_map, tiled_object, tileset, wang_set, world
        if name == "Tile":
            return tiled_object.Tile if "gid" in fields else tileset.Tile
        if name == "Grid" or name == "Frame" or name == "Transformations" or name == "Tileset":
            return getattr(tileset, name)
        for m in (common_types, layer, tiled_object, tiled_map, wang_set, world):
            c = getattr(m, name, None)
            if isinstance(c, type):
                return c
        return None

    # ------------------------------------------------------------------ truth, equality
    def truth(self, st, v):
        v = force(v)
        if v is None or isinstance(v, (bool, int, float, str, bytes)):
            return bool(v)
        if isinstance(v, Whole):
            v = self.expand(st, v)
        if isinstance(v, U):
            return Or(*[And(g, self.truth(st, x)) for g, x in v.alts])
        if isinstance(v, Sc):
            if v.s == B:
                return v.t
            if v.s == S:
                return Not(Eq(v.t, lit("")))
            return Not(Eq(v.t, term(0, v.s)))
        if isinstance(v, (NumT, B64T, BlankT, ContentT)):
            return True
        if isinstance(v, JoinT):
            return v.seq.n > 0
        if isinstance(v, TupT):
            return len(v.pieces) > 0
        if isinstance(v, CharStr):
            return bool(v.chars) or v.rest is not None
        if isinstance(v, CatT):
            return Or(*[self.truth(st, p) for p in v.parts])
        if isinstance(v, (PathV, FileV, InterpFn, BoundM, ExcV, TreeV, lib_mod().MatchV, lib_mod().RegexV)):
            return True
        if isinstance(v, Tup):
            return len(v.items) > 0
        if isinstance(v, Ref):
            r = self.rec(st, v)
            if isinstance(r, DictRec):
                return Or(*[g for g, _ in r.known.values()] + [self.seg_nonempty(st, c) for c in r.comps])
            if isinstance(r, ListRec):
                return self.segs_nonempty(st, r.segs)
            if isinstance(r, XRec):
                return self.segs_nonempty(st, r.kids)
            if isinstance(r, ObjRec):
                for m in ("__bool__", "__len__"):
                    if hasattr(r.cls, m):
                        raise Unsupported("truth of " + r.cls.__name__)
                return True
            if isinstance(r, AccRec):
                raise NeedInv("truth of an accumulator")
        if isinstance(v, DictView):
            return self.truth(st, v.ref)
        if isinstance(v, (type, types.FunctionType, types.ModuleType, types.BuiltinFunctionType)):
            return True
        if isinstance(v, (list, dict, tuple, set, frozenset)):
            return bool(v)
        raise Unsupported("truth of %r" % (v,))

    def seg_nonempty(self, st, c):
        if isinstance(c, (Comp, DComp)):
            ns = [s.n > 0 for s, _ in c.binders]
            if c.cond is True or self.valid(st.pc + self.binder_facts(c.binders), c.cond):
                return And(*ns)
            # exact only if the condition does not depend on the indices
            idx = {str(i) for _, i in c.binders}
            if not (names_in(c.cond) & idx):
                return And(c.cond, *ns)
            raise Unsupported("emptiness of a filtered sequence")
        raise Unsupported("emptiness of segment")

    def binder_facts(self, binders):
        out = []
        for s, i in binders:
            out += [i >= 0, i < s.n]
            for f in s.facts():
                if not isinstance(f, bool):
                    self.add_fact(f)
        return tuple(out)

    def segs_nonempty(self, st, segs):
        gs = []
        for s in segs:
            if isinstance(s, One):
                gs.append(s.guard)
            elif isinstance(s, Comp):
                gs.append(self.seg_nonempty(st, s))
            elif isinstance(s, RowsSeg):
                gs.append(s.n > 0)
            elif isinstance(s, SliceSeg):
                gs.append(s.ln > 0)
        return Or(*gs)

    def equal(self, st, a, b):
        """Guard of a == b."""
        a, b = force(a), force(b)
        if isinstance(a, U):
            return Or(*[And(g, self.equal(st, x, b)) for g, x in a.alts])
        if isinstance(b, U):
            return Or(*[And(g, self.equal(st, a, x)) for g, x in b.alts])
        if a is b and not isinstance(a, float):
            return True
        if isinstance(a, Whole):
            return self.equal(st, self.expand(st, a), b)
        if isinstance(b, Whole):
            return self.equal(st, a, self.expand(st, b))
        sa, sb = sort_of(a), sort_of(b)
        if sa and sb:
            if sa == sb == S and isinstance(a, str) and isinstance(b, str):
                return a == b
            if sa == S or sb == S:
                if sa != sb:
                    return False
                return Eq(term(a), term(b))
            if not isinstance(a, Sc) and not isinstance(b, Sc):
                return a == b
            if sa == B and sb == B:
                return Eq(term(a), term(b))
            na, nb = self.as_num(a), self.as_num(b)
            k = R if R in (sort_of(na), sort_of(nb)) else I
            return Eq(term(na, k), term(nb, k))
        if a is None or b is None:
            return False
        if isinstance(a, Text) or isinstance(b, Text):
            return self.lib.text_equal(st, a, b)
        if isinstance(a, PathV) and isinstance(b, PathV):
            return Eq(a.t, b.t)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            return And(*[self.equal(st, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Ref) and isinstance(b, Ref) and a.n == b.n:
            return True
        if isinstance(a, (type, types.FunctionType)) and isinstance(b, (type, types.FunctionType)):
            return a is b
        if isinstance(a, Ref) and isinstance(b, Ref):
            ra, rb = self.rec(st, a), self.rec(st, b)
            if isinstance(ra, ListRec) and isinstance(rb, ListRec):
                if not ra.segs and not rb.segs:
                    return True
                if not rb.segs:
                    return Not(self.truth(st, a))
                if not ra.segs:
                    return Not(self.truth(st, b))
            if isinstance(ra, DictRec) and isinstance(rb, DictRec):
                if not rb.known and not rb.comps:
                    return Not(self.truth(st, a))
                if not ra.known and not ra.comps:
                    return Not(self.truth(st, b))
            if type(ra) is not type(rb) and not isinstance(ra, (AccRec, HavocRec)) and \
                    not isinstance(rb, (AccRec, HavocRec)):
                return False
            if isinstance(ra, ListRec) and isinstance(rb, ListRec) and all(
                    isinstance(x, One) and x.guard is True for x in ra.segs + rb.segs):
                if len(ra.segs) != len(rb.segs):
                    return False
                return And(*[self.equal(st, x.value, y.value) for x, y in zip(ra.segs, rb.segs)])
            if isinstance(ra, DictRec) and isinstance(rb, DictRec) and not ra.comps and not rb.comps:
                out = []
                for k in list(ra.known) + [k for k in rb.known if k not in ra.known]:
                    g, x = ra.known.get(k, (False, None))
                    h, y = rb.known.get(k, (False, None))
                    out.append(Or(And(Not(g), Not(h)), And(g, h, self.equal(st, x, y) if g is not False and h is not False
                                                           else False)))
                return And(*out)
        if isinstance(a, NumLike) or isinstance(b, NumLike):
            raise Unsupported("comparing a version number")
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Tup) and isinstance(y, Ref) and isinstance(self.rec(st, y), (ListRec, DictRec, ObjRec)):
                return False
        if sa or sb:
            return False    # a scalar never equals a container
        raise Unsupported("equality of %r and %r" % (a, b))

    def as_num(self, v):
        """Bool to int."""
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, Sc) and v.s == B:
            return Sc(I, z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
        return v

    def identical(self, st, a, b):
        """Guard of `a is b`."""
        a, b = force(a), force(b)
        if isinstance(a, U):
            return Or(*[And(g, self.identical(st, x, b)) for g, x in a.alts])
        if isinstance(b, U):
            return Or(*[And(g, self.identical(st, a, x)) for g, x in b.alts])
        if isinstance(a, Whole) or isinstance(b, Whole):
            if a is None or b is None:
                w = a if b is None else b
                v = self.expand(st, w)
                return self.identical(st, v, None)
            return same(a, b)
        for x, y in ((a, b), (b, a)):
            if y is None or isinstance(y, (type, types.FunctionType, types.ModuleType)):
                return x is y
            if isinstance(y, bool):
                if isinstance(x, Sc) and x.s == B:
                    return x.t if y else Not(x.t)
                return x is y
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.n == b.n
        if type(a) is not type(b):
            return False
        raise Unsupported("identity of values")

    # ------------------------------------------------------------------ functions
    def captured(self, st, fn):
        """The variables of the enclosing function, with the values they have when the function is called."""
        home = fn.home
        if home is self.frames[-1]:
            now = st.env
        elif any(home is f for f in self.frames):
            now = home.suspended
        else:
            now = {}
            if home.fn is not None and reassigned(home.fn, fn.node):
                raise Unsupported("a closure over a variable that changes")
        cells = dict(fn.env)
        cells.update(now)
        return cells

    def cache_decorator(self, d, glob):
        """functools.lru_cache(..) or functools.cache: the function itself is what they decorate."""
        d = d.func if isinstance(d, ast.Call) else d
        try:
            v = eval(compile(ast.Expression(d), "<decorator>", "eval"), dict(glob)) \
                if isinstance(d, (ast.Name, ast.Attribute)) else None
        except (NameError, AttributeError):
            v = None
        return v in (functools.lru_cache, functools.cache)

    def call_function(self, st, fn, args, kwargs):
        """Inlines a function of the package."""
        if isinstance(fn, InterpFn):
            node, glob, cells, name = fn.node, fn.glob, self.captured(st, fn), fn.name
            defaults = fn_defaults_interp(fn)
        else:
            node = fn_ast(fn)
            glob, name = fn.__globals__, fn.__module__ + "." + fn.__qualname__
            cells = {}
            if fn.__closure__:
                for k, c in zip(fn.__code__.co_freevars, fn.__closure__):
                    cells[k] = c.cell_contents
            self.used[name] = self.used.get(name, 0) + 1
            defaults = (fn.__defaults__ or (), fn.__kwdefaults__ or {})
            if getattr(node, "decorator_list", None):
                for d in node.decorator_list:
                    if not self.cache_decorator(d, glob):
                        raise Unsupported("decorated function " + name)
        if len(self.frames) > 60:
            raise Unsupported("recursion")
        env = self.bind(st, node.args, args, kwargs, defaults, name)
        fr = Frame(node, glob, cells, name)
        saved = st.env
        base_pc = st.pc
        st.env = env
        if self.frames:
            self.frames[-1].suspended = saved
        self.frames.append(fr)
        nraised = len(self.raises[-1])
        try:
            if isinstance(node, ast.Lambda):
                v = self.eval(st, node.body)
                st.env = saved
                return v
            gen = has_yield_own(node)
            if gen:
                fr.yields = self.alloc(st, ListRec())
            outs = []
            start = St(base_pc, dict(st.env), dict(st.heap))
            try:
                self.block(st, node.body)
                outs.append((st.fork(), None))
            except Dead:
                pass
            outs = fr.returns + outs
            if not outs:
                raise Dead()
            if gen:
                outs = [(s, GenV(fr.yields)) for s, _ in outs]
            v = self.join(st, base_pc, outs)
            st.env = saved
            return v
        except Dead:
            st.env = saved
            raise
        finally:
            self.frames.pop()
            for s, _ in self.raises[-1][nraised:]:
                s.env = dict(saved)

    def join(self, st, base_pc, outs):
        """Joins ended states [(state, value)] (mutually exclusive) into st."""
        if len(outs) == 1:
            s, v = outs[0]
            st.become(s)
            return v
        n = len(base_pc)
        gs = []
        for s, v in outs:
            gs.append(And(*s.pc[n:]))
        st.pc = base_pc
        for s, _ in outs:
            s.env = {}
        gs2 = shorten(gs)
        self.merge_states(st, list(zip(gs2, [s for s, _ in outs])), False)
        return union(list(zip(gs2, [v for _, v in outs])))

    def bind(self, st, a, args, kwargs, defaults, name):
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        dpos, dkw = defaults
        args = list(args)
        kwargs = dict(kwargs)
        for i, p in enumerate(pos):
            if i < len(args):
                if p in kwargs:
                    self.throw(st, ExcV(TypeError, ("multiple values for " + p,)))
                env[p] = args[i]
            elif p in kwargs:
                env[p] = kwargs.pop(p)
            else:
                j = i - (len(pos) - len(dpos))
                if j < 0:
                    self.throw(st, ExcV(TypeError, ("missing argument " + p,)))
                env[p] = self.shared(dpos[j], "default of " + name)
        rest = args[len(pos):]
        if a.vararg:
            env[a.vararg.arg] = Tup(tuple, rest)
        elif rest:
            self.throw(st, ExcV(TypeError, ("too many arguments",)))
        for x in a.kwonlyargs:
            p = x.arg
            if p in kwargs:
                env[p] = kwargs.pop(p)
            elif p in dkw:
                env[p] = self.shared(dkw[p], "default of " + name)
            else:
                self.throw(st, ExcV(TypeError, ("missing argument " + p,)))
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc(st, DictRec({k: (True, v) for k, v in kwargs.items()}))
        elif kwargs:
            self.throw(st, ExcV(TypeError, ("unexpected arguments %s" % list(kwargs),)))
        return env

    def shared(self, v, where):
        """A value that exists before the call: containers stay native (shared, read only)."""
        return v

    # ------------------------------------------------------------------ statements
    def block(self, st, stmts):
        for s in stmts:
            self.stmt(st, s)

    def stmt(self, st, s):
        self.tick()
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(s).__name__)
        return m(st, s)

    def st_Expr(self, st, s):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Yield):
            v = self.eval(st, s.value.value) if s.value.value is not None else None
            self.list_append(st, self.frames[-1].yields, v)
            return
        if isinstance(s.value, ast.YieldFrom):
            v = self.eval(st, s.value.value)
            self.list_extend(st, self.frames[-1].yields, v)
            return
        self.eval(st, s.value)

    def st_AccStmt(self, st, s):
        self.loops.accumulate(st, s)

    def st_CallStmt(self, st, s):
        self.list_append(st, s.ref, s.fn(st, st.env["\0x"]))

    def st_HookStmt(self, st, s):
        s.hook(st)

    def st_Pass(self, st, s):
        pass

    def st_Global(self, st, s):
        raise Unsupported("global statement")

    st_Nonlocal = st_Global

    def st_Import(self, st, s):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            st.env[a.asname or a.name.split(".")[0]] = m if a.asname else importlib.import_module(a.name.split(".")[0])

    def st_ImportFrom(self, st, s):
        import importlib
        if s.level:
            raise Unsupported("relative import in a function")
        m = importlib.import_module(s.module)
        for a in s.names:
            st.env[a.asname or a.name] = getattr(m, a.name)

    def st_Assign(self, st, s):
        v = self.eval(st, s.value)
        for t in s.targets:
            self.assign(st, t, v)

    def st_AnnAssign(self, st, s):
        if s.value is not None:
            self.assign(st, s.target, self.eval(st, s.value))

    def st_AugAssign(self, st, s):
        op = BINOPS[type(s.op)]
        if isinstance(s.target, ast.Name):
            cur = self.eval(st, ast.Name(s.target.id, ast.Load()))
            v = self.eval(st, s.value)
            cur1 = force(cur)
            if isinstance(cur1, Ref) and isinstance(self.rec(st, cur1), (ListRec, AccRec)) and op == "add":
                self.list_extend(st, cur1, v)
                return
            st.env[s.target.id] = self.binop(st, op, cur, v)
            return
        if isinstance(s.target, ast.Attribute):
            obj = self.eval(st, s.target.value)
            cur = self.get_attr(st, obj, s.target.attr)
            v = self.eval(st, s.value)
            c1 = force(cur)
            if isinstance(c1, Ref) and isinstance(self.rec(st, c1), (ListRec, AccRec)) and op == "add":
                self.list_extend(st, c1, v)
                return
            self.set_attr(st, obj, s.target.attr, self.binop(st, op, cur, v))
            return
        if isinstance(s.target, ast.Subscript):
            obj = self.eval(st, s.target.value)
            k = self.eval_index(st, s.target.slice)
            cur = self.get_item(st, obj, k)
            v = self.eval(st, s.value)
            c1 = force(cur)
            if isinstance(c1, Ref) and isinstance(self.rec(st, c1), (ListRec, AccRec)) and op == "add":
                self.list_extend(st, c1, v)
                return
            self.set_item(st, obj, k, self.binop(st, op, cur, v))
            return
        raise Unsupported("augmented assignment")

    def assign(self, st, t, v):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.set_attr(st, self.eval(st, t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(st, t.value)
            self.set_item(st, obj, self.eval_index(st, t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            def one(s2, x):
                vals = self.finite(s2, x)
                if vals is None:
                    raise Unsupported("unpacking")
                stars = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
                if stars:
                    k, after = stars[0], len(t.elts) - 1 - stars[0]
                    if len(vals) < k + after:
                        self.throw(s2, ExcV(ValueError, ("unpack",)))
                    end = len(vals) - after
                    mid = self.alloc(s2, ListRec([One(True, x) for x in vals[k:end]]))
                    vals = list(vals[:k]) + [mid] + list(vals[end:])
                if len(vals) != len(t.elts):
                    self.throw(s2, ExcV(ValueError, ("unpack",)))
                return Tup(tuple, vals)
            vals = self.split(st, v, one)
            if isinstance(vals, U):
                raise Unsupported("unpacking a union")
            for e, x in zip(t.elts, vals.items):
                self.assign(st, e.value if isinstance(e, ast.Starred) else e, x)
        else:
            raise Unsupported("assignment target")

    def finite(self, st, v):
        """The elements of a finite iterable with certain elements, or None."""
        v = force(v)
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, GenV):
            r = self.rec(st, v.ref) if isinstance(v.ref, Ref) else None
            if isinstance(r, ListRec) and all(isinstance(s, One) and s.guard is True for s in r.segs):
                return [s.value for s in self.segments(st, v)]
            return None
        if isinstance(v, Ref):
            r = self.rec(st, v)
            if isinstance(r, ListRec) and all(isinstance(s, One) and s.guard is True for s in r.segs):
                return [s.value for s in r.segs]
        if isinstance(v, str):
            return list(v)
        if isinstance(v, CharStr) and v.rest is None:
            return [CharV(c) for c in v.chars]
        if isinstance(v, lib_mod().SliceSegBytes):
            return [self.lib.byte_of(v.seq, v.q, j) for j in range(4)]
        return None

    def st_Delete(self, st, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                obj = self.eval(st, t.value)
                k = self.eval_index(st, t.slice)
                self.split(st, obj, lambda s2, o: self.del_item(s2, o, k))
            else:
                raise Unsupported("del")

    def del_item(self, st, o, k):
        if isinstance(o, Ref):
            r = self.rec(st, o)
            if isinstance(r, DictRec) and isinstance(k, (str, int)) and not r.comps:
                g, _ = r.known.get(k, (False, None))
                self.throw_if(st, Not(g), KeyError, k)
                self.put(st, o, r.drop(k))
                return None
        raise Unsupported("del item")

    def st_If(self, st, s):
        c = self.eval_cond(st, s.test)

        def then(x):
            self.block(x, s.body)

        def other(x):
            self.block(x, s.orelse)
        self.branch(st, c, then, other)

    def st_Return(self, st, s):
        v = self.eval(st, s.value) if s.value is not None else None
        self.frames[-1].returns.append((st.fork(), v))
        raise Dead()

    def st_Raise(self, st, s):
        if s.exc is None:
            exc = self.frames[-1].__dict__.get("handling")
            if exc is None:
                raise Unsupported("bare raise")
            self.throw(st, exc)
        v = force(self.eval(st, s.exc))
        if isinstance(v, type) and issubclass(v, BaseException):
            v = ExcV(v, ())
        if isinstance(v, U):
            raise Unsupported("raising a union")
        if not isinstance(v, ExcV):
            raise Unsupported("raising %r" % (v,))
        self.throw(st, v)

    def st_Assert(self, st, s):
        c = self.eval_cond(st, s.test)
        self.throw_if(st, Not(c), AssertionError)

    def st_Try(self, st, s):
        if not s.finalbody:
            self.try_except(st, s)
            return
        if any(isinstance(n, (ast.Break, ast.Continue)) for b in s.body + s.handlers + s.orelse for n in ast.walk(b)):
            raise Unsupported("leaving a loop through finally")
        fr = self.frames[-1]
        nret = len(fr.returns)
        self.raises.append([])
        try:
            try:
                self.try_except(st, s)
                ok = True
            except Dead:
                ok = False
        finally:
            raised = self.raises.pop()
        rets = fr.returns[nret:]
        del fr.returns[nret:]
        for s2, v in rets:
            try:
                self.block(s2, s.finalbody)
                fr.returns.append((s2, v))
            except Dead:
                pass
        for s2, exc in raised:
            try:
                self.block(s2, s.finalbody)
                self.raises[-1].append((s2, exc))
            except Dead:
                pass
        if not ok:
            raise Dead()
        self.block(st, s.finalbody)

    def try_except(self, st, s):
        base_pc = st.pc
        self.raises.append([])
        outs = []
        try:
            try:
                self.block(st, s.body)
                body_ok = True
            except Dead:
                body_ok = False
        finally:
            raised = self.raises.pop()
        if body_ok:
            ok = True
            try:
                self.block(st, s.orelse)
            except Dead:
                ok = False
            if ok:
                outs.append(st.fork())
        for s2, exc in raised:
            for h in s.handlers:
                cls = self.handler_classes(s2, h)
                if issubclass(exc.cls, cls):
                    if h.name:
                        s2.env[h.name] = exc
                    fr = self.frames[-1]
                    old = fr.__dict__.get("handling")
                    fr.handling = exc
                    try:
                        self.block(s2, h.body)
                        if h.name:
                            s2.env.pop(h.name, None)
                        outs.append(s2)
                    except Dead:
                        pass
                    fr.handling = old
                    break
            else:
                self.raises[-1].append((s2, exc))
        if not outs:
            raise Dead()
        self.join_states(st, base_pc, outs)

    def join_states(self, st, base_pc, outs):
        if len(outs) == 1:
            st.become(outs[0])
            return
        n = len(base_pc)
        gs = shorten([And(*s.pc[n:]) for s in outs])
        st.pc = base_pc
        self.merge_states(st, list(zip(gs, outs)), False)

    def handler_classes(self, st, h):
        if h.type is None:
            return (BaseException,)
        v = force(self.eval(st, h.type))
        if isinstance(v, Tup):
            return tuple(v.items)
        return (v,) if isinstance(v, type) else tuple(v)

    def st_With(self, st, s):
        if len(s.items) == 1 and s.items[0].optional_vars is None and isinstance(s.items[0].context_expr, ast.Call):
            c = s.items[0].context_expr
            if isinstance(c.func, (ast.Name, ast.Attribute)) and not c.keywords and \
                    not any(isinstance(a, ast.Starred) for a in c.args):
                if self.eval(st, c.func) is contextlib.suppress:
                    # suppress(*classes): the block as a try statement whose handler does nothing
                    self.try_except(st, ast.Try(body=s.body, orelse=[], finalbody=[], handlers=[
                        ast.ExceptHandler(type=ast.Tuple(c.args, ast.Load()), name=None, body=[ast.Pass()])]))
                    return
        for item in s.items:
            v = self.eval(st, item.context_expr)
            if not all(isinstance(force(x), FileV) for _, x in alts_of(force(v))):
                raise Unsupported("with on %r" % (v,))
            if item.optional_vars is not None:
                self.assign(st, item.optional_vars, v)
        self.block(st, s.body)

    def st_For(self, st, s):
        it = self.eval(st, s.iter)
        self.loops.for_loop(st, s, it)

    def st_While(self, st, s):
        self.loops.while_loop(st, s)

    def st_Break(self, st, s):
        self.frames[-1].loops[-1].breaks.append(st.fork())
        raise Dead()

    def st_Continue(self, st, s):
        self.frames[-1].loops[-1].continues.append(st.fork())
        raise Dead()

    def st_FunctionDef(self, st, s):
        if s.decorator_list:
            raise Unsupported("decorated nested function")
        f = InterpFn(s, None, self.frames[-1].glob, s.name)
        f.home = self.frames[-1]
        f.defaults = ([self.eval(st, d) for d in s.args.defaults],
                      {a.arg: self.eval(st, d) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None})
        env = dict(self.frames[-1].cells)
        env.update(st.env)
        env[s.name] = f
        f.env = env
        st.env[s.name] = f

    def st_Match(self, st, s):
        raise Unsupported("match statement")

    # ------------------------------------------------------------------ expressions
    def eval(self, st, e):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        return m(st, e)

    def eval_cond(self, st, e):
        """A condition as a guard (short circuits evaluated under their guards)."""
        if isinstance(e, ast.BoolOp):
            return self.boolop_cond(st, e.values, isinstance(e.op, ast.And))
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return Not(self.eval_cond(st, e.operand))
        return self.truth(st, self.eval(st, e))

    def boolop_cond(self, st, es, is_and):
        c = self.eval_cond(st, es[0])
        if len(es) == 1:
            return c
        if c is (not is_and):
            return c
        if c is is_and:
            return self.boolop_cond(st, es[1:], is_and)
        rest = lambda s: Sc(B, zb(self.boolop_cond(s, es[1:], is_and)))
        stop = lambda s: Sc(B, z3.BoolVal(not is_and))
        v = self.branch(st, c, rest if is_and else stop, stop if is_and else rest)
        if is_and:
            return simp(v.t)
        return simp(v.t)

    def ex_Constant(self, st, e):
        return e.value

    def ex_Name(self, st, e):
        n = e.id
        if n in st.env:
            v = st.env[n]
            return self.read_local(st, n, v)
        fr = self.frames[-1]
        if n in local_names(fr.fn):
            self.throw(st, ExcV(UnboundLocalError, (n,)))
        if n in fr.cells:
            return self.read_local(st, n, fr.cells[n])
        if n in fr.glob:
            return self.lib.global_value(st, fr.glob[n], n)
        if hasattr(builtins, n):
            return getattr(builtins, n)
        self.throw(st, ExcV(NameError, (n,)))

    def read_local(self, st, n, v):
        if isinstance(v, Stale):
            raise NeedInv("local %s depends on the iteration before" % n)
        if isinstance(v, Undef):
            self.throw(st, ExcV(UnboundLocalError, (n,)))
        if isinstance(v, U) and any(isinstance(x, (Undef, Stale)) for _, x in v.alts):
            for g, x in v.alts:
                if isinstance(x, Undef):
                    self.throw_if(st, g, UnboundLocalError, n)
                elif isinstance(x, Stale) and self.feasible(st.pc, g):
                    raise NeedInv("local %s depends on the iteration before" % n)
            v = union([(g, x) for g, x in v.alts if not isinstance(x, (Undef, Stale))])
        return v

    def ex_NamedExpr(self, st, e):
        v = self.eval(st, e.value)
        self.assign(st, e.target, v)
        return v

    def ex_Tuple(self, st, e):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                vals = self.finite(st, self.eval(st, x.value))
                if vals is None:
                    raise Unsupported("starred tuple")
                items += vals
            else:
                items.append(self.eval(st, x))
        return Tup(tuple, items)

    def ex_List(self, st, e):
        ref = self.alloc(st, ListRec())
        for x in e.elts:
            if isinstance(x, ast.Starred):
                self.list_extend(st, ref, self.eval(st, x.value))
            else:
                self.list_append(st, ref, self.eval(st, x))
        return ref

    def ex_Set(self, st, e):
        vals = [force(self.eval(st, x)) for x in e.elts]
        if all(isinstance(v, (str, int)) for v in vals):
            return frozenset(vals)
        raise Unsupported("set")

    def ex_Dict(self, st, e):
        ref = self.alloc(st, DictRec())
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(st, ref, self.eval(st, v))
            else:
                kv = self.eval(st, k)
                self.set_item(st, ref, kv, self.eval(st, v))
        return ref

    def ex_BoolOp(self, st, e):
        return self.boolop_value(st, e.values, isinstance(e.op, ast.And))

    def boolop_value(self, st, es, is_and):
        v = self.eval(st, es[0])
        if len(es) == 1:
            return v
        c = self.truth(st, v)
        if c is True or c is False:
            return v if c is (not is_and) else self.boolop_value(st, es[1:], is_and)
        rest = lambda s: self.boolop_value(s, es[1:], is_and)
        mine = lambda s: self.narrow(s, v)
        return self.branch(st, c, rest if is_and else mine, mine if is_and else rest)

    def narrow(self, st, v):
        """Drops the alternatives that the path condition excludes."""
        v = force(v)
        if isinstance(v, U):
            alts = [(g, x) for g, x in v.alts if self.feasible(st.pc, g)]
            if not alts:
                raise Dead()
            return union(alts)
        return v

    def ex_UnaryOp(self, st, e):
        if isinstance(e.op, ast.Not):
            c = self.eval_cond(st, e)
            return c if isinstance(c, bool) else Sc(B, c)
        v = self.eval(st, e.operand)

        def neg(s, x):
            x = self.as_num(x)
            if isinstance(e.op, ast.USub):
                return -x if isinstance(x, (int, float)) else Sc(x.s, -x.t)
            if isinstance(e.op, ast.UAdd):
                return x
            raise Unsupported("unary operator")
        return self.split(st, v, neg)

    def ex_BinOp(self, st, e):
        a = self.eval(st, e.left)
        b = self.eval(st, e.right)
        return self.binop(st, BINOPS[type(e.op)], a, b)

    def binop(self, st, op, a, b):
        a, b = force(a), force(b)
        if isinstance(a, U) and not self.scalars(a):
            return self.split(st, a, lambda s, x: self.binop(s, op, x, b))
        if isinstance(b, U) and not self.scalars(b):
            return self.split(st, b, lambda s, x: self.binop(s, op, a, x))
        return self.lib.binop(st, op, a, b)

    def scalars(self, v):
        return False

    def ex_Compare(self, st, e):
        left = self.eval(st, e.left)
        res = None
        ops = list(zip(e.ops, e.comparators))
        if len(ops) == 1:
            g = self.compare(st, ops[0][0], left, self.eval(st, ops[0][1]))
            return g if isinstance(g, bool) else Sc(B, g)

        def go(s, left, k):
            right = self.eval(s, ops[k][1])
            g = self.compare(s, ops[k][0], left, right)
            if k + 1 == len(ops):
                return bval(g)
            return self.branch(s, g, lambda s2: go(s2, right, k + 1), lambda s2: False)
        return bval(self.truth(st, go(st, left, 0)))

    def compare(self, st, op, a, b):
        if isinstance(op, ast.Eq):
            return self.equal(st, a, b)
        if isinstance(op, ast.NotEq):
            return Not(self.equal(st, a, b))
        if isinstance(op, ast.Is):
            return self.identical(st, a, b)
        if isinstance(op, ast.IsNot):
            return Not(self.identical(st, a, b))
        if isinstance(op, (ast.In, ast.NotIn)):
            g = self.contains(st, b, a)
            return g if isinstance(op, ast.In) else Not(g)
        return self.order(st, type(op), a, b)

    def order(self, st, op, a, b):
        a, b = force(a), force(b)
        if isinstance(a, U):
            return self.truth(st, self.split(st, a, lambda s, x: bval(self.order(s, op, x, b))))
        if isinstance(b, U):
            return self.truth(st, self.split(st, b, lambda s, x: bval(self.order(s, op, a, x))))
        a, b = self.as_num(a), self.as_num(b)
        sa, sb = sort_of(a), sort_of(b)
        if sa in (I, R) and sb in (I, R):
            if not isinstance(a, Sc) and not isinstance(b, Sc):
                return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[op]
            k = R if R in (sa, sb) else I
            x, y = term(a, k), term(b, k)
            return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[op]
        if a is None or b is None or {sa, sb} & {S}:
            if isinstance(a, str) and isinstance(b, str):
                return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[op]
            if sa == sb == S:
                raise Unsupported("order of texts")
            self.throw(st, ExcV(TypeError, ("order",)))
        if isinstance(a, CharV) or isinstance(b, CharV):
            return self.lib.char_order(st, op, a, b)
        raise Unsupported("order of %r, %r" % (a, b))

    def contains(self, st, box, x):
        box = force(box)
        if isinstance(box, U):
            return self.truth(st, self.split(st, box, lambda s, y: bval(self.contains(s, y, x))))
        if isinstance(box, Whole):
            return self.contains(st, self.expand(st, box), x)
        if isinstance(box, DictView) and box.what == "keys":
            box = box.ref
        x = force(x)
        if isinstance(box, (str, CharStr, Text)) or (isinstance(box, Sc) and box.s == S):
            return self.lib.text_contains(st, box, x)
        if isinstance(box, (tuple, list, frozenset, set)):
            return Or(*[self.equal(st, x, y) for y in box])
        if isinstance(box, dict):
            return Or(*[self.equal(st, x, y) for y in box])
        if isinstance(box, Tup):
            return Or(*[self.equal(st, x, y) for y in box.items])
        if isinstance(box, Ref):
            r = self.rec(st, box)
            if isinstance(r, DictRec):
                if isinstance(x, U):
                    return Or(*[And(g, self.contains(st, box, y)) for g, y in x.alts if self.feasible(st.pc, g)])
                if not r.comps and isinstance(x, (str, int, type(None))):
                    return r.known.get(x, (False, None))[0]
                if not r.comps and isinstance(x, Sc):
                    return Or(*[And(g, self.equal(st, x, k)) for k, (g, _) in r.known.items()])
                return Or(*[And(g, self.equal(st, x, k)) for k, (g, _) in r.known.items()],
                          *[self.lib.some_index(c.binders, And(c.cond, self.equal(st, c.key, x))) for c in r.comps])
            if isinstance(r, ListRec):
                return self.in_segs(st, r.segs, x)
            if isinstance(r, AccRec):
                raise NeedInv("membership in an accumulator")
            if isinstance(r, XRec):
                raise Unsupported("membership in an element")
        if isinstance(box, (DictView, GenV)):
            return self.in_segs(st, self.segments(st, box, True), x)
        if box is None or sort_of(box) in (I, R, B):
            self.throw(st, ExcV(TypeError, ("not iterable",)))
        raise Unsupported("membership in %r" % (box,))

    def in_segs(self, st, segs, x):
        gs = []
        for s in segs:
            if isinstance(s, One):
                gs.append(And(s.guard, self.equal(st, x, s.value)))
            elif isinstance(s, Comp) and not any(isinstance(q, lib_mod().CharTail) for q, _ in s.binders):
                gs.append(self.lib.some_index(s.binders, And(s.cond, self.equal(st, x, force(s.value)))))
            else:
                raise Unsupported("membership in a computed list")
        return Or(*gs)

    def ex_IfExp(self, st, e):
        c = self.eval_cond(st, e.test)
        return self.branch(st, c, lambda s: self.eval(s, e.body), lambda s: self.eval(s, e.orelse))

    def ex_Lambda(self, st, e):
        env = dict(self.frames[-1].cells)
        env.update(st.env)
        f = InterpFn(e, env, self.frames[-1].glob, "<lambda>")
        f.home = self.frames[-1]
        f.defaults = ([self.eval(st, d) for d in e.args.defaults],
                      {a.arg: self.eval(st, d) for a, d in zip(e.args.kwonlyargs, e.args.kw_defaults) if d is not None})
        return f

    def ex_JoinedStr(self, st, e):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = force(self.eval(st, x.value))
                if x.conversion != -1 or x.format_spec is not None:
                    return OpaqueT("format")
                parts.append(v)
        if all(isinstance(p, (str, int)) and not isinstance(p, bool) for p in parts):
            return "".join(str(p) for p in parts)
        parts = [p for p in parts if p != ""]
        try:
            parts = [union([(g, self.lib.to_str(st, x)) for g, x in alts_of(p)]) for p in parts]
            if all((isinstance(x, (str, Text)) and not isinstance(x, OpaqueT)) or sort_of(x) == S
                   for p in parts for _, x in alts_of(p)):
                return self.lib.concat_text(st, parts)
        except Unsupported:
            pass
        return OpaqueT("format")

    def ex_Attribute(self, st, e):
        obj = self.eval(st, e.value)
        return self.get_attr(st, obj, e.attr)

    def eval_index(self, st, sl):
        if isinstance(sl, ast.Slice):
            return slice(*[self.eval(st, x) if x is not None else None for x in (sl.lower, sl.upper, sl.step)])
        return self.eval(st, sl)

    def ex_Subscript(self, st, e):
        obj = self.eval(st, e.value)
        return self.get_item(st, obj, self.eval_index(st, e.slice))

    def ex_Slice(self, st, e):
        return self.eval_index(st, e)

    def ex_Starred(self, st, e):
        raise Unsupported("starred")

    def ex_ListComp(self, st, e):
        return self.loops.comprehension(st, e, "list")

    def ex_GeneratorExp(self, st, e):
        return GenV(self.loops.comprehension(st, e, "list"))

    def ex_SetComp(self, st, e):
        raise Unsupported("set comprehension")

    def ex_DictComp(self, st, e):
        return self.loops.comprehension(st, e, "dict")

    def ex_Call(self, st, e):
        if isinstance(e.func, ast.Attribute):
            obj = self.eval(st, e.func.value)
            fv = None
        else:
            fv = self.eval(st, e.func)
            obj = None
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                vals = self.finite(st, self.eval(st, a.value))
                if vals is None:
                    raise Unsupported("star argument")
                args += vals
            else:
                args.append(self.eval(st, a))
        extra = []
        for k in e.keywords:
            v = self.eval(st, k.value)
            if k.arg is not None:
                if k.arg in kwargs:
                    raise Unsupported("keyword argument after **")
                kwargs[k.arg] = v
            else:
                for key, gv in self.known_items(st, v):
                    if key in kwargs:
                        if isinstance(gv, MaybeArg):
                            self.throw_if(st, gv.g, TypeError, "multiple values for " + key)
                            continue
                        self.throw(st, ExcV(TypeError, ("multiple values for " + key,)))
                    kwargs[key] = gv
        if fv is None:
            if any(isinstance(v, MaybeArg) for v in kwargs.values()):
                raise Unsupported("optional keyword argument")
            return self.split(st, obj, lambda s, o: self.lib.call_method(s, o, e.func.attr, args, kwargs))
        return self.split(st, fv, lambda s, f: self.call(s, f, args, kwargs))

    def known_items(self, st, v):
        """Items of a dictionary passed with **."""
        v = force(v)
        if isinstance(v, dict):
            return list(v.items())
        if isinstance(v, Ref):
            r = self.rec(st, v)
            if isinstance(r, DictRec) and not r.comps:
                out = []
                for k, (g, x) in r.known.items():
                    if not isinstance(k, str):
                        raise Unsupported("keyword argument %r" % (k,))
                    if g is True or self.valid(st.pc, g):
                        out.append((k, x))
                    elif not self.valid(st.pc, Not(g)):
                        out.append((k, MaybeArg(g, x)))
                return out
        raise Unsupported("** of %r" % (v,))

    def resolve_maybe(self, st, f, args, kwargs):
        """Keyword arguments that are given only under a condition: the given value or the default."""
        import dataclasses
        if isinstance(f, InterpFn):
            a, (dpos, dkw) = f.node.args, fn_defaults_interp(f)
        elif isinstance(f, types.FunctionType) and (f.__module__ or "").split(".")[0] == self.PKG:
            a, dpos, dkw = fn_ast(f).args, f.__defaults__ or (), f.__kwdefaults__ or {}
        elif isinstance(f, type) and attr.has(f):
            a = None
        else:
            raise Unsupported("optional keyword argument")
        out = dict(kwargs)
        for k, m in kwargs.items():
            if not isinstance(m, MaybeArg):
                continue
            if a is None:
                fields = [x for x in attr.fields(f) if x.init and x.alias == k]
                pos = [x.alias for x in attr.fields(f) if x.init and not x.kw_only]
                known, has = bool(fields), bool(fields) and fields[0].default is not attr.NOTHING
                default = self.lib.default_of(st, fields[0], f) if has else None
            else:
                pos = [x.arg for x in a.posonlyargs + a.args]
                names = pos[len(pos) - len(dpos):]
                known = k in pos[len(a.posonlyargs):] or k in [x.arg for x in a.kwonlyargs]
                has = k in names or k in dkw
                default = dpos[names.index(k)] if k in names else dkw.get(k)
            if not known and a is not None and a.kwarg:
                raise Unsupported("optional keyword argument")
            if not known or k in pos[:len(args)]:
                self.throw_if(st, m.g, TypeError, "argument " + k)
                del out[k]
            elif not has:
                self.throw_if(st, Not(m.g), TypeError, "missing argument " + k)
                out[k] = m.v
            else:
                out[k] = union([(m.g, force(m.v)), (Not(m.g), default)])
        return out

    def call(self, st, f, args, kwargs):
        f = force(f)
        if isinstance(f, U):
            return self.split(st, f, lambda s, x: self.call(s, x, args, kwargs))
        if any(isinstance(v, MaybeArg) for v in kwargs.values()):
            kwargs = self.resolve_maybe(st, f, args, kwargs)
        if isinstance(f, InterpFn):
            return self.call_function(st, f, args, kwargs)
        if isinstance(f, BoundM):
            return self.lib.call_method(st, f.obj, f.name, args, kwargs)
        if isinstance(f, lib_mod().PartialV):
            if f.f is operator.itemgetter:
                return self.get_item(st, args[0], f.args[0])
            if f.f is operator.attrgetter:
                return self.get_attr(st, args[0], force(f.args[0]))
            return self.call(st, f.f, f.args + list(args), {**f.kw, **kwargs})
        if isinstance(f, types.FunctionType) and (f.__module__ or "").split(".")[0] == self.PKG:
            c = self.contracts.get(f)
            if c is not None and len(self.frames) > 0:
                r = c.apply(self, st, args, kwargs)
                if r is not NotImplemented:
                    self.contract_uses.append(c.name)
                    self.uses[c.name] = self.uses.get(c.name, 0) + 1
                    return r
            return self.call_function(st, f, args, kwargs)
        if isinstance(f, type):
            return self.lib.construct(st, f, args, kwargs)
        if isinstance(f, CACHED):
            # A cached result is the result of the call when it is a function of the texts given, and
            # immutable: both are what the contract of this function says
            w = f.__wrapped__
            c = self.contracts.get(w)
            if c is None or not getattr(c, "immutable", False) or kwargs or len(args) != 1:
                raise Unsupported("call of the cached function %s" % getattr(w, "__qualname__", w))
            a = force(args[0])
            if isinstance(a, (U, Sc, CatT, str)):
                return self.call(st, w, [a], {})
            raise Unsupported("call of a cached function with %r" % (a,))
        return self.lib.call_native(st, f, args, kwargs)

    # ------------------------------------------------------------------ attributes, items
    def get_attr(self, st, obj, name):
        return self.split(st, obj, lambda s, o: self.lib.get_attr(s, o, name))

    def set_attr(self, st, obj, name, v):
        self.split(st, obj, lambda s, o: self.lib.set_attr(s, o, name, v))

    def get_item(self, st, obj, k):
        return self.split(st, obj, lambda s, o: self.lib.get_item(s, o, k))

    def set_item(self, st, obj, k, v):
        self.split(st, obj, lambda s, o: self.lib.set_item(s, o, k, v))

    # ------------------------------------------------------------------ lists and dicts
    def list_append(self, st, ref, v):
        r = self.rec(st, ref)
        if isinstance(r, AccRec):
            st.heap[ref.n] = AccRec(r.base, r.log + (("append", True, (v,)),))
            return
        if not isinstance(r, ListRec):
            self.throw(st, ExcV(AttributeError, ("append",)))
        self.put(st, ref, ListRec(self.loops.append_norm(st, r.segs, One(True, v))))

    def list_extend(self, st, ref, it):
        def one(s, x):
            segs = self.segments(s, x)
            r = self.rec(s, ref)
            if isinstance(r, AccRec):
                s.heap[ref.n] = AccRec(r.base, r.log + (("extend", True, (tuple(segs),)),))
                return
            self.put(s, ref, ListRec(r.segs + tuple(segs)))
        self.split(st, it, one)

    def segments(self, st, v, as_set=False):
        """An iterable as list segments (as_set: multiplicities and order do not matter)."""
        v = force(v)
        if isinstance(v, GenV):
            segs = self.segments(st, v.ref, as_set)
            st.heap[v.ref.n] = HavocRec()       # an iterator is read once
            return segs
        if isinstance(v, Whole):
            v = self.expand(st, v)
        if isinstance(v, Ref):
            r = self.rec(st, v)
            if isinstance(r, ListRec):
                return list(r.segs)
            if isinstance(r, XRec):
                return [One(k.guard, k.value) if isinstance(k, One) else k for k in r.kids]
            if isinstance(r, DictRec):
                return self.dict_segs(r, "keys", as_set)
            if isinstance(r, AccRec):
                raise NeedInv("iteration over an accumulator")
            raise Unsupported("iteration over an object")
        if isinstance(v, DictView):
            r = self.rec(st, v.ref)
            if isinstance(r, AccRec):
                raise NeedInv("iteration over an accumulator")
            return self.dict_segs(r, v.what, as_set)
        if isinstance(v, Tup):
            return [One(True, x) for x in v.items]
        if isinstance(v, (list, tuple, range, str, frozenset, set)):
            if len(v) > 300:
                raise Unsupported("long native sequence")
            return [One(True, x) for x in (sorted(v, key=repr) if isinstance(v, (set, frozenset)) else v)]
        if isinstance(v, dict):
            return [One(True, x) for x in v]
        if isinstance(v, CharStr):
            out = [One(True, CharV(c)) for c in v.chars]
            if v.rest is not None:
                q = lib_mod().CharTail(v.rest)
                i = self.index(q)
                out.append(Comp([(q, i)], True, q.at(i)))
            return out
        if isinstance(v, (RangeSeq, lib_mod().DirSeq)):
            i = self.index(v)
            return [Comp([(v, i)], True, v.at(i))]
        if isinstance(v, BytesV):
            raise Unsupported("bytes outside of a loop")
        if isinstance(v, lib_mod().SliceSegBytes):
            return [One(True, self.lib.byte_of(v.seq, v.q, j)) for j in range(4)]
        if v is None or sort_of(v) in (I, R, B):
            self.throw(st, ExcV(TypeError, ("not iterable",)))
        raise Unsupported("iteration over %r" % (v,))

    def dict_segs(self, r, what, as_set=False):
        out = []
        for k, (g, x) in r.known.items():
            v = k if what == "keys" else x if what == "values" else Tup(tuple, (k, x))
            out.append(One(g, v))
        if r.known and r.comps:
            raise Unsupported("iteration over a mixed dictionary")
        if r.mixed and not as_set:
            raise Unsupported("order of the entries of a dictionary")
        # the keys of all entries differ, or it does not matter
        differ = getattr(r, "apart", False) or (as_set and what == "keys")
        if r.comps and not all(apart(c) for c in r.comps) and not (as_set and what == "keys"):
            raise Unsupported("iteration over a computed dictionary")
        for j, c in enumerate(r.comps):
            v = c.key if what == "keys" else c.value if what == "values" else \
                Lazy(lambda c=c: Tup(tuple, (c.key, c.value)))
            g = c.cond
            if len(r.comps) > 1 and not differ:
                # entries with a key that comes again later are replaced (at their place)
                if what == "keys":
                    raise Unsupported("keys of a computed dictionary")
                if j < len(r.comps) - 1:
                    g = And(g, Not(self.overridden(r.comps, j)))
            x = Comp(c.binders, g, v)
            x.levels = c.levels
            if len(r.comps) > 1 and not differ:
                x.unordered = c.key
            out.append(x)
        return out

    def overridden(self, comps, j):
        """Predicate: the key of this entry is the key of an entry of a later part."""
        c = comps[j]
        args = [i for _, i in c.binders]
        k = "overridden!" + "!".join(str(q.key) for x in comps[j:] for q, _ in x.binders) + "!" + "!".join(
            str(sym.arg_key(force(x.key))) for x in comps[j:])
        p = z3.Function(k, *([z3.IntSort()] * len(args)), z3.BoolSort())
        return p(*args)

    def dict_update(self, st, ref, other):
        def one(s, o):
            if isinstance(o, dict):
                for k, v in o.items():
                    self.set_item(s, ref, k, v)
                return
            if not isinstance(o, Ref):
                raise Unsupported("dictionary update")
            ro, r = self.rec(s, o), self.rec(s, ref)
            if isinstance(r, AccRec) and isinstance(ro, DictRec):
                comps = tuple(DComp([], g, k, v) for k, (g, v) in ro.known.items()) + ro.comps
                s.heap[ref.n] = AccRec(r.base, r.log + (("dextend", True, (comps,)),))
                return
            if not isinstance(ro, DictRec) or not isinstance(r, DictRec):
                raise Unsupported("dictionary update")
            known, mixed = dict(r.known), r.mixed or ro.mixed
            for k, (g, v) in ro.known.items():
                if g is False:
                    continue
                g0, v0 = known.get(k, (False, None))
                if g0 is False:
                    known.pop(k, None)
                elif g0 is not True:
                    mixed = True
                if g is True or g0 is False:
                    known[k] = (g if g0 is False else Or(g, g0), v)
                else:
                    known[k] = (Or(g, g0), Lazy(lambda g=g, v=v, v0=v0: merge(g, force(v), force(v0))))
            if (r.comps or ro.comps) and known:
                raise Unsupported("mixed dictionary")
            self.put(s, ref, DictRec(known, r.comps + ro.comps, mixed=mixed))
        self.split(st, other, one)


def lib_mod():
    from . import lib
    return lib


def quant_mod():
    from . import quant
    return quant


class LazyX(Lazy):
    """A child element whose tag is known without building it."""

    def __init__(self, tag, lazy):
        super().__init__(lazy.get)
        self.tag = tag


def alias(d, e):
    """Is e (a node of the document) part of d? False, "same" or "maybe"."""
    p, q = d.path, e.path
    if ("*" in p) != ("*" in q):
        # object layers at any depth
        stem, other = (p.split("*")[0], q) if "*" in p else (q.split("*")[0], p)
        return "maybe" if other == stem or other.startswith(stem + ".") or stem.startswith(other + ".") else False
    if not (q == p or q.startswith(p + ".")):
        return False
    n = len(d.idx)
    return "same" if tuple(t.sexpr() for t in d.idx) == tuple(t.sexpr() for t in e.idx[:n]) else "maybe"


def merge_env(vs):
    alts = []
    for g, v in vs:
        v = force(v)
        for h, x in alts_of(v):
            alts.append((And(g, h), x))
    out = []
    und = [g for g, x in alts if isinstance(x, (Undef, Stale))]
    rest = [(g, x) for g, x in alts if not isinstance(x, (Undef, Stale))]
    marks = [(g, x) for g, x in alts if isinstance(x, (Undef, Stale))]
    if not und:
        return union(rest)
    if not rest:
        return marks[0][1] if len({type(x) for _, x in marks}) == 1 else U(marks)
    v = union(rest)
    return U(list(alts_of(v) if isinstance(v, U) else [(Or(*[g for g, _ in rest]), v)]) + marks)


def merge_segs(g, a, b):
    pre = common_prefix(a, b)
    n = len(pre)
    while n < len(a) and n < len(b) and isinstance(a[n], One) and isinstance(b[n], One) \
            and a[n].guard is True and b[n].guard is True:
        x, y = a[n].value, b[n].value
        pre += (One(True, x if x is y else Lazy(lambda x=x, y=y: merge(g, force(x), force(y)))),)
        n += 1
    return pre + tuple(guard_seg(g, s) for s in a[n:]) + tuple(guard_seg(Not(g), s) for s in b[n:])


def guard_seg(g, s):
    if isinstance(s, One):
        return One(And(g, s.guard), s.value)
    if isinstance(s, Comp):
        c = s.guarded(g)
        c.tags = getattr(s, "tags", None)
        return c
    raise NeedInv("conditional rows")


def common_prefix(a, b):
    n = 0
    while n < len(a) and n < len(b) and (a[n] is b[n] or seg_same(a[n], b[n])):
        n += 1
    return tuple(a[:n])


def seg_same(x, y):
    if isinstance(x, One) and isinstance(y, One):
        return x.guard is y.guard and (x.value is y.value or same(x.value, y.value))
    return False


def shorten(gs):
    """Drops the common leading conjuncts of exclusive guards."""
    return gs


def simp(g):
    if isinstance(g, bool):
        return g
    if z3.is_true(g):
        return True
    if z3.is_false(g):
        return False
    return g


_sym_cache = {}


def symbols(f):
    """Names of the uninterpreted symbols of a formula."""
    k = f.get_id()
    hit = _sym_cache.get(k)
    if hit is not None and hit[0].eq(f):
        return hit[1]
    out, todo, seen = set(), [f], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                if not n.startswith("i@") and not n.startswith("lit!"):
                    out.add(n)
            todo.extend(x.children())
        elif z3.is_quantifier(x):
            todo.append(x.body())
    _sym_cache[k] = (f, out)
    return out


def introduced(name):
    """When a name was introduced (0: it is a canonical name)."""
    m = re.findall(r"!(\d+)(?!\d)", name)
    return max(map(int, m)) if m else 0


def names_in(f):
    """Names of the constants of a formula."""
    if isinstance(f, bool):
        return set()
    out, todo, seen = set(), [f], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo.extend(x.children())
    return out


SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
_local_cache = {}


def stores(node):
    """(name, node, enclosing loops) of the assignments in the function's own scope."""
    out = []

    def go(n, loops):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.append((n.name, n, loops))
            return
        if isinstance(n, (ast.Lambda,) + COMPS):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr) and not isinstance(n, ast.Lambda):
                    out.append((x.target.id, x, loops))
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.append((n.id, n, loops))
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.append((n.name, n, loops))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.append(((a.asname or a.name).split(".")[0], n, loops))
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.append((n.name, n, loops))
        if isinstance(n, (ast.For, ast.While, ast.AsyncFor)):
            loops = loops + (n,)
        for c in ast.iter_child_nodes(n):
            go(c, loops)
    for b in (node.body if isinstance(node.body, list) else [node.body]):
        go(b, ())
    return out


def local_names(node):
    if not isinstance(node, (ast.FunctionDef, ast.Lambda)):
        return ()
    if node not in _local_cache:
        a = node.args
        names = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        names |= {n for n, _, _ in stores(node)}
        for b in (node.body if isinstance(node.body, list) else []):
            for x in ast.walk(b):
                if isinstance(x, (ast.Global, ast.Nonlocal)):
                    names -= set(x.names)
        _local_cache[node] = frozenset(names)
    return _local_cache[node]


def reassigned(node, closure):
    """May a variable that the closure reads change after the closure was made?"""
    free = {x.id for x in ast.walk(closure) if isinstance(x, ast.Name)}
    for n, at, loops in stores(node):
        if n in free and at is not closure and (
                (at.lineno, at.col_offset) > (closure.lineno, closure.col_offset) or
                any(x is closure for l in loops for x in ast.walk(l))):
            return True
    return False


def has_yield_own(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp, ast.ListComp)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        todo.extend(ast.iter_child_nodes(n))
    return False


def fn_defaults_interp(f):
    return getattr(f, "defaults", ((), {}))

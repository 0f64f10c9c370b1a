"""Loops: every loop over a document sequence is verified with an inductive rule, for all iterations.

Rules (all checked, none assumed):
  * finite iterables are executed element by element;
  * generic iteration: the body is executed once for an arbitrary element; it may only add to
    records that exist before the loop (append / put), so the loop is the image of the sequence;
    a body that reads what it accumulates is refused (NeedInv), except
  * linear counters: an int local that grows by a constant is init + c*i (invariant checked);
  * bytes: four iterations consume one packed integer; the invariant (locals at 4q bytes) is
    found among a fixed set of candidates and checked inductively;
  * rows: appending items to rows of a fixed width; invariant (n full rows and m items of the
    next one, k == n*w + m) with int locals among candidates, checked inductively.
"""
import ast

import z3

from . import docs, quant
from .interp import (AccRec, Comp, DComp, Dead, DictRec, DictView, ExcV, FileV, Frame, GenV, Lazy, ListRec, LoopCtx,
                     NeedInv, One, RangeSeq, Ref, RowsSeg, SliceSeg, Stale, XRec, force, merge_env, names_in)
from .lib import CharTail, DirSeq, EnumBytes, ident_seq
from .sym import (B, I, INT_SEQS, R, S, UNDEF, And, BytesV, CharStr, CharV, Eq, Not, Or, Sc, Tup, U, Undef, Unsupported, alts_of,
                  same, sort_of, term, union, zb)


class NotThisRule(Unsupported):
    pass


class HookStmt(ast.stmt):
    """A check the tool inserts into a body."""
    _fields = ()


def has_continue(body):
    """Is there a `continue` of this loop?"""
    for b in body:
        if isinstance(b, ast.Continue):
            return True
        if isinstance(b, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
            if has_continue(b.orelse if isinstance(b, (ast.For, ast.While)) else []):
                return True
            continue
        for f in ("body", "orelse", "finalbody"):
            if has_continue(getattr(b, f, [])):
                return True
        for h in getattr(b, "handlers", []) + getattr(b, "cases", []):
            if has_continue(h.body):
                return True
    return False


def read_after(fn, s, name):
    """Is the local read after the loop (other than in a loop of its own)? Statements the tool makes: no."""
    end = getattr(s, "end_lineno", None)
    if end is None or not hasattr(s, "lineno") or fn is None:
        return False

    def reads(x):
        if isinstance(x, (ast.For, ast.comprehension)) and any(
                isinstance(y, ast.Name) and y.id == name for y in ast.walk(x.target)):
            return reads(x.iter) or any(reads(y) for y in getattr(x, "orelse", []))
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and any(
                isinstance(y, ast.Name) and y.id == name for c in x.generators for y in ast.walk(c.target)):
            return any(reads(c.iter) for c in x.generators)
        if isinstance(x, ast.Name):
            return x.id == name and isinstance(x.ctx, ast.Load) and x.lineno > end
        return any(reads(y) for y in ast.iter_child_nodes(x))
    return any(reads(x) for x in ast.iter_child_nodes(fn))


class AccStmt(ast.stmt):
    """The accumulation step of a comprehension."""
    _fields = ()


class Loops:
    def __init__(self, ip):
        self.ip = ip
        self.rules = {}          # how often each rule was used

    def used(self, rule):
        self.rules[rule] = self.rules.get(rule, 0) + 1

    # ------------------------------------------------------------------ for
    def for_loop(self, st, s, it):
        self.ip.split(st, it, lambda s2, x: self.run_for(s2, s, x))

    def run_for(self, st, s, x):
        ip = self.ip
        ctx = LoopCtx()
        base = st.pc
        fr = ip.frames[-1]
        fr.loops.append(ctx)
        alive = True
        try:
            try:
                if isinstance(force(x), (BytesV, EnumBytes)):
                    self.bytes_loop(st, s, force(x))
                else:
                    for seg in ip.segments(st, x):
                        self.run_seg(st, s, ctx, seg)
            except Dead:
                alive = False
        finally:
            fr.loops.pop()
        if alive and s.orelse:
            try:
                ip.block(st, s.orelse)
            except Dead:
                alive = False
        outs = ([st.fork()] if alive else []) + ctx.breaks
        if not outs:
            raise Dead()
        ip.join_states(st, base, outs)

    def run_seg(self, st, s, ctx, seg):
        ip = self.ip
        if isinstance(seg, One):
            ip.branch(st, seg.guard, lambda s2: self.iterate(s2, s, ctx, seg.value), lambda s2: None)
        elif isinstance(seg, Comp):
            if not seg.binders:
                ip.branch(st, seg.cond, lambda s2: self.iterate(s2, s, ctx, seg.value), lambda s2: None)
            else:
                self.generic(st, s, seg, ctx)
        else:
            raise Unsupported("iteration over rows")

    def iterate(self, st, s, ctx, value):
        """One execution of the body (continue included)."""
        ip = self.ip
        base = st.pc
        saved, ctx.continues = ctx.continues, []
        ok = True
        try:
            ip.assign(st, s.target, value)
            ip.block(st, s.body)
        except Dead:
            ok = False
        outs = ctx.continues + ([st.fork()] if ok else [])
        ctx.continues = saved
        if not outs:
            raise Dead()
        ip.join_states(st, base, outs)

    # ------------------------------------------------------------------ running a body on the side
    def trial(self, st, s, value, pre, setup=None):
        """Executes the body on a copy of the state; (final state or None, exceptions)."""
        ip = self.ip
        t = st.fork(*pre)
        if setup:
            setup(t)
        start = t.fork()
        fr = ip.frames[-1]
        nret, neff = len(fr.returns), len(ip.effects)
        ctx = LoopCtx()
        fr.loops.append(ctx)
        ip.raises.append([])
        nloops = len(fr.loops)
        try:
            try:
                self.iterate(t, s, ctx, value)
                ok = True
            except Dead:
                ok = False
            raised = ip.raises[-1]
            rets = fr.returns[nret:]
        finally:
            del fr.returns[nret:]
            del fr.loops[nloops - 1:]
            ip.raises.pop()
        eff = ip.effects[neff:]
        del ip.effects[neff:]
        return start, (t if ok else None), raised, rets, ctx.breaks, eff

    def owned(self, ref_n, binders):
        """Is this document record part of the element the loop is at?"""
        d = self.ip.owners.get(ref_n) or getattr(self.ip.base[ref_n], "doc", None)
        d = getattr(d, "d", d) if not hasattr(d, "idx") else d
        if d is None or not hasattr(d, "idx"):
            return False
        idx = {str(t) for t in d.idx}
        return any(str(i) in idx for _, i in binders)

    def private(self, n, levels):
        """Was the record made when the element the loop is at was made (and not for several elements)?"""
        for k, (ivs, _) in enumerate(levels or ()):
            if any(a <= n < b for a, b in ivs):
                if k + 1 < len(levels):
                    raise Unsupported("a record of several elements is changed")
                return True
        return False

    def changes(self, start, t, mark, binders, levels=None):
        """Locals and pre-existing records that the body changed."""
        names = [k for k in t.env if k not in start.env or start.env[k] is not t.env[k]]
        names += [k for k in start.env if k not in t.env]
        # records of the document and of results of contracts exist before they are looked at
        recs = [n for n in t.heap if (n < mark or n not in self.ip.prog)
                and t.heap[n] is not start.heap.get(n, self.ip.base[n])]
        mine = [n for n in recs if self.owned(n, binders) or self.private(n, levels)]
        return names, [n for n in recs if n not in mine], mine

    # ------------------------------------------------------------------ the generic iteration
    def generic(self, st, s, seg, ctx):
        ip = self.ip
        pre = ip.binder_facts(seg.binders) + ((seg.cond,) if seg.cond is not True else ())
        used = ip.open_binders
        mine = tuple(str(i) for _, i in seg.binders)
        if set(mine) & set(used):
            raise Unsupported("nested loops over the same sequence")
        if not ip.feasible(st.pc, *pre):
            return
        ip.open_binders = used + mine
        try:
            self.generic1(st, s, seg, pre, ctx)
        finally:
            ip.open_binders = used

    def generic1(self, st, s, seg, pre, ctx):
        ip = self.ip
        mark = len(ip.base)
        keep = None
        if ip.inv is not None:
            keep = ip.inv.mark()
            try:
                if self.invariant_loop(st, s, seg, pre, mark):
                    return
            except NotThisRule:
                ip.inv.reset(keep)
        try:
            start, t, raised, rets, brks, _ = self.trial(st, s, seg.value, pre)
        except Unsupported:
            if self.rows_loop(st, s, seg, mark):
                return
            raise
        names, recs = set(), set()
        ends = [t] if t is not None else []
        for e in ends:
            n1, r1, _ = self.changes(start, e, mark, seg.binders, seg.levels)
            names |= set(n1)
            recs |= set(r1)
        if ip.inv is not None:
            ip.inv.reset(keep)
        linear = {}
        ctr = self.counter(seg)
        if t is not None and ctr is not None:
            for n in names:
                c = self.step_of(start.env.get(n), t.env.get(n))
                if c is not None:
                    linear[n] = (start.env[n], c)
        for _ in range(8):
            def setup(x):
                for n in names:
                    if n in linear:
                        init, c = linear[n]
                        x.env[n] = Sc(I, z3.simplify(term(init) + c * ctr[1]))
                    else:
                        x.env[n] = Stale(n)
                for r in recs:
                    x.heap[r] = AccRec(ip.rec(st, Ref(r)))
            before = ip.fresh_n
            if ip.inv is not None:
                ip.inv.reset(keep)
            try:
                start, t, raised, rets, brks, eff = self.trial(st, s, seg.value, pre, setup)
            except (NeedInv, Unsupported):
                if self.rows_loop(st, s, seg, mark):
                    return
                raise
            more_n, more_r, own = set(), set(), set()
            ends = [t] if t is not None else []
            for e in ends:
                n1, r1, o1 = self.changes(start, e, mark, seg.binders, seg.levels)
                more_n |= set(n1)
                more_r |= set(r1)
                own |= set(o1)
            for n in list(linear):
                init, c = linear[n]
                if t is not None:
                    v = t.env.get(n)
                    if sort_of(v) != I or not ip.valid(t.pc, Eq(term(v), z3.simplify(
                            term(init) + c * (ctr[1] + 1)))):
                        del linear[n]
                        more_n.add("\0again")
            if more_n <= names and more_r <= recs:
                break
            names |= {n for n in more_n if n != "\0again"}
            recs |= more_r
        else:
            raise Unsupported("loop effects do not settle")
        if rets or brks:
            self.search(st, s, seg, pre, ctx, setup, start, t, raised, eff, recs, own, names, before)
            return
        for x, exc in raised:
            ip.raises[-1].append((x, exc))
        if raised and t is not None:
            # the loop is passed only if this element does not raise
            st.assume(Or(Not(And(*pre)), And(*t.pc[len(start.pc):])))
        ip.effects.extend(eff)
        self.used("generic iteration")
        if t is None:
            # no iteration completes: the loop is passed only if it is empty
            st.assume(Or(*[q.n <= 0 for q, _ in seg.binders]) if seg.cond is True else True)
            if seg.cond is not True:
                raise Unsupported("loop body never completes")
            if not ip.feasible(st.pc):
                raise Dead()
            return
        self.keep_records(st, t, seg, mark, own, recs)
        for r in recs:
            base = ip.rec(st, Ref(r))
            new = t.heap[r]
            if not isinstance(new, AccRec):
                raise NeedInv("accumulator replaced")
            key = getattr(seg, "unordered", None)
            if key is not None and not all(op == "put" and same(force(args[0]), force(key)) for op, _, args in new.log):
                raise Unsupported("order of the keys of a computed dictionary")
            self.add_log(st, r, base, new.log, seg, mark)
        for n in names:
            if n in linear:
                init, c = linear[n]
                st.env[n] = Sc(I, z3.simplify(term(init) + c * ctr[0].n))
        for n, v in self.last_values(st, s, seg, t, [n for n in names if n not in linear]).items():
            st.env[n] = v

    def last_values(self, st, s, seg, t, names, when=True):
        """What the locals that the body assigns are after the loop: the value given at the last index at which the
        body assigns them, or the value before the loop when there is no such index."""
        ip, out = self.ip, {}
        for n in names:
            out[n] = Stale(n)
            if len(seg.binders) != 1 or n not in t.env or not read_after(ip.frames[-1].fn, s, n):
                continue
            q, i = seg.binders[0]
            given = [(g, force(x)) for g, x in alts_of(force(t.env[n])) if not isinstance(x, Stale)]
            if not given or any(isinstance(x, Undef) for _, x in given):
                continue
            old = st.env.get(n, UNDEF)
            cond = And(seg.cond, Or(*[g for g, _ in given]))
            try:
                if cond is True:
                    w, none = z3.simplify(q.n - 1), q.n <= 0
                    values = [(And(Not(none), quant.gsubst(g, [(i, w)])), quant.subst(x, [(i, w)])) for g, x in given]
                    ip.univ.note(q)
                    ip.univ.point(q, w)
                else:
                    quant.gsubst(cond, [(i, ip.fresh("trial"))])
                    none = ip.fresh("never", B)
                    w = ip.univ.some(q, Not(none), "last")
                    values = [(And(Not(none), quant.gsubst(g, [(i, w)])), quant.subst(x, [(i, w)])) for g, x in given]
                    ip.univ.all(q, lambda u: z3.Implies(z3.Or(none, u > w), Not(quant.gsubst(cond, [(i, u)]))))
                    ip.add_fact(z3.Implies(zb(Not(none)), zb(quant.gsubst(cond, [(i, w)]))))
            except Unsupported:
                continue
            out[n] = merge_env([(none, old)] + values)
            self.used("value of the last element")
        return out

    def keep_records(self, st, t, seg, mark, own, recs):
        """Records of the iteration and of the element itself."""
        ip = self.ip
        for n, rec in t.heap.items():
            if n in own:
                st.heap[n] = ip.merge_rec2(seg.cond, rec, ip.rec(st, Ref(n)))
            elif n >= mark and n not in recs:
                st.heap[n] = rec

    def search(self, st, s, seg, pre, ctx, setup, start, t, raised, eff, recs, own, names, before):
        """A loop that is left at some element: either every iteration passes, or there is an element at which
        the loop is left (after iterations that change nothing but locals)."""
        ip = self.ip
        if recs or own or eff:
            raise Unsupported("loop that is left early and changes something")
        for x, exc in raised:
            ip.raises[-1].append((x, exc))
        none = ip.fresh("all_passed", B)
        # left at element w
        sub = [(i, ip.univ.some(q, Not(none))) for q, i in seg.binders]
        value = quant.subst(seg.value, sub)
        pre2 = tuple(quant.gsubst(g, sub) if not isinstance(g, bool) else g for g in pre)
        used = ip.open_binders
        fr = ip.frames[-1]
        _, _, _, rets, brks, eff = self.trial(st, s, value, pre2 + (Not(none),), setup)
        if eff:
            raise Unsupported("effects when a loop is left")
        ctx.breaks.extend(brks)
        fr.returns.extend(rets)
        # every iteration passes
        d = And(*t.pc[len(start.pc):]) if t is not None else False
        if len(seg.binders) == 1:
            q, i = seg.binders[0]
            c = seg.cond

            def passed(w):
                return z3.Implies(And(none, zb(quant.gsubst(c, [(i, w)]))), zb(quant.gsubst(d, [(i, w)])))
            if not isinstance(d, bool) and quant.private(ip, d, before):
                # what the iteration chose is known for this index only
                ip.univ.note(q)
                ip.add_fact(z3.Implies(z3.And(i >= 0, i < q.n), passed(i)))
            else:
                ip.univ.all(q, passed)
        st.assume(none)
        for n in names:
            st.env[n] = Stale(n)
        self.used("search")
        if not ip.feasible(st.pc):
            raise Dead()

    def invariant_loop(self, st, s, seg, pre, mark):
        """A loop with a declared invariant (templates.py)."""
        ip = self.ip
        inv = ip.inv
        n = inv.find(st)
        if n is None or not inv.relevant(seg):
            return False
        inv.start(st, n)
        keep = inv.mark()
        names = {x.id for b in [s.target] + s.body for x in ast.walk(b)
                 if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for _ in range(8):
            inv.reset(keep)
            before = inv.fresh()

            def setup(x):
                for v in names:
                    x.env[v] = Stale(v)
                x.heap[n] = before
            start, t, raised, rets, brks, eff = self.trial(st, s, seg.value, pre, setup)
            if rets or brks or t is None:
                raise NotThisRule("loop that is left early")
            n1, recs, own = self.changes(start, t, mark, seg.binders, seg.levels)
            if set(recs) - {n} or not (recs or own):
                raise NotThisRule("the loop does not change the tilesets only")
            if set(n1) <= names:
                break
            names |= set(n1)
        else:
            raise Unsupported("loop effects do not settle")
        for x, exc in raised:
            ip.raises[-1].append((x, exc))
        ip.effects.extend(eff)
        inv.step(st, seg, tuple(st.pc) + tuple(pre), t, before, t.heap[n], own)
        self.used("declared invariant")
        self.keep_records(st, t, seg, mark, own, {n})
        st.heap[n] = inv.fresh()
        for v in names:
            st.env[v] = Stale(v)
        return True

    def counter(self, seg):
        if len(seg.binders) == 1 and seg.cond is True:
            return seg.binders[0]
        return None

    def step_of(self, a, b):
        if sort_of(a) != I or sort_of(b) != I or isinstance(a, bool) or isinstance(b, bool):
            return None
        d = z3.simplify(term(b) - term(a))
        if z3.is_int_value(d) and d.as_long() != 0:
            return d.as_long()
        return None

    def add_log(self, st, r, base, log, seg, mark):
        """The loop's effect on one accumulated record."""
        ip = self.ip
        if not log:
            return
        inner = base.base if isinstance(base, AccRec) else base
        while isinstance(inner, AccRec):
            inner = inner.base
        if isinstance(inner, ListRec):
            seg2 = self.log_segs(st, log, seg, mark)
            if isinstance(base, AccRec):
                st.heap[r] = AccRec(base.base, base.log + (("extend", True, (tuple(seg2),)),))
            else:
                st.heap[r] = ListRec(base.segs + tuple(seg2))
        elif isinstance(inner, DictRec):
            comps = self.log_entries(st, log, seg, mark)
            if isinstance(base, AccRec):
                st.heap[r] = AccRec(base.base, base.log + (("dextend", True, (tuple(comps),)),))
            elif base.known:
                extra = tuple(DComp([], g, k, v) for k, (g, v) in base.known.items())
                st.heap[r] = DictRec({}, extra + base.comps + tuple(comps))
            else:
                st.heap[r] = DictRec({}, base.comps + tuple(comps))
        else:
            raise NeedInv("loop changes an object")

    def flat_log(self, st, log, kind):
        """Log entries as [(guard, binders, cond, payload)]."""
        out = []
        for op, g, args in log:
            if kind == "list" and op == "append":
                out.append((g, (), True, args[0], ()))
            elif kind == "list" and op == "extend":
                for x in args[0]:
                    if isinstance(x, One):
                        out.append((And(g, x.guard), (), True, x.value, ()))
                    elif isinstance(x, Comp):
                        out.append((g, x.binders, x.cond, x.value, x.levels or ()))
                    else:
                        raise Unsupported("rows inside a loop")
            elif kind == "dict" and op == "put":
                out.append((g, (), True, args, ()))
            elif kind == "dict" and op == "dextend":
                for x in args[0]:
                    out.append((And(g, True), x.binders, x.cond, (x.key, x.value), x.levels or ()))
            else:
                raise NeedInv("loop uses " + op)
        return out

    def exclusive(self, st, entries):
        """No two entries can be there in the same iteration."""
        ip = self.ip
        for a in range(len(entries)):
            for b in range(a + 1, len(entries)):
                if ip.feasible(st.pc, And(entries[a][0], entries[a][2], entries[b][0], entries[b][2])):
                    return False
        return True

    def levels(self, seg, mark):
        """Which records belong to one iteration: what the element owned before, and what the body allocated."""
        new = (mark, len(self.ip.base))
        if seg.levels is None:
            return (((new,), seg.binders),)
        return tuple((ivs + (new,), bs) for ivs, bs in seg.levels)

    def log_segs(self, st, log, seg, mark):
        ip = self.ip
        es = self.flat_log(st, log, "list")
        es = [e for e in es if e[0] is not False]
        if not es:
            return []
        lev = self.levels(seg, mark)
        if len(es) == 1:
            g, bs, c, v, lv = es[0]
            x = Comp(seg.binders + bs, And(seg.cond, g, c), v)
            x.levels = lev + lv
            return [self.whole_ints(st, x)]
        if all(not e[1] for e in es) and self.exclusive(st, es):
            gs = [e[0] for e in es]
            x = Comp(seg.binders, And(seg.cond, Or(*gs)),
                     Lazy(lambda: union([(e[0], force(e[3])) for e in es])))
            x.levels = lev
            return [x]
        if self.exclusive(st, es):
            # at most one of the entries is there per iteration: order between them cannot matter
            # inside one iteration, but the iterations interleave, so they stay together
            parts = []
            for g, bs, c, v, lv in es:
                p = Comp(bs, And(g, c), v) if bs else One(g, v)
                if bs:
                    p.levels = lv
                parts.append(p)
            x = MultiSeg(seg.binders, seg.cond, parts)
            x.levels = lev
            return [x]
        if all(not e[1] for e in es):
            # the additions of one iteration, in order, are numbered
            q = RangeSeq(z3.IntVal(len(es)), key=("additions", ip.fresh_n, tuple(str(i) for _, i in seg.binders)))
            j = ip.index(q)
            ip.fresh_n += 1
            x = Comp(tuple(seg.binders) + ((q, j),), And(seg.cond, Or(*[And(j == k, e[0], e[2]) for k, e in enumerate(es)])),
                     Lazy(lambda: union([(j == k, force(e[3])) for k, e in enumerate(es)])))
            x.levels = lev + (((), ((q, j),)),)
            return [x]
        raise Unsupported("several additions in one iteration")

    def whole_ints(self, st, x):
        """seq[0], ..., seq[n-1] by index is the sequence itself."""
        ip = self.ip
        if len(x.binders) != 1 or x.cond is not True or not isinstance(x.binders[0][0], RangeSeq):
            return x
        v = x.value if isinstance(x.value, Sc) else None
        if v is None or v.s != I or not z3.is_app(v.t) or v.t.num_args() == 0:
            return x
        args = v.t.children()
        q = INT_SEQS.get((v.t.decl().name(), tuple(a.sexpr() for a in args[:-1])))
        if q is None:
            return x
        for f in q.facts():
            if not isinstance(f, bool):
                ip.add_fact(f)
        rng, i = x.binders[0]
        if not ip.valid(st.pc, rng.n == q.n) or not ip.valid(st.pc + ip.binder_facts(x.binders), args[-1] == i):
            return x
        j = ip.index(q)
        return Comp([(q, j)], True, q.at(j))

    def log_entries(self, st, log, seg, mark):
        es = [e for e in self.flat_log(st, log, "dict") if e[0] is not False]
        if not es:
            return []
        lev = self.levels(seg, mark)
        if len(es) == 1:
            g, bs, c, (k, v), lv = es[0]
            x = DComp(seg.binders + bs, And(seg.cond, g, c), k, v)
            x.levels = lev + lv
            return [x]
        if all(not e[1] for e in es) and self.exclusive(st, es):
            gs = [e[0] for e in es]
            x = DComp(seg.binders, And(seg.cond, Or(*gs)),
                      Lazy(lambda: union([(e[0], force(e[3][0])) for e in es])),
                      Lazy(lambda: union([(e[0], force(e[3][1])) for e in es])))
            x.levels = lev
            return [x]
        raise Unsupported("several entries in one iteration")

    # ------------------------------------------------------------------ bytes of packed integers
    def bytes_loop(self, st, s, x):
        """Four iterations consume one little-endian 32 bit integer."""
        ip = self.ip
        enum = isinstance(x, EnumBytes)
        bv = x.b if enum else x
        if bv.comp is not None:
            raise Unsupported("bytes that are still compressed")
        seq = bv.ints
        for f in seq.facts():
            if not isinstance(f, bool):
                ip.add_fact(f)
        q = ip.index(seq)
        item = seq.at(q)
        pre = (q >= 0, q < seq.n, item.t >= 0, item.t < 2 ** 32)
        bs = [ip.fresh("byte%d" % j) for j in range(4)]
        pre += tuple(z3.And(b >= 0, b < 256) for b in bs)
        pre += (item.t == bs[0] + 256 * bs[1] + 65536 * bs[2] + 16777216 * bs[3],)
        start_k = x.start if enum else None

        def value(j):
            b = Sc(I, bs[j])
            return Tup(tuple, [Sc(I, z3.simplify(4 * q + j + term(start_k))), b]) if enum else b

        mark = len(ip.base)
        probe = self.four(st, s, value, pre, None)
        if probe is None:
            raise Unsupported("bytes loop")
        start, t = probe
        names, recs, _ = self.changes(start, t, mark, ())
        cands = {}
        targets = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        for n in names:
            v0 = start.env.get(n)
            if n in targets or sort_of(v0) != I or isinstance(v0, Sc):
                cands[n] = ["stale"]
            else:
                cands[n] = [0, 1, 4, "stale"]

        def at(n, c, k):
            v0 = st.env.get(n)
            if c == "stale":
                return Stale(n)
            return v0 if c == 0 else Sc(I, z3.simplify(term(v0) + c * k))
        for choice in product_of(cands):
            def setup(z):
                for n, c in choice.items():
                    z.env[n] = at(n, c, q)
                for r in recs:
                    z.heap[r] = AccRec(ip.rec(st, Ref(r)))
            try:
                res = self.four(st, s, value, pre, setup)
            except (NeedInv, Unsupported):
                continue
            if res is None:
                continue
            start, t = res
            n2, r2, _ = self.changes(start, t, mark, ())
            if not set(n2) <= set(choice) or not set(r2) <= set(recs):
                continue
            ok = all(c == "stale" or (sort_of(t.env[n]) == I and ip.valid(
                t.pc, Eq(term(t.env[n]), term(at(n, c, q + 1))))) for n, c in choice.items())
            if not ok:
                continue
            logs = {}
            for r in recs:
                rec = t.heap[r]
                if not isinstance(rec, AccRec) or not isinstance(rec.base, ListRec):
                    ok = False
                    break
                adds = [(g, a[0]) for op, g, a in rec.log if op == "append"]
                if len(adds) != len(rec.log):
                    ok = False
                    break
                adds = [(g, v) for g, v in adds if ip.feasible(t.pc, g)]
                if len(adds) == 0:
                    continue
                if len(adds) != 1 or not ip.valid(t.pc, adds[0][0]):
                    ok = False
                    break
                v = force(adds[0][1])
                if sort_of(v) != I or not ip.valid(t.pc, Eq(term(v), item.t)):
                    ok = False
                    break
                logs[r] = True
            if not ok:
                continue
            for r in logs:
                rec = ip.rec(st, Ref(r))
                st.heap[r] = ListRec(rec.segs + (Comp([(seq, q)], True, item),))
            for n, c in choice.items():
                st.env[n] = at(n, c, seq.n)
            self.used("bytes")
            return
        raise NeedInv("no invariant found for a loop over bytes")

    def four(self, st, s, value, pre, setup):
        """Four executions of the body; None if one of them does not complete normally."""
        t = st
        start0 = None
        for j in range(4):
            start, t2, raised, rets, brks, eff = self.trial(t, s, value(j), pre if j == 0 else (), setup if j == 0 else None)
            if start0 is None:
                start0 = start
            if t2 is None or rets or brks or eff or any(self.ip.feasible(x.pc) for x, _ in raised):
                return None
            t = t2
        return start0, t

    # ------------------------------------------------------------------ rows of a grid
    def rows_loop(self, st, s, seg, mark):
        """Loop that cuts an integer sequence into rows of the width of its owner."""
        ip = self.ip
        if len(seg.binders) != 1 or seg.cond is not True:
            return False
        seq, i = seg.binders[0]
        if getattr(seq, "elem", None) != docs.INT or getattr(seq, "name", None) != "data":
            return False
        w, h, N = seq.d.leaf("width").t, seq.d.leaf("height").t, seq.n
        for f in seq.facts():
            ip.add_fact(f)
        n, m = ip.fresh("rows"), ip.fresh("items")
        k = i
        item = seq.at(k)
        from .lib import DIV, MOD
        pre = [n >= 0, m >= 0, m < w, k == n * w + m, k >= 0, k < N, N == w * h, w >= 1, h >= 1, n < h,
               n * w >= 0, (n + 1) * w == n * w + w,
               # instances of: a < b => (a + 1) * w <= b * w
               z3.Implies(n + 1 < h, (n + 2) * w <= w * h), z3.Implies(n + 1 == h, (n + 1) * w == w * h),
               z3.Implies(n + 1 > h, (n + 1) * w > w * h), (n + 2) * w == n * w + 2 * w,
               # definition of // and % for k = n*w + m
               MOD(k, w) == m, DIV(k, w) == n,
               MOD(k + 1, w) == z3.If(m + 1 == w, z3.IntVal(0), m + 1),
               DIV(k + 1, w) == z3.If(m + 1 == w, n + 1, n)]
        cases = [("inside", [m + 1 < w]), ("row end", [m + 1 == w, k + 1 < N]), ("end", [m + 1 == w, k + 1 == N])]
        # the changed state: a grid, its current row, int locals
        start, t, raised, rets, brks, eff = self.trial(st, s, seg.value, tuple(pre) + (k == 0, n == 0, m == 0))
        if t is None or rets or brks or eff:
            return False
        names, recs, _ = self.changes(start, t, mark, ())
        targets = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        lists = [r for r in recs if isinstance(ip.rec(st, Ref(r)), ListRec)]
        if len(lists) != len(recs):
            return False
        shape = None
        for g in self.reachable_lists(st):
            rec = ip.rec(st, Ref(g))
            if len(rec.segs) == 1 and isinstance(rec.segs[0], One) and rec.segs[0].guard is True:
                row = force(rec.segs[0].value)
                if isinstance(row, Ref) and row.n in recs and isinstance(ip.rec(st, row), ListRec) \
                        and not ip.rec(st, row).segs and set(recs) <= {g, row.n}:
                    shape = ("P", g, row.n, None)
                    break
        if shape is None:
            # grid empty, current row in a local
            for v in list(st.env):
                row = st.env[v]
                if isinstance(row, Ref) and row.n in recs and isinstance(ip.rec(st, row), ListRec) \
                        and not ip.rec(st, row).segs:
                    for g in self.reachable_lists(st):
                        if g != row.n and not ip.rec(st, Ref(g)).segs and set(recs) <= {g, row.n}:
                            shape = ("C", g, row.n, v)
                            break
                if shape:
                    break
        if shape is None:
            return self.late_rows(st, s, seg, mark, seq, k, n, m, w, h, tuple(pre), names, recs, targets)
        form, g, row, rowvar = shape
        ints = {}
        for v in set(names) | {x for x in st.env if isinstance(st.env[x], int) and not isinstance(st.env[x], bool)}:
            if v in targets:
                ints[v] = ["stale"]
            elif v == rowvar:
                continue
            elif isinstance(st.env.get(v), int) and not isinstance(st.env.get(v), bool):
                ints[v] = ["const", "k", "n", "m"] if self.assigned(s, v) else ["const"]
            else:
                ints[v] = ["stale"]

        def loc(v, c, kk, nn, mm):
            if c == "stale":
                return Stale(v)
            v0 = st.env[v]
            if c == "const":
                return v0
            return Sc(I, z3.simplify(term(v0) + {"k": kk, "n": nn, "m": mm}[c]))

        for choice in product_of(ints):
            cur = {}

            def setup(z):
                r = ip.alloc(z, ListRec([SliceSeg(seq, n * w, m)]))
                cur["row"] = r
                rows = [RowsSeg(seq, w, n)]
                if form == "P":
                    rows.append(One(True, r))
                else:
                    z.env[rowvar] = r
                z.heap[g] = ListRec(rows)
                for v, c in choice.items():
                    z.env[v] = loc(v, c, k, n, m)
            good = True
            finals = None
            for label, extra in cases:
                try:
                    start, t, raised, rets, brks, eff = self.trial(st, s, seg.value, tuple(pre + extra), setup)
                except (NeedInv, Unsupported):
                    good = False
                    break
                if t is None or rets or brks or eff or any(ip.feasible(x.pc) for x, _ in raised):
                    good = False
                    break
                n1, r1, _ = self.changes(start, t, mark, ())
                if not set(n1) <= set(choice) | {rowvar} or not set(r1) <= {g}:
                    good = False
                    break
                norm = self.norm_rows(t, g, seq, w, form)
                if norm is None:
                    good = False
                    break
                cnt, tail, seen = norm
                if any(x != cur["row"].n and x < mark for x in seen):
                    good = False        # a row that other code may hold
                    break
                if form == "C":
                    ref = force(t.env[rowvar])
                    tail = self.row_of(t, ref, seq)
                    if label != "end" and (tail is None or ref.n in seen or (ref.n != cur["row"].n and ref.n < mark)):
                        good = False
                        break
                nn, mm = (n, m + 1) if label == "inside" else (n + 1, z3.IntVal(0))
                if label == "end" and form == "P":
                    # the last row stays the current one
                    if tail is not None and not (ip.valid(t.pc, tail[1] == w) and ip.valid(t.pc, tail[0] == n * w)
                                                 and ip.valid(t.pc, cnt == n)):
                        good = False
                        break
                    if tail is None and not ip.valid(t.pc, cnt == n + 1):
                        good = False
                        break
                    continue
                if label == "end":
                    if not ip.valid(t.pc, cnt == n + 1):
                        good = False
                        break
                    continue
                if tail is None or not ip.valid(t.pc, cnt == nn) or not ip.valid(t.pc, tail[1] == mm) or \
                        not (ip.valid(t.pc, tail[0] == nn * w) or ip.valid(t.pc, tail[1] == 0)):
                    good = False
                    break
                for v, c in choice.items():
                    if c == "stale":
                        continue
                    x = t.env[v]
                    if sort_of(x) != I or not ip.valid(t.pc, Eq(term(x), term(loc(v, c, k + 1, nn, mm)))):
                        good = False
                        break
                if not good:
                    break
            if not good:
                continue
            st.heap[g] = ListRec([RowsSeg(seq, w, h)])     # all N == w*h items
            for v in list(choice) + ([rowvar] if rowvar else []):
                if self.assigned(s, v) or v in targets:
                    st.env[v] = Stale(v)
            self.used("rows")
            return True
        return form == "P" and self.lazy_rows(st, s, seg, mark, seq, k, n, m, w, h, names, targets, g, row)

    def lazy_rows(self, st, s, seg, mark, seq, k, n, m, w, h, names, targets, g, row):
        """A full row stays the current one until the next item comes: before item k = n*w + m there are n full rows
        and the first m items of the next one, 0 < m <= w (m = 0 only before the first item)."""
        ip = self.ip
        N = seq.n
        from .lib import DIV, MOD
        pre = [n >= 0, m >= 0, m <= w, k == n * w + m, k >= 0, k < N, N == w * h, w >= 1, h >= 1, n < h,
               n * w >= 0, (n + 1) * w == n * w + w, (n + 2) * w == n * w + 2 * w,
               z3.Implies(n + 1 < h, (n + 2) * w <= w * h), z3.Implies(n + 1 >= h, (n + 1) * w >= w * h),
               z3.Implies(m < w, z3.And(MOD(k, w) == m, DIV(k, w) == n)),
               z3.Implies(m == w, z3.And(MOD(k, w) == 0, DIV(k, w) == n + 1)),
               z3.Implies(m + 1 < w, z3.And(MOD(k + 1, w) == m + 1, DIV(k + 1, w) == n)),
               z3.Implies(m + 1 == w, z3.And(MOD(k + 1, w) == 0, DIV(k + 1, w) == n + 1)),
               z3.Implies(z3.And(m == w, w > 1), z3.And(MOD(k + 1, w) == 1, DIV(k + 1, w) == n + 1)),
               z3.Implies(z3.And(m == w, w == 1), z3.And(MOD(k + 1, w) == 0, DIV(k + 1, w) == n + 2))]
        zero = z3.IntVal(0)
        cases = [([k == 0, n == 0, m == 0], zero, z3.IntVal(1)), ([m >= 1, m < w], n, m + 1),
                 ([m == w, n + 1 < h], n + 1, z3.IntVal(1))]
        alias = [v for v, x in st.env.items() if isinstance(x, Ref) and x.n == row]
        ints = {}
        for v in set(names) | {x for x in st.env if isinstance(st.env[x], int) and not isinstance(st.env[x], bool)}:
            if v in targets:
                ints[v] = ["stale"]
            elif v in alias:
                continue
            elif isinstance(st.env.get(v), int) and not isinstance(st.env.get(v), bool):
                ints[v] = ["const", "k", "n", "m"] if self.assigned(s, v) else ["const"]
            else:
                ints[v] = ["stale"]

        def loc(v, c, kk, nn, mm):
            if c == "stale":
                return Stale(v)
            if c == "const":
                return st.env[v]
            return Sc(I, z3.simplify(term(st.env[v]) + {"k": kk, "n": nn, "m": mm}[c]))

        def step(choice, extra, nn, mm):
            cur = {}

            def setup(z):
                cur["row"] = ip.alloc(z, ListRec([SliceSeg(seq, n * w, m)]))
                z.heap[g] = ListRec([RowsSeg(seq, w, n), One(True, cur["row"])])
                for v in alias:
                    z.env[v] = cur["row"]
                for v, c in choice.items():
                    z.env[v] = loc(v, c, k, n, m)
            start, t, raised, rets, brks, eff = self.trial(st, s, seg.value, tuple(pre) + tuple(extra), setup)
            if t is None or rets or brks or eff or any(ip.feasible(x.pc) for x, _ in raised):
                return False
            n1, r1, _ = self.changes(start, t, mark, ())
            if not set(n1) <= set(choice) | set(alias) or not set(r1) <= {g}:
                return False
            norm = self.norm_rows(t, g, seq, w, "P")
            if norm is None:
                return False
            cnt, tail, seen = norm
            if tail is None or any(x != cur["row"].n and x < mark for x in seen):
                return False
            last = force(ip.rec(t, Ref(g)).segs[-1].value)
            if any(force(t.env.get(v)) != last for v in alias):
                return False
            if not ip.valid(t.pc, z3.And(cnt == nn, tail[1] == mm, tail[0] == nn * w)):
                return False
            for v, c in choice.items():
                if c != "stale":
                    x = t.env[v]
                    if sort_of(x) != I or not ip.valid(t.pc, Eq(term(x), term(loc(v, c, k + 1, nn, mm)))):
                        return False
            return True

        for choice in product_of(ints):
            try:
                if not all(step(choice, *c) for c in cases):
                    continue
            except (NeedInv, Unsupported):
                continue
            st.heap[g] = ListRec([RowsSeg(seq, w, h)])     # n = h - 1 and m = w after the last item
            for v in list(choice) + alias:
                if self.assigned(s, v) or v in targets or v in alias:
                    st.env[v] = Stale(v)
            self.used("rows")
            return True
        return False

    def late_rows(self, st, s, seg, mark, seq, k, n, m, w, h, pre, names, recs, targets):
        """Rows that are added to the grid when their first item comes: before item k = n*w + m there are n full
        rows and, if m > 0, the first m items of the next one."""
        ip = self.ip
        if len(recs) != 1 or ip.rec(st, Ref(recs[0])).segs:
            return False
        g = recs[0]
        ints = {}
        for v in set(names) | {x for x in st.env if isinstance(st.env[x], int) and not isinstance(st.env[x], bool)}:
            if v in targets:
                ints[v] = ["stale"]
            elif isinstance(st.env.get(v), int) and not isinstance(st.env.get(v), bool):
                ints[v] = ["const", "k", "n", "m", "c"] if self.assigned(s, v) else ["const"]
            else:
                ints[v] = ["stale"]

        def loc(v, c, kk, nn, mm):
            if c == "stale":
                return Stale(v)
            if c == "const":
                return st.env[v]
            return Sc(I, z3.simplify(term(st.env[v]) + {
                "k": kk, "n": nn, "m": mm, "c": z3.If(mm > 0, nn + 1, nn)}[c]))

        for choice in product_of(ints):
            good = True
            for first in (True, False):
                for label, extra in (("inside", [m + 1 < w]), ("end", [m + 1 == w])):
                    cur = {}

                    def setup(z):
                        rows = [RowsSeg(seq, w, n)]
                        if not first:
                            cur["row"] = ip.alloc(z, ListRec([SliceSeg(seq, n * w, m)]))
                            rows.append(One(True, cur["row"]))
                        z.heap[g] = ListRec(rows)
                        for v, c in choice.items():
                            z.env[v] = loc(v, c, k, n, m)
                    cond = list(extra) + [m == 0 if first else m > 0]
                    if not ip.feasible(st.pc, *(pre + tuple(cond))):
                        continue
                    try:
                        start, t, raised, rets, brks, eff = self.trial(st, s, seg.value, pre + tuple(cond), setup)
                        good = t is not None and not rets and not brks and not eff and \
                            not any(ip.feasible(x.pc) for x, _ in raised)
                        if good:
                            n1, r1, _ = self.changes(start, t, mark, ())
                            good = set(n1) <= set(choice) and set(r1) <= {g}
                        if good:
                            norm = self.norm_rows(t, g, seq, w, "P")
                            good = norm is not None
                        if good:
                            cnt, tail, seen = norm
                            good = not any(x < mark for x in seen)
                        if good:
                            good = tail is not None and ip.valid(t.pc, cnt == n) and ip.valid(t.pc, tail[0] == n * w) \
                                and ip.valid(t.pc, tail[1] == m + 1)
                    except (NeedInv, Unsupported):
                        good = False
                    if not good:
                        break
                    nn, mm = (n, m + 1) if label == "inside" else (n + 1, z3.IntVal(0))
                    for v, c in choice.items():
                        if c == "stale":
                            continue
                        x = t.env[v]
                        if sort_of(x) != I or not ip.valid(t.pc, Eq(term(x), term(loc(v, c, k + 1, nn, mm)))):
                            good = False
                            break
                    if not good:
                        break
                if not good:
                    break
            if not good:
                continue
            st.heap[g] = ListRec([RowsSeg(seq, w, h)])     # all N == w*h items
            for v in choice:
                if self.assigned(s, v) or v in targets:
                    st.env[v] = Stale(v)
            self.used("rows")
            return True
        return False

    def assigned(self, s, v):
        return any(isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Store)
                   for b in s.body for x in ast.walk(b))

    def reachable_lists(self, st):
        out = []
        for v in st.env.values():
            if isinstance(v, Ref) and isinstance(self.ip.rec(st, v), ListRec):
                out.append(v.n)
        return out

    def row_of(self, st, v, seq):
        """(start, length) of a row of the sequence, or None."""
        ip = self.ip
        if not isinstance(v, Ref) or not isinstance(ip.rec(st, v), ListRec):
            return None
        segs = list(ip.rec(st, v).segs)
        if not segs:
            return z3.IntVal(0), z3.IntVal(0)
        if not isinstance(segs[0], SliceSeg) or segs[0].seq is not seq:
            item = force(segs[0].value) if isinstance(segs[0], One) else None
            if not isinstance(item, Sc) or not z3.is_app(item.t) or not item.t.num_args():
                return None
            segs.insert(0, SliceSeg(seq, item.t.children()[-1], z3.IntVal(0)))
        first = segs[0]
        start, ln = first.start, first.ln
        for x in segs[1:]:
            if not (isinstance(x, One) and x.guard is True):
                return None
            item = force(x.value)
            if sort_of(item) != I or not ip.valid(st.pc, Eq(term(item), seq.at(start + ln).t)):
                return None
            ln = ln + 1
        return z3.simplify(start), z3.simplify(ln)

    def norm_rows(self, st, g, seq, w, form):
        """The grid as (number of full rows, current row or None, refs), or None if it is nothing like that."""
        ip = self.ip
        segs = list(ip.rec(st, Ref(g)).segs)
        if not segs or not isinstance(segs[0], RowsSeg) or segs[0].seq is not seq or not segs[0].w.eq(w):
            return None
        cnt = segs[0].n
        rest = segs[1:]
        seen = set()
        for j, x in enumerate(rest):
            if not (isinstance(x, One) and x.guard is True):
                return None
            ref = force(x.value)
            if not isinstance(ref, Ref) or ref.n in seen:
                return None
            seen.add(ref.n)
            r = self.row_of(st, ref, seq)
            if r is None:
                return None
            full = ip.valid(st.pc, And(r[1] == w, r[0] == cnt * w))
            if form == "P" and j == len(rest) - 1:
                return cnt, r, seen
            if not full:
                return None
            cnt = cnt + 1
        return z3.simplify(cnt), None, seen

    # ------------------------------------------------------------------ while
    def counted(self, st, s):
        """`while v < e: body; v += step` is `for v in range(v, e, step): body` if the body assigns neither v nor
        what e and step depend on; that e and step keep their values is checked in the generic iteration."""
        ip = self.ip
        t, last = s.test, s.body[-1]
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq))
                and isinstance(t.left, ast.Name)):
            return None
        v, end = t.left.id, t.comparators[0]
        if isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name):
            name, step = last.target.id, last.value
        elif isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and \
                isinstance(last.value, ast.BinOp) and isinstance(last.value.op, ast.Add) and \
                isinstance(last.value.left, ast.Name) and last.value.left.id == last.targets[0].id:
            name, step = last.targets[0].id, last.value.right
        else:
            return None
        body = s.body[:-1]
        stored = {x.id for b in body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        if name != v or v in stored or has_continue(body) or any(
                isinstance(x, (ast.Nonlocal, ast.Global, ast.FunctionDef, ast.Lambda)) for b in body for x in ast.walk(b)):
            return None
        for e in (end, step):
            for x in ast.walk(e):
                if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id == "len" and len(x.args) == 1
                                                    and isinstance(x.args[0], ast.Name) and not x.keywords):
                    return None
                if not isinstance(x, (ast.Name, ast.Load, ast.Constant, ast.Call, ast.BinOp, ast.operator)) or \
                        isinstance(x, ast.Name) and (x.id in stored or x.id == v):
                    return None
        try:
            v0, e0, k = force(st.env.get(v)), force(ip.eval(st, end)), force(ip.eval(st, step))
        except NeedInv:
            return None
        if not all(sort_of(x) == I for x in (v0, e0, k)) or isinstance(k, Sc) and not ip.valid(st.pc, k.t >= 1) or \
                not isinstance(k, Sc) and k < 1:
            return None
        if isinstance(t.ops[0], ast.NotEq) and not (k == 1 and ip.valid(st.pc, term(v0) <= term(e0))):
            return None

        def keep(s2):
            for e, x in ((end, e0), (step, k)):
                y = force(ip.eval(s2, e))
                if sort_of(y) != I or not ip.valid(s2.pc, Eq(term(y), term(x))):
                    raise Unsupported("the bound of a while loop changes")
        check = HookStmt()
        check.hook = keep
        loop = ast.For(target=ast.Name(v, ast.Store()), iter=None, body=[check] + body + [check], orelse=s.orelse)
        self.used("counted while")
        it = ip.lib.mk_range(st, [v0, e0, k])
        return loop, it, (v, v0, e0, k)

    def while_loop(self, st, s):
        ip = self.ip
        c = ip.eval_cond(st, s.test)
        if not isinstance(c, bool):
            form = self.counted(st, s)
            if form is not None:
                loop, it, (v, v0, e0, k) = form
                self.for_loop(st, loop, it)
                if k == 1 and not any(isinstance(x, ast.Break) for b in s.body for x in ast.walk(b)):
                    st.env[v] = Sc(I, z3.simplify(z3.If(term(e0) > term(v0), term(e0), term(v0))))
                else:
                    st.env[v] = Stale(v)
                return
        ctx = LoopCtx()
        base = st.pc
        fr = ip.frames[-1]
        fr.loops.append(ctx)
        alive = True
        try:
            try:
                for _ in range(400):
                    c = ip.eval_cond(st, s.test)
                    if c is not True and c is not False:
                        if ip.valid(st.pc, c):
                            c = True
                        elif not ip.feasible(st.pc, c):
                            c = False
                        else:
                            raise Unsupported("while loop without a known bound")
                    if c is False:
                        break
                    self.iterate_body(st, s, ctx)
                else:
                    raise Unsupported("long while loop")
            except Dead:
                alive = False
        finally:
            fr.loops.pop()
        if alive and s.orelse:
            try:
                ip.block(st, s.orelse)
            except Dead:
                alive = False
        outs = ([st.fork()] if alive else []) + ctx.breaks
        if not outs:
            raise Dead()
        ip.join_states(st, base, outs)

    def iterate_body(self, st, s, ctx):
        ip = self.ip
        base = st.pc
        saved, ctx.continues = ctx.continues, []
        ok = True
        try:
            ip.block(st, s.body)
        except Dead:
            ok = False
        outs = ctx.continues + ([st.fork()] if ok else [])
        ctx.continues = saved
        if not outs:
            raise Dead()
        ip.join_states(st, base, outs)

    # ------------------------------------------------------------------ comprehensions
    def comprehension(self, st, e, kind):
        ip = self.ip
        walrus = [x for x in ast.walk(e) if isinstance(x, ast.NamedExpr)]
        inside = [x for g in e.generators for c in g.ifs for x in ast.walk(c) if isinstance(x, ast.NamedExpr)]
        if walrus and (isinstance(e, ast.GeneratorExp) or len(walrus) != len(inside)):
            raise Unsupported("assignment in a comprehension")
        ref = ip.alloc(st, ListRec() if kind == "list" else DictRec())
        acc = AccStmt()
        acc.ref, acc.e, acc.kind = ref, e, kind
        body = [acc]
        for g in reversed(e.generators):
            if g.is_async:
                raise Unsupported("async")
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
        names = {x.id for g in e.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        saved = {n: st.env[n] for n in names if n in st.env}
        ip.block(st, body)
        for n in names:
            if n in saved:
                st.env[n] = saved[n]
            else:
                st.env.pop(n, None)
        return ref

    def accumulate(self, st, s):
        ip = self.ip
        if s.kind == "list":
            ip.list_append(st, s.ref, ip.eval(st, s.e.elt))
        else:
            k = ip.eval(st, s.e.key)
            ip.set_item(st, s.ref, k, ip.eval(st, s.e.value))

    def map_segments(self, st, v, fn):
        """[fn(x) for x in v] as a new list."""
        ip = self.ip
        ref = ip.alloc(st, ListRec())
        f = CallStmt()
        f.ref, f.fn = ref, fn
        loop = ast.For(target=ast.Name("\0x", ast.Store()), iter=None, body=[f], orelse=[])
        self.for_loop(st, loop, v)
        st.env.pop("\0x", None)
        return ref

    def append_norm(self, st, segs, one):
        """Adds an element; an element that continues a slice of a sequence extends the slice."""
        if segs and isinstance(segs[-1], SliceSeg):
            s, v = segs[-1], force(one.value)
            if isinstance(v, Sc) and v.s == I and one.guard is True:
                if self.ip.valid(st.pc, Eq(v.t, s.seq.at(z3.simplify(s.start + s.ln)).t)):
                    return segs[:-1] + (SliceSeg(s.seq, s.start, z3.simplify(s.ln + 1)),)
        return segs + (one,)


class CallStmt(ast.stmt):
    _fields = ()


class MultiSeg:
    """Per iteration of the binders at most one of the parts (exclusive guards), in order of the iterations."""

    def __init__(self, binders, cond, parts):
        self.binders, self.cond, self.parts = tuple(binders), cond, parts

    levels = None


def product_of(cands):
    names = list(cands)

    def go(j):
        if j == len(names):
            yield {}
            return
        for c in cands[names[j]]:
            for rest in go(j + 1):
                d = {names[j]: c}
                d.update(rest)
                yield d
    return go(0)

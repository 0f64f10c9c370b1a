"""Further verification tasks: functions that do not take a rendered document."""
import z3

from . import docs, sym
from .docs import Whole
from .interp import Comp, ExcV, GenV, ListRec, One, force
from .lib import DirSeq, FsFile, float_of, hexval, is_hex, re_group, re_match
from .sym import And, CharStr, Eq, Not, Or, Sc, Unsupported, alts_of, term, zb
from .loops import MultiSeg
from .verify import DISCHARGED, REFUTED, UNDECIDED, Comparer, Ob, effects, no_exceptions, run_function

COLOR_MAX = 10


def claim(ip, obs, name, tags, pc, g, detail=""):
    """pc implies g."""
    if g is True:
        obs.append(Ob(name, tags, DISCHARGED, "syntactic"))
        return
    fs = list(pc) + [Not(g)]
    r, m = ip.check(fs)
    st = {"unsat": DISCHARGED, "sat": REFUTED}.get(r, UNDECIDED)
    obs.append(Ob(name, tags, st, "smt" if st == DISCHARGED else detail or r, m, tuple(fs)))


# ---------------------------------------------------------------------------- util.parse_color
def color_task(Task, fn):
    """parse_color on an arbitrary text, by length (0 .. 9 exactly, 10 or more with an unknown rest)."""
    def body(ip, obs, task):
        from .contracts import table
        ip.contracts = {f: c for f, c in ip.contracts.items() if c.name != "util.parse_color"}
        for k in range(COLOR_MAX + 1):
            for hashed in (False, True):
                if hashed and not k:
                    continue
                one(ip, obs, task, k, hashed)
        effects(ip, obs, task.name)

    def one(ip, obs, task, k, hashed):
        cs = [z3.Int("char%d" % i) for i in range(k)]
        rest = None
        facts = [z3.And(c >= 0, c <= 0x10FFFF) for c in cs]
        if k == COLOR_MAX:
            rest = z3.Int("chars_more")
            facts.append(rest >= 1)
        if k:
            facts.append(cs[0] == 35 if hashed else cs[0] != 35)
        core = cs[1:] if hashed else cs
        n = len(core)
        good = And(*[is_hex(c) for c in core]) if rest is None and n in (6, 8) else False
        name = "%s/%s%s characters" % (task.name, "# and " if hashed else "",
                                       "%d or more" % (n + 1) if rest is not None else n)
        ob1 = []
        out = run_function(ip, fn("util.parse_color"), [CharStr(cs, rest)], None, facts)
        tags = task.props
        if out.returned:
            claim(ip, ob1, name + "/only-valid-colors", tags, out.st.pc, good, "a malformed color is accepted")
            if good is not False:
                v = [hexval(a) * 16 + hexval(b) for a, b in zip(core[::2], core[1::2])]
                want = v + [z3.IntVal(255)] if n == 6 else v[1:] + v[:1]
                spec = docs.Rec("Color", [(c, Sc(sym.I, t)) for c, t in zip(("red", "green", "blue", "alpha"), want)])
                from .verify import Comparer
                Comparer(ip, out.st, ob1, tags, name).compare(tuple(out.st.pc) + (good,), out.value, spec, [], tags)
        elif good is not False:
            ob1.append(Ob(name, tags, REFUTED, "never returns"))
        for s, e in out.raised:
            if not ip.feasible(s.pc):
                continue
            if not issubclass(e.cls, ValueError):
                claim(ip, ob1, name + "/ValueError", tags, s.pc, False, "%s instead of ValueError" % e.cls.__name__)
            claim(ip, ob1, name + "/valid-colors-accepted", tags, s.pc, Not(good), "%s for a valid color" % e.cls.__name__)
        for o in ob1:
            o.input = (k, rest)
        obs.extend(ob1)

    def replay(ip, o):
        from . import cases
        m = o.model
        k, rest = getattr(o, "input", (0, None))
        if m is None:
            return
        cs = [m.eval(z3.Int("char%d" % i), model_completion=True).as_long() for i in range(k)]
        text = "".join(chr(c) for c in cs)
        if rest is not None:
            text += "0" * min(m.eval(rest, model_completion=True).as_long(), 20)
        if any(0xD800 <= ord(c) < 0xE000 for c in text):
            return
        yield cases.color_case(text)
    t = Task("util.parse_color", ["C01", "C19"], body)
    t.whole_map, t.replay = False, replay
    return t


# ---------------------------------------------------------------------------- util.iter_object_layers
def flat_task(Task, fn, fmt):
    """iter_object_layers yields, for every layer in order: the layer itself if it is an object layer, what the
    contract says for its layers if it is a group, nothing otherwise."""
    def body(ip, obs, task):
        from . import tasks as T
        pd = T.path_const("map_dir")
        r = T.root()
        ip.file_system = T.FS(r, fmt, None, pd.t)
        for depth in (0, 1):
            seq = r.seq("layers")
            if depth:
                seq = T.at(ip, seq, T.IDX[0]).seq("layers")
            one(ip, obs, task, seq, pd, depth)

    def one(ip, obs, task, seq, pd, depth):
        from .contracts import flat
        i = ip.index(seq)
        ip.see(seq.at(i))
        ref = ip.alloc_doc(ListRec([Comp([(seq, i)], True, Whole(docs.spec_layer, seq.at(i), (fmt, pd)))]))
        name = task.name + ("/group" if depth else "/map")
        tags = task.props
        out = run_function(ip, fn("util.iter_object_layers"), [ref])
        no_exceptions(ip, out, obs, name, tags)
        effects(ip, obs, name)
        if not out.returned:
            obs.append(Ob(name, tags, REFUTED, "never returns", None))
            return
        segs = ip.segments(out.st, out.value)
        if len(segs) != 1:
            raise Unsupported("%d parts" % len(segs))
        s = segs[0]
        bs = tuple(s.binders)
        if not bs or bs[0][0].key != seq.key:
            raise Unsupported("yields not by layer")
        j = bs[0][1]
        x = seq.at(j)
        ip.see(x)
        if isinstance(s, MultiSeg):
            parts = [(getattr(p, "binders", ()), And(s.cond, p.guard if isinstance(p, One) else p.cond), p.value)
                     for p in s.parts]
        else:
            parts = [(bs[1:], s.cond, s.value)]
        base = tuple(out.st.pc) + ip.binder_facts([bs[0]])
        for k in docs.KIND[("Layer", "kind")]:
            pc = base + (x.kind("kind").is_(k),)
            live = [p for p in parts if ip.feasible(pc + ip.binder_facts(p[0]), p[1])]
            nm = "%s/%s" % (name, k)
            if k == "object":
                if len(live) != 1 or live[0][0]:
                    claim(ip, obs, nm, tags, pc, False, "yields %d parts for an object layer" % len(live))
                    continue
                claim(ip, obs, nm + "/yielded", tags, pc, live[0][1], "not every object layer is yielded")
                Comparer(ip, out.st, obs, tags, nm).compare(
                    pc, live[0][2], Whole(docs.spec_layer, x, (fmt, pd)), [], tags)
            elif k == "group":
                sub = flat(x.seq("layers"))
                if not live:
                    claim(ip, obs, nm, tags, pc + (sub.n > 0,), False, "layers of groups are left out")
                    continue
                if len(live) != 1 or len(live[0][0]) != 1 or live[0][0][0][0].key != sub.key:
                    raise Unsupported("layers of groups")
                q, l = live[0][0][0]
                inner = pc + ip.binder_facts([(q, l)])
                claim(ip, obs, nm + "/yielded", tags, inner, live[0][1], "not all object layers of groups are yielded")
                Comparer(ip, out.st, obs, tags, nm).compare(
                    inner, live[0][2], Whole(docs.spec_layer, sub.at(l), (fmt, pd)), [], tags)
            else:
                for bs2, g, v in live:
                    claim(ip, obs, nm, tags, pc + ip.binder_facts(bs2) + ((g,) if g is not True else ()), False,
                          "something is yielded for a %s layer" % k)
                if not live:
                    obs.append(Ob(nm, tags, DISCHARGED, "smt"))
    t = Task("util.iter_object_layers[%s]" % fmt, ["C15", "C19"], body)
    t.whole_map = False
    return t


# ---------------------------------------------------------------------------- files and formats
def check_format_task(Task, fn):
    """check_format(path) == "tmx" if the first character that is not white space is '<', else "json"."""
    def body(ip, obs, task):
        from . import tasks as T
        p = T.path_const("some_file")
        x, b = z3.Bool("content_is_xml"), z3.Bool("content_is_json")
        f = FsFile("some_file", [(x, "tmx", lambda: None), (And(Not(x), b), "json", lambda: None),
                                 (And(Not(x), Not(b)), "bad", lambda: None)])
        ip.file_system = lambda ip_, st, t: f if t.eq(p.t) else None
        out = run_function(ip, fn("util.check_format"), [p])
        no_exceptions(ip, out, obs, task.name, task.props)
        effects(ip, obs, task.name)
        if not out.returned:
            obs.append(Ob(task.name, task.props, REFUTED, "never returns", None))
            return
        for g, v in alts_of(force(out.value)):
            pc = tuple(out.st.pc) + ((g,) if g is not True else ())
            if not isinstance(v, str):
                raise Unsupported("result %r" % (v,))
            if v not in ("tmx", "json"):
                claim(ip, obs, task.name + "/result", task.props, pc, False, "result %r" % v)
            else:
                claim(ip, obs, task.name + "/" + v, task.props, pc, x if v == "tmx" else Not(x), "%s for the other" % v)
    t = Task("util.check_format", ["C16", "C19"], body)
    t.whole_map = False
    return t


def parse_map_task(Task, fn, kind):
    """parse_map(file) is the map of the file for both formats; UnknownFormat if the text is of neither."""
    def body(ip, obs, task):
        from . import tasks as T
        r = T.root()
        ip.see(r)
        file = T.path_const("map_file")
        ip.file_system = T.FS(r, kind, file.t)
        if kind == "bad":
            ip.file_system.extra[file.t] = FsFile("map", [(True, "bad", lambda: None)])
            ip.file_system.map_file = None
            ip.file_system.map_dir = sym.p_parent(file.t)
        out = run_function(ip, fn("parse_map"), [file])
        if kind == "bad":
            T.must_raise(ip, obs, task, out, fn("UnknownFormat"))
            effects(ip, obs, task.name)
        else:
            T.post(ip, obs, task, out, docs.spec_map(r, kind, file), {"C16"})
    t = Task("parser.parse_map[%s]" % ("neither" if kind == "bad" else kind), ["C16", "C19"], body,
             {("map.layers*.objects.template", "has", "tileset"): False})
    t.whole_map = kind != "bad"
    return t


def parse_tileset_task(Task, fn, kind):
    """parse_tileset(file) is the tileset of the file, with firstgid 1; UnknownFormat if the text is neither."""
    def body(ip, obs, task):
        from . import tasks as T
        r = T.root()
        d = T.at(ip, r.seq("tilesets"), T.IDX[0]).child("ts")
        ip.see(d)
        file = T.path_const("tileset_file")
        ip.file_system = T.FS(r, "json", None, sym.p_parent(file.t))
        alt = (True, "bad", lambda: None) if kind == "bad" else (True, kind, lambda: T.REND[kind]["tileset"](d))
        ip.file_system.extra[file.t] = FsFile("tileset", [alt], d)
        out = run_function(ip, fn("parse_tileset"), [file])
        if kind == "bad":
            T.must_raise(ip, obs, task, out, fn("UnknownFormat"))
            effects(ip, obs, task.name)
        else:
            T.post(ip, obs, task, out, docs.spec_tileset(d, kind, Sc(sym.I, z3.IntVal(1)), None), {"C16", "C09"})
    t = Task("parser.parse_tileset[%s]" % ("neither" if kind == "bad" else kind), ["C09", "C16", "C19"], body)
    t.whole_map = False
    return t


def unreadable_task(Task, fn, fmt):
    """A map with an external tileset whose text is neither XML nor JSON raises UnknownFormat, and nothing else
    raises; every other tileset is read."""
    def body(ip, obs, task):
        from . import tasks as T
        r = T.root()
        ip.see(r)
        file = T.path_const("map_file")
        ip.file_system = T.FS(r, fmt, file.t, None, True)
        out = run_function(ip, fn("parse_map"), [file])
        effects(ip, obs, task.name)
        UF = fn("UnknownFormat")
        seq = r.seq("tilesets")
        i = ip.index(seq)
        ref = seq.at(i)
        ip.see(ref)
        bad = And(ref.present("source"), bad_of(ip, ref))
        r, m = ip.check(list(ip.binder_facts([(seq, i)])) + [bad])
        obs.append(Ob(task.name + "/precondition-satisfiable", task.props, DISCHARGED if r == "sat" else UNDECIDED, "smt: " + r))
        pcs = []
        for s, e in out.raised:
            if not ip.feasible(s.pc):
                continue
            if issubclass(e.cls, UF):
                pcs.append(And(*s.pc))
                claim(ip, obs, task.name + "/only-unreadable", task.props, s.pc, bad, "UnknownFormat for a readable tileset")
            else:
                claim(ip, obs, task.name + "/UnknownFormat", task.props, s.pc, False,
                      "%s instead of UnknownFormat" % e.cls.__name__)
        claim(ip, obs, task.name + "/unreadable-reported", task.props, ip.binder_facts([(seq, i)]) + (bad,),
              Or(*pcs), "an unreadable tileset is not reported")

    def bad_of(ip, ref):
        f = ip.file_system.file_of(ref)
        return Or(*[g for g, k, _ in f.alts if k == "bad"])
    t = Task("parser.parse_map[%s, unreadable tileset]" % fmt, ["C16"], body,
             {("map.layers*.objects.template", "has", "tileset"): False})
    t.whole_map = False
    return t


# ---------------------------------------------------------------------------- rejected layers
def bad_text(ip, but):
    t = z3.Const("bad_text", sym.StrS)
    for b in but:
        ip.add_fact(t != sym.lit(b))
    return Sc(sym.S, t)


def bad_layer_task(Task, fn, fmt, what, storage=None, chunked=False, zstd=False):
    """A JSON layer of another type raises RuntimeError; data with another compression raises ValueError."""
    def body(ip, obs, task):
        from . import tasks as T
        r = T.root()
        d = T.at(ip, r.seq("layers"), T.IDX[0])
        pd = T.path_const("map_dir")
        ip.file_system = T.FS(r, fmt, None, pd.t)
        try:
            if what == "type":
                docs.BAD["type"] = bad_text(ip, ("tilelayer", "objectgroup", "imagelayer", "group"))
            else:
                docs.BAD["compression"] = "zstd" if zstd else bad_text(ip, ("", "zlib", "gzip", "zstd"))
            if chunked:
                ip.add_fact(d.seq("chunks").n >= 1)
            raw = ip.lift(T.REND[fmt]["layer"](d))
            out = run_function(ip, fn("parsers.%s.layer.parse" % fmt), [raw, pd])
            T.must_raise(ip, obs, task, out, RuntimeError if what == "type" else ValueError)
            effects(ip, obs, task.name)
        finally:
            docs.BAD.update(type=None, compression=None)
    if what == "type":
        t = Task("%s.layer.parse[other type]" % fmt, ["C04"], body)
    else:
        t = Task("%s.layer.parse[%s, %s, %s]" % (fmt, "zstd without the module" if zstd else "other compression", storage,
                                                 "chunks" if chunked else "grid"), ["C03"], body,
                 {("map.layers", "kind", "kind"): "tile", ("map.layers", "kind", "storage"): storage,
                  ("map.layers", "has", "chunks"): chunked})
    t.whole_map = False
    return t


# ---------------------------------------------------------------------------- worlds
def world_task(Task, fn):
    """parse_world(file): the listed maps, then for each pattern the matching regular files of the directory."""
    def body(ip, obs, task):
        from . import tasks as T
        w = sym.SymDoc("World", "world")
        ip.see(w)
        maps, pats = w.seq("maps"), w.seq("patterns")
        for s, f in ((maps, "maps"), (pats, "patterns")):
            ip.add_fact(s.n >= 0)
            ip.add_fact(z3.Implies(Not(w.flag(f)), s.n == 0))
        file = T.path_const("world_file")
        ip.file_system = lambda ip_, st, t: FsFile("world", [(True, "json", lambda: docs.json_world(w))], w) \
            if t.eq(file.t) else None
        here = sym.p_parent(file.t)
        name, tags = task.name, task.props
        for flags in ((False, False), (True, False), (False, True), (True, True)):
            pc = tuple(w.flag(n) if v else Not(w.flag(n)) for n, v in zip(("maps", "patterns"), flags))
            one(ip, obs, name + "/maps" * flags[0] + "/patterns" * flags[1], tags, w, maps, pats, file, here, pc, flags)

    def one(ip, obs, name, tags, w, maps, pats, file, here, pc, flags):
        out = run_function(ip, fn("parse_world"), [file], None, pc)
        no_exceptions(ip, out, obs, name, tags)
        effects(ip, obs, name)
        if not out.returned:
            obs.append(Ob(name, tags, REFUTED, "never returns", None))
            return
        r, m = ip.check(list(out.st.pc))
        obs.append(Ob(name + "/precondition-satisfiable", tags, DISCHARGED if r == "sat" else UNDECIDED, "smt: " + r))
        st = out.st
        Comparer(ip, st, obs, tags, name).compare(st.pc, out.value, docs.Rec("World", [
            ("only_show_adjacent", w.M.ite(w.has("onlyShowAdjacentMaps"), lambda: w.leaf("onlyShowAdjacentMaps"),
                                           lambda: False)),
            ("maps", Hole(lambda v, p: seq(ip, obs, name, tags, st, p, v, w, maps, pats, here)))]), [], tags)

    def seq(ip, obs, name, tags, st, pc, v, w, maps, pats, here):
        segs = [s for s in ip.segments(st, v) if not isinstance(s, One) or ip.feasible(pc, s.guard)]
        segs = [s for s in segs if isinstance(s, One) or ip.feasible(pc + ip.binder_facts(s.binders), s.cond)]
        want = [(maps,)] * ip.feasible(pc, maps.n > 0) + [(pats,)] * ip.feasible(pc, pats.n > 0)
        cmp = Comparer(ip, st, obs, tags, name)
        for (sq,), s in zip(want, segs + [None, None]):
            if s is None:
                claim(ip, obs, name + "/maps", tags, pc + (sq.n > 0,), False, "maps of %s are missing" % sq.name)
                return
            bs = tuple(getattr(s, "binders", ()))
            if not isinstance(s, Comp) or not bs or bs[0][0].key != sq.key:
                raise Unsupported("maps of a world")
            inner = pc + ip.binder_facts(bs)
            x = sq.at(bs[0][1])
            ip.see(x)
            num = lambda n: x.leaf(n)
            if sq is maps:
                if len(bs) != 1:
                    raise Unsupported("maps of a world")
                claim(ip, obs, name + "/listed/all", tags, inner, s.cond, "a listed map is dropped")
                spec = wm(sym.p_join(here, x.leaf("fileName").t), num("width"), num("height"), num("x"), num("y"))
                cmp.compare(inner + (s.cond,), s.value, spec, ["listed"], tags)
                continue
            if len(bs) != 2 or not isinstance(bs[1][0], DirSeq):
                raise Unsupported("files of a pattern")
            claim(ip, obs, name + "/directory", tags, inner, Eq(bs[1][0].path, here), "another directory")
            f = bs[1][0].at(bs[1][1])
            pat = x.leaf("regexp").t
            isfile = z3.Function("isfile", sym.PathS, z3.BoolSort())(sym.p_join(here, f.t))
            g = And(isfile, re_match(pat, f.t))
            claim(ip, obs, name + "/pattern/all-matches", tags, inner + (g,), s.cond, "a matching file is left out")
            claim(ip, obs, name + "/pattern/only-matches", tags, inner + (s.cond,), g, "a file that does not match")
            pos = []
            for n, a in ((1, "X"), (2, "Y")):
                off = z3.If(zb(x.has("offset" + a)), term(x.leaf("offset" + a), sym.R), z3.RealVal(0))
                pos.append(Sc(sym.R, float_of(re_group("match", pat, f.t, n)) * term(x.leaf("multiplier" + a), sym.R) + off))
            spec = wm(sym.p_join(here, f.t), num("multiplierX"), num("multiplierY"), *pos)
            cmp.compare(inner + (s.cond,), s.value, spec, ["pattern"], tags)
        for s in segs[len(want):]:
            raise Unsupported("more parts than lists of maps")

    def wm(path, w, h, x, y):
        return docs.Rec("WorldMap", [
            ("map_file", sym.PathV(path)), ("size", docs.Rec("Size", [("width", w), ("height", h)])),
            ("coordinates", docs.Rec("OrderedPair", [("x", x), ("y", y)]))])
    t = Task("world.parse_world", ["C17", "C10", "C19"], body)
    t.whole_map = False
    return t


class Hole:
    """A part of a specified result that a task compares itself."""

    def __init__(self, fn):
        self.fn = fn


def tasks(Task, fn):
    out = [color_task(Task, fn)] + [flat_task(Task, fn, f) for f in ("json", "tmx")] + [check_format_task(Task, fn)]
    for k in ("json", "tmx", "bad"):
        out += [parse_map_task(Task, fn, k), parse_tileset_task(Task, fn, k)]
    for f in ("json", "tmx"):
        out.append(unreadable_task(Task, fn, f))
        out += [bad_layer_task(Task, fn, f, "compression", s, c, z) for s in ("b64", "zlib") for c in (False, True)
                for z in (False, True)]
    return out + [bad_layer_task(Task, fn, "json", "type"), world_task(Task, fn)]

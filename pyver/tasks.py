"""Verification tasks: the functions under contract, their preconditions and postconditions."""
import importlib

import z3

from . import contracts, docs, interp, sym
from .docs import (KIND, MapOf, Rec, Rows, SeqOf, Whole, proplist, spec_layer, spec_map, spec_object, spec_tileset,
                   spec_wangset)
from .interp import (Comp, DictRec, ExcV, GenV, Interp, ListRec, ObjRec, One, Ref, St, force)
from .lib import FsFile
from .sym import (And, Eq, Not, Or, PathV, Sc, SymDoc, U, Unsupported, alts_of, lit, overrides, sort_of, term, zb)
from .verify import (DISCHARGED, REFUTED, UNDECIDED, Comparer, Ob, Outcome, Sharing, effects, frame, no_exceptions,
                     run_function)

FMTS = ("json", "tmx")
REND = {"json": dict(layer=docs.json_layer, object=docs.json_object, tileset=docs.json_tileset,
                     wangset=docs.json_wangset, map=docs.json_map, template=docs.json_template),
        "tmx": dict(layer=docs.tmx_layer, object=docs.tmx_object, tileset=docs.tmx_tileset,
                    wangset=docs.tmx_wangset, map=docs.tmx_map, template=docs.tmx_template)}
ALL = ["C%02d" % i for i in range(1, 20)]


def fn(name):
    f = contracts.find(name)
    if f is None:
        raise Unsupported("function %s is not there" % name)
    return f


class FS:
    """The files of the modelled file system, by the terms of their paths."""

    def __init__(self, root, fmt, map_file=None, map_dir=None, bad=False):
        self.root, self.fmt, self.map_file, self.bad = root, fmt, map_file, bad
        self.map_dir = map_dir if map_dir is not None else sym.p_parent(map_file)
        self.extra = {}

    def __call__(self, ip, st, t):
        if self.map_file is not None and t.eq(self.map_file):
            f = self.fmt
            return FsFile("map", [(True, f, lambda: REND[f]["map"](self.root))], self.root)
        for k, v in self.extra.items():
            if t.eq(k):
                return v
        if not (z3.is_app(t) and t.decl().name() == "p_join"):
            return None
        where, src = t.children()
        for d in list(ip.docs_seen.values()):
            if d.ent not in ("TSRef", "Template") or not d.leaf("source").t.eq(src):
                continue
            if not where.eq(self.dir_of(d)):
                continue
            return self.file_of(d)
        return None

    def dir_of(self, d):
        if d.ent == "TSRef" and d.parent is not None and d.parent.ent == "Template":
            return sym.p_parent(sym.p_join(self.map_dir, d.parent.leaf("source").t))
        return self.map_dir

    def file_of(self, d):
        name = d.path + "".join("[%s]" % i for i in d.idx)
        k = d.kind("fmt")
        if d.ent == "Template":
            alts = [(k.is_(f), f, (lambda f=f: REND[f]["template"](d))) for f in FMTS]
        else:
            alts = [(k.is_(f), f, (lambda f=f: REND[f]["tileset"](d.child("ts")))) for f in FMTS]
        if self.bad and d.ent == "TSRef":
            b = z3.Bool("unreadable:" + name)
            alts = [(And(Not(b), g), f, th) for g, f, th in alts] + [(b, "bad", lambda: None)]
        return FsFile(name, [a for a in alts if a[0] is not False], d)


class Task:
    """A function of the package, run on the rendering of an arbitrary document."""
    whole_map = True      # the document is (part of) a map: counterexamples are replayed as map files

    def __init__(self, name, props, body, fixed=(), extra=(), rename=()):
        self.name, self.props, self.body, self.fixed = name, frozenset(props), body, dict(fixed)
        self.rename = dict(rename)
        # properties every obligation of this task belongs to
        self.extra = frozenset(extra) | (frozenset({"C18"}) & self.props)

    def run(self, timeout=8000, deadline=None):
        overrides.clear()
        contracts._flat.clear()
        overrides.update(self.fixed)
        obs = []
        ip = Interp(contracts.table(), timeout, deadline)
        try:
            self.body(ip, obs, self)
        except Unsupported as e:
            obs.append(Ob(self.name, self.props, UNDECIDED, "%s: %s" % (type(e).__name__, e)))
        except RecursionError:
            obs.append(Ob(self.name, self.props, UNDECIDED, "recursion limit"))
        for o in obs:
            o.task = self.name
            o.tags = frozenset(self.rename.get(t, t) for t in o.tags) | self.extra
        return ip, obs


def root():
    return SymDoc("Map", "map")


def path_const(name):
    return PathV(z3.Const(name, sym.PathS))


def vacuity(ip, out, obs, name, tags):
    """The precondition is satisfiable: otherwise everything would hold trivially."""
    r, m = ip.check(list(out.st.pc) if out.returned else [])
    obs.append(Ob(name + "/precondition-satisfiable", tags, DISCHARGED if r == "sat" else UNDECIDED, "smt: " + r))


def post(ip, obs, task, out, spec, tags, raw=None, pure=None, where=None):
    no_exceptions(ip, out, obs, task.name, task.props)
    effects(ip, obs, task.name)
    if not out.returned:
        obs.append(Ob(task.name, task.props, REFUTED, "never returns a result", None))
        return
    vacuity(ip, out, obs, task.name, task.props)
    c = Comparer(ip, out.st, obs, tags, task.name)
    c.compare(out.st.pc, out.value, spec, [], frozenset(tags))
    Sharing(ip, out.st, obs, task.name).run(out.value)
    if raw is not None:
        frame(ip, out, obs, task.name, raw, pure, task.props)


# ---------------------------------------------------------------------- layers
LAYER_PROPS = {"tile": [], "object": ["C06"], "image": [], "group": []}
IDX = [z3.Int("p%d" % j) for j in range(4)]


def layer_doc(r):
    s = r.seq("layers")
    d = s.at(IDX[0])
    return d


def at(ip, seq, i):
    for f in seq.facts():
        if not isinstance(f, bool):
            ip.add_fact(f)
    ip.add_fact(z3.And(i >= 0, i < seq.n))
    d = seq.at(i)
    ip.see(d)
    return d


def layer_task(fmt, kind, in_tile=False, storage=None):
    def body(ip, obs, task):
        r = root()
        if in_tile:
            ref = at(ip, r.seq("tilesets"), IDX[0])
            d = at(ip, ref.child("ts").seq("tiles"), IDX[1]).child("objectgroup")
            ip.see(d)
            pd = None
        else:
            d = at(ip, r.seq("layers"), IDX[0])
            pd = path_const("map_dir")
            ip.file_system = FS(r, fmt, None, pd.t)
        raw = ip.lift(REND[fmt]["layer"](d))
        outs = []

        def go(raw):
            out = run_function(ip, fn("parsers.%s.layer.parse" % fmt), [raw] + ([pd] if pd is not None else []))
            tags = {"C04", "C05"}
            post(ip, obs, task, out, spec_layer(d, fmt, pd), tags, raw, False)
        go(raw)
    fixed = {} if in_tile else {("map.layers", "kind", "kind"): kind}
    name = "%s.layer.parse[%s]" % (fmt, "collision shapes" if in_tile else kind)
    props = ["C01", "C04", "C05", "C08", "C10", "C18", "C19"] + LAYER_PROPS[kind] + (["C09"] if in_tile else [])
    rename = {}
    if storage is not None:
        fixed[("map.layers", "kind", "storage")] = storage
        name = "%s.layer.parse[tile, %s]" % (fmt, storage)
        if storage == "plain":
            props.append("C02")
        else:
            # the grid of encoded data
            props.append("C03")
            rename = {"C02": "C03"}
    return Task(name, props, body, fixed, (), rename)


# ---------------------------------------------------------------------- objects
def object_task(fmt, template, in_tile=False, legacy=False):
    def body(ip, obs, task):
        r = root()
        if in_tile:
            ref = at(ip, r.seq("tilesets"), IDX[0])
            g = at(ip, ref.child("ts").seq("tiles"), IDX[1]).child("objectgroup")
            d = at(ip, g.seq("objects"), IDX[2])
            pd = None
        else:
            d = at(ip, at(ip, r.seq("layers"), IDX[0]).seq("objects"), IDX[1])
            pd = path_const("map_dir")
            ip.file_system = FS(r, fmt, None, pd.t)
            if template:
                ip.see(d.child("template"))
                ip.see(d.child("template").child("object"))
                ip.see(d.child("template").child("tileset"))
        raw = ip.lift(REND[fmt]["object"](d))
        out = run_function(ip, fn("parsers.%s.tiled_object.parse" % fmt), [raw] + ([pd] if pd is not None else []))
        post(ip, obs, task, out, spec_object(d, fmt, pd), {"C06"}, raw, False)
    fixed = {}
    P = "map.layers.objects"
    if not in_tile:
        fixed[(P, "has", "template")] = bool(template)
        if template:
            fixed[(P + ".template", "kind", "fmt")] = fmt
            for q in (P, P + ".template.object"):
                # an instance and its template are written by the same version of the editor
                fixed[(q, "flag", "legacyprops")] = legacy
                fixed[(q, "flag", "legacy_ok")] = legacy
    name = "%s.tiled_object.parse[%s]" % (fmt, "collision shape" if in_tile else
                                              "template, older form" if legacy else "template" if template else "plain")
    props = ["C01", "C06", "C07", "C08", "C10", "C18", "C19"]
    if template:
        props += ["C14", "C15"]
    return Task(name, props, body, fixed, ["C14"] if template else [])


def template_error_task(fmt, which):
    """No directory: RuntimeError; template of the other format: NotImplementedError."""
    def body(ip, obs, task):
        r = root()
        d = at(ip, at(ip, r.seq("layers"), IDX[0]).seq("objects"), IDX[1])
        pd = path_const("map_dir")
        ip.file_system = FS(r, fmt, None, pd.t)
        ip.see(d.child("template"))
        ip.see(d.child("template").child("object"))
        ip.see(d.child("template").child("tileset"))
        raw = ip.lift(REND[fmt]["object"](d))
        out = run_function(ip, fn("parsers.%s.tiled_object.parse" % fmt), [raw, None if which == "dir" else pd])
        must_raise(ip, obs, task, out, RuntimeError if which == "dir" else NotImplementedError)
    other = "tmx" if fmt == "json" else "json"
    fixed = {("map.layers.objects", "has", "template"): True,
             ("map.layers.objects.template", "kind", "fmt"): other if which == "fmt" else fmt}
    return Task("%s.tiled_object.parse[%s]" % (fmt, "no directory" if which == "dir" else "template of the other format"),
                ["C14"], body, fixed)


def must_raise(ip, obs, task, out, cls):
    tags = task.props
    if out.returned and ip.feasible(out.st.pc):
        r, m = ip.check(list(out.st.pc))
        obs.append(Ob(task.name + "/raises", tags, {"sat": REFUTED, "unsat": DISCHARGED}.get(r, UNDECIDED),
                      "returns instead of raising " + cls.__name__, m, tuple(out.st.pc)))
    for s, e in out.raised:
        if not ip.feasible(s.pc):
            continue
        if issubclass(e.cls, cls):
            obs.append(Ob(task.name + "/raises", tags, DISCHARGED, cls.__name__))
        else:
            r, m = ip.check(list(s.pc))
            obs.append(Ob(task.name + "/raises", tags, {"sat": REFUTED, "unsat": DISCHARGED}.get(r, UNDECIDED),
                          "%s instead of %s" % (e.cls.__name__, cls.__name__), m, tuple(s.pc)))


# ---------------------------------------------------------------------- tilesets, wang sets, properties
def tileset_task(fmt, external):
    def body(ip, obs, task):
        r = root()
        ref = at(ip, r.seq("tilesets"), IDX[0])
        d = ref.child("ts")
        ip.see(d)
        gid = ref.leaf("firstgid")
        if external:
            raw = ip.lift(REND[fmt]["tileset"](d))
        elif fmt == "json":
            raw = ip.lift(docs.json_tileset(d, [("firstgid", True, lambda: gid)]))
        else:
            raw = ip.lift(docs.tmx_tileset(d, [("firstgid", True, lambda: sym.NumT(gid))]))
        ext = path_const("tileset_dir") if external else None
        out = run_function(ip, fn("parsers.%s.tileset.parse" % fmt), [raw, gid] + ([ext] if external else []))
        post(ip, obs, task, out, spec_tileset(d, fmt, gid, ext), {"C09"}, raw, False)
    return Task("%s.tileset.parse[%s]" % (fmt, "external" if external else "embedded"),
                ["C01", "C08", "C09", "C10", "C11", "C13", "C18", "C19"], body)


def wangset_task(fmt):
    def body(ip, obs, task):
        r = root()
        ref = at(ip, r.seq("tilesets"), IDX[0])
        d = at(ip, ref.child("ts").seq("wangsets"), IDX[1])
        raw = ip.lift(REND[fmt]["wangset"](d))
        out = run_function(ip, fn("parsers.%s.wang_set.parse" % fmt), [raw])
        post(ip, obs, task, out, spec_wangset(d, fmt), {"C11"}, raw, True)
    return Task("%s.wang_set.parse" % fmt, ["C01", "C08", "C11", "C18", "C19"], body)


def properties_task(fmt, legacy=None):
    def body(ip, obs, task):
        r = root()
        d = r
        ip.see(d)
        ip.add_fact(zb(d.present("properties")))
        raw = ip.lift(docs.json_properties(d) if fmt == "json" else docs.tmx_properties(d)[1]())
        out = run_function(ip, fn("parsers.%s.properties.parse" % fmt), [raw])
        post(ip, obs, task, out, proplist(d.seq("properties"), fmt), {"C08"}, raw, True)
    fixed = {("map", "has", "properties"): True}
    if legacy is not None:
        fixed[("map", "flag", "legacyprops")] = legacy
        if legacy:
            fixed[("map", "flag", "legacy_ok")] = True
    return Task("%s.properties.parse%s" % (fmt, "" if legacy is None else "[dictionary]" if legacy else "[list]"),
                ["C01", "C08", "C10", "C18", "C19"], body, fixed)


# ---------------------------------------------------------------------- maps
def map_task(fmt):
    def body(ip, obs, task):
        r = root()
        ip.see(r)
        file = path_const("map_file")
        ip.file_system = FS(r, fmt, file.t)
        out = run_function(ip, fn("parsers.%s.tiled_map.parse" % fmt), [file])
        post(ip, obs, task, out, spec_map(r, fmt, file), {"C12"})
    # no object brings a tileset: see the template tasks for the others
    fixed = {("map.layers*.objects.template", "has", "tileset"): False}
    return Task("%s.tiled_map.parse" % fmt, ["C01", "C04", "C08", "C10", "C12", "C13", "C16", "C18", "C19"], body, fixed)


def templates_task(fmt):
    """The tilesets of templates, by the declared invariant of templates.py."""
    def body(ip, obs, task):
        from .templates import TilesetInvariant
        r = root()
        ip.see(r)
        file = path_const("map_file")
        ip.file_system = FS(r, fmt, file.t)
        inv = ip.inv = TilesetInvariant(ip, r, fmt, file, task.name)
        own = []
        out = run_function(ip, fn("parsers.%s.tiled_map.parse" % fmt), [file])
        no_exceptions(ip, out, own, task.name, task.props)
        effects(ip, own, task.name)
        if not out.returned:
            own.append(Ob(task.name, task.props, REFUTED, "never returns a result", None))
        else:
            vacuity(ip, out, own, task.name, task.props)
            inv.finish(out)
            spec = Rec("TiledMap", [(k, inv.tilesets(out.st) if k == "tilesets" else v)
                                    for k, v in spec_map(r, fmt, file).fields])
            Comparer(ip, out.st, own, {"C15"}, task.name).compare(tuple(out.st.pc), out.value, spec, [], frozenset({"C15"}))
        for o in own + inv.obs:
            if o.tags != {"C18"}:
                o.tags = frozenset({"C15"}) | (o.tags & {"C10"} if o.name.endswith("/added/tileset") else frozenset())
            if o.status == REFUTED:
                o.formulas = ()      # a state of the invariant need not be reachable: decided by replay
        obs += own + inv.obs
    return Task("%s.tiled_map.parse[tilesets of templates]" % fmt, ["C15", "C10", "C18"], body)


def tasks():
    out = []
    for fmt in FMTS:
        for k in KIND[("Layer", "kind")]:
            if k == "tile":
                out += [layer_task(fmt, k, False, x) for x in KIND[("Layer", "storage")]]
            else:
                out.append(layer_task(fmt, k))
        out.append(layer_task(fmt, "object", True))
        out += [object_task(fmt, False), object_task(fmt, True), object_task(fmt, False, True)]
        if fmt == "json":
            out.append(object_task(fmt, True, False, True))
        out += [template_error_task(fmt, "dir"), template_error_task(fmt, "fmt")]
        out += [tileset_task(fmt, False), tileset_task(fmt, True), wangset_task(fmt)]
        out += [properties_task("json", False), properties_task("json", True)] if fmt == "json" else \
            [properties_task("tmx")]
        out += [map_task(fmt), templates_task(fmt)]
    from . import tasks_more
    return out + tasks_more.tasks(Task, fn)

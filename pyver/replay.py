"""From the solver's counterexample to real files: a chooser that follows the model."""
import z3

from . import gen, sym
from .conc import CDoc
from .docs import BOOL, COLOR, ENT, GID, INT, KIND, NUM, PATH, POS, SEQ, STR, TEXT

FREE = {("TSRef", "firstgid"), ("TSRef", "source"), ("Template", "source"), ("Map", "version"), ("Tileset", "version"),
        ("Tileset", "tilecount")}
MAXLEN = 4


class ModelChooser(gen.Chooser):
    """Values of the model where it has some; otherwise those of the base chooser."""

    def __init__(self, model, *a, **k):
        super().__init__(*a, **k)
        self.model = model
        self.twins = {}
        self.names_of = {str(dcl.name()) for dcl in model.decls()}
        self.texts = {}
        self.lits = {}
        for s, t in sym.literals().items():
            self.lits.setdefault(str(model.eval(t, model_completion=True)), s)

    def twin_of(self, ent, before):
        return None

    def twin(self, d):
        """The symbolic node of a concrete node."""
        k = id(d)
        if k not in self.twins:
            if d.parent is None:
                t = sym.SymDoc("Map", "map")
            else:
                p = self.twin(d.parent)
                if (d.parent.ent, d.role) in SEQ:
                    t = p.seq(d.role).at(z3.IntVal(d.index))
                else:
                    t = p.child(d.role)
            self.twins[k] = (t, d)
        return self.twins[k][0]

    def ask(self, t):
        if isinstance(t, bool):
            return t
        if not (set(str(x) for x in symbols(t)) & self.names_of):
            return None
        v = self.model.eval(t)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            f = v.as_fraction()
            return int(f) if f.denominator == 1 else float(f)
        if v.sort() == sym.StrS:
            s = str(v)
            return s if s in self.lits or s.startswith("Str!val") else None
        return None

    def leaf(self, d, name, f):
        base = lambda: gen.Chooser.leaf(self, d, name, f)
        if (d.ent, name) in FREE:
            return base()
        tw = self.twin(d).leaf(name)
        if not isinstance(tw, sym.Sc):
            return base()
        v = self.ask(tw.t)
        if v is None:
            return base()
        if f.typ in (INT, POS, GID):
            if not isinstance(v, int) or abs(v) > 2 ** 40 or f.typ == POS and not 1 <= v <= 24 or \
                    f.typ == GID and not 1 <= v < 2 ** 32:
                return base()
            if (d.ent, name) in (("Tile", "id"), ("WangTile", "tileid")):
                used = self.shared.setdefault(("ids", d.parent.path), set())
                if v < 0 or v in used:
                    return base()
                used.add(v)
            return v
        if f.typ == NUM:
            return v if abs(v) < 1e15 else base()
        if f.typ == BOOL:
            return v
        if v in self.lits and f.typ != COLOR:
            return self.lits[v]
        if f.typ == COLOR:
            h = self.ask(sym.hash_first(tw))
            t = self.color(self.rng).lstrip("#")
            return t if h is False else "#" + t
        if f.typ == PATH:
            return self.texts.setdefault(("p", v), "img/m%d.png" % len(self.texts))
        if (d.ent, name) == ("Tileset", "name"):
            return base()
        return self.texts.setdefault(("s", v), "v%d" % len(self.texts))

    def has(self, d, name):
        f = ENT[d.ent].get(name)
        v = self.ask(self.twin(d).present(name))
        if v is None or not isinstance(v, bool):
            if name == "template":
                return False
            return gen.Chooser.has(self, d, name)
        return v

    def flag(self, d, name):
        v = self.ask(self.twin(d).flag(name))
        return v if isinstance(v, bool) else gen.Chooser.flag(self, d, name)

    def kind(self, d, name):
        k = self.twin(d).kind(name)
        if k.fixed is not None:
            return k.fixed
        v = self.ask(k.t)
        alts = KIND[(d.ent, name)]
        if isinstance(v, int) and 0 <= v < len(alts):
            return alts[v]
        if (d.ent, name) == ("Template", "fmt"):
            return self.shared.get("fmt", "json")
        return gen.Chooser.kind(self, d, name)

    def length(self, d, name):
        v = self.ask(self.twin(d).seq(name).n)
        lo = 1 if name in ("points", "properties", "tiles") else 0
        base = gen.Chooser.length(self, d, name)
        if name in ("layers", "tilesets") and d.ent == "Map":
            base = max(base, 1)
        if isinstance(v, int):
            return max(lo, v if v <= gen.LONG_TOP.get(name, 0) else min(v, MAXLEN + 2))
        return base


def symbols(t, out=None):
    out = set() if out is None else out
    if z3.is_app(t):
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(t.decl().name())
        for c in t.children():
            symbols(c, out)
    return out


GLUE = ("lit!", "p_join", "p_parent", "p_resolve", "p_of", "core", "validcolor", "starts_with_hash", "color_", "map_dir",
        "map_file", "tileset_dir", "i@", "p0", "p1", "p2", "p3")


def precise(formulas):
    """Do the formulas talk about the document only (so that a model is a genuine input)?"""
    for f in formulas:
        if isinstance(f, bool):
            continue
        for s in symbols(f):
            n = s.split(":", 1)[1] if s.split(":", 1)[0] in ("has", "flag", "kind", "len", "int") else s
            if not (n == "map" or n.startswith("map.") or n.startswith(GLUE)):
                return False
    return True


def small_model(ip, formulas):
    """A model with small indices, lengths and sizes, as far as possible."""
    apps = {}
    todo = [f for f in formulas if not isinstance(f, bool)]
    todo += [f for f in ip.relevant(todo) if not isinstance(f, bool)]
    seen = set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.sort() == z3.IntSort():
                apps[t.get_id()] = t
            todo += t.children()
    lens = [t for t in apps.values() if t.decl().name().startswith("len:")]
    idx = [t for t in apps.values() if not t.children() and (t.decl().name()[:2] in ("p0", "p1", "p2", "p3", "i@"))]
    vals = [t for t in apps.values() if t.decl().name().startswith("map.")]
    small = [z3.And(t >= -6, t <= 12) for t in vals]
    short = [t <= MAXLEN for t in lens if not t.decl().name().endswith((".data", ".wangid"))]
    low = [t <= 2 for t in idx]
    fs = list(formulas)
    longer = [t <= gen.LONG_TOP.get(t.decl().name().rsplit(".", 1)[-1].split("(")[0], MAXLEN) for t in lens]
    for extra in (short + low + small, short + low, longer + low + small, longer + low, low, []):
        r, m = ip.check(fs + extra)
        if r == "sat":
            return m
    return None


def documents(ip, ob, rng, n):
    """Concrete maps that agree with the counterexample of a refuted obligation."""
    if ob.model is None and not ob.formulas:
        return
    m = small_model(ip, ob.formulas) or ob.model
    if m is None:
        return
    for k in range(n):
        vary = [] if k % 2 == 0 else [("*", "*")]
        ch = ModelChooser(m, rng, vary=vary, fix={}, lengths={("Map", "layers"): (1, 2), ("Map", "tilesets"): (0, 1)},
                          p_has=0.3 if k % 4 < 2 else 0.7, unique_names=True, max_depth=2)
        ch.template_fmt = "same"
        yield CDoc("Map", "m", ch)

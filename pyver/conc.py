"""Concrete mode: sampled documents, real files, expected results.

A document node draws its values lazily from a *chooser* (random sampling with a focus, or
the counterexample model of the solver), remembers them, and the shared renderers and
specification functions of docs.py turn the same node into files and expected results.
"""
import base64
import gzip
import json
import math
import os
import random
import struct
import xml.etree.ElementTree as ET
import zlib
from pathlib import PurePosixPath

from . import docs
from .docs import (BOOL, CHILD, COLOR, ENT, GID, INT, KIND, NUM, PATH, POS, SEQ, STR, TEXT,
                   JDict, JList, JObj, MapOf, Rec, Rows, SeqOf, XElem, XSeq)

ROOT = "/v1/v2/v3/v4/v5/ROOT"   # where the worker puts the files, seen from its scratch directory


class P:
    """A file system path value of the specification."""

    def __init__(self, s):
        self.s = str(PurePosixPath(s))

    def __eq__(self, o):
        return isinstance(o, P) and self.s == o.s

    def __hash__(self):
        return hash(self.s)

    def __repr__(self):
        return "P(%r)" % self.s


class RawTS:
    def __init__(self, ref):
        self.ref = ref


HEX = "0123456789abcdefABCDEF"


def color_spec(text):
    """The reading of a color string, or None if it is malformed."""
    t = text[1:] if text[:1] == "#" else text
    if len(t) not in (6, 8) or any(c not in HEX for c in t):
        return None
    v = [int(c, 16) for c in t]
    b = [16 * v[i] + v[i + 1] for i in range(0, len(v), 2)]
    r, g, bl, a = (b[0], b[1], b[2], 255) if len(b) == 3 else (b[1], b[2], b[3], b[0])
    return Rec("Color", [("red", r), ("green", g), ("blue", bl), ("alpha", a)])


class ConcMode:
    def ite(self, c, a, b):
        return a() if c else b()

    gite = ite

    def case(self, k, alts):
        return alts[k]()

    def is_kind(self, k, name):
        return k == name

    def kind_text(self, k):
        return k

    def and_(self, *a):
        return all(a)

    def or_(self, *a):
        return any(a)

    def not_(self, a):
        return not a

    def ne(self, a, b):
        return a != b

    def on(self, x, fn):
        return fn(x)

    def concat(self, a, b):
        return list(a) + list(b)

    def whole(self, spec, d, field, *args):
        return spec(d.seq(field) if field else d, *args)

    def color(self, text):
        r = color_spec(text)
        assert r is not None, text
        return r

    def path(self, s):
        return P(s)

    def join(self, a, b):
        return P(os.path.join(a.s, b))

    def parent(self, p):
        return P(str(PurePosixPath(p.s).parent))

    cwd = ROOT            # directory that relative paths of the call are relative to

    def resolve(self, p):
        return P(os.path.normpath(os.path.join(self.cwd, p.s)))

    def raw_tileset(self, ref):
        return RawTS(ref)

    # text encodings
    def text_of(self, typ, v):
        if typ in (INT, POS, GID):
            return str(v)
        if typ == NUM:
            return str(int(v)) if float(v).is_integer() and abs(v) < 1e15 else repr(float(v))
        if typ == BOOL:
            return "1" if v else "0"
        return v

    def text_or_none(self, t):
        return t if t != "" else None

    def blank(self):
        return "\n   "

    def points_text(self, pts):
        return " ".join(self.text_of(NUM, p.leaf("x")) + "," + self.text_of(NUM, p.leaf("y")) for p in pts)

    def ints_text(self, ints):
        return ",".join(str(i) for i in ints)

    def csv_text(self, ints, w):
        style = ints.style
        rows = [list(ints[i:i + w]) for i in range(0, len(ints), w)]
        if style == 0:
            return "\n" + ",\n".join(",".join(map(str, r)) for r in rows) + "\n"
        if style == 1:
            return ",".join(map(str, ints))
        if style == 2:
            return "\n  " + " ,\n\t ".join(", ".join(map(str, r)) for r in rows) + "  \n  "
        return " " + " , ".join(map(str, ints)) + "\n\n"

    def b64(self, ints, comp, xml=False):
        raw = struct.pack("<%dI" % len(ints), *ints)
        if comp == "zlib":
            raw = zlib.compress(raw, ints.style * 3)
        elif comp == "gzip":
            raw = gzip.compress(raw, ints.style * 3, mtime=0)
        t = base64.b64encode(raw).decode()
        return "\n   " + t + "\n  " if xml and ints.style % 2 == 0 else t

    def number_with_text(self, d):
        v = d.leaf("version")
        for f in (int, float):
            try:
                if str(f(v)) == v:
                    return f(v)
            except ValueError:
                pass
        return v

    def legacy_ok(self, d):
        ps = d.seq("properties")
        names = [p.leaf("name") for p in ps]
        return len(set(names)) == len(names) and all(
            p.kind("ptype") in ("string", "int", "float", "bool") for p in ps)

    def legacy_value(self, p):
        return p.leaf("v_" + p.kind("ptype"))


CM = ConcMode()


class Ints(list):
    style = 0


# what siblings never have in common
OWN = {("Tile", "id"), ("WangTile", "tileid"), ("Property", "name"), ("Layer", "id"), ("Object", "id")}


class CDoc:
    """A concrete document node."""
    M = CM

    def __init__(self, ent, path, ch, parent=None, role=None, index=0, twin=None):
        self.ent, self.path, self.ch = ent, path, ch
        self.parent, self.role, self.index = parent, role, index
        self.memo = {}
        self.twin = twin      # an earlier sibling that has the same values (names and ids aside)
        self.own = ch.near(ent) if twin is not None else None      # ... and, sometimes, one value of its own

    def _m(self, key, fn):
        if key not in self.memo:
            self.memo[key] = fn()
        return self.memo[key]

    def leaf(self, name):
        if self.twin is not None and (self.ent, name) not in OWN and name != self.own:
            if self.own == "turned" and name in ("width", "height"):
                return self.twin.leaf("height" if name == "width" else "width")
            return self.twin.leaf(name)
        return self._m(("leaf", name), lambda: self.number(self.ch.leaf(self, name, ENT[self.ent][name]), name))

    def number(self, v, name):
        return Whole_(v) if ENT[self.ent][name].typ == NUM and type(v) is int else v

    def has(self, name, fmt=None):
        f = ENT[self.ent].get(name)
        if f is not None and f.tmx_always and (fmt == "tmx" or self.ch.parity):
            return True
        if f is not None and f.json_only and (fmt == "tmx" or self.ch.parity):
            return False
        if self.twin is not None:
            return self.twin.has(name, fmt)
        return self._m(("has", name), lambda: bool(self.ch.has(self, name)))

    def flag(self, name):
        if self.twin is not None:
            return self.twin.flag(name)
        return self._m(("flag", name), lambda: bool(self.ch.flag(self, name)))

    def kind(self, name):
        if self.twin is not None:
            return self.twin.kind(name)
        return self._m(("kind", name), lambda: self.ch.kind(self, name))

    def seq(self, name):
        ce = SEQ[(self.ent, name)]
        return self._m(("seq", name), lambda: self.elements(ce, name))

    def elements(self, ce, name):
        out = []
        like = self.twin.seq(name) if self.twin is not None else None
        for i in range(self.ch.length(self, name) if like is None else len(like)):
            t = self.ch.twin_of(ce, out) if like is None else like[i]
            out.append(CDoc(ce, "%s.%s%d" % (self.path, name, i), self.ch, self, name, i, t))
        return out

    def ints(self, name):
        if self.twin is not None:
            return self._m(("seq", name), lambda: self.ch.near_ints(self.twin.ints(name)) if self.own == name else self.twin.ints(name))
        return self._m(("seq", name), lambda: self.ch.ints(self, name))

    def child(self, name):
        return self._m(("child", name), lambda: self.ch.child(self, name) or CDoc(
            CHILD[(self.ent, name)], "%s.%s" % (self.path, name), self.ch, self, name, 0,
            self.twin and self.twin.child(name)))


# ------------------------------------------------------------------ materialisation
def to_json(v):
    if isinstance(v, JObj):
        return {k: to_json(t()) for k, g, t in v.items if g}
    if isinstance(v, JList):
        return [to_json(v.fn(x)) for x in v.seq]
    if isinstance(v, JDict):
        return {v.key(x): to_json(v.fn(x)) for x in v.seq}
    return v


def to_xml(x):
    e = ET.Element(x.tag)
    for k, g, t in x.attrs:
        if g:
            e.set(k, t())
    if x.text is not None:
        e.text = x.text()
    for g, t in x.children:
        if g:
            c = t()
            if isinstance(c, XSeq):
                for y in c.seq:
                    e.append(to_xml(c.fn(y)))
            else:
                e.append(to_xml(c))
    return e


def xml_text(x, decl=True):
    s = ET.tostring(to_xml(x), encoding="unicode").replace("\r", "&#13;")
    return ('<?xml version="1.0" encoding="UTF-8"?>\n' if decl else "") + s + "\n"


def json_text(v, style=0):
    return json.dumps(to_json(v), indent=[None, 1][style % 2], ensure_ascii=style % 3 == 0)


def render(d, fmt):
    fn = {"Map": (docs.json_map, docs.tmx_map), "Tileset": (docs.json_tileset, docs.tmx_tileset),
          "Template": (docs.json_template, docs.tmx_template)}[d.ent][fmt == "tmx"]
    return xml_text(fn(d)) if fmt == "tmx" else json_text(fn(d), len(d.path))


def canon(v):
    """Expected values as plain data (the form the worker reports real results in)."""
    if isinstance(v, Rec):
        return {"$": v.cls, "f": {k: canon(x) for k, x in v.fields}}
    if isinstance(v, SeqOf):
        return [canon(v.fn(x)) for x in v.seq]
    if isinstance(v, MapOf):
        return {"$dict": [[canon(k), canon(x)] for k, x in {v.key(x): v.val(x) for x in v.seq}.items()]}
    if isinstance(v, Rows):
        return [list(v.seq[r * v.w:(r + 1) * v.w]) for r in range(v.h)]
    if isinstance(v, P):
        return {"$path": v.s}
    if isinstance(v, RawTS):
        return {"$rawts": id(v.ref), "ref": v.ref}
    return v


# ---------------------------------------------------------------- files of a document
class Bundle:
    """The files of a map document in one format, below a root directory (relative paths)."""

    def __init__(self):
        self.files = {}

    def add(self, rel, text):
        rel = os.path.normpath(rel)
        old = self.files.get(rel)
        assert old is None or old == text, "conflicting files " + rel
        self.files[rel] = text


def add_tileset_file(b, rel, ts, fmt):
    b.add(rel, render(ts, fmt))


def walk_layers(layers):
    for layer in layers:
        if layer.kind("kind") == "group":
            yield from walk_layers(layer.seq("layers"))
        else:
            yield layer


def map_objects(d):
    for layer in walk_layers(d.seq("layers")):
        if layer.kind("kind") == "object":
            yield from layer.seq("objects")


def bundle_map(d, fmt, rel):
    b = Bundle()
    here = os.path.dirname(rel)
    for r in d.seq("tilesets"):
        if r.has("source", fmt):
            add_tileset_file(b, os.path.join(here, r.leaf("source")), r.child("ts"), r.kind("fmt"))
    for o in map_objects(d):
        if o.has("template", fmt):
            t = o.child("template")
            tf = t.kind("fmt") if t.ch.template_fmt is None else fmt
            trel = os.path.join(here, t.leaf("source"))
            b.add(trel, render(t, tf))
            if t.has("tileset", fmt):
                r = t.child("tileset")
                add_tileset_file(b, os.path.join(os.path.dirname(trel), r.leaf("source")), r.child("ts"),
                                 ts_fmt(r, fmt))
    b.add(rel, render(d, fmt))
    return b


def ts_fmt(r, fmt):
    """Format of a template's tileset file (the map's format unless the formats are mixed)."""
    return r.kind("fmt") if r.ch.mix_fmt else fmt


# ------------------------------------------------------- expected result of a whole map
def expect_map(d, fmt, file, alloc):
    """Expected canonical map; `alloc(name)` gives the firstgid under which the tileset
    `name` of a template was added (the specification only says it must not overlap)."""
    m = canon(docs.spec_map(d, fmt, P(file)))
    tilesets = m["f"]["tilesets"]["$dict"]
    own = len(tilesets)

    def objects(layers):
        for layer in layers:
            if layer["$"] == "ObjectLayer":
                yield from layer["f"]["tiled_objects"]
            elif layer["$"] == "LayerGroup":
                yield from objects(layer["f"]["layers"])
    for o in objects(m["f"]["layers"]):
        raw = o["f"].get("new_tileset")
        if raw is None:
            continue
        ref = raw["ref"]
        ts, tfmt = ref.child("ts"), ts_fmt(ref, fmt)
        found = [g for g, t in tilesets if t["f"]["name"] == ts.leaf("name")]
        if found:
            gid = found[0]
        else:
            gid = alloc(ts.leaf("name"), tilesets)
            extdir = P(o["f"]["new_tileset_path"]["$path"])
            tilesets.append([gid, canon(docs.spec_tileset(ts, tfmt, gid, extdir))])
        o["f"]["gid"] = o["f"]["gid"] - 1 + gid
        o["f"]["new_tileset"] = o["f"]["new_tileset_path"] = None
    return m, own


def span(ts):
    """Number of local ids of a canonical tileset."""
    tiles = ts["f"]["tiles"]
    ids = [k for k, _ in tiles["$dict"]] if tiles else []
    return max([ts["f"]["tile_count"]] + [i + 1 for i in ids])


def overlaps(tilesets):
    """Pairs of canonical [firstgid, tileset] entries whose gid ranges overlap (gid 0 stands for no tile)."""
    rs = [(0, 1, "no tile")] + sorted((g, g + span(t), t["f"]["name"]) for g, t in tilesets)
    return [(a, b) for a, b in zip(rs, rs[1:]) if a[1] > b[0]]


# ------------------------------------------------------------------------------- diff
OWNER = {c: "C05" for c in ("TileLayer", "ObjectLayer", "ImageLayer", "LayerGroup")}
OWNER.update({c: "C06" for c in ("Rectangle", "Ellipse", "Point", "Polygon", "Polyline", "Text")})
OWNER.update({"TiledMap": "C12", "Tileset": "C09", "WangSet": "C11", "WangColor": "C11", "WangTile": "C11",
              "Chunk": "C02", "WorldMap": "C17", "World": "C17", "Transformations": "C09"})
SPECIAL = {
    ("TiledMap", "layers"): "C04", ("LayerGroup", "layers"): "C04",
    ("TiledMap", "tilesets"): "C13", ("Tileset", "firstgid"): "C13",
    ("TileLayer", "data"): "C02", ("TileLayer", "chunks"): "C02",
    ("ObjectLayer", "tiled_objects"): "C06",
    ("Polygon", "points"): "C07", ("Polyline", "points"): "C07",
    ("Tile", "gid"): "C07", ("Tile", "new_tileset"): "C15", ("Tile", "new_tileset_path"): "C15",
    ("Tileset", "image"): "C10", ("Tile", "image"): "C10", ("ImageLayer", "image"): "C05",
    ("Tileset", "wang_sets"): "C11", ("Tile", "objects"): "C09",
}
TEXT_FIELDS = {"text", "color", "font_family", "font_size", "bold", "italic", "kerning", "strike_out",
               "underline", "horizontal_align", "vertical_align", "wrap"}


def tags_of(cls, field, rec):
    if (cls, field) in SPECIAL:
        return {SPECIAL[(cls, field)]}
    if cls == "Text" and field in TEXT_FIELDS:
        return {"C07"}
    own = OWNER.get(cls)
    if cls == "Tile":  # a tile of a tileset or a tile object
        own = "C06" if "gid" in rec["f"] else "C09"
    if own is None:
        return None
    return {own, "C08"} if field == "properties" else {own}


def numlike(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


PAIR = ("x", "y", "width", "height")


class Whole_(int):
    """A number without a fraction of an attribute that may have one."""


def strict(exp, path):
    """Is an integer expected to be one (and not an equal float)? Members of sizes and positions and numbers
    among custom properties are declared as float."""
    return not isinstance(exp, Whole_) and not (path and path[-1] in PAIR) and \
        not (len(path) > 1 and path[-2] == "properties")


def diff(exp, act, path=(), tags=frozenset(), out=None):
    """All differences: (path text, tags, expected, actual)."""
    out = [] if out is None else out

    def note(e, a, extra=()):
        out.append(("/".join(map(str, path)) or ".", set(tags) | set(extra), e, a))
    if isinstance(exp, dict) and "$" in exp:
        if not (isinstance(act, dict) and act.get("$") == exp["$"]):
            note(exp, act, {"C01"} if exp["$"] == "Color" else ())
            return out
        for k, e in exp["f"].items():
            t = tags_of(exp["$"], k, exp) or tags
            if exp["$"] == "Color":
                t = set(t) | {"C01"}
            if k not in act["f"]:
                out.append(("/".join(map(str, path + (k,))), set(t), e, "<missing>"))
                continue
            diff(e, act["f"][k], path + (k,), t, out)
        extra = set(act["f"]) - set(exp["f"])
        if extra and exp["$"] not in ("TiledMap",):
            pass  # additional attributes are not specified
    elif isinstance(exp, dict) and "$dict" in exp:
        if not (isinstance(act, dict) and "$dict" in act):
            note(exp, act)
            return out
        ae = [(k, v) for k, v in act["$dict"]]
        for k, v in exp["$dict"]:
            m = [x for q, x in ae if same_key(k, q)]
            if not m:
                out.append(("/".join(map(str, path + ("[%r]" % (k,),))), set(tags), v, "<missing>"))
            else:
                diff(v, m[0], path + ("[%r]" % (k,),), tags, out)
        for k, v in ae:
            if not any(same_key(q, k) for q, _ in exp["$dict"]):
                out.append(("/".join(map(str, path + ("[%r]" % (k,),))), set(tags), "<nothing>", v))
    elif isinstance(exp, dict) and "$path" in exp:
        if act != exp:
            note(exp, act, {"C10"})
    elif isinstance(exp, list):
        if not isinstance(act, list) or len(exp) != len(act):
            note(exp, act)
            if not isinstance(act, list):
                return out
        for i, (e, a) in enumerate(zip(exp, act)):
            diff(e, a, path + (i,), tags, out)
    elif isinstance(exp, bool) or isinstance(exp, str) or exp is None:
        if type(exp) is not type(act) or exp != act:
            note(exp, act)
    elif isinstance(exp, int):
        if not numlike(act) or exp != act or isinstance(act, float) and strict(exp, path):
            note(exp, act)
    elif isinstance(exp, float):
        if not numlike(act) or not (exp == act or math.isclose(exp, act, rel_tol=1e-12)):
            note(exp, act)
    else:
        raise TypeError("unexpected expectation %r" % (exp,))
    return out


def same_key(a, b):
    return type(a) is type(b) and a == b

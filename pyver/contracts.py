"""Contracts of the functions of the package.

A contract says: called with the (unmodified) rendering of a document node, the function
returns the specified result of that node, raises nothing, and changes at most what its
frame allows.  Every contract is established by a task of tasks.py for the same function,
and used (instead of the body) at every call.
"""
import importlib
import inspect

import z3

from . import docs, sym
from .interp import (CACHED, Comp, DictRec, GenV, HavocRec, Lazy, ListRec, One, ObjRec, Ref, XRec, force)
from .docs import (Whole, proplist, spec_layer, spec_map, spec_object, spec_tileset, spec_wangset)
from .sym import And, Eq, Not, PathV, Sc, SeqV, SymDoc, U, Unsupported, alts_of, overrides, sort_of


def find(name):
    """A function by its module and name; without a module: what the package exports."""
    mod, _, fn = name.rpartition(".")
    try:
        f = getattr(importlib.import_module("pytiled_parser" + ("." + mod if mod else "")), fn)
    except (ImportError, AttributeError):
        return None
    return f.__wrapped__ if isinstance(f, CACHED) else f


class FlatSeq(SeqV):
    """All object layers below a sequence of layers, in document order, at any depth.

    flat(L) = concatenation over i of: [L_i] if L_i is an object layer, flat(L_i.layers) if it
    is a group, nothing otherwise.
    """

    def __init__(self, seq):
        self.of, self.d, self.name = seq, seq.d, seq.name + "*"
        self.elem = "Layer"
        self.path = seq.path + "*"
        self.idx = seq.idx
        self.key = ("flat",) + seq.key
        self.n = sym.app("len:" + self.path, self.idx, z3.IntSort())
        self.memo = {}
        overrides[(self.path, "kind", "kind")] = "object"

    def at(self, i):
        k = i.sexpr()
        if k not in self.memo:
            self.memo[k] = SymDoc("Layer", self.path, self.idx + (i,), self.d, "layers")
        return self.memo[k]

    def facts(self):
        return [self.n >= 0, z3.Implies(self.of.n == 0, self.n == 0)]


_flat = {}


def flat(seq):
    if seq.key not in _flat:
        _flat[seq.key] = FlatSeq(seq)
    return _flat[seq.key]


def bound(fn, args, kwargs):
    try:
        b = inspect.signature(fn).bind(*args, **kwargs)
    except TypeError:
        return None
    b.apply_defaults()
    return list(b.arguments.values())


class DocContract:
    """parse(raw, *rest) == spec(doc, fmt, *rest)."""

    def __init__(self, name, fn, what, spec, fmt, nargs, pure):
        self.name, self.fn, self.what, self.spec, self.fmt, self.nargs, self.pure = \
            name, fn, what, spec, fmt, nargs, pure

    def apply(self, ip, st, args, kwargs):
        vals = bound(self.fn, args, kwargs)
        if vals is None or len(vals) < 1 + self.nargs[0] or len(vals) > 1 + self.nargs[1]:
            return NotImplemented
        vals = [force(v) for v in vals]
        for j, v in enumerate(vals):
            if isinstance(v, U):
                def go(s, x, j=j):
                    return ip.call(s, self.fn, vals[:j] + [x] + vals[j + 1:], {})
                return ip.split(st, v, go)
        raw, rest = vals[0], vals[1:]
        d = self.doc_of(ip, st, raw)
        if d is None:
            return NotImplemented
        rest = rest + [None] * (self.nargs[1] - len(rest))
        if not self.rest_ok(ip, st, d, rest):
            return NotImplemented
        if ip.top == (self.fn, d.key):
            return NotImplemented      # recursion has to be on a smaller part of the document
        if not self.pure:
            ip.havoc(st, raw)
        ip.see(d if isinstance(d, SymDoc) else d.d)
        return Whole(self.spec, d, (self.fmt,) + tuple(rest))

    def doc_of(self, ip, st, raw):
        if not isinstance(raw, Ref):
            return None
        r = ip.rec(st, raw)
        d, what = getattr(r, "doc", None), getattr(r, "what", None)
        if d is None or what not in self.what or not ip.deep_pristine(st, raw, d):
            return None
        if isinstance(d, SymDoc) and self.spec is proplist:
            return d.seq("properties")
        return d

    def rest_ok(self, ip, st, d, rest):
        if self.spec in (spec_layer, spec_object):
            pd = rest[0]
            if pd is None:
                # templates cannot be resolved without a directory
                return d.in_tile()
            return isinstance(pd, PathV)
        if self.spec is spec_tileset:
            return sort_of(rest[0]) == sym.I and (rest[1] is None or isinstance(rest[1], PathV))
        return True


class MapContract:
    """parse(file) of a tiled_map module for the file of the map."""
    pure = True

    def __init__(self, name, fn, fmt):
        self.name, self.fn, self.fmt = name, fn, fmt

    def apply(self, ip, st, args, kwargs):
        vals = bound(self.fn, args, kwargs)
        if vals is None or len(vals) != 1:
            return NotImplemented
        p = force(vals[0])
        if isinstance(p, U):
            return ip.split(st, p, lambda s, x: ip.call(s, self.fn, [x], {}))
        if not isinstance(p, PathV) or ip.file_system is None or getattr(ip.file_system, "bad", False):
            return NotImplemented
        f = ip.file_system(ip, st, p.t)
        if f is None or f.doc is None or f.doc.ent != "Map":
            return NotImplemented
        g = sym.Or(*[g for g, k, _ in f.alts if k == self.fmt])
        if not ip.valid(st.pc, g) or ip.top == (self.fn, f.doc.key):
            return NotImplemented
        return Whole(spec_map, f.doc, (self.fmt, p))


class ColorContract:
    name = "util.parse_color"
    pure = True
    immutable = True        # a function of its text alone, with an immutable result

    def __init__(self, fn):
        self.fn = fn

    def apply(self, ip, st, args, kwargs):
        vals = bound(self.fn, args, kwargs)
        if vals is None or len(vals) != 1:
            return NotImplemented
        v = force(vals[0])
        if isinstance(v, U):
            return ip.split(st, v, lambda s, x: ip.call(s, self.fn, [x], {}))
        if isinstance(v, sym.CatT) and len(v.parts) == 2 and v.parts[0] == "#":
            w = force(v.parts[1])
            if isinstance(w, Sc) and w.s == sym.S:
                ip.throw_if(st, sym.hash_first(w), ValueError, "color")
                v = w
        if not isinstance(v, Sc) or v.s != sym.S:
            return NotImplemented
        ip.throw_if(st, Not(sym.color_ok(v)), ValueError, "color")
        return ip.materialise(sym.color_of_core(sym.color_core(v)))


class FlatContract:
    """iter_object_layers(layers of a document) yields flat(layers)."""
    name = "util.iter_object_layers"
    pure = True

    def __init__(self, fn):
        self.fn = fn

    def apply(self, ip, st, args, kwargs):
        vals = bound(self.fn, args, kwargs)
        if vals is None or len(vals) != 1:
            return NotImplemented
        v = force(vals[0])
        if isinstance(v, U):
            return ip.split(st, v, lambda s, x: ip.call(s, self.fn, [x], {}))
        if not isinstance(v, Ref) or not isinstance(ip.rec(st, v), ListRec):
            return NotImplemented
        segs = ip.rec(st, v).segs
        if len(segs) != 1 or not isinstance(segs[0], Comp) or len(segs[0].binders) != 1 or segs[0].cond is not True:
            return NotImplemented
        seq, i = segs[0].binders[0]
        w = force(segs[0].value)
        if getattr(seq, "elem", None) != "Layer" or not isinstance(w, Whole) or w.spec is not spec_layer \
                or w.d.key != seq.at(i).key:
            return NotImplemented
        fs = flat(seq)
        j = ip.index(fs)
        x = fs.at(j)
        ip.see(x)
        for f in fs.facts():
            ip.add_fact(f)
        return GenV(ip.alloc(st, ListRec([Comp([(fs, j)], True, Whole(spec_layer, x, w.args))])))


def table(skip=()):
    """Contracts by function object; `skip`: names of functions that are being verified top level."""
    out = {}

    def add(c):
        if c.fn is not None and c.name not in skip:
            out[c.fn] = c
    for fmt in ("json", "tmx"):
        p = "parsers.%s." % fmt
        # frame: the JSON object of an instance may be completed from its template, the XML
        # attributes of a layer or object may be completed; everything else is left as it is
        add(DocContract(p + "properties.parse", find(p + "properties.parse"),
                        [("list", "properties"), ("dict", "properties")] if fmt == "json" else ["properties"],
                        proplist, fmt, (0, 0), True))
        add(DocContract(p + "layer.parse", find(p + "layer.parse"), ["layer"], spec_layer, fmt, (0, 1), False))
        add(DocContract(p + "tiled_object.parse", find(p + "tiled_object.parse"), ["object"], spec_object, fmt,
                        (0, 1), False))
        add(DocContract(p + "tileset.parse", find(p + "tileset.parse"), ["tileset"], spec_tileset, fmt, (1, 2), False))
        add(DocContract(p + "wang_set.parse", find(p + "wang_set.parse"), ["wangset"], spec_wangset, fmt, (0, 0), True))
        add(MapContract(p + "tiled_map.parse", find(p + "tiled_map.parse"), fmt))
    add(ColorContract(find("util.parse_color")))
    add(FlatContract(find("util.iter_object_layers")))
    return out

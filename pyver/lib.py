"""Models of the Python built-ins and library calls that the verified functions use.

Each model is a trusted contract on a dependency (builtins, pathlib, json, ElementTree,
base64, zlib, gzip, re, os, attrs).  Anything not modelled raises Unsupported, which makes
the obligation undecided - it is never guessed.
"""
import ast
import base64
import builtins
import collections
import copy
import dataclasses
import functools
import gzip
import io
import itertools
import json
import operator
import os
import pathlib
import re
import struct
import types
import typing
import xml.etree.ElementTree as etree
import zlib

import attr
import z3

from . import docs, quant, sym
from .docs import Whole
from .interp import (apart, AccRec, BoundM, Comp, DComp, Dead, DictRec, DictView, ExcV, FileV, GenV, InterpFn, Lazy, ListRec, LazyX,
                     NeedInv, ObjRec, One, RangeSeq, RowsSeg, SliceSeg, TreeV, XRec, force)
from .sym import (B, I, R, S, And, B64T, BlankT, BytesV, CatT, CharStr, CharV, ContentT, Eq, JoinT, Not, NumLike, NumT,
                  OpaqueT, Or, PathS, PathV, Ref, Sc, SeqV, StrS, Text, Tup, TupT, U, Unsupported, lit, sort_of, term,
                  same, union, zb)


# // and % by a symbolic number (the loop rules supply the instances of their definition)
DIV = z3.Function("div!", z3.IntSort(), z3.IntSort(), z3.IntSort())
MOD = z3.Function("mod!", z3.IntSort(), z3.IntSort(), z3.IntSort())


class PathText(Text):
    """str(path)"""

    def __init__(self, p):
        self.p = p


class FirstChar(Text):
    """The first character of a (non-empty) text leaf or of a file's content."""

    def __init__(self, of):
        self.of = of


class CharTail:
    """The unknown rest of a CharStr as a sequence of characters."""
    elem = "CHAR"

    def __init__(self, n):
        self.n = n
        self.key = ("chartail", n.sexpr())

    def at(self, i):
        return CharV(z3.Function("tailchar", z3.IntSort(), z3.IntSort())(i))

    def facts(self):
        return []


class FsFile:
    """A file of the modelled file system: [(guard, 'json'|'tmx'|'bad', thunk of the rendered document)]."""

    def __init__(self, name, alts, doc=None):
        self.name, self.alts, self.doc = name, alts, doc


class DirSeq:
    """The entries of a directory, in any order."""
    elem = "NAME"

    def __init__(self, path):
        self.path = path
        self.key = ("dir", path.sexpr())
        self.n = z3.Function("dir_n", PathS, z3.IntSort())(path)

    def at(self, i):
        return Sc(S, z3.Function("dir_entry", PathS, z3.IntSort(), StrS)(self.path, i))

    def facts(self):
        return [self.n >= 0]


class RegexV:
    def __init__(self, pat):
        self.pat = pat


class MatchV:
    """A match object; `how` is 'match' or 'search'."""

    def __init__(self, pat, text, how):
        self.pat, self.text, self.how = pat, text, how


def re_fn(name, *sorts):
    return z3.Function(name, *sorts)


def re_match(pat, text):
    return re_fn("re_match", StrS, StrS, z3.BoolSort())(pat, text)


def re_search(pat, text):
    return re_fn("re_search", StrS, StrS, z3.BoolSort())(pat, text)


def re_group(how, pat, text, n):
    return re_fn("re_group_" + how, StrS, StrS, z3.IntSort(), StrS)(pat, text, z3.IntVal(n))


FILTER = ast.parse("(filter_item for filter_item in filter_items if filter_function(filter_item))", mode="eval").body
FILTER_ALL = ast.parse("(filter_item for filter_item in filter_items if filter_item)", mode="eval").body
ROUNDED = z3.Function("rounded", z3.IntSort(), z3.RealSort())


def float_of(t):
    return re_fn("float_of", StrS, z3.RealSort())(t)


STR_METHODS_PURE = {m for m in dir(str) if not m.startswith("_")}
BOOL_STR_METHODS = {"startswith", "endswith", "isdigit", "isalpha", "isspace", "isnumeric", "isdecimal", "isalnum",
                    "islower", "isupper"}


def native_immutable(v):
    return v is None or isinstance(v, (bool, int, float, str, bytes, type)) or (
        isinstance(v, tuple) and all(native_immutable(x) for x in v))


def is_hex(c):
    return z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 70), z3.And(c >= 97, c <= 102))


def hexval(c):
    return z3.If(c <= 57, c - 48, z3.If(c <= 70, c - 55, c - 87))


class Lib:
    def __init__(self, interp):
        self.ip = interp
        self.natives = {}
        for f, m in (
                (len, "len"), (print, "print"), (isinstance, "isinstance"), (issubclass, "issubclass"),
                (hasattr, "hasattr"), (getattr, "getattr"), (setattr, "setattr"), (any, "any"), (all, "all"),
                (max, "max"), (min, "min"), (sum, "sum"), (sorted, "sorted"), (iter, "iter"), (next, "next"),
                (open, "open"), (io.open, "open"), (abs, "abs"), (divmod, "divmod"), (callable, "callable"), (vars, "vars"),
                (json.load, "json_load"), (json.loads, "json_loads"),
                (etree.parse, "et_parse"), (etree.fromstring, "et_fromstring"), (etree.XML, "et_fromstring"),
                (base64.b64decode, "b64decode"), (base64.standard_b64decode, "b64decode"),
                (zlib.decompress, "zlib_decompress"), (gzip.decompress, "gzip_decompress"),
                (re.compile, "re_compile"), (re.match, "re_match"), (re.search, "re_search"), (re.fullmatch, "re_fullmatch"),
                (os.listdir, "listdir"), (os.path.isfile, "isfile"), (os.path.join, "path_join"),
                (typing.cast, "cast"), (attr.asdict, "attr_asdict"), (builtins.ord, "ord"), (builtins.chr, "chr"),
                (round, "round"), (id, "id"), (repr, "repr"), (attr.evolve, "attr_evolve"),
                     (dataclasses.replace, "dataclass_replace"), (copy.copy, "copy"), (os.path.dirname, "dirname"),
                (os.path.abspath, "abspath"), (os.fspath, "fspath"), (struct.unpack, "struct_unpack"),
                (struct.iter_unpack, "iter_unpack"), (struct.unpack_from, "struct_unpack")):
            self.natives[f] = getattr(self, "n_" + m, None)

    # ------------------------------------------------------------------ types
    def type_of(self, st, v):
        v = force(v)
        if v is None:
            return type(None)
        s = sort_of(v)
        if s == I:
            return int
        if s == B:
            return bool
        if s == R:
            if isinstance(v, Sc) and v.src is not None:
                raise Unsupported("int or float")
            return float
        if s == S or isinstance(v, Text):
            return str
        if isinstance(v, PathV):
            return pathlib.PosixPath
        if isinstance(v, Tup):
            return v.cls
        if isinstance(v, Ref):
            r = self.ip.rec(st, v)
            if isinstance(r, AccRec):
                r = r.base
            if isinstance(r, DictRec):
                return dict
            if isinstance(r, ListRec):
                return list
            if isinstance(r, ObjRec):
                return r.cls
            if isinstance(r, XRec):
                return etree.Element
        if isinstance(v, ExcV):
            return v.cls
        if isinstance(v, (BytesV, SliceSegBytes)):
            return bytes
        if isinstance(v, GenV):
            return types.GeneratorType
        if isinstance(v, TreeV):
            return etree.ElementTree
        if isinstance(v, InterpFn):
            return types.FunctionType
        if isinstance(v, (FileV, RegexV, MatchV, DictView, BoundM, NumLike)):
            raise Unsupported("type of %r" % (v,))
        return type(v)

    def has_type(self, st, v, classes):
        """Guard of isinstance(v, classes)."""
        v = force(v)
        if isinstance(v, U):
            return Or(*[And(g, self.has_type(st, x, classes)) for g, x in v.alts])
        if isinstance(v, Whole):
            return self.has_type(st, self.ip.expand(st, v), classes)
        if isinstance(v, NumLike):
            out = []
            for c in classes:
                if c is int:
                    out.append(v.isint)
                elif c is float:
                    out.append(Not(v.isint))
                elif c is object:
                    return True
            return Or(*out)
        if isinstance(v, Sc) and v.s == R and v.src is not None:
            if int in classes and float in classes or object in classes:
                return True
            if int not in classes and float not in classes:
                return False
        t = self.type_of(st, v)
        return any(issubclass(t, c) for c in classes)

    def classes(self, v):
        v = force(v)
        if isinstance(v, Tup):
            return [c for x in v.items for c in self.classes(x)]
        if isinstance(v, (tuple, list)):
            return [c for x in v for c in self.classes(x)]
        if isinstance(v, types.UnionType):
            return list(v.__args__)
        if isinstance(v, type):
            return [v]
        o = typing.get_origin(v)
        if isinstance(o, type):
            return [o]
        raise Unsupported("isinstance with %r" % (v,))

    # ------------------------------------------------------------------ texts
    def text_equal(self, st, a, b):
        if isinstance(b, (NumT, CharV, CharStr, FirstChar, ContentT)) and not isinstance(a, (NumT, CharV, CharStr, FirstChar)):
            a, b = b, a
        if a is b:
            return True
        if isinstance(a, (PathV, Tup, Ref)) or isinstance(b, (PathV, Tup, Ref)) or sort_of(b) in (I, R, B):
            return False
        if isinstance(a, BlankT) or isinstance(b, BlankT):
            o = b if isinstance(a, BlankT) else a
            if isinstance(o, str) and (not o or not o.isspace()):
                return False
            raise Unsupported("comparing white space")
        if isinstance(a, NumT) and not a.pad:
            if isinstance(b, str):
                s = sort_of(a.v)
                try:
                    n = int(b)
                except ValueError:
                    try:
                        float(b)
                    except ValueError:
                        return False
                    if s != R:
                        return False
                    raise Unsupported("text of a float")
                if str(n) != b:
                    return False
                if s == B:
                    return False if n not in (0, 1) else (term(a.v) if n else Not(term(a.v)))
                if s == I:
                    return Eq(term(a.v), term(n))
                raise Unsupported("text of a float")
            if isinstance(b, NumT) and not b.pad and sort_of(a.v) == sort_of(b.v) == I:
                return Eq(term(a.v), term(b.v))
        if isinstance(a, CharV):
            if isinstance(b, str):
                return Eq(a.t, z3.IntVal(ord(b))) if len(b) == 1 else False
            if isinstance(b, CharV):
                return Eq(a.t, b.t)
        if isinstance(a, CharStr):
            if isinstance(b, str):
                if a.rest is None:
                    if len(b) != len(a.chars):
                        return False
                    return And(*[Eq(c, z3.IntVal(ord(x))) for c, x in zip(a.chars, b)])
                if len(b) <= len(a.chars):
                    return False
        if isinstance(a, FirstChar) and isinstance(b, str) and len(b) == 1:
            return self.starts_with(st, a.of, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (B64T, ContentT, JoinT)) and y == "":
                return False
            if isinstance(x, CatT) and y == "":
                return Not(self.ip.truth(st, x))
            if isinstance(x, (B64T, CatT)) and isinstance(y, str) and y in ("csv", "base64", "zlib", "gzip"):
                raise Unsupported("comparing data")
        raise Unsupported("text comparison %r == %r" % (a, b))

    def starts_with(self, st, v, prefix):
        if isinstance(v, str):
            return v.startswith(prefix)
        if prefix == "":
            return True
        if isinstance(v, CharStr):
            k = len(prefix)
            if len(v.chars) < k:
                if v.rest is None:
                    return False
                raise Unsupported("long prefix")
            return And(*[Eq(c, z3.IntVal(ord(x))) for c, x in zip(v.chars, prefix)])
        if isinstance(v, Sc) and v.s == S:
            if prefix == "#":
                return sym.hash_first(v)
            return z3.Function("startswith_" + "".join(str(ord(c)) + "_" for c in prefix), StrS, z3.BoolSort())(v.t)
        if isinstance(v, CatT) and isinstance(v.parts[0], str):
            p = v.parts[0]
            if p.startswith(prefix):
                return True
            if not prefix.startswith(p):
                return False
        if isinstance(v, ContentT) and prefix == "<":
            tmx = Or(*[g for g, k, _ in v.file.alts if k == "tmx"])
            if v.lead:
                return And(tmx, Not(z3.Bool("leading_blanks:" + v.file.name)))
            return tmx
        if isinstance(v, ContentT) and prefix in ("{", "[") and not v.lead and not any(k == "bad" for _, k, _ in v.file.alts):
            return False if prefix == "[" else Or(*[g for g, k, _ in v.file.alts if k == "json"])
        if isinstance(v, BlankT):
            if not prefix[0].isspace():
                return False
        raise Unsupported("prefix of %r" % (v,))

    def join_text(self, st, sep, v):
        """sep.join(v) for a finite v, some of whose elements may be there only under a condition."""
        ip = self.ip
        r = ip.rec(st, v) if isinstance(v, Ref) else None
        segs = [One(True, x) for x in ip.finite(st, v) or ()] if ip.finite(st, v) is not None else \
            list(r.segs) if isinstance(r, ListRec) else None
        if segs is None or not all(isinstance(x, One) for x in segs) or sum(x.guard is not True for x in segs) > 4:
            raise Unsupported("join")

        def go(s, todo, done):
            for k, x in enumerate(todo):
                if x.guard is True:
                    continue
                head = [force(y.value) for y in todo[:k]]
                return ip.branch(s, x.guard, lambda s2: go(s2, todo[k + 1:], done + head + [force(x.value)]),
                                 lambda s2: go(s2, todo[k + 1:], done + head))
            vals = [CharStr([y.t]) if isinstance(y, CharV) else y for y in done + [force(y.value) for y in todo]]
            if all(isinstance(y, str) for y in vals):
                return sep.join(vals)
            if not all(isinstance(y, (str, Text)) or isinstance(y, Sc) and y.s == S for y in vals):
                raise Unsupported("join")
            parts = vals[:1]
            for y in vals[1:]:
                parts += [sep, y] if sep else [y]
            return self.concat_text(s, parts)
        return go(st, segs, [])

    def concat_text(self, st, parts):
        parts = [force(p) for p in parts]
        out = []
        for k, p in enumerate(parts):
            if isinstance(p, U):
                if len(p.alts) > 4 or sum(isinstance(q, U) for q in parts) > 2:
                    raise Unsupported("concatenation of alternatives")
                return union([(g, self.concat_text(st, parts[:k] + [x] + parts[k + 1:])) for g, x in p.alts])
            if isinstance(p, CatT):
                out += p.parts
            elif isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != "":
                out.append(p)
        if not out:
            return ""
        if len(out) == 1:
            return out[0]
        if all(isinstance(p, (str, CharStr)) for p in out) and all(p.rest is None for p in out if isinstance(p, CharStr)):
            cs = []
            for p in out:
                cs += [z3.IntVal(ord(c)) for c in p] if isinstance(p, str) else p.chars
            return CharStr(cs)
        return CatT(out)

    def char_order(self, st, op, a, b):
        def code(x):
            if isinstance(x, CharV):
                return x.t
            if isinstance(x, str) and len(x) == 1:
                return z3.IntVal(ord(x))
            raise Unsupported("order of characters")
        x, y = code(a), code(b)
        return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[op]

    def text_contains(self, st, box, x):
        if isinstance(x, U):
            return Or(*[And(g, self.text_contains(st, box, y)) for g, y in x.alts])
        if isinstance(box, str) and isinstance(x, str):
            return x in box
        if isinstance(box, str) and isinstance(x, CharV):
            return Or(*[Eq(x.t, z3.IntVal(ord(c))) for c in dict.fromkeys(box)])
        if isinstance(box, CharStr) and isinstance(x, str) and len(x) == 1 and box.rest is None:
            return Or(*[Eq(c, z3.IntVal(ord(x))) for c in box.chars])
        if x == "":
            return True
        raise Unsupported("text containment")

    # ------------------------------------------------------------------ operators
    def binop(self, st, op, a, b):
        ip = self.ip
        if isinstance(a, Whole):
            a = ip.expand(st, a)
        if isinstance(b, Whole):
            b = ip.expand(st, b)
        if isinstance(a, U) or isinstance(b, U):
            return ip.binop(st, op, a, b)
        if isinstance(a, (str, bytes)) and op == "mod":
            return self.text_mod(st, a, b)
        sa, sb = sort_of(a), sort_of(b)
        if sa in (I, R, B) and sb in (I, R, B):
            return self.arith(st, op, ip.as_num(a), ip.as_num(b))
        if op == "div" and (isinstance(a, PathV) or isinstance(b, PathV)):
            return self.path_div(st, a, b)
        if op == "add":
            ta, tb = sa == S or isinstance(a, Text), sb == S or isinstance(b, Text)
            if ta and tb:
                if isinstance(a, OpaqueT) or isinstance(b, OpaqueT):
                    return OpaqueT("concat")
                return self.concat_text(st, [a, b])
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(tuple, a.items + b.items)
            if isinstance(a, Ref) and isinstance(b, Ref):
                ra, rb = ip.rec(st, a), ip.rec(st, b)
                if isinstance(ra, ListRec) and isinstance(rb, ListRec):
                    return ip.alloc(st, ListRec(ra.segs + rb.segs))
                if isinstance(ra, AccRec) or isinstance(rb, AccRec):
                    raise NeedInv("concatenation with an accumulator")
            if ta != tb or a is None or b is None:
                ip.throw(st, ExcV(TypeError, ("+",)))
        if op == "or" and isinstance(a, Ref) and isinstance(b, Ref):
            ra, rb = ip.rec(st, a), ip.rec(st, b)
            if isinstance(ra, DictRec) and isinstance(rb, DictRec):
                ref = ip.alloc(st, DictRec(ra.known, ra.comps, mixed=ra.mixed))
                ip.dict_update(st, ref, b)
                return ref
        if op == "mul" and isinstance(a, Ref) and isinstance(b, int):
            r = ip.rec(st, a)
            if isinstance(r, ListRec) and b <= 16:
                return ip.alloc(st, ListRec(r.segs * b))
        if op == "mul" and isinstance(a, str) and isinstance(b, int):
            return a * b
        if a is None or b is None:
            ip.throw(st, ExcV(TypeError, (op,)))
        raise Unsupported("operator %s on %r, %r" % (op, a, b))

    def text_mod(self, st, a, b):
        """text % values with %s and %d only; other formats give a text nobody may look at."""
        vals = [force(x) for x in b.items] if isinstance(b, Tup) else [b]
        pieces = re.split(r"(%[sd])", a) if isinstance(a, str) else [a]
        out = []
        for p in pieces:
            if p in ("%s", "%d") and vals and not isinstance(vals[0], U):
                v = vals.pop(0)
                if p == "%d" and sort_of(v) != I:
                    return OpaqueT("format")
                out.append(self.to_str(st, v))
            elif isinstance(p, str) and "%" not in p:
                out.append(p)
            else:
                return OpaqueT("format")
        if vals or any(isinstance(x, OpaqueT) for x in out):
            return OpaqueT("format")
        return self.concat_text(st, out)

    def arith(self, st, op, a, b):
        if op in ("lshift", "rshift") and isinstance(b, Sc) and b.s == I:
            for c in range(0, 32, 8):
                if self.ip.valid(st.pc, b.t == c):
                    b = c
                    break
        r = self.arith1(st, op, a, b)
        if isinstance(r, Sc) and r.s == I and r is not a and r is not b:
            r.part = self.part_of(op, a, b)
            if r.part is not None and r.part[1] == {0: 0, 1: 1, 2: 2, 3: 3}:
                return r.part[0]
        return r

    def arith1(self, st, op, a, b):
        ip = self.ip
        if not isinstance(a, Sc) and not isinstance(b, Sc):
            try:
                return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "div": lambda: a / b,
                        "floordiv": lambda: a // b, "mod": lambda: a % b, "lshift": lambda: a << b,
                        "rshift": lambda: a >> b, "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b,
                        "pow": lambda: a ** b}[op]()
            except (ZeroDivisionError, ValueError, TypeError) as e:
                ip.throw(st, ExcV(type(e), (op,)))
        sa, sb = sort_of(a), sort_of(b)
        k = R if R in (sa, sb) else I
        if op in ("add", "sub", "mul"):
            x, y = term(a, k), term(b, k)
            t = {"add": x + y, "sub": x - y, "mul": x * y}[op]
            r = Sc(k, arith_simp(t))
            if op == "mul" and isinstance(b, int) and b > 0 and b & (b - 1) == 0:
                r.src = ("shl", b)
            if op == "add" and k == I and isinstance(b, Sc) and a == 0 and not isinstance(a, Sc):
                r.src = b.src
            return r
        if op == "div":
            x, y = term(a, R), term(b, R)
            ip.throw_if(st, Eq(y, term(0, R)), ZeroDivisionError)
            return Sc(R, x / y)
        if k == I and op in ("floordiv", "mod"):
            x, y = term(a), term(b)
            ip.throw_if(st, Eq(y, term(0)), ZeroDivisionError)
            if not ip.valid(st.pc, y > 0):
                raise Unsupported("division by a possibly negative number")
            if z3.is_int_value(y):
                return Sc(I, x / y if op == "floordiv" else x % y)
            ip.add_fact(z3.Implies(y > 0, z3.And(MOD(x, y) >= 0, MOD(x, y) < y)))
            return Sc(I, DIV(x, y) if op == "floordiv" else MOD(x, y))
        if k == I and op in ("lshift", "rshift") and isinstance(b, int):
            if op == "lshift":
                return Sc(I, term(a) * z3.IntVal(1 << b), ("shl", 1 << b))
            return Sc(I, term(a) / z3.IntVal(1 << b))
        if k == I and op == "or":
            for x, y in ((a, b), (b, a)):
                if isinstance(y, Sc) and isinstance(y.src, tuple) and y.src and y.src[0] == "shl":
                    t = term(x)
                    if ip.valid(st.pc, z3.And(t >= 0, t < y.src[1], y.t >= 0)):
                        return Sc(I, arith_simp(t + y.t))
                if not isinstance(x, Sc) and x == 0:
                    return y
        if k == I and op == "and" and isinstance(b, int) and b > 0 and (b + 1) & b == 0:
            return Sc(I, term(a) % z3.IntVal(b + 1))
        if k == I and op == "and" and isinstance(a, int):
            return self.arith(st, op, b, a)
        raise Unsupported("arithmetic " + op)

    def path_div(self, st, a, b):
        if isinstance(b, PathText):
            b = b.p
        if isinstance(b, PathV) and b.how is not None and b.how[0] == "of":
            b = b.how[1]
        if isinstance(a, PathV):
            if isinstance(b, str):
                b = Sc(S, lit(b))
            if isinstance(b, Sc) and b.s == S:
                return PathV(sym.p_join(a.t, b.t), ("join", a, b))
            if isinstance(b, PathV):
                return PathV(z3.Function("p_join2", PathS, PathS, PathS)(a.t, b.t), ("join2", a, b))
        raise Unsupported("path operator on %r, %r" % (a, b))

    # ------------------------------------------------------------------ globals
    def global_value(self, st, v, name):
        self.ip.globals_read.add(name)
        return v

    # ------------------------------------------------------------------ calls
    def call_native(self, st, f, args, kwargs):
        ip = self.ip
        try:
            m = self.natives.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(st, args, kwargs)
        if isinstance(f, (types.BuiltinFunctionType, types.MethodType, types.BuiltinMethodType)) and \
                getattr(f, "__self__", None) is not None and not isinstance(f.__self__, types.ModuleType):
            if isinstance(f.__self__, type) and isinstance(f, (types.BuiltinMethodType,)) or isinstance(f.__self__, type):
                return self.class_method(st, f, args, kwargs)
            return self.call_method(st, f.__self__, f.__name__, args, kwargs)
        name = getattr(f, "__module__", None), getattr(f, "__qualname__", repr(f))
        raise Unsupported("call of %s.%s" % name)

    def class_method(self, st, f, args, kwargs):
        cls, name = f.__self__, f.__name__
        if cls is int and name == "from_bytes":
            return self.n_from_bytes(st, args, kwargs)
        if cls is dict and name == "fromkeys":
            raise Unsupported("dict.fromkeys")
        if name == "_make" and issubclass(cls, tuple):
            vals = self.ip.finite(st, args[0])
            if vals is None:
                raise Unsupported("_make")
            return self.construct(st, cls, vals, {})
        raise Unsupported("class method %s.%s" % (cls.__name__, name))

    def one(self, st, v, fn):
        """Applies fn to every alternative of v."""
        return self.ip.split(st, v, fn)

    def n_len(self, st, args, kw):
        def ln(s, v):
            if isinstance(v, (str, list, dict, tuple, set, frozenset, bytes)):
                return len(v)
            if isinstance(v, Tup):
                return len(v.items)
            if isinstance(v, CharStr):
                return len(v.chars) if v.rest is None else Sc(I, z3.IntVal(len(v.chars)) + v.rest)
            if isinstance(v, CharV):
                return 1
            if isinstance(v, BytesV):
                if v.comp is not None:
                    raise Unsupported("length of compressed bytes")
                return Sc(I, v.ints.n * 4)
            if isinstance(v, SliceSegBytes):
                return 4
            if isinstance(v, DictView):
                v = v.ref
            if isinstance(v, Ref):
                r = self.ip.rec(s, v)
                if isinstance(r, AccRec):
                    raise NeedInv("length of an accumulator")
                if isinstance(r, ListRec):
                    return self.segs_len(s, r.segs)
                if isinstance(r, XRec):
                    return self.segs_len(s, r.kids)
                if isinstance(r, DictRec) and not r.comps:
                    return self.segs_len(s, [One(g, None) for g, _ in r.known.values()])
                if isinstance(r, DictRec) and not r.known and all(apart(c) for c in r.comps) \
                        and len(r.comps) == 1:
                    return self.segs_len(s, [Comp(c.binders, c.cond, None) for c in r.comps])
            if v is None or sort_of(v) in (I, R, B):
                self.ip.throw(s, ExcV(TypeError, ("len",)))
            raise Unsupported("len of %r" % (v,))
        return self.one(st, args[0], ln)

    def segs_len(self, st, segs):
        n, extra = 0, []
        for s in segs:
            if isinstance(s, One):
                if s.guard is True:
                    n += 1
                else:
                    extra.append(z3.If(s.guard, z3.IntVal(1), z3.IntVal(0)))
            elif isinstance(s, RowsSeg):
                extra.append(s.n)
            elif isinstance(s, SliceSeg):
                extra.append(s.ln)
            elif isinstance(s, Comp):
                if len(s.binders) != 1:
                    raise Unsupported("length of nested sequence")
                g = s.cond
                if g is not True and not self.ip.valid(st.pc + self.ip.binder_facts(s.binders), g):
                    from .interp import names_in
                    if str(s.binders[0][1]) in names_in(g):
                        raise Unsupported("length of a filtered sequence")
                    extra.append(z3.If(g, s.binders[0][0].n, z3.IntVal(0)))
                else:
                    self.ip.binder_facts(s.binders)
                    extra.append(s.binders[0][0].n)
            else:
                raise Unsupported("length")
        if not extra:
            return n
        t = extra[0]
        for e in extra[1:]:
            t = t + e
        return Sc(I, t + n if n else t)

    def n_print(self, st, args, kw):
        if "file" in kw and force(kw["file"]) is not None:
            raise Unsupported("print to a file")
        self.ip.effects.append(("print", "print()", st.pc))
        return None

    def n_isinstance(self, st, args, kw):
        g = self.has_type(st, args[0], self.classes(args[1]))
        return g if isinstance(g, bool) else Sc(B, g)

    def n_issubclass(self, st, args, kw):
        a = force(args[0])
        if isinstance(a, type):
            return any(issubclass(a, c) for c in self.classes(args[1]))
        raise Unsupported("issubclass")

    def n_callable(self, st, args, kw):
        return isinstance(force(args[0]), (types.FunctionType, InterpFn, type, BoundM, types.BuiltinFunctionType))

    def n_hasattr(self, st, args, kw):
        name = force(args[1])
        if not isinstance(name, str):
            raise Unsupported("hasattr")

        def has(s, v):
            if isinstance(v, Ref):
                r = self.ip.rec(s, v)
                if isinstance(r, ObjRec):
                    d = self.ip.rec(s, r.dic)
                    if isinstance(d, AccRec):
                        raise NeedInv("hasattr on an accumulator")
                    g = d.known.get(name, (False, None))[0]
                    if hasattr(r.cls, name) and name not in d.known:
                        return True
                    return g if isinstance(g, bool) else Sc(B, g)
                return hasattr(self.type_of(s, v), name)
            if isinstance(v, Tup):
                return hasattr(v.cls, name)
            raise Unsupported("hasattr of %r" % (v,))
        return self.one(st, args[0], has)

    def n_getattr(self, st, args, kw):
        name = force(args[1])
        if not isinstance(name, str):
            raise Unsupported("getattr")
        if len(args) == 2:
            return self.ip.get_attr(st, args[0], name)

        def get(s, v):
            h = self.n_hasattr(s, [v, name], {})
            return self.ip.branch(s, self.ip.truth(s, h), lambda x: self.get_attr(x, v, name), lambda x: args[2])
        return self.one(st, args[0], get)

    def n_setattr(self, st, args, kw):
        name = force(args[1])
        if not isinstance(name, str):
            raise Unsupported("setattr")
        self.ip.set_attr(st, args[0], name, args[2])

    def n_vars(self, st, args, kw):
        return self.ip.get_attr(st, args[0], "__dict__")

    def quant(self, st, v, is_any):
        ip = self.ip
        gs = []

        def t(s, x):
            g = ip.truth(s, x)
            return g if is_any else Not(g)
        for sg in ip.segments(st, v):
            if isinstance(sg, One):
                gs.append(And(sg.guard, t(st, sg.value)))
            elif isinstance(sg, Comp):
                if any(isinstance(q, CharTail) for q, _ in sg.binders):
                    gs.append(ip.fresh("some_tail_char", B))
                    continue
                gs.append(self.some_index(sg.binders, And(sg.cond, t(st, sg.value))))
            else:
                raise Unsupported("any/all")
        g = Or(*gs)
        if not is_any:
            g = Not(g)
        return g if isinstance(g, bool) else Sc(B, g)

    def some_index(self, binders, g):
        """Is there an element for which g holds?"""
        ip = self.ip
        from .interp import names_in
        if names_in(g) & {str(i) for _, i in binders}:
            if len(binders) != 1:
                raise Unsupported("quantification over a sequence")
            (q, i), = binders
            ip.binder_facts(binders)
            ex = ip.fresh("exists", B)
            w = ip.univ.some(q, ex)
            ip.add_fact(zb(Or(Not(ex), quant.gsubst(g, [(i, w)]))))
            ip.univ.all(q, lambda t: Or(ex, Not(quant.gsubst(g, [(i, t)]))))
            return ex
        ip.binder_facts(binders)
        return And(g, *[q.n > 0 for q, _ in binders])

    def n_any(self, st, args, kw):
        return self.one(st, args[0], lambda s, v: self.quant(s, v, True))

    def n_all(self, st, args, kw):
        return self.one(st, args[0], lambda s, v: self.quant(s, v, False))

    def extremum(self, st, args, kw, is_max):
        ip = self.ip
        if kw.get("key") is not None:
            return self.extremum_by(st, args, kw, is_max)
        if len(args) == 1:
            def many(s, v):
                segs = ip.segments(s, v, True)
                if not all(isinstance(x, One) and x.guard is True for x in segs):
                    r = self.comp_extremum(s, segs, kw, is_max)
                    if r is not None:
                        return r
                    raise Unsupported("maximum of a sequence")
                vals = [x.value for x in segs]
                if not vals:
                    if "default" in kw:
                        return kw["default"]
                    ip.throw(s, ExcV(ValueError, ("empty",)))
                return self.extremum(s, vals, {}, is_max) if len(vals) > 1 else force(vals[0])
            return self.one(st, args[0], many)
        acc = args[0]
        for x in args[1:]:
            a = acc

            def pick(s, u, a=a):
                def two(s2, w):
                    if sort_of(w) not in (I, R, B) or sort_of(u) not in (I, R, B):
                        ip.throw(s2, ExcV(TypeError, ("max",))) if (w is None or u is None) else None
                        raise Unsupported("maximum")
                    if not isinstance(w, Sc) and not isinstance(u, Sc):
                        return (max if is_max else min)(w, u)
                    k = R if R in (sort_of(w), sort_of(u)) else I
                    x1, y1 = term(ip.as_num(w), k), term(ip.as_num(u), k)
                    if sort_of(w) != sort_of(u):
                        second = y1 > x1 if is_max else y1 < x1
                        return union([(second, u), (Not(second), w)])
                    return Sc(k, z3.If(y1 > x1 if is_max else y1 < x1, y1, x1))
                return ip.split(s, a, two)
            acc = ip.split(st, x, pick)
        return acc

    def extremum_by(self, st, args, kw, is_max):
        """max/min with a key: finite sequences, and entries of a dictionary by their key."""
        ip, key = self.ip, kw["key"]
        rest = {k: v for k, v in kw.items() if k != "key"}
        v = force(args[0])
        if len(args) == 1 and isinstance(v, DictView) and v.what == "items":
            a, b = Sc(I, ip.fresh("key")), ip.alloc(st, DictRec())
            if force(ip.call(st, key, [Tup(tuple, (a, b))], {})) is a:
                def of(s, m):
                    return Tup(tuple, (m, ip.get_item(s, v.ref, m)))
                keys = DictView(v.ref, "keys")
                if "default" not in rest:
                    return of(st, self.extremum(st, [keys], {}, is_max))
                return ip.branch(st, ip.truth(st, v), lambda s: of(s, self.extremum(s, [keys], {}, is_max)),
                                 lambda s: rest["default"])
        vals = list(args) if len(args) > 1 else None
        if vals is None:
            segs = ip.segments(st, v)
            if not all(isinstance(x, One) and x.guard is True for x in segs):
                raise Unsupported("max with key")
            vals = [x.value for x in segs]
        if not vals:
            if "default" in rest:
                return rest["default"]
            ip.throw(st, ExcV(ValueError, ("empty",)))
        best, bk = vals[0], ip.call(st, key, [vals[0]], {})
        for x in vals[1:]:
            k = ip.call(st, key, [x], {})
            g = ip.order(st, ast.Gt if is_max else ast.Lt, k, bk)
            best, bk = (ip.branch(st, g, lambda s, p=p, q=q: p, lambda s, p=p, q=q: q) for p, q in ((x, best), (k, bk)))
        return best

    def comp_extremum(self, st, segs, kw, is_max):
        """Maximum of sequences of integers: some element, and no other is larger."""
        ip = self.ip
        parts, gs = [], []
        for sg in segs:
            if isinstance(sg, One):
                v = force(sg.value)
                if sort_of(v) != I:
                    return None
                parts.append((sg.guard, term(v), None, None))
                gs.append(sg.guard)
                continue
            if not isinstance(sg, Comp) or len(sg.binders) != 1 or sg.cond is not True:
                return None
            v = force(sg.value)
            if sort_of(v) != I or isinstance(v, bool):
                return None
            (seq, i), = sg.binders
            for f in seq.facts():
                if not isinstance(f, bool):
                    ip.add_fact(f)
            parts.append((True, term(v), seq, i))
            gs.append(seq.n > 0)
        some = Or(*gs)
        if "default" in kw:
            return ip.branch(st, some, lambda s: self.max_of(s, parts, some, is_max), lambda s: kw["default"])
        ip.throw_if(st, Not(some), ValueError, "empty")
        return self.max_of(st, parts, some, is_max)

    def max_of(self, st, parts, some, is_max):
        ip = self.ip
        m = None
        if len(parts) == 1 and parts[0][2] is not None:
            # the maximum of a field over a sequence of the document has a name
            _, v, seq, i = parts[0]
            if hasattr(seq, "idx") and z3.is_app(v) and v.num_args() == len(seq.idx) + 1 and v.children()[-1].eq(i) and \
                    all(x.eq(y) for x, y in zip(v.children(), seq.idx)) and v.decl().name().startswith(seq.path + "."):
                from . import sym
                m = sym.app(("max:" if is_max else "min:") + v.decl().name(), seq.idx, z3.IntSort())
        if m is None:
            m = ip.fresh("extremum")
        hit = []
        for g, v, seq, i in parts:
            if seq is None:
                ip.add_fact(zb(Or(Not(g), v <= m if is_max else v >= m)))
                hit.append(And(g, m == v))
                continue
            w = ip.univ.some(seq, False)
            hit.append(And(w >= 0, w < seq.n, m == quant.replace(v, [(i, w)])))
            ip.univ.all(seq, lambda t, v=v, i=i: quant.replace(v, [(i, t)]) <= m if is_max else
                        quant.replace(v, [(i, t)]) >= m)
        ip.add_fact(zb(Or(Not(some), *hit)))
        return Sc(I, m)

    def n_max(self, st, args, kw):
        return self.extremum(st, args, kw, True)

    def n_min(self, st, args, kw):
        return self.extremum(st, args, kw, False)

    def n_sum(self, st, args, kw):
        acc = args[1] if len(args) > 1 else 0
        vals = self.ip.finite(st, args[0])
        if vals is None:
            segs = self.ip.segments(st, args[0])
            if not all(isinstance(x, One) for x in segs):
                raise Unsupported("sum")
            for x in segs:
                acc = self.ip.branch(st, x.guard, lambda s, a=acc: self.ip.binop(s, "add", a, x.value),
                                     lambda s, a=acc: a)
            return acc
        for v in vals:
            acc = self.ip.binop(st, "add", acc, v)
        return acc

    def n_abs(self, st, args, kw):
        def f(s, v):
            v = self.ip.as_num(v)
            if isinstance(v, Sc):
                return Sc(v.s, z3.If(v.t >= 0, v.t, -v.t))
            return abs(v)
        return self.one(st, args[0], f)

    def n_divmod(self, st, args, kw):
        return Tup(tuple, [self.ip.binop(st, "floordiv", args[0], args[1]), self.ip.binop(st, "mod", args[0], args[1])])

    def n_sorted(self, st, args, kw):
        raise Unsupported("sorted")

    def n_iter(self, st, args, kw):
        return GenV(self.ip.alloc(st, ListRec(self.ip.segments(st, args[0]))))

    def n_next(self, st, args, kw):
        ip = self.ip
        g = force(args[0])
        if not isinstance(g, GenV):
            raise Unsupported("next")
        segs = list(ip.segments(st, g))
        has_d = len(args) > 1

        def rest(s, r):
            if isinstance(g.ref, Ref):
                s.heap[g.ref.n] = r

        def go(s, k):
            if k == len(segs):
                rest(s, ListRec(()))
                if has_d:
                    return args[1]
                ip.throw(s, ExcV(StopIteration))
            x = segs[k]
            if isinstance(x, Comp) and len(x.binders) == 1:
                # the first element of the sequence that is there
                (q, i), = x.binders
                none = ip.fresh("none_left", B)
                w = ip.univ.some(q, Not(none))
                ip.add_fact(zb(Or(none, quant.gsubst(x.cond, [(i, w)]))))
                ip.univ.all(q, lambda t: Or(And(Not(none), t >= w), Not(quant.gsubst(x.cond, [(i, t)]))))
                return ip.branch(s, Not(none), lambda s2: quant.subst(x.value, [(i, w)]), lambda s2: go(s2, k + 1))
            if not isinstance(x, One):
                raise Unsupported("next of a sequence")

            def took(s2):
                rest(s2, ListRec(segs[k + 1:]))
                return force(x.value)
            return ip.branch(s, x.guard, took, lambda s2: go(s2, k + 1))
        return go(st, 0)

    def n_ord(self, st, args, kw):
        v = force(args[0])
        if isinstance(v, CharV):
            return Sc(I, v.t)
        if isinstance(v, str) and len(v) == 1:
            return ord(v)
        raise Unsupported("ord")

    def n_chr(self, st, args, kw):
        raise Unsupported("chr")

    def n_round(self, st, args, kw):
        raise Unsupported("round")

    def n_id(self, st, args, kw):
        raise Unsupported("id")

    def n_repr(self, st, args, kw):
        return OpaqueT("repr")

    def n_cast(self, st, args, kw):
        return args[1]

    def n_attr_asdict(self, st, args, kw):
        raise Unsupported("attr.asdict")

    def n_attr_evolve(self, st, args, kw):
        def ev(s, o):
            if isinstance(o, Ref):
                r = self.ip.rec(s, o)
                if isinstance(r, ObjRec):
                    known = self.ip.rec(s, r.dic).known
                    d = {}
                    for f in attr.fields(r.cls):
                        if f.init and f.alias not in kw:
                            if f.name not in known or known[f.name][0] is not True:
                                raise Unsupported("evolve")
                            d[f.alias] = known[f.name][1]
                    d.update(kw)
                    return self.construct(s, r.cls, [], d)
            raise Unsupported("evolve")
        return self.one(st, args[0], ev)

    def n_dataclass_replace(self, st, args, kw):
        import dataclasses

        def rp(s, o):
            r = self.ip.rec(s, o) if isinstance(o, Ref) else None
            if not isinstance(r, ObjRec) or not dataclasses.is_dataclass(r.cls):
                raise Unsupported("replace")
            known = self.ip.rec(s, r.dic).known
            d = {}
            for f in dataclasses.fields(r.cls):
                if f.name in kw and not f.init:
                    raise Unsupported("replace")
                if f.init and f.name not in kw:
                    if f.name not in known or known[f.name][0] is not True:
                        raise Unsupported("replace")
                    d[f.name] = known[f.name][1]
            d.update(kw)
            return self.construct(s, r.cls, [], d)
        return self.one(st, args[0], rp)

    def n_copy(self, st, args, kw):
        ip = self.ip

        def cp(s, o):
            if isinstance(o, (Sc, str, int, float, Text, Tup, PathV)) or o is None:
                return o
            if not isinstance(o, Ref):
                raise Unsupported("copy of %r" % (o,))
            r = ip.rec(s, o)
            if isinstance(r, DictRec):
                return ip.alloc(s, DictRec(r.known, r.comps, mixed=r.mixed))
            if isinstance(r, ListRec):
                return ip.alloc(s, ListRec(r.segs))
            if isinstance(r, ObjRec) and not hasattr(r.cls, "__copy__") and not hasattr(r.cls, "__setstate__") and \
                    r.cls.__reduce_ex__ is object.__reduce_ex__ and r.cls.__reduce__ is object.__reduce__ and \
                    r.cls.__getstate__ is object.__getstate__:
                d = ip.rec(s, r.dic)
                return ip.alloc(s, ObjRec(r.cls, ip.alloc(s, DictRec(d.known, d.comps, mixed=d.mixed))))
            raise Unsupported("copy")
        return self.one(st, args[0], cp)

    # --- files
    def n_open(self, st, args, kw):
        mode = force(args[1]) if len(args) > 1 else force(kw.get("mode", "r"))
        if not isinstance(mode, str):
            raise Unsupported("open mode")

        def op(s, p):
            p = self.to_path(s, p)
            if any(c in mode for c in "wax+"):
                self.ip.effects.append(("write", "open(%s, %r)" % (p, mode), s.pc))
                raise Unsupported("file opened for writing")
            return self.open_file(s, p)
        return self.one(st, args[0], op)

    def to_path(self, st, p):
        if isinstance(p, PathV):
            return p
        if isinstance(p, PathText):
            return p.p
        if isinstance(p, str):
            return PathV(sym.p_of(lit(p)), ("of", Sc(S, lit(p))))
        if isinstance(p, Sc) and p.s == S:
            return PathV(sym.p_of(p.t), ("of", p))
        if p is None or sort_of(p) in (I, R, B):
            self.ip.throw(st, ExcV(TypeError, ("path",)))
        raise Unsupported("path %r" % (p,))

    def strip_path(self, p):
        while p.how is not None and p.how[0] in ("resolve", "absolute"):
            p = p.how[1]
        return p

    def open_file(self, st, p):
        ip = self.ip
        if ip.file_system is None:
            raise Unsupported("file access")
        q = self.strip_path(p)
        f = ip.file_system(ip, st, q.t)
        if f is None:
            ip.throw(st, ExcV(FileNotFoundError, (str(q.t),)))
        pos = ip.alloc(st, DictRec({"read": (True, False)}))
        v = FileV(p, f)
        v.pos = pos
        return v

    def content(self, st, fv):
        """Reads the whole file from the current position."""
        ip = self.ip
        r = ip.rec(st, fv.pos).known["read"][1]
        r = force(r)
        if r is not False:
            raise Unsupported("reading a file twice")
        ip.put(st, fv.pos, ip.rec(st, fv.pos).put("read", True))
        return fv.file

    def load_root(self, st, file, kind):
        """The document of a file read with the parser of `kind`."""
        ip = self.ip

        def alt(k, th):
            def go(s):
                if k != kind:
                    ip.throw(s, ExcV(json.JSONDecodeError if kind == "json" else etree.ParseError, ("content",)))
                key = (file.name, k)
                memo = ip.__dict__.setdefault("_roots", {})
                # each load gives a new object; loads of one file are told apart by a counter
                n = memo.get(key, 0)
                memo[key] = n + 1
                return ip.lift(th())
            return go
        return ip.nbranch(st, [(g, alt(k, th)) for g, k, th in file.alts])

    def n_json_load(self, st, args, kw):
        def ld(s, f):
            if isinstance(f, FileV):
                return self.load_root(s, self.content(s, f), "json")
            raise Unsupported("json.load")
        if kw:
            raise Unsupported("json.load options")
        return self.one(st, args[0], ld)

    def n_json_loads(self, st, args, kw):
        def ld(s, f):
            if isinstance(f, ContentT):
                return self.load_root(s, f.file, "json")
            raise Unsupported("json.loads")
        return self.one(st, args[0], ld)

    def n_et_parse(self, st, args, kw):
        def ld(s, f):
            if isinstance(f, FileV):
                return TreeV(self.load_root(s, self.content(s, f), "tmx"))
            if isinstance(f, (PathV, PathText)):
                fv = self.open_file(s, self.to_path(s, f))
                return TreeV(self.load_root(s, fv.file, "tmx"))
            raise Unsupported("etree.parse")
        return self.one(st, args[0], ld)

    def n_et_fromstring(self, st, args, kw):
        def ld(s, f):
            if isinstance(f, ContentT):
                return self.load_root(s, f.file, "tmx")
            raise Unsupported("etree.fromstring")
        return self.one(st, args[0], ld)

    def n_listdir(self, st, args, kw):
        p = self.to_path(st, force(args[0]))
        seq = DirSeq(p.t)
        i = self.ip.index(seq)
        return self.ip.alloc(st, ListRec([Comp([(seq, i)], True, seq.at(i))]))

    def n_isfile(self, st, args, kw):
        p = self.to_path(st, force(args[0]))
        return Sc(B, z3.Function("isfile", PathS, z3.BoolSort())(p.t))

    def n_path_join(self, st, args, kw):
        acc = self.to_path(st, force(args[0]))
        for a in args[1:]:
            acc = self.path_div(st, acc, force(a))
        return PathText(acc)

    def n_dirname(self, st, args, kw):
        p = self.to_path(st, force(args[0]))
        return PathText(PathV(sym.p_parent(p.t), ("parent", p)))

    def n_abspath(self, st, args, kw):
        raise Unsupported("abspath")

    def n_fspath(self, st, args, kw):
        return PathText(self.to_path(st, force(args[0])))

    # --- encodings
    def n_b64decode(self, st, args, kw):
        def dec(s, v):
            if isinstance(v, B64T):
                return BytesV(v.ints, v.comp)
            if v is None:
                self.ip.throw(s, ExcV(TypeError, ("b64decode",)))
            raise Unsupported("base64 of %r" % (v,))
        return self.one(st, args[0], dec)

    def decompress(self, st, args, kind, err):
        def dec(s, v):
            if isinstance(v, BytesV):
                if v.comp == kind:
                    return BytesV(v.ints, None)
                self.ip.throw(s, ExcV(err, ("data",)))
            raise Unsupported("decompress")
        return self.one(st, args[0], dec)

    def n_zlib_decompress(self, st, args, kw):
        if kw or len(args) > 1:
            raise Unsupported("zlib options")
        return self.decompress(st, args, "zlib", zlib.error)

    def n_gzip_decompress(self, st, args, kw):
        return self.decompress(st, args, "gzip", gzip.BadGzipFile)

    def n_from_bytes(self, st, args, kw):
        v = force(args[0])
        order = force(args[1]) if len(args) > 1 else force(kw.get("byteorder", "big"))
        signed = force(kw.get("signed", False))
        if isinstance(v, SliceSegBytes) and order in ("little", "big") and isinstance(signed, bool):
            return self.packed(v, order == "little", signed)
        raise Unsupported("from_bytes")

    def byte_of(self, seq, q, j):
        """Byte j of the little-endian form of integer q."""
        x = seq.at(q)
        r = Sc(I, z3.simplify((x.t / (256 ** j)) % 256))
        r.part = (x, {j: 0})
        return r

    def packed(self, v, little, signed):
        x = v.seq.at(v.q)
        if not little:
            t = z3.IntVal(0)
            for j in range(4):
                t = t * 256 + self.byte_of(v.seq, v.q, j).t
            x = Sc(I, t)
        return x if not signed else Sc(I, z3.If(x.t >= 2 ** 31, x.t - 2 ** 32, x.t))

    def part_of(self, op, a, b):
        """Sums of shifted bytes of one packed integer."""
        pa = a.part if isinstance(a, Sc) else None
        pb = b.part if isinstance(b, Sc) else None
        if pa and isinstance(b, int) and not isinstance(b, bool):
            if op in ("add", "or") and b == 0:
                return pa
            f = 2 ** b if op == "lshift" and 0 <= b <= 24 else b if op == "mul" else 0
            return (pa[0], {j: w + PLACES[f] for j, w in pa[1].items()}) if f in PLACES else None
        if pb and isinstance(a, int) and not isinstance(a, bool) and op in ("add", "or", "mul"):
            return self.part_of(op, b, a)
        if pa and pb and op in ("add", "or") and same(pa[0], pb[0]) and not set(pa[1]) & set(pb[1]):
            return pa[0], {**pa[1], **pb[1]}
        return None

    # --- struct
    def packed_format(self, st, fmt):
        """(number of integers or None for one, little, signed) of a format of 32 bit integers."""
        fmt = force(fmt)
        parts = fmt.parts if isinstance(fmt, CatT) else [fmt]
        if isinstance(fmt, str):
            m = re.fullmatch(r"([<>!])(\d*)([IiLl])", fmt)
            if m and m[2] in ("", "1"):
                return None, m[1] == "<", m[3] in "il"
        elif len(parts) == 3 and parts[0] in ("<", ">", "!") and isinstance(parts[1], NumT) and not parts[1].pad and \
                sort_of(parts[1].v) == I and parts[2] in ("I", "i", "L", "l"):
            return term(parts[1].v), parts[0] == "<", parts[2] in "il"
        raise Unsupported("struct format")

    def n_struct_unpack(self, st, args, kw):
        if len(args) != 2 or kw:
            raise Unsupported("struct.unpack")
        ip, v = self.ip, force(args[1])
        n, little, signed = self.packed_format(st, args[0])
        if n is None and isinstance(v, SliceSegBytes):
            return Tup(tuple, [self.packed(v, little, signed)])
        if isinstance(v, BytesV) and v.comp is None and n is not None:
            ip.throw_if(st, Not(Eq(n, v.ints.n)), struct.error, "length")
            i = ip.index(v.ints)
            return ip.alloc(st, ListRec([Comp([(v.ints, i)], True, self.packed(SliceSegBytes(v.ints, i), little, signed))]))
        raise Unsupported("struct.unpack")

    def n_iter_unpack(self, st, args, kw):
        ip, v = self.ip, force(args[1])
        n, little, signed = self.packed_format(st, args[0])
        if n is None and isinstance(v, BytesV) and v.comp is None:
            i = ip.index(v.ints)
            one = Tup(tuple, [self.packed(SliceSegBytes(v.ints, i), little, signed)])
            return ip.alloc(st, ListRec([Comp([(v.ints, i)], True, one)]))
        raise Unsupported("struct.iter_unpack")

    # --- regular expressions
    def n_re_compile(self, st, args, kw):
        if kw or len(args) > 1:
            raise Unsupported("regular expression flags")
        v = force(args[0])
        if isinstance(v, Sc) and v.s == S:
            return RegexV(v.t)
        raise Unsupported("regular expression")

    def regex_call(self, st, pat, name, text):
        text = force(text)
        if not (isinstance(text, Sc) and text.s == S):
            raise Unsupported("regular expression on %r" % (text,))
        m, s = re_match(pat, text.t), re_search(pat, text.t)
        self.ip.add_fact(z3.Implies(m, s))
        for k in range(0, 4):
            self.ip.add_fact(z3.Implies(m, re_group("search", pat, text.t, k) == re_group("match", pat, text.t, k)))
        g = m if name == "match" else s
        return U([(g, MatchV(pat, text.t, name)), (Not(g), None)])

    def n_re_match(self, st, args, kw):
        return self.regex_call(st, force(args[0]).t, "match", args[1])

    def n_re_search(self, st, args, kw):
        return self.regex_call(st, force(args[0]).t, "search", args[1])

    def n_re_fullmatch(self, st, args, kw):
        raise Unsupported("fullmatch")

    # ------------------------------------------------------------------ construction
    def construct(self, st, cls, args, kw):
        ip = self.ip
        if issubclass(cls, BaseException):
            return ExcV(cls, tuple(args))
        if issubclass(cls, pathlib.PurePath):
            if kw:
                raise Unsupported("Path options")
            if not args:
                return PathV(z3.Const("p_cwd", PathS))

            def mkp(s, v):
                acc = self.to_path(s, v)
                for a in args[1:]:
                    acc = self.path_div(s, acc, force(a))
                return acc
            return self.one(st, args[0], mkp)
        if cls in (int, float, bool, str):
            if not args:
                return cls()
            if cls is bool:
                g = ip.truth(st, args[0])
                return g if isinstance(g, bool) else Sc(B, g)
            if cls is int:
                if len(args) > 1 or "base" in kw:
                    base = force(args[1] if len(args) > 1 else kw["base"])
                    return self.one(st, args[0], lambda s, v: self.to_int_base(s, v, base))
                return self.one(st, args[0], self.to_int)
            if cls is float:
                return self.one(st, args[0], self.to_float)
            return self.one(st, args[0], self.to_str)
        if cls is type and len(args) == 1:
            v = force(args[0])
            if isinstance(v, (U, Whole, NumLike)):
                def ty(s, x):
                    return self.type_of(s, x)
                return self.one(st, v, ty)
            return self.type_of(st, v)
        if cls is list:
            if not args:
                return ip.alloc(st, ListRec())
            return self.one(st, args[0], lambda s, v: ip.alloc(s, ListRec(ip.segments(s, v))))
        if cls is tuple:
            if not args:
                return Tup(tuple, [])

            def mkt(s, v):
                vals = ip.finite(s, v)
                if vals is None:
                    raise Unsupported("tuple of a sequence")
                return Tup(tuple, vals)
            return self.one(st, args[0], mkt)
        if cls is dict or cls is collections.OrderedDict:
            ref = ip.alloc(st, DictRec())
            if args:
                a = force(args[0])
                def fill(s, v):
                    if isinstance(v, dict) or (isinstance(v, Ref) and isinstance(ip.rec(s, v), DictRec)):
                        ip.dict_update(s, ref, v)
                        return
                    segs = ip.segments(s, v)
                    for sg in segs:
                        if isinstance(sg, One) and sg.guard is True:
                            kv = ip.finite(s, sg.value)
                            self.set_item(s, ref, force(kv[0]), kv[1])
                        elif isinstance(sg, Comp):
                            kv = force(sg.value)
                            if not (isinstance(kv, Tup) and len(kv.items) == 2):
                                raise Unsupported("dict of a sequence")
                            r = ip.rec(s, ref)
                            if r.known:
                                raise Unsupported("mixed dictionary")
                            c = DComp(sg.binders, sg.cond, kv.items[0], kv.items[1])
                            c.levels = sg.levels
                            ip.put(s, ref, DictRec({}, r.comps + (c,)))
                        else:
                            raise Unsupported("dict of a sequence")
                self.one(st, a, fill)
            for k, v in kw.items():
                self.set_item(st, ref, k, v)
            return ref
        if cls in (set, frozenset):
            if not args:
                raise Unsupported("set")
            v = force(args[0])
            if isinstance(v, (str, tuple, list, frozenset, set)):
                return frozenset(v)
            raise Unsupported("set of a sequence")
        if cls is range:
            return self.mk_range(st, args)
        if cls is enumerate:
            return self.mk_enumerate(st, args, kw)
        if cls is zip:
            return self.mk_zip(st, args)
        if cls is map:
            return self.mk_map(st, args)
        if cls is filter and len(args) == 2 and not kw:
            # the generator expression it stands for
            e = FILTER_ALL if force(args[0]) is None else FILTER
            saved = dict(st.env)
            st.env.update(filter_function=args[0], filter_items=args[1])
            try:
                return ip.eval(st, e)
            finally:
                for k in ("filter_function", "filter_items"):
                    st.env.pop(k, None)
                    if k in saved:
                        st.env[k] = saved[k]
        if cls is reversed:
            vals = ip.finite(st, args[0])
            if vals is None:
                raise Unsupported("reversed sequence")
            return Tup(tuple, vals[::-1])
        if cls is object:
            return ip.alloc(st, ObjRec(object, ip.alloc(st, DictRec())))
        if cls is super:
            raise Unsupported("super")
        if attr.has(cls):
            return self.construct_attrs(st, cls, args, kw)
        if issubclass(cls, tuple) and hasattr(cls, "_fields"):
            env = {}
            names = list(cls._fields)
            if len(args) > len(names):
                ip.throw(st, ExcV(TypeError, ("too many arguments",)))
            for n, v in zip(names, args):
                env[n] = v
            for k, v in kw.items():
                if k not in names or k in env:
                    ip.throw(st, ExcV(TypeError, ("argument " + k,)))
                env[k] = v
            for n in names:
                if n not in env:
                    if n not in cls._field_defaults:
                        ip.throw(st, ExcV(TypeError, ("missing " + n,)))
                    env[n] = self.from_native(cls._field_defaults[n])
            if getattr(cls.__new__, "__code__", None) is None or not cls.__new__.__code__.co_filename.startswith("<string"):
                raise Unsupported("NamedTuple with __new__")
            return Tup(cls, [env[n] for n in names])
        import typing_extensions
        if typing_extensions.is_typeddict(cls):
            return self.construct(st, dict, args, kw)
        if hasattr(cls, "__dataclass_fields__"):
            return self.construct_dataclass(st, cls, args, kw)
        if cls is itertools.chain and not kw:
            return GenV(ip.alloc(st, ListRec([x for a in args for x in ip.segments(st, a)])))
        if cls is functools.partial and args:
            return PartialV(args[0], list(args[1:]), kw)
        if cls in (operator.itemgetter, operator.attrgetter) and len(args) == 1 and not kw:
            return PartialV(cls, [args[0]], {})
        raise Unsupported("construction of %s" % cls.__name__)

    def from_native(self, v):
        """A native immutable tuple as a tuple of the program; everything else unchanged."""
        if isinstance(v, tuple):
            return Tup(type(v), [self.from_native(x) for x in v])
        if isinstance(v, pathlib.PurePath):
            return PathV(sym.p_of(lit(str(v))))
        return v

    def default_of(self, st, a, cls):
        ip = self.ip
        d = a.default
        if isinstance(d, attr.Factory):
            if d.takes_self:
                raise Unsupported("factory with self")
            return ip.call(st, d.factory, [], {})
        return self.from_native(d)

    def construct_attrs(self, st, cls, args, kw):
        ip = self.ip
        init = cls.__dict__.get("__init__") or cls.__init__
        if "attrs generated" not in init.__code__.co_filename:
            raise Unsupported("hand written __init__ of " + cls.__name__)
        env = {}
        pos = [a for a in attr.fields(cls) if a.init and not a.kw_only]
        if len(args) > len(pos):
            ip.throw(st, ExcV(TypeError, ("too many arguments",)))
        for a, v in zip(pos, args):
            env[a.name] = v
        kw = dict(kw)
        for a in attr.fields(cls):
            if a.converter is not None or a.validator is not None:
                raise Unsupported("converter or validator of %s.%s" % (cls.__name__, a.name))
            if not a.init:
                env[a.name] = self.default_of(st, a, cls)
                continue
            alias = getattr(a, "alias", None) or a.name.lstrip("_")
            if alias in kw:
                if a.name in env:
                    ip.throw(st, ExcV(TypeError, ("argument " + alias,)))
                env[a.name] = kw.pop(alias)
            elif a.name not in env:
                if a.default is attr.NOTHING:
                    ip.throw(st, ExcV(TypeError, ("missing " + alias,)))
                env[a.name] = self.default_of(st, a, cls)
        if kw:
            ip.throw(st, ExcV(TypeError, ("unexpected arguments %s" % sorted(kw),)))
        order = [a.name for a in attr.fields(cls)]
        dic = ip.alloc(st, DictRec({n: (True, env[n]) for n in order}))
        ref = ip.alloc(st, ObjRec(cls, dic))
        post = getattr(cls, "__attrs_post_init__", None)
        if post is not None:
            ip.call_function(st, post, [ref], {})
        if getattr(cls, "__attrs_pre_init__", None) is not None:
            raise Unsupported("__attrs_pre_init__")
        return ref

    def construct_dataclass(self, st, cls, args, kw):
        import dataclasses
        ip = self.ip
        env, kw = {}, dict(kw)
        fs = dataclasses.fields(cls)
        for f, v in zip([f for f in fs if f.init and not f.kw_only], args):
            env[f.name] = v
        for f in fs:
            if f.name in kw:
                env[f.name] = kw.pop(f.name)
            elif f.name not in env:
                if f.default is not dataclasses.MISSING:
                    env[f.name] = self.from_native(f.default)
                elif f.default_factory is not dataclasses.MISSING:
                    env[f.name] = ip.call(st, f.default_factory, [], {})
                else:
                    ip.throw(st, ExcV(TypeError, ("missing " + f.name,)))
        if kw:
            ip.throw(st, ExcV(TypeError, ("unexpected arguments",)))
        dic = ip.alloc(st, DictRec({f.name: (True, env[f.name]) for f in fs}))
        ref = ip.alloc(st, ObjRec(cls, dic))
        if hasattr(cls, "__post_init__"):
            ip.call_function(st, cls.__post_init__, [ref], {})
        return ref

    def to_int(self, st, v):
        ip = self.ip
        if isinstance(v, NumT):
            v = v.v
            if sort_of(v) == R:
                if isinstance(v, Sc):
                    # the text of a fractional number: only integral ones may be accepted
                    ip.throw_if(st, z3.Or(z3.Not(z3.IsInt(v.t)), ip.fresh("text_with_point", B)), ValueError, "int")
                    return Sc(I, z3.ToInt(v.t))
                raise Unsupported("int of a float text")
            return ip.as_num(v)
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                ip.throw(st, ExcV(ValueError, ("int",)))
        v = ip.as_num(v)
        s = sort_of(v)
        if s == I:
            return v
        if s == R:
            if isinstance(v, float):
                return int(v)
            return Sc(I, z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
        if v is None or isinstance(v, (Ref, Tup, PathV)):
            ip.throw(st, ExcV(TypeError, ("int",)))
        raise Unsupported("int of %r" % (v,))

    def to_float(self, st, v):
        ip = self.ip
        if isinstance(v, NumT):
            v = v.v
        if isinstance(v, str):
            try:
                return float(v)
            except ValueError:
                ip.throw(st, ExcV(ValueError, ("float",)))
        v = ip.as_num(v)
        s = sort_of(v)
        if s in (I, R):
            if isinstance(v, Sc):
                if s == I:
                    # only integers of up to 53 bits have an exact float
                    return Sc(R, z3.If(z3.And(v.t >= -2 ** 53, v.t <= 2 ** 53), z3.ToReal(v.t), ROUNDED(v.t)))
                return Sc(R, term(v, R))
            return float(v)
        if s == S:
            if "re_group" in v.t.sexpr():
                return Sc(R, float_of(v.t))
        if v is None or isinstance(v, (Ref, Tup, PathV)):
            ip.throw(st, ExcV(TypeError, ("float",)))
        raise Unsupported("float of %r" % (v,))

    def to_str(self, st, v):
        if isinstance(v, str) or (isinstance(v, Sc) and v.s == S) or isinstance(v, Text):
            return v
        if isinstance(v, NumLike):
            return v.text
        if isinstance(v, PathV):
            return PathText(v)
        if isinstance(v, Sc) and v.s == I:
            return NumT(v)
        if v is None or isinstance(v, (bool, int, float)):
            return str(v)
        return OpaqueT("str")

    def to_int_base(self, st, v, base):
        ip = self.ip
        if isinstance(v, str) and isinstance(base, int):
            try:
                return int(v, base)
            except ValueError:
                ip.throw(st, ExcV(ValueError, ("int",)))
        if base == 16 and isinstance(v, (CharStr, CharV)):
            cs = [v.t] if isinstance(v, CharV) else v.chars
            if isinstance(v, CharStr) and v.rest is not None:
                raise Unsupported("number of unknown length")
            if not cs:
                ip.throw(st, ExcV(ValueError, ("int",)))
            allhex = z3.And(*[is_hex(c) for c in cs])
            t = z3.IntVal(0)
            for c in cs:
                t = t * 16 + hexval(c)
            if ip.valid(st.pc, allhex):
                return Sc(I, t)
            # other characters (signs, white space, '_', other digits): either outcome is possible
            f = ip.fresh("accepted_by_int", B)
            ip.throw_if(st, z3.And(z3.Not(allhex), z3.Not(f)), ValueError, "int")
            return Sc(I, z3.If(allhex, t, ip.fresh("some_int", I)))
        raise Unsupported("int with base of %r" % (v,))

    # --- iterators
    def mk_range(self, st, args):
        vals = [force(a) for a in args]
        if all(isinstance(v, int) for v in vals):
            r = range(*vals)
            if len(r) <= 300:
                return r
        if any(sort_of(v) != I for v in vals):
            raise Unsupported("range of %r" % (vals,))
        if len(vals) == 1:
            start, stop, step = 0, vals[0], 1
        elif len(vals) == 2:
            (start, stop), step = vals, 1
        else:
            start, stop, step = vals
        ip = self.ip
        a, b, c = term(start), term(stop), term(step)
        if isinstance(step, int) and step == 1:
            n = b - a if not (isinstance(start, int) and start == 0) else b
            if not ip.valid(st.pc, n >= 0):
                n = z3.If(n >= 0, n, z3.IntVal(0))
            return RangeSeq(n, None if isinstance(start, int) and start == 0 else a, None)
        if not ip.valid(st.pc, c > 0):
            raise Unsupported("range with a negative step")
        n = ip.fresh("range_len", I)
        ln = b - a
        ip.add_fact(z3.And(n >= 0, z3.Implies(ln <= 0, n == 0), z3.Implies(ln > 0, z3.And(n * c >= ln, (n - 1) * c < ln))))
        seq = RangeSeq(n, None if isinstance(start, int) and start == 0 else a, c)
        return seq

    def mk_enumerate(self, st, args, kw):
        start = force(args[1]) if len(args) > 1 else force(kw.get("start", 0))

        def en(s, v):
            if isinstance(v, BytesV):
                return EnumBytes(v, start)
            segs = self.ip.segments(s, v)
            out = []
            k = start
            for sg in segs:
                if isinstance(sg, One) and sg.guard is True and k is not None:
                    out.append(One(True, Tup(tuple, [k, sg.value])))
                    k = k + 1 if isinstance(k, int) else Sc(I, k.t + 1)
                elif isinstance(sg, One):
                    out.append(One(sg.guard, Tup(tuple, [k, sg.value])))
                    k = Sc(I, z3.If(zb(sg.guard), term(k) + 1, term(k)))
                elif isinstance(sg, Comp) and len(sg.binders) == 1 and sg.cond is True and k is not None:
                    i = sg.binders[0][1]
                    idx = Sc(I, i) if k == 0 and isinstance(k, int) else Sc(I, i + term(k))
                    out.append(Comp(sg.binders, True, Lazy(lambda idx=idx, sg=sg: Tup(tuple, [idx, force(sg.value)]))))
                    out[-1].levels = sg.levels
                    k = Sc(I, term(k) + sg.binders[0][0].n)
                else:
                    raise Unsupported("enumerate")
            return GenV(self.ip.alloc(s, ListRec(out)))
        return self.one(st, args[0], en)

    def mk_zip(self, st, args):
        cols = []
        for a in args:
            vals = self.ip.finite(st, a)
            if vals is None:
                raise Unsupported("zip of sequences")
            cols.append(vals)
        return Tup(tuple, [Tup(tuple, r) for r in zip(*cols)])

    def mk_map(self, st, args):
        if len(args) != 2:
            raise Unsupported("map")
        f = force(args[0])
        return self.one(st, args[1], lambda s, v: GenV(self.ip.loops.map_segments(s, v, lambda s2, x: self.ip.call(s2, f, [x], {}))))

    # ------------------------------------------------------------------ attributes
    def get_attr(self, st, o, name):
        ip = self.ip
        if isinstance(o, Ref):
            r = ip.rec(st, o)
            if isinstance(r, ObjRec):
                if name == "__dict__":
                    return r.dic
                if name == "__class__":
                    return r.cls
                d = ip.rec(st, r.dic)
                if isinstance(d, AccRec):
                    for op, g, a in d.log:
                        if op != "put" or not isinstance(a[0], str):
                            raise NeedInv("attribute of an accumulator")
                    if any(a[0] == name for op, g, a in d.log):
                        raise NeedInv("attribute of an accumulator")
                    d = d.base
                if name in d.known:
                    g, v = d.known[name]
                    if g is not True:
                        ip.throw_if(st, Not(g), AttributeError, name)
                    return force(v)
                if hasattr(r.cls, name):
                    v = getattr(r.cls, name)
                    if isinstance(v, types.FunctionType):
                        return BoundM(o, name)
                    if isinstance(v, property):
                        return ip.call_function(st, v.fget, [o], {})
                    return self.from_native(v)
                ip.throw(st, ExcV(AttributeError, (name,)))
            if isinstance(r, XRec):
                if name == "tag":
                    return force(r.tag)
                if name == "text":
                    return force(r.text)
                if name == "attrib":
                    return r.attrib
                if name == "tail":
                    raise Unsupported("tail")
                if hasattr(etree.Element, name):
                    return BoundM(o, name)
                ip.throw(st, ExcV(AttributeError, (name,)))
            t = list if isinstance(r, ListRec) or (isinstance(r, AccRec) and isinstance(r.base, ListRec)) else dict
            if hasattr(t, name):
                return BoundM(o, name)
            ip.throw(st, ExcV(AttributeError, (name,)))
        if isinstance(o, Tup):
            if hasattr(o.cls, "_fields") and name in o.cls._fields:
                return force(o.items[o.cls._fields.index(name)])
            if name == "__class__":
                return o.cls
            if hasattr(o.cls, name):
                return BoundM(o, name)
            ip.throw(st, ExcV(AttributeError, (name,)))
        if isinstance(o, PathV):
            if name == "parent":
                return PathV(sym.p_parent(o.t), ("parent", o))
            if name in ("name", "stem", "suffix"):
                return Sc(S, z3.Function("p_" + name, PathS, StrS)(o.t))
            if hasattr(pathlib.Path, name):
                return BoundM(o, name)
            ip.throw(st, ExcV(AttributeError, (name,)))
        if isinstance(o, types.ModuleType):
            if not hasattr(o, name):
                ip.throw(st, ExcV(AttributeError, (name,)))
            return self.from_native(getattr(o, name)) if not isinstance(getattr(o, name), pathlib.PurePath) else getattr(o, name)
        if isinstance(o, type):
            if not hasattr(o, name):
                ip.throw(st, ExcV(AttributeError, (name,)))
            return getattr(o, name)
        if isinstance(o, (Text, str)) or sort_of(o) == S:
            if hasattr(str, name):
                return BoundM(o, name)
            ip.throw(st, ExcV(AttributeError, (name,)))
        if isinstance(o, ExcV):
            if name == "args":
                return Tup(tuple, o.args)
            raise Unsupported("attribute of an exception")
        if o is None or sort_of(o) in (I, R, B):
            if o is not None and name in ("real", "imag"):
                raise Unsupported(name)
            if hasattr(int if o is not None else type(None), name):
                return BoundM(o, name)
            ip.throw(st, ExcV(AttributeError, (name,)))
        if isinstance(o, (FileV, TreeV, RegexV, MatchV, GenV, DictView, BytesV, BoundM)):
            return BoundM(o, name)
        if isinstance(o, (list, dict, tuple, set, frozenset)):
            return BoundM(o, name)
        if isinstance(o, (types.FunctionType, InterpFn)):
            if name == "__name__":
                return o.__name__ if isinstance(o, types.FunctionType) else o.name
        raise Unsupported("attribute %s of %r" % (name, o))

    def set_attr(self, st, o, name, v):
        ip = self.ip
        if isinstance(o, Ref):
            r = ip.rec(st, o)
            if isinstance(r, ObjRec):
                if isinstance(getattr(r.cls, name, None), property):
                    raise Unsupported("property setter")
                d = ip.rec(st, r.dic)
                if isinstance(d, AccRec):
                    st.heap[r.dic.n] = AccRec(d.base, d.log + (("put", True, (name, v)),))
                    return
                ip.put(st, r.dic, d.put(name, v))
                return
            if isinstance(r, XRec):
                if name == "text":
                    ip.put(st, o, XRec(r.tag, r.attrib, r.kids, v))
                    return
                if name == "tag":
                    ip.put(st, o, XRec(v, r.attrib, r.kids, r.text))
                    return
            raise Unsupported("setting attribute " + name)
        if o is None or isinstance(o, (Tup, Sc, str, int, float)):
            ip.throw(st, ExcV(AttributeError, (name,)))
        raise Unsupported("setting an attribute of a shared object")

    # ------------------------------------------------------------------ items
    def get_item(self, st, o, k):
        ip = self.ip
        k = force(k) if not isinstance(k, slice) else k
        if isinstance(k, U) and not isinstance(o, (type,)):
            return ip.split(st, k, lambda s, x: self.get_item(s, o, x))
        if isinstance(o, Ref):
            r = ip.rec(st, o)
            if isinstance(r, DictRec):
                return self.dict_get(st, o, r, k)
            if isinstance(r, ListRec):
                return self.list_get(st, r, k)
            if isinstance(r, AccRec):
                raise NeedInv("item of an accumulator")
            if isinstance(r, XRec) and isinstance(k, int) and k >= 0:
                return self.list_get(st, ListRec(r.kids), k)
            raise Unsupported("item of an object")
        if isinstance(o, Tup):
            if isinstance(k, int) and not isinstance(k, bool):
                if -len(o.items) <= k < len(o.items):
                    return force(o.items[k])
                ip.throw(st, ExcV(IndexError, ("tuple",)))
            if isinstance(k, slice) and all(x is None or isinstance(force(x), int) for x in (k.start, k.stop, k.step)):
                return Tup(tuple, o.items[slice(*[None if x is None else force(x) for x in (k.start, k.stop, k.step)])])
        if isinstance(o, (str, tuple, list)) and (isinstance(k, int) or isinstance(k, slice)):
            try:
                if isinstance(k, slice):
                    k = slice(*[None if x is None else force(x) for x in (k.start, k.stop, k.step)])
                return self.from_native(o[k])
            except (IndexError, TypeError) as e:
                if isinstance(e, TypeError):
                    raise Unsupported("index")
                ip.throw(st, ExcV(IndexError, ("index",)))
        if isinstance(o, dict):
            if native_immutable(k):
                if k in o:
                    return o[k]
                ip.throw(st, ExcV(KeyError, (k,)))
            # dispatch tables: one alternative per key
            alts, rest = [], []
            for key, v in o.items():
                g = ip.equal(st, k, key)
                alts.append((g, (lambda s, v=v: v)))
                rest.append(g)
            none = Not(Or(*rest))
            return ip.nbranch(st, alts + [(none, lambda s: ip.throw(s, ExcV(KeyError, ("key",))))])
        if isinstance(o, CharStr):
            return self.charstr_item(st, o, k)
        if isinstance(o, BytesV) and isinstance(k, slice):
            return self.bytes_slice(st, o, k)
        if isinstance(o, BytesV) and sort_of(k) == I and o.comp is None:
            t = term(k)
            for j in range(4):
                if ip.valid(st.pc, z3.And(t >= 0, t < o.ints.n * 4, (t - j) % 4 == 0)):
                    return self.byte_of(o.ints, z3.simplify((t - j) / 4), j)
            raise Unsupported("item of bytes")
        if isinstance(o, SliceSegBytes) and isinstance(k, int):
            if not -4 <= k < 4:
                ip.throw(st, ExcV(IndexError, ("bytes",)))
            return self.byte_of(o.seq, o.q, k % 4)
        if isinstance(o, (Sc, Text)) and (isinstance(o, Text) or o.s == S):
            return self.text_item(st, o, k)
        if isinstance(o, MatchV) and isinstance(k, int):
            return self.group(o, k)
        if o is None or sort_of(o) in (I, R, B):
            ip.throw(st, ExcV(TypeError, ("not subscriptable",)))
        if isinstance(o, type):     # typing generics
            return o
        raise Unsupported("item of %r" % (o,))

    def text_item(self, st, o, k):
        ip = self.ip
        if isinstance(k, int) and k == 0 and isinstance(o, (Sc, ContentT)):
            ip.throw_if(st, Not(ip.truth(st, o)), IndexError, "text")
            return FirstChar(o)
        if isinstance(k, slice) and isinstance(o, (Sc, ContentT)) and k.start in (None, 0) and k.step is None and force(k.stop) == 1 \
                and ip.valid(st.pc, ip.truth(st, o)):
            return FirstChar(o)
        if isinstance(o, CatT) and isinstance(o.parts[0], str):
            if isinstance(k, int) and 0 <= k < len(o.parts[0]):
                return o.parts[0][k]
            if isinstance(k, slice) and k.stop is None and k.step is None and isinstance(force(k.start), int) and \
                    0 <= force(k.start) <= len(o.parts[0]):
                return self.concat_text(st, [o.parts[0][force(k.start):]] + o.parts[1:])
        raise Unsupported("item of a text")

    def charstr_item(self, st, o, k):
        ip = self.ip
        if isinstance(k, int):
            if 0 <= k < len(o.chars):
                return CharV(o.chars[k])
            if o.rest is None and -len(o.chars) <= k < 0:
                return CharV(o.chars[k])
            if o.rest is None:
                ip.throw(st, ExcV(IndexError, ("text",)))
            raise Unsupported("character of the rest")
        if isinstance(k, slice):
            a, b, c = [None if x is None else force(x) for x in (k.start, k.stop, k.step)]
            if all(x is None or isinstance(x, int) for x in (a, b, c)):
                if o.rest is None:
                    return CharStr(o.chars[slice(a, b, c)])
                if c in (None, 1) and (a is None or 0 <= a <= len(o.chars)):
                    if b is None:
                        return CharStr(o.chars[a or 0:], o.rest)
                    if 0 <= b <= len(o.chars):
                        return CharStr(o.chars[a or 0:b])
        raise Unsupported("slice of a text")

    def bytes_slice(self, st, o, k):
        a = force(k.start) if k.start is not None else 0
        b = force(k.stop) if k.stop is not None else None
        ip = self.ip
        if o.comp is None and k.step is None and a == 0 and (
                b is None or sort_of(b) == I and ip.valid(st.pc, term(b) >= o.ints.n * 4)):
            return o
        if o.comp is None and k.step is None and b is not None and sort_of(a) == I and sort_of(b) == I:
            ta, tb = term(a), term(b)
            if ip.valid(st.pc, z3.And(ta % 4 == 0, tb == ta + 4, ta >= 0, tb <= o.ints.n * 4)):
                return SliceSegBytes(o.ints, z3.simplify(ta / 4))
        raise Unsupported("slice of bytes")

    def list_get(self, st, r, k):
        ip = self.ip
        if isinstance(k, bool):
            k = int(k)
        if isinstance(k, int):
            segs = r.segs
            if all(isinstance(s, One) and s.guard is True for s in segs):
                if -len(segs) <= k < len(segs):
                    return force(segs[k].value)
                ip.throw(st, ExcV(IndexError, ("list",)))
            if k == -1 and segs and isinstance(segs[-1], One) and segs[-1].guard is True:
                return force(segs[-1].value)
            if k >= 0:
                ones = []
                for s in segs:
                    if isinstance(s, One) and s.guard is True:
                        ones.append(s)
                    else:
                        break
                if k < len(ones):
                    return force(ones[k].value)
                s = segs[len(ones)] if len(ones) < len(segs) else None
                if isinstance(s, Comp) and len(s.binders) == 1 and s.cond is True:
                    j = k - len(ones)
                    inside = s.binders[0][0].n > j
                    ip.binder_facts(s.binders)
                    if len(segs) == len(ones) + 1:
                        ip.throw_if(st, Not(inside), IndexError, "list")
                        return self.elem_of(s, z3.IntVal(j))
                    if ip.valid(st.pc, inside):
                        return self.elem_of(s, z3.IntVal(j))
                if all(isinstance(s, One) for s in segs):
                    return self.guarded_index(st, list(segs), k)
            if k == -1 and len(segs) == 1 and isinstance(segs[0], Comp) and len(segs[0].binders) == 1 \
                    and segs[0].cond is True:
                n = segs[0].binders[0][0].n
                ip.binder_facts(segs[0].binders)
                ip.throw_if(st, n <= 0, IndexError, "list")
                return self.elem_of(segs[0], z3.simplify(n - 1))
            if k < 0 and all(isinstance(s, One) for s in segs):
                return self.guarded_index(st, list(segs)[::-1], -1 - k)
            raise Unsupported("index into a sequence")
        if isinstance(k, Sc) and k.s in (I, B):
            k = ip.as_num(k)
            if len(r.segs) <= 8 and all(isinstance(s, One) and s.guard is True for s in r.segs):
                n = len(r.segs)
                ip.throw_if(st, z3.Or(k.t < -n, k.t >= n), IndexError, "list")

                def pick(s, j=0):
                    if j >= n:
                        raise Dead()
                    return ip.branch(s, z3.Or(k.t == j, k.t == j - n), lambda s2: force(r.segs[j].value),
                                     lambda s2: pick(s2, j + 1))
                return pick(st)
            return self.list_at(st, r, k.t)
        if isinstance(k, slice):
            return self.list_slice(st, r, k)
        if sort_of(k) in (S, R) or k is None:
            ip.throw(st, ExcV(TypeError, ("index",)))
        raise Unsupported("list index %r" % (k,))

    def elem_of(self, s, j):
        """The element of a computed sequence at an index that is in range."""
        if s.make is not None:
            return s.make(j)
        q, i = s.binders[0]
        v = quant.subst(force(s.value), [(i, j)])
        self.ip.univ.note(q)
        self.ip.univ.point(q, j)
        return v

    def guarded_index(self, st, segs, k):
        """The k-th present element of guarded elements."""
        ip = self.ip

        def go(s, j, left):
            if j == len(segs):
                ip.throw(s, ExcV(IndexError, ("list",)))
            x = segs[j]
            return ip.branch(s, x.guard, lambda s2: force(x.value) if left == 0 else go(s2, j + 1, left - 1),
                             lambda s2: go(s2, j + 1, left))
        return go(st, 0, k)

    def list_at(self, st, r, t):
        """Element at a symbolic index."""
        ip = self.ip
        off = z3.IntVal(0)
        for s in r.segs:
            if isinstance(s, One) and s.guard is True:
                if ip.valid(st.pc, t == off):
                    return force(s.value)
                if not ip.valid(st.pc, t != off):
                    raise Unsupported("index into a list")
                off = off + 1
            elif isinstance(s, (RowsSeg, SliceSeg, Comp)):
                n = s.n if isinstance(s, RowsSeg) else s.ln if isinstance(s, SliceSeg) else None
                if isinstance(s, Comp):
                    if len(s.binders) != 1 or s.cond is not True:
                        raise Unsupported("index into a sequence")
                    ip.binder_facts(s.binders)
                    n = s.binders[0][0].n
                if ip.valid(st.pc, z3.And(t >= off, t < off + n)):
                    j = z3.simplify(t - off)
                    if isinstance(s, SliceSeg):
                        return s.seq.at(z3.simplify(s.start + j))
                    if isinstance(s, RowsSeg):
                        return ip.alloc(st, ListRec([SliceSeg(s.seq, j * s.w, s.w)]))
                    v = force(s.value)
                    if isinstance(v, Sc) and z3.is_const(s.binders[0][1]):
                        return Sc(v.s, quant.replace(v.t, [(s.binders[0][1], j)]))
                    return self.elem_of(s, j)
                if not ip.valid(st.pc, t >= off + n):
                    # out of range or undecided
                    if s is r.segs[-1] and ip.valid(st.pc, t >= 0):
                        ip.throw_if(st, t >= off + n, IndexError, "list")
                        return self.list_at(st, r, t)
                    raise Unsupported("index into a list")
                off = off + n
            else:
                raise Unsupported("index into a list")
        ip.throw(st, ExcV(IndexError, ("list",)))

    def list_slice(self, st, r, k):
        ip = self.ip
        a, b, c = [None if x is None else force(x) for x in (k.start, k.stop, k.step)]
        if all(isinstance(s, One) and s.guard is True for s in r.segs) and all(
                x is None or isinstance(x, int) for x in (a, b, c)) and c != 0:
            return ip.alloc(st, ListRec(r.segs[a:b:c]))
        if c not in (None, 1):
            raise Unsupported("slice with a step")
        if a in (None, 0) and b is None and not isinstance(a, Sc):
            return ip.alloc(st, ListRec(r.segs))
        if all(isinstance(s, One) for s in r.segs) and len(r.segs) <= 8 and b is None and isinstance(a, int) and a >= 0:
            def go(s, j, left):
                if j == len(r.segs) or left == 0:
                    return ip.alloc(s, ListRec(r.segs[j:]))
                return ip.branch(s, r.segs[j].guard, lambda s2: go(s2, j + 1, left - 1), lambda s2: go(s2, j + 1, left))
            return go(st, 0, a)
        if r.segs and isinstance(r.segs[0], Comp) and len(r.segs) == 1 and len(r.segs[0].binders) == 1 \
                and r.segs[0].cond is True and all(x is None or isinstance(x, int) or sort_of(x) is I and not isinstance(x, bool) for x in (a, b)):
            # the elements from one index to another
            s = r.segs[0]
            ip.binder_facts(s.binders)
            q, i = s.binders[0]

            def at_index(x, dflt):
                if x is None:
                    return dflt
                if isinstance(x, int):
                    if x == 0:
                        return z3.IntVal(0)
                    return z3.If(q.n < x, q.n, z3.IntVal(x)) if x > 0 else z3.If(q.n < -x, z3.IntVal(0), q.n + x)
                x = term(x)
                if ip.valid(st.pc, z3.And(x >= 0, x <= q.n)):
                    return x
                y = z3.If(x < 0, x + q.n, x)
                return z3.If(y < 0, z3.IntVal(0), z3.If(y > q.n, q.n, y))
            lo, hi = at_index(a, z3.IntVal(0)), at_index(b, q.n)
            if ident_seq(s) is None or not ip.valid(st.pc, z3.And(lo <= hi, *(
                    [term(x) >= 0 for x in (a, b) if x is not None] + [term(x) <= q.n for x in (a, b) if x is not None]))):
                if a is not None and not isinstance(a, Sc) and a > 0:
                    lo = z3.IntVal(a)       # a longer start than the sequence leaves nothing
                seq = RangeSeq(z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0))), z3.simplify(lo))
                j = ip.index(seq)
                at = j + lo if not (z3.is_int_value(lo) and lo.as_long() == 0) else j
                v = s.make(at) if s.make is not None else quant.subst(force(s.value), [(i, at)])
                ip.univ.note(q)
                ip.univ.point(q, at)
                return ip.alloc(st, ListRec([Comp([(seq, j)], True, v)]))
        if len(r.segs) == 1 and isinstance(r.segs[0], (Comp, SliceSeg)):
            s = r.segs[0]
            if isinstance(s, Comp):
                seq = ident_seq(s)
                if seq is None:
                    raise Unsupported("slice of a sequence")
                start, n = z3.IntVal(0), seq.n
            else:
                seq, start, n = s.seq, s.start, s.ln
            ta = term(0 if a is None else a)
            tb = n if b is None else term(b)
            if not ip.valid(st.pc, z3.And(ta >= 0, ta <= n)):
                raise Unsupported("slice bounds")
            if not ip.valid(st.pc, tb >= ta):
                raise Unsupported("slice bounds")
            if not ip.valid(st.pc, tb <= n):
                tb = z3.If(tb <= n, tb, n)
            return ip.alloc(st, ListRec([SliceSeg(seq, arith_simp(start + ta), arith_simp(tb - ta))]))
        raise Unsupported("slice of a list")

    def dict_get(self, st, o, r, k, default=None, missing=True):
        """d[k] (missing: raise KeyError) or d.get(k, default)."""
        ip = self.ip
        if isinstance(k, (str, int, float, type(None))):
            if r.comps:
                if k in r.known and r.known[k][0] is True and all(self.key_differs(st, c, k) for c in r.comps):
                    return force(r.known[k][1])
                return self.computed_get(st, o, r, k, default, missing)
            g, v = r.known.get(k, (False, None))
            if g is True:
                return force(v)
            if g is False:
                if missing:
                    ip.throw(st, ExcV(KeyError, (k,)))
                return default
            if missing:
                ip.throw_if(st, Not(g), KeyError, k)
                return force(v)
            return ip.branch(st, g, lambda s: force(v), lambda s: default)
        if r.comps:
            return self.computed_get(st, o, r, k, default, missing)
        if isinstance(k, Sc):
            alts, gs = [], []
            for key, (g, v) in r.known.items():
                e = And(g, ip.equal(st, k, key))
                alts.append((e, (lambda s, v=v: force(v))))
                gs.append(e)

            def none(s):
                if missing:
                    ip.throw(s, ExcV(KeyError, ("key",)))
                return default
            return ip.nbranch(st, alts + [(Not(Or(*gs)), none)])
        if isinstance(k, Ref):
            ip.throw(st, ExcV(TypeError, ("unhashable",)))
        raise Unsupported("dictionary key %r" % (k,))

    def key_differs(self, st, c, k):
        return False

    def computed_get(self, st, o, r, k, default, missing):
        """The entry with the key that comes last, if there is one."""
        ip = self.ip
        if r.known or sort_of(k) not in (I, S):
            raise Unsupported("lookup in a computed dictionary")
        comps = list(r.comps)

        def go(s, j):
            if j < 0:
                if missing:
                    ip.throw(s, ExcV(KeyError, ("key",)))
                return default
            c = comps[j]
            key = force(c.key)
            if sort_of(key) != sort_of(k):
                raise Unsupported("lookup in a computed dictionary")
            if not c.binders:
                g = And(c.cond, ip.equal(s, key, k))
                return ip.branch(s, g, lambda s2: force(c.value), lambda s2: go(s2, j - 1))
            none = ip.fresh("no_key", B)
            sub = [(i, ip.univ.some(q, Not(none))) for q, i in c.binders]
            hit = And(c.cond, Eq(term(key), term(k)))
            ip.add_fact(zb(Or(none, quant.gsubst(hit, sub))))
            if len(c.binders) == 1:
                (q, i), w = c.binders[0], sub[0][1]
                # not found: nowhere; found: nowhere later
                ip.univ.all(q, lambda t: Or(And(Not(none), t <= w), Not(quant.gsubst(hit, [(i, t)]))))
            elif not apart(c):
                raise Unsupported("lookup in a computed dictionary")
            return ip.branch(s, Not(none), lambda s2: quant.subst(c.value, sub), lambda s2: go(s2, j - 1))
        return go(st, len(comps) - 1)

    def set_item(self, st, o, k, v):
        ip = self.ip
        k = force(k) if not isinstance(k, slice) else k
        if isinstance(o, Ref):
            r = ip.rec(st, o)
            if isinstance(r, AccRec):
                if isinstance(r.base, DictRec):
                    st.heap[o.n] = AccRec(r.base, r.log + (("put", True, (k, v)),))
                    return
                raise NeedInv("item assignment to an accumulator")
            if isinstance(r, DictRec):
                if isinstance(k, (str, int, float, type(None))):
                    if r.comps:
                        ip.put(st, o, DictRec(r.known, r.comps + (DComp([], True, k, v),), mixed=r.mixed))
                        return
                    ip.put(st, o, r.put(k, v))
                    return
                if isinstance(k, Ref):
                    ip.throw(st, ExcV(TypeError, ("unhashable",)))
                if r.known:
                    raise Unsupported("mixed dictionary")
                ip.put(st, o, DictRec({}, r.comps + (DComp([], True, k, v),)))
                return
            if isinstance(r, ListRec) and isinstance(k, int) and all(isinstance(s, One) and s.guard is True for s in r.segs):
                if not -len(r.segs) <= k < len(r.segs):
                    ip.throw(st, ExcV(IndexError, ("list",)))
                segs = list(r.segs)
                segs[k] = One(True, v)
                ip.put(st, o, ListRec(segs))
                return
            raise Unsupported("item assignment")
        if isinstance(o, (list, dict, set)):
            ip.effects.append(("shared", "write to a shared container", st.pc))
            raise Unsupported("write to shared state")
        if o is None or isinstance(o, (Tup, Sc, str, int, float, Text)):
            ip.throw(st, ExcV(TypeError, ("item assignment",)))
        raise Unsupported("item assignment to %r" % (o,))

    def group(self, m, n):
        if m.how == "match":
            return Sc(S, re_group("match", m.pat, m.text, n))
        return Sc(S, re_group("search", m.pat, m.text, n))

    # ------------------------------------------------------------------ methods
    def call_method(self, st, o, name, args, kw):
        ip = self.ip
        if isinstance(o, (types.ModuleType, type)):
            return ip.call(st, self.get_attr(st, o, name), args, kw) if not (
                isinstance(o, type) and name in ("from_bytes", "_make")) else \
                self.class_method(st, getattr(o, name), args, kw)
        if isinstance(o, Ref):
            r = ip.rec(st, o)
            base = r
            while isinstance(base, AccRec):
                base = base.base
            if isinstance(base, ObjRec):
                d = ip.rec(st, base.dic)
                if isinstance(d, DictRec) and name in d.known:
                    return ip.call(st, d.known[name][1], args, kw)
                f = getattr(base.cls, name, None)
                if isinstance(f, types.FunctionType) and (f.__module__ or "").startswith(ip.PKG):
                    if isinstance(base.cls.__dict__.get(name), (staticmethod, classmethod)):
                        raise Unsupported("static method")
                    return ip.call_function(st, f, [o] + list(args), kw)
                if f is None:
                    ip.throw(st, ExcV(AttributeError, (name,)))
                raise Unsupported("method %s of %s" % (name, base.cls.__name__))
            if isinstance(base, DictRec):
                return self.dict_method(st, o, r, name, args, kw)
            if isinstance(base, ListRec):
                return self.list_method(st, o, r, name, args, kw)
            if isinstance(base, XRec):
                return self.elem_method(st, o, r, name, args, kw)
        if isinstance(o, PathV):
            return self.path_method(st, o, name, args, kw)
        if isinstance(o, (str, Text)) or sort_of(o) == S:
            return self.str_method(st, o, name, args, kw)
        if isinstance(o, FileV):
            return self.file_method(st, o, name, args, kw)
        if isinstance(o, TreeV):
            if name == "getroot":
                return o.root
            return ip.split(st, o.root, lambda s, x: self.call_method(s, x, name, args, kw))
        if isinstance(o, RegexV) and name in ("match", "search") and len(args) == 1 and not kw:
            return self.regex_call(st, o.pat, name, args[0])
        if isinstance(o, MatchV):
            if name == "group" and len(args) <= 1:
                k = force(args[0]) if args else 0
                if isinstance(k, int):
                    return self.group(o, k)
            if name == "groups" and not args:
                raise Unsupported("groups")
            raise Unsupported("match." + name)
        if isinstance(o, Tup):
            if name == "_replace" and hasattr(o.cls, "_fields"):
                items = list(o.items)
                for k, v in kw.items():
                    items[o.cls._fields.index(k)] = v
                return Tup(o.cls, items)
            if name == "_asdict":
                return ip.alloc(st, DictRec({k: (True, v) for k, v in zip(o.cls._fields, o.items)}))
            raise Unsupported("tuple method " + name)
        if isinstance(o, (dict,)):
            if name == "get" and args:
                k = force(args[0])
                d = args[1] if len(args) > 1 else None
                if native_immutable(k):
                    return o.get(k, d)
                alts, gs = [], []
                for key, v in o.items():
                    g = ip.equal(st, k, key)
                    alts.append((g, (lambda s, v=v: v)))
                    gs.append(g)
                return ip.nbranch(st, alts + [(Not(Or(*gs)), lambda s: d)])
            if name in ("items", "keys", "values") and not args:
                return Tup(tuple, [Tup(tuple, list(x)) if name == "items" else x for x in getattr(o, name)()])
            ip.effects.append(("shared", "dict." + name + " on a shared container", st.pc))
            raise Unsupported("method %s of a shared dictionary" % name)
        if isinstance(o, (list, tuple, set, frozenset)):
            raise Unsupported("method %s of a shared container" % name)
        if isinstance(o, BytesV) or isinstance(o, SliceSegBytes):
            raise Unsupported("bytes." + name)
        if o is None or isinstance(o, Sc) or isinstance(o, (int, float)):
            t = self.type_of(st, o) if not (isinstance(o, Sc) and o.s == R) else float
            if not hasattr(t, name):
                ip.throw(st, ExcV(AttributeError, (name,)))
            raise Unsupported("number method " + name)
        raise Unsupported("method %s of %r" % (name, o))

    def dict_method(self, st, o, r, name, args, kw):
        ip = self.ip
        if isinstance(r, AccRec):
            if name == "setdefault" or name == "get":
                raise NeedInv("lookup in an accumulator")
            if name == "update":
                for a in args:
                    ip.dict_update(st, o, a)
                for k, v in kw.items():
                    self.set_item(st, o, k, v)
                return None
            raise NeedInv("method %s of an accumulator" % name)
        if name == "get":
            d = args[1] if len(args) > 1 else None
            return ip.split(st, args[0], lambda s, k: self.dict_get(s, o, ip.rec(s, o), k, d, False))
        if name in ("items", "keys", "values") and not args:
            return DictView(o, name)
        if name == "copy":
            return ip.alloc(st, DictRec(r.known, r.comps, mixed=r.mixed))
        if name == "update":
            for a in args:
                ip.dict_update(st, o, a)
            for k, v in kw.items():
                self.set_item(st, o, k, v)
            return None
        if name == "pop":
            k = force(args[0])
            if not isinstance(k, (str, int)) or r.comps:
                raise Unsupported("pop")
            g, v = r.known.get(k, (False, None))
            if len(args) > 1:
                x = force(v) if g is True else args[1] if g is False else ip.branch(
                    st, g, lambda s: force(v), lambda s: args[1])
            else:
                ip.throw_if(st, Not(g), KeyError, k)
                x = force(v)
            ip.put(st, o, ip.rec(st, o).drop(k))
            return x
        if name == "setdefault":
            k = force(args[0])
            d = args[1] if len(args) > 1 else None
            if not isinstance(k, (str, int)) or r.comps:
                raise Unsupported("setdefault")
            g, v = r.known.get(k, (False, None))
            if g is True:
                return force(v)
            if g is False:
                self.set_item(st, o, k, d)
                return d

            def absent(s):
                ip.put(s, o, ip.rec(s, o).drop(k))
                self.set_item(s, o, k, d)
                return d
            return ip.branch(st, g, lambda s: force(v), absent)
        if name == "clear":
            ip.put(st, o, DictRec())
            return None
        raise Unsupported("dict." + name)

    def list_method(self, st, o, r, name, args, kw):
        ip = self.ip
        if name == "append" and len(args) == 1:
            ip.list_append(st, o, args[0])
            return None
        if name == "extend" and len(args) == 1:
            ip.list_extend(st, o, args[0])
            return None
        if isinstance(r, AccRec):
            raise NeedInv("method %s of an accumulator" % name)
        if name == "copy":
            return ip.alloc(st, ListRec(r.segs))
        if name == "insert" and force(args[0]) == 0 and isinstance(force(args[0]), int):
            ip.put(st, o, ListRec((One(True, args[1]),) + r.segs))
            return None
        if name == "clear":
            ip.put(st, o, ListRec())
            return None
        if name == "pop":
            k = force(args[0]) if args else -1
            if isinstance(k, int) and all(isinstance(s, One) and s.guard is True for s in r.segs):
                if not -len(r.segs) <= k < len(r.segs):
                    ip.throw(st, ExcV(IndexError, ("pop",)))
                segs = list(r.segs)
                x = segs.pop(k)
                ip.put(st, o, ListRec(segs))
                return force(x.value)
        if name == "reverse" and all(isinstance(s, One) for s in r.segs):
            ip.put(st, o, ListRec(r.segs[::-1]))
            return None
        raise Unsupported("list." + name)

    # --- XML elements
    def path_steps(self, path):
        if not isinstance(path, str):
            raise Unsupported("element path")
        steps = [p for p in path.split("/") if p not in (".", "")]
        if path.startswith("/") or "//" in path or any(not re.fullmatch(r"[A-Za-z_][\w-]*|\*", p) for p in steps) or not steps:
            raise Unsupported("element path %r" % path)
        return steps

    def kid_tag(self, st, k):
        """Tags a child may have: a list, or None if it must be looked at."""
        if isinstance(k, One):
            if isinstance(k.value, LazyX) and isinstance(k.value.tag, str):
                return [k.value.tag]
            v = force(k.value)
            if isinstance(v, Ref):
                t = self.ip.rec(st, v).tag
                if isinstance(t, str):
                    return [t]
        if isinstance(k, Comp) and getattr(k, "tags", None):
            return k.tags
        return None

    def kid_is(self, st, k, tag):
        """Guard that a child has the tag."""
        ts = self.kid_tag(st, k)
        if tag == "*":
            return True
        if ts is not None:
            if tag not in ts:
                return False
            if len(ts) == 1:
                return True
        v = force(k.value)
        s = st
        if isinstance(k, Comp):
            s = st.fork(*self.ip.binder_facts(k.binders))
        alts = v.alts if isinstance(v, U) else [(True, v)]
        gs = []
        for g, x in alts:
            if isinstance(x, Whole):
                raise Unsupported("tag of a result")
            gs.append(And(g, self.ip.equal(s, force(self.ip.rec(s, x).tag), tag)))
        return Or(*gs)

    def kids_of(self, st, o):
        r = self.ip.rec(st, o)
        if isinstance(r, AccRec):
            raise NeedInv("children of an accumulator")
        return r.kids

    def find(self, st, o, steps):
        ip = self.ip
        tag, rest = steps[0], steps[1:]

        def go(s, kids):
            if not kids:
                return None
            k = kids[0]
            g = self.kid_is(s, k, tag)
            if g is False:
                return go(s, kids[1:])
            if isinstance(k, One):
                def hit(s2):
                    if not rest:
                        return force(k.value)
                    x = ip.split(s2, force(k.value), lambda s3, y: self.find(s3, y, rest))
                    if x is None or isinstance(x, U):
                        if len([q for q in kids[1:] if self.kid_is(s2, q, tag) is not False]) > 0:
                            raise Unsupported("nested find")
                    return x
                return ip.branch(s, And(k.guard, g), hit, lambda s2: go(s2, kids[1:]))
            if isinstance(k, Comp) and g is True and len(k.binders) == 1 and not rest and k.make is not None:
                from .interp import names_in
                if str(k.binders[0][1]) in names_in(k.cond):
                    raise Unsupported("find in a filtered sequence")
                ip.binder_facts(k.binders)
                return ip.branch(s, And(k.cond, k.binders[0][0].n > 0), lambda s2: k.make(z3.IntVal(0)),
                                 lambda s2: go(s2, kids[1:]))
            raise Unsupported("find in a sequence of elements")
        return go(st, list(self.kids_of(st, o)))

    def findall(self, st, o, steps):
        ip = self.ip
        tag, rest = steps[0], steps[1:]
        segs = []
        for k in self.kids_of(st, o):
            g = self.kid_is(st, k, tag)
            if g is False:
                continue
            if isinstance(k, One):
                x = One(And(k.guard, g), k.value)
            else:
                x = Comp(k.binders, And(k.cond, g), k.value, k.make)
                x.tags = [tag] if tag != "*" else getattr(k, "tags", None)
            if not rest:
                segs.append(x)
                continue
            if isinstance(x, One):
                v = force(x.value)
                if not isinstance(v, Ref):
                    raise Unsupported("nested findall")
                inner = self.findall(st, v, rest)
                from .interp import guard_seg
                segs += [guard_seg(x.guard, q) if x.guard is not True else q for q in inner]
            else:
                v = force(x.value)
                if not isinstance(v, Ref):
                    raise Unsupported("nested findall")
                s = st.fork(*ip.binder_facts(x.binders))
                for q in self.findall(s, v, rest):
                    if isinstance(q, One):
                        segs.append(Comp(x.binders, And(x.cond, q.guard), q.value))
                    else:
                        segs.append(Comp(x.binders + q.binders, And(x.cond, q.cond), q.value))
        return segs

    def elem_method(self, st, o, r, name, args, kw):
        ip = self.ip
        if isinstance(r, AccRec):
            if name == "append":
                st.heap[o.n] = AccRec(r.base, r.log + (("append", True, (args[0],)),))
                return None
            raise NeedInv("method %s of an accumulator" % name)
        if kw and not (name == "get" and set(kw) == {"default"}):
            raise Unsupported("element options")
        if name == "find":
            p = force(args[0])
            if isinstance(p, U):
                return ip.split(st, p, lambda s, x: self.find(s, o, self.path_steps(x)))
            return self.find(st, o, self.path_steps(p))
        if name == "findtext":
            d = args[1] if len(args) > 1 else None
            e = self.find(st, o, self.path_steps(force(args[0])))

            def txt(s, x):
                if x is None:
                    return d
                t = force(ip.rec(s, x).text)
                return ip.split(s, t, lambda s2, y: "" if y is None else y)
            return ip.split(st, e, txt)
        if name == "findall":
            return ip.alloc(st, ListRec(self.findall(st, o, self.path_steps(force(args[0])))))
        if name == "iterfind":
            return GenV(ip.alloc(st, ListRec(self.findall(st, o, self.path_steps(force(args[0]))))))
        if name == "get":
            d = args[1] if len(args) > 1 else kw.get("default")
            return ip.split(st, args[0], lambda s, k: self.dict_get(s, r.attrib, ip.rec(s, r.attrib), k, d, False))
        if name == "set":
            self.set_item(st, r.attrib, force(args[0]), args[1])
            return None
        if name in ("items", "keys"):
            return DictView(r.attrib, name)
        if name == "append":
            if self.kid_list_ref(args[0]) is None:
                def app(s, x):
                    rr = ip.rec(s, o)
                    ip.put(s, o, rr.with_kids(rr.kids + (One(True, x),)))
                ip.split(st, args[0], app)
                return None
            ip.put(st, o, r.with_kids(r.kids + (One(True, args[0]),)))
            return None
        if name == "extend":
            def ext(s, x):
                rr = ip.rec(s, o)
                ip.put(s, o, rr.with_kids(rr.kids + tuple(ip.segments(s, x))))
            ip.split(st, args[0], ext)
            return None
        if name == "insert" and force(args[0]) == 0:
            ip.put(st, o, r.with_kids((One(True, args[1]),) + r.kids))
            return None
        if name == "remove":
            def rem(s, x):
                rr = ip.rec(s, o)
                kids = []
                found = []
                for k in rr.kids:
                    if isinstance(k, One):
                        v = k.value
                        if isinstance(v, LazyX) and not v.done:
                            kids.append(k)
                            continue
                        if force(v) is x or (isinstance(force(v), Ref) and isinstance(x, Ref) and force(v).n == x.n):
                            found.append(k.guard)
                            continue
                    kids.append(k)
                if not found:
                    raise Unsupported("remove of an unknown child")
                for j, g in enumerate(found):
                    for h in found[:j]:
                        if ip.feasible(s.pc, g, h):
                            raise Unsupported("remove of a child that is there twice")
                g = Or(*found)
                if g is not True:
                    ip.throw_if(s, Not(g), ValueError, "remove")
                ip.put(s, o, rr.with_kids(kids))
            ip.split(st, args[0], rem)
            return None
        if name == "clear":
            ip.put(st, r.attrib, DictRec())
            ip.put(st, o, XRec(r.tag, r.attrib, (), None))
            return None
        if name in ("iter", "itertext"):
            raise Unsupported("Element." + name)
        raise Unsupported("Element." + name)

    def kid_list_ref(self, v):
        return v if isinstance(force(v), Ref) else None

    # --- paths
    def path_method(self, st, o, name, args, kw):
        ip = self.ip
        if name == "absolute" and not args:
            return PathV(z3.Function("p_absolute", PathS, PathS)(o.t), ("absolute", o))
        if name == "resolve":
            q = o
            while q.how is not None and q.how[0] in ("absolute", "resolve"):
                q = q.how[1]
            return PathV(sym.p_resolve(q.t), ("resolve", q))
        if name == "joinpath":
            for a in args:
                o = self.path_div(st, o, force(a))
            return o
        if name == "open":
            return self.n_open(st, [o] + list(args), kw)
        if name == "read_text":
            return ContentT(self.content(st, self.open_file(st, o)))
        if name == "is_file":
            return self.n_isfile(st, [o], {})
        if name in ("write_text", "write_bytes", "unlink", "rename", "touch", "mkdir", "rmdir", "replace", "chmod"):
            ip.effects.append(("write", "Path." + name, st.pc))
            raise Unsupported("file system effect")
        if name == "as_posix":
            return PathText(o)
        raise Unsupported("Path." + name)

    # --- strings
    def str_method(self, st, o, name, args, kw):
        ip = self.ip
        args = [force(a) for a in args]
        if isinstance(o, U):
            return ip.split(st, o, lambda s, x: self.str_method(s, x, name, args, kw))
        if not hasattr(str, name):
            ip.throw(st, ExcV(AttributeError, (name,)))
        if any(isinstance(a, Tup) for a in args) and name in ("startswith", "endswith"):
            gs = [self.str_method(st, o, name, [x], kw) for x in args[0].items]
            g = Or(*[ip.truth(st, x) for x in gs])
            return g if isinstance(g, bool) else Sc(B, g)
        if isinstance(o, str) and all(native_immutable(a) for a in args) and all(native_immutable(force(v)) for v in kw.values()):
            try:
                r = getattr(o, name)(*args, **{k: force(v) for k, v in kw.items()})
            except Exception as e:
                ip.throw(st, ExcV(type(e), (name,)))
            if isinstance(r, list):
                return ip.alloc(st, ListRec([One(True, x) for x in r]))
            return self.from_native(r)
        if name == "format" or (name == "join" and isinstance(o, str)):
            if name == "join":
                return self.one(st, args[0], lambda s, v: self.join_text(s, o, v))
            return OpaqueT("format")
        if name == "startswith" and len(args) == 1 and isinstance(args[0], str):
            g = self.starts_with(st, o, args[0])
            return g if isinstance(g, bool) else Sc(B, g)
        if isinstance(o, CharStr):
            return self.charstr_method(st, o, name, args)
        if name in ("strip", "lstrip", "rstrip") and not args:
            if isinstance(o, BlankT):
                return ""
            if isinstance(o, NumT):
                return NumT(o.v) if name == "strip" or not o.pad else o
            if isinstance(o, JoinT):
                return o
            if isinstance(o, B64T):
                return o
            if isinstance(o, ContentT):
                return ContentT(o.file, False) if name != "rstrip" else o
            if isinstance(o, TupT):
                return o
        if name == "isspace" and not args:
            if isinstance(o, BlankT):
                return True
            if isinstance(o, (NumT, B64T, JoinT, TupT)):
                return False
        if name == "split" or name == "rsplit":
            sep = args[0] if args else None
            if kw or len(args) > 1:
                raise Unsupported("split options")
            if isinstance(o, JoinT):
                if sep == o.sep or (sep is None and o.sep == " " and not o.pad):
                    seq = o.seq
                    if isinstance(seq, SeqV) or hasattr(seq, "at"):
                        i = ip.index(seq)
                        ip.binder_facts([(seq, i)])
                        if not ip.valid(st.pc, seq.n >= 1):
                            raise Unsupported("split of a possibly empty text")
                        ip.see(seq.at(i))
                        return ip.alloc(st, ListRec([Comp([(seq, i)], True, o.fn(seq.at(i)), lambda t: o.fn(seq.at(t)))]))
            if isinstance(o, TupT) and sep == o.sep:
                return ip.alloc(st, ListRec([One(True, p) for p in o.pieces]))
            if isinstance(o, NumT) and isinstance(sep, str) and sep in ",; \n" and not o.pad:
                return ip.alloc(st, ListRec([One(True, o)]))
        if name == "replace" and len(args) == 2 and all(isinstance(a, str) for a in args):
            if isinstance(o, (JoinT, B64T)) and args[1] == "" and args[0].isspace():
                if isinstance(o, B64T) or o.sep != args[0]:
                    return o
        if name == "encode" and isinstance(o, B64T):
            return o
        if name in ("lower", "upper", "strip", "lstrip", "rstrip", "casefold", "title", "capitalize", "swapcase") and isinstance(o, Sc):
            raise Unsupported("str.%s of a text of the file" % name)
        if name == "removeprefix" and len(args) == 1 and isinstance(args[0], str):
            g = self.starts_with(st, o, args[0])
            if g is False:
                return o
        raise Unsupported("str.%s of %r" % (name, o))

    def charstr_method(self, st, o, name, args):
        ip = self.ip
        if name in ("lower", "upper"):
            up = name == "upper"

            def conv(c):
                if up:
                    return z3.If(z3.And(c >= 97, c <= 122), c - 32, c)
                return z3.If(z3.And(c >= 65, c <= 90), c + 32, c)
            # exact only for ASCII letters; other characters may change length
            if o.rest is None and ip.valid(st.pc, z3.And(*[c < 128 for c in o.chars]) if o.chars else z3.BoolVal(True)):
                return CharStr([conv(c) for c in o.chars])
            raise Unsupported("case conversion")
        if name == "removeprefix" and len(args) == 1 and isinstance(args[0], str):
            g = self.starts_with(st, o, args[0])
            return ip.branch(st, g, lambda s: CharStr(o.chars[len(args[0]):], o.rest), lambda s: o)
        if name == "lstrip" and args == ["#"]:
            def go(s, k):
                if k == len(o.chars):
                    if o.rest is None:
                        return CharStr([])
                    raise Unsupported("long prefix")
                return ip.branch(s, Eq(o.chars[k], z3.IntVal(35)), lambda s2: go(s2, k + 1),
                                 lambda s2: CharStr(o.chars[k:], o.rest))
            return go(st, 0)
        raise Unsupported("str.%s of a text" % name)

    def file_method(self, st, o, name, args, kw):
        ip = self.ip
        if name == "read" and not args:
            return ContentT(self.content(st, o))
        if name == "seek" and force(args[0]) == 0:
            ip.put(st, o.pos, ip.rec(st, o.pos).put("read", False))
            return 0
        if name == "close":
            return None
        if name in ("write", "writelines", "truncate"):
            ip.effects.append(("write", "file." + name, st.pc))
        raise Unsupported("file." + name)


PLACES = {1: 0, 256: 1, 256 ** 2: 2, 256 ** 3: 3}


class PartialV:
    """functools.partial, or an operator.itemgetter/attrgetter of one name."""

    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class SliceSegBytes:
    """The four bytes of one packed integer."""

    def __init__(self, seq, q):
        self.seq, self.q = seq, q


class EnumBytes:
    def __init__(self, b, start):
        self.b, self.start = b, start


def ident_seq(c):
    """The integer sequence that a Comp lists unchanged, or None."""
    if len(c.binders) != 1 or c.cond is not True:
        return None
    seq, i = c.binders[0]
    v = force(c.value)
    if isinstance(v, Sc) and getattr(seq, "elem", None) == docs.INT and seq.at(i).t.eq(v.t):
        return seq
    return None


def arith_simp(t):
    """Folds constants only (keeps products as they are written)."""
    if z3.is_int(t):
        s = z3.simplify(t, arith_lhs=False, som=False, mul_to_power=False)
        return s
    return t

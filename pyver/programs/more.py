from typing import *
import itertools, functools, operator, copy
from pathlib import Path
import xml.etree.ElementTree as etree
import attr
from pytiled_parser.common_types import OrderedPair, Size, Color
from pytiled_parser.layer import Layer, TileLayer, Chunk
from pytiled_parser.tileset import Tile, Tileset, Frame
from pytiled_parser.tiled_object import TiledObject, Rectangle
K = {"a": 1}
LST = [1, 2]

def f_order1(d):
    d["x"] = 1
    d["y"] = 2
    return list(d)
def f_order2(b):
    e = {"q": 1}
    if b: e["r"] = 2
    e["s"] = 3
    e["r"] = 4
    return list(e)
def f_order3(b):
    e = {}
    if b: e["a"] = 1
    else:
        e["b"] = 1
        e["a"] = 2
    e["c"] = 1
    return list(e.items())
def f_order4(b, d):
    e = {"w": 0, **d}
    if b: e.pop("w")
    e["w"] = 5
    return list(e)
def f_order5(d):
    if "x" in d:
        del d["x"]
    d["x"] = 7
    return list(d.items())
def f_order6(b, c):
    e = {}
    if b: e["a"] = 1
    if c: e["b"] = 2
    if not b: e["a"] = 3
    return list(e)
def f_obj1(i, b):
    l = Layer(name="n")
    if b: l.opacity = i
    return l.opacity, l.visible, l.id, l.properties
def f_obj2(i):
    a = Layer(name="n"); c = Layer(name="n")
    a.opacity = i
    return c.opacity, a == c, a is c
def f_obj3(i):
    a = TileLayer(name="n", id=i)
    d = a.__dict__
    return d["id"], hasattr(a, "chunks"), hasattr(a, "zzz"), getattr(a, "zzz", 5), isinstance(a, Layer)
def f_obj4(i):
    return TileLayer(**Layer(name="q", id=i).__dict__, data=None).id
def f_obj5(i):
    a = Layer(name="n")
    a.zzz = i
    return a.zzz
def f_obj6(b):
    a = Layer(name="n")
    if b: a.id = 3
    c = copy.copy(a)
    c.id = 4
    return a.id
def f_obj7(i):
    return Layer(nme="x")
def f_obj8(i):
    a = Layer("nm", i)
    return a.name, a.opacity
def f_obj9(o):
    a = Layer("n")
    for k in ("id", "opacity"):
        if o is not None: setattr(a, k, o)
    return a.id, a.opacity
def f_obj10(b, i):
    a = Layer("n"); c = Layer("m")
    x = a if b else c
    x.id = i
    return a.id, c.id
def f_obj11(ys):
    out = []
    for y in ys:
        l = Layer("n"); l.id = y
        out.append(l)
    return [l.id for l in out]
def f_obj12(xs):
    l = Layer("n")
    out = []
    for y in xs:
        l.id = y
        out.append(l)
    return [l.id for l in out]
def f_obj13(n):
    out = []
    for k in range(n):
        l = Layer("n"); l.id = k
        out.append(l)
    for l in out:
        l.opacity = l.id + 1
    return [l.opacity for l in out]
def f_obj14(n):
    l = Layer("n")
    out = []
    for k in range(n):
        l.id = k
        out.append(l)
    return [l.id for l in out]
def f_obj15(n):
    l = Layer("n")
    for k in range(n):
        l.id = k
    return l.id
def f_obj16(n):
    l = Layer("n")
    l.properties = {}
    for k in range(n):
        l.properties["x"] = k
    return l.properties
def f_obj17(n, i):
    l = Layer("n"); l.tags = []
    for k in range(n):
        if k == i: l.tags.append(k)
    return l.tags
def f_pair(i, j):
    p = OrderedPair(i, j)
    return p.x, p.y, p[0], tuple(p), p == (i, j), p._replace(x=0), len(p), [*p]
def f_pair2(i):
    return OrderedPair(i)
def f_pair3(i):
    return OrderedPair(x=i, y=2)._asdict()
def f_pair4(i, j):
    a, b = OrderedPair(i, j)
    return a - b
def f_color(i):
    return Color(i, 1, 2, 3).alpha, Color(*[i, 1, 2], alpha=i)
def f_glob(i):
    return K["a"] + i, LST[0], len(LST)
def f_globmut(i):
    LST2 = list(LST)
    LST2.append(i)
    return LST2
def f_path1(b):
    p = Path("a/b.txt")
    return p.name, p.suffix, str(p.parent), p.stem
def f_path2(b):
    p = Path("x") / ("a" if b else "c")
    return str(p)
def f_etree1(b):
    e = etree.Element("t", {"a": "1"})
    if b: e.set("c", "2")
    return e.get("a"), e.attrib.get("c"), e.tag, e.find("q"), len(e), e.text
def f_etree2(b):
    e = etree.fromstring("<t a='1'><q z='3'/><q z='4'/><r>txt</r></t>")
    return [x.attrib["z"] for x in e.findall("q")], e.find("r").text, [x.tag for x in e]
def f_gen1(n):
    def g(m):
        for k in range(m):
            yield k
    return list(g(n)), [x for x in g(2)]
def f_gen2(n):
    g = (k for k in range(n))
    a = list(g)
    return a, list(g)
def f_gen3(ys):
    g = iter(ys)
    first = next(g, None)
    return first, list(g)
def f_gen4(ys):
    g = (y for y in ys if y > 0)
    for y in g:
        break
    return list(g)
def f_chain1(ys, xs):
    return list(itertools.chain(ys, xs))
def f_part(i):
    return functools.partial(max, 1)(i)
def f_itemgetter(d):
    return operator.itemgetter("z")(d)
def f_attrgetter(i):
    return operator.attrgetter("x")(OrderedPair(i, 2))
def f_zip1(ys, xs):
    return list(zip(ys, xs))
def f_enum1(xs):
    return [(a, b) for a, b in enumerate(xs, start=1)]
def f_enum2(ys):
    return [a for a, _ in enumerate(ys)]
def f_map1(ys):
    return list(map(str, ys)), [*map(lambda v: v + 1, ys)]
def f_str_ops(i):
    return ",".join([str(i), "b"]), f"{i}:{i}", str(i) + "x"
def f_str2(s):
    return s + "x" == "tilex", s.startswith("ti"), s.lower()
def f_str3(s):
    return s.upper() if s else "no"
def f_str4(s):
    return s == "tile" or s == "file", {"tile": 1}.get(s), s if s else None
def f_str5(s, t):
    return s == t, (s, t) == ("a", "a"), [s] == [t]
def f_str6(s, t):
    d = {}
    d[s] = 1
    d[t] = 2
    return d
def f_str7(s, t):
    d = {}
    d[s] = 1
    d[t] = 2
    return len(d), d[s]
def f_str8(s, t):
    d = {"a": 0}
    d[s] = 1
    return d["a"]
def f_str9(s, d):
    return d.get(s, "q")
def f_str10(s):
    try:
        return {"tile": 1}[s]
    except KeyError:
        raise ValueError("bad " + s)
def f_num1(u):
    return int(u)
def f_num2(u):
    return u + 1
def f_num3(b, i):
    return b + i, b * 2, i * b, int(b), float(b), -b
def f_num4(i, r):
    return i == r, i + r, min(i, r), max(i, r)
def f_num5(i):
    return i / 2, i // 2, i % 2, divmod(i, 3), round(i), abs(i), i ** 2 if False else 0
def f_num6(r):
    return r == int(r) if r >= 0 else None
def f_num7(i, j):
    return bool(i), bool(i and j), i or j, not i
def f_num8(n):
    return n & 0xF, n | 1 if False else 1, (n >> 1) << 1, ~n
def f_num9(i):
    return i & 0x80000000, i >> 2
def f_range_neg(i):
    return list(range(i)), list(range(1, i)), list(range(i, 5)), len(range(max(i, 0)))
def f_range_step(n):
    return list(range(0, n, 2)), [k for k in range(n)][::1]
def f_nest1(n, i):
    out = []
    for a in range(n):
        row = []
        for b in range(i):
            row.append(a * 10 + b)
        out.append(row)
    return out
def f_nest2(n, i):
    out = []
    for a in range(n):
        for b in range(i):
            out.append((a, b))
    return out
def f_nest3(n, i):
    out = []
    for a in range(n):
        if a == i: continue
        out.append([b for b in range(a)])
    return out
def f_nest4(n):
    out = []
    for a in range(n):
        out.append({"k": a, "v": []})
    for o in out:
        o["v"].append(o["k"])
    return out
def f_nest5(n, i):
    out = []
    for a in range(n):
        for b in range(3):
            if b == i: break
            out.append((a, b))
    return out
def f_nest6(n, i):
    for a in range(n):
        for b in range(3):
            if a == i and b == 1: return (a, b)
    return None
def f_dictloop(n, b):
    d = {}
    for k in range(n):
        if b: d[k] = []
        d.setdefault(k, []).append(1)
    return d
def f_dictloop2(n):
    d = {"n": 5}
    for k in range(n):
        d[str(k)] = k
    return d["n"]
def f_dictloop3(n):
    d = {}
    for k in range(n):
        d["x"] = k
    return d
def f_dictloop4(n, i):
    d = {}
    for k in range(n):
        d[i] = k
    return d
def f_dictloop5(n):
    d = {}
    for k in range(n):
        d[k // 2] = k
    return d
def f_dictloop6(n):
    return {k // 2: k for k in range(n)}
def f_dictloop7(n):
    return list({k // 2: k for k in range(n)})
def f_dictloop8(n):
    d = {k // 2: k for k in range(n)}
    return d.get(0), d.get(1)
def f_dictloop9(n, i):
    a = {k: "a" for k in range(n)}
    c = {k: "c" for k in range(i)}
    a.update(c)
    return a
def f_cond_append(ys, b):
    r = [0]
    if b:
        for y in ys: r.append(y)
    else:
        r = list(ys)
    return r
def f_reassign(n):
    out = []
    for k in range(n):
        k = k + 1
        out.append(k)
    return out
def f_shadow(n):
    k = "q"
    l = [k for k in range(n)]
    return k, l
def f_walrus2(ys):
    return [z for y in ys if (z := y + 1) > 1]
def f_while3(n):
    out = []
    k = 0
    while True:
        if k >= n: break
        out.append(k)
        k += 1
    return out
def f_while4(n):
    k = 0
    while k < n:
        k += 1
        if k == 3: break
    else:
        return "done", k
    return "brk", k
def f_while5(n):
    out = []
    k = 0
    while k < n:
        k += 1
        if k == 2: continue
        out.append(k)
    return out
def f_while6(n):
    out = []
    k = n
    while k > 0:
        k -= 1
        out.append(k)
    return out
def f_recur(n):
    def fac(m):
        return 1 if m <= 0 else m + fac(m - 1)
    return fac(3)
def f_star_kw(i):
    def g(**kw): return kw
    return g(a=i, **{"b": 2})
def f_kwonly(i):
    def g(a, *, b): return a - b
    return g(i, b=1), g(b=i, a=3)
def f_kwonly2(i):
    def g(a, *, b): return a - b
    return g(i, 1)
def f_toomany(i):
    def g(a): return a
    return g(i, 1)
def f_missing(i):
    def g(a, b): return a
    return g(i)
def f_del2(xs):
    y = xs
    del xs
    return y
def f_ifexp_exc(o):
    return 1 if o > 0 else 2
def f_and_exc(o):
    return o is not None and o > 0
def f_or_exc(o):
    return o is None or o > 0
def f_chaincmp(o, b):
    return b and 0 < o < 3
def f_chaincmp2(i, o):
    return i < 0 < o
def f_boolret(i, d):
    return i and d
def f_eqnone(o, s):
    return o == s, o != 1, s == 1, (o, s) == (1, "a")
def f_unioncond(u):
    if u == "tile": return 1
    if u == 2: return 2
    if not u: return 3
    return 4
def f_unionlist(u):
    l = [u, 2, "a"]
    return l.count(2) if False else (u in l, 2 in l, "zz" in l)
def f_unionin(u):
    return u in (2, "tile"), u in {"tile": 1}
def f_assertmsg(o):
    assert o, "must"
    return o
def f_ret_in_with(i):
    for k in (1, 2, 3):
        try:
            if k == i: return k
        except ValueError:
            pass
    return 0
def f_exc_loop(xs):
    out = []
    for x in xs:
        try:
            if x > 1: raise ValueError(x)
            out.append(x)
        except ValueError:
            out.append("e")
            continue
        out.append("ok")
    return out
def f_exc_loop2(n, i):
    out = []
    for x in range(n):
        try:
            if x == i: raise ValueError(x)
            out.append(x)
        except ValueError:
            out.append("e")
    return out
def f_exc_loop3(n, i):
    out = []
    try:
        for x in range(n):
            if x == i: raise ValueError(x)
            out.append(x)
    except ValueError:
        return "e"
    return out
def f_exc_args(i):
    try:
        raise ValueError("m", i)
    except ValueError as e:
        return e.args
def f_raise_reraise(i):
    try:
        raise KeyError("a")
    except KeyError as e:
        err = e
    if i > 0: raise err
    return 1
def f_subclass(i):
    try:
        {}[i]
    except LookupError:
        return "l"
def f_finally_ret(i):
    try:
        return 1
    finally:
        if i > 0: return 2
def f_finally_order(i):
    out = []
    try:
        try:
            if i: raise ValueError()
        finally:
            out.append("in")
    except ValueError:
        out.append("ex")
    return out
def f_listcopy(xs):
    y = xs.copy(); y[0] = 9
    z = list(xs); z[1] = 8
    return xs, y, z
def f_nestedlist_alias(n):
    row = [0]
    out = [row for _ in range(n)]
    row.append(1)
    return out
def f_idx_neg(xs):
    return xs[-3]
def f_idx_err(xs):
    return xs[3]
def f_slice_assign(xs):
    xs[:1] = []
    return xs
def f_sort(xs):
    xs.sort()
    return xs
def f_tuplecmp(i, j):
    return (i, j) < (1, 2), (i,) + (j,)
def f_intstr(i):
    return int(str(i)), str(i) == "3", str(i) in ("1", "2")
def f_intfloat(r):
    return int(r), str(int(r))
def f_numtext(i):
    return float(str(i)), int(" %d " % i)
def f_badint(s):
    return int(s)
def f_none_get(o):
    d = {"a": o}
    return d.get("a", 7), d["a"] or 3
def f_default_mut(d):
    l = d.get("q", [])
    l.append(1)
    return l, d
def f_setdef(d):
    l = d.setdefault("q", [])
    l.append(1)
    return d
def f_isint(u):
    return u + 1 if isinstance(u, int) else u
def f_type2(u):
    return type(u).__name__
def f_vars(i):
    return vars(Layer("n", i))["opacity"]
def f_any_gen(ys):
    return any(ys), all(ys), any(y > 1 for y in ys)
def f_sum_gen(xs):
    return sum(x for x in xs if x > 0)
def f_maxgen(xs):
    return max((x, 1) for x in xs) if False else max(x + 1 for x in xs)
def f_len_comp(ys):
    return len([y for y in ys if y])
def f_multi_assign(i):
    a = b, c = (i, 2)
    return a, b, c
def f_swap(xs):
    xs[0], xs[1] = xs[1], xs[0]
    return xs
def f_augdict(d):
    d["z"] += 1
    d["q"] = d["z"] * 2
    return d
def f_aug_list_alias(xs):
    y = xs
    y += [1]
    return xs
def f_aug_list_new(xs):
    y = xs
    y = y + [1]
    return xs
def f_bytes1(i):
    return b"ab"[0], b"ab" + b"c"
def f_dict_eq(d):
    return {"z": 1} == {"z": 1}, d is d
def f_dict_from_pairs(xs):
    return dict([(str(k), x) for k, x in enumerate(xs)])
def f_dict_nested_default(b):
    d = {}
    d.setdefault("a", {})["b"] = b
    return d
def f_in_values(d):
    return 1 in d.values()
def f_popitem(b):
    d = {"a": 1}
    return d.pop("a"), d.pop("b", 3), d
def f_unpack_dict(d):
    a = [*d]
    return a
def f_nested_fn(i):
    def outer(x):
        def inner(y):
            return x + y
        return inner
    return outer(i)(2)
def f_default_eval(i):
    def g(x=i + 1): return x
    return g(), g(5)
def f_lambda_default(n):
    return [f() for f in [lambda q=q: q for q in range(3)]]
def f_staticdict(s):
    table = {"tile": lambda: 1, "file": lambda: 2}
    fn = table.get(s)
    return fn() if fn else 0
def f_type_table(u):
    return {int: "i", str: "s"}[type(u)]
def f_cond_fn(b, i):
    f = abs if b else str
    return f(i)
def f_cond_fn2(b, i):
    def p(x): return x + 1
    def q(x): return x - 1
    return (p if b else q)(i)
def f_twice1(n):
    out = []
    for k in range(n):
        r = []
        out.append(r)
        out.append(r)
        r.append(k)
    return out
def f_twice2(n):
    out = []
    for k in range(n):
        r = []
        out.append(r)
        out.append(r)
    for x in out:
        x.append(1)
    return out
def f_twice3(n, i):
    out = []
    for k in range(n):
        if k == i: continue
        out.append(k)
        if k > i: out.append("big")
    return out
def f_last1(n, i):
    best, other = None, 5
    for k in range(n):
        if k < i:
            best, other = k, k + 1
    return best, other
def f_last2(n, i):
    for k in range(n):
        x = k * 2
        if x > i: continue
        y = x
    return y
def f_last3(n):
    best = -1
    for k in range(n):
        if k == 2: continue
        best = k
    return best
def f_last4(n, b):
    s = "none"
    for k in range(n):
        for j in range(2):
            s = j
        if b: s = "x"
    return s, j
def f_last5(n):
    best = None
    for a in range(n):
        for b in range(n):
            if a < b: best = (a, b)
    return best
def f_last6(ys):
    best = None
    for y in ys:
        if y > 0: best = y
    return best
def f_index1(ys, xs, i):
    return xs[i], xs[-2], xs[1:], xs[::2], xs[:-1], ys[1:]
def f_index2(n):
    x = [k + 1 for k in range(n)]
    return x[0], x[-1], x[2]
def f_index3(n):
    x = [k + 1 for k in range(n)][1:]
    return x, len(x), [y for y in x if y > 2], sum(1 for y in x)
def f_index4(n):
    x = [k + 1 for k in range(n)]
    out = []
    for a in x[2:]: out.append(a * 2)
    return out
def f_eq1(d, xs):
    return d == {"x": 1, "z": 2}, xs == [1, 2, 3], xs == [1], d == {}, [d] == [dict(d)]
def f_eq2(i, j):
    return [i, j] == [j, i], (i, [j]) == (j, [i]), {"a": i} != {"a": j}, [i] == (i,)

from typing import *
import contextlib, copy, functools, itertools, operator
from pytiled_parser.common_types import OrderedPair, Size
from pytiled_parser.layer import Layer, TileLayer
from pytiled_parser.tileset import Tile

def f_sl1(n, i):
    x = [k * 2 for k in range(n)]
    return x[:i], len(x[:2]), x[-2:], x[:-1]
def f_sl2(ys, i):
    return [y for y in ys[i:]], len(ys[:i])
def f_sl3(ys):
    out = []
    for y in ys[:2]: out.append(y + 1)
    for y in ys[-1:]: out.append(-y)
    return out
def f_sl4(n):
    x = [k for k in range(n)]
    return x[1:][1:], x[1:3][0:1], x[5:2]
def f_sl5(n):
    x = [k for k in range(n)]
    y = x[1:]
    y.append(99)
    return x, y
def f_sl6(ys):
    return ys[:1] + ys[1:], ys[:1] == ys
def f_zip2(ys, n):
    return list(zip(ys, ys)), dict(zip(range(n), range(n)))
def f_zip3(xs):
    return [(i, x) for i, x in zip(range(len(xs)), xs)]
def f_zip4(ys, i):
    out = {}
    for a, b in zip(ys, ys[1:]): out[a] = b
    return out
def f_join1(xs):
    return ",".join(str(x) for x in xs), "".join(["a", "b"]), "-".join([])
def f_join2(b):
    return ", ".join(("x", "y") if b else ("z",))
def f_nonlocal1(i):
    c = 0
    def add(k):
        nonlocal c
        c += k
        return c
    add(i)
    add(1)
    return c
def f_nonlocal2(xs):
    total = 0
    def visit(x):
        nonlocal total
        total = total + x
    for x in xs: visit(x)
    return total
def f_copy1(i):
    a = Layer(name="n", id=i)
    b = copy.copy(a)
    b.name = "m"
    return a.name, b.name, b.id
def f_copy2(xs):
    y = copy.copy(xs)
    y.append(1)
    return len(xs), len(y)
def f_copy3(d):
    e = copy.deepcopy(d)
    e["new"] = 1
    return d, e
def f_setdef1(xs):
    d = {}
    for x in xs: d.setdefault(x, []).append(x)
    return d
def f_setdef2(ys):
    d = {}
    for y in ys: d.setdefault(y, y * 2)
    return d
def f_walrus3(d):
    if (v := d.get("x")) is not None: return v
    return -1
def f_walrus4(xs):
    return [y for x in xs if (y := x * 2) > 2]
def f_suppress1(d):
    r = 0
    with contextlib.suppress(KeyError):
        r = d["x"]
    return r
def f_suppress2(d):
    r = []
    with contextlib.suppress(KeyError):
        r.append(1)
        r.append(d["nope"])
        r.append(2)
    return r
def f_suppress3(d):
    with contextlib.suppress(KeyError):
        return d["x"]
    return "none"
def f_try1(d):
    try:
        x = d["x"]
    except KeyError:
        pass
    else:
        return x
    return None
def f_try2(d, b):
    out = []
    try:
        if b: raise ValueError("a")
        out.append(d["x"])
    except (KeyError, ValueError) as e:
        out.append(type(e).__name__)
    finally:
        out.append("f")
    return out
def f_try3(xs, i):
    try:
        return xs[i]
    except IndexError:
        return "no"
def f_reduce1(xs):
    return functools.reduce(lambda a, b: a + b, xs, 0)
def f_reduce2(d):
    return functools.reduce(lambda acc, k: acc + [k], ["a", "b"], [])
def f_chunks1(n):
    data = [k for k in range(n)]
    return [data[i:i + 2] for i in range(0, len(data), 2)]
def f_chunks2(xs):
    it = iter(xs)
    return list(zip(*[it] * 2))
def f_update1(d, b):
    e = dict(d)
    e.update({"q": 1}, r=2)
    if b: e |= {"s": 3}
    return e
def f_update2(d):
    return {**d, "x": 9}, dict(d, x=9, y=1), {"x": 9, **d}
def f_update3(d):
    e = {k: v for k, v in d.items() if k != "x"}
    return e
def f_star1(xs):
    a, *rest = [1, 2, 3]
    return a, rest, [*rest, a], (*rest,)
def f_star2(i):
    def g(*args, **kw): return args, kw
    return g(i, *[1, 2], k=3, **{"z": 4})
def f_attrs1(i):
    p = OrderedPair(i, 2)
    return p.x, p[1], p._replace(x=5), p._asdict(), tuple(p), p == (i, 2), OrderedPair(*[1, 2])
def f_attrs2(i):
    s = Size(width=i, height=1)
    w, h = s
    return w * h, isinstance(s, tuple), len(s), s.__class__.__name__
def f_type1(i, b):
    v = i if b else "s"
    return type(v) is int, isinstance(v, (str, bytes)), type(v).__name__
def f_bool1(i, d):
    return bool(i), bool(d), not i, i and 5, i or 5, d or None
def f_bool2(i, j):
    return i < j <= 5, (i == j) is True, i != j, -i, +i, abs(i), divmod(7, 2), i // 2, i % 3
def f_default1(xs=None):
    xs = xs or []
    xs.append(1)
    return xs
def f_closure3(n):
    fs = {k: (lambda v, k=k: v + k) for k in (1, 2)}
    return fs[1](n), fs[2](n)
def f_closure4(b):
    f = int if b else float
    return f("3"), (str if b else repr)(4)
def f_while7(n):
    out = []
    while len(out) < n:
        out.append(len(out))
    return out
def f_while8(xs):
    xs = list(xs)
    out = []
    while xs:
        out.append(xs.pop(0))
    return out
def f_while9(n):
    i = n
    while i > 0:
        i -= 1
    return i
def f_enum1(ys):
    return {i: y for i, y in enumerate(ys)}, [i for i, _ in enumerate(ys, 1)]
def f_enum2(xs):
    for i, x in enumerate(xs):
        if x == 2: return i
    return None
def f_sorted1(xs):
    return sorted([3, 1, 2]), sorted({"b": 1, "a": 2})
def f_tern1(d, k):
    return d["x"] if "x" in d else k, d.get("x", k), d.get("x") or k
def f_in1(d, i):
    return "x" in d, i in (1, 2), i not in [3], "a" in "cat", i in {1: 2}
def f_nest1(xs):
    return [[x, y] for x in xs for y in xs if x != y], {x: [y for y in xs] for x in xs}
def f_nest2(ys):
    out = []
    for a in ys:
        row = []
        for b in ys: row.append(a * b)
        out.append(row)
    return out
def f_ret1(ys):
    for y in ys:
        if y > 3: return y
    else:
        return None
def f_del1(d):
    e = dict(d)
    e.pop("x", None)
    del e["nope"]
    return e
def f_del2(d):
    e = {"x": 1, "y": 2}
    del e["x"]
    return e, len(e)
def f_assert1(i):
    assert i < 4, "big"
    return i
def f_fmt1(i):
    return f"{i}", f"a{i}b{i}", "%d" % i, str(i) + "!", "{}".format(i)
def f_cmp1(i, j):
    return max(i, j), min(i, j, 0), max([i, j, 1]), sum([i, j])
def f_any1(ys):
    return any(y > 2 for y in ys), all(y < 9 for y in ys), [y for y in ys].count(1)
def f_idx1(xs, i):
    return i in xs, [1, 2, 3].index(2), xs.index(xs[0])
def f_ext1(xs, ys):
    out = list(ys)
    out.extend(y + 1 for y in ys)
    out += xs
    out.insert(0, 7)
    return out
def f_rev1(xs, ys):
    return list(reversed(xs)), xs[::-1], list(reversed([y for y in ys]))
def f_gen5(ys):
    def g():
        for y in ys:
            if y: yield y
        yield 0
    return list(g()), next(g())
def f_gen6(xs):
    def g():
        yield from xs
        yield from (x + 1 for x in xs)
    return tuple(g())
def f_cls1(i):
    t = Tile(id=i)
    t2 = Tile(id=i, properties={"a": 1})
    return t.animation, t2.properties, t == Tile(id=i), t != t2, t.image_width
def f_dictcmp(d):
    return d == {}, len(d), list(d.keys()) == list(d), sum(1 for _ in d)
def f_swap(i, j):
    i, j = j, i
    a = b = i
    a += 1
    return i, j, a, b
def f_aug(xs):
    y = xs
    y += [5]
    z = xs
    z = z + [6]
    return xs, y, z
def f_opt1(d):
    return Layer(name="n", **{k: v for k, v in {"id": d.get("x"), "opacity": d.get("y")}.items() if v is not None}).id
def f_opt2(d):
    def g(x=3, *, y=4): return x, y
    kw = {}
    if "x" in d: kw["x"] = d["x"]
    if "y" in d: kw["y"] = d["y"]
    return g(**kw)
def f_opt3(d):
    def g(x, y=4): return x, y
    kw = {}
    if "x" in d: kw["x"] = d["x"]
    return g(**kw)
def f_opt4(d):
    def g(x, y=4): return x, y
    kw = {}
    if "y" in d: kw["y"] = d["y"]
    return g(1, **kw), g(*[1, 2], **kw)
def f_opt5(d):
    kw = {}
    if "x" in d: kw["id"] = d["x"]
    if "y" in d: kw["name"] = "q"
    return Layer(**kw).id
def f_opt6(d):
    def g(x=1): return x
    kw = {}
    if "y" in d: kw["y"] = d["y"]
    return g(**kw)
def f_opt7(d):
    kw = {}
    if "x" in d: kw["z"] = 1
    return dict(a=1, **kw)
TABLE = {
    "a": lambda v: v + 1,
    "b": lambda v: v - 1,
}
def f_lam_table(i): return TABLE["a"](i), TABLE.get("b", abs)(i)

from typing import *
from collections import namedtuple, OrderedDict, defaultdict
import itertools, functools, operator

def f_try1(i):
    try:
        x = 10 // i if False else {1: 'a', 2: 'b'}[i]
    except KeyError as e:
        x = "none"
    return x
def helper(i):
    q = i + 1
    if i > 2:
        raise ValueError("big")
    return q
def f_try2(i, b):
    q = 7
    try:
        v = helper(i)
    except ValueError as error:
        if b:
            raise
        v = q
    else:
        v += 100
    return v, q
def f_try3(i):
    out = []
    try:
        out.append(1)
        helper(i)
        out.append(2)
    except (KeyError, ValueError):
        out.append(3)
    finally:
        out.append(4)
    return out
def f_try4(i):
    out = []
    def g():
        try:
            if i > 1:
                return "early"
            helper(i)
        finally:
            out.append("f")
        return "late"
    return g(), out
def f_try5(i, b):
    try:
        try:
            helper(i)
            if b:
                raise KeyError("k")
        except KeyError:
            raise TypeError("t")
    except TypeError:
        return 1
    except Exception:
        return 2
    return 3
def f_try6(i, b):
    x = 0
    try:
        x = 1
        helper(i)
        x = 2
        if b: raise KeyError(1)
        x = 3
    except LookupError:
        x += 10
    except ValueError:
        x += 20
    return x
def f_exc_from(i):
    try:
        helper(i)
    except ValueError as e:
        raise KeyError("x") from e
    return 0
def f_exc_none(i):
    try:
        return helper(i)
    except ValueError:
        return None
def f_if1(i, b):
    if b and i > 0: r = "a"
    elif not b or i < 0: r = "b"
    else: r = "c"
    return r
def f_bool1(o, i):
    return o or i
def f_bool2(o, i):
    return o and i
def f_bool3(o, s):
    return bool(o), bool(s), not s, (s or "default")
def f_cmp1(i, j):
    return i < j, i <= j, i == j, i != j, i >= j, i > j, 0 <= i < 3
def f_is(o):
    return o is None, o is not None, o == None
def f_in1(s):
    return s in ("tile", "file"), s not in ["a"], s in {"": 1}
def f_dict1(d):
    return d.get("x"), d.get("x", 5), "x" in d, d["z"]
def f_dict2(d):
    return d["x"]
def f_dict3(d):
    d["x"] = 9
    d.setdefault("y", 4)
    return d
def f_dict4(d):
    return d.pop("x", None), d
def f_dict5(d):
    return d.pop("x")
def f_dict6(d):
    return [k for k in d], list(d.values()), list(d.items()), len(d)
def f_dict7(d):
    e = dict(d)
    e["w"] = 1
    return e, d
def f_dict8(d):
    e = {**d, "x": 0}
    return e
def f_dict9(d):
    e = {"x": 1, "q": 2}
    e.update(d)
    return e
def f_dict10(d):
    e = {"x": 1, "q": 2}
    e.update(x=5, **d) if False else e.update({"x": d["z"]})
    return e
def f_dict11(d):
    if "x" in d:
        del d["x"]
    return d
def f_dict12(d):
    return {k: v + 1 for k, v in d.items()}
def f_dict13(d):
    return {k: v for k, v in d.items() if v > 0}
def f_dict14(d):
    out = {}
    for k, v in d.items():
        if k == "x": continue
        out[k] = v
    return out
def f_dict15(d):
    e = d.copy()
    e["z"] = 77
    return d["z"], e["z"]
def f_dict16(d):
    return d | {"x": 1}
def f_dict17(d):
    return d == {"z": 1}
def f_dict18(d):
    try:
        v = d["x"]
    except KeyError:
        v = -5
    return v
def f_dict19(d, s):
    return d.get(s), s in d
def f_dict20(d, s):
    d[s] = 3
    return d
def f_dict21(d, s):
    return d[s]
def f_dict22(s):
    return {"tile": 1, "file": 2, "a": 3}.get(s, 0)
def f_dict23(s):
    return {"tile": 1, "file": 2, "a": 3}[s]
def f_list1(xs):
    xs.append(4)
    return xs, len(xs)
def f_list2(xs):
    return xs[0], xs[-1], xs[1:], xs[:2], xs[::-1]
def f_list3(xs):
    xs[1] = 5
    return xs
def f_list4(xs, i):
    return xs + [i], [i] * 2
def f_list5(ys):
    return len(ys), bool(ys), list(ys)
def f_list6(ys):
    t = 0
    for y in ys: t += y
    return t
def f_list7(ys):
    return [y * 2 for y in ys if y > 0]
def f_list8(ys):
    for y in ys:
        if y > 1: return y
    return None
def f_list9(ys):
    for y in ys:
        if y > 1: break
    else:
        return "none"
    return y
def f_list10(ys):
    out = []
    for k, y in enumerate(ys):
        out.append((k, y))
    return out
def f_list11(xs):
    return list(zip(xs, ["a", "b", "c"])), list(reversed(xs)), sum(xs)
def f_list12(xs, i):
    return i in xs, xs.count(i) if False else 0
def f_list13(xs):
    xs.insert(0, 1)
    return xs
def f_list14(xs):
    return xs.pop(), xs
def f_list15(xs):
    xs.extend([1, 2]); xs += [3]
    return xs
def f_list16(xs):
    a = xs
    a.append(1)
    b = xs[:]
    b.append(2)
    return xs, a, b
def f_list17(xs):
    a, *b = xs
    return a, b
def f_list18(xs):
    a, b, c = xs
    return (c, b, a)
def f_list19(ys):
    a, b = ys
    return a, b
def f_list20(xs):
    return max(xs), min(xs), any(x > 2 for x in xs), all(x > -1 for x in xs)
def f_list21(ys):
    return max(ys, default=0)
def f_list22(ys):
    return max(ys)
def f_list23(ys):
    return ys[0]
def f_list24(ys):
    return next((y for y in ys if y > 1), None)
def f_list25(ys):
    return next(y for y in ys if y > 1)
def f_list26(ys):
    return ys[-1]
def f_list27(ys):
    it = iter(ys)
    return next(it, None), next(it, None)
def f_list28(xs, i):
    return xs[i]
def f_list29(xs):
    del xs[0]
    return xs
def f_list30(xs):
    xs.clear()
    return xs
def f_list31(xs):
    return [x for x in xs if x][:1]
def f_list32(ys):
    return [y for y in ys][:2]
def f_list33(ys):
    out = [[] for _ in range(2)]
    for y in ys:
        out[y > 0].append(y)
    return out
def f_range1(n):
    return [k * 2 for k in range(n)]
def f_range2(n):
    out = []
    for k in range(n):
        if k % 2 == 0: out.append(k)
    return out
def f_range3(n, i):
    t = []
    for k in range(n):
        if k == i: continue
        t.append((k, i))
    return t
def f_range4(n):
    t = 0
    for k in range(n): t += 1
    return t
def f_range5(n):
    t = 0
    for k in range(n): t += k
    return t
def f_range6(n, i):
    for k in range(n):
        if k == i: return k
    return -1
def f_range7(n, i):
    for k in range(n):
        if k == i: break
    else:
        return "no"
    return "yes"
def f_range8(n):
    return {k: k + 1 for k in range(n)}
def f_range9(n):
    d = {}
    for k in range(n): d[k] = k * k
    return d
def f_range10(n, i):
    return [(a, b) for a in range(n) for b in range(i) if a != b]
def f_range11(n):
    last = None
    for k in range(n): last = k
    return last
def f_range12(n, b):
    out = []
    for k in range(n):
        if b: out.append(k)
        else: out.append(-k)
    return out
def f_range13(n):
    out = []
    for k in range(n):
        out.append(1)
        out.append(k)
    return out
def f_range14(n):
    flag = False
    for k in range(n):
        flag = True
    return flag
def f_range15(n, i):
    found = False
    for k in range(n):
        if k == i:
            found = True
    return found
def f_range16(n):
    v = 0
    while v < n:
        v += 1
    return v
def f_range17(n):
    out = []
    v = 0
    while v < n:
        out.append(v)
        v += 2
    return out, v
def f_range18(n):
    try:
        for k in range(n):
            if k == 3: raise ValueError()
    except ValueError:
        return "err"
    return "ok"
def f_range19(n):
    return len([k for k in range(n)]), sum(1 for k in range(n))
def f_range20(n):
    return list(map(lambda k: k + 1, range(n))), list(filter(None, range(n)))
def f_range21(n):
    return list(enumerate(range(n), 1))
def f_range22(n):
    x = [k for k in range(n)]
    x.append(9)
    return x[-1], x
def f_range23(n):
    x = [k for k in range(n)]
    return x[0]
def f_range24(n):
    x = [k for k in range(n)]
    return x[-1] if x else None
def f_range25(n, i):
    return i in [k for k in range(n)]
def f_range26(n, i):
    return i in {k: 1 for k in range(n)}
def f_range27(n):
    return max([k for k in range(n)], default=-1)
def f_range28(n, i):
    return any(k == i for k in range(n)), all(k != i for k in range(n))
def f_range29(n, i):
    return next((k for k in range(n) if k > i), None)
def f_range30(n, i):
    d = {k: k + 5 for k in range(n)}
    return d.get(i)
def f_range31(n, i):
    d = {k: k + 5 for k in range(n)}
    d[i] = 0
    return d
def f_range32(n, i):
    d = {k: k + 5 for k in range(n)}
    return d[i]
def f_range33(n, i):
    a = [k for k in range(n)]
    b = a
    for k in range(i):
        b.append(k)
    return a
def f_range34(n):
    for k in range(n):
        pass
    return k
def f_range35(n, i):
    k = 99
    for k in range(n):
        if k == i: break
    return k
def f_range36(n):
    return [x for k in range(n) for x in (k, -k)]
def f_range37(n):
    def gen():
        for k in range(n):
            yield k
            if k == 1:
                yield 100
    return list(gen())
def f_range38(n):
    def gen():
        if n > 2:
            return
        yield n
        yield from range(n)
    return list(gen())
def f_closure(i):
    fs = []
    for k in range(3):
        fs.append(lambda: k + i)
    return [f() for f in fs]
def f_closure2(i):
    def g(a, b=i):
        return a + b
    i = 100
    return g(1)
def f_closure3(i):
    x = 1
    def g():
        return x + i
    x = 5
    return g()
def f_nonlocal(i):
    x = 0
    def g():
        nonlocal x
        x += i
    g(); g()
    return x
def f_args(i, j):
    def g(a, *b, c=3, **d):
        return (a, b, c, d)
    return g(i, j, 4, c=5, e=6), g(*[1, 2], **{"c": i}), g(i)
def f_mutdef(i):
    def g(a=[]):
        a.append(i)
        return a
    g()
    return g()
def f_chain(i, b):
    x = y = [i]
    x.append(1)
    return y
def f_unpack(i, j):
    a, (b, c) = i, (j, 5)
    a, b = b, a
    return a, b, c
def f_aug(xs, i):
    xs[0] += i
    d = {"k": i}
    d["k"] -= 3
    return xs, d
def f_tern(o):
    return o if o is not None else "none"
def f_walrus(d):
    if (v := d.get("x")) is not None:
        return v
    return "no"
def f_div(i, j):
    return i // 2, i % 3, -i, abs(j), i * 2 - j
def f_div2(i):
    return (i // -2, i % -3)
def f_divzero(i, j):
    return i // j
def f_modzero(i, j):
    return i % j
def f_bits(n):
    return n << 2, n & 1, n | 8, n >> 1, n ^ 3
def f_float(r, i):
    return r + 1, r * 2, r / 2, i / 2, r > i, float(i)
def f_int(r):
    return int(r)
def f_round(r):
    return round(r)
def f_isinst(u):
    return isinstance(u, int), isinstance(u, str), isinstance(u, (str, type(None)))
def f_isinst2(b, i):
    return isinstance(b, bool), isinstance(b, int), isinstance(i, bool), isinstance(i, float)
def f_type(u):
    return type(u) is str, type(u) == int
def f_str1(i):
    return str(i), f"{i}", "%d" % i
def f_str2(s):
    return s == "tile", s != "a", len("abc"), "abc".upper()
def f_int2(o):
    return int(o)
def f_add_none(o, i):
    return o + i
def f_cmp_none(o, i):
    return o < i
def f_attr_none(o):
    return o.foo
def f_index_none(o):
    return o["x"]
def f_iter_none(o):
    return [x for x in o]
def f_call_none(o):
    return o()
def f_tuple(i, j):
    t = (i, j)
    return t[0], t[1:], t + (1,), len(t), t == (1, 2), i in t
def f_sorted(xs):
    return sorted(xs)
def f_set(i):
    s = {1, 2}
    return i in s, len(s)
def f_nested(i, b):
    out = {"a": {"b": [i]}}
    out["a"]["b"].append(2)
    if b: out["a"]["c"] = 1
    return out
def f_alias(b):
    x = [1]; y = [2]
    z = x if b else y
    z.append(3)
    return x, y, z
def f_alias2(b):
    x = {"k": 1}; y = {"k": 2}
    z = x if b else y
    z["k"] = 5
    return x, y
def f_alias3(b, c):
    x = [1]
    l = [x]
    if b: l.append(x)
    if c: l[0].append(7)
    return l
def f_eqlist(xs, i):
    return xs == [1, 2, 3], xs == [i, i, i], xs != []
def f_assert(i):
    assert i > 0, "neg"
    return i
def f_raisecls(i):
    if i > 0: raise ValueError
    if i < 0: raise NotImplementedError("x")
    return 0
def f_del(i):
    x = i
    del x
    return x
def f_unbound(b):
    if b: x = 1
    return x
def f_unbound2(b):
    try:
        if b: raise ValueError
        x = 1
    except ValueError:
        pass
    return x
def f_loopif(ys):
    r = []
    for y in ys:
        if y < 0: continue
        if y > 2: break
        r.append(y)
    return r
def f_loopwhile(i):
    out = []
    while i > 0:
        out.append(i)
        i -= 1
    return out
def f_while2(xs):
    out = []
    while xs:
        out.append(xs.pop())
    return out
def f_strjoin(b):
    parts = ["a"]
    if b: parts.append("b")
    return "-".join(parts)
def f_namedtuple(i, j):
    P = namedtuple("P", "x y")
    p = P(i, j)
    return p.x, p[1], p._replace(x=3).x, p == (i, j)
def f_zipdict(xs):
    return dict(zip(("a", "b", "c"), xs))
def f_dictfromlist(xs):
    return dict([("a", xs[0]), ("b", xs[1])])
def f_dictkw(i):
    return dict(a=i, b=2)
def f_fromkeys(i):
    return dict.fromkeys(["a", "b"], i)
def f_getitemdefault(d):
    for k in ("x", "y"):
        if k not in d:
            d[k] = 0
    return d["x"] + d["y"]
def f_anyorder(d):
    return next(iter(d))
def f_lambda(i):
    return (lambda a, b=2: a * b)(i)
def f_star(xs):
    return [*xs, 1, *xs]
def f_starmap(xs):
    return max(*xs), (lambda a, b, c: a - b + c)(*xs)
def f_global():
    return helper(1)
def f_matchstmt(s, i):
    match s:
        case "tile" | "file": return 1
        case "a" if i > 0: return 2
        case "": return 3
        case _: return 4
def f_match2(u):
    match u:
        case int(): return "int"
        case str() as t: return t
def f_match3(i, j):
    match (i, j):
        case (0, 0): return "o"
        case (0, y): return y
        case (x, 0): return x
        case _: return None
def f_match4(o):
    match o:
        case None: return "n"
        case 1: return "one"
        case x: return x
def f_condexpr(i):
    return "neg" if i < 0 else "zero" if i == 0 else "pos"
def f_setattr(i):
    class_ = type("X", (), {}) if False else None
    return class_
def f_bytes(i):
    return bytes([1, 2, 3])[1], len(b"abc")
def f_divmod(n):
    return divmod(n, 2)
def f_pow(n):
    return n ** 2, 2 ** 3
def f_listmul(i):
    x = [[0] * 2] * 2
    x[0][0] = i
    return x
def f_maxkey(d):
    return max(d.items(), key=lambda kv: kv[1])
def f_updcomp(n):
    d = {}
    for k in range(n):
        d.update({k: 1})
    return d
def f_slices(n):
    x = [k for k in range(n)]
    return x[1:], x[:1], x[:-1]
def f_loopslice(ys):
    out = []
    for y in ys[1:]: out.append(y)
    return out

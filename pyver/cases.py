"""Concrete contract checks per property: the executable contracts against the real code.

They validate the specification and the models of the deductive part on every run, search
for failing inputs when an obligation is refuted, and stand in (bounded, labelled so) for
obligations outside the verifier's reach.
"""
import json
import os
import random
import re
import string

from . import docs, gen
from .conc import (numlike, ROOT, CM, CDoc, P, bundle_map, canon, color_spec, diff, expect_map, json_text, map_objects, overlaps,
                   render, walk_layers, xml_text)
from .gen import COLOR, HEX


class Case:
    """Worker jobs and a judge of their results; `label` says what is varied."""

    def __init__(self, jobs, judge, label):
        self.jobs, self.judge, self.label = jobs, judge, label


class Problem:
    def __init__(self, what, job, expected=None, actual=None):
        self.what, self.job, self.expected, self.actual = what, job, expected, actual


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x if x is None or isinstance(x, (bool, int, float, str)) else "<ref>"


def fail_text(r):
    return "raised %s: %s (at %s)" % (r.get("exc"), r.get("msg"), ",".join(r.get("where") or []))


def path_root(job):
    return job["arg"] if job.get("relative") else ROOT + "/" + job["arg"]


# ------------------------------------------------------------------ whole map documents
def judge_map(d, fmt, job, r, keep, strict_names=False):
    """Compares one real result with the specification; `keep(path, tags)` selects."""
    if r.get("worker_error"):
        raise RuntimeError("worker: " + r["worker_error"] + r.get("tb", ""))
    if not r["ok"]:
        return [Problem("a valid %s map %s" % (fmt.upper(), fail_text(r)), job)]
    act = r["value"]
    if not (isinstance(act, dict) and act.get("$") == "TiledMap"):
        return [Problem("parse_map did not return a TiledMap", job, None, act)]
    out = []
    try:
        acts = act["f"]["tilesets"]["$dict"]
        names = {t["f"]["name"]: g for g, t in acts}
    except (KeyError, TypeError):
        return [Problem("TiledMap.tilesets is not a dictionary of tilesets", job)]
    CM.cwd = ROOT + "/" + job.get("cwd", "")
    exp, own = expect_map(d, fmt, path_root(job), lambda name, _: names.get(name, -1))
    CM.cwd = ROOT
    for path, tags, e, a in diff(plain(exp), act):
        if keep(path, tags):
            out.append(Problem("%s: expected %.200r, got %.200r" % (path, e, a), job, e, a))
    if keep("tilesets", {"C15"}):
        try:
            if len(acts) > own or len(exp["f"]["tilesets"]["$dict"]) > own:
                for a, b in overlaps(acts):
                    out.append(Problem("gid ranges overlap: %r and %r" % (a, b), job))
        except (KeyError, TypeError) as e:
            out.append(Problem("tilesets cannot be read: %r" % e, job))
    return out


def map_case(d, keep, label, fmts=("json", "tmx"), rel=None, relative=False, cwd=None, ext=None):
    jobs, meta = [], []
    for fmt in fmts:
        d.ch.shared["fmt"] = fmt
        name = (rel or "p/q/maps/level") + ("." + fmt if ext is None else ext)
        b = bundle_map(d, fmt, name)
        job = dict(files=b.files, call="parse_map", arg=name)
        if relative:
            job["relative"] = True
            if cwd is not None:
                job["cwd"] = cwd
                job["arg"] = name[len(cwd) + 1:] if cwd else name
        jobs.append(job)
        meta.append(fmt)
        if len(b.files) > 1 and d.ch.rng.random() < 0.3:
            decoys(d.ch.rng, job)

    def judge(rs):
        out = []
        for fmt, job, r in zip(meta, jobs, rs):
            out += judge_map(d, fmt, job, r, keep)
        return out
    return Case(jobs, judge, label)


def has_tag(*want):
    return lambda path, tags: bool(set(want) & set(tags))


def mk(rng, vary, lengths=None, fix=None, **kw):
    ch = gen.Chooser(rng, vary=vary, lengths=lengths, fix=fix, **kw)
    return CDoc("Map", "m", ch)


L1 = {("Map", "layers"): (1, 2)}


def all_owners(rng):
    """A document shape in which every kind of property and color owner occurs."""
    return {("Map", "layers"): (2, 4), ("Map", "tilesets"): (1, 2), ("Layer", "layers"): (0, 2),
            ("Layer", "objects"): (1, 2), ("Tileset", "tiles"): (1, 2), ("Tileset", "wangsets"): (0, 1),
            ("WangSet", "colors"): (1, 2), ("WangSet", "wangtiles"): (0, 1)}


def broad(rng, n, keep, legacy=True, again=False):
    """Whole maps in which everything varies at once (small numbers of everything)."""
    for i in range(n):
        lengths = {("Map", "layers"): (0, 3), ("Map", "tilesets"): (0, 2), ("Layer", "layers"): (0, 2),
                   ("Layer", "objects"): (0, 3), ("Layer", "chunks"): (0, 2), ("Tileset", "tiles"): (1, 3),
                   ("Object", "points"): (1, 4), ("Tileset", "wangsets"): (0, 2), ("WangSet", "colors"): (0, 2),
                   ("WangSet", "wangtiles"): (0, 2), ("Tile", "animation"): (0, 2)}
        pools = [None, {"templates": 3, "tilesets": 2}][i % 2]
        ch = gen.Chooser(rng, vary=[("*", "*"), "flags"], lengths=lengths, unique_names=True,
                         p_has=rng.choice([0.2, 0.5, 0.8]), max_depth=2, pools=pools,
                         fix={("*", "legacyprops"): False} if pools else {})
        ch.template_fmt = "same"
        yield map_case(CDoc("Map", "m", ch), keep, "everything at once")


MANY = [("Map", "layers"), ("Map", "tilesets"), ("Layer", "objects"), ("Layer", "layers"), ("Layer", "chunks"), ("Object", "points"),
        ("Tileset", "tiles"), ("Tile", "animation"), ("Tileset", "wangsets"), ("WangSet", "colors"), ("WangSet", "wangtiles"),
        ("*", "properties")]
KINDS = {"objects": "object", "layers": "group", "chunks": "tile", "points": "object", "properties": "object"}


def many(rng, keep, names, n=None):
    """One sequence of the document with several hundred elements, everything else small."""
    for ent, name in MANY:
        if name not in names or names[name] != ent:
            continue
        n = rng.choice([258, 271, 300])
        if name == "properties":
            owner = rng.choice(["Map", "Layer", "Object"])
            fix = {(owner, "len:properties"): n, (owner, "has:properties"): True, ("*", "legacyprops"): False}
        else:
            fix = {(ent, "len:" + name): n, (ent, "has:" + name): True}
        fix[("Map", "infinite")] = name == "chunks"
        if name == "layers" and ent == "Map":
            pass
        elif name in KINDS:
            fix[("Layer", "kind")] = lambda d, k=KINDS[name]: k if gen.depth(d) == 1 else "tile"
        if name == "chunks":
            fix[("Chunk", "width")], fix[("Chunk", "height")] = 1, 1
        if name == "points":
            fix[("Object", "kind")] = rng.choice(["polygon", "polyline"])
        for ent_, has in (("Tileset", "tiles"), ("Tileset", "wangsets"), ("Tile", "animation")):
            fix.setdefault((ent_, "has:" + has), True)
        ts = ent in ("Tileset", "Tile", "WangSet") or (ent, name) == ("Map", "tilesets")
        lengths = {("Map", "layers"): (0, 0) if ts else (1, 1), ("Map", "tilesets"): (1, 1) if ts else (0, 0),
                   ("Layer", "objects"): (1, 1), ("Tileset", "wangsets"): (1, 1), ("WangSet", "colors"): (1, 1),
                   ("WangSet", "wangtiles"): (1, 1), ("Layer", "chunks"): (1, 1), ("Layer", "layers"): (1, 1)}
        ch = gen.Chooser(rng, vary=[("Property", "*"), ("Frame", "*"), ("WangTile", "*"), ("Point", "*")] if name != "tilesets" else [],
                         lengths=lengths, unique_names=True, fix=fix)
        yield map_case(CDoc("Map", "m", ch), keep, "%d %s" % (n, name))


def _with(base, more):
    out = dict(base)
    out.update(more)
    return out


# ---------------------------------------------------------------------------- C01
def color_strings(rng, n):
    fixed = ["", "#", "##", "#12345", "#1234567", "12345", "1234567", "#123456", "123456", "#12345678", "12345678",
             "#GGGGGG", "#12345g", "+12345", "#+12345", "-12345", " 12345", "12345 ", "#1 2 3 ", "1_2_3_", "#1_2_3_4_",
             "0x1234", "#0x1234", "0X123456", "##123456", "#12#456", "#1234#6", "123456#", "#123456#", "#１２３４５６",
             "١٢٣٤٥٦", "#abcdef", "#ABCDEF", "#aAbBcCdD", "#ffffffff", "#00000000", "000000", "\n123456", "#12345\n",
             "#12345\u00b2", "rgb(1,2,3)", "red", "transparent", "#fff", "fff", "#ffff", "#123456789", "123456789",
             "#123456789a", "-1-1-1", "+1+1+1", "+1+1+1+1", "# 1 1 1", "#\t1\t1\t1", "1e1e1e", "#1E1e1E1e", "é12345",
             "#12345é", "0b0101", "0b010101", "0o1234", "#-0-0-0-0", "#1 1 1 1 ", "ff00ff#", "#ff00ff ", "00#112233",
             "00112233", "#00112233", "#ff010203", "80102030"]
    out = list(fixed)
    for _ in range(n):
        k = rng.random()
        if k < 0.45:
            t = "".join(rng.choice(HEX) for _ in range(rng.choice([6, 8])))
        elif k < 0.75:
            t = "".join(rng.choice(HEX) for _ in range(rng.choice([6, 8, 5, 7, 9, 6, 8])))
            i = rng.randrange(len(t))
            t = t[:i] + rng.choice(HEX + "gG_+- #xX\u0661\uff11\u00b2 z\n\x00") + t[i + 1:]
        else:
            t = "".join(rng.choice(HEX + "#gz ") for _ in range(rng.randint(0, 12)))
        out.append(rng.choice(["", "#", "#", "##" if rng.random() < 0.1 else ""]) + t)
    return out


def color_case(text):
    job = dict(call="parse_color", arg=text)

    def judge(rs):
        r, = rs
        e = color_spec(text)
        if e is None:
            if r["ok"]:
                return [Problem("color %r is malformed but was read as %r" % (text, r.get("value")), job)]
            if "ValueError" not in r.get("mro", []):
                return [Problem("color %r %s instead of ValueError" % (text, fail_text(r)), job)]
            return []
        if not r["ok"]:
            return [Problem("color %r %s" % (text, fail_text(r)), job)]
        e = canon(e)
        d = diff(e, r["value"])
        return [Problem("color %r: %s expected %r, got %r" % (text, p, x, a), job, e, r["value"]) for p, _, x, a in d]
    return Case([job], judge, "color string")


def c01(rng, n):
    for t in color_strings(rng, n * 4):
        yield color_case(t)
    for _ in range(n):
        d = mk(rng, ["colors", ("Layer", "kind"), ("Object", "kind"), ("Property", "ptype"), ("Layer", "properties"),
                     ("Object", "properties"), ("Tileset", "image"), ("Tileset", "wangsets"), ("Tileset", "tiles"),
                     ("Map", "properties"), ("Tileset", "properties"), ("Tile", "properties"),
                     ("WangColor", "properties"), ("TSRef", "source")],
               all_owners(rng), p_has=0.7, unique_names=True)
        yield map_case(d, has_tag("C01"), "color attributes")


# ---------------------------------------------------------------------------- C02, C03
def grid_docs(rng, n, storages):
    sizes = [(w, h) for w in range(1, 6) for h in range(1, 6)] + [
        (1, 17), (17, 1), (16, 16), (31, 3), (3, 40), (1, 300), (300, 1), (2, 257), (257, 2), (1, 1030), (70, 65)]
    for i in range(n):
        w, h = sizes[i % len(sizes)] if i < 2 * len(sizes) else (rng.randint(1, 20), rng.randint(1, 20))
        inf = rng.random() < 0.5
        fix = {("Layer", "kind"): "tile", ("Layer", "storage"): lambda d: rng.choice(storages),
               ("Layer", "has:chunks"): inf, ("Map", "infinite"): inf}
        if not inf:
            fix[("Layer", "width")], fix[("Layer", "height")] = w, h
        elif rng.random() < 0.7:
            fix[("Chunk", "width")], fix[("Chunk", "height")] = w, h
        yield mk(rng, [("Layer", "data"), ("Chunk", "*"), ("Layer", "j:encoding"), ("Layer", "j:compression"), ("Layer", "t:nodata"),
                       ("Layer", "startx")],
                 {("Map", "layers"): (1, 2), ("Layer", "chunks"): (0, 4)}, fix)


def c02(rng, n):
    for d in grid_docs(rng, n, ["plain"]):
        yield map_case(d, has_tag("C02"), "plain grids")
    yield from big_layers(rng, ["plain"])


def c03(rng, n):
    for d in grid_docs(rng, n, ["b64", "zlib", "gzip"]):
        yield map_case(d, has_tag("C02"), "encoded grids")
    yield from big_layers(rng, ["b64", "zlib", "gzip"])
    for comp in ["bogus", "lzma", "zstd", "ZLIB", "zlib ", "bz2", "Gzip", "none", "lz4", "csv", "0", "deflate"] + [
            "".join(rng.choice(string.ascii_lowercase) for _ in range(rng.randint(1, 6))) for _ in range(8)]:
        if comp in ("zlib", "gzip"):
            continue
        for payload in ("b64", "zlib", "gzip"):
            for chunked in (False, True):
                yield from bad_compression(rng, comp, payload, chunked)


def big_layers(rng, storages):
    """More than a megabyte of tile data."""
    for st in storages:
        d = mk(rng, [("Layer", "data")] if rng.random() < 0.3 else [], {("Map", "layers"): (1, 1)},
               {("Layer", "kind"): "tile", ("Layer", "storage"): st, ("Layer", "has:chunks"): False, ("Map", "infinite"): False,
                ("Layer", "width"): rng.choice([601, 530]), ("Layer", "height"): rng.choice([510, 520])})
        yield map_case(d, has_tag("C02"), "a large layer")


def bad_compression(rng, comp, payload, chunked):
    d = mk(rng, [("Layer", "data"), ("Chunk", "data")], {("Map", "layers"): (1, 1), ("Layer", "chunks"): (1, 2)},
           {("Layer", "kind"): "tile", ("Layer", "storage"): payload, ("Layer", "has:chunks"): chunked,
            "x": 1})
    layer = d.seq("layers")[0]
    raw = json.loads(json_text(docs.json_layer(layer)))
    raw["compression"], raw["encoding"] = comp, "base64"
    x = xml_text(docs.tmx_layer(layer), False)
    x = re.sub(r' compression="[a-z]*"', "", x).replace('encoding="base64"', 'encoding="base64" compression="%s"' % comp)
    jm = json.loads(json_text(docs.json_map(d)))
    jm["layers"] = [raw]
    xm = re.sub(r' compression="[a-z]*"', "", xml_text(docs.tmx_map(d))).replace(
        'encoding="base64"', 'encoding="base64" compression="%s"' % comp)
    jobs = [dict(call="layer_json", arg=raw), dict(call="layer_tmx", arg=x),
            dict(call="parse_map", arg="m.json", files={"m.json": json.dumps(jm)}),
            dict(call="parse_map", arg="m.tmx", files={"m.tmx": xm})]

    def judge(rs):
        out = []
        for i, (job, r) in enumerate(zip(jobs, rs)):
            if r["ok"]:
                out.append(Problem("compression %r was accepted and gave tiles" % comp, job))
            elif i < 2 and "ValueError" not in r.get("mro", []):
                out.append(Problem("compression %r %s instead of ValueError" % (comp, fail_text(r)), job))
        return out
    yield Case(jobs, judge, "unsupported compression")


# ---------------------------------------------------------------------------- C04 .. C09
def c04(rng, n):
    for i in range(n):
        d = mk(rng, [("Layer", "kind"), ("Tile", "objectgroup"), ("TSRef", "source"), ("Layer", "properties"),
                     ("Layer", "id"), ("Layer", "name"), ("Layer", "visible"), ("Layer", "opacity")],
               {("Map", "layers"): (0, 6), ("Layer", "layers"): (0, 4), ("Map", "tilesets"): (0, 1),
                ("Tileset", "tiles"): (1, 2), ("Layer", "objects"): (0, 1)},
               {("Tileset", "has:tiles"): True}, max_depth=rng.choice([2, 3, 4]))
        yield map_case(d, has_tag("C04"), "layer trees")
    yield from broad(rng, n // 3, has_tag("C04"))
    for deep in (9, 17, 40):
        d = mk(rng, [("Layer", "name")], {("Map", "layers"): (1, 1), ("Layer", "layers"): (1, 2)},
               {("Layer", "kind"): lambda x, deep=deep: "group" if gen.depth(x) < deep and x.index == 0 else "object",
                "x": 1}, max_depth=50)
        yield map_case(d, has_tag("C04"), "groups %d deep" % deep)
    yield from many(rng, has_tag("C04"), {"layers": "Map"})
    yield from many(rng, has_tag("C04"), {"layers": "Layer"})
    for bad in ["", "foo", "layer", "TileLayer", "tilelayers", "objects", "imagecollection", "Group", "objectlayer"]:
        for nested in (False, True):
            yield unknown_layer(rng, bad, nested)


def unknown_layer(rng, bad, nested):
    d = mk(rng, [], {("Map", "layers"): (2, 2), ("Layer", "layers"): (1, 1)},
           {("Layer", "kind"): lambda x: "group" if nested and gen.depth(x) == 1 else "tile"})
    m = json.loads(json_text(docs.json_map(d)))
    target = m["layers"][1]["layers"][0] if nested else m["layers"][1]
    target["type"] = bad
    job = dict(call="parse_map", arg="m.json", files={"m.json": json.dumps(m)})

    def judge(rs):
        r, = rs
        if r["ok"] or "RuntimeError" not in r.get("mro", []):
            return [Problem("a layer of type %r %s instead of RuntimeError" % (
                bad, "was accepted" if r["ok"] else fail_text(r)), job)]
        return []
    return Case([job], judge, "unknown layer type")


def c05(rng, n):
    for _ in range(n):
        d = mk(rng, [("Layer", "*"), "flags"],
               {("Map", "layers"): (1, 4), ("Layer", "layers"): (0, 2), ("Layer", "objects"): (0, 1)},
               {("Layer", "storage"): "plain"}, p_has=rng.choice([0.15, 0.5, 0.85]))
        yield map_case(d, has_tag("C05"), "layer attributes")
    yield from broad(rng, n // 3, has_tag("C05"))
    yield from many(rng, has_tag("C05"), {"chunks": "Layer"})


def c06(rng, n):
    for _ in range(n):
        d = mk(rng, [("Object", "*"), "flags", ("Tile", "objectgroup"), ("Layer", "kind")],
               {("Map", "layers"): (1, 2), ("Layer", "objects"): (0, 5), ("Layer", "layers"): (0, 2),
                ("Map", "tilesets"): (0, 1), ("Tileset", "tiles"): (1, 1)},
               {("Layer", "kind"): lambda d: "object" if gen.depth(d) > 1 or d.index == 0 else "group",
                ("Tileset", "has:tiles"): True}, p_has=rng.choice([0.15, 0.5, 0.85]))
        yield map_case(d, has_tag("C06"), "objects")
    yield from broad(rng, n // 3, has_tag("C06"))
    yield from many(rng, has_tag("C06"), {"objects": "Layer"})


def c07(rng, n):
    for _ in range(n):
        d = mk(rng, [("Object", "kind"), ("Object", "gid"), ("Point", "*"), ("Text", "*"), "flags"],
               {("Map", "layers"): (1, 1), ("Layer", "objects"): (1, 5), ("Object", "points"): (1, 6)},
               {("Layer", "kind"): "object"}, p_has=rng.choice([0.15, 0.5, 0.85]))
        yield map_case(d, has_tag("C07"), "points, texts, gids")
    yield from broad(rng, n // 3, has_tag("C07"))
    yield from many(rng, has_tag("C07"), {"points": "Object"})


def c08(rng, n):
    for _ in range(n):
        d = mk(rng, [("Property", "*"), "flags", ("Layer", "kind"), ("Object", "kind"), ("Layer", "properties"),
                     ("Object", "properties"), ("Map", "properties"), ("Tileset", "properties"), ("Tile", "properties"),
                     ("WangColor", "properties"), ("WangSet", "properties"), ("Tileset", "tiles"), ("Tile", "objectgroup"),
                     ("Tileset", "wangsets"), ("TSRef", "source")],
               _with(all_owners(rng), {(o, "properties"): (1, 5) for o in (
                   "Map", "Layer", "Object", "Tileset", "Tile", "WangSet", "WangColor")}),
               p_has=0.7, unique_names=True)
        yield map_case(d, has_tag("C08"), "custom properties")
    yield from broad(rng, n // 3, has_tag("C08"))
    for _ in range(2):
        yield from many(rng, has_tag("C08"), {"properties": "*"})


TS_VARY = [("Tileset", "*"), ("Tile", "*"), ("Frame", "*"), ("Grid", "*"), ("Pair", "*"), ("Transf", "*"), "flags"]


def ts_lengths(rng):
    return {("Map", "layers"): (0, 0), ("Map", "tilesets"): (1, 2), ("Tileset", "tiles"): (1, 5),
            ("Tile", "animation"): (0, 4), ("Layer", "objects"): (0, 2)}


def c09(rng, n):
    for i in range(n):
        d = mk(rng, TS_VARY + [("TSRef", "fmt"), ("TSRef", "source")], ts_lengths(rng),
               {("WangSet", "len:colors"): 0}, p_has=rng.choice([0.15, 0.5, 0.85]), unique_names=True)
        yield map_case(d, has_tag("C09"), "tilesets in maps")
        if i % 2 == 0:
            yield tileset_case(rng, TS_VARY, ts_lengths(rng), has_tag("C09"), "tilesets by themselves")
    yield from broad(rng, n // 3, has_tag("C09"))
    yield from many(rng, has_tag("C09"), {"tiles": "Tileset"})
    yield from many(rng, has_tag("C09"), {"animation": "Tile"})


def decoys(rng, job):
    """Places (under any directory of the job) where files called like the images and maps named in its
    documents may lie: which files exist must not matter for the paths in the result."""
    texts = [t for t in job["files"].values() if isinstance(t, str)]
    names = set()
    for t in texts:
        names |= set(re.findall(r'"(?:image|fileName|value|source|template)": "([^"]+)"', t)) | set(
            re.findall(r'(?:source|value|template)="([^"]+)"', t))
    if len(names) > 12:
        names = set(rng.sample(sorted(names), 12))
    dirs = {""}
    for f in job["files"]:
        while f:
            f = os.path.dirname(f)
            dirs.add(f)
    out = []
    for d in sorted(dirs):
        for n in sorted(names):
            for x in (n, os.path.basename(n)):
                if x and not os.path.isabs(x) and "\\" not in x and "&" not in x and rng.random() < 0.5:
                    out.append(os.path.join(d, x))
    job["decoys"] = out


def with_decoys(rng, case, p=0.5):
    for j in case.jobs:
        if rng.random() < p:
            decoys(rng, j)
    return case


def tileset_case(rng, vary, lengths, keep, label, p_has=None, ext=None):
    ch = gen.Chooser(rng, vary=vary, lengths=lengths, p_has=p_has or rng.choice([0.15, 0.5, 0.85]))
    t = CDoc("Tileset", "t", ch)
    jobs = []
    for fmt in ("json", "tmx"):
        name = "d/set." + fmt if ext is None else "d/set" + ext
        jobs.append(dict(call="parse_tileset", arg=name, files={name: render(t, fmt)}))

    def judge(rs):
        out = []
        for fmt, job, r in zip(("json", "tmx"), jobs, rs):
            if not r["ok"]:
                out.append(Problem("a valid %s tileset %s" % (fmt, fail_text(r)), job))
                continue
            e = plain(canon(docs.spec_tileset(t, fmt, 1, None)))
            for path, tags, x, a in diff(e, r["value"]):
                if keep(path, tags):
                    out.append(Problem("%s: expected %.200r, got %.200r" % (path, x, a), job, x, a))
        return out
    return Case(jobs, judge, label)


# ---------------------------------------------------------------------------- C10
def c10(rng, n):
    yield from broad(rng, n // 3, has_tag("C10"))
    vary = [("Tileset", "image"), ("Tile", "image"), ("Layer", "image"), ("Layer", "kind"), ("Property", "v_file"),
            ("Tileset", "tiles"), ("TSRef", "source"), ("TSRef", "fmt"), ("Layer", "properties")]
    lengths = {("Map", "layers"): (0, 3), ("Map", "tilesets"): (1, 3), ("Tileset", "tiles"): (1, 2),
               ("Layer", "layers"): (0, 1)}
    for i in range(n):
        d = mk(rng, vary, lengths, {("Property", "ptype"): "file"}, p_has=0.75, unique_names=True)
        where = rng.choice(["p/q/maps/level", "p/q/level", "a b/ü/x/level", "p/q/r/s/t/level"])
        mode = i % 4
        kw = {}
        if mode == 1:
            kw = dict(relative=True, cwd="")
        elif mode == 2:
            kw = dict(relative=True, cwd=where.split("/")[0])
        elif mode == 3:
            kw = dict(relative=True, cwd=where.rsplit("/", 1)[0])
        yield with_decoys(rng, map_case(d, has_tag("C10"), "paths", rel=where, **kw))
        if i % 4 == 0:
            yield with_decoys(rng, tileset_case(rng, vary, lengths, has_tag("C10"), "paths of a tileset by itself", 0.75))
        if i % 4 == 1:
            yield with_decoys(rng, world_case(rng, [("len", "maps")]))
    yield from symlink_cases(rng)
    yield from symlinked_template(rng)


def symlink_cases(rng):
    """The directory of the external tileset is reached through a symbolic link."""
    for fmt in ("json", "tmx"):
        d = mk(rng, [], {("Map", "tilesets"): (1, 1), ("Map", "layers"): (0, 0)},
               {("TSRef", "has:source"): True, ("TSRef", "source"): "link/ts.x", ("Tileset", "has:image"): True,
                ("Tileset", "image"): "../img/x.png", ("TSRef", "fmt"): fmt})
        b = bundle_map(d, fmt, "maps/level." + fmt)
        files = {("real/deep/ts.x" if k.endswith("ts.x") else k): v for k, v in b.files.items()}
        files["maps/link"] = {"link": "../real/deep"}
        job = dict(call="parse_map", arg="maps/level." + fmt, files=files)

        def judge(rs, job=job):
            r, = rs
            if not r["ok"]:
                return [Problem("a valid map %s" % fail_text(r), job)]
            got = r["value"]["f"]["tilesets"]["$dict"][0][1]["f"]["image"]
            want = {"$path": ROOT + "/real/img/x.png"}
            return [] if got == want else [Problem("image of a tileset behind a symbolic link: expected %r, got %r" % (
                want, got), job)]
        yield Case([job], judge, "symbolic links")


def symlinked_template(rng):
    """The template lies in a directory reached through a symbolic link."""
    want = {"$path": ROOT + "/real/img/x.png"}
    for fmt in ("json", "tmx"):
        if fmt == "json":
            m = {"type": "map", "version": "1.10", "tiledversion": "1.10", "orientation": "orthogonal", "renderorder": "right-down",
                 "width": 1, "height": 1, "tilewidth": 8, "tileheight": 8, "infinite": False, "nextlayerid": 2, "nextobjectid": 2,
                 "tilesets": [], "layers": [{"type": "objectgroup", "id": 1, "name": "o", "opacity": 1, "visible": True, "x": 0, "y": 0,
                                             "draworder": "topdown", "objects": [{"id": 1, "template": "link/t.json", "x": 3, "y": 4}]}]}
            ts = {"type": "tileset", "name": "s", "tilewidth": 8, "tileheight": 8, "tilecount": 1, "columns": 1, "margin": 0,
                  "spacing": 0, "image": "../img/%s.png", "imagewidth": 8, "imageheight": 8, "version": "1.10", "tiledversion": "1.10"}
            t = {"type": "template", "tileset": {"firstgid": 1, "source": "../ts/s.json"},
                 "object": {"gid": 1, "width": 8, "height": 8, "name": "n", "type": "", "rotation": 0, "visible": True, "id": 1}}
            m, t, a, b = json.dumps(m), json.dumps(t), json.dumps(ts) % "x", json.dumps(ts) % "y"
        else:
            m = ('<map version="1.10" tiledversion="1.10" orientation="orthogonal" renderorder="right-down" width="1" height="1" '
                 'tilewidth="8" tileheight="8" infinite="0" nextlayerid="2" nextobjectid="2"><objectgroup id="1" name="o">'
                 '<object id="1" template="link/t.tmx" x="3" y="4"/></objectgroup></map>')
            t = ('<template><tileset firstgid="1" source="../ts/s.tmx"/><object name="n" gid="1" width="8" height="8"/></template>')
            ts = ('<tileset version="1.10" tiledversion="1.10" name="s" tilewidth="8" tileheight="8" tilecount="1" columns="1">'
                  '<image source="../img/%s.png" width="8" height="8"/></tileset>')
            a, b = ts % "x", ts % "y"
        files = {"maps/level." + fmt: m, "real/deep/t." + fmt: t, "maps/link": {"link": "../real/deep"},
                 "maps/ts/s." + fmt: b, "real/ts/s." + fmt: a}
        job = dict(call="parse_map", arg="maps/level." + fmt, files=files)

        def judge(rs, job=job):
            r, = rs
            if not r["ok"]:
                return [Problem("a valid map %s" % fail_text(r), job)]
            got = [v["f"]["image"] for _, v in r["value"]["f"]["tilesets"]["$dict"]]
            return [] if got == [want] else [Problem("tileset of a template behind a symbolic link: expected image %r, got %r" % (
                want, got), job)]
        yield Case([job], judge, "symbolic links")


# ---------------------------------------------------------------------------- C11 .. C13
def c11(rng, n):
    vary = [("Tileset", "wangsets"), ("WangSet", "*"), ("WangColor", "*"), ("WangTile", "*"), "flags"]
    lengths = {("Map", "tilesets"): (1, 2), ("Map", "layers"): (0, 0), ("Tileset", "wangsets"): (0, 3),
               ("WangSet", "colors"): (0, 4), ("WangSet", "wangtiles"): (0, 5)}
    for i in range(n):
        d = mk(rng, vary + [("TSRef", "fmt"), ("TSRef", "source")], lengths, p_has=0.8, unique_names=True)
        yield map_case(d, has_tag("C11"), "wang sets")
        if i % 3 == 0:
            yield tileset_case(rng, vary, lengths, has_tag("C11"), "wang sets of a tileset by itself", 0.8)
    yield from broad(rng, n // 4, has_tag("C11"))
    yield from many(rng, has_tag("C11"), {"wangsets": "Tileset", "colors": "WangSet", "wangtiles": "WangSet"})


def c12(rng, n):
    for i in range(n):
        d = mk(rng, [("Map", "*"), "flags"], {("Map", "layers"): (0, 1), ("Map", "tilesets"): (0, 1)},
               p_has=rng.choice([0.15, 0.5, 0.85]))
        kw = dict(relative=True, cwd="p") if i % 5 == 0 else {}
        if i % 7 == 3:
            kw = dict(relative=True, rel=rng.choice(["~/level", "~", "$HOME/l", "b/../b/level", "./x/level", "%41", "x y/\u00e9"]))
        yield map_case(d, has_tag("C12"), "map attributes", **kw)
    yield from broad(rng, n // 4, has_tag("C12"))


def c13(rng, n):
    for i in range(n):
        d = mk(rng, [("TSRef", "*"), ("Tileset", "tilecount"), ("Tileset", "image"), ("Tileset", "tiles"), ("Tile", "id"),
                     ("Tile", "image"), ("Tileset", "name"), ("Tileset", "spacing"), ("Tileset", "grid")],
               {("Map", "layers"): (0, 1), ("Map", "tilesets"): (0, 5), ("Tileset", "tiles"): (1, 2)}, p_has=0.6,
               pools={"tilesets": 2, "again": 1} if i % 3 == 2 else None)
        where = rng.choice(["p/q/maps/level", "p/q/level", "a b/ü/x/level"])
        kw = dict(relative=True, cwd="p/q" if where.startswith("p/q") else "a b") if i % 4 == 0 else {}
        yield map_case(d, lambda path, tags: path.startswith("tilesets"), "tilesets of maps", rel=where, **kw)
    yield from many(rng, lambda path, tags: path.startswith("tilesets"), {"tilesets": "Map"})


# ---------------------------------------------------------------------------- C14, C15
TVARY = [("Object", "*"), ("Point", "*"), ("Text", "*"), ("Template", "source"), "flags", ("Property", "*")]


def template_doc(rng, vary, lengths, fix=None, pools=None, mix=False, p_has=None, depth=3):
    ch = gen.Chooser(rng, vary=vary, lengths=lengths, fix=_with({("*", "legacyprops"): False}, fix or {}),
                     pools=pools or {"templates": 3, "tilesets": 2}, p_has=p_has or rng.choice([0.3, 0.5, 0.8]),
                     unique_names=True, max_depth=depth)
    ch.mix_fmt = mix
    ch.template_fmt = "same"
    return CDoc("Map", "m", ch)


def in_objects(path, tags):
    return "tiled_objects" in path


def c14(rng, n):
    for i in range(n):
        deep = rng.choice([2, 2, 3, 5])
        wide = [("Layer", "*")] if i % 4 == 2 else []
        d = template_doc(rng, wide + TVARY + [("Template", "source"), ("Layer", "kind")],
                         {("Map", "layers"): (1, 2), ("Map", "tilesets"): (1, 2), ("Layer", "objects"): (1, 4),
                          ("Object", "points"): (1, 3), ("Object", "properties"): (1, 3), ("Layer", "layers"): (1, 2)},
                         {("Layer", "kind"): lambda d, deep=deep: "object" if gen.depth(d) >= deep or d.index == 0 else "group",
                          ("Tile", "has:x"): False})
        yield map_case(d, in_objects, "template instances")
    yield from template_errors(rng)


def template_errors(rng):
    tx = '<?xml version="1.0"?>\n<template><object name="t" width="3" height="4"/></template>'
    tj = json.dumps({"type": "template", "object": {"name": "t", "width": 3, "height": 4, "rotation": 0, "visible": True,
                                                    "id": 7, "type": "", "x": 0, "y": 0}})
    oj = {"id": 1, "x": 1, "y": 2, "template": "t.any"}
    ox = '<object id="1" x="1" y="2" template="t.any"/>'
    base = mk(rng, [], {("Map", "layers"): (1, 1), ("Layer", "objects"): (0, 0)}, {("Layer", "kind"): "object"})
    mj = json.loads(json_text(docs.json_map(base)))
    mj["layers"][0]["objects"] = [oj]
    mx = xml_text(docs.tmx_map(base))
    mx = re.sub(r"<objectgroup([^>]*)/>", lambda m: "<objectgroup%s>%s</objectgroup>" % (m.group(1), ox), mx)
    assert ox in mx
    jobs = [
        (dict(call="object_json", arg=oj, with_dir=False, files={"t.any": tj}), "RuntimeError"),
        (dict(call="object_tmx", arg=ox, with_dir=False, files={"t.any": tx}), "RuntimeError"),
        (dict(call="object_json", arg=oj, files={"t.any": tx}), "NotImplementedError"),
        (dict(call="object_tmx", arg=ox, files={"t.any": tj}), "NotImplementedError"),
        (dict(call="parse_map", arg="m.json", files={"m.json": json.dumps(mj), "t.any": tx}), "NotImplementedError"),
        (dict(call="parse_map", arg="m.tmx", files={"m.tmx": mx, "t.any": tj}), "NotImplementedError"),
    ]
    for job, want in jobs:
        def judge(rs, job=job, want=want):
            r, = rs
            # NotImplementedError is a RuntimeError; a missing directory is reported as RuntimeError itself
            if r["ok"] or want not in r.get("mro", []) or (want == "RuntimeError" and r["exc"] == "NotImplementedError"):
                return [Problem("expected %s, but it %s" % (want, "was accepted" if r["ok"] else fail_text(r)), job)]
            return []
        yield Case([job], judge, "template errors")


def c15(rng, n):
    for i in range(n + 6):
        # groups of any depth; sometimes anything about layers and objects varies; at the end there are many tilesets
        deep = rng.choice([3, 3, 4, 5, 8])
        wide = [("Layer", "*"), ("Object", "*"), ("Property", "*")] if i % 4 == 2 else []
        d = template_doc(rng, wide + [("Object", "kind"), ("Object", "gid"), ("Layer", "kind"), ("Template", "source"),
                               ("TSRef", "firstgid"), ("TSRef", "source"), ("Tileset", "tilecount"), ("Tileset", "name"),
                               ("Tileset", "tiles"), ("Tile", "id"), ("TSRef", "fmt"), ("Object", "template"),
                               ("Object", "i:gid"), ("Tileset", "image"), ("Tileset", "columns")],
                         {("Map", "layers"): (1, 3), ("Map", "tilesets"): (0, 3) if i < n else (65, rng.choice([70, 300])),
                          ("Layer", "objects"): (0, 4) if i < n else (2, 5),
                          ("Layer", "layers"): (0, 3) if deep < 5 else (0, 2), ("Tileset", "tiles"): (1, 3)},
                         {("Object", "kind"): lambda o: "tile" if o.parent is not None and o.parent.ent == "Template" or
                          rng.random() < 0.3 else "rectangle",
                          ("Layer", "kind"): lambda d: rng.choice(["object", "object", "group"]) if gen.depth(d) < deep else "object",
                          ("Object", "gid"): lambda o: rng.choice([1, 2, 3, 2 ** 31 + 1, 2 ** 29 + 2]) if o.parent is not None
                          and o.parent.ent == "Template" else rng.randint(1, 300)},
                         pools=_with({"templates": 4, "tilesets": 3}, {"reuse": 1} if i < n else {}), mix=i % 2 == 1, p_has=0.6)

        def keep(path, tags):
            return path.startswith("tilesets") or path.endswith("/gid") or "new_tileset" in path
        yield map_case(d, keep, "template tilesets", rel=rng.choice(["p/q/maps/level", "x/y/z/level"]))


# ---------------------------------------------------------------------------- C16
GARBAGE = ["", " ", "\n\n", "{", "{\"a\": 1", "not json", "[1, 2", "'quoted'", "version: 1", "{'a': 1}", "\x7fELF",
           "{\"a\": 1,}", "nul", "#comment", "1 2", "\"unterminated", "tmx", "{}{}", "%PDF-1.4", "a<b", "-", "key=value"]


def c16(rng, n):
    exts = [".tmx", ".json", ".tmj", ".tsx", ".tsj", ".xml", "", ".txt", ".world", ".TMX", ".JSON", ".tmx.json", ".json.tmx"]
    for i in range(n):
        ext = rng.choice(exts)
        d = mk(rng, [("TSRef", "fmt"), ("TSRef", "source"), ("Tileset", "name")],
               {("Map", "layers"): (0, 1), ("Map", "tilesets"): (0, 2)}, {("TSRef", "has:source"): True}, unique_names=True)
        c = map_case(d, lambda p, t: True, "format by content", ext=ext)
        lead = rng.choice(["", "", "\n", "  ", "\n\n  \t", " \r\n", "\n" * 257, " " * rng.choice([64, 512, 1024, 5000, 8192]),
                           "\n\t" * rng.choice([40, 600, 5000, 33000])])
        for fmt, job in zip(("json", "tmx"), c.jobs):
            # white space in front of the content (an XML declaration must then be absent)
            text = job["files"][job["arg"]]
            if lead:
                text = lead + re.sub(r"^<\?xml[^>]*>\s*", "", text)
            elif fmt == "tmx" and rng.random() < 0.3:
                text = re.sub(r"^<\?xml[^>]*>\s*", rng.choice(["", "<!-- c -->\n"]), text)
            job["files"][job["arg"]] = text
        yield c
        if i % 3 == 0:
            yield tileset_case(rng, [], {}, lambda p, t: True, "tileset format by content", 0.5, ext=ext)
        if i % 3 == 1:
            d = template_doc(rng, [("Object", "kind"), ("Template", "source"), ("TSRef", "source"), ("TSRef", "fmt")],
                             {("Map", "layers"): (1, 1), ("Map", "tilesets"): (1, 1), ("Layer", "objects"): (1, 2)},
                             {("Layer", "kind"): "object", ("Object", "has:template"): lambda o: o.parent.ent == "Layer"},
                             mix=True)
            yield map_case(d, lambda p, t: True, "template format by content", ext=ext)
    for k, g in enumerate(GARBAGE):
        for call in ("parse_map", "parse_tileset"):
            yield unknown_case(dict(call=call, arg="f" + exts[k % len(exts)], files={"f" + exts[k % len(exts)]: g}))
        for fmt in ("json", "tmx"):
            for ext in (".tsx", ".json", ""):
                d = mk(rng, [], {("Map", "layers"): (0, 0), ("Map", "tilesets"): (1, 2)},
                       {("TSRef", "has:source"): True, ("TSRef", "source"): lambda x, ext=ext: "set%d%s" % (x.index, ext)},
                       unique_names=True)
                d.ch.shared["fmt"] = fmt
                b = bundle_map(d, fmt, "m.x")
                b.files[rng.choice([f for f in b.files if f != "m.x"])] = g
                yield unknown_case(dict(call="parse_map", arg="m.x", files=b.files))


def unknown_case(job):
    def judge(rs):
        r, = rs
        if r["ok"] or r.get("exc") != "UnknownFormat" and "UnknownFormat" not in r.get("mro", []):
            return [Problem("an unreadable file %s instead of UnknownFormat" % (
                "was accepted" if r["ok"] else fail_text(r)), job)]
        return []
    return Case([job], judge, "unreadable files")


# ---------------------------------------------------------------------------- C17
FNAMES = ["map-%d-%d.tmx", "map%d_%d.json", "level_%d_%d.tmx", "%d-%d", "x%dy%d.json", "map-%d-%d.tmx.bak", "premap-%d-%d.tmx"]
REGEXPS = [r"map-(\d+)-(\d+)\.tmx", r"map(\d+)_(\d+)\.json", r"level_(-?\d+)_(-?\d+)\.tmx", r"(\d+)-(\d+)", r"x(\d+)y(\d+)\.json$",
           r"map-(\d+)-(\d+)\.tmx$", r"(?:pre)?map-(\d+)-(\d+)", r"map-?(\d)(\d)?.*", r"p0*(\d+)-0*(\d+)\.tmx", r".*-(\d+)\.tmx()x?",
           r"f(\d+\.\d+)-(\d+\.\d+)\.json", r"[.~]?map-(\d+)-(\d+)\.(tmx|json)", r"\.(\d+)-(\d+)", r"[^0-9]*(\d+)[-_y](\d+)(.*)",
           r"map-(\d+)-(\d+)(\.\d+)?(\.tmx)?(\.\d+)?", r"map-(\d+)(?:-(?=\d+\.tmx))(\d+)", r"(\d+)-(\d+(?:\.\d)?)", r"map-(\d+)-(\d+(?:\.json)?(?<!n))",
           r"map-(?P<a>\d+)-(?P<b>\d+)(\.(tmx|json))?", r"map-((?:\d)+)-((?:\d)+)((?:\.)(.*))"]
REGEXPS = [r for r in REGEXPS if r != r".*-(\d+)\.tmx()x?" and r != r"map-?(\d)(\d)?.*"]


def world_case(rng, vary=None):
    here = rng.choice(["w", "a/b", "wörld dir/x", "p/q/r"])
    nums = [0, 1, -1, 16, 320, -320, 0.5, 1.5, -2.25, 1000, 0.123456789, 1e-07, 12345678.125, 2 ** 40]
    maps = [{"fileName": rng.choice(["m%d.tmx" % i, "../m%d.json" % i, "sub/ü%d.tmx" % i, "./m%d.tmx" % i]),
             "x": rng.choice(nums), "y": rng.choice(nums), "width": rng.choice(nums), "height": rng.choice(nums)}
            for i in range(rng.randint(0, 4))]
    files, world = {}, {"type": "world"}
    names = set()
    pats = []
    if vary is None:
        for f in rng.sample(["map-1-2.7.tmx", "map-1-23.tmx", "map-3-4.tmx.5", "6-7.8-9", "map-10-11.json.tmx"], rng.randint(0, 2)):
            names.add(f)
        for _ in range(rng.randint(0, 8)):
            f = rng.choice(FNAMES)
            names.add(f % (rng.choice([0, 1, 2, 10, 11, -3, 7]), rng.choice([0, 1, 2, 10, 12, -5, 8])))
        for f in rng.sample(["f1.5-2.25.json", "f0.123456789-98765.4321.json", ".map-3-4.tmx", ".1-2", "map-4-5.tmx~", "~map-7-7.tmx",
                             "map-8-9.json", "map-8-9.TMX", "level_5_6.tmx.tmp", "p007-010.tmx", "MAP-1-1.tmx", "map-1-2.tmx ", "map-1-1.tmx", "level_3_4.tmx",
                             "map-\u0661-\u0662.tmx"], rng.randint(0, 4)):
            names.add(f)
        if rng.random() < 0.04:
            many = rng.choice(FNAMES)
            names.update(many % (i, i * i % 97) for i in range(rng.choice([40, 150, 300])))
        for f in names:
            files[here + "/" + f] = "x"
        if rng.random() < 0.2:
            # links: to a file (a regular file, as far as reading goes), to a directory and to nothing
            for f, to in (("map-31-1.tmx", "elsewhere/map-32-2.tmx"), ("map-33-3.tmx", "elsewhere"), ("map-34-4.tmx", "nothing")):
                files[here + "/" + f] = {"link": to}
            files[here + "/elsewhere/map-32-2.tmx"] = "x"
            names.add("map-31-1.tmx")
        if rng.random() < 0.4:
            d = rng.choice(["map-5-5.tmx", "1-1", "map9_9.json"])
            if d not in names:
                files[here + "/" + d + "/map-6-6.tmx"] = "in a directory"
        for _ in range(rng.randint(0, 3)):
            p = {"regexp": rng.choice(REGEXPS), "multiplierX": rng.choice(nums), "multiplierY": rng.choice(nums)}
            if rng.random() < 0.5:
                p["offsetX"] = rng.choice(nums)
            if rng.random() < 0.5:
                p["offsetY"] = rng.choice(nums)
            pats.append(p)
    if maps or rng.random() < 0.5:
        world["maps"] = maps
    if pats or rng.random() < 0.3:
        world["patterns"] = pats
    flag = rng.choice([None, True, False])
    if flag is not None:
        world["onlyShowAdjacentMaps"] = flag
    wname = rng.choice(["the.world", "w.json", "map-1-2.world", "map-12-7.tmx"])
    if wname in names or vary is not None:
        wname = "the.world"
    files[here + "/" + wname] = json.dumps(world)
    if names and maps and rng.random() < 0.5:
        # a listed map may also match a pattern, and a file beside the world may be called like a map elsewhere
        for m in maps:
            if rng.random() < 0.6:
                m["fileName"] = rng.choice(["", "", "./", "sub/", "../"]) + rng.choice(sorted(names))
        files[here + "/" + wname] = json.dumps(world)
    allnames = names | {wname}
    relative = rng.random() < 0.3
    job = dict(call="parse_world", arg=here + "/" + wname, files=files)
    root = ROOT + "/"
    if relative:
        job["relative"], root = True, ""
    P_ = lambda f: {"$path": P((root + here + "/" + f) if not f.startswith("/") else f).s}

    def wm(f, x, y, w, h):
        return {"$": "WorldMap", "f": {"map_file": P_(f), "size": {"$": "Size", "f": {"width": w, "height": h}},
                                       "coordinates": {"$": "OrderedPair", "f": {"x": x, "y": y}}}}
    groups = [[wm(m["fileName"], m["x"], m["y"], m["width"], m["height"])] for m in maps]
    for p in pats:
        g = []
        for f in sorted(allnames):
            m = re.match(p["regexp"], f)
            if m:
                g.append(wm(f, float(m.group(1)) * p["multiplierX"] + p.get("offsetX", 0),
                            float(m.group(2)) * p["multiplierY"] + p.get("offsetY", 0), p["multiplierX"], p["multiplierY"]))
        groups.append(g)
    want_flag = bool(flag)
    only_paths = vary is not None

    def judge(rs):
        r, = rs
        if not r["ok"]:
            return [Problem("a valid world %s" % fail_text(r), job)]
        v = r["value"]
        try:
            got = list(v["f"]["maps"])
            fl = v["f"]["only_show_adjacent"]
        except (KeyError, TypeError):
            return [Problem("result is not a World", job, None, v)]
        out = []
        if fl is not want_flag:
            out.append(Problem("only_show_adjacent: expected %r, got %r" % (want_flag, fl), job))
        if len(got) != sum(map(len, groups)):
            out.append(Problem("expected %d maps, got %d: %.400r" % (sum(map(len, groups)), len(got), got), job, groups, got))
            return out if not only_paths else out
        for g in groups:  # files of one pattern may come in any order
            part, got = got[:len(g)], got[len(g):]
            key = lambda m: json.dumps(m["f"]["map_file"])
            for e, a in zip(sorted(g, key=key), sorted(part, key=key)):
                for path, tags, x, y in diff(e, a):
                    if not only_paths or "map_file" in path:
                        out.append(Problem("world map %s: expected %.200r, got %.200r" % (path, x, y), job, x, y))
        return out
    return Case([job], judge, "worlds")


def c17(rng, n):
    for _ in range(n * 2):
        yield world_case(rng)


# ---------------------------------------------------------------------------- C18
def c18(rng, n):
    for i in range(n):
        k = i % 3
        lengths = {("Map", "layers"): (0, 3), ("Map", "tilesets"): (0, 2), ("Layer", "layers"): (0, 2),
                   ("Layer", "objects"): (0, 3), ("Layer", "chunks"): (0, 2), ("Tileset", "tiles"): (1, 3),
                   ("Object", "points"): (1, 3), ("Tileset", "wangsets"): (0, 1), ("WangSet", "colors"): (0, 2),
                   ("Tile", "animation"): (0, 2)}
        ch = gen.Chooser(rng, vary=[("*", "*"), "flags"], lengths=lengths, parity=True, unique_names=True,
                         fix={("*", "legacyprops"): False}, p_has=rng.choice([0.2, 0.5, 0.8]), max_depth=2,
                         pools={"templates": 3, "tilesets": 2} if k == 0 else None)
        ch.template_fmt = "same"
        d = CDoc("Map", "m", ch)
        yield parity_case(d)


def parity_case(d):
    jobs = []
    for fmt in ("json", "tmx"):
        d.ch.shared["fmt"] = fmt
        b = bundle_map(d, fmt, "p/q/maps/level")
        jobs.append(dict(files=b.files, call="parse_map", arg="p/q/maps/level"))

    def judge(rs):
        a, b = rs
        if not a["ok"] or not b["ok"]:
            if a["ok"] != b["ok"]:
                i = 0 if not a["ok"] else 1
                return [Problem("the same map is accepted as %s but as %s it %s" % (
                    ("TMX", "JSON")[i], ("JSON", "TMX")[i], fail_text(rs[i])), jobs)]
            return []  # neither format accepts it: not a question of parity
        out = []
        for path, tags, x, y in diff(a["value"], b["value"]):
            if numlike(x) and x == y:
                continue    # 1 and 1.0
            if path != "map_file":
                out.append(Problem("%s: JSON gives %.200r, TMX gives %.200r" % (path, x, y), jobs, x, y))
        return out
    return Case(jobs, judge, "parity")


# ---------------------------------------------------------------------------- C19
def c19(rng, n):
    for i in range(max(8, n // 3)):
        jobs, files = [], {}
        lengths = {("Map", "layers"): (1, 3), ("Map", "tilesets"): (0, 2), ("Layer", "layers"): (0, 2),
                   ("Layer", "objects"): (1, 3), ("Layer", "chunks"): (0, 2), ("Tileset", "tiles"): (1, 2),
                   ("Tileset", "wangsets"): (0, 1), ("WangSet", "colors"): (0, 2), ("WangSet", "wangtiles"): (0, 2)}
        for k in range(rng.choice([1, 2])):
            # sometimes several tilesets of a map come from one file
            again = {("TSRef", "has:source"): True} if rng.random() < 0.3 else {}
            ch = gen.Chooser(rng, vary=[("*", "*"), "flags"] if rng.random() < 0.7 else [("Layer", "kind"), ("Object", "kind"), ("Object", "template")],
                             lengths=_with(lengths, {("Map", "tilesets"): (2, 4)}) if again else lengths, unique_names=True,
                             fix=_with({("*", "legacyprops"): False}, again), max_depth=2,
                             pools={"tilesets": 2, "again": 1} if again else {"templates": 2, "tilesets": 2, "reuse": 1}, p_has=rng.choice([0.1, 0.5]))
            ch.template_fmt = "same"
            ch.names = {"ts": 100 * k, "tmpl": 100 * k, "tsname": 100 * k}
            d = CDoc("Map", "m%d" % k, ch)
            for fmt in ("json", "tmx"):
                ch.shared["fmt"] = fmt
                where = "%s/%d/p/maps/level.%s" % (fmt, k, fmt)
                b = bundle_map(d, fmt, where)
                files.update(b.files)
                jobs.append(dict(call="parse_map", arg=where))
                for r in d.seq("tilesets"):
                    if r.has("source"):
                        import os
                        jobs.append(dict(call="parse_tileset", arg=os.path.normpath(os.path.join(
                            os.path.dirname(where), r.leaf("source")))))
                        break
        jobs.append(dict(call="parse_color", arg="#10203040"))
        files["w/the.world"] = json.dumps({"maps": [{"fileName": "a.tmx", "x": 1, "y": 2, "width": 3, "height": 4}],
                                           "patterns": [{"regexp": r"m(\d+)-(\d+)", "multiplierX": 2, "multiplierY": 3}]})
        files["w/m1-2"] = "x"
        jobs.append(dict(call="parse_world", arg="w/the.world"))
        jobs.append(dict(call="parse_world", arg="w/the.world", relative=True))
        jobs.append(dict(jobs[rng.randrange(2)], relative=True))
        files["bad.json"] = "{"
        jobs.append(dict(call="parse_map", arg="bad.json", may_fail=True))
        steps = []
        for _ in range(rng.randint(3, 10)):
            steps.append({"job": rng.randrange(len(jobs)), "scribble": rng.random() < 0.4})
        order = list(range(len(jobs)))
        rng.shuffle(order)
        steps += [{"job": j, "scribble": True} for j in order] + [{"job": j, "scribble": False} for j in order]
        steps += [{"job": j} for j in order]
        job = dict(mode="pure", jobs=jobs, history=steps, files=files)

        def judge(rs, job=job):
            r, = rs
            if r.get("worker_error"):
                raise RuntimeError(r["worker_error"] + r.get("tb", ""))
            return [Problem(p, job) for p in r["problems"]]
        yield Case([job], judge, "histories")
    for _ in range(6):
        yield rewritten(rng)
    yield empties()


def empties():
    """Empty sequences everywhere, twice each: nothing of one result may be shared."""
    props = "<properties/>"
    ws = '<wangset name="w" tile="-1" type="corner"/>' * 2
    tile = '<tile id="%d">' + props + '<objectgroup/><animation/></tile>'
    ts = ('<tileset firstgid="%d" name="t%d" tilewidth="1" tileheight="1" tilecount="1" columns="1">' + props + "<wangsets>" + ws +
          "</wangsets>" + tile % 0 + tile % 1 + "</tileset>")
    layers = ('<layer name="" width="1" height="1">' + props + '<data encoding="csv"/></layer>') * 2 + (
        '<objectgroup>' + props + '<object id="1" x="0" y="0">' + props + '</object></objectgroup><group>' + props + "</group>") * 2
    x = ('<map version="1.10" tiledversion="1.10" orientation="orthogonal" renderorder="right-down" width="1" height="1" tilewidth="8" '
         'tileheight="8" infinite="0" nextlayerid="2" nextobjectid="2">' + props + ts % (1, 1) + ts % (5, 2) + layers + "</map>")
    layer = dict(id=1, name="", opacity=1, visible=True, x=0, y=0, properties=[])
    jts = dict(name="t", tilewidth=1, tileheight=1, tilecount=1, columns=1, margin=0, spacing=0, properties=[],
               wangsets=[dict(name="w", tile=-1, type="corner", colors=[], wangtiles=[], properties=[])] * 2,
               tiles=[dict(id=i, properties=[], animation=[], objectgroup=dict(layer, type="objectgroup", draworder="index", objects=[]))
                      for i in (0, 1)])
    obj = dict(id=1, x=0, y=0, width=0, height=0, name="", type="", rotation=0, visible=True, properties=[])
    j = dict(type="map", version="1.10", tiledversion="1.10", orientation="orthogonal", renderorder="right-down", width=1, height=1,
             tilewidth=8, tileheight=8, infinite=True, nextlayerid=2, nextobjectid=2, properties=[],
             tilesets=[dict(jts, firstgid=1), dict(jts, firstgid=5, tiles={}), dict(jts, firstgid=9, tiles=[])],
             layers=[dict(layer, type="tilelayer", width=1, height=1, chunks=[]), dict(layer, type="tilelayer", width=1, height=1, chunks=[]),
                     dict(layer, type="objectgroup", draworder="topdown", objects=[obj, obj]),
                     dict(layer, type="objectgroup", draworder="topdown", objects=[]),
                     dict(layer, type="group", layers=[]), dict(layer, type="group", layers=[])])
    jobs = [dict(call="parse_map", arg="m.tmx"), dict(call="parse_map", arg="m.json")]
    job = dict(mode="pure", jobs=jobs, files={"m.tmx": x, "m.json": json.dumps(j)},
               history=[dict(job=k, scribble=s) for s in (True, False) for k in (0, 1)] * 2)

    def judge(rs, job=job):
        r, = rs
        if r.get("worker_error"):
            raise RuntimeError(r["worker_error"] + r.get("tb", ""))
        return [Problem(p, job) for p in r["problems"]]
    return Case([job], judge, "empty sequences")


def rewritten(rng):
    """Parse a map, give its file (and those it refers to) other contents of the same length, possibly in the
    other format, and parse again: the result is that of the new contents."""
    both, brought = [], rng.random() < 0.5
    for k in range(2):
        ch = gen.Chooser(rng, vary=[("*", "*"), "flags"] if k == 0 or rng.random() < 0.5 else [], unique_names=True,
                         lengths={("Map", "layers"): (1, 2), ("Map", "tilesets"): (0, 1), ("Layer", "objects"): (0, 2)},
                         fix={("*", "legacyprops"): False, ("TSRef", "source"): "ts/shared.x", ("Template", "source"): "ts/t.x"},
                         pools={"templates": 1}, p_has=rng.choice([0.1, 0.5]), max_depth=1)
        if brought:
            # objects of a template that brings a tileset
            ch.fix.update({("Layer", "kind"): "object", ("Object", "kind"): "tile", ("TSRef", "has:source"): True,
                           ("Object", "has:template"): lambda o: o.parent.ent == "Layer" and not gen.in_tile(o)})
            ch.lengths.update({("Layer", "objects"): (1, 2), ("Map", "layers"): (1, 1)})
        ch.template_fmt = "same"
        fmt = rng.choice(["json", "tmx"])
        ch.shared["fmt"] = fmt
        ch.fix[("TSRef", "fmt")] = fmt
        both.append(bundle_map(CDoc("Map", "m%d" % k, ch), fmt, "p/q/level.x").files)
    size = {f: max(len(b[f].encode()) for b in both if f in b) for b in both for f in b}
    for b in both:
        for f in b:
            b[f] += " " * (size[f] - len(b[f].encode()))
    one = dict(call="parse_map", arg="p/q/level.x")
    first, then = dict(both[0]), dict(both[1])
    job = dict(mode="pure", jobs=[one], files=first, history=[{"write": first}, {"job": 0}, {"write": then}, {"job": 0}], last=True)
    fresh = dict(call="parse_map", arg="p/q/level.x", files=then)

    def judge(rs):
        r, f = rs
        if r.get("worker_error"):
            raise RuntimeError(r["worker_error"] + r.get("tb", ""))
        out = [Problem(p, job) for p in r["problems"]]
        if f["ok"] and f["value"] != r["last"]:
            x = next(iter(diff(f["value"], r["last"])), ("", (), None, None))
            out.append(Problem("after its files were given other contents of the same length, the map has the result of "
                               "the earlier parse: %s: expected %.200r, got %.200r" % (x[0], x[2], x[3]), job))
        return out
    return Case([job, fresh], judge, "files that change between two parses")


# ---------------------------------------------------------------------------- replaying counterexamples
KEEPS = {"C13": lambda path, tags: path.startswith("tilesets"), "C14": in_objects, "C03": has_tag("C02"),
         "C15": lambda path, tags: path.startswith("tilesets") or path.endswith("/gid") or "new_tileset" in path,
         "C16": lambda path, tags: True}


def replay_problem(prop, docs_):
    """The first genuine violation of the property by the real code on the given documents."""
    from . import run
    for d in docs_:
        if prop == "C19":
            c = history_case(d)
        elif prop == "C18":
            continue      # parity needs documents both formats can express: see the sampled ones
        else:
            c = map_case(d, KEEPS.get(prop, has_tag(prop)), "counterexample")
        for case, rs in run.execute([c], 60, 1):
            ps = case.judge(rs)
            if ps:
                return ps[0]
    return None


def history_case(d):
    jobs, files = [], {}
    for fmt in ("json", "tmx"):
        d.ch.shared["fmt"] = fmt
        where = "%s/p/maps/level.%s" % (fmt, fmt)
        files.update(bundle_map(d, fmt, where).files)
        jobs.append(dict(call="parse_map", arg=where))
    steps = [{"job": 0, "scribble": True}, {"job": 1, "scribble": True}] + [{"job": j} for j in (0, 1, 0, 1)]
    job = dict(mode="pure", jobs=jobs, history=steps, files=files)

    def judge(rs):
        r, = rs
        if r.get("worker_error"):
            raise RuntimeError(r["worker_error"] + r.get("tb", ""))
        return [Problem(p, job) for p in r["problems"]]
    return Case([job], judge, "counterexample history")


CASES = {k.upper(): v for k, v in list(globals().items()) if re.fullmatch(r"c\d\d", k)}

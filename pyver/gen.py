"""Choosers: where the values of concrete documents come from."""
import ast
import json
import os
import random
import zlib

from .conc import CDoc, Ints, HEX, span
from .run import REPO
from .docs import (BOOL, CHILD, COLOR, ENT, GID, INT, KIND, NUM, PATH, POS, SEQ, STR, TEXT)

STRS = ["", "a", "name", "true", "false", "12", "0", "-1.5", " lead", "trail ", "two words", "ünïcødé 漢字 🎈",
        "<&>\"'", "a/b", "../x", "#ff0000", "None", "null", "x=1;y=2", "topdown", "tile", "rectangle", "\\", "tab\tx",
        "{}", "[]", "%s", "éé", "object", "class", "layer", "json", "tmx", ".", "ends.", "UPPER",
        # texts that a library function could take for something else or rewrite
        "e\u0301a", "\ufb01\u2116", "\u0130\u00df", "a\u2028b", "\u00a0", "\u200b", "\u0663", "1e5", "nan", "inf", "0x1F", "1_000",
        "007", "+7", "&amp;", "&#65;", "100%25", "$HOME", "~", "~/a", "-", "#", "yes", "on", "True", "FALSE", "a,b", "a|b",
        "{0}", "${x}", "'q'", '"q"', "b'x'", "(1, 2)", "u\\u0041"]
TEXTS = STRS + ["line1\nline2", "\n", " \n ", "two\n\nparagraphs\n", "  indented\n    more", "a\nb", "\ttab\n", "a \n b", "x\n\n\ny", "cr\r\nlf", "\r"]
NUMS = [0, 1, -1, 0.5, -0.5, 2, 16, 100, -250, 3.25, 1e-05, 123456.789, 1000000, 0.1, 1 / 3, -32.0, 2.0, 1.0, 360,
        12345678.125, 4294967296]
INTS = [0, 1, -1, 2, 3, 7, 10, 16, 32, 100, 255, 256, 1000, 65535, 65536, -5, 2 ** 31 - 1, 2 ** 31, 2 ** 40, -2 ** 31, 2 ** 53 + 1]
GIDS = [0, 1, 2, 3, 5, 127, 128, 255, 256, 257, 65535, 65536, 2 ** 24 - 1, 2 ** 24, 2 ** 28 + 1, 2 ** 29 + 3, 2 ** 30,
        2 ** 30 + 7, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 5, 3 * 2 ** 30 + 2, 2 ** 32 - 2, 2 ** 32 - 1, 10, 13, 48, 0x0a0d0a0d]
PATHS = ["img.png", "a/b.png", "../img.png", "../../up/x.png", "sp ace/i mg.png", "ünï/漢.png", "./dot.png", "a/../b.png",
         "/abs/dir/x.png", "noext", "deep/er/and/deeper.gif", "UPPER.PNG", "../img/../images/t.png", "a//b.png", "~/x.png", "~", "$HOME/i.png", "a%20b.png", "back\\slash.png", "e\u0301.png",
         "C:/x.png", "/abs/../y/./x.png", " lead.png", "x.tar.gz", ".hidden", "#1.png", "q?.png", "img.PNG", "a.b/c"]


# names that differ little
TSNAMES = ["set", "Set", "SET", "set ", " set", "set1", "set10", "se", "", "s et", "set.tsx", "é", "É", "e", "0", "00", "None",
           "seT", "set/a", "a", "A", "ß", "ss", "tileset", "Tileset"]


class Literals:
    """Constants of the package's source: inputs at which its code may do something special. The ones that
    were not there when the machinery was written (literals.json) come first."""

    def __init__(self):
        self.strs, self.nums, self.new_strs, self.new_nums = [], [], [], []
        self.ready = False

    def read(self):
        found_s, found_n = set(), set()
        for base, _, names in sorted(os.walk(os.path.join(REPO, "pytiled_parser"))):
            for n in sorted(names):
                if n.endswith(".py"):
                    try:
                        with open(os.path.join(base, n), encoding="utf-8") as f:
                            tree = ast.parse(f.read())
                    except (OSError, SyntaxError, ValueError):
                        continue
                    docs_ = {id(x.value) for x in ast.walk(tree) if isinstance(x, ast.Expr)}
                    for x in ast.walk(tree):
                        if isinstance(x, ast.Constant) and id(x) not in docs_:
                            v = x.value
                            if isinstance(v, str) and len(v) <= 40 and v.isprintable():
                                found_s.add(v)
                            elif isinstance(v, (int, float)) and not isinstance(v, bool) and abs(v) < 2 ** 53:
                                found_n.add(v)
        return sorted(found_s), sorted(found_n, key=lambda x: (x, str(type(x))))

    def load(self):
        if self.ready:
            return self
        self.ready = True
        self.strs, self.nums = self.read()
        try:
            with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "literals.json"), encoding="utf-8") as f:
                old = json.load(f)
        except OSError:
            old = dict(strs=[], nums=[])
        self.new_strs = [s for s in self.strs if s not in old["strs"]]
        self.new_nums = [n for n in self.nums if n not in old["nums"]]
        return self

    def string(self, r):
        """None most of the time."""
        self.load()
        x = r.random()
        if x < 0.12 and self.new_strs:
            s = r.choice(self.new_strs)
        elif x < 0.03 and self.strs:
            s = r.choice(self.strs)
        else:
            return None
        y = r.random()
        return s if y < 0.6 else r.choice([s + "x", "x" + s, s.upper(), s.capitalize(), s * 2, s[:-1], s[1:], "a " + s + " b"])

    def number(self, r, lo=None, hi=None, whole=True):
        self.load()
        x = r.random()
        if x < 0.15 and self.new_nums:
            n = r.choice(self.new_nums)
        elif x < 0.05 and self.nums:
            n = r.choice(self.nums)
        else:
            return None
        n = n + r.choice([0, 0, 0, 1, -1, 0.5, -0.5, n, -2 * n])
        if whole:
            n = int(n)
        return n if (lo is None or n >= lo) and (hi is None or n <= hi) else None


LITERALS = Literals()


def odd_name(r):
    """Beginnings of file names that something could take for more than a name."""
    return r.choice(["back\\", "~", "$HOME", "a%20b", "#", "\u00e9", "e\u0301", " ", "c:", ".", "x?y=", "&amp;"]) if r.random() < 0.2 else ""


# parts of the files that no result has
EXTRA_FLAGS = {"j:xy", "t:xy", "j:editor", "t:editor", "j:type", "t:terrain"}


def h(s):
    return zlib.crc32(s.encode())


LONG_P = 0.06
LONG_TOP = {"properties": 300, "points": 300, "objects": 70, "tiles": 140, "animation": 140, "colors": 70, "wangtiles": 140,
            "wangsets": 12, "layers": 12, "tilesets": 10, "chunks": 40}


class Chooser:
    """Random sampling of everything in `vary`; fixed, mutually distinct values elsewhere."""
    mix_fmt = False          # template tilesets in the format of their own choice
    template_fmt = None      # templates always in the format of the map
    parity = False           # only what both formats can express

    def __init__(self, rng, vary=(), fix=None, lengths=None, pools=None, parity=False, max_depth=3,
                 p_has=0.5, unique_names=False):
        self.rng, self.vary, self.fix = rng, set(vary), dict(fix or {})
        self.lengths = dict(lengths or {})
        self.parity, self.max_depth, self.p_has = parity, max_depth, p_has
        self.pools = dict(pools or {})   # number of shared templates / template tilesets
        self.shared = {}
        self.names = {}
        self.unique_names = unique_names

    # -- policy
    def varies(self, d, name):
        v = self.vary
        f = ENT[d.ent].get(name)
        if f is not None and f.extra:
            return True
        return ("*", "*") in v or (d.ent, name) in v or (d.ent, "*") in v

    def fixed(self, d, name):
        for k in ((d.ent, name), ("*", name)):
            if k in self.fix:
                f = self.fix[k]
                return True, f(d) if callable(f) else f
        return False, None

    def twin_of(self, ent, before):
        """An earlier sibling to repeat (equal values must not be mistaken for the same thing)."""
        p = {"TSRef": 0, "Point": 0.3, "Property": 0.1}.get(ent, 0.12)
        if before and self.rng.random() < p:
            return before[0] if self.rng.random() < 0.5 else self.rng.choice(before)
        return None

    def near(self, ent):
        """In which value an element that repeats an earlier one may differ from it."""
        if self.rng.random() < 0.5:
            return None
        names = [n for n, f in ENT[ent].items() if f.typ != POS and not f.extra]
        if ent in ("Layer", "Chunk"):
            names = ["data", "turned"] * len(names) + names
        return self.rng.choice(names) if names else None

    def near_ints(self, ints):
        """One value differs, most often the last."""
        out = Ints(ints)
        out.style = ints.style
        if out:
            out[-1 if self.rng.random() < 0.7 else self.rng.randrange(len(out))] = self.rng.randint(0, 1000)
        return out

    # -- leaves
    def leaf(self, d, name, f):
        if not (f.typ == INT and d.ent == "Tileset" and name == "tilecount"):
            ok, v = self.fixed(d, name)
            if ok:
                return v
        r = self.rng
        special = getattr(self, "leaf_%s_%s" % (d.ent, name), None)
        if special:
            v = special(d)
            if v is not None:
                return v
        if not self.varies(d, name) and not (f.typ == COLOR and "colors" in self.vary):
            return self.base(d, name, f)
        if f.mode == "dflt" and r.random() < 0.25:
            return f.dflt
        if f.typ in (INT, NUM) and r.random() < 0.1:
            return 0
        return self.sample(f.typ, r)

    def sample(self, typ, r):
        if typ in (INT, NUM, POS, GID):
            v = LITERALS.number(r, *{POS: (1, 24), GID: (1, 2 ** 32 - 1)}.get(typ, (None, None)), whole=typ != NUM)
            if v is not None:
                return v
        if typ in (STR, TEXT, PATH):
            v = LITERALS.string(r)
            if v is not None and typ == PATH:
                v = r.choice(["", "d/", "../"]) + v.replace("\0", "") + r.choice(["", ".png"])
                v = None if v[-1:] in ("", "/", ".") or "//" in v or v.startswith("/") or v.count("..") > 1 else v
            if v is not None:
                return v
        if typ == INT:
            return r.choice(INTS) if r.random() < 0.7 else r.randint(-1000, 100000)
        if typ == POS:
            return r.choice([1, 1, 2, 3, 4, 5, 7])
        if typ == GID:
            return r.choice([g for g in GIDS if g]) if r.random() < 0.7 else r.randint(1, 2 ** 32 - 1)
        if typ == NUM:
            return r.choice(NUMS) if r.random() < 0.7 else round(r.uniform(-1000, 1000), r.randint(0, 6))
        if typ == BOOL:
            return r.random() < 0.5
        if typ == COLOR:
            return self.color(r)
        if typ == PATH:
            return r.choice(PATHS)
        if typ == TEXT:
            return r.choice(TEXTS)
        if typ == STR:
            return r.choice(STRS) if r.random() < 0.8 else "".join(r.choice("abcXYZ 019_-é") for _ in range(r.randint(1, 12)))
        raise KeyError(typ)

    def color(self, r):
        n = r.choice([6, 8])
        t = "".join(r.choice(HEX) for _ in range(n))
        if r.random() < 0.15:
            t = r.choice(["000000", "ffffff", "00000000", "80ff0000", "FFFFFFFF", "00ff00ff", "0000ff"])
        return ("#" if r.random() < 0.7 else "") + t

    def base(self, d, name, f):
        k = h(d.path + "." + name)
        if f.typ == INT:
            return 1 + k % 97
        if f.typ == POS:
            return 2 + k % 3
        if f.typ == GID:
            return 1 + k % 50
        if f.typ == NUM:
            return 1 + (k % 390) / 4
        if f.typ == BOOL:
            return bool(f.dflt) if f.mode == "dflt" else bool(k % 2)
        if f.typ in (STR, TEXT):
            return f.dflt if f.mode == "dflt" else "s%d" % (k % 1000)
        if f.typ == COLOR:
            return "#%06x" % (k & 0xffffff)
        if f.typ == PATH:
            return "img/i%d.png" % (k % 1000)
        raise KeyError(f.typ)

    # -- constrained leaves
    def leaf_TSRef_firstgid(self, d):
        if d.parent is None or d.parent.ent != "Map":
            return 1
        if "firstgids" not in self.shared:
            refs = d.parent.seq("tilesets")
            order = list(range(len(refs)))
            if self.varies(d, "firstgid") and self.rng.random() < 0.3:
                self.rng.shuffle(order)
            g, out = 1, {}
            for i in order:
                if self.varies(d, "firstgid"):
                    g += self.rng.choice([0, 0, 0, 1, 5, 100])
                out[i] = g
                ts = refs[i].child("ts")
                ids = [t.leaf("id") for t in ts.seq("tiles")] if ts.has("tiles") else []
                g += max([1, ts.leaf("tilecount")] + [i + 1 for i in ids])
            self.shared["firstgids"] = out
        return self.shared["firstgids"][d.index]

    def leaf_TSRef_source(self, d):
        """External tileset files: each in a directory of its own choice, never the same file."""
        r = self.rng
        fmt = d.kind("fmt")
        if self.pools.get("again") and d.child("ts").role == "pool":
            # one file that several tilesets of the map refer to
            k = ("file", d.child("ts").index, fmt)
            if k not in self.shared:
                self.shared[k] = r.choice(["", "ts/", "../ts/"]) + "shared%d.%s" % (k[1], fmt)
            return self.shared[k]
        dirs = ["", "ts/", "../ts/", "sub/dir/", "../sp ace/", "../../top/"] if self.varies(d, "source") else ["ts/"]
        exts = {"json": [".json", ".tsj", "", ".tsx", ".xml"], "tmx": [".tsx", ".xml", "", ".json"]}[fmt] \
            if self.varies(d, "source") else {"json": [".json"], "tmx": [".tsx"]}[fmt]
        n = self.names.setdefault("ts", 0)
        self.names["ts"] += 1
        return self.place(r, dirs, (odd_name(r) if self.varies(d, "source") else "") + "tileset%d" % n + r.choice(exts), n,
                          self.varies(d, "source"), "tilesets")

    def place(self, r, dirs, name, n, free, what):
        """Sometimes files in different directories have one name."""
        used = self.shared.setdefault(("basenames", what), [])
        if free and used and r.random() < 0.3:
            return r.choice(["", "../"]) + "d%d/" % n + r.choice(used)
        used.append(name)
        return r.choice(dirs) + name

    def leaf_Template_source(self, d):
        r = self.rng
        dirs = ["", "tmpl/", "../tmpl/", "a/b/"] if self.varies(d, "source") else ["tmpl/"]
        n = self.names.setdefault("tmpl", 0)
        self.names["tmpl"] += 1
        name = (odd_name(r) if self.varies(d, "source") else "") + "template%d" % n + r.choice([".tx", ".json", ".xml", ""] if self.varies(d, "source") else [".tx"])
        return self.place(r, dirs, name, n, self.varies(d, "source"), "templates")

    def leaf_Property_v_file(self, d):
        return "" if self.varies(d, "v_file") and self.rng.random() < 0.1 else None

    def leaf_Tileset_name(self, d):
        if not self.varies(d, "name"):
            return None
        if not self.unique_names:
            return None
        used = self.shared.setdefault("tsnames", set())
        while True:
            v = self.rng.choice(TSNAMES)
            if self.rng.random() < 0.6:
                # names that look alike
                b = self.shared.setdefault("name_family", self.rng.choice(["set", "Tileset", "a", "é1", "0"]))
                v = self.rng.choice([b, b, b, b.upper(), b.lower(), b + " ", " " + b, b + ".tsx", b + ".1", b + "1", b + "10",
                                     b[:-1], b + "/" + b, b + "_2", "x" + b, b + b, b + "-" + b])
            if self.rng.random() < 0.3 or len(used) > len(TSNAMES) // 2:
                v += "%d" % self.rng.randint(0, 30)
            if v not in used:
                used.add(v)
                return v

    def leaf_Tileset_tilecount(self, d):
        ok, v = self.fixed(d, "tilecount")
        if ok:
            return v
        if d.parent is not None and d.parent.ent == "TSRef" or d.parent is None and "C15" in self.shared:
            return self.rng.choice([0, 1, 2, 4, 10, 48]) if self.varies(d, "tilecount") else 8 + h(d.path) % 9
        # never negative
        return self.rng.choice([0, 1, 2, 7, 16, 100, 255, 65536, 2 ** 40]) if self.varies(d, "tilecount") else None

    def unique_id(self, d, attr, hi):
        used = self.shared.setdefault(("ids", d.parent.path), set())
        r = self.rng
        while True:
            v = r.choice([r.randint(0, 6), r.randint(0, hi)]) if self.varies(d, attr) else d.index
            if v not in used:
                used.add(v)
                return v
            hi += 5

    def leaf_Tile_id(self, d):
        return self.unique_id(d, "id", 200)

    def leaf_WangTile_tileid(self, d):
        return self.unique_id(d, "tileid", 200)

    def leaf_Property_name(self, d):
        if not self.varies(d, "name"):
            return "p%d" % d.index
        used = self.shared.setdefault(("props", d.parent.path), [])
        if used and not self.parity and self.rng.random() < 0.1:
            return self.rng.choice(used)       # a name that occurs again: the last one counts
        while True:
            v = self.sample(STR, self.rng)
            if len(used) > 8:
                v += "%d" % len(used)
            if v not in used:
                used.append(v)
                return v

    def leaf_Map_version(self, d):
        return self.rng.choice(["1.10", "1.9", "1.2", "1", "1.10.2", "1.0", "10"]) if self.varies(d, "version") else "1.10"

    leaf_Tileset_version = leaf_Map_version

    # -- presence and structure
    def has(self, d, name):
        ok, v = self.fixed(d, "has:" + name)
        if ok:
            return v
        if (d.ent, name) in (("Tileset", "imagewidth"), ("Tileset", "imageheight"), ("Tileset", "transparentcolor"),
                             ("Tile", "imagewidth"), ("Tile", "imageheight")) and not d.has("image"):
            return False
        if (d.ent, name) == ("Object", "type") and self.parity:
            pass
        if name == "template" and not (d.parent is not None and d.parent.ent == "Layer" and self.pools.get("templates")
                                       and not in_tile(d)):
            return False
        if (d.ent, name) == ("Layer", "startx") and not (d.kind("kind") == "tile" and d.has("chunks")):
            return False
        if (d.ent, name) == ("Template", "tileset"):
            return d.child("object").kind("kind") == "tile"
        if name == "tileset":
            return True
        f = ENT[d.ent].get(name)
        if f is not None and f.typ == COLOR and "colors" in self.vary:
            return self.rng.random() < 0.8
        if self.varies(d, name):
            return self.rng.random() < (self.p_has if f is None or not f.extra else 0.25)
        return False

    def flag(self, d, name):
        ok, v = self.fixed(d, name)
        if ok:
            return v
        if name in EXTRA_FLAGS:
            return self.rng.random() < 0.25
        if not self.varies(d, name) and not ("flags" in self.vary):
            return name.startswith("j:") is False and name == "i:x" or name == "i:y"
        return self.rng.random() < 0.5

    def kind(self, d, name):
        ok, v = self.fixed(d, name)
        if ok:
            return v
        alts = KIND[(d.ent, name)]
        r = self.rng
        if (d.ent, name) == ("Layer", "kind"):
            if d.role == "objectgroup":
                return "object"
            if not self.varies(d, name):
                return "tile" if d.index % 2 == 0 else "object"
            if depth(d) >= self.max_depth:
                alts = [a for a in alts if a != "group"]
            return r.choice(alts)
        if (d.ent, name) == ("Object", "kind"):
            if in_tile(d) and self.varies(d, name):
                return r.choice([a for a in alts if a != "tile"])
            if self.varies(d, name):
                return r.choice(alts)
            return "rectangle"
        if self.varies(d, name):
            return r.choice(alts)
        if name == "fmt":
            return self.shared.get("fmt", "json")
        return alts[0]

    def length(self, d, name):
        ok, v = self.fixed(d, "len:" + name)
        if ok:
            return v
        lo, hi = self.lengths.get((d.ent, name), (None, None))
        if name == "properties":
            lo, hi = (lo or 1), (hi or 2)
        elif lo is None:
            lo, hi = {"tiles": (1, 1), "points": (1, 2)}.get(name, (0, 1)) if d.ent != "Map" else (0, 0)
        if name == "points":
            lo = max(lo, 1)
        if name == "tiles":
            lo = max(lo, 1)
        n = self.rng.randint(lo, hi)
        if n == hi >= 2 and "long" not in self.shared and self.rng.random() < LONG_P:
            # one sequence of the document is long
            top = LONG_TOP.get(name, 6)
            self.shared["long"] = name
            lit = LITERALS.number(self.rng, 1, top)
            n = lit or self.rng.choice([self.rng.randint(3, min(top, 20)), self.rng.randint(min(top, 9), top)])
        return n

    def ints(self, d, name):
        r = self.rng
        out = Ints()
        if name == "wangid":
            if r.random() < 0.15:
                out.extend([r.choice([0, 0, 1])] * 8)
            else:
                out.extend(r.choice([0, 0, 1, 2, 3, 15, 254, 255, 300]) for _ in range(8))
            return out
        n = d.leaf("width") * d.leaf("height")
        if self.varies(d, name):
            if r.random() < 0.12:
                out.extend([r.choice([0, 0, 1, 2 ** 31])] * n)
            else:
                for _ in range(n):
                    v = LITERALS.number(r, 0, 2 ** 32 - 1)
                    out.append(v if v is not None else r.choice(GIDS) if r.random() < 0.6 else r.randint(0, 2 ** 32 - 1))
            out.style = r.randint(0, 3)
        else:
            out.extend((h(d.path) + 7 * i) % 101 for i in range(n))
        return out

    def child(self, d, name):
        """Shared nodes: templates used by several objects, tilesets brought by several templates."""
        r = self.rng
        if (d.ent, name) == ("Object", "template"):
            k = r.randrange(self.pools["templates"])
            key = ("T", k)
            if key not in self.shared:
                self.shared[key] = CDoc("Template", "T%d" % k, self, None, "template", k)
            return self.shared[key]
        if (d.ent, name) == ("TSRef", "ts") and d.parent is not None and d.parent.ent == "Template":
            n = self.pools.get("tilesets", 0)
            if n:
                return self.pool_tileset(r.randrange(n))
        if (d.ent, name) == ("TSRef", "ts") and d.parent is not None and d.parent.ent == "Map":
            n = self.pools.get("tilesets", 0)
            if n and self.pools.get("again") and d.has("source") and r.random() < 0.5:
                return self.pool_tileset(r.randrange(n))
            if n and self.pools.get("reuse") and r.random() < 0.4:
                used = self.shared.setdefault("map_ts", set())
                k = r.randrange(n)
                if k not in used:
                    used.add(k)
                    return self.pool_tileset(k)
        return None

    def pool_tileset(self, k):
        key = ("TS", k)
        if key not in self.shared:
            self.shared[key] = CDoc("Tileset", "TS%d" % k, self, None, "pool", k)
        return self.shared[key]


def depth(d):
    n = 0
    while d is not None:
        n += d.ent == "Layer"
        d = d.parent
    return n


def in_tile(d):
    while d is not None:
        if d.ent == "Tile":
            return True
        d = d.parent
    return False

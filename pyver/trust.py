"""What the verification rests on without proving it: listed in every evidence file."""

MODELS = [
    "pyver.interp: symbolic semantics of the Python subset the package is written in (the sources are read with inspect on "
    "every run; anything outside the subset leaves its obligations undecided)",
    "pyver.lib: models of attrs classes, NamedTuple, dict, list, str, int, float, json.load, ElementTree, pathlib, os.path, "
    "base64, zlib, gzip, re, logging as used by the package",
    "pyver.loops: summary rules for loops over document sequences, rows of a grid, 4-byte groups, counters (each instance's "
    "side conditions are solver obligations)",
    "pyver.docs: document schema and renderers (what a valid file is) and the specification functions",
    "z3 5.3.2 (thorough tier: every solver-discharged obligation again with cvc5)",
]

ASSUME = [
    "Python integers are mathematical integers and floats are treated as real numbers (no rounding, NaN or infinities)",
    "json and xml.etree parse a file to the tree its text denotes; base64, zlib and gzip are inverse to their encoders",
    "paths are a free algebra of join/parent/resolve: two different terms are never assumed equal or different",
    "input documents satisfy the schema in pyver/docs.py (gid >= 1, points and property lists not empty, valid colors, "
    "distinct tile ids, object groups of tiles have no templates, numbers written as numbers)",
    "total correctness is modulo exceptions of the interpreter itself (memory, recursion depth of nested groups)",
    "recursive calls use the contract only for strictly smaller parts of a finite document (checked), so the induction on "
    "the document is well founded",
]

EXTRA = {
    "C10": ["the file system resolves a path the same way during the call (symbolic links do not change)"],
    "C17": ["regular expressions are an uninterpreted match relation with uninterpreted groups"],
    "C16": ["json.load and ElementTree.parse raise their documented exceptions on unreadable text"],
    "C15": ["the ranges of gids of a map's own tilesets do not overlap (otherwise no added tileset is asked to repair that)",
            "the declared invariant of pyver.templates is checked for base, step and exit, its use after the loop is the rule "
            "of the tool"],
}

STAND = {}


def base(bodies, contracts, rules):
    return list(MODELS)


def assumptions(prop):
    return ASSUME + EXTRA.get(prop, [])


def standing(prop, n):
    return [dict(obligation=x, status="bounded", why="outside the verifier's reach", cases=n) for x in STAND.get(prop, [])]

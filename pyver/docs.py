"""Abstract documents of the Tiled formats: one schema, one specification, two renderers.

Everything in this file is *dual mode*: the specification functions (`spec_*`) and the
renderers (`json_*`, `tmx_*`) are written once against a document node `d` and a mode
object `d.M`.  In concrete mode a node carries sampled Python values and the renderers
build real JSON values / XML elements; in symbolic mode a node carries SMT terms and the
renderers build the symbolic inputs over which the real parser functions are verified.

The specification is written from the property statements and from the documentation of
the Tiled formats; it never looks at the implementation.
"""

# leaf types ---------------------------------------------------------------------------
INT, POS, GID, NUM, BOOL, STR, COLOR, PATH, TEXT = (
    "INT", "POS", "GID", "NUM", "BOOL", "STR", "COLOR", "PATH", "TEXT")


class F:
    """A scalar field of an entity.

    mode 'req'  : always written by both formats
         'opt'  : written or not; the parsed value of an unwritten one is None/`dflt`
         'dflt' : has a default; a writer may leave it out if the value is the default
                  (jomit/tomit: the JSON/TMX writer is allowed to leave it out)
    extra: what Tiled writes and no specified result has: it must not make a difference
    """

    def __init__(self, name, typ, mode="req", dflt=None, json=None, tmx=None,
                 jomit=True, tomit=True, tmx_always=False, json_only=False, extra=False):
        self.name, self.typ, self.mode, self.dflt = name, typ, mode, dflt
        self.json = name if json is None else json
        self.tmx = name if tmx is None else tmx
        self.jomit, self.tomit = jomit, tomit
        self.tmx_always = tmx_always
        self.json_only = json_only
        self.extra = extra


def X(name, typ, **kw):
    return F(name, typ, "opt", extra=True, **kw)


ENT = {}


def entity(name, *fields):
    ENT[name] = {f.name: f for f in fields}


entity(
    "Map",
    F("version", STR),
    F("tiledversion", STR, "dflt", "", tomit=False),
    F("orientation", STR), F("renderorder", STR),
    F("width", INT), F("height", INT), F("tilewidth", INT), F("tileheight", INT),
    F("infinite", BOOL, "dflt", False, tomit=False),
    F("nextlayerid", INT, "opt", tmx_always=True),
    F("nextobjectid", INT),
    F("class", STR, "opt"), F("backgroundcolor", COLOR, "opt"),
    F("hexsidelength", INT, "opt"), F("staggeraxis", STR, "opt"), F("staggerindex", STR, "opt"),
    F("parallaxoriginx", NUM, "dflt", 0), F("parallaxoriginy", NUM, "dflt", 0),
    X("compressionlevel", INT), X("skewx", INT),
)
entity(
    "Layer",
    F("name", STR, "dflt", "", jomit=False),
    F("opacity", NUM, "dflt", 1, jomit=False),
    F("visible", BOOL, "dflt", True, jomit=False),
    F("id", INT, "opt"), F("class", STR, "opt"), F("tintcolor", COLOR, "opt"),
    F("offsetx", NUM, "dflt", 0), F("offsety", NUM, "dflt", 0),
    F("parallaxx", NUM, "dflt", 1), F("parallaxy", NUM, "dflt", 1),
    F("repeatx", BOOL, "dflt", False), F("repeaty", BOOL, "dflt", False),
    # kind specific
    F("width", POS), F("height", POS),                      # tile layers
    F("startx", INT, "opt", json_only=True), F("starty", INT, json_only=True),
    F("draworder", STR, "dflt", "topdown", jomit=False),    # object layers
    F("image", PATH), F("transparentcolor", COLOR, "opt"),  # image layers
    F("compression", STR),                                  # 'bad' storage only
    X("locked", BOOL), X("color", COLOR), X("imagewidth", INT), X("imageheight", INT), X("mode", STR),
)
# texts that no valid file has, for the tasks about rejected files: (JSON layer type, compression)
BAD = {"type": None, "compression": None}
LAYER_COMMON = ["name", "opacity", "visible", "id", "class", "tintcolor", "offsetx", "offsety",
                "parallaxx", "parallaxy", "repeatx", "repeaty", "locked", "mode"]
entity("Chunk", F("x", INT), F("y", INT), F("width", POS), F("height", POS))
entity(
    "Object",
    F("id", INT), F("x", NUM), F("y", NUM),
    F("width", NUM, "dflt", 0, jomit=False), F("height", NUM, "dflt", 0, jomit=False),
    F("visible", BOOL, "dflt", True, jomit=False),
    F("rotation", NUM, "dflt", 0, jomit=False),
    F("name", STR, "dflt", "", jomit=False),
    F("class", STR, "opt"), F("type", STR, "opt"),
    F("gid", GID),
)
OBJECT_COMMON = ["id", "x", "y", "width", "height", "visible", "rotation", "name", "class", "type"]
entity("Point", F("x", NUM), F("y", NUM))
entity(
    "Text",
    F("text", TEXT),
    F("color", COLOR, "opt"),
    F("fontfamily", STR, "dflt", "sans-serif"), F("pixelsize", NUM, "dflt", 16),
    F("bold", BOOL, "dflt", False), F("italic", BOOL, "dflt", False),
    F("kerning", BOOL, "dflt", True), F("strikeout", BOOL, "dflt", False),
    F("underline", BOOL, "dflt", False),
    F("halign", STR, "dflt", "left"), F("valign", STR, "dflt", "top"),
    F("wrap", BOOL, "dflt", False),
)
entity(
    "Property",
    F("name", STR),
    F("v_string", TEXT), F("v_int", INT), F("v_float", NUM), F("v_bool", BOOL),
    F("v_color", COLOR), F("v_file", PATH), F("v_object", INT),
    X("propertytype", STR),
)
entity(
    "Tileset",
    F("name", STR), F("tilecount", INT), F("tilewidth", INT), F("tileheight", INT),
    F("columns", INT, "dflt", 1, tomit=False),
    F("spacing", INT, "dflt", 0, jomit=False), F("margin", INT, "dflt", 0, jomit=False),
    F("version", STR, "opt"), F("tiledversion", STR, "opt"),
    F("objectalignment", STR, "opt"), F("backgroundcolor", COLOR, "opt"), F("class", STR, "opt"),
    F("tilerendersize", STR, "dflt", "tile"), F("fillmode", STR, "dflt", "stretch"),
    F("image", PATH, "opt"), F("imagewidth", INT, "opt"), F("imageheight", INT, "opt"),
    F("transparentcolor", COLOR, "opt"),
)
entity("Pair", F("x", INT), F("y", INT))
entity("Grid", F("orientation", STR), F("width", INT), F("height", INT))
entity("Transf", F("hflip", BOOL), F("vflip", BOOL), F("rotate", BOOL), F("preferuntransformed", BOOL))
entity(
    "Tile",
    F("id", INT),
    F("class", STR, "opt"), F("type", STR, "opt"),
    F("image", PATH, "opt"), F("imagewidth", INT, "opt"), F("imageheight", INT, "opt"),
    F("x", INT, "dflt", 0), F("y", INT, "dflt", 0),
    F("width", INT, "opt"), F("height", INT, "opt"),
    X("probability", NUM),
)
entity("Frame", F("duration", INT), F("tileid", INT))
entity("WangSet", F("name", STR), F("type", STR), F("tile", INT), F("class", STR, "opt"))
entity("WangColor", F("name", STR), F("color", COLOR), F("tile", INT), F("probability", NUM),
       F("class", STR, "opt"))
entity("WangTile", F("tileid", INT), X("hflip", BOOL), X("vflip", BOOL), X("dflip", BOOL))
entity("TSRef", F("firstgid", POS), F("source", PATH))
entity("Template", F("source", PATH))
entity("World", F("onlyShowAdjacentMaps", BOOL, "opt"))
entity("WorldMap", F("fileName", PATH), F("x", NUM), F("y", NUM), F("width", NUM), F("height", NUM))
entity("Pattern", F("regexp", STR), F("multiplierX", NUM), F("multiplierY", NUM), F("offsetX", NUM, "opt"),
       F("offsetY", NUM, "opt"))

# children: (entity, field) -> child entity; sequences, optional or plain children
SEQ = {
    ("Map", "layers"): "Layer", ("Map", "tilesets"): "TSRef", ("Map", "properties"): "Property",
    ("Layer", "layers"): "Layer", ("Layer", "objects"): "Object", ("Layer", "chunks"): "Chunk",
    ("Layer", "properties"): "Property", ("Layer", "data"): INT, ("Chunk", "data"): INT,
    ("Object", "properties"): "Property", ("Object", "points"): "Point",
    ("Tileset", "properties"): "Property", ("Tileset", "tiles"): "Tile",
    ("Tileset", "wangsets"): "WangSet",
    ("Tile", "animation"): "Frame", ("Tile", "properties"): "Property",
    ("WangSet", "colors"): "WangColor", ("WangSet", "wangtiles"): "WangTile",
    ("WangSet", "properties"): "Property", ("WangColor", "properties"): "Property",
    ("WangTile", "wangid"): INT,
    ("World", "maps"): "WorldMap", ("World", "patterns"): "Pattern",
}
CHILD = {
    ("Object", "text"): "Text", ("Object", "template"): "Template",
    ("Tileset", "tileoffset"): "Pair", ("Tileset", "grid"): "Grid",
    ("Tileset", "transformations"): "Transf",
    ("Tile", "objectgroup"): "Layer",
    ("TSRef", "ts"): "Tileset",
    ("Template", "object"): "Object", ("Template", "tileset"): "TSRef",
}
# finite alternatives
KIND = {
    ("Layer", "kind"): ["tile", "object", "image", "group"],
    ("Layer", "storage"): ["plain", "b64", "zlib", "gzip"],
    ("Object", "kind"): ["rectangle", "ellipse", "point", "polygon", "polyline", "text", "tile"],
    ("Property", "ptype"): ["string", "int", "float", "bool", "color", "file", "object"],
    ("TSRef", "fmt"): ["json", "tmx"],
    ("Template", "fmt"): ["json", "tmx"],
}
SAME_FMT = ("Template", "fmt")


# ---------------------------------------------------------------------------- results
class Rec:
    """A specified result object: class name and [(field, thunk or value)]."""

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields


class SeqOf:
    """A specified sequence: the images of a document sequence under `fn`."""

    def __init__(self, seq, fn):
        self.seq, self.fn = seq, fn


class MapOf:
    """A specified dictionary: key(x) -> val(x) for x in the sequence, later ones win."""

    def __init__(self, seq, key, val):
        self.seq, self.key, self.val = seq, key, val


class Rows:
    """A grid: the integers of the sequence cut into rows of width w."""

    def __init__(self, seq, w, h):
        self.seq, self.w, self.h = seq, w, h


class Whole:
    """The specified result of parsing a nested document (used as a callee contract)."""

    def __init__(self, spec, d, args):
        self.spec, self.d, self.args = spec, d, args


def fdef(d, name):
    return ENT[d.ent][name]


def conv(d, f, v):
    M = d.M
    if f.typ == COLOR:
        return M.color(v)
    if f.typ == PATH:
        return M.path(v)
    return v


def val(d, name, fmt=None, none=None):
    """The specified parsed value of a scalar field."""
    f = fdef(d, name)
    if f.mode == "opt":
        return d.M.ite(d.has(name, fmt), lambda: conv(d, f, d.leaf(name)), lambda: none)
    return conv(d, f, d.leaf(name))


def written(d, name, fmt):
    """Does the writer of format `fmt` write this scalar field?"""
    M, f = d.M, fdef(d, name)
    if f.json_only and fmt == "tmx":
        return False
    if f.mode == "req":
        return True
    if f.mode == "opt":
        return d.has(name, fmt)
    omit = f.jomit if fmt == "json" else f.tomit
    if not omit:
        return True
    return M.or_(d.flag(("j:" if fmt == "json" else "t:") + name), M.ne(d.leaf(name), f.dflt))


def spec_properties(d, fmt, none=None):
    """Properties of any owner: None (or the given default) if there are none."""
    M = d.M
    return M.ite(
        d.has("properties", fmt),
        lambda: M.whole(proplist, d, "properties", fmt),
        lambda: none,
    )


def proplist(seq, fmt=None):
    return MapOf(seq, lambda p: p.leaf("name"), propvalue)


def propvalue(p):
    M = p.M
    return M.case(p.kind("ptype"), {
        "string": lambda: p.leaf("v_string"),
        "int": lambda: p.leaf("v_int"),
        "float": lambda: p.leaf("v_float"),
        "bool": lambda: p.leaf("v_bool"),
        "color": lambda: M.color(p.leaf("v_color")),
        "file": lambda: M.path(p.leaf("v_file")),
        "object": lambda: p.leaf("v_object"),
    })


def pair(d, a, b):
    return Rec("OrderedPair", [("x", val(d, a)), ("y", val(d, b))])


# --- layers
def layer_common(d, fmt):
    M = d.M
    is_tile = M.is_kind(d.kind("kind"), "tile")
    coords = Rec("OrderedPair", [("x", 0), ("y", 0)])
    if fmt == "json":
        zero = coords
        coords = M.ite(d.has("startx", fmt), lambda: Rec("OrderedPair", [
            ("x", d.leaf("startx")), ("y", d.leaf("starty"))]), lambda: zero)
    return [
        ("name", val(d, "name")),
        ("opacity", val(d, "opacity")),
        ("visible", val(d, "visible")),
        ("repeat_x", val(d, "repeatx")),
        ("repeat_y", val(d, "repeaty")),
        ("coordinates", coords),
        ("parallax_factor", pair(d, "parallaxx", "parallaxy")),
        ("offset", pair(d, "offsetx", "offsety")),
        ("id", val(d, "id")),
        ("class_", val(d, "class")),
        ("size", M.ite(is_tile, lambda: Rec("Size", [("width", d.leaf("width")),
                                                     ("height", d.leaf("height"))]), lambda: None)),
        ("properties", spec_properties(d, fmt)),
        ("tint_color", val(d, "tintcolor")),
    ]


def spec_chunk(c):
    return Rec("Chunk", [
        ("coordinates", Rec("OrderedPair", [("x", c.leaf("x")), ("y", c.leaf("y"))])),
        ("size", Rec("Size", [("width", c.leaf("width")), ("height", c.leaf("height"))])),
        ("data", Rows(c.ints("data"), c.leaf("width"), c.leaf("height"))),
    ])


def spec_layer(d, fmt, parent_dir):
    M = d.M
    common = layer_common(d, fmt)
    return M.case(d.kind("kind"), {
        "tile": lambda: Rec("TileLayer", common + [
            ("chunks", M.ite(d.has("chunks", fmt), lambda: SeqOf(d.seq("chunks"), spec_chunk), lambda: None)),
            ("data", M.ite(d.has("chunks", fmt), lambda: None,
                           lambda: Rows(d.ints("data"), d.leaf("width"), d.leaf("height")))),
        ]),
        "object": lambda: Rec("ObjectLayer", common + [
            ("tiled_objects", SeqOf(d.seq("objects"), lambda o: M.whole(spec_object, o, None, fmt, parent_dir))),
            ("draw_order", val(d, "draworder")),
        ]),
        "image": lambda: Rec("ImageLayer", common + [
            ("image", val(d, "image")),
            ("transparent_color", val(d, "transparentcolor")),
        ]),
        "group": lambda: Rec("LayerGroup", common + [
            ("layers", SeqOf(d.seq("layers"), lambda c: M.whole(spec_layer, c, None, fmt, parent_dir))),
        ]),
    })


# --- objects
def spec_object(d, fmt, parent_dir):
    M = d.M
    return M.ite(d.has("template", fmt),
                 lambda: spec_instance(d, fmt, parent_dir),
                 lambda: object_of(Plain(d, fmt), fmt, None, None))


class Plain:
    """What an object without a template says (uniform access for object_of)."""

    def __init__(self, d, fmt):
        self.d, self.M, self.fmt = d, d.M, fmt

    def get(self, name):
        return val(self.d, name)

    def has(self, name):
        return self.d.has(name, self.fmt)

    def kind(self):
        return self.d.kind("kind")

    def class_(self):
        d, M = self.d, self.M
        return M.ite(self.has("class"), lambda: d.leaf("class"),
                     lambda: M.ite(self.has("type"), lambda: d.leaf("type"), lambda: ""))

    def properties(self):
        return spec_properties(self.d, self.fmt, none=MapOf((), None, None))

    def points(self):
        return self.d.seq("points")

    def text(self):
        return self.d.child("text")

    def gid(self):
        return self.d.leaf("gid")


class Instance(Plain):
    """What an instance of a template says, merged with its template."""

    def __init__(self, d, fmt):
        super().__init__(d, fmt)
        self.t = Plain(d.child("template").child("object"), fmt)

    def w(self, name):
        """Does the instance itself write this?"""
        return self.d.flag("i:" + name)

    def get(self, name):
        if name == "id":
            return self.d.leaf("id")
        return self.M.ite(self.w(name), lambda: self.d.leaf(name), lambda: self.t.get(name))

    def has(self, name):
        return self.M.or_(self.w(name), self.t.has(name))

    def kind(self):
        return self.t.kind()

    def class_(self):
        M = self.M

        def one(name):
            return M.ite(self.w(name), lambda: self.d.leaf(name), lambda: self.t.d.leaf(name))
        return M.ite(self.has("class"), lambda: one("class"),
                     lambda: M.ite(self.has("type"), lambda: one("type"), lambda: ""))

    def properties(self):
        M, fmt = self.M, self.fmt
        mine, theirs = self.d.has("properties", fmt), self.t.d.has("properties", fmt)
        empty = MapOf((), None, None)
        return M.ite(mine,
                     lambda: M.ite(theirs,
                                   lambda: MapOf(M.concat(self.t.d.seq("properties"), self.d.seq("properties")),
                                                 lambda p: p.leaf("name"), propvalue),
                                   lambda: M.whole(proplist, self.d, "properties", fmt)),
                     lambda: spec_properties(self.t.d, fmt, none=empty))

    def points(self):
        return self.M.ite(self.w("shape"), lambda: self.d.seq("points"), lambda: self.t.d.seq("points"))

    def text(self):
        return self.M.ite(self.w("shape"), lambda: self.d.child("text"), lambda: self.t.d.child("text"))

    def gid(self):
        return self.M.ite(self.w("gid"), lambda: self.d.leaf("gid"), lambda: self.t.d.leaf("gid"))


def object_of(s, fmt, new_tileset, new_tileset_path):
    M = s.M
    common = [
        ("id", s.get("id")),
        ("coordinates", Rec("OrderedPair", [("x", s.get("x")), ("y", s.get("y"))])),
        ("size", Rec("Size", [("width", s.get("width")), ("height", s.get("height"))])),
        ("rotation", s.get("rotation")),
        ("visible", s.get("visible")),
        ("name", s.get("name")),
        ("class_", s.class_()),
        ("properties", s.properties()),
    ]

    def points():
        return M.on(s.points(), lambda ps: SeqOf(ps, lambda p: Rec("OrderedPair", [
            ("x", p.leaf("x")), ("y", p.leaf("y"))])))
    return M.case(s.kind(), {
        "rectangle": lambda: Rec("Rectangle", common),
        "ellipse": lambda: Rec("Ellipse", common),
        "point": lambda: Rec("Point", common),
        "polygon": lambda: Rec("Polygon", common + [("points", points())]),
        "polyline": lambda: Rec("Polyline", common + [("points", points())]),
        "text": lambda: M.on(s.text(), lambda t: spec_text(t, common)),
        "tile": lambda: Rec("Tile", common + [("gid", s.gid()), ("new_tileset", new_tileset),
                                              ("new_tileset_path", new_tileset_path)]),
    })


def spec_text(t, common):
    return Rec("Text", common + [
        ("text", val(t, "text")),
        ("color", val(t, "color", none=Rec("Color", [("red", 255), ("green", 255), ("blue", 255), ("alpha", 255)]))),
        ("font_family", val(t, "fontfamily")), ("font_size", val(t, "pixelsize")),
        ("bold", val(t, "bold")), ("italic", val(t, "italic")), ("kerning", val(t, "kerning")),
        ("strike_out", val(t, "strikeout")), ("underline", val(t, "underline")),
        ("horizontal_align", val(t, "halign")), ("vertical_align", val(t, "valign")),
        ("wrap", val(t, "wrap")),
    ])


def spec_instance(d, fmt, parent_dir):
    """An instance of a template; a tile of the template's tileset is resolved later (C15)."""
    M = d.M
    tmpl = d.child("template")
    inst = Instance(d, fmt)
    ts = tmpl.child("tileset")
    brings = M.and_(tmpl.has("tileset", fmt), M.not_(inst.w("gid")))
    tmpl_path = M.join(parent_dir, tmpl.leaf("source"))
    ts_path = M.join(M.parent(tmpl_path), ts.leaf("source"))
    raw = M.ite(brings, lambda: M.raw_tileset(ts), lambda: None)
    path = M.ite(brings, lambda: M.parent(ts_path), lambda: None)
    return object_of(inst, fmt, raw, path)


# --- tilesets
def image_path(d, extdir, written_path):
    M = d.M
    if extdir is None:
        return M.path(written_path)
    return M.resolve(M.join(extdir, written_path))


def spec_image(d, fmt, extdir):
    return d.M.ite(d.has("image", fmt), lambda: image_path(d, extdir, d.leaf("image")), lambda: None)


def spec_tile(d, fmt, extdir):
    M = d.M

    def dim(own, image):
        return M.ite(d.has(own, fmt), lambda: d.leaf(own),
                     lambda: M.ite(d.has(image, fmt), lambda: d.leaf(image), lambda: 0))
    return Rec("Tile", [
        ("id", d.leaf("id")), ("opacity", 1),
        ("x", val(d, "x")), ("y", val(d, "y")),
        ("width", dim("width", "imagewidth")), ("height", dim("height", "imageheight")),
        ("class_", M.ite(d.has("class", fmt), lambda: d.leaf("class"), lambda: val(d, "type", fmt))),
        ("animation", M.ite(d.has("animation", fmt), lambda: SeqOf(d.seq("animation"), lambda f: Rec("Frame", [
            ("tile_id", f.leaf("tileid")), ("duration", f.leaf("duration"))])), lambda: None)),
        ("objects", M.ite(d.has("objectgroup", fmt),
                          lambda: M.whole(spec_layer, d.child("objectgroup"), None, fmt, None), lambda: None)),
        ("image", spec_image(d, fmt, extdir)),
        ("image_width", val(d, "imagewidth", fmt)), ("image_height", val(d, "imageheight", fmt)),
        ("properties", spec_properties(d, fmt)),
        ("tileset", None), ("flipped_horizontally", False), ("flipped_diagonally", False),
        ("flipped_vertically", False),
    ])


def spec_wang_color(c, fmt=None):
    return Rec("WangColor", [
        ("color", val(c, "color")), ("name", c.leaf("name")), ("probability", c.leaf("probability")),
        ("tile", c.leaf("tile")), ("class_", val(c, "class")), ("properties", spec_properties(c, fmt)),
    ])


def spec_wangset(d, fmt):
    return Rec("WangSet", [
        ("name", d.leaf("name")), ("tile", d.leaf("tile")), ("wang_type", d.leaf("type")),
        ("wang_tiles", MapOf(d.seq("wangtiles"), lambda t: t.leaf("tileid"), lambda t: Rec("WangTile", [
            ("tile_id", t.leaf("tileid")), ("wang_id", SeqOf(t.ints("wangid"), lambda i: i))]))),
        ("wang_colors", SeqOf(d.seq("colors"), lambda c: spec_wang_color(c, fmt))),
        ("class_", val(d, "class")), ("properties", spec_properties(d, fmt)),
    ])


def spec_tileset(d, fmt, firstgid, extdir):
    M = d.M

    def child(name, fn):
        return M.ite(d.has(name, fmt), lambda: fn(d.child(name)), lambda: None)
    return Rec("Tileset", [
        ("name", d.leaf("name")), ("tile_width", d.leaf("tilewidth")), ("tile_height", d.leaf("tileheight")),
        ("tile_count", d.leaf("tilecount")), ("columns", val(d, "columns")), ("firstgid", firstgid),
        ("type", "tileset"),
        ("tile_render_size", val(d, "tilerendersize")), ("fill_mode", val(d, "fillmode")),
        ("spacing", val(d, "spacing")), ("margin", val(d, "margin")),
        ("tiled_version", val(d, "tiledversion")), ("version", val(d, "version")),
        ("image", spec_image(d, fmt, extdir)),
        ("image_width", val(d, "imagewidth")), ("image_height", val(d, "imageheight")),
        ("transformations", child("transformations", lambda t: Rec("Transformations", [
            ("hflip", t.leaf("hflip")), ("vflip", t.leaf("vflip")), ("rotate", t.leaf("rotate")),
            ("prefer_untransformed", t.leaf("preferuntransformed"))]))),
        ("class_", val(d, "class")), ("background_color", val(d, "backgroundcolor")),
        ("tile_offset", child("tileoffset", lambda o: Rec("OrderedPair", [("x", o.leaf("x")), ("y", o.leaf("y"))]))),
        ("transparent_color", val(d, "transparentcolor")),
        ("grid", child("grid", lambda g: Rec("Grid", [
            ("orientation", g.leaf("orientation")), ("width", g.leaf("width")), ("height", g.leaf("height"))]))),
        ("properties", spec_properties(d, fmt)),
        ("tiles", M.ite(d.has("tiles", fmt), lambda: MapOf(
            d.seq("tiles"), lambda t: t.leaf("id"), lambda t: spec_tile(t, fmt, extdir)), lambda: None)),
        ("wang_sets", M.ite(d.has("wangsets", fmt), lambda: SeqOf(
            d.seq("wangsets"), lambda w: M.whole(spec_wangset, w, None, fmt)), lambda: None)),
        ("alignment", val(d, "objectalignment")),
    ])


def tileset_of_ref(r, fmt, parent_dir):
    """The tileset a map's tileset entry stands for."""
    M = r.M

    def external():
        extdir = M.parent(M.join(parent_dir, r.leaf("source")))
        return M.case(r.kind("fmt"), {
            f: (lambda f=f: M.whole(spec_tileset, r.child("ts"), None, f, r.leaf("firstgid"), extdir))
            for f in ("json", "tmx")})
    return M.ite(r.has("source", fmt), external,
                 lambda: M.whole(spec_tileset, r.child("ts"), None, fmt, r.leaf("firstgid"), None))


# --- maps
def spec_map(d, fmt, file):
    """The map without template tilesets resolved (see templates.resolve for C15)."""
    M = d.M
    parent_dir = M.parent(file)
    return Rec("TiledMap", [
        ("map_file", file),
        ("infinite", val(d, "infinite")),
        ("layers", SeqOf(d.seq("layers"), lambda c: M.whole(spec_layer, c, None, fmt, parent_dir))),
        ("map_size", Rec("Size", [("width", d.leaf("width")), ("height", d.leaf("height"))])),
        ("next_layer_id", val(d, "nextlayerid", fmt)), ("next_object_id", d.leaf("nextobjectid")),
        ("orientation", d.leaf("orientation")), ("render_order", d.leaf("renderorder")),
        ("tiled_version", val(d, "tiledversion")),
        ("tile_size", Rec("Size", [("width", d.leaf("tilewidth")), ("height", d.leaf("tileheight"))])),
        ("tilesets", MapOf(d.seq("tilesets"), lambda r: r.leaf("firstgid"),
                           lambda r: tileset_of_ref(r, fmt, parent_dir))),
        ("version", d.leaf("version")),
        ("parallax_origin", pair(d, "parallaxoriginx", "parallaxoriginy")),
        ("class_", val(d, "class")), ("background_color", val(d, "backgroundcolor")),
        ("properties", spec_properties(d, fmt)),
        ("hex_side_length", val(d, "hexsidelength")),
        ("stagger_axis", val(d, "staggeraxis")), ("stagger_index", val(d, "staggerindex")),
    ])


# ------------------------------------------------------------------------- renderers
class JObj:
    """A JSON object: [(key, written guard, value thunk)], in file order."""

    def __init__(self, items, doc=None, what=None):
        self.items, self.doc, self.what = items, doc, what


class JList:
    """A JSON list: images of a document sequence; JDict: keyed the older way."""

    def __init__(self, seq, fn):
        self.seq, self.fn = seq, fn


class JDict:
    def __init__(self, seq, key, fn):
        self.seq, self.key, self.fn = seq, key, fn


class XElem:
    """An XML element: tag, [(attr, guard, thunk)], [(guard, thunk of XElem or XSeq)], text thunk."""

    def __init__(self, tag, attrs=(), children=(), text=None, doc=None, what=None):
        self.tag, self.attrs, self.children, self.text = tag, list(attrs), list(children), text
        self.doc, self.what = doc, what


class XSeq:
    """Repeated child elements: images of a document sequence, all of the given tags."""

    def __init__(self, seq, fn, tags):
        self.seq, self.fn, self.tags = seq, fn, tags


def jfield(d, name, wr=None):
    f = fdef(d, name)
    g = written(d, name, "json") if wr is None else wr
    return (f.json, g, lambda: d.leaf(name))


def tfield(d, name, wr=None):
    f, M = fdef(d, name), d.M
    g = written(d, name, "tmx") if wr is None else wr
    return (f.tmx, g, lambda: M.text_of(f.typ, d.leaf(name)))


# --- properties
def json_property(p):
    M = p.M
    t = p.kind("ptype")
    value = lambda: M.case(t, {k: (lambda k=k: p.leaf("v_" + k)) for k in KIND[("Property", "ptype")]})
    return JObj([("name", True, lambda: p.leaf("name")), ("type", True, lambda: M.kind_text(t)),
                 ("value", True, value), jfield(p, "propertytype")], p, "property")


def json_properties(d):
    M = d.M
    return M.ite(M.and_(d.flag("legacyprops"), M.legacy_ok(d)),
                 lambda: JDict(d.seq("properties"), lambda p: p.leaf("name"),
                               lambda p: M.legacy_value(p)),
                 lambda: JList(d.seq("properties"), json_property))


def tmx_property(p):
    M = p.M
    t = p.kind("ptype")
    is_str = M.is_kind(t, "string")
    astext = M.and_(is_str, p.flag("t:astext"), M.ne(p.leaf("v_string"), ""))

    def text_value():
        return M.case(t, {
            "string": lambda: p.leaf("v_string"), "int": lambda: M.text_of(INT, p.leaf("v_int")),
            "float": lambda: M.text_of(NUM, p.leaf("v_float")),
            "bool": lambda: M.ite(p.leaf("v_bool"), lambda: "true", lambda: "false"),
            "color": lambda: p.leaf("v_color"), "file": lambda: p.leaf("v_file"),
            "object": lambda: M.text_of(INT, p.leaf("v_object"))})
    return XElem("property", [
        ("name", True, lambda: p.leaf("name")),
        ("type", M.or_(M.not_(is_str), p.flag("t:type")), lambda: M.kind_text(t)),
        ("value", M.not_(astext), text_value),
        tfield(p, "propertytype"),
    ], text=lambda: M.ite(astext, lambda: p.leaf("v_string"), lambda: None), doc=p, what="property")


def tmx_properties(d):
    """The optional <properties> child of any owner."""
    return (d.has("properties", "tmx"), lambda: XElem(
        "properties", children=[(True, lambda: XSeq(d.seq("properties"), tmx_property, ["property"]))],
        doc=d, what="properties"))


def jprops(d):
    return ("properties", d.has("properties", "json"), lambda: json_properties(d))


# --- objects
def obj_written(d, name, fmt):
    """Instances of templates write what they override; other objects write as usual."""
    M = d.M
    return M.gite(d.has("template", fmt), lambda: True if name == "id" else d.flag("i:" + name),
                 lambda: written(d, name, fmt))


def obj_shape(d, fmt):
    M = d.M
    return M.gite(d.has("template", fmt), lambda: d.flag("i:shape"), lambda: True)


def obj_kind(d, fmt):
    M = d.M
    return M.ite(d.has("template", fmt), lambda: d.child("template").child("object").kind("kind"),
                 lambda: d.kind("kind"))


def obj_gid_written(d, fmt):
    M = d.M
    return M.gite(d.has("template", fmt),
                 lambda: M.and_(d.flag("i:gid"), M.is_kind(obj_kind(d, fmt), "tile")),
                 lambda: M.is_kind(d.kind("kind"), "tile"))


def json_object(d):
    M = d.M
    k, sh = obj_kind(d, "json"), obj_shape(d, "json")

    def shape(name):
        return M.and_(sh, M.is_kind(k, name))

    def pts():
        return JList(d.seq("points"), lambda p: JObj([jfield(p, "x"), jfield(p, "y")], p, "point"))
    items = [jfield(d, n, obj_written(d, n, "json")) for n in OBJECT_COMMON]
    items += [
        ("template", d.has("template", "json"), lambda: d.child("template").leaf("source")),
        ("gid", obj_gid_written(d, "json"), lambda: d.leaf("gid")),
        ("ellipse", shape("ellipse"), lambda: True),
        ("point", shape("point"), lambda: True),
        ("polygon", shape("polygon"), pts),
        ("polyline", shape("polyline"), pts),
        ("text", shape("text"), lambda: json_text(d.child("text"))),
        jprops(d),
    ]
    return JObj(items, d, "object")


def json_text(t):
    return JObj([jfield(t, n) for n in ENT["Text"]], t, "text")


def tmx_text(t):
    return XElem("text", [tfield(t, n) for n in ENT["Text"] if n != "text"],
                 text=lambda: t.M.text_or_none(t.leaf("text")), doc=t, what="text")


def tmx_object(d):
    M = d.M
    k, sh = obj_kind(d, "tmx"), obj_shape(d, "tmx")

    def shape(name):
        return M.and_(sh, M.is_kind(k, name))

    def pts():
        return M.points_text(d.seq("points"))
    attrs = [tfield(d, n, obj_written(d, n, "tmx")) for n in OBJECT_COMMON]
    attrs += [
        ("template", d.has("template", "tmx"), lambda: d.child("template").leaf("source")),
        ("gid", obj_gid_written(d, "tmx"), lambda: M.text_of(GID, d.leaf("gid"))),
    ]
    return XElem("object", attrs, [
        tmx_properties(d),
        (shape("ellipse"), lambda: XElem("ellipse")),
        (shape("point"), lambda: XElem("point")),
        (shape("polygon"), lambda: XElem("polygon", [("points", True, pts)])),
        (shape("polyline"), lambda: XElem("polyline", [("points", True, pts)])),
        (shape("text"), lambda: tmx_text(d.child("text"))),
    ], doc=d, what="object")


# --- layers
def json_chunk(c, storage):
    return JObj([jfield(c, "x"), jfield(c, "y"), jfield(c, "width"), jfield(c, "height"),
                 ("data", True, lambda: json_data(c, storage))], c, "chunk")


def json_data(d, storage):
    M = d.M
    return M.case(storage, {
        "plain": lambda: JList(d.ints("data"), lambda i: i),
        "b64": lambda: M.b64(d.ints("data"), None),
        "zlib": lambda: M.b64(d.ints("data"), "zlib"),
        "gzip": lambda: M.b64(d.ints("data"), "gzip"),
    })


def json_layer(d):
    M = d.M
    k, st = d.kind("kind"), d.kind("storage")
    tile, obj, img, grp = (M.is_kind(k, n) for n in ("tile", "object", "image", "group"))
    plain = M.is_kind(st, "plain")
    inf = d.has("chunks", "json")
    compressed = M.or_(M.is_kind(st, "zlib"), M.is_kind(st, "gzip"))
    items = [jfield(d, n) for n in LAYER_COMMON]
    items += [
        ("type", True, lambda: BAD["type"] or M.case(k, {
            "tile": lambda: "tilelayer", "object": lambda: "objectgroup",
            "image": lambda: "imagelayer", "group": lambda: "group"})),
        ("x", d.flag("j:xy"), lambda: 0), ("y", d.flag("j:xy"), lambda: 0),
        ("color", M.and_(obj, d.has("color", "json")), lambda: d.leaf("color")),
        ("imagewidth", M.and_(img, d.has("imagewidth", "json")), lambda: d.leaf("imagewidth")),
        ("imageheight", M.and_(img, d.has("imageheight", "json")), lambda: d.leaf("imageheight")),
        ("startx", d.has("startx", "json"), lambda: d.leaf("startx")),
        ("starty", d.has("startx", "json"), lambda: d.leaf("starty")),
        ("width", tile, lambda: d.leaf("width")), ("height", tile, lambda: d.leaf("height")),
        ("encoding", M.and_(tile, M.or_(M.not_(plain), d.flag("j:encoding"))),
         lambda: M.ite(plain, lambda: "csv", lambda: "base64")),
        ("compression", M.and_(tile, M.not_(plain), M.or_(compressed, d.flag("j:compression"), bool(BAD["compression"]))),
         lambda: BAD["compression"] or M.case(st, {"plain": lambda: "", "b64": lambda: "", "zlib": lambda: "zlib", "gzip": lambda: "gzip"})),
        ("chunks", M.and_(tile, inf), lambda: JList(d.seq("chunks"), lambda c: json_chunk(c, st))),
        ("data", M.and_(tile, M.not_(inf)), lambda: json_data(d, st)),
        ("objects", obj, lambda: JList(d.seq("objects"), json_object)),
        ("draworder", obj, lambda: d.leaf("draworder")),
        ("image", img, lambda: d.leaf("image")),
        ("transparentcolor", M.and_(img, d.has("transparentcolor", "json")), lambda: d.leaf("transparentcolor")),
        ("layers", grp, lambda: JList(d.seq("layers"), json_layer)),
        jprops(d),
    ]
    return JObj(items, d, "layer")


def tmx_data(d, storage, w):
    M = d.M
    return M.case(storage, {
        "plain": lambda: M.csv_text(d.ints("data"), w),
        "b64": lambda: M.b64(d.ints("data"), None, True),
        "zlib": lambda: M.b64(d.ints("data"), "zlib", True),
        "gzip": lambda: M.b64(d.ints("data"), "gzip", True),
    })


def tmx_chunk(c, storage):
    return XElem("chunk", [tfield(c, "x"), tfield(c, "y"), tfield(c, "width"), tfield(c, "height")],
                 text=lambda: tmx_data(c, storage, c.leaf("width")), doc=c, what="chunk")


def tmx_layer(d):
    M = d.M
    k, st = d.kind("kind"), d.kind("storage")
    tile, obj, img, grp = (M.is_kind(k, n) for n in ("tile", "object", "image", "group"))
    plain = M.is_kind(st, "plain")
    inf = d.has("chunks", "tmx")
    compressed = M.or_(M.is_kind(st, "zlib"), M.is_kind(st, "gzip"))
    tag = M.case(k, {"tile": lambda: "layer", "object": lambda: "objectgroup",
                     "image": lambda: "imagelayer", "group": lambda: "group"})

    def data():
        return XElem("data", [
            ("encoding", True, lambda: M.ite(plain, lambda: "csv", lambda: "base64")),
            ("compression", M.or_(compressed, bool(BAD["compression"])), lambda: BAD["compression"] or M.case(st, {
                "plain": lambda: "", "b64": lambda: "", "zlib": lambda: "zlib", "gzip": lambda: "gzip"})),
        ], [(inf, lambda: XSeq(d.seq("chunks"), lambda c: tmx_chunk(c, st), ["chunk"]))],
            text=lambda: M.ite(inf, lambda: M.ite(d.flag("t:nodata"), lambda: None, lambda: M.blank()), lambda: tmx_data(d, st, d.leaf("width"))))
    attrs = [tfield(d, n) for n in LAYER_COMMON] + [
        ("width", tile, lambda: M.text_of(POS, d.leaf("width"))),
        ("height", tile, lambda: M.text_of(POS, d.leaf("height"))),
        ("draworder", M.and_(obj, written(d, "draworder", "tmx")), lambda: d.leaf("draworder")),
        ("color", M.and_(obj, d.has("color", "tmx")), lambda: d.leaf("color")),
        ("x", d.flag("t:xy"), lambda: "0"), ("y", d.flag("t:xy"), lambda: "0"),
    ]
    return XElem(tag, attrs, [
        tmx_properties(d),
        (tile, data),
        (obj, lambda: XSeq(d.seq("objects"), tmx_object, ["object"])),
        (img, lambda: XElem("image", [("source", True, lambda: d.leaf("image")),
                                      ("trans", d.has("transparentcolor", "tmx"), lambda: d.leaf("transparentcolor")),
                                      ("width", d.has("imagewidth", "tmx"), lambda: M.text_of(INT, d.leaf("imagewidth"))),
                                      ("height", d.has("imageheight", "tmx"), lambda: M.text_of(INT, d.leaf("imageheight")))])),
        (grp, lambda: XSeq(d.seq("layers"), tmx_layer, ["layer", "objectgroup", "imagelayer", "group"])),
    ], doc=d, what="layer")


# --- tilesets
def json_tile(d, legacy=False):
    items = [("id", not legacy, lambda: d.leaf("id"))]
    items += [jfield(d, n) for n in ENT["Tile"] if n != "id"]
    items += [
        ("animation", d.has("animation", "json"), lambda: JList(
            d.seq("animation"), lambda f: JObj([jfield(f, "duration"), jfield(f, "tileid")], f, "frame"))),
        ("objectgroup", d.has("objectgroup", "json"), lambda: json_layer(d.child("objectgroup"))),
        jprops(d),
    ]
    return JObj(items, d, "tile")


def tmx_image(d, extra=()):
    """The <image> child of a tileset or tile."""
    return (d.has("image", "tmx"), lambda: XElem("image", [
        ("source", True, lambda: d.leaf("image")),
        ("width", d.has("imagewidth", "tmx"), lambda: d.M.text_of(INT, d.leaf("imagewidth"))),
        ("height", d.has("imageheight", "tmx"), lambda: d.M.text_of(INT, d.leaf("imageheight"))),
    ] + list(extra)))


def tmx_tile(d):
    return XElem("tile", [tfield(d, n) for n in ("id", "class", "type", "x", "y", "width", "height", "probability")] + [
        ("terrain", d.flag("t:terrain"), lambda: "0,0,,1")], [
        tmx_properties(d),
        tmx_image(d),
        (d.has("objectgroup", "tmx"), lambda: tmx_layer(d.child("objectgroup"))),
        (d.has("animation", "tmx"), lambda: XElem("animation", children=[(True, lambda: XSeq(
            d.seq("animation"), lambda f: XElem("frame", [tfield(f, "tileid"), tfield(f, "duration")], doc=f,
                                                what="frame"), ["frame"]))])),
    ], doc=d, what="tile")


def json_wangset(d):
    items = [jfield(d, n) for n in ENT["WangSet"]] + [
        ("colors", True, lambda: JList(d.seq("colors"), lambda c: JObj(
            [jfield(c, n) for n in ENT["WangColor"]] + [jprops(c)], c, "wangcolor"))),
        ("wangtiles", True, lambda: JList(d.seq("wangtiles"), lambda t: JObj([
            jfield(t, "tileid"), ("wangid", True, lambda: JList(t.ints("wangid"), lambda i: i)),
            jfield(t, "hflip"), jfield(t, "vflip"), jfield(t, "dflip")], t, "wangtile"))),
        jprops(d),
    ]
    return JObj(items, d, "wangset")


def tmx_wangset(d):
    M = d.M
    return XElem("wangset", [tfield(d, n) for n in ENT["WangSet"]], [
        tmx_properties(d),
        (True, lambda: XSeq(d.seq("colors"), lambda c: XElem(
            "wangcolor", [tfield(c, n) for n in ENT["WangColor"]], [tmx_properties(c)], doc=c, what="wangcolor"),
            ["wangcolor"])),
        (True, lambda: XSeq(d.seq("wangtiles"), lambda t: XElem("wangtile", [
            tfield(t, "tileid"), ("wangid", True, lambda: M.ints_text(t.ints("wangid"))),
            tfield(t, "hflip"), tfield(t, "vflip"), tfield(t, "dflip")], doc=t, what="wangtile"),
            ["wangtile"])),
    ], doc=d, what="wangset")


TS_SCALARS = [n for n in ENT["Tileset"] if n not in ("image", "imagewidth", "imageheight", "transparentcolor")]


def json_tileset(d, extra=(), version=True):
    M = d.M
    items = list(extra) + [jfield(d, n) for n in ENT["Tileset"] if n != "version"]
    items += [
        ("version", d.has("version", "json"), lambda: json_version(d)),
        ("tileoffset", d.has("tileoffset", "json"), lambda: (lambda o: JObj([jfield(o, "x"), jfield(o, "y")], o))(d.child("tileoffset"))),
        ("grid", d.has("grid", "json"), lambda: (lambda g: JObj([jfield(g, n) for n in ENT["Grid"]], g))(d.child("grid"))),
        ("transformations", d.has("transformations", "json"), lambda: (lambda t: JObj(
            [jfield(t, n) for n in ENT["Transf"]], t))(d.child("transformations"))),
        ("tiles", d.has("tiles", "json"), lambda: M.ite(
            d.flag("tilesdict"),
            lambda: JDict(d.seq("tiles"), lambda t: M.text_of(INT, t.leaf("id")), lambda t: json_tile(t, True)),
            lambda: JList(d.seq("tiles"), json_tile))),
        ("wangsets", d.has("wangsets", "json"), lambda: JList(d.seq("wangsets"), json_wangset)),
        ("type", d.flag("j:type"), lambda: "tileset"),
        json_editor(d),
        jprops(d),
    ]
    return JObj(items, d, "tileset")


def json_editor(d):
    """Settings of the editor: no result has them."""
    return ("editorsettings", d.flag("j:editor"), lambda: JObj([
        ("chunksize", True, lambda: JObj([("width", True, lambda: 16), ("height", True, lambda: 16)], d)),
        ("export", True, lambda: JObj([("target", True, lambda: "out.json"), ("format", True, lambda: "json")], d))], d))


def tmx_editor(d):
    return (d.flag("t:editor"), lambda: XElem("editorsettings", children=[
        (True, lambda: XElem("chunksize", [("width", True, lambda: "16"), ("height", True, lambda: "16")])),
        (True, lambda: XElem("export", [("target", True, lambda: "out.tmx"), ("format", True, lambda: "tmx")]))]))


def json_version(d):
    M = d.M
    return M.ite(d.flag("j:numversion"), lambda: M.number_with_text(d), lambda: d.leaf("version"))


def tmx_tileset(d, extra=()):
    M = d.M
    return XElem("tileset", list(extra) + [tfield(d, n) for n in TS_SCALARS], [
        tmx_editor(d),
        tmx_properties(d),
        (d.has("tileoffset", "tmx"), lambda: (lambda o: XElem("tileoffset", [tfield(o, "x"), tfield(o, "y")]))(d.child("tileoffset"))),
        (d.has("grid", "tmx"), lambda: (lambda g: XElem("grid", [tfield(g, n) for n in ENT["Grid"]]))(d.child("grid"))),
        (d.has("transformations", "tmx"), lambda: (lambda t: XElem(
            "transformations", [tfield(t, n) for n in ENT["Transf"]]))(d.child("transformations"))),
        tmx_image(d, [("trans", d.has("transparentcolor", "tmx"), lambda: d.leaf("transparentcolor"))]),
        (d.has("tiles", "tmx"), lambda: XSeq(d.seq("tiles"), tmx_tile, ["tile"])),
        (d.has("wangsets", "tmx"), lambda: XElem("wangsets", children=[
            (True, lambda: XSeq(d.seq("wangsets"), tmx_wangset, ["wangset"]))])),
    ], doc=d, what="tileset")


# --- maps
def json_tsref(r):
    M = r.M
    return M.ite(r.has("source", "json"),
                 lambda: JObj([("firstgid", True, lambda: r.leaf("firstgid")),
                               ("source", True, lambda: r.leaf("source"))], r, "tsref"),
                 lambda: json_tileset(r.child("ts"), [("firstgid", True, lambda: r.leaf("firstgid"))]))


def tmx_tsref(r):
    M = r.M
    gid = ("firstgid", True, lambda: M.text_of(POS, r.leaf("firstgid")))
    return M.ite(r.has("source", "tmx"),
                 lambda: XElem("tileset", [gid, ("source", True, lambda: r.leaf("source"))], doc=r, what="tsref"),
                 lambda: tmx_tileset(r.child("ts"), [gid]))


def json_map(d):
    items = [jfield(d, n) for n in ENT["Map"] if n != "version"] + [
        ("version", True, lambda: json_version(d)),
        ("type", True, lambda: "map"),
        ("tilesets", True, lambda: JList(d.seq("tilesets"), json_tsref)),
        ("layers", True, lambda: JList(d.seq("layers"), json_layer)),
        json_editor(d),
        jprops(d),
    ]
    return JObj(items, d, "map")


def tmx_map(d):
    return XElem("map", [tfield(d, n) for n in ENT["Map"]], [
        tmx_editor(d),
        tmx_properties(d),
        (True, lambda: XSeq(d.seq("tilesets"), tmx_tsref, ["tileset"])),
        (True, lambda: XSeq(d.seq("layers"), tmx_layer, ["layer", "objectgroup", "imagelayer", "group"])),
    ], doc=d, what="map")


# --- templates
def json_template(t):
    items = [
        ("type", True, lambda: "template"),
        ("tileset", t.has("tileset", "json"), lambda: (lambda r: JObj([
            ("firstgid", True, lambda: 1), ("source", True, lambda: r.leaf("source"))], r))(t.child("tileset"))),
        ("object", True, lambda: json_object(t.child("object"))),
    ]
    return JObj(items, t, "template")


def tmx_template(t):
    return XElem("template", [], [
        (t.has("tileset", "tmx"), lambda: (lambda r: XElem("tileset", [
            ("firstgid", True, lambda: "1"), ("source", True, lambda: r.leaf("source"))]))(t.child("tileset"))),
        (True, lambda: tmx_object(t.child("object"))),
    ], doc=t, what="template")


# --- worlds
def json_world(d):
    """A world file; absent lists of maps and patterns are those with a flag that is false."""
    return JObj([
        ("maps", d.flag("maps"), lambda: JList(
            d.seq("maps"), lambda m: JObj([jfield(m, n) for n in ENT["WorldMap"]], m, "worldmap"))),
        ("patterns", d.flag("patterns"), lambda: JList(
            d.seq("patterns"), lambda p: JObj([jfield(p, n) for n in ENT["Pattern"]], p, "pattern"))),
        jfield(d, "onlyShowAdjacentMaps"),
        ("type", d.flag("j:type"), lambda: "world"),
    ], d, "world")

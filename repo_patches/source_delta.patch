From 011b792faed71ed942b88c70a7b88c290bb7eae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:59 +0000
Subject: [PATCH 01/27] fix: do not lift nested TMX layers to the top level of
 the map

Iterating over all descendants of <map> listed every layer inside a <group>
twice, and listed tile collision <objectgroup>s of embedded tilesets as map
layers.
---
 pytiled_parser/parsers/tmx/tiled_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 988e5cf..8bcaa5e 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -60,7 +60,7 @@ def parse(file: Path) -> TiledMap:
             )
 
     layers = []
-    for element in raw_map.iter():
+    for element in raw_map:
         if element.tag in ["layer", "objectgroup", "imagelayer", "group"]:
             layers.append(parse_layer(element, parent_dir))
 
-- 
2.43.0


From da02f84cd77b390f943082759e21b8451e80fab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 02/27] fix: keep the document order of layers inside a TMX
 group

---
 pytiled_parser/parsers/tmx/layer.py | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index df219bb..f1a9036 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -326,23 +326,9 @@ def _parse_group_layer(
         LayerGroup: The LayerGroup created from raw_layer
     """
     layers: List[Layer] = []
-    for layer in raw_layer.findall("./layer"):
-        layers.append(_parse_tile_layer(layer))
-
-    for layer in raw_layer.findall("./objectgroup"):
-        layers.append(_parse_object_layer(layer, parent_dir))
-
-    for layer in raw_layer.findall("./imagelayer"):
-        layers.append(_parse_image_layer(layer))
-
-    for layer in raw_layer.findall("./group"):
-        layers.append(_parse_group_layer(layer, parent_dir))
-    # layers = []
-    # layers = [
-    #    parse(child_layer, parent_dir=parent_dir)
-    #    for child_layer in raw_layer.iter()
-    #    if child_layer.tag in ["layer", "objectgroup", "imagelayer", "group"]
-    # ]
+    for layer in raw_layer:
+        if layer.tag in ["layer", "objectgroup", "imagelayer", "group"]:
+            layers.append(parse(layer, parent_dir))
 
     return LayerGroup(layers=layers, **_parse_common(raw_layer).__dict__)
 
-- 
2.43.0


From 43c81f4d5e68c798745f615c5d76399711ccc776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:11 +0000
Subject: [PATCH 03/27] fix: read width and height of TMX objects independently

Tiled leaves out a dimension that is 0. An object with only a width raised a
KeyError, and one with only a height lost it.
---
 pytiled_parser/parsers/tmx/tiled_object.py | 591 +++++++++++----------
 1 file changed, 296 insertions(+), 295 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index 711664e..4c8e564 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -1,295 +1,296 @@
-import xml.etree.ElementTree as etree
-from pathlib import Path
-from typing import Callable, Optional
-
-from pytiled_parser.common_types import OrderedPair, Size
-from pytiled_parser.parsers.tmx.properties import parse as parse_properties
-from pytiled_parser.tiled_object import (
-    Ellipse,
-    Point,
-    Polygon,
-    Polyline,
-    Rectangle,
-    Text,
-    Tile,
-    TiledObject,
-)
-from pytiled_parser.util import load_object_template, parse_color
-
-
-def _parse_common(raw_object: etree.Element) -> TiledObject:
-    """Create an Object containing all the attributes common to all types of objects.
-
-    Args:
-        raw_object: XML Element to get common attributes from
-
-    Returns:
-        Object: The attributes in common of all types of objects
-    """
-
-    common = TiledObject(
-        id=int(raw_object.attrib["id"]),
-        coordinates=OrderedPair(
-            float(raw_object.attrib["x"]), float(raw_object.attrib["y"])
-        ),
-    )
-
-    if raw_object.attrib.get("width") is not None:
-        common.size = Size(
-            float(raw_object.attrib["width"]), float(raw_object.attrib["height"])
-        )
-
-    if raw_object.attrib.get("visible") is not None:
-        common.visible = bool(int(raw_object.attrib["visible"]))
-
-    if raw_object.attrib.get("rotation") is not None:
-        common.rotation = float(raw_object.attrib["rotation"])
-
-    if raw_object.attrib.get("name") is not None:
-        common.name = raw_object.attrib["name"]
-
-    if raw_object.attrib.get("type") is not None:
-        common.class_ = raw_object.attrib["type"]
-
-    if raw_object.attrib.get("class") is not None:
-        common.class_ = raw_object.attrib["class"]
-
-    properties_element = raw_object.find("./properties")
-    if properties_element:
-        common.properties = parse_properties(properties_element)
-
-    return common
-
-
-def _parse_ellipse(raw_object: etree.Element) -> Ellipse:
-    """Parse the raw object into an Ellipse.
-
-    Args:
-        raw_object: XML Element to be parsed to an Ellipse
-
-    Returns:
-        Ellipse: The Ellipse object created from the raw object
-    """
-    return Ellipse(**_parse_common(raw_object).__dict__)
-
-
-def _parse_rectangle(raw_object: etree.Element) -> Rectangle:
-    """Parse the raw object into a Rectangle.
-
-    Args:
-        raw_object: XML Element to be parsed to a Rectangle
-
-    Returns:
-        Rectangle: The Rectangle object created from the raw object
-    """
-    return Rectangle(**_parse_common(raw_object).__dict__)
-
-
-def _parse_point(raw_object: etree.Element) -> Point:
-    """Parse the raw object into a Point.
-
-    Args:
-        raw_object: XML Element to be parsed to a Point
-
-    Returns:
-        Point: The Point object created from the raw object
-    """
-    return Point(**_parse_common(raw_object).__dict__)
-
-
-def _parse_polygon(raw_object: etree.Element) -> Polygon:
-    """Parse the raw object into a Polygon.
-
-    Args:
-        raw_object: XML Element to be parsed to a Polygon
-
-    Returns:
-        Polygon: The Polygon object created from the raw object
-    """
-    polygon = []
-    polygon_element = raw_object.find("./polygon")
-    if polygon_element is not None:
-        for raw_point in polygon_element.attrib["points"].split(" "):
-            point = raw_point.split(",")
-            polygon.append(OrderedPair(float(point[0]), float(point[1])))
-
-    return Polygon(points=polygon, **_parse_common(raw_object).__dict__)
-
-
-def _parse_polyline(raw_object: etree.Element) -> Polyline:
-    """Parse the raw object into a Polyline.
-
-    Args:
-        raw_object: Raw object to be parsed to a Polyline
-
-    Returns:
-        Polyline: The Polyline object created from the raw object
-    """
-    polyline = []
-    polyline_element = raw_object.find("./polyline")
-    if polyline_element is not None:
-        for raw_point in polyline_element.attrib["points"].split(" "):
-            point = raw_point.split(",")
-            polyline.append(OrderedPair(float(point[0]), float(point[1])))
-
-    return Polyline(points=polyline, **_parse_common(raw_object).__dict__)
-
-
-def _parse_tile(
-    raw_object: etree.Element,
-    new_tileset: Optional[etree.Element] = None,
-    new_tileset_path: Optional[Path] = None,
-) -> Tile:
-    """Parse the raw object into a Tile.
-
-    Args:
-        raw_object: XML Element to be parsed to a Tile
-
-    Returns:
-        Tile: The Tile object created from the raw object
-    """
-    return Tile(
-        gid=int(raw_object.attrib["gid"]),
-        new_tileset=new_tileset,
-        new_tileset_path=new_tileset_path,
-        **_parse_common(raw_object).__dict__,
-    )
-
-
-def _parse_text(raw_object: etree.Element) -> Text:
-    """Parse the raw object into Text.
-
-    Args:
-        raw_object: XML Element to be parsed to a Text
-
-    Returns:
-        Text: The Text object created from the raw object
-    """
-    # required attributes
-    text_element = raw_object.find("./text")
-
-    if text_element is not None:
-        text = text_element.text
-
-        if not text:
-            text = ""
-        # create base Text object
-        text_object = Text(text=text, **_parse_common(raw_object).__dict__)
-
-        # optional attributes
-
-        if text_element.attrib.get("color") is not None:
-            text_object.color = parse_color(text_element.attrib["color"])
-
-        if text_element.attrib.get("fontfamily") is not None:
-            text_object.font_family = text_element.attrib["fontfamily"]
-
-        if text_element.attrib.get("pixelsize") is not None:
-            text_object.font_size = float(text_element.attrib["pixelsize"])
-
-        if text_element.attrib.get("bold") is not None:
-            text_object.bold = bool(int(text_element.attrib["bold"]))
-
-        if text_element.attrib.get("italic") is not None:
-            text_object.italic = bool(int(text_element.attrib["italic"]))
-
-        if text_element.attrib.get("kerning") is not None:
-            text_object.kerning = bool(int(text_element.attrib["kerning"]))
-
-        if text_element.attrib.get("strikeout") is not None:
-            text_object.strike_out = bool(int(text_element.attrib["strikeout"]))
-
-        if text_element.attrib.get("underline") is not None:
-            text_object.underline = bool(int(text_element.attrib["underline"]))
-
-        if text_element.attrib.get("halign") is not None:
-            text_object.horizontal_align = text_element.attrib["halign"]
-
-        if text_element.attrib.get("valign") is not None:
-            text_object.vertical_align = text_element.attrib["valign"]
-
-        if text_element.attrib.get("wrap") is not None:
-            text_object.wrap = bool(int(text_element.attrib["wrap"]))
-
-    return text_object
-
-
-def _get_parser(raw_object: etree.Element) -> Callable[[etree.Element], TiledObject]:
-    """Get the parser function for a given raw object.
-
-    Only used internally by the TMX parser.
-
-    Args:
-        raw_object: XML Element that is analyzed to determine the parser function.
-
-    Returns:
-        Callable[[Element], Object]: The parser function.
-    """
-    if raw_object.find("./ellipse") is not None:
-        return _parse_ellipse
-
-    if raw_object.find("./point") is not None:
-        return _parse_point
-
-    if raw_object.find("./polygon") is not None:
-        return _parse_polygon
-
-    if raw_object.find("./polyline") is not None:
-        return _parse_polyline
-
-    if raw_object.find("./text") is not None:
-        return _parse_text
-
-    # If it's none of the above, rectangle is the only one left.
-    # Rectangle is the only object which has no properties to signify that.
-    return _parse_rectangle
-
-
-def parse(raw_object: etree.Element, parent_dir: Optional[Path] = None) -> TiledObject:
-    """Parse the raw object into a pytiled_parser version
-
-    Args:
-        raw_object: XML Element that is to be parsed.
-        parent_dir: The parent directory that the map file is in.
-
-    Returns:
-        TiledObject: A parsed Object.
-
-    Raises:
-        RuntimeError: When a parameter that is conditionally required was not sent.
-    """
-    new_tileset = None
-    new_tileset_path = None
-
-    if raw_object.attrib.get("template"):
-        if not parent_dir:
-            raise RuntimeError(
-                "A parent directory must be specified when using object templates."
-            )
-        template_path = Path(parent_dir / raw_object.attrib["template"])
-        template, new_tileset, new_tileset_path = load_object_template(template_path)
-
-        if isinstance(template, etree.Element):
-            new_object = template.find("./object")
-            if new_object is not None:
-                for key, val in raw_object.attrib.items():
-                    if key == "template":
-                        continue
-                    new_object.attrib[key] = val
-
-                properties_element = raw_object.find("./properties")
-                if properties_element is not None:
-                    new_object.append(properties_element)
-
-                raw_object = new_object
-        elif isinstance(template, dict):
-            # load the JSON object into the XML object
-            raise NotImplementedError(
-                "Loading JSON object templates inside a TMX map is currently not supported, "
-                "but will be in a future release."
-            )
-
-    if raw_object.attrib.get("gid"):
-        return _parse_tile(raw_object, new_tileset, new_tileset_path)
-
-    return _get_parser(raw_object)(raw_object)
+import xml.etree.ElementTree as etree
+from pathlib import Path
+from typing import Callable, Optional
+
+from pytiled_parser.common_types import OrderedPair, Size
+from pytiled_parser.parsers.tmx.properties import parse as parse_properties
+from pytiled_parser.tiled_object import (
+    Ellipse,
+    Point,
+    Polygon,
+    Polyline,
+    Rectangle,
+    Text,
+    Tile,
+    TiledObject,
+)
+from pytiled_parser.util import load_object_template, parse_color
+
+
+def _parse_common(raw_object: etree.Element) -> TiledObject:
+    """Create an Object containing all the attributes common to all types of objects.
+
+    Args:
+        raw_object: XML Element to get common attributes from
+
+    Returns:
+        Object: The attributes in common of all types of objects
+    """
+
+    common = TiledObject(
+        id=int(raw_object.attrib["id"]),
+        coordinates=OrderedPair(
+            float(raw_object.attrib["x"]), float(raw_object.attrib["y"])
+        ),
+    )
+
+    # width and height are written independently, and each of them defaults to 0
+    common.size = Size(
+        float(raw_object.attrib.get("width", 0)),
+        float(raw_object.attrib.get("height", 0)),
+    )
+
+    if raw_object.attrib.get("visible") is not None:
+        common.visible = bool(int(raw_object.attrib["visible"]))
+
+    if raw_object.attrib.get("rotation") is not None:
+        common.rotation = float(raw_object.attrib["rotation"])
+
+    if raw_object.attrib.get("name") is not None:
+        common.name = raw_object.attrib["name"]
+
+    if raw_object.attrib.get("type") is not None:
+        common.class_ = raw_object.attrib["type"]
+
+    if raw_object.attrib.get("class") is not None:
+        common.class_ = raw_object.attrib["class"]
+
+    properties_element = raw_object.find("./properties")
+    if properties_element:
+        common.properties = parse_properties(properties_element)
+
+    return common
+
+
+def _parse_ellipse(raw_object: etree.Element) -> Ellipse:
+    """Parse the raw object into an Ellipse.
+
+    Args:
+        raw_object: XML Element to be parsed to an Ellipse
+
+    Returns:
+        Ellipse: The Ellipse object created from the raw object
+    """
+    return Ellipse(**_parse_common(raw_object).__dict__)
+
+
+def _parse_rectangle(raw_object: etree.Element) -> Rectangle:
+    """Parse the raw object into a Rectangle.
+
+    Args:
+        raw_object: XML Element to be parsed to a Rectangle
+
+    Returns:
+        Rectangle: The Rectangle object created from the raw object
+    """
+    return Rectangle(**_parse_common(raw_object).__dict__)
+
+
+def _parse_point(raw_object: etree.Element) -> Point:
+    """Parse the raw object into a Point.
+
+    Args:
+        raw_object: XML Element to be parsed to a Point
+
+    Returns:
+        Point: The Point object created from the raw object
+    """
+    return Point(**_parse_common(raw_object).__dict__)
+
+
+def _parse_polygon(raw_object: etree.Element) -> Polygon:
+    """Parse the raw object into a Polygon.
+
+    Args:
+        raw_object: XML Element to be parsed to a Polygon
+
+    Returns:
+        Polygon: The Polygon object created from the raw object
+    """
+    polygon = []
+    polygon_element = raw_object.find("./polygon")
+    if polygon_element is not None:
+        for raw_point in polygon_element.attrib["points"].split(" "):
+            point = raw_point.split(",")
+            polygon.append(OrderedPair(float(point[0]), float(point[1])))
+
+    return Polygon(points=polygon, **_parse_common(raw_object).__dict__)
+
+
+def _parse_polyline(raw_object: etree.Element) -> Polyline:
+    """Parse the raw object into a Polyline.
+
+    Args:
+        raw_object: Raw object to be parsed to a Polyline
+
+    Returns:
+        Polyline: The Polyline object created from the raw object
+    """
+    polyline = []
+    polyline_element = raw_object.find("./polyline")
+    if polyline_element is not None:
+        for raw_point in polyline_element.attrib["points"].split(" "):
+            point = raw_point.split(",")
+            polyline.append(OrderedPair(float(point[0]), float(point[1])))
+
+    return Polyline(points=polyline, **_parse_common(raw_object).__dict__)
+
+
+def _parse_tile(
+    raw_object: etree.Element,
+    new_tileset: Optional[etree.Element] = None,
+    new_tileset_path: Optional[Path] = None,
+) -> Tile:
+    """Parse the raw object into a Tile.
+
+    Args:
+        raw_object: XML Element to be parsed to a Tile
+
+    Returns:
+        Tile: The Tile object created from the raw object
+    """
+    return Tile(
+        gid=int(raw_object.attrib["gid"]),
+        new_tileset=new_tileset,
+        new_tileset_path=new_tileset_path,
+        **_parse_common(raw_object).__dict__,
+    )
+
+
+def _parse_text(raw_object: etree.Element) -> Text:
+    """Parse the raw object into Text.
+
+    Args:
+        raw_object: XML Element to be parsed to a Text
+
+    Returns:
+        Text: The Text object created from the raw object
+    """
+    # required attributes
+    text_element = raw_object.find("./text")
+
+    if text_element is not None:
+        text = text_element.text
+
+        if not text:
+            text = ""
+        # create base Text object
+        text_object = Text(text=text, **_parse_common(raw_object).__dict__)
+
+        # optional attributes
+
+        if text_element.attrib.get("color") is not None:
+            text_object.color = parse_color(text_element.attrib["color"])
+
+        if text_element.attrib.get("fontfamily") is not None:
+            text_object.font_family = text_element.attrib["fontfamily"]
+
+        if text_element.attrib.get("pixelsize") is not None:
+            text_object.font_size = float(text_element.attrib["pixelsize"])
+
+        if text_element.attrib.get("bold") is not None:
+            text_object.bold = bool(int(text_element.attrib["bold"]))
+
+        if text_element.attrib.get("italic") is not None:
+            text_object.italic = bool(int(text_element.attrib["italic"]))
+
+        if text_element.attrib.get("kerning") is not None:
+            text_object.kerning = bool(int(text_element.attrib["kerning"]))
+
+        if text_element.attrib.get("strikeout") is not None:
+            text_object.strike_out = bool(int(text_element.attrib["strikeout"]))
+
+        if text_element.attrib.get("underline") is not None:
+            text_object.underline = bool(int(text_element.attrib["underline"]))
+
+        if text_element.attrib.get("halign") is not None:
+            text_object.horizontal_align = text_element.attrib["halign"]
+
+        if text_element.attrib.get("valign") is not None:
+            text_object.vertical_align = text_element.attrib["valign"]
+
+        if text_element.attrib.get("wrap") is not None:
+            text_object.wrap = bool(int(text_element.attrib["wrap"]))
+
+    return text_object
+
+
+def _get_parser(raw_object: etree.Element) -> Callable[[etree.Element], TiledObject]:
+    """Get the parser function for a given raw object.
+
+    Only used internally by the TMX parser.
+
+    Args:
+        raw_object: XML Element that is analyzed to determine the parser function.
+
+    Returns:
+        Callable[[Element], Object]: The parser function.
+    """
+    if raw_object.find("./ellipse") is not None:
+        return _parse_ellipse
+
+    if raw_object.find("./point") is not None:
+        return _parse_point
+
+    if raw_object.find("./polygon") is not None:
+        return _parse_polygon
+
+    if raw_object.find("./polyline") is not None:
+        return _parse_polyline
+
+    if raw_object.find("./text") is not None:
+        return _parse_text
+
+    # If it's none of the above, rectangle is the only one left.
+    # Rectangle is the only object which has no properties to signify that.
+    return _parse_rectangle
+
+
+def parse(raw_object: etree.Element, parent_dir: Optional[Path] = None) -> TiledObject:
+    """Parse the raw object into a pytiled_parser version
+
+    Args:
+        raw_object: XML Element that is to be parsed.
+        parent_dir: The parent directory that the map file is in.
+
+    Returns:
+        TiledObject: A parsed Object.
+
+    Raises:
+        RuntimeError: When a parameter that is conditionally required was not sent.
+    """
+    new_tileset = None
+    new_tileset_path = None
+
+    if raw_object.attrib.get("template"):
+        if not parent_dir:
+            raise RuntimeError(
+                "A parent directory must be specified when using object templates."
+            )
+        template_path = Path(parent_dir / raw_object.attrib["template"])
+        template, new_tileset, new_tileset_path = load_object_template(template_path)
+
+        if isinstance(template, etree.Element):
+            new_object = template.find("./object")
+            if new_object is not None:
+                for key, val in raw_object.attrib.items():
+                    if key == "template":
+                        continue
+                    new_object.attrib[key] = val
+
+                properties_element = raw_object.find("./properties")
+                if properties_element is not None:
+                    new_object.append(properties_element)
+
+                raw_object = new_object
+        elif isinstance(template, dict):
+            # load the JSON object into the XML object
+            raise NotImplementedError(
+                "Loading JSON object templates inside a TMX map is currently not supported, "
+                "but will be in a future release."
+            )
+
+    if raw_object.attrib.get("gid"):
+        return _parse_tile(raw_object, new_tileset, new_tileset_path)
+
+    return _get_parser(raw_object)(raw_object)
-- 
2.43.0


From dea3f0bee4cde66c5c7e7bb7314b2d7b1655175a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:13 +0000
Subject: [PATCH 04/27] fix: read offsetx and offsety of layers independently

Each of them defaults to 0. A layer with only offsetx raised a KeyError, and
one with only offsety lost it.
---
 pytiled_parser/parsers/json/layer.py | 6 ++++--
 pytiled_parser/parsers/tmx/layer.py  | 9 +++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/pytiled_parser/parsers/json/layer.py b/pytiled_parser/parsers/json/layer.py
index 5f8208e..602742d 100644
--- a/pytiled_parser/parsers/json/layer.py
+++ b/pytiled_parser/parsers/json/layer.py
@@ -228,8 +228,10 @@ def _parse_common(raw_layer: RawLayer) -> Layer:
     if raw_layer.get("width") is not None:
         common.size = Size(raw_layer["width"], raw_layer["height"])
 
-    if raw_layer.get("offsetx") is not None:
-        common.offset = OrderedPair(raw_layer["offsetx"], raw_layer["offsety"])
+    # offsetx and offsety each default to 0
+    common.offset = OrderedPair(
+        raw_layer.get("offsetx", 0), raw_layer.get("offsety", 0)
+    )
 
     if raw_layer.get("properties") is not None:
         common.properties = parse_properties(raw_layer["properties"])
diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index f1a9036..63b183c 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -170,10 +170,11 @@ def _parse_common(raw_layer: etree.Element) -> Layer:
     if raw_layer.attrib.get("id") is not None:
         common.id = int(raw_layer.attrib["id"])
 
-    if raw_layer.attrib.get("offsetx") is not None:
-        common.offset = OrderedPair(
-            float(raw_layer.attrib["offsetx"]), float(raw_layer.attrib["offsety"])
-        )
+    # offsetx and offsety each default to 0
+    common.offset = OrderedPair(
+        float(raw_layer.attrib.get("offsetx", 0)),
+        float(raw_layer.attrib.get("offsety", 0)),
+    )
 
     properties_element = raw_layer.find("./properties")
     if properties_element is not None:
-- 
2.43.0


From 8680d50fa5199e98d771d873072b78e32eef438f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:15 +0000
Subject: [PATCH 05/27] fix: let JSON template instances override values of
 their template

The values of the template replaced the ones set on the instance, including
all of its custom properties. An instance's own gid belongs to the map, not to
the tileset of the template.
---
 pytiled_parser/parsers/json/tiled_object.py | 671 ++++++++++----------
 1 file changed, 339 insertions(+), 332 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_object.py b/pytiled_parser/parsers/json/tiled_object.py
index 33cae00..3144b49 100644
--- a/pytiled_parser/parsers/json/tiled_object.py
+++ b/pytiled_parser/parsers/json/tiled_object.py
@@ -1,332 +1,339 @@
-"""Object parsing for the JSON Map Format.
-"""
-from pathlib import Path
-from typing import Any, Callable, Dict, List, Optional
-
-from typing_extensions import TypedDict
-
-from pytiled_parser.common_types import OrderedPair, Size
-from pytiled_parser.parsers.json.properties import RawProperty
-from pytiled_parser.parsers.json.properties import parse as parse_properties
-from pytiled_parser.tiled_object import (
-    Ellipse,
-    Point,
-    Polygon,
-    Polyline,
-    Rectangle,
-    Text,
-    Tile,
-    TiledObject,
-)
-from pytiled_parser.util import load_object_template, parse_color
-
-RawText = TypedDict(
-    "RawText",
-    {
-        "text": str,
-        "color": str,
-        "fontfamily": str,
-        "pixelsize": float,  # this is `font_size` in Text
-        "bold": bool,
-        "italic": bool,
-        "strikeout": bool,
-        "underline": bool,
-        "kerning": bool,
-        "halign": str,
-        "valign": str,
-        "wrap": bool,
-    },
-)
-RawText.__doc__ = """
-    The keys and their types that appear in a Tiled JSON Text Object.
-
-    Tiled Doc: https://doc.mapeditor.org/en/stable/reference/json-map-format/#text-example
-"""
-
-
-RawObject = TypedDict(
-    "RawObject",
-    {
-        "id": int,
-        "gid": int,
-        "template": str,
-        "x": float,
-        "y": float,
-        "width": float,
-        "height": float,
-        "rotation": float,
-        "visible": bool,
-        "name": str,
-        "class": str,
-        "type": str,
-        "properties": List[RawProperty],
-        "ellipse": bool,
-        "point": bool,
-        "polygon": List[Dict[str, float]],
-        "polyline": List[Dict[str, float]],
-        "text": RawText,
-    },
-)
-RawObject.__doc__ = """
-    The keys and their types that appear in a Tiled JSON Object.
-
-    Tiled Doc: https://doc.mapeditor.org/en/stable/reference/json-map-format/#object
-"""
-
-
-def _parse_common(raw_object: RawObject) -> TiledObject:
-    """Create an Object containing all the attributes common to all types of objects.
-
-    Args:
-        raw_object: Raw object to get common attributes from
-
-    Returns:
-        Object: The attributes in common of all types of objects
-    """
-
-    common = TiledObject(
-        id=raw_object["id"],
-        coordinates=OrderedPair(raw_object["x"], raw_object["y"]),
-        visible=raw_object["visible"],
-        size=Size(raw_object["width"], raw_object["height"]),
-        rotation=raw_object["rotation"],
-        name=raw_object["name"],
-    )
-
-    if raw_object.get("type") is not None:
-        common.class_ = raw_object["type"]
-
-    if raw_object.get("class") is not None:
-        common.class_ = raw_object["class"]
-
-    if raw_object.get("properties") is not None:
-        common.properties = parse_properties(raw_object["properties"])
-
-    return common
-
-
-def _parse_ellipse(raw_object: RawObject) -> Ellipse:
-    """Parse the raw object into an Ellipse.
-
-    Args:
-        raw_object: Raw object to be parsed to an Ellipse
-
-    Returns:
-        Ellipse: The Ellipse object created from the raw object
-    """
-    return Ellipse(**_parse_common(raw_object).__dict__)
-
-
-def _parse_rectangle(raw_object: RawObject) -> Rectangle:
-    """Parse the raw object into a Rectangle.
-
-    Args:
-        raw_object: Raw object to be parsed to a Rectangle
-
-    Returns:
-        Rectangle: The Rectangle object created from the raw object
-    """
-    return Rectangle(**_parse_common(raw_object).__dict__)
-
-
-def _parse_point(raw_object: RawObject) -> Point:
-    """Parse the raw object into a Point.
-
-    Args:
-        raw_object: Raw object to be parsed to a Point
-
-    Returns:
-        Point: The Point object created from the raw object
-    """
-    return Point(**_parse_common(raw_object).__dict__)
-
-
-def _parse_polygon(raw_object: RawObject) -> Polygon:
-    """Parse the raw object into a Polygon.
-
-    Args:
-        raw_object: Raw object to be parsed to a Polygon
-
-    Returns:
-        Polygon: The Polygon object created from the raw object
-    """
-    polygon = []
-    for point in raw_object["polygon"]:
-        polygon.append(OrderedPair(point["x"], point["y"]))
-
-    return Polygon(points=polygon, **_parse_common(raw_object).__dict__)
-
-
-def _parse_polyline(raw_object: RawObject) -> Polyline:
-    """Parse the raw object into a Polyline.
-
-    Args:
-        raw_object: Raw object to be parsed to a Polyline
-
-    Returns:
-        Polyline: The Polyline object created from the raw object
-    """
-    polyline = []
-    for point in raw_object["polyline"]:
-        polyline.append(OrderedPair(point["x"], point["y"]))
-
-    return Polyline(points=polyline, **_parse_common(raw_object).__dict__)
-
-
-def _parse_tile(
-    raw_object: RawObject,
-    new_tileset: Optional[Dict[str, Any]] = None,
-    new_tileset_path: Optional[Path] = None,
-) -> Tile:
-    """Parse the raw object into a Tile.
-
-    Args:
-        raw_object: Raw object to be parsed to a Tile
-
-    Returns:
-        Tile: The Tile object created from the raw object
-    """
-    gid = raw_object["gid"]
-
-    return Tile(
-        gid=gid,
-        new_tileset=new_tileset,
-        new_tileset_path=new_tileset_path,
-        **_parse_common(raw_object).__dict__,
-    )
-
-
-def _parse_text(raw_object: RawObject) -> Text:
-    """Parse the raw object into Text.
-
-    Args:
-        raw_object: Raw object to be parsed to a Text
-
-    Returns:
-        Text: The Text object created from the raw object
-    """
-    # required attributes
-    raw_text: RawText = raw_object["text"]
-    text = raw_text["text"]
-
-    # create base Text object
-    text_object = Text(text=text, **_parse_common(raw_object).__dict__)
-
-    # optional attributes
-    if raw_text.get("color") is not None:
-        text_object.color = parse_color(raw_text["color"])
-
-    if raw_text.get("fontfamily") is not None:
-        text_object.font_family = raw_text["fontfamily"]
-
-    if raw_text.get("pixelsize") is not None:
-        text_object.font_size = raw_text["pixelsize"]
-
-    if raw_text.get("bold") is not None:
-        text_object.bold = raw_text["bold"]
-
-    if raw_text.get("italic") is not None:
-        text_object.italic = raw_text["italic"]
-
-    if raw_text.get("kerning") is not None:
-        text_object.kerning = raw_text["kerning"]
-
-    if raw_text.get("strikeout") is not None:
-        text_object.strike_out = raw_text["strikeout"]
-
-    if raw_text.get("underline") is not None:
-        text_object.underline = raw_text["underline"]
-
-    if raw_text.get("halign") is not None:
-        text_object.horizontal_align = raw_text["halign"]
-
-    if raw_text.get("valign") is not None:
-        text_object.vertical_align = raw_text["valign"]
-
-    if raw_text.get("wrap") is not None:
-        text_object.wrap = raw_text["wrap"]
-
-    return text_object
-
-
-def _get_parser(raw_object: RawObject) -> Callable[[RawObject], TiledObject]:
-    """Get the parser function for a given raw object.
-
-    Only used internally by the JSON parser.
-
-    Args:
-        raw_object: Raw object that is analyzed to determine the parser function.
-
-    Returns:
-        Callable[[RawObject], Object]: The parser function.
-    """
-    if raw_object.get("ellipse"):
-        return _parse_ellipse
-
-    if raw_object.get("point"):
-        return _parse_point
-
-    # This is excluded from tests because the coverage is broken. I promise
-    # there are tests for Tile objects, but for some reason the coverage
-    # isn't picking up this if statement(though it does pickup the _parse_tile)
-    # function so who knows
-    if raw_object.get("gid"):  # pragma: no cover
-        # Only tile objects have the `gid` key
-        return _parse_tile
-
-    if raw_object.get("polygon"):
-        return _parse_polygon
-
-    if raw_object.get("polyline"):
-        return _parse_polyline
-
-    if raw_object.get("text"):
-        return _parse_text
-
-    # If it's none of the above, rectangle is the only one left.
-    # Rectangle is the only object which has no special properties to signify that.
-    return _parse_rectangle
-
-
-def parse(
-    raw_object: RawObject,
-    parent_dir: Optional[Path] = None,
-) -> TiledObject:
-    """Parse the raw object into a pytiled_parser version
-
-    Args:
-        raw_object: Raw object that is to be cast.
-        parent_dir: The parent directory that the map file is in.
-
-    Returns:
-        Object: A parsed Object.
-
-    Raises:
-        RuntimeError: When a parameter that is conditionally required was not sent.
-    """
-    new_tileset = None
-    new_tileset_path = None
-
-    if raw_object.get("template"):
-        if not parent_dir:
-            raise RuntimeError(
-                "A parent directory must be specified when using object templates."
-            )
-        template_path = Path(parent_dir / raw_object["template"])
-        template, new_tileset, new_tileset_path = load_object_template(template_path)
-
-        if isinstance(template, dict):
-            loaded_template = template["object"]
-            for key in loaded_template:
-                if key != "id":
-                    raw_object[key] = loaded_template[key]  # type: ignore
-        else:
-            raise NotImplementedError(
-                "Loading TMX object templates inside a JSON map is currently not supported, "
-                "but will be in a future release."
-            )
-
-    if raw_object.get("gid"):
-        return _parse_tile(raw_object, new_tileset, new_tileset_path)
-
-    return _get_parser(raw_object)(raw_object)
+"""Object parsing for the JSON Map Format.
+"""
+from pathlib import Path
+from typing import Any, Callable, Dict, List, Optional
+
+from typing_extensions import TypedDict
+
+from pytiled_parser.common_types import OrderedPair, Size
+from pytiled_parser.parsers.json.properties import RawProperty
+from pytiled_parser.parsers.json.properties import parse as parse_properties
+from pytiled_parser.tiled_object import (
+    Ellipse,
+    Point,
+    Polygon,
+    Polyline,
+    Rectangle,
+    Text,
+    Tile,
+    TiledObject,
+)
+from pytiled_parser.util import load_object_template, parse_color
+
+RawText = TypedDict(
+    "RawText",
+    {
+        "text": str,
+        "color": str,
+        "fontfamily": str,
+        "pixelsize": float,  # this is `font_size` in Text
+        "bold": bool,
+        "italic": bool,
+        "strikeout": bool,
+        "underline": bool,
+        "kerning": bool,
+        "halign": str,
+        "valign": str,
+        "wrap": bool,
+    },
+)
+RawText.__doc__ = """
+    The keys and their types that appear in a Tiled JSON Text Object.
+
+    Tiled Doc: https://doc.mapeditor.org/en/stable/reference/json-map-format/#text-example
+"""
+
+
+RawObject = TypedDict(
+    "RawObject",
+    {
+        "id": int,
+        "gid": int,
+        "template": str,
+        "x": float,
+        "y": float,
+        "width": float,
+        "height": float,
+        "rotation": float,
+        "visible": bool,
+        "name": str,
+        "class": str,
+        "type": str,
+        "properties": List[RawProperty],
+        "ellipse": bool,
+        "point": bool,
+        "polygon": List[Dict[str, float]],
+        "polyline": List[Dict[str, float]],
+        "text": RawText,
+    },
+)
+RawObject.__doc__ = """
+    The keys and their types that appear in a Tiled JSON Object.
+
+    Tiled Doc: https://doc.mapeditor.org/en/stable/reference/json-map-format/#object
+"""
+
+
+def _parse_common(raw_object: RawObject) -> TiledObject:
+    """Create an Object containing all the attributes common to all types of objects.
+
+    Args:
+        raw_object: Raw object to get common attributes from
+
+    Returns:
+        Object: The attributes in common of all types of objects
+    """
+
+    common = TiledObject(
+        id=raw_object["id"],
+        coordinates=OrderedPair(raw_object["x"], raw_object["y"]),
+        visible=raw_object["visible"],
+        size=Size(raw_object["width"], raw_object["height"]),
+        rotation=raw_object["rotation"],
+        name=raw_object["name"],
+    )
+
+    if raw_object.get("type") is not None:
+        common.class_ = raw_object["type"]
+
+    if raw_object.get("class") is not None:
+        common.class_ = raw_object["class"]
+
+    if raw_object.get("properties") is not None:
+        common.properties = parse_properties(raw_object["properties"])
+
+    return common
+
+
+def _parse_ellipse(raw_object: RawObject) -> Ellipse:
+    """Parse the raw object into an Ellipse.
+
+    Args:
+        raw_object: Raw object to be parsed to an Ellipse
+
+    Returns:
+        Ellipse: The Ellipse object created from the raw object
+    """
+    return Ellipse(**_parse_common(raw_object).__dict__)
+
+
+def _parse_rectangle(raw_object: RawObject) -> Rectangle:
+    """Parse the raw object into a Rectangle.
+
+    Args:
+        raw_object: Raw object to be parsed to a Rectangle
+
+    Returns:
+        Rectangle: The Rectangle object created from the raw object
+    """
+    return Rectangle(**_parse_common(raw_object).__dict__)
+
+
+def _parse_point(raw_object: RawObject) -> Point:
+    """Parse the raw object into a Point.
+
+    Args:
+        raw_object: Raw object to be parsed to a Point
+
+    Returns:
+        Point: The Point object created from the raw object
+    """
+    return Point(**_parse_common(raw_object).__dict__)
+
+
+def _parse_polygon(raw_object: RawObject) -> Polygon:
+    """Parse the raw object into a Polygon.
+
+    Args:
+        raw_object: Raw object to be parsed to a Polygon
+
+    Returns:
+        Polygon: The Polygon object created from the raw object
+    """
+    polygon = []
+    for point in raw_object["polygon"]:
+        polygon.append(OrderedPair(point["x"], point["y"]))
+
+    return Polygon(points=polygon, **_parse_common(raw_object).__dict__)
+
+
+def _parse_polyline(raw_object: RawObject) -> Polyline:
+    """Parse the raw object into a Polyline.
+
+    Args:
+        raw_object: Raw object to be parsed to a Polyline
+
+    Returns:
+        Polyline: The Polyline object created from the raw object
+    """
+    polyline = []
+    for point in raw_object["polyline"]:
+        polyline.append(OrderedPair(point["x"], point["y"]))
+
+    return Polyline(points=polyline, **_parse_common(raw_object).__dict__)
+
+
+def _parse_tile(
+    raw_object: RawObject,
+    new_tileset: Optional[Dict[str, Any]] = None,
+    new_tileset_path: Optional[Path] = None,
+) -> Tile:
+    """Parse the raw object into a Tile.
+
+    Args:
+        raw_object: Raw object to be parsed to a Tile
+
+    Returns:
+        Tile: The Tile object created from the raw object
+    """
+    gid = raw_object["gid"]
+
+    return Tile(
+        gid=gid,
+        new_tileset=new_tileset,
+        new_tileset_path=new_tileset_path,
+        **_parse_common(raw_object).__dict__,
+    )
+
+
+def _parse_text(raw_object: RawObject) -> Text:
+    """Parse the raw object into Text.
+
+    Args:
+        raw_object: Raw object to be parsed to a Text
+
+    Returns:
+        Text: The Text object created from the raw object
+    """
+    # required attributes
+    raw_text: RawText = raw_object["text"]
+    text = raw_text["text"]
+
+    # create base Text object
+    text_object = Text(text=text, **_parse_common(raw_object).__dict__)
+
+    # optional attributes
+    if raw_text.get("color") is not None:
+        text_object.color = parse_color(raw_text["color"])
+
+    if raw_text.get("fontfamily") is not None:
+        text_object.font_family = raw_text["fontfamily"]
+
+    if raw_text.get("pixelsize") is not None:
+        text_object.font_size = raw_text["pixelsize"]
+
+    if raw_text.get("bold") is not None:
+        text_object.bold = raw_text["bold"]
+
+    if raw_text.get("italic") is not None:
+        text_object.italic = raw_text["italic"]
+
+    if raw_text.get("kerning") is not None:
+        text_object.kerning = raw_text["kerning"]
+
+    if raw_text.get("strikeout") is not None:
+        text_object.strike_out = raw_text["strikeout"]
+
+    if raw_text.get("underline") is not None:
+        text_object.underline = raw_text["underline"]
+
+    if raw_text.get("halign") is not None:
+        text_object.horizontal_align = raw_text["halign"]
+
+    if raw_text.get("valign") is not None:
+        text_object.vertical_align = raw_text["valign"]
+
+    if raw_text.get("wrap") is not None:
+        text_object.wrap = raw_text["wrap"]
+
+    return text_object
+
+
+def _get_parser(raw_object: RawObject) -> Callable[[RawObject], TiledObject]:
+    """Get the parser function for a given raw object.
+
+    Only used internally by the JSON parser.
+
+    Args:
+        raw_object: Raw object that is analyzed to determine the parser function.
+
+    Returns:
+        Callable[[RawObject], Object]: The parser function.
+    """
+    if raw_object.get("ellipse"):
+        return _parse_ellipse
+
+    if raw_object.get("point"):
+        return _parse_point
+
+    # This is excluded from tests because the coverage is broken. I promise
+    # there are tests for Tile objects, but for some reason the coverage
+    # isn't picking up this if statement(though it does pickup the _parse_tile)
+    # function so who knows
+    if raw_object.get("gid"):  # pragma: no cover
+        # Only tile objects have the `gid` key
+        return _parse_tile
+
+    if raw_object.get("polygon"):
+        return _parse_polygon
+
+    if raw_object.get("polyline"):
+        return _parse_polyline
+
+    if raw_object.get("text"):
+        return _parse_text
+
+    # If it's none of the above, rectangle is the only one left.
+    # Rectangle is the only object which has no special properties to signify that.
+    return _parse_rectangle
+
+
+def parse(
+    raw_object: RawObject,
+    parent_dir: Optional[Path] = None,
+) -> TiledObject:
+    """Parse the raw object into a pytiled_parser version
+
+    Args:
+        raw_object: Raw object that is to be cast.
+        parent_dir: The parent directory that the map file is in.
+
+    Returns:
+        Object: A parsed Object.
+
+    Raises:
+        RuntimeError: When a parameter that is conditionally required was not sent.
+    """
+    new_tileset = None
+    new_tileset_path = None
+
+    if raw_object.get("template"):
+        if not parent_dir:
+            raise RuntimeError(
+                "A parent directory must be specified when using object templates."
+            )
+        template_path = Path(parent_dir / raw_object["template"])
+        template, new_tileset, new_tileset_path = load_object_template(template_path)
+
+        if isinstance(template, dict):
+            if raw_object.get("gid"):
+                # The instance has its own tile, which is one of the map's tiles
+                new_tileset = new_tileset_path = None
+
+            # Values set on the instance take precedence over the template
+            loaded_template = template["object"]
+            for key in loaded_template:
+                if key == "properties" and key in raw_object:
+                    raw_object[key] = loaded_template[key] + raw_object[key]
+                elif key != "id" and key not in raw_object:
+                    raw_object[key] = loaded_template[key]  # type: ignore
+        else:
+            raise NotImplementedError(
+                "Loading TMX object templates inside a JSON map is currently not supported, "
+                "but will be in a future release."
+            )
+
+    if raw_object.get("gid"):
+        return _parse_tile(raw_object, new_tileset, new_tileset_path)
+
+    return _get_parser(raw_object)(raw_object)
-- 
2.43.0


From 9345bdcee47a11259d7d308db6251aa83f94b3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:18 +0000
Subject: [PATCH 06/27] fix: let TMX template instances override child elements
 of their template

Custom properties of the instance were ignored when the template had any, and
an overridden shape or text was always ignored. An instance's own gid belongs
to the map, not to the tileset of the template.
---
 pytiled_parser/parsers/tmx/tiled_object.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index 4c8e564..c77f668 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -278,9 +278,20 @@ def parse(raw_object: etree.Element, parent_dir: Optional[Path] = None) -> Tiled
                         continue
                     new_object.attrib[key] = val
 
-                properties_element = raw_object.find("./properties")
-                if properties_element is not None:
-                    new_object.append(properties_element)
+                if raw_object.attrib.get("gid"):
+                    # The instance has its own tile, which is one of the map's tiles
+                    new_tileset = new_tileset_path = None
+
+                # Values set on the instance take precedence over the template
+                for child in raw_object:
+                    template_child = new_object.find(child.tag)
+                    if template_child is None:
+                        new_object.append(child)
+                    elif child.tag == "properties":
+                        template_child.extend(list(child))
+                    else:
+                        new_object.remove(template_child)
+                        new_object.append(child)
 
                 raw_object = new_object
         elif isinstance(template, dict):
-- 
2.43.0


From b383cf3d51ac46e2cdd72db9c8247a67f14296d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:20 +0000
Subject: [PATCH 07/27] fix: read multi-line string properties from TMX files

Tiled stores string values with newlines as the text of the property element.
They were dropped.
---
 pytiled_parser/parsers/tmx/properties.py | 73 ++++++++++++------------
 1 file changed, 38 insertions(+), 35 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/properties.py b/pytiled_parser/parsers/tmx/properties.py
index 1b20e3d..ecd94be 100644
--- a/pytiled_parser/parsers/tmx/properties.py
+++ b/pytiled_parser/parsers/tmx/properties.py
@@ -1,35 +1,38 @@
-import xml.etree.ElementTree as etree
-from pathlib import Path
-
-from pytiled_parser.properties import Properties, Property
-from pytiled_parser.util import parse_color
-
-
-def parse(raw_properties: etree.Element) -> Properties:
-    final: Properties = {}
-    value: Property
-
-    for raw_property in raw_properties.findall("property"):
-        type_ = raw_property.attrib.get("type")
-
-        if "value" not in raw_property.attrib:
-            continue
-
-        value_ = raw_property.attrib["value"]
-
-        if type_ == "file":
-            value = Path(value_)
-        elif type_ == "color":
-            value = parse_color(value_)
-        elif type_ == "int" or type_ == "float":
-            value = float(value_)
-        elif type_ == "bool":
-            if value_ == "true":
-                value = True
-            else:
-                value = False
-        else:
-            value = value_
-        final[raw_property.attrib["name"]] = value
-
-    return final
+import xml.etree.ElementTree as etree
+from pathlib import Path
+
+from pytiled_parser.properties import Properties, Property
+from pytiled_parser.util import parse_color
+
+
+def parse(raw_properties: etree.Element) -> Properties:
+    final: Properties = {}
+    value: Property
+
+    for raw_property in raw_properties.findall("property"):
+        type_ = raw_property.attrib.get("type")
+
+        if "value" in raw_property.attrib:
+            value_ = raw_property.attrib["value"]
+        elif type_ in (None, "string") and raw_property.text is not None:
+            # Strings with newlines are stored as the content of the element
+            value_ = raw_property.text
+        else:
+            continue
+
+        if type_ == "file":
+            value = Path(value_)
+        elif type_ == "color":
+            value = parse_color(value_)
+        elif type_ == "int" or type_ == "float":
+            value = float(value_)
+        elif type_ == "bool":
+            if value_ == "true":
+                value = True
+            else:
+                value = False
+        else:
+            value = value_
+        final[raw_property.attrib["name"]] = value
+
+    return final
-- 
2.43.0


From 752d421ce06a378767b09a0ec7f5af1bdcae1571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:22 +0000
Subject: [PATCH 08/27] fix: read object properties of TMX files as an object
 id

The value is a number in the JSON format, and was left a string for TMX.
---
 pytiled_parser/parsers/tmx/properties.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytiled_parser/parsers/tmx/properties.py b/pytiled_parser/parsers/tmx/properties.py
index ecd94be..e216253 100644
--- a/pytiled_parser/parsers/tmx/properties.py
+++ b/pytiled_parser/parsers/tmx/properties.py
@@ -26,6 +26,8 @@ def parse(raw_properties: etree.Element) -> Properties:
             value = parse_color(value_)
         elif type_ == "int" or type_ == "float":
             value = float(value_)
+        elif type_ == "object":
+            value = int(value_)
         elif type_ == "bool":
             if value_ == "true":
                 value = True
-- 
2.43.0


From 7abbee9774ffc1dbf9544f49f837b1565e731b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:24 +0000
Subject: [PATCH 09/27] fix: read the class of wang sets and wang colors from
 JSON files

---
 pytiled_parser/parsers/json/wang_set.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pytiled_parser/parsers/json/wang_set.py b/pytiled_parser/parsers/json/wang_set.py
index f44c4b2..4cb5cd8 100644
--- a/pytiled_parser/parsers/json/wang_set.py
+++ b/pytiled_parser/parsers/json/wang_set.py
@@ -82,6 +82,9 @@ def _parse_wang_color(raw_wang_color: RawWangColor) -> WangColor:
         probability=raw_wang_color["probability"],
     )
 
+    if raw_wang_color.get("class") is not None:
+        wang_color.class_ = raw_wang_color["class"]
+
     if raw_wang_color.get("properties") is not None:
         wang_color.properties = parse_properties(raw_wang_color["properties"])
 
@@ -114,6 +117,9 @@ def parse(raw_wangset: RawWangSet) -> WangSet:
         wang_tiles=tiles,
     )
 
+    if raw_wangset.get("class") is not None:
+        wangset.class_ = raw_wangset["class"]
+
     if raw_wangset.get("properties") is not None:
         wangset.properties = parse_properties(raw_wangset["properties"])
 
-- 
2.43.0


From 446071d0aec8f42f14e937d05c21f6b8a05545e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:27 +0000
Subject: [PATCH 10/27] fix: do not crash on empty files or leading blank lines
 in check_format

An empty first line raised an IndexError, for valid JSON files with a leading
blank line as well as for empty files, which are an unknown format.
---
 pytiled_parser/util.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index 45de44e..c491a04 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -38,8 +38,7 @@ def parse_color(color: str) -> Color:
 
 def check_format(file_path: Path) -> str:
     with open(file_path) as file:
-        line = file.readline().rstrip().strip()
-        if line[0] == "<":
+        if file.read().lstrip().startswith("<"):
             return "tmx"
         else:
             return "json"
-- 
2.43.0


From 73f59dc075cf341511079a6651cf51e86d2b3fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:29 +0000
Subject: [PATCH 11/27] fix: convert integer versions of old JSON files to a
 string

Tiled up to 1.1 wrote "version": 1, which was not converted like 1.2 is.
---
 pytiled_parser/parsers/json/tiled_map.py | 2 +-
 pytiled_parser/parsers/json/tileset.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index a5113f5..fae5b95 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -104,7 +104,7 @@ def parse(file: Path) -> TiledMap:
                 raw_tileset, raw_tileset["firstgid"]
             )
 
-    if isinstance(raw_tiled_map["version"], float):  # pragma: no cover
+    if isinstance(raw_tiled_map["version"], (int, float)):  # pragma: no cover
         version = str(raw_tiled_map["version"])
     else:
         version = raw_tiled_map["version"]
diff --git a/pytiled_parser/parsers/json/tileset.py b/pytiled_parser/parsers/json/tileset.py
index cbbc51d..c15b39e 100644
--- a/pytiled_parser/parsers/json/tileset.py
+++ b/pytiled_parser/parsers/json/tileset.py
@@ -260,7 +260,7 @@ def parse(
         # to keep old versions in the test data and not update them with the
         # rest so I'm excluding this from coverage. In reality it's probably
         # not needed. Tiled hasn't been using floats for the version for a long time
-        if isinstance(raw_tileset["version"], float):  # pragma: no cover
+        if isinstance(raw_tileset["version"], (int, float)):  # pragma: no cover
             tileset.version = str(raw_tileset["version"])
         else:
             tileset.version = raw_tileset["version"]
-- 
2.43.0


From 28a86cf79f8f1492e52afd83646df9e73b4a409b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:15 +0000
Subject: [PATCH 12/27] fix: raise ValueError for unsupported compression types

As documented for _decode_tile_layer_data. The compressed bytes were returned
as tile ids.
---
 pytiled_parser/parsers/json/layer.py | 2 ++
 pytiled_parser/parsers/tmx/layer.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pytiled_parser/parsers/json/layer.py b/pytiled_parser/parsers/json/layer.py
index 602742d..7bc8c4b 100644
--- a/pytiled_parser/parsers/json/layer.py
+++ b/pytiled_parser/parsers/json/layer.py
@@ -144,6 +144,8 @@ def _decode_tile_layer_data(
     # See above note at top of module about zstd tests
     elif compression == "zstd":  # pragma: no cover
         unzipped_data = zstd.decompress(unencoded_data)
+    elif compression:
+        raise ValueError(f"Unsupported compression type: {compression}")
     else:
         unzipped_data = unencoded_data
 
diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index 63b183c..232bcf4 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -89,6 +89,8 @@ def _decode_tile_layer_data(
     # See above note at top of module about zstd tests
     elif compression == "zstd":  # pragma: no cover
         unzipped_data = zstd.decompress(unencoded_data)
+    elif compression:
+        raise ValueError(f"Unsupported compression type: {compression}")
     else:
         unzipped_data = unencoded_data
 
-- 
2.43.0


From 70075883fab5ac8b1f8fe823203cc9bda9caf2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:17 +0000
Subject: [PATCH 13/27] fix: accept JSON tile layers with explicit csv encoding
 or no compression

"csv" is the documented default encoding, and "compression" is optional.
---
 pytiled_parser/parsers/json/layer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pytiled_parser/parsers/json/layer.py b/pytiled_parser/parsers/json/layer.py
index 7bc8c4b..1081b29 100644
--- a/pytiled_parser/parsers/json/layer.py
+++ b/pytiled_parser/parsers/json/layer.py
@@ -279,16 +279,18 @@ def _parse_tile_layer(raw_layer: RawLayer) -> TileLayer:
         for chunk in raw_layer["chunks"]:
             if raw_layer.get("encoding") is not None:
                 tile_layer.chunks.append(
-                    _parse_chunk(chunk, raw_layer["encoding"], raw_layer["compression"])
+                    _parse_chunk(
+                        chunk, raw_layer["encoding"], raw_layer.get("compression", "")
+                    )
                 )
             else:
                 tile_layer.chunks.append(_parse_chunk(chunk))
 
     if raw_layer.get("data") is not None:
-        if raw_layer.get("encoding") is not None:
+        if raw_layer.get("encoding", "csv") != "csv":
             tile_layer.data = _decode_tile_layer_data(
                 data=cast(str, raw_layer["data"]),
-                compression=raw_layer["compression"],
+                compression=raw_layer.get("compression", ""),
                 layer_width=raw_layer["width"],
             )
         else:
-- 
2.43.0


From 394ace0709bae323b95b2f2b4c6311693f0b9c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:20 +0000
Subject: [PATCH 14/27] fix: do not crash on empty tile layers of infinite TMX
 maps

---
 pytiled_parser/parsers/tmx/layer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index 232bcf4..e219c8f 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -234,7 +234,10 @@ def _parse_tile_layer(raw_layer: etree.Element) -> TileLayer:
             compression = data_element.attrib["compression"]
 
         raw_chunks = data_element.findall("chunk")
-        if not raw_chunks:
+        if not raw_chunks and not (data_element.text or "").strip():
+            # A layer of an infinite map on which no tiles have been placed
+            tile_layer.chunks = []
+        elif not raw_chunks:
             if encoding and encoding != "csv":
                 tile_layer.data = _decode_tile_layer_data(
                     data=data_element.text,  # type: ignore
-- 
2.43.0


From 0346f4ff11e037e9019f55d587fa5138128a6a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:23 +0000
Subject: [PATCH 15/27] fix: accept TMX images without width and height

Both attributes are optional, and leaving them out is fine in JSON files.
---
 pytiled_parser/parsers/tmx/tileset.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/tileset.py b/pytiled_parser/parsers/tmx/tileset.py
index 5d788af..e288097 100644
--- a/pytiled_parser/parsers/tmx/tileset.py
+++ b/pytiled_parser/parsers/tmx/tileset.py
@@ -106,10 +106,13 @@ def _parse_tile(raw_tile: etree.Element, external_path: Optional[Path] = None) -
         else:
             tile.image = Path(image_element.attrib["source"])
 
-        tile.image_width = int(image_element.attrib["width"])
-        tile.width = tile.image_width
-        tile.image_height = int(image_element.attrib["height"])
-        tile.height = tile.image_height
+        if image_element.attrib.get("width") is not None:
+            tile.image_width = int(image_element.attrib["width"])
+            tile.width = tile.image_width
+
+        if image_element.attrib.get("height") is not None:
+            tile.image_height = int(image_element.attrib["height"])
+            tile.height = tile.image_height
 
     if raw_tile.attrib.get("x") is not None:
         tile.x = int(raw_tile.attrib["x"])
@@ -178,8 +181,11 @@ def parse(
         else:
             tileset.image = Path(image_element.attrib["source"])
 
-        tileset.image_width = int(image_element.attrib["width"])
-        tileset.image_height = int(image_element.attrib["height"])
+        if image_element.attrib.get("width") is not None:
+            tileset.image_width = int(image_element.attrib["width"])
+
+        if image_element.attrib.get("height") is not None:
+            tileset.image_height = int(image_element.attrib["height"])
 
         if image_element.attrib.get("trans") is not None:
             my_string = image_element.attrib["trans"]
-- 
2.43.0


From 8e9d5cd025c658e5ea1b894c65de35b3df17b06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:25 +0000
Subject: [PATCH 16/27] fix: raise UnknownFormat for unreadable tilesets of TMX
 maps

check_format never returns anything but tmx or json, so the intended
UnknownFormat was unreachable and a JSONDecodeError came out.
---
 pytiled_parser/parsers/tmx/tiled_map.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 8bcaa5e..3e506c7 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -42,16 +42,20 @@ def parse(file: Path) -> TiledMap:
                         int(raw_tileset.attrib["firstgid"]),
                         external_path=tileset_path.parent,
                     )
-                elif parser == "json":
-                    tilesets[int(raw_tileset.attrib["firstgid"])] = parse_json_tileset(
-                        json.load(tileset_file),
-                        int(raw_tileset.attrib["firstgid"]),
-                        external_path=tileset_path.parent,
-                    )
                 else:
-                    raise UnknownFormat(
-                        "Unkown Tileset format, please use either the TSX or JSON format."
-                    )
+                    try:
+                        tilesets[
+                            int(raw_tileset.attrib["firstgid"])
+                        ] = parse_json_tileset(
+                            json.load(tileset_file),
+                            int(raw_tileset.attrib["firstgid"]),
+                            external_path=tileset_path.parent,
+                        )
+                    except ValueError:
+                        raise UnknownFormat(
+                            "Unkown Tileset format, please use either the TSX or JSON format. "
+                            "This message could also mean your tileset file is invalid or corrupted."
+                        )
 
         else:
             # Is an embedded Tileset
-- 
2.43.0


From 48bb6e2f8cfad38c983bf538989cb1cca04e3457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:28 +0000
Subject: [PATCH 17/27] fix: do not share one properties dict between all
 objects without properties

---
 pytiled_parser/tiled_object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytiled_parser/tiled_object.py b/pytiled_parser/tiled_object.py
index edf7495..2be8c6e 100644
--- a/pytiled_parser/tiled_object.py
+++ b/pytiled_parser/tiled_object.py
@@ -39,7 +39,7 @@ class TiledObject:
     name: str = ""
     class_: str = ""
 
-    properties: properties_.Properties = {}
+    properties: properties_.Properties = attr.Factory(dict)
 
 
 @attr.s()
-- 
2.43.0


From a107454ad51190543c5671c7f67c5270c048d1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:31 +0000
Subject: [PATCH 18/27] fix: remove debug output from the TMX map parser

---
 pytiled_parser/parsers/tmx/tiled_map.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 3e506c7..e9bee8a 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -111,7 +111,6 @@ def parse(file: Path) -> TiledMap:
                             break
 
                     if not already_loaded:
-                        print("here")
                         highest_firstgid = max(map_.tilesets.keys())
                         last_tileset_count = map_.tilesets[highest_firstgid].tile_count
                         new_firstgid = highest_firstgid + last_tileset_count
-- 
2.43.0


From 9362185c013cf6f9a208eaee8ae2637a756403c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 19/27] fix: reject colors with characters that are not
 hexadecimal digits

int() accepts signs and whitespace, so "#-1-1-1" was parsed to
(-1, -1, -1, 255), and any first character was taken for the '#'.
---
 pytiled_parser/util.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index c491a04..85d0c7e 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -1,5 +1,6 @@
 """Utility Functions for PyTiled"""
 import json
+import string
 import xml.etree.ElementTree as etree
 from pathlib import Path
 from typing import Any
@@ -17,11 +18,13 @@ def parse_color(color: str) -> Color:
     Returns:
         :Color: Color object in the format that PyTiled understands.
     """
-    # the actual part we care about is always an even number
-    if len(color) % 2:
-        # strip initial '#' character
+    # strip initial '#' character
+    if color.startswith("#"):
         color = color[1:]
 
+    if any(digit not in string.hexdigits for digit in color):
+        raise ValueError("Improperly formatted color passed to parse_color")
+
     if len(color) == 6:
         # full opacity if no alpha specified
         return Color(int(color[0:2], 16), int(color[2:4], 16), int(color[4:6], 16), 255)
-- 
2.43.0


From 9ea3385c3aad792fc16088a5759ec3b75cbfe0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 20/27] fix: resolve template tilesets of objects in layers
 nested inside groups

---
 pytiled_parser/parsers/json/tiled_map.py |  8 +++-----
 pytiled_parser/parsers/tmx/tiled_map.py  |  8 +++-----
 pytiled_parser/util.py                   | 12 +++++++++++-
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index fae5b95..d7767b1 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -15,7 +15,7 @@ from pytiled_parser.parsers.json.tileset import RawTileSet
 from pytiled_parser.parsers.json.tileset import parse as parse_json_tileset
 from pytiled_parser.parsers.tmx.tileset import parse as parse_tmx_tileset
 from pytiled_parser.tiled_map import TiledMap, TilesetDict
-from pytiled_parser.util import check_format, parse_color
+from pytiled_parser.util import check_format, iter_object_layers, parse_color
 
 RawTilesetMapping = TypedDict("RawTilesetMapping", {"firstgid": int, "source": str})
 
@@ -125,9 +125,7 @@ def parse(file: Path) -> TiledMap:
         version=version,
     )
 
-    layers = [layer for layer in map_.layers if hasattr(layer, "tiled_objects")]
-
-    for my_layer in layers:
+    for my_layer in iter_object_layers(map_.layers):
         # Mypy extremely hates what is going on in this whole block
         # For some reason an ignore on this first for loop is causing it
         # to just not care about any of the problems in here.
@@ -141,7 +139,7 @@ def parse(file: Path) -> TiledMap:
         # tilesets have been loaded in already, and use them if they have been, but then
         # be able to dynamically add-in tilesets after having parsed the rest of the map.
 
-        for tiled_object in my_layer.tiled_objects:  # type: ignore
+        for tiled_object in my_layer.tiled_objects:
             if hasattr(tiled_object, "new_tileset"):
                 if tiled_object.new_tileset is not None:
                     already_loaded = None
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index e9bee8a..5d19c9d 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -9,7 +9,7 @@ from pytiled_parser.parsers.tmx.layer import parse as parse_layer
 from pytiled_parser.parsers.tmx.properties import parse as parse_properties
 from pytiled_parser.parsers.tmx.tileset import parse as parse_tmx_tileset
 from pytiled_parser.tiled_map import TiledMap, TilesetDict
-from pytiled_parser.util import check_format, parse_color
+from pytiled_parser.util import check_format, iter_object_layers, parse_color
 
 
 def parse(file: Path) -> TiledMap:
@@ -85,9 +85,7 @@ def parse(file: Path) -> TiledMap:
         version=raw_map.attrib["version"],
     )
 
-    layers = [layer for layer in map_.layers if hasattr(layer, "tiled_objects")]
-
-    for my_layer in layers:
+    for my_layer in iter_object_layers(map_.layers):
         # Mypy extremely hates what is going on in this whole block
         # For some reason an ignore on this first for loop is causing it
         # to just not care about any of the problems in here.
@@ -101,7 +99,7 @@ def parse(file: Path) -> TiledMap:
         # tilesets have been loaded in already, and use them if they have been, but then
         # be able to dynamically add-in tilesets after having parsed the rest of the map.
 
-        for tiled_object in my_layer.tiled_objects:  # type: ignore
+        for tiled_object in my_layer.tiled_objects:
             if hasattr(tiled_object, "new_tileset"):
                 if tiled_object.new_tileset is not None:
                     already_loaded = None
diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index 85d0c7e..d2c1b77 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -3,9 +3,10 @@ import json
 import string
 import xml.etree.ElementTree as etree
 from pathlib import Path
-from typing import Any
+from typing import Any, Iterable, Iterator
 
 from pytiled_parser.common_types import Color
+from pytiled_parser.layer import Layer, LayerGroup, ObjectLayer
 
 
 def parse_color(color: str) -> Color:
@@ -47,6 +48,15 @@ def check_format(file_path: Path) -> str:
             return "json"
 
 
+def iter_object_layers(layers: Iterable[Layer]) -> Iterator[ObjectLayer]:
+    """Iterate over all object layers, including the ones nested inside of groups."""
+    for layer in layers:
+        if isinstance(layer, ObjectLayer):
+            yield layer
+        elif isinstance(layer, LayerGroup):
+            yield from iter_object_layers(layer.layers or [])
+
+
 def load_object_template(file_path: Path) -> Any:
     template_format = check_format(file_path)
 
-- 
2.43.0


From d0065c7039398dae1825f9383627d819f0245e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:08 +0000
Subject: [PATCH 21/27] fix: accept object template tilesets in maps without
 own tilesets

---
 pytiled_parser/parsers/json/tiled_map.py | 10 +++++++---
 pytiled_parser/parsers/tmx/tiled_map.py  | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index d7767b1..7de02d9 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -149,9 +149,13 @@ def parse(file: Path) -> TiledMap:
                             break
 
                     if not already_loaded:
-                        highest_firstgid = max(map_.tilesets.keys())
-                        last_tileset_count = map_.tilesets[highest_firstgid].tile_count
-                        new_firstgid = highest_firstgid + last_tileset_count
+                        new_firstgid = 1
+                        if map_.tilesets:
+                            highest_firstgid = max(map_.tilesets.keys())
+                            last_tileset_count = map_.tilesets[
+                                highest_firstgid
+                            ].tile_count
+                            new_firstgid = highest_firstgid + last_tileset_count
                         map_.tilesets[new_firstgid] = parse_json_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 5d19c9d..e623486 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -109,9 +109,13 @@ def parse(file: Path) -> TiledMap:
                             break
 
                     if not already_loaded:
-                        highest_firstgid = max(map_.tilesets.keys())
-                        last_tileset_count = map_.tilesets[highest_firstgid].tile_count
-                        new_firstgid = highest_firstgid + last_tileset_count
+                        new_firstgid = 1
+                        if map_.tilesets:
+                            highest_firstgid = max(map_.tilesets.keys())
+                            last_tileset_count = map_.tilesets[
+                                highest_firstgid
+                            ].tile_count
+                            new_firstgid = highest_firstgid + last_tileset_count
                         map_.tilesets[new_firstgid] = parse_tmx_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
-- 
2.43.0


From 8e6442ddbab4965c565a489233df02835f422740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 22/27] fix: do not overlap template tilesets with sparse image
 collections

---
 pytiled_parser/parsers/json/tiled_map.py | 10 ++++++----
 pytiled_parser/parsers/tmx/tiled_map.py  | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index 7de02d9..344f46f 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -152,10 +152,12 @@ def parse(file: Path) -> TiledMap:
                         new_firstgid = 1
                         if map_.tilesets:
                             highest_firstgid = max(map_.tilesets.keys())
-                            last_tileset_count = map_.tilesets[
-                                highest_firstgid
-                            ].tile_count
-                            new_firstgid = highest_firstgid + last_tileset_count
+                            last_tileset = map_.tilesets[highest_firstgid]
+                            # Tile ids of image collections may have gaps
+                            last_tile_id = max(last_tileset.tiles or [-1])
+                            new_firstgid = highest_firstgid + max(
+                                last_tileset.tile_count, last_tile_id + 1
+                            )
                         map_.tilesets[new_firstgid] = parse_json_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index e623486..f291aa2 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -112,10 +112,12 @@ def parse(file: Path) -> TiledMap:
                         new_firstgid = 1
                         if map_.tilesets:
                             highest_firstgid = max(map_.tilesets.keys())
-                            last_tileset_count = map_.tilesets[
-                                highest_firstgid
-                            ].tile_count
-                            new_firstgid = highest_firstgid + last_tileset_count
+                            last_tileset = map_.tilesets[highest_firstgid]
+                            # Tile ids of image collections may have gaps
+                            last_tile_id = max(last_tileset.tiles or [-1])
+                            new_firstgid = highest_firstgid + max(
+                                last_tileset.tile_count, last_tile_id + 1
+                            )
                         map_.tilesets[new_firstgid] = parse_tmx_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
-- 
2.43.0


From 65ed75bbba6f0b94eb56243c6d185a87938a2a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:13 +0000
Subject: [PATCH 23/27] fix: load template tilesets that are in the other
 format

---
 pytiled_parser/parsers/json/tiled_map.py | 25 ++++++++++++++++++------
 pytiled_parser/parsers/tmx/tiled_map.py  | 25 ++++++++++++++++++------
 2 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index 344f46f..0d03724 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -142,9 +142,15 @@ def parse(file: Path) -> TiledMap:
         for tiled_object in my_layer.tiled_objects:
             if hasattr(tiled_object, "new_tileset"):
                 if tiled_object.new_tileset is not None:
+                    # The tileset may be in either of the formats
+                    if isinstance(tiled_object.new_tileset, etree.Element):
+                        new_name = tiled_object.new_tileset.attrib["name"]
+                    else:
+                        new_name = tiled_object.new_tileset["name"]
+
                     already_loaded = None
                     for val in map_.tilesets.values():
-                        if val.name == tiled_object.new_tileset["name"]:
+                        if val.name == new_name:
                             already_loaded = val
                             break
 
@@ -158,11 +164,18 @@ def parse(file: Path) -> TiledMap:
                             new_firstgid = highest_firstgid + max(
                                 last_tileset.tile_count, last_tile_id + 1
                             )
-                        map_.tilesets[new_firstgid] = parse_json_tileset(
-                            tiled_object.new_tileset,
-                            new_firstgid,
-                            tiled_object.new_tileset_path,
-                        )
+                        if isinstance(tiled_object.new_tileset, etree.Element):
+                            map_.tilesets[new_firstgid] = parse_tmx_tileset(
+                                tiled_object.new_tileset,
+                                new_firstgid,
+                                tiled_object.new_tileset_path,
+                            )
+                        else:
+                            map_.tilesets[new_firstgid] = parse_json_tileset(
+                                tiled_object.new_tileset,
+                                new_firstgid,
+                                tiled_object.new_tileset_path,
+                            )
                         tiled_object.gid = tiled_object.gid + (new_firstgid - 1)
 
                     else:
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index f291aa2..4ef23f3 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -102,9 +102,15 @@ def parse(file: Path) -> TiledMap:
         for tiled_object in my_layer.tiled_objects:
             if hasattr(tiled_object, "new_tileset"):
                 if tiled_object.new_tileset is not None:
+                    # The tileset may be in either of the formats
+                    if isinstance(tiled_object.new_tileset, etree.Element):
+                        new_name = tiled_object.new_tileset.attrib["name"]
+                    else:
+                        new_name = tiled_object.new_tileset["name"]
+
                     already_loaded = None
                     for val in map_.tilesets.values():
-                        if val.name == tiled_object.new_tileset.attrib["name"]:
+                        if val.name == new_name:
                             already_loaded = val
                             break
 
@@ -118,11 +124,18 @@ def parse(file: Path) -> TiledMap:
                             new_firstgid = highest_firstgid + max(
                                 last_tileset.tile_count, last_tile_id + 1
                             )
-                        map_.tilesets[new_firstgid] = parse_tmx_tileset(
-                            tiled_object.new_tileset,
-                            new_firstgid,
-                            tiled_object.new_tileset_path,
-                        )
+                        if isinstance(tiled_object.new_tileset, etree.Element):
+                            map_.tilesets[new_firstgid] = parse_tmx_tileset(
+                                tiled_object.new_tileset,
+                                new_firstgid,
+                                tiled_object.new_tileset_path,
+                            )
+                        else:
+                            map_.tilesets[new_firstgid] = parse_json_tileset(
+                                tiled_object.new_tileset,
+                                new_firstgid,
+                                tiled_object.new_tileset_path,
+                            )
                         tiled_object.gid = tiled_object.gid + (new_firstgid - 1)
 
                     else:
-- 
2.43.0


From 8976d20421e8cd581369d51ccfcecc4b8475ebe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:59 +0000
Subject: [PATCH 24/27] fix: merge template properties in the older dictionary
 form

---
 pytiled_parser/parsers/json/tiled_object.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytiled_parser/parsers/json/tiled_object.py b/pytiled_parser/parsers/json/tiled_object.py
index 3144b49..d711665 100644
--- a/pytiled_parser/parsers/json/tiled_object.py
+++ b/pytiled_parser/parsers/json/tiled_object.py
@@ -324,7 +324,10 @@ def parse(
             loaded_template = template["object"]
             for key in loaded_template:
                 if key == "properties" and key in raw_object:
-                    raw_object[key] = loaded_template[key] + raw_object[key]
+                    if isinstance(raw_object[key], dict):
+                        raw_object[key] = {**loaded_template[key], **raw_object[key]}
+                    else:
+                        raw_object[key] = loaded_template[key] + raw_object[key]
                 elif key != "id" and key not in raw_object:
                     raw_object[key] = loaded_template[key]  # type: ignore
         else:
-- 
2.43.0


From 1fbcd7d23f60ae34c86834f88a7bc7040ef695df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:48 +0000
Subject: [PATCH 25/27] fix: do not replace an empty tileset by a template's
 tileset

---
 pytiled_parser/parsers/json/tiled_map.py | 5 +++--
 pytiled_parser/parsers/tmx/tiled_map.py  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index 0d03724..457f48b 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -159,10 +159,11 @@ def parse(file: Path) -> TiledMap:
                         if map_.tilesets:
                             highest_firstgid = max(map_.tilesets.keys())
                             last_tileset = map_.tilesets[highest_firstgid]
-                            # Tile ids of image collections may have gaps
+                            # Tile ids of image collections may have gaps, and an empty
+                            # one must not be replaced
                             last_tile_id = max(last_tileset.tiles or [-1])
                             new_firstgid = highest_firstgid + max(
-                                last_tileset.tile_count, last_tile_id + 1
+                                last_tileset.tile_count, last_tile_id + 1, 1
                             )
                         if isinstance(tiled_object.new_tileset, etree.Element):
                             map_.tilesets[new_firstgid] = parse_tmx_tileset(
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 4ef23f3..12ecc97 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -119,10 +119,11 @@ def parse(file: Path) -> TiledMap:
                         if map_.tilesets:
                             highest_firstgid = max(map_.tilesets.keys())
                             last_tileset = map_.tilesets[highest_firstgid]
-                            # Tile ids of image collections may have gaps
+                            # Tile ids of image collections may have gaps, and an empty
+                            # one must not be replaced
                             last_tile_id = max(last_tileset.tiles or [-1])
                             new_firstgid = highest_firstgid + max(
-                                last_tileset.tile_count, last_tile_id + 1
+                                last_tileset.tile_count, last_tile_id + 1, 1
                             )
                         if isinstance(tiled_object.new_tileset, etree.Element):
                             map_.tilesets[new_firstgid] = parse_tmx_tileset(
-- 
2.43.0


From e69c8434bceaeb6a32452b5a8cbcb177158052b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 26/27] fix: restore the CRLF line endings that earlier fixes
 had changed

---
 pytiled_parser/parsers/json/tiled_object.py | 684 ++++++++++----------
 pytiled_parser/parsers/tmx/properties.py    |  80 +--
 pytiled_parser/parsers/tmx/tiled_object.py  | 614 +++++++++---------
 3 files changed, 689 insertions(+), 689 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_object.py b/pytiled_parser/parsers/json/tiled_object.py
index d711665..769e82e 100644
--- a/pytiled_parser/parsers/json/tiled_object.py
+++ b/pytiled_parser/parsers/json/tiled_object.py
@@ -1,342 +1,342 @@
-"""Object parsing for the JSON Map Format.
-"""
-from pathlib import Path
-from typing import Any, Callable, Dict, List, Optional
-
-from typing_extensions import TypedDict
-
-from pytiled_parser.common_types import OrderedPair, Size
-from pytiled_parser.parsers.json.properties import RawProperty
-from pytiled_parser.parsers.json.properties import parse as parse_properties
-from pytiled_parser.tiled_object import (
-    Ellipse,
-    Point,
-    Polygon,
-    Polyline,
-    Rectangle,
-    Text,
-    Tile,
-    TiledObject,
-)
-from pytiled_parser.util import load_object_template, parse_color
-
-RawText = TypedDict(
-    "RawText",
-    {
-        "text": str,
-        "color": str,
-        "fontfamily": str,
-        "pixelsize": float,  # this is `font_size` in Text
-        "bold": bool,
-        "italic": bool,
-        "strikeout": bool,
-        "underline": bool,
-        "kerning": bool,
-        "halign": str,
-        "valign": str,
-        "wrap": bool,
-    },
-)
-RawText.__doc__ = """
-    The keys and their types that appear in a Tiled JSON Text Object.
-
-    Tiled Doc: https://doc.mapeditor.org/en/stable/reference/json-map-format/#text-example
-"""
-
-
-RawObject = TypedDict(
-    "RawObject",
-    {
-        "id": int,
-        "gid": int,
-        "template": str,
-        "x": float,
-        "y": float,
-        "width": float,
-        "height": float,
-        "rotation": float,
-        "visible": bool,
-        "name": str,
-        "class": str,
-        "type": str,
-        "properties": List[RawProperty],
-        "ellipse": bool,
-        "point": bool,
-        "polygon": List[Dict[str, float]],
-        "polyline": List[Dict[str, float]],
-        "text": RawText,
-    },
-)
-RawObject.__doc__ = """
-    The keys and their types that appear in a Tiled JSON Object.
-
-    Tiled Doc: https://doc.mapeditor.org/en/stable/reference/json-map-format/#object
-"""
-
-
-def _parse_common(raw_object: RawObject) -> TiledObject:
-    """Create an Object containing all the attributes common to all types of objects.
-
-    Args:
-        raw_object: Raw object to get common attributes from
-
-    Returns:
-        Object: The attributes in common of all types of objects
-    """
-
-    common = TiledObject(
-        id=raw_object["id"],
-        coordinates=OrderedPair(raw_object["x"], raw_object["y"]),
-        visible=raw_object["visible"],
-        size=Size(raw_object["width"], raw_object["height"]),
-        rotation=raw_object["rotation"],
-        name=raw_object["name"],
-    )
-
-    if raw_object.get("type") is not None:
-        common.class_ = raw_object["type"]
-
-    if raw_object.get("class") is not None:
-        common.class_ = raw_object["class"]
-
-    if raw_object.get("properties") is not None:
-        common.properties = parse_properties(raw_object["properties"])
-
-    return common
-
-
-def _parse_ellipse(raw_object: RawObject) -> Ellipse:
-    """Parse the raw object into an Ellipse.
-
-    Args:
-        raw_object: Raw object to be parsed to an Ellipse
-
-    Returns:
-        Ellipse: The Ellipse object created from the raw object
-    """
-    return Ellipse(**_parse_common(raw_object).__dict__)
-
-
-def _parse_rectangle(raw_object: RawObject) -> Rectangle:
-    """Parse the raw object into a Rectangle.
-
-    Args:
-        raw_object: Raw object to be parsed to a Rectangle
-
-    Returns:
-        Rectangle: The Rectangle object created from the raw object
-    """
-    return Rectangle(**_parse_common(raw_object).__dict__)
-
-
-def _parse_point(raw_object: RawObject) -> Point:
-    """Parse the raw object into a Point.
-
-    Args:
-        raw_object: Raw object to be parsed to a Point
-
-    Returns:
-        Point: The Point object created from the raw object
-    """
-    return Point(**_parse_common(raw_object).__dict__)
-
-
-def _parse_polygon(raw_object: RawObject) -> Polygon:
-    """Parse the raw object into a Polygon.
-
-    Args:
-        raw_object: Raw object to be parsed to a Polygon
-
-    Returns:
-        Polygon: The Polygon object created from the raw object
-    """
-    polygon = []
-    for point in raw_object["polygon"]:
-        polygon.append(OrderedPair(point["x"], point["y"]))
-
-    return Polygon(points=polygon, **_parse_common(raw_object).__dict__)
-
-
-def _parse_polyline(raw_object: RawObject) -> Polyline:
-    """Parse the raw object into a Polyline.
-
-    Args:
-        raw_object: Raw object to be parsed to a Polyline
-
-    Returns:
-        Polyline: The Polyline object created from the raw object
-    """
-    polyline = []
-    for point in raw_object["polyline"]:
-        polyline.append(OrderedPair(point["x"], point["y"]))
-
-    return Polyline(points=polyline, **_parse_common(raw_object).__dict__)
-
-
-def _parse_tile(
-    raw_object: RawObject,
-    new_tileset: Optional[Dict[str, Any]] = None,
-    new_tileset_path: Optional[Path] = None,
-) -> Tile:
-    """Parse the raw object into a Tile.
-
-    Args:
-        raw_object: Raw object to be parsed to a Tile
-
-    Returns:
-        Tile: The Tile object created from the raw object
-    """
-    gid = raw_object["gid"]
-
-    return Tile(
-        gid=gid,
-        new_tileset=new_tileset,
-        new_tileset_path=new_tileset_path,
-        **_parse_common(raw_object).__dict__,
-    )
-
-
-def _parse_text(raw_object: RawObject) -> Text:
-    """Parse the raw object into Text.
-
-    Args:
-        raw_object: Raw object to be parsed to a Text
-
-    Returns:
-        Text: The Text object created from the raw object
-    """
-    # required attributes
-    raw_text: RawText = raw_object["text"]
-    text = raw_text["text"]
-
-    # create base Text object
-    text_object = Text(text=text, **_parse_common(raw_object).__dict__)
-
-    # optional attributes
-    if raw_text.get("color") is not None:
-        text_object.color = parse_color(raw_text["color"])
-
-    if raw_text.get("fontfamily") is not None:
-        text_object.font_family = raw_text["fontfamily"]
-
-    if raw_text.get("pixelsize") is not None:
-        text_object.font_size = raw_text["pixelsize"]
-
-    if raw_text.get("bold") is not None:
-        text_object.bold = raw_text["bold"]
-
-    if raw_text.get("italic") is not None:
-        text_object.italic = raw_text["italic"]
-
-    if raw_text.get("kerning") is not None:
-        text_object.kerning = raw_text["kerning"]
-
-    if raw_text.get("strikeout") is not None:
-        text_object.strike_out = raw_text["strikeout"]
-
-    if raw_text.get("underline") is not None:
-        text_object.underline = raw_text["underline"]
-
-    if raw_text.get("halign") is not None:
-        text_object.horizontal_align = raw_text["halign"]
-
-    if raw_text.get("valign") is not None:
-        text_object.vertical_align = raw_text["valign"]
-
-    if raw_text.get("wrap") is not None:
-        text_object.wrap = raw_text["wrap"]
-
-    return text_object
-
-
-def _get_parser(raw_object: RawObject) -> Callable[[RawObject], TiledObject]:
-    """Get the parser function for a given raw object.
-
-    Only used internally by the JSON parser.
-
-    Args:
-        raw_object: Raw object that is analyzed to determine the parser function.
-
-    Returns:
-        Callable[[RawObject], Object]: The parser function.
-    """
-    if raw_object.get("ellipse"):
-        return _parse_ellipse
-
-    if raw_object.get("point"):
-        return _parse_point
-
-    # This is excluded from tests because the coverage is broken. I promise
-    # there are tests for Tile objects, but for some reason the coverage
-    # isn't picking up this if statement(though it does pickup the _parse_tile)
-    # function so who knows
-    if raw_object.get("gid"):  # pragma: no cover
-        # Only tile objects have the `gid` key
-        return _parse_tile
-
-    if raw_object.get("polygon"):
-        return _parse_polygon
-
-    if raw_object.get("polyline"):
-        return _parse_polyline
-
-    if raw_object.get("text"):
-        return _parse_text
-
-    # If it's none of the above, rectangle is the only one left.
-    # Rectangle is the only object which has no special properties to signify that.
-    return _parse_rectangle
-
-
-def parse(
-    raw_object: RawObject,
-    parent_dir: Optional[Path] = None,
-) -> TiledObject:
-    """Parse the raw object into a pytiled_parser version
-
-    Args:
-        raw_object: Raw object that is to be cast.
-        parent_dir: The parent directory that the map file is in.
-
-    Returns:
-        Object: A parsed Object.
-
-    Raises:
-        RuntimeError: When a parameter that is conditionally required was not sent.
-    """
-    new_tileset = None
-    new_tileset_path = None
-
-    if raw_object.get("template"):
-        if not parent_dir:
-            raise RuntimeError(
-                "A parent directory must be specified when using object templates."
-            )
-        template_path = Path(parent_dir / raw_object["template"])
-        template, new_tileset, new_tileset_path = load_object_template(template_path)
-
-        if isinstance(template, dict):
-            if raw_object.get("gid"):
-                # The instance has its own tile, which is one of the map's tiles
-                new_tileset = new_tileset_path = None
-
-            # Values set on the instance take precedence over the template
-            loaded_template = template["object"]
-            for key in loaded_template:
-                if key == "properties" and key in raw_object:
-                    if isinstance(raw_object[key], dict):
-                        raw_object[key] = {**loaded_template[key], **raw_object[key]}
-                    else:
-                        raw_object[key] = loaded_template[key] + raw_object[key]
-                elif key != "id" and key not in raw_object:
-                    raw_object[key] = loaded_template[key]  # type: ignore
-        else:
-            raise NotImplementedError(
-                "Loading TMX object templates inside a JSON map is currently not supported, "
-                "but will be in a future release."
-            )
-
-    if raw_object.get("gid"):
-        return _parse_tile(raw_object, new_tileset, new_tileset_path)
-
-    return _get_parser(raw_object)(raw_object)
+"""Object parsing for the JSON Map Format.
+"""
+from pathlib import Path
+from typing import Any, Callable, Dict, List, Optional
+
+from typing_extensions import TypedDict
+
+from pytiled_parser.common_types import OrderedPair, Size
+from pytiled_parser.parsers.json.properties import RawProperty
+from pytiled_parser.parsers.json.properties import parse as parse_properties
+from pytiled_parser.tiled_object import (
+    Ellipse,
+    Point,
+    Polygon,
+    Polyline,
+    Rectangle,
+    Text,
+    Tile,
+    TiledObject,
+)
+from pytiled_parser.util import load_object_template, parse_color
+
+RawText = TypedDict(
+    "RawText",
+    {
+        "text": str,
+        "color": str,
+        "fontfamily": str,
+        "pixelsize": float,  # this is `font_size` in Text
+        "bold": bool,
+        "italic": bool,
+        "strikeout": bool,
+        "underline": bool,
+        "kerning": bool,
+        "halign": str,
+        "valign": str,
+        "wrap": bool,
+    },
+)
+RawText.__doc__ = """
+    The keys and their types that appear in a Tiled JSON Text Object.
+
+    Tiled Doc: https://doc.mapeditor.org/en/stable/reference/json-map-format/#text-example
+"""
+
+
+RawObject = TypedDict(
+    "RawObject",
+    {
+        "id": int,
+        "gid": int,
+        "template": str,
+        "x": float,
+        "y": float,
+        "width": float,
+        "height": float,
+        "rotation": float,
+        "visible": bool,
+        "name": str,
+        "class": str,
+        "type": str,
+        "properties": List[RawProperty],
+        "ellipse": bool,
+        "point": bool,
+        "polygon": List[Dict[str, float]],
+        "polyline": List[Dict[str, float]],
+        "text": RawText,
+    },
+)
+RawObject.__doc__ = """
+    The keys and their types that appear in a Tiled JSON Object.
+
+    Tiled Doc: https://doc.mapeditor.org/en/stable/reference/json-map-format/#object
+"""
+
+
+def _parse_common(raw_object: RawObject) -> TiledObject:
+    """Create an Object containing all the attributes common to all types of objects.
+
+    Args:
+        raw_object: Raw object to get common attributes from
+
+    Returns:
+        Object: The attributes in common of all types of objects
+    """
+
+    common = TiledObject(
+        id=raw_object["id"],
+        coordinates=OrderedPair(raw_object["x"], raw_object["y"]),
+        visible=raw_object["visible"],
+        size=Size(raw_object["width"], raw_object["height"]),
+        rotation=raw_object["rotation"],
+        name=raw_object["name"],
+    )
+
+    if raw_object.get("type") is not None:
+        common.class_ = raw_object["type"]
+
+    if raw_object.get("class") is not None:
+        common.class_ = raw_object["class"]
+
+    if raw_object.get("properties") is not None:
+        common.properties = parse_properties(raw_object["properties"])
+
+    return common
+
+
+def _parse_ellipse(raw_object: RawObject) -> Ellipse:
+    """Parse the raw object into an Ellipse.
+
+    Args:
+        raw_object: Raw object to be parsed to an Ellipse
+
+    Returns:
+        Ellipse: The Ellipse object created from the raw object
+    """
+    return Ellipse(**_parse_common(raw_object).__dict__)
+
+
+def _parse_rectangle(raw_object: RawObject) -> Rectangle:
+    """Parse the raw object into a Rectangle.
+
+    Args:
+        raw_object: Raw object to be parsed to a Rectangle
+
+    Returns:
+        Rectangle: The Rectangle object created from the raw object
+    """
+    return Rectangle(**_parse_common(raw_object).__dict__)
+
+
+def _parse_point(raw_object: RawObject) -> Point:
+    """Parse the raw object into a Point.
+
+    Args:
+        raw_object: Raw object to be parsed to a Point
+
+    Returns:
+        Point: The Point object created from the raw object
+    """
+    return Point(**_parse_common(raw_object).__dict__)
+
+
+def _parse_polygon(raw_object: RawObject) -> Polygon:
+    """Parse the raw object into a Polygon.
+
+    Args:
+        raw_object: Raw object to be parsed to a Polygon
+
+    Returns:
+        Polygon: The Polygon object created from the raw object
+    """
+    polygon = []
+    for point in raw_object["polygon"]:
+        polygon.append(OrderedPair(point["x"], point["y"]))
+
+    return Polygon(points=polygon, **_parse_common(raw_object).__dict__)
+
+
+def _parse_polyline(raw_object: RawObject) -> Polyline:
+    """Parse the raw object into a Polyline.
+
+    Args:
+        raw_object: Raw object to be parsed to a Polyline
+
+    Returns:
+        Polyline: The Polyline object created from the raw object
+    """
+    polyline = []
+    for point in raw_object["polyline"]:
+        polyline.append(OrderedPair(point["x"], point["y"]))
+
+    return Polyline(points=polyline, **_parse_common(raw_object).__dict__)
+
+
+def _parse_tile(
+    raw_object: RawObject,
+    new_tileset: Optional[Dict[str, Any]] = None,
+    new_tileset_path: Optional[Path] = None,
+) -> Tile:
+    """Parse the raw object into a Tile.
+
+    Args:
+        raw_object: Raw object to be parsed to a Tile
+
+    Returns:
+        Tile: The Tile object created from the raw object
+    """
+    gid = raw_object["gid"]
+
+    return Tile(
+        gid=gid,
+        new_tileset=new_tileset,
+        new_tileset_path=new_tileset_path,
+        **_parse_common(raw_object).__dict__,
+    )
+
+
+def _parse_text(raw_object: RawObject) -> Text:
+    """Parse the raw object into Text.
+
+    Args:
+        raw_object: Raw object to be parsed to a Text
+
+    Returns:
+        Text: The Text object created from the raw object
+    """
+    # required attributes
+    raw_text: RawText = raw_object["text"]
+    text = raw_text["text"]
+
+    # create base Text object
+    text_object = Text(text=text, **_parse_common(raw_object).__dict__)
+
+    # optional attributes
+    if raw_text.get("color") is not None:
+        text_object.color = parse_color(raw_text["color"])
+
+    if raw_text.get("fontfamily") is not None:
+        text_object.font_family = raw_text["fontfamily"]
+
+    if raw_text.get("pixelsize") is not None:
+        text_object.font_size = raw_text["pixelsize"]
+
+    if raw_text.get("bold") is not None:
+        text_object.bold = raw_text["bold"]
+
+    if raw_text.get("italic") is not None:
+        text_object.italic = raw_text["italic"]
+
+    if raw_text.get("kerning") is not None:
+        text_object.kerning = raw_text["kerning"]
+
+    if raw_text.get("strikeout") is not None:
+        text_object.strike_out = raw_text["strikeout"]
+
+    if raw_text.get("underline") is not None:
+        text_object.underline = raw_text["underline"]
+
+    if raw_text.get("halign") is not None:
+        text_object.horizontal_align = raw_text["halign"]
+
+    if raw_text.get("valign") is not None:
+        text_object.vertical_align = raw_text["valign"]
+
+    if raw_text.get("wrap") is not None:
+        text_object.wrap = raw_text["wrap"]
+
+    return text_object
+
+
+def _get_parser(raw_object: RawObject) -> Callable[[RawObject], TiledObject]:
+    """Get the parser function for a given raw object.
+
+    Only used internally by the JSON parser.
+
+    Args:
+        raw_object: Raw object that is analyzed to determine the parser function.
+
+    Returns:
+        Callable[[RawObject], Object]: The parser function.
+    """
+    if raw_object.get("ellipse"):
+        return _parse_ellipse
+
+    if raw_object.get("point"):
+        return _parse_point
+
+    # This is excluded from tests because the coverage is broken. I promise
+    # there are tests for Tile objects, but for some reason the coverage
+    # isn't picking up this if statement(though it does pickup the _parse_tile)
+    # function so who knows
+    if raw_object.get("gid"):  # pragma: no cover
+        # Only tile objects have the `gid` key
+        return _parse_tile
+
+    if raw_object.get("polygon"):
+        return _parse_polygon
+
+    if raw_object.get("polyline"):
+        return _parse_polyline
+
+    if raw_object.get("text"):
+        return _parse_text
+
+    # If it's none of the above, rectangle is the only one left.
+    # Rectangle is the only object which has no special properties to signify that.
+    return _parse_rectangle
+
+
+def parse(
+    raw_object: RawObject,
+    parent_dir: Optional[Path] = None,
+) -> TiledObject:
+    """Parse the raw object into a pytiled_parser version
+
+    Args:
+        raw_object: Raw object that is to be cast.
+        parent_dir: The parent directory that the map file is in.
+
+    Returns:
+        Object: A parsed Object.
+
+    Raises:
+        RuntimeError: When a parameter that is conditionally required was not sent.
+    """
+    new_tileset = None
+    new_tileset_path = None
+
+    if raw_object.get("template"):
+        if not parent_dir:
+            raise RuntimeError(
+                "A parent directory must be specified when using object templates."
+            )
+        template_path = Path(parent_dir / raw_object["template"])
+        template, new_tileset, new_tileset_path = load_object_template(template_path)
+
+        if isinstance(template, dict):
+            if raw_object.get("gid"):
+                # The instance has its own tile, which is one of the map's tiles
+                new_tileset = new_tileset_path = None
+
+            # Values set on the instance take precedence over the template
+            loaded_template = template["object"]
+            for key in loaded_template:
+                if key == "properties" and key in raw_object:
+                    if isinstance(raw_object[key], dict):
+                        raw_object[key] = {**loaded_template[key], **raw_object[key]}
+                    else:
+                        raw_object[key] = loaded_template[key] + raw_object[key]
+                elif key != "id" and key not in raw_object:
+                    raw_object[key] = loaded_template[key]  # type: ignore
+        else:
+            raise NotImplementedError(
+                "Loading TMX object templates inside a JSON map is currently not supported, "
+                "but will be in a future release."
+            )
+
+    if raw_object.get("gid"):
+        return _parse_tile(raw_object, new_tileset, new_tileset_path)
+
+    return _get_parser(raw_object)(raw_object)
diff --git a/pytiled_parser/parsers/tmx/properties.py b/pytiled_parser/parsers/tmx/properties.py
index e216253..c28d761 100644
--- a/pytiled_parser/parsers/tmx/properties.py
+++ b/pytiled_parser/parsers/tmx/properties.py
@@ -1,40 +1,40 @@
-import xml.etree.ElementTree as etree
-from pathlib import Path
-
-from pytiled_parser.properties import Properties, Property
-from pytiled_parser.util import parse_color
-
-
-def parse(raw_properties: etree.Element) -> Properties:
-    final: Properties = {}
-    value: Property
-
-    for raw_property in raw_properties.findall("property"):
-        type_ = raw_property.attrib.get("type")
-
-        if "value" in raw_property.attrib:
-            value_ = raw_property.attrib["value"]
-        elif type_ in (None, "string") and raw_property.text is not None:
-            # Strings with newlines are stored as the content of the element
-            value_ = raw_property.text
-        else:
-            continue
-
-        if type_ == "file":
-            value = Path(value_)
-        elif type_ == "color":
-            value = parse_color(value_)
-        elif type_ == "int" or type_ == "float":
-            value = float(value_)
-        elif type_ == "object":
-            value = int(value_)
-        elif type_ == "bool":
-            if value_ == "true":
-                value = True
-            else:
-                value = False
-        else:
-            value = value_
-        final[raw_property.attrib["name"]] = value
-
-    return final
+import xml.etree.ElementTree as etree
+from pathlib import Path
+
+from pytiled_parser.properties import Properties, Property
+from pytiled_parser.util import parse_color
+
+
+def parse(raw_properties: etree.Element) -> Properties:
+    final: Properties = {}
+    value: Property
+
+    for raw_property in raw_properties.findall("property"):
+        type_ = raw_property.attrib.get("type")
+
+        if "value" in raw_property.attrib:
+            value_ = raw_property.attrib["value"]
+        elif type_ in (None, "string") and raw_property.text is not None:
+            # Strings with newlines are stored as the content of the element
+            value_ = raw_property.text
+        else:
+            continue
+
+        if type_ == "file":
+            value = Path(value_)
+        elif type_ == "color":
+            value = parse_color(value_)
+        elif type_ == "int" or type_ == "float":
+            value = float(value_)
+        elif type_ == "object":
+            value = int(value_)
+        elif type_ == "bool":
+            if value_ == "true":
+                value = True
+            else:
+                value = False
+        else:
+            value = value_
+        final[raw_property.attrib["name"]] = value
+
+    return final
diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index c77f668..23b120b 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -1,307 +1,307 @@
-import xml.etree.ElementTree as etree
-from pathlib import Path
-from typing import Callable, Optional
-
-from pytiled_parser.common_types import OrderedPair, Size
-from pytiled_parser.parsers.tmx.properties import parse as parse_properties
-from pytiled_parser.tiled_object import (
-    Ellipse,
-    Point,
-    Polygon,
-    Polyline,
-    Rectangle,
-    Text,
-    Tile,
-    TiledObject,
-)
-from pytiled_parser.util import load_object_template, parse_color
-
-
-def _parse_common(raw_object: etree.Element) -> TiledObject:
-    """Create an Object containing all the attributes common to all types of objects.
-
-    Args:
-        raw_object: XML Element to get common attributes from
-
-    Returns:
-        Object: The attributes in common of all types of objects
-    """
-
-    common = TiledObject(
-        id=int(raw_object.attrib["id"]),
-        coordinates=OrderedPair(
-            float(raw_object.attrib["x"]), float(raw_object.attrib["y"])
-        ),
-    )
-
-    # width and height are written independently, and each of them defaults to 0
-    common.size = Size(
-        float(raw_object.attrib.get("width", 0)),
-        float(raw_object.attrib.get("height", 0)),
-    )
-
-    if raw_object.attrib.get("visible") is not None:
-        common.visible = bool(int(raw_object.attrib["visible"]))
-
-    if raw_object.attrib.get("rotation") is not None:
-        common.rotation = float(raw_object.attrib["rotation"])
-
-    if raw_object.attrib.get("name") is not None:
-        common.name = raw_object.attrib["name"]
-
-    if raw_object.attrib.get("type") is not None:
-        common.class_ = raw_object.attrib["type"]
-
-    if raw_object.attrib.get("class") is not None:
-        common.class_ = raw_object.attrib["class"]
-
-    properties_element = raw_object.find("./properties")
-    if properties_element:
-        common.properties = parse_properties(properties_element)
-
-    return common
-
-
-def _parse_ellipse(raw_object: etree.Element) -> Ellipse:
-    """Parse the raw object into an Ellipse.
-
-    Args:
-        raw_object: XML Element to be parsed to an Ellipse
-
-    Returns:
-        Ellipse: The Ellipse object created from the raw object
-    """
-    return Ellipse(**_parse_common(raw_object).__dict__)
-
-
-def _parse_rectangle(raw_object: etree.Element) -> Rectangle:
-    """Parse the raw object into a Rectangle.
-
-    Args:
-        raw_object: XML Element to be parsed to a Rectangle
-
-    Returns:
-        Rectangle: The Rectangle object created from the raw object
-    """
-    return Rectangle(**_parse_common(raw_object).__dict__)
-
-
-def _parse_point(raw_object: etree.Element) -> Point:
-    """Parse the raw object into a Point.
-
-    Args:
-        raw_object: XML Element to be parsed to a Point
-
-    Returns:
-        Point: The Point object created from the raw object
-    """
-    return Point(**_parse_common(raw_object).__dict__)
-
-
-def _parse_polygon(raw_object: etree.Element) -> Polygon:
-    """Parse the raw object into a Polygon.
-
-    Args:
-        raw_object: XML Element to be parsed to a Polygon
-
-    Returns:
-        Polygon: The Polygon object created from the raw object
-    """
-    polygon = []
-    polygon_element = raw_object.find("./polygon")
-    if polygon_element is not None:
-        for raw_point in polygon_element.attrib["points"].split(" "):
-            point = raw_point.split(",")
-            polygon.append(OrderedPair(float(point[0]), float(point[1])))
-
-    return Polygon(points=polygon, **_parse_common(raw_object).__dict__)
-
-
-def _parse_polyline(raw_object: etree.Element) -> Polyline:
-    """Parse the raw object into a Polyline.
-
-    Args:
-        raw_object: Raw object to be parsed to a Polyline
-
-    Returns:
-        Polyline: The Polyline object created from the raw object
-    """
-    polyline = []
-    polyline_element = raw_object.find("./polyline")
-    if polyline_element is not None:
-        for raw_point in polyline_element.attrib["points"].split(" "):
-            point = raw_point.split(",")
-            polyline.append(OrderedPair(float(point[0]), float(point[1])))
-
-    return Polyline(points=polyline, **_parse_common(raw_object).__dict__)
-
-
-def _parse_tile(
-    raw_object: etree.Element,
-    new_tileset: Optional[etree.Element] = None,
-    new_tileset_path: Optional[Path] = None,
-) -> Tile:
-    """Parse the raw object into a Tile.
-
-    Args:
-        raw_object: XML Element to be parsed to a Tile
-
-    Returns:
-        Tile: The Tile object created from the raw object
-    """
-    return Tile(
-        gid=int(raw_object.attrib["gid"]),
-        new_tileset=new_tileset,
-        new_tileset_path=new_tileset_path,
-        **_parse_common(raw_object).__dict__,
-    )
-
-
-def _parse_text(raw_object: etree.Element) -> Text:
-    """Parse the raw object into Text.
-
-    Args:
-        raw_object: XML Element to be parsed to a Text
-
-    Returns:
-        Text: The Text object created from the raw object
-    """
-    # required attributes
-    text_element = raw_object.find("./text")
-
-    if text_element is not None:
-        text = text_element.text
-
-        if not text:
-            text = ""
-        # create base Text object
-        text_object = Text(text=text, **_parse_common(raw_object).__dict__)
-
-        # optional attributes
-
-        if text_element.attrib.get("color") is not None:
-            text_object.color = parse_color(text_element.attrib["color"])
-
-        if text_element.attrib.get("fontfamily") is not None:
-            text_object.font_family = text_element.attrib["fontfamily"]
-
-        if text_element.attrib.get("pixelsize") is not None:
-            text_object.font_size = float(text_element.attrib["pixelsize"])
-
-        if text_element.attrib.get("bold") is not None:
-            text_object.bold = bool(int(text_element.attrib["bold"]))
-
-        if text_element.attrib.get("italic") is not None:
-            text_object.italic = bool(int(text_element.attrib["italic"]))
-
-        if text_element.attrib.get("kerning") is not None:
-            text_object.kerning = bool(int(text_element.attrib["kerning"]))
-
-        if text_element.attrib.get("strikeout") is not None:
-            text_object.strike_out = bool(int(text_element.attrib["strikeout"]))
-
-        if text_element.attrib.get("underline") is not None:
-            text_object.underline = bool(int(text_element.attrib["underline"]))
-
-        if text_element.attrib.get("halign") is not None:
-            text_object.horizontal_align = text_element.attrib["halign"]
-
-        if text_element.attrib.get("valign") is not None:
-            text_object.vertical_align = text_element.attrib["valign"]
-
-        if text_element.attrib.get("wrap") is not None:
-            text_object.wrap = bool(int(text_element.attrib["wrap"]))
-
-    return text_object
-
-
-def _get_parser(raw_object: etree.Element) -> Callable[[etree.Element], TiledObject]:
-    """Get the parser function for a given raw object.
-
-    Only used internally by the TMX parser.
-
-    Args:
-        raw_object: XML Element that is analyzed to determine the parser function.
-
-    Returns:
-        Callable[[Element], Object]: The parser function.
-    """
-    if raw_object.find("./ellipse") is not None:
-        return _parse_ellipse
-
-    if raw_object.find("./point") is not None:
-        return _parse_point
-
-    if raw_object.find("./polygon") is not None:
-        return _parse_polygon
-
-    if raw_object.find("./polyline") is not None:
-        return _parse_polyline
-
-    if raw_object.find("./text") is not None:
-        return _parse_text
-
-    # If it's none of the above, rectangle is the only one left.
-    # Rectangle is the only object which has no properties to signify that.
-    return _parse_rectangle
-
-
-def parse(raw_object: etree.Element, parent_dir: Optional[Path] = None) -> TiledObject:
-    """Parse the raw object into a pytiled_parser version
-
-    Args:
-        raw_object: XML Element that is to be parsed.
-        parent_dir: The parent directory that the map file is in.
-
-    Returns:
-        TiledObject: A parsed Object.
-
-    Raises:
-        RuntimeError: When a parameter that is conditionally required was not sent.
-    """
-    new_tileset = None
-    new_tileset_path = None
-
-    if raw_object.attrib.get("template"):
-        if not parent_dir:
-            raise RuntimeError(
-                "A parent directory must be specified when using object templates."
-            )
-        template_path = Path(parent_dir / raw_object.attrib["template"])
-        template, new_tileset, new_tileset_path = load_object_template(template_path)
-
-        if isinstance(template, etree.Element):
-            new_object = template.find("./object")
-            if new_object is not None:
-                for key, val in raw_object.attrib.items():
-                    if key == "template":
-                        continue
-                    new_object.attrib[key] = val
-
-                if raw_object.attrib.get("gid"):
-                    # The instance has its own tile, which is one of the map's tiles
-                    new_tileset = new_tileset_path = None
-
-                # Values set on the instance take precedence over the template
-                for child in raw_object:
-                    template_child = new_object.find(child.tag)
-                    if template_child is None:
-                        new_object.append(child)
-                    elif child.tag == "properties":
-                        template_child.extend(list(child))
-                    else:
-                        new_object.remove(template_child)
-                        new_object.append(child)
-
-                raw_object = new_object
-        elif isinstance(template, dict):
-            # load the JSON object into the XML object
-            raise NotImplementedError(
-                "Loading JSON object templates inside a TMX map is currently not supported, "
-                "but will be in a future release."
-            )
-
-    if raw_object.attrib.get("gid"):
-        return _parse_tile(raw_object, new_tileset, new_tileset_path)
-
-    return _get_parser(raw_object)(raw_object)
+import xml.etree.ElementTree as etree
+from pathlib import Path
+from typing import Callable, Optional
+
+from pytiled_parser.common_types import OrderedPair, Size
+from pytiled_parser.parsers.tmx.properties import parse as parse_properties
+from pytiled_parser.tiled_object import (
+    Ellipse,
+    Point,
+    Polygon,
+    Polyline,
+    Rectangle,
+    Text,
+    Tile,
+    TiledObject,
+)
+from pytiled_parser.util import load_object_template, parse_color
+
+
+def _parse_common(raw_object: etree.Element) -> TiledObject:
+    """Create an Object containing all the attributes common to all types of objects.
+
+    Args:
+        raw_object: XML Element to get common attributes from
+
+    Returns:
+        Object: The attributes in common of all types of objects
+    """
+
+    common = TiledObject(
+        id=int(raw_object.attrib["id"]),
+        coordinates=OrderedPair(
+            float(raw_object.attrib["x"]), float(raw_object.attrib["y"])
+        ),
+    )
+
+    # width and height are written independently, and each of them defaults to 0
+    common.size = Size(
+        float(raw_object.attrib.get("width", 0)),
+        float(raw_object.attrib.get("height", 0)),
+    )
+
+    if raw_object.attrib.get("visible") is not None:
+        common.visible = bool(int(raw_object.attrib["visible"]))
+
+    if raw_object.attrib.get("rotation") is not None:
+        common.rotation = float(raw_object.attrib["rotation"])
+
+    if raw_object.attrib.get("name") is not None:
+        common.name = raw_object.attrib["name"]
+
+    if raw_object.attrib.get("type") is not None:
+        common.class_ = raw_object.attrib["type"]
+
+    if raw_object.attrib.get("class") is not None:
+        common.class_ = raw_object.attrib["class"]
+
+    properties_element = raw_object.find("./properties")
+    if properties_element:
+        common.properties = parse_properties(properties_element)
+
+    return common
+
+
+def _parse_ellipse(raw_object: etree.Element) -> Ellipse:
+    """Parse the raw object into an Ellipse.
+
+    Args:
+        raw_object: XML Element to be parsed to an Ellipse
+
+    Returns:
+        Ellipse: The Ellipse object created from the raw object
+    """
+    return Ellipse(**_parse_common(raw_object).__dict__)
+
+
+def _parse_rectangle(raw_object: etree.Element) -> Rectangle:
+    """Parse the raw object into a Rectangle.
+
+    Args:
+        raw_object: XML Element to be parsed to a Rectangle
+
+    Returns:
+        Rectangle: The Rectangle object created from the raw object
+    """
+    return Rectangle(**_parse_common(raw_object).__dict__)
+
+
+def _parse_point(raw_object: etree.Element) -> Point:
+    """Parse the raw object into a Point.
+
+    Args:
+        raw_object: XML Element to be parsed to a Point
+
+    Returns:
+        Point: The Point object created from the raw object
+    """
+    return Point(**_parse_common(raw_object).__dict__)
+
+
+def _parse_polygon(raw_object: etree.Element) -> Polygon:
+    """Parse the raw object into a Polygon.
+
+    Args:
+        raw_object: XML Element to be parsed to a Polygon
+
+    Returns:
+        Polygon: The Polygon object created from the raw object
+    """
+    polygon = []
+    polygon_element = raw_object.find("./polygon")
+    if polygon_element is not None:
+        for raw_point in polygon_element.attrib["points"].split(" "):
+            point = raw_point.split(",")
+            polygon.append(OrderedPair(float(point[0]), float(point[1])))
+
+    return Polygon(points=polygon, **_parse_common(raw_object).__dict__)
+
+
+def _parse_polyline(raw_object: etree.Element) -> Polyline:
+    """Parse the raw object into a Polyline.
+
+    Args:
+        raw_object: Raw object to be parsed to a Polyline
+
+    Returns:
+        Polyline: The Polyline object created from the raw object
+    """
+    polyline = []
+    polyline_element = raw_object.find("./polyline")
+    if polyline_element is not None:
+        for raw_point in polyline_element.attrib["points"].split(" "):
+            point = raw_point.split(",")
+            polyline.append(OrderedPair(float(point[0]), float(point[1])))
+
+    return Polyline(points=polyline, **_parse_common(raw_object).__dict__)
+
+
+def _parse_tile(
+    raw_object: etree.Element,
+    new_tileset: Optional[etree.Element] = None,
+    new_tileset_path: Optional[Path] = None,
+) -> Tile:
+    """Parse the raw object into a Tile.
+
+    Args:
+        raw_object: XML Element to be parsed to a Tile
+
+    Returns:
+        Tile: The Tile object created from the raw object
+    """
+    return Tile(
+        gid=int(raw_object.attrib["gid"]),
+        new_tileset=new_tileset,
+        new_tileset_path=new_tileset_path,
+        **_parse_common(raw_object).__dict__,
+    )
+
+
+def _parse_text(raw_object: etree.Element) -> Text:
+    """Parse the raw object into Text.
+
+    Args:
+        raw_object: XML Element to be parsed to a Text
+
+    Returns:
+        Text: The Text object created from the raw object
+    """
+    # required attributes
+    text_element = raw_object.find("./text")
+
+    if text_element is not None:
+        text = text_element.text
+
+        if not text:
+            text = ""
+        # create base Text object
+        text_object = Text(text=text, **_parse_common(raw_object).__dict__)
+
+        # optional attributes
+
+        if text_element.attrib.get("color") is not None:
+            text_object.color = parse_color(text_element.attrib["color"])
+
+        if text_element.attrib.get("fontfamily") is not None:
+            text_object.font_family = text_element.attrib["fontfamily"]
+
+        if text_element.attrib.get("pixelsize") is not None:
+            text_object.font_size = float(text_element.attrib["pixelsize"])
+
+        if text_element.attrib.get("bold") is not None:
+            text_object.bold = bool(int(text_element.attrib["bold"]))
+
+        if text_element.attrib.get("italic") is not None:
+            text_object.italic = bool(int(text_element.attrib["italic"]))
+
+        if text_element.attrib.get("kerning") is not None:
+            text_object.kerning = bool(int(text_element.attrib["kerning"]))
+
+        if text_element.attrib.get("strikeout") is not None:
+            text_object.strike_out = bool(int(text_element.attrib["strikeout"]))
+
+        if text_element.attrib.get("underline") is not None:
+            text_object.underline = bool(int(text_element.attrib["underline"]))
+
+        if text_element.attrib.get("halign") is not None:
+            text_object.horizontal_align = text_element.attrib["halign"]
+
+        if text_element.attrib.get("valign") is not None:
+            text_object.vertical_align = text_element.attrib["valign"]
+
+        if text_element.attrib.get("wrap") is not None:
+            text_object.wrap = bool(int(text_element.attrib["wrap"]))
+
+    return text_object
+
+
+def _get_parser(raw_object: etree.Element) -> Callable[[etree.Element], TiledObject]:
+    """Get the parser function for a given raw object.
+
+    Only used internally by the TMX parser.
+
+    Args:
+        raw_object: XML Element that is analyzed to determine the parser function.
+
+    Returns:
+        Callable[[Element], Object]: The parser function.
+    """
+    if raw_object.find("./ellipse") is not None:
+        return _parse_ellipse
+
+    if raw_object.find("./point") is not None:
+        return _parse_point
+
+    if raw_object.find("./polygon") is not None:
+        return _parse_polygon
+
+    if raw_object.find("./polyline") is not None:
+        return _parse_polyline
+
+    if raw_object.find("./text") is not None:
+        return _parse_text
+
+    # If it's none of the above, rectangle is the only one left.
+    # Rectangle is the only object which has no properties to signify that.
+    return _parse_rectangle
+
+
+def parse(raw_object: etree.Element, parent_dir: Optional[Path] = None) -> TiledObject:
+    """Parse the raw object into a pytiled_parser version
+
+    Args:
+        raw_object: XML Element that is to be parsed.
+        parent_dir: The parent directory that the map file is in.
+
+    Returns:
+        TiledObject: A parsed Object.
+
+    Raises:
+        RuntimeError: When a parameter that is conditionally required was not sent.
+    """
+    new_tileset = None
+    new_tileset_path = None
+
+    if raw_object.attrib.get("template"):
+        if not parent_dir:
+            raise RuntimeError(
+                "A parent directory must be specified when using object templates."
+            )
+        template_path = Path(parent_dir / raw_object.attrib["template"])
+        template, new_tileset, new_tileset_path = load_object_template(template_path)
+
+        if isinstance(template, etree.Element):
+            new_object = template.find("./object")
+            if new_object is not None:
+                for key, val in raw_object.attrib.items():
+                    if key == "template":
+                        continue
+                    new_object.attrib[key] = val
+
+                if raw_object.attrib.get("gid"):
+                    # The instance has its own tile, which is one of the map's tiles
+                    new_tileset = new_tileset_path = None
+
+                # Values set on the instance take precedence over the template
+                for child in raw_object:
+                    template_child = new_object.find(child.tag)
+                    if template_child is None:
+                        new_object.append(child)
+                    elif child.tag == "properties":
+                        template_child.extend(list(child))
+                    else:
+                        new_object.remove(template_child)
+                        new_object.append(child)
+
+                raw_object = new_object
+        elif isinstance(template, dict):
+            # load the JSON object into the XML object
+            raise NotImplementedError(
+                "Loading JSON object templates inside a TMX map is currently not supported, "
+                "but will be in a future release."
+            )
+
+    if raw_object.attrib.get("gid"):
+        return _parse_tile(raw_object, new_tileset, new_tileset_path)
+
+    return _get_parser(raw_object)(raw_object)
-- 
2.43.0


From baaa605bc8863832bf09e8a23b69ebf6031f81c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:16 +0000
Subject: [PATCH 27/27] fix: int properties of TMX files lost precision by
 becoming floats

---
 pytiled_parser/parsers/tmx/properties.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/properties.py b/pytiled_parser/parsers/tmx/properties.py
index c28d761..143658f 100644
--- a/pytiled_parser/parsers/tmx/properties.py
+++ b/pytiled_parser/parsers/tmx/properties.py
@@ -24,9 +24,9 @@ def parse(raw_properties: etree.Element) -> Properties:
             value = Path(value_)
         elif type_ == "color":
             value = parse_color(value_)
-        elif type_ == "int" or type_ == "float":
+        elif type_ == "float":
             value = float(value_)
-        elif type_ == "object":
+        elif type_ == "int" or type_ == "object":
             value = int(value_)
         elif type_ == "bool":
             if value_ == "true":
-- 
2.43.0


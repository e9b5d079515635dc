"""
Independent description of the KML vocabulary that fastkml implements.

This table is written by hand from the OGC KML 2.2 standard, Google's KML
reference and fastkml's documented constructor arguments.  It is deliberately
NOT derived from fastkml's registry: it is the oracle the registry is judged
against.

A *kind* (class) is described by its xml tag, xml namespace id, the module and
class name that implement it, and its fields.  A field is

    F(attr, kind, node, default=..., **opts)

attr     public attribute / constructor argument of the fastkml class
kind     how the value is carried in XML (see KINDS)
node     name of the child element or xml attribute that carries it
default  KML default value (used by verbose / terse output)
"""
from __future__ import annotations

from dataclasses import dataclass
from dataclasses import field
from typing import Any
from typing import Callable

KML = "http://www.opengis.net/kml/2.2"
GX = "http://www.google.com/kml/ext/2.2"
ATOM = "http://www.w3.org/2005/Atom"

NS = {"kml": KML, "gx": GX, "atom": ATOM}

# kinds of fields
#   text     child element with text                 attr    xml attribute, text
#   bool     child element 0/1                       aint    xml attribute, integer
#   int      child element, integer                  afloat  xml attribute, float
#   float    child element, float                    aenum   xml attribute, enum
#   enum     child element, enum value               body    text of the element itself
#   date     child element, KML date-time            coords  <coordinates> child
#   obj      one child element of one of `of`        objs    any number of children of `of`
#   track    the samples of a gx:Track
SCALAR = {
    "text", "bool", "int", "float", "enum", "date",
    "attr", "aint", "afloat", "aenum", "body",
}
ATTRS = {"attr", "aint", "afloat", "aenum"}


@dataclass(frozen=True)
class Field:
    attr: str
    kind: str
    node: str
    default: Any = None
    of: tuple[str, ...] = ()
    enum: str = ""
    rng: tuple[float, float] | None = None
    lex: str = ""  # lexical class for schema-valid generation: ncname, color, uri
    ns: str = ""  # namespace id when it is not the one of the element


def F(attr, kind, node, default=None, **kw):  # noqa: N802
    return Field(attr, kind, node, default, **kw)


ENUMS = {
    "AltitudeMode": ["clampToGround", "relativeToGround", "absolute",
                     "clampToSeaFloor", "relativeToSeaFloor"],
    "DataType": ["string", "int", "uint", "short", "ushort", "float", "double", "bool"],
    "RefreshMode": ["onChange", "onInterval", "onExpire"],
    "ViewRefreshMode": ["never", "onStop", "onRequest", "onRegion"],
    "ColorMode": ["normal", "random"],
    "DisplayMode": ["default", "hide"],
    "Shape": ["rectangle", "cylinder", "sphere"],
    "GridOrigin": ["lowerLeft", "upperLeft"],
    "Units": ["fraction", "pixels", "insetPixels"],
    "PairKey": ["normal", "highlight"],
}
GX_MODES = ("clampToSeaFloor", "relativeToSeaFloor")


@dataclass(frozen=True)
class Kind:
    key: str
    module: str
    cls: str
    tag: str
    ns: str
    fields: tuple[Field, ...]
    present: Callable[[dict], bool] = field(default=lambda f: True)

    @property
    def by_attr(self) -> dict[str, Field]:
        return {f.attr: f for f in self.fields}


SPEC: dict[str, Kind] = {}


def K(key, module, tag, *fields, cls=None, ns="kml", present=None):  # noqa: N802
    """Register a kind.  `present(f)` says whether it has the content KML requires."""
    SPEC[key] = Kind(key, "fastkml." + module, cls or key, tag, ns, tuple(fields),
                     present or (lambda f: True))


ID = (F("id", "attr", "id", lex="id"), F("target_id", "attr", "targetId", lex="ncname"))


def ALT():  # noqa: N802
    return F("altitude_mode", "enum", "altitudeMode", "clampToGround", enum="AltitudeMode")


def has(*names):
    return lambda f: all(f.get(n) is not None for n in names)


def has_any(*names):
    return lambda f: any(f.get(n) is not None for n in names)


def present(ast: dict) -> bool:
    """Whether an element carries the content that KML requires of it."""
    return bool(SPEC[ast["k"]].present(ast["f"]))


def any_present(name):
    return lambda f: any(present(c) for c in f.get(name) or ())


def child_present(name):
    return lambda f: f.get(name) is not None and present(f[name])


# --- atom -------------------------------------------------------------------
K("AtomLink", "atom", "link",
  F("href", "attr", "href", lex="uri"), F("rel", "attr", "rel", lex="ncname"),
  F("type", "attr", "type", lex="mime"), F("hreflang", "attr", "hreflang", lex="lang"),
  F("title", "attr", "title"), F("length", "aint", "length", rng=(0, 10**6)),
  cls="Link", ns="atom", present=has("href"))
_person = (F("name", "text", "name"), F("uri", "text", "uri", lex="uri"),
           F("email", "text", "email", lex="email"))
K("Author", "atom", "author", *_person, ns="atom", present=has("name"))
K("Contributor", "atom", "contributor", *_person, ns="atom", present=has("name"))

# --- data -------------------------------------------------------------------
K("SimpleField", "data", "SimpleField",
  F("name", "attr", "name"), F("type_", "aenum", "type", enum="DataType"),
  F("display_name", "text", "displayName"), present=has("name", "type_"))
K("Schema", "data", "Schema",
  F("id", "attr", "id", lex="id"), F("name", "attr", "name"),
  F("fields", "objs", "SimpleField", of=("SimpleField",)))
K("Data", "data", "Data", *ID,
  F("name", "attr", "name"), F("display_name", "text", "displayName"),
  F("value", "text", "value"), present=has("name", "value"))
K("SimpleData", "data", "SimpleData",
  F("name", "attr", "name"), F("value", "body", ""), present=has("name", "value"))
K("SchemaData", "data", "SchemaData", *ID,
  F("schema_url", "attr", "schemaUrl", lex="uri"),
  F("data", "objs", "SimpleData", of=("SimpleData",)),
  present=lambda f: bool(f.get("data")) and f.get("schema_url") is not None)
K("ExtendedData", "data", "ExtendedData",
  F("elements", "objs", "", of=("Data", "SchemaData")),
  present=lambda f: any(present(c) for c in f.get("elements") or ()))

# --- geometry ---------------------------------------------------------------
_line = (F("extrude", "bool", "extrude", False), F("tessellate", "bool", "tessellate", False),
         ALT(), F("coords", "coords", "coordinates"))
_has_coords = lambda f: bool(f.get("coords"))  # noqa: E731
K("Point", "geometry", "Point", *ID, F("extrude", "bool", "extrude", False), ALT(),
  F("coords", "coords", "coordinates"), present=_has_coords)
K("LineString", "geometry", "LineString", *ID, *_line, present=_has_coords)
K("LinearRing", "geometry", "LinearRing", *ID, *_line, present=_has_coords)
for _n, _t in (("OuterBoundaryIs", "outerBoundaryIs"), ("InnerBoundaryIs", "innerBoundaryIs")):
    K(_n, "geometry", _t, F("kml_geometry", "obj", "LinearRing", of=("LinearRing",)),
      present=child_present("kml_geometry"))
K("Polygon", "geometry", "Polygon", *ID, F("extrude", "bool", "extrude", False),
  F("tessellate", "bool", "tessellate", False), ALT(),
  F("outer_boundary", "obj", "outerBoundaryIs", of=("OuterBoundaryIs",)),
  F("inner_boundaries", "objs", "innerBoundaryIs", of=("InnerBoundaryIs",)),
  present=child_present("outer_boundary"))
K("MultiGeometry", "geometry", "MultiGeometry", *ID,
  F("kml_geometries", "objs", "",
    of=("Point", "LineString", "Polygon", "LinearRing", "MultiGeometry")),
  present=any_present("kml_geometries"))

# --- times ------------------------------------------------------------------
K("TimeStamp", "times", "TimeStamp", *ID, F("timestamp", "date", "when"),
  present=has("timestamp"))
K("TimeSpan", "times", "TimeSpan", *ID, F("begin", "date", "begin"), F("end", "date", "end"),
  present=has_any("begin", "end"))

# --- gx ---------------------------------------------------------------------
K("Track", "gx", "Track", *ID, ALT(), F("track_items", "track", ""),
  F("extended_data", "obj", "ExtendedData", of=("ExtendedData",)), ns="gx",
  present=lambda f: bool(f.get("track_items")))
K("MultiTrack", "gx", "MultiTrack", *ID, ALT(),
  F("interpolate", "bool", "interpolate", ns="gx"),
  F("tracks", "objs", "Track", of=("Track",)), ns="gx", present=any_present("tracks"))

# --- links ------------------------------------------------------------------
_link = (*ID, F("href", "text", "href", lex="uri"),
         F("refresh_mode", "enum", "refreshMode", "onChange", enum="RefreshMode"),
         F("refresh_interval", "float", "refreshInterval", 4.0),
         F("view_refresh_mode", "enum", "viewRefreshMode", "never", enum="ViewRefreshMode"),
         F("view_refresh_time", "float", "viewRefreshTime", 4.0),
         F("view_bound_scale", "float", "viewBoundScale", 1.0),
         F("view_format", "text", "viewFormat",
           "BBOX=[bboxWest],[bboxSouth],[bboxEast],[bboxNorth]"),
         F("http_query", "text", "httpQuery"))
K("Link", "links", "Link", *_link, present=has("href"))
K("Icon", "links", "Icon", *_link, present=has("href"))

# --- model ------------------------------------------------------------------
K("Location", "model", "Location", F("longitude", "float", "longitude", rng=(-180, 180)),
  F("latitude", "float", "latitude", rng=(-90, 90)), F("altitude", "float", "altitude", 0.0),
  present=has("longitude", "latitude"))
K("Orientation", "model", "Orientation", F("heading", "float", "heading", 0.0, rng=(-360, 360)),
  F("tilt", "float", "tilt", 0.0, rng=(0, 180)),
  F("roll", "float", "roll", 0.0, rng=(-180, 180)),
  present=has_any("heading", "tilt", "roll"))
K("Scale", "model", "Scale", F("x", "float", "x", 1.0), F("y", "float", "y", 1.0),
  F("z", "float", "z", 1.0), present=has_any("x", "y", "z"))
K("Alias", "model", "Alias", F("target_href", "text", "targetHref", lex="uri"),
  F("source_href", "text", "sourceHref", lex="uri"),
  present=has_any("target_href", "source_href"))
K("ResourceMap", "model", "ResourceMap", F("aliases", "objs", "Alias", of=("Alias",)),
  present=lambda f: bool(f.get("aliases")))
K("Model", "model", "Model", *ID, ALT(), F("location", "obj", "Location", of=("Location",)),
  F("orientation", "obj", "Orientation", of=("Orientation",)),
  F("scale", "obj", "Scale", of=("Scale",)), F("link", "obj", "Link", of=("Link",)),
  F("resource_map", "obj", "ResourceMap", of=("ResourceMap",)),
  present=lambda f: child_present("link")(f) and child_present("location")(f))

# --- styles -----------------------------------------------------------------
K("StyleUrl", "styles", "styleUrl", F("url", "body", "", lex="uri"), present=has("url"))
_color = (*ID, F("color", "text", "color", "ffffffff", lex="color"),
          F("color_mode", "enum", "colorMode", "normal", enum="ColorMode"))
K("HotSpot", "styles", "hotSpot", F("x", "afloat", "x", 0.5), F("y", "afloat", "y", 0.5),
  F("xunits", "aenum", "xunits", "fraction", enum="Units"),
  F("yunits", "aenum", "yunits", "fraction", enum="Units"))
K("IconStyle", "styles", "IconStyle", *_color, F("scale", "float", "scale", 1.0),
  F("heading", "float", "heading", 0.0, rng=(-360, 360)), F("icon", "obj", "Icon", of=("Icon",)),
  F("hot_spot", "obj", "hotSpot", of=("HotSpot",)), present=child_present("icon"))
K("LineStyle", "styles", "LineStyle", *_color, F("width", "float", "width", 1.0),
  present=has_any("width", "color", "color_mode"))
K("PolyStyle", "styles", "PolyStyle", *_color, F("fill", "bool", "fill", True),
  F("outline", "bool", "outline", True), present=has_any("fill", "outline", "color", "color_mode"))
K("LabelStyle", "styles", "LabelStyle", *_color, F("scale", "float", "scale", 1.0),
  present=has_any("scale", "color", "color_mode"))
K("BalloonStyle", "styles", "BalloonStyle", *ID,
  F("bg_color", "text", "bgColor", "ffffffff", lex="color"),
  F("text_color", "text", "textColor", "ff000000", lex="color"), F("text", "text", "text"),
  F("display_mode", "enum", "displayMode", "default", enum="DisplayMode"),
  present=has_any("bg_color", "text_color", "text", "display_mode"))
SUBSTYLES = ("IconStyle", "LabelStyle", "LineStyle", "PolyStyle", "BalloonStyle")
K("Style", "styles", "Style", *ID, F("styles", "objs", "", of=SUBSTYLES),
  present=any_present("styles"))
K("Pair", "styles", "Pair", *ID, F("key", "enum", "key", enum="PairKey"),
  F("style", "obj", "", of=("StyleUrl", "Style")), present=has("key", "style"))
K("StyleMap", "styles", "StyleMap", *ID, F("pairs", "objs", "Pair", of=("Pair",)),
  present=lambda f: bool(f.get("pairs")))

# --- views ------------------------------------------------------------------
_view = (*ID, F("longitude", "float", "longitude", 0.0, rng=(-180, 180)),
         F("latitude", "float", "latitude", 0.0, rng=(-90, 90)),
         F("altitude", "float", "altitude", 0.0),
         F("heading", "float", "heading", 0.0, rng=(-360, 360)),
         F("tilt", "float", "tilt", 0.0, rng=(0, 90)))
K("Camera", "views", "Camera", *_view, F("roll", "float", "roll", 0.0, rng=(-180, 180)), ALT())
K("LookAt", "views", "LookAt", *_view, F("range", "float", "range"), ALT())
_box = (F("north", "float", "north", rng=(-90, 90)), F("south", "float", "south", rng=(-90, 90)),
        F("east", "float", "east", rng=(-180, 180)), F("west", "float", "west", rng=(-180, 180)))
K("LatLonAltBox", "views", "LatLonAltBox", *_box, F("min_altitude", "float", "minAltitude", 0.0),
  F("max_altitude", "float", "maxAltitude", 0.0), ALT(),
  present=has("north", "south", "east", "west"))
K("Lod", "views", "Lod", F("min_lod_pixels", "int", "minLodPixels", 256),
  F("max_lod_pixels", "int", "maxLodPixels", -1), F("min_fade_extent", "int", "minFadeExtent", 0),
  F("max_fade_extent", "int", "maxFadeExtent", 0), present=has("min_lod_pixels"))
K("Region", "views", "Region", *ID,
  F("lat_lon_alt_box", "obj", "LatLonAltBox", of=("LatLonAltBox",)),
  F("lod", "obj", "Lod", of=("Lod",)), present=child_present("lat_lon_alt_box"))

# --- features ---------------------------------------------------------------
K("Snippet", "features", "Snippet", F("text", "body", ""), F("max_lines", "aint", "maxLines", 2),
  present=has("text"))
_feature = (*ID, F("name", "text", "name"), F("visibility", "bool", "visibility", True),
            F("isopen", "bool", "open", False),
            F("atom_author", "obj", "author", of=("Author",)),
            F("atom_link", "obj", "link", of=("AtomLink",)),
            F("address", "text", "address"), F("phone_number", "text", "phoneNumber"),
            F("snippet", "obj", "Snippet", of=("Snippet",)),
            F("description", "text", "description"),
            F("view", "obj", "", of=("Camera", "LookAt")),
            F("times", "obj", "", of=("TimeSpan", "TimeStamp")),
            F("style_url", "obj", "styleUrl", of=("StyleUrl",)),
            F("styles", "objs", "", of=("Style", "StyleMap")),
            F("region", "obj", "Region", of=("Region",)),
            F("extended_data", "obj", "ExtendedData", of=("ExtendedData",)))
GEOMETRIES = ("Point", "LineString", "LinearRing", "Polygon", "MultiGeometry", "Model",
              "MultiTrack", "Track")
K("Placemark", "features", "Placemark", *_feature, F("kml_geometry", "obj", "", of=GEOMETRIES))
K("NetworkLink", "features", "NetworkLink", *_feature,
  F("refresh_visibility", "bool", "refreshVisibility", False),
  F("fly_to_view", "bool", "flyToView", False), F("link", "obj", "Link", of=("Link",)),
  present=child_present("link"))

# --- overlays ---------------------------------------------------------------
_overlay = (*_feature, F("color", "text", "color", "ffffffff", lex="color"),
            F("draw_order", "int", "drawOrder", 0), F("icon", "obj", "Icon", of=("Icon",)))
K("ViewVolume", "overlays", "ViewVolume", F("left_fov", "float", "leftFov", 0.0, rng=(-180, 180)),
  F("right_fov", "float", "rightFov", 0.0, rng=(-180, 180)),
  F("bottom_fov", "float", "bottomFov", 0.0, rng=(-90, 90)),
  F("top_fov", "float", "topFov", 0.0, rng=(-90, 90)), F("near", "float", "near", 0.0),
  present=has("left_fov", "right_fov", "bottom_fov", "top_fov", "near"))
K("ImagePyramid", "overlays", "ImagePyramid", F("tile_size", "int", "tileSize", 256),
  F("max_width", "int", "maxWidth"), F("max_height", "int", "maxHeight"),
  F("grid_origin", "enum", "gridOrigin", "lowerLeft", enum="GridOrigin"),
  present=has("max_width", "max_height"))
K("PhotoOverlay", "overlays", "PhotoOverlay", *_overlay,
  F("rotation", "float", "rotation", 0.0, rng=(-180, 180)),
  F("view_volume", "obj", "ViewVolume", of=("ViewVolume",)),
  F("image_pyramid", "obj", "ImagePyramid", of=("ImagePyramid",)),
  F("point", "obj", "Point", of=("Point",)),
  F("shape", "enum", "shape", "rectangle", enum="Shape"))
K("LatLonBox", "overlays", "LatLonBox", *_box,
  F("rotation", "float", "rotation", 0.0, rng=(-180, 180)),
  present=has("north", "south", "east", "west"))
K("GroundOverlay", "overlays", "GroundOverlay", *_overlay, F("altitude", "float", "altitude", 0.0),
  ALT(), F("lat_lon_box", "obj", "LatLonBox", of=("LatLonBox",)))
for _n, _t in (("OverlayXY", "overlayXY"), ("ScreenXY", "screenXY"),
               ("RotationXY", "rotationXY"), ("Size", "size")):
    K(_n, "overlays", _t, F("x", "afloat", "x"), F("y", "afloat", "y"),
      F("x_units", "aenum", "xunits", "fraction", enum="Units"),
      F("y_units", "aenum", "yunits", "fraction", enum="Units"), present=has("x", "y"))
K("ScreenOverlay", "overlays", "ScreenOverlay", *_overlay,
  F("overlay_xy", "obj", "overlayXY", of=("OverlayXY",)),
  F("screen_xy", "obj", "screenXY", of=("ScreenXY",)),
  F("rotation_xy", "obj", "rotationXY", of=("RotationXY",)),
  F("size", "obj", "size", of=("Size",)),
  F("rotation", "float", "rotation", 0.0, rng=(-180, 180)))

# --- containers -------------------------------------------------------------
FEATURES = ("Document", "Folder", "Placemark", "GroundOverlay", "PhotoOverlay", "ScreenOverlay",
            "NetworkLink")
K("Folder", "containers", "Folder", *_feature, F("features", "objs", "", of=FEATURES))
K("Document", "containers", "Document", *_feature,
  F("schemata", "objs", "Schema", of=("Schema",)), F("features", "objs", "", of=FEATURES))

# --- root -------------------------------------------------------------------
K("NetworkLinkControl", "network_link_control", "NetworkLinkControl",
  F("min_refresh_period", "float", "minRefreshPeriod", 0),
  F("max_session_length", "float", "maxSessionLength", -1), F("cookie", "text", "cookie"),
  F("message", "text", "message"), F("link_name", "text", "linkName"),
  F("link_description", "text", "linkDescription"), F("link_snippet", "text", "linkSnippet"),
  F("expires", "date", "expires"), F("view", "obj", "", of=("Camera", "LookAt")))
K("KML", "kml", "kml", F("features", "objs", "", of=(*FEATURES, "NetworkLinkControl")))

TAGS = {(NS[k.ns], k.tag): k.key for k in SPEC.values()}

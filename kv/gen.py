"""Random generation of abstract KML documents (see kv.model for the AST)."""
from __future__ import annotations

import copy
import random
import struct
from typing import Any

from kv.spec import ENUMS
from kv.spec import SPEC
from kv.spec import Field

TEXT_POOL = [
    "a", "0", "1", "None", "False", "x y", "Test", "<b>bold</b> & <i>it</i>", "a < b && c > d",
    "&amp;", "&#65;", "]]>", "<![CDATA[x]]>", "]]]]><![CDATA[>", "\"quoted\" 'single'", "a\nb",
    "line one\n\n  line two", "a\tb", "näïve ünïcödé", "日本語テキスト", "😀🚀", "e\u0301", "\u200bzero",
    "\u05d0\u05d1\u05d2", "a\u00a0b", "%s {x} $y \\n", "</name></Placemark>", "<!-- c -->",
    "<?pi?>", "http://example.com/?a=1&b=2#frag", "#style-1", "../rel/path.kml",
    "C:\\Temp\\x.png", "-", "_", ".", "a,b c,d", "1,2,3", "{http://x}y", "kml:name", "xmlns",
    " lead", "trail ", "\n both \t", "\ud7ff\ue000\ufffd", "\U0010fffd", "\u0085x", "a\u2028b",
    "ffffffff", "ff000000", "BBOX=[bboxWest],[bboxSouth],[bboxEast],[bboxNorth]",
    "BBOX=[bboxWest]", "true", "1.0", "nan", "ID", "id", "=?utf-8?", "&lt;script&gt;", "&nbsp;",
]
URIS = ["http://example.com/a.kml", "#s", "files/icon.png", "http://x.org/?q=1&r=2#f",
        "https://h/p%20q", "a.kmz/doc.kml#id", "image.png"]
WORDS = ["alpha", "beta", "gamma", "delta", "Name", "north", "Über", "x1", "foo-bar", "v.2"]
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, 4.0, 2.0, 256.0, 0.1, -0.1, 1e-7, -1e-7, 1e-5, 123456.789,
          1e16, 1e22, -1e300, 5e-324, 1.7976931348623157e308, 0.30000000000000004, 90.0, -90.0,
          180.0, -180.0, 359.99999, 12.3456789012345, 1 / 3, 9007199254740993.0, 0.05, 2.675,
          1.005, 99.995, 0.000001, 4.0000001, 255.5]
INTS = [0, 1, -1, 2, 3, 10, 255, 256, 257, -256, 1000, 2**31 - 1, -(2**31), 2**31, 10**12]


class Gen:
    """
    One random document.

    valid    only values the KML schema allows (ids unique NCNames, ranges, ...)
    cr       allow carriage returns in text
    """

    def __init__(self, rnd: random.Random, *, valid=False, cr=True, incomplete=0.06,
                 size: int | None = None, pad=True, simple_text=False, mixed_order=True):
        self.r = rnd
        self.valid = valid
        self.cr = cr and not valid
        self.incomplete = 0.0 if valid else incomplete
        self.budget = size if size is not None else rnd.choice([4, 8, 8, 15, 15, 30, 30, 60, 120])
        self.ids = 0
        self.pad = pad
        self.simple_text = simple_text
        self.mixed_order = mixed_order
        # per-document character: how densely fields are set
        self.density = rnd.choice([0.05, 0.15, 0.15, 0.3, 0.3, 0.5, 0.8, 1.0])
        self.big_lists = rnd.random() < 0.08
        self.dims = rnd.choice([2, 3, 0])
        # documents in which values and elements repeat themselves
        self.echo = rnd.choice([0.0, 0.0, 0.0, 0.15, 0.5])
        self.said: dict[Any, list] = {}

    # -- scalars -----------------------------------------------------------
    def chance(self, p: float) -> bool:
        return self.r.random() < p

    def text(self) -> str:
        r = self.r
        c = r.random()
        if self.simple_text or c < 0.25:
            return r.choice(WORDS)
        if c < 0.75:
            s = r.choice(TEXT_POOL)
        elif c < 0.95:
            s = "".join(self.char() for _ in range(r.randint(1, 12)))
        elif c < 0.985:
            s = " ".join(r.choice(WORDS) for _ in range(r.randint(5, 40)))
        else:
            s = r.choice(TEXT_POOL) * r.randint(50, 400)
        if self.cr and c > 0.93 and self.chance(0.2):
            s = s + "\r" + r.choice(WORDS)
        if not self.pad:
            s = s.strip()
        return s if s.strip() else r.choice(WORDS)

    def char(self) -> str:
        r = self.r
        c = r.random()
        if c < 0.5:
            return chr(r.randint(0x20, 0x7E))
        if c < 0.6:
            return r.choice("<>&'\"\n\t ]\\;#")
        if c < 0.8:
            return chr(r.randint(0xA1, 0x17F))
        if c < 0.95:
            return chr(r.randint(0x3041, 0xD7FF))
        return chr(r.randint(0x1F300, 0x1F6FF))

    def id(self) -> str:
        if self.valid:
            self.ids += 1
            return f"{self.r.choice(['id', 'ID-', '_x.', 'é'])}{self.ids}"
        return self.r.choice([self.text, lambda: f"id-{self.r.randint(0, 9)}"])()

    def string(self, f: Field) -> str:
        r = self.r
        if f.default is not None and self.chance(0.2):
            return f.default
        if f.lex == "id":
            return self.id()
        if self.valid or self.chance(0.3):
            if f.lex == "ncname":
                return r.choice(["n1", "_b", "c-d.e", "self", "Target"])
            if f.lex == "color":
                return "".join(r.choice("0123456789abcdefABCDEF") for _ in range(8))
            if f.lex == "uri":
                return r.choice(URIS)
            if f.lex == "mime":
                return r.choice(["text/html", "application/vnd.google-earth.kml+xml"])
            if f.lex == "lang":
                return r.choice(["en", "de-AT", "fr"])
            if f.lex == "email":
                return r.choice(["a@b.org", "x.y+z@example.com"])
        return self.text()

    def float(self, f: Field | None = None) -> float | int:
        r = self.r
        rng = f.rng if f is not None else None
        if f is not None and f.default is not None and self.chance(0.2):
            return f.default
        if self.valid and rng:
            return r.choice([float(rng[0]), float(rng[1]), 0.0, r.uniform(*rng),
                             round(r.uniform(*rng), 3), float(r.randint(*map(int, rng)))])
        c = r.random()
        if c < 0.35:
            return r.choice(FLOATS)
        if c < 0.7:
            return r.uniform(-180, 180)
        if c < 0.8:
            return round(r.uniform(-1000, 1000), r.randint(0, 6))
        if c < 0.88:
            return r.randint(-400, 400)  # a plain int is a fine float
        while True:
            x = struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0]
            if x == x and abs(x) != float("inf"):
                return x

    def int(self, f: Field | None = None) -> int:
        if f is not None and f.default is not None and self.chance(0.2):
            return f.default
        if f is not None and f.rng and self.valid:
            return self.r.randint(*map(int, f.rng))
        pool = [i for i in INTS if abs(i) < 2**31] if self.valid else INTS
        return self.r.choice(pool) if self.chance(0.6) else self.r.randint(-1000, 5000)

    def date(self, res: str | None = None) -> dict:
        import datetime as dt

        r = self.r
        res = res or r.choice(["dateTime", "dateTime", "date", "gYearMonth", "gYear"])
        year = r.choice([r.randint(1900, 2100), r.randint(1900, 2100), r.randint(1000, 9999),
                         r.randint(2, 9998), 2000, 1970])
        month = r.randint(1, 12)
        day = r.randint(1, [31, 29 if year % 4 == 0 and (year % 100 or year % 400 == 0) else 28,
                            31, 30, 31, 30, 31, 31, 30, 31, 30, 31][month - 1])
        if res == "gYear":
            return {"d": [f"{year:04}-01-01", res]}
        if res == "gYearMonth":
            return {"d": [f"{year:04}-{month:02}-01", res]}
        if res == "date":
            return {"d": [f"{year:04}-{month:02}-{day:02}", res]}
        tz: Any = r.choice([None, dt.timezone.utc, "off"])
        if tz == "off":
            mins = r.choice([0, 60, 120, -300, 330, 345, -570, 840, -720,
                             r.randint(-12 * 60, 14 * 60)])
            tz = dt.timezone(dt.timedelta(minutes=mins))
        micro = r.choice([0, 0, 0, 1, 500000, 123456, 999999, r.randint(0, 999999)])
        if self.chance(0.15):
            t = dt.datetime(year, month, day, tzinfo=tz)
        else:
            t = dt.datetime(year, month, day, r.randint(0, 23), r.randint(0, 59),
                            r.randint(0, 59), micro, tzinfo=tz)
        return {"d": [t.isoformat(), res]}

    def enum(self, f: Field) -> str:
        if f.default is not None and self.chance(0.25):
            return f.default
        vals = ENUMS[f.enum]
        if self.valid and f.enum == "AltitudeMode" and getattr(self, "no_gx_modes", False):
            vals = vals[:3]
        return self.r.choice(vals)

    def again(self, key: Any, make):
        """A new value, or now and then one of this document's earlier ones."""
        if not self.echo:
            return make()
        pool = self.said.setdefault(key, [])
        if pool and self.chance(self.echo):
            return copy.deepcopy(self.r.choice(pool))
        pool.append(make())
        return copy.deepcopy(pool[-1])

    def scalar(self, f: Field):
        if f.lex == "id" and self.valid:
            return self.fresh(f)
        return self.again((f.kind, f.lex, f.enum, f.rng) if self.valid else
                          (f.kind.removeprefix("a") if f.kind != "attr" else "text", f.enum),
                          lambda: self.fresh(f))

    def fresh(self, f: Field):
        k = f.kind
        if k in ("text", "attr", "body"):
            return self.string(f)
        if k == "bool":
            return self.chance(0.5)
        if k in ("int", "aint"):
            return self.int(f)
        if k in ("float", "afloat"):
            return self.float(f)
        if k in ("enum", "aenum"):
            return self.enum(f)
        if k == "date":
            return self.date()
        raise AssertionError(k)

    # -- coordinates ---------------------------------------------------------
    def coord(self, dim: int) -> list:
        r = self.r
        if self.valid or self.chance(0.7):
            c = [r.choice([r.uniform(-180, 180), float(r.randint(-180, 180)), 0.0, -180.0, 180.0]),
                 r.choice([r.uniform(-90, 90), float(r.randint(-90, 90)), 0.0, 90.0])]
            if dim == 3:
                c.append(r.choice([0.0, r.uniform(-500, 9000), float(r.randint(0, 9000)), 1e-7]))
            return c
        return [float(self.float()) for _ in range(dim)]

    def coords(self, lo: int, hi: int, *, closed=False) -> list:
        r = self.r
        dim = self.dims or r.choice([2, 3])
        n = r.randint(lo, hi) if not self.chance(0.03) else r.randint(hi, hi * 12)
        pts = [self.again(("coord", dim), lambda: self.coord(dim)) for _ in range(n)]
        if closed and pts and pts[0] != pts[-1]:
            pts.append(list(pts[0]))
        return pts

    def coords_for(self, key: str) -> list:
        if key == "Point":
            return self.coords(1, 1)[:1]
        if key == "LinearRing":
            return self.coords(3, 7, closed=True)
        return self.coords(2, 7)

    def track_items(self) -> list:
        r = self.r
        n = r.randint(1, 5) if not self.chance(0.05) else r.randint(10, 40)
        mode = r.choice(["none", "all", "some"])
        items = []
        for _ in range(n):
            dim = self.dims or r.choice([2, 3])
            if items and self.chance(self.echo / 2):
                items.append(copy.deepcopy(r.choice(items)))
                continue
            ang = None
            if mode == "all" or (mode == "some" and self.chance(0.5)):
                ang = [float(self.float()) if not self.valid else r.uniform(0, 90)
                       for _ in range(3)]
                if self.chance(0.15):
                    ang = [0.0, 0.0, 0.0]
            items.append({"when": self.again("when", self.date),
                          "coord": self.again(("coord", dim), lambda: self.coord(dim)),
                          "angle": ang})
        return items

    # -- elements ------------------------------------------------------------
    REQUIRED = {
        "AtomLink": ["href"], "Author": ["name"], "Contributor": ["name"],
        "SimpleField": ["name", "type_"], "Schema": ["id"], "Data": ["name", "value"],
        "SimpleData": ["name", "value"], "SchemaData": ["schema_url", "data"],
        "ExtendedData": ["elements"], "Point": ["coords"], "LineString": ["coords"],
        "LinearRing": ["coords"], "OuterBoundaryIs": ["kml_geometry"],
        "InnerBoundaryIs": ["kml_geometry"], "Polygon": ["outer_boundary"],
        "MultiGeometry": ["kml_geometries"], "TimeStamp": ["timestamp"], "TimeSpan": ["begin"],
        "Track": ["track_items"], "MultiTrack": ["tracks"], "Link": ["href"], "Icon": ["href"],
        "Location": ["longitude", "latitude"], "Orientation": ["heading"], "Scale": ["x"],
        "Alias": ["target_href"], "ResourceMap": ["aliases"], "Model": ["link", "location"],
        "StyleUrl": ["url"], "IconStyle": ["icon"], "LineStyle": ["width"],
        "PolyStyle": ["fill"], "LabelStyle": ["scale"], "BalloonStyle": ["text"],
        "Style": ["styles"], "Pair": ["key", "style"], "StyleMap": ["pairs"],
        "LatLonAltBox": ["north", "south", "east", "west"], "Lod": ["min_lod_pixels"],
        "Region": ["lat_lon_alt_box"], "Snippet": ["text"], "NetworkLink": ["link"],
        "ViewVolume": ["left_fov", "right_fov", "bottom_fov", "top_fov", "near"],
        "ImagePyramid": ["max_width", "max_height"],
        "LatLonBox": ["north", "south", "east", "west"], "OverlayXY": ["x", "y"],
        "ScreenXY": ["x", "y"], "RotationXY": ["x", "y"], "Size": ["x", "y"],
    }
    # any one of these makes the element complete
    ALTERNATIVES = {
        "TimeSpan": ["begin", "end"], "Orientation": ["heading", "tilt", "roll"],
        "Scale": ["x", "y", "z"], "Alias": ["target_href", "source_href"],
        "LineStyle": ["width", "color", "color_mode"],
        "PolyStyle": ["fill", "outline", "color", "color_mode"],
        "LabelStyle": ["scale", "color", "color_mode"],
        "BalloonStyle": ["bg_color", "text_color", "text", "display_mode"],
    }

    def list_len(self, required: bool) -> int:
        r = self.r
        lo = 1 if required else 0
        if self.big_lists and self.chance(0.3):
            return r.randint(5, 25)
        return r.choice([lo, 1, 1, 2, 2, 3, 4, 6])

    def ast(self, key: str, depth: int = 0) -> dict:
        self.budget -= 1
        r = self.r
        k = SPEC[key]
        must = list(self.ALTERNATIVES.get(key) or ())
        must = [r.choice(must)] if must else list(self.REQUIRED.get(key, ()))
        if (must and key not in ("Schema", "SimpleData")
                and self.chance(self.incomplete)):
            must = r.sample(must, r.randint(0, len(must) - 1)) if len(must) > 1 else []
            self_incomplete = True
        else:
            self_incomplete = False
        out: dict[str, Any] = {}
        dens = self.density if depth < 3 else self.density * 0.7
        for f in k.fields:
            req = f.attr in must
            if not req:
                if self_incomplete and f.attr in self.REQUIRED.get(key, ()):
                    continue
                if not self.chance(dens):
                    continue
            if f.kind == "coords":
                out[f.attr] = self.coords_for(key)
            elif f.kind == "track":
                out[f.attr] = self.track_items()
            elif f.kind == "obj":
                if not req and self.budget <= 0:
                    continue
                sub = self.pick(f, depth, req)
                if sub is not None:
                    out[f.attr] = sub
            elif f.kind == "objs":
                if not req and self.budget <= 0:
                    continue
                n = self.list_len(req)
                items = []
                for _ in range(n):
                    if items and self.budget <= 0:
                        break
                    if items and not self.valid and self.chance(self.echo):
                        items.append(copy.deepcopy(r.choice(items)))
                        self.budget -= 1
                        continue
                    sub = self.pick(f, depth, req)
                    if sub is not None:
                        items.append(sub)
                items = self.arrange(key, f, items)
                if items:
                    out[f.attr] = items
            else:
                out[f.attr] = self.scalar(f)
        return {"k": key, "f": out}

    def arrange(self, key: str, f: Field, items: list) -> list:
        """Respect what the schema (and the API) says about lists of children."""
        if key == "Style":
            # at most one sub-style of each kind, in schema order
            seen: dict[str, dict] = {}
            for i in items:
                seen.setdefault(i["k"], i)
            items = [seen[n] for n in f.of if n in seen]
        elif not self.mixed_order:
            items = sorted(items, key=lambda i: f.of.index(i["k"]))
        return items

    def pick(self, f: Field, depth: int, req: bool) -> dict | None:
        opts = list(f.of)
        if depth >= 5 or self.budget <= 0:
            opts = [o for o in opts
                    if o not in ("Document", "Folder", "MultiGeometry", "StyleMap", "Style",
                                 "Model", "MultiTrack", "NetworkLinkControl")] or (
                opts if req else [])
        if not opts:
            return None
        return self.ast(self.r.choice(opts), depth + 1)


TOPS = list(SPEC)
WEIGHTS = {"KML": 8, "Document": 8, "Folder": 4, "Placemark": 6, "Polygon": 3, "MultiGeometry": 4,
           "Track": 3, "MultiTrack": 3, "Style": 2, "StyleMap": 2, "GroundOverlay": 2,
           "PhotoOverlay": 2, "ScreenOverlay": 2, "NetworkLink": 2, "NetworkLinkControl": 2}


def top_kind(r: random.Random, only=None) -> str:
    keys = [k for k in TOPS if only is None or only(k)]
    return r.choices(keys, [WEIGHTS.get(k, 1) for k in keys])[0]


def document(r: random.Random, *, kind: str | None = None, only=None, **kw) -> dict:
    g = Gen(r, **kw)
    out = g.ast(kind or top_kind(r, only))
    c = r.random()
    if c < 0.02:
        return deep(r, out)
    return grow(g, out) if c < 0.024 else out


def grow(g: Gen, ast: dict) -> dict:
    """Make one text, list of children or of positions of the document very long."""
    from kv import model

    r = g.r
    spots = [(a, f) for _, a in model.walk(ast) for f in SPEC[a["k"]].fields if f.attr in a["f"]
             and (f.kind in ("coords", "objs", "track") or (f.kind in ("text", "body") and f.lex is None))
             and a["k"] not in ("Style", "Point")]
    if not spots:
        return ast
    a, f = r.choice(spots)
    if f.kind == "coords":
        dim, closed = len(a["f"][f.attr][0]), a["f"][f.attr][0] == a["f"][f.attr][-1]
        pts = [[float(i % 360 - 180), i / 4096, 1.5][:dim] for i in range(r.choice([260, 1100, 5000]))]
        a["f"][f.attr] = pts + ([pts[0]] if closed else [])
    elif f.kind == "track":
        items = a["f"][f.attr]
        n = r.choice([130, 300, 1100])
        a["f"][f.attr] = [copy.deepcopy(items[i % len(items)]) for i in range(n)]
        for i, item in enumerate(a["f"][f.attr]):
            item["coord"][0] = i / 16
    elif f.kind == "objs":
        items = [x for x in a["f"][f.attr] if model.count_values(x) < 8]
        if items and not g.valid and a["k"] != "Polygon":
            n = r.choice([70, 130, 300, 1100])
            a["f"][f.attr] = [copy.deepcopy(items[i % len(items)]) for i in range(n)]
            for i, x in enumerate(a["f"][f.attr]):
                if "name" in x["f"] and isinstance(x["f"]["name"], str):
                    x["f"]["name"] = f"n{i}"
    else:
        n = r.choice([300, 1030, 4100, 66000])
        a["f"][f.attr] = "".join(f"{r.choice(WORDS)} {i} " for i in range(n // 8)).strip()
    return ast


NEST = {"Folder": "features", "Document": "features", "MultiGeometry": "kml_geometries"}


def deep(r: random.Random, ast: dict) -> dict:
    """Put an element of the same kind around the inside of a container, many times."""
    attr = NEST.get(ast["k"])
    if attr is None:
        for f in ("features", "kml_geometry"):
            sub = ast["f"].get(f)
            if isinstance(sub, dict):
                ast["f"][f] = deep(r, sub)
            elif sub:
                ast["f"][f] = [deep(r, sub[0]), *sub[1:]]
        return ast
    for i in range(r.randint(5, 30)):
        ast = {"k": ast["k"], "f": {attr: [ast]}}
    return ast

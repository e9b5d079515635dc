"""Geometries convert to KML and back without changing."""
import copy

from kv import gen
from kv import model
from kv import syst
from kv.common import need
from kv.common import same
from kv.errors import Violation
from kv.shrink import case_shrinks
from kv.spec import SPEC

ID = "P12"
COUNTS = {"quick": 60000, "thorough": 2500000}
RULE = ("Random points, lines, rings, polygons with holes, homogeneous and mixed, nested "
        "collections in two or three dimensions, given as pygeoif, shapely or plain geo-interface "
        "objects, are turned into KML geometries and placemarks with random attributes, and back; "
        "and random KML geometries, models, tracks and multi-tracks (parts may repeat) are asked for "
        "their geometry. "
        "Types, coordinates, order and attributes are compared with a separate conversion; "
        "ambiguous constructor arguments must be refused. Non-trivial: at least two points.")
ASSUMPTIONS = [
    "pygeoif leaves out repeated consecutive points and closes rings",
    "a collection of only points, only lines or only polygons is the corresponding multi-part "
    "geometry; siblings are grouped by kind on reading",
]
KINDS = ["Point", "LineString", "LinearRing", "Polygon", "MultiGeometry", "Track", "MultiTrack",
         "Model", "Location", "OuterBoundaryIs", "InnerBoundaryIs", "Placemark"]
SOURCES = ["pygeoif", "shapely", "dict", "object"]
GROUPS = {"Point": "MultiPoint", "LineString": "MultiLineString", "Polygon": "MultiPolygon"}
READ_ORDER = ["Point", "LineString", "Polygon", "LinearRing"]


# -- generation -----------------------------------------------------------
def make(r, i):
    c = r.random()
    if c < 0.5:
        g = gen.Gen(r)
        attrs = {}
        if r.random() < 0.5:
            attrs = {k: v for k, v in (
                ("id", "g1"), ("target_id", "t1"), ("extrude", r.random() < 0.5),
                ("tessellate", r.random() < 0.5),
                ("altitude_mode", r.choice(model.ENUMS["AltitudeMode"]))) if r.random() < 0.6}
        geom = geometry(r, g, r.choice([0, 1, 2]))
        if r.random() < 0.01:
            geom = large(r, r.choice([2, 3]))
        for k in ("g", "c"):
            if geom["t"] not in ("Point", "LineString", "LinearRing", "Polygon") \
                    and k in geom and r.random() < 0.15:
                geom[k].insert(r.randrange(len(geom[k]) + 1), copy.deepcopy(r.choice(geom[k])))
        return {"t": "convert", "geom": geom,
                "source": r.choice(SOURCES), "attrs": attrs}
    if c < 0.55:
        return {"t": "both", "which": r.randrange(9)}
    ast = gen.document(r, kind=r.choice(KINDS), size=r.choice([4, 8, 15]))
    if r.random() < 0.2:
        for _, a in list(model.walk(ast)):
            for f in SPEC[a["k"]].fields:
                v = a["f"].get(f.attr)
                if f.kind in ("objs", "track") and v and r.random() < 0.5:
                    v.insert(r.randrange(len(v) + 1), copy.deepcopy(r.choice(v)))
    return {"t": "of", "ast": ast}


def systematic():
    for a in syst.documents():
        if a["k"] in KINDS:
            yield {"t": "of", "ast": a}
    for n in range(9):
        yield {"t": "both", "which": n}


def geometry(r, g, depth):
    dim = r.choice([2, 3])

    def pt():
        return g.coord(dim)

    def line(lo=2):
        return [pt() for _ in range(r.randint(lo, 6))]

    def ring():
        p = [pt() for _ in range(r.randint(3, 6))]
        return [*p, list(p[0])]

    def poly():
        return [ring() for _ in range(r.choice([1, 1, 2, 3]))]

    kinds = ["Point", "LineString", "LinearRing", "Polygon"]
    if depth:
        kinds += ["MultiPoint", "MultiLineString", "MultiPolygon"] + ["GeometryCollection"] * 3
    t = r.choice(kinds)
    n = r.choice([1, 1, 2, 3, 5])
    if t == "Point":
        return {"t": t, "c": pt()}
    if t == "LineString":
        return {"t": t, "c": line()}
    if t == "LinearRing":
        return {"t": t, "c": ring()}
    if t == "Polygon":
        return {"t": t, "c": poly()}
    if t == "MultiPoint":
        return {"t": t, "c": [pt() for _ in range(n)]}
    if t == "MultiLineString":
        return {"t": t, "c": [line() for _ in range(n)]}
    if t == "MultiPolygon":
        return {"t": t, "c": [poly() for _ in range(n)]}
    return {"t": t, "g": [geometry(r, g, depth - 1) for _ in range(n)]}


def large(r, dim):
    """Many positions, holes or parts, or parts within parts within parts."""
    def pts(n, at=0.0):
        return [[at + i / 8, (i * 7 % 90) + 0.5, float(i)][:dim] for i in range(n)]

    def ring(n, at=0.0):
        return [*pts(n, at), pts(1, at)[0]]

    n = r.choice([15, 40, 150])
    c = r.randrange(8)
    if c == 0:
        return {"t": "LineString", "c": pts(r.choice([150, 1500]))}
    if c == 1:
        return {"t": "LinearRing", "c": ring(r.choice([150, 1500]))}
    if c == 2:
        return {"t": "Polygon", "c": [ring(4, float(i)) for i in range(n)]}
    if c == 3:
        return {"t": "MultiPoint", "c": pts(r.choice([150, 1500]))}
    if c == 4:
        return {"t": "MultiLineString", "c": [pts(3, float(i)) for i in range(n)]}
    if c == 5:
        return {"t": "MultiPolygon", "c": [[ring(4, float(i))] for i in range(n)]}
    if c == 6:
        return {"t": "GeometryCollection", "g": [
            {"t": "Point", "c": p} if i % 2 else {"t": "LineString", "c": pts(2, float(i))}
            for i, p in enumerate(pts(n))]}
    g = {"t": "GeometryCollection", "g": [{"t": "Point", "c": pts(1)[0]},
                                          {"t": "LineString", "c": pts(3)}]}
    for i in range(r.choice([3, 6, 15])):
        g = {"t": "GeometryCollection", "g": [{"t": "Point", "c": pts(1, float(i))[0]}, g]}
    return g


# -- reference ------------------------------------------------------------
def dedup(pts):
    out = []
    for p in pts:
        if not out or list(p) != out[-1]:
            out.append(list(p))
    return out


def parts(spec):
    """The parts of a collection."""
    if spec["t"] == "GeometryCollection":
        return spec["g"]
    one = {"MultiPoint": "Point", "MultiLineString": "LineString", "MultiPolygon": "Polygon"}
    return [{"t": one[spec["t"]], "c": c} for c in spec["c"]]


def canon(spec):
    """Canonical (type, coordinates) of a geometry as KML carries it."""
    t = spec["t"]
    if t == "Point":
        return [t, list(spec["c"])]
    if t == "LineString":
        return [t, dedup(spec["c"])]
    if t == "LinearRing":
        return [t, dedup(spec["c"])]
    if t == "Polygon":
        return [t, [dedup(x) for x in spec["c"]]]
    return collect([canon(p) for p in parts(spec)])


def collect(subs):
    kinds = {s[0] for s in subs}
    if len(kinds) == 1 and subs[0][0] in GROUPS:
        return [GROUPS[subs[0][0]], [s[1] for s in subs]]
    return ["GeometryCollection", subs]


def grouped(c):
    """The canonical form with parts in the order of reading."""
    if c[0] != "GeometryCollection":
        return c
    subs = [grouped(s) for s in c[1]]
    rank = {k: i for i, k in enumerate(READ_ORDER)}
    return ["GeometryCollection", sorted(subs, key=lambda s: rank.get(s[0], 9))]


def seen(geom):
    """Canonical form of what the library returns."""
    if geom is None:
        return None
    gi = geom.__geo_interface__
    return from_interface(gi)


def from_interface(gi):
    if gi["type"] == "GeometryCollection":
        return ["GeometryCollection", [from_interface(x) for x in gi["geometries"]]]
    return [gi["type"], listed(gi["coordinates"])]


def listed(c):
    return [listed(x) for x in c] if isinstance(c, (list, tuple)) else c


def kml_ast(spec, attrs, top=True):
    """The KML element a geometry stands for."""
    t = spec["t"]
    mine = {k: v for k, v in attrs.items() if top or k not in ("id", "target_id")}
    if t in ("Point", "LineString", "LinearRing"):
        f = dict(mine)
        if t == "Point":
            f.pop("tessellate", None)
            f["coords"] = [spec["c"]]
        else:
            f["coords"] = dedup(spec["c"])
        return {"k": t, "f": f}
    if t == "Polygon":
        ring = [{"k": "LinearRing", "f": {"coords": dedup(x)}} for x in spec["c"]]
        f = {**mine, "outer_boundary": {"k": "OuterBoundaryIs", "f": {"kml_geometry": ring[0]}}}
        if ring[1:]:
            f["inner_boundaries"] = [{"k": "InnerBoundaryIs", "f": {"kml_geometry": x}}
                                     for x in ring[1:]]
        return {"k": t, "f": f}
    own = {k: v for k, v in mine.items() if k in ("id", "target_id")}
    return {"k": "MultiGeometry", "f": {**own, "kml_geometries": [
        kml_ast(p, attrs, top=False) for p in parts(spec)]}}


def of_ast(ast):
    """The geometry of a KML element, or None."""
    k, f = ast["k"], ast["f"]
    if k == "Point":
        return ["Point", list(f["coords"][0])] if f.get("coords") else None
    if k in ("LineString", "LinearRing"):
        return [k, dedup(f["coords"])] if f.get("coords") else None
    if k in ("OuterBoundaryIs", "InnerBoundaryIs", "Placemark"):
        return of_ast(f["kml_geometry"]) if "kml_geometry" in f else None
    if k == "Polygon":
        outer = of_ast(f["outer_boundary"]) if "outer_boundary" in f else None
        if outer is None:
            return None
        inner = [of_ast(b) for b in f.get("inner_boundaries", ())]
        return ["Polygon", [outer[1], *(b[1] for b in inner if b is not None)]]
    if k == "MultiGeometry":
        subs = [x for x in (of_ast(c) for c in f.get("kml_geometries", ())) if x is not None]
        return collect(subs) if subs else None
    if k == "Track":
        pts = [i["coord"] for i in f.get("track_items") or ()]
        if not pts or len({len(p) for p in pts}) > 1:
            return None
        return ["LineString", dedup(pts)]
    if k == "MultiTrack":
        subs = [x for x in (of_ast(c) for c in f.get("tracks") or ()) if x is not None]
        return ["MultiLineString", [s[1] for s in subs]] if subs else None
    if k == "Location":
        if "longitude" not in f or "latitude" not in f:
            return None
        return ["Point", [f[n] for n in ("longitude", "latitude", "altitude") if n in f]]
    if k == "Model":
        return of_ast(f["location"]) if "location" in f else None
    raise AssertionError(k)


# -- sources --------------------------------------------------------------
def interface(spec):
    if spec["t"] == "GeometryCollection":
        return {"type": spec["t"], "geometries": [interface(x) for x in spec["g"]]}

    def tup(c):
        return tuple(tup(x) for x in c) if isinstance(c, list) else c

    return {"type": spec["t"], "coordinates": tup(spec["c"])}


class Thing:
    def __init__(self, gi):
        self.__geo_interface__ = gi


def source(spec, how):
    import pygeoif.geometry as geo

    gi = interface(spec)
    if how == "dict":
        return gi
    if how == "object":
        return Thing(gi)
    if how == "shapely":
        import shapely.geometry as sg

        t = spec["t"]
        c = gi.get("coordinates")
        if t == "GeometryCollection":
            return sg.GeometryCollection([source(x, how) for x in spec["g"]])
        if t == "Polygon":
            return sg.Polygon(c[0], c[1:])
        if t == "MultiPolygon":
            return sg.MultiPolygon([sg.Polygon(p[0], p[1:]) for p in c])
        return getattr(sg, t)(c)
    t = spec["t"]
    c = gi.get("coordinates")
    if t == "Point":
        return geo.Point(*c)
    if t == "Polygon":
        return geo.Polygon(c[0], c[1:])
    if t == "MultiPolygon":
        return geo.MultiPolygon([(p[0], p[1:]) for p in c])
    if t == "GeometryCollection":
        return geo.GeometryCollection([source(x, how) for x in spec["g"]])
    return getattr(geo, t)(c)


def points(spec):
    if "g" in spec:
        return sum(points(x) for x in spec["g"])
    return str(spec["c"]).count(",")


# -- check ----------------------------------------------------------------
def run(case, cov):
    cov.hit(case["t"])
    globals()["run_" + case["t"]](case, cov)


def run_convert(case, cov):
    from fastkml.features import Placemark
    from fastkml.geometry import create_kml_geometry

    spec, attrs = case["geom"], case["attrs"]
    cov.hit(f"{case['source']} {spec['t']}")
    cov.nontrivial(points(spec) >= 3)
    kw = dict(attrs)
    if "altitude_mode" in kw:
        kw["altitude_mode"] = model.enum_member("AltitudeMode", kw["altitude_mode"])
    src = source(spec, case["source"])
    kml = create_kml_geometry(src, **kw)
    want = canon(spec)
    same(model.norm(kml_ast(spec, attrs), grouped=False),
         model.norm(model.extract(kml), grouped=False), "KML element")
    same(want, seen(kml.geometry), "geometry")
    need(bool(kml), "element is falsy")
    mark = Placemark(geometry=src)
    same(want, seen(mark.geometry), "geometry of the placemark")
    same(model.norm(kml_ast(spec, {}), grouped=False),
         model.norm(model.extract(mark.kml_geometry), grouped=False), "element of the placemark")
    back = Placemark.from_string(mark.to_string())
    same(grouped(want), seen(back.geometry), "geometry read back")
    back = type(kml).from_string(kml.to_string())
    same(grouped(want), seen(back.geometry), "geometry element read back")
    same(model.norm(kml_ast(spec, attrs)), model.norm(model.extract(back)), "element read back")


def run_of(case, cov):
    ast = case["ast"]
    obj = model.build(ast)
    want = of_ast(model.norm(ast, grouped=False))
    cov.hit(ast["k"])
    cov.nontrivial(want is not None and str(want).count(",") >= 3)
    got = obj.geometry
    if want is None:
        need(got is None or got.is_empty, "geometry from nothing", lambda: repr(got)[:300])
    else:
        same(want, seen(got), "geometry of " + ast["k"])
    want = of_ast(model.norm(ast, drop_absent=True))
    got = type(obj).from_string(obj.to_string()).geometry
    if want is None:
        need(got is None or got.is_empty, "geometry read from nothing", lambda: repr(got)[:300])
    else:
        same(grouped(want), grouped(seen(got)), "geometry read back of " + ast["k"])


def run_both(case, cov):
    """A geometry must not be given twice."""
    import pygeoif.geometry as geo
    from fastkml import features
    from fastkml import geometry as kg
    from fastkml import gx

    cov.nontrivial()
    c = kg.Coordinates(coords=[(1.0, 2.0), (3.0, 4.0), (5.0, 1.0), (1.0, 2.0)])
    ring = kg.LinearRing(kml_coordinates=c)
    pts = [(1.0, 2.0), (3.0, 4.0), (5.0, 1.0), (1.0, 2.0)]
    item = model.build_track_item(syst.track_items(1)[0])
    makers = [
        lambda: kg.Point(geometry=geo.Point(1, 2), kml_coordinates=c),
        lambda: kg.LineString(geometry=geo.LineString(pts), kml_coordinates=c),
        lambda: kg.LinearRing(geometry=geo.LinearRing(pts), kml_coordinates=c),
        lambda: kg.OuterBoundaryIs(geometry=geo.LinearRing(pts), kml_geometry=ring),
        lambda: kg.InnerBoundaryIs(geometry=geo.LinearRing(pts), kml_geometry=ring),
        lambda: kg.Polygon(geometry=geo.Polygon(pts),
                           outer_boundary=kg.OuterBoundaryIs(kml_geometry=ring)),
        lambda: kg.MultiGeometry(geometry=geo.MultiPoint(pts), kml_geometries=[ring]),
        lambda: features.Placemark(geometry=geo.Point(1, 2), kml_geometry=ring),
        lambda: gx.Track(track_items=[item], whens=[item.when], coords=[(1.0, 2.0)]),
    ]
    from fastkml.exceptions import FastKMLError

    try:
        makers[case["which"]]()
    except (ValueError, FastKMLError):
        return
    raise Violation("geometry given twice", f"constructor {case['which']}")


def shrinks(case):
    if case["t"] == "of":
        for c in case_shrinks(case):
            if c["ast"]["k"] in KINDS:
                yield c
    elif case["t"] == "convert":
        if case["source"] != "dict":
            yield {**case, "source": "dict"}
        for k in case["attrs"]:
            yield {**case, "attrs": {a: v for a, v in case["attrs"].items() if a != k}}
        g = case["geom"]
        if g["t"] == "GeometryCollection":
            for x in g["g"]:
                yield {**case, "geom": x}
            for i in range(len(g["g"])):
                if len(g["g"]) > 1:
                    yield {**case, "geom": {**g, "g": g["g"][:i] + g["g"][i + 1:]}}
        elif g["t"].startswith("Multi"):
            for x in parts(g):
                yield {**case, "geom": x}

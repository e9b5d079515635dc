"""Equality is content equality, and repr can be evaluated back."""
import copy
import datetime

from kv import gen
from kv import model
from kv import syst
from kv.common import need
from kv.common import same
from kv.errors import Skip
from kv.mutate import mutate
from kv.shrink import case_shrinks

ID = "P13"
COUNTS = {"quick": 60000, "thorough": 3000000}
RULE = ("Random (and enumerated) object trees are built twice from the same content (once from tuples, equal parts being one object), once more "
        "with attributes of the user's own, with exactly one clearly different value, missing value, extra value, or moved, doubled "
        "or dropped child, deep-copied, evaluated from their repr, and read back from their own "
        "output. Non-trivial: the single difference exists or at least three values are set.")
ASSUMPTIONS = [
    "boundaries of polygons are compared by geometry (documented), so their own ids and flags "
    "are not changed by the single-difference cases",
    "coordinates are changed by far more than the geometry library's tolerance",
    "the equality and repr of a geometry element are those of its geometry, which leaves out points repeated at once "
    "and the ids and flags of a polygon's rings",
    "tracks are not deep-copied: the geometry library's points cannot be",
    "a date-time with zone does not equal one without; both denote the same KML text",
]


def systematic():
    import random

    for n, a in enumerate(syst.documents()):
        m = mutate(a, random.Random(n))
        if m:
            yield {"ast": a, "other": m[0], "how": m[1]}


def make(r, i):
    ast = gen.document(r, incomplete=0.0, pad=False, mixed_order=r.random() < 0.5)
    m = mutate(ast, r)
    extra = None
    if r.random() < 0.15:
        extra = r.sample([0, 1, "x", "y", False, True, 1.5, "None"], 2)
        if r.random() < 0.3:
            extra[0] = None
    return {"ast": ast, "other": m[0] if m else None, "how": m[1] if m else None, "extra": extra,
            "spaces": r.getrandbits(16) if r.random() < 0.1 else None}


_space = {}


def space():
    if not _space:
        import fastkml
        import fastkml.containers
        import fastkml.enums
        import pygeoif.geometry as geo
        from dateutil.tz import tzfile
        from dateutil.tz import tzlocal
        from dateutil.tz import tzoffset
        from dateutil.tz import tzutc
        from fastkml.gx import Angle
        from fastkml.gx import TrackItem

        _space.update({n: getattr(fastkml.enums, n) for n in dir(fastkml.enums)
                       if n[0].isupper()})
        _space.update({n: getattr(geo, n) for n in (
            "Point", "LineString", "LinearRing", "Polygon", "MultiPoint", "MultiLineString",
            "MultiPolygon", "GeometryCollection")})
        _space.update(fastkml=fastkml, datetime=datetime, Angle=Angle, TrackItem=TrackItem,
                      tzutc=tzutc, tzoffset=tzoffset, tzlocal=tzlocal, tzfile=tzfile,
                      nan=float("nan"), inf=float("inf"))
    return dict(_space)


def distinct(ast):
    """Geometries do not repeat points (the geometry library leaves them out)."""
    polygons = [p for p, a in model.walk(ast) if a["k"] == "Polygon"]
    for path, a in model.walk(ast):
        if a["k"] == "LinearRing" and any(path[:len(p)] == p and len(path) > len(p)
                                          for p in polygons):
            a["f"] = {"coords": a["f"]["coords"]} if "coords" in a["f"] else {}
        v = a["f"].get("coords")
        if v:
            a["f"]["coords"] = [c for i, c in enumerate(v) if i == 0 or c != v[i - 1]]
    return ast


def rebuilt(obj, what):
    text = repr(obj)
    try:
        back = eval(text, space())  # noqa: S307
    except Exception as e:
        from kv.errors import Violation
        raise Violation("repr does not evaluate", f"{what}: {e}: {text[:400]}") from e
    need(type(back) is type(obj), "repr makes another class", lambda: type(back).__name__)
    same(distinct(model.norm(model.extract(obj), grouped=False)),
         distinct(model.norm(model.extract(back), grouped=False)), "repr loses content")
    need(back == obj and obj == back, "object from repr differs", what)
    need(repr(back) == text, "repr of the rebuilt object differs", what)


def comparable_after_reading(ast):
    """Nothing that reading legitimately represents in another way."""
    for _, a in model.walk(ast):
        for k, v in a["f"].items():
            if k == "track_items":
                if any(i.get("angle") is None for i in v):
                    return False
                if any(naive(i["when"]) for i in v):
                    return False
            elif isinstance(v, dict) and "d" in v and naive(v):
                return False
    return model.norm(ast, drop_absent=True) == model.norm(ast)


def naive(v):
    return v["d"][1] == "dateTime" and datetime.datetime.fromisoformat(v["d"][0]).tzinfo is None


def extras(case, cov):
    """Attributes of the user's own are part of the content."""
    ast = case["ast"]
    x, y = case["extra"]

    def make(v):
        return model.build(ast, ns_of=lambda k: {"zz_note": v} if k.key == ast["k"] else {})

    a, b, c, plain = make(x), make(x), make(y), model.build(ast)
    need(a == b and b == a, "equal content is unequal", ast["k"])
    if x != y:
        need(a != c and c != a, "different own attributes are equal", f"{ast['k']} {x!r} {y!r}")
    if x is not None:
        need(a != plain and plain != a, "own attribute ignored", ast["k"])
    back = eval(repr(a), space())  # noqa: S307
    need(getattr(back, "zz_note", None) == x and (back == a or x is None),
         "own attribute lost in repr", lambda: repr(a)[:300])
    if sum(n["k"] == ast["k"] for _, n in model.walk(ast)) > 1:
        return  # nested ones have it too
    a.zz_note = y
    need(a == c, "own attribute set later differs", ast["k"])
    back = eval(repr(a), space())  # noqa: S307
    need(getattr(back, "zz_note", None) == y and back == a, "own attribute set later lost in repr",
         lambda: repr(a)[:300])
    cov.hit("own attribute")


def spaces(case, cov):
    """The namespaces of every element are part of its content."""
    ast, n = case["ast"], case["spaces"]
    polygons = [p for p, x in model.walk(ast) if x["k"] == "Polygon"]
    paths = [p for p, _ in model.walk(ast)
             if not any(p[:len(q)] == q and p != q for q in polygons)]
    path = paths[n // 2 % len(paths)]
    a, b = model.build(ast), model.build(ast)
    obj = b
    for step in path:
        obj = obj[step] if isinstance(step, int) else getattr(obj, step)
    if n % 2:
        obj.ns = "{urn:other}"
    else:
        obj.name_spaces = {**obj.name_spaces, "zz": "{urn:zz}"}
    need(a != b and b != a, "different namespaces are equal", f"{path} {n % 2}")
    back = eval(repr(b), space())  # noqa: S307
    need(back == b, "namespaces lost in repr", lambda: repr(b)[:300])
    cov.hit("namespaces")


def run(case, cov):
    ast, other = case["ast"], case["other"]
    a, b = model.build(ast), model.build(copy.deepcopy(ast))
    need(a == b and b == a and not a != b, "equal content is unequal", ast["k"])
    need(a == a and not a != a, "not equal to itself", ast["k"])
    e = model.build(ast, form=model.Form("tuple", share=True))
    need(a == e and e == a, "equal content made another way is unequal", ast["k"])
    for x in (None, 1, "x", object(), ast):
        need(not a == x and a != x, "equal to something else", repr(x)[:50])
    rebuilt(a, "built")
    if "Track" not in model.kinds_in(ast):
        c = copy.deepcopy(a)
        need(c == a and a == c, "deep copy differs", ast["k"])
        same(model.norm(model.extract(a)), model.norm(model.extract(c)), "deep copy content")
    if case.get("extra") is not None:
        extras(case, cov)
    if case.get("spaces") is not None:
        spaces(case, cov)
    if other is not None:
        if distinct(model.norm(ast, grouped=False)) == distinct(model.norm(other, grouped=False)):
            raise Skip
        d = model.build(other)
        need(a != d and d != a and not a == d and not d == a, "different content is equal",
             lambda: f"{case['how']}: {model.diff(model.norm(ast, grouped=False), model.norm(other, grouped=False))[:2]}")
        cov.hit(case["how"].split()[0])
    text = a.to_string()
    back = model.cls_of(ast["k"]).from_string(text)
    rebuilt(back, "read")
    if comparable_after_reading(ast) and not model.diff(
            model.norm(ast, grouped=False), model.norm(model.extract(back), grouped=False)):
        cov.hit("read back")
        need(back == a and a == back, "object read back from its own output differs",
             lambda: f"{text[:300]} {case['how']}")
    cov.hit(ast["k"])
    cov.nontrivial(other is not None or model.count_values(ast) >= 3)


def shrinks(case):
    import random

    if case.get("spaces") is not None:
        yield {**case, "spaces": None}
        yield {**case, "other": None, "how": None, "extra": None}
        for c in case_shrinks(case, incomplete=False):
            yield {**c, "other": None, "how": None}
        return
    if case.get("extra") is not None:
        yield {**case, "extra": None}
        for c in case_shrinks(case, incomplete=False):
            yield {**c, "other": None, "how": None}

    for c in case_shrinks(case, incomplete=False):
        if case["other"] is None:
            yield c
            continue
        for s in range(4):
            m = mutate(c["ast"], random.Random(s))
            if m:
                yield {"ast": c["ast"], "other": m[0], "how": m[1]}
    if case["other"] is not None:
        yield {**case, "other": None, "how": None}

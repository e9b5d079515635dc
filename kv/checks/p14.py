"""Searching a tree finds exactly the matching objects."""
from kv import gen
from kv import model
from kv import syst
from kv.common import need
from kv.errors import Skip
from kv.shrink import case_shrinks
from kv.spec import SPEC

ID = "P14"
COUNTS = {"quick": 40000, "thorough": 2000000}
RULE = ("A random tree (built, or read from text; with lists or tuples) is searched for one or several types, for "
        "attribute values of any kind taken from its own elements (also unset ones) or absent "
        "from it, and for both; also for the dates, samples and angles in it; the results are compared by identity with a traversal of the public "
        "attributes. Documents are also asked for styles by url. Non-trivial: at least one match "
        "below the root, among at least three elements.")
ASSUMPTIONS = [
    "the order of results is checked only where it is evident: a parent before what it contains, "
    "and members of one list in the order of the list",
]
QKINDS = ("text", "attr", "body", "bool", "int", "float", "enum", "aenum", "afloat", "aint")
BASES = ["fastkml.features._Feature", "fastkml.containers._Container", "fastkml.overlays._Overlay",
         "fastkml.styles._ColorStyle", "fastkml.geometry._Geometry", "fastkml.times._TimePrimitive",
         "fastkml.kml_base._BaseObject", "fastkml.base._XMLObject", "fastkml.views._AbstractView"]


VALUES = {"KmlDateTime": "fastkml.times.KmlDateTime", "TrackItem": "fastkml.gx.TrackItem",
          "Angle": "fastkml.gx.Angle", "Coordinates": "fastkml.geometry.Coordinates"}


LONG = "a-very-long-identifier." * 20


def systematic():
    """Every kind and every value of an element in which everything is set."""
    for key in SPEC:
        ast = syst.full(key, 1)
        for path, n in model.walk(ast):
            base = {"ast": ast, "mode": "find", "read": False, "start": []}
            yield {**base, "types": [n["k"]], "tuple": False, "where": {}}
            for f in SPEC[n["k"]].fields:
                if f.kind in QKINDS and f.attr in n["f"]:
                    yield {**base, "types": [], "tuple": False, "where": {
                        f.attr: [f.enum if "enum" in f.kind else None, n["f"][f.attr]]}}
                else:
                    attr = "kml_coordinates" if f.kind == "coords" else f.attr
                    yield {**base, "types": [], "tuple": False,
                           "where": {attr: ["@", list(path)]}}


def rename(ast, r):
    """Small pools, so that values are shared between elements."""
    for _, a in model.walk(ast):
        for f in SPEC[a["k"]].fields:
            if f.attr in ("id", "name", "target_id") and f.attr in a["f"]:
                a["f"][f.attr] = r.choice(["a", "b", "s1", "über", "x-1", "b.2", LONG, LONG + "2"])


def styled(ast, g, r):
    """Give features styles with ids."""
    for _, a in list(model.walk(ast)):
        if any(f.attr == "styles" for f in SPEC[a["k"]].fields) and a["k"] != "Style" \
                and r.random() < 0.5:
            a["f"]["styles"] = [*a["f"].get("styles", ()), *(
                {"k": r.choice(["Style", "StyleMap"]), "f": {}} for _ in range(r.randint(1, 3)))]
    for _, a in model.walk(ast):
        if a["k"] in ("Style", "StyleMap"):
            if r.random() < 0.7:
                a["f"]["id"] = "x"
            if a["k"] == "Style" and "styles" not in a["f"]:
                a["f"]["styles"] = [g.ast("LineStyle", 4)]
            if a["k"] == "StyleMap" and "pairs" not in a["f"]:
                a["f"]["pairs"] = [g.ast("Pair", 4)]


def make(r, i):
    mode = "style" if r.random() < 0.25 else "find"
    top = "Document" if mode == "style" else r.choice(["KML", "Document", "Folder", "Placemark", None])
    g = gen.Gen(r, pad=False, size=r.choice([8, 20, 40, 80]))
    g.density = max(g.density, r.choice([0.15, 0.3, 0.5]))
    ast = g.ast(top or gen.top_kind(r))
    if mode == "style":
        styled(ast, g, r)
    if r.random() < 0.03:
        ast = gen.deep(r, ast)
    elif r.random() < 0.005:
        ast = gen.grow(g, ast)
    rename(ast, r)
    case = {"ast": ast, "mode": mode, "read": r.random() < 0.4, "tuples": r.random() < 0.1}
    if mode == "style":
        frag = r.choice(["a", "b", "s1", "über", "x-1", "b.2", "none", "", LONG, LONG + "2"])
        case["frag"] = frag
        case["url"] = r.choice(["#", "http://example.com/d.kml#", "d.kml#", "../x/y.kml?q=1#",
                                "https://h:80/p;x#"]) + frag
        if r.random() < 0.1:
            case["url"], case["frag"] = r.choice(["a", "", "s1", "http://example.com/a"]), ""
        return case
    nodes = list(model.walk(ast))
    case["start"] = list(r.choice(nodes)[0]) if r.random() < 0.3 else []
    inside = [n for p, n in nodes if p[:len(case["start"])] == tuple(case["start"])]
    n = r.choice(inside if r.random() < 0.9 else [n for _, n in nodes])
    types = []
    c = r.random()
    if c < 0.4:
        types = [n["k"]]
    elif c < 0.55:
        types = r.sample(list(SPEC), r.randint(2, 5)) + [n["k"]]
    elif c < 0.7:
        types = [r.choice([b for b in BASES if is_base(b, n["k"])] or [n["k"]])]
    case["types"] = types
    case["tuple"] = len(types) > 1 or r.random() < 0.3
    where = {}
    fields = [f for f in SPEC[n["k"]].fields if f.kind in QKINDS]
    if fields and (not types or r.random() < 0.6):
        for f in r.sample(fields, min(len(fields), r.choice([1, 1, 2]))):
            where[f.attr] = [f.enum if "enum" in f.kind else None, n["f"].get(f.attr)]
            if r.random() < 0.1:
                where[f.attr] = [None, "no such value"]
    if r.random() < 0.15:
        path, n = r.choice(nodes)
        f = r.choice(SPEC[n["k"]].fields)
        where["kml_coordinates" if f.kind == "coords" else f.attr] = ["@", list(path)]
    if r.random() < 0.1:
        types = case["types"] = r.sample(list(VALUES), r.choice([1, 1, 2]))
        case["tuple"], where = len(types) > 1, {}
    if not types and not where:
        where["id"] = [None, "a"]
    case["where"] = where
    return case


def is_base(name, kind):
    try:
        return issubclass(model.cls_of(kind), resolve(name))
    except (ImportError, AttributeError):
        return False


def resolve(name):
    import importlib

    name = VALUES.get(name, name)
    if "." not in name:
        return model.cls_of(name)
    mod, _, cls = name.rpartition(".")
    return getattr(importlib.import_module(mod), cls)


def tree(obj, path=()):
    """(object, path) of every element, through the public attributes."""
    yield obj, path
    k = SPEC[model.kind_of(obj)]
    for f in k.fields:
        if f.kind == "coords":
            c = obj.kml_coordinates
            if c is not None:
                yield c, (*path, "coords")
        elif f.kind == "obj":
            v = getattr(obj, f.attr)
            if v is not None:
                yield from tree(v, (*path, f.attr))
        elif f.kind == "objs":
            for i, c in enumerate(getattr(obj, f.attr) or ()):
                yield from tree(c, (*path, f.attr, i))


def values(obj, path):
    """(value, path) of the dates, samples and angles that belong to one element."""
    from fastkml.times import KmlDateTime

    k = SPEC[model.kind_of(obj)] if type(obj).__name__ != "Coordinates" else None
    for f in k.fields if k else ():
        v = getattr(obj, f.attr, None)
        if isinstance(v, KmlDateTime):
            yield v, (*path, f.attr)
        elif f.kind == "track":
            for i, t in enumerate(v or ()):
                p = (*path, f.attr, i)
                yield t, p
                yield t.when, (*p, "when")
                if t.angle is not None:
                    yield t.angle, (*p, "angle")


def ordered(paths):
    """Parents before contents, members of a list in order."""
    pos = {p: i for i, p in enumerate(paths)}
    for p, i in pos.items():
        for n in range(len(p)):
            if p[:n] in pos:
                need(pos[p[:n]] < i, "contained object found before its container", str(p))
    last = {}
    for p in paths:
        for n, x in enumerate(p):
            if isinstance(x, int):
                need(last.get(p[:n], -1) <= x, "results out of order", str(paths)[:300])
                last[p[:n]] = x


def run(case, cov):
    from fastkml.base import _XMLObject
    from fastkml.utils import find
    from fastkml.utils import find_all

    obj = model.build(case["ast"])
    if case["read"]:
        obj = type(obj).from_string(obj.to_string())
    cov.hit(case["mode"])
    if case.get("tuples"):
        cov.hit("tuples")
        for o, _ in list(tree(obj)):
            for a, v in list(vars(o).items()):
                if isinstance(v, list) and not a.startswith("_"):
                    setattr(o, a, tuple(v))
    if case["mode"] == "style":
        return style(case, obj, cov)
    every = {p: o for o, p in tree(obj)}
    start = tuple(case["start"])
    if start not in every:
        raise Skip
    root = every[start]
    where = {}
    for a, (enum, v) in case["where"].items():
        if enum == "@":
            if not hasattr(every.get(tuple(v)), a):
                raise Skip  # reading has put something else there
            where[a] = getattr(every[tuple(v)], a)
            cov.hit("attribute of another object")
            continue
        where[a] = model.enum_member(enum, v) if enum and v is not None else v
    types = tuple(resolve(t) for t in case["types"])
    of_type = None
    if types:
        of_type = types if case["tuple"] else types[0]
    missing = object()
    expected = {}
    plain = any(t in VALUES for t in case["types"])
    if plain:
        cov.hit("values")
        for p, o in list(every.items()):
            every.update({q: v for v, q in values(o, p)})
    for p, o in every.items():
        if p[:len(start)] != start:
            continue
        if types and not isinstance(o, types):
            continue
        if all(getattr(o, a, missing) == v for a, v in where.items()):
            expected[id(o)] = p
    got = list(find_all(root, of_type=of_type, **where))
    first = find(root, of_type=of_type, **where)
    if got:
        need(first is got[0], "find is not the first of find_all")
    else:
        need(first is None, "find makes something up", repr(first)[:100])
    if not plain:
        got = [o for o in got if isinstance(o, _XMLObject)]
    for o in got:
        need(id(o) in expected, "found what does not match",
             lambda: f"{type(o).__name__} for {case['types']} {where}")
    need(len(got) == len({id(o) for o in got}), "found twice")
    missed = set(expected) - {id(o) for o in got}
    need(not missed, "not found",
         lambda: f"{[expected[m] for m in missed][:3]} for {case['types']} {where}")
    ordered([expected[id(o)] for o in got])
    cov.hit(f"matches {min(len(got), 5)}")
    cov.nontrivial(len(every) >= 3 and any(expected[id(o)] != start for o in got))


def style(case, doc, cov):
    from fastkml import Style
    from fastkml import StyleMap

    want = {id(o): p for o, p in tree(doc)
            if isinstance(o, (Style, StyleMap)) and o.id == case["frag"]}
    if not case["frag"]:
        want = {}
    got = doc.get_style_by_url(case["url"])
    if not want:
        need(got is None, "style that is not there", lambda: f"{case['url']}: {got!r}"[:200])
        return
    need(got is not None, "style not found", case["url"])
    need(id(got) in want, "wrong style", lambda: f"{case['url']}: {got!r}"[:200])
    own = [p for p in want.values() if p[0] == "styles"]
    if own:
        need(want[id(got)][0] == "styles", "the document's own style is passed over", case["url"])
    cov.hit("style found")
    cov.nontrivial()


def shrinks(case):
    if case["read"]:
        yield {**case, "read": False}
    if case.get("tuples"):
        yield {**case, "tuples": False}
    if case.get("start"):
        yield {**case, "start": []}
    for a in list(case.get("where") or ()):
        yield {**case, "where": {k: v for k, v in case["where"].items() if k != a}}
    if len(case.get("types") or ()) > 1:
        for t in case["types"]:
            yield {**case, "types": [x for x in case["types"] if x != t]}
    yield from case_shrinks(case, hoist=case["mode"] == "find")

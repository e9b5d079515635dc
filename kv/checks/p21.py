"""What is derived from an object follows its content through every change."""
import copy
import re

from kv import gen
from kv import model
from kv import syst
from kv.checks import p16
from kv.checks.p12 import of_ast
from kv.checks.p12 import seen
from kv.checks.p14 import tree
from kv.common import need
from kv.common import same
from kv.shrink import case_shrinks
from kv.spec import SPEC
from kv.spec import present

ID = "P21"
COUNTS = {"quick": 24000, "thorough": 1200000}
RULE = ("A random history of edits on two object trees, as for P16; before the first and after "
        "every step, everything the objects derive from their content is asked for - geometries "
        "at every level, time stamps and spans, normal and highlight styles, icon references, the "
        "views of a track, truth, tag names, styles by url, searches - and compared with what "
        "the reference model derives from the content at that moment. Also random and enumerated "
        "trees with missing content, for their truth. Non-trivial: at least three derived values "
        "that are not empty, or a false element.")
ASSUMPTIONS = [
    "an extended data element all of whose members are incomplete is not judged",
    "an element is true if it has the content KML requires of it",
]
PLAIN = re.compile(r"[A-Za-z_][A-Za-z0-9_.-]*")
GEO = {"Point", "LineString", "LinearRing", "Polygon", "MultiGeometry", "Track", "MultiTrack",
       "Model", "Location", "OuterBoundaryIs", "InnerBoundaryIs", "Placemark"}


def make(r, i):
    if r.random() < 0.4:
        g = gen.Gen(r, pad=False, size=r.choice([0, 2, 5]), incomplete=r.choice([0.0, 0.3, 0.7]))
        g.density = r.choice([0.1, 0.3, 0.6, 0.9])
        return {"t": "truth", "ast": g.ast(r.choice(list(SPEC)))}
    case = p16.make(r, i)
    if r.random() < 0.5:
        case["roots"][0] = gen.document(r, kind=r.choice(["Placemark", "Document", "StyleMap", "Track",
                                                       "MultiTrack", "MultiGeometry", "Polygon"]),
                                        size=r.choice([5, 10, 20]))
        if not p16.complete(case["roots"]):
            case["roots"][0] = syst.minimal("Placemark")
        m = copy.deepcopy(case["roots"])
        case["ops"] = []
        for _ in range(r.choice([2, 4, 8])):
            op = p16.step(r, m)
            if op is not None:
                after = copy.deepcopy(m)
                try:
                    p16.apply_ast(after, op)
                except p16.Stale:
                    continue
                if p16.complete(after):
                    case["ops"].append(op)
                    m = after
    return {"t": "edit", **case}


def systematic():
    for a in [*syst.documents(), *syst.incomplete()]:
        yield {"t": "truth", "ast": a}


def derived(obj, ast, path=()):
    """(what, reference, library) for everything derived from one element."""
    k, f = ast["k"], ast["f"]
    where = f"{k} at {path}: "
    yield where + "tag name", SPEC[k].tag, type(obj).get_tag_name()
    if k in GEO:
        want, got = of_ast(ast), obj.geometry
        if want is None:
            got = None if got is None or got.is_empty else seen(got)
        else:
            got = seen(got)
        yield where + "geometry", want, got
    if any(x.attr == "times" for x in SPEC[k].fields):
        t = f.get("times")
        for attr, kind, name in (("time_stamp", "TimeStamp", "timestamp"),
                                 ("begin", "TimeSpan", "begin"), ("end", "TimeSpan", "end")):
            want = t["f"].get(name) if t and t["k"] == kind else None
            got = getattr(obj, attr)
            yield (where + attr, None if want is None else list(model.canon_date(want)),
                   None if got is None else list(model.canon_date(model.extract_date(got))))
    if k == "StyleMap":
        for name in ("normal", "highlight"):
            want = next((p["f"]["style"] for p in f.get("pairs") or ()
                         if p["f"].get("key") == name and "style" in p["f"]), None)
            got = getattr(obj, name)
            yield (where + name, None if want is None else model.norm(want, grouped=False),
                   None if got is None else model.norm(model.extract(got), grouped=False))
    if k == "IconStyle":
        icon = f.get("icon")
        yield where + "icon_href", icon["f"].get("href") if icon else None, obj.icon_href
    if k == "Track":
        items = f.get("track_items") or ()
        yield where + "coords", [list(i["coord"]) for i in items], [list(c) for c in obj.coords]
        yield (where + "whens", [list(model.canon_date(i["when"])) for i in items],
               [list(model.canon_date(model.extract_date(w))) for w in obj.whens])


def everything(obj, ast, cov, path=()):
    n = 0
    for what, want, got in derived(obj, ast, path):
        same(want, got, what.split(": ")[1] + " of " + ast["k"])
        n += want is not None and want != []
    for f in SPEC[ast["k"]].fields:
        v = ast["f"].get(f.attr)
        if f.kind == "obj" and v is not None:
            n += everything(getattr(obj, f.attr), v, cov, (*path, f.attr))
        elif f.kind == "objs":
            for i, (c, o) in enumerate(zip(v or (), getattr(obj, f.attr) or ())):
                n += everything(o, c, cov, (*path, f.attr, i))
    return n


def searches(obj):
    from fastkml import Document
    from fastkml import Style
    from fastkml import StyleMap
    from fastkml.base import _XMLObject
    from fastkml.utils import find_all

    nodes = list(tree(obj))
    want = {id(o) for o, _ in nodes}
    got = {id(o) for o in find_all(obj, of_type=_XMLObject)}
    need(want == got, "search does not see the tree as it is")
    for doc, p in nodes:
        if not isinstance(doc, Document):
            continue
        inside = [o for o, q in nodes if q[:len(p)] == p and isinstance(o, (Style, StyleMap))]
        for s in {o.id for o in inside if o.id and PLAIN.fullmatch(o.id)} | {"no-such-style"}:
            found = doc.get_style_by_url("#" + s)
            match = [o for o in inside if o.id == s]
            need(any(found is o for o in match) if match else found is None,
                 "style by url does not see the document as it is", s)


def run(case, cov):
    cov.hit(case["t"])
    if case["t"] == "truth":
        return truth(case, cov)
    m = copy.deepcopy(case["roots"])
    objs = [model.build(a) for a in m]
    n = look(objs, m, cov)
    for op in case["ops"]:
        before = copy.deepcopy(m)
        try:
            p16.apply_ast(m, op)
        except p16.Stale:
            m = before
            continue
        if not p16.complete(m):
            m = before
            continue
        p16.apply_obj(objs, op, before)
        if op["op"] == "reread":
            m[op["root"]] = model.extract(objs[op["root"]])
        cov.hit(op["op"])
        n = max(n, look(objs, m, cov))
    cov.nontrivial(n >= 3)
    return None


def look(objs, m, cov):
    n = 0
    for o, a in zip(objs, m):
        searches(o)
        n += everything(o, model.norm(a, grouped=False), cov)
    return n


def truth(case, cov):
    n = total = 0
    for _, a in model.walk(case["ast"]):
        total += 1
        want = present(model.norm(a, grouped=False))
        if want != present(model.norm(a, grouped=False, drop_absent=True)):
            continue  # whether what is incomplete counts
        same(want, bool(model.build(a)), "truth of " + a["k"])
        cov.hit(f"{want} {a['k']}")
        n += not want
    cov.nontrivial(n or total > 3)


def shrinks(case):
    if case["t"] == "truth":
        yield from case_shrinks(case)
    else:
        for c in p16.shrinks(case):
            yield {"t": "edit", **c}

"""Content belongs to the namespaces it is asked for in, on reading and on writing."""
import copy
import io
import random

from kv import gen
from kv import model
from kv import syst
from kv.checks.p14 import tree
from kv.common import need
from kv.common import reading
from kv.common import same
from kv.errors import Skip
from kv.model import NS
from kv.model import Node
from kv.shrink import case_shrinks
from kv.spec import SPEC

ID = "P18"
COUNTS = {"quick": 60000, "thorough": 3000000}
RULE = ("Random documents in random namespaces (the KML versions, made-up ones, also for the gx "
        "and atom parts, and none) with random prefixes, beside up to 30 more, with foreign elements of the same local "
        "names mixed in, are read by naming the namespaces or, for whole documents, by inference "
        "from the root; objects are built in those namespaces (named together, or one by one), from elements or "
        "geometries. What "
        "is read must be the content, what is written must be in the same namespaces and read "
        "back. Non-trivial: a namespace other than the default, and three values.")
ASSUMPTIONS = [
    "documents without any namespace are read below the root element only: for the kml root "
    "itself the existing tests pin that it has no features, and a network link control and "
    "the altitude mode of a multi-track are only looked for in a namespace",
    "elements in no namespace inside a namespaced document are outside the property",
]
URIS = ["http://www.opengis.net/kml/2.2", "http://earth.google.com/kml/2.0",
        "http://earth.google.com/kml/2.1", "http://earth.google.com/kml/2.2",
        "http://www.opengis.net/kml/2.3", "urn:x", "http://example.com/a?b=c#kml", "kml"]
GX = [NS["gx"], "urn:gx2", "http://www.google.com/kml/ext/2.3"]
ATOM = [NS["atom"], "urn:atom2"]
PREFIXES = [{"kml": "", "gx": "gx", "atom": "atom"}, {"kml": "kml", "gx": "gx", "atom": "atom"},
            {"kml": "a", "gx": "", "atom": "c"}, {"kml": "ns0", "gx": "ns1", "atom": "ns2"}]


def case_of(ast, r):
    return {"ast": ast, "kml": r.choice(URIS), "gx": r.choice([GX[0], r.choice(GX)]),
            "atom": r.choice([ATOM[0], r.choice(ATOM)]), "prefix": r.randrange(len(PREFIXES)),
            "foreign": r.random() < 0.4, "spell": r.getrandbits(32),
            "more": r.choice([0, 0, 0, 1, 3, 30]), "mode": r.choice(["read", "read", "parse" if ast["k"] == "KML" else "read", "build",
                              "geometry", "none", "bare", "own"]), "ns": r.random() < 0.5,
            "stdlib": r.random() < 0.2, "strict": r.random() < 0.6}


def make(r, i):
    ast = gen.document(r, kind=r.choice(["KML", None, None]), cr=False)
    return case_of(ast, r)


def systematic():
    for n, a in enumerate(syst.documents()):
        yield case_of(a, random.Random(n))


def strange(root, r):
    """Foreign elements with the names of KML ones, before and after them."""
    for n in list(root.walk()):
        if n.ns == "foreign" or (n.field is not None and not n.kids):
            continue
        for c in list(n.kids):
            if r.random() < 0.25:
                x = Node("foreign", c.tag, "777", None)
                if c.kids:
                    x.text = None
                    x.kids = [Node("foreign", k.tag, "778", None) for k in c.kids]
                n.kids.insert(r.choice([0, len(n.kids)]), x)


def spaces_of(case):
    mine = {k: f"{{{case[k]}}}" for k in ("kml", "gx", "atom")}
    more = {f"x{i}": f"{{urn:more:{i}}}" for i in range(case.get("more", 0))}
    return {**mine, **more} if case["spell"] % 2 else {**more, **mine}


def run(case, cov):
    from fastkml import config

    if case["stdlib"]:
        import xml.etree.ElementTree as ET

        config.set_etree_implementation(ET)
    ast, mode = case["ast"], case["mode"]
    kind = SPEC[ast["k"]]
    cov.hit(mode)
    cov.nontrivial(case["kml"] != URIS[0] and model.count_values(ast) >= 3)
    if mode == "none":
        return no_namespace(case, kind)
    if mode == "bare":
        return bare(case, kind)
    if mode == "own":
        return own(case, kind)
    if mode in ("build", "geometry"):
        return build(case, kind)
    r = random.Random(case["spell"])
    root = model.to_nodes(ast, r.randrange)
    uris = {k: case[k] for k in ("kml", "gx", "atom")}
    prefix = PREFIXES[case["prefix"]]
    if len(set(uris.values())) < 3:
        raise Skip
    if case["foreign"]:
        strange(root, r)
        uris = {**uris, "foreign": "urn:foreign"}
        prefix = {**prefix, "foreign": "f"}
    text = model.render(root, prefix=prefix, uris=uris, spell=r.randrange)
    cls = model.cls_of(ast["k"])
    spaces = spaces_of(case)
    kw = {"ns": spaces[kind.ns]} if case["ns"] else {}
    if mode == "parse":
        if not case["ns"] or case["spell"] % 2:
            spaces.pop("kml")  # inferred from the root, or given by itself
        given = dict(spaces)
        obj = cls.parse(io.BytesIO(text.encode()), name_spaces=spaces, strict=case["strict"],
                        validate=False, **kw)
        need(spaces == given, "the caller's namespaces changed", str(spaces))
        spaces = spaces_of(case)
    else:
        obj = cls.from_string(text, name_spaces=spaces, strict=case["strict"], **kw)
    need(spaces == spaces_of(case), "the caller's namespaces changed", str(spaces))
    want = model.norm(ast)
    same(want, model.norm(model.extract(obj)), "read content")
    written(case, kind, obj, model.norm(want, drop_absent=True), "what was read")


def written(case, kind, obj, want, what):
    spaces = spaces_of(case)
    need(obj.ns == spaces[kind.ns], "namespace of the object", repr(obj.ns))
    if case.get("more"):
        for o, p in tree(obj):
            lost = [k for k, v in spaces.items() if o.name_spaces.get(k) != v]
            need(not lost, "namespaces that an object was given and does not know",
                 lambda: f"{lost} at {p}")
    text = obj.to_string()
    got = model.norm(reading(text, kind.key, ns={k: case[k] for k in ("kml", "gx", "atom")}))
    same(want, got, f"written content of {what}")
    back = type(obj).from_string(text, name_spaces=spaces_of(case))
    same(want, model.norm(model.extract(back)), f"content of {what} written and read back")


def build(case, kind):
    spaces = spaces_of(case)

    def args(k):
        kw = {"name_spaces": dict(spaces)}
        if case["ns"]:
            kw["ns"] = spaces[k.ns]
        return kw

    obj = model.build(case["ast"], ns_of=args, via_geometry=case["mode"] == "geometry")
    if case["mode"] == "geometry":
        from_geometry(case, spaces)
        from_href(case, spaces)
    if len({case["kml"], case["gx"], case["atom"]}) < 3:
        raise Skip
    written(case, kind, obj, model.norm(case["ast"], drop_absent=True), "what was built")


def from_geometry(case, spaces):
    """Geometries become elements in the namespace given, all the way down."""
    from fastkml import Placemark
    from fastkml.geometry import create_kml_geometry

    for _, a in model.walk(case["ast"]):
        if a["k"] not in ("Point", "LineString", "LinearRing", "Polygon", "MultiGeometry"):
            continue
        plain = model.build(a)
        g = plain.geometry
        if g is None or not g:
            continue
        try:
            ref = create_kml_geometry(g)
        except Exception:
            continue
        kw = {"name_spaces": dict(spaces)}
        if case["ns"]:
            kw["ns"] = spaces["kml"]
        uris = {k: case[k] for k in ("kml", "gx", "atom")}
        here = create_kml_geometry(g, **{"ns": None, **kw})
        want = model.norm(model.extract(ref), drop_absent=True)
        same(want, model.norm(reading(here.to_string(), ns=uris)), "geometry element")
        mark = Placemark(geometry=g, **kw)
        got = model.norm(reading(mark.to_string(), "Placemark", ns=uris))
        same({"k": "Placemark", "f": {"kml_geometry": want}}, got, "placemark with geometry")
        alone = {"ns": spaces["kml"]}  # its own and that of what is made for it
        for obj, exp in ((create_kml_geometry(g, **alone), want),
                         (Placemark(geometry=g, **alone), got)):
            same(exp, model.norm(reading(obj.to_string(), exp["k"], ns=uris)),
                 "geometry in its own namespace")


def from_href(case, spaces):
    """An icon made from a reference is in the namespace of its style."""
    from fastkml.styles import IconStyle

    uris = {k: case[k] for k in ("kml", "gx", "atom")}
    for kw in ({"ns": spaces["kml"]}, {"name_spaces": spaces},
               {"ns": spaces["kml"], "name_spaces": spaces}):
        text = IconStyle(icon_href="a.png", **kw).to_string()
        same({"k": "IconStyle", "f": {"icon": {"k": "Icon", "f": {"href": "a.png"}}}},
             model.norm(reading(text, "IconStyle", ns=uris)), "icon from a reference")


def no_namespace(case, kind):
    """Elements in no namespace at all."""
    if kind.ns != "kml" or model.kinds_in(case["ast"]) & {"KML", "NetworkLinkControl"}:
        raise Skip
    if any(a["k"] == "MultiTrack" and "altitude_mode" in a["f"]
           for _, a in model.walk(case["ast"])):
        raise Skip
    r = random.Random(case["spell"])
    text = model.write_ref(case["ast"], prefix={"kml": "", "gx": "gx", "atom": "atom"},
                           uris={"kml": ""}, spell=r.randrange)
    cls = model.cls_of(kind.key)
    obj = cls.from_string(text, ns="", strict=case["strict"])
    same(model.norm(case["ast"]), model.norm(model.extract(obj)), "content in no namespace")


def bare(case, kind):
    """Objects built in the empty namespace, for output without prefixes."""
    want = model.norm(case["ast"], drop_absent=True)
    obj = model.build(case["ast"], ns_of=lambda k: {"ns": ""} if k.ns == "kml" else {})
    text = obj.to_string()
    if kind.key == "KML":
        same(want, model.norm(reading(text, "KML")), "text without prefixes")
        back = type(obj).from_string(text)
    elif kind.ns != "kml" or "NetworkLinkControl" in model.kinds_in(case["ast"]):
        raise Skip
    else:
        back = type(obj).from_string(text, ns="")
    same(want, model.norm(model.extract(back)), "content built in no namespace, read back")


def own(case, kind):
    """Objects given a namespace of their own: their element and plain values are in it."""
    ast = copy.deepcopy(case["ast"])
    spaces = spaces_of(case)
    for _, a in model.walk(ast):
        ns = spaces[SPEC[a["k"]].ns]
        obj = model.build(a, ns_of=lambda k: {"ns": spaces[k.ns]})
        need(obj.ns == ns, "namespace of the object", lambda: f"{a['k']} {obj.ns!r}")
        if a is ast:
            tag = obj.etree_element().tag
            need(tag.startswith(ns), "namespace of the element", f"{tag} for {ns}")
    if model.kinds_in(ast) & {"Track", "MultiTrack"}:
        raise Skip
    for _, a in model.walk(ast):
        for f in SPEC[a["k"]].fields:
            if f.attr == "altitude_mode" or f.kind == "date":
                a["f"].pop(f.attr, None)  # these name their namespace themselves
    if len({case["kml"], case["gx"], case["atom"]}) < 3:
        raise Skip
    obj = model.build(ast, ns_of=lambda k: {"ns": spaces[k.ns]})
    got = reading(obj.to_string(), kind.key, ns={k: case[k] for k in ("kml", "gx", "atom")})
    same(model.norm(ast, drop_absent=True), model.norm(got), "what was built in a namespace")


def shrinks(case):
    for k, v in (("stdlib", False), ("more", 0), ("foreign", False), ("ns", True), ("prefix", 0),
                 ("gx", GX[0]), ("atom", ATOM[0]), ("kml", "urn:x")):
        if case.get(k, v) != v:
            yield {**case, k: v}
    for c in case_shrinks(case):
        if c["mode"] != "parse" or c["ast"]["k"] == "KML":
            yield c

"""What is written is what the object holds, in standard KML."""
from kv import gen
from kv import model
from kv import syst
from kv.common import need
from kv.common import reading
from kv.common import same
from kv.common import wrapped
from kv.common import written
from kv.shrink import case_shrinks

ID = "P02"
COUNTS = {"quick": 90000, "thorough": 4000000}
RULE = ("A random object tree (or an enumerated one: every field of every kind with every "
        "characteristic value) is written, to a string, an element or a file, and the text is read by an independent KML reader that "
        "must account for every element, attribute, namespace and value. Non-trivial: at least "
        "three set values.")
ASSUMPTIONS = [
    "the independent reader is written from the KML 2.2 standard and shares no code with fastkml",
    "an element without the content KML requires of it is not written",
]


def systematic():
    for a in [*syst.documents(), *syst.incomplete()]:
        yield {"ast": a, "pretty": True, "via": False}


def make(r, i):
    return {"ast": gen.document(r), "pretty": r.random() < 0.5, "via": r.random() < 0.2,
            "share": r.random() < 0.3,
            "route": r.choice([None, None, None, "path", "name"])}


def run(case, cov):
    ast = case["ast"]
    route = case.get("route")
    if route:
        ast = wrapped(ast) or ast
    kind = ast["k"]
    obj = model.build(ast, via_geometry=case["via"],
                      form=model.Form(share=case.get("share", False)))
    want = model.norm(ast, drop_absent=True, grouped=False)
    cov.hit(kind)
    n = model.count_values(want)
    cov.nontrivial(n >= 3)
    cov.hit("values", n)
    text = obj.to_string(prettyprint=case["pretty"])
    need(isinstance(text, str), "not text")
    same(want, model.norm(reading(text, kind), grouped=False), "written content")
    from fastkml import config

    tree = config.etree.tostring(obj.etree_element(), encoding="utf-8")
    same(want, model.norm(reading(tree, kind, what="element"), grouped=False), "element content")
    if route and kind == "KML":
        text = written(obj, route, prettyprint=case["pretty"])
        same(want, model.norm(reading(text, kind, what="file"), grouped=False), "file content")
        cov.hit("file")
    need(str(obj) == obj.to_string(), "str() is not to_string()")


def shrinks(case):
    if case.get("route"):
        yield {**case, "route": None}
    if case.get("share"):
        yield {**case, "share": False}
    yield from case_shrinks(case)

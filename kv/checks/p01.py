"""Objects survive being written and read back."""
from kv import gen
from kv import model
from kv import syst
from kv.common import need
from kv.common import same
from kv.shrink import case_shrinks

ID = "P01"
COUNTS = {"quick": 60000, "thorough": 3000000}
RULE = ("A random object tree of any of the 66 element kinds (or an enumerated one: every field "
        "of every kind with every characteristic value) is built through public constructors "
        "(from lists, tuples or iterators, equal parts sometimes being one object), "
        "written with to_string and read back in strict mode. Non-trivial: at least three set "
        "values, compared one by one through public attributes.")
ASSUMPTIONS = [
    "text is compared without surrounding white space, which the library strips",
    "siblings of different kinds may be regrouped by kind on reading (pinned by existing tests)",
    "a date-time without zone means UTC; a missing track angle means (0, 0, 0)",
]


def case_of(ast, r=None):
    return {"ast": ast, "pretty": bool(r.getrandbits(1)) if r else True,
            "via": bool(r and r.random() < 0.2), "share": bool(r and r.random() < 0.3),
            "seq": r.choice(["list", "list", "tuple", "iter", "generator"]) if r else "list"}


def systematic():
    for a in [*syst.documents(), *syst.incomplete()]:
        yield case_of(a)


def make(r, i):
    return case_of(gen.document(r), r)



def run(case, cov):
    ast = case["ast"]
    kind = ast["k"]
    form = model.Form(case.get("seq", "list"), case.get("share", False))
    obj = model.build(ast, via_geometry=case["via"], form=form)
    want = model.norm(ast, drop_absent=True)
    text = obj.to_string(prettyprint=case["pretty"])
    back = model.cls_of(kind).from_string(text)
    cov.hit(kind)
    n = model.count_values(want)
    cov.nontrivial(n >= 3)
    cov.hit("values", n)
    need(type(back) is type(obj), "class changed", type(back).__name__)
    same(want, model.norm(model.extract(back)), "content changed")
    if model.norm(want, drop_absent=True, grouped=False) != want:
        return  # leaving out one incomplete element has made its parent incomplete
    # what was read is stable from then on
    text2 = back.to_string(prettyprint=case["pretty"])
    again = model.cls_of(kind).from_string(text2)
    need(again == back, "second reading differs", text2[:500])
    need(again.to_string(prettyprint=case["pretty"]) == text2, "second writing differs",
         text2[:500])


def shrinks(case):
    yield from case_shrinks(case)
    for k in ("pretty", "via", "share"):
        if case.get(k):
            yield {**case, k: False}
    if case.get("seq", "list") != "list":
        yield {**case, "seq": "list"}


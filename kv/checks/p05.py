"""A precision rounds coordinates to that many decimals and nothing else."""
from decimal import Decimal

from kv import gen
from kv import model
from kv import syst
from kv.common import need
from kv.common import reading
from kv.common import same
from kv.common import wrapped
from kv.common import written
from kv.shrink import case_shrinks
from kv.spec import SPEC

ID = "P05"
COUNTS = {"quick": 50000, "thorough": 2500000}
RULE = ("A random object tree with coordinates is written with a precision from 0 to 17 (or none), to text, elements or files; "
        "the text of every coordinate is compared, as an exact decimal, with the value it stands "
        "for, and everything else with the content. Non-trivial: at least one coordinate is "
        "written.")
ASSUMPTIONS = ["the error of a correctly rounded decimal is at most half a unit of the last place"]
KINDS = ["Point", "LineString", "LinearRing", "Polygon", "MultiGeometry", "Track", "MultiTrack",
         "Placemark", "Folder", "Document", "KML", "PhotoOverlay"]


def systematic():
    for a in syst.documents():
        if model.kinds_in(a) & {"Point", "LineString", "LinearRing", "Track"}:
            for p in (None, 0, 2, 6):
                yield {"ast": a, "precision": p, "verbosity": "normal"}


def make(r, i):
    stdlib = r.random() < 0.2  # which does not escape carriage returns
    return {"ast": gen.document(r, kind=r.choice(KINDS), cr=not stdlib),
            "precision": r.choice([None, 0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 17]),
            "verbosity": r.choice(["terse", "normal", "normal", "verbose"]),
            "route": r.choice([None, None, "path", "name", "element"]),
            "stdlib": stdlib}


def numbers(ast):
    """Take the coordinate values out of an AST, in document order."""
    out = []
    for _, a in model.walk(ast):
        for f in SPEC[a["k"]].fields:
            v = a["f"].get(f.attr)
            if not v:
                continue
            if f.kind == "coords":
                out += [x for c in v for x in c]
                a["f"][f.attr] = [["x"] * len(c) for c in v]
            elif f.kind == "track":
                for i in v:
                    for key in ("coord", "angle"):
                        if i[key] is not None:
                            out += i[key]
                            i[key] = ["x"] * len(i[key])
    return out


def run(case, cov):
    from fastkml.enums import Verbosity

    ast = case["ast"]
    route = case.get("route")
    if case.get("stdlib"):
        import xml.etree.ElementTree as ET

        from fastkml import config

        config.set_etree_implementation(ET)
    if route in ("path", "name"):
        ast = wrapped(ast) or ast
    p = case["precision"]
    obj = model.build(ast)
    want = model.norm(ast, drop_absent=True, grouped=False)
    if case["verbosity"] == "verbose":
        want = model.norm(want, defaults=True, grouped=False)
    text = written(obj, route, precision=p, verbosity=Verbosity[case["verbosity"]])
    got = model.norm(reading(text, ast["k"], raw=True), grouped=False)
    no_angles = {path for path, a in model.walk(got) if a["k"] == "Track"
                 and all(i["angle"] == [0.0, 0.0, 0.0] for i in a["f"].get("track_items", ()))}
    a, b = numbers(want), numbers(got)
    if case["verbosity"] == "terse":
        # whether values equal to a default are there is not the question here
        want = model.norm(want, defaults=True, grouped=False)
        got = model.norm(got, defaults=True, grouped=False)
    same(want, got, "other content")
    need(len(a) == len(b), "number of coordinates", f"{len(a)} {len(b)}")
    for x, y in zip(a, b):
        if not isinstance(y, str):  # no angles written: (0, 0, 0)
            need(no_angles and x == y, "angles", f"{x} {y}")
            continue
        if p is None:
            need(float(y) == x, "exact coordinate", f"{x!r} written as {y}")
            continue
        digits = y.split(".")
        need(len(digits) == 2 and len(digits[1]) == p if p else len(digits) == 1,
             "number of decimals", f"{x!r} written as {y} with precision {p}")
        err = abs(Decimal(y) - Decimal(x))
        need(err <= Decimal(5) * Decimal(10) ** -(p + 1), "rounding",
             f"{x!r} written as {y} with precision {p}")
    cov.hit(f"precision {p}")
    cov.hit("coordinates", len(a))
    cov.nontrivial(a)


def shrinks(case):
    if case.get("route"):
        yield {**case, "route": None}
    if case["verbosity"] != "normal":
        yield {**case, "verbosity": "normal"}
    for q in (None, 0, 1, 2):
        if q != case["precision"]:
            yield {**case, "precision": q}
    yield from case_shrinks(case)

"""Verbosity only decides whether default values are spelled out."""
import copy

from kv import gen
from kv import model
from kv import syst
from kv.checks.p05 import numbers
from kv.common import need
from kv.common import reading
from kv.common import same
from kv.common import wrapped
from kv.common import written
from kv.shrink import case_shrinks
from kv.spec import SPEC

ID = "P04"
COUNTS = {"quick": 40000, "thorough": 2000000}
RULE = ("A random or enumerated object tree is written at terse, normal and verbose verbosity; by any of the ways there are and sometimes with a precision; each "
        "output is read by the independent reader and compared with the reference: terse leaves "
        "out exactly the values equal to their KML default, verbose adds exactly the defaults of "
        "unset values, and with defaults filled in all three mean the same. Non-trivial: a "
        "default is left out or added.")
ASSUMPTIONS = ["the defaults are those of the KML reference for the 66 supported kinds"]


def systematic():
    for a in [*syst.documents(), *syst.incomplete()]:
        yield {"ast": a}


def make(r, i):
    return {"ast": gen.document(r), "route": r.choice([None, None, "path", "name", "element"]),
            "precision": r.choice([None, None, None, 0, 3, 9])}


def strip_defaults(ast):
    """The canonical content without values equal to their default."""
    out = {}
    for f in SPEC[ast["k"]].fields:
        if f.attr not in ast["f"]:
            continue
        v = ast["f"][f.attr]
        if f.kind == "obj":
            v = strip_defaults(v)
        elif f.kind == "objs":
            v = [strip_defaults(c) for c in v]
        elif f.default is not None and v == f.default:
            continue
        out[f.attr] = v
    return {"k": ast["k"], "f": out}


def run(case, cov):
    from fastkml.enums import Verbosity

    ast = case["ast"]
    route, precision = case.get("route"), case.get("precision")
    if route in ("path", "name"):
        ast = wrapped(ast) or ast
    kind = ast["k"]
    obj = model.build(ast)
    normal = model.norm(ast, drop_absent=True, grouped=False)
    terse = strip_defaults(normal)
    verbose = model.norm(normal, defaults=True, grouped=False)
    got = {}
    for name, want in (("normal", normal), ("terse", terse), ("verbose", verbose)):
        text = written(obj, route, verbosity=Verbosity[name])
        got[name] = model.norm(reading(text, kind, what=name + " output"), grouped=False)
        same(want, got[name], name + " content")
        if precision is not None:
            text = written(obj, route, verbosity=Verbosity[name], precision=precision)
            rounded = model.norm(reading(text, kind, what=name + " output", raw=True),
                                 grouped=False)
            want = copy.deepcopy(want)
            need(len(numbers(want)) == len(numbers(rounded)), name + " coordinates with precision")
            same(want, rounded, name + " content with precision")
            cov.hit("with precision")
    for name in ("terse", "normal"):
        same(got["verbose"], model.norm(got[name], defaults=True, grouped=False),
             name + " means something else")
    cov.hit(kind)
    dropped = model.count_values(normal) - model.count_values(terse)
    added = model.count_values(verbose) - model.count_values(normal)
    cov.hit("defaults left out", dropped)
    cov.hit("defaults added", added)
    cov.nontrivial(dropped or added)
    # and what is read back from any of them
    for name, want in (("terse", terse), ("verbose", verbose)):
        text = obj.to_string(verbosity=Verbosity[name], prettyprint=False)
        back = model.cls_of(kind).from_string(text)
        same(model.norm(want), model.norm(model.extract(back)), name + " read back")


def shrinks(case):
    for k in ("route", "precision"):
        if case.get(k) is not None:
            yield {**case, k: None}
    yield from case_shrinks(case)

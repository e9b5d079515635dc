"""Strict reading never accepts a malformed value."""
import random

from kv import gen
from kv import model
from kv import slots as sl
from kv import syst
from kv.common import need
from kv.common import parsed
from kv.common import same
from kv.common import wrapped
from kv.errors import Skip
from kv.errors import Violation
from kv.shrink import case_shrinks

ID = "P07"
COUNTS = {"quick": 70000, "thorough": 3000000}
RULE = ("A random (or enumerated) document is written by the independent writer and one of its "
        "typed values - boolean, integer, number, enumeration, date-time, coordinates, track "
        "sample, as element or attribute, at any depth - is replaced by a malformed one, from a list or garbled at random. Strict "
        "reading must raise the library's parse error for it and must not raise for the document "
        "as it was. Non-trivial: a value was replaced.")
ASSUMPTIONS = [
    "malformed means refused by both the KML schema type and Python's own conversion "
    "(for dates: the ISO 8601 parser used, which also knows week dates and passes over punctuation)",
    "the number of values in a coordinate tuple is not part of this property",
]


def candidates(slot):
    out = list(sl.BAD[slot.kind]) + sl.STRICT_BAD.get(slot.kind, [])
    if slot.kind == "enum":
        out = [t for t in out if not sl.is_enum_value(slot.field, t)]
        out += [t for t in (slot.text.upper(), slot.text.capitalize(), slot.text.swapcase(),
                            slot.text + "s") if t != slot.text]
        good = model.ENUMS[slot.field.enum]
        out = [t for t in out if t not in good]
    return out


def systematic():
    """Every typed field of every kind with every bad value."""
    for key in model.SPEC:
        ast = syst.full(key, 0)
        n = len(sl.slots(model.to_nodes(ast), ast))
        for i in range(n):
            slot = sl.slots(model.to_nodes(ast), ast)[i]
            if slot.path:  # the field of a nested element has its own turn
                continue
            for c in range(len(candidates(slot))):
                yield {"ast": ast, "slot": i, "bad": c, "seed": 0, "spell": False}


def make(r, i):
    return {"ast": gen.document(r, incomplete=0.0), "slot": r.getrandbits(16),
            "bad": r.getrandbits(16), "seed": r.getrandbits(16), "spell": r.random() < 0.5,
            "garble": r.getrandbits(32) if r.random() < 0.5 else 0,
            "route": r.choice([None, None, None, "stream", "path", "name"])}


def run(case, cov):
    from fastkml.exceptions import KMLParseError

    ast = case["ast"]
    if case.get("route"):
        ast = wrapped(ast) or ast
    kind = ast["k"]
    spell = random.Random(case["seed"]).randrange if case["spell"] else None
    root = model.to_nodes(ast, spell)
    model.shuffle_kids(root, random.Random(case["seed"]))
    all_slots = sl.slots(root, ast)
    if not all_slots:
        raise Skip
    good = model.render(root, prefix=model.PREFIX, spell=spell)
    cls = model.cls_of(kind)
    same(model.norm(ast), model.norm(model.extract(cls.from_string(good))), "good document")
    slot = all_slots[case["slot"] % len(all_slots)]
    if slot.field is not None and slot.field.attr == "altitude_mode":
        cov.hit("altitude mode")
    opts = candidates(slot)
    bad = opts[case["bad"] % len(opts)]
    if case.get("garble"):
        bad = sl.garble(slot, case["garble"])
        if bad is None:
            raise Skip
        cov.hit("garbled")
    slot.set(bad)
    text = model.render(root, prefix=model.PREFIX)
    cov.hit(slot.kind + (" attribute" if slot.attr is not None else ""))
    cov.nontrivial()
    cov.hit("depth %d" % min(9, len(slot.path)))
    what = f"{bad!r} accepted for {slot.field.node if slot.field else slot.kind} in {text[:600]}"
    try:
        cls.from_string(text)
    except KMLParseError:
        pass
    else:
        raise Violation("malformed value accepted", what)
    if kind == "KML":
        try:
            parsed(text.encode(), case.get("route") or "stream", strict=True)
        except KMLParseError:
            pass
        else:
            raise Violation("malformed value accepted by parse", what)
    need(True, "")


def shrinks(case):
    if case.get("route"):
        yield {**case, "route": None}
    for k in ("spell", "seed", "garble"):
        if case.get(k):
            yield {**case, k: 0}
    for c in case_shrinks(case, incomplete=False):
        n = len(sl.slots(model.to_nodes(c["ast"]), c["ast"]))
        for i in range(min(n, 40)):
            yield {**c, "slot": i}

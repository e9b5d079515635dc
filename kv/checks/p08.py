"""Lenient reading loses the malformed values and nothing else."""
import random

from kv import gen
from kv import model
from kv import slots as sl
from kv import syst
from kv.common import parsed
from kv.common import same
from kv.common import wrapped
from kv.errors import Skip
from kv.shrink import case_shrinks

ID = "P08"
COUNTS = {"quick": 70000, "thorough": 3000000}
RULE = ("A random (or enumerated) document is written by the independent writer; any number of its "
        "typed values are replaced by malformed ones, by other letter case, or emptied. Lenient "
        "reading must give the document with exactly the malformed and empty values absent and "
        "the others unchanged; strict reading must do the same when values are only emptied. "
        "Non-trivial: at least one value was replaced and at least two others remain.")
ASSUMPTIONS = [
    "the coordinates of one geometry are one value; a track sample is one value",
    "the angles of a track are changed at its end only: unreadable angles are skipped, "
    "which an existing test pins",
    "elements that must not be incomplete by construction (Schema id) are left alone",
]
KEEP = {("Schema", "id"), }


def systematic():
    for key in model.SPEC:
        ast = syst.full(key, 0)
        all_slots = sl.slots(model.to_nodes(ast), ast, texts=True)
        for i, slot in enumerate(all_slots):
            if slot.path:
                continue
            yield {"ast": ast, "edits": [[i, "empty", 0]], "seed": 0, "strict": True}
            yield {"ast": ast, "edits": [[i, "empty", 1]], "seed": 0, "strict": False}
            for c in range(len(sl.BAD.get(slot.kind, ()))):
                yield {"ast": ast, "edits": [[i, "bad", c]], "seed": 0, "strict": False}
            if slot.kind in ("bool", "enum"):
                for c in range(4):
                    yield {"ast": ast, "edits": [[i, "case", c]], "seed": 0, "strict": False}


def make(r, i):
    n = r.choice([1, 1, 1, 2, 3, 6, 15])
    strict = r.random() < 0.2
    return {"ast": gen.document(r, incomplete=0.0), "seed": r.getrandbits(16), "strict": strict,
            "edits": [[r.getrandbits(16), "empty" if strict else
                       r.choice(["bad", "bad", "garble", "garble", "case", "empty"]), r.getrandbits(32)]
                      for _ in range(n)],
            "route": r.choice([None, None, None, "stream", "path", "name"])}


def run(case, cov):

    ast = case["ast"]
    if case.get("route"):
        ast = wrapped(ast) or ast
    kind = ast["k"]
    root = model.to_nodes(ast)
    all_slots = sl.slots(root, ast, texts=True)
    if not all_slots:
        raise Skip
    gone, used = [], set()
    for where, what, choice in case["edits"]:
        i = where % len(all_slots)
        if i in used:
            continue
        slot = all_slots[i]
        owner = model.at(ast, slot.path)
        if slot.field is not None and (owner["k"], slot.field.attr) in KEEP:
            continue
        if slot.kind == "track angles" and not sl.last_angle(slot, ast):
            continue
        typed = slot.kind in sl.BAD
        if what == "case":
            if slot.kind == "enum":
                slot.set(sl.recase(slot.text, choice))
            elif slot.kind == "bool":
                slot.set(sl.recase("true" if slot.text == "1" else "false", choice))
            else:
                continue
        elif what == "empty":
            if slot.attr is not None or slot.kind in ("coords",):
                slot.set("")
            else:
                slot.set(["", "  ", "\n\t", " \n "][choice % 4])
            gone.append(slot)
        elif what == "garble" and typed:
            bad = sl.garble(slot, choice)
            if bad is None:
                continue
            slot.set(bad)
            gone.append(slot)
        elif typed:
            opts = sl.BAD[slot.kind]
            if slot.kind == "enum":
                opts = [t for t in opts if not sl.is_enum_value(slot.field, t)]
            slot.set(opts[choice % len(opts)])
            gone.append(slot)
        else:
            continue
        used.add(i)
        cov.hit(f"{what} {slot.kind}" + (" attribute" if slot.attr is not None else ""))
    if not used:
        raise Skip
    model.shuffle_kids(root, random.Random(case["seed"]))
    text = model.render(root, prefix=model.PREFIX)
    want = model.norm(sl.without(ast, gone))
    cov.nontrivial(model.count_values(want) >= 2)
    cov.hit("values left", model.count_values(want))
    obj = model.cls_of(kind).from_string(text, strict=case["strict"])
    same(want, model.norm(model.extract(obj)), "content")
    if kind == "KML":
        obj = parsed(text.encode(), case.get("route") or "stream", strict=case["strict"])
        same(want, model.norm(model.extract(obj)), "content parsed")


def shrinks(case):
    if case.get("route"):
        yield {**case, "route": None}
    n = len(case["edits"])
    for i in range(n):
        if n > 1:
            yield {**case, "edits": [case["edits"][i]]}
    for i in range(n):
        if n > 1:
            yield {**case, "edits": case["edits"][:i] + case["edits"][i + 1:]}
    if case["seed"]:
        yield {**case, "seed": 0}
    if n == 1:
        for c in case_shrinks(case, incomplete=False):
            m = len(sl.slots(model.to_nodes(c["ast"]), c["ast"], texts=True))
            for i in range(min(m, 40)):
                yield {**c, "edits": [[i, *case["edits"][0][1:]]]}

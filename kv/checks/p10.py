"""lxml and the standard library's ElementTree give the same results."""
import io
import random
import xml.etree.ElementTree as ET

from kv import gen
from kv import model
from kv import slots as sl
from kv import syst
from kv.checks import p03
from kv.common import need
from kv.common import parsed
from kv.common import reading
from kv.common import same
from kv.common import wrapped
from kv.common import written
from kv.shrink import case_shrinks

ID = "P10"
COUNTS = {"quick": 50000, "thorough": 2500000}
RULE = ("A random (or enumerated) document is built, written and read with either XML library in "
        "force, in every combination of writer and reader, from canonical and from unusual "
        "spellings, whole or with a malformed value, strictly or leniently, validated or not. Contents must agree "
        "with the reference and with each other, objects must be equal, errors must be of the "
        "same class. Non-trivial: at least three values.")
ASSUMPTIONS = ["carriage returns, which the standard library does not escape, are left out"]


def systematic():
    for n, a in enumerate(syst.documents()):
        yield {"ast": a, "spell": n if n % 2 else None, "prefix": n % len(p03.PREFIXES),
               "noise": n % 3 == 0, "shuffle": False, "form": "str", "strict": True, "bad": None,
               "verbosity": ["normal", "terse", "verbose"][n % 3]}


def make(r, i):
    return {"ast": gen.document(r, cr=False), "spell": r.getrandbits(32) if r.random() < 0.8
            else None, "prefix": r.randrange(len(p03.PREFIXES)), "noise": r.random() < 0.4,
            "shuffle": r.random() < 0.5, "form": r.choice(p03.FORMS), "strict": r.random() < 0.6,
            "bad": [r.getrandbits(16), r.getrandbits(16)] if r.random() < 0.3 else None,
            "verbosity": r.choice(["normal", "normal", "terse", "verbose"]),
            "validate": r.random() < 0.15, **(
                {"precision": r.choice([None, 0, 2, 7]),
                 "route": r.choice(["path", "name", "element", None])}
                if r.random() < 0.25 else {})}


def both():
    from lxml import etree

    return (("lxml", etree), ("stdlib", ET))


def outcome(fn):
    from fastkml.exceptions import FastKMLError

    try:
        return fn(), None
    except FastKMLError as e:
        return None, type(e).__name__


def run(case, cov):
    from fastkml import config
    from fastkml.enums import Verbosity

    ast = case["ast"]
    kind = ast["k"]
    cls = model.cls_of(kind)
    data = p03.render(case)
    want = model.norm(ast)
    out = model.norm(ast, drop_absent=True, grouped=False)
    if case["verbosity"] != "normal":
        out = None  # compared between the two only
    cov.hit(kind)
    cov.nontrivial(model.count_values(want) >= 3)
    texts, objs = {}, {}
    for name, impl in both():
        config.set_etree_implementation(impl)
        obj = model.build(ast)
        texts[name] = obj.to_string(verbosity=Verbosity[case["verbosity"]])
        got = model.norm(reading(texts[name], kind, what=name + " output"), grouped=False)
        if out is not None:
            same(out, got, name + " writes")
        objs[name] = cls.from_string(data, strict=case["strict"])
        same(want, model.norm(model.extract(objs[name])), name + " reads")
        texts[name, "content"] = got
    same(texts["lxml", "content"], texts["stdlib", "content"], "written content")
    need(objs["lxml"] == objs["stdlib"], "objects read are not equal", lambda: str(data)[:400])
    # each reads what the other wrote
    back = {}
    for name, impl in both():
        config.set_etree_implementation(impl)
        for writer, _ in both():
            back[name, writer] = cls.from_string(texts[writer])
    first, *rest = back.values()
    for other in rest:
        need(first == other, "readers differ", lambda: texts["lxml"][:500])
    if kind == "KML":
        for name, impl in both():
            config.set_etree_implementation(impl)
            for writer, _ in both():
                o = KML_parse(cls, texts[writer])
                need(o.features == first.features, "parse differs", lambda: texts[writer][:500])
    if case.get("precision") is not None or case.get("route"):
        options(case, cov)
    if case["bad"]:
        broken(case, cls, cov)
    if case.get("validate"):
        validated(case, cls, objs, first, texts, cov)
    config.set_etree_implementation(ET)
    need(objs["stdlib"].validate() is None, "validate() without a schema processor")


def options(case, cov):
    """Whichever way and with whatever options a document is written."""
    from fastkml import config
    from fastkml.enums import Verbosity

    ast = wrapped(case["ast"]) or case["ast"]
    got = {}
    for name, impl in both():
        config.set_etree_implementation(impl)
        for pretty in (False, True):
            text = written(model.build(ast), case["route"], precision=case["precision"],
                           verbosity=Verbosity[case["verbosity"]], prettyprint=pretty)
            got[name, pretty] = model.norm(reading(text, ast["k"], raw=True), grouped=False)
    first, *rest = got.values()
    for other in rest:
        same(first, other, "written with options")
    cov.hit("with options")


def validated(case, cls, objs, first, texts, cov):
    """Validation with one library says nothing about the other's."""
    from fastkml import config
    from fastkml.validator import validate

    for name, impl in [*both(), *both()]:
        config.set_etree_implementation(impl)
        for obj in objs.values():
            try:
                got = obj.validate()
            except AssertionError:
                got = "invalid"
            need(name == "lxml" or got is None, "validate() without a schema processor", repr(got))
            need(name != "lxml" or got in (True, "invalid"), "validate() with lxml", repr(got))
        if name == "stdlib":
            need(validate(file_to_validate=io.BytesIO(texts["lxml"].encode())) is None,
                 "validating a file without a schema processor")
        if case["ast"]["k"] == "KML":
            # reading with validation asked for
            try:
                back = cls.parse(io.BytesIO(texts["lxml"].encode()), validate=True, strict=True)
            except AssertionError:
                need(name == "lxml", "refused as invalid without a schema processor")
            else:
                need(back.features == first.features,
                     "content of a validated file", lambda: texts["lxml"][:300])
    cov.hit("validated")


def KML_parse(cls, text):  # noqa: N802
    return cls.parse(io.BytesIO(text.encode()), validate=False)


def broken(case, cls, cov):
    from fastkml import config

    ast = wrapped(case["ast"]) or case["ast"] if case.get("route") else case["ast"]
    cls = model.cls_of(ast["k"])
    root = model.to_nodes(ast)
    slots = sl.slots(root, ast)
    if not slots:
        return
    slot = slots[case["bad"][0] % len(slots)]
    opts = sl.BAD[slot.kind]
    slot.set(opts[case["bad"][1] % len(opts)])
    model.shuffle_kids(root, random.Random(case["bad"][1]))
    text = model.render(root, prefix=model.PREFIX)
    def read(strict):
        if ast["k"] == "KML" and case.get("route") in ("path", "name"):
            return parsed(text, case["route"], strict=strict)
        return cls.from_string(text, strict=strict)

    for strict in (True, False):
        res = []
        for _, impl in both():
            config.set_etree_implementation(impl)
            obj, err = outcome(lambda: read(strict))
            res.append((model.norm(model.extract(obj)) if obj is not None else None, err))
        need(res[0][1] == res[1][1], "different errors", lambda: f"{res} for {text[:500]}")
        if res[0][0] is not None:
            same(res[0][0], res[1][0], "different content")
        cov.hit(f"malformed {slot.kind} strict={strict}: {res[0][1]}")


def shrinks(case):
    for k, v in (("bad", None), ("spell", None), ("noise", False), ("shuffle", False),
                 ("form", "str"), ("prefix", 0), ("verbosity", "normal"), ("validate", False),
                 ("precision", None), ("route", None)):
        if case.get(k, v) != v:
            yield {**case, k: v}
    yield from case_shrinks(case)

"""Looking at objects and reading documents changes nothing and always gives the same answer."""
import copy
import random

from kv import gen
from kv import model
from kv.common import need
from kv.common import same
from kv.errors import Skip
from kv.errors import Violation
from kv.model import render
from kv.shrink import ast_shrinks
from kv.slots import BAD
from kv.slots import slots
from kv.spec import SPEC

ID = "P17"
COUNTS = {"quick": 14000, "thorough": 700000}
RULE = ("Two random trees are built and a random sequence of observations is made of them, in any "
        "order and repeatedly: writing with any options, making elements, repr, str, truth, "
        "equality, validation, geometry, searches and every public property; documents good and "
        "bad, strict and lenient, in other namespaces and for other etree implementations are "
        "read in between; now and then several threads do it at once. Every observation must "
        "repeat its first answer, objects and elements and the library's tables must stay as "
        "they were, and reading must agree with the reference model. Non-trivial: at least four "
        "observations of which one is repeated.")
ASSUMPTIONS = [
    "threads: interleavings are those the interpreter happens to make with a short switch interval",
]
OBSERVE = ["to_string", "to_string", "to_string2", "element", "repr", "str", "bool", "eq",
           "validate", "properties", "geometry", "find", "style", "read", "read", "from_element",
           "bad", "foreign", "stdlib", "parse", "validator"]


# prefixes that documents of others may have
ODD = [None, {**model.PREFIX, "kml": "k"}, {**model.PREFIX, "kml": "atom", "atom": "a"},
       {**model.PREFIX, "kml": "ns0", "gx": "ns1"}, {**model.PREFIX, "kml": "", "gx": "kml"}]


def make(r, i):
    roots = []
    for _ in range(2):
        g = gen.Gen(r, pad=False, size=r.choice([4, 8, 15, 30]), cr=False)
        roots.append(g.ast(gen.top_kind(r)))
    n = r.choice([4, 6, 10])
    ops = [[r.choice(OBSERVE), r.randrange(2), r.randrange(6)] for _ in range(n)]
    return {"roots": roots, "ops": ops + r.sample(ops, 2), "seed": r.getrandbits(32),
            "threads": r.random() < 0.04}


def tables():
    """The library's global state."""
    from fastkml import config
    from fastkml.registry import registry

    reg = {}
    for key in SPEC:
        reg[key] = list(registry.get(model.cls_of(key)))
    return (dict(config.NAME_SPACES), dict(config.DEFAULT_NAME_SPACES) if hasattr(
        config, "DEFAULT_NAME_SPACES") else None, config.etree, reg)


def options(n):
    from fastkml.enums import Verbosity

    return [{}, {"prettyprint": False}, {"precision": 3}, {"verbosity": Verbosity.verbose},
            {"verbosity": Verbosity.terse, "precision": 0},
            {"prettyprint": False, "verbosity": Verbosity.verbose}][n % 6]


def public(obj):
    """The names of the public properties of an object."""
    return [n for n in dir(type(obj)) if not n.startswith("_")
            and isinstance(getattr(type(obj), n), property)]


def observe(op, n, obj, case, cov):
    """Make one observation; the answer in a form that can be compared."""
    from fastkml import config
    from fastkml.exceptions import KMLParseError
    from fastkml.exceptions import KMLSchemaError
    from fastkml.utils import find_all

    if op == "to_string":
        return obj.to_string(**options(n))
    if op == "to_string2":
        return obj.to_string() + obj.to_string(**options(n)) + obj.to_string()
    if op == "element":
        el = obj.etree_element()
        text = config.etree.tostring(el, encoding="unicode")
        el.clear()
        el.text = "scribble"
        return text
    if op == "repr":
        return repr(obj)
    if op == "str":
        return str(obj)
    if op == "bool":
        return bool(obj)
    if op == "eq":
        return [obj == obj, obj != obj, obj == None, obj == 1]  # noqa: E711
    if op == "validate":
        try:
            return obj.validate()
        except AssertionError as e:
            return str(type(e))
    if op == "properties":
        return [(p, repr(getattr(obj, p))) for p in public(obj)]
    if op == "geometry":
        out = []
        for g in find_all(obj):
            if hasattr(type(g), "geometry"):
                out.append(repr(g.geometry))
        return out
    if op == "find":
        return [id(o) for o in find_all(obj, of_type=model.cls_of(model.kind_of(obj)))]
    if op == "style":
        return id(obj.get_style_by_url("#id-1")) if hasattr(obj, "get_style_by_url") else None
    cls = type(obj)
    if op == "read":
        back = cls.from_string(obj.to_string(), strict=bool(n % 2))
        return model.extract(back)
    if op == "from_element":
        el = obj.etree_element()
        if n % 3 == 2:
            el = config.etree.fromstring(obj.to_string())
        before = config.etree.tostring(el, encoding="unicode")
        spaces = {"kml": "{http://www.opengis.net/kml/2.2}"} if n % 2 else {}
        keep = dict(spaces)
        back = cls.class_from_element(ns=obj.ns, name_spaces=spaces, element=el, strict=True)
        need(config.etree.tostring(el, encoding="unicode") == before, "reading changes the element",
             before[:300])
        need(spaces == keep, "reading changes the caller's namespaces", str(spaces)[:300])
        return model.extract(back)
    if op == "validator":
        from fastkml.validator import validate

        el = config.etree.fromstring(obj.to_string(prettyprint=bool(n % 2)))
        if n % 3 == 1:
            el = el.getroottree()
        if n % 2:
            root = el.getroot() if hasattr(el, "getroot") else el
            for k, part in enumerate([root, *list(root)[:3]]):
                part.insert(0, config.etree.Comment(f"c{k}"))
                part.append(config.etree.ProcessingInstruction("pi", str(k)))
        before = config.etree.tostring(el)
        try:
            out = validate(element=el)
        except AssertionError:
            out = False
        need(config.etree.tostring(el) == before, "validating changes the element",
             before.decode()[:300])
        return out
    if op == "bad":
        # a document with a wrong value, refused or read without it
        ast = model.extract(obj)
        root = model.to_nodes(ast)
        all_slots = slots(root, ast)
        if not all_slots:
            return None
        s = all_slots[random.Random(case["seed"] + n).randrange(len(all_slots))]
        s.set(BAD[s.kind][n % len(BAD[s.kind])])
        text = render(root, prefix=model.PREFIX)
        out = []
        el = config.etree.fromstring(text)
        try:
            got = cls.class_from_element(ns=obj.ns, name_spaces=dict(config.NAME_SPACES),
                                         element=el, strict=bool(n % 3 == 0))
            out.append(model.extract(got))
        except (KMLParseError, KMLSchemaError) as e:
            out.append(type(e).__name__)
        need(config.etree.tostring(el) == config.etree.tostring(config.etree.fromstring(text)),
             "reading a malformed value changes the element", text[:300])
        for strict in (True, False):
            try:
                out.append(model.extract(cls.from_string(text, strict=strict)))
            except (KMLParseError, KMLSchemaError) as e:
                out.append(type(e).__name__)
        return out
    if op == "foreign":
        uri = ["http://earth.google.com/kml/2.1", "urn:x", "http://earth.google.com/kml/2.2"][n % 3]
        text = model.write_ref(model.extract(obj), uris={"kml": uri})
        spaces = {"kml": f"{{{uri}}}"}
        keep = dict(spaces)
        back = cls.from_string(text, ns=f"{{{uri}}}" if SPEC[model.kind_of(obj)].ns == "kml"
                               else None, name_spaces=spaces)
        need(spaces == keep, "reading changes the caller's namespaces", str(spaces)[:300])
        return model.extract(back)
    if op == "parse":
        import io

        from fastkml import KML
        from fastkml.features import _Feature

        if not isinstance(obj, (KML, _Feature)):
            return None
        doc = obj if isinstance(obj, KML) else KML(features=[obj])
        uri = [None, "http://earth.google.com/kml/2.1", "urn:x"][n % 3]
        ast = model.extract(doc)
        odd = ODD[(n + case["seed"]) % len(ODD)]
        if uri or odd:
            text = model.write_ref(ast, uris={"kml": uri} if uri else None, prefix=odd)
        else:
            text = doc.to_string()
        spaces = [{"gx": "{http://www.google.com/kml/ext/2.2}"}, None, {"x": "{urn:x}"},
                  {"kml": "{http://www.opengis.net/kml/2.2}"}, {}, None][n % 6]
        keep = None if spaces is None else dict(spaces)
        kw = {} if spaces is None else {"name_spaces": spaces}
        stream = io.BytesIO(text.encode())
        back = KML.parse(stream, validate=False, strict=bool(n % 2), **kw)
        need(spaces == keep, "parsing changes the caller's namespaces", str(spaces)[:300])
        return model.extract(back)
    if op == "stdlib":
        import xml.etree.ElementTree as ET

        old = config.etree
        try:
            config.set_etree_implementation(ET)
            return [obj.to_string(), model.extract(cls.from_string(obj.to_string()))]
        finally:
            config.set_etree_implementation(old)
    raise AssertionError(op)


def answer(op, n, obj, case, cov):
    try:
        return observe(op, n, obj, case, cov)
    except (Violation, Skip):
        raise
    except Exception as e:
        # whether this may fail is the question of other properties
        return type(e).__name__


def snapshot(obj):
    return model.extract(obj), repr(obj)


def run(case, cov):
    asts = case["roots"]
    objs = [model.build(a) for a in asts]
    twins = [model.build(copy.deepcopy(a)) for a in asts]
    before = tables()
    shots = [snapshot(o) for o in objs]
    first = {}
    repeats = 0
    for op, i, n in case["ops"]:
        got = answer(op, n, objs[i], case, cov)
        cov.hit(op)
        key = (op, i, n)
        if key in first:
            repeats += 1
            need(got == first[key], f"{op} answers differently",
                 lambda: f"{str(first[key])[:300]} -- {str(got)[:300]}")
        first.setdefault(key, got)
        for j in range(2):
            now = snapshot(objs[j])
            need(now == shots[j], f"{op} changes an object",
                 lambda: str(model.diff(shots[j][0], now[0]) or "repr")[:400])
        if op in ("to_string", "to_string2", "repr", "str", "element"):
            need(answer(op, n, twins[i], case, cov) == got, f"{op} of an equal object differs",
                 str(got)[:300])
        if op == "read" and isinstance(got, dict):
            same(model.norm(asts[i], drop_absent=True), model.norm(got), "read content")
    after = tables()
    need(before[2] is after[2], "etree implementation changed")
    need(before[:2] == after[:2], "namespace table changed", str(after[0])[:300])
    for key, items in before[3].items():
        need(items == after[3][key], "registry changed", key)
    for o, t in zip(objs, twins):
        need(o == t and t == o, "no longer equal to an untouched twin")
    if case["threads"]:
        threads(case, objs, asts, cov)
    cov.nontrivial(len(case["ops"]) >= 4 and repeats)


def threads(case, objs, asts, cov):
    import sys
    import threading

    jobs = [(op, i, n) for op, i, n in case["ops"] if op not in ("stdlib", "validate", "validator")]
    want = {j: answer(j[0], j[2], objs[j[1]], case, cov) for j in jobs}
    wrong = []

    def work(k):
        order = list(jobs)
        random.Random(case["seed"] + k).shuffle(order)
        for _ in range(2):
            for j in order:
                try:
                    got = answer(j[0], j[2], objs[j[1]], case, cov)
                except Violation as v:
                    wrong.append(str(v))
                    return
                if got != want[j]:
                    wrong.append(f"{j[0]}: {str(want[j])[:200]} -- {str(got)[:200]}")
                    return

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=work, args=(k,)) for k in range(4)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    need(not wrong, "threads disagree", lambda: wrong[0])
    cov.hit("threads")


def shrinks(case):
    if case["threads"]:
        yield {**case, "threads": False}
    for i in range(len(case["ops"])):
        yield {**case, "ops": case["ops"][:i] + case["ops"][i + 1:]}
    for i in range(2):
        for a in ast_shrinks(case["roots"][i]):
            roots = list(case["roots"])
            roots[i] = a
            yield {**case, "roots": roots}



"""Every way of writing a document down reads as the same content."""
import random

from kv import gen
from kv import model
from kv import syst
from kv.common import parsed
from kv.common import same
from kv.common import wrapped
from kv.errors import Skip
from kv.shrink import case_shrinks

ID = "P03"
COUNTS = {"quick": 60000, "thorough": 3000000}
RULE = ("A random document (or an enumerated one) is written by an independent writer that chooses "
        "among equivalent spellings: prefixes, quotes, CDATA, character references, number, "
        "boolean and date forms, padding, comments and processing instructions anywhere, unknown "
        "elements and attributes, entities of the document's own, order of children, text or bytes "
        "in several encodings. It is read from a string, a stream or a file, in strict or lenient mode. Non-trivial: at least three values and a non-canonical "
        "spelling.")
ASSUMPTIONS = [
    "children of the same name keep their order; the order among different names is free",
    "strict reading from text does not validate against the schema (only file parsing does)",
]
PREFIXES = [
    {"kml": "", "gx": "gx", "atom": "atom"},
    {"kml": "kml", "gx": "gx", "atom": "atom"},
    {"kml": "k", "gx": "g", "atom": "a"},
    {"kml": "ns0", "gx": "ns1", "atom": "ns2"},
    {"kml": "gx", "gx": "atom", "atom": "kml"},
]
FORMS = ["str", "str", "utf-8", "utf-8-decl", "utf-16", "iso-8859-1", "ascii"]


def systematic():
    for n, a in enumerate(syst.documents()):
        yield {"ast": a, "spell": n, "prefix": n % len(PREFIXES), "noise": n % 3 == 0,
               "shuffle": n % 2 == 0, "form": "str", "strict": n % 4 != 3}


def make(r, i):
    return {"ast": gen.document(r), "spell": r.getrandbits(32) if r.random() < 0.9 else None,
            "prefix": r.randrange(len(PREFIXES)), "noise": r.random() < 0.4,
            "shuffle": r.random() < 0.5, "form": r.choice(FORMS), "strict": r.random() < 0.8,
            "route": r.choice([None, None, "stream", "path", "name"]),
            "dtd": r.random() < 0.15}


def render(case, **kw):
    seed = case["spell"]
    spell = random.Random(seed).randrange if seed is not None else None
    entities = {} if case.get("dtd") else None
    text = model.write_ref(
        case["ast"], entities=entities, prefix=PREFIXES[case["prefix"]], spell=spell,
        noise=case["noise"] and spell is not None,
        shuffle=random.Random(seed) if case["shuffle"] else None, **kw)
    if entities:
        text = "<!DOCTYPE doc [\n" + "".join(
            f'<!ENTITY {k} "{v}">\n' for k, v in entities.items()) + "]>\n" + text
    form = case["form"]
    if form == "str":
        return text
    if form == "utf-8":
        return text.encode()
    enc = form.removesuffix("-decl")
    body = f'<?xml version="1.0" encoding="{enc}"?>\n{text}'
    if enc in ("iso-8859-1", "ascii"):
        # character references are not read inside CDATA, comments or names
        if "<![CDATA[" in body and not body.isascii():
            raise Skip
        return body.encode(enc, "xmlcharrefreplace")
    return body.encode(enc)


def run(case, cov):
    ast = case["ast"]
    route = case.get("route")
    if route and wrapped(ast):
        ast = wrapped(ast)
        case = {**case, "ast": ast}
    kind = ast["k"]
    data = render(case)
    want = model.norm(ast)
    n = model.count_values(want)
    cov.hit(kind)
    cov.hit("form " + case["form"])
    cov.nontrivial(n >= 3 and (case["spell"] is not None or case["prefix"]))
    if route and kind == "KML":
        cov.hit(route)
        obj = parsed(data, route, strict=case["strict"])
    else:
        obj = model.cls_of(kind).from_string(data, strict=case["strict"])
    same(want, model.norm(model.extract(obj)), "read content")


def shrinks(case):
    for k, v in (("spell", None), ("noise", False), ("shuffle", False), ("form", "str"),
                 ("prefix", 0), ("route", None), ("dtd", False)):
        if case.get(k, v) != v:
            yield {**case, k: v}
    yield from case_shrinks(case)

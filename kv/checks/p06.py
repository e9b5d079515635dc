"""Output is valid KML and the validator tells valid from invalid."""
import io
import tempfile
from pathlib import Path

from kv import gen
from kv import model
from kv import syst
from kv.common import need
from kv.errors import Skip
from kv.errors import Violation
from kv.shrink import case_shrinks
from kv.spec import SPEC

ID = "P06"
COUNTS = {"quick": 80000, "thorough": 1500000}
RULE = ("Random object trees whose values the KML schema allows are written and validated, with "
        "fastkml's validator and with a separate copy of the OGC schema; then the XML is changed "
        "(element removed, renamed, moved, doubled, other value, other attribute) and the two "
        "verdicts compared for elements, trees, files and file parsing with every combination of "
        "strict and validate. Non-trivial: at least three values, or a changed document.")
ASSUMPTIONS = [
    "libxml2 decides validity; the reference is a pristine copy of the OGC KML 2.2 schema",
    "a kml root holds at most one NetworkLinkControl, first, and one feature",
]
SCHEMA = Path(__file__).resolve().parent.parent / "schema" / "ogckml22.xsd"
TINY = """<?xml version="1.0"?>
<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema">
<xs:element name="a"><xs:complexType><xs:attribute name="b" type="xs:int"/></xs:complexType>
</xs:element></xs:schema>"""
MUTATIONS = ["drop", "rename", "double", "swap", "value", "attribute", "bad attribute", "namespace",
             "text", "insert"]
VALUES = ["x", "-1", "2", "999", "1.5", "", "true", "2020", "clampToGround", "#a", "ffffffff"]
_cache = {}


def reference():
    if "ref" not in _cache:
        from lxml import etree

        _cache["ref"] = etree.XMLSchema(etree.parse(str(SCHEMA)))
    return _cache["ref"]


def schema_domain(ast):
    """Bring a generated AST into the domain of the schema."""
    for _, a in model.walk(ast):
        f = a["f"]
        if a["k"] == "ExtendedData":
            f["elements"] = sorted(f["elements"], key=lambda c: c["k"] != "Data")
        elif a["k"] == "IconStyle" and "icon" in f:
            # the schema allows a plain reference only
            f["icon"]["f"] = {n: v for n, v in f["icon"]["f"].items()
                              if n in ("id", "target_id", "href")}
        elif a["k"] == "KML":
            fs = f.get("features", [])
            nlc = [c for c in fs if c["k"] == "NetworkLinkControl"][:1]
            rest = [c for c in fs if c["k"] != "NetworkLinkControl"][:1]
            f["features"] = nlc + rest
    return ast


def systematic():
    for key in SPEC:
        if key == "Contributor":
            continue
        for a in (syst.minimal(key), syst.full(key, 1)):
            yield {"ast": unique(schema_domain(a)), "mut": None, "seed": 0}


def unique(ast):
    n = 0
    for _, a in model.walk(ast):
        for f in SPEC[a["k"]].fields:
            if f.attr not in a["f"]:
                continue
            if f.attr == "id":
                n += 1
                a["f"]["id"] = f"u{n}"
            elif f.lex == "ncname":
                a["f"][f.attr] = "n1"
    return ast


def make(r, i):
    ast = schema_domain(gen.document(r, valid=True, only=lambda k: k != "Contributor"))
    mut = None if r.random() < 0.45 else r.choice(MUTATIONS)
    return {"ast": ast, "mut": mut, "seed": r.getrandbits(30)}


def mutate(root, how, seed):
    """Change one thing in an lxml tree."""
    import random

    from lxml import etree

    r = random.Random(seed)
    els = list(root.iter())
    el = r.choice(els)
    parent = el.getparent()
    if how in ("drop", "double", "swap") and parent is None:
        raise Skip
    if how == "drop":
        parent.remove(el)
    elif how == "rename":
        q = etree.QName(el)
        el.tag = f"{{{q.namespace}}}" + r.choice(["name", "Folder", "wrong", "href", "Point", "x"])
    elif how == "double":
        import copy

        parent.insert(list(parent).index(el), copy.deepcopy(el))
    elif how == "swap":
        parent.remove(el)
        parent.insert(r.randint(0, len(parent)), el)
    elif how == "value":
        leaves = [e for e in els if not len(e)]
        el = r.choice(leaves)
        el.text = r.choice(VALUES)
    elif how == "attribute":
        if not el.attrib:
            raise Skip
        k = r.choice(sorted(el.attrib))
        el.set(k, r.choice([*VALUES, "a b", "1x"]))
    elif how == "bad attribute":
        el.set(r.choice(["id", "targetId", "bogus", "x", "name"]), r.choice(["n7", "1 2", ""]))
    elif how == "namespace":
        q = etree.QName(el)
        el.tag = r.choice(["{urn:x}", "", "{http://www.google.com/kml/ext/2.2}"]) + q.localname
    elif how == "text":
        el.text = (el.text or "") + r.choice(["junk", " ", "7"])
    elif how == "insert":
        etree.SubElement(el, r.choice(["{http://www.opengis.net/kml/2.2}name",
                                       "{http://www.opengis.net/kml/2.2}junk", "{urn:x}y"]))


def verdict(fn):
    """True / False / None as told by the validator."""
    try:
        out = fn()
    except AssertionError:
        return False
    need(out is True, "valid is not True", repr(out))
    return True


def run(case, cov):
    from fastkml import config
    from fastkml.kml import KML
    from fastkml.validator import validate
    from lxml import etree

    ast = case["ast"]
    cov.hit(ast["k"])
    obj = model.build(ast)
    text = obj.to_string()
    root = etree.fromstring(text)
    ok = reference().validate(root)
    if not ok and case["mut"] is None:
        raise Violation("output not valid", f"{reference().error_log[0].message} in {text[:800]}")
    if case["seed"] % 3 == 0 and case["mut"] is None:
        from fastkml.enums import Verbosity

        terse = etree.fromstring(obj.to_string(verbosity=Verbosity.terse, prettyprint=False))
        need(reference().validate(terse), "terse output not valid", lambda: text[:800])
    need(verdict(obj.validate) is True, "validate() rejects", lambda: text[:500])
    cov.nontrivial(model.count_values(ast) >= 3)
    if case["mut"] is not None:
        if case["seed"] % 2:  # an element that is valid, and then is changed
            need(verdict(lambda: validate(element=root)) is ok, "verdict before the change",
                 lambda: text[:800])
        mutate(root, case["mut"], case["seed"])
        ok = reference().validate(root)
        cov.nontrivial()
        cov.hit(f"{case['mut']}: {'valid' if ok else 'invalid'}")
    need(verdict(lambda: validate(element=root)) is ok, "verdict on element",
         lambda: etree.tostring(root).decode()[:800])
    need(verdict(lambda: validate(element=root.getroottree())) is ok, "verdict on tree",
         lambda: etree.tostring(root).decode()[:800])
    if case["seed"] % 3 == 1:
        parts(root, case["seed"], validate, cov)
    if case["seed"] % 5 == 0:
        changed(root, ok, validate)
    data = etree.tostring(root)
    again = etree.fromstring(data)
    ok2 = reference().validate(again)  # as a document of its own
    if case["seed"] % 4 == 0:
        files(data, ok2, validate, cov)
    if ast["k"] == "KML":
        parsing(data, ok2, KML, cov)
    if case["seed"] % 16 == 1:
        cov.hit("no schema available")
        import xml.etree.ElementTree as ET

        config.set_etree_implementation(ET)
        need(validate(element=ET.fromstring(data)) is None, "stdlib verdict")


def parts(root, seed, validate, cov):
    """Elements inside a document are judged by themselves."""
    from lxml import etree

    inner = list(root.iter("{*}*"))
    around = etree.Element("{urn:x}around")
    around.append(root)  # in a document of which it is no root
    for el in (inner[seed % len(inner)], root):
        ok = reference().validate(el)
        cov.hit(f"part: {'valid' if ok else 'invalid'}")
        need(verdict(lambda: validate(element=el)) is ok, "verdict on a part of a document",
             lambda: etree.tostring(el).decode()[:800])
    around.remove(root)


def changed(root, ok, validate):
    """An element that was validated is changed, validated, and changed back."""
    from lxml import etree

    extra = etree.SubElement(root, "{http://www.opengis.net/kml/2.2}kind")
    need(verdict(lambda: validate(element=root)) is False, "verdict after a change")
    root.remove(extra)
    need(verdict(lambda: validate(element=root)) is ok, "verdict after changing back")


def files(data, ok, validate, cov):
    with tempfile.TemporaryDirectory(prefix="kv-p06-") as d:
        p = Path(d) / "doc.kml"
        p.write_bytes(data)
        need(verdict(lambda: validate(file_to_validate=p)) is ok, "verdict on file",
             lambda: data.decode()[:800])
        cov.hit("file")
        for broken in (data[:-1], data + b"<x/>", data.replace(b"</", b"<!/", 1), b"",
                       data.replace(b">", b">&nosuch;", 1)):
            if broken == data:
                continue
            bad = Path(d) / "broken.kml"
            bad.write_bytes(broken)
            try:
                got = validate(file_to_validate=bad)
            except Exception:  # noqa: BLE001
                continue
            raise Violation("a file that is no XML is called valid", f"{got}: {broken[:300]}")
        for kw in ({}, {"element": model.parse_xml(data), "file_to_validate": p}):
            try:
                validate(**kw)
            except ValueError:
                continue
            raise Violation("arguments", "both or neither of element and file accepted")
        tiny = Path(d) / "tiny.xsd"
        tiny.write_text(TINY)
        from lxml import etree

        for doc, want in (("<a b='1'/>", True), ("<a b='x'/>", False), ("<c/>", False)):
            need(verdict(lambda: validate(schema=tiny, element=etree.fromstring(doc))) is want,
                 "verdict with own schema", doc)
        need(verdict(lambda: validate(schema=SCHEMA, file_to_validate=p)) is ok,
             "verdict with given schema")


def parsing(data, ok, cls, cov):
    """Strict parsing validates unless told otherwise; lenient only if told."""
    from fastkml.exceptions import KMLParseError
    from fastkml.exceptions import KMLSchemaError

    for strict in (True, False):
        for val in (None, True, False):
            checked = val if val is not None else strict
            try:
                cls.parse(io.BytesIO(data), strict=strict, validate=val)
                got = True
            except AssertionError:
                got = False
            except (KMLParseError, KMLSchemaError):
                got = True  # rejected for another reason, after validation
            cov.hit(f"parse strict={strict} validate={val}: {got}")
            need(got is (ok or not checked), "validation while parsing",
                 lambda: f"strict={strict} validate={val} valid={ok}: {data.decode()[:600]}")


def shrinks(case):
    if case["mut"] is None:
        for c in case_shrinks(case, incomplete=False):
            a = c["ast"]
            if a["k"] != "Contributor":
                yield c
    else:
        yield {**case, "mut": None}
        for s in range(12):
            yield {**case, "seed": s}

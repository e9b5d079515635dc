"""Whatever is refused or lost in reading is reported where it stands."""
import contextlib
import html
import io
import logging
import random
import re

from kv import gen
from kv import model
from kv import slots as sl
from kv import syst
from kv.checks import p06
from kv.common import need
from kv.common import parsed
from kv.common import wrapped
from kv.errors import Skip
from kv.errors import Violation
from kv.shrink import case_shrinks

ID = "P22"
COUNTS = {"quick": 40000, "thorough": 2000000}
RULE = ("A random (or enumerated) document is written by the independent writer and any number of "
        "its typed values are replaced by malformed ones, each with a mark of its own. Strict "
        "reading must raise an error that shows one of them with its element; lenient reading must "
        "log each of them with its element, and nothing about anything else or the document as it was. "
        "Other random documents are made invalid for the schema: each complaint of a separate "
        "copy of the schema must be logged with a part of the document when validation fails, and "
        "nothing when it succeeds. With lxml and with the standard library. "
        "Non-trivial: something was reported.")
ASSUMPTIONS = [
    "a report is a log record of level warning or above of a logger below 'fastkml'; its wording "
    "is not judged beyond the element's name and the text refused",
    "the coordinates of one geometry are one value",
]


class Records(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.got = []

    def emit(self, record):
        self.got.append(record.getMessage())


@contextlib.contextmanager
def listening():
    """What the library logs meanwhile."""
    h = Records()
    log = logging.getLogger("fastkml")
    keep = log.propagate, log.level, logging.root.manager.disable
    log.addHandler(h)
    log.propagate = False
    log.setLevel(logging.WARNING)
    logging.disable(logging.NOTSET)
    try:
        yield h.got
    finally:
        log.removeHandler(h)
        log.propagate = keep[0]
        log.setLevel(keep[1])
        logging.disable(keep[2])


def systematic():
    for key in model.SPEC:
        ast = syst.full(key, 0)
        n = len(sl.slots(model.to_nodes(ast), ast))
        for i in range(n):
            yield {"t": "value", "ast": ast, "edits": [[i, 0]], "seed": 0, "lib": "lxml",
                   "route": None}


def make(r, i):
    if r.random() < 0.25:
        c = p06.make(r, i)
        return {"t": "schema", **c, "mut": c["mut"] or r.choice(p06.MUTATIONS),
                "route": r.choice(["element", "tree", "part", "file", "parse"])}
    return {"t": "value", "ast": gen.document(r, incomplete=0.0), "seed": r.getrandbits(16),
            "edits": [[r.getrandbits(16), r.getrandbits(16)]
                      for _ in range(r.choice([1, 1, 2, 3, 8]))],
            "lib": r.choice(["lxml", "lxml", "stdlib"]),
            "route": r.choice([None, None, "stream", "path"])}


def shows(message, mark, slot):
    """Whether a report shows a value and the element it stands in."""
    text = html.unescape(message)
    return mark in text and re.search(rf"\b{re.escape(slot.node.tag)}\b", text) is not None


def read(kind, text, case, strict):
    if case["route"] and kind == "KML":
        return parsed(text, case["route"], strict=strict)
    return model.cls_of(kind).from_string(text, strict=strict)


def values(case, cov):
    import xml.etree.ElementTree as ET

    from fastkml import config
    from fastkml.exceptions import KMLParseError

    if case["lib"] == "stdlib":
        config.set_etree_implementation(ET)
    ast = case["ast"]
    if case["route"]:
        ast = wrapped(ast) or ast
    kind = ast["k"]
    root = model.to_nodes(ast)
    all_slots = sl.slots(root, ast)
    if not all_slots:
        raise Skip
    for strict in (True, False):
        with listening() as got:
            read(kind, model.render(root, prefix=model.PREFIX), case, strict)
        need(not got, "report about a good document", lambda: got[0][:400])
    marks = {}
    for where, how in case["edits"]:
        slot = all_slots[where % len(all_slots)]
        if any(s is slot for s in marks.values()):
            continue
        mark = f"kq{len(marks)}qk" if how % 5 else f"kq{len(marks)}é日qk"
        cut = how % (len(slot.text) + 1)
        old = slot.text
        slot.set(mark if how % 3 == 0 else old[:cut] + mark + old[cut:])
        marks[mark] = slot
        cov.hit(slot.kind + (" attribute" if slot.attr is not None else ""))
    model.shuffle_kids(root, random.Random(case["seed"]))
    text = model.render(root, prefix=model.PREFIX)
    cov.nontrivial()
    try:
        with listening():
            read(kind, text, case, True)
    except KMLParseError as e:
        need(any(shows(str(e), m, s) for m, s in marks.items()), "error does not show the value",
             lambda: f"{e!s:.400} for {text[:400]}")
    else:
        raise Violation("nothing raised", text[:500])
    with listening() as got:
        read(kind, text, case, False)
    for m, s in marks.items():
        hits = [g for g in got if shows(g, m, s)]
        need(hits, "lost without a report", lambda: f"{m} {s.kind} in {text[:500]}; {got!r:.300}")
    for g in got:
        need(any(shows(g, m, x) for m, x in marks.items()), "report about something else",
             lambda: f"{g:.400} for {text[:400]}")


def schema(case, cov):
    import tempfile
    from pathlib import Path

    from fastkml.kml import KML
    from fastkml.validator import validate
    from lxml import etree

    ast = case["ast"]
    root = etree.fromstring(model.build(ast).to_string())
    p06.mutate(root, case["mut"], case["seed"])
    data = etree.tostring(root)
    root = etree.fromstring(data)
    ok = p06.reference().validate(root)
    doc = etree.ElementTree(root)
    want = [(e.message, place(doc, e)) for e in p06.reference().error_log]
    route = case["route"]
    cov.hit(f"{route} {'valid' if ok else 'invalid'}")
    with listening() as got, contextlib.suppress(AssertionError):
        if route == "element":
            validate(element=root)
        elif route == "tree":
            validate(element=root.getroottree())
        elif route == "part":
            around = etree.Element("{urn:x}around")
            etree.SubElement(around, "{urn:x}before")
            around.append(root)
            validate(element=root)
        elif route == "file":
            with tempfile.TemporaryDirectory(prefix="kv-") as d:
                p = Path(d) / "x.kml"
                p.write_bytes(data)
                validate(file_to_validate=p)
        elif etree.QName(root).localname == "kml":
            KML.parse(io.BytesIO(data), strict=False, validate=True)
            if ok:
                raise Skip  # reading may have reports of its own
        else:
            raise Skip
    if ok:
        need(not got, "complaint about a valid document", lambda: got[0][:400])
        return
    cov.nontrivial()
    cov.hit("complaints", len(want))
    for m, tag in want:
        need(any(m in g for g in got), "complaint of the schema not logged",
             lambda: f"{m}; logged {got!r:.400}")
        need(any(m in g and re.search(rf"<(\w+:)?{tag}[\s/>]", g.replace(m, "")) for g in got),
             "complaint without the place", lambda: f"{tag}: {m}; logged {got!r:.400}")


def place(doc, entry):
    """The name of the element that a complaint of the schema is about."""
    from lxml import etree

    try:
        return etree.QName(doc.xpath(entry.path)[0]).localname
    except (etree.XPathEvalError, IndexError, TypeError):
        return r"\w+"


def run(case, cov):
    cov.hit(case["t"])
    if case["t"] == "value":
        values(case, cov)
    else:
        schema(case, cov)


def shrinks(case):
    if case["t"] == "value":
        n = len(case["edits"])
        for i in range(n):
            if n > 1:
                yield {**case, "edits": case["edits"][:i] + case["edits"][i + 1:]}
        for k, v in (("seed", 0), ("lib", "lxml"), ("route", None)):
            if case[k] != v:
                yield {**case, k: v}
        for c in case_shrinks(case, incomplete=False):
            m = len(sl.slots(model.to_nodes(c["ast"]), c["ast"]))
            for i in range(min(m, 30)):
                yield {**c, "edits": [[i, 0]]} if n == 1 else c
    else:
        yield from case_shrinks(case)

"""Whatever well-formed XML comes in, reading ends in an object or in a documented error."""
import copy
import random

from kv import gen
from kv import model
from kv.common import need
from kv.common import same
from kv.errors import Violation
from kv.model import Node
from kv.model import render
from kv import slots as sl
from kv import syst
from kv.slots import BAD
from kv.spec import ATTRS
from kv.spec import ENUMS
from kv.spec import SPEC

ID = "P20"
TERMINATES = True
COUNTS = {"quick": 60000, "thorough": 3000000}
RULE = ("Documents of arbitrary structure: elements of the KML, gx and atom vocabularies nested at "
        "random with arbitrary texts and attributes, and valid documents whose nodes were "
        "deleted, doubled, moved, renamed, emptied, wrapped or given other texts, or whose "
        "text was damaged character by character. They are read in both modes. Leniently an "
        "object must come out (only a schema without id is an error), strictly an object or a "
        "documented error; all its attributes have the declared types; if strict reading "
        "succeeds both modes agree; all that can be asked of it has an answer; it can be written, and read strictly again, "
        "until nothing changes any more. Non-trivial: the document differs from all valid "
        "spellings and at least one value was read.")
ASSUMPTIONS = [
    "writing coordinates of other than two or three dimensions is a documented error",
    "ill-formed XML is the XML parser's to report; only the class of error is checked",
]
ELEMENTS = sorted({(k.ns, k.tag) for k in SPEC.values()}
                  | {(k.ns, f.node) for k in SPEC.values() for f in k.fields
                     if f.node and f.kind not in ATTRS and f.kind not in ("obj", "objs")}
                  | {("kml", "coordinates"), ("kml", "when"), ("gx", "coord"), ("gx", "angles"),
                     ("gx", "altitudeMode"), ("gx", "when"), ("kml", "unknown"), ("gx", "TimeStamp")})
ATTRIBUTES = sorted({f.node for k in SPEC.values() for f in k.fields if f.kind in ATTRS})
TEXTS = sorted({t for v in BAD.values() for t in v} | {e for v in ENUMS.values() for e in v}
               | {"", " ", "\n", "0", "1", "-1", "1.5", "1e400", "-1e400", "nan", "inf", "-inf", "NaN",
                  "true", "TRUE", "2020", "2020-01", "2020-01-01", "2020-01-01T00:00:00Z", "0000",
                  "0000-00-00", "9999-12-31T23:59:60Z", "1,2", "1,2,3", "1,2 3,4", "1,2,3 4,5",
                  "1,2,3,4", "1", "1,2 3,4 5,6 1,2", "1 2", "1 2 3", ",", ", ,", "1,2,,3", "é",
                  "١٢", "１", "1_000", "0x10", "1e5", "+5", "00", "--", "[]", "#x", "2020-W01",
                  "2020-001", "2020-01-01T24:00:00Z", "-2020", "+2020-01-01", "20200101", "T", "Z",
                  "2020-01-01 00:00:00", "2020-01-01T00:00:00+99:99", "12:00",
                  "9" * 400, "1" + "0" * 5000, "𝟙", "1,2\u00a03,4", "nan,nan", "inf,inf,inf",
                  "nan nan nan", "1,2 nan,3"})


def systematic():
    """Every typed place of every kind with every text of the list."""
    for key in SPEC:
        ast = syst.full(key, 0)
        whole = model.to_nodes(ast)
        for i, slot in enumerate(sl.slots(whole, ast, texts=True)):
            if slot.path:
                continue
            texts = TEXTS if slot.kind != "text" else TEXTS[::7]
            for t in range(len(texts)):
                yield {"t": "slot", "kind": key, "slot": i, "value": TEXTS.index(texts[t])}


def alone(case):
    """The slot document: only what its kind needs and the one value."""
    key = case["kind"]
    ast = syst.full(key, 0)
    root = model.to_nodes(ast)
    slot = sl.slots(root, ast, texts=True)[case["slot"]]
    slot.set(TEXTS[case["value"]])
    if slot.attr is None:
        keep = {f.node for f in SPEC[key].fields if f.attr in syst.minimal(key)["f"]}
        keep |= {"when", "coord", "angles"} if key == "Track" else set()
        root.kids = [c for c in root.kids if c is slot.node or c.tag in keep
                     or any(x is slot.node for x in c.walk())]
    return root


def make(r, i):
    c = r.random()
    kind = gen.top_kind(r)
    if c < 0.25:
        return {"t": "tree", "kind": kind, "seed": r.getrandbits(48), "n": r.choice([2, 6, 15, 40])}
    if c < 0.9:
        return {"t": "mutant", "ast": gen.document(r, kind=kind, size=r.choice([2, 4, 8, 15, 30])),
                "seeds": [r.getrandbits(32) for _ in range(r.choice([1, 1, 2, 3, 6, 12]))]}
    return {"t": "damaged", "ast": gen.document(r, kind=kind, size=r.choice([2, 4, 8])),
            "seeds": [r.getrandbits(32) for _ in range(r.choice([1, 1, 2, 4]))]}


def tree(kind, seed, n):
    """A random tree over the whole vocabulary."""
    r = random.Random(seed)
    k = SPEC[kind]
    root = Node(k.ns, k.tag)
    nodes = [(root, k)]
    for node, _ in nodes:
        attrs(node, r)
    while n > 0:
        n -= 1
        parent, pk = r.choice(nodes)
        ns, tag = r.choice(ELEMENTS)
        if pk is not None and r.random() < 0.8:
            opts = [(pk.ns, f.node) for f in pk.fields
                    if f.node and f.kind not in ATTRS and f.kind not in ("obj", "objs")]
            opts += [(SPEC[o].ns, SPEC[o].tag) for f in pk.fields for o in f.of] * 2
            if any(f.kind == "coords" for f in pk.fields):
                opts.append(("kml", "coordinates"))
            if pk.key == "Track":
                opts += [("kml", "when"), ("gx", "coord"), ("gx", "angles")] * 3
            if opts:
                ns, tag = r.choice(opts)
        if r.random() < 0.05:
            ns = r.choice(["kml", "gx", "atom"])
        el = Node(ns, tag)
        sub = [x for x in SPEC.values() if x.tag == tag and x.ns == ns]
        attrs(el, r)
        if not sub or r.random() < 0.1 or any(f.kind == "body" for f in sub[0].fields):
            el.text = r.choice(TEXTS)
        parent.kids.append(el)
        nodes.append((el, sub[0] if sub else None))
    return root


def attrs(node, r):
    for a in {r.choice(ATTRIBUTES) for _ in range(r.choice([0, 0, 1, 2, 4]))}:
        node.attrs.append([a, r.choice(TEXTS), None])


def mutate(root, seed):
    """One change to a tree."""
    r = random.Random(seed)
    nodes = list(root.walk())
    pairs = [(p, c) for p in nodes for c in p.kids]
    what = r.randrange(11)
    node = r.choice(nodes)
    if what == 0 and pairs:
        p, c = r.choice(pairs)
        p.kids.remove(c)
    elif what == 1 and pairs:
        p, c = r.choice(pairs)
        p.kids.insert(r.randint(0, len(p.kids)), copy.deepcopy(c))
    elif what == 2 and pairs:
        p, c = r.choice(pairs)
        inside = list(c.walk())
        dest = r.choice([x for x in nodes if not any(x is y for y in inside)])
        p.kids.remove(c)
        dest.kids.insert(r.randint(0, len(dest.kids)), c)
    elif what == 3 and pairs:
        _, c = r.choice(pairs)
        c.ns, c.tag = r.choice(ELEMENTS)
    elif what == 4:
        node.text = r.choice(TEXTS)
    elif what == 5:
        attrs(node, r)
        seen = {}
        for a in node.attrs:
            seen[a[0]] = a
        node.attrs = list(seen.values())
    elif what == 6 and node.attrs:
        r.choice(node.attrs)[1] = r.choice(TEXTS)
    elif what == 7 and node.attrs:
        node.attrs.pop(r.randrange(len(node.attrs)))
    elif what == 8 and pairs:
        p, c = r.choice(pairs)
        w = Node(*r.choice(ELEMENTS))
        w.kids = [c]
        p.kids[[x is c for x in p.kids].index(True)] = w
    elif what == 9:
        node.text, node.kids = None, []
    elif what == 10:
        leaves = [x for x in nodes if x.text]
        if leaves:
            x = r.choice(leaves)
            i = r.randrange(len(x.text) + 1)
            x.text = x.text[:i] + r.choice(["-", ".", " ", ",", "e", "é", "0", "x", "T"]) + x.text[
                i + r.randrange(2):]
    return root


def clean(text):
    return "".join(c for c in text if c in "\t\n\r" or " " <= c <= "\ud7ff"
                   or "\ue000" <= c <= "\ufffd" or c > "\uffff")


def damage(text, seed):
    r = random.Random(seed)
    i = r.randrange(len(text) + 1)
    c = r.randrange(6)
    if c == 0:
        return text[:i] + text[i + 1:]
    if c == 1:
        return text[:i] + r.choice(["<", ">", "&", "/", '"', "]]>", "<!--", "<a>", "</a>", "&x;",
                                    "&#0;", "<![CDATA[", "\x00", "\x0b", "é", "<?x", "xmlns:q='u'",
                                    "q:", "\ufffe"]) + text[i:]
    if c == 2:
        j = min(len(text), i + r.randint(1, 30))
        return text[:i] + text[j:]
    if c == 3:
        return text[:i]
    if c == 4:
        j = min(len(text), i + r.randint(1, 30))
        return text[:j] + text[i:j] + text[j:]
    return text[:i] + chr(r.randrange(1, 0x2FF)) + text[i + 1:]


def text_of(case):
    if case["t"] == "text":
        return case["text"]
    if case["t"] == "slot":
        return render(alone(case), prefix=model.PREFIX)
    if case["t"] == "tree":
        return render(tree(case["kind"], case["seed"], case["n"]), prefix=model.PREFIX)
    if case["t"] == "mutant":
        root = model.to_nodes(case["ast"])
        for s in case["seeds"]:
            mutate(root, s)
        return render(root, prefix=model.PREFIX)
    text = model.write_ref(case["ast"])
    for s in case["seeds"]:
        text = damage(text, s)
    return text


TYPES = {"text": str, "attr": str, "body": str, "bool": bool, "int": int, "aint": int,
         "float": (int, float), "afloat": (int, float), "enum": str, "aenum": str}


def typed(ast, path=""):
    """Every attribute is of its declared type."""
    k = SPEC.get(ast["k"])
    need(k is not None, "object of unknown class", f"{path}: {ast['k']}")
    for f in k.fields:
        v = ast["f"].get(f.attr)
        if v is None:
            continue
        where = f"{path}/{k.key}.{f.attr}"
        if f.kind in TYPES:
            need(isinstance(v, TYPES[f.kind]) and not (
                isinstance(v, bool) and f.kind != "bool"), "type of an attribute", f"{where}: {v!r}"[:300])
        elif f.kind == "coords":
            need(all(isinstance(x, float) for c in v for x in c), "coordinates", f"{where}: {v!r}"[:300])
        elif f.kind == "obj":
            need(v["k"] in f.of, "class of a child", f"{where}: {v['k']}")
            typed(v, where)
        elif f.kind == "objs":
            for c in v:
                need(c["k"] in f.of, "class of a child", f"{where}: {c['k']}")
                typed(c, where)


def run(case, cov):
    from fastkml.exceptions import KMLParseError
    from fastkml.exceptions import KMLSchemaError
    from lxml import etree

    kind = case["kind"] if "kind" in case else case["ast"]["k"]
    cls = model.cls_of(kind)
    text = text_of(case)
    cov.hit(case["t"])
    xml_errors = (etree.XMLSyntaxError,)
    if case["t"] in ("damaged", "text"):
        try:
            root = etree.fromstring(text.encode("utf-8", "surrogatepass"))
        except etree.XMLSyntaxError:
            try:
                cls.from_string(text)
            except (etree.XMLSyntaxError, ValueError):
                cov.hit("ill-formed")
                return
            except (UnicodeEncodeError, KMLParseError):
                return
            # text and bytes are not always read alike (invalid characters in comments, ...)
            return
        if root.tag != f"{{{model.NS[SPEC[kind].ns]}}}{SPEC[kind].tag}":
            return  # not a document of this kind any more
    try:
        lenient = cls.from_string(text, strict=False)
    except KMLSchemaError:
        need("Schema" in text, "schema error without a schema", text[:400])
        cov.hit("schema error")
        lenient = None
    except KMLParseError as e:
        raise Violation("lenient reading fails", f"{e} in {text[:400]}") from e
    except xml_errors:
        if case["t"] in ("damaged", "text"):
            return
        raise
    try:
        strict = cls.from_string(text)
    except KMLParseError:
        cov.hit("refused")
        strict = None
    except KMLSchemaError:
        need(lenient is None, "schema error only when strict", text[:400])
        return
    if lenient is None:
        need(strict is None, "schema error only when lenient", text[:400])
        return
    ast = model.extract(lenient)
    typed(ast)
    cov.nontrivial(model.count_values(ast) >= 1)
    if strict is not None:
        cov.hit("accepted")
        same(model.norm(model.extract(strict), grouped=False), model.norm(ast, grouped=False),
             "strict and lenient reading differ")
        need(written(strict) == written(lenient), "strict and lenient reading write differently")
    settle(lenient, cls, text)


def written(obj):
    """The text of an object; coordinates of wrong dimension are a documented error."""
    from fastkml.exceptions import KMLWriteError

    try:
        return obj.to_string()
    except KMLWriteError as e:
        bad = any(len(c) not in (2, 3) for _, a in model.walk(model.extract(obj))
                  for c in a["f"].get("coords") or ())
        if not bad:
            raise Violation("cannot be written", str(e)[:300]) from e
        return None


def settle(obj, cls, source):
    """What was read can be written and read, and soon nothing changes any more."""
    bool(obj), repr(obj)
    look(obj)
    text = written(obj)
    if text is None:
        return
    for _ in range(12):
        try:
            back = cls.from_string(text)
        except Exception as e:
            raise Violation("own output refused", f"{type(e).__name__} {str(e)[:300]} in "
                                                  f"{text[:400]} from {source[:300]}") from e
        again = written(back)
        need(again is not None, "own output cannot be written again", text[:400])
        if again == text:
            return
        need(len(again) < len(text), "rewriting changes content", lambda: f"{text[:300]} -- {again[:300]}")
        text = again
    raise Violation("does not settle", text[:400])


def look(obj, depth=0):
    """Every public property of every object in a tree can be asked for."""
    if type(obj).__module__.startswith("fastkml.") and hasattr(obj, "__dict__") and depth < 60:
        bool(obj), repr(obj)
        for n in dir(type(obj)):
            if not n.startswith("_") and isinstance(getattr(type(obj), n), property):
                getattr(obj, n)
        for n, v in vars(obj).items():
            if not n.startswith("_"):
                look(v, depth + 1)
    elif isinstance(obj, (list, tuple)):
        for v in obj:
            look(v, depth + 1)


def shrinks(case):
    if case["t"] != "text":
        kind = case["kind"] if "kind" in case else case["ast"]["k"]
        yield {"t": "text", "kind": kind, "text": text_of(case)}
        return
    import xml.etree.ElementTree as ET

    for ns, uri in model.NS.items():
        ET.register_namespace("" if ns == "kml" else ns, uri)
    try:
        root = ET.fromstring(case["text"])
    except ET.ParseError:
        for i in range(len(case["text"])):
            yield {**case, "text": case["text"][:i] + case["text"][i + 1:]}
        return

    def out():
        return {**case, "text": ET.tostring(root, encoding="unicode")}

    parents = {c: p for p in root.iter() for c in p}
    for c, p in parents.items():
        at = list(p).index(c)
        p.remove(c)
        yield out()
        p.insert(at, c)
    for e in root.iter():
        for a in list(e.attrib):
            old = dict(e.attrib)
            del e.attrib[a]
            yield out()
            e.attrib.clear()
            e.attrib.update(old)
        for name in ("text", "tail"):
            t = getattr(e, name)
            if t:
                for new in (None, t[: len(t) // 2], t[len(t) // 2:], t[1:], t[:-1]):
                    setattr(e, name, new)
                    yield out()
                setattr(e, name, t)

"""Files hold what was written to them last, and parsing gives it back."""
import io
import locale
import re
import tempfile
import zipfile
from pathlib import Path

from kv import gen
from kv import model
from kv import syst
from kv.checks import p06
from kv.checks.p04 import strip_defaults
from kv.common import need
from kv.common import reading
from kv.common import same
from kv.errors import Violation
from kv.shrink import ast_shrinks

ID = "P09"
COUNTS = {"quick": 30000, "thorough": 800000}
RULE = ("A random history over a few file names (.kml, .kmz and others, with spaces and non-ASCII "
        "letters): documents are written with random options, writes fail because the document "
        "cannot be written, files are parsed by name, path, open file or bytes, in strict or "
        "lenient mode, with lxml or the standard library. A model maps each name to the document "
        "written last; bytes on disk and parse results must agree with it after every step. "
        "Documents come in other encodings too, and in some histories the text encoding of the "
        "process is ASCII. Non-trivial: at least one file is written and "
        "read back, with three values or more.")
ASSUMPTIONS = [
    "a .kmz is a zip archive whose only member is doc.kml",
    "documents given to validating parses are valid for the schema and not written verbosely "
    "(the schema allows an icon style's icon nothing but a reference)",
    "disk errors are not injected: the library makes no promise about them",
]
NAMES = ["a.kml", "b.kmz", "mit leer.kml", "größe 日本.kml", "c.tar.kmz", "noext", "d.xml",
         "x.kml.bak", "ünï.kmz", "copy.kmz.kml", "sub.kmz/e.kml", "sub.kml/e.kmz", "kmz", "f.kmz.",
         "g.kmzip", ".hidden.kmz", "100% [a](b)*?.kml", "-h.kml",
         " lead.kml", "trail.kml ", "trail .kmz", "tab\there.kml", "a#b&c.kml", "%41.kml", "~.kml",
         "http:x.kml", "<kml>.kml", "$HOME.kml", "a\\b.kml", "LONG" * 50 + ".kml"]
HUGE = 10_000_019  # characters; more than an XML parser takes for granted
HOW = ["path", "str", "file", "bytes", "stringio", "rest"]
ENCODINGS = ["utf-8", "utf-8-sig", "utf-16", "iso-8859-1", "ascii"]


def make(r, i):
    if i % 3000 == 7:
        return {"valid": True, "stdlib": r.random() < 0.3, "ops": [
            {"op": "huge", "name": r.choice([0, 2, 5, 6]), "char": r.choice("xé日<"),
             "strict": r.random() < 0.5, "validate": r.choice([None, False, True])}]}
    valid = r.random() < 0.5
    n = r.choice([2, 2, 3, 4, 6, 10])
    names = r.sample(range(len(NAMES)), r.choice([1, 1, 2, 3]))
    ops = []

    def doc():
        a = gen.document(r, kind="KML", valid=valid, cr=False,
                         size=r.choice([2, 4, 8, 15, 30]), incomplete=0.0)
        return p06.schema_domain(a) if valid else a

    for j in range(n):
        c = r.random()
        name = r.choice(names)
        if j == 0 or c < 0.4:
            ops.append({"op": "write", "name": name, "ast": doc(), "pretty": r.random() < 0.6,
                        "precision": r.choice([None, None, None, 17, 6, 3]),
                        "verbosity": r.choice(["normal", "normal", "terse",
                                               "normal" if valid else "verbose"])})
        elif c < 0.5:
            ops.append({"op": "fail", "name": name, "ast": doc(),
                        "why": r.choice(["object", "control"])})
        elif c < 0.53:
            ops.append({"op": "junk", "name": name,
                        "how": r.choice(["empty", "text", "zip", "longer"])})
        elif c < 0.6:
            ops.append({"op": "given", "name": name, "ast": doc(), "enc": r.choice(ENCODINGS)})
        else:
            ops.append({"op": "parse", "name": name, "how": r.choice(HOW),
                        "strict": r.random() < 0.6})
    ops.append({"op": "parse", "name": ops[0]["name"], "how": r.choice(HOW), "strict": True})
    return {"valid": valid, "stdlib": r.random() < 0.2, "ascii": r.random() < 0.2, "ops": ops}


def systematic():
    """Files of the size real ones have."""
    for n, a in enumerate(syst.large()):
        if a["k"] in ("LineString", "Polygon", "MultiGeometry", "LinearRing", "Track"):
            a = {"k": "Placemark", "f": {"kml_geometry": a}}
        elif a["k"] not in ("Folder", "Document", "Placemark"):
            continue
        for name in (0, 1, 6):
            for pretty in (True, False):
                yield {"valid": False, "stdlib": False, "ascii": False, "ops": [
                    {"op": "write", "name": name, "ast": {"k": "KML", "f": {"features": [a]}},
                     "pretty": pretty, "precision": None, "verbosity": "normal"},
                    {"op": "parse", "name": name, "how": HOW[n % len(HOW)], "strict": pretty}]}


def doc_text(p: Path, name: str, cov) -> str:
    """What is on disk, read without the library."""
    data = p.read_bytes()
    if name.endswith(".kmz"):
        need(zipfile.is_zipfile(io.BytesIO(data)), "not a zip archive", name)
        with zipfile.ZipFile(io.BytesIO(data)) as z:
            need(z.namelist() == ["doc.kml"], "members of the archive", str(z.namelist()))
            need(z.testzip() is None, "damaged archive", name)
            data = z.read("doc.kml")
        cov.hit("kmz")
    try:
        return data.decode("utf-8")
    except UnicodeDecodeError as e:
        raise Violation("not UTF-8", f"{name}: {e}") from e


def expected(op):
    want = model.norm(op["ast"], drop_absent=True, grouped=False)
    if op["op"] == "write":
        if op["verbosity"] == "terse":
            want = strip_defaults(want)
        elif op["verbosity"] == "verbose":
            want = model.norm(want, defaults=True, grouped=False)
        if op["precision"] is not None:
            want = rounded(want, op["precision"])
    return want


def rounded(ast, precision):
    """The content with coordinates written with that many decimals."""
    def go(v):
        return [go(x) for x in v] if isinstance(v, (list, tuple)) else float(f"{v:.{precision}f}")

    for _, a in model.walk(ast):
        if "coords" in a["f"]:
            a["f"]["coords"] = go(a["f"]["coords"])
        for item in a["f"].get("track_items") or ():
            item["coord"], item["angle"] = go(item["coord"]), go(item["angle"])
    return ast


def unwritable(ast, why):
    """A document with something in it that cannot be written."""
    from fastkml.features import Placemark

    obj = model.build(ast)
    obj.features.append(object() if why == "object" else Placemark(name="a\x00b"))
    return obj


def run(case, cov):
    """The history, with the text encoding of the process ASCII or as it is."""
    if not case.get("ascii"):
        return history(case, cov)
    before = locale.setlocale(locale.LC_CTYPE)
    locale.setlocale(locale.LC_CTYPE, "C")
    try:
        cov.hit("locale encoding " + locale.getpreferredencoding(False).lower())
        return history(case, cov)
    finally:
        locale.setlocale(locale.LC_CTYPE, before)


def history(case, cov):
    import xml.etree.ElementTree as ET

    from fastkml import config
    from fastkml.enums import Verbosity
    from fastkml.kml import KML

    if case["stdlib"]:
        config.set_etree_implementation(ET)
        cov.hit("standard library")
    disk: dict[int, tuple] = {}  # name -> (content, bytes)
    with tempfile.TemporaryDirectory(prefix="kv-p09-") as d:
        for op in case["ops"]:
            name = NAMES[op["name"]]
            p = Path(d) / name
            p.parent.mkdir(exist_ok=True)
            what = op["op"]
            if what == "write":
                obj = model.build(op["ast"])
                kw = {"prettyprint": op["pretty"], "precision": op["precision"],
                      "verbosity": Verbosity[op["verbosity"]]}
                got = obj.write(p, **kw)
                need(got is None, "write returns", repr(got))
                text = doc_text(p, name, cov)
                want = expected(op)
                got = model.norm(reading(text, "KML", what="file"), grouped=False)
                same(want, got, "file content")
                bare = re.sub(r"^<\?xml[^>]*\?>\s*", "", text)
                need(bare.strip() == obj.to_string(**kw).strip(), "file is not to_string()",
                     lambda: bare[:400])
                disk[op["name"]] = (want, p.read_bytes())
                cov.hit("write " + p.suffix)
            elif what == "huge":
                huge(op, p, KML)
                disk[op["name"]] = (None, p.read_bytes())
                cov.hit("huge")
                cov.nontrivial(True)
            elif what == "junk":
                p.write_bytes(junk(op["how"]))
                disk[op["name"]] = (None, p.read_bytes())
                cov.hit("junk " + op["how"])
            elif what == "given":
                if name.endswith(".kmz"):
                    continue
                text = model.write_ref(op["ast"])
                enc = op["enc"]
                decl = "utf-8" if enc == "utf-8-sig" else enc
                head = f'<?xml version="1.0" encoding="{decl}"?>\n'
                p.write_bytes((head + text).encode(enc, "xmlcharrefreplace"))
                disk[op["name"]] = (model.norm(op["ast"]), p.read_bytes())
                cov.hit("encoding " + enc)
            elif what == "fail":
                if case["stdlib"] and op["why"] == "control":
                    continue  # the standard library writes control characters
                before = p.read_bytes() if p.exists() else None
                bad = unwritable(op["ast"], op["why"])
                try:
                    bad.write(p)
                except Exception:  # noqa: BLE001
                    cov.hit("failed write")
                else:
                    raise Violation("unwritable document written", op["why"])
                after = p.read_bytes() if p.exists() else None
                need(before == after, "a failed write changed the file", name)
            else:
                parse(case, op, p, disk, KML, cov)
            for i, (_, data) in disk.items():
                need((Path(d) / NAMES[i]).read_bytes() == data, "another file changed", NAMES[i])
        have = sorted(str(x.relative_to(d)) for x in Path(d).rglob("*") if x.is_file())
        need(have == sorted(NAMES[i] for i in disk), "files in the directory", str(have))
    cov.hit("steps", len(case["ops"]))


def huge(op, p, cls):
    """A document with one very long text, written and read."""
    from fastkml.features import Placemark

    text = op["char"] * (HUGE // len(op["char"].encode()))
    cls(features=[Placemark(name="a", description=text)]).write(p)
    got = cls.parse(p, strict=op["strict"], validate=op["validate"])
    need(len(got.features) == 1 and got.features[0].name == "a", "long document", repr(len(text)))
    have = got.features[0].description or ""
    need(have == text, "long text", f"{len(have)} characters of {len(text)}")


def junk(how):
    """Something else that was in the file before."""
    if how == "zip":
        b = io.BytesIO()
        with zipfile.ZipFile(b, "w") as z:
            z.writestr("doc.kml", "<kml/>")
            z.writestr("files/other.png", b"png")
        return b.getvalue()
    return {"empty": b"", "text": b"\xff\xfe junk", "longer": b"<kml/>" * 50000}[how]


def parse(case, op, p, disk, cls, cov):
    if op["name"] not in disk:
        return
    want, data = disk[op["name"]]
    if want is None:
        return
    if p.suffix == ".kmz":
        with zipfile.ZipFile(p) as z:
            data = z.read("doc.kml")
        how = "bytes"
    else:
        how = op["how"]
    kw = {"strict": op["strict"]}
    if not case["valid"]:
        kw["validate"] = False
    if how == "path":
        obj = cls.parse(p, **kw)
    elif how == "str":
        obj = cls.parse(str(p), **kw)
    elif how == "file":
        with p.open("rb") as f:
            obj = cls.parse(f, **kw)
    elif how == "rest":  # an open stream part of which has been read
        b = io.BytesIO(b"Content-Type: application/vnd.google-earth.kml+xml\n" + data)
        b.readline()
        obj = cls.parse(b, **kw)
    elif how == "bytes" or data[:5] == b"<?xml" or not data[:1].isascii() or data[1:2] == b"\0":
        obj = cls.parse(io.BytesIO(data), **kw)
    else:
        obj = cls.parse(io.StringIO(data.decode()), **kw)
    got = model.norm(model.extract(obj))
    want = model.norm(want)
    same(want, got, "parsed content")
    cov.hit("parse " + how)
    cov.nontrivial(model.count_values(want) >= 3)


def shrinks(case):
    ops = case["ops"]
    for i in range(len(ops)):
        if len(ops) > 1:
            yield {**case, "ops": ops[:i] + ops[i + 1:]}
    for k in ("stdlib", "ascii"):
        if case.get(k):
            yield {**case, k: False}
    for i, op in enumerate(ops):
        for k, v in (("name", 0), ("pretty", True), ("precision", None), ("verbosity", "normal"),
                     ("how", "bytes"), ("enc", "utf-8")):
            if k in op and op[k] != v:
                yield {**case, "ops": [*ops[:i], {**op, k: v}, *ops[i + 1:]]}
        if "ast" in op:
            for a in ast_shrinks(op["ast"], hoist=False, incomplete=False):
                yield {**case, "ops": [*ops[:i], {**op, "ast": a}, *ops[i + 1:]]}

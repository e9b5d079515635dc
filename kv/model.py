"""
The reference model: abstract documents (ASTs), and how they relate to fastkml
objects and to XML.

An AST is JSON data: {"k": kind, "f": {attr: value}} with only the fields that
are set.  Scalars are JSON scalars (enums as their KML string); date-times are
{"d": [iso, resolution]}; coordinates are lists of lists of floats; a track
sample is {"when": date, "coord": [...], "angle": [...] | None}.

    build(ast)          -> fastkml object, through public constructors only
    extract(obj, kind)  -> ast, through public attributes only
    read_ref(xml)       -> ast, independent reader (stdlib ElementTree, spec table)
    write_ref(ast, ..)  -> xml text, independent writer with many spellings
    norm(ast)           -> canonical content, what KML says the document means
    diff(a, b)          -> list of differences
"""
from __future__ import annotations

import datetime as _dt
import importlib
import math
import re
import xml.etree.ElementTree as ET
from typing import Any

from kv.errors import Violation
from kv.spec import ATTRS
from kv.spec import ENUMS
from kv.spec import GX_MODES
from kv.spec import NS
from kv.spec import SPEC
from kv.spec import TAGS
from kv.spec import Field
from kv.spec import Kind
from kv.spec import present


class ReadError(Exception):
    """XML output that the independent reader cannot account for."""


# ---------------------------------------------------------------------------
# dates
# ---------------------------------------------------------------------------
RES = {"dateTime": "datetime", "date": "date", "gYearMonth": "year_month", "gYear": "year"}


def py_date(value: dict):
    iso, res = value["d"]
    if res == "dateTime":
        return _dt.datetime.fromisoformat(iso)
    return _dt.date.fromisoformat(iso)


def build_date(value: dict):
    from fastkml.enums import DateTimeResolution
    from fastkml.times import KmlDateTime

    return KmlDateTime(py_date(value), getattr(DateTimeResolution, RES[value["d"][1]]))


def canon_dt(dt: _dt.datetime) -> list:
    """A moment and its utc offset; without an offset KML time is UTC."""
    off = dt.utcoffset()
    off = _dt.timedelta(0) if off is None else off
    naive = dt.replace(tzinfo=None)
    return [naive.isoformat(), int(off.total_seconds())]


def extract_date(value) -> dict:
    res = value.resolution.value
    dt = value.dt
    if isinstance(dt, _dt.datetime):
        iso = dt.isoformat() if res == "dateTime" else dt.date().isoformat()
    else:
        iso = dt.isoformat()
    return {"d": [iso, res]}


DATE_RX = re.compile(r"^(\d{4})-(\d\d)-(\d\d)$")
DATETIME_RX = re.compile(
    r"^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d+)?(Z|[+-]\d\d:\d\d)?$",
)


def read_date(text: str) -> dict:
    """Strict reading of the KML dateTime union type."""
    if re.fullmatch(r"\d{4}", text):
        return {"d": [f"{text}-01-01", "gYear"]}
    if re.fullmatch(r"\d{4}-\d\d", text):
        return {"d": [f"{text}-01", "gYearMonth"]}
    if DATE_RX.match(text):
        return {"d": [text, "date"]}
    if DATETIME_RX.match(text):
        return {"d": [text.replace("Z", "+00:00"), "dateTime"]}
    msg = f"not a KML date-time: {text!r}"
    raise ReadError(msg)


def canon_date(value: dict) -> tuple:
    if isinstance(value, tuple):
        return value
    iso, res = value["d"]
    if res == "dateTime":
        return ("dateTime", *canon_dt(_dt.datetime.fromisoformat(iso)))
    d = _dt.date.fromisoformat(iso)
    if res == "date":
        return ("date", d.year, d.month, d.day)
    if res == "gYearMonth":
        return ("gYearMonth", d.year, d.month)
    return ("gYear", d.year)


def date_text(value: dict, spell=None) -> str:
    iso, res = value["d"]
    if res == "gYear":
        return iso[:4]
    if res == "gYearMonth":
        return iso[:7]
    if spell and res == "dateTime":
        if iso.endswith("+00:00") and spell(3):
            iso = iso[:-6] + "Z"
        m = re.fullmatch(r"(.*T\d\d:\d\d:\d\d)\.(\d+)(.*)", iso)
        if m and spell(2):
            frac = m[2].rstrip("0") or "0"
            iso = f"{m[1]}.{frac}{m[3]}"
    return iso


# ---------------------------------------------------------------------------
# AST -> fastkml
# ---------------------------------------------------------------------------
_cls_cache: dict[str, Any] = {}


def cls_of(kind: str):
    if kind not in _cls_cache:
        s = SPEC[kind]
        _cls_cache[kind] = getattr(importlib.import_module(s.module), s.cls)
    return _cls_cache[kind]


def enum_member(name: str, value: str):
    from fastkml import enums

    cls = getattr(enums, name)
    for m in cls:
        if m.value == value:
            return m
    msg = f"{name} has no member for {value!r}"
    raise LookupError(msg)


def tup(coords):
    return [tuple(c) for c in coords]


class Form:
    """How objects are put together: which sequences are passed, and whether equal parts are one."""

    def __init__(self, seq: str = "list", share: bool = False):
        self.seq = {"list": list, "tuple": tuple, "iter": iter,
                    "generator": lambda v: (x for x in v)}[seq]
        self.share = share
        self.made: dict[str, Any] = {}


def build_value(f: Field, v: Any, *, ns_of=None, via_geometry=False, form=None):
    if f.kind in ("enum", "aenum"):
        return enum_member(f.enum, v)
    if f.kind == "date":
        return build_date(v)
    if f.kind == "obj":
        return build(v, ns_of=ns_of, via_geometry=via_geometry, form=form)
    if f.kind == "objs":
        out = [build(c, ns_of=ns_of, via_geometry=via_geometry, form=form) for c in v]
        return form.seq(out) if form is not None else out
    return v


def build_track_item(item: dict):
    import pygeoif.geometry as geo
    from fastkml.gx import Angle
    from fastkml.gx import TrackItem

    return TrackItem(
        when=build_date(item["when"]),
        coord=geo.Point(*item["coord"]),
        angle=None if item.get("angle") is None else Angle(*item["angle"]),
    )


def build(ast: dict, *, ns_of=None, via_geometry=False, form=None):
    """
    Make the fastkml object for an AST.

    ns_of(kind) -> dict of extra constructor arguments (ns=..., name_spaces=...).
    """
    if form is not None and form.share:
        key = repr(ast)
        if key not in form.made:
            form.made[key] = _build(ast, ns_of, via_geometry, form)
        return form.made[key]
    return _build(ast, ns_of, via_geometry, form)


def _build(ast: dict, ns_of, via_geometry, form):
    k = SPEC[ast["k"]]
    kw: dict[str, Any] = {}
    if ns_of is not None:
        kw.update(ns_of(k))
    sub = dict(kw)
    for f in k.fields:
        if f.attr not in ast["f"]:
            continue
        v = ast["f"][f.attr]
        if f.kind == "coords":
            import pygeoif.geometry as geo
            from fastkml.geometry import Coordinates

            # pygeoif leaves out repeated points, so go through it only without any
            if via_geometry and v and all(a != b for a, b in zip(v, v[1:])):
                g = {"Point": geo.Point, "LineString": geo.LineString,
                     "LinearRing": geo.LinearRing}[k.key]
                kw["geometry"] = (g(*v[0]) if k.key == "Point"
                                  else g(tup(v)))
            else:
                kw["kml_coordinates"] = Coordinates(coords=tup(v), **sub)
        elif f.kind == "track":
            kw[f.attr] = [build_track_item(i) for i in v]
            if form is not None:
                kw[f.attr] = form.seq(kw[f.attr])
        else:
            kw[f.attr] = build_value(f, v, ns_of=ns_of, via_geometry=via_geometry, form=form)
    return cls_of(k.key)(**kw)


# ---------------------------------------------------------------------------
# fastkml -> AST
# ---------------------------------------------------------------------------
_kind_of_cls: dict[Any, str] = {}


def kind_of(obj) -> str:
    if not _kind_of_cls:
        for key in SPEC:
            _kind_of_cls[cls_of(key)] = key
    return _kind_of_cls.get(type(obj), "?" + type(obj).__name__)


def num(v):
    """A JSON-safe number."""
    return v


def extract(obj) -> dict:
    """Read every documented public attribute of a fastkml object."""
    try:
        return _extract(obj)
    except (AttributeError, TypeError, IndexError) as e:
        raise Violation("malformed object", f"{type(obj).__name__}: {e}") from e


def _extract(obj) -> dict:
    key = kind_of(obj)
    if key.startswith("?"):
        return {"k": key, "f": {}}
    k = SPEC[key]
    out: dict[str, Any] = {}
    for f in k.fields:
        if f.kind == "coords":
            c = obj.kml_coordinates
            if c is not None and c.coords:
                out[f.attr] = [list(p) for p in c.coords]
            continue
        v = getattr(obj, f.attr)
        if v is None or v == "":
            continue
        if f.kind == "objs":
            if v:
                out[f.attr] = [_extract(c) for c in v]
        elif f.kind == "obj":
            out[f.attr] = _extract(v)
        elif f.kind in ("enum", "aenum"):
            out[f.attr] = v.value
        elif f.kind == "date":
            out[f.attr] = extract_date(v)
        elif f.kind == "track":
            if v:
                out[f.attr] = [
                    {
                        "when": extract_date(i.when),
                        "coord": list(i.coord.coords[0]),
                        "angle": None if i.angle is None
                        else [i.angle.heading, i.angle.tilt, i.angle.roll],
                    }
                    for i in v
                ]
        else:
            out[f.attr] = v
    return {"k": key, "f": out}


# ---------------------------------------------------------------------------
# canonical content
# ---------------------------------------------------------------------------
# list fields whose constructors only keep children with the required content
FILTERED = {("ExtendedData", "elements"), ("MultiTrack", "tracks")}


def norm(ast: dict, *, drop_absent: bool = False, defaults: bool = False,
         grouped: bool = True) -> dict:
    """
    Canonical content of an AST.

    Surrounding white space of text is not significant, empty text is no text,
    an empty list is no list, and a missing track angle is (0, 0, 0).

    drop_absent  leave out child elements that lack their required content
                 (this is what KML output looks like)
    defaults     fill in KML default values
    grouped      siblings of different kinds are grouped by kind
    """
    k = SPEC[ast["k"]]
    out: dict[str, Any] = {}
    for f in k.fields:
        v = ast["f"].get(f.attr)
        if v is None:
            if defaults and f.default is not None:
                out[f.attr] = f.default
            continue
        if f.kind in ("text", "attr", "body"):
            v = v.strip()
            if not v:
                if defaults and f.default is not None:
                    out[f.attr] = f.default
                continue
        elif f.kind == "obj":
            if drop_absent and not present(norm(v)):
                continue
            v = norm(v, drop_absent=drop_absent, defaults=defaults, grouped=grouped)
        elif f.kind == "objs":
            items = [norm(c, drop_absent=drop_absent, defaults=defaults, grouped=grouped)
                     for c in v
                     if not (drop_absent or (k.key, f.attr) in FILTERED)
                     or present(norm(c))]
            if not items:
                continue
            # fastkml groups siblings of different kinds by kind when it reads them;
            # the order that counts is the one among siblings of the same kind
            v = sorted(items, key=lambda c: c["k"]) if grouped else items
        elif f.kind == "track":
            if not v:
                continue
            v = [{"when": canon_date(i["when"]), "coord": list(i["coord"]),
                  "angle": list(i["angle"]) if i.get("angle") is not None else [0.0, 0.0, 0.0]}
                 for i in v]
        elif f.kind == "date":
            v = canon_date(v)
        elif f.kind == "coords":
            if not v:
                continue
            v = [list(c) for c in v]
        out[f.attr] = v
    return {"k": ast["k"], "f": out}


def same_scalar(a, b) -> bool:
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or (isinstance(a, float) and isinstance(b, float)
                          and math.isnan(a) and math.isnan(b))
    return type(a) is type(b) and a == b


def diff(a: Any, b: Any, path: str = "") -> list[str]:
    """Differences between two canonical values (expected, got)."""
    if isinstance(a, dict) and isinstance(b, dict):
        if "k" in a and "k" in b:
            if a["k"] != b["k"]:
                return [f"{path or '/'}: expected a {a['k']}, got a {b['k']}"]
            return diff(a["f"], b["f"], f"{path}/{a['k']}")
        out = []
        for key in sorted(set(a) | set(b)):
            if key not in a:
                out.append(f"{path}.{key}: unexpected {short(b[key])}")
            elif key not in b:
                out.append(f"{path}.{key}: missing, expected {short(a[key])}")
            else:
                out += diff(a[key], b[key], f"{path}.{key}")
        return out
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return [f"{path}: expected {len(a)} items {short(a)}, got {len(b)} {short(b)}"]
        out = []
        for i, (x, y) in enumerate(zip(a, b)):
            out += diff(x, y, f"{path}[{i}]")
        return out
    return [] if same_scalar(a, b) else [f"{path}: expected {short(a)}, got {short(b)}"]


def short(v: Any, n: int = 120) -> str:
    s = repr(v)
    return s if len(s) <= n else s[: n - 3] + "..."


# ---------------------------------------------------------------------------
# independent reader
# ---------------------------------------------------------------------------
FLOAT_RX = re.compile(r"^[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?$")
INT_RX = re.compile(r"^[+-]?\d+$")


def read_float(text: str) -> float:
    if not FLOAT_RX.match(text):
        msg = f"not an xsd:double: {text!r}"
        raise ReadError(msg)
    return float(text)


def read_scalar(f: Field, text: str):
    k = f.kind
    if k in ("text", "attr", "body"):
        return text
    text = text.strip()
    if k == "bool":
        if text not in ("0", "1", "true", "false"):
            msg = f"{f.node}: not an xsd:boolean: {text!r}"
            raise ReadError(msg)
        return text in ("1", "true")
    if k in ("int", "aint"):
        if not INT_RX.match(text):
            msg = f"{f.node}: not an xsd:int: {text!r}"
            raise ReadError(msg)
        return int(text)
    if k in ("float", "afloat"):
        return read_float(text)
    if k in ("enum", "aenum"):
        if text not in ENUMS[f.enum]:
            msg = f"{f.node}: not a {f.enum}: {text!r}"
            raise ReadError(msg)
        return text
    if k == "date":
        return read_date(text)
    raise AssertionError(k)


def split_tag(tag: str) -> tuple[str, str]:
    if tag.startswith("{"):
        uri, name = tag[1:].split("}", 1)
        return uri, name
    return "", tag


class RefReader:
    """
    Reads XML into an AST and accounts for every element, attribute and text.

    ns maps namespace ids to the URIs that the document must use.
    """

    def __init__(self, ns: dict[str, str] | None = None, *, raw=False):
        self.ns = {**NS, **(ns or {})}
        self.tags = {(self.ns[k.ns], k.tag): k.key for k in SPEC.values()}
        self.raw = raw  # coordinates as text

    def number(self, text: str) -> float | str:
        value = read_float(text)
        return text if self.raw else value

    def read(self, el: ET.Element, kind: str | None = None) -> dict:
        uri, name = split_tag(el.tag)
        key = self.tags.get((uri, name))
        if key is None or (kind is not None and key != kind):
            msg = f"unexpected element <{el.tag}>" + (f", expected {kind}" if kind else "")
            raise ReadError(msg)
        k = SPEC[key]
        out: dict[str, Any] = {}
        self.attributes(k, el, out)
        body = next((f for f in k.fields if f.kind == "body"), None)
        if body is not None:
            if len(el):
                msg = f"<{el.tag}> has children"
                raise ReadError(msg)
            if el.text:
                out[body.attr] = el.text
            return {"k": key, "f": out}
        if el.text and el.text.strip():
            msg = f"unexpected text {el.text!r} in <{el.tag}>"
            raise ReadError(msg)
        for ch in el:
            if ch.tail and ch.tail.strip():
                msg = f"unexpected text {ch.tail!r} in <{el.tag}>"
                raise ReadError(msg)
            self.child(k, ch, out)
        if key == "Track":
            self.finish_track(out)
        return {"k": key, "f": out}

    def attributes(self, k: Kind, el: ET.Element, out: dict) -> None:
        fields = {f.node: f for f in k.fields if f.kind in ATTRS}
        for name, text in el.attrib.items():
            f = fields.get(name)
            if f is None:
                msg = f"unexpected attribute {name!r} on <{el.tag}>"
                raise ReadError(msg)
            out[f.attr] = read_scalar(f, text)

    def child(self, k: Kind, ch: ET.Element, out: dict) -> None:
        uri, name = split_tag(ch.tag)
        if k.key == "Track" and self.track_child(uri, name, ch, out):
            return
        for f in k.fields:
            if f.kind in ("obj", "objs"):
                key = self.tags.get((uri, name))
                if key in f.of:
                    sub = self.read(ch, key)
                    if f.kind == "objs":
                        out.setdefault(f.attr, []).append(sub)
                    elif f.attr in out:
                        msg = f"more than one {f.attr} in <{k.tag}>"
                        raise ReadError(msg)
                    else:
                        out[f.attr] = sub
                    return
                continue
            if f.kind in ATTRS or f.kind in ("body", "track") or f.node != name:
                continue
            want = self.ns[k.ns]
            if f.attr == "altitude_mode":
                want = self.ns["gx" if (ch.text or "").strip() in GX_MODES else "kml"]
            elif f.kind == "coords":
                want = self.ns["kml"]
            if uri != want:
                msg = f"<{ch.tag}> in <{k.tag}> is in namespace {uri!r}, expected {want!r}"
                raise ReadError(msg)
            if f.attr in out:
                msg = f"more than one <{f.node}> in <{k.tag}>"
                raise ReadError(msg)
            if len(ch) or ch.attrib:
                msg = f"<{ch.tag}> has children or attributes"
                raise ReadError(msg)
            if f.kind == "coords":
                out[f.attr] = [[self.number(c) for c in p.split(",")]
                               for p in (ch.text or "").split()]
            else:
                out[f.attr] = read_scalar(f, ch.text or "")
            return
        msg = f"unexpected element <{ch.tag}> in <{k.tag}>"
        raise ReadError(msg)

    def track_child(self, uri, name, ch, out) -> bool:
        if (uri, name) == (self.ns["kml"], "when"):
            out.setdefault("whens", []).append(read_date((ch.text or "").strip()))
        elif (uri, name) in ((self.ns["gx"], "coord"), (self.ns["gx"], "angles")):
            out.setdefault(name + "_", []).append(
                [self.number(c) for c in (ch.text or "").split()])
        else:
            return False
        return True

    def finish_track(self, out: dict) -> None:
        whens, coords = out.pop("whens", []), out.pop("coord_", [])
        angles = out.pop("angles_", [])
        if len(whens) != len(coords) or len(angles) not in (0, len(whens)):
            msg = (f"gx:Track with {len(whens)} when, {len(coords)} coord "
                   f"and {len(angles)} angles")
            raise ReadError(msg)
        if whens:
            out["track_items"] = [
                {"when": w, "coord": c, "angle": angles[i] if angles else None}
                for i, (w, c) in enumerate(zip(whens, coords))
            ]


def parse_xml(text: str | bytes) -> ET.Element:
    try:
        return ET.fromstring(text)  # noqa: S314
    except ET.ParseError as e:
        msg = f"output is not well-formed XML: {e}"
        raise ReadError(msg) from e


def read_ref(text: str | bytes, kind: str | None = None, *, ns=None, raw=False) -> dict:
    return RefReader(ns, raw=raw).read(parse_xml(text), kind)


# ---------------------------------------------------------------------------
# independent writer
# ---------------------------------------------------------------------------
def esc_text(s: str) -> str:
    return (s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
            .replace("\r", "&#13;"))


def esc_attr(s: str, q: str = '"') -> str:
    s = esc_text(s).replace("\n", "&#10;").replace("\t", "&#9;")
    return s.replace('"', "&quot;") if q == '"' else s.replace("'", "&apos;")


class Node:
    """A mutable XML element produced by the independent writer."""

    __slots__ = ("ns", "tag", "attrs", "kids", "text", "field", "owner", "cdata", "lex")

    def __init__(self, ns, tag, text=None, field=None, owner=None):
        self.ns, self.tag, self.text = ns, tag, text
        self.attrs: list[list] = []  # [name, text, field]
        self.kids: list[Node] = []
        self.field = field  # spec field, for scalar children
        self.owner = owner  # path of the owning AST
        self.lex = True

    def walk(self):
        yield self
        for c in self.kids:
            yield from c.walk()


def scalar_text(f: Field, v: Any, spell=None) -> str:
    if f.kind in ("text", "attr", "body"):
        return v
    if f.kind == "bool":
        opts = ("1", "true") if v else ("0", "false")
        return opts[spell(2)] if spell else opts[0]
    if f.kind == "date":
        return date_text(v, spell)
    if f.kind in ("float", "afloat"):
        if spell and isinstance(v, float):
            return number_text(v, spell)
        return repr(v)
    if f.kind in ("int", "aint"):
        if spell and v >= 0 and spell(4) == 0:
            return f"+{v}" if spell(2) else f"00{v}"
        return str(v)
    return str(v)


def to_nodes(ast: dict, spell=None, path: tuple = ()) -> Node:
    """The XML tree for an AST. spell(n) -> int in range(n) chooses spellings."""
    k = SPEC[ast["k"]]
    el = Node(k.ns, k.tag, owner=path)
    for f in k.fields:
        if f.attr not in ast["f"]:
            continue
        v = ast["f"][f.attr]
        if f.kind in ATTRS:
            el.attrs.append([f.node, scalar_text(f, v, spell), f])
        elif f.kind == "body":
            el.text, el.field = v, f
        elif f.kind == "obj":
            el.kids.append(to_nodes(v, spell, (*path, f.attr)))
        elif f.kind == "objs":
            el.kids += [to_nodes(c, spell, (*path, f.attr, i)) for i, c in enumerate(v)]
        elif f.kind == "coords":
            el.kids.append(Node("kml", "coordinates", coords_text(v, spell), f, path))
        elif f.kind == "track":
            angles = any(i.get("angle") is not None for i in v)
            for i in v:
                el.kids.append(Node("kml", "when", date_text(i["when"], spell), None, path))
            for i in v:
                el.kids.append(Node("gx", "coord", values_text(i["coord"], spell), None, path))
            if angles:
                for i in v:
                    a = i.get("angle") or [0.0, 0.0, 0.0]
                    el.kids.append(Node("gx", "angles", values_text(a, spell), None, path))
        else:
            ns = k.ns
            if f.attr == "altitude_mode":
                ns = "gx" if v in GX_MODES else "kml"
            el.kids.append(Node(ns, f.node, scalar_text(f, v, spell), f, path))
    return el


def number_text(v: float, spell) -> str:
    """One of the spellings of a number."""
    v = float(v)
    opts = [repr(v), f"{v:.17g}", f"{v:.17e}", f"{v:+.17E}"]
    text = opts[0]
    if "e" not in text:
        if text.endswith(".0"):
            opts += [text[:-2], text[:-1], text + "00"]
        sign, digits = ("-", text[1:]) if text[0] == "-" else ("", text)
        if digits.startswith("0.") and len(digits) > 2:
            opts.append(sign + digits[1:])
        opts.append(sign + "00" + digits)
        if not sign:
            opts += ["+" + o for o in opts[4:]] or ["+" + text]
    return opts[spell(len(opts))]


def values_text(values, spell=None) -> str:
    if not spell:
        return " ".join(map(repr, values))
    sep = [" ", " ", "  ", "\n", "\t "][spell(5)]
    return sep.join(number_text(x, spell) if spell(3) == 0 else repr(x) for x in values)


def coords_text(coords, spell=None) -> str:
    seps = [" ", "\n", "\n\t ", "  ", "\t"]
    commas = [",", ",", ",", ",", ", ", ",  ", ",     "]
    style = spell(3) if spell else 0  # plain, mixed commas, mixed commas and numbers
    out = []
    for i, c in enumerate(coords):
        if i:
            out.append(seps[spell(5)] if spell else " ")
        for j, x in enumerate(c):
            if j:
                out.append(commas[spell(len(commas))] if style else ",")
            out.append(number_text(x, spell) if style == 2 else repr(x))
    text = "".join(out)
    if spell and spell(3) == 0:
        text = "\n  " + text + "\n"
    return text


def render(el: Node, *, prefix: dict[str, str], uris: dict[str, str] | None = None,
           spell=None, declare=True, noise=False, entities=None) -> str:
    """
    Serialise a Node tree.

    prefix  namespace id -> prefix ('' = default namespace)
    uris    namespace id -> URI ('' = no namespace, must have prefix '')
    spell   chooses among equivalent spellings
    entities  a dictionary to which entities used in texts are added
    noise   add comments, processing instructions and white space between elements
    """
    uris = {**NS, **(uris or {})}

    def name(ns, tag):
        p = prefix[ns]
        return f"{p}:{tag}" if p else tag

    def pad():
        if not spell:
            return ""
        s = ["", "\n", "  ", "\n\t"][spell(4)]
        if noise and spell(8) == 0:
            s += ["<!-- noise -->", "<?pi noise?>", "<!-- <name>x</name> -->",
                  f'<u:ext xmlns:u="urn:unknown" u:a="1"><{name("kml", "name")}>no'
                  f'</{name("kml", "name")}></u:ext>',
                  f'<{name("kml", "unknownThing")} id="u">1</{name("kml", "unknownThing")}>',
                  ][spell(5)]
        return s

    def text_of(n: Node) -> str:
        t = n.text or ""
        if entities is not None and t and not set(t) & set("<>&%\"\r") and len(entities) < 20:
            i = len(t) // 3
            name = f"e{len(entities)}"
            entities[name] = t[i:]
            return esc_text(t[:i]) + f"&{name};"
        if spell and t:
            c = spell(8)
            if noise and c < 2 and len(t) > 1:
                i = 1 + spell(len(t) - 1)
                t2 = esc_text(t[:i]) + ["<!-- c -->", "<?p i?>", "<!---->"][spell(3)] + esc_text(t[i:])
            elif c == 0 and "]]>" not in t and "\r" not in t:
                t2 = f"<![CDATA[{t}]]>"
            elif c == 1:
                t2 = "".join(f"&#{ord(ch)};" if spell(2) else esc_text(ch) for ch in t)
            elif c == 2 and (n.field is None or n.field.kind != "body"):
                t2 = "\n   " + esc_text(t) + "  \n"
            else:
                t2 = esc_text(t)
            return t2
        return esc_text(t)

    def go(n: Node, top: bool) -> str:
        q = "'" if spell and spell(3) == 0 else '"'
        attrs = [f"{a[0]}={q}{esc_attr(a[1], q)}{q}" for a in n.attrs]
        if top and declare:
            for ns, p in prefix.items():
                if uris[ns] or p:
                    attrs.append((f"xmlns:{p}" if p else "xmlns") + f'="{uris[ns]}"')
        if noise and spell(6) == 0:
            attrs.append(["unknown='1'", 'xml:lang="en"'][spell(2)])
        if spell and len(attrs) > 1 and spell(2):
            attrs.reverse()
        head = name(n.ns, n.tag) + ("".join(" " + a for a in attrs))
        if not n.kids and not n.text:
            return f"<{head}/>" if not spell or spell(2) else f"<{head}></{name(n.ns, n.tag)}>"
        inner = text_of(n)
        if n.kids:
            inner = pad() + "".join(go(c, top=False) + pad() for c in n.kids)
        return f"<{head}>{inner}</{name(n.ns, n.tag)}>"

    return go(el, top=True)


PREFIX = {"kml": "", "gx": "gx", "atom": "atom"}


def shuffle_kids(el: Node, r) -> None:
    """Reorder the children of every element; those of the same name keep their order."""
    for n in el.walk():
        if len(n.kids) < 2:
            continue
        groups: dict[tuple, list] = {}
        for c in n.kids:
            groups.setdefault((c.ns, c.tag), []).append(c)
        order = [key for key, g in groups.items() for _ in g]
        r.shuffle(order)
        n.kids = [groups[key].pop(0) for key in order]


def write_ref(ast: dict, *, prefix=None, uris=None, spell=None, noise=False, shuffle=None,
              entities=None) -> str:
    nodes = to_nodes(ast, spell)
    if shuffle is not None:
        shuffle_kids(nodes, shuffle)
    return render(nodes, prefix=prefix or PREFIX, uris=uris, spell=spell, noise=noise,
                  entities=entities)


# ---------------------------------------------------------------------------
# traversal helpers
# ---------------------------------------------------------------------------
def walk(ast: dict, path: tuple = ()):
    """Every AST in the tree with its path, parents first."""
    yield path, ast
    for f in SPEC[ast["k"]].fields:
        v = ast["f"].get(f.attr)
        if v is None:
            continue
        if f.kind == "obj":
            yield from walk(v, (*path, f.attr))
        elif f.kind == "objs":
            for i, c in enumerate(v):
                yield from walk(c, (*path, f.attr, i))


def at(ast: dict, path: tuple) -> Any:
    for p in path:
        ast = ast[p] if isinstance(ast, list) else ast["f"][p]
    return ast


def count_values(ast: dict) -> int:
    """Number of set scalar values in the tree."""
    n = 0
    for _, a in walk(ast):
        for f in SPEC[a["k"]].fields:
            if f.attr in a["f"] and f.kind not in ("obj", "objs"):
                n += 1
    return n


def kinds_in(ast: dict) -> set[str]:
    return {a["k"] for _, a in walk(ast)}


__all__ = [n for n in dir() if not n.startswith("_")]
assert TAGS

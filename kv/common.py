"""Helpers shared by the checks."""
from __future__ import annotations

import io
import tempfile
import zipfile
from pathlib import Path

from kv.errors import Violation
from kv.model import ReadError
from kv.model import diff
from kv.model import read_ref
from kv.spec import SPEC


def same(expected, got, kind: str) -> None:
    """Raise a violation if two canonical values differ."""
    d = diff(expected, got)
    if d:
        raise Violation(kind, "; ".join(d[:4]))


def reading(text, kind=None, *, what="output", **kw) -> dict:
    """Read the library's output with the independent reader."""
    try:
        return read_ref(text, kind, **kw)
    except ReadError as e:
        raise Violation("unreadable " + what, f"{e} in {text[:600]}") from e


def need(cond, kind: str, msg="") -> None:
    if not cond:
        raise Violation(kind, msg() if callable(msg) else msg)


ROUTES = ("stream", "path", "name", "element")


def wrapped(ast: dict) -> dict | None:
    """A document of its own for an element that can stand in one."""
    if ast["k"] == "KML":
        return ast
    f = next(f for f in SPEC["KML"].fields if f.attr == "features")
    return {"k": "KML", "f": {"features": [ast]}} if ast["k"] in f.of else None


def parsed(data, route: str, *, strict: bool = True):
    """Read a document by one of the ways that lead to KML.parse."""
    from fastkml.kml import KML

    kw = {"strict": strict, "validate": False}
    if route == "stream":
        return KML.parse(io.StringIO(data) if isinstance(data, str) else io.BytesIO(data), **kw)
    with tempfile.TemporaryDirectory(prefix="kv-") as d:
        p = Path(d) / "in.kml"
        p.write_bytes(data.encode() if isinstance(data, str) else data)
        return KML.parse(p if route == "path" else str(p), **kw)


def written(obj, route: str | None, **kw) -> str | bytes:
    """What an object is written as, by one of the ways there are."""
    from fastkml import config

    if route is None:
        return obj.to_string(**kw)
    if route == "element" or not hasattr(obj, "write"):
        kw.pop("prettyprint", None)
        return config.etree.tostring(obj.etree_element(**kw), encoding="utf-8")
    with tempfile.TemporaryDirectory(prefix="kv-") as d:
        p = Path(d) / ("out.kmz" if route == "name" else "out.kml")
        obj.write(p, **kw)
        if route == "name":
            with zipfile.ZipFile(p) as z:
                return z.read(z.namelist()[0])
        return p.read_bytes()

"""Enumerated documents: every field of every kind with every characteristic value."""
from __future__ import annotations

import copy
from typing import Any
from typing import Iterator

from kv.gen import Gen
from kv.spec import ENUMS
from kv.spec import SPEC
from kv.spec import Field

TEXTS = ["a", "0", "False", "None", "x < y & z > \"q\" 'p'", "ünï 日本 😀", " pad ", "l1\nl2\tt",
         "&amp;", "x" * 3000, "1.50", "http://e.org/?a=1&b=2#c", "a  b"]
FLOATS = [0.0, 1.0, -1.0, 0.5, 4.0, 2.0, -90.0, 180.0, 1e-7, -1e-7, 1e-5, 1e16, 123456789.125,
          1 / 3, 5e-324, 1.7976931348623157e308, 256.0, 255.5, 99.0, -0.25]
INTS = [0, 1, -1, 2, 256, 255, 257, 1000, -7, 2147483647, -2147483648]
DATES = [["2020-02-29T12:34:56+00:00", "dateTime"], ["2020-02-29T23:59:59.123456-05:30", "dateTime"],
         ["1999-12-31T00:00:00", "dateTime"], ["2001-01-01T10:00:00.500000+14:00", "dateTime"],
         ["0987-06-05T04:03:02+00:00", "dateTime"], ["2024-02-29", "date"], ["0100-01-02", "date"],
         ["2010-11-01", "gYearMonth"], ["2010-01-01", "gYearMonth"], ["0335-10-01", "gYearMonth"],
         ["1996-01-01", "gYear"], ["0007-01-01", "gYear"], ["9999-12-31", "date"]]
P2 = [[1.5, -2.25], [3.0, 4.0], [-5.125, 6.0], [180.0, -90.0]]
P3 = [[1.5, -2.25, 100.0], [3.0, 4.0, 0.0], [-5.125, 6.0, -7.5], [0.0, 0.0, 1e-7]]


def coords_for(key: str, pts: list) -> list:
    if key == "Point":
        return [list(pts[0])]
    if key == "LinearRing":
        return [list(p) for p in pts] + [list(pts[0])]
    return [list(p) for p in pts]


def track_items(n: int, angle: bool = False) -> list:
    return [{"when": {"d": [f"2010-05-28T02:02:{i % 60:02}+00:00", "dateTime"]},
             "coord": [float(i), -float(i) / 2, 100.5 + i],
             "angle": [float(i), 10.0, -3.5] if angle else None} for i in range(n)]


def plain(f: Field, key: str) -> Any:
    """One unremarkable value for a field."""
    if f.kind in ("text", "attr", "body"):
        return {"color": "7f00ff00", "uri": "http://example.com/x.png", "id": "i1",
                "lang": "en", "mime": "text/html", "email": "a@b.org"}.get(f.lex, "txt")
    if f.kind == "bool":
        return True
    if f.kind in ("int", "aint"):
        return 7
    if f.kind in ("float", "afloat"):
        return 7.5
    if f.kind in ("enum", "aenum"):
        return ENUMS[f.enum][0]
    if f.kind == "date":
        return {"d": ["2020-03-04T05:06:07+00:00", "dateTime"]}
    if f.kind == "coords":
        return coords_for(key, P2)
    if f.kind == "track":
        return track_items(2)
    if f.kind == "obj":
        return minimal(f.of[0])
    return [minimal(f.of[0])]


def minimal(key: str) -> dict:
    k = SPEC[key]
    must = Gen.ALTERNATIVES.get(key)
    must = must[:1] if must else Gen.REQUIRED.get(key, [])
    return {"k": key, "f": {f.attr: plain(f, key) for f in k.fields if f.attr in must}}


def values(f: Field, key: str) -> list:
    if f.kind in ("text", "attr", "body"):
        out = list(TEXTS)
        if f.default is not None:
            out.append(f.default)
        if f.lex == "color":
            out += ["ffffffff", "00000000", "FF00AA11", "ff000000"]
        return out
    if f.kind == "bool":
        return [True, False]
    if f.kind in ("int", "aint"):
        return INTS + ([f.default] if f.default is not None else [])
    if f.kind in ("float", "afloat"):
        return FLOATS + ([f.default] if f.default is not None else [])
    if f.kind in ("enum", "aenum"):
        return list(ENUMS[f.enum])
    if f.kind == "date":
        return [{"d": d} for d in DATES]
    if f.kind == "coords":
        big = [[i / 8 - 20, (i * 7 % 90) + 0.5] for i in range(1200)]
        return [coords_for(key, P2), coords_for(key, P3), coords_for(key, P3[::-1]),
                coords_for(key, [[1e-7, -1e-7], [1e15, 2.5], [0.1, 0.2]]),
                coords_for(key, [[1.0, 2.0, 3.0], [1.0, 2.0, 3.0], [4.0, 5.0, 6.0]]),
                coords_for(key, big)]
    if f.kind == "track":
        mixed = track_items(4, angle=True)
        mixed[1]["angle"] = None
        mixed[3]["angle"] = None
        flat = [{**i, "coord": i["coord"][:2]} for i in track_items(3)]
        return [track_items(1), track_items(3), track_items(3, angle=True), mixed, flat,
                track_items(70, angle=True)]
    if f.kind == "obj":
        return [minimal(o) for o in f.of]
    out = [[minimal(o)] for o in f.of]
    if key == "Style":
        out.append([minimal(o) for o in f.of])
        return out
    if len(f.of) > 1:
        out.append([minimal(o) for o in f.of])
        out.append([minimal(o) for o in reversed(f.of)])
        out.append([minimal(o) for o in f.of] * 2)
    out += [[numbered(f.of[0], i) for i in range(n)] for n in (2, 3, 12, 70)]
    return copy.deepcopy(out)


def numbered(key: str, i: int) -> dict:
    """Siblings that can be told apart."""
    ast = minimal(key)
    for f in SPEC[key].fields:
        if f.attr in ("name", "id", "url", "target_href", "display_name") and f.kind in (
                "attr", "text", "body"):
            ast["f"][f.attr] = f"{f.attr}-{i}"
            break
    else:
        for f in SPEC[key].fields:
            if f.kind in ("float", "afloat"):
                ast["f"][f.attr] = i + 0.5
                break
            if f.kind == "coords":
                ast["f"][f.attr] = coords_for(key, [[p[0] + i, p[1]] for p in P2])
    return ast


def single_field() -> Iterator[dict]:
    for key, k in SPEC.items():
        yield minimal(key)
        for f in k.fields:
            for v in values(f, key):
                ast = minimal(key)
                ast["f"][f.attr] = copy.deepcopy(v)
                yield ast


def incomplete() -> Iterator[dict]:
    """Each kind without some or all of what it needs, alone and inside every other kind."""
    from itertools import combinations

    lacking: dict[str, list] = {}
    for key, k in SPEC.items():
        need = Gen.ALTERNATIVES.get(key) or Gen.REQUIRED.get(key)
        if not need or key == "Schema":
            continue
        whole = full(key, 0)
        rest = [f.attr for f in k.fields if f.attr not in need]
        for n in range(len(need) if key not in Gen.ALTERNATIVES else 1):
            for some in combinations(need, n):
                lacking.setdefault(key, []).append(
                    {"k": key, "f": {a: v for a, v in whole["f"].items() if a in some}})
        lacking[key].append({"k": key, "f": {a: v for a, v in whole["f"].items() if a in rest}})
        yield from copy.deepcopy(lacking[key])
    for key, k in SPEC.items():
        for f in k.fields:
            if f.kind not in ("obj", "objs"):
                continue
            for of in f.of:
                for bad in lacking.get(of, ()):
                    ast = minimal(key)
                    ast["f"][f.attr] = copy.deepcopy(bad if f.kind == "obj" else
                                                     [bad, minimal(of), bad])
                    yield ast
                    if f.kind == "objs" and bad is lacking[of][0]:
                        ok = minimal(of)
                        rest = [lacking[o][0] for o in f.of if o != of and o in lacking] \
                            if key == "Style" else [bad] * 4
                        for order in ([ok, *rest], [*rest, ok]):
                            ast = minimal(key)
                            ast["f"][f.attr] = copy.deepcopy(order)
                            yield ast


def full(key: str, depth: int = 2) -> dict:
    """Every field set."""
    ast = minimal(key)
    for f in SPEC[key].fields:
        if f.kind == "obj":
            ast["f"][f.attr] = full(f.of[0], depth - 1) if depth else minimal(f.of[0])
        elif f.kind == "objs":
            kids = [o for o in f.of if o not in ("Document", "Folder", "MultiGeometry")] or f.of
            ast["f"][f.attr] = [full(o, depth - 1) if depth else minimal(o) for o in kids]
        else:
            ast["f"][f.attr] = plain(f, key)
    return ast


def nested(key: str, field: str, leaf: str, depth: int) -> dict:
    ast = minimal(leaf)
    for i in range(depth):
        ast = {"k": key, "f": {"id": f"n{i}", field: [ast]}}
    return ast


def large() -> Iterator[dict]:
    """A few documents of the size real ones have."""
    line = [[(i * 37 % 3600) / 10 - 180, (i % 1700) / 10 - 85 + i / 1e6] for i in range(11003)]
    yield {"k": "LineString", "f": {"coords": line}}
    yield {"k": "LinearRing", "f": {"coords": [*line[:10007], line[0]]}}
    yield {"k": "Track", "f": {"track_items": track_items(1111, angle=True)}}
    rings = [{"k": "InnerBoundaryIs", "f": {"kml_geometry": numbered("LinearRing", i)}}
             for i in range(131)]
    yield {"k": "Polygon", "f": {"outer_boundary": minimal("OuterBoundaryIs"),
                                 "inner_boundaries": rings}}
    for key, f, of, n in (("Folder", "features", "Placemark", 1031),
                          ("Schema", "fields", "SimpleField", 271),
                          ("ExtendedData", "elements", "Data", 271),
                          ("SchemaData", "data", "SimpleData", 271),
                          ("MultiGeometry", "kml_geometries", "Point", 1031),
                          ("Document", "styles", "Style", 271),
                          ("ResourceMap", "aliases", "Alias", 271)):
        ast = minimal(key)
        ast["f"][f] = [numbered(of, i) for i in range(n)]
        yield ast
    yield {"k": "Placemark", "f": {"description": "<p>long & wide</p>\n" * 9000}}


def documents() -> Iterator[dict]:
    """All enumerated documents."""
    yield from large()
    yield from single_field()
    for key in SPEC:
        yield full(key, 1)
    for d in (2, 5, 12, 40):
        yield nested("Folder", "features", "Placemark", d)
        yield nested("Document", "features", "ScreenOverlay", d)
    for d in (2, 4, 8):
        yield nested("MultiGeometry", "kml_geometries", "Point", d)
        yield nested("MultiGeometry", "kml_geometries", "Polygon", d)

"""Documents that differ from a given one in exactly one, clearly visible way."""
from __future__ import annotations

import copy
import datetime as dt
import math
import random

from kv import syst
from kv.gen import WORDS
from kv.gen import Gen
from kv.model import at
from kv.model import walk
from kv.spec import ENUMS
from kv.spec import SPEC
from kv.spec import Field

RESOLUTIONS = ["dateTime", "date", "gYearMonth", "gYear"]


def other_number(v: float, r: random.Random, *, exact=False) -> float:
    """
    Another number, far away or near.

    Geometries are compared with a relative tolerance of 1e-9 (math.isclose), all
    other numbers exactly.
    """
    c = r.random()
    if exact and c < 0.25:
        return math.nextafter(v, 0.0 if v else 1.0)
    if c < 0.5:
        return v * (1 - 1e-6) if v else 1e-6
    return -v if abs(v) > 1 else v + 3.5


def other_date(v: dict, r: random.Random) -> dict:
    iso, res = v["d"]
    if res == "date" and r.random() < 0.3:
        return {"d": [iso[:8] + "01", "gYearMonth"]}
    if res == "gYear" and r.random() < 0.3:
        return {"d": [iso, r.choice(["gYearMonth", "date"])]}
    if res == "dateTime":
        t = dt.datetime.fromisoformat(iso)
        d = dt.timedelta(days=r.choice([1, 40, 400]), seconds=r.choice([0, 1, 3600]))
        if r.random() < 0.5:
            d = r.choice([dt.timedelta(seconds=1), dt.timedelta(microseconds=1),
                          dt.timedelta(hours=1)])
        return {"d": [(t + d if t.year < 9000 else t - d).isoformat(), res]}
    d = dt.date.fromisoformat(iso)
    y = d.year + 1 if d.year < 9999 else d.year - 1
    return {"d": [f"{y:04}-{d.month:02}-{min(d.day, 28):02}", res]}


def other_scalar(f: Field, v, r: random.Random):
    if f.kind in ("text", "attr", "body"):
        opts = [v.strip() + "x", "x" + v.strip(), r.choice(WORDS) + "-" + r.choice(WORDS)]
        if v.swapcase() != v:
            opts.append(v.swapcase())
        return r.choice(opts)
    if f.kind == "bool":
        return not v
    if f.kind in ("int", "aint"):
        return v + r.choice([1, -1, 10])
    if f.kind in ("float", "afloat"):
        return other_number(v, r, exact=True)
    if f.kind in ("enum", "aenum"):
        return r.choice([e for e in ENUMS[f.enum] if e != v])
    if f.kind == "date":
        return other_date(v, r)
    raise AssertionError(f.kind)


def mutate(ast: dict, r: random.Random):
    """
    (changed copy, what was changed) or None.

    Inside polygons only coordinates, whole holes and the polygon's own values
    are touched: boundaries are compared by geometry.
    """
    inside = [p for p, a in walk(ast) if a["k"] == "Polygon"]
    spots = []
    for path, a in walk(ast):
        in_poly = any(path[:len(q)] == q and len(path) > len(q) for q in inside)
        for f in SPEC[a["k"]].fields:
            v = a["f"].get(f.attr)
            if f.kind == "coords":
                if v:
                    spots.append((path, f, "coord"))
                    if a["k"] == "LineString":
                        spots.append((path, f, "point"))
                continue
            if in_poly:
                continue
            if f.kind == "track":
                if v:
                    spots += [(path, f, "sample")] * 2
                continue
            if f.kind == "objs":
                if v:
                    spots.append((path, f, "drop"))
                    spots.append((path, f, "twice"))
                    if a["k"] not in ("Polygon", "Style") and len(v) > 1:
                        spots += [(path, f, "swap")] * 2
                continue
            if f.kind == "obj":
                if v is not None and not (a["k"] == "Polygon"):
                    spots.append((path, f, "remove"))
                continue
            if v is None:
                spots.append((path, f, "add"))
            else:
                spots += [(path, f, "change"), (path, f, "change"), (path, f, "remove")]
    r.shuffle(spots)
    # prefer what is set over what is not
    spots.sort(key=lambda s: s[2] == "add" and r.random() < 0.8)
    for path, f, how in spots:
        out = copy.deepcopy(ast)
        node = at(out, path)
        fields = node["f"]
        if how == "remove":
            if f.attr in Gen.REQUIRED.get(node["k"], ()) or f.attr in Gen.ALTERNATIVES.get(
                    node["k"], ()):
                continue
            del fields[f.attr]
        elif how == "add":
            fields[f.attr] = syst.plain(f, node["k"])
        elif how == "change":
            fields[f.attr] = other_scalar(f, fields[f.attr], r)
        elif how == "drop":
            v = fields[f.attr]
            if len(v) < 2 and f.attr in Gen.REQUIRED.get(node["k"], ()):
                continue
            del v[r.randrange(len(v))]
            if not v:
                del fields[f.attr]
        elif how == "twice":
            v = fields[f.attr]
            i = r.randrange(len(v))
            v.insert(i, copy.deepcopy(v[i]))
        elif how == "swap":
            v = fields[f.attr]
            i = r.randrange(len(v) - 1)
            if v[i] == v[i + 1]:
                continue
            if v[i]["k"] == v[i + 1]["k"] == "Polygon" or "InnerBoundaryIs" in (v[i]["k"],):
                continue
            if differs_only_inside_polygons(v[i], v[i + 1]):
                continue
            v[i], v[i + 1] = v[i + 1], v[i]
        elif how == "coord":
            v = fields[f.attr]
            idx = range(1, len(v) - 1) if node["k"] == "LinearRing" else range(len(v))
            if not idx:
                continue
            i = r.choice(idx)
            j = r.randrange(len(v[i]))
            v[i][j] = other_number(v[i][j], r)
        elif how == "point":
            v = fields[f.attr]
            i = r.randrange(len(v))
            v.insert(i, [other_number(x, r) for x in v[i]])
        elif how == "sample":
            v = fields[f.attr]
            i = r.randrange(len(v))
            c = r.randrange(4)
            if c == 0 and len(v) > 1:
                del v[i]
            elif c == 1:
                v[i]["when"] = other_date(v[i]["when"], r)
            elif c == 2 and v[i].get("angle") is not None:
                j = r.randrange(3)
                v[i]["angle"][j] = other_number(v[i]["angle"][j], r, exact=True)
            else:
                j = r.randrange(len(v[i]["coord"]))
                v[i]["coord"][j] = other_number(v[i]["coord"][j], r)
        return out, f"{how} {node['k']}.{f.attr}"
    return None


def differs_only_inside_polygons(a: dict, b: dict) -> bool:
    """Whether two subtrees could be the same but for what is inside polygons."""
    return blank(copy.deepcopy(a)) == blank(copy.deepcopy(b))


def blank(ast: dict) -> dict:
    for _, n in walk(ast):
        if n["k"] == "Polygon":
            n["f"].pop("outer_boundary", None)
            n["f"].pop("inner_boundaries", None)
        for f in SPEC[n["k"]].fields:
            v = n["f"].get(f.attr)
            # compared with a tolerance, or -0.0 == 0.0, or white space
            if f.kind == "coords" and v:
                n["f"][f.attr] = [[float(f"{x:.4g}") + 0.0 for x in c] for c in v]
            elif f.kind == "track" and v:
                n["f"][f.attr] = len(v)
            elif f.kind in ("text", "attr", "body") and v is not None:
                n["f"][f.attr] = v.strip()
    return ast

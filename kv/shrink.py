"""Smaller ASTs that stay inside the generator's domain."""
from __future__ import annotations

import copy
from typing import Any
from typing import Iterator

from kv.gen import Gen
from kv.model import at
from kv.model import walk
from kv.spec import SPEC
from kv.spec import present

# kinds the generator always makes complete
ALWAYS = ("Schema", "SimpleData", "SimpleField", "Alias", "Pair")
MIN_POINTS = {"Point": 1, "LineString": 2, "LinearRing": 4}


def replaced(ast: dict, path: tuple, value: Any) -> dict:
    if not path:
        return value
    out = copy.deepcopy(ast)
    node = at(out, path[:-1])
    if isinstance(node, list):
        node[path[-1]] = value
    else:
        node["f"][path[-1]] = value
    return out


def removable(node: dict, attr: str, incomplete: bool) -> bool:
    must = Gen.REQUIRED.get(node["k"], ()) if node["k"] not in Gen.ALTERNATIVES else \
        Gen.ALTERNATIVES[node["k"]]
    if attr not in must:
        return True
    if node["k"] in Gen.ALTERNATIVES:
        if sum(a in node["f"] for a in must) > 1:
            return True
    return incomplete and node["k"] not in ALWAYS


def scalars(v: Any, kind: str) -> Iterator[Any]:
    if isinstance(v, str):
        if kind in ("enum", "aenum"):
            return
        for c in ("a", v[: len(v) // 2].strip(), v.strip(), v[1:].strip(), v[:-1].strip()):
            if c and c != v and len(c) <= len(v):
                yield c
    elif isinstance(v, bool):
        return
    elif isinstance(v, (int, float)):
        for c in (0.0, 1.0, float(int(v)) if abs(v) < 1e15 else 1.0, round(v, 3)):
            if c != v:
                yield int(c) if isinstance(v, int) else c


def list_cuts(n: int) -> Iterator[tuple[int, int]]:
    size = n // 2
    while size:
        for i in range(0, n, size):
            yield i, min(n, i + size)
        size //= 2


def ast_shrinks(ast: dict, *, hoist=True, incomplete=True) -> Iterator[dict]:
    if hoist:
        subs = sorted((a for p, a in walk(ast) if p), key=lambda a: len(str(a)))
        yield from (copy.deepcopy(a) for a in subs)
    nodes = list(walk(ast))
    for path, node in nodes:
        for f in SPEC[node["k"]].fields:
            if f.attr in node["f"] and removable(node, f.attr, incomplete):
                out = copy.deepcopy(ast)
                del at(out, path)["f"][f.attr]
                yield out
    for path, node in nodes:
        for f in SPEC[node["k"]].fields:
            v = node["f"].get(f.attr)
            if v is None:
                continue
            if f.kind in ("objs", "track"):
                for i, j in list_cuts(len(v)):
                    rest = v[:i] + v[j:]
                    if rest:
                        yield replaced(ast, (*path, f.attr), copy.deepcopy(rest))
            elif f.kind == "coords":
                lo = MIN_POINTS[node["k"]]
                pts = v[:-1] if node["k"] == "LinearRing" else v
                for i, j in list_cuts(len(pts)):
                    rest = pts[:i] + pts[j:]
                    if node["k"] == "LinearRing" and rest:
                        rest = rest + [rest[0]]
                    if len(rest) >= lo:
                        yield replaced(ast, (*path, f.attr), copy.deepcopy(rest))
                if node["k"] != "LinearRing":
                    for i, c in enumerate(v):
                        for j, x in enumerate(c):
                            for y in scalars(x, "float"):
                                pts = copy.deepcopy(v)
                                pts[i][j] = y
                                yield replaced(ast, (*path, f.attr), pts)
    for path, node in nodes:
        for f in SPEC[node["k"]].fields:
            v = node["f"].get(f.attr)
            if v is None or f.kind in ("obj", "objs", "coords"):
                continue
            if f.kind == "track":
                for i, item in enumerate(v):
                    for key in ("coord", "angle"):
                        for j, x in enumerate(item[key] or ()):
                            for y in scalars(x, "float"):
                                new = copy.deepcopy(v)
                                new[i][key][j] = y
                                yield replaced(ast, (*path, f.attr), new)
                continue
            for y in scalars(v, f.kind):
                yield replaced(ast, (*path, f.attr), y)


def case_shrinks(case: dict, key: str = "ast", **kw) -> Iterator[dict]:
    for a in ast_shrinks(case[key], **kw):
        if not kw.get("incomplete", True) and not present(a):
            continue
        yield {**case, key: a}

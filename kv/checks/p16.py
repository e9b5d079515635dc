"""Editing an object tree does what it says, there and nowhere else."""
import copy

from kv import gen
from kv import model
from kv import syst
from kv.common import need
from kv.common import reading
from kv.common import same
from kv.errors import Violation
from kv.mutate import other_scalar
from kv.shrink import ast_shrinks
from kv.shrink import removable
from kv.spec import SPEC
from kv.spec import present

ID = "P16"
COUNTS = {"quick": 24000, "thorough": 1200000}
RULE = ("A random history of edits on two independent object trees: attributes and children are "
        "set, unset, replaced, appended (append methods or lists), inserted, removed, reversed, "
        "moved to another parent; single positions and track samples are "
        "replaced, inserted and removed, date-times changed in place; the trees may be twins read from "
        "the same text; a prefix is added to an object's table of namespaces; "
        "trees are written and read back in between; lists and "
        "dictionaries handed to constructors are changed by the caller afterwards; a container is "
        "appended to itself. After every step both trees are compared with their models, through "
        "attributes and through the written text. Non-trivial: at least three effective steps.")
ASSUMPTIONS = [
    "setting an attribute is judged by what is written and read, so surrounding white space is "
    "not significant",
]
METHOD = {("KML", "features"): "append", ("Document", "features"): "append",
          ("Folder", "features"): "append", ("Schema", "fields"): "append",
          ("SchemaData", "data"): "append_data"}


# -- generation -----------------------------------------------------------
def make(r, i):
    roots = []
    for _ in range(2):
        g = gen.Gen(r, pad=False, size=r.choice([4, 8, 15, 25]), incomplete=0.0)
        g.density = min(g.density, 0.3)
        roots.append(g.ast(r.choice(["KML", "Document", "Folder", "Placemark", gen.top_kind(r)])))
    ops = []
    if r.random() < 0.3:  # twins, read from the same text
        roots[1] = copy.deepcopy(roots[0])
        ops = [{"op": "reread", "root": 0}, {"op": "reread", "root": 1}]
    m = copy.deepcopy(roots)
    for _ in range(r.choice([2, 4, 6, 10, 16])):
        op = step(r, m)
        if op is not None:
            after = copy.deepcopy(m)
            apply_ast(after, op)
            if complete(after):
                ops.append(op)
                m = after
    return {"roots": roots, "ops": ops, "every": r.random() < 0.5}


def systematic():
    """Lists that grow long, one member at a time."""
    for (kind, attr), by in METHOD.items():
        f = next(f for f in SPEC[kind].fields if f.attr == attr)
        for how in ("method", "list"):
            for n in (40, 140):
                yield {"roots": [syst.minimal(kind), syst.minimal("Placemark")],
                       "ops": [{"op": "append", "root": 0, "path": [], "kind": kind, "attr": attr,
                                "by": how, "value": syst.numbered(f.of[0], i)} for i in range(n)],
                       "every": False}


def complete(m):
    """Elements that lack required content are the subject of other properties."""
    return all(present(a) for root in m for p, a in model.walk(root) if p)


def step(r, m):
    root = r.randrange(2)
    c = r.random()
    if c < 0.06:
        return {"op": "reread", "root": root}
    nodes = list(model.walk(m[root]))
    path, node = r.choice(nodes)
    if c < 0.09:
        return {"op": "spaces", "root": root, "path": list(path), "kind": node["k"]}
    fields = SPEC[node["k"]].fields
    shapes = [(p, n) for p, n in nodes if "coords" in n["f"] or "track_items" in n["f"]]
    if shapes and r.random() < 0.25:
        path, node = r.choice(shapes)
        fields = [f for f in SPEC[node["k"]].fields if f.kind in ("coords", "track")]
    if not fields:
        return None
    g = gen.Gen(r, pad=False, size=r.choice([1, 3, 6]), incomplete=0.0)
    g.density = min(g.density, 0.3)
    base = {"root": root, "path": list(path), "kind": node["k"]}
    if c < 0.12:
        boxes = [(p, n) for p, n in nodes if n["k"] in ("Document", "Folder")]
        if boxes:
            p, _ = r.choice(boxes)
            return {"op": "self", "root": root, "path": list(p)}
    if c < 0.25:
        # a list or dictionary the caller goes on using
        lists = [(p, n, f) for p, n in nodes for f in SPEC[n["k"]].fields if f.kind == "objs"]
        if lists:
            p, n, f = r.choice(lists)
            if p:
                return {"op": "rebuild", "root": root, "path": list(p),
                        "value": g.ast(n["k"], 3), "then": r.choice(["clear", "append", "dict"])}
    if c < 0.33 and len(nodes) > 1:
        spots = [(p, n) for p, n in nodes if p and isinstance(p[-1], int)]
        if spots:
            p, n = r.choice(spots)
            dest = [(x, q, f) for x in range(2) for q, a in model.walk(m[x])
                    for f in SPEC[a["k"]].fields
                    if f.kind == "objs" and n["k"] in f.of and a["k"] != "Style"
                    and not (x == root and q[:len(p)] == p)]
            if dest:
                x, q, f = r.choice(dest)
                return {"op": "move", "root": root, "path": list(p), "kind": n["k"],
                        "to": [x, list(q), f.attr]}
    f = r.choice(fields)
    base["attr"] = f.attr
    if f.kind == "objs":
        v = node["f"].get(f.attr, [])
        c = r.random()
        if c < 0.45 or not v:
            sub = g.pick(f, 3, True)
            if node["k"] == "Style" and any(x["k"] == sub["k"] for x in v):
                return None
            if r.random() < 0.6:
                return {"op": "append", **base, "value": sub, "by": r.choice(["method", "list", "iadd"])}
            return {"op": "insert", **base, "value": sub, "at": r.randint(0, len(v))}
        if c < 0.65:
            return {"op": "pop", **base, "at": r.randrange(len(v))}
        if c < 0.8:
            return {"op": "reverse", **base}
        sub = g.pick(f, 3, True)
        if node["k"] == "Style":
            return None
        return {"op": "assign", **base, "value": [sub, *v[:r.randint(0, len(v))]]}
    old = node["f"].get(f.attr)
    if old is not None and r.random() < 0.25 and removable(node, f.attr, incomplete=True):
        return {"op": "set", **base, "value": None}
    if f.kind in ("coords", "track") and old and r.random() < 0.6:
        return item_step(r, g, f, old, base)
    if f.kind == "coords":
        v = g.coords_for(node["k"])
    elif f.kind == "track":
        v = g.track_items()
    elif f.kind == "obj":
        v = g.pick(f, 3, True)
    elif old is not None and r.random() < 0.5:
        v = other_scalar(f, old, r)
    else:
        v = g.scalar(f)
    if f.kind == "date" and old is not None and r.random() < 0.5:
        return {"op": "set", **base, "value": v, "inside": True}
    return {"op": "set", **base, "value": v}


def item_step(r, g, f, old, base):
    """One position of a geometry or one sample of a track is changed in place."""
    if f.kind == "track":
        how = r.choice(["set", "set", "pop", "insert", "append", "reverse"])
        v = g.track_items()[0]
    else:
        how = {"Point": ["set"], "LineString": ["set", "pop", "insert", "append", "reverse"],
               "LinearRing": ["inner", "inner", "reverse"]}[base["kind"]]
        how = r.choice(how)
        v = g.coord(len(old[0]))
    at = r.randrange(len(old))
    if how == "inner":
        how, at = "set", min(max(1, at), len(old) - 2)
    if at < 0 or (how == "pop" and len(old) <= (1 if f.kind == "track" else 2)):
        return None
    return {"op": "item", **base, "how": how, "at": at, "value": v}


def edit_list(lst, how, at, v):
    if at >= len(lst):
        raise Stale
    if how == "set":
        lst[at] = v
    elif how == "pop":
        lst.pop(at)
    elif how == "insert":
        lst.insert(at, v)
    elif how == "append":
        lst.append(v)
    else:
        lst.reverse()


class Stale(Exception):
    """An operation that no longer applies (while shrinking)."""


def node_at(m, root, path):
    try:
        node = model.at(m[root], tuple(path))
    except (KeyError, IndexError, TypeError):
        raise Stale from None
    if not isinstance(node, dict):
        raise Stale
    return node


def apply_ast(m, op):
    """The model's side of an operation."""
    o, root = op["op"], op["root"]
    if o == "spaces" and node_at(m, root, op["path"])["k"] != op["kind"]:
        raise Stale
    if o in ("reread", "self", "spaces"):
        if o == "self" and node_at(m, root, op["path"])["k"] not in ("Document", "Folder"):
            raise Stale
        return
    path = op["path"]
    node = node_at(m, root, path)
    if node["k"] != (op["value"]["k"] if o == "rebuild" else op["kind"]):
        raise Stale  # reading back has put something else here
    if o == "rebuild":
        if not path:
            raise Stale
        parent = model.at(m[root], tuple(path[:-1]))
        target = parent if isinstance(parent, list) else parent["f"]
        if path[-1] not in target and not isinstance(parent, list):
            raise Stale
        target[path[-1]] = copy.deepcopy(op["value"])
        return
    if o == "move":
        x, q, attr = op["to"]
        dest = node_at(m, x, q)
        f = field(dest, attr)
        if f.kind != "objs" or node["k"] not in f.of or (x == root and q[:len(path)] == path):
            raise Stale
        lst = model.at(m[root], tuple(path[:-1]))
        if not isinstance(lst, list):
            raise Stale
        item = lst.pop(path[-1])
        dest["f"].setdefault(attr, []).append(item)
        return
    f = field(node, op["attr"])
    if o == "set":
        if op["value"] is None:
            node["f"].pop(f.attr, None)
        else:
            node["f"][f.attr] = copy.deepcopy(op["value"])
        return
    if o == "item":
        lst = node["f"].get(f.attr) or []
        if op["how"] == "pop" and len(lst) < (2 if f.kind == "track" else 3):
            raise Stale
        if f.kind == "coords" and lst and len(lst[0]) != len(op["value"]):
            raise Stale
        edit_list(lst, op["how"], op["at"], copy.deepcopy(op["value"]))
        return
    lst = node["f"].setdefault(f.attr, [])
    if o == "append":
        lst.append(copy.deepcopy(op["value"]))
    elif o == "insert":
        lst.insert(op["at"], copy.deepcopy(op["value"]))
    elif o == "pop":
        if op["at"] >= len(lst):
            raise Stale
        lst.pop(op["at"])
    elif o == "reverse":
        lst.reverse()
    elif o == "assign":
        node["f"][f.attr] = copy.deepcopy(op["value"])


def field(node, attr):
    for f in SPEC[node["k"]].fields:
        if f.attr == attr:
            return f
    raise Stale


def obj_at(o, path):
    for p in path:
        o = o[p] if isinstance(p, int) else getattr(o, p)
    return o


def value_of(f, v):
    from fastkml.geometry import Coordinates

    if v is None:
        return None
    if f.kind == "coords":
        return Coordinates(coords=model.tup(v))
    if f.kind == "track":
        return [model.build_track_item(i) for i in v]
    return model.build_value(f, v)


def apply_obj(objs, op, m):
    """The library's side of an operation (m: the model before it)."""
    o, root = op["op"], op["root"]
    if o == "reread":
        objs[root] = type(objs[root]).from_string(objs[root].to_string())
        return
    target = obj_at(objs[root], op["path"])
    if o == "spaces":
        spaces(objs, target, m)
        return
    if o == "self":
        try:
            target.append(target)
        except ValueError:
            return
        raise Violation("appended to itself", type(target).__name__)
    if o == "rebuild":
        new = caller_data(op)
        parent = obj_at(objs[root], op["path"][:-1])
        if isinstance(op["path"][-1], int):
            parent[op["path"][-1]] = new
        else:
            setattr(parent, op["path"][-1], new)
        return
    if o == "move":
        x, q, attr = op["to"]
        dest = obj_at(objs[x], q)
        lst = obj_at(objs[root], op["path"][:-1])
        item = lst.pop(op["path"][-1])
        need(item is target, "list member changed")
        method(dest, attr, item, "method")
        return
    node = node_at(m, root, op["path"])
    f = field(node, op["attr"])
    if o == "set":
        v = value_of(f, op["value"])
        if f.kind == "track" and v is None:
            v = []
        now = getattr(target, f.attr, None)
        if op.get("inside") and now is not None:  # the date-time itself is changed
            now.dt, now.resolution = v.dt, v.resolution
            return
        setattr(target, "kml_coordinates" if f.kind == "coords" else f.attr, v)
        return
    if o == "item":
        if f.kind == "track":
            edit_list(target.track_items, op["how"], op["at"],
                      model.build_track_item(op["value"]))
            return
        coords = target.kml_coordinates.coords
        if not isinstance(coords, list):
            coords = target.kml_coordinates.coords = list(coords)
        edit_list(coords, op["how"], op["at"], tuple(op["value"]))
        return
    if o == "assign":
        setattr(target, f.attr, [model.build(c) for c in op["value"]])
        return
    lst = getattr(target, f.attr)
    if o == "append":
        method(target, f.attr, model.build(op["value"]), op["by"])
    elif o == "insert":
        lst.insert(op["at"], model.build(op["value"]))
    elif o == "pop":
        lst.pop(op["at"])
    elif o == "reverse":
        lst.reverse()


def spaces(objs, target, m):
    """A prefix is added to one object's own table of namespaces."""
    from fastkml import config

    before = dict(config.NAME_SPACES)
    key, uri = "kvx", "{http://example.com/kvx}"
    target.name_spaces[key] = uri
    try:
        for i in range(2):
            for path, _ in model.walk(m[i]):
                o = obj_at(objs[i], path)
                need(o is target or key not in o.name_spaces,
                     "namespaces of another object changed", type(o).__name__)
        need(key not in type(target)().name_spaces if type(target).__name__ != "Schema" else True,
             "namespaces of a new object changed")
        need(dict(config.NAME_SPACES) == before, "namespaces of the library changed")
    finally:
        target.name_spaces.pop(key, None)
        config.NAME_SPACES.pop(key, None)


def method(target, attr, item, by):
    name = METHOD.get((model.kind_of(target), attr))
    if by == "method" and name:
        getattr(target, name)(item)
    elif by == "iadd":
        lst = getattr(target, attr)
        lst += [item]
    else:
        getattr(target, attr).append(item)
    need(getattr(target, attr)[-1] is item, "not the object that was appended", attr)


def caller_data(op):
    """Build an element from the caller's own lists and dictionary, then change those."""
    ast = op["value"]
    k = SPEC[ast["k"]]
    kw = {}
    for f in k.fields:
        if f.attr not in ast["f"]:
            if f.kind == "objs":
                kw[f.attr] = []
            continue
        v = ast["f"][f.attr]
        if f.kind == "coords":
            kw["kml_coordinates"] = value_of(f, v)
        elif f.kind == "track":
            kw[f.attr] = value_of(f, v)
        else:
            kw[f.attr] = model.build_value(f, v)
    spaces = {}
    new = model.cls_of(ast["k"])(name_spaces=spaces, **kw)
    for f in k.fields:
        v = kw.get(f.attr)
        if f.kind == "obj":
            need(getattr(new, f.attr) is v, "not the object that was given", f.attr)
        if f.kind == "objs" and v is not None:
            need([*map(id, getattr(new, f.attr))] == [*map(id, v)],
                 "not the objects that were given", f.attr)
        if f.kind not in ("objs", "track") or v is None:
            continue
        if op["then"] == "append" and f.kind == "objs":
            v.append(model.build(gen_minimal(f)))
        else:
            v.clear()
    spaces["kml"] = "{http://example.com/changed}"
    return new


def gen_minimal(f):
    from kv import syst

    return syst.minimal(f.of[0])


def check(objs, m, what, write):
    for i in range(2):
        same(model.norm(m[i], grouped=False), model.norm(model.extract(objs[i]), grouped=False),
             f"tree after {what}")
        if write:
            want = model.norm(m[i], drop_absent=True, grouped=False)
            got = reading(objs[i].to_string(), m[i]["k"])
            same(want, model.norm(got, grouped=False), f"text after {what}")


def run(case, cov):
    m = copy.deepcopy(case["roots"])
    objs = [model.build(a) for a in m]
    check(objs, m, "construction", write=True)
    done = 0
    for n, op in enumerate(case["ops"]):
        before = copy.deepcopy(m)
        try:
            apply_ast(m, op)
        except Stale:
            m = before
            continue
        if not complete(m):
            m = before
            continue
        apply_obj(objs, op, before)
        if op["op"] == "reread":
            x = op["root"]
            same(model.norm(before[x], drop_absent=True), model.norm(model.extract(objs[x])),
                 "read back")
            m[x] = model.extract(objs[x])
        done += 1
        cov.hit(op["op"])
        check(objs, m, op["op"], write=case["every"] or n == len(case["ops"]) - 1)
    cov.nontrivial(done >= 3)


def shrinks(case):
    for i in range(len(case["ops"])):
        yield {**case, "ops": case["ops"][:i] + case["ops"][i + 1:]}
    for i in range(2):
        small = {"k": "Folder", "f": {}}
        if case["roots"][i] != small and all(o["root"] != i and o.get("to", [1 - i])[0] != i
                                             for o in case["ops"]):
            roots = list(case["roots"])
            roots[i] = small
            yield {**case, "roots": roots}
        for a in ast_shrinks(case["roots"][i], hoist=False, incomplete=False):
            roots = list(case["roots"])
            roots[i] = a
            yield {**case, "roots": roots}
    for i, op in enumerate(case["ops"]):
        if isinstance(op.get("value"), dict) and "k" in op["value"]:
            for a in ast_shrinks(op["value"], hoist=False, incomplete=False):
                yield {**case, "ops": [*case["ops"][:i], {**op, "value": a}, *case["ops"][i + 1:]]}

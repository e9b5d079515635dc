"""The samples of a track stay together."""
import copy
import random

from kv import gen
from kv import model
from kv.checks.p12 import of_ast
from kv.checks.p12 import seen
from kv.common import need
from kv.common import reading
from kv.common import same
from kv.errors import Violation
from kv.model import Node
from kv.model import date_text
from kv.model import render

ID = "P15"
COUNTS = {"quick": 50000, "thorough": 2500000}
RULE = ("Times, coordinates and angles of random number (equal or not) are turned into a track: "
        "from samples, from parallel sequences or iterators, or from text in which the three kinds "
        "of element are in blocks, interleaved or mixed at random (inside a placemark, multi-track "
        "or alone). Then samples are appended, inserted, removed, replaced or reordered; after "
        "every step the samples, the three views of them and the written text are compared with a "
        "list of triples. Non-trivial: at least two samples.")
ASSUMPTIONS = [
    "a time without coordinates or coordinates without a time make no sample",
    "a sample without angle reads as (0, 0, 0); angles are written for all samples or none",
]
HOW = ["items", "lists", "iterators", "tuples", "text", "text", "text"]
LAYOUT = ["blocks", "interleaved", "random", "blocks2"]


def make(r, i):
    g = gen.Gen(r)
    how = r.choice(HOW)
    n = r.choice([0, 1, 2, 2, 3, 3, 4, 5, 8, 20 if r.random() < 0.9 else 150])
    short = r.random() < 0.3 and how != "items"
    m = r.randint(0, n + 2) if short else n
    k = r.choice([0, n, n, r.randint(0, n + 2)])
    dims = r.choice([2, 3, 0])

    def coord():
        return g.coord(dims or r.choice([2, 3]))

    def angle():
        c = r.random()
        return [0.0, 0.0, 0.0] if c < 0.15 else [float(g.float()) for _ in range(3)]

    ops = []
    for _ in range(r.choice([0, 0, 1, 2, 4])):
        ops.append([r.choice(["append", "insert", "pop", "reverse", "replace", "clear", "sort"]),
                    r.randrange(100), {"when": g.date(), "coord": coord(),
                                       "angle": angle() if r.random() < 0.6 else None}])
    angles = [angle() for _ in range(k)]
    if angles and r.random() < 0.15:  # one sample only has an angle
        one = r.randrange(k)
        angles = [a if i == one else [0.0] * 3 for i, a in enumerate(angles)]
    return {"how": how, "layout": r.choice(LAYOUT), "bare": r.random() < 0.5, "seed": r.getrandbits(32),
            "whens": [g.date() for _ in range(n)], "coords": [coord() for _ in range(m)],
            "angles": angles, "ops": ops,
            "where": r.choice(["alone", "placemark", "multi"]), "strict": r.random() < 0.5,
            "extra": r.random() < 0.3, "copies": r.choice([1, 1, 2, 3])}


def systematic():
    def base(n):
        return ([{"d": [f"2020-01-{i + 1:02}T00:00:00+00:00", "dateTime"]} for i in range(n)],
                [[float(i), -float(i), 10.0 * i] for i in range(n)],
                [[float(i), i + 0.5, -float(i)] for i in range(n)])

    for how in sorted(set(HOW)):
        for lay in LAYOUT:
            for n, m, k in ((0, 0, 0), (1, 1, 0), (1, 1, 1), (3, 3, 3), (3, 2, 3), (2, 3, 3),
                            (3, 3, 2), (3, 3, 5), (3, 0, 3), (0, 3, 0), (12, 12, 12), (27, 27, 27)):
                if how == "items" and (n != m or k not in (0, n)):
                    continue
                if how == "items" and n:
                    for one in range(n):
                        yield {"how": how, "layout": lay, "seed": 1, "whens": base(n)[0],
                               "coords": base(m)[1], "ops": [], "where": "alone", "strict": True,
                               "extra": False, "copies": 1, "bare": True, "angles": [
                                   [0.0, 45.0, 0.0] if i == one else [0.0] * 3 for i in range(n)]}
                for where in ("alone", "placemark", "multi"):
                    yield {"how": how, "layout": lay, "seed": 1, "whens": base(n)[0],
                           "coords": base(m)[1], "angles": base(k)[2], "ops": [],
                           "where": where, "strict": True, "extra": False, "copies": 1 + n % 3}


def text_of(case, track_nodes):
    t = Node("gx", "Track")
    t.kids = track_nodes
    if case["extra"]:
        e = Node("kml", "ExtendedData")
        d = Node("kml", "Data")
        d.attrs.append(["name", "n", None])
        d.kids.append(Node("kml", "value", "v"))
        e.kids.append(d)
        t.kids = [*t.kids, e]
    top = t
    if case["where"] == "multi":
        top = Node("gx", "MultiTrack")
        top.kids = [t]
    elif case["where"] == "placemark":
        top = Node("kml", "Placemark")
        top.kids = [t]
    return render(top, prefix=model.PREFIX)


def nodes(case):
    w = [Node("kml", "when", date_text(x)) for x in case["whens"]]
    c = [Node("gx", "coord", " ".join(map(repr, x))) for x in case["coords"]]
    a = [Node("gx", "angles", " ".join(map(repr, x))) for x in case["angles"]]
    lay = case["layout"]
    if lay == "blocks":
        return w + c + a
    if lay == "blocks2":
        return a + c + w
    out = []
    if lay == "interleaved":
        for i in range(max(len(w), len(c), len(a))):
            out += [x[i] for x in (w, c, a) if i < len(x)]
        return out
    order = [w] * len(w) + [c] * len(c) + [a] * len(a)
    random.Random(case["seed"]).shuffle(order)
    its = {id(x): iter(x) for x in (w, c, a)}
    return [next(its[id(x)]) for x in order]


def expected(case):
    out = []
    for i, (w, c) in enumerate(zip(case["whens"], case["coords"])):
        ang = case["angles"][i] if i < len(case["angles"]) else [0.0, 0.0, 0.0]
        out.append({"when": w, "coord": c, "angle": ang})
    return out


def construct(case):
    from fastkml import Placemark
    from fastkml.gx import MultiTrack
    from fastkml.gx import Track

    how = case["how"]
    if how == "text":
        cls = {"alone": Track, "multi": MultiTrack, "placemark": Placemark}[case["where"]]
        obj = cls.from_string(text_of(case, nodes(case)), strict=case["strict"])
        if case["where"] == "multi":
            need(len(obj.tracks) == bool(expected(case)), "number of tracks",
                 f"{len(obj.tracks)} for {len(expected(case))} samples")
            return obj.tracks[0] if obj.tracks else None
        if case["where"] == "placemark":
            need(isinstance(obj.kml_geometry, Track), "placemark without its track")
            return obj.kml_geometry
        return obj
    if how == "items":
        items = copy.deepcopy(expected(case))
        for i in items:
            if case.get("bare") and not any(i["angle"]):
                i["angle"] = None
        return Track(track_items=[model.build_track_item(i) for i in items])
    whens = [model.build_date(w) for w in case["whens"]]
    coords = [tuple(c) for c in case["coords"]]
    angles = [tuple(c) for c in case["angles"]]
    wrap = {"lists": list, "tuples": tuple, "iterators": iter}[how]
    kw = {}
    if whens:
        kw["whens"] = wrap(whens)
    if coords:
        kw["coords"] = wrap(coords)
    if angles:
        kw["angles"] = wrap(angles)
    return Track(**kw)


def canon(items):
    return model.norm({"k": "Track", "f": {"track_items": items}})


def agree(track, want, what):
    """Samples, views and output all show the same triples."""
    from fastkml.gx import Track

    got = model.extract(track)
    got["f"] = {k: v for k, v in got["f"].items() if k == "track_items"}
    same(canon(want), model.norm(got), "samples " + what)
    need(bool(track) == bool(want), "truth of the track", what)
    for name in ("whens", "coords", "angles"):
        need(type(getattr(track, name)) is tuple, "not a tuple", f"{name} {what}")
    need([model.canon_date(model.extract_date(w)) for w in track.whens]
         == [model.canon_date(i["when"]) for i in want], "times", what)
    need([list(c) for c in track.coords] == [list(i["coord"]) for i in want], "coordinates", what)
    angles = [list(c) for c in track.angles]
    expect = [i["angle"] or [0.0, 0.0, 0.0] for i in want]
    zero = all(a == [0.0, 0.0, 0.0] for a in expect)
    need(angles == expect or (zero and not angles), "angles",
         lambda: f"{what}: expected {expect}, got {angles}"[:300])
    text = track.to_string()
    back = reading(text, "Track")
    back["f"].pop("extended_data", None)
    same(canon(want), model.norm(back), "written samples " + what)
    again = model.extract(Track.from_string(text))
    again["f"].pop("extended_data", None)
    same(canon(want), model.norm(again), "samples read back " + what)


def run(case, cov):
    track = construct(case)
    want = expected(case)
    cov.hit(case["how"])
    cov.nontrivial(len(want) >= 2)
    if len(case["whens"]) != len(case["coords"]):
        cov.hit("unequal")
    if track is None:
        return
    agree(track, want, "at first")
    if case["how"] == "text" and case["extra"]:
        need(track.extended_data is not None and [e.name for e in track.extended_data.elements]
             == ["n"], "extended data of the track")
    if case["whens"] and case["coords"]:
        refuse(case, want)
    if case["where"] == "multi":
        several(case, track, want, cov)
    want = copy.deepcopy(want)
    for op, i, item in case["ops"]:
        items = track.track_items
        if op == "append":
            items.append(model.build_track_item(item))
            want.append(item)
        elif op == "insert":
            i %= len(want) + 1
            items.insert(i, model.build_track_item(item))
            want.insert(i, item)
        elif op == "pop" and want:
            items.pop(i % len(want))
            want.pop(i % len(want))
        elif op == "replace" and want:
            items[i % len(want)] = model.build_track_item(item)
            want[i % len(want)] = item
        elif op == "reverse":
            items.reverse()
            want.reverse()
        elif op == "clear":
            track.track_items = []
            want = []
        elif op == "sort":
            key = [str(w["coord"]) for w in want]
            order = sorted(range(len(want)), key=key.__getitem__)
            track.track_items = [items[j] for j in order]
            want = [want[j] for j in order]
        agree(track, want, "after " + op)
        cov.hit("op " + op)


def several(case, track, want, cov):
    """Tracks of a multi-track stay apart, equal or not."""
    from fastkml.gx import MultiTrack
    from fastkml.gx import Track

    back = list(reversed(want))
    parts = [want] * case.get("copies", 1) + [back, want]
    tracks = [Track(track_items=[model.build_track_item(i) for i in p]) for p in parts]
    tracks[-1] = track
    multi = MultiTrack(tracks=tracks, interpolate=bool(case["seed"] % 2))
    parts = [canon(p) for p in parts if p]
    text = multi.to_string()

    def items(ast):
        tracks = ast["f"].get("tracks", [])
        return [model.norm({"k": "Track", "f": {
            k: v for k, v in t["f"].items() if k == "track_items"}}) for t in tracks]

    same(parts, items(model.extract(multi)), "tracks")
    lines(parts, multi)
    same(parts, items(reading(text, "MultiTrack")), "tracks written")
    again = MultiTrack.from_string(text, strict=case["strict"])
    same(parts, items(model.extract(again)), "tracks read")
    cov.hit("tracks", len(parts))


def lines(parts, multi):
    """The geometry of a multi-track has one line for each of its tracks."""
    want = of_ast({"k": "MultiTrack", "f": {"tracks": parts}})
    got = multi.geometry
    if want is None:
        need(got is None or got.is_empty, "a geometry of nothing")
    else:
        same(want, seen(got), "geometry of the tracks")


def refuse(case, want):
    """Samples and sequences together are ambiguous."""
    from fastkml.gx import Track

    whens = [model.build_date(case["whens"][0])]
    coords = [tuple(case["coords"][0])]
    for kw in ({"whens": whens, "coords": coords}, {"whens": whens}, {"coords": coords}):
        try:
            Track(track_items=[model.build_track_item(want[0])], **kw)
        except ValueError:
            continue
        raise Violation("samples and sequences accepted together", str(list(kw)))


def shrinks(case):
    for i in range(len(case["ops"])):
        yield {**case, "ops": case["ops"][:i] + case["ops"][i + 1:]}
    for k, v in (("where", "alone"), ("extra", False), ("strict", True), ("layout", "blocks"),
                 ("angles", []), ("copies", 1)):
        if case.get(k, v) != v:
            yield {**case, k: v}
    n = max(len(case["whens"]), len(case["coords"]))
    for i in range(n):
        yield {**case, **{k: case[k][:i] + case[k][i + 1:] for k in ("whens", "coords", "angles")}}
    for k in ("whens", "coords", "angles"):
        if case["how"] != "items" and case[k]:
            yield {**case, k: case[k][:-1]}

"""Date-times keep their moment, offset and resolution."""
import datetime as dt
import os
import re
import time

from kv import gen
from kv import model
from kv.common import need
from kv.common import same
from kv.errors import Skip

ID = "P11"
COUNTS = {"quick": 250000, "thorough": 8000000}
RULE = ("Random years, months, days, times, fractions and offsets in every lexical form the KML "
        "date-time type allows, and random Python dates and datetimes with every resolution. "
        "Parsing, formatting, equality and the time accessors of features are compared with "
        "Python's own calendar; refused dates must be refused. Non-trivial: every case but plain "
        "midnight UTC.")
ASSUMPTIONS = ["a date-time without offset is UTC", "24:00:00 and leap seconds are left out"]
RES = ["gYear", "gYearMonth", "date", "dateTime"]
FEATURES = ["Placemark", "Folder", "Document", "GroundOverlay", "NetworkLink", "ScreenOverlay",
            "PhotoOverlay"]


ZONES = ["XXX-9", "YYY+03:30", "EST5EDT,M3.2.0,M11.1.0"]


def make(r, i):
    case = pick(r)
    if r.random() < 0.15:
        case["zone"] = r.choice(ZONES)
    return case


def pick(r):
    g = gen.Gen(r)
    c = r.random()
    if c < 0.35:
        return {"t": "text", "date": g.date(), "z": r.random() < 0.5, "frac": r.randint(0, 6)}
    if c < 0.6:
        kind = r.choice(["date", "dateTime"])
        return {"t": "make", "date": g.date(kind), "res": r.choice([None, *RES])}
    if c < 0.8:
        a = g.date()
        b = r.choice([a, g.date(), nudge(r, a), nudge(r, a), shift(r, a)])
        return {"t": "eq", "a": a, "b": b}
    if c < 0.9:
        y, m, d = r.randint(1, 9999), r.randint(0, 14), r.randint(0, 33)
        return {"t": "calendar", "ymd": [y, m, d], "time": [r.randint(0, 26), r.randint(0, 61),
                                                         r.randint(0, 61)],
                "form": r.choice(["date", "month", "dateTime", "compact"])}
    if c < 0.92:
        return {"t": "wrong", "date": g.date(r.choice(RES[:3])), "at": r.getrandbits(8),
                "how": r.randrange(5)}
    return {"t": "feature", "kind": r.choice(FEATURES),
            "times": r.choice([None, "TimeStamp", "TimeSpan"]),
            "dates": [g.date() if r.random() < 0.8 else None for _ in range(2)]}


def nudge(r, a):
    """A slightly different date."""
    iso, res = a["d"]
    if r.random() < 0.3:
        return {"d": [iso[:10] if res == "dateTime" else iso, r.choice(RES[:3])]}
    if res != "dateTime":
        d = dt.date.fromisoformat(iso)
        try:
            d += dt.timedelta(days=r.choice([-1, 1, 31, 366]))
        except OverflowError:
            return a
        return {"d": [d.isoformat(), res]}
    t = dt.datetime.fromisoformat(iso)
    try:
        t += dt.timedelta(microseconds=r.choice([-1, 1, 10**6, 60 * 10**6]))
    except OverflowError:
        return a
    return {"d": [t.isoformat(), res]}


def shift(r, a):
    """The same moment with another offset."""
    iso, res = a["d"]
    if res != "dateTime":
        return a
    t = dt.datetime.fromisoformat(iso)
    if t.tzinfo is None:
        return a
    try:
        t = t.astimezone(dt.timezone(dt.timedelta(minutes=r.randint(-600, 600))))
    except OverflowError:
        return a
    return {"d": [t.isoformat(), res]}


def content(x):
    return model.canon_date(model.extract_date(x))


def resolution(name):
    from fastkml.enums import DateTimeResolution

    return None if name is None else DateTimeResolution(name)


def run(case, cov):
    from fastkml.times import KmlDateTime

    cov.hit(case["t"])
    cov.nontrivial()
    zone = case.get("zone")
    if not zone:
        return globals()["run_" + case["t"]](case, cov, KmlDateTime)
    # the time zone of the machine has nothing to do with it
    before = os.environ.get("TZ")
    os.environ["TZ"] = zone
    time.tzset()
    cov.hit("zone " + zone)
    try:
        globals()["run_" + case["t"]](case, cov, KmlDateTime)
    finally:
        if before is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = before
        time.tzset()


def run_text(case, cov, cls):
    d = case["date"]
    text = model.date_text(d)
    if d["d"][1] == "dateTime":
        if case["z"]:
            text = text.replace("+00:00", "Z")
        m = re.fullmatch(r"(.*T\d\d:\d\d:\d\d)\.(\d{6})(.*)", text)
        if m and not m[2][case["frac"]:].strip("0"):
            f = m[2][:case["frac"]]
            text = m[1] + ("." + f if f else "") + m[3]
    x = cls.parse(text)
    need(isinstance(x, cls), "parse returns", repr(x))
    same(model.canon_date(d), content(x), "parsed " + text)
    need(bool(x), "parsed date is falsy", text)
    cov.hit("resolution " + d["d"][1])
    if d["d"][1] == "dateTime":
        need(isinstance(x.dt, dt.datetime) and x.dt.tzinfo is not None, "no time zone", text)
    else:
        need(type(x.dt) is dt.date, "not a date", text)
    again = str(x)
    same(model.canon_date(d), model.canon_date(strictly(again)), "written " + text)
    need(cls.parse(again) == x, "not equal after writing and reading", again)


def strictly(text):
    from kv.errors import Violation

    try:
        return model.read_date(text)
    except model.ReadError as e:
        raise Violation("not a KML date-time", str(e)) from e


def run_make(case, cov, cls):
    d = case["date"]
    py = model.py_date(d)
    res = case["res"]
    x = cls(py, resolution(res))
    want = res or d["d"][1]
    if want == "dateTime" and d["d"][1] == "date":
        want = "date"  # there is no time to show
    day = py.date() if isinstance(py, dt.datetime) else py
    if want == "gYear":
        day = day.replace(month=1, day=1)
    elif want == "gYearMonth":
        day = day.replace(day=1)
    exp = {"d": [d["d"][0] if want == "dateTime" else day.isoformat(), want]}
    same(model.canon_date(exp), content(x), "made")
    need(x.resolution.value == want, "resolution", f"{x.resolution} {want}")
    text = str(x)
    same(model.canon_date(exp), model.canon_date(strictly(text)), "written")
    if want != "dateTime":
        need(x.dt == day and not isinstance(x.dt, dt.datetime), "not cut to its resolution",
             repr(x.dt))
        need(cls.parse(text) == x, "not equal after writing and reading", text)
    else:
        need(x.dt == py and x.dt.utcoffset() == py.utcoffset(), "moment", repr(x.dt))
    cov.hit(f"{d['d'][1]} at {res}")


def run_eq(case, cov, cls):
    a, b = case["a"], case["b"]
    x, y = model.build_date(a), model.build_date(b)
    pa, pb = model.py_date(a), model.py_date(b)
    want = a["d"][1] == b["d"][1]
    if want:
        ca, cb = model.canon_date(a), model.canon_date(b)
        if a["d"][1] == "dateTime":
            if (pa.tzinfo is None) != (pb.tzinfo is None):
                raise Skip  # Python does not order these
            want = pa == pb
        else:
            want = ca == cb
    cov.hit(f"equal: {want}")
    need((x == y) is want and (y == x) is want and (x != y) is not want, "equality",
         lambda: f"{x!r} {y!r} expected {want}")
    need(x == model.build_date(a), "not equal to itself")
    need(x != str(x) and x != pa and x != None, "equal to something else")  # noqa: E711


def run_calendar(case, cov, cls):
    """Dates outside the calendar are refused, those inside are accepted."""
    y, m, d = case["ymd"]
    hh, mm, ss = case["time"]
    form = case["form"]
    text = {"date": f"{y:04}-{m:02}-{d:02}", "month": f"{y:04}-{m:02}",
            "compact": f"{y:04}{m:02}{d:02}",
            "dateTime": f"{y:04}-{m:02}-{d:02}T{hh:02}:{mm:02}:{ss:02}Z"}[form]
    if form == "dateTime" and (hh == 24 or ss >= 60):
        raise Skip
    try:
        day = dt.date(y, m, 1 if form == "month" else d)
        if form == "dateTime":
            want = dt.datetime(y, m, d, hh, mm, ss, tzinfo=dt.timezone.utc)
        else:
            want = day
    except ValueError:
        want = None
    try:
        got = cls.parse(text)
    except ValueError:
        got = None
    cov.hit("refused" if want is None else "accepted")
    need((got is None) is (want is None), "calendar", f"{text}: {got!r}")
    if got is not None:
        need(got.dt == want, "calendar", f"{text}: {got!r}")


def run_wrong(case, cov, cls):
    """Texts that are nearly dates."""
    text = model.date_text(case["date"])
    dashes = [i for i, c in enumerate(text) if c == "-"]
    how = case["how"]
    if how == 0:
        text += "-"
    elif how == 1:
        text = "-" + text
    elif how == 2 and dashes:
        i = dashes[case["at"] % len(dashes)]
        text = text[:i] + "-" + text[i:]
    elif how == 3 and dashes:
        text = text.replace("-", "--")
    elif how == 4:
        # an offset without a time: KML allows it, but it cannot be told
        text += ["Z", "+05:00", "-03:30", "+00:00", "+14:00", "z", " +01:00"][case["at"] % 7]
    else:
        raise Skip
    cov.hit(f"wrong {how}")
    try:
        got = cls.parse(text)
    except ValueError:
        return
    need(False, "no date but accepted", f"{text}: {got!r}")


def run_feature(case, cov, cls):
    """Features show the time stamp, or the ends of the time span, that they have."""
    a, b = case["dates"]
    fields = {}
    if case["times"] == "TimeStamp" and a:
        fields = {"timestamp": a}
    elif case["times"] == "TimeSpan":
        fields = {k: v for k, v in (("begin", a), ("end", b)) if v}
    ast = {"k": case["kind"], "f": {}}
    if case["times"]:
        ast["f"]["times"] = {"k": case["times"], "f": fields}
    for obj in (model.build(ast), model.cls_of(case["kind"]).from_string(model.write_ref(ast))):
        for name in ("time_stamp", "begin", "end"):
            got = getattr(obj, name)
            want = fields.get({"time_stamp": "timestamp"}.get(name, name))
            need((got is None) is (want is None), "accessor", f"{name}: {got!r} {want}")
            if want is not None:
                same(model.canon_date(want), content(got), "accessor " + name)


def shrinks(case):
    if case.get("zone"):
        yield {k: v for k, v in case.items() if k != "zone"}
    simple = [{"d": ["2000-01-01T00:00:00+00:00", "dateTime"]}, {"d": ["2000-01-01", "date"]}]
    for k in ("date", "a", "b"):
        if k in case:
            for s in simple:
                if case[k] != s:
                    yield {**case, k: s}
    if case["t"] == "feature":
        for i in range(2):
            if case["dates"][i] is not None:
                ds = list(case["dates"])
                ds[i] = None
                yield {**case, "dates": ds}
    for k, v in (("ymd", [2000, 1, 1]), ("time", [0, 0, 0])):
        if k in case:
            for i in range(3):
                if case[k][i] != v[i]:
                    x = list(case[k])
                    x[i] = v[i]
                    yield {**case, k: x}

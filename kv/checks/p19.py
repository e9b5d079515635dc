"""User-defined elements registered with the library behave like its own."""
import copy

from kv import gen
from kv import model
from kv import syst
from kv.common import need
from kv.common import same
from kv.spec import SPEC

ID = "P19"
COUNTS = {"quick": 60000, "thorough": 800000}
RULE = ("Random element classes are derived from the library's bases, from its elements and from "
        "each other (also from two, from plain mixins, or by a name that another class has), and random mappings (texts, numbers, truths, enums, dates, attributes, "
        "children and lists of children, with and without defaults or values on the class, with functions of "
        "the user's own, one per namespace, two elements for one value) are registered for them, in "
        "a random history in which instances are written and read between registrations, also "
        "for ancestors after descendants were used and for every element of the library's own and its abstract ancestors. Every "
        "round trip must give back all values, registered so far, at every verbosity; classes "
        "for which nothing was registered must write and read as before. Non-trivial: two classes "
        "or more and three registered values in one round trip.")
ASSUMPTIONS = ["registrations on the library's own classes are removed again after each case"]
BASES = ["xml", "base", "Placemark", "Style", "Folder", "Icon", "TimeStamp"]
FIELD_KINDS = ["text", "bool", "int", "float", "enum", "date", "attr", "aint", "afloat", "aenum",
               "obj", "objs", "kml", "kmls", "own"]
PRESETS = ("text", "bool", "int", "float", "attr", "aint", "afloat")
TWINS = ("text", "bool", "int", "float")
SECOND = ("text", "bool", "int", "float", "enum", "date")
INHERITED = {"Placemark": ("name", "P name"), "Style": ("id", "S"), "Folder": ("name", "F name"),
             "Icon": ("href", "i.png"), "TimeStamp": ("id", "T"), "base": ("id", "B")}


def make(r, i):
    g = gen.Gen(r, pad=False, cr=False)
    ops = []
    classes = []
    nf = 0

    def value(kind, cls):
        if kind in ("text", "attr", "own"):
            return r.choice(["x", "a < b & c", "Größe 日本", "1", "two words", "]]>"])
        if kind == "bool":
            return r.random() < 0.5
        if kind in ("int", "aint"):
            return r.choice([0, 1, -1, 7, 256, 10**9])
        if kind in ("float", "afloat"):
            return r.choice([0.0, 1.0, -1.5, 1e-7, 123.456, 1 / 3])
        if kind in ("enum", "aenum"):
            return r.choice(["absolute", "clampToGround", "relativeToGround"] if kind == "enum"
                            else ["fraction", "pixels", "insetPixels"])
        if kind == "date":
            return g.date()
        if kind == "kml":
            return r.choice(["one", "two"])
        if kind == "kmls":
            return [r.choice(["one", "two", "three"]) for _ in range(r.randint(1, 4))]
        raise AssertionError(kind)

    def instance(c, depth=0):
        fields = {}
        for op in ops:
            if op["op"] == "register" and op["cls"] in lineage(classes, c) and r.random() < 0.7:
                k = op["kind"]
                if k in ("obj", "objs"):
                    if depth >= 2:
                        continue
                    if k == "obj":
                        fields[op["attr"]] = instance(op["of"], depth + 1)
                    else:
                        fields[op["attr"]] = [instance(op["of"], depth + 1)
                                              for _ in range(r.randint(1, 3))]
                else:
                    v = value(k, c)
                    if "default" in op and r.random() < 0.3:
                        v = op["default"]
                    fields[op["attr"]] = v
        return {"c": c, "f": fields, "own": r.random() < 0.5}

    steps, most = r.choice([4, 8, 12, 20]), 5
    if r.random() < 0.01:
        steps, most = r.choice([(60, 5), (90, 1)])
    for _ in range(steps):
        c = r.random()
        if not classes or (c < 0.2 and len(classes) < most):
            base = r.choice(BASES) if not classes or r.random() < 0.6 else r.randrange(len(classes))
            also = None
            if isinstance(base, int) and r.random() < 0.4:
                others = [c for c in range(len(classes))
                          if c not in lineage(classes, base) and base not in lineage(classes, c)
                          and root_base(classes, c) in ("xml", "base")]
                if others and root_base(classes, base) in ("xml", "base"):
                    also = r.choice(others)
            classes.append(base if also is None else [base, also])
            ops.append({"op": "define", "base": classes[-1],
                        "ns": r.choice(["kml", "kml", "gx"]) if base in ("xml", "base") else None,
                        "mixin": r.random() < 0.2,
                        "named": r.choice(["base", "twin", *[None] * 4])})
        elif c < 0.65:
            kind = r.choice(FIELD_KINDS)
            nf += 1
            op = {"op": "register", "cls": r.randrange(len(classes)), "attr": f"field_{nf}",
                  "node": f"field{nf}", "kind": kind}
            if kind in ("obj", "objs"):
                op["of"] = r.randrange(len(classes))
            elif kind in ("bool", "int", "float", "enum", "text") and r.random() < 0.4:
                op["default"] = value(kind, None)
            if r.random() < 0.3:
                op["mixin"] = True
            if kind in PRESETS and "default" not in op and r.random() < 0.2:
                op["preset"] = value(kind, None)
            if kind in TWINS and r.random() < 0.25:
                op["twin"] = True
            elif kind in SECOND and r.random() < 0.25:
                op["second"] = f"other{nf}"
            ops.append(op)
        elif c < 0.7:
            ops.append({"op": "extend", "kind": r.choice(["Document", "Placemark", "KML", *SPEC]),
                        "of": r.randrange(len(classes)), "up": r.choice([0, 0, 0, 1, 2, 3, 4]),
                        "form": r.choice(["list", "list", "one", "text", "aint", "bool"])})
        else:
            ops.append({"op": "trip", "value": instance(r.randrange(len(classes))),
                        "verbosity": r.choice(["terse", "normal", "normal", "verbose"]),
                        "precision": r.choice([None, None, 3]), "strict": r.random() < 0.7})
    ops.append({"op": "trip", "value": instance(r.randrange(len(classes))), "verbosity": "normal",
                "precision": None, "strict": True})
    return {"ops": ops, "plain": gen.document(r, size=6, pad=False, cr=False)}


def lineage(classes, c):
    """The class and its user-defined ancestors."""
    out = [c]
    for b in classes[c] if isinstance(classes[c], list) else [classes[c]]:
        if isinstance(b, int):
            out += [x for x in lineage(classes, b) if x not in out]
    return out


def root_base(classes, c):
    while not isinstance(classes[c], str):
        c = classes[c][0] if isinstance(classes[c], list) else classes[c]
    return classes[c]


class Own:
    """A mapping with functions of the user's own, which look at what they are given."""

    def __init__(self, op, world):
        self.op, self.world = op, world
        self.cls = (str, int)

    def get(self, *, element, ns, name_spaces, node_name, kwarg, classes, strict):
        w, op = self.world, self.op
        need(node_name == op["node"] and kwarg == op["attr"] and classes == self.cls,
             "what a mapping is read with", f"{node_name} {kwarg} {classes}")
        need(strict is w.strict, "strictness given to a mapping", repr(strict))
        need(ns in ("{http://www.opengis.net/kml/2.2}", "{http://www.google.com/kml/ext/2.2}", "")
             and name_spaces["gx"] == "{http://www.google.com/kml/ext/2.2}",
             "namespaces given to a mapping", f"{ns} {name_spaces}")
        node = element.find(f"{ns}{node_name}")
        return {} if node is None else {kwarg: node.get("v")}

    def put(self, obj, *, element, attr_name, node_name, precision, verbosity, default):
        from fastkml import config

        w, op = self.world, self.op
        need(node_name == op["node"] and attr_name == op["attr"] and default == op.get("default"),
             "what a mapping is written with", f"{node_name} {attr_name} {default}")
        need(precision == w.precision and verbosity.name == w.verbosity,
             "options given to a mapping", f"{precision} {verbosity}")
        if getattr(obj, attr_name, None) is not None:
            config.etree.SubElement(element, f"{obj.ns}{node_name}").set(
                "v", getattr(obj, attr_name))


def nothing(obj, *, element, attr_name, node_name, precision, verbosity, default):
    """A mapping that is only for reading."""


class World:
    made = 0

    def __init__(self):
        self.bases = []
        self.cls = []
        self.mix = []
        self.named = set()  # classes with a name that others have too
        World.made += 1
        self.twin = f"Twin{World.made}"
        self.ns = []
        self.fields = []  # (class number, op)
        self.strict = True
        self.precision, self.verbosity = None, "normal"

    def define(self, op, n):
        from fastkml.base import _XMLObject
        from fastkml.kml_base import _BaseObject

        base = op["base"]
        more = ()
        if isinstance(base, list):
            base, also = base
            rival = [self.target(x) for x in self.known(also)]
            if any(self.target(x) in rival for x in self.known(base)
                   if self.target(x) is not None and x not in self.known(also)):
                pass  # both have a child mapping for the same element
            else:
                more = (self.cls[also],)
        mix = type(f"Mixin{World.made}", (), {}) if op.get("mixin") else None
        if isinstance(base, int):
            parent, ns = self.cls[base], self.ns[base]
        elif base == "xml":
            parent, ns = _XMLObject, op["ns"]
        elif base == "base":
            parent, ns = _BaseObject, op["ns"]
        else:
            parent, ns = model.cls_of(base), SPEC[base].ns
        World.made += 1
        name = f"Thing{World.made}"  # never used before in this process
        if op.get("named") == "base" and parent.__name__[0] != "_":
            name = parent.__name__
            self.named.add(len(self.cls))
        elif op.get("named") == "twin":
            name = self.twin
            self.named.add(len(self.cls))
        body = {"__module__": "kv_generated"}
        if base in ("xml", "base"):
            body["_default_nsid"] = ns
        try:
            made = type(name, (parent, *more, *([mix] if mix else [])), dict(body))
        except TypeError:  # no consistent order of inheritance
            more = ()
            made = type(name, (parent, *([mix] if mix else [])), body)
        self.cls.append(made)
        self.mix.append(mix)
        self.bases.append(op["base"] if more else base)
        if more:  # whichever base comes first in the order of inheritance
            ns = next(vars(c)["_default_nsid"] for c in self.cls[-1].__mro__
                      if "_default_nsid" in vars(c))
        self.ns.append(ns)

    @staticmethod
    def target(op):
        """Which element a child mapping is for."""
        if op["kind"] in ("obj", "objs"):
            return op["of"]
        return "kml" if op["kind"] in ("kml", "kmls") else None

    def known(self, c):
        line = lineage(self.bases, c)
        return [op for n, op in self.fields if n in line]

    def build(self, v):
        kw = {}
        for op in self.known(v["c"]):
            if op["attr"] in v["f"]:
                kw[op["attr"]] = self.value(op, v["f"][op["attr"]])
        kw.update(self.inherited(v))
        return self.cls[v["c"]](**kw)

    def inherited(self, v):
        base = root_base(self.bases, v["c"])
        out = {}
        if v["own"] and base in INHERITED:
            a, x = INHERITED[base]
            out[a] = x
        if base == "Style":
            from fastkml.styles import LineStyle
            out["styles"] = [LineStyle(width=2.0)]
        elif base == "Icon":
            out["href"] = "i.png"
        elif base == "TimeStamp":
            out["timestamp"] = model.build_date({"d": ["2020-01-02", "date"]})
        return out

    def value(self, op, v):
        from fastkml import Placemark
        from fastkml.enums import AltitudeMode
        from fastkml.enums import Units

        k = op["kind"]
        if k == "enum":
            return AltitudeMode(v)
        if k == "aenum":
            return Units(v)
        if k == "date":
            return model.build_date(v)
        if k == "obj":
            return self.build(v)
        if k == "objs":
            return [self.build(x) for x in v]
        if k == "kml":
            return Placemark(name=v)
        if k == "kmls":
            return [Placemark(name=x) for x in v]
        return v

    def default(self, op):
        from fastkml.enums import AltitudeMode

        d = op.get("default")
        return AltitudeMode(d) if op["kind"] == "enum" and d is not None else d

    def compare(self, v, got, verbosity, path=""):
        need(type(got) is self.cls[v["c"]], "class of what was read", lambda: f"{path} {got!r}"[:200])
        for a, x in self.inherited(v).items():
            if a == "styles":
                need([s.width for s in got.styles] == [2.0], "inherited children lost", path)
                continue
            need(getattr(got, a) == x, "inherited value lost", f"{path}.{a}: {getattr(got, a)!r}")
        known = {op["attr"] for op in self.known(v["c"])}
        need(not [a for a in vars(got) if a.startswith("field_") and a not in known],
             "value of another class", lambda: f"{path}: {sorted(vars(got))}")
        for op in self.known(v["c"]):
            a = op["attr"]
            g = getattr(got, a, None)
            w = v["f"].get(a, op.get("preset"))
            k = op["kind"]
            if w is None:
                d = op.get("default")
                if verbosity == "verbose" and d is not None:
                    need(g == self.default(op), "default not written", f"{path}.{a}: {g!r}")
                else:
                    need(g is None or g == [], "value from nowhere", f"{path}.{a}: {g!r}"[:200])
            elif k == "obj":
                need(g is not None, "child lost", f"{path}.{a}")
                self.compare(w, g, verbosity, f"{path}.{a}")
            elif k == "objs":
                need(isinstance(g, list) and len(g) == len(w), "children lost",
                     lambda: f"{path}.{a}: {g!r}"[:200])
                for n, (x, y) in enumerate(zip(w, g)):
                    self.compare(x, y, verbosity, f"{path}.{a}[{n}]")
            elif k == "kml":
                need(g is not None and g.name == w, "child lost", f"{path}.{a}")
            elif k == "kmls":
                need(g is not None and [x.name for x in g] == w, "children lost", f"{path}.{a}")
            elif k == "date":
                need(g is not None and model.canon_date(model.extract_date(g))
                     == model.canon_date(w), "date lost", f"{path}.{a}: {g!r}")
            elif verbosity == "terse" and w == op.get("default"):
                need(g is None, "default value written tersely", f"{path}.{a}: {g!r}")
            else:
                want = self.value(op, w)
                need(g == want and type(g) is type(want), "value lost",
                     f"{path}.{a}: {want!r} read as {g!r}")


def items(op, world):
    """The registry items of a register operation."""
    from fastkml import Placemark
    from fastkml import helpers as h
    from fastkml.enums import AltitudeMode
    from fastkml.enums import Units
    from fastkml.registry import RegistryItem
    from fastkml.times import KmlDateTime

    table = {
        "text": (str, h.subelement_text_kwarg, h.text_subelement),
        "bool": (bool, h.subelement_bool_kwarg, h.bool_subelement),
        "int": (int, h.subelement_int_kwarg, h.int_subelement),
        "float": (float, h.subelement_float_kwarg, h.float_subelement),
        "enum": (AltitudeMode, h.subelement_enum_kwarg, h.enum_subelement),
        "date": (KmlDateTime, h.datetime_subelement_kwarg, h.datetime_subelement),
        "attr": (str, h.attribute_text_kwarg, h.text_attribute),
        "aint": (int, h.attribute_int_kwarg, h.int_attribute),
        "afloat": (float, h.attribute_float_kwarg, h.float_attribute),
        "aenum": (Units, h.attribute_enum_kwarg, h.enum_attribute),
        "obj": (None, h.xml_subelement_kwarg, h.xml_subelement),
        "objs": (None, h.xml_subelement_list_kwarg, h.xml_subelement_list),
        "kml": (Placemark, h.xml_subelement_kwarg, h.xml_subelement),
        "kmls": (Placemark, h.xml_subelement_list_kwarg, h.xml_subelement_list),
    }
    if op["kind"] == "own":
        own = Own(op, world)
        yield RegistryItem(ns_ids=(world.ns[op["cls"]], "kml", "gx", ""), attr_name=op["attr"],
                           node_name=op["node"], classes=own.cls, get_kwarg=own.get,
                           set_element=own.put)
        return
    cls, get, put = table[op["kind"]]
    node = op["node"]
    if op["kind"] in ("obj", "objs"):
        cls = world.cls[op["of"]]
        node = cls.__name__
        ns = (world.ns[op["of"]], "")
    elif op["kind"] in ("kml", "kmls"):
        node, ns = "Placemark", ("kml", "")
    elif op["kind"] in ("attr", "aint", "afloat", "aenum"):
        ns = ("", "kml")
    else:
        ns = (world.ns[op["cls"]], "kml", "gx", "")
    if op.get("twin"):
        # one mapping per namespace for the same element
        yield RegistryItem(ns_ids=("kml",), attr_name=op["attr"], node_name=node, classes=(cls,),
                           get_kwarg=get, set_element=put, default=world.default(op))
        yield RegistryItem(ns_ids=("gx",), attr_name=op["attr"], node_name=node, classes=(cls,),
                           get_kwarg=get, set_element=nothing)
        return
    # one attribute may be written to two elements and read from either
    for name in [node, *([op["second"]] if op.get("second") else [])]:
        yield RegistryItem(ns_ids=ns, attr_name=op["attr"], node_name=name, classes=(cls,),
                           get_kwarg=get, set_element=put, default=world.default(op))


def other_namespace(text, world):
    """The same document with the elements mapped for two namespaces in the other one."""
    from lxml import etree

    nodes = {op["node"] for _, op in world.fields if op.get("twin")}
    if not nodes:
        return None
    kml, gx = "{http://www.opengis.net/kml/2.2}", "{http://www.google.com/kml/ext/2.2}"
    root = etree.fromstring(text)
    n = 0
    for el in root.iter(etree.Element):
        q = etree.QName(el)
        if q.localname in nodes:
            el.tag = (gx if q.namespace == kml[1:-1] else kml) + q.localname
            n += 1
    return etree.tostring(root, encoding="unicode") if n else None


def only_one(text, world, which):
    """The document with only the first or second of the elements of the same attribute."""
    from lxml import etree

    pairs = {op["node"]: op["second"] for _, op in world.fields if op.get("second")}
    if not pairs:
        return None
    root = etree.fromstring(text)
    count = {}
    gone = set(pairs) if which else set(pairs.values())
    for el in list(root.iter(etree.Element)):
        name = etree.QName(el).localname
        count[name] = count.get(name, 0) + 1
        if name in gone:
            el.getparent().remove(el)
    for a, b in pairs.items():
        need(count.get(a) == count.get(b), "only one of two mappings of a value written",
             lambda: text[:300])
    if not set(pairs) & set(count):
        return None
    return etree.tostring(root, encoding="unicode")


def clash(world, op):
    """Whether a child mapping would pick up the elements of another one."""
    if op["kind"] not in ("obj", "objs", "kml", "kmls"):
        return False
    what = op["of"] if op["kind"] in ("obj", "objs") else "kml"
    if what in world.named:
        return True
    if what == "kml" and root_base(world.bases, op["cls"]) == "Folder":
        return True
    rel = [c for c in range(len(world.cls))
           if op["cls"] in lineage(world.bases, c) or c in lineage(world.bases, op["cls"])]
    for n, other in world.fields:
        if other["kind"] in ("obj", "objs", "kml", "kmls") and (
                (other["of"] if other["kind"] in ("obj", "objs") else "kml") == what):
            if any(n in lineage(world.bases, c) for c in rel):
                return True
    return False


def run(case, cov):
    from fastkml.enums import Verbosity
    from fastkml.registry import registry

    world = World()
    plain = case["plain"]
    plain_obj = model.build(plain)
    text = plain_obj.to_string()
    verbose = plain_obj.to_string(verbosity=Verbosity.verbose)
    extended = []
    values = 0
    try:
        for n, op in enumerate(case["ops"]):
            if op["op"] == "define":
                world.define(op, n)
                if isinstance(world.bases[-1], list):
                    cov.hit("two bases")
            elif op["op"] == "register":
                if not clash(world, op):
                    world.fields.append((op["cls"], op))
                    owner = world.cls[op["cls"]]
                    if op.get("mixin") and world.mix[op["cls"]]:
                        owner = world.mix[op["cls"]]
                        cov.hit("mixin")
                    if "preset" in op:
                        setattr(owner, op["attr"], op["preset"])
                        cov.hit("value on the class")
                    for it in items(op, world):
                        registry.register(owner, it)
            elif op["op"] == "extend":
                extend(op, world, n, extended, cov)
            else:
                v = op["value"]
                obj = world.build(v)
                world.strict, world.verbosity = op["strict"], op["verbosity"]
                world.precision = op["precision"]
                out = obj.to_string(verbosity=Verbosity[op["verbosity"]],
                                    precision=op["precision"])
                back = type(obj).from_string(out, strict=op["strict"])
                world.compare(v, back, op["verbosity"])
                other = other_namespace(out, world)
                if other is not None:
                    back = type(obj).from_string(other, strict=op["strict"])
                    world.compare(v, back, op["verbosity"])
                    cov.hit("other namespace")
                other = only_one(out, world, n % 2)
                if other is not None:
                    back = type(obj).from_string(other, strict=op["strict"])
                    world.compare(v, back, op["verbosity"])
                    cov.hit("two elements for one value")
                world.strict, world.verbosity, world.precision = True, "normal", None
                values = max(values, sum(x["attr"] in v["f"] for x in world.known(v["c"])))
                cov.hit("trip " + op["verbosity"])
            cov.hit(op["op"])
        if not extended:
            need(plain_obj.to_string() == text
                 and plain_obj.to_string(verbosity=Verbosity.verbose) == verbose,
                 "other classes write differently", text[:200])
        same(model.norm(plain, drop_absent=True),
             model.norm(model.extract(type(plain_obj).from_string(text))),
             "other classes read differently")
    finally:
        # a leftover does no harm: no name is used twice
        for table in [t for t in vars(registry).values() if isinstance(t, dict)]:
            for cls, it in extended:
                if isinstance(table.get(cls), list) and it in table[cls]:
                    table[cls].remove(it)
            for cls in [*world.cls, *world.mix]:
                table.pop(cls, None)
    cov.nontrivial(len(world.cls) >= 2 and values >= 3)


def extend(op, world, n, extended, cov):
    """Make one of the library's own elements carry a user-defined one."""
    from fastkml import helpers as h
    from fastkml.registry import RegistryItem
    from fastkml.registry import registry

    kind = op["kind"]
    if op["of"] in world.named:
        return
    owner = model.cls_of(kind)
    cls = world.cls[op["of"]]
    World.made += 1
    attr, form = f"extra_{World.made}", op.get("form", "list")
    one = {"c": op["of"], "f": {}, "own": True}
    ns = (world.ns[op["of"]], "")
    if form == "list":
        it = RegistryItem(ns_ids=ns, attr_name=attr, node_name=cls.__name__, classes=(cls,),
                          get_kwarg=h.xml_subelement_list_kwarg, set_element=h.xml_subelement_list)
        value = [world.build(one), world.build(one)]
    elif form == "one":
        it = RegistryItem(ns_ids=ns, attr_name=attr, node_name=cls.__name__, classes=(cls,),
                          get_kwarg=h.xml_subelement_kwarg, set_element=h.xml_subelement)
        value = world.build(one)
    elif form == "aint":
        it = RegistryItem(ns_ids=("", "kml"), attr_name=attr, node_name=attr, classes=(int,),
                          get_kwarg=h.attribute_int_kwarg, set_element=h.int_attribute)
        value = 0
    else:
        get, put, t, value = {
            "text": (h.subelement_text_kwarg, h.text_subelement, str, "a & b"),
            "bool": (h.subelement_bool_kwarg, h.bool_subelement, bool, False)}[form]
        it = RegistryItem(ns_ids=(SPEC[kind].ns, ""), attr_name=attr, node_name=attr, classes=(t,),
                          get_kwarg=get, set_element=put)
    line = owner.__mro__[:-1]
    where = line[min(op.get("up", 0), len(line) - 1)]  # the class itself or an ancestor
    if where is not owner:
        cov.hit("extend ancestor")
    registry.register(where, it)
    extended.append((where, it))
    ast = syst.minimal(kind)
    obj = model.build(ast, ns_of=lambda k: {attr: value} if k.key == kind else {})
    back = owner.from_string(obj.to_string())
    same(model.norm(ast), model.norm(model.extract(back)), "the extended element's own values")
    got = getattr(back, attr, None)
    cov.hit("extend " + form)
    if form == "list":
        need(got is not None and len(got) == 2, "added children lost", repr(got)[:200])
        for x in got:
            world.compare(one, x, "normal")
    elif form == "one":
        need(got is not None, "added child lost", kind)
        world.compare(one, got, "normal")
    else:
        need(got == value and type(got) is type(value), "added value lost", f"{kind}: {got!r}")
    bare = owner.from_string(model.build(ast).to_string())
    need(not getattr(bare, attr, None), "added value from nowhere", kind)


def shrinks(case):
    ops = case["ops"]
    for i, op in enumerate(ops):
        if op["op"] != "define":
            yield {**case, "ops": ops[:i] + ops[i + 1:]}
    for i, op in enumerate(ops):
        if op["op"] == "trip":
            for a in op["value"]["f"]:
                new = copy.deepcopy(op)
                del new["value"]["f"][a]
                yield {**case, "ops": [*ops[:i], new, *ops[i + 1:]]}
    if case["plain"] != {"k": "Folder", "f": {}}:
        yield {**case, "plain": {"k": "Folder", "f": {}}}


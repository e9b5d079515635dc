"""The places in a document that hold a typed value, and wrong values for them."""
from __future__ import annotations

import copy

from kv.model import Node
from kv.model import at
from kv.spec import ENUMS

BAD = {
    "bool": ["yes", "no", "tru", "on", "truefalse", "t", "0 1", "x", "-", "true1"],
    "int": ["x", "1.5", "1e3", "--1", "0x10", "1 2", "1,000", "five", "-", "1-", "12px", "2.0"],
    "float": ["x", "1,5", "1.2.3", "--1", "1e", "abc1", "0x1p3", "1 2", "N/A", "-", "5m", "1.0f"],
    "enum": ["bogus", "0", "x y", "None", "ground", "clampToGround2", "norma", "-"],
    "date": ["x", "2020-13-01", "2020-02-30", "20-01-01", "yesterday", "2020-01-01T25:00:00",
             "2020-13", "2020-00", "12:00:00", "2020-01-01T10:61:00Z", "2020--01", "2020-01-",
             "2021-02-29T10:00:00Z", "2020-01-01T10:00:00Q", "12020-01-01", "01-02-2020",
             "2020-", "2020-01-01T", "2020-01-32"],
    "coords": ["x,y", "1,2 3,b", "1;2", "1,2,3,", "1,,2", "a", "1,2 ,", "1.0,2.0 3.0,4.0x",
               "1,2 3,4 five,6 7,8"],
    "track when": ["x", "2020-13-01", "2020-01-01T25:00:00", "yesterday", "2020--01"],
    "track coord": ["x y", "1 2 z", "1,2,3", "1", "1 2 3 4", "1 two"],
    "track angles": ["a b c", "1 2 x", "1,2,3", "1 2 3 4", "1"],
}
# acceptable in lenient mode only
STRICT_BAD = {"bool": ["TRUE", "False", "2", "-1", "0.0", "1.0", "tRue"]}
KINDS = {"bool": "bool", "int": "int", "aint": "int", "float": "float", "afloat": "float",
         "enum": "enum", "aenum": "enum", "date": "date", "coords": "coords"}


class Slot:
    """One typed value in a Node tree."""

    def __init__(self, node: Node, attr: int | None, kind: str, path: tuple, field, index=None):
        self.node, self.attr, self.kind = node, attr, kind
        self.path, self.field, self.index = path, field, index

    def set(self, text: str) -> None:
        if self.attr is None:
            self.node.text = text
        else:
            self.node.attrs[self.attr][1] = text

    @property
    def text(self) -> str:
        return self.node.text if self.attr is None else self.node.attrs[self.attr][1]

    @property
    def required_by(self) -> str:
        return self.field.attr if self.field is not None else self.node.tag


def slots(root: Node, ast: dict, *, texts=False) -> list[Slot]:
    """All typed values of a document in document order (texts: and text ones)."""
    out = []

    def go(n: Node):
        for i, (_, _, f) in enumerate(n.attrs):
            if f.kind in KINDS or (texts and f.kind == "attr"):
                out.append(Slot(n, i, KINDS.get(f.kind, "attr"), n.owner, f))
        f = n.field
        if f is not None and (f.kind in KINDS or (texts and f.kind in ("text", "body"))):
            out.append(Slot(n, None, KINDS.get(f.kind, "text"), n.owner, f))
        seen: dict[str, int] = {}
        for c in n.kids:
            if c.tag in ("when", "coord", "angles") and c.field is None and not c.kids:
                i = seen.get(c.tag, 0)
                seen[c.tag] = i + 1
                out.append(Slot(c, None, "track " + c.tag, c.owner, None, i))
            go(c)

    go(root)
    return out


def without(ast: dict, gone: list[Slot], bad_angle: list = ()) -> dict:
    """The document as it is when the given values are absent."""
    out = copy.deepcopy(ast)
    samples: dict[tuple, set] = {}
    for s in gone:
        owner = at(out, s.path)
        if s.field is not None:
            owner["f"].pop(s.field.attr, None)
        elif s.kind == "track angles":
            # samples without an angle read as (0, 0, 0)
            owner["f"]["track_items"][s.index]["angle"] = None
        else:
            samples.setdefault(s.path, set()).add(s.index)
    for path, idx in samples.items():
        owner = at(out, path)
        items = owner["f"]["track_items"]
        owner["f"]["track_items"] = [i for n, i in enumerate(items) if n not in idx]
    return out


def last_angle(s: Slot, ast: dict) -> bool:
    """Whether an angle is the last one of its track (others move up, see DESIGN)."""
    return s.index == len(at(ast, s.path)["f"]["track_items"]) - 1


def recase(text: str, how: int) -> str:
    return [text.upper(), text.lower(), text.swapcase(), text.capitalize()][how % 4]


def is_enum_value(f, text: str) -> bool:
    return text.lower() in [v.lower() for v in ENUMS[f.enum]]


NEVER = "gkqwyz#;?!/|~$@"  # characters no value of these types contains


UNITS = ["px", "%", "m", "ft", "deg", "°", "pt", " px", "km", "rem", "m/s", "f", "L", "j", "dp",
         "'", "\"", "N", "W", "€", "pixels", "-", "+", ",", "()", "h"]


def garble(slot, n: int, *, samples=True) -> str | None:
    """A random malformed text near the right one; None where there is none."""
    text = slot.text
    how, n = n % 4, n // 4
    # the library's date parser passes over punctuation and knows week dates
    never = "gkqy#$@~|" if slot.kind in ("date", "track when") else NEVER
    if slot.kind == "enum":
        never += "-_. "
    c, n = never[n % len(never)], n // len(never)
    at_, n = n % (len(text) + 1), n // (len(text) + 1)
    if slot.kind == "enum" and how == 3:
        import re

        new = re.sub("(?<=[a-z])(?=[A-Z])", ["-", "_", " ", "."][n % 4], text)
    elif how == 0 or slot.kind in ("enum", "bool"):
        new = text[:at_] + c + text[at_:]
    elif how == 1:
        new = text[:at_] + c + text[at_ + 1:]
    elif slot.kind in ("date", "track when"):
        import re

        parts = [m for m in re.finditer(r"(?<=[-T:])\d\d(?!\d)", text.split("+")[0][:19])]
        if not parts or slot.text.count(":") == 1:
            return None
        m = parts[n % len(parts)]
        wrong = {5: "13", 8: "32", 11: "25", 14: "60", 17: "61"}.get(m.start())
        if wrong is None:
            return None
        if how == 3:
            wrong = "00" if m.start() in (5, 8) else "99"
        new = text[:m.start()] + wrong + text[m.end():]
    elif slot.kind in ("int", "float"):
        new = [text + ".", "-" + text.replace("-", "") + "-", text + "," + text, text + " " + text,
               "+-" + text, text + "e", ".", "e5", text + "..1",
               *(text + u for u in UNITS)][n % (9 + len(UNITS))]
        if slot.kind == "float" and new == text + "." and text.lstrip("+-").isdigit():
            return None
    elif how == 3:
        new = text + UNITS[n % 8]
    else:
        new = text[:at_] + c + text[at_:]
    if slot.kind == "enum" and is_enum_value(slot.field, new.strip()):
        return None
    return new if new != text else None

"""Outcomes of a case."""
from __future__ import annotations


class Violation(Exception):
    """The property does not hold for this case."""

    def __init__(self, kind: str, msg: str = ""):
        super().__init__(f"{kind}: {msg}" if msg else kind)
        self.kind = kind
        self.msg = msg


class Skip(Exception):
    """The case is outside the domain of the property."""


class Slow(BaseException):
    """The case took too long: inconclusive, unless ending is part of the property."""

"""C03: every selector gives the nodes it selects their location."""
from __future__ import annotations

from . import Ob
from . import common as C
from . import spec_filter as F
from .c01 import node_view, selectors


def obligations():
    v = node_view("obj", "parts", "path", "root", "parent")
    return selectors(v) + [
        Ob("Filter.resolve", "selectors.Filter.resolve", F.filter_selector, [("self", ("obj", "Filter")), ("matches", C.SEQ)], shapes=v),
    ]

"""Shared pieces of the concrete oracles (bounded cross-check / witness search).

Run under /opt/venv/bin/python with PYTHONPATH=/repo/framework_python.  An
oracle module defines
    cases(rng, tier)  -> iterator of JSON-serialisable cases
    check(case)       -> None, or a string that says what is wrong
and is independent of the verifier: it compares the real code with a small
reference model written from the text of the property.
"""
import asyncio
import hashlib
import itertools
import warnings

warnings.simplefilter("ignore")

from rei.foundations.clock import DummyClock, MetaClock
from rei.foundations.conceptual_item import ConceptualItem, HierarchicalElement
from rei.hypergraph.base_elements import (HypergraphNode, HypergraphEdge, HypergraphRelation, HypergraphPort,
                                          HypergraphElement)
from rei.hypergraph.common_definitions import EnumRelationDirection
from rei.hypergraph.value_node import ValueNode, SemanticValueNode
from rei.factories.foundation_factory import HypergraphFactory

IN, OUT, BI = (EnumRelationDirection.INWARDS, EnumRelationDirection.OUTWARDS, EnumRelationDirection.BIDIRECTIONAL)
DIRS = {"IN": IN, "OUT": OUT, "BI": BI}


class TickClock(MetaClock):
    """A clock that advances with every reading."""

    def __init__(self):
        self.t = 0

    def get_time_ns(self):
        self.t += 1
        return self.t

    def get_time_sec(self):
        return self.get_time_ns() / 1e9


class Fail(Exception):
    pass


def need(cond, msg, *a):
    if not cond:
        raise Fail(msg % a if a else msg)


def run(coro):
    loop = asyncio.new_event_loop()
    try:
        asyncio.set_event_loop(loop)
        return loop.run_until_complete(coro)
    finally:
        loop.close()


def uid(n):
    return ("u%s" % (n,)).encode()


def make(kind, i, name, clock, parent=None):
    u = uid(i)
    if kind == "item":
        return ConceptualItem(name, u, name, clock, parent)
    if kind == "node":
        return HypergraphNode(name, u, name, clock, parent)
    if kind == "edge":
        return HypergraphEdge(name, u, name, clock, parent)
    if kind == "rel":
        e = HypergraphRelation(u, name, name, None, None)
    elif kind == "value":
        e = ValueNode(u, name, name, [1.0])
    elif kind == "sem":
        e = SemanticValueNode(u, name, name, parent, {"a": 1})
    elif kind == "port":
        e = HypergraphPort(u, name, name, None)
    else:
        raise AssertionError(kind)
    if parent is not None:
        parent.add_element(e)
    return e


def children(el):
    return list(el.get_subelements(lambda x: True))


def random_tree(rng, n, kinds=("node", "edge", "item", "value", "sem", "rel", "port"), names=("a", "b", "c"),
                deep=False):
    """A list of [kind, name, parent index or -1]; index 0 is the root."""
    spec = [[rng.choice([k for k in kinds if k in ("node", "item", "edge")] or list(kinds)), rng.choice(names), -1]]
    for i in range(1, n):
        if deep and rng.random() < 0.7:
            par = i - 1
        else:
            par = rng.randrange(i)
        k = rng.choice(kinds)
        if spec[par][0] == "rel" and k in ("node", "edge"):
            k = "sem"
        spec.append([k, rng.choice(names), par])
    return spec


def build(spec, clock=None, base=0):
    clock = clock or DummyClock()
    els = []
    for i, (k, nm, par) in enumerate(spec):
        els.append(make(k, base + i, nm, clock, None if par < 0 else els[par]))
    return els

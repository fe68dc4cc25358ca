from common import *
from rei.hypergraph.homomorphism_functions import IndexHomomorphismGraphTensor
import math


def expected(start, cls, depth, ignore):
    out = [] if ignore or not isinstance(start, cls) else [start]
    level = [(c, 1) for c in children(start) if isinstance(c, cls)] if depth > 0 else []
    while level:
        e, d = level.pop(0)
        out.append(e)
        if d < depth:
            level.extend((c, d + 1) for c in children(e) if isinstance(c, cls))
    return out


def missing(f, a):
    try:
        f(a)
    except KeyError:
        return True
    return False


def verify(h, want_n, want_e, want_v, universe):
    for want, to, fro, what in ((want_n, h.node, h.dim, "node"), (want_e, h.edge, h.depth, "edge"),
                                (want_v, h.val, h.ival, "value")):
        for u, i in want:
            need(to(u) == i, "index of %s %r is %r, expected %r", what, u, to(u), i)
            need(fro(i) == u, "identifier of %s index %r is %r, expected %r", what, i, fro(i), u)
        have = {u for u, _ in want}
        for u in universe:
            if u not in have:
                need(missing(to, u), "%s still has an index for %r", what, u)
        need(missing(fro, len(want)) and missing(fro, -1), "%s has an index beyond its count", what)
        for extra in range(len(want), len(want) + 12):
            need(missing(fro, extra), "%s has an index beyond its count", what)
    need(h.cnt_node == len(want_n), "node count %r, expected %r", h.cnt_node, len(want_n))
    need(h.cnt_edges == len(want_e), "edge count %r, expected %r", h.cnt_edges, len(want_e))


def check(case):
    h = IndexHomomorphismGraphTensor(case["ignore"], math.inf if case["depth"] is None else case["depth"])
    depth = math.inf if case["depth"] is None else case["depth"]
    universe = set()
    for st in case["steps"]:
        if st[0] == "run":
            els = build(st[1])
            # every tree of the history has its own identifiers
            for k, e in enumerate(els):
                e._uuid = e.uuid
            universe |= {e.uuid for e in els}
            start = els[st[2] % len(els)]
            run(h.execute(start))
            w = []
            for cls in (HypergraphNode, HypergraphEdge, ValueNode):
                w.append([(e.uuid, i) for i, e in enumerate(expected(start, cls, depth, case["ignore"]))])
            verify(h, *w, universe)
        else:
            lists = [[(uid(u), i) for u, i in l] for l in st[1]]
            universe |= {u for l in lists for u, _ in l}
            h.reset_from_bijection(*lists)
            verify(h, *lists, universe)


def cases(rng, tier):
    big = [["node", "r", -1]] + [["node", "n", 0] for _ in range(400)]
    yield {"ignore": True, "depth": 1, "steps": [["run", big, 0]]}
    n = 900 if tier == "quick" else 15000
    for _ in range(n):
        steps = []
        for _ in range(rng.randrange(1, 4)):
            if rng.random() < .7:
                size = rng.choice([1, 3, 6, 14])
                steps.append(["run", random_tree(rng, size, kinds=("node", "edge", "value", "node", "rel", "sem"),
                                                 deep=rng.random() < .4), rng.choice([0, 0, rng.randrange(size)])])
            else:
                ls = []
                base = 100
                for _ in range(3):
                    k = rng.randrange(0, 5)
                    ids = list(range(base, base + k))
                    base += 10
                    idx = list(range(k))
                    if rng.random() < .5:
                        rng.shuffle(idx)
                    ls.append([[u, i] for u, i in zip(ids, idx)])
                steps.append(["restore", ls])
        yield {"ignore": rng.random() < .5, "depth": rng.choice([1, 1, 2, 3, None]), "steps": steps}

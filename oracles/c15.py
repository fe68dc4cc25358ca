from common import *
from graphs import *
from rei.hypergraph.factorization_operations import (Factorization2Operation, Factorization2SubsetOperation,
                                                     RelationFactorization2SubsetOperation,
                                                     MapFactorizationToFactorGraph)


def ids(l):
    return [(id(a), id(b)) for a, b in l]


def check(case):
    root, nodes, edges, rels, _, _ = build_graph(case)
    ops = {}
    dirs = lambda e: [(rels[e][i], r[0], r[1]) for i, r in enumerate(case["edges"][e])]
    for st in case["steps"]:
        kind, sel, loop = st
        key = (kind, loop)
        if kind == "whole":
            op = ops.setdefault(key, Factorization2Operation())
            got = run(op.execute(root))
            want = []
            for e in range(len(edges)):
                outs = [r for r, ep, d in dirs(e) if d in ("OUT", "BI")]
                for r, ep, d in dirs(e):
                    if d in ("IN", "BI"):
                        want.append((r, outs))
            need([(id(a), [id(x) for x in b]) for a, b in got] == [(id(a), [id(x) for x in b]) for a, b in want],
                 "factorization of the graph has %d entries, expected %d", len(got), len(want))
            mapped = list(run(MapFactorizationToFactorGraph(lambda x: (x[0], len(x[1]))).execute(got)))
            need([(id(a), n) for a, n in mapped] == [(id(a), len(b)) for a, b in want], "mapping is wrong")
        elif kind == "subset":
            op = ops.setdefault(key, Factorization2SubsetOperation(loop))
            pool = nodes + edges
            s = [pool[i % len(pool)] for i in dict.fromkeys(x % len(pool) for x in sel)]
            got = run(op.execute(list(s)))
            chosen = [x for x in s if x in nodes]
            want = []
            for e in [x for x in s if isinstance(x, HypergraphEdge)]:
                k = edges.index(e)
                for r, ep, d in dirs(k):
                    for r2, ep2, d2 in dirs(k):
                        if d in ("IN", "BI") and d2 in ("OUT", "BI") and nodes[ep] in chosen and nodes[ep2] in chosen \
                                and (loop or ep != ep2):
                            want.append((r, r2))
            need(ids(got) == ids(want), "pairs %r, expected %r", [(a.id_name, b.id_name) for a, b in got],
                 [(a.id_name, b.id_name) for a, b in want])
        else:
            op = ops.setdefault(key, RelationFactorization2SubsetOperation(loop))
            pool = [r for rs in rels for r in rs] + nodes
            s = [pool[i] for i in dict.fromkeys(x % len(pool) for x in sel)]
            got = run(op.execute(list(s)))
            info = {id(r): (k, ep, d) for k in range(len(edges)) for r, ep, d in dirs(k)}
            sr = [r for r in s if id(r) in info]
            want, order = [], []
            for r in sr:
                k, ep, d = info[id(r)]
                if d in ("IN", "BI") and k not in order:
                    order.append(k)
            for k in order:
                for r in sr:
                    k1, ep1, d1 = info[id(r)]
                    if k1 != k or d1 not in ("IN", "BI"):
                        continue
                    for r2 in sr:
                        k2, ep2, d2 = info[id(r2)]
                        if k2 == k and d2 == "OUT" and (loop or ep1 != ep2):
                            want.append((r, r2))
            need(sorted(ids(got)) == sorted(ids(want)), "relation pairs %r, expected %r",
                 [(a.id_name, b.id_name) for a, b in got], [(a.id_name, b.id_name) for a, b in want])


def cases(rng, tier):
    n = 1200 if tier == "quick" else 20000
    for _ in range(n):
        g = random_graph(rng, 6, 4, weights=False)
        if rng.random() < .4:
            direct(rng, g)
        g["steps"] = []
        for _ in range(rng.randrange(1, 5)):
            g["steps"].append([rng.choice(["whole", "subset", "relation"]),
                               [rng.randrange(40) for _ in range(rng.choice([0, 2, 5, 12, 30]))], rng.random() < .5])
        yield g

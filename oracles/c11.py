from common import *
from graphs import *
import numpy as np
from rei.tensor.tensor_representation import NumpyHypergraphTensorTransformer


def check(case):
    tr = NumpyHypergraphTensorTransformer()
    for g in [case] + case.get("more", []):
        verify(tr, g)
    return None


def verify(tr, case):
    root, nodes, edges, rels, _, _ = build_graph(case)
    for round_ in range(case.get("rounds", 1)):
        run(tr.execute(root))
        rep = tr.tensor_representation
        n, m = len(nodes), len(edges)
        need(rep.W.shape == (m, n, n) and rep.Io.shape == (m, n) and rep.Ii.shape == (m, n), "shapes %r %r %r",
             rep.W.shape, rep.Io.shape, rep.Ii.shape)
        for e, rs in enumerate(case["edges"]):
            plain = all(w is None for _, _, w in rs)
            allow = {}
            for ep, d, w in rs:
                v = 1.0 if w is None else float(sum(w))
                for other, _, _ in rs:
                    if other == ep:
                        continue
                    if d in ("IN", "BI"):
                        allow.setdefault((ep, other), set()).add(v)
                    if d in ("OUT", "BI"):
                        allow.setdefault((other, ep), set()).add(v)
            out_allow, in_allow = {}, {}
            for (i, j), vs in allow.items():
                out_allow.setdefault(i, set()).update(vs)
                in_allow.setdefault(j, set()).update(vs)
            for i in range(n):
                for j in range(n):
                    x = rep.W[e, i, j]
                    if plain:
                        need(x == (1.0 if (i, j) in allow else 0.0), "W[%d,%d,%d] is %r, expected %r", e, i, j, x,
                             1.0 if (i, j) in allow else 0.0)
                    elif x != 0:
                        need(x in allow.get((i, j), ()), "W[%d,%d,%d] is %r, allowed %r", e, i, j, x,
                             sorted(allow.get((i, j), ())))
                    else:
                        need((i, j) not in allow or 0.0 in allow[(i, j)] or not allow[(i, j)],
                             "W[%d,%d,%d] is 0, expected one of %r", e, i, j, sorted(allow.get((i, j), ())))
                for mat, al, nm in ((rep.Io, out_allow, "Io"), (rep.Ii, in_allow, "Ii")):
                    x = mat[e, i]
                    if plain:
                        need(x == (1.0 if i in al else 0.0), "%s[%d,%d] is %r", nm, e, i, x)
                    elif x != 0:
                        need(x in al.get(i, ()), "%s[%d,%d] is %r, allowed %r", nm, e, i, x, sorted(al.get(i, ())))
                    else:
                        need(i not in al or 0.0 in al[i], "%s[%d,%d] is 0", nm, e, i)


def cases(rng, tier):
    yield {"nodes": 300, "edges": [[[290, "IN", None], [299, "OUT", None], [0, "OUT", None]]]}
    n = 2000 if tier == "quick" else 10000
    for i in range(n):
        g = random_graph(rng, weights=i % 2 == 0, signed=i % 4 == 0)
        if i % 10 == 3:
            g = direct(rng, g)
        g["rounds"] = rng.choice([1, 1, 2])
        if rng.random() < .3:
            # the same transformer for another graph, mostly of the same size
            h = random_graph(rng, weights=i % 2 == 0)
            if rng.random() < .7:
                h = {"nodes": g["nodes"], "edges": [[x for x in e if x[0] < g["nodes"]] for e in (h["edges"] + [[]] * 9)[:len(g["edges"])]]}
            g["more"] = [h]
        yield g

"""Graph cases: {"nodes": n, "edges": [[[endpoint, dir, weights|None], ...], ...], "vals": [[..],..]}"""
from common import *


def random_graph(rng, max_nodes=6, max_edges=5, weights=True, signed=False):
    n = rng.randrange(1, max_nodes + 1)
    edges = []
    for _ in range(rng.randrange(0, max_edges + 1)):
        k = rng.randrange(0, n + 1)
        eps = rng.sample(range(n), k)
        dirs = rng.choice([["BI"], ["IN", "OUT"], ["IN", "OUT", "BI"], ["IN"], ["OUT"]])
        rels = []
        for e in eps:
            w = None
            if weights and rng.random() < .4:
                w = [rng.choice([0.5, 1.0, 2.0, 3.25, 0.0] + ([-1.0] if signed else []))
                     for _ in range(rng.randrange(1, 4))]
            rels.append([e, rng.choice(dirs), w])
        edges.append(rels)
    return {"nodes": n, "edges": edges}


def direct(rng, g):
    """Equal names among nodes, several relations to one endpoint: relations are made by hand."""
    g["names"] = [rng.choice("xyz") for _ in range(g["nodes"])]
    for rels in g["edges"]:
        for _ in range(rng.randrange(0, 3)):
            rels.insert(rng.randrange(len(rels) + 1), [rng.randrange(g["nodes"]), rng.choice(["BI", "IN", "OUT"]), None])
    return g


def build_direct(g, clock):
    root = HypergraphNode("g", b"g", "g", clock)
    nodes = [HypergraphNode(nm, b"n%d" % i, nm, clock, root) for i, nm in enumerate(g["names"])]
    edges, rels = [], []
    for i, rs in enumerate(g["edges"]):
        e = HypergraphEdge("e", b"e%d" % i, "e", clock, root)
        rr = [HypergraphRelation(b"r%d.%d" % (i, k), "r", "r", nodes[ep], None, None, DIRS[d])
              for k, (ep, d, w) in enumerate(rs)]
        for r in rr:
            e.add_element(r)
        edges.append(e)
        rels.append(rr)
    return root, nodes, edges, rels, [], None


def build_graph(g, clock=None, name="g", order=None):
    clock = clock or DummyClock()
    if "names" in g:
        return build_direct(g, clock)
    fac = HypergraphFactory("fac" + name, clock)
    root = fac.generate_node(name)
    nodes = [fac.generate_node("n%d" % i, root) for i in range(g["nodes"])]
    edges, rels = [], []
    for i, rs in enumerate(g["edges"]):
        e = fac.create_hyperedge(root, "e%d" % i)
        edges.append(e)
        rr = []
        for ep, d, w in rs:
            v = None if w is None else ValueNode(hashlib.sha1(repr((i, ep)).encode()).digest(), "w", "w", w)
            e.unary_connect(nodes[ep], v, DIRS[d])
            rr.append(list(e.sub_relations)[-1])
        rels.append(rr)
    vals = [fac.create_value(root, "v%d" % i, list(v)) for i, v in enumerate(g.get("vals", []))]
    return root, nodes, edges, rels, vals, fac

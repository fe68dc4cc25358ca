from common import *
from rei.factories.abstract_factory import ErrorInsufficientValues
import numpy as np

INC = {"IN": (1.0, 0.0), "OUT": (0.0, 1.0), "BI": (1.0, 1.0)}


def verify_edge(e, want):
    """want: list of (endpoint, dir, weight, sem)"""
    rels = list(e.sub_relations)
    need(len(rels) == len(want), "edge has %d relations, expected %d", len(rels), len(want))
    for r, (ep, d, w, s) in zip(rels, want):
        need(r.parent is e, "relation is not contained in its edge")
        need(r.endpoint is ep, "relation leads to %s, expected %s", r.endpoint.id_name, ep.id_name)
        need(r.direction == DIRS[d], "direction of %s is %r, expected %s", ep.id_name, r.direction, d)
        need(tuple(r.relation_incidence_value) == INC[d], "incidence of %s is %r", ep.id_name,
             r.relation_incidence_value)
        inc = r.relation_incidence_value
        inc[0] = 77.0
        need(tuple(r.relation_incidence_value) == INC[d], "incidence handed out is not a copy")
        need(r.weight is w, "weight of %s is %r, expected %r", ep.id_name, r.weight, w)
        need(r.semantic_value_node is s, "semantic value of %s is wrong", ep.id_name)
        if s is not None:
            need(s.parent is r, "semantic value is not contained in the relation")
        ports = [p for p in ep.sub_ports if p.endpoint is r]
        need(len(ports) == 1 and ports[0].parent is ep, "endpoint %s has %d ports to its relation", ep.id_name,
             len(ports))
    need([id(x) for x in e.get_incoming_relations()] ==
         [id(r) for r, w in zip(rels, want) if w[1] in ("IN", "BI")], "incoming relations are wrong")
    need([id(x) for x in e.get_outgoing_relations()] ==
         [id(r) for r, w in zip(rels, want) if w[1] in ("OUT", "BI")], "outgoing relations are wrong")
    need([id(x) for x in e.induced_subset] == [id(w[0]) for w in want], "induced subset is wrong")


def check(case):
    clock = DummyClock()
    fac = HypergraphFactory("f", clock)
    root = fac.generate_node("g")
    nodes = [fac.generate_node("n%d" % i, root) for i in range(case["nodes"])]
    portcount = [0] * len(nodes)
    done = []
    for k, st in enumerate(case["steps"]):
        how, eps, dirs, vals, sems = st
        eps = [x % len(nodes) for x in eps]
        ns = [nodes[x] for x in eps]
        vs = None if vals is None else [None if v is None else ValueNode(uid("v%d_%d" % (k, i)), "w%d" % i, "w", [v])
                                        for i, v in enumerate(vals)]
        before = len(list(root.sub_edges))
        if how == "unary":
            e = fac.create_hyperedge(root, "e%d" % k)
            want = []
            for i, n in enumerate(ns):
                s = SemanticValueNode(uid("s%d_%d" % (k, i)), "s", "s", None, {"a": 1}) if sems[i] else None
                w = vs[i] if vs else None
                if s is not None:
                    e.unary_connect(n, w, DIRS[dirs[i]], s)
                elif dirs[i] == "BI" and i % 2:
                    e.unary_connect(n, w)
                else:
                    e.unary_connect(n, w, DIRS[dirs[i]])
                want.append((n, dirs[i], w, s))
                verify_edge(e, want)
        elif how == "nodes":
            bad = vs is not None and len(vs) != len(ns)
            try:
                if vs is None and dirs[0] == "BI":
                    e = fac.connect_nodes(root, "e%d" % k, ns)
                else:
                    e = fac.connect_nodes(root, "e%d" % k, ns, DIRS[dirs[0]], vs)
            except ErrorInsufficientValues:
                need(bad, "a value list of the right length was refused")
                continue
            need(not bad, "a value list of the wrong length was accepted")
            want = [(n, dirs[0], vs[i] if vs else None, None) for i, n in enumerate(ns)]
        elif how in ("2factor", "dir"):
            cut = st[2][2]
            a, b = ns[:cut], ns[cut:]
            d0, d1 = (dirs[0], dirs[1]) if how == "2factor" else ("IN", "OUT")
            if how == "dir":
                vs = None
            bad = vs is not None and len(vs) != len(ns)
            try:
                if how == "dir":
                    e = fac.connect_dir_edges(root, "e%d" % k, a, b)
                else:
                    e = fac.connect_2factor_edges(root, "e%d" % k, a, b, (DIRS[d0], DIRS[d1]), vs)
            except ErrorInsufficientValues:
                need(bad, "a value list of the right length was refused")
                continue
            need(not bad, "a value list of the wrong length was accepted")
            want = [(n, d0 if i < cut else d1, vs[i] if vs else None, None) for i, n in enumerate(ns)]
        else:
            tup, want = [], []
            for i, n in enumerate(ns):
                s = SemanticValueNode(uid("s%d_%d" % (k, i)), "s", "s", None, {"a": 1}) if sems[i] else None
                w = vs[i] if vs and i < len(vs) else None
                tup.append((n, DIRS[dirs[i]], w, s))
                want.append((n, dirs[i], w, s))
            e = fac.connect_tuple_nodes(root, "e%d" % k, tup)
        need(isinstance(e, HypergraphEdge) and e.parent is root and e.id_name == "e%d" % k, "the edge is misplaced")
        need(len(list(root.sub_edges)) == before + 1, "not exactly one edge was created")
        verify_edge(e, want)
        for x in eps:
            portcount[x] += 1
        for i, n in enumerate(nodes):
            need(len(list(n.sub_ports)) == portcount[i], "node n%d has %d ports, expected %d", i,
                 len(list(n.sub_ports)), portcount[i])
        done.append((e, want))
        for e0, w0 in done:
            verify_edge(e0, w0)
    for e0, w0 in done:
        # disconnecting removes the port only
        if w0:
            n = w0[0][0]
            r = list(e0.sub_relations)[0]
            c = len(list(n.sub_ports))
            n.disconnect(r)
            need(not [p for p in n.sub_ports if p.endpoint is r] and len(list(n.sub_ports)) == c - 1,
                 "disconnect left the port")
    return None


def cases(rng, tier):
    n = 900 if tier == "quick" else 15000
    for _ in range(n):
        nn = rng.randrange(1, 6)
        steps = []
        for _ in range(rng.randrange(1, 5)):
            how = rng.choice(["unary", "nodes", "2factor", "dir", "tuple"])
            k = rng.randrange(0, nn + 1)
            eps = rng.sample(range(nn), k)
            ds = [rng.choice(["IN", "OUT", "BI"]) for _ in range(max(k, 1))]
            sems = [rng.random() < .3 for _ in range(k)]
            vals = None
            if rng.random() < .5:
                m = k if rng.random() < .75 or how in ("unary", "tuple") else rng.randrange(0, k + 2)
                vals = [rng.choice([None, 1.0, 2.0]) for _ in range(m)]
            if how in ("2factor", "dir"):
                ds = [rng.choice(["IN", "OUT", "BI"]), rng.choice(["IN", "OUT", "BI"]), rng.randrange(0, k + 1)]
            steps.append([how, eps, ds, vals, sems])
        yield {"nodes": nn, "steps": steps}

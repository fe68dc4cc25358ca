from common import *
from graphs import *
import cbor2
from rei.hypergraph.encoding.graph_tensor_icon_cbor import GraphTensorCbor


def describe(root):
    return {
        "root": (root.uuid, root.id_name),
        "nodes": [(x.uuid, x.id_name, x.parent is root) for x in root.sub_nodes],
        "edges": [(x.uuid, x.id_name, x.parent is root,
                   [(r.uuid, r.id_name, r.endpoint.uuid, r.direction, r.parent is x) for r in x.sub_relations])
                  for x in root.sub_edges],
        "values": [(x.uuid, x.id_name, x.parent is root, list(x.get_values()), x.dim, list(x)) for x in root.sub_values],
    }


def verify_hom(h, root):
    want = [root] + list(root.sub_nodes)
    for i, x in enumerate(want):
        need(h.node(x.uuid) == i and h.dim(i) == x.uuid, "node number %d is wrong after decoding", i)
    for i, x in enumerate(root.sub_edges):
        need(h.edge(x.uuid) == i and h.depth(i) == x.uuid, "edge number %d is wrong after decoding", i)
    for i, x in enumerate(root.sub_values):
        need(h.val(x.uuid) == i and h.ival(i) == x.uuid, "value number %d is wrong after decoding", i)
    need(h.cnt_node == len(want) and h.cnt_edges == len(list(root.sub_edges)), "counts are wrong after decoding")


def check(case):
    clock = DummyClock()
    root, nodes, edges, rels, vals, fac = build_graph(case, clock)
    if case.get("nested"):
        top = fac.generate_node("top")
        top.add_element(root)
    t = GraphTensorCbor("icon", clock, root)
    dec = GraphTensorCbor("icon2", clock, root) if case["two"] else t
    decoded, shifted, gone, cut = None, False, False, False     # shifted: numbered anew since an element went; gone: a value went
    k = 0
    for st in case["steps"]:
        if st == "ctx":
            run(t.update_context(root))
            shifted = shifted or gone
        elif st == "coo":
            run(t.update_context(root))
            run(t.update_coo())
            shifted = shifted or gone
        elif st == "msg":
            run(t.update_context(root))
            run(t.update_coo())
            m = t.full_msg()
            fresh = GraphTensorCbor("icon3", clock, root)
            run(fresh.update_context(root))
            run(fresh.update_coo())
            need(m == fresh.full_msg(), "the message differs from the one of a fresh encoder")
            m2 = t.full_msg()
            need(m == m2, "encoding twice gives different messages")
            r, h = dec.create_graph(m)
            a, b = describe(root), describe(r)
            need(a == b, "decoded %r, expected %r", b, a)
            need(r.parent is None and r.qualified_name == root.id_name, "decoded root is not a root")
            verify_hom(h, r)
            decoded, shifted, gone, cut = r, False, False, False
        elif st == "set":
            if vals:
                k += 1
                v = vals[k % len(vals)]
                if k % 2 and v.dim:
                    v[k % v.dim] = float(k)
                else:
                    v.update_values([float(k)] * (k % 4))
        elif st == "upd":
            if decoded is None or shifted:
                continue
            if not gone and k % 2:
                run(t.update_context(root))
            before = {v.uuid: list(v.get_values()) for v in decoded.sub_values}
            dec.from_msg_update_values(t.msg_value_update())
            now = {v.uuid: list(v.get_values()) for v in root.sub_values}
            for v in decoded.sub_values:
                need(list(v.get_values()) == now.get(v.uuid, before[v.uuid]), "value %r is %r after the update, expected %r",
                     v.id_name, list(v.get_values()), now.get(v.uuid, before[v.uuid]))
            if not gone and not cut:
                a, b = describe(root), describe(decoded)
                need(a == b, "after the update %r, expected %r", b, a)
        elif st == "drop":
            if vals:
                v = vals.pop((k + len(vals)) // 2 % len(vals))
                list(root.remove_element(uuid=v.uuid))
                gone = True
        elif st == "again":
            if vals:
                # taken out and put back: another order, the same numbers
                v = vals[k % len(vals)]
                list(root.remove_element(uuid=v.uuid))
                root.add_element(v)
                gone = True
        elif st == "late":
            # an edge goes between numbering and encoding: the message has the numbers given before
            run(t.update_context(root))
            run(t.update_coo())
            shifted = shifted or gone
            was = [{x.uuid: i for i, x in enumerate(xs)} for xs in ([root] + list(root.sub_nodes), root.sub_edges, root.sub_values)]
            es = list(root.sub_edges)
            if es:
                cut = True
                list(root.remove_element(uuid=es[k % len(es)].uuid))
            r, h = GraphTensorCbor("icon4", clock, root).create_graph(t.full_msg())
            need(describe(r) == describe(root), "decoded %r, expected %r", describe(r), describe(root))
            for xs, d, f in zip(([r] + list(r.sub_nodes), r.sub_edges, r.sub_values), was, (h.node, h.edge, h.val)):
                for x in xs:
                    need(f(x.uuid) == d[x.uuid], "%r has number %r after decoding, expected %r", x.id_name, f(x.uuid), d[x.uuid])
        elif st == "cut":
            es, cut = list(root.sub_edges), True
            if es:
                list(root.remove_element(uuid=es[k % len(es)].uuid))
    return None


def cases(rng, tier):
    n = 1000 if tier == "quick" else 6000
    for i in range(n):
        g = random_graph(rng, 5, 4)
        g["vals"] = [[rng.choice([1.0, 2.5, -3, 0, "x"]) for _ in range(rng.randrange(0, 4))]
                     for _ in range(rng.randrange(0, 4))]
        g["nested"] = rng.random() < .3
        g["two"] = rng.random() < .5
        g["steps"] = [rng.choice(["ctx", "coo", "msg", "set", "upd"]) for _ in range(rng.randrange(0, 6))] + ["msg"] + \
                     [rng.choice(["msg", "set", "upd", "coo", "upd", "set", "drop", "again", "cut", "late"]) for _ in range(rng.randrange(0, 8))]
        yield g

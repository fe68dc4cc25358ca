from common import *
from rei.foundations.identification.identity_generator import Sha3UniqueIdentifierGenerator
from rei.format.semantics.cognitive_entity_semantic_factory import CognitiveEntitySemanticFactory


def h(s):
    return hashlib.sha3_224(s.encode("utf-8")).digest()


class FixedClock(MetaClock):
    def __init__(self):
        self.t = 0

    def get_time_ns(self):
        return self.t

    def get_time_sec(self):
        return self.t / 1e9


def check(case):
    clock = FixedClock()
    gens = [Sha3UniqueIdentifierGenerator(c, lambda x, y: "%s|%s" % (x, y)) for c in case["ctx"]]
    facs = [HypergraphFactory(c, clock) for c in case["ctx"]]
    nodes = []
    for k, st in enumerate(case["steps"]):
        o, i, name = st[0], st[1] % len(gens), st[2]
        clock.t += st[3]
        f, c, t = facs[i], case["ctx"][i], clock.t
        if o == "gen":
            u = gens[i].generate_uid(name)
            need(u == h("%s|%s" % (c, name)), "identifier of %r in %r is not the digest of its text", name, c)
            need(len(u) == 28 and isinstance(u, bytes), "identifier is not 28 bytes")
            need(gens[i].generate_uid(name) == u, "the same name gets another identifier")
        elif o == "node":
            n = f.generate_node(name)
            need(n.uuid == h("%s/%s.%d" % (c, name, t)), "identifier of node %r is wrong", name)
            need(n.id_name == name and n.parent is None, "node is misplaced")
            nodes.append(n)
        elif o == "child" and nodes:
            p = nodes[st[4] % len(nodes)]
            want = h("%s/%s/%s.%d" % (c, p.qualified_name, name, t))
            if want in {x.uuid for x in children(p)}:
                continue
            n = f.generate_node(name, p)
            need(n.uuid == want, "identifier of node %r below %r is wrong", name, p.qualified_name)
            need(n.id_name == name and n.parent is p, "node is misplaced")
            nodes.append(n)
        elif o == "list" and nodes:
            p = nodes[st[4] % len(nodes)]
            names = ["%s_%d_%d" % (name, k, j) for j in range(3)]
            ns = f.generate_list_nodes(names, p)
            need([x.id_name for x in ns] == names and all(x.parent is p for x in ns), "list of nodes is wrong")
            need([x.uuid for x in ns] == [h("%s/%s/%s.%d" % (c, p.qualified_name, x, t)) for x in names],
                 "identifiers of the list of nodes are wrong")
        elif o in ("edge", "value") and nodes:
            p = nodes[st[4] % len(nodes)]
            want = h("%s/%s.%d" % (c, name, t))
            if want in {x.uuid for x in children(p)}:
                continue
            e = f.create_hyperedge(p, name) if o == "edge" else f.create_value(p, name, [1])
            need(e.uuid == want, "identifier of %s %r is wrong", o, name)
            need(e.id_name == name and e.parent is p, "%s is misplaced", o)
        elif o == "free":
            v = f.create_value(None, name)
            need(v.uuid == h("%s/%s.%d" % (c, name, t)) and v.parent is None, "identifier of free value is wrong")
            need(v.get_values() == [], "free value has contents")


def cases(rng, tier):
    n = 900 if tier == "quick" else 15000
    pool = ["a", "b", "ab", "", "x/y", "é", "a.b", "node", "0", "long name with blanks", " a", "a ", "A", "AB", "a\n",
            "e\u0301", "\u03b1", "x" * 40, "x" * 40 + "y", "a_b", "a-b", "a//b", "/a", "a/", "00", "None"]
    for _ in range(n):
        yield {"ctx": [rng.choice(pool) for _ in range(rng.randrange(1, 4))],
               "steps": [[rng.choice(["gen", "gen", "node", "child", "child", "list", "edge", "value", "free"]),
                          rng.randrange(3), rng.choice(pool), rng.choice([0, 0, 1, 1000]), rng.randrange(6)]
                         for _ in range(rng.randrange(1, 9))]}

from common import *
from c08 import pred, expected
import math
from rei.query.query_engine import HierarchicalPrepositionQuery, HypergraphQueryEngine


def allowed(x):
    return isinstance(x, (HypergraphNode, HypergraphRelation, HypergraphEdge, SemanticValueNode))


def check(case):
    els = build(case["tree"])
    eng = HypergraphQueryEngine("engine", b"00", "engine", DummyClock(), None)
    qs = {}

    def want(q):
        s, p, t = q
        f = pred(t)
        return [x for x in expected(els[s % len(els)], lambda x: allowed(x) and f(x), math.inf, False, "bfs")
                if pred(p)(x)]
    for st in case["steps"]:
        if st[0] == "add":
            name, q = st[1], st[2]
            qs[name] = q
            eng.add_query(name, HierarchicalPrepositionQuery(els[q[0] % len(els)], pred(q[1]), pred(q[2])))
        elif st[0] == "clear":
            qs = {}
            eng.clear()
        elif st[0] == "move":
            try:
                els[st[1] % len(els)].add_element(els[st[2] % len(els)])
            except Exception:
                pass
        else:
            if st[0] == "run":
                got = run(eng.execute())
            else:
                got = eng.execute_all_queries()
            w = [x for q in qs.values() for x in want(q)]
            need([id(x) for x in got] == [id(x) for x in w], "%s gave %s, expected %s", st[0],
                 [x.qualified_name for x in got], [x.qualified_name for x in w])
    return None


def cases(rng, tier):
    n = 900 if tier == "quick" else 15000
    for _ in range(n):
        size = rng.choice([1, 3, 7, 15])
        t = random_tree(rng, size, kinds=("node", "edge", "rel", "sem", "value", "node"), deep=rng.random() < .5)
        ps = [["true", None], ["kind", "node"], ["kind", "edge"], ["name", ["a"]], ["name", ["a", "b"]], ["none", None]]
        steps = []
        for _ in range(rng.randrange(1, 8)):
            r = rng.random()
            if r < .45:
                steps.append(["add", rng.choice("pqr"), [rng.choice([0, rng.randrange(size)]), rng.choice(ps),
                                                         rng.choice([["true", None]] * 2 + ps)]])
            elif r < .8:
                steps.append(["run"])
            elif r < .88:
                steps.append(["all"])
            elif r < .94:
                steps.append(["move", rng.randrange(size), rng.randrange(size)])
            else:
                steps.append(["clear"])
        steps.append(["run"])
        yield {"tree": t, "steps": steps}

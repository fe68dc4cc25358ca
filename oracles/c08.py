from common import *
import rei.foundations.hierarchical_traversal_strategies as ht
import math


def pred(p):
    kind, arg = p
    if kind == "true":
        return lambda x: True
    if kind == "kind":
        cls = {"node": HypergraphNode, "edge": HypergraphEdge, "item": ConceptualItem, "value": ValueNode}[arg]
        return lambda x: isinstance(x, cls)
    if kind == "name":
        return lambda x: x.id_name in arg
    return lambda x: False


def expected(start, f, depth, ignore, cls):
    out = []
    if f(start) and not ignore:
        out.append(start)
    if cls in ("bfs", "lbfs"):
        level = [(c, 1) for c in start.get_subelements(f)] if depth > 0 else []
        while level:
            e, d = level.pop(0)
            out.append(e)
            if d < depth:
                level.extend((c, d + 1) for c in children(e) if f(c))
    else:
        stack = [(c, 1) for c in children(start) if f(c)] if depth > 0 else []
        while stack:
            e, d = stack.pop()
            out.append(e)
            if d < depth:
                stack.extend((c, d + 1) for c in children(e) if f(c))
    return out


class Abort(Exception):
    pass


def mk(cls, vis, f, depth, ignore):
    if cls == "bfs":
        return ht.BreadthFirstHierarchicalTraversal(vis, f, ignore)
    if cls == "dfs":
        return ht.DepthFirstHierarchicalTraversal(vis, f, ignore)
    if cls == "lbfs":
        return ht.DepthLimitedBreadthVisitChildren(vis, f, depth, ignore)
    return ht.DepthLimitedDepthVisitChildren(vis, f, depth, ignore)


def check(case):
    els = build(case["tree"])
    prev = {}
    for st in case["steps"]:
        cls, depth, ignore, p, s, abort = st
        f = pred(p)
        dep = math.inf if cls in ("bfs", "dfs") else (math.inf if depth is None else depth)
        start = els[s % len(els)]
        seen = []

        def vis(x):
            seen.append(x)
            if abort is not None and len(seen) > abort:
                raise Abort()
            return ("r", len(seen))
        key = (cls, depth, ignore, repr(p))
        if key in prev and abort is None:
            tr, cell = prev[key]
        else:
            cell = []
            tr = mk(cls, lambda x, c=cell: c[0](x), f, dep, ignore)
            prev[key] = (tr, cell)
        cell[:] = [vis]
        want = expected(start, f, dep, ignore, cls)
        try:
            res = run(tr.execute(start))
        except Abort:
            continue
        need([id(x) for x in seen] == [id(x) for x in want] or cls in ("dfs", "ldfs"),
             "%s visited %s, expected %s", cls, [x.qualified_name for x in seen], [x.qualified_name for x in want])
        need(sorted(map(id, seen)) == sorted(map(id, want)), "%s visited %s, expected %s", cls,
             [x.qualified_name for x in seen], [x.qualified_name for x in want])
        if cls in ("dfs", "ldfs"):
            pos = {id(x): i for i, x in enumerate(seen)}
            for x in seen:
                if x is start:
                    need(pos[id(x)] == 0, "the start is not first")
                    continue
                if id(x.parent) in pos:
                    need(pos[id(x.parent)] < pos[id(x)], "%s before its parent", x.qualified_name)
                # subtree contiguous
                sub = [i for y, i in ((y, pos[id(y)]) for y in seen) if is_below(y, x)]
                need(max(sub) - min(sub) + 1 == len(sub), "subtree of %s is interrupted", x.qualified_name)
        need(res == [("r", i + 1) for i in range(len(seen))], "results %r do not follow the visits", res)
    return None


def is_below(y, x):
    while y is not None:
        if y is x:
            return True
        y = y.parent
    return False


def cases(rng, tier):
    big = [["node", "r", -1]] + [["node", "n", i] for i in range(60)]
    for cls in ("bfs", "dfs", "lbfs", "ldfs"):
        yield {"tree": big, "steps": [[cls, 59, False, ["true", None], 0, None]]}
    deep = [["node", "r", -1]] + [["node", "n", i] for i in range(300)]
    for cls in ("bfs", "lbfs"):
        yield {"tree": deep, "steps": [[cls, None if cls == "bfs" else 270, False, ["true", None], 0, None]]}
    yield {"tree": deep[:150], "steps": [["dfs", None, False, ["true", None], 0, None]]}
    wide = [["node", "r", -1]] + [["node", "n", 0] for i in range(1500)]
    for cls in ("bfs", "dfs"):
        yield {"tree": wide, "steps": [[cls, None, False, ["true", None], 0, None]]}
    n = 1500 if tier == "quick" else 25000
    for i in range(n):
        size = rng.choice([1, 2, 5, 9, 20])
        t = random_tree(rng, size, deep=rng.random() < .5)
        steps = []
        for _ in range(rng.randrange(1, 5)):
            steps.append([rng.choice(["bfs", "dfs", "lbfs", "ldfs"]), rng.choice([0, 1, 2, 3, 5, None]),
                          rng.random() < .4,
                          rng.choice([["true", None], ["kind", "node"], ["kind", "edge"], ["kind", "item"],
                                      ["kind", "value"], ["name", ["a"]], ["name", ["a", "b"]], ["none", None]]),
                          rng.choice([0, 0, rng.randrange(size)]),
                          None if rng.random() < .85 else rng.randrange(4)])
        yield {"tree": t, "steps": steps}

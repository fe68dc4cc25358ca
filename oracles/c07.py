from common import *
from rei.foundations.query import search_elements as se


def drain():
    """Empty every queue that is kept in a default argument (known finding C07-shared-fringe)."""
    for cls in (se.GraphQuery, se.QuerySearchElement, se.QuerySearchSubElement):
        for f in vars(cls).values():
            for d in (getattr(f, "__defaults__", None) or ()):
                if isinstance(d, asyncio.Queue):
                    while not d.empty():
                        d.get_nowait()


def walk(el):
    out, todo = [], [el]
    while todo:
        x = todo.pop()
        out.append(x)
        todo.extend(children(x))
    return out


def root(el):
    while el.parent is not None:
        el = el.parent
    return el


def true_name(el):
    s = el.id_name
    while el.parent is not None:
        el = el.parent
        s = el.id_name + "/" + s
    return s


def search(q, name, start):
    drain()
    q.query_def = name
    run(q.execute(start))
    return list(q.query_result)


def check(case):
    els = build(case["tree"])
    other = build(case["other"], base=1000)
    all_ = els + other
    qs = {"sub": se.QuerySearchSubElement(), "any": se.QuerySearchElement()}
    for st in case["steps"]:
        if st[0] == "move":
            try:
                all_[st[1] % len(all_)].add_element(all_[st[2] % len(all_)])
            except Exception:
                pass
            continue
        if st[0] == "drop":
            e = all_[st[1] % len(all_)]
            if e.parent is not None:
                list(e.parent.remove_element(uuid=e.uuid))
            continue
        if st[0] == "new":
            qs = {"sub": se.QuerySearchSubElement(), "any": se.QuerySearchElement()}
            continue
        _, kind, s, target, suffix = st
        start = all_[s % len(all_)]
        name = true_name(all_[target % len(all_)]) + suffix
        got = search(qs[kind], name, start)
        scope = walk(start if kind == "sub" else root(start))
        want = [e for e in scope if true_name(e) == name]
        need(len(got) <= 1, "search for %r returned %d elements", name, len(got))
        for g in got:
            need(true_name(g) == name and g.qualified_name == name, "search for %r returned %r", name, true_name(g))
            need(any(g is w for w in want), "search for %r returned an element outside of the searched hierarchy", name)
        need(bool(got) == bool(want), "search (%s) for %r from %r found nothing, but it exists", kind, name,
             true_name(start))
        again = search(qs[kind], name, start)
        need(len(again) == len(got), "repeating the search gives another result")
    return None


def cases(rng, tier):
    n = 1200 if tier == "quick" else 20000
    for i in range(n):
        size = rng.choice([1, 2, 4, 8, 15])
        names = ["a", "b", "c"][: rng.choice([1, 2, 3])] if rng.random() < .6 else ["n%d" % k for k in range(30)]
        if rng.random() < .2:
            names = names[:2] + ["a/b", "b/", "/c"]
        t = random_tree(rng, size, kinds=("node", "edge", "value", "sem", "node"), names=names, deep=rng.random() < .5)
        o = random_tree(rng, rng.choice([1, 3]), kinds=("node",), names=names)
        for x in o:
            pass
        steps = []
        tot = size + len(o)
        for _ in range(rng.randrange(1, 8)):
            r = rng.random()
            if r < .65:
                steps.append(["find", rng.choice(["sub", "any"]), rng.choice([0, rng.randrange(tot)]),
                              rng.randrange(tot), "" if rng.random() < .85 else rng.choice(["/x", "x", " "])])
            elif r < .8:
                steps.append(["move", rng.randrange(tot), rng.randrange(tot)])
            elif r < .9:
                steps.append(["drop", rng.randrange(tot)])
            else:
                steps.append(["new"])
        yield {"tree": t, "other": [[k, nm, p] for k, nm, p in o], "steps": steps}


def known():
    """The recorded history of finding C07-shared-fringe; returns the ids of the findings that still occur."""
    drain()
    els = build([["node", "r", -1], ["node", "a", 0], ["node", "b", 0]])
    q = se.QuerySearchSubElement()
    q.query_def = "r/a"
    run(q.execute(els[0]))
    q2 = se.QuerySearchSubElement()
    q2.query_def = "r/b"
    run(q2.execute(els[1]))
    found = list(q2.query_result)
    drain()
    return ["C07-shared-fringe"] if found else []

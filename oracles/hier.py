"""Reference model and histories for the containment properties C01..C06."""
from common import *
from rei.foundations.common_errors import ErrorDuplicateElement, ErrorRecursiveHierarchy, ErrorInvalidQuery

KINDS = ["item", "node", "edge", "rel", "value", "sem", "port"]


class M:
    """Model of one element."""

    def __init__(self, key, name, uid_, kind):
        self.key, self.name, self.uid, self.kind = key, name, uid_, kind
        self.parent = None
        self.kids = []          # in order of addition
        self.hist = 0
        self.cid = 0

    def path(self):
        return self.name if self.parent is None else self.parent.path() + "/" + self.name

    def depth(self):
        return 0 if self.parent is None else self.parent.depth() + 1

    def ancestors(self):
        m = self.parent
        while m is not None:
            yield m
            m = m.parent


class World:
    def __init__(self):
        self.clock = TickClock()
        self.real = []
        self.mod = []
        self.of = {}

    def new(self, kind, u, name):
        r = make(kind, u, name, self.clock)
        m = M(len(self.mod), name, uid(u), kind)
        self.real.append(r)
        self.mod.append(m)
        self.of[id(r)] = m
        return m

    def adopt(self, r, kind):
        """Register an element that the code created by itself (a port or a relation)."""
        m = M(len(self.mod), r.id_name, r.uuid, kind)
        self.real.append(r)
        self.mod.append(m)
        self.of[id(r)] = m
        return m

    # model operations -------------------------------------------------
    def m_add(self, p, c):
        if c is p or c in list(p.ancestors()):
            return ErrorRecursiveHierarchy
        if any(k.uid == c.uid for k in p.kids):
            return ErrorDuplicateElement
        if c.parent is not None:
            c.parent.kids.remove(c)
        p.kids.append(c)
        c.parent = p
        c.cid = p.hist
        p.hist += 1
        return None

    def m_match(self, p, name, u):
        """children matched, or the exception class(es) expected"""
        if name == "" and u is None:
            return ErrorInvalidQuery
        if u is not None:
            r = [k for k in p.kids if k.uid == u and (name == "" or k.name == name)]
            return r if r else KeyError
        return [k for k in p.kids if k.name == name]

    def m_remove(self, ms):
        for m in ms:
            m.parent.kids.remove(m)
            m.parent = None

    # comparison ---------------------------------------------------------
    def compare(self, what, only=None):
        for r, m in zip(self.real, self.mod):
            want = [self.real[k.key] for k in m.kids]
            got = list(r.get_subelements(lambda x: True))
            if what in ("C01", "C03", "C06"):
                need(sorted(map(id, got)) == sorted(map(id, want)),
                     "%s contains %s, expected %s", m.name, [g.id_name for g in got], [w.id_name for w in want])
                need(r.parent is (None if m.parent is None else self.real[m.parent.key]),
                     "parent of %s is %s, expected %s", m.name, r.parent and r.parent.id_name,
                     m.parent and m.parent.name)
            if what in ("C01", "C03"):
                if hasattr(r, "cnt_subelements"):
                    need(r.cnt_subelements == len(want), "%s reports %s subelements, has %s", m.name,
                         r.cnt_subelements, len(want))
                for nm in {k.name for k in self.mod}:
                    look = getattr(r, "get_element_by_id_name", None)
                    if look is None:
                        continue
                    g = list(look(nm))
                    w = [x for x in want if x.id_name == nm]
                    need(sorted(map(id, g)) == sorted(map(id, w)),
                         "%s finds %d children named %s, expected %d", m.name, len(g), nm, len(w))
                for k in want:
                    if isinstance(r, HypergraphNode):
                        need(r[k.uuid] is k, "child of %s by identifier is another element", m.name)
                if isinstance(r, HypergraphNode):
                    for k in self.mod:
                        if k.uid not in {w.uuid for w in want}:
                            try:
                                r[k.uid]
                            except KeyError:
                                continue
                            need(False, "%s still has an element by an identifier that it does not contain", m.name)
                    need([id(x) for x in r.sub_nodes] == [id(x) for x in got if isinstance(x, HypergraphNode)],
                         "sub_nodes differ")
                    need([id(x) for x in r.sub_edges] == [id(x) for x in got if isinstance(x, HypergraphEdge)],
                         "sub_edges differ")
                    need([id(x) for x in r.sub_values] == [id(x) for x in got if isinstance(x, ValueNode)],
                         "sub_values differ")
                if isinstance(r, HypergraphEdge):
                    need([id(x) for x in r.sub_relations] == [id(x) for x in got if isinstance(x, HypergraphRelation)],
                         "sub_relations differ")
            if what in ("C02", "C03"):
                need(r.qualified_name == m.path(), "qualified name %r, expected %r", r.qualified_name, m.path())
                need(r.depth == m.depth(), "depth of %s is %s, expected %s", m.path(), r.depth, m.depth())
            if what in ("C03", "C04", "C06"):
                need([id(g) for g in got] == [id(w) for w in want], "order of children of %s is %s, expected %s",
                     m.name, [g.id_name for g in got], [w.id_name for w in want])
                for k, g in zip(m.kids, got):
                    need(g.cid == k.cid, "ordinal of %s is %s, expected %s", k.name, g.cid, k.cid)


def snapshot(w):
    return [(r.parent, r.qualified_name, r.depth, r.cid, r.uuid, r.id_name, getattr(r, "cnt_subelements", None),
             getattr(r, "timestamp", None), tuple(map(id, r.get_subelements(lambda x: True)))) for r in w.real]


def is_graph(m):
    return m.kind in ("node", "edge")


def play(ops, what):
    w = World()
    step = -1
    try:
        for step, op in enumerate(ops):
            one(w, op, what)
            if what != "C05":
                w.compare(what)
    except Fail as e:
        return "step %d %s: %s" % (step, ops[step], e)
    return None


def lookup(m, toks):
    cur = [m]
    for t in toks:
        cur = [k for c in cur for k in c.kids if k.name == t]
    return cur


def one(w, op, what):
    o = op[0]
    if o == "new":
        _, kind, u, name, par = op
        if par is not None and par >= len(w.mod):
            return
        if par is not None and w.mod[par].kind == "rel" and kind in ("node", "edge"):
            return
        if par is not None and kind in ("item", "node", "edge"):
            # constructor with a parent attaches the element
            p = w.mod[par]
            dup = any(k.uid == uid(u) for k in p.kids)
            before = snapshot(w)
            try:
                r = make(kind, u, name, w.clock, w.real[par])
            except ErrorDuplicateElement:
                need(dup, "constructor refused a new identifier")
                if what == "C03":
                    need(snapshot(w) == before, "a refused construction changed the hierarchy")
                return
            if what == "C03":
                need(not dup, "constructor accepted a duplicate identifier")
            elif dup:
                raise Fail("duplicate identifier accepted")
            m = M(len(w.mod), name, uid(u), kind)
            w.real.append(r)
            w.mod.append(m)
            w.of[id(r)] = m
            w.m_add(p, m)
            return
        m = w.new(kind, u, name)
        if par is not None:
            one(w, ["add", par, m.key], what)
        return
    if o == "grow":
        # a subtree is built first, with the qualified names it will have, and then put in its place
        p = op[1]
        if p >= len(w.mod) or w.mod[p].kind == "rel":
            return
        path, top = w.mod[p].path(), len(w.mod)
        for i, nm in enumerate("ghi"):
            path += "/" + nm
            r = HypergraphNode(nm, uid(1000 + top + i), path, w.clock, w.real[-1] if i else None)
            m = w.adopt(r, "node")
            if i:
                w.m_add(w.mod[-2], m)
        one(w, ["add", p, top], what)
        return
    if o in ("add", "register", "adds"):
        _, p, c = op
        if p >= len(w.mod) or c >= len(w.mod):
            return
        mp, mc = w.mod[p], w.mod[c]
        if mp.kind == "rel" and is_graph(mc):
            return
        if o == "register" and not is_graph(mc):
            return
        before = snapshot(w)
        exp = w.m_add(mp, mc)
        try:
            if o == "add":
                w.real[p].add_element(w.real[c])
            elif o == "adds":
                if not hasattr(w.real[p], "add_elements"):
                    w.real[p].add_element(w.real[c])
                else:
                    run(w.real[p].add_elements([w.real[c]]))
            else:
                w.real[c].register(w.real[p])
            got = None
        except Fail:
            raise
        except Exception as e:
            got = e
        if exp is None:
            need(got is None, "raised %r", got)
        elif what in ("C01", "C03", "C02", "C04"):
            need(got is not None, "was accepted, expected %s", exp.__name__)
            if what == "C03":
                need(isinstance(got, exp), "raised %r, expected %s", got, exp.__name__)
                need(snapshot(w) == before, "a rejected addition changed the hierarchy")
        elif got is None:
            raise Fail("was accepted, expected %s" % exp.__name__)
        return
    if o in ("rm", "rms", "dereg"):
        _, p, name, u = op
        if p >= len(w.mod):
            return
        mp = w.mod[p]
        if o == "dereg":
            if not is_graph(mp):
                return
            match = [mp] if mp.parent is not None else []
            act = lambda: w.real[p].deregister()
        else:
            uu = None if u is None else uid(u)
            match = w.m_match(mp, name, uu)
            if o == "rm" or not hasattr(w.real[p], "remove_elements"):
                if uu is None:
                    act = lambda: list(w.real[p].remove_element(name))
                elif name == "":
                    act = lambda: list(w.real[p].remove_element(uuid=uu))
                else:
                    act = lambda: list(w.real[p].remove_element(name, uu))
            else:
                act = lambda: run(w.real[p].remove_elements([(name, uu)]))
        before = snapshot(w)
        try:
            got = act()
            exc = None
        except Fail:
            raise
        except Exception as e:
            exc = e
        if isinstance(match, list):
            if not match and o != "dereg":
                # unknown name: nothing happens, with or without an error
                if exc is None:
                    need(got == [], "removed something by a name nothing has")
                if what == "C03":
                    need(snapshot(w) == before, "a removal that matches nothing changed the hierarchy")
                return
            need(exc is None, "raised %r", exc)
            if what in ("C06", "C01") and o != "dereg":
                need([id(g) for g in got] == [id(w.real[m.key]) for m in match] or
                     sorted(id(g) for g in got) == sorted(id(w.real[m.key]) for m in match),
                     "yielded %s, expected %s", [getattr(g, "id_name", g) for g in got], [m.name for m in match])
            w.m_remove(match)
        else:
            if what == "C03":
                need(exc is not None, "was accepted, expected %s", match.__name__)
                need(isinstance(exc, match), "raised %r, expected %s", exc, match.__name__)
                need(snapshot(w) == before, "a rejected removal changed the hierarchy")
            else:
                need(exc is not None, "was accepted, expected %s", match.__name__)
        return
    if o == "connect":       # edge p connects element c
        _, p, c, sem = op
        if p >= len(w.mod) or c >= len(w.mod):
            return
        mp, mc = w.mod[p], w.mod[c]
        if mp.kind != "edge" or not is_graph(mc) or mp is mc:
            return
        rel_uid = hashlib.sha3_224(("%s/%s" % (mp.name, mc.name)).encode()).digest()
        if any(k.uid == rel_uid for k in mp.kids):
            return
        msem = None
        if sem is not None and sem < len(w.mod) and w.mod[sem].kind == "sem" and w.mod[sem] is not mp \
                and w.mod[sem] not in list(mp.ancestors()):
            msem = w.mod[sem]
        known = set(w.of)
        w.real[p].unary_connect(w.real[c], None, BI, None if msem is None else w.real[msem.key])
        rels = [k for k in w.real[p].get_subelements(lambda x: True) if id(k) not in known]
        need(len(rels) == 1 and isinstance(rels[0], HypergraphRelation), "connecting created %d relations", len(rels))
        ports = [k for k in w.real[c].get_subelements(lambda x: True) if id(k) not in known]
        need(len(ports) == 1 and isinstance(ports[0], HypergraphPort), "connecting created %d ports", len(ports))
        mport = w.adopt(ports[0], "port")
        mrel = w.adopt(rels[0], "rel")
        w.m_add(mc, mport)
        if msem is not None:
            w.m_add(mrel, msem)
        w.m_add(mp, mrel)
        return
    if o == "disconnect":
        _, c, r = op
        if c >= len(w.mod) or r >= len(w.mod):
            return
        mc, mr = w.mod[c], w.mod[r]
        ports = [k for k in mc.kids if k.kind == "port" and w.real[k.key].endpoint is w.real[mr.key]]
        if len(ports) != 1 or not is_graph(mc) or getattr(w.real[c], "_ports", {}).get(mr.uid) is not \
                w.real[ports[0].key]:
            return
        w.real[c].disconnect(w.real[mr.key])
        w.m_remove(ports)
        return
    if o == "look":
        _, p, path = op
        if p >= len(w.mod):
            return
        r = w.real[p]
        if not hasattr(r, "get_element_by_id_name"):
            return
        before = snapshot(w)
        got = list(r.get_element_by_id_name(path))
        want = [w.real[m.key] for m in lookup(w.mod[p], path.split("/"))]
        need(sorted(map(id, got)) == sorted(map(id, want)), "found %s, expected %s",
             [g.qualified_name for g in got], [x.qualified_name for x in want])
        need(snapshot(w) == before, "the lookup changed the hierarchy")
        return
    raise AssertionError(op)


def history(rng, n, what):
    ops = []
    names = ["a", "b", "c"][: rng.choice([1, 2, 3])]
    kinds = KINDS if rng.random() < 0.7 else ["node", "edge", "item"]
    cnt = 0
    nuid = rng.choice([4, 12, 40])
    chain = rng.random() < 0.4
    pre = rng.randrange(2, 7)
    for i in range(pre):
        ops.append(["new", rng.choice(kinds) if i else rng.choice(["item", "node", "edge"]),
                    cnt if rng.random() < 0.8 else rng.randrange(nuid), rng.choice(names),
                    None if cnt == 0 else ((cnt - 1) if chain else rng.choice([None, rng.randrange(cnt)]))])
        cnt += 1
    for _ in range(n):
        r = rng.random()
        if r < 0.18:
            ops.append(["new", rng.choice(kinds), rng.choice([cnt, rng.randrange(nuid)]), rng.choice(names),
                        rng.choice([None, rng.randrange(cnt)])])
            cnt += 1
        elif r < 0.2:
            ops.append(["grow", rng.randrange(cnt)])
            cnt += 3
        elif r < 0.52:
            ops.append([rng.choice(["add", "add", "add", "register", "adds"]), rng.randrange(cnt), rng.randrange(cnt)])
        elif r < 0.82:
            mode = rng.randrange(8)
            p = rng.randrange(cnt)
            # prefer identifiers and names of existing elements
            u = rng.choice([o[2] for o in ops if o[0] == "new"] + [rng.randrange(nuid)])
            nm = rng.choice(names)
            if mode <= 2:
                ops.append([rng.choice(["rm", "rms"]), p, "", u])
            elif mode <= 4:
                ops.append([rng.choice(["rm", "rms"]), p, nm, None])
            elif mode == 5:
                ops.append([rng.choice(["rm", "rms"]), p, nm, u])
            elif mode == 6:
                ops.append(["rm", p, "", None])
            else:
                ops.append(["dereg", p, "", None])
        elif r < 0.93:
            ops.append(["connect", rng.randrange(cnt), rng.randrange(cnt), rng.choice([None, rng.randrange(cnt)])])
            if rng.random() < 0.8:
                cnt += 2
        else:
            ops.append(["disconnect", rng.randrange(cnt), rng.randrange(cnt)])
        if what == "C05" and rng.random() < 0.7:
            for _ in range(2):
                ops.append(["look", rng.randrange(cnt),
                            "/".join(rng.choice(names + ["zz"] if rng.random() < .2 else names)
                                     for _ in range(rng.randrange(1, 5)))])
    return ops


def systematic(what):
    """Small complete patterns: chains, moves of subtrees, removals by each mode, on each kind."""
    for kp in KINDS:
        for kc in KINDS:
            if kp == "rel" and kc in ("node", "edge"):
                continue
            base = [["new", kp, 0, "p", None], ["new", kc, 1, "c", 0], ["new", kc, 2, "c", 0], ["new", kc, 3, "d", 0],
                    ["new", "item", 4, "q", None]]
            for tail in ([["rm", 0, "", 1]], [["rm", 0, "c", None]], [["rm", 0, "c", 2]], [["rm", 0, "d", 1]],
                         [["rm", 0, "", None]], [["rm", 0, "", 99]], [["rm", 0, "zz", None]],
                         [["add", 4, 1], ["add", 4, 2], ["add", 0, 1]], [["add", 0, 1]], [["add", 1, 0]],
                         [["add", 4, 1], ["rm", 4, "", 1], ["new", kc, 1, "e", 0]],
                         [["rm", 0, "", 3], ["new", kc, 5, "f", 0], ["rm", 0, "c", 1], ["new", kc, 6, "g", 0]]):
                yield base + tail
    chain = [["new", "node", 0, "r", None]] + [["new", "node", i, "n%d" % i, i - 1] for i in range(1, 6)] + \
            [["new", "node", 6, "s", None], ["new", "node", 7, "t", 6]]
    for tail in ([["add", 7, 1]], [["add", 7, 2], ["rm", 2, "", 3]], [["rm", 0, "", 1]], [["rm", 0, "n1", None]],
                 [["rm", 0, "n1", 1]], [["add", 5, 0]], [["add", 4, 2]], [["add", 3, 1]], [["dereg", 2, "", None]],
                 [["dereg", 1, "", None], ["register", 7, 1], ["register", 0, 1]],
                 [["add", 7, 1], ["add", 7, 0], ["add", 1, 6]]):
        yield chain + tail
    yield [["new", "node", 0, "r", None], ["grow", 0], ["grow", 2], ["add", 0, 4], ["rm", 2, "h", None], ["grow", 3]]
    long = [["new", "node", i, "n%d" % (i % 3), i - 1 if i else None] for i in range(60)]
    for tail in ([["rm", 0, "", 1]], [["rm", 30, "n1", None]], [["add", 59, 0]], [["add", 59, 30]],
                 [["new", "node", 60, "q", None], ["add", 60, 30], ["add", 0, 60], ["rm", 29, "", 30], ["add", 0, 59]]):
        yield long + tail
    # wide: many children of equal name
    for n in (9, 17, 40):
        base = [["new", "node", 0, "p", None], ["new", "node", 1, "q", None]] + \
            [["new", KINDS[i % 7] if i % 7 != 3 else "sem", 2 + i, "c" if i % 5 else "d", 0] for i in range(n)]
        for tail in ([["rm", 0, "c", None]], [["rm", 0, "c", None], ["rm", 0, "d", None]], [["rms", 0, "c", None]],
                     [["add", 1, 2 + i] for i in range(n)] + [["rm", 1, "c", None]],
                     [["rm", 0, "", 2 + i] for i in range(0, n, 2)] + [["rm", 0, "c", None], ["add", 0, 2]]):
            yield base + tail
    for sem in (None, 5):
        yield [["new", "node", 0, "g", None], ["new", "node", 1, "a", 0], ["new", "node", 2, "b", 0],
               ["new", "edge", 3, "e", 0], ["new", "edge", 4, "f", 0], ["new", "sem", 5, "s", None],
               ["connect", 3, 1, sem], ["connect", 3, 2, None], ["connect", 4, 1, None], ["rm", 3, "", 2],
               ["add", 4, 7], ["add", 4, 9], ["disconnect", 1, 7], ["rm", 0, "e", None], ["rm", 4, "f", None]]


def gen(rng, tier, what):
    if what == "C05":
        for ops in systematic(what):
            ops = list(ops)
            for p in range(3):
                for path in ("p", "c", "d", "p/c", "c/c", "zz", "zz/a", "c/zz", "n1/n2/n3", "n2/n3", "e/", "", "a/b/c"):
                    ops.append(["look", p, path])
            yield {"ops": ops}
        # long paths: names all different, all equal, branching, missing at the end
        for n in (5, 9, 40):
            deep = [["new", "node", 0, "r", None]] + [["new", "node", i, "n%d" % i, i - 1] for i in range(1, n)]
            same = [["new", "node", 0, "c", None]] + [["new", "node", i, "c", i - 1] for i in range(1, n)]
            full = ["n%d" % i for i in range(1, n)]
            yield {"ops": deep + [["look", 0, "/".join(full[:k])] for k in range(1, n)] +
                   [["look", 0, "/".join(full[:k] + ["zz"])] for k in range(1, n)] +
                   [["look", k, "/".join(full[k:])] for k in range(1, n - 1)]}
            yield {"ops": same + [["new", "node", n, "c", 0], ["new", "node", n + 1, "d", n // 2]] +
                   [["look", k, "/".join(["c"] * m + t)] for k in (0, 1, n // 2) for m in range(1, n)
                    for t in ([], ["d"])]}
        # relation, port and value on the path
        yield {"ops": [["new", "node", 0, "g", None], ["new", "edge", 1, "e", 0], ["new", "rel", 2, "r", 1],
                       ["new", "sem", 3, "s", 2], ["new", "value", 4, "v", 0], ["new", "sem", 5, "w", 4],
                       ["new", "port", 6, "po", 0], ["new", "sem", 7, "x", 6],
                       ["look", 0, "e/r/s"], ["look", 0, "v/w"], ["look", 0, "po/x"], ["look", 0, "e/r/q"],
                       ["look", 0, "v/zz"], ["look", 1, "r/s"]]}
    else:
        for ops in systematic(what):
            yield {"ops": ops}
    n = 1500 if tier == "quick" else 40000
    for i in range(n):
        yield {"ops": history(rng, rng.choice([3, 6, 12, 25]), what)}


def shrink(case, what):
    ops = case["ops"]
    i = len(ops) - 1
    # removing "new" operations would shift indices: only drop other operations
    while i >= 0:
        if ops[i][0] != "new":
            cand = ops[:i] + ops[i + 1:]
            try:
                if play(cand, what):
                    ops = cand
            except Exception:
                ops = cand
        i -= 1
    return {"ops": ops}

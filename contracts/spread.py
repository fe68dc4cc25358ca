"""C11: what the tensors of a graph hold."""
import ast

from .indexing import *
from .hierarchy import _e, _k, _n, _c
from pyvc import nd

T = ("C11",)
TR = "tensor.tensor_representation:"
TE = "foundations.hypergraph_traversal_strategies:HypergraphTraversal."
CLS = "NumpyTensorRepresentation"
FIELDS = {"_weight_tensor": "W", "_incidence_matrix_out": "Io", "_incidence_matrix_in": "Ii"}
AXES = {"W": 3, "Io": 2, "Ii": 2}
# SAYS(e, i, j, w): some relation of the edge with index e says that its entry at i, j is w; the other two: for some j, for some i
SAYS = {"W": Function("SAYS", I, I, I, R, B), "Io": Function("SAYS_out", I, I, R, B), "Ii": Function("SAYS_in", I, I, R, B)}


def cell(x, e, i, j):
    """The indices at which an entry (e, i, j) shows in an array."""
    return {"W": (e, i, j), "Io": (e, i), "Ii": (e, j)}[x]


def parts(v):
    """What travels through the queue: first node, second node, edge, weight, norm."""
    p = tupf(5)[1]
    return unI(p[2](v)), unI(p[0](v)), unI(p[1](v)), unR(p[3](v))


def entry(v):
    """A member of a list of entries."""
    p = tupf(5)[1]
    return And(v == tupf(5)[0](*[f(v) for f in p]), *[p[k](v) == boxI(unI(p[k](v))) for k in (0, 1, 2)], p[3](v) == boxR(unR(p[3](v))))


def good(v, m, n):
    """An entry that some relation says, with its indices."""
    e, i, j, w = parts(v)
    return And(entry(v), 0 <= e, e < m, 0 <= i, i < n, 0 <= j, j < n, *[SAYS[x](*cell(x, e, i, j), w) for x in SAYS])


def arrays(eng, rep, st=None):
    """x -> (reference, content) of the arrays of a representation."""
    out = {}
    for f, x in FIELDS.items():
        r = eng.sel(eng.H("f:" + f, st), rep, deep=True)
        out[x] = (r, eng.sel(eng.H("NDV", st), r, deep=True))
    return out


def at(x, c, *ix):
    return AT[AXES[x]](c, *ix)


def holding(eng, rep, m, n, st=None):
    """The representation has three arrays of the right shape, of its own."""
    a = arrays(eng, rep, st)
    st = st or eng.st
    return And([Distinct(*[r for r, _ in a.values()])] + [And(cls(r) == C_NPARRAY, birth(r) < st.now, *[SHP(c, k) == s for k, s in enumerate(
        [m, n, n][:AXES[x]])]) for x, (r, c) in a.items()])


def lists_of(eng, s, body, h=None, l=None, st=None):
    """Every list in the queue s."""
    p, k = Int("p!"), Int("k!")
    qe = eng.sel(eng.H("QE", st), s, True)
    h = eng.sel(eng.H("QH", st), s, True) if h is None else h
    l = eng.sel(eng.H("QL", st), s, True) if l is None else l
    c = eng.named("LC", st)[qe[p]]
    x = qelt(c, k)
    return FA([p, k], Implies(And(h <= p, p < l, 0 <= k, k < qlen(c)), body(x)), x)


def fill_setup(make):
    eng = make()
    start(eng)
    eng.nd_fields = {f: AXES[x] for f, x in FIELDS.items()}
    eng.content_in = content_in(eng)
    rep = param(eng, "self", exact=CLS)
    m, n = Int("arg_m"), Int("arg_n")
    eng.assume(And(m >= 0, n >= 0, holding(eng, rep.t, m, n)))
    return eng, rep, m, n


def stored(eng, rep, s, h, l, st0):
    """What filling has done for the lists h..l of the queue: everything is said by a relation, every entry has a place."""
    e, i, j = Int("e!"), Int("i!"), Int("j!")
    out = []
    a0 = arrays(eng, rep, st0)
    for x, (r, _) in a0.items():
        ix = cell(x, e, i, j)
        A = lambda st, r=r: eng.sel(eng.H("NDV", st), r, True)
        u = list(dict.fromkeys(ix))
        out.append(("%s: every entry is said or was there" % x, lambda st, x=x, A=A, u=u: FA(u, Or(
            SAYS[x](*u, at(x, A(st), *u)), at(x, A(st), *u) == at(x, A(st0), *u)), at(x, A(st), *u))))
        out.append(("%s: every pair has its entry" % x, lambda st, x=x, A=A: lists_of(
            eng, s, lambda v: SAYS[x](*cell(x, *parts(v)[:3]), at(x, A(st), *cell(x, *parts(v)[:3]))), h, l(st), st0)))
        out.append(("%s: the shape stays" % x, lambda st, x=x, A=A: And([SHP(A(st), k) == SHP(A(st0), k) for k in range(AXES[x])])))
    return out


@unit("spread.fill", "C11", " ".join(TR + CLS + "." + x for x in ("fill_weights", "fill_tensors")))
def u_fill(make):
    """Whatever lists of entries are in the queue."""
    eng, rep, m, n = fill_setup(make)
    q = param(eng, "q")
    eng.assume(cls(q.t) == C_DEQUE)
    q = VObj(q.t, kind="queue")
    q.flavour = "sq"
    s = eng.sel(eng.H("f:$dq"), q.t)
    qe, h0, l0 = (eng.sel(eng.H(k), s, True) for k in ("QE", "QH", "QL"))
    eng.known(s)
    eng.assume(And(cls(s) == C_DEQUE, h0 <= l0))
    p = Int("p!")
    eng.assume(FA([p], Implies(And(h0 <= p, p < l0), And(cls(qe[p]) == C_LIST, birth(qe[p]) < eng.st.now)), qe[p]))
    eng.assume(lists_of(eng, s, lambda v: good(v, m, n)))
    st0 = eng.st.copy()

    def on_get(e, qq, s_, i, v):
        e.oblige(And(s_ == s, h0 <= i, i < l0, v == qe[i], cls(v) == C_LIST), "what is taken is a list of the queue", ("type",))
        return VObj(v, kind="list")
    eng.on_get = on_get
    tl = param(eng, "task_list", kind="list")

    def candidates(ctx):
        if ("h", "NDV") not in ctx.M:
            return
        base = ctx.st0
        e, i, j, k = Int("e!"), Int("i!"), Int("j!"), Int("k!")
        for x, (r, _) in arrays(eng, rep.t, st0).items():
            A = lambda st, r=r: eng.sel(eng.H("NDV", st), r, True)
            u = list(cell(x, e, i, j))
            yield "%s: kept" % x, lambda st, x=x, A=A, u=u: FA(u, Implies(SAYS[x](*u, at(x, A(base), *u)), SAYS[x](*u, at(x, A(st), *u))), at(
                x, A(st), *u), at(x, A(base), *u))
            if ctx.src is not None and ctx.src.seq is not None:
                v = qelt(ctx.src.seq, k)
                c = cell(x, *parts(v)[:3])
                yield "%s: so far" % x, lambda st, x=x, A=A, v=v, c=c: FA([k], Implies(And(
                    0 <= k, k < st.ghost[ctx.src.idx]), SAYS[x](*c, at(x, A(st), *c))), v)
        for nm, f in stored(eng, rep.t, s, h0, lambda st: eng.sel(eng.H("QH", st), s, True), st0):
            yield nm, f
        if ctx.src is None:
            yield "the queue is taken from", lambda st: And(h0 <= eng.sel(eng.H("QH", st), s, True), eng.sel(eng.H("QH", st), s, True) <= l0)
    eng.candidates = candidates
    for o in outcomes(eng, lambda: eng.await_(call_method(eng, rep, "fill_weights", [q, tl]))):
        if only_raises(eng, o, (), T) == "":
            for nm, f in stored(eng, rep.t, s, h0, lambda st: l0, st0):
                eng.oblige(f(eng.st), nm, T)
            r = Const("r!", V)
            for f in FIELDS:
                eng.oblige(eng.H("f:" + f)[rep.t] == eng.H("f:" + f, st0)[rep.t], "%s: the same array" % FIELDS[f], T)
            own3 = [r for r, _ in arrays(eng, rep.t, st0).values()]
            eng.oblige(FA([r], Implies(And([birth(r) < st0.now] + [r != t for t in own3]), eng.named("NDV")[r] == eng.named("NDV", st0)[r]), eng.named(
                "NDV")[r]), "other arrays stay", T)


@unit("spread.fill.nothing", "C11", TR + CLS + ".fill_weights")
def u_fill_nothing(make):
    """An empty queue changes nothing, whatever arrays there are."""
    eng = make()
    start(eng)
    eng.nd_fields = {f: AXES[x] for f, x in FIELDS.items()}
    rep = param(eng, "self", exact=CLS)
    q = param(eng, "q")
    eng.assume(cls(q.t) == C_DEQUE)
    q = VObj(q.t, kind="queue")
    q.flavour = "sq"
    s = eng.sel(eng.H("f:$dq"), q.t)
    h0, l0 = (eng.sel(eng.H(k), s, True) for k in ("QH", "QL"))
    eng.known(s)
    eng.assume(And(cls(s) == C_DEQUE, h0 == l0))
    st0 = eng.st.copy()
    for o in outcomes(eng, lambda: eng.await_(call_method(eng, rep, "fill_weights", [q, param(eng, "task_list", kind="list")]))):
        if only_raises(eng, o, (), T) == "":
            unchanged(eng, st0)
            eng.oblige(BoolVal(True), "an empty queue is left alone", T)


# ---------------------------------------------------------------------- the traversal
NIX, EIX = Function("NIX", V, I), Function("EIX", V, I)        # the index of a node or edge by its identifier
NORM = Function("NORM", Q, R)                                  # the norm of some values
SIDES = {"in": ("INWARDS", "BIDIRECTIONAL"), "out": ("OUTWARDS", "BIDIRECTIONAL")}


def gf(eng, f, x, st=None):
    return eng.sel(eng.H("f:" + f, st), x)


WEIGHT = Function("WEIGHT", V, R)


def WT(eng, r):
    """The weight of a relation: the norm of its values, 1 if it has none."""
    w = gf(eng, "_weight", r)           # (weights are read only)
    return If(w == NONE, RealVal(1), NORM(eng.given[gf(eng, "_values", w)]))


def says(eng, r, side):
    return incident(eng, r, *SIDES[side])


def is_rel(eng, r, s):
    """A relation of an edge that is directly in s."""
    e = gf(eng, "_parent", r)
    return And(eng.H("ELS")[r], is_a(eng, r, "HypergraphRelation"), e != NONE, is_a(eng, e, "HypergraphEdge"), gf(eng, "_parent", e) == s)


def incidence_value(eng, r):
    """What the constructor of a relation establishes and nothing else writes (unit spread.relation)."""
    a = gf(eng, "_relation_incidence_value", r)
    c = eng.H("NDV")[a]
    d = gf(eng, "_direction", r)
    one = lambda side: If(Or([d == lit("enum", "%s.%s" % (DIR, x)) for x in SIDES[side]]), RealVal(1), RealVal(0))
    return And(a != NONE, cls(a) == C_NPARRAY, birth(a) < eng.st.now, SHP(c, 0) == 2, AT[1](c, 0) == one("in"), AT[1](c, 1) == one("out"), Or(
        [d == lit("enum", "%s.%s" % (DIR, x)) for x in ("INWARDS", "OUTWARDS", "BIDIRECTIONAL")]))


def graph(eng, s):
    """A graph whose edges connect its direct nodes."""
    r, x = Const("r!", V), Const("x!", V)
    H = lambda f: eng.named("f:" + f)
    eng.assume(is_a(eng, s, "HypergraphNode"))
    d, w = H("_endpoint"), H("_weight")
    ep = d[r]
    eng.assume(FA([r], Implies(is_rel(eng, r, s), And(ep != NONE, is_node(eng, ep, s), birth(ep) < eng.st.now, Or(w[r] == NONE, And(
        eng.H("ELS")[w[r]], is_a(eng, w[r], "ValueNode"), w[r] != NONE, FisH(w[r]), birth(w[r]) < eng.st.now)))), d[r], w[r]))
    eng.assume(FA([r], Implies(And(eng.H("ELS")[r], is_a(eng, r, "HypergraphRelation")), incidence_value(eng, r)), H("_relation_incidence_value")[r], H("_direction")[r]))
    eng.assume(FA([x], Implies(eng.H("ELS")[x], BYUID(UID(x)) == x), UID(x)))
    eng.note("identifiers of elements are distinct")
    eng.given = eng.named("LC")


BYUID = Function("BYUID", V, V)


def is_node(eng, x, s):
    return And(FisH(x), eng.H("ELS")[x], is_a(eng, x, "HypergraphNode"), gf(eng, "_parent", x) == s)


def is_edge(eng, x, s):
    return And(FisH(x), eng.H("ELS")[x], is_a(eng, x, "HypergraphEdge"), gf(eng, "_parent", x) == s)


def use_numbering(eng, s):
    """The indices of direct nodes and edges (shown in the unit spread.index)."""
    def index(of, F, what):
        def f(e, me, a, k):
            u = e.box(a[0])
            e.oblige(of(e, BYUID(u), s), "the %s that is looked up is a direct one" % what, T)
            return VInt(F(u))
        return Contract("IndexHomomorphismGraphTensor." + what, f)
    eng.stored_ints = [NIX, EIX]
    for nm, of, F in (("node", is_node, NIX), ("edge", is_edge, EIX)):
        eng.contracts[method(eng, CN, nm).qual] = index(of, F, nm)


class Spread:
    """The ghost state of one traversal of relations."""

    def __init__(self, eng, s, vis):
        self.eng, self.s, self.vis = eng, s, vis
        self.queues = []
        g = eng.st.ghost
        for k in ("PUT", "GOT", "SAID_in", "SAID_out"):
            g[k] = K(V, BoolVal(False))
        g["PUTAT"] = K(V, IntVal(0))
        g["GIVEN"] = K(V, BoolVal(False))
        g["AS"] = K(V, eng.fresh("nothing", Q))
        g["CUR"] = s
        self.now = eng.st.now
        eng.on_put, eng.on_get, eng.on_user_call = self.on_put, self.on_get, self.on_call

    def inside(self, x):
        eng = self.eng
        return Or(x == self.s, is_edge(eng, x, self.s), is_rel(eng, x, self.s))

    def item(self, v):
        return tupf(2)[1][0](v)

    def on_put(self, eng, q, s, i, v):
        x = simplify(v.arg(0)) if is_app(v) and v.decl().eq(tupf(2)[0]) else self.item(v)
        if not any(s.eq(t) for t in self.queues):
            self.queues.append(s)
        g = eng.st.ghost
        g["PUT"] = Store(g["PUT"], x, BoolVal(True))
        g["PUTAT"] = Store(g["PUTAT"], x, i)

    def on_get(self, eng, q, s, i, v):
        x = self.item(v)
        h = elements(eng)
        eng.oblige(And(FisH(x), eng.H("ELS")[x], eng.isa(x, h), v == tupf(2)[0](x, boxI(0)), self.inside(x)), "what is taken from the fringe is the "
                   "graph, an edge or a relation", ("type",))
        eng.assume(birth(x) < eng.st.now)
        g = eng.st.ghost
        g["GOT"] = Store(g["GOT"], x, BoolVal(True))
        g["CUR"] = x
        return VTup([VObj(x, cls=h), VInt(0)])

    def on_call(self, eng, f, args):
        if not f.t.eq(self.vis):
            raise E.Unsupported("call of %s" % f.t)
        g = eng.st.ghost
        r = g["CUR"]
        if not (isinstance(args[0], VObj) and args[0].kind == "list"):
            raise E.Unsupported("the visitor gets something else than a list")
        l, q = args[0].t, eng.content(args[0])
        got = eng.seq_of(q)
        eng.oblige(And(Not(g["GIVEN"][l]), birth(l) >= self.now, birth(l) < eng.st.now), "every call of the visitor has a list of its own", T)
        g["GIVEN"] = Store(g["GIVEN"], l, BoolVal(True))
        g["AS"] = Store(g["AS"], l, q)
        edge = gf(eng, "_parent", r)
        me = NIX(UID(gf(eng, "_endpoint", r)))
        other = lambda c: NIX(UID(gf(eng, "_endpoint", c)))
        last = fifth(seq_items(got))

        def want(side):
            pair = lambda c: (me, other(c)) if side == "in" else (other(c), me)
            return children(eng, VObj(edge), lambda c: And(eng.isa(c, eng.prog.classes["HypergraphRelation"]), other(c) != me), lambda c: tupf(5)[0](
                boxI(pair(c)[0]), boxI(pair(c)[1]), boxI(EIX(UID(edge))), boxR(WT(eng, r)), last))
        eng.oblige(is_rel(eng, r, self.s), "the visitor is called for a relation", T)
        for side in SIDES:
            if first_side(seq_items(got), me) == side:
                eng.oblige(says(eng, r, side), "pairs (%s) of a relation that says so" % side, T)
                eng.seq_equal(got, want(side), "the pairs (%s) of a relation" % side, T)
                g["SAID_" + side] = Store(g["SAID_" + side], r, BoolVal(True))
                return VNone
        eng.oblige(BoolVal(False), "what is given to the visitor are the pairs of the endpoint", T)
        return VNone

    def candidates(self, ctx):
        eng = self.eng
        G = lambda st, n: st.ghost[n]
        ms = {m[1] for m in ctx.M if m[0] in "gh"}
        if not ms & {"PUT", "GOT", "QE", "SAID_in", "SAID_out", "GIVEN"}:
            return
        x, m = Const("x!", V), Int("m!")
        if "GIVEN" in ms:
            yield "lists given to the visitor stay", lambda st: FA([x], Implies(G(st, "GIVEN")[x], And(
                eng.named("LC", st)[x] == G(st, "AS")[x], birth(x) >= self.now, birth(x) < st.now)), G(st, "GIVEN")[x])
            for t in ctx.frames.get("LC", []):
                yield "%s is not one of them" % t, lambda st, t=t: Not(G(st, "GIVEN")[t])
        P, EL = eng.H("f:_parent"), eng.H("ELS")
        yield "what was put is of the graph", lambda st: FA([x], Implies(G(st, "PUT")[x], self.inside(x)), G(st, "PUT")[x])
        if ctx.src is None:
            yield "what was taken had been put", lambda st: FA([x], Implies(G(st, "GOT")[x], G(st, "PUT")[x]), G(st, "GOT")[x])
            yield "the start was put", lambda st: G(st, "PUT")[self.s]
            yield "edges of the start", lambda st: Implies(G(st, "GOT")[self.s], FA([x], Implies(is_edge(eng, x, self.s), G(st, "PUT")[x]), P[x], G(st, "PUT")[x]))
            yield "relations of edges", lambda st: FA([x], Implies(And(is_rel(eng, x, self.s), G(st, "GOT")[P[x]]), G(st, "PUT")[x]), P[x], G(st, "PUT")[x])
            for side in SIDES:
                yield "said (%s)" % side, lambda st, side=side: FA([x], Implies(And(is_rel(eng, x, self.s), G(st, "GOT")[x], says(eng, x, side), WT(
                    eng, x) != 0), G(st, "SAID_" + side)[x]), G(st, "GOT")[x], G(st, "SAID_" + side)[x])
        else:
            yield "what was put stays", lambda st: FA([x], Implies(G(ctx.st0, "PUT")[x], G(st, "PUT")[x]), G(st, "PUT")[x])
            if ctx.src.dict is not None:
                o = own(ctx.src.dict)
                i = lambda st: st.ghost[ctx.src.idx]
                done = lambda st, x: PO(ctx.src.dom, ctx.src.stamp, UID(x)) < i(st)
                for c in ("HypergraphEdge", "HypergraphRelation"):
                    yield "%s so far" % c, lambda st, c=c: FA([x], Implies(And(EL[x], P[x] == o, is_a(eng, x, c), done(st, x)), G(st, "PUT")[x]), G(st, "PUT")[x])
        for s in self.queues:
            if not eng.entails_qf(birth(s) < ctx.st0.now):
                continue
            b = lambda st, s=s: (eng.sel(eng.H("QE", st), s, True), eng.sel(eng.H("QH", st), s, True), eng.sel(eng.H("QL", st), s, True))

            def each(st, b=b):
                q, h, l = b(st)
                y = self.item(q[m])
                return FA([m], Implies(And(h <= m, m < l), And(G(st, "PUT")[y], q[m] == tupf(2)[0](y, boxI(0)))), q[m])

            def there(st, b=b):
                q, h, l = b(st)
                a = G(st, "PUTAT")[x]
                return FA([x], Implies(And(G(st, "PUT")[x], Not(G(st, "GOT")[x])), And(h <= a, a < l, self.item(q[a]) == x)), a, G(st, "PUT")[x])
            yield "the fringe holds what was put", each
            yield "what was put is in the fringe", there


def ones(items):
    for x in items:
        if x[0] == "one":
            yield x[2]
        elif x[0] == "loop":
            yield from ones(x[4])


def fifth(items):
    for v in ones(items):
        if is_app(v) and v.decl().eq(tupf(5)[0]):
            return v.arg(4)
    return NONE


def first_side(items, me):
    for v in ones(items):
        if is_app(v) and v.decl().eq(tupf(5)[0]):
            for k, side in ((0, "in"), (1, "out")):
                if simplify(v.arg(k)).eq(simplify(boxI(me))):
                    return side
    return None


def spread_setup(make):
    eng = setup(make, ())
    eng.nd_fields = {"_relation_incidence_value": 1}
    eng.field_hints["_endpoint"] = ("opt", elements(eng))
    eng.field_hints["_weight"] = ("opt", eng.prog.classes["ValueNode"])
    eng.field_hints["_values"] = "list"
    eng.content_in = content_in(eng)
    eng.elems = []
    eng.on_get = eng.on_put = None
    start = el_param(eng, "start")
    assume_HI(eng)
    graph(eng, start.t)
    use_numbering(eng, start.t)
    return eng, VObj(start.t, cls=eng.prog.classes["HypergraphNode"])


def unchanged(eng, st0):
    """Nothing that existed changes."""
    r = Const("r!", V)
    for key in sorted(eng.st.heap):
        a, b = eng.named(key, st0), eng.named(key)
        if not a.eq(b):
            eng.oblige(FA([r], Implies(birth(r) < st0.now, b[r] == a[r]), b[r]), "what there was is unchanged (%s)" % key, T)


@unit("spread.traverse", "C11", " ".join(TE + x for x in ("__init__", "execute", "_setup", "_traverse", "__fill_node", "__fill_edge", "__fill_relations",
                                                           "get_node_identification", "get_edge_identification")))
def u_traverse(make):
    """Default depth: the relations of the edges that are directly in the start."""
    eng, start = spread_setup(make)
    hom = param(eng, "homomorphism", exact=CN)
    wf = param(eng, "weight_func", c="NormFunctor")
    vis, filt = param(eng, "visitor_func"), param(eng, "filter_func")

    def norm(e, s, a, k):
        e.oblige(cls(e.box(a[0])) == C_LIST, "what is normed is a list", ("type",))
        return VReal(NORM(e.content(VObj(e.box(a[0]), kind="list"))))
    eng.virtuals["NormFunctor"] = {"norm": Contract("NormFunctor.norm", norm)}
    eng.note("norms and visitors passed to the traversal of relations change nothing in the graph")
    tr = eng.construct(eng.prog.classes["HypergraphTraversal"], [vis, filt, wf, hom, VInt(1)], {})
    st0 = eng.st.copy()
    sp = Spread(eng, start.t, vis.t)
    eng.candidates = sp.candidates
    r = Const("r!", V)
    for o in outcomes(eng, lambda: eng.await_(call_method(eng, tr, "execute", [start]))):
        if only_raises(eng, o, (), T) == "":
            unchanged(eng, st0)
            eng.oblige(FA([r], Implies(eng.st.ghost["GIVEN"][r], eng.named("LC")[r] == eng.st.ghost["AS"][r]), eng.st.ghost["GIVEN"][r]), "the lists given "
                       "to the visitor stay", T)
            g = eng.st.ghost
            for side in SIDES:
                eng.oblige(FA([r], Implies(And(is_rel(eng, r, start.t), says(eng, r, side), WT(eng, r) != 0), g["SAID_" + side][r]), g["SAID_" + side][r], g["PUT"][
                    r]), "the pairs (%s) of every relation are visited" % side, T)
            hierarchy_same(eng, st0, T)


# ---------------------------------------------------------------------- what the traversal assumes
@unit("spread.relation", "C11", "hypergraph.base_elements:HypergraphRelation.__init__")
def u_relation(make):
    """The incidence values of a relation are those of its direction, and stay so."""
    eng = user_setup(make)
    eng.nd_fields = {"_relation_incidence_value": 1}
    uid, name, q = param(eng, "uuid", kind="bytes"), param(eng, "id_name", kind="str"), param(eng, "qualified", kind="str")
    par = el_param(eng, "parent", none_ok=True)
    ep = el_param(eng, "endpoint")
    eng.field_hints["_endpoint"] = ("opt", elements(eng))
    c = eng.prog.classes["HypergraphRelation"]
    d = param(eng, "direction")
    eng.assume(Or([d.t == lit("enum", "%s.%s" % (DIR, x)) for x in ("INWARDS", "OUTWARDS", "BIDIRECTIONAL")]))
    for o in outcomes(eng, lambda: eng.construct(c, [uid, name, q, ep, VNone, par, d], {})):
        if only_raises(eng, o, ("ErrorRecursiveHierarchy", "ErrorDuplicateElement"), T) == "":
            eng.oblige(incidence_value(eng, o.val.t), "the incidence values are those of the direction", T)
            eng.oblige(eng.H("f:_direction")[o.val.t] == d.t, "the direction is the given one", T)
    for f in ("_relation_incidence_value", "_direction"):
        eng.oblige(BoolVal(not changed(eng, f)), "nothing but the constructor changes %s" % f, T)


def changed(eng, attr):
    """Whether some method other than a constructor assigns the field or an item of what it holds."""
    for c in eng.prog.classes.values():
        for what in ("methods", "setters", "getters"):
            for nm, f in getattr(c, what).items():
                if nm == "__init__":
                    continue
                for n in ast.walk(f.node):
                    x = n
                    while isinstance(x, ast.Subscript):
                        x = x.value
                    if isinstance(x, ast.Attribute) and x.attr == attr and isinstance(n.ctx, (ast.Store, ast.Del)):
                        return True
    return False


def number(x):
    return If(x == boxI(unI(x)), ToReal(unI(x)), unR(x))


@unit("spread.norm", "C11", "hypergraph.norm.norm_functions:SumNorm.norm hypergraph.value_node:ValueNode.val")
def u_norm(make):
    """The norm of a weight: the sum of its values."""
    eng = make()
    start(eng)
    eng.field_hints["_values"] = "list"
    w = param(eng, "weight", exact="ValueNode")
    l = eng.sel(eng.H("f:_values"), w.t)
    eng.assume(cls(l) == C_LIST)
    q = eng.content(VObj(l, kind="list"))
    k = Int("k!")
    x = qelt(q, k)
    eng.assume(And(qlen(q) >= 0, FA([k], Implies(And(0 <= k, k < qlen(q)), Or(x == boxI(unI(x)), x == boxR(unR(x)))), x)))
    S = nd.sums(eng)
    st0 = eng.st.copy()
    norm = eng.construct(eng.prog.classes["SumNorm"], [], {})
    for o in outcomes(eng, lambda: call_method(eng, norm, "norm", [eng.getattr(w, "val")])):
        if only_raises(eng, o, (), T) == "":
            goal = eng.as_real(o.val) == S.sum(qlen(q), lambda k: number(qelt(q, k)))
            for f in S.facts([goal] + eng.st.pc):
                eng.assume(f)
            eng.oblige(goal, "the sum of the values", T)
            r = Const("r!", V)
            A, B_ = eng.named("LC", st0), eng.named("LC")
            if not A.eq(B_):
                eng.oblige(FA([r], Implies(birth(r) < st0.now, B_[r] == A[r]), B_[r]), "the values are unchanged", T)


@unit("spread.index", "C11", HF + "__init__ " + HF + "execute " + " ".join(HF + x for x in (
    "add_node_homology", "add_edge_homology", "add_value_homology", "node", "edge", "cnt_node", "cnt_edges")))
def u_index(make):
    """Every node and edge that is directly in the graph has an index of its own below the count."""
    eng = setup(make, defs())
    eng.elems = []
    eng.content_in = content_in(eng)
    assume_HI(eng)
    use_traversals(eng)
    for f in ("_cnt_node", "_cnt_edges", "_cnt_values"):
        eng.field_hints[f] = "int"
    h = eng.construct(eng.prog.classes[CN], [VBool(True)], {})
    s = el_param(eng, "start")
    eng.assume(is_a(eng, s.t, "HypergraphNode"))
    specs = {}
    k, j = Const("k!", V), Int("j!")
    x, y = el_param(eng, "x"), el_param(eng, "y")
    eng.assume(x.t != y.t)

    def on_walk(W):
        kind = eng.freshfun("numbered", V, I)
        w = W.seq
        eng.note("identifiers of elements are distinct")
        eng.assume(FA([j], Implies(And(0 <= j, j < qlen(w)), kind(UID(qelt(w, j))) == j), qelt(w, j)))
        eng.assume(FA([k], Implies(And(0 <= kind(k), kind(k) < qlen(w)), UID(qelt(w, kind(k))) == k), kind(k)))
        specs[w.get_id()] = (lambda j, w=w: UID(qelt(w, j)), boxI, kind, lambda v: If(v == boxI(unI(v)), unI(v), -1))
    eng.on_walk = on_walk
    eng.candidates = index_candidates(eng, specs)
    st0 = eng.st.copy()
    for o in outcomes(eng, lambda: eng.await_(call_method(eng, h, "execute", [s]))):
        if only_raises(eng, o, (), T) == "":
            hierarchy_same(eng, st0, T)
            base = eng.st
            for of, op, cnt in ((is_node, "node", "cnt_node"), (is_edge, "edge", "cnt_edges")):
                eng.st = base.copy()
                eng.assume(And(of(eng, x.t, s.t), of(eng, y.t, s.t)))
                for z in (x.t, y.t):
                    for W in eng.walks:
                        eng.oblige(Implies(And(app_b(W.filt, z), W.start == s.t), And(0 <= W.at(z), W.at(z) < qlen(W.seq), qelt(W.seq, W.at(z)) == z, specs[
                            W.seq.get_id()][2](UID(z)) == W.at(z))), "what is directly in the graph is visited (%s)" % op, T)

                def go():
                    return [eng.as_int(call_method(eng, h, op, [VObj(UID(z.t), kind="bytes")])) for z in (x, y)] + [eng.as_int(eng.getattr(h, cnt))]
                for r in eng.explore(go):
                    eng.st = r.st
                    if only_raises(eng, r, (), T) == "":
                        a, b, n = r.val
                        eng.oblige(And(0 <= a, a < n, 0 <= b, b < n, a != b), "an index of its own below the count (%s)" % op, T)
            eng.st = base


# ---------------------------------------------------------------------- all of it
SIDE = Function("SIDE", V, B)            # of a call of the visitor: inwards
OFREL = Function("OFREL", V, V)          # its relation
OTHER = Function("OTHER", V, I, V)       # the relation of the other endpoint of its entries
POSIN = Function("POSIN", V, V, I)       # the entry for a relation
CALLNO = {x: Function("CALLNO_" + x, V, I) for x in SIDES}


def pair(eng, side, r, c):
    """(edge, i, j) of the entry for a relation and another one of its edge."""
    n = lambda x: NIX(UID(gf(eng, "_endpoint", x)))
    e = EIX(UID(gf(eng, "_parent", r)))
    return (e, n(r), n(c)) if side == "in" else (e, n(c), n(r))


def apart(eng, s, r, c):
    """Relations of one edge with different endpoints."""
    n = lambda x: NIX(UID(gf(eng, "_endpoint", x)))
    return And(is_rel(eng, r, s), is_rel(eng, c, s), gf(eng, "_parent", r) == gf(eng, "_parent", c), n(r) != n(c))


def means(eng, s):
    """What SAYS stands for."""
    r, c = Const("r!", V), Const("c!", V)
    eng.assume(FA([r], WEIGHT(r) == WT(eng, r), WEIGHT(r)))
    for side in SIDES:
        for x in SAYS:
            at_ = SAYS[x](*cell(x, *pair(eng, side, r, c)), WEIGHT(r))
            eng.assume(FA([r, c], Implies(And(apart(eng, s, r, c), says(eng, r, side)), at_), (at_, gf(eng, "_endpoint", c))))



@unit("spread.transform", "C11", TR + "NumpyHypergraphTensorTransformer.execute " + TR + CLS + ".synchronize_structure_dimensions " + TR +
      "NumpyHypergraphTensorTransformer.tensor_representation")
def u_transform(make):
    """From the graph to its tensors, with default depth."""
    eng = setup(make, ())
    eng.nd_fields = {"_relation_incidence_value": 1, **{f: AXES[x] for f, x in FIELDS.items()}}
    eng.field_hints["_endpoint"] = ("opt", elements(eng))
    eng.field_hints["_weight"] = ("opt", eng.prog.classes["ValueNode"])
    eng.field_hints["_values"] = "list"
    eng.content_in = content_in(eng)
    eng.elems = []
    eng.on_get = None
    start = el_param(eng, "start")
    assume_HI(eng)
    graph(eng, start.t)
    s = start.t
    start = VObj(s, cls=eng.prog.classes["HypergraphNode"])
    M, N = Int("count_edges"), Int("count_nodes")
    x, r, c = Const("x!", V), Const("r!", V), Const("c!", V)
    j, k = Int("j!"), Int("k!")
    hom = eng.prog.classes[CN]
    done = []

    def new_hom(e, me, a, kw):
        vs = bound_args(["ignore_root", "depth"], {"ignore_root": VBool(False), "depth": VInt(1)}, a, kw)
        e.oblige(And(e.truth(vs[0]), e.as_int(vs[1]) == 1), "what is directly in the graph is numbered", T)
        o = e.alloc("numbering", hom.cid, exact=hom)
        e.setH("f:$count_edges", Store(e.H("f:$count_edges"), o.t, boxI(IntVal(0))))
        e.setH("f:$count_nodes", Store(e.H("f:$count_nodes"), o.t, boxI(IntVal(0))))
        return o

    def run_hom(e, me, a, kw):
        def go():
            e.oblige(e.box(a[0]) == s, "the graph itself is numbered", T)
            e.assume(And(M >= 0, N >= 0))
            e.assume(FA([x], Implies(is_node(e, x, s), And(0 <= NIX(UID(x)), NIX(UID(x)) < N)), NIX(UID(x))))
            e.assume(FA([x], Implies(is_edge(e, x, s), And(0 <= EIX(UID(x)), EIX(UID(x)) < M)), EIX(UID(x))))
            e.setH("f:$count_edges", Store(e.H("f:$count_edges"), me.t, boxI(M)))
            e.setH("f:$count_nodes", Store(e.H("f:$count_nodes"), me.t, boxI(N)))
            done.append(me.t)
            return e.new_list([])
        return VCoro(go, "execute")

    def count(what):
        return Contract("IndexHomomorphismGraphTensor." + what, lambda e, me, a, kw: VInt(unI(e.sel(e.H("f:$" + what), me.t, deep=True))))

    def on_copy(e, v):
        if not (v.exact is hom or v.cls is hom):
            return None
        o = e.alloc("numbering", hom.cid, exact=hom)
        for f in ("f:$count_edges", "f:$count_nodes"):
            e.setH(f, Store(e.H(f), o.t, e.sel(e.H(f), v.t, deep=True)))
        return o
    eng.on_copy = on_copy
    eng.contracts["new:" + CN] = Contract(CN + ".__init__", new_hom)
    eng.contracts[method(eng, CN, "execute").qual] = Contract(CN + ".execute", run_hom)
    for nm, what in (("cnt_node", "count_nodes"), ("cnt_edges", "count_edges")):
        eng.contracts[method(eng, CN, nm).qual] = count(what)
    HT = eng.prog.classes["HypergraphTraversal"]

    def new_trav(e, me, a, kw):
        names = ["visitor_func", "filter_func", "weight_func", "homomorphism", "depth"]
        vs = bound_args(names, {"homomorphism": VNone, "depth": VExt("math.inf")}, list(a), kw)
        o = e.alloc("relations", HT.cid, exact=HT)
        for nm, v in zip(names, vs):
            e.setH("f:$" + nm, Store(e.H("f:$" + nm), o.t, e.box(v)))
        return o
    eng.contracts["new:HypergraphTraversal"] = Contract("HypergraphTraversal.__init__", new_trav)
    calls = []

    def run_trav(e, me, a, kw):
        def go():
            g = lambda n: e.sel(e.H("f:$" + n), me.t, deep=True)
            e.oblige(e.box(a[0]) == s, "the graph itself is traversed", T)
            e.oblige(cls(g("weight_func")) == e.prog.classes["SumNorm"].cid, "weights are normed by their sum", T)
            e.oblige(Or([g("homomorphism") == h for h in done] + [BoolVal(False)]), "indices are those of the numbering", T)
            e.oblige(g("depth") == boxI(1), "relations of the direct edges are traversed", T)
            now = e.st.now
            cs = e.fresh("calls", Q)
            calls.append(cs)
            e.st.ghost["CALLS"] = cs
            n2 = e.fresh("now", I)
            e.assume(n2 > now)
            e.st.now = n2
            lc = e.fresh("LC", e.H("LC").sort())
            e.assume(FA([x], Implies(birth(x) < now, lc[x] == e.named("LC")[x]), lc[x]))
            e.setH("LC", lc)
            l = qelt(cs, j)
            v = qelt(lc[l], k)
            rel = OFREL(l)
            e.assume(qlen(cs) >= 0)
            e.assume(FA([j], Implies(And(0 <= j, j < qlen(cs)), And(cls(l) == C_LIST, now <= birth(l), birth(l) < n2, qlen(lc[l]) >= 0, is_rel(
                e, rel, s), If(SIDE(l), says(e, rel, "in"), says(e, rel, "out")))), l))
            o = OTHER(l, k)
            for side in SIDES:
                e.assume(FA([j, k], Implies(And(0 <= j, j < qlen(cs), 0 <= k, k < qlen(lc[l]), SIDE(l) == (side == "in")), And(entry(v), apart(
                    e, s, rel, o), *[p == q for p, q in zip(parts(v), (*pair(e, side, rel, o), WEIGHT(rel)))])), v))
                l2 = qelt(cs, CALLNO[side](r))
                e.assume(FA([r], Implies(And(is_rel(e, r, s), says(e, r, side), WEIGHT(r) != 0), And(0 <= CALLNO[side](r), CALLNO[side](r) < qlen(cs), OFREL(
                    l2) == r, SIDE(l2) == (side == "in"))), CALLNO[side](r)))
            v2 = qelt(lc[l], POSIN(l, c))
            e.assume(FA([j, c], Implies(And(0 <= j, j < qlen(cs), apart(e, s, OFREL(l), c)), And(0 <= POSIN(l, c), POSIN(l, c) < qlen(lc[l]), OTHER(l, POSIN(
                l, c)) == c)), POSIN(l, c)))
            vis = e.wrap(g("visitor_func"))
            out = e.new_list([])
            e.iterate_seq(SAtom(cs), lambda w: e.list_append(out, e.call(vis, [VObj(w.t, kind="list")])))
            return out
        return VCoro(go, "execute")
    eng.contracts[method(eng, "HypergraphTraversal", "execute").qual] = Contract("HypergraphTraversal.execute", run_trav)
    queues = []

    def on_put(e, q, s_, i, v):
        if not any(s_.eq(t) for t in queues):
            queues.append(s_)
    eng.on_put = on_put

    def candidates(ctx):
        if ctx.src is None or ctx.src.seq is None or not any(ctx.src.seq.eq(t) for t in calls):
            return
        st0 = ctx.st0
        i = lambda st: st.ghost[ctx.src.idx]
        for t in queues:
            b = lambda st, t=t: [eng.sel(eng.H(f, st), t, True) for f in ("QE", "QH", "QL")]
            yield "in order", lambda st, b=b: And(b(st)[1] == b(st0)[1], b(st)[2] == b(st0)[2] + i(st))
            yield "the visited lists", lambda st, b=b: FA([j], Implies(And(b(st0)[2] <= j, j < b(st)[2]), b(st)[0][j] == qelt(ctx.src.seq, j - b(st0)[2])), b(st)[0][j])
    eng.candidates = candidates
    def fill(e, me, a, kw):
        def go():
            q = a[0]
            st0 = e.st.copy()
            t = e.sel(e.H("f:$dq"), q.t, deep=True)
            qe, h, l = [e.sel(e.H(f), t, True) for f in ("QE", "QH", "QL")]
            p = Int("p!")
            first = gf(e, "_parent", OFREL(qe[h]))
            e.oblige(Implies(h < l, And(is_rel(e, OFREL(qe[h]), s), is_edge(e, first, s))), "what is visited first is a relation of an edge", T)
            e.oblige(Implies(h < l, And(0 <= EIX(UID(first)), EIX(UID(first)) < M)), "which has an index", T)
            e.oblige(Or(h == l, holding(e, me.t, M, N)), "there are tensors of the right shape", T)
            e.oblige(FA([p], Implies(And(h <= p, p < l), And(cls(qe[p]) == C_LIST, birth(qe[p]) < e.st.now)), qe[p]), "the queue holds lists", T)
            e.oblige(lists_of(e, t, lambda v: good(v, M, N)), "the queue holds entries of relations", T)
            nv = e.fresh("NDV", e.H("NDV").sort())
            old = e.named("NDV")
            own3 = [y for y, _ in arrays(e, me.t, st0).values()]
            e.assume(FA([x], Implies(And([x != y for y in own3]), nv[x] == old[x]), nv[x]))
            e.setH("NDV", nv)
            e.assume(Implies(h == l, And([nv[y] == old[y] for y in own3])))
            for nm, f in stored(e, me.t, t, h, lambda st: l, st0):
                e.assume(Implies(h < l, f(e.st)))
            e.setH("QH", Store(e.H("QH"), t, l))
            e.st.ghost["QUEUED"] = qe
            e.st.ghost["FROM"] = h
            return VNone
        return VCoro(go, "fill_weights")
    eng.contracts[method(eng, CLS, "fill_weights").qual] = Contract("NumpyTensorRepresentation.fill_weights", fill)
    rc = eng.prog.classes[CLS]
    eng.field_hints["_tensor_representation"] = ("opt", rc)
    tf = eng.construct(eng.prog.classes["NumpyHypergraphTensorTransformer"], [], {})
    left = eng.fresh("left", V)         # whatever an earlier use left behind
    eng.assume(Or(left == NONE, And(cls(left) == rc.cid, birth(left) < eng.st.now)))
    eng.setH("f:_tensor_representation", Store(eng.H("f:_tensor_representation"), tf.t, left))
    means(eng, s)
    e_, i_ = Int("e!"), Int("i!")
    for o in outcomes(eng, lambda: eng.await_(call_method(eng, tf, "execute", [start]))):
        if only_raises(eng, o, (), T) == "":
            rep = eng.getattr(tf, "tensor_representation")
            if not isinstance(rep, VObj):
                eng.oblige(BoolVal(False), "there is a representation", T)
                continue
            for X, (ref, A) in arrays(eng, rep.t).items():
                u = list(dict.fromkeys(cell(X, e_, i_, j)))
                eng.oblige(Implies(ref != NONE, And([SHP(A, d) == n for d, n in enumerate([M, N, N][:AXES[X]])])), "%s: the shape" % X, T)
                eng.oblige(Implies(Or(M > 0, N > 0), ref != NONE), "%s: there is an array" % X, T)
                eng.oblige(Implies(ref != NONE, FA(u, Or(at(X, A, *u) == 0, SAYS[X](*u, at(X, A, *u))), at(X, A, *u))), "%s: every entry is said by a relation" % X, T)
                for side in SIDES:
                    rr, cc = eng.fresh("r", V), eng.fresh("c", V)
                    base = list(eng.st.pc)
                    eng.assume(And(apart(eng, s, rr, cc), says(eng, rr, side), WEIGHT(rr) != 0))
                    at_ = cell(X, *pair(eng, side, rr, cc))
                    ed = gf(eng, "_parent", rr)
                    eng.oblige(is_edge(eng, ed, s), "the edge of a relation (%s, %s)" % (X, side), T)
                    eng.oblige(And(0 <= EIX(UID(ed)), EIX(UID(ed)) < M), "has an index (%s, %s)" % (X, side), T)
                    g = eng.st.ghost
                    n = CALLNO[side](rr)
                    l = qelt(g["CALLS"], n)
                    kk = POSIN(l, cc)
                    v = qelt(eng.H("LC")[l], kk)
                    eng.oblige(And(0 <= n, n < qlen(g["CALLS"]), OFREL(l) == rr, SIDE(l) == (side == "in")), "it is visited (%s, %s)" % (X, side), T)
                    eng.oblige(And(0 <= kk, kk < qlen(eng.H("LC")[l]), OTHER(l, kk) == cc), "with the other one (%s, %s)" % (X, side), T)
                    eng.oblige(And(g["QUEUED"][g["FROM"] + n] == l), "the list is in the queue (%s, %s)" % (X, side), T)
                    eng.oblige(And([p == q for p, q in zip(parts(v), (*pair(eng, side, rr, cc), WEIGHT(rr)))]), "the entry is in the list (%s, %s)" % (X, side), T)
                    eng.oblige(And(ref != NONE, SAYS[X](*at_, at(X, A, *at_))), "%s: every pair (%s) has its entry" % (X, side), T)
                    eng.st.pc = base

"""C10: the factory functions connect what they are given, by the contract of unary_connect."""
from .hierarchy import *
from .hierarchy import _e, _k, _n, _c

FQ = "factories.foundation_factory:HypergraphFactory."
RELS = ArraySort(I, V)


def holds(eng, st, he, n, ends, dirs, weights, svs):
    """he has exactly n relations, the j-th with the given endpoint, direction, weight and semantic value."""
    s = Sn(eng, st)
    R = st.ghost["REL"]
    j = Int("j!")
    g = lambda f, t: eng.sel(eng.H("f:" + f, st), t)
    r = R[j]
    c = s.child(he, _k)
    return [
        ("the relations are there", FA([j], Implies(And(0 <= j, j < n), And(
            s.E[r], is_a(eng, r, "HypergraphRelation"), s.has(he, UID(r)), s.child(he, UID(r)) == r, s.CID[r] == j)), r)),
        ("their endpoints", FA([j], Implies(And(0 <= j, j < n), g("_endpoint", r) == ends(j)), r)),
        ("their directions and incidences", FA([j], Implies(And(0 <= j, j < n), And(
            g("_direction", r) == dirs(j), incidence(eng, r, dirs(j), st))), r)),
        ("their weights", FA([j], Implies(And(0 <= j, j < n), g("_weight", r) == weights(j)), r)),
        ("their semantic values", FA([j], Implies(And(0 <= j, j < n), g("semantic_value_node", r) == svs(j)), r)),
        ("nothing else is there", FA([_k], Implies(s.has(he, _k), And(0 <= s.CID[c], s.CID[c] < n, c == R[s.CID[c]])), s.has(he, _k))),
        ("as many as there are", And(s.HIST[he] == n, s.E[he], is_a(eng, he, "HypergraphEdge"))),
    ]


def ports(eng, st, he, n, ends):
    """Each endpoint has a port that leads to its relation."""
    s = Sn(eng, st)
    R = st.ghost["REL"]
    j = Int("j!")
    g = lambda f, t: eng.sel(eng.H("f:" + f, st), t)
    p = s.DV[g("_ports", ends(j))][UID(R[j])]
    return ("their ports", FA([j], Implies(And(0 <= j, j < n), And(
        s.DD[g("_ports", ends(j))][UID(R[j])], is_a(eng, p, "HypergraphPort"), s.P[p] == ends(j), g("_endpoint", p) == R[j])), R[j]))


def start_factory(make):
    eng = user_setup(make)
    eng.field_hints["_direction"] = eng.prog.classes["EnumRelationDirection"]
    eng.virtuals["HypergraphEdge"] = {"unary_connect": CONNECT}
    eng.field_hints["_factory_name"] = "str"
    eng.field_hints["unique_identifier"] = eng.prog.classes["Sha3UniqueIdentifierGenerator"]
    me = param(eng, "self", c="HypergraphFactory")
    con = param(eng, "container", c="HypergraphNode")
    eng.assume(And(FisH(con.t), eng.H("ELS")[con.t]))
    name = param(eng, "edge_name", kind="str")
    eng.st.ghost["REL"] = Const("REL0", RELS)
    eng.edge = [None]

    def made(eng, args):
        eng.edge[0] = args[0].t
    eng.on_return[BE + "HypergraphEdge.__init__"] = made
    return eng, me, con, name


def node_list(eng, nm):
    l = param(eng, nm, kind="list")
    q = eng.content(l)
    j = Int("j!")
    eng.assume(FA([j], Implies(And(0 <= j, j < qlen(q)), And(FisH(qelt(q, j)), eng.H("ELS")[qelt(q, j)], birth(qelt(q, j)) < eng.st.now,
                                                             is_a(eng, qelt(q, j), "HypergraphNode"))), qelt(q, j)))
    eng.assume(qlen(q) >= 0)
    return l, q


def loops(eng, before, total, spec):
    """Invariant candidates: `before(loop no)` relations were there, one more for each turn."""
    def cands(ctx):
        yield from candidates(eng, ctx)
        if ctx.src is None or ("g", "REL") not in ctx.M or eng.edge[0] is None:
            return
        he = eng.edge[0]
        for b in before:
            names = [x[0] for x in spec(ctx.st0, he, IntVal(0))]
            for k, nm in enumerate(names):
                yield ("%s (from %s)" % (nm, b), lambda st, k=k, b=b: spec(st, he, b + st.ghost[ctx.src.idx])[k][1])
    eng.candidates = cands


def factory(make, call, ends, dirs, weights, svs, n, before, eng, bad=None):
    T = ("C10",)
    no = lambda j: NONE

    spec = lambda st, he, m: holds(eng, st, he, m, ends, dirs, weights, svs) + [ports(eng, st, he, m, ends), (
        "the edge is in its container", Sn(eng, st).P[he] == eng.con.t)]
    loops(eng, before, n, spec)
    for o in outcomes(eng, call):
        r = only_raises(eng, o, ("ErrorDuplicateElement", "ErrorRecursiveHierarchy", "ErrorInsufficientValues"), T)
        if r == "ErrorInsufficientValues":
            eng.oblige(bad if bad is not None else BoolVal(False), "value lists of the right length are accepted", T)
        if r == "":
            he = o.val.t
            if bad is not None:
                eng.oblige(Not(bad), "value lists of the wrong length are refused", T)
            if eng.edge[0] is None or not he.eq(eng.edge[0]):
                eng.oblige(BoolVal(False), "the new edge is returned", T)
                continue
            oblige_all(eng, spec(eng.st, he, n), T)
            s = Sn(eng)
            eng.oblige(And(s.P[he] == eng.con.t, NAME(he) == eng.nm.t, s.DN[s.S[he]] == s.CNT[he]), "the edge is in its container", T)


def values_list(eng, given):
    vals = param(eng, "values", kind="list") if given else VNone
    w = eng.content(vals) if given else None
    if given:
        eng.assume(qlen(w) >= 0)
    return vals, w, (lambda j: qelt(w, j)) if given else (lambda j: NONE)


def dir_param(eng, nm):
    d = param(eng, nm, c="EnumRelationDirection")
    eng.assume(Function("is_EnumRelationDirection", V, B)(d.t))
    return d


def u_nodes(given):
    def body(make):
        eng, me, con, name = start_factory(make)
        eng.con, eng.nm = con, name
        l, q = node_list(eng, "nodes")
        d = dir_param(eng, "direction")
        vals, w, ws = values_list(eng, given)
        factory(make, lambda: call_method(eng, me, "connect_nodes", [con, name, l, d, vals]), lambda j: qelt(q, j), lambda j: d.t,
                ws, lambda j: NONE, qlen(q), [IntVal(0)], eng, (qlen(w) != qlen(q)) if given else None)
    return body


def u_two(given, fixed=False):
    def body(make):
        eng, me, con, name = start_factory(make)
        eng.con, eng.nm = con, name
        a, qa = node_list(eng, "ins")
        b, qb = node_list(eng, "outs")
        n = qlen(qa)
        ends = lambda j: If(j < n, qelt(qa, j), qelt(qb, j - n))
        if fixed:
            d1, d2 = direction("INWARDS"), direction("OUTWARDS")
            vals, w, ws = values_list(eng, False)
            call = lambda: call_method(eng, me, "connect_dir_edges", [con, name, a, b])
        else:
            x, y = dir_param(eng, "direction1"), dir_param(eng, "direction2")
            d1, d2 = x.t, y.t
            vals, w, ws = values_list(eng, given)
            call = lambda: call_method(eng, me, "connect_2factor_edges", [con, name, a, b, VTup([x, y]), vals])
        factory(make, call, ends, lambda j: If(j < n, d1, d2), ws, lambda j: NONE, n + qlen(qb), [IntVal(0), n], eng,
                (qlen(w) != n + qlen(qb)) if given else None)
    return body


for _g in (False, True):
    unit("factory.connect_nodes." + ("values" if _g else "plain"), "C10", FQ + "connect_nodes")(u_nodes(_g))
    unit("factory.connect_2factor_edges." + ("values" if _g else "plain"), "C10", FQ + "connect_2factor_edges")(u_two(_g))
unit("factory.connect_dir_edges", "C10", FQ + "connect_dir_edges " + FQ + "connect_2factor_edges")(u_two(False, True))


@unit("factory.connect_tuple_nodes", "C10", FQ + "connect_tuple_nodes")
def u_tuples(make):
    eng, me, con, name = start_factory(make)
    eng.con, eng.nm = con, name
    l = param(eng, "nodes", kind="list")
    q = eng.content(l)
    t4, pr = tupf(4)
    j = Int("j!")
    x = qelt(q, j)
    nd, dr, vl, sv = [p(x) for p in pr]
    eng.assume(FA([j], Implies(And(0 <= j, j < qlen(q)), And(
        x == t4(nd, dr, vl, sv), FisH(nd), eng.H("ELS")[nd], birth(nd) < eng.st.now, is_a(eng, nd, "HypergraphNode"),
        Or([dr == direction(k) for k in INC]), eng.isa(dr, eng.prog.classes["EnumRelationDirection"]),
        Or(sv == NONE, And(FisH(sv), eng.H("ELS")[sv], birth(sv) < eng.st.now, is_a(eng, sv, "SemanticValueNode"))))), x))
    eng.assume(qlen(q) >= 0)
    f = lambda k: (lambda j: pr[k](qelt(q, j)))
    factory(make, lambda: call_method(eng, me, "connect_tuple_nodes", [con, name, l]), f(0), f(1), f(2), f(3), qlen(q), [IntVal(0)],
            eng)


@unit("factory.create_hyperedge", "C10", FQ + "create_hyperedge")
def u_create(make):
    eng, me, con, name = start_factory(make)
    eng.con, eng.nm = con, name
    no = lambda j: NONE
    factory(make, lambda: call_method(eng, me, "create_hyperedge", [con, name]), no, no, no, no, IntVal(0), [], eng)

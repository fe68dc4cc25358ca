"""C13: what messages of a graph say, and what applying an update message does."""
from .indexing import *
from .hierarchy import _e, _k, _n, _c
from .spread import NIX, EIX, entry, is_rel

T = ("C13",)
CO = "hypergraph.encoding.graph_tensor_icon:CoordinateObjectTransformer."
CT = "CoordinateObjectTransformer"
VIX = Function("VIX", V, I)
BYUID = Function("BYUID", V, V)


def gf(eng, f, x, st=None):
    return eng.sel(eng.H("f:" + f, st), x)


def coo_setup(make):
    """An encoder of a graph that has been numbered."""
    eng = setup(make, ())
    eng.content_in = content_in(eng)
    eng.elems = []
    eng.on_get = eng.on_put = None
    eng.field_hints.update({"_context": eng.prog.classes["HypergraphNode"], "_index_homomorphism": eng.prog.classes[CN], "_endpoint": (
        "opt", elements(eng)), "_values": "list", "_msg_relations": "list", "_direction": eng.prog.classes[DIR]})
    me = param(eng, "self", exact=CT)
    ctx = gf(eng, "_context", me.t)
    hom = gf(eng, "_index_homomorphism", me.t)
    eng.assume(And(is_a(eng, ctx, "HypergraphNode"), FisH(ctx), eng.H("ELS")[ctx], ctx != NONE, birth(ctx) < eng.st.now))
    eng.assume(And(cls(hom) == eng.prog.classes[CN].cid, birth(hom) < eng.st.now, hom != NONE))
    assume_HI(eng)
    for nm, F in (("node", NIX), ("edge", EIX), ("val", VIX)):
        eng.contracts[method(eng, CN, nm).qual] = Contract("IndexHomomorphismGraphTensor." + nm, lambda e, m, a, k, F=F: VInt(F(e.box(a[0]))))
    r = Const("r!", V)
    ep, d = eng.named("f:_endpoint")[r], eng.named("f:_direction")[r]
    eng.assume(FA([r], Implies(is_rel(eng, r, ctx), And(ep != NONE, FisH(ep), eng.H("ELS")[ep], birth(ep) < eng.st.now, Or([d == lit("enum", "%s.%s" % (
        DIR, x)) for x in ("INWARDS", "OUTWARDS", "BIDIRECTIONAL")]))), ep, d))
    e, i = Const("e!", V), Int("i!")
    sub = eng.named("f:_sub_elements")[e]
    dom, stamp, n = (eng.named(k)[sub] for k in ("DD", "DS", "DN"))
    # (the order of a dictionary enumerates its keys; the engine says so only for dictionaries it meets)
    eng.assume(FA([e, i], Implies(And(eng.H("ELS")[e], 0 <= i, i < n), dom[EN(dom, stamp, i)]), EN(dom, stamp, i)))
    eng.note("the encoder has numbered the elements it encodes")
    return eng, me, VObj(ctx, cls=eng.prog.classes["HypergraphNode"])


def utf8(eng, t):
    return eng.box(eng.lib.str_method(eng, VObj(t, kind="str"), "encode", [eng.lit_str("utf-8")], {}))


def head(eng, x, ix, parent):
    """identifier, name, index, parent, qualified name of an element"""
    return [UID(x), NAME(x), boxI(ix(UID(x))), parent, utf8(eng, PATH(eng.H("f:_parent"), x))]


def of(eng, x, cname, val):
    return children(eng, x, lambda c: eng.isa(c, eng.prog.classes[cname]), val)


def the_nodes(eng, ctx):
    t5 = tupf(5)[0]
    return SCat([SOne(t5(*head(eng, ctx.t, NIX, boxI(0)))), of(eng, ctx, "HypergraphNode", lambda c: t5(*head(eng, c, NIX, UID(ctx.t))))])


def the_edges(eng, ctx):
    return of(eng, ctx, "HypergraphEdge", lambda c: tupf(5)[0](*head(eng, c, EIX, UID(ctx.t))))


def the_relations(eng, ctx):
    out = of(eng, ctx, "HypergraphEdge", lambda c: c)
    edge = out.body.body.v

    def rel(c):
        ep = gf(eng, "_endpoint", c)
        return tupf(6)[0](UID(c), NAME(c), PATH(eng.H("f:_parent"), c), boxI(Function("enumval", V, I)(gf(eng, "_direction", c))), UID(ep), UID(edge))
    return SLoop(out.n, out.i, SIf(out.body.c, of(eng, VObj(edge), "HypergraphRelation", rel)))


@unit("cbor.lists", "C13", " ".join(CO + x for x in ("node_index_list", "edge_index_list", "msg_relation_index_list")))
def u_lists(make):
    """The lists of nodes, edges and relations are those of the graph, in order."""
    for what, want in (("node_index_list", the_nodes), ("edge_index_list", the_edges), ("msg_relation_index_list", the_relations)):
        eng, me, ctx = coo_setup(make)
        st0 = eng.st.copy()
        for o in outcomes(eng, lambda: eng.to_list(call_method(eng, me, what, []))):
            if only_raises(eng, o, (), T) == "":
                eng.seq_equal(eng.seq_of(eng.content(o.val)), want(eng, ctx), what, T)
                frame_all(eng, st0, "encoding changes nothing in the graph", T, ("LC", "f:_msg_relations"))


def by_content(eng, items):
    """Lists as the values a message holds: by what is in them."""
    def one(t):
        if is_app(t) and t.decl().name().startswith("tup"):
            return t.decl()(*[one(x) for x in t.children()])
        if is_app(t) and not t.decl().eq(listval) and t.sort() == V and eng.entails(cls(t) == C_LIST):
            return listval(eng.sel(eng.H("LC"), t, True))
        return t
    return [("one", x[1], one(x[2])) if x[0] == "one" else ("loop", x[1], x[2], x[3], by_content(eng, x[4])) if x[0] == "loop" else x for x in items]


def as_message(eng, q):
    def seq(items):
        ps = [SIf(x[1], SOne(x[2])) if x[0] == "one" else SIf(x[1], SLoop(x[2], x[3], seq(x[4]))) if x[0] == "loop" else SIf(x[1], SAtom(x[2])) for x in items]
        return SCat(ps)
    return seq(by_content(eng, seq_items(eng.seq_of(q))))


def held_values(eng, c):
    return listval(eng.sel(eng.named("LC", eng.st0_lists), gf(eng, "_values", c), True))


def value_lists(eng):
    """The values of every value node are in a list."""
    r = Const("r!", V)
    x = eng.named("f:_values")[r]
    eng.assume(FA([r], Implies(And(eng.H("ELS")[r], is_a(eng, r, "ValueNode")), And(cls(x) == C_LIST, birth(x) < eng.st.now, x != NONE)), x))
    eng.st0_lists = eng.st.copy()


def values_lists(eng, ctx):
    return {"msg_value_nodes": of(eng, ctx, "ValueNode", lambda c: tupf(6)[0](*head(eng, c, VIX, UID(ctx.t)), held_values(eng, c))),
            "msg_value_node_update": of(eng, ctx, "ValueNode", lambda c: tupf(2)[0](boxI(VIX(UID(c))), held_values(eng, c)))}


@unit("cbor.values", "C13", " ".join(CO + x for x in ("msg_value_nodes", "msg_value_node_update")) + " hypergraph.value_node:ValueNode.get_values")
def u_values(make):
    """The list of value nodes and the update message hold the current values, in order."""
    for what in ("msg_value_nodes", "msg_value_node_update"):
        eng, me, ctx = coo_setup(make)
        value_lists(eng)
        st0 = eng.st.copy()
        for o in outcomes(eng, lambda: eng.to_list(call_method(eng, me, what, []))):
            if only_raises(eng, o, (), T) == "":
                eng.seq_equal(as_message(eng, eng.content(o.val)), values_lists(eng, ctx)[what], what, T)
                frame_all(eng, st0, "encoding changes nothing in the graph", T, ("LC",))


GC = "hypergraph.encoding.graph_tensor_icon_cbor:GraphTensorCbor."
ONLYAT = Function("ONLYAT", V, I)        # the position of a value node in an update message
IVAL = Function("IVAL", V, V)            # the identifier of an index


@unit("cbor.update", "C13", GC + "from_msg_update_values hypergraph.value_node:ValueNode.update_values " + CI + "HierarchicalElement.__getitem__")
def u_update(make):
    """An update message sets exactly the values it names."""
    eng = setup(make, ())
    eng.content_in = content_in(eng)
    eng.on_get = eng.on_put = None
    eng.field_hints.update({"_context": eng.prog.classes["HypergraphNode"], "_homomorphism": eng.prog.classes[CN], "_values": "list", "dim": "int"})
    me = param(eng, "self", exact="GraphTensorCbor")
    ctx, hom = gf(eng, "_context", me.t), gf(eng, "_homomorphism", me.t)
    eng.assume(And(is_a(eng, ctx, "HypergraphNode"), FisH(ctx), eng.H("ELS")[ctx], ctx != NONE, birth(ctx) < eng.st.now))
    eng.assume(And(cls(hom) == eng.prog.classes[CN].cid, birth(hom) < eng.st.now, hom != NONE))
    eng.elems = [ctx]
    assume_HI(eng)
    eng.contracts[method(eng, CN, "ival").qual] = Contract("IndexHomomorphismGraphTensor.ival", lambda e, m, a, k: VObj(IVAL(e.box(a[0])), kind="bytes"))
    msg = param(eng, "msg", kind="bytes")
    F = Const("message", Q)
    k, r = Int("k!"), Const("r!", V)
    LC0 = eng.named("LC")
    v = qelt(F, k)
    c = LC0[v]
    d = gf(eng, "_sub_elements", ctx)
    dd, dv = eng.sel(eng.H("DD"), d), eng.sel(eng.H("DV"), d)
    X = lambda k: dv[IVAL(qelt(LC0[qelt(F, k)], 0))]
    given = lambda k: qelt(LC0[qelt(F, k)], 1)
    i0 = qelt(c, 0)
    eng.assume(qlen(F) >= 0)
    eng.assume(FA([k], Implies(And(0 <= k, k < qlen(F)), And(cls(v) == C_LIST, birth(v) < eng.st.now, qlen(c) == 2, i0 == boxI(unI(i0)), cls(
        IVAL(i0)) == C_BYTES, birth(IVAL(i0)) < eng.st.now, cls(given(k)) == C_LIST, birth(given(k)) < eng.st.now, dd[IVAL(i0)], is_a(eng, X(
            k), "ValueNode"), eng.H("ELS")[X(k)], ONLYAT(X(k)) == k)), v))
    eng.note("an update message is a list of pairs of the index of a different value node of the decoded graph and a list")
    before = eng.st.now
    l = eng.new_list_q(F)

    def loads(e, a, kw):
        e.oblige(e.box(a[0]) == msg.t, "the message is decoded", T)
        return l
    eng.ext = {"cbor2.loads": loads}
    st0 = eng.st.copy()
    fv = lambda st: eng.named("f:_values", st)
    fd = lambda st: eng.named("f:dim", st)
    LC = lambda st: eng.named("LC", st)

    def set_until(st, n):
        x = X(k)
        return [FA([k], Implies(And(0 <= k, k < n), And(LC(st)[fv(st)[x]] == LC0[given(k)], fd(st)[x] == qlen(LC0[given(k)]), birth(fv(st)[x]) >= st0.now, birth(
                    fv(st)[x]) < st.now)), v),
                FA([r], Implies(And(birth(r) < st0.now, Not(And(0 <= ONLYAT(r), ONLYAT(r) < n, X(ONLYAT(r)) == r))), fv(st)[r] == fv(st0)[r]), fv(st)[r]),
                FA([r], Implies(And(birth(r) < st0.now, Not(And(0 <= ONLYAT(r), ONLYAT(r) < n, X(ONLYAT(r)) == r))), fd(st)[r] == fd(st0)[r]), fd(st)[r]),
                FA([r], Implies(birth(r) < before, LC(st)[r] == LC0[r]), LC(st)[r])]
    names = ["the values of the message are set", "other values stay", "other sizes stay", "lists stay"]

    def candidates(ctx_):
        if ctx_.src is None or ctx_.src.seq is None or not ctx_.src.seq.eq(F):
            return
        for j, nm in enumerate(names):
            yield nm, lambda st, j=j: set_until(st, st.ghost[ctx_.src.idx])[j]
    eng.candidates = candidates
    for o in outcomes(eng, lambda: call_method(eng, me, "from_msg_update_values", [msg])):
        if only_raises(eng, o, (), T) == "":
            for nm, g in zip(names, set_until(eng.st, qlen(F))):
                eng.oblige(g, nm, T)
            frame_all(eng, st0, "nothing else changes", T, ("LC", "f:_values", "f:dim"))


# ---------------------------------------------------------------------- the tensors in a message
OFF = Function("OFF", I, I)              # how many entries were visited before a list
LISTS = {"_msg_value_tensor": (2, 0, 1, 3), "_msg_incidence_out": (2, 0, 3), "_msg_incidence_in": (2, 1, 3)}


def told(v, ix):
    """What a message says of a visited entry (first node, second node, edge, weight, norm)."""
    p = tupf(5)[1]
    return tupf(len(ix))[0](*[p[k](v) for k in ix])


@unit("cbor.tensors", "C13", " ".join(CO + x for x in ("execute", "fill_tensors", "msg_tensor_value_updates")))
def u_tensors(make):
    """The tensors of a message list the entries that were visited last, in order and nothing else."""
    eng, me, ctx = coo_setup(make)
    for f in LISTS:
        eng.field_hints[f] = "list"
        x = gf(eng, f, me.t)
        eng.assume(And(cls(x) == C_LIST, birth(x) < eng.st.now))
    eng.assume(Distinct(*[gf(eng, f, me.t) for f in LISTS]))
    HT = eng.prog.classes["HypergraphTraversal"]
    start = el_param(eng, "start", none_ok=True)
    begin = If(start.t == NONE, ctx.t, start.t)
    st0 = eng.st.copy()

    def new_trav(e, m, a, kw):
        names = ["visitor_func", "filter_func", "weight_func", "homomorphism", "depth"]
        vs = bound_args(names, {"homomorphism": VNone, "depth": VExt("math.inf")}, list(a), kw)
        o = e.alloc("relations", HT.cid, exact=HT)
        for nm, v in zip(names, vs):
            e.setH("f:$" + nm, Store(e.H("f:$" + nm), o.t, e.box(v)))
        return o
    calls = []
    x, j, k = Const("x!", V), Int("j!"), Int("k!")

    def run_trav(e, m, a, kw):
        def go():
            g = lambda n: e.sel(e.H("f:$" + n), m.t, deep=True)
            e.oblige(e.box(a[0]) == begin, "what is asked for is traversed", T)
            e.oblige(cls(g("weight_func")) == e.prog.classes["SumNorm"].cid, "weights are normed by their sum", T)
            e.oblige(g("homomorphism") == gf(e, "_index_homomorphism", me.t, st0), "indices are those of the numbering", T)
            e.oblige(g("depth") == gf(e, "repr_depth", me.t, st0), "relations are traversed to the depth of the encoder", T)
            now = e.st.now
            cs = e.fresh("calls", Q)
            calls.append(cs)
            n2 = e.fresh("now", I)
            e.assume(n2 > now)
            e.st.now = n2
            lc = e.fresh("LC", e.H("LC").sort())
            e.assume(FA([x], Implies(birth(x) < now, lc[x] == e.named("LC")[x]), lc[x]))
            at_hand = lc
            for f in LISTS:
                at_hand = Store(at_hand, gf(e, f, me.t), e.sel(e.H("LC"), gf(e, f, me.t), True))
            e.setH("LC", at_hand)
            l = qelt(cs, j)
            v = qelt(lc[l], k)
            e.assume(qlen(cs) >= 0)
            e.assume(OFF(0) == 0)
            e.assume(FA([j], Implies(And(0 <= j, j < qlen(cs)), And(cls(l) == C_LIST, now <= birth(l), birth(l) < n2, qlen(lc[l]) >= 0, OFF(j + 1) == OFF(
                j) + qlen(lc[l]))), l))
            e.assume(FA([j, k], Implies(And(0 <= j, j < qlen(cs), 0 <= k, k < qlen(lc[l])), entry(v)), v))
            n = Int("n!")
            upto = lambda j, m: OFF(j) + qlen(lc[qelt(cs, j)]) <= OFF(m)
            j1, m1 = e.fresh("j", I), e.fresh("m", I)
            e.assume(e.fresh("last", V) == qelt(cs, m1))
            e.oblige(Implies(And(0 <= j1, j1 <= m1, m1 < qlen(cs), Or(j1 == m1, upto(j1, m1))), upto(j1, m1 + 1)), "entries of "
                     "earlier lists are earlier, by induction", T)
            e.assume(FA([j, n], Implies(And(0 <= j, j < n, n <= qlen(cs)), upto(j, n)), MultiPattern(l, OFF(n))))
            e.st.ghost["LISTS"] = lc
            e.st.ghost["CALLS"] = cs
            vis = e.wrap(g("visitor_func"))
            e.iterate_seq(SAtom(cs), lambda w: e.call(vis, [VObj(w.t, kind="list")]))
            return e.new_list_q(e.fresh("results", Q))
        return VCoro(go, "execute")
    eng.contracts["new:HypergraphTraversal"] = Contract("HypergraphTraversal.__init__", new_trav)
    eng.contracts[method(eng, "HypergraphTraversal", "execute").qual] = Contract("HypergraphTraversal.execute", run_trav)
    queues = []

    def on_put(e, q, s_, i, v):
        if not any(s_.eq(t) for t in queues):
            queues.append(s_)

    def on_get(e, qq, s_, i, v):
        e.oblige(cls(v) == C_LIST, "what is taken is a list", ("type",))
        return VObj(v, kind="list")
    eng.on_put, eng.on_get = on_put, on_get

    def content(f, st):
        return eng.sel(eng.H("LC", st), gf(eng, f, me.t, st), True)

    def so_far(f, ix, st, n):
        cs, lc = st.ghost["CALLS"], st.ghost["LISTS"]
        l = qelt(cs, j)
        v = qelt(lc[l], k)
        return FA([j, k], Implies(And(0 <= j, j < n, 0 <= k, k < qlen(lc[l])), qelt(content(f, st), OFF(j) + k) == told(v, ix)), v)

    def candidates(c):
        base = c.st0
        r = Const("r!", V)
        if "CALLS" not in base.ghost:
            return
        cs, lc = base.ghost["CALLS"], base.ghost["LISTS"]
        b = lambda st, t: [eng.sel(eng.H(f, st), t, True) for f in ("QE", "QH", "QL")]
        if c.src is not None and c.src.seq is not None and c.src.seq.eq(cs):
            i = lambda st: st.ghost[c.src.idx]
            for t in queues:
                yield "in order", lambda st, t=t: And(b(st, t)[1] == b(base, t)[1], b(st, t)[2] == b(base, t)[2] + i(st))
                yield "the visited lists", lambda st, t=t: FA([j], Implies(And(b(base, t)[2] <= j, j < b(st, t)[2]), b(st, t)[0][j] == qelt(cs, j - b(base, t)[
                    2])), b(st, t)[0][j])
                yield "the visited lists, by call", lambda st, t=t: FA([j], Implies(And(0 <= j, j < i(st)), b(st, t)[0][j + b(base, t)[2]] == qelt(cs, j)), qelt(cs, j))
            return
        mine = [gf(eng, f, me.t, base) for f in LISTS]
        yield "other lists stay", lambda st: FA([r], Implies(And(birth(r) < base.now, *[r != m for m in mine]), eng.named("LC", st)[r] == eng.named("LC", base)[
            r]), eng.named("LC", st)[r])
        if c.src is None:
            for t in queues:
                at = lambda st, t=t: b(st, t)[1] - b(base, t)[1]
                yield "taken in order", lambda st, t=t, at=at: And(0 <= at(st), at(st) <= qlen(cs), b(st, t)[2] == b(base, t)[2])
                for f, ix in LISTS.items():
                    yield "%s: as many" % f, lambda st, f=f, at=at: qlen(content(f, st)) == OFF(at(st))
                    yield "%s: the entries" % f, lambda st, f=f, ix=ix, at=at: so_far(f, ix, st, at(st))
        elif c.src.seq is not None:
            i = lambda st: st.ghost[c.src.idx]
            for f, ix in LISTS.items():
                n0 = qlen(content(f, base))
                yield "%s: one for each" % f, lambda st, f=f, n0=n0: qlen(content(f, st)) == n0 + i(st)
                yield "%s: kept" % f, lambda st, f=f, n0=n0: FA([k], Implies(And(0 <= k, k < n0), qelt(content(f, st), k) == qelt(content(f, base), k)), qelt(content(
                    f, base), k))
                yield "%s: what there was" % f, lambda st, f=f, ix=ix: so_far(f, ix, st, b(st, queues[0])[1] - 1) if queues else None
                v = qelt(c.src.seq, k)
                yield "%s: added" % f, lambda st, f=f, ix=ix, n0=n0, v=v: FA([k], Implies(And(0 <= k, k < i(st)), qelt(content(f, st), n0 + k) == told(v, ix)), v)
    eng.candidates = candidates
    for o in outcomes(eng, lambda: eng.await_(call_method(eng, me, "execute", [start]))):
        if only_raises(eng, o, (), T) == "":
            cs = eng.st.ghost["CALLS"]
            res = call_method(eng, me, "msg_tensor_value_updates", [])
            for n, (f, ix) in enumerate(LISTS.items()):
                eng.oblige(eng.box(res.items[n]) == gf(eng, f, me.t), "%s: in the message" % f, T)
                q = eng.seq_of(content(f, eng.st))
                if any(x[0] == "loop" for x in seq_items(q)):       # the code takes them from a list, not from a queue
                    lc, a, b = eng.st.ghost["LISTS"], eng.fresh("ix", I), eng.fresh("ix", I)
                    eng.seq_equal(q, SLoop(qlen(cs), a, SLoop(qlen(lc[qelt(cs, a)]), b, SOne(told(qelt(lc[qelt(cs, a)], b), ix)))), "%s: the entries that "
                                  "were visited, in order" % f, T)
                    continue
                eng.oblige(qlen(content(f, eng.st)) == OFF(qlen(cs)), "%s: as many entries as were visited" % f, T)
                eng.oblige(so_far(f, ix, eng.st, qlen(cs)), "%s: the entries that were visited, in order" % f, T)
            frame_all(eng, st0, "encoding changes nothing in the graph", T, ("LC", "QE", "QH", "QL", *["f:" + f for f in LISTS]))


@unit("cbor.messages", "C13", " ".join(GC + x for x in ("full_msg", "msg_value_update")) + " " + CO + "msg_tensor_value_updates")
def u_messages(make):
    """A message is made of the lists of the graph and of the tensors, in a fixed order."""
    for what in ("full_msg", "msg_value_update"):
        eng, coo, ctx = coo_setup(make)
        value_lists(eng)
        eng.field_hints["_coo_tr"] = eng.prog.classes[CT]
        for f in LISTS:
            eng.field_hints[f] = "list"
            x = gf(eng, f, coo.t)
            eng.assume(And(cls(x) == C_LIST, birth(x) < eng.st.now))
        me = param(eng, "encoder", exact="GraphTensorCbor")
        eng.assume(gf(eng, "_coo_tr", me.t) == coo.t)
        st0 = eng.st.copy()
        said = eng.fresh("message", V)

        def dumps(e, a, kw):
            e.oblige(BoolVal(len(a) == 1 and not kw), "a message is encoded the usual way", T)
            e.oblige(And(e.st.ghost.get("SAID", BoolVal(False)) == BoolVal(False)), "one message is encoded", T)
            e.st.ghost["SAID"] = BoolVal(True)
            e.assume(And(cls(said) == C_BYTES, birth(said) < e.st.now))
            e.oblige(cls(e.box(a[0])) == C_LIST, "a message is a list", ("type",))
            c = e.content(VObj(e.box(a[0]), kind="list"))
            if what == "msg_value_update":
                e.seq_equal(as_message(e, c), values_lists(e, ctx)[what_list], "the values", T)
                return VObj(said, kind="bytes")
            e.oblige(qlen(c) == 4 + len(LISTS), "a message has seven parts", T)
            its = list(seq_items(e.seq_of(c)))
            if len(its) != 7 or any(x[0] != "one" for x in its):
                its = [("one", None, qelt(c, k)) for k in range(7)]
            L = lambda k: VObj(its[k][2], kind="list")
            for k in range(7):
                e.oblige(qelt(c, k) == its[k][2], "part %d" % k, T)
                e.oblige(cls(qelt(c, k)) == C_LIST, "part %d is a list" % k, ("type",))
            for k, (nm, want) in enumerate((("nodes", the_nodes), ("edges", the_edges), ("relations", the_relations))):
                e.seq_equal(e.seq_of(e.content(L(k))), want(e, ctx), "the " + nm, T)
            e.seq_equal(as_message(e, e.content(L(3))), values_lists(e, ctx)["msg_value_nodes"], "the value nodes", T)
            for k, f in enumerate(LISTS):
                e.oblige(e.content(L(4 + k)) == e.sel(eng.named("LC", st0), gf(e, f, coo.t, st0), True), "the tensor %s" % f, T)
            return VObj(said, kind="bytes")
        what_list = "msg_value_node_update"
        eng.ext = {"cbor2.dumps": dumps}
        for o in outcomes(eng, lambda: call_method(eng, me, what, [])):
            if only_raises(eng, o, (), T) == "":
                eng.oblige(eng.box(o.val) == said, "what is returned is the encoded message", T)
                frame_all(eng, st0, "encoding changes nothing in the graph", T, ("LC", "f:_msg_relations"))


@unit("cbor.refresh", "C13", " ".join(GC + x for x in ("update_context", "update_coo")) + " " + CO + "reset")
def u_refresh(make):
    """Updating the context numbers the whole graph anew; updating the tensors visits it again."""
    eng, coo, ctx = coo_setup(make)
    eng.field_hints["_coo_tr"] = eng.prog.classes[CT]
    me = param(eng, "encoder", exact="GraphTensorCbor")
    eng.assume(gf(eng, "_coo_tr", me.t) == coo.t)
    start = el_param(eng, "start")
    st0 = eng.st.copy()
    hom = eng.prog.classes[CN]

    def new_hom(e, m, a, kw):
        vs = bound_args(["ignore_root", "depth"], {"ignore_root": VBool(False), "depth": VInt(1)}, a, kw)
        e.oblige(Not(e.truth(vs[0])), "the context is numbered too", T)
        e.oblige(BoolVal(isinstance(vs[1], VExt) and vs[1].name == "math.inf"), "the whole graph is numbered", T)
        e.st.ghost["NUMBERED"] = BoolVal(False)
        return e.alloc("numbering", hom.cid, exact=hom)

    def run_hom(e, m, a, kw):
        def go():
            e.oblige(e.box(a[0]) == start.t, "what is asked for is numbered", T)
            e.oblige(birth(m.t) >= st0.now, "by a new numbering", T)
            e.st.ghost["NUMBERED"] = BoolVal(True)
            e.st.ghost["BY"] = m.t
            return e.new_list([])
        return VCoro(go, "execute")
    eng.contracts["new:" + CN] = Contract(CN + ".__init__", new_hom)
    eng.contracts[method(eng, CN, "execute").qual] = Contract(CN + ".execute", run_hom)

    def again(e, m, a, kw):
        def go():
            e.oblige(And(m.t == coo.t, BoolVal(not kw and (not a or a[0] is VNone))), "the tensors of its graph are filled", T)
            e.st.ghost["FILLED"] = BoolVal(True)
            return VNone
        return VCoro(go, "execute")
    eng.contracts[method(eng, CT, "execute").qual] = Contract(CT + ".execute", again)
    for o in outcomes(eng, lambda: eng.await_(call_method(eng, me, "update_context", [start]))):
        if only_raises(eng, o, (), T) == "":
            eng.oblige(eng.st.ghost.get("NUMBERED", BoolVal(False)), "the graph is numbered", T)
            eng.oblige(gf(eng, "_index_homomorphism", coo.t) == eng.st.ghost["BY"], "the encoder uses the new numbering", T)
            frame_all(eng, st0, "nothing else changes", T, ("f:_index_homomorphism", "LC"))
    eng.st = st0.copy()
    for o in outcomes(eng, lambda: eng.await_(call_method(eng, me, "update_coo", []))):
        if only_raises(eng, o, (), T) == "":
            eng.oblige(eng.st.ghost.get("FILLED", BoolVal(False)), "the tensors are filled", T)
            frame_all(eng, st0, "nothing else changes", T, ())


# ---------------------------------------------------------------------- decoding
# A message: for each part the number of fields of its entries and where identifier, name, index, parent and text are.
PARTS = {"node": (0, 5, dict(uuid=0, name=1, index=2, parent=3, text=4), "HypergraphNode"),
         "edge": (1, 5, dict(uuid=0, name=1, index=2, parent=3, text=4), "HypergraphEdge"),
         "relation": (2, 6, dict(uuid=0, name=1, text=2, direction=3, endpoint=4, parent=5), "HypergraphRelation"),
         "value": (3, 6, dict(uuid=0, name=1, index=2, parent=3, text=4, values=5), "ValueNode")}
IDX = {x: Function("at_" + x, V, I) for x in PARTS}      # where an identifier is in a part
EPN = Function("endpoint_is_node", I, B)
HELD = Function("given_values", V, Q)                    # what a value node holds when it is new (unit cbor.new)


class Decoded:
    def __init__(self, eng):
        self.eng = eng
        self.F = {x: Const("part_" + x, Q) for x in PARTS}
        self.k = Int("k!")
        self.LC0 = eng.named("LC")

    def entry(self, x, k):
        return qelt(self.F[x], k)

    def get(self, x, f, k):
        return qelt(self.LC0[self.entry(x, k)], PARTS[x][2][f])

    def n(self, x):
        return qlen(self.F[x])

    def wellformed(self):
        """What the lists of a graph are (units cbor.lists and cbor.values) when they were decoded."""
        eng, k = self.eng, self.k
        out = [self.n("node") >= 1]
        for x, (j, m, fs, _) in PARTS.items():
            g = lambda f: self.get(x, f, k)
            v = self.entry(x, k)
            c = self.LC0[v]
            facts = [cls(v) == C_LIST, birth(v) < eng.st.now, qlen(c) == m, cls(g("uuid")) == C_BYTES, cls(g("name")) == C_STR, IDX[x](g("uuid")) == k]
            for f in fs:
                facts.append(birth(g(f)) < eng.st.now)
            if "index" in fs:
                facts.append(g("index") == boxI(unI(g("index"))))
            if x != "relation":
                facts.append(cls(g("text")) == C_BYTES)
            else:
                facts.append(cls(g("text")) == C_STR)
            if x == "node":
                facts.append(If(k == 0, g("parent") == boxI(0), g("parent") == self.get("node", "uuid", 0)))
            elif x != "relation":
                facts.append(g("parent") == self.get("node", "uuid", 0))
            else:
                p, e = IDX["edge"](g("parent")), g("endpoint")
                facts += [0 <= p, p < self.n("edge"), self.get("edge", "uuid", p) == g("parent"), g("direction") == boxI(unI(g("direction"))), Or([unI(
                    g("direction")) == d for d in (0, 1, 2)])]
                for y, cond in (("node", EPN(k)), ("edge", Not(EPN(k)))):
                    facts.append(Implies(cond, And(0 <= IDX[y](e), IDX[y](e) < self.n(y), self.get(y, "uuid", IDX[y](e)) == e)))
            if "values" in fs:
                facts.append(cls(g("values")) == C_LIST)
            out += [self.n(x) >= 0, FA([k], Implies(And(0 <= k, k < self.n(x)), And(facts)), v)]
        # identifiers are distinct
        k2 = Int("k2!")
        out.append(FA([k, k2], Implies(And(0 <= k, k < self.n("node"), 0 <= k2, k2 < self.n("edge")), self.get("node", "uuid", k) != self.get(
            "edge", "uuid", k2)), MultiPattern(self.entry("node", k), self.entry("edge", k2))))
        return out

    def made(self, x, st=None):
        return (st or self.eng.st).ghost["MADE_" + x]

    def so_far(self, st, upto, els=None, lists=None):
        """name -> what holds when upto[x] entries of part x have been decoded."""
        eng, k = self.eng, self.k
        out = {}
        log = [st.ghost["ADDP"], st.ghost["ADDC"]]
        n0 = upto["node"]
        at = {"node": 0, "edge": n0 - 1, "relation": n0 - 1 + upto["edge"], "value": n0 - 1 + upto["edge"] + upto["relation"]}
        for x, (j, m, fs, cname) in PARTS.items():
            M = st.ghost["MADE_" + x]
            g = lambda f, k=k: self.get(x, f, k)
            v, o, r = self.entry(x, k), M[k], And(0 <= k, k < upto[x])
            c = eng.prog.classes[cname].cid
            one = lambda f, x=x, r=r, v=v, o=o: FA([k], Implies(r, f), v, o)
            out[x + ": as many"] = st.ghost["CNT_" + x] == upto[x]
            out[x + ": constructed"] = one(And(cls(o) == c, birth(o) >= self.now, birth(o) < st.now, o != NONE))
            out[x + ": identifiers"] = one(UID(o) == g("uuid"))
            out[x + ": names"] = one(NAME(o) == g("name"))
            first = st.ghost["MADE_node"][0]
            if x == "relation":
                e = g("endpoint")
                out["relation: endpoints"] = one(eng.named("f:_endpoint", st)[o] == If(EPN(k), st.ghost["MADE_node"][IDX["node"](e)], st.ghost["MADE_edge"][IDX[
                    "edge"](e)]))
                out["relation: directions"] = one(Function("enumval", V, I)(eng.named("f:_direction", st)[o]) == unI(g("direction")))
                out["relation: weights"] = one(eng.named("f:_weight", st)[o] == NONE)
            if x == "value":
                out["value: contents"] = one(HELD(o) == self.LC0[g("values")])
            put = k if x != "node" else k - 1
            out[x + ": where"] = FA([k], Implies(r if x != "node" else And(r, k >= 1), tupf(2)[0](log[1][at[x] + put], log[0][at[x] + put]) == tupf(
                2)[0](o, first if x != "relation" else st.ghost["MADE_edge"][IDX["edge"](g("parent"))])), v, o)
            if els is not None and x in ("node", "edge"):
                dd, dv = eng.sel(eng.H("DD", st), els, True), eng.sel(eng.H("DV", st), els, True)
                out[x + ": kept by identifier"] = one(And(dd[g("uuid")], dv[g("uuid")] == o))
            if lists is not None and x in lists:
                q = eng.sel(eng.H("LC", st), lists[x], True)
                out[x + ": numbering, as many"] = qlen(q) == upto[x]
                out[x + ": numbering"] = one(qelt(q, k) == tupf(2)[0](g("uuid"), g("index")))
        out["additions"] = st.ghost["ADDN"] == If(n0 > 0, n0 - 1, 0) + upto["edge"] + upto["relation"] + upto["value"]
        return out


def log_addition(e, parent, child):
    g = e.st.ghost
    g["ADDP"], g["ADDC"] = Store(g["ADDP"], g["ADDN"], parent), Store(g["ADDC"], g["ADDN"], child)
    g["ADDN"] = simplify(g["ADDN"] + 1)


def addition(e, m, a, kw):
    """An addition that neither repeats an identifier nor closes a cycle ends normally (units hierarchy.add.*); here it counts as done."""
    log_addition(e, m.t, e.box((list(a) + list(kw.values()))[0]))
    return VNone


def constructors(eng, clock):
    """Elements by the contracts of their constructors (unit cbor.new)."""
    def new(x, names, defaults):
        c = eng.prog.classes[PARTS[x][3]]

        def go(e, m, a, kw):
            vs = dict(zip(names, bound_args(names, defaults, list(a), kw)))
            o = e.alloc("decoded_" + x, c.cid, exact=c)
            e.assume(And(UID(o.t) == e.box(vs["uuid"]), NAME(o.t) == e.box(vs["id_name"])))
            if "clock" in vs:
                e.oblige(e.box(vs["clock"]) == clock, "elements have the clock of the encoder", T)
            if x == "relation":
                for f in ("endpoint", "direction", "weight"):
                    e.setH("f:_" + f, Store(e.H("f:_" + f), o.t, e.box(vs[f])))
            if x == "value":
                l = vs["values"]
                e.oblige(cls(e.box(l)) == C_LIST, "the values are a list", ("type",))
                e.assume(HELD(o.t) == e.content(VObj(e.box(l), kind="list")))
            g = e.st.ghost
            g["MADE_" + x] = Store(g["MADE_" + x], g["CNT_" + x], o.t)
            g["CNT_" + x] = simplify(g["CNT_" + x] + 1)
            p = vs["parent"]
            if x in ("node", "edge") and p is not VNone:
                e.oblige(e.box(p) != NONE, "the parent is an element", T)
                log_addition(e, e.box(p), o.t)
            return o
        eng.contracts["new:" + c.name] = Contract(c.name + ".__init__", go)
    el = ["id_name", "uuid", "text", "clock", "parent"]
    new("node", el, {"parent": VNone})
    new("edge", el, {"parent": VNone})
    new("relation", ["uuid", "id_name", "text", "endpoint", "weight", "parent", "direction", "semantic"], {"parent": VNone, "semantic": VNone, "direction": VObj(
        lit("enum", DIR + ".BIDIRECTIONAL"), cls=eng.prog.classes[DIR])})
    new("value", ["uuid", "id_name", "text", "values", "parent"], {"values": VNone, "parent": VNone})

    eng.virtuals = {"HierarchicalElement": {"add_element": Contract("add_element", addition)}}
    ghosts(eng)


def ghosts(eng):
    """What was constructed, and the parents and children of additions, in order."""
    g = eng.st.ghost
    for x in PARTS:
        g["MADE_" + x] = Const("MADE_" + x, ArraySort(I, V))
        g["CNT_" + x] = IntVal(0)
    g["ADDP"], g["ADDC"], g["ADDN"] = Const("ADDP", ArraySort(I, V)), Const("ADDC", ArraySort(I, V)), IntVal(0)


@unit("cbor.new", "C13", " ".join("hypergraph.%s.__init__" % x for x in (
    "base_elements:HypergraphNode", "base_elements:HypergraphEdge", "base_elements:HypergraphElement", "base_elements:HypergraphRelation", "value_node:ValueNode"))
    + " " + CI + "ConceptualItem.__init__")
def u_new(make):
    """What decoding relies on: constructors keep what they are given and add what they construct to the parent at most as stated."""
    for x, (_, _, _, cname) in PARTS.items():
        eng = setup(make, ())
        eng.elems = []
        eng.on_get = eng.on_put = None
        eng.content_in = content_in(eng)
        assume_HI(eng)
        eng.virtuals["HierarchicalElement"] = {"add_element": Contract("add_element", addition)}
        ghosts(eng)
        eng.nd_fields = {"_relation_incidence_value": 1}
        eng.field_hints["_endpoint"] = ("opt", elements(eng))
        uid, name, q = param(eng, "uuid", kind="bytes"), param(eng, "id_name", kind="str"), param(eng, "text")
        par = el_param(eng, "parent", none_ok=True)
        if x in ("node", "edge"):
            args, kw = [name, uid, q, param(eng, "clock", c="MetaClock"), par], {}
        elif x == "relation":
            ep, d = el_param(eng, "endpoint"), param(eng, "direction", c=DIR)
            eng.assume(Or([d.t == lit("enum", "%s.%s" % (DIR, y)) for y in ("INWARDS", "OUTWARDS", "BIDIRECTIONAL")]))
            args, kw = [uid, name, q, ep, VNone], {"parent": par, "direction": d}
        else:
            l = param(eng, "values", kind="list")
            given = eng.content(l)
            args, kw = [uid, name, q, l], {}
        st0 = eng.st.copy()
        for o in outcomes(eng, lambda: eng.construct(eng.prog.classes[cname], args, kw)):
            if only_raises(eng, o, (), T) != "":
                continue
            g, t = eng.st.ghost, o.val.t
            eng.oblige(And(eng.box(eng.getattr(o.val, "uuid")) == uid.t, eng.box(eng.getattr(o.val, "id_name")) == name.t, UID(t) == uid.t, NAME(t) == name.t),
                       "%s: identifier and name" % x, T)
            if x in ("node", "edge"):
                eng.oblige(If(par.t == NONE, g["ADDN"] == 0, And(g["ADDN"] == 1, g["ADDP"][0] == par.t, g["ADDC"][0] == t)), "%s: added to its parent" % x, T)
            else:
                eng.oblige(g["ADDN"] == 0, "%s: not added to anything" % x, T)
            if x == "relation":
                eng.oblige(And(eng.box(eng.getattr(o.val, "endpoint")) == ep.t, eng.box(eng.getattr(o.val, "direction")) == d.t, eng.box(eng.getattr(
                    o.val, "weight")) == NONE), "relation: endpoint, direction and weight", T)
            if x == "value":
                for r in eng.explore(lambda: eng.to_list(call_method(eng, o.val, "get_values", []))):
                    eng.st = r.st
                    if only_raises(eng, r, (), T) == "":
                        eng.seq_equal(eng.seq_of(eng.content(r.val)), SAtom(given), "value: contents", T)
            r_ = Const("r!", V)
            for key in sorted(eng.st.heap):
                a, b = eng.named(key, st0), eng.named(key)
                if not a.eq(b):
                    eng.oblige(FA([r_], Implies(birth(r_) < st0.now, b[r_] == a[r_]), b[r_]), "%s: nothing else changes (%s)" % (x, key), T)


@unit("cbor.decode", "C13", GC + "create_graph")
def u_decode(make):
    """Decoding constructs the elements of the message, in order, and adds them where the message says."""
    eng = make()
    start(eng)
    eng.on_get = eng.on_put = None
    eng.field_hints.update({"_clock": "any"})
    me = param(eng, "self", exact="GraphTensorCbor")
    clock = gf(eng, "_GraphTensorCbor__clock", me.t)
    msg = param(eng, "msg", kind="bytes")
    D = Decoded(eng)
    for f in D.wellformed():
        eng.assume(f)
    eng.note("a message that is decoded is one of a graph: its first node is the context, identifiers are distinct, endpoints are in the message")
    parts = [eng.new_list_q(D.F[x]) for x in PARTS] + [eng.new_list_q(eng.fresh("tensor", Q)) for _ in range(3)]
    frag = eng.new_list(parts)
    D.now = eng.st.now

    def loads(e, a, kw):
        e.oblige(e.box(a[0]) == msg.t, "the message is decoded", T)
        return frag
    eng.ext = {"cbor2.loads": loads}
    constructors(eng, clock)
    eng.contracts["new:HypergraphFactory"] = Contract("HypergraphFactory.__init__", lambda e, m, a, k: e.alloc("factory", e.prog.classes["HypergraphFactory"].cid))
    hom = eng.prog.classes[CN]
    restored = []

    def restore(e, m, a, kw):
        vs = bound_args(["nodes", "edges", "values"], {}, list(a), kw)
        e.st.ghost["RESTORED"] = m.t
        for x, l in zip(("node", "edge", "value"), vs):
            q = e.content(l)
            k = D.k
            e.oblige(qlen(q) == D.n(x), "the numbering of every %s" % x, T)
            e.oblige(FA([k], Implies(And(0 <= k, k < D.n(x)), qelt(q, k) == tupf(2)[0](D.get(x, "uuid", k), D.get(x, "index", k))), D.entry(x, k)), "the numbers "
                     "of the %ss" % x, T)
        return VNone
    eng.contracts["new:" + CN] = Contract(CN + ".__init__", lambda e, m, a, k: e.alloc("numbering", hom.cid, exact=hom))
    eng.contracts[method(eng, CN, "reset_from_bijection").qual] = Contract(CN + ".reset_from_bijection", restore)
    st0 = eng.st.copy()
    order = list(PARTS)

    def candidates(c):
        if c.src is None or c.src.seq is None:
            return
        here = [x for x in order if c.src.seq.eq(D.F[x])]
        if not here:
            return
        i = lambda st: st.ghost[c.src.idx]
        base = c.st0

        def upto(st):
            return {y: i(st) if y == here[0] else D.n(y) if order.index(y) < order.index(here[0]) else IntVal(0) for y in order}
        fr = [(f, nm, v) for f, vs in base.frames.items() for nm, v in vs.items() if isinstance(v, VObj)]
        els = [v.t for _, _, v in fr if v.kind == "dict"]
        lists = [v.t for _, _, v in fr if v.kind == "list" and not any(v.t.eq(p.t) for p in parts + [frag])]
        for nm in D.so_far(base, {y: IntVal(0) for y in order}):
            yield nm, lambda st, nm=nm: D.so_far(st, upto(st))[nm]
        for d in els:
            for x in ("node", "edge"):
                nm = x + ": kept by identifier"
                yield nm, lambda st, nm=nm, d=d: D.so_far(st, upto(st), els=d)[nm]
        for l in lists:
            for x in ("node", "edge", "value"):
                for nm in (x + ": numbering, as many", x + ": numbering"):
                    yield nm, lambda st, nm=nm, l=l, x=x: D.so_far(st, upto(st), lists={x: l})[nm]
                    # a list made in one go holds all of a part before the elements are decoded
                    yield nm + " (all)", lambda st, nm=nm, l=l, x=x: D.so_far(st, {y: D.n(y) for y in order}, lists={x: l})[nm]
        r = Const("r!", V)
        for key in ("LC", "DD", "DV", "f:_endpoint", "f:_direction", "f:_weight"):
            if ("h", key) in c.M:
                yield "what there was stays (%s)" % key, lambda st, key=key: FA([r], Implies(birth(r) < D.now, eng.named(key, st)[r] == eng.named(key, st0)[r]), eng.named(
                    key, st)[r])
        if here[0] == "node":
            for m in c.M:
                if m[0] == "l":
                    def root(st, m=m):
                        v = st.frames[m[1]].get(m[2])
                        return If(i(st) > 0, eng.box(v) == st.ghost["MADE_node"][0], eng.box(v) == NONE) if isinstance(v, VObj) or v is VNone else None
                    yield "the context", root
    eng.candidates = candidates
    for o in outcomes(eng, lambda: call_method(eng, me, "create_graph", [msg])):
        if only_raises(eng, o, (), T) == "":
            for nm, f in D.so_far(eng.st, {x: D.n(x) for x in order}).items():
                eng.oblige(f, nm, T)
            first = eng.st.ghost["MADE_node"][0]
            res = o.val
            eng.oblige(And(eng.box(res.items[0]) == first, eng.box(res.items[1]) == eng.st.ghost["RESTORED"]), "the context and the numbering are returned", T)
            eng.oblige(And(gf(eng, "_context", me.t) == first, gf(eng, "_homomorphism", me.t) == eng.st.ghost["RESTORED"]), "and kept for update messages", T)
            frame_all(eng, st0, "nothing else changes", T, ("f:_context", "f:_homomorphism"))

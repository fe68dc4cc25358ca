"""C18: prepositional queries and the query engine."""
import ast

from .indexing import *
from .hierarchy import _e, _k, _n, _c

T = ("C18",)
QE_ = "query.query_engine:"
QN, EN_ = "HierarchicalPrepositionQuery", "HypergraphQueryEngine"
PICK = Function("PICK", I, Q)              # PICK(k): the elements accepted by the preposition among the first k visited
E.HEAP_SORTS["QC"] = ArraySort(V, Q)       # what a query holds and has not handed out


# ---------------------------------------------------------------------- one query
def containers(eng, o):
    """Fields of an object that hold lists and queues."""
    out = []
    for f in sorted(eng.class_fields(o.exact)):
        if "f:" + f in eng.st.heap:
            v = eng.wrap(eng.sel(eng.H("f:" + f), o.t))
            if isinstance(v, VObj) and v.kind in ("list", "queue"):
                out.append((f, v))
    return out


def is_empty(eng, v):
    if v.kind == "list":
        return qlen(eng.content(v)) == 0
    h, t = eng.lib.q_bounds(eng, eng.lib.dq(eng, v))
    return h == t


def earlier(eng, o, rest):
    """Whatever earlier executions left: containers hold anything, those in rest nothing."""
    w = writable(eng, o.exact)
    for f in sorted(eng.class_fields(o.exact)):
        if "f:" + f in eng.st.heap and f in w and f not in [x for x, _ in containers(eng, o)]:
            raise E.Unsupported("a field of unknown kind changes: %s" % f)
    for f, v in containers(eng, o):
        if v.kind == "list":
            c = eng.fresh("left", Q)
            eng.assume(qlen(c) >= 0)
            if f in w:
                v = eng.new_list_q(c)
                eng.setH("f:" + f, Store(eng.H("f:" + f), o.t, v.t))
            else:
                eng.set_content(v, c)
        else:
            if f in w:
                raise E.Unsupported("a queue is replaced")
            s = eng.lib.dq(eng, v)
            a, b = eng.fresh("left", I), eng.fresh("left", I)
            eng.assume(And(0 <= a, a <= b))
            eng.setH("QH", Store(eng.H("QH"), s, a))
            eng.setH("QL", Store(eng.H("QL"), s, b))
            eng.setH("QE", Store(eng.H("QE"), s, eng.fresh("left", IV)))
        if f in rest:
            eng.assume(is_empty(eng, v))


def picks(eng, w, prep):
    """PICK over the visited elements w."""
    j = Int("j!")
    eng.assume(PICK(0) == qnil)
    x = qelt(w, j)
    eng.assume(FA([j], Implies(And(0 <= j, j < qlen(w)), PICK(j + 1) == If(app_b(prep, x), qapp(PICK(j), x), PICK(j))), PICK(j + 1)))
    eng.assume(FA([j], And(qlen(PICK(j)) >= 0, Implies(qlen(PICK(j)) == 0, PICK(j) == qnil)), PICK(j)))


def query_candidates(eng, box):
    m = Int("m!")

    def cands(ctx):
        if ctx.src is not None and box:
            n = box[0]
            i = lambda st: st.ghost[ctx.src.idx]
            for s in ctx.frames.get("QL", []):
                def held(st, s=s):
                    h, t, a = (eng.sel(eng.H(k, st), s) for k in ("QH", "QL", "QE"))
                    return And(t - h == qlen(PICK(i(st))), FA([m], Implies(And(0 <= m, m < t - h), a[h + m] == qelt(PICK(i(st)), m)), a[h + m]),
                               FA([m], Implies(And(h <= m, m < t), a[m] == qelt(PICK(i(st)), m - h)), a[m]))
                yield "%s holds the matches so far" % s, held
            for l, c in list_targets(eng, ctx):
                yield "%s holds the matches so far" % l, lambda st, c=c: None if c(st) is None else c(st) == PICK(i(st))
        if ctx.src is None:
            for s in ctx.frames.get("QH", []):
                for l in ctx.frames.get("LC", []):
                    h0 = eng.sel(eng.H("QH", ctx.st0), s)

                    def moved(st, s=s, l=l):
                        h, t, a = (eng.sel(eng.H(k, st), s) for k in ("QH", "QL", "QE"))
                        c = eng.sel(eng.H("LC", st), l)
                        return And(h <= t, qlen(c) == h - h0, FA([m], Implies(And(0 <= m, m < h - h0), qelt(c, m) == a[h0 + m]), qelt(c, m)))
                    yield "%s holds what was taken from %s" % (l, s), moved
                    yield "%s holds what was taken from %s (tail)" % (l, s), lambda st, s=s, l=l: And(0 <= eng.sel(eng.H("QH", st), s), eng.sel(
                        eng.H("QH", st), s) <= eng.sel(eng.H("QL", st), s))
    return cands


def query_round(make, rest, final, how):
    """Build, then one execution after any history that leaves the containers in rest empty.  Returns the containers left non-empty."""
    eng = setup(make, defs())
    eng.elems = []
    eng.content_in = content_in(eng)
    assume_HI(eng)
    use_traversals(eng)
    ctx, prep, stmt = el_param(eng, "context"), param(eng, "prep"), param(eng, "statement")
    eng.on_user_call = lambda e, f, a: VBool(app_b(f.t, e.box(a[0])))
    eng.on_get = eng.on_put = None
    q = eng.construct(eng.prog.classes[QN], [ctx, prep, stmt], {})
    names = [f for f, _ in containers(eng, q)]
    if rest is None:
        rest = set(names)
    if final:
        for f, v in containers(eng, q):
            if f in rest:
                eng.oblige(is_empty(eng, v), "%s is empty at first" % f, T)
    else:
        rest = {f for f, v in containers(eng, q) if f in rest and eng.entails(is_empty(eng, v))}
    earlier(eng, q, rest)
    wseq = []

    def on_walk(W):
        if eng.st.ghost.get("walks"):
            raise E.Unsupported("several traversals in one execution")
        eng.st.ghost["walks"] = (W,)
        wseq[:] = [qlen(W.seq)]
        picks(eng, W.seq, prep.t)
    eng.on_walk = on_walk
    eng.candidates = query_candidates(eng, wseq)
    st0 = eng.st.copy()
    lost = set()
    m = Int("m!")
    for o in outcomes(eng, lambda: execution(eng, q, how)):
        if only_raises(eng, o, (), T) == "":
            c = containers(eng, q)
            if not final:
                lost |= {f for f, v in c if f in rest and not eng.entails(is_empty(eng, v))}
                continue
            for f, v in c:
                if f in rest:
                    eng.oblige(is_empty(eng, v), "%s is empty afterwards" % f, T)
            walks = eng.st.ghost.get("walks", ())
            eng.oblige(BoolVal(len(walks) == 1), "the hierarchy is traversed once", T)
            if not walks:
                continue
            W = walks[0]
            x = Const("x!", V)
            kinds = Or([eng.isa(x, eng.prog.classes[k]) for k in ("HypergraphNode", "HypergraphRelation", "HypergraphEdge", "SemanticValueNode")])
            eng.oblige(And(W.start == ctx.t, BoolVal(W.kind == "bfs"), Not(W.ignore), BoolVal(W.max is None)), "all levels from the context are traversed in breadth", T)
            eng.oblige(FA([x], Implies(W.EL[x], app_b(W.filt, x) == And(kinds, app_b(stmt.t, x))), app_b(W.filt, x)),
                       "the traversal goes through elements satisfying the statement", T)
            r, want = eng.content(o.val), PICK(qlen(W.seq))
            eng.oblige(qlen(r) == qlen(want), "as many results as matches", T)
            eng.oblige(FA([m], Implies(And(0 <= m, m < qlen(want)), qelt(r, m) == qelt(want, m)), qelt(r, m)), "the results are the matches in order", T)
            hierarchy_same(eng, st0, T)
            eng.oblige(BoolVal(own_fields(eng, q) == own_fields(eng, q, st0)), "the query keeps its context and conditions", T)
    if not final:
        eng.obls.clear()
    return rest - lost


def own_fields(eng, o, st=None):
    """Fields that are not written after construction."""
    w = writable(eng, o.exact)
    return [str(eng.sel(eng.H("f:" + f, st), o.t)) for f in sorted(eng.class_fields(o.exact)) if f not in w and "f:" + f in eng.st.heap]


def execution(eng, q, how):
    l = eng.await_(call_method(eng, q, "prefilter"))
    eng.iterate_seq(eng.seq_of(eng.content(l)), lambda x: eng.await_(x))
    if how == "list":
        return eng.await_(call_method(eng, q, "get_list_results"))
    return eng.to_list(call_method(eng, q, "execute"))


def u_query(how):
    def body(make):
        rest = None
        for _ in range(6):
            new = query_round(make, rest, False, how)
            if new == rest:
                break
            rest = new
        query_round(make, rest, True, how)
    return body


for _h in ("list", "stream"):
    unit("query.execution." + _h, "C18", " ".join(QE_ + QN + "." + x for x in (
        "__init__", "prefilter", "add_to_result", "execute", "get_list_results")))(u_query(_h))


# ---------------------------------------------------------------------- the engine
TASK = Function("TASK", V, V, V)           # TASK(e, k): the k-th coroutine made by prefiltering the query e
NVIS = Function("NVIS", V, I)              # how many elements the query e visits
PRE, SEEN = Function("PRE", V, I, B), Function("SEEN", V, I, V)
PICKED = Function("PICKED", V, I, Q)       # the matches of the query e among the first k elements it visits
ALLQ = Function("ALLQ", I, Q)              # the matches of the first j registered queries
PQ = Function("PQ", V, I)                  # the position of a registered query


def use_queries(eng):
    """Queries by their contract (shown in the units query.execution.*)."""
    e, k = Const("e!", V), Int("k!")
    eng.assume(FA([e], And(NVIS(e) >= 0, PICKED(e, 0) == qnil), NVIS(e)))
    eng.assume(FA([e], PICKED(e, 0) == qnil, PICKED(e, 0)))
    eng.assume(FA([e, k], Implies(0 <= k, PICKED(e, k + 1) == If(PRE(e, k), qapp(PICKED(e, k), SEEN(e, k)), PICKED(e, k))), PICKED(e, k + 1)))
    C = eng.prog.classes[QN]
    qc = lambda t: eng.sel(eng.H("QC"), t)

    def query(s):
        t = eng.box(s)
        eng.oblige(eng.isa(t, C), "what is executed is a query", ("type",))
        return t

    def prefilter(en, s, args, kw):
        t = query(s)
        i = Const("visit!%d" % next(E._ixs), I)
        return VCoro(lambda: en.new_list_q(en.seq_to_q(SLoop(NVIS(t), i, SOne(TASK(t, boxI(i)))))), "prefilter")

    def results(en, s, args, kw):
        t = query(s)

        def run():
            r = en.new_list_q(qc(t))
            en.setH("QC", Store(en.H("QC"), t, qnil))
            return r
        return VCoro(run, "get_list_results")

    def stream(en, s, args, kw):
        t = query(s)

        def run(e2, handler):
            r = qc(t)
            e2.setH("QC", Store(e2.H("QC"), t, qnil))
            e2.iterate_seq(SAtom(r), handler)
        return VIter(run, "execute")

    def on_await(en, v):
        if not (is_app(v.t) and v.t.decl().eq(TASK)):
            raise E.Unsupported("await of %r" % v)
        t, i = v.t.arg(0), unI(v.t.arg(1))
        i = simplify(i)
        eng.setH("QC", Store(en.H("QC"), t, If(PRE(t, i), qapp(qc(t), SEEN(t, i)), qc(t))))
        return VNone
    eng.on_await = on_await
    for n, f in (("prefilter", prefilter), ("get_list_results", results), ("execute", stream)):
        F = eng.prog.lookup(C, n)
        if F is not None:
            eng.contracts[F.qual] = Contract("%s.%s" % (QN, n), f)


def registry(eng, d):
    """The registered queries: different objects, with nothing left from earlier executions."""
    dom, stamp, n, dv = (eng.sel(eng.H(k), d) for k in ("DD", "DS", "DN", "DV"))
    i, x = Int("i!"), Const("x!", V)
    eng.enum_facts(dom, stamp, n)
    eng.enums[(dom.get_id(), stamp.get_id())] = (d, dom, stamp, simplify(n))
    at = lambda i: Select(dv, EN(dom, stamp, i))
    eng.assume(FA([i], Implies(And(0 <= i, i < n), And(PQ(at(i)) == i, eng.isa(at(i), eng.prog.classes[QN]), birth(at(i)) < eng.st.now,
                                                       eng.H("QC")[at(i)] == qnil)), EN(dom, stamp, i)))
    j, q = Int("j!"), Const("q!", Q)
    eng.assume(ALLQ(0) == qnil)
    eng.assume(FA([j], Implies(And(0 <= j, j < n), ALLQ(j + 1) == qcat(ALLQ(j), PICKED(at(j), NVIS(at(j))))), ALLQ(j + 1)))
    eng.assume(FA([q], And(qcat(qnil, q) == q, qcat(q, qnil) == q), (qcat(qnil, q), qcat(q, qnil))))
    return n, at


def own_class_fields(c):
    out = set()
    for nd in ast.walk(c.node):
        if isinstance(nd, ast.Attribute) and isinstance(nd.ctx, ast.Store) and isinstance(nd.value, ast.Name) and nd.value.id == "self":
            a = nd.attr
            out.add("_%s%s" % (c.name.lstrip("_"), a) if a.startswith("__") and not a.endswith("__") else a)
    return sorted(out)


def engine(make):
    eng = setup(make, defs())
    eng.elems = []
    eng.on_get = eng.on_put = None
    start(eng)
    me = param(eng, "engine", exact=EN_)
    fs = own_class_fields(eng.prog.classes[EN_])
    if len(fs) != 1:
        raise E.Unsupported("the engine has other fields than its queries: %s" % fs)
    key = "f:" + fs[0]
    eng.field_hints[fs[0]] = "dict"
    d = eng.sel(eng.H(key), me.t)
    eng.assume(And(cls(d) == C_DICT, birth(d) < eng.st.now, own(d) == me.t, okey(d) == lit("field", fs[0])))
    eng.params.add(str(d))
    return eng, me, key, d


def engine_candidates(eng, n, at):
    x = Const("x!", V)
    reg = lambda x: And(0 <= PQ(x), PQ(x) < n, at(PQ(x)) == x)
    full = lambda x: PICKED(x, NVIS(x))

    def cands(ctx):
        if ctx.src is None:
            return
        i = lambda st: st.ghost[ctx.src.idx]
        qc = lambda st: eng.named("QC", st)
        inner = None
        if ctx.src.seqexpr is not None:
            for t in eng.seq_terms(ctx.src.seqexpr.body):
                if is_app(t) and t.decl().eq(TASK) and t.arg(1).eq(boxI(ctx.src.seqexpr.i)):
                    inner = t.arg(0)
        forms = [("filled", lambda st: lambda x: If(PQ(x) < i(st), full(x), qnil)),
                 ("drained", lambda st: lambda x: If(PQ(x) < i(st), qnil, full(x))),
                 ("empty", lambda st: lambda x: qnil)]
        if inner is not None:
            forms.append(("being filled", lambda st: lambda x: If(PQ(x) < PQ(inner), full(x), If(PQ(x) == PQ(inner), PICKED(x, i(st)), qnil))))
            forms.append(("one filled", lambda st: lambda x: If(x == inner, PICKED(x, i(st)), qnil)))
        for nm, f in forms:
            if ("h", "QC") not in ctx.M:
                break
            yield "what the queries hold: " + nm, lambda st, f=f: FA([x], Implies(reg(x), qc(st)[x] == f(st)(x)), qc(st)[x])
        for l, c in list_targets(eng, ctx):
            yield "%s holds the results so far" % l, lambda st, c=c: None if c(st) is None else c(st) == ALLQ(i(st))
    return cands


def u_engine(name, loops):
    def body(make):
        eng, me, key, d = engine(make)
        use_queries(eng)
        eng.summarise = True
        n, at = registry(eng, d)
        eng.candidates = engine_candidates(eng, n, at)
        st0 = eng.st.copy()
        x, j = Const("x!", V), Const("query!%d" % next(E._ixs), I)
        for o in outcomes(eng, lambda: (lambda r: eng.await_(r) if isinstance(r, VCoro) else r)(call_method(eng, me, name))):
            if only_raises(eng, o, (), T) == "":
                eng.oblige(eng.content(o.val) == ALLQ(n), "the results of all queries in order of registration", T)
                qc = eng.named("QC")
                eng.oblige(FA([x], Implies(And(0 <= PQ(x), PQ(x) < n, at(PQ(x)) == x), qc[x] == qnil), qc[x]), "nothing is left for the next execution", T)
                unchanged_registry(eng, me, key, d, st0)
                hierarchy_same(eng, st0, T)
    return body


def unchanged_registry(eng, me, key, d, st0):
    eng.oblige(eng.sel(eng.H(key), me.t) == d, "the engine keeps its register", T)
    for k in ("DD", "DV", "DS", "DN"):
        eng.oblige(eng.sel(eng.named(k), d) == eng.sel(eng.named(k, st0), d), "the registered queries stay (%s)" % k, T)


for _n2 in ("execute", "execute_all_queries"):
    unit("query.engine." + _n2, "C18", " ".join(QE_ + EN_ + "." + x for x in (
        _n2, "prefilter_queries") + (("task_result_queries_lists",) if _n2 == "execute" else ())))(u_engine(_n2, None))


@unit("query.engine.register", "C18", QE_ + EN_ + ".add_query " + QE_ + EN_ + ".clear " + QE_ + EN_ + ".__init__")
def u_register(make):
    k = Const("k!", V)
    eng, me, key, d = engine(make)
    nm, q = param(eng, "name", kind="str"), param(eng, "query", exact=QN)
    st0 = eng.st.copy()
    for o in outcomes(eng, lambda: call_method(eng, me, "add_query", [nm, q])):
        if only_raises(eng, o, (), T) == "":
            d2 = eng.sel(eng.H(key), me.t)
            D, V_, S, D0, V0, S0 = (eng.sel(eng.named(a, st), t) for st, t in ((None, d2), (st0, d)) for a in ("DD", "DV", "DS"))
            eng.oblige(FA([k], D[k] == Or(D0[k], k == nm.t), D[k]), "the query is registered, others stay", T)
            eng.oblige(FA([k], Implies(D[k], V_[k] == If(k == nm.t, q.t, V0[k])), V_[k]), "the query is registered under its name", T)
            k2 = Const("k2!", V)
            eng.oblige(FA([k, k2], Implies(And(D0[k], D0[k2]), (S[k] < S[k2]) == (S0[k] < S0[k2])), (S[k], S[k2])), "the order of registration stays", T)
            eng.oblige(FA([k], Implies(And(D0[k], Not(D0[nm.t])), S[k] < S[nm.t]), S[k]), "a new query comes last", T)
            eng.oblige(And(own(d2) == me.t), "the register is its own", T)
            hierarchy_same(eng, st0, T)
    eng.st = st0.copy()
    for o in outcomes(eng, lambda: call_method(eng, me, "clear")):
        if only_raises(eng, o, (), T) == "":
            cleared(eng, me, key, st0)
            hierarchy_same(eng, st0, T)
    eng.st = st0.copy()
    init = eng.prog.lookup(eng.prog.classes["HypergraphNode"], "__init__")
    eng.contracts[init.qual] = Contract("HypergraphNode.__init__", lambda e, s, args, kw: VNone)
    parts = [param(eng, "id_name", kind="str"), param(eng, "uuid", kind="bytes"), param(eng, "qualified_name", kind="str"), param(eng, "clock", c="MetaClock"), VNone]
    for o in outcomes(eng, lambda: eng.construct(eng.prog.classes[EN_], parts, {})):
        if only_raises(eng, o, (), T) == "":
            cleared(eng, o.val, key, st0)


def cleared(eng, me, key, st0):
    k = Const("k!", V)
    d2 = eng.sel(eng.H(key), me.t)
    D = eng.sel(eng.named("DD"), d2)
    eng.oblige(And(cls(d2) == C_DICT, Or(birth(d2) >= st0.now, own(d2) == me.t)), "the register is its own", T)
    eng.oblige(FA([k], Not(D[k]), D[k]), "no query is registered", T)
    eng.oblige(eng.sel(eng.H("DN"), d2) == 0, "the register is empty", T)

"""C15: factorization yields exactly the directed pairs."""
from .reads import *
from .hierarchy import _e, _k, _n, _c

T = ("C15",)
FO = "hypergraph.factorization_operations:"


def fstart(make, cname):
    eng = setup(make)
    eng.field_hints["_endpoint"] = ("opt", elements(eng))
    eng.elems = []
    assume_HI(eng)
    me = param(eng, "self", c=cname)
    l = param(eng, "start", kind="list")
    q = eng.content(l)
    j = Int("j!")
    eng.assume(FA([j], Implies(And(0 <= j, j < qlen(q)), And(FisH(qelt(q, j)), eng.H("ELS")[qelt(q, j)], birth(qelt(q, j)) < eng.st.now,
                                                             eng.isa(qelt(q, j), elements(eng)))), qelt(q, j)))
    eng.assume(qlen(q) >= 0)
    return eng, me, l, q


def selected(eng, q, c, x):
    """x occurs in the selection and is of the class."""
    j = Int("sel!")
    return And(eng.isa(x, eng.prog.classes[c]), qmem(q, x))


@unit("factorize.subset", "C15", FO + "Factorization2SubsetOperation.execute")
def u_subset(make):
    eng, me, l, q = fstart(make, "Factorization2SubsetOperation")
    j = Int("j!")
    loop = eng.box(eng.getattr(me, "self_loop"))
    eng.assume(cls(loop) == C_BOOL)
    st0 = eng.st.copy()
    for o in outcomes(eng, lambda: eng.await_(call_method(eng, me, "execute", [l]))):
        if only_raises(eng, o, (), T) == "":
            g = lambda f, t: eng.sel(eng.H("f:" + f), t)
            sel = lambda c: selected(eng, q, "HypergraphNode", g("_endpoint", c))
            i = Int("e!")
            e = qelt(q, i)
            def pairs(a):
                return children(eng, VObj(e), lambda b: And(incident(eng, b, "OUTWARDS", "BIDIRECTIONAL"), sel(b), Or(UID(g("_endpoint", a)) != UID(g(
                    "_endpoint", b)), unB(loop))), lambda b: listval(qapp(qapp(qnil, a), b)))
            want = SLoop(qlen(q), i, SIf(eng.isa(e, eng.prog.classes["HypergraphEdge"]), children2(eng, VObj(e), lambda a: And(
                incident(eng, a, "INWARDS", "BIDIRECTIONAL"), sel(a)), pairs)))
            eng.seq_equal(eng.seq_of(eng.content(o.val)), want, "the pairs of the selected edges", T)


def children2(eng, me, guard, body, st=None):
    st = st or eng.st
    d = eng.sel(eng.H("f:_sub_elements", st), me.t)
    dom, stamp, n = (eng.sel(eng.H(k, st), d) for k in ("DD", "DS", "DN"))
    i = Const("ix!%d" % next(E._ixs), I)
    c = Select(eng.sel(eng.H("DV", st), d), EN(dom, stamp, i))
    return SLoop(n, i, SIf(guard(c), body(c)))


GROUP = {d: Function("GROUP_" + d, V, I, Q) for d in ("in", "out")}


DIRS = {"in": ("INWARDS", "BIDIRECTIONAL"), "out": ("OUTWARDS",)}


def picked(eng, q, d, u, x):
    """x is a relation of the edge u and of direction d."""
    return And(incident(eng, x, *DIRS[d]), UID(eng.sel(eng.H("f:_parent"), x)) == u)


def groups(eng, q, lemma=True):
    """GROUP_d(u, n): the relations of direction d among the first n of the selection whose edge has the identifier u, in order."""
    u, j, k = Const("u!", V), Int("j!"), Int("k!")
    x = qelt(q, j)
    for d, g in GROUP.items():
        eng.assume(FA([u], g(u, 0) == qnil, g(u, 0)))
        eng.assume(FA([u, j], Implies(And(0 <= j, j < qlen(q)), g(u, j + 1) == If(picked(eng, q, d, u, x), qapp(
            g(u, j), x), g(u, j))), g(u, j + 1)))
        eng.assume(FA([u, j], And(qlen(g(u, j)) >= 0, Implies(qlen(g(u, j)) == 0, g(u, j) == qnil)), g(u, j)))
        if lemma:
            # shown by induction in the unit factorize.lemmas
            eng.assume(FA([u, k], grouped(eng, q, d, u, qlen(q), k), qelt(g(u, qlen(q)), k)))


def grouped(eng, q, d, u, j, k):
    """The members of a group are selected relations."""
    g = GROUP[d](u, j)
    y = qelt(g, k)
    return Implies(And(0 <= k, k < qlen(g)), And(picked(eng, q, d, u, y), selected_ok(eng, y)))


def selected_ok(eng, x):
    f = lambda n, t: eng.sel(eng.H("f:" + n), t)
    return And(FisH(x), eng.H("ELS")[x], birth(x) < eng.st.now, eng.isa(x, elements(eng)), Implies(eng.isa(x, eng.prog.classes[
        "HypergraphRelation"]), And(f("_parent", x) != NONE, f("_endpoint", x) != NONE)))


@unit("factorize.lemmas", "C15", "")
def u_flemmas(make):
    """By induction on the number of selected elements considered."""
    eng, me, l, q = fstart(make, "RelationFactorization2SubsetOperation")
    groups(eng, q, False)
    j, k = Int("j!"), Int("k!")
    eng.assume(FA([j], Implies(And(0 <= j, j < qlen(q)), selected_ok(eng, qelt(q, j))), qelt(q, j)))
    u, n = Const("u", V), Int("n")
    eng.vacuity = [("lemma", eng.st.pc)]
    base = list(eng.st.pc)
    for d, g in GROUP.items():
        eng.st.pc = base + [g(u, 0) == g(u, 0)]
        eng.oblige(FA([k], grouped(eng, q, d, u, IntVal(0), k), qelt(g(u, 0), k)), "members of a group (start)", T)
        eng.st.pc = base + [0 <= n, n < qlen(q), FA([k], grouped(eng, q, d, u, n, k), qelt(g(u, n), k)), g(u, n + 1) == g(u, n + 1), qelt(
            q, n) == qelt(q, n)]
        eng.oblige(FA([k], grouped(eng, q, d, u, n + 1, k), qelt(g(u, n + 1), k)), "members of a group (step)", T)


def group_candidates(ctx):
    """Every dictionary the loop writes to holds one of the groups, in lists of its own."""
    eng = ctx.eng
    if ctx.src is None:
        return
    ds = [t for t in ctx.frames.get("DD", [])]
    i = lambda st: st.ghost[ctx.src.idx]
    u, v = Const("u!", V), Const("v!", V)
    dd = lambda st, d: eng.sel(eng.H("DD", st), d)
    dv = lambda st, d: eng.sel(eng.H("DV", st), d)
    lc = lambda st: eng.named("LC", st)
    r = Const("r!", V)
    A0 = eng.named("LC", ctx.st0)
    if ("h", "LC") in ctx.M and "LC" not in ctx.frames:
        yield "older lists are unchanged", lambda st: FA([r], Implies(birth(r) < ctx.st0.now, lc(st)[r] == A0[r]), lc(st)[r])
    for d in ds:
        for nm, g in GROUP.items():
            yield "%s has a list for each edge with such a relation (%s)" % (d, nm), lambda st, d=d, g=g: FA(
                [u], dd(st, d)[u] == (qlen(g(u, i(st))) > 0), dd(st, d)[u])
            yield "%s lists the relations (%s)" % (d, nm), lambda st, d=d, g=g: FA(
                [u], Implies(dd(st, d)[u], lc(st)[dv(st, d)[u]] == g(u, i(st))), (dv(st, d)[u]))
        yield "lists of %s" % d, lambda st, d=d: FA([u], Implies(dd(st, d)[u], And(cls(dv(st, d)[u]) == C_LIST, birth(dv(st, d)[u]) >= ctx.st0.now,
                                                                                   birth(dv(st, d)[u]) < st.now)), dv(st, d)[u])
        for e in ds:
            yield "%s and %s do not share lists" % (d, e), lambda st, d=d, e=e: FA([u, v], Implies(And(
                dd(st, d)[u], dd(st, e)[v], *([u != v] if d.eq(e) else [])), dv(st, d)[u] != dv(st, e)[v]), (dv(st, d)[u], dv(st, e)[v]))


@unit("factorize.relations", "C15", FO + "RelationFactorization2SubsetOperation.execute")
def u_relations(make):
    eng, me, l, q = fstart(make, "RelationFactorization2SubsetOperation")
    j = Int("j!")
    # the selected relations belong to edges and have endpoints
    eng.assume(FA([j], Implies(And(0 <= j, j < qlen(q)), selected_ok(eng, qelt(q, j))), qelt(q, j)))
    groups(eng, q)
    loop = eng.box(eng.getattr(me, "self_loop"))
    eng.assume(cls(loop) == C_BOOL)
    eng.candidates = group_candidates
    for o in outcomes(eng, lambda: eng.await_(call_method(eng, me, "execute", [l]))):
        if only_raises(eng, o, (), T) == "":
            d = eng.getattr(me, "incoming_relations")
            dom, stamp, n = (eng.sel(eng.H(k), d.t) for k in ("DD", "DS", "DN"))
            i, a, b = Int("e!"), Int("a!"), Int("b!")
            u = EN(dom, stamp, i)
            gi, go = GROUP["in"](u, qlen(q)), GROUP["out"](u, qlen(q))
            x, y = qelt(gi, a), qelt(go, b)
            g = lambda t: eng.sel(eng.H("f:_endpoint"), t)
            want = SLoop(n, i, SLoop(qlen(gi), a, SLoop(qlen(go), b, SIf(Or(UID(g(x)) != UID(g(y)), unB(loop)), SOne(listval(qapp(qapp(qnil, x), y)))))))
            k = Const("k!", V)
            eng.oblige(FA([k], dom[k] == (qlen(GROUP["in"](k, qlen(q))) > 0), dom[k]), "every edge with an incoming relation is considered", T)
            eng.seq_equal(eng.seq_of(eng.content(o.val)), want, "the pairs of the selected relations", T)

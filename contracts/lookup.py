"""C05: lookup of elements by a path of names."""
from .hierarchy import *

SEP = lit("str", "/")
M = Function("MATCH", PA, V, V, Q, I, B)    # MATCH(p, x, e, ts, j): x is reached from e along the names ts[0..j]
TOP = Function("TOP", PA, V, I, V)          # the j-th ancestor
NOSEP = Function("nosep", V, B)             # contains no '/'
BAD = Function("badtoken", Q, I)


def defs():
    p, x, e, ts, j = Const("p!", PA), Const("x!", V), Const("e!", V), Const("ts!", Q), Int("j!")
    return [
        FA([p, x, e, ts, j], Implies(j >= 0, M(p, x, e, ts, j) == And(NAME(x) == qelt(ts, j), If(
            j == 0, p[x] == e, And(p[x] != NONE, M(p, p[x], e, ts, j - 1))))), (M(p, x, e, ts, j), p[x])),
        FA([p, x], TOP(p, x, 0) == x, TOP(p, x, 0)),
        FA([p, x, j], Implies(j > 0, TOP(p, x, j) == TOP(p, p[x], j - 1)), (TOP(p, x, j), p[x])),
    ]


def strings():
    """str.split and str.join with the separator '/' (library model)."""
    s, ts, i = Const("s!", V), Const("ts!", Q), Int("i!")
    return [
        FA([s], qlen(qsplit(s, SEP)) >= 1, qsplit(s, SEP)),
        FA([s, i], Implies(And(0 <= i, i < qlen(qsplit(s, SEP))), And(cls(qelt(qsplit(s, SEP), i)) == C_STR,
                                                                     NOSEP(qelt(qsplit(s, SEP), i)))), qelt(qsplit(s, SEP), i)),
        FA([ts], Implies(And(qlen(ts) >= 1, Implies(And(0 <= BAD(ts), BAD(ts) < qlen(ts)), NOSEP(qelt(ts, BAD(ts))))),
                         qsplit(qjoin(SEP, ts), SEP) == ts), qjoin(SEP, ts)),
        FA([s], Implies(NOSEP(s), And(qlen(qsplit(s, SEP)) == 1, qelt(qsplit(s, SEP), 0) == s)), NOSEP(s)),
    ]


def tail(ts, ts2):
    i = Int("i!")
    return And(qlen(ts2) == qlen(ts) - 1, FA([i], Implies(And(0 <= i, i < qlen(ts2)), qelt(ts2, i) == qelt(ts, i + 1)),
                                              qelt(ts2, i)))


def split_lemma(p, x, e, ts, ts2, j):
    t = TOP(p, x, j)
    return Implies(And(1 <= j, j < qlen(ts)), M(p, x, e, ts, j) == And(p[t] == e, t != NONE, NAME(t) == qelt(ts, 0),
                                                                       M(p, x, t, ts2, j - 1)))


def top_lemma(p, x, e, ts, j):
    return Implies(And(0 <= j, M(p, x, e, ts, j)), And(TOP(p, x, j + 1) == e, p[TOP(p, x, j)] == e, NAME(TOP(p, x, j)) == qelt(ts, 0),
                                                       Implies(x != NONE, TOP(p, x, j) != NONE)))


def element_lemma(p, x, e, ts, j, el):
    c = Const("c!", V)
    return Implies(FA([c], Implies(And(el[c], p[c] != NONE), el[p[c]]), p[c]), Implies(
        And(0 <= j, el[x], M(p, x, e, ts, j)), el[TOP(p, x, j)]))


@unit("lookup.lemmas", "C05", "")
def u_lemmas(make):
    """By induction on the length of the path."""
    p, x, e, ts, ts2, j = Const("p", PA), Const("x", V), Const("e", V), Const("ts", Q), Const("ts2", Q), Int("j")
    S, y = Const("S", VB), Const("y!", V)
    for nm, pre, lem in [
            ("a path is a name and a path", tail(ts, ts2), lambda y, j: split_lemma(p, y, e, ts, ts2, j)),
            ("the upper end of a path", BoolVal(True), lambda y, j: top_lemma(p, y, e, ts, j)),
            ("paths lead along elements", BoolVal(True), lambda y, j: element_lemma(p, y, e, ts, j, S))]:
        eng = make(theory_axioms=defs())
        eng.vacuity = [("lemma", eng.st.pc)]
        eng.assume(pre)
        eng.assume(lem(p[x], j - 1))
        eng.assume(And(p[p[x]] == p[p[x]], TOP(p, x, 1) == TOP(p, x, 1), TOP(p, x, j + 1) == TOP(p, x, j + 1), TOP(p, p[x], 0) == p[x],
                       TOP(p, p[x], j) == TOP(p, p[x], j)))
        for k in (ts, ts2):
            for d in (0, 1):
                eng.assume(qelt(k, j - d) == qelt(k, j - d))
        base = list(eng.st.pc)
        for k, c in (("shorter", j < 1), ("one step", j == 1), ("step", j > 1)):
            eng.st.pc = base + [c]
            eng.oblige(lem(x, IntVal(1)) if k == "one step" else lem(x, j), "%s (%s)" % (nm, k))


LOOKQ = CI + "HierarchicalElement.get_element_by_id_name"
RES = Function("looked_up", PA, V, V, Q)


def instances(eng, e, ts, ts2=None):
    P, EL = eng.named("f:_parent"), eng.named("ELS")
    x, j = Const("x!", V), Int("j!")
    eng.assume(FA([x, j], top_lemma(P, x, e, ts, j), M(P, x, e, ts, j)))
    eng.assume(FA([x, j], element_lemma(P, x, e, ts, j, EL), M(P, x, e, ts, j)))
    if ts2 is not None:
        eng.assume(Implies(tail(ts, ts2), FA([x, j], split_lemma(P, x, e, ts, ts2, j), TOP(P, x, j))))


def c_lookup(eng, self_, args, kwargs):
    s = (args[0] if args else kwargs["id_name"]).t
    e = self_.t
    P, EL = eng.named("f:_parent"), eng.named("ELS")
    q = RES(P, e, s)
    eng.oblige(And(EL[e], cls(s) == C_STR), "a path is looked up below an element", ("type",))
    return eng.lib.viter(lambda *a: E.U("iteration over looked up elements"), "get_element_by_id_name", seq=q)


def found(P, EL, x, e, ts):
    return And(EL[x], M(P, x, e, ts, qlen(ts) - 1))


@unit("lookup.get_element_by_id_name", "C05", LOOKQ)
def u_lookup(make):
    eng = setup(make, defs() + strings())
    me = el_param(eng, "self")
    name = param(eng, "id_name", kind="str")
    assume_HI(eng)
    eng.contracts[LOOKQ] = Contract("get_element_by_id_name", c_lookup)
    st0 = eng.st.copy()
    P, EL = eng.named("f:_parent"), eng.named("ELS")
    ts = qsplit(name.t, SEP)
    n = qlen(ts)
    x = Const("x!", V)
    s0 = Sn(eng)
    nd = s0.DV[s0.N[me.t]][qelt(ts, 0)]
    dom, stamp = eng.sel(eng.H("DD"), nd), eng.sel(eng.H("DS"), nd)
    eng.assume(Implies(s0.DD[s0.N[me.t]][qelt(ts, 0)], And(cls(nd) == C_DICT)))
    eng.enum_facts(dom, stamp, eng.sel(eng.H("DN"), nd))
    instances(eng, me.t, ts)
    eng.st.ghost["YS"] = K(V, BoolVal(False))

    def cands(ctx):
        if ("g", "YS") in ctx.M and ctx.src is not None:
            Y0 = ctx.st0.ghost["YS"]

            def inv(st):
                Y, i = st.ghost["YS"], st.ghost[ctx.src.idx]
                f = found(P, EL, x, me.t, ts)
                return FA([x], Y[x] == Or(Y0[x], And(f, PO(dom, stamp, UID(TOP(P, x, n - 1))) < i)), Y[x], M(P, x, me.t, ts, n - 1))
            yield ("what was yielded", inv)
    eng.candidates = cands
    T = ("C05",)

    def go():
        def one(v):
            t = eng.box(v)
            eng.oblige(Not(eng.st.ghost["YS"][t]), "each element is yielded once", T)
            eng.st.ghost["YS"] = Store(eng.st.ghost["YS"], t, BoolVal(True))

        def bulk(q):
            if not q.decl().eq(RES):
                raise E.Unsupported("yields from %s" % q)
            v, s = q.arg(1), q.arg(2)
            ts2 = qsplit(s, SEP)
            instances(eng, v, ts2)
            instances(eng, me.t, ts, ts2)
            eng.assume(And(P[v] == P[v], UID(v) == UID(v)))
            Y = eng.st.ghost["YS"]
            r = found(P, EL, x, v, ts2)
            eng.oblige(tail(ts, ts2), "the rest of the path is followed", T)
            eng.oblige(FA([x], Implies(r, Not(Y[x])), Y[x], M(P, x, v, ts2, qlen(ts2) - 1)), "each element is yielded once", T)
            Y2 = eng.fresh("ys", VB)
            eng.assume(FA([x], Y2[x] == Or(Y[x], r), Y2[x], Y[x], M(P, x, v, ts2, qlen(ts2) - 1)))
            eng.st.ghost["YS"] = Y2

        def handler(v):
            one(v)
        handler.bulk = bulk
        fi = eng.prog.lookup(elements(eng), "get_element_by_id_name")
        if fi is None:
            fi = eng.prog.lookup(eng.prog.classes["ConceptualItem"], "get_element_by_id_name")
        eng.iterate(eng.call_function(VFun(fi), [me, name], {}, inline=True), handler)
    for o in outcomes(eng, go):
        if only_raises(eng, o, (), T) == "":
            Y = eng.st.ghost["YS"]
            eng.oblige(FA([x], Y[x] == found(P, EL, x, me.t, ts), Y[x], M(P, x, me.t, ts, n - 1)),
                       "exactly the elements the path leads to", T)
            frame_all(eng, st0, "nothing changes", T, ("LC",))
            r = Const("r!", V)
            A, B_ = eng.named("LC", st0), eng.named("LC")
            if not A.eq(B_):
                eng.oblige(FA([r], Implies(birth(r) < st0.now, B_[r] == A[r]), B_[r]), "no list changes", T)

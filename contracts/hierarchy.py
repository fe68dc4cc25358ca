"""C01-C06: the containment hierarchy.  Class invariant HI of all elements, contracts of adding and removing."""
from .common import *
from .forest import *

CI = "foundations.conceptual_item:"
BE = "hypergraph.base_elements:"
FisH = Function("isElement", V, B)
LS, LN = lit("field", "_sub_elements"), lit("field", "_index_elements_by_name")
LR, LP = lit("field", "_sub_relations"), lit("field", "_ports")
HINTS = {"_uuid": "bytes", "_id_name": "str", "_qualified_name": "str"}


class Sn:
    """A state under names."""

    def __init__(self, eng, st=None):
        g = lambda k: eng.named(k, st)
        self.P, self.S, self.N = g("f:_parent"), g("f:_sub_elements"), g("f:_index_elements_by_name")
        self.CID, self.HIST, self.CNT = g("f:_cid"), g("f:_cnt_subelements_historical"), g("f:_cnt_subelements")
        self.DEPTH, self.QN = g("f:_depth"), g("f:_qualified_name")
        self.DD, self.DV, self.DS, self.DN, self.DX = g("DD"), g("DV"), g("DS"), g("DN"), g("DX")
        self.now = (st or eng.st).now
        self.E = g("ELS")       # ghost: the elements there are

    def has(self, e, k):
        return self.DD[self.S[e]][k]

    def child(self, e, k):
        return self.DV[self.S[e]][k]

    def good(self, e):
        return And(self.DEPTH[e] == DEP(self.P, e), self.QN[e] == PATH(self.P, e))


_e, _k, _k2, _n, _c = Const("e!", V), Const("k!", V), Const("k2!", V), Const("n!", V), Const("c!", V)


def HI(s, pend=NONE, at=NONE, but=NONE):
    """The class invariant, as a list of (name, formula, tags).
    pend, at: an element that is registered at `at` already while its parent is still another one.
    but: an element whose count is being changed."""
    H = lambda e: s.E[e]
    c, c2 = s.child(_e, _k), s.child(_e, _k2)
    nd = s.DV[s.N[_e]][_n]
    isp = lambda x, e: And(pend != NONE, x == pend, e == at)
    out = [
        ("K1 children know their parent", FA([_e, _k], Implies(And(H(_e), s.has(_e, _k)), And(
            H(c), UID(c) == _k, Or(s.P[c] == _e, isp(c, _e)))), s.has(_e, _k)), ("C01",)),
        ("K2 parents know their children", FA([_c], Implies(And(H(_c), s.P[_c] != NONE), And(
            H(s.P[_c]), s.has(s.P[_c], UID(_c)), s.child(s.P[_c], UID(_c)) == _c)), s.P[_c]), ("C01",)),
        ("K3 the name index lists children only", FA([_e, _n, _k], Implies(And(H(_e), s.DD[s.N[_e]][_n], s.DD[nd][_k]), And(
            s.has(_e, _k), s.DV[nd][_k] == c, NAME(c) == _n)), s.DD[nd][_k]), ("C01",)),
        ("K4 the name index lists all children", FA([_e, _k], Implies(And(H(_e), s.has(_e, _k), Not(isp(c, _e))), And(
            s.DD[s.N[_e]][NAME(c)], s.DD[s.DV[s.N[_e]][NAME(c)]][_k])), s.has(_e, _k)), ("C01",)),
        ("K5 the count is the number of children", FA([_e], Implies(And(H(_e), _e != at, _e != but),
                                                                  s.CNT[_e] == s.DN[s.S[_e]]), s.CNT[_e]), ("C01",)),
        ("K6 ordinals", FA([_e, _k], Implies(And(H(_e), s.has(_e, _k), Not(isp(c, _e))), And(
            Or(c == pend, And(0 <= s.CID[c], s.CID[c] < s.HIST[_e])))), s.has(_e, _k)), ("C04",)),
        ("K6 order", FA([_e, _k, _k2], Implies(And(H(_e), ORD(s.S[_e], _k), ORD(s.S[_e], _k2), s.has(_e, _k),
                                                                  s.has(_e, _k2), c != pend, c2 != pend),
                                               (s.DS[s.S[_e]][_k] < s.DS[s.S[_e]][_k2]) == (s.CID[c] < s.CID[c2])),
                        (ORD(s.S[_e], _k), ORD(s.S[_e], _k2))), ("C04",)),
        ("K6 history", FA([_e], Implies(H(_e), s.HIST[_e] >= 0), s.HIST[_e]), ("C04",)),
        ("K7 no cycles", ACY(s.P), ("C02", "C03")),
        ("K7 depth", FA([_e], Implies(H(_e), s.DEPTH[_e] == DEP(s.P, _e)), s.DEPTH[_e]), ("C02",)),
        ("K7 qualified name", FA([_e], Implies(H(_e), s.QN[_e] == PATH(s.P, _e)), s.QN[_e]), ("C02",)),
        ("K8 dictionaries of names", FA([_e, _n], Implies(And(H(_e), s.DD[s.N[_e]][_n]), And(
            cls(nd) == C_DICT, own(nd) == s.N[_e], okey(nd) == _n, birth(nd) < s.now)), s.DD[s.N[_e]][_n]), ("C01",)),
    ]
    if not pend.eq(NONE):
        out.append(("K9 an element that is being moved", Implies(pend != NONE, And(
            H(pend), H(at), s.has(at, UID(pend)), s.child(at, UID(pend)) == pend, s.P[pend] != at,
            Not(ANC(s.P, pend, at)))), ("C01", "C03")))
    return out


def hierdict(d):
    """Dictionaries of the hierarchy, told by the place they were made for."""
    return Or(okey(d) == LS, okey(d) == LN, okey(d) == LR, okey(own(d)) == LN)


def elements(eng):
    return eng.prog.classes["HierarchicalElement"]


def setup(make, more=()):
    eng = make(field_hints=dict(HINTS), theory_axioms=axioms() + list(more))
    h = elements(eng)
    eng.field_hints["_clock"] = eng.prog.classes["MetaClock"]
    eng.field_hints["_parent"] = ("opt", h)
    eng.owned = {"_sub_elements": h, "_index_elements_by_name": ("dict", h), "_sub_relations": None,
                 "_ports": eng.prog.classes["HypergraphPort"]}
    eng.blank_parent = True
    use_clock(eng)
    start(eng)
    for f in eng.lib.container_facts(eng, eng.st, {"f:_parent"} | {"f:" + f for f in eng.owned}):
        eng.assume(f)
    eng.assume(FA([_e], Implies(eng.H("ELS")[_e], And(FisH(_e), birth(_e) < eng.st.now)), eng.H("ELS")[_e]))
    eng.assume(FA([_e], FisH(_e) == eng.isa(_e, h), FisH(_e)))
    eng.assume(FA([_e], Implies(FisH(_e), And(cls(UID(_e)) == C_BYTES, cls(NAME(_e)) == C_STR)), UID(_e)))
    eng.assume(FA([_e], Implies(FisH(_e), And(cls(UID(_e)) == C_BYTES, cls(NAME(_e)) == C_STR)), NAME(_e)))
    eng.assume(FA([_e], Implies(FisH(_e), And(_e != NONE, cls(_e) >= 100)), FisH(_e)))
    eng.assume(FA([_e], Implies(FisH(_e), okey(_e) == NONE), okey(_e)))     # ghost names are given to containers only
    eng.hooks["f:_parent"] = hook
    eng.on_return[CI + "HierarchicalElement.__init__"] = born
    eng.contracts[CI + "HierarchicalElement.update_qualified_name"] = Contract("update_qualified_name", names_up)
    if update_function(eng) is not None:
        eng.contracts[UPDQ] = Contract("__update_element", c_update)
    eng.candidates = lambda ctx: candidates(eng, ctx)
    eng.on_get = on_get
    eng.extra_inv = lambda st: []
    return eng


def born(eng, args):
    """Ghost: once its hierarchy fields are set, an object is an element."""
    t = args[0].t
    eng.assume(FisH(t))
    eng.setH("ELS", Store(eng.H("ELS"), t, BoolVal(True)))


def names_up(eng, s, a, k):
    """Yields the names from the element up to its root."""
    q = UPS(eng.H("f:_parent"), s.t)
    from pyvc.lib import seq_iter
    return seq_iter(q, "update_qualified_name")


def on_get(eng, q, s, i, v):
    eng.assume(below(eng.H("f:_parent"), v))
    eng.assume(upward(eng.H("f:_parent"), eng.H("ELS")))
    h = elements(eng)
    eng.oblige(And(FisH(v), eng.isa(v, h)), "what is taken from the queue is an element", ("type",))
    return VObj(v, cls=h)


def assume_HI(eng, pend=NONE, at=NONE):
    for n, f, t in HI(Sn(eng), pend, at):
        eng.assume(f)


def show_HI(eng, what, pend=NONE, at=NONE, but=NONE, st=None, tags=None):
    facts = HI(Sn(eng, st), pend, at, but)
    base = list(eng.st.pc)
    if what.startswith("before"):
        tags = ("precondition",)         # what comes after rests on it, whichever property it is about
    for n, f, t in facts:
        eng.st.pc = list(base)
        eng.oblige(f, "%s: %s" % (what, n), tags or t)
    eng.st.pc = base + [f for n, f, _ in facts if "%s: %s" % (what, n) not in eng.doubtful]


# ---------------------------------------------------------------------- loop invariants
def local(st, fid, nm):
    v = st.frames[fid].get(nm)
    return v.t if isinstance(v, VObj) else None


def candidates(eng, ctx):
    out = []
    M = {m[1] for m in ctx.M if m[0] == "h"}
    locs = ctx.locals(ctx.h)
    # the search for an ancestor
    if not M:
        for (fid, nm) in ctx.modified_locals():
            v = locs.get((fid, nm))
            if not isinstance(v, VObj):
                continue
            out.append(("%s is an element or None" % nm, lambda st, fid=fid, nm=nm: (
                lambda x: None if x is None else Or(x == NONE, eng.H("ELS", st)[x]))(local(st, fid, nm))))
            for b in eng.elems:
                for a in eng.elems:
                    if not a.eq(b):
                        out.append(("ancestors from %s on" % nm, lambda st, fid=fid, nm=nm, a=a, b=b: (
                            lambda x, P: None if x is None else ANC(P, a, b) == And(x != NONE, ANC(P, a, x)))(
                                local(st, fid, nm), eng.H("f:_parent", st))))
    # breadth-first update: everything that is not up to date lies below an element of the queue
    if M & {"f:_depth", "f:_qualified_name"}:
        for (fid, nm), v in sorted(locs.items(), key=str):
            if isinstance(v, VObj) and v.kind == "queue":
                out += fringe(eng, v)
    if "f:_parent" in M and getattr(eng, "draining", None) and ctx.src is not None:
        me, name, st0 = eng.draining
        n = len(drained(eng, st0, ctx.st0, me, name, ctx.st0.ghost.get(ctx.src.idx, IntVal(0))))
        for j_ in range(n):
            out.append((drained(eng, st0, ctx.st0, me, name, IntVal(0))[j_][0], lambda st, j_=j_: drained(
                eng, st0, st, me, name, st.ghost[ctx.src.idx])[j_][1]))
        out.append(("what is yielded", lambda st: yielded(eng, st0, st, me, name, st.ghost[ctx.src.idx])))
    elif "f:_parent" in M and ctx.src is not None:
        names = [n for n, _, _ in HI(Sn(eng, ctx.st0))]
        for j_, n in enumerate(names):
            out.append((n, lambda st, j_=j_: HI(Sn(eng, st))[j_][1]))
        out.append(("elements stay elements", lambda st: FA([_e], Implies(Sn(eng, ctx.st0).E[_e], Sn(eng, st).E[_e]), Sn(
            eng, ctx.st0).E[_e], Sn(eng, st).E[_e])))
        if getattr(eng, "listing", None):
            me, q = eng.listing
            j = Int("j!")
            out.append(("those before are below it", lambda st: FA([j], Implies(And(0 <= j, j < st.ghost[ctx.src.idx]), Or(
                eng.H("f:_parent", st)[qelt(q, j)] == me, is_a(eng, qelt(q, j), "HypergraphElement"))), qelt(q, j))))
    if "QE" in M and ctx.src is not None and ctx.src.dict is not None:
        out += puts(eng, ctx)
    return out


def dqof(eng, st, q):
    return eng.sel(eng.H("f:$dq", st), q.t)


def fringe(eng, q):
    i = Int("i!")

    def parts(st):
        s = Sn(eng, st)
        d = dqof(eng, st, q)
        return s, eng.H("QE", st)[d], eng.sel(eng.H("QH", st), d), eng.sel(eng.H("QL", st), d)

    def j0(st):
        s, QE, h, l = parts(st)
        w = Exists([i], And(MK(i), h <= i, i < l, ANC(s.P, QE[i], _e)), patterns=[MK(i)])
        return And(MK(h), MK(l - 1), FA([_e], Implies(s.E[_e], Or(s.good(_e), w)), s.DEPTH[_e],
                                        s.QN[_e], DEP(s.P, _e)))

    def j1(st):
        s, QE, h, l = parts(st)
        return FA([i], Implies(And(h <= i, i < l), s.E[QE[i]]), QE[i])

    def j2(st):
        s, QE, h, l = parts(st)
        return FA([i], Implies(And(h <= i, i < l), Or(s.P[QE[i]] == NONE, s.good(s.P[QE[i]]))), QE[i])
    def j3(x):
        def f(st):
            s, QE, h, l = parts(st)
            return FA([i], Implies(And(h <= i, i < l), ANC(s.P, x, QE[i])), QE[i])
        return ("J3 the fringe is below %s" % x, f)
    return [j3(x) for x in eng.elems] + [("J0 what is out of date is below the fringe", j0), ("J1 the fringe holds elements", j1),
            ("J2 the parents of the fringe are up to date", j2)]


def puts(eng, ctx):
    """for x in dict: queue.put(x)"""
    out = []
    src = ctx.src
    j = Int("j!")
    for (fid, nm), q in sorted(ctx.locals(ctx.h).items(), key=str):
        if not (isinstance(q, VObj) and q.kind == "queue"):
            continue
        d = dqof(eng, ctx.st0, q)
        L0 = eng.sel(eng.H("QL", ctx.st0), d)
        QE0 = eng.sel(eng.H("QE", ctx.st0), d)
        dv = eng.sel(eng.H("DV", ctx.st0), src.dict)
        po = lambda k: PO(src.dom, src.stamp, k)

        def qa(st, d=d, L0=L0):
            return eng.sel(eng.H("QL", st), d) == L0 + st.ghost[src.idx]

        def qb(st, d=d, L0=L0, dv=dv):
            QE = eng.H("QE", st)[d]
            return FA([_k], Implies(And(src.dom[_k], po(_k) < st.ghost[src.idx]), And(
                MK(L0 + po(_k)), QE[L0 + po(_k)] == dv[_k])), src.dom[_k])

        def qc(st, d=d, L0=L0, QE0=QE0):
            QE = eng.H("QE", st)[d]
            return FA([j], Implies(j < L0, QE[j] == QE0[j]), QE[j], QE0[j])

        def qd(st, d=d, L0=L0, dv=dv):
            QE = eng.H("QE", st)[d]
            return FA([j], Implies(And(L0 <= j, j < L0 + st.ghost[src.idx]),
                                   QE[j] == dv[EN(src.dom, src.stamp, j - L0)]), QE[j])
        out += [("each element was put once", qa), ("the elements were put in order", qb),
                ("what was put before stays", qc), ("nothing else was put", qd)]
    return out


# ---------------------------------------------------------------------- refreshing names and depths
UPD = ["f:_depth", "f:_qualified_name", "f:_timestamp", "LC", "QL", "QH", "QE", "f:$dq"]
UPDQ = CI + "HierarchicalElement.__update_element"


def upd_pre(eng, el):
    """Everything outside the subtree of el is up to date; parents and children know each other."""
    s = Sn(eng)
    H = lambda e: s.E[e]
    c = s.child(_e, _k)
    return [
        ("no cycles", ACY(s.P)), ("it is an element", H(el)),
        ("the parent is up to date", Implies(s.P[el] != NONE, And(H(s.P[el]), s.good(s.P[el])))),
        ("what is not below is up to date", FA([_e], Implies(And(H(_e), Not(ANC(s.P, el, _e))), s.good(_e)), s.DEPTH[_e],
                                              s.QN[_e], DEP(s.P, _e))),
        ("children know their parent", FA([_e, _k], Implies(And(H(_e), ANC(s.P, el, _e), s.has(_e, _k)), And(
            H(c), UID(c) == _k, s.P[c] == _e)), s.has(_e, _k))),
        ("parents know their children", FA([_c], Implies(And(H(_c), s.P[_c] != NONE), And(
            H(s.P[_c]), s.has(s.P[_c], UID(_c)), s.child(s.P[_c], UID(_c)) == _c)), s.P[_c]))]


def upd_post(eng, st0):
    s = Sn(eng)
    H = lambda e: s.E[e]
    r = Const("r!", V)
    out = [("all depths are right", FA([_e], Implies(H(_e), s.DEPTH[_e] == DEP(s.P, _e)), s.DEPTH[_e]), ("C02",)),
           ("all qualified names are right", FA([_e], Implies(H(_e), s.QN[_e] == PATH(s.P, _e)), s.QN[_e]), ("C02",))]
    for k in ("LC", "QL", "QH", "QE", "f:$dq"):
        a, b = eng.H(k, st0), eng.H(k)
        out.append(("what existed stays (%s)" % k, FA([r], Implies(birth(r) < st0.now, b[r] == a[r]), b[r]), ()))
    return out


def havoc_keys(eng, keys):
    for k in keys:
        eng.setH(k, eng.fresh("c_" + k, eng.hsort(k)))
    n = eng.fresh("now", I)
    eng.assume(n >= eng.st.now)
    eng.st.now = n
    for k in keys:
        eng.timereg[eng.H(k).decl().name()] = n
    for f in eng.lib.container_facts(eng, eng.st, set(keys)):
        eng.assume(f)


def update_function(eng):
    f = elements(eng).methods.get("_HierarchicalElement__update_element")
    return f if f is not None and f.kind == "function" and len(f.node.args.args) == 2 and not f.is_gen else None


def c_update(eng, self_, args, kwargs):
    el = args[0].t
    oblige_all(eng, [("before names and depths are refreshed: " + n, f) for n, f in upd_pre(eng, el)], ("precondition",))
    for n, f in upd_pre(eng, el):
        eng.assume(f)
    st0 = eng.st.copy()
    havoc_keys(eng, UPD)
    for n, f, t in upd_post(eng, st0):
        eng.assume(f)
    return VNone


@unit("hierarchy.update", "C01 C02 C03 C04 C06", UPDQ + " " + CI + "HierarchicalElement.update " + CI + "ConceptualItem.update " + BE +
      "HypergraphRelation.update " + CI + "HierarchicalElement.get_subelements")
def u_update(make):
    eng = setup(make)
    me, el = el_param(eng, "self"), el_param(eng, "element")
    eng.elems = [el.t]
    for n, f in upd_pre(eng, el.t):
        eng.assume(f)
    st0 = eng.st.copy()
    fi = update_function(eng)
    if fi is None:
        eng.oblige(BoolVal(True), "names and depths are refreshed without a function of its own")
        return
    eng.contracts.pop(UPDQ, None)
    for o in outcomes(eng, lambda: eng.call_function(VFun(fi), [me, el], {})):
        if only_raises(eng, o, ()) == "":
            facts = upd_post(eng, st0)
            base = list(eng.st.pc)
            for n, f, t in facts:
                eng.st.pc = list(base)
                eng.oblige(f, n, t)
            eng.st.pc = base
            frame_all(eng, st0, "not changed", ("frame",), UPD)


# ---------------------------------------------------------------------- contracts
MOD = ["f:_parent", "f:_cid", "f:_cnt_subelements", "f:_cnt_subelements_historical", "f:_depth", "f:_qualified_name",
       "f:_timestamp", "f:_sub_relations", "f:_endpoint", "DD", "DV", "DS", "DN", "DX", "LC", "QL", "QH", "QE", "f:$dq"]


def frame_facts(eng, s0, st0, st, parts):
    """What removal and addition leave alone, as (name, formula); s0/st0 before, st after."""
    r, k = Const("r!", V), Const("k!", V)
    s = Sn(eng, st)
    old = birth(r) < st0.now
    out = []
    for x in ("DD", "DV", "DS", "DN"):
        A, B_ = eng.named(x, st0), eng.named(x, st)
        out.append(("dictionaries outside the hierarchy stay (%s)" % x,
                    FA([r], Implies(And(old, Not(hierdict(r))), B_[r] == A[r]), B_[r])))
    A, B_ = eng.H("LC", st0), eng.H("LC", st)
    out.append(("lists stay", FA([r], Implies(old, B_[r] == A[r]), B_[r])))
    A, B_ = eng.H("f:$dq", st0), eng.H("f:$dq", st)
    out.append(("queues stay", FA([r], Implies(old, B_[r] == A[r]), B_[r])))
    for x in ("QL", "QH", "QE"):
        A, B_ = eng.named(x, st0), eng.named(x, st)
        out.append(("queues stay (%s)" % x, FA([r], Implies(old, B_[r] == A[r]), B_[r])))
    for f in ("_cid", "_cnt_subelements", "_cnt_subelements_historical", "_parent", "_endpoint"):
        if f in parts:
            A, B_ = eng.named("f:" + f, st0), eng.named("f:" + f, st)
            t = parts[f]
            out.append(("%s: exactly what was asked for" % f, FA([r], Implies(old, B_[r] == t(r, A)), B_[r])))
    return out


def index_stays(s0, s, which):
    """The name index of the elements told by `which` is the same."""
    nd0, nd = s0.DV[s0.N[_e]][_n], s.DV[s.N[_e]][_n]
    return [("names: " + what, FA([_e, _n], Implies(And(s0.E[_e], which), f), s.DD[s.N[_e]][_n], nd)) for what, f in [
        ("the same names elsewhere", s.DD[s.N[_e]][_n] == s0.DD[s0.N[_e]][_n]),
        ("the same dictionaries elsewhere", nd == nd0)]] + [
        ("names: the same elements elsewhere", FA([_e, _n, _k], Implies(And(s0.E[_e], which, s0.DD[s0.N[_e]][_n]), And(
            s.DD[nd][_k] == s0.DD[nd0][_k], s.DV[nd][_k] == s0.DV[nd0][_k])), s.DD[nd][_k], s.DV[nd][_k]))]


def removed(eng, st0, st, self_, el):
    """The effect of taking el out of self_ (it was there)."""
    s0, s = Sn(eng, st0), Sn(eng, st)
    r = Const("r!", V)
    u = UID(el)
    old = s0.E[_e]
    parts = {"_parent": lambda r, A: If(r == el, NONE, A[r]), "_cid": lambda r, A: A[r],
             "_cnt_subelements": lambda r, A: If(r == self_, A[r] - 1, A[r]),
             "_cnt_subelements_historical": lambda r, A: A[r]}
    out = frame_facts(eng, s0, st0, st, parts)
    A, B_ = eng.named("f:_endpoint", st0), eng.named("f:_endpoint", st)
    out.append(("endpoints stay, except of the relation itself", FA([r], Implies(And(birth(r) < st0.now, Or(r != self_, A[r] != el)),
                                                                                 B_[r] == A[r]), B_[r])))
    out.append(("exactly the element is taken out", FA([_e], Implies(old, s.DD[s.S[_e]] == If(
        _e == self_, Store(s0.DD[s0.S[_e]], u, BoolVal(False)), s0.DD[s0.S[_e]])), s.DD[s.S[_e]])))
    out.append(("the other children stay as they are", FA([_e], Implies(old, And(
        s.DV[s.S[_e]] == s0.DV[s0.S[_e]], s.DS[s.S[_e]] == s0.DS[s0.S[_e]])), s.S[_e])))
    out.append(("the number of children", FA([_e], Implies(old, s.DN[s.S[_e]] == If(
        _e == self_, s0.DN[s0.S[_e]] - 1, s0.DN[s0.S[_e]])), s.DN[s.S[_e]])))
    return out + index_stays(s0, s, _e != self_)


def added(eng, st0, st, self_, el):
    s0, s = Sn(eng, st0), Sn(eng, st)
    r = Const("r!", V)
    u = UID(el)
    op = s0.P[el]
    old = s0.E[_e]
    parts = {"_parent": lambda r, A: If(r == el, self_, A[r]),
             "_cid": lambda r, A: If(r == el, s0.HIST[self_], A[r]),
             "_cnt_subelements": lambda r, A: If(r == self_, A[r] + 1, If(And(op != NONE, r == op), A[r] - 1, A[r])),
             "_cnt_subelements_historical": lambda r, A: If(r == self_, A[r] + 1, A[r])}
    out = frame_facts(eng, s0, st0, st, parts)
    A, B_ = eng.named("f:_endpoint", st0), eng.named("f:_endpoint", st)
    out.append(("endpoints stay, except of the relation that is left", FA([r], Implies(And(birth(r) < st0.now, Or(
        op == NONE, r != op, A[r] != el)), B_[r] == A[r]), B_[r])))
    out.append(("exactly the element is added, and taken out of its former place", FA([_e], Implies(old, s.DD[s.S[_e]] == If(
        _e == self_, Store(s0.DD[s0.S[_e]], u, BoolVal(True)), If(And(op != NONE, _e == op), Store(
            s0.DD[s0.S[_e]], u, BoolVal(False)), s0.DD[s0.S[_e]]))), s.DD[s.S[_e]])))
    out.append(("the other children stay as they are", FA([_e], Implies(And(old, _e != self_), And(
        s.DV[s.S[_e]] == s0.DV[s0.S[_e]], s.DS[s.S[_e]] == s0.DS[s0.S[_e]])), s.S[_e])))
    out.append(("the children of the target stay in order", FA([_k], Implies(_k != u, And(
        s.child(self_, _k) == s0.child(self_, _k), Implies(s0.has(self_, _k), And(
            s.DS[s.S[self_]][_k] == s0.DS[s0.S[self_]][_k], s.DS[s.S[self_]][_k] < s.DS[s.S[self_]][u])))),
        s.child(self_, _k), s.DS[s.S[self_]][_k])))
    out.append(("the element is found in the target", s.child(self_, u) == el))
    return out + index_stays(s0, s, And(_e != self_, Or(op == NONE, _e != op)))


def havoc_mod(eng):
    for k in MOD:
        eng.setH(k, eng.fresh("c_" + k, eng.hsort(k)))
    n = eng.fresh("now", I)
    eng.assume(n >= eng.st.now)
    eng.st.now = n
    for k in MOD:
        eng.timereg[eng.H(k).decl().name()] = n
    for f in eng.lib.container_facts(eng, eng.st, set(MOD)):
        eng.assume(f)


def c_remove_uuid(eng, self_, args, kwargs):
    """remove_element(uuid=u): takes out the child with this identifier and yields it."""
    name = args[0] if args else kwargs.get("id_name")
    u = args[1] if len(args) > 1 else kwargs.get("uuid")
    named = name is not None and not (is_const(name.t) and name.t.eq(lit("str", "")))
    if u is None:
        raise E.Unsupported("removal without an identifier inside another operation")
    me = self_.t

    def run(eng, handler):
        s0 = Sn(eng)
        pend, at = getattr(eng, "moving", (NONE, NONE))
        if pend is not NONE:
            there = s0.has(at, UID(pend))
            if eng.choose([there, Not(there)], full=True) == 1:
                pend = at = NONE
        st0 = eng.st.copy()
        show_HI(eng, "before a removal", pend, at)
        there = s0.has(me, u.t)
        if named:
            there = And(there, Or(slen(name.t) == 0, NAME(s0.child(me, u.t)) == name.t))
        if eng.choose([there, Not(there)], full=True) == 1:
            raise E.RaiseSig("KeyError")
        el = s0.child(me, u.t)
        havoc_mod(eng)
        eng.assume(eng.H("f:_parent") == Store(s0.P, el, NONE))
        hook(eng, s0.P, el, NONE, eng.H("f:_parent"))
        assume_HI(eng, pend, at)
        for n, f in removed(eng, st0, eng.st, me, el):
            eng.assume(f)
        eng.assume(And(FisH(el), s0.E[el], UID(el) == u.t))
        handler(VObj(el, cls=elements(eng)))
    return eng.lib.viter(run, "remove_element")


REMOVE = Contract("remove_element(uuid)", c_remove_uuid)


def frame_all(eng, st0, what, tags, but=()):
    """Nothing that existed before changed."""
    r = Const("r!", V)
    facts = []
    for k in sorted(set(eng.st.heap)):
        a, b = eng.named(k, st0), eng.named(k)
        if a.eq(b) or k in but:
            continue
        facts.append(("%s (%s)" % (what, k), FA([r], Implies(birth(r) < st0.now, b[r] == a[r]), b[r])))
    oblige_all(eng, facts, tags)


def only_modifies(eng, st0, tags):
    """What the contract does not mention is as it was."""
    frame_all(eng, st0, "not changed", tags, MOD)


def oblige_all(eng, facts, tags):
    base = list(eng.st.pc)
    for n, f in facts:
        eng.st.pc = list(base)
        eng.oblige(f, n, tags(n) if callable(tags) else tags)
    eng.st.pc = base


def effect(n):
    """The properties that rest on a part of what the contracts of addition and removal say."""
    if n.startswith(("_cid", "_cnt_subelements_historical", "the other children stay", "the children of the target stay")):
        return ("C04", "C06")
    if n.startswith(("_parent", "_cnt_subelements", "exactly the element", "the number of children", "the element is found", "names:")):
        return ("C01", "C06")
    return ("C06",)


def receivers(eng, meth):
    """Parameter values covering all implementations of a method: (class bound, condition)."""
    h = elements(eng)
    groups = {}
    for c in eng.prog.subclasses(h):
        f = eng.prog.lookup(c, meth)
        groups.setdefault(id(f), (f, []))[1].append(c)
    return list(groups.values())


def impl_param(eng, name, meth, impl):
    t = Const("arg_" + name, V)
    eng.params.add(t.decl().name())
    cs = [cs for f, cs in receivers(eng, meth) if f.qual.endswith(impl + "." + meth)][0]
    eng.assume(birth(t) < eng.st.now)
    eng.assume(Or([cls(t) == c.cid for c in cs]))
    eng.assume(And(FisH(t), eng.H("ELS")[t]))
    return eng.narrow(VObj(t, cls=elements(eng)), cs)


def el_param(eng, name, none_ok=False):
    v = param(eng, name, c="HierarchicalElement", none_ok=none_ok)
    ok = And(FisH(v.t), eng.H("ELS")[v.t])
    eng.assume(Or(v.t == NONE, ok) if none_ok else ok)
    return v


IMPL = ["HierarchicalElement", "HypergraphEdge", "HypergraphRelation"]


def u_remove1(impl):
    def body(make):
        eng = setup(make)
        me = impl_param(eng, "self", "remove_element", impl)
        pend, at = el_param(eng, "pend", none_ok=True), el_param(eng, "at", none_ok=True)
        u = param(eng, "uuid", kind="bytes")
        eng.elems = [me.t]
        s0 = Sn(eng)
        assume_HI(eng, pend.t, at.t)
        eng.assume((pend.t == NONE) == (at.t == NONE))
        eng.assume(Implies(pend.t != NONE, And(s0.P[pend.t] == me.t, u.t == UID(pend.t), at.t != me.t)))
        st0 = eng.st.copy()
        eng.st.ghost["yq"] = qnil

        def go():
            it = call_method(eng, me, "remove_element", [], {"uuid": u})

            def handler(v):
                eng.st.ghost["yq"] = qapp(eng.st.ghost["yq"], eng.box(v))
            eng.iterate(it, handler)
        for o in outcomes(eng, go):
            r = only_raises(eng, o, ("KeyError",), ("C03", "C06"))
            if r == "KeyError":
                eng.oblige(Not(s0.has(me.t, u.t)), "an identifier of a child is accepted", ("C03", "C06"))
                frame_all(eng, st0, "a rejected removal changes nothing", ("C03",))
            elif r == "":
                el = s0.child(me.t, u.t)
                eng.oblige(s0.has(me.t, u.t), "other identifiers are refused", ("C03", "C06"))
                eng.oblige(eng.st.ghost["yq"] == qapp(qnil, el), "the element is yielded once", ("C06",))
                show_HI(eng, "after a removal", pend.t, at.t)
                oblige_all(eng, removed(eng, st0, eng.st, me.t, el), effect)
                only_modifies(eng, st0, ("C06",))
    return body


def u_remove2(impl, what):
    """By name and identifier, or without any criterion."""
    def body(make):
        eng = setup(make)
        me = impl_param(eng, "self", "remove_element", impl)
        u, name = param(eng, "uuid", kind="bytes"), param(eng, "id_name", kind="str")
        eng.elems = [me.t]
        s0 = Sn(eng)
        assume_HI(eng)
        eng.assume(slen(name.t) > 0)
        st0 = eng.st.copy()
        eng.st.ghost["yq"] = qnil
        there = And(s0.has(me.t, u.t), NAME(s0.child(me.t, u.t)) == name.t)

        def go():
            it = call_method(eng, me, "remove_element", [], {"id_name": name, "uuid": u} if what == "both" else {})

            def handler(v):
                eng.st.ghost["yq"] = qapp(eng.st.ghost["yq"], eng.box(v))
            eng.iterate(it, handler)
        for o in outcomes(eng, go):
            r = only_raises(eng, o, ("KeyError",) if what == "both" else ("ErrorInvalidQuery",), ("C03", "C06"))
            if r is None:
                continue
            if r:
                eng.oblige(Not(there) if what == "both" else BoolVal(True), "only what is not there is refused", ("C03", "C06"))
                frame_all(eng, st0, "a rejected removal changes nothing", ("C03",))
            elif what == "both":
                el = s0.child(me.t, u.t)
                eng.oblige(there, "what is not there is refused", ("C03", "C06"))
                eng.oblige(eng.st.ghost["yq"] == qapp(qnil, el), "the element is yielded once", ("C06",))
                show_HI(eng, "after a removal")
                oblige_all(eng, removed(eng, st0, eng.st, me.t, el), effect)
                only_modifies(eng, st0, ("C06",))
            else:
                eng.oblige(BoolVal(False), "a removal without criteria is refused", ("C03",))
    return body


def yielded(eng, st0, st, me, name, i):
    s0 = Sn(eng, st0)
    nd0 = s0.DV[s0.N[me]][name]
    j = Int("j!")
    yq = st.ghost["yq"]
    return And(qlen(yq) == i, FA([j], Implies(And(0 <= j, j < i), qelt(yq, j) == s0.DV[nd0][EN(
        s0.DD[nd0], s0.DS[nd0], j)]), qelt(yq, j)))


def drained(eng, st0, st, me, name, i):
    """i of the children called `name` have been taken out, in the order of the name index."""
    s0, s = Sn(eng, st0), Sn(eng, st)
    nd0 = s0.DV[s0.N[me]][name]
    dom, stamp = s0.DD[nd0], s0.DS[nd0]
    gone = lambda k: And(s0.DD[nd0][k], PO(dom, stamp, k) < i)
    old = s0.E[_e]
    j = Int("j!")
    return [
        ("what is taken out", FA([_k], s.has(me, _k) == And(s0.has(me, _k), Not(gone(_k))), s.has(me, _k), s0.has(me, _k))),
        ("other children stay", FA([_e], Implies(And(old, _e != me), s.DD[s.S[_e]] == s0.DD[s0.S[_e]]), s.DD[s.S[_e]])),
        ("children stay what they are", FA([_e], Implies(old, And(s.DV[s.S[_e]] == s0.DV[s0.S[_e]],
                                                                 s.DS[s.S[_e]] == s0.DS[s0.S[_e]])), s.S[_e])),
        ("sizes", FA([_e], Implies(old, s.DN[s.S[_e]] == If(_e == me, s0.DN[s0.S[_e]] - i, s0.DN[s0.S[_e]])), s.DN[s.S[_e]])),
        ("counts", FA([_e], Implies(old, s.CNT[_e] == If(_e == me, s0.CNT[_e] - i, s0.CNT[_e])), s.CNT[_e])),
        ("parents", FA([_e], Implies(old, s.P[_e] == If(And(s0.P[_e] == me, NAME(_e) == name, gone(UID(_e))), NONE, s0.P[_e])),
                       s.P[_e])),
        ("the name is gone", FA([_k], Not(s.DD[s.DV[s.N[me]][name]][_k]), s.DD[s.DV[s.N[me]][name]][_k])),
        ("the name has an empty entry", And(s.DD[s.N[me]][name], (lambda d: And(
            cls(d) == C_DICT, own(d) == s.N[me], okey(d) == name, birth(d) < s.now))(s.DV[s.N[me]][name]))),
        ("no cycles", ACY(s.P)),
        ("depths and names are right", FA([_e], Implies(old, s.good(_e)), s.DEPTH[_e], s.QN[_e], DEP(s.P, _e))),
        ("other names stay", FA([_n], Implies(_n != name, s.DD[s.N[me]][_n] == s0.DD[s0.N[me]][_n]), s.DD[s.N[me]][_n])),
        ("other names keep their dictionaries", FA([_n], Implies(_n != name, s.DV[s.N[me]][_n] == s0.DV[s0.N[me]][_n]),
                                                   s.DV[s.N[me]][_n])),
        ("other names keep their elements", FA([_n, _k], Implies(And(_n != name, s0.DD[s0.N[me]][_n]), And(
            s.DD[s.DV[s.N[me]][_n]][_k] == s0.DD[s0.DV[s0.N[me]][_n]][_k],
            s.DV[s.DV[s.N[me]][_n]][_k] == s0.DV[s0.DV[s0.N[me]][_n]][_k])),
            s.DD[s.DV[s.N[me]][_n]][_k], s.DV[s.DV[s.N[me]][_n]][_k])),
        ] + index_stays(s0, s, _e != me)


def u_remove3(impl):
    def body(make):
        eng = setup(make)
        me = impl_param(eng, "self", "remove_element", impl)
        name = param(eng, "id_name", kind="str")
        eng.elems = [me.t]
        s0 = Sn(eng)
        assume_HI(eng)
        eng.assume(slen(name.t) > 0)
        st0 = eng.st.copy()
        eng.st.ghost["yq"] = qnil
        eng.draining = (me.t, name.t, st0)
        nd0 = s0.DV[s0.N[me.t]][name.t]
        j = Int("j!")

        def go():
            it = call_method(eng, me, "remove_element", [name])

            def handler(v):
                eng.st.ghost["yq"] = qapp(eng.st.ghost["yq"], eng.box(v))
            eng.iterate(it, handler)
        for o in outcomes(eng, go):
            r = only_raises(eng, o, ("KeyError",), ("C06",))
            if r is None:
                continue
            if r:
                eng.oblige(FA([_k], Implies(s0.has(me.t, _k), NAME(s0.child(me.t, _k)) != name.t), s0.has(me.t, _k)),
                           "what is there is removed", ("C06",))
                frame_all(eng, st0, "a rejected removal changes nothing", ("C03",))
                continue
            show_HI(eng, "after a removal")
            s = Sn(eng)
            yq = eng.st.ghost["yq"]
            oblige_all(eng, [("exactly the children of this name are taken out", FA([_k], s.has(me.t, _k) == And(
                s0.has(me.t, _k), NAME(s0.child(me.t, _k)) != name.t), s.has(me.t, _k))),
                ("they are roots", FA([_e], Implies(s0.E[_e], s.P[_e] == If(And(s0.P[_e] == me.t, NAME(_e) == name.t),
                                                                            NONE, s0.P[_e])), s.P[_e])),
                ("each is yielded once", And(qlen(yq) == s0.DN[nd0], FA([j], Implies(And(
                    0 <= j, j < qlen(yq)), qelt(yq, j) == s0.DV[nd0][EN(s0.DD[nd0], s0.DS[nd0], j)]), qelt(yq, j))))],
                ("C06",))
            parts = {f: (lambda r, A: A[r]) for f in ("_cid", "_cnt_subelements_historical")}
            facts = frame_facts(eng, s0, st0, eng.st, parts)
            A, B_ = eng.named("f:_endpoint", st0), eng.named("f:_endpoint")
            r = Const("r!", V)
            facts.append(("endpoints stay, except of the relation itself", FA([r], Implies(And(
                birth(r) < st0.now, r != me.t), B_[r] == A[r]), B_[r])))
            want = ("other children stay", "children stay what they are", "other names keep their elements")
            facts += [(n, f) for n, f in drained(eng, st0, eng.st, me.t, name.t, qlen(yq)) if n in want]
            oblige_all(eng, facts, effect)
            only_modifies(eng, st0, ("C06",))
    return body


for _i in IMPL:
    unit("hierarchy.remove_by_identifier." + _i, "C01 C02 C03 C04 C06", {
        "HierarchicalElement": CI + "HierarchicalElement.remove_element " + CI + "HierarchicalElement.update " + CI +
        "ConceptualItem.update " + BE + "HypergraphRelation.update " + CI + "HierarchicalElement.get_subelements",
        "HypergraphEdge": BE + "HypergraphEdge.remove_element",
        "HypergraphRelation": BE + "HypergraphRelation.remove_element"}[_i])(u_remove1(_i))
    _q = (BE if _i != "HierarchicalElement" else CI) + _i + ".remove_element"
    for _w in ("both", "none"):
        unit("hierarchy.remove_by_%s.%s" % (_w, _i), "C01 C02 C03 C04 C06", _q)(u_remove2(_i, _w))
    unit("hierarchy.remove_by_name." + _i, "C01 C02 C03 C04 C06", _q)(u_remove3(_i))


# ---------------------------------------------------------------------- adding
def u_add(impl, what):
    def body(make):
        eng = setup(make)
        me, el = impl_param(eng, "self", "add_element", impl), el_param(eng, "element")
        if impl == "HypergraphRelation":
            c = eng.isa(el.t, eng.prog.classes["HypergraphElement"])
            eng.assume(c if what == "element" else Not(c))
        eng.elems = [el.t, me.t]
        eng.moving = (el.t, me.t)
        eng.virtuals["HierarchicalElement"] = {"remove_element": REMOVE}
        s0 = Sn(eng)
        assume_HI(eng)
        st0 = eng.st.copy()
        bad = Or(ANC(s0.P, el.t, me.t), s0.has(me.t, UID(el.t)))
        for o in outcomes(eng, lambda: call_method(eng, me, "add_element", [el])):
            r = only_raises(eng, o, ("ErrorRecursiveHierarchy", "ErrorDuplicateElement"), ("C03",))
            if r == "":
                eng.oblige(Not(bad), "what would be a duplicate or a cycle is refused", ("C03",))
                show_HI(eng, "after an addition")
                oblige_all(eng, added(eng, st0, eng.st, me.t, el.t), effect)
                only_modifies(eng, st0, ("C06",))
            elif r:
                eng.oblige(bad, "only duplicates and cycles are refused", ("C03",))
                frame_all(eng, st0, "a rejected addition changes nothing", ("C03",))
    return body


for _i in IMPL:
    unit("hierarchy.add." + _i, "C01 C02 C03 C04 C06", {
        "HierarchicalElement": CI + "HierarchicalElement.add_element",
        "HypergraphEdge": BE + "HypergraphEdge.add_element",
        "HypergraphRelation": BE + "HypergraphRelation.add_element"}[_i])(u_add(_i, "other"))


# ---------------------------------------------------------------------- contract of add_element for all implementations
def is_a(eng, t, c):
    return eng.isa(t, eng.prog.classes[c])


def c_add(eng, self_, args, kwargs):
    """add_element(element).  In the special case of an element put into a relation a port is added as well."""
    el = (list(args) + list(kwargs.values()))[0].t
    me = self_.t
    show_HI(eng, "before an addition")
    eng.oblige(And(eng.H("ELS")[el], eng.H("ELS")[me]), "elements are added to elements", ("C01",))
    s0 = Sn(eng)
    st0 = eng.st.copy()
    bad = Or(ANC(s0.P, el, me), s0.has(me, UID(el)))
    port = And(is_a(eng, me, "HypergraphRelation"), is_a(eng, el, "HypergraphElement"))
    k = eng.choose([And(bad, Not(port)), And(Not(bad), Not(port)), port], full=True)
    if k == 2:
        return add_port(eng, s0, st0)
    if k == 0:
        k = eng.choose([ANC(s0.P, el, me), s0.has(me, UID(el))])
        raise E.RaiseSig(eng.prog.classes[["ErrorRecursiveHierarchy", "ErrorDuplicateElement"][k]])
    havoc_mod(eng)
    P = eng.H("f:_parent")
    eng.assume(P == Store(s0.P, el, me))
    hook(eng, s0.P, el, me, P)
    assume_HI(eng)
    for n, f in added(eng, st0, eng.st, me, el):
        eng.assume(f)
    return VNone


def add_port(eng, s0, st0):
    """The weak contract: the hierarchy stays consistent, whatever is added."""
    havoc_keys(eng, MOD + ["ELS"])
    assume_HI(eng)
    eng.assume(FA([_e], Implies(s0.E[_e], eng.H("ELS")[_e]), eng.H("ELS")[_e], s0.E[_e]))
    k = eng.choose([None] * 3)
    if k:
        raise E.RaiseSig(eng.prog.classes[["ErrorRecursiveHierarchy", "ErrorDuplicateElement"][k - 1]])
    return VNone


ADD = Contract("add_element", c_add)


def user_setup(make):
    """For the functions that use the hierarchy by the contracts of its operations."""
    eng = setup(make)
    eng.virtuals["HierarchicalElement"] = {"remove_element": REMOVE, "add_element": ADD}
    eng.field_hints["_id_generation"] = eng.prog.classes["Sha3UniqueIdentifierGenerator"]
    user_functions_return_text(eng)
    eng.elems = []
    assume_HI(eng)
    return eng


CLASSES = ["HypergraphNode", "HypergraphEdge", "HypergraphPort", "HypergraphRelation", "ValueNode", "SemanticValueNode"]


def u_new(cname):
    def body(make):
        eng = user_setup(make)
        uid, name, q = param(eng, "uuid", kind="bytes"), param(eng, "id_name", kind="str"), param(eng, "qualified", kind="str")
        par = el_param(eng, "parent", none_ok=True)
        clock = param(eng, "clock", c="MetaClock")
        x = param(eng, "x")
        args = {"HypergraphPort": lambda: [uid, name, q, x, par], "HypergraphRelation": lambda: [uid, name, q, x, x, par],
                "ValueNode": lambda: [uid, name, q, VNone, par],
                "SemanticValueNode": lambda: [uid, name, q, par, param(eng, "attr", kind="dict")]}.get(
                    cname, lambda: [name, uid, q, clock, par])()
        s0 = Sn(eng)
        st0 = eng.st.copy()
        for o in outcomes(eng, lambda: eng.construct(eng.prog.classes[cname], args, {})):
            r = only_raises(eng, o, ("ErrorRecursiveHierarchy", "ErrorDuplicateElement"), ("C01",))
            if r is not None:
                show_HI(eng, "after construction")
            if r == "":
                eng.oblige(And(UID(o.val.t) == uid.t, NAME(o.val.t) == name.t), "identifier and name", ("C01", "C16"))
    return body


for _c_ in CLASSES:
    unit("hierarchy.new." + _c_, "C01 C02 C04", "hypergraph." + ("value_node:" if "Value" in _c_ else "base_elements:") + _c_ +
         ".__init__ " + CI + "HierarchicalElement.__init__ foundations.abstract_items:IdentifiableItem.__init__")(u_new(_c_))


def u_uses(impl, op, recv):
    """Operations built from adding and removing keep the hierarchy consistent and say what they did."""
    def body(make):
        eng = user_setup(make)
        me = param(eng, "self", c=recv)
        eng.assume(And(FisH(me.t), eng.H("ELS")[me.t]))
        x = el_param(eng, "x")
        s0, st0 = Sn(eng), eng.st.copy()
        eng.field_hints["_endpoint"] = ("opt", elements(eng))
        key = Const("k!", V)

        def port():
            d = eng.sel(eng.H("f:_ports"), me.t)
            return eng.sel(eng.H("DV"), d)[UID(x.t)]
        eng.owned["_ports"] = eng.prog.classes["HypergraphPort"]

        def go():
            if op == "disconnect":
                # what the port dictionary holds is a port (established by connect)
                d = eng.sel(eng.H("f:_ports"), me.t)
                p = eng.sel(eng.sel(eng.H("DV"), d), UID(x.t))
                eng.assume(Implies(eng.sel(eng.sel(eng.H("DD"), d), UID(x.t)), is_a(eng, p, "HypergraphPort")))
            args = {"connect": [x], "disconnect": [x], "register": [x], "deregister": [], "add_elements": None}[op]
            return call_method(eng, me, op, args)
        for o in outcomes(eng, go):
            ok = {"connect": ("ErrorDuplicateElement", "ErrorRecursiveHierarchy"), "disconnect": ("KeyError",),
                  "register": ("ErrorDuplicateElement", "ErrorRecursiveHierarchy"), "deregister": ()}[op]
            r = only_raises(eng, o, ok, ("C01", "C06"))
            if r is None:
                continue
            show_HI(eng, "afterwards")
            s = Sn(eng)
            if r == "" and op == "deregister":
                eng.oblige(s.P[me.t] == NONE, "it is a root", ("C06",))
                base = list(eng.st.pc)
                pa = s0.P[me.t]
                eng.oblige(Implies(pa != NONE, s.DD[s.S[pa]] == Store(s0.DD[s0.S[pa]], UID(me.t), BoolVal(False))),
                           "exactly it is taken out of its parent", ("C06",))
                eng.oblige(FA([_e], Implies(And(s0.E[_e], _e != pa), s.DD[s.S[_e]] == s0.DD[s0.S[_e]]), s.DD[s.S[_e]]),
                           "the children of others stay", ("C06",))
            if r == "" and op == "register":
                eng.oblige(s.P[me.t] == x.t, "it is below its new parent", ("C01",)) if recv != "HypergraphElement" else None
            if r == "" and op == "disconnect":
                d0 = eng.sel(eng.H("f:_ports", st0), me.t)
                p0 = eng.sel(eng.sel(eng.H("DV", st0), d0), UID(x.t))
                eng.oblige(And(s.P[s0.child(me.t, UID(p0))] == NONE,
                               s.DD[s.S[me.t]] == Store(s0.DD[s0.S[me.t]], UID(p0), BoolVal(False))),
                           "exactly the port is taken out", ("C06",))
    return body


for _op in ("connect", "disconnect", "register", "deregister"):
    unit("hierarchy." + _op, "C01 C02 C03 C04 C06", BE + "HypergraphElement." + _op)(u_uses(None, _op, "HypergraphElement"))
unit("hierarchy.add.HypergraphRelation.element", "C01 C02 C04", BE + "HypergraphRelation.add_element " + BE +
     "HypergraphElement.connect")(lambda make: u_add_port(make))


def u_add_port(make):
    """An element is put into a relation: it gets a port as well."""
    eng = user_setup(make)
    me = impl_param(eng, "self", "add_element", "HypergraphRelation")
    el = el_param(eng, "element")
    eng.assume(is_a(eng, el.t, "HypergraphElement"))
    eng.elems = [el.t, me.t]
    eng.moving = (el.t, me.t)
    # the call of the method itself is not a use of its contract, the one of its super class is done by its body
    fi = eng.prog.lookup(eng.prog.classes["HypergraphRelation"], "add_element")
    s0 = Sn(eng)
    for o in outcomes(eng, lambda: eng.call_function(VFun(fi), [me, el], {}, inline=True)):
        r = only_raises(eng, o, ("ErrorRecursiveHierarchy", "ErrorDuplicateElement"), ("C01",))
        if r is not None:
            show_HI(eng, "after an addition")
        if r == "":
            eng.oblige(And(Sn(eng).P[el.t] == me.t, Not(ANC(s0.P, el.t, me.t))), "the element is in the relation", ("C01", "C03"))


@unit("hierarchy.update_qualified_name", "C02", CI + "HierarchicalElement.update_qualified_name")
def u_names(make):
    eng = setup(make)
    me = el_param(eng, "self")
    assume_HI(eng)
    st0 = eng.st.copy()
    eng.st.ghost["yq"] = qnil
    fi = eng.prog.lookup(elements(eng), "update_qualified_name")
    P = eng.H("f:_parent")

    def go():
        it = eng.call_function(VFun(fi), [me], {}, inline=True)

        def one(v):
            eng.st.ghost["yq"] = qapp(eng.st.ghost["yq"], eng.box(v))

        def handler(v):
            one(v)
        handler.bulk = lambda q: eng.st.ghost.__setitem__("yq", qcat(
            eng.st.ghost["yq"], q if is_expr(q) else eng.seq_to_q(q)))
        eng.iterate(it, handler)
    for o in outcomes(eng, go):
        if only_raises(eng, o, (), ("C02",)) == "":
            eng.oblige(eng.st.ghost["yq"] == UPS(P, me.t), "the names up to the root", ("C02",))
            frame_all(eng, st0, "nothing changes", ("C02",))


@unit("hierarchy.add_elements", "C01 C02 C03 C04", CI + "ConceptualItem.add_elements")
def u_add_many(make):
    eng = user_setup(make)
    me = param(eng, "self", c="ConceptualItem")
    eng.assume(And(FisH(me.t), eng.H("ELS")[me.t]))
    l = param(eng, "elements", kind="list")
    q = eng.content(l)
    j = Int("j!")
    eng.assume(FA([j], Implies(And(0 <= j, j < qlen(q)), And(FisH(qelt(q, j)), eng.H("ELS")[qelt(q, j)],
                                                             eng.isa(qelt(q, j), elements(eng)))), qelt(q, j)))
    eng.listing = (me.t, q)
    for o in outcomes(eng, lambda: eng.await_(call_method(eng, me, "add_elements", [l]))):
        r = only_raises(eng, o, ("ErrorDuplicateElement", "ErrorRecursiveHierarchy"), ("C01",))
        if r is not None:
            show_HI(eng, "afterwards")
        if r == "":
            P = eng.H("f:_parent")
            eng.oblige(FA([j], Implies(And(0 <= j, j < qlen(q)), Or(P[qelt(q, j)] == me.t, is_a(eng, qelt(
                q, j), "HypergraphElement"))), qelt(q, j)), "all elements are below it", ("C01",))


@unit("hierarchy.remove_elements", "C01 C02 C03 C04 C06", CI + "ConceptualItem.remove_elements")
def u_remove_many(make):
    eng = user_setup(make)
    me = param(eng, "self", c="ConceptualItem")
    eng.assume(And(FisH(me.t), eng.H("ELS")[me.t]))
    l = param(eng, "elements", kind="list")
    q = eng.content(l)
    j = Int("j!")
    t2, pr = tupf(2)
    x = qelt(q, j)
    eng.assume(FA([j], Implies(And(0 <= j, j < qlen(q)), And(x == t2(pr[0](x), pr[1](x)), cls(pr[0](x)) == C_STR,
                                                             cls(pr[1](x)) == C_BYTES)), qelt(q, j)))
    for o in outcomes(eng, lambda: eng.await_(call_method(eng, me, "remove_elements", [l]))):
        r = only_raises(eng, o, ("KeyError",), ("C01",))
        if r is not None:
            show_HI(eng, "afterwards")


# ---------------------------------------------------------------------- connecting (C10)
INC = {"BIDIRECTIONAL": (1, 1), "INWARDS": (1, 0), "OUTWARDS": (0, 1)}


def direction(d):
    return lit("enum", "EnumRelationDirection." + d)


def incidence(eng, rel, d, st=None):
    f = eng.sel(eng.H("f:_relation_incidence_value", st), rel)
    return And([Implies(d == direction(k), f == eng.lib.ndarr(tupf(2)[0](boxR(RealVal(a)), boxR(RealVal(b)))))
                for k, (a, b) in INC.items()])


def connected(eng, st0, st, me, x, w, dr, sv, rel):
    """me has been connected to x by rel; as (name, formula)."""
    s0, s = Sn(eng, st0), Sn(eng, st)
    g = lambda f, t, u=st: eng.sel(eng.H("f:" + f, u), t)
    DD, DV = s.DD, s.DV
    pd = g("_ports", x)
    p = DV[pd][UID(rel)]
    op = s0.P[sv]
    gone = lambda e, k: And(sv != NONE, op == e, op != NONE, k == UID(sv))
    out = [
        ("the relation is new", And(birth(rel) >= st0.now, is_a(eng, rel, "HypergraphRelation"), s.E[rel])),
        ("the relation is in the edge", And(s.P[rel] == me, s.has(me, UID(rel)), s.child(me, UID(rel)) == rel)),
        ("it is new in the edge", Or(Not(s0.has(me, UID(rel))), gone(me, UID(rel)))),
        ("the edge has it in addition", FA([_k], s.has(me, _k) == Or(And(s0.has(me, _k), Not(gone(me, _k))), _k == UID(rel), And(
            x == me, _k == UID(p))), s.has(me, _k), s0.has(me, _k))),
        ("its endpoint", g("_endpoint", rel) == x), ("its direction", g("_direction", rel) == dr),
        ("its weight", g("_weight", rel) == w), ("its semantic value", g("semantic_value_node", rel) == sv),
        ("its incidence", incidence(eng, rel, dr, st)),
        ("the semantic value is below it", Implies(sv != NONE, s.P[sv] == rel)),
        ("the endpoint gets a port", And(is_a(eng, p, "HypergraphPort"), birth(p) >= st0.now, s.P[p] == x, g("_endpoint", p) == rel,
                                         DD[pd][UID(rel)], g("_ports", x, st0) == pd)),
        ("the endpoint gets exactly one port", FA([_k], s.has(x, _k) == Or(And(s0.has(x, _k), Not(gone(x, _k))), _k == UID(
            p), And(x == me, _k == UID(rel))), s.has(x, _k), s0.has(x, _k))),
        ("nothing is added elsewhere", FA([_e, _k], Implies(And(s0.E[_e], _e != me, _e != x), s.has(_e, _k) == And(
            s0.has(_e, _k), Not(gone(_e, _k)))), s.has(_e, _k))),
        ("order of addition", FA([_k], Implies(And(_k != UID(rel), Or(x != me, _k != UID(p)), s.has(me, _k)), s.DS[s.S[
            me]][_k] < s.DS[s.S[me]][UID(rel)]), s.DS[s.S[me]][_k], s.has(me, _k))),
        ("the children of the edge stay what they are", FA([_k], Implies(And(_k != UID(rel), s0.has(me, _k), s.has(me, _k)), And(
            s.child(me, _k) == s0.child(me, _k), s.DS[s.S[me]][_k] == s0.DS[s0.S[me]][_k])), s.child(me, _k), s.DS[s.S[me]][_k])),
    ]
    r = Const("r!", V)
    old = birth(r) < st0.now
    for f in ("_direction", "_weight", "semantic_value_node", "_relation_incidence_value", "_ports", "_sub_elements",
              "_index_elements_by_name"):
        a, b = eng.named("f:" + f, st0), eng.named("f:" + f, st)
        out.append(("other relations stay (%s)" % f, FA([r], Implies(old, b[r] == a[r]), b[r])))
    a, b = eng.named("f:_endpoint", st0), eng.named("f:_endpoint", st)
    out.append(("other endpoints stay", FA([r], Implies(And(old, Or(sv == NONE, a[r] != sv)), b[r] == a[r]), b[r])))
    pe = eng.named("f:_ports", st0)[_e]
    D0, V0 = eng.named("DD", st0)[pe][_k], eng.named("DV", st0)[pe][_k]
    D1, V1 = eng.named("DD", st)[pe][_k], eng.named("DV", st)[pe][_k]
    out.append(("other ports stay", FA([_e, _k], Implies(And(s0.E[_e], is_a(eng, _e, "HypergraphElement"), Or(_e != x, _k != UID(
        rel))), And(D1 == D0, Implies(D0, V1 == V0))), D1, V1)))
    A, B_ = eng.H("LC", st0), eng.H("LC", st)
    out.append(("lists stay", FA([r], Implies(old, B_[r] == A[r]), B_[r])))
    out.append(("its ordinal", s.CID[rel] == s0.HIST[me] + If(x == me, 1, 0)))
    out.append(("ordinals stay", FA([_e], Implies(And(s0.E[_e], Or(sv == NONE, _e != sv)), s.CID[_e] == s0.CID[_e]), s.CID[_e])))
    out.append(("ordinals are used up", FA([_e], Implies(s0.E[_e], s.HIST[_e] == s0.HIST[_e] + If(_e == me, 1, 0) + If(
        _e == x, 1, 0)), s.HIST[_e])))
    out.append(("elements stay elements", FA([_e], Implies(s0.E[_e], s.E[_e]), s.E[_e], s0.E[_e])))
    a, b = s0.P, s.P
    out.append(("parents stay", FA([r], Implies(And(old, Or(sv == NONE, r != sv)), b[r] == a[r]), b[r])))
    return out


def connect_params(eng):
    me = param(eng, "self", c="HypergraphEdge")
    x = param(eng, "endpoint", c="HypergraphElement")
    for v in (me, x):
        eng.assume(And(FisH(v.t), eng.H("ELS")[v.t]))
    w = param(eng, "weight")
    dr = param(eng, "direction", c="EnumRelationDirection")
    eng.assume(Function("is_EnumRelationDirection", V, B)(dr.t))
    sv = param(eng, "semantic_value_node", none_ok=True)
    eng.assume(Or(sv.t == NONE, And(FisH(sv.t), eng.H("ELS")[sv.t], is_a(eng, sv.t, "SemanticValueNode"))))
    return me, x, w, dr, sv


def u_unary(what):
    def body(make):
        eng = user_setup(make)
        me, x, w, dr, sv = connect_params(eng)
        eng.assume((sv.t == NONE) if what == "plain" else (sv.t != NONE))
        st0 = eng.st.copy()
        eng.st.ghost["rel"] = NONE

        def made(eng, args):
            eng.st.ghost["rel"] = args[0].t
        eng.on_return[BE + "HypergraphRelation.__init__"] = made
        for o in outcomes(eng, lambda: call_method(eng, me, "unary_connect", [x, w, dr, sv])):
            r = only_raises(eng, o, ("ErrorDuplicateElement", "ErrorRecursiveHierarchy"), ("C01",))
            if r is not None:
                show_HI(eng, "afterwards")
            if r == "":
                oblige_all(eng, connected(eng, st0, eng.st, me.t, x.t, w.t, dr.t, sv.t, eng.st.ghost["rel"]), ("C10",))
    return body


for _w in ("plain", "semantic"):
    unit("hierarchy.unary_connect." + _w, "C01 C02 C03 C04 C10", BE + "HypergraphEdge.unary_connect " + BE +
         "HypergraphElement.connect " + BE + "HypergraphRelation.__init__ " + BE + "HypergraphPort.__init__")(u_unary(_w))


def c_connect(eng, self_, args, kwargs):
    """unary_connect(endpoint, weight, direction, semantic_value_node)"""
    names = ["endpoint", "weight", "direction", "semantic_value_node"]
    v = dict(zip(names, args))
    v.update(kwargs)
    x, w = v["endpoint"].t, eng.box(v["weight"])
    dr = eng.box(v.get("direction", VObj(direction("BIDIRECTIONAL"))))
    sv = eng.box(v.get("semantic_value_node", VNone))
    me = self_.t
    show_HI(eng, "before a connection")
    eng.oblige(And(eng.H("ELS")[me], eng.H("ELS")[x], is_a(eng, me, "HypergraphEdge"), is_a(eng, x, "HypergraphElement")),
               "edges are connected to elements", ("C01", "C10"))
    eng.oblige(Or([dr == direction(d) for d in INC]), "a direction is given", ("C10",))
    eng.oblige(Or(sv == NONE, And(eng.H("ELS")[sv], is_a(eng, sv, "SemanticValueNode"))), "a semantic value is given or none", ("C10",))
    st0 = eng.st.copy()
    s0 = Sn(eng)
    for k in MOD + ["ELS", "f:_direction", "f:_weight", "f:semantic_value_node", "f:_relation_incidence_value", "f:_ports",
                    "f:_sub_elements", "f:_index_elements_by_name"]:
        eng.H(k)
    havoc_keys(eng, MOD + ["ELS", "f:_direction", "f:_weight", "f:semantic_value_node", "f:_relation_incidence_value"])
    assume_HI(eng)
    k = eng.choose([None] * 3)
    if k:
        raise E.RaiseSig(eng.prog.classes[["ErrorRecursiveHierarchy", "ErrorDuplicateElement"][k - 1]])
    rel = eng.fresh("rel", V)
    for n, f in connected(eng, st0, eng.st, me, x, w, dr, sv, rel):
        eng.assume(f)
    eng.assume(And(FisH(rel), birth(rel) < eng.st.now))
    if "REL" in eng.st.ghost:
        eng.st.ghost["REL"] = Store(eng.st.ghost["REL"], s0.HIST[me], rel)
    return VNone


CONNECT = Contract("unary_connect", c_connect)

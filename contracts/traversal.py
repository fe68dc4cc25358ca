"""C08: traversals of the hierarchy."""
from .reads import *
from .hierarchy import _e, _k, _n, _c

T = ("C08",)
HT = "foundations.hierarchical_traversal_strategies:"
RE = Function("REACH", PA, V, V, V, B)     # REACH(p, f, s, x): x lies below s, and f accepts it and everything in between
RESV = Function("visited_result", V, I, V)
ITEMS = {}


def defs():
    p, f, s, x = Const("p!", PA), Const("f!", V), Const("s!", V), Const("x!", V)
    return [FA([p, f, s, x], RE(p, f, s, x) == And(app_b(f, x), p[x] != NONE, Or(p[x] == s, RE(p, f, s, p[x]))), (RE(p, f, s, x), p[x]))]


def deeper(p, f, s, x):
    return Implies(And(ACY(p), RE(p, f, s, x)), And(ANC(p, s, x), DEP(p, x) > DEP(p, s)))


def through(p, a, b, c):
    return Implies(And(ACY(p), ANC(p, a, b), ANC(p, b, c)), ANC(p, a, c))


def above(p, a, e):
    return Implies(And(ACY(p), ANC(p, a, e), a != e), And(DEP(p, a) < DEP(p, e), p[e] != NONE, ANC(p, a, p[e])))


def closed(p, f, s, S, m, x):
    """S has what is reached in one step from s or a member of S."""
    return Implies(And(RE(p, f, s, x), within(p, s, m, x), Or(p[x] == s, S[p[x]])), S[x])


def within(p, s, m, x):
    return DEP(p, x) - DEP(p, s) <= m


def reached(p, f, s, S, m):
    x = Const("x!", V)
    return Implies(And(ACY(p), FA([x], closed(p, f, s, S, m, x), RE(p, f, s, x))), FA([x], Implies(
        And(RE(p, f, s, x), within(p, s, m, x)), S[x]), RE(p, f, s, x)))


@unit("traverse.lemmas", "C08 C09 C18", "")
def u_tlemmas(make):
    """By induction on the depth of the lowest element."""
    p, f, s, a, b, x = Const("p", PA), Const("f", V), Const("s", V), Const("a", V), Const("b", V), Const("x", V)
    S, m, y = Const("S", VB), Int("m"), Const("y!", V)
    for nm, pre, lem in [
            ("what is reached lies below", BoolVal(True), lambda x: deeper(p, f, s, x)),
            ("below is transitive", BoolVal(True), lambda x: through(p, a, b, x)),
            ("below is strict", BoolVal(True), lambda x: above(p, a, x)),
            ("closed sets have what is reached", FA([y], closed(p, f, s, S, m, y), RE(p, f, s, y)),
             lambda x: Implies(And(RE(p, f, s, x), within(p, s, m, x)), S[x]))]:
        eng = make(theory_axioms=axioms() + defs())
        eng.vacuity = [("lemma", eng.st.pc)]
        eng.assume(ACY(p))
        eng.assume(pre)
        t = p[x]
        eng.assume(Implies(And(t != NONE, DEP(p, t) < DEP(p, x)), lem(t)))
        eng.assume(And(p[t] == p[t], DEP(p, x) >= 0, DEP(p, s) >= 0, DEP(p, a) >= 0, ANC(p, s, s), DEP(p, t) >= 0))
        eng.oblige(lem(x), nm)


def lemmas(eng, p, f, s, deep):
    x, a, b = Const("x!", V), Const("a!", V), Const("b!", V)
    eng.assume(FA([x], deeper(p, f, s, x), RE(p, f, s, x)))
    eng.assume(FA([a, x], above(p, a, x), ANC(p, a, x)))
    if deep:
        eng.assume(FA([a, b, x], through(p, a, b, x), (ANC(p, a, b), ANC(p, b, x))))


class Trav:
    """The ghost state of one traversal."""

    def __init__(self, eng, start, filt, vis, maxd, kind):
        self.eng, self.s, self.f, self.v, self.m, self.kind = eng, start, filt, vis, maxd, kind
        self.shape, self.queues, self.T = None, [], T
        g = eng.st.ghost
        g["PUT"] = g["GOT"] = g["VIS"] = K(V, BoolVal(False))
        g["PUTAT"] = g["VISAT"] = K(V, IntVal(0))
        g["VN"], g["LD"], g["LV"], g["CUR"] = IntVal(0), IntVal(0), IntVal(0), start
        eng.on_put, eng.on_get, eng.on_user_call = self.on_put, self.on_get, self.on_call

    def P(self, st=None):
        return self.eng.H("f:_parent", st)

    def D(self, x, st=None):
        return DEP(self.P(st), x) - DEP(self.P(st), self.s)

    def within(self, x):
        return BoolVal(True) if self.m is None else self.D(x) <= self.m

    def reach(self, x):
        return And(RE(self.P(), self.f, self.s, x), self.within(x))

    # what happens
    def item(self, v):
        if self.shape == "pair":
            return tupf(2)[1][0](v)
        if self.shape == "swapped":
            return tupf(2)[1][1](v)
        return v

    def whole(self, x, st=None):
        d = boxI(self.D(x, st))
        return {"pair": tupf(2)[0](x, d), "swapped": tupf(2)[0](d, x)}.get(self.shape, x)

    def on_put(self, eng, q, s, i, v):
        self.shape = "plain"
        if is_app(v) and v.decl().eq(tupf(2)[0]):
            self.shape = "pair" if not v.arg(0).decl().eq(boxI) else "swapped"
        x = simplify(v.arg({"pair": 0, "swapped": 1}[self.shape])) if self.shape != "plain" else v
        if not any(s.eq(t) for t, _ in self.queues):
            self.queues.append((s, eng.lib.flavour(eng, q)))
        g = eng.st.ghost
        g["PUT"] = Store(g["PUT"], x, BoolVal(True))
        g["PUTAT"] = Store(g["PUTAT"], x, i)

    def on_get(self, eng, q, s, i, v):
        h = elements(eng)
        x = self.item(v)
        eng.oblige(And(FisH(x), eng.H("ELS")[x], eng.isa(x, h), v == self.whole(x)), "what is taken from the fringe is an element and its "
                   "distance", ("type",))
        eng.assume(birth(x) < eng.st.now)
        g = eng.st.ghost
        g["GOT"] = Store(g["GOT"], x, BoolVal(True))
        g["CUR"], g["LD"] = x, simplify(self.D(x))
        o = VObj(x, cls=h)
        if self.shape == "plain":
            return o
        d = VInt(self.D(x))
        return VTup([o, d] if self.shape == "pair" else [d, o])

    def on_call(self, eng, f, args):
        x = eng.box(args[0])
        if f.t.eq(self.f):
            return VBool(app_b(f.t, x))
        if not f.t.eq(self.v):
            raise E.Unsupported("call of %s" % f.t)
        g, P = eng.st.ghost, self.P()
        y, z = Const("y!", V), Const("z!", V)
        VIS, AT = g["VIS"], g["VISAT"]
        eng.oblige(Not(VIS[x]), "each element is visited once", self.T)
        eng.oblige(Or(x == self.s, self.reach(x)), "only reached elements are visited", self.T)
        eng.oblige(Or(x == self.s, P[x] == self.s, VIS[P[x]]), "parents are visited first", self.T)
        eng.oblige(Implies(x == self.s, And(app_b(self.f, x), Not(self.ignore), g["VN"] == 0)), "the start is visited if accepted, at first", self.T)
        if self.kind == "bfs":
            eng.oblige(g["LV"] <= self.D(x), "in ascending distance", self.T)
        else:
            eng.assume(AT[P[x]] == AT[P[x]])
            eng.oblige(FA([y, z], Implies(And(VIS[y], VIS[z], ANC(P, y, x), AT[y] < AT[z]), ANC(P, y, z)), (AT[y], AT[z])),
                       "subtrees are finished first", self.T)
        n = g["VN"]
        g["VIS"] = Store(VIS, x, BoolVal(True))
        g["VISAT"] = Store(AT, x, n)
        g["LV"] = simplify(self.D(x))
        g["VN"] = simplify(n + 1)
        return VObj(RESV(self.v, n))

    # loop invariants
    def candidates(self, ctx):
        eng = self.eng
        ms = {m[1] for m in ctx.M if m[0] in "gh"}
        if not ms & {"PUT", "GOT", "VIS", "QE"}:
            return
        G = lambda st, n: st.ghost[n]
        x, y, z, m, n = Const("x!", V), Const("y!", V), Const("z!", V), Int("m!"), Int("n!")
        P = self.P()
        reach = lambda x: self.reach(x)
        if ctx.src is None:
            yield "what was put is reached", lambda st: FA([x], Implies(G(st, "PUT")[x], And(
                reach(x), eng.H("ELS")[x], x != self.s, Or(P[x] == self.s, G(st, "GOT")[P[x]]))), G(st, "PUT")[x])
            yield "complete so far", lambda st: FA([x], Implies(And(eng.H("ELS")[x], reach(x), Or(P[x] == self.s, G(st, "GOT")[P[x]])),
                                                              G(st, "PUT")[x]), RE(P, self.f, self.s, x), G(st, "PUT")[x])
            yield "what was taken is visited", lambda st: FA([x], Implies(x != self.s, G(st, "VIS")[x] == G(st, "GOT")[x]), G(st, "VIS")[x], G(st, "GOT")[x])
            yield "visits of the start", lambda st: G(st, "VIS")[self.s] == G(ctx.st0, "VIS")[self.s]
        elif ctx.src.dict is not None:
            o = own(ctx.src.dict)
            i = lambda st: st.ghost[ctx.src.idx]
            done = lambda st, x: PO(ctx.src.dom, ctx.src.stamp, UID(x)) < i(st)
            near = lambda x: Or(P[x] == self.s, G(ctx.st0, "GOT")[P[x]])
            yield "children so far", lambda st: FA([x], Implies(And(eng.H("ELS")[x], P[x] == o), G(st, "PUT")[x] == And(
                reach(x), done(st, x))), G(st, "PUT")[x], RE(P, self.f, self.s, x))
            yield "nothing else put", lambda st: FA([x], Implies(Or(P[x] != o, Not(eng.H("ELS")[x])), G(st, "PUT")[x] == G(ctx.st0, "PUT")[x]), G(st, "PUT")[x])
        yield "what was taken had been put", lambda st: FA([x], Implies(G(st, "GOT")[x], G(st, "PUT")[x]), G(st, "GOT")[x])
        yield "number of visits", lambda st: G(st, "VN") >= 0
        yield "order numbers of visits", lambda st: FA([x], Implies(G(st, "VIS")[x], And(0 <= G(st, "VISAT")[x], G(st, "VISAT")[x] < G(st, "VN"))), G(st, "VISAT")[x])
        yield "the last visited", lambda st: G(st, "LV") <= G(st, "LD")
        for s, fl in self.queues:
            if not eng.entails_qf(birth(s) < ctx.st0.now):
                continue
            b = lambda st, s=s: (eng.sel(eng.H("QE", st), s, True), eng.sel(eng.H("QH", st), s, True), eng.sel(eng.H("QL", st), s, True))

            def each(body, b=b):
                def f(st):
                    q, h, l = b(st)
                    return FA([m], Implies(And(h <= m, m < l), body(st, self.item(q[m]), q[m])), q[m])
                return f

            def two(body, b=b):
                def f(st):
                    q, h, l = b(st)
                    return FA([m, n], Implies(And(h <= m, m < n, n < l), body(st, self.item(q[m]), self.item(q[n]))), (q[m], q[n]))
                return f
            yield "the fringe holds what was put and not taken", each(lambda st, a, v: And(
                G(st, "PUT")[a], Not(G(st, "GOT")[a]), v == self.whole(a)))
            yield "each at its place", lambda st, b=b: FA([m], Implies(And(b(st)[1] <= m, m < b(st)[2]), G(st, "PUTAT")[self.item(b(st)[0][m])] == m), b(st)[0][m])
            yield "what was put is in the fringe", lambda st, b=b: FA([x], Implies(And(G(st, "PUT")[x], Not(G(st, "GOT")[x])), And(
                b(st)[1] <= G(st, "PUTAT")[x], G(st, "PUTAT")[x] < b(st)[2], self.item(b(st)[0][G(st, "PUTAT")[x]]) == x)), G(st, "PUTAT")[x], G(st, "PUT")[x])
            if self.kind == "bfs":
                yield "the fringe is near", each(lambda st, a, v: And(G(st, "LD") <= self.D(a), self.D(a) <= G(st, "LD") + 1))
                yield "the fringe is sorted", two(lambda st, a, c: self.D(a) <= self.D(c))
            else:
                yield "the fringe is below", two(lambda st, a, c: ANC(P, P[a], c))
                yield "the current element is below the fringe", each(lambda st, a, v: Or(P[a] == self.s, ANC(P, P[a], G(st, "CUR"))))
                yield "subtrees of the fringe", lambda st, b=b: FA([m, y], Implies(And(b(st)[1] <= m, m < b(st)[2], G(st, "VIS")[P[self.item(b(st)[0][m])]],
                    G(st, "VIS")[y], G(st, "VISAT")[y] > G(st, "VISAT")[P[self.item(b(st)[0][m])]]), ANC(P, P[self.item(b(st)[0][m])], y)),
                    (b(st)[0][m], G(st, "VISAT")[y]))
        if self.kind == "dfs":
            A = lambda st, x: G(st, "VISAT")[x]
            yield "the start comes first", lambda st: Implies(G(st, "VIS")[self.s], A(st, self.s) == 0)
            yield "one visit at a time", lambda st: FA([x, y], Implies(And(G(st, "VIS")[x], G(st, "VIS")[y], x != y), A(st, x) != A(st, y)), (
                A(st, x), A(st, y)))
            yield "subtrees are finished", lambda st: FA([x, y, z], Implies(And(G(st, "VIS")[x], G(st, "VIS")[y], G(st, "VIS")[z], ANC(P, y, x),
                A(st, y) < A(st, z), A(st, z) < A(st, x)), ANC(P, y, z)), (A(st, z), ANC(P, y, x)))
        j = Int("j!")
        for (fid, nm), l in sorted(ctx.locals(ctx.h).items(), key=str):
            if isinstance(l, VObj) and eng.is_list(l) and birth(l.t) is not None:
                yield "results in %s" % nm, lambda st, l=l: And(qlen(eng.content_in(st, l)) == G(st, "VN"), FA([j], Implies(
                    And(0 <= j, j < G(st, "VN")), qelt(eng.content_in(st, l), j) == RESV(self.v, j)), qelt(eng.content_in(st, l), j)))


def content_in(eng):
    def f(st, l):
        return eng.sel(eng.H("LC", st), l.t)
    return f


USERS = {"BreadthFirstHierarchicalTraversal": ("C08", "C18"), "DepthLimitedBreadthVisitChildren": ("C08", "C09")}


def u_traverse(cname, kind, limited):
    T = USERS.get(cname, ("C08",))

    def body(make):
        eng = setup(make, defs())
        eng.content_in = content_in(eng)
        eng.elems = []
        assume_HI(eng)
        start = el_param(eng, "start")
        filt, vis = param(eng, "filter_func"), param(eng, "visitor_func")
        eng.assume(filt.t != vis.t)
        ign = VBool(Bool("arg_ignore"))
        m = Int("arg_max_depth") if limited else None
        args = [vis, filt] + ([VInt(m)] if limited else []) + [ign]
        tr = eng.construct(eng.prog.classes[cname], args, {})
        st0 = eng.st.copy()
        t = Trav(eng, start.t, filt.t, vis.t, m, kind)
        t.ignore, t.T = ign.t, T
        P = t.P()
        lemmas(eng, P, filt.t, start.t, kind == "dfs")
        eng.candidates = t.candidates
        for o in outcomes(eng, lambda: eng.await_(call_method(eng, tr, "execute", [start]))):
            if only_raises(eng, o, (), T) == "":
                g = eng.st.ghost
                x, j = Const("x!", V), Int("j!")
                S = eng.fresh("gone", VB)
                eng.assume(FA([x], S[x] == Or(g["VIS"][x], Not(eng.H("ELS")[x])), S[x]))
                mm = m if m is not None else Int("anydepth")
                eng.assume(reached(P, filt.t, start.t, S, mm))
                eng.oblige(FA([x], closed(P, filt.t, start.t, S, mm, x), RE(P, filt.t, start.t, x)), "the visits are closed", T)
                eng.oblige(FA([x], Implies(And(eng.H("ELS")[x], RE(P, filt.t, start.t, x), within(P, start.t, mm, x)), g["VIS"][x]),
                              RE(P, filt.t, start.t, x)), "all reached elements are visited", T)
                eng.oblige(g["VIS"][start.t] == And(app_b(filt.t, start.t), Not(ign.t)), "the start is visited if accepted and asked for", T)
                q = eng.content(o.val)
                eng.oblige(And(qlen(q) == g["VN"], FA([j], Implies(And(0 <= j, j < g["VN"]), qelt(q, j) == RESV(vis.t, j)), qelt(q, j))),
                           "the results in the order of the visits", T)
                frame_all(eng, st0, "traversing changes nothing", T, ("LC", "QE", "QH", "QL", "f:$dq"))
                r = Const("r!", V)
                for k in ("LC", "QE", "QH", "QL", "f:$dq"):
                    A, B_ = eng.named(k, st0), eng.named(k)
                    if not A.eq(B_):
                        eng.oblige(FA([r], Implies(birth(r) < st0.now, B_[r] == A[r]), B_[r]), "what existed stays (%s)" % k, T)
    return body


for _c, _kd, _l in [("BreadthFirstHierarchicalTraversal", "bfs", False), ("DepthFirstHierarchicalTraversal", "dfs", False),
                    ("DepthLimitedBreadthVisitChildren", "bfs", True), ("DepthLimitedDepthVisitChildren", "dfs", True)]:
    unit("traverse." + _c, " ".join(USERS.get(_c, T)), " ".join([HT + _c + ".execute"] + [HT + "HierarchicalTraversal." + x for x in (
        "__init__", "_setup_visit_algorithm", "_fill_visit_fringe", "_traverse")]))(u_traverse(_c, _kd, _l))


# ---------------------------------------------------------------------- the contract callers are checked against
KINDS = {"BreadthFirstHierarchicalTraversal": ("bfs", False), "DepthFirstHierarchicalTraversal": ("dfs", False),
         "DepthLimitedBreadthVisitChildren": ("bfs", True), "DepthLimitedDepthVisitChildren": ("dfs", True)}


class Walk:
    """One use of a traversal: seq holds the visited elements in order."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


def bound_args(names, defaults, args, kwargs):
    d = dict(zip(names, args))
    if len(args) > len(names) or set(kwargs) - set(names) or set(kwargs) & set(d):
        raise E.Unsupported("arguments of a traversal")
    d.update(kwargs)
    for n, v in defaults.items():
        d.setdefault(n, v)
    return [d[n] for n in names]


def use_traversals(eng):
    """Traversals by their contract (shown in the units traverse.*)."""
    eng.walks = []
    for c, (kind, lim) in KINDS.items():
        if c not in eng.prog.classes:
            continue
        k = eng.prog.classes[c]

        def new(e, s, args, kwargs, k=k, lim=lim):
            names = ["visitor_func", "filter_func"] + (["max_depth"] if lim else []) + ["ignore_root"]
            vs = bound_args(names, {"ignore_root": VBool(False)}, list(args), kwargs)
            o = e.alloc("walker", k.cid, exact=k)
            for nm, v in zip(names, vs):
                e.setH("f:$" + nm, Store(e.H("f:$" + nm), o.t, e.box(v)))
            return o

        def run(e, s, args, kwargs, kind=kind, lim=lim):
            return VCoro(lambda: walk(e, s, args[0] if args else kwargs["start"], kind, lim), "execute")
        eng.contracts["new:" + c] = Contract("%s.__init__" % c, new)
        f = eng.prog.lookup(k, "execute")
        if f is not None:
            eng.contracts[f.qual] = Contract("%s.execute" % c, run)


def hierarchy_same(eng, st0, tags):
    """What traversals read is as it was."""
    r = Const("r!", V)
    for key in ("f:_parent", "f:_sub_elements", "ELS"):
        a, b = eng.H(key, st0), eng.H(key)
        if not a.eq(b):
            eng.oblige(FA([r], Implies(eng.H("ELS", st0)[r], eng.named(key)[r] == eng.named(key, st0)[r]), eng.named(key)[r]),
                       "what visitors do leaves the hierarchy alone (%s)" % key, tags)
    for key in ("DD", "DV", "DS", "DN"):
        a, b = eng.named(key, st0), eng.named(key)
        if not a.eq(b):
            d = eng.named("f:_sub_elements", st0)[r]
            eng.oblige(FA([r], Implies(eng.H("ELS", st0)[r], b[d] == a[d]), b[d], d), "what visitors do leaves the hierarchy alone (%s)" % key, tags)


def test_of(eng, f):
    """The truth of f(x) as a term, for any element x."""
    x = eng.fresh("tested", V)
    h = elements(eng)
    save = eng.st
    eng.st = eng.st.copy()
    eng.assume(And(FisH(x), eng.H("ELS")[x], eng.isa(x, h), birth(x) < eng.st.now))
    c = eng.merged(lambda: eng.call(f, [VObj(x, cls=h)]))
    eng.st = save
    if c is None:
        raise E.Unsupported("a filter with effects")
    return x, c


def walk(eng, self_, start, kind, lim, visits=None):
    tags = ()
    if self_.exact is None:
        raise E.Unsupported("a traversal of unknown class")
    g = lambda n: eng.sel(eng.H("f:$" + n), self_.t, deep=True)
    for f in eng.class_fields(self_.exact):
        if "f:" + f in eng.st.heap and not eng.sel(eng.H("f:" + f), self_.t, deep=True).eq(Const("H0_f:" + f, eng.hsort("f:" + f))[self_.t]):
            raise E.Unsupported("the fields of a traversal are written from outside")
    vis, filt = eng.wrap(g("visitor_func")), eng.wrap(g("filter_func"))
    maxd = eng.wrap(g("max_depth")) if lim else VExt("math.inf")
    ign = g("ignore_root")
    ign = ign.arg(0) if is_app(ign) and ign.decl().eq(boxB) else truthy_of(eng, ign)
    m = None if isinstance(maxd, VExt) and maxd.name == "math.inf" else eng.as_int(maxd)
    s = eng.box(start)
    eng.oblige(And(FisH(s), eng.H("ELS")[s], eng.isa(s, elements(eng))), "traversals start at an element", ("type",))
    P, EL = eng.named("f:_parent"), eng.named("ELS")
    ft = eng.box(filt)
    if not isinstance(filt, VObj):
        x0, c0 = test_of(eng, filt)
        x = Const("x!", V)
        eng.assume(FA([x], Implies(EL[x], app_b(ft, x) == substitute(c0, (x0, x))), app_b(ft, x)))
    else:
        eng.on_user_call = getattr(eng, "on_user_call", None) or (lambda e, f, a: VBool(app_b(f.t, e.box(a[0]))))
    w = eng.fresh("visited", Q)
    at = eng.freshfun("visitno", V, I)
    W = Walk(seq=w, at=at, start=s, filt=ft, vis=vis, max=m, ignore=ign, kind=kind, P=P, EL=EL, who=self_)
    for f in walked(eng, W):
        eng.assume(f)
    eng.walks.append(W)
    lemmas(eng, P, ft, s, False)
    st0 = eng.st.copy()
    out = eng.new_list([])
    hook = getattr(eng, "on_walk", None)
    if hook:
        hook(W)

    def one(v):
        eng.assume(And(EL[v.t], FisH(v.t), eng.isa(v.t, elements(eng)), birth(v.t) < eng.st.now))
        eng.list_append(out, eng.call(vis, [VObj(v.t, cls=elements(eng))]))
    eng.iterate_seq(SAtom(w), one)
    hierarchy_same(eng, st0, tags)
    return out


def truthy_of(eng, t):
    eng.oblige(cls(t) == C_BOOL, "the root option is a truth value", ("type",))
    return unB(t)


def walked(eng, W):
    """What the traversal guarantees about its visits."""
    w, at, s, f, P, EL, m = W.seq, W.at, W.start, W.filt, W.P, W.EL, W.max
    j, i, x = Int("j!"), Int("i!"), Const("x!", V)
    ok = lambda x: And(RE(P, f, s, x), within(P, s, m, x) if m is not None else BoolVal(True))
    y = qelt(w, j)
    root = And(app_b(f, s), Not(W.ignore))
    out = [qlen(w) >= 0,
           FA([j], Implies(And(0 <= j, j < qlen(w)), And(EL[y], FisH(y), eng.isa(y, elements(eng)), birth(y) < eng.st.now, at(y) == j,
                                                        Or(ok(y), And(y == s, root)), app_b(f, y))), y),
           FA([x], Implies(And(0 <= at(x), at(x) < qlen(w)), qelt(w, at(x)) == x), at(x)),
           FA([x], Implies(And(EL[x], ok(x)), And(0 <= at(x), at(x) < qlen(w))), RE(P, f, s, x), at(x)),
           Implies(root, And(0 <= at(s), at(s) < qlen(w), at(s) == 0)),
           FA([x], Implies(And(0 <= at(x), at(x) < qlen(w), x != s, P[x] != s), And(0 <= at(P[x]), at(P[x]) < at(x))), at(x))]
    if W.kind == "bfs":
        out.append(FA([i, j], Implies(And(0 <= i, i < j, j < qlen(w)), DEP(P, qelt(w, i)) <= DEP(P, qelt(w, j))), (qelt(w, i), qelt(w, j))))
    return out

"""C07: search by qualified name."""
from .indexing import *
from .hierarchy import _e, _k, _n, _c

T = ("C07",)
SE = "foundations.query.search_elements:"
ROOT = Function("ROOT", PA, V, V)          # the root above an element
BYUID = Function("BYUID", V, V)            # the element of an identifier (they are distinct)


def defs():
    p, x = Const("p!", PA), Const("x!", V)
    return [FA([p, x], ROOT(p, x) == If(p[x] == NONE, x, ROOT(p, p[x])), (ROOT(p, x), p[x]))]


def root_above(p, x):
    r = ROOT(p, x)
    return Implies(ACY(p), And(p[r] == NONE, ANC(p, r, x)))


def same_root(p, a, x):
    """What lies below an element has its root."""
    return Implies(And(ACY(p), ANC(p, a, x)), ROOT(p, a) == ROOT(p, x))


def climbs(p, S, x):
    """A set with the parents of its members has their roots."""
    c = Const("c!", V)
    return Implies(And(ACY(p), S[x], FA([c], Implies(And(S[c], p[c] != NONE), S[p[c]]), S[c])), S[ROOT(p, x)])


def descends(p, a, S, x):
    """A set with a and the children of its members has everything below a."""
    c = Const("c!", V)
    return Implies(And(ACY(p), S[a], FA([c], Implies(And(S[p[c]], p[c] != NONE), S[c]), S[c])), Implies(ANC(p, a, x), S[x]))


@unit("search.lemmas", "C07", "")
def u_lemmas(make):
    """By induction on the depth of the lowest element."""
    p, a, x, S = Const("p", PA), Const("a", V), Const("x", V), Const("S", VB)
    for nm, lem in [("the root is above", lambda x: root_above(p, x)), ("one root", lambda x: same_root(p, a, x)),
                    ("upwards to the root", lambda x: climbs(p, S, x)), ("downwards to everything", lambda x: descends(p, a, S, x)),
                    ("the parent of what is below", lambda x: Implies(And(ANC(p, a, x), a != x), And(p[x] != NONE, ANC(p, a, p[x]))))]:
        eng = make(theory_axioms=axioms() + defs())
        eng.vacuity = [("lemma", eng.st.pc)]
        eng.assume(ACY(p))
        t = p[x]
        eng.assume(Implies(And(t != NONE, DEP(p, t) < DEP(p, x)), lem(t)))
        eng.assume(And(p[t] == p[t], DEP(p, x) >= 0, DEP(p, t) >= 0, ROOT(p, x) == ROOT(p, x), ROOT(p, t) == ROOT(p, t),
                       ANC(p, a, x) == ANC(p, a, x), ANC(p, ROOT(p, x), x) == ANC(p, ROOT(p, x), x)))
        eng.oblige(lem(x), nm)


# ---------------------------------------------------------------------- the state of a search
def fields_of(eng, o):
    for f in sorted(eng.class_fields(o.exact)):
        if "f:" + f in eng.st.heap:
            yield f, eng.wrap(eng.sel(eng.H("f:" + f), o.t))


def caches(eng, o):
    return [(f, v) for f, v in fields_of(eng, o) if isinstance(v, VObj) and v.kind == "dict"]


def cached(eng, d):
    """What a search keeps for later ones: under names, elements."""
    DD, DV = eng.H("DD")[d], eng.H("DV")[d]
    return FA([_k], Implies(DD[_k], And(FisH(DV[_k]), eng.H("ELS")[DV[_k]], eng.isa(DV[_k], elements(eng)), birth(DV[_k]) < eng.st.now)), DV[_k], DD[_k])


def earlier(eng, o, name):
    """Whatever earlier searches left behind."""
    for f, v in fields_of(eng, o):
        key = "f:" + f
        if isinstance(v, VObj) and v.kind == "dict":
            d = eng.alloc("left", C_DICT, kind="dict")
            eng.assume(And(own(d.t) == o.t, okey(d.t) == lit("field", f)))
            eng.setH(key, Store(eng.H(key), o.t, d.t))
            for k, s in (("DD", VB), ("DV", VV), ("DS", VI), ("DN", I), ("DX", I)):
                eng.setH(k, Store(eng.H(k), d.t, eng.fresh("left", s)))
            eng.assume(cached(eng, d.t))
            eng.owned[f] = elements(eng)
        elif isinstance(v, VObj) and v.kind == "list":
            c = eng.fresh("left", Q)
            eng.assume(qlen(c) >= 0)
            eng.setH(key, Store(eng.H(key), o.t, eng.new_list_q(c).t))
        elif isinstance(v, VObj) and v.kind == "set":
            s = eng.lib.new_set(eng)
            eng.setH(key, Store(eng.H(key), o.t, s.t))
            for k, srt in (("DD", VB), ("DV", VV), ("DS", VI), ("DN", I), ("DX", I)):
                eng.setH(k, Store(eng.H(k), s.t, eng.fresh("left", srt)))
        elif isinstance(v, VObj) and v.kind == "str":
            eng.setH(key, Store(eng.H(key), o.t, name))
        elif f in writable(eng, o.exact):
            raise E.Unsupported("a field of unknown kind changes: %s" % f)
    for f in eng.lib.container_facts(eng, eng.st, {"DD", "DS", "DN", "DX"}):
        eng.assume(f)


class Search:
    """The ghost state of one search."""

    def __init__(self, eng, start, name, scope, q):
        self.eng, self.s, self.name, self.scope, self.q = eng, start, name, scope, q
        self.queues = []
        g = eng.st.ghost
        g["PUT"] = g["GOT"] = K(V, BoolVal(False))
        g["PUTAT"] = K(V, IntVal(0))
        eng.on_put, eng.on_get = self.on_put, self.on_get

    def P(self, st=None):
        return self.eng.H("f:_parent", st)

    def on_put(self, eng, q, s, i, v):
        if not any(s.eq(t) for t, _ in self.queues):
            self.queues.append((s, eng.lib.flavour(eng, q)))
        g = eng.st.ghost
        g["PUT"] = Store(g["PUT"], v, BoolVal(True))
        g["PUTAT"] = Store(g["PUTAT"], v, i)

    def on_get(self, eng, q, s, i, v):
        h = elements(eng)
        eng.oblige(And(FisH(v), eng.H("ELS")[v], eng.isa(v, h)), "what is taken from the fringe is an element", ("type",))
        eng.assume(birth(v) < eng.st.now)
        g = eng.st.ghost
        g["GOT"] = Store(g["GOT"], v, BoolVal(True))
        return VObj(v, cls=h)

    def sets(self, ctx):
        eng = self.eng
        out = []
        save, eng.st = eng.st, ctx.st0
        try:
            for f, v in fields_of(eng, self.q):
                if isinstance(v, VObj) and v.kind == "set":
                    out.append((f, v.t))
            for (fid, nm), l in sorted(ctx.locals(ctx.st0).items(), key=str):
                if isinstance(l, VObj) and l.kind == "set":
                    out.append((nm, l.t))
        finally:
            eng.st = save
        return out

    def candidates(self, ctx):
        eng = self.eng
        G = lambda st, n: st.ghost[n]
        ms = {m[1] for m in ctx.M if m[0] in "gh"}
        x, m = Const("x!", V), Int("m!")
        P, EL = self.P(), eng.H("ELS")
        NM = lambda x: eng.H("f:_qualified_name")[x]
        for (fid, nm), l in sorted(ctx.locals(ctx.h).items(), key=str):
            if ("l", fid, nm) in ctx.M and ctx.src is None:
                l0 = ctx.locals(ctx.st0).get((fid, nm))
                t = lambda st, fid=fid, nm=nm: eng.box(st.frames[fid][nm])
                if isinstance(l0, VObj):
                    yield "%s is an element or None" % nm, lambda st, t=t: Or(t(st) == NONE, And(FisH(t(st)), EL[t(st)], eng.isa(t(st), elements(eng))))
                    yield "%s is above what it was" % nm, lambda st, t=t: And(t(st) != NONE, ANC(P, self.s, t(st))) == And(
                        t(ctx.st0) != NONE, ANC(P, self.s, t(ctx.st0)))
        if not ms & {"PUT", "GOT", "QE"}:
            return
        yield "what was put is looked for", lambda st: FA([x], Implies(G(st, "PUT")[x], And(self.scope(x), EL[x])), G(st, "PUT")[x])
        yield "what was taken had been put", lambda st: FA([x], Implies(G(st, "GOT")[x], G(st, "PUT")[x]), G(st, "GOT")[x])
        if ctx.src is None:
            yield "the start was put", lambda st: G(st, "PUT")[self.s]
            yield "children of what was taken", lambda st: FA([x], Implies(And(EL[x], P[x] != NONE, G(st, "GOT")[P[x]]), G(st, "PUT")[x]), G(st, "PUT")[x], G(st, "GOT")[P[x]])
            yield "parents of what was taken", lambda st: FA([x], Implies(And(G(st, "GOT")[x], P[x] != NONE), G(st, "PUT")[P[x]]), G(st, "GOT")[x])
            yield "nothing taken bears the name", lambda st: FA([x], Implies(G(st, "GOT")[x], NM(x) != self.name), G(st, "GOT")[x])
        else:
            yield "what was put stays", lambda st: FA([x], Implies(G(ctx.st0, "PUT")[x], G(st, "PUT")[x]), G(st, "PUT")[x])
            yield "what was taken stays", lambda st: FA([x], G(ctx.st0, "GOT")[x] == G(st, "GOT")[x], G(st, "GOT")[x])
            if ctx.src.dict is not None:
                o = own(ctx.src.dict)
                i = lambda st: st.ghost[ctx.src.idx]
                done = lambda st, x: PO(ctx.src.dom, ctx.src.stamp, UID(x)) < i(st)
                yield "children so far", lambda st: FA([x], Implies(And(EL[x], P[x] == o, done(st, x)), G(st, "PUT")[x]), G(st, "PUT")[x])
        for f, s in self.sets(ctx):
            D = lambda st, s=s: eng.sel(eng.H("DD", st), s)
            yield "%s has what was taken" % f, lambda st, D=D: FA([x], Implies(EL[x], D(st)[UID(x)] == G(st, "GOT")[x]), G(st, "GOT")[x], D(st)[UID(x)])
            yield "%s has what was put" % f, lambda st, D=D: FA([x], Implies(EL[x], D(st)[UID(x)] == G(st, "PUT")[x]), G(st, "PUT")[x], D(st)[UID(x)])
        for s, fl in self.queues:
            if not eng.entails_qf(birth(s) < ctx.st0.now):
                continue
            b = lambda st, s=s: (eng.sel(eng.H("QE", st), s, True), eng.sel(eng.H("QH", st), s, True), eng.sel(eng.H("QL", st), s, True))

            def each(st, b=b):
                q, h, l = b(st)
                return FA([m], Implies(And(h <= m, m < l), G(st, "PUT")[q[m]]), q[m])

            def there(st, b=b):
                q, h, l = b(st)
                a = G(st, "PUTAT")[x]
                return FA([x], Implies(And(G(st, "PUT")[x], Not(G(st, "GOT")[x])), And(h <= a, a < l, q[a] == x)), a, G(st, "PUT")[x])
            yield "the fringe holds what was put", each
            yield "what was put is in the fringe", there


def u_search(cname, whole):
    def body(make):
        eng = setup(make, defs())
        eng.content_in = lambda st, l: eng.sel(eng.H("LC", st), l.t)
        eng.elems = []
        eng.on_get = eng.on_put = None
        start = el_param(eng, "start")
        name = param(eng, "name", kind="str")
        q = eng.construct(eng.prog.classes[cname], [], {})
        for f, d in caches(eng, q):
            eng.oblige(cached(eng, d.t), "%s: under names, elements (at first)" % f, T)
        earlier(eng, q, eng.fresh("earlier_name", V))
        assume_HI(eng)
        keep = [f for f, _ in caches(eng, q)]

        def default_queue(e, t):
            s = Const("deque!" + t.decl().name(), V)
            e.params.add(s.decl().name())
            e.assume(And(birth(s) < 0, birth(s) < e.st.now, cls(s) == C_DEQUE))
            e.setH("f:$dq", Store(e.H("f:$dq"), t, s))
            e.setH("QL", Store(e.H("QL"), s, IntVal(0)))
            e.setH("QH", Store(e.H("QH"), s, IntVal(0)))
            e.note("the shared default queue is empty when a search starts (what an earlier search leaves there: finding C07-shared-fringe)")
        eng.on_default_queue = default_queue
        P, EL = eng.named("f:_parent"), eng.named("ELS")
        QNM = eng.named("f:_qualified_name")
        s = start.t
        x, y = Const("x!", V), Const("y!", V)
        eng.assume(FA([x], root_above(P, x), ROOT(P, x)))
        eng.assume(FA([x, y], same_root(P, y, x), ANC(P, y, x)))
        eng.assume(upward(P, EL))
        eng.assume(ROOT(P, s) == ROOT(P, s))
        if whole:
            eng.assume(FA([x], Implies(EL[x], BYUID(UID(x)) == x), UID(x)))
            eng.note("identifiers of elements are distinct")
        scope = (lambda x: ROOT(P, x) == ROOT(P, s)) if whole else (lambda x: ANC(P, s, x))
        eng.assume(scope(s))
        st0 = eng.st.copy()
        S = Search(eng, s, name.t, scope, q)
        eng.candidates = S.candidates

        def go():
            eng.setattr(q, "query_def", name)
            eng.await_(call_method(eng, q, "execute", [start]))
            return eng.getattr(q, "query_result")
        for o in outcomes(eng, go):
            if only_raises(eng, o, (), T) == "":
                r = eng.content(o.val)
                g = eng.st.ghost
                P2, Q2 = eng.H("f:_parent"), eng.H("f:_qualified_name")
                v = qelt(r, IntVal(0))
                eng.oblige(qlen(r) <= 1, "at most one result", T)
                eng.oblige(Implies(qlen(r) == 1, And(EL[v], Q2[v] == name.t, PATH(P2, v) == name.t)), "the result bears the name", T)
                eng.oblige(Implies(qlen(r) == 1, scope(v)), "the result lies in the hierarchy that is searched", T)
                GOT = eng.fresh("seen", VB)
                eng.assume(FA([x], GOT[x] == Or(g["GOT"][x], Not(EL[x])), GOT[x]))
                a = ROOT(P, s) if whole else s
                if eng.entails(qlen(r) == 1):
                    pass
                else:
                    nores = qlen(r) == 0
                    eng.assume(FA([x], Implies(And(nores, ANC(P, a, x), EL[x]), descends(P, a, GOT, x)), ANC(P, a, x)))
                    if whole:
                        UP = eng.fresh("seen", VB)
                        eng.assume(FA([x], UP[x] == g["GOT"][x], UP[x]))
                        eng.assume(climbs(P, UP, s))
                        eng.oblige(Implies(nores, UP[s]), "the start is looked at", T)
                        eng.oblige(Implies(nores, FA([x], Implies(And(UP[x], P[x] != NONE), UP[P[x]]), UP[x])), "parents are looked at", T)
                        eng.oblige(Implies(nores, UP[a]), "the root is looked at", T)
                    eng.oblige(Implies(nores, GOT[a]), "the search begins", T)
                    eng.oblige(Implies(nores, FA([x], Implies(And(GOT[P[x]], P[x] != NONE), GOT[x]), GOT[x])), "sub-elements are looked at", T)
                    eng.oblige(FA([x], Implies(And(nores, EL[x], ANC(P, a, x)), QNM[x] != name.t), ANC(P, a, x), QNM[x]), "what bears the name is found", T)
                for f in keep:
                    d = eng.wrap(eng.sel(eng.H("f:" + f), q.t))
                    eng.oblige(cached(eng, d.t), "%s: under names, elements" % f, T)
                hierarchy_same(eng, st0, T)
                for k in ("f:_qualified_name", "f:_id_name", "f:_uuid"):
                    if not eng.named(k).eq(eng.named(k, st0)):
                        eng.oblige(FA([x], Implies(EL[x], eng.named(k)[x] == eng.named(k, st0)[x]), eng.named(k)[x]), "searching changes nothing (%s)" % k, T)
    return body


for _cl, _w in (("QuerySearchSubElement", False), ("QuerySearchElement", True)):
    unit("search." + _cl, "C07", " ".join([SE + _cl + "._traverse", SE + _cl + ".__init__"] + ([SE + _cl + ".execute"] if _w else []) + [SE + "GraphQuery." + m for m in (
        "__init__", "_setup_query", "query_def", "query_result", "__is_cached_below", "execute")]))(u_search(_cl, _w))

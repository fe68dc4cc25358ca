"""C09: the numbering of nodes, edges and values."""
import ast

from .traversal import *
from .hierarchy import _e, _k, _n, _c

T = ("C09",)
HF = "hypergraph.homomorphism_functions:IndexHomomorphismGraphTensor."
CN = "IndexHomomorphismGraphTensor"
KINDS3 = [("nodes", "HypergraphNode", "node", "dim", "cnt_node"), ("edges", "HypergraphEdge", "edge", "depth", "cnt_edges"),
          ("values", "ValueNode", "val", "ival", None)]


def writable(eng, c):
    """Fields that some method other than the constructor assigns."""
    out = set()
    for k in c.mro:
        if isinstance(k, str):
            continue
        for what in ("methods", "setters", "getters"):
            for nm, f in getattr(k, what).items():
                if nm == "__init__":
                    continue
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        a = n.attr
                        out.add("_%s%s" % (k.name.lstrip("_"), a) if a.startswith("__") and not a.endswith("__") else a)
    return out


def any_history(eng, o):
    """Whatever earlier operations left behind: every field that can change holds any value of its kind, every container any content."""
    w = writable(eng, o.exact)
    fields = []
    for f in sorted(eng.class_fields(o.exact)):
        key = "f:" + f
        if key not in eng.st.heap:
            continue
        v = eng.sel(eng.H(key), o.t)
        if v.sort() == I:
            if f in w:
                eng.setH(key, Store(eng.H(key), o.t, eng.fresh("left", I)))
            continue
        val = eng.wrap(v)
        if isinstance(val, VObj) and val.kind == "dict":
            if f in w:
                d = eng.alloc("left", C_DICT, kind="dict")
                eng.assume(And(own(d.t) == o.t, okey(d.t) == lit("field", f)))
                eng.setH(key, Store(eng.H(key), o.t, d.t))
            else:
                for k, srt in (("DD", VB), ("DV", VV), ("DS", VI), ("DN", I), ("DX", I)):
                    eng.setH(k, Store(eng.H(k), v, eng.fresh("left", srt)))
            fields.append(f)
        elif isinstance(val, VInt):
            if f in w:
                eng.setH(key, Store(eng.H(key), o.t, boxI(eng.fresh("left", I))))
        elif f in w:
            raise E.Unsupported("a field of unknown kind changes: %s" % f)
    return fields


def keeps(eng, o, fields):
    return And([BoolVal(True)] + [And(own(eng.H("f:" + f)[o.t]) == o.t, okey(eng.H("f:" + f)[o.t]) == lit("field", f), cls(
        eng.H("f:" + f)[o.t]) == C_DICT) for f in fields])


def numbering(eng, h, to, fro, cnt, at, key, val, inv, n, what):
    """to and fro are the mappings key(j) <-> val(j), j < n, where at and inv give the positions of keys and values."""
    k, i = param(eng, "k", kind="bytes"), intparam(eng, "i")
    base = eng.st.copy()
    for o in eng.explore(lambda: call_method(eng, h, to, [k])):
        eng.st = o.st
        if only_raises(eng, o, ("KeyError",), T) == "":
            eng.oblige(And(0 <= at(k.t), at(k.t) < n, eng.box(o.val) == val(at(k.t))), "the index of an identifier: " + what, T)
        elif o.sig.name == "KeyError":
            eng.oblige(Not(And(0 <= at(k.t), at(k.t) < n)), "every identifier has an index: " + what, T)
    eng.st = base.copy()
    b = boxI(i.t)
    for o in eng.explore(lambda: call_method(eng, h, fro, [i])):
        eng.st = o.st
        if only_raises(eng, o, ("KeyError",), T) == "":
            eng.oblige(And(0 <= inv(b), inv(b) < n, eng.box(o.val) == key(inv(b))), "the identifier of an index: " + what, T)
        elif o.sig.name == "KeyError":
            eng.oblige(Not(And(0 <= inv(b), inv(b) < n)), "every index below the count has an identifier: " + what, T)
    eng.st = base.copy()
    if cnt:
        for o in eng.explore(lambda: eng.getattr(h, cnt)):
            eng.st = o.st
            if only_raises(eng, o, (), T) == "":
                eng.oblige(eng.as_int(o.val) == n, "the count: " + what, T)
    eng.st = base


def index_candidates(eng, specs):
    """specs: sequence term -> (key, val, at, inv)."""
    k = Const("k!", V)

    def cands(ctx):
        if ctx.src is None or ctx.src.seq is None or ctx.src.seq.get_id() not in specs:
            return
        key, val, at, inv = specs[ctx.src.seq.get_id()]
        i = lambda st: st.ghost[ctx.src.idx]
        dd = lambda st, t: eng.sel(eng.H("DD", st), t)
        dv = lambda st, t: eng.sel(eng.H("DV", st), t)
        for t in ctx.frames.get("DD", []):
            for nm, a, v in (("forth", at, val), ("back", inv, key)):
                yield "%s: %s" % (t, nm), lambda st, t=t, a=a, v=v: FA([k], dd(st, t)[k] == And(0 <= a(k), a(k) < i(st)), dd(st, t)[k])
                yield "%s: %s values" % (t, nm), lambda st, t=t, a=a, v=v: FA([k], Implies(dd(st, t)[k], dv(st, t)[k] == v(a(k))), dv(st, t)[k], dd(st, t)[k])
        for t in ctx.frames.get("DN", []):
            yield "%s: size" % t, lambda st, t=t: eng.sel(eng.H("DN", st), t) == eng.sel(eng.H("DN", ctx.st0), t) + i(st)
        for key_, ts in sorted(ctx.frames.items()):
            if key_.startswith("f:"):
                for t in ts:
                    def count(st, key_=key_, t=t):
                        x = lambda s: eng.sel(eng.H(key_, s), t)
                        return x(st) == x(ctx.st0) + i(st) if x(st).sort() == I else unI(x(st)) == unI(x(ctx.st0)) + i(st)
                    yield "%s counts" % key_, count
                    if eng.hsort(key_) == VV:
                        yield "%s is a number" % key_, lambda st, key_=key_, t=t: eng.sel(eng.H(key_, st), t) == boxI(unI(eng.sel(eng.H(key_, st), t)))
    return cands


def instance(make, limited):
    eng = setup(make, defs())
    eng.elems = []
    eng.content_in = content_in(eng)
    assume_HI(eng)
    use_traversals(eng)
    for f in ("_cnt_node", "_cnt_edges", "_cnt_values"):
        eng.field_hints[f] = "int"
    d = intparam(eng, "max_depth") if limited else VExt("math.inf")
    ign = VBool(Bool("arg_ignore"))
    h = eng.construct(eng.prog.classes[CN], [ign, d], {})
    fields = any_history(eng, h)
    return eng, h, d, ign, fields


def u_execute(limited):
    def body(make):
        eng, h, d, ign, fields = instance(make, limited)
        start = el_param(eng, "start")
        specs = {}
        names = {}
        k, j = Const("k!", V), Int("j!")

        def on_walk(W):
            kind = eng.freshfun("numbered", V, I)
            w = W.seq
            eng.note("the identifiers of the elements that are indexed are distinct")
            eng.assume(FA([j], Implies(And(0 <= j, j < qlen(w)), kind(UID(qelt(w, j))) == j), qelt(w, j)))
            eng.assume(FA([k], Implies(And(0 <= kind(k), kind(k) < qlen(w)), UID(qelt(w, kind(k))) == k), kind(k)))
            inv = lambda v: If(v == boxI(unI(v)), unI(v), -1)
            specs[w.get_id()] = (lambda j, w=w: UID(qelt(w, j)), boxI, kind, inv)
        eng.on_walk = on_walk
        eng.candidates = index_candidates(eng, specs)
        st0 = eng.st.copy()
        for o in outcomes(eng, lambda: eng.await_(call_method(eng, h, "execute", [start]))):
            if only_raises(eng, o, (), T) == "":
                x = Const("x!", V)
                base = eng.st
                for what, c, to, fro, cnt in KINDS3:
                    Ws = [W for W in eng.walks if W.seq.get_id() in specs and eng.entails(
                        FA([x], Implies(W.EL[x], app_b(W.filt, x) == eng.isa(x, eng.prog.classes[c])), app_b(W.filt, x)))]
                    if not Ws:
                        eng.oblige(BoolVal(False), "the %s are traversed" % what, T)
                        continue
                    W = Ws[-1]
                    key, val, at, inv = specs[W.seq.get_id()]
                    eng.oblige(And(W.start == start.t, BoolVal(W.kind == "bfs"), W.ignore == ign.t, BoolVal(
                        (W.max is None) != limited), W.max == d.t if limited and W.max is not None else BoolVal(True)), "the %s of the graph are traversed in breadth" % what, T)
                    eng.st = base.copy()
                    numbering(eng, h, to, fro, cnt, at, key, val, inv, qlen(W.seq), what)
                eng.st = base
                eng.oblige(keeps(eng, h, fields), "the mappings are its own", T)
                hierarchy_same(eng, st0, T)
    return body


for _l in (False, True):
    unit("index.execute." + ("limited" if _l else "all"), "C09", " ".join(HF + x for x in (
        "__init__", "reset_homology", "execute", "add_node_homology", "add_edge_homology", "add_value_homology", "node", "dim", "edge",
        "depth", "val", "ival", "cnt_node", "cnt_edges")))(u_execute(_l))


@unit("index.restore", "C09 C13", HF + "reset_from_bijection " + HF + "reset_homology")
def u_restore(make):
    eng, h, d, ign, fields = instance(make, True)
    specs, ls = {}, []
    k, j = Const("k!", V), Int("j!")
    for what, *_ in KINDS3:
        l = param(eng, what, kind="list")
        q = eng.content(l)
        at, inv = eng.freshfun("at_" + what, V, I), eng.freshfun("inv_" + what, V, I)
        p0, p1 = tupf(2)[1]
        it = qelt(q, j)
        eng.assume(qlen(q) >= 0)
        eng.assume(FA([j], Implies(And(0 <= j, j < qlen(q)), And(it == tupf(2)[0](p0(it), p1(it)), cls(p0(it)) == C_BYTES, p1(it) == boxI(unI(
            p1(it))), 0 <= unI(p1(it)), unI(p1(it)) < qlen(q), at(p0(it)) == j, inv(p1(it)) == j)), it))
        eng.assume(FA([k], Implies(And(0 <= at(k), at(k) < qlen(q)), p0(qelt(q, at(k))) == k), at(k)))
        eng.assume(FA([k], Implies(And(0 <= inv(k), inv(k) < qlen(q)), p1(qelt(q, inv(k))) == k), inv(k)))
        key, val = (lambda j, q=q: p0(qelt(q, j))), (lambda j, q=q: p1(qelt(q, j)))
        specs[q.get_id()] = (key, val, at, inv)
        ls.append((l, q, key, val, at, inv))
    eng.note("a stored numbering has distinct identifiers and the indices 0..n-1, each once")
    eng.candidates = index_candidates(eng, specs)
    st0 = eng.st.copy()
    for o in outcomes(eng, lambda: call_method(eng, h, "reset_from_bijection", [x[0] for x in ls])):
        if only_raises(eng, o, (), T) == "":
            base = eng.st
            for (what, c, to, fro, cnt), (l, q, key, val, at, inv) in zip(KINDS3, ls):
                eng.st = base.copy()
                numbering(eng, h, to, fro, cnt, at, key, val, inv, qlen(q), what)
            eng.st = base
            eng.oblige(keeps(eng, h, fields), "the mappings are its own", T)
            r = Const("r!", V)
            A, B_ = eng.named("LC", st0), eng.named("LC")
            if not A.eq(B_):
                eng.oblige(FA([r], Implies(birth(r) < st0.now, B_[r] == A[r]), B_[r]), "the given lists are unchanged", T)


@unit("index.new", "C09", HF + "__init__")
def u_new(make):
    """The fields any_history starts from."""
    eng = setup(make, defs())
    use_traversals(eng)
    for f in ("_cnt_node", "_cnt_edges", "_cnt_values"):
        eng.field_hints[f] = "int"
    for o in outcomes(eng, lambda: eng.construct(eng.prog.classes[CN], [VBool(Bool("arg_ignore")), intparam(eng, "max_depth")], {})):
        if only_raises(eng, o, (), T) == "":
            h = o.val
            for f in sorted(eng.class_fields(h.exact)):
                v = eng.sel(eng.H("f:" + f), h.t)
                if v.sort() == V and isinstance(eng.wrap(v), VObj) and eng.wrap(v).kind == "dict":
                    eng.oblige(keeps(eng, h, [f]), "the mappings are its own", T)
            for what, c, to, fro, cnt in KINDS3:
                no = lambda v: IntVal(-1)
                numbering(eng, h, to, fro, cnt, no, no, no, no, IntVal(0), what)

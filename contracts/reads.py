"""Read accessors of the hierarchy: what they return, and that they change nothing (C01, C02, C04, C05, C10)."""
from .hierarchy import *

DIR = "EnumRelationDirection"


def children(eng, me, guard=None, val=None, st=None):
    """The children of `me` in dictionary order (= ascending ordinal, K6) as a sequence expression."""
    st = st or eng.st
    d = eng.sel(eng.H("f:_sub_elements", st), me.t)
    dom, stamp, n = (eng.sel(eng.H(k, st), d) for k in ("DD", "DS", "DN"))
    i = Const("ix!%d" % next(E._ixs), I)
    c = eng.sel(eng.H("DV", st), d)
    c = Select(c, EN(dom, stamp, i))
    body = SOne(c if val is None else val(c))
    if guard is not None:
        body = SIf(guard(c), body)
    return SLoop(n, i, body)


def reading(make, recv, what, want, tags, args=()):
    """Reading `what` of a `recv` gives `want` (a function of engine and receiver) and changes nothing."""
    eng = setup(make)
    me = param(eng, "self", c=recv)
    eng.assume(And(FisH(me.t), eng.H("ELS")[me.t]))
    eng.elems = [me.t]
    assume_HI(eng)
    a = [f(eng) for f in args]
    st0 = eng.st.copy()

    def go():
        x = eng.getattr(me, what)
        if args:
            x = eng.call(x, a, {})
        w = want(eng, me, *a)
        return eng.to_list(x) if isinstance(w, Seq) else x
    for o in outcomes(eng, go):
        if only_raises(eng, o, (), tags) == "":
            w = want(eng, me, *a)
            nm = "%s.%s" % (recv, what)
            if isinstance(w, Seq):
                eng.seq_equal(eng.seq_of(eng.content(o.val)), w, nm, tags)
            else:
                eng.oblige((o.val.t if isinstance(o.val, VInt) else eng.box(o.val)) == w, nm, tags)
            frame_all(eng, st0, "reading changes nothing", tags, ("LC",))
            r = Const("r!", V)
            A, B_ = eng.named("LC", st0), eng.named("LC")
            if not A.eq(B_):
                eng.oblige(FA([r], Implies(birth(r) < st0.now, B_[r] == A[r]), B_[r]), "reading changes no list", tags)


def field(f):
    return lambda eng, me: eng.sel(eng.H("f:" + f), me.t)


def of_class(*names):
    return lambda eng, me: children(eng, me, lambda c: Or([eng.isa(c, eng.prog.classes[n]) for n in names]))


app_b = Function("user_test", V, V, B)


@unit("hierarchy.read", "C01 C02 C04 C05", " ".join([CI + "HierarchicalElement." + x for x in (
    "parent", "depth", "cid", "get_subelements")] + [CI + "ConceptualItem.cnt_subelements"]) +
      " foundations.abstract_items:IdentifiableItem.qualified_name")
def u_read(make):
    H = "HierarchicalElement"
    reading(make, H, "parent", field("_parent"), ("C01",))
    reading(make, "ConceptualItem", "cnt_subelements", lambda eng, me: eng.sel(eng.H("DN"), eng.sel(
        eng.H("f:_sub_elements"), me.t)), ("C01",))
    reading(make, H, "depth", lambda eng, me: DEP(eng.H("f:_parent"), me.t), ("C02",))
    reading(make, H, "qualified_name", lambda eng, me: PATH(eng.H("f:_parent"), me.t), ("C02",))
    reading(make, H, "cid", field("_cid"), ("C04",))
    reading(make, H, "id_name", lambda eng, me: NAME(me.t), ("C05",))
    reading(make, H, "uuid", lambda eng, me: UID(me.t), ("C05",))

    def pred(eng):
        eng.on_user_call = lambda e, f, args: VBool(app_b(f.t, e.box(args[0])))
        eng.note("filter functions passed to get_subelements change nothing and give the same answer each time")
        return param(eng, "filterfunc")
    reading(make, H, "get_subelements", lambda eng, me, f: children(eng, me, lambda c: app_b(f.t, c)), ("C01", "C04"), (pred,))


def incident(eng, c, *dirs):
    f = lambda t: eng.sel(eng.H("f:_direction"), t)
    return And(eng.isa(c, eng.prog.classes["HypergraphRelation"]), Or([f(c) == lit("enum", "%s.%s" % (DIR, d)) for d in dirs]))


@unit("edges.read", "C10 C15", " ".join(BE + x for x in (
    "HypergraphElement.sub_ports", "HypergraphEdge.sub_relations", "HypergraphEdge.induced_subset",
    "HypergraphEdge.get_incoming_relations", "HypergraphEdge.get_outgoing_relations", "HypergraphNode.sub_edges",
    "HypergraphNode.sub_nodes", "HypergraphNode.sub_values", "HypergraphRelation.endpoint", "HypergraphRelation.direction",
    "HypergraphRelation.weight", "HypergraphPort.endpoint")))
def u_edges(make):
    T = ("C10", "C15")
    ED, ND, RL = "HypergraphEdge", "HypergraphNode", "HypergraphRelation"
    reading(make, "HypergraphElement", "sub_ports", of_class("HypergraphPort"), T)
    reading(make, ED, "sub_relations", of_class(RL), T)
    reading(make, ED, "induced_subset", lambda eng, me: children(eng, me, lambda c: eng.isa(c, eng.prog.classes[RL]),
                                                                 lambda c: eng.sel(eng.H("f:_endpoint"), c)), T)
    nop = (lambda eng: None,)
    for nm, d in (("get_incoming_relations", "INWARDS"), ("get_outgoing_relations", "OUTWARDS")):
        reading2(make, ED, nm, lambda eng, me, d=d: children(eng, me, lambda c: incident(eng, c, d, "BIDIRECTIONAL")), T)
    for nm, c in (("sub_edges", ED), ("sub_nodes", ND), ("sub_values", "ValueNode")):
        reading(make, ND, nm, of_class(c), T)
    for nm in ("endpoint", "direction", "weight"):
        reading(make, RL, nm, field("_" + nm), T)
    reading(make, "HypergraphPort", "endpoint", field("_endpoint"), T)


def reading2(make, recv, what, want, tags):
    """A method without arguments."""
    orig = E.Eng.getattr
    eng_make = make

    def mk(**kw):
        e = eng_make(**kw)
        g = e.getattr
        e.getattr = lambda v, n: e.call(g(v, n), [], {}) if n == what and isinstance(v, VObj) and v.t.eq(Const("arg_self", V)) else g(v, n)
        return e
    reading(mk, recv, what, want, tags)

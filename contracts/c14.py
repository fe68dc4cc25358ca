"""C14: value nodes are sequences they own."""
from .base import *

T = ("C14",)
HINTS = {"_values": "list", "_sub_elements": "dict", "_index_elements_by_name": "dict"}


def inv(eng, o):
    """ValueNode invariant: the list is owned by the node, dim is its length."""
    t = o.t
    l = eng.H("f:_values")[t]
    return And(own(l) == t, okey(l) == lit("field", "_values"), cls(l) == C_LIST, l != NONE,
               eng.H("f:dim")[t] == qlen(eng.H("LC")[l]))


def content(eng, o):
    return eng.H("LC")[fld(eng, o.t, "_values")]


def others_unchanged(eng, o, st0, tags=T):
    """All other value nodes keep their lists and these their contents."""
    r = Const("r!", V)
    A, B_ = eng.H("f:_values", st0), eng.H("f:_values")
    L0, L1 = eng.H("LC", st0), eng.H("LC")
    eng.oblige(FA([r], Implies(And(r != o.t, birth(r) < st0.now), And(B_[r] == A[r])), B_[r]),
               "other nodes keep their list", tags)
    eng.oblige(FA([r], Implies(And(birth(r) < st0.now, Not(And(own(r) == o.t, okey(r) == lit("field", "_values")))),
                               L1[r] == L0[r]), L1[r]), "no other list changes", tags)


def setup(make):
    eng = make(field_hints=HINTS)
    start(eng)
    v = param(eng, "self", exact="ValueNode")
    eng.assume(inv(eng, v))
    return eng, v


def as_content(eng, x):
    """Contents of a result: a list, or anything iterable."""
    return eng.seq_of(eng.content(eng.to_list(x)))


@unit("value_node.create", "C14", "hypergraph.value_node:ValueNode.__init__")
def u_init(make):
    for given in (True, False):
        eng = make(field_hints=HINTS)
        start(eng)
        uuid, name, pq = param(eng, "uuid"), param(eng, "name", kind="str"), param(eng, "pq")
        vals = param(eng, "values", kind="list") if given else VNone
        q = eng.content(vals) if given else qnil
        for o in outcomes(eng, lambda: eng.construct(eng.prog.classes["ValueNode"], [uuid, name, pq, vals], {})):
            if only_raises(eng, o, (), T) == "":
                eng.oblige(inv(eng, o.val), "a new node satisfies the invariant", T)
                eng.seq_equal(eng.seq_of(eng.content(eng.getattr(o.val, "val"))), eng.seq_of(q),
                              "a new node holds the given values", T)
                if given:
                    eng.oblige(eng.H("f:_values")[o.val.t] != vals.t, "the node owns a list of its own", T)
                    eng.oblige(eng.H("LC")[vals.t] == q, "the given list is unchanged", T)


@unit("value_node.read", "C14", "hypergraph.value_node:ValueNode.get_value hypergraph.value_node:ValueNode.__getitem__ "
      "hypergraph.value_node:ValueNode.__iter__ hypergraph.value_node:ValueNode.get_values hypergraph.value_node:ValueNode.val")
def u_read(make):
    for how in ("get_value", "__getitem__"):
        eng, v = setup(make)
        q = content(eng, v)
        i = intparam(eng, "i")
        st0 = eng.st.copy()
        for o in outcomes(eng, lambda: call_method(eng, v, how, [i])):
            n = qlen(q)
            r = only_raises(eng, o, ("IndexError",), T)
            if r == "IndexError":
                eng.oblige(Or(i.t >= n, i.t < -n), "%s fails for positions outside only" % how, T)
            elif r == "":
                eng.oblige(And(i.t < n, i.t >= -n), "%s succeeds for positions inside only" % how, T)
                eng.oblige(eng.box(o.val) == If(i.t >= 0, qelt(q, i.t), qelt(q, i.t + n)), "%s: value" % how, T)
                others_unchanged(eng, v, st0)
                eng.oblige(content(eng, v) == q, "reading changes nothing", T)
    for how in ("__iter__", "get_values", "val"):
        eng, v = setup(make)
        q = content(eng, v)
        st0 = eng.st.copy()

        def go():
            x = eng.getattr(v, "val") if how == "val" else call_method(eng, v, how)
            return x, eng.to_list(x)
        for o in outcomes(eng, go):
            if only_raises(eng, o, (), T) == "":
                x, l = o.val
                eng.seq_equal(eng.seq_of(eng.content(l)), eng.seq_of(q), "%s gives the sequence" % how, T)
                others_unchanged(eng, v, st0)
                eng.oblige(content(eng, v) == q, "reading changes nothing", T)
                if how == "get_values":
                    eng.oblige(eng.box(x) != eng.H("f:_values")[v.t], "get_values gives a copy", T)


@unit("value_node.update", "C14", "hypergraph.value_node:ValueNode.update_value hypergraph.value_node:ValueNode.__setitem__ "
      "hypergraph.value_node:ValueNode.update_values")
def u_update(make):
    for how in ("update_value", "__setitem__"):
        eng, v = setup(make)
        q, n = content(eng, v), qlen(content(eng, v))
        i, x = intparam(eng, "i"), param(eng, "x")
        st0 = eng.st.copy()
        for o in outcomes(eng, lambda: call_method(eng, v, how, [i, x])):
            r = only_raises(eng, o, ("IndexError",), T)
            q1 = content(eng, v)
            if r == "IndexError":
                eng.oblige(Or(i.t >= n, i.t < -n), "%s fails for positions outside only" % how, T)
                eng.oblige(q1 == q, "a failed update changes nothing", T)
            elif r == "":
                j = Int("j!")
                k = If(i.t >= 0, i.t, i.t + n)
                eng.oblige(And(k >= 0, k < n), "%s succeeds for positions inside only" % how, T)
                eng.oblige(And(qlen(q1) == n, FA([j], Implies(And(0 <= j, j < n), qelt(q1, j) == If(j == k, x.t, qelt(q, j))),
                                                 qelt(q1, j))), "%s changes exactly the position" % how, T)
            eng.oblige(inv(eng, v), "invariant after %s" % how, T)
            others_unchanged(eng, v, st0)
    eng, v = setup(make)
    a = param(eng, "arg", kind="list")
    q = eng.content(a)
    st0 = eng.st.copy()
    for o in outcomes(eng, lambda: call_method(eng, v, "update_values", [a])):
        if only_raises(eng, o, (), T) == "":
            eng.oblige(inv(eng, v), "invariant after update_values", T)
            eng.seq_equal(eng.seq_of(eng.content(eng.getattr(v, "val"))), eng.seq_of(q), "update_values sets the values", T)
            eng.oblige(eng.H("f:_values")[v.t] != a.t, "the node keeps a list of its own", T)
            eng.oblige(eng.sel(eng.H("LC"), a.t) == q, "the given list is unchanged", T)
            others_unchanged(eng, v, st0)

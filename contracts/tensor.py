"""C12: degrees and Laplacians, for tensors of any size and content."""
from .base import *
from pyvc import nd

T = ("C12",)
CLS = "NumpyTensorRepresentation"
FIELDS = {"_weight_tensor": "W", "_incidence_matrix_out": "Io", "_incidence_matrix_in": "Ii"}


def setup(make):
    """A representation with any history, holding tensors over m edges and n nodes."""
    eng = make()
    start(eng)
    rep = param(eng, "self", exact=CLS)
    m, n = Int("arg_m"), Int("arg_n")
    eng.assume(And(m >= 0, n >= 0))
    a = {}
    for f, x in FIELDS.items():
        k = 3 if x == "W" else 2
        F = Function("arg_" + x, *([I] * k + [R]))
        eng.params.add("arg_" + x)
        a[x] = nd.nd([m, n, n][:k], F)
        eng.setH("f:" + f, Store(eng.H("f:" + f), rep.t, eng.box(a[x])))
    return eng, rep, m, n, a


def spec(eng, m, n, a):
    """What the property says, as functions of indices."""
    S = nd.sums(eng)
    W, Io, Ii = (a[x].fn for x in ("W", "Io", "Ii"))
    half = lambda c, x: If(c, x / 2, x)
    agree = lambda i: S.all(m, lambda e: Io(e, i) == Ii(e, i))
    deg = lambda i: half(agree(i), S.sum(m, lambda e: Io(e, i)) + S.sum(m, lambda e: Ii(e, i)))
    col = lambda e, j: S.sum(n, lambda i: W(e, i, j))
    row = lambda e, j: S.sum(n, lambda i: W(e, j, i))
    dd = lambda e, i, j: If(i == j, half(col(e, i) == row(e, i), col(e, i)), RealVal(0))
    return {
        "deg": ([n], deg),
        "D": ([n, n], lambda i, j: If(i == j, deg(i), RealVal(0))),
        "total_deg": ([], lambda: S.sum(n, deg)),
        "DD": ([m, n, n], dd),
        "L": ([m, n, n], lambda e, i, j: dd(e, i, j) - W(e, i, j)),
        "Lp": ([n, n], lambda i, j: If(i == j, deg(i), RealVal(0)) - S.sum(m, lambda e: W(e, i, j)))}


def equal_array(eng, v, shape, fn, name):
    """The value v is the array (number, if the shape is empty) fn."""
    if not isinstance(v, VND):
        v = nd.arr(eng, v)
    if len(v.shape) != len(shape):
        eng.oblige(BoolVal(False), "%s has %d axes" % (name, len(shape)), T)
        return
    if shape:
        eng.oblige(And([x == y for x, y in zip(v.shape, shape)]), "%s has the right shape" % name, T)
    ix = [nd.fresh_int("ix") for _ in shape]
    for i, s in zip(ix, shape):
        eng.assume(And(0 <= i, i < s))
    g = simplify(nd.val(v, ix, "real") == fn(*ix))
    for f in nd.sums(eng).facts([g] + eng.st.pc):
        eng.assume(f)
    eng.oblige(g, "%s is what the tensors determine" % name, T)


def reading(make, attr):
    eng, rep, m, n, a = setup(make)
    st0 = eng.st
    want = spec(eng, m, n, a)
    for o in outcomes(eng, lambda: eng.getattr(rep, attr)):
        if only_raises(eng, o, (), T) != "":
            continue
        base = list(eng.st.pc)
        equal_array(eng, o.val, *want[attr], attr)
        eng.st.pc = base
        if attr == "D":
            tr = nd.f_trace(eng, [o.val], {})
            equal_array(eng, tr, [], want["total_deg"][1], "trace of D")
            eng.st.pc = base
        for f in FIELDS:
            eng.oblige(eng.H("f:" + f)[rep.t] == eng.H("f:" + f, st0)[rep.t], "%s is only read" % FIELDS[f], T)


def reads(attr, quals):
    @unit("tensor." + attr, "C12", quals)
    def u(make):
        reading(make, attr)


TR = "tensor.tensor_representation:" + CLS + "."
AB = "hypergraph.representation.abstract_representations:AbstractTensorRepresentation."
reads("deg", AB + "deg " + TR + "degree_matrix")
reads("D", AB + "D " + TR + "diag_degree_matrix")
reads("total_deg", AB + "total_deg " + TR + "calc_total_deg")
reads("DD", AB + "DD " + TR + "diag_degree_tensor")
reads("L", AB + "L " + TR + "calc_laplacian")
reads("Lp", AB + "Lp " + TR + "calc_projected_laplacian")

"""Ancestors, depth and paths in a parent array, and the lemmas about changing one parent (proved in `forest.lemmas`)."""
from .base import *

PA = VV
ANC = Function("ANC", PA, V, V, B)          # ANC(p, a, e): a is e or one of its ancestors
ACY = Function("ACY", PA, B)                # every chain of parents ends
DEP = Function("DEP", PA, V, I)             # number of ancestors
UPS = Function("UPS", PA, V, Q)             # names from e up to its root
NX = Function("NX", PA, V, V, V)            # the child of a on the way down to e
NAME = Function("F_id_name", V, V)
UID = Function("F_uuid", V, V)


MK = Function("mark", I, B)         # true; names the indices existential claims are tried at


def PATH(p, e):
    """The names on the path from the root to e, joined by '/'."""
    return qjoin(lit("str", "/"), qrev(UPS(p, e)))


def axioms():
    p, a, e = Const("p!", PA), Const("a!", V), Const("e!", V)
    return [
        FA([Int("i!")], MK(Int("i!")), MK(Int("i!"))),
        FA([p, a, e], ANC(p, a, e) == Or(a == e, And(p[e] != NONE, ANC(p, a, p[e]))), (ANC(p, a, e), p[e])),
        FA([p, e], ANC(p, e, e), ANC(p, e, e)),
        FA([p, e], Implies(ACY(p), And(DEP(p, e) >= 0, DEP(p, e) == If(p[e] == NONE, 0, DEP(p, p[e]) + 1))),
           (DEP(p, e), p[e])),
        FA([p, e], Implies(ACY(p), UPS(p, e) == If(p[e] == NONE, qapp(qnil, NAME(e)),
                                                   qcat(qapp(qnil, NAME(e)), UPS(p, p[e])))), (UPS(p, e), p[e])),
    ]


def change(p, x, y, p2):
    """p2 is p with the parent of x set to y (NONE, or not below x)."""
    a, e = Const("a!", V), Const("e!", V)
    out = Not(ANC(p, x, e))
    return Implies(And(ACY(p), Or(y == NONE, Not(ANC(p, x, y)))), And(
        ACY(p2),
        FA([a, e], Implies(out, ANC(p2, a, e) == ANC(p, a, e)), ANC(p2, a, e)),
        FA([e], Implies(out, And(DEP(p2, e) == DEP(p, e))), DEP(p2, e)),
        FA([e], Implies(out, And(UPS(p2, e) == UPS(p, e))), UPS(p2, e)),
        FA([e], ANC(p2, x, e) == ANC(p, x, e), ANC(p2, x, e))))


def below(p, a):
    """What is below a is below one of its children."""
    e = Const("e!", V)
    c = NX(p, a, e)
    return Implies(ACY(p), FA([e], Implies(And(ANC(p, a, e), e != a), And(p[c] == a, ANC(p, c, e))), ANC(p, a, e)))


def upward(p, el):
    """Where the parents of elements are elements, so are all ancestors."""
    a, e, c = Const("a!", V), Const("e!", V), Const("c!", V)
    return Implies(And(ACY(p), FA([c], Implies(And(el[c], p[c] != NONE), el[p[c]]), p[c])),
                   FA([a, e], Implies(And(ANC(p, a, e), el[e]), el[a]), ANC(p, a, e)))


def hook(eng, old, t, val, new):
    """Instances of the lemmas at every assignment of a parent."""
    eng.assume(Implies(old[t] == val, new == old))
    eng.assume(change(old, t, val, new))


@unit("forest.lemmas", "C01 C02 C03 C04 C05 C06", "")
def u_forest(make):
    """Proofs by induction on the depth: the claim for E from the claim for everything of smaller depth."""
    def setup():
        eng = make(theory_axioms=axioms())
        p, x, y, E_ = Const("p", PA), Const("x", V), Const("y", V), Const("E", V)
        eng.assume(ACY(p))
        eng.vacuity = [("lemma", eng.st.pc)]
        return eng, p, x, y, E_

    a, e = Const("a!", V), Const("e!", V)
    G = Function("G", V, B)     # marks the terms the claims are instantiated at

    def show(eng, p, E_, body, what, more=()):
        """body(e) for all e"""
        for m in more:
            eng.assume(m)
        t = p[E_]
        eng.assume(Implies(And(t != NONE, DEP(p, t) < DEP(p, E_)), body(t)))
        eng.assume(And(p[t] == p[t], DEP(p, E_) >= 0))
        eng.oblige(body(E_), what)

    eng, p, x, y, E_ = setup()
    p2 = Store(p, x, y)
    ok = Or(y == NONE, Not(ANC(p, x, y)))
    # 1. a measure that falls along the new chains: ACY(p2)
    m = lambda e: DEP(p, e) + If(ANC(p, x, e), If(y == NONE, IntVal(0), DEP(p, y) + 1), IntVal(0))
    eng.assume(ok)
    eng.assume(And(p[E_] == p[E_], p[y] == p[y], DEP(p, E_) >= 0, DEP(p, y) >= 0, ANC(p, x, x), DEP(p, p[E_]) >= 0,
                   ANC(p, x, p[E_]) == ANC(p, x, p[E_])))
    eng.oblige(And(m(E_) >= 0, Implies(p2[E_] != NONE, m(p2[E_]) < m(E_))), "the changed parents are well founded")
    # 2. outside the subtree nothing changes
    out = lambda e: Not(ANC(p, x, e))
    for what, body in [
            ("ancestors", lambda e: Implies(out(e), ANC(p2, a, e) == ANC(p, a, e))),
            ("depth", lambda e: Implies(out(e), DEP(p2, e) == DEP(p, e))),
            ("names", lambda e: Implies(out(e), UPS(p2, e) == UPS(p, e)))]:
        eng, p, x, y, E_ = setup()
        p2 = Store(p, x, y)
        eng.assume(ACY(p2))
        eng.assume(And(p2[E_] == If(E_ == x, y, p[E_]), ANC(p, x, x)))
        show(eng, p, E_, body, "outside the subtree the %s stay" % what)
    # 3. what is below x stays below x
    eng, p, x, y, E_ = setup()
    p2 = Store(p, x, y)
    eng.assume(And(p2[E_] == If(E_ == x, y, p[E_]), ANC(p, x, x), ANC(p2, x, x)))
    show(eng, p, E_, lambda e: ANC(p2, x, e) == ANC(p, x, e), "the subtree keeps its elements")
    # 4. below: some child leads there
    eng, p, x, y, E_ = setup()
    eng.assume(And(p[E_] == p[E_], p[NX(p, x, p[E_])] == p[NX(p, x, p[E_])]))
    c1 = Const("c1", V)
    t = p[E_]
    eng.assume(Implies(And(t != NONE, ANC(p, x, t), t != x), And(p[c1] == x, ANC(p, c1, t))))
    eng.assume(And(ANC(p, x, E_), E_ != x))
    eng.assume(And(ANC(p, E_, E_), ANC(p, c1, E_) == ANC(p, c1, E_)))
    eng.oblige(Or(And(p[E_] == x, ANC(p, E_, E_)), And(p[c1] == x, ANC(p, c1, E_))), "a child leads to what is below")
    # 5. the ancestors of elements are elements
    eng, p, x, y, E_ = setup()
    S = Const("S", VB)
    eng.assume(FA([e], Implies(And(S[e], p[e] != NONE), S[p[e]]), p[e]))
    show(eng, p, E_, lambda e: Implies(And(ANC(p, x, e), S[e]), S[x]), "ancestors of elements are elements")

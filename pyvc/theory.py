"""Sorts, functions and axioms shared by all verification units (everything here is part of the trusted base)."""
from z3 import *

set_param("smt.random_seed", 7)
set_param("sat.random_seed", 7)

V = DeclareSort("V")           # every Python value
Q = DeclareSort("Q")           # contents of a list / finite sequence of values
I, B, R = IntSort(), BoolSort(), RealSort()
VB, VI, VV = ArraySort(V, B), ArraySort(V, I), ArraySort(V, V)
IV = ArraySort(I, V)

NONE = Const("None!", V)
cls = Function("cls", V, I)            # dynamic class of a value
birth = Function("birth", V, I)        # allocation time of an object
boxI, unI = Function("boxI", I, V), Function("unI", V, I)
boxB, unB = Function("boxB", B, V), Function("unB", V, B)
boxR, unR = Function("boxR", R, V), Function("unR", V, R)
litid = Function("litid", V, I)
own = Function("own", V, V)            # ghost: the object (or outer dict) a container was first stored in
okey = Function("okey", V, V)          # ghost: the field name / key it was stored under
cat = Function("cat", V, V, V)         # string concatenation
slen = Function("slen", V, I)
tostr = Function("tostr", V, V)        # str(x), format(x)
truthy = Function("truthy", V, B)
sha = Function("sha3_224", V, V)
utf8, unutf8 = Function("utf8", V, V), Function("unutf8", V, V)
listval = Function("listval", Q, V)    # a list whose identity does not matter

C_NONE, C_INT, C_BOOL, C_REAL, C_STR, C_BYTES, C_LIST, C_DICT, C_TUPLE, C_SET, C_QUEUE, C_LIFO, C_FUN, C_DEQUE, \
    C_NPARRAY, C_XML, C_LISTVAL, C_HASH, C_GEN = range(19)

qnil = Const("qnil", Q)
qapp = Function("qapp", Q, V, Q)
qcat = Function("qcat", Q, Q, Q)
qrev = Function("qrev", Q, Q)
qset = Function("qset", Q, I, V, Q)
qslice = Function("qslice", Q, I, I, Q)
qlen = Function("qlen", Q, I)
qelt = Function("qelt", Q, I, V)
qmem = Function("qmem", Q, V, B)
qjoin = Function("qjoin", V, Q, V)     # sep.join(seq)
qsplit = Function("qsplit", V, V, Q)   # s.split(sep)

# enumeration of a dict in insertion order, a function of its key set and insertion stamps
EN = Function("EN", VB, VI, I, V)
PO = Function("PO", VB, VI, V, I)

# calls of user supplied functions (assumed deterministic, total and without effect on the graph)
app1 = Function("app1", V, V, V)
app2 = Function("app2", V, V, V, V)

# the content of an array that objects hold: its lengths and elements
SHP = Function("array_length", V, I, I)
AT = {n: Function("array_at%d" % n, *([V] + [I] * n + [R])) for n in (1, 2, 3)}

_tup = {}
_proj = {}


def tupf(n):
    if n not in _tup:
        _tup[n] = Function("tup%d" % n, *([V] * n + [V]))
        _proj[n] = [Function("proj%d_%d" % (n, i), V, V) for i in range(n)]
    return _tup[n], _proj[n]


for _n in range(0, 9):
    tupf(_n)

_v, _w, _u = Const("v!", V), Const("w!", V), Const("u!", V)
_i, _j, _k = Int("i!"), Int("j!"), Int("k!")
_b = Bool("b!")
_r = Real("r!")
_q, _p = Const("q!", Q), Const("p!", Q)


def FA(vs, body, *pats):
    vs = vs if isinstance(vs, (list, tuple)) else [vs]
    if pats:
        try:
            return ForAll(list(vs), body, patterns=[p if not isinstance(p, tuple) else MultiPattern(*p) for p in pats])
        except Z3Exception:         # a term with logical operators in it cannot be a pattern
            pass
    return ForAll(list(vs), body)


ORD = Function("ordered", V, V, B)      # true; names the keys whose order is asked for


def base_axioms():
    ax = [
        FA([_v, _w], ORD(_v, _w), ORD(_v, _w)),
        cls(NONE) == C_NONE,
        FA([_i], And(unI(boxI(_i)) == _i, cls(boxI(_i)) == C_INT), boxI(_i)),
        FA([_b], And(unB(boxB(_b)) == _b, cls(boxB(_b)) == C_BOOL), boxB(_b)),
        FA([_r], And(unR(boxR(_r)) == _r, cls(boxR(_r)) == C_REAL), boxR(_r)),
        FA([_v, _w], And(cls(cat(_v, _w)) == C_STR, slen(cat(_v, _w)) == slen(_v) + slen(_w)), cat(_v, _w)),
        FA([_v], And(cls(tostr(_v)) == C_STR, Implies(cls(_v) == C_STR, tostr(_v) == _v)), tostr(_v)),
        FA([_v], slen(_v) >= 0, slen(_v)),
        FA([_v], And(cls(sha(_v)) == C_BYTES, slen(sha(_v)) == 28), sha(_v)),
        FA([_v], And(cls(utf8(_v)) == C_BYTES, unutf8(utf8(_v)) == _v), utf8(_v)),
        # sequences
        qlen(qnil) == 0,
        FA([_q], qlen(_q) >= 0, qlen(_q)),
        FA([_q, _v], And(qlen(qapp(_q, _v)) == qlen(_q) + 1), qapp(_q, _v)),
        FA([_q, _v, _i], qelt(qapp(_q, _v), _i) == If(_i == qlen(_q), _v, qelt(_q, _i)), qelt(qapp(_q, _v), _i)),
        FA([_q, _p], qlen(qcat(_q, _p)) == qlen(_q) + qlen(_p), qcat(_q, _p)),
        FA([_q, _p, _i], qelt(qcat(_q, _p), _i) == If(_i < qlen(_q), qelt(_q, _i), qelt(_p, _i - qlen(_q))),
           qelt(qcat(_q, _p), _i)),
        FA([_q], qlen(qrev(_q)) == qlen(_q), qrev(_q)),
        FA([_q, _i], Implies(And(0 <= _i, _i < qlen(_q)), qelt(qrev(_q), _i) == qelt(_q, qlen(_q) - 1 - _i)),
           qelt(qrev(_q), _i)),
        FA([_q, _i, _v], qlen(qset(_q, _i, _v)) == qlen(_q), qset(_q, _i, _v)),
        FA([_q, _i, _v, _j], qelt(qset(_q, _i, _v), _j) == If(_i == _j, _v, qelt(_q, _j)), qelt(qset(_q, _i, _v), _j)),
        FA([_q, _i, _j], Implies(And(0 <= _i, _i <= _j, _j <= qlen(_q)), qlen(qslice(_q, _i, _j)) == _j - _i),
           qslice(_q, _i, _j)),
        FA([_q, _i, _j, _k], Implies(And(0 <= _i, _i <= _j, _j <= qlen(_q), 0 <= _k, _k < _j - _i),
                                     qelt(qslice(_q, _i, _j), _k) == qelt(_q, _i + _k)),
           qelt(qslice(_q, _i, _j), _k)),
        FA([_v, _q], cls(qjoin(_v, _q)) == C_STR, qjoin(_v, _q)),
        FA([_v], qrev(qapp(qnil, _v)) == qapp(qnil, _v), qrev(qapp(qnil, _v))),
        FA([_v, _w], Implies(cls(_w) == C_STR, qjoin(_v, qapp(qnil, _w)) == _w), qjoin(_v, qapp(qnil, _w))),
        FA([_q], And(cls(listval(_q)) == C_LISTVAL), listval(_q)),
    ]
    for n in range(0, 9):
        t, pr = tupf(n)
        vs = [Const("t%d!" % i, V) for i in range(n)]
        tt = t(*vs)
        body = And([cls(tt) == C_TUPLE, slen(tt) == n] + [pr[i](tt) == vs[i] for i in range(n)])
        ax.append(FA(vs, body, tt) if n else body)
    return ax


_lits = {}


def lit(kind, value):
    """The V constant of a literal, with the ground facts about it."""
    key = (kind, value)
    if key not in _lits:
        c = Const("%s!%s" % (kind, repr(value)), V)
        _lits[key] = (c, len(_lits) + 1)
    return _lits[key][0]


def lit_of(t):
    for k, (c, _) in _lits.items():
        if c.eq(t):
            return k
    return None


def lit_facts():
    out = []
    for (kind, value), (c, n) in _lits.items():
        out.append(litid(c) == n)
        out.append(cls(c) == {"str": C_STR, "bytes": C_BYTES, "fun": C_FUN, "field": C_FUN, "enum": -1,
                              "ext": C_FUN}.get(kind, C_FUN)) if kind != "enum" else None
        if kind in ("str", "bytes"):
            out.append(slen(c) == len(value))
    e = lit("str", "")
    if litid(e) is not None:
        out.append(FA([_v], Implies(And(cls(_v) == C_STR, slen(_v) == 0), _v == e), slen(_v)))
        out.append(And(litid(e) == _lits[("str", "")][1], cls(e) == C_STR, slen(e) == 0))
    return [x for x in out if x is not None]


class Prover:
    """Discharges goals with z3.  Everything is deterministic: fixed seeds, resource limits instead of wall clock."""

    def __init__(self, axioms, rlimit=8_000_000):
        self.axioms, self.rlimit = axioms, rlimit
        self.calls, self.time, self.rl = 0, 0.0, 0

    def check(self, hyps, goal, rlimit=None, timeout=None, options=()):
        import time
        t = time.time()
        s = SimpleSolver()
        s.set("auto_config", False)
        s.set("smt.mbqi", False)
        s.set("rlimit", rlimit or self.rlimit)
        if timeout:
            s.set("timeout", timeout)
        for k, v in options:
            s.set(k, v)
        s.add(*self.axioms)
        s.add(*lit_facts())
        s.add(*hyps)
        s.add(Not(goal))
        r = s.check()
        self.calls += 1
        self.time += time.time() - t
        self.last = s
        return r

    def proves(self, hyps, goal, rlimit=None):
        """Several short attempts with different search orders: instantiation either succeeds soon or goes astray."""
        rl = rlimit or self.rlimit
        if self.check(hyps, goal, min(rl, 300_000), options=NOEXT) == unsat:
            return True
        return all(self.proves1(list(hyps) + h, g, rl) for h, g in pieces(goal))

    def proves1(self, hyps, goal, rl):
        for options in ATTEMPTS:
            if self.check(hyps, goal, min(rl, 500_000), options=options) == unsat:
                return True
        return rl > 500_000 and self.check(hyps, goal, rl) == unsat


_sk = [0]


def pieces(goal, hyps=()):
    """The goal as a list of (hypotheses, goal), to be proved one by one."""
    if is_quantifier(goal) and goal.is_forall():
        vs = []
        for i in range(goal.num_vars()):
            _sk[0] += 1
            vs.append(Const("sk!%d" % _sk[0], goal.var_sort(i)))
        return pieces(substitute_vars(goal.body(), *reversed(vs)), hyps)
    if is_implies(goal):
        return pieces(goal.arg(1), list(hyps) + [goal.arg(0)])
    if is_and(goal):
        return [x for c in goal.children() for x in pieces(c, hyps)]
    return [(list(hyps), goal)]


NOEXT = (("smt.array.extensional", False),)
ATTEMPTS = [(), (("smt.qi.eager_threshold", 3.0),), (("smt.relevancy", 1),), NOEXT + (("random_seed", 1),),
            (("random_seed", 2), ("smt.case_split", 3))]

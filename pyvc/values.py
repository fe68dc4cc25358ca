"""Symbolic values of the interpreter."""
from .theory import *


LOOPD = [0]         # how many loop bodies are being executed


class Val:
    pass


class VInt(Val):
    def __init__(self, t):
        self.t = IntVal(t) if isinstance(t, int) else t

    def __repr__(self):
        return "VInt(%s)" % self.t


class VBool(Val):
    def __init__(self, t):
        self.t = BoolVal(t) if isinstance(t, bool) else t

    def __repr__(self):
        return "VBool(%s)" % self.t


class VReal(Val):
    def __init__(self, t):
        self.t = RealVal(repr(t)) if isinstance(t, float) else t

    def __repr__(self):
        return "VReal(%s)" % self.t


class VObj(Val):
    """Any value given by a term of sort V.  kind: builtin kind if known; cls: upper bound of its class;
    exact: its class, if known exactly."""

    def __init__(self, t, kind=None, cls=None, exact=None):
        self.t, self.kind, self.cls, self.exact = t, kind, cls or exact, exact

    def __repr__(self):
        return "VObj(%s,%s,%s)" % (self.t, self.kind, self.cls)


class VTup(Val):
    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return "VTup(%r)" % self.items


class VFun(Val):
    """A function or lambda together with the frame it was created in."""

    def __init__(self, fi, fid=None):
        self.fi, self.fid = fi, fid
        self.ld = LOOPD[0] if fid is not None else 0


class VBound(Val):
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class VCls(Val):
    def __init__(self, c):
        self.c = c


class VExt(Val):
    """A library or builtin name."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "VExt(%s)" % self.name


class VMod(Val):
    def __init__(self, m):
        self.m = m


class VIter(Val):
    """Something to iterate: run(eng, handler) calls handler(value) once per element, in order."""

    count = 0

    def __init__(self, run, what=""):
        self.run, self.what = run, what
        self.ld = LOOPD[0]
        VIter.count += 1
        self.no = VIter.count


class VCoro(Val):
    """A coroutine; call: the function and the arguments it was made with, if known."""

    def __init__(self, run, what="", call=None):
        self.run, self.what, self.call = run, what, call
        self.ld = LOOPD[0]


class VSuper(Val):
    def __init__(self, after, self_):
        self.after, self.self_ = after, self_


class VSlice(Val):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class VUnion(Val):
    def __init__(self, items):
        self.items = items


class VND(Val):
    """A numpy array: shape (list of int terms) and a function from index terms to a real term."""

    def __init__(self, shape, fn, dtype="real"):
        self.shape, self.fn, self.dtype = shape, fn, dtype
        self.ref = None             # the array object, where it is one that objects hold
        self.viewed = False         # may share its elements with another array, or be stored somewhere
        self.ld = LOOPD[0]


VNone = VObj(NONE, kind="none")


# ---- sequence expressions -----------------------------------------------------------------------------------------
class Seq:
    pass


class SOne(Seq):
    def __init__(self, v):
        self.v = v      # V term


class SCat(Seq):
    def __init__(self, parts):
        self.parts = parts


class SLoop(Seq):
    def __init__(self, n, i, body):
        self.n, self.i, self.body = n, i, body


class SIf(Seq):
    def __init__(self, c, body):
        self.c, self.body = c, body


class SAtom(Seq):
    def __init__(self, q):
        self.q = q


SNil = SCat([])


def seq_subst(s, pairs):
    if isinstance(s, SOne):
        return SOne(substitute(s.v, *pairs))
    if isinstance(s, SCat):
        return SCat([seq_subst(p, pairs) for p in s.parts])
    if isinstance(s, SLoop):
        return SLoop(substitute(s.n, *pairs), s.i, seq_subst(s.body, pairs))
    if isinstance(s, SIf):
        return SIf(substitute(s.c, *pairs), seq_subst(s.body, pairs))
    if isinstance(s, SAtom):
        return SAtom(substitute(s.q, *pairs))
    raise TypeError(s)


def seq_items(s, guard=None):
    """Normal form: list of ('one', guard, v) | ('loop', guard, n, i, items) | ('atom', guard, q)."""
    g = guard if guard is not None else BoolVal(True)
    if isinstance(s, SOne):
        return [("one", g, s.v)]
    if isinstance(s, SCat):
        return [x for p in s.parts for x in seq_items(p, g)]
    if isinstance(s, SIf):
        return seq_items(s.body, simplify(And(g, s.c)))
    if isinstance(s, SAtom):
        return [("atom", g, s.q)]
    if isinstance(s, SLoop):
        return [("loop", g, s.n, s.i, seq_items(s.body))]
    raise TypeError(s)

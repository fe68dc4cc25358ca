"""Numpy arrays as functions from indices to reals, of any size.

An array is VND(shape, fn): the shape is a list of integer terms, fn gives the element at index terms.  Sums and "all"
over an axis become uninterpreted symbols SUM!/ALL!, one for each shape of summand up to its parameters, normalised
linearly; `facts` gives the axioms that determine them (extensionality, witnesses) for the terms of a goal.
Arrays are values here: whatever would change one in place is outside the verifier's reach.
"""
import ast
import itertools

from .theory import *
from .values import *

_n = itertools.count()


def fresh_int(base="k"):
    return Int("%s~%d" % (base, next(_n)))


def occurs(k, t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(k):
            return True
        todo.extend(x.children())
    return False


def num(t):
    return is_rational_value(t) or is_int_value(t)


def isite(t):
    return is_app(t) and t.decl().kind() == Z3_OP_ITE


def lift(op, a, b):
    """op(a, b) with conditionals over numerals pulled out."""
    def go(a, b):
        if isite(a) and (num(b) or leafnum(a)):
            return If(a.arg(0), go(a.arg(1), b), go(a.arg(2), b))
        if isite(b) and (num(a) or leafnum(b)):
            return If(b.arg(0), go(a, b.arg(1)), go(a, b.arg(2)))
        return simplify(op(a, b))
    return simplify(go(a, b))


def leafnum(t):
    return num(t) or isite(t) and leafnum(t.arg(1)) and leafnum(t.arg(2))


class Sums:
    def __init__(self):
        self.pats = {}          # pattern text -> declaration
        self.info = {}          # declaration name -> (kind, number of dimensions, parameters, bound variables, body)
        self.nonneg = []

    # -------------------------------------------------------------- patterns
    def canon(self, t, bs, memo):
        """(anonymous text, rebuilt term with children in order)"""
        k = t.get_id()
        if k in memo:
            return memo[k]
        for i, b in enumerate(bs):
            if t.eq(b):
                memo[k] = ("B%d" % i, t)
                return memo[k]
        if num(t) or is_true(t) or is_false(t):
            r = (t.sexpr(), t)
        elif not any(occurs(b, t) for b in bs):
            r = ("P:%s" % t.sort(), t)
        else:
            ch = [self.canon(c, bs, memo) for c in t.children()]
            if t.decl().kind() in (Z3_OP_ADD, Z3_OP_MUL, Z3_OP_EQ, Z3_OP_AND, Z3_OP_OR, Z3_OP_DISTINCT):
                ch = sorted(ch, key=lambda c: (c[0], c[1].sexpr()))
            n = t.decl().name()
            new = t.decl()(*[c[1] for c in ch]) if t.decl().kind() not in (Z3_OP_ADD, Z3_OP_MUL, Z3_OP_AND, Z3_OP_OR) else \
                {Z3_OP_ADD: lambda x: sum(x[1:], x[0]), Z3_OP_MUL: prod, Z3_OP_AND: And, Z3_OP_OR: Or}[t.decl().kind()](
                    [c[1] for c in ch])
            r = ("(%s %s)" % (n, " ".join(c[0] for c in ch)), new)
        memo[k] = r
        return r

    def abstract(self, t, bs):
        """(text, parameters): the term with its maximal parts free of bs replaced."""
        params = []

        def go(x):
            for i, b in enumerate(bs):
                if x.eq(b):
                    return "B%d" % i
            if num(x) or is_true(x) or is_false(x):
                return x.sexpr()
            if not any(occurs(b, x) for b in bs):
                for i, p in enumerate(params):
                    if p.eq(x):
                        return "P%d" % i
                params.append(x)
                return "P%d" % (len(params) - 1)
            return "(%s %s)" % (x.decl().name(), " ".join(go(c) for c in x.children()))
        return go(t), params

    def atom(self, kind, dims, bs, body):
        best = None
        for perm in itertools.permutations(range(len(bs))) if len(bs) <= 3 else [tuple(range(len(bs)))]:
            b2, d2 = [bs[i] for i in perm], [dims[i] for i in perm]
            _, t = self.canon(body, b2, {})
            text, params = self.abstract(t, b2)
            key = (text, [d.sexpr() for d in d2], [p.sexpr() for p in params])
            if best is None or key < best[0]:
                best = (key, t, b2, d2, params)
        (text, _, _), t, b2, d2, params = best
        text = "%s|%d|%s|%s" % (kind, len(b2), text, " ".join(str(p.sort()) for p in params))
        if text not in self.pats:
            name = "%s!%d" % (kind, len(self.pats))
            ps = [Const("pp!%s!%d" % (name, i), p.sort()) for i, p in enumerate(params)]
            bb = [Int("pb!%s!%d" % (name, i)) for i in range(len(b2))]
            ctext, cparams = t, params
            ct = substitute(t, *([(p, q) for p, q in zip(params, ps)] + list(zip(b2, bb))))
            self.pats[text] = Function(name, *([p.sort() for p in ps] + [I] * len(d2) + [R if kind == "SUM" else B]))
            self.info[name] = (kind, len(d2), ps, bb, ct)
        return self.pats[text](*(params + d2))

    def open(self, t):
        """An application of SUM!/ALL!: (kind, dims, bound variables, body); fresh bound variables."""
        if not is_app(t) or t.decl().name() not in self.info:
            return None
        kind, nd, ps, bb, body = self.info[t.decl().name()]
        args = t.children()
        bs = [fresh_int() for _ in bb]
        return kind, args[len(ps):], bs, substitute(body, *(list(zip(ps, args)) + list(zip(bb, bs))))

    # -------------------------------------------------------------- sums
    def sum(self, n, f):
        k = fresh_int()
        return simplify(self.sum1(n, k, f(k)))

    def sum1(self, n, k, b):
        b = simplify(b, som=True)
        if num(b) and b.as_fraction() == 0:
            return RealVal(0)
        if not occurs(k, b):
            return ToReal(n) * b
        if is_add(b):
            return sum([self.sum1(n, k, c) for c in b.children()], RealVal(0))
        if is_mul(b):
            free = [c for c in b.children() if not occurs(k, c)]
            dep = [c for c in b.children() if occurs(k, c)]
            if free:
                return prod(free) * self.sum1(n, k, prod(dep))
            for i, c in enumerate(dep):
                if isite(c):
                    rest = prod(dep[:i] + dep[i + 1:])
                    return self.sum1(n, k, If(c.arg(0), c.arg(1) * rest, c.arg(2) * rest))
        if isite(b):
            c, x, y = b.children()
            if is_not(c):
                c, x, y = c.arg(0), y, x
            if not occurs(k, c):
                return If(c, self.sum1(n, k, x), self.sum1(n, k, y))
            kr = kron(c, k)
            if kr is not None:
                t, rest = kr
                at = lambda e: substitute(e, (k, t))
                return self.sum1(n, k, y) + If(And([0 <= t, t < n] + [at(r) for r in rest]), at(x) - at(y), RealVal(0))
        o = self.open(b)
        if o and o[0] == "SUM" and not any(occurs(k, d) for d in o[1]):
            return self.atom("SUM", list(o[1]) + [n], o[2] + [k], o[3])
        return self.atom("SUM", [n], [k], b)

    def all(self, n, f):
        k = fresh_int()
        return simplify(self.all1(n, k, f(k)))

    def all1(self, n, k, b):
        b = simplify(b)
        if not occurs(k, b):
            return Or(n <= 0, b)
        if is_and(b):
            return And([self.all1(n, k, c) for c in b.children()])
        o = self.open(b)
        if o and o[0] == "ALL" and not any(occurs(k, d) for d in o[1]):
            return self.atom("ALL", list(o[1]) + [n], o[2] + [k], o[3])
        return self.atom("ALL", [n], [k], b)

    # -------------------------------------------------------------- what determines them
    def find(self, t, out, seen):
        todo = [t]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if is_quantifier(x):
                continue
            if is_app(x) and x.decl().name() in self.info:
                out.append(x)
            todo.extend(x.children())

    def facts(self, terms):
        fs, sums, alls, seen, wits = [], [], [], set(), []
        new = []
        for t in terms:
            self.find(t, new, seen)
        rng = lambda ds, ws: And([And(0 <= w, w < d) for d, w in zip(ds, ws)])
        rounds = 0
        while new and rounds < 3:
            rounds += 1
            cur, new = new, []
            for x in cur:
                kind, dims, bs, body = self.open(x)
                if kind == "ALL":
                    fs.append(Or(x, And(rng(dims, bs), Not(body))))
                    self.find(body, new, seen)
                    for y, (d2, b2, e2) in alls:
                        if len(b2) == len(bs):
                            fs.append(Implies(x, Implies(rng(dims, b2), substitute(body, *zip(bs, b2)))))
                            fs.append(Implies(y, Implies(rng(d2, bs), substitute(e2, *zip(b2, bs)))))
                    alls.append((x, (dims, bs, body)))
                else:
                    fs.append(Implies(Or([d <= 0 for d in dims]), x == 0))
                    for y, (d2, b2, e2) in sums:
                        if len(b2) != len(bs):
                            continue
                        sk = [fresh_int("x") for _ in bs]
                        u, v = substitute(body, *zip(bs, sk)), substitute(e2, *zip(b2, sk))
                        fs.append(Or(x == y, Not(And([a == b for a, b in zip(dims, d2)])), And(rng(dims, sk), u != v)))
                        self.find(u, new, seen)
                        self.find(v, new, seen)
                    sums.append((x, (dims, bs, body)))
                    if isite(body) and leafnum(body) and len(bs) == 1:
                        z = self.all(dims[0], lambda k: substitute(body, (bs[0], k)) == 0)
                        o = self.all(dims[0], lambda k: substitute(body, (bs[0], k)) == 1)
                        if all(v in (0, 1) for v in leaves(body)):
                            fs += [z == (x == 0), o == (x == ToReal(dims[0])), x >= 0, x <= ToReal(dims[0])]
                            self.find(z, new, seen)
                            self.find(o, new, seen)
        return fs


def leaves(t):
    return leaves(t.arg(1)) + leaves(t.arg(2)) if isite(t) else [t.as_fraction()]


def prod(xs):
    if not xs:
        return RealVal(1)
    r = xs[0]
    for x in xs[1:]:
        r = r * x
    return r


def kron(c, k):
    """c is (k == t and rest): (t, rest)"""
    cs = list(c.children()) if is_and(c) else [c]
    for i, e in enumerate(cs):
        if is_eq(e) and e.arg(0).sort() == I:
            for x, y in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                if x.eq(k) and not occurs(k, y):
                    return y, cs[:i] + cs[i + 1:]
    return None


# ------------------------------------------------------------------ arrays
def U(msg):
    from .engine import Unsupported
    raise Unsupported(msg)


def bad(name):
    from .engine import RaiseSig
    raise RaiseSig(name)


def sums(eng):
    if not hasattr(eng, "nds"):
        eng.nds = Sums()
        eng.note("numpy arrays are values over the reals: rounding, overflow and in-place changes are not modelled")
    return eng.nds


def nd(shape, fn, dtype="real"):
    v = VND([simplify(s) if is_expr(s) else IntVal(s) for s in shape], fn, dtype)
    return v


def view(src, shape, fn, dtype):
    """An array that shares its elements with another one."""
    v = res(shape, fn, dtype)
    if isinstance(v, VND):
        v.viewed = src.viewed = True
        v.of_held = src.ref is not None or getattr(src, "of_held", False)
    return v


# arrays that objects hold: the field has a reference, "NDV" says what the array holds
def held(eng, ref, rank):
    c = eng.sel(eng.H("NDV"), ref, deep=True)
    v = nd([SHP(c, k) for k in range(rank)], lambda *ix: AT[rank](c, *ix))
    v.ref, v.viewed = ref, True
    return v


def current(eng, v):
    return held(eng, v.ref, len(v.shape))


def content(eng, v):
    """A name for what the array holds."""
    c = eng.fresh("array", V)
    ix = [Int("ix%d!" % k) for k in range(len(v.shape))]
    eng.assume(And([SHP(c, k) == s for k, s in enumerate(v.shape)]))
    eng.assume(FA(ix, AT[len(ix)](c, *ix) == v.fn(*ix), AT[len(ix)](c, *ix)))
    return c


def hold(eng, v, rank):
    """The array becomes one that an object holds."""
    if v.ref is not None:
        return VObj(v.ref)
    if v.viewed:
        U("an array that others may see is stored")
    if len(v.shape) != rank or v.dtype != "real":
        U("an array of another kind is stored")
    v.viewed = True
    o = eng.alloc("array", C_NPARRAY)
    eng.setH("NDV", Store(eng.H("NDV"), o.t, content(eng, v)))
    return o


def change(eng, old, new):
    if len(new.shape) != len(old.shape) or new.dtype != old.dtype:
        U("in-place operation that changes the shape")

    def views(v):
        if isinstance(v, VND):
            return getattr(v, "of_held", False)
        if isinstance(v, VTup):
            return any(views(x) or isinstance(x, VND) and x.ref is not None for x in v.items)
        if isinstance(v, VBound):
            return views(v.self_) or isinstance(v.self_, VND) and v.self_.ref is not None
        return False
    if any(views(v) for fr in eng.st.frames.values() for v in fr.values() if isinstance(v, Val)):
        U("in-place change of an array that others see")
    eng.setH("NDV", Store(eng.H("NDV"), old.ref, content(eng, new)))


def inplace(eng, old, new):
    """An in-place change, as a new array under the only name the old one has."""
    if old.viewed:
        U("in-place change of an array that others may see")
    if not isinstance(new, VND) or len(new.shape) != len(old.shape) or not all(same(eng, a, b) for a, b in zip(old.shape, new.shape)):
        U("in-place operation that changes the shape")
    if old.dtype != new.dtype:
        U("in-place operation that changes the element type")

    def holds(v):
        if v is old:
            return 1
        if isinstance(v, VTup):
            return sum(holds(x) for x in v.items)
        if isinstance(v, VBound):
            return 2 * holds(v.self_)
        if isinstance(v, (VIter, VCoro)):
            return 2
        return 0
    n = sum(holds(v) for fr in eng.st.frames.values() for k, v in fr.items() if isinstance(v, Val))
    if n > 1:
        U("in-place change of an array with several names")
    return nd(new.shape, new.fn, new.dtype)


def inrange(eng, i, d):
    """Index i of an axis of length d: 0 counted from the start, 1 from the end; or IndexError."""
    if eng.entails(And(0 <= i, i < d)):
        return 0
    c = eng.choose([And(0 <= i, i < d), And(-d <= i, i < 0), Or(i < -d, i >= d)], full=True)
    if c == 2:
        bad("IndexError")
    return c


def setitem(eng, o, k, v):
    """The array o after o[k] = v; k: integers and full slices."""
    ks = list(k.items) if isinstance(k, VTup) else [k]
    isnone = lambda x: x is None or isinstance(x, VObj) and x.kind == "none"
    if len(ks) > len(o.shape):
        bad("IndexError")
    ks += [VSlice(None, None, None)] * (len(o.shape) - len(ks))
    fixed, free = {}, []
    for j, x in enumerate(ks):
        if isinstance(x, VSlice):
            if not (isnone(x.lo) and isnone(x.hi) and isnone(x.step)):
                U("assignment to part of an axis")
            free.append(j)
            continue
        if isinstance(x, (VND, VObj, VTup)) and not (isinstance(x, VObj) and x.kind is None):
            U("assignment with a computed index array")
        d = o.shape[j]
        i = eng.as_int(x)
        c = inrange(eng, i, d)
        fixed[j] = i if c == 0 else simplify(i + d)
    a = arr(eng, v)
    shape = [o.shape[j] for j in free]
    if len(a.shape) > len(shape):
        bad("ValueError")
    full, pa, _ = spread(eng, a, nd(shape, None))
    if not all(same(eng, x, y) for x, y in zip(full, shape)):
        bad("ValueError")

    def fn(*ix):
        at = [ix[j] == t for j, t in fixed.items()]
        return simplify(If(And(at) if at else BoolVal(True), val(a, pa([ix[j] for j in free]), o.dtype), o.fn(*ix)))
    return nd(o.shape, fn, o.dtype)


def builtin_sum(eng, args):
    """sum(x[, start])"""
    from .lib import as_q
    from .engine import seq_items
    if isinstance(args[0], VND) and not args[0].shape:
        bad("TypeError")
    start = args[1] if len(args) > 1 else VInt(IntVal(0))
    S = sums(eng)
    add = lambda x, y: binop(eng, ast.Add(), x, y) if isinstance(x, VND) or isinstance(y, VND) else eng.binop(ast.Add(), x, y)
    r = start
    for x in seq_items(eng.seq_of(as_q(eng, args[0]))):
        if x[0] == "one":
            w = eng.wrap(x[2])
            if is_true(simplify(x[1])) or eng.branch(x[1]):
                r = add(r, w)
            continue
        if x[0] == "loop" and len(x[4]) == 1 and x[4][0][0] == "one" and is_true(simplify(x[1])):
            n, i, (_, g, t) = x[2], x[3], x[4][0]
            w = arr(eng, eng.wrap(t))
            if any(occurs(i, d) for d in w.shape):
                U("sum of arrays of different shapes")
            if w.shape and not eng.entails(n >= 1):
                if eng.choose([n >= 1, n < 1], full=True) == 1:
                    continue
            if w.shape and not is_true(simplify(g)):
                U("sum of some of the arrays")
            z = res(w.shape, lambda *ix: S.sum(n, lambda k: substitute(If(g, val(w, ix, "real"), RealVal(0)), (i, k))))
            r = add(r, z)
            continue
        if x[0] == "atom" and is_true(simplify(x[1])):
            n, i, w = numbers(eng, x)
            r = add(r, VReal(S.sum(n, lambda k: substitute(w.fn(), (i, k)))))
            continue
        U("sum of a sequence of unknown numbers")
    return r


def res(shape, fn, dtype="real"):
    """An array, or the scalar where there are no axes left."""
    if shape:
        return nd(shape, fn, dtype)
    return VBool(simplify(fn())) if dtype == "bool" else VReal(simplify(fn()))


def arr(eng, v):
    """Any operand as an array."""
    if isinstance(v, VND):
        return v
    if isinstance(v, VBool):
        return nd([], lambda: v.t, "bool")
    if isinstance(v, VInt) or isinstance(v, VReal):
        return nd([], lambda: eng.as_real(v))
    if isinstance(v, VObj) and v.kind is None:
        w = eng.wrap(v.t)
        if not isinstance(w, VObj):
            return arr(eng, w)
        if eng.entails(v.t == boxR(unR(v.t))):
            return nd([], lambda: unR(v.t))
    if isinstance(v, VTup) or isinstance(v, VObj) and eng.is_list(v):
        return from_seq(eng, v)
    U("array operand %r" % (v,))


def from_seq(eng, v):
    from .lib import as_q
    from .engine import seq_items
    if isinstance(v, VTup):
        its = list(v.items)
    else:
        its = []
        q = seq_items(eng.seq_of(as_q(eng, v)))
        if len(q) == 1 and q[0][0] != "one":
            return from_loop(eng, q[0])
        for x in q:
            if x[0] != "one" or not is_true(x[1]):
                U("array of a list of unknown length")
            its.append(eng.wrap(x[2]))
    xs = [arr(eng, x) for x in its]
    if not xs:
        return nd([0], lambda i: RealVal(0))
    for x in xs[1:]:
        if len(x.shape) != len(xs[0].shape) or not all(same(eng, a, b) for a, b in zip(x.shape, xs[0].shape)):
            U("ragged array")
    dt = "bool" if all(x.dtype == "bool" for x in xs) else "real"

    def fn(i, *ix):
        r = val(xs[-1], ix, dt)
        for j in range(len(xs) - 2, -1, -1):
            r = If(i == j, val(xs[j], ix, dt), r)
        return simplify(r)
    return nd([len(xs)] + xs[0].shape, fn, dt)


def numbers(eng, item):
    """A list of unknown numbers: (length, index, number)."""
    q = item[2]
    i = fresh_int("at")
    x = qelt(q, i)
    if not is_true(simplify(item[1])) or not eng.entails(Implies(And(0 <= i, i < qlen(q)), Or(x == boxI(unI(x)), x == boxR(unR(x))))):
        U("array of a list of unknown things")
    return qlen(q), i, nd([], lambda: If(x == boxI(unI(x)), ToReal(unI(x)), unR(x)))


def loop_body(eng, item):
    """One value for each index: (length, index, value)."""
    if item[0] == "atom":
        return numbers(eng, item)
    if item[0] != "loop" or not is_true(simplify(item[1])):
        U("array of a list of unknown length")
    _, _, n, i, b = item
    if len(b) != 1 or b[0][0] != "one" or not is_true(simplify(b[0][1])):
        U("array of a list of unknown length")
    return n, i, arr(eng, eng.wrap(b[0][2]))


def from_loop(eng, item):
    n, i, w = loop_body(eng, item)
    if any(occurs(i, d) for d in w.shape):
        U("ragged array")
    if w.shape and not eng.entails(n >= 1):
        if eng.choose([n >= 1, n < 1], full=True) == 1:
            return nd([0], lambda i: RealVal(0))
    return nd([n] + list(w.shape), lambda k, *ix: substitute(w.fn(*ix), (i, k)), w.dtype)


def constants(t, out, seen):
    todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if is_const(x) and x.decl().kind() == Z3_OP_UNINTERPRETED:
            out.append(x)
        todo.extend(x.children())


def boxed(eng, v, loopdepth):
    """An array as a value: a function of whatever it depends on."""
    ix = [fresh_int("bx") for _ in v.shape]
    t = v.fn(*ix)
    cs, seen = [], set(i.get_id() for i in ix)
    for x in [t] + list(v.shape):
        constants(x, cs, seen)
    k = "nd!%d" % next(_n)

    def again(a, cs=list(cs)):
        s = list(zip(cs, a))
        r = nd([substitute(d, *s) if s else d for d in v.shape],
               lambda *jx: substitute(t, *(list(zip(ix, jx)) + s)) if s or ix else t, v.dtype)
        r.viewed = True
        return r
    eng.appreg[k] = (v, again)
    eng._keep = getattr(eng, "_keep", [])
    eng._keep.append(v)
    if not cs:
        return None
    return Function(k, *([c.sort() for c in cs] + [V]))(*cs)


def iterate(eng, v, handler):
    if not v.shape:
        bad("TypeError")
    from . import engine as E
    if v.ref is not None:
        U("a loop over an array that an object holds")
    v.viewed = True

    def step(i):
        return handler(view(v, v.shape[1:], lambda *ix: v.fn(i, *ix), v.dtype))
    eng.indexed_loop(v.shape[0], step, ("nd", id(v)), E.Src(v.shape[0], "i"))


def val(a, ix, dtype):
    t = a.fn(*ix)
    if dtype == "real" and a.dtype == "bool":
        t = If(t, RealVal(1), RealVal(0))
    if dtype == "bool" and a.dtype != "bool":
        t = t != 0
    return t


def real(a):
    return nd(a.shape, lambda *ix: val(a, ix, "real")) if a.dtype == "bool" else a


def same(eng, a, b):
    a, b = simplify(a), simplify(b)
    return a.eq(b) or eng.entails(a == b)


def dim(eng, a, b):
    """The common size of two axes in an operation: (size, first is spread, second is spread)."""
    one = lambda x: is_int_value(x) and x.as_long() == 1
    if one(a) and not one(b):
        return b, True, False
    if one(b) and not one(a):
        return a, False, True
    if same(eng, a, b):
        return a, False, False
    if is_int_value(a) and is_int_value(b):
        bad("ValueError")
    k = eng.choose([a == b, And(a != b, a == 1), And(a != b, b == 1), And(a != b, a != 1, b != 1)], full=True)
    if k == 3:
        bad("ValueError")
    return [(a, False, False), (b, True, False), (a, False, True)][k]


def spread(eng, a, b):
    """(shape, index map of a, index map of b)"""
    n = max(len(a.shape), len(b.shape))
    pa, pb = n - len(a.shape), n - len(b.shape)
    shape, ma, mb = [], [], []
    for i in range(n):
        if i < pa:
            shape.append(b.shape[i - pb])
            mb.append((i, False))
        elif i < pb:
            shape.append(a.shape[i - pa])
            ma.append((i, False))
        else:
            d, xa, xb = dim(eng, a.shape[i - pa], b.shape[i - pb])
            shape.append(d)
            ma.append((i, xa))
            mb.append((i, xb))
    pick = lambda m: lambda ix: [IntVal(0) if z else ix[i] for i, z in m]
    return shape, pick(ma), pick(mb)


def elementwise(eng, a, b, f, indtype, dtype):
    a, b = arr(eng, a), arr(eng, b)
    shape, pa, pb = spread(eng, a, b)
    return res(shape, lambda *ix: simplify(f(val(a, pa(ix), indtype), val(b, pb(ix), indtype))), dtype)


def nonzero(eng, a, what):
    ix = [fresh_int("z") for _ in a.shape]
    d = simplify(val(a, ix, "real"))
    if num(d) and d.as_fraction() != 0 or leafnum(d) and all(v != 0 for v in leaves(d)):
        return
    g = Implies(And([And(0 <= i, i < s) for i, s in zip(ix, a.shape)]), d != 0)
    for f in sums(eng).facts([g]):
        eng.assume(f)
    if not eng.entails(g):
        U("%s by an array that may hold zeros" % what)


def binop(eng, op, a, b):
    a, b = arr(eng, a), arr(eng, b)
    bb = a.dtype == "bool" and b.dtype == "bool"
    if isinstance(op, ast.MatMult):
        return matmul(eng, a, b)
    if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
        if not bb:
            U("bit operation on numbers")
        f = {ast.BitAnd: lambda x, y: And(x, y), ast.BitOr: lambda x, y: Or(x, y), ast.BitXor: lambda x, y: Xor(x, y)}[type(op)]
        return elementwise(eng, a, b, f, "bool", "bool")
    if isinstance(op, ast.Add):
        if bb:
            return elementwise(eng, a, b, lambda x, y: Or(x, y), "bool", "bool")
        return elementwise(eng, a, b, lambda x, y: lift(lambda p, q: p + q, x, y), "real", "real")
    if isinstance(op, ast.Sub):
        if bb:
            bad("TypeError")
        return elementwise(eng, a, b, lambda x, y: lift(lambda p, q: p - q, x, y), "real", "real")
    if isinstance(op, ast.Mult):
        if bb:
            return elementwise(eng, a, b, lambda x, y: And(x, y), "bool", "bool")
        return elementwise(eng, a, b, lambda x, y: lift(lambda p, q: p * q, x, y), "real", "real")
    if isinstance(op, ast.Div):
        nonzero(eng, b, "division")
        return elementwise(eng, a, b, lambda x, y: lift(lambda p, q: p / q, x, y), "real", "real")
    if isinstance(op, ast.Pow):
        if not b.shape and num(simplify(b.fn())):
            e = simplify(val(b, (), "real")).as_fraction()
            if e.denominator == 1 and 0 <= e <= 4:
                return res(a.shape, lambda *ix: prod([val(a, ix, "real")] * int(e)))
            if e == -1:
                return binop(eng, ast.Div(), VReal(RealVal(1)), a)
    U("array operator %s" % type(op).__name__)


def compare(eng, op, a, b):
    f = {ast.Eq: lambda x, y: x == y, ast.NotEq: lambda x, y: Not(x == y), ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y,
         ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}.get(type(op))
    if isinstance(op, (ast.Is, ast.IsNot)):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, VND) and isinstance(y, VObj) and y.kind == "none":
                return BoolVal(isinstance(op, ast.IsNot))
        U("identity of arrays")
    if f is None:
        U("array comparison")
    try:
        return elementwise(eng, a, b, f, "real", "bool")
    except Exception as x:
        if getattr(x, "name", None) == "ValueError" and isinstance(op, (ast.Eq, ast.NotEq)):
            U("comparison of arrays of different shapes")
        raise


def matmul(eng, a, b):
    a, b = real(arr(eng, a)), real(arr(eng, b))
    S = sums(eng)
    if not a.shape or not b.shape:
        bad("ValueError")
    va, vb = len(a.shape) == 1, len(b.shape) == 1
    if va:
        a0 = a
        a = nd([1] + a0.shape, lambda i, j: a0.fn(j))
    if vb:
        b0 = b
        b = nd(b0.shape + [1], lambda i, j: b0.fn(i))
    inner, n = a.shape[-1], b.shape[-2]
    if not same(eng, inner, n):
        if eng.choose([inner == n, inner != n], full=True) == 1:
            bad("ValueError")
    A, B_ = nd(a.shape[:-2], None), nd(b.shape[:-2], None)
    shape, pa, pb = spread(eng, A, B_)

    def fn(*ix):
        h, i, j = list(ix[:-2]), ix[-2], ix[-1]
        return S.sum(inner, lambda k: a.fn(*(pa(h) + [i, k])) * b.fn(*(pb(h) + [k, j])))
    shape = shape + [a.shape[-2], b.shape[-1]]
    if va and vb:
        return res([], lambda: fn(IntVal(0), IntVal(0)))
    if va:
        return res(shape[:-2] + shape[-1:], lambda *ix: fn(*(list(ix[:-1]) + [IntVal(0), ix[-1]])))
    if vb:
        return res(shape[:-1], lambda *ix: fn(*(list(ix) + [IntVal(0)])))
    return res(shape, fn)


def ints(eng, v):
    """A Python int, or a tuple of them, or None."""
    if v is None or isinstance(v, VObj) and v.kind == "none":
        return None
    if isinstance(v, VTup) or isinstance(v, VObj) and eng.is_list(v):
        xs = v.items if isinstance(v, VTup) else [eng.wrap(x[2]) for x in _items(eng, v)]
        return tuple(ints(eng, x) for x in xs)
    i = simplify(eng.as_int(v))
    if not is_int_value(i):
        U("axis that is not a constant")
    return i.as_long()


def _items(eng, v):
    from .lib import as_q
    from .engine import seq_items
    its = seq_items(eng.seq_of(as_q(eng, v)))
    if not all(x[0] == "one" and is_true(x[1]) for x in its):
        U("list of unknown length")
    return its


def axes_of(a, ax):
    n = len(a.shape)
    if ax is None:
        return list(range(n))
    out = []
    for x in ax if isinstance(ax, tuple) else (ax,):
        if not -n <= x < n:
            bad("AxisError")
        out.append(x % n)
    if len(set(out)) != len(out):
        bad("ValueError")
    return sorted(out)


class Args:
    """Arguments of a numpy function by name."""

    def __init__(self, eng, args, kw, *names):
        self.eng, self.v = eng, {}
        if len(args) > len(names):
            U("arguments of a numpy function")
        for n, x in zip(names, args):
            self.v[n] = x
        for n, x in kw.items():
            if n not in names or n in self.v:
                U("keyword %s of a numpy function" % n)
            self.v[n] = x

    def __getitem__(self, n):
        return self.v.get(n)

    def flag(self, n):
        x = self.v.get(n)
        if x is None:
            return False
        t = simplify(self.eng.truth_term(x))
        if not (is_true(t) or is_false(t)):
            U("flag that is not a constant")
        return is_true(t)


def reduce(eng, a, ax, keep, op, dtype_in, dtype_out):
    axes = axes_of(a, ax)
    n = len(a.shape)
    rest = [i for i in range(n) if i not in axes]
    shape = [IntVal(1) if i in axes else a.shape[i] for i in range(n)] if keep else [a.shape[i] for i in rest]

    def fn(*ix):
        free = dict(zip(range(n), ix)) if keep else dict(zip(rest, ix))

        def go(j, bound):
            if j == len(axes):
                return val(a, [bound[i] if i in bound else free[i] for i in range(n)], dtype_in)
            return op(a.shape[axes[j]], lambda k: go(j + 1, {**bound, axes[j]: k}))
        return go(0, {})
    return res(shape, fn, dtype_out)


def f_sum(eng, args, kw):
    p = Args(eng, args, kw, "a", "axis", "dtype", "out", "keepdims")
    a = arr(eng, p["a"])
    return reduce(eng, a, ints(eng, p["axis"]), p.flag("keepdims"), sums(eng).sum, "real", "real")


def f_all(eng, args, kw):
    p = Args(eng, args, kw, "a", "axis", "out", "keepdims")
    return reduce(eng, arr(eng, p["a"]), ints(eng, p["axis"]), p.flag("keepdims"), sums(eng).all, "bool", "bool")


def f_any(eng, args, kw):
    p = Args(eng, args, kw, "a", "axis", "out", "keepdims")
    a = arr(eng, p["a"])
    r = reduce(eng, nd(a.shape, lambda *ix: simplify(Not(val(a, ix, "bool"))), "bool"), ints(eng, p["axis"]),
               p.flag("keepdims"), sums(eng).all, "bool", "bool")
    return VBool(Not(r.t)) if isinstance(r, VBool) else nd(r.shape, lambda *ix: simplify(Not(r.fn(*ix))), "bool")


def f_count_nonzero(eng, args, kw):
    p = Args(eng, args, kw, "a", "axis")
    a = arr(eng, p["a"])
    b = nd(a.shape, lambda *ix: val(a, ix, "bool"), "bool")
    return reduce(eng, b, ints(eng, p["axis"]), False, sums(eng).sum, "real", "real")


def f_mean(eng, args, kw):
    U("numpy.mean")


def plain(eng, args, kw, n):
    if kw or len(args) != n:
        U("arguments of a numpy function")
    return args


def f_bin(op):
    return lambda eng, args, kw: binop(eng, op, *plain(eng, args, kw, 2))


def f_cmp(op):
    def f(eng, args, kw):
        r = compare(eng, op, *plain(eng, args, kw, 2))
        return r
    return f


def f_log(f):
    def g(eng, args, kw):
        return elementwise(eng, *plain(eng, args, kw, 2), f, "bool", "bool")
    return g


def f_not(eng, args, kw):
    a = arr(eng, plain(eng, args, kw, 1)[0])
    return res(a.shape, lambda *ix: simplify(Not(val(a, ix, "bool"))), "bool")


def f_diag(eng, args, kw):
    p = Args(eng, args, kw, "v", "k")
    a = arr(eng, p["v"])
    if p["k"] is not None and ints(eng, p["k"]) != 0:
        U("numpy.diag off the main diagonal")
    if len(a.shape) == 1:
        return nd(a.shape * 2, lambda i, j: simplify(If(i == j, val(a, [i], "real"), RealVal(0))))
    if len(a.shape) == 2:
        return diagonal(eng, a, 0, 1)
    bad("ValueError")


def mindim(eng, a, b):
    return a if same(eng, a, b) else simplify(If(a <= b, a, b))


def diagonal(eng, a, x, y):
    n = len(a.shape)
    rest = [i for i in range(n) if i not in (x, y)]

    def fn(*ix):
        m = dict(zip(rest, ix[:-1]))
        return a.fn(*[ix[-1] if i in (x, y) else m[i] for i in range(n)])
    return view(a, [a.shape[i] for i in rest] + [mindim(eng, a.shape[x], a.shape[y])], fn, a.dtype)


def f_diagonal(eng, args, kw):
    p = Args(eng, args, kw, "a", "offset", "axis1", "axis2")
    a = arr(eng, p["a"])
    if p["offset"] is not None and ints(eng, p["offset"]) != 0:
        U("offset of a diagonal")
    g = lambda k, d: d if p[k] is None else ints(eng, p[k]) % len(a.shape)
    return diagonal(eng, a, g("axis1", 0), g("axis2", 1))


def f_trace(eng, args, kw):
    p = Args(eng, args, kw, "a", "offset", "axis1", "axis2")
    d = f_diagonal(eng, args, kw)
    return reduce(eng, d, -1, False, sums(eng).sum, "real", "real")


def f_eye(eng, args, kw):
    p = Args(eng, args, kw, "N", "M", "k", "dtype")
    n = eng.as_int(p["N"])
    m = n if p["M"] is None or isinstance(p["M"], VObj) and p["M"].kind == "none" else eng.as_int(p["M"])
    if p["k"] is not None:
        U("numpy.eye off the main diagonal")
    return nd([n, m], lambda i, j: If(i == j, RealVal(1), RealVal(0)))


def f_identity(eng, args, kw):
    p = Args(eng, args, kw, "n", "dtype")
    return f_eye(eng, [p["n"]], {})


def shape_of(eng, v):
    if isinstance(v, VTup):
        xs = [eng.as_int(x) for x in v.items]
    elif isinstance(v, VObj) and eng.is_list(v):
        xs = [eng.as_int(eng.wrap(x[2])) for x in _items(eng, v)]
    else:
        xs = [eng.as_int(v)]
    for x in xs:
        if not eng.entails(x >= 0):
            if eng.choose([x >= 0, x < 0], full=True) == 1:
                bad("ValueError")
    return xs


def f_const(c):
    def f(eng, args, kw):
        p = Args(eng, args, kw, "shape", "dtype", "order")
        return nd(shape_of(eng, p["shape"]), lambda *ix: RealVal(c))
    return f


def f_const_like(c):
    def f(eng, args, kw):
        p = Args(eng, args, kw, "a", "dtype")
        return nd(arr(eng, p["a"]).shape, lambda *ix: RealVal(c))
    return f


def f_full(eng, args, kw):
    p = Args(eng, args, kw, "shape", "fill_value", "dtype")
    x = arr(eng, p["fill_value"])
    if x.shape:
        U("numpy.full of an array")
    return nd(shape_of(eng, p["shape"]), lambda *ix: x.fn(), x.dtype)


def f_where(eng, args, kw):
    c, a, b = [arr(eng, x) for x in plain(eng, args, kw, 3)]
    s1, pa, pb = spread(eng, a, b)
    ab = nd(s1, None)
    s2, pc, pab = spread(eng, c, ab)
    dt = "bool" if a.dtype == b.dtype == "bool" else "real"
    return res(s2, lambda *ix: simplify(If(val(c, pc(ix), "bool"), val(a, pa(pab(ix)), dt), val(b, pb(pab(ix)), dt))), dt)


def f_transpose(eng, args, kw):
    p = Args(eng, args, kw, "a", "axes")
    a = arr(eng, p["a"])
    ax = ints(eng, p["axes"])
    return transpose(a, ax)


def transpose(a, ax):
    n = len(a.shape)
    ax = tuple(reversed(range(n))) if ax is None else tuple(x % n for x in ax)
    if sorted(ax) != list(range(n)):
        bad("ValueError")
    inv = [ax.index(i) for i in range(n)]
    return view(a, [a.shape[x] for x in ax], lambda *ix: a.fn(*[ix[inv[i]] for i in range(n)]), a.dtype)


def f_swapaxes(eng, args, kw):
    p = Args(eng, args, kw, "a", "axis1", "axis2")
    a = arr(eng, p["a"])
    x, y = ints(eng, p["axis1"]) % len(a.shape), ints(eng, p["axis2"]) % len(a.shape)
    o = list(range(len(a.shape)))
    o[x], o[y] = o[y], o[x]
    return transpose(a, tuple(o))


def f_dot(eng, args, kw):
    a, b = [arr(eng, x) for x in plain(eng, args, kw, 2)]
    if not a.shape or not b.shape:
        return binop(eng, ast.Mult(), a, b)
    if len(a.shape) > 2 or len(b.shape) > 2:
        U("numpy.dot of more than two dimensions")
    return matmul(eng, a, b)


def f_matmul(eng, args, kw):
    return matmul(eng, *plain(eng, args, kw, 2))


def f_outer(eng, args, kw):
    a, b = [real(arr(eng, x)) for x in plain(eng, args, kw, 2)]
    if len(a.shape) != 1 or len(b.shape) != 1:
        U("numpy.outer of matrices")
    return nd(a.shape + b.shape, lambda i, j: a.fn(i) * b.fn(j))


def f_einsum(eng, args, kw):
    if kw:
        U("keyword of numpy.einsum")
    k = lit_of(args[0].t) if isinstance(args[0], VObj) else None
    if not k or k[0] != "str":
        U("numpy.einsum with a computed subscript")
    s = k[1].replace(" ", "")
    if "." in s:
        U("numpy.einsum with an ellipsis")
    xs = [real(arr(eng, x)) for x in args[1:]]
    if "->" in s:
        ins, out = s.split("->")
    else:
        ins = s
        cs = ins.replace(",", "")
        out = "".join(sorted(c for c in set(cs) if cs.count(c) == 1))
    ins = ins.split(",")
    if len(ins) != len(xs) or any(len(i) != len(x.shape) for i, x in zip(ins, xs)):
        bad("ValueError")
    dims = {}
    for i, x in zip(ins, xs):
        for c, d in zip(i, x.shape):
            if c in dims and not same(eng, dims[c], d):
                if eng.choose([dims[c] == d, dims[c] != d], full=True) == 1:
                    U("numpy.einsum of axes of different length")
            dims.setdefault(c, d)
    S = sums(eng)
    bound = [c for c in dims if c not in out]

    def fn(*ix):
        def go(j, m):
            if j == len(bound):
                return simplify(prod([x.fn(*[m[c] for c in i]) for i, x in zip(ins, xs)]))
            return S.sum(dims[bound[j]], lambda k: go(j + 1, {**m, bound[j]: k}))
        return go(0, dict(zip(out, ix)))
    return res([dims[c] for c in out], fn)


def f_apply_along(eng, args, kw):
    p = Args(eng, args, kw, "func1d", "axis", "arr")
    a, ax = arr(eng, p["arr"]), ints(eng, p["axis"])
    n = len(a.shape)
    ax %= n
    rest = [i for i in range(n) if i != ax]
    for i in rest:
        d = a.shape[i]
        if not eng.entails(d >= 1):
            if eng.choose([d >= 1, d < 1], full=True) == 1:
                bad("ValueError")           # numpy: any iteration dimension is 0
    e = [fresh_int("row") for _ in rest]
    for x, i in zip(e, rest):
        eng.assume(And(0 <= x, x < a.shape[i]))

    def row(k):
        m = dict(zip(rest, e))
        m[ax] = k
        return a.fn(*[m[i] for i in range(n)])
    r = eng.call(p["func1d"], [nd([a.shape[ax]], row, a.dtype)], {})
    r = arr(eng, r)
    if any(occurs(x, d) for d in r.shape for x in e):
        U("rows of different length")
    before, after = [i for i in rest if i < ax], [i for i in rest if i > ax]
    nb = len(before)

    def fn(*ix):
        rows = list(ix[:nb]) + list(ix[nb + len(r.shape):])
        return substitute(r.fn(*ix[nb:nb + len(r.shape)]), *zip(e, rows)) if rows else r.fn(*ix)
    return res([a.shape[i] for i in before] + list(r.shape) + [a.shape[i] for i in after], fn, r.dtype)


def f_expand(eng, args, kw):
    p = Args(eng, args, kw, "a", "axis")
    a, ax = arr(eng, p["a"]), ints(eng, p["axis"])
    ax %= len(a.shape) + 1
    return view(a, a.shape[:ax] + [1] + a.shape[ax:], lambda *ix: a.fn(*(ix[:ax] + ix[ax + 1:])), a.dtype)


def f_squeeze(eng, args, kw):
    p = Args(eng, args, kw, "a", "axis")
    a, ax = arr(eng, p["a"]), ints(eng, p["axis"])
    if not isinstance(ax, int):
        U("numpy.squeeze of all axes")
    ax %= len(a.shape)
    if not same(eng, a.shape[ax], IntVal(1)):
        bad("ValueError")
    return view(a, a.shape[:ax] + a.shape[ax + 1:], lambda *ix: a.fn(*(list(ix[:ax]) + [IntVal(0)] + list(ix[ax:]))), a.dtype)


def f_same(eng, args, kw):
    p = Args(eng, args, kw, "a", "dtype", "copy")
    return p["a"] if isinstance(p["a"], VND) else arr(eng, p["a"])


def f_astype(eng, args, kw):
    p = Args(eng, args, kw, "a", "dtype", "copy")
    a, d = arr(eng, p["a"]), p["dtype"]
    n = d.name.split(".")[-1] if isinstance(d, VExt) else d.c if isinstance(d, VCls) and isinstance(d.c, str) else \
        (lit_of(d.t) or ("", ""))[1] if isinstance(d, VObj) else ""
    if n.startswith("float") or n == "double" or n.startswith("int") and a.dtype == "bool":
        return nd(a.shape, lambda *ix: val(a, ix, "real"))
    if n.startswith("bool"):
        return nd(a.shape, lambda *ix: val(a, ix, "bool"), "bool")
    U("conversion of an array to %s" % n)


def f_abs(eng, args, kw):
    a = real(arr(eng, plain(eng, args, kw, 1)[0]))
    return res(a.shape, lambda *ix: simplify(If(a.fn(*ix) < 0, -a.fn(*ix), a.fn(*ix))))


def f_neg(eng, args, kw):
    a = arr(eng, plain(eng, args, kw, 1)[0])
    if a.dtype == "bool":
        bad("TypeError")
    return res(a.shape, lambda *ix: simplify(-a.fn(*ix)))


def f_array_equal(eng, args, kw):
    a, b = [arr(eng, x) for x in plain(eng, args, kw, 2)]
    if len(a.shape) != len(b.shape):
        return VBool(False)
    eqs = [x == y for x, y in zip(a.shape, b.shape) if not same(eng, x, y)]
    if eqs and eng.choose([And(eqs), Not(And(eqs))], full=True) == 1:
        return VBool(False)
    r = nd(a.shape, lambda *ix: simplify(val(a, ix, "real") == val(b, ix, "real")), "bool")
    return f_all(eng, [r], {})


def f_tile(eng, args, kw):
    U("numpy.tile")


def f_stack(eng, args, kw):
    p = Args(eng, args, kw, "arrays", "axis")
    if p["axis"] is not None and ints(eng, p["axis"]) != 0:
        a = from_seq(eng, p["arrays"])
        ax = ints(eng, p["axis"]) % len(a.shape)
        o = list(range(1, len(a.shape)))
        o.insert(ax, 0)
        return transpose(a, tuple(o))
    return from_seq(eng, p["arrays"])


FUN = {"sum": f_sum, "all": f_all, "any": f_any, "count_nonzero": f_count_nonzero, "diag": f_diag, "diagonal": f_diagonal,
       "trace": f_trace, "eye": f_eye, "identity": f_identity, "zeros": f_const(0), "ones": f_const(1),
       "zeros_like": f_const_like(0), "ones_like": f_const_like(1), "full": f_full, "where": f_where, "transpose": f_transpose,
       "swapaxes": f_swapaxes, "dot": f_dot, "matmul": f_matmul, "outer": f_outer, "einsum": f_einsum,
       "apply_along_axis": f_apply_along, "expand_dims": f_expand, "squeeze": f_squeeze, "asarray": f_same, "astype": f_astype,
       "abs": f_abs, "absolute": f_abs, "negative": f_neg, "array_equal": f_array_equal, "stack": f_stack,
       "add": f_bin(ast.Add()), "subtract": f_bin(ast.Sub()), "multiply": f_bin(ast.Mult()), "divide": f_bin(ast.Div()),
       "true_divide": f_bin(ast.Div()), "equal": f_cmp(ast.Eq()), "not_equal": f_cmp(ast.NotEq()), "less": f_cmp(ast.Lt()),
       "greater": f_cmp(ast.Gt()), "less_equal": f_cmp(ast.LtE()), "greater_equal": f_cmp(ast.GtE()),
       "logical_and": f_log(lambda x, y: And(x, y)), "logical_or": f_log(lambda x, y: Or(x, y)),
       "logical_xor": f_log(lambda x, y: Xor(x, y)), "logical_not": f_not, "invert": f_not}
METH = {"sum", "all", "any", "diagonal", "trace", "transpose", "swapaxes", "dot", "astype", "squeeze"}


def call(eng, n, args, kw):
    f = FUN.get(n)
    return f(eng, args, kw) if f else None


def method(eng, v, name, args, kw):
    if name == "copy":
        return nd(v.shape, v.fn, v.dtype)
    if name == "transpose" and args and not isinstance(args[0], VTup):
        return transpose(v, tuple(ints(eng, x) for x in args))
    if name == "reshape":
        U("reshape")
    if name not in METH:
        U("array method %s" % name)
    return FUN[name](eng, [v] + list(args), kw)


def getitem(eng, o, k):
    ks = list(k.items) if isinstance(k, VTup) else [k]
    isnone = lambda x: isinstance(x, VObj) and x.kind == "none"
    isdots = lambda x: isinstance(x, VExt) and x.name == "builtins.Ellipsis"
    real_ = sum(1 for x in ks if not isnone(x) and not isdots(x))
    if any(isinstance(x, VND) for x in ks):
        U("array indexed by an array")
    if real_ > len(o.shape):
        bad("IndexError")
    full = VSlice(None, None, None)
    if any(isdots(x) for x in ks):
        i = [isdots(x) for x in ks].index(True)
        ks = ks[:i] + [full] * (len(o.shape) - real_) + ks[i + 1:]
    else:
        ks = ks + [full] * (len(o.shape) - real_)
    shape, maps, ax = [], [], 0
    for x in ks:
        if isnone(x):
            shape.append(IntVal(1))
            continue
        d = o.shape[ax]
        ax += 1
        if isinstance(x, VSlice):
            st = x.step
            if st is not None and not isnone(st):
                if simplify(eng.as_int(st)).eq(IntVal(-1)) and (x.lo is None or isnone(x.lo)) and (x.hi is None or isnone(x.hi)):
                    maps.append(("rev", len(shape), d))
                    shape.append(d)
                    continue
                if not simplify(eng.as_int(st)).eq(IntVal(1)):
                    U("array slice with a step")
            lo = IntVal(0) if x.lo is None or isnone(x.lo) else bound(eng, eng.as_int(x.lo), d)
            hi = d if x.hi is None or isnone(x.hi) else bound(eng, eng.as_int(x.hi), d)
            maps.append(("at", len(shape), lo))
            n = simplify(hi - lo)
            shape.append(n if eng.entails(n >= 0) else simplify(If(n >= 0, n, 0)))
            continue
        i = eng.as_int(x)
        c = inrange(eng, i, d)
        maps.append(("fix", None, i if c == 0 else simplify(i + d)))

    def fn(*ix):
        return o.fn(*[x if m == "fix" else simplify(x - 1 - ix[p]) if m == "rev" else simplify(ix[p] + x) for m, p, x in maps])
    return view(o, shape, fn, o.dtype)


def bound(eng, i, d):
    i = simplify(i)
    if is_int_value(i) and i.as_long() == 0:
        return i
    return simplify(If(i < 0, If(i + d < 0, 0, i + d), If(i > d, d, i)))


# ---------------------------------------------------------------------- loops
def decls(t):
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if is_app(x):
            out.add(x.decl().name())
        todo.extend(x.children())
    return out


def closed_forms(eng, st0, M, h, outs, src):
    """Locals a loop sums up or fills in element by element: what they are before iteration i, as a function of i."""
    from .engine import ContinueSig
    live = [o for o in outs if o.sig is None or isinstance(o.sig, ContinueSig)]
    if len(live) != 1 or src.idx not in h.ghost:
        return {}
    o, i, out = live[0], h.ghost[src.idx], {}
    mine = [m for m in M if m[0] == "l" and isinstance(h.frames[m[1]].get(m[2]), (VND, VReal))]
    ix = {}
    changing = set()
    for m in mine:
        X = h.frames[m[1]][m[2]]
        if isinstance(X, VND):
            changing |= decls(X.fn(*[fresh_int("cf") for _ in X.shape]))
        else:
            changing |= decls(X.t)
    changing = {n for n in changing if "!" in n}
    S = None
    for m in mine:
        X, Y, X0 = h.frames[m[1]][m[2]], o.st.frames[m[1]].get(m[2]), st0.frames[m[1]].get(m[2])
        if X0 is None or Y is None:
            continue
        if isinstance(X, VReal):
            if not isinstance(Y, (VReal, VInt)) or not isinstance(X0, (VReal, VInt)):
                continue
            js, x, y, x0 = [], X.t, eng.as_real(Y), lambda X0=X0: eng.as_real(X0)
        else:
            if not isinstance(Y, VND) or not isinstance(X0, VND) or Y.dtype != X.dtype or len(Y.shape) != len(X.shape) or \
                    not all(simplify(a).eq(simplify(b)) for a, b in zip(X.shape, Y.shape)):
                continue
            js = [fresh_int("cf") for _ in X.shape]
            x, y, x0 = X.fn(*js), Y.fn(*js), X0.fn
        f = form(eng, h, i, src.n, js, x, simplify(y), x0, changing)
        if f is None:
            continue
        if isinstance(X, VReal):
            out[m] = lambda k, f=f: VReal(simplify(f(k)))
        else:
            out[m] = lambda k, f=f, X=X: nd(X.shape, lambda *jx: simplify(f(k, *jx)), X.dtype)
    return out


def form(eng, h, i, n, js, x, y, x0, changing):
    def free(t):
        return not (decls(t) & changing) and not eng.foreign(t, h, None, i, None)
    S = sums(eng)
    if x.sort() == R:
        g = simplify(y - x, som=True)
        if free(g):
            return lambda k, *jx: x0(*jx) + S.sum(k, lambda e: substitute(g, (i, e), *zip(js, jx)))
    if isite(y):
        c, a, b = y.children()
        if is_not(c):
            c, a, b = c.arg(0), b, a
        if b.eq(x) and free(a) and free(c):
            cs = list(c.children()) if is_and(c) else [c]
            for p, e in enumerate(cs):
                if not is_eq(e):
                    continue
                for u, v in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                    if v.eq(i) and any(u.eq(j) for j in js):
                        rest = And(cs[:p] + cs[p + 1:]) if len(cs) > 1 else BoolVal(True)

                        def fn(k, *jx, u=u, rest=rest):
                            at = jx[[u.eq(j) for j in js].index(True)]
                            sub = lambda t: substitute(substitute(t, (i, u)), *zip(js, jx))
                            return If(And(0 <= at, at < k, sub(rest)), sub(a), x0(*jx))
                        return fn
    return None

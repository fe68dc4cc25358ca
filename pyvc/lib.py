"""Model of the builtins and library calls the repository uses (trusted: see DESIGN.md, 'library model')."""
import ast

from .theory import *
from .values import *
from . import engine as E
from . import nd

BUILTINS = {"len", "isinstance", "str", "int", "float", "bool", "bytes", "list", "dict", "tuple", "set", "frozenset",
            "filter", "map", "zip", "range", "enumerate", "reversed", "iter", "next", "min", "max", "any", "all", "sum",
            "print", "id", "type", "object", "abs", "sorted", "callable", "hasattr", "getattr", "repr", "slice", "hash",
            "super", "property", "staticmethod", "anext", "aiter", "setattr"}
EXC_BASES = {"KeyError": ("LookupError", "Exception"), "IndexError": ("LookupError", "Exception"),
             "ValueError": ("Exception",), "TypeError": ("Exception",), "AttributeError": ("Exception",),
             "NotImplementedError": ("RuntimeError", "Exception"), "RuntimeError": ("Exception",),
             "StopIteration": ("Exception",), "ZeroDivisionError": ("ArithmeticError", "Exception"),
             "NameError": ("Exception",), "AssertionError": ("Exception",), "LookupError": ("Exception",),
             "ArithmeticError": ("Exception",), "StopAsyncIteration": ("Exception",), "Exception": ("BaseException",),
             "BaseException": ()}
EXC_NAMES = set(EXC_BASES)

ndarr = Function("ndarr", V, V)          # a small numpy array, by its contents
sfun = {}                                # uninterpreted pure string functions
PI = Real("pi!")
catb = Function("catb", V, V, V)
DQ = "f:$dq"


def strfn(name, *sorts):
    if name not in sfun:
        sfun[name] = Function("str_" + name, *sorts)
    return sfun[name]


def U(msg):
    raise E.Unsupported(msg)


# ---------------------------------------------------------------------- attributes of builtin objects
METHODS = {
    "list": {"append", "extend", "insert", "pop", "remove", "index", "copy", "clear", "count", "reverse", "sort"},
    "dict": {"get", "pop", "keys", "values", "items", "update", "setdefault", "clear", "copy", "popitem"},
    "set": {"add", "remove", "discard", "update", "clear", "copy", "union", "pop"},
    "str": {"join", "split", "encode", "lower", "upper", "strip", "lstrip", "rstrip", "replace", "startswith",
            "endswith", "format", "title", "capitalize", "find", "count", "isdigit", "casefold", "removeprefix",
            "removesuffix", "rsplit", "partition", "rpartition"},
    "bytes": {"decode", "hex"},
    "queue": {"put", "get", "put_nowait", "get_nowait", "empty", "task_done", "qsize", "full", "join"},
    "hash": {"update", "digest", "hexdigest"},
    "xml": {"append", "set", "get", "extend", "find", "findall", "insert"},
    "np": {"copy", "sum", "dot", "tolist"},
}


def builtin_attr(eng, v, name):
    if isinstance(v, VIter):
        if name in ("values", "keys", "items"):
            raise E.RaiseSig("AttributeError")
        if name in ("__next__", "__iter__", "close", "aclose"):
            U("generator protocol method")
        raise E.RaiseSig("AttributeError")
    if isinstance(v, VND):
        if name == "shape":
            return VTup([VInt(x) for x in v.shape])
        if name == "T":
            v.viewed = True
            return nd.transpose(v, None)
        if name == "ndim":
            return VInt(IntVal(len(v.shape)))
        if name == "size":
            return VInt(nd.prod([IntVal(1)] + list(v.shape)) if v.shape else IntVal(1))
        if name in ("dtype", "flat", "real", "imag"):
            U("array attribute %s" % name)
        return VBound(name, v)
    if v.kind == "xml":
        if name in ("tag", "text", "tail"):
            return eng.wrap_xml(eng.sel(eng.H("f:$" + name), v.t, deep=True)) if hasattr(eng, "wrap_xml") else \
                eng.wrap(eng.sel(eng.H("f:$" + name), v.t, deep=True))
        if name == "attrib":
            return VObj(eng.sel(eng.H("f:$attrib"), v.t, deep=True), kind="dict")
    if name in METHODS.get(v.kind, ()):
        return VBound(name, v)
    raise E.RaiseSig("AttributeError")


def builtin_setattr(eng, v, name, val):
    if v.kind == "xml" and name in ("text", "tail", "tag"):
        eng.setH("f:$" + name, Store(eng.H("f:$" + name), v.t, eng.box(val)))
        return
    raise E.RaiseSig("AttributeError")


def builtin_getitem(eng, o, k):
    U("item of %s" % o.kind)


def builtin_setitem(eng, o, k, v):
    U("item assignment on %s" % o.kind)


def ext_attr(eng, v, name):
    n = v.name
    if n == "exc":
        U("attribute of an exception")
    if n == "math" and name == "pi":
        return VReal(PI)
    if n == "builtins.dict" and name == "fromkeys" or n == "builtins.object" and name.startswith("__"):
        U("%s.%s" % (n, name))
    full = "%s.%s" % (n, name)
    if full in ("numpy.pi",):
        return VReal(PI)
    if full == "numpy.newaxis":
        return VNone
    return VExt(full)


# ---------------------------------------------------------------------- iterators
def viter(run, what, reiter=False, seq=None):
    it = VIter(run, what)
    it.reiter, it.seq = reiter, seq
    return it


def seq_iter(q, what, wrapf=None):
    """An iterator over a sequence given as a Q term."""
    def run(eng, handler):
        eng.iterate_seq(eng.seq_of(q), (lambda v: handler(wrapf(v))) if wrapf else handler)
    it = viter(run, what, seq=q)
    return it


def guard_call(eng, f, v):
    """Truth of f(v) as one condition if f is pure."""
    if isinstance(f, VObj) and f.kind == "none":
        return eng.truth(v)
    if eng.mergedepth < 3:
        eng.mergedepth += 1
        try:
            c = eng.merged(lambda: eng.call(f, [v]))
        except E.Unsupported:
            c = None
        finally:
            eng.mergedepth -= 1
        if c is not None:
            return eng.branch(c)
    return eng.truth(eng.call(f, [v]))


def do_filter(eng, f, it):
    def run(eng, handler):
        def h(v):
            if guard_call(eng, f, v):
                handler(v)
        eng.iterate(it, h)
    return viter(run, "filter")


def do_map(eng, f, its):
    if len(its) == 1:
        def run(eng, handler):
            eng.iterate(its[0], lambda v: handler(eng.call(f, [v])))
        return viter(run, "map")
    z = do_zip(eng, its)

    def run2(eng, handler):
        eng.iterate(z, lambda v: handler(eng.call(f, list(v.items))))
    return viter(run2, "map")


def as_q(eng, it):
    """Contents of an iterable, as a Q term (consumes iterators)."""
    if isinstance(it, VTup):
        q = qnil
        for x in it.items:
            q = qapp(q, eng.box(x))
        return q
    if isinstance(it, VObj) and (it.kind == "list" or it.kind is None and eng.entails(cls(it.t) == C_LIST)):
        return eng.content(VObj(it.t, kind="list"))
    return eng.content(eng.to_list(it))


def q_len(eng, q):
    its = seq_items(eng.seq_of(q))
    if all(x[0] == "one" and is_true(x[1]) for x in its):
        return IntVal(len(its))
    if len(its) == 1 and its[0][0] == "loop":
        b = its[0][4]
        if len(b) == 1 and b[0][0] == "one" and is_true(simplify(b[0][1])):
            return simplify(If(its[0][2] > 0, its[0][2], IntVal(0)))
    return qlen(q)


def do_zip(eng, its):
    def run(eng, handler):
        qs = [as_q(eng, x) for x in its]
        ns = [q_len(eng, q) for q in qs]
        n = ns[0]
        for m in ns[1:]:
            if not (n.eq(m) or eng.entails(n == m)):
                n = m if eng.entails(m < n) else (n if eng.entails(n <= m) else If(n < m, n, m))
        src = E.Src(n, "i", seq=qs[0])
        eng.indexed_loop(n, lambda i: handler(VTup([elem(eng, q, i) for q in qs])),
                         ("zip",) + tuple(q.get_id() for q in qs), src)
    return viter(run, "zip")


def elem(eng, q, i):
    s = seq_items(eng.seq_of(q))
    if len(s) == 1 and s[0][0] == "loop" and is_true(simplify(s[0][1])):
        b = s[0][4]
        if len(b) == 1 and b[0][0] == "one" and is_true(simplify(b[0][1])):
            return eng.wrap(substitute(b[0][2], (s[0][3], i)))
    return eng.list_elem(q, i)


def do_range(eng, args):
    a = [eng.as_int(x) for x in args]
    lo, hi, st = (IntVal(0), a[0], IntVal(1)) if len(a) == 1 else (a + [IntVal(1)])[:3]
    st = simplify(st)
    if not is_int_value(st):
        U("range with symbolic step")
    s = st.as_long()
    if s == 0:
        raise E.RaiseSig("ValueError")
    if s > 0:
        n = simplify((hi - lo + (s - 1)) / s) if s != 1 else simplify(hi - lo)
    else:
        n = simplify((lo - hi + (-s - 1)) / (-s)) if s != -1 else simplify(lo - hi)
    nn = simplify(If(n > 0, n, IntVal(0)))
    if eng.entails(n >= 0):
        nn = n

    def run(eng, handler):
        eng.indexed_loop(nn, lambda i: handler(VInt(simplify(lo + i * s))),
                         ("range", lo.get_id(), hi.get_id(), s), E.Src(nn, "i"))
    it = viter(run, "range", reiter=True)
    it.n = nn
    return it


def do_enumerate(eng, args):
    start = eng.as_int(args[1]) if len(args) > 1 else IntVal(0)

    def run(eng, handler):
        it = args[0]
        if isinstance(it, VIter) and getattr(it, "dictview", None):
            d, what = it.dictview
            return eng.iterate_dict(d, what, lambda v: handler(v), index=lambda i, v: VTup([VInt(simplify(start + i)), v]))
        q = as_q(eng, it)
        n = q_len(eng, q)
        eng.indexed_loop(n, lambda i: handler(VTup([VInt(simplify(start + i)), elem(eng, q, i)])),
                         ("enum", q.get_id()), E.Src(n, "i", seq=q))
    return viter(run, "enumerate")


def dictview(eng, d, what):
    it = viter(lambda eng, handler: eng.iterate_dict(d, what, handler), "dict" + what, reiter=True)
    it.dictview = (d, what)
    return it


def shared_default(eng, fi, p, node):
    """A mutable default value: one object, shared by all calls."""
    t = Const("default!%s.%s" % (fi.qual, p), V)
    eng.params.add(t.decl().name())
    eng.assume(birth(t) < 0)
    src = ast.unparse(node) if isinstance(node, ast.AST) else repr(node)
    kind = {"[": "list", "{": "dict"}.get(src[0])
    if kind is None and "Queue" in src:
        kind = "queue"
        eng.qflavour = dict(getattr(eng, "qflavour", {}), **{t.decl().name(): ("a" if "asyncio" in src else "s") + ("lq" if "Lifo" in src else "q")})
        hk = getattr(eng, "on_default_queue", None)
        if hk:
            hk(eng, t)
    if kind is None:
        U("default value %s" % src)
    eng.note("the default value of %s in %s is one shared object" % (p, fi.qual))
    return VObj(t, kind=kind)


# ---------------------------------------------------------------------- containers
def new_set(eng):
    d = eng.alloc("set", C_SET, kind="set")
    for key, v in (("DD", K(V, BoolVal(False))), ("DN", IntVal(0)), ("DX", IntVal(0))):
        eng.setH(key, Store(eng.H(key), d.t, v))
    return d


def set_add(eng, s, v):
    eng.dict_set(VObj(s.t, kind="dict"), v, v)


def list_slice(eng, l, q, k):
    none = lambda x: x is None or isinstance(x, VObj) and x.kind == "none"
    if not none(k.step):
        st = simplify(eng.as_int(k.step))
        if is_int_value(st) and st.as_long() == -1 and none(k.lo) and none(k.hi):
            its = seq_items(eng.seq_of(q))
            if all(x[0] == "one" and is_true(x[1]) for x in its):
                r = qnil
                for x in reversed(its):
                    r = qapp(r, x[2])
                return eng.new_list_q(r)
            return eng.new_list_q(qrev(q))
        if not (is_int_value(st) and st.as_long() == 1):
            U("slice step")
    if none(k.lo) and none(k.hi):
        return eng.new_list_q(q)
    n = q_len(eng, q)

    def clamp(x, d):
        if none(x):
            return d
        i = eng.as_int(x)
        i = i if eng.entails(i >= 0) else If(i < 0, If(i + n < 0, IntVal(0), i + n), i)
        return simplify(i if eng.entails(i <= n) else If(i > n, n, i))
    lo, hi = clamp(k.lo, IntVal(0)), clamp(k.hi, n)
    if not eng.entails(lo <= hi):
        hi = If(hi < lo, lo, hi)
    its = seq_items(eng.seq_of(q))
    l0, h0 = simplify(lo), simplify(hi)
    if all(x[0] == "one" and is_true(x[1]) for x in its) and is_int_value(l0) and is_int_value(h0):
        r = qnil
        for x in its[l0.as_long():h0.as_long()]:
            r = qapp(r, x[2])
        return eng.new_list_q(r)
    i = Const("ix!%d" % next(E._ixs), I)
    s = SLoop(simplify(hi - lo), i, SOne(qelt(q, simplify(lo + i))))
    return eng.new_list_q(eng.seq_to_q(s))


def list_repeat(eng, l, n):
    its = seq_items(eng.seq_of(eng.content(l)))
    if len(its) != 1 or its[0][0] != "one":
        U("repetition of a list")
    i = Const("ix!%d" % next(E._ixs), I)
    return eng.new_list_q(eng.seq_to_q(SLoop(simplify(n), i, SOne(its[0][2]))))


def gather_list(eng, v):
    """asyncio.gather(*list): awaits everything in the list."""
    def run():
        eng.note("gathered coroutines run in the order given (queues without limit never make them wait)")
        h = getattr(eng, "on_gather", None)
        if h is not None:
            return h(eng, v)
        q = as_q(eng, v)
        out = eng.new_list([])

        def one(x):
            eng.list_append(out, eng.await_(x))
        eng.iterate_seq(eng.seq_of(q), one)
        return out
    return VCoro(run, "gather")


# ---------------------------------------------------------------------- queues
def flavour(eng, q):
    n = q.t.decl().name() if is_const(q.t) else None
    return getattr(eng, "qflavour", {}).get(n) or getattr(q, "flavour", None) or "aq"


def new_queue(eng, fl):
    c = {"aq": C_QUEUE, "alq": C_LIFO, "sq": C_DEQUE, "slq": C_LIFO}[fl]
    q = eng.alloc("queue", c, kind="queue")
    if not hasattr(eng, "qflavour"):
        eng.qflavour = {}
    eng.qflavour[q.t.decl().name()] = fl
    s = eng.alloc("deque", C_DEQUE)
    eng.setH(DQ, Store(eng.H(DQ), q.t, s.t))
    eng.setH("QL", Store(eng.H("QL"), s.t, IntVal(0)))
    eng.setH("QH", Store(eng.H("QH"), s.t, IntVal(0)))
    return q


def dq(eng, q):
    return eng.sel(eng.H(DQ), q.t, deep=True)


def q_bounds(eng, s):
    return eng.sel(eng.H("QH"), s, deep=True), eng.sel(eng.H("QL"), s, deep=True)


def q_put(eng, q, v):
    s = dq(eng, q)
    h, t = q_bounds(eng, s)
    eng.setH("QE", Store(eng.H("QE"), s, Store(eng.sel(eng.H("QE"), s, deep=True), t, eng.box(v))))
    eng.setH("QL", Store(eng.H("QL"), s, simplify(t + 1)))
    hk = getattr(eng, "on_put", None)
    if hk:
        hk(eng, q, s, t, eng.box(v))


def q_get(eng, q):
    s = dq(eng, q)
    h, t = q_bounds(eng, s)
    eng.oblige(h < t, "get is only called when the queue is not empty (it would block forever)", ("safety",))
    lifo = flavour(eng, q) in ("alq", "slq")
    i = simplify(t - 1) if lifo else h
    arr = eng.sel(eng.H("QE"), s, deep=True)
    v = eng.sel(arr, i)
    if is_app(v) and v.decl().kind() == Z3_OP_SELECT:
        eng.known(v)
    if lifo:
        eng.setH("QL", Store(eng.H("QL"), s, simplify(t - 1)))
    else:
        eng.setH("QH", Store(eng.H("QH"), s, simplify(h + 1)))
    hk = getattr(eng, "on_get", None)
    if hk:
        r = hk(eng, q, s, i, v)
        if r is not None:
            return r
    return eng.wrap(v)


def intrinsic(eng, st, M):
    """Facts that hold for containers in every state (maintained by the operations themselves)."""
    out = []
    ks = {m[1] for m in M if m[0] == "h"}
    out += container_facts(eng, st, ks)
    return out


def container_facts(eng, st, ks):
    out = []
    d, k, k2 = Const("d!", V), Const("k!", V), Const("k2!", V)
    if ks & {"DD", "DS", "DN", "DX"}:
        DD, DS, DN, DX = (eng.H(x, st) for x in ("DD", "DS", "DN", "DX"))
        out.append(FA([d], And(DN[d] >= 0, DX[d] >= 0), DN[d]))
        out.append(FA([d], And(DN[d] >= 0, DX[d] >= 0), DX[d]))
        out.append(FA([d, k], Implies(DD[d][k], And(0 <= DS[d][k], DS[d][k] < DX[d], DN[d] >= 1)), DS[d][k]))
        out.append(FA([d, k], Implies(DD[d][k], And(0 <= DS[d][k], DS[d][k] < DX[d], DN[d] >= 1)), DD[d][k]))
        out.append(FA([d, k, k2], Implies(And(DD[d][k], DD[d][k2], k != k2), DS[d][k] != DS[d][k2]),
                      (ORD(d, k), ORD(d, k2))))
    # fields that were never written hold whatever suits: nobody can read them
    e = Const("e!", V)
    for f in eng.owned:
        if "f:" + f in ks:
            A = eng.H("f:" + f, st)
            out.append(FA([e], And(cls(A[e]) == C_DICT, own(A[e]) == e, okey(A[e]) == lit("field", f),
                                   birth(A[e]) < st.now), A[e]))
    if eng.blank_parent and "f:_parent" in ks:
        A = eng.H("f:_parent", st)
        out.append(FA([e], Implies(birth(e) >= st.now, A[e] == NONE), A[e]))
    if ks & {"QL", "QH"}:
        QL, QH = eng.H("QL", st), eng.H("QH", st)
        out.append(FA([d], And(0 <= QH[d], QH[d] <= QL[d]), QL[d]))
        out.append(FA([d], And(0 <= QH[d], QH[d] <= QL[d]), QH[d]))
    return out


# ---------------------------------------------------------------------- methods of builtin objects
def absent(kwargs, *ok):
    for k in kwargs:
        if k not in ok:
            U("keyword %s" % k)


def call_builtin_method(eng, v, name, args, kw):
    if isinstance(v, VND):
        return nd_method(eng, v, name, args, kw)
    k = v.kind
    if k == "list":
        absent(kw)
        return list_method(eng, v, name, args)
    if k == "dict":
        return dict_method(eng, v, name, args, kw)
    if k == "set":
        absent(kw)
        d = VObj(v.t, kind="dict")
        if name == "add":
            set_add(eng, v, args[0])
            return VNone
        if name == "discard":
            eng.dict_pop(d, args[0], VNone)
            return VNone
        if name == "remove":
            eng.dict_pop(d, args[0])
            return VNone
        if name == "update":
            eng.iterate(args[0], lambda x: set_add(eng, v, x))
            return VNone
        if name == "clear":
            return dict_method(eng, d, "clear", [], {})
        U("set.%s" % name)
    if k == "str":
        return str_method(eng, v, name, args, kw)
    if k == "bytes":
        if name == "decode":
            t = v.t
            if is_app(t) and t.decl().eq(utf8):
                return VObj(t.arg(0), kind="str")
            return VObj(unutf8(t), kind="str")
        return VObj(strfn("bytes_hex", V, V)(v.t), kind="str")
    if k == "queue":
        absent(kw)
        fl = flavour(eng, v)
        asy = fl in ("aq", "alq")
        if name in ("put_nowait",) or name == "put" and not asy:
            q_put(eng, v, args[0])
            return VNone
        if name == "put":
            return VCoro(lambda: (q_put(eng, v, args[0]), VNone)[1], "put")
        if name == "get_nowait" or name == "get" and not asy:
            return q_get(eng, v)
        if name == "get":
            return VCoro(lambda: q_get(eng, v), "get")
        if name == "empty":
            h, t = q_bounds(eng, dq(eng, v))
            return VBool(simplify(h >= t))
        if name == "qsize":
            h, t = q_bounds(eng, dq(eng, v))
            return VInt(simplify(t - h))
        if name == "task_done":
            eng.note("the unfinished-task counter of asyncio queues is not modelled (task_done never fails)")
            return VNone
        if name == "full":
            return VBool(False)
        U("queue.%s" % name)
    if k == "hash":
        if name == "update":
            old = eng.sel(eng.H("f:$hash"), v.t, deep=True)
            new = eng.box(args[0])
            e = lit("bytes", b"")
            eng.setH("f:$hash", Store(eng.H("f:$hash"), v.t, new if old.eq(e) else catb(old, new)))
            return VNone
        d = sha(eng.sel(eng.H("f:$hash"), v.t, deep=True))
        if name == "digest":
            return VObj(d, kind="bytes")
        return VObj(strfn("bytes_hex", V, V)(d), kind="str")
    if k == "xml":
        kids = VObj(eng.sel(eng.H("f:$kids"), v.t, deep=True), kind="list")
        if name == "append":
            eng.list_append(kids, args[0])
            return VNone
        if name == "extend":
            eng.list_extend(kids, args[0])
            return VNone
        att = VObj(eng.sel(eng.H("f:$attrib"), v.t, deep=True), kind="dict")
        if name == "set":
            eng.dict_set(att, args[0], args[1])
            return VNone
        if name == "get":
            return dict_method(eng, att, "get", args, kw)
        U("xml.%s" % name)
    if k == "np":
        if name == "copy":
            return v
        U("array.%s" % name)
    U("method %s of %s" % (name, k))


def list_method(eng, v, name, args):
    if name == "append":
        eng.list_append(v, args[0])
        return VNone
    if name == "extend":
        eng.list_extend(v, args[0])
        return VNone
    if name == "copy":
        return eng.new_list_q(eng.content(v))
    if name == "clear":
        eng.set_content(v, qnil)
        return VNone
    if name == "reverse":
        eng.set_content(v, qrev(eng.content(v)))
        return VNone
    if name == "pop":
        q = eng.content(v)
        n = q_len(eng, q)
        if not args or is_int_value(simplify(eng.as_int(args[0]))) and simplify(eng.as_int(args[0])).as_long() == -1:
            if not eng.branch(n > 0):
                raise E.RaiseSig("IndexError")
            x = eng.list_elem(q, simplify(n - 1))
            eng.set_content(v, qslice(q, IntVal(0), n - 1))
            return x
        if is_int_value(simplify(eng.as_int(args[0]))) and simplify(eng.as_int(args[0])).as_long() == 0:
            if not eng.branch(n > 0):
                raise E.RaiseSig("IndexError")
            x = eng.list_elem(q, IntVal(0))
            eng.set_content(v, qslice(q, IntVal(1), n))
            return x
    U("list.%s" % name)


def dict_method(eng, v, name, args, kw):
    absent(kw)
    if name == "get":
        d = args[1] if len(args) > 1 else VNone
        c = eng.dict_has(v, args[0])
        if eng.branch(eng.simp_sel(c)):
            return eng.dict_get(v, args[0])
        return d
    if name == "pop":
        return eng.dict_pop(v, args[0], args[1] if len(args) > 1 else None)
    if name in ("keys", "values", "items"):
        return dictview(eng, v, name)
    if name == "setdefault":
        if eng.branch(eng.simp_sel(eng.dict_has(v, args[0]))):
            return eng.dict_get(v, args[0])
        d = args[1] if len(args) > 1 else VNone
        eng.dict_set(v, args[0], d)
        return d
    if name == "clear":
        eng.setH("DD", Store(eng.H("DD"), v.t, K(V, BoolVal(False))))
        eng.setH("DN", Store(eng.H("DN"), v.t, IntVal(0)))
        return VNone
    if name == "copy":
        d = eng.new_dict()
        for k in ("DD", "DV", "DS", "DN", "DX"):
            eng.setH(k, Store(eng.H(k), d.t, eng.dsel(k, v.t)))
        return d
    if name == "update":
        o = args[0]
        if isinstance(o, VObj) and o.kind == "dict":
            eng.iterate_dict(o, "items", lambda x: eng.dict_set(v, x.items[0], x.items[1]))
            return VNone
        eng.iterate(o, lambda x: eng.dict_set(v, *eng.unpack(x, 2)))
        return VNone
    U("dict.%s" % name)


def str_norm(name, t, args):
    """Methods of strings in a normal form: lower() innermost, then strip(), then the removal of characters without case.

    str.lower maps no character to or from white space or such a separator, so it commutes with both."""
    if name == "replace" and len(args) == 2 and lit_of(args[1]) == ("str", ""):
        name, args = "remove", args[:1]
    if is_app(t) and name == "lower" and not args:
        d = t.decl().name()
        if d == "lower0":
            return t
        if d == "strip0" or d == "remove1" and caseless(t.arg(1)):
            return t.decl()(str_norm("lower", t.arg(0), []), *[t.arg(i) for i in range(1, t.num_args())])
    if is_app(t) and name == "strip" and not args and t.decl().name() == "strip0":
        return t
    n = len(args)
    return strfn(name + str(n), *([V] * (n + 2)))(t, *args)


def caseless(t):
    k = lit_of(t)
    return bool(k) and k[0] == "str" and k[1].lower() == k[1].upper() and not k[1].isspace() and k[1].isascii()


def str_method(eng, v, name, args, kw):
    t = v.t
    k = lit_of(t)
    lits = [lit_of(a.t) if isinstance(a, VObj) else None for a in args]
    if k and all(x for x in lits) and name not in ("join", "encode", "format"):
        r = getattr(k[1], name)(*[x[1] for x in lits])
        return eng.pyval(list(r) if isinstance(r, tuple) else r)
    if name == "join":
        q = as_q(eng, args[0])
        its = seq_items(eng.seq_of(q))
        if all(x[0] == "one" and is_true(x[1]) for x in its):
            parts = []
            for i, x in enumerate(its):
                if i:
                    parts.append(v)
                w = eng.wrap(x[2])
                if not isinstance(w, VObj):
                    raise E.RaiseSig("TypeError")
                if w.kind != "str" and not eng.entails(cls(w.t) == C_STR):
                    if eng.choose([cls(w.t) == C_STR, cls(w.t) != C_STR], full=True) == 1:
                        raise E.RaiseSig("TypeError")
                parts.append(VObj(w.t, kind="str"))
            return eng.concat(parts)
        if lit_of(t) == ("str", "") and is_app(q) and q.decl().eq(qsplit):
            r = str_norm("replace", q.arg(0), [q.arg(1), t])
            eng.assume(cls(r) == C_STR)
            return VObj(r, kind="str")
        return VObj(qjoin(t, q), kind="str")
    if name == "split":
        if len(args) != 1:
            U("str.split with other arguments")
        return eng.new_list_q(qsplit(t, args[0].t))
    if name == "encode":
        if k:
            return VObj(lit("bytes", k[1].encode()), kind="bytes")
        return VObj(utf8(t), kind="bytes")
    if name == "format" and lit_of(t) and not kw:
        r = format_literal(eng, lit_of(t)[1], args)
        if r is not None:
            return r
    n = len(args)
    for a in args:
        if not isinstance(a, VObj):
            U("str.%s" % name)
    if name in ("startswith", "endswith", "isdigit"):
        return VBool(strfn(name + str(n), *([V] * (n + 1) + [B]))(t, *[a.t for a in args]))
    if name in ("lower", "upper", "strip", "lstrip", "rstrip", "replace", "title", "capitalize", "casefold",
                "removeprefix", "removesuffix"):
        r = str_norm(name, t, [a.t for a in args])
        eng.assume(cls(r) == C_STR)
        return VObj(r, kind="str")
    if name == "format":
        f = strfn("format%d" % n, *([V] * (n + 2)))
        return VObj(f(t, *[a.t for a in args]), kind="str")
    U("str.%s" % name)


def format_literal(eng, t, args):
    """"a {} b {1}".format(...) without format specifications."""
    import string
    parts, auto = [], 0
    for text, field, spec, conv in string.Formatter().parse(t):
        parts.append(eng.lit_str(text))
        if field is None:
            continue
        if spec or conv not in (None, "s") or field and not field.isdigit():
            return None
        i = int(field) if field else auto
        auto += 1
        if i >= len(args):
            raise E.RaiseSig("IndexError")
        parts.append(VObj(eng.str_of(args[i]), kind="str"))
    return eng.concat(parts)


# ---------------------------------------------------------------------- library functions
def call_ext(eng, name, args, kw):
    if name in ("math.radians", "math.degrees", "numpy.radians", "numpy.degrees", "numpy.deg2rad", "numpy.rad2deg"):
        f = RealVal(180) / PI if name.endswith(("degrees", "rad2deg")) else PI / RealVal(180)
        v = args[0]
        if isinstance(v, VObj) and not eng.is_list(v) and v.kind in (None, "any") and eng.branch(cls(v.t) == C_LIST):
            v = VObj(v.t, kind="list")
        if isinstance(v, (VND, VTup, VIter)) or isinstance(v, VObj) and eng.is_list(v):
            if name.startswith("math"):
                raise E.RaiseSig("TypeError")
            return nd.binop(eng, ast.Mult(), np_array(eng, [v], {}) if isinstance(v, VND) else nd.from_seq(eng, v), VReal(f))
        return VReal(eng.as_real(v) * f)
    if name in ("noop", "exc"):
        return VNone
    b = name.split(".")[-1] if name.startswith("builtins.") else None
    if b is not None:
        return call_builtin(eng, b, args, kw)
    if name in getattr(eng, "ext", {}):
        return eng.ext[name](eng, args, kw)
    if name.split(".")[-1] in ("Queue", "LifoQueue", "SimpleQueue") and (args or kw):
        if not (len(args) == 1 and not kw and isinstance(args[0], VInt) and is_int_value(simplify(args[0].t)) and simplify(args[0].t).as_long() <= 0):
            U("a bounded queue")
    if name in ("asyncio.Queue", "asyncio.queues.Queue"):
        return new_queue(eng, "aq")
    if name == "asyncio.LifoQueue":
        return new_queue(eng, "alq")
    if name in ("queue.Queue", "queue.SimpleQueue"):
        return new_queue(eng, "sq")
    if name == "queue.LifoQueue":
        return new_queue(eng, "slq")
    if name == "collections.deque":
        U("deque")
    if name in ("hashlib.sha3_224",):
        h = eng.alloc("hash", C_HASH, kind="hash")
        eng.setH("f:$hash", Store(eng.H("f:$hash"), h.t, eng.box(args[0]) if args else lit("bytes", b"")))
        return h
    if name in ("time.time_ns", "time.time"):
        v = eng.fresh("time", I)
        eng.assume(v >= 0)
        return VInt(v) if name == "time.time_ns" else VReal(ToReal(v))
    if name == "copy.copy":
        v = args[0]
        if isinstance(v, VObj) and v.kind == "queue":
            fl = flavour(eng, v)
            q = eng.alloc("queue", C_LIFO if fl.endswith("lq") else C_QUEUE, kind="queue")
            eng.qflavour = dict(getattr(eng, "qflavour", {}), **{q.t.decl().name(): fl})
            eng.setH(DQ, Store(eng.H(DQ), q.t, dq(eng, v)))
            return q
        if isinstance(v, VObj) and v.kind == "list":
            return eng.new_list_q(eng.content(v))
        if isinstance(v, VObj) and v.kind == "dict":
            return dict_method(eng, v, "copy", [], {})
        if isinstance(v, VObj) and getattr(eng, "on_copy", None):
            r = eng.on_copy(eng, v)
            if r is not None:
                return r
        U("copy of %r" % (v,))
    if name == "copy.deepcopy" and isinstance(args[0], VObj) and getattr(eng, "on_copy", None):
        r = eng.on_copy(eng, args[0])
        if r is not None:
            return r
    if name in ("asyncio.new_event_loop", "asyncio.get_event_loop", "asyncio.get_running_loop"):
        return VExt("asyncio.loop!")
    if name in ("asyncio.loop!.run_until_complete", "asyncio.run"):
        return eng.await_(args[0])
    if name in ("asyncio.set_event_loop", "asyncio.loop!.close", "asyncio.loop!.stop"):
        return VNone
    if name in ("asyncio.create_task", "asyncio.ensure_future", "asyncio.loop!.create_task"):
        return args[0]
    if name.startswith("asyncio.gather"):
        def run():
            l = eng.new_list([])
            for a in args:
                eng.list_append(l, eng.await_(a))
            return l
        return VCoro(run, "gather")
    if name.split(".")[-1] in ("Element", "SubElement") and ("etree" in name or "lxml" in name):
        sub = name.split(".")[-1] == "SubElement"
        tag = args[1] if sub else args[0]
        x = eng.alloc("xml", C_XML, kind="xml")
        for f in ("tag", "text", "tail"):
            eng.setH("f:$" + f, Store(eng.H("f:$" + f), x.t, eng.box(tag) if f == "tag" else NONE))
        d = eng.new_dict()
        rest = args[2 if sub else 1:]
        if rest:
            eng.iterate_dict(rest[0], "items", lambda p: eng.dict_set(d, p.items[0], p.items[1]))
        for k, v in kw.items():
            eng.dict_set(d, eng.lit_str(k), v)
        eng.setH("f:$attrib", Store(eng.H("f:$attrib"), x.t, d.t))
        l = eng.new_list([])
        eng.setH("f:$kids", Store(eng.H("f:$kids"), x.t, l.t))
        if sub:
            call_builtin_method(eng, args[0], "append", [x], {})
        return x
    if name.startswith("numpy."):
        return call_np(eng, name[6:], args, kw)
    U("call of %s" % name)


def call_builtin(eng, b, args, kw):
    if kw and b not in ("dict", "min", "max", "sorted", "enumerate", "sum"):
        U("keywords in %s" % b)
    if b == "len":
        v = args[0]
        if isinstance(v, VTup):
            return VInt(len(v.items))
        if isinstance(v, VND):
            return VInt(v.shape[0])
        if isinstance(v, VIter):
            if getattr(v, "dictview", None):
                return VInt(eng.dsel("DN", v.dictview[0].t))
            if v.what == "range":
                return VInt(v.n)
            raise E.RaiseSig("TypeError")
        if isinstance(v, VObj):
            if v.kind == "list":
                return VInt(q_len(eng, eng.content(v)))
            if v.kind in ("dict", "set"):
                n = eng.dsel("DN", v.t)
                eng.assume(n >= 0)
                return VInt(n)
            if v.kind in ("str", "bytes"):
                eng.assume(slen(v.t) >= 0)
                return VInt(slen(v.t))
            if v.kind in (None, "any") and v.cls is None:
                k = eng.choose([Or(cls(v.t) == C_STR, cls(v.t) == C_BYTES, cls(v.t) == C_TUPLE), cls(v.t) == C_LIST,
                                Or(cls(v.t) == C_DICT, cls(v.t) == C_SET),
                                And([cls(v.t) != c for c in (C_STR, C_BYTES, C_TUPLE, C_LIST, C_DICT, C_SET)])],
                               full=True)
                if k == 0:
                    eng.assume(slen(v.t) >= 0)
                    return VInt(slen(v.t))
                if k == 1:
                    return VInt(qlen(eng.content(VObj(v.t, kind="list"))))
                if k == 2:
                    return VInt(eng.dsel("DN", v.t))
        raise E.RaiseSig("TypeError")
    if b == "isinstance":
        return VBool(simplify(eng.isinstance_cond(args[0], args[1])))
    if b in ("str", "repr"):
        if not args:
            return eng.lit_str("")
        return VObj(eng.str_of(args[0]), kind="str")
    if b == "int":
        v = args[0]
        if isinstance(v, (VInt, VBool)):
            return VInt(eng.as_int(v))
        if isinstance(v, VReal):
            return VInt(ToInt(v.t))
        U("int()")
    if b == "float":
        v = args[0]
        if eng.is_num(v):
            return VReal(eng.as_real(v))
        if isinstance(v, VObj) and v.kind in (None, "str"):
            f = Function("str_to_float", V, R)
            ok = Function("is_float_text", V, B)
            if v.kind == "str" or eng.choose([cls(v.t) == C_STR, Or(cls(v.t) == C_INT, cls(v.t) == C_REAL,
                                                                   cls(v.t) == C_BOOL)]) == 0:
                if not eng.branch(ok(v.t)):
                    raise E.RaiseSig("ValueError")
                return VReal(f(v.t))
            return VReal(unR(v.t))
        U("float()")
    if b == "bool":
        return VBool(simplify(eng.truth_term(args[0]))) if args else VBool(False)
    if b == "list":
        if not args:
            return eng.new_list([])
        return eng.to_list(args[0])
    if b == "tuple":
        if not args:
            return VTup([])
        q = as_q(eng, args[0])
        its = seq_items(eng.seq_of(q))
        if all(x[0] == "one" and is_true(x[1]) for x in its):
            return VTup([eng.wrap(x[2]) for x in its])
        U("tuple of a symbolic sequence")
    if b in ("set", "frozenset"):
        s = new_set(eng)
        if args:
            eng.iterate(args[0], lambda x: set_add(eng, s, x))
        return s
    if b == "dict":
        d = eng.new_dict()
        if args:
            if isinstance(args[0], VObj) and args[0].kind == "dict":
                d = dict_method(eng, args[0], "copy", [], {})
            else:
                eng.iterate(args[0], lambda x: eng.dict_set(d, *eng.unpack(x, 2)))
        for k, v in kw.items():
            eng.dict_set(d, eng.lit_str(k), v)
        return d
    if b == "filter":
        return do_filter(eng, args[0], args[1])
    if b == "map":
        return do_map(eng, args[0], args[1:])
    if b == "zip":
        return do_zip(eng, args)
    if b == "range":
        return do_range(eng, args)
    if b == "enumerate":
        return do_enumerate(eng, args + ([kw["start"]] if "start" in kw else []))
    if b == "reversed":
        l = args[0]
        q = as_q(eng, l)
        its = seq_items(eng.seq_of(q))
        if all(x[0] == "one" and is_true(x[1]) for x in its):
            r = qnil
            for x in reversed(its):
                r = qapp(r, x[2])
            return seq_iter(r, "reversed")
        return seq_iter(qrev(q), "reversed")
    if b == "iter":
        it = args[0]
        if isinstance(it, VIter) and not getattr(it, "reiter", False):
            return it
        return viter(lambda eng, h: eng.iterate(it, h), "iter")
    if b == "next":
        return do_next(eng, args)
    if b in ("any", "all"):
        return do_anyall(eng, b, args[0])
    if b in ("min", "max"):
        absent(kw)
        if len(args) == 1:
            U("min/max of an iterable")
        r = args[0]
        for x in args[1:]:
            c = eng.compare(ast.Lt() if b == "min" else ast.Gt(), x, r)
            if isinstance(x, VInt) and isinstance(r, VInt):
                r = VInt(If(c, x.t, r.t))
            else:
                r = x if eng.branch(c) else r
        return r
    if b == "abs":
        v = args[0]
        if isinstance(v, VInt):
            return VInt(If(v.t < 0, -v.t, v.t))
        if isinstance(v, VND):
            return nd.f_abs(eng, [v], {})
        x = eng.as_real(v)
        return VReal(If(x < 0, -x, x))
    if b == "print":
        return VNone
    if b == "callable":
        return VBool(isinstance(args[0], (VFun, VBound, VCls, VExt)))
    if b in ("type",):
        v = args[0]
        if isinstance(v, VObj) and v.exact is not None:
            return VCls(v.exact)
        U("type()")
    if b == "getattr":
        k = lit_of(args[1].t)
        if not k:
            U("getattr with a computed name")
        if len(args) == 3:
            try:
                return eng.getattr(args[0], k[1])
            except E.RaiseSig as r:
                if r.name == "AttributeError":
                    return args[2]
                raise
        return eng.getattr(args[0], k[1])
    if b == "hasattr":
        k = lit_of(args[1].t)
        if not k:
            U("hasattr with a computed name")
        try:
            eng.getattr(args[0], k[1])
            return VBool(True)
        except E.RaiseSig as r:
            if r.name == "AttributeError":
                return VBool(False)
            raise
    if b == "object":
        return eng.alloc("object", 99)
    if b in EXC_BASES:
        return VExt("builtins." + b)
    if b == "sum":
        return nd.builtin_sum(eng, args + [kw["start"]] if "start" in kw else args)
    U("builtin %s" % b)


class Found(E.Signal):
    def __init__(self, tok):
        self.tok = tok


def do_next(eng, args):
    it = args[0]
    if not isinstance(it, VIter):
        raise E.RaiseSig("TypeError")
    tok = object()

    def h(v):
        raise E.StopNext(("next", it.what), v)
    try:
        eng.iterate(it, h)
    except E.StopNext as s:
        if s.tok != ("next", it.what):
            raise
        return s.v
    if len(args) > 1:
        return args[1]
    raise E.RaiseSig("StopIteration")


def do_anyall(eng, b, it):
    tok = ("anyall", b, getattr(it, "what", ""), eng.st.cnt)

    def h(v):
        t = eng.truth(v)
        if t == (b == "any"):
            raise E.StopNext(tok, VBool(b == "any"))
    try:
        eng.iterate(it, h)
    except E.StopNext as s:
        if s.tok != tok:
            raise
        return s.v
    return VBool(b != "any")


# ---------------------------------------------------------------------- numpy
def call_np(eng, n, args, kw):
    f = NP.get(n)
    if f is not None:
        return f(eng, args, kw)
    r = nd.call(eng, n, args, kw)
    if r is None:
        U("numpy.%s" % n)
    return r


def np_array(eng, args, kw):
    v = args[0]
    if isinstance(v, VND):
        return nd.nd(v.shape, v.fn, v.dtype)
    if isinstance(v, VObj) and v.kind == "np":
        return v
    if isinstance(v, VTup):
        return nd.from_seq(eng, v)
    q = as_q(eng, v)
    its = seq_items(eng.seq_of(q))
    if all(x[0] == "one" and is_true(x[1]) for x in its) and len(its) <= 8 and not eng.nd_fields:
        ws = [eng.wrap(x[2]) for x in its]
        if all(eng.is_num(w) for w in ws):
            return VObj(ndarr(tupf(len(ws))[0](*[boxR(simplify(eng.as_real(w))) for w in ws])), kind="np")
    if kw:
        U("keyword of numpy.array")
    return nd.from_seq(eng, v)


def np_copy(eng, args, kw):
    v = args[0]
    if isinstance(v, VObj) and v.kind in ("np", None):
        eng.note("arrays are treated as values: numpy.copy(x) equals x, in-place changes of arrays are not modelled")
        return VObj(v.t, kind="np")
    if isinstance(v, VND):
        return VND(v.shape, v.fn)
    U("numpy.copy")


NP = {"array": np_array, "copy": np_copy}


def nd_method(eng, v, name, args, kw):
    return nd.method(eng, v, name, args, kw)


def nd_getitem(eng, o, k):
    return nd.getitem(eng, o, k)


def nd_binop(eng, op, a, b):
    return nd.binop(eng, op, a, b)


def nd_compare(eng, op, a, b):
    r = nd.compare(eng, op, a, b)
    return r.t if isinstance(r, VBool) else r

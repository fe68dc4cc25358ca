"""Symbolic executor and verification condition generator for the Python subset used in the repository.

Direct style with re-execution: a path is a list of decisions; every fork is `choose`.  Loops are cut by invariants
(candidates are filtered to an inductive subset, see `loop`), calls with a registered contract are replaced by it, all
other calls are inlined, generators run inline with the consumer as yield handler.
"""
import ast
import os
import itertools

from .front import FuncInfo, ClassInfo, mangle, Program
from .theory import *
from .values import *


ALLOC_KIND = {C_LIST: "list", C_DICT: "dict", C_SET: "set", C_QUEUE: "queue", C_LIFO: "queue", C_XML: "xml", C_HASH: "hash"}


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


INFINITE = Int("infinite!")     # math.inf where a field holds a number; an unspecified number otherwise


class Signal(Exception):
    pass


class BreakSig(Signal):
    def __init__(self, key):
        self.key = key


class ContinueSig(Signal):
    def __init__(self, key):
        self.key = key


class ReturnSig(Signal):
    def __init__(self, fid, v):
        self.fid, self.v = fid, v


class RaiseSig(Signal):
    """exc: ClassInfo or builtin exception name"""

    def __init__(self, exc, value=None):
        self.exc, self.value = exc, value

    @property
    def name(self):
        return self.exc.name if isinstance(self.exc, ClassInfo) else self.exc


class LoopExit(Signal):
    pass


class StopNext(Signal):
    def __init__(self, tok, v):
        self.tok, self.v = tok, v


class Outcome:
    def __init__(self, st, sig, val):
        self.st, self.sig, self.val = st, sig, val


class State:
    __slots__ = ("pc", "heap", "frames", "ghost", "now", "ns", "cnt", "nfid", "inited", "fresh_objs", "log")

    def __init__(self):
        self.pc, self.heap, self.frames, self.ghost = [], {}, {}, {}
        self.now = Int("now0")
        self.ns, self.cnt, self.nfid = "", 0, 0
        self.inited, self.fresh_objs, self.log = frozenset(), frozenset(), ()

    def copy(self):
        s = State()
        s.pc = list(self.pc)
        s.heap = dict(self.heap)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.ghost = dict(self.ghost)
        s.now, s.ns, s.cnt, s.nfid = self.now, self.ns, self.cnt, self.nfid
        s.inited, s.fresh_objs, s.log = self.inited, self.fresh_objs, self.log
        return s


class Obl:
    def __init__(self, pc, goal, name, tags, where):
        self.pc, self.goal, self.name, self.tags, self.where = pc, goal, name, tags, where


HEAP_SORTS = {"ELS": VB, 
    "DD": ArraySort(V, VB), "DV": ArraySort(V, VV), "DS": ArraySort(V, VI), "DN": VI, "DX": VI,
    "LC": ArraySort(V, Q), "QL": VI, "QH": VI, "QE": ArraySort(V, IV),
}
# instance fields that hold machine independent integers (checked at every write)
INT_FIELDS = {"_depth", "_cid", "_cnt_subelements", "_cnt_subelements_historical", "dim", "_cnt_node", "_cnt_edges",
              "_cnt_values", "_recent_element"}
# fields written once, when the object is created (checked at every write)
CONST_FIELDS = {"_uuid", "_id_name"}

KINDS = {"str": C_STR, "bytes": C_BYTES, "dict": C_DICT, "list": C_LIST, "set": C_SET, "queue": C_QUEUE, "xml": C_XML}
_nsids = {}


def nsid(s):
    return _nsids.setdefault(s, len(_nsids))


class Eng:
    def __init__(self, prog, theory_axioms=(), field_hints=None, rlimit=8_000_000, trace=False):
        self.prog = prog
        self.st = State()
        self.obls = []
        self.recording = True
        self.dec, self.pos, self.todo, self.xid = [], 0, [], 0
        self._xids = itertools.count(1)
        self.loopcache = {}
        self.contracts = {}
        self.field_hints = field_hints or {}
        self.hooks = {}
        self.funreg, self.appreg = {}, {}
        self.qreg = {}
        self.alloc_cid = {}
        self.alloc_no = {}
        self.params = set()
        self.notes = set()
        self.inlined = set()
        self.used_contracts = set()
        self.candidates = lambda ctx: []
        self.axioms = base_axioms() + list(theory_axioms)
        self.prover = Prover(self.axioms, rlimit)
        self.cand_rlimit = 500_000
        self.depth = 0
        self.trace = trace
        self.names = {}
        self.on_return = {}
        self.stats = {"paths": 0, "loops": 0, "houdini": 0}
        self.where = ""
        self.yield_mode = None
        self.mergedepth = 0
        self.user_callbacks_ok = True
        self.summarise = True
        self._feas = {}
        self.framereg = {}
        self.forced, self.enums = set(), {}
        self.hookdefs = {}
        self.timereg = {}
        self.blank_parent = False
        self.discovering = 0
        self.stored_ints = []   # functions that give the number objects a mapping holds
        self.nd_fields = {}     # field -> number of axes of the array it holds
        self.owned = {}         # field -> element type of the dictionary it owns
        self.enum_classes()
        from . import lib
        self.lib = lib

    # ------------------------------------------------------------------ basics
    def dump(self, goal, what):
        self.dumps = getattr(self, "dumps", 0) + 1
        s = Solver()
        s.add(*self.prover.axioms)
        s.add(*lit_facts())
        s.add(*self.st.pc)
        s.add(Not(goal))
        open("/tmp/dump/%s%d.smt2" % (what, self.dumps), "w").write(
            "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n" + s.to_smt2())

    def note(self, s):
        self.notes.add(s)

    def fresh(self, base, sort):
        st = self.st
        st.cnt += 1
        return Const("%s!%d.%d" % (base, nsid(st.ns), st.cnt), sort)

    def freshfun(self, base, *sorts):
        st = self.st
        st.cnt += 1
        return Function("%s!%d.%d" % (base, nsid(st.ns), st.cnt), *sorts)

    def assume(self, c):
        if c is None:
            return
        if is_true(c):
            return
        self.st.pc.append(c)

    def oblige(self, goal, name, tags=()):
        if self.recording:
            self.obls.append(Obl(list(self.st.pc), goal, name, tuple(tags), self.where))
        if name not in self.doubtful:
            self.assume(goal)

    doubtful = frozenset()   # names of obligations of other properties that failed: nothing may rest on them

    def fail(self, name, tags=()):
        """An outcome that must not happen: the path must be infeasible."""
        if self.recording:
            self.obls.append(Obl(list(self.st.pc), BoolVal(False), name, tuple(tags), self.where))
        raise Infeasible

    deep_dicts = False      # resolve dictionaries with solver calls

    def qf(self):
        return [c for c in self.st.pc if not is_quantifier(c) and not has_quant(c)]

    def feasible(self, c, extra=None):
        if c is None:
            c = BoolVal(True)
        c = simplify(c)
        if is_false(c):
            return False
        pc = self.qf()
        key = (tuple(x.get_id() for x in pc), c.get_id())
        if key in self._feas:
            return self._feas[key][0]
        s = Solver()
        s.set("rlimit", 400000)
        s.add(*pc)
        s.add(*[f for f in lit_facts() if not is_quantifier(f)])
        s.add(cls(NONE) == C_NONE)
        s.add(c)
        r = s.check()
        if r == unknown:
            self.stats["unknown feasibility"] = self.stats.get("unknown feasibility", 0) + 1
            if self.trace:
                print("   unknown feasibility", self.where, len(pc))
        r = r != unsat
        self._feas[key] = (r, pc, c)
        return r

    def entails_qf(self, c):
        return not self.feasible(Not(c))

    def entails(self, c, rlimit=None):
        c2 = simplify(c)
        if is_true(c2):
            return True
        if self.entails_qf(c):
            return True
        return self.prover.proves(self.st.pc, c, rlimit or 1_500_000)

    def choose(self, conds, full=False, exhaustive=False):
        """Fork over conditions. `exhaustive`: the path implies that one of them holds, so that the last one left is no decision."""
        ck = (self.xid, tuple(self.dec[:self.pos]))
        if self.pos < len(self.dec):
            k = self.dec[self.pos]
        else:
            feas = [i for i, c in enumerate(conds) if c is None or self.feasible(c)]
            if full and len(feas) > 1:
                left = list(feas)
                for i in reversed(feas):
                    if exhaustive and len(left) == 1:
                        break           # one of them holds
                    if conds[i] is not None and self.entails(Not(conds[i])):
                        left.remove(i)
                feas = left
            if not feas:
                raise Infeasible
            if exhaustive and len(feas) == 1:
                self.forced.add(ck)
            k = feas[0]
            for j in reversed(feas[1:]):
                self.todo.append(self.dec[:self.pos] + [j])
            self.dec = self.dec[:self.pos] + [k]
        self.pos += 1
        if conds[k] is not None:
            c = simplify(conds[k])
            if ck in self.forced:
                self.define(c)
            else:
                self.assume(c)
        if len(conds) > 1:
            self.st.ns = self.st.ns + ".%d" % k
        return k

    def branch(self, c):
        """Fork on a condition; returns a Python bool."""
        c = simplify(c)
        if is_true(c):
            return True
        if is_false(c):
            return False
        return self.choose([c, Not(c)], exhaustive=True) == 0

    def explore(self, fn, base=None):
        base = (base or self.st).copy()
        saved = (self.st, self.dec, self.pos, self.todo, self.xid)
        self.xid = next(self._xids)
        out = []
        self.todo = [[]]
        try:
            while self.todo:
                self.dec, self.pos = self.todo.pop(), 0
                self.st = base.copy()
                self.stats["paths"] += 1
                if self.stats["paths"] > 200000:
                    raise Unsupported("too many paths")
                try:
                    v = fn()
                    out.append(Outcome(self.st, None, v))
                except Infeasible:
                    continue
                except Signal as s:
                    out.append(Outcome(self.st, s, None))
        finally:
            self.st, self.dec, self.pos, self.todo, self.xid = saved
        return out

    # ------------------------------------------------------------------ heap
    def hsort(self, key):
        if key in HEAP_SORTS:
            return HEAP_SORTS[key]
        if key.startswith("f:") and key[2:] in INT_FIELDS:
            return VI
        return VV

    def H(self, key, st=None):
        st = st or self.st
        if key not in st.heap:
            return Const("H0_" + key, self.hsort(key))
        return st.heap[key]

    def named(self, key, st=None):
        """The array under a name of its own (patterns may not contain arbitrary terms)."""
        a = self.H(key, st)
        if is_const(a):
            return a
        k = (key, a.get_id())
        if k not in self.names:
            self.names[k] = (self.fresh("n_" + key, a.sort()), a)
        c, a = self.names[k]
        s = st or self.st
        f = c == a
        if not any(x.eq(f) for x in s.pc[-200:]):
            s.pc.append(f)
            if s is not self.st:
                self.st.pc.append(f)
        return c

    def setH(self, key, arr):
        self.st.heap[key] = arr

    def distinct_refs(self, a, b):
        """Quick syntactic test that two terms are different objects."""
        na = a.decl().name() if is_const(a) else None
        nb = b.decl().name() if is_const(b) else None
        if na in self.alloc_no and nb in self.alloc_no:
            return na != nb
        if na in self.alloc_no and nb in self.params or nb in self.alloc_no and na in self.params:
            return True
        la, lb = lit_of(a), lit_of(b)
        if la and lb:
            return la != lb
        return False

    def sel(self, arr, idx, deep=False):
        """Select with resolution of the store chain."""
        a = arr
        while is_app(a) and a.decl().kind() == Z3_OP_STORE:
            k = a.arg(1)
            if k.eq(idx):
                return a.arg(2)
            if self.distinct_refs(k, idx):
                a = a.arg(0)
                continue
            if deep:
                if self.entails_qf(k != idx):
                    a = a.arg(0)
                    continue
                if self.entails_qf(k == idx):
                    return a.arg(2)
            break
        if is_const(a) and a.decl().name() in self.framereg:
            A0, targets, now0 = self.framereg[a.decl().name()]
            if not any(t.eq(idx) for t in targets) and self.is_old(idx, now0) and all(self.distinct_refs(t, idx) or self.entails_qf(t != idx) or
                                              deep and self.entails(t != idx, 300_000) for t in targets):
                return self.sel(A0, idx, deep)
        return Select(a, idx)

    def is_old(self, idx, now0):
        """Does the object exist since before time now0?"""
        return self.entails_qf(birth(idx) < now0)

    def known(self, t):
        """Facts about a value just loaded from the heap: it was allocated before the array was last unknown."""
        x = t
        while is_app(x) and x.decl().kind() == Z3_OP_SELECT:
            x = x.arg(0)
        b = self.st.now
        if not x.eq(t) and is_const(x):
            n = x.decl().name()
            if n.startswith("H0_"):
                b = Int("now0")
            elif n in self.timereg:
                b = self.timereg[n]
        self.assume(birth(t) < b)

    def alloc(self, base, cid, exact=None, kind=None):
        r = self.fresh(base, V)
        self.alloc_no[r.decl().name()] = len(self.alloc_no)
        self.alloc_cid[r.decl().name()] = cid
        self.assume(And(birth(r) == self.st.now, cls(r) == cid))
        self.st.now = simplify(self.st.now + 1)
        self.st.fresh_objs = self.st.fresh_objs | {r.decl().name()}
        return VObj(r, kind=kind, exact=exact)

    def name_ghost(self, v, owner, key):
        """Ghost: a container stored for the first time belongs to that place."""
        if is_const(v) and v.decl().name() in self.st.fresh_objs and self.alloc_cid[v.decl().name()] < 100:
            n = ("own", v.decl().name())
            if n not in self.st.inited:
                self.st.inited = self.st.inited | {n}
                self.assume(And(own(v) == owner, okey(v) == key))

    def type_evident(self, f, val):
        h = self.field_hints[f]
        if isinstance(h, tuple) and isinstance(val, VObj) and val.kind == "none":
            return True
        h = h[1] if isinstance(h, tuple) else h
        if isinstance(val, VObj):
            if isinstance(h, ClassInfo):
                return val.cls is not None and h in val.cls.mro
            return val.kind == h
        return False

    def field_const(self, f):
        return Function("F" + f, V, V)

    def get_field(self, o, f):
        t = self._owner = o.t
        if f in CONST_FIELDS:
            n = t.decl().name() if is_const(t) else None
            v = self.field_const(f)(t)
            if n in self.st.fresh_objs:
                for c in self.st.inited:
                    if c[0] == "const" and c[1] == n and c[2] == f:
                        return c[3]
                if (n, "*") not in self.st.inited:
                    raise RaiseSig("AttributeError")
            return self.hinted(f, v)
        n = t.decl().name() if is_const(t) else None
        if n in self.st.fresh_objs and (n, f) not in self.st.inited and (n, "*") not in self.st.inited:
            raise RaiseSig("AttributeError")
        key = "f:" + f
        arr = self.H(key)
        if arr.sort() == VI:
            x = self.sel(arr, t)
            return VExt("math.inf") if x.eq(INFINITE) else VInt(x)
        r = self.sel(arr, t)
        v = self.unreg(r)
        if f in self.nd_fields:
            r = self.sel(arr, t, deep=True)
            return VNone if r.eq(NONE) else self.lib.nd.held(self, r, self.nd_fields[f])
        if v is None:
            r = self.sel(arr, t, deep=True)
            v = self.unreg(r)
        if v is not None:
            return v
        if is_app(r) and r.decl().kind() == Z3_OP_SELECT:
            self.known(r)
        return self.hinted(f, r)

    def hint_fact(self, f, t):
        """The declared type of a field as a condition (checked at every write, assumed at every read)."""
        h = self.field_hints.get(f)
        if h is None or h == "int":
            return None
        if isinstance(h, tuple):
            return Or(t == NONE, self.isa(t, h[1]) if isinstance(h[1], ClassInfo) else cls(t) == KINDS[h[1]])
        if isinstance(h, ClassInfo):
            return self.isa(t, h)
        return cls(t) == KINDS[h] if h != "queue" else Or(cls(t) == C_QUEUE, cls(t) == C_LIFO)

    def hinted(self, f, t):
        if f in self.owned:
            self.assume(And(cls(t) == C_DICT, own(t) == self._owner, okey(t) == lit("field", f)))
            r = VObj(t, kind="dict")
            r.elem = self.owned[f]
            return r
        h = self.field_hints.get(f)
        if h is None:
            return self.wrap(t)
        if h == "int":
            return VInt(unI(t))
        w = self.wrap(t)
        if not isinstance(w, VObj) or w.kind is not None:
            return w
        self.define(self.hint_fact(f, t))
        if isinstance(h, ClassInfo):
            return VObj(t, cls=h)
        if isinstance(h, tuple):
            return VObj(t)
        return VObj(t, kind=h)

    def set_field(self, o, f, val):
        t = o.t
        if f in self.owned:
            b = self.box(val)
            self.name_ghost(b, t, lit("field", f))
            self.oblige(And(cls(b) == C_DICT, own(b) == t, okey(b) == lit("field", f)),
                        "field %s holds a dictionary of its own" % f, ("type",))
        if f in self.field_hints and self.field_hints[f] != "int":
            c = self.hint_fact(f, self.box(val))
            if not self.type_evident(f, val):
                self.oblige(c, "field %s has its declared type" % f, ("type",))
        n = t.decl().name() if is_const(t) else None
        if f in CONST_FIELDS:
            if n not in self.st.fresh_objs or any(c[0] == "const" and c[1] == n and c[2] == f for c in self.st.inited):
                self.fail("write to %s outside construction" % f, ("frame",))
            self.st.inited = self.st.inited | {("const", n, f, val), (n, f)}
            self.assume(self.field_const(f)(t) == self.box(val))
            return
        if n in self.st.fresh_objs:
            self.st.inited = self.st.inited | {(n, f)}
        key = "f:" + f
        arr = self.H(key)
        if arr.sort() == VI:
            new = Store(arr, t, INFINITE if isinstance(val, VExt) and val.name == "math.inf" else self.as_int(val))
        else:
            if f in self.nd_fields and isinstance(val, VND):
                val = self.lib.nd.hold(self, val, self.nd_fields[f])
            b = self.box(val)
            self.name_ghost(b, t, lit("field", f))
            new = Store(arr, t, b)
        if key in self.hooks:
            c = self.fresh("hp", arr.sort())
            self.assume(c == new)
            self.hookdefs[c.decl().name()] = new
            self.setH(key, c)
            self.hooks[key](self, arr, t, new.arg(2), c)
        else:
            self.setH(key, new)

    # ------------------------------------------------------------------ boxing
    def register_fun(self, v):
        """A term that stands for a function, iterator or coroutine."""
        if isinstance(v, VBound) and not isinstance(v.fn, str):
            o = v.self_
            k = "bm!%s!%s!%s" % (id(v.fn) if not isinstance(v.fn, tuple) else (v.fn[0], id(v.fn[1])), o.kind, (
                o.exact.name + "!" if o.exact else o.cls.name if o.cls else ""))
            self.appreg[k] = (v, lambda a, v=v, o=o: VBound(v.fn, VObj(a[0], kind=o.kind, cls=o.cls, exact=o.exact)))
            return Function(k, V, V)(o.t)
        if isinstance(v, VCoro) and v.call is not None:
            fv, args = v.call
            k = "coro!%s!%d" % (fv.fi.qual, id(fv.fi))
            ts = [self.box(x) for x in args]
            k += "!" + ",".join("%s:%s" % (getattr(x, "kind", "") or "", getattr(getattr(x, "exact", None), "name", "")) for x in args)

            def again(a, fv=fv, args=list(args)):
                return self.call_function(fv, [VObj(t, kind=x.kind, cls=x.cls, exact=x.exact) if isinstance(x, VObj) else self.wrap(t)
                                               for x, t in zip(args, a)], {})
            self.appreg[k] = (v, again)
            return Function(k, *([V] * len(ts) + [V]))(*ts)
        if isinstance(v, VND):
            t = self.lib.nd.boxed(self, v, LOOPD[0])
            if t is not None:
                return t
        elif getattr(v, "ld", 0) > 0 and LOOPD[0] > 0:
            raise Unsupported("a %s made in a loop is stored" % type(v).__name__)
        if isinstance(v, VFun):
            k = ("fn", id(v.fi.node), v.fid)
        elif isinstance(v, VBound):
            if LOOPD[0] > 0 and not is_const(v.self_.t):
                raise Unsupported("a bound method is stored in a loop")
            k = ("bm", v.fn, str(v.self_.t))
        elif isinstance(v, VCls):
            k = ("cls", v.c if isinstance(v.c, str) else v.c.name)
        elif isinstance(v, VExt):
            k = ("ext", v.name)
        else:
            self._vn = getattr(self, "_vn", 0) + 1
            k = ("val", type(v).__name__, id(v), self._vn)
            self._keep = getattr(self, "_keep", [])
            self._keep.append(v)
        c = lit("fun", "%s" % (k,))
        self.funreg[c.decl().name()] = v
        return c

    def unreg(self, t):
        if is_const(t):
            return self.funreg.get(t.decl().name())
        if is_app(t) and t.decl().name() in self.appreg:
            return self.appreg[t.decl().name()][1]([t.arg(i) for i in range(t.num_args())])
        return None

    def box(self, v):
        if isinstance(v, VObj):
            return v.t
        if isinstance(v, VInt):
            t = simplify(v.t)
            if is_app(t) and t.decl().eq(unI):
                self.note("integers read from untyped places are integers")
            return boxI(v.t)
        if isinstance(v, VBool):
            return boxB(v.t)
        if isinstance(v, VReal):
            return boxR(v.t)
        if isinstance(v, VTup):
            return tupf(len(v.items))[0](*[self.box(x) for x in v.items])
        if isinstance(v, (VFun, VBound, VCls, VExt, VIter, VCoro, VND)):
            if isinstance(v, VND):
                if v.ref is not None or getattr(v, "of_held", False):
                    raise Unsupported("an array that an object holds is stored elsewhere")
                v.viewed = True
            return self.register_fun(v)
        raise Unsupported("boxing %r" % (v,))

    def wrap(self, t):
        """V term -> value, using its syntactic shape."""
        if is_app(t):
            n = t.decl().name()
            if n == "boxI":
                return VInt(t.arg(0))
            if n == "boxB":
                return VBool(t.arg(0))
            if n == "boxR":
                return VReal(t.arg(0))
            if n.startswith("tup") and n[3:].isdigit():
                return VTup([self.wrap(t.arg(i)) for i in range(t.num_args())])
            if n == "None!":
                return VNone
            if n in self.funreg or n in self.appreg:
                return self.unreg(t)
            k = lit_of(t) if is_const(t) else None
            if k:
                if k[0] in ("str", "bytes"):
                    return VObj(t, kind=k[0])
                if k[0] == "enum":
                    return VObj(t, cls=self.prog.classes.get(k[1].split(".")[0]))
            if n in ("cat", "tostr", "qjoin"):
                return VObj(t, kind="str")
            if n in ("utf8", "sha3_224"):
                return VObj(t, kind="bytes")
            if n == "listval":
                return VObj(t, kind="list")
            if n in self.alloc_cid:
                k = ALLOC_KIND.get(self.alloc_cid[n])
                if k:
                    return VObj(t, kind=k)
        return VObj(t)

    def as_int(self, v):
        if isinstance(v, VInt):
            return v.t
        if isinstance(v, VBool):
            return If(v.t, IntVal(1), IntVal(0))
        if isinstance(v, VObj) and v.kind in (None, "any"):
            w = self.wrap(v.t)
            if isinstance(w, VInt):
                return w.t
            if self.choose([cls(v.t) == C_INT, cls(v.t) != C_INT], full=True) == 0:
                return unI(v.t)
            raise RaiseSig("TypeError")
        raise Unsupported("integer expected: %r" % (v,))

    def integer(self, v):
        """The integer it is known to be."""
        if isinstance(v, VObj) and v.kind in (None, "any") and self.entails(v.t == boxI(unI(v.t))):
            return VInt(unI(v.t))
        return v

    def as_real(self, v):
        if isinstance(v, VReal):
            return v.t
        if isinstance(v, VInt):
            return ToReal(v.t)
        if isinstance(v, VBool):
            return If(v.t, RealVal(1), RealVal(0))
        if isinstance(v, VObj) and v.kind in (None, "any"):
            self.note("operands of arithmetic are numbers; floats are treated as reals")
            if self.entails(v.t == boxR(unR(v.t))):
                return unR(v.t)
            return If(v.t == boxI(unI(v.t)), ToReal(unI(v.t)), unR(v.t))
        raise Unsupported("number expected: %r" % (v,))

    def is_num(self, v):
        return isinstance(v, (VInt, VReal, VBool))

    def lit_str(self, s):
        return VObj(lit("str", s), kind="str")

    # ------------------------------------------------------------------ classes
    def enum_classes(self):
        self.enums = {}
        for c in self.prog.all_classes:
            if c.is_enum:
                ms = []
                for k, v in c.consts.items():
                    x = ast.literal_eval(v)
                    x = x[0] if isinstance(x, tuple) else x
                    ms.append((k, x))
                self.enums[c.name] = ms
                for k, x in ms:
                    t = lit("enum", "%s.%s" % (c.name, k))
                    self.axioms.append(And(cls(t) == c.cid, Function("enumval", V, I)(t) == x, birth(t) < 0))
                e = Const("ev!", V)
                self.axioms.append(FA([e], Implies(cls(e) == c.cid,
                                                   Or([e == lit("enum", "%s.%s" % (c.name, k)) for k, _ in ms])),
                                      Function("is_" + c.name, V, B)(e)))
        e = Const("ev!", V)
        self.axioms.append(birth(NONE) < 0)

    def isa(self, t, c):
        if isinstance(c, str):
            m = {"str": [C_STR], "int": [C_INT, C_BOOL], "bool": [C_BOOL], "float": [C_REAL], "bytes": [C_BYTES],
                 "list": [C_LIST, C_LISTVAL], "dict": [C_DICT], "tuple": [C_TUPLE], "set": [C_SET],
                 "NoneType": [C_NONE]}.get(c)
            if m is None:
                raise Unsupported("isinstance of %s" % c)
            return Or([cls(t) == k for k in m])
        ids = sorted(x.cid for x in self.prog.subclasses(c))
        ids = [x for x in ids]
        # contiguous ranges
        out = []
        i = 0
        while i < len(ids):
            j = i
            while j + 1 < len(ids) and ids[j + 1] == ids[j] + 1:
                j += 1
            out.append(cls(t) == ids[i] if i == j else And(cls(t) >= ids[i], cls(t) <= ids[j]))
            i = j + 1
        return Or(out) if len(out) != 1 else out[0]

    def isinstance_cond(self, v, c):
        """condition for isinstance(v, c)"""
        if isinstance(c, VUnion) or isinstance(c, VTup):
            return Or([self.isinstance_cond(v, x) for x in c.items])
        if isinstance(c, VCls):
            c = c.c
        elif isinstance(c, VExt):
            c = {"builtins." + k: k for k in ("str", "int", "float", "bool", "bytes", "list", "dict", "tuple",
                                              "set")}.get(c.name)
            if c is None:
                raise Unsupported("isinstance of library class")
        elif isinstance(c, VObj) and c.kind == "none":
            c = "NoneType"
        else:
            raise Unsupported("isinstance of %r" % (c,))
        if isinstance(v, VObj):
            if v.kind in ("str", "list", "dict", "bytes", "set", "none") :
                k = {"none": "NoneType"}.get(v.kind, v.kind)
                return BoolVal(c == k)
            if v.exact is not None:
                return BoolVal(isinstance(c, ClassInfo) and c in v.exact.mro)
            if v.cls is not None and isinstance(c, ClassInfo) and c in v.cls.mro:
                return BoolVal(True)
            return self.isa(v.t, c)
        m = {VInt: "int", VBool: "bool", VReal: "float", VTup: "tuple"}.get(type(v))
        if m:
            return BoolVal(c == m or (m == "bool" and c == "int"))
        if isinstance(v, (VFun, VBound, VCls, VExt, VIter, VCoro, VND)):
            return BoolVal(False)
        raise Unsupported("isinstance(%r)" % (v,))

    def candidates_for(self, o):
        if o.exact is not None:
            return [o.exact]
        if o.cls is not None:
            return self.prog.subclasses(o.cls)
        return None

    def class_fields(self, c):
        if not hasattr(c, "_fields"):
            fs = set()
            for k in c.mro:
                if isinstance(k, ClassInfo):
                    for n in ast.walk(k.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                                isinstance(n.value, ast.Name) and n.value.id == "self":
                            fs.add(mangle(k, n.attr))
            c._fields = fs
        return c._fields

    def member(self, c, name):
        """How instances of class c resolve an attribute: ('get', F) | ('meth', F) | ('const', node, C) | ('field',) | None"""
        for k in c.mro:
            if isinstance(k, ClassInfo):
                if name in k.getters:
                    return ("get", k.getters[name])
                if name in k.methods:
                    return ("meth", k.methods[name])
                if name in k.consts:
                    return ("const", k.consts[name], k)
        if name in self.class_fields(c):
            return ("field",)
        return None

    def resolve_member(self, o, name):
        """Fork over the implementations of attribute `name`; returns the member or raises AttributeError."""
        cands = self.candidates_for(o)
        closed = cands is not None
        if not closed:
            cands = self.prog.all_classes
        groups = {}
        for c in cands:
            m = self.member(c, name)
            if m is None:
                if closed:
                    groups.setdefault(None, []).append(c)
                continue
            groups.setdefault((m[0],) + tuple(id(x) for x in m[1:]), (m, []))[1].append(c) if m else None
        real = [(m, cs) for k, v in groups.items() if k is not None for m, cs in [v]]
        missing = groups.get(None, [])
        if not real:
            raise RaiseSig("AttributeError")
        if closed and len(real) == 1 and not missing:
            return real[0][0], real[0][1]
        if closed and len(real) == 1:
            conds = [Or([cls(o.t) == c.cid for c in real[0][1]]), Or([cls(o.t) == c.cid for c in missing])]
        else:
            conds = [Or([cls(o.t) == c.cid for c in cs]) for _, cs in real]
            if not closed:
                conds.append(And([Not(c) for c in conds]))
            elif missing:
                conds.append(Or([cls(o.t) == c.cid for c in missing]))
        k = self.choose(conds, full=True, exhaustive=True)
        if k >= len(real):
            raise RaiseSig("AttributeError")
        return real[k][0], real[k][1]

    # ------------------------------------------------------------------ attribute access
    def getattr(self, v, name):
        if isinstance(v, VObj):
            if v.kind in ("list", "dict", "str", "bytes", "set", "queue", "xml", "hash", "np"):
                return self.lib.builtin_attr(self, v, name)
            if v.kind == "none":
                raise RaiseSig("AttributeError")
            if name == "value" and v.cls is not None and v.cls.is_enum:
                return VInt(Function("enumval", V, I)(v.t))
            vb = self.virtual(v, name)
            if vb is not None:
                return vb
            if v.kind in (None, "any") and v.cls is None and v.exact is None:
                ks = [(k, c) for k, c, t in (("list", C_LIST, list), ("dict", C_DICT, dict), ("str", C_STR, str), ("bytes", C_BYTES, bytes)) if
                      hasattr(t, name)]
                if ks:
                    conds = [cls(v.t) == c for _, c in ks]
                    k = self.choose(conds + [Not(Or(conds))], full=True)
                    if k < len(ks):
                        return self.lib.builtin_attr(self, VObj(v.t, kind=ks[k][0]), name)
            m, cs = self.resolve_member(v, name)
            base = self.narrow(v, cs)
            if m[0] == "get":
                return self.call_function(VFun(m[1]), [base], {})
            if m[0] == "meth":
                if m[1].kind == "static":
                    return VFun(m[1])
                return VBound(m[1], base)
            if m[0] == "const":
                if m[2].is_enum:
                    return VObj(lit("enum", "%s.%s" % (m[2].name, name)), cls=m[2])
                return self.eval_const(m[1], m[2].module)
            if name == "value" and v.cls is not None and v.cls.is_enum:
                return VInt(Function("enumval", V, I)(v.t))
            return self.get_field(base, name)
        if isinstance(v, VMod):
            r = self.prog.resolve(v.m, name)
            return self.from_resolved(r)
        if isinstance(v, VExt):
            return self.lib.ext_attr(self, v, name)
        if isinstance(v, VCls):
            c = v.c
            if name in c.consts:
                if c.is_enum:
                    return VObj(lit("enum", "%s.%s" % (c.name, name)), cls=c)
                return self.eval_const(c.consts[name], c.module)
            f = self.prog.lookup(c, name)
            if f is not None:
                return VFun(f)
            raise RaiseSig("AttributeError")
        if isinstance(v, VSuper):
            c = v.self_.exact or v.self_.cls
            # static resolution: the class behind `after` in the mro of the object's class
            f = self.super_lookup(v, name)
            if f is None:
                if name == "__init__":
                    return VExt("noop")
                raise RaiseSig("AttributeError")
            return VBound(("super", f), v.self_)
        if isinstance(v, (VIter, VND)):
            return self.lib.builtin_attr(self, v, name)
        if isinstance(v, (VFun, VBound, VInt, VReal, VBool, VTup)):
            raise RaiseSig("AttributeError")
        raise Unsupported("attribute %s of %r" % (name, v))

    def virtual(self, v, name):
        """A virtual call governed by one contract for all implementations."""
        for cn, meths in getattr(self, "virtuals", {}).items():
            if name in meths:
                c = self.prog.classes.get(cn)
                if c is None:
                    continue
                if (v.cls is not None and c in v.cls.mro):
                    return VBound(("virtual", meths[name]), v)
                if v.cls is None and self.entails(self.isa(v.t, c)):
                    return VBound(("virtual", meths[name]), VObj(v.t, cls=c))
        return None

    def narrow(self, v, cs):
        if v.exact is not None or len(cs) == 0:
            return v
        if len(cs) == 1:
            return VObj(v.t, v.kind, exact=cs[0]) if not cs[0].sub else VObj(v.t, v.kind, cs[0])
        # least common ancestor
        common = [c for c in cs[0].mro if isinstance(c, ClassInfo) and all(c in x.mro for x in cs)]
        if common and (v.cls is None or v.cls in common[0].mro):
            return VObj(v.t, v.kind, common[0])
        return v

    def super_lookup(self, v, name):
        s = v.self_
        if s.exact is not None:
            return self.prog.lookup(s.exact, name, "methods", v.after)
        # all known subclasses of `after` must agree, otherwise fork
        cands = [c for c in (self.prog.subclasses(s.cls) if s.cls else self.prog.subclasses(v.after))
                 if v.after in c.mro]
        groups = {}
        for c in cands:
            f = self.prog.lookup(c, name, "methods", v.after)
            groups.setdefault(id(f), (f, []))[1].append(c)
        gs = list(groups.values())
        if len(gs) == 1:
            return gs[0][0]
        k = self.choose([Or([cls(s.t) == c.cid for c in cs]) for _, cs in gs], full=True)
        return gs[k][0]

    def setattr(self, v, name, val):
        if not isinstance(v, VObj):
            raise Unsupported("attribute store on %r" % (v,))
        if v.kind in ("xml",):
            return self.lib.builtin_setattr(self, v, name, val)
        cands = self.candidates_for(v) or [c for c in self.prog.all_classes if any(
            isinstance(k, ClassInfo) and name in k.setters for k in c.mro) or name in self.class_fields(c)]
        setters = {}
        for c in cands:
            f = None
            for k in c.mro:
                if isinstance(k, ClassInfo):
                    if name in k.setters:
                        f = k.setters[name]
                        break
                    if name in k.getters:
                        f = "ro"
                        break
            setters.setdefault(id(f) if not isinstance(f, str) else f, (f, []))[1].append(c)
        gs = list(setters.values())
        if not gs:
            return self.set_field(v, name, val)
        k = 0
        if len(gs) > 1:
            k = self.choose([Or([cls(v.t) == c.cid for c in cs]) for _, cs in gs], full=True)
        f, cs = gs[k]
        if f == "ro":
            raise RaiseSig("AttributeError")
        if f is None:
            return self.set_field(v, name, val)
        self.call_function(VFun(f), [self.narrow(v, cs), val], {})

    # ------------------------------------------------------------------ names
    def from_resolved(self, r):
        if r is None:
            return None
        if r[0] == "class":
            return VCls(r[1])
        if r[0] == "func":
            return VFun(r[1])
        if r[0] == "const":
            return self.eval_const(r[1], r[2])
        if r[0] == "mod":
            return VMod(r[1])
        return VExt(r[1])

    def eval_const(self, node, module):
        try:
            x = ast.literal_eval(node)
        except Exception:
            raise Unsupported("module constant %s" % ast.unparse(node)[:60])
        return self.pyval(x)

    def pyval(self, x):
        if x is None:
            return VNone
        if isinstance(x, bool):
            return VBool(x)
        if isinstance(x, int):
            return VInt(x)
        if isinstance(x, float):
            return VReal(x)
        if isinstance(x, str):
            return self.lit_str(x)
        if isinstance(x, bytes):
            return VObj(lit("bytes", x), kind="bytes")
        if isinstance(x, tuple):
            return VTup([self.pyval(y) for y in x])
        if isinstance(x, list):
            return self.new_list([self.pyval(y) for y in x])
        raise Unsupported("constant %r" % (x,))

    def lookup(self, fid, name):
        f = fid
        while f is not None:
            fr = self.st.frames[f]
            if name in fr:
                return fr[name]
            f = fr["$meta"][2]
        meta = self.st.frames[fid]["$meta"]
        r = self.from_resolved(self.prog.resolve(meta[0], name))
        if r is not None:
            return r
        if name in self.lib.BUILTINS:
            return VExt("builtins." + name)
        if name in self.lib.EXC_NAMES:
            return VExt("builtins." + name)
        raise RaiseSig("NameError")

    def store_name(self, fid, name, v):
        fr = self.st.frames[fid]
        if name in fr.get("$nonlocal", ()):
            f = fr["$meta"][2]
            while f is not None:
                if name in self.st.frames[f]:
                    self.st.frames[f][name] = v
                    return
                f = self.st.frames[f]["$meta"][2]
        fr[name] = v

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, VFun):
            return self.call_function(f, args, kwargs)
        if isinstance(f, VBound):
            if isinstance(f.fn, str):
                return self.lib.call_builtin_method(self, f.self_, f.fn, args, kwargs)
            if isinstance(f.fn, tuple) and f.fn[0] == "virtual":
                self.used_contracts.add(f.fn[1].name)
                return f.fn[1].apply(self, f.self_, args, kwargs)
            if isinstance(f.fn, tuple) and f.fn[0] == "super":
                return self.call_function(VFun(f.fn[1]), [f.self_] + args, kwargs, inline=True)
            return self.call_function(VFun(f.fn), [f.self_] + args, kwargs)
        if isinstance(f, VCls):
            return self.construct(f.c, args, kwargs)
        if isinstance(f, VExt):
            return self.lib.call_ext(self, f.name, args, kwargs)
        if isinstance(f, VObj):
            r = self.unreg(f.t)
            if r is not None:
                return self.call(r, args, kwargs)
            if f.cls is not None or f.exact is not None:
                raise RaiseSig("TypeError")
            return self.user_call(f, args, kwargs)
        raise Unsupported("call of %r" % (f,))

    def user_call(self, f, args, kwargs):
        if kwargs:
            raise Unsupported("keyword call of a user function")
        self.note("functions passed in by the user are deterministic, do not raise and do not modify the graph")
        if getattr(self, "on_user_call", None):
            r = self.on_user_call(self, f, args)
            if r is not None:
                return r
        if len(args) == 1:
            r = app1(f.t, self.box(args[0]))
        elif len(args) == 2:
            r = app2(f.t, self.box(args[0]), self.box(args[1]))
        else:
            raise Unsupported("user function with %d arguments" % len(args))
        return VObj(r)

    def construct(self, c, args, kwargs):
        if c.is_enum:
            i = args[0]
            if isinstance(i, VObj) and i.cls is c:
                return i
            n = self.as_int(i)
            ms = self.enums[c.name]
            conds = [n == x for _, x in ms] + [And([n != x for _, x in ms])]
            k = self.choose(conds)
            if k == len(ms):
                raise RaiseSig("ValueError")
            return VObj(lit("enum", "%s.%s" % (c.name, ms[k][0])), cls=c)
        if c.is_exc:
            return VCls(c)
        q = "new:" + c.name
        if q in self.contracts:
            self.used_contracts.add(q)
            return self.contracts[q].apply(self, None, args, kwargs)
        o = self.alloc("new_" + c.name, c.cid, exact=c)
        init = self.prog.lookup(c, "__init__")
        if init is not None:
            self.call_function(VFun(init), [o] + args, kwargs, inline=True)
        return o

    def bind(self, fi, fv, args, kwargs, fr):
        a = fi.node.args
        if a.vararg or a.kwarg:
            raise Unsupported("*args/**kwargs in %s" % fi.qual)
        params = [x.arg for x in a.posonlyargs + a.args]
        cl = fi.cls
        mg = lambda s: mangle(cl, s)
        vals = {}
        if len(args) > len(params):
            raise RaiseSig("TypeError")
        for p, v in zip(params, args):
            vals[p] = v
        for k, v in kwargs.items():
            if k in vals or (k not in params and k not in [x.arg for x in a.kwonlyargs]):
                raise RaiseSig("TypeError")
            vals[k] = v
        nd = len(a.defaults)
        for i, d in enumerate(a.defaults):
            p = params[len(params) - nd + i]
            if p not in vals:
                vals[p] = self.default_value(fi, p, d, fv)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in vals and d is not None:
                vals[x.arg] = self.default_value(fi, x.arg, d, fv)
        for p in params + [x.arg for x in a.kwonlyargs]:
            if p not in vals:
                raise RaiseSig("TypeError")
            fr[mg(p)] = vals[p]

    def default_value(self, fi, p, d, fv):
        try:
            return self.pyval_default(ast.literal_eval(d), fi, p)
        except (ValueError, SyntaxError):
            pass
        # evaluated once, at definition time: enum members, constants, or one shared object
        if isinstance(d, (ast.Name, ast.Attribute)):
            fid = self.push(fi.module, fi.cls, None, None)
            return self.ev(d, fid)
        if isinstance(d, ast.Call):
            return self.lib.shared_default(self, fi, p, d)
        raise Unsupported("default value %s" % ast.unparse(d))

    def pyval_default(self, x, fi, p):
        if isinstance(x, (list, dict, set)):
            return self.lib.shared_default(self, fi, p, x)
        return self.pyval(x)

    def push(self, module, cl, parent, fi):
        fid = self.st.nfid
        self.st.nfid += 1
        self.st.frames[fid] = {"$meta": (module, cl, parent, fi)}
        return fid

    def call_function(self, fv, args, kwargs, inline=False):
        fi = fv.fi
        if not inline and fi.qual in self.contracts and fv.fid is None:
            c = self.contracts[fi.qual]
            self.used_contracts.add(fi.qual)
            r = c.apply(self, args[0] if args else None, args[1:], kwargs) if fi.cls is not None and \
                fi.kind == "function" else c.apply(self, None, args, kwargs)
            if isinstance(r, VCoro) and not kwargs:
                r.call = (fv, args)
            return r
        if isinstance(fi.node, ast.Lambda):
            fid = self.push(fi.module, fi.cls, fv.fid, fi)
            self.bind(fi, fv, args, kwargs, self.st.frames[fid])
            return self.ev(fi.node.body, fid)
        if any("abstractmethod" in d for d in fi.decorators):
            raise RaiseSig("NotImplementedError")
        self.inlined.add(fi.qual)
        if fi.is_gen:
            return VIter(lambda eng, handler: self.run_gen(fv, args, kwargs, handler), fi.qual)
        if fi.is_async:
            return VCoro(lambda: self.run_body(fv, args, kwargs), fi.qual, (fv, args) if not kwargs and fv.fid is None else None)
        return self.run_body(fv, args, kwargs)

    def run_body(self, fv, args, kwargs, handler=None):
        fi = fv.fi
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported("recursion without contract: %s" % fi.qual)
        try:
            fid = self.push(fi.module, fi.cls, fv.fid, fi)
            fr = self.st.frames[fid]
            self.bind(fi, fv, args, kwargs, fr)
            fr["$handler"] = handler
            res = VNone
            try:
                self.block(fi.node.body, fid)
            except ReturnSig as r:
                if r.fid != fid:
                    raise
                res = r.v
            if fi.qual in self.on_return:
                self.on_return[fi.qual](self, args)
            return res
        finally:
            self.depth -= 1

    def run_gen(self, fv, args, kwargs, handler):
        self.run_body(fv, args, kwargs, handler)

    def await_(self, v):
        if isinstance(v, VCoro):
            return v.run()
        if isinstance(v, VObj):
            r = self.unreg(v.t)
            if r is not None:
                return self.await_(r)
            if getattr(self, "on_await", None):
                return self.on_await(self, v)
        raise Unsupported("await of %r" % (v,))

    # ------------------------------------------------------------------ statements
    def block(self, stmts, fid):
        for s in stmts:
            self.stmt(s, fid)

    def mg(self, fid, name):
        return mangle(self.st.frames[fid]["$meta"][1], name)

    def stmt(self, s, fid):
        self.where = "%s:%d" % (self.st.frames[fid]["$meta"][0].short, getattr(s, "lineno", 0))
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s at %s" % (type(s).__name__, self.where))
        return m(s, fid)

    def s_Expr(self, s, fid):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fid)

    def s_Pass(self, s, fid):
        pass

    def s_Import(self, s, fid):
        for a in s.names:
            self.st.frames[fid][self.mg(fid, a.asname or a.name.split(".")[0])] = VExt(a.name)

    def s_ImportFrom(self, s, fid):
        meta = self.st.frames[fid]["$meta"]
        for a in s.names:
            tgt = self.prog.modules.get(s.module)
            v = None
            if tgt is not None:
                v = self.from_resolved(self.prog.resolve(tgt, a.name))
            self.st.frames[fid][self.mg(fid, a.asname or a.name)] = v or VExt("%s.%s" % (s.module, a.name))

    def s_Assign(self, s, fid):
        v = self.ev(s.value, fid)
        for t in s.targets:
            self.assign(t, v, fid)

    def s_AnnAssign(self, s, fid):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fid), fid)

    def s_AugAssign(self, s, fid):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.ev(ast.Name(id=t.id, ctx=ast.Load(), lineno=s.lineno), fid)
            if isinstance(old, VObj) and self.is_list(old) and isinstance(s.op, ast.Add):
                self.list_extend(old, self.ev(s.value, fid))
                return
            if isinstance(old, VND):
                v = self.ev(s.value, fid)
                self.assign(t, self.lib.nd.inplace(self, old, self.binop(s.op, old, v)), fid)
                return
            self.assign(t, self.binop(s.op, old, self.ev(s.value, fid)), fid)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fid)
            old = self.getattr(o, self.mg(fid, t.attr))
            if isinstance(old, VObj) and self.is_list(old) and isinstance(s.op, ast.Add):
                self.list_extend(old, self.ev(s.value, fid))
                return
            if isinstance(old, VND):
                raise Unsupported("in-place change of an array")
            self.setattr(o, self.mg(fid, t.attr), self.binop(s.op, old, self.ev(s.value, fid)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fid)
            k = self.ev(t.slice, fid)
            old = self.getitem(o, k)
            v = self.binop(s.op, old, self.ev(s.value, fid))
            if isinstance(o, VND):
                self.nd_assign(t, o, k, v, fid)
                return
            self.setitem(o, k, v)
        else:
            raise Unsupported("augmented assignment")

    def assign(self, t, v, fid):
        if isinstance(t, ast.Name):
            self.store_name(fid, self.mg(fid, t.id), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fid), self.mg(fid, t.attr), v)
        elif isinstance(t, ast.Subscript):
            keys, x = [], t
            while isinstance(x.value, ast.Subscript):       # x[i][j] = v
                x = x.value
                keys.append(x)
            o = self.ev(x.value, fid)
            ks = []
            for y in reversed(keys):
                k = self.integer(self.ev(y.slice, fid))
                if isinstance(o, VND) and isinstance(k, VInt) and len(ks) + 1 < len(o.shape):
                    ks.append(k)
                else:
                    o = o if isinstance(o, (VCls, VExt)) else self.getitem(o, VTup(ks + [k]) if ks else k)
                    ks = []
            if isinstance(o, VND):
                k = self.ev(t.slice, fid)
                k = self.integer(k) if ks else k
                if ks and not isinstance(k, VInt):
                    raise Unsupported("item assignment on a part of an array")
                self.nd_assign(x if ks else t, o, VTup(ks + [k]) if ks else k, v, fid)
                return
            self.setitem(o, self.ev(t.slice, fid), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, items):
                self.assign(x, y, fid)
        else:
            raise Unsupported("assignment target")

    def nd_assign(self, t, o, k, v, fid):
        """x[k] = v for an array that only the name x holds, or one that objects hold."""
        if o.ref is not None:
            self.lib.nd.change(self, o, self.lib.nd.setitem(self, self.lib.nd.current(self, o), k, v))
            return
        if not isinstance(t.value, ast.Name):
            raise Unsupported("item assignment on an array that is not a local name")
        w = self.lib.nd.inplace(self, o, self.lib.nd.setitem(self, o, k, v))
        self.assign(t.value, w, fid)

    def unpack(self, v, n):
        if isinstance(v, VTup):
            if len(v.items) != n:
                raise RaiseSig("ValueError")
            return v.items
        if isinstance(v, VObj):
            w = self.wrap(v.t)
            if isinstance(w, VTup):
                return self.unpack(w, n)
            if v.kind in (None, "any"):
                hook = getattr(self, "unpack_hint", None)
                t, pr = tupf(n)
                if self.choose([And(cls(v.t) == C_TUPLE, slen(v.t) == n), Not(And(cls(v.t) == C_TUPLE, slen(v.t) == n))],
                               full=True) == 0:
                    self.assume(v.t == t(*[p(v.t) for p in pr]))
                    out = []
                    for p in pr:
                        self.known(p(v.t))
                        out.append(self.wrap(p(v.t)))
                    return out
                if self.is_list(v) or self.branch(cls(v.t) == C_LIST):
                    return self.unpack(VObj(v.t, kind="list"), n)
                raise RaiseSig("ValueError")
            if v.kind == "list":
                q = self.content(v)
                if self.choose([qlen(q) == n, qlen(q) != n], full=True) == 0:
                    return [self.list_elem(q, IntVal(i)) for i in range(n)]
                raise RaiseSig("ValueError")
        if isinstance(v, VIter):
            return self.unpack(self.to_list(v), n)
        raise Unsupported("unpacking %r" % (v,))

    def s_Return(self, s, fid):
        v = VNone if s.value is None else self.ev(s.value, fid)
        raise ReturnSig(fid, v)

    def s_If(self, s, fid):
        if self.truth(self.ev(s.test, fid)):
            self.block(s.body, fid)
        else:
            self.block(s.orelse, fid)

    def s_Raise(self, s, fid):
        if s.exc is None:
            e = self.st.frames[fid].get("$exc")
            if e is None:
                raise RaiseSig("RuntimeError")
            raise RaiseSig(e[0], e[1])
        v = self.ev(s.exc, fid)
        if isinstance(v, VCls):
            raise RaiseSig(v.c)
        if isinstance(v, VExt):
            raise RaiseSig(v.name.split(".")[-1])
        if isinstance(v, VObj) and v.exact is not None:
            raise RaiseSig(v.exact, v)
        raise Unsupported("raise of %r" % (v,))

    def s_Assert(self, s, fid):
        if not self.truth(self.ev(s.test, fid)):
            raise RaiseSig("AssertionError")

    def s_Break(self, s, fid):
        raise BreakSig(self.st.frames[fid]["$loops"][-1])

    def s_Continue(self, s, fid):
        raise ContinueSig(self.st.frames[fid]["$loops"][-1])

    def s_Delete(self, s, fid):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.frames[fid].pop(self.mg(fid, t.id), None)
            elif isinstance(t, ast.Attribute):
                pass    # deletion of an attribute that is reassigned later (checked: reads after deletion are not modelled)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fid)
                if self.is_dict(o):
                    self.dict_pop(o, self.ev(t.slice, fid))
                else:
                    raise Unsupported("del of subscript")
            else:
                raise Unsupported("del")

    def s_Nonlocal(self, s, fid):
        fr = self.st.frames[fid]
        fr["$nonlocal"] = tuple(fr.get("$nonlocal", ())) + tuple(s.names)

    def s_FunctionDef(self, s, fid):
        meta = self.st.frames[fid]["$meta"]
        fi = self._finfo(s, meta)
        self.store_name(fid, self.mg(fid, s.name), VFun(fi, fid))

    s_AsyncFunctionDef = s_FunctionDef

    def _finfo(self, node, meta):
        c = getattr(self, "_fic", None)
        if c is None:
            c = self._fic = {}
        if id(node) not in c:
            c[id(node)] = FuncInfo(node, meta[0], meta[1])
        return c[id(node)]

    def exc_match(self, sig, handler, fid):
        if handler.type is None:
            return True
        v = self.ev(handler.type, fid)
        vs = v.items if isinstance(v, VTup) else [v]
        for x in vs:
            if isinstance(x, VCls) and isinstance(sig.exc, ClassInfo) and x.c in sig.exc.mro:
                return True
            if isinstance(x, VExt):
                n = x.name.split(".")[-1]
                if n in ("Exception", "BaseException"):
                    return True
                if isinstance(sig.exc, str) and (n == sig.exc or n in self.lib.EXC_BASES.get(sig.exc, ())):
                    return True
                if isinstance(sig.exc, ClassInfo) and n in sig.exc.mro:
                    return True
        return False

    def s_Try(self, s, fid):
        try:
            try:
                self.block(s.body, fid)
            except RaiseSig as r:
                for h in s.handlers:
                    if self.exc_match(r, h, fid):
                        fr = self.st.frames[fid]
                        fr["$exc"] = (r.exc, r.value)
                        if h.name:
                            fr[h.name] = VExt("exc")
                        self.block(h.body, fid)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fid)
        except Signal:
            self.block(s.finalbody, fid)
            raise
        else:
            self.block(s.finalbody, fid)

    def s_With(self, s, fid):
        raise Unsupported("with statement")

    def s_Match(self, s, fid):
        v = self.ev(s.subject, fid)
        for c in s.cases:
            cond, binds = self.pattern(c.pattern, v, fid)
            if self.branch(cond):
                for k, x in binds:
                    self.store_name(fid, k, x)
                if c.guard is not None and not self.truth(self.ev(c.guard, fid)):
                    continue
                self.block(c.body, fid)
                return

    def pattern(self, p, v, fid):
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return BoolVal(True), ([(self.mg(fid, p.name), v)] if p.name else [])
            c, b = self.pattern(p.pattern, v, fid)
            return c, b + [(self.mg(fid, p.name), v)]
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.ev(p.value, fid)), []
        if isinstance(p, ast.MatchSingleton):
            return self.identical(v, self.pyval(p.value)), []
        if isinstance(p, ast.MatchClass):
            if p.patterns or p.kwd_patterns:
                raise Unsupported("class pattern with arguments")
            return self.isinstance_cond(v, self.ev(p.cls, fid)), []
        if isinstance(p, ast.MatchOr):
            cs = [self.pattern(x, v, fid) for x in p.patterns]
            return Or([c for c, _ in cs]), []
        raise Unsupported("pattern %s" % type(p).__name__)

    # ------------------------------------------------------------------ loops
    def s_While(self, s, fid):
        key = ("loop", id(s), fid)
        fr = self.st.frames[fid]
        fr["$loops"] = fr.get("$loops", ()) + (key,)
        broke = False

        def step():
            if not self.truth(self.ev(s.test, fid)):
                raise LoopExit()
            try:
                self.block(s.body, fid)
            except ContinueSig as c:
                if c.key != key:
                    raise

        try:
            # a loop whose test is decided by constants is unrolled
            self.loop(step, key, None)
        except BreakSig as b:
            if b.key != key:
                raise
            broke = True
        finally:
            if fid in self.st.frames:
                fr = self.st.frames[fid]
                ls = fr.get("$loops", ())
                if key in ls:
                    fr["$loops"] = ls[:ls.index(key)]
        if not broke:
            self.block(s.orelse, fid)

    def s_For(self, s, fid):
        it = self.ev(s.iter, fid)
        key = ("loop", id(s), fid)
        fr = self.st.frames[fid]
        fr["$loops"] = fr.get("$loops", ()) + (key,)
        broke = False

        def handler(v):
            try:
                self.assign(s.target, v, fid)
                self.block(s.body, fid)
            except ContinueSig as c:
                if c.key != key:
                    raise

        try:
            self.iterate(it, handler)
        except BreakSig as b:
            if b.key != key:
                raise
            broke = True
        finally:
            if fid in self.st.frames:
                fr = self.st.frames[fid]
                ls = fr.get("$loops", ())
                if key in ls:
                    fr["$loops"] = ls[:ls.index(key)]
        if not broke:
            self.block(s.orelse, fid)

    s_AsyncFor = s_For

    # modified parts of a state: ("h", key) | ("l", fid, name) | ("g", key) | ("now",)
    def diff(self, a, b, basefids, since=None):
        """since: iterators created later do not count"""
        out = set()
        for k in set(a.heap) | set(b.heap):
            if not self.H(k, a).eq(self.H(k, b)):
                out.add(("h", k))
        for fid in basefids:
            fa, fb = a.frames[fid], b.frames.get(fid, {})
            for n in set(fa) | set(fb):
                if n.startswith("$"):
                    continue
                x, y = fa.get(n), fb.get(n)
                if not self.same(x, y):
                    out.add(("l", fid, n))
        for k in set(a.ghost) | set(b.ghost):
            if since is not None and isinstance(k, tuple) and k[0] == "used" and k[1] > since:
                continue
            if isinstance(k, str) and k.startswith("idx_") and k not in a.ghost:
                continue        # the counter of a loop within
            if not self.same_g(a.ghost.get(k), b.ghost.get(k)):
                out.add(("g", k))
        if not a.now.eq(b.now):
            out.add(("now",))
        return out

    def same_g(self, x, y):
        if x is y:
            return True
        if x is None or y is None:
            return False
        if is_expr(x) and is_expr(y):
            return x.eq(y)
        return x == y

    def same(self, x, y):
        if x is y:
            return True
        if x is None or y is None or type(x) is not type(y):
            return False
        if isinstance(x, (VInt, VBool, VReal, VObj)):
            return x.t.eq(y.t)
        if isinstance(x, VTup):
            return len(x.items) == len(y.items) and all(self.same(a, b) for a, b in zip(x.items, y.items))
        if isinstance(x, VFun):
            return x.fi is y.fi and x.fid == y.fid
        if isinstance(x, VBound):
            return x.fn is y.fn and self.same(x.self_, y.self_)
        if isinstance(x, VCls):
            return x.c is y.c
        if isinstance(x, VExt):
            return x.name == y.name
        if isinstance(x, VMod):
            return x.m is y.m
        return False

    def frames_of(self, h, outs, M, src):
        """Heap arrays that are only written at loop invariant places or new objects: key -> these places.
        The claim is inductive: it is checked for every write of every iteration."""
        fr = {}
        i = None
        for m in M:
            if m[0] != "h":
                continue
            k = m[1]
            base = self.H(k, h)
            targets, ok = [], True
            for o in outs:
                if not (o.sig is None or isinstance(o.sig, ContinueSig)):
                    continue
                a = self.H(k, o.st)
                todo = [a]
                while todo and ok:
                    a = todo.pop()
                    if a.eq(base):
                        continue
                    if is_app(a) and a.decl().kind() == Z3_OP_STORE:
                        t = a.arg(1)
                        if is_const(t) and t.decl().name() in o.st.fresh_objs and t.decl().name() not in h.fresh_objs:
                            pass
                        elif not self.foreign(t, h, None, Int("none!"), None) and not self.varies(t, h, src):
                            if not any(t.eq(x) for x in targets):
                                targets.append(t)
                        else:
                            ok = False
                        todo.append(a.arg(0))
                    else:
                        hd = self.hookdefs.get(a.decl().name()) if is_const(a) else None
                        fr0 = self.framereg.get(a.decl().name()) if is_const(a) else None
                        if hd is not None:
                            todo.append(hd)
                        elif fr0 is not None:
                            # the result of an inner loop
                            todo.append(fr0[0])
                            for t in fr0[1]:
                                if is_const(t) and t.decl().name() in o.st.fresh_objs and \
                                        t.decl().name() not in h.fresh_objs:
                                    continue
                                if not self.foreign(t, h, None, Int("none!"), None) and not self.varies(t, h, src):
                                    if not any(t.eq(x) for x in targets):
                                        targets.append(t)
                                else:
                                    ok = False
                        else:
                            ok = False
            if ok:
                fr[k] = targets
        return fr

    def varies(self, t, h, src):
        return src is not None and self.mentions(t, h.ghost[src.idx])

    def havoc(self, st0, M, seen, frames=None):
        """A copy of st0 in which everything in M is arbitrary; `seen` maps locals to example values (for sorts)."""
        st = st0.copy()
        old = self.st
        self.st = st
        st.ns = st.ns + ".L"
        for m in sorted(M, key=str):
            if m[0] == "h":
                c = self.fresh("h_" + m[1], self.hsort(m[1]))
                st.heap[m[1]] = c
                if frames and m[1] in frames:
                    A0 = self.H(m[1], st0)
                    self.framereg[c.decl().name()] = (A0, frames[m[1]], st0.now)
                    r = Const("r!", V)
                    st.pc.append(FA([r], Implies(And([birth(r) < st0.now] + [r != t for t in frames[m[1]]]),
                                                 c[r] == A0[r]), c[r]))
            elif m[0] == "l":
                st.frames[m[1]][m[2]] = self.havoc_val(st0.frames[m[1]].get(m[2]), seen.get(m, []), m[2])
            elif m[0] == "g":
                v = st0.ghost.get(m[1])
                if isinstance(m[1], tuple) and m[1][0] == "used":
                    st.ghost[m[1]] = v if v == "done" else "maybe"
                    continue
                st.ghost[m[1]] = self.fresh("g_" + str(m[1]), v.sort()) if is_expr(v) else v
        if ("now",) in M:
            n = self.fresh("now", I)
            st.pc.append(n >= st0.now)
            st.now = n
        for m in M:
            if m[0] == "h":
                self.timereg[st.heap[m[1]].decl().name()] = st.now
        # intrinsic facts about containers
        for f in self.lib.intrinsic(self, st, M):
            st.pc.append(f)
        self.st = old
        return st

    def havoc_val(self, v0, examples, name):
        vs = [v for v in [v0] + list(examples) if v is not None]
        if not vs:
            return None
        ks = set(type(v) for v in vs)
        if ks == {VInt}:
            return VInt(self.fresh("l_" + name, I))
        if ks == {VBool}:
            return VBool(self.fresh("l_" + name, B))
        if ks <= {VReal, VInt}:
            return VReal(self.fresh("l_" + name, R))
        if ks == {VND} and v0 is not None:
            if any(len(v.shape) != len(v0.shape) or v.dtype != v0.dtype or
                   not all(simplify(a).eq(simplify(b)) for a, b in zip(v.shape, v0.shape)) for v in vs):
                raise Unsupported("an array that changes its shape in a loop")
            F = self.freshfun("l_" + name, *([I] * len(v0.shape) + [R if v0.dtype == "real" else B]))
            return self.lib.nd.nd(v0.shape, F if v0.shape else (lambda: F()), v0.dtype)
        if ks == {VTup} and len(set(len(v.items) for v in vs)) == 1:
            return VTup([self.havoc_val(vs[0].items[i], [v.items[i] for v in vs[1:]], "%s_%d" % (name, i))
                         for i in range(len(vs[0].items))])
        if v0 is None and (ks & {VIter, VCoro, VFun, VBound, VSuper, VND}):
            return None         # a local of the body only
        if ks <= {VObj, VInt, VBool, VReal, VTup}:
            t = self.fresh("l_" + name, V)
            kinds = set(getattr(v, "kind", None) for v in vs)
            objs = [v for v in vs if isinstance(v, VObj)]
            cl = None
            if ks == {VObj}:
                cs = set(v.cls for v in objs)
                if len(cs) == 1:
                    cl = cs.pop()
            self.known(t)
            kind = kinds.pop() if len(kinds) == 1 and ks == {VObj} else None
            if kind == "none":
                kind = None
            if kind in ("list", "dict", "queue", "set", "str"):
                return VObj(t, kind=kind)
            # type hints come from invariants, not from examples: only keep a class that is re-established
            return VObj(t)
        if len(ks) == 1 and all(self.same(vs[0], v) for v in vs):
            return vs[0]
        return None

    def loop(self, step, key, src):
        """Execute a loop given by step() (one iteration; LoopExit when done) from the current state."""
        ck = (self.xid, tuple(self.dec[:self.pos]), key)
        if ck not in self.loopcache:
            self.loopcache[ck] = self.verify_loop(step, key, src)
        outs = self.loopcache[ck]
        live = [o for o in outs]
        if not live:
            raise Infeasible
        k = self.choose([None] * len(live))
        o = live[k]
        frames_now = self.st.frames
        self.st = o.st.copy()
        if o.sig is not None and not isinstance(o.sig, LoopExit):
            raise o.sig
        return

    def enter_loop(self, st0, M, seen, frames, src, closed=None):
        """The state at the start of an arbitrary iteration."""
        h = self.havoc(st0, M, seen, frames)
        if src is not None:
            self.src_assume(h, src)
            for (_, fid, name), f in (closed or {}).items():
                h.frames[fid][name] = f(h.ghost[src.idx])
        return h

    def verify_loop(self, step, key, src):
        self.stats["loops"] += 1
        st0 = self.st.copy()
        basefids = list(st0.frames)
        rec = self.recording
        # 1. what does an iteration modify?
        M, seen = set(), {}
        self.recording = False
        where = self.where
        since = VIter.count
        self.discovering += 1
        try:
            # frames (arrays written only at loop invariant places) are assumed as soon as they show and kept only if every
            # write of every iteration from the resulting state conforms to them
            frames, nofr, final = {}, set(), None
            for _ in range(24):
                h = self.enter_loop(st0, M, seen, frames, src)
                outs = self.iteration(step, h)
                D = set()
                for o in outs:
                    if o.sig is None or isinstance(o.sig, ContinueSig):
                        for m in self.diff(h, o.st, basefids, since):
                            D.add(m)
                            if m[0] == "l":
                                x = o.st.frames[m[1]].get(m[2])
                                if x is not None:
                                    seen.setdefault(m, []).append(x)
                M2 = M | D
                fr = self.frames_of(h, outs, M2, src)
                frames2 = {}
                for k in [m[1] for m in M2 if m[0] == "h"]:
                    if k in nofr:
                        continue
                    if k not in fr:
                        nofr.add(k)
                        continue
                    old = frames.get(k, [])
                    frames2[k] = list(old) + [t for t in fr[k] if not any(t.eq(x) for x in old)]
                same = M2 == M and set(frames2) == set(frames) and all(len(frames2[k]) == len(frames[k]) for k in frames)
                if self.trace:
                    print("   frames", where, _, same, sorted(map(str, M2)), {k: [str(x) for x in v] for k, v in frames2.items()})
                if same:
                    if D == M and all(all(any(t.eq(x) for x in fr[k]) for t in v) for k, v in frames.items()) or final:
                        break
                    # more was assumed modified than is: try the smaller claim, fall back to this one
                    final = (M, frames, set(nofr))
                    M, frames = D, {k: v for k, v in fr.items() if ("h", k) in D and k not in nofr}
                    continue
                if final:
                    M, frames, nofr = final[0], final[1], set(final[2])
                    continue
                M, frames = M2, frames2
            else:
                raise Unsupported("loop analysis does not converge")
            # numbers and arrays that are summed up or filled in element by element have a closed form
            closed = self.lib.nd.closed_forms(self, st0, M, h, outs, src) if src is not None else {}
            if closed:
                h = self.enter_loop(st0, M, seen, frames, src, closed)
                outs = self.iteration(step, h)
                for o in outs:
                    if (o.sig is None or isinstance(o.sig, ContinueSig)) and not set(self.diff(h, o.st, basefids, since)) <= M:
                        raise Unsupported("loop analysis does not converge")
            # 2. loops that only collect values are summarised
            if src is not None and self.summarise:
                r = self.try_summary(st0, M, h, outs, src, basefids)
                if r is not None:
                    return r
        finally:
            self.recording = rec
            self.discovering -= 1
        if self.discovering:
            res = [o for o in outs if not (o.sig is None or isinstance(o.sig, ContinueSig))]
            for o in res:
                o.st.ns = o.st.ns + ".x"
            return res
        # 3. invariants: the inductive subset of the candidates
        ctx = LoopCtx(self, st0, M, src, key, h, outs)
        ctx.frames = frames
        cands = list(self.auto_candidates(ctx)) + [c for c in self.candidates(ctx)]
        self.recording = False
        live = []
        old = self.st
        try:
            for name, f in cands:
                self.st = st0.copy()
                if src is not None:
                    self.st.ghost[src.idx] = IntVal(0)
                g = f(self.st)
                if g is None:
                    continue
                ok = self.entails(g, self.cand_rlimit)
                if self.trace:
                    print("   init", name, ok)
                if ok:
                    live.append((name, f))
            for rnd in range(30):
                self.stats["houdini"] += 1
                self.st = old
                h = self.enter_loop(st0, M, seen, frames, src, closed)
                for name, f in live:
                    g = f(h)
                    if g is not None:
                        h.pc.append(g)
                outs = self.iteration(step, h)
                dropped = []
                for o in outs:
                    if not (o.sig is None or isinstance(o.sig, ContinueSig)):
                        continue
                    e = o.st.copy()
                    self.st = e
                    if src is not None:
                        e.ghost[src.idx] = simplify(h.ghost[src.idx] + 1)
                    for c in live:
                        if c in dropped:
                            continue
                        g = c[1](e)
                        if g is None or not self.entails(g, self.cand_rlimit):
                            dropped.append(c)
                            if self.trace and os.environ.get("PYVC_DUMP", "\0") in c[0] and g is not None:
                                self.dump(g, "drop")
                            if self.trace:
                                print("   drop", c[0], "round", rnd)
                if not dropped:
                    break
                live = [c for c in live if c not in dropped]
            else:
                raise Unsupported("invariant inference does not converge")
        finally:
            self.recording = rec
            self.st = old
        if self.trace:
            print("  loop at %s: modifies %s; invariants %s" % (where, sorted(str(m) for m in M), [c[0] for c in live]))
        self.loopinfo = getattr(self, "loopinfo", [])
        self.loopinfo.append({"at": where, "invariants": [c[0] for c in live], "tried": len(cands)})
        # 4. final pass: obligations inside the body, exits
        if rec:
            h = self.enter_loop(st0, M, seen, frames, src, closed)
            for name, f in live:
                g = f(h)
                if g is not None:
                    h.pc.append(g)
            outs = self.iteration(step, h)
        res = [o for o in outs if not (o.sig is None or isinstance(o.sig, ContinueSig))]
        if src is not None and src.on_iter_end is not None and rec:
            for o in outs:
                if o.sig is None or isinstance(o.sig, ContinueSig):
                    self.st = o.st.copy()
                    src.on_iter_end(self, h)
            self.st = old
        for o in res:
            o.st.ns = o.st.ns + ".x"
        return res

    def iteration(self, step, h):
        LOOPD[0] += 1
        try:
            return self.explore(step, h)
        finally:
            LOOPD[0] -= 1

    def src_assume(self, h, src):
        i = Int("%s!%d" % (src.idx, nsid(h.ns)))
        h.ghost[src.idx] = i
        h.pc.append(And(0 <= i, i <= src.n))

    def auto_candidates(self, ctx):
        """Frames: an array changes only at loop invariant places and at new objects."""
        st0 = ctx.st0
        for m in sorted(ctx.M, key=str):
            if m[0] != "h" or m[1] in ctx.frames:
                continue
            k = m[1]
            targets = []
            ok = True
            for o in ctx.outs:
                if not (o.sig is None or isinstance(o.sig, ContinueSig)):
                    continue
                a = self.H(k, o.st)
                base = self.H(k, ctx.h)
                while not a.eq(base):
                    if is_app(a) and a.decl().kind() == Z3_OP_STORE:
                        t = a.arg(1)
                        if ctx.invariant_term(t):
                            if not any(t.eq(x) for x in targets):
                                targets.append(t)
                        a = a.arg(0)
                    elif is_app(a) and a.decl().kind() == Z3_OP_ITE:
                        a = a.arg(2)
                    else:
                        ok = False
                        break
            A0 = self.H(k, st0)
            r = Const("r!", V)

            def frame(st, k=k, targets=tuple(targets), A0=A0):
                A = self.H(k, st)
                return FA([r], Implies(And([birth(r) < st0.now] + [r != t for t in targets]), A[r] == A0[r]), A[r])
            yield ("frame:" + k, frame)

        if ctx.src is not None and not any(o.sig is None or isinstance(o.sig, ContinueSig) for o in ctx.outs):
            yield "the first iteration is the last", lambda st: st.ghost[ctx.src.idx] == 0
        yield from self.dict_candidates(ctx)

    def dict_candidates(self, ctx):
        """A loop over a dictionary that fills another one with the same keys."""
        src = ctx.src
        if src is None or src.dict is None or ("h", "DD") not in ctx.M:
            return
        targets = []
        for o in ctx.outs:
            if not (o.sig is None or isinstance(o.sig, ContinueSig)):
                continue
            a = self.H("DD", o.st)
            while is_app(a) and a.decl().kind() == Z3_OP_STORE:
                if ctx.invariant_term(a.arg(1)) and not any(a.arg(1).eq(x) for x in targets):
                    targets.append(a.arg(1))
                a = a.arg(0)
        k = Const("k!", V)
        for t in targets:
            def done(st, k=k):
                return And(Select(src.dom, k), PO(src.dom, src.stamp, k) < st.ghost[src.idx])
            D0 = Select(self.H("DD", ctx.st0), t)
            V0, S0 = Select(self.H("DV", ctx.st0), t), Select(self.H("DV", ctx.st0), src.dict)
            N0 = Select(self.H("DN", ctx.st0), t)

            def keys(st, t=t, D0=D0):
                x = Select(Select(self.H("DD", st), t), k)
                return FA([k], x == Or(Select(D0, k), done(st)), x)

            def vals(st, t=t, V0=V0, S0=S0):
                x = Select(Select(self.H("DV", st), t), k)
                return FA([k], x == If(done(st), Select(S0, k), Select(V0, k)), x)

            def size(st, t=t, N0=N0):
                return Select(self.H("DN", st), t) == N0 + st.ghost[src.idx]
            yield ("keys so far", keys)
            yield ("values so far", vals)
            yield ("size so far", size)

    # ------------------------------------------------------------------ iteration
    def iterate(self, it, handler):
        if isinstance(it, VTup):
            for x in it.items:
                handler(x)
            return
        if isinstance(it, VIter):
            if getattr(it, "seq", None) is not None and hasattr(handler, "bulk"):
                handler.bulk(it.seq)
                return
            if getattr(it, "reiter", False):
                it.run(self, handler)
                return
            # a generator can be consumed once only
            k = ("used", it.no)
            u = self.st.ghost.get(k)
            if u == "done":
                return
            if u is not None:
                raise Unsupported("a partly consumed iterator is used again")
            self.st.ghost[k] = "maybe"
            it.run(self, handler)
            self.st.ghost[k] = "done"
            return
        if isinstance(it, VObj):
            w = self.unreg(it.t)
            if w is not None:
                return self.iterate(w, handler)
            if self.is_list(it):
                return self.iterate_list(it, handler)
            if self.is_dict(it):
                return self.iterate_dict(it, "keys", handler)
            if it.kind == "str":
                raise Unsupported("iteration over a string")
            c = it.exact or it.cls
            if c is not None or it.kind is None:
                f = self.prog.lookup(c, "__iter__") if c is not None else None
                if f is not None:
                    return self.iterate(self.call_function(VFun(f), [it], {}), handler)
            if it.kind in (None, "any"):
                if self.choose([cls(it.t) == C_LIST, cls(it.t) != C_LIST], full=True) == 0:
                    return self.iterate_list(VObj(it.t, kind="list"), handler)
            raise RaiseSig("TypeError")
        if isinstance(it, VND):
            return self.lib.nd.iterate(self, it, handler)
        raise Unsupported("iteration over %r" % (it,))

    def iterate_list(self, l, handler):
        q = self.content(l)
        s = self.seq_of(q)
        self.iterate_seq(s, handler, l, q)

    def iterate_seq(self, s, handler, l=None, q=None):
        """l: the list object, which must not change during the iteration."""
        if isinstance(s, SOne):
            return handler(self.wrap(s.v))
        if isinstance(s, SCat):
            for p in s.parts:
                self.iterate_seq(p, handler, l, q)
            return
        if isinstance(s, SIf):
            if self.branch(s.c):
                self.iterate_seq(s.body, handler, l, q)
            return

        def unchanged(eng, h):
            if l is not None and is_app(l.t) and not l.t.decl().eq(listval):
                g = self.sel(self.H("LC"), l.t) == q
                self.oblige(g, "the list is not changed while it is iterated", ("safety",))

        if isinstance(s, SAtom):
            n = qlen(s.q)
            self.indexed_loop(n, lambda i: handler(self.list_elem(s.q, i)), ("seq", s.q.get_id()), Src(
                n, "i", seq=s.q, elt=lambda i: qelt(s.q, i)), unchanged)
            return
        if isinstance(s, SLoop):
            def body(i):
                return self.iterate_seq(seq_subst(s.body, [(s.i, i)]), handler)
            d, dom, stamp = self.enumerated(s)
            if d is not None:
                self.enum_facts(dom, stamp, s.n)
                plain = body

                def body(i):
                    k = EN(dom, stamp, i)
                    self.assume(And(Select(dom, k), PO(dom, stamp, k) == i))
                    return plain(i)
            self.indexed_loop(s.n, body, ("loop", s.n.get_id(), s.i.get_id()), Src(s.n, "i", seqexpr=s, dict=d, dom=dom, stamp=stamp),
                              unchanged)
            return
        raise Unsupported("sequence")

    def enumerated(self, s):
        """The dictionary whose entries the loop lists, if it is one."""
        todo, seen = [t for t in self.seq_terms(s.body)], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen or not is_app(x):
                continue
            seen.add(x.get_id())
            if x.decl().eq(EN) and x.arg(2).eq(s.i):
                r = self.enums.get((x.arg(0).get_id(), x.arg(1).get_id()))
                if r is not None and r[3].eq(s.n):
                    return r[0], r[1], r[2]
            todo.extend(x.children())
        return None, None, None

    def indexed_loop(self, n, body, key, src, on_end=None):
        n = simplify(n)
        if is_int_value(n) and n.as_long() <= 12:
            for k in range(n.as_long()):
                body(IntVal(k))
            return
        idx = "idx_%d" % nsid(str(key) + self.st.ns + str(self.pos))
        src.idx, src.n = idx, n
        src.on_iter_end = on_end
        st = self.st
        self.assume(n >= 0)
        st.ghost[idx] = IntVal(0)

        def step():
            i = self.st.ghost[idx]
            if not self.branch(i < n):
                raise LoopExit()
            body(i)
        self.loop(step, ("ix",) + key, src)

    def iterate_dict(self, d, what, handler, index=None):
        if index is not None:
            inner = handler
            cur = [None]
            handler = lambda v: inner(index(cur[0], v))
        dom, stamp = self.dsel("DD", d.t), self.dsel("DS", d.t)
        n = self.dsel("DN", d.t)
        self.enums[(dom.get_id(), stamp.get_id())] = (d.t, dom, stamp, simplify(n))
        self.enum_facts(dom, stamp, n)

        def body(i):
            k = EN(dom, stamp, i)
            if index is not None:
                cur[0] = i
            self.assume(And(Select(dom, k), PO(dom, stamp, k) == i))
            kv = self.wrap(k)
            if what == "keys":
                return handler(kv)
            v = Select(self.dsel("DV", d.t), k)
            self.known(v)
            vv = self.dict_value(d, v)
            return handler(vv if what == "values" else VTup([kv, vv]))

        def unchanged(eng, h):
            self.oblige(And(self.dsel("DD", d.t) == dom), "the dictionary keeps its keys while it is iterated",
                        ("safety",))

        self.indexed_loop(n, body, ("dict", d.t.get_id(), dom.get_id()),
                          Src(n, "i", dict=d.t, dom=dom, stamp=stamp, what=what), unchanged)

    def dict_value(self, d, v):
        e = getattr(d, "elem", None)
        if e is None:
            return self.wrap(v)
        if isinstance(e, ClassInfo):
            self.oblige(self.isa(v, e), "an element of the dictionary has its declared type", ("type",))
            return VObj(v, cls=e)
        self.oblige(cls(v) == C_DICT, "an element of the dictionary has its declared type", ("type",))
        r = VObj(v, kind="dict")
        r.elem = e[1]
        return r

    def dsel(self, key, t):
        return self.sel(self.H(key), t, self.deep_dicts)

    def enum_facts(self, dom, stamp, n):
        k, i, j = Const("k!", V), Int("i!"), Int("j!")
        self.assume(n >= 0)
        self.assume(FA([i], Implies(And(0 <= i, i < n), And(Select(dom, EN(dom, stamp, i)),
                                                           PO(dom, stamp, EN(dom, stamp, i)) == i)),
                       EN(dom, stamp, i)))
        self.assume(FA([k], Implies(Select(dom, k), And(0 <= PO(dom, stamp, k), PO(dom, stamp, k) < n,
                                                        EN(dom, stamp, PO(dom, stamp, k)) == k)),
                       PO(dom, stamp, k)))
        # insertion order
        k2 = Const("k2!", V)
        self.assume(FA([k, k2], Implies(And(Select(dom, k), Select(dom, k2)),
                                        (PO(dom, stamp, k) < PO(dom, stamp, k2)) ==
                                        (Select(stamp, k) < Select(stamp, k2))),
                       (PO(dom, stamp, k), PO(dom, stamp, k2))))

    # ------------------------------------------------------------------ lists
    def is_list(self, v):
        return isinstance(v, VObj) and v.kind == "list"

    def is_dict(self, v):
        return isinstance(v, VObj) and v.kind == "dict"

    def new_list(self, items):
        l = self.alloc("list", C_LIST, kind="list")
        q = qnil
        for x in items:
            q = qapp(q, self.box(x))
        self.setH("LC", Store(self.H("LC"), l.t, q))
        return l

    def new_list_q(self, q):
        l = self.alloc("list", C_LIST, kind="list")
        self.setH("LC", Store(self.H("LC"), l.t, q))
        return l

    def new_dict(self):
        d = self.alloc("dict", C_DICT, kind="dict")
        for key, v in (("DD", K(V, BoolVal(False))), ("DN", IntVal(0)), ("DX", IntVal(0))):
            self.setH(key, Store(self.H(key), d.t, v))
        return d

    def content(self, l):
        t = l.t
        if is_app(t) and t.decl().eq(listval):
            return t.arg(0)
        return self.sel(self.H("LC"), t, deep=True)

    def set_content(self, l, q):
        if is_app(l.t) and l.t.decl().eq(listval):
            raise Unsupported("a collected list is modified")
        self.setH("LC", Store(self.H("LC"), l.t, q))

    def seq_of(self, q):
        """Sequence expression of a Q term."""
        if is_app(q):
            d = q.decl()
            if d.eq(qnil.decl()):
                return SNil
            if d.eq(qapp):
                return SCat([self.seq_of(q.arg(0)), SOne(q.arg(1))])
            if d.eq(qcat):
                return SCat([self.seq_of(q.arg(0)), self.seq_of(q.arg(1))])
            if d.eq(qrev):
                s = self.seq_of(q.arg(0))
                items = seq_items(s)
                if all(x[0] == "one" and is_true(x[1]) for x in items):
                    return SCat([SOne(x[2]) for x in reversed(items)])
            if d.name() in self.qreg:
                ps, s = self.qreg[d.name()]
                return seq_subst(s, list(zip(ps, q.children()))) if ps else s
        return SAtom(q)

    def seq_to_q(self, s):
        """Q term for a sequence expression, with facts for the simple forms."""
        if isinstance(s, SAtom):
            return s.q
        if isinstance(s, SCat):
            q = qnil
            for p in s.parts:
                if isinstance(p, SOne):
                    q = qapp(q, p.v)
                else:
                    x = self.seq_to_q(p)
                    if x.eq(qnil):
                        continue
                    q = x if q.eq(qnil) else qcat(q, x)
            return q
        if isinstance(s, SOne):
            return qapp(qnil, s.v)
        # a loop or a guarded part: a new function of the free loop indices
        ivs = self.free_indices(s)
        f = self.freshfun("QF", *([I] * len(ivs) + [Q])) if ivs else None
        q = f(*ivs) if ivs else self.fresh("QF", Q)
        self.qreg[q.decl().name()] = (ivs, s)
        if isinstance(s, SLoop):
            its = seq_items(s.body)
            if len(its) == 1 and its[0][0] == "one":
                g, v = its[0][1], its[0][2]
                i, j = s.i, Int("j!")
                quant = list(ivs)
                if is_true(simplify(g)):
                    self.define(self.fa(quant, qlen(q) == If(s.n > 0, s.n, 0), q))
                    body = Implies(And(0 <= i, i < s.n), qelt(q, i) == v)
                    self.assume(FA(quant + [i], body, qelt(q, i)))
                else:
                    src = self.freshfun("src", *([I] * len(ivs) + [I, I]))
                    dst = self.freshfun("dst", *([I] * len(ivs) + [I, I]))
                    sj, di = src(*(ivs + [j])), dst(*(ivs + [i]))
                    gs = lambda t: substitute(g, (i, t))
                    vs = lambda t: substitute(v, (i, t))
                    j2 = Int("j2!")
                    self.define(self.fa(quant, And(qlen(q) >= 0, qlen(q) <= If(s.n > 0, s.n, 0)), q))
                    self.assume(FA(quant + [j], Implies(And(0 <= j, j < qlen(q)),
                                                        And(0 <= sj, sj < s.n, gs(sj), qelt(q, j) == vs(sj),
                                                            dst(*(ivs + [sj])) == j)), qelt(q, j)))
                    self.assume(FA(quant + [i], Implies(And(0 <= i, i < s.n, g),
                                                        And(0 <= di, di < qlen(q), src(*(ivs + [di])) == i,
                                                            qelt(q, di) == v)), di))
                    if not ivs:
                        # every selected index has its place
                        pats = [t for t in [v] if self.mentions(t, i)]
                        if pats and is_app(pats[0]) and pats[0].decl().kind() == Z3_OP_UNINTERPRETED:
                            self.assume(FA([i], Implies(And(0 <= i, i < s.n, g), And(
                                0 <= di, di < qlen(q), src(di) == i, qelt(q, di) == v)), pats[0]))
                    self.assume(FA(quant + [j, j2], Implies(And(0 <= j, j < j2, j2 < qlen(q)), sj < src(*(ivs + [j2]))),
                                   (qelt(q, j), qelt(q, j2))))
        return q

    def define(self, f):
        """Assume a fact that never restricts the path (a definition, a type, a consequence of what is known)."""
        if f is None or is_true(f) or any(c.eq(f) for c in self.st.pc):
            return
        # a form of its own: the same condition may be a decision elsewhere
        self.st.pc.append(And(f, BoolVal(True)))

    def fa(self, vs, body, pat):
        return FA(vs, body, pat) if vs else body

    def mentions(self, t, i):
        todo = [t]
        while todo:
            x = todo.pop()
            if x.eq(i):
                return True
            todo.extend(x.children())
        return False

    def free_indices(self, s):
        """Loop indices that occur in a sequence expression and are bound outside of it."""
        bound = []
        found = {}

        def term(t, bound):
            todo = [t]
            seen = set()
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if is_const(x) and x.sort() == I and x.decl().name().startswith("ix!"):
                    if not any(x.eq(b) for b in bound):
                        found[x.get_id()] = x
                todo.extend(x.children())

        def go(s, bound):
            if isinstance(s, SOne):
                term(s.v, bound)
            elif isinstance(s, SCat):
                for p in s.parts:
                    go(p, bound)
            elif isinstance(s, SIf):
                term(s.c, bound)
                go(s.body, bound)
            elif isinstance(s, SAtom):
                term(s.q, bound)
            elif isinstance(s, SLoop):
                term(s.n, bound)
                go(s.body, bound + [s.i])
        go(s, [])
        return [found[k] for k in sorted(found)]

    def list_elem(self, q, i):
        s = self.seq_of(q)
        items = seq_items(s)
        ii = simplify(i)
        if is_int_value(ii) and all(x[0] == "one" and is_true(x[1]) for x in items):
            k = ii.as_long()
            if 0 <= k < len(items):
                return self.wrap(items[k][2])
        t = qelt(q, ii)
        self.known(t)
        h = getattr(self, "elem_hint", None)
        if h is not None:
            r = h(self, q, t)
            if r is not None:
                return r
        return self.wrap(t)

    def list_append(self, l, v):
        b = self.box(v)
        self.set_content(l, qapp(self.content(l), b))

    def list_extend(self, l, it):
        if isinstance(it, VObj) and self.is_list(it):
            q, p = self.content(l), self.content(it)
            self.set_content(l, self.qconcat(q, p))
            return
        if isinstance(it, VIter) and getattr(it, "seq", None) is not None:
            self.set_content(l, self.qconcat(self.content(l), it.seq))
            return
        self.iterate(it, lambda v: self.list_append(l, v))

    def qconcat(self, q, p):
        if q.eq(qnil):
            return p
        its = seq_items(self.seq_of(p))
        if all(x[0] == "one" and is_true(x[1]) for x in its):
            for x in its:
                q = qapp(q, x[2])
            return q
        return qcat(q, p)

    def to_list(self, it):
        if isinstance(it, VObj) and self.is_list(it):
            return self.new_list_q(self.content(it))
        if isinstance(it, VIter) and getattr(it, "seq", None) is not None:
            return self.new_list_q(it.seq)
        l = self.new_list([])
        self.iterate(it, lambda v: self.list_append(l, v))
        return l

    # ---- summary of collecting loops
    def try_summary(self, st0, M, h, outs, src, basefids):
        """A loop that only appends to lists that existed before (or yields in sequence mode): its effect as sequences."""
        for m in M:
            if m[0] == "h" and m[1] != "LC":
                return self.nosum(1)
            if m[0] == "g" and m[1] not in ("yseq", src.idx) and not m[1].startswith("idx_"):
                return self.nosum((2, m))
            if m[0] == "l" and st0.frames[m[1]].get(m[2]) is not None and not self.dead_local(m, outs, h):
                return self.nosum(3)
        i = h.ghost[src.idx]
        arr_h = self.H("LC", h)
        coll = {}       # target term id -> (term, [(cond, seq)])
        yq = []
        newiv = Const("ix!%d" % next(_ixs), I)
        for o in outs:
            if isinstance(o.sig, LoopExit):
                continue
            if isinstance(o.sig, RaiseSig) and self.impossible(o.st):
                continue
            if o.sig is not None and not isinstance(o.sig, ContinueSig):
                return self.nosum((4, o.sig, getattr(o.sig, 'name', ''), o.st.pc[-3:]))
            # path condition of the iteration
            cond = o.st.pc[len(h.pc):]
            if any(has_quant(c) for c in cond):
                conds = [c for c in cond if not has_quant(c)]
            else:
                conds = cond
            # facts that merely describe new objects or bounds are no guards
            a = self.H("LC", o.st)
            writes = []
            while not a.eq(arr_h):
                if not (is_app(a) and a.decl().kind() == Z3_OP_STORE):
                    return self.nosum(5)
                if not any(a.arg(1).eq(t) for t, _ in writes):
                    writes.append((a.arg(1), a.arg(2)))
                a = a.arg(0)
            fresh_now = set()
            lists = {}
            for t, q in writes:
                if is_const(t) and t.decl().name() in o.st.fresh_objs and t.decl().name() not in h.fresh_objs:
                    lists[t.get_id()] = (t, q)
            def clean(term, depth=0, lists=lists):
                if depth > 6:
                    return self.nosum(6)
                ps = [(t, listval(q)) for t, q in lists.values()]
                for _ in range(5):
                    t2 = substitute(term, *ps) if ps else term
                    if t2.eq(term):
                        break
                    term = t2
                return term
            for t, q in writes:
                if t.get_id() in lists:
                    continue
                if not self.loop_inv(t, h, i, st0):
                    return self.nosum(7)
                base = Select(arr_h, t)
                parts = []
                x = q
                while not x.eq(base):
                    if is_app(x) and x.decl().eq(qapp):
                        parts.append(SOne(x.arg(1)))
                        x = x.arg(0)
                    elif is_app(x) and x.decl().eq(qcat):
                        parts.append(self.seq_of(x.arg(1)))
                        x = x.arg(0)
                    else:
                        return self.nosum(8)
                coll.setdefault(t.get_id(), (t, []))[1].append((conds, list(reversed(parts)), clean, o))
            y = o.st.ghost.get("yseq")
            if y is not None and not self.same_g(y, h.ghost.get("yseq")):
                base = h.ghost.get("yseq")
                parts, x = [], y
                while not x.eq(base):
                    if is_app(x) and x.decl().eq(qapp):
                        parts.append(SOne(x.arg(1)))
                        x = x.arg(0)
                    elif is_app(x) and x.decl().eq(qcat):
                        parts.append(self.seq_of(x.arg(1)))
                        x = x.arg(0)
                    else:
                        return self.nosum(9)
                yq.append((conds, list(reversed(parts)), clean, o))
        results = {}
        for tid, (t, ps) in list(coll.items()) + ([("y", (None, yq))] if yq else []):
            segs = []
            for conds, parts, clean, o in ps:
                guard = [c for c in conds if self.is_guard(c, o, h, i)]
                s = SCat([self.map_seq(p, clean) for p in parts])
                if s is None:
                    return self.nosum(10)
                g = simplify(And(guard)) if guard else BoolVal(True)
                if not is_true(g):      # the index is in range anyway
                    g = simplify(substitute(g, *[(simplify(c), BoolVal(True)) for c in (i < src.n, src.n > i)], *[
                        (simplify(c), BoolVal(False)) for c in (i >= src.n, src.n <= i)]))
                bad = self.foreign(g, h, st0, i, src) or any(self.foreign(x, h, st0, i, src) for x in self.seq_terms(s))
                if bad:
                    return self.nosum((11, [n for x in [g] + self.seq_terms(s) for n, c in self.consts(x).items() if self.foreign(c, h, st0, i, src)]))
                # at most one path is taken in an iteration: paths that add the same are one
                for e in segs:
                    if self.same_seq(e[1], s):
                        e[0] = simplify(Or(e[0], g))
                        break
                else:
                    segs.append([g, s])
            if len(segs) == 1 and not is_true(segs[0][0]):      # the only way on
                keep, self.st = self.st, st0
                if self.entails(Implies(And(0 <= newiv, newiv < src.n), substitute(segs[0][0], (i, newiv)))):
                    segs[0][0] = BoolVal(True)
                self.st = keep
            segs = [seq_subst(SIf(g, s) if not is_true(g) else s, [(i, newiv)]) for g, s in segs]
            body = SCat(segs) if len(segs) != 1 else segs[0]
            results[tid] = (t, self.whole(SLoop(src.n, newiv, body)))
        # the state after the loop
        end = st0.copy()
        old = self.st
        self.st = end
        for m in M:
            if m[0] == "l":
                v = self.havoc_val(st0.frames[m[1]].get(m[2]), [o.st.frames[m[1]][m[2]] for o in outs if
                                   o.sig is None and m[2] in o.st.frames[m[1]]], m[2])
                if v is None:
                    end.frames[m[1]].pop(m[2], None)
                else:
                    end.frames[m[1]][m[2]] = v
        if ("now",) in M:
            n = self.fresh("now", I)
            end.pc.append(n >= st0.now)
            end.now = n
        end.ghost[src.idx] = src.n
        end.ns = end.ns + ".S"
        for tid, (t, s) in results.items():
            q = self.seq_to_q(s)
            if t is None:
                end.ghost["yseq"] = self.qconcat(end.ghost["yseq"], q)
            else:
                arr = self.H("LC")
                b = self.sel(arr, t, deep=True)
                self.setH("LC", Store(arr, t, self.qconcat(b, q)))
        # obligations of the body are recorded once
        if self.saved_recording():
            pass
        self.st = old
        self.stats["summaries"] = self.stats.get("summaries", 0) + 1
        return [Outcome(end, LoopExit(), None)]

    def impossible(self, st):
        keep, self.st = self.st, st
        try:
            return self.entails(BoolVal(False))
        finally:
            self.st = keep

    def whole(self, s):
        """Element by element, a whole sequence."""
        its = seq_items(s.body)
        if len(its) == 1 and its[0][0] == "one" and is_true(simplify(its[0][1])):
            v = its[0][2]
            if is_app(v) and v.decl().eq(qelt) and v.arg(1).eq(s.i) and not self.mentions(v.arg(0), s.i) and simplify(qlen(v.arg(0))).eq(simplify(s.n)):
                return self.seq_of(v.arg(0))
        return s

    def nosum(self, k):
        if self.trace:
            print("   no summary", self.where, "reason", k)
        return None

    def saved_recording(self):
        return True

    def same_seq(self, a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, SCat):
            return len(a.parts) == len(b.parts) and all(self.same_seq(x, y) for x, y in zip(a.parts, b.parts))
        return isinstance(a, (SOne, SAtom)) and self.seq_terms(a)[0].eq(self.seq_terms(b)[0])

    def map_seq(self, s, f):
        if isinstance(s, SOne):
            return SOne(f(s.v))
        if isinstance(s, SCat):
            return SCat([self.map_seq(p, f) for p in s.parts])
        if isinstance(s, SIf):
            return SIf(f(s.c), self.map_seq(s.body, f))
        if isinstance(s, SAtom):
            return SAtom(f(s.q))
        if isinstance(s, SLoop):
            return SLoop(f(s.n), s.i, self.map_seq(s.body, f))

    def seq_terms(self, s):
        if isinstance(s, SOne):
            return [s.v]
        if isinstance(s, SCat):
            return [t for p in s.parts for t in self.seq_terms(p)]
        if isinstance(s, SIf):
            return [s.c] + self.seq_terms(s.body)
        if isinstance(s, SAtom):
            return [s.q]
        return [s.n] + self.seq_terms(s.body)

    def consts(self, t, acc=None):
        acc = {} if acc is None else acc
        todo = [t]
        seen = set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if is_app(x) and x.num_args() == 0 and x.decl().kind() == Z3_OP_UNINTERPRETED:
                acc[x.decl().name()] = x
            todo.extend(x.children())
        return acc

    def created_in(self, h, st0):
        """Names that belong to the havocked state: prefix of their name space."""
        return h.ns

    def foreign(self, t, h, st0, i, src):
        """Does the term mention anything that is specific to the arbitrary iteration (other than its index)?"""
        for n, c in self.consts(t).items():
            if c.eq(i):
                continue
            if "!" in n:
                tail = n.rsplit("!", 1)[1]
                if "." in tail:
                    num = tail.split(".")[0]
                    if num.isdigit() and int(num) in self.iter_ns(h):
                        if n in self.qreg:
                            continue
                        return True
        return False

    def iter_ns(self, h):
        p = h.ns
        return {v for k, v in _nsids.items() if k == p or k.startswith(p + ".")}

    def loop_inv(self, t, h, i, st0):
        return not self.foreign(t, h, st0, None, None) if i is None else not (
            self.foreign(t, h, st0, i, None) or self.mentions(t, i))

    def is_guard(self, c, o, h, i):
        """Facts known to hold for every iteration are no guards."""
        if c.get_id() == simplify(i < self._src_n(h)).get_id():
            return False
        if is_and(c) and c.num_args() == 2 and is_true(c.arg(1)):
            return False        # a fact, see define
        if all(n.split("!")[0] in ("now", "now0") for n in self.consts(c)):
            return False
        # bounds of allocation times
        if is_app(c) and c.num_args() == 2 and is_app(c.arg(0)) and c.arg(0).decl().eq(birth):
            return False
        if is_and(c) and is_app(c.arg(0)) and c.arg(0).num_args() == 2 and is_app(c.arg(0).arg(0)) and \
                c.arg(0).arg(0).decl().eq(birth):
            return False
        if is_and(c) and c.num_args() == 2 and is_app(c.arg(1)) and c.arg(1).num_args() == 2 and is_app(c.arg(1).arg(0)) \
                and c.arg(1).arg(0).decl().eq(PO):
            return False
        return True

    def _src_n(self, h):
        return IntVal(0)

    def dead_local(self, m, outs, h):
        """A local that is overwritten in every iteration before it is read (its havocked value never survives)."""
        hv = h.frames[m[1]].get(m[2])
        if hv is None:
            return True
        names = set(self.consts(hv.t)) if isinstance(hv, (VObj, VInt, VBool, VReal)) else None
        if names is None:
            return False
        for o in outs:
            if o.sig is not None:
                continue
            for c in o.st.pc[len(h.pc):]:
                if names & set(self.consts(c)) and not self.is_guard_birth(c):
                    return False
            a = self.H("LC", o.st)
            if names & set(self.consts(a)):
                return False
        return True

    def is_guard_birth(self, c):
        return is_app(c) and c.num_args() == 2 and is_app(c.arg(0)) and c.arg(0).decl().eq(birth)

    # ------------------------------------------------------------------ sequences: proof of equality
    def seq_equal(self, a, b, name, tags=()):
        """Record obligations that imply the equality of two sequence expressions."""
        self._seq_eq(seq_items(a), seq_items(b), name, tags, 0)

    def _live(self, items, thorough=True):
        out = []
        for x in items:
            if is_true(simplify(x[1])):
                out.append(x)
            elif thorough and self.entails(Not(x[1])) or not thorough and (self.entails_qf(Not(x[1])) or self.prover.check(
                    self.st.pc, Not(x[1]), 300_000) == unsat):
                continue
            else:
                out.append(x)
        return out

    def _expand(self, items):
        out = []
        for x in items:
            if x[0] == "atom":
                s = self.seq_of(x[2])
                if isinstance(s, SAtom):
                    out.append(x)
                else:
                    out.extend(self._expand(seq_items(s, x[1])))
            elif x[0] == "loop":
                out.append(("loop", x[1], x[2], x[3], self._expand(x[4])))
            else:
                out.append(x)
        return out

    def _seq_eq(self, xs, ys, name, tags, depth):
        xs0, ys0 = self._expand(xs), self._expand(ys)
        for thorough in (False, True):
            xs = [x for x in self._live(xs0, thorough) if not (x[0] == "loop" and not x[4])]
            ys = [y for y in self._live(ys0, thorough) if not (y[0] == "loop" and not y[4])]
            if len(xs) == len(ys):
                break
        if len(xs) != len(ys):
            self.oblige(BoolVal(False), name + ": number of parts (%d, expected %d)" % (len(xs), len(ys)), tags)
            return
        for n, (x, y) in enumerate(zip(xs, ys)):
            nm = "%s[%d]" % (name, n)
            st = self.st
            self.st = st.copy()
            try:
                if x[0] == "atom" and y[0] == "loop":
                    i = Const("ix!%d" % next(_ixs), I)
                    x = ("loop", x[1], qlen(x[2]), i, [("one", BoolVal(True), qelt(x[2], i))])
                if y[0] == "atom" and x[0] == "loop":
                    i = Const("ix!%d" % next(_ixs), I)
                    y = ("loop", y[1], qlen(y[2]), i, [("one", BoolVal(True), qelt(y[2], i))])
                if x[0] != y[0]:
                    self.oblige(BoolVal(False), nm + ": shape", tags)
                    continue
                if x[0] == "loop":
                    # an empty loop adds nothing, whatever its condition
                    cx, cy = And(x[1], x[2] > 0), And(y[1], y[2] > 0)
                    self.oblige(cx == cy, nm + ": condition", tags)
                    self.assume(And(cx, y[1]))
                else:
                    self.oblige(x[1] == y[1], nm + ": condition", tags)
                    self.assume(x[1])
                if x[0] == "one":
                    self.val_equal(x[2], y[2], nm, tags)
                elif x[0] == "atom":
                    self.oblige(x[2] == y[2], nm + ": contents", tags)
                else:
                    self.oblige(x[2] == y[2], nm + ": length", tags)
                    i = Const("ix!%d" % next(_ixs), I)
                    self.assume(And(0 <= i, i < x[2]))
                    self.assume(qelt(Const("qdummy", Q), i) == qelt(Const("qdummy", Q), i))
                    f = lambda its, v: [self._sub_item(z, v, i) for z in its]
                    self._seq_eq(f(x[4], x[3]), f(y[4], y[3]), nm, tags, depth + 1)
            finally:
                self.st = st

    def _sub_item(self, x, v, i):
        p = (v, i)
        if x[0] == "loop":
            return ("loop", substitute(x[1], p), substitute(x[2], p), x[3], [self._sub_item(z, v, i) for z in x[4]])
        return (x[0], substitute(x[1], p), substitute(x[2], p))

    def val_equal(self, a, b, name, tags):
        if is_app(a) and a.decl().eq(listval) or is_app(b) and b.decl().eq(listval):
            qa, qb = self._as_q(a), self._as_q(b)
            if qa is not None and qb is not None:
                self._seq_eq(seq_items(self.seq_of(qa)), seq_items(self.seq_of(qb)), name, tags, 0)
                return
        if is_app(a) and is_app(b) and a.decl().name().startswith("tup") and a.decl().eq(b.decl()):
            for k in range(a.num_args()):
                self.val_equal(a.arg(k), b.arg(k), "%s.%d" % (name, k), tags)
            return
        self.oblige(a == b, name + ": value", tags)

    def _as_q(self, t):
        if is_app(t) and t.decl().eq(listval):
            return t.arg(0)
        if is_const(t) and t.decl().name() in self.st.fresh_objs:
            return self.sel(self.H("LC"), t, deep=True)
        return None

    # ------------------------------------------------------------------ dicts
    def dict_has(self, d, k):
        return Select(self.dsel("DD", d.t), self.box(k))

    def dict_get(self, d, k):
        kb = self.box(k)
        v = self.simp_sel(Select(self.dsel("DV", d.t), kb))
        self.known(v)
        return self.dict_value(d, v)

    def simp_sel(self, t):
        """Resolve Select(Store(..)) on the inner arrays."""
        if is_app(t) and t.decl().kind() == Z3_OP_SELECT:
            r = self.sel(t.arg(0), t.arg(1), deep=False)
            return r
        return t

    def dict_set(self, d, k, v):
        kb, vb = self.box(k), self.box(v)
        self.name_ghost(vb, d.t, kb)
        t = d.t
        dom, val, stamp = self.dsel("DD", t), self.dsel("DV", t), self.dsel("DS", t)
        n, nx = self.dsel("DN", t), self.dsel("DX", t)
        present = self.simp_sel(Select(dom, kb))
        p = simplify(present)
        if not is_true(p) and not is_false(p):
            if self.entails_qf(present):
                p = BoolVal(True)
            elif self.entails_qf(Not(present)):
                p = BoolVal(False)
        self.setH("DV", Store(self.H("DV"), t, Store(val, kb, vb)))
        if is_true(p):
            return
        self.setH("DD", Store(self.H("DD"), t, Store(dom, kb, BoolVal(True))))
        if is_false(p):
            self.setH("DS", Store(self.H("DS"), t, Store(stamp, kb, nx)))
            self.setH("DN", Store(self.H("DN"), t, n + 1))
            self.setH("DX", Store(self.H("DX"), t, nx + 1))
        else:
            self.setH("DS", Store(self.H("DS"), t, Store(stamp, kb, If(p, Select(stamp, kb), nx))))
            self.setH("DN", Store(self.H("DN"), t, If(p, n, n + 1)))
            self.setH("DX", Store(self.H("DX"), t, If(p, nx, nx + 1)))

    def dict_pop(self, d, k, default=None):
        kb = self.box(k)
        t = d.t
        dom = self.dsel("DD", t)
        if not self.branch(self.simp_sel(Select(dom, kb))):
            if default is not None:
                return default
            raise RaiseSig("KeyError")
        v = self.dict_get(d, k)
        self.setH("DD", Store(self.H("DD"), t, Store(dom, kb, BoolVal(False))))
        self.setH("DN", Store(self.H("DN"), t, self.dsel("DN", t) - 1))
        return v

    # ------------------------------------------------------------------ subscripts
    def getitem(self, o, k):
        if isinstance(o, VTup):
            if isinstance(k, VSlice):
                raise Unsupported("slice of a tuple")
            i = simplify(self.as_int(k))
            if not is_int_value(i):
                raise Unsupported("symbolic index into a tuple")
            j = i.as_long()
            if not -len(o.items) <= j < len(o.items):
                raise RaiseSig("IndexError")
            return o.items[j]
        if isinstance(o, VND):
            return self.lib.nd_getitem(self, o, k)
        if isinstance(o, VObj):
            if o.kind == "dict":
                if not self.branch(self.dict_has(o, k)):
                    raise RaiseSig("KeyError")
                return self.dict_get(o, k)
            if o.kind == "list":
                return self.list_getitem(o, k)
            if o.kind in ("xmlattrib",):
                return self.lib.builtin_getitem(self, o, k)
            if o.kind is None or o.kind == "any":
                w = self.wrap(o.t)
                if not isinstance(w, VObj):
                    return self.getitem(w, k)
                if o.cls is None and o.exact is None:
                    ks = [cls(o.t) == C_LIST, cls(o.t) == C_DICT, cls(o.t) == C_TUPLE,
                          And(cls(o.t) != C_LIST, cls(o.t) != C_DICT, cls(o.t) != C_TUPLE)]
                    c = self.choose(ks, full=True)
                    if c == 0:
                        return self.list_getitem(VObj(o.t, kind="list"), k)
                    if c == 1:
                        return self.getitem(VObj(o.t, kind="dict"), k)
                    if c == 2:
                        i = simplify(self.as_int(k))
                        if is_int_value(i) and 0 <= i.as_long() < 8:
                            j = i.as_long()
                            ok = [And(slen(o.t) == n) for n in range(j + 1, 9)]
                            m = self.choose(ok + [Or(slen(o.t) <= j, slen(o.t) > 8)], full=True)
                            if m < len(ok):
                                n = j + 1 + m
                                t = tupf(n)[1][j](o.t)
                                self.known(t)
                                return self.wrap(t)
                            raise RaiseSig("IndexError")
                        raise Unsupported("index into an unknown tuple")
                m, cs = self.resolve_member(o, "__getitem__")
                if m[0] == "meth":
                    return self.call_function(VFun(m[1]), [self.narrow(o, cs), k], {})
        raise RaiseSig("TypeError")

    def list_getitem(self, l, k):
        q = self.content(l)
        if isinstance(k, VSlice):
            return self.lib.list_slice(self, l, q, k)
        i = self.as_int(k)
        n = qlen(q)
        its = seq_items(self.seq_of(q))
        if all(x[0] == "one" and is_true(x[1]) for x in its):
            n = IntVal(len(its))
        c = self.choose([And(0 <= i, i < n), And(i < 0, i >= -n), Or(i >= n, i < -n)])
        if c == 2:
            raise RaiseSig("IndexError")
        return self.list_elem(q, i if c == 0 else simplify(i + n))

    def setitem(self, o, k, v):
        if isinstance(o, VObj):
            if o.kind == "dict":
                return self.dict_set(o, k, v)
            if o.kind == "list":
                q = self.content(o)
                i = self.as_int(k)
                n = qlen(q)
                c = self.choose([And(0 <= i, i < n), And(i < 0, i >= -n), Or(i >= n, i < -n)])
                if c == 2:
                    raise RaiseSig("IndexError")
                self.set_content(o, qset(q, i if c == 0 else simplify(i + n), self.box(v)))
                return
            if o.kind == "xmlattrib":
                return self.lib.builtin_setitem(self, o, k, v)
            if o.kind in (None, "any") and (o.cls or o.exact):
                m, cs = self.resolve_member(o, "__setitem__")
                if m[0] == "meth":
                    self.call_function(VFun(m[1]), [self.narrow(o, cs), k, v], {})
                    return
            for kn, c in (("list", C_LIST), ("dict", C_DICT)):
                if o.kind in (None, "any") and self.entails_qf(cls(o.t) == c):
                    return self.setitem(VObj(o.t, kind=kn), k, v)
        raise Unsupported("item assignment on %r" % (o,))

    # ------------------------------------------------------------------ expressions
    def ev(self, e, fid):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, fid)

    def e_Constant(self, e, fid):
        if e.value is Ellipsis:
            return VExt("builtins.Ellipsis")
        return self.pyval(e.value)

    def e_Name(self, e, fid):
        v = self.lookup(fid, self.mg(fid, e.id))
        return self.lib.nd.current(self, v) if isinstance(v, VND) and v.ref is not None else v

    def e_Attribute(self, e, fid):
        return self.getattr(self.ev(e.value, fid), self.mg(fid, e.attr))

    def e_Tuple(self, e, fid):
        return VTup(self.elts(e.elts, fid))

    def elts(self, es, fid):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fid)
                if isinstance(v, VTup):
                    out.extend(v.items)
                else:
                    out.append(("star", v))
            else:
                out.append(self.ev(x, fid))
        return out

    def e_List(self, e, fid):
        xs = self.elts(e.elts, fid)
        l = self.new_list([])
        for x in xs:
            if isinstance(x, tuple) and x[0] == "star":
                self.list_extend(l, x[1])
            else:
                self.list_append(l, x)
        return l

    def e_Set(self, e, fid):
        d = self.lib.new_set(self)
        for x in self.elts(e.elts, fid):
            self.dict_set(VObj(d.t, kind="dict"), x, x)
        return d

    def e_Dict(self, e, fid):
        d = self.new_dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported("** in dict display")
            kv = self.ev(k, fid)
            self.dict_set(d, kv, self.ev(v, fid))
        return d

    def e_Lambda(self, e, fid):
        meta = self.st.frames[fid]["$meta"]
        return VFun(self._finfo(e, meta), fid)

    def e_IfExp(self, e, fid):
        if self.truth(self.ev(e.test, fid)):
            return self.ev(e.body, fid)
        return self.ev(e.orelse, fid)

    def e_BoolOp(self, e, fid):
        vals = e.values
        for i, x in enumerate(vals[:-1]):
            v = self.ev(x, fid)
            if isinstance(e.op, ast.And):
                if not self.truth(v):
                    return v
            else:
                if self.truth(v):
                    return v
        return self.ev(vals[-1], fid)

    def e_UnaryOp(self, e, fid):
        v = self.ev(e.operand, fid)
        if isinstance(e.op, ast.Not):
            return VBool(simplify(Not(self.truth_term(v))))
        if isinstance(e.op, ast.USub):
            if isinstance(v, VInt):
                return VInt(simplify(-v.t))
            if isinstance(v, VND):
                return self.lib.nd.f_neg(self, [v], {})
            return VReal(-self.as_real(v))
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert) and isinstance(v, VND) and v.dtype == "bool":
            return self.lib.nd.f_not(self, [v], {})
        raise Unsupported("unary operator")

    def e_BinOp(self, e, fid):
        return self.binop(e.op, self.ev(e.left, fid), self.ev(e.right, fid))

    def binop(self, op, a, b):
        if isinstance(a, VND) or isinstance(b, VND):
            return self.lib.nd_binop(self, op, a, b)
        if isinstance(op, ast.BitOr) and isinstance(a, (VCls, VUnion, VExt)) or (
                isinstance(op, ast.BitOr) and isinstance(b, (VCls, VUnion))):
            f = lambda x: x.items if isinstance(x, VUnion) else [x]
            return VUnion(f(a) + f(b))
        isstr = lambda v: isinstance(v, VObj) and v.kind == "str"
        if isinstance(op, ast.Add):
            if isstr(a) or isstr(b):
                if not (isstr(a) and isstr(b)):
                    other = b if isstr(a) else a
                    if isinstance(other, VObj) and other.kind in (None, "any"):
                        if self.choose([cls(other.t) == C_STR, cls(other.t) != C_STR], full=True) == 1:
                            raise RaiseSig("TypeError")
                    else:
                        raise RaiseSig("TypeError")
                return self.concat([a, b])
            if isinstance(a, VObj) and self.is_list(a):
                l = self.new_list_q(self.content(a))
                self.list_extend(l, b)
                return l
            if isinstance(a, VTup) and isinstance(b, VTup):
                return VTup(a.items + b.items)
            if isinstance(a, VObj) and isinstance(b, VObj) and a.kind in (None, "any") and b.kind in (None, "any"):
                k = self.choose([And(cls(a.t) == C_STR, cls(b.t) == C_STR), Not(And(cls(a.t) == C_STR, cls(b.t) == C_STR))],
                                full=True)
                if k == 0:
                    return self.concat([a, b])
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, VObj) and self.is_list(x) and not isinstance(y, VObj):
                    return self.lib.list_repeat(self, x, self.as_int(y))
        if isinstance(op, ast.Mod) and isstr(a):
            raise Unsupported("% formatting")
        if isinstance(a, VInt) and isinstance(b, VInt):
            if isinstance(op, ast.Add):
                return VInt(simplify(a.t + b.t))
            if isinstance(op, ast.Sub):
                return VInt(simplify(a.t - b.t))
            if isinstance(op, ast.Mult):
                return VInt(simplify(a.t * b.t))
            if isinstance(op, (ast.FloorDiv, ast.Mod)):
                if not self.branch(b.t != 0):
                    raise RaiseSig("ZeroDivisionError")
                if isinstance(op, ast.Mod):
                    return VInt(If(b.t > 0, a.t % b.t, -((-a.t) % (-b.t))))
                return VInt(If(b.t > 0, a.t / b.t, (-a.t) / (-b.t)))
        arith = (ast.Add, ast.Sub, ast.Mult, ast.Div)
        if isinstance(op, arith):
            if isinstance(a, (VTup,)) or isinstance(b, (VTup,)):
                raise RaiseSig("TypeError")
            if isinstance(op, (ast.Add, ast.Sub)) and isinstance(a, VInt) ^ isinstance(b, VInt):
                o = b if isinstance(a, VInt) else a
                if isinstance(o, VObj) and o.kind in (None, "any") and self.entails(cls(o.t) == C_INT):
                    x = a.t if isinstance(a, VInt) else unI(a.t)
                    y = b.t if isinstance(b, VInt) else unI(b.t)
                    return VInt(x + y if isinstance(op, ast.Add) else x - y)
            x, y = self.as_real(a), self.as_real(b)
            if isinstance(op, ast.Add):
                return VReal(x + y)
            if isinstance(op, ast.Sub):
                return VReal(x - y)
            if isinstance(op, ast.Mult):
                return VReal(x * y)
            if not self.branch(y != 0):
                raise RaiseSig("ZeroDivisionError")
            return VReal(x / y)
        raise Unsupported("operator %s on %r, %r" % (type(op).__name__, a, b))

    # ---- strings
    def pieces(self, t):
        if is_app(t) and t.decl().eq(cat):
            return self.pieces(t.arg(0)) + self.pieces(t.arg(1))
        return [t]

    def concat(self, vals):
        ps = [p for v in vals for p in self.pieces(v.t if isinstance(v, VObj) else v)]
        out = []
        for p in ps:
            k = lit_of(p)
            if k and k[0] == "str":
                if k[1] == "":
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += k[1]
                else:
                    out.append(k[1])
            else:
                out.append(p)
        ts = [lit("str", x) if isinstance(x, str) else x for x in out]
        if not ts:
            return self.lit_str("")
        t = ts[-1]
        for x in reversed(ts[:-1]):
            t = cat(x, t)
        return VObj(t, kind="str")

    def str_of(self, v):
        if isinstance(v, VObj):
            if v.kind == "str":
                return v.t
            k = lit_of(v.t)
            if v.kind in (None, "any") and v.cls is None and self.entails(cls(v.t) == C_STR):
                return v.t
            return tostr(v.t)
        if isinstance(v, VInt):
            i = simplify(v.t)
            if is_int_value(i):
                return lit("str", str(i.as_long()))
            return tostr(boxI(v.t))
        if isinstance(v, (VReal, VBool)):
            return tostr(self.box(v))
        raise Unsupported("str of %r" % (v,))

    def e_JoinedStr(self, e, fid):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(self.lit_str(x.value))
            else:
                if x.format_spec is not None or x.conversion not in (-1,):
                    if x.conversion != 115:
                        raise Unsupported("format specification")
                parts.append(VObj(self.str_of(self.ev(x.value, fid)), kind="str"))
        return self.concat(parts)

    # ---- truth, comparison
    def truth_term(self, v):
        if isinstance(v, VBool):
            return v.t
        if isinstance(v, VInt):
            return v.t != 0
        if isinstance(v, VReal):
            return v.t != 0
        if isinstance(v, VTup):
            return BoolVal(len(v.items) > 0)
        if isinstance(v, (VFun, VBound, VCls, VExt, VIter, VCoro, VMod)):
            return BoolVal(True)
        if isinstance(v, VObj):
            if v.kind == "none":
                return BoolVal(False)
            if v.kind in ("str", "bytes"):
                return slen(v.t) > 0
            if v.kind == "list":
                return qlen(self.content(v)) > 0
            if v.kind in ("dict", "set"):
                return self.dsel("DN", v.t) > 0
            c = v.exact or v.cls
            if c is not None:
                for k in self.prog.subclasses(c):
                    if self.prog.lookup(k, "__bool__") or self.prog.lookup(k, "__len__"):
                        raise Unsupported("truth of an object with __len__")
                if c.is_enum:
                    return Function("enumval", V, I)(v.t) != 0
                return BoolVal(True) if v.exact is not None else Or(cls(v.t) != C_NONE, cls(v.t) >= 100)
            w = self.wrap(v.t)
            if not isinstance(w, VObj):
                return self.truth_term(w)
            for k, c in (("list", C_LIST), ("dict", C_DICT)):
                if self.entails_qf(cls(v.t) == c):
                    return self.truth_term(VObj(v.t, kind=k))
            return self.user_truth(v.t)
        raise Unsupported("truth of %r" % (v,))

    def user_truth(self, t):
        # objects of the repository are true, None is false, numbers and strings as usual
        return If(cls(t) >= 100, BoolVal(True),
                  If(cls(t) == C_NONE, BoolVal(False),
                     If(cls(t) == C_BOOL, unB(t), If(cls(t) == C_INT, unI(t) != 0,
                                                     If(cls(t) == C_STR, slen(t) > 0, truthy(t))))))

    def truth(self, v):
        return self.branch(self.truth_term(v))

    def eq(self, a, b):
        num = (VInt, VReal, VBool)
        if isinstance(a, VInt) and isinstance(b, VInt):
            return a.t == b.t
        if isinstance(a, num) and isinstance(b, num):
            if isinstance(a, VBool) and isinstance(b, VBool):
                return a.t == b.t
            return self.as_real(a) == self.as_real(b)
        if isinstance(a, VTup) and isinstance(b, VTup):
            if len(a.items) != len(b.items):
                return BoolVal(False)
            return And([self.eq(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, (VCls, VExt, VFun, VBound)) or isinstance(b, (VCls, VExt, VFun, VBound)):
            if type(a) is type(b) or isinstance(a, VObj) or isinstance(b, VObj):
                return self.box(a) == self.box(b)
            return BoolVal(False)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, VObj) and isinstance(y, num) and x.kind not in (None, "any"):
                return BoolVal(False)
            if isinstance(x, VObj) and x.cls is not None and x.cls.is_enum and isinstance(y, VInt):
                return Function("enumval", V, I)(x.t) == y.t
        if isinstance(a, VObj) and isinstance(b, VObj):
            if a.kind in ("list", "dict", "set") or b.kind in ("list", "dict", "set"):
                if a.t.eq(b.t):
                    return BoolVal(True)
                if (a.kind in ("list", "dict", "set")) and (b.kind in ("list", "dict", "set")):
                    raise Unsupported("comparison of containers")
                o = b if a.kind in ("list", "dict", "set") else a
                if o.kind is None and o.cls is None:
                    raise Unsupported("comparison of containers")
                return BoolVal(False)
            return a.t == b.t
        return self.box(a) == self.box(b)

    def identical(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, VObj) and x.kind == "none":
                if isinstance(y, VObj):
                    if y.kind == "none":
                        return BoolVal(True)
                    if y.kind is not None and y.kind != "any":
                        return BoolVal(False)
                    if y.exact is not None or y.cls is not None:
                        return BoolVal(False)
                    return y.t == NONE
                return BoolVal(False)
        if isinstance(a, VBool) and isinstance(b, VBool):
            return a.t == b.t
        if isinstance(a, VObj) and isinstance(b, VObj):
            ref = lambda v: v.cls is not None or v.kind in ("list", "dict", "set", "queue", "xml")
            if ref(a) or ref(b):
                return a.t == b.t
            if a.t.eq(b.t) and is_const(a.t) and a.t.decl().name() in self.params:
                return BoolVal(True)
            # identity of immutable values is only known to imply equality
            x = self.fresh("is", B)
            self.assume(Implies(x, a.t == b.t))
            self.assume(Implies(And(a.t == b.t, Or(cls(a.t) >= 100, cls(a.t) == C_NONE)), x))
            return x
        if isinstance(a, (VCls, VExt)) and isinstance(b, (VCls, VExt)):
            return BoolVal(self.same(a, b))
        if isinstance(a, VInt) and isinstance(b, VInt) and is_app(a.t) and is_app(b.t) and a.t.decl().eq(b.t.decl()) and \
                any(a.t.decl().eq(f) for f in self.stored_ints):
            self.note("a mapping gives the same number object for the same identifier each time")
            return a.t == b.t
        ea = self.eq(a, b)
        x = self.fresh("is", B)
        self.assume(Implies(x, ea))
        return x

    def e_Compare(self, e, fid):
        left = self.ev(e.left, fid)
        conds = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fid)
            c = self.compare(op, left, right)
            if isinstance(c, Val):
                if len(e.ops) != 1:
                    raise Unsupported("chained array comparison")
                return c
            conds.append(c)
            left = right
        c = simplify(conds[0] if len(conds) == 1 else And(conds))
        return VBool(c)

    def compare(self, op, a, b):
        if isinstance(a, VND) or isinstance(b, VND):
            return self.lib.nd_compare(self, op, a, b)
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return Not(self.eq(a, b))
        if isinstance(op, ast.Is):
            return self.identical(a, b)
        if isinstance(op, ast.IsNot):
            return Not(self.identical(a, b))
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.contains(b, a)
            return Not(c) if isinstance(op, ast.NotIn) else c
        inf = lit("ext", "inf")

        def isinf(v):
            return (isinstance(v, VExt) and v.name == "math.inf") or (isinstance(v, VObj) and v.t.eq(inf))
        f = {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y,
             ast.GtE: lambda x, y: x >= y}[type(op)]
        if isinf(a) or isinf(b):
            x = IntVal(1) if isinf(a) else IntVal(0)
            y = IntVal(1) if isinf(b) else IntVal(0)
            return f(x, y)
        for v in (a, b):
            if isinstance(v, VObj) and v.kind in (None, "any"):
                # an integer or infinity
                if self.choose([v.t == inf, v.t != inf], full=True) == 0:
                    return self.compare(op, VExt("math.inf") if v is a else a, VExt("math.inf") if v is b else b)
                return self.compare(op, VInt(self.as_int(a)) if not self.is_num(a) else a,
                                    VInt(self.as_int(b)) if not self.is_num(b) else b)
        if isinstance(a, VInt) and isinstance(b, VInt):
            return f(a.t, b.t)
        if self.is_num(a) and self.is_num(b):
            return f(self.as_real(a), self.as_real(b))
        raise Unsupported("comparison of %r and %r" % (a, b))

    def contains(self, c, x):
        if isinstance(c, VTup):
            return Or([self.eq(x, y) for y in c.items]) if c.items else BoolVal(False)
        if isinstance(c, VObj):
            if c.kind in ("dict", "set"):
                return self.simp_sel(Select(self.dsel("DD", c.t), self.box(x)))
            if c.kind == "list":
                return self.seq_contains(self.content(c), self.box(x))
            if c.kind in ("xmlattrib", "str", "bytes"):
                raise Unsupported("in on %s" % c.kind)
            if c.kind in (None, "any") and c.cls is None:
                k = self.choose([cls(c.t) == C_LIST, cls(c.t) == C_DICT, And(cls(c.t) != C_LIST, cls(c.t) != C_DICT)],
                                full=True)
                if k < 2:
                    return self.contains(VObj(c.t, kind="list" if k == 0 else "dict"), x)
        if isinstance(c, VIter):
            return self.contains(self.to_list(c), x)
        raise Unsupported("in on %r" % (c,))

    def seq_contains(self, q, x):
        its = seq_items(self.seq_of(q))
        out = []
        for it in its:
            if it[0] == "one":
                out.append(And(it[1], it[2] == x))
            elif it[0] == "atom":
                out.append(And(it[1], qmem(it[2], x)))
            else:
                _, g, n, i, body = it
                if len(body) == 1 and body[0][0] == "one" and is_app(body[0][2]) and body[0][2].decl().eq(qelt) and \
                        body[0][2].arg(1).eq(i) and n.eq(qlen(body[0][2].arg(0))):
                    base = body[0][2].arg(0)
                    g0 = body[0][1]
                    rng = lambda c: any(simplify(c).eq(simplify(d)) for d in (Not(n <= i), i < n, 0 <= i, i >= 0, n > i))
                    g0 = And([c for c in (g0.children() if is_and(g0) else [g0]) if not rng(c)])
                    gx = self._replace(g0, body[0][2], x)
                    if not self.mentions(gx, i):
                        out.append(And(g, qmem(base, x), gx))
                        continue
                raise Unsupported("membership in a collected list %s" % (it,))
        return Or(out) if out else BoolVal(False)

    def _replace(self, t, a, b):
        return substitute(t, (a, b))

    # ---- comprehension
    def comp(self, e, fid, emit):
        meta = self.st.frames[fid]["$meta"]
        cf = self.push(meta[0], meta[1], fid, meta[3])
        first = [True]

        def go(k):
            if k == len(e.generators):
                emit(cf)
                return
            g = e.generators[k]
            it = self.ev(g.iter, fid if k == 0 else cf)

            def h(v):
                self.assign(g.target, v, cf)
                for c in g.ifs:
                    if not self.truth(self.ev(c, cf)):
                        return
                go(k + 1)
            self.iterate(it, h)
        go(0)

    def e_ListComp(self, e, fid):
        l = self.new_list([])
        self.comp(e, fid, lambda cf: self.list_append(l, self.ev(e.elt, cf)))
        return l

    def e_GeneratorExp(self, e, fid):
        def run(eng, handler):
            self.comp(e, fid, lambda cf: handler(self.ev(e.elt, cf)))
        return VIter(run, "genexp")

    def e_SetComp(self, e, fid):
        d = self.lib.new_set(self)
        dd = VObj(d.t, kind="dict")

        def emit(cf):
            v = self.ev(e.elt, cf)
            self.dict_set(dd, v, v)
        self.comp(e, fid, emit)
        return d

    def e_DictComp(self, e, fid):
        d = self.new_dict()

        def emit(cf):
            k = self.ev(e.key, cf)
            self.dict_set(d, k, self.ev(e.value, cf))
        self.comp(e, fid, emit)
        return d

    # ---- calls
    def e_Call(self, e, fid):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            meta = self.st.frames[fid]["$meta"]
            f = fid
            while True:
                fi = self.st.frames[f]["$meta"][3]
                if fi is not None and fi.cls is not None and not isinstance(fi.node, ast.Lambda):
                    break
                f = self.st.frames[f]["$meta"][2]
                if f is None:
                    raise Unsupported("super() outside a method")
            selfname = fi.node.args.args[0].arg
            return VSuper(fi.cls, self.st.frames[f][selfname])
        if isinstance(e.func, ast.Name) and e.func.id == "print":
            for a in e.args:
                if not isinstance(a, ast.Constant):
                    self.ev(a, fid)
            return VNone
        f = self.ev(e.func, fid)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fid)
                if isinstance(v, VTup):
                    args.extend(v.items)
                    continue
                if isinstance(f, VExt) and f.name == "asyncio.gather" and len(e.args) == 1:
                    return self.lib.gather_list(self, v)
                if isinstance(v, VObj) and v.kind == "list":
                    its = seq_items(self.seq_of(self.content(v)))
                    if all(x[0] == "one" and is_true(x[1]) for x in its):
                        args.extend(self.wrap(x[2]) for x in its)
                        continue
                raise Unsupported("* argument")
            else:
                args.append(self.ev(a, fid))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported("** argument")
            kwargs[k.arg] = self.ev(k.value, fid)
        return self.call(f, args, kwargs)

    def e_Await(self, e, fid):
        return self.await_(self.ev(e.value, fid))

    def get_handler(self, fid):
        f = fid
        while f is not None:
            fr = self.st.frames[f]
            if "$handler" in fr:
                return fr["$handler"]
            f = fr["$meta"][2]
        return None

    def e_Yield(self, e, fid):
        v = VNone if e.value is None else self.ev(e.value, fid)
        h = self.get_handler(fid)
        if h is None:
            raise Unsupported("yield outside a generator run")
        h(v)
        return VNone

    def e_YieldFrom(self, e, fid):
        it = self.ev(e.value, fid)
        h = self.get_handler(fid)
        self.iterate(it, h)
        return VNone

    def e_Subscript(self, e, fid):
        o = self.ev(e.value, fid)
        if isinstance(o, (VCls, VExt)):
            return o        # generic alias such as list[int]
        return self.getitem(o, self.ev(e.slice, fid))

    def e_Slice(self, e, fid):
        g = lambda x: None if x is None else self.ev(x, fid)
        return VSlice(g(e.lower), g(e.upper), g(e.step))

    def e_NamedExpr(self, e, fid):
        v = self.ev(e.value, fid)
        self.store_name(fid, self.mg(fid, e.target.id), v)
        return v

    def e_Starred(self, e, fid):
        raise Unsupported("starred expression")

    # ------------------------------------------------------------------ merged evaluation of pure functions
    def merged(self, fn):
        """Run fn on all its paths and merge the results to one truth term; None if it has effects."""
        base = self.st
        since = VIter.count
        outs = self.explore(lambda: self.truth_term(fn()))
        t = BoolVal(False)
        parts = []
        for o in outs:
            if o.sig is not None:
                return None
            if self.diff(base, o.st, list(base.frames), since) - {("now",)}:
                return None
            new = o.st.pc[len(base.pc):]
            keep = [c for c in new if not self.is_guard_birth(c)]
            if any(has_quant(c) for c in keep):
                return None
            # constants created on the way would escape their path
            for c in keep + [o.val]:
                for n in self.consts(c):
                    if "!" in n and n.rsplit("!", 1)[1].count(".") and n not in self.qreg:
                        num = n.rsplit("!", 1)[1].split(".")[0]
                        if num.isdigit() and int(num) not in self.base_ns(base):
                            return None
            facts = [c for c in new if self.is_guard_birth(c)]
            parts.append(And(keep + [o.val]))
        return simplify(Or(parts)) if parts else BoolVal(False)

    def base_ns(self, st):
        out = set()
        p = st.ns
        for k, v in _nsids.items():
            if p == k or p.startswith(k + ".") or k == "":
                out.add(v)
        return out


_ixs = itertools.count(1)


class Src:
    """Where the elements of an indexed loop come from."""

    def __init__(self, n, name, **kw):
        self.n, self.name = n, name
        self.idx = None
        self.on_iter_end = None
        self.__dict__.update({"seq": None, "dict": None, "elt": None, "seqexpr": None, "dom": None, "stamp": None,
                              "what": None})
        self.__dict__.update(kw)


class LoopCtx:
    def __init__(self, eng, st0, M, src, key, h, outs):
        self.eng, self.st0, self.M, self.src, self.key, self.h, self.outs = eng, st0, M, src, key, h, outs

    def invariant_term(self, t):
        """t does not depend on anything the loop modifies (no constant of the havocked state)."""
        return not self.eng.foreign(t, self.h, self.st0, Int("none!"), None) and not (
            self.src is not None and self.eng.mentions(t, self.h.ghost[self.src.idx]))

    def locals(self, st, all_frames=True):
        """(fid, name) -> value for all locals visible at the loop"""
        out = {}
        for fid, fr in st.frames.items():
            if fid not in self.st0.frames:
                continue
            for n, v in fr.items():
                if not n.startswith("$"):
                    out[(fid, n)] = v
        return out

    def modified_locals(self):
        return [(m[1], m[2]) for m in self.M if m[0] == "l"]


_hq = {}


def has_quant(c):
    k = c.get_id()
    if k in _hq:
        return _hq[k][0]
    todo, r, seen = [c], False, set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if is_quantifier(x):
            r = True
            break
        todo.extend(x.children())
    _hq[k] = (r, c)
    return r

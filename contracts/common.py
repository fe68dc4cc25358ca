"""Contracts shared by several properties."""
from .base import *

clk = Function("clock_time", V, I)      # what a clock shows while the verified function runs


class Contract:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def apply(self, eng, self_, args, kwargs):
        return self.fn(eng, self_, args, kwargs)


def use_clock(eng):
    """A clock shows some time; it does not touch the graph.  The time does not advance while one function runs."""
    eng.virtuals = getattr(eng, "virtuals", {})

    def now(e, s, a, k):
        e.note("the clock shows one time while a verified function runs")
        return VInt(clk(s.t))
    eng.virtuals["MetaClock"] = {"get_time_ns": Contract("MetaClock.get_time_ns", now)}


def all_keys(eng):
    ks = set(eng.st.heap) | {"DD", "DV", "DS", "DN", "DX", "LC", "QL", "QH", "QE", "f:$dq"}
    for c in eng.prog.all_classes:
        for f in eng.class_fields(c):
            ks.add("f:" + f)
    return ks


def any_effect(eng, keep=()):
    """Everything that can change may have changed."""
    for k in sorted(all_keys(eng)):
        if k in keep or k[2:] in E.CONST_FIELDS:
            continue
        c = eng.fresh("any_" + k, eng.hsort(k))
        eng.setH(k, c)
        n = eng.fresh("now", I)
    n = eng.fresh("now", I)
    eng.assume(n >= eng.st.now)
    eng.st.now = n
    for k in all_keys(eng):
        a = eng.H(k)
        if is_const(a):
            eng.timereg[a.decl().name()] = n
    for f in eng.lib.container_facts(eng, eng.st, {"DD", "QL"}):
        eng.assume(f)


def may_do_anything(name, raises=("ErrorRecursiveHierarchy", "ErrorDuplicateElement")):
    """The weakest contract: any effect on the heap, identifiers and names of objects being constant."""
    def fn(eng, s, a, k):
        any_effect(eng)
        if raises:
            j = eng.choose([None] * (1 + len(raises)))
            if j:
                raise E.RaiseSig(eng.prog.classes.get(raises[j - 1], raises[j - 1]))
        return VNone
    return Contract(name, fn)


def text(*parts):
    """Concatenation as the executor builds it."""
    return parts


def user_functions_return_text(eng):
    eng.note("naming functions passed to identifier generators return text (as declared)")

    def f(e, fn, args):
        t = {1: app1, 2: app2}[len(args)](fn.t, *[e.box(a) for a in args])
        e.assume(cls(t) == C_STR)
        return VObj(t, kind="str")
    eng.on_user_call = f


def list_targets(eng, ctx):
    """(name, content in a state) of the lists a loop builds: lists it appends to, and locals it binds to new lists."""
    for l in ctx.frames.get("LC", []):
        yield str(l), lambda st, l=l: eng.sel(eng.H("LC", st), l)
    for fid, nm in ctx.modified_locals():
        v = ctx.h.frames.get(fid, {}).get(nm)
        if isinstance(v, VObj) and v.kind == "list":
            def content(st, fid=fid, nm=nm):
                x = st.frames[fid].get(nm)
                if not (isinstance(x, VObj) and x.kind == "list"):
                    return None
                save, eng.st = eng.st, st
                try:
                    return eng.content(x)
                finally:
                    eng.st = save
            yield "the list " + nm, content

"""Verification units: a function of the repository together with its contract and the obligations it gives rise to."""
import time

from pyvc.theory import *
from pyvc.values import *
from pyvc import engine as E
from pyvc.front import Program


class Result:
    def __init__(self, unit):
        self.unit, self.obls, self.error = unit, [], None
        self.functions, self.inlined, self.used, self.notes, self.loops, self.stats = [], [], [], [], [], {}
        self.time = 0.0


class Unit:
    """props: property ids -> obligations of this unit count for them (an obligation may narrow this by its tags)."""

    def __init__(self, name, props, functions, body, thorough=False):
        self.name, self.props, self.functions, self.body, self.thorough = name, props, functions, body, thorough


UNITS = []


def unit(name, props, functions, thorough=False):
    def deco(f):
        UNITS.append(Unit(name, props.split(), functions.split(), f, thorough))
        return f
    return deco


def all_obls(engs):
    for e in engs:
        for o in e.obls:
            yield e, o


def of_property(o, prop):
    tags = [t for t in o.tags if t.startswith("C") and t[1:].isdigit()]
    return not prop or not tags or prop in tags


def run_unit(u, root, prop=None, rlimit=8_000_000, trace=False):
    """Generate and discharge.  Returns a JSON-able report.

    Obligations of other properties are not counted here, but what comes after them rests on them.  So those an obligation of this
    property rests on are discharged as well; if one fails, the unit is generated anew without assuming it."""
    doubtful = set()
    for last in (False, False, True):
        rep, failed = generate_and_discharge(u, root, prop, rlimit, trace, frozenset(doubtful), last)
        if not failed - doubtful:
            return rep
        doubtful |= failed
    return rep


def generate_and_discharge(u, root, prop, rlimit, trace, doubtful, last):
    t0 = time.time()
    rep = {"unit": u.name, "props": u.props, "functions": u.functions, "obligations": [], "error": None}
    engs = []

    def make(**kw):
        e = E.Eng(Program(root), rlimit=rlimit, trace=trace, **kw)
        e.doubtful = doubtful
        engs.append(e)
        return e
    try:
        u.body(make)
    except E.Unsupported as x:
        rep["error"] = "construct outside the verifier's reach: %s (at %s)" % (x, engs[-1].where if engs else "?")
    except E.Signal as x:
        rep["error"] = "unexpected outcome %s %s" % (type(x).__name__, getattr(x, "name", ""))
    except Exception as x:       # a failure of the verifier itself is not a verdict about the code
        import traceback
        rep["error"] = "verifier failure: %s" % "".join(traceback.format_exception(x)[-3:])[-1500:]
    prove_t, n = 0.0, 0
    seen, bad = {}, 0

    def discharge(e, o):
        nonlocal bad, prove_t
        key = (o.goal.get_id(), tuple(c.get_id() for c in o.pc))
        if key not in seen:
            t = time.time()
            seen[key] = is_true(simplify(o.goal)) or bool(e.prover.proves(o.pc, o.goal, 300_000 if bad >= 4 else None))
            bad += not seen[key]
            prove_t += time.time() - t
        return seen[key]
    rep["generated"] = sum(1 for _ in all_obls(engs))
    mine = [(e, o) for e, o in all_obls(engs) if of_property(o, prop)]
    failed, others = set(), 0
    rest_on = set()
    for e, o in mine:
        rest_on.update(c.get_id() for c in o.pc)
    for e, o in all_obls(engs):
        if of_property(o, prop) or o.name in doubtful or o.goal.get_id() not in rest_on:
            continue
        others += 1
        if not discharge(e, o):
            failed.add(o.name)
            if last:
                rep["obligations"].append({"name": "(rests on) " + o.name, "tags": list(o.tags), "where": o.where, "ok": False})
    rep["rests_on"] = others
    if failed and not last:
        return rep, failed
    for e, o in mine:
        ok = discharge(e, o)
        rep["obligations"].append({"name": o.name, "tags": list(o.tags), "where": o.where, "ok": bool(ok)})
        if trace and not ok:
            print("FAILED", o.name, o.where, o.tags)
    rep["vacuous"] = []
    for e in engs:
        for nm, pc in getattr(e, "vacuity", []):
            if e.prover.check(pc, BoolVal(False), rlimit=2_000_000) == unsat:
                rep["vacuous"].append(nm)
    rep["inlined"] = sorted(set().union(*[e.inlined for e in engs])) if engs else []
    rep["contracts_used"] = sorted(set().union(*[e.used_contracts for e in engs])) if engs else []
    rep["notes"] = sorted(set().union(*[e.notes for e in engs])) if engs else []
    rep["loops"] = [l for e in engs for l in getattr(e, "loopinfo", [])]
    rep["paths"] = sum(e.stats["paths"] for e in engs)
    rep["solver_calls"] = sum(e.prover.calls for e in engs)
    rep["solver_s"] = round(sum(e.prover.time for e in engs), 2)
    rep["wall_s"] = round(time.time() - t0, 2)
    return rep, failed


# ---------------------------------------------------------------------- helpers for unit bodies
def param(eng, name, c=None, kind=None, exact=None, none_ok=False):
    """A symbolic argument."""
    t = Const("arg_" + name, V)
    eng.params.add(t.decl().name())
    eng.assume(birth(t) < eng.st.now)
    pc = eng.prog
    if c is not None:
        c = pc.classes[c]
        cond = eng.isa(t, c)
        eng.assume(Or(t == NONE, cond) if none_ok else cond)
        return VObj(t, cls=c) if not none_ok else VObj(t)
    if exact is not None:
        c = pc.classes[exact]
        eng.assume(cls(t) == c.cid)
        return VObj(t, exact=c)
    if kind is not None:
        k = {"str": C_STR, "bytes": C_BYTES, "list": C_LIST, "dict": C_DICT, "int": C_INT}[kind]
        eng.assume(cls(t) == k)
        if kind == "int":
            return VInt(unI(t))
        return VObj(t, kind=kind)
    return VObj(t)


def intparam(eng, name):
    return VInt(Int("arg_" + name))


def start(eng):
    """General facts about the state a function is entered in."""
    for f in eng.lib.container_facts(eng, eng.st, {"DD", "QL"}):
        eng.assume(f)


def method(eng, cname, name):
    c = eng.prog.classes[cname]
    for what in ("methods", "getters", "setters"):
        f = eng.prog.lookup(c, name, what)
        if f is not None:
            return f
    raise E.Unsupported("%s.%s not found" % (cname, name))


def outcomes(eng, fn):
    """Explore fn from the current state; yields (outcome) with eng.st set to its state."""
    base = eng.st
    if not hasattr(eng, "vacuity"):
        eng.vacuity = []
    eng.vacuity.append(("precondition", list(base.pc)))
    outs = eng.explore(fn)
    if not outs:
        raise E.Unsupported("no feasible path")
    for o in outs:
        eng.st = o.st
        yield o
    eng.st = base


def call_method(eng, self_, name, args=(), kwargs=None):
    return eng.call(eng.getattr(self_, name), list(args), kwargs or {})


def only_raises(eng, o, names, tags=()):
    """Obligation: an exceptional outcome is one of `names`."""
    if o.sig is not None:
        n = o.sig.name if isinstance(o.sig, E.RaiseSig) else type(o.sig).__name__
        if n not in names:
            eng.oblige(BoolVal(False), "no exception %s" % n, tags)
            return None
        return n
    return ""


def fld(eng, t, f, st=None):
    """Field of an object, with the allocation fact of the value."""
    x = eng.sel(eng.H("f:" + f, st), t, deep=True)
    if x.sort() == V:
        eng.known(x)
    return x


def value_of(eng, fn, name="read", tags=()):
    """The value fn() gives in the current state, as a term; obliges that it raises nothing.

    The state is left as it is: what fn does to it is obliged elsewhere."""
    base = eng.st.copy()
    r = eng.fresh("value", V)
    cases = []
    for o in eng.explore(fn):
        extra = o.st.pc[len(base.pc):]
        eng.st = o.st
        if o.sig is not None:
            eng.oblige(BoolVal(False), "%s raises nothing" % name, tags)
            continue
        cases.append(And(extra + [r == eng.box(o.val)]))
    eng.st = base
    eng.st.pc = list(base.pc)
    eng.assume(Or(cases) if cases else BoolVal(False))
    return r

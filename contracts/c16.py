"""C16: identifiers are the digest of the text derived from names."""
from .common import *

T = ("C16",)
IG = "foundations.identification.identity_generator:"
FF = "factories.foundation_factory:HypergraphFactory."
HINTS = {"_context_name": "str", "_factory_name": "str", "_qualified_name": "str", "_id_name": "str",
         "_sub_elements": "dict", "_index_elements_by_name": "dict", "_ports": "dict"}


def eng_for(make):
    eng = make(field_hints=dict(HINTS))
    eng.field_hints["_clock"] = eng.prog.classes["MetaClock"]
    eng.field_hints["unique_identifier"] = eng.prog.classes["Sha3UniqueIdentifierGenerator"]
    use_clock(eng)
    start(eng)
    return eng


def frame(eng, st0, what):
    """Nothing that existed before changed."""
    r = Const("r!", V)
    for k in sorted(set(eng.st.heap)):
        a, b = eng.H(k, st0), eng.H(k)
        if a.eq(b):
            continue
        eng.oblige(FA([r], Implies(birth(r) < st0.now, b[r] == a[r]), b[r]), "%s changes nothing (%s)" % (what, k), T)


def is_id(eng, u, parts, what):
    """u is the digest of the text made of parts."""
    want = sha(utf8(eng.concat([p if isinstance(p, VObj) else eng.lit_str(p) for p in parts]).t))
    eng.oblige(u == want, what + " is the digest of its text", T)
    eng.oblige(And(slen(u) == 28, cls(u) == C_BYTES), what + " is 28 bytes long", T)


@unit("identity.generate", "C16", IG + "Sha3UniqueIdentifierGenerator.generate_uid " + IG +
      "Sha3UniqueIdentifierGenerator.__init__ " + IG + "MetaUniqueIdentifierGenerator.__init__")
def u_gen(make):
    # any generator, any naming function, any state
    eng = eng_for(make)
    user_functions_return_text(eng)
    g = param(eng, "self", exact="Sha3UniqueIdentifierGenerator")
    a = param(eng, "arg")
    st0 = eng.st.copy()
    ctx, fn = fld(eng, g.t, "_context_name"), fld(eng, g.t, "_id_generation_function")
    for o in outcomes(eng, lambda: call_method(eng, g, "generate_uid", [a])):
        if only_raises(eng, o, (), T) == "":
            u = eng.box(o.val)
            eng.oblige(u == sha(utf8(app2(fn, ctx, a.t))), "the identifier is the digest of the derived text", T)
            eng.oblige(And(slen(u) == 28, cls(u) == C_BYTES), "the identifier is 28 bytes long", T)
            frame(eng, st0, "generating an identifier")
    # a new generator keeps what it was given
    eng = eng_for(make)
    user_functions_return_text(eng)
    c, f = param(eng, "ctx", kind="str"), param(eng, "fn")
    a, b = param(eng, "a"), param(eng, "b")

    def go():
        g = eng.construct(eng.prog.classes["Sha3UniqueIdentifierGenerator"], [c, f], {})
        return call_method(eng, g, "generate_uid", [a]), call_method(eng, g, "generate_uid", [b]), \
            call_method(eng, g, "generate_uid", [a])
    for o in outcomes(eng, go):
        if only_raises(eng, o, (), T) == "":
            x, y, z = [eng.box(v) for v in o.val]
            eng.oblige(x == sha(utf8(app2(f.t, c.t, a.t))), "identifier from the given context and function", T)
            eng.oblige(x == z, "identifiers do not depend on earlier ones", T)
            v, w = Const("v1!", V), Const("w1!", V)
            eng.assume(ForAll([v, w], Implies(sha(v) == sha(w), v == w), patterns=[MultiPattern(sha(v), sha(w))]))
            eng.oblige(Implies(app2(f.t, c.t, a.t) != app2(f.t, c.t, b.t), x != y),
                       "different texts give different identifiers (SHA3-224 does not collide)", T)


def factory(eng):
    """A factory with the facts its constructor establishes (verified in identity.factory)."""
    name, clock = param(eng, "factory_name", kind="str"), param(eng, "clock", c="MetaClock")
    return name, clock


@unit("identity.factory", "C16", "factories.abstract_factory:AbstractElementFactory.__init__ "
      "factories.abstract_factory:AbstractElementFactory.get_qualified_name " + FF + "__init__ " + FF + "generate_node " +
      FF + "create_hyperedge " + FF + "create_value")
def u_fac(make):
    for what in ("node", "child", "edge", "value", "free"):
        eng = eng_for(make)
        # constructing an element below a parent may do anything to the graph, but identifiers are never written again
        eng.virtuals["HierarchicalElement"] = {"add_element": may_do_anything("HierarchicalElement.add_element (any effect)")}
        name, clock = factory(eng)
        n = param(eng, "name", kind="str")
        p = param(eng, "parent", c="HypergraphNode")
        qn = VObj(fld(eng, p.t, "_qualified_name"), kind="str")
        tm = VObj(tostr(boxI(clk(clock.t))), kind="str")

        def go():
            f = eng.construct(eng.prog.classes["HypergraphFactory"], [name, clock], {})
            if what == "node":
                return call_method(eng, f, "generate_node", [n])
            if what == "child":
                return call_method(eng, f, "generate_node", [n, p])
            if what == "edge":
                return call_method(eng, f, "create_hyperedge", [p, n])
            if what == "value":
                return call_method(eng, f, "create_value", [p, n])
            return call_method(eng, f, "create_value", [VNone, n])
        for o in outcomes(eng, go):
            ok = () if what in ("node", "free") else ("ErrorRecursiveHierarchy", "ErrorDuplicateElement",
                                                       "ErrorClockNotSet")
            if only_raises(eng, o, ok, T) == "":
                u = eng.field_const("_uuid")(o.val.t)
                nm = eng.field_const("_id_name")(o.val.t)
                parts = [name, "/"] + ([qn, "/"] if what == "child" else []) + [n, ".", tm]
                is_id(eng, u, parts, "the identifier of a new %s" % what)
                eng.oblige(nm == n.t, "a new %s bears the given name" % what, T)


@unit("identity.element", "C16", "hypergraph.base_elements:HypergraphElement.__init__ "
      "hypergraph.base_elements:HypergraphElement.identification_generation")
def u_el(make):
    """Elements generate identifiers of relations and ports from their own name and that of the other element."""
    for c in ("HypergraphNode", "HypergraphEdge"):
        eng = eng_for(make)
        eng.virtuals["HierarchicalElement"] = {"add_element": may_do_anything("HierarchicalElement.add_element (any effect)")}
        n, u, q = param(eng, "name", kind="str"), param(eng, "uuid", kind="bytes"), param(eng, "qn", kind="str")
        clock = param(eng, "clock", c="MetaClock")
        other = param(eng, "other", c="HierarchicalElement")

        def go():
            e = eng.construct(eng.prog.classes[c], [n, u, q, clock], {})
            g = eng.getattr(e, "_id_generation")
            return e, call_method(eng, g, "generate_uid", [other])
        for o in outcomes(eng, go):
            if only_raises(eng, o, (), T) == "":
                on = VObj(eng.field_const("_id_name")(other.t), kind="str")
                is_id(eng, eng.box(o.val[1]), [n, "/", on], "the identifier of a relation or port of a %s" % c)
                eng.oblige(eng.field_const("_uuid")(o.val[0].t) == u.t, "the element bears the given identifier", T)

"""C19: semantic elements and their attributes."""
import ast

from .hierarchy import *
from .hierarchy import _e, _k, _n, _c

T = ("C19",)
VN = "hypergraph.value_node:SemanticValueNode."
SF = "format.semantics.cognitive_entity_semantic_factory:CognitiveEntitySemanticFactory."
TABLE = {"cognitiveentity": "CognitiveEntity", "kinematicgraph": "KinematicGraphDefinition", "kinematiclink": "KinematicLink",
         "kinematicjoint": "KinematicJoint", "cylindergeometry": "CylinderGeometry", "polyhedrongeometry": "PolyhedronGeometry",
         "ellipsoidgeometry": "EllipsoidGeometry", "material": "VisualMaterial", "rigidtransformation": "RigidTransformation",
         "inertiaelement": "InertiaElement"}


def attr_field(eng):
    """The field that holds the attributes: the one dictionary the class itself sets up."""
    c = eng.prog.classes["SemanticValueNode"]
    fs = [n.attr for n in ast.walk(c.methods["__init__"].node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)]
    if len(set(fs)) != 1:
        raise E.Unsupported("the attributes of semantic elements are not held in one field")
    f = fs[0]
    return "_SemanticValueNode" + f if f.startswith("__") and not f.endswith("__") else f


def owned_attrs(eng, o):
    f = attr_field(eng)
    d = eng.H("f:" + f)[o]
    return And(own(d) == o, okey(d) == lit("field", f), cls(d) == C_DICT, d != NONE)


def node(eng, nm, c="SemanticValueNode"):
    eng.field_hints[attr_field(eng)] = "dict"
    o = param(eng, nm, c=c)
    eng.assume(owned_attrs(eng, o.t))
    eng.assume(birth(eng.H("f:" + attr_field(eng))[o.t]) < eng.st.now)
    return o


def read(eng, o, k):
    """o[k] as a term; reading never raises."""
    return value_of(eng, lambda: call_method(eng, o, "__getitem__", [k]), "reading an attribute", T)


def in_dict(eng, d, k, st=None):
    D = eng.H("DD", st)[d.t][k]
    return If(D, eng.H("DV", st)[d.t][k], NONE)


@unit("semantic.attributes", "C19", VN + "__getitem__ " + VN + "add_named_attribute " + VN + "remove_named_attribute " +
      "format.semantics.CognitiveEntity:CognitiveEntity.setup")
def u_attributes(make):
    for what in ("read", "add", "remove", "setup"):
        eng = make()
        start(eng)
        me = node(eng, "self", "CognitiveEntity" if what == "setup" else "SemanticValueNode")
        other = node(eng, "other")
        eng.assume(other.t != me.t)
        a, k, v = param(eng, "a", kind="str"), param(eng, "k", kind="str"), param(eng, "v")
        before, beside = read(eng, me, k), read(eng, other, k)
        st0 = eng.st.copy()
        fn = {"read": lambda: call_method(eng, me, "__getitem__", [a]), "add": lambda: call_method(eng, me, "add_named_attribute", [a, v]),
              "remove": lambda: call_method(eng, me, "remove_named_attribute", [a]), "setup": lambda: call_method(eng, me, "setup", [v])}
        for o in outcomes(eng, fn[what]):
            if only_raises(eng, o, (), T) == "":
                new = read(eng, me, k)
                key = lit("str", "name") if what == "setup" else a.t
                want = {"read": before, "add": If(k.t == key, v.t, before), "setup": If(k.t == key, v.t, before),
                        "remove": If(k.t == key, NONE, before)}[what]
                eng.oblige(new == want, "attributes after: " + what, T)
                eng.oblige(read(eng, other, k) == beside, "attributes of other elements stay: " + what, T)
                eng.oblige(owned_attrs(eng, me.t), "the attributes are its own: " + what, T)
                if what == "read":
                    frame_all(eng, st0, "reading changes nothing", T)


def attr_param(eng):
    d = param(eng, "attr", kind="dict")
    return d


def holds_attrs(eng, el, attr, k, st0, vals=None):
    """Attributes right after creation, and after the given dictionary was changed in any way."""
    want = in_dict(eng, attr, k.t, st0)
    if vals is not None:
        want = If(k.t == lit("str", "values"), vals.t, want)
    eng.oblige(read(eng, el, k) == want, "exactly the given attributes", T)
    D, W = eng.fresh("dom", VB), eng.fresh("val", VV)
    save = eng.st
    eng.st = eng.st.copy()
    eng.setH("DD", Store(eng.H("DD"), attr.t, D))
    eng.setH("DV", Store(eng.H("DV"), attr.t, W))
    eng.oblige(read(eng, el, k) == want, "later changes to the given dictionary have no effect", T)
    eng.st = save


def u_new_semantic(cname):
    def body(make):
        eng = make()
        start(eng)
        eng.field_hints[attr_field(eng)] = "dict"
        uid, name, q = param(eng, "uuid", kind="bytes"), param(eng, "id_name", kind="str"), param(eng, "qualified", kind="str")
        attr, k = attr_param(eng), param(eng, "k", kind="str")
        c = eng.prog.classes[cname]
        geo = cname.endswith("Geometry")
        args = [uid, name, q, VNone, attr] + ([VNone] if geo else [])
        st0 = eng.st.copy()
        for o in outcomes(eng, lambda: eng.construct(c, args, {})):
            if only_raises(eng, o, (), T) == "":
                eng.oblige(owned_attrs(eng, o.val.t), "the attributes are its own", T)
                holds_attrs(eng, o.val, attr, k, st0)
                eng.oblige(And(eng.H("DD")[attr.t] == eng.H("DD", st0)[attr.t], eng.H("DV")[attr.t] == eng.H("DV", st0)[attr.t]),
                           "the given dictionary is unchanged", T)
    return body


for _x in ["SemanticValueNode"] + sorted(set(TABLE.values())):
    unit("semantic.new." + _x, "C19", VN + "__init__" + ("" if _x == "SemanticValueNode" else
                                                          " format.semantics.CognitiveEntity:%s.__init__" % _x))(u_new_semantic(_x))


def kind_of(t):
    """The type name without case, underscores and surrounding blanks."""
    l = eng_lib.str_norm
    return l("replace", l("strip", l("lower", t, []), []), [lit("str", "_"), lit("str", "")])


def u_factory(given):
    def body(make):
        global eng_lib
        eng = user_setup(make)
        eng_lib = eng.lib
        eng.field_hints["_factory_name"] = "str"
        eng.field_hints[attr_field(eng)] = "dict"
        eng.field_hints["unique_identifier"] = eng.prog.classes["Sha3UniqueIdentifierGenerator"]
        me = param(eng, "self", c="CognitiveEntitySemanticFactory")
        par = el_param(eng, "parent")
        raw, name = param(eng, "raw_type", kind="str"), param(eng, "id_name", kind="str")
        attr, k = attr_param(eng), param(eng, "k", kind="str")
        vals = param(eng, "values") if given else VNone
        if given:
            eng.assume(vals.t != NONE)
        s0, st0 = Sn(eng), eng.st.copy()
        ty = kind_of(raw.t)
        known = [ty == lit("str", n) for n in TABLE]
        for o in outcomes(eng, lambda: call_method(eng, me, "generate_semantic_element", [raw, name, par, attr, vals])):
            r = only_raises(eng, o, ("ErrorInsufficientValues", "InvalidSemanticType", "ErrorRecursiveHierarchy",
                                     "ErrorDuplicateElement"), T)
            empty = eng.H("DN", st0)[attr.t] == 0
            if r == "":
                el = o.val.t
                s = Sn(eng)
                eng.oblige(And(Or(known), Not(empty)), "only known types with attributes are created", T)
                eng.oblige(And([Implies(ty == lit("str", n), cls(el) == eng.prog.classes[c].cid) for n, c in TABLE.items()]),
                           "the class the type name stands for", T)
                eng.oblige(And(birth(el) >= st0.now, s.P[el] == par.t, s.has(par.t, UID(el)), s.child(par.t, UID(el)) == el,
                               NAME(el) == name.t), "it is a new element in the parent", T)
                eng.oblige(FA([_k], s.has(par.t, _k) == Or(s0.has(par.t, _k), _k == UID(el)), s.has(par.t, _k)), "nothing else is added", T)
                holds_attrs(eng, o.val, attr, k, st0, vals if given else None)
            elif r is not None:
                s = Sn(eng)
                eng.oblige(FA([_e, _k], Implies(s0.E[_e], And(s.has(_e, _k) == s0.has(_e, _k), s.child(_e, _k) == s0.child(_e, _k))),
                              s.has(_e, _k)), "nothing is added after " + r, T)
                if r == "ErrorInsufficientValues":
                    eng.oblige(empty, "attributes are accepted", T)
                elif r == "InvalidSemanticType":
                    eng.oblige(Not(Or(known)), "known types are accepted", T)
                else:
                    eng.oblige(And(Or(known), Not(empty)), "what is refused is refused as such", T)
    return body


for _g in (False, True):
    unit("semantic.factory." + ("values" if _g else "plain"), "C19", SF + "generate_semantic_element")(u_factory(_g))

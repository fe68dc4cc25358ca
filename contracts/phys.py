"""C17: the quantities of physical elements in the generated SDF."""
from .semantic import *
from .hierarchy import _e, _k, _n, _c

T = ("C17",)
SG = "format.phys.solid_geometry_context:"
IN = "format.phys.inertia_context:"
KN = "format.phys.kinematics.kinematic_semantic_context:"
ISA = {}


# ---------------------------------------------------------------------- setting
class Subs:
    """Contract of get_subelements (shown in hierarchy.read): the sub-elements that satisfy the filter, in order; nothing changes.

    few: {class: at most this many (0 or 1)} and given: {(element, class): [elements]} are preconditions of the unit."""

    def __init__(self, eng, few=None):
        self.eng, self.few, self.given = eng, few or {}, {}
        self.fns, self.facts = {}, {}
        h = elements(eng)
        c = eng.prog.classes["HierarchicalElement"]
        todo, f0 = [c] + list(eng.prog.classes.values()), None
        for k in todo:
            f = eng.prog.lookup(k, "get_subelements")
            if f is not None:
                eng.contracts[f.qual] = Contract("the sub-elements that satisfy the filter, in order", lambda e, s, a, k: self.call(s, a, k))
        eng.note("filter functions passed to get_subelements change nothing and give the same answer each time")

    def classes_of(self, f):
        """The concrete classes of elements which the filter accepts, if it is a test of the class."""
        eng = self.eng
        x = eng.fresh("tested", V)
        h = elements(eng)
        cs = []

        def below(c):
            if c not in cs:
                cs.append(c)
            for s in c.sub:
                below(s)
        below(h)
        out = set()
        save = eng.st
        eng.st = eng.st.copy()
        eng.assume(And(FisH(x), eng.H("ELS")[x], eng.isa(x, h), birth(x) < eng.st.now))
        c = eng.merged(lambda: eng.call(f, [VObj(x, cls=h)]))
        eng.st = save
        if c is None:
            raise E.Unsupported("a filter with effects")
        for k in cs:
            r = simplify(substitute(c, (cls(x), IntVal(k.cid))))
            if is_true(r):
                out.add(k.name)
            elif not is_false(r):
                raise E.Unsupported("a filter that is not a test of the class")
        return frozenset(out)

    def named(self, cname):
        c = self.eng.prog.classes[cname]
        out = set()

        def below(c):
            out.add(c.name)
            for s in c.sub:
                below(s)
        below(c)
        return frozenset(out)

    def seq(self, t, cs):
        """The sequence SUB of sub-elements of t of the classes cs."""
        nm = "SUB!" + ",".join(sorted(cs))
        if nm not in self.fns:
            F = Function(nm, V, Q)
            self.fns[nm] = F
            eng = self.eng
            v, j = Const("v!", V), Int("j!")
            x = qelt(F(v), j)
            eng.assume(FA([v], qlen(F(v)) >= 0, F(v)))
            eng.assume(FA([v, j], Implies(And(0 <= j, j < qlen(F(v))), self.ok(x, cs)), x))
        return self.fns[nm](t)

    def ok(self, x, cs):
        eng = self.eng
        more = [f(x) for n, f in self.facts.items() if cs <= self.named(n)]
        return And(*more, FisH(x), eng.H("ELS")[x], cls(NAME(x)) == C_STR, birth(x) < eng.base_now, Or([cls(x) == eng.prog.classes[n].cid for n in sorted(cs)]))

    def call(self, s, a, k):
        eng = self.eng
        f = a[0] if a else k["filterfunc"] if "filterfunc" in k else VNone
        if isinstance(f, VObj) and f.t.eq(NONE):
            raise E.Unsupported("get_subelements without filter")
        cs = self.classes_of(f)
        t = eng.box(s)
        for (o, n), l in self.given.items():
            if cs <= self.named(n) and o.eq(t):
                return VIter(lambda e, handler: [handler(x) for x in l if x.exact.name in cs], "subelements")
        for n, m in self.few.items():
            if cs <= self.named(n):
                if m == 0:
                    return VIter(lambda e, handler: None, "subelements")
                q = self.seq(t, cs)
                eng.assume(And(0 <= qlen(q), qlen(q) <= 1))

                def run(e, handler):
                    if e.branch(qlen(q) >= 1):
                        e.assume(self.ok(qelt(q, 0), cs))
                        handler(e.wrap(qelt(q, 0)))
                return VIter(run, "subelements")
        q = self.seq(t, cs)
        return eng.lib.seq_iter(q, "subelements")


def phys(make, few=None):
    eng = make()
    start(eng)
    eng.field_hints[attr_field(eng)] = "dict"
    eng.field_hints["_endpoint"] = ("opt", elements(eng))
    eng.base_now = eng.st.now
    eng.deep_dicts = True
    eng.semantic_params, eng.list_params = [], []
    return eng, Subs(eng, few)


def element(eng, nm, c="HierarchicalElement"):
    e = param(eng, nm, c=c)
    eng.assume(And(FisH(e.t), eng.H("ELS")[e.t], cls(NAME(e.t)) == C_STR))
    return e


def semantic(eng, nm, c, exact=True, **attrs):
    """An element of class c whose attributes of these names were set to these values."""
    e = param(eng, nm, exact=c) if exact else param(eng, nm, c=c)
    eng.assume(And(FisH(e.t), eng.H("ELS")[e.t], cls(NAME(e.t)) == C_STR, owned_attrs(eng, e.t)))
    eng.assume(birth(eng.H("f:" + attr_field(eng))[e.t]) < eng.st.now)
    for o in eng.semantic_params:
        eng.assume(And(o != e.t, eng.H("f:" + attr_field(eng))[o] != eng.H("f:" + attr_field(eng))[e.t]))
    eng.semantic_params.append(e.t)
    with_attrs(eng, e, attrs)
    return e


def with_attrs(eng, e, attrs):
    for k, v in attrs.items():
        r = list(eng.explore(lambda: call_method(eng, e, "add_named_attribute", [eng.lit_str(k), v])))
        if len(r) != 1 or r[0].sig is not None:
            raise E.Unsupported("setting an attribute")
        eng.st = r[0].st


def numbers(eng, nm, n):
    """A list of n real numbers."""
    l = param(eng, nm, kind="list")
    xs = [Real("arg_%s_%d" % (nm, i)) for i in range(n)]
    for x in xs:
        eng.params.add(x.decl().name())
    q = qnil
    for x in xs:
        q = qapp(q, boxR(x))
    for o in eng.list_params:
        eng.assume(o != l.t)
    eng.list_params.append(l.t)
    eng.setH("LC", Store(eng.H("LC"), l.t, q))
    return l, xs


# ---------------------------------------------------------------------- looking at the generated XML
def tag_of(eng, x):
    return eng.sel(eng.H("f:$tag"), x, deep=True)


def kids(eng, x, besides=None):
    """The children of an element as terms; None if there is more to it than a fixed list (and the sequence given)."""
    l = VObj(eng.sel(eng.H("f:$kids"), x, deep=True), kind="list")
    its = seq_items(eng.seq_of(eng.content(l)))
    if besides is not None:
        n = len(its)
        its = [i for i in its if not (i[0] == "atom" and is_true(i[1]) and i[2].eq(besides))]
        if len(its) != n - 1:
            return None
    if all(i[0] == "one" and is_true(i[1]) for i in its):
        return [i[2] for i in its]
    return None


def find(eng, x, tags, name, besides=None):
    """The children by tag: exactly these tags in any order; None after a failed obligation."""
    ks = kids(eng, x, besides)
    if ks is None:
        eng.oblige(BoolVal(False), "%s has the parts %s" % (name, " ".join(tags)), T)
        return None
    got = {}
    for k in ks:
        got.setdefault(str(tag_of(eng, k)), []).append(k)
    out = []
    left = dict(got)
    for t in tags:
        l = left.get(str(lit("str", t)), [])
        if not l:
            eng.oblige(BoolVal(False), "%s has a part %s" % (name, t), T)
            return None
        out.append(l.pop(0))
    eng.oblige(BoolVal(not any(left.values())), "%s has no other parts than %s" % (name, " ".join(tags)), T)
    return out


def text_of(eng, x):
    return eng.sel(eng.H("f:$text"), x, deep=True)


def words(eng, t):
    """A text as words: [pieces]; words are separated by blanks in literal text."""
    out, cur = [], []
    for p in eng.pieces(t):
        k = lit_of(p)
        if k and k[0] == "str":
            s = k[1]
            while s:
                if s[0] == " ":
                    if cur:
                        out.append(cur)
                        cur = []
                    s = s[1:]
                else:
                    w = s.split(" ")[0]
                    cur.append(lit("str", w))
                    s = s[len(w):]
        else:
            cur.append(p)
    return out + ([cur] if cur else [])


def number(eng, ps):
    """The number a word states, as a term."""
    if len(ps) != 1:
        k = [lit_of(p) for p in ps]
        if all(k):
            ps = [lit("str", "".join(x[1] for x in k))]
        else:
            return None
    p = ps[0]
    k = lit_of(p)
    if k:
        try:
            return RealVal(repr(float(k[1])))
        except ValueError:
            return None
    if is_app(p) and p.decl().name() == "if":
        a, b = number(eng, [p.arg(1)]), number(eng, [p.arg(2)])
        return None if a is None or b is None else If(p.arg(0), a, b)
    if is_app(p) and p.decl().eq(tostr):
        v = p.arg(0)
        if is_app(v) and v.decl().eq(boxR):
            return v.arg(0)
        if is_app(v) and v.decl().eq(boxI):
            return ToReal(v.arg(0))
        if eng.entails(cls(v) == C_REAL):
            return unR(v)
    return None


def states(eng, x, want, name):
    """The text of the element states these numbers."""
    ws = words(eng, text_of(eng, x))
    if len(ws) != len(want):
        eng.oblige(BoolVal(False), "%s states %d numbers" % (name, len(want)), T)
        return
    for i, (w, e) in enumerate(zip(ws, want)):
        g = number(eng, w)
        if g is None:
            eng.oblige(BoolVal(False), "%s states a number" % name, T)
        else:
            eng.oblige(simplify(g - e, som=True) == 0, "%s: number %d" % (name, i + 1), T)


def tagged(eng, v, tag, name):
    if not isinstance(v, VObj) or v.kind != "xml" and not eng.entails(cls(v.t) == C_XML):
        eng.oblige(BoolVal(False), "%s is an element" % name, T)
        return False
    eng.oblige(tag_of(eng, v.t) == lit("str", tag), "%s is a %s" % (name, tag), T)
    return True


def attribute(eng, x, k):
    d = eng.sel(eng.H("f:$attrib"), x, deep=True)
    return eng.simp_sel(Select(eng.sel(eng.H("DD"), d), lit("str", k))), eng.simp_sel(Select(eng.sel(eng.H("DV"), d), lit("str", k)))


def has_attribute(eng, x, k, want, name):
    d, v = attribute(eng, x, k)
    eng.oblige(And(d, v == want), "%s: %s" % (name, k), T)


def prefixed(eng, prefix, name):
    """The name, or the prefix, a dot and the name."""
    full = eng.concat([prefix, eng.lit_str("."), VObj(name, kind="str")])
    return If(slen(prefix.t) == 0, name, full.t)


def only_new(eng, st0, name):
    """What existed before is as it was: whatever was written to belongs to new objects."""
    for key in sorted(eng.st.heap):
        a, b = eng.H(key), eng.H(key, st0)
        todo = [a]
        while todo:
            x = todo.pop()
            if x.eq(b):
                continue
            if is_app(x) and x.decl().kind() == Z3_OP_STORE:
                i = x.arg(1)
                if not (is_const(i) and i.decl().name() in eng.st.fresh_objs and i.decl().name() not in st0.fresh_objs):
                    eng.oblige(Or(birth(i) >= st0.now, x.arg(2) == Select(b, i)), "%s changes no %s" % (name, key), T)
                todo.append(x.arg(0))
            elif is_app(x) and x.decl().name() == "if":
                todo += [x.arg(1), x.arg(2)]
            else:
                r = Const("r!", V)
                eng.oblige(FA([r], Implies(birth(r) < st0.now, x[r] == b[r]), x[r]), "%s changes no %s" % (name, key), T)


def func(eng, mod, name):
    r = eng.prog.resolve(eng.prog.modules["rei." + mod], name)
    if r is None or r[0] != "func":
        raise E.Unsupported("%s not found" % name)
    return VFun(r[1])


SOLIDS = [("CylinderGeometry", 2), ("EllipsoidGeometry", 1), ("EllipsoidGeometry", 3), ("PolyhedronGeometry", 1), ("PolyhedronGeometry", 3)]


def is_solid(eng, x, kind, xs, name):
    """The element x states the solid with these values."""
    tag, parts = {("CylinderGeometry", 2): ("cylinder", {"radius": xs[:1], "length": xs[1:]}),
                  ("EllipsoidGeometry", 1): ("sphere", {"radius": xs}), ("EllipsoidGeometry", 3): ("ellipsoid", {"radii": xs}),
                  ("PolyhedronGeometry", 1): ("box", {"size": xs * 3}), ("PolyhedronGeometry", 3): ("box", {"size": xs})}[kind, len(xs)]
    if not tagged(eng, x, tag, name):
        return
    ps = find(eng, x.t, list(parts), name)
    if ps is not None:
        for (k, want), p in zip(parts.items(), ps):
            states(eng, p, want, "%s of the %s" % (k, tag))


@unit("phys.geometry", "C17", SG + "encode_typegeometry_element")
def u_geometry(make):
    for kind, n in SOLIDS:
        eng, S = phys(make)
        l, xs = numbers(eng, "values", n)
        g = semantic(eng, "e", kind, values=l)
        st0 = eng.st.copy()
        for o in outcomes(eng, lambda: eng.call(func(eng, "format.phys.solid_geometry_context", "encode_typegeometry_element"), [g])):
            if only_raises(eng, o, (), T) == "":
                is_solid(eng, o.val, kind, xs, "%s with %d values" % (kind, n))
                only_new(eng, st0, "encoding a solid")


@unit("phys.wrapped", "C17", SG + "extract_geometry_element " + SG + "encode_collision_elements " + SG + "encode_visual_elements")
def u_wrapped(make):
    """The solid of a node in its geometry element, and that in collision and visual elements."""
    for kind, n in SOLIDS:
        for what in ("extract_geometry_element", "encode_collision_elements", "encode_visual_elements"):
            eng, S = phys(make, {"HypergraphPort": 0})
            l, xs = numbers(eng, "values", n)
            g = semantic(eng, "e", kind, values=l)
            me, prefix = element(eng, "element"), param(eng, "prefix", kind="str")
            S.given[me.t, "GeometryNode"] = [g]
            mname = param(eng, "material_name", kind="str")
            args = [me] + ([semantic(eng, "material", "VisualMaterial", material_name=mname)] if what == "encode_visual_elements" else [])
            if what != "extract_geometry_element":
                args.append(prefix)
            eng.assume(slen(prefix.t) >= 0)
            st0 = eng.st.copy()
            for o in outcomes(eng, lambda: eng.to_list(eng.call(func(eng, "format.phys.solid_geometry_context", what), args))):
                if only_raises(eng, o, (), T) != "":
                    continue
                only_new(eng, st0, "encoding geometry")
                its = seq_items(eng.seq_of(eng.content(o.val)))
                if len(its) != 1 or its[0][0] != "one":
                    eng.oblige(BoolVal(False), "%s gives one element" % what, T)
                    continue
                eng.oblige(its[0][1], "%s gives one element" % what, T)
                x = eng.wrap(its[0][2])
                if what != "extract_geometry_element":
                    tag = "collision" if what == "encode_collision_elements" else "visual"
                    if not tagged(eng, x, tag, "the " + tag):
                        continue
                    has_attribute(eng, x.t, "name", prefixed(eng, prefix, NAME(me.t)), "the " + tag)
                    ps = find(eng, x.t, ["geometry"] + (["material"] if tag == "visual" else []), tag)
                    if ps is None:
                        continue
                    x = eng.wrap(ps[0])
                if tagged(eng, x, "geometry", "the geometry"):
                    ps = kids(eng, x.t)
                    eng.oblige(BoolVal(ps is not None and len(ps) == 1), "the geometry is one solid", T)
                    if ps:
                        is_solid(eng, eng.wrap(ps[0]), kind, xs, "%s with %d values" % (kind, n))


# ---------------------------------------------------------------------- poses
def is_pose(eng, x, tr, rot, ty, name="pose"):
    if tagged(eng, x, "pose", name):
        deg = ty.t == lit("str", "deg")
        states(eng, x.t, tr + [If(deg, r * eng.lib.PI / 180, r) for r in rot], name)


def transformation(eng, nm):
    lt, tr = numbers(eng, nm + "_translation", 3)
    lr, rot = numbers(eng, nm + "_rotation", 3)
    ty = param(eng, nm + "_type")
    return semantic(eng, nm, "RigidTransformation", translation=lt, rotation=lr, rotation_type=ty), tr, rot, ty


@unit("phys.pose", "C17", KN + "extract_rigid_transformation_element")
def u_pose(make):
    eng, S = phys(make)
    x, tr, rot, ty = transformation(eng, "x")
    st0 = eng.st.copy()
    for o in outcomes(eng, lambda: eng.call(func(eng, "format.phys.kinematics.kinematic_semantic_context",
                                                 "extract_rigid_transformation_element"), [x])):
        if only_raises(eng, o, (), T) == "":
            is_pose(eng, o.val, tr, rot, ty)
            only_new(eng, st0, "encoding a pose")


def u_joint(what, posed):
    def body(make):
        for axis in (False, True):
            eng, S = phys(make)
            j0, j1 = element(eng, "j0", "HypergraphRelation"), element(eng, "j1", "HypergraphRelation")
            for j in (j0, j1):
                t = eng.sel(eng.H("f:_endpoint"), j.t)
                eng.assume(And(t != NONE, FisH(t), eng.H("ELS")[t], cls(NAME(t)) == C_STR))
            prefix, jname, cname = (param(eng, n, kind="str") for n in ("prefix", "joint_name", "child_name"))
            eng.assume(slen(prefix.t) >= 0)
            jt = param(eng, "joint_type")
            attrs = {"joint_type": jt}
            xs = [RealVal(0), RealVal(0), RealVal(1)]
            if axis:
                attrs["axis"], xs = numbers(eng, "axis", 3)
            j = semantic(eng, "joint", "KinematicJoint", **attrs)
            if not axis:        # set to None or not set at all
                eng.assume(read(eng, j, eng.lit_str("axis")) == NONE)
            S.given[j1.t, "KinematicJoint"] = [j]
            S.given[j.t, "RigidTransformation"] = []
            if posed:
                pose = transformation(eng, "x")
                S.given[j.t, "RigidTransformation"] = [pose[0]]
            args = [j0, j1] + ([jname, cname] if what.endswith("endpoint") else []) + [prefix]
            st0 = eng.st.copy()
            for o in outcomes(eng, lambda: eng.call(func(eng, "format.phys.kinematics.kinematic_semantic_context", what), args)):
                if only_raises(eng, o, (), T) != "" or not tagged(eng, o.val, "joint", "the joint"):
                    continue
                only_new(eng, st0, "encoding a joint")
                nm = jname.t if what.endswith("endpoint") else prefixed(eng, prefix, NAME(j.t))
                ep = lambda r: eng.sel(eng.H("f:_endpoint"), r.t)
                child = prefixed(eng, prefix, cname.t if what.endswith("endpoint") else NAME(ep(j1)))
                parent = prefixed(eng, prefix, NAME(ep(j0)))
                x = o.val.t
                has_attribute(eng, x, "name", nm, "the joint")
                has_attribute(eng, x, "type", If(jt.t == lit("str", "rev"), lit("str", "revolute"), lit("str", "fixed")), "the joint")
                ps = find(eng, x, ["parent", "child", "axis"] + (["pose"] if posed else []), "joint")
                if ps is None:
                    continue
                eng.oblige(text_of(eng, ps[0]) == parent, "the parent is the endpoint of the incoming relation", T)
                eng.oblige(text_of(eng, ps[1]) == child, "the child is the endpoint of the outgoing relation", T)
                a = find(eng, ps[2], ["xyz"], "axis")
                if a is not None:
                    states(eng, a[0], xs, "axis")
                if posed:
                    is_pose(eng, eng.wrap(ps[3]), *pose[1:])
                    has_attribute(eng, ps[3], "relative_to", parent, "the pose")
    return body


for _x in (False, True):
    unit("phys.joint." + ("pose" if _x else "plain"), "C17", KN + "joint_base_element " + KN + "joint_base_element_endpoint " + KN + "default_joint_name")(
        u_joint("joint_base_element", _x))
    unit("phys.joint.named." + ("pose" if _x else "plain"), "C17", KN + "joint_base_element_endpoint")(u_joint("joint_base_element_endpoint", _x))


# ---------------------------------------------------------------------- inertia
def geometry_facts(eng, g):
    """Geometry as the semantic factory makes it: a list of lengths under "values"."""
    d = eng.H("f:" + attr_field(eng))[g]
    v = Select(Select(eng.H("DV"), d), lit("str", "values"))
    q = Select(eng.H("LC"), v)
    is_ = lambda c: eng.isa(g, eng.prog.classes[c])
    return And(owned_attrs(eng, g), birth(d) < eng.base_now, Select(Select(eng.H("DD"), d), lit("str", "values")), cls(v) == C_LIST, birth(v) < eng.base_now,
               Implies(is_("CylinderGeometry"), qlen(q) == 2), Implies(is_("EllipsoidGeometry"), Or(qlen(q) == 1, qlen(q) == 3)),
               *[cls(qelt(q, i)) == C_REAL for i in range(3)])


def value(eng, st, g, i):
    d = eng.H("f:" + attr_field(eng), st)[g]
    return unR(qelt(Select(eng.H("LC", st), Select(Select(eng.H("DV", st), d), lit("str", "values"))), i))


def solid_inertia(eng, st, g, m):
    """[(condition, moments)]: of the solid with this mass and these dimensions."""
    a, b, c = (value(eng, st, g, i) for i in range(3))
    d = eng.H("f:" + attr_field(eng), st)[g]
    n = qlen(Select(eng.H("LC", st), Select(Select(eng.H("DV", st), d), lit("str", "values"))))
    is_ = lambda c: eng.isa(g, eng.prog.classes[c])
    cyl, ell = is_("CylinderGeometry"), is_("EllipsoidGeometry")
    side = m * (3 * a * a + b * b) / 12
    ball = 2 * m * a * a / 5
    z = [RealVal(0)] * 3
    one = [RealVal(1)] * 3
    return [(And(cyl), [side, side, m * a * a / 2] + z), (And(ell, n == 1), [ball, ball, ball] + z),
            (And(ell, n == 3), [m * (b * b + c * c) / 5, m * (a * a + c * c) / 5, m * (a * a + b * b) / 5] + z), (Not(Or(cyl, ell)), one + z)]


def subterms(t, seen=None):
    seen = {} if seen is None else seen
    if t.get_id() in seen:
        return seen
    seen[t.get_id()] = t
    for c in t.children():
        subterms(c, seen)
    return seen


MOMENTS = ["ixx", "iyy", "izz", "ixy", "ixz", "iyz"]


def u_inertia(with_geometry):
    def body(make):
        eng, S = phys(make, {"GeometryNode": 1})
        m = Real("arg_mass")
        eng.params.add("arg_mass")
        iner = semantic(eng, "inertia", "InertiaElement", mass=VReal(m))
        me = element(eng, "element")
        p = eng.sel(eng.H("f:_parent"), me.t)
        eng.assume(And(p != NONE, FisH(p), eng.H("ELS")[p], birth(p) < eng.st.now, eng.isa(p, elements(eng))))
        S.given[p, "InertiaElement"] = [iner]
        S.facts["GeometryNode"] = lambda g: geometry_facts(eng, g)
        nodes, geos = S.named("HypergraphNode"), S.named("GeometryNode")
        q = S.seq(p, nodes)
        first = lambda v: qelt(S.seq(v, nodes), 0)
        has = lambda v: And(qlen(S.seq(v, nodes)) > 0, qlen(S.seq(first(v), geos)) > 0)
        j, k = Int("j!"), Int("arg_k")
        eng.params.add("arg_k")
        none = lambda n: FA([j], Implies(And(0 <= j, j < n), Not(has(qelt(q, j)))), qelt(q, j))
        if with_geometry:
            eng.assume(And(0 <= k, k < qlen(q), has(qelt(q, k))))
            eng.assume(none(k))
        else:
            eng.assume(none(qlen(q)))
        g0 = qelt(S.seq(first(qelt(q, k)), geos), 0)
        if with_geometry:
            eng.assume(S.ok(g0, geos))

        def candidates(ctx):
            if ctx.src is not None and ctx.src.seq is not None and ctx.src.seq.eq(q):
                yield "no earlier group has geometry", lambda st: none(st.ghost[ctx.src.idx])
            for nm, content in list_targets(eng, ctx):
                yield nm + " is empty", lambda st, content=content: None if content(st) is None else content(st) == qnil
        eng.candidates = candidates
        st0 = eng.st.copy()
        for o in outcomes(eng, lambda: eng.to_list(eng.call(func(eng, "format.phys.inertia_context", "encode_inertia_element"), [me]))):
            if only_raises(eng, o, (), T) != "":
                continue
            only_new(eng, st0, "encoding inertia")
            its = seq_items(eng.seq_of(eng.content(o.val)))
            eng.oblige(BoolVal(len(its) == 1 and its[0][0] == "one" and is_true(its[0][1])), "one inertial element", T)
            if len(its) != 1 or its[0][0] != "one" or not tagged(eng, eng.wrap(its[0][2]), "inertial", "the element"):
                continue
            ps = find(eng, its[0][2], ["mass", "inertia"], "inertial")
            if ps is None:
                continue
            states(eng, ps[0], [m], "mass")
            ms = find(eng, ps[1], MOMENTS, "inertia")
            if ms is None:
                continue
            tx = [text_of(eng, x) for x in ms]
            gs = {}
            for t in tx:
                for s in subterms(t).values():
                    if s.sort() == V and is_app(s) and s.decl().eq(qelt) and s.arg(0).decl().name().startswith("SUB!") and S.named(
                            "GeometryNode") == frozenset(s.arg(0).decl().name()[4:].split(",")):
                        gs[s.get_id()] = s
            for s in gs.values():
                eng.oblige(s == g0 if with_geometry else BoolVal(False), "the inertia is that of the first geometry", T)
            tx = [substitute(t, *[(s, g0) for s in gs.values()]) if gs else t for t in tx]
            cases = solid_inertia(eng, st0, g0, m) if with_geometry else [(BoolVal(True), [RealVal(1)] * 3 + [RealVal(0)] * 3)]
            for i, t in enumerate(tx):
                ws = words(eng, t)
                g = number(eng, ws[0]) if len(ws) == 1 else None
                if g is None:
                    eng.oblige(BoolVal(False), "%s is a number" % MOMENTS[i], T)
                    continue
                for c, want in cases:
                    eng.oblige(Implies(c, simplify(g - want[i], som=True) == 0), "%s is that of the solid" % MOMENTS[i], T)
    return body


unit("phys.inertia", "C17", IN + "encode_inertia_element " + IN + "calc_cylinder_inertia " + IN + "calc_ellipsoid_inertia")(u_inertia(True))
unit("phys.inertia.unit", "C17", IN + "encode_inertia_element")(u_inertia(False))


# ---------------------------------------------------------------------- links
ENCODED = Const("encoded_geometry", Q)


def u_link(posed):
    def body(make):
        eng, S = phys(make, {"HypergraphPort": 0})
        me, prefix = element(eng, "element", "KinematicLink"), param(eng, "prefix", kind="str")
        eng.assume(slen(prefix.t) >= 0)
        p = eng.sel(eng.H("f:_parent"), me.t)
        eng.assume(And(p != NONE, FisH(p), eng.H("ELS")[p], birth(p) < eng.st.now, eng.isa(p, eng.prog.classes["HypergraphNode"])))
        x, y = Const("x!", V), eng.sel(eng.H("f:_parent"), Const("x!", V))
        eng.assume(FA([x], Implies(And(eng.H("ELS")[x], y != NONE), And(eng.H("ELS")[y], FisH(y), eng.isa(y, elements(eng)))), y))
        S.given[me.t, "RigidTransformation"] = []
        if posed:
            pose = transformation(eng, "x")
            S.given[me.t, "RigidTransformation"] = [pose[0]]
        eng.contracts[SG + "encode_geometry_element"] = Contract("visual and collision elements only", geometry_elements)
        eng.assume(qlen(ENCODED) >= 0)

        def candidates(ctx):
            for (fid, nm) in ctx.modified_locals():
                v = ctx.h.frames.get(fid, {}).get(nm)
                if isinstance(v, VObj):
                    def good(st, fid=fid, nm=nm):
                        v = st.frames[fid].get(nm)
                        if not isinstance(v, VObj):
                            return None
                        return And(st.heap["ELS"][v.t] if "ELS" in st.heap else eng.H("ELS", st)[v.t], FisH(v.t), eng.isa(v.t, elements(eng)))
                    yield nm + " is an element", good
        eng.candidates = candidates
        st0 = eng.st.copy()
        for o in outcomes(eng, lambda: eng.call(func(eng, "format.phys.kinematics.kinematic_semantic_context", "encode_link_element"), [me, prefix])):
            if only_raises(eng, o, (), T) != "" or not tagged(eng, o.val, "link", "the link"):
                continue
            only_new(eng, st0, "encoding a link")
            has_attribute(eng, o.val.t, "name", prefixed(eng, prefix, NAME(me.t)), "the link")
            ps = find(eng, o.val.t, ["pose"], "link", ENCODED)
            if ps is not None:
                if posed:
                    is_pose(eng, eng.wrap(ps[0]), *pose[1:])
                elif tagged(eng, eng.wrap(ps[0]), "pose", "the pose"):
                    states(eng, ps[0], [RealVal(0)] * 6, "default pose")
                d, v = attribute(eng, ps[0], "relative_to")
                eng.oblige(Not(d), "a link without ports has no relative frame", T)
    return body


def geometry_elements(eng, self_, args, kwargs):
    return eng.lib.seq_iter(ENCODED, "geometry elements")


for _x in (False, True):
    unit("phys.link." + ("pose" if _x else "plain"), "C17", KN + "encode_link_element")(u_link(_x))

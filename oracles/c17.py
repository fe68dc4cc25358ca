from common import *
import math
from rei.format.semantics.CognitiveEntity import *
from rei.format.phys.inertia_context import encode_inertia_element
from rei.format.phys.solid_geometry_context import (encode_typegeometry_element, encode_geometry_element,
                                                    extract_geometry_element)
from rei.format.phys.kinematics.kinematic_semantic_context import (extract_rigid_transformation_element,
                                                                   joint_base_element, joint_base_element_endpoint,
                                                                   encode_link_element, default_joint_name)
from rei.format.mapping.cognilang_sdf_icon import CognilangSdfIcon

GEO = {"cyl": CylinderGeometry, "ell": EllipsoidGeometry, "poly": PolyhedronGeometry}
CNT = [0]


def sem(cls, parent, attr, name=None, values=None):
    CNT[0] += 1
    u = uid("s%d" % CNT[0])
    nm = name or "s%d" % CNT[0]
    e = cls(u, nm, nm, parent, attr, values) if issubclass(cls, GeometryNode) else cls(u, nm, nm, parent, attr)
    if values is not None:
        e.add_named_attribute("values", values)
    parent.add_element(e)
    return e


def nums(t):
    return [float(x) for x in t.split()]


def close(a, b):
    return len(a) == len(b) and all(math.isclose(x, y, rel_tol=1e-9, abs_tol=1e-12) for x, y in zip(a, b))


def verify_geom(el, kind, vals):
    if kind == "cyl":
        need(el.tag == "cylinder", "cylinder encoded as %s", el.tag)
        need(float(el.find("radius").text) == vals[0] and float(el.find("length").text) == vals[1],
             "cylinder has radius %s and length %s, expected %r", el.find("radius").text, el.find("length").text, vals)
        need(len(el) == 2, "cylinder has extra parts")
    elif kind == "ell" and len(vals) == 1:
        need(el.tag == "sphere" and float(el.find("radius").text) == vals[0], "sphere is encoded wrongly")
    elif kind == "ell":
        need(el.tag == "ellipsoid" and nums(el.find("radii").text) == vals, "ellipsoid is encoded wrongly")
    else:
        need(el.tag == "box", "box encoded as %s", el.tag)
        need(nums(el.find("size").text) == (vals if len(vals) == 3 else vals * 3), "box has size %s, expected %r",
             el.find("size").text, vals)


def inertia(kind, m, v):
    if kind == "cyl":
        r, l = v
        a = m * (3 * r * r + l * l) / 12
        return [a, a, m * r * r / 2, 0, 0, 0]
    if kind == "ell":
        if len(v) == 1:
            v = v * 3
        a, b, c = v
        return [m / 5 * (b * b + c * c), m / 5 * (a * a + c * c), m / 5 * (a * a + b * b), 0, 0, 0]
    return [1, 1, 1, 0, 0, 0]


def verify_pose(el, tr, rot, typ):
    want = list(tr) + [x * math.pi / 180 if typ == "deg" else x for x in rot]
    need(el.tag == "pose" and close(nums(el.text), want), "pose is %s, expected %r", el.text, want)


def pre(names, prefix):
    return ".".join(([prefix] if prefix else []) + names)


def verify_joint(el, case, j1edge=None):
    p = case["prefix"]
    need(el.tag == "joint" and el.attrib["type"] == {"fix": "fixed", "rev": "revolute"}.get(case["jtype"], "fixed"),
         "joint type is %r for %r", el.attrib.get("type"), case["jtype"])
    need(el.find("axis").find("xyz") is not None and
         nums(el.find("axis").find("xyz").text) == (case["axis"] or [0.0, 0.0, 1.0]), "axis is %s, expected %r",
         el.find("axis").find("xyz").text, case["axis"])


def check(case):
    clock = DummyClock()
    fac = HypergraphFactory("f", clock)
    k = case["what"]
    if k == "geom":
        root = fac.generate_node("g")
        g = sem(GEO[case["kind"]], root, {"name": "x"}, values=case["vals"])
        el = encode_typegeometry_element(g)
        verify_geom(el, case["kind"], case["vals"])
        tops = list(extract_geometry_element(root))
        need(len(tops) == 1 and tops[0].tag == "geometry" and len(tops[0]) == 1, "geometry is not wrapped once")
        verify_geom(tops[0][0], case["kind"], case["vals"])
    elif k == "inertia":
        link = fac.generate_node("link")
        sem_i = sem(InertiaElement, link, {"mass": case["mass"]})
        if case["kind"] is not None:
            vis = fac.generate_node("vis", link)
            box = fac.generate_node("geo", vis)
            sem(GEO[case["kind"]], box, {"name": "x"}, values=case["vals"])
        if case["noise"]:
            sem(KinematicLink, link, {"a": 1})
        out = list(encode_inertia_element(sem_i))
        need(len(out) == 1 and out[0].tag == "inertial", "no inertial element")
        need(float(out[0].find("mass").text) == case["mass"], "mass is %s, expected %r", out[0].find("mass").text,
             case["mass"])
        got = [float(out[0].find("inertia").find(t).text) for t in ("ixx", "iyy", "izz", "ixy", "ixz", "iyz")]
        need(len(out[0].find("inertia")) == 6, "inertia has %d parts", len(out[0].find("inertia")))
        want = inertia(case["kind"], case["mass"], case["vals"]) if case["kind"] else [1, 1, 1, 0, 0, 0]
        need(close(got, want), "inertia is %r, expected %r", got, want)
    elif k == "pose":
        root = fac.generate_node("g")
        attr = {"translation": case["tr"], "rotation": case["rot"]}
        if case["typ"] is not None:
            attr["rotation_type"] = case["typ"]
        x = sem(RigidTransformation, root, attr)
        verify_pose(extract_rigid_transformation_element(x), case["tr"], case["rot"], case["typ"])
        verify_pose(extract_rigid_transformation_element(x), case["tr"], case["rot"], case["typ"])
    elif k == "joint":
        root = fac.generate_node("g")
        a, b = fac.generate_node(case["a"], root), fac.generate_node(case["b"], root)
        e = fac.create_hyperedge(root, "jedge")
        e.unary_connect(a, None, IN)
        e.unary_connect(b, None, OUT)
        j0, j1 = list(e.sub_relations)
        attr = {"joint_type": case["jtype"]}
        if case["axis"] is not None:
            attr["axis"] = case["axis"]
        j = sem(KinematicJoint, j1, attr, name=case["jname"])
        if case["rigid"]:
            sem(RigidTransformation, j, {"translation": case["rigid"][0], "rotation": case["rigid"][1],
                                         "rotation_type": case["rigid"][2]})
        p = case["prefix"]
        for el, nm, child in ((joint_base_element(j0, j1, p), pre([case["jname"]], p), pre([case["b"]], p)),
                              (joint_base_element_endpoint(j0, j1, "jj", "other", p), "jj", pre(["other"], p))):
            verify_joint(el, case)
            need(el.attrib["name"] == nm, "joint is named %r, expected %r", el.attrib["name"], nm)
            need(el.find("parent").text == pre([case["a"]], p), "joint parent is %r, expected %r",
                 el.find("parent").text, pre([case["a"]], p))
            need(el.find("child").text == child, "joint child is %r, expected %r", el.find("child").text, child)
            poses = el.findall("pose")
            need(len(poses) == (1 if case["rigid"] else 0), "joint has %d poses", len(poses))
            if poses:
                verify_pose(poses[0], *case["rigid"])
                need(poses[0].attrib.get("relative_to") == pre([case["a"]], p), "joint pose is relative to %r",
                     poses[0].attrib.get("relative_to"))
    elif k == "link":
        root = fac.generate_node("robot")
        sem(KinematicGraphDefinition, root, {"a": 1})
        node = fac.generate_node(case["a"], root)
        link = sem(KinematicLink, node, {"a": 1}, name=case["jname"])
        if case["rigid"]:
            sem(RigidTransformation, link, {"translation": case["rigid"][0], "rotation": case["rigid"][1],
                                            "rotation_type": case["rigid"][2]})
        sem(InertiaElement, node, {"mass": case["mass"]})
        groups = []
        for i, (material, geoms) in enumerate(case["groups"]):
            grp = fac.generate_node("grp%d" % i, node)
            names = []
            for t, (kind, vals) in enumerate(geoms):
                nm = "geo%d_%d" % (i, t)
                gn = fac.generate_node(nm, grp)
                sem(GEO[kind], gn, {"name": "x"}, values=vals)
                names.append((nm, kind, vals))
            if material:
                sem(VisualMaterial, grp, {"material_name": material})
            groups.append((material, names))
        p = case["prefix"]
        icon = CognilangSdfIcon(clock)
        entity = sem(CognitiveEntity, root, {"name": "rob"}, name="rob")
        run(icon.encode([entity, link], p))
        model = icon.root_xml.find("model")
        need(model is not None and model.attrib["name"] == "rob", "model is missing or misnamed")
        el = model.find("link")
        need(el is not None and el.attrib["name"] == pre([case["jname"]], p), "link is missing or misnamed")
        need(len(model.findall("link")) == 1, "link is encoded %d times", len(model.findall("link")))
        pose = el.findall("pose")
        need(len(pose) == 1, "link has %d poses", len(pose))
        if case["rigid"]:
            verify_pose(pose[0], *case["rigid"])
        else:
            need(nums(pose[0].text) == [0.0] * 6, "default pose is %s", pose[0].text)
        vis = [(x.attrib["name"], x) for x in el.findall("visual")]
        col = [(x.attrib["name"], x) for x in el.findall("collision")]
        wantv = [(pre([nm], p), kd, v, mt) for mt, names in groups if mt for nm, kd, v in names]
        wantc = [(pre([nm], p), kd, v) for mt, names in groups if not mt for nm, kd, v in names]
        need([x for x, _ in vis] == [x[0] for x in wantv], "visuals %r, expected %r", [x for x, _ in vis],
             [x[0] for x in wantv])
        need([x for x, _ in col] == [x[0] for x in wantc], "collisions %r, expected %r", [x for x, _ in col],
             [x[0] for x in wantc])
        for (nm, x), w in list(zip(vis, wantv)) + list(zip(col, wantc)):
            verify_geom(x.find("geometry")[0], w[1], w[2])
        for (nm, x), w in zip(vis, wantv):
            need(x.find("material").find("script").find("name").text == "Gazebo/" + w[3].capitalize(),
                 "material is %s", x.find("material").find("script").find("name").text)
        first = [g for mt, names in groups for g in names[:1]][:1]
        got = [float(el.find("inertial").find("inertia").find(t).text) for t in
               ("ixx", "iyy", "izz", "ixy", "ixz", "iyz")]
        want = inertia(first[0][1], case["mass"], first[0][2]) if first else [1, 1, 1, 0, 0, 0]
        need(close(got, want), "inertia is %r, expected %r", got, want)
    return None


def cases(rng, tier):
    n = 1500 if tier == "quick" else 25000
    num = lambda: rng.choice([0.5, 1.0, 2.0, 3.0, 0.25, 7.5])
    def vals(kind):
        return [num() for _ in range({"cyl": 2, "ell": rng.choice([1, 3]), "poly": rng.choice([1, 3])}[kind])]
    tri = lambda: [rng.choice([0.0, 1.0, -2.5, 90.0, 45.0, 30.0]) for _ in range(3)]
    for _ in range(n):
        k = rng.choice(["geom", "inertia", "inertia", "pose", "joint", "joint", "link"])
        kind = rng.choice(["cyl", "ell", "poly"])
        c = {"what": k, "kind": kind, "vals": vals(kind)}
        if k == "inertia" and rng.random() < .2:
            c["kind"] = None
        c["mass"] = rng.choice([1.0, 2.5, 10.0])
        c["noise"] = rng.random() < .3
        c["tr"], c["rot"], c["typ"] = tri(), tri(), rng.choice(["deg", "rad", None])
        c["a"], c["b"], c["jname"] = rng.sample(["base", "wheel", "arm", "tip"], 3)
        c["prefix"] = rng.choice(["", "", "pre", "a.b"])
        c["jtype"] = rng.choice(["fix", "rev", "other"])
        c["axis"] = rng.choice([None, tri()])
        c["rigid"] = rng.choice([None, [tri(), tri(), rng.choice(["deg", "rad"])]])
        c["groups"] = [[rng.choice([None, None, "red", "blue"]), [[kd, vals(kd)] for kd in
                        [rng.choice(["cyl", "ell", "poly"]) for _ in range(rng.randrange(0, 3))]]]
                       for _ in range(rng.randrange(0, 3))]
        yield c

from common import *
from rei.format.semantics import CognitiveEntity as ce
from rei.format.semantics.cognitive_entity_semantic_factory import CognitiveEntitySemanticFactory, InvalidSemanticType
from rei.factories.abstract_factory import ErrorInsufficientValues

TYPES = {"cognitiveentity": ce.CognitiveEntity, "kinematicgraph": ce.KinematicGraphDefinition,
         "kinematiclink": ce.KinematicLink, "kinematicjoint": ce.KinematicJoint,
         "cylindergeometry": ce.CylinderGeometry, "polyhedrongeometry": ce.PolyhedronGeometry,
         "ellipsoidgeometry": ce.EllipsoidGeometry, "material": ce.VisualMaterial,
         "rigidtransformation": ce.RigidTransformation, "inertiaelement": ce.InertiaElement}
ATTRS = ["name", "values", "a", "b", "mass"]


def check(case):
    clock = DummyClock()
    fac = CognitiveEntitySemanticFactory("s", clock)
    parents = [HypergraphFactory("f", clock).generate_node("p"), ValueNode(b"v", "v", "v", [])]
    parents[0].add_element(ce.SemanticValueNode(b"x0", "old", "old", None, {"k": 1}))
    live = []
    for st in case["steps"]:
        if st[0] == "new":
            _, raw, key, name, attr, values, pi = st
            par = parents[pi % len(parents)]
            src = dict(attr)
            before = children(par)
            if any(x.id_name == name for x in before):
                continue
            try:
                el = fac.generate_semantic_element(raw, name, par, src, None if values is None else list(values))
            except (InvalidSemanticType, ErrorInsufficientValues) as e:
                need(key not in TYPES or not attr, "%r was refused with %r", raw, e)
                if not attr:
                    need(isinstance(e, ErrorInsufficientValues), "empty attributes: %r", e)
                else:
                    need(isinstance(e, InvalidSemanticType), "unknown type: %r", e)
                need([id(x) for x in children(par)] == [id(x) for x in before], "a refused element was added")
                continue
            need(key in TYPES and attr, "%r with %r was accepted", raw, attr)
            need(type(el) is TYPES[key], "%r created a %s", raw, type(el).__name__)
            need(el.parent is par and [id(x) for x in children(par)] == [id(x) for x in before + [el]],
                 "element is not contained in its parent")
            need(el.id_name == name, "element is named %r", el.id_name)
            model = dict(attr)
            if values is not None:
                model["values"] = list(values)
            live.append((el, model, src))
        elif live:
            el, model, src = live[st[1] % len(live)]
            if st[0] == "set":
                el.add_named_attribute(st[2], st[3])
                model[st[2]] = st[3]
            elif st[0] == "del":
                el.remove_named_attribute(st[2])
                model.pop(st[2], None)
            elif st[0] == "poke":
                src[st[2]] = "junk"
            elif st[0] == "clear":
                src.clear()
            elif st[0] == "setup" and hasattr(el, "setup"):
                el.setup(st[3])
                model["name"] = st[3]
        for el, model, src in live:
            for a in ATTRS + ["zz"]:
                need(el[a] == model.get(a), "attribute %r is %r, expected %r", a, el[a], model.get(a))
    return None


def spell(rng, t):
    base = {"cognitiveentity": "cognitive_entity", "kinematicgraph": "kinematic_graph",
            "kinematiclink": "kinematic_link", "kinematicjoint": "kinematic_joint",
            "cylindergeometry": "cylinder_geometry", "polyhedrongeometry": "polyhedron_geometry",
            "ellipsoidgeometry": "ellipsoid_geometry", "rigidtransformation": "rigid_transformation",
            "inertiaelement": "inertia_element"}.get(t, t)
    s = rng.choice([t, base, base.upper(), base.title(), "_" + base, base + "_"])
    return rng.choice([s, s, " " + s, s + " ", "\t" + s + "\n"])


def cases(rng, tier):
    for t in TYPES:
        yield {"steps": [["new", spell(rng, t), t, "n", {"a": 1}, None, 0], ["set", 0, "b", 2]]}
    n = 1000 if tier == "quick" else 20000
    for _ in range(n):
        steps = []
        for k in range(rng.randrange(1, 9)):
            if rng.random() < .4:
                if rng.random() < .85:
                    key = rng.choice(list(TYPES))
                    raw = spell(rng, key)
                else:
                    raw = key = rng.choice(["nothing", "kinematic", "", "geometry", "cylindergeometryx"])
                attr = {a: rng.choice([1, "s", [1, 2], None, 0.5]) for a in ATTRS if rng.random() < .4}
                steps.append(["new", raw, key, "n%d" % k, attr,
                              None if rng.random() < .6 else [rng.choice([1, 2.5]) for _ in range(rng.randrange(0, 4))],
                              rng.randrange(2)])
            else:
                steps.append([rng.choice(["set", "del", "poke", "setup", "clear"]), rng.randrange(6), rng.choice(ATTRS),
                              rng.choice([1, "t", None, [3]])])
        yield {"steps": steps}

from common import *


def check(case):
    src = None if case["init"] is None else list(case["init"])
    v = ValueNode(b"u", "v", "v", src)
    model = [] if src is None else list(src)
    lists = [] if src is None else [src]
    for st in case["steps"]:
        o = st[0]
        if o == "set" and model:
            i = st[1] % len(model)
            (v.update_value if st[3] else v.__setitem__)(i, st[2])
            model[i] = st[2]
        elif o == "all":
            new = list(st[1])
            v.update_values(new)
            lists.append(new)
            model = list(st[1])
        elif o == "poke" and lists:
            l = lists[st[1] % len(lists)]
            if st[2] or not l:
                l.append("junk")
            else:
                l[0] = "junk"
        elif o == "copy":
            g = v.get_values()
            g.append("junk")
            if len(g) > 1:
                g[0] = "junk"
        need(v.dim == len(model), "dimension is %r, expected %r", v.dim, len(model))
        need(list(v.val) == model and v.get_values() == model, "values are %r, expected %r", list(v.val), model)
        need(list(iter(v)) == model, "iteration gives %r, expected %r", list(iter(v)), model)
        for i, x in enumerate(model):
            need(v[i] == x and v.get_value(i) == x, "position %d is %r, expected %r", i, v[i], x)


def cases(rng, tier):
    n = 1500 if tier == "quick" else 30000
    for _ in range(n):
        val = lambda: rng.choice([0, 1, 2.5, -3, "s", None])
        lst = lambda: [val() for _ in range(rng.randrange(0, 5))]
        steps = []
        for _ in range(rng.randrange(0, 8)):
            o = rng.choice(["set", "set", "all", "poke", "copy"])
            steps.append({"set": lambda: ["set", rng.randrange(5), val(), rng.random() < .5],
                          "all": lambda: ["all", lst()], "poke": lambda: ["poke", rng.randrange(5), rng.random() < .5],
                          "copy": lambda: ["copy"]}[o]())
        yield {"init": None if rng.random() < .15 else lst(), "steps": steps}

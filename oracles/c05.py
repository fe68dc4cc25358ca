import hier


def cases(rng, tier):
    return hier.gen(rng, tier, "C05")


def check(case):
    return hier.play(case["ops"], "C05")


def shrink(case):
    return hier.shrink(case, "C05")

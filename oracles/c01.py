import hier


def cases(rng, tier):
    return hier.gen(rng, tier, "C01")


def check(case):
    return hier.play(case["ops"], "C01")


def shrink(case):
    return hier.shrink(case, "C01")

import hier


def cases(rng, tier):
    return hier.gen(rng, tier, "C06")


def check(case):
    return hier.play(case["ops"], "C06")


def shrink(case):
    return hier.shrink(case, "C06")

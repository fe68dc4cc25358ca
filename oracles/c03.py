import hier


def cases(rng, tier):
    return hier.gen(rng, tier, "C03")


def check(case):
    return hier.play(case["ops"], "C03")


def shrink(case):
    return hier.shrink(case, "C03")

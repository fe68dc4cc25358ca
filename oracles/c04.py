import hier


def cases(rng, tier):
    return hier.gen(rng, tier, "C04")


def check(case):
    return hier.play(case["ops"], "C04")


def shrink(case):
    return hier.shrink(case, "C04")

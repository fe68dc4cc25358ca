import hier


def cases(rng, tier):
    return hier.gen(rng, tier, "C02")


def check(case):
    return hier.play(case["ops"], "C02")


def shrink(case):
    return hier.shrink(case, "C02")

from checks import chebcases
ASSUMPTIONS = chebcases.ASSUMPTIONS
BOUNDS = chebcases.bounds('rejections')
BUDGET = dict(quick=500, thorough=850)


def cases(tier):
    return chebcases.cases(tier, (40.0, 20.0, 80.0, 3.0, 10.0, 60.0), (1.01, 8), (1e-10, 1e-9))

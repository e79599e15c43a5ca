from checks import chebcases
ASSUMPTIONS = chebcases.ASSUMPTIONS
BOUNDS = chebcases.bounds('ripples')
BUDGET = dict(quick=500, thorough=850)


def cases(tier):
    return chebcases.cases(tier, (1.0, 0.1, 3.0, 0.01, 6.0, 12.0), (1.01, 8), (1e-10, 1e-9))

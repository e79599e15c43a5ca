BUDGET = dict(quick=500, thorough=850)
ASSUMPTIONS = ['doubles are treated as exact reals']
BOUNDS = dict(quick='orders 1 to 14, every cutoff and every frequency in (0, 0.5)', thorough='orders 1 to 16, every cutoff and every frequency in (0, 0.5)')


def cases(tier):
    out = []
    for n in range(1, 15 if tier == 'quick' else 17):
        for fn in ('lp', 'hp'):
            out.append(dict(fn=fn, params=dict(n=n), cost=n, limit=60 if n < 15 else 400))
    return out

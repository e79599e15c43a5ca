ASSUMPTIONS = ['doubles are treated as exact reals', 'branches that need an exact coincidence of irrational values for which the solver knows no point are '
               'not explored in the fully symbolic cases (counted as unexplored_zero_sets)']
BOUNDS = dict(quick='every f: orders 1-8 at 14 numeric bands; every centre, every width (not within 0.005 of 1/4) and every f together: orders 1-6; fc +- fw/2 in (0.0001, 0.4999)',
              thorough='every f: orders 1-8 at about 90 numeric bands; every centre, width and f together: orders 1-8 (7 and 8 may exceed the budget)')
BUDGET = dict(quick=500, thorough=850)


def cases(tier):
    q = tier == 'quick'
    bands = [(0.25, 0.125), (0.125, 0.0625), (0.3, 0.35), (0.05, 0.04), (0.4, 0.1), (0.25, 0.49), (0.03, 0.04), (0.46, 0.06), (0.2, 0.3), (0.35, 0.2),
             (0.1, 0.19), (0.25, 0.25), (0.45, 0.05), (0.375, 0.24)]
    if not q:
        bands += [(i / 40, min(i, 20 - i) / 20 * k) for i in range(1, 20) for k in (0.25, 0.5, 0.77, 0.95)]
    out = []
    for fn in ('bp', 'bs'):
        for n in range(1, 9):
            for fc, fw in sorted(set(bands)):
                out.append(dict(fn=fn + '_grid', params=dict(n=n, fc=fc, fw=fw, tol=1e-7 if fw < 0.021 or fw > 0.45 else 1e-8), cost=n))
        for n in range(1, 7 if q else 9):
            for lo, hi in ((0, 0.245), (0.255, 0.5)):
                out.append(dict(fn=fn + '_all', params=dict(n=n, wlo=lo, whi=hi), cost=20, generic=True, z3_ms=1000, maxterms=60000 if q else 200000, limit=90 if q else 500))
    for fn in ('bp', 'bs'):
        for n in (9, 12, 17, 25):
            for fc, fw in ((0.2, 0.15), (0.33, 0.25)):
                out.append(dict(fn=fn + '_grid', params=dict(n=n, fc=fc, fw=fw, tol=1e-7), cost=n * n / 10, defs=('VS_N=25',), id='%s_order%d_%g' % (fn, n, fc)))
    return out

ASSUMPTIONS = ['doubles are treated as exact reals', 'branches that need an exact coincidence of values for which no point is known are '
               'not explored in the symbolic cases (counted as unexplored_zero_sets)',
               'Chebyshev shelves: 0 < ripple < |gain|']
BOUNDS = dict(quick='orders 1-8: every f at 3 numeric bands and 4 numeric gain/ripple pairs for the 9 shelf classes; every cutoff and f (low/high shelves, orders 1-8, two gains); every centre '
              'and width (band shelves: reference ends, edge gains; orders 1-4 Butterworth, 1-8 Chebyshev); every gain in 0.125^2n..8^2n with every cutoff '
              '(Butterworth low/high shelves orders 1-8 end and edge gains, orders 1-3 whole range; band shelf orders 1-2); every gain and every ripple below it with every cutoff (Chebyshev low/high shelves orders 1-4: 0 dB end, '
              'both ends of the boosted band); eight gain/ripple pairs from 0.5 to 90 dB at orders 1, 2, 5',
              thorough='as quick with 5 bands, 9 gain/ripple pairs, Butterworth band shelf every centre and width orders 1-6, every gain orders 1-4')
BUDGET = dict(quick=500, thorough=850)


def cases(tier):
    q = tier == 'quick'
    out = []
    for fam in ('bw', 'c1', 'c2'):
        for k in ('ls', 'hs', 'sh'):
            fn = fam + '_' + k
            for n in range(1, 9):
                gr = [(6, 1), (-8, 2), (20, 0.1), (-30, 3)] if fam != 'bw' else [(6, 0), (-12, 0), (30, 0), (-20, 0)]
                if not q:
                    gr += [(3, 0.5), (-3, 0.5), (12, 6), (-12, 1), (1, 0.25)]
                for fc, fw in ((0.125, 0.0625), (0.3, 0.35), (0.4, 0.1), (0.05, 0.04), (0.25, 0.125))[:3 if q else 5]:
                    for g, r in gr:
                        p = dict(n=n, sym=0, fc=fc, g=g, r=r, range=1)
                        if k == 'sh':
                            p['fw'] = fw
                        out.append(dict(fn=fn, params=p, cost=n))
                for g, r in ((6, 1), (-8, 2)):
                    if k == 'sh':
                        if fam == 'bw' and n > (4 if q else 6) or q and g < 0 and n > 3:
                            continue
                        for lo, hi in ((0, 0.245), (0.255, 0.5)):
                            out.append(dict(fn=fn, params=dict(n=n, sym=3, g=g, r=r, range=0, wlo=lo, whi=hi), generic=True, z3_ms=1000, cost=30,
                                            limit=60 if q else 200))
                    else:
                        out.append(dict(fn=fn, params=dict(n=n, sym=1, g=g, r=r, range=1), generic=True, cost=10))
                # small and large gains and ripples
                if n in ((1, 2, 5) if q else (1, 2, 3, 4, 5, 6)):
                    for g, r in ((0.5, 0.25), (-0.5, 0.1), (1, 0.25), (0.9, 0.5), (90, 3), (-60, 1), (3, 2.9), (-1.5, 0.01)):
                        p = dict(n=n, sym=0, fc=0.2, g=g, r=r if fam != 'bw' else 0, range=1)
                        if k == 'sh':
                            p['fw'] = 0.1
                        out.append(dict(fn=fn, params=p, cost=n))
                if fam != 'bw' and k != 'sh' and n <= (4 if q else 6):
                    for b in (0, 1):
                        out.append(dict(fn=fn, params=dict(n=n, sym=5, g=0, r=1, range=0, boost=b), generic=True, cost=20, limit=60 if q else 200))
                if fam == 'bw':
                    if k == 'sh':
                        if n <= (2 if q else 4):
                            out.append(dict(fn=fn, params=dict(n=n, sym=7, range=0, wlo=0, whi=0.245), generic=True, z3_ms=1000, cost=30, limit=60 if q else 300))
                    else:
                        out.append(dict(fn=fn, params=dict(n=n, sym=5, range=0), generic=True, cost=10))
                        if n <= (3 if q else 4):
                            out.append(dict(fn=fn, params=dict(n=n, sym=5, range=1), generic=True, cost=10, limit=60 if q else 200))
            for n in (9, 12, 16) if k == 'sh' else (9, 12, 17, 25):
                for fc, g in ((0.2, 6), (0.33, -8)):
                    p = dict(n=n, sym=0, fc=fc, g=g, r=1 if fam != 'bw' else 0, range=1)
                    if k == 'sh':
                        p['fw'] = fc - 0.05
                    out.append(dict(fn=fn, params=p, cost=n * n / 10, z3_ms=30000, defs=('VS_N=25',), id='%s_order%d_%g' % (fn, n, fc)))
    return out

BANDS = [(0.25, 0.125), (0.125, 0.0625), (0.3, 0.35), (0.05, 0.04), (0.4, 0.1)]
ASSUMPTIONS = ['doubles are treated as exact reals', 'branches that need an exact coincidence of values for which no point is known are '
               'not explored in the symbolic cases (counted as unexplored_zero_sets)']


def bounds(what):
    return dict(quick='orders 1-8: every f at 5 numeric bands and 3 numeric ' + what + '; every cutoff and f: orders 1-8 (low-/high-pass); every centre, width (up to 0.245 '
                'and from 0.255) and f: orders 1-5 (band filters); every ' + what + ', cutoff and f together: orders 1-5 (low-/high-pass), 1-2 (band filters)',
                thorough='as quick with 6 values of the ' + what + ', band filters of every centre, width and f: orders 1-8; every ' + what + ' with every cutoff and f: '
                'orders 1-8 (low-/high-pass), 1-3 (band filters); the largest may exceed the budget')


def cases(tier, rip, rs, tols=(1e-7, 1e-6)):
    q = tier == 'quick'
    out = []
    for fn in ('lp', 'hp', 'bp', 'bs'):
        band = fn[0] == 'b'
        for n in range(1, 9):
            for k, r in enumerate(rip if not q else rip[:3]):
                # every f, numeric design
                for fc, fw in BANDS:
                    p = dict(n=n, sym=0, fc=fc, r=r, tol=tols[0])
                    if band:
                        p['fw'] = fw
                    out.append(dict(fn=fn, params=p, cost=n))
                # every cutoff / band and f, numeric ripple
                if band and k == 0 and n <= (5 if q else 8):
                    for lo, hi in ((0, 0.245), (0.255, 0.5)):
                        out.append(dict(fn=fn, params=dict(n=n, sym=3, r=r, wlo=lo, whi=hi), cost=20 * n, generic=True, z3_ms=1000,
                                        maxterms=60000 if n < 8 else 200000, limit=60 if q else 300))
                elif not band:
                    out.append(dict(fn=fn, params=dict(n=n, sym=1, r=r), cost=2 * n, generic=True))
            # every ripple
            if not band and n <= (5 if q else 8):
                out.append(dict(fn=fn, params=dict(n=n, sym=5, rlo=rs[0], rhi=rs[1]), cost=9 * n, generic=True, limit=60 if q else 300))
            elif band and n <= (2 if q else 3):
                out.append(dict(fn=fn, params=dict(n=n, sym=7, rlo=rs[0], rhi=rs[1], wlo=0, whi=0.245), cost=90, generic=True, z3_ms=1000,
                                limit=60 if q else 300))
        for n in (9, 11, 14) if band else (9, 12, 17, 25):
            for (fc, fw), r in (((0.2, 0.15), rip[0]), ((0.33, 0.25), rip[2])):
                out.append(dict(fn=fn, params=dict(n=n, sym=0, fc=fc, fw=fw, r=r, tol=tols[1]), cost=n * n / 10, z3_ms=30000, defs=('VS_N=25',), id='%s_order%d_%g' % (fn, n, fc)))
            if not band and n < (13 if q else 20):
                out.append(dict(fn=fn, params=dict(n=n, sym=1, r=rip[0]), cost=2 * n, generic=True, defs=('VS_N=25',), id='%s_order%d_all' % (fn, n), limit=60 if q else 300))
    return out

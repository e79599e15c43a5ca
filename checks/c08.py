BUDGET = dict(quick=500, thorough=800)
ASSUMPTIONS = ['doubles are treated as exact reals; sin/cos/sinh/asinh of the design constants enter as exact algebraic or numerically enclosed constants',
               'with symbolic centre and width the two sections of one band-transformed pole pair are judged together (Hurwitz conditions of their product, equivalent to all four poles lying inside the unit circle)']
BOUNDS = dict(quick='low/high-pass and shelves: orders 1-8, every cutoff in (0, 0.5), fixed ripple/gain; pass/stop additionally every ripple parameter (Chebyshev II stop bands to beyond 200 dB) and shelves every gain (and every Chebyshev ripple below it) for orders 1-4; band designs: every centre and width (orders 1-4), eight (centre, width) points of orders 5-8; RBJ: every frequency, Q in [0.001, 1000], gain in [-120, 120] dB, slope in [0.01, 1]',
              thorough='as quick, every ripple and every centre and width up to order 8')
GRID = ((0.25, 0.125), (0.125, 0.0625), (0.3, 0.35), (0.05, 0.04), (0.4, 0.1), (0.02, 0.01), (0.45, 0.05), (0.25, 0.49))


def cases(tier):
    out = []
    quick = tier == 'quick'
    for c in range(21):
        k = c % 7
        band = k in (2, 3, 6)
        shelf = k >= 4
        rip = c >= 7
        for n in range(1, 9):
            for g in ((6, -10) if shelf else (0,)):
                base = dict(cls=c, n=n, g=g, r=1.0 if c < 14 or shelf else 40.0)
                if band:
                    if quick and n > 4:
                        for fc, fw in GRID[(n + c) % 2::2]:
                            out.append(dict(fn='design', params=dict(base, sym=0, fc=fc, fw=fw), cost=1))
                    if n <= 4 or not quick:
                        out.append(dict(fn='design', params=dict(base, sym=3, wlo=0, whi=0.245), cost=30 * n, generic=True, z3_ms=1000))
                        out.append(dict(fn='design', params=dict(base, sym=3, wlo=0.255, whi=0.5), cost=30 * n, generic=True, z3_ms=1000))
                else:
                    out.append(dict(fn='design', params=dict(base, sym=1), cost=2, generic=True))
                    if rip and not shelf and (n <= 4 or not quick):
                        out.append(dict(fn='design', params=dict(base, sym=5, rhi=50), cost=2 * n, generic=True))
                        if c >= 14:
                            out.append(dict(fn='design', params=dict(base, sym=5, rhi=2 * 10.0 ** (10.0 / n)), cost=2 * n, generic=True))
                    if shelf and g > 0 and n <= (4 if quick else 6):
                        for b in ((0, 1) if rip else (0,)):
                            out.append(dict(fn='design', params=dict(base, sym=5, boost=b), cost=2 * n, generic=True))
        for n in (9, 12, 17, 25):
            base = dict(cls=c, n=n, g=6 if n & 1 else -10, r=1.0 if c < 14 or shelf else 40.0)
            if band:
                for fc, fw in ((0.2, 0.15), (0.33, 0.25)):
                    out.append(dict(fn='design', params=dict(base, sym=0, fc=fc, fw=fw), defs=('VS_N=25',), id='order%d_cls%d_%g' % (n, c, fc)))
            else:
                out.append(dict(fn='design', params=dict(base, sym=1), cost=2, generic=True, defs=('VS_N=25',), id='order%d_cls%d_all' % (n, c)))
    for c in range(21, 31):
        out.append(dict(fn='cookbook', params=dict(cls=c)))
    return out

ASSUMPTIONS = ['doubles are treated as exact reals', 'b0 is not zero (no zeros at infinity)']
BOUNDS = dict(quick='section with all six coefficients symbolic and all 16 shapes with vanishing a1, a2, b1, b2; all 21 designed classes numeric for orders 1-6 and '
              'with symbolic cutoff (classes without band width, orders 1-6), order 20 numeric; 10 RBJ classes; custom one- and two-pole sections with symbolic parameters')


def cases(tier):
    q = tier == 'quick'
    out = [dict(fn='general', limit=100, cost=20), dict(fn='one_pole')]
    for pt, zt in ((0.75, 2.5), (0, 0), (0, 1.25), (1.5, 0)):
        out.append(dict(fn='two_pole', params=dict(pt=pt, zt=zt)))
    for m in range(16):
        out.append(dict(fn='shapes', params=dict(m=m), cost=10))
    for c in range(21):
        for n in (20, 13):
            out.append(dict(fn='ordered', params=dict(cls=c, n=n, v=0), defs=('VS_N=20',), id='wide_cls%d_n%d' % (c, n), cost=5))
        for v in (2, 3) if c != 5 else (2,):
            out.append(dict(fn='ordered', params=dict(cls=c, n=4, v=v)))
        for n in range(1, 7):
            for v in ((0,) if q else (0, 1)):
                out.append(dict(fn='ordered', params=dict(cls=c, n=n, v=v)))
                if c % 7 not in (2, 3, 6):
                    out.append(dict(fn='ordered_fc', params=dict(cls=c, n=n, v=v), cost=n))
    for c in range(21, 31):
        for v in (0, 1):
            out.append(dict(fn='cookbook', params=dict(cls=c, v=v)))
    return out

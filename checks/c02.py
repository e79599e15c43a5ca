ASSUMPTIONS = ['doubles are treated as exact reals (the property is up to rounding)']
BOUNDS = dict(quick='one section: 12 samples, all coefficients and samples symbolic; SOS cascades of 2/3 sections symbolic, 6/4 samples; all 21 '
              'families with a structure parameter, template order 5, requested orders 5, 3 and 2, 10 symbolic samples each; template orders 1 and 12, 4 samples')


def cases(tier):
    q = tier == 'quick'
    out = [dict(fn='section', params=dict(K=12 if q else 20), cost=10), dict(fn='sos2', params=dict(K=6 if q else 8), cost=10, limit=200),
           dict(fn='sos3', params=dict(K=4 if q else 5), cost=10, limit=200)]
    for c in range(21):
        for n in ((0, 3) if q else (0, 1, 2, 3, 4)):
            for v in ((0,) if q else (0, 1)):
                out.append(dict(fn='des', params=dict(cls=c, n=n, v=v, K=10 if q else 24)))
        for N in (1, 12) if q else (1, 8, 12, 25):
            for n in ((0,) if N == 1 else (0, 7)):
                out.append(dict(fn='des', params=dict(cls=c, n=n, v=1, K=4), defs=('VS_N=%d' % N,), id='t%d_cls%d_n%d' % (N, c, n)))
    return out

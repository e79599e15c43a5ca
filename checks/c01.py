S = ('df1', 'df2', 'tdf2')
ASSUMPTIONS = ['doubles are treated as exact reals (rounding is outside the claim)']
BOUNDS = dict(quick='single section: 12 samples from rest, all coefficients and samples symbolic, and 4 samples from arbitrary delay lines; '
              'chains of 2 and 3 symbolic sections for 6 and 4 samples; 2-section chain after 50000 concrete samples followed by 16 symbolic; all 31 '
              'designed classes, order 5 and 2, numeric design, 12 symbolic samples; all 21 ordered classes at template order 20')


def cases(tier):
    q = tier == 'quick'
    out = []
    for s in S:
        out.append(dict(fn='section_' + s, params=dict(K=12 if q else 20), cost=20, limit=100))
        out.append(dict(fn='section_' + s, params=dict(K=3), cost=5))
        out.append(dict(fn='step_' + s, params={}, cost=5))
        out.append(dict(fn='long_' + s, params=dict(pre=50000 if q else 400000, K=16), cost=30, limit=200, steps=200000000))
        out.append(dict(fn='chain2_' + s, params=dict(K=6 if q else 8), cost=30, limit=200))
        out.append(dict(fn='chain3_' + s, params=dict(K=4 if q else 5), cost=30, limit=200))
        out.append(dict(fn='custom_' + s, params=dict(K=8), cost=3))
    for c in range(21):
        for st in range(3):
            out.append(dict(fn='designed', params=dict(cls=c, state=st, n=1, v=0, K=3), cost=3))
            for v in (2, 3):
                out.append(dict(fn='designed', params=dict(cls=c, state=st, n=4, v=v, K=6), cost=3))
            if not q or st == c % 3:
                for n in (20, 17):
                    out.append(dict(fn='designed', params=dict(cls=c, state=st, n=n, v=n % 2, K=4), defs=('VS_N=20',), id='wide_cls%d_state%d_n%d' % (c, st, n), cost=10))
            for n in ((5, 2) if q else (1, 2, 3, 4, 5)):
                for v in ((0,) if q else (0, 1)):
                    out.append(dict(fn='designed', params=dict(cls=c, state=st, n=n, v=v, K=12 if q else 20), cost=10 if n == 5 else 2))
    for c in range(21, 31):
        for v in (0, 1):
            out.append(dict(fn='rbj', params=dict(cls=c, v=v, K=12 if q else 20)))
    return out

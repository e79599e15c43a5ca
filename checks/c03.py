ASSUMPTIONS = ['double operations are uninterpreted IEEE terms (NaN, infinities and signed zeros included): equal results are required bit by bit']
BOUNDS = dict(quick='history of 3 or 4 (single structure: 1 to 4) arbitrary samples (any double, NaN and infinities included), then 5 arbitrary samples after reset; all 31 classes x their '
              'structures, template order 6, requested orders 6 and 3, histories with order changes; template order 20 for the ordered classes; SOS cascade of 3 sections with symbolic rows; '
              'the three structures with symbolic section')


def cases(tier):
    q = tier == 'quick'
    out = []
    base = dict(domain='F', nan_free=False)
    kl = dict(K=4, L=5) if q else dict(K=12, L=10)
    for c in range(21):
        for st in range(3):
            if not q or st == c % 3:
                for n, v in ((20, 2), (13, 3)):
                    out.append(dict(fn='designed', params=dict(cls=c, state=st, n=n, v=v, K=2, L=3), defs=('VS_N=20',), id='wide_cls%d_state%d_n%d' % (c, st, n), **base))
            for n in ((6, 3) if q else (1, 2, 3, 4, 5, 6)):
                out.append(dict(fn='designed', params=dict(cls=c, state=st, n=n, v=0, **dict(kl, K=kl['K'] - (n != 6)) if q else kl), **base))
    for c in range(21, 31):
        for v in (0, 1):
            out.append(dict(fn='cookbook', params=dict(cls=c, v=v, K=kl['K'] - v, L=kl['L']), **base))
    for s in ('df1', 'df2', 'tdf2'):
        out.append(dict(fn='sos_' + s, params=kl, domain='F', nan_free=True, cost=40))
        for k in (1, 2, 3, kl['K']):
            out.append(dict(fn='state_' + s, params=dict(K=k, L=kl['L']), cost=50, **base))
    return out

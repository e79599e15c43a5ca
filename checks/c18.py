BUDGET = dict(quick=500, thorough=800)
ASSUMPTIONS = ['symbolic frequencies: doubles treated as exact reals; all other cases: uninterpreted IEEE terms, equal results required bit by bit',
               'an argument of an earlier setup either equals that of the final setup or is a different value (both explored)',
               'sym=2: no intermediate result is NaN (C20 covers NaN)']
BOUNDS = dict(quick='histories of up to 3 setups with up to one rejected setup in between (5 kinds of rejection, with the final or the earlier arguments, every order), every subset of '
              'changed arguments; orders up to 4 (concrete arguments: also template orders 1 and 10); every cutoff and width (all classes), every argument of both setups (low and high pass, Butterworth low and high shelves, order 1; RBJ; SOS rows; raw '
              'section setters); running filters: 5 setups and 5 rejected setups of different orders interleaved with 30 arbitrary samples, three structures',
              thorough='as quick, band classes with every argument of both setups for order 1, more histories and orders')


def cases(tier):
    q = tier == 'quick'
    out = []
    f = dict(domain='F', nan_free=True, nsamples=100, model_ms=0)
    for c in range(21):
        band = c % 7 in (2, 3, 6)
        for h, n1, n2, rn in ((0, 4, 2, 2), (1, 3, 3, 3), (2, 2, 2, 2), (2, 3, 3, 2), (3, 4, 3, 4)) + (() if q else ((0, 1, 4, 1), (2, 1, 1, 1), (2, 4, 4, 1), (3, 2, 4, 4), (3, 1, 2, 2))):
            for v in (0,) if q else (0, 1):
                out.append(dict(fn='ordered', params=dict(cls=c, h=h, n1=n1, n2=n2, rn=rn, v=v, sym=0), max_paths=2000))
            if h == 0 or h == 2 and n1 == 2 or not q:
                out.append(dict(fn='ordered', params=dict(cls=c, h=h, n1=n1, n2=n2, rn=rn, v=0, sym=1), generic=True, z3_ms=1000, cost=20 if band else 2, limit=60 if q else 200))
        if not band or not q:
            for n1, n2 in ((1, 1), (2, 1), (1, 2)) if not q or c < 2 else ((1, 1),) if c not in (11, 12, 18, 19) else ():
                out.append(dict(fn='ordered', params=dict(cls=c, h=0, n1=n1, n2=n2, rn=1, v=0, sym=2), cost=30, limit=60 if q else 200, max_paths=400 if q else 5000, **f))
        for N in (1, 10) if q else (1, 2, 10, 25):
            for h, n1, n2, rn in (((2, 1, 1, 1), (3, 1, 1, 1)) if N == 1 else ((2, N, N - 1, N), (1, N - 2, N, 1), (0, N, N // 2, 1), (2, N, N, 1))):
                out.append(dict(fn='ordered', params=dict(cls=c, h=h, n1=n1, n2=n2, rn=rn, v=1, sym=0), max_paths=2000, defs=('VS_N=%d' % N,), id='t%d_cls%d_h%d_%d_%d' % (N, c, h, n1, n2)))
        for st in range(3):
            out.append(dict(fn='run', params=dict(cls=c, state=st, K=4 if q else 8), domain='F', nan_free=False))
    for c in range(21, 31):
        out.append(dict(fn='cookbook', params=dict(cls=c, K=4 if q else 10), domain='F'))
    for s in ('df1', 'df2', 'tdf2'):
        out.append(dict(fn='sos_' + s, params=dict(K=4 if q else 8), domain='F'))
    out.append(dict(fn='section', domain='F'))
    return out

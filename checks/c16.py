BUDGET = dict(quick=500, thorough=800)
ASSUMPTIONS = ['doubles are treated as exact reals (cases real=0: as uninterpreted IEEE terms)', 'band designs: band inside (0, 0.5), width below 0.245']
BOUNDS = dict(quick='every sampling rate in [0.001, 1e6], every frequency (and width): all 21 ordered classes with template orders 1-4 (band shelves and Chebyshev II band stop 1-3), two numeric '
              'ripple/gain values, order 1 with every ripple/gain; 10 RBJ classes with every Q, gain, slope; defaults with every frequency and gain; template orders 6, 8 and 20 with every explicit order class (1, 2, 3, N/2, N-1, N), given arguments and every sampling rate; all combinations of 5 to 8 values of every argument, invalid ones and NaN included, at 3 sampling rates',
              thorough='as quick with orders up to 6 and, for RBJ, defaults and order 1, every IEEE double as argument')


def cases(tier):
    q = tier == 'quick'
    out = []
    for c in range(21):
        sh = c % 7 == 6
        for n in ((1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 6)):
            for v in (0, 1):
                if (sh or c == 17) and n == 4 and q or q and v == 1 and n > 2:
                    continue
                out.append(dict(fn='designed', params=dict(cls=c, n=n, real=1, v=v), generic=True, z3_ms=1000, cost=n * n * (5 if c % 7 in (2, 3, 6) else 1),
                                limit=60 if q else 200))
        if c % 7 not in (5, 6) or not q:
            out.append(dict(fn='designed', params=dict(cls=c, n=1, real=1, v=2), generic=True, z3_ms=1000, cost=40, limit=60 if q else 200))
        if not q:
            out.append(dict(fn='designed', params=dict(cls=c, n=1, real=0), domain='F', nan_free=False, cost=40, limit=200))
        for N in (6, 8, 20) if q else (5, 6, 7, 8, 12, 20, 32):
            for v in (0, 1, 2, 3):
                if not q or v == (N // 2 + c) % 4:
                    out.append(dict(fn='large', params=dict(cls=c, v=v), defs=('VS_N=%d' % N,), id='large_cls%d_N%d_v%d' % (c, N, v), cost=30, limit=100))
    for c in range(21, 31):
        out.append(dict(fn='cookbook', params=dict(cls=c, real=1, v=2)))
        if not q:
            out.append(dict(fn='cookbook', params=dict(cls=c, real=0), domain='F', nan_free=False, cost=30, limit=200))
    for d in ('lp', 'hp', 'ap', 'notch', 'ls', 'hs'):
        out.append(dict(fn='default_' + d, params=dict(real=1)))
        if not q:
            out.append(dict(fn='default_' + d, params=dict(real=0), domain='F', nan_free=False, cost=30, limit=200))
    for c in range(31):
        for n in ((1 + c % 4,) if q else (1, 2, 3, 4)) if c < 21 else (1,):
            for r in (0, 1, 2):
                out.append(dict(fn='given', params=dict(cls=c, n=n, fs=r), domain='F', nan_free=False, max_paths=4000, reach=(), cost=9))
    return out

from checks.c19 import KINDS
BUDGET = dict(quick=500, thorough=850)
ASSUMPTIONS = ['IEEE comparisons, NaN and infinity facts for every double; arithmetic and libm results opaque otherwise (a path that the facts cannot refute counts as possible and is replayed)']
BOUNDS = dict(quick='every setter of Biquad, Custom and RBJ with arbitrary doubles (NaN, infinities, denormals included), sections imported by SOSCascade<2>, Cascade::setLayout with arbitrary layouts '
              'of order 1 and 2; all low/high pass classes, order 1 and 2, one or all arguments arbitrary; shelves order 1; band classes: every argument one of 13 extreme values combined with extreme others, orders 1 to 3, 6 and 9',
              thorough='orders up to 3 for every class, layouts up to order 4, as far as 60 s per case reach')


def cases(tier):
    q = tier == 'quick'
    out = []
    f = dict(domain='F', nan_free=False, model_ms=0, nsamples=60)
    for n in ('coefficients', 'scale', 'one_pole', 'two_pole', 'custom_one', 'custom_two', 'sos_setup', 'sos_ctor'):
        out.append(dict(fn=n, **f))
    out.append(dict(fn='pole_zero_form', cost=100, limit=110 if q else 600, max_paths=4000, **f))
    for n in (1, 2) if q else (1, 2, 3, 4):
        out.append(dict(fn='layout', params=dict(n=n), cost=90, limit=110 if q else 300, max_paths=4000, **f))
    for c in range(21, 31):
        for w in (0, 1):
            out.append(dict(fn='cookbook', params=dict(cls=c, wild=w, rate=w), **f))
    for c in range(21):
        ks = KINDS[c]
        if q:
            sym = () if 'w' in ks else (1,) if 'g' in ks or c > 13 else (1, 2)
        else:
            sym = (1, 2, 3)
        for n in sym:
            for i in [-1] + list(range(len(ks))):
                if not q or not (len(ks) > 2 and i != 0):
                    out.append(dict(fn='designed', params=dict(cls=c, n=n, i=i, v=0), cost=10, **f))
        for n in (1, 2, 3):
            for i in range(len(ks)):
                out.append(dict(fn='designed', params=dict(cls=c, n=n, i=-2 - i, v=i % 2), domain='F', nan_free=False, max_paths=4000, reach=(), cost=3))
        for N, n in ((9, 9), (9, 6)) if q else ((9, 9), (9, 8), (9, 6), (25, 25)):
            for i in range(len(ks)):
                out.append(dict(fn='designed', params=dict(cls=c, n=n, i=-2 - i, v=i % 2), domain='F', nan_free=False, max_paths=4000, reach=(), cost=3, defs=('VS_N=%d' % N,), id='t%d_cls%d_n%d_%d' % (N, c, n, i)))
    return out

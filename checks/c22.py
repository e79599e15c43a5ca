BUDGET = dict(quick=500, thorough=850)
ASSUMPTIONS = ['memory model: one object per variable or allocation (bounds and lifetime of whole objects; an access within the same filter object is inside)',
               'allocations: calls of operator new and malloc outside throwing paths']
BOUNDS = dict(quick='unoptimised (-O0, libstdc++ assertions on) and optimised (-O1) IR; every class, template orders 1, 2, 3, 5 and 8, every requested order (symbolic, in and out of range), three structures, '
              'every section index (symbolic); repeated setups with falling and rising orders, copies, never set up; no write to a static variable once everything has been used once; arbitrary samples of double, float and int',
              thorough='template orders 1 to 10, both optimisation levels for everything')


def cases(tier):
    q = tier == 'quick'
    out = []
    f = dict(domain='F', nan_free=False)
    k = 0
    for N in ((1, 2, 3, 5, 8) if q else range(1, 11)):
        for o in ('-O0', '-O1'):
            if o == '-O1' and q and N not in (3,):
                continue
            d = ('VS_N=%d' % N,) + (('_GLIBCXX_ASSERTIONS',) if o == '-O0' else ())
            for c in range(21):
                for what in range(6):
                    for st in (0, 1, 2):
                        k += 1
                        if q and (k + N + c) % (3 if N != 8 else 6) and (N != 3 or o == '-O1'):
                            continue
                        if q and N != 3 and what == 4:
                            continue
                        out.append(dict(fn='ordered', params=dict(cls=c, what=what, state=st), id='ordered%s_N%d_cls%d_what%d_state%d' % (o, N, c, what, st), opt=o, defs=d, cost=N * (3 if what < 2 else 1), **f))
            if N == 3:
                for c in range(21, 31):
                    for a in (0, 1):
                        out.append(dict(fn='cookbook', params=dict(cls=c, any=a), id='cookbook%s_cls%d_any%d' % (o, c, a), opt=o, defs=d, model_ms=0, nsamples=60, **f))
                for n in ('sos_1', 'sos_4', 'raw'):
                    out.append(dict(fn=n, id=n + o, opt=o, defs=d, **f))
                for n in range(6):
                    out.append(dict(fn='layout', params=dict(n=n), id='layout%s_n%d' % (o, n), opt=o, defs=d, **f))
    return out

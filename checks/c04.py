ASSUMPTIONS = ['double operations are uninterpreted IEEE terms; conversions double->float and double->integer are kept as operations, so equal results mean the '
               'same conversion of the same double', 'specification: the sections of the filter applied one after the other to double samples (C01 decides that these obey the difference equation)']
BOUNDS = dict(quick='4 arbitrary samples of the type (double and float: any; int, short, signed char and their unsigned variants: the full range; long long: the int range, and four fixed values that need 54-57 bits) followed by 3 double samples; types alternating on one object; '
              'all 31 classes (template orders 4 and 20), a symbolic 3-section SOS cascade in three structures',
              thorough='10 samples, every class in every structure')


def cases(tier):
    q = tier == 'quick'
    out = []
    for t in range(10):
        for v in (0, 2):
            p = dict(type=t, K=(4 if q else 10) if t != 6 else 2, wide=int(t == 3 and not v), v=v)
            for c in range(21):
                for st in (((c + t) % 3,) if q else (0, 1, 2)):
                    out.append(dict(fn='designed', params=dict(cls=c, state=st, **p), domain='F', nan_free=t != 5))
                    if t in (0, 5) and not v:
                        out.append(dict(fn='designed', params=dict(cls=c, state=st, **p), domain='F', nan_free=t != 5, defs=('VS_N=20',), id='wide_cls%d_state%d_type%d' % (c, st, t)))
            for c in range(21, 31):
                out.append(dict(fn='cookbook', params=dict(cls=c, **p), domain='F', nan_free=t != 5))
            if not v:
                for s in ('df1', 'df2', 'tdf2'):
                    out.append(dict(fn='sos_' + s, params=p, domain='F'))
    for o in out:
        o['loose'] = True
    return out

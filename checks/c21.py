from checks.c19 import KINDS
BUDGET = dict(quick=500, thorough=850)
ASSUMPTIONS = ['double operations are uninterpreted IEEE terms with NaN and infinity facts: equal results are required bit by bit']
BOUNDS = dict(quick='every ordered class (template order 4, a part for 1 and 11, three structures), previously set up with order 1 to 4 or never; every order below 1 or above 4, every invalid frequency and width including NaN, '
              'the other arguments those in use, different ones or (low and high pass; shelves for order 0/5) arbitrary; rejected twice, 3 arbitrary samples before and 8 after; RBJ, Custom, SOSCascade<3> and '
              'every raw setter: all arguments arbitrary doubles',
              thorough='as quick with all combinations of previous order, requested order, structure and overload')


def cases(tier):
    q = tier == 'quick'
    out = []
    f = dict(domain='F', nan_free=False)
    w = dict(f, model_ms=0, nsamples=60)
    for c in range(21):
        ks = KINDS[c]
        band = 'w' in ks
        k = c
        for why in range(3 if band else 2):
            for other in (0, 1, 2):
                if other == 2 and 'g' in ks + 'r' and why and not (c < 2 or 'g' not in ks and 'r' not in ks):
                    continue
                for n in (0, 1, 2, 3, 4):
                    for rate in (0, 1):
                        for state in (0, 1, 2):
                            for rn in (1, 2, 3, 4):
                                k += 1
                                if q and not (other == 2 and why and c > 3) and (rn != 1 + (n + 1 + other) % 4 or state != (n + rate + c) % 3 or n % 2 != (rate + other + c) % 2):
                                    continue
                                if other == 2 and why and c > 3 and (n != 2 or state or rate or rn != (1 if q else 2)):
                                    continue
                                if why == 0 and rn > 1 and not q:
                                    continue
                                out.append(dict(fn='ordered', params=dict(cls=c, why=why, other=other, n=n, rate=rate, state=state, rn=rn), **(w if other == 2 else f)))
        for N in (1, 11) if q else (1, 2, 11, 25):
            for n in (0, N):
                for why in (0, 1, 2) if band else (0, 1):
                    out.append(dict(fn='ordered', params=dict(cls=c, why=why, other=(c + why) % 2, n=n, rate=(n + why) % 2, state=(n + c) % 3, rn=1 if N == 1 else N - 1 - why), defs=('VS_N=%d' % N,), id='t%d_cls%d_n%d_why%d' % (N, c, n, why), **f))
    for c in range(21, 31):
        for rate in (0, 1):
            out.append(dict(fn='cookbook', params=dict(cls=c, rate=rate), **w))
    for n in ('coefficients', 'one_pole', 'two_pole', 'pair', 'scale', 'pole_zero_form', 'custom_one', 'custom_two', 'sos_df1', 'sos_df2', 'sos_tdf2'):
        out.append(dict(fn=n, cost=20, limit=60 if q else 300, **dict(w, max_paths=4000)))
    return out

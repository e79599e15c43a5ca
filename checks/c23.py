BUDGET = dict(quick=500, thorough=850)
ASSUMPTIONS = ['double operations are uninterpreted IEEE terms: equal results are required bit by bit']
BOUNDS = dict(quick='every class (template order 3; a part for 1 and 8), every copy or assignment after 3 arbitrary samples or before any setup; 7 kinds of later actions on either object (setup, samples, reset, rejected setups, '
              'assignment, destruction with overwritten memory, all together); the other object compared for 9 arbitrary samples, its coefficients, response and poles, and after further setups; '
              'separate objects: 6 setups with other filters of every family active in between; no write to any static variable during a second round of setups, samples, copies, assignments and resets',
              thorough='the same for every structure and previous order 1 to 3')


def cases(tier):
    q = tier == 'quick'
    out = []
    f = dict(domain='F', nan_free=False)
    for c in list(range(31)) + [-1]:
        fn = 'sos' if c < 0 else 'ordered' if c < 21 else 'cookbook'
        for mode in (0, 1, 2, 3):
            for what in range(7 if mode < 2 else 1):
                for which in (0, 1) if mode < 2 else (0,):
                    for before in ((0, 1), (0, 1, 2, 3), (0,), (0,))[mode]:
                        for state in (0, 1, 2) if c < 21 else (0,):
                            for n in (1, 2, 3) if c < 21 and c >= 0 else (0,):
                                k = c + what + which + before
                                if q and c >= 0 and (state != k % 3 or n != 1 + (k + which) % 3 and c < 21):
                                    if mode < 2 or n != 2:
                                        continue
                                p = dict(mode=mode, what=what, which=which, before=before, state=state, n=n)
                                if c >= 0:
                                    p['cls'] = c
                                out.append(dict(fn=fn, params=p, **f))
    for c in range(21):
        for N in (1, 8) if q else (1, 2, 8, 20):
            for mode, what, which, before in ((0, 6, 0, 1), (0, 4, 0, 1), (0, 0, 1, 1), (1, 6, 1, 3), (1, 0, 0, 1), (2, 0, 0, 0), (3, 0, 0, 0)):
                out.append(dict(fn='ordered', params=dict(cls=c, mode=mode, what=what, which=which, before=before, state=(c + what) % 3, n=max(1, N - 1 - which)), defs=('VS_N=%d' % N,), id='t%d_cls%d_m%d_%d_%d' % (N, c, mode, what, which), **f))
    return out

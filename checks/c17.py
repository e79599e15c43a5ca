BUDGET = dict(quick=500, thorough=800)
ASSUMPTIONS = ['doubles are treated as exact reals', 'band designs: band inside (0, 0.5), width below 0.245',
               'surplus sections are judged in isolation (any history of samples) and, with filled delay lines, through the recurrence of the single remaining section']
BOUNDS = dict(quick='template/requested orders 2/1 3/2 4/1 5/2 5/3 6/4 7/2 8/5 with numeric designs, 8 symbolic samples, symbolic response frequency, also with template order 20; every cutoff (and width) for '
              'requested orders 1 and 2 (all classes) and up to 4 (low, high pass and shelves); all combinations of 2 to 7 values of every argument for 4/1 3/2 5/3 6/4 8/5',
              thorough='as quick with all structures and histories; every cutoff and width for requested orders up to 4')


def cases(tier):
    q = tier == 'quick'
    out = []
    for c in range(21):
        band = c % 7 in (2, 3, 6)
        for N, M in ((20, 19), (20, 12), (19, 1)):
            if M == 19 and c in (3, 10, 17, 9, 16, 6):
                continue
            out.append(dict(fn='designed', params=dict(cls=c, N=N, M=M, state=(c + N) % 3, v=M % 2, sym=0, before=M % 3, K=3, given=0), defs=('VS_WIDE',), id='wide_cls%d_N%d_M%d' % (c, N, M), cost=20))
        for N, M in ((4, 1), (3, 2), (5, 3), (6, 4), (8, 5)):
            out.append(dict(fn='designed', params=dict(cls=c, N=N, M=M, state=0, given=1), domain='F', nan_free=False, max_paths=4000, cost=9, id='given_cls%d_N%d_M%d' % (c, N, M)))
        for N, M in ((2, 1), (3, 2), (5, 2), (5, 3), (6, 4), (8, 5), (7, 2), (4, 1)):
            for st in ((c + N) % 3,) if q else (0, 1, 2):
                for before in ((N + M) % 3,) if q else (0, 1, 2):
                    out.append(dict(fn='designed', params=dict(cls=c, N=N, M=M, state=st, v=M % 2, sym=0, before=before, K=8, given=0)))
            if M < 5 and (not q or not band or N < 4 and not (c == 17 and M > 1)):
                out.append(dict(fn='designed', params=dict(cls=c, N=N, M=M, state=(c + N) % 3, v=M % 2, sym=1, before=(N + M) % 3, K=8, given=0),
                                generic=True, z3_ms=1000, cost=20 * M if band else 2, limit=60 if q else 250))
    return out

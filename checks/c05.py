ASSUMPTIONS = ['doubles are treated as exact reals', 'a0 is not zero']
BOUNDS = dict(quick='1, 2, 3, 4 and 6 rows, all entries symbolic (a0 symbolic in 1-3 rows, 1 in the others), 3 structures, constructor / setup / setup of a used object; '
              '8, 5, 4, 3, 2 samples; 12 rows')


def cases(tier):
    q = tier == 'quick'
    out = [dict(fn='unity')]
    for s in ('df1', 'df2', 'tdf2'):
        for how in range(3):
            for ns, k, units in ((1, 8, (0,)), (2, 5, (0,)), (3, 4, (3, 5, 6)), (4, 3, (14, 7)), (6, 2, (62, 31)), (12, 1, (4095,))):
                for u in units:
                    out.append(dict(fn='rows%d_%s' % (ns, s), params=dict(K=k if q or ns > 6 else k + 2, how=how, unit=u), cost=ns, limit=200))
    return out

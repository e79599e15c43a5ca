BUDGET = dict(quick=500, thorough=600)
ASSUMPTIONS = ['realisation: doubles are treated as exact reals; rejection: IEEE comparisons over every double',
               'negative radii are outside the claim (std::polar requires a non-negative magnitude)']
BOUNDS = dict(quick='every scale, real pole and zero in [-10, 10], every radius in [0, 10], every angle in (-pi, pi) and 10 special angles, every conjugate and real pair; '
              'reported poles and zeros for scale != 0; 4 samples through direct form I, every frequency; rejection: all doubles',
              thorough='the same with every combination of angle kinds')


def cases(tier):
    q = tier == 'quick'
    out = []
    for run in (0, 1):
        out.append(dict(fn='one', params=dict(run=run, pz=0)))
    out.append(dict(fn='one', params=dict(run=0, pz=1)))
    for pk in range(12):
        for zk in range(12):
            if q and not (pk < 2 and zk < 2 or zk == (pk * 5 + 3) % 12 or zk == pk):
                continue
            for run, pz in ((0, 0), (1, 0), (0, 1)):
                out.append(dict(fn='two', params=dict(pk=pk, zk=zk, run=run, pz=pz)))
    for pk in (0, 1):
        for zk in (0, 1):
            for fn in ('two_pole', 'pair', 'form'):
                out.append(dict(fn=fn, params=dict(pk=pk, zk=zk, run=1)))
            out.append(dict(fn='accept', params=dict(pk=pk, zk=zk)))
    for how in range(4):
        out.append(dict(fn='one_pole', params=dict(how=how, run=1)))
    for n in ('reject_two', 'reject_pair', 'reject_one'):
        out.append(dict(fn=n, domain='F', nan_free=False, nsamples=60, max_paths=4000))
    return out

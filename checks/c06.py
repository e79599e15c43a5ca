ASSUMPTIONS = ['doubles are treated as exact reals (range test: IEEE comparisons)', 'no pole exactly at the frequency asked for']
BOUNDS = dict(quick='section: all coefficients and the frequency symbolic, plus f = 0, 1/4, 1/2; chains of 1 and 2 symbolic sections and of 3 sections with one of them numeric; all 31 classes with numeric design '
              '(order 5 and 4), symbolic frequency, template order 20 as well; coefficients recovered from the impulse response of a symbolic section; range test for every frequency, all 21 cascades; responses (two arbitrary and eight given frequencies, some nearly equal) after other responses, setups and samples are bit for bit those of a fresh filter')


def cases(tier):
    q = tier == 'quick'
    out = []
    for at in (0, 1, 2, 3):
        out.append(dict(fn='section', params=dict(at=at)))
        out.append(dict(fn='impulse', params=dict(at=at)))
        for n, p in ((1, 9), (2, 9), (2, 0), (3, 0), (3, 1), (3, 2)):
            out.append(dict(fn='chain', params=dict(at=at, n=n, p=p), limit=150))
        for c in range(21):
            for n, v in ((20, 0), (17, 1)):
                if at in (0, 3):
                    out.append(dict(fn='ordered', params=dict(cls=c, n=n, v=v, at=at), defs=('VS_N=20',), id='wide_cls%d_n%d_at%d' % (c, n, at), cost=20))
            for v in (2, 3):
                out.append(dict(fn='ordered', params=dict(cls=c, n=3, v=v, at=at), validate=at != 1))
            for n in ((5, 4) if q else (1, 2, 3, 4, 5)):
                for v in ((0,) if q else (0, 1)):
                    if at == 3 or n == 5:
                        out.append(dict(fn='ordered', params=dict(cls=c, n=n, v=v, at=at)))
        for c in range(21, 31):
            for v in (0, 1):
                out.append(dict(fn='rbj', params=dict(cls=c, v=v, at=at)))
    for c in range(21):
        out.append(dict(fn='ranges', params=dict(cls=c), domain='F'))
        out.append(dict(fn='past', params=dict(cls=c), domain='F', nan_free=True))
    for c in range(21, 31):
        out.append(dict(fn='rbj_noeffect', params=dict(cls=c), domain='F'))
        out.append(dict(fn='rbj_past', params=dict(cls=c), domain='F', nan_free=True))
    return out

ASSUMPTIONS = ['doubles are treated as exact reals; sinh is an uninterpreted function with its sign and range facts']
BOUNDS = dict(quick='every cutoff in (0, 0.5), gain in [-60, 60] dB, slope in [0.05, 1] (band width in [0.05, 8] octaves): no further bound')


def cases(tier):
    return [dict(fn=f, params=dict(den=d)) for f in ('lowshelf', 'highshelf', 'lowshelf_default', 'highshelf_default', 'bandshelf') for d in (40, 80)]

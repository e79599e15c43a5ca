ASSUMPTIONS = ['doubles are treated as exact reals; exp is an uninterpreted function with its sign and range facts']
BOUNDS = dict(quick='every centre frequency in (0, 0.5), every Q in [0.001, 10000], every f: no further bound')


def cases(tier):
    return [dict(fn=f) for f in ('lowpass', 'highpass', 'bandpass1', 'bandpass2', 'bandstop', 'notch', 'notch_default', 'allpass')]

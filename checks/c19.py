BUDGET = dict(quick=500, thorough=800)
ASSUMPTIONS = ['comparisons with IEEE semantics for every double (NaN and infinities included), orders as 32-bit integers',
               'negative ripple of Chebyshev I and of the shelves (rejected only because the design becomes NaN): exact reals, -150 to -1e-6 dB',
               'symbolic sampling rate: exact reals']
BOUNDS = dict(quick='every class and overload, template order 3 (a part for 1 and 9); every order below 1 or above 3 with arbitrary other arguments; every invalid frequency, width, Q, ripple with the other arguments '
              'valid (numeric; for RBJ and Butterworth low/high pass symbolic); the other arguments also over grids of 3 to 7 values each; call repeated 3 times, after 0 to 2 valid setups and again after a valid one; every sampling rate in [0.001, 1e6]; '
              'IIR1_NO_EXCEPTIONS build aborts',
              thorough='as quick with every combination of requested order and previous setup, all other arguments symbolic')
KINDS = (['f', 'f', 'fw', 'fw', 'fg', 'fg', 'fwg'] + ['fr', 'fr', 'fwr', 'fwr', 'fgr', 'fgr', 'fwgr'] * 2 +
         ['fq', 'fq', 'fq', 'fq', 'fq', 'fq', 'fgs', 'fgs', 'fgq', 'fq'])


def cases(tier):
    q = tier == 'quick'
    out = []
    for c in range(31):
        ks = KINDS[c]
        abort = dict(fn='aborts', defs=('IIR1_NO_EXCEPTIONS',), domain='F', nan_free=False, abort_ok=True, reach=('abort',))
        if c < 21:
            for N in (1, 9) if q else (1, 2, 9, 25):
                for ov in (0, 1):
                    out.append(dict(fn='bad_order', params=dict(cls=c, ov=ov, before=ov ^ (c & 1), any=0), domain='F', nan_free=False, model_ms=0, defs=('VS_N=%d' % N,), id='t%d_cls%d_order%d' % (N, c, ov)))
                    for i, k in enumerate(ks):
                        for how in (0, 1, 2):
                            if k in 'fw' and (k == 'f' or how != 1):
                                p = dict(cls=c, ov=ov, i=i, how=how, before=ov, n=1 + (how + c) % N, den=0, any=0, fs=0)
                                out.append(dict(fn='bad_arg', params=p, domain='F', nan_free=False, defs=('VS_N=%d' % N,), id='t%d_cls%d_ov%d_arg%d_%d' % (N, c, ov, i, how)))
            for ov in (0, 1):
                for before in (0, 1):
                    for any in (0, 1):
                        out.append(dict(fn='bad_order', params=dict(cls=c, ov=ov, before=before, any=any), domain='F', nan_free=False, model_ms=0))
                for i in (-1, -2):
                    out.append(dict(params=dict(cls=c, ov=ov, before=ov, i=i, how=0, den=0), **abort))
        for i, k in enumerate(ks):
            if k in 'gs':
                continue
            for how in range(3):
                if how == 1 and k != 'f':
                    continue
                for ov in ((0, 1, 2, 3) if c < 21 else (2, 3)):
                    tiny = k == 'r' and how == 0 and not 14 <= c < 18
                    if not tiny:
                        out.append(dict(params=dict(cls=c, ov=ov, before=ov % 2, i=i, how=how, den=0), **abort))
                    if not tiny and len(ks) > 1:
                        out.append(dict(fn='bad_arg', params=dict(cls=c, ov=ov, i=i, how=how, before=0, n=1 + (c + ov) % 3, den=0, any=2, fs=0), domain='F', nan_free=False, max_paths=4000, cost=3))
                    for before in (0, 1, 2):
                        for n in (1 + (c + ov + before + how) % 3,) if q else (1, 2, 3):
                            p = dict(cls=c, ov=ov, i=i, how=how, before=before, n=n, den=0, any=0, fs=0)
                            if tiny:
                                if before == 0 or not q:
                                    out.append(dict(fn='bad_arg', params=dict(p, den=40 if c % 7 > 3 else 10)))
                                continue
                            out.append(dict(fn='bad_arg', params=p, domain='F', nan_free=False))
                            if ov & 1 and how < 2 and k in 'fw' and (before == 0 or not q):
                                out.append(dict(fn='bad_arg', params=dict(p, fs=1), generic=True))
                            if before == 0 and n == 1 and (c > 20 or not q or c < 2):
                                out.append(dict(fn='bad_arg', params=dict(p, any=1), domain='F', nan_free=False, model_ms=0))
    return out

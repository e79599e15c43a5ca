#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the checks present"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = ('Symbolic execution of the LLVM IR of the real code, regenerated on every run; every path is explored and every obligation decided by exact algebra or z3 for all values within the bounds; '
       'violations are replayed natively before they are reported. ')
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    f = V + '/checks/%s.py' % i.lower()
    if not os.path.exists(f):
        na.append(dict(property=i, reason='check not built yet'))
        continue
    ns = {}
    import sys, importlib
    sys.path.insert(0, V)
    m = importlib.import_module('checks.' + i.lower())
    b = getattr(m, 'BOUNDS', {})
    note = GEN + 'Bounds (quick): ' + (b if isinstance(b, str) else b['quick']) + '. Assumptions: ' + '; '.join(getattr(m, 'ASSUMPTIONS', [])) + '.'
    checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i, evidence_file='evidence/%s.json' % i,
                       technique=getattr(m, 'TECHNIQUE', 'symbolic execution of the LLVM IR with exact algebra and z3'),
                       level=getattr(m, 'LEVEL', 'model_checking'), level_note=note))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='See DESIGN.md. Known findings and repairs: known-findings.txt. Replay a counterexample: ./replay Cxx evidence/replay/FILE'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')

METHOD = dict(
    C01=('R', 'identity: outputs of the code = difference equation written in the harness, polynomials in all coefficients, samples and delay lines'),
    C02=('R', 'identity: the three structures give the same rational functions of coefficients and samples'),
    C03=('F', 'bitwise equality of the filter after history+reset with a freshly set-up twin, for every history'),
    C04=('F', 'bitwise equality with the chain of sections run on the samples converted to double; conversions are operations'),
    C05=('R', 'identity with the SOS difference equations row by row; read-back of all coefficients'),
    C06=('R', 'identity: response(f) = H(exp(i w)) of the coefficients; range test of f; impulse response determines the same coefficients'),
    C07=('R', 'identity: (z-p)(z-p*) and zeros against the coefficients, gain rebuilt, every shape of degenerate sections'),
    C08=('R', 'Schur-Cohn/Hurwitz inequalities of every section for all parameters (sign analysis, z3 NRA)'),
    C09=('R', 'identity |H|^2 = 1/(1+(t/tc)^2n) as rational functions of both frequencies'),
    C10=('R', 'identity with the band-transformed magnitude law, edges and centre'),
    C11=('R', 'identity |H|^2 = 1/(1+eps^2 T_n^2) (checks/chebcases.py), bounds follow'),
    C12=('R', 'identity with the inverse Chebyshev law, edge at the requested rejection'),
    C13=('R', 'identities at the reference ends, boosted ends, edges; inequalities for the whole range'),
    C14=('R', 'identity with the analogue prototype under the bilinear transform for every frequency, Q'),
    C15=('R', 'identity with the analogue shelf for every frequency, gain, slope'),
    C16=('R, F', 'equality of all coefficients of two setups through different overloads'),
    C17=('R', 'identity of outputs, response and coefficients with the filter of the lower template order; surplus sections are exact identities'),
    C18=('F, R', 'equality with a fresh filter after every history of setups; delay lines continue'),
    C19=('F, R', 'all paths over all invalid arguments end in the exception (abort without exceptions)'),
    C20=('F', 'every non-throwing path leaves six coefficients that are not NaN'),
    C21=('F', 'bitwise equality of a twin that never saw the rejected call: outputs, coefficients, poles, response'),
    C22=('F', 'every load, store, free and call checked by the executor (bounds, lifetime, initialisation), no allocation, no write to static data; symbolic orders and indices'),
    C23=('F', 'bitwise equality with an undisturbed twin under all later actions on the copy/source; no write to static data'),
    C24=('R, F', 'identity of realised transfer function with the given poles/zeros; every non-conjugate pair rejected'))
rows = []
qt = json.load(open(V + '/tools/times.json')) if os.path.exists(V + '/tools/times.json') else {}
for p in props:
    i = p['id']
    m = importlib.import_module('checks.' + i.lower())
    b = getattr(m, 'BOUNDS', {})
    b = dict(quick=b) if isinstance(b, str) else b
    rows.append('**%s %s** (domain %s%s).  %s.  Quick: %s.%s%s' % (
        i, p['title'], METHOD[i][0], '; quick run about %s s' % qt[i] if i in qt else '', METHOD[i][1][0].upper() + METHOD[i][1][1:], b['quick'],
        '  Thorough: %s.' % b['thorough'] if b.get('thorough') else '', '  Assumes: %s.' % '; '.join(m.ASSUMPTIONS) if getattr(m, 'ASSUMPTIONS', None) else ''))
seeds = []
for d in sorted(os.listdir(V + '/seeded')):
    f = V + '/seeded/%s/meta.json' % d
    if os.path.exists(f):
        m = json.load(open(f))
        seeds.append('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], m['needs']))
missed = open(V + '/tools/missed.txt').read() if os.path.exists(V + '/tools/missed.txt') else ''
t = open(V + '/tools/design.md.in').read()
t = t.replace('@TABLE@', '\n\n'.join(rows)).replace('@SEEDS@', '| bug | caught by | what it breaks | needs |\n|---|---|---|---|\n' + '\n'.join(seeds)).replace('@MISSED@', missed)
open(V + '/DESIGN.md', 'w').write(t)

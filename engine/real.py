"""Real-number value domain: symbolic doubles are exact real functions (RF) of the
harness inputs; concrete doubles stay IEEE doubles.  Path conditions are polynomial
sign conditions, decided by normal form, coefficient signs, samples (only to find
feasible sides) and z3."""
import math
import random
import time
from fractions import Fraction
from math import gcd, isqrt
from decimal import Decimal
import mpmath
import z3

from .poly import (B, MASK, mono, mexp, mvars, mdivides, padd, pscale, pmul, pcontent,
                   pvars, pdegs, pmonocontent, pdiv_exact, psqrt)
from .rf import Ctx, RF, Budget, ONE, Gen

mpmath.mp.dps = 70
PI = Fraction(math.pi)
LN10 = Fraction(2.3025850929940456840179914546844)
NAN = float('nan')
INF = float('inf')


def mp2d(x):
    return Decimal(mpmath.nstr(x, 68, strip_zeros=False)) if x else Decimal(0)


def d2mp(d):
    return mpmath.mpf(str(d))


def d2f(d):
    return Fraction(d)


class Infeasible(Exception):
    """current path contradicts an assumption"""


class Undecided(Exception):
    pass


class Stats:
    def __init__(self):
        self.z3_calls = 0
        self.z3_time = 0.0
        self.z3_unknown = 0
        self.coef = 0
        self.zero = 0
        self.generic = 0


def fdiv_ieee(a, b):
    if b == 0.0 or b != b:
        if a != a or b != b:
            return NAN
        if a == 0.0:
            return NAN
        s = math.copysign(1.0, a) * math.copysign(1.0, b)
        return s * INF
    try:
        return a / b
    except OverflowError:
        return math.copysign(INF, a) * math.copysign(1.0, b)


def snap_int(q, tol=Fraction(1, 10 ** 11)):
    """Fraction close to an integer -> int, else None"""
    r = round(q)
    return r if abs(q - r) <= tol * max(1, abs(r)) else None


def snap_rat(q, maxden=64, tol=Fraction(1, 10 ** 11)):
    r = Fraction(q).limit_denominator(maxden)
    return r if abs(q - r) <= tol * max(1, abs(r)) else None


class RealDomain:
    """one instance per explored path"""
    name = 'R'

    def __init__(self, path, seed=1, nsamples=32, z3_ms=1500, stats=None):
        self.cx = Ctx()
        self.generic = False
        self.path = path           # decision oracle: path.choose(n, label)
        self.stats = stats or Stats()
        self.nz = set()          # generators known to be non-zero
        self.rng = random.Random(seed)
        self.nsamples = nsamples
        self.samples = [dict() for _ in range(nsamples)]
        self.cons = []             # (poly, rel)
        self.cache = {}
        self.sign_cache = {}
        self.z3_ms = z3_ms
        self.params = []           # (name, kind, function env->python value)
        self.z3vars = {}
        self.z3rules = []
        self.deadline = None
        self.uncertain = False     # path feasibility not established
        self.zsolver = None

    # ---------- parameters
    def real(self, name, lo=None, hi=None, slo=False, shi=False):
        lo = None if lo is None or lo == -INF else Fraction(lo)
        hi = None if hi is None or hi == INF else Fraction(hi)
        g = self.cx.new_gen(name, 'param', lo=lo, hi=hi, slo=slo, shi=shi)
        n = len(self.samples)
        for k, e in enumerate(self.samples):
            r = self.rng.random()
            if lo is not None and hi is not None:
                if k % 4 == 0 and lo > 0:
                    v = float(lo) * (float(hi) / float(lo)) ** r
                else:
                    v = float(lo) + float(hi - lo) * r
            elif lo is not None:
                v = float(lo) + 10 ** self.rng.uniform(-2.5, 2.5)
            elif hi is not None:
                v = float(hi) - 10 ** self.rng.uniform(-2.5, 2.5)
            else:
                v = self.rng.choice([-1, 1]) * 10 ** self.rng.uniform(-2, 1.3)
            if k % 8 == 7 and lo is None and hi is None:
                v = float(self.rng.randint(-3, 3))
            fv = Fraction(v)
            if lo is not None and (fv < lo or (slo and fv == lo)):
                fv = lo + Fraction(1, 1 << 20)
            if hi is not None and (fv > hi or (shi and fv == hi)):
                fv = hi - Fraction(1, 1 << 20)
            e[g.idx] = Decimal(fv.numerator) / Decimal(fv.denominator)
        self.params.append((name, 'real', lambda env, i=g.idx: float(env[i])))
        return self.cx.gen_rf(g)

    def freq(self, name, div=1, lo=0, hi=Fraction(1, 2), slo=True, shi=True):
        """normalised frequency f in (lo,hi); companion tau = tan(pi f/div)"""
        lo = Fraction(lo)
        hi = Fraction(hi)
        cx = self.cx

        def tn(q):
            return mp2d(mpmath.tan(mpmath.pi * q.numerator / q.denominator))
        tl = Fraction(0) if lo == 0 else d2f(tn(lo / div))
        th = None if hi / div >= Fraction(1, 2) else d2f(tn(hi / div))
        t = cx.new_gen('tan[%s%s]' % (name, '/%d' % div if div != 1 else ''), 'tau', lo=tl, hi=th, slo=slo, shi=shi)
        g = cx.new_gen(name, 'turn', lo=lo, hi=hi, slo=slo, shi=shi)
        g.info = {'tan': cx.gen_rf(t), 'div': div}
        for k, e in enumerate(self.samples):
            r = self.rng.random()
            if k % 4 == 0:
                a = max(float(lo), 1e-4)
                v = a * (float(hi) / a) ** r
            else:
                v = float(lo) + float(hi - lo) * r
            v = min(max(v, float(lo) + 1e-7), float(hi) - 1e-7)
            q = Fraction(v)
            e[g.idx] = Decimal(q.numerator) / Decimal(q.denominator)
            e[t.idx] = mp2d(mpmath.tan(mpmath.pi * q.numerator / q.denominator / div))
        def get(env, i=g.idx, j=t.idx, lo=float(lo), hi=float(hi)):
            v = float(env[i])
            if not lo <= v <= hi or abs(mpmath.tan(mpmath.pi * v / div) - d2mp(env[j])) > 1e-6 * (1 + abs(d2mp(env[j]))):
                v = float(mpmath.atan(d2mp(env[j])) * div / mpmath.pi)
            return v
        self.params.append((name, 'freq', get))
        return cx.gen_rf(g)

    def logp(self, name, den, lo=None, hi=None, slo=False, shi=False):
        """v = den*log10(E), E>0 a generator; v in [lo,hi]"""
        cx = self.cx

        def ex(v):
            return d2f(mp2d(mpmath.power(10, mpmath.mpf(v.numerator) / v.denominator / den)))
        lo = None if lo is None or lo == -INF else Fraction(lo)
        hi = None if hi is None or hi == INF else Fraction(hi)
        if lo is None:
            el, sl = Fraction(0), True
        else:
            el, sl = (Fraction(1) if lo == 0 else ex(lo)), slo
        eh = None if hi is None else (Fraction(1) if hi == 0 else ex(hi))
        E = cx.new_gen('exp[%s]' % name, 'param', lo=el, hi=eh, slo=sl, shi=shi)
        for e in self.samples:
            a = float(lo) if lo is not None else -30.0
            b = float(hi) if hi is not None else 30.0
            v = a + (b - a) * self.rng.random()
            q = Fraction(v)
            e[E.idx] = mp2d(mpmath.power(10, mpmath.mpf(q.numerator) / q.denominator / den))
        self.params.append((name, 'log', lambda env, i=E.idx: float(d2mp(env[i]).ln() if False else mpmath.log10(d2mp(env[i])) * den)))
        L = self.log_gen(cx.gen_rf(E))
        return cx.mul(cx.const(Fraction(den) / LN10), L)

    # ---------- lifting
    def lift(self, v):
        if isinstance(v, RF):
            return v
        return self.cx.const(Fraction(v))

    def simp(self, r):
        c = r.const()
        if c is not None:
            return self.fl(c)
        return r

    def fl(self, c):
        """Fraction -> float if exactly representable else keep symbolic constant"""
        try:
            f = float(c)
        except OverflowError:
            return self.cx.const(c)
        if f == f and abs(f) != INF and Fraction(f) == c:
            return f
        return self.cx.const(c)

    # ---------- arithmetic
    def fadd(self, a, b):
        ca, cb = type(a) is float, type(b) is float
        if ca and cb:
            return a + b
        if ca:
            if a == 0.0:
                return b
            if a != a or a in (INF, -INF):
                return a
        elif cb:
            if b == 0.0:
                return a
            if b != b or b in (INF, -INF):
                return b
        return self.simp(self.cx.add(self.lift(a), self.lift(b)))

    def fsub(self, a, b):
        return self.fadd(a, self.fneg(b))

    def fneg(self, a):
        if type(a) is float:
            return -a
        return self.cx.neg(a)

    def fmul(self, a, b):
        ca, cb = type(a) is float, type(b) is float
        if ca and cb:
            return a * b
        if cb:
            a, b, ca, cb = b, a, cb, ca
        if ca:
            if a == 1.0:
                return b
            if a == 0.0:
                return 0.0
            if a != a:
                return a
            if a in (INF, -INF):
                s = self.sign3(b)
                return NAN if s == 0 else a * s
        return self.simp(self.cx.mul(self.lift(a), self.lift(b)))

    def fdiv(self, a, b):
        ca, cb = type(a) is float, type(b) is float
        if ca and cb:
            return fdiv_ieee(a, b)
        if cb:
            if b != b:
                return b
            if b in (INF, -INF):
                return 0.0
            if b == 0.0:
                s = self.sign3(a)
                return NAN if s == 0 else math.copysign(INF, b) * s
            return self.simp(self.cx.div(a, self.lift(b)))
        if ca:
            if a != a:
                return a
            if a in (INF, -INF):
                s = self.sign3(b)
                return a if s >= 0 else -a
        if self.truth('==', b):
            # 0 in the denominator (sign of zero taken as +)
            s = self.sign3(a) if not ca else (0 if a == 0 else math.copysign(1, a))
            return NAN if s == 0 else s * INF
        if ca and a == 0.0:
            return 0.0
        return self.simp(self.cx.div(self.lift(a), b))

    def frem(self, a, b):
        if type(a) is float and type(b) is float:
            return math.fmod(a, b)
        raise Undecided('symbolic fmod')

    def sitofp(self, i):
        if isinstance(i, int):
            return float(i)
        # symbolic integer: real generator, integer-valued
        key = ('sitofp', i.key())
        r = self.cache.get(key)
        if r is None:
            g = self.cx.new_gen('real(%s)' % i.name, 'param', lo=Fraction(i.lo), hi=Fraction(i.hi))
            for e in self.samples:
                e[g.idx] = Decimal(i.sample(e, self.rng))
            r = self.cache[key] = self.cx.gen_rf(g)
        return r

    def fptrunc(self, a):
        if type(a) is float:
            if a != a or a in (INF, -INF):
                return a
            import struct
            try:
                return struct.unpack('<f', struct.pack('<f', a))[0]
            except OverflowError:
                return math.copysign(INF, a)
        key = ('f32', a.key())
        r = self.cache.get(key)
        if r is None:
            cx = self.cx

            def ev(env, a=a):
                import struct
                v = float(cx.eval(env, a))
                try:
                    return Decimal(struct.unpack('<f', struct.pack('<f', v))[0])
                except OverflowError:
                    return Decimal(v)
            g = cx.new_gen('f32', 'f32', ev=ev, info={'arg': a})
            r = self.cache[key] = cx.gen_rf(g)
            # relative rounding error 2^-24:  (r-x)^2 <= (2^-24 x)^2, cross-multiplied
            d = cx.sub(r, a)
            e = cx.mul(a, cx.const(Fraction(1, 1 << 24)))
            self.add_axiom('>=', cx.sub(cx.mul(e, e), cx.mul(d, d)))
        return r

    def fpext(self, a):
        return a

    # ---------- signs
    def gen_sign(self, g):
        lo, hi = g.lo, g.hi
        if lo is not None and (lo > 0 or (lo == 0 and g.slo)):
            return 1            # > 0
        if lo is not None and lo == 0:
            return 2            # >= 0
        if hi is not None and (hi < 0 or (hi == 0 and g.shi)):
            return -1
        if hi is not None and hi == 0:
            return -2
        return None

    def coef_sign(self, p):
        """set of possible signs derived from coefficient signs alone (frozenset) or None"""
        pos = neg = False
        strict = False
        for m, c in p.items():
            s = 1 if c > 0 else -1
            st = True
            i = 0
            mm = m
            while mm:
                e = mm & MASK
                if e:
                    gs = self.gen_sign(self.cx.gens[i])
                    if e & 1:
                        if gs is None:
                            return None
                        if gs < 0:
                            s = -s
                        if abs(gs) == 2:
                            st = False
                    else:
                        if gs is None or abs(gs) == 2:
                            st = False
                mm >>= B
                i += 1
            if s > 0:
                pos = True
            else:
                neg = True
            if pos and neg:
                return None
            strict = strict or st
        if strict:
            return frozenset((1,)) if pos else frozenset((-1,))
        return frozenset((0, 1)) if pos else frozenset((0, -1))

    def poly_possible(self, p):
        if not p:
            return frozenset((0,))
        s = self.coef_sign(p)
        if s is not None:
            return s
        # content monomial
        mc = pmonocontent(p)
        if mc:
            s1 = self.coef_sign({mc: 1})
            q = {m - mc: c for m, c in p.items()}
            s2 = self.poly_possible(q)
            if s1 is None:
                s1 = frozenset((1,))
                for i, e in mvars(mc):
                    t = self.coef_sign({mono(i): 1}) or frozenset((-1, 0, 1))
                    if i in self.nz:
                        t = t - {0}
                    if not e & 1:
                        t = frozenset(x * x for x in t)
                    s1 = frozenset(x * y for x in s1 for y in t)
            return frozenset(a * b for a in s1 for b in s2)
        for cp, rel in self.cons:
            if cp == p:
                if rel == '>':
                    return frozenset((1,))
                if rel == '>=':
                    return frozenset((0, 1))
                if rel == '=':
                    return frozenset((0,))
            elif len(cp) == len(p):
                k = next(iter(p))
                if k in cp and cp[k] == -p[k] and all(cp.get(m) == -c for m, c in p.items()):
                    if rel == '>':
                        return frozenset((-1,))
                    if rel == '>=':
                        return frozenset((0, -1))
                    if rel == '=':
                        return frozenset((0,))
        # shift gens with positive lower bounds
        q = self.to_positive(p)
        if q is not None:
            s = self.coef_sign_pos(q)
            if s is not None:
                return s
        for cp, rel in self.cons:
            if rel == '!=' and (cp == p or padd(cp, p) == {}):
                return frozenset((1, -1))
        return frozenset((-1, 0, 1))

    def coef_sign_pos(self, q):
        """q over variables all > 0 (after to_positive)"""
        pos = neg = False
        for c in q.values():
            if c > 0:
                pos = True
            else:
                neg = True
            if pos and neg:
                return None
        return frozenset((1,)) if pos else frozenset((-1,))

    def to_positive(self, p, limit=4000):
        """substitute bounded generators so that every variable ranges over (0,inf) (the open box).
        The sign over the closed box then needs >= only: callers treat 0 as possible at the border."""
        subst = []
        clos = False
        for i in pvars(p):
            g = self.cx.gens[i]
            if g.lo is None:
                return None
            if g.lo == 0 and g.hi is None:
                if not g.slo:
                    return None
                continue
            if not g.slo or (g.hi is not None and not g.shi):
                return None
            subst.append((i, g.lo, g.hi))
        if not subst:
            return None
        q = p
        for i, lo, hi in subst:
            q = self.mobius(q, i, lo, hi)
            if len(q) > limit:
                return None
        return q

    def mobius(self, p, i, lo, hi):
        """g_i = lo + u (hi None) or (lo + hi u)/(1+u); result scaled by positive factors"""
        by = {}
        for m, c in p.items():
            e = mexp(m, i)
            by.setdefault(e, {})[m - mono(i, e)] = c
        n = max(by)
        # integer numerators
        if hi is None:
            den = lo.denominator
            a = {0: lo.numerator, mono(i): den}
            b = {0: den}
        else:
            den = lo.denominator * hi.denominator // gcd(lo.denominator, hi.denominator)
            a = {0: int(lo * den), mono(i): int(hi * den)}
            if not lo:
                a = {mono(i): int(hi * den)}
            b = {0: den, mono(i): den}
        if lo == 0 and hi is None:
            return p
        apow = [ONE]
        bpow = [ONE]
        for _ in range(n):
            apow.append(pmul(apow[-1], a))
            bpow.append(pmul(bpow[-1], b))
        r = {}
        for e, q in by.items():
            r = padd(r, pmul(q, pmul(apow[e], bpow[n - e])))
        return r

    def fac_possible(self, i):
        key = ('F', i, len(self.cons))
        s = self.sign_cache.get(key)
        if s is None:
            s = self.sign_cache[key] = self.poly_possible(self.cx.factors[i])
        return s

    def rf_possible(self, a):
        if not a.n:
            return frozenset((0,))
        s = self.poly_possible(a.n)
        if a.c < 0:
            s = frozenset(-x for x in s)
        for i, e in a.d:
            if e & 1:
                fs = self.fac_possible(i)
                if fs == frozenset((1,)) or fs == frozenset((0, 1)):
                    continue
                if fs == frozenset((-1,)) or fs == frozenset((0, -1)):
                    s = frozenset(-x for x in s)
                    continue
                # unknown denominator sign: multiply through below
                s = frozenset(list(s) + [-x for x in s])
        return s

    def numer_poly(self, a):
        """polynomial with the same sign as a (denominators with unknown sign multiplied in)"""
        p = a.n
        if a.c < 0:
            p = pscale(p, -1)
        for i, e in a.d:
            if e & 1:
                fs = self.fac_possible(i)
                if 0 in fs and len(fs) == 2:
                    fs = fs - {0}
                if fs == frozenset((1,)):
                    continue
                if fs == frozenset((-1,)):
                    p = pscale(p, -1)
                    continue
                # known by samples + z3?
                sg = self.resolve_factor(i)
                if sg == 1:
                    continue
                if sg == -1:
                    p = pscale(p, -1)
                    continue
                p = self.cx.mulp(p, self.cx.factors[i])
        return p

    def resolve_factor(self, i):
        key = ('RF', i, len(self.cons))
        r = self.sign_cache.get(key)
        if r is not None:
            return r
        f = self.cx.factors[i]
        obs = self.observe(f)
        r = 0
        if len(obs - {0}) == 1:
            s = next(iter(obs - {0}))
            q = f if s > 0 else pscale(f, -1)
            if self.prove(q, '>') is True:
                r = s
        self.sign_cache[key] = r
        return r

    def observe(self, p):
        out = set()
        for e in self.live():
            v = self.cx.peval(e, p)
            out.add(0 if abs(v) < Decimal('1e-45') else (1 if v > 0 else -1))
            if len(out) == 3:
                break
        return out

    def live(self):
        return self.samples

    # ---------- conditions
    def convert_linear(self, d):
        """linear combination of angle generators or of log generators compared with 0:
        returns an RF with the same sign, or None when d is not of that form"""
        cx = self.cx
        if d.d:
            return None
        kinds = set()
        lin = {}
        c0 = Fraction(0)
        for m, c in d.n.items():
            if m == 0:
                c0 = d.c * c
                continue
            v = mvars(m)
            if len(v) != 1 or v[0][1] != 1:
                return None
            g = cx.gens[v[0][0]]
            if g.kind not in ('turn', 'log'):
                return None
            kinds.add(g.kind)
            lin[g.idx] = d.c * c
        if len(kinds) != 1:
            return None
        kind = kinds.pop()
        if kind == 'log':
            big = max(abs(x) for x in lin.values())
            # find a scale making all coefficients integers
            for den in range(1, 65):
                ks = {i: snap_int(x / big * den) for i, x in lin.items()}
                if all(k is not None for k in ks.values()):
                    break
            else:
                return None
            e0 = c0 / big * den
            cv = Fraction(1) if e0 == 0 else d2f(mp2d(mpmath.exp(mpmath.mpf(e0.numerator) / e0.denominator)))
            prod = cx.const(cv)
            for i, k in ks.items():
                prod = cx.mul(prod, cx.powi(cx.gens[i].info['arg'], k))
            return cx.sub(prod, cx.const(1))
        # angles: value = c0 + sum c_i g_i (g_i in turns of pi/div... angle alpha_i = pi g_i/div_i)
        # scale so that total angle is within (-pi, pi)
        lo = hi = c0
        for i, c in lin.items():
            g = cx.gens[i]
            if g.lo is None or g.hi is None:
                return None
            a, b = c * g.lo, c * g.hi
            lo += min(a, b)
            hi += max(a, b)
        if lo >= 0 and hi > 0 or hi <= 0 and lo < 0:
            strict = lo > 0 or hi < 0 or all(cx.gens[i].slo and cx.gens[i].shi for i in lin)
            if strict:
                return cx.const(1 if lo >= 0 else -1)
        span = max(abs(lo), abs(hi))
        # choose scale s (angle = pi*s*value) with integer multiples k_i = s*c_i*div_i, s*span < 1
        base = None
        for i, c in lin.items():
            q = abs(c) * cx.gens[i].info['div']
            base = q if base is None else min(base, q)
        for mult in (1, 2, 3, 4, Fraction(1, 2)):
            s = Fraction(mult) / base
            ks = {i: snap_int(s * c * cx.gens[i].info['div']) for i, c in lin.items()}
            if all(k for k in ks.values()) and s * span < 1:
                break
        else:
            return None
        re, im = cx.const(1), cx.const(0)
        for i, k in ks.items():
            t = cx.gens[i].info['tan']
            re, im = self.rot(re, im, t, k)
        a0 = c0 * s
        if a0:
            r0, i0 = self.cis_const_pi(a0)
            re, im = cx.sub(cx.mul(re, r0), cx.mul(im, i0)), cx.add(cx.mul(re, i0), cx.mul(im, r0))
        return im

    def cis_const_pi(self, q):
        """(cos, sin)(pi*q) as RF constants"""
        cx = self.cx
        x = mpmath.pi * q.numerator / q.denominator
        h = snap_int(2 * q, Fraction(1, 10 ** 14))
        if h is not None:
            c, s = ((1, 0), (0, 1), (-1, 0), (0, -1))[h % 4]
            return cx.const(c), cx.const(s)
        return cx.const(d2f(mp2d(mpmath.cos(x)))), cx.const(d2f(mp2d(mpmath.sin(x))))

    def rot(self, re, im, t, k):
        """multiply by (1 + i t)^k (k<0: (1 - i t)^-k): unnormalised rotation by k*alpha"""
        cx = self.cx
        if k < 0:
            t = cx.neg(t)
            k = -k
        for _ in range(k):
            re, im = cx.sub(re, cx.mul(im, t)), cx.add(im, cx.mul(re, t))
        return re, im

    def truth(self, rel, d):
        """decide  d rel 0  (forking if both sides are possible); rel in == > >= < <= !="""
        if rel == '!=':
            return not self.truth('==', d)
        if rel == '<':
            return self.truth('>', self.cx.neg(d))
        if rel == '<=':
            return self.truth('>=', self.cx.neg(d))
        d = self.cx.normal(d)
        c = d.const()
        if c is not None:
            return c == 0 if rel == '==' else (c > 0 if rel == '>' else c >= 0)
        conv = self.convert_linear(d)
        if conv is not None:
            d = self.cx.normal(conv)
            c = d.const()
            if c is not None:
                return c == 0 if rel == '==' else (c > 0 if rel == '>' else c >= 0)
        key = ('T', rel, d.key())
        t = self.cache.get(key)
        if t is not None:
            return t
        want = {'==': frozenset((0,)), '>': frozenset((1,)), '>=': frozenset((0, 1))}[rel]
        poss = self.rf_possible(d)
        if poss <= want:
            self.stats.coef += 1
            return True
        if not (poss & want):
            self.stats.coef += 1
            return False
        p = self.numer_poly(d)
        poss = poss & self.poly_possible(p)
        if poss <= want:
            return True
        if not (poss & want):
            return False
        obs = self.observe(p)
        surf = self.generic and 0 not in obs and len(pvars(p)) > 1 and len(obs) > 0
        if surf and rel == '==':
            # a surface in the parameter space without a known point: not explored, reported
            self.stats.generic += 1
            self.add_constraint(p, '!=')
            self.cache[key] = False
            return False
        if surf:
            self.stats.generic += 1
            self.add_constraint(p, '!=')
            rel = '>'
            want = frozenset((1,))
        sT = bool(obs & want)
        sF = bool(obs - want)
        if not (sT and sF):
            # try to exclude the side without a witness
            if sT or not sF:
                neg = {'==': '!=', '>': '<=', '>=': '<'}[rel]
                r = self.prove_rel(p, rel)
                if r is True:
                    self.cache[key] = True
                    return True
            if sF or not sT:
                neg = {'==': '!=', '>': '<=', '>=': '<'}[rel]
                r = self.prove_rel(p, neg)
                if r is True:
                    self.cache[key] = False
                    return False
        v = self.path.choose_bool(('%s 0 for %s' % (rel, self.cx.pstr(p, 3))), sT or not sF)
        self.add_constraint(p, rel if v else {'==': '!=', '>': '<' if surf else '<=', '>=': '<'}[rel])
        self.cache[key] = v
        return v

    def sign3(self, d):
        if type(d) is float:
            return 0 if d == 0 else (1 if d > 0 else -1)
        if self.truth('==', d):
            return 0
        return 1 if self.truth('>', d) else -1

    def add_constraint(self, p, rel):
        cx = self.cx
        if rel == '<':
            p, rel = pscale(p, -1), '>'
        elif rel == '<=':
            p, rel = pscale(p, -1), '>='
        elif rel == '==':
            rel = '='
        if rel == '>=' and self.poly_possible(p) <= frozenset((0, -1)):
            rel = '='
        if rel == '!=' and len(p) == 1:
            for i, e in mvars(next(iter(p))):
                self.nz.add(i)
        if rel == '=' and len(p) == 1:
            fs = [i for i, e in mvars(next(iter(p))) if i not in self.nz and 0 in (self.coef_sign({mono(i): 1}) or (0,))]
            if len(fs) == 1:
                p = {mono(fs[0]): 1}
        mc = pmonocontent(p) if p else 0
        if mc:
            s = self.coef_sign({mc: 1})
            if s == frozenset((1,)):
                p = {m - mc: c for m, c in p.items()}
        # single linear generator: tighten its range
        vs = pvars(p)
        if len(vs) == 1 and pdegs(p)[vs[0]] == 1 and rel in ('>', '>='):
            g = cx.gens[vs[0]]
            a = p[mono(g.idx)]
            b = Fraction(-p.get(0, 0), a)
            st = rel == '>'
            if a > 0:
                if g.lo is None or b > g.lo or (b == g.lo and st):
                    g.lo, g.slo = b, st
            else:
                if g.hi is None or b < g.hi or (b == g.hi and st):
                    g.hi, g.shi = b, st
            if g.lo is not None and g.hi is not None and (g.lo > g.hi or (g.lo == g.hi and (g.slo or g.shi))):
                raise Infeasible()
            self.sign_cache.clear()
        elif rel == '=' and p:
            # eliminate a generator that occurs linearly with constant coefficient
            done = False
            dg = pdegs(p)
            for i in vs:
                if dg[i] == 1 and cx.gens[i].kind in ('param',) and i not in cx.pow_rules:
                    terms = [(m, c) for m, c in p.items() if mexp(m, i)]
                    if len(terms) == 1 and terms[0][0] == mono(i) and abs(terms[0][1]) == 1:
                        c = terms[0][1]
                        rhs = {m: -cc * c for m, cc in p.items() if m != terms[0][0]}
                        g = cx.gens[i]
                        # keep range information as constraints
                        if g.lo is not None:
                            self.cons.append((self._lin(rhs, -g.lo, 1), '>' if g.slo else '>='))
                        if g.hi is not None:
                            self.cons.append((self._lin(rhs, -g.hi, -1), '>' if g.shi else '>='))
                        cx.add_pow_rule(g, 1, rhs)
                        done = True
                        break
        self.cons.append((p, rel))
        self.sign_cache.clear()
        keep = []
        for e in self.samples:
            v = cx.peval(e, p)
            z = abs(v) < Decimal('1e-45')
            ok = (rel == '>' and v > 0 and not z) or (rel == '>=' and (v > 0 or z)) or (rel == '=' and z) or (rel == '!=' and not z)
            if ok:
                keep.append(e)
        if not keep and rel == '=':
            keep = self.solve_samples(p)
        self.samples = keep
        if self.zsolver is not None:
            self.zsolver.add(self.zcon(p, rel))
        if not keep:
            if self.witness() is False:
                raise Infeasible()

    def _lin(self, rhs, off, sgn):
        d = off.denominator
        q = pscale(rhs, d)
        q = padd(q, {0: off.numerator}) if off else q
        return pscale(q, sgn)

    def solve_samples(self, p):
        """adjust one linear parameter so that p = 0"""
        cx = self.cx
        out = []
        for i in pvars(p):
            g = cx.gens[i]
            if g.kind != 'param' or g.ev is not None or pdegs(p)[i] != 1:
                continue
            for e in self.samples:
                base = {k: v for k, v in e.items() if isinstance(k, int) and cx.gens[k].ev is None}
                a = {m - mono(i): c for m, c in p.items() if mexp(m, i)}
                b = {m: c for m, c in p.items() if not mexp(m, i)}
                va = cx.peval(base, a)
                if va == 0:
                    continue
                base.pop('pow', None)
                base[i] = -cx.peval(base, b) / va
                base.pop('pow', None)
                f = base[i]
                if g.lo is not None and d2f(f) < g.lo or g.hi is not None and d2f(f) > g.hi:
                    continue
                if self.sat_all(base, skip=p):
                    out.append(base)
            if out:
                break
        return out

    def sat_all(self, env, skip=None):
        for p, rel in self.cons:
            if p is skip or p == skip:
                continue
            try:
                v = self.cx.peval(env, p)
            except Exception:
                return False
            z = abs(v) < Decimal('1e-40')
            if not ((rel == '>' and v > 0 and not z) or (rel == '>=' and (v > 0 or z)) or
                    (rel == '=' and z) or (rel == '!=' and not z)):
                return False
        return True

    def witness(self):
        """no sample left on this path: look for a model of the constraints.
        returns False if proven infeasible, None if unknown, True if a sample was added"""
        s = self.solver()
        r = self.zcheck(s, 1000)
        if r == z3.unsat:
            return False
        if r == z3.sat:
            env = self.model_env(s.model())
            if env is not None:
                self.samples = [env]
                return True
        self.uncertain = True
        return None

    def model_env(self, m):
        cx = self.cx
        env = {}
        try:
            for g in cx.gens:
                if g.ev is not None:
                    continue
                if g.kind == 'turn':
                    continue
                v = self.z3vars.get(g.idx)
                if v is None:
                    mid = self.mid(g)
                    env[g.idx] = mid
                    continue
                x = m.eval(v, model_completion=True)
                if z3.is_algebraic_value(x):
                    x = x.approx(60)
                fr = Fraction(x.numerator_as_long(), x.denominator_as_long())
                env[g.idx] = Decimal(fr.numerator) / Decimal(fr.denominator)
            for g in cx.gens:
                if g.kind == 'turn' and g.ev is None:
                    t = cx.eval(env, g.info['tan'])
                    env[g.idx] = mp2d(mpmath.atan(d2mp(t)) / mpmath.pi * g.info['div'])
            if not self.sat_all(env):
                return None
            return env
        except Exception:
            return None

    def mid(self, g):
        lo = g.lo
        hi = g.hi
        if lo is not None and hi is not None:
            f = (lo + hi) / 2
        elif lo is not None:
            f = lo + 1
        elif hi is not None:
            f = hi - 1
        else:
            f = Fraction(3, 7)
        return Decimal(f.numerator) / Decimal(f.denominator)

    def add_axiom(self, rel, d):
        """fact implied by the definition of a generator"""
        p = self.numer_poly(d)
        if rel == '>=':
            self.cons.append((p, '>='))
        elif rel == '>':
            self.cons.append((p, '>'))
        elif rel == '=':
            self.cons.append((p, '='))
        self.sign_cache.clear()
        if self.zsolver is not None:
            self.zsolver.add(self.zcon(p, self.cons[-1][1]))

    # ---------- z3
    def zvar(self, i):
        v = self.z3vars.get(i)
        if v is None:
            g = self.cx.gens[i]
            v = self.z3vars[i] = z3.Real('g%d' % i)
        return v

    def zpoly(self, p):
        pw = {}
        terms = []
        for m, c in p.items():
            fs = []
            for i, e in mvars(m):
                k = (i, e)
                t = pw.get(k)
                if t is None:
                    v = self.zvar(i)
                    t = pw[k] = v ** e if e > 1 else v
                fs.append(t)
            if c != 1 or not fs:
                fs.insert(0, z3.RealVal(c))
            terms.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
        if not terms:
            return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(*terms)

    def zcon(self, p, rel):
        e = self.zpoly(p)
        return {'>': e > 0, '>=': e >= 0, '=': e == 0, '!=': e != 0, '<': e < 0, '<=': e <= 0, '==': e == 0}[rel]

    def zranges(self, idxs):
        out = []
        for i in idxs:
            g = self.cx.gens[i]
            v = self.zvar(i)
            if g.lo is not None:
                c = z3.RealVal(str(g.lo))
                out.append(v > c if g.slo else v >= c)
            if g.hi is not None:
                c = z3.RealVal(str(g.hi))
                out.append(v < c if g.shi else v <= c)
        return out

    def closure(self, idxs, polys):
        """generators reachable through rules/definitions and the facts about them"""
        cx = self.cx
        seen = set(idxs)
        facts = []
        work = list(idxs)
        conlist = [(p, r) for p, r in self.cons if len(p) <= 300]
        used = [False] * len(conlist)
        rules = []
        for i, (k, rhs) in cx.pow_rules.items():
            rules.append((set([i]) | set(pvars(rhs)), i, padd({mono(i, k): 1}, pscale(rhs, -1))))
        for m, rhs in cx.pair_rules:
            vs = set(i for i, _ in mvars(m))
            rules.append((vs | set(pvars(rhs)), max(vs), padd({m: 1}, pscale(rhs, -1))))
        changed = True
        ru = [False] * len(rules)
        while changed:
            changed = False
            for j, (vs, i, q) in enumerate(rules):
                if not ru[j] and i in seen:
                    ru[j] = True
                    facts.append((q, '='))
                    if not vs <= seen:
                        seen |= vs
                        changed = True
            for j, (p, r) in enumerate(conlist):
                if not used[j]:
                    vs = set(pvars(p))
                    if vs & seen:
                        used[j] = True
                        facts.append((p, r))
                        if not vs <= seen:
                            seen |= vs
                            changed = True
        return seen, facts

    def solver(self):
        s = z3.SolverFor('QF_NRA')
        idxs = set()
        for p, r in self.cons:
            idxs |= set(pvars(p))
        seen, facts = self.closure(idxs, [])
        for f in self.zranges(seen):
            s.add(f)
        for p, r in facts:
            s.add(self.zcon(p, r))
        return s

    def zcheck(self, s, ms):
        t0 = time.time()
        if self.deadline is not None:
            left = int((self.deadline - t0) * 1000)
            if left <= 0:
                raise Budget('time budget')
            ms = min(ms, left)
        s.set('timeout', int(ms))
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.stats.z3_calls += 1
        self.stats.z3_time += time.time() - t0
        if r == z3.unknown:
            self.stats.z3_unknown += 1
        return r

    def prove_rel(self, p, rel, ms=None):
        """True if p rel 0 holds on the path; False with a model; None unknown"""
        if rel == '>':
            return self.prove(p, '>', ms)
        if rel == '>=':
            return self.prove(p, '>=', ms)
        if rel == '<':
            return self.prove(pscale(p, -1), '>', ms)
        if rel == '<=':
            return self.prove(pscale(p, -1), '>=', ms)
        if rel == '!=':
            obs = self.observe(p)
            if obs == {1} and self.prove(p, '>', ms) is True:
                return True
            if obs == {-1} and self.prove(pscale(p, -1), '>', ms) is True:
                return True
            return self.ask(p, '==', ms)
        return self.ask(p, '!=', ms)

    def ask(self, p, negrel, ms=None):
        """is 'p negrel 0' unsatisfiable?  True/False/None"""
        if len(p) > 400:
            return None
        if max(sum(e for _, e in mvars(m)) for m in p) > 60:
            return None
        s = z3.SolverFor('QF_NRA')
        seen, facts = self.closure(set(pvars(p)), [p])
        for f in self.zranges(seen):
            s.add(f)
        for q, r in facts:
            s.add(self.zcon(q, r))
        s.add(self.zcon(p, negrel))
        r = self.zcheck(s, ms or self.z3_ms)
        if r == z3.unsat:
            return True
        if r == z3.sat:
            env = self.model_env(s.model())
            if env is not None:
                self.last_model = env
                if len(self.samples) < 2 * self.nsamples:
                    self.samples.append(env)
                return False
            return None
        return None

    def univariate(self, p, i, rel):
        """exact: p(g_i) rel 0 on the generator's whole range, by z3"""
        g = self.cx.gens[i]
        s = z3.SolverFor('QF_NRA')
        for f in self.zranges([i]):
            s.add(f)
        s.add(self.zcon(p, '<=' if rel == '>' else '<'))
        r = self.zcheck(s, 8000)
        if r == z3.unsat:
            return True
        if r == z3.sat:
            return False
        return None

    def prove(self, p, rel, ms=None):
        """p > 0 / p >= 0 everywhere on the path's domain: True / False(model) / None"""
        want = frozenset((1,)) if rel == '>' else frozenset((0, 1))
        if not p:
            return rel == '>='
        poss = self.poly_possible(p)
        if poss <= want:
            self.stats.coef += 1
            return True
        mc = pmonocontent(p)
        if mc and self.coef_sign({mc: 1}) == frozenset((1,)):
            p = {m - mc: c for m, c in p.items()}
        g = pcontent(p)
        if g > 1:
            p = {m: c // g for m, c in p.items()}
        vs = pvars(p)
        if len(vs) == 1 and not self.cons_on(vs):
            r = self.univariate(self.shrink(p, rel), vs[0], rel)
            if r is True:
                return True
            if r is None:
                return None
        # all variables non-negative: dominated-negative-terms certificate
        if all((self.gen_sign(self.cx.gens[i]) or 0) > 0 for i in vs):
            q = self.absorb(p)
            if q is not None:
                pp = self.coef_sign(q)
                if pp is not None and pp <= want:
                    self.stats.coef += 1
                    return True
                if q and len(q) < len(p):
                    r = self.slices(q, rel)
                    if r:
                        return True
            r = self.slices(p, rel)
            if r:
                return True
        q = self.to_positive(p)
        if q is not None and len(vs) > 1:
            # slice the transformed polynomial (variables > 0)
            if self.slices(q, rel, positive=True):
                return True
        obs = self.observe(p)
        bad = obs & (frozenset((0, -1)) if rel == '>' else frozenset((-1,)))
        if bad:
            return False
        return self.ask(self.shrink(p, rel) if all((self.gen_sign(self.cx.gens[i]) or 0) > 0 for i in vs) else p,
                        '<=' if rel == '>' else '<', ms)

    def cons_on(self, vs):
        s = set(vs)
        for i in vs:
            if i in self.cx.pow_rules:
                return True
        for p, r in self.cons:
            if set(pvars(p)) & s and len(pvars(p)) == 1 and pdegs(p)[pvars(p)[0]] > 1:
                return True
        return False

    def shrink(self, p, rel, bits=90):
        """round coefficients down relative to the largest (variables >= 0): lower bound polynomial with small numbers"""
        for i in pvars(p):
            if (self.gen_sign(self.cx.gens[i]) or 0) <= 0:
                return p
        big = max(c.bit_length() for c in p.values())
        small = min(c.bit_length() for c in p.values())
        if big <= bits * 2:
            return p
        sh = small - bits
        if sh <= 0:
            sh = big - 3 * bits
        if sh <= 0:
            return p
        q = {}
        for m, c in p.items():
            v = c >> sh        # floor
            if v:
                q[m] = v
        return q or p

    def absorb(self, p):
        """variables >= 0: remove negative monomials using c*m <= c/2*(m1+m2), m1*m2 = m^2 (exact certificates)"""
        neg = [(m, -c) for m, c in p.items() if c < 0]
        if not neg or len(p) > 3000:
            return p if not neg else None
        q = {m: c * 4 for m, c in p.items()}
        pos = sorted((m for m, c in p.items() if c > 0), key=lambda m: -p[m])[:400]
        neg.sort(key=lambda t: t[1])
        for m, c in neg:
            need = 4 * c
            for m1 in pos:
                if need <= 0:
                    break
                m2 = self.mirror(m, m1)
                if m2 is None or m2 == m1:
                    continue
                a1 = q.get(m1, 0)
                a2 = q.get(m2, 0)
                if a1 <= 0 or a2 <= 0:
                    continue
                # use at most half of what is there
                t = min(a1 // 2, a2 // 2)
                # removing t from both pays 2t of m
                t = min(t, (need + 1) // 2)
                if t <= 0:
                    continue
                q[m1] = a1 - t
                q[m2] = a2 - t
                need -= 2 * t
            if need > 0 and len(neg) * min(len(pos), 30) ** 2 < 200000:
                # c*m <= c*l*m1 + c*(1-l)*m2 with m = l*m1 + (1-l)*m2 (weighted arithmetic-geometric mean)
                for x, m1 in enumerate(pos[:30]):
                    for m2 in pos[:x]:
                        if need <= 0:
                            break
                        k = self.between(m, m1, m2)
                        if k is None:
                            continue
                        a1, a2 = q.get(m1, 0) // 2, q.get(m2, 0) // 2
                        if a1 <= 0 or a2 <= 0:
                            continue
                        k1, k2 = k
                        t = min(need, a1 * (k1 + k2) // k1, a2 * (k1 + k2) // k2)
                        if t <= 0:
                            continue
                        q[m1] -= -(-t * k1 // (k1 + k2))
                        q[m2] -= -(-t * k2 // (k1 + k2))
                        need -= t
            if need > 0:
                q[m] = -need
            else:
                q.pop(m, None)
        return {m: c for m, c in q.items() if c}

    @staticmethod
    def between(m, a, b):
        """k1, k2 > 0 with (k1+k2)*m = k1*a + k2*b, or None"""
        r = None
        while m or a or b:
            x, y, z = a & MASK, m & MASK, b & MASK
            if x == z:
                if y != x:
                    return None
            else:
                k = (z - y, y - x) if z > x else (y - z, x - y)
                if k[0] <= 0 or k[1] <= 0 or (r is not None and k[0] * r[1] != k[1] * r[0]):
                    return None
                r = k
            a >>= B
            m >>= B
            b >>= B
        return r

    @staticmethod
    def mirror(m, m1):
        out = 0
        s = 0
        a, b = m, m1
        while a or b:
            x = 2 * (a & MASK) - (b & MASK)
            if x < 0:
                return None
            out |= x << s
            a >>= B
            b >>= B
            s += B
        return out

    def slices(self, p, rel, positive=False, depth=0):
        """view p as a polynomial in one variable x >= 0 whose coefficients are polynomials in the others;
        sufficient: every coefficient is >= 0 (and the first > 0)"""
        vs = pvars(p)
        if len(vs) < 2:
            if not vs:
                c = p.get(0, 0)
                return c > 0 if rel == '>' else c >= 0
            if all(c > 0 for c in p.values()):
                return True
            if all(c < 0 for c in p.values()):
                return False
            x = z3.Real('x')
            i = vs[0]
            # Horner-free explicit sum
            e = z3.Sum(*[z3.RealVal(c) * (x ** mexp(m, i)) if mexp(m, i) else z3.RealVal(c) for m, c in
                         self.shrink_pos(p).items()])
            s = z3.SolverFor('QF_NRA')
            s.add(x > 0, e <= 0 if rel == '>' else e < 0)
            return self.zcheck(s, 5000) == z3.unsat
        best = None
        for i in vs:
            by = {}
            for m, c in p.items():
                e = mexp(m, i)
                by.setdefault(e, {})[m - mono(i, e)] = c
            bad = sum(1 for q in by.values() if any(c < 0 for c in q.values()))
            # quick reject: a coefficient with only negative entries
            if any(all(c < 0 for c in q.values()) for q in by.values()):
                continue
            if best is None or bad < best[0]:
                best = (bad, i, by)
        if best is None or depth > 3:
            return False
        _, i, by = best
        for e in sorted(by):
            q = by[e]
            if all(c > 0 for c in q.values()):
                continue
            mc = pmonocontent(q)
            if mc:
                q = {m - mc: c for m, c in q.items()}
            if not self.slices(q, '>=' if rel == '>=' else '>', positive, depth + 1):
                return False
        return True

    def shrink_pos(self, p, bits=90):
        big = max(abs(c).bit_length() for c in p.values())
        small = min(abs(c).bit_length() for c in p.values())
        if big <= bits * 2:
            return p
        sh = max(small - bits, big - 3 * bits)
        if sh <= 0:
            return p
        q = {m: c >> sh for m, c in p.items()}
        return {m: c for m, c in q.items() if c} or p

    # ---------- comparisons used by the interpreter
    def fcmp(self, pred, a, b):
        ca, cb = type(a) is float, type(b) is float
        if ca and cb:
            un = a != a or b != b
            o = pred[0]
            r = pred[1:]
            if pred == 'ord':
                return not un
            if pred == 'uno':
                return un
            if un:
                return o == 'u'
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[r]
        if (ca and a != a) or (cb and b != b):
            return pred == 'uno' or (pred != 'ord' and pred[0] == 'u')
        if pred == 'ord':
            return True
        if pred == 'uno':
            return False
        r = pred[1:]
        if (ca and a in (INF, -INF)) or (cb and b in (INF, -INF)):
            if ca:
                big = a > 0
                return {'eq': False, 'ne': True, 'lt': not big, 'le': not big, 'gt': big, 'ge': big}[r]
            big = b > 0
            return {'eq': False, 'ne': True, 'lt': big, 'le': big, 'gt': not big, 'ge': not big}[r]
        d = self.cx.sub(self.lift(a), self.lift(b))
        return self.truth({'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[r], d)

    def isinf(self, a):
        return type(a) is float and abs(a) == INF

    # ---------- math functions
    def fabs(self, a):
        if type(a) is float:
            return abs(a)
        return a if self.truth('>=', a) else self.fneg(a)

    def fsqrt(self, a):
        if type(a) is float:
            if a != a or a < 0:
                return NAN
            return math.sqrt(a)
        cx = self.cx
        a = cx.normal(a)
        key = ('sqrt', a.key())
        r = self.cache.get(key)
        if r is not None:
            return r
        if not self.truth('>=', a):
            self.cache[key] = NAN
            return NAN
        if not self.truth('>', a):
            self.cache[key] = 0.0
            return 0.0
        r = self.sqrt_pos(a)
        r = self.simp(r)
        self.cache[key] = r
        return r

    def sqrt_pos(self, a):
        """a > 0 on this path"""
        cx = self.cx
        # a = c n / prod f^e ; sign handled by squaring
        c = a.c
        n = a.n
        if c < 0:
            c = -c
            n = pscale(n, -1)
        s, r = cx.factor_square(n) if n[max(n)] > 0 else (ONE, n)
        rad = r
        den = {}
        for i, e in a.d:
            h = (e + 1) // 2
            den[i] = h
            if e & 1:
                # sqrt(1/f) = sqrt(f)/f
                q = pdiv_exact(rad, cx.factors[i]) if len(cx.factors[i]) > 1 else None
                rad = cx.mulp(rad, cx.factors[i])
        if len(den) or True:
            s2, rad = cx.factor_square(rad) if rad[max(rad)] > 0 else (ONE, rad)
            s = cx.mulp(s, s2)
        g = pcontent(rad)
        sc, rc = cx.const_sqrt(c * g)
        rad = {m: v // g for m, v in rad.items()}
        rad = pscale(rad, rc)
        val = cx.make(sc, dict(s), den)
        # make it positive
        if self.truth('>', val) is not True:
            val = cx.neg(val)
        if rad == ONE:
            return val
        k = ('sqrtgen', frozenset(rad.items()))
        g = self.cache.get(k)
        if g is None:
            R = RF(Fraction(1), rad, ())

            def ev(env, rad=rad):
                v = cx.peval(env, rad)
                if v < 0:
                    v = Decimal(0)
                return v.sqrt()
            gg = cx.new_gen('sqrt', 'sqrt', lo=Fraction(0), slo=True, ev=ev, info={'arg': rad})
            if len(rad) == 1 and 0 in rad:
                q = Fraction(isqrt(rad[0] << 80), 1 << 40)
                gg.lo, gg.hi = q - Fraction(1, 1 << 39), q + Fraction(1, 1 << 39)
            cx.add_pow_rule(gg, 2, rad)
            g = self.cache[k] = cx.gen_rf(gg)
        return cx.mul(val, g)

    def csqrt(self, re, im):
        if type(re) is float and type(im) is float:
            import cmath
            if re != re or im != im or abs(re) == INF or abs(im) == INF:
                if abs(im) == INF:
                    return INF, im
                if re == INF:
                    return INF, (NAN if im != im else math.copysign(0.0, im))
                return NAN, NAN
            z = cmath.sqrt(complex(re, im))
            return z.real, z.imag
        cx = self.cx
        imz = im == 0.0 if type(im) is float else cx.normal(im).is_zero()
        if type(re) is float and (re != re) or type(im) is float and im != im:
            return NAN, NAN
        if imz or (type(im) is not float and self.truth('==', im)):
            if type(re) is float:
                return (math.sqrt(re), 0.0) if re >= 0 else (0.0, math.sqrt(-re))
            if self.truth('>=', re):
                return self.fsqrt(re), 0.0
            return 0.0, self.fsqrt(self.fneg(re))
        X, Y = cx.normal(self.lift(re)), cx.normal(self.lift(im))
        key = ('csqrt', X.key(), Y.key())
        r = self.cache.get(key)
        if r is not None:
            return r
        # common denominator with even exponents
        d = dict(X.d)
        for i, e in Y.d:
            if e > d.get(i, 0):
                d[i] = e
        dd = {i: e + (e & 1) for i, e in d.items()}
        Xn, Yn = X.n, Y.n
        dx, dy = dict(X.d), dict(Y.d)
        for i, e in dd.items():
            for _ in range(e - dx.get(i, 0)):
                Xn = cx.mulp(Xn, cx.factors[i]) if Xn else Xn
            for _ in range(e - dy.get(i, 0)):
                Yn = cx.mulp(Yn, cx.factors[i]) if Yn else Yn
        cX = X.c if X.n else Fraction(0)
        cY = Y.c
        den = cX.denominator * cY.denominator // gcd(cX.denominator, cY.denominator)
        # V = (1/den) * (ax Xn + i ay Yn) ; multiply numerator and denominator by den: V = (den*(..))/(den^2)
        ax, ay = cX * den * den, cY * den * den
        Xi = pscale(Xn, int(ax)) if Xn else {}
        Yi = pscale(Yn, int(ay))
        scale = Fraction(1, den)
        # common square content
        g = gcd(pcontent(Xi) if Xi else 0, pcontent(Yi))
        sq = 1
        for q in (2, 3, 5, 7):
            while g % (q * q) == 0:
                g //= q * q
                sq *= q
        r2 = isqrt(g)
        if r2 * r2 == g:
            sq *= r2
        if sq > 1:
            Xi = {m: c // (sq * sq) for m, c in Xi.items()}
            Yi = {m: c // (sq * sq) for m, c in Yi.items()}
            scale *= sq
        # common square factors (polynomial)
        if not any(cx._has_rules(t) for t in (Xi, Yi)):
            mc = 0
            from .poly import mmin
            if Xi:
                mcm = mmin(pmonocontent(Xi), pmonocontent(Yi))
            else:
                mcm = pmonocontent(Yi)
            half = 0
            for i, e in mvars(mcm):
                half += mono(i, e // 2)
            if half:
                Xi = {m - 2 * half: c for m, c in Xi.items()}
                Yi = {m - 2 * half: c for m, c in Yi.items()}
            sfac = {half: 1}
            for f in list(cx.factors):
                if len(f) < 2 or cx._has_rules(f):
                    continue
                while True:
                    y1 = pdiv_exact(Yi, f)
                    y2 = pdiv_exact(y1, f) if y1 is not None else None
                    if y2 is None:
                        break
                    if Xi:
                        x1 = pdiv_exact(Xi, f)
                        x2 = pdiv_exact(x1, f) if x1 is not None else None
                        if x2 is None:
                            break
                        Xi = x2
                    Yi = y2
                    sfac = pmul(sfac, f)
        else:
            sfac = ONE
        # need Y even: V scaled by 4 => v scaled by 2
        if any(c & 1 for c in Yi.values()):
            Xi = pscale(Xi, 4)
            Yi = pscale(Yi, 4)
            scale /= 2
        Yh = {m: c // 2 for m, c in Yi.items()}

        def evr(env):
            x, y = cx.peval(env, Xi), cx.peval(env, Yi)
            mod = (x * x + y * y).sqrt()
            if x >= 0:
                return ((mod + x) / 2).sqrt()
            vi = ((mod - x) / 2).sqrt()
            return abs(y) / (2 * vi)

        def evi(env):
            x, y = cx.peval(env, Xi), cx.peval(env, Yi)
            vr = cx.geval(env, gr.idx)
            return y / (2 * vr)
        gr = cx.new_gen('csqrt_re', 'csqrt', lo=Fraction(0), slo=True, ev=evr, info={'X': Xi, 'Y': Yi})
        gi = cx.new_gen('csqrt_im', 'csqrt', ev=evi, info={'X': Xi, 'Y': Yi})
        sy = self.poly_possible(Yi)
        if sy == frozenset((1,)):
            gi.lo, gi.slo = Fraction(0), True
        elif sy == frozenset((-1,)):
            gi.hi, gi.shi = Fraction(0), True
        # vr^2 -> vi^2 + X ; vr*vi -> Y/2 ; vi^3 -> Y/2*vr - X*vi
        cx.add_pow_rule(gr, 2, padd({mono(gi.idx, 2): 1}, Xi))
        cx.add_pair_rule(mono(gr.idx) + mono(gi.idx), Yh)
        rhs = padd(pmul(Yh, {mono(gr.idx): 1}), pscale(pmul(Xi, {mono(gi.idx): 1}), -1))
        cx.add_pow_rule(gi, 3, rhs)
        fac = cx.make(scale, dict(sfac), {i: e // 2 for i, e in dd.items()})
        vr = cx.mul(fac, cx.gen_rf(gr))
        vi = cx.mul(fac, cx.gen_rf(gi))
        if not self.truth('>', fac):
            vr, vi = cx.neg(vr), cx.neg(vi)
        r = self.cache[key] = (vr, vi)
        return r

    def cabs(self, re, im):
        if type(re) is float and type(im) is float:
            try:
                return math.hypot(re, im)
            except OverflowError:
                return INF
        if (type(im) is float and im == 0.0) or (type(im) is not float and self.cx.normal(im).is_zero()):
            return self.fabs(re)
        if (type(re) is float and re == 0.0) or (type(re) is not float and self.cx.normal(re).is_zero()):
            return self.fabs(im)
        return self.fsqrt(self.fadd(self.fmul(re, re), self.fmul(im, im)))

    # -- angles
    def angle(self, a):
        """a = c0 + sum c_i g_i with turn generators -> (q0, {idx: k}) in units of pi (q0) and alpha_i (k), or None"""
        cx = self.cx
        if a.d:
            return None
        c0 = Fraction(0)
        ks = {}
        for m, c in a.n.items():
            if m == 0:
                c0 = a.c * c
                continue
            v = mvars(m)
            if len(v) != 1 or v[0][1] != 1:
                return None
            g = cx.gens[v[0][0]]
            if g.kind != 'turn':
                return None
            k = snap_int(a.c * c / PI * g.info['div'])
            if k is None:
                return None
            if k:
                ks[g.idx] = k
        q = c0 / PI
        h = snap_int(4 * q, Fraction(1, 10 ** 13))
        if h is not None:
            q = Fraction(h, 4)
        return q, ks

    def cis(self, a):
        """(cos a, sin a) as RFs or None"""
        an = self.angle(a)
        if an is None:
            return None
        q, ks = an
        cx = self.cx
        re, im = cx.const(1), cx.const(0)
        for i, k in sorted(ks.items()):
            if k & 1:
                return None
            t = cx.gens[i].info['tan']
            key = ('cis', i)
            cs = self.cache.get(key)
            if cs is None:
                t2 = cx.mul(t, t)
                den = cx.add(cx.const(1), t2)
                inv = cx.inv(den)
                cs = self.cache[key] = (cx.mul(cx.sub(cx.const(1), t2), inv), cx.mul(cx.mul(cx.const(2), t), inv))
            c1, s1 = cs
            if k < 0:
                s1 = cx.neg(s1)
            for _ in range(abs(k) // 2):
                re, im = cx.sub(cx.mul(re, c1), cx.mul(im, s1)), cx.add(cx.mul(re, s1), cx.mul(im, c1))
        if q:
            r0, i0 = self.cis_const_pi(q)
            re, im = cx.sub(cx.mul(re, r0), cx.mul(im, i0)), cx.add(cx.mul(re, i0), cx.mul(im, r0))
        return re, im

    def fcos(self, a):
        if type(a) is float:
            if abs(a) == INF or a != a:
                return NAN
            return snap0(math.cos(a), a)
        r = self.cis(a)
        if r is None:
            return self.uf('cos', (a,), -1, 1, lambda x: mpmath.cos(x))
        return self.simp(r[0])

    def fsin(self, a):
        if type(a) is float:
            if abs(a) == INF or a != a:
                return NAN
            return snap0(math.sin(a), a)
        r = self.cis(a)
        if r is None:
            return self.uf('sin', (a,), -1, 1, lambda x: mpmath.sin(x))
        return self.simp(r[1])

    def ftan(self, a):
        if type(a) is float:
            if abs(a) == INF or a != a:
                return NAN
            return snap0(math.tan(a), a)
        an = self.angle(a)
        if an is None:
            return self.uf('tan', (a,), None, None, lambda x: mpmath.tan(x))
        q, ks = an
        cx = self.cx
        re, im = cx.const(1), cx.const(0)
        for i, k in sorted(ks.items()):
            re, im = self.rot(re, im, cx.gens[i].info['tan'], k)
        if q:
            r0, i0 = self.cis_const_pi(q)
            re, im = cx.sub(cx.mul(re, r0), cx.mul(im, i0)), cx.add(cx.mul(re, i0), cx.mul(im, r0))
        return self.fdiv(self.simp(im), self.simp(re))

    def fatan(self, a):
        if type(a) is float:
            return math.atan(a)
        cx = self.cx
        a = cx.normal(a)
        key = ('atan', a.key())
        r = self.cache.get(key)
        if r is None:
            # atan(tan alpha): recognise the companion of a frequency parameter
            for g in cx.gens:
                if g.kind == 'turn' and g.info['tan'].key() == a.key() and g.lo >= 0 and g.hi / g.info['div'] <= Fraction(1, 2):
                    r = cx.mul(cx.const(PI / g.info['div']), cx.gen_rf(g))
                    self.cache[key] = r
                    return r
            poss = self.rf_possible(a)
            lo, hi, slo, shi = Fraction(-1, 2), Fraction(1, 2), True, True
            if poss <= frozenset((0, 1)):
                lo, slo = Fraction(0), poss == frozenset((1,))
            elif poss <= frozenset((0, -1)):
                hi, shi = Fraction(0), poss == frozenset((-1,))
            g = cx.new_gen('atan', 'turn', lo=lo, hi=hi, slo=slo, shi=shi, info={'tan': a, 'div': 1},
                           ev=lambda env, a=a: mp2d(mpmath.atan(d2mp(cx.eval(env, a))) / mpmath.pi))
            r = self.cache[key] = cx.mul(cx.const(PI), cx.gen_rf(g))
        return r

    def fatan2(self, y, x):
        if type(y) is float and type(x) is float:
            return math.atan2(y, x)
        s = self.sign3(x)
        if s > 0:
            return self.fatan(self.fdiv(y, x))
        raise Undecided('symbolic atan2')

    def fasin(self, a):
        if type(a) is float:
            return math.asin(a) if -1 <= a <= 1 else NAN
        # asin(x) = atan(x / sqrt(1 - x^2))
        one = self.fsub(1.0, self.fmul(a, a))
        return self.fatan(self.fdiv(a, self.fsqrt(one)))

    def facos(self, a):
        if type(a) is float:
            return math.acos(a) if -1 <= a <= 1 else NAN
        return self.fsub(math.pi / 2, self.fasin(a))

    # -- exponentials
    def log_gen(self, X):
        cx = self.cx
        X = cx.normal(X)
        key = ('log', X.key())
        r = self.cache.get(key)
        if r is None:
            g = cx.new_gen('log', 'log', ev=lambda env, X=X: mp2d(mpmath.log(d2mp(cx.eval(env, X)))), info={'arg': X})
            r = self.cache[key] = cx.gen_rf(g)
        return r

    def flog(self, a):
        if type(a) is float:
            if a > 0:
                return math.log(a)
            return -INF if a == 0 else NAN
        if not self.truth('>', a):
            return -INF if self.truth('==', a) else NAN
        cx = self.cx
        a = cx.normal(a)
        # monomial: sum of logs
        if len(a.n) == 1 and all(len(cx.factors[i]) == 1 for i, _ in a.d):
            (m, _), = a.n.items()
            ex = dict(mvars(m))
            for i, e in a.d:
                (fm, _), = cx.factors[i].items()
                for j, k in mvars(fm):
                    ex[j] = ex.get(j, 0) - e * k
            if all((self.gen_sign(cx.gens[i]) == 1) for i in ex):
                tot = cx.const(0)
                if a.c != 1:
                    tot = cx.const(d2f(mp2d(mpmath.log(mpmath.mpf(a.c.numerator) / a.c.denominator))))
                for i, e in ex.items():
                    tot = cx.add(tot, cx.mul(cx.const(e), self.log_gen(cx.gen_rf(cx.gens[i]))))
                return self.simp(tot)
        return self.log_gen(a)

    def logparts(self, a):
        cx = self.cx
        if a.d:
            return None
        c0 = Fraction(0)
        ks = {}
        for m, c in a.n.items():
            if m == 0:
                c0 = a.c * c
                continue
            v = mvars(m)
            if len(v) != 1 or v[0][1] != 1 or cx.gens[v[0][0]].kind != 'log':
                return None
            ks[v[0][0]] = a.c * c
        return c0, ks

    def exp_scaled(self, a, scale):
        """exp(scale*a); scale a real (mpmath) factor such as ln 10"""
        cx = self.cx
        lp = self.logparts(a)
        if lp is None:
            return None
        c0, ks = lp
        sf = Fraction(mp2d(mpmath.mpf(scale)))
        prod = cx.const(1)
        if c0:
            prod = cx.const(d2f(mp2d(mpmath.exp(mpmath.mpf(c0.numerator) / c0.denominator * scale))))
        for i, k in ks.items():
            q = snap_rat(k * sf)
            if q is None:
                return None
            X = cx.gens[i].info['arg']
            if q.denominator != 1:
                X = self.root(X, q.denominator)
                if X is None:
                    return None
            prod = cx.mul(prod, cx.powi(X, q.numerator))
        return self.simp(prod)

    def root(self, X, k):
        """positive k-th root of positive X"""
        cx = self.cx
        X = cx.normal(X)
        r = cx.root_mono(X, k)
        if r is not None:
            if self.truth('>', r):
                return r
            return cx.neg(r)
        if k == 2:
            return self.lift(self.fsqrt(X))
        key = ('root', k, X.key())
        r = self.cache.get(key)
        if r is None:
            # y^k = X = c n / D -> y = z / D', z^k = c n D^(k-1) (integers)
            D = ONE
            for i, e in X.d:
                for _ in range(e):
                    D = cx.mulp(D, cx.factors[i])
            cn, cd = X.c.numerator, X.c.denominator
            R = pscale(X.n, cn * cd ** (k - 1))
            for _ in range(k - 1):
                R = cx.mulp(R, D)
            g = cx.new_gen('root%d' % k, 'root', lo=Fraction(0), slo=True,
                           ev=lambda env, R=R, k=k: mp2d(mpmath.root(d2mp(cx.peval(env, R)), k)))
            cx.add_pow_rule(g, k, R)
            r = cx.mul(cx.gen_rf(g), cx.const(Fraction(1, cd)))
            for i, e in X.d:
                for _ in range(e):
                    r = cx.mul(r, cx.inv(RF(Fraction(1), cx.factors[i], ())))
            self.cache[key] = r
        return r

    def fexp(self, a, scale=1, name='exp'):
        if type(a) is float:
            try:
                return math.exp(a * scale) if scale != 1 else math.exp(a)
            except OverflowError:
                return INF
        r = self.exp_scaled(a, mpmath.mpf(scale) if scale != 1 else mpmath.mpf(1))
        if r is not None:
            return r
        sg = self.rf_possible(a)
        lo, hi, slo, shi = Fraction(0), None, True, False
        if sg == frozenset((-1,)):
            hi, shi = Fraction(1), True
        elif sg == frozenset((1,)):
            lo = Fraction(1)
        elif len(sg) == 3:
            try:
                if self.truth('<', a):
                    hi, shi = Fraction(1), True
                else:
                    lo, slo = Fraction(1), False
            except RecursionError:
                pass
        return self.uf(name, (a,), lo, hi, lambda x: mpmath.exp(x * scale), slo, shi)

    def fpow(self, a, b):
        if type(a) is float and type(b) is float:
            try:
                return math.pow(a, b)
            except OverflowError:
                return INF
            except (ValueError, ZeroDivisionError):
                return NAN if a < 0 else INF
        if type(b) is float:
            k = snap_int(Fraction(b)) if abs(b) != INF and b == b else None
            if k is not None and abs(b) < 64:
                if k >= 0:
                    return self.simp(self.cx.powi(a, k))
                return self.fdiv(1.0, self.cx.powi(a, -k))
            q = snap_rat(Fraction(b), 64) if abs(b) < 1000 else None
            if q is not None:
                if not self.truth('>', a):
                    return 0.0 if self.truth('==', a) else NAN
                r = self.root(a, q.denominator)
                if q.numerator < 0:
                    return self.simp(self.cx.inv(self.cx.powi(r, -q.numerator)))
                return self.simp(self.cx.powi(r, q.numerator))
            raise Undecided('symbolic pow')
        if type(a) is float and a > 0:
            if a == 1.0:
                return 1.0
            return self.fexp_base(a, b)
        raise Undecided('symbolic pow')

    def fexp_base(self, base, b):
        ln = mpmath.log(mpmath.mpf(base))
        r = self.exp_scaled(b, ln)
        if r is not None:
            return r
        return self.uf('pow%g' % base, (b,), 0, None, lambda x: mpmath.power(base, x), True, False)

    def fsinh(self, a):
        if type(a) is float:
            try:
                return math.sinh(a)
            except OverflowError:
                return math.copysign(INF, a)
        e = self.exp_scaled(a, mpmath.mpf(1))
        if e is None:
            lo = hi = None
            poss = self.rf_possible(a)
            if poss == frozenset((1,)):
                return self.uf('sinh', (a,), 0, None, lambda x: mpmath.sinh(x), True)
            if 0 in poss or -1 in poss:
                s = self.sign3(a)
                if s == 0:
                    return 0.0
                if s > 0:
                    return self.uf('sinh', (a,), 0, None, lambda x: mpmath.sinh(x), True)
                return self.fneg(self.uf('sinh', (self.fneg(a),), 0, None, lambda x: mpmath.sinh(x), True))
            return self.uf('sinh', (a,), None, None, lambda x: mpmath.sinh(x))
        e = self.lift(e)
        return self.simp(self.cx.mul(self.cx.const(Fraction(1, 2)), self.cx.sub(e, self.cx.inv(e))))

    def fcosh(self, a):
        if type(a) is float:
            try:
                return math.cosh(a)
            except OverflowError:
                return INF
        e = self.exp_scaled(a, mpmath.mpf(1))
        if e is None:
            return self.uf('cosh', (a,), 1, None, lambda x: mpmath.cosh(x))
        e = self.lift(e)
        return self.simp(self.cx.mul(self.cx.const(Fraction(1, 2)), self.cx.add(e, self.cx.inv(e))))

    def uf(self, name, args, lo, hi, fn, slo=False, shi=False):
        cx = self.cx
        args = tuple(cx.normal(self.lift(a)) for a in args)
        key = ('uf', name) + tuple(a.key() for a in args)
        r = self.cache.get(key)
        if r is None:
            g = cx.new_gen(name, 'uf', lo=None if lo is None else Fraction(lo), hi=None if hi is None else Fraction(hi),
                           slo=slo, shi=shi,
                           ev=lambda env, args=args: mp2d(mpmath.mpf(fn(*[d2mp(cx.eval(env, a)) for a in args]))),
                           info={'args': args})
            r = self.cache[key] = cx.gen_rf(g)
        return r

    def muldc3(self, a, b, c, d):
        return (self.fsub(self.fmul(a, c), self.fmul(b, d)), self.fadd(self.fmul(a, d), self.fmul(b, c)))

    def divdc3(self, a, b, c, d):
        if all(type(x) is float for x in (a, b, c, d)):
            return divdc3_ieee(a, b, c, d)
        if type(d) is float and d == 0.0:
            return self.fdiv(a, c), self.fdiv(b, c)
        for x in (a, b, c, d):
            if type(x) is float and (x != x or abs(x) == INF):
                raise Undecided('complex division with non-finite symbolic operand')
        den = self.fadd(self.fmul(c, c), self.fmul(d, d))
        re = self.fadd(self.fmul(a, c), self.fmul(b, d))
        im = self.fsub(self.fmul(b, c), self.fmul(a, d))
        return self.fdiv(re, den), self.fdiv(im, den)

    def failed(self):
        """an obligation fails on the whole path: needs a point of the path"""
        if not self.samples and self.params:
            r = self.witness()
            if r is False:
                raise Infeasible()
            if r is None:
                return 'unknown', 'no point of the path known'
        return 'fail', self.samples[0] if self.samples else {}

    # ---------- obligations
    def check_rel(self, d, rel):
        """obligation d rel 0 on this path: ('ok', how) / ('fail', env) / ('unknown', why)"""
        d = self.cx.normal(d)
        c = d.const()
        if c is not None:
            ok = {'>': c > 0, '>=': c >= 0, '==': c == 0}[rel]
            return ('ok', 'const') if ok else self.failed()
        conv = self.convert_linear(d)
        if conv is not None:
            d = self.cx.normal(conv)
            c = d.const()
            if c is not None:
                ok = {'>': c > 0, '>=': c >= 0, '==': c == 0}[rel]
                return ('ok', 'const') if ok else self.failed()
        poss = self.rf_possible(d)
        want = {'==': frozenset((0,)), '>': frozenset((1,)), '>=': frozenset((0, 1))}[rel]
        if poss <= want:
            return 'ok', 'signs'
        p = self.numer_poly(d)
        for e in self.samples:
            v = self.cx.eval(e, d)
            bad = (v < 0 and abs(v) > Decimal('1e-40')) or (rel == '>' and v <= 0) or (rel == '==' and abs(v) > Decimal('1e-40'))
            if bad:
                return 'fail', e
        n0 = self.stats.z3_calls
        r = self.prove_rel(p, rel, 20000)
        how = 'z3' if self.stats.z3_calls > n0 else 'signs'
        if r is True:
            return 'ok', how
        if r is False:
            return 'fail', getattr(self, 'last_model', None)
        return 'unknown', 'solver gave no answer (%d terms)' % len(p)

    def check_eq(self, a, b, tol, one=1):
        """|a-b| <= tol obligation; a,b floats or RF. exact identity first, then coefficient-wise
        relative closeness (1e-11), then the two inequalities"""
        for x in (a, b):
            if type(x) is float and (x != x or abs(x) == INF):
                same = (a == b) or (type(a) is float and type(b) is float and a != a and b != b)
                return ('ok', 'const') if same else self.failed()
        cx = self.cx
        A, Bq = cx.normal(self.lift(a)), cx.normal(self.lift(b))
        d = cx.sub(A, Bq)
        if d.is_zero():
            self.stats.zero += 1
            return 'ok', 'identity'
        c = d.const()
        if c is not None:
            lim = Fraction(tol) if tol else Fraction(1, 10 ** 10) * max(1, abs(A.const() or 1))
            return ('ok', 'const') if abs(c) <= lim else self.failed()
        if not tol:
            # coefficient-wise closeness
            n1 = sum(abs(v) for v in d.n.values()) * abs(d.c)
            if self.coef_close(A, Bq):
                return 'ok', 'coefficients'
            if any(r == '=' for _, r in self.cons):
                n0 = self.stats.z3_calls
                if self.ask(self.numer_poly(d), '!=', 4000) is True:
                    return 'ok', 'z3'
            for e in self.samples:
                va, vb = cx.eval(e, A), cx.eval(e, Bq)
                if abs(va - vb) > Decimal('1e-9') * (one + abs(va) + abs(vb)):
                    return 'fail', e
            e = self.differ(d, A, Bq, one)
            if e is not None:
                return 'fail', e
            return 'unknown', 'not identical'
        t = cx.const(Fraction(tol))
        r1 = self.check_rel(cx.sub(t, d), '>=')
        if r1[0] != 'ok':
            return r1
        r2 = self.check_rel(cx.add(t, d), '>=')
        if r2[0] != 'ok':
            return r2
        return 'ok', r1[1] if r1[1] == r2[1] else 'z3'

    def differ(self, d, A, B, one):
        """a point of the path where two expressions that are not identical differ visibly: a solver model
        of the path with d != 0, then points near the known ones"""
        cx = self.cx
        cand = []
        if not self.samples:
            self.witness()
        if self.samples:
            rng = random.Random(len(self.cons) + 7)
            for k in range(12):
                base = {i: v for i, v in self.samples[k % len(self.samples)].items() if isinstance(i, int) and cx.gens[i].ev is None}
                for i in list(base):
                    g = cx.gens[i]
                    if g.kind != 'param':
                        continue
                    if g.lo is not None and g.hi is not None:
                        f = g.lo + (g.hi - g.lo) * Fraction(rng.randint(1, 99), 100)
                        base[i] = Decimal(f.numerator) / Decimal(f.denominator)
                    elif k >= 4:
                        base[i] *= Decimal(rng.randint(50, 150)) / 100
                cand.append(base)
        self.last_model = None
        for stage in (0, 1):
            for e in cand:
                try:
                    if not self.sat_all(e):
                        continue
                    va, vb = cx.eval(e, A), cx.eval(e, B)
                except Exception:
                    continue
                if abs(va - vb) > Decimal('1e-9') * (one + abs(va) + abs(vb)):
                    return e
            if stage == 0:
                cand = []
                if self.ask(self.numer_poly(d), '!=', 4000) is False and self.last_model is not None:
                    cand = [self.last_model]
        return None

    def coef_close(self, a, b, rel=Fraction(1, 10 ** 11)):
        cx = self.cx
        da, db = dict(a.d), dict(b.d)
        na, nb = pscale(a.n, 1), b.n
        for i in set(da) | set(db):
            e = max(da.get(i, 0), db.get(i, 0))
            for _ in range(e - da.get(i, 0)):
                na = cx.mulp(na, cx.factors[i])
            for _ in range(e - db.get(i, 0)):
                nb = cx.mulp(nb, cx.factors[i])
        tiny = Fraction(1, 10 ** 13) * max([abs(a.c * v) for v in na.values()] or [0])
        for m in set(na) | set(nb):
            x = a.c * na.get(m, 0)
            y = b.c * nb.get(m, 0)
            if abs(x - y) > rel * (abs(x) + abs(y)) + tiny:
                return False
        return True


def snap0(v, a):
    # libm value of a function whose exact value at the intended multiple of pi is 0
    if abs(v) < 4e-15 and abs(a) > 0.5:
        return 0.0
    return v


def divdc3_ieee(a, b, c, d):
    try:
        z = complex(a, b) / complex(c, d)
        if z.real == z.real and z.imag == z.imag:
            return z.real, z.imag
    except (ZeroDivisionError, OverflowError):
        pass
    # C99 Annex G recovery
    den = c * c + d * d
    x = fdiv_ieee(a * c + b * d, den)
    y = fdiv_ieee(b * c - a * d, den)
    if x != x and y != y:
        if den == 0.0 and (a == a or b == b):
            x = math.copysign(INF, c) * a
            y = math.copysign(INF, c) * b
        elif (abs(a) == INF or abs(b) == INF) and abs(c) != INF and abs(d) != INF and c == c and d == d:
            a = math.copysign(1.0 if abs(a) == INF else 0.0, a)
            b = math.copysign(1.0 if abs(b) == INF else 0.0, b)
            x = INF * (a * c + b * d)
            y = INF * (b * c - a * d)
        elif (abs(c) == INF or abs(d) == INF) and abs(a) != INF and abs(b) != INF and a == a and b == b:
            c = math.copysign(1.0 if abs(c) == INF else 0.0, c)
            d = math.copysign(1.0 if abs(d) == INF else 0.0, d)
            x = 0.0 * (a * c + b * d)
            y = 0.0 * (b * c - a * d)
    return x, y

"""Exact rational functions over algebraic/transcendental generators.

RF = c * n / prod(factor_i ** e_i)
  c: Fraction, n: primitive integer polynomial (leading coefficient > 0),
  factors: interned primitive polynomials.  Rewriting rules (g^k -> poly,
  vr*vi -> poly) keep numerators in normal form modulo the algebraic
  relations of the generators, so a value is the zero function iff n == {}.
"""
from fractions import Fraction
from math import gcd, isqrt
from decimal import Decimal, getcontext
from .poly import (B, MASK, mono, mexp, mvars, mdivides, padd, pscale, pmul, pcontent,
                   pvars, pdegs, pmonocontent, pdiv_exact, psqrt)

getcontext().prec = 70
getcontext().Emax = 10 ** 9
getcontext().Emin = -10 ** 9


class Budget(Exception):
    """expression or time budget exceeded: the case is undecided"""


class Gen:
    __slots__ = ('idx', 'name', 'kind', 'lo', 'hi', 'slo', 'shi', 'ev', 'info')

    def __init__(self, idx, name, kind, lo=None, hi=None, slo=False, shi=False, ev=None, info=None):
        self.idx = idx
        self.name = name
        self.kind = kind
        self.lo = lo
        self.hi = hi
        self.slo = slo      # strict lower bound
        self.shi = shi
        self.ev = ev        # ev(env) -> Decimal  (env: sample)
        self.info = info


class RF:
    __slots__ = ('c', 'n', 'd', '_k')

    def __init__(self, c, n, d):
        self.c = c
        self.n = n
        self.d = d
        self._k = None

    def is_zero(self):
        return not self.n

    def const(self):
        """Fraction if constant else None"""
        if not self.n:
            return Fraction(0)
        if len(self.n) == 1 and 0 in self.n and not self.d:
            return self.c
        return None

    def key(self):
        if self._k is None:
            self._k = (self.c, frozenset(self.n.items()), self.d)
        return self._k


ONE = {0: 1}


class Ctx:
    MAXTERMS = 60000

    def __init__(self):
        self.gens = []
        self.byname = {}
        self.factors = []          # id -> poly
        self.factor_ids = {}       # frozenset -> id
        self.pow_rules = {}        # gen idx -> (k, poly)      g^k -> poly
        self.pair_rules = []       # (monomial, poly)
        self.rule_mask = 0         # bits of gens involved in rules
        self.samples = []          # list of env dicts
        self.version = 0

    # ---- generators
    def new_gen(self, name, kind, **kw):
        base = name
        k = 1
        while name in self.byname:
            k += 1
            name = '%s#%d' % (base, k)
        g = Gen(len(self.gens), name, kind, **kw)
        self.gens.append(g)
        self.byname[name] = g
        if len(self.gens) > 400:
            raise Budget('too many generators')
        return g

    def gen_rf(self, g):
        return RF(Fraction(1), {mono(g.idx): 1}, ())

    def const(self, v):
        v = Fraction(v)
        if v == 0:
            return RF(Fraction(1), {}, ())
        return RF(v, ONE, ())

    def add_pow_rule(self, g, k, poly):
        self.pow_rules[g.idx] = (k, poly)
        self.rule_mask |= MASK << (B * g.idx)
        self.version += 1

    def add_pair_rule(self, m, poly):
        self.pair_rules.append((m, poly))
        for i, e in mvars(m):
            self.rule_mask |= MASK << (B * i)
        self.version += 1

    # ---- normal form
    def reduce(self, p):
        rm = self.rule_mask
        if not rm:
            return p
        for m in p:
            if m & rm:
                break
        else:
            return p
        out = {}
        work = dict(p)
        steps = 0
        while work:
            steps += 1
            m, c = work.popitem()
            if m & rm:
                hit = None
                for pm, rhs in self.pair_rules:
                    if m & rm and mdivides(pm, m):
                        hit = (m - pm, rhs)
                        break
                if hit is None:
                    for i, e in mvars(m):
                        r = self.pow_rules.get(i)
                        if r and e >= r[0]:
                            q = e // r[0]
                            if q > 1 and len(r[1]) > 0:
                                # apply once per loop (keeps it simple)
                                q = 1
                            hit = (m - mono(i, r[0]), r[1])
                            break
                if hit is not None:
                    base, rhs = hit
                    for m2, c2 in rhs.items():
                        k = m2 + base
                        v = work.get(k, 0) + c * c2
                        if v:
                            work[k] = v
                        else:
                            work.pop(k, None)
                    if len(work) > self.MAXTERMS:
                        raise Budget('reduction too large')
                    continue
            v = out.get(m, 0) + c
            if v:
                out[m] = v
            else:
                out.pop(m, None)
        return out

    def mulp(self, a, b):
        if len(a) * len(b) > 40 * self.MAXTERMS:
            raise Budget('product too large')
        r = self.reduce(pmul(a, b))
        if len(r) > self.MAXTERMS:
            raise Budget('polynomial too large')
        return r

    # ---- factors
    def intern_factor(self, p):
        k = frozenset(p.items())
        i = self.factor_ids.get(k)
        if i is None:
            i = len(self.factors)
            self.factors.append(p)
            self.factor_ids[k] = i
        return i

    def split_factors(self, n):
        """primitive poly -> dict factor id -> exponent, using known factors"""
        out = {}
        mc = pmonocontent(n)
        if mc:
            n = {m - mc: c for m, c in n.items()}
            for i, e in mvars(mc):
                out[self.intern_factor({mono(i): 1})] = e
        if len(n) == 1 and 0 in n:
            return out
        k = frozenset(n.items())
        if k in self.factor_ids:
            i = self.factor_ids[k]
            out[i] = out.get(i, 0) + 1
            return out
        # try division by known factors (they have at least two terms)
        if not self._has_rules(n):
            for i, f in enumerate(self.factors):
                if len(f) < 2 or self._has_rules(f):
                    continue
                while True:
                    if len(n) == 1 and 0 in n:
                        break
                    q = pdiv_exact(n, f)
                    if q is None:
                        break
                    out[i] = out.get(i, 0) + 1
                    n = q
            if len(n) == 1 and 0 in n:
                return out
            s = psqrt(n) if len(n) > 1 else None
            if s is not None and s:
                for i, e in self.split_factors(s).items():
                    out[i] = out.get(i, 0) + 2 * e
                return out
        i = self.intern_factor(n)
        out[i] = out.get(i, 0) + 1
        return out

    def _has_rules(self, p):
        rm = self.rule_mask
        if rm:
            for m in p:
                if m & rm:
                    return True
        return False

    # ---- arithmetic
    def make(self, c, n, d):
        """normalise: content, sign, cancellation. n integer poly, d dict"""
        if not n:
            return RF(Fraction(1), {}, ())
        g = pcontent(n)
        if n[max(n)] < 0:
            g = -g
        if g != 1:
            n = {m: v // g for m, v in n.items()}
            c = c * g
        if d:
            fs = self.factors
            for i in list(d):
                e = d[i]
                f = fs[i]
                if len(f) == 1:
                    (m, _), = f.items()
                    while e and n:
                        for mm in n:
                            if not mdivides(m, mm):
                                break
                        else:
                            n = {mm - m: v for mm, v in n.items()}
                            e -= 1
                            continue
                        break
                else:
                    while e:
                        if len(n) < 2:
                            break
                        q = pdiv_exact(n, f)
                        if q is None:
                            break
                        n = q
                        e -= 1
                if e:
                    d[i] = e
                else:
                    del d[i]
            d = tuple(sorted(d.items()))
            # primitive poly / primitive poly stays primitive; sign:
            if n[max(n)] < 0:
                n = {m: -v for m, v in n.items()}
                c = -c
        else:
            d = ()
        return RF(c, n, d)

    def normal(self, a):
        """re-apply rules (they may have been added after a was built)"""
        if not self.rule_mask:
            return a
        n = self.reduce(a.n)
        if n is a.n:
            return a
        return self.make(a.c, n, dict(a.d))

    def neg(self, a):
        return RF(-a.c, a.n, a.d)

    def add(self, a, b):
        if not a.n:
            return b
        if not b.n:
            return a
        if a.d == b.d:
            na, nb = a.n, b.n
            d = dict(a.d)
            if a.n is b.n or a.n == b.n:
                c = a.c + b.c
                if c == 0:
                    return RF(Fraction(1), {}, ())
                return RF(c, a.n, a.d)
        else:
            da, db = dict(a.d), dict(b.d)
            d = dict(da)
            na, nb = a.n, b.n
            for i, e in db.items():
                if e > d.get(i, 0):
                    d[i] = e
            for i, e in d.items():
                k = e - da.get(i, 0)
                for _ in range(k):
                    na = self.mulp(na, self.factors[i])
                k = e - db.get(i, 0)
                for _ in range(k):
                    nb = self.mulp(nb, self.factors[i])
        ca, cb = a.c, b.c
        den = ca.denominator * cb.denominator // gcd(ca.denominator, cb.denominator)
        ia = ca.numerator * (den // ca.denominator)
        ib = cb.numerator * (den // cb.denominator)
        g = gcd(ia, ib)
        n = padd(pscale(na, ia // g), pscale(nb, ib // g))
        return self.make(Fraction(g, den), n, d)

    def sub(self, a, b):
        return self.add(a, self.neg(b))

    def mul(self, a, b):
        if not a.n or not b.n:
            return RF(Fraction(1), {}, ())
        ca = a.const()
        if ca is not None:
            return RF(ca * b.c, b.n, b.d)
        cb = b.const()
        if cb is not None:
            return RF(cb * a.c, a.n, a.d)
        an, bn = a.n, b.n
        d = dict(a.d)
        if d or b.d:
            # cross-cancel before multiplying
            t1 = self.make(Fraction(1), bn, d) if d and len(bn) > 1 else None
            if t1 is not None:
                bn = t1.n
                d = dict(t1.d)
                s1 = t1.c
            else:
                s1 = 1
            db = dict(b.d)
            t2 = self.make(Fraction(1), an, db) if db and len(an) > 1 else None
            if t2 is not None:
                an = t2.n
                db = dict(t2.d)
                s2 = t2.c
            else:
                s2 = 1
            for i, e in db.items():
                d[i] = d.get(i, 0) + e
        else:
            s1 = s2 = 1
        n = self.mulp(an, bn)
        return self.make(a.c * b.c * s1 * s2, n, d)

    def inv(self, a):
        if not a.n:
            raise ZeroDivisionError
        n = ONE
        for i, e in a.d:
            for _ in range(e):
                n = self.mulp(n, self.factors[i])
        d = self.split_factors(a.n)
        return self.make(1 / a.c, n, d)

    def div(self, a, b):
        cb = b.const()
        if cb is not None:
            return RF(a.c / cb, a.n, a.d) if a.n else a
        # a / b with b = c n / d :  a * d / (c n)
        r = a
        if b.d:
            n = ONE
            for i, e in b.d:
                for _ in range(e):
                    n = self.mulp(n, self.factors[i])
            g = pcontent(n)
            r = self.mul(a, self.make(Fraction(1), n, {}))
        d = dict(r.d)
        for i, e in self.split_factors(b.n).items():
            d[i] = d.get(i, 0) + e
        return self.make(r.c / b.c, r.n, d)

    def powi(self, a, k):
        if k < 0:
            return self.inv(self.powi(a, -k))
        r = self.const(1)
        base = a
        while k:
            if k & 1:
                r = self.mul(r, base)
            k >>= 1
            if k:
                base = self.mul(base, base)
        return r

    def expand_den(self, a):
        p = ONE
        for i, e in a.d:
            for _ in range(e):
                p = self.mulp(p, self.factors[i])
        return p

    def gens_of(self, a):
        s = set(pvars(a.n))
        for i, e in a.d:
            s.update(pvars(self.factors[i]))
        return s

    # ---- roots
    def factor_square(self, p):
        """p = s^2 * r with s from known structure; returns (s, r) polys"""
        s = ONE
        mc = pmonocontent(p)
        sm = 0
        rm = 0
        for i, e in mvars(mc):
            sm += mono(i, e // 2)
            rm += mono(i, e & 1)
        p2 = {m - mc: c for m, c in p.items()}
        r = psqrt(p2) if not self._has_rules(p2) else None
        if r is not None and r:
            return {m + sm: c for m, c in r.items()}, {rm: 1}
        s = {sm: 1}
        # divide by squares of known factors
        if not self._has_rules(p2):
            for f in self.factors:
                if len(f) < 2:
                    continue
                while True:
                    q = pdiv_exact(p2, f)
                    if q is None:
                        break
                    q2 = pdiv_exact(q, f)
                    if q2 is None:
                        break
                    s = pmul(s, f)
                    p2 = q2
            r = psqrt(p2)
            if r:
                return pmul(s, r), {rm: 1}
        return s, {m + rm: c for m, c in p2.items()}

    def const_sqrt(self, c):
        """Fraction c>0 -> (s, r): c = s^2 * r, r squarefree-ish integer (only perfect squares extracted)"""
        n, d = c.numerator, c.denominator
        sn = isqrt(n)
        sd = isqrt(d)
        if sn * sn == n and sd * sd == d:
            return Fraction(sn, sd), 1
        if sd * sd == d:
            return Fraction(1, sd), n
        # strip powers of 4
        return Fraction(1, d), n * d

    def root_mono(self, a, k):
        """exact k-th root when numerator and denominators are perfect powers (monomials/factors); else None"""
        def rootc(x):
            if x < 0:
                return None
            r = round(x ** (1.0 / k)) if x < 10 ** 300 else None
            if r is None:
                lo, hi = 0, 1 << (x.bit_length() // k + 2)
                while lo < hi:
                    mid = (lo + hi) // 2
                    if mid ** k < x:
                        lo = mid + 1
                    else:
                        hi = mid
                r = lo
            for t in (r - 1, r, r + 1):
                if t >= 0 and t ** k == x:
                    return t
            return None
        cn, cd = rootc(a.c.numerator), rootc(a.c.denominator)
        if cn is None or cd is None:
            return None
        d = {}
        for i, e in a.d:
            if e % k:
                return None
            d[i] = e // k
        if len(a.n) == 1:
            (m, c), = a.n.items()
            mm = 0
            for i, e in mvars(m):
                if e % k:
                    return None
                mm += mono(i, e // k)
            n = {mm: 1}
        elif k == 2:
            n = psqrt(a.n)
            if not n:
                return None
        else:
            fs = self.split_factors(a.n)
            n = ONE
            for i, e in fs.items():
                if e % k:
                    return None
                for _ in range(e // k):
                    n = self.mulp(n, self.factors[i])
        return self.make(Fraction(cn, cd), dict(n), d)

    # ---- numeric evaluation on a sample (env: gen idx -> Decimal)
    def geval(self, env, i):
        v = env.get(i)
        if v is None:
            g = self.gens[i]
            v = g.ev(env)
            env[i] = v
        return v

    def peval(self, env, p):
        cache = env.setdefault('pow', {})
        tot = Decimal(0)
        for m, c in p.items():
            t = Decimal(c)
            i = 0
            while m:
                e = m & MASK
                if e:
                    k = (i, e)
                    v = cache.get(k)
                    if v is None:
                        v = cache[k] = self.geval(env, i) ** e
                    t *= v
                m >>= B
                i += 1
            tot += t
        return tot

    def feval(self, env, i):
        cache = env.setdefault('fac', {})
        v = cache.get(i)
        if v is None:
            v = cache[i] = self.peval(env, self.factors[i])
        return v

    def eval(self, env, a):
        v = self.peval(env, a.n)
        v = v * Decimal(a.c.numerator) / Decimal(a.c.denominator)
        for i, e in a.d:
            v /= self.feval(env, i) ** e
        return v

    # ---- printing
    def pstr(self, p, limit=12):
        out = []
        for m in sorted(p, reverse=True)[:limit]:
            ms = '*'.join('%s^%d' % (self.gens[i].name, e) if e > 1 else self.gens[i].name for i, e in mvars(m))
            c = p[m]
            cs = str(c) if abs(c) < 10 ** 12 else '%.4e' % Decimal(c)
            out.append(cs + ('*' + ms if ms else ''))
        return ' + '.join(out) + (' + ...(%d terms)' % len(p) if len(p) > limit else '')

    def rstr(self, a):
        s = '(%s)' % self.pstr(a.n)
        if a.c != 1:
            s = '%.6g*' % float(a.c) + s
        for i, e in a.d:
            s += ' / (%s)^%d' % (self.pstr(self.factors[i], 6), e)
        return s

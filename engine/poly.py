"""Exact multivariate polynomials and rational functions over Q.

Poly: dict {packed monomial: int}.  A monomial packs exponents in 16-bit fields,
field i belonging to variable number i of the global Vars table.
RF:   content * num / prod(factor_i ** e_i); num primitive, factors interned.
Rewriting rules (algebraic generators) are kept in the Ctx and applied after
every multiplication, so num is always in normal form with respect to them.
"""
from fractions import Fraction
from math import gcd, isqrt

B = 16
MASK = (1 << B) - 1


def mono(i, e=1):
    return e << (B * i)


def mexp(m, i):
    return (m >> (B * i)) & MASK


def mvars(m):
    i = 0
    out = []
    while m:
        e = m & MASK
        if e:
            out.append((i, e))
        m >>= B
        i += 1
    return out


def mdivides(a, b):
    """a | b (component-wise a <= b)"""
    while a:
        if (a & MASK) > (b & MASK):
            return False
        a >>= B
        b >>= B
    return True


def mmin(a, b):
    r = 0
    s = 0
    while a and b:
        x = a & MASK
        y = b & MASK
        r |= (x if x < y else y) << s
        a >>= B
        b >>= B
        s += B
    return r


def mtotal(m):
    t = 0
    while m:
        t += m & MASK
        m >>= B
    return t


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            del r[m]
    return r


def pscale(a, k):
    if k == 1:
        return a
    if k == 0:
        return {}
    return {m: c * k for m, c in a.items()}


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1:
        (m, c), = a.items()
        return {m2 + m: c2 * c for m2, c2 in b.items()}
    if len(b) == 1:
        return pmul(b, a)
    r = {}
    get = r.get
    for m, c in a.items():
        for m2, c2 in b.items():
            k = m + m2
            r[k] = get(k, 0) + c * c2
    return {m: c for m, c in r.items() if c}


def pcontent(a):
    g = 0
    for c in a.values():
        g = gcd(g, c)
        if g == 1:
            return 1
    return g


def pvars(a):
    u = 0
    for m in a:
        u |= m
    out = []
    i = 0
    while u:
        if u & MASK:
            out.append(i)
        u >>= B
        i += 1
    return out


def pdegs(a):
    d = {}
    for m in a:
        for i, e in mvars(m):
            if e > d.get(i, 0):
                d[i] = e
    return d


def pmonocontent(a):
    it = iter(a)
    g = next(it)
    for m in it:
        g = mmin(g, m)
        if not g:
            return 0
    return g


def pdiv_exact(a, b):
    """a / b if b | a over Z, else None."""
    if not a:
        return {}
    lb = max(b)
    mb = min(b)
    cb = b[lb]
    # quick necessary tests
    la = max(a)
    ma = min(a)
    if a[la] % cb or a[ma] % b[mb]:
        return None
    if not mdivides(lb, la) or not mdivides(mb, ma):
        return None
    da = pdegs(a)
    for i, e in pdegs(b).items():
        if da.get(i, 0) < e:
            return None
    r = dict(a)
    q = {}
    import heapq
    heap = [-m for m in r]
    heapq.heapify(heap)
    items = [(m, c) for m, c in b.items() if m != lb]
    while r:
        while True:
            m = -heap[0]
            if m in r:
                break
            heapq.heappop(heap)
        c = r[m]
        if c % cb or not mdivides(lb, m):
            return None
        k = c // cb
        d = m - lb
        q[d] = k
        del r[m]
        heapq.heappop(heap)
        for m2, c2 in items:
            t = m2 + d
            v = r.get(t)
            if v is None:
                r[t] = -k * c2
                heapq.heappush(heap, -t)
            else:
                v -= k * c2
                if v:
                    r[t] = v
                else:
                    del r[t]
    return q


def psqrt(a):
    """Polynomial square root if a is a perfect square (leading coeff positive), else None."""
    if not a:
        return {}
    la = max(a)
    c = a[la]
    if c < 0:
        return None
    s = isqrt(c)
    if s * s != c:
        return None
    ma = min(a)
    if a[ma] < 0 or isqrt(a[ma]) ** 2 != a[ma]:
        return None
    for i, e in mvars(la):
        if e & 1:
            return None
    for i, e in mvars(ma):
        if e & 1:
            return None
    if len(a) == 1:
        return {la // 2: s} if all(True for _ in ()) or True else None
    lr = 0
    for i, e in mvars(la):
        lr += mono(i, e // 2)
    root = {lr: s}
    rem = padd(a, {la: -c})
    for _ in range(len(a) + 2):
        if not rem:
            return root
        m = max(rem)
        if not mdivides(lr, m):
            return None
        d = m - lr
        if d >= lr:
            return None
        k, r0 = divmod(rem[m], 2 * s)
        if r0:
            return None
        # rem -= 2*k*x^d*root + k^2 x^2d
        t = {mm + d: -2 * k * cc for mm, cc in root.items()}
        rem = padd(rem, t)
        rem = padd(rem, {2 * d: -k * k})
        root[d] = k
    return None if rem else root

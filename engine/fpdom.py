"""IEEE-754 value domain: symbolic doubles are hash-consed terms over binary64
operations.  Comparisons are decided by z3's floating-point theory on an
abstraction in which every operation result is an unconstrained double apart from
exact sign/NaN facts (sound for 'holds' verdicts); arithmetic can be made bit-exact
when a model is wanted."""
import math
import re
import random
import struct
import time
import z3
from .real import Stats, fdiv_ieee, divdc3_ieee, NAN, INF, Infeasible, Undecided

F64 = z3.Float64()
RNE = z3.RNE()


class T:
    __slots__ = ('id', 'op', 'args')

    def __init__(self, id, op, args):
        self.id = id
        self.op = op
        self.args = args


class Bits:
    """condition on the bit patterns of terms"""
    __slots__ = ('c', 'terms')

    def __init__(self, c, terms):
        self.c = c
        self.terms = terms


def dbl(b):
    return struct.unpack('<d', struct.pack('<Q', b))[0]


def f2z(v):
    if v != v:
        return z3.fpNaN(F64)
    if v in (INF, -INF):
        return z3.fpPlusInfinity(F64) if v > 0 else z3.fpMinusInfinity(F64)
    return z3.FPVal(v, F64)


SPECIALS = [0.0, -0.0, 1.0, -1.0, NAN, INF, -INF, 0.5, 0.25, 5e-324, 1e-320, -1e-320, 1e308, -1e308, 1e-5, 0.499999, 0.7, 3.0, -3.0]


class FPDomain:
    name = 'F'

    def __init__(self, path, seed=1, nsamples=24, nan_free=True, stats=None):
        self.path = path
        self.stats = stats or Stats()
        self.rng = random.Random(seed)
        self.tab = {}
        self.terms = []
        self.nan_free = nan_free
        self.nan_assumed = 0
        self.samples = [dict() for _ in range(nsamples)]
        self.params = []
        self.atoms = {}
        self.zs = None
        self.zt = {}
        self.uncertain = False
        self.deadline = None
        self.precise = False
        self.path_atoms = []
        self.model_ms = 3000
        self.refutes = 0

    # ---- terms
    def mk(self, op, *args):
        k = (op,) + tuple(a.id if isinstance(a, T) else self.fkey(a) for a in args)
        t = self.tab.get(k)
        if t is None:
            t = self.tab[k] = T(len(self.terms), op, args)
            self.terms.append(t)
        return t

    @staticmethod
    def fkey(a):
        if type(a) is float:
            return ('f', struct.pack('<d', a) if a == a else b'nan')
        return ('o', a)

    def param(self, name, kind, lo, hi, slo, shi, gen):
        t = self.mk('param', name)
        for k, e in enumerate(self.samples):
            e[t.id] = gen(k)
        self.params.append((name, kind, lambda env, i=t.id: env[i]))
        if lo is not None:
            self.assume_atom(('lt' if slo else 'le', lo, t))
        if hi is not None:
            self.assume_atom(('lt' if shi else 'le', t, hi))
        return t

    def real(self, name, lo=None, hi=None, slo=False, shi=False):
        r = self.rng
        lo = None if lo is None or lo == -INF else float(lo)
        hi = None if hi is None or hi == INF else float(hi)

        def gen(k):
            if lo is None and hi is None:
                if k % 3 == 0:
                    return r.choice(SPECIALS)
                return r.choice([-1, 1]) * 10 ** r.uniform(-3, 2)
            a = lo if lo is not None else hi - 10 ** r.uniform(-2, 2)
            b = hi if hi is not None else lo + 10 ** r.uniform(-2, 2)
            return a + (b - a) * r.uniform(0.001, 0.999)
        return self.param(name, 'real', lo, hi, slo, shi, gen)

    def freq(self, name, div=1, lo=0, hi=0.5, slo=True, shi=True):
        return self.real(name, float(lo), float(hi), True, True)

    def logp(self, name, den, lo=None, hi=None):
        return self.real(name, lo, hi)

    # ---- arithmetic
    def fneg(self, a):
        if type(a) is float:
            return -a
        if a.op == 'neg':
            return a.args[0]
        if a.op in ('mul', 'div'):
            x, y = a.args
            if type(y) is float:
                return self.mk(a.op, x, -y)
        return self.mk('neg', a)

    def fadd(self, a, b):
        if type(a) is float and type(b) is float:
            return a + b
        if type(a) is float and a != a or type(b) is float and b != b:
            return NAN
        # x + (-0.0) = x exactly
        if type(b) is float and b == 0.0 and math.copysign(1, b) < 0:
            return a
        if type(a) is float and a == 0.0 and math.copysign(1, a) < 0:
            return b
        a, b = self.order(a, b)
        return self.mk('add', a, b)

    def order(self, a, b):
        """commutative operations: terms by id, constants last"""
        if type(a) is float:
            return b, a
        if type(b) is float:
            return a, b
        return (a, b) if a.id <= b.id else (b, a)

    def fsub(self, a, b):
        return self.fadd(a, self.fneg(b))

    def fmul(self, a, b):
        if type(a) is float and type(b) is float:
            return a * b
        if type(a) is float and a != a or type(b) is float and b != b:
            return NAN
        a, b = self.order(a, b)
        if type(b) is float:
            if b == 1.0:
                return a
            if b == -1.0:
                return self.fneg(a)
            if isinstance(a, T) and a.op == 'neg':
                return self.fmul(a.args[0], -b)
            return self.mk('mul', a, b)
        s = False
        if a.op == 'neg':
            a = a.args[0]
            s = not s
        if b.op == 'neg':
            b = b.args[0]
            s = not s
        a, b = self.order(a, b)
        r = self.mk('mul', a, b)
        return self.fneg(r) if s else r

    def fdiv(self, a, b):
        if type(a) is float and type(b) is float:
            return fdiv_ieee(a, b)
        if type(b) is float:
            if b == 1.0:
                return a
            if b == -1.0:
                return self.fneg(a)
            # division by a power of two is an exact multiplication (barring subnormal constants)
            m, e = math.frexp(abs(b)) if b == b and abs(b) != INF and b != 0 else (0, 0)
            if m == 0.5 and abs(e) < 1000:
                return self.fmul(a, 1.0 / b)
        s = False
        if isinstance(a, T) and a.op == 'neg':
            a = a.args[0]
            s = not s
        if isinstance(b, T) and b.op == 'neg':
            b = b.args[0]
            s = not s
        if type(a) is float and isinstance(b, T) and s:
            a, s = -a, False
        if type(b) is float and isinstance(a, T) and s:
            b, s = -b, False
        r = self.mk('div', a, b)
        return self.fneg(r) if s else r

    def frem(self, a, b):
        return self.un('fmod', a, b)

    def un(self, op, *args):
        if all(type(a) is float for a in args):
            return evalop(op, args)
        return self.mk(op, *args)

    def sitofp(self, i):
        t = self.mk('int', i.name)
        for e in self.samples:
            if t.id not in e:
                e[t.id] = float(i.sample(e, self.rng))
        return t

    def fptrunc(self, a):
        if isinstance(a, T) and a.op == 'f32':
            return a
        return self.un('f32', a)

    def fpext(self, a):
        return a

    def fabs(self, a):
        if isinstance(a, T) and a.op in ('neg', 'abs'):
            return self.fabs(a.args[0])
        return self.un('abs', a)

    def fsqrt(self, a):
        return self.un('sqrt', a)

    def fcos(self, a):
        return self.un('cos', a)

    def fsin(self, a):
        return self.un('sin', a)

    def ftan(self, a):
        return self.un('tan', a)

    def fatan(self, a):
        return self.un('atan', a)

    def fasin(self, a):
        return self.un('asin', a)

    def fatan2(self, a, b):
        return self.un('atan2', a, b)

    def fexp(self, a):
        return self.un('exp', a)

    def flog(self, a):
        return self.un('log', a)

    def fsinh(self, a):
        return self.un('sinh', a)

    def fcosh(self, a):
        return self.un('cosh', a)

    def fpow(self, a, b):
        return self.un('pow', a, b)

    def cabs(self, a, b):
        return self.un('hypot', a, b)

    def csqrt(self, a, b):
        if type(a) is float and type(b) is float:
            from .real import RealDomain
            return RealDomain.csqrt(self, a, b)
        return self.mk('csqrt_re', a, b), self.mk('csqrt_im', a, b)

    def muldc3(self, a, b, c, d):
        return self.un('muldc3_re', a, b, c, d), self.un('muldc3_im', a, b, c, d)

    def divdc3(self, a, b, c, d):
        if all(type(x) is float for x in (a, b, c, d)):
            return divdc3_ieee(a, b, c, d)
        if type(d) is float and d == 0.0 and type(c) is float and c != 0.0 and abs(c) != INF:
            return self.fdiv(a, c), self.fdiv(b, c)
        return self.mk('divdc3_re', a, b, c, d), self.mk('divdc3_im', a, b, c, d)

    # ---- comparisons
    def fcmp(self, pred, a, b):
        if type(a) is float and type(b) is float:
            from .real import RealDomain
            return RealDomain.fcmp(self, pred, a, b)
        if pred == 'uno':
            return self.nan(a) or self.nan(b)
        if pred == 'ord':
            return not (self.nan(a) or self.nan(b))
        if pred == 'oeq':
            return self.atom('eq', a, b)
        if pred == 'une':
            return not self.atom('eq', a, b)
        if pred == 'one':
            return not self.atom('eq', a, b) and not self.nan(a) and not self.nan(b)
        if pred == 'ueq':
            return self.atom('eq', a, b) or self.nan(a) or self.nan(b)
        return {'olt': lambda: self.atom('lt', a, b), 'ogt': lambda: self.atom('lt', b, a),
                'ole': lambda: self.atom('le', a, b), 'oge': lambda: self.atom('le', b, a),
                'ult': lambda: not self.atom('le', b, a), 'ugt': lambda: not self.atom('le', a, b),
                'ule': lambda: not self.atom('lt', b, a), 'uge': lambda: not self.atom('lt', a, b)}[pred]()

    def nan(self, a):
        if type(a) is float:
            return a != a
        return self.atom('nan', a, None)

    def isinf(self, a):
        return self.atom('eq', self.fabs(a), INF)

    def atom(self, op, a, b):
        if op == 'eq':
            if isinstance(a, T) and isinstance(b, T):
                if a is b:
                    return not self.nan(a)
                if a.id > b.id:
                    a, b = b, a
            elif type(a) is float:
                a, b = b, a
            if type(b) is float and b != b:
                return False
        if op in ('lt', 'le'):
            if a is b and isinstance(a, T):
                return False if op == 'lt' else not self.nan(a)
            if type(a) is float and a != a or type(b) is float and b != b:
                return False
        if op == 'bits':
            key = ('bits', a.c.sexpr())
            v = self.atoms.get(key)
            if v is not None:
                return v
            return self.atom2(key, op, a, b)
        if op == 'nan' and self.nan_free and a.op not in ('param',):
            self.nan_assumed += 1
            return False
        if self.nan_free and op == 'eq' and type(b) is float and abs(b) == INF and isinstance(a, T) and a.op != 'param':
            self.nan_assumed += 1
            return False
        key = (op, a.id if isinstance(a, T) else self.fkey(a), b.id if isinstance(b, T) else self.fkey(b))
        v = self.atoms.get(key)
        if v is not None:
            return v
        return self.atom2(key, op, a, b)

    def atom2(self, key, op, a, b):
        # samples
        sT = sF = False
        for e in self.samples:
            if self.aeval(e, op, a, b):
                sT = True
            else:
                sF = True
            if sT and sF:
                break
        z = self.zatom(op, a, b)
        if not (sT and sF):
            s = self.solver()
            if not sT:
                if self.zcheck(s, z) == z3.unsat:
                    self.set_atom(key, False, z, op, a, b)
                    return False
            if not sF:
                if self.zcheck(s, z3.Not(z)) == z3.unsat:
                    self.set_atom(key, True, z, op, a, b)
                    return True
        v = self.path.choose_bool('%s' % (key,), sT or not sF)
        self.set_atom(key, v, z, op, a, b)
        s = self.samples
        self.samples = [e for e in s if bool(self.aeval(e, op, a, b)) == v]
        if not self.samples:
            self.uncertain = True
            if self.model_ms:
                self.find_model(self.model_ms)
        return v

    # ---- bit patterns
    def bits(self, t):
        """the 64 bits of a term (any NaN pattern for a NaN)"""
        if type(t) is float:
            return z3.BitVecVal(struct.unpack('<Q', struct.pack('<d', t))[0], 64)
        n = ('bits', t.id)
        v = self.zt.get(n)
        if v is None:
            v = self.zt[n] = z3.BitVec('bits%d' % t.id, 64)
            self.solver().add(z3.fpBVToFP(v, F64) == self.z(t))
        return v

    def batom(self, c, terms):
        """decides a condition on bit patterns"""
        ts = {}
        for t in terms:
            if isinstance(t, T):
                ts[t.id] = t
        return self.atom('bits', Bits(c, tuple(ts.values())), None)

    def assume_atom(self, at):
        op, a, b = at
        key = (op, a.id if isinstance(a, T) else self.fkey(a), b.id if isinstance(b, T) else self.fkey(b))
        self.set_atom(key, True, self.zatom(op, a, b), op, a, b)

    def set_atom(self, key, v, z, op, a, b):
        self.atoms[key] = v
        self.path_atoms.append((v, op, a, b))
        self.solver().add(z if v else z3.Not(z))

    def solver(self):
        if self.zs is None:
            self.zs = z3.SolverFor('QF_FP')
        return self.zs

    def zcheck(self, s, extra, ms=4000):
        t0 = time.time()
        s.set('timeout', ms)
        s.push()
        if extra is not None:
            s.add(extra)
        r = s.check()
        s.pop()
        self.stats.z3_calls += 1
        self.stats.z3_time += time.time() - t0
        if r == z3.unknown:
            self.stats.z3_unknown += 1
        return r

    def zatom(self, op, a, b):
        if op == 'bits':
            for t in a.terms:
                self.bits(t)
            return a.c
        x = self.z(a)
        if op == 'nan':
            return z3.fpIsNaN(x)
        y = self.z(b)
        if op == 'lt':
            return z3.fpLT(x, y)
        if op == 'le':
            return z3.fpLEQ(x, y)
        return z3.fpEQ(x, y)

    def z(self, a):
        """z3 constant for a term, with exact facts for cheap operations and NaN propagation"""
        if type(a) is float:
            return f2z(a)
        v = self.zt.get(a.id)
        if v is not None:
            return v
        s = self.solver()
        op = a.op
        if op == 'neg':
            v = self.zt[a.id] = z3.fpNeg(self.z(a.args[0]))
            return v
        if op == 'abs':
            v = self.zt[a.id] = z3.fpAbs(self.z(a.args[0]))
            return v
        v = self.zt[a.id] = z3.FP('t%d' % a.id, F64)
        if op in ('param', 'int'):
            if op == 'int':
                s.add(z3.Not(z3.fpIsNaN(v)), z3.Not(z3.fpIsInf(v)))
            return v
        zs = [self.z(x) for x in a.args]
        if self.precise and op in ('add', 'mul', 'div', 'sqrt'):
            d = {'add': lambda: z3.fpAdd(RNE, zs[0], zs[1]), 'mul': lambda: z3.fpMul(RNE, zs[0], zs[1]),
                 'div': lambda: z3.fpDiv(RNE, zs[0], zs[1]), 'sqrt': lambda: z3.fpSqrt(RNE, zs[0])}[op]()
            s.add(v == d)
            return v
        if op in ('floor', 'ceil', 'trunc', 'round', 'rint'):
            s.add(v == z3.fpRoundToIntegral({'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'round': z3.RNA(), 'rint': RNE}[op], zs[0]))
            return v
        if op in ('add', 'mul', 'div', 'cos', 'sin', 'tan', 'atan', 'exp', 'log', 'sinh', 'cosh', 'sqrt', 'f32'):
            for q in zs:
                s.add(z3.Implies(z3.fpIsNaN(q), z3.fpIsNaN(v)))
        if op in ('cos', 'sin'):
            s.add(z3.Or(z3.fpIsNaN(v), z3.And(z3.fpLEQ(v, f2z(1.0)), z3.fpLEQ(f2z(-1.0), v))))
            s.add(z3.Implies(z3.Not(z3.Or(z3.fpIsNaN(zs[0]), z3.fpIsInf(zs[0]))), z3.Not(z3.fpIsNaN(v))))
        if op in ('exp', 'pow', 'cosh', 'hypot', 'sqrt') and (op != 'pow' or type(a.args[0]) is float and a.args[0] > 0):
            s.add(z3.Or(z3.fpIsNaN(v), z3.fpLEQ(f2z(0.0), v)))
        if op in ('exp', 'atan', 'sinh', 'cosh'):
            s.add(z3.Implies(z3.Not(z3.fpIsNaN(zs[0])), z3.Not(z3.fpIsNaN(v))))
        if op == 'mul':
            s.add(z3.Implies(z3.fpIsNaN(v), z3.Or([z3.fpIsNaN(q) for q in zs] + [z3.And(z3.fpIsInf(zs[0]), z3.fpIsZero(zs[1])),
                                                                                 z3.And(z3.fpIsZero(zs[0]), z3.fpIsInf(zs[1]))])))
        if op == 'add':
            s.add(z3.Implies(z3.fpIsNaN(v), z3.Or([z3.fpIsNaN(q) for q in zs] + [z3.And(z3.fpIsInf(zs[0]), z3.fpIsInf(zs[1]))])))
        if op == 'div':
            s.add(z3.Implies(z3.fpIsNaN(v), z3.Or([z3.fpIsNaN(q) for q in zs] + [z3.And(z3.fpIsInf(zs[0]), z3.fpIsInf(zs[1])),
                                                                                 z3.And(z3.fpIsZero(zs[0]), z3.fpIsZero(zs[1]))])))
            # the sign of a finite quotient
            fin = z3.Not(z3.fpIsNaN(v))
            s.add(z3.Implies(z3.And(fin, z3.fpGT(zs[0], f2z(0.0)), z3.fpGT(zs[1], f2z(0.0))), z3.fpGEQ(v, f2z(0.0))))
        return v

    def find_model(self, ms):
        """a parameter assignment for the current path; bit-exact arithmetic first"""
        base = None
        if self.local_search(None, 60):
            return True
        for precise in (True, False):
            sub = FPDomain(self.path, nan_free=False, nsamples=0)
            sub.precise = precise
            sub.terms, sub.tab = self.terms, self.tab
            s = sub.solver()
            n0 = len(self.path_atoms)
            for v, op, a, b in self.path_atoms:
                z = sub.zatom(op, a, b)
                s.add(z if v else z3.Not(z))
            t0 = time.time()
            s.set('timeout', ms)
            r = s.check()
            self.stats.z3_calls += 1
            self.stats.z3_time += time.time() - t0
            if r == z3.unsat:
                if precise:
                    # infeasible with exact arithmetic (functions unconstrained)
                    raise Infeasible()
            if r == z3.sat:
                m = s.model()
                env = {}
                for t in self.terms:
                    if t.op in ('param', 'int'):
                        zv = sub.zt.get(t.id)
                        val = m.eval(zv, model_completion=True) if zv is not None else None
                        env[t.id] = z2f(val) if val is not None else 0.25
                        zb = sub.zt.get(('bits', t.id))
                        if zb is not None:
                            env[t.id] = dbl(m.eval(zb, model_completion=True).as_long())
                if all(bool(self.aeval(env, op, a, b)) == v for v, op, a, b in self.path_atoms):
                    self.samples = [env]
                    self.uncertain = False
                    return True
                base = env
        return self.local_search(base)

    def local_search(self, base, rounds=400):
        """a witness of the path by changing one parameter at a time"""
        ps = [t for t in self.terms if t.op in ('param', 'int')]
        if not ps:
            return False
        pool = SPECIALS + [dbl(0x7ff8000000000001), dbl(0xfff8000000000000)]
        cur = {t.id: (base or {}).get(t.id, 0.25) for t in ps}

        def misses(e):
            e = dict(e)
            return sum(bool(self.aeval(e, op, a, b)) != v for v, op, a, b in self.path_atoms)
        best = misses(cur)
        for k in range(rounds):
            if best == 0:
                self.samples = [cur]
                self.uncertain = False
                return True
            new = dict(cur)
            for _ in range(1 + k % 3):
                t = self.rng.choice(ps)
                x = self.rng.choice(pool) if self.rng.random() < 0.6 else self.rng.choice([-1, 1]) * 10 ** self.rng.uniform(-3, 2)
                new[t.id] = x if t.op == 'param' else float(int(x)) if x == x and abs(x) < 1e6 else 1.0
            n = misses(new)
            if n <= best:
                cur, best = new, n
        return False

    # ---- numeric evaluation
    def eval(self, env, t):
        if type(t) is float:
            return t
        v = env.get(t.id)
        if v is None:
            # iterative post-order
            stack = [t]
            while stack:
                x = stack[-1]
                if x.id in env:
                    stack.pop()
                    continue
                todo = [a for a in x.args if isinstance(a, T) and a.id not in env]
                if todo:
                    stack.extend(todo)
                    continue
                if x.op in ('param', 'int'):
                    env[x.id] = 0.25
                else:
                    env[x.id] = evalop(x.op, [env[a.id] if isinstance(a, T) else a for a in x.args])
                stack.pop()
            v = env[t.id]
        return v

    def aeval(self, env, op, a, b):
        if op == 'bits':
            sub = [(self.bits(t), z3.BitVecVal(struct.unpack('<Q', struct.pack('<d', self.eval(env, t)))[0], 64)) for t in a.terms]
            return z3.is_true(z3.simplify(z3.substitute(a.c, *sub)))
        x = self.eval(env, a)
        if op == 'nan':
            return x != x
        y = self.eval(env, b)
        return x < y if op == 'lt' else x <= y if op == 'le' else x == y

    # ---- obligations
    def same(self, a, b):
        if a is b:
            return True
        return type(a) is float and type(b) is float and self.fkey(a) == self.fkey(b)

    def check_eq(self, a, b, tol):
        if self.same(a, b):
            self.stats.zero += 1
            return 'ok', 'identical'
        if type(a) is float and type(b) is float:
            if a == b or (a != a and b != b):
                return 'ok', 'const'
        for e in self.samples:
            x, y = self.eval(e, a), self.eval(e, b)
            if x == y or (x != x and y != y):
                continue
            if not abs(x - y) <= max(tol, 1e-9 * (1 + abs(x) + abs(y))):
                return 'fail', e
        z = z3.fpEQ(self.z(a), self.z(b))
        if self.zcheck(self.solver(), z3.Not(z), 5000) == z3.unsat:
            return 'ok', 'z3'
        def bad(e):
            x, y = self.eval(e, a), self.eval(e, b)
            return not (x == y or (x != x and y != y) or abs(x - y) <= max(tol, 1e-9 * (1 + abs(x) + abs(y))))
        e = self.refute(bad)
        if e is not None:
            return 'fail', e
        return 'unknown', 'terms differ'

    def refute(self, bad):
        """a witness of the path on which an obligation that could not be decided fails: a few
        attempts per path, changing parameters towards the path's own equalities"""
        if self.refutes >= 3:
            return None
        self.refutes += 1
        ps = [t for t in self.terms if t.op in ('param', 'int')]
        if not ps:
            return None
        pool = SPECIALS
        t0 = time.time()
        for start in (self.samples[:3] + [{}] * 5):
            cur = {t.id: start[t.id] if t.id in start else self.rng.choice([-1.0, 1.0]) * self.rng.randint(1, 9) / 4 for t in ps}
            best = None
            for k in range(300):
                if time.time() - t0 > 6:
                    return None
                new = dict(cur)
                if k:
                    for _ in range(1 + k % 4):
                        t = self.rng.choice(ps)
                        r = self.rng.random()
                        x = 0.0 if r < 0.3 else self.rng.choice(pool) if r < 0.5 else self.rng.choice([-1.0, 1.0]) * self.rng.randint(1, 9) / 4
                        new[t.id] = x if t.op == 'param' else float(int(x)) if x == x and abs(x) < 1e6 else 1.0
                e = dict(new)
                n = sum(bool(self.aeval(e, op, a, b)) != v for v, op, a, b in self.path_atoms)
                if n == 0 and bad(e):
                    return e
                if best is None or n <= best:
                    cur, best = new, n
        return None

    def check_rel(self, a, b, op):
        if type(a) is float and type(b) is float:
            ok = a < b if op == 'lt' else a <= b
            return ('ok', 'const') if ok else ('fail', self.samples[0] if self.samples else None)
        for e in self.samples:
            if not self.aeval(e, op, a, b):
                return 'fail', e
        z = self.zatom(op, a, b)
        r = self.zcheck(self.solver(), z3.Not(z), 10000)
        if r == z3.unsat:
            return 'ok', 'z3'
        e = self.refute(lambda e: not self.aeval(e, op, a, b))
        if e is not None:
            return 'fail', e
        return 'unknown', 'not proven'


def z2f(v):
    try:
        if v.isNaN():
            return NAN
        if v.isInf():
            return -INF if v.isNegative() else INF
        if v.isZero():
            return -0.0 if v.isNegative() else 0.0
        bv = z3.simplify(z3.fpToIEEEBV(v))
        return dbl(bv.as_long())
    except Exception:
        return 0.25


def evalop(op, a):
    try:
        if op == 'add':
            return a[0] + a[1]
        if op == 'mul':
            return a[0] * a[1]
        if op == 'div':
            return fdiv_ieee(a[0], a[1])
        if op in ('floor', 'ceil', 'trunc', 'round', 'rint'):
            if a[0] != a[0] or abs(a[0]) >= 2.0 ** 52:
                return a[0]
            k = float(round(a[0])) if op == 'rint' else math.copysign(math.floor(abs(a[0]) + 0.5) if abs(a[0]) != 0.49999999999999994 else 0.0, a[0]) \
                if op == 'round' else float(getattr(math, op)(a[0]))
            return math.copysign(k, a[0])
        if op == 'neg':
            return -a[0]
        if op == 'abs':
            return abs(a[0])
        if op == 'sqrt':
            return math.sqrt(a[0]) if a[0] >= 0 else NAN
        if op == 'f32':
            if a[0] != a[0] or abs(a[0]) == INF:
                return a[0]
            return struct.unpack('<f', struct.pack('<f', a[0]))[0]
        if op in ('cos', 'sin', 'tan'):
            return getattr(math, op)(a[0]) if abs(a[0]) != INF and a[0] == a[0] else NAN
        if op in ('atan', 'exp', 'sinh', 'cosh'):
            return getattr(math, op)(a[0])
        if op == 'asin':
            return math.asin(a[0]) if -1 <= a[0] <= 1 else NAN
        if op == 'log':
            return math.log(a[0]) if a[0] > 0 else (-INF if a[0] == 0 else NAN)
        if op == 'pow':
            return math.pow(a[0], a[1])
        if op == 'hypot':
            return math.hypot(a[0], a[1])
        if op == 'atan2':
            return math.atan2(a[0], a[1])
        if op == 'fmod':
            return math.fmod(a[0], a[1])
        if op.startswith('i:'):
            k = op[2:]
            w = int(''.join(c for c in k.split('fpto')[-1] if c.isdigit()) or 64)
            x = a[0] if abs(a[0]) < 1e300 else 0.0
            v = int(x) & ((1 << w) - 1)
            for m in re.findall(r't(\d+)', k.split('fpto')[0]):
                w = int(m)
                v &= (1 << w) - 1
            return float(v - (1 << w) if v >> (w - 1) else v)
        if op.startswith('csqrt'):
            import cmath
            z = cmath.sqrt(complex(a[0], a[1]))
            return z.real if op.endswith('re') else z.imag
        if op.startswith('muldc3'):
            z = complex(a[0], a[1]) * complex(a[2], a[3])
            return z.real if op.endswith('re') else z.imag
        if op.startswith('divdc3'):
            z = divdc3_ieee(*a)
            return z[0] if op.endswith('re') else z[1]
    except OverflowError:
        if op == 'sinh':
            return math.copysign(INF, a[0])
        if op == 'f32':
            return math.copysign(INF, a[0])
        return INF
    except (ValueError, ZeroDivisionError):
        return NAN
    raise Undecided('evalop ' + op)

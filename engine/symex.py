"""Symbolic executor for LLVM IR modules.

One Machine = one execution path (decisions come from a Path object, so other
paths are explored by re-execution).  Integers and pointers are concrete or
z3 bit-vectors (SInt); doubles belong to a value domain D (real.RealDomain or
fpdom.FPDomain).  Every memory access is checked against object bounds,
liveness and initialisation."""
import math
import struct
import re
import time
import z3
from .ir import Module, P, tokenize, IRError
from .real import Undecided, Infeasible, NAN
from .rf import Budget


class MemError(Exception):
    """memory-safety violation found by the interpreter"""


class CppThrow(Exception):
    def __init__(self, obj, tinfo):
        self.obj = obj
        self.tinfo = tinfo


class Abort(Exception):
    pass


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class FBits:
    """integer view of a floating-point value (only moved around)"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class SInt:
    __slots__ = ('e', 'w', 'name', 'lo', 'hi', 'uns')     # range of the signed (uns: of the unsigned) value

    def __init__(self, e, w, name=None, lo=None, hi=None):
        self.e = e
        self.w = w
        self.name = name or 'i'
        self.lo = lo
        self.hi = hi
        self.uns = False

    def key(self):
        return ('sint', self.w, self.e.sexpr())

    def sample(self, env, rng):
        return rng.randint(max(self.lo, -1000), min(self.hi, 1000))


class BInt(SInt):
    """integer expression over the bit patterns of symbolic doubles (F domain)"""
    __slots__ = ('terms',)

    def __init__(self, e, w, terms):
        SInt.__init__(self, e, w)
        self.terms = terms


class Op:
    """opaque integer produced from a floating value (fptosi); compared structurally"""
    __slots__ = ('k', 'v', 'w')

    def __init__(self, k, v, w):
        self.k = k
        self.v = v
        self.w = w


BASE = 0x10000000


class Obj:
    __slots__ = ('id', 'size', 'cells', 'kind', 'name', 'alive', 'ro')

    def __init__(self, id, size, kind, name=''):
        self.id = id
        self.size = size
        self.kind = kind
        self.name = name
        self.cells = {}
        self.alive = True
        self.ro = False


class Path:
    """decision oracle with a recorded prefix"""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.taken = []
        self.alts = []         # prefixes still to explore
        self.labels = []

    def choose_bool(self, label, first=True):
        k = len(self.taken)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            v = bool(first)
            self.alts.append(self.taken + [not v])
        self.taken.append(v)
        self.labels.append(label)
        if len(self.taken) > 400:
            raise Budget('too many decisions')
        return v

    def choose_int(self, label, values):
        k = len(self.taken)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            v = values[0]
            for o in reversed(values[1:]):
                self.alts.append(self.taken + [o])
        self.taken.append(v)
        self.labels.append(label)
        return v


class Block:
    __slots__ = ('phis', 'ins', 'term', 'label', 'idx')


class CFunc:
    __slots__ = ('name', 'nregs', 'template', 'params', 'entry', 'blocks', 'src')


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


class Program:
    """module + lazily compiled functions"""

    def __init__(self, text):
        self.mod = Module(text)
        self.cf = {}
        self.used = set()

    def func(self, name):
        name = self.mod.aliases.get(name, name)
        c = self.cf.get(name)
        if c is None:
            f = self.mod.funcs.get(name)
            if f is None:
                return None
            c = self.cf[name] = self.compile(f)
        return c

    # ---- compilation of a function to closures
    def compile(self, f):
        mod = self.mod
        regs = {}
        template = []

        def reg(name):
            i = regs.get(name)
            if i is None:
                i = regs[name] = len(template)
                template.append(None)
            return i
        consts = {}
        late = []      # (slot, valuedesc, type) resolved by the machine at first call

        def operand(v, t):
            if v[0] == 'r':
                return reg(v[1])
            if v[0] == 'c':
                k = ('c', type(v[1]), repr(v[1]))
            elif v[0] == 'g':
                k = v
            elif v[0] == 'undef':
                k = ('undef', t)
            else:
                k = ('o', id(v))
            i = consts.get(k)
            if i is None:
                i = consts[k] = len(template)
                if v[0] == 'c':
                    template.append(v[1])
                else:
                    template.append(None)
                    late.append((i, v, t))
            return i
        c = CFunc()
        c.name = f.name
        c.params = [(reg(n), t, a) for t, n, a in f.params]
        c.blocks = {}
        for lab, lines in f.blocks.items():
            b = Block()
            b.label = lab
            b.phis = []
            b.ins = []
            b.term = None
            c.blocks[lab] = b
        for lab, lines in f.blocks.items():
            b = c.blocks[lab]
            for ln in lines:
                toks = tokenize(ln)
                # strip metadata suffix
                for j, tk in enumerate(toks):
                    if tk[0] == '!' and j and toks[j - 1] == ',':
                        toks = toks[:j - 1]
                        break
                p = P(toks, mod)
                try:
                    self.instr(p, b, c, reg, operand)
                except (IRError, KeyError, ValueError, IndexError) as e:
                    raise IRError('%s: %s (%s)' % (f.name, ln, e))
        c.entry = c.blocks[f.entry]
        c.template = template
        c.src = late
        c.nregs = len(template)
        return c

    def instr(self, p, b, c, reg, operand):
        mod = self.mod
        ty = mod.types
        dst = None
        if p.peek(1) == '=' and p.peek()[0] == '%':
            dst = reg(p.next())
            p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        ins = b.ins

        if op == 'phi':
            self.fmf(p)
            t = p.type()
            inc = {}
            while True:
                p.expect('[')
                v = operand(p.value(t), t)
                p.expect(',')
                inc[p.next()] = v
                p.expect(']')
                if not p.accept(','):
                    break
            b.phis.append((dst, inc))
            return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            self.fmf(p)
            t = p.type()
            a = operand(p.value(t), t)
            p.expect(',')
            z = operand(p.value(t), t)
            if t[0] == 'vec':
                def h(m, fr, d=dst, a=a, z=z, op=op):
                    g = getattr(m.D, op)
                    fr[d] = [g(x, y) for x, y in zip(fr[a], fr[z])]
            elif t[0] == 'float':
                def h(m, fr, d=dst, a=a, z=z, op=op):
                    fr[d] = m.D.fptrunc(getattr(m.D, op)(fr[a], fr[z]))
            elif op == 'fmul':
                def h(m, fr, d=dst, a=a, z=z):
                    fr[d] = m.D.fmul(fr[a], fr[z])
            elif op == 'fadd':
                def h(m, fr, d=dst, a=a, z=z):
                    fr[d] = m.D.fadd(fr[a], fr[z])
            elif op == 'fsub':
                def h(m, fr, d=dst, a=a, z=z):
                    fr[d] = m.D.fsub(fr[a], fr[z])
            elif op == 'fdiv':
                def h(m, fr, d=dst, a=a, z=z):
                    fr[d] = m.D.fdiv(fr[a], fr[z])
            else:
                def h(m, fr, d=dst, a=a, z=z):
                    fr[d] = m.D.frem(fr[a], fr[z])
            ins.append(h)
            return
        if op == 'fneg':
            self.fmf(p)
            t = p.type()
            a = operand(p.value(t), t)
            if t[0] == 'vec':
                def h(m, fr, d=dst, a=a):
                    fr[d] = [m.D.fneg(x) for x in fr[a]]
            else:
                def h(m, fr, d=dst, a=a):
                    fr[d] = m.D.fneg(fr[a])
            ins.append(h)
            return
        if op == 'fcmp':
            self.fmf(p)
            pred = p.next()
            t = p.type()
            a = operand(p.value(t), t)
            p.expect(',')
            z = operand(p.value(t), t)

            def h(m, fr, d=dst, a=a, z=z, pred=pred):
                x, y = fr[a], fr[z]
                if x is UNDEF or y is UNDEF:
                    raise MemError('comparison of an uninitialised value')
                if pred == 'true':
                    fr[d] = 1
                elif pred == 'false':
                    fr[d] = 0
                else:
                    fr[d] = 1 if m.D.fcmp(pred, x, y) else 0
            ins.append(h)
            return
        if op == 'icmp':
            pred = p.next()
            if pred == 'samesign':
                pred = p.next()
            t = p.type()
            a = operand(p.value(t), t)
            p.expect(',')
            z = operand(p.value(t), t)
            w = t[1] if t[0] == 'i' else 64

            def h(m, fr, d=dst, a=a, z=z, pred=pred, w=w):
                fr[d] = m.icmp(pred, fr[a], fr[z], w)
            ins.append(h)
            return
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'):
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
                p.next()
            t = p.type()
            a = operand(p.value(t), t)
            p.expect(',')
            z = operand(p.value(t), t)
            if t[0] == 'vec':
                w = t[2][1]

                def h(m, fr, d=dst, a=a, z=z, op=op, w=w):
                    fr[d] = [m.ibin(op, x, y, w) for x, y in zip(fr[a], fr[z])]
            else:
                w = t[1]

                def h(m, fr, d=dst, a=a, z=z, op=op, w=w):
                    fr[d] = m.ibin(op, fr[a], fr[z], w)
            ins.append(h)
            return
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
                  'fptrunc', 'fpext', 'freeze', 'addrspacecast'):
            self.fmf(p)
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            t = p.type()
            a = operand(p.value(t), t)
            t2 = t
            if op != 'freeze':
                p.expect('to')
                t2 = p.type()

            def h(m, fr, d=dst, a=a, op=op, t=t, t2=t2):
                v = fr[a]
                if t[0] == 'vec' and op not in ('bitcast', 'freeze'):
                    fr[d] = [m.cast(op, x, t[2], t2[2]) for x in v]
                else:
                    fr[d] = m.cast(op, v, t, t2)
            ins.append(h)
            return
        if op == 'alloca':
            p.accept('inalloca')
            t = p.type()
            sz = ty.size(t)
            cnt = None
            if p.accept(','):
                if p.peek() != 'align':
                    it = p.type()
                    cnt = operand(p.value(it), it)

            def h(m, fr, d=dst, sz=sz, cnt=cnt):
                n = sz if cnt is None else sz * m.conc(fr[cnt])
                o = m.new_obj(n, 'stack', 'local')
                fr[-1].append(o)
                fr[d] = m.addr(o)
            ins.append(h)
            return
        if op == 'load':
            p.accept('atomic')
            p.accept('volatile')
            t = p.type()
            p.expect(',')
            pt = p.type()
            a = operand(p.value(pt), pt)
            rt = ty.resolve(t)
            sz = ty.size(t)
            if rt[0] in ('vec', 'arr', 'struct'):
                parts = self.parts(rt)

                def h(m, fr, d=dst, a=a, parts=parts, rt=rt):
                    base = fr[a]
                    fr[d] = [m.load(base + off, s, e) for off, s, e in parts]
            else:
                kind = rt[0] if rt[0] != 'i' else rt

                def h(m, fr, d=dst, a=a, sz=sz, rt=rt):
                    fr[d] = m.load(fr[a], sz, rt)
            ins.append(h)
            return
        if op == 'store':
            p.accept('atomic')
            p.accept('volatile')
            t = p.type()
            v = operand(p.value(t), t)
            p.expect(',')
            pt = p.type()
            a = operand(p.value(pt), pt)
            rt = ty.resolve(t)
            sz = ty.size(t)
            if rt[0] in ('vec', 'arr', 'struct'):
                parts = self.parts(rt)

                def h(m, fr, a=a, v=v, parts=parts):
                    base = fr[a]
                    val = fr[v]
                    for k, (off, s, e) in enumerate(parts):
                        m.store(base + off, s, UNDEF if val is UNDEF else val[k])
            else:
                def h(m, fr, a=a, v=v, sz=sz):
                    m.store(fr[a], sz, fr[v])
            ins.append(h)
            return
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            et = p.type()
            p.expect(',')
            pt = p.type()
            base = operand(p.value(pt), pt)
            const = 0
            dyn = []
            cur = et
            first = True
            while p.accept(','):
                it = p.type()
                v = p.value(it)
                if first:
                    s = ty.size(et)
                    if v[0] == 'c':
                        const += sgn(v[1], it[1]) * s
                    else:
                        dyn.append((operand(v, it), s, it[1]))
                    first = False
                else:
                    rt = ty.resolve(cur)
                    if rt[0] == 'struct':
                        off, cur = ty.offset(rt, v[1])
                        const += off
                    else:
                        s = ty.size(rt[2])
                        if v[0] == 'c':
                            const += sgn(v[1], it[1]) * s
                        else:
                            dyn.append((operand(v, it), s, it[1]))
                        cur = rt[2]
            if not dyn:
                def h(m, fr, d=dst, base=base, const=const):
                    fr[d] = fr[base] + const
            else:
                def h(m, fr, d=dst, base=base, const=const, dyn=tuple(dyn)):
                    x = fr[base] + const
                    for r, s, w in dyn:
                        x += sgn(m.conc(fr[r]), w) * s
                    fr[d] = x
            ins.append(h)
            return
        if op == 'select':
            self.fmf(p)
            t = p.type()
            cnd = operand(p.value(t), t)
            p.expect(',')
            t1 = p.type()
            x = operand(p.value(t1), t1)
            p.expect(',')
            p.type()
            y = operand(p.value(t1), t1)

            def h(m, fr, d=dst, cnd=cnd, x=x, y=y):
                k = fr[cnd]
                if isinstance(k, list):
                    fr[d] = [u if q else v for q, u, v in zip(k, fr[x], fr[y])]
                else:
                    fr[d] = fr[x] if m.cbool(k) else fr[y]
            ins.append(h)
            return
        if op == 'extractvalue':
            t = p.type()
            a = operand(p.value(t), t)
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))

            def h(m, fr, d=dst, a=a, idx=tuple(idx)):
                v = fr[a]
                for i in idx:
                    if v is UNDEF:
                        break
                    v = v[i]
                fr[d] = v
            ins.append(h)
            return
        if op == 'insertvalue':
            t = p.type()
            a = operand(p.value(t), t)
            p.expect(',')
            t2 = p.type()
            v = operand(p.value(t2), t2)
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            rt = ty.resolve(t)

            def h(m, fr, d=dst, a=a, v=v, idx=tuple(idx), rt=rt):
                fr[d] = m.insert(fr[a], idx, fr[v], rt)
            ins.append(h)
            return
        if op == 'extractelement':
            t = p.type()
            a = operand(p.value(t), t)
            p.expect(',')
            it = p.type()
            i = operand(p.value(it), it)

            def h(m, fr, d=dst, a=a, i=i):
                fr[d] = fr[a] if fr[a] is UNDEF else fr[a][fr[i]]
            ins.append(h)
            return
        if op == 'insertelement':
            t = p.type()
            a = operand(p.value(t), t)
            p.expect(',')
            et = p.type()
            v = operand(p.value(et), et)
            p.expect(',')
            it = p.type()
            i = operand(p.value(it), it)
            n = t[1]

            def h(m, fr, d=dst, a=a, v=v, i=i, n=n):
                x = fr[a]
                x = [UNDEF] * n if x is UNDEF else list(x)
                x[fr[i]] = fr[v]
                fr[d] = x
            ins.append(h)
            return
        if op == 'shufflevector':
            t = p.type()
            a = operand(p.value(t), t)
            p.expect(',')
            p.type()
            z = operand(p.value(t), t)
            p.expect(',')
            mt = p.type()
            mv = p.value(mt)
            n = t[1]
            if mv[0] == 'agg':
                mask = [e[1] if e[0] == 'c' else None for e in mv[2]]
            else:
                mask = [0] * mt[1]

            def h(m, fr, d=dst, a=a, z=z, mask=mask, n=n):
                x = fr[a]
                y = fr[z]
                x = [UNDEF] * n if x is UNDEF else x
                y = [UNDEF] * n if y is UNDEF else y
                w = list(x) + list(y)
                fr[d] = [UNDEF if k is None else w[k] for k in mask]
            ins.append(h)
            return
        if op in ('call', 'invoke'):
            self.fmf(p)
            # calling convention, return attrs
            while p.peek() in ('fastcc', 'ccc', 'coldcc', 'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'align',
                               'dereferenceable', 'dereferenceable_or_null', 'inreg', 'range', 'nofpclass'):
                w = p.next()
                if w == 'align':
                    p.next()
                if p.peek() == '(':
                    p.skip_parens()
            t = p.type()
            if p.peek() == 'asm':
                raise IRError('inline asm')
            callee = p.next()
            fn = None
            if callee[0] == '%':
                fn = reg(callee)
            p.expect('(')
            args = []
            while not p.accept(')'):
                at = p.type()
                if at[0] == 'metadata':
                    while p.peek() not in (',', ')'):
                        p.next()
                    p.accept(',')
                    continue
                attrs = p.skip_attrs()
                v = p.value(at)
                r = operand(v, at)
                bv = attrs.get('byval')
                args.append((r, ty.size(bv) if bv else None))
                p.accept(',')
            if callee.startswith('@llvm.lifetime') or callee.startswith('@llvm.dbg') or callee.startswith('@llvm.assume') \
                    or callee.startswith('@llvm.experimental.noalias') or callee.startswith('@llvm.invariant') \
                    or callee.startswith('@llvm.prefetch'):
                return
            simple = all(s is None for _, s in args)
            regs_ = tuple(r for r, _ in args)

            def h(m, fr, d=dst, callee=callee, fn=fn, args=tuple(args), simple=simple, regs_=regs_):
                if simple:
                    av = [fr[r] for r in regs_]
                else:
                    av = []
                    for r, s in args:
                        v = fr[r]
                        if s is not None:
                            o = m.new_obj(s, 'stack', 'byval')
                            fr[-1].append(o)
                            m.memcpy(m.addr(o), v, s)
                            v = m.addr(o)
                        av.append(v)
                rv = m.call(callee if fn is None else m.fnname(fr[fn]), av)
                if d is not None:
                    fr[d] = rv
            if op == 'call':
                ins.append(h)
                return
            # invoke ... to label %x unwind label %y
            while p.peek() != 'to':
                p.next()
            p.next()
            p.expect('label')
            ok = p.next()
            p.expect('unwind')
            p.expect('label')
            uw = p.next()

            def term(m, fr, h=h, ok=ok, uw=uw):
                try:
                    h(m, fr)
                except CppThrow as e:
                    fr[-2] = e
                    return uw
                return ok
            b.term = term
            return
        if op == 'landingpad':
            t = p.type()
            clauses = []
            cleanup = False
            while p.peek() is not None:
                w = p.next()
                if w == 'cleanup':
                    cleanup = True
                elif w == 'catch':
                    ct = p.type()
                    v = p.value(ct)
                    clauses.append(v[1] if v[0] == 'g' else None)
                elif w == 'filter':
                    raise IRError('filter clause')

            def h(m, fr, d=dst, clauses=tuple(clauses)):
                e = fr[-2]
                sel = 0
                for cl in clauses:
                    if cl is None or m.tmatch(e.tinfo, cl):
                        sel = m.typeid(cl)
                        break
                fr[d] = [e, sel]
            ins.append(h)
            return
        if op == 'resume':
            t = p.type()
            a = operand(p.value(t), t)

            def term(m, fr, a=a):
                raise fr[a][0]
            b.term = term
            return
        if op == 'ret':
            t = p.type()
            if t[0] == 'void':
                def term(m, fr):
                    fr[-3] = None
                    return None
            else:
                a = operand(p.value(t), t)

                def term(m, fr, a=a):
                    fr[-3] = fr[a]
                    return None
            b.term = term
            return
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                lab = p.next()

                def term(m, fr, lab=lab):
                    return lab
            else:
                t = p.type()
                cnd = operand(p.value(t), t)
                p.expect(',')
                p.expect('label')
                x = p.next()
                p.expect(',')
                p.expect('label')
                y = p.next()

                def term(m, fr, cnd=cnd, x=x, y=y):
                    k = fr[cnd]
                    if k is UNDEF:
                        raise MemError('branch on an uninitialised value')
                    return x if m.cbool(k) else y
            b.term = term
            return
        if op == 'switch':
            t = p.type()
            a = operand(p.value(t), t)
            p.expect(',')
            p.expect('label')
            dflt = p.next()
            p.expect('[')
            tab = []
            while not p.accept(']'):
                p.type()
                v = p.value(t)
                p.expect(',')
                p.expect('label')
                tab.append((v[1], p.next()))

            def term(m, fr, a=a, dflt=dflt, tab=tuple(tab), w=t[1]):
                v = fr[a]
                if v is UNDEF:
                    raise MemError('switch on an uninitialised value')
                for k, lab in tab:
                    if m.icmp('eq', v, k, w):
                        return lab
                return dflt
            b.term = term
            return
        if op == 'unreachable':
            def term(m, fr):
                raise MemError('unreachable executed (undefined behaviour)')
            b.term = term
            return
        if op in ('fence',):
            return
        if op == 'atomicrmw' or op == 'cmpxchg':
            raise IRError('atomic')
        raise IRError('opcode ' + op)

    @staticmethod
    def fmf(p):
        while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
            p.next()

    def parts(self, rt):
        ty = self.mod.types
        out = []
        if rt[0] in ('vec', 'arr'):
            s = ty.size(rt[2])
            for i in range(rt[1]):
                out.append((i * s, s, ty.resolve(rt[2])))
        else:
            for i in range(len(rt[1])):
                off, e = ty.offset(rt, i)
                out.append((off, ty.size(e), ty.resolve(e)))
        return out


class Machine:
    def __init__(self, prog, D, path, handlers=None, step_limit=4000000):
        self.prog = prog
        self.D = D
        self.path = path
        self.objs = {}
        self.nobj = 1
        self.gaddr = {}
        self.fn_ids = {}
        self.fn_names = {}
        self.handlers = handlers or {}
        self.ext = {}
        self.heap_allocs = 0
        self.heap_total = 0
        self.gwrites = 0           # writes to mutable globals
        self.steps = 0
        self.step_limit = step_limit
        self.depth = 0
        self.typeids = {}
        self.int_solver = None
        self.int_vars = {}
        self.icache = {}
        self.funcs_used = set()
        self.patched = {}      # per function: resolved template
        self.atexit = 0
        self.tls = {}

    # ---- objects
    def new_obj(self, size, kind, name=''):
        o = Obj(self.nobj, size, kind, name)
        self.nobj += 1
        self.objs[o.id] = o
        return o

    def addr(self, o):
        return (o.id << 40) + BASE

    def find(self, a, n, what):
        if not isinstance(a, int):
            raise MemError('%s through a symbolic or uninitialised pointer' % what)
        oid = a >> 40
        o = self.objs.get(oid)
        if o is None:
            raise MemError('%s through an invalid pointer%s' % (what, ' (null)' if a < 4096 else ''))
        off = (a & 0xFFFFFFFFFF) - BASE
        if not o.alive:
            raise MemError('%s of %s object %s after its lifetime' % (what, o.kind, o.name))
        if off < 0 or off + n > o.size:
            raise MemError('%s of %d bytes at offset %d of %s object %s of %d bytes' % (what, n, off, o.kind, o.name, o.size))
        if o.kind == 'global' and what == 'write':
            self.gwrites += 1
        return o, off

    def load(self, a, n, t):
        o, off = self.find(a, n, 'read')
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            v = c[1]
        else:
            v = self.assemble(o, off, n)
        # type adaptation
        k = t[0]
        if v is UNDEF:
            if k == 'i' and t[1] in (8, 64):
                return UNDEF
            raise MemError('read of uninitialised memory (%d bytes at offset %d of %s %s)' % (n, off, o.kind, o.name))
        if k == 'double':
            if type(v) is int:
                return struct.unpack('<d', struct.pack('<Q', v))[0]
            if isinstance(v, FBits):
                return v.v
            return v
        if k == 'float':
            if type(v) is int:
                return struct.unpack('<f', struct.pack('<I', v))[0]
            if isinstance(v, FBits):
                return v.v
            return v
        if k == 'i':
            if type(v) is float:
                if n == 8:
                    return struct.unpack('<Q', struct.pack('<d', v))[0]
                return struct.unpack('<I', struct.pack('<f', v))[0]
            if type(v) is int:
                return v & ((1 << t[1]) - 1)
            if isinstance(v, (SInt, FBits, Op)):
                return v
            return FBits(v)
        if k == 'ptr':
            if not isinstance(v, (int, CppThrow)):
                raise MemError('pointer loaded from non-pointer data')
            return v
        return v

    def assemble(self, o, off, n):
        bs = bytearray()
        undef = 0
        i = 0
        while i < n:
            b = self.byte(o, off + i)
            if b is UNDEF:
                undef += 1
                bs.append(0)
            elif b is None:
                raise Undecided('partial read of a symbolic value')
            else:
                bs.append(b)
            i += 1
        if undef:
            return UNDEF
        return int.from_bytes(bs, 'little')

    def byte(self, o, off):
        for back in range(0, 16):
            c = o.cells.get(off - back)
            if c is not None:
                if c[0] <= back:
                    return UNDEF
                v = c[1]
                if v is UNDEF:
                    return UNDEF
                if type(v) is int:
                    return (v >> (8 * back)) & 255
                if type(v) is float:
                    raw = struct.pack('<d', v) if c[0] == 8 else struct.pack('<f', v)
                    return raw[back]
                return None
        return UNDEF

    def store(self, a, n, v):
        o, off = self.find(a, n, 'write')
        if o.ro:
            raise MemError('write to constant %s' % o.name)
        cells = o.cells
        c = cells.get(off)
        if c is None or c[0] != n:
            self.clear(o, off, n)
        cells[off] = (n, v)

    def clear(self, o, off, n):
        cells = o.cells
        for back in range(0, 16):
            k = off - back
            c = cells.get(k)
            if c is None:
                continue
            if k + c[0] > off and not (k == off and c[0] <= n):
                # split the old cell into bytes
                bs = []
                for j in range(c[0]):
                    bs.append(self.byte(o, k + j))
                del cells[k]
                for j, b in enumerate(bs):
                    if off <= k + j < off + n:
                        continue
                    if b is None:
                        raise Undecided('partial overwrite of a symbolic value')
                    cells[k + j] = (1, b)
                break
        for k in range(off, off + n):
            c = cells.get(k)
            if c is not None:
                if k + c[0] > off + n:
                    bs = [self.byte(o, k + j) for j in range(c[0])]
                    del cells[k]
                    for j, b in enumerate(bs):
                        if k + j >= off + n:
                            if b is None:
                                raise Undecided('partial overwrite of a symbolic value')
                            cells[k + j] = (1, b)
                else:
                    del cells[k]

    def memcpy(self, d, s, n):
        n = self.conc(n)
        if n == 0:
            return
        so, soff = self.find(s, n, 'read')
        do, doff = self.find(d, n, 'write')
        if do.ro:
            raise MemError('write to constant %s' % do.name)
        out = []
        k = soff
        # leading partial cell
        i = 0
        while i < n:
            c = so.cells.get(soff + i)
            if c is not None and i + c[0] <= n:
                out.append((i, c))
                i += c[0]
            else:
                b = self.byte(so, soff + i)
                if b is None:
                    raise Undecided('partial copy of a symbolic value')
                if b is not UNDEF:
                    out.append((i, (1, b)))
                i += 1
        self.clear(do, doff, n)
        for i, c in out:
            do.cells[doff + i] = c

    def memset(self, d, v, n):
        n = self.conc(n)
        if n == 0:
            return
        o, off = self.find(d, n, 'write')
        if o.ro:
            raise MemError('write to constant')
        self.clear(o, off, n)
        v = self.conc(v) & 255
        i = 0
        word = int.from_bytes(bytes([v] * 8), 'little')
        while i < n:
            if (off + i) % 8 == 0 and i + 8 <= n:
                o.cells[off + i] = (8, word)
                i += 8
            else:
                o.cells[off + i] = (1, v)
                i += 1

    # ---- globals
    def global_addr(self, name):
        name0 = name
        a = self.gaddr.get(name)
        if a is not None:
            return a
        name = self.prog.mod.aliases.get(name, name)
        if name in self.prog.mod.funcs or name in self.prog.mod.decls:
            a = self.fn_ids.get(name)
            if a is None:
                a = (0x7F0000 + len(self.fn_ids)) << 40
                self.fn_ids[name] = a
                self.fn_names[a] = name
            self.gaddr[name0] = a
            return a
        g = self.prog.mod.globals.get(name)
        if g is None:
            raise IRError('global ' + name)
        t, init, const = g
        sz = self.prog.mod.types.size(t)
        o = self.new_obj(sz if init is not None else max(sz, 4096), 'global', name)
        a = self.gaddr[name0] = self.gaddr[name] = self.addr(o)
        if init is not None:
            self.init(o, 0, t, init)
        o.ro = const
        if name in self.prog.mod.tls:
            o.kind = 'thread-local'
        return a

    def init(self, o, off, t, v):
        ty = self.prog.mod.types
        if v[0] == 'agg':
            rt = ty.resolve(t)
            for i, e in enumerate(v[2]):
                eo, et = ty.offset(rt, i)
                self.init(o, off + eo, et, e)
            return
        if v[0] == 'undef':
            return
        o.cells[off] = (ty.size(t), self.constv(v, t))

    def constv(self, v, t):
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'g':
            return self.global_addr(v[1])
        if k == 'undef':
            rt = self.prog.mod.types.resolve(t)
            if rt[0] == 'struct':
                return [self.constv(('undef', e), e) for e in rt[1]]
            if rt[0] in ('vec', 'arr'):
                return [UNDEF] * rt[1]
            return UNDEF
        if k == 'agg':
            rt = self.prog.mod.types.resolve(t)
            ets = rt[1] if rt[0] == 'struct' else [rt[2]] * rt[1]
            return [self.constv(e, et) for e, et in zip(v[2], ets)]
        if k == 'ce':
            if v[1] == 'gep':
                ty = self.prog.mod.types
                a = self.constv(v[3], ('ptr',))
                cur = v[2]
                first = True
                for it, iv in v[4]:
                    i = sgn(self.constv(iv, it), it[1])
                    if first:
                        a += i * ty.size(cur)
                        first = False
                    else:
                        off, cur = ty.offset(cur, i)
                        a += off
                return a
            if v[1] in ('inttoptr', 'ptrtoint', 'bitcast'):
                return self.constv(v[3], v[2])
            if v[1] in ('add', 'sub', 'mul', 'shl'):
                return self.ibin(v[1], self.constv(v[3], v[2]), self.constv(v[4], v[2]), v[2][1])
            if v[1] in ('trunc', 'zext', 'sext'):
                return self.cast(v[1], self.constv(v[3], v[2]), v[2], v[4])
        raise IRError('constant %r' % (v,))

    # ---- integers
    def conc(self, v):
        """concrete value of an integer, enumerating symbolic ones"""
        if type(v) is int:
            return v
        if v is UNDEF:
            raise MemError('use of an uninitialised integer')
        if isinstance(v, SInt):
            return self.concretise(v)
        raise Undecided('integer %r' % (v,))

    def cbool(self, v):
        if type(v) is int:
            return v
        return self.conc(v)

    def isolver(self):
        if self.int_solver is None:
            self.int_solver = z3.SolverFor('QF_BV')
            self.int_solver.set('timeout', 10000)
        return self.int_solver

    # ---- bit patterns of symbolic doubles
    def bints(self, *vs):
        """operands as integer expressions over bit patterns, or None"""
        if not any(isinstance(v, (FBits, BInt)) for v in vs):
            return None
        if self.D.name == 'R' or not all(type(v) is int or isinstance(v, (FBits, BInt)) for v in vs):
            raise Undecided('bit pattern of a symbolic double')
        return [BInt(self.D.bits(v.v), 64, (v.v,)) if isinstance(v, FBits) else v for v in vs]

    def bmk(self, e, w, vs):
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            return e.as_long()
        ts = {}
        for v in vs:
            if isinstance(v, BInt):
                for t in v.terms:
                    ts[t.id] = t
        return BInt(e, w, tuple(ts.values()))

    def signbit(self, x):
        if self.D.name == 'R':
            return 1 if self.D.fcmp('olt', x, 0.0) else 0
        b = self.D.bits(x)
        return 1 if self.D.batom(z3.Extract(63, 63, b) == 1, (x,)) else 0

    def fbits_bin(self, op, a, b, w):
        """the usual sign manipulations; None if it is something else"""
        if type(a) is int:
            a, b = b, a
            if op not in ('and', 'or', 'xor'):
                return None
        if not isinstance(a, FBits) or type(b) is not int or w != 64:
            return None
        S = 1 << 63
        if op == 'and' and b == S - 1:
            return FBits(self.D.fabs(a.v))
        if op == 'or' and b == S:
            return FBits(self.D.fneg(self.D.fabs(a.v)))
        if op == 'xor' and b == S:
            return FBits(self.D.fneg(a.v))
        if op == 'and' and b == S:
            return S if self.signbit(a.v) else 0
        if op == 'lshr' and b == 63:
            return self.signbit(a.v)
        return None

    def fbits_cmp(self, pred, a, b):
        D = self.D
        if type(a) is int:
            a, b = b, a
            pred = {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}.get(pred[1:]) and pred[0] + {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}[pred[1:]] or pred
        if isinstance(a, FBits) and type(b) is int:
            if (pred, b) in (('slt', 0), ('sle', (1 << 64) - 1)):
                return self.signbit(a.v)
            if (pred, b) in (('sgt', (1 << 64) - 1), ('sge', 0)):
                return 1 - self.signbit(a.v)
            if D.fabs(a.v) is a.v and b >> 63 == 0 and D.name == 'R':
                if b > 0x7ff << 52:
                    return 1 if pred[1:] in ('lt', 'le') or pred == 'ne' else 0
                c = struct.unpack('<d', struct.pack('<Q', b))[0]
                k = {'eq': 'oeq', 'ne': 'une'}.get(pred) or ('o' if pred[1] == 'l' else 'u') + pred[1:]
                return 1 if D.fcmp(k, a.v, c) else 0
            if D.name == 'R' and pred in ('eq', 'ne'):
                c = struct.unpack('<d', struct.pack('<Q', b))[0]
                return 1 if D.fcmp('oeq' if pred == 'eq' else 'une', a.v, c) else 0
        if isinstance(a, FBits) and isinstance(b, FBits) and pred in ('eq', 'ne'):
            if D.same(a.v, b.v):
                return 1 if pred == 'eq' else 0
            if D.name == 'R':
                return 1 if D.fcmp('oeq' if pred == 'eq' else 'une', a.v, b.v) else 0
        return None

    def concretise(self, v, limit=80):
        if isinstance(v, BInt):
            if v.w <= 11:
                for x in range(1 << v.w):
                    if self.D.batom(v.e == x, v.terms):
                        return x
            raise Undecided('bit pattern of a symbolic double')
        key = v.key()
        if key in self.icache:
            return self.icache[key]
        s = self.isolver()
        vals = []
        s.push()
        while len(vals) <= limit:
            if s.check() != z3.sat:
                break
            x = s.model().eval(v.e, model_completion=True).as_long()
            vals.append(x)
            s.add(v.e != x)
        s.pop()
        if not vals:
            raise Infeasible()
        if len(vals) > limit:
            raise Undecided('integer with more than %d values' % limit)
        vals.sort()
        x = self.path.choose_int('int ' + v.name, vals)
        s.add(v.e == x)
        self.icache[key] = x
        return x

    def icmp(self, pred, a, b, w):
        if type(a) is int and type(b) is int:
            if pred == 'eq':
                return 1 if a == b else 0
            if pred == 'ne':
                return 1 if a != b else 0
            if pred[0] == 's':
                a = sgn(a, w)
                b = sgn(b, w)
            k = pred[1:]
            r = a < b if k == 'lt' else a <= b if k == 'le' else a > b if k == 'gt' else a >= b
            return 1 if r else 0
        if a is UNDEF or b is UNDEF:
            raise MemError('comparison of an uninitialised value')
        if isinstance(a, Op) or isinstance(b, Op):
            return self.cmp_op(pred, a, b)
        if isinstance(a, (FBits, BInt)) or isinstance(b, (FBits, BInt)):
            r = self.fbits_cmp(pred, a, b)
            if r is not None:
                return r
            a, b = self.bints(a, b)
        ea = a.e if isinstance(a, SInt) else z3.BitVecVal(a, w)
        eb = b.e if isinstance(b, SInt) else z3.BitVecVal(b, w)
        c = {'eq': lambda: ea == eb, 'ne': lambda: ea != eb, 'slt': lambda: ea < eb, 'sle': lambda: ea <= eb,
             'sgt': lambda: ea > eb, 'sge': lambda: ea >= eb, 'ult': lambda: z3.ULT(ea, eb), 'ule': lambda: z3.ULE(ea, eb),
             'ugt': lambda: z3.UGT(ea, eb), 'uge': lambda: z3.UGE(ea, eb)}[pred]()
        if isinstance(a, BInt) or isinstance(b, BInt):
            c = z3.simplify(c)
            if z3.is_true(c) or z3.is_false(c):
                return 1 if z3.is_true(c) else 0
            ts = (a.terms if isinstance(a, BInt) else ()) + (b.terms if isinstance(b, BInt) else ())
            return 1 if self.D.batom(c, ts) else 0
        return 1 if self.idecide(c) else 0

    def cmp_op(self, pred, a, b):
        if pred in ('eq', 'ne') and isinstance(a, Op) and isinstance(b, Op) and a.w == b.w:
            if a.k == b.k and self.D.same(a.v, b.v):
                return 1 if pred == 'eq' else 0
            if self.D.name != 'R':
                eq = self.D.atom('eq', self.D.un('i:' + a.k, a.v), self.D.un('i:' + b.k, b.v))
                return 1 if eq == (pred == 'eq') else 0
            # value not proven equal: explore both
            v = self.path.choose_bool('opaque integers %s' % pred, pred == 'eq')
            self.D.uncertain = True
            return 1 if v else 0
        raise Undecided('comparison of a converted integer')

    def idecide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        s = self.isolver()
        t0 = time.time()
        st = self.D.stats
        s.push()
        s.add(c)
        r1 = s.check()
        s.pop()
        s.push()
        s.add(z3.Not(c))
        r2 = s.check()
        s.pop()
        st.z3_calls += 2
        st.z3_time += time.time() - t0
        if r1 == z3.unsat:
            return False
        if r2 == z3.unsat:
            return True
        v = self.path.choose_bool('int ' + str(c)[:40], True)
        s.add(c if v else z3.Not(c))
        return v

    def ibin(self, op, a, b, w):
        M = (1 << w) - 1
        if type(a) is int and type(b) is int:
            if op == 'add':
                return (a + b) & M
            if op == 'sub':
                return (a - b) & M
            if op == 'mul':
                return (a * b) & M
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & M if b < w else 0
            if op == 'lshr':
                return a >> b if b < w else 0
            if op == 'ashr':
                return (sgn(a, w) >> min(b, w - 1)) & M
            if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0:
                raise MemError('division by zero')
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            return (q & M) if op == 'sdiv' else ((x - q * y) & M)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Op) or isinstance(b, Op):
            raise Undecided('integer arithmetic on a converted double')
        fp = isinstance(a, (FBits, BInt)) or isinstance(b, (FBits, BInt))
        if fp:
            r = self.fbits_bin(op, a, b, w)
            if r is not None:
                return r
            a, b = self.bints(a, b)
        ea = a.e if isinstance(a, SInt) else z3.BitVecVal(a, w)
        eb = b.e if isinstance(b, SInt) else z3.BitVecVal(b, w)
        e = {'add': lambda: ea + eb, 'sub': lambda: ea - eb, 'mul': lambda: ea * eb, 'and': lambda: ea & eb,
             'or': lambda: ea | eb, 'xor': lambda: ea ^ eb, 'shl': lambda: ea << eb, 'lshr': lambda: z3.LShR(ea, eb),
             'ashr': lambda: ea >> eb, 'sdiv': lambda: ea / eb, 'udiv': lambda: z3.UDiv(ea, eb),
             'srem': lambda: z3.SRem(ea, eb), 'urem': lambda: z3.URem(ea, eb)}[op]()
        return self.bmk(e, w, (a, b)) if fp else self.mki(e, w)

    def mki(self, e, w):
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            return e.as_long()
        return SInt(e, w)

    def cast(self, op, v, t, t2):
        if v is UNDEF:
            if op in ('sitofp', 'uitofp'):
                raise MemError('conversion of an uninitialised value')
            return UNDEF
        if op in ('zext', 'sext', 'trunc') and isinstance(v, (FBits, BInt)):
            v, = self.bints(v)
            return self.bmk({'zext': lambda: z3.ZeroExt(t2[1] - t[1], v.e), 'sext': lambda: z3.SignExt(t2[1] - t[1], v.e),
                             'trunc': lambda: z3.Extract(t2[1] - 1, 0, v.e)}[op](), t2[1], (v,))
        if op == 'zext':
            if isinstance(v, SInt):
                r = self.mki(z3.ZeroExt(t2[1] - t[1], v.e), t2[1])
                if isinstance(r, SInt) and v.lo is not None and v.lo >= 0:
                    r.lo, r.hi, r.name = v.lo, v.hi, v.name
                return r
            if isinstance(v, Op):
                return Op('z' + v.k, v.v, t2[1])
            return v
        if op == 'sext':
            if isinstance(v, SInt):
                r = self.mki(z3.SignExt(t2[1] - t[1], v.e), t2[1])
                if isinstance(r, SInt) and not v.uns:
                    r.lo, r.hi, r.name = v.lo, v.hi, v.name
                return r
            if isinstance(v, Op):
                return Op('s' + v.k, v.v, t2[1])
            return sgn(v, t[1]) & ((1 << t2[1]) - 1)
        if op == 'trunc':
            if isinstance(v, SInt):
                r = self.mki(z3.Extract(t2[1] - 1, 0, v.e), t2[1])
                if isinstance(r, SInt) and v.lo is not None and -(1 << (t2[1] - 1)) <= v.lo and v.hi < (1 << (t2[1] - 1)):
                    r.lo, r.hi, r.name = v.lo, v.hi, v.name
                elif isinstance(r, SInt) and v.lo is not None and v.lo >= 0 and v.hi < (1 << t2[1]):
                    r.lo, r.hi, r.name, r.uns = v.lo, v.hi, v.name, True
                return r
            if isinstance(v, Op):
                return Op('t%d' % t2[1] + v.k, v.v, t2[1])
            return v & ((1 << t2[1]) - 1)
        if op in ('ptrtoint', 'inttoptr', 'addrspacecast', 'freeze'):
            return v
        if op == 'bitcast':
            k1, k2 = t[0], t2[0]
            if k1 == 'double' and k2 == 'i':
                if type(v) is float:
                    return struct.unpack('<Q', struct.pack('<d', v))[0]
                return FBits(v)
            if k1 == 'i' and k2 == 'double':
                if type(v) is int:
                    return struct.unpack('<d', struct.pack('<Q', v))[0]
                if isinstance(v, FBits):
                    return v.v
            if k1 == 'float' and k2 == 'i' and type(v) is float:
                return struct.unpack('<I', struct.pack('<f', v))[0]
            if k1 == k2:
                return v
            raise Undecided('bitcast %r to %r' % (t, t2))
        if op == 'sitofp' or op == 'uitofp':
            if type(v) is int:
                x = sgn(v, t[1]) if op == 'sitofp' else v
                r = float(x)
                return self.D.fptrunc(r) if t2[0] == 'float' else r
            if isinstance(v, SInt):
                if v.lo is not None and op == 'uitofp' and v.lo < 0:
                    raise Undecided('unsigned value of a signed symbol')
                if v.lo is None or v.uns and op == 'sitofp':
                    c = self.concretise(v)
                    return float(sgn(c, t[1]) if op == 'sitofp' else c)
                r = self.D.sitofp(v)
                return self.D.fptrunc(r) if t2[0] == 'float' and v.hi > (1 << 24) else r
            if isinstance(v, Op) and self.D.name != 'R' and op == 'sitofp':
                r = self.D.un('i:' + v.k, v.v)
                return self.D.fptrunc(r) if t2[0] == 'float' else r
            raise Undecided('sitofp of %r' % (v,))
        if op == 'fptosi' or op == 'fptoui':
            if type(v) is float:
                if v != v or abs(v) > 2.0 ** 63:
                    return UNDEF
                return int(v) & ((1 << t2[1]) - 1)
            if self.D.name == 'R' and not isinstance(v, list):
                k = rounded(self, v, 'trunc')
                return int(k) & ((1 << t2[1]) - 1)
            return Op('%s%d' % (op, t2[1]), v, t2[1])
        if op == 'fptrunc':
            return self.D.fptrunc(v)
        if op == 'fpext':
            return self.D.fpext(v)
        raise IRError('cast ' + op)

    def insert(self, agg, idx, v, rt):
        ty = self.prog.mod.types
        if agg is UNDEF or agg is None:
            n = len(rt[1]) if rt[0] == 'struct' else rt[1]
            agg = [UNDEF] * n
        else:
            agg = list(agg)
        i = idx[0]
        if len(idx) == 1:
            agg[i] = v
        else:
            et = ty.resolve(rt[1][i] if rt[0] == 'struct' else rt[2])
            agg[i] = self.insert(agg[i], idx[1:], v, et)
        return agg

    # ---- exceptions
    HIER = {'@_ZTISt16invalid_argument': '@_ZTISt11logic_error', '@_ZTISt12out_of_range': '@_ZTISt11logic_error',
            '@_ZTISt12length_error': '@_ZTISt11logic_error', '@_ZTISt12domain_error': '@_ZTISt11logic_error',
            '@_ZTISt11logic_error': '@_ZTISt9exception', '@_ZTISt13runtime_error': '@_ZTISt9exception',
            '@_ZTISt9bad_alloc': '@_ZTISt9exception', '@_ZTISt11range_error': '@_ZTISt13runtime_error',
            '@_ZTISt14overflow_error': '@_ZTISt13runtime_error'}

    def tmatch(self, t, clause):
        while t is not None:
            if t == clause:
                return True
            t = self.HIER.get(t)
        return False

    def typeid(self, name):
        if name is None:
            return 1
        i = self.typeids.get(name)
        if i is None:
            i = self.typeids[name] = len(self.typeids) + 2
        return i

    def fnname(self, a):
        n = self.fn_names.get(a)
        if n is None:
            raise MemError('call through an invalid function pointer')
        return n

    # ---- calls
    def call(self, name, args):
        h = self.handlers.get(name)
        if h is not None:
            return h(self, args)
        f = self.prog.func(name)
        if f is None:
            h = EXTERNALS.get(name)
            if h is None:
                for k, hh in EXT_PREFIX:
                    if name.startswith(k):
                        h = hh
                        break
            if h is None and name[-1] == 'f' and name[:-1] in EXTERNALS and name not in ('@sincosf', '@modff', '@csqrtf', '@cabsf'):
                # the float variant of a math function
                g = EXTERNALS[name[:-1]]
                h = lambda m, a: m.D.fptrunc(g(m, a)) if name not in ('@lroundf', '@lrintf', '@llroundf', '@llrintf') else g(m, a)
            if h is None:
                raise Undecided('external function ' + name)
            self.ext[name] = self.ext.get(name, 0) + 1
            if name.endswith('.f32'):
                return self.D.fptrunc(h(self, args))
            return h(self, args)
        return self.run(f, args)

    def run(self, f, args):
        self.funcs_used.add(f.name)
        tpl = self.patched.get(f.name)
        if tpl is None:
            tpl = list(f.template)
            for i, v, t in f.src:
                tpl[i] = self.constv(v, t)
            tpl += [None, None, None]
            self.patched[f.name] = tpl
        fr = list(tpl)
        locs = fr[-1] = []
        for (r, t, a), v in zip(f.params, args):
            fr[r] = v
        self.depth += 1
        if self.depth > 150:
            raise Undecided('call depth')
        b = f.entry
        blocks = f.blocks
        prev = None
        try:
            while True:
                if b.phis:
                    if len(b.phis) == 1:
                        d, inc = b.phis[0]
                        fr[d] = fr[inc[prev]]
                    else:
                        vals = [fr[inc[prev]] for _, inc in b.phis]
                        for (d, _), v in zip(b.phis, vals):
                            fr[d] = v
                for h in b.ins:
                    h(self, fr)
                self.steps += len(b.ins) + 1
                if self.steps > self.step_limit:
                    raise Undecided('step limit')
                nx = b.term(self, fr)
                if nx is None:
                    return fr[-3]
                prev = b.label
                b = blocks[nx]
        finally:
            self.depth -= 1
            for o in locs:
                o.alive = False
                o.cells = {}

    def cstr(self, a):
        out = bytearray()
        while True:
            b = self.load(a + len(out), 1, ('i', 8))
            if b is UNDEF:
                raise MemError('uninitialised string')
            if b == 0:
                return out.decode('latin1')
            out.append(b)


# ---------------------------------------------------------------- externals
def _thr(name):
    def h(m, a):
        raise CppThrow(None, name)
    return h


def _cxa_throw(m, a):
    t = None
    for n, ad in m.gaddr.items():
        if ad == a[1]:
            t = n
    raise CppThrow(a[0], t)


def _new(m, a):
    o = m.new_obj(m.conc(a[0]), 'heap', 'new')
    m.heap_allocs += 1
    m.heap_total += 1
    return m.addr(o)


def _delete(m, a):
    if a[0] == 0:
        return None
    o, off = m.find(a[0], 0, 'free')
    if o.kind != 'heap' or off != 0:
        raise MemError('free of a non-heap pointer')
    o.alive = False
    o.cells = {}
    return None


def _abort(m, a):
    raise Abort()


def _exc_alloc(m, a):
    o = m.new_obj(m.conc(a[0]), 'exception', 'exception')
    return m.addr(o)


def _begin_catch(m, a):
    e = a[0]
    if isinstance(e, CppThrow):
        m.tls.setdefault('caught', []).append(e)
        return e.obj if e.obj is not None else 0
    return 0


def _end_catch(m, a):
    c = m.tls.get('caught')
    if c:
        c.pop()


def _rethrow(m, a):
    raise m.tls['caught'][-1]


def _guard_acquire(m, a):
    o, off = m.find(a[0], 1, 'read')
    c = o.cells.get(off)
    return 0 if c and c[1] not in (0, UNDEF) else 1


def _guard_release(m, a):
    m.store(a[0], 1, 1)


def _f1(name):
    def h(m, a):
        if a[0] is UNDEF:
            raise MemError('uninitialised value passed to a math function')
        return getattr(m.D, name)(a[0])
    return h


def _f2(name):
    def h(m, a):
        return getattr(m.D, name)(a[0], a[1])
    return h


def _vec1(name):
    def h(m, a):
        if isinstance(a[0], list):
            return [getattr(m.D, name)(x) for x in a[0]]
        return getattr(m.D, name)(a[0])
    return h


def _minmax(signed, mx):
    def h(m, a):
        x, y = m.conc(a[0]), m.conc(a[1])
        if signed:
            x, y = sgn(x, 64), sgn(y, 64)
        return (max(x, y) if mx else min(x, y)) & ((1 << 64) - 1)
    return h


def _smm(w, mx):
    def h(m, a):
        x, y = a
        if type(x) is int and type(y) is int:
            p, q = sgn(x, w), sgn(y, w)
            return (x if p >= q else y) if mx else (x if p <= q else y)
        return (x if m.icmp('sge', x, y, w) else y) if mx else (x if m.icmp('sle', x, y, w) else y)
    return h


def _umm(w, mx):
    def h(m, a):
        x, y = m.conc(a[0]), m.conc(a[1])
        return max(x, y) if mx else min(x, y)
    return h


def _fminmax(mx):
    def h(m, a):
        x, y = a
        if type(x) is float and x != x:
            return y
        if type(y) is float and y != y:
            return x
        if m.D.name != 'R' and m.D.fcmp('uno', y, 0.0):
            return x
        g = m.D.fcmp('ogt' if mx else 'olt', x, y)
        return x if g else y
    return h


def _fma(m, a):
    return m.D.fadd(m.D.fmul(a[0], a[1]), a[2])


def _copysign(m, a):
    x, y = a
    if type(x) is float and type(y) is float:
        return math.copysign(x, y)
    ax = m.D.fabs(x)
    return ax if m.D.fcmp('oge', y, 0.0) else m.D.fneg(ax)


def rounded(m, x, kind):
    """floor, ceil, trunc, round, rint of a double"""
    from .fpdom import evalop
    D = m.D
    if type(x) is float:
        return evalop(kind, [x])
    if D.name != 'R':
        return D.un(kind, x)
    # real arithmetic: the integer is fixed per path, candidates from the sample points
    for _ in range(6):
        vals = [float(D.cx.eval(e, x)) for e in D.live()]
        vals = [v for v in vals if abs(v) < 1e15]
        if not vals:
            break
        k = evalop(kind, [vals[0]])
        lo, hi = {'floor': (k, k + 1), 'ceil': (k - 1, k), 'round': (k - 0.5, k + 0.5), 'rint': (k - 0.5, k + 0.5),
                  'trunc': (k - 1 if k <= 0 else k, k + 1 if k >= 0 else k)}[kind]
        # (ties and end points: of the side the function takes them)
        up = kind == 'ceil' or kind == 'trunc' and k < 0 or kind in ('round', 'rint') and k < 0
        if kind == 'rint':
            a, b = ('oge', 'ole') if k % 2 == 0 else ('ogt', 'olt')
        elif kind == 'trunc' and k == 0 or kind == 'round' and k == 0:
            a, b = 'ogt', 'olt'
        else:
            a, b = ('ogt', 'ole') if up else ('oge', 'olt')
        if D.fcmp(a, x, lo) and D.fcmp(b, x, hi):
            return float(k)
    raise Undecided('%s of a symbolic value' % kind)


def _round(kind):
    def h(m, a):
        if a[0] is UNDEF:
            raise MemError('uninitialised value passed to a math function')
        return [rounded(m, x, kind) for x in a[0]] if isinstance(a[0], list) else rounded(m, a[0], kind)
    return h


def _lround(kind):
    def h(m, a):
        r = rounded(m, a[0], kind)
        if type(r) is float:
            return int(r) & ((1 << 64) - 1) if r == r and abs(r) < 2.0 ** 63 else UNDEF
        return Op('fptosi64', r, 64)
    return h


def _ldexp(m, a):
    n = sgn(m.conc(a[1]), 32)
    return m.D.fmul(a[0], 2.0 ** n) if abs(n) < 1000 else m.D.fmul(m.D.fmul(a[0], 2.0 ** (n // 2)), 2.0 ** (n - n // 2))


def _modf(m, a):
    k = rounded(m, a[0], 'trunc')
    m.store(a[1], 8, k)
    return m.D.fsub(a[0], k)


def _sincos(m, a):
    m.store(a[1], 8, m.D.fsin(a[0]))
    m.store(a[2], 8, m.D.fcos(a[0]))


def _ident(m, a):
    return a[0]


def _nop(m, a):
    return None


def _zero(m, a):
    return 0


def _fclass(m, a):
    x, mask = a
    if type(x) is float:
        if x != x:
            return 1 if mask & 3 else 0
        if abs(x) == math.inf:
            return 1 if mask & (0x200 if x > 0 else 4) else 0
        if x == 0:
            return 1 if mask & 0x60 else 0
        if abs(x) < 2.0 ** -1022:
            return 1 if mask & 0x90 else 0
        return 1 if mask & 0x108 else 0
    D = m.D
    if mask & 0x18 not in (0, 0x18) or mask & 0x180 not in (0, 0x180):
        # normal and subnormal numbers apart
        if D.fcmp('uno', x, 0.0):
            return 1 if mask & 3 else 0
        neg = D.fcmp('olt', x, 0.0)
        a = D.fabs(x)
        if D.fcmp('oeq', a, math.inf):
            return 1 if mask & (4 if neg else 0x200) else 0
        if D.fcmp('oeq', x, 0.0):
            return 1 if mask & 0x60 else 0
        return 1 if mask & ((0x10 if neg else 0x80) if D.fcmp('olt', a, 2.0 ** -1022) else (8 if neg else 0x100)) else 0
    # the classes as far as IEEE comparisons separate them; x is nan / -inf / <0 / 0 / >0 / +inf
    g = lambda b: None if mask & b not in (0, b) else bool(mask & b)
    c = [g(3), g(4), g(0x18), g(0x60), g(0x180), g(0x200)]
    if None in c:
        raise Undecided('is.fpclass %x' % mask)
    nan, ninf, neg, zero, pos, pinf = c
    if len(set(c[1:])) == 1:
        r = nan if nan == neg else (nan if D.fcmp('uno', x, 0.0) else neg)
    else:
        if nan and D.fcmp('uno', x, 0.0):
            return 1
        if ninf == pinf and neg == zero == pos:
            # an infinity or a finite number
            r = ninf if D.isinf(x) else (neg if nan or not neg or D.fcmp('ord', x, 0.0) else False)
        else:
            if nan is False and D.fcmp('uno', x, 0.0):
                return 0
            if D.fcmp('olt', x, 0.0):
                r = ninf if ninf == neg or D.fcmp('oeq', x, -math.inf) else neg
            elif zero == pos or D.fcmp('ogt', x, 0.0):
                r = pos if pos == pinf or not D.fcmp('oeq', x, math.inf) else pinf
            else:
                r = zero
    return 1 if r else 0


EXTERNALS = {
    '@_Znwm': _new, '@_Znam': _new, '@malloc': _new,
    '@_ZdlPv': _delete, '@_ZdlPvm': _delete, '@_ZdaPv': _delete, '@free': _delete,
    '@abort': _abort, '@_ZSt9terminatev': _abort, '@__cxa_pure_virtual': _abort, '@exit': _abort,
    '@__assert_fail': _abort, '@_ZSt21__glibcxx_assert_failPKciS0_S0_': _abort,
    '@__cxa_allocate_exception': _exc_alloc, '@__cxa_free_exception': _nop, '@__cxa_throw': _cxa_throw,
    '@__cxa_begin_catch': _begin_catch, '@__cxa_end_catch': _end_catch, '@__cxa_rethrow': _rethrow,
    '@__cxa_atexit': _zero, '@_ZNSt8ios_base4InitC1Ev': _nop, '@_ZNSt8ios_base4InitD1Ev': _nop,
    '@llvm.threadlocal.address.p0': _ident, '@llvm.threadlocal.address': _ident,
    '@__cxa_guard_acquire': _guard_acquire, '@__cxa_guard_release': _guard_release, '@__cxa_guard_abort': _nop,
    '@_ZNSt16invalid_argumentC1EPKc': _nop, '@_ZNSt16invalid_argumentD1Ev': _nop,
    '@_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE': _nop,
    '@_ZNSt12out_of_rangeC1EPKc': _nop, '@_ZNSt12out_of_rangeD1Ev': _nop,
    '@_ZNSt13runtime_errorC1EPKc': _nop, '@_ZNSt13runtime_errorD1Ev': _nop,
    '@_ZNSt11logic_errorC1EPKc': _nop, '@_ZNSt11logic_errorD1Ev': _nop,
    '@_ZNSt9exceptionD2Ev': _nop, '@_ZNSt9exceptionD1Ev': _nop,
    '@_ZSt20__throw_length_errorPKc': _thr('@_ZTISt12length_error'),
    '@_ZSt17__throw_bad_allocv': _thr('@_ZTISt9bad_alloc'), '@_ZSt28__throw_bad_array_new_lengthv': _thr('@_ZTISt9bad_alloc'),
    '@_ZSt20__throw_out_of_rangePKc': _thr('@_ZTISt12out_of_range'),
    '@_ZSt24__throw_out_of_range_fmtPKcz': _thr('@_ZTISt12out_of_range'),
    '@_ZSt24__throw_invalid_argumentPKc': _thr('@_ZTISt16invalid_argument'),
    '@cos': _f1('fcos'), '@sin': _f1('fsin'), '@tan': _f1('ftan'), '@atan': _f1('fatan'), '@asin': _f1('fasin'), '@acos': _f1('facos'),
    '@atan2': _f2('fatan2'), '@exp': _f1('fexp'), '@log': _f1('flog'), '@sqrt': _f1('fsqrt'), '@fabs': _f1('fabs'),
    '@sinh': _f1('fsinh'), '@cosh': _f1('fcosh'), '@pow': _f2('fpow'), '@hypot': _f2('cabs'),
    '@exp2': lambda m, a: m.D.fpow(2.0, a[0]), '@exp10': lambda m, a: m.D.fpow(10.0, a[0]),
    '@log10': lambda m, a: m.D.fdiv(m.D.flog(a[0]), 2.302585092994046),
    '@log2': lambda m, a: m.D.fdiv(m.D.flog(a[0]), 0.6931471805599453),
    '@cbrt': lambda m, a: m.D.fpow(a[0], 1.0 / 3),
    '@tanh': lambda m, a: m.D.fdiv(m.D.fsinh(a[0]), m.D.fcosh(a[0])),
    '@asinh': lambda m, a: m.D.flog(m.D.fadd(a[0], m.D.fsqrt(m.D.fadd(m.D.fmul(a[0], a[0]), 1.0)))),
    '@acosh': lambda m, a: m.D.flog(m.D.fadd(a[0], m.D.fsqrt(m.D.fadd(m.D.fmul(a[0], a[0]), -1.0)))),
    '@expm1': lambda m, a: m.D.fsub(m.D.fexp(a[0]), 1.0),
    '@log1p': lambda m, a: m.D.flog(m.D.fadd(a[0], 1.0)),
    '@atanh': lambda m, a: m.D.fmul(0.5, m.D.flog(m.D.fdiv(m.D.fadd(1.0, a[0]), m.D.fsub(1.0, a[0])))),
    '@fdim': lambda m, a: m.D.fsub(a[0], a[1]) if m.D.fcmp('ogt', a[0], a[1]) else 0.0,
    '@floor': _round('floor'), '@ceil': _round('ceil'), '@trunc': _round('trunc'), '@round': _round('round'), '@rint': _round('rint'),
    '@nearbyint': _round('rint'), '@lround': _lround('round'), '@llround': _lround('round'), '@lrint': _lround('rint'), '@llrint': _lround('rint'),
    '@ldexp': _ldexp, '@scalbn': _ldexp, '@modf': _modf,
    '@fmod': _f2('frem'), '@sincos': _sincos, '@fma': _fma,
    '@csqrt': lambda m, a: list(m.D.csqrt(a[0], a[1])), '@cabs': lambda m, a: m.D.cabs(a[0], a[1]),
    '@__muldc3': lambda m, a: list(m.D.muldc3(*a)), '@__divdc3': lambda m, a: list(m.D.divdc3(*a)),
    '@fmax': _fminmax(True), '@fmin': _fminmax(False), '@copysign': _copysign,
    '@memcpy': lambda m, a: (m.memcpy(a[0], a[1], a[2]), a[0])[1],
    '@memset': lambda m, a: (m.memset(a[0], a[1], a[2]), a[0])[1],
    '@memmove': lambda m, a: (m.memcpy(a[0], a[1], a[2]), a[0])[1],
    '@llvm.umax.i64': _umm(64, 1), '@llvm.umin.i64': _umm(64, 0), '@llvm.umax.i32': _umm(32, 1), '@llvm.umin.i32': _umm(32, 0),
    '@llvm.smax.i32': _smm(32, 1), '@llvm.smin.i32': _smm(32, 0), '@llvm.smax.i64': _smm(64, 1), '@llvm.smin.i64': _smm(64, 0),
    '@llvm.trap': _abort, '@llvm.is.constant.i64': _zero,
}
EXT_PREFIX = [
    ('@llvm.memcpy', lambda m, a: m.memcpy(a[0], a[1], a[2])),
    ('@llvm.memmove', lambda m, a: m.memcpy(a[0], a[1], a[2])),
    ('@llvm.memset', lambda m, a: m.memset(a[0], a[1], a[2])),
    ('@llvm.fabs', _vec1('fabs')), ('@llvm.sqrt', _vec1('fsqrt')), ('@llvm.sin', _vec1('fsin')), ('@llvm.cos', _vec1('fcos')),
    ('@llvm.exp.', _vec1('fexp')), ('@llvm.log.', _vec1('flog')), ('@llvm.pow.', _f2('fpow')),
    ('@llvm.fma', _fma), ('@llvm.fmuladd', _fma), ('@llvm.copysign', _copysign),
    ('@llvm.floor', _round('floor')), ('@llvm.ceil', _round('ceil')), ('@llvm.trunc.f', _round('trunc')), ('@llvm.round.', _round('round')),
    ('@llvm.rint', _round('rint')), ('@llvm.nearbyint', _round('rint')), ('@llvm.roundeven', _round('rint')),
    ('@llvm.lround', _lround('round')), ('@llvm.llround', _lround('round')), ('@llvm.lrint', _lround('rint')), ('@llvm.ldexp', _ldexp),
    ('@llvm.log10', lambda m, a: EXTERNALS['@log10'](m, a)), ('@llvm.log2', lambda m, a: EXTERNALS['@log2'](m, a)),
    ('@llvm.exp2', lambda m, a: EXTERNALS['@exp2'](m, a)), ('@llvm.tan.', _vec1('ftan')),
    ('@llvm.maxnum', _fminmax(True)), ('@llvm.minnum', _fminmax(False)),
    ('@llvm.powi', lambda m, a: m.D.fpow(a[0], float(sgn(m.conc(a[1]), 32)))),
    ('@llvm.eh.typeid.for', lambda m, a: m.typeid(_gname(m, a[0]))),
    ('@llvm.is.fpclass', _fclass), ('@llvm.stacksave', _zero), ('@llvm.stackrestore', _nop),
    ('@llvm.abs.i32', lambda m, a: abs(sgn(m.conc(a[0]), 32)) & 0xffffffff),
    ('@llvm.expect', _ident), ('@llvm.va_', _nop), ('@llvm.objectsize', lambda m, a: (1 << 64) - 1),
    ('@llvm.ubsantrap', _abort),
]


def _gname(m, a):
    for n, ad in m.gaddr.items():
        if ad == a:
            return n
    return None

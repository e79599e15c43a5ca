"""LLVM 18 textual IR: parser (types, globals, functions)."""
import re
import struct

TOK = re.compile(r'''
 (?P<str>c?"(?:[^"\\]|\\.)*")
|(?P<loc>%"(?:[^"\\]|\\.)*"|%[-\w$.]+)
|(?P<glo>@"(?:[^"\\]|\\.)*"|@[-\w$.]+)
|(?P<meta>!(?:"[^"]*"|[\w.$-]*))
|(?P<attr>\#\d+)
|(?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
|(?P<num>-?\d+(?:\.\d+(?:[eE][+-]?\d+)?)?)
|(?P<dots>\.\.\.)
|(?P<word>[A-Za-z_$.][\w$.]*)
|(?P<p>[()\[\]{}<>,=*:|])
|(?P<ws>\s+)
''', re.X)


class IRError(Exception):
    pass


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        if s[pos] == ';':
            break
        m = TOK.match(s, pos)
        if not m:
            raise IRError('token: ' + s[pos:pos + 40])
        pos = m.end()
        if m.lastgroup != 'ws':
            out.append(m.group())
    return out


# ---- types: tuples
# ('i', n) ('double',) ('float',) ('ptr',) ('void',) ('arr', n, t) ('struct', (t..), packed) ('named', name) ('vec', n, t)
# ('label',) ('metadata',) ('fn', ret, args, vararg)

class Types:
    def __init__(self):
        self.named = {}
        self.cache = {}

    def resolve(self, t):
        while t[0] == 'named':
            t = self.named[t[1]]
        return t

    def size_align(self, t):
        r = self.cache.get(t)
        if r is None:
            r = self.cache[t] = self._sa(t)
        return r

    def _sa(self, t):
        k = t[0]
        if k == 'i':
            n = t[1]
            b = 1
            while b * 8 < n:
                b *= 2
            return b, min(b, 16)
        if k == 'double' or k == 'ptr':
            return 8, 8
        if k == 'float':
            return 4, 4
        if k == 'x86_fp80':
            return 16, 16
        if k == 'arr':
            s, a = self.size_align(t[2])
            return s * t[1], a
        if k == 'vec':
            s, a = self.size_align(t[2])
            return s * t[1], s * t[1]
        if k == 'named':
            return self.size_align(self.resolve(t))
        if k == 'struct':
            off = 0
            al = 1
            for e in t[1]:
                s, a = self.size_align(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        if k == 'opaque':
            return 0, 1
        raise IRError('size of %r' % (t,))

    def size(self, t):
        return self.size_align(t)[0]

    def offset(self, t, i):
        """(offset, type) of element i"""
        t = self.resolve(t)
        if t[0] == 'struct':
            off = 0
            for j, e in enumerate(t[1]):
                s, a = self.size_align(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a
                if j == i:
                    return off, e
                off += s
            raise IRError('struct index')
        if t[0] in ('arr', 'vec'):
            return self.size(t[2]) * i, t[2]
        raise IRError('index into %r' % (t,))


PARAM_ATTR_KEEP = ('true', 'false', 'null', 'undef', 'poison', 'zeroinitializer', 'none',
                   'getelementptr', 'inttoptr', 'ptrtoint', 'bitcast', 'add', 'sub', 'mul', 'select', 'icmp', 'trunc',
                   'zext', 'sext', 'shl', 'splat', 'asm')


class P:
    """token stream parser"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        r = self.next()
        if r != x:
            raise IRError('expected %s got %s in %s' % (x, r, ' '.join(self.t)))

    def type(self):
        tok = self.next()
        if tok[0] == 'i' and tok[1:].isdigit():
            t = ('i', int(tok[1:]))
        elif tok in ('double', 'float', 'ptr', 'void', 'label', 'metadata', 'opaque', 'x86_fp80', 'token'):
            t = (tok,)
            if tok == 'ptr' and self.peek() == 'addrspace':
                self.i += 1
                self.skip_parens()
        elif tok == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif tok == '<':
            if self.peek() == '{':
                self.next()
                t = ('struct', self.typelist('}'), True)
                self.expect('>')
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        elif tok == '{':
            t = ('struct', self.typelist('}'), False)
        elif tok[0] == '%':
            t = ('named', tok)
        else:
            raise IRError('type %s in %s' % (tok, ' '.join(self.t)))
        while self.peek() == '(':
            # function type
            self.next()
            args = []
            va = False
            while not self.accept(')'):
                if self.accept('...'):
                    va = True
                else:
                    args.append(self.type())
                    self.skip_attrs()
                self.accept(',')
            t = ('fn', t, tuple(args), va)
        return t

    def typelist(self, end):
        out = []
        while not self.accept(end):
            out.append(self.type())
            self.accept(',')
        return tuple(out)

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def skip_attrs(self):
        """parameter/return attributes; returns dict of interesting ones"""
        out = {}
        while True:
            w = self.peek()
            if w is None or w in PARAM_ATTR_KEEP or not re.match(r'^[a-z_]+$', w):
                if w is not None and w[0] == '"':
                    self.next()
                    continue
                if w is not None and w[0] == '#':
                    self.next()
                    continue
                return out
            self.next()
            if w == 'align' and self.peek() and self.peek().isdigit():
                self.next()
            elif self.peek() == '(':
                if w in ('byval', 'sret'):
                    self.next()
                    out[w] = self.type()
                    self.expect(')')
                else:
                    self.skip_parens()
            if w in ('byval', 'sret') and w not in out:
                out[w] = True

    # values: ('r', name) register, ('c', pyvalue) constant, ('g', name) global address,
    # ('agg', type, [values]) , ('ce', ...) constant expression
    def value(self, t):
        tok = self.next()
        if tok[0] == '%':
            return ('r', tok)
        if tok[0] == '@':
            return ('g', tok)
        rt = self.m.types.resolve(t) if t[0] == 'named' else t
        if tok == 'null':
            return ('c', 0)
        if tok == 'true':
            return ('c', 1)
        if tok == 'false':
            return ('c', 0)
        if tok in ('undef', 'poison'):
            return ('undef', t)
        if tok == 'none':
            return ('c', 0)
        if tok == 'zeroinitializer':
            return self.zero(rt)
        if tok[0] == 'c' and len(tok) > 1 and tok[1] == '"':
            bs = unescape(tok[2:-1])
            return ('agg', t, [('c', b) for b in bs])
        if tok in ('[', '{', '<'):
            packed = False
            if tok == '<' and self.peek() == '{':
                self.next()
                packed = True
                tok = '{'
            end = {'[': ']', '{': '}', '<': '>'}[tok]
            vals = []
            while not self.accept(end):
                et = self.type()
                vals.append(self.value(et))
                self.accept(',')
            if packed:
                self.expect('>')
            return ('agg', t, vals)
        if tok == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw') or self.peek() == 'inrange':
                w = self.next()
                if w == 'inrange':
                    self.skip_parens()
            self.expect('(')
            et = self.type()
            self.expect(',')
            pt = self.type()
            base = self.value(pt)
            idx = []
            while self.accept(','):
                self.accept('inrange')
                it = self.type()
                idx.append((it, self.value(it)))
            self.expect(')')
            return ('ce', 'gep', et, base, idx)
        if tok in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext'):
            self.expect('(')
            ft = self.type()
            v = self.value(ft)
            self.expect('to')
            tt = self.type()
            self.expect(')')
            return ('ce', tok, ft, v, tt)
        if tok in ('add', 'sub', 'mul', 'shl'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            ft = self.type()
            a = self.value(ft)
            self.expect(',')
            self.type()
            b = self.value(ft)
            self.expect(')')
            return ('ce', tok, ft, a, b)
        if rt[0] == 'i':
            v = int(tok)
            return ('c', v & ((1 << rt[1]) - 1))
        if rt[0] == 'double':
            if tok.startswith('0x'):
                return ('c', struct.unpack('<d', struct.pack('<Q', int(tok, 16)))[0])
            return ('c', float(tok))
        if rt[0] == 'float':
            if tok.startswith('0x'):
                return ('c', struct.unpack('<d', struct.pack('<Q', int(tok, 16)))[0])
            return ('c', float(tok))
        raise IRError('value %s of type %r in %s' % (tok, t, ' '.join(self.t)))

    def zero(self, rt):
        rt = self.m.types.resolve(rt)
        if rt[0] in ('i', 'ptr'):
            return ('c', 0)
        if rt[0] in ('double', 'float'):
            return ('c', 0.0)
        if rt[0] in ('arr', 'vec'):
            return ('agg', rt, [self.zero(rt[2])] * rt[1])
        if rt[0] == 'struct':
            return ('agg', rt, [self.zero(e) for e in rt[1]])
        raise IRError('zero %r' % (rt,))


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Func:
    def __init__(self, name, ret, params):
        self.name = name
        self.ret = ret
        self.params = params     # [(type, name, attrs)]
        self.blocks = {}         # label -> [token lists]
        self.entry = None
        self.compiled = None


class Module:
    def __init__(self, text):
        self.types = Types()
        self.globals = {}
        self.tls = set()        # name -> (type, init or None, const)
        self.funcs = {}
        self.decls = {}
        self.aliases = {}
        self.ctors = []
        self.parse(text)

    def parse(self, text):
        lines = text.split('\n')
        # types first
        for ln in lines:
            if ln.startswith('%') and ' = type ' in ln:
                p = P(tokenize(ln), self)
                name = p.next()
                p.expect('=')
                p.expect('type')
                self.types.named[name] = p.type()
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln or ln[0] in ';!':
                continue
            if ln.startswith('define '):
                f = self.header(ln)
                cur = None
                pend = ''
                while True:
                    ln = lines[i]
                    i += 1
                    if ln.startswith('}'):
                        break
                    if not ln.strip() or ln.lstrip().startswith(';'):
                        continue
                    if not ln[0].isspace():
                        m = re.match(r'^("(?:[^"\\]|\\.)*"|[-\w$.]+):', ln)
                        lab = '%' + m.group(1)
                        cur = f.blocks[lab] = []
                        if f.entry is None:
                            f.entry = lab
                        continue
                    if cur is None:
                        # implicit entry label: first unnamed number
                        lab = '%' + str(len(f.params)) if all(re.match(r'%\d+$', p[1] or '%0') for p in f.params) else '%0'
                        f.entry = lab
                        cur = f.blocks[lab] = []
                    # continuation lines (switch, invoke, landingpad)
                    s = ln
                    while True:
                        st = s.strip()
                        nxt = lines[i].strip() if i < n else ''
                        if st.startswith('switch') and not st.rstrip().endswith(']') and '] ' not in st[-3:]:
                            if not re.search(r'\]\s*(, !.*)?$', st):
                                s += ' ' + nxt
                                i += 1
                                continue
                        if re.match(r'^(%[\w.]+ = )?invoke ', st) and ' unwind label ' not in s and nxt.startswith('to label'):
                            s += ' ' + nxt
                            i += 1
                            continue
                        if ' landingpad ' in ' ' + st and (nxt.startswith('catch') or nxt.startswith('cleanup') or nxt.startswith('filter')):
                            s += ' ' + nxt
                            i += 1
                            continue
                        break
                    cur.append(s.strip())
                self.funcs[f.name] = f
            elif ln.startswith('declare '):
                f = self.header(ln)
                self.decls[f.name] = f
            elif ln.startswith('@'):
                self.glob(ln)

    def header(self, ln):
        ln = re.sub(r'\s*\{\s*$', '', ln)
        p = P(tokenize(ln), self)
        p.next()
        # skip linkage etc. until a type
        while True:
            w = p.peek()
            if w in ('double', 'float', 'ptr', 'void', '{', '[', '<', 'x86_fp80') or w[0] == '%' or re.match(r'^i\d+$', w):
                break
            p.next()
            if p.peek() == '(':
                p.skip_parens()
            elif w == 'align':
                p.next()
        rt = p.type()
        p.skip_attrs()
        name = p.next()
        p.expect('(')
        params = []
        k = 0
        while not p.accept(')'):
            if p.accept('...'):
                continue
            t = p.type()
            at = p.skip_attrs()
            nm = None
            if p.peek() and p.peek()[0] == '%':
                nm = p.next()
            else:
                nm = '%' + str(k)
            k += 1
            params.append((t, nm, at))
            p.accept(',')
        return Func(name, rt, params)

    def glob(self, ln):
        p = P(tokenize(ln), self)
        name = p.next()
        p.expect('=')
        if ' alias ' in ln:
            while p.next() != 'alias':
                pass
            p.type()
            p.expect(',')
            p.type()
            self.aliases[name] = p.next()
            return
        ext = False
        const = False
        while True:
            w = p.next()
            if w in ('global', 'constant'):
                const = w == 'constant'
                break
            if w in ('external', 'extern_weak'):
                ext = True
            if w == 'thread_local':
                self.tls.add(name)
            if w == 'comdat' or p.peek() == '(':
                if p.peek() == '(':
                    p.skip_parens()
        t = p.type()
        if name in ('@llvm.global_ctors', '@llvm.used', '@llvm.compiler.used'):
            if name == '@llvm.global_ctors':
                self.ctors = re.findall(r'ptr (@[\w.$]+|@"[^"]*"), ptr', ln)
            return
        init = None if ext else p.value(t)
        self.globals[name] = (t, init, const)

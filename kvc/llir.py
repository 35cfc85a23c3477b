"""LLVM IR (text, clang 18 -O1) -> Python code over symbolic values.  The verified text is what clang emits from /repo's
sources on every run; nothing is dropped except debug info and attributes."""
import re, struct, subprocess
from . import term as T

M64 = (1 << 64) - 1

class Unsupported(Exception): pass
class MemFault(Exception): pass
class KThrow(Exception):
    def __init__(self, ti, obj): self.ti, self.obj = ti, obj
class PathAbort(Exception): pass

class _Undef:
    def __repr__(self): return 'UNDEF'
    def __bool__(self): raise Unsupported('branch on undefined value')
UNDEF = _Undef()

# ------------------------------------------------------------------------------------------------------ parsing
_tok = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*")|(?P<loc>%(?:"[^"]*"|[-\w.$]+))|(?P<glo>@(?:"[^"]*"|[-\w.$]+))|(?P<meta>![\w.]*(?:\([^)]*\))?)|
  (?P<attr>\#\d+)|(?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-f]+|-?\d+)|(?P<word>[\w.$]+:?)|(?P<p>\.\.\.|[\[\]{}()<>,=*|:]))''', re.X)

def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = _tok.match(s, i)
        if not m:
            if s[i:].strip() == '': break
            raise Unsupported('tokenize: ' + s[i:i + 60])
        out.append(m.group(m.lastgroup)); i = m.end()
    return out

def unq(x):
    return x[0] + x[2:-1] if len(x) > 1 and x[1] == '"' else x

ATTRS = {'noundef', 'nonnull', 'nocapture', 'readonly', 'readnone', 'writeonly', 'noalias', 'signext', 'zeroext', 'returned',
         'immarg', 'inreg', 'swiftself', 'nofree', 'noundef', 'allocptr', 'allocalign', 'nest', 'dead_on_unwind', 'writable', 'noext'}
PATTRS = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'captures', 'memory', 'range', 'initializes'}

class P:
    """token cursor"""
    def __init__(self, toks, mod): self.t, self.i, self.mod = toks, 0, mod
    def peek(self, k=0): return self.t[self.i + k] if self.i + k < len(self.t) else None
    def next(self): x = self.t[self.i]; self.i += 1; return x
    def eat(self, x):
        if self.peek() == x: self.i += 1; return True
        return False
    def need(self, x):
        if not self.eat(x): raise Unsupported('expected %s at %s' % (x, self.t[self.i:self.i + 8]))
    def skip_attrs(self):
        while True:
            x = self.peek()
            if x in ATTRS: self.i += 1
            elif x in PATTRS:
                self.i += 1
                if x == 'align' and self.peek() != '(': self.i += 1
                elif self.peek() == '(':
                    d = 0
                    while True:
                        y = self.next()
                        if y == '(': d += 1
                        elif y == ')':
                            d -= 1
                            if d == 0: break
            else: return
    def type(self):
        x = self.next()
        if x == 'void': t = ('void',)
        elif x == 'ptr': t = ('ptr',)
        elif x == 'double': t = ('double',)
        elif x == 'float': t = ('float',)
        elif x == 'x86_fp80': t = ('fp80',)
        elif x == 'token' or x == 'metadata' or x == 'label': t = (x,)
        elif x[0] == 'i' and x[1:].isdigit(): t = ('i', int(x[1:]))
        elif x[0] == '%': t = ('named', unq(x)[1:])
        elif x == '[':
            n = int(self.next()); self.need('x'); e = self.type(); self.need(']'); t = ('arr', n, e)
        elif x == '{' or (x == '<' and self.peek() == '{'):
            packed = x == '<'
            if packed: self.next()
            fs = []
            while not self.eat('}'):
                fs.append(self.type()); self.eat(',')
            if packed: self.need('>')
            t = ('struct', tuple(fs), packed)
        elif x == '<':
            n = int(self.next()); self.need('x'); e = self.type(); self.need('>'); t = ('vec', n, e)
        elif x == 'opaque': t = ('opaque',)
        else: raise Unsupported('type ' + x)
        # function types: skip (only after calls)
        return t

class Mod:
    def __init__(self, txt, name):
        self.name = name
        self.types, self.funcs, self.globals, self.decls, self.aliases = {}, {}, {}, set(), {}
        lines = txt.split('\n')
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                nm, ty = l.split(' = type ', 1)
                self.types[unq(nm)[1:]] = ty
            elif l.startswith('@'):
                nm, rest = re.match(r'(@(?:"[^"]*"|[-\w.$]+)) = (.*)', l).groups()
                if re.match(r'(?:[\w()]+ )*alias ', rest): self.aliases[unq(nm)[1:]] = unq(re.findall(r'@(?:"[^"]*"|[-\w.$]+)', rest)[-1])[1:]
                else: self.globals[unq(nm)[1:]] = rest
            elif l.startswith('define'):
                nm = unq(re.search(r'@(?:"[^"]*"|[-\w.$]+)', l).group(0))[1:]
                j = i + 1
                while lines[j] != '}': j += 1
                self.funcs[nm] = (l, lines[i + 1:j])
                i = j
            elif l.startswith('declare'):
                self.decls.add(unq(re.search(r'@(?:"[^"]*"|[-\w.$]+)', l).group(0))[1:])
            i += 1
        self._tc = {}
    def named(self, n):
        if n not in self._tc:
            s = self.types.get(n, 'opaque')
            self._tc[n] = P(tokenize(s), self).type()
        return self._tc[n]
    def size(self, t):
        k = t[0]
        if k == 'i': return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t[1], (t[1] + 7) // 8)
        if k in ('ptr', 'double'): return 8
        if k == 'float': return 4
        if k == 'fp80': return 16
        if k == 'arr': return t[1] * self.size(t[2])
        if k == 'vec': return t[1] * self.size(t[2])
        if k == 'named': return self.size(self.named(t[1]))
        if k == 'struct':
            o = 0
            for f in t[1]:
                if not t[2]: a = self.align(f); o = (o + a - 1) // a * a
                o += self.size(f)
            if not t[2] and t[1]:
                a = self.align(t); o = (o + a - 1) // a * a
            return o
        if k in ('void', 'opaque'): return 0
        raise Unsupported('size of %s' % (t,))
    def align(self, t):
        k = t[0]
        if k in ('arr', 'vec'): return self.align(t[2])
        if k == 'named': return self.align(self.named(t[1]))
        if k == 'struct': return 1 if t[2] else max([self.align(f) for f in t[1]] or [1])
        return max(1, min(16, self.size(t)))
    def field_off(self, t, idx):
        o = 0
        for k, f in enumerate(t[1]):
            if not t[2]: a = self.align(f); o = (o + a - 1) // a * a
            if k == idx: return o, f
            o += self.size(f)
    def resolve(self, t): return self.named(t[1]) if t[0] == 'named' else t

def fpconst(s):
    if s.startswith('0x'): return T.from_double(struct.unpack('<d', struct.pack('<Q', int(s, 16)))[0])
    return T.from_double(float(s))

def cstr(s):
    s = s[2:-1]
    out, i = bytearray(), 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return bytes(out)

def unclash(txts):
    """functions local to one module get a name of their own when another module defines the same name"""
    rx = re.compile(r'^define (internal |private )?.*?(@(?:"[^"]*"|[-\w.$]+))\(', re.M)
    defs = [{m.group(2): bool(m.group(1)) for m in rx.finditer(t)} for t in txts]
    out = []
    for k, t in enumerate(txts):
        cl = [n for n, loc in defs[k].items() if loc and any(n in d for j, d in enumerate(defs) if j != k)]
        if cl:
            new = {n: (n[:-1] + '.kv%d"' % k if n.endswith('"') else n + '.kv%d' % k) for n in cl}
            t = re.sub(r'@(?:"[^"]*"|[-\w.$]+)', lambda m: new.get(m.group(0), m.group(0)), t)
        out.append(t)
    return out
class Program:
    """several IR modules linked by symbol name"""
    GBASE, FBASE = 0x10000000, 0x70000000
    def __init__(self, paths):
        self.mods = [Mod(t, n) for t, (_, n) in zip(unclash([open(p).read() for p, _ in paths]), paths)]
        self.where, self.gwhere = {}, {}
        for m in self.mods:
            for f in m.funcs:
                self.where.setdefault(f, m)
        for m in self.mods:
            for g, rest in m.globals.items():
                ext = re.match(r'external ', rest) is not None
                if not ext: self.gwhere.setdefault(g, m)
        self.gaddrs, self.ginit, self.gtop = {}, {}, self.GBASE
        self.gsize = {}
        self.faddrs, self.addrf = {}, {}
        self.code = {}
        self.executed = set()
        self._dem = None
    # private symbols (.str etc.) are module local
    def demangled(self):
        if self._dem is None:
            names = sorted(self.where)
            ext = sorted(set().union(*[m.decls for m in self.mods]) - set(names))
            allv = names + ext
            out = subprocess.run(['c++filt'], input='\n'.join(allv), capture_output=True, text=True).stdout.split('\n')
            self._dem = dict(zip(allv, out))
        return self._dem
    def find(self, pat):
        """mangled names whose demangled form matches the regex"""
        r = re.compile(pat)
        return [k for k, v in self.demangled().items() if r.search(v)]
    def faddr(self, name):
        a = self.faddrs.get(name)
        if a is None:
            a = self.FBASE + 16 * len(self.faddrs)
            self.faddrs[name] = a; self.addrf[a] = name
        return a
    def gaddr(self, name, mod):
        if name in mod.aliases:
            return self.sym(mod.aliases[name], mod)
        rest0 = mod.globals.get(name, '')
        local = re.match(r'(?:private|internal) ', rest0)
        key = (mod.name, name) if local else name
        a = self.gaddrs.get(key)
        if a is not None: return a
        m = mod if local else self.gwhere.get(name, mod)
        rest = m.globals.get(name)
        if rest is None: raise Unsupported('global ' + name)
        p = P(tokenize(re.sub(r'^(?:(?:private|internal|external|linkonce_odr|weak_odr|weak|linkonce|common|appending|available_externally|dso_local|hidden|unnamed_addr|local_unnamed_addr|thread_local(?:\(\w+\))?|default|protected)\s+)*', '', rest)), m)
        kind = p.next()
        ext = re.match(r'(?:\w+ )*external ', rest) is not None
        ty = p.type()
        sz = max(m.size(ty), 8)
        a = self.gtop
        self.gtop += (sz + 63) // 16 * 16
        self.gaddrs[key] = a
        self.gsize[a] = sz
        for w in range(a, a + sz + 7, 8): self.ginit[w & ~7] = 0 if not ext else UNDEF
        if not ext:
            self._init(p, m, ty, a)
        return a
    def sym(self, name, mod):
        if name in self.where or name in mod.decls: return self.faddr(name)
        if name in mod.aliases: return self.sym(mod.aliases[name], mod)
        return self.gaddr(name, mod)
    def _put(self, addr, v, n):
        w = addr & ~7
        if n == 8 and addr == w: self.ginit[w] = v; return
        if n > 8:
            raise Unsupported('wide int global')
        sh = (addr - w) * 8
        cur = self.ginit.get(w, 0)
        if cur is UNDEF: cur = 0
        if isinstance(v, T.Term): raise Unsupported('misaligned double global')
        if sh + 8 * n > 64:
            lo = 64 - sh
            self._put(addr, v & ((1 << lo) - 1), lo // 8)
            self._put(w + 8, v >> lo, n - lo // 8)
            return
        msk = ((1 << (8 * n)) - 1) << sh
        self.ginit[w] = (cur & ~msk) | ((v << sh) & msk)
    def _init(self, p, m, ty, a):
        ty = m.resolve(ty)
        x = p.peek()
        if x in ('zeroinitializer', 'undef', 'poison', 'null'):
            p.next()
            def z(t, a):
                t = m.resolve(t)
                if t[0] == 'double': self._put(a, T.ZERO, 8)
                elif t[0] == 'arr':
                    for i in range(t[1]): z(t[2], a + i * m.size(t[2]))
                elif t[0] == 'struct':
                    for i in range(len(t[1])):
                        o, f = m.field_off(t, i); z(f, a + o)
            if m.size(ty) < 100000: z(ty, a)
            return
        if x and x.startswith('c"'):
            for k, b in enumerate(cstr(p.next())): self._put(a + k, b, 1)
            return
        if x == '[' and ty[0] == 'arr':
            p.next()
            k = 0
            while not p.eat(']'):
                t = p.type(); self._init(p, m, t, a + k * m.size(ty[2])); k += 1; p.eat(',')
            return
        if x in ('{', '<') and ty[0] == 'struct':
            pk = p.next() == '<'
            if pk: p.need('{')
            k = 0
            while not p.eat('}'):
                t = p.type()
                o, _ = m.field_off(ty, k)
                self._init(p, m, t, a + o); k += 1; p.eat(',')
            if pk: p.need('>')
            return
        v = self.cval(p, m, ty)
        self._put(a, v, m.size(ty))
    def cval(self, p, m, ty):
        """constant expression value"""
        x = p.next()
        if x[0] == '@': return self.sym(unq(x)[1:], m)
        if ty[0] == 'double': return fpconst(x)
        if x == 'true': return 1
        if x in ('false', 'null', 'zeroinitializer'): return 0 if ty[0] != 'double' else T.ZERO
        if x in ('undef', 'poison'): return 0
        if re.match(r'-?\d+$', x): return int(x) & ((1 << (ty[1] if ty[0] == 'i' else 64)) - 1)
        if x == 'getelementptr':
            while p.peek() in ('inbounds', 'inrange', 'nuw', 'nusw'):
                p.next()
                if p.peek() == '(' and p.t[p.i - 1] == 'inrange':
                    while p.next() != ')': pass
            p.need('(')
            bt = p.type(); p.need(',')
            pt = p.type(); base = self.cval(p, m, pt)
            first, cur = True, bt
            while p.eat(','):
                p.eat('inrange')
                it = p.type(); iv = self.cval(p, m, it)
                if iv >> 63: iv -= 1 << 64
                elif it == ('i', 32) and iv >> 31: iv -= 1 << 32
                if first: base += iv * m.size(bt); first = False
                else:
                    cur = m.resolve(cur)
                    if cur[0] == 'struct':
                        o, cur = m.field_off(cur, iv); base += o
                    else: base += iv * m.size(cur[2]); cur = cur[2]
            p.need(')')
            return base & M64
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            p.need('('); t = p.type(); v = self.cval(p, m, t); p.need('to'); t2 = p.type(); p.need(')')
            return v & ((1 << (8 * m.size(t2))) - 1)
        if x in ('sub', 'add', 'mul'):
            while p.peek() in ('nuw', 'nsw'): p.next()
            p.need('('); t = p.type(); u = self.cval(p, m, t); p.need(','); t = p.type(); v = self.cval(p, m, t); p.need(')')
            return (u - v if x == 'sub' else u + v if x == 'add' else u * v) & M64
        if ty[0] == 'float': return ('floatbits', x)              # opaque: any use other than passing it on is unsupported
        raise Unsupported('constant ' + x)

    def get(self, name):
        c = self.code.get(name)
        if c is None:
            m = self.where.get(name)
            if m is None:
                for mm in self.mods:
                    if name in mm.aliases:
                        c = self.code[name] = self.get(mm.aliases[name]); return c
                return None
            c = self.code[name] = FnGen(self, m, name).build()
        self.executed.add(name)
        return c

BINI = {'add': '(%s + %s) & %s', 'sub': '(%s - %s) & %s', 'mul': '(%s * %s) & %s'}

class FnGen:
    def __init__(self, prog, mod, name):
        self.prog, self.m, self.name = prog, mod, name
        self.head, self.body = mod.funcs[name]
        self.ns = {}
        self.names = {}
        self.lines = []
        self.kc = 0
    def loc(self, x):
        x = unq(x)
        v = self.names.get(x)
        if v is None:
            v = self.names[x] = 'v%d' % len(self.names)
        return v
    def K(self, v):
        self.kc += 1
        n = 'K%d' % self.kc
        self.ns[n] = v
        return n
    def val(self, p, ty):
        x = p.peek()
        if x[0] == '%': p.next(); return self.loc(x)
        rt = self.m.resolve(ty)
        if rt[0] == 'double':
            p.next()
            if x in ('undef', 'poison'): return self.K(UNDEF)
            if x == 'zeroinitializer': return self.K(T.ZERO)
            return self.K(fpconst(x))
        if rt[0] in ('struct', 'arr'):
            return self.K(self.agg(p, rt))
        if rt[0] == 'metadata':
            raise Unsupported('metadata')
        if x in ('undef', 'poison'): p.next(); return '0'
        return str(self.prog.cval(p, self.m, rt))
    def agg(self, p, rt):
        x = p.next()
        def z(t):
            t = self.m.resolve(t)
            if t[0] == 'double': return T.ZERO
            if t[0] == 'struct': return tuple(z(f) for f in t[1])
            if t[0] == 'arr': return tuple(z(t[2]) for _ in range(t[1]))
            return 0
        if x in ('zeroinitializer', 'undef', 'poison'): return z(rt)
        out = []
        end = {'{': '}', '[': ']'}[x]
        while not p.eat(end):
            t = p.type()
            t = self.m.resolve(t)
            if t[0] in ('struct', 'arr'): out.append(self.agg(p, t))
            elif t[0] == 'double': out.append(fpconst(p.next()))
            else: out.append(self.prog.cval(p, self.m, t))
            p.eat(',')
        return tuple(out)
    def tyval(self, p):
        t = p.type(); p.skip_attrs(); return t, self.val(p, t)

    def build(self):
        m = self.m
        # parameters
        h = self.head
        p = P(tokenize(h), m)
        while not (p.peek()[0] == '@' and p.peek(1) == '('): p.next()
        p.next(); p.need('(')
        params = []
        na = 0
        while not p.eat(')'):
            if p.peek() == '...': p.next(); continue
            p.type(); p.skip_attrs()
            if p.peek() and p.peek()[0] == '%': params.append(self.loc(p.next()))
            else: params.append(self.loc('%%%d' % na))
            na += 1
            p.eat(',')
        # blocks
        blocks, cur = [], None
        pend = ''
        first = '%' + str(na)
        depth = 0
        for l in self.body:
            s = l.strip()
            if not s or s.startswith(';'): continue
            mm = re.match(r'^("[^"]*"|[-\w.$]+):', l)
            if mm:
                nm = mm.group(1)
                cur = ('%' + nm, []); blocks.append((unq(cur[0]), cur[1])); cur = blocks[-1]
                continue
            if cur is None:
                cur = (first, []); blocks.append(cur)
            # continuation lines (switch tables, landingpad clauses, invoke destinations)
            if pend:
                pend += ' ' + s
                if depth_ok(pend): cur[1].append(pend); pend = ''
                continue
            if s.startswith('switch') or ' = switch' in s:
                if not depth_ok(s): pend = s; continue
                cur[1].append(s)
            elif (s.startswith('to label') or s.startswith('catch ') or s.startswith('cleanup') or s.startswith('filter ')):
                cur[1][-1] += ' ' + s
            else: cur[1].append(s)
        self.bidx = {b[0]: i for i, b in enumerate(blocks)}
        # entry block may be referenced by an unnamed number
        parsed = []
        self.phis = {}
        for bn, ins in blocks:
            ph = []
            rest = []
            for s in ins:
                s = re.sub(r',?\s*!\w+(?:\.\w+)* ![\d]+', '', s)
                mm = re.match(r'^(%(?:"[^"]*"|[-\w.$]+)) = phi (.*)$', s)
                if mm:
                    q = P(tokenize(mm.group(2)), m)
                    while q.peek() in ('nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'): q.next()
                    t = q.type()
                    src = {}
                    while q.eat('['):
                        v = self.val(q, t); q.need(',')
                        b = unq(q.next()); q.need(']'); q.eat(',')
                        src[b] = v
                    ph.append((self.loc(mm.group(1)), src))
                else: rest.append(s)
            self.phis[bn] = ph
            parsed.append((bn, rest))
        out = ['def f(E, %s):' % ', '.join(params + ['*va']), '  b = 0; cur = None; E_mem = E.mem', '  while True:', '    E.step()']
        def emit_tree(lo, hi, ind):
            if hi - lo == 1:
                self.lines = []
                self.cb = parsed[lo][0]
                for s in parsed[lo][1]: self.ins(s)
                out.extend(' ' * ind + l for l in self.lines)
                return
            mid = (lo + hi) // 2
            out.append(' ' * ind + 'if b < %d:' % mid)
            emit_tree(lo, mid, ind + 1)
            out.append(' ' * ind + 'else:')
            emit_tree(mid, hi, ind + 1)
        emit_tree(0, len(parsed), 4)
        src = '\n'.join(out)
        self.ns.update(T=T, UNDEF=UNDEF, KThrow=KThrow, Unsupported=Unsupported, t_add=T.add, t_sub=T.sub, t_mul=T.mul, t_div=T.div, t_neg=T.neg)
        try:
            exec(compile(src, self.name, 'exec'), self.ns)
        except SyntaxError as e:
            raise Unsupported('codegen %s: %s\n%s' % (self.name, e, src[:3000]))
        f = self.ns['f']
        f.llname = self.name
        return f

    def goto(self, target, ind=''):
        target = unq(target)
        ph = self.phis[target]
        L = []
        if ph:
            lhs, rhs = [], []
            for v, src in ph:
                s = src.get(self.cb)
                if s is None: raise Unsupported('phi edge %s->%s in %s' % (self.cb, target, self.name))
                if s != v: lhs.append(v); rhs.append(s)
            if lhs: L.append(ind + ', '.join(lhs) + ' = ' + ', '.join(rhs))
        L.append(ind + 'b = %d; continue' % self.bidx[target])
        return L

    def ins(self, s):
        L = self.lines
        m = self.m
        dst = None
        mm = re.match(r'^(%(?:"[^"]*"|[-\w.$]+)) = (.*)$', s)
        if mm: dst, s = self.loc(mm.group(1)), mm.group(2)
        p = P(tokenize(s), m)
        op = p.next()
        while op in ('tail', 'musttail', 'notail'): op = p.next()
        FM = ('nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast', 'nuw', 'nsw', 'exact', 'inbounds', 'disjoint', 'nneg', 'volatile', 'atomic', 'nusw', 'samesign')
        while p.peek() in FM: p.next()
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            t, a = self.tyval(p); p.need(','); b = self.val(p, t)
            if t[0] != 'double': raise Unsupported('fp type %s' % (t,))
            L.append('%s = t_%s(%s, %s)' % (dst, op[1:], a, b))
        elif op == 'fneg':
            t, a = self.tyval(p); L.append('%s = t_neg(%s)' % (dst, a))
        elif op == 'fcmp':
            pr = p.next(); t, a = self.tyval(p); p.need(','); b = self.val(p, t)
            L.append('%s = E.fcmp(%r, %s, %s)' % (dst, pr, a, b))
        elif op == 'icmp':
            pr = p.next(); t, a = self.tyval(p); p.need(','); b = self.val(p, t)
            n = 64 if t[0] == 'ptr' else t[1]
            o = {'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>=', 'slt': '<', 'sle': '<=', 'sgt': '>', 'sge': '>='}[pr]
            if pr[0] == 's':
                L.append('%s = E.icmps(%r, %s, %s, %d)' % (dst, o, a, b, n))
            else:
                L.append('%s = E.icmpu(%r, %s, %s, %d)' % (dst, o, a, b, n))
        elif op in ('add', 'sub', 'mul'):
            t, a = self.tyval(p); p.need(','); b = self.val(p, t)
            L.append('%s = %s' % (dst, BINI[op] % (a, b, (1 << t[1]) - 1)))
        elif op in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            t, a = self.tyval(p); p.need(','); b = self.val(p, t)
            L.append('%s = E.bin_%s(%s, %s, %d)' % (dst, op, a, b, t[1]))
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            t, a = self.tyval(p)
            t2 = None
            if p.eat('to'): t2 = p.type()
            n = t[1] if t[0] == 'i' else 64
            if op == 'zext': L.append('%s = E.zext(%s, %d, %d)' % (dst, a, n, t2[1]))
            elif op == 'sext': L.append('%s = E.sext(%s, %d, %d)' % (dst, a, n, t2[1]))
            elif op == 'trunc': L.append('%s = E.trunc(%s, %d)' % (dst, a, t2[1]))
            elif op in ('ptrtoint', 'inttoptr', 'freeze'): L.append('%s = %s' % (dst, a))
            elif op == 'bitcast':
                if t[0] == t2[0]: L.append('%s = %s' % (dst, a))
                elif t2[0] == 'double': L.append('%s = E.bits2d(%s)' % (dst, a))
                else: L.append('%s = E.d2bits(%s)' % (dst, a))
            elif op in ('sitofp', 'uitofp'): L.append('%s = E.i2f(%s, %d, %r)' % (dst, a, n, op == 'sitofp'))
            elif op in ('fptosi', 'fptoui'): L.append('%s = E.f2i(%s, %d, %r)' % (dst, a, t2[1], op == 'fptosi'))
            else: raise Unsupported(op)
        elif op == 'select':
            t, c = self.tyval(p); p.need(','); t1, a = self.tyval(p); p.need(','); t2, b = self.tyval(p)
            L.append('%s = %s if E.truth(%s) else %s' % (dst, a, c, b))
        elif op == 'br':
            if p.peek() == 'label':
                p.next(); L.extend(self.goto(p.next()))
            else:
                t, c = self.tyval(p); p.need(','); p.need('label'); x = p.next(); p.need(','); p.need('label'); y = p.next()
                L.append('if E.truth(%s):' % c)
                L.extend(self.goto(x, ' '))
                L.extend(self.goto(y))
        elif op == 'switch':
            t, v = self.tyval(p); p.need(','); p.need('label'); d = p.next(); p.need('[')
            L.append('sw = E.conc(%s)' % v)
            while not p.eat(']'):
                t, c = self.tyval(p); p.need(','); p.need('label'); x = p.next()
                L.append('if sw == %s:' % c)
                L.extend(self.goto(x, ' '))
            L.extend(self.goto(d))
        elif op == 'ret':
            t = p.type()
            L.append('return None' if t[0] == 'void' else 'return ' + self.val(p, t))
        elif op == 'unreachable': L.append('E.unreachable(%r)' % self.name)
        elif op == 'alloca':
            t = p.type()
            n = '1'
            if p.eat(','):
                if p.peek() == 'align': pass
                else: _, n = self.tyval(p)
            L.append('%s = E.alloca(%d * %s)' % (dst, max(m.size(t), 1), n))
        elif op == 'load':
            t = p.type(); p.need(','); _, a = self.tyval(p)
            L.append('%s = %s' % (dst, self.loadx(t, a)))
        elif op == 'store':
            t, v = self.tyval(p); p.need(','); _, a = self.tyval(p)
            self.storex(t, v, a)
        elif op == 'getelementptr':
            t = p.type(); p.need(','); _, base = self.tyval(p)
            off, terms, cur, first = 0, [], t, True
            while p.eat(','):
                it = p.type(); iv = self.val(p, it)
                if first: sz, nxt = m.size(t), t; first = False
                else:
                    cur = m.resolve(cur)
                    if cur[0] == 'struct':
                        o, cur = m.field_off(cur, int(iv)); off += o; continue
                    sz, nxt = m.size(cur[2]), cur[2]
                cur = nxt
                if re.match(r'-?\d+$', iv):
                    k = int(iv)
                    if k >> (it[1] - 1): k -= 1 << it[1]
                    off += k * sz
                else:
                    terms.append('E.idx(%s, %d) * %d' % (iv, it[1], sz))
            e = ' + '.join([base] + terms)
            if off: e += ' + %d' % off if off > 0 else ' - %d' % -off
            L.append('%s = (%s) & %d' % (dst, e, M64) if (terms or off < 0) else '%s = %s' % (dst, e))
        elif op == 'extractvalue':
            t, a = self.tyval(p)
            e = a
            while p.eat(','): e += '[%s]' % p.next()
            L.append('%s = %s' % (dst, e))
        elif op == 'insertvalue':
            t, a = self.tyval(p); p.need(','); t2, v = self.tyval(p)
            ix = []
            while p.eat(','): ix.append(int(p.next()))
            L.append('%s = E.insv(%s, %s, %r)' % (dst, a, v, tuple(ix)))
        elif op in ('call', 'invoke'): self.callx(op, dst, p)
        elif op == 'landingpad':
            t = p.type()
            clean = p.eat('cleanup')
            cl = []
            while p.peek() in ('catch', 'filter'):
                if p.next() == 'filter': raise Unsupported('filter clause')
                ty = p.type(); x = p.peek()
                if x == 'null': p.next(); cl.append('None')
                else: cl.append(repr(unq(p.next())[1:]))
            L.append('%s = E.landing(cur, [%s], %r)' % (dst, ', '.join(cl), bool(clean)))
        elif op == 'resume': L.append('raise cur if cur is not None else Unsupported("resume")')
        elif op == 'fence': pass
        elif op == 'atomicrmw':
            k = p.next(); _, a = self.tyval(p); p.need(','); t, v = self.tyval(p)
            L.append('%s = %s' % (dst or 'tmp', self.loadx(t, a)))
            o = {'add': '+', 'sub': '-', 'and': '&', 'or': '|', 'xor': '^'}.get(k)
            self.storex(t, v if k == 'xchg' else '((%s %s %s) & %d)' % (dst or 'tmp', o, v, (1 << t[1]) - 1), a)
        elif op == 'cmpxchg':
            p.eat('weak'); _, a = self.tyval(p); p.need(','); t, c = self.tyval(p); p.need(','); t, v = self.tyval(p)
            L.append('tmp = %s' % self.loadx(t, a))
            L.append('%s = (tmp, 1 if tmp == %s else 0)' % (dst, c))
            L.append('if tmp == %s:' % c)
            n0 = len(L)
            self.storex(t, v, a)
            L[n0:] = [' ' + x for x in L[n0:]]
        else: raise Unsupported('opcode %s in %s' % (op, self.name))

    def loadx(self, t, a):
        rt = self.m.resolve(t)
        if rt[0] == 'double': return 'E.load_d(%s)' % a
        if rt[0] == 'ptr': return 'E.load_i(%s, 8)' % a
        if rt[0] == 'i':
            if rt[1] == 1: return '(E.load_i(%s, 1) & 1)' % a
            return 'E.load_i(%s, %d)' % (a, self.m.size(rt))
        if rt[0] == 'struct':
            return '(' + ''.join(self.loadx(f, '(%s + %d)' % (a, self.m.field_off(rt, k)[0])) + ',' for k, f in enumerate(rt[1])) + ')'
        if rt[0] == 'arr':
            sz = self.m.size(rt[2])
            return '(' + ''.join(self.loadx(rt[2], '(%s + %d)' % (a, k * sz)) + ',' for k in range(rt[1])) + ')'
        raise Unsupported('load %s' % (t,))
    def storex(self, t, v, a):
        rt = self.m.resolve(t)
        if rt[0] == 'double': self.lines.append('E.store_d(%s, %s)' % (a, v))
        elif rt[0] in ('ptr', 'i'): self.lines.append('E.store_i(%s, %s, %d)' % (a, v, self.m.size(rt)))
        elif rt[0] == 'struct':
            for k, f in enumerate(rt[1]): self.storex(f, '%s[%d]' % (v, k), '(%s + %d)' % (a, self.m.field_off(rt, k)[0]))
        elif rt[0] == 'arr':
            for k in range(rt[1]): self.storex(rt[2], '%s[%d]' % (v, k), '(%s + %d)' % (a, k * self.m.size(rt[2])))
        else: raise Unsupported('store %s' % (t,))

    def callx(self, op, dst, p):
        L = self.lines
        # calling convention / return attributes
        while p.peek() in ('fastcc', 'coldcc', 'ccc', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'): p.next()
        p.skip_attrs()
        rt = p.type()
        if p.peek() == '(':      # function type (varargs)
            d = 0
            while True:
                x = p.next()
                if x == '(': d += 1
                elif x == ')':
                    d -= 1
                    if d == 0: break
        callee = p.next()
        p.need('(')
        args = []
        meta = False
        while not p.eat(')'):
            t = p.type(); p.skip_attrs()
            if t[0] == 'metadata':
                meta = True
                while p.peek() not in (',', ')'): p.next()
            else: args.append(self.val(p, t))
            p.eat(',')
        if callee[0] == '@':
            nm = unq(callee)[1:]
            if nm.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.invariant')):
                if dst: L.append('%s = 0' % dst)
                return
            call = 'E.fn[%r](E%s)' % (nm, ''.join(', ' + a for a in args))
        else:
            call = 'E.callptr(%s%s)' % (self.loc(callee), ''.join(', ' + a for a in args))
        if dst: call = '%s = %s' % (dst, call)
        if op == 'call': L.append(call); return
        while p.peek() != 'to': p.next()
        p.next(); p.need('label'); nd = p.next(); p.need('unwind'); p.need('label'); ud = p.next()
        L.append('try:')
        L.append(' ' + call)
        L.append('except KThrow as ex_:')
        L.append(' cur = ex_')
        L.extend(self.goto(ud, ' '))
        L.extend(self.goto(nd))

def depth_ok(s):
    s = re.sub(r'"[^"]*"', '', s)
    return s.count('[') > 0 and s.count('[') == s.count(']')

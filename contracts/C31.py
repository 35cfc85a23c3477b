"""stark_problem: every reachable object propagates the constant-thrust equations with exactly its parameters."""
from .hf import *
LEVEL = 'proof'
EXPLAIN = 'inductive invariant (parameters of both integrators, initial variational state): established by the constructor, and from an object that satisfies it and is arbitrary otherwise every operation returns what the contract says and re-establishes it; failing integrations and zero mass included; all histories of up to 2 operations besides'
ASSUME = ['heyoka (not installed) replaced by a stand-in: integrating applies an arbitrary function (the flow) of state, duration, parameters and tolerance, and its derivatives for the variational version', 'get_ta_stark, get_ta_stark_var represented by their contract (C27)']
IR_ = ['drivers/stark.cpp', 'drivers/taobj.cpp', 'src/stark_problem.cpp']
def program(): return build.program(IR_, ('-I' + STUB,))
REPLAY = dict(srcs=IR_ + ['src/ta/stark.cpp'], libs=['-lfmt'], stubs=(STUB,))
PN = ('mu', 'veff', 'tol')
P0 = [var(x) for x in PN]
SN = ['x', 'y', 'z', 'vx', 'vy', 'vz', 'm', 'ux', 'uy', 'uz', 'tof']
S0, S1, S2 = ([var(p + x) for x in SN] for p in ('', 'b', 'c'))
TOLD = T.from_double(1e-16)
class St(Case):
    overrides = OV
    sweep_n = 0
    maxpaths = 200
    nsamples = 2
    hist, n, fail, scr = (), 3, None, False
    def init(self):
        self.inputs = ()
        if self.fail != 'mass': self.facts_ = [('ne', s[6], T.ZERO) for s in (S0, S1, S2)]
        if self.fail == 'flow': self.overrides = [(r'^kv_ta_run', self.flow)] + OV[1:] + [(r'^void fmt::v\d+::print<', nop), (r'^fmt::v\d+::vprint', nop)]
        self.a = (P0 + [])[:self.n] + [T.ONE, T.ONE, TOLD][self.n:]
    def flow(self, E, *a):
        ta_run(E, *a)
        self.left -= 1
        return 1 if self.left < 0 else 0
    def alloc(self, E): return E.alloc(E.call('kv_st_size') + 64)
    def prop(self, E, b, s, v):
        o = E.put_doubles([0] * 77)
        E.call('kv_st_var' if v else 'kv_st_prop', b, E.put_doubles(s), o)
        return E.doubles(o, 77 if v else 7)
    def want(self, a, s, v):
        x = (s[:7], s[10], a[0], a[1], s[7:10], a[2])
        F = FLOW(*x)
        if v:
            M = PHI(*x)
            F += [M[i][j] for i in range(7) for j in range(7)] + [M[i][7 + j] for i in range(7) for j in range(3)]
        return F
    def get(self, E, b):
        o = E.put_doubles([0] * 9)
        E.call('kv_st_get', b, o)
        return E.doubles(o, 9)
    def entry(self, E):
        b = self.alloc(E)
        self.left = 1 if self.fail == 'flow' and self.hist else 0
        E.call('kv_st_new', b, E.put_doubles(P0), self.n)
        self.cur, outs, j = list(self.a), [], 0
        if self.scr: E.call('kv_st_scramble', b, E.put_doubles([var('any%d' % k) for k in range(92)]))
        for op in self.hist:
            if op in 'pv':
                s = (S0, S1, S2)[j]; j += 1
                outs.append((op, s, list(self.cur), self.prop(E, b, s, op == 'v')))
            elif op in 'ms':
                k = 'ms'.index(op)
                nv = var('new_%s%d' % (PN[k], j)); j += 1
                E.call('kv_st_set', b, k, nv)
                self.cur[k] = nv
            elif op == 'c':
                b2 = self.alloc(E)
                E.call('kv_st_copy', b2, b); E.call('kv_st_delete', b); b = b2
            else:
                b2 = self.alloc(E)
                E.call('kv_st_new', b2, E.put_doubles([var('z0'), var('z1'), var('z2')]), 3)
                E.call('kv_st_assign', b2, b); E.call('kv_st_delete', b); b = b2
        g = self.get(E, b)
        s = S2
        try:
            for op in ('p', 'v') if self.fail is None else (self.last,): outs.append((op, s, list(self.cur), self.prop(E, b, s, op == 'v')))
            thrown = None
        except KThrow as ex: thrown = ex.ti
        # the same object keeps working
        if self.fail == 'flow':
            self.left = 9
            for op in ('p', 'v'): outs.append((op, S1, list(self.cur), self.prop(E, b, S1, op == 'v')))
        iv, n = E.put_doubles([0] * 70), E.alloc(24)
        E.call('kv_st_inv', b, iv, n)
        return [outs, g, thrown, self.get(E, b), E.doubles(iv, 70), [E.conc(E.load_i(n + 8 * k, 8)) for k in range(3)]]
    def post(self, o, P):
        outs, g, thrown, g2, iv, n = o
        P.check('sizes of the integrators', n == [70, 7, 77], '%s' % n)
        for k in range(70): P.eq('initial variational state %d' % k, iv[k], T.ONE if k // 10 == k % 10 else T.ZERO)
        if self.fail is None: P.check('propagation succeeds', thrown is None, '%s' % thrown)
        elif self.fail == 'flow': P.check('a failed integration is reported', thrown == DOM, '%s' % thrown)
        else: P.check('zero mass is rejected', thrown == DOM, '%s' % thrown)
        for k in range(9):
            for w, x in (('', g), ('afterwards: ', g2)): P.eq(w + ('', 'integrator: ', 'variational integrator: ')[k // 3] + PN[k % 3], x[k], self.cur[k % 3])
        for n, (op, s, a, r) in enumerate(outs):
            for k, (x, y) in enumerate(zip(r, self.want(a, s, op == 'v'))):
                nm = 'final %s' % SN[k] if k < 7 else 'd %s / d initial %s' % (SN[(k - 7) // 7], SN[(k - 7) % 7]) if k < 56 else 'd %s / d %s' % (SN[(k - 56) // 3], SN[7 + (k - 56) % 3])
                P.eq('%s %d: %s' % ('propagate_var' if op == 'v' else 'propagate', n, nm), x, y)
def cases(tier):
    import itertools
    L = [St(name='constructor with %d arguments' % n, n=n) for n in range(4)]
    for h in ' pvmsca': L.append(St(name='valid object, arbitrary otherwise: ' + h, hist=h.strip(), scr=True))
    for k in (1, 2):
        for h in itertools.product('pvmsca', repeat=k): L.append(St(name='history ' + ''.join(h), hist=h))
    for last in 'pv':
        for h in ('', 'p', 'v'): L.append(St(name='failed integration, %s after %s' % (last, h), fail='flow', last=last, hist=tuple(h)))
    for last in 'pv':
        L.append(Zero(name='zero mass, %s' % last, fail='mass', last=last))
    return L
class Zero(St):
    def prop(self, E, b, s, v): return super().prop(E, b, s[:6] + [T.ZERO] + s[7:], v)
def make_replay(lib):
    V, I, D = ctypes.c_void_p, ctypes.c_int, ctypes.c_double
    lib.kv_st_size.restype = ctypes.c_size_t; lib.kv_st_size.argtypes = []
    lib.kv_st_delete.restype = None
    for n, a in dict(new=[V, V, I], delete=[V], copy=[V, V], assign=[V, V], set=[V, I, D], get=[V, V], prop=[V, V, V], var=[V, V, V]).items(): getattr(lib, 'kv_st_' + n).argtypes = a
    lib.kv_hf_flow.argtypes = [V, ctypes.c_size_t, V, ctypes.c_size_t, D, D, D, ctypes.c_size_t]
    return None
def runtime(lib, rng, tier):
    bad, tot, samples = [], 0, []
    u = lambda a, b: rng.uniform(a, b)
    for it in range(60 if tier == 'quick' else 3000):
        b = ctypes.create_string_buffer(lib.kv_st_size() + 64)
        a = [u(.5, 2), u(.5, 3), rng.choice((1e-16, 1e-12, .5))]
        n, err, hist = rng.randint(0, 3), None, []
        lib.kv_st_new(b, darr(a), n)
        a = a[:n] + [1., 1., 1e-16][n:]
        hist.append(('new', n, list(a)))
        for step in range(rng.randint(1, 10)):
            op = rng.choice('ppvvmsca')
            if op in 'pv':
                s = [u(.7, 1.3), u(-.3, .3), u(-.3, .3), u(-.3, .3), u(.7, 1.3), u(-.3, .3), u(.8, 2), u(-.2, .2), u(-.2, .2), u(-.2, .2), u(-2, 2)]
                if rng.random() < .1: s[6] = 0.0
                o = darr([0] * 77)
                rc = (lib.kv_st_var if op == 'v' else lib.kv_st_prop)(b, darr(s), o)
                hist.append((op, s)); tot += 1
                if s[6] == 0:
                    if rc != 1: err = ('zero mass', rc)
                elif rc: err = ('outcome', rc)
                else:
                    w = darr(s[:7] + [float(j == i) for i in range(7) for j in range(10)])
                    lib.kv_hf_flow(w, 77 if op == 'v' else 7, darr(a[:2] + s[7:10]), 5, 0.0, s[10], a[2], 10 if op == 'v' else 0)
                    W = list(w)[:7]
                    if op == 'v':
                        M = [list(w)[7 + 10 * i:17 + 10 * i] for i in range(7)]
                        W += [x for r in M for x in r[:7]] + [x for r in M for x in r[7:]]
                    if not all(abs(x - y) <= 1e-12 * (1 + abs(y)) for x, y in zip(o, W)): err = (op, list(o), W)
            elif op in 'ms':
                k = 'ms'.index(op); a[k] = u(.5, 3); lib.kv_st_set(b, k, a[k]); hist.append((op, a[k]))
            else:
                b2 = ctypes.create_string_buffer(lib.kv_st_size() + 64)
                if op == 'c': lib.kv_st_copy(b2, b)
                else: lib.kv_st_new(b2, darr([9., 9., .1]), 3); lib.kv_st_assign(b2, b)
                lib.kv_st_delete(b); b = b2; hist.append(op)
            if err: break
            g = darr([0] * 9); lib.kv_st_get(b, g)
            if list(g) != a * 3: err = ('getters', list(g), a); break
        lib.kv_st_delete(b)
        if err: bad.append(dict(case='history of operations', obligation='%s (runtime check)' % err[0], status='confirmed', inputs=hist, mismatch=err))
        if len(samples) < 2: samples.append([h[0] for h in hist])
        if len(bad) > 4: break
    return tot, bad[:5], samples

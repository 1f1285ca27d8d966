"""Sensitivities (C18): the problems that are handed to solve_ivp are the
variational and adjoint equations, and what is returned is read off their
solution.  solve_ivp is replaced by its contract: it returns the solution of
the problem it is given (arbitrary values at the output points, an
uninterpreted function of time as dense output)."""
import numpy as np
from . import sym as sy
from . import driver as dr
from . import small as sm
from .sym import S

FAIL = Exception


class User:
    """uninterpreted user functions of (t, y, p)"""

    def __init__(self, ny, np_, tag=''):
        self.ny, self.np, self.tag = ny, np_, tag
        self.bad = []

    def app(self, name, shape, t, y, p):
        y, p = list(np.ravel(np.asarray(y, object))), list(p)
        if len(y) != self.ny or len(p) != self.np:
            self.bad.append((name, len(y), len(p)))
            raise sm.Unsupported(f'{name} called with {len(y)} states and {len(p)} parameters')
        a = np.empty(shape, object)
        for i in np.ndindex(*shape):
            a[i] = sy.app(f'{name}{list(i)}', [t] + y + p)
        return a

    def f(self, t, y, *p):
        return self.app('f', (self.ny,), t, y, p)

    def J(self, t, y, *p):
        return self.app('J', (self.ny, self.ny), t, y, p)

    def fp(self, t, y, *p):
        return self.app('fp', (self.ny, self.np), t, y, p)

    def g(self, t, y, *p):
        return self.app('g', (1,), t, y, p)

    def gy(self, t, y, *p):
        return self.app('gy', (self.ny,), t, y, p)

    def gp(self, t, y, *p):
        return self.app('gp', (self.np,), t, y, p)


class Sol:
    """an OdeSolution: an uninterpreted function of time"""

    def __init__(self, tag, n):
        self.tag, self.n = tag, n

    def __call__(self, t):
        return dr.vec([sy.app(f'{self.tag}{i}', [t]) for i in range(self.n)])


class Result:
    __vc_value__ = True

    def __init__(self, **k):
        vars(self).update(k)


class NPObj:
    """numpy as the module sees it, where float64 is the type of the symbolic
    values"""

    def __init__(self, np_):
        self._np = np_
        self.float64 = np.dtype(object)

    def __getattr__(self, k):
        return getattr(self._np, k)


class Module:
    """stub of solve_ivp in the namespace of the module"""

    def __init__(self, solve):
        self.solve = solve

    def __enter__(self):
        m = dr.package().mods['extensisq.sensitivity']
        self.m, self.keep = m, {k: m.__dict__.get(k) for k in ('np', 'solve_ivp')}
        m.np = NPObj(m.np)
        m.solve_ivp = self.solve
        return m

    def __exit__(self, *a):
        for k, v in self.keep.items():
            setattr(self.m, k, v)


def same(c, label, a, b):
    a, b = np.asarray(a, object), np.asarray(b, object)
    if a.shape != b.shape:
        c.fail(label, f'shape {a.shape} instead of {b.shape}')
        return
    for i in np.ndindex(*a.shape):
        c.prove_eq(label, sy.lift(a[i]), sy.lift(b[i]))


def arg(a, k, names, args, kw):
    if k in kw:
        return kw[k]
    i = names.index(k)
    return args[i] if i < len(args) else None


NAMES = ['fun', 't_span', 'y0', 'method', 't_eval', 'dense_output', 'events', 'vectorized', 'args']


def recorder(c, calls, sols):
    """solve_ivp by contract"""
    def solve(*args, **kw):
        k = dict(zip(NAMES, args))
        k.update(kw)
        n = len(k['y0'])
        k['keep'] = list(k['y0'])
        calls.append(k)
        i = len(calls)
        ok = c.choose([True, False], 'success') == 0
        y = np.empty((n, 3), object)
        for j in np.ndindex(*y.shape):
            y[j] = sy.sym(f'Y{i}{list(j)}', vec=True)
        r = Result(success=ok, y=y, sol=Sol(f'sol{i}_', n) if k.get('dense_output') else None, status=0 if ok else -1,
                   message='', t=None)
        sols.append(r)
        return r
    return solve


METHODS = ['BS5', 'RK45', 'LSODA', 'BDF', 'Radau', 'class']


def method(m):
    if m in ('BS5', 'class'):
        return getattr(dr.package().mods['extensisq'], 'BS5' if m == 'BS5' else 'TRBDF2')
    return m


def forward(ex, ny, np_):
    def fn(c):
        c.prob = None
        u = User(ny, np_)
        t0, tf = sy.sym('t0'), sy.sym('tf')
        y0, p = sy.vec_sym('y0', ny), sy.vec_sym('p', np_)
        s0 = np.array([[sy.sym(f's0{i}{j}', vec=True) for j in range(np_)] for i in range(ny)], object).reshape(ny, np_)
        m = METHODS[c.choose(METHODS, 'method')]
        approx = c.choose([False, True], 'use_approx_jac') == 1
        dense = c.choose([False, True], 'dense_output') == 1
        vecatol = c.choose([False, True], 'atol') == 1
        atol = list(np.arange(1, ny + 1) * 1e-7) if vecatol else 1e-5
        keep = list(y0), list(p), list(s0.ravel())
        calls, sols = [], []
        kw = {}
        te = [t0, tf]
        if dense:
            kw['t_eval'] = te
        with Module(recorder(c, calls, sols)) as mod:
            try:
                r = mod.sens_forward(u.f, (t0, tf), y0, u.J, u.fp, s0, p, atol=atol, rtol=1e-4, method=method(m),
                                     dense_output=dense, use_approx_jac=approx, **kw)
            except RuntimeError as e:
                c.prove('C18 a failed integration is reported', any(not s.success for s in sols))
                return
        c.prove('C18 a failed integration is reported', all(s.success for s in sols))
        c.prove('C18 forward: one integration', len(calls) == 1)
        k = calls[0]
        N = ny * (np_ + 1)
        # the problem
        same(c, 'C18 forward: interval', list(k['t_span']), [t0, tf])
        want = list(y0) + [s0[i, j] for j in range(np_) for i in range(ny)]
        same(c, 'C18 forward: initial state and sensitivity', k['y0'], want)
        t, z = sy.sym('t'), sy.vec_sym('z', N)
        zk = list(z)
        d = k['fun'](t, z)
        c.prove('C18 the right-hand side leaves its argument', all(a is b for a, b in zip(z, zk)))
        y = z[:ny]
        f, J, fp = u.f(t, y, *p), u.J(t, y, *p), u.fp(t, y, *p)
        want = list(f)
        for j in range(np_):
            s = z[ny * (j + 1):ny * (j + 2)]
            want += [sum((J[i, l] * s[l] for l in range(ny)), sy.lift(0)) + fp[i, j] for i in range(ny)]
        same(c, "C18 forward: s' = J s + df/dp", d, want)
        # options
        c.prove('C18 options are passed on', k.get('rtol') == 1e-4 and k.get('method') is method(m) and
                bool(k.get('dense_output')) == dense and (k.get('t_eval') is te if dense else k.get('t_eval') is None))
        at = list(np.broadcast_to(np.asarray(atol), (ny,)))
        want = list(at)
        for j in range(np_):
            zero = c.branch(sy.cmp0(p[j], '=='))
            want += [a if zero else a / abs(p[j]) for a in at]
        same(c, 'C18 forward: tolerances', k['atol'], want)
        jac, sparsity = k.get('jac'), k.get('jac_sparsity')
        if jac is not None and callable(jac):
            v = jac(t, z)
            want = np.zeros((N, N), object)
            for j in range(np_ + 1):
                want[ny * j:ny * (j + 1), ny * j:ny * (j + 1)] = J
            same(c, 'C18 forward: Jacobian of the combined problem', v, want)
        else:
            c.prove('C18 forward: approximate Jacobian as asked', not approx)
        if sparsity is not None:
            sp = np.asarray(sparsity)
            full = np.zeros((N, N), bool)
            full[:, :ny] = True
            for j in range(np_ + 1):
                full[ny * j:ny * (j + 1), ny * j:ny * (j + 1)] = True
            c.prove('C18 forward: sparsity covers the Jacobian', sp.shape == (N, N) and bool(np.all(sp[full] != 0)))
        # results
        Y = sols[0].y
        same(c, 'C18 forward: state at the end', r.yf, Y[:ny, -1])
        want = np.array([[Y[ny * (j + 1) + i, -1] for j in range(np_)] for i in range(ny)], object).reshape(ny, np_)
        same(c, 'C18 forward: sensitivity at the end', r.sensf, want)
        c.prove('C18 the solution is returned', r.sol is sols[0])
        c.prove('C18 user data unchanged', all(a is b for a, b in zip(keep[0] + keep[1] + keep[2],
                                                                       list(y0) + list(p) + list(s0.ravel()))))
    ex.explore(fn)


def adjoint(ex, ny, np_, integral):
    def fn(c):
        c.prob = None
        u = User(ny, np_)
        t0, tf = sy.sym('t0'), sy.sym('tf')
        y0, p = sy.vec_sym('y0', ny), sy.vec_sym('p', np_)
        s0 = np.array([[sy.sym(f's0{i}{j}', vec=True) for j in range(np_)] for i in range(ny)], object).reshape(ny, np_)
        m = METHODS[c.choose(METHODS, 'method')]
        given = c.choose([False, True], 'sol_y') == 1
        own = Result(success=True, sol=Sol('own_', ny), y=None) if given else None
        calls, sols = [], []
        keep = list(y0), list(p), list(s0.ravel())
        with Module(recorder(c, calls, sols)) as mod:
            f = mod.sens_adjoint_int if integral else mod.sens_adjoint_end
            try:
                r = f(u.f, (t0, tf), y0, u.J, u.fp, s0, p, u.g, u.gp, u.gy, method=method(m), rtol=1e-4,
                      atol=1e-5, atol_adj=2e-6, atol_quad=3e-6, sol_y=own)
            except RuntimeError as e:
                c.prove('C18 a failed integration is reported', any(not s.success for s in sols))
                return
        c.prove('C18 a failed integration is reported', all(s.success for s in sols))
        c.prove('C18 adjoint: integrations', len(calls) == 2 - given)
        if not given:
            k = calls[0]
            same(c, 'C18 adjoint: interval of the forward solution', list(k['t_span']), [t0, tf])
            same(c, 'C18 adjoint: initial state', k['y0'], y0)
            t, z = sy.sym('t'), sy.vec_sym('z', ny)
            same(c, 'C18 adjoint: forward problem', k['fun'](t, z), u.f(t, z, *p))
            c.prove('C18 options are passed on', k.get('rtol') == 1e-4 and k.get('method') is method(m) and
                    bool(k.get('dense_output')))
            same(c, 'C18 adjoint: tolerances', np.broadcast_to(np.asarray(k['atol'], object), (ny,)), [1e-5] * ny)
            if callable(k.get('jac')):
                same(c, 'C18 adjoint: Jacobian of the forward problem', k['jac'](t, z), u.J(t, z, *p))
            fw = sols[0]
        else:
            fw = own
        k, bw = calls[-1], sols[-1]
        N = ny + np_ + bool(integral)
        Y = fw.sol
        yf = Y(tf)
        same(c, 'C18 adjoint: interval of the adjoint solution', list(k['t_span']), [tf, t0])
        end = [sy.lift(0)] * N
        if not integral:
            end[:ny] = list(u.gy(tf, yf, *p))
        same(c, 'C18 adjoint: end conditions', k['y0'], end)
        c.prove('C18 options are passed on', k.get('rtol') == 1e-4 and k.get('method') is method(m))
        same(c, 'C18 adjoint: tolerances', k['atol'], [2e-6] * ny + [3e-6] * (N - ny))
        t, z = sy.sym('t'), sy.vec_sym('z', N)
        zk = list(z)
        d = k['fun'](t, z)
        c.prove('C18 the right-hand side leaves its argument', all(a is b for a, b in zip(z, zk)))
        y = Y(t)
        J, fp, gy, gp = [h(t, y, *p) for h in (u.J, u.fp, u.gy, u.gp)]
        # lemma: along any sensitivity s with s' = J s + df/dp, the rate of
        # lambda.s (plus that of the integrand) is the rate of xi
        if len(d) != N:
            c.fail('C18 adjoint: size', str(len(d)))
            return
        lam, dl, dx = z[:ny], d[:ny], d[ny:ny + np_]
        for j in range(np_):
            s = sy.vec_sym('s', ny)
            ds = [sum((J[i, l] * s[l] for l in range(ny)), sy.lift(0)) + fp[i, j] for i in range(ny)]
            rate = sum((dl[i] * s[i] + lam[i] * ds[i] for i in range(ny)), sy.lift(0))
            if integral:
                rate = rate + sum((gy[i] * s[i] for i in range(ny)), sy.lift(0)) + gp[j]
            c.prove_eq('C18 adjoint: rate of the adjoint product equals the rate of the quadrature', dx[j], rate)
        if integral:
            c.prove_eq('C18 adjoint: the integrand of G', d[-1], u.g(t, y, *p)[0])
        # results
        E = bw.y[:, -1]
        want = []
        for j in range(np_):
            w = sum((E[i] * s0[i, j] for i in range(ny)), sy.lift(0)) - E[ny + j]
            want.append(w if integral else w + u.gp(tf, yf, *p)[j])
        same(c, 'C18 adjoint: sensitivity', r.sens, want)
        if integral:
            c.prove_eq('C18 adjoint: value of the integral', sy.lift(np.ravel(r.G)[0]), -E[-1])
        else:
            c.prove_eq('C18 adjoint: value at the end', sy.lift(np.ravel(np.asarray(r.gf, object))[0]), u.g(tf, yf, *p)[0])
        jac = k.get('jac')
        if callable(jac):
            v = jac(t, z)
            zero = k['fun'](t, dr.vec([sy.lift(0)] * N))
            want = [d[i] - zero[i] for i in range(N)]
            got = [sum((v[i, l] * z[l] for l in range(N)), sy.lift(0)) for i in range(N)]
            same(c, 'C18 adjoint: Jacobian of the adjoint problem', got, want)
        c.prove('C18 the solution is returned', r.sol_y is fw and r.sol_bw is bw)
        c.prove('C18 user data unchanged', all(a is b for a, b in zip(keep[0] + keep[1] + keep[2],
                                                                       list(y0) + list(p) + list(s0.ravel()))))
    ex.explore(fn)

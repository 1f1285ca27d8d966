"""Stiffness detection (C15): helpers, the diagnosis itself and its frame, and
the independence of the steps from its counters."""
import math
import numpy as np
from . import sym as sy
from . import driver as dr
from . import frames
from . import small as sm
from .sym import S

COUNTERS = ('okstp', 'havg', 'jflstp')


def safe(c):
    """divisions and square roots within the code are defined"""
    c.on_sqrt = lambda x: c.prove('C15 square roots are of non-negative numbers', sy.cmp0(x, '>='))


def num(x):
    return sy.lift(x) if not isinstance(x, S) else x


def helper_b(ex):
    com = dr.package().common

    def fn(c):
        safe(c)
        a, b, d, r0 = [sy.sym(k) for k in ('v1v1', 'v0v1', 'v0v0', 'rold')]
        c.assume(sy.cmp0(a, '>='))
        c.assume(sy.cmp0(d, '>'))
        c.on_div = lambda o: c.prove('C15 divisors are not zero', sy.cmp0(o, '!='))
        rold, rho, r1, r2, rootre = com.stiff_b(a, b, d, r0)
        rootre = bool(rootre)
        c.prove_eq('C15 Rayleigh quotient', rold, b / d)
        c.prove_eq('C15 Rayleigh quotient', rho, abs(sy.lift(rold)))
        if rootre:
            c.prove('C15 a real root is reported as it is', num(r1[0]).same(num(rold)) and
                    num(r1[1]).same(sy.lift(0)) and num(r2[0]).same(sy.lift(0)) and num(r2[1]).same(sy.lift(0)))
            res = abs(a - b * b / d)
            c.prove('C15 a real root is reported only if its residual is small',
                    sy.cmp0(res - a * 1e-6 * (1 + 1e-9), '<='))
    ex.explore(fn)


def helper_c(ex):
    com = dr.package().common

    def fn(c):
        safe(c)
        al, be = sy.sym('alpha'), sy.sym('beta')
        c.on_div = lambda o: c.prove('C15 divisors are not zero', sy.cmp0(o, '!='))
        (a, b), (x, y) = com.stiff_c(al, be)
        a, b, x, y = map(num, (a, b, x, y))
        c.prove_eq('C15 roots of the quadratic: sum', a + x, -al)
        c.prove_eq('C15 roots of the quadratic: sum', b + y, sy.lift(0))
        c.prove('C15 roots of the quadratic: product', sy.cmp0(a * x - b * y - be, '=='))
        c.prove('C15 roots of the quadratic: product', sy.cmp0(a * y + b * x, '=='))
        c.prove('C15 larger root first', sy.cmp0(a * a + b * b - x * x - y * y, '>='))
    ex.explore(fn)


def frame(c, tag, **v):
    keep = {k: frames.freeze(x) for k, x in v.items()}

    def check():
        for k, x in v.items():
            ok = frames.same(keep[k], frames.freeze(x))
            c.prove(f'C15 {tag} leaves {k}', ok) if ok else c.fail(f'C15 {tag} leaves {k}', f'{keep[k]} -> {x}'[:300])
    return check


def vecs(n, *names):
    return [sy.vec_sym(k, n) for k in names]


def helper_d(ex, n=2):
    com = dr.package().common

    def fn(c):
        safe(c)
        v, y, wt = vecs(n, 'v_', 'y_', 'w_')
        x, havg, scale, vv = [sy.sym(k) for k in ('x', 'havg', 'scale', 'vdotv')]
        for w in list(wt) + [scale, vv]:
            c.assume(sy.cmp0(w, '>'))
        c.on_div = lambda o: c.prove('C15 divisors are not zero', sy.cmp0(o, '!='))
        prob = dr.Problem(n)
        buf = []

        def f(t, z):
            buf.append(prob(t, z))
            given.append(z)
            return buf[-1]
        given = []
        fxy = prob.spec(x, y)
        chk = frame(c, 'the difference', v=v, y=y, wt=wt, fxy=fxy)
        z, zz = com.stiff_d(v, havg, x, y, f, fxy, wt, scale, vv)
        chk()
        c.prove('C15 the difference costs one evaluation', len(buf) == 1)
        (t, u), = prob.calls
        e = scale / sy.sqrt(vv)
        c.prove_eq('C15 the difference is in the state only', t, x)
        c.prove_eq('C15 the difference is in the direction of v', dr.vec(u), y + e * v)
        c.prove_eq('C15 the difference quotient', z, (prob.spec(x, dr.vec(u)) - fxy) * havg / e)
        c.prove("C15 the user's array is not reused", not np.shares_memory(z, buf[0]) and
                not np.shares_memory(given[0], y) and not np.shares_memory(given[0], v))
        c.prove_eq('C15 squared norm of the difference', zz, sum((z[i] / wt[i])**2 for i in range(n)))
    ex.explore(fn)


def stub_b(v1v1, v0v1, v0v0, rold):
    c = sy.ctx()
    r = sy.fresh('rold')
    if c.choose([False, True], 'rootre'):
        return r, abs(r), [r, 0.], [0., 0.], True
    return r, abs(r), [0., 0.], [0., 0.], False


def stub_c(alpha, beta):
    v = [sy.fresh('root') for _ in range(4)]
    return v[:2], v[2:]


def power(ex, n=2):
    """stiff_a over the contracts of its helpers"""
    com = dr.package().common

    def fn(c):
        y, wt, fxy, v0 = vecs(n, 'y_', 'w_', 'f_', 'v_')
        for w in wt:
            c.assume(sy.cmp0(w, '>'))
        x, xend, hnow, havg = [sy.sym(k, fp=True) for k in ('x', 'xend', 'h', 'havg')]
        c.assume(sy.cmp0(havg, '!='))
        c.assume(sy.cmp0(hnow, '!='))
        maxfcn, cost = sy.sym('maxfcn', integer=True), 7
        calls = []

        def stub_d(v, ha, t, yy, f, ff, w, scale, vdotv):
            calls.append(1)
            if num(vdotv).same(sy.lift(1)) and len(calls) > 3:
                # iterations after the first start from arbitrary vectors
                c.prove('C15 power iteration: next iterate', all(
                    any(str(sy.ATOMS[i].name).startswith('z[') for i in q.atoms()) for q in v))
            c.prove('C15 power iteration: scale is positive', sy.cmp0(num(scale), '>'))
            c.prove('C15 power iteration works on the given data', frames.same(frames.freeze(yy), ky) and
                    frames.same(frames.freeze(ff), kf) and frames.same(frames.freeze(w), kw) and
                    num(t).same(x) and num(ha).same(havg))
            z, zz = sy.vec_fresh('z', n), sy.fresh('zz')
            c.assume(sy.cmp0(zz, '>='))
            return z, zz
        ky, kf, kw = map(frames.freeze, (y, fxy, wt))
        chk = frame(c, 'the power iteration', y=y, wt=wt, fxy=fxy)
        first = range
        com.__dict__['range'] = lambda *a: [0, 1, a[-1] - 1] if a == (8,) else first(*a)
        with dr.patched(dict(stiff_b=stub_b, stiff_c=stub_c, stiff_d=stub_d)):
            r = com.stiff_a(dr.Problem(n), x, y, hnow, havg, xend, maxfcn, wt, fxy, v0, cost)
        chk()
        stif, rootre, root = r
        c.prove('C15 power iteration: at most 24 evaluations', len(calls) <= 24)
        c.prove('C15 power iteration: result', stif in (None, False) and (root is None) <= (rootre is None))
        if root is not None:
            c.prove('C15 power iteration: result', stif is None and rootre in (True, False) and len(root) == 3)
        d = abs(xend - x)
        near = sy.disj(sy.cmp0(abs(hnow) - 5 * abs(havg), '>'), sy.cmp0(abs(hnow) * 5 - abs(havg), '<'))
        cheap = sy.cmp0(d * cost - abs(havg) * maxfcn, '<=')
        if calls:
            c.prove('C15 no power iteration when few evaluations are left', sy.neg(cheap))
    ex.explore(fn)


def arbitrary(c, s):
    """any values in the attributes of the solver"""
    for k, v in list(vars(s).items()):
        if isinstance(v, np.ndarray) and v.dtype == object and v.ndim and k != 'y':
            setattr(s, k, sy.vec_fresh(k, v.size).reshape(v.shape))
        elif k in ('okstp', 'jflstp'):
            x = sy.fresh(k, integer=True)
            c.assume(sy.cmp0(x, '>='))
            setattr(s, k, x)
    s.y = sy.vec_sym('y_', s.y.size)
    s.y_old = sy.vec_sym('yo_', s.y.size)
    s.t, s.t_old, s.h_previous, s.havg = [sy.sym(k) for k in ('t', 't_old', 'h_prev', 'havg')]
    c.assume(sy.cmp0(s.h_previous, '!='))


def diagnose(ex, cls, direction=1):
    pkg = dr.package()
    kind = sm.kinds()[cls]
    n = 2

    def fn(c):
        c.prob = None
        s, prob, t0, tb, y0 = sm.make(cls, {}, n, direction)
        c.prove('C15 diagnosis is on by default where the stability region is known',
                hasattr(s, 'okstp') == bool(s.nfev_stiff_detect))
        s.nfev_stiff_detect = sy.sym('nfev_stiff_detect', integer=True)
        c.assume(sy.cmp0(s.nfev_stiff_detect, '>='))
        arbitrary(c, s)
        safe(c)
        ok0, jf0, nfsd = s.okstp if hasattr(s, 'okstp') else None, s.jflstp, s.nfev_stiff_detect
        if ok0 is None:
            s.okstp = ok0 = sy.fresh('okstp', integer=True)
            c.assume(sy.cmp0(ok0, '>='))
        seen = {}
        warned = []

        def stub_a(fun, x, y, hnow, havg, xend, maxfcn, wt, fxy, v0, cost):
            mine = [v for v in vars(s).values() if isinstance(v, np.ndarray)]
            c.prove('C15 the perturbation vector is private', not any(np.shares_memory(v0, v) for v in mine))
            c.prove('C15 diagnosis of the current state', all(a.same(b) for a, b in zip(y, s.y)) and
                    num(x).same(num(s.t)) and num(xend).same(num(s.t_bound)) and len(y) == n)
            for w in wt:
                c.prove('C15 weights are positive', sy.cmp0(num(w), '>'))
            c.prove('C15 the derivative of the state is used', frames.same(
                frames.freeze(np.asarray(fxy, object)),
                frames.freeze(np.asarray(s.f if kind == 'rk' else np.concatenate([s.y[s.n:], s.f]), object))))
            k0 = len(prob.calls)
            z = sy.vec_fresh('probe', n)
            fv = fun(x, z)
            c.prove('C15 the diagnosis uses the first order right-hand side',
                    all(num(a).same(b) for a, b in zip(fv, prob.spec(x, z))) and len(fv) == n and
                    len(prob.calls) == k0 + 1)
            v0[:] = sy.vec_fresh('v0', n)
            k = c.choose(['not stiff', 'unsure', 'root'], 'result')
            seen['called'] = True
            if k < 2:
                return (False if k == 0 else None), None, None
            r1, r2 = [[sy.fresh('r') for _ in range(2)] for _ in range(2)]
            rho = sy.fresh('rho')
            c.assume(sy.cmp0(rho, '>='))
            rootre = c.choose([False, True], 'rootre') == 1
            if rootre:
                r1[1] = 0.
                r2 = [0., 0.]
            seen['root'] = r1, r2, rho
            return None, rootre, (r1, r2, rho)
        user = {k: v for k, v in vars(s).items()}
        before = {k: frames.freeze(v) for k, v in user.items()}
        ids = {k: id(v) for k, v in user.items() if isinstance(v, np.ndarray)}
        with dr.patched(dict(stiff_a=stub_a, warn=lambda m, *a, **k: warned.append(m)), False):
            r = type(s)._diagnose_stiffness(s)
        after = {k: frames.freeze(v) for k, v in vars(s).items()}
        d = [k for k in frames.diff(before, after) if k not in COUNTERS + ('nfev',)]
        d += [k for k, i in ids.items() if k not in COUNTERS and id(getattr(s, k)) != i]
        c.prove('C15 the diagnosis changes nothing but its counters', not d) if not d else \
            c.fail('C15 the diagnosis changes nothing but its counters', f'{cls}: {d}')
        c.prove('C15 nothing is returned', r is None)
        c.prove('C15 at most one warning', len(warned) <= 1)
        many = sy.maximum(sy.lift(1), nfsd // int(s.n_stages))
        ok = ok0 + 1
        toomch = sy.cmp0(ok % many - many + 1, '==')
        lots = sy.conj(sy.cmp0(ok % 40 - 39, '=='), sy.cmp0(jf0 - 10, '>='), sy.cmp0(ok - 20, '!='))
        if 'called' in seen or warned:
            c.prove('C15 diagnosis after much work or many failures only', sy.conj(
                sy.disj(toomch, lots), sy.cmp0(nfsd, '>')))
        for m in warned:
            if 'root' not in seen:
                c.fail('C15 no warning without known roots', f'{cls}: warned {m!r}')
                continue
            r1, r2, rho = seen['root']
            c.prove('C15 no warning without known roots', True)
            real = sy.cmp0(num(r1[1]), '==')
            left = sy.cmp0(num(r1[0]), '<=')
            rho2 = sy.sqrt(num(r2[0])**2 + num(r2[1])**2)
            c.prove('C15 warning: the dominant roots are in the left half plane', sy.conj(left, sy.neg(sy.conj(
                sy.cmp0(rho2 - .9 * rho, '>='), sy.cmp0(num(r2[0]), '>')))))
            near = sy.cmp0(abs(num(r1[1])) - abs(num(r1[0])) * float(s.tanang), '>')
            if 'stiff problems' in m:
                c.prove('C15 stiff: the diagnosis is possible', sy.neg(near))
                if kind == 'rk':
                    lim = sy.cmp0(rho - .9 * float(s.stbrad), '>=')
                else:
                    lim = sy.disj(sy.cmp0(abs(num(r1[0])) - .85 * float(s.stbre), '>='),
                                  sy.cmp0(abs(num(r1[1])) - .9 * float(s.stbim), '>='))
                c.prove('C15 stiff: the step is at the limit of stability', lim)
                c.prove('C15 stiff: kind of root', real if 'real dominant' in m else sy.neg(real))
            else:
                c.prove('C15 oscillatory: near the imaginary axis and many failed steps',
                        sy.conj(near, lots, sy.neg(real)))
    ex.explore(fn)


def switch(ex, cls, direction=1):
    """the constructor: the option reaches the counters of the detection only"""
    def fn(c):
        c.prob = None
        out = []
        first = sy.sym('first_step', fp=True)
        c.assume(sy.cmp0(first, '>'))
        c.assume(sy.cmp0(abs(sy.sym('t_bound') - sy.sym('t0')) - first, '>='))
        nf = sy.sym('nfev_stiff_detect', integer=True)
        c.assume(sy.cmp0(nf, '>='))
        y0 = sy.vec_sym('y0', 2)
        for o in ({}, dict(nfev_stiff_detect=nf)):
            with dr.patched(dict(warn=lambda *a, **k: None), False):
                s = sm.make(cls, dict(o, first_step=first), 2, direction, y0=y0)[0]
            out.append({k: v for k, v in frames.state(s).items()
                        if k not in COUNTERS + ('nfev_stiff_detect',)})
        d = frames.diff(*out, c)
        c.prove('C15 the option changes nothing but the counters of the detection', not d) if not d else \
            c.fail('C15 the option changes nothing but the counters of the detection', f'{cls}: {d}')
    ex.explore(fn)


def mine(x):
    return any(q in str(sy.ATOMS[i].name) for i in frames.closure(x) for q in COUNTERS)


class Advisory:
    """wraps an observer of the lifecycle: a step does not read the counters of
    the stiffness detection"""

    def __init__(self, ob):
        self.ob = ob

    def __getattr__(self, k):
        return getattr(self.ob, k)

    def start(self, c, s, prob, kw):
        self.ob.start(c, s, prob, kw)
        for k in COUNTERS:
            setattr(s, k, 0)

    def before(self, c, s, prob):
        self.hits = []
        for k in COUNTERS:
            x = sy.fresh('cell_' + k, integer=k != 'havg')
            setattr(s, k, x)

        def guard(b):
            if b.op in ('<', '==') and not self.hits and mine(b.args[0]):
                self.hits.append(f'branch on {b}'[:200])
        c.guard = guard
        return self.ob.before(c, s, prob)

    def after(self, c, s, prob, pre, msg):
        c.guard = None
        self.ob.after(c, s, prob, pre, msg)
        bad = list(self.hits)
        for k, v in vars(s).items():
            if k in COUNTERS:
                continue
            for x in (np.ravel(v) if isinstance(v, np.ndarray) and v.dtype == object else [v]):
                if isinstance(x, S) and mine(x):
                    bad.append(k)
        c.prove('C15 a step does not depend on the stiffness detection', not bad) if not bad else \
            c.fail('C15 a step does not depend on the stiffness detection', str(bad))
        for k in COUNTERS:
            setattr(s, k, 0)

"""Bounded stand-ins, second part: C06, C14-C22"""
import warnings
import numpy as np
from . import core, gen, trees, extract
from .checks import chk, scn, classes, ulp, RULE
from .core import (Run, KIND, ALL, RK, NYS, ESD, VARIANTS, EPS, rms, the_h, close, xq, cls)

# ------------------------------------------------------------------------ C06
ORDERS = dict(Ts5=(5, 4), BS5=(5, 4), CK5=(5, 4), CKdisc=(5, 4), Pr7=(7, 5), Pr8=(8, 6), Pr9=(9, 7),
              CFMR7osc=(7, 5), Me4=(4, 3), Fi4N=(4, 3), Fi5N=(5, 4), Mu5Nmb=(5, 4), MR6NN=(6, 4),
              TRBDF2=(2, 3), TRX2=(2, 3), KC3I=(3, 2), KC4I=(4, 3), KC4Ia=(4, 3), Kv3I=(3, 2))
# documented order of the dense output (Nystrom: displacement, velocity)
DENSE = {'Ts5': [({}, 4)], 'BS5': [({}, 5), ({'interpolant': 'low'}, 5), ({'interpolant': 'best'}, 5),
                                   ({'interpolant': 'free'}, 4)],
         'CK5': [({}, 4)], 'CKdisc': [({}, 4)], 'Pr7': [({}, 6)], 'Pr8': [({}, 7)], 'Pr9': [({}, 8)],
         'CFMR7osc': [({}, 5)], 'Me4': [({}, 3)],
         'Fi4N': [({}, (4, 4))],
         'Fi5N': [({}, (5, 4)), ({'interpolant': 0}, (5, 4)), ({'interpolant': 1}, (5, 5)),
                  ({'interpolant': 2}, (5, 5)), ({'interpolant': 3}, (5, 4))],
         'Mu5Nmb': [({}, (5, 4)), ({'interpolant': 'better'}, (5, 4)), ({'interpolant': 'free'}, (5, 4))],
         'MR6NN': [({}, (6, 5))],
         'TRBDF2': [({}, 2)], 'TRX2': [({}, 2)],
         'KC3I': [({}, 3), ({'interpolant': 'C0'}, 3), ({'interpolant': 'C1'}, 3)],
         'KC4I': [({}, 4), ({'interpolant': 'C0'}, 4), ({'interpolant': 'C1'}, 4)],
         'KC4Ia': [({}, 4), ({'interpolant': 'C0'}, 4), ({'interpolant': 'C1'}, 4)],
         'Kv3I': [({}, 3), ({'interpolant': 'C0'}, 3), ({'interpolant': 'C1'}, 3)]}
TOL = 1e-9


def bad(gen_, order, tol=TOL):
    """first violated condition up to the order"""
    for o, n, d, size in gen_:
        if o <= order and abs(d) > tol * (1 + float(size)):
            return f'order {o} condition {n}: defect {float(d):.3e}'
    return None


@scn('C06')
def _(tier, seed):
    for c in RK + NYS + ESD:
        yield dict(cls=c, kind='class')
        for o, _ in DENSE[c]:
            for d in ((1, -1) if c != 'Pr9' else (1,)):
                yield dict(cls=c, kind='run', opts=o, dir=d)


def pad(b, n):
    b = np.asarray(b, float)
    return np.concatenate((b, np.zeros(n - len(b))))[:n]


@chk('C06')
def _(s):
    c = s['cls']
    C = cls(c)
    q, q2 = ORDERS[c]
    out = []
    nys = KIND[c] == 'nys'
    n = C.n_stages
    if s['kind'] == 'class':
        if (C.order, C.order_secondary) != (q, q2):
            out.append(('declared order', f'{(C.order, C.order_secondary)} instead of {(q, q2)}'))
        A = np.array(C.A, float)[:n, :n]
        fsal = len(C.E) > n and bool(C.E[n] != 0 or (nys and C.Ep[n] != 0))
        m = n + 1 if KIND[c] != 'esd' else n

        def ext(X, b):
            Y = np.zeros((m, m))
            Y[:n, :n] = X[:n, :n]
            if m > n:
                Y[n, :n] = b[:n]
            return Y
        top = max(q, q2) + 1
        if not nys:
            T = trees.rk_trees(ext(A, C.B), top)
            sol = bad(trees.defects(T, pad(C.B, m), 1, top), q)
            if sol:
                out.append(('solution', sol))
            if np.max(np.abs(A.sum(1) - np.array(C.C)[:n])) > 1e-12:
                out.append(('nodes are not the row sums', str(A.sum(1) - np.array(C.C)[:n])))
            hat = pad(C.B, m) + pad(C.E, m)
            hat2 = pad(C.B, m) - pad(C.E, m)
            b1, b2 = (bad(trees.defects(T, x, 1, top), q2) for x in (hat, hat2))
            if b1 and b2:
                out.append(('embedded solution', b1))
            if not (bad(trees.defects(T, pad(C.E, m), 1, top, False), min(q, q2) + 1, 1e-7)):
                out.append(('error estimate has no order', 'same order as the solution'))
            if c == 'CKdisc':
                for i, (B, E, qq) in enumerate(zip(C.B_fallback, C.E_fallback, (2, 3))):
                    # fallback solutions of order 2 and 3 after 1/5 and 3/5 of the step
                    fr = C.C_fallback[i]
                    v = bad(trees.defects_at(T, pad(B, m), 1, top, fr), qq)
                    if v:
                        out.append((f'fallback {i}', v))
                    v = bad(trees.defects(T, pad(E, m), 1, top, False), qq - 1)
                    if v:
                        out.append((f'fallback error {i}', v))
        else:
            Ap = ext(np.array(C.Ap, float), C.Bp) if isinstance(C.Ap, np.ndarray) else None
            T = trees.nys_trees(ext(A, C.B), Ap, pad(list(C.C[:n]) + [1.], m), top)
            for nm, b, sh, oo in (('displacement', C.B, 2, q), ('velocity', C.Bp, 1, q)):
                v = bad(trees.defects(T, pad(b, m), sh, top), oo)
                if v:
                    out.append((nm, v))
            for nm, e, sh in (('displacement error', C.E, 2), ('velocity error', C.Ep, 1)):
                v = bad(trees.defects(T, pad(e, m), sh, top, False), q2)
                if v:
                    out.append((nm, v))
            if not (bad(trees.defects(T, pad(C.Ep, m), 1, top, False), q2 + 1, 1e-7) or
                    bad(trees.defects(T, pad(C.E, m), 2, top, False), q2 + 1, 1e-7)):
                out.append(('error estimate has no order', 'same order as the solution'))
        return out
    want = next(w for o, w in DENSE[c] if o == s['opts'])
    T = extract.extract(c, s['opts'], direction=s['dir'])
    A, Ap, cc, b, bp = extract.tableau(T)
    k = len(b)
    if KIND[c] == 'esd':
        A = np.array(C.A, float)
        k = len(A)
        b = pad(T.y, T.m)[:k]
        if np.max(np.abs(T.cs[1:k] - np.array(C.C)[1:k])) > 1e-12:
            out.append(('stage times', f'{T.cs[1:k]}'))
    top = q + 1
    if not nys:
        if np.max(np.abs(A.sum(1)[:k] - cc[:k])) > 1e-12 and KIND[c] != 'esd':
            out.append(('stage times', f'{cc - A.sum(1)}'))
        tr = trees.rk_trees(A, top)
        sets = [(1, b, lambda d: d, q, want)]
    else:
        tr = trees.nys_trees(A, Ap if isinstance(C.Ap, np.ndarray) else None, cc, top)
        sets = [(2, b, lambda d: d[0], q, want[0]), (1, bp, lambda d: d[1], q, want[1])]
    for sh, w, get, oo, od in sets:
        v = bad(trees.defects(tr, w, sh, top), oo)
        if v:
            out.append(('solution of the running code', v))
        for x, d in zip(T.theta, T.dense):
            e = np.asarray(get(d), float).copy()
            if nys:
                # contribution of the initial velocity
                z = e[T.m - 1]
                target = x * (1. / (T.d * T.h)) if sh == 2 else 0.
                if abs(z - target) > 1e-11:
                    out.append(('dense output: velocity term', f'{z} at {x}'))
                e[T.m - 1] = 0.
            if np.max(np.abs(e[k:])) > 1e-12:
                out.append(('dense output uses a foreign stage', f'{e}'))
            v = bad(trees.defects_at(tr, e[:k], sh, top, x), od)
            if v:
                out.append(('dense output', v))
                break
    return out[:4]


# ------------------------------------------------------------------------ C14
@scn('C14')
def _(tier, seed):
    r = gen.rng_for('C14', seed)
    for c in classes(r, tier, ESD, n=5):
        nd, na = int(r.integers(1, 4)), int(r.integers(1, 3))
        yield dict(cls=c, kind=gen.pick(r, ['cons', 'incons', 'incons', 'nonlin', 'nonlin']), nd=nd, na=na,
                   seed=int(r.integers(10**6)), form=gen.pick(r, ['dense', 'sparse', '1d']),
                   mix=bool(r.random() < .5), jac=gen.pick(r, ['fun', 'none', 'sparse', 'const', 'constsparse']),
                   dir=gen.pick(r, [1, 1, -1]))
    for c in classes(r, tier, ESD, n=1):
        yield dict(cls=c, kind='index2', nd=2, na=1, seed=int(r.integers(10**6)), form='dense', mix=bool(r.integers(2)),
                   jac='fun', dir=1)
        yield dict(cls=c, kind='none', nd=1, na=1, seed=1, form='dense', mix=False, jac='fun', dir=1)
        yield dict(cls=c, kind='rober', nd=2, na=1, seed=1, form='dense', mix=False, jac='fun', dir=1)


class Dae:
    """D (u', v')' = (F(t,u,v), G(t,u,v)), in mixed coordinates when asked"""

    def __init__(self, s):
        r = np.random.default_rng(s['seed'])
        nd, na = s['nd'], s['na']
        n = self.n = nd + na
        self.nd, self.na = nd, na
        lin = s['kind'] in ('cons', 'incons')
        A = r.uniform(-1, 1, (n, n))
        A[nd:, nd:] += 3 * np.eye(na) * (1 if lin else 1)
        A[:nd, :nd] -= 1.5 * np.eye(nd) * s['dir']
        self.A = A
        self.c = r.uniform(-1, 1, n)
        self.nl = 0. if s['jac'].startswith('const') or s['kind'] == 'cons' else .5
        if s['kind'] == 'index2':
            A[nd:, nd:] = 0.
            self.nl = 0.
        d = np.concatenate((r.uniform(.5, 2., nd), np.zeros(na)))
        if s['mix'] and s['form'] != '1d':
            self.P = np.linalg.qr(r.uniform(-1, 1, (n, n)))[0]
            self.Q = np.linalg.qr(r.uniform(-1, 1, (n, n)))[0]
        else:
            self.P = self.Q = np.eye(n)
        self.d = d
        self.M = self.P @ np.diag(d) @ self.Q.T
        self.none = s['kind'] == 'none'
        self.tsin = 1.

    def z(self, y):
        return self.Q.T @ y

    def fz(self, t, z):
        if self.none:                       # v**2 + 1 = u - u: no real solution
            return np.array([-z[0], z[1]**2 + 1.])
        f = self.A @ z + self.c * np.cos(self.tsin * t)
        nd = self.nd
        f[nd:] = f[nd:] + self.nl * (np.sin(z[nd:]) + .2 * z[:1]**2)
        return f

    def jz(self, t, z):
        if self.none:
            return np.array([[-1., 0.], [0., 2 * z[1]]])
        nd = self.nd
        J = self.A.copy()
        J[nd:, nd:] += self.nl * np.diag(np.cos(z[nd:]))
        J[nd:, 0] += self.nl * .4 * z[0]
        return J

    def fun(self, t, y):
        return self.P @ self.fz(t, self.z(y))

    def jac(self, t, y):
        return self.P @ self.jz(t, self.z(y)) @ self.Q.T

    def consistent(self, t, z, n=60):
        z = z.copy()
        nd = self.nd
        for _ in range(n):
            g = self.fz(t, z)[nd:]
            z[nd:] -= np.linalg.solve(self.jz(t, z)[nd:, nd:], g)
        return z


@chk('C14')
def _(s):
    from scipy.sparse import csc_array
    out = []
    C = cls(s['cls'])
    if s['kind'] == 'rober':
        def f(t, y):
            a, b, c = .04 * y[0], 1e4 * y[1] * y[2], 3e7 * y[1]**2
            return np.array([-a + b, a - b - c, y.sum() - 1])
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            S = C(f, 0., np.array([1., 0., 0.]), 1e4, M=np.diag([1., 1., 0.]), rtol=1e-4, atol=1e-8)
            k = 0
            while S.status == 'running' and k < 2000:
                S.step()
                k += 1
                if S.status != 'failed' and abs(S.y.sum() - 1) > 1e-5:
                    out.append(('algebraic equation', f't={S.t}: {S.y.sum() - 1}'))
                    break
        if S.status != 'finished':
            out.append(('did not finish', f'{S.status} at {S.t}'))
        return out
    D = Dae(s)
    r = np.random.default_rng(s['seed'] + 1)
    t0 = .3
    z0 = r.uniform(-1, 1, D.n)
    if s['kind'] == 'none':
        z0 = np.array([1., .5])
    elif s['kind'] != 'index2':
        zc = D.consistent(t0, z0)
        if not np.all(np.isfinite(zc)) or np.max(np.abs(D.fz(t0, zc)[D.nd:])) > 1e-11:
            return []
        if np.linalg.cond(D.jz(t0, zc)[D.nd:, D.nd:]) > 30:
            return []
        if s['kind'] == 'cons' or (s['kind'] == 'nonlin' and s['seed'] % 3 == 0):
            z0 = zc
            cons = True
        else:
            z0 = zc.copy()
            z0[D.nd:] += r.uniform(.05, .3, D.na) * (1 if s['kind'] == 'nonlin' else 3)
            cons = False
            if np.linalg.cond(D.jz(t0, z0)[D.nd:, D.nd:]) > 30:
                return []
    y0 = D.Q @ z0
    M = {'dense': D.M, 'sparse': csc_array(D.M), '1d': D.d.copy()}[s['form']]
    jac = {'fun': D.jac, 'none': None, 'sparse': lambda t, y: csc_array(D.jac(t, y)), 'const': D.jac(t0, y0),
           'constsparse': csc_array(D.jac(t0, y0))}[s['jac']]
    if s['kind'] in ('index2', 'none'):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                C(D.fun, t0, y0, t0 + 1., M=M, jac=jac)
            return [(f'{s["kind"]} accepted', '')]
        except Exception:
            return []
    tb = t0 + s['dir'] * 1.
    y0c = y0.copy()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            S = C(D.fun, t0, y0, tb, M=M, jac=jac, rtol=1e-4, atol=1e-7)
    except Exception as e:
        return [('index-1 DAE rejected', f'{type(e).__name__}: {e}')]
    if not np.array_equal(y0, y0c):
        out.append(('user y0 changed', ''))
    z, zp = D.Q.T @ S.y, D.Q.T @ S.yp
    nd = D.nd
    if cons and np.max(np.abs(S.y - y0)) > 1e-10:
        out.append(('consistent values changed', f'{S.y - y0}'))
    if np.max(np.abs(z[:nd] - z0[:nd])) > 1e-10:
        out.append(('differential part changed', f'{z[:nd] - z0[:nd]}'))
    f = D.fz(t0, z)
    if np.max(np.abs(f[nd:])) > 1e-6:
        out.append(('algebraic equations not satisfied', f'{f[nd:]}'))
    if np.max(np.abs(D.d[:nd] * zp[:nd] - f[:nd])) > 1e-7 * (1 + np.max(np.abs(f))):
        out.append(('derivative of the differential part', f'{D.d[:nd] * zp[:nd]} {f[:nd]}'))
    J = D.jz(t0, z)
    gt = -D.c[nd:] * np.sin(t0)
    res = J[nd:, nd:] @ zp[nd:] + J[nd:, :nd] @ zp[:nd] + gt
    if np.max(np.abs(res)) > 1e-3 * (1 + np.max(np.abs(zp))):
        out.append(('derivative of the algebraic part', f'residual {res}'))
    k = 0
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        while S.status == 'running' and k < 80 and not out:
            S.step()
            k += 1
            if S.status == 'failed':
                out.append(('failed', f'at {S.t}'))
                break
            z = D.Q.T @ S.y
            g = D.fz(S.t, z)[nd:]
            dz = np.linalg.solve(D.jz(S.t, z)[nd:, nd:], g)
            w = 1e-7 + 1e-4 * np.max(np.abs(z))
            if np.max(np.abs(dz)) > 20 * w:
                out.append(('algebraic equations along the run', f't={S.t}: {dz} (tolerance {w})'))
    return out


# ------------------------------------------------------------------------ C15
@scn('C15')
def _(tier, seed):
    r = gen.rng_for('C15', seed)
    yield dict(kind='stiff_c', seed=int(r.integers(10**9)), n=20000)
    for c in classes(r, tier, [c for c in RK + NYS if c != 'CKdisc'], n=5):
        s = gen.scenario(c, r, 'rough' if r.random() < .3 else 'smooth')
        k = r.integers(4)
        if k == 0 and KIND[c] == 'rk':
            s['prob'] = dict(name='forced', a=gen.f(r.uniform(100, 2000), 3), y0=[1., .5], t0=0., tb=5.)
            s['opts'] = dict(rtol=1e-3, atol=1e-6)
        elif k == 1 and KIND[c] == 'rk':
            nm = gen.pick(r, ['zero', 'const', 'nil', 'zero0'])
            s['prob'] = dict(name='zero' if nm == 'zero0' else nm, y0=[0., 0.] if nm == 'zero0' else [1., 2.],
                             t0=0., tb=400.)
            s['opts'] = dict(max_step=1.)
        elif k == 2 and KIND[c] == 'nys':
            s['prob'] = dict(name='fall', c=[0.] if r.random() < .5 else [1.], y0=[0., 0.] if r.random() < .5 else [1., .5],
                             t0=0., tb=400.)
            s['opts'] = dict(max_step=1.)
        s['n'] = [0, 1, 2, 7, 30, 100, 5000]
        yield s


@chk('C15')
def _(s):
    from extensisq import common
    out = []
    if s.get('kind') == 'stiff_c':
        r = np.random.default_rng(s['seed'])
        for i in range(s['n']):
            k = i % 4
            if k == 0:
                x1, x2 = r.normal(size=2) * 10 ** r.uniform(-3, 3, 2)
                a, b = -(x1 + x2), x1 * x2
            elif k == 1:
                re, im = r.normal(size=2) * 10 ** r.uniform(-3, 3, 2)
                a, b = -2 * re, re * re + im * im
            elif k == 2:
                x = float(r.integers(-8, 9))
                a, b = -2 * x, x * x
            else:
                x1, x2 = (float(v) for v in r.integers(-4, 5, 2))
                a, b = -(x1 + x2), x1 * x2
            try:
                q1, q2 = common.stiff_c(np.float64(a), np.float64(b))
                z1, z2 = complex(*q1), complex(*q2)
            except Exception as e:
                out.append(('stiff_c raises', f'{a} {b} {e}'))
                break
            sc = abs(z1)
            if abs(z1 + z2 + a) > 1e-9 * max(sc, abs(a), 1e-300) or \
                    abs(z1 * z2 - b) > 1e-9 * max(sc * sc, abs(b), 1e-300):
                out.append(('stiff_c: not the roots', f'alpha={a} beta={b}: {z1} {z2}'))
                break
            if abs(z1) < abs(z2) * (1 - 1e-12):
                out.append(('stiff_c: order', f'alpha={a} beta={b}: {z1} {z2}'))
                break
        return out
    ref = None
    p = s['prob']
    fun = None
    if p['name'] == 'nil':
        def fun(t, y):
            return np.array([y[1], 0.])
        p = dict(p, name='zero')
    for n in s['n']:
        run = Run(dict(s, prob=p, opts=dict(s['opts'], nfev_stiff_detect=n)), fun=fun, steps=700)
        tr = [(r.t, r.y.tobytes(), r.nfs, r.status) for r in run.steps]
        if run.exc or run.hang:
            if n:
                out.append(('raises', f'nfev_stiff_detect={n}: {run.exc}'))
                break
            return []
        if ref is None:
            ref = tr
            if any('stiff' in w for w in run.warnings if 'does nothing' not in w):
                out.append(('warning although switched off', str(run.warnings)))
        elif tr != ref:
            i = next((i for i, (a, b) in enumerate(zip(tr, ref)) if a != b), min(len(tr), len(ref)))
            out.append(('solution changed', f'nfev_stiff_detect={n}: step {i}'))
            break
        # a warning needs a problem that is stiff at all
        if n and any('is stiff' in w for w in run.warnings):
            if p['name'] in ('decay', 'rot', 'logistic', 'zero', 'const', 'poly', 'fall', 'osc') and \
                    max(p.get('lam', [0]) if isinstance(p.get('lam'), list) else [0]) < 4:
                out.append(('stiffness warning for a non-stiff problem', str(run.warnings)))
    return out


# ------------------------------------------------------------------------ C16
@scn('C16')
def _(tier, seed):
    r = gen.rng_for('C16', seed)
    for c in classes(r, tier, ALL, n=6):
        s = gen.scenario(c, r, 'rough' if r.random() < .3 else 'smooth')
        s['opts'].pop('first_step', None)
        s['opts'].pop('const_jac', None)
        if r.random() < .25:
            s['opts']['max_step'] = gen.f(abs(s['prob']['tb'] - s['prob']['t0']) * 10**r.uniform(-6, -1), 3)
        if r.random() < .2:
            s['prob']['tb'] = s['prob']['t0'] + float(np.sign(s['prob']['tb'] - s['prob']['t0'])) * \
                gen.f(10**r.uniform(-9, 4), 4)
        yield dict(s, kind='ctor')
    for i in range(40 if tier == 'quick' else 400):
        c = gen.pick(r, RK)
        s = gen.scenario(c, r, 'rough' if r.random() < .3 else 'smooth')
        yield dict(s, kind='h_start', morder=int(r.integers(1, 9)), lr=gen.f(10**r.uniform(-12, -1), 3),
                   la=gen.f(10**r.uniform(-12, 0), 3))
    for c in classes(r, tier, ALL, n=2):
        s = gen.failing(c, r)
        s['opts'] = {}
        yield dict(s, kind='ctor')
    for c in classes(r, tier, [c for c in ALL if c not in NYS], n=4):
        yield dict(kind='flat', cls=c, n=int(r.integers(1, 5)), f=FLAT[int(r.integers(len(FLAT)))],
                   zero=bool(r.random() < .7), t0=gen.pick(r, [0., 0., 1., -3.]), d=gen.pick(r, [-1, 1]))


FLAT = ['one', 'zero', 't', 'first', 'sub', 't2']


def flat(s):
    import extensisq
    n = s['n']
    e = np.zeros(n)
    e[0] = 1.
    f = dict(one=lambda t, y: np.ones(n), zero=lambda t, y: np.zeros(n), t=lambda t, y: np.ones(n) * t,
             first=lambda t, y: e.copy(), sub=lambda t, y: np.sqrt(np.abs(y)), t2=lambda t, y: (t - s['t0'])**2 * e)[s['f']]
    y0 = np.zeros(n) if s['zero'] else np.arange(n, dtype=float)
    bad, g = [], f

    def f(t, y):
        if not (np.isfinite(t) and np.all(np.isfinite(y))):
            bad.append((t, y))
        return g(t, y)
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            o = getattr(extensisq, s['cls'])(f, s['t0'], y0, s['t0'] + s['d'])
        except Exception as x:
            return [('raises for a harmless problem', f'{type(x).__name__}: {x}')]
        if s['cls'] == 'SSV2stab':
            o.step()
            h = abs(o.t - s['t0'])
        else:
            h = abs(o.h if s['cls'] == 'SWAG' else o.h_abs)
        if bad:
            return [('first step: evaluation at a state that is not finite', f'{bad[0]}')]
        if not (np.isfinite(h) and 0 < h <= 1 + 1e-12):
            return [('first step of a harmless problem', f'{h}')]
        if not np.array_equal(y0, np.zeros(n) if s['zero'] else np.arange(n)):
            return [('user y0 changed', f'{y0}')]
    return []


@chk('C16')
def _(s):
    from extensisq import common
    if s['kind'] == 'flat':
        return flat(s)
    p = s['prob']
    out = []
    L = abs(p['tb'] - p['t0'])
    d = np.sign(p['tb'] - p['t0'])
    if s['kind'] == 'h_start':
        f, jac = core.make(p)
        y0 = core.y0_of(p)
        yp = np.asarray(f(p['t0'], y0))
        if not np.all(np.isfinite(yp)):
            return []
        a, b = y0.copy(), yp.copy()
        with np.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for J in (None, 'J'):
                kw = {} if J is None else dict(J=np.asarray(jac(p['t0'], y0), y0.dtype), T=np.zeros_like(y0))
                h = common.h_start(f, p['t0'], p['tb'], y0, yp, s['morder'], s['lr'], s['la'], **kw)
                if not (np.isfinite(h) and h != 0 and np.sign(h) == d):
                    out.append(('h_start value', f'{h} (J={J})'))
                elif abs(h) > L * (1 + 1e-12) and abs(h) > 200 * EPS * abs(p['t0']):
                    out.append(('h_start too long', f'{h} > {L}'))
        if not (np.array_equal(a, y0) and np.array_equal(b, yp)):
            out.append(('h_start changed its arguments', ''))
        return out
    m = s['opts'].get('max_step', np.inf)
    run = Run(s, steps=1)
    if run.exc:
        return [('raises', run.exc)] if s.get('benign') else []
    if s['cls'] == 'SSV2stab':
        if not run.steps or not run.steps[0].ok:
            return []
        r = run.steps[0]
        h = abs(r.t - r.t_old)
        # the first attempt: first call after the spectral radius estimate
    else:
        h = run.ctor['h']
        if s['cls'] == 'SWAG' and np.sign(h) != d and np.isfinite(h):
            out.append(('direction', f'{h}'))
        h = abs(h)
    f0 = run.calls[0][2] if run.calls else np.zeros(1)
    if not np.all(np.isfinite(f0)):
        return out
    if not np.isfinite(h) or not h > 0:
        out.append(('not positive and finite', f'{h}'))
    elif h > min(L, m) * (1 + 1e-12) + 4 * ulp(p['t0'], p['tb']) and \
            h > 200 * ulp(p['t0'], p['tb']):
        out.append(('too long', f'{h}, distance {L}, max_step {m}'))
    y0 = core.y0_of(p)
    if len(run.steps) and not np.array_equal(run.steps[0].y_old, y0):
        out.append(('initial state changed', f'{run.steps[0].y_old}'))
    if not np.array_equal(run.y0, y0):
        out.append(('user y0 changed', ''))
    # usable: the first proposal is not absurdly small on a harmless problem
    return out


# ------------------------------------------------------------------------ C17
def invalid(c):
    k = KIND[c]
    bad_ = [dict(rtol=-1e-3), dict(atol=-1e-6), dict(atol=[1e-6, -1e-6]), dict(atol=[1e-6] * 3), dict(atol=[[1e-6, 1e-6]]),
            dict(rtol=np.array([1e-3, 1e-3])), dict(rtol=[1e-3, 1e-3]), dict(rtol='tight'),
            dict(first_step=0.), dict(first_step=-.1), dict(first_step=5.),
            dict(max_step=0.), dict(max_step=-1.)]
    if k in ('rk', 'nys', 'esd') and c != 'CKdisc':
        bad_ += [dict(sc_params='nonsense'), dict(sc_params=(1., 2., 3.)), dict(sc_params=(1., 0., 0., .9, 1.)),
                 dict(sc_params=[.7, -.4, 0, .9]), dict(sc_params=3), dict(sc_params='g')]
    if k in ('rk', 'nys') and c not in ('CKdisc',):
        bad_ += [dict(nfev_stiff_detect=-1), dict(nfev_stiff_detect=2.5), dict(nfev_stiff_detect='no'),
                 dict(nfev_stiff_detect=None)]
    if c == 'BS5':
        bad_ += [dict(interpolant='x'), dict(interpolant=1), dict(interpolant=None)]
    if c == 'Fi5N':
        bad_ += [dict(interpolant=4), dict(interpolant=-1), dict(interpolant='free')]
    if c == 'Mu5Nmb':
        bad_ += [dict(interpolant='x'), dict(interpolant=0)]
    if c.startswith('K') and c != 'KS':
        bad_ += [dict(interpolant='C2'), dict(interpolant=1), dict(interpolant='c0')]
    if c == 'SWAG':
        bad_ += [dict(k_max=0), dict(k_max=13), dict(k_max=-1), dict(k_max=4.), dict(k_max='a')]
    if c == 'SSV2stab':
        bad_ += [dict(const_jac=1), dict(const_jac='yes'), dict(rho_jac=3.), dict(rho_jac=lambda t, y: -1.),
                 dict(rho_jac=lambda t, y: 0.), dict(rho_jac=lambda t, y: 'a'), dict(rho_jac=lambda t, y: y),
                 dict(rho_jac=lambda t, y: None)]
    if k == 'esd':
        bad_ += [dict(jac=np.zeros((3, 3))), dict(M=np.ones(3)), dict(M=np.ones((2, 2, 2))), dict(M=2.)]
    return bad_


@scn('C17')
def _(tier, seed):
    r = gen.rng_for('C17', seed)
    for c in ALL:
        for i in range(len(invalid(c))):
            yield dict(cls=c, kind='invalid', i=i)
        for t in ([1e-6, 1e-6], [1e-3, 0.], [1e-20, 1e-9], [.5, 1e-3], [1e-16, 0.], [1e-3, 1e-200], [0., 0.], [.1, 1.]):
            yield dict(cls=c, kind='tol', t=t, vec=False)
        yield dict(cls=c, kind='tol', t=[1e-4, [1e-3, 1e-9]], vec=True)
        yield dict(cls=c, kind='tol', t=[1e-4, [0., 1e-9]], vec=True)
        yield dict(cls=c, kind='step', h=gen.f(10**r.uniform(-4, 0), 3), m=gen.f(10**r.uniform(-3, 1), 3))
        yield dict(cls=c, kind='step', h=1., m=np.inf)
        yield dict(cls=c, kind='step', h=.25, m=.5)
    for i in range(40 if tier == 'quick' else 600):
        yield dict(kind='validate', seed=int(r.integers(10**9)))
    yield dict(kind='scale', seed=int(r.integers(10**9)))


@chk('C17')
def _(s):
    from extensisq import common
    out = []
    if s['kind'] == 'validate':
        r = np.random.default_rng(s['seed'])
        n = int(r.integers(1, 5))
        y = r.normal(size=n).astype(gen.pick(r, [float, complex]))
        rt = float(10 ** r.uniform(-20, 1)) if r.random() < .9 else 0.
        at = 10 ** r.uniform(-200, 2, n) if r.random() < .5 else float(10 ** r.uniform(-200, 2))
        if r.random() < .2:
            at = at * 0
        keep = np.array(at, copy=True)
        q, a = common.validate_tol(rt, at, y)
        if q != min(max(rt, 10 * np.finfo(float).epsneg), .1):
            out.append(('rtol', f'{rt} -> {q}'))
        if not np.array_equal(np.broadcast_to(a, (n,)), np.broadcast_to(np.maximum(keep, np.sqrt(np.finfo(float).tiny)), (n,))):
            out.append(('atol', f'{keep} -> {a}'))
        if not np.all(np.asarray(a) > 0):
            out.append(('atol not positive', f'{a}'))
        if not np.array_equal(keep, at):
            out.append(('user atol changed', ''))
        return out
    if s['kind'] == 'scale':
        r = np.random.default_rng(s['seed'])
        for _ in range(200):
            n = int(r.integers(1, 5))
            y, z = r.normal(size=(2, n)) * 10 ** r.uniform(-5, 5, (2, n))
            at, rt = 10 ** r.uniform(-9, 0, n), 10 ** r.uniform(-9, -1)
            if not close(common.calculate_scale(at, rt, y, z), at + rt * np.maximum(abs(y), abs(z)), 1e-14, 0):
                out.append(('weights', f'{y} {z} {at} {rt}'))
            if not close(common.calculate_scale(at, rt, y, z, _mean=True), at + rt * .5 * (abs(y) + abs(z)), 1e-14, 0):
                out.append(('mean weights', f'{y} {z} {at} {rt}'))
            x = r.normal(size=n) + 1j * r.normal(size=n)
            if abs(common.norm(x) - rms(x)) > 1e-13 * rms(x):
                out.append(('norm', f'{x}'))
        return out[:3]
    c = s['cls']

    def f(t, y):
        return np.array([y[1], -y[0]])

    def mk(**o):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return cls(c)(f, 0., np.array([.3, .7]), 1., **o)
    if s['kind'] == 'invalid':
        o = invalid(c)[s['i']]
        try:
            mk(**o)
        except Exception:
            return []
        return [('invalid option accepted', str(o))]
    if s['kind'] == 'tol':
        rt, at = s['t']
        at = np.array(at) if s['vec'] else at
        keep = np.array(at, copy=True)
        S = mk(rtol=rt, atol=at)
        want = np.broadcast_to(np.maximum(keep, np.sqrt(np.finfo(float).tiny)), (2,))
        if S.rtol != min(max(rt, 10 * np.finfo(float).epsneg), .1):
            out.append(('rtol', f'{rt} -> {S.rtol}'))
        if not np.array_equal(np.broadcast_to(S.atol, (2,)), want):
            out.append(('atol', f'{keep} -> {S.atol}'))
        if not np.array_equal(keep, at):
            out.append(('user atol changed', ''))
        return out
    S = mk(first_step=s['h'], max_step=s['m'])
    h = abs(getattr(S, 'h_abs', getattr(S, 'h', getattr(S, 'absh', None))))
    if abs(h - s['h']) > 1e-15:
        out.append(('first_step not used', f'{s["h"]} -> {h}'))
    if S.max_step != s['m'] and not (c == 'SSV2stab' and S.max_step == min(1., s['m'])):
        out.append(('max_step not used', f'{s["m"]} -> {S.max_step}'))
    if s['h'] <= s['m'] and s['h'] < .4:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            n0 = int(xq.NFS[()])
            S.step()
        if c != 'CKdisc' and c != 'SSV2stab' and int(xq.NFS[()]) == n0 and S.status != 'failed' and \
                abs(S.t - s['h']) > 1e-12 and S.t < 1. and KIND[c] != 'esd':
            out.append(('first step taken', f'{S.t} instead of {s["h"]}'))
    return out


# ------------------------------------------------------------------------ C18
@scn('C18')
def _(tier, seed):
    r = gen.rng_for('C18', seed)
    for i in range(36 if tier == 'quick' else 400):
        yield dict(kind='all', seed=int(r.integers(10**9)), Ny=int(r.integers(1, 4)), Np=int(r.integers(1, 4)),
                   dir=gen.pick(r, [1, -1]), t0=gen.f(r.uniform(-2, 2), 3), L=gen.f(r.uniform(.3, 1.5), 3),
                   method=gen.pick(r, ['BS5', 'Ts5', 'Pr8', 'SWAG', 'RK45', 'Radau', 'KC4I', 'CFMR7osc']),
                   solgiven=bool(r.integers(2)), zero=bool(r.random() < .2))


class Sens:
    """y' = A(p) y + nl(y, p) + b(p) cos t with analytic derivatives"""

    def __init__(self, s):
        r = np.random.default_rng(s['seed'])
        Ny, Np = s['Ny'], s['Np']
        self.Ny, self.Np = Ny, Np
        self.A0 = r.uniform(-1, 1, (Ny, Ny))
        self.A = r.uniform(-.5, .5, (Np, Ny, Ny))
        self.b = r.uniform(-1, 1, (Np, Ny))
        self.q = r.uniform(-.3, .3, (Np, Ny))
        self.y00 = r.uniform(-1, 1, Ny)
        self.Y = r.uniform(-1, 1, (Ny, Np))
        self.p = r.uniform(-1, 1.5, Np)
        if s.get('zero'):
            self.p[0] = 0.
        self.gy = r.uniform(-1, 1, Ny)
        self.gp = r.uniform(-1, 1, Np)
        self.gq = r.uniform(-.5, .5, Ny)

    def mat(self, p):
        return self.A0 + np.tensordot(np.asarray(p), self.A, 1)

    def fun(self, t, y, *p):
        p = np.asarray(p)
        return self.mat(p) @ y + (p @ self.b) * np.cos(t) + (p @ self.q) * np.sin(y)

    def jac(self, t, y, *p):
        p = np.asarray(p)
        return self.mat(p) + np.diag((p @ self.q) * np.cos(y))

    def dfdp(self, t, y, *p):
        return np.array([self.A[i] @ y + self.b[i] * np.cos(t) + self.q[i] * np.sin(y)
                         for i in range(self.Np)]).T

    def y0(self, p):
        return self.y00 + self.Y @ p

    def g(self, t, y, *p):
        p = np.asarray(p)
        return np.array([self.gy @ y + .5 * self.gq @ y**2 + self.gp @ p * np.sin(t) + .5 * (self.gp @ p)**2 * y[0]])

    def dgdy(self, t, y, *p):
        p = np.asarray(p)
        v = self.gy + self.gq * y
        v = v.copy()
        v[0] += .5 * (self.gp @ p)**2
        return v

    def dgdp(self, t, y, *p):
        p = np.asarray(p)
        return self.gp * np.sin(t) + (self.gp @ p) * self.gp * y[0]


@chk('C18')
def _(s):
    from scipy.integrate import solve_ivp
    import extensisq as x
    P = Sens(s)
    Ny, Np = P.Ny, P.Np
    t0, tf = s['t0'], s['t0'] + s['dir'] * s['L']
    p = P.p

    # reference: independent variational equations with the integral of g
    def ref(t, w):
        y, S = w[:Ny], w[Ny:Ny + Ny * Np].reshape(Ny, Np)
        dS = P.jac(t, y, *p) @ S + P.dfdp(t, y, *p)
        dI = P.dgdy(t, y, *p) @ S + P.dgdp(t, y, *p)
        return np.concatenate((P.fun(t, y, *p), dS.ravel(), P.g(t, y, *p), dI))
    y0 = P.y0(p)
    w0 = np.concatenate((y0, P.Y.ravel(), np.zeros(1 + Np)))
    R = solve_ivp(ref, (t0, tf), w0, method='DOP853', rtol=1e-11, atol=1e-12).y[:, -1]
    yf, Sf = R[:Ny], R[Ny:Ny + Ny * Np].reshape(Ny, Np)
    G, dG = R[-1 - Np], R[-Np:]
    gf = P.g(tf, yf, *p)
    dgf = P.dgdy(tf, yf, *p) @ Sf + P.dgdp(tf, yf, *p)
    out = []
    m = s['method']
    M = getattr(x, m) if hasattr(x, m) else m
    rt, at = 1e-7, 1e-9
    tol = 2e-4

    def cmp(nm, a, b):
        a, b = np.asarray(a, float), np.asarray(b, float)
        if a.shape != b.shape:
            out.append((nm + ' shape', f'{a.shape} {b.shape}'))
        elif np.max(np.abs(a - b)) > tol * (1 + np.max(np.abs(b))):
            out.append((nm, f'{a.tolist()} instead of {b.tolist()}'))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            F = x.sens_forward(P.fun, (t0, tf), y0, P.jac, P.dfdp, P.Y, tuple(p), atol=at, rtol=rt, method=M)
            cmp('forward sensitivity', F[0], Sf)
            cmp('forward solution', F[1], yf)
            F = x.sens_forward(P.fun, (t0, tf), y0, P.jac, P.dfdp, P.Y, tuple(p), atol=[at] * Ny, rtol=rt, method=M,
                               dense_output=True, t_eval=[t0, (t0 + tf) / 2, tf])
            cmp('forward sensitivity (t_eval)', F[0], Sf)
            if m in ('Radau', 'KC4I'):
                F = x.sens_forward(P.fun, (t0, tf), y0, P.jac, P.dfdp, P.Y, tuple(p), atol=1e-7, rtol=1e-5, method=M,
                                   use_approx_jac=True)
                cmp('forward sensitivity (approximate Jacobian)', F[0], Sf)
            kw = dict(method=M, rtol=rt, atol=at, atol_adj=1e-8, atol_quad=1e-8)
            E = x.sens_adjoint_end(P.fun, (t0, tf), y0, P.jac, P.dfdp, P.Y, tuple(p), P.g, P.dgdp, P.dgdy, **kw)
            cmp('adjoint end point', np.ravel(E[0]), dgf)
            cmp('end point function', E[1], gf)
            if s['solgiven']:
                kw['sol_y'] = solve_ivp(lambda t, y: P.fun(t, y, *p), (t0, tf), y0, method='DOP853', rtol=1e-10,
                                        atol=1e-11, dense_output=True)
            Q = x.sens_adjoint_int(P.fun, (t0, tf), y0, P.jac, P.dfdp, P.Y, tuple(p), P.g, P.dgdp, P.dgdy, **kw)
            cmp('adjoint integral', np.ravel(Q[0]), dG)
            cmp('integral', Q[1], G)
        except Exception as e:
            import traceback
            out.append(('raises', f'{type(e).__name__}: {e} {traceback.format_exc()[-300:]}'))
    return out


# ------------------------------------------------------------------------ C19
@scn('C19')
def _(tier, seed):
    r = gen.rng_for('C19', seed)
    for c in classes(r, tier, NYS, n=12):
        n = int(r.integers(1, 4))
        y0 = [gen.f(v, 3) for v in r.normal(size=2 * n) * 10 ** r.uniform(-3, 3)]
        k = r.integers(6)
        if k == 0:
            y0 = [float(v) for v in r.integers(-1, 2, 2 * n)]
        elif k == 1:
            y0[n:] = y0[:n]
        elif k == 2:
            y0[n:] = [-1.] * n
        elif k == 3:
            y0[n:] = [0.] * n
        yield dict(cls=c, n=n, y0=y0, c=gen.f(r.uniform(.05, 2), 3), t0=gen.f(r.normal(), 3), seed=int(r.integers(999)),
                   aslist=bool(r.random() < .3))


@chk('C19')
def _(s):
    C = cls(s['cls'])
    n, y0 = s['n'], np.array(s['y0'])
    t0 = s['t0']
    vel = isinstance(C.Ap, np.ndarray)
    out = []
    r = np.random.default_rng(s['seed'])
    W = r.uniform(-1, 1, (n, n))

    def mk(f, y):
        try:
            with warnings.catch_warnings(), np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                return C(f, t0, y, t0 + 1.)
        except AssertionError:
            return None

    def wrap(a):
        return list(a) if s['aslist'] else a

    def good(t, y):
        return wrap(np.concatenate((y[n:], W @ y[:n] + np.sin(t))))

    def damped(t, y):
        return wrap(np.concatenate((y[n:], W @ y[:n] - s['c'] * y[n:])))

    def wrong(t, y):
        return wrap(np.concatenate((y[n:] + 1., W @ y[:n])))

    def swapped(t, y):
        return wrap(np.concatenate((y[:n], y[n:])))

    def first(t, y):
        return wrap(np.concatenate((2 * y[n:] + .5, y[:n])))
    try:
        S = mk(good, y0)
    except Exception as e:
        return [('valid problem raises', f'{type(e).__name__}: {e}')]
    if S is None:
        out.append(('valid problem rejected', str(y0)))
    else:
        seen = []

        def spy(t, y):
            seen.append((t, np.array(y)))
            return good(t, y)
        S = mk(spy, y0)
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            S.step()
        if any(y.shape != (2 * n,) for _, y in seen):
            out.append(('function not called with the full state', ''))
        if S.status != 'failed':
            a = np.asarray(good(S.t, S.y))[n:]
            if not close(np.asarray(S.f), a, 1e-9, 1e-9 * (1 + np.max(np.abs(a)))):
                out.append(('carried acceleration', f'{S.f} instead of {a}'))
    D = mk(damped, y0)
    big = np.any(s['c'] * np.abs(y0[n:]) + s['c'] > 1e-3 * (1 + np.max(np.abs(W @ y0[:n]))))
    if vel and D is None:
        out.append(('velocity dependent problem rejected', str(y0)))
    if not vel and D is not None and big:
        out.append(('velocity dependent problem accepted', str(y0)))
    if mk(wrong, y0) is not None:
        out.append(('wrong structure accepted', str(y0)))
    if mk(swapped, y0) is not None:
        out.append(('structure [x, v] instead of [v, a] accepted', str(y0)))
    if np.any(2 * y0[n:] + .5 != y0[n:]) and mk(first, y0) is not None:
        out.append(('wrong structure accepted', str(y0)))
    if n > 1:
        odd = y0[:2 * n - 1]
        if mk(lambda t, y: np.zeros_like(y), odd) is not None:
            out.append(('odd dimension accepted', ''))
    if mk(lambda t, y: -y, np.array([0.])) is not None:
        out.append(('odd dimension accepted', ''))
    return out


# ------------------------------------------------------------------------ C20
@scn('C20')
def _(tier, seed):
    r = gen.rng_for('C20', seed)
    for m in list(range(2, 14)) + [20, 33, 50, 87, 150, 250] + [int(v) for v in r.integers(2, 300, 4)]:
        yield dict(cls='SSV2stab', kind='stages', m=int(m), h=gen.f(r.uniform(.1, 2) * gen.pick(r, [1, -1]), 3),
                   t0=gen.f(r.normal(), 3))
    for i in range(30 if tier == 'quick' else 200):
        c = 'SSV2stab'
        s = gen.scenario(c, r, 'rough' if r.random() < .2 else 'smooth')
        s['kind'] = 'run'
        if r.random() < .4:
            s['prob'] = dict(name='heat', n=8, a=gen.f(10**r.uniform(0, 6), 3), y0=[1., .5, .2, .1, 0., .3, .2, .9],
                             t0=0., tb=gen.f(r.uniform(.1, 20), 3))
            s['opts'] = dict(rtol=gen.pick(r, [1e-3, 1e-2, 1e-5, 1e-8]), atol=1e-5)
            if r.random() < .6:
                s['opts']['rho_jac'] = gen.f(4 * s['prob']['a'], 6)
        yield s


@chk('C20')
def _(s):
    out = []
    C = cls('SSV2stab')
    if s['kind'] == 'stages':
        m, h, t0 = s['m'], s['h'], s['t0']

        def rk(lam, y0, g=None, gt=None):
            def f(t, y):
                return lam * y if g is None else g(t, y)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                S = C(f, t0, y0, t0 + h * 9, rho_jac=lambda t, y: 1.)
            y, a, b = np.empty_like(y0), np.empty_like(y0), np.empty_like(y0)
            S._stages(t0, y0, np.asarray(f(t0, y0)), h, m, y, a, b)
            return y
        beta = (m * m - 1) / 1.54
        z = -np.concatenate((np.linspace(0, beta, 60 * m if m < 40 else 4001), [beta], np.linspace(0, min(beta, 4.), 50)))
        y = rk(z / h, np.ones_like(z))
        if np.max(np.abs(y)) > 1 + 1e-10:
            out.append(('amplification factor', f'm={m}: |R|={np.max(np.abs(y))} at z={z[np.argmax(np.abs(y))]}'))
        # second order: exact for polynomials of degree two and for the trees of order <= 2
        zs = np.array([1e-3, 2e-3])
        y = rk(zs / h, np.ones_like(zs))
        e = (y - np.exp(zs)) / zs**3
        if np.any(np.abs(e) > 2.) or np.any(np.abs(y - 1 - zs - zs**2 / 2) > 1e-3 * zs**2 + 3 * zs**3):
            out.append(('not second order', f'm={m}: {y - np.exp(zs)}'))
        y = rk(None, np.array([.3, -.2, .7]), lambda t, y: np.array([1., t, y[1]]) if False else
               np.array([1., 2 * t, y[0]]))
        ex = np.array([.3 + h, -.2 + 2 * t0 * h + h * h, .7 + .3 * h + h * h / 2])
        if np.max(np.abs(y - ex)) > 1e-9 * (1 + abs(t0)) * (1 + h * h):
            out.append(('polynomials of degree two', f'm={m} h={h}: {y - ex}'))
        # small step convergence of a nonlinear problem
        errs = []
        for hh in (.02, .01):
            def f(t, y):
                return y * np.cos(t) + np.sin(y)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                S = C(f, t0, np.array([.5]), t0 + 1., rho_jac=lambda t, y: 1.)
            from scipy.integrate import solve_ivp
            R = solve_ivp(f, (t0, t0 + hh), [.5], method='DOP853', rtol=1e-12, atol=1e-14).y[0, -1]
            y, a, b = np.empty(1), np.empty(1), np.empty(1)
            S._stages(t0, np.array([.5]), np.asarray(f(t0, np.array([.5]))), hh, m, y, a, b)
            errs.append(abs(y[0] - R))
        if errs[1] > 2e-7 and errs[0] / errs[1] < 5.:
            out.append(('local order', f'm={m}: errors {errs}'))
        return out
    # stage number along real runs
    log = []
    sp = []
    f0, _ = core.make(s['prob'])
    spec = s['opts'].get('rho_jac')

    class Spy(C):
        def _stages(self, t, yn, fn, h, m, *a):
            log.append((self.nfev, m, h, self.sprad, self.mmax))
            return super()._stages(t, yn, fn, h, m, *a)
    old = core.cls
    try:
        core.cls = lambda c: Spy
        run = Run(s, steps=200)
    finally:
        core.cls = old
    if run.exc:
        return [('raises', run.exc)] if s.get('benign') else []
    for nf, m, h, rho, mmax in log:
        if spec is not None and rho != spec:
            out.append(('user spectral radius not used', f'{rho} instead of {spec}'))
        if not 2 <= m <= mmax:
            out.append(('stage limit', f'm={m} mmax={mmax}'))
        if not abs(h) * rho <= .6536 * (m * m - 1) * (1 + 1e-9):
            out.append(('outside the stability interval', f'm={m} h*sprad={abs(h) * rho} limit {.653 * (m * m - 1)}'))
        if len(out) > 3:
            break
    p = s['prob']
    if p['name'] == 'heat' and spec is None and run.steps:
        true = p['a'] * 4 * np.cos(np.pi / (2 * (p['n'] + 1)))**2
        small = 1. / min(s['opts'].get('max_step', np.inf), abs(p['tb'] - p['t0']))
        for nf, m, h, rho, mmax in log[2:]:
            if rho < .8 * true and rho > 20 * small:
                out.append(('spectral radius estimate', f'{rho} for {true}'))
                break
    for i, r in enumerate(run.good):
        # evaluations of the last attempt: m - 1 stages and one at the end
        pass
    return out


# ------------------------------------------------------------------------ C21
@scn('C21')
def _(tier, seed):
    r = gen.rng_for('C21', seed)
    for i in range(50 if tier == 'quick' else 300):
        k = int(r.integers(1, 13)) if r.random() < .6 else None
        s = gen.scenario('SWAG', r, 'rough' if r.random() < .3 else 'smooth', variant=False)
        s['kind'] = 'run'
        if k:
            s['opts']['k_max'] = k
        yield s
    for i in range(24 if tier == 'quick' else 200):
        deg = int(r.integers(0, 9))
        yield dict(cls='SWAG', kind='poly', deg=deg, seed=int(r.integers(10**6)), k_max=int(r.integers(max(1, deg), 13)),
                   dir=gen.pick(r, [1, -1]), rt=gen.pick(r, [1e-3, 1e-5, 1e-8]))


@chk('C21')
def _(s):
    out = []
    if s['kind'] == 'run':
        run = Run(s, steps=400)
        km = s['opts'].get('k_max', 12)
        m = s['opts'].get('max_step', np.inf)
        prev = None
        for i, r in enumerate(run.good):
            if r.kold == 0:                 # Euler step over a tiny remainder
                continue
            h = abs(the_h(r))
            nx = abs(r.swag_h)
            if not 1 <= r.kold <= km or not 1 <= r.k <= km:
                out.append(('order', f'step {i}: k={r.kold}, next {r.k}, k_max={km}'))
            if abs(r.k - r.kold) > 1:
                out.append(('order changes by more than one', f'step {i}: {r.kold} -> {r.k}'))
            if nx > 2 * h * (1 + 1e-12):
                out.append(('step more than doubled', f'step {i}: {h} -> {nx}'))
            if nx < .5 * h * (1 - 1e-12) and nx < m * (1 - 1e-12) and nx > 1e3 * ulp(r.t):
                out.append(('step less than halved', f'step {i}: {h} -> {nx}'))
            if len(out) > 3:
                break
        # after failures: orders not larger, step sizes halved (C04 as well)
        for i, r in enumerate(run.steps):
            if r.ok and r.nfs > r.nfs0 and r.kold and r.kold > r.k_pre:
                out.append(('order raised by a failure', f'step {i}: {r.k_pre} -> {r.kold}'))
            if r.ok:
                hs = [abs(t - r.t_old) for t, _, _ in run.step_calls(r)][:-1]
                if len(hs) != r.nfs - r.nfs0 + 1:
                    continue
                for a, b in zip(hs, hs[1:]):
                    if b > .5 * a * (1 + 1e-9) + 2 * ulp(r.t_old):
                        out.append(('failure without halving', f'step {i}: {a} -> {b}'))
        return out
    r = np.random.default_rng(s['seed'])
    deg = s['deg']
    c = r.uniform(-1, 1, (2, deg + 1))
    d = s['dir']

    def f(t, y):
        return np.array([np.polyval(q, t) for q in c]) + s['rough'] * (y - exact(t)) if False else \
            np.array([np.polyval(q, t) for q in c])

    P = [np.polyint(q) for q in c]

    def exact(t):
        return np.array([np.polyval(q, t) for q in P])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        S = cls('SWAG')(f, 0., exact(0.), 2. * d, rtol=s['rt'], atol=s['rt'] * 1e-2, k_max=s['k_max'],
                        max_step=gen.f(r.uniform(.03, .3), 3))
        off = exact(0.) * 0
        n = 0
        while S.status == 'running' and n < 300:
            y0, t0 = S.y.copy(), S.t
            S.step()
            n += 1
            if S.status == 'failed':
                return out
            k = S.kold
            sc = 1e-10 * (1 + np.max(np.abs(S.y))) * (1 if k < 7 else 10.**(k - 6))
            # the derivative is a polynomial of degree <= k: the corrector is exact
            if 8 >= k >= deg and n > deg + 1:
                inc = exact(S.t) - exact(t0)
                if np.max(np.abs(S.y - y0 - inc)) > sc:
                    out.append(('corrector', f'k={k}, degree of f {deg}, t={S.t}: {S.y - y0 - inc}'))
                    break
                D = S.dense_output()
                for x in (.1, .5, .9):
                    tt = t0 + x * (S.t - t0)
                    e = D(tt) - y0 - (exact(tt) - exact(t0))
                    if np.max(np.abs(e)) > sc and k >= deg + 0 and S.k_max > 1:
                        out.append(('interpolant', f'k={k}, degree of f {deg}, at {x}: {e}'))
                        break
                if out:
                    break
    return out


# ------------------------------------------------------------------------ C22
@scn('C22')
def _(tier, seed):
    r = gen.rng_for('C22', seed)
    for c in classes(r, tier, n=6):
        s = gen.scenario(c, r, 'rough' if r.random() < .4 else 'smooth', dense=bool(r.random() < .3))
        if r.random() < .5:
            s['opts']['first_step'] = abs(s['prob']['tb'] - s['prob']['t0'])
            s['opts'].pop('max_step', None)
        yield s


@chk('C22')
def _(s):
    from extensisq import sommeijer
    c = s['cls']
    k = KIND[c]
    run = Run(s, steps=150)
    if run.s is None:
        return []
    out = []
    S = run.s
    C = cls(c)
    numjac = k == 'esd' and s['opts'].get('jac') is None
    n = len(run.calls)
    if k == 'ssv':
        if S.nfev + int(sommeijer.nfesig[()]) != n:
            out.append(('evaluations', f'nfev {S.nfev} + nfesig {int(sommeijer.nfesig[()])} != {n}'))
    elif k == 'esd':
        if S.nfev > n:
            out.append(('evaluations', f'nfev {S.nfev} > {n}'))
        # during the steps only approximations of the Jacobian are not counted
        for i, r in enumerate(run.steps):
            if not numjac and r.nfev - r.nfev0 != r.i1 - r.i0:
                out.append(('evaluations', f'step {i}: nfev grows by {r.nfev - r.nfev0}, {r.i1 - r.i0} calls'))
                break
        if callable(run.opts.get('jac')) and S.njev != run.jac_calls:
            out.append(('Jacobian evaluations', f'njev {S.njev} != {run.jac_calls}'))
    else:
        if S.nfev != n:
            out.append(('evaluations', f'nfev {S.nfev} != {n}'))
    if k in ('rk', 'nys', 'swag', 'ssv') and (S.njev or S.nlu):
        out.append(('counters of implicit methods', f'{S.njev} {S.nlu}'))
    if run.ctor['nfs'] != 0 and k != 'ssv':
        out.append(('failed steps not reset', f'{run.ctor["nfs"]}'))
    if k == 'swag':
        for i, r in enumerate(run.steps):
            m = r.nfs - r.nfs0
            calls = r.i1 - r.i0
            if r.ok and calls != m + 2:
                out.append(('failed steps', f'step {i}: {m} counted, {calls} evaluations'))
    if k in ('rk', 'nys') and c not in ('BS5', 'CFMR7osc', 'CKdisc') and s['opts'].get('nfev_stiff_detect') is None:
        fs = core.RKRef(run).fsal
        n = C.n_stages
        for i, r in enumerate(run.steps):
            if not r.ok:
                continue
            m = r.nfs - r.nfs0
            want = n + m * (n if fs else n - 1)
            got = r.i1 - r.i0
            if got < want or (got > want and len(run.steps) < 30):
                out.append(('failed steps and evaluations',
                            f'step {i}: {m} failures counted, {got} evaluations, expected {want}'))
                break
    if k == 'ssv':
        for i, r in enumerate(run.steps):
            pass
    return out

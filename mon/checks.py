"""Bounded stand-ins per property: check(prop, scenario) -> list of (key, text)"""
import os
import warnings
import numpy as np
from . import core, gen
from .core import (Run, RKRef, KIND, ALL, RK, NYS, ESD, VARIANTS, EPS, rms, wts,
                   the_h, close, xq, cls)

CH = {}
SC = {}
RULE = {}


def chk(prop):
    def d(fn):
        CH[prop] = fn
        return fn
    return d


def scn(prop):
    def d(fn):
        SC[prop] = fn
        return fn
    return d


def ulp(*a):
    return EPS * max(abs(x) for x in a)


def classes(r, tier, pool=ALL, n=1):
    return [c for c in pool for _ in range(n if tier == 'quick' else 4 * n)]


# ------------------------------------------------------------------------ C01
@scn('C01')
def _(tier, seed):
    r = gen.rng_for('C01', seed)
    for c in classes(r, tier, n=4):
        s = gen.scenario(c, r)
        k = r.integers(5)
        p = s['prob']
        if k == 0:                                   # awkward end points
            p['tb'] = p['t0'] + (p['tb'] - p['t0']) * float(r.uniform(.05, 1))
            s['opts']['first_step'] = abs(p['tb'] - p['t0']) / int(r.integers(2, 9))
        elif k == 1:
            s['opts']['max_step'] = abs(p['tb'] - p['t0']) / float(r.integers(3, 30)) * \
                float(1 + r.integers(-2, 3) * EPS)
            s['opts'].pop('first_step', None)
        elif k == 2:                                 # interval of a few ulp
            p['tb'] = float(p['t0'] + np.sign(p['tb'] - p['t0']) *
                            max(abs(p['t0']), .0) * EPS * int(r.integers(1, 60)))
            if p['tb'] == p['t0']:
                p['tb'] = float(np.nextafter(p['t0'], np.inf))
            s['opts'].pop('first_step', None)
            s['opts'].pop('max_step', None)
            s['benign'] = False               # below the resolution of time
        yield s
    for c in classes(r, tier, n=1):
        yield gen.scenario(c, r, 'rough')
    for c in classes(r, tier, n=2):
        yield gen.far(c, r)


@chk('C01')
def _(s):
    run = Run(s, steps=3000)
    out = []
    if run.hang:
        return [('hang', 'the run does not end')]
    if run.exc:
        return [('exception', run.exc)] if s.get('benign') else []
    d = run.s.direction
    tb = s['prob']['tb']
    for i, r in enumerate(run.good):
        if not d * (r.t - r.t_old) > 0:
            out.append(('not monotone', f'step {i}: {r.t_old!r} -> {r.t!r}'))
        if d * (tb - r.t) < 0:
            out.append(('past t_bound', f'step {i}: {r.t!r} > {tb!r}'))
    if run.s.status == 'finished' and run.s.t != tb:
        out.append(('ends off t_bound', f't={run.s.t!r} t_bound={tb!r}'))
    if run.s.status == 'finished' and any(r.t == tb for r in run.good[:-1]):
        out.append(('steps after t_bound', ''))
    if s.get('benign') and run.s.status == 'failed':
        m = run.steps[-1].msg or ''
        left = abs(tb - run.s.t)
        if 'tolerance too tight' not in m:
            out.append(('failed on a harmless problem',
                        f'{m} at t={run.s.t!r}, t_bound={tb!r}, remaining {left!r}'))
    return out


# ------------------------------------------------------------------------ C02
@scn('C02')
def _(tier, seed):
    r = gen.rng_for('C02', seed)
    for c in classes(r, tier, n=6):
        s = gen.scenario(c, r, 'rough' if r.random() < .2 else 'smooth')
        L = abs(s['prob']['tb'] - s['prob']['t0'])
        k = r.integers(4)
        s['opts']['max_step'] = [gen.f(L / r.uniform(1, 3), 5), gen.f(L / r.uniform(1.9, 2.1), 5),
                                 gen.f(L * 10**r.uniform(-2, 0), 4),
                                 float(L / int(r.integers(2, 12)))][k]
        if r.random() < .5:
            s['opts']['first_step'] = min(L, gen.f(s['opts']['max_step'] * r.uniform(.2, 4), 4))
        else:
            s['opts'].pop('first_step', None)
        yield s


@chk('C02')
def _(s):
    run = Run(s, steps=1500)
    m = s['opts']['max_step']
    out = []
    for i, r in enumerate(run.good):
        if abs(r.t - r.t_old) > m * (1 + 4 * EPS) + 2 * ulp(r.t, r.t_old):
            out.append(('too long', f'step {i} of {len(run.good)}: {abs(r.t - r.t_old)!r} > {m!r}'))
    if run.s is not None and 'first_step' not in s['opts'] and run.ctor['h'] is not None:
        L = abs(s['prob']['tb'] - s['prob']['t0'])
        h = abs(run.ctor['h'])
        if h > m * (1 + 4 * EPS) + 2 * ulp(s['prob']['t0'], s['prob']['tb']) and h > 200 * ulp(s['prob']['t0']):
            out.append(('first step', f'automatic first step {h!r} > {m!r}, L={L!r}'))
    return out


# ------------------------------------------------------------------------ C03
def err_norm(run, r):
    """(norm of the error of the accepted step, rounding level); None if not
    reconstructed"""
    c = run.scn['cls']
    s = run.s
    k = KIND[c]
    if k in ('rk', 'nys') and c != 'CKdisc':
        ref = RKRef(run)
        h = the_h(r)
        K, yn = ref.step(r.t_old, r.y_old, h)
        w = wts(s, r.y_old, yn)
        return rms(ref.err(K, h) / w), ref.noise(K, h, w, r.y_old)
    if c == 'CKdisc':
        ref = RKRef(run)
        C = ref.c
        best = None
        h0 = the_h(r)
        for j, (B, E, frac) in enumerate(
                [(C.B, C.E[:6], 1.), (C.B_fallback[0], C.E_fallback[0], C.C_fallback[0]),
                 (C.B_fallback[1], C.E_fallback[1], C.C_fallback[1])]):
            h = h0 / frac
            K = np.array(ref.stages(r.t_old, r.y_old, h))
            yn = r.y_old + h * (K.T @ B)
            w = wts(s, r.y_old, yn)
            d = rms((yn - r.y) / w)
            e = rms(h * (K.T @ E) / w)
            if best is None or d < best[0]:
                best = (d, e, ref.noise(K, h, w, r.y_old))
        return best[1], best[2] + best[0]
    if k == 'ssv':
        h = the_h(r)
        fn = run.base(r.t_old, r.y_old)
        f1 = run.base(r.t, r.y)
        w = wts(s, r.y_old, r.y)
        est = .8 * (r.y_old - r.y) + .4 * h * (fn + f1)
        nz = 30 * EPS * (np.max(np.abs(r.y)) + abs(h) * np.max(np.abs(f1))) / np.min(w)
        return rms(est / w), nz + 1e-6
    if k == 'esd':
        C = cls(c)
        h = the_h(r)
        K = r.K
        err = h * (K.T @ C.E)
        w = wts(s, r.y_old, r.y)
        if C.filter_error:
            J = s.J
            if not (s.linear and run.scn['opts'].get('M') is None):
                return None
            J = J.toarray() if hasattr(J, 'toarray') else np.asarray(J)
            err = np.linalg.solve(np.eye(len(r.y)) - h * C.d * J, err)
        return rms(err / w), 1e-8 + 30 * EPS * abs(h) * np.max(np.abs(K)) / np.min(w)
    if k == 'swag':
        return swag_err(run, r)
    return None


def adams_g(hs, k):
    """integrals that define a variable step Adams predictor: g[i] for i=0..k,
    from the step sizes hs (newest last, hs[-1] is the current one)"""
    # g_i = 1/h * int_0^h prod_{j<i} (t - t_{n-j})/(psi_{j+1}) dt, t_n = 0
    from numpy.polynomial import polynomial as P
    h = hs[-1]
    psi = [h]
    for j in range(1, k + 1):
        psi.append(psi[-1] + hs[-1 - j] if j < len(hs) else np.nan)
    g = []
    poly = np.array([1.])
    back = 0.
    for i in range(k + 1):
        q = P.polyint(poly)
        g.append(P.polyval(1., q))
        if i < k:
            # next factor (t + (psi_{i} - h)) / psi_{i}   in units of h
            off = (psi[i] - h) / h
            poly = P.polymul(poly, [off, 1.]) / (psi[i] / h)
    return np.array(g), psi


def swag_err(run, r):
    s = run.s
    k = r.kold
    if not k or r.i1 - r.i0 < 2:
        return None
    i = run.steps.index(r)
    hs = [the_h(q) for q in run.steps[:i + 1] if q.ok]
    if len(hs) < k:
        return None
    pt, p, fp = run.calls[r.i1 - 2]
    if min(abs(h) for h in hs[-k - 1:]) < 1e-200:
        return None
    g, psi = adams_g(hs, k)
    if g is None or not np.all(np.isfinite(g)) or g[k] == 0:
        return None
    w = wts(s, r.y_old, p, mean=True)
    h = abs(hs[-1])
    # y - p = h g_k (fp - phi0);  err = h (g_{k-1} - g_k) |fp - phi0|
    e = rms((r.y - p) / w) * abs(g[k - 1] - g[k]) / g[k]
    return e, 1e-6 + 1e3 * EPS * np.max(np.abs(r.y)) / np.min(w)


@scn('C03')
def _(tier, seed):
    r = gen.rng_for('C03', seed)
    for c in classes(r, tier, n=5):
        yield gen.scenario(c, r, 'rough' if r.random() < .5 else 'smooth')
    for c in classes(r, tier, n=2):
        s = gen.scenario(c, r)
        L = abs(s['prob']['tb'] - s['prob']['t0'])
        s['opts']['first_step'] = L                       # provoke rejections
        s['opts'].pop('max_step', None)
        s['opts'].update(rtol=1e-5, atol=1e-9)
        yield s
    for c in classes(r, tier, n=1):
        yield gen.failing(c, r)


@chk('C03')
def _(s):
    run = Run(s, steps=150)
    out = []
    for i, r in enumerate(run.good):
        if not np.all(np.isfinite(r.y)):
            out.append(('not finite', f'step {i}: {r.y}'))
            continue
        if KIND[s['cls']] == 'swag' and r.kold == 0:
            continue
        with np.errstate(all='ignore'):
            e = err_norm(run, r)
        if e is None:
            continue
        if not e[0] <= 1 + 1e-6 + e[1]:
            out.append(('error too large', f'step {i} t={r.t_old!r}: scaled error norm {e[0]}'))
    return out


def same_step(run, r):
    ref = RKRef(run)
    h = the_h(r)
    K, yn = ref.step(r.t_old, r.y_old, h)
    return close(yn, r.y, 1e-11, 1e-11 * (np.max(np.abs(r.y_old)) + abs(h) * np.max(np.abs(K))))


# ------------------------------------------------------------------------ C04
PRE = {'rk': {'G': (.7, -.4, 0, .9), 'S': (.6, -.2, 0, .9), 'standard': (1, 0, 0, .9)},
       'esd': {'G': (2., -1., -1., .8), 'S': (1.1, -.7, -1., .8), 'standard': (1, 0, 0, .8)}}
PRE['nys'] = PRE['rk']
DEF = dict(BS5='standard', CFMR7osc='G', CK5='G', Fi4N='G', Fi5N='G', Me4='G', MR6NN='G',
           Mu5Nmb='G', Pr7='S', Pr8='G', Pr9='standard', Ts5='G',
           **{c: 'G' for c in ESD})


def sc_of(s):
    c = s['cls']
    v = s.get('opts', {}).get('sc_params') or DEF[c]
    return tuple(v) if isinstance(v, (list, tuple)) else PRE[KIND[c]][v]


@scn('C04')
def _(tier, seed):
    r = gen.rng_for('C04', seed)
    pool = [c for c in ALL]
    for c in classes(r, tier, pool, n=4):
        s = gen.scenario(c, r, 'rough' if r.random() < .4 else 'smooth')
        if c in DEF:
            s['opts'].pop('sc_params', None)
            v = gen.pick(r, [None, 'G', 'S', 'standard', [.6, -.3, .1, .85], [.8, -.2, -.3, .7]])
            if v is not None:
                s['opts']['sc_params'] = v
            if KIND[c] == 'esd':
                s['opts']['rtol'] = 1e-3
        if r.random() < .4:
            L = abs(s['prob']['tb'] - s['prob']['t0'])
            s['opts']['first_step'] = L
            s['opts'].pop('max_step', None)
        yield s


def attempts(run, r):
    """step sizes of the attempts of one step of an explicit method, from the
    times at which the user's function was called"""
    c = run.scn['cls']
    C = cls(c)
    ref = RKRef(run)
    calls = run.step_calls(r)
    if len(calls) < 2:
        return None
    hs, i = [], 0
    full = ref.s - 1 + (1 if ref.fsal else 0)
    sizes = [full - 1 - (1 if ref.fsal else 0), full] if c in ('BS5', 'CFMR7osc') else [full]
    # an attempt starts with the call at t + C[1] h (stage 1)
    t, y = r.t_old, r.y_old
    k0 = ref.f(t, y)
    m = len(y) // 2

    def start(i):
        tc, yc, fc = calls[i]
        h = (tc - t) / C.C[1]
        if ref.nys:
            dt = C.C[1] * h
            ys = y + np.concatenate((C.A[1, 0] * k0 * h**2 + dt * y[m:], ref.Ap[1, 0] * k0 * h))
        else:
            ys = y + h * C.A[1, 0] * k0
        return h if h != 0 and close(ys, yc, 1e-12, 1e-14 + 1e-12 * np.max(np.abs(ys))) else None
    nrej = r.nfs - r.nfs0
    while i < len(calls) and len(hs) < nrej + (1 if r.ok else 0):
        h = start(i)
        if h is None:
            return None
        hs.append(h)
        nxt = [i + q for q in sizes if i + q < len(calls) and start(i + q) is not None]
        if not nxt:
            break
        i = nxt[-1] if len(hs) == 0 else nxt[0]
    return hs


@chk('C04')
def _(s):
    run = Run(s, steps=120)
    c = s['cls']
    k = KIND[c]
    out = []
    if run.s is None:
        return out
    good = run.good
    # --- retries are shorter
    if c in RK + NYS and c not in ('CKdisc',):
        mf = cls(c).min_factor
        for i, r in enumerate(run.steps):
            if r.nfs == r.nfs0:
                continue
            hs = attempts(run, r)
            if not hs or max(abs(h) for h in hs) < 1e3 * ulp(r.t_old):
                continue
            for a, b in zip(hs, hs[1:]):
                if not abs(b) < abs(a):
                    out.append(('retry not shorter', f'step {i}: {a} -> {b}'))
                elif abs(b) < abs(a) * mf * (1 - 1e-6):
                    out.append(('retry below min_factor', f'step {i}: {a} -> {b}'))
            if r.ok and abs(the_h(r)) > abs(hs[0]) * (1 + 1e-9):
                out.append(('accepted longer than the first attempt', f'step {i}'))
    for i, r in enumerate(good):
        h = abs(the_h(r))
        rej = r.nfs > r.nfs0
        if k in ('rk', 'nys', 'esd') and rej and c != 'CKdisc' and r.h_post > h * (1 + 1e-9) + 2 * ulp(r.t):
            out.append(('growth after rejection', f'step {i}: {h} -> {r.h_post}'))
        if c == 'CKdisc' and rej and r.h_post > h * (1 + 1e-9) + 2 * ulp(r.t):
            out.append(('growth after rejection', f'step {i}: {h} -> {r.h_post}'))
    if k == 'swag':
        for i, r in enumerate(run.steps):
            hs = [abs(tc - r.t_old) for (tc, yc, fc) in run.step_calls(r)][:-1 if r.ok else None]
            for a, b in zip(hs, hs[1:]):
                if b > .5 * a * (1 + 1e-9) + 2 * ulp(r.t_old):
                    out.append(('retry not halved', f'step {i}: {a} -> {b}'))
    # --- controller formula
    if c in DEF:
        k1, k2, a, g = sc_of(s)
        C = cls(c)
        expo = -1 / (min(C.order, C.order_secondary) + 1)
        prev, unsure = None, False
        jumps = s['prob']['name'] in ('kink', 'rough', 'noise', 'nysrough')
        for i, r in enumerate(good):
            with np.errstate(all='ignore'):
                e = err_norm(run, r)
            h = abs(the_h(r))
            if e is None or e[1] > 1e-5 * e[0] or h < 1e3 * ulp(r.t) or \
                    (k in ('rk', 'nys') and jumps and not same_step(run, r)):
                prev, unsure = None, True
                continue
            if e[0] < 1e-6:
                prev = (e[0], h)
                continue
            if prev is None and unsure and r.std is False:
                prev = (e[0], h)
                continue
            rej = r.nfs > r.nfs0
            newton = k == 'esd' and r.nfi > r.nfi0     # repeated for the Newton iteration
            std = g * e[0]**expo
            cands = [std, min(std, r.maxf)]
            if prev is not None:
                pe, ph = prev
                f = g**(k1 + k2) * e[0]**(k1 * expo) * pe**(k2 * expo) * (h / ph)**(-a)
                f = min(r.maxf, max(C.min_factor, f))
                # the method says itself which of the two is active; it must be
                # the second order one when the previous step was clean
                prop_h = abs(h / r.h_pre - 1) < 1e-9
                if prop_h and not rej and not newton and r.std is False:
                    cands = [f]
                elif newton:
                    cands = cands + [f, min(1., f)]
            if newton:
                cands = cands + [min(1., q) for q in cands]
            elif rej:
                cands = [min(1., q) for q in cands] + ([min(1., f)] if prev is not None else [])
            elif prev is not None:
                if r.std is False and not (prop_h):
                    cands = cands + [f]
            new = r.h_post / h
            if not any(abs(new - q) <= 1e-4 * q for q in cands):
                out.append(('controller formula', f'step {i}: factor {new}, expected one of {cands} '
                            f'(error {e[0]}, sc_params {(k1, k2, a, g)})'))
            # a second clean step in a row must use the second order controller
            if prev is not None and i >= 2 and k != 'esd' and prop_h and not rej and \
                    r.std is True and len(out) < 5 and good[i - 1].std is False:
                out.append(('second order controller not active', f'step {i}'))
            prev = (e[0], h)
    return out


# ------------------------------------------------------------------------ C05
@scn('C05')
def _(tier, seed):
    r = gen.rng_for('C05', seed)
    for c in classes(r, tier, RK + NYS, n=6):
        yield gen.scenario(c, r, 'rough' if r.random() < .3 else 'smooth', dense=bool(r.random() < .4))
    for c in classes(r, tier, ['SSV2stab'], n=6):
        yield gen.scenario(c, r, dense=True)


def ssv_formula(run, r):
    return None


@chk('C05')
def _(s):
    run = Run(s, steps=120)
    c = s['cls']
    out = []
    changed = c == 'Fi5N' and s['opts'].get('interpolant') == 1 and s.get('dense')
    for i, r in enumerate(run.good):
        h = the_h(r)
        if KIND[c] == 'ssv':
            if not close(r.f, run.base(r.t, r.y), 1e-9, 1e-9 * np.max(np.abs(r.f)) + 1e-12):
                # the derivative is evaluated at t + h
                f2 = run.base(r.t_old + h, r.y)
                if not close(r.f, f2, 1e-12, 1e-14):
                    out.append(('stale derivative', f'step {i}: {r.f} instead of {f2}'))
            continue
        if changed:
            continue
        ref = RKRef(run)
        K, yn = ref.step(r.t_old, r.y_old, h)
        scale = np.max(np.abs(r.y_old)) + abs(h) * np.max(np.abs(K)) * (1 if not ref.nys else max(1, abs(h)))
        tol = 1e-10 * scale + 1e-300
        if s['prob']['name'] in ('kink', 'rough', 'noise', 'nysrough'):
            # stages may fall on a jump
            if not close(r.y, yn, 0, tol) and c != 'CKdisc':
                used = np.array([q[2] for q in run.step_calls(r)])
                continue
        ok = close(r.y, yn, 0, tol)
        if not ok and c == 'CKdisc':
            for B, frac in zip(ref.c.B_fallback, ref.c.C_fallback):
                K2 = np.array(ref.stages(r.t_old, r.y_old, h / frac))
                ok = ok or close(r.y, r.y_old + h / frac * (K2.T @ B), 0, tol * 10)
        if not ok:
            out.append(('not the declared formula', f'step {i} (h={h}): {r.y} instead of {yn}'))
        if changed:
            continue
        fx = ref.f(r.t, r.y)
        if not close(r.f, fx, 1e-9, 1e-9 * (np.max(np.abs(fx)) + 1e-3)):
            f2 = ref.f(r.t_old + h, r.y)
            if not close(r.f, f2, 1e-9, 1e-9 * (np.max(np.abs(f2)) + 1e-3)):
                out.append(('stale derivative', f'step {i}: {r.f} instead of {fx}'))
    return out


# ------------------------------------------------------------------------ C07
@scn('C07')
def _(tier, seed):
    r = gen.rng_for('C07', seed)
    for c in ALL:
        for o in [{}] + VARIANTS.get(c, []):
            for _ in range(3 if tier == 'quick' else 12):
                s = gen.scenario(c, r, 'rough' if r.random() < .15 else 'smooth', dense=True, variant=False)
                s['opts'].update(o)
                yield s
    for c in classes(r, tier, ['CKdisc', 'SWAG', 'BS5', 'TRBDF2', 'KC4I', 'SSV2stab'], n=2):
        yield gen.scenario(c, r, 'rough', dense=True)


SMOOTH = {'Ts5': 1, 'BS5': 1, 'CK5': 1, 'CKdisc': 1, 'Pr7': 1, 'Pr8': 1, 'Pr9': 1, 'CFMR7osc': 1,
          'Me4': 1, 'SSV2stab': 1, 'TRBDF2': 1, 'TRX2': 1, 'SWAG': 0, 'KC3I': 0, 'KC4I': 0,
          'KC4Ia': 0, 'Kv3I': 0}


def slope(D, t, h, side):
    """one-sided derivative of a dense output (polynomial pieces of low degree)"""
    from numpy.polynomial import chebyshev as Ch
    lo, hi = (t, t + h) if side > 0 else (t - h, t)
    n = 13
    x = np.cos(np.pi * (np.arange(n) + .5) / n)
    tt = lo + (hi - lo) * (x + 1) / 2
    Y = D(tt)
    out = []
    for row in np.atleast_2d(Y):
        cfs = Ch.chebfit(x, row, n - 1)
        d = Ch.chebder(cfs)
        out.append(Ch.chebval(-1. if side > 0 else 1., d) * 2 / (hi - lo))
    return np.array(out)


@chk('C07')
def _(s):
    c = s['cls']
    out = []
    n = [0]

    def each(run, r):
        D = r.dense
        if D is None or len(out) > 3:
            return
        n[0] += 1
        y1 = np.array(run.s.y, copy=True)
        h = r.t - r.t_old
        if abs(h) < 1e4 * ulp(r.t, r.t_old):
            return
        fr = np.max(np.abs(run.base(r.t_old, r.y_old)))
        sc = np.max(np.abs(r.y_old)) + np.max(np.abs(y1)) + abs(h) * fr
        # rounding of t relative to the step
        tol = 1e-11 * sc + 20 * ulp(r.t, r.t_old) * (fr + sc / abs(h)) + 1e-300
        if KIND[c] == 'rk' or KIND[c] == 'nys':
            if isinstance(cls(c).P, np.ndarray):
                tol *= 1 + np.max(np.abs(cls(c).P))
        if KIND[c] == 'nys':
            tol += 100 * EPS * sc / abs(h)
        a, b = D(r.t_old), D(r.t)
        if KIND[c] == 'esd':
            # only the Newton tolerance separates the last stage from y
            pass
        if not close(a, r.y_old, 0, tol):
            out.append(('start value', f't={r.t_old}: {a} instead of {r.y_old}'))
        if not close(b, y1, 0, tol):
            out.append(('end value', f't={r.t}: {b} instead of {y1}'))
        tt = np.array([r.t_old, r.t_old + .3 * h, r.t_old + .77 * h, r.t])
        arr = D(tt)
        if arr.shape != (len(y1), 4):
            out.append(('array shape', f'{arr.shape}'))
        else:
            for j in range(4):
                v = D(tt[j])
                if v.shape != y1.shape or not close(v, arr[:, j], 1e-13, 1e-13 * sc):
                    out.append(('scalar and array differ', f'{v} {arr[:, j]}'))
        o = s['opts'].get('interpolant')
        iscplx = np.iscomplexobj(y1)
        if iscplx or abs(h) < 1e6 * ulp(r.t, r.t_old):
            return
        piece = h if c not in ('TRBDF2', 'TRX2') else h * float(cls(c).C[1])
        piece2 = h if c not in ('TRBDF2', 'TRX2') else h - piece
        stol = 2e-7 * (fr + sc / abs(h)) + 1e-12 + tol / abs(h) * 100
        if KIND[c] == 'nys':
            # velocity is the derivative of the displacement inside the step
            if o in (2, 1):
                return
            m = len(y1) // 2
            d0 = slope(lambda t: D(t)[:m], r.t_old, h, 1)
            d1 = slope(lambda t: D(t)[:m], r.t, h, -1)
            dm = slope(lambda t: D(t)[:m], r.t_old + .4 * h, .6 * h, 1)
            if not (close(d0, a[m:], 0, stol) and close(d1, b[m:], 0, stol) and
                    close(dm, D(r.t_old + .4 * h)[m:], 0, stol)):
                out.append(('velocity is not the slope', f'{d0} {a[m:]} {d1} {b[m:]}'))
            return
        if KIND[c] == 'esd' and c not in ('TRBDF2', 'TRX2') and o != 'C1':
            return
        if c == 'SWAG':
            return
        if s['prob']['name'] in ('kink', 'rough', 'noise'):
            return
        d0 = slope(D, r.t_old, piece, 1)
        d1 = slope(D, r.t, piece2, -1)
        if KIND[c] == 'esd':
            f0, f1 = r.K[0], r.K[-1]
        else:
            f0, f1 = run.base(r.t_old, r.y_old), run.base(r.t, y1)
        if SMOOTH[c] or o == 'C1':
            if not close(d0, f0, 0, stol):
                out.append(('start slope', f't={r.t_old} h={h}: {d0} instead of {f0}'))
            if not close(d1, f1, 0, stol):
                out.append(('end slope', f't={r.t} h={h}: {d1} instead of {f1}'))
    run = Run(s, steps=40, dense=True, each=each)
    if run.exc and s.get('benign'):
        out.append(('exception', run.exc))
    return out


# ------------------------------------------------------------------------ C08
@scn('C08')
def _(tier, seed):
    r = gen.rng_for('C08', seed)
    for c in ALL:
        for o in [{}] + VARIANTS.get(c, []):
            for _ in range(3 if tier == 'quick' else 10):
                s = gen.scenario(c, r, 'rough' if r.random() < .4 else 'smooth', variant=False)
                s['opts'].update(o)
                yield s
    for c in ESD:                               # the interpolant of the base class
        for _ in range(3 if tier == 'quick' else 10):
            s = gen.scenario(c, r, 'rough' if r.random() < .4 else 'smooth', variant=False)
            yield dict(s, base=True)


@chk('C08')
def _(s):
    if s['prob']['name'] == 'noise':
        return []
    c = s['cls']
    exc = c == 'Fi5N' and s['opts'].get('interpolant') == 1
    out = []
    kept = []

    def each(run, r):
        if r.dense is None:
            return
        tt = np.linspace(r.t_old, r.t, 5)
        D = r.dense
        first = D(tt)
        ref = run.s.y
        kept.append((D.t_old, D.t, D, tt, first.copy(), ref, np.array(ref, copy=True)))
        if len(kept) % 7 == 3 and not exc:
            D2 = run.s.dense_output()
            if not np.array_equal(D2(tt), first, equal_nan=True) or \
                    not np.array_equal(D(tt), first, equal_nan=True):
                out.append(('second request differs', f'step at {r.t_old}'))
    a = Run(s, steps=60, dense=True, each=each)
    b = Run(s, steps=60, dense=False)
    # let another solver work
    o = Run(dict(s, opts={k: v for k, v in s['opts'].items() if k in ('jac', 'interpolant', 'M')}),
            steps=15, dense=True)
    for i, (t0, t1, D, tt, first, ref, val) in enumerate(kept):
        now = D(tt)
        if not np.array_equal(now, first, equal_nan=True):
            out.append(('dense output changed', f'step {i} [{t0}, {t1}]: {first.tolist()} -> {now.tolist()}'))
        if not np.array_equal(ref, val, equal_nan=True):
            out.append(('state array changed', f'step {i}: {val} -> {ref}'))
        if D.t_old != t0 or D.t != t1:
            out.append(('dense output times changed', f'step {i}'))
    if not exc:
        if len(a.steps) != len(b.steps) or any(
                x.t != y.t or not np.array_equal(x.y, y.y, equal_nan=True) or x.status != y.status
                for x, y in zip(a.steps, b.steps)):
            j = next((j for j, (x, y) in enumerate(zip(a.steps, b.steps))
                      if x.t != y.t or not np.array_equal(x.y, y.y)), None)
            out.append(('dense output changes the run', f'step {j}'))
    return out


# ------------------------------------------------------------------------ C09
def attr_digest():
    out = {}
    for n in ALL + ['HS2I', 'HS2Ia']:
        C = cls(n)
        for k in C.__mro__:
            if not k.__module__.startswith('extensisq'):
                continue
            for a, v in vars(k).items():
                if isinstance(v, np.ndarray):
                    out[k.__name__, a] = v.tobytes()
                elif isinstance(v, (int, float, str, tuple, bool)):
                    out[k.__name__, a] = v
    return out


@scn('C09')
def _(tier, seed):
    r = gen.rng_for('C09', seed)
    for c in ALL:
        for o in [{}] + VARIANTS.get(c, []):
            for _ in range(2 if tier == 'quick' else 8):
                s = gen.scenario(c, r, 'rough' if r.random() < .3 else 'smooth', variant=False)
                s['opts'].update(o)
                s['other'] = gen.scenario(gen.pick(r, [c, c, gen.pick(r, ALL)]), r)
                s['inter'] = bool(r.random() < .5)
                yield s
            y0 = s['prob']['y0']
            yield dict(s, opts=dict(s['opts'], atol=[0.] + [1e-6] * (len(y0) - 1)))
    for c in ESD:
        for M in ([[2., .5], [.25, 1.]], [[2., 0.], [0., .5]]):
            for w in ('user', 'sparse'):
                for _ in range(2 if tier == 'quick' else 8):
                    s = gen.scenario(c, r, 'smooth', variant=False)
                    yield dict(cls=c, kind='matrices', M=M, w=w, a=gen.f(r.uniform(.5, 3), 4), other=s)


def trace(run):
    return [(r.t, r.y.tobytes(), r.status, r.nfev) for r in run.steps]


def matrices(s):
    """user matrices in every order and representation"""
    import scipy.sparse as sp
    out = []
    J = np.array([[-s['a'], 1.], [.5, -3.]])
    for order in 'CF':
        for form in ('array', 'csc', 'csr', 'diag'):
            M = np.array(s['M'], order=order)
            Jm = np.array(J, order=order)
            if form == 'csc':
                M = sp.csc_array(M)
            elif form == 'csr':
                M = sp.csr_array(M)
            elif form == 'diag':
                if M[0, 1]:
                    continue
                M = np.diag(M).copy()
            if s['w'] == 'sparse':
                Jm = sp.csc_array(Jm)
            y0, atol = np.array([.3, .7]), np.array([1e-6, 1e-7])
            keep = [x.toarray() if sp.issparse(x) else x.copy() for x in (M, Jm, y0, atol)]
            runs = []
            for jac in (Jm, Jm, lambda t, y: Jm):
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    S = cls(s['cls'])(lambda t, y: J @ y, 0., y0, 1., jac=jac, M=M, atol=atol, rtol=1e-4)
                    ys = []
                    for _ in range(6):
                        if S.status == 'running':
                            S.step()
                            ys.append((S.t, S.y.copy()))
                runs.append(ys)
                for n, k, x in zip(('M', 'jac', 'y0', 'atol'), keep, (M, Jm, y0, atol)):
                    if not np.array_equal(k, x.toarray() if sp.issparse(x) else x):
                        out.append((f'user array {n} changed', f'{form} {order}: {k} -> {x}'))
            if len(runs[0]) != len(runs[1]) or any(
                    a[0] != b[0] or not np.array_equal(a[1], b[1]) for a, b in zip(*runs[:2])):
                out.append(('second run differs', f'{form} {order}'))
    return out


@chk('C09')
def _(s):
    out = []
    if s.get('kind') == 'matrices':
        return matrices(s)
    before = attr_digest()
    args = {}
    p = s['prob']
    y0 = core.y0_of(p)
    a = Run(s, steps=40, dense=True)
    if a.s is None:
        return out
    if not np.array_equal(a.y0, y0):
        out.append(('initial state changed', f'{y0} -> {a.y0}'))
    for k, v in core.decode(s['opts'], p, a.jac).items():
        w = a.opts.get(k)
        if isinstance(v, np.ndarray) and not np.array_equal(v, w):
            out.append((f'user array {k} changed', f'{v} -> {w}'))
        if hasattr(v, 'toarray') and not np.array_equal(v.toarray(), w.toarray()):
            out.append((f'user array {k} changed', ''))
    mid = attr_digest()
    for k in before:
        if mid.get(k) != before[k]:
            out.append(('class changed', f'{k}'))
    # interleaved with another solver
    other = dict(s['other'])
    oth = Run(other, ctor_only=True)

    def each(run, r):
        if s['inter'] and oth.s is not None and oth.s.status == 'running':
            with warnings.catch_warnings(), np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                try:
                    oth.s.step()
                    if oth.s.status != 'failed' and oth.s.t_old is not None and oth.s.t != oth.s.t_old:
                        oth.s.dense_output()
                except Exception:
                    pass
    b = Run(s, steps=40, dense=True, each=each)
    ta, tb = trace(a), trace(b)
    if ta != tb:
        j = next((j for j in range(min(len(ta), len(tb))) if ta[j] != tb[j]), min(len(ta), len(tb)))
        out.append(('second run differs', f'at step {j} (other solver: {other["cls"]}, '
                    f'interleaved: {s["inter"]})'))
    return out


# ------------------------------------------------------------------------ C10
@scn('C10')
def _(tier, seed):
    r = gen.rng_for('C10', seed)
    for c in classes(r, tier, n=8):
        yield gen.failing(c, r)
    for c in classes(r, tier, n=1):
        yield gen.scenario(c, r, 'rough')


@chk('C10')
def _(s):
    run = Run(s, steps=2000, limit=300000, secs=15)
    out = []
    if run.hang:
        return [('step does not end', f'{len(run.calls)} evaluations, step {len(run.steps)}')]
    if run.exc and run.s is not None:
        out.append(('step raises an exception', f'{run.exc} after {len(run.steps)} steps'))
    for i, r in enumerate(run.steps):
        if r.ok:
            if not np.all(np.isfinite(r.y)) or not np.isfinite(r.t):
                out.append(('success with non-finite state', f'step {i}: t={r.t} y={r.y}'))
                break
            if r.msg is not None:
                out.append(('message on success', str(r.msg)))
        else:
            if not (isinstance(r.msg, str) and r.msg):
                out.append(('failure without message', repr(r.msg)))
            if r.t != r.t_old or not np.array_equal(r.y, r.y_old, equal_nan=True):
                out.append(('failure moved the state', f't {r.t_old} -> {r.t}, y {r.y_old} -> {r.y}'))
    return out


# ------------------------------------------------------------------------ C11
@scn('C11')
def _(tier, seed):
    r = gen.rng_for('C11', seed)
    for c in ALL:
        for o in [{}] + VARIANTS.get(c, []):
            for _ in range(3 if tier == 'quick' else 10):
                s = gen.scenario(c, r, 'rough' if r.random() < .4 else 'smooth', dense=True, variant=False)
                if s['prob']['name'] == 'noise':
                    continue
                s['opts'].update(o)
                if KIND[c] == 'esd':         # finite differences are one-sided
                    s['opts']['jac'] = 'fun'
                yield s


@chk('C11')
def _(s):
    p = s['prob']
    nys = KIND[s['cls']] == 'nys'
    m = len(p['y0']) // 2
    q = dict(p, t0=-p['t0'], tb=-p['tb'])
    fun, jac = core.make(p)

    def refl(t, y):
        if not nys:
            return -np.asarray(fun(-t, y))
        z = np.concatenate((y[:m], -y[m:]))
        r = np.asarray(fun(-t, z))
        return np.concatenate((y[m:], r[m:]))

    def mir(y):
        return np.concatenate((y[:m], -y[m:])) if nys else y
    s2 = dict(s, prob=dict(q))
    if nys:
        s2['prob']['y0'] = [float(v) for v in mir(np.array(p['y0']))]
    a = Run(s, steps=60)
    old = core.make
    try:
        core.make = lambda pp: (refl, None if jac is None else (lambda t, y: -np.asarray(jac(-t, y))))
        b = Run(s2, steps=60)
    finally:
        core.make = old
    if (a.exc is None) != (b.exc is None):
        return [('one direction raises', f'{a.exc} / {b.exc}')]
    if a.exc:
        return []
    out = []
    tolr = 1e-9 if s['cls'] != 'SSV2stab' else 1e-4       # (power iteration)
    ytol = 1e-10 if s['cls'] != 'SSV2stab' else 1e-7
    for i, (x, y) in enumerate(zip(a.steps, b.steps)):
        if x.ok != y.ok or x.nfs != y.nfs:
            out.append(('acceptance differs', f'step {i}'))
            break
        h = abs(x.t - x.t_old)
        if abs(x.t + y.t) > tolr * h + 4 * ulp(x.t):
            out.append(('step size differs', f'step {i}: {x.t} {y.t}'))
            break
        sc = np.max(np.abs(x.y)) + h * np.max(np.abs(x.f))
        if not close(x.y, mir(y.y), ytol, ytol * sc):
            out.append(('state differs', f'step {i}: {x.y} {mir(y.y)}'))
            break
        if x.dense is not None and y.dense is not None:
            tm = x.t_old + .37 * (x.t - x.t_old)
            if not close(x.dense(tm), mir(y.dense(-tm)), 100 * ytol, 100 * ytol * sc):
                out.append(('dense output differs', f'step {i}: {x.dense(tm)} {mir(y.dense(-tm))}'))
                break
        tolr = max(tolr, min(1e-5, tolr * 2))
    if not out and len(a.steps) != len(b.steps):
        out.append(('number of steps differs', f'{len(a.steps)} {len(b.steps)}'))
    return out


# ------------------------------------------------------------------------ C12
@scn('C12')
def _(tier, seed):
    r = gen.rng_for('C12', seed)
    for c in classes(r, tier, ESD, n=14):
        s = gen.scenario(c, r, 'rough' if r.random() < .15 else 'smooth')
        if r.random() < .3 and s['prob']['name'] != 'rober':
            n = len(s['prob']['y0'])
            s['opts']['M'] = (np.eye(n) + .3 * core._mat(int(r.integers(99)), n)).round(3).tolist()
        if r.random() < .15:
            s['prob'] = dict(name='rober', y0=[1., 0., 0.], t0=0., tb=40.)
            s['opts'] = dict(rtol=1e-4, atol=1e-8, jac='fun')
        if r.random() < .25:
            s['prob'] = dict(name='vdp', mu=gen.f(r.uniform(5, 500), 3), y0=[2., 0.], t0=0.,
                             tb=gen.f(r.uniform(10, 800), 3))
            s['opts'] = dict(rtol=1e-3, atol=1e-5, jac=gen.pick(r, ['fun', 'sparsefun']))
        yield s


@chk('C12')
def _(s):
    run = Run(s, steps=150)
    out = []
    C = cls(s['cls'])
    n = len(s['prob']['y0'])
    M = np.array(s['opts']['M']) if 'M' in s['opts'] else np.eye(n)
    lin = s['opts'].get('jac') in ('array', 'sparse')
    prev = None
    for i, r in enumerate(run.good):
        K, h = r.K, the_h(r)
        if prev is not None and not np.array_equal(K[0], prev):
            out.append(('first stage', f'step {i}: {K[0]} instead of {prev}'))
        prev = K[-1].copy()
        yn = r.y_old + h * (K.T @ C.B)
        sc = np.max(np.abs(r.y_old)) + abs(h) * np.max(np.abs(K))
        if not close(yn, r.y, 1e-9, 1e-9 * sc):
            out.append(('new state is not the formula', f'step {i}: {r.y} instead of {yn}'))
        if s['prob']['name'] in ('kink', 'rough', 'noise'):
            continue
        for j in range(1, C.n_stages):
            t = r.t_old + C.C[j] * h
            Y = r.y_old + h * (K[:j + 1].T @ C.A[j, :j + 1])
            res = h * (run.base(t, Y) - M @ K[j])
            J = r.J.toarray() if hasattr(r.J, 'toarray') else np.asarray(r.J)
            z = np.linalg.solve(M - (r.hLU or h) * C.d * J, res)
            w = wts(run.s, r.y_old, Y)
            v = rms(z / w)
            nz = 1e-7 if not lin else 0
            nz += 1e3 * EPS * np.max(np.abs(r.y_old)) * np.linalg.cond(M - h * C.d * J) / np.min(w)
            lim = (1e-7 + nz) if lin else (40 * C.kappa + nz)
            if not v <= lim:
                out.append(('stage equation', f'step {i} stage {j}: Newton residual {v} (limit {lim})'))
                break
    return out[:5]


# ------------------------------------------------------------------------ C13
@scn('C13')
def _(tier, seed):
    r = gen.rng_for('C13', seed)
    for c in classes(r, tier, ESD, n=4):
        for _ in range(2):
            s = gen.scenario(c, r)
            n = len(s['prob']['y0'])
            if n == 1 and r.random() < .7:
                continue
            s['kind'] = gen.pick(r, ['jac', 'M', 'diag', 'id', 'inv', 'shape', 'inv'])
            s['Mseed'] = int(r.integers(999))
            s['opts'].pop('jac', None)
            s['opts'].pop('first_step', None)
            yield s
        yield dict(cls=c, kind='dae', prob=dict(name='linear', seed=3, n=3, y0=[1., 0., 0.], t0=0., tb=1.),
                   opts={}, Mseed=1)


def _solve(s, opts, dense=False, fun=None, y0=None):
    p = s['prob']
    f, jac = core.make(p)
    f = fun or f
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        o = core.decode({k: v for k, v in s['opts'].items()}, p, jac)
        o.update(opts)
        S = cls(s['cls'])(f, p['t0'], core.y0_of(p) if y0 is None else y0, p['tb'], **o)
        T, Y = [S.t], [S.y.copy()]
        while S.status == 'running' and len(T) < 60:
            S.step()
            T.append(S.t)
            Y.append(S.y.copy())
        return S, np.array(T), np.array(Y)


def _growth(p, J0):
    """amplification of a perturbation over the interval"""
    if p['name'] in ('linear', 'decay', 'rot', 'forced', 'heat', 'logistic'):
        d = np.sign(p['tb'] - p['t0'])
        mu = np.max(np.linalg.eigvalsh(d * (J0 + J0.T) / 2))
        return float(np.exp(np.clip(2 * mu * abs(p['tb'] - p['t0']), 0., 12.)))
    return 1e3


@chk('C13')
def _(s):
    from scipy.sparse import csc_array, csr_array, diags_array, coo_array
    p = s['prob']
    f, jac = core.make(p)
    y0 = core.y0_of(p)
    n = len(y0)
    r = np.random.default_rng(s['Mseed'])
    out = []
    k = s['kind']
    lin = p['name'] in ('linear', 'decay', 'rot', 'forced', 'heat')
    J0 = np.asarray(jac(p['t0'], y0), float)
    if k == 'shape':
        for nm, o in (('jac', dict(jac=np.zeros((n, n + 1)))), ('jac', dict(jac=np.zeros((n + 1, n + 1)))),
                      ('jac', dict(jac=lambda t, y: np.zeros((n + 1, n)))),
                      ('jac', dict(jac=lambda t, y: csc_array(np.zeros((n + 1, n + 1))))),
                      ('jac', dict(jac=csc_array(np.zeros((n + 1, n + 1))))),
                      ('M', dict(M=np.ones(n + 1))), ('M', dict(M=np.eye(n + 1))),
                      ('M', dict(M=np.ones((n, n + 1)))), ('M', dict(M=csc_array(np.eye(n + 1)))),
                      ('M', dict(M=np.ones((n, n, n))))):
            try:
                cls(s['cls'])(f, p['t0'], y0, p['tb'], **o)
                out.append((f'wrong shape of {nm} accepted', str(o)))
            except (ValueError, AssertionError, TypeError):
                pass
        return out
    if k == 'dae':
        # singular M in every form is recognised
        d = np.array([1., 1., 0.])
        q = np.linalg.qr(core._mat(s['Mseed'], 3))[0]
        # index 1: the algebraic row can be solved for the last component
        A = core._mat(7, 3) + 3 * np.eye(3)
        for nm, Mx, AA in (('1d', d, A), ('dense', np.diag(d), A), ('sparse', csc_array(np.diag(d)), A),
                           ('full', q @ np.diag(d) @ q.T, q @ A @ q.T),
                           ('sparse full', csc_array(q @ np.diag(d) @ q.T), q @ A @ q.T)):
            for jf in (AA, csc_array(AA), lambda t, y: AA, lambda t, y: csc_array(AA), None):
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        S = cls(s['cls'])(lambda t, y: AA @ y, 0., np.array([1., .5, .2]), 1., M=Mx, jac=jf)
                    if not S.isDAE:
                        out.append(('singular M not recognised', nm))
                    elif np.max(np.abs((np.linalg.svd(np.atleast_2d(
                            Mx.toarray() if hasattr(Mx, 'toarray') else (np.diag(Mx) if np.ndim(Mx) == 1 else Mx)))[0].T
                            @ (AA @ S.y))[-1:])) > 1e-6:
                        out.append(('inconsistent initial state', nm))
                except Exception as e:
                    out.append(('DAE form rejected', f'{nm}: {type(e).__name__} {e}'))
        return out
    forms = []
    if k == 'jac':
        forms = [('callable dense', dict(jac=jac)), ('callable sparse', dict(jac=lambda t, y: csc_array(jac(t, y)))),
                 ('callable csr', dict(jac=lambda t, y: csr_array(jac(t, y))))]
        if lin:
            forms = forms + [('|', None), ('array', dict(jac=J0)), ('sparse', dict(jac=csc_array(J0))),
                             ('coo', dict(jac=coo_array(J0))), ('list', dict(jac=J0.tolist()))]
    else:
        Md = np.diag(r.uniform(.5, 2., n))
        M = Md if k == 'diag' else np.eye(n) if k == 'id' else np.eye(n) + .4 * r.uniform(-1, 1, (n, n)) / n
        j = dict(jac=jac) if not (lin and s['Mseed'] % 2) else dict(jac=J0)
        sj = dict(jac=(lambda t, y: csc_array(jac(t, y)))) if 'jac' in j and callable(j['jac']) else dict(jac=csc_array(J0))
        forms = [('dense', dict(M=M, **j)), ('sparse', dict(M=csc_array(M), **j)),
                 ('csr', dict(M=csr_array(M), **j)), ('sparse, sparse jac', dict(M=csc_array(M), **sj)),
                 ('dense, sparse jac', dict(M=M, **sj))]
        if k in ('diag', 'id'):
            forms += [('1d', dict(M=np.diag(M).copy(), **j)), ('1d list', dict(M=np.diag(M).tolist(), **j)),
                      ('1d, sparse jac', dict(M=np.diag(M).copy(), **sj))]
        if k == 'id':
            forms += [('none', dict(**j)), ('none, sparse', dict(**sj))]
    ref = None
    for nm, o in forms:
        if o is None:
            ref = None
            continue
        try:
            S, T, Y = _solve(s, o)
        except Exception as e:
            out.append(('form raises', f'{nm}: {type(e).__name__}: {e}'))
            continue
        w = float(np.min(S.atol)) + S.rtol * np.max(np.abs(Y))
        if ref is None:
            ref = (nm, S, T, Y)
        else:
            same = len(T) == len(ref[2]) and \
                np.max(np.abs(T - ref[2])) <= 1e-3 * np.max(np.abs(np.diff(T)), initial=0.)
            if S.status != ref[1].status:
                out.append(('form changes the run', f'{ref[0]} / {nm}: {S.status} / {ref[1].status}'))
            elif not same:
                # a Newton decision may flip on rounding (the corrections of a linear
                # problem are pure rounding from the second iteration): compare roughly
                if S.status == 'finished' and \
                        np.max(np.abs(Y[-1] - ref[3][-1])) > 300 * w * _growth(p, J0):
                    out.append(('form changes the run', f'{ref[0]} / {nm}: {len(ref[2])} / {len(T)} steps, '
                                f'{Y[-1] - ref[3][-1]} (tolerance {w})'))
            elif np.max(np.abs(Y - ref[3])) > 3 * w * _growth(p, J0):
                out.append(('form changes the solution', f'{ref[0]} / {nm}: {np.max(np.abs(Y - ref[3]))} (tolerance {w})'))
    if k == 'inv' and ref is not None and ref[1].status == 'finished':
        Mi = np.linalg.inv(M)
        S2, T2, Y2 = _solve(s, dict(rtol=1e-6, atol=1e-9, jac=lambda t, y: Mi @ jac(t, y)),
                            fun=lambda t, y: Mi @ f(t, y))
        S3, T3, Y3 = _solve(s, dict(rtol=1e-6, atol=1e-9, jac=jac, M=M))
        if S2.status == S3.status == 'finished':
            w = 1e-9 + 1e-6 * np.max(np.abs(Y2))
            g = max(1., np.exp(min(6., abs(p['tb'] - p['t0']) * np.linalg.norm(Mi @ J0, 2)))) if \
                p['name'] in ('linear', 'decay', 'logistic', 'rot') else 1e3
            if np.max(np.abs(Y2[-1] - Y3[-1])) > 500 * w * g:
                out.append(('mass matrix solution', f'{Y3[-1]} instead of {Y2[-1]}'))
    return out

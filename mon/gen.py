"""scenario generator (deterministic in the seed)"""
import numpy as np
from . import core
from .core import KIND, ALL, VARIANTS


def rng_for(prop, seed, salt=0):
    return np.random.default_rng([seed, salt] + [ord(c) for c in prop])


def pick(r, seq):
    return seq[int(r.integers(len(seq)))]


def f(x, d=6):
    return float(f'{x:.{d}g}')


def velocity_ok(c):
    return isinstance(core.cls(c).Ap, np.ndarray)


def problem(c, r, kind='smooth'):
    """a random problem for the class; smooth ones cannot make a solver fail"""
    k = KIND[c]
    L = f(r.uniform(0.3, 6.))
    t0 = pick(r, [0., 0., f(r.uniform(-10, 10)), f(r.uniform(-1000, 1000), 5)])
    sgn = pick(r, [1, -1])
    if k == 'nys':
        n = pick(r, [1, 1, 2, 3])
        y0 = [f(v, 4) for v in r.uniform(-1, 1, 2 * n)]
        names = ['osc', 'osc', 'fall', 'kepler']
        if velocity_ok(c):
            names += ['damped', 'damped']
        nm = pick(r, names)
        p = dict(name=nm, y0=y0)
        if nm == 'osc':
            p.update(w=[f(v, 4) for v in r.uniform(.5, 6, n)], f=f(r.uniform(0, 2), 3))
        elif nm == 'damped':
            p.update(w=f(r.uniform(.5, 4), 4), c=f(r.uniform(0, .5), 3), e=pick(r, [0, 1]))
            if p['e']:
                sgn = 1                    # (blows up backwards)
        elif nm == 'kepler':
            e = f(r.uniform(0, .7), 3)
            p.update(y0=[1 - e, 0., 0., float(np.sqrt((1 + e) / (1 - e)))])
        elif nm == 'fall':
            p.update(c=[f(v, 3) for v in r.uniform(-2, 2, 4)])
        if kind == 'rough':
            p = dict(name='nysrough', y0=y0, a=f(r.uniform(1, 30), 3), w=f(r.uniform(1, 9), 3))
    else:
        n = pick(r, [1, 1, 2, 3])
        y0 = [f(v, 4) for v in r.uniform(-1, 1, n)]
        names = ['decay', 'rot', 'forced', 'logistic', 'linear', 'vdp']
        if k == 'esd':
            names += ['vdpstiff', 'forcedstiff', 'linear']
        elif k == 'ssv':
            names = ['decay', 'forced', 'heat', 'heat', 'logistic', 'lin-', 'forced50']
        else:
            names += ['complex']
        nm = pick(r, names)
        p = dict(name=nm, y0=y0)
        if nm == 'decay':
            p.update(lam=[f(v, 4) for v in r.uniform(.1, 4, n)])
        elif nm == 'rot':
            p.update(w=f(r.uniform(.5, 5), 4), y0=[f(v, 4) for v in r.uniform(-1, 1, 2)])
        elif nm == 'forced':
            p.update(a=f(r.uniform(.3, 3), 4))
        elif nm == 'forced50':
            p.update(name='forced', a=f(r.uniform(20, 300), 4))
            sgn = 1
        elif nm == 'forcedstiff':
            p.update(name='forced', a=f(r.uniform(1e2, 1e5), 4))
            sgn = 1
        elif nm == 'logistic':
            p.update(y0=[f(abs(v) * .6 + .1, 4) for v in y0])
        elif nm == 'linear':
            n = pick(r, [2, 3, 4])
            p.update(seed=int(r.integers(1000)), n=n, y0=[f(v, 4) for v in r.uniform(-1, 1, n)])
        elif nm == 'lin-':
            n = pick(r, [2, 3, 4])
            p.update(name='linear', seed=int(r.integers(1000)), n=n, sym=True, shift=4., scale=3.,
                     y0=[f(v, 4) for v in r.uniform(-1, 1, n)])
            sgn = 1
        elif nm == 'vdp':
            p.update(mu=f(r.uniform(.5, 4), 3), y0=[f(v, 4) for v in (r.uniform(1, 2), r.uniform(-.2, .2))])
            if sgn < 0:
                L = min(L, .4)
        elif nm == 'vdpstiff':
            p.update(name='vdp', mu=f(r.uniform(20, 300), 3), y0=[2., 0.])
            sgn = 1
        elif nm == 'heat':
            n = pick(r, [5, 12, 25])
            p.update(n=n, a=f(r.uniform(1, 400), 3), y0=[f(v, 4) for v in np.sin(np.arange(1, n + 1))])
            sgn = 1
        elif nm == 'complex':
            p.update(w=f(r.uniform(.5, 4), 4), r=f(r.uniform(-1, .2), 3),
                     y0im=[f(v, 4) for v in r.uniform(-1, 1, n)])
        if kind == 'rough':
            nm = pick(r, ['kink', 'rough', 'rough'] + (['noise'] if k != 'esd' else []))
            p = dict(name=nm, y0=y0, a=f(r.uniform(1, 40), 3))
            if nm == 'kink':
                p.update(ts=f(t0 + sgn * r.uniform(.1, .9) * L, 5))
            elif nm == 'rough':
                p.update(w=f(r.uniform(1, 9), 3))
            else:
                p.update(a=f(r.uniform(1e-3, 1), 3))
    p.update(t0=float(t0), tb=float(t0 + sgn * L))
    return p


def options(c, r, p, variant=True, tol=True):
    o = {}
    L = abs(p['tb'] - p['t0'])
    if tol:
        o['rtol'] = pick(r, [1e-3, 1e-3, 1e-2, 1e-5, 1e-7] if KIND[c] not in ('esd', 'ssv')
                         else [1e-3, 1e-2, 1e-4, 1e-5])
        o['atol'] = pick(r, [1e-6, 1e-4, 1e-8, 1e-3]) if KIND[c] != 'esd' else pick(r, [1e-6, 1e-4, 1e-3])
        if r.random() < .25:
            o['atol'] = [f(o['atol'] * 10**r.uniform(-1, 1), 3) for _ in p['y0']]
    if variant and c in VARIANTS and r.random() < .6:
        o.update(pick(r, VARIANTS[c]))
    if r.random() < .3:
        o['max_step'] = f(L * 10**r.uniform(-1.5, .3), 4)
    if r.random() < .3:
        o['first_step'] = f(L * 10**r.uniform(-3, 0), 4)
        if o['first_step'] > L:
            o['first_step'] = L
    if KIND[c] == 'esd':
        j = pick(r, [None, 'fun', 'fun', 'sparsefun'])
        if p['name'] in ('linear', 'decay', 'rot', 'heat', 'forced') and r.random() < .4:
            j = pick(r, ['array', 'sparse'])
        if j:
            o['jac'] = j
        if j in (None, 'fun', 'sparsefun') and r.random() < .2:
            o['jac_each_step'] = True
    if KIND[c] in ('rk', 'nys', 'esd') and c not in ('CKdisc',) and r.random() < .4:
        o['sc_params'] = pick(r, ['standard', 'G', 'S', [.6, -.3, .1, .85]])
    if KIND[c] == 'ssv' and p['name'] == 'heat' and r.random() < .4:
        o['rho_jac'] = f(4. * p['a'], 6)
    return o


def scenario(c, r, kind='smooth', dense=False, **kw):
    p = problem(c, r, kind)
    s = dict(cls=c, prob=p, opts=options(c, r, p, **kw))
    if kind == 'smooth':
        s['benign'] = True
    if dense:
        s['dense'] = True
    return s


def failing(c, r):
    """problems whose right-hand side is not finite somewhere"""
    sgn = pick(r, [1, -1])
    L = f(r.uniform(.5, 4))
    ts = f(r.uniform(0, .8) * L, 4) * sgn
    if KIND[c] == 'nys':
        p = dict(y0=[.5, .3])
        p.update(pick(r, [dict(name='nysnan', ts=ts, s=sgn), dict(name='nysinf', ts=ts, s=sgn),
                          dict(name='nysblow', y0=[3., 3. * sgn])]))
    else:
        p = dict(y0=[.5, 1.])
        p.update(pick(r, [dict(name='nanafter', ts=ts, s=sgn), dict(name='infafter', ts=ts, s=sgn),
                          dict(name='bigafter', ts=ts, s=sgn), dict(name='blow', y0=[1., 2. * sgn]),
                          dict(name='nanabove', lim=1.2), dict(name='huge', v=1e308, y0=[1e307]),
                          dict(name='growth', a=700. * sgn)]))
        if p['name'] == 'growth':
            L = 4.
        if p['name'] == 'nanabove':
            sgn = 1
    p.update(t0=0., tb=float(sgn * L))
    o = options(c, r, p, tol=False)
    if 'jac' in o:
        o['jac'] = 'fun'
    if KIND[c] == 'ssv' and r.random() < .5:
        o['rho_jac'] = f(10**r.uniform(-.5, 2), 3)
    return dict(cls=c, prob=p, opts=o)


def far(c, r):
    """a start far from the origin: steps near the resolution of time"""
    s = scenario(c, r, variant=False)
    p, o = s['prob'], s['opts']
    sgn = 1. if p['tb'] > p['t0'] else -1.
    p['t0'] = f(10**r.uniform(3, 13), 5) * pick(r, [1, -1])
    p['tb'] = p['t0'] + sgn * f(10**r.uniform(-1, 1), 3)
    o.pop('max_step', None)
    o['first_step'] = min(abs(p['t0']) * core.EPS * f(10**r.uniform(-1.5, 2.5), 3), abs(p['tb'] - p['t0']))
    if 'ts' in p:
        p['ts'] = p['t0'] + sgn * .5
    s['benign'] = False
    return s

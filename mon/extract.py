"""Reads the coefficients that the running code effectively uses: the step
formulas are linear in the derivative values, so a right-hand side that returns
the i-th unit vector at its i-th call shows every weight in the result."""
import warnings
import numpy as np
from . import core
from .core import KIND, cls


class Tab:
    pass


def extract(c, opts=None, h=1., direction=1, thetas=None, t0=0., dense=True):
    opts = dict(opts or {})
    kind = KIND[c]
    nys = kind == 'nys'
    m = 30
    calls = []
    state = dict(live=False, n=0)

    def unit(i):
        v = np.zeros(m)
        v[i] = 1.
        return v

    def fun(t, y):
        y = np.asarray(y, float)
        if not state['live']:
            a = unit(0)
        else:
            state['n'] += 1
            a = unit(state['n'])
            calls.append((t, y.copy()))
        return np.concatenate((y[m:], a)) if nys else a
    y0 = np.zeros(m)
    v0 = unit(m - 1)
    if nys:
        y0 = np.concatenate((y0, v0))
    d = direction
    kw = dict(first_step=h, atol=1e8, rtol=1e-3)
    if kind == 'esd':
        kw['jac'] = np.zeros((m, m))
    if kind in ('rk', 'nys') and c != 'CKdisc':
        kw['nfev_stiff_detect'] = 0
    kw.update(opts)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        S = cls(c)(fun, t0, y0, t0 + d * 3 * h, **kw)
        state['live'] = True
        msg = S.step()
    T = Tab()
    T.c, T.opts, T.h, T.d = c, opts, h, d
    T.msg = msg
    if S.status == 'failed' or abs(abs(S.t - S.t_old) - h) > 1e-14 * h:
        raise RuntimeError(f'probe step failed {msg} {S.t}')
    hh = d * h
    T.ncalls = len(calls)
    s = cls(c).n_stages
    T.s = s
    T.m = m

    def scaled(dy):
        """weights of the unit vectors"""
        if not nys:
            return dy / hh
        return dy[:m] / hh**2, dy[m:] / hh
    T.t = [t0] + [t for t, _ in calls]
    T.cs = np.array([(t - t0) / hh for t in T.t])
    T.rows = [scaled(y - y0) for _, y in calls]          # arguments of the calls
    T.y = scaled(S.y - y0)
    T.S = S
    T.dense = None
    if dense:
        th = np.asarray(thetas if thetas is not None else [0., .07, .2, .35, .5, .62, .8, .93, 1.])
        D = S.dense_output()
        T.cs2 = np.array([0.] + [(t - t0) / hh for t, _ in calls])
        T.rows2 = [scaled(y - y0) for _, y in calls]
        T.theta = th
        T.dense = [scaled(D(t0 + x * hh) - y0) for x in th]
        vec = D(t0 + th * hh)
        T.vec_err = np.max(np.abs(vec.T - np.array([D(t0 + x * hh) for x in th])))
        T.y_after = scaled(S.y - y0)
    return T


def tableau(T):
    """A (with rows for the derivative at the end and extra stages), c, b"""
    nys = KIND[T.c] == 'nys'
    n = len(T.rows2 if T.dense is not None else T.rows) + 1
    rows = T.rows2 if T.dense is not None else T.rows
    c = T.cs2 if T.dense is not None else T.cs
    if not nys:
        A = np.zeros((n, n))
        for i, r in enumerate(rows):
            A[i + 1] = r[:n]
        return A, None, c[:n], T.y[:n], None
    A, Ap = np.zeros((n, n)), np.zeros((n, n))
    for i, (x, v) in enumerate(rows):
        A[i + 1], Ap[i + 1] = x[:n], v[:n]
    return A, Ap, c[:n], T.y[0][:n], T.y[1][:n]

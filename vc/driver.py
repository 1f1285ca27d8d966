"""Runs the real solver classes symbolically: construction, then an arbitrary
number of steps (the loop over steps is cut by the same loop rule as the loops
in the code)."""
import sys
import inspect
import numpy as np
from . import sym as sy
from . import engine as en
from . import shims as sh
from .sym import S, PathEnd, Unsupported
from .loader import Package

PKG = [None]


def package():
    if PKG[0] is None:
        PKG[0] = Package()
    return PKG[0]


class Problem:
    """the user's problem: an uninterpreted function of (t, y)"""

    def __init__(self, n, nystrom=False, velocity=True, record=True, tag='F'):
        self.n, self.nystrom, self.velocity, self.tag = n, nystrom, velocity, tag
        self.calls = []
        self.log = record
        self.solvers = ('s',)

    def spec(self, t, y):
        y = list(np.asarray(y, object).ravel())
        if not self.nystrom:
            return vec([sy.app(f'{self.tag}{i}', [t] + y) for i in range(self.n)])
        m = self.n // 2
        arg = y if self.velocity else y[:m]
        return vec(y[m:] + [sy.app(f'{self.tag}{i}', [t] + arg) for i in range(m)])

    def accel(self, t, y):
        return self.spec(t, y)[self.n // 2:]

    def __call__(self, t, y):
        r = self.spec(t, y)
        if self.log:
            self.calls.append((t, list(y)))
        return r


def vec(items):
    a = np.empty(len(items), object)
    for i, v in enumerate(items):
        a[i] = v
    return a


def h_start_contract(df, a, b, y, yprime, morder=None, rtol=None, atol=None,
                     J=None, T=None, returnT=False, **k):
    """contract of h_start (verified for C16): finite, nonzero, sign of b - a"""
    c = sy.ctx()
    if returnT:
        return sy.vec_fresh('dfdt', np.shape(y))
    h = sy.fresh('h_start', fp=True)
    c.assume(sy.cmp0(h, '!='))
    d = sy.lift(b) - a
    c.assume(sy.implies(sy.cmp0(d, '>'), sy.cmp0(h, '>')))
    c.assume(sy.implies(sy.cmp0(d, '<'), sy.cmp0(h, '<')))
    return h


def reset_cells(pkg):
    for k, a in pkg.cells.items():
        a[()] = 0


def is_nystrom(pkg, cls):
    b = getattr(pkg.common, 'RungeKuttaNystrom', None)
    return b is not None and issubclass(cls, b)


class Setup:
    """options of a lifecycle run"""
    def __init__(self, cls, n=1, direction=1, max_step='sym', opts=None,
                 stub_stiff=True, first_step=None, tol='sym', stubs=None):
        self.cls, self.n, self.direction = cls, n, direction
        self.max_step, self.opts = max_step, opts or {}
        self.stub_stiff, self.first_step, self.tol = stub_stiff, first_step, tol
        self.stubs = stubs or {}


def build(c, su, problem=None):
    pkg = package()
    reset_cells(pkg)
    cls = getattr(pkg.mods['extensisq'], su.cls) if isinstance(su.cls, str) else su.cls
    nys = is_nystrom(pkg, cls)
    n = su.n * 2 if nys else su.n
    if problem is None:
        problem = Problem(n, nys, getattr(cls, 'Ap', None) is not NotImplemented)
    t0, tb = sy.sym('t0', fp=True), sy.sym('t_bound', fp=True)
    d = tb - t0 if not c.rounding else S(sy._padd(tb.p, t0.p, -1))
    c.assume(sy.cmp0(d, '>' if su.direction > 0 else '<'))
    kw = dict(su.opts)
    if su.max_step == 'sym':
        kw['max_step'] = sy.sym('max_step', fp=True)
        c.assume(sy.cmp0(kw['max_step'], '>'))
    elif su.max_step is not None:
        kw['max_step'] = su.max_step
    if su.tol == 'vec':
        kw['rtol'] = sy.sym('rtol', fp=True)
        kw['atol'] = sy.vec_sym('a_', n)
        c.assume(sy.cmp0(kw['rtol'] - 1e-13, '>='))
        c.assume(sy.cmp0(kw['rtol'] - .1, '<='))
        for x in kw['atol']:
            c.assume(sy.cmp0(x - 1e-150, '>='))
    if su.tol == 'sym':
        kw['rtol'] = sy.sym('rtol', fp=True)
        kw['atol'] = sy.sym('atol', fp=True)
        c.assume(sy.cmp0(kw['rtol'] - 1e-13, '>='))
        c.assume(sy.cmp0(kw['rtol'] - .1, '<='))
        c.assume(sy.cmp0(kw['atol'] - 1e-150, '>='))
    if su.first_step == 'sym':
        kw['first_step'] = sy.sym('first_step', fp=True)
        c.assume(sy.cmp0(kw['first_step'], '>'))
        c.assume(sy.cmp0(abs(d) - kw['first_step'], '>='))
    y0 = sy.vec_sym('y0', n)
    c.user = dict({k: v for k, v in kw.items() if isinstance(v, np.ndarray) and v.ndim}, y0=y0)
    s = cls(problem, t0, y0, tb, **kw)
    return s, problem, kw


class patched:
    """replace callees by their contracts (by name, where present)"""

    def __init__(self, stubs, stiff=True):
        self.stubs, self.stiff = stubs, stiff
        self.undo = []

    def __enter__(self):
        pkg = package()
        for m in pkg.mods.values():
            for k, v in self.stubs.items():
                if k in vars(m) and callable(vars(m)[k]):
                    self.undo.append((m, k, vars(m)[k]))
                    setattr(m, k, v)
        if self.stiff:
            for cls in pkg.classes().values():
                if '_diagnose_stiffness' in vars(cls):
                    self.undo.append((cls, '_diagnose_stiffness',
                                      vars(cls)['_diagnose_stiffness']))
                    cls._diagnose_stiffness = lambda self: None

    def __exit__(self, *a):
        for o, k, v in reversed(self.undo):
            setattr(o, k, v)


def lifecycle(ex, su, observer, problem_factory=None):
    stubs = {'h_start': h_start_contract}
    stubs.update(su.stubs)

    def fn(c):
        prob = problem_factory() if problem_factory else None
        s, prob, kw = build(c, su, prob)
        c.prob = prob
        c.tracked['s'] = s
        for k, a in package().cells.items():
            c.tracked[k] = a
        if observer.ghost is not None:
            c.tracked['ghost'] = dict(observer.ghost)
        observer.start(c, s, prob, kw)
        L = c.enter('lifecycle', [], sys._getframe())
        while True:
            if s.status != 'running':
                L.exit()
                break
            L.head({})
            prob.calls = []
            pre = observer.before(c, s, prob)
            try:
                msg = s.step()
            except sh.NotANumber as e:
                if 'C10' in getattr(observer, 'props', ()):
                    c.fail('C10 a step does not raise', f'{type(e).__name__}: {e}')
                raise PathEnd('raises')
            observer.after(c, s, prob, pre, msg)
            observer.ghosts(c, s, prob, pre, msg)
        observer.end(c, s, prob)

    ex.on_backedge = observer.backedge
    with patched(stubs, su.stub_stiff):
        ex.explore(fn)
    return ex


class Observer:
    ghost = None

    def ghosts(self, c, s, prob, pre, msg):
        pass

    def start(self, c, s, prob, kw):
        self.kw = kw

    def before(self, c, s, prob):
        return dict(t=s.t, y=s.y, ycopy=s.y.copy(), status=s.status,
                    cells={k: a[()] for k, a in package().cells.items()})

    def after(self, c, s, prob, pre, msg):
        pass

    def end(self, c, s, prob):
        pass

    def backedge(self, c, loop, base, snap):
        pass


# candidate invariants ------------------------------------------------------
def cand_tbound(c, loc, snap, entry):
    if loc[0] != 'attr' or loc[2] != 't':
        return {}
    tb = ('attr', loc[1], 't_bound')
    if tb not in snap:
        return {}
    return {'<tb': lambda v, s, e: sy.cmp0(v - s[tb], '<'),
            '>tb': lambda v, s, e: sy.cmp0(v - s[tb], '>')}


def cand_bools(c0, loc, snap, entry):
    out = {}
    for o, v in snap.items():
        if o[0] == 'attr' and isinstance(v, (bool, sy.B)) and loc[0] == 'attr':
            for val in (True, False):
                def f(x, s, e, o=o, val=val):
                    b = en.decided(sy.ctx(), s.get(o))
                    if isinstance(b, sy.B):
                        return sy.implies(b if val else sy.neg(b), sy.cmp0(x, '>'))
                    if not isinstance(b, bool):
                        return None
                    return sy.TRUE if b != val else sy.cmp0(x, '>')
                out[f'{o[2]}=={val} -> >0'] = f
    return out


def cand_flag_entry(c0, loc, snap, entry):
    """unchanged unless a flag is set (or cleared)"""
    out = {}
    if loc[0] != 'local':
        return out
    for o, v in snap.items():
        if o[0] == 'local' and isinstance(v, (bool, sy.B)):
            for val in (True, False):
                def f(x, s, e, o=o, val=val):
                    w = e.get(loc)
                    if not isinstance(w, (S, int, float)) or isinstance(w, bool) or sy.is_special(w):
                        return None
                    b = en.decided(sy.ctx(), s.get(o))
                    if isinstance(b, sy.B):
                        return sy.implies(b if val else sy.neg(b), sy.cmp0(x - w, '=='))
                    if not isinstance(b, bool):
                        return None
                    return sy.TRUE if b != val else sy.cmp0(x - w, '==')
                out[f'{o[1]}=={val} -> as at entry'] = f
    return out


en.REAL_CANDIDATES += [cand_tbound, cand_bools, cand_flag_entry]


# definitional invariants ---------------------------------------------------
def def_rhs(c, loc, get):
    """the value of the user's function at the current time and state"""
    prob = getattr(c, 'prob', None)
    if prob is None or loc[0] != 'attr' or loc[1] not in prob.solvers:
        return None
    t, y = get.get(('attr', loc[1], 't')), get.get(('attr', loc[1], 'y'))
    if t is None or y is None or loc[2] in ('t', 'y'):
        return None
    return prob.spec(t, y) if not prob.nystrom else prob.accel(t, y)


def def_ghost(name):
    def f(c, loc, get):
        if loc[0] == 'local' or loc[1] == 'ghost':
            return None
        if name[0] == 'n' and loc[2:] != (name,):
            return None                     # counters
        v = get.get(('attr', 'ghost', name))
        if name[0] == 'n' and isinstance(v, (int, float)):
            v = sy.lift(v)
        return v if isinstance(v, S) else None
    return f


en.DEFINITIONS += [('rhs', def_rhs)] + [
    ('ghost ' + k, def_ghost(k)) for k in ('e', 'h', 'nfev', 'njev', 'nlu')]

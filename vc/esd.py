"""Contracts of the implicit (ESDIRK) methods.

The stage solver is verified on its own (task esd_stage); the step function,
the step-size control, the Jacobian and factorisation logic and the dense
output are executed with the stage solver replaced by its contract."""
from fractions import Fraction
import numpy as np
import scipy.sparse as sp
from . import sym as sy
from . import engine as en
from . import driver as dr
from . import shims as sh
from . import rk
from .sym import S

CLASSES = ['TRBDF2', 'TRX2', 'KC3I', 'KC4I', 'KC4Ia', 'Kv3I']
STAGE = '_solve_implicit_stage'


# ------------------------------------------------------------ linear algebra
class LU:
    """contract of lu_factor / splu: the factorisation of a matrix"""
    __vc_value__ = True

    def __init__(self, A):
        self.A = Sp(A).A if isinstance(A, Sp) or sp.issparse(A) else np.array(A, object)
        if self.A.shape[0] != self.A.shape[1]:
            raise ValueError('square matrices only')

    def solve(self, b):
        return solve(self.A, b)

    @classmethod
    def vc_fresh(cls, c, loc):
        n = c.tracked['s'].n
        return cls(sy.value('LU', (n, n)))

    @classmethod
    def vc_defined(cls, c, loc, get):
        s = c.tracked['s']
        h, J = get.get(('attr', 's', 'h_LU')), get.get(('attr', 's', 'J'))
        if h is None or not isinstance(J, (np.ndarray, Sp)):
            return None
        M = get.get(('attr', 's', 'M_mat'))
        if not isinstance(M, np.ndarray):
            M = s.M_mat
        return cls(mat(M) - h * s.d * mat(J))

    def vc_same(self, c, other):
        return self.A.shape == other.A.shape and all(
            c.is_equal(x, y)[0] == 'proved' for x, y in zip(self.A.ravel(), other.A.ravel()))


def solve(A, b):
    """A x = b, by Cramer's rule (n <= 2)"""
    A, b = np.asarray(A, object), np.asarray(b, object)
    n = A.shape[0]
    x = np.empty(b.shape, object)
    if n == 1:
        x[...] = b / A[0, 0]
    elif n == 2:
        det = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
        x[0] = (b[0] * A[1, 1] - A[0, 1] * b[1]) / det
        x[1] = (A[0, 0] * b[1] - b[0] * A[1, 0]) / det
    else:
        raise sy.Unsupported('linear system of more than two equations')
    return x


def spoil(a, name):
    """an array that the callee may overwrite"""
    if isinstance(a, np.ndarray) and a.flags.writeable:
        a[...] = sy.value(name, a.shape) if a.dtype == object else np.nan


def count(name, n=1):
    """work really done (ghost state)"""
    g = sy.ctx().tracked.get('ghost')
    if g is not None and name in g:
        g[name] = g[name] + n


def lu_factor(A, overwrite_a=False, **k):
    r = LU(A)
    count('nlu')
    if overwrite_a:
        spoil(A, 'overwritten')
    return r


def lu_solve(f, b, overwrite_b=False, **k):
    x = f.solve(b)
    if overwrite_b:
        spoil(b, 'overwritten')
    return x


def mat(x):
    """the matrix that an array, dense or sparse, represents"""
    if isinstance(x, Sp):
        return x.A
    return x.toarray() if sp.issparse(x) else np.asarray(x)


class Sp(sh.SparseStub):
    """contract of the sparse arrays of scipy: the matrix that they represent.
    Operations with sparse arrays are sparse, with dense arrays dense."""
    __vc_value__ = True
    __array_ufunc__ = None
    ndim = 2

    def __init__(self, A, fmt='csc'):
        if sp.issparse(A):
            A = A.toarray()
        elif isinstance(A, Sp):
            A = A.A
        self.A = np.array(A, object)
        if self.A.ndim != 2:
            raise ValueError('two dimensional sparse arrays only')
        self.format = fmt

    shape = property(lambda self: self.A.shape)
    T = property(lambda self: Sp(self.A.T))
    dtype = property(lambda self: self.A.dtype)

    def toarray(self):
        return self.A.copy()
    todense = toarray

    def copy(self):
        return Sp(self.A, self.format)

    def tocsc(self, *a, **k):
        return Sp(self.A)
    tocsr = tocsc

    def astype(self, *a, **k):
        return self.copy()

    def diagonal(self):
        return np.array([self.A[i, i] for i in range(len(self.A))], object)

    def _bin(self, o, f):
        if isinstance(o, Sp) or sp.issparse(o):
            return Sp(f(self.A, Sp(o).A))
        if isinstance(o, np.ndarray):
            return f(self.A, o.astype(object))
        raise sy.Unsupported('sparse array and scalar')

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __matmul__(self, o):
        return self._bin(o, lambda a, b: a @ b)

    def __rmatmul__(self, o):
        return self._bin(o, lambda a, b: b @ a)

    def dot(self, o):
        return self @ o

    def __mul__(self, o):
        if isinstance(o, (np.ndarray, Sp)) and np.ndim(o):
            raise sy.Unsupported('elementwise product with a sparse array')
        return Sp(self.A * o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return Sp(self.A / o)

    def __neg__(self):
        return Sp(-self.A)

    def __getitem__(self, k):
        r = self.A[k]
        return Sp(r) if isinstance(r, np.ndarray) and r.ndim == 2 else r

    @classmethod
    def vc_fresh(cls, c, loc):
        n = c.tracked['s'].n
        return cls(sy.value('Sp', (n, n)))

    @classmethod
    def vc_defined(cls, c, loc, get):
        return None

    def vc_same(self, c, other):
        return isinstance(other, Sp) and self.shape == other.shape and all(
            c.is_equal(x, y)[0] == 'proved' for x, y in zip(self.A.ravel(), other.A.ravel()))


def csc_array(a, *x, **k):
    return Sp(a)


def eye(n):
    r = np.empty((n, n), object)
    for i in range(n):
        for j in range(n):
            r[i, j] = sy.lift(1 if i == j else 0)
    return r


def eye_array(n, *a, **k):
    return Sp(eye(n), 'dia')


def diags_array(d, **k):
    d = np.asarray(d, object)
    r = eye(len(d))
    for i, v in enumerate(d):
        r[i, i] = v
    return Sp(r, 'dia')


def stubs(prob, log):
    def num_jac(fun, t, y, f, threshold, factor, sparsity=None):
        """an approximation of the Jacobian at (t, y); f must be the value of
        the function there"""
        c = sy.ctx()
        c.prove_eq('C12 the approximate Jacobian starts from f(t, y)', f, prob.spec(t, y))
        if prob.calls:
            prob.calls.pop()
            count('nfev', -1)
        log['jac'] += 1
        count('njev')
        return jac_term(t, y, 'N'), factor

    def splu(A):
        count('nlu')
        return LU(A)

    return dict(lu_factor=lu_factor, lu_solve=lu_solve, splu=splu,
                csc_array=csc_array, eye_array=eye_array, diags_array=diags_array,
                num_jac=num_jac, group_columns=lambda *a, **k: None,
                CubicHermiteSpline=Hermite)


def jac_term(t, y, tag='J'):
    n = len(y)
    J = np.empty((n, n), object)
    for i in range(n):
        for j in range(n):
            J[i, j] = sy.app(f'{tag}{i}{j}', [sy.lift(t)] + [sy.lift(v) for v in y])
    return J


class Hermite:
    """contract of scipy's CubicHermiteSpline: the piecewise cubic with the
    given values and slopes; increasing abscissae"""

    def __init__(self, x, y, dydx, **k):
        self.x = [sy.lift(v) for v in x]
        self.y, self.d = np.array(y, object), np.array(dydx, object)
        c = sy.ctx()
        for a, b in zip(self.x, self.x[1:]):
            c.prove('C07 abscissae of the interpolant increase', sy.cmp0(b - a, '>'))

    def __call__(self, t):
        t = sy.lift(t.item() if isinstance(t, np.ndarray) else t)
        c = sy.ctx()
        i = 0
        for j in range(1, len(self.x) - 1):
            if c.branch(sy.cmp0(t - self.x[j], '>=')):
                i = j
        Hermite.last = i, len(self.x) - 1
        return self.piece(i, t)

    last = None

    def piece(self, i, t):
        h = self.x[i + 1] - self.x[i]
        s = (t - self.x[i]) / h
        a, b = self.y[i], self.y[i + 1]
        p, q = self.d[i] * h, self.d[i + 1] * h
        return a + s * (p + s * ((b - a) * 3 - p * 2 - q + s * (p + q - (b - a) * 2)))


# ------------------------------------------------------------------- problems
class Counted(dr.Problem):
    def __call__(self, t, y):
        count('nfev')
        return super().__call__(t, y)


class Linear(Counted):
    """f = J y + b(t)"""
    def __init__(self, n, J):
        super().__init__(n)
        self.J = J

    def spec(self, t, y):
        b = dr.vec([sy.app(f'b{i}', [sy.lift(t)]) for i in range(self.n)])
        return self.J @ np.asarray(y, object) + b


def make(kind, n, log):
    """problem and jac option"""
    if kind == 'lin':
        J = sy.value('Jlin', (n, n))
        return Linear(n, J), J.copy()
    prob = Counted(n)
    if kind == 'num':
        return prob, None

    def jac(t, y):
        log['jac'] += 1
        count('njev')
        return jac_term(t, y)
    return prob, jac


class Stage:
    """contract of _solve_implicit_stage: either not converged, or the stage
    value h k for a new k that solves the stage equation to the tolerance;
    the rate of convergence is minus infinity (unknown) or positive; changes
    nothing but counters"""

    def __init__(self, c, s, prob, obs):
        self.c, self.s, self.prob, self.obs = c, s, prob, obs
        self.calls = []
        self.fails = 0

    def __call__(self, t_stage, z_predict, h, psi, y, LU_, M, Sc):
        c, s = self.c, self.s
        self.obs.stage_called(c, s, self, t_stage, z_predict, h, psi, y, LU_, M, Sc)
        conv = s.linear or not c.choose(2, 'stage converged')
        n = len(y)
        # minus infinity (rate unknown) or positive: modelled by 'not zero'
        rate = sy.fresh('rate')
        c.assume(sy.cmp0(rate, '!='))
        if conv:
            c.assume(sy.cmp0(rate - 1, '<'))
        niter = sy.fresh('niter', integer=True)
        c.assume(sy.cmp0(niter - 1, '>='))
        c.assume(sy.cmp0(niter - 5, '<='))
        if s.linear:
            rate, niter = -np.inf, 1
        k = sy.value('k', (n,))
        z = np.empty(n, object)
        z[...] = k * h
        cells = dr.package().cells
        s.nfev += niter if not s.linear else 1
        cells['NLS'][()] = cells['NLS'][()] + niter
        count('nfev', niter)
        self.calls.append(dict(t=t_stage, psi=np.array(psi, object), h=h, k=k, conv=conv))
        return conv, z, rate, niter


def has(s, name, n):
    """the method is there and takes n arguments"""
    import inspect
    f = getattr(type(s), name, None)
    try:
        return f is not None and len(inspect.signature(f).parameters) == n + 1
    except (TypeError, ValueError):
        return False


class Assess:
    """contract of _assess_error_and_stepsize (task esd assess): accepted if
    and only if the error norm is below one; a step size for the next attempt
    or step within the limits; touches the controller's own state only"""

    def __init__(self, c, s):
        self.c, self.s, self.calls = c, s, []

    def __call__(self, error_norm, h_abs, step_rejected):
        c, s = self.c, self.s
        e = error_norm
        if sy.is_special(e):
            ok = bool(e < 1)
        else:
            ok = c.branch(sy.cmp0(sy.lift(e) - 1, '<'))
        new = sy.fresh('h_new', fp=True)
        rej = bool(step_rejected)
        c.prove('C04 step size given to the controller is positive', sy.cmp0(h_abs, '>')) \
            if 'C04' in s.vc_props else None
        c.assume(sy.cmp0(new, '>'))
        if ok:
            c.assume(sy.cmp0(new - h_abs * (1 if rej else 10), '<='))
        else:
            g = rk.fr(max(s.safety, s.min_factor))
            c.assume(sy.cmp0(new - h_abs * g, '<='))
            c.assume(sy.cmp0(new - h_abs * rk.fr(s.min_factor), '>='))
            cell = dr.package().cells['NFS']
            cell[()] = cell[()] + 1
        s.standard_sc = sy.pred('standard', sy.fresh('u'))
        s.max_factor = sy.fresh('max_factor')
        self.calls.append(dict(e=e, h=h_abs, rej=rej, ok=ok, new=new))
        return ok, new


class Reassess:
    """contract of _reassess_stepsize (task esd reassess): a positive step size
    not beyond the end nor above max_step, and the smallest useful step"""

    def __init__(self, c, s, kw):
        self.c, self.s, self.kw = c, s, kw

    def __call__(self, t, h_abs):
        c, s = self.c, self.s
        h, ms = sy.fresh('h_try', fp=True), sy.fresh('min_step', fp=True)
        c.assume(sy.cmp0(h, '>'))
        c.assume(sy.cmp0(abs(s.t_bound - t) - h, '>='))
        if 'max_step' in self.kw:
            c.assume(sy.cmp0(h - self.kw['max_step'], '<='))
        c.assume(sy.cmp0(ms, '>'))
        c.assume(sy.cmp0(ms - abs(sy.lift(t)) * (2 * RES), '>='))
        s.standard_sc = sy.pred('standard', sy.fresh('u'))
        return h, ms


class Preempt:
    """contract of _preemptive_lu_and_jac (task esd preempt): nothing changes,
    or the factorisation is dropped, or both it and the Jacobian are renewed"""

    def __init__(self, c, s):
        self.c, self.s = c, s

    def __call__(self, h_abs, t, y, niter):
        c, s = self.c, self.s
        k = c.choose(['keep', 'refactor', 'renew'], 'factorisation')
        if k == 2:
            s.J = s.jac(t, y)
            s.current_J = sy.pred('current_J', sy.fresh('u'))
        if k:
            s.LU = None


# half a unit of round-off in time
RES = Fraction(float(np.finfo(float).epsneg))


COUNTS = ('nfev', 'njev', 'nlu')


class EsdObserver(dr.Observer):
    def __init__(self, cls, props, opts, kind, log, sc=None, mass=False):
        self.cls, self.props, self.opts = cls, set(props), opts
        self.kind, self.log, self.sc, self.mass = kind, log, sc, mass
        self.flags = {}
        if 'C04' in self.props:
            self.ghost = {'e': sy.lift(1), 'h': sy.lift(1)}

    # ------------------------------------------------------------------ run
    def start(self, c, s, prob, kw):
        self.kw = kw
        n = s.n
        if 'C22' in self.props:
            for k, cell in dr.package().cells.items():
                c.prove_eq(f'C22 constructor resets {k}', cell[()], 0)
            c.prove_eq('C22 constructor: Jacobian evaluations', s.njev, self.log['jac'])
            c.prove_eq('C22 constructor: factorisations', s.nlu, 0)
            c.prove('C22 constructor: counted evaluations are the real ones',
                    sy.cmp0(sy.lift(s.nfev) - len(prob.calls), '<='))
            c.tracked.setdefault('ghost', {}).update({k: sy.lift(getattr(s, k)) for k in COUNTS})
        if 'C12' in self.props and self.kind == 'call':
            c.prove_eq('C12 first Jacobian is jac(t0, y0)', s.J, jac_term(s.t, s.y))
        if self.mass:
            s.M_mat = np.empty((n, n), object)
            for i in range(n):
                for j in range(n):
                    s.M_mat[i, j] = sy.app(f'M{i}{j}', [])
            s.yp = sy.value('yp', (n,))
        c.assume(sy.TRUE)
        self.stage = Stage(c, s, prob, self)
        setattr(s, STAGE, self.stage)
        s.vc_props = self.props
        self.assess = None
        if self.sc is None:
            if has(s, '_assess_error_and_stepsize', 3):
                self.assess = s._assess_error_and_stepsize = Assess(c, s)
            if has(s, '_reassess_stepsize', 2):
                s._reassess_stepsize = Reassess(c, s, kw)
            if has(s, '_preemptive_lu_and_jac', 4) and not s.linear and not s.jac_each_step:
                s._preemptive_lu_and_jac = Preempt(c, s)
        self.kmap = {}

    def before(self, c, s, prob):
        pre = super().before(c, s, prob)
        for k in ('yp', 'J'):
            v = getattr(s, k, None)
            pre[k] = v.copy() if isinstance(v, np.ndarray) else v
        for k in ('standard_sc', 'h_abs', 'max_factor', 'njev', 'nlu', 'nfev', 'h_LU'):
            pre[k] = getattr(s, k, None)
        pre['held'] = {k: (v, v.copy()) for k, v in ((k, getattr(s, k, None))
                       for k in ('yp', 'y_old', 'yp_old')) if isinstance(v, np.ndarray)}
        self.stage.calls = []
        if self.assess:
            self.assess.calls = []
        self.log['jac'] = 0
        self.lu0 = pre['nlu']
        prob.calls = []
        c.exited.clear()
        return pre

    def stage_called(self, c, s, st, t, z, h, psi, y, LU_, M, Sc):
        """pre-condition of the stage solver"""
        if 'C12' not in self.props:
            return
        c.prove_eq('C12 stage solver gets the state at the start of the step', y, s.y)
        c.prove_eq('C12 stage solver gets the mass matrix', mat(M), mat(s.M_mat))
        if not isinstance(LU_, LU):
            c.fail('C12 stage solver gets a factorisation', f'{LU_}')
            return
        if s.linear:
            A = mat(s.M_mat) - h * s.d * self.linear_J(s)
            c.prove_eq('C12 linear problem: the factorisation is current', LU_.A, A)
            c.prove('C12 linear problem: flagged current',
                    bool(s.current_J) and c.is_equal(h, s.h_LU)[0] == 'proved')
        else:
            A = LU.vc_defined(c, None, {('attr', 's', k): getattr(s, k) for k in
                                        ('h_LU', 'J', 'M_mat')})
            c.prove('C12 the factorisation belongs to the Jacobian in use',
                    A is not None and LU_.vc_same(c, A))

    def linear_J(self, s):
        return self.prob_J

    def after(self, c, s, prob, pre, msg):
        P = self.props
        ok = s.status != 'failed'
        mode = c.loopstack[0][0] if c.loopstack else ''
        c.covered(f'{"success" if ok else "failure: " + str(msg)[:30]} [{mode}]')
        h = s.t - pre['t']
        d = s.direction
        if 'C10' in P:
            if ok:
                c.prove('C10 accepted state is finite', sh.finite_pred(s.y))
                c.prove('C10 no message on success', msg is None)
            else:
                c.prove('C10 failure carries a message', isinstance(msg, str) and bool(msg))
                c.prove_eq('C10 failure leaves t', s.t, pre['t'])
                c.prove_eq('C10 failure leaves y', s.y, pre['ycopy'])
        if 'C22' in P:
            g = c.tracked['ghost']
            c.prove_eq('C22 counted Jacobian evaluations', s.njev, g['njev'])
            c.prove_eq('C22 counted function evaluations', s.nfev, g['nfev'])
            c.prove_eq('C22 counted factorisations', s.nlu, g['nlu'])
        if 'C22' in P and not any(m == 'later' for m in list(c.exited.values()) + [x[0] for x in c.loopstack[1:]]):
            if ok:
                c.prove_eq('C22 accepted step counts no failure',
                           dr.package().cells['NFS'][()] - pre['cells']['NFS'], 0)
        if not ok:
            return
        if 'C01' in P:
            c.prove('C01 strictly monotone', sy.cmp0(d * h, '>'))
            c.prove('C01 never past t_bound', sy.cmp0(d * (s.t_bound - s.t), '>='))
            if s.status == 'finished':
                c.prove_eq('C01 finished means t == t_bound', s.t, s.t_bound)
            c.prove_eq('C01 t_old is the previous time', s.t_old, pre['t'])
            c.prove('C01 accepted steps are above the resolution of time',
                    sy.cmp0(abs(h) - abs(pre['t']) * RES, '>'))
        if 'C02' in P:
            c.prove('C02 step <= max_step', sy.cmp0(d * h - self.kw['max_step'], '<='))
        if 'C08' in P:
            c.prove_eq('C08 the previous state array keeps its values', pre['y'], pre['ycopy'])
            for k, (a, b) in pre['held'].items():
                c.prove_eq(f'C08 a step does not write to the array {k}', a, b)
        if P & {'C07', 'C08'}:
            self.output(c, s, prob, pre, msg)
        if P & {'C03', 'C04', 'C12'}:
            self.values(c, s, prob, pre, h)

    def output(self, c, s, prob, pre, msg):
        from . import dense
        d = dense.DenseObserver(self.cls, self.opts, self.props & {'C07', 'C08'})
        Hermite.last = None
        d.smooth = not isinstance(s.P, np.ndarray) or self.opts.get('interpolant') == 'C1'
        d.slopes = pre['held']['yp'][1], s.yp
        d.pieces = lambda: Hermite.last
        d.frozen = lambda s: {'y', 'y_old', 'yp', 'yp_old'}
        d.after(c, s, prob, pre, msg)

    def values(self, c, s, prob, pre, h):
        P, cls = self.props, self.cls
        ns = cls.n_stages
        st = self.stage.calls[-(ns - 1):]
        self.e = None
        if 'C12' in P:
            c.prove('C12 all stages of the accepted step were solved',
                    len(st) == ns - 1 and all(x['conv'] for x in st))
        if len(st) != ns - 1:
            return
        K = [pre['yp']] + [x['k'] for x in st]
        y0 = pre['ycopy']
        if 'C12' in P:
            for i, x in enumerate(st, 1):
                c.prove_eq('C12 stage equations: step', x['h'], h)
                c.prove_eq('C12 stage equations: time', x['t'], pre['t'] + rk.fr(cls.C[i]) * h)
                c.prove_eq('C12 stage equations: known part', x['psi'],
                           y0 + rk.lin(cls.A[i, :i], K[:i], h))
            c.prove_eq('C12 y is the declared combination of the stages', s.y,
                       y0 + rk.lin(cls.B, K, h))
            c.prove_eq('C12 derivative carried over is the last stage', s.yp, K[-1])
        if P & {'C03', 'C04'}:
            ynew = y0 + rk.lin(cls.B, K, h)
            err = rk.lin(cls.E, K, h)
            if cls.filter_error:
                if not isinstance(s.LU, LU):
                    c.fail('C03 filtered with the factorisation in use', f'{s.LU}')
                    return
                err = mat(s.M_mat) @ solve(s.LU.A, err)
            sc = rk.weights(self.kw['rtol'], self.kw['atol'], y0, ynew)
            e = self.e = rk.match_norm(c, sy.rms(err / sc))
            if 'C03' in P:
                rk.implied_lt1(c, 'C03 scaled error norm < 1', e)
            if 'C04' in P and self.assess is None:
                self.controller(c, s, pre, h, e)
            elif 'C04' in P:
                self.controlled(c, s, pre, h, e)

    # ----------------------------------------------------------------- C04
    def controlled(self, c, s, pre, h, e):
        """what the step makes of the controller"""
        if not self.assess.calls:
            return
        a = self.assess.calls[-1]
        c.prove_eq('C04 controller gets the error norm of the step', a['e'], e)
        c.prove_eq('C04 controller gets the size of the step', a['h'], abs(h))
        c.prove_eq('C04 the controller proposes the next step', s.h_abs, a['new'])
        c.prove_eq('C04 error norm kept for the next step', s.error_norm_old, e)
        c.prove_eq('C04 step size kept for the next step', s.h_previous, h)
        if any(m == 'later' for m in c.exited.values()):
            first = self.first_attempt(c, abs(h))
            if first is None:
                c.covered('size of the first attempt not located')
            else:
                c.prove('C04 no growth after a rejection', sy.implies(
                    sy.cmp0(first - abs(h), '>'), sy.cmp0(s.h_abs - abs(h), '<=')))

    def controller(self, c, s, pre, h, e):
        cls = self.cls
        if sy.is_special(e):
            return
        k1, k2, a, g = self.sc
        p = 1 / (min(cls.order, cls.order_secondary) + 1)
        habs, new = abs(h), s.h_abs
        one = sy.lift(1)
        expo = sy.lift(float(p))
        lim = [sy.lift(4), sy.lift(10)]
        std, sec, perf = [], [], []
        gh = c.tracked['ghost']
        raw = g * e ** (-expo)
        f2 = (g ** (k1 + k2)) * (e ** (-expo * k1) * gh['e'] ** (-expo * k2) *
                                 (h / gh['h']) ** (-a))
        mf = sy.lift(pre['max_factor'])
        later = any(m == 'later' for m in c.exited.values())
        lims = lim if later else [mf]
        for m in lims:
            std.append(sy.minimum(raw, m))
            sec.append(sy.minimum(m, sy.maximum(sy.lift(cls.min_factor), f2)))
            perf.append(m)
        tiny = float(np.finfo(float).eps**.8)
        perfect = c.implied(sy.cmp0(e - tiny, '<'))
        first = None
        if later:
            first = self.first_attempt(c, habs)
        if perfect:
            cases = perf
        elif en.decided(c, pre['standard_sc']) is True and not later:
            cases = std
        elif not later and habs.same(pre['h_abs']):
            cases = sec
            c.covered('second order')
        else:
            cases = std + sec
        caps = [False, True] if later else [False]
        label = 'C04 proposed step follows the controller'
        for f in cases:
            for cap in caps:
                v = habs * (sy.minimum(one, f) if cap else f)
                if c.is_equal(new, v)[0] == 'proved':
                    c.prove(label, True)
                    break
            else:
                continue
            break
        else:
            v = habs * cases[0]
            c.prove_eq(label, new, v)
        if later:
            if first is None:
                c.covered('size of the first attempt not located')
            else:
                c.prove('C04 no growth after a rejection',
                        sy.implies(sy.cmp0(first - habs, '>'), sy.cmp0(new - habs, '<=')))
        c.prove('C04 proposed step is positive', sy.cmp0(new, '>'))

    def first_attempt(self, c, habs):
        for lp in c.loops.values():
            if lp.key[0] == 'lifecycle':
                continue
            for loc, v in lp.head_snap.items():
                if loc[0] == 'local' and isinstance(v, S) and v.same(habs):
                    w = lp.entry_snap.get(loc)
                    if isinstance(w, S):
                        return w
        return None

    def ghosts(self, c, s, prob, pre, msg):
        if self.ghost is not None and s.status != 'failed' and self.e is not None \
                and not sy.is_special(self.e):
            c.tracked['ghost']['e'] = self.e
            c.tracked['ghost']['h'] = s.t - pre['t']

    # ------------------------------------------------------------ retry loop
    def backedge(self, c, loop, base, snap):
        if loop.key[0] == 'lifecycle':
            return
        if 'C10' in self.props and loop.mode == 'later':
            c.prove(f'C10 retry loop terminates [{loop.key[0]}]', self.decreases(c, loop, base, snap))
        if 'C22' in self.props:
            n = self.cell(base, snap, 'NFS') + self.cell(base, snap, 'NFI')
            conv = bool(self.stage.calls) and self.stage.calls[-1]['conv'] and \
                len(self.stage.calls) >= self.cls.n_stages - 1
            c.prove_eq('C22 one rejected attempt counts one', n, 1)
            c.prove_eq('C22 rejections by the error test', self.cell(base, snap, 'NFS'), int(conv))
        if 'C12' in self.props:
            conv = self.stage.calls and self.stage.calls[-1]['conv']
            a, b = base[('attr', 's', 'y')], snap[('attr', 's', 'y')]
            c.prove('C12 a rejected attempt leaves the state', en.same_value(c, a, b))
            if not conv:
                hl = self.step_loc(c, base)
                cj = ('attr', 's', 'current_J')
                short = hl is not None and isinstance(snap.get(hl), S) and c.implied(
                    sy.cmp0(snap[hl] - base[hl] * Fraction(9999, 10000), '<='))
                newJ = en.decided(c, base.get(cj)) is False and en.decided(c, snap.get(cj)) is True
                if newJ and self.kind == 'call':
                    c.prove_eq('C12 updated Jacobian is jac(t, y)', snap[('attr', 's', 'J')].val,
                               jac_term(c.tracked['s'].t, c.tracked['s'].y))
                c.prove('C12 after a failed iteration: new Jacobian or shorter step',
                        bool(short or newJ))
        if 'C04' in self.props and self.stage.calls and self.stage.calls[-1]['conv']:
            hl = self.step_loc(c, base)
            if hl is None:
                c.covered('retry: step size not located')
                return
            v, w = base[hl], snap[hl]
            c.prove('C04 retry is strictly shorter', sy.cmp0(v - w, '>'))
            c.prove('C04 retry not below min_factor',
                    sy.cmp0(w - v * rk.fr(self.cls.min_factor), '>='))
            c.covered('retry')

    def cell(self, base, snap, name):
        k = ('cell', name)
        return sy.lift(snap[k].val[()]) - sy.lift(base[k].val[()])

    def step_loc(self, c, base):
        if not self.stage.calls:
            return None
        h = abs(self.stage.calls[-1]['h'])
        for loc, v in base.items():
            if loc[0] == 'local' and isinstance(v, S) and v.same(h):
                return loc
        return None

    def decreases(self, c, loop, base, snap):
        """lexicographic: a flag is set (and never cleared), or a positive
        value, bounded below by the size of the smallest step, shrinks"""
        info = loop.info
        if info.measures is not None and info.measures:
            return True
        if not hasattr(info, 'lex'):
            reals = [l for l, s in info.specs.items() if isinstance(base.get(l), S)]
            flags = [l for l, v in base.items() if isinstance(v, (bool, sy.B)) and l[0] == 'attr']
            info.lex = [(r, f) for r in reals for f in flags]
        keep = []
        for r, f in info.lex:
            v0, v1 = base.get(r), snap.get(r)
            if not isinstance(v0, S) or not isinstance(v1, S):
                continue
            a, b = en.decided(c, base.get(f)), en.decided(c, snap.get(f))
            if b is True and a is False and v0.same(v1):
                keep.append((r, f))
            elif en.scalar_same(c, a, b) and c.implied(sy.conj(
                    sy.cmp0(v0, '>'), sy.cmp0(v1 - v0 * Fraction(9999, 10000), '<='))):
                keep.append((r, f))
        info.lex = keep
        return bool(keep)


def setup(cls, props, kind='call', n=1, direction=1, opts=None, sym_sc=False,
          first_step=None, max_step='sym', mass=False, sc=None):
    """(Setup, observer, problem factory)"""
    log = dict(jac=0)
    prob, jac = make(kind, n, log)
    opts = dict(opts or {})
    opts['jac'] = jac
    pkg = dr.package()
    C = getattr(pkg.mods['extensisq'], cls)
    if sym_sc:
        sc = tuple(sy.sym('sc_' + k) for k in ('k1', 'k2', 'a', 'g'))
        opts['sc_params'] = sc
    ob = EsdObserver(C, props, opts, kind, log, sc, mass)
    ob.prob_J = prob.J if kind == 'lin' else None
    su = dr.Setup(cls, n=n, direction=direction, opts=opts, first_step=first_step,
                  max_step=max_step, stubs=stubs(prob, log))

    def factory():
        log['jac'] = 0
        prob.calls = []
        return prob
    return su, ob, factory

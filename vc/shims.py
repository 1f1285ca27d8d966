"""Library functions for symbolic values.  On arguments without symbolic
content they call the original function."""
import builtins
import functools
import math
import types
import numpy as np
import scipy.sparse
from . import sym as sy
from .sym import S, B, Unsupported


def enter_loop(lid, names):
    import sys
    return sy.ctx().enter(lid, names, sys._getframe(1))


def vc_range(*a):
    """the bounds of a range: concrete integers where they are"""
    out = []
    for v in ((0,) + a if len(a) == 1 else a):
        if isinstance(v, S) and v.is_const():
            v = int(v.const())
        out.append(v)
    return out


def vc_symbolic(r, lid):
    c = sy.ctx()
    return any(isinstance(v, S) for v in r) or (
        c is not None and any(name in lid for name in c.rules))


def has_sym(x):
    if isinstance(x, (S, B)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(v, (S, B)) for v in x.ravel())
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return False


def is_obj(x):
    return isinstance(x, np.ndarray) and x.dtype == object


def specials_in(x):
    x = np.asarray(x, object)
    return [v for v in x.ravel() if not isinstance(v, (S, B)) and v is not None
            and isinstance(v, (float, np.floating)) and not math.isfinite(v)]


# ---------------------------------------------------------------- builtins
def _gt(a, b):
    r = a > b
    return r if isinstance(r, bool) else bool(r)


def forks(a, b):
    """max and min of Python (not of arrays) fork the path, which keeps the
    terms polynomial"""
    c = sy.ctx()
    return c is not None and c.ex.forkmax and c.forks and not (
        integral(a) and integral(b))


def integral(x):
    return isinstance(x, (int, np.integer)) or isinstance(x, S) and \
        all(sy.ATOMS[i].integer for i in x.atoms())


def _args(args, kw):
    if len(args) == 1:
        args = list(args[0])
    return list(args)


def vc_max(*args, **kw):
    if kw:
        return builtins.max(*args, **kw)
    a = _args(args, kw)
    if not has_sym(a):
        return builtins.max(a)
    r = a[0]
    for x in a[1:]:
        if sy.is_special(r) or sy.is_special(x) or forks(r, x):
            r = x if _gt(x, r) else r
        else:
            r = sy.maximum(r, x)
    return r


def vc_min(*args, **kw):
    if kw:
        return builtins.min(*args, **kw)
    a = _args(args, kw)
    if not has_sym(a):
        return builtins.min(a)
    r = a[0]
    for x in a[1:]:
        if sy.is_special(r) or sy.is_special(x) or forks(r, x):
            r = x if _gt(r, x) else r
        else:
            r = sy.minimum(r, x)
    return r


def vc_isinstance(x, t):
    if isinstance(x, S):
        ts = t if isinstance(t, tuple) else (t,)
        for u in ts:
            if u in (S, object):
                return True
            if u is float or u is np.floating or u is np.float64 or u is complex and False:
                return not all(sy.ATOMS[a].integer for a in x.atoms())
            if u is int or u is np.integer:
                if all(sy.ATOMS[a].integer for a in x.atoms()):
                    return True
        import numbers
        return any(u in (numbers.Real, numbers.Number) for u in ts)
    if isinstance(x, B):
        ts = t if isinstance(t, tuple) else (t,)
        return bool in ts or np.bool_ in ts or object in ts
    return builtins.isinstance(x, t)


class NotANumber(ValueError):
    """int() of nan or inf in the code under test"""


def vc_int(x=0, *a):
    if sy.is_special(x):
        raise NotANumber(f'int({x})')
    if isinstance(x, S):
        if x.is_const():
            return int(x.const())
        if x.p and all(sy.ATOMS[i].integer for i in x.atoms()) and \
                all(c.denominator == 1 for c in x.p.values()):
            return x
        k = int_sqrt(x)
        if k is not None:
            return k
        if sy.ctx().branch(sy.cmp0(x, '>=')):
            return sy.floor(x)
        return -sy.floor(-x)
    return int(x, *a)


def int_sqrt(x):
    """int(sqrt(u)): the integer k >= 0 with k**2 <= u < (k + 1)**2"""
    c = sy.ctx()
    if not c.ex.forkmax or len(x.p) != 1:
        return None
    (m, co), = x.p.items()
    if co != 1 or len(m) != 1 or m[0][1] != 1 or sy.ATOMS[m[0][0]].kind != 'sqrt':
        return None
    u = sy.ATOMS[m[0][0]].args[0]
    a = sy.atom('app', 'isqrt', (u,), integer=True)
    k = S({((a.id, 1),): sy.Fraction(1)})
    c.assume(sy.cmp0(k, '>='))
    c.assume(sy.cmp0(u - k * k, '>='))
    c.assume(sy.cmp0((k + 1) * (k + 1) - u, '>'))
    return k            # k is not negative


def vc_float(x=0.):
    if isinstance(x, S):
        return x
    if isinstance(x, np.ndarray) and has_sym(x):
        return x.item()
    return float(x)


def vc_round(x, n=None):
    if isinstance(x, S) and not x.is_const():
        if n is not None:
            raise Unsupported('round to digits')
        a = sy.atom('floor', 'round', (x,), integer=True)   # |a - x| <= 1
        return S({((a.id, 1),): sy.Fraction(1)})
    return builtins.round(x, n) if n is not None else builtins.round(x)


BUILTINS = {'max': vc_max, 'min': vc_min, 'isinstance': vc_isinstance,
            'round': vc_round}
# -------------------------------------------------------------------- math
def lift1(name, real):
    def f(x):
        if isinstance(x, S) and not x.is_const():
            return sy.app(name, [x], vec=x.has_vec())
        if isinstance(x, S):
            return real(float(x.const()))
        return real(x)
    f.__name__ = name
    return f


def m_sqrt(x):
    if isinstance(x, S):
        c = sy.ctx()
        if c is not None and getattr(c, 'on_sqrt', None) is not None:
            c.on_sqrt(x)
        return sy.sqrt(x)
    if isinstance(x, np.ndarray) and has_sym(x):
        return m_sqrt(x.item())
    return math.sqrt(x)


def m_copysign(x, y):
    if isinstance(y, S):
        pos = sy.ctx().branch(sy.cmp0(y, '>='))
    else:
        pos = math.copysign(1, y) > 0
    if isinstance(x, S) or isinstance(y, S):
        x = abs(x)
        return x if pos else -x
    return math.copysign(x, y)


def m_isnan(x):
    if isinstance(x, (S, B)):
        return False
    return math.isnan(x)


def m_isfinite(x):
    return True if isinstance(x, S) else math.isfinite(x)


def m_isinf(x):
    return False if isinstance(x, S) else math.isinf(x)


MATH = {math.sqrt: m_sqrt, math.copysign: m_copysign,
        math.log: lift1('log', math.log), math.sinh: lift1('sinh', math.sinh),
        math.cosh: lift1('cosh', math.cosh), math.exp: lift1('exp', math.exp),
        math.isnan: m_isnan, math.isfinite: m_isfinite, math.isinf: m_isinf,
        math.fabs: abs}


class MathModule(types.ModuleType):
    def __getattr__(self, k):
        v = getattr(math, k)
        return MATH.get(v, v) if callable(v) else v


# -------------------------------------------------------------------- numpy
def emap(f, *arrs):
    arrs = [np.asarray(a, object) for a in arrs]
    bc = np.broadcast_arrays(*arrs, subok=False) if len(arrs) > 1 else arrs
    out = np.empty(bc[0].shape, object)
    for i in np.ndindex(*out.shape):
        out[i] = f(*[b[i] for b in bc])
    return out if out.shape else out[()]


def dt(dtype):
    """float storage becomes symbolic storage"""
    if dtype is None or dtype in (float, np.float64, complex):
        return object
    try:
        d = np.dtype(dtype)
    except TypeError:
        return object
    return object if d.kind in 'fcO' else d


def ufunc(f):
    """the keyword arguments of ufuncs"""
    @functools.wraps(f)
    def g(self, *a, out=None, where=True, dtype=None, **k):
        if where is not True:
            raise Unsupported(f'{f.__name__} with where')
        if isinstance(out, tuple):
            out, = out
        r = f(self, *a, **k)
        if out is not None:
            out[...] = r
            return out
        return r
    return g


class NPShim(types.ModuleType):
    ndarray = np.ndarray
    inf = np.inf
    nan = np.nan
    newaxis = None

    def __getattr__(self, k):
        return getattr(np, k)

    # -- creation
    def empty(self, shape, dtype=float, order='C', **k):
        return np.empty(shape, dt(dtype), order)

    def zeros(self, shape, dtype=float, order='C', **k):
        return np.zeros(shape, dt(dtype), order)

    def ones(self, shape, dtype=float, order='C', **k):
        return np.ones(shape, dt(dtype), order)

    def full(self, shape, v, dtype=None, order='C', **k):
        r = np.empty(shape, object if dtype is None else dt(dtype), order)
        r[...] = v
        return r

    def empty_like(self, a, dtype=None, **k):
        a = np.asarray(a)
        return np.empty(a.shape, dt(dtype or a.dtype))

    def zeros_like(self, a, dtype=None, **k):
        a = np.asarray(a)
        return np.zeros(a.shape, dt(dtype or a.dtype))

    def ones_like(self, a, dtype=None, **k):
        a = np.asarray(a) if not isinstance(a, S) else np.empty((), object)
        r = np.ones(a.shape, dt(dtype or a.dtype))
        return r

    def eye(self, n, m=None, dtype=float, **k):
        return np.eye(n, m, dtype=dt(dtype))

    def arange(self, *a, dtype=None, **k):
        if has_sym(a):
            raise Unsupported('symbolic arange')
        return np.arange(*a, dtype=dtype)

    def asarray(self, a, dtype=None, copy=None, **k):
        if copy:
            return self.array(a, dtype)
        if has_sym(a):
            return np.asarray(a, object)
        if dtype is not None and dt(dtype) == object:
            r = np.asarray(a)
            return r if r.dtype == object else r.astype(object)
        return np.asarray(a, dtype)

    def array(self, a, dtype=None, **k):
        if has_sym(a):
            return np.array(a, object, **k)
        if dtype is not None and dt(dtype) == object:
            return np.array(a, object, **k)
        return np.array(a, dtype, **k)

    def ascontiguousarray(self, a, dtype=None):
        return self.array(a, dtype)

    def finfo(self, d):
        try:
            if np.dtype(d) == object:
                d = float
        except TypeError:
            pass
        return np.finfo(d)

    def issubdtype(self, a, b):
        if np.dtype(a) == object:
            a = np.dtype(float)
        return np.issubdtype(a, b)

    # -- elementwise
    def _u1(self, a, f, g):
        if isinstance(a, S):
            return f(a)
        if is_obj(a):
            return emap(f, a)
        return g(a)

    @ufunc
    def abs(self, a):
        return self._u1(a, abs, np.abs)
    absolute = abs
    fabs = abs

    @ufunc
    def sqrt(self, a):
        def f(x):
            return sy.sqrt(x)
        return self._u1(a, f, np.sqrt)

    @ufunc
    def log10(self, a):
        return self._u1(a, lift1('log10', math.log10), np.log10)

    @ufunc
    def log(self, a):
        return self._u1(a, lift1('log', math.log), np.log)

    @ufunc
    def exp(self, a):
        return self._u1(a, lift1('exp', math.exp), np.exp)

    @ufunc
    def sinh(self, a):
        return self._u1(a, lift1('sinh', math.sinh), np.sinh)

    @ufunc
    def cosh(self, a):
        return self._u1(a, lift1('cosh', math.cosh), np.cosh)

    @ufunc
    def square(self, a):
        return a * a

    @ufunc
    def power(self, a, b):
        return a ** b

    @ufunc
    def floor(self, a):
        return self._u1(a, sy.floor, np.floor)

    def real(self, a):
        if isinstance(a, S) or is_obj(a):
            return a
        return np.real(a)

    def imag(self, a):
        if isinstance(a, S):
            return 0.
        if is_obj(a):
            return np.zeros(a.shape, object)
        return np.imag(a)

    @ufunc
    def conj(self, a):
        if isinstance(a, S) or is_obj(a):
            return a
        return np.conj(a)
    conjugate = conj

    @ufunc
    def sign(self, a):
        if isinstance(a, S):
            if a.is_const():
                return float((a.const() > 0) - (a.const() < 0))
            if sy.ctx().branch(sy.cmp0(a, '>')):
                return 1.
            return -1. if sy.ctx().branch(sy.cmp0(a, '<')) else 0.
        if is_obj(a):
            return emap(self.sign, a)
        return np.sign(a)

    @ufunc
    def copysign(self, a, b):
        if has_sym(a) or has_sym(b) or is_obj(a) or is_obj(b):
            return emap(m_copysign, a, b)
        return np.copysign(a, b)

    def nextafter(self, a, b):
        if has_sym(a):
            raise Unsupported('nextafter')
        return np.nextafter(a, b)

    @ufunc
    def maximum(self, a, b, **k):
        if has_sym(a) or has_sym(b):
            return emap(sy.maximum, a, b)
        return np.maximum(a, b, **k)

    @ufunc
    def minimum(self, a, b, **k):
        if has_sym(a) or has_sym(b):
            return emap(sy.minimum, a, b)
        return np.minimum(a, b, **k)
    fmax, fmin = maximum, minimum

    @ufunc
    def clip(self, a, lo, hi):
        if has_sym(a) or has_sym(lo) or has_sym(hi):
            return self.minimum(self.maximum(a, lo), hi)
        return np.clip(a, lo, hi)

    # -- predicates
    def isfinite(self, a):
        if isinstance(a, np.ndarray) and a.dtype == object:
            if specials_in(a):
                return np.array([not (isinstance(v, float) and not math.isfinite(v))
                                 for v in a.ravel()]).reshape(a.shape)
            if has_sym(a):
                return finite_pred(a)
            return np.ones(a.shape, bool)
        if isinstance(a, S):
            if a.has_vec() and sy.ctx().specials:
                # values of norms fork on nan and inf when they are computed
                if all(sy.ATOMS[i].kind == 'sqrt' or not sy.ATOMS[i].vec
                       for i in a.atoms()):
                    return True
                return finite_pred(np.array([a], object))
            return True
        return np.isfinite(a)

    def isnan(self, a):
        if isinstance(a, S):
            return False
        if is_obj(a):
            return np.array([isinstance(v, (float, np.floating)) and math.isnan(v)
                             for v in a.ravel()], bool).reshape(a.shape)
        return np.isnan(a)

    def isinf(self, a):
        if isinstance(a, S):
            return False
        if is_obj(a):
            return np.array([isinstance(v, (float, np.floating)) and math.isinf(v)
                             for v in a.ravel()], bool).reshape(a.shape)
        return np.isinf(a)

    def all(self, a, axis=None, **k):
        if isinstance(a, B):
            return a
        if is_obj(a):
            if axis is not None and a.ndim > 1 or k.get('keepdims'):
                raise Unsupported('all() along an axis')
            return sy.conj(*[sy.as_b(v) for v in a.ravel()])
        return np.all(a, axis=axis, **k)

    def any(self, a, axis=None, **k):
        if isinstance(a, B):
            return a
        if is_obj(a):
            if axis is not None and a.ndim > 1 or k.get('keepdims'):
                raise Unsupported('any() along an axis')
            return sy.disj(*[sy.as_b(v) for v in a.ravel()])
        return np.any(a, axis=axis, **k)

    def allclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        if has_sym(a) or has_sym(b):
            d = np.asarray(a, object) - np.asarray(b, object)
            return sy.pred('allclose', sy.lift(sum(
                (sy.app('tag', [i, v]) for i, v in enumerate(np.ravel(d))
                 if not (isinstance(v, S) and not v.p)), sy.lift(0))))
        return np.allclose(a, b, rtol=rtol, atol=atol, **k)

    def array_equal(self, a, b, **k):
        if has_sym(a) or has_sym(b):
            if np.shape(a) != np.shape(b):
                return False
            return bool(self.all(np.asarray(a, object) == np.asarray(b, object)))
        return np.array_equal(a, b, **k)

    @ufunc
    def logical_not(self, a):
        return sy.neg(a) if isinstance(a, B) else np.logical_not(a)

    def where(self, c, *ab):
        if not ab:
            return np.where(c)
        a, b = ab
        if isinstance(c, B):
            shape = np.broadcast_shapes(np.shape(a), np.shape(b))
            v = a if c else b
            r = np.empty(shape, object)
            r[...] = v
            return r if shape else v
        if is_obj(c) or has_sym(c):
            return emap(lambda p, x, y: x if p else y, c, a, b)
        if is_obj(a) or is_obj(b) or has_sym(a) or has_sym(b):
            return emap(lambda p, x, y: x if p else y, c, a, b)
        return np.where(c, a, b)

    # -- reductions
    def sum(self, a, *x, **k):
        if isinstance(a, (list, tuple)) and has_sym(a):
            a = np.asarray(a, object)
        return np.sum(a, *x, **k)

    def max(self, a, *x, **k):
        if has_sym(a) and not x and not k:
            return vc_max(*np.ravel(a))
        return np.max(a, *x, **k)
    amax = max

    def min(self, a, *x, **k):
        if has_sym(a) and not x and not k:
            return vc_min(*np.ravel(a))
        return np.min(a, *x, **k)
    amin = min

    def mean(self, a, *x, **k):
        if is_obj(a) and not x and not k:
            return sum(a.ravel(), sy.lift(0)) / a.size
        return np.mean(a, *x, **k)

    def dot(self, a, b):
        return a @ b if np.ndim(a) and np.ndim(b) else a * b
    vdot = dot
    inner = dot

    def float64(self, x):
        return x if isinstance(x, S) else np.float64(x)

    linalg = None


def finite_pred(a):
    """one predicate for 'all elements are finite'"""
    a = np.asarray(a, object)
    t = sy.lift(0)
    for i, v in enumerate(a.ravel()):
        if isinstance(v, S) and v.has_vec():
            t = t + sy.app('fin', [i, v])
    if not t.p:
        return True
    return sy.pred('finite', t)


class Linalg(types.ModuleType):
    def __getattr__(self, k):
        return getattr(np.linalg, k)

    def norm(self, x, *a, **k):
        if has_sym(x):
            if a or k:
                raise Unsupported('norm with options')
            t = sy.lift(0)
            for v in np.ravel(x):
                if sy.is_special(v):
                    return float('nan')
                t = t + v * v
            return sy.sqrt(S(t.p))
        return np.linalg.norm(x, *a, **k)

    def solve(self, A, b):
        if has_sym(A) or has_sym(b):
            raise Unsupported('solve')
        return np.linalg.solve(A, b)


NP = NPShim('numpy')
NPShim.linalg = Linalg('numpy.linalg')


# ------------------------------------------------- contracts of scipy's parts
class OdeSolver:
    """contract of scipy.integrate.OdeSolver (assumed): its documented
    behaviour, as in scipy 1.18"""
    TOO_SMALL_STEP = "Required step size is less than spacing between numbers."

    def __init__(self, fun, t0, y0, t_bound, vectorized, support_complex=False):
        self.t_old = None
        self.t = t0
        y0 = NP.asarray(y0)
        if y0.ndim != 1:
            raise ValueError("`y0` must be 1-dimensional.")
        self.y = y0

        def fun_wrapped(t, y):
            return NP.asarray(fun(t, y), float)
        self._fun = fun_wrapped
        self.t_bound = t_bound
        self.vectorized = vectorized
        fun_single = self._fun

        def fun_vectorized(t, y):
            f = np.empty(y.shape, object)
            for i, yi in enumerate(y.T):
                f[:, i] = self._fun(t, yi)
            return f

        def fun_(t, y):
            self.nfev += 1
            return self.fun_single(t, y)
        self.fun = fun_
        self.fun_single = fun_single
        self.fun_vectorized = fun_vectorized
        self.direction = NP.sign(t_bound - t0) if t_bound != t0 else 1
        self.n = self.y.size
        self.status = 'running'
        self.nfev = 0
        self.njev = 0
        self.nlu = 0

    @property
    def step_size(self):
        return None if self.t_old is None else abs(self.t - self.t_old)

    def step(self):
        if self.status != 'running':
            raise RuntimeError("Attempt to step on a failed or finished solver.")
        if self.n == 0 or self.t == self.t_bound:
            self.t_old = self.t
            self.t = self.t_bound
            message = None
            self.status = 'finished'
        else:
            t = self.t
            success, message = self._step_impl()
            if not success:
                self.status = 'failed'
            else:
                self.t_old = t
                if self.direction * (self.t - self.t_bound) >= 0:
                    self.status = 'finished'
        return message

    def dense_output(self):
        if self.t_old is None:
            raise RuntimeError("Dense output is available after a successful step")
        return self._dense_output_impl()


class DenseOutput:
    """contract of scipy.integrate.DenseOutput (assumed)"""

    def __init__(self, t_old, t):
        self.t_old = t_old
        self.t = t

    def __call__(self, t):
        if isinstance(t, S):
            a = np.empty((), object)
            a[()] = t
            t = a
        t = NP.asarray(t)
        if t.ndim > 1:
            raise ValueError("`t` must be a float or a 1-D array.")
        return self._call_impl(t)


def _mod(name, **k):
    m = types.ModuleType(name)
    m.__dict__.update(k)
    return m


MODULE_STUBS = {
    'scipy.integrate._ivp.base': _mod('base', OdeSolver=OdeSolver,
                                      DenseOutput=DenseOutput),
    'scipy.integrate': None,
}
import scipy.integrate as _si


class _SI(types.ModuleType):
    OdeSolver, DenseOutput = OdeSolver, DenseOutput

    def __getattr__(self, k):
        return getattr(_si, k)


MODULE_STUBS['scipy.integrate'] = _SI('scipy.integrate')


# ------------------------------------------------------------ linear algebra
def vc_issparse(x):
    return isinstance(x, SparseStub) or scipy.sparse.issparse(x)


class SparseStub:
    pass


REPL = {}
for _k, _v in MATH.items():
    REPL[id(_k)] = _v


def replacement(v):
    r = REPL.get(id(v))
    if r is not None:
        return r
    if v is math:
        return MathModule('math')
    if v is np.linalg:
        return NPShim.linalg
    # numpy functions imported by name
    if callable(v) and getattr(v, '__module__', '').startswith('numpy') and \
            not isinstance(v, type):
        n = getattr(v, '__name__', None)
        if n in NPShim.__dict__ and getattr(np, n, None) is v:
            return getattr(NP, n)
    return None

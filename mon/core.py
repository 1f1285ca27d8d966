"""Bounded stand-in: runs the real package (floating point, unmodified) on
concrete problems and records everything observable.  Problems and options are
JSON values, so that a failing input can be replayed."""
import os
import sys
import signal
import warnings
import zlib
import numpy as np

REPO = os.environ.get('VP_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import extensisq as xq                                            # noqa: E402
from extensisq import common                                      # noqa: E402

EPS = np.finfo(float).eps
RK = ['Ts5', 'BS5', 'CK5', 'CKdisc', 'Pr7', 'Pr8', 'Pr9', 'CFMR7osc', 'Me4']
NYS = ['Fi4N', 'Fi5N', 'Mu5Nmb', 'MR6NN']
ESD = ['TRBDF2', 'TRX2', 'KC3I', 'KC4I', 'KC4Ia', 'Kv3I']
ALL = RK + NYS + ESD + ['SWAG', 'SSV2stab']
KIND = {**{c: 'rk' for c in RK}, **{c: 'nys' for c in NYS},
        **{c: 'esd' for c in ESD}, 'SWAG': 'swag', 'SSV2stab': 'ssv'}
VARIANTS = {'BS5': [{'interpolant': 'best'}, {'interpolant': 'free'}],
            'Fi5N': [{'interpolant': 1}, {'interpolant': 2}, {'interpolant': 3}],
            'Mu5Nmb': [{'interpolant': 'free'}, {'scale_embedded': False}],
            'KC3I': [{'interpolant': 'C1'}], 'KC4I': [{'interpolant': 'C1'}],
            'KC4Ia': [{'interpolant': 'C1'}], 'Kv3I': [{'interpolant': 'C1'}],
            'SWAG': [{'k_max': 3}, {'k_max': 1}], 'SSV2stab': [{'const_jac': True}]}


class Hang(Exception):
    pass


class CallLimit(Exception):
    pass


def cls(name):
    return getattr(xq, name)


def cubic(C):
    """an implicit method without an interpolant of its own"""
    from extensisq.common import ESDIRK
    if not isinstance(C, type) or not issubclass(C, ESDIRK):
        return C

    class Plain(C):
        P = NotImplemented

        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            self.P = NotImplemented
        _dense_output_impl = ESDIRK._dense_output_impl
    return Plain


# ------------------------------------------------------------------ problems
def _mat(seed, n, sym=False):
    r = np.random.default_rng(seed)
    a = r.uniform(-1, 1, (n, n))
    return (a + a.T) / 2 if sym else a


def make(p):
    """problem dict -> (fun, jac or None)"""
    k = p['name']
    if k == 'decay':
        lam = np.asarray(p['lam'], float)
        return (lambda t, y: -lam * y), (lambda t, y: -np.diag(np.broadcast_to(lam, y.shape)))
    if k == 'rot':
        w = p['w']
        J = np.array([[0, w], [-w, 0.]])
        return (lambda t, y: J @ y), (lambda t, y: J)
    if k == 'vdp':
        mu = p['mu']
        return (lambda t, y: np.array([y[1], mu * (1 - y[0]**2) * y[1] - y[0]])), \
            (lambda t, y: np.array([[0., 1.], [-2 * mu * y[0] * y[1] - 1, mu * (1 - y[0]**2)]]))
    if k == 'logistic':
        return (lambda t, y: y * (1 - y)), (lambda t, y: np.diag(1 - 2 * y))
    if k == 'forced':
        a = p.get('a', 1.)
        return (lambda t, y: -a * (y - np.cos(t)) + 0.1 * t), \
            (lambda t, y: -a * np.eye(len(y)))
    if k == 'poly':
        c = p['c']

        def f(t, y):
            return np.full(len(y), np.polyval(c[::-1], t))
        return f, lambda t, y: np.zeros((len(y), len(y)))
    if k == 'linpoly':
        return (lambda t, y: -y + 1 + t), (lambda t, y: -np.eye(len(y)))
    if k == 'kink':
        ts, a = p['ts'], p['a']
        return (lambda t, y: -y + (a if t > ts else 0.)), (lambda t, y: -np.eye(len(y)))
    if k == 'linear':
        A = _mat(p['seed'], p['n'], p.get('sym', False)) * p.get('scale', 1.)
        A = A - p.get('shift', 0.) * np.eye(p['n'])
        b = _mat(p['seed'] + 1, p['n'])[0]
        return (lambda t, y: A @ y + b * np.sin(t)), (lambda t, y: A)
    if k == 'blow':
        return (lambda t, y: y * y), (lambda t, y: np.diag(2 * y))
    if k == 'growth':
        a = p['a']
        return (lambda t, y: a * y), (lambda t, y: a * np.eye(len(y)))
    if k in ('nanafter', 'infafter', 'bigafter'):
        ts, s = p['ts'], p.get('s', 1)
        bad = {'nanafter': np.nan, 'infafter': np.inf, 'bigafter': 1e306}[k]
        return (lambda t, y: np.full(len(y), bad) if s * (t - ts) > 0 else -y), \
            (lambda t, y: -np.eye(len(y)))
    if k == 'nanabove':
        return (lambda t, y: np.where(np.abs(y) > p['lim'], np.nan, y)), \
            (lambda t, y: np.eye(len(y)))
    if k == 'huge':
        return (lambda t, y: np.full(len(y), p['v'])), (lambda t, y: np.zeros((len(y), len(y))))
    if k == 'zero':
        return (lambda t, y: 0. * y), (lambda t, y: np.zeros((len(y), len(y))))
    if k == 'const':
        return (lambda t, y: np.ones(len(y))), (lambda t, y: np.zeros((len(y), len(y))))
    if k == 'rough':
        w, a = p['w'], p['a']
        return (lambda t, y: -y + a * np.sign(np.sin(w * t))), (lambda t, y: -np.eye(len(y)))
    if k == 'noise':                                # deterministic, not smooth
        def f(t, y):
            v = zlib.crc32(np.float64(t).tobytes()) / 2**32 - 0.5
            return -y + p['a'] * v
        return f, (lambda t, y: -np.eye(len(y)))
    if k == 'rober':
        def f(t, y):
            a, b, c = 0.04 * y[0], 1e4 * y[1] * y[2], 3e7 * y[1]**2
            return np.array([-a + b, a - b - c, c])

        def j(t, y):
            return np.array([[-.04, 1e4 * y[2], 1e4 * y[1]],
                             [.04, -1e4 * y[2] - 6e7 * y[1], -1e4 * y[1]], [0, 6e7 * y[1], 0]])
        return f, j
    if k == 'heat':
        n, a = p['n'], p['a']

        def f(t, y):
            d = -2 * y
            d[1:] += y[:-1]
            d[:-1] += y[1:]
            return a * d + np.sin(t)
        J = a * (np.diag(np.full(n, -2.)) + np.diag(np.ones(n - 1), 1) + np.diag(np.ones(n - 1), -1))
        return f, lambda t, y: J
    if k == 'complex':
        w = p['w'] * 1j + p.get('r', 0.)
        return (lambda t, y: w * y), (lambda t, y: w * np.eye(len(y)))
    # second order problems
    if k == 'osc':
        w2 = np.asarray(p['w'], float)**2
        n = len(p['y0']) // 2
        return (lambda t, y: np.concatenate((y[n:], -w2 * y[:n] + p.get('f', 0.) * np.sin(t)))), None
    if k == 'damped':
        n = len(p['y0']) // 2
        return (lambda t, y: np.concatenate(
            (y[n:], -p['w']**2 * y[:n] - p['c'] * y[n:] * np.abs(y[n:]) ** p.get('e', 0)))), None
    if k == 'kepler':
        def f(t, y):
            r3 = (y[0]**2 + y[1]**2)**1.5
            return np.array([y[2], y[3], -y[0] / r3, -y[1] / r3])
        return f, None
    if k == 'fall':
        n = len(p['y0']) // 2
        return (lambda t, y: np.concatenate((y[n:], np.full(n, np.polyval(p['c'][::-1], t))))), None
    if k in ('nysnan', 'nysinf'):
        n = len(p['y0']) // 2
        bad = np.nan if k == 'nysnan' else np.inf
        s = p.get('s', 1)
        return (lambda t, y: np.concatenate(
            (y[n:], np.full(n, bad) if s * (t - p['ts']) > 0 else -y[:n]))), None
    if k == 'nysblow':
        n = len(p['y0']) // 2
        return (lambda t, y: np.concatenate((y[n:], y[:n]**3))), None
    if k == 'nysrough':
        n = len(p['y0']) // 2
        return (lambda t, y: np.concatenate(
            (y[n:], -y[:n] + p['a'] * np.sign(np.sin(p['w'] * t)) * np.ones(n)))), None
    raise KeyError(k)


def y0_of(p):
    y = np.array(p['y0'], float)
    if 'y0im' in p:
        y = y + 1j * np.array(p['y0im'], float)
    return y


def decode(opts, p, jac):
    o = {}
    for k, v in opts.items():
        if k == 'sc_params' and isinstance(v, list):
            v = tuple(v)
        elif k == 'max_step' and v == 'inf':
            v = np.inf
        elif k == 'jac' and v == 'fun':
            v = jac
        elif k == 'jac' and v == 'array':
            v = jac(p['t0'], y0_of(p))
        elif k == 'jac' and v == 'sparse':
            from scipy.sparse import csc_array
            v = csc_array(jac(p['t0'], y0_of(p)))
        elif k == 'jac' and v == 'sparsefun':
            from scipy.sparse import csc_array

            def v(t, y):
                return csc_array(jac(t, y))
        elif k == 'rho_jac':
            def v(t, y, r=float(opts['rho_jac'])):
                return r
        elif k == 'M':
            v = np.array(v, float)
            if opts.get('_Msparse'):
                from scipy.sparse import csc_array
                v = csc_array(v)
        elif k.startswith('_'):
            continue
        elif k == 'atol' and isinstance(v, list):
            v = np.array(v, float)
        o[k] = v
    return o


class Rec:
    """one step"""
    pass


class Run:
    def __init__(self, scn, fun=None, steps=400, limit=200000, dense=None, secs=20,
                 each=None, ctor_only=False, keep_f=True):
        self.scn = scn
        p = self.p = scn['prob']
        base, self.jac = make(p)
        if fun is not None:
            base = fun
        self.base = base
        self.calls = []
        self.limit = limit

        def f(t, y):
            if len(self.calls) >= self.limit:
                raise CallLimit(f'{self.limit} evaluations')
            r = base(t, y)
            self.calls.append((float(t), np.array(y, copy=True), np.array(r, copy=True)))
            return r
        self.fun = f
        self.exc = None
        self.hang = False
        self.steps = []
        self.s = None
        self.warnings = []
        dense = scn.get('dense', False) if dense is None else dense
        self.opts = decode(scn.get('opts', {}), p, self.jac)
        self.jac_calls = 0
        if callable(self.opts.get('jac')):
            uj = self.opts['jac']

            def cj(t, y):
                self.jac_calls += 1
                return uj(t, y)
            self.opts['jac'] = cj
        old = signal.signal(signal.SIGALRM, self._alarm)
        signal.alarm(secs)
        try:
            with warnings.catch_warnings(record=True) as w, np.errstate(all='ignore'):
                warnings.simplefilter('always')
                self.y0 = y0_of(p)
                C = cls(scn['cls'])
                if scn.get('base'):
                    C = cubic(C)
                self.s = s = C(f, p['t0'], self.y0, p['tb'], **self.opts)
                self.n_ctor = len(self.calls)
                self.ctor = dict(nfev=s.nfev, njev=s.njev, nlu=s.nlu, nfs=int(xq.NFS[()]),
                                 jac_calls=self.jac_calls,
                                 h=getattr(s, 'h_abs', getattr(s, 'h', getattr(s, 'absh', None))))
                while not ctor_only and s.status == 'running' and len(self.steps) < steps:
                    r = Rec()
                    r.i0 = len(self.calls)
                    r.t_old, r.y_old_ref, r.y_old = s.t, s.y, np.array(s.y, copy=True)
                    r.h_pre = getattr(s, 'h_abs', None)
                    r.std = getattr(s, 'standard_sc', None)
                    r.maxf = getattr(s, 'max_factor', None)
                    r.f_pre = self._carried()
                    r.k_pre = getattr(s, 'k', None)
                    r.swag_h_pre = getattr(s, 'h', None)
                    r.nfs0 = int(xq.NFS[()])
                    r.nfi0 = int(xq.NFI[()])
                    r.nrej0 = self._nrej()
                    r.nfev0, r.njev0, r.nlu0 = s.nfev, s.njev, s.nlu
                    r.jc0 = self.jac_calls
                    r.msg = s.step()
                    r.status = s.status
                    r.ok = s.status != 'failed'
                    r.i1 = len(self.calls)
                    r.t, r.y_ref, r.y = s.t, s.y, np.array(s.y, copy=True)
                    r.h_post = getattr(s, 'h_abs', None)
                    r.h_prev = getattr(s, 'h_previous', getattr(s, 'hold', None))
                    r.f = self._carried()
                    r.K = None if getattr(s, 'K', None) is None else s.K.copy()
                    r.J, r.hLU = getattr(s, 'J', None), getattr(s, 'h_LU', None)
                    r.nfs, r.nfi = int(xq.NFS[()]), int(xq.NFI[()])
                    r.nrej = self._nrej()
                    r.nfev, r.njev, r.nlu = s.nfev, s.njev, s.nlu
                    r.jc = self.jac_calls
                    r.kold = getattr(s, 'kold', None)
                    r.k = getattr(s, 'k', None)
                    r.swag_h = getattr(s, 'h', None)
                    r.order_acc = getattr(s, 'order_accepted', None)
                    r.maxf1 = getattr(s, 'max_factor', None)
                    r.std1 = getattr(s, 'standard_sc', None)
                    r.dense = None
                    if dense and r.ok and s.t != r.t_old:
                        r.dense = s.dense_output()
                    r.i2 = len(self.calls)
                    self.steps.append(r)
                    if each is not None:
                        each(self, r)
                self.warnings = [str(x.message)[:80] for x in w]
        except Hang:
            self.hang = True
        except CallLimit as e:
            self.hang = True
        except Exception as e:
            import traceback
            self.exc = f'{type(e).__name__}: {e}'[:300]
            self.tb = traceback.format_exc()[-1200:]
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        self.status = self.s.status if self.s is not None else 'none'

    def _nrej(self):
        try:
            from extensisq import sommeijer
            return int(sommeijer.nrejct[()])
        except Exception:
            return None

    def _alarm(self, *a):
        raise Hang()

    def _carried(self):
        s = self.s
        k = KIND[self.scn['cls']]
        if k in ('rk', 'nys'):
            return np.array(s.f, copy=True)
        if k in ('esd', 'swag'):
            return np.array(s.yp, copy=True)
        return np.array(s.W[1], copy=True)

    @property
    def good(self):
        return [r for r in self.steps if r.ok]

    def step_calls(self, r):
        return self.calls[r.i0:r.i1]


# --------------------------------------------------------- reference formulas
def rms(x):
    x = np.asarray(x)
    return float(np.sqrt(np.mean(np.abs(x)**2))) if x.size else 0.


def wts(s, y, yn, mean=False):
    if mean:
        return s.atol + s.rtol * 0.5 * (abs(y) + abs(yn))
    return s.atol + s.rtol * np.maximum(abs(y), abs(yn))


class RKRef:
    """the method that the class declares (E scaled for Mu5Nmb as documented)"""

    def __init__(self, run):
        self.run = run
        c = cls(run.scn['cls'])
        self.c = c
        self.s = c.n_stages
        self.nys = KIND[run.scn['cls']] == 'nys'
        self.E = np.array(c.E)
        if self.nys:
            self.Ap = np.array(c.Ap) if isinstance(c.Ap, np.ndarray) else np.zeros((self.s, self.s))
            self.Ep = np.array(c.Ep)
            if run.scn['cls'] == 'Mu5Nmb' and run.scn.get('opts', {}).get('scale_embedded', True):
                self.E, self.Ep = self.E * .75, self.Ep * .75
        self.fsal = bool(c.E[self.s]) or (self.nys and bool(c.Ep[self.s]))

    def f(self, t, y):
        r = np.asarray(self.run.base(t, y))
        return r[len(y) // 2:] if self.nys else r

    def stages(self, t, y, h, upto=None):
        c = self.c
        m = len(y) // 2
        K = [self.f(t, y)]
        for i in range(1, upto or self.s):
            if self.nys:
                dt = c.C[i] * h
                du = sum(c.A[i, j] * K[j] for j in range(i)) * h**2 + dt * y[m:]
                dv = sum(self.Ap[i, j] * K[j] for j in range(i)) * h
                K.append(self.f(t + dt, y + np.concatenate((du, dv))))
            else:
                K.append(self.f(t + c.C[i] * h, y + h * sum(c.A[i, j] * K[j] for j in range(i))))
        return K

    def step(self, t, y, h):
        c = self.c
        m = len(y) // 2
        K = self.stages(t, y, h)
        if self.nys:
            yn = y + np.concatenate((
                h**2 * sum(b * k for b, k in zip(c.B, K)) + h * y[m:],
                h * sum(b * k for b, k in zip(c.Bp, K))))
        else:
            yn = y + h * sum(b * k for b, k in zip(c.B, K))
        K.append(self.f(t + h, yn))
        return np.array(K), yn

    def err(self, K, h):
        n = self.s + 1 if self.fsal else self.s
        if self.nys:
            return np.concatenate((h**2 * (K[:n].T @ self.E[:n]), h * (K[:n].T @ self.Ep[:n])))
        return h * (K[:n].T @ self.E[:n])

    def noise(self, K, h, scale, y):
        """rounding level of the scaled error norm"""
        a = np.max(np.abs(K)) * np.sum(np.abs(self.E)) * abs(h)
        if self.nys:
            a = max(a * abs(h), np.max(np.abs(K)) * np.sum(np.abs(self.Ep)) * abs(h))
        return 30 * EPS * a / np.min(scale)


def the_h(r):
    """the step size used: h_previous when consistent with the time values"""
    d = r.t - r.t_old
    u = 4 * EPS * max(abs(r.t), abs(r.t_old))
    if r.h_prev is not None and abs(r.h_prev - d) <= u:
        return float(r.h_prev)
    return float(d)


def close(a, b, rtol, atol):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))))

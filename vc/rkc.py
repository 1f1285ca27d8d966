"""Contracts of the stabilised method SSV2stab (Runge-Kutta-Chebyshev).

The step function runs on the contracts of the stage recurrence and of the
spectral radius estimate; those are verified on their own bodies."""
import sys
import numpy as np
from . import sym as sy
from . import engine as en
from . import driver as dr
from . import shims as sh
from . import rk
from .sym import S, PathEnd
from fractions import Fraction

CLS = 'SSV2stab'
RES = Fraction(float(np.finfo(float).epsneg))


def has(s, name, n):
    import inspect
    f = getattr(type(s), name, None)
    return f is not None and len(inspect.signature(f).parameters) == n + 1


def spoil(a, name):
    a[...] = sy.value(name, a.shape)


def rename(frame, pairs):
    """replace values of local variables of the calling function"""
    import ctypes
    loc = frame.f_locals
    for k, v in list(loc.items()):
        if isinstance(v, S):
            for old, new in pairs:
                if v.same(old):
                    loc[k] = new
                elif v.same(-old):
                    loc[k] = -new
    ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(frame), ctypes.c_int(0))


def limited(c, s, habs):
    """lemma: the step that m = mmax stages allow is not longer than the one
    that needed more stages"""
    if len(habs.p) != 1 or len(habs.atoms()) != 1:
        return False
    a = sy.ATOMS[list(habs.atoms())[0]]
    if a.name != 'quot':
        return False
    num, den = a.args
    ids = set()
    for b in c.pc:
        sy.b_atoms(b, ids)
    for i in sorted(ids):
        if sy.ATOMS[i].name != 'isqrt':
            continue
        k = S({((i, 1),): Fraction(1)})
        u = sy.ATOMS[i].args[0]                         # 1 + den P, k >= mmax
        M = sy.lift(s.mmax)
        P = (u - 1) * den.inverse()
        # instance of the lemma proved in limit_lemma
        if num.same(M * M - 1) and c.implied(sy.cmp0(den, '>')) and \
                all(sy.ATOMS[j].integer for j in M.atoms()) and \
                c.implied(sy.cmp0(k - M + 1, '>')) and not P.same(habs):
            c.assume(sy.cmp0(P - habs, '>='))
    return True


def limit_lemma(c):
    """k^2 <= 1 + e P, k >= M >= 1 (integers with k > M - 1),
    e > 0, q e = M^2 - 1  =>  q <= P"""
    k, e, P, M, q = (sy.sym(x) for x in 'kePMq')
    for b in (k - M, M - 1, 1 + e * P - k * k):
        c.assume(sy.cmp0(b, '>='))
    c.assume(sy.cmp0(e, '>'))
    c.assume(sy.cmp0(q * e - M * M + 1, '=='))
    c.assume(sy.cmp0(k * k - M * M - (k - M) * (k + M), '=='))
    c.prove('C20 lemma: k^2 >= M^2', sy.cmp0((k - M) * (k + M), '>='))
    c.assume(sy.cmp0((k - M) * (k + M), '>='))
    c.prove('C20 lemma: e P >= e q', sy.cmp0(e * (P - q), '>='))
    x = sy.sym('P-q')
    c.assume(sy.cmp0(e * x, '>='))
    c.prove('C20 lemma: P >= q', sy.cmp0(x, '>='))


def smallest(s, v, t, h, m):
    """v is at most the documented smallest step: sqrt(smallest number), or
    4/3 (m^2 - 1) times the rounding error of the times"""
    return sy.disj(sy.cmp0(v - rk.fr(s.sqrtmin), '<='), *(sy.cmp0(
        v - 30 * RES * (x + h) * (sy.lift(m) * m - 1), '<=') for x in (sy.lift(t), -sy.lift(t))))


def cut(c, s, frame, h, m, props):
    """an intermediate assertion: what the rest of the step may know about the
    step size H, the number of stages and the values computed from them.  They
    get names, about which only those of these facts are assumed that were
    proved; the rest of what is known since the loop head is dropped."""
    habs = h * int(s.direction)
    d = abs(sy.lift(s.t_bound - s.t))
    m = sy.lift(m)
    c.forks = False
    H = sy.sym('H', fp=True)
    k = sy.sym('M', integer=True)
    facts = []
    limited(c, s, habs)
    want = [lambda v: sy.cmp0(v, '>'),
            lambda v: sy.cmp0(v - s.max_step, '<='),
            lambda v: sy.cmp0(v - d, '<=')]
    if 'C01' in props:
        want.append(lambda v: sy.disj(
            sy.conj(sy.cmp0(v - s.t * (2 * RES), '>='), sy.cmp0(v + s.t * (2 * RES), '>=')),
            sy.cmp0(v - d, '>=')))
    facts += [f(H) for f in want if c.implied(f(habs))]
    want = [lambda v: sy.cmp0(v - 2, '>='), lambda v: sy.cmp0(v - s.mmax, '<=')]
    facts += [f(k) for f in want if c.implied(f(m))]
    new = {}
    loc = frame.f_locals
    for name in sorted(loc):
        v = loc[name]
        if isinstance(v, (S, float)) and not name.startswith('__') and not sy.is_special(v):
            v = sy.lift(v)
            if v.same(m):
                new[name] = k
            elif name in ('absh', 'h') and v.same(habs):
                new[name] = H
            elif name in ('absh', 'h') and v.same(h):
                new[name] = H * int(s.direction)
            elif v.same(s.t) or not (set(v.atoms()) or v.same(sy.lift(s.sqrtmin))):
                pass
            else:
                new[name] = sy.sym('.' + name, fp=True)
                if name == 'hmin':
                    facts += [f(a, b, e) for f, (a, b, e), ok in (
                        (f, (new[name], H, k), c.implied(f(v, habs, m))) for f in (
                            lambda v, h, m: sy.cmp0(v, '>'),
                            lambda v, h, m: smallest(s, v, s.t, h, m))) if ok]
        elif v is m:
            new[name] = k
    for name, v in new.items():
        loc[name] = v
    import ctypes
    ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(frame), ctypes.c_int(0))
    for name, a in dr.package().cells.items():
        if isinstance(a[()], S) and len(a[()].p) > 1 or len(a[()].atoms() if isinstance(a[()], S) else ()) > 1:
            a[()] = sy.sym('.' + name, integer=True)
            facts.append(sy.cmp0(a[()], '>='))
    if isinstance(s.mlim, (S, int)):
        s.mlim = sy.sym('.mlim', integer=True)
    if isinstance(s.sprad, S) and not any(sy.ATOMS[i].kind == 'app' for i in s.sprad.atoms()):
        ge = c.implied(sy.cmp0(s.sprad, '>='))
        s.sprad = sy.sym('.sprad', fp=True)
        if ge:
            facts.append(sy.cmp0(s.sprad, '>='))
    elif isinstance(s.sprad, S) and c.implied(sy.cmp0(s.sprad, '>=')):
        facts.append(sy.cmp0(s.sprad, '>='))

    def keep(i, b):
        return i < c.headpos
    c.forget(keep)
    for f in facts:
        c.assume(f)
    c.merge(en.fingerprint(c, frame.f_locals))
    return H * int(s.direction), k


class Stages:
    cut = False

    """contract of _stages: y is the result of the m-stage formula, a function
    of (t, y_n, f_n, h, m); two arrays are scratch; m - 1 evaluations"""

    def __init__(self, c, s, prob, obs):
        self.c, self.s, self.prob, self.obs = c, s, prob, obs
        self.calls = []

    def __call__(self, t, yn, fn, h, m, y, yjm1, yjm2):
        c, s = self.c, self.s
        self.obs.stage_called(c, s, t, yn, fn, h, m, y)
        h = sy.lift(h)
        if self.cut:
            h, m = cut(c, s, sys._getframe(1), h, m, self.obs.props)
        arg = [t] + list(yn) + list(fn) + [h, m]
        for i in range(len(y)):
            y[i] = sy.app(f'RKC{i}', arg)
        spoil(yjm1, 'yjm1')
        spoil(yjm2, 'yjm2')
        s.nfev = s.nfev + (m - 1)
        if 'nfev' in c.tracked.get('ghost', {}):
            c.tracked['ghost']['nfev'] = c.tracked['ghost']['nfev'] + m - 1
        self.calls.append(dict(t=t, h=h, m=m, y=y.copy(), sprad=s.sprad))


class Rho:
    """contract of _rho: None, or a non-negative number; two arrays are
    scratch, evaluations are counted separately"""

    def __init__(self, c, s):
        self.c, self.s = c, s
        self.calls = []

    def __call__(self, t, yn, fn, v, fv):
        c, s = self.c, self.s
        spoil(v, 'v')
        spoil(fv, 'fv')
        s.V = sy.value('V', (s.n,))
        cell = dr.package().cells['nfesig']
        k = sy.fresh('rho_evals', integer=True)
        c.assume(sy.cmp0(k - 1, '>='))
        cell[()] = cell[()] + k
        self.calls.append(k)
        if c.choose(['number', 'None'], 'spectral radius'):
            return None
        r = sy.fresh('sprad', fp=True)
        c.assume(sy.cmp0(r, '>='))
        return r


class RhoJac:
    """the user's bound: a positive float that depends on (t, y)"""

    def __call__(self, t, y):
        c = sy.ctx()
        r = sy.app('rho_jac', [t] + list(np.asarray(y, object)), vec=False)
        c.assume(sy.cmp0(r, '>'))
        return r


def finite_by_norm(c, y):
    """a norm that is neither nan nor inf has finite terms: every value that is
    a factor of a term (not only of a denominator) poisons the norm otherwise"""
    nan, inf = set(), set()
    for b in c.pc:
        x = b.args[0] if b.op == 'not' else None
        if x is not None and x.op == 'pred' and x.args[0] in ('isnan', 'isinf'):
            (nan if x.args[0] == 'isnan' else inf).update(x.args[1].atoms())
    ok = set()
    for i in nan & inf:
        if sy.ATOMS[i].kind == 'sqrt':
            for m in sy.ATOMS[i].args[0].p:
                ok |= {a for a, e in m if e > 0}
    return all(isinstance(v, S) and len(v.p) == 1 and set(v.atoms()) <= ok for v in y)


class InitStep:
    """contract of _init_step_size: positive, at most max_step or the smallest
    step; one evaluation; two arrays are scratch"""

    def __init__(self, c, s):
        self.c, self.s = c, s

    def __call__(self, t, yn, fn, v1, v2):
        c, s = self.c, self.s
        spoil(v1, 'v1')
        spoil(v2, 'v2')
        s.nfev = s.nfev + 1
        if 'nfev' in c.tracked.get('ghost', {}):
            c.tracked['ghost']['nfev'] = c.tracked['ghost']['nfev'] + 1
        h = sy.fresh('h_init', fp=True)
        c.assume(sy.cmp0(h, '>'))
        return h


def generalise(c, s, name, facts, integer=False):
    """the steps are proved for every value with these properties, which the
    value that the constructor computes is proved to have"""
    v = getattr(s, name, None)
    if not isinstance(v, (S, int, float)) or isinstance(v, bool) or sy.is_special(v):
        return
    for label, f in facts:
        c.prove(f'{label}', f(sy.lift(v)))
    g = sy.fresh(name, integer=integer, fp=True)
    for _, f in facts:
        c.assume(f(g))
    setattr(s, name, g)


class Counted(dr.Problem):
    def __call__(self, t, y):
        c = sy.ctx()
        g = c.tracked.get('ghost') if c is not None else None
        if g is not None and 'nfev' in g:
            g['nfev'] = g['nfev'] + 1
        return super().__call__(t, y)


class RkcObserver(dr.Observer):
    def __init__(self, props, opts):
        self.props, self.opts = set(props), dict(opts or {})
        if 'C04' in self.props:
            self.ghost = {'e': sy.lift(1), 'h': sy.lift(1)}

    def start(self, c, s, prob, kw):
        self.kw = kw
        if 'C22' in self.props:
            for k, cell in dr.package().cells.items():
                if k in ('nrejct', 'NFS', 'nfesig', 'maxm'):
                    c.prove_eq(f'C22 constructor resets {k}', cell[()], 0)
            c.prove('C22 constructor: counted evaluations are the real ones',
                    c.is_equal(s.nfev, len(prob.calls))[0] == 'proved')
            c.tracked.setdefault('ghost', {})['nfev'] = sy.lift(s.nfev)
        s.V = sy.value('V', (s.n,))
        self.stage = self.rho = None
        if has(s, '_stages', 8):
            self.stage = s._stages = Stages(c, s, prob, self)
        if has(s, '_rho', 5):
            self.rho = s._rho = Rho(c, s)
        if has(s, '_init_step_size', 5):
            s._init_step_size = InitStep(c, s)
        k = sorted(self.props)[0]
        generalise(c, s, 'max_step', [
            (f'{k} bound on the step is positive', lambda v: sy.cmp0(v, '>')),
            (f'{k} bound on the step is at most max_step',
             lambda v: sy.cmp0(v - kw['max_step'], '<=') if 'max_step' in kw else sy.TRUE),
            (f'{k} bound on the step is at most the interval',
             lambda v: sy.cmp0(v - abs(sy.lift(s.t_bound - s.t)), '<='))])
        generalise(c, s, 'mmax', [(f'{k} limit on the stages', lambda v: sy.cmp0(v - 2, '>='))], True)
        generalise(c, s, 'hmin', [(f'{k} smallest step', lambda v: sy.cmp0(v, '>'))])

    def before(self, c, s, prob):
        pre = super().before(c, s, prob)
        for k in ('absh', 'hold', 'errold', 'sprad', 'nfev', 'jacatt', 'newspc'):
            pre[k] = getattr(s, k, None)
        pre['f'] = prob.spec(s.t, s.y)
        if self.stage:
            self.stage.calls = []
        if self.rho:
            self.rho.calls = []
        prob.calls = []
        c.exited.clear()
        return pre

    def stage_called(self, c, s, t, yn, fn, h, m, y):
        if 'C20' in self.props:
            f = c.prob.spec(s.t, s.y)
            c.prove_eq('C20 stages start from the current time', t, s.t)
            c.prove_eq('C20 stages start from the current state', np.array(yn, object), s.y)
            c.prove_eq('C20 stages start from the current derivative', np.array(fn, object), f)
            c.prove('C20 at least two stages', sy.cmp0(sy.lift(m) - 2, '>='))
            c.prove('C20 not more stages than the limit', sy.cmp0(sy.lift(m) - s.mmax, '<='))
            rho = s.sprad
            if isinstance(self.kw.get('rho_jac'), RhoJac):
                now = sy.app('rho_jac', [s.t] + list(s.y), vec=False)
                if not self.kw.get('const_jac'):
                    c.prove_eq("C20 the user's spectral radius is used as given", rho, now)
            c.prove('C20 the step is inside the stability interval of m stages',
                    sy.cmp0(abs(h) * rho * rk.fr(1.54) - (sy.lift(m) * m - 1), '<='))

    def after(self, c, s, prob, pre, msg):
        P = self.props
        ok = s.status != 'failed'
        mode = c.loopstack[0][0] if c.loopstack else ''
        c.covered(f'{"success" if ok else "failure: " + str(msg)[:30]} [{mode}]')
        h = s.t - pre['t']
        d = s.direction
        if 'C10' in P:
            if ok:
                c.prove('C10 accepted state is finite', finite_by_norm(c, s.y) or sh.finite_pred(s.y))
                c.prove('C10 no message on success', msg is None)
            else:
                c.prove('C10 failure carries a message', isinstance(msg, str) and bool(msg))
                c.prove_eq('C10 failure leaves t', s.t, pre['t'])
                c.prove_eq('C10 failure leaves y', s.y, pre['ycopy'])
        if 'C22' in P:
            c.prove_eq('C22 counted function evaluations', s.nfev, c.tracked['ghost']['nfev'])
        if not ok:
            return
        if 'C01' in P:
            c.prove('C01 strictly monotone', sy.cmp0(d * h, '>'))
            c.prove('C01 never past t_bound', sy.cmp0(d * (s.t_bound - s.t), '>='))
            if s.status == 'finished':
                c.prove_eq('C01 finished means t == t_bound', s.t, s.t_bound)
            c.prove_eq('C01 t_old is the previous time', s.t_old, pre['t'])
            c.prove('C01 accepted steps are above the resolution of time', sy.disj(
                sy.cmp0(abs(h) - abs(pre['t']) * RES, '>'), sy.cmp0(s.t - s.t_bound, '==')))
        if 'C02' in P:
            c.prove('C02 step <= max_step', sy.cmp0(d * h - self.kw['max_step'], '<='))
        if 'C08' in P:
            c.prove_eq('C08 the previous state array keeps its values', pre['y'], pre['ycopy'])
        if P & {'C07', 'C08'}:
            from . import dense
            o = dense.DenseObserver(type(s), self.opts, P & {'C07', 'C08'})
            o.smooth = True
            o.after(c, s, prob, pre, msg)
        if P & {'C03', 'C04', 'C20'}:
            self.values(c, s, prob, pre, h)

    def values(self, c, s, prob, pre, h):
        self.e = None
        if not self.stage or not self.stage.calls:
            return
        st = self.stage.calls[-1]
        y0, f0, y = pre['ycopy'], pre['f'], st['y']
        if 'C20' in self.props:
            c.prove_eq('C20 the accepted state is the result of the stages', s.y, y)
            c.prove_eq('C20 the stages have the size of the step', st['h'], h)
            c.prove_eq('C20 the derivative carried over is fun(t, y)', s.W[1], prob.spec(s.t, s.y))
        if self.props & {'C03', 'C04'}:
            f1 = prob.spec(s.t, y)
            est = rk.fr(.8) * (y0 - y) + rk.fr(.4) * h * (f0 + f1)
            w = rk.weights(self.kw['rtol'], self.kw['atol'], y0, y)
            e = self.e = rk.match_norm(c, sy.rms(est / w))
            if 'C03' in self.props:
                rk.implied_lt1(c, 'C03 scaled error norm < 1', e)
            if 'C04' in self.props:
                self.controller(c, s, pre, h, e)

    def controller(self, c, s, pre, h, e):
        """documented: rkc.f with a dead-beat controller"""
        if sy.is_special(e):
            return
        habs, new = abs(h), s.absh
        c.prove('C04 proposed step is positive', sy.cmp0(sy.lift(new), '>'))
        c.prove('C04 growth at most tenfold, or to the smallest step',
                sy.disj(sy.cmp0(new - 10 * habs, '<='),
                        smallest(s, sy.lift(new), pre['t'], habs, self.stage.calls[-1]['m'])))

    def ghosts(self, c, s, prob, pre, msg):
        if self.ghost is not None and s.status != 'failed' and self.e is not None \
                and not sy.is_special(self.e):
            c.tracked['ghost']['e'] = self.e
            c.tracked['ghost']['h'] = s.t - pre['t']

    def backedge(self, c, loop, base, snap):
        if loop.key[0] == 'lifecycle':
            return
        P = self.props
        if 'C10' in P and loop.mode == 'later':
            c.prove(f'C10 retry loop terminates [{loop.key[0]}]', bool(loop.info.measures))
        if 'C22' in P:
            cell = ('cell', 'NFS' if ('cell', 'NFS') in base else 'nrejct')
            d = sy.lift(snap[cell].val[()]) - sy.lift(base[cell].val[()])
            c.prove_eq('C22 one rejected attempt counts one', d, 1)
        if 'C04' in P and self.stage and self.stage.calls:
            h = abs(sy.lift(self.stage.calls[-1]['h']))
            new = snap.get(('attr', 's', 'absh'))
            if isinstance(new, S):
                c.prove('C04 retry is strictly shorter', sy.cmp0(h - new, '>'))


def setup(props, n=1, direction=1, opts=None, rho=False, first_step=None, max_step='sym'):
    opts = dict(opts or {})
    if rho:
        opts['rho_jac'] = RhoJac()
    ob = RkcObserver(props, opts)
    su = dr.Setup(CLS, n=n, direction=direction, opts=opts, first_step=first_step, max_step=max_step)

    def factory():
        return Counted(n)
    return su, ob, factory


# ------------------------------------------------------------- stage recurrence
class Recurrence:
    """Invariant of the stage loop for all m: before stage j

    z = T_k(w0), dz = T_k'(w0), d2z = T_k''(w0) for k = j-1 and j-2, written
    with C_k = cosh(k L), S_k = sinh(k L), L = log(w0 + sqrt(w0^2 - 1));
    th = w1 b dz; and for f(t, y) = lam y + g t + k the stage value is the one
    whose amplification polynomial is P = 1 - b (T_k(w0) - T_k(w0 + w1 z))."""
    NAMES = ('thjm1', 'thjm2', 'bjm1', 'bjm2', 'zjm1', 'zjm2', 'dzjm1', 'dzjm2',
             'd2zjm1', 'd2zjm2', 'w0', 'w1')

    def __init__(self, c, u):
        self.c, self.u = c, u
        self.done = False

    def stage(self, k, b, C, S_, tau):
        """values that belong to stage k"""
        u, w0, w1 = self.u, self.w0, self.w1
        D = k * S_ / self.t2
        DD = (k * k * C - w0 * D) / (self.t2 * self.t2)
        th = w1 * b * D
        P1 = -b * (C - tau)
        y = u['yn'] + P1 / u['lam'] * u['F'] + \
            (P1 / u['lam']**2 - th * u['h'] / u['lam']) * u['g']
        return dict(z=C, dz=D, d2z=DD, th=th, b=b, y=y)

    def check(self, c, env, new, old, when):
        for x, n, arr in ((new, 'jm1', 'yjm1'), (old, 'jm2', 'yjm2')):
            for k in ('z', 'dz', 'd2z', 'th', 'b'):
                c.prove_eq(f'C20 stage recurrence: {k}{n} {when}', env[k + n], x[k])
            c.prove_eq(f'C20 stage recurrence: stage value {arr} {when}', env[arr][0], x['y'])

    def entry(self, c, env):
        if not all(n in env for n in self.NAMES):
            raise en.Unsupported('other local variables')
        self.params(env)
        b = 1 / (4 * self.w0 * self.w0)
        self.check(c, env, self.stage(1, b, self.w0, self.t2, self.w0 + self.w1 * self.u['z']),
                   self.stage(0, b, sy.lift(1), sy.lift(0), sy.lift(1)), 'before stage 2')

    def params(self, env):
        c = self.c
        m = self.u['m']
        self.w0, self.w1, self.t2 = env['w0'], env['w1'], sy.sqrt(env['w0']**2 - 1)

    def arbitrary(self, c, env):
        if not all(n in env for n in self.NAMES):
            raise en.Unsupported('other local variables')
        self.params(env)
        # the loop is correct for any values of these two
        self.code_w1, self.code_w0 = self.w1, self.w0
        self.w1, self.w0 = sy.sym('w1'), sy.sym('w0')
        c.assume(sy.cmp0(self.w0 - 1, '>'))
        self.t2 = sy.sqrt(self.w0**2 - 1)
        rename(sys._getframe(2), [(self.code_w1, self.w1), (self.code_w0, self.w0)])
        m = self.u['m']
        j = self.counter = sy.sym('j', integer=True)
        c.assume(sy.cmp0(j - 2, '>='))
        c.assume(sy.cmp0(j - m, '<='))
        C, S_ = sy.sym('C'), sy.sym('S')
        t1, t0 = sy.sym('tau1'), sy.sym('tau0')
        b1, b0 = sy.sym('b1'), sy.sym('b0')
        w0, t2 = self.w0, self.t2
        self.new = self.stage(j - 1, b1, C, S_, t1)
        C0, S0 = C * w0 - S_ * t2, S_ * w0 - C * t2
        self.old = self.stage(j - 2, b0, C0, S0, t0)
        Cj, Sj = C * w0 + S_ * t2, S_ * w0 + C * t2
        Dj = j * Sj / t2
        DDj = (j * j * Cj - w0 * Dj) / (t2 * t2)
        self.Cj, self.Sj, self.Dj, self.DDj = Cj, Sj, Dj, DDj
        self.bj = DDj / (Dj * Dj)
        self.tau = 2 * (w0 + self.w1 * self.u['z']) * t1 - t0
        self.next = self.stage(j, self.bj, Cj, Sj, self.tau)
        out = {}
        for x, n, arr in ((self.new, 'jm1', 'yjm1'), (self.old, 'jm2', 'yjm2')):
            for k in ('z', 'dz', 'd2z', 'th', 'b'):
                out[k + n] = x[k]
            env[arr][0] = x['y']
        env['y'][0] = sy.value('y_before', (1,))[0]
        self.done = True
        self.u['prob'].calls = 0
        return out

    def again(self, c, env):
        self.check(c, env, self.next, self.new, 'after a stage')
        c.prove('C20 one evaluation for each stage', self.u['prob'].calls == 1)


class Affine:
    def __init__(self, lam, g, k):
        self.lam, self.g, self.k, self.calls = lam, g, k, 0

    def __call__(self, t, y):
        self.calls += 1
        out = np.empty(len(y), object)
        for i in range(len(y)):
            out[i] = self.lam * y[i] + self.g * t + self.k
        return out


def stages(ex):
    """_stages for every number of stages m"""
    ex.explore(stages_path)


def stages_path(c):
    pkg = dr.package()
    dr.reset_cells(pkg)
    su = dr.Setup(CLS, n=1, max_step=None)
    s, prob, kw = dr.build(c, su)
    lam, g, k = sy.sym('lam'), sy.sym('g'), sy.sym('k')
    f = Affine(lam, g, k)
    s.fun = f
    m = sy.sym('m', integer=True)
    c.assume(sy.cmp0(m - 2, '>='))
    h, t = sy.sym('h', fp=True), sy.sym('t', fp=True)
    yn, y, v1, v2 = (sy.vec_sym(x, 1) for x in ('yn', 'y', 'v1', 'v2'))
    fn = f(t, yn)
    u = dict(lam=lam, g=g, F=fn[0], h=h, t=t, yn=yn[0], m=m, z=lam * h, prob=f)
    yn0, fn0 = yn.copy(), fn.copy()
    r = Recurrence(c, u)
    c.rules = {'SSV2stab._stages': r}
    s._stages(t, yn, fn, h, m, y, v1, v2)
    if not r.done:
        raise en.Unsupported('stage loop not found')
    j = r.counter
    c.prove_eq('C20 the last stage is stage m', j, m)
    c.prove_eq('C20 the result is the last stage', y[0], r.next['y'])
    c.prove('C20 one evaluation for the last stage', f.calls == 1)
    c.prove_eq('C20 stages leave the current state', yn, yn0)
    c.prove_eq('C20 stages leave the current derivative', fn, fn0)
    # cosh(m L) and sinh(m L) are what the formula of w1 uses
    w0 = r.code_w0
    t2 = sy.sqrt(w0**2 - 1)
    arg = m * sh.lift1('log', None)(w0 + t2)
    ch, shn = sy.app('cosh', [arg], vec=False), sy.app('sinh', [arg], vec=False)
    D = m * shn / t2
    DD = (m * m * ch - w0 * D) / (t2 * t2)
    c.prove_eq('C20 formula of w1', r.code_w1, shn * t2 * t2 / (ch * m * t2 - w0 * shn))
    if not c.is_equal(w0, 1 + rk.fr(2) / (13 * m * m))[0] == 'proved':
        raise en.Unsupported('other damping')


def stage_lemmas(ex):
    """what the contract of the stages means: with th_m = 1 and the value of
    w1 the formula is of second order, bounded by one, and its stability
    interval is at least (m^2 - 1)/1.54"""
    ex.explore(lemmas_path)


def lemmas_path(c):
    P = 'C20 lemma: '
    m, w0, C, S_, t2 = (sy.sym(x) for x in ('m', 'w0', 'C', 'S', 't2'))
    j = sy.sym('j')
    k = c.choose(6, 'lemma')
    if k == 5:
        return limit_lemma(c)
    if k == 0:
        # induction for S_j >= j t2, C_j >= 1; base j = 1: C = w0, S = t2
        for b in (w0 - 1, t2, C - 1, S_ - j * t2, j - 1):
            c.assume(sy.cmp0(b, '>='))
        c.prove(P + 'sinh(j L) >= j sinh(L), step', sy.cmp0(S_ * w0 + C * t2 - (j + 1) * t2, '>='))
        c.prove(P + 'cosh(j L) >= 1, step', sy.cmp0(C * w0 + S_ * t2 - 1, '>='))
        # T_j', T_j'' are non-negative, non-decreasing; base T_0, T_1
        D1, D0, E1, E0 = (sy.sym(x) for x in ('D1', 'D0', 'E1', 'E0'))
        for b in (D0, D1 - D0, E0, E1 - E0, D1 - 1):
            c.assume(sy.cmp0(b, '>='))
        c.prove(P + "T_j'(w0) does not decrease", sy.cmp0(2 * w0 * D1 - D0 + 2 * C - D1, '>='))
        c.prove(P + "T_j''(w0) increases", sy.cmp0(2 * w0 * E1 - E0 + 4 * D1 - E1, '>'))
        return
    c.assume(sy.cmp0(m - 2, '>='))
    c.assume(sy.cmp0(w0 - 1, '>'))
    c.assume(sy.cmp0(t2, '>'))
    if k == 1:
        # u = w1 denominator; D = m S/t2; DD = (m^2 C - w0 D)/t2^2
        c.assume(sy.cmp0(S_, '>'))
        D = m * S_ / t2
        DD = (m * m * C - w0 * D) / (t2 * t2)
        w1 = S_ * t2 * t2 / (C * m * t2 - w0 * S_)
        b = DD / (D * D)
        c.assume(sy.cmp0(C * m * t2 - w0 * S_, '>'))
        c.prove_eq(P + 'consistent (P\'(0) = 1)', w1 * b * D, 1)
        c.prove_eq(P + 'second order (P\'\'(0) = 1)', w1 * w1 * b * DD, 1)
        return
    if k == 2:
        b, tau = sy.sym('b'), sy.sym('tau')
        c.assume(sy.cmp0(C - 1, '>='))
        c.assume(sy.cmp0(S_ - m * t2, '>='))
        c.assume(sy.cmp0(C * C - S_ * S_ - 1, '=='))
        # b = DD/D^2 = (C - w0 S/(m t2))/S^2;  |tau| <= C on the interval
        X = sy.sym('X')                                # w0 S/(m t2) >= w0
        c.assume(sy.cmp0(X - w0, '>='))
        c.assume(sy.cmp0(X - C, '<'))
        c.assume(sy.cmp0(b * S_ * S_ - C + X, '=='))
        c.assume(sy.cmp0(tau - C, '<='))
        c.assume(sy.cmp0(tau + 1, '>='))
        c.assume(sy.cmp0(S_, '>'))
        # b (C + 1)(C - 1) = C - X
        c.prove(P + 'b is positive', sy.cmp0(b, '>'))
        c.prove(P + 'b (C - 1) <= (C - 1)/(C + 1)',
                sy.cmp0(b * (C + 1) * (C - 1) - (C - 1), '<='))
        return
    if k == 3:
        # from b (C + 1) <= 1
        b, tau = sy.sym('b'), sy.sym('tau')
        for e in (C - 1, b, C - tau, tau + 1, 1 - b * (C + 1)):
            c.assume(sy.cmp0(e, '>='))
        c.prove(P + 'amplification <= 1', sy.cmp0(b * (C - tau), '>='))
        c.prove(P + 'amplification >= -1', sy.cmp0(2 - b * (C - tau), '>='))
        return
    # (w0 + 1)/w1 = (m t2 coth(m L) - 1 - d)/d, d = w0 - 1 = 2/(13 m^2).
    # facts about the functions: coth x >= 1/x + x/3 - x^3/45,
    # asinh t <= t - t^3/6 + 3 t^5/40  (x, t > 0)
    d, r = sy.sym('d'), sy.sym('r')
    s = d * (2 + d)
    R = 1 - s * Fraction(1, 6) + s * s * Fraction(3, 40)
    q = (2 + d) * Fraction(2, 13)
    c.assume(sy.cmp0(d, '>'))
    c.assume(sy.cmp0(d * 26 - 1, '<='))                # m >= 2
    c.assume(sy.cmp0(r, '>'))
    c.assume(sy.cmp0(r - R, '<='))                     # L/t2 <= R
    T = sy.sym('T')                                    # m t2 coth(m L)
    c.assume(sy.cmp0(T * r * 45 - 45 - 15 * q * r * r + q * q * r * r * r * r, '>='))
    c.prove(P + 'asinh bound is below one', sy.cmp0(R - 1, '<'))
    c.prove(P + 'stability interval >= (m^2 - 1)/1.54',
            sy.cmp0((T - 1 - d) * Fraction(154, 100) - (Fraction(2, 13) - d), '>='))


# --------------------------------------------------------- spectral radius, start
class PowerLoop:
    """Invariant of the power iteration: the last estimate is not negative;
    evaluations counted separately are the real ones; y_n and f_n unchanged"""

    def __init__(self, c, u):
        self.c, self.u, self.done = c, u, False

    def same(self, c, when):
        u = self.u
        c.prove_eq(f'C20 spectral radius: counted evaluations {when}',
                   dr.package().cells['nfesig'][()] - u['count'], u['prob'].calls)
        c.prove_eq(f'C20 spectral radius: current state unchanged {when}', u['yn'], u['yn0'])
        c.prove_eq(f'C20 spectral radius: current derivative unchanged {when}', u['fn'], u['fn0'])

    def entry(self, c, env):
        if 'sigma' not in env:
            raise en.Unsupported('other local variables')
        c.prove('C20 spectral radius: estimate is not negative before', sy.cmp0(sy.lift(env['sigma']), '>='))
        self.same(c, 'before')

    def arbitrary(self, c, env):
        if 'sigma' not in env:
            raise en.Unsupported('other local variables')
        self.done = True
        k = self.counter = sy.sym('iter', integer=True)
        c.assume(sy.cmp0(k, '>='))
        sg = sy.sym('sigma_old')
        c.assume(sy.cmp0(sg, '>='))
        if c.branch(sy.cmp0(k, '==')):
            sg = sy.lift(0)
        self.u['v'][:] = sy.value('v_k', self.u['v'].shape)
        self.u['fv'][:] = sy.value('fv_k', self.u['v'].shape)
        cell = dr.package().cells['nfesig']
        self.u['count'] = sy.sym('nfesig_k', integer=True)
        cell[()] = self.u['count']
        self.u['prob'].calls = 0
        return {'sigma': sg}

    def again(self, c, env):
        c.prove('C20 spectral radius: estimate is not negative after', sy.cmp0(sy.lift(env['sigma']), '>='))
        c.prove('C20 spectral radius: one evaluation for each iteration', self.u['prob'].calls == 1)
        self.same(c, 'after')


class Anything:
    """a right-hand side, function of (t, y)"""

    def __init__(self):
        self.calls, self.args = 0, []

    def __call__(self, t, y):
        self.calls += 1
        self.args.append((t, np.array(y, object)))
        out = np.empty(len(y), object)
        for i in range(len(y)):
            out[i] = sy.app(f'f{i}', [t] + list(y))
        return out


def solver(c, n, max_step=None):
    pkg = dr.package()
    dr.reset_cells(pkg)
    su = dr.Setup(CLS, n=n, max_step=max_step)
    s, prob, kw = dr.build(c, su)
    f = Anything()
    s.fun = s.fun_single = f
    t = sy.sym('t', fp=True)
    s.t = t
    yn, fn, v1, v2 = (sy.vec_sym(x, n) for x in ('yn', 'fn', 'v1', 'v2'))
    s.max_step, s.hmin = sy.sym('max_step', fp=True), sy.sym('hmin', fp=True)
    c.assume(sy.cmp0(s.max_step, '>'))
    c.assume(sy.cmp0(s.hmin, '>'))
    return s, kw, f, t, yn, fn, v1, v2


def others(s, changed):
    from . import frames
    return {k: v for k, v in frames.state(s).items() if k not in changed}


def spectral_radius(ex, n=2, first=True):
    def path(c):
        from . import frames
        s, kw, f, t, yn, fn, v, fv = solver(c, n)
        if not first:
            s.V = sy.vec_sym('V', n)
        before = others(s, ('V',))
        u = dict(prob=f, yn=yn, fn=fn, yn0=yn.copy(), fn0=fn.copy(), v=v, fv=fv, count=0)
        r = PowerLoop(c, u)
        c.rules = {'SSV2stab._rho': r}
        out = s._rho(t, yn, fn, v, fv)
        if not r.done:
            raise en.Unsupported('iteration not found')
        r.same(c, 'at the end')
        if out is not None:
            c.prove('C20 spectral radius: not negative', sy.cmp0(sy.lift(out), '>='))
            c.prove('C20 spectral radius: accepted after two estimates', sy.cmp0(r.counter - 1, '>='))
        d = frames.diff(before, others(s, ('V',)), c)
        c.prove('C20 spectral radius: nothing else is changed', not d)
        c.covered('number' if out is not None else 'None')
    ex.explore(path)


def start_step(ex, n=1):
    def path(c):
        from . import frames
        s, kw, f, t, yn, fn, v1, v2 = solver(c, n)
        s.sprad = sy.sym('sprad', fp=True)
        c.assume(sy.cmp0(s.sprad, '>='))
        before = others(s, ())
        yn0, fn0 = yn.copy(), fn.copy()
        h = s._init_step_size(t, yn, fn, v1, v2)
        c.prove('C20 start step: positive', sy.cmp0(sy.lift(h), '>'))
        c.prove('C20 start step: at most max_step, or the smallest step', sy.disj(
            sy.cmp0(h - s.max_step, '<='), sy.cmp0(h - s.hmin, '<=')))
        c.prove('C20 start step: one evaluation', f.calls == 1)
        c.prove_eq('C20 start step: current state unchanged', yn, yn0)
        c.prove_eq('C20 start step: current derivative unchanged', fn, fn0)
        c.prove('C20 start step: nothing else is changed', not frames.diff(before, others(s, ()), c))
    ex.explore(path)


def validation(ex):
    """the constructor accepts exactly a positive float from rho_jac"""
    def path(c):
        k = c.choose(4, 'rho_jac')
        r = sy.sym('rho', fp=True)
        bad = {1: 3., 2: lambda t, y: None, 3: lambda t, y: 'fast'}.get(k)
        good = lambda t, y: r
        su = dr.Setup(CLS, n=1, max_step=None, opts=dict(rho_jac=good if k == 0 else bad))
        try:
            s, prob, kw = dr.build(c, su)
        except (TypeError, ValueError) as e:
            if k == 0:
                c.prove('C20 a positive spectral radius is accepted', sy.cmp0(r, '<='))
            else:
                c.prove('C20 what is no function to a float is rejected', True)
            return
        if k == 0:
            c.prove('C20 a spectral radius that is not positive is rejected', sy.cmp0(r, '>'))
            c.prove('C20 the function given is the function used', s.rho_jac is good)
        else:
            c.fail('C20 what is no function to a float is rejected', f'case {k}')
    ex.explore(path)


# ----------------------------------------------------------------- step function
class Attempt:
    """Contract of one attempt (one iteration of the retry loop) from an
    arbitrary state that satisfies the invariant:

    case 'known': absh is positive, the spectral radius is known and not
    negative; 'new': it is going to be estimated; 'first': in addition absh is
    None; the counters have arbitrary values"""
    ATTRS = ('absh', 'newspc', 'jacatt', 'sprad', 'hold', 'errold', 'nstsig', 'mlim',
             'max_step', 'hmin', 'mmax', 'W', 'nfev', 'const_jac', 'rho_jac')

    def __init__(self, c, s, ob, prob, case):
        self.c, self.s, self.ob, self.prob, self.case = c, s, ob, prob, case
        self.done = False

    def entry(self, c, env):
        k = sorted(self.ob.props)[0]
        if 'absh' not in env:
            raise en.Unsupported('other local variables')
        self.inv(c, env['absh'], 'before the first attempt')

    def inv(self, c, absh, when):
        k = sorted(self.ob.props)[0]
        s = self.s
        if sy.is_special(absh):
            c.fail(f'{k} step size is a number {when}', str(absh))
            raise sy.PathEnd('not a number')
        c.prove(f'{k} step size is positive {when}',
                absh is None or sy.cmp0(sy.lift(absh), '>'))
        if not isinstance(s.newspc, bool):
            raise en.Unsupported('newspc')
        c.prove(f'{k} a spectral radius is available {when}',
                s.newspc or sy.cmp0(sy.lift(s.sprad), '>='))
        if isinstance(self.ob.kw.get('rho_jac'), RhoJac) and not s.newspc:
            c.prove_eq(f"{k} spectral radius in use is the user's {when}", s.sprad, self.given())
        c.prove_eq(f'{k} current state is kept {when}', s.W[0], s.y)
        c.prove_eq(f'{k} derivative of the current state is kept {when}', s.W[1],
                   self.prob.spec(s.t, s.y))

    def given(self):
        return sy.app('rho_jac', [self.s.t] + list(self.s.y), vec=False)

    def arbitrary(self, c, env):
        s = self.s
        if 'absh' not in env:
            raise en.Unsupported('other local variables')
        s.newspc = self.case != 'known'
        s.jacatt = False if s.newspc else bool(c.choose(2, 'jacatt'))
        if s.newspc:
            s.sprad = None
        else:
            s.sprad = sy.sym('sprad', fp=True)
            if isinstance(self.ob.kw.get('rho_jac'), RhoJac):
                s.sprad = self.given()
            c.assume(sy.cmp0(s.sprad, '>='))
        h = None
        if self.case != 'first':
            h = sy.sym('absh', fp=True)
            c.assume(sy.cmp0(h, '>'))
        s.absh = h
        s.W[2:] = sy.value('W2', s.W[2:].shape)
        s.nfev = sy.sym('nfev_k', integer=True)
        s.mlim = sy.sym('mlim_k', integer=True)
        c.assume(sy.cmp0(s.mlim, '>='))
        for k in dr.package().cells:
            if k in ('nrejct', 'NFS', 'nfesig', 'maxm'):
                dr.package().cells[k][()] = sy.sym(k + '_k', integer=True)
        self.cells = {k: a[()] for k, a in dr.package().cells.items()}
        env['y'][...] = sy.value('y_scratch', env['y'].shape)
        if 'nfev' in c.tracked.get('ghost', {}):
            c.tracked['ghost']['nfev'] = s.nfev
        self.done = True
        c.headpos = len(c.pc)
        return {'absh': h}

    def again(self, c, env):
        P, s = self.ob.props, self.s
        self.inv(c, env['absh'], 'after a rejection')
        if 'C22' in P:
            k = 'NFS' if 'NFS' in self.cells else 'nrejct'
            c.prove_eq('C22 one rejected attempt counts one',
                       dr.package().cells[k][()] - self.cells[k], 1)
            c.prove_eq('C22 counted function evaluations', s.nfev, c.tracked['ghost']['nfev'])
        if 'C04' in P and self.ob.stage.calls:
            h = abs(sy.lift(self.ob.stage.calls[-1]['h']))
            c.prove('C04 retry is strictly shorter', sy.cmp0(h - env['absh'], '>'))
        if 'C10' in P:
            # err >= 1: the factor 0.8/err^(1/3) is at most 0.8
            h = abs(sy.lift(self.ob.stage.calls[-1]['h']))
            c.prove('C10 retry loop terminates: each retry is at most 0.9 of the attempt',
                    sy.cmp0(env['absh'] - h * Fraction(9, 10), '<='))


def attempt(ex, props, direction=1, rho=False, n=1, case='known', hold=True):
    """_step_impl, one arbitrary attempt from an arbitrary state"""
    def path(c):
        opts = {}
        if rho:
            opts['rho_jac'] = RhoJac()
        ob = RkcObserver(props, opts)
        ob.ghost = None
        dr.reset_cells(dr.package())
        su = dr.Setup(CLS, n=n, direction=direction, opts=opts)
        c.forks = False
        s, prob, kw = dr.build(c, su, Counted(n))
        c.prob = prob
        if not all(hasattr(s, a) for a in Attempt.ATTRS if a != 'errold' and a != 'sprad'):
            raise en.Unsupported('other attributes')
        c.tracked = {'s': s}
        ob.start(c, s, prob, kw)
        c.forks = True
        if not (ob.stage and isinstance(s._init_step_size, InitStep)):
            raise en.Unsupported('other helper functions')
        ob.stage.cut = True
        # an arbitrary state between two steps
        t = s.t = sy.sym('t', fp=True)
        c.assume(sy.cmp0((s.t_bound - t) * direction, '>'))
        s.y = sy.vec_sym('y', n)
        s.W[0] = s.y
        s.W[1] = prob.spec(t, s.y)
        s.hold = None
        if hold:
            s.hold, s.errold = sy.sym('hold', fp=True), sy.sym('errold', fp=True)
            c.assume(sy.cmp0(s.hold * direction, '>'))
            c.assume(sy.cmp0(s.errold, '>='))
        s.nstsig = sy.sym('nstsig', integer=True)
        c.assume(sy.cmp0(s.nstsig, '>='))
        s.absh = sy.sym('absh_0', fp=True)
        c.assume(sy.cmp0(s.absh, '>'))
        s.newspc = True
        r = Attempt(c, s, ob, prob, case)
        c.rules = {'SSV2stab._step_impl:while': r}
        pre = ob.before(c, s, prob)
        ok, msg = s._step_impl()
        if not r.done:
            raise en.Unsupported('retry loop not found')
        if ok:
            # what the step function of the base class adds
            s.t_old = pre['t']
            if c.branch(sy.cmp0((s.t - s.t_bound) * direction, '>=')):
                s.status = 'finished'
        else:
            s.status = 'failed'
        ob.after(c, s, prob, pre, msg)
        if ok:
            r.inv(c, s.absh, 'after a step')
    ex.explore(path)

"""Contracts of the helper functions of the implicit methods, on their real
bodies: the ones that the step function is verified against in esd.py."""
import numpy as np
from fractions import Fraction
from . import sym as sy
from . import engine as en
from . import driver as dr
from . import shims as sh
from . import esd
from . import rk
from . import small as sm
from . import frames
from .sym import S


class Owed:
    """obligations of some of the properties"""

    def __init__(self, c, props):
        self.c, self.props = c, props

    def on(self, label):
        return any(p in label.split(' ')[0].split('/') for p in self.props)

    def name(self, label):
        k, rest = label.split(' ', 1)
        return f"{[p for p in k.split('/') if p in self.props][0]} {rest}"

    def prove(self, label, b):
        if self.on(label):
            self.c.prove(self.name(label), b)

    def prove_eq(self, label, a, b):
        if self.on(label):
            self.c.prove_eq(self.name(label), a, b)

    def fail(self, label, why):
        if self.on(label):
            self.c.fail(self.name(label), why)


def solver(c, cls, kind, n, direction, opts, max_step):
    opts = dict(opts or {})
    if max_step == 'sym':
        opts['max_step'] = sy.sym('max_step', fp=True)
        c.assume(sy.cmp0(opts['max_step'], '>'))
    opts['rtol'] = sy.sym('rtol', fp=True)
    opts['atol'] = sy.sym('atol', fp=True)
    c.assume(sy.cmp0(opts['rtol'] - 1e-13, '>='))
    c.assume(sy.cmp0(opts['rtol'] - .1, '<='))
    c.assume(sy.cmp0(opts['atol'] - 1e-150, '>='))
    pkg = dr.package()
    dr.reset_cells(pkg)
    log = dict(jac=0)
    prob, jac = esd.make(kind, n, log)
    opts['jac'] = jac
    stubs = dict({'h_start': dr.h_start_contract}, **esd.stubs(prob, log))
    t0, tb = sy.sym('t0', fp=True), sy.sym('t_bound', fp=True)
    c.assume(sy.cmp0(tb - t0, '>' if direction > 0 else '<'))
    y0 = sy.vec_sym('y0', n)
    patch = dr.patched(stubs)
    patch.__enter__()
    s = getattr(pkg.mods['extensisq'], cls)(prob, t0, y0, tb, **opts)
    return s, prob, opts, patch


def others(s, changed):
    return {k: v for k, v in frames.state(s).items() if k not in changed}


def frame(c, ow, label, s, before, allowed):
    d = frames.diff(before, others(s, allowed), c)
    if d:
        ow.fail(label, f'changes {sorted(map(str, d))}')
    else:
        ow.prove(label, True)


def cells():
    return {k: a[()] for k, a in dr.package().cells.items()}


# --------------------------------------------------------------- Newton solver
def stage(ex, cls, props, kind='call', n=1, direction=1, scaled=False):
    """_solve_implicit_stage: Newton iteration on M z = h f(t, psi + d z)"""
    def fn(c):
        ow = Owed(c, props)
        s, prob, kw, patch = solver(c, cls, kind, n, direction, None, None)
        try:
            h = sy.sym('h', fp=True)
            c.assume(sy.cmp0(h * direction, '>'))
            ts = sy.sym('t_stage', fp=True)
            y, psi, zp = sy.vec_sym('y', n), sy.vec_sym('psi', n), sy.vec_sym('zp', n)
            d = rk.fr(s.d)
            M = np.empty((n, n), object)
            for i in range(n):
                for j in range(n):
                    M[i, j] = sy.app(f'M{i}{j}', [])
            J = prob.J if kind == 'lin' else esd.jac_term(sy.sym('tJ'), sy.vec_sym('yJ', n))
            A = M - h * d * J
            Sc = esd.eye(n)
            if scaled:
                for i in range(n):
                    Sc[i, i] = sy.app(f'Sc{i}', [])
            lu = esd.LU(Sc @ A)
            s.J, s.h_LU, s.current_J, s.LU = J, h, True, lu
            keep = [y.copy(), psi.copy(), zp.copy()]
            prob.calls = []
            c.tracked['ghost'] = {k: sy.lift(0) for k in esd.COUNTS}
            n0, cell0 = s.nfev, cells()
            before = others(s, ('nfev',))
            conv, z, rate, niter = s._solve_implicit_stage(ts, zp, h, psi, y, lu, M, Sc)
            calls = prob.calls
            c.covered(f'converged {bool(conv)} after {len(calls)}')
            for a, b, k in zip((y, psi, zp), keep, ('state', 'known part', 'prediction')):
                ow.prove_eq(f'C12/C08 stage solver leaves the {k}', a, b)
            frame(c, ow, 'C12/C22 stage solver changes counters only', s, before, ('nfev',))
            ow.prove_eq('C22 stage solver: iterations are evaluations', niter, len(calls))
            ow.prove_eq('C22 stage solver: evaluations counted', s.nfev - n0, len(calls))
            solved = cells()['NLS'] - cell0['NLS']
            ow.prove('C22 stage solver: linear solves counted',
                     c.is_equal(solved, len(calls) - (0 if all_finite(c, prob, calls[-1]) else 1))[0] == 'proved')
            ow.prove('C22 stage solver: no failed step counted', sm_same(c, cells(), cell0, ('NFS', 'NFI')))
            ow.prove('C12 stage solver: at most five iterations', len(calls) <= 5)
            ow.prove('C12 stage solver: rate unknown, or positive',
                     rate == -np.inf if sy.is_special(rate) else sy.cmp0(sy.lift(rate), '>'))
            if not conv:
                ow.prove('C12 linear stages always converge', kind != 'lin' or
                         not all_finite(c, prob, calls[-1]))
                return
            t, yp = calls[-1]
            f = prob.spec(ts, yp)
            ow.prove_eq('C12 stage solver: time of the evaluation', t, ts)
            ow.prove('C10/C12 stage with a non-finite evaluation never converges', sh.finite_pred(f))
            zold = (np.array(yp, object) - psi) / d
            if kind == 'lin':
                ow.prove_eq('C12 linear stage equation solved exactly', M @ z, h * prob.spec(ts, psi + d * z))
                ow.prove('C12 linear stage: first iterate is used', len(calls) == 1)
                return
            dz = z - zold
            ow.prove_eq('C12 stage solver: Newton update with the residual of the stage equation', dz,
                        esd.solve(A, h * f - M @ zold))
            nd = rk.match_norm(c, sy.rms(dz / rk.weights(kw['rtol'], kw['atol'], y, np.array(yp, object))))
            kap, tiny = rk.fr(s.kappa), rk.fr(s.tiny_err)
            small = sy.cmp0(nd - tiny, '<=')
            if sy.is_special(rate):
                ow.prove('C12 stage solver: convergence criterion', small)
                return
            ow.prove('C12 stage solver: rate below one', sy.cmp0(rate - 1, '<'))
            ow.prove('C12 stage solver: convergence criterion', sy.disj(
                small, sy.cmp0(nd * rate - (1 - rate) * kap, '<')))
            if len(calls) > 1 and not c.implied(small):
                yo = np.array(calls[-2][1], object)
                zoo = (yo - psi) / d
                no = rk.match_norm(c, sy.rms((zold - zoo) / rk.weights(kw['rtol'], kw['atol'], y, yo)))
                ow.prove('C12 stage solver: rate at least that of the last two updates', sy.disj(
                    sy.cmp0(rate * no - nd, '>='), sy.cmp0(no - kap, '<=')))
        finally:
            patch.__exit__()
    ex.explore(fn)


def sm_same(c, a, b, keys):
    return all(c.is_equal(a[k], b[k])[0] == 'proved' for k in keys)


def all_finite(c, prob, call):
    return c.implied(sh.finite_pred(prob.spec(call[0], call[1])))


# ------------------------------------------------------------------ controller
def assess(ex, cls, props, direction=1, inf=False, sc='sym', defined=True):
    """_assess_error_and_stepsize"""
    def fn(c):
        ow = Owed(c, props)
        opts = {}
        if sc == 'sym':
            k1, k2, a, g = (sy.sym('sc_' + k) for k in ('k1', 'k2', 'a', 'g'))
            c.assume(sy.cmp0(g, '>'))
            c.assume(sy.cmp0(g - 1, '<'))
            opts['sc_params'] = (k1, k2, a, g)
        s, prob, kw, patch = solver(c, cls, 'call', 1, direction, opts, None)
        try:
            C = s.__class__
            h = sy.sym('h_abs', fp=True)
            c.assume(sy.cmp0(h, '>'))
            e = np.inf
            if not inf:
                e = sy.sym('e', fp=True)
                c.assume(sy.cmp0(e, '>='))
            rej = sm.pick(c, [False, True], 'rejected before')
            first = sm.pick(c, [False, True], 'first step')
            if first:
                mf = sy.lift(10)
                ow.prove_eq('C04 limit of growth at first', s.max_factor, 10)
                ow.prove('C04 controller starts with the standard rule', en.decided(c, s.standard_sc) is True)
            else:
                mf = sm.pick(c, [sy.lift(4), sy.lift(10)], 'max_factor')
                s.max_factor = mf
                s.standard_sc = sm.pick(c, [True, False], 'standard')
                s.h_previous = sy.sym('h_previous', fp=True)
                c.assume(sy.cmp0(s.h_previous * direction, '>'))
                s.error_norm_old = sy.sym('e_old', fp=True)
                c.assume(sy.cmp0(s.error_norm_old, '>'))
                s.h_LU = sy.sym('h_LU', fp=True)
            std = s.standard_sc
            hp, eo = s.h_previous, getattr(s, 'error_norm_old', None)
            cell0 = cells()
            before = others(s, ('standard_sc', 'max_factor'))
            ok, new = s._assess_error_and_stepsize(e, h, rej)
            ok = bool(ok)
            c.covered(f'accepted {ok} rejected before {rej} standard {std}')
            frame(c, ow, 'C04/C01 controller changes its own state only', s, before, ('standard_sc', 'max_factor'))
            lt = False if inf else sy.cmp0(e - 1, '<')
            ow.prove('C03/C04/C10 accepted if and only if the error norm is below one', lt if ok else
                     True if inf else sy.neg(lt))
            ow.prove('C01/C04/C10 proposed step is positive', sy.cmp0(new, '>'))
            ow.prove('C04 limit of growth remains four or ten', any(
                c.is_equal(s.max_factor, v)[0] == 'proved' for v in (4, 10)))
            dn = cells()['NFS'] - cell0['NFS']
            ow.prove_eq('C22 controller counts a rejection', dn, 0 if ok else 1)
            ow.prove('C22 controller counts nothing else', sm_same(c, cells(), cell0, ('NFI', 'NLS')))
            lo = sy.lift(C.min_factor)
            p = sy.lift(float(1 / (min(C.order, C.order_secondary) + 1)))
            if not ok:
                ow.prove('C04/C10 a rejected step is retried shorter', sy.cmp0(new - h, '<'))
                ow.prove('C04 a retry is not below the minimum factor', sy.cmp0(new - h * lo, '>='))
                ow.prove('C04 after a rejection the standard rule is used', en.decided(c, s.standard_sc) is True)
                if not inf:
                    ow.prove_eq('C04 retry follows the standard rule', new, h * sy.maximum(lo, g * e ** (-p))
                                if sc == 'sym' else new)
                return
            ow.prove('C04 growth within the limit', sy.cmp0(new - h * mf, '<='))
            if rej:
                ow.prove('C04 no growth after a rejection', sy.cmp0(new - h, '<='))
                ow.prove('C04 after a rejection the standard rule is used', en.decided(c, s.standard_sc) is True)
            if sc != 'sym' or inf:
                return
            one = sy.lift(1)
            tiny = rk.fr(s.tiny_err)
            if c.implied(sy.cmp0(e - tiny, '<')):
                f = mf
            elif std is True:
                f = sy.minimum(mf, g * e ** (-p))
            else:
                f = (g ** (k1 + k2)) * (e ** (-p * k1) * eo ** (-p * k2) *
                                        (h * direction / hp) ** (-a))
                f = sy.minimum(mf, sy.maximum(lo, f))
            if rej:
                f = sy.minimum(one, f)
            ow.prove_eq('C04 proposed step follows the controller', new, h * f)
            if std is False and not rej and not c.implied(sy.cmp0(e - tiny, '<')):
                ow.prove('C04 the second order controller stays active', en.decided(c, s.standard_sc) is False)
        finally:
            patch.__exit__()
    ex.explore(fn)


# ---------------------------------------------------------------- size of steps
def reassess(ex, cls, props, direction=1, max_step='sym'):
    """_reassess_stepsize"""
    def fn(c):
        ow = Owed(c, props)
        s, prob, kw, patch = solver(c, cls, 'call', 1, direction, None, max_step)
        try:
            t, h0 = sy.sym('t', fp=True), sy.sym('h_abs', fp=True)
            c.assume(sy.cmp0(h0, '>'))
            D = (sy.lift(s.t_bound) - t) * direction
            c.assume(sy.cmp0(D, '>'))
            s.t = t
            before = others(s, ('standard_sc',))
            h, ms = s._reassess_stepsize(t, h0)
            h, ms = sy.lift(h), sy.lift(ms)
            frame(c, ow, 'C01/C04 choice of the step changes the controller flag only', s, before, ('standard_sc',))
            ow.prove('C01 step to try is positive', sy.cmp0(h, '>'))
            ow.prove('C01 step to try is not beyond the end', sy.cmp0(D - h, '>='))
            if 'max_step' in kw:
                ow.prove('C02 step to try is within max_step', sy.cmp0(h - kw['max_step'], '<='))
            ow.prove('C01/C10 smallest step is positive', sy.cmp0(ms, '>'))
            ow.prove('C01 smallest step is above the resolution of time',
                     sy.cmp0(ms - abs(t) * (2 * esd.RES), '>='))
            free = sy.conj(sy.cmp0(h0 - ms, '>='), sy.cmp0(D - h0 * Fraction(102, 100), '>'))
            if 'max_step' in kw:
                free = sy.conj(free, sy.cmp0(kw['max_step'] - h0, '>='))
            ow.prove('C04 the proposed step is used where nothing limits it', sy.implies(
                free, sy.cmp0(h - h0, '==')))
            left = D - h
            ow.prove('C01 no remainder below the smallest step is left by the choice', sy.disj(
                sy.cmp0(left, '=='), sy.cmp0(left * 200 - h, '>=')))
        finally:
            patch.__exit__()
    ex.explore(fn)


# ------------------------------------------------- Jacobian and factorisation
def preempt(ex, cls, props, direction=1, each=False):
    """_preemptive_lu_and_jac"""
    def fn(c):
        ow = Owed(c, props)
        s, prob, kw, patch = solver(c, cls, 'call', 1, direction, dict(jac_each_step=each), None)
        try:
            t, h = sy.sym('t', fp=True), sy.sym('h_abs', fp=True)
            y = sy.vec_sym('y', 1)
            c.assume(sy.cmp0(h, '>'))
            it = sy.fresh('niter', integer=True)
            first = sm.pick(c, [False, True], 'first step')
            s.t, s.y = t, y
            J0 = s.J = esd.jac_term(sy.sym('tJ'), sy.vec_sym('yJ', 1))
            if not first:
                s.h_previous, s.h_LU = sy.sym('h_previous', fp=True), sy.sym('h_LU', fp=True)
                c.assume(sy.cmp0(s.h_previous * direction, '>'))
                c.assume(sy.cmp0(s.h_LU * direction, '>'))
                s.Rate = sm.pick(c, [-np.inf, sy.sym('Rate', fp=True)], 'rate')
                s.LU = esd.LU(sy.value('LU', (1, 1)))
                s.current_J = sm.pick(c, [False, True], 'current')
            else:
                s.current_J = True
            lu0, cur0, n0 = s.LU, s.current_J, s.njev
            c.tracked['ghost'] = {k: sy.lift(0) for k in esd.COUNTS}
            ch = ('J', 'LU', 'current_J', 'njev')
            before = others(s, ch)
            s._preemptive_lu_and_jac(h, t, y, it)
            gh = c.tracked['ghost']
            renewed = c.is_equal(gh['njev'], 1)[0] == 'proved'
            c.covered(f'renewed {renewed} dropped {s.LU is None}')
            frame(c, ow, 'C12 choice of the factorisation changes nothing else', s, before, ch)
            ow.prove_eq('C22 Jacobian evaluations counted', s.njev - n0, gh['njev'])
            ow.prove_eq('C22 no factorisation yet', gh['nlu'], 0)
            same = frames.same(frames.freeze(J0), frames.freeze(s.J), c)
            if renewed:
                ow.prove_eq('C12 a new Jacobian is jac(t, y)', s.J, esd.jac_term(t, y))
                ow.prove('C12 a new Jacobian demands a new factorisation', s.LU is None)
            else:
                ow.prove('C12 the Jacobian is kept', same)
                ow.prove('C12 the factorisation is kept or dropped', s.LU is None or s.LU is lu0)
            cur = en.decided(c, s.current_J)
            ow.prove('C12 the Jacobian is flagged current only if it is', cur is False or
                     cur0 is True or renewed)
            if each and not first and cur0 is False:
                ow.prove('C12 jac_each_step: the Jacobian is renewed', renewed)
        finally:
            patch.__exit__()
    ex.explore(fn)

"""Contracts of the explicit one-step methods (Runge-Kutta and Nystrom).

The specification is computed from the coefficients that the class declares
(A, B, C, E and the primed ones), the user's function and the step that was
taken, never from the intermediate values of the code under test."""
from fractions import Fraction
import numpy as np
from . import sym as sy
from . import engine as en
from . import driver as dr
from . import shims as sh
from .sym import S


def fr(x):
    return sy.lift(float(x))


class Tableau:
    def __init__(self, cls, opts=None):
        opts = opts or {}
        self.cls = cls
        self.name = cls.__name__
        self.nys = dr.is_nystrom(dr.package(), cls)
        self.s = int(cls.n_stages)
        self.A, self.B, self.C, self.E = cls.A, cls.B, cls.C, cls.E
        if self.nys:
            self.Ap = cls.Ap if isinstance(cls.Ap, np.ndarray) else None
            self.Bp, self.Ep = cls.Bp, cls.Ep
        if self.name == 'Mu5Nmb' and opts.get('scale_embedded', True):
            self.E, self.Ep = self.E * 0.75, self.Ep * 0.75
        self.fsal = bool(self.E[self.s]) or (self.nys and bool(self.Ep[self.s]))

    # ------------------------------------------------------------- formulas
    def stage(self, prob, t, y, h, K, i):
        if not self.nys:
            dy = lin(self.A[i], K[:i], h)
            return prob.spec(t + fr(self.C[i]) * h, y + dy)
        m = len(y) // 2
        dt = fr(self.C[i]) * h
        du = lin(self.A[i], K[:i], h * h) + dt * y[m:]
        dv = lin(self.Ap[i], K[:i], h) if self.Ap is not None else 0 * y[m:]
        return prob.accel(t + dt, y + np.concatenate((du, dv)))

    def stages(self, prob, t, y, h, upto=None):
        K = [prob.spec(t, y) if not self.nys else prob.accel(t, y)]
        for i in range(1, upto or self.s):
            K.append(self.stage(prob, t, y, h, K, i))
        return K

    def solution(self, y, h, K, B=None, Bp=None):
        if not self.nys:
            return y + lin(self.B if B is None else B, K, h)
        m = len(y) // 2
        du = lin(self.B if B is None else B, K, h * h) + h * y[m:]
        dv = lin(self.Bp if Bp is None else Bp, K, h)
        return y + np.concatenate((du, dv))

    def error(self, y, h, K):
        """K: all stages, and the derivative at the end"""
        if not self.nys:
            return lin(self.E, K, h)
        return np.concatenate((lin(self.E, K, h * h), lin(self.Ep, K, h)))

    def step(self, prob, t, y, h):
        K = self.stages(prob, t, y, h)
        ynew = self.solution(y, h, K)
        fnew = prob.spec(t + h, ynew) if not self.nys else prob.accel(t + h, ynew)
        return K, ynew, fnew


def lin(w, K, h):
    """h * sum_i w_i K_i with the machine coefficients taken exactly"""
    out = np.empty(len(K[0]), object)
    for j in range(len(out)):
        p = {}
        for wi, Ki in zip(w, K):
            if wi:
                p = sy._padd(p, sy.lift(Ki[j]).p, Fraction(float(wi)))
        out[j] = S(p) * h
    return out


def weights(rtol, atol, y, ynew):
    r = np.empty(len(y), object)
    at = np.broadcast_to(np.asarray(atol, object), (len(y),))
    for i in range(len(y)):
        r[i] = at[i] + rtol * sy.maximum(abs(sy.lift(y[i])), abs(sy.lift(ynew[i])))
    return r


def match_norm(c, e):
    """the term of the path condition that is equal to the norm e"""
    if sy.is_special(e):
        return e
    for b in reversed(c.pc):
        x = b.args[0] if b.op == 'not' else b
        if x.op == '<' and x.args[0].has_vec():
            for t in (x.args[0] + 1, 1 - x.args[0]):
                t = S(t.p)
                if len(t.p) == 1 and (t.same(e) or c.is_equal(t, e)[0] == 'proved'):
                    return t
    return e


def implied_lt1(c, label, e):
    if sy.is_special(e):
        c.fail(label, f'error norm is {e}')
        return
    c.prove(label, sy.cmp0(e - 1, '<'),
            detail='scaled error norm of the accepted step < 1')


class RKObserver(dr.Observer):
    """post-conditions of step() and invariants of the retry loop"""

    def __init__(self, tab, props, sc=None):
        self.tab = tab
        self.sc = sc
        self.props = set(props)
        if 'C04' in self.props:
            self.ghost = {'e': sy.lift(1), 'h': sy.lift(1)}

    def start(self, c, s, prob, kw):
        self.kw = kw
        self.rtol, self.atol = kw['rtol'], kw['atol']
        if 'C22' in self.props:
            n0 = len(prob.calls)
            self.nfev0 = n0
            c.prove('C22 constructor: counted evaluations are the real ones',
                    sy.cmp0(sy.lift(s.nfev) - n0, '<='))
            for k, cell in dr.package().cells.items():
                c.prove_eq(f'C22 constructor resets {k}' if k == 'NFS' else
                           f'C22 {k} untouched', cell[()], 0)
            c.prove_eq('C22 constructor: no Jacobians', s.njev, 0)

    def after(self, c, s, prob, pre, msg):
        P = self.props
        ok = s.status != 'failed'
        mode = c.loopstack[0][0] if c.loopstack else ''
        c.covered(f'{"success" if ok else "failure: " + str(msg)[:30]} [{mode}]')
        h = s.t - pre['t']
        d = s.direction
        if 'C10' in P:
            if ok:
                c.prove('C10 accepted state is finite', sh.finite_pred(s.y))
                c.prove('C10 no message on success', msg is None)
            else:
                c.prove('C10 failure carries a message', isinstance(msg, str) and bool(msg))
                c.prove_eq('C10 failure leaves t', s.t, pre['t'])
                c.prove_eq('C10 failure leaves y', s.y, pre['ycopy'])
        if not ok:
            return
        if 'C01' in P:
            c.prove('C01 strictly monotone', sy.cmp0(d * h, '>'))
            c.prove('C01 never past t_bound', sy.cmp0(d * (s.t_bound - s.t), '>='))
            if s.status == 'finished':
                c.prove_eq('C01 finished means t == t_bound', s.t, s.t_bound)
            c.prove_eq('C01 t_old is the previous time', s.t_old, pre['t'])
        if 'C02' in P:
            c.prove('C02 step <= max_step', sy.cmp0(d * h - self.kw['max_step'], '<='))
        if 'C08' in P:
            c.prove_eq('C08 the previous state array keeps its values', pre['y'], pre['ycopy'])
        if not P & {'C03', 'C04', 'C05'}:
            return
        self.values(c, s, prob, pre, h)

    def values(self, c, s, prob, pre, h):
        P = self.props
        tab = self.tab
        K, ynew, fnew = tab.step(prob, pre['t'], pre['ycopy'], h)
        self.e = None
        if 'C05' in P:
            c.prove_eq('C05 y is the declared formula', s.y, ynew)
            c.prove_eq('C05 derivative carried over is fun(t, y)', s.f,
                       prob.spec(s.t, s.y) if not tab.nys else prob.accel(s.t, s.y))
        if P & {'C03', 'C04'}:
            err = tab.error(pre['ycopy'], h, K + [fnew])
            sc = weights(self.rtol, self.atol, pre['ycopy'], ynew)
            e = self.e = match_norm(c, sy.rms(err / sc))
        if 'C03' in P:
            implied_lt1(c, 'C03 scaled error norm < 1', e)
        if 'C04' in P:
            self.controller(c, s, prob, pre, h, e)

    # --------------------------------------------------------------- C04
    def controller(self, c, s, prob, pre, h, e):
        """the proposed step follows the documented formula"""
        cls = self.tab.cls
        k1, k2, a, g = self.sc
        expo = -sy.lift(float(-1 / (min(cls.order, cls.order_secondary) + 1)))
        habs = abs(h)
        new = s.h_abs
        rejected = any(m == 'later' for m in c.exited.values())
        one = sy.lift(1)

        def cap(f):
            return sy.minimum(one, f) if rejected else f
        active = en.decided(c, pre['std'])
        if sy.is_special(e):
            return
        tiny = float(np.sqrt(np.finfo(float).tiny))
        if c.implied(sy.cmp0(e - tiny, '<')):
            for f in (10, 4):
                if c.implied(sy.cmp0(new - habs * cap(sy.lift(f)), '==')):
                    c.prove('C04 growth of a perfect step is max_factor', True)
                    break
            else:
                c.prove('C04 growth of a perfect step is max_factor',
                        sy.cmp0(new - habs * cap(sy.lift(pre['max_factor'])), '=='))
        elif active is not None:
            std = habs * cap(g * e ** (-expo))
            gh = c.tracked['ghost']
            f = (g ** (k1 + k2)) * (e ** (-expo * k1) * gh['e'] ** (-expo * k2)
                                    * (h / gh['h']) ** (-a))
            f = sy.minimum(sy.lift(pre['max_factor']),
                           sy.maximum(sy.lift(cls.min_factor), f))
            sec = habs * cap(f)
            # the second order controller is suspended when the step was
            # not the proposed one (bounds, end of the interval)
            if active is True:
                c.prove_eq('C04 standard controller', new, std)
            elif not rejected and habs.same(pre['h_abs']):
                c.prove_eq('C04 second order controller', new, sec)
                c.covered('second order')
            elif c.is_equal(new, std)[0] == 'proved':
                c.prove('C04 standard or second order controller', True)
            else:
                c.prove_eq('C04 standard or second order controller', new, sec)
        if rejected:
            c.prove('C04 no growth after a rejection', sy.cmp0(new - habs, '<='))
        c.prove('C04 proposed step is positive', sy.cmp0(new, '>'))

    def before(self, c, s, prob):
        pre = super().before(c, s, prob)
        pre['std'] = getattr(s, 'standard_sc', None)
        pre['h_abs'] = getattr(s, 'h_abs', None)
        pre['max_factor'] = getattr(s, 'max_factor', None)
        c.exited.clear()
        return pre

    def ghosts(self, c, s, prob, pre, msg):
        if self.ghost is not None and s.status != 'failed' and self.e is not None \
                and not sy.is_special(self.e):
            c.tracked['ghost']['e'] = self.e
            c.tracked['ghost']['h'] = s.t - pre['t']

    def backedge(self, c, loop, base, snap):
        if loop.key[0] == 'lifecycle':
            return
        if 'C10' in self.props and loop.mode == 'later':
            c.prove(f'C10 retry loop terminates [{loop.key[0]}]', bool(loop.info.measures))
        if 'C04' in self.props:
            self.retry(c, loop, base, snap)
        if 'C22' in self.props:
            cell = ('cell', 'NFS')
            if cell in base and cell in snap:
                d = sy.lift(snap[cell].val[()]) - sy.lift(base[cell].val[()])
                c.prove_eq('C22 one rejected attempt counts one', d, 1)

    def retry(self, c, loop, base, snap):
        # the location that holds the step size of the attempt: the user's
        # function was called at t + C_i * h
        prob, s = c.prob, c.tracked['s']
        if not prob.calls:
            return
        i = next((i for i in range(1, self.tab.s) if self.tab.C[i]), None)
        h = abs((prob.calls[i - 1][0] - s.t) / fr(self.tab.C[i]))
        for loc, v in base.items():
            if loc[0] == 'local' and isinstance(v, S) and v.same(h) and \
                    loc in snap and isinstance(snap[loc], S) and not snap[loc].same(v):
                w = snap[loc]
                c.prove('C04 retry is strictly shorter', sy.cmp0(v - w, '>'))
                c.prove('C04 retry not below min_factor',
                        sy.cmp0(w - v * fr(self.tab.cls.min_factor), '>='))
                c.covered('retry')
                return
        c.covered('retry: step size not located')


def observer(cls, props, opts, sc=None):
    kind = CKObserver if hasattr(cls, 'B_fallback') else RKObserver
    return kind(Tableau(cls, opts), props, sc)


class CKObserver(RKObserver):
    """CKdisc: the full step, or one of the two declared fallback formulas on
    a part of the attempted step"""

    def values(self, c, s, prob, pre, h):
        P, tab, cls = self.props, self.tab, self.tab.cls
        y0, t0 = pre['ycopy'], pre['t']
        self.e = None
        cases = [('full', h, cls.B, cls.E, tab.s)]
        for i in (1, 0):
            B, E = cls.B_fallback[i], cls.E_fallback[i]
            used = 1 + max(j for j in range(tab.s) if B[j] or E[j])
            cases.append((f'fallback {i}', h / fr(cls.C_fallback[i]), B, E, used))
        for nm, H, B, E, n in cases:
            K = tab.stages(prob, t0, y0, H, n)
            y = y0 + lin(B[:n], K, H)
            if all(c.is_equal(a, b)[0] == 'proved' for a, b in zip(s.y, y)):
                break
        else:
            c.fail('C05 y is a declared formula', f'y = {s.y[0]}')
            return
        c.covered(nm)
        if 'C05' in P:
            c.prove('C05 y is a declared formula', True)
            c.prove_eq('C05 derivative carried over is fun(t, y)', s.f, prob.spec(s.t, s.y))
        if 'C03' in P:
            sc = weights(self.rtol, self.atol, y0, y)
            err = lin(E[:n], K, H)
            e = sy.rms(err / sc)
            self.accept(c, e, 5 if nm == 'full' else 1)

    def accept(self, c, e, root):
        """the norm, or its documented root, was compared with one"""
        label = 'C03 scaled error norm < 1'
        if sy.is_special(e):
            c.fail(label, f'error norm is {e}')
            return
        m = match_norm(c, e)
        if m is not e:
            c.prove(label, sy.cmp0(m - 1, '<'))
            return
        for b in reversed(c.pc):
            x = b.args[0] if b.op == 'not' else b
            if x.op == '<':
                for i in x.args[0].atoms():
                    a = sy.ATOMS[i]
                    if a.kind == 'pow' and c.is_equal(a.args[0], e)[0] == 'proved':
                        # e**p < 1 and p > 0 give e < 1
                        c.prove(label, sy.conj(sy.cmp0(S({((i, 1),): Fraction(1)}) - 1, '<'),
                                               sy.cmp0(a.args[1], '>')))
                        return
        c.prove(label, sy.cmp0(e - 1, '<'))

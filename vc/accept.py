"""Acceptance of second order problems by the Nystrom methods (C19)."""
import numpy as np
from . import sym as sy
from . import driver as dr
from . import frames
from . import small as sm


class Any:
    """an arbitrary right-hand side: every component an uninterpreted function
    of time and the whole state"""
    nystrom = False
    solvers = ()

    def __init__(self, n):
        self.n, self.calls = n, []

    def spec(self, t, y):
        return dr.vec([sy.app(f'G{i}', [t] + list(y)) for i in range(self.n)])

    def __call__(self, t, y):
        self.calls.append((t, list(y)))
        return self.spec(t, y)


def eqs(a, b):
    return sy.conj(*[sy.cmp0(sy.lift(u) - v, '==') for u, v in zip(a, b)])


def start(c, cls, prob, n, direction):
    pkg = dr.package()
    C = getattr(pkg.mods['extensisq'], cls)
    t0, tb = sy.sym('t0', fp=True), sy.sym('t_bound', fp=True)
    c.assume(sy.cmp0(tb - t0, '>' if direction > 0 else '<'))
    first = sy.sym('first_step', fp=True)
    c.assume(sy.cmp0(first, '>'))
    c.assume(sy.cmp0(abs(tb - t0) - first, '>='))
    y0 = sy.vec_sym('y0', n)
    with dr.patched({'h_start': dr.h_start_contract}):
        s = C(prob, t0, y0, tb, first_step=first)
    return s


def independent(cls):
    return getattr(getattr(dr.package().mods['extensisq'], cls), 'Ap', None) is NotImplemented


def accept(ex, cls, n=2, direction=1):
    """problems of the right form are accepted and used as they are"""
    ind = independent(cls)

    def fn(c):
        c.prob = None
        m = n // 2
        prob = dr.Problem(n, True, not ind)
        y0 = sy.vec_sym('y0', n)
        t0 = sy.sym('t0', fp=True)
        try:
            s = start(c, cls, prob, n, direction)
        except sm.CONTROL:
            raise
        except sm.REJECT as e:
            if not sm.explicit(e):
                raise
            c.fail('C19 every problem [v, a] is accepted', f'{cls}: {e}')
            return
        c.prove('C19 every problem [v, a] is accepted', True)
        for t, z in prob.calls:
            c.prove('C19 full state in every evaluation', len(z) == n)
        c.prove('C19 the acceleration is kept', len(s.f) == m and
                all(a.same(b) for a, b in zip(s.f, prob.accel(t0, y0))))
        c.prove('C19 the state is kept', all(sy.lift(a).same(b) for a, b in zip(s.y, y0)) and len(s.y) == n)
        t, z = sy.sym('t'), sy.vec_sym('z', n)
        prob.calls = []
        a = s.fun(t, z)
        c.prove('C19 the acceleration part only is used', len(a) == m and
                all(u.same(v) for u, v in zip(a, prob.accel(t, z))))
        c.prove('C19 full state in every evaluation', len(prob.calls) == 1 and
                all(u is v or sy.lift(u).same(v) for u, v in zip(prob.calls[0][1], z)) and
                len(prob.calls[0][1]) == n)
        c.prove('C19 stages hold accelerations', s.K.shape[1] == m)
    ex.explore(fn)


def reject(ex, cls, n=2, direction=1):
    """problems of any other form at the initial state are rejected, and no others"""
    ind = independent(cls)

    def fn(c):
        c.prob = None
        m = n // 2
        prob = Any(n)
        y0 = sy.vec_sym('y0', n)
        t0 = sy.sym('t0', fp=True)
        f0 = prob.spec(t0, y0)
        seen = ()
        try:
            s = start(c, cls, prob, n, direction)
        except sm.CONTROL:
            raise
        except sm.REJECT as e:
            if not sm.explicit(e) and n % 2 == 0:
                raise
            s = None
        if n % 2:
            c.prove('C19 odd dimension is rejected', s is None)
            return
        form = eqs(f0[:m], y0[m:])
        pts = [list(map(sy.lift, z)) for t, z in prob.calls if sy.lift(t).same(t0)]
        probes = [z for z in pts if not all(u.same(v) for u, v in zip(z, y0))]
        ok = [eqs(prob.spec(t0, z)[:m], z[m:]) for z in probes]
        acc = [eqs(prob.spec(t0, z)[m:], f0[m:]) for z in probes
               if all(u.same(v) for u, v in zip(z[:m], y0[:m]))]
        if s is None:
            # what was evaluated shows that the form is wrong
            c.prove('C19 only problems of another form are rejected', sy.neg(sy.conj(form, *ok, *(acc if ind else []))))
            return
        c.prove('C19 problems of another form are rejected', form)
        same = eqs(y0[m:], y0[:m])
        if c.branch(same):
            # velocity and position agree: the order of the halves is probed
            good = [q for z, q in zip(probes, ok) if c.implied(q) and all(
                c.implied(sy.cmp0(z[m + i] - z[i], '!=')) for i in range(m))]
            c.prove('C19 the order of the halves is probed where they agree', bool(good))
        if ind:
            good = [q for z, q in zip([z for z in probes if all(u.same(v) for u, v in zip(z[:m], y0[:m]))], acc)
                    if c.implied(q) and all(c.implied(sy.cmp0(z[m + i] - y0[m + i], '!=')) for i in range(m))]
            c.prove('C19 accelerations that change with the velocity are rejected', bool(good))
    ex.explore(fn)

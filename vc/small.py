"""Contracts of single functions: tolerances, options (C17), first step (C16),
helpers of the stiffness detection (C15), ..."""
import linecache
import math
import numpy as np
from fractions import Fraction
from . import sym as sy
from . import engine as en
from . import driver as dr
from . import esd
from .sym import S, PathEnd, Unsupported

ESD = ['TRBDF2', 'TRX2', 'KC3I', 'KC4I', 'KC4Ia', 'Kv3I']


class AnyStr(str):
    """an arbitrary string that differs from every string of the code"""

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __hash__(self):
        return 7919

    def __getattribute__(self, k):
        if k in ('__class__', '__eq__', '__hash__', '__format__', '__str__', '__repr__'):
            return object.__getattribute__(self, k)
        raise Unsupported(f'str.{k} of an arbitrary string')


def kinds():
    pkg = dr.package()
    top = pkg.public()
    out = {}
    for k, C in top.items():
        if getattr(C, 'n_stages', 0) is NotImplemented:
            continue
        if issubclass(C, pkg.common.RungeKuttaNystrom):
            out[k] = 'nys'
        elif issubclass(C, pkg.common.RungeKutta):
            out[k] = 'rk'
        elif issubclass(C, pkg.common.ESDIRK):
            out[k] = 'esd'
        elif k in ('SWAG', 'SSV2stab'):
            out[k] = k.lower()
    return out


def make(cls, opts, n=2, direction=1, first='given', kind='call', y0=None, hstart=None):
    """construct a solver: symbolic interval and state, uninterpreted problem"""
    c = sy.ctx()
    pkg = dr.package()
    dr.reset_cells(pkg)
    C = getattr(pkg.mods['extensisq'], cls)
    k = kinds()[cls]
    opts = dict(opts)
    stubs = {}
    if k == 'esd':
        log = dict(jac=0)
        prob, jac = esd.make(kind, n, log)
        opts.setdefault('jac', jac)
        stubs = esd.stubs(prob, log)
    else:
        prob = dr.Problem(n, k == 'nys', getattr(C, 'Ap', None) is not NotImplemented)
    stubs = dict({'h_start': hstart or dr.h_start_contract}, **stubs)
    t0 = sy.sym('t0', fp=True)
    tb = sy.sym('t_bound', fp=True)
    d = tb - t0
    c.assume(sy.cmp0(d, '>' if direction > 0 else '<'))
    if y0 is None:
        y0 = sy.vec_sym('y0', n)
    with dr.patched(stubs):
        s = C(prob, t0, y0, tb, **opts)
    return s, prob, t0, tb, y0


def pick(c, options, why='case'):
    return options[c.choose(options, why)]


def explicit(e):
    """raised by a raise / assert statement (and not by an operation that the
    symbolic values do not support)"""
    tb = e.__traceback__
    while tb.tb_next:
        tb = tb.tb_next
    pos = list(tb.tb_frame.f_code.co_positions())[tb.tb_lasti // 2]
    line = linecache.getline(tb.tb_frame.f_code.co_filename, pos[0] or tb.tb_lineno).strip()
    return line.startswith(('raise', 'assert')) or isinstance(e, AssertionError)


REJECT = (Exception,)
CONTROL = (PathEnd, Unsupported, en.Budget, MemoryError, RecursionError)


def eps():
    return np.finfo(float).epsneg, np.finfo(float).tiny


def check_tol(c, tag, rtol, atol, r, a, n):
    """r, a: what the code uses for the given rtol, atol"""
    e, tiny = eps()
    lo = math.sqrt(tiny)
    at = [atol] * n if not isinstance(atol, np.ndarray) else list(atol)
    a = np.asarray(a, object)
    c.prove(f'C17 {tag}: weights per component', a.ndim == 0 or a.shape == (n,))
    a = list(np.broadcast_to(a, (n,)))
    c.prove_eq(f'C17 {tag}: rtol as given, within its limits', r,
               sy.minimum(sy.maximum(rtol, 10 * e), .1))
    for x, y in zip(a, at):
        c.prove_eq(f'C17 {tag}: atol as given, above the tiny limit', x, sy.maximum(y, lo))
        c.prove(f'C17 {tag}: weights are positive', sy.cmp0(sy.lift(x), '>'))


def tolerances(ex):
    """validate_tol and calculate_scale"""
    pkg = dr.package()
    com = pkg.common

    def fn(c):
        form = pick(c, ['scalar', 'vector', 'one component', 'shape', 'shape 2', 'type', 'type 2'])
        n = 1 if form == 'one component' else 2
        y = sy.vec_sym('y0', n)
        rtol = sy.sym('rtol', fp=True)
        atol = sy.sym('atol', fp=True) if form in ('scalar', 'type', 'type 2') else \
            sy.vec_sym('a_', 3 if form == 'shape' else n)
        if form == 'shape 2':
            atol = atol.reshape(1, 2)
        if form == 'type':
            rtol = pick(c, ['tight', None, [1e-3], np.array([1e-3, 1e-3]), 1])
        at = [atol] if isinstance(atol, S) else list(np.ravel(atol))
        bad = sy.disj(*[sy.cmp0(x, '<') for x in at])
        if isinstance(rtol, S):
            bad = sy.disj(bad, sy.cmp0(rtol, '<'))
        keep = list(at)
        try:
            r, a = com.validate_tol(rtol, atol, y)
        except CONTROL:
            raise
        except REJECT as e:
            if form.startswith(('shape', 'type')) and form != 'type 2':
                c.prove('C17 wrong type or shape rejected', True)
            elif not explicit(e):
                raise
            else:
                c.prove('C17 only negative tolerances are rejected', bad)
            return
        c.prove('C17 wrong type or shape rejected', form not in ('shape', 'shape 2', 'type'))
        c.prove('C17 negative tolerances are rejected', sy.neg(bad))
        if form in ('shape', 'shape 2', 'type'):
            return
        check_tol(c, 'validate_tol', rtol, atol, r, a, n)
        if isinstance(atol, np.ndarray):
            c.prove('C17 user tolerances unchanged', all(x is z for x, z in zip(atol, keep)))
        y1 = sy.vec_sym('y1', n)
        for mean in (False, True):
            w = com.calculate_scale(a, r, y, y1, mean) if mean else com.calculate_scale(a, r, y, y1)
            for i in range(n):
                u = abs(y[i]), abs(y1[i])
                m = (u[0] + u[1]) / 2 if mean else sy.maximum(*u)
                c.prove_eq('C17 weights ' + ('mean' if mean else 'max'), w[i],
                           np.broadcast_to(np.asarray(a, object), (n,))[i] + r * m)
                c.prove('C17 weights are positive', sy.cmp0(sy.lift(w[i]), '>'))
    ex.explore(fn)


def smooth_option(cls):
    return hasattr(getattr(dr.package().mods['extensisq'], cls), 'P0')


def bad_options(cls, kind):
    """option values outside the documented domain (AnyStr: every other string)"""
    s = AnyStr('other')
    out = [dict(sc_params=v) for v in (s, (1., 2., 3.), (1., 0., 0., .9, 1.), [.7, -.4, 0, .9], 3)] \
        if kind in ('rk', 'nys', 'esd') else []
    if kind in ('rk', 'nys') and cls != 'CKdisc':
        out += [dict(nfev_stiff_detect=v) for v in (2.5, s, None, 'negative')]
    out += {'BS5': [dict(interpolant=v) for v in (s, 1, None)],
            'Fi5N': [dict(interpolant=v) for v in (4, -1, s, 'int')],
            'Mu5Nmb': [dict(interpolant=v) for v in (s, 0)],
            'SWAG': [dict(k_max=v) for v in (0, 13, 4., s, 'int')],
            'SSV2stab': [dict(const_jac=v) for v in (1, s, None)] +
                        [dict(rho_jac=v) for v in (3., s, lambda t, y: s, lambda t, y: None, lambda t, y: y,
                                                   'nonpositive')]}.get(cls, [])
    if smooth_option(cls):
        out += [dict(interpolant=v) for v in (s, 1, None)]
    if kind == 'esd':
        out += [dict(jac=np.zeros((3, 3))), dict(jac=np.zeros(2)), dict(M=np.ones(3)), dict(M=np.ones((2, 2, 2))),
                dict(M=2.), dict(M=np.ones((3, 3))), dict(M=np.ones((2, 3)))]
    return out


def options(ex, cls, direction=1):
    pkg = dr.package()
    kind = kinds()[cls]
    bads = bad_options(cls, kind)
    com = pkg.common

    def fn(c):
        c.prob = None
        what = pick(c, ['tol', 'vec', 'first', 'max'] + list(range(len(bads))))
        opts = {}
        bad = sy.FALSE
        if what in ('tol', 'vec'):
            opts = dict(rtol=sy.sym('rtol', fp=True),
                        atol=sy.sym('atol', fp=True) if what == 'tol' else sy.vec_sym('a_', 2))
            bad = sy.disj(*[sy.cmp0(x, '<') for x in [opts['rtol']] + list(np.ravel(opts['atol']))])
            keep = list(np.ravel(opts['atol']))
        elif what == 'first':
            h = opts['first_step'] = sy.sym('first_step', fp=True)
            d = abs(sy.sym('t_bound') - sy.sym('t0'))
            bad = sy.disj(sy.cmp0(h, '<='), sy.cmp0(h - d, '>'))
        elif what == 'max':
            h = opts['max_step'] = sy.sym('max_step', fp=True)
            bad = sy.cmp0(h, '<=')
        else:
            opts = dict(bads[what])
            (k, v), = opts.items()
            bad = sy.TRUE
            if isinstance(v, str) and v in ('negative', 'nonpositive'):
                x = sy.fresh('opt', integer=v == 'negative')
                if v == 'negative':
                    c.assume(sy.cmp0(x, '<'))
                    opts[k] = x
                else:
                    c.assume(sy.cmp0(x, '<='))
                    opts[k] = lambda t, y: x
            elif isinstance(v, str) and v == 'int':
                x = sy.fresh('opt', integer=True)
                lo, hi = (1, 12) if k == 'k_max' else (0, 3)
                c.assume(sy.disj(sy.cmp0(x - lo, '<'), sy.cmp0(x - hi, '>')))
                opts[k] = x
            name = f'C17 {cls}: {k} outside its domain is rejected'
        try:
            s, prob, t0, tb, y0 = make(cls, opts, 2, direction)
        except CONTROL:
            raise
        except REJECT as e:
            if isinstance(what, int):
                c.prove(name, True)
            elif not explicit(e):
                raise
            else:
                c.prove(f'C17 {cls}: only invalid values are rejected', bad)
            return
        if isinstance(what, int):
            c.fail(name, f'{k}={v!r} was accepted') if hasattr(c, 'fail') else c.prove(name, False)
            return
        c.prove(f'C17 {cls}: invalid values are rejected', sy.neg(bad))
        if what in ('tol', 'vec'):
            check_tol(c, cls, opts['rtol'], opts['atol'], s.rtol, s.atol, 2)
            if what == 'vec':
                c.prove(f'C17 {cls}: user tolerances unchanged',
                        all(x is z for x, z in zip(opts['atol'], keep)))
        elif what == 'first':
            got = [abs(getattr(s, k)) for k in ('h_abs', 'h', 'absh') if hasattr(s, k)]
            c.prove_eq(f'C17 {cls}: the first step is used as given', got[0], h)
        else:
            want = [h]
            if cls == 'SSV2stab':
                want.append(sy.minimum(sy.minimum(h, abs(tb - t0)), math.sqrt(np.finfo(float).max)))
            c.prove(f'C17 {cls}: max_step is used as given',
                    any(c.is_equal(s.max_step, w)[0] == 'proved' for w in want))
    ex.explore(fn)


# ------------------------------------------------------------- first step (C16)
def norm_contract(x, *a, **k):
    """what the callers may use of the norm: finite, not negative, zero for the
    zero vector only"""
    c = sy.ctx()
    r = sy.fresh('norm')
    x = [sy.lift(v) for v in np.ravel(np.asarray(x, object))]

    def bare(v):
        if len(v.p) == 1:
            (m, _), = v.p.items()
            if len(m) == 1 and m[0][1] == 1 and sy.ATOMS[m[0][0]].kind == 'abs':
                return bare(sy.ATOMS[m[0][0]].args[0])
        return v
    zero = sy.conj(*[sy.cmp0(bare(v), '==') for v in x])
    c.assume(sy.disj(sy.conj(sy.cmp0(r, '=='), zero), sy.conj(sy.cmp0(r, '>'), sy.neg(zero))))
    return r


def hstart(ex, n=1, J=False, direction=1, part=None):
    """h_start: for every finite right-hand side"""
    pkg = dr.package()
    com = pkg.common

    def fn(c):
        a, b = sy.sym('a', fp=True), sy.sym('b', fp=True)
        d = b - a
        c.assume(sy.cmp0(d, '>' if direction > 0 else '<'))
        if part:
            # the cases a < 0, a = 0, a > 0 are separate tasks
            c.assume(sy.cmp0(a, part))
        y, yp = sy.vec_sym('y0', n), sy.vec_sym('yp', n)
        rtol, atol = sy.sym('rtol', fp=True), sy.sym('atol', fp=True)
        c.assume(sy.cmp0(rtol, '>'))
        c.assume(sy.cmp0(atol, '>'))
        prob = dr.Problem(n)
        c.on_div = lambda o: c.prove('C16 divisors are not zero', sy.cmp0(o, '!='))
        c.on_sqrt = lambda o: c.prove('C16 square roots are of non-negative numbers', sy.cmp0(o, '>='))
        kw = {}
        if J:
            kw = dict(J=np.array([[sy.sym(f'J{i}{j}', vec=True) for j in range(n)] for i in range(n)], object),
                      T=sy.vec_sym('T', n))
        keep = list(y), list(yp)
        calls = prob.calls = []
        what = pick(c, ['h', 'T']) if not J else 'h'
        if what == 'T':
            with dr.patched(dict(norm=norm_contract)):
                r = com.h_start(prob, a, b, y, yp, None, rtol, atol, returnT=True)
            (t, z), = calls
            c.prove('C14 the time derivative is a difference quotient in time',
                    all(u is v for u, v in zip(z, keep[0])))
            c.prove_eq('C14 the time derivative is a difference quotient in time', r * (t - a), prob.spec(t, y) - yp)
            c.prove('C14 the time difference has the direction of integration', sy.cmp0((t - a) * direction, '>'))
            return
        morder = sy.sym("morder", integer=True)
        c.assume(sy.cmp0(morder - 1, ">="))
        with dr.patched(dict(norm=norm_contract)):
            h = com.h_start(prob, a, b, y, yp, morder, rtol, atol, **kw)
        small = np.nextafter(np.finfo(float).epsneg, 1.)
        c.prove('C16 the first step has the direction of integration', sy.cmp0(h * direction, '>'))
        lim = sy.maximum(abs(d), 100. * small * abs(a))
        res = sy.maximum(lim, small * abs(b))
        c.prove('C16 the first step is not longer than the interval (above the resolution of time)',
                sy.disj(sy.cmp0(abs(h) - lim, '<='), sy.conj(sy.cmp0(a, '=='), sy.cmp0(abs(h) - small * abs(b), '<='))))
        c.prove('C16 h_start leaves its arguments', all(u is v for u, v in zip(keep[0] + keep[1], list(y) + list(yp))))
        for t, z in calls:
            c.prove('C16 evaluations stay within the interval (above the resolution of time)', sy.conj(
                sy.cmp0((t - a) * direction, '>='),
                sy.cmp0(abs(t - a) - sy.maximum(abs(d), 100. * small * abs(a)), '<=')))
    ex.explore(fn)


def first_step(ex, cls, direction=1, max_step='sym'):
    """what the constructors make of h_start"""
    com = dr.package().common

    def fn(c):
        got = {}

        def stub(df, a, b, y, yprime, morder=None, rtol=None, atol=None, J=None, T=None, returnT=False, **k):
            if not returnT:
                got.update(df=df, a=a, b=b, y=y, yp=yprime, rtol=rtol, atol=atol, morder=morder)
            r = dr.h_start_contract(df, a, b, y, yprime, morder, rtol, atol, J, T, returnT)
            if not returnT:
                c.assume(sy.cmp0(abs(r) - abs(sy.lift(b) - a), '<='))
                got['h'] = r
            return r
        opts = {}
        if max_step == 'sym':
            opts['max_step'] = sy.sym('max_step', fp=True)
            c.assume(sy.cmp0(opts['max_step'], '>'))
        y0 = sy.vec_sym('y0', 2)
        keep = list(y0)
        s, prob, t0, tb, _ = make(cls, opts, 2, direction, y0=y0, hstart=stub)
        c.prove(f'C16 {cls}: initial state unchanged', all(u is v for u, v in zip(y0, keep)) and
                all(sy.lift(u).same(v) for u, v in zip(s.y, keep)))
        lim = abs(tb - t0)
        if 'max_step' in opts:
            lim = sy.minimum(lim, opts['max_step'])
        if cls == 'SSV2stab':
            c.prove(f'C16 {cls}: first step is left to the first step call', s.absh is None)
            s.sprad = sy.sym('sprad', fp=True)
            c.assume(sy.cmp0(s.sprad, '>='))
            yn, fn_, v1, v2 = s.W
            y1 = list(yn)
            h = s._init_step_size(s.t, yn, fn_, v1, v2)
            c.prove(f'C16 {cls}: first step is positive', sy.cmp0(sy.lift(h), '>'))
            c.prove(f'C16 {cls}: first step is not longer than the interval nor max_step',
                    sy.disj(sy.cmp0(h - lim, '<='), sy.cmp0(h - s.hmin, '<=')))
            c.prove(f'C16 {cls}: initial state unchanged', all(u is v for u, v in zip(y1, yn)))
            return
        h = s.h if cls == 'SWAG' else s.h_abs
        if not got:
            c.fail(f'C16 {cls}: the first step is computed', 'h_start not used')
            return
        c.prove_eq(f'C16 {cls}: start of the first step', got['a'], t0)
        c.prove_eq(f'C16 {cls}: limit of the first step', abs(got['b'] - t0), lim)
        c.prove(f'C16 {cls}: direction of the first step', sy.cmp0((got['b'] - t0) * direction, '>'))
        c.prove_eq(f'C16 {cls}: state of the first step', got['y'], np.array(keep, object))
        c.prove_eq(f'C16 {cls}: derivative of the first step', got['yp'], prob.spec(t0, y0))
        c.prove_eq(f'C16 {cls}: the first step is used', abs(h), abs(got['h']))
        c.prove(f'C16 {cls}: first step is positive', sy.cmp0(abs(h), '>'))
        c.prove(f'C16 {cls}: first step is not longer than the interval nor max_step', sy.cmp0(abs(h) - lim, '<='))
        if cls == 'SWAG':
            c.prove(f'C16 {cls}: direction of the first step', sy.cmp0(h * direction, '>'))
    ex.explore(fn)

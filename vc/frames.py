"""Frame conditions of constructors and steps (C09): nothing that is shared
between solvers (class and module variables, default arguments) or owned by the
user (initial state, tolerances, Jacobian, mass matrix) is changed, and the
result does not depend on what other solvers did."""
import types
import numpy as np
import scipy.sparse as sp
from . import sym as sy
from . import engine as en
from . import driver as dr
from . import small as sm
from .sym import S

SKIP = {'__module__', '__doc__', '__dict__', '__weakref__', '__annotations__', '__abstractmethods__',
        '_abc_impl', '__builtins__', '__vc', '__parameters__', '__slots__', '__qualname__',
        '__static_attributes__', '__warningregistry__', '__firstlineno__'}


def freeze(v, depth=0):
    if isinstance(v, (S, sy.B)) or v is None or isinstance(v, (bool, int, float, complex, str, bytes, np.generic)):
        return v
    if isinstance(v, np.ndarray):
        return ('array', v.shape, tuple(v.ravel().tolist()) if v.dtype == object else v.tobytes())
    if sp.issparse(v):
        return ('sparse', freeze(v.toarray()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(freeze(x, depth + 1) for x in v)
    if isinstance(v, (set, frozenset)):
        return ('set', tuple(sorted(map(repr, v))))
    if isinstance(v, dict):
        return ('dict',) + tuple((repr(k), freeze(x, depth + 1)) for k, x in v.items())
    if isinstance(v, slice):
        return repr(v)
    if isinstance(v, (staticmethod, classmethod)):
        v = v.__func__
    if isinstance(v, property):
        return ('property', id(v.fget))
    if isinstance(v, types.FunctionType):
        d = ()
        if depth < 3 and '/extensisq/' in v.__code__.co_filename:
            d = (freeze(v.__defaults__, depth + 1), freeze(v.__kwdefaults__, depth + 1), freeze(v.__dict__, depth + 1))
        return ('function', v.__code__.co_name, v.__code__.co_firstlineno) + d
    if hasattr(v, '__vc_value__') and hasattr(v, 'A'):
        return ('value', type(v).__name__, freeze(v.A))
    return ('object', type(v).__name__) + ((id(v),) if depth == 0 else ())


def shared(pkg):
    """everything that solvers share; the global counters are left out (their
    values are reset on purpose)"""
    cells = {id(a) for a in pkg.cells.values()}
    out = {}
    for name, mod in pkg.mods.items():
        for k, v in list(vars(mod).items()):
            if k in SKIP or id(v) in cells or isinstance(v, (types.ModuleType, type)):
                continue
            out[('module', name, k)] = freeze(v)
    for cn, cls in pkg.classes().items():
        for k, v in list(vars(cls).items()):
            if k in SKIP or isinstance(v, type):
                continue
            out[('class', cn, k)] = freeze(v)
    return out


def same(a, b, c=None):
    if a is b:
        return True
    if isinstance(a, S) or isinstance(b, S):
        if a is None or b is None or isinstance(a, (str, tuple)) or isinstance(b, (str, tuple)):
            return False
        if isinstance(a, S) and isinstance(b, S) and a.same(b):
            return True
        return c is not None and c.is_equal(a, b)[0] == 'proved'
    if isinstance(a, sy.B) or isinstance(b, sy.B):
        return isinstance(a, sy.B) and isinstance(b, sy.B) and a.key() == b.key()
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y, c) for x, y in zip(a, b))
    if type(a) is not type(b):
        return isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b
    return bool(a == b) or (a != a and b != b)


def diff(a, b, c=None):
    return [k for k in set(a) | set(b) if k not in a or k not in b or not same(a[k], b[k], c)]


class Guard:
    """snapshot of what must not change"""

    def __init__(self, c, user):
        self.c, self.user = c, user
        self.shared = shared(dr.package())
        self.u = {k: freeze(v) for k, v in user.items()}

    def check(self, when, tag):
        c = self.c
        d = diff(self.shared, shared(dr.package()))
        c.prove(f'C09 shared state unchanged by {when}', not d) if not d else \
            c.fail(f'C09 shared state unchanged by {when}', f'{tag}: {sorted(map(str, d))[:6]}')
        for k, v in self.user.items():
            ok = same(self.u[k], freeze(v))
            c.prove(f"C09 user's {k} unchanged by {when}", ok) if ok else \
                c.fail(f"C09 user's {k} unchanged by {when}", f'{tag}: {self.u[k]} -> {freeze(v)}'[:400])


def state(s):
    return {k: freeze(v) for k, v in vars(s).items() if k not in ('fun', 'fun_single', 'fun_vectorized')}


def arrays(kind):
    """user data in the accepted forms (concrete matrices)"""
    J = np.array([[-2., 1.], [.5, -3.]])
    M = np.array([[2., .5], [.25, 1.]])
    d = np.diag(M).copy()
    js = [dict(), dict(jac=J), dict(jac=sp.csc_array(J)), dict(jac=sp.csr_matrix(J))] if kind == 'esd' else [{}]
    ms = [dict(), dict(M=M), dict(M=d), dict(M=np.diag(d)), dict(M=sp.csc_array(M)), dict(M=sp.csr_array(np.diag(d))),
          dict(M=sp.dia_array(np.diag(d)))] if kind == 'esd' else [{}]
    return [{k: v.copy() for k, v in dict(j, **m).items()} for j in js for m in ms]


def variants(cls, kind):
    out = [{}]
    if kind in ('rk', 'nys') and cls != 'CKdisc':
        out += [dict(nfev_stiff_detect=0), dict(sc_params='G'), dict(sc_params='S'), dict(sc_params='standard')]
    if kind == 'esd':
        out += [dict(sc_params='G'), dict(sc_params='S'), dict(jac_each_step=True)]
    out += {'BS5': [dict(interpolant=v) for v in ('best', 'low', 'free')],
            'Fi5N': [dict(interpolant=v) for v in range(4)],
            'Mu5Nmb': [dict(interpolant=v) for v in ('free', 'better')] + [dict(scale_embedded=v) for v in (True, False)],
            'SWAG': [dict(k_max=v) for v in range(1, 13)],
            'SSV2stab': [dict(const_jac=True), dict(rho_jac=lambda t, y: sy.sym('rho', fp=True))]}.get(cls, [])
    if sm.smooth_option(cls):
        out += [dict(interpolant=v) for v in ('C0', 'C1')]
    return out


def cells_any(pkg):
    for k, a in pkg.cells.items():
        a[()] = sy.fresh('cell_' + k, integer=True)


def construct(ex, cls, direction=1):
    pkg = dr.package()
    kind = sm.kinds()[cls]
    ar = arrays(kind)
    va = variants(cls, kind)

    def fn(c):
        c.prob = None
        i = c.choose(va, 'variant')
        j = c.choose(ar, 'arrays') if i == 0 else 0
        opts = dict(va[i])
        tol = dict(rtol=sy.sym('rtol', fp=True), atol=sy.vec_sym('a_', 2))
        for x in [tol['rtol']] + list(tol['atol']):
            c.assume(sy.cmp0(x, '>'))
        if cls == 'SSV2stab':
            c.assume(sy.cmp0(sy.sym('rho', fp=True), '>'))
        first = sy.sym('first_step', fp=True)
        c.assume(sy.cmp0(first, '>'))
        c.assume(sy.cmp0(abs(sy.sym('t_bound') - sy.sym('t0')) - first, '>='))
        y0 = sy.vec_sym('y0', 2)
        user = {k: v.copy() for k, v in ar[j].items()}
        user.update(atol=tol['atol'], y0=y0)
        kw = {k: v for k, v in user.items() if k != 'y0'}
        g = Guard(c, user)
        tag = f'{cls} {opts} {sorted(ar[j])}'
        cells_any(pkg)
        keep = dr.reset_cells
        dr.reset_cells = lambda p: None
        try:
            s1 = sm.make(cls, dict(opts, rtol=tol['rtol'], first_step=first, **kw), 2, direction, y0=y0)[0]
            g.check('construction', tag)
            a = state(s1)
            cells_any(pkg)
            other = va[(i + 1) % len(va)]
            o = sm.make(cls, dict(other, rtol=tol['rtol'], first_step=first, **kw), 2, direction, y0=y0)[0]
            g.check('construction', tag)
            d = diff(a, state(s1), c)
            c.prove('C09 a construction leaves other solvers alone', not d) if not d else \
                c.fail('C09 a construction leaves other solvers alone', f'{tag}: {d}')
            cells_any(pkg)
            s2 = sm.make(cls, dict(opts, rtol=tol['rtol'], first_step=first, **kw), 2, direction, y0=y0)[0]
        finally:
            dr.reset_cells = keep
        d = diff(a, state(s2), c)
        c.prove('C09 the same construction gives the same solver', not d) if not d else \
            c.fail('C09 the same construction gives the same solver', f'{tag}: {d}')
    ex.explore(fn)


class StepGuard:
    """wraps an observer of the lifecycle"""

    def __init__(self, ob):
        self.ob = ob

    def __getattr__(self, k):
        return getattr(self.ob, k)

    def start(self, c, s, prob, kw):
        self.ob.start(c, s, prob, kw)
        self.g = Guard(c, c.user)

    def before(self, c, s, prob):
        self.hits = []

        def guard(b):
            at = counters(b) if b.op in ('<', '==') else ()
            if at and not self.hits:
                self.hits.append(f'branch on {b}'[:200])
        c.guard = guard
        return self.ob.before(c, s, prob)

    def after(self, c, s, prob, pre, msg):
        c.guard = None
        self.ob.after(c, s, prob, pre, msg)
        self.g.check('a step', type(s).__name__)
        bad = list(self.hits)
        for k, v in vars(s).items():
            for x in (np.ravel(v) if isinstance(v, np.ndarray) and v.dtype == object else [v]):
                if isinstance(x, S) and any(str(sy.ATOMS[i].name).startswith('cell_') for i in closure(x)):
                    bad.append(k)
        c.prove('C09 a step does not depend on the global counters', not bad) if not bad else \
            c.fail('C09 a step does not depend on the global counters', str(bad))


def closure(x):
    out, todo = set(), list(x.atoms())
    while todo:
        i = todo.pop()
        if i not in out:
            out.add(i)
            for a in sy.ATOMS[i].args or ():
                if isinstance(a, S):
                    todo += list(a.atoms())
    return out


def counters(b):
    return any(str(sy.ATOMS[i].name).startswith('cell_') for i in closure(b.args[0]))

"""Contracts of dense output (C06, C07, C08): evaluated on the real
_dense_output_impl and interpolant classes after an arbitrary accepted step."""
from fractions import Fraction
import os
import sys
import numpy as np
from . import sym as sy
from . import engine as en
from . import driver as dr
from .sym import S, ATOMS

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def col(D, t):
    """scalar argument"""
    return np.asarray(D(t), object)


class DenseObserver(dr.Observer):
    def __init__(self, cls, opts, props, orders=None):
        self.cls, self.opts, self.props = cls, opts or {}, set(props)
        self.nys = dr.is_nystrom(dr.package(), cls)
        self.orders = orders
        self.smooth = None
        self.tables = {}
        self.slopes = None        # derivatives at both ends, where not the user's function
        self.pieces = None        # (piece, number of pieces) of the last evaluation

    def after(self, c, s, prob, pre, msg):
        if s.status == 'failed':
            return
        undo, yold0 = rename_h(c, s, pre['ycopy'])
        try:
            self.obligations(c, s, prob, yold0)
        finally:
            undo()

    def obligations(self, c, s, prob, yold):
        P = self.props
        told, t, y = s.t_old, s.t, s.y.copy()
        f_new = prob.spec(t, y)
        state = {k: (v.copy() if isinstance(v, np.ndarray) else v)
                 for k, v in vars(s).items() if k not in ('fun', 'fun_vectorized', 'fun_single')}
        n0 = len(prob.calls)
        D = s.dense_output()
        mode = c.loopstack[0][0] if c.loopstack else ''
        c.covered(f'{type(D).__name__} [{mode}]')
        changes = self.nys and self.opts.get('interpolant', 0) == 1 and \
            self.cls.__name__ == 'Fi5N'
        h = t - told
        th = sy.fresh('theta')
        if 'C07' in P:
            c.prove_eq('C07 start value', col(D, told), yold)
            c.prove_eq('C07 end value', col(D, t), s.y)
            z = col(D, told + th * h)
            piece = self.pieces() if self.pieces else None
            arr = np.empty(3, object)
            arr[:] = [told, told + th * h, t]
            Z = np.asarray(D(arr), object)
            c.prove('C07 array argument: shape', Z.shape == (len(y), 3))
            if Z.shape == (len(y), 3):
                c.prove_eq('C07 array argument: start', Z[:, 0], yold)
                c.prove_eq('C07 array argument: inside', Z[:, 1], z)
                c.prove_eq('C07 array argument: end', Z[:, 2], s.y)
            g = [theta_poly(c, v, th) for v in z]
            if any(p is None for p in g):
                c.fail('C07 interpolant is a polynomial in theta', 'not polynomial')
                return
            c.prove('C07 interpolant is a polynomial in theta', True)
            if self.nys and not (self.cls.__name__ == 'Fi5N' and
                                 self.opts.get('interpolant') == 2):
                m = len(y) // 2
                for i in range(m):
                    dx = deriv(g[i])
                    for k in set(dx) | set(g[m + i]):
                        c.prove_eq('C07 velocity is the derivative of the displacement',
                                   dx.get(k, sy.lift(0)), g[m + i].get(k, sy.lift(0)) * h)
            if self.smooth:
                i0, n = piece or (0, 1)
                if s.direction < 0:
                    i0 = n - 1 - i0
                f_old, f_end = self.slopes or (prob.spec(told, yold), f_new)
                for i in range(len(y)):
                    d = deriv(g[i])
                    if not (changes and mode != 'first') and i0 == 0:
                        c.prove_eq('C07 slope at the start', d.get(0, sy.lift(0)), h * f_old[i])
                    if not changes and i0 == n - 1:
                        c.prove_eq('C07 slope at the end', sum_(d), h * f_end[i])
        if 'C06' in P and not (changes and mode != 'first'):
            self.order_conditions(c, s, prob, told, yold, h, D, th, y)
        if 'C08' in P:
            for k, v in state.items():
                w = vars(s).get(k, None)
                # two-dimensional arrays are scratch: every step is proved for
                # arbitrary contents of them (they are havocked at the loop head)
                if isinstance(v, np.ndarray) and v.dtype == object and v.ndim == 1 \
                        and isinstance(w, np.ndarray):
                    if changes and k in ('y', 'f'):
                        continue
                    c.prove_eq(f'C08 requesting dense output leaves self.{k}', w, v)
                elif isinstance(v, (S, bool, int, str)) and k not in ('nfev',):
                    c.prove_eq(f'C08 requesting dense output leaves self.{k}', w, v) \
                        if isinstance(v, S) else \
                        c.prove(f'C08 requesting dense output leaves self.{k}', w == v)
            self.alias(c, s, D, th, told, h)

    def alias(self, c, s, D, th, told, h):
        """nothing reachable from the returned object can be written by the
        solver: overwrite every array of the solver and evaluate again"""
        if c.ex.changed:
            return
        before = [col(D, told), col(D, told + th * h), col(D, told + h)]
        saved = []
        owned = self.frozen(s)
        for k, v in list(vars(s).items()):
            if isinstance(v, np.ndarray) and v.size and k not in owned and v.flags.writeable:
                saved.append((v, v.copy()))
                v[...] = sy.lift(7) if v.dtype == object else 7
        after = [col(D, told), col(D, told + th * h), col(D, told + h)]
        for a, b in zip(before, after):
            c.prove_eq('C08 dense output shares no array that the solver writes', b, a)
        for v, w in saved:
            v[...] = w

    # arrays that are never written in place by any step (proved separately by
    # the frame obligation on the state arrays)
    def frozen(self, s):
        return {'y', 'y_old', 'f', 'f_old'}

    # ------------------------------------------------------------- C06
    def order_conditions(self, c, s, prob, told, yold, h, D, th, ynew):
        """read the tableau off the terms that the running code computed and
        evaluate the order conditions in exact arithmetic"""
        if c.ex.changed:
            return
        try:
            T = Table(c, prob, told, yold, h, self.nys)
            b = [T.linear(v, j) for j, v in enumerate(ynew)]
            nst = len(T.rows)
            dense = []
            if D is not None:
                z = col(D, told + th * h)
                g = [theta_poly(c, v, th) for v in z]
                if any(p is None for p in g):
                    raise NotLinear('dense output is not a polynomial')
                dense = [{k: T.linear(v, j, zero=k) for k, v in p.items()} for j, p in enumerate(g)]
        except NotLinear as e:
            c.fail('C06 the step is a linear combination of stage evaluations', str(e))
            return
        key = T.key(b, dense)
        if key not in self.tables:
            o = self.orders
            if hasattr(self.cls, 'B_fallback') and nst <= 4:
                # documented: two stages order 2, four stages order 3, with a
                # cubic Hermite interpolant
                o = (2, 2) if nst == 2 else (3, 3)
                c.covered(f'fallback order {o[0]}')
            self.tables[key] = T.conditions(b, dense, o, self.nys)
        c.prove('C06 the step is a linear combination of stage evaluations', True)
        for label, bad in self.tables[key]:
            if bad:
                c.fail(label, bad)
            else:
                c.prove(label, True)


class NotLinear(Exception):
    pass


class Table:
    """tableau of the stages that a term depends on (n = 1)"""

    def __init__(self, c, prob, told, yold, h, nys):
        self.c, self.nys, self.h = c, nys, c.nf(h)
        self.told = c.nf(sy.lift(told))
        self.y = [c.nf(sy.lift(v)) for v in yold]
        if len(self.h.p) != 1:
            raise NotLinear('step size is not a name')
        (self.hm, self.hc), = self.h.p.items()
        self.idx, self.rows, self.cs = {}, [], []
        self.names = {f'{prob.tag}{i}' for i in range(prob.n)}

    def stage(self, i):
        """stage number of the function application with atom number i"""
        if i in self.idx:
            return self.idx[i]
        a = ATOMS[i]
        args = [self.c.nf(x) for x in a.args]
        ct = self.ratio(args[0] - self.told)
        if self.nys:
            y = args[1:]
            row = (self.linear(y[0], 0, 2, False), self.linear(y[1], 1, 1, False) if len(y) > 1 else None)
            cx = self.v0
            self.check_c = cx
        else:
            row = self.linear(args[1], 0)
        self.idx[i] = len(self.rows)
        self.rows.append(row)
        self.cs.append(ct)
        return self.idx[i]

    def ratio(self, p):
        p = self.c.nf(p)
        if not p.p:
            return Fraction(0)
        q = p / self.h
        if not q.is_const():
            raise NotLinear(f'stage time {p}')
        return q.const()

    def linear(self, v, j, shift=None, _=None, zero=None):
        """v = y_j (+ c h v) + h**shift * sum(w_i F_i): returns {i: w_i}; for a
        coefficient of theta**k, k > 0, without the y_j"""
        v = self.c.nf(sy.lift(v))
        if shift is None:
            shift = 1 if not self.nys else 2 if j < len(self.y) // 2 else 1
        out = {}
        rest = {}
        for m, co in v.p.items():
            f = [(a, e) for a, e in m if ATOMS[a].kind == 'app' and ATOMS[a].name in self.names]
            if not f:
                rest[m] = co
                continue
            if len(f) != 1 or f[0][1] != 1:
                raise NotLinear(f'not linear in the stages: {v}')
            q = S({tuple(x for x in m if x != f[0]): co}) / (self.h ** shift)
            if not q.is_const():
                raise NotLinear(f'not homogeneous in h: {q}')
            i = self.stage(f[0][0])
            out[i] = out.get(i, 0) + q.const()
        r = S(rest)
        if not zero:
            r = r - self.y[j]
        self.v0 = Fraction(0)
        r = self.c.nf(r)
        if r.p and self.nys and j < len(self.y) // 2:
            q = r / (self.h * self.y[j + len(self.y) // 2])
            if q.is_const():
                self.v0 = q.const()
                out['v'] = q.const()
                r = S({})
        if r.p and max(abs(x) for x in r.p.values()) > Fraction(1, 10**11):
            raise NotLinear(f'unexpected part {r}')
        return out

    def key(self, b, dense):
        def k(d):
            return tuple(sorted((str(i), round(float(w), 9)) for i, w in d.items()))
        rows = tuple(k(r) if isinstance(r, dict) else tuple(k(x) for x in r if x) for r in self.rows)
        return (rows, tuple(round(float(x), 9) for x in self.cs), tuple(map(k, b)),
                tuple(tuple(sorted((e, k(w)) for e, w in d.items())) for d in dense))

    def conditions(self, b, dense, orders, nys):
        from mon import trees
        s = len(self.rows)
        q, want = orders
        out = []

        def vec(d):
            return [d.get(i, Fraction(0)) for i in range(s)]

        def first_bad(gen, order, tol=Fraction(1, 10**9)):
            for o, n, d, size in gen:
                if o <= order and abs(d) > tol * (1 + size):
                    return f'order {o} condition {n}: defect {float(d):.3e}'
            return None
        wants = list(want) if isinstance(want, (tuple, list)) else [want]
        top = max([q] + wants)
        if not nys:
            A = [vec(r) for r in self.rows]
            dev = max([abs(sum(r, Fraction(0)) - x) for r, x in zip(A, self.cs)])
            out.append(('C06 stage times are the row sums', dev > Fraction(1, 10**12) and f'{float(dev)}'))
            tr = trees.Trees(s, top - 1, [('', 1, A, lambda w: Fraction(1, w + 1))])
            parts = [(1, b[0], dense[0] if dense else {}, wants[0])]
        else:
            A = [vec(r[0]) for r in self.rows]
            dev = max([abs(r[0].get('v', Fraction(0)) - x) for r, x in zip(self.rows, self.cs)])
            out.append(('C06 stage times and positions agree', dev > Fraction(1, 10**12) and f'{float(dev)}'))
            e = [('c', 1, self.cs, None), ('x', 2, A, lambda w: Fraction(1, (w + 1) * (w + 2)))]
            if self.rows and self.rows[0][1] is not None:
                e.append(('v', 1, [vec(r[1]) for r in self.rows], lambda w: Fraction(1, w + 1)))
            tr = trees.Trees(s, top - 1, e)
            parts = [(2, b[0], dense[0] if dense else {}, wants[0]),
                     (1, b[1], dense[1] if dense else {}, wants[1])]
        for shift, w, d, od in parts:
            nm = '' if not nys else ' (displacement)' if shift == 2 else ' (velocity)'
            out.append((f'C06 order {q} of the solution{nm}',
                        first_bad(trees.defects(tr, vec(w), shift, top), q)))
            if nys and shift == 2:
                out.append(('C06 velocity enters the displacement once',
                            abs(w.get('v', 0) - 1) > Fraction(1, 10**12) and str(w.get('v'))))
            if d:
                pows = sorted(d)
                P = [[d[k].get(i, Fraction(0)) for k in pows] for i in range(s)]
                out.append((f'C06 order {od} of the dense output{nm}, for all theta',
                            first_bad(trees.theta_defects(tr, P, shift, top, pows), od)))
        return out


def rename_h(c, s, yold):
    """where the step size is the rest of the interval (or a part of it) write
    t_bound as t_old + r * H with a new name H, to keep the terms small"""
    h = c.nf(sy.lift(s.t - s.t_old))
    tb = sy.lift(s.t_bound)
    if len(h.p) < 2 or len(tb.p) != 1:
        return (lambda: None), yold
    (m, co), = tb.p.items()
    if co != 1 or len(m) != 1 or m[0][1] != 1 or m not in h.p:
        return (lambda: None), yold
    H = None
    for i, (b, v) in enumerate(c.eqs):           # the step size has a name already
        for sg in (1, -1):
            if H is None and not c.nf(v - h * sg).p:
                H, at = S({((b, 1),): 1}) * sg, i
    if H is not None:
        del c.eqs[at]
    else:
        H = sy.fresh('H')
    a = m[0][0]
    k = h.p[m]
    rest = S({x: v for x, v in h.p.items() if x != m})
    if uses_any(rest, a):
        return (lambda: None), yold
    t = (H - rest) * (1 / k)                 # h == H
    c.eqs.append((a, t))
    sub = {a: t}
    memo = {}
    undo = []
    done = {}

    def new(v):
        return sy.subst(v, sub, memo) if isinstance(v, S) else v
    for k, v in list(vars(s).items()):
        if isinstance(v, S):
            undo.append((s.__dict__, k, v))
            s.__dict__[k] = new(v)
        elif isinstance(v, np.ndarray) and v.dtype == object:
            base = v if v.base is None or not isinstance(v.base, np.ndarray) else v.base
            if id(base) in done:
                continue
            done[id(base)] = base
            undo.append((base, Ellipsis, base.copy()))
            if base.flags.writeable:
                for i in np.ndindex(*base.shape):
                    base[i] = new(base[i])
    y2 = yold.copy()
    for i in np.ndindex(*y2.shape):
        y2[i] = new(y2[i])

    def back():
        for o, k, v in undo:
            o[k] = v
    return back, y2


def uses_any(p, a):
    return any(uses(i, a) for i in p.atoms())


def sum_(d):
    r = sy.lift(0)
    for v in d.values():
        r = r + v
    return r


def theta_poly(c, v, th):
    """coefficients by power of theta, or None"""
    (m, _), = th.p.items()
    a = m[0][0]
    v = c.nf(sy.lift(v))
    out = {}
    for mono, co in v.p.items():
        e, rest = 0, []
        for x, k in mono:
            if x == a:
                e = k
            else:
                if uses(x, a):
                    return None
                rest.append((x, k))
        if e < 0:
            return None
        out.setdefault(e, {})[tuple(rest)] = co
    return {e: S(p) for e, p in out.items()}


def uses(i, a):
    seen, st = set(), [i]
    while st:
        x = st.pop()
        if x == a:
            return True
        if x in seen:
            continue
        seen.add(x)
        for g in ATOMS[x].args:
            if isinstance(g, S):
                st += list(g.atoms())
    return False


def deriv(g):
    return {k - 1: v * k for k, v in g.items() if k}

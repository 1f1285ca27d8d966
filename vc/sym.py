"""Symbolic reals for the verification-condition generator.

A scalar `S` is a Laurent polynomial with exact rational coefficients over
hash-consed atoms, so equality of two terms is decided by normal form.  Atoms
are symbols, applications of uninterpreted functions (the user's functions),
and a few interpreted operations (abs, max, pow, sqrt, inverse, mod, floor,
rnd) that come with axioms for z3.  Comparisons give `B` (formula) objects
whose truth value is decided by the current exploration context (path forks).
Machine floats that occur as constants are converted exactly.
"""
from fractions import Fraction
import math
import numbers
import numpy as np
import z3


class Unsupported(Exception):
    """the source left the subset the generator can execute symbolically"""


class PathEnd(Exception):
    """the current path ends here (infeasible, or loop back edge)"""
    def __init__(self, why=''):
        super().__init__(why)
        self.why = why


_CTX = [None]


def ctx():
    return _CTX[0]


def set_ctx(c):
    _CTX[0] = c


# ----------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('id', 'kind', 'args', 'name', 'vec', 'z', 'key', 'fp', 'integer')

    def __repr__(self):
        return show_atom(self)


ATOMS = []
_TABLE = {}
_FRESH = [0]


def reset():
    ATOMS.clear()
    _TABLE.clear()
    _FRESH[0] = 0


def atom(kind, name, args=(), vec=False, fp=False, integer=False):
    key = (kind, name) + tuple(a.key() if isinstance(a, S) else a for a in args)
    a = _TABLE.get(key)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind, a.name, a.args, a.vec, a.key, a.fp = kind, name, args, vec, key, fp
        a.integer = integer
        a.z = z3.Real(f'a{a.id}')
        ATOMS.append(a)
        _TABLE[key] = a
    return a


def show_atom(a):
    if a.kind == 'sym':
        return a.name
    return f"{a.name if a.kind == 'app' else a.kind}({', '.join(map(str, a.args))})"


def sym(name, vec=False, fp=False, integer=False):
    return S({((atom('sym', name, (), vec, fp, integer).id, 1),): Fraction(1)}, fp)


def fresh(prefix, vec=False, fp=False, integer=False):
    _FRESH[0] += 1
    return sym(f'{prefix}#{_FRESH[0]}', vec, fp, integer)


def value(prefix, shape):
    """arbitrary values about which nothing is known (outside the reach of
    arithmetic reasoning)"""
    a = np.empty(shape, object)
    for i in np.ndindex(*a.shape):
        _FRESH[0] += 1
        a[i] = app(f'{prefix}#{_FRESH[0]}', [])
    return a


def app(fname, args, vec=True):
    """application of an uninterpreted function"""
    args = tuple(lift(a) for a in args)
    return S({((atom('app', fname, args, vec).id, 1),): Fraction(1)})


# ----------------------------------------------------------------- polynomials
def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        e2 = d.get(a, 0) + e
        if e2:
            d[a] = e2
        else:
            del d[a]
    return tuple(sorted(d.items()))


def _padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        c2 = r.get(m, 0) + s * c
        if c2:
            r[m] = c2
        else:
            r.pop(m, None)
    return r


MAX_TERMS = 60000


def _pmul(p, q):
    if len(p) * len(q) > MAX_TERMS:
        raise Unsupported('polynomial too large')
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mono_mul(m1, m2)
            c = r.get(m, 0) + c1 * c2
            if c:
                r[m] = c
            else:
                r.pop(m, None)
    return r


def _ratio(p, q):
    """p/q if p is a monomial times q, else None"""
    if len(p) != len(q) or not p:
        return None
    (m1, c1), (m2, c2) = min(p.items()), min(q.items())
    inv2 = tuple((a, -e) for a, e in m2)
    m, c = _mono_mul(m1, inv2), c1 / c2
    for k, v in q.items():
        if p.get(_mono_mul(k, m)) != v * c:
            break
    else:
        return {m: c}
    return None


def clear_denominators(d):
    """multiply a term by the arguments of its inv atoms; the result is the
    zero polynomial iff d is zero as a rational function"""
    for _ in range(12):
        invs = [a for a in d.atoms() if ATOMS[a].kind == 'inv']
        if not invs:
            return d
        a = max(invs)
        q = ATOMS[a].args[0]
        parts = {}
        for m, c in d.p.items():
            e = dict(m).get(a, 0)
            rest = tuple(x for x in m if x[0] != a)
            parts.setdefault(e, {})[rest] = c
        k = max(parts)
        out = {}
        for e, part in parts.items():
            for _ in range(k - e):
                part = _pmul(part, q.p)
            out = _padd(out, part)
        d = S(out)
    return d


def is_special(x):
    return isinstance(x, numbers.Real) and not isinstance(x, (bool, Fraction)) \
        and not math.isfinite(x)


def lift(x):
    if isinstance(x, S):
        return x
    if isinstance(x, Fraction):
        return S({(): x} if x else {}, False)
    if isinstance(x, (bool, np.bool_)):
        return S({(): Fraction(1)} if x else {})
    if isinstance(x, (int, np.integer)):
        return S({(): Fraction(int(x))} if x else {}, True)
    if isinstance(x, (float, np.floating)):
        if not math.isfinite(x):
            raise Unsupported('special float in term')
        return S({(): Fraction(float(x))} if x else {}, True)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x[()])
    if isinstance(x, (complex, np.complexfloating)):
        if x.imag == 0:
            return lift(x.real)
        raise Unsupported('complex constant')
    raise Unsupported(f'cannot lift {type(x).__name__}')


_NUM = (int, float, Fraction, np.integer, np.floating, np.bool_)


def elementwise(f, a):
    r = np.empty(a.shape, object)
    for i in np.ndindex(*a.shape):
        r[i] = f(a[i])
    return r


class S:
    __slots__ = ('p', 'fp', '_key')
    __array_priority__ = 1000

    def __init__(self, p, fp=False):
        self.p = p
        self.fp = fp            # value of a machine float (rounded mode)
        self._key = None

    # -- structure
    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.p.items()))
        return self._key

    def is_const(self):
        return not self.p or (len(self.p) == 1 and () in self.p)

    def const(self):
        return self.p.get((), Fraction(0))

    def atoms(self):
        return {a for m in self.p for a, _ in m}

    def has_vec(self):
        return any(ATOMS[a].vec for a in self.atoms())

    def same(self, o):
        return self.p == lift(o).p

    def __repr__(self):
        if not self.p:
            return '0'
        out = []
        for m, c in list(sorted(self.p.items()))[:8]:
            t = '*'.join(show_atom(ATOMS[a]) + (f'**{e}' if e != 1 else '')
                         for a, e in m)
            if not t:
                t = f'{float(c):.6g}'
            elif c != 1:
                t = f'{float(c):.6g}*{t}'
            out.append(t)
        if len(self.p) > 8:
            out.append(f'...[{len(self.p)} terms]')
        s = ' + '.join(out)
        return s if len(s) < 400 else s[:400] + '...'

    # -- arithmetic
    def __add__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return elementwise(lambda v: self + v, o)
        if is_special(o):
            return float(o)
        o = lift(o)
        return rnd2(S(_padd(self.p, o.p)), self, o, 'add')
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return elementwise(lambda v: self - v, o)
        if is_special(o):
            return -float(o)
        o = lift(o)
        return rnd2(S(_padd(self.p, o.p, -1)), self, o, 'add')

    def __rsub__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return elementwise(lambda v: v - self, o)
        if is_special(o):
            return float(o)
        return lift(o).__sub__(self)

    def __neg__(self):
        return S({m: -c for m, c in self.p.items()}, self.fp)

    def __pos__(self):
        return self

    def __mul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return elementwise(lambda v: self * v, o)
        if is_special(o):
            if math.isnan(o):
                return float('nan')
            if ctx().branch(cmp0(self, '==')):
                return float('nan')
            return float(o) if ctx().branch(cmp0(self, '>')) else -float(o)
        o = lift(o)
        return rnd2(S(_pmul(self.p, o.p)), self, o, 'mul')
    __rmul__ = __mul__

    def inverse(self):
        if not self.p:
            raise ZeroDivisionError('symbolic division by zero')
        if len(self.p) == 1:
            (m, c), = self.p.items()
            return S({tuple((a, -e) for a, e in m): 1 / c})
        # 1/(c*q): factor leading coefficient and common monomial
        items = sorted(self.p.items())
        c0 = items[0][1]
        common = None
        for m, _ in items:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {a: min(e, d[a]) for a, e in common.items() if a in d}
        cm = tuple(sorted((a, e) for a, e in common.items() if e))
        inv_cm = tuple((a, -e) for a, e in cm)
        q = S({_mono_mul(m, inv_cm): c / c0 for m, c in items})
        a = atom('inv', 'inv', (q,), vec=q.has_vec())
        return S({_mono_mul(((a.id, 1),), inv_cm): 1 / c0})

    def __truediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return elementwise(lambda v: self / v, o)
        if is_special(o):
            return float('nan') if math.isnan(o) else 0.0
        o = lift(o)
        c = ctx()
        if not o.is_const() and c is not None:
            c.divisor(o)
        if c is not None and c.ex.forkmax and len(self.p) > 1 and not o.is_const() \
                and not self.has_vec() and not o.has_vec():
            # name the quotient: q * divisor == dividend
            r = S({((atom('app', 'quot', (S(self.p), S(o.p))).id, 1),): Fraction(1)})
            c.assume(cmp0(r * o - self, '=='))
            return r
        q = _ratio(self.p, o.p) if len(o.p) > 1 else None
        if q is None:
            q = _pmul(self.p, o.inverse().p)
        return rnd2(S(q), self, o, 'div')

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return elementwise(lambda v: v / self, o)
        if is_special(o):
            return float(o) * (1 if ctx().branch(cmp0(self, '>')) else -1)
        return lift(o).__truediv__(self)

    def __floordiv__(self, o):
        o = lift(o)
        a = atom('floor', 'floor', (self / o,), integer=True)
        return S({((a.id, 1),): Fraction(1)})

    def __mod__(self, o):
        o = lift(o)
        if o.is_const() and o.const() in (1, 2, 3, 4) and not self.is_const() and all(
                cf.denominator == 1 and all(ATOMS[a].integer and e > 0 for a, e in m)
                for m, cf in self.p.items()):
            # remainder of an integer by a small one: used as an index
            n = int(o.const())
            r = ctx().choose(n, 'remainder')
            q = fresh('quotient', integer=True)
            ctx().assume(cmp0(self - q * n - r, '=='))
            return lift(r)
        return self - o * (self // o)

    def __rmod__(self, o):
        return lift(o) % self

    def __pow__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return elementwise(lambda v: self ** v, o)
        o = lift(o)
        if o.is_const():
            e = o.const()
            if e.denominator == 1 and abs(e) <= 8:
                e = int(e)
                if e < 0:
                    return lift(1) / self**(-e)
                r = lift(1)
                for _ in range(e):
                    r = r * self
                return r
            if e == Fraction(1, 2):
                return sqrt(self)
            if e == Fraction(-1, 2):
                return lift(1) / sqrt(self)
        if self.is_const() and self.const() == 1:
            return lift(1)
        return power(self, o)

    def __rpow__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return elementwise(lambda v: v ** self, o)
        if is_special(o):
            if math.isnan(o):
                return o
            if ctx().branch(cmp0(self, '<')):
                return 0.0
            return float('inf') if ctx().branch(cmp0(self, '>')) else 1.0
        return lift(o) ** self

    def __abs__(self):
        return absolute(self)

    def sqrt(self):
        return sqrt(self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return lift(0)

    @property
    def size(self):
        return 1

    @property
    def shape(self):
        return ()

    ndim = 0

    @property
    def dtype(self):
        return np.dtype(object)

    def copy(self):
        return self

    def item(self):
        return self

    # -- comparisons
    def __lt__(self, o):
        return compare(self, o, '<')

    def __le__(self, o):
        return compare(self, o, '<=')

    def __gt__(self, o):
        return compare(self, o, '>')

    def __ge__(self, o):
        return compare(self, o, '>=')

    def __eq__(self, o):
        return compare(self, o, '==')

    def __ne__(self, o):
        return compare(self, o, '!=')

    def __hash__(self):
        return hash(self.key())

    def __bool__(self):
        return ctx().branch(cmp0(self, '!='))

    def __float__(self):
        if self.is_const():
            return float(self.const())
        raise Unsupported('float() of a symbolic value')

    def __int__(self):
        if self.is_const():
            return int(self.const())
        raise Unsupported('int() of a symbolic value')

    def __index__(self):
        if self.is_const() and self.const().denominator == 1:
            return int(self.const())
        raise Unsupported('symbolic index')

    def __round__(self, n=None):
        if self.is_const():
            return round(self.const(), n)
        raise Unsupported('round() of a symbolic value')


def rnd2(r, a, b, op):
    """rounding of the exact result r of an operation on a and b, if the
    context models machine rounding and both operands are machine floats."""
    c = ctx()
    if c is None or not c.rounding or not (a.fp and b.fp):
        return r
    if r.is_const():
        # constants: python evaluates constant expressions itself
        r.fp = True
        return r
    if op == 'add' and (not a.p or not b.p):
        r.fp = True
        return r
    if op in ('mul', 'div'):
        for x in ((a, b) if op == 'mul' else (b,)):
            if x.is_const() and x.p:
                f = abs(x.const())
                if f.numerator & (f.numerator - 1) == 0 and \
                        f.denominator & (f.denominator - 1) == 0:
                    r.fp = True          # power of two (no underflow assumed)
                    return r
    at = atom('rnd', 'rnd', (r,), fp=True)
    return S({((at.id, 1),): Fraction(1)}, True)


def sign_known(p):
    """sign of a term if it is implied by the path condition, else None"""
    if p.is_const():
        c = p.const()
        return (c > 0) - (c < 0)
    c = ctx()
    if c is None or deep(p):
        return None
    if len(p.p) == 1 and all(ATOMS[a].kind == 'sym' and ATOMS[a].vec for a in p.atoms()):
        return None                       # a component of the state
    if c.implied(cmp0(p, '>=')):
        return 1
    if c.implied(cmp0(p, '<=')):
        return -1
    return None


def absolute(x):
    if x.is_const():
        return S({(): abs(x.const())} if x.p else {}, x.fp)
    s = sign_known(x)
    if s is not None:
        return x if s >= 0 else -x
    if len(x.p) == 1:
        (m, c), = x.p.items()
        r = lift(abs(c))
        if len(m) > 1 or m[0][1] != 1:
            for a, e in m:
                b = absolute(S({((a, 1),): Fraction(1)}))
                r = r * (b ** e)
            r.fp = x.fp
            return r
        if ATOMS[m[0][0]].kind in ('abs', 'sqrt'):
            r = r * S({m: Fraction(1)})
            r.fp = x.fp
            return r
        at = atom('abs', 'abs', (S({m: Fraction(1)}),), vec=x.has_vec())
        r = S({((at.id, 1),): abs(c)})
        r.fp = x.fp
        return r
    # normalise the sign (only), keeps |p| == |-p|
    items = sorted(x.p.items())
    if items[0][1] < 0:
        x = -x
    at = atom('abs', 'abs', (x,), vec=x.has_vec())
    return S({((at.id, 1),): Fraction(1)}, x.fp)


def maximum(a, b):
    if is_special(a) or is_special(b):
        a_, b_ = (a, b) if is_special(a) else (b, a)
        if math.isnan(a_):
            return float('nan')
        return float('inf') if a_ > 0 else b_
    a, b = lift(a), lift(b)
    if a.same(b):
        return a
    if a.is_const() and b.is_const():
        return a if a.const() >= b.const() else b
    d = a - b
    s = sign_known(S(d.p))
    if s is not None:
        return a if s >= 0 else b
    if b.key() < a.key():
        a, b = b, a
    at = atom('max', 'max', (a, b), vec=a.has_vec() or b.has_vec())
    return S({((at.id, 1),): Fraction(1)}, a.fp and b.fp)


def minimum(a, b):
    return -maximum(-a if not is_special(a) else -a,
                    -b if not is_special(b) else -b)


def sqrt(x, fork=True):
    if is_special(x):
        return float('nan') if (math.isnan(x) or x < 0) else x
    x = lift(x)
    if x.is_const():
        c = x.const()
        n, d = math.isqrt(c.numerator) if c >= 0 else -1, math.isqrt(c.denominator)
        if c < 0:
            raise ValueError('math domain error')
        if n*n == c.numerator and d*d == c.denominator:
            return lift(Fraction(n, d))
        return lift(math.sqrt(float(c)))
    if len(x.p) == 1:
        (m, c), = x.p.items()
        if all(e % 2 == 0 for _, e in m):
            r = sqrt(lift(c))
            for a, e in m:
                r = r * absolute(S({((a, 1),): Fraction(1)}))**(e//2)
            return r
    at = atom('sqrt', 'sqrt', (S(x.p),), vec=x.has_vec())
    r = S({((at.id, 1),): Fraction(1)}, x.fp)
    c = ctx()
    if fork and c is not None and c.specials and x.has_vec() and (
            c.specials != 'norm' or any(ATOMS[i].kind == 'app' and ATOMS[i].vec for i in x.atoms())):
        # the norm of values of the user's function can overflow or be nan
        if c.branch(pred('isnan', r)):
            return float('nan')
        if c.branch(pred('isinf', r)):
            return float('inf')
    return r


def power(b, e):
    at = atom('pow', 'pow', (b, e), vec=b.has_vec())
    return S({((at.id, 1),): Fraction(1)}, b.fp and e.fp)


def floor(x):
    x = lift(x)
    if x.is_const():
        return lift(math.floor(x.const()))
    at = atom('floor', 'floor', (x,), integer=True)
    return S({((at.id, 1),): Fraction(1)}, True)


# ------------------------------------------------------------------- formulas
class B:
    """formula; bool() asks the context to decide (fork)"""
    __slots__ = ('op', 'args', '_k')
    __array_priority__ = 1000

    def __init__(self, op, args):
        self.op, self.args = op, args
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (self.op,) + tuple(
                a.key() if isinstance(a, (S, B)) else a for a in self.args)
        return self._k

    def __bool__(self):
        return ctx().branch(self)

    def __invert__(self):
        return neg(self)

    def __and__(self, o):
        return conj(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return neg(conj(neg(self), neg(o)))
    __ror__ = __or__

    def __repr__(self):
        if self.op == 'not':
            return f'not({self.args[0]})'
        if self.op == 'and':
            return '(' + ' & '.join(map(str, self.args)) + ')'
        if self.op == 'pred':
            return f'{self.args[0]}({self.args[1]})'
        return f'({self.args[0]}) {self.op} 0'

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self


TRUE = B('const', (True,))
FALSE = B('const', (False,))


def cmp0(p, op):
    if p.is_const():
        c = p.const()
        r = {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0,
             '==': c == 0, '!=': c != 0}[op]
        return TRUE if r else FALSE
    if op in ('>', '>='):
        p, op = -p, {'>': '<', '>=': '<='}[op]
    if op == '<=':                 # p <= 0  <->  not(-p < 0)
        return neg(B('<', (-S(p.p),)))
    if op == '!=':
        return neg(cmp0(p, '=='))
    if op == '==':
        if sorted(p.p.items())[0][1] < 0:
            p = -p
        return B('==', (S(p.p),))
    return B('<', (S(p.p),))


def compare(a, o, op):
    if isinstance(o, np.ndarray) and o.ndim:
        return elementwise(lambda v: compare(a, v, op), o)
    if o is None or isinstance(o, str):
        return op == '!=' if op in ('==', '!=') else NotImplemented
    if is_special(o):
        if math.isnan(o):
            return op == '!='
        big = o > 0
        return {'<': big, '<=': big, '>': not big, '>=': not big,
                '==': False, '!=': True}[op]
    try:
        o = lift(o)
    except Unsupported:
        if op in ('==', '!='):
            return op == '!='
        raise
    r = cmp0(S(_padd(a.p, o.p, -1)), op)
    if r.op == 'const':
        return r.args[0]
    return r


def neg(b):
    if isinstance(b, (bool, np.bool_)):
        return FALSE if b else TRUE
    if b.op == 'const':
        return FALSE if b.args[0] else TRUE
    if b.op == 'not':
        return b.args[0]
    return B('not', (b,))


def conj(*bs):
    out = []
    for b in bs:
        if isinstance(b, (bool, np.bool_)):
            b = TRUE if b else FALSE
        if b.op == 'const':
            if not b.args[0]:
                return FALSE
            continue
        out.append(b)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return B('and', tuple(out))


def disj(*bs):
    return neg(conj(*[neg(b) for b in bs]))


def implies(a, b):
    return disj(neg(a), b)


def as_b(x):
    if isinstance(x, B):
        return x
    if isinstance(x, S):
        return cmp0(x, '!=')
    return TRUE if x else FALSE


def pred(name, x):
    return B('pred', (name, x))


# -------------------------------------------------------------- translation
def to_z3(p):
    terms = []
    for m, c in p.p.items():
        t = z3.RealVal(str(c))
        num, den = None, None
        for a, e in m:
            z = ATOMS[a].z
            for _ in range(abs(e)):
                if e > 0:
                    num = z if num is None else num * z
                else:
                    den = z if den is None else den * z
        if num is not None:
            t = num if c == 1 else t * num
        if den is not None:
            t = t / den
        terms.append(t)
    if not terms:
        return z3.RealVal(0)
    return z3.Sum(terms) if len(terms) > 1 else terms[0]


_PRED = {}


def b_to_z3(b):
    if b.op == 'const':
        return z3.BoolVal(b.args[0])
    if b.op == 'not':
        return z3.Not(b_to_z3(b.args[0]))
    if b.op == 'and':
        return z3.And([b_to_z3(x) for x in b.args])
    if b.op == '<':
        return to_z3(b.args[0]) < 0
    if b.op == '==':
        return to_z3(b.args[0]) == 0
    if b.op == 'pred':
        k = b.key()
        if k not in _PRED:
            _PRED[k] = z3.Bool(f'p{len(_PRED)}')
        return _PRED[k]
    raise Unsupported(b.op)


_Z3C = {}
_AXC = {}


def b_to_z3c(b):
    k = b.key()
    r = _Z3C.get(k)
    if r is None:
        r = _Z3C[k] = b_to_z3(b)
    return r


def axioms_cached(i):
    r = _AXC.get(i)
    if r is None:
        r = _AXC[i] = axioms(ATOMS[i])
    return r


def b_atoms(b, out):
    if b.op in ('not', 'and'):
        for x in b.args:
            b_atoms(x, out)
    elif b.op in ('<', '=='):
        out |= b.args[0].atoms()
    return out


U = Fraction(1, 2**53)


def deep(x):
    """contains values of the user's function"""
    return any(deep_atom(i) for i in x.atoms())


_DEEP = {}


def deep_atom(i):
    r = _DEEP.get(i)
    if r is None:
        a = ATOMS[i]
        r = _DEEP[i] = a.vec and (a.kind == 'app' or any(
            isinstance(x, S) and deep(x) for x in a.args))
    return r


def axioms(a):
    """facts about an interpreted atom: list of z3 formulas, and the terms
    they mention"""
    z = a.z
    if a.kind == 'abs' and deep(a.args[0]):
        return [z >= 0], []
    if a.kind == 'abs':
        x = to_z3(a.args[0])
        return [z >= 0, z >= x, z >= -x, z3.Or(z == x, z == -x)], [a.args[0]]
    if a.kind == 'max':
        x, y = map(to_z3, a.args)
        return [z >= x, z >= y, z3.Or(z == x, z == y)], list(a.args)
    if a.kind == 'sqrt':
        x = a.args[0]
        ax = [z >= 0]
        rel = []
        if len(x.p) <= 6 and not deep(x):
            zx = to_z3(x)
            ax += [z3.Implies(zx >= 0, z * z == zx), z3.Implies(zx > 0, z > 0)]
            rel = [x]
        return ax, rel
    if a.kind == 'pow':
        b, e = a.args
        zb, ze = to_z3(b), to_z3(e)
        return [z3.Implies(zb > 0, z > 0),
                z3.Implies(z3.And(zb >= 0, ze > 0), z >= 0),
                z3.Implies(z3.And(zb >= 1, ze <= 0), z <= 1),
                z3.Implies(z3.And(zb > 1, ze < 0), z < 1),
                z3.Implies(z3.And(zb > 0, zb <= 1, ze <= 0), z >= 1),
                z3.Implies(z3.And(zb > 0, zb < 1, ze < 0), z > 1),
                z3.Implies(z3.And(zb >= 1, ze >= 0), z >= 1),
                z3.Implies(z3.And(zb > 0, zb <= 1, ze >= 0), z <= 1),
                z3.Implies(z3.And(zb == 0, ze > 0), z == 0),
                z3.Implies(z3.And(zb > 0, ze == 0), z == 1)], [b, e]
    if a.kind == 'inv':
        x = to_z3(a.args[0])
        if deep(a.args[0]):
            return [z3.Implies(x > 0, z > 0), z3.Implies(x < 0, z < 0)], [a.args[0]]
        return [z3.Implies(x != 0, z * x == 1)], [a.args[0]]
    if a.kind == 'floor':
        x = to_z3(a.args[0])
        k = z3.Int(f'i{a.id}')
        return [z == z3.ToReal(k), z <= x, z > x - 1], [a.args[0]]
    if a.kind == 'rnd':
        x = to_z3(a.args[0])
        u = z3.RealVal(str(U))
        ax = z3.If(x >= 0, x, -x)
        return [z - x <= u * ax, x - z <= u * ax,
                z3.Implies(x >= 0, z >= 0), z3.Implies(x <= 0, z <= 0),
                z3.Implies(x > 0, z > 0), z3.Implies(x < 0, z < 0)], [a.args[0]]
    if a.integer:
        return [z3.IsInt(z)], []
    return [], []


# --------------------------------------------------------------- substitution
def subst(p, sub, memo=None):
    """replace atoms (by id) with terms, recursively inside atoms"""
    if memo is None:
        memo = {}

    def at(i):
        if i in memo:
            return memo[i]
        a = ATOMS[i]
        if i in sub:
            r = sub[i]
        elif not a.args:
            r = S({((i, 1),): Fraction(1)}, a.fp)
        else:
            new = [subst(x, sub, memo) if isinstance(x, S) else x for x in a.args]
            if all(not isinstance(x, S) or x.p == y.p for x, y in zip(a.args, new)):
                r = S({((i, 1),): Fraction(1)}, a.fp)
            else:
                r = rebuild(a, new)
        memo[i] = r
        return r

    if not p.p:
        return p
    ids = p.atoms()
    vals = {i: at(i) for i in ids}
    if all(len(v.p) == 1 and v.p == {((i, 1),): Fraction(1)} for i, v in vals.items()):
        return p
    out = {}
    for m, c in p.p.items():
        t = {(): c}
        for a, e in m:
            v = vals[a].p
            if e < 0:
                v = S(v).inverse().p
            for _ in range(abs(e)):
                t = _pmul(t, v)
        out = _padd(out, t)
    return S(out, p.fp)


def rebuild(a, args):
    if a.kind == 'abs':
        return absolute(args[0])
    if a.kind == 'max':
        return maximum(*args)
    if a.kind == 'sqrt':
        return sqrt(args[0], False)
    if a.kind == 'pow':
        return args[0] ** args[1]
    if a.kind == 'inv':
        return args[0].inverse()
    if a.kind == 'floor':
        return floor(args[0])
    at = atom(a.kind, a.name, tuple(args), a.vec, a.fp, a.integer)
    return S({((at.id, 1),): Fraction(1)}, a.fp)


# ------------------------------------------------------------------- vectors
def vec_sym(name, n, fp=False):
    a = np.empty(n, object)
    for i in range(n):
        a[i] = sym(f'{name}[{i}]', vec=True)
    return a


def vec_fresh(name, shape):
    a = np.empty(shape, object)
    for idx in np.ndindex(*a.shape):
        a[idx] = fresh(f'{name}{list(idx)}', vec=True)
    return a


def rms(x, fork=False):
    """RMS norm of a real vector as a canonical term"""
    x = np.asarray(x, object).ravel()
    t = lift(0)
    for v in x:
        v = lift(v)
        t = t + v * v
    return sqrt(S((t / x.size).p), fork) if x.size else lift(0)


# --------------------------------------------------------- numeric evaluation
class Valuation:
    """random values for symbols, a fixed smooth random function for every
    uninterpreted function; used to refute equalities and to test tolerances"""

    def __init__(self, seed, pre=None):
        import random
        self.rng = random.Random(seed)
        self.seed = seed
        self.val = dict(pre or {})
        self.coef = {}

    def atom(self, i):
        if i in self.val:
            return self.val[i]
        a = ATOMS[i]
        if a.kind == 'sym':
            r = random_for(a, self.seed)
        elif a.kind == 'app':
            args = [self.term(x) for x in a.args]
            r = 0.3
            import zlib
            k = zlib.crc32(f'{a.name}{self.seed}'.encode())
            for j, v in enumerate(args):
                w = ((k >> (j * 3 % 24)) % 97 + 5) / 60.
                r += math.sin(w * v + j + k % 11) if abs(v) < 1e8 else 0.1
        elif a.kind == 'abs':
            r = abs(self.term(a.args[0]))
        elif a.kind == 'max':
            r = max(self.term(a.args[0]), self.term(a.args[1]))
        elif a.kind == 'sqrt':
            r = math.sqrt(abs(self.term(a.args[0])))
        elif a.kind == 'pow':
            b = self.term(a.args[0])
            r = abs(b) ** self.term(a.args[1]) if b else 0.
        elif a.kind == 'inv':
            r = 1 / self.term(a.args[0])
        elif a.kind == 'floor':
            r = float(math.floor(self.term(a.args[0])))
        elif a.kind == 'rnd':
            r = self.term(a.args[0])
        else:
            raise Unsupported(a.kind)
        self.val[i] = r
        return r

    def term(self, x):
        if not isinstance(x, S):
            return float(x)
        t = []
        for m, c in x.p.items():
            v = float(c)
            for a, e in m:
                v *= self.atom(a) ** e
            t.append(v)
        return math.fsum(t)

    def scale(self, x):
        """sum of the magnitudes of the terms"""
        t = 0.
        for m, c in x.p.items():
            v = float(c)
            for a, e in m:
                v *= self.atom(a) ** e
            t += abs(v)
        return t


def random_for(a, seed):
    import zlib
    k = zlib.crc32(f'{a.name}|{seed}'.encode())
    v = (k % 100003) / 100003.
    if a.integer:
        return float(k % 9)
    return 0.2 + 1.6 * v

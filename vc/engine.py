"""Exploration of all paths of the real code, loop rule with inferred
invariants, and discharge of obligations.

A run of the code under an `Explorer` is deterministic given a list of
choices; every undecided branch on a symbolic condition is a choice.  The
explorer re-executes the code for every list of choices (depth first).  Loops
are cut: see `Loop`.  The obligations (`prove`, `prove_eq`) are decided by
normal form and by z3 under the path condition.
"""
from fractions import Fraction
import time
import numpy as np
import z3
from . import sym as sy
from .sym import S, B, Unsupported, PathEnd, ATOMS


FIRST = 100000


class Budget(Exception):
    pass


class Restart(Exception):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.
        self.paths = 0
        self.unknown_feas = 0
        self.points = 0
        self.second = 0


class Obl:
    """all instances (one per path) of one named obligation"""
    def __init__(self, label):
        self.label = label
        self.proved = 0
        self.by = {}
        self.refuted = 0
        self.unknown = 0
        self.fail = []

    def as_dict(self):
        return dict(label=self.label, proved=self.proved, by=self.by,
                    refuted=self.refuted, unknown=self.unknown, fail=self.fail[:3])


class Explorer:
    def __init__(self, budget_s=300., rlimit=1500000, proof_rlimit=12000000,
                 max_paths=20000, max_rounds=14, rounding=False, specials=True, nl=True, search=True,
                 forkmax=False):
        self.search = search
        self.nl = nl
        self.budget_s = budget_s
        self.t0 = time.time()
        self.rlimit, self.proof_rlimit = rlimit, proof_rlimit
        self.max_paths, self.max_rounds = max_paths, max_rounds
        self.rounding, self.specials_on, self.forkmax = rounding, specials, forkmax
        self.stats = Stats()
        self.loops = {}
        self.obls = {}
        self.notes = {}
        self.cover = {}
        self.pcids = {}
        self.models = {}
        self.slices = {}
        self.merged = {}
        self.icache = {}
        self.unsupported = []
        self.changed = False
        self.rounds = 0
        self.divisors = {}
        self.on_backedge = None

    # ------------------------------------------------------------------ driver
    def explore(self, fn):
        for rnd in range(self.max_rounds):
            self.rounds = rnd + 1
            self.changed = False
            self.obls, self.cover, self.unsupported = {}, {}, []
            self.divisors = {}
            self._dfs(fn)
            if not self.changed:
                return self
        raise Unsupported('loop invariants did not reach a fixpoint')

    def _dfs(self, fn):
        stack = [[]]
        n = 0
        while stack:
            if time.time() - self.t0 > self.budget_s:
                raise Budget(f'time budget after {self.stats.paths} paths')
            n += 1
            if n > self.max_paths:
                raise Budget('too many paths')
            prefix = stack.pop()
            c = Ctx(self, prefix)
            sy.set_ctx(c)
            sy._FRESH[0] = 0
            self.stats.paths += 1
            try:
                fn(c)
            except PathEnd:
                pass
            except Unsupported as e:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)
                where = [f for f in tb if 'extensisq' in f.filename]
                w = f'{where[-1].name}:{where[-1].lineno}' if where else ''
                self.unsupported.append(f'{e} [{w}]')
            finally:
                sy.set_ctx(None)
            for i in range(len(prefix), len(c.trace)):
                idx, opts = c.trace[i]
                base = [x for x, _ in c.trace[:i]]
                for o in opts:
                    if o != idx:
                        stack.append(base + [o])

    def note(self, *a):
        if TRACE:
            print(self.rounds, *a)

    def obl(self, label):
        if label not in self.obls:
            self.obls[label] = Obl(label)
        return self.obls[label]


_FA = {}
TRACE = False            # print what changes from round to round


def formula_atoms(b):
    """atoms of a formula, with the atoms that their axioms mention"""
    k = b.key()
    r = _FA.get(k)
    if r is None:
        out, todo = set(), []
        st = [b]
        while st:
            x = st.pop()
            if x.op in ('not', 'and'):
                st += list(x.args)
            elif x.op in ('<', '=='):
                todo += list(x.args[0].atoms())
            elif x.op == 'pred':
                out.add(('p',) + x.key())
        while todo:
            i = todo.pop()
            if i not in out:
                out.add(i)
                for t in sy.axioms_cached(i)[1]:
                    todo += list(t.atoms())
        r = _FA[k] = frozenset(out)
    return r


class Undefined(Exception):
    pass


class Point:
    """values of the atoms: a model found by the solver, extended to atoms
    that the solver did not see.  Only used to see that a branch is feasible
    without asking the solver; proofs do not depend on it."""

    def __init__(self, model, base=None):
        self.m = model
        self.base = base
        self.v = {}

    def atom(self, i):
        v = self.v.get(i)
        if v is None:
            v = self.v[i] = self.make(ATOMS[i])
        return v

    def make(self, a):
        z = self.m[a.z]
        if z is not None:
            if z3.is_algebraic_value(z):
                z = z.approx(12)
            return z.as_fraction()
        if self.base is not None and a.kind in ('sym', 'app'):
            return self.base.atom(a.id)
        return self.compute(a)

    def compute(self, a):
        k = a.kind
        if k == 'abs':
            return abs(self.term(a.args[0]))
        if k == 'max':
            return max(self.term(a.args[0]), self.term(a.args[1]))
        if k == 'inv':
            x = self.term(a.args[0])
            if not x:
                raise Undefined
            return 1 / x
        if k == 'floor':
            return Fraction(self.term(a.args[0]).__floor__())
        if k == 'rnd':
            return self.term(a.args[0])
        if k == 'sqrt':
            x = a.args[0]
            if sy.deep(x):
                return Fraction(1, 2)
            x = float(self.term(x))
            if x < 0:
                raise Undefined
            return Fraction(x**.5)
        if k == 'pow':
            b, e = self.term(a.args[0]), self.term(a.args[1])
            if b <= 0:
                raise Undefined
            try:
                return Fraction(float(b)**float(e))
            except (OverflowError, ValueError):
                raise Undefined
        return Fraction(1)

    def term(self, x):
        t = Fraction(0)
        for m, c in x.p.items():
            for a, e in m:
                v = self.atom(a)
                if e < 0 and not v:
                    raise Undefined
                c = c * v**e
            t += c
        return t

    def holds(self, b):
        if b.op == 'const':
            return b.args[0]
        if b.op == 'not':
            return not self.holds(b.args[0])
        if b.op == 'and':
            return all(self.holds(x) for x in b.args)
        if b.op == '<':
            return self.term(b.args[0]) < 0
        if b.op == '==':
            return self.term(b.args[0]) == 0
        if b.op == 'pred':
            z = sy._PRED.get(b.key())
            v = self.m[z] if z is not None else None
            if v is None and self.base is not None:
                return self.base.holds(b)
            return v is not None and z3.is_true(v)
        raise Undefined


class Moved(Point):
    """a point with one value changed"""

    def __init__(self, base, i, value):
        self.base, self.i, self.v = base, i, {i: value}

    def make(self, a):
        if a.kind in ('sym', 'app') or (a.kind == 'sqrt' and sy.deep(a.args[0])) or \
                self.i not in closure(a.id):
            return self.base.atom(a.id)
        return self.compute(a)

    def holds(self, b):
        if b.op == 'pred':
            return self.base.holds(b)
        return super().holds(b)


_CL = {}


def closure(i):
    r = _CL.get(i)
    if r is None:
        out, todo = set(), [i]
        while todo:
            j = todo.pop()
            if j not in out:
                out.add(j)
                for t in sy.axioms_cached(j)[1]:
                    todo += list(t.atoms())
        r = _CL[i] = frozenset(out)
    return r


def moves(p, b):
    """points near p where b could hold"""
    while b.op == 'not':
        b = b.args[0]
    if b.op not in ('<', '=='):
        return
    t = b.args[0]
    for i in sorted(formula_atoms(b)):
        if isinstance(i, tuple):
            continue
        a = ATOMS[i]
        if not (a.kind == 'sym' or a.kind == 'app' or (a.kind == 'sqrt' and sy.deep(a.args[0]))):
            continue
        v = p.atom(i)
        f = p.term(t)
        d = Fraction(1) if a.integer else (abs(v) / 1024 or Fraction(1, 1024))
        try:
            g = (Moved(p, i, v + d).term(t) - f) / d
        except (Undefined, ZeroDivisionError):
            g = 0
        if g:
            r = v - f / g
            if a.integer:
                r = Fraction(round(r))
            e = Fraction(1) if a.integer else (abs(r) / 256 or Fraction(1, 256))
            c = [r, r + e, r - e] if b.op == '==' else [r + e, r - e, r]
        else:
            c = [v * 2, v / 2] if not a.integer else [v + 1]
        for x in c:
            yield Moved(p, i, x)


class Ctx:
    def __init__(self, ex, prefix):
        self.rules = {}
        self.ex = ex
        self.prefix = prefix
        self.trace = []               # (chosen, all feasible options)
        self.pc = []
        self.guard = None
        self.on_div = None            # called with every symbolic divisor
        self.on_sqrt = None           # called with every argument of math.sqrt
        self.pcid = 0
        self.known = {}
        self.eqs = []
        self.rounding = ex.rounding
        self.specials = ex.specials_on
        self.solver = None
        self.flushed = 0
        self.axdone = set()
        self.quiet = 0
        self.forks = True
        self.headpos = 0
        self.points = []              # [point, length of pc it was checked on]
        self.loopstack = []
        self.tracked = {}             # name -> object whose state is tracked
        self.aliases = {}
        self.loops = {}               # loop -> its last entry on this path
        self.exited = {}              # loop -> mode of the iteration that left it

    # ---------------------------------------------------------------- choices
    def choose(self, options, why=''):
        """fork over a list of options; all assumed feasible"""
        i = len(self.trace)
        options = list(range(len(options))) if not isinstance(options, int) \
            else list(range(options))
        if i < len(self.prefix):
            c = self.prefix[i]
            if isinstance(c, bool) or c not in options:
                self.desync()
        else:
            c = options[0]
        self.trace.append((c, options))
        return c

    def desync(self):
        # invariants were weakened during this round, which is repeated
        if self.ex.changed:
            raise PathEnd('replay')
        raise Unsupported('replay of a path differs')

    def branch(self, b):
        if isinstance(b, (bool, np.bool_)):
            return bool(b)
        if b.op == 'const':
            return b.args[0]
        if b.op == 'and':
            return all(self.branch(x) for x in b.args)
        if b.op == 'not':
            return not self.branch(b.args[0])
        k = b.key()
        if self.guard is not None and not self.quiet:
            self.guard(b)
        if k in self.known:
            return self.known[k]
        i = len(self.trace)
        if i < len(self.prefix):
            r = self.prefix[i]
            if not isinstance(r, bool):
                self.desync()
            self.trace.append((r, [r]))
        else:
            if b.op == 'pred':
                t = f = True
            else:
                t = not self.refutes(b)
                f = True if not t else not self.refutes(sy.neg(b))
            if t and f:
                if self.quiet:
                    raise Unsupported(f'undecided condition in a specification: {b}')
                r = True
                self.trace.append((True, [True, False]))
            else:
                r = t
                self.trace.append((r, [r]))
        self.assume(b if r else sy.neg(b))
        return r

    def assume(self, b):
        if isinstance(b, (bool, np.bool_)):
            if not b:
                raise PathEnd('assumption false')
            return
        if b.op == 'const':
            if not b.args[0]:
                raise PathEnd('assumption false')
            return
        if b.op == 'and':
            for x in b.args:
                self.assume(x)
            return
        if b.op == 'not':
            self.known[b.args[0].key()] = False
        else:
            self.known[b.key()] = True
        self.pc.append(b)
        key = (self.pcid, b.key())
        ids = self.ex.pcids
        if key not in ids:
            ids[key] = len(ids) + 1
        self.pcid = ids[key]
        for p in self.ex.models.get(self.pcid, ()):
            self.points.append([p, 0])
        if b.op == '==':
            self.orient(b.args[0])

    def forget(self, keep):
        """drop the assumptions that are not wanted any more (weaker, so sound)"""
        pc = [b for i, b in enumerate(self.pc) if keep(i, b)]
        self.pc, self.known, self.eqs = [], {}, []
        self.solver, self.flushed, self.axdone = None, 0, set()
        self.points = []
        self.pcid = self.ex.pcids.setdefault('forget', len(self.ex.pcids) + 1)
        for b in pc:
            self.assume(b)

    def merge(self, key):
        """end this path where an earlier one has reached the same state under
        the same assumptions"""
        tr = tuple(x for x, _ in self.trace)
        if self.ex.merged.setdefault((self.ex.rounds, key), tr) != tr:
            raise PathEnd('merged')

    def orient(self, p):
        """turn an equality into a substitution used in normal forms"""
        p = self.nf(p)
        cand = None
        for m, c in p.p.items():
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                if sum(1 for mm in p.p if any(x == a for x, _ in mm)) == 1 \
                        and not self._inside(a, p, m):
                    kind = ATOMS[a].kind
                    rank = (kind == 'sym', ATOMS[a].vec, a)
                    if cand is None or rank > cand[0]:
                        cand = (rank, a, m, c)
        if cand is None:
            return
        _, a, m, c = cand
        rest = {k: -v / c for k, v in p.p.items() if k != m}
        self.eqs.append((a, S(rest)))

    def _inside(self, a, p, skip):
        seen = set()
        todo = [x for m in p.p if m != skip for x, _ in m]
        while todo:
            i = todo.pop()
            if i == a:
                return True
            if i in seen:
                continue
            seen.add(i)
            for t in ATOMS[i].args:
                if isinstance(t, S):
                    todo += list(t.atoms())
        return False

    def nf(self, x):
        if not isinstance(x, S):
            return x
        for a, t in self.eqs:
            x = sy.subst(x, {a: t})
        return x

    # ----------------------------------------------------------------- solver
    def _axioms(self, solver, ids):
        todo = list(ids)
        while todo:
            i = todo.pop()
            if i in self.axdone:
                continue
            self.axdone.add(i)
            fs, rel = sy.axioms_cached(i)
            for f in fs:
                solver.add(f)
            for r in rel:
                todo += list(r.atoms())

    def _flush(self):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set('timeout', 20000)
            if not self.ex.nl:
                self.solver.set('arith.nl', False)
        while self.flushed < len(self.pc):
            b = self.pc[self.flushed]
            self.flushed += 1
            self._axioms(self.solver, sy.b_atoms(b, set()))
            self.solver.add(sy.b_to_z3c(b))

    def check(self, b, rlimit):
        self._flush()
        s = self.solver
        self._axioms(s, sy.b_atoms(b, set()))
        s.push()
        s.add(sy.b_to_z3c(b))
        s.set('rlimit', min(rlimit, FIRST))
        t = time.time()
        r = s.check()
        if r == z3.unknown:
            # the incremental solver is sometimes lost where a new one is not
            s.pop()
            one = z3.Solver()
            one.add(s.assertions())
            s.push()
            one.add(sy.b_to_z3c(b))
            one.set('rlimit', rlimit)
            one.set('timeout', 20000)
            r = one.check()
            self.ex.stats.second += 1
            if r == z3.sat:
                self.ex.stats.queries += 1
                self.ex.stats.solver_s += time.time() - t
                s.pop()
                return r, one.model()
        self.ex.stats.queries += 1
        self.ex.stats.solver_s += time.time() - t
        m = s.model() if r == z3.sat else None
        s.pop()
        return r, m

    def slice(self, b):
        """the part of the path condition that shares symbols with b,
        directly or through other parts"""
        at = set(formula_atoms(b))
        rest = [(x, formula_atoms(x)) for x in self.pc]
        out = []
        grew = True
        while grew:
            grew = False
            keep = []
            for x, a in rest:
                if a & at:
                    out.append(x)
                    if not a <= at:
                        at |= a
                        grew = True
                else:
                    keep.append((x, a))
            rest = keep
        return out, at

    def check_slice(self, b, rlimit):
        """the rest of the path condition is satisfiable on its own"""
        fs, at = self.slice(b)
        key = (frozenset(x.key() for x in fs), b.key())
        c = self.ex.slices
        if key in c:
            return c[key]
        s = z3.Solver()
        s.set('timeout', 20000)
        s.set('rlimit', rlimit)
        if not self.ex.nl:
            s.set('arith.nl', False)
        for i in at:
            if not isinstance(i, tuple):
                for f in sy.axioms_cached(i)[0]:
                    s.add(f)
        for x in fs:
            s.add(sy.b_to_z3c(x))
        s.add(sy.b_to_z3c(b))
        t = time.time()
        r = s.check()
        self.ex.stats.queries += 1
        self.ex.stats.solver_s += time.time() - t
        c[key] = r, (s.model() if r == z3.sat else None)
        return c[key]

    def refutes(self, b):
        """the path condition implies not b"""
        key = (self.pcid, b.key())
        c = self.ex.icache
        if key not in c:
            if self.witnessed(b):
                self.ex.stats.points += 1
                c[key] = False
                return False
            r, m = self.check_slice(b, self.ex.rlimit)
            if r == z3.sat and m is not None:
                p = Point(m, self.points[-1][0] if self.points else None)
                self.points.append([p, 0])
                self.ex.models.setdefault(self.pcid, []).append(p)
            if r == z3.unknown:
                self.ex.stats.unknown_feas += 1
            c[key] = r == z3.unsat
        return c[key]

    def witnessed(self, b):
        """some known model of the path condition satisfies b"""
        found = False
        for e in reversed(self.points[-6:]):
            p = e[0]
            try:
                while e[1] < len(self.pc):
                    if not p.holds(self.pc[e[1]]):
                        break
                    e[1] += 1
                else:
                    if p.holds(b):
                        found = True
                        break
            except (Undefined, ZeroDivisionError, OverflowError, AttributeError):
                pass
        if not found and self.points and self.ex.search:
            valid = [e[0] for e in self.points[-6:] if e[1] == len(self.pc)]
            if valid:
                base = valid[-1]
                try:
                    for p in moves(base, b):
                        try:
                            if p.holds(b) and all(p.holds(x) for x in reversed(self.pc)):
                                self.points.append([p, len(self.pc)])
                                self.ex.models.setdefault(self.pcid, []).append(p)
                                return True
                        except (Undefined, ZeroDivisionError, OverflowError, AttributeError):
                            pass
                except (Undefined, ZeroDivisionError, OverflowError, AttributeError):
                    pass
        return found

    def implied(self, b):
        if isinstance(b, (bool, np.bool_)):
            return bool(b)
        if b.op == 'const':
            return b.args[0]
        k = b.key()
        if k in self.known:
            return self.known[k]
        if b.op == 'not' and b.args[0].key() in self.known:
            return not self.known[b.args[0].key()]
        return self.refutes(sy.neg(b))

    def feasible(self):
        key = (self.pcid, 'feasible')
        c = self.ex.icache
        if key not in c:
            r, _ = self.check(sy.TRUE, self.ex.rlimit)
            c[key] = r != z3.unsat
        return c[key]

    def divisor(self, o):
        if self.on_div is not None:
            self.on_div(o)

    # ------------------------------------------------------------ obligations
    def prove(self, label, b, detail=None):
        if self.ex.changed:
            return True
        o = self.ex.obl(label)
        if isinstance(b, (bool, np.bool_)):
            if b:
                o.proved += 1
                o.by['evaluation'] = o.by.get('evaluation', 0) + 1
                return True
            b = sy.FALSE
        b = sy.as_b(b)
        if self.implied_pc_only(b):
            o.proved += 1
            o.by['path condition'] = o.by.get('path condition', 0) + 1
            return True
        r, m = self.check_slice(sy.neg(b), self.ex.proof_rlimit // 4)
        if r != z3.unsat:
            r, m = self.check(sy.neg(b), self.ex.proof_rlimit)
        if r == z3.unsat:
            o.proved += 1
            o.by['z3'] = o.by.get('z3', 0) + 1
            return True
        if r == z3.sat:
            o.refuted += 1
            status = 'refuted'
        else:
            o.unknown += 1
            status = 'unknown'
        if len(o.fail) < 3:
            o.fail.append(dict(status=status, goal=str(b)[:600],
                               detail=str(detail)[:300],
                               path=[str(x)[:160] for x in self.pc[-14:]],
                               model=self.show_model(m, b) if m is not None else None))
        return False

    def implied_pc_only(self, b):
        if b.op == 'const':
            return b.args[0]
        if b.op == 'and':
            return all(self.implied_pc_only(x) for x in b.args)
        k = b.key()
        if k in self.known:
            return self.known[k]
        if b.op == 'not' and b.args[0].key() in self.known:
            return not self.known[b.args[0].key()]
        return False

    def show_model(self, m, b):
        ids = sy.b_atoms(b, set())
        for x in self.pc:
            sy.b_atoms(x, ids)
        out = {}
        for i in sorted(ids):
            v = m[ATOMS[i].z]
            if v is not None:
                out[sy.show_atom(ATOMS[i])[:80]] = str(
                    v.as_decimal(8) if hasattr(v, 'as_decimal') else v)[:40]
            if len(out) > 24:
                break
        return out

    def fail(self, label, why):
        if self.ex.changed:
            return
        o = self.ex.obl(label)
        o.refuted += 1
        if len(o.fail) < 3:
            o.fail.append(dict(status='refuted', goal=str(why)[:600],
                               path=[str(x)[:160] for x in self.pc[-14:]]))

    def is_equal(self, a, b, tol=1e-11):
        """decide a == b under the path condition: returns (status, back end)"""
        if sy.is_special(a) or sy.is_special(b):
            ok = (a == b) or (a != a and b != b) if not isinstance(a, S) and \
                not isinstance(b, S) else False
            return ('proved' if ok else 'refuted', 'evaluation')
        a, b = sy.lift(a), sy.lift(b)
        d = S((a - b).p) if not self.rounding else S(sy._padd(a.p, b.p, -1))
        if not d.p:
            return 'proved', 'normal form'
        d = self.nf(d)
        if not d.p:
            return 'proved', 'normal form'
        d = sy.clear_denominators(self.congruence(d))
        if not d.p:
            return 'proved', 'congruence'
        small = self._small(d, a, b, tol)
        if small:
            return 'proved', 'normal form up to rounding of constants'
        if not d.has_vec() or (len(d.p) < 60 and self._interpreted(d)):
            r, m = self.check(sy.neg(sy.cmp0(d, '==')), self.ex.proof_rlimit)
            if r == z3.unsat:
                return 'proved', 'z3'
        # numerical refutation
        for seed in range(3):
            v = sy.Valuation(seed)
            try:
                x = abs(v.term(self.nf(d)))
                sc = v.scale(d)
            except (ZeroDivisionError, OverflowError):
                continue
            if x > 1e-9 * max(sc, 1e-30):
                return 'refuted', f'difference {str(d)[:300]}'
        return 'unknown', f'difference {str(d)[:300]}'

    def _interpreted(self, d):
        return any(ATOMS[a].kind in ('max', 'abs', 'floor', 'inv') for a in d.atoms())

    def _small(self, d, a, b, tol):
        """the coefficients of the difference are rounding errors of machine
        constants: compare with the magnitude of the terms they come from"""
        base = max([abs(c) for c in a.p.values()] + [abs(c) for c in b.p.values()]
                   + [Fraction(0)])
        if not base:
            return False
        return max(abs(c) for c in d.p.values()) <= Fraction(tol) * base

    def congruence(self, d):
        """merge applications of the same function to arguments that are
        equal under the path condition"""
        for _ in range(40):
            ids = sorted(d.atoms())
            done = True
            for x, i in enumerate(ids):
                for j in ids[x+1:]:
                    p, q = ATOMS[i], ATOMS[j]
                    if p.kind != q.kind or p.name != q.name or \
                            len(p.args) != len(q.args) or not p.args:
                        continue
                    if all(self._arg_eq(s, t) for s, t in zip(p.args, q.args)):
                        d = sy.subst(d, {j: S({((i, 1),): Fraction(1)})})
                        done = False
                        break
                if not done:
                    break
            if done:
                return d
        return d

    def _arg_eq(self, s, t):
        if not isinstance(s, S) or not isinstance(t, S):
            return s == t
        key = (self.pcid, 'argeq', s.key(), t.key())
        c = self.ex.icache
        if key not in c:
            c[key] = self.is_equal_args(s, t)
        return c[key]

    def is_equal_args(self, s, t):
        d = self.nf(S(sy._padd(s.p, t.p, -1)))
        if not d.p:
            return True
        # quick numeric rejection
        v = sy.Valuation(11)
        try:
            if not self.eqs and abs(v.term(d)) > 1e-9 * max(v.scale(d), 1e-30) \
                    and not self.pc:
                return False
        except (ZeroDivisionError, OverflowError):
            pass
        d = sy.clear_denominators(self.congruence(d))
        if not d.p or self._small(d, s, t, 1e-11):
            return True
        if d.has_vec():
            return False
        return self.implied(sy.cmp0(d, '=='))

    def prove_eq(self, label, a, b, tol=1e-11, detail=None):
        if self.ex.changed:
            return True
        o = self.ex.obl(label)
        a_, b_ = np.asarray(a, object).ravel(), np.asarray(b, object).ravel()
        if a_.shape != b_.shape:
            self.fail(label, f'shapes differ: {np.shape(a)} {np.shape(b)}')
            return False
        worst, why = 'proved', {}
        for x, y in zip(a_, b_):
            if x is None or y is None:
                st, by = ('proved' if x is y else 'refuted'), 'evaluation'
            else:
                st, by = self.is_equal(x, y, tol)
            if st != 'proved':
                worst = st if worst != 'refuted' else worst
                why[st] = (by, str(x)[:200], str(y)[:200])
                if st == 'refuted':
                    break
            else:
                last = by
        if worst == 'proved':
            o.proved += 1
            if len(a_):
                o.by[last] = o.by.get(last, 0) + 1
            return True
        if worst == 'refuted':
            o.refuted += 1
        else:
            o.unknown += 1
        if len(o.fail) < 3:
            o.fail.append(dict(status=worst, goal=f'{why[worst][1]} == {why[worst][2]}',
                               detail=f'{why[worst][0]} {detail or ""}',
                               path=[str(x)[:160] for x in self.pc[-14:]]))
        return False

    def covered(self, label):
        if not self.ex.changed:
            self.ex.cover[label] = self.ex.cover.get(label, 0) + 1

    # ------------------------------------------------------------------ loops
    def enter(self, lid, names, frame):
        depth = 0
        f = frame
        while f is not None:
            depth += 1
            f = f.f_back
        st = self.loopstack
        while st and (st[-1][1] > depth or (st[-1][1] == depth and
                                            st[-1][2] is not frame)):
            st.pop()
        for name, rule in self.rules.items():
            if name in lid:
                return Contracted(self, lid, names, rule)
        return Loop(self, lid, names, depth, frame)


# ------------------------------------------------------------------- loop rule
class Contracted:
    """a loop with a written invariant: `rule.entry` proves it for the state at
    entry, `rule.arbitrary` returns an arbitrary state that satisfies it (every
    local that the body assigns and that the rule does not give becomes
    unusable), `rule.again` proves it after the body"""

    def __init__(self, c, lid, names, rule):
        self.c, self.lid, self.names, self.rule, self.n = c, lid, names, rule, 0

    def head(self, env):
        self.n += 1
        if self.n == 1:
            if self.c.choose(2, 'loop rule') == 0:
                self.rule.entry(self.c, env)
                raise PathEnd('entry')
            new = {k: Unusable(k) for k in self.names if k in env}
            new.update(self.rule.arbitrary(self.c, env))
            for k in self.names:
                if k.startswith('__vcJ'):
                    new[k] = self.rule.counter
            new['__later'] = True
            return new
        self.rule.again(self.c, env)
        raise PathEnd('back edge')

    def exit(self):
        pass

    def infeasible(self):
        raise PathEnd('loop test false on the arbitrary iteration')


class Unusable:
    def __init__(self, name):
        self.name = name

    def _no(self, *a):
        raise Unsupported(f'the loop contract says nothing about {self.name}')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = _no
    __rtruediv__ = __pow__ = __rpow__ = __neg__ = __abs__ = __lt__ = __le__ = _no
    __gt__ = __ge__ = __eq__ = __ne__ = __bool__ = __float__ = __getitem__ = _no
    __setitem__ = __len__ = __index__ = __array__ = __call__ = _no
    __hash__ = None


class Loop:
    """One dynamic entry of a loop.

    The first iteration runs on the exact state at entry; an arbitrary later
    iteration runs on a state in which everything that some iteration modifies
    (locals and the attributes/array elements of tracked objects; inferred by
    comparing the state at the back edges with the state at the head, to a
    fixpoint) has an arbitrary value that satisfies the candidate invariants
    that hold at every back edge.  A path ends at the back edge."""

    def __init__(self, c, lid, names, depth, frame):
        self.c = c
        self.names = set(names)
        self.depth, self.frame = depth, frame
        self.key = (lid,) + tuple(m for m, _, _ in c.loopstack)
        ex = c.ex
        self.info = ex.loops.setdefault(self.key, Info())
        self.mode = None
        self.n = 0

    def head(self, env):
        """called at the start of every iteration (after the test held)"""
        c = self.c
        self.n += 1
        if self.n == 1:
            if self.info.seen:
                self.mode = ('first', 'later')[c.choose(2, 'loop')]
            else:
                self.mode = 'first'
            c.loopstack.append((self.mode, self.depth, self.frame))
            c.loops[self.key[0]] = self
            self.stackpos = len(c.loopstack)
            self.entry_snap = snapshot(c, env)
            c.headpos = len(c.pc)
            if self.mode == 'first':
                self.head_snap = self.entry_snap
                return {}
            return self.havoc(env)
        # back edge
        del c.loopstack[self.stackpos:]
        self.backedge(env)
        raise PathEnd('back edge')

    def exit(self):
        if self.mode is not None:
            self.c.exited[self.key[0]] = self.mode
            del self.c.loopstack[self.stackpos - 1:]
            self.mode = None

    def infeasible(self):
        raise PathEnd('loop test false on the arbitrary iteration')

    # -- havoc
    def havoc(self, env):
        c = self.c
        new = {}
        made = {}
        for loc, spec in sorted(self.info.specs.items(), key=lambda x: order_key(x[0])):
            v = spec.make(c, loc, self, made)
            made[loc] = v
            if loc[0] == 'local':
                new[loc[1]] = v
            else:
                store(c, loc, v)
        env2 = dict(env)
        env2.update(new)
        self.head_snap = snapshot(c, env2)
        for loc, spec in self.info.specs.items():
            for f in spec.assumptions(c, loc, self.head_snap, self.entry_snap):
                c.assume(f)
        if not c.feasible():
            raise PathEnd('infeasible loop state')
        c.headpos = len(c.pc)
        new['__later'] = True
        return new

    # -- back edge
    def backedge(self, env):
        c, info = self.c, self.info
        snap = snapshot(c, env)
        ex = c.ex
        if not info.seen:
            info.seen = True
            ex.changed = True
        base = self.head_snap
        for loc, v in snap.items():
            if loc in info.specs:
                continue
            if loc in base and same_value(c, base[loc], v):
                continue
            if loc[0] == 'local' and (loc not in self.entry_snap or
                                      loc[1] not in self.names):
                continue                  # not live at the head
            info.specs[loc] = Spec.template(c, loc, v, snap, self)
            ex.changed = True
            ex.note(self.key, loc, 'new')
        for loc, spec in list(info.specs.items()):
            if loc not in snap:
                raise Unsupported(f'{loc} disappears')
            if isinstance(spec, RealSpec) and (sy.is_special(snap[loc]) or snap[loc] is None):
                info.specs[loc] = OptSpec.around(spec, snap[loc])
                ex.changed = True
                continue
            if spec.merge(c, loc, snap[loc], snap, self):
                ex.changed = True
                ex.note(self.key, loc, type(spec).__name__)
        measure(self, base, snap)
        if ex.on_backedge is not None and not ex.changed:
            ex.on_backedge(c, self, base, snap)


def measure(loop, base, snap):
    """termination: some modified value shrinks by a constant factor and is
    bounded from below by a value that the loop does not modify"""
    info, c = loop.info, loop.c
    if loop.mode != 'later' or c.ex.changed or not getattr(info, 'want_measure', True):
        return
    alive = info.measures
    if alive is None:
        alive = info.measures = [
            loc for loc, s in info.specs.items()
            if isinstance(s, RealSpec)]
        info.mfail = []
    keep = []
    for loc in alive:
        v0, v1 = base.get(loc), snap.get(loc)
        if not isinstance(v0, S) or not isinstance(v1, S):
            continue
        d = sy.cmp0(v1 - v0 * Fraction(9999, 10000), '<=')
        if c.implied(sy.conj(sy.cmp0(v0, '>'), d)):
            keep.append(loc)
    if not keep and alive:
        info.mfail = [str(x)[:150] for x in c.pc[-10:]]
    info.measures = keep
    info.mcount = getattr(info, 'mcount', 0) + 1


class Info:
    def __init__(self):
        self.seen = False
        self.specs = {}
        self.measures = None


def order_key(loc):
    # ghosts, and t and y of solvers first: other locations can be defined in
    # terms of them
    if loc[0] != 'local' and loc[1] == 'ghost':
        return (0, str(loc))
    return (1 if loc[0] == 'attr' and loc[2] in ('t', 'y') else
            3 if loc[-1] == 'LU' else 2, str(loc))


# ---------------------------------------------------------- state of the world
def snapshot(c, env):
    snap = {}
    for k, v in env.items():
        if k.startswith('__'):
            continue
        if is_value(v):
            snap[('local', k)] = freeze(v)
        elif isinstance(v, np.ndarray):
            snap[('local', k)] = freeze(v)
        elif hasattr(v, '__vc_value__'):
            snap[('local', k)] = v
    for name, obj in c.tracked.items():
        if isinstance(obj, np.ndarray):
            snap[('cell', name)] = freeze(obj)
            continue
        d = obj.__dict__ if hasattr(obj, '__dict__') else obj
        for k, v in d.items():
            if is_value(v) or isinstance(v, np.ndarray):
                snap[('attr', name, k)] = freeze(v)
            elif isinstance(v, (list, tuple)) and all(is_value(x) for x in v):
                for i, x in enumerate(v):
                    snap[('item', name, k, i)] = freeze(x)
            elif hasattr(v, '__vc_value__'):
                snap[('attr', name, k)] = v
        for k, v in class_values(type(obj)):
            if k not in d:
                snap[('attr', name, k)] = v
    return snap


def text(v):
    """a value of a snapshot, for comparison"""
    if isinstance(v, Arr):
        v = v.val
    if isinstance(v, np.ndarray):
        return (v.shape, tuple(text(x) for x in v.ravel()))
    if isinstance(v, S):
        return v.key()
    if isinstance(v, B):
        return v.key()
    if isinstance(v, (list, tuple)):
        return tuple(map(text, v))
    return repr(v)


def fingerprint(c, env):
    snap = snapshot(c, env)
    return (tuple(sorted((str(k), text(v)) for k, v in snap.items())),
            tuple(b.key() for b in c.pc), tuple((i, p.key()) for i, p in c.eqs),
            tuple((m, d) for m, d, _ in c.loopstack), tuple(sorted(map(str, c.exited.items()))))


_CV = {}


def class_values(cls):
    if cls not in _CV:
        out = {}
        for b in reversed(cls.__mro__[:-1]):
            for k, v in vars(b).items():
                if not k.startswith('__') and is_value(v):
                    out[k] = v
        _CV[cls] = list(out.items())
    return _CV[cls]


def is_value(v):
    return v is None or isinstance(v, (S, bool, int, float, str, np.integer,
                                       np.floating, np.bool_, Fraction, B))


class Arr:
    """frozen copy of an array; remembers the object"""
    __slots__ = ('obj', 'val')

    def __init__(self, a):
        self.obj = a
        self.val = a.copy()


def freeze(v):
    return Arr(v) if isinstance(v, np.ndarray) else v


def decided(c, b):
    """the value of a flag, if the path has decided it"""
    if isinstance(b, B):
        if b.op == 'const':
            return b.args[0]
        if b.op == 'not':
            r = decided(c, b.args[0])
            return (not r) if isinstance(r, bool) else b
        return c.known.get(b.key(), b)
    return b


def scalar_same(c, a, b):
    if a is b:
        return True
    if isinstance(a, S) or isinstance(b, S):
        if isinstance(a, (S, int, float, np.floating, np.integer)) and \
                isinstance(b, (S, int, float, np.floating, np.integer)) and \
                not isinstance(a, bool) and not isinstance(b, bool):
            if sy.is_special(a) or sy.is_special(b):
                return False
            return sy.lift(a).same(b)
        return False
    if a is None or b is None:
        return False
    if isinstance(a, B) or isinstance(b, B):
        a, b = decided(c, a), decided(c, b)
        if isinstance(a, B) or isinstance(b, B):
            return isinstance(a, B) and isinstance(b, B) and a.key() == b.key()
        return a == b
    if type(a) is not type(b) and (isinstance(a, bool) or isinstance(b, bool)):
        return False
    try:
        return bool(a == b) or (a != a and b != b)
    except Exception:
        return False


def same_value(c, a, b):
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.obj is not b.obj:
            return False
        return a.val.shape == b.val.shape and all(
            scalar_same(c, x, y) for x, y in zip(a.val.ravel(), b.val.ravel()))
    if isinstance(a, Arr) or isinstance(b, Arr):
        return False
    return scalar_same(c, a, b)


def store(c, loc, v):
    if loc[0] == 'cell':
        arr = c.tracked[loc[1]]
        if v is not arr:
            arr[...] = v
        return
    obj = c.tracked[loc[1]]
    d = obj.__dict__ if hasattr(obj, '__dict__') else obj
    if loc[0] == 'item':
        if isinstance(d[loc[2]], tuple):
            t = list(d[loc[2]])
            t[loc[3]] = v
            d[loc[2]] = tuple(t)
        else:
            d[loc[2]][loc[3]] = v
    else:
        d[loc[2]] = v


# ----------------------------------------------------------------------- specs
class Spec:
    @staticmethod
    def template(c, loc, v, snap, loop):
        if isinstance(v, Arr):
            return ArrSpec(c, loc, v, snap, loop)
        if hasattr(v, '__vc_value__'):
            return ObjSpec(c, loc, v, snap, loop)
        if isinstance(v, (bool, str, np.bool_)) or v is None:
            return DomSpec(c, loc, v, snap, loop)
        if isinstance(v, B):
            return BoolSpec(c, loc, v, snap, loop)
        if isinstance(v, S) and not v.is_const():
            return RealSpec(c, loc, v, snap, loop)
        if isinstance(v, S):
            v = float(v.const())
            if loc[1] == 'ghost' and is_int_term(v):
                v = int(v)
        if isinstance(v, (int, np.integer)):
            return RealSpec(c, loc, v, snap, loop)
        return DomSpec(c, loc, v, snap, loop)

    def assumptions(self, c, loc, snap, entry):
        return []


class ObjSpec(Spec):
    """an opaque value with its own arbitrary instance and, possibly, a
    definition in terms of the rest of the state"""
    def __init__(self, c, loc, v, snap, loop):
        self.cls = type(v)
        self.defined = True
        self.none = False
        self.merge(c, loc, v, snap, loop)

    def make(self, c, loc, loop, made):
        if self.none and not c.choose(2, str(loc)):
            return None
        if self.defined:
            r = self.cls.vc_defined(c, loc, Getter(c, made))
            if r is not None:
                return r
        return self.cls.vc_fresh(c, loc)

    def merge(self, c, loc, v, snap, loop):
        if v is None:
            if not self.none:
                self.none = True
                return True
            return False
        if not isinstance(v, self.cls):
            raise Unsupported(f'{loc}: changes type')
        if self.defined:
            r = self.cls.vc_defined(c, loc, live_getter(snap))
            if r is None or not v.vc_same(c, r):
                self.defined = False
                return True
        return False


class BoolSpec(Spec):
    def __init__(self, c, loc, v, snap, loop):
        pass

    def make(self, c, loc, loop, made):
        # decided when the code asks for it
        return sy.pred('flag', sy.fresh(str(loc[-1])))

    def merge(self, c, loc, v, snap, loop):
        if isinstance(v, (bool, B, np.bool_)):
            return False
        raise Unsupported(f'{loc}: changes type')


class DomSpec(Spec):
    """finitely many concrete values"""
    LIMIT = 4

    def __init__(self, c, loc, v, snap, loop):
        self.dom = [v]
        self.gen = None

    def make(self, c, loc, loop, made):
        if self.gen is not None:
            return self.gen.make(c, loc, loop, made)
        i = c.choose(len(self.dom), str(loc)) if len(self.dom) > 1 else 0
        return self.dom[i]

    def assumptions(self, c, loc, snap, entry):
        return self.gen.assumptions(c, loc, snap, entry) if self.gen else []

    def merge(self, c, loc, v, snap, loop):
        if self.gen is not None:
            return self.gen.merge(c, loc, v, snap, loop)
        if any(scalar_same(c, v, x) for x in self.dom):
            return False
        if isinstance(v, B):
            if all(isinstance(x, (bool, np.bool_)) for x in self.dom):
                self.gen = BoolSpec(c, loc, v, snap, loop)
                return True
            raise Unsupported(f'{loc}: changes type')
        if isinstance(v, (bool, np.bool_)) and len(self.dom) == 1 and \
                isinstance(self.dom[0], (bool, np.bool_)):
            self.gen = BoolSpec(c, loc, v, snap, loop)
            return True
        num = isinstance(v, (S, int, float, np.integer, np.floating)) and \
            not isinstance(v, bool)
        if hasattr(v, '__vc_value__') and self.dom == [None]:
            self.gen = ObjSpec(c, loc, v, snap, loop)
            self.gen.none = True
            return True
        if isinstance(v, Arr) or hasattr(v, '__vc_value__'):
            if self.dom == [None]:
                raise Unsupported(f'{loc}: None or array')
            raise Unsupported(f'{loc}: changes type')
        isint = isinstance(v, (int, np.integer)) and not isinstance(v, bool)
        if isinstance(v, S) or (num and (isint or len(self.dom) >= self.LIMIT)):
            if any(plain(x) for x in self.dom):
                self.gen = OptSpec(c, loc, self.dom, v, snap, loop)
            else:
                self.gen = RealSpec(c, loc, v, snap, loop)
                for x in self.dom:
                    self.gen.merge(c, loc, x, snap, loop)
            return True
        self.dom.append(v)
        return True


def plain(x):
    return x is None or isinstance(x, (bool, str)) or sy.is_special(x)


class OptSpec(Spec):
    """a concrete value (None, bool, inf) or a real"""
    def __init__(self, c, loc, dom, v, snap, loop):
        self.dom = [x for x in dom if plain(x)]
        self.real = RealSpec(c, loc, v, snap, loop)
        for x in dom:
            if not plain(x):
                self.real.merge(c, loc, x, snap, loop)

    @classmethod
    def around(cls, real, v):
        self = cls.__new__(cls)
        self.dom, self.real = [v], real
        return self

    def make(self, c, loc, loop, made):
        i = c.choose(len(self.dom) + 1, str(loc))
        if i:
            return self.dom[i - 1]
        return self.real.make(c, loc, loop, made)

    def assumptions(self, c, loc, snap, entry):
        if isinstance(snap[loc], S):
            return self.real.assumptions(c, loc, snap, entry)
        return []

    def merge(self, c, loc, v, snap, loop):
        if plain(v):
            if v in self.dom:
                return False
            self.dom.append(v)
            return True
        return self.real.merge(c, loc, v, snap, loop)


def is_int_term(v):
    if isinstance(v, (int, np.integer)):
        return True
    if isinstance(v, float):
        return v == int(v) if v - v == 0 else False
    if isinstance(v, S):
        return all(cf.denominator == 1 and all(ATOMS[a].integer and e > 0 for a, e in m)
                   for m, cf in v.p.items())
    return False


# candidate generators: functions (c, loc, snap, entry_snap) -> list of
# (name, function(value, snap, entry) -> B or None)
REAL_CANDIDATES = []
DEFINITIONS = []         # (name, function(c, loc, get) -> term or None)


class RealSpec(Spec):
    def __init__(self, c, loc, v, snap, loop):
        self.int = True
        self.vec = False
        self.cands = {}
        base = {
            '>0': lambda v, s, e: sy.cmp0(v, '>'),
            '>=0': lambda v, s, e: sy.cmp0(v, '>='),
            '>=1': lambda v, s, e: sy.cmp0(v - 1, '>='),
            '<0': lambda v, s, e: sy.cmp0(v, '<'),
            '<=0': lambda v, s, e: sy.cmp0(v, '<='),
            '!=0': lambda v, s, e: sy.cmp0(v, '!='),
            '<=entry': lambda v, s, e: rel_entry(loc, v, e, '<='),
            '>=entry': lambda v, s, e: rel_entry(loc, v, e, '>='),
            '<entry': lambda v, s, e: rel_entry(loc, v, e, '<'),
        }
        if is_int_term(v):
            base = {k: base[k] for k in ('>=0', '>=1', '<=entry', '>=entry')}
        for g in () if is_int_term(v) else REAL_CANDIDATES:
            base.update(g(c, loc, snap, loop.entry_snap))
        self.all = base
        self.cands = dict(base)
        self.defs = {n: f for n, f in DEFINITIONS}
        self.merge(c, loc, v, snap, loop)

    def make(self, c, loc, loop, made):
        for n, f in self.defs.items():
            t = f(c, loc, Getter(c, made))
            if t is not None and not isinstance(t, np.ndarray):
                return t
        name = loc[-1] if loc[0] != 'item' else f'{loc[2]}{loc[3]}'
        return sy.fresh(f'{name}', vec=self.vec, integer=self.int, fp=not self.vec)

    def assumptions(self, c, loc, snap, entry):
        v = snap[loc]
        out = []
        for n, f in self.cands.items():
            try:
                b = f(v, snap, entry)
            except Unsupported:
                b = None
            if b is not None:
                out.append(b)
        return out

    def merge(self, c, loc, v, snap, loop):
        if sy.is_special(v):
            raise Unsupported(f'{loc}: special value at a loop head')
        if not isinstance(v, (S, int, float, np.integer, np.floating)) or \
                isinstance(v, bool):
            raise Unsupported(f'{loc}: real becomes {type(v).__name__}')
        changed = False
        if self.int and not is_int_term(v):
            self.int = False
            changed = True
        v = sy.lift(v)
        if not self.vec and v.has_vec():
            self.vec = True
            changed = True
        for n, f in list(self.defs.items()):
            t = f(c, loc, live_getter(snap))
            if isinstance(t, np.ndarray):
                t = None
            if t is None or not sy.lift(t).same(v):
                del self.defs[n]
                changed = True
        for n, f in list(self.cands.items()):
            try:
                b = f(v, snap, loop.entry_snap)
            except Unsupported:
                b = None
            if b is None or not c.implied(b):
                del self.cands[n]
                changed = True
        return changed


def live_getter(snap):
    return {k: (v.val if isinstance(v, Arr) else v) for k, v in snap.items()}


class Getter:
    """value of a location in a state under construction"""
    def __init__(self, c, made):
        self.c, self.made = c, made

    def get(self, loc, default=None):
        if loc in self.made:
            return self.made[loc]
        try:
            return current(self.c, loc)
        except KeyError:
            return default


def rel_entry(loc, v, entry, op):
    e = entry.get(loc)
    if not isinstance(e, (S, int, float, np.floating)) or isinstance(e, bool) \
            or sy.is_special(e):
        return None
    return sy.cmp0(v - e, op)


class ArrSpec(Spec):
    def __init__(self, c, loc, v, snap, loop):
        self.shape = v.val.shape
        self.inplace = None
        self.view = None
        self.defs = {n: f for n, f in DEFINITIONS}
        self.keep = None               # elements that the loop leaves alone
        self.merge(c, loc, v, snap, loop)

    def make(self, c, loc, loop, made):
        if self.view is not None:
            kind, other, idx = self.view
            base = made.get(other)
            if base is None:
                base = current(c, other)
            return base if idx is None else base[idx]
        for n, f in self.defs.items():
            t = f(c, loc, Getter(c, made))
            if t is not None and isinstance(t, np.ndarray) and t.shape == self.shape:
                new = np.empty(self.shape, object)
                new[...] = t
                break
        else:
            name = ('cell_' if loc[0] == 'cell' else '') + '.'.join(map(str, loc[1:]))
            new = sy.vec_fresh(name, self.shape)
            e = loop.entry_snap.get(loc)
            if self.keep is not None and self.keep.any() and isinstance(e, Arr) and e.val.shape == self.shape:
                new[self.keep] = e.val[self.keep]
        if self.inplace:
            arr = current(c, loc)
            if arr.dtype != object:
                raise Unsupported(f'{loc}: non symbolic array is modified')
            arr[...] = new
            return arr
        return new

    def merge(self, c, loc, v, snap, loop):
        if not isinstance(v, Arr):
            raise Unsupported(f'{loc}: array becomes {type(v).__name__}')
        if v.val.shape != self.shape:
            raise Unsupported(f'{loc}: shape changes')
        changed = False
        e = loop.entry_snap.get(loc)
        same = np.zeros(self.shape, bool)
        if isinstance(e, Arr) and e.val.shape == self.shape and e.val.dtype == object:
            for i in np.ndindex(*self.shape):
                x, y = e.val[i], v.val[i]
                same[i] = x is y or (isinstance(x, S) and isinstance(y, S) and x.same(y))
        if self.keep is None:
            self.keep = same
        elif (self.keep & ~same).any():
            self.keep &= same
            changed = True
        same_obj = loc in loop.entry_snap and isinstance(loop.entry_snap[loc], Arr) \
            and loop.entry_snap[loc].obj is v.obj
        if self.inplace is None:
            self.inplace = same_obj
        elif self.inplace and not same_obj:
            self.inplace = False
            changed = True
        view = None
        if not same_obj:
            view = find_view(loc, v, snap, loop)
        if not hasattr(self, '_viewed'):
            self._viewed = True
            self.view = view
        elif view != self.view:
            if self.view is not None:
                self.view = None
                changed = True
        for n, f in list(self.defs.items()):
            try:
                t = f(c, loc, live_getter(snap))
            except KeyError:
                t = None
            ok = False
            if isinstance(t, np.ndarray) and t.shape == self.shape:
                x = np.empty(self.shape, object)
                try:
                    x[...] = t
                    ok = all(y is not None and c.is_equal(y, z)[0] == 'proved'
                             for y, z in zip(v.val.ravel(), x.ravel()))
                except (ValueError, Unsupported):
                    ok = False
            if not ok:
                del self.defs[n]
                changed = True
        return changed


def current(c, loc):
    if loc[0] == 'cell':
        return c.tracked[loc[1]]
    obj = c.tracked[loc[1]]
    d = obj.__dict__ if hasattr(obj, '__dict__') else obj
    return d[loc[2]]


def find_view(loc, v, snap, loop):
    """does this array share memory with a persistent (older) array?"""
    for o, w in snap.items():
        if o == loc or not isinstance(w, Arr):
            continue
        if w.obj is v.obj:
            if str(o) < str(loc):
                return ('same', o, None)
            continue
        if np.shares_memory(w.obj, v.obj) and w.obj.size > v.obj.size:
            for i in range(w.obj.shape[0]):
                r = w.obj[i]
                if isinstance(r, np.ndarray) and r.shape == v.obj.shape and \
                        r.__array_interface__['data'] == v.obj.__array_interface__['data']:
                    return ('row', o, i)
            raise Unsupported(f'{loc} is a view of {o}')
    return None

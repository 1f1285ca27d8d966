"""Which obligations decide which property."""
import numpy as np

RK = ['Ts5', 'BS5', 'CK5', 'CKdisc', 'Pr7', 'Pr8', 'Pr9', 'CFMR7osc', 'Me4']
NYS = ['Fi4N', 'Fi5N', 'Mu5Nmb', 'MR6NN']
# classes within reach of the step contract rk_step
STEP = ['Ts5', 'BS5', 'CK5', 'Pr7', 'Pr8', 'Pr9', 'CFMR7osc', 'Me4'] + NYS
DENSEC = STEP + ['CKdisc']

REALS = ('machine arithmetic is treated as real arithmetic on the exact machine values of all '
         'coefficients (rounding is modelled only where an obligation says "rounded")')
SIZE = ('vectors have one component (two for the Nystrom methods: position and velocity); the '
        'statements extend to n components because the code treats components alike (parametricity, '
        'not proved); the component count only enters through mean() and through shapes')
FLOW = ('classes whose step logic is the same code differ in coefficients only; quick tier proves the '
        'control-flow obligations for one representative of each such group, thorough tier for all')
SCIPY = ('scipy.integrate.OdeSolver / DenseOutput are replaced by stubs with the same documented '
         'behaviour (vc/shims.py); numpy operations on object arrays are assumed to be elementwise')
HSTART = 'callers see h_start only through its contract (finite, nonzero, sign of b - a); verified for C16'
STIFF = ('_diagnose_stiffness is replaced by its contract (changes no solver state except counters); '
         'checked for C15')
COMPLEX = 'complex-valued states: bounded monitors only'
TB = ['vc/ (the verification condition generator of this framework: loader, symbolic values, loop rule)',
      'z3 5.3.2', 'CPython 3.12 executing the functions symbolically',
      'scipy.integrate base classes as installed']
BASE = [REALS, SIZE, SCIPY, COMPLEX]


def groups(classes):
    """representatives of the classes that run the same code"""
    from . import driver as dr
    pkg = dr.package()
    by = {}
    for c in classes:
        C = getattr(pkg.mods['extensisq'], c, None)
        if C is None:
            continue
        code = {}
        for K in C.__mro__:
            if not getattr(K, '__module__', '').startswith('extensisq'):
                continue
            for k, v in vars(K).items():
                f = getattr(v, '__func__', v)
                if hasattr(f, '__code__') and k not in code:
                    code[k] = (f.__code__.co_filename, f.__code__.co_firstlineno)
        code.pop('_dense_output_impl', None)
        fsal = len(C.E) > C.n_stages and bool(np.any(np.asarray(C.E[C.n_stages:])))
        by.setdefault((tuple(sorted(code.items())), fsal), []).append(c)
    n = lambda c: int(getattr(pkg.mods['extensisq'], c).n_stages)
    return [min(v, key=n) for v in by.values()]


def steps(props, classes, dirs=(1,), budget=150, **kw):
    return [('rk_step', dict(cls=c, props=props, direction=d, **kw), budget)
            for c in classes for d in dirs]


def variants(props, deep, back=True, **kw):
    """the options that change the flow: backward, no stiffness detection"""
    cl = STEP if deep else groups(STEP)
    kw.setdefault('max_step', None)
    out = steps(props, cl, (-1,), **kw) if back else []
    return out + steps(props, [c for c in cl if c not in ('CK5',)], (1,),
                       opts=dict(nfev_stiff_detect=0), **kw)


def values(props, deep):
    """obligations on values: all classes; limited steps for the shortest one"""
    if deep:
        return steps(props, STEP, (1, -1)) + variants(props, deep, False)
    return steps(props, STEP, (1,), max_step=None) + steps(props, ['Me4'], (-1,)) + \
        variants(props, deep)


def ck(props, deep, budget=200, **kw):
    """CKdisc has a step function of its own"""
    kw.setdefault('specials', False)
    if not deep:
        kw.setdefault('max_step', None)
    return steps(props, ['CKdisc'], (1, -1) if deep else (1,), budget, **kw)


def denses(props, classes, budget=150, **kw):
    from mon.checks2 import DENSE, ORDERS
    out = []
    for c in classes:
        for o, w in DENSE[c]:
            k = dict(cls=c, props=props, opts=o, **kw)
            if 'C06' in props:
                k['orders'] = (ORDERS[c][0], w)
            out.append(('dense', k, budget))
    return out


ESDC = ['TRBDF2', 'TRX2', 'KC3I', 'KC4I', 'KC4Ia', 'Kv3I']
ESDA = ('implicit methods: the step function is verified against the contracts of its four helpers '
        '(_solve_implicit_stage, _assess_error_and_stepsize, _reassess_stepsize, _preemptive_lu_and_jac), which are '
        'verified on their own bodies; the norms of Newton updates are taken to be finite; linear algebra and sparse '
        'arrays of scipy through their contracts')


def esds(props, deep, units=(), **kw):
    """implicit methods: the step function, and helpers on their own"""
    dirs = (1, -1) if deep else (1,)
    kinds = [(c, k, d) for c in ESDC for k in ('call', 'lin', 'num') for d in dirs
             if deep or k == 'call' or c == 'TRBDF2']
    if not deep:
        kinds.append(('TRBDF2', 'call', -1))
    t = [('esd_step', dict(cls=c, props=props, kind=k, direction=d, **kw), 150) for c, k, d in kinds]
    t += [('esd_step', dict(cls='TRBDF2', props=props, kind='call', mass=True, **kw), 150)]
    rep = ESDC if deep else ['TRBDF2', 'KC4I']
    for w in units:
        for c in ESDC if w in ('reassess', 'stage') else rep:
            for d in dirs if w == 'stage' else (1, -1):
                t.append(('esd_unit', dict(what=w, cls=c, direction=d, props=props), 100))
                if w == 'preempt':
                    t.append(('esd_unit', dict(what=w, cls=c, direction=d, props=props, each=True), 100))
                if w == 'assess':
                    t.append(('esd_unit', dict(what=w, cls=c, direction=d, props=props, inf=True), 100))
                    t.append(('esd_unit', dict(what=w, cls=c, direction=d, props=props, sc=None), 100))
        if w == 'stage':
            t += [('esd_unit', dict(what=w, cls='TRBDF2', kind=k, n=n, scaled=z, props=props), 100)
                  for k, n, z in (('lin', 1, True), ('lin', 2, True), ('lin', 2, False), ('call', 1, True))]
    return t


RKCA = ('stabilised method: one arbitrary attempt of _step_impl from an arbitrary state between two steps (loop '
        'invariant written in vc/rkc.py), against the contracts of _stages, _rho and _init_step_size, which are '
        'verified on their own bodies; the spectral radius of the user is positive')


def rkcs(props, deep):
    """stabilised method: one arbitrary attempt"""
    out = []
    for rho in (False, True):
        for case in ('first', 'new', 'known'):
            for hold in (False, True):
                if not deep and (rho, case, hold) not in (
                        (False, 'first', False), (False, 'known', True), (True, 'new', True)):
                    continue
                for d in (1, -1) if deep else (-1 if rho else 1,):
                    out.append(('rkc_unit', dict(what='attempt', props=props, direction=d, rho=rho, case=case,
                                                 hold=hold, specials='norm'), 100))
    return out


def esd_dense(props):
    return [('esd_step', dict(cls=c, props=props, opts=dict(interpolant='C1')), 150)
            for c in ESDC if c not in ('TRBDF2', 'TRX2')]


def plan(prop, tier):
    deep = tier != 'quick'
    p = globals()['plan_' + prop](deep)
    order = {'esd_step': 2, 'esd_unit': 3}                  # long ones first
    p['tasks'].sort(key=lambda t: 0 if t[1].get('cls') in ('CKdisc', 'Pr9') else order.get(t[0], 1))
    p.setdefault('level', 'proof')
    p.setdefault('trusted', TB)
    p['assumptions'] = BASE + p.get('assumptions', [])
    return p


def plan_C01(deep):
    cl = STEP if deep else groups(STEP)
    t = ck(['C01'], deep) + steps(['C01'], cl, (1, -1)) + steps(['C01'], cl[:1] if not deep else cl, (1,), first_step='sym') + \
        variants(['C01'], deep, False)
    return dict(tasks=t + rkcs(['C01'], deep) + esds(['C01'], deep, ('reassess', 'assess')), assumptions=[ESDA, RKCA, FLOW, HSTART, STIFF])


def plan_C02(deep):
    cl = STEP if deep else groups(STEP)
    t = ck(['C02'], deep, max_step='sym') + steps(['C02'], cl, (1, -1)) + steps(['C02'], cl[:1] if not deep else cl, (1,), first_step='sym') + \
        variants(['C02'], deep, False, max_step='sym')
    return dict(tasks=t + rkcs(['C02'], deep) + esds(['C02'], deep, ('reassess',)), assumptions=[ESDA, RKCA, FLOW, HSTART, STIFF])


def plan_C03(deep):
    return dict(tasks=rkcs(['C03'], deep) + esds(['C03'], deep, ('assess',)) + ck(['C03'], deep) + values(['C03'], deep), assumptions=[ESDA, RKCA, HSTART, STIFF])


def plan_C04(deep):
    cl = STEP if deep else groups(STEP)
    t = steps(['C04'], cl, (1,), sym_sc=True) if deep else \
        steps(['C04'], cl, (1,), sym_sc=True, max_step=None) + \
        steps(['C04'], ['Me4'], (-1,), sym_sc=True)
    t = ck(['C04'], deep) + t + variants(['C04'], deep, sym_sc=True)
    return dict(tasks=t + rkcs(['C04'], deep) + esds(['C04'], deep, ('assess', 'reassess')), assumptions=[ESDA, RKCA, FLOW, HSTART, STIFF])


def plan_C05(deep):
    return dict(tasks=ck(['C05'], deep) + values(['C05'], deep), assumptions=[HSTART, STIFF])


def plan_C06(deep):
    return dict(tasks=denses(['C06'], DENSEC), assumptions=[])


def plan_C07(deep):
    return dict(tasks=rkcs(['C07'], deep) + esds(['C07'], deep, ()) + esd_dense(['C07']) + denses(['C07'], DENSEC, smooth=True), assumptions=[ESDA, RKCA, STIFF])


def plan_C08(deep):
    return dict(tasks=rkcs(['C08'], deep) + esds(['C08'], deep, ('stage',)) + esd_dense(['C08']) + denses(['C08'], DENSEC, smooth=True) +
                steps(['C08'], STEP if deep else groups(STEP)) + ck(['C08'], deep) + variants(['C08'], deep), assumptions=[ESDA, RKCA, STIFF])


def plan_C10(deep):
    cl = STEP if deep else groups(STEP)
    return dict(tasks=rkcs(['C10'], deep) + esds(['C10'], deep, ('stage', 'assess', 'reassess')) + ck(['C10'], deep, specials=True) +
                steps(['C10'], cl, (1, -1) if deep else (1,)) + variants(['C10'], deep, not deep), assumptions=[ESDA, RKCA, FLOW, HSTART, STIFF])


def plan_C22(deep):
    cl = STEP if deep else groups(STEP)
    return dict(tasks=rkcs(['C22'], deep) + esds(['C22'], deep, ('stage', 'assess', 'preempt')) + ck(['C22'], deep) + steps(['C22'], cl, (1,)) + variants(['C22'], deep), assumptions=[ESDA, RKCA, FLOW, HSTART])


ALLC = STEP + ['CKdisc'] + ESDC + ['SWAG', 'SSV2stab']


def plan_C09(deep):
    t = [('construct', dict(cls=c, direction=d), 150) for c in ALLC for d in ((1, -1) if deep else (1,))]
    cl = STEP if deep else groups(STEP)
    return dict(tasks=ck(['C09'], deep) + t + steps(['C09'], cl, (1,), max_step=None),
                assumptions=[FLOW, HSTART, STIFF,
                             'the values of two runs are compared through their construction and through the frame '
                             'of a step: a step reads the solver, the user\'s functions and constants only',
                             'Jacobians and mass matrices of the construction task: one 2 x 2 matrix in every accepted form'])


def plan_C17(deep):
    t = [('small', dict(what='tolerances'), 100)]
    t += [('small', dict(what='options', cls=c, direction=d), 100) for c in ALLC for d in (1, -1)]
    return dict(tasks=t, assumptions=['"every other string" is a string value equal to nothing; other wrong types are sampled'])


def plan_C15(deep):
    cl = STEP if deep else groups(STEP)
    t = [('stiff', dict(what=w), 120) for w in ('helper_b', 'helper_c', 'helper_d', 'power')]
    t += [('stiff', dict(what='diagnose', cls=c), 120) for c in (STEP if deep else ['BS5', 'Fi4N'])]
    t += [('stiff', dict(what='switch', cls=c), 100) for c in STEP]
    t += steps(['C15'], cl, (1, -1) if deep else (1,), max_step=None)
    return dict(tasks=t, assumptions=[FLOW, HSTART,
                'the power iteration takes 24 passes at most; its loops over range(8) are proved for the passes 0, 1 and the '
                'last one, with arbitrary vectors entering the later ones'])


def plan_C16(deep):
    t = [('small', dict(what='hstart', n=1, J=J, direction=d, part=q), 230)
         for J in (False, True) for d in (1, -1) for q in ('<', '>', '==')]
    t += [('small', dict(what='first_step', cls=c, direction=d), 100) for c in ALLC for d in (1, -1)]
    return dict(tasks=t, assumptions=['h_start: one component, the norm used through its contract (non-negative, zero only '
                                      'for the zero vector)'])


def plan_C18(deep):
    t = [('sens', dict(what='forward', ny=a, np_=b), 100) for a, b in SENS]
    t += [('sens', dict(what='adjoint', ny=a, np_=b, integral=i), 100) for a, b in SENS for i in (0, 1)]
    return dict(tasks=t, assumptions=[
        'solve_ivp is used through its contract: the solution of the initial value problem it is given, to its tolerance',
        'numbers of states and parameters from 1 to 3, different from each other; the functions of the user are uninterpreted'])


SENS = [(1, 1), (2, 1), (1, 2), (2, 3), (3, 2)]


def plan_C19(deep):
    t = [('nystrom', dict(what='accept', cls=c, n=n, direction=d), 100) for c in NYS for n in (2, 4) for d in (1, -1)]
    t += [('nystrom', dict(what='reject', cls=c, n=n, direction=d), 100) for c in NYS for n in (1, 2, 3, 4) for d in (1, -1)]
    return dict(tasks=t, assumptions=['dimensions 1 to 4'])


def plan_C12(deep):
    return dict(tasks=esds(['C12'], deep, ('stage', 'preempt')), assumptions=[ESDA, HSTART])


def plan_C20(deep):
    t = [('rkc_unit', dict(what=w), 100) for w in ('stages', 'stage_lemmas', 'start_step', 'validation')]
    t += [('rkc_unit', dict(what='spectral_radius', first=f, n=n), 100) for f, n in ((True, 2), (False, 1))]
    return dict(tasks=t + rkcs(['C20'], True), assumptions=[RKCA, *RKCC])


RKCC = ['the identities of cosh and sinh used for the stage recurrence hold for real numbers; the bounds '
        'coth x >= 1/x + x/3 - x^3/45 and asinh t <= t - t^3/6 + 3 t^5/40 are assumed (standard series)',
        'the stage values are proved for the test equation y\' = lambda y + g t + k, for all lambda, g, k, for every '
        'number of stages; a right-hand side enters them only through its values at the stage times']

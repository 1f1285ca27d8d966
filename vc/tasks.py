"""Verification tasks: each runs part of the real code symbolically in its own
process and returns the obligations it discharged."""
import sys
import time
import traceback
from . import sym as sy
from . import engine as en
from . import driver as dr
from . import rk


class Seen:
    """functions of the package that were executed symbolically"""

    def __enter__(self):
        self.codes = set()
        self.tool = sys.monitoring.PROFILER_ID
        mon = sys.monitoring
        mon.use_tool_id(self.tool, 'vc')
        mark = '/extensisq/'

        def start(code, off):
            if mark in code.co_filename:
                self.codes.add(f"{code.co_filename.rsplit('/', 1)[1][:-3]}.{code.co_qualname}")
            return mon.DISABLE
        mon.register_callback(self.tool, mon.events.PY_START, start)
        mon.set_events(self.tool, mon.events.PY_START)
        return self

    def __exit__(self, *a):
        sys.monitoring.set_events(self.tool, 0)
        sys.monitoring.free_tool_id(self.tool)


class Result:
    """accumulates obligations that are not path based"""

    def __init__(self):
        self.obls = {}
        self.unsupported = []
        self.cover = {}

    def add(self, label, ok, by='evaluation', why=''):
        o = self.obls.setdefault(label, dict(label=label, proved=0, by={}, refuted=0,
                                             unknown=0, fail=[]))
        if ok:
            o['proved'] += 1
            o['by'][by] = o['by'].get(by, 0) + 1
        else:
            o['refuted'] += 1
            if len(o['fail']) < 3:
                o['fail'].append(dict(status='refuted', goal=str(why)[:800]))

    def merge(self, ex, prefix=''):
        for o in ex.obls.values():
            d = o.as_dict()
            k = prefix + d['label']
            if k not in self.obls:
                d['label'] = k
                self.obls[k] = d
            else:
                t = self.obls[k]
                for f in ('proved', 'refuted', 'unknown'):
                    t[f] += d[f]
                for b, n in d['by'].items():
                    t['by'][b] = t['by'].get(b, 0) + n
                t['fail'] += d['fail']
        self.unsupported += list(ex.unsupported)
        for k, v in ex.cover.items():
            self.cover[prefix + str(k)] = self.cover.get(prefix + str(k), 0) + v


TASKS = {}


def task(f):
    TASKS[f.__name__] = f
    return f


def run(name, kw, budget):
    """executed in a worker process"""
    t0 = time.time()
    out = dict(task=name, kw={k: str(v) for k, v in kw.items()}, obligations=[],
               unsupported=[], cover={}, error=None, functions=[])
    res = Result()
    exs = []
    with Seen() as seen:
        try:
            TASKS[name](res, exs, budget=budget, **kw)
        except en.Budget as e:
            out['error'] = f'budget: {e}'
        except sy.Unsupported as e:
            out['error'] = f'unsupported: {e}'
        except RecursionError as e:
            out['error'] = f'unsupported: {e}'
        except MemoryError:
            out['error'] = 'budget: memory'
        except Exception as e:
            out['error'] = f'exception: {type(e).__name__}: {e}\n' + traceback.format_exc()[-1500:]
    out['functions'] = sorted(seen.codes)
    out['obligations'] = list(res.obls.values())
    out['unsupported'] = sorted(set(res.unsupported))
    out['cover'] = res.cover
    out['queries'] = sum(e.stats.queries for e in exs)
    out['solver_s'] = sum(e.stats.solver_s for e in exs)
    out['paths'] = sum(e.stats.paths for e in exs)
    out['rounds'] = [e.rounds for e in exs]
    out['wall_s'] = time.time() - t0
    return out


def explore(res, exs, fn, budget, **kw):
    ex = en.Explorer(budget_s=budget, **kw)
    exs.append(ex)
    try:
        fn(ex)
    finally:
        res.merge(ex)
    return ex


# ------------------------------------------------------------ explicit methods
@task
def rk_step(res, exs, budget, cls, props, n=1, direction=1, opts=None, sym_sc=False,
            first_step=None, max_step='sym', specials=True):
    pkg = dr.package()
    C = getattr(pkg.mods['extensisq'], cls)
    opts = dict(opts or {})
    sc = None
    if sym_sc:
        sc = tuple(sy.sym('sc_' + k) for k in ('k1', 'k2', 'a', 'g'))
        opts['sc_params'] = sc
    ob = rk.observer(C, props, opts, sc)
    tol = 'sym'
    if 'C09' in props:
        from . import frames
        ob, tol = frames.StepGuard(ob), 'vec'
    if 'C15' in props:
        from . import stiff
        ob = stiff.Advisory(ob)
    st = ob.start

    def start(c, s, prob, kw):
        if sc:
            c.assume(sy.cmp0(sc[3], '>'))
            c.assume(sy.cmp0(sc[3] - 1, '<'))
        st(c, s, prob, kw)
    ob.start = start

    def go(ex):
        dr.lifecycle(ex, dr.Setup(cls, n=n, direction=direction, opts=opts,
                                  first_step=first_step, max_step=max_step, tol=tol), ob)
    explore(res, exs, go, budget, specials=specials)


@task
def dense(res, exs, budget, cls, props, n=1, direction=1, opts=None, first_step=None, max_step=None,
          smooth=False, orders=None):
    from . import dense as de
    pkg = dr.package()
    C = getattr(pkg.mods['extensisq'], cls)
    ob = de.DenseObserver(C, dict(opts or {}), props)
    ob.smooth, ob.orders = smooth, orders

    def go(ex):
        dr.lifecycle(ex, dr.Setup(cls, n=n, direction=direction, opts=opts,
                                  first_step=first_step, max_step=max_step), ob)
    explore(res, exs, go, budget)


# ------------------------------------------------------------ implicit methods
@task
def esd_step(res, exs, budget, cls, props, kind='call', direction=1, opts=None, sym_sc=False,
             first_step=None, max_step='sym', mass=False, specials=True):
    from . import esd

    def go(ex):
        su, ob, factory = esd.setup(cls, props, kind, 1, direction, opts, sym_sc, first_step,
                                    max_step, mass)
        st = ob.start

        def start(c, s, prob, kw):
            if ob.sc:
                c.assume(sy.cmp0(ob.sc[3], '>'))
                c.assume(sy.cmp0(ob.sc[3] - 1, '<'))
            st(c, s, prob, kw)
        ob.start = start
        dr.lifecycle(ex, su, ob, factory)
    explore(res, exs, go, budget, specials=specials)


# ----------------------------------------------------------- stabilised method
@task
def rkc_step(res, exs, budget, props, specials='norm', **kw):
    from . import rkc

    def go(ex):
        su, ob, factory = rkc.setup(props, **kw)
        dr.lifecycle(ex, su, ob, factory)
    explore(res, exs, go, budget, specials=specials, forkmax=True)


@task
def rkc_unit(res, exs, budget, what, specials=False, **kw):
    from . import rkc
    explore(res, exs, lambda ex: getattr(rkc, what)(ex, **kw), budget, specials=specials,
            **(dict(forkmax=True, rlimit=200000) if what == 'attempt' else {}))


# -------------------------------------------------------------- small functions
@task
def small(res, exs, budget, what, **kw):
    from . import small as sm
    ekw = {k: kw.pop(k) for k in ('specials', 'nl', 'search') if k in kw}
    explore(res, exs, lambda ex: getattr(sm, what)(ex, **kw), budget, **ekw)


@task
def stiff(res, exs, budget, what, **kw):
    from . import stiff as st
    explore(res, exs, lambda ex: getattr(st, what)(ex, **kw), budget, specials=False)


@task
def nystrom(res, exs, budget, what, **kw):
    from . import accept
    explore(res, exs, lambda ex: getattr(accept, what)(ex, **kw), budget, specials=False)


@task
def sens(res, exs, budget, what, **kw):
    from . import sens as se
    explore(res, exs, lambda ex: getattr(se, what)(ex, **kw), budget, specials=False)


@task
def construct(res, exs, budget, cls, direction=1):
    from . import frames
    explore(res, exs, lambda ex: frames.construct(ex, cls, direction), budget)


@task
def esd_unit(res, exs, budget, what, specials=False, **kw):
    from . import esdunit
    explore(res, exs, lambda ex: getattr(esdunit, what)(ex, **kw), budget, specials=specials)

#!/opt/venv/bin/python -B
"""check.py <property>: decide one property on /repo's current tree.

Exit 0: every obligation generated from the current source was discharged
(or, where the generator could not reach the code, the bounded stand-in found
nothing); exit 1 with a VIOLATION line otherwise."""
import sys
sys.dont_write_bytecode = True
import json
import multiprocessing as mp
import os
import resource
import signal
import subprocess
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
PY = '/opt/venv/bin/python'
T0 = time.time()


def worker(q, i, name, kw, budget):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    sys.setrecursionlimit(6000)
    import warnings
    warnings.simplefilter('ignore')
    from vc import tasks
    try:
        q.put((i, tasks.run(name, kw, budget)))
    except BaseException as e:
        q.put((i, dict(task=name, kw={}, obligations=[], unsupported=[], cover={},
                       error=f'exception: {e!r}', functions=[], queries=0,
                       solver_s=0., paths=0, wall_s=0.)))


def run_tasks(tasks, deadline, nproc):
    """tasks: list of (name, kwargs, budget seconds)"""
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    todo = list(enumerate(tasks))
    live, res = {}, {}

    def dead(i, why):
        name, kw, _ = tasks[i]
        res[i] = dict(task=name, kw={k: str(v) for k, v in kw.items()}, obligations=[],
                      unsupported=[], cover={}, error=why, functions=[], queries=0,
                      solver_s=0., paths=0, wall_s=0.)
    while todo or live:
        while todo and len(live) < nproc and time.time() < deadline:
            i, (name, kw, budget) = todo.pop(0)
            b = min(budget, deadline - time.time())
            p = ctx.Process(target=worker, args=(q, i, name, kw, b))
            p.start()
            live[i] = (p, time.time() + b + 20)
        try:
            i, r = q.get(timeout=0.3)
            res[i] = r
            p, _ = live.pop(i, (None, 0))
            if p is not None:
                p.join(5)
        except Exception:
            pass
        now = time.time()
        for i, (p, end) in list(live.items()):
            if now > end:
                p.kill()
                live.pop(i)
                dead(i, 'budget: killed')
            elif not p.is_alive() and q.empty():
                time.sleep(0.2)
                if q.empty():
                    live.pop(i)
                    dead(i, 'budget: worker ended (memory)')
        if todo and now >= deadline:
            for i, _ in todo:
                dead(i, 'budget: not started')
            todo = []
    return [res[i] for i in sorted(res)]


def run_monitor(prop, tier, seed, timeout):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1')
    cmd = [PY, '-B', os.path.join(HERE, 'monitor.py'), prop, tier, str(seed), str(timeout)]
    return subprocess.Popen(cmd, cwd=HERE, env=env, stdout=subprocess.PIPE,
                            stderr=subprocess.PIPE, text=True)


def known_findings(prop):
    out = []
    path = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith('finding:') and f'property={prop} ' in l:
                key = l.split('key=', 1)[1].split(' :: ')[0].strip()
                out.append((key, l.split(' :: ', 1)[1]))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
        os.environ[k] = '1'
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    from vc import props
    plan = props.plan(prop, tier)
    limit = 240 if tier == 'quick' else 780
    deadline = T0 + limit
    nproc = max(2, min(8, os.cpu_count() or 4))
    mon = run_monitor(prop, tier, seed, 100 if tier == 'quick' else 600) if plan.get('monitor', True) else None
    loaderr = None
    digest = {}
    results = []
    if plan['tasks']:
        try:
            from vc import driver
            digest = driver.package().digest
        except Exception as e:
            import traceback
            loaderr = f'{type(e).__name__}: {e} {traceback.format_exc()[-600:]}'
        if loaderr is None:
            results = run_tasks(plan['tasks'], deadline, nproc)
    mres = None
    if mon is not None:
        try:
            out, err = mon.communicate(timeout=max(30, deadline + 60 - time.time()))
            mres = json.loads(out.strip().splitlines()[-1])
        except Exception as e:
            mon.kill()
            mres = dict(evaluations=0, distinct_nontrivial=0, samples=[], rule='',
                        violations=[], error=f'{type(e).__name__}: {e} ' +
                        (err[-800:] if 'err' in dir() else ''))
    if mon is not None and not mres['violations'] and any(
            o['refuted'] or o['unknown'] for r in results for o in r['obligations']):
        # an obligation failed: look longer for an input that shows it
        left = (300 if tier == 'quick' else 800) - (time.time() - T0)
        if left > 20:
            try:
                p = run_monitor(prop, 'hunt', seed + 77, min(left, 150))
                more = json.loads(p.communicate(timeout=left + 60)[0].strip().splitlines()[-1])
                mres['violations'] = more['violations']
                mres['evaluations'] += more['evaluations']
                mres['distinct_nontrivial'] += more['distinct_nontrivial']
            except Exception:
                p.kill()
    finish(prop, tier, seed, plan, results, mres, digest, loaderr)


def finish(prop, tier, seed, plan, results, mres, digest, loaderr):
    labels = {}
    for r in results:
        for o in r['obligations']:
            labels.setdefault((r['task'], json.dumps(r['kw'], sort_keys=True), o['label']), o)
    refuted = [(k, o) for k, o in labels.items() if o['refuted']]
    unknown = [(k, o) for k, o in labels.items() if o['unknown'] and not o['refuted']]
    known = known_findings(prop)
    viol = list(mres['violations']) if mres else []
    new_viol = []
    said = set()
    for v in viol:
        hit = [t for key, t in known if key in v['key']]
        if hit:
            if hit[0] not in said:
                print(f'KNOWN-FINDING: property={prop} {hit[0]}')
                said.add(hit[0])
        else:
            new_viol.append(v)
    instances = sum(o['proved'] + o['refuted'] + o['unknown'] for o in labels.values())
    discharged = sum(o['proved'] for o in labels.values())
    by = {}
    for o in labels.values():
        for b, n in o['by'].items():
            by[b] = by.get(b, 0) + n
    functions = sorted({f for r in results for f in r['functions']})
    problems = [dict(task=r['task'], kw=r['kw'], error=(r['error'] or '')[:600],
                     unsupported=r['unsupported'][:6])
                for r in results if r['error'] or r['unsupported']]
    level = plan['level']
    cov = dict(
        obligations=instances, discharged=discharged,
        named_obligations=len(labels),
        named_discharged=sum(1 for o in labels.values() if o['proved'] and not
                             o['refuted'] and not o['unknown']),
        back_ends=by,
        solver_queries=sum(r['queries'] for r in results),
        solver_s=round(sum(r['solver_s'] for r in results), 3),
        paths=sum(r['paths'] for r in results),
        functions_under_contract=functions,
        checker_cmd=f'VERIF_TIER={tier} VERIF_SEED={seed} {PY} -B check.py {prop}',
        trusted_base=plan['trusted'],
        tasks=[dict(task=r['task'], kw=r['kw'], wall_s=round(r['wall_s'], 1),
                    paths=r['paths'], obligations=len(r['obligations']),
                    cover=r['cover'], error=(r['error'] or None) and r['error'][:200])
               for r in results],
        outside_reach=problems,
        samples=[f"{k[0]} {k[1]}: {k[2]} ({o['proved']} paths; {o['by']})"
                 for k, o in list(labels.items())[:6]] or ['none'],
        sources=digest)
    if loaderr:
        cov['load_error'] = loaderr
    if mres:
        cov['bounded_monitor'] = {k: v for k, v in mres.items() if k != 'violations'}
        cov['evaluations'] = mres['evaluations']
        cov['distinct_nontrivial'] = mres['distinct_nontrivial']
        cov['rule'] = mres['rule']
        if mres.get('samples'):
            cov['samples'] = cov['samples'] + mres['samples'][:4]
    if level == 'other':
        cov['explanation'] = plan['explanation']
    nviol = len(new_viol) + len(refuted) + len(unknown)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=plan['assumptions'], wall_s=round(time.time() - T0, 2),
              violations=nviol)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f'{prop}: {len(labels)} named obligations, {instances} instances, '
          f'{discharged} discharged {by}; {len(problems)} tasks partly outside reach; '
          f'monitor: {mres and mres["evaluations"]} evaluations; '
          f'{time.time() - T0:.1f} s')
    for p in problems[:8]:
        print('  outside reach:', p['task'], p['kw'], p['error'][:300], p['unsupported'][:2])
    if mres and mres.get('error'):
        print('  monitor:', mres['error'][:600])
    rp = os.path.join(HERE, 'evidence', 'replay', prop + '.json')
    fails = [dict(task=k[0], kw=k[1], obligation=k[2], status='refuted' if o['refuted']
                  else 'not proved', instances=o['fail']) for k, o in refuted + unknown]
    for f in fails[:10]:
        print('  failed obligation:', f['task'], f['kw'], '::', f['obligation'],
              '::', f['status'], '::', json.dumps(f['instances'][:1], default=str)[:500])
    if new_viol:
        with open(rp, 'w') as f:
            json.dump(dict(property=prop, failing_inputs=new_viol[:5],
                           replay_cmd=f'{PY} -B {HERE}/monitor.py replay {rp}',
                           failed_obligations=fails[:10]), f, indent=1, default=str)
        print('  failing input:', json.dumps(new_viol[0], default=str)[:700])
        print(f'VIOLATION property={prop} replay={rp}')
        sys.exit(1)
    if fails:
        with open(rp, 'w') as f:
            json.dump(dict(property=prop, failing_inputs=[], failed_obligations=fails),
                      f, indent=1, default=str)
        print(f'VIOLATION property={prop} replay={rp} no-failing-input-found')
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    main()

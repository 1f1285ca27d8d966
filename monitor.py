#!/opt/venv/bin/python -B
"""monitor.py <property> <tier> <seed>  |  monitor.py replay FILE

Bounded stand-in: runs the unmodified package on generated concrete inputs and
checks the property on everything observed.  Prints one JSON line."""
import sys
sys.dont_write_bytecode = True
import json
import multiprocessing as mp
import os
import time
import traceback

for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
    os.environ.setdefault(k, '1')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


ROUNDS = 5            # quick tier


def one(a):
    prop, i, s = a
    from mon import checks
    import warnings
    import logging
    logging.disable(logging.CRITICAL)
    t = time.time()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            v = checks.CH[prop](s)
        return i, v, None, time.time() - t
    except Exception:
        return i, [], traceback.format_exc()[-1500:], time.time() - t


def main():
    if sys.argv[1] == 'replay':
        d = json.load(open(sys.argv[2]))
        bad = 0
        from mon import checks2                                    # noqa: F401
        for v in d['failing_inputs']:
            _, viol, err, _ = one((d['property'], 0, v['scenario']))
            print(json.dumps(dict(scenario=v['scenario'], violations=viol, error=err), default=str))
            bad += bool(viol)
        sys.exit(1 if bad else 0)
    prop, tier, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
    limit = float(sys.argv[4]) if len(sys.argv) > 4 else (100 if tier == 'quick' else 600)
    t0 = time.time()
    hunt = tier == 'hunt'
    tier = 'quick' if hunt else tier
    from mon import checks, checks2                                # noqa: F401
    scns = list(checks.SC[prop](tier, seed))
    rnd = 1
    viols, errors, done, times = [], [], 0, []
    nproc = max(2, min(8, (os.cpu_count() or 4)))
    seen = set()
    ctx = mp.get_context('fork')
    with ctx.Pool(nproc) as pool:
        while True:
            for i, v, e, t in pool.imap_unordered(one, [(prop, i, s) for i, s in enumerate(scns)], chunksize=2):
                done += 1
                seen.add(json.dumps(scns[i], sort_keys=True, default=str))
                times.append((t, i))
                if e:
                    errors.append(dict(scenario=scns[i], error=e))
                for key, txt in v[:2]:
                    if len(viols) < 60:
                        c = scns[i].get('cls', '') if isinstance(scns[i], dict) else ''
                        viols.append(dict(key=f'{c}: {key}', what=str(txt)[:600], scenario=scns[i]))
                if time.time() - t0 > limit:
                    break
            if prop == 'C06' or viols or (tier == 'quick' and not hunt and rnd >= ROUNDS) or \
                    time.time() - t0 > (.9 if hunt else .4) * limit:
                break
            rnd += 1
            scns = list(checks.SC[prop](tier, seed + 1000 * rnd))
        pool.terminate()
    out = dict(evaluations=done, distinct_nontrivial=len(seen),
               rule=checks.RULE.get(prop, 'generated problems and options, run with the unmodified package; '
                                    'distinct = different problem/option records'),
               samples=[json.dumps(scns[i], default=str)[:300] for i in range(0, len(scns), max(1, len(scns) // 3))][:3],
               violations=viols, wall_s=round(time.time() - t0, 1))
    if errors:
        out['error'] = f'{len(errors)} scenarios could not be evaluated: ' + errors[0]['error'][-700:]
        out['error_scenario'] = errors[0]['scenario']
    if os.environ.get('MON_TIMES'):
        print(sorted(times)[-5:], [scns[i] for _, i in sorted(times)[-2:]])
    print(json.dumps(out, default=str))


if __name__ == '__main__':
    main()

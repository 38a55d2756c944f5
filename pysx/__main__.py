"""python3-vt -m pysx PROPERTY: generates and discharges the obligations."""
import argparse
import json
import os
import tempfile
import time

import z3

from pysx import transform
from pysx.core import Run
from pysx.props import PROPS, TRUSTED_OF


RANK = {'proved': 0, 'undecided': 1, 'refuted': 2}


def one(a, steps):
    t0 = time.time()
    run = Run(a.prop, a.tier, a.limit, a.seed)
    for step in steps:
        run.attempt(step)
    return {
        'property': a.prop, 'status': 'ok',
        'obligations': [{
            'name': o.name, 'status': 'undecided' if o.status == 'open' else o.status,
            'vcs': o.vcs, 'paths': o.reached, 'time': round(o.time, 3), 'by': sorted(o.by),
            'detail': o.detail, 'bounded': o.bounded} for o in (run.obs[n] for n in run.order)],
        'functions': sorted(run.functions), 'trusted': run.trusted(TRUSTED_OF),
        'solver': f'z3 {z3.get_version_string()} (python), cvc5 1.1.2 for what z3 leaves open',
        'cross': dict(run.cross),
        'solver_s': round(run.solver_s, 2), 'queries': run.queries, 'paths': run.paths,
        'conditions': run.vcs, 'wall_s': round(time.time() - t0, 2),
        'extraction': {
            'how': 'the modules named here were read from /repo, parsed, instrumented and executed; '
                   'the counts are syntax nodes that were instrumented',
            'modules': {m: c for m, c in sorted(transform.LOADED.items())}},
        'hints': run.hints[:50],
        'log': '\n'.join(run.log)[-6000:],
    }


def merge(parts):
    """the parts of one property, decided in several processes"""
    r = parts[0]
    for p in parts[1:]:
        for o in p['obligations']:
            mine = next((x for x in r['obligations'] if x['name'] == o['name']), None)
            if mine is None:
                r['obligations'].append(o)
                continue
            for k in ('vcs', 'paths', 'time'):
                mine[k] = round(mine[k] + o[k], 3)
            mine['by'] = sorted({*mine['by'], *o['by']})
            mine['bounded'] = mine['bounded'] or o['bounded']
            if RANK[o['status']] > RANK[mine['status']]:
                mine['status'], mine['detail'] = o['status'], o['detail']
        for k in ('functions', 'trusted'):
            r[k] = sorted({*r[k], *p[k]})
        for k in ('solver_s', 'queries', 'paths', 'conditions'):
            r[k] = round(r[k] + p[k], 2)
        for k, v in p['cross'].items():
            r['cross'][k] = r['cross'].get(k, 0) + v
        r['extraction']['modules'].update(p['extraction']['modules'])
        r['hints'] = (r['hints'] + p['hints'])[:50]
        r['log'] = (r['log'] + '\n' + p['log']).strip()[-6000:]
    return r


def several(a, steps, jobs):
    """the steps dealt out to as many processes"""
    with tempfile.TemporaryDirectory(prefix='vfpysx') as tmp:
        pids = []
        for i in range(jobs):
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    res = one(a, steps[i::jobs])
                    with open(os.path.join(tmp, f'{i}.json'), 'w') as f:
                        json.dump(res, f, default=str)
                    code = 0
                finally:
                    os._exit(code)
            pids.append(pid)
        parts = []
        for i, pid in enumerate(pids):
            os.waitpid(pid, 0)
            try:
                with open(os.path.join(tmp, f'{i}.json')) as f:
                    parts.append(json.load(f))
            except (OSError, ValueError):
                # what it was to decide is undecided
                res = one(a, [])
                res['obligations'].append({
                    'name': f'part {i} of {jobs}', 'status': 'undecided', 'vcs': 0, 'paths': 0,
                    'time': 0, 'by': [], 'detail': 'the process ended without a result',
                    'bounded': False})
                parts.append(res)
        return merge(parts)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--limit', type=float, default=300)
    ap.add_argument('--jobs', type=int, default=6)
    ap.add_argument('--out')
    a = ap.parse_args()
    t0 = time.time()
    steps = PROPS.get(a.prop, [])
    jobs = min(a.jobs, len(steps) // 4)
    res = several(a, steps, jobs) if jobs > 1 else one(a, steps)
    res['wall_s'] = round(time.time() - t0, 2)
    if a.tier == 'thorough':
        res['solver'] += f'; cvc5 cross-check {res["cross"]}'
    if a.out:
        with open(a.out, 'w') as f:
            json.dump(res, f, indent=1, default=str)
    n = len(res['obligations'])
    ok = sum(o['status'] == 'proved' for o in res['obligations'])
    print(f'{a.prop}: {ok}/{n} obligations, {res["conditions"]} conditions, {res["paths"]} paths, '
          f'{res["queries"]} queries, {res["wall_s"]} s')
    for o in res['obligations']:
        if o['status'] != 'proved':
            print(f"  {o['status']}: {o['name']}: {o['detail'][:600]}")
    if res['log']:
        print(res['log'][-1500:])


main()

"""python -m bounded PROP --seed N --tier quick --budget S --out FILE [--replay FILE]"""
import argparse
import importlib
import json
import sys
import time
import traceback

from bounded import harness

MODULES = {}
for m, ids in {'b_citrine': range(1, 12), 'b_db': range(12, 16),
               'b_json': (16, 17, 18, 20, 21, 22, 23),
               'b_as': (19, 24, 25, 26, 27)}.items():
    for i in ids:
        MODULES[f'C{i:02d}'] = m


def from_models(spec, hints):
    for h in hints:
        try:
            cases = list(spec['from_model'](h)) if 'from_model' in spec else []
        except Exception:      # noqa
            continue           # a model without what is needed
        yield from cases


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--budget', type=float, default=60)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    ap.add_argument('--hints')
    a = ap.parse_args()
    harness.setup_path()
    res = {'property': a.prop, 'status': 'ok', 'evaluations': 0, 'distinct': 0,
           'violations': [], 'errors': [], 'samples': [], 'by_runner': {}, 'rule': ''}
    t0 = time.time()
    try:
        mod = importlib.import_module('bounded.' + MODULES[a.prop])
        spec = mod.PROPS[a.prop]
        if a.replay:
            rep = json.load(open(a.replay))
            msg = harness.run_one(mod.RUNNERS, rep['runner'], rep['params'])
            print('REPLAY', rep['runner'], json.dumps(rep['params'])[:2000])
            print('RESULT', 'no violation' if msg is None else f'{msg[0]}: {msg[1]}')
            sys.exit(1 if msg and msg[0] == 'violation' else 0)
        run = harness.Run(a.prop, a.seed, a.tier, a.budget)
        cases = spec['gen'](run)
        if a.hints:
            # counterexamples of the solver
            cases = from_models(spec, json.load(open(a.hints)))
        for name, params in cases:
            run.case(mod.RUNNERS, name, params)
            if run.stop:
                break
        res.update(evaluations=run.evaluations, distinct=len(run.keys),
                   violations=run.violations, errors=run.errors,
                   samples=run.samples, by_runner=run.by_runner, rule=spec['rule'])
    except SystemExit:
        raise
    except Exception as e:       # noqa
        res['status'] = 'error'
        res['errors'].append({'error': traceback.format_exc()[-3000:]})
    res['wall_s'] = time.time() - t0
    if a.out:
        json.dump(res, open(a.out, 'w'))
    else:
        print(json.dumps({k: v for k, v in res.items() if k != 'samples'}, indent=1)[:4000])


main()

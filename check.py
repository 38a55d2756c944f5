#!/usr/bin/env python3
"""
python3 check.py PROPERTY [--tier quick|thorough]

Decides one property: the deductive part (pysx: obligations generated from the
current source of /repo and discharged by an SMT solver) and the bounded part
(the same contracts, executed on the real code with its real dependencies) run
side by side; this script merges what they report.

exit 0: held; exit 1 and a line "VIOLATION property=.. replay=..": broken.
"""
import argparse
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vf import config                                           # noqa: E402

VENV = '/opt/venv/bin/python'


def vt_python():
    for p in ('/opt/veriftools/pyvenv/bin/python3', '/opt/veriftools/pyvenv/bin/python'):
        if os.path.exists(p):
            return [p]
    return ['python3-vt']


def launch(cmd, log):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    env.pop('PYTHONPATH', None)
    return subprocess.Popen(cmd, cwd=HERE, env=env, stdout=log, stderr=subprocess.STDOUT,
                            start_new_session=True)


def finish(p, limit):
    try:
        p.wait(timeout=max(1, limit))
        return True
    except subprocess.TimeoutExpired:
        import signal
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        return False


def load(path):
    try:
        return json.load(open(path))
    except (OSError, ValueError):
        return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    prop = a.prop
    cfg = config.CHECKS[prop]
    if a.replay:
        return replay(prop, a.replay)
    t0 = time.time()
    out = os.path.join(HERE, 'out')
    os.makedirs(out, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    work = tempfile.mkdtemp(prefix=f'{prop}-', dir=out)
    budget = {'quick': 45, 'thorough': 600}[tier]
    limit = {'quick': 600, 'thorough': 3000}[tier]
    fb, fs = os.path.join(work, 'bounded.json'), os.path.join(work, 'pysx.json')
    logb, logs = open(os.path.join(work, 'bounded.log'), 'w'), open(os.path.join(work, 'pysx.log'), 'w')
    pb = launch([VENV, '-m', 'bounded', prop, '--seed', str(seed), '--tier', tier,
                 '--budget', str(budget), '--out', fb], logb)
    ps = None
    if cfg.get('contracts'):
        ps = launch(vt_python() + ['-m', 'pysx', prop, '--seed', str(seed), '--tier', tier,
                                   '--limit', str(limit - 60), '--out', fs], logs)
    okb = finish(pb, limit)
    oks = finish(ps, limit - (time.time() - t0)) if ps else True
    b = load(fb)
    s = load(fs) if ps else None
    if ps and s is None:
        s = {'status': 'error' if oks else 'timeout', 'obligations': [], 'functions': [],
             'log': open(os.path.join(work, 'pysx.log')).read()[-3000:]}
    if b is None:
        b = {'status': 'error' if okb else 'timeout', 'violations': [], 'evaluations': 0,
             'distinct': 0, 'samples': [], 'rule': '', 'errors':
             [open(os.path.join(work, 'bounded.log')).read()[-3000:]]}
    refuted = [o for o in (s or {}).get('obligations', []) if o['status'] == 'refuted']
    if refuted and not b['violations'] and s.get('hints'):
        # the counterexamples of the solver, on the real code
        fh, fr = os.path.join(work, 'hints.json'), os.path.join(work, 'replayed.json')
        json.dump(s['hints'], open(fh, 'w'))
        with open(os.path.join(work, 'replayed.log'), 'w') as log:
            finish(launch([VENV, '-m', 'bounded', prop, '--tier', tier, '--hints', fh, '--budget', '60',
                           '--out', fr], log), 120)
        r = load(fr)
        if r:
            b['violations'] = r['violations']
            b['evaluations'] += r['evaluations']
    verdict(prop, cfg, tier, seed, b, s, t0, work)


def known():
    """findings that are not repaired: the specific case that fails"""
    d = load(os.path.join(HERE, 'known_findings.json')) or {}
    return d.get('known', [])


def is_known(prop, v):
    for k in known():
        if k['property'] == prop and k['runner'] == v.get('runner') and \
                k['params'] == v.get('params'):
            return k
    return None


def verdict(prop, cfg, tier, seed, b, s, t0, work):
    keep = os.path.join(HERE, 'out', 'replay')
    os.makedirs(keep, exist_ok=True)
    viols = []
    for v in b['violations']:
        k = is_known(prop, v)
        if k:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
        else:
            viols.append(v)
    failed = [o for o in (s or {}).get('obligations', []) if o['status'] == 'refuted']
    undecided = [o for o in (s or {}).get('obligations', []) if o['status'] not in ('refuted', 'proved')]
    held = [o for o in (s or {}).get('obligations', []) if o['status'] == 'proved']
    proved = [o for o in held if not o.get('bounded')]
    enumerated = [o for o in held if o.get('bounded')]
    code = 0
    lines = []
    if viols:
        path = os.path.join(keep, f'{prop}-{os.getpid()}.json')
        json.dump({'property': prop, **viols[0], 'failed_obligations': failed[:20],
                   'more': viols[1:], 'how': f'python3 check.py {prop} --replay {path}'},
                  open(path, 'w'), indent=1)
        print(f"  {viols[0]['runner']}: {str(viols[0]['message'])[:1500]}")
        for o in failed[:5]:
            print(f"  failed obligation: {o['name']}: {str(o.get('detail', ''))[:600]}")
        lines.append(f'VIOLATION property={prop} replay={path}')
        code = 1
    elif failed:
        path = os.path.join(keep, f'{prop}-{os.getpid()}.json')
        json.dump({'property': prop, 'failed_obligations': failed, 'solver': (s or {}).get('solver'),
                   'note': 'the verifier refutes these obligations; no concrete failing input was '
                           'found by the bounded runs'}, open(path, 'w'), indent=1)
        for o in failed[:5]:
            print(f"  failed obligation: {o['name']}: {str(o.get('detail', ''))[:1500]}")
        lines.append(f'VIOLATION property={prop} replay={path} no-failing-input-found')
        code = 1
    ev = evidence(prop, cfg, tier, seed, b, s, proved, enumerated, failed, undecided, len(viols), t0)
    json.dump(ev, open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w'), indent=1, default=str)
    n = len(proved) + len(failed) + len(undecided)
    print(f'{prop}: {len(proved)}/{n} obligations discharged, {len(enumerated)} held up to a bound, '
          f'{len(undecided)} left to the bounded part; {b["evaluations"]} bounded cases '
          f'({b["status"]}), {len(b.get("errors", []))} harness errors; {time.time() - t0:.1f} s')
    for o in undecided[:8]:
        print(f"  undecided: {o['name']}: {str(o.get('detail', ''))[:300]}")
    if s and s.get('status') not in (None, 'ok'):
        print(f"  pysx: {s['status']} {str(s.get('log', ''))[-1500:]}")
    for e in b.get('errors', [])[:2]:
        print(f'  bounded: {str(e)[:1500]}')
    for l in lines:
        print(l)
    if code == 0:
        subprocess.run(['rm', '-rf', work])
    sys.stdout.flush()
    sys.exit(code)


def evidence(prop, cfg, tier, seed, b, s, proved, enumerated, failed, undecided, nviol, t0):
    cov = {}
    n = len(proved) + len(failed) + len(undecided)
    if s is not None:
        fns = s.get('functions', [])
        cov.update(
            obligations=sum(o.get('vcs', 1) for o in proved + failed + undecided),
            discharged=sum(o.get('vcs', 1) for o in proved),
            named_obligations=n, named_discharged=len(proved),
            checker_cmd=f'python3-vt -m pysx {prop}',
            trusted_base=cfg.get('trusted', []) + s.get('trusted', []) + config.TRUSTED,
            functions_under_contract=fns,
            obligation_list=[{k: o.get(k) for k in ('name', 'status', 'vcs', 'paths', 'time', 'by')}
                             for o in proved + failed + undecided],
            back_end=s.get('solver'), solver_s=s.get('solver_s'), paths=s.get('paths'),
            undecided=[{'name': o['name'], 'why': str(o.get('detail', ''))[:500]} for o in undecided],
            extraction=s.get('extraction'),
        )
    if enumerated:
        cov['bounded_obligations'] = [o['name'] for o in enumerated]
    if cfg.get('bounded_functions'):
        cov['bounded_stand_ins'] = cfg['bounded_functions']
    cov['bounded'] = {'evaluations': b['evaluations'], 'distinct': b.get('distinct', 0),
                      'rule': b.get('rule'), 'samples': b.get('samples', [])[:5],
                      'by_runner': b.get('by_runner'), 'status': b['status'],
                      'harness_errors': len(b.get('errors', [])), 'wall_s': b.get('wall_s')}
    if s is None or cfg['level'] != 'proof':
        cov.update(evaluations=b['evaluations'], distinct_nontrivial=b.get('distinct', 0),
                   rule=b.get('rule') or '-', samples=b.get('samples', [])[:8] or ['none'],
                   explanation=cfg.get('note', ''))
    return {'property': prop, 'tier': tier, 'seed': seed, 'level': cfg['level'], 'coverage': cov,
            'assumptions': cfg.get('assumptions', []) + config.ASSUMPTIONS,
            'wall_s': round(time.time() - t0, 2), 'violations': nviol + len(failed)}


def replay(prop, path):
    d = load(path)
    if d and d.get('runner'):
        sys.exit(subprocess.run([VENV, '-m', 'bounded', prop, '--replay', path], cwd=HERE).returncode)
    print(json.dumps(d, indent=1)[:4000])
    sys.exit(1)


if __name__ == '__main__':
    main()

#!/usr/bin/env python3
"""
Self-test of the machinery, run by hand (no check reads this): edits of /repo
that keep its behaviour, each applied to a scratch copy; every property named
with an edit is then decided on the copy. An edit is a false alarm when an
obligation is refuted or the bounded part finds a violation; obligations that
the edit brings out of reach (undecided, left to the bounded part) are shown.

    python3 tools/quiet.py [-j JOBS] [NAME ...]
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from refactorings import EDITS                                  # noqa: E402

VT, VENV = '/opt/veriftools/pyvenv/bin/python3', '/opt/venv/bin/python'


def run(edit):
    name, props, changes = edit
    tmp = tempfile.mkdtemp(prefix='quiet')
    t0 = time.time()
    lines = []
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git'))
        for path, old, new in changes:
            p = os.path.join(repo, path)
            s = open(p).read()
            if s.count(old) != 1:
                return f'{name}: BAD EDIT of {path}: {s.count(old)} places'
            open(p, 'w').write(s.replace(old, new))
        env = dict(os.environ, VERIF_REPO=repo, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        for prop in props.split():
            out = os.path.join(tmp, 'o.json')
            for cmd in ([VT, '-W', 'ignore', '-m', 'pysx', prop, '--limit', '300', '--jobs', '3', '--out', out],
                        [VENV, '-W', 'ignore', '-m', 'bounded', prop, '--budget', '15', '--out', out]):
                if os.path.exists(out):
                    os.remove(out)
                try:
                    r = subprocess.run(cmd, cwd=HERE, env=env, timeout=900, capture_output=True, text=True)
                    d = json.load(open(out))
                except subprocess.TimeoutExpired:
                    lines.append(f'   {prop}: TIMEOUT {cmd[3]}')
                    continue
                except OSError:
                    lines.append(f'   {prop}: NO RESULT {cmd[3]}: {r.stderr[-300:]}')
                    continue
                left = [o for o in d.get('obligations', []) if o['status'] not in ('proved', 'refuted')]
                bad = [o for o in d.get('obligations', []) if o['status'] == 'refuted']
                for o in bad[:3]:
                    lines.append(f"   {prop}: FALSE ALARM (1 of {len(bad)}): {o['name']}: {o['detail'][:200]}")
                if left:
                    lines.append(f"   {prop}: undecided {len(left)}: {left[0]['name']}: {left[0]['detail'][:200]}")
                for v in d.get('violations', [])[:2]:
                    lines.append(f"   {prop}: FALSE ALARM (bounded) {json.dumps(v)[:300]}")
                for e in (d.get('errors') or [])[:2]:
                    lines.append(f"   {prop}: bounded error {str(e)[:200]}")
        return '\n'.join([f'{name} ({props}) {time.time() - t0:.0f} s' + ('' if lines else ': quiet')] + lines)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('names', nargs='*')
    ap.add_argument('-j', type=int, default=3)
    a = ap.parse_args()
    todo = [e for e in EDITS if not a.names or any(e[0].startswith(n) for n in a.names)]
    with ThreadPoolExecutor(a.j) as ex:
        for r in ex.map(run, todo):
            print(r, flush=True)


main()

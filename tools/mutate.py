#!/usr/bin/env python3
"""
Self-test of the machinery, run by hand (no check reads this): small random
changes of the source (one each, in a scratch copy of /repo) that the existing
tests do not notice; the properties anchored in the file are decided on the
copy. What is printed as SURVIVES is noticed by none of them and is looked at by
hand: it breaks no property, or a check has to be strengthened.

    python3 tools/mutate.py [-j JOBS] [-n NUMBER] [--seed S] FILE ...
"""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import warnings
from concurrent.futures import ThreadPoolExecutor

warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT, VENV = '/opt/veriftools/pyvenv/bin/python3', '/opt/venv/bin/python'
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==',
       ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Div: '//', ast.FloorDiv: '/', ast.Mod: '//'}


def props_of(path):
    out = []
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(l)
        if path in p['anchors']['files']:
            out.append(p['id'])
    return out


def quiet_part(n):
    """parts that are not changed: documentation, logging, annotations"""
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
        return True
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and 'logger' in ast.unparse(n.value.func):
        return True
    return isinstance(n, (ast.Import, ast.ImportFrom, ast.JoinedStr))


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = src.encode()

    def at(line, col):
        return starts[line - 1] + col

    def span(n):
        return at(n.lineno, n.col_offset), at(n.end_lineno, n.end_col_offset)

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []

    def put(n, new, what):
        a, b = span(n)
        out.append((n.lineno, what, (raw[:a] + new.encode() + raw[b:]).decode()))

    def walk(n, fn):
        if quiet_part(n):
            return
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.args.defaults + n.args.kw_defaults:
                if d is not None:
                    walk(d, n.name)
            for b in n.body:
                walk(b, n.name)
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                walk(n.value, fn)
            return
        if fn:
            one(n)
        for c in ast.iter_child_nodes(n):
            walk(c, fn)

    def one(n):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            put(n, f'{text(n.left)} {CMP[type(n.ops[0])]} {text(n.comparators[0])}', 'comparison')
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            put(n, '(' + op.join(text(v) for v in n.values) + ')', 'and/or')
            for i in range(len(n.values)):
                rest = [text(v) for j, v in enumerate(n.values) if j != i]
                put(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(rest) + ')',
                    f'condition {i} dropped')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, '(' + text(n.operand) + ')', 'not dropped')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            put(n, f'({text(n.left)} {BIN[type(n.op)]} {text(n.right)})', 'operator')
            put(n, f'({text(n.left)})', 'right operand dropped')
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                put(n, str(not n.value), 'flag')
            elif isinstance(n.value, int):
                put(n, str(n.value + 1), 'constant + 1')
                put(n, str(n.value - 1), 'constant - 1')
            elif isinstance(n.value, str) and n.value:
                put(n, repr(n.value + 'x'), 'text')
        elif isinstance(n, ast.If):
            put(n.test, f'not ({text(n.test)})', 'if inverted')
        elif isinstance(n, ast.IfExp):
            put(n, f'({text(n.body)})', 'always the first')
            put(n, f'({text(n.orelse)})', 'always the second')
        elif isinstance(n, ast.Return) and n.value is not None:
            put(n, 'return None', 'returns None')
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete, ast.Break,
                            ast.Continue)):
            put(n, 'pass', 'statement dropped')
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                a, b = n.args[0], n.args[1]
                put(n, f'{text(n.func)}({text(b)}, {text(a)}' + ''.join(
                    ', ' + text(x) for x in n.args[2:]) + ''.join(
                    f', {k.arg}={text(k.value)}' if k.arg else f', **{text(k.value)}'
                    for k in n.keywords) + ')', 'arguments swapped')
            for i, k in enumerate(n.keywords):
                args = [text(x) for x in n.args] + [
                    f'{q.arg}={text(q.value)}' if q.arg else f'**{text(q.value)}'
                    for j, q in enumerate(n.keywords) if j != i]
                put(n, f'{text(n.func)}({", ".join(args)})', f'argument {k.arg} dropped')
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            put(n.type, 'ZeroDivisionError', 'handler dropped')
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in n.generators:
                for t in g.ifs:
                    put(t, 'True', 'filter dropped')
        elif isinstance(n, ast.Tuple) and len(n.elts) > 2 and isinstance(n.ctx, ast.Load):
            for e in n.elts:
                rest = [text(x) for x in n.elts if x is not e]
                put(n, '(' + ', '.join(rest) + ')', f'{text(e)} dropped')
    walk(tree, None)
    res = []
    for line, what, s in out:
        try:
            ast.parse(s)
        except SyntaxError:
            continue
        if s != src:
            res.append((line, what, s))
    return res


STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def tests(repo, tmp):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent',
               PYTHONHASHSEED='0')
    x = os.path.join(tmp, 'j.xml')
    try:
        subprocess.run([VENV, '-m', 'pytest', '-q', f'--rootdir={repo}', '-p', 'no:cacheprovider',
                        '--timeout=60', '--tb=no', '-o', 'junit_family=xunit2', f'--junitxml={x}'],
                       cwd=repo, env=env, timeout=120, capture_output=True)
    except subprocess.TimeoutExpired:
        return False
    o = os.path.join(tmp, 't.json')
    subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', o, f'junit:{x}'], capture_output=True)
    try:
        t = json.load(open(o))
    except OSError:
        return False
    got = set(t.get('passed', t.get('pass', [])))
    return not STABLE - got


def run(job):
    path, line, what, src, props = job
    tmp = tempfile.mkdtemp(prefix='mutate')
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git'))
        old = open(os.path.join(repo, path)).read().splitlines()
        open(os.path.join(repo, path), 'w').write(src)
        new = src.splitlines()
        i = next((k for k, (a, b) in enumerate(zip(old, new)) if a != b), min(len(old), len(new)) - 1)
        head = f'{path}:{line} {what}: {old[i].strip()}  =>  {new[i].strip()}'
        if not tests(repo, tmp):
            return f'tests     {head}'
        env = dict(os.environ, VERIF_REPO=repo, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        notes = []
        for k in (0, 1):
            for prop in props:
                out = os.path.join(tmp, 'o.json')
                cmd = ([VENV, '-W', 'ignore', '-m', 'bounded', prop, '--budget', '40', '--out', out],
                       [VT, '-W', 'ignore', '-m', 'pysx', prop, '--limit', '300', '--jobs', '3',
                        '--out', out])[k]
                if os.path.exists(out):
                    os.remove(out)
                try:
                    subprocess.run(cmd, cwd=HERE, env=env, timeout=700, capture_output=True)
                    d = json.load(open(out))
                except (subprocess.TimeoutExpired, OSError):
                    notes.append(f'{prop}: no result')
                    continue
                if d.get('violations'):
                    return f'caught    {head} [{prop} bounded]'
                bad = [o for o in d.get('obligations', []) if o['status'] == 'refuted']
                left = [o for o in d.get('obligations', []) if o['status'] not in ('proved', 'refuted')]
                if bad:
                    return f'refuted   {head} [{prop} {bad[0]["name"]}]'
                if left:
                    notes.append(f'{prop}: {len(left)} undecided ({left[0]["name"]}: {left[0]["detail"][:80]})')
                if d.get('errors'):
                    notes.append(f'{prop}: {str(d["errors"][0])[:80]}')
        return f'SURVIVES  {head} {notes or ""}'
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('files', nargs='+')
    ap.add_argument('-j', type=int, default=4)
    ap.add_argument('-n', type=int, default=10 ** 6)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    jobs = []
    for f in a.files:
        ms = mutants(open(os.path.join('/repo', f)).read())
        random.Random(a.seed).shuffle(ms)
        jobs += [(f, *m, props_of(f)) for m in ms[:a.n]]
    if a.list:
        print(len(jobs))
        return
    with ThreadPoolExecutor(a.j) as ex:
        for r in ex.map(run, jobs):
            print(r, flush=True)
    sys.stdout.flush()


if __name__ == "__main__":
    main()

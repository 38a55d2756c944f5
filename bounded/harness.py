"""
Bounded stand-in and replay harness: runs the real code in /repo (ordinary
CPython, real dependencies) on concrete cases and compares it with the
executable specification of a property.

A case is (runner name, params); params are plain JSON, so that a violation
can be written to a replay file and run again on its own.
"""
import json
import os
import random
import signal
import sys
import time
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def setup_path():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg + (': ' + ', '.join(short(a) for a in args) if args else ''))


def short(x, n=300):
    try:
        s = repr(x)
    except Exception as e:       # noqa
        s = f'<unprintable {type(x).__name__}>'
    return s if len(s) <= n else s[:n] + '...'


def outcome(fn):
    """('ok', value) or ('exc', exception)"""
    try:
        return ('ok', fn())
    except Exception as e:       # noqa
        return ('exc', e)


def ok(fn, what):
    """value of fn(), anything it raises is a violation"""
    kind, val = outcome(fn)
    if kind == 'exc':
        raise Violation(f'{what} raised {type(val).__name__}: {short(str(val), 200)}')
    return val


def raises(fn, types, what):
    kind, val = outcome(fn)
    if kind == 'ok':
        raise Violation(f'{what} was not refused (returned {short(val)})')
    if not isinstance(val, types):
        raise Violation(f'{what} raised {type(val).__name__} ({short(str(val), 200)}), '
                        f'expected {types}')
    return val


def same(a, b):
    """the very same object, or (after a round trip) equal and of one type"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    try:
        return bool(a == b)
    except Exception:            # noqa
        return False


# ---------------------------------------------------------------- values
class Opaque:
    """a value with identity only; equality, truth and ordering must not be
    what the code relies on"""
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f'<Opaque {self.n}>'

    def __eq__(self, other):
        return isinstance(other, Opaque) and other.n == self.n

    def __hash__(self):
        return self.n


class FalsyOpaque(Opaque):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


_PAL = ['v', 0, '', None, False, [], {}, 0.0, 1, True, (), ['x'], {'a': 1},
        'w', b'', frozenset(), Opaque(1), FalsyOpaque(2), 'None', -1]


def V(i):
    """value number i (some of them falsy); the same object on every call"""
    while len(_PAL) <= i:
        _PAL.append(f'value-{len(_PAL)}' if len(_PAL) % 3 else Opaque(len(_PAL)))
    return _PAL[i]


NPAL = len(_PAL)


def _alarm(signum, frame):
    raise CaseTimeout()


class Run:
    """executes cases, records coverage and the first violations"""

    def __init__(self, prop, seed, tier, budget, max_violations=3, case_limit=60):
        self.prop, self.seed, self.tier, self.budget = prop, seed, tier, budget
        self.rng = random.Random(f'{prop}-{seed}')
        self.evaluations = 0
        self.keys = set()
        self.samples = []
        self.violations = []
        self.errors = []
        self.start = time.time()
        self.max_violations = max_violations
        self.case_limit = case_limit
        self.by_runner = {}
        self.stop = False

    def timeleft(self):
        return self.budget - (time.time() - self.start)

    def case(self, runners, name, params):
        if self.stop:
            return
        params = json.loads(json.dumps(params))
        self.evaluations += 1
        self.by_runner[name] = self.by_runner.get(name, 0) + 1
        key = name + json.dumps(params, sort_keys=True)
        new = key not in self.keys
        if new and len(self.keys) < 400000:
            self.keys.add(hash(key))
        if len(self.samples) < 5 or (self.evaluations % 997 == 0 and len(self.samples) < 12):
            self.samples.append({'runner': name, 'params': params})
        msg = run_one(runners, name, params, self.case_limit)
        if msg is None:
            return
        if msg[0] == 'violation':
            self.violations.append({'property': self.prop, 'runner': name,
                                    'params': params, 'message': msg[1]})
            if len(self.violations) >= self.max_violations:
                self.stop = True
        else:
            self.errors.append({'runner': name, 'params': params, 'error': msg[1]})
            if len(self.errors) > 20:
                self.stop = True


def in_repo(tb):
    frames = traceback.extract_tb(tb)
    return any(f.filename.startswith(REPO + '/') for f in frames)


def run_one(runners, name, params, limit=60):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        runners[name](**params)
        return None
    except Violation as v:
        return ('violation', str(v))
    except CaseTimeout:
        return ('violation', f'did not finish within {limit} s')
    except RecursionError as e:
        return ('violation', f'RecursionError: {e}')
    except Exception as e:       # noqa
        text = f'{type(e).__name__}: {e}'
        if in_repo(e.__traceback__):
            return ('violation', f'unexpected exception {text}\n' +
                    ''.join(traceback.format_tb(e.__traceback__)[-3:]))
        return ('error', text + '\n' + ''.join(traceback.format_tb(e.__traceback__)[-4:]))
    finally:
        signal.alarm(0)


def processes(write, read, expect):
    """what one process stores, another one (whose texts hash differently) finds;
    both are given a directory of their own as d"""
    import shutil
    import subprocess
    import tempfile
    d = tempfile.mkdtemp(prefix='vfproc')
    try:
        for n, code in ((1, write), (2, read), (3, read)):
            r = subprocess.run([sys.executable, '-B', '-W', 'ignore', '-c',
                                f'import sys; sys.path.insert(0, {REPO!r}); d = {d!r}\n' + code],
                               env={**os.environ, 'PYTHONHASHSEED': str(n)}, cwd=d,
                               capture_output=True, text=True, timeout=60)
            check(r.returncode == 0, f'process {n} failed', r.stderr[-400:])
        got = r.stdout.strip()
        check(got == expect, 'what another process finds', got, expect)
    finally:
        shutil.rmtree(d, ignore_errors=True)

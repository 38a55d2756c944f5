"""
pysx: a deductive verifier for Python functions, hosted on CPython.

The source of the functions under contract is read from /repo on every run,
instrumented mechanically (transform.py) and executed on symbolic arguments:
every control decision that depends on a symbolic value is explored, every
loop over symbolic data is cut at its head by a loop rule, every callee that
has a contract is replaced by it, and the postconditions become verification
conditions for z3, path by path. There is no bound on data or iterations.
"""
import re
import sys
import time
import traceback

import z3

sys.setrecursionlimit(20000)


# ------------------------------------------------------------------ control
class Control(BaseException):
    """engine control flow; never caught by `except Exception` in the code"""


class Infeasible(Control):
    """the current path cannot happen (or has been cut)"""


class Unsupported(Control):
    """the code does something outside the reach of the verifier"""


class OutOfTime(Control):
    pass


# ------------------------------------------------------------------ sorts
Key = z3.DeclareSort('Key')
Val = z3.DeclareSort('Val')
I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()

NONE = z3.Const('None', Val)

_ctx = [None]


def ctx():
    c = _ctx[0]
    if c is None:
        raise Unsupported('symbolic value used outside of an exploration')
    return c


def T(b):
    return z3.BoolVal(bool(b)) if isinstance(b, bool) else b


def simp(t):
    return z3.simplify(t)


class Obligation:
    """a named proof obligation, gathered over all paths"""

    def __init__(self, name):
        self.name = name
        self.vcs = self.proved = self.paths = 0
        self.status = 'open'
        self.detail = ''
        self.time = 0.0
        self.by = set()
        self.reached = self.missed = 0
        self.bounded = False

    def fail(self, status, detail):
        rank = {'open': 0, 'proved': 1, 'undecided': 2, 'refuted': 3}
        if rank[status] > rank[self.status]:
            self.status, self.detail = status, detail


class NestedPath:
    """one outcome of a generic evaluation: the decisions that lead to it, the
    facts that hold along it, and what it ends in"""

    def __init__(self, pc, pck, kind, val):
        self.kind, self.val = kind, val
        self.conds = [t for t, k in zip(pc, pck) if k == 'b']
        self.defs = []
        for i, (t, k) in enumerate(zip(pc, pck)):
            if k == 'a':
                before = [u for u, q in zip(pc[:i], pck[:i]) if q == 'b']
                self.defs.append(z3.Implies(z3.And(*before), t) if before else t)

    @property
    def cond(self):
        return z3.And(*self.conds) if self.conds else z3.BoolVal(True)


class Ctx:
    """one exploration: all paths of one harness function"""

    def __init__(self, run, name):
        self.run, self.name = run, name
        self.prefix = []          # decisions to replay: (choice, options)
        self.depth = 0
        self.pc = []
        self.counter = {}
        self.facts = []           # lemma instances, assumed on the path
        self.paths = 0
        self.frames = []
        self.mutlog = []
        self.tags = {}
        self.solver = None
        self.npath = 0
        self.vcs_here = 0
        self.named = {}
        self._mark = None
        self.known = {}           # per path registry (cardinalities, sums)
        self.loops = {}           # probe records, keyed by decision prefix
        self.active = []          # loops being probed / executed
        self.overlay = []
        self.depth_nested = 0
        self.call_depth = 0
        self.hooks = {}
        self.memo = {}
        self.touched = set()
        self.outer_marks = ()

    def memo_path(self):
        if 'memo' not in self.known:
            self.known['memo'] = {}
        return self.known['memo']

    # ---- names
    def name_of(self, base):
        if self.depth_nested:
            # the same on every execution of a nested path up to here, and
            # different from what it is on other paths
            k = (self.mark(), base, self.ordinal(base))
            name = self.named.get(k)
            if name is not None:
                return name
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        name = f'{base}!{n}' if n else base
        if self.depth_nested:
            self.named[k] = name
        return name

    def ordinal(self, tag):
        """how often this has come up since the last decision"""
        k = (self.mark(), tag)
        self.ordinals[k] = self.ordinals.get(k, 0) + 1
        return self.ordinals[k]

    def fresh(self, base, sort):
        n = self.name_of(base)
        if self.generic:
            # a value that depends on the element it is made for
            return z3.Function(n, *[g.sort() for g in self.generic], sort)(*self.generic)
        return z3.Const(n, sort)

    def func(self, base, *sorts):
        return z3.Function(self.name_of(base), *sorts)

    # ---- path condition
    def assume(self, cond, kind='a'):
        cond = T(cond)
        if z3.is_true(cond):
            return
        self.pc.append(cond)
        self.pck.append(kind)
        self.solver.add(cond)

    def assume_checked(self, cond):
        """assume and give up the path if it is impossible"""
        self.assume(cond)
        if self.check() == z3.unsat:
            raise Infeasible()

    def check(self, *extra, timeout=None):
        self.run.tick()
        t0 = time.time()
        self.solver.set('timeout', timeout or self.run.feas_ms)
        r = self.solver.check(*extra)
        self.run.solver_s += time.time() - t0
        self.run.queries += 1
        return r

    def branch(self, cond):
        """decide a symbolic condition; both outcomes are explored"""
        cond = simp(T(cond))
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = self.depth
        if i < len(self.prefix):
            choice = self.prefix[i][0]
            self.depth += 1
            self.assume(cond if choice else z3.Not(cond), 'b')
            return bool(choice)
        pos = self.check(cond) != z3.unsat
        neg = self.check(z3.Not(cond)) != z3.unsat
        if pos and neg:
            self.prefix.append([1, [0]])
        elif pos:
            self.prefix.append([1, []])
        elif neg:
            self.prefix.append([0, []])
        else:
            raise Infeasible()
        self.depth += 1
        choice = self.prefix[i][0]
        self.assume(cond if choice else z3.Not(cond), 'b')
        return bool(choice)

    def choose(self, options):
        """explore each of the options in turn"""
        i = self.depth
        if i < len(self.prefix):
            self.depth += 1
            return self.prefix[i][0]
        options = list(options)
        if not options:
            raise Infeasible()
        self.prefix.append([options[0], options[1:]])
        self.depth += 1
        if len(self.prefix) > 4000:
            raise Unsupported('path too long')
        return options[0]

    def mark(self):
        """the decisions taken so far, as a key"""
        if self._mark is None or self._mark[0] != self.depth:
            self._mark = (self.depth, self.outer_marks + tuple(
                repr(p[0]) for p in self.prefix[:self.depth]))
        return self._mark[1]

    # ---- exploration
    def reset_path(self):
        self.depth = 0
        self.pc = []
        self.pck = []
        self.generic = []
        self.counter = {}
        self.ordinals = {}
        self.named = {}
        self._mark = None
        self.mutlog = []
        self.known = {}
        self.stores = {}
        self.active = []
        self.overlay = []
        self.frames = []
        self.call_depth = 0
        self.hooks = {}
        self.outer_marks = ()
        # pattern-based instantiation only: a quick answer, where "unknown"
        # counts as possible
        self.solver = z3.SimpleSolver()
        self.solver.set('auto_config', False)
        self.solver.set('mbqi', False)
        self.solver.set('random_seed', 1)
        for a in AXIOMS:
            self.solver.add(a)

    def backtrack(self):
        while self.prefix:
            if self.prefix[-1][1]:
                self.prefix[-1][0] = self.prefix[-1][1].pop(0)
                return True
            self.prefix.pop()
        return False

    def explore(self, fn, max_paths=20000):
        """runs fn on every path"""
        prev = _ctx[0]
        _ctx[0] = self
        try:
            while True:
                self.reset_path()
                try:
                    fn()
                    self.paths += self.consistent()
                except Infeasible:
                    pass
                self.run.paths += 1
                self.npath += 1
                if self.npath > max_paths:
                    raise Unsupported('too many paths')
                if not self.backtrack():
                    return
        finally:
            _ctx[0] = prev

    def consistent(self):
        """whether False does not follow on this path: what was proved on a
        contradictory one means nothing"""
        if self.check() == z3.unsat:
            return 0
        if self.paths < 2:
            s = z3.Solver()
            s.set('timeout', 400)
            s.add(*AXIOMS)
            s.add(*self.pc)
            if s.check() == z3.unsat:
                return 0
        return 1

    def nested(self, fn, keep_state=False):
        """every outcome of the re-runnable fn, from here"""
        outer = (self.prefix, self.depth, self.outer_marks)
        self.outer_marks = self.mark() + (f"nested {self.ordinal('nested')}",)
        base_pc = len(self.pc)
        res = []
        self.prefix, self.depth = [], 0
        self._mark = None
        self.depth_nested += 1
        n = 0
        ordinals = self.ordinals
        generic, active = list(self.generic), list(self.active)
        try:
            while True:
                self.depth = 0
                self._mark = None
                self.solver.push()
                mut = len(self.mutlog)
                known = {k: v.copy() for k, v in self.known.items()}
                try:
                    self.ordinals = dict(ordinals)
                    try:
                        val = ('ok', fn())
                    except Exception as e:      # noqa
                        if artefact(e):
                            raise Unsupported(f'{type(e).__name__}: {e}')
                        val = ('exc', e)
                    if not keep_state and self.changes(mut):
                        raise Unsupported('side effect where none is expected: '
                                          + str(self.changes(mut)[-1][0])[:200])
                    res.append(NestedPath(self.pc[base_pc:], self.pck[base_pc:], *val))
                except Infeasible:
                    pass
                finally:
                    self.undo(mut)
                    self.known = known
                    self.generic, self.active = list(generic), list(active)
                    del self.pc[base_pc:]
                    del self.pck[base_pc:]
                    self.solver.pop()
                n += 1
                if n > 3000:
                    raise Unsupported('too many nested paths')
                if not self.backtrack():
                    break
        finally:
            self.prefix, self.depth, self.outer_marks = outer
            self._mark = None
            self.ordinals = ordinals
            self.depth_nested -= 1
        return res

    # ---- state changes
    def log(self, what, undo=None):
        self.mutlog.append((what, undo))
        if self.active and isinstance(what, tuple) and what[0] == 'store':
            for lp in self.active:
                if lp.mode == 'try':
                    lp.rec['changing'] = True
                    raise Infeasible()

    def undo(self, mark):
        while len(self.mutlog) > mark:
            what, undo = self.mutlog.pop()
            if undo is not None:
                undo()

    def born(self, what, start):
        """an object was made by the code, in a call that began at `start`"""
        self.mutlog.append((('new', what, start), None))

    def changes(self, mark):
        """the changes since then to what was there already"""
        fresh = self.newborn(mark)
        return [x for x in self.mutlog[mark:] if not (isinstance(x[0], tuple) and (
            x[0][0] == 'new' or x[0][0] in ('setattr', 'setitem', 'mutate') and id(x[0][1]) in fresh))]

    def newborn(self, mark):
        return {id(w[1]) for w, _ in self.mutlog[mark:]
                if isinstance(w, tuple) and w[0] == 'new' and w[2] >= mark}

    # ---- obligations
    def prove(self, name, cond, detail=''):
        """a verification condition: cond holds on this path"""
        if any(lp.mode == 'try' for lp in self.active):
            return True         # it is only being found out what the loop does
        ob = self.run.obligation(name)
        ob.bounded = ob.bounded or self.run.bounding
        self.touched.add(name)
        ob.vcs += 1
        ob.reached += 1
        self.run.vcs += 1
        self.vcs_here += 1
        if isinstance(cond, (bool, int)) and not isinstance(cond, z3.ExprRef):
            if cond:
                ob.proved += 1
                ob.by.add('evaluation')
                if ob.status == 'open':
                    ob.status = 'proved'
                return True
            cond = z3.BoolVal(False)
        cond = T(cond)
        s = simp(cond)
        if z3.is_true(s):
            ob.proved += 1
            ob.by.add('simplifier')
            if ob.status == 'open':
                ob.status = 'proved'
            return True
        if ob.status == 'refuted' or ob.missed >= 3:
            return False        # settled: what remains does not matter
        t0 = time.time()
        r, by, model = self.run.decide(self, cond)
        ob.time += time.time() - t0
        if r == 'unsat':
            ob.proved += 1
            ob.by.add(by)
            if ob.status == 'open':
                ob.status = 'proved'
            return True
        text = f'{detail}' if detail else ''
        if r == 'sat':
            ob.fail('refuted', (text + ' counterexample: ' + str(model))[:1500])
        else:
            ob.missed += 1
            ob.fail('undecided', (text + f' solver: {r}')[:300])
        return False

    def lemma(self, name, cond):
        """prove and then use"""
        ok = self.prove(name, cond)
        self.assume(cond)
        return ok


AXIOMS = []


def symbols(ts):
    """names of the functions in some formulas"""
    todo, seen, names = list(ts), set(), set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            names.add(x.decl().name())
        todo += x.children()
    return names


def quantified(t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            return True
        if x.get_id() not in seen:
            seen.add(x.get_id())
            todo += x.children()
    return False


def artefact(e):
    """whether the exception stems from the verifier and not from the code"""
    if isinstance(e, (NotImplementedError, RecursionError, MemoryError)):
        return True
    try:
        msg = str(e)
    except Unsupported:
        msg = repr(e)
    if isinstance(e, (TypeError, AttributeError, ValueError, NameError, KeyError, IndexError,
                      z3.Z3Exception)) and ('Pvx' in msg or 'pvx' in msg or 'z3' in msg.lower()
                                            or 'BoolRef' in msg or 'ArithRef' in msg):
        return True
    if isinstance(e, z3.Z3Exception) or isinstance(e, AttributeError) and msg in ('__delitem__', '__setitem__'):
        return True
    # what a stand-in cannot do says nothing about what it stands for
    if isinstance(e, (TypeError, AttributeError)) and any(
            n in stand_ins() for n in re.findall(r"'(\w+)' object", msg)):
        return True
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    if last is not None:
        f = last.tb_frame.f_code.co_filename
        if '/pysx/' in f and not f.endswith('hooks.py') and not getattr(e, 'pvx_contract', False):
            return True
    return False


def stand_ins():
    """names of the classes that stand for others in the contracts"""
    names = set()
    for m in list(sys.modules.values()):
        if (getattr(m, '__name__', None) or '').startswith('pysx.'):
            names |= {n for n, c in vars(m).items()
                      if isinstance(c, type) and c.__module__.startswith('pysx.')}
    return names


def contract_error(e):
    """an exception raised by a contract on behalf of the function it stands for"""
    e.pvx_contract = True
    return e


def trace_of(e):
    try:
        return ''.join(traceback.format_exception(e))
    except BaseException as x:        # noqa
        return f'{type(e).__name__} (no traceback: {type(x).__name__})'


class Run:
    """all obligations of one property"""

    def __init__(self, prop, tier='quick', limit=600, seed=1):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.end = time.time() + limit
        self.obs = {}
        self.order = []
        self.solver_s = 0.0
        self.queries = self.vcs = self.paths = 0
        self.feas_ms = 1500
        self.vc_ms = 8000 if tier == 'quick' else 30000
        self.functions = {}
        self.log = []
        self.cvc5 = 0
        self.hints = []
        self.bounding = False
        self.cross = {'agree': 0, 'unknown': 0, 'disagree': 0}

    def tick(self):
        if time.time() > self.end:
            raise OutOfTime()

    def obligation(self, name):
        if name not in self.obs:
            self.obs[name] = Obligation(name)
            self.order.append(name)
        return self.obs[name]

    def decide(self, c, cond):
        """('unsat'|'sat'|'unknown', solver, model)"""
        self.tick()
        neg = z3.Not(cond)
        t0 = time.time()
        # a fresh solver: incremental mode gives up on harder formulas
        for quick in (True, False):
            s = z3.SimpleSolver() if quick else z3.Solver()
            if quick:
                s.set('auto_config', False)
                s.set('mbqi', False)
            s.set('timeout', self.vc_ms // 4 if quick else self.vc_ms)
            # (the order of ids makes models hard to find where it plays no role)
            if quick or any('key_le' in d for d in symbols(c.pc + [neg])):
                for a in AXIOMS:
                    s.add(a)
            s.add(*c.pc)
            s.add(neg)
            r = s.check()
            if r == z3.unsat:
                break
        self.solver_s += time.time() - t0
        self.queries += 1
        if r == z3.unsat:
            if self.tier == 'thorough':
                self.second(s)
            return 'unsat', 'z3', None
        if r == z3.sat:
            m = self.genuine(c, s)
            if m is None:
                return 'a counterexample that may be spurious', 'z3', None
            text = ', '.join(f'{d.name()}={m[d]}' for d in m.decls()
                             if d.arity() == 0 and str(d.range()) != 'Txt')[:900]
            return 'sat', 'z3', text + self.words(c, m)
        r2 = self.second(s, decide=True)
        if r2 != 'unsat':
            self.guess(c, neg)
        if r2 == 'unsat':
            return 'unsat', 'cvc5', None
        return f'unknown ({s.reason_unknown()})', 'z3', None

    def guess(self, c, neg):
        """what might be a counterexample (quantified facts are left out), for the
        bounded part to try on the real code"""
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(*[f for f in c.pc + [neg] if not quantified(f)])
        if s.check() == z3.sat:
            self.words(c, s.model())

    def words(self, c, m):
        """texts in the languages they are in, in the model; the values are kept
        so that the bounded part can try them on the real code"""
        from pysx import rx, text
        out, hint = '', {}
        for t, k in c.known.get('texts', {}).values():
            for signs, lang in k.combos:
                if all(z3.is_true(m.eval(text.pred(r)(t), model_completion=True)) == s
                       for r, s in zip(k.langs, signs)):
                    hint[str(t)] = rx.some(lang)
                    out += f', {t}={hint[str(t)]!r}'
                    break
        for d in m.decls():
            if d.arity() == 0:
                v = m[d]
                if z3.is_int_value(v):
                    hint[d.name()] = v.as_long()
                elif z3.is_true(v) or z3.is_false(v):
                    hint[d.name()] = z3.is_true(v)
        hint.update(c.known.get('hint', {}))
        self.hints.append(hint)
        return out[:600]

    def genuine(self, c, s):
        """a model in which sums and cardinalities are what they should be: the
        lemmas about them are not complete, so a counterexample has to survive
        their definitions, spelled out for few members and few ids"""
        sums = c.known.get('sums', [])
        sets = [x for x in c.known.get('sets', []) if not x[0]]
        if not sums and not sets:
            return s.model()
        for size in (2, 4):
            t = z3.Solver()
            t.set('timeout', self.vc_ms // 2)
            t.add(*s.assertions())
            for n, f, v in sums:
                t.add(n <= size, v == z3.Sum([z3.If(i < n, f(z3.IntVal(i)), 0) for i in range(size)]))
            if sets:
                ks = [z3.Const(f'key {i}', Key) for i in range(size)]
                x = z3.Const('key x', Key)
                t.add(z3.Distinct(*ks), z3.ForAll([x], z3.Or(*[x == k for k in ks])))
                for _, pred, _, v in sets:
                    t.add(v == z3.Sum([z3.If(pred(k), 1, 0) for k in ks]))
            self.queries += 1
            if t.check() == z3.sat:
                return t.model()
        return None

    def second(self, s, decide=False):
        """asks cvc5 as well: to cross check (thorough), or where z3 gave up"""
        import subprocess
        try:
            text = '(set-logic ALL)\n' + s.to_smt2()
            out = subprocess.run(['cvc5', '--tlimit=8000', '--lang=smt2'], input=text,
                                 capture_output=True, text=True, timeout=20).stdout.strip()
        except Exception:        # noqa
            out = ''
        out = out.split('\n')[0] if out else 'unknown'
        self.cvc5 += 1
        if not decide:
            k = 'agree' if out == 'unsat' else 'disagree' if out == 'sat' else 'unknown'
            self.cross[k] += 1
        return out

    def explore(self, name, fn, bounded=False):
        """explore one harness; problems make its obligations undecided. What is
        enumerated up to a bound is labelled so, and does not count as proved"""
        c = Ctx(self, name)
        self.bounding = bounded
        try:
            c.explore(fn)
            problem = None
        except Unsupported as e:
            problem = f'unsupported: {e}'
        except OutOfTime:
            problem = 'out of time'
        except z3.Z3Exception as e:
            problem = f'solver interface: {e}'
        except Exception as e:        # noqa
            problem = f'harness: {type(e).__name__}: {e}'
            self.log.append(trace_of(e)[-3000:])
        if problem is None and c.vcs_here == 0:
            problem = 'no verification condition was reached'
        if problem is None and c.paths == 0:
            problem = 'every path is contradictory'
        if problem:
            self.log.append(f'{name}: {problem}')
            ob = self.obligation(name + ' [reach]')
            ob.fail('undecided', problem)
            # what was proved so far holds on some of the paths only
            for n in c.touched:
                self.obs[n].fail('undecided', problem)
        return problem is None

    def covers(self, *names):
        """function names under contract"""
        for n in names:
            self.functions[n] = self.functions.get(n, 0) + 1

    def attempt(self, step):
        """one group of obligations; if the code cannot even be loaded for it,
        it is undecided"""
        name = getattr(step, '__name__', 'step')
        try:
            step(self)
        except (Unsupported, OutOfTime) as e:
            self.note(f'{name}: {type(e).__name__} {e}')
        except Exception as e:        # noqa
            self.note(f'{name}: {type(e).__name__}: {e}')
            self.log.append(trace_of(e)[-2000:])

    def note(self, text):
        self.log.append(text)
        self.obligation(f'harness {len(self.log)}').fail('undecided', text)

    def trusted(self, table):
        out = []
        for n in self.functions:
            for k, v in table.items():
                if n.startswith(k) and v not in out:
                    out.append(v)
        return out

"""Loop rules. A loop over concrete data runs as it is. A loop over a symbolic
sequence, or one whose condition is symbolic, is cut at its head:

  probe      one iteration t, arbitrary, from the state at the loop head; gives
             the condition under which an iteration goes on to the next one,
             and checks that going on changes nothing but counters (v += c),
             accumulators (v += e(t)), the own state of member t, and
             variables that do not live across iterations
  exhausted  every iteration goes on; the state after the loop is closed form
  exit       the first iteration t0 that does not go on is executed

which is the loop invariant "all iterations so far went on, and the variables
have their closed forms", established and preserved by construction. A contract
may supply its own invariant for a loop (Rule), keyed by what is iterated over.
"""
import inspect
import sys

import z3

from pysx.core import Control, I, Infeasible, Unsupported, ctx, _ctx
from pysx import seq as S
from pysx.seq import PvxSeq, no_newborn, reindex
from pysx.sym import Pvx, PvxBool, PvxInt, PvxPoison, PvxReal, it, mkint


class Plain:
    sym = False

    def __init__(self, iterator, key):
        self.it, self.key, self.n = iterator, key, 0

    def head(self, locs=None):
        try:
            self.cur = next(self.it)
        except StopIteration:
            return False
        self.n += 1
        if self.n > 20000:
            raise Unsupported(f'loop {self.key} runs too long')
        return True

    def value(self):
        return self.cur

    def leave(self):
        pass

    def done(self):
        pass


class Rule:
    """a loop invariant supplied by a contract.

    init(env)       proves that it holds on entry
    havoc(env)      sets up an arbitrary state in which it holds
    more()          condition under which there is another iteration (assumed)
    value()         the member of this iteration
    preserved(env)  proves that it holds after the iteration
    finish(env)     assumes that the iterations are over
    env: the local variables; returns a dict of new values from havoc/finish"""
    for_changes = False     # only for loops that change the state
    changed = 'store'       # what kind of change that is
    native = False          # a while loop whose condition is evaluated as it is

    def init(self, env):
        pass

    def havoc(self, env):
        return {}

    def iterate(self, env):
        return None

    def preserved(self, env):
        pass

    def finish(self, env):
        return {}

    def left(self, env):
        pass


class Sym:
    sym = True
    live = False

    def __init__(self, seq, key, names, frame, accs=()):
        self.seq, self.key, self.names, self.frame = seq, key, names, frame
        self.may_grow = accs
        self.accs = {}
        self.mode = None
        self.started = False
        self.new = {}
        self.yields = []
        self.rule = None
        self.yielded = False

    # -- protocol of the instrumented code
    def var(self, name):
        return self.new[name]

    def value(self):
        return self.cur

    def head(self, locs=None):
        c = ctx()
        if self.started:
            return self.again(c, locs)
        self.started = True
        env = {n: locs[n] for n in self.names if n in locs}
        self.entry = env
        self.rule = find_rule(c, self.seq, self.key)
        if self.rule is not None and self.rule.for_changes and not self.changing(c, env):
            self.rule = None
        if self.mode == 'try':
            return self.start_probe(c, env)
        if self.rule is not None:
            return self.head_rule(c, env, locs)
        self.coll = collector_for(self.frame)
        self.accs = {n: k for n in self.may_grow for k in [grown(env.get(n))] if k}
        name = c.name_of('loop ' + self.key)
        rec = c.loops.setdefault((c.mark(), self.key, c.ordinal('loop ' + self.key)), {
            'class': {}, 'paths': [], 'redo': False, 'runs': set(), 'name': name})
        self.id = (None, self.key, rec['name'])
        self.rec = rec
        opts = ['probe', 'probe2'] + (['exhausted'] if self.seq is not None else []) + ['exit']
        self.mode = c.choose(opts)
        if self.mode in ('probe', 'probe2'):
            if self.mode == 'probe2':
                if 'probe2' not in rec['runs']:
                    if not rec['redo']:
                        raise Infeasible()
                    rec['paths'] = []
                    rec['redo'] = False
                    rec['runs'].add('probe2')
            return self.start_probe(c, env)
        if rec['redo']:
            raise Unsupported(f'loop {self.key}: no invariant found ({rec.get("why", "")})')
        self.consts = rec.get('consts', {})
        self.t = rec.get('t')
        if self.mode == 'exhausted':
            self.finish(c, env)
            return False
        return self.start_exit(c, env)

    def changing(self, c, env):
        """whether an iteration changes any of the groups: one is tried"""
        rec = self.rec = c.loops.setdefault((c.mark(), self.key, 'try'), {
            'class': {}, 'changing': False})
        name = c.name_of('try ' + self.key)
        if c.choose(['try', 'go']) == 'go':
            return rec['changing']
        if rec['changing']:
            raise Infeasible()
        self.mode, self.id, self.coll = 'try', (None, self.key, name), collector_for(self.frame)
        self.accs = {n: k for n in self.may_grow for k in [grown(env.get(n))] if k}
        return True

    def member(self, t):
        return self.seq.member(t) if self.seq is not None else t >= 0

    def classify(self, name, v):
        k = self.rec['class'].get(name)
        if k is None:
            if isinstance(v, bool) or isinstance(v, PvxBool):
                k = 'same'
            elif isinstance(v, (int, PvxInt)):
                k = 'int'
            else:
                k = 'same'
            self.rec['class'][name] = k
        return k

    def start_probe(self, c, env):
        self.t = z3.Const('t:' + self.id[2], self.seq.sort if self.seq is not None else I)
        self.rec['t'] = self.t
        self.consts = {}
        self.new = {}
        for n in self.names:
            if n not in env or isinstance(env[n], PvxPoison):
                self.new[n] = PvxPoison(n)
                continue
            if n in self.accs:
                self.new[n] = Acc(n, self.accs[n])
                continue
            k = self.classify(n, env[n])
            if k == 'int':
                v = z3.Const(f'v:{n}:{self.id[2]}', I)
                self.consts[n] = v
                self.new[n] = PvxInt(v)
            elif k == 'poison':
                self.new[n] = PvxPoison(n)
            else:
                self.new[n] = env[n]
        self.rec['consts'] = self.consts
        c.generic.append(self.t)
        c.assume(self.member(self.t), 'g')
        self.base = len(c.pc)
        self.nsets = len(c.known.get('sets', []))
        self.mut = len(c.mutlog)
        if self.seq is not None:
            self.cur = self.seq.elem(self.t)
        c.active.append(self)
        return True

    def again(self, c, locs):
        """the head is reached again: the iteration goes on"""
        if self.mode == 'try':
            if any(isinstance(w, tuple) and w[0] == self.rule.changed
                   for w, _ in c.changes(self.mut)):
                self.rec['changing'] = True
            raise Infeasible()
        if self.rule is not None:
            env = {n: locs[n] for n in self.names if n in locs}
            self.rule.preserved({**locs, **env})
            raise Infeasible()
        if self.mode == 'exit':
            if self.yielded:
                raise Unsupported('a generator with a symbolic loop is resumed')
            raise Infeasible()
        done = c.changes(self.mut)
        if self.live and any(w[0] == 'store' for w, _ in done):
            raise Unsupported(f'loop {self.key}: state is changed while it is iterated over')
        eff, _ = S.own_effects(done, self.t, f'loop {self.key}: an iteration')
        ends = {}
        for n in self.names:
            v = locs.get(n)
            k = self.rec['class'].get(n)
            if n not in self.entry or isinstance(self.entry[n], PvxPoison) or k == 'poison':
                continue
            if n in self.accs:
                no_newborn(self.new[n].got, c.newborn(self.mut))
                continue
            if k == 'int':
                if not isinstance(v, (int, PvxInt)) or isinstance(v, bool):
                    self.redo(n, 'poison')
                    continue
                d = z3.simplify(it(v) - self.consts[n])
                if any(S.mentions(d, x) for x in self.consts.values()):
                    self.redo(n, 'poison')
                    continue
                ends[n] = d
            elif v is not self.new[n]:
                self.redo(n, 'poison')
        p = S_path(c, self.base)
        p.ends, p.eff, p.yields = ends, eff, list(self.yields)
        p.got = {n: list(self.new[n].got) for n in self.accs}
        self.rec.setdefault('sets', []).extend(c.known.get('sets', [])[self.nsets:])
        self.rec['paths'].append(p)
        raise Infeasible()

    def redo(self, name, cls):
        if self.mode == 'probe2':
            self.rec['redo'] = True
            self.rec['why'] = f'variable {name}'
            return
        self.rec['class'][name] = cls
        self.rec['redo'] = True

    # -- closed forms
    def closed(self, c, t, left=False):
        """the value of the variables at the head of iteration t"""
        res = {}
        subs = []
        for n in self.names:
            if n in self.accs:
                try:
                    res[n] = self.grow(n, t if left else None)
                except Unsupported as e:
                    res[n] = PvxPoison(f'{n} ({e})')
                continue
            if n not in self.entry or isinstance(self.entry[n], PvxPoison) \
                    or self.rec['class'].get(n) == 'poison':
                res[n] = PvxPoison(n)
                continue
            if self.rec['class'].get(n) != 'int':
                res[n] = self.entry[n]
                continue
            ds = [p.ends[n] for p in self.rec['paths'] if n in p.ends]
            if not ds:
                res[n] = self.entry[n] if not self.rec['paths'] else PvxPoison(n)
                if not self.rec['paths']:
                    subs.append((self.consts[n], it(self.entry[n])))
                continue
            if all(z3.is_int_value(d) and d.eq(ds[0]) for d in ds) and \
                    (self.seq is None or self.seq.keep is None):
                v = z3.simplify(it(self.entry[n]) + ds[0] * t)
                res[n] = mkint(v)
                subs.append((self.consts[n], v))
                continue
            if self.seq is not None and self.seq.sort != I:
                res[n] = self.counted(c, n, ds, t)
                continue
            # an accumulator
            if any(S.mentions(x, self.consts[n]) for p in self.rec['paths']
                   for x in p.conds + p.defs):
                raise Unsupported(f'loop {self.key}: {n} is accumulated and used')

            def f(i, n=n):
                e = z3.IntVal(0)
                for p in self.rec['paths']:
                    e = z3.If(z3.substitute(p.cond, (self.t, i)),
                              z3.substitute(p.ends[n], (self.t, i)), e)
                if self.seq is not None and self.seq.keep is not None:
                    e = z3.If(self.seq.keep(i), e, z3.IntVal(0))
                return z3.substitute(e, *self.subs(i)) if self.subs(i) else e
            res[n] = mkint(it(self.entry[n]) + S.sum_term(t, f))
        return res

    def counted(self, c, n, ds, t):
        """a counter in a loop over a listing"""
        if any(S.mentions(x, self.consts[n]) for p in self.rec['paths'] for x in p.conds + p.defs):
            raise Unsupported(f'loop {self.key}: {n} is counted and used')
        if not all(z3.is_int_value(d) for d in ds):
            raise Unsupported(f'loop {self.key}: {n} is accumulated over a listing')
        steps = {d.as_long() for d in ds}
        if t is not None:           # left early: some of them were counted
            k = c.fresh('counted', I)
            c.assume(k >= 0)
            if len(steps) != 1:
                raise Unsupported(f'loop {self.key}: {n}')
            return mkint(it(self.entry[n]) + k * steps.pop())
        if len(steps) == 1:
            return mkint(it(self.entry[n]) + self.seq.count() * steps.pop())
        if steps != {0, 1} or self.seq.sort != S.Key:
            raise Unsupported(f'loop {self.key}: {n}')
        ps = [p for p in self.rec['paths'] if p.ends[n].as_long() == 1]
        return mkint(it(self.entry[n]) + S.set_card(lambda k: z3.And(
            self.seq.member(k), z3.Or(*[z3.substitute(p.cond, (self.t, k)) for p in ps]))))

    def subs(self, t):
        """counters in closed form at iteration t"""
        subs = []
        for n, v in self.consts.items():
            ds = [p.ends[n] for p in self.rec['paths'] if n in p.ends]
            if ds and all(z3.is_int_value(d) and d.eq(ds[0]) for d in ds) and \
                    (self.seq is None or self.seq.keep is None):
                subs.append((v, z3.simplify(it(self.entry[n]) + ds[0] * t)))
        return subs

    def goes_on(self, t):
        ps = self.rec['paths']
        g = z3.Or(*[p.cond for p in ps]) if ps else z3.BoolVal(False)
        g = z3.substitute(g, (self.t, t))
        return z3.substitute(g, *[(a, z3.substitute(b, (self.t, t))) for a, b in self.subs(t)]) \
            if self.subs(t) else g

    def facts(self, c):
        ds = []
        for p in self.rec['paths']:
            for d in p.defs:
                if not any(d.eq(x) for x in ds):
                    ds.append(d)
        S.families(self.rec.get('sets', []))
        if ds:
            body = z3.Implies(self.member(self.t), z3.And(*ds))
            if self.subs(self.t):
                body = z3.substitute(body, *self.subs(self.t))
            if S.mentions(body, self.t):
                c.assume(z3.ForAll([self.t], body))
            else:
                c.assume(body)

    def effects(self, upto):
        ps = self.rec['paths']
        if not any(p.eff for p in ps):
            return
        stores = {u: c_().stores[u] for p in ps for (u, _) in p.eff if u in c_().stores}
        S.check_frame(ps, [p.eff for p in ps], stores, self.t, self.seq)
        seq = self.seq
        if seq is None:
            raise Unsupported(f'loop {self.key}: effects in a while loop')
        S.apply_effects(seq, self.t, ps, [p.eff for p in ps], upto)

    def sort(self):
        return self.seq.sort if self.seq is not None else I

    def finish(self, c, env):
        self.facts(c)
        c.assume(S.forall_members(self.seq, self.goes_on), 'b')
        if c.check() == z3.unsat:
            raise Infeasible()
        self.new = self.closed(c, self.seq.n)
        self.emit(None)
        self.effects(None)

    def start_exit(self, c, env):
        t0 = c.fresh('it', self.sort())
        self.facts(c)
        if self.seq is not None:
            c.assume(z3.Not(S.forall_members(self.seq, self.goes_on)), 'b')
        c.assume(self.member(t0))
        c.assume(z3.Not(self.goes_on(t0)))
        if self.sort() == I:
            S.touch(t0)
        before = self.seq.before if self.seq is not None else (lambda a, b: a < b)
        c.assume(S.forall_members(self.seq, lambda q: z3.Implies(before(q, t0), self.goes_on(q))))
        if c.check() == z3.unsat:
            raise Infeasible()
        self.new = self.closed(c, t0, True)
        c.active.append(self)
        self.emit(t0)
        self.effects(t0)
        if self.seq is not None:
            self.cur = self.seq.elem(t0)
        return True

    def emit(self, upto):
        """what the iterations before `upto` yielded"""
        if not any(p.yields for p in self.rec['paths']):
            return
        if self.coll is None:
            raise Unsupported('yield in a symbolic loop')
        self.place(c_(), self.gathered(upto, lambda p: p.yields, self.key))

    def gathered(self, upto, of, label):
        """what the iterations before `upto` gave: of(path) is what one of them gives"""
        ps, seq = self.rec['paths'], self.seq
        if any(len(of(p)) > 1 for p in ps) or seq is None:
            raise Unsupported('an iteration that gives several values')
        if upto is not None:
            n = upto if seq.sort == I else seq.n
            keep = seq.keep if seq.sort == I else (
                lambda k: z3.And(seq.keep(k), seq.before(k, upto)))
            seq = PvxSeq(n, seq.elem, keep=keep, kind=seq.kind, label=seq.label, sort=seq.sort,
                         injective=seq.injective)
        if any(of(p) and isinstance(of(p)[0], Segment) for p in ps):
            if upto is not None:
                raise Unsupported('nested loops that are left')
            r = S.flatten(seq, self.t, [
                (p.cond, of(p)[0].seq if of(p) else None) for p in ps])
            elem = r.elem
            r.elem = lambda q: here(elem(q))
            return r
        made = []
        for p in ps:
            x = GotPath()
            x.cond, x.val = p.cond, here(of(p)[0]) if of(p) else S.SKIP
            for v, e in self.subs(self.t):
                x.cond = z3.substitute(x.cond, (v, e))
                x.val = reindex(x.val, v, e)
            if any(S.mentions(x.cond, v) or uses(x.val, v, self.t) for v in self.consts.values()):
                raise Unsupported(f'loop {self.key}: what is accumulated is used')
            made.append(x)
        return S.collect(S.Summary(seq, self.t, made, []))

    def grow(self, n, upto):
        """the list, set or dictionary n after the iterations before `upto`"""
        kind, old = self.accs[n], self.entry[n]
        if not any(p.got[n] for p in self.rec['paths']):
            return old
        seq = self.gathered(upto, lambda p: p.got[n], n)
        if isinstance(old, Acc):
            old.got.append(Segment(seq))
            return old
        if kind == 'list':
            if isinstance(old, PvxSeq) or old:
                seq = S.concat(old if isinstance(old, PvxSeq) else tuple(old), seq)
            return Growing.of(seq)
        if not isinstance(old, (dict, set)) or old:
            raise Unsupported(f'{n} is not empty before the loop')
        return S.PvxDict(seq) if kind == 'dict' else S.PvxSet(seq)

    def place(self, c, seq):
        """a stretch of what the generator yields"""
        for lp in reversed(c.active):
            if lp is not self and lp.frame is self.frame:
                if lp.mode in ('probe', 'probe2'):
                    lp.yields.append(Segment(seq))
                    return
                break
        self.coll.add_segment(seq)

    def leave(self):
        """the loop is left, in whatever way"""
        et = sys.exc_info()[0]
        if self.mode == 'try' and _ctx[0] is not None and et is not None and issubclass(
                et, Unsupported):
            self.rec['changing'] = True
            raise Infeasible()
        if et is not None and (issubclass(et, Control) or et is GeneratorExit):
            return
        if _ctx[0] is None:
            return
        if self.mode in ('probe', 'probe2', 'try'):
            raise Infeasible()
        if self in ctx().active:
            ctx().active.remove(self)
        if self.rule is not None and self.started:
            self.rule.left(et)

    # -- loops with an invariant given by a contract
    def head_rule(self, c, env, locs):
        self.mode = 'rule'
        self.rule.live = self.live
        self.rule.init(locs)
        k = c.choose(['iteration', 'over'])
        new = self.rule.havoc(locs) or {}
        self.new = {n: new.get(n, PvxPoison(n) if n not in env or n in new
                               else env[n]) for n in self.names}
        # a variable the invariant says nothing about is unknown
        for n in self.names:
            if n not in new:
                self.new[n] = PvxPoison(n)
        if k == 'iteration':
            self.cur = self.rule.iterate({**locs, **self.new})
            return True
        fin = self.rule.finish({**locs, **self.new}) or {}
        self.new.update({n: v for n, v in fin.items() if n in self.new})
        return False


def grown(v):
    """what a variable that only grows in the loop is"""
    if isinstance(v, Acc):
        return v.kind
    if isinstance(v, PvxSeq) and v.mutable:
        return 'list'
    for t in (list, dict, set):
        if type(v) is t:
            return t.__name__
    return None


class Acc(Pvx):
    """in an arbitrary iteration: a list, set or dictionary that the iterations
    before have filled"""
    pvx_logged = True

    def __init__(self, name, kind):
        self.name, self.kind, self.got = name, kind, []

    def add_one(self, kind, v):
        if self.kind != kind:
            raise Unsupported(f'{self.name}: not a {kind}')
        self.got.append(v)

    def append(self, v):
        self.add_one('list', v)

    def add(self, v):
        self.add_one('set', v)

    def __setitem__(self, k, v):
        self.add_one('dict', (k, v))

    def __getattr__(self, n):
        raise Unsupported(f'{self.name} is filled by the loop')

    __iter__ = __len__ = __bool__ = __contains__ = __getitem__ = __eq__ = __getattr__
    __hash__ = None


class Growing(PvxSeq):
    """a list that a loop has filled"""

    @classmethod
    def of(cls, seq):
        r = cls.__new__(cls)
        r.__dict__.update(seq.__dict__)
        r.mutable = True
        return r

    def append(self, x):
        self.extend((x,))

    def extend(self, xs):
        from pysx.hooks import as_seq
        s = as_seq(xs)
        new = S.concat(self, s if s is not None else tuple(xs))
        old = dict(self.__dict__)
        self.__dict__.update(new.__dict__)
        self.mutable = True

        def undo():
            self.__dict__.clear()
            self.__dict__.update(old)
        c_().log(('mutate', self, 'extend', (xs,)), undo)


def here(v):
    """a value found when the loop was probed, on the path we are on: terms are
    the same, what has a state is looked up"""
    if isinstance(v, tuple):
        return tuple(here(x) for x in v)
    if hasattr(type(v), 'pvx_here'):
        return v.pvx_here(c_())
    if hasattr(type(v), 'pvx_at'):
        st = v.store
        now = c_().stores.get(st.uid)
        if now is st:
            return v
        if now is None:
            raise Unsupported(f'{type(v).__name__} gathered by a loop')
        return v.pvx_at(now)
    if getattr(type(v), 'pvx_local', False):
        raise Unsupported(f'{type(v).__name__} gathered by a loop')
    if isinstance(v, Pvx) or v is None or isinstance(v, (int, str, float, bytes, type)) \
            or isinstance(v, (list, dict)) and not v or inspect.isroutine(v) \
            and not hasattr(v, '__self__'):
        if isinstance(v, Pvx) and not isinstance(v, PvxSeq) and foreign(v):
            raise Unsupported(f'{type(v).__name__} with a state of its own gathered by a loop')
        return v
    raise Unsupported(f'{type(v).__name__} gathered by a loop')


def foreign(v, depth=3):
    """whether a value holds the state of another path"""
    for x in getattr(v, '__dict__', {}).values():
        if isinstance(x, S.Store):
            if c_().stores.get(x.uid) is not x:
                return True
        elif depth and not isinstance(x, (z3.AstRef, type)) and not callable(x) \
                and hasattr(x, '__dict__') and foreign(x, depth - 1):
            return True
    return False


class GotPath:
    kind, defs = 'ok', ()


def uses(v, const, t):
    """whether the value depends on the constant"""
    if isinstance(v, tuple):
        return any(uses(x, const, t) for x in v)
    x = getattr(v, 't', None)
    return isinstance(x, z3.ExprRef) and S.mentions(x, const)


class Segment:
    def __init__(self, seq):
        self.seq = seq


def c_():
    return ctx()


class S_path:
    """a way an iteration goes on"""

    def __init__(self, c, base):
        from pysx.core import NestedPath
        p = NestedPath(c.pc[base:], c.pck[base:], 'ok', None)
        self.conds, self.defs = p.conds, p.defs

    @property
    def cond(self):
        return z3.And(*self.conds) if self.conds else z3.BoolVal(True)

    kind = 'ok'
    val = None


def find_rule(c, seq, key):
    for r in c.hooks.get('rules', ()) if c.hooks else ():
        x = r(seq, key)
        if x is not None:
            return x
    return None


# ------------------------------------------------------------------ entry points
def _pvx_for(x, key, names, accs=()):
    from pysx.hooks import as_seq, isgen
    if _ctx[0] is None:
        return Plain(iter(x), key)
    s = as_seq(x)
    if s is None and not isgen(x) and not isinstance(x, (list, tuple, dict, set, str, range)):
        g = own_iter(x)
        if g is not None:
            x = g
            s = as_seq(x)
    live = not isinstance(x, (PvxSeq, S.PvxDict, S.PvxSet))
    if s is None and isgen(x) and x.gi_frame is not None and ours(x):
        x = drain_for(x)
        s = x if isinstance(x, PvxSeq) else None
    if s is not None:
        lp = Sym(s, key, names, sys._getframe(1), accs)
        lp.live = live
        return lp
    if isinstance(x, Pvx):
        f = getattr(type(x), 'pvx_concrete_iter', None)
        if f is not None:
            return Plain(iter(f(x)), key)
        raise Unsupported(f'iteration over {type(x).__name__}')
    return Plain(iter(x), key)


def ours(gen):
    return inspect.getgeneratorstate(gen) == inspect.GEN_CREATED


def drain_for(gen):
    """all that a generator yields, where producing it has no effects"""
    from pysx.hooks import as_seq, isgen
    if not isgen(gen):
        s = as_seq(gen)
        return s if s is not None else gen
    c = ctx()
    mark = len(c.mutlog)
    col = [0]
    try:
        r = collect_generator(gen, col)
    except Exception:
        if col[0]:
            raise Unsupported('a generator that raises after having yielded')
        raise
    if c.changes(mark):
        raise Unsupported('a generator with effects')
    return r


def own_iter(x):
    """the generator of an __iter__ written in Python"""
    m = None
    for b in type(x).__mro__:
        m = b.__dict__.get('__iter__')
        if m is not None:
            break
    if m is not None and hasattr(m, '__code__') and not isinstance(x, type):
        return m(x)
    return None


class While:
    """runs natively as long as nothing symbolic is decided"""

    def __init__(self, key, names, frame):
        self.key, self.names, self.frame = key, names, frame
        self.s = None
        self.n = 0
        self.depth = _ctx[0].depth if _ctx[0] is not None else 0
        self.sym = False
        self.new = {}

    def var(self, name):
        return self.s.new[name]

    def head(self, locs):
        if self.s is not None:
            return self.s.head(locs)
        self.n += 1
        if self.n > 20000:
            raise Unsupported('loop runs too long')
        c = _ctx[0]
        if c is not None and self.n == 1:
            rule = find_rule(c, None, self.key)
            if rule is not None and rule.native:
                self.s, self.sym = Cut(rule, self.names), True
                return self.s.head(locs)
        if c is not None and not c.hooks.get('unroll') and (
                self.n > 1 and c.depth > self.depth or self.n == 1 and any(
                    isinstance(locs.get(n), (PvxInt, PvxReal)) for n in self.names)):
            self.s = Sym(None, self.key, self.names, self.frame)
            self.sym = True
            return self.s.head(locs)
        return True

    def leave(self):
        if self.s is not None:
            self.s.leave()


class Cut:
    """a while loop with an invariant; its condition is evaluated as it is, in an
    arbitrary state in which the invariant holds"""

    def __init__(self, rule, names):
        self.rule, self.names, self.started = rule, names, False

    def head(self, locs):
        if self.started:
            self.rule.preserved(locs)
            raise Infeasible()
        self.started = True
        self.rule.names = self.names
        self.rule.init(locs)
        new = self.rule.havoc(locs) or {}
        self.new = {n: new.get(n, PvxPoison(n)) for n in self.names}
        return True

    def leave(self):
        et = sys.exc_info()[0]
        if _ctx[0] is not None and not (et is not None and (
                issubclass(et, Control) or et is GeneratorExit)):
            self.rule.left(et)


def _pvx_while(key, names):
    return While(key, names, sys._getframe(1))


# ------------------------------------------------------------------ generators
class Collector:
    def __init__(self, gen):
        self.gen = gen
        self.parts = []
        self.current = None

    def add_segment(self, seq):
        self.parts.append(seq)

    def result(self):
        res = None
        buf = []
        for p in self.parts:
            if isinstance(p, PvxSeq):
                if buf:
                    res = tuple(buf) if res is None else S.concat(res, tuple(buf))
                    buf = []
                res = p if res is None else S.concat(res, p)
            else:
                buf.append(p[0])
        if res is None:
            return buf
        return S.concat(res, tuple(buf)) if buf else res


_collectors = []


def collector_for(frame):
    for c in reversed(_collectors):
        if c.gen.gi_frame is frame:
            return c
    return None


def collect_generator(gen, count=None):
    """everything an instrumented generator yields, as a sequence"""
    col = Collector(gen)
    _collectors.append(col)
    try:
        n = 0
        while True:
            try:
                v = next(gen)
            except StopIteration:
                break
            n += 1
            if count is not None:
                count[0] = n
            if n > 5000:
                raise Unsupported('endless generator')
            if col.current is not None:
                col.current = None      # taken into account by the loop
            else:
                col.parts.append((v,))
        return col.result()
    finally:
        _collectors.remove(col)


def _pvx_yield(v):
    c = _ctx[0]
    if c is None:
        return v
    frame = sys._getframe(1)
    col = collector_for(frame)
    for lp in reversed(c.active):
        if lp.frame is frame:
            if lp.mode == 'exit':
                lp.yielded = col is None
                return v
            if col is None:
                raise Infeasible()      # the consumer takes over: not going on
            lp.yields.append(v)
            col.current = lp
            return v
    return v


NAMES = {'_pvx_for': _pvx_for, '_pvx_while': _pvx_while, '_pvx_yield': _pvx_yield}

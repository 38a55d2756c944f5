"""Group.iterkeys and Group.iteritems: the members of any number of collections in
one ascending sequence.

The generators of the collections are replaced by their contract (collection.order:
the ids within the bounds, each once, in ascending order): a Cursor, which gives
the least of what it has left. What the group still has to yield is

  remains(k)   the cursor of the collection of k has it left, or it is its head

(a head is what was taken from a cursor and not yielded yet). That, and what the
lists of heads and of objects hold, is the invariant of the loop; every id yielded
is the least that remains and no longer remains afterwards, all that is stored
within the bounds remains at first, and nothing does at the end. So what is
yielded is all of it, each once, in ascending order."""
import z3

from pysx.core import B, I, Infeasible, Key, Unsupported, Val, contract_error, ctx, simp
from pysx.contracts.common import key, outcome
from pysx.contracts.group import World, load
from pysx.loops import Rule
from pysx.seq import PvxDict, PvxSeq, Store, touch
from pysx.sym import Pvx, PvxKey, PvxVal, it, kle, kt, vt
from pysx import data, maps


def within(k, lo, hi):
    t = z3.BoolVal(True)
    if lo is not None:
        t = z3.And(t, kle(kt(lo), k))
    if hi is not None:
        t = z3.And(t, kle(k, kt(hi)))
    return t


class Cursor(Pvx):
    """a generator over the ids of a collection in ascending order"""
    pvx_logged = True

    def __init__(self, store, idx, maps_, what):
        self.store, self.idx, self.maps, self.what = store, simp(idx), maps_, what

    @classmethod
    def begin(cls, store, col, what, lo, hi):
        if ctx().branch(store.at('begun', col.idx)):
            raise Unsupported('several iterations over a collection')
        has = col.m.snapshot_has()
        store.set('begun', col.idx, lambda: z3.BoolVal(True))
        store.set('left', col.idx, lambda k: z3.And(has(k), within(k, lo, hi)))
        return cls(store, col.idx, col.store, what)

    def pvx_reindex(self, j, i):
        return Cursor(self.store, z3.substitute(self.idx, (j, i)), self.maps, self.what)

    def pvx_at(self, store):
        return Cursor(store, self.idx, self.maps, self.what)

    def pvx_same(self, o):
        if not isinstance(o, Cursor) or o.store is not self.store:
            return z3.BoolVal(False)
        return self.idx == o.idx

    def pvx_advance(self):
        c, f, j = ctx(), self.store.f['left'], self.idx
        q = z3.Const(c.name_of('lq'), Key)
        if not c.branch(z3.Exists([q], f(j, q))):
            raise contract_error(StopIteration())
        m = c.fresh('next', Key)
        c.assume(f(j, m))
        c.assume_checked(z3.ForAll([q], z3.Implies(f(j, q), kle(m, q))))
        self.store.set('left', j, lambda k: z3.And(k != m, f(j, k)))
        k = PvxKey(m)
        if self.what == 'keys':
            return k
        return (k, PvxVal(self.maps.f['val'](j, m)))

    def __next__(self):
        return self.pvx_advance()

    def __getattr__(self, n):
        raise Unsupported(f'{n} of an iteration')

    __iter__ = __len__ = __bool__ = __eq__ = __getattr__
    __hash__ = None


class Held(Pvx):
    """the objects taken and not yielded yet"""
    pvx_logged = True

    def set(self, has, val):
        self.has, self.val = has, val

    def change(self, has, val):
        old = self.has, self.val
        self.set(has, val)
        ctx().log(('setitem', self), lambda: self.set(*old))

    def pvx_isinstance(self, cls):
        return issubclass(dict, cls)

    def __setitem__(self, k, v):
        has, val, k, v = self.has, self.val, kt(k), vt(v)
        self.change(lambda x: z3.Or(x == k, has(x)), lambda x: z3.If(x == k, v, val(x)))

    def __contains__(self, k):
        return ctx().branch(self.has(kt(k)))

    def __getitem__(self, k):
        if k not in self:
            raise contract_error(KeyError('key'))
        return PvxVal(self.val(kt(k)))

    def get(self, k, d=None):
        return self[k] if k in self else d

    def __delitem__(self, k):
        if k not in self:
            raise contract_error(KeyError('key'))
        has, k = self.has, kt(k)
        self.change(lambda x: z3.And(x != k, has(x)), self.val)

    def pop(self, k, *d):
        if k not in self:
            if d:
                return d[0]
            raise contract_error(KeyError('key'))
        v = self[k]
        del self[k]
        return v

    def __getattr__(self, n):
        raise Unsupported(f'dict.{n} on the objects held')


class Merge(Rule):
    native = True

    def __init__(self, w, route, cursors, what, lo, hi):
        self.w, self.route, self.cur, self.what, self.lo, self.hi = w, route, cursors, what, lo, hi
        self.name = f'Group.iter{what}'
        self.begun = False

    # -- the state
    def wanted(self, j, k):
        return z3.And(self.w.store.f['has'](j, k), within(k, self.lo, self.hi))

    def head(self, j):
        """(whether the list has a head for j, the head); forks"""
        e = self.heads.elem(j)
        if e is None:
            return None
        if isinstance(e, PvxKey):
            return e.t
        raise Unsupported('a list of something else than the next ids')

    def ident(self, env):
        """which variable is what"""
        self.heads = self.items = None
        for n, v in env.items():
            if n in self.names or n.startswith('_pvx_') or v is self.w.group or v is self.lo \
                    or v is self.hi:
                continue
            if isinstance(v, Held):
                if self.items is not None:
                    raise Unsupported('several dictionaries')
                self.items = v
            elif isinstance(v, PvxDict) or type(v) is dict and not v:
                if self.items is not None or self.begun:
                    raise Unsupported('several dictionaries')
                self.items = v
            elif isinstance(v, PvxSeq):
                if v.sort != I or v.keep is not None:
                    raise Unsupported('a list with some of the collections only')
                kind = self.kind(v)
                if kind == 'cursor':
                    continue
                if kind != 'head' or not v.mutable or self.heads is not None:
                    raise Unsupported('a list of something else than the next ids')
                self.heads = v
            elif isinstance(v, (PvxKey, PvxVal, Cursor, int, str, bool, type(None), type)) or \
                    type(v) is object or callable(v):
                continue
            else:
                raise Unsupported(f'{n} in a loop that merges')
        if self.heads is None or (self.items is None) != (self.what == 'keys'):
            raise Unsupported('a loop that merges in some other way')

    def kind(self, seq):
        c = ctx()
        j = self.some_col()
        e = seq.elem(j)
        if isinstance(e, Cursor):
            return 'cursor'
        return 'head' if e is None or isinstance(e, PvxKey) else 'other'

    def some_col(self):
        c = ctx()
        j = c.fresh('col', I)
        c.assume(z3.And(j >= 0, j < self.w.n))
        touch(j)
        return j

    def terms(self):
        """none(j), head(j): what the list holds, as functions"""
        from pysx.seq import summarise
        s = summarise(self.heads, lambda e: e)
        for p in s.paths:
            if p.kind != 'ok' or not (p.val is None or isinstance(p.val, PvxKey)):
                raise Unsupported('a list of something else than the next ids')

        def none(j):
            return z3.Or(*[s.at(p.cond, j) for p in s.paths if p.val is None])

        def head(j):
            t = None
            for p in s.paths:
                if p.val is not None:
                    v = s.at(p.val.t, j)
                    t = v if t is None else z3.If(s.at(p.cond, j), v, t)
            return t if t is not None else z3.Const('nohead', Key)
        return none, head

    def inv(self, none, head, left, j, k, held=None):
        w = self.w
        col = z3.And(j >= 0, j < w.n)
        parts = {
            'the heads are ids wanted': z3.Implies(z3.And(col, z3.Not(none(j))),
                                                   self.wanted(j, head(j))),
            'what is left is wanted': z3.Implies(z3.And(col, left(j, k)), self.wanted(j, k)),
            'a head is less than what is left': z3.Implies(
                z3.And(col, z3.Not(none(j)), left(j, k)),
                z3.And(kle(head(j), k), head(j) != k)),
            'a collection without a head has nothing left': z3.Implies(
                z3.And(col, none(j)), z3.Not(left(j, k)))}
        if held is not None:
            has, val = held
            parts['the objects of the heads are held'] = z3.Implies(
                z3.And(col, z3.Not(none(j))),
                z3.And(has(head(j)), val(head(j)) == w.store.f['val'](j, head(j))))
        return parts

    def remains(self, none, head, left, k):
        r = self.route(k)
        return z3.And(self.wanted(r, k), z3.Or(left(r, k), z3.And(z3.Not(none(r)), head(r) == k)))

    # -- the rule
    def establish(self, when, none, head, held):
        c = ctx()
        j, k = self.some_col(), c.fresh('any', Key)
        for n, t in self.inv(none, head, self.cur.f['left'], j, k, held).items():
            c.prove(f'{self.name}: {n}, {when}', t)

    def held(self):
        if self.items is None:
            return None
        if isinstance(self.items, Held):
            return self.items.has, self.items.val
        # before the loop: looked up once, for an arbitrary head
        return None

    def init(self, env):
        if self.begun:
            raise Unsupported('several loops that merge')
        c = ctx()
        self.ident(env)
        c.prove(f'{self.name}: a head for every collection', it(self.heads.pvx_len()) == self.w.n)
        none, head = self.terms()
        self.establish('at the start', none, head, None)
        if self.items is not None:
            j = self.some_col()
            h = self.head(j)
            if h is not None:
                kind, v = outcome(lambda: self.items[PvxKey(h)])
                c.prove(f'{self.name}: the objects of the heads are held, at the start',
                        kind == 'ok' and isinstance(v, PvxVal) and
                        v.t == self.w.store.f['val'](j, h))
        k = c.fresh('stored', Key)
        touch(self.route(k))
        c.prove(f'{self.name}: all that is stored within the bounds is to be yielded', z3.Implies(
            self.wanted(self.route(k), k), self.remains(none, head, self.cur.f['left'], k)))

    def havoc(self, env):
        c = ctx()
        self.begun = True
        none, head = c.func('none', I, B), c.func('head', I, Key)
        left = c.func('left', I, Key, B)
        self.cur.replace('left', left)
        heads = self.heads
        old = dict(heads.__dict__)

        def back():
            heads.__dict__.clear()
            heads.__dict__.update(old)
        heads.n = self.w.n
        heads.elem = lambda j: None if ctx().branch(none(j)) else PvxKey(head(j))
        heads.injective = False
        c.log(('mutate', heads, 'havoc', ()), back)
        held = None
        if self.items is not None:
            has, val = c.func('held', Key, B), c.func('heldval', Key, Val)
            held = (has, val)
            if type(self.items) is dict:
                raise Unsupported('a loop that merges in some other way')
            items, was, cls = self.items, dict(self.items.__dict__), type(self.items)

            def undo():
                items.__class__ = cls
                items.__dict__.clear()
                items.__dict__.update(was)
            items.__dict__.clear()
            items.__class__ = Held
            items.set(has, val)
            c.log(('setitem', items), undo)
        j, k = z3.Const('mj', I), z3.Const('mk', Key)
        inv = self.inv(none, head, left, j, k, held)
        for t in inv.values():
            vs = [x for x in (j, k) if mentions(t, x)]
            c.assume(z3.ForAll(vs, t))
        self.before = lambda x: self.remains(none, head, left, x)
        self.mark = len(c.mutlog)
        return {}

    def preserved(self, env):
        c = ctx()
        heads, items = self.heads, self.items
        self.ident(env)
        if self.heads is not heads or self.items is not items:
            raise Unsupported('a loop that merges in some other way')
        for what, _ in c.changes(self.mark):
            if what[0] == 'store' and what[1] is self.cur:
                continue
            if what[0] in ('mutate', 'setitem') and (
                    what[1] is heads or what[1] is items):
                continue
            raise Unsupported('a loop that merges and changes something else')
        none, head = self.terms()
        self.establish('after a round', none, head, self.held())
        k = c.fresh('id', Key)
        now = self.remains(none, head, self.cur.f['left'], k)
        if self.given is None:
            c.prove(f'{self.name}: a round that yields nothing drops nothing', now == self.before(k))
        else:
            c.prove(f'{self.name}: what is yielded, and nothing else, is dropped',
                    now == z3.And(self.before(k), k != self.given))
            # or the rounds might never end
        raise Infeasible()


def mentions(t, x):
    from pysx.seq import mentions as m
    return m(t, x)


END = object()


def step(gen, name):
    kind, v = outcome(lambda: next(gen, END))
    if kind == 'exc':
        ctx().prove(f'{name}: raises nothing', False, repr(v))
        raise Infeasible()
    return v


def walking(run, what):
    _, mod = load()
    name = f'Group.iter{what}'

    def h():
        c = ctx()
        w = World(mod)
        route = w.well_formed()
        cur = Store('cursors', left=c.func('left0', I, Key, B), begun=lambda j: z3.BoolVal(False))
        c.hooks['cursors'] = lambda col, kind, lo, hi: Cursor.begin(cur, col, kind, lo, hi)
        b = c.choose(['none', 'lo', 'hi', 'both'])
        lo = key('lo') if b in ('lo', 'both') else None
        hi = key('hi') if b in ('hi', 'both') else None
        rule = Merge(w, route, cur, what, lo, hi)
        rule.given = None
        c.hooks['rules'] = [lambda seq, key: rule if seq is None and 'iter' + what in key else None]
        gen = getattr(w.group, 'iter' + what)(lo, hi)
        if not hasattr(gen, '__next__'):
            raise Unsupported('no generator')
        y = step(gen, name)
        if not rule.begun:
            raise Unsupported('merged in some other way')
        if y is END:
            k = c.fresh('stored', Key)
            c.prove(f'{name}: ends when everything was yielded', z3.Not(rule.before(k)))
            return
        if what == 'items':
            c.prove(f'{name}: yields pairs', isinstance(y, tuple) and len(y) == 2)
            y, v = y
            if not isinstance(v, PvxVal):
                raise Unsupported('objects of some other kind')
        if not isinstance(y, PvxKey):
            c.prove(f'{name}: yields ids', y is not None)
            raise Unsupported('ids of some other kind')
        c.prove(f'{name}: yields what is stored within the bounds, and was not yielded yet',
                rule.before(y.t))
        if what == 'items':
            c.prove(f'{name}: an id is yielded with its object',
                    v.t == w.store.f['val'](route(y.t), y.t))
        k = c.fresh('other', Key)
        c.prove(f'{name}: in ascending order', z3.Implies(rule.before(k), kle(y.t, k)))
        rule.given = y.t
        z = step(gen, name)
        if z is not END:
            raise Unsupported('several ids in one round')
        c.prove(f'{name}: ends when everything was yielded',
                z3.Implies(rule.before(k), k == y.t))
    run.explore(name, h)
    run.covers(f'citrine.storage.group:{name}')


del data, maps

"""
Contracts of the storage layer, executable: each stands for the class at the
level above, and is what the real class is checked against.

  Tree        trusted: BTrees.OOBTree (external, C code)
  Collection  citrine.storage.collection.Collection
  Group       citrine.storage.group.Group
"""
import z3

from pysx.core import (B, I, Infeasible, Key, Unsupported, Val, contract_error, ctx, simp)
from pysx.seq import MapRef, PvxSeq, Store, set_card, touch
from pysx.sym import (Pvx, PvxBool, PvxInt, PvxKey, PvxVal, bt, divide, it, kle, kt, mkbool,
                      mkint, vt)

NOTHING = object()


# ------------------------------------------------------------------ state
def map_store(name, **more):
    """a family of arbitrary maps (index 0 for a single one)"""
    f = {'has': z3.Function(f'{name}.has', I, Key, B),
         'val': z3.Function(f'{name}.val', I, Key, Val),
         'card': z3.Function(f'{name}.card', I, I)}
    f.update(more)
    return Store(name, **f)


def empty_store(name):
    return Store(name, has=lambda j, k: z3.BoolVal(False),
                 val=z3.Function(f'{name}.val', I, Key, Val), card=lambda j: z3.IntVal(0))


class Map:
    """one map of a store"""

    def __init__(self, store, idx):
        self.store, self.idx = store, idx

    def has(self, k):
        h = self.store.at('has', self.idx, k)
        c = ctx()
        # a finite map: what it holds counts
        c.assume(z3.Implies(h, self.card() >= 1))
        return h

    def val(self, k):
        return self.store.at('val', self.idx, k)

    def card(self):
        n = self.store.at('card', self.idx)
        ctx().assume(n >= 0)
        return n

    def snapshot_has(self):
        f = self.store.f['has']
        return lambda k: f(self.idx, k)

    def snapshot_val(self):
        f = self.store.f['val']
        return lambda k: f(self.idx, k)

    def put(self, k, v):
        had = self.has(k)
        card = self.card()
        has, val = self.snapshot_has(), self.snapshot_val()
        self.store.set('has', self.idx, lambda x: z3.Or(x == k, has(x)))
        self.store.set('val', self.idx, lambda x: z3.If(x == k, v, val(x)))
        self.store.set('card', self.idx, lambda: z3.If(had, card, card + 1))

    def drop(self, k):
        had = self.has(k)
        card = self.card()
        has = self.snapshot_has()
        self.store.set('has', self.idx, lambda x: z3.And(x != k, has(x)))
        self.store.set('card', self.idx, lambda: z3.If(had, card - 1, card))

    def empty(self):
        self.store.set('has', self.idx, lambda x: z3.BoolVal(False))
        self.store.set('card', self.idx, lambda: z3.IntVal(0))

    def added(self, m):
        """how many keys of the mapping m are new"""
        has, mh = self.snapshot_has(), m.has
        return set_card(lambda k: z3.And(mh(k), z3.Not(has(k))))

    def merge(self, m):
        """update with an arbitrary mapping"""
        n = self.added(m)
        has, val = self.snapshot_has(), self.snapshot_val()
        card = self.card()
        mh, mv = m.has, m.val
        self.store.set('has', self.idx, lambda x: z3.Or(mh(x), has(x)))
        self.store.set('val', self.idx, lambda x: z3.If(mh(x), mv(x), val(x)))
        self.store.set('card', self.idx, lambda: card + n)

    def is_empty(self):
        """fork; an empty map holds nothing, a non-empty one something"""
        c = ctx()
        n = self.card()
        has = self.snapshot_has()
        if c.branch(n == 0):
            q = z3.Const(c.name_of('kq'), Key)
            c.assume(z3.ForAll([q], z3.Not(has(q))))
            return True
        w = c.fresh('some', Key)
        c.assume(has(w))
        return False

    def extreme(self, low, bound):
        """the smallest (largest) key not beyond the bound, or None"""
        c = ctx()
        has = self.snapshot_has()
        b = None if bound is None else kt(bound)

        def inside(x):
            if b is None:
                return has(x)
            return z3.And(has(x), kle(b, x) if low else kle(x, b))
        q = z3.Const(c.name_of('kq'), Key)
        if not c.branch(z3.Exists([q], inside(q))):
            return None
        m = c.fresh('least' if low else 'most', Key)
        c.assume(inside(m))
        c.assume_checked(z3.ForAll([q], z3.Implies(inside(q), kle(m, q) if low else kle(q, m))))
        self.has(m)
        return PvxKey(m)

    def view(self, what, lo=None, hi=None):
        has, val = self.snapshot_has(), self.snapshot_val()
        card = self.card()

        def keep(k):
            t = has(k)
            if lo is not None:
                t = z3.And(t, kle(kt(lo), k))
            if hi is not None:
                t = z3.And(t, kle(k, kt(hi)))
            return t

        def elem(k):
            if what == 'keys':
                return PvxKey(k)
            if what == 'values':
                return PvxVal(val(k))
            return (PvxKey(k), PvxVal(val(k)))
        s = PvxSeq(None, elem, keep=keep, label=what, kind=what, injective=what != 'values',
                   sort=Key, over=(lambda: card) if lo is None and hi is None else None)
        s.map = (has, val)
        return s


class View(Pvx):
    """keys(), items() or values() of a map: reflects the present state"""

    def __init__(self, mp, what):
        self.mp, self.what = mp, what

    def pvx_len(self):
        return mkint(self.mp.card())

    def pvx_iter(self):
        return self.mp.view(self.what)

    def __contains__(self, k):
        if self.what != 'keys':
            raise Unsupported('membership in a view of values')
        if not isinstance(k, (str, PvxKey)):
            raise Unsupported('membership of other than an id')
        return ctx().branch(self.mp.has(kt(k)))

    def __len__(self):
        raise Unsupported('length of a view as a plain number')

    def __bool__(self):
        return ctx().branch(self.mp.card() > 0)

    def __getitem__(self, i):
        raise Unsupported('index into a view')


class Mapping(Pvx):
    """an arbitrary dictionary with string keys, given by a caller"""

    def __init__(self, name):
        c = ctx()
        self.name = name
        self.H = c.func(name + '.has', Key, B)
        self.V = c.func(name + '.val', Key, Val)
        self.has = lambda k: self.H(k)
        self.val = lambda k: self.V(k)

    def pvx_isinstance(self, cls):
        return issubclass(dict, cls)

    def _seq(self, what):
        def elem(k):
            if what == 'keys':
                return PvxKey(k)
            if what == 'values':
                return PvxVal(self.V(k))
            return (PvxKey(k), PvxVal(self.V(k)))
        return PvxSeq(None, elem, keep=self.has, label=self.name, kind='mapping', sort=Key,
                      injective=what != 'values')

    def keys(self):
        return self._seq('keys')

    def items(self):
        return self._seq('items')

    def values(self):
        return self._seq('values')

    def pvx_iter(self):
        return self._seq('keys')

    def pvx_len(self):
        return mkint(set_card(self.has))

    def __contains__(self, k):
        return ctx().branch(self.has(kt(k)))

    def __getitem__(self, k):
        if ctx().branch(self.has(kt(k))):
            return PvxVal(self.val(kt(k)))
        raise contract_error(KeyError('key'))

    def get(self, k, d=None):
        if ctx().branch(self.has(kt(k))):
            return PvxVal(self.val(kt(k)))
        return d

    def __bool__(self):
        return ctx().branch(set_card(self.has) > 0)

    def copy(self):
        return self

    def pvx_dict(self):
        return self


def key_of(k):
    if not isinstance(k, (PvxKey, str)):
        if isinstance(k, PvxVal):
            raise Unsupported('an arbitrary value as an id')
        raise contract_error(TypeError('Object has default comparison'))
    return kt(k)


def as_pairs(m):
    """('map', mapping) or ('pairs', [(k, v), ...])"""
    if isinstance(m, (Mapping, MapRef)):
        return 'map', m
    if isinstance(m, dict):
        return 'pairs', list(m.items())
    if isinstance(m, (list, tuple)):
        return 'pairs', list(m)
    if isinstance(m, View) or isinstance(m, PvxSeq):
        raise Unsupported('update with a view')
    raise Unsupported(f'update with {type(m).__name__}')


# ------------------------------------------------------------------ trusted tree
class Tree(Pvx):
    """BTrees.OOBTree.BTree with string keys (trusted contract)"""
    pvx_logged = True

    def __init__(self, *args):
        if args:
            raise Unsupported('BTree from data')
        n = ctx().name_of('tree')
        self.m = Map(empty_store(n), z3.IntVal(0))

    @classmethod
    def arbitrary(cls, store, idx):
        t = cls.__new__(cls)
        t.m = Map(store, idx)
        return t

    def __getattr__(self, n):
        raise Unsupported(f'BTree.{n}')

    def get(self, key, default=None):
        k = key_of(key)
        if ctx().branch(self.m.has(k)):
            return PvxVal(self.m.val(k))
        return default

    def __getitem__(self, key):
        k = key_of(key)
        if ctx().branch(self.m.has(k)):
            return PvxVal(self.m.val(k))
        raise contract_error(KeyError('key'))

    def __setitem__(self, key, value):
        self.m.put(key_of(key), vt(value))

    def __delitem__(self, key):
        k = key_of(key)
        if not ctx().branch(self.m.has(k)):
            raise contract_error(KeyError('key'))
        self.m.drop(k)

    def insert(self, key, value):
        k = key_of(key)
        if ctx().branch(self.m.has(k)):
            return 0
        self.m.put(k, vt(value))
        return 1

    def setdefault(self, key, value):
        k = key_of(key)
        if ctx().branch(self.m.has(k)):
            return PvxVal(self.m.val(k))
        self.m.put(k, vt(value))
        return value

    def update(self, m):
        kind, d = as_pairs(m)
        if kind == 'map':
            self.m.merge(d)
        else:
            for k, v in d:
                self.m.put(key_of(k), vt(v))

    def pop(self, key, *default):
        k = key_of(key)
        if ctx().branch(self.m.has(k)):
            v = PvxVal(self.m.val(k))
            self.m.drop(k)
            return v
        if default:
            return default[0]
        raise contract_error(KeyError('key'))

    def popitem(self):
        k = self.m.extreme(True, None)
        if k is None:
            raise contract_error(KeyError('popitem(): empty BTree'))
        v = PvxVal(self.m.val(k.t))
        self.m.drop(k.t)
        return (k, v)

    def clear(self):
        self.m.empty()

    def keys(self, min=None, max=None, *a):
        if a:
            raise Unsupported('exclusive bounds')
        return View(self.m, 'keys') if min is None and max is None else self.m.view('keys', min, max)

    def values(self, *a):
        if a:
            raise Unsupported('bounds')
        return View(self.m, 'values')

    def items(self, min=None, max=None):
        return View(self.m, 'items') if min is None and max is None else self.m.view('items', min, max)

    def iterkeys(self, min=None, max=None):
        return self.m.view('keys', min, max)

    def itervalues(self, min=None, max=None):
        return self.m.view('values', min, max)

    def iteritems(self, min=None, max=None):
        return self.m.view('items', min, max)

    def minKey(self, bound=None):
        k = self.m.extreme(True, bound)
        if k is None:
            raise contract_error(ValueError('no key satisfies the conditions'))
        return k

    def maxKey(self, bound=None):
        k = self.m.extreme(False, bound)
        if k is None:
            raise contract_error(ValueError('no key satisfies the conditions'))
        return k

    def has_key(self, key):
        k = key_of(key)
        # some positive number if present
        c = ctx()
        r = c.fresh('depth', I)
        c.assume(r >= 1)
        return PvxInt(z3.If(self.m.has(k), r, z3.IntVal(0)))

    def __contains__(self, key):
        return ctx().branch(self.m.has(key_of(key)))

    def pvx_len(self):
        return mkint(self.m.card())

    def __bool__(self):
        return ctx().branch(self.m.card() > 0)

    def pvx_iter(self):
        return self.m.view('keys')


class Persistent:
    """persistent.Persistent as far as the code can see it: a plain base class; whatever
    is assigned to one of its attributes (a property included) marks it as changed"""

    def __init__(self, *args, **kwargs):
        super().__init__()

    def __setattr__(self, name, value):
        try:
            ctx().known.setdefault('p_changed', {})[id(self)] = self
        except Unsupported:                      # (outside of an exploration)
            pass
        super().__setattr__(name, value)

    def __delattr__(self, name):
        ctx().known.setdefault('p_changed', {})[id(self)] = self
        super().__delattr__(name)


# ------------------------------------------------------------------ collections
DEFAULT_LIMIT = 1500


def collection_store(name):
    """a family of arbitrary collections"""
    s = map_store(name, cap=z3.Function(f'{name}.cap', I, I),
                  strict=z3.Function(f'{name}.strict', I, B),
                  uuid=z3.Function(f'{name}.uuid', I, I))
    return s


def status_term(card, cap):
    """the highest of the levels that does not exceed 100 * card / cap rounded
    up: level L does iff 100 * card > (L - 1) * cap, for L > 0 and cap > 0"""
    t = z3.IntVal(0)
    for level in (60, 70, 80, 90):
        t = z3.If(100 * card > (level - 1) * cap, z3.IntVal(level), t)
    return t


class ContractMeta(type):
    def __getattr__(cls, n):
        if n.startswith('__') and n.endswith('__') or n.startswith('pvx_'):
            raise AttributeError(n)
        raise Unsupported(f'{cls.__name__}.{n} is not part of the contract')


class CollectionContract(metaclass=ContractMeta):
    """contract of Collection"""
    pvx_logged = True
    errors = {}

    def __init__(self, uuid=None, max_size=None, strict=True, *args, **kwargs):
        if args or kwargs:
            raise Unsupported('arguments of Collection')
        c = ctx()
        name = c.name_of('col')
        if c.generic:
            if len(c.generic) > 1:
                raise Unsupported('collections made in nested loops')
            g = c.generic[0]
        else:
            g = z3.IntVal(0)
        cap = z3.IntVal(DEFAULT_LIMIT)
        if max_size is not None and c.branch(it(max_size) != 0):
            cap = it(max_size)
        st = bt(strict)
        s = empty_store(name)
        sub = (lambda t, j: z3.substitute(t, (g, j))) if c.generic else (lambda t, j: t)
        s.f['cap'] = lambda j: sub(cap, j)
        s.f['strict'] = lambda j: sub(st, j)
        s.f['uuid'] = z3.Function(f'{name}.uuid', I, I)
        if uuid is None:
            a, b = z3.Ints(f'ua{name} ub{name}')
            c.assume(z3.ForAll([a, b], z3.Implies(s.f['uuid'](a) == s.f['uuid'](b), a == b)))
        self.store, self.idx = s, g

    @classmethod
    def at(cls, store, idx):
        o = cls.__new__(cls)
        object.__setattr__(o, 'store', store)
        object.__setattr__(o, 'idx', simp(idx))
        return o

    def pvx_reindex(self, j, i):
        return type(self).at(self.store, z3.substitute(self.idx, (j, i)))

    def pvx_at(self, store):
        return type(self).at(store, self.idx)

    def pvx_same(self, o):
        if not hasattr(o, 'store') or o.store is not self.store:
            return z3.BoolVal(False)
        return self.idx == o.idx

    def __eq__(self, o):
        if hasattr(type(o), 'pvx_same'):
            return mkbool(self.pvx_same(o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.t))

    def __hash__(self):
        return 0

    def __getattr__(self, n):
        raise Unsupported(f'Collection.{n} is not part of the contract')

    def __setattr__(self, n, v):
        if n in ('store', 'idx'):
            return object.__setattr__(self, n, v)
        if n == 'strict':
            return type(self).strict.fset(self, v)
        raise Unsupported(f'Collection.{n} is assigned')

    @property
    def m(self):
        return Map(self.store, self.idx)

    @property
    def _cap(self):
        cap = self.store.at('cap', self.idx)
        ctx().assume(cap >= 1)
        return cap

    @property
    def _strict(self):
        return self.store.at('strict', self.idx)

    # ---- the contract
    @property
    def uuid(self):
        return PvxInt(self.store.at('uuid', self.idx))

    @property
    def size(self):
        return mkint(self.m.card())

    @property
    def max_size(self):
        return mkint(self._cap)

    @property
    def usage(self):
        return divide(self.size, self.max_size)

    @property
    def status(self):
        return mkint(status_term(self.m.card(), self._cap))

    @property
    def strict(self):
        return mkbool(self._strict)

    @strict.setter
    def strict(self, v):
        t = bt(v)
        self.store.set('strict', self.idx, lambda: t)

    def full(self, n=1):
        """n more keys do not fit, and matter"""
        return z3.And(self._strict, self.m.card() + n > self._cap)

    def refuse(self):
        raise contract_error(self.errors['collection']('maximum size reached'))

    def get(self, key, default=None):
        k = key_of(key)
        if ctx().branch(self.m.has(k)):
            return PvxVal(self.m.val(k))
        return default

    def has_key(self, key):
        return mkbool(self.m.has(key_of(key)))

    def insert(self, key, value):
        k = key_of(key)
        c = ctx()
        if c.branch(self.m.has(k)):
            return 0
        if c.branch(self.full()):
            self.refuse()
        self.m.put(k, vt(value))
        return 1

    def setdefault(self, key, value):
        k = key_of(key)
        c = ctx()
        if c.branch(self.m.has(k)):
            return PvxVal(self.m.val(k))
        if c.branch(self.full()):
            self.refuse()
        self.m.put(k, vt(value))
        return value

    def update(self, m):
        c = ctx()
        kind, d = as_pairs(m)
        if kind == 'map':
            n = self.m.added(d)
            if c.branch(z3.And(n > 0, self.full(n))):
                self.refuse()
            self.m.merge(d)
            return
        new = []
        for k, _ in d:
            k = key_of(k)
            if c.branch(z3.Not(self.m.has(k))) and not any(c.branch(x == k) for x in new):
                new.append(k)
        if new and c.branch(self.full(len(new))):
            self.refuse()
        for k, v in d:
            self.m.put(key_of(k), vt(v))

    def pop(self, key, default=None):
        """KeyError for an absent key unless a default other than None is given"""
        k = key_of(key)
        if ctx().branch(self.m.has(k)):
            v = PvxVal(self.m.val(k))
            self.m.drop(k)
            return v
        if default is None or (isinstance(default, PvxVal) and bool(default.pvx_is(None))):
            raise contract_error(KeyError('key'))
        return default

    def popitem(self):
        k = self.m.extreme(True, None)
        if k is None:
            raise contract_error(KeyError('empty'))
        v = PvxVal(self.m.val(k.t))
        self.m.drop(k.t)
        return (k, v)

    def clear(self):
        self.m.empty()

    def keys(self):
        return View(self.m, 'keys')

    def values(self):
        return View(self.m, 'values')

    def items(self):
        return View(self.m, 'items')

    def iterkeys(self, min=None, max=None):
        return self.walk('keys', min, max)

    def iteritems(self, min=None, max=None):
        return self.walk('items', min, max)

    def walk(self, what, lo, hi):
        """the members in the bounds, in ascending order of the ids: all at
        once, or taken one by one"""
        f = ctx().hooks.get('cursors')
        return f(self, what, lo, hi) if f else self.m.view(what, lo, hi)

    def minKey(self, min=None):
        k = self.m.extreme(True, min)
        if k is None:
            raise contract_error(ValueError('no key'))
        return k

    def maxKey(self, max=None):
        k = self.m.extreme(False, max)
        if k is None:
            raise contract_error(ValueError('no key'))
        return k


# ------------------------------------------------------------------ groups
def group_store(name):
    """a family of arbitrary groups"""
    return map_store(name, cap=z3.Function(f'{name}.cap', I, I),
                     strict=z3.Function(f'{name}.strict', I, B),
                     lenient=z3.Function(f'{name}.lenient', I, B),
                     ver=lambda j: z3.IntVal(0))


REFUSES = z3.Function('group refuses', I, Key, I, B)
STATUS = z3.Function('group status', I, I, I)


class GroupContract(metaclass=ContractMeta):
    """contract of Group: one map (see contracts/group.py: Spec, of which this
    is the abstraction has(k) = has(route(k), k), val likewise, card = the total)"""
    pvx_logged = True
    errors = {}
    made = None

    def __init__(self, *a, **k):
        raise Unsupported('Group(...)')

    @classmethod
    def at(cls, store, idx):
        o = object.__new__(cls)
        object.__setattr__(o, 'store', store)
        object.__setattr__(o, 'idx', simp(idx))
        return o

    pvx_reindex = CollectionContract.pvx_reindex
    pvx_at = CollectionContract.pvx_at
    pvx_same = CollectionContract.pvx_same
    __eq__ = CollectionContract.__eq__
    __ne__ = CollectionContract.__ne__
    __hash__ = CollectionContract.__hash__

    def __getattr__(self, n):
        raise Unsupported(f'Group.{n} is not part of the contract')

    def __setattr__(self, n, v):
        if n == 'strict':
            return type(self).strict.fset(self, v)
        raise Unsupported(f'Group.{n} is assigned')

    @property
    def m(self):
        return Map(self.store, self.idx)

    @property
    def size(self):
        return mkint(self.m.card())

    @property
    def max_size(self):
        cap = self.store.at('cap', self.idx)
        ctx().assume(cap >= 1)
        return mkint(cap)

    @property
    def usage(self):
        return divide(self.size, self.max_size)

    @property
    def status(self):
        return mkint(STATUS(self.idx, self.store.at('ver', self.idx)))

    @property
    def strict(self):
        c = ctx()
        s = self.store.at('strict', self.idx)
        c.assume(z3.Not(z3.And(s, self.store.at('lenient', self.idx))))
        return mkbool(s)

    @strict.setter
    def strict(self, v):
        if not isinstance(v, (bool, PvxBool)):
            raise contract_error(TypeError('strict must be a boolean'))
        t = bt(v)
        self.store.set('strict', self.idx, lambda: t)
        self.store.set('lenient', self.idx, lambda: z3.Not(t))

    def changed(self):
        v = self.store.at('ver', self.idx)
        self.store.set('ver', self.idx, lambda: v + 1)

    def refuses(self, k):
        """whether there is no room for another key: never, if no part is strict"""
        r = REFUSES(self.idx, k, self.store.at('ver', self.idx))
        ctx().assume(z3.Implies(r, z3.Not(self.store.at('lenient', self.idx))))
        return r

    def refuse(self):
        raise contract_error(self.errors['group']('maximum size reached'))

    def get(self, key, default=None):
        k = key_of(key)
        if ctx().branch(self.m.has(k)):
            return PvxVal(self.m.val(k))
        return default

    def has_key(self, key):
        # some positive number, or 0
        k = key_of(key)
        c = ctx()
        r = c.fresh('depth', I)
        c.assume(r >= 1)
        return PvxInt(z3.If(self.m.has(k), r, z3.IntVal(0)))

    def insert(self, key, value):
        k = key_of(key)
        c = ctx()
        if c.branch(self.m.has(k)):
            return 0
        if c.branch(self.refuses(k)):
            self.refuse()
        self.m.put(k, vt(value))
        self.changed()
        return 1

    def setdefault(self, key, value):
        k = key_of(key)
        c = ctx()
        if c.branch(self.m.has(k)):
            return PvxVal(self.m.val(k))
        if c.branch(self.refuses(k)):
            self.refuse()
        self.m.put(k, vt(value))
        self.changed()
        return value

    def update(self, m):
        kind, d = as_pairs(m)
        if kind == 'map' or len(d) > 1:
            raise Unsupported('Group.update with several ids')
        for k, v in d:
            k = key_of(k)
            c = ctx()
            if not c.branch(self.m.has(k)) and c.branch(self.refuses(k)):
                self.refuse()
            self.m.put(k, vt(v))
            self.changed()

    def pop(self, key, default=None):
        k = key_of(key)
        if ctx().branch(self.m.has(k)):
            v = PvxVal(self.m.val(k))
            self.m.drop(k)
            self.changed()
            return v
        if default is None or (isinstance(default, PvxVal) and bool(default.pvx_is(None))):
            raise contract_error(KeyError('key'))
        return default

    def clear(self):
        self.m.empty()
        self.changed()

    def keys(self):
        return View(self.m, 'keys')

    def values(self):
        return View(self.m, 'values')

    def items(self):
        return View(self.m, 'items')


del Infeasible, touch, NOTHING

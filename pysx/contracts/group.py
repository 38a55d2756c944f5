"""Group and GroupMeta against the contract of one map, with the collections
replaced by their contract."""
import types

import z3

from pysx import hooks, maps
from pysx.core import contract_error, ctx, B, I, Key, Unsupported, simp
from pysx.contracts.common import Stored, equal, key, outcome, truthy, val
from pysx.contracts.collection import BARE, tree_stubs, load as load_collection
from pysx.maps import CollectionContract, Map, Mapping
from pysx.seq import PvxSeq, Store, set_card, sum_term, summarise, touch
from pysx.sym import QUOT, kle, PROCHASH, PvxBool, PvxInt, PvxKey, it, mkbool, rt
from pysx.transform import Loader


def load():
    _, col = load_collection()
    stub = {n: v for n, v in vars(col).items()
            if isinstance(v, type) and issubclass(v, BaseException)}
    stub['Collection'] = CollectionContract
    L = Loader(stubs={**tree_stubs(), 'citrine.storage.collection': stub}, bare=BARE)
    return L, L.load('citrine.storage.group')


class World:
    """a real group with arbitrarily many collections in arbitrary states"""

    def __init__(self, mod, over=True):
        c = self.c = ctx()
        c.hooks['linear'] = True
        self.n = c.fresh('n', I)
        c.assume(self.n >= 1)
        self.store = maps.collection_store('g')
        a, b = z3.Ints('ua ub')
        u = self.store.f['uuid']
        c.assume(z3.ForAll([a, b], z3.Implies(u(a) == u(b), a == b)))
        q = z3.Const('qj', I)
        c.assume(z3.ForAll([q], z3.And(self.store.f['cap'](q) >= 1, self.store.f['card'](q) >= 0)))
        st0 = dict(self.store.f)
        self.seq = PvxSeq(self.n, lambda j: CollectionContract.at(self.store, j),
                          label='collections', injective=True)
        self.group = mod.Group(self.seq, strict=PvxBool(c.fresh('s0', B)))
        # whatever the constructor set, it may have been changed since
        self.store.f = st0
        self.touched = []
        c.mutlog.clear()

    def route_term(self):
        """where the group looks for an id, as a function"""
        c = self.c
        x = z3.Const('routed?', Key)
        self.store.trace = tr = []
        c.generic.append(x)
        try:
            paths = c.nested(lambda: self.group.get(PvxKey(x)))
        finally:
            c.generic.pop()
            self.store.trace = None
        seen = []
        for f, i in tr:
            if f == 'has' and not any(simp(i).eq(y) for y in seen):
                seen.append(simp(i))
        if len(seen) != 1:
            raise Unsupported('the group looks into several collections for an id')
        self.route_defs = []
        for p in paths:
            for d in p.defs:
                if not any(d.eq(y) for y in self.route_defs):
                    self.route_defs.append(d)
        t = seen[0]
        return lambda k: z3.substitute(t, (x, k)), t, x

    def well_formed(self):
        """every id is kept where the group looks for it"""
        c = self.c
        route, t, x = self.route_term()
        self.route = route
        # proved in routing()
        c.assume(z3.ForAll([x], z3.And(t >= 0, t < self.n)))
        j, k = z3.Const('wj', I), z3.Const('wk', Key)
        has = self.store.f['has']
        c.assume(z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < self.n, has(j, k)),
                                              j == route(k)), patterns=[has(j, k)]))
        return route


def mentions_has(d):
    todo, seen = [d], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name().split('.')[-1] in ('has', 'val', 'card'):
            return True
        todo += x.children()
    return False


class CapacityError(Exception):
    """some capacity error"""


class Spec:
    """the group as one map (contract): what is kept where is fixed by `route`"""

    def __init__(self, w):
        self.w = w
        self.store = Store('g', **w.store.f)
        self.added = None

    def col(self, k):
        return CollectionContract.at(self.store, self.w.route(k))

    def total(self):
        f = self.store.f['card']
        return sum_term(self.w.n, lambda j: f(j))

    def limit(self):
        f = self.store.f['cap']
        return sum_term(self.w.n, lambda j: f(j))

    def all_strict(self):
        q = z3.Const('sj', I)
        f = self.store.f['strict']
        return z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < self.w.n), f(q)))

    def no_room(self, col, n=1):
        return z3.Or(z3.And(self.all_strict(), self.total() + n > self.limit()), col.full(n))

    def get(self, k, default=None):
        return self.col(k.t).get(k, default)

    def has_key(self, k):
        return self.col(k.t).has_key(k)

    def insert(self, k, v):
        c, col = ctx(), self.col(k.t)
        if c.branch(col.m.has(k.t)):
            return 0
        if c.branch(self.no_room(col)):
            raise contract_error(CapacityError())
        col.m.put(k.t, v.t)
        return 1

    def setdefault(self, k, v):
        c, col = ctx(), self.col(k.t)
        if c.branch(col.m.has(k.t)):
            return col.get(k)
        if c.branch(self.no_room(col)):
            raise contract_error(CapacityError())
        col.m.put(k.t, v.t)
        return v

    def pop(self, k, default=None):
        return self.col(k.t).pop(k, default)

    def update(self, pairs):
        c = ctx()
        new = []
        for k, _ in pairs:
            if not c.branch(self.col(k.t).m.has(k.t)):
                new.append(k.t)
        if new:
            if c.branch(z3.And(self.all_strict(), self.total() + len(new) > self.limit())):
                raise contract_error(CapacityError())
            for k in new:
                col = self.col(k)
                n = z3.Sum([z3.If(self.w.route(x) == self.w.route(k), 1, 0) for x in new])
                if c.branch(z3.And(col._strict, col.m.card() + n > col._cap)):
                    raise contract_error(CapacityError())
        for k, v in pairs:
            self.col(k.t).m.put(k.t, v.t)

    def update_all(self, m):
        """update with an arbitrary mapping"""
        c, w, route = ctx(), self.w, self.w.route
        has, val_, card = (self.store.f[x] for x in ('has', 'val', 'card'))
        cap, strict = self.store.f['cap'], self.store.f['strict']

        def new(k):
            return z3.And(m.has(k), z3.Not(has(route(k), k)))
        n = set_card(new)
        s = summarise(PvxSeq(w.n, lambda j: PvxInt(j)), lambda e: PvxInt(set_card(
            lambda k: z3.And(new(k), route(k) == e.t))))

        def added(j):
            return s.value(I, it, j, z3.IntVal(0))
        self.added = added
        # the new ids are the disjoint union of those of the collections
        c.assume(sum_term(w.n, added) == n)
        q = z3.Const('oj', I)
        over = z3.Exists([q], z3.And(q >= 0, q < w.n, strict(q), added(q) > 0,
                                     card(q) + added(q) > cap(q)))
        if c.branch(z3.Or(z3.And(n > 0, self.all_strict(), n + self.total() > self.limit()), over)):
            raise contract_error(CapacityError())
        self.store.replace('has', lambda j, k: z3.Or(has(j, k), z3.And(m.has(k), route(k) == j)))
        self.store.replace('val', lambda j, k: z3.If(z3.And(m.has(k), route(k) == j),
                                                     m.val(k), val_(j, k)))
        self.store.replace('card', lambda j: card(j) + added(j))

    def inside(self, k, low, bound):
        t = self.store.f['has'](self.w.route(k), k)
        if bound is not None:
            t = z3.And(t, kle(bound.t, k) if low else kle(k, bound.t))
        return t

    def extreme(self, low, bound):
        c = ctx()
        q = z3.Const(c.name_of('kq'), Key)
        if not c.branch(z3.Exists([q], self.inside(q, low, bound))):
            return None
        m = c.fresh('extreme', Key)
        c.assume(self.inside(m, low, bound))
        c.assume_checked(z3.ForAll([q], z3.Implies(self.inside(q, low, bound),
                                                   kle(m, q) if low else kle(q, m))))
        return PvxKey(m)

    def minKey(self, bound=None):
        k = self.extreme(True, bound)
        if k is None:
            raise contract_error(ValueError('no key'))
        return k

    def maxKey(self, bound=None):
        k = self.extreme(False, bound)
        if k is None:
            raise contract_error(ValueError('no key'))
        return k

    def popitem(self):
        k = self.extreme(True, None)
        if k is None:
            raise contract_error(KeyError('empty'))
        v = self.col(k.t).get(k)
        self.col(k.t).m.drop(k.t)
        return (k, v)

    def clear(self):
        self.store.replace('has', lambda j, k: z3.BoolVal(False))
        self.store.replace('card', lambda j: z3.IntVal(0))


def capacity_errors(mod):
    return tuple(v for n, v in vars(mod).items() if isinstance(v, type) and
                 issubclass(v, Exception) and 'Capacity' in n)


def compare(name, w, spec, k1, v1, k2, v2, errs, result):
    c = ctx()
    if k1 == 'exc' or k2 == 'exc':
        same = k1 == k2 and (isinstance(v2, errs) if isinstance(v1, CapacityError)
                             else type(v1) is type(v2))
        c.prove(f'{name}: refuses exactly what the contract refuses', same,
                f'contract {k1} {v1!r}, code {k2} {v2!r}')
    else:
        c.prove(f'{name}: result', result(v1, v2))
    same_stores(name, w, spec)


def same_stores(name, w, spec):
    c = ctx()
    j, x = c.fresh('col', I), c.fresh('any', Key)
    c.assume(z3.And(j >= 0, j < w.n))
    touch(j)
    r, s = Map(w.store, j), Map(spec.store, j)
    c.prove(f'{name}: stored ids', r.has(x) == s.has(x))
    c.prove(f'{name}: stored objects', z3.Implies(s.has(x), r.val(x) == s.val(x)))
    c.prove(f'{name}: number of objects', r.card() == s.card())
    c.prove(f'{name}: limits and strictness kept', z3.And(
        w.store.f['cap'](j) == spec.store.f['cap'](j),
        w.store.f['strict'](j) == spec.store.f['strict'](j)))


def limits(name, w, spec, before):
    """C04: nothing grows beyond its limit"""
    c = ctx()
    j = c.fresh('lim', I)
    c.assume(z3.And(j >= 0, j < w.n))
    touch(j)
    # the code leaves as many objects as the contract does, in every collection
    # (an obligation of its own)
    card0, card1 = before['card'], spec.store.f['card']
    if spec.added is not None:
        c.assume(sum_term(w.n, lambda i: card0(i) + spec.added(i)) ==
                 sum_term(w.n, lambda i: card0(i)) + sum_term(w.n, spec.added))
    cap, strict = before['cap'], before['strict']
    c.prove(f'{name}: no strict collection grows beyond its limit',
            z3.Implies(z3.And(strict(j), card1(j) > card0(j)), card1(j) <= cap(j)))
    q = z3.Const('lj', I)
    total0, total1 = (sum_term(w.n, lambda i: card0(i)), sum_term(w.n, lambda i: card1(i)))
    limit = sum_term(w.n, lambda i: cap(i))
    c.prove(f'{name}: no strict group grows beyond its limit', z3.Implies(z3.And(
        z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < w.n), strict(q))), total1 > total0),
        total1 <= limit))


def operation(run, mod, name, make, result=equal, grows=False):
    errs = capacity_errors(mod)

    def h():
        w = World(mod)
        w.well_formed()
        spec = Spec(w)
        before = dict(w.store.f)
        on_real, on_spec = make()
        k2, v2 = outcome(lambda: on_real(w.group))
        k1, v1 = outcome(lambda: on_spec(spec))
        compare(f'Group.{name}', w, spec, k1, v1, k2, v2, errs, result)
        if grows:
            limits(f'Group.{name}', w, spec, before)
    run.explore(f'Group.{name}', h)
    run.covers(f'citrine.storage.group:Group.{name.split(" ")[0]}',
               'citrine.storage.group:get_group_index', 'citrine.storage.group:groupfn')


def truth_result(a, b):
    return truthy(a) == truthy(b)


def nothing(a, b):
    return z3.BoolVal(True)


def routing(run):
    """where an id is kept depends on the id and the number of collections"""
    _, mod = load()

    def h():
        w = World(mod)
        c = ctx()
        route, t, x = w.route_term()
        k = c.fresh('id', Key)
        for d in w.route_defs:
            if not mentions_has(d):
                c.assume(z3.substitute(d, (x, k)))
        c.prove('Group routing: to one of the collections', z3.And(route(k) >= 0, route(k) < w.n))
        free = symbols(t)
        c.prove('Group routing: depends on the id and the number of collections only',
                PROCHASH.name() not in free and free <= ALLOWED | {x.decl().name(),
                                                                    w.n.decl().name()},
                str(sorted(free)))
    run.explore('Group routing', h)
    run.covers('citrine.storage.group:get_group_index', 'citrine.storage.group:groupfn')


ALLOWED = {'keynum', 'emod', 'ediv', 'keylen', 'keynum_little_False', 'keynum_little_True',
           'keynum_big_True'}


def symbols(t):
    todo, seen, out = [t], set(), set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        todo += x.children()
    return out


NPAIRS = [0, 1]


def ops(run, names):
    _, mod = load()

    def both(f):
        return lambda: (lambda g: (g, g))(f())

    def two(m):
        def make():
            k, v = key(), val()
            if ctx().choose(['positional', 'keywords']) == 'positional':
                return lambda o: getattr(o, m)(k, v)
            return lambda o: getattr(o, m)(k, v) if isinstance(o, Spec) else \
                getattr(o, m)(key=k, value=v)
        return make

    def get():
        k, v = key(), val('default')
        how = ctx().choose(['none', 'value', 'kw'])
        if how == 'none':
            return lambda o: o.get(k)
        if how == 'kw':
            return lambda o: o.get(k, default=v)
        return lambda o: o.get(k, v)

    def pop():
        k, v = key(), val('default')
        if ctx().choose([0, 1]):
            return lambda o: o.pop(k, v)
        return lambda o: o.pop(k)

    def has_key():
        k = key()
        return lambda o: o.has_key(k)

    def update_pairs():
        n = ctx().choose(NPAIRS)
        ks = [key(f'key{i}') for i in range(n)]
        vs = [val(f'value{i}') for i in range(n)]
        if n == 2:
            ctx().assume(ks[0].t != ks[1].t)

        def real(o):
            d = {}
            for k, v in zip(ks, vs):
                dict.__setitem__(d, k, v)
            return o.update(d)
        return real, lambda o: o.update(list(zip(ks, vs)))

    def update_mapping():
        m = Mapping('m')
        return lambda o: o.update(m), lambda o: o.update_all(m)

    def extreme(n):
        def make():
            if ctx().choose(['bound', 'none']) == 'none':
                return lambda o: getattr(o, n)()
            k = key('bound')
            return lambda o: getattr(o, n)(k)
        return make

    makers = {
        'minKey': (both(extreme('minKey')), equal, False),
        'maxKey': (both(extreme('maxKey')), equal, False),
        'popitem': (both(lambda: lambda o: o.popitem()), equal, False),
        'update': (update_mapping, nothing, True),
        'get': (both(get), equal, False),
        'has_key': (both(has_key), truth_result, False),
        'insert': (both(two('insert')), truth_result, True),
        'setdefault': (both(two('setdefault')), equal, True),
        'pop': (both(pop), equal, False),
        'clear': (both(lambda: lambda o: o.clear()), nothing, False),
        'update with one or none': (update_pairs, nothing, True),
    }
    for n in names:
        operation(run, mod, n, *makers[n])


# ------------------------------------------------------------------ listings
def listing(run):
    """keys, values and items: every stored id exactly once, with its object"""
    _, mod = load()
    for what in ('keys', 'values', 'items'):
        def h(what=what):
            w = World(mod)
            route = w.well_formed()
            c = ctx()
            view = getattr(w.group, what)()
            n = hooks.h_len(view)
            c.prove(f'Group.{what}: as many as are stored', it(n) == Spec(w).total())
            s = hooks.drain(view)
            if not isinstance(s, PvxSeq):
                raise Unsupported('a listing that is no sequence')
            has, val_ = w.store.f['has'], w.store.f['val']
            p, q = c.fresh('p', s.sort), c.fresh('q', s.sort)
            k = c.fresh('stored', Key)

            def parts(e):
                if what == 'keys':
                    return e.t, None
                return (None, e.t) if what == 'values' else (e[0].t, e[1].t)

            def cands():
                if s.sort == I or s.sort == Key:
                    return []
                return [s.sort.constructor(0)(route(k), k)]
            c.choose_ = None
            case = c.choose(['from', 'to'])
            if case == 'from':
                c.assume(s.member(p))
                ek, ev = parts(s.elem(p))
                if ek is None:
                    # which id it belongs to is told by the place
                    ek = s.sort.accessor(0, 1)(p) if s.sort not in (I, Key) else p
                c.prove(f'Group.{what}: only what is stored', has(route(ek), ek))
                if ev is not None:
                    c.prove(f'Group.{what}: with its object', ev == val_(route(ek), ek))
                c.assume(s.member(q))
                ek2, _ = parts(s.elem(q))
                if ek2 is None:
                    ek2 = s.sort.accessor(0, 1)(q) if s.sort not in (I, Key) else q
                c.prove(f'Group.{what}: each id once', z3.Implies(ek == ek2, p == q))
            else:
                c.assume(has(route(k), k))
                some = []
                for x in cands():
                    ek, ev = parts(s.elem(x))
                    some.append(z3.And(s.member(x), (ek == k) if ek is not None
                                       else ev == val_(route(k), k)))
                c.prove(f'Group.{what}: everything that is stored', z3.Or(*some))
        run.explore(f'Group.{what}', h)
    run.covers(*['citrine.storage.group:' + x for x in (
        'Group.keys', 'Group.values', 'Group.items', 'GroupView.__iter__', 'GroupView.__len__',
        'GroupKeys.fn', 'GroupValues.fn', 'GroupItems.fn')])


# ------------------------------------------------------------------ sizes
def worst(name, w, r, f, high=True):
    """r is the highest (lowest) of f over the collections"""
    c = ctx()
    q = z3.Const(c.name_of('wq'), I)
    j = c.fresh('some', I)
    rng = z3.And(j >= 0, j < w.n)
    c.prove(f'{name}: no collection beyond it',
            z3.Implies(rng, f(j) <= rt(r) if high else rt(r) <= f(j)))
    c.prove(f'{name}: that of a collection',
            z3.Exists([q], z3.And(q >= 0, q < w.n, rt(r) == f(q))))


def metrics(run):
    _, mod = load()

    def h():
        w = World(mod)
        c = ctx()
        g, spec = w.group, Spec(w)
        c.prove('Group.size', it(g.size) == spec.total())
        c.prove('Group.max_size', it(g.max_size) == spec.limit())
        u = g.usage
        c.prove('Group.usage', rt(u) * rt(g.max_size) == rt(g.size))
    run.explore('Group sizes', h)

    def h2():
        w = World(mod)
        cap = w.store.f['cap']
        worst('Group.max_collection_size', w, w.group.max_collection_size,
              lambda j: z3.ToReal(cap(j)))
    run.explore('Group.max_collection_size', h2)

    def h3():
        w = World(mod)
        cap, card = w.store.f['cap'], w.store.f['card']
        worst('Group.status', w, w.group.status,
              lambda j: z3.ToReal(maps.status_term(card(j), cap(j))))
    run.explore('Group.status', h3)
    for n, high in (('highest_collection_usage', True), ('lowest_collection_usage', False)):
        def h4(n=n, high=high):
            w = World(mod)
            c = ctx()
            cap, card = w.store.f['cap'], w.store.f['card']
            worst(f'Group.{n}', w, getattr(w.group, n),
                  lambda j: QUOT(z3.ToReal(card(j)), z3.ToReal(cap(j))), high)
        run.explore(f'Group.{n}', h4)
    run.covers(*['citrine.storage.group:' + x for x in (
        'GroupMeta.size', 'GroupMeta.max_size', 'GroupMeta.usage', 'GroupMeta.status',
        'GroupMeta.max_collection_size', 'GroupMeta.collection_usage',
        'GroupMeta.highest_collection_usage', 'GroupMeta.lowest_collection_usage',
        'Group.size', 'Group.max_size', 'Group.usage', 'Group.status')])


def strictness(run):
    _, mod = load()

    def h():
        w = World(mod)
        c = ctx()
        spec = Spec(w)
        c.prove('Group.strict: strict iff all of its collections are',
                truthy(w.group.strict) == spec.all_strict())
        v = PvxBool(c.fresh('wanted', B))
        stored = Stored(w.group)
        w.group.strict = v
        stored.check('Group.strict')
        j = c.fresh('col', I)
        c.assume(z3.And(j >= 0, j < w.n))
        st = w.store.f['strict']
        c.prove('Group.strict: setting it sets it on every collection', st(j) == v.t)
        for f in ('cap', 'card'):
            c.prove('Group.strict: setting it changes nothing else',
                    w.store.f[f](j) == spec.store.f[f](j))
        k = c.fresh('any', Key)
        c.prove('Group.strict: setting it changes nothing else', z3.And(
            w.store.f['has'](j, k) == spec.store.f['has'](j, k),
            w.store.f['val'](j, k) == spec.store.f['val'](j, k)))
        c.prove('Group.strict: afterwards it reads as set', truthy(w.group.strict) == v.t)

    def bad():
        c = ctx()
        w = World(mod)
        spec = Spec(w)
        v = c.choose([None, 0, 1, 'yes', object()])
        kind, e = outcome(lambda: setattr(w.group, 'strict', v))
        c.prove('Group.strict: only true or false', kind == 'exc' and isinstance(e, TypeError), repr(e))
        j = c.fresh('col', I)
        c.assume(z3.And(j >= 0, j < w.n))
        c.prove('Group.strict: a refusal changes nothing',
                w.store.f['strict'](j) == spec.store.f['strict'](j))
    run.explore('Group.strict', h)
    run.explore('Group.strict, anything else', bad)
    run.covers('citrine.storage.group:Group.strict', 'citrine.storage.group:Group.__init__')


def new(run):
    """Group.new(size, max_collection_size, strict) without custom sizes"""
    _, mod = load()

    def h():
        c = ctx()
        n, cap = c.fresh('size', I), c.fresh('max_collection_size', I)
        st = PvxBool(c.fresh('strict', B))
        c.assume(n >= 1)
        kind, g = outcome(lambda: mod.Group.new(size=PvxInt(n), max_collection_size=PvxInt(cap),
                                                strict=st))
        if kind == 'exc':
            c.prove('Group.new: refuses a limit that is not positive',
                    z3.And(cap <= 0, isinstance(g, ValueError)), repr(g))
            return
        c.prove('Group.new: the limit is positive', cap > 0)
        cols = hooks.as_seq(g.collections)
        c.prove('Group.new: as many collections as asked for', it(hooks.h_len(g.collections)) == n)
        j = c.fresh('col', I)
        c.assume(z3.And(j >= 0, j < n))
        col = cols.elem(j)
        c.prove('Group.new: each with the limit asked for', it(col.max_size) == cap)
        c.prove('Group.new: each with the strictness asked for', truthy(col.strict) == st.t)
        c.prove('Group.new: each empty', it(col.size) == 0)
        c.prove('Group.new: strictness', truthy(g.strict) == st.t)
    run.explore('Group.new', h)
    run.covers('citrine.storage.group:Group.new', 'citrine.storage.group:Group.__init__')

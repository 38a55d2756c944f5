"""C01-C11: the object store (collections, groups, containers, connections)."""
import itertools
import os
from fractions import Fraction

from bounded.harness import (V, NPAL, Violation, check, ok, outcome, processes, raises,
                             same, short)

SENT = object()
SENT2 = object()


def lib():
    import citrine.storage.collection as collection
    import citrine.storage.container as container
    import citrine.storage.group as group
    return collection, group, container


def errors():
    c, g, _ = lib()
    return (c.CollectionCapacityError, g.GroupCapacityError)


# keys: chosen so that small collection counts get both collisions and spread
KEYS = ['a', 'b', 'c', 'd', '', 'aa', 'ab', 'é', '\x00', 'Z', '0', 'a ', '日本',
        'x' * 40, '\U0001f600', 'A', 'https://e.org/1', 'https://e.org/2', '\n', 'ba']

_route = {}


def route(key, n):
    """which of n collections holds the key, observed on a probe group"""
    if (key, n) not in _route:
        c, g, _ = lib()
        probe = g.Group.new(size=n, max_collection_size=10, strict=False)
        probe.insert(key, 1)
        hits = [i for i, col in enumerate(probe.collections) if col.size]
        check(len(hits) == 1, 'inserting one key must use one collection', key, n, hits)
        _route[key, n] = hits[0]
    return _route[key, n]


class GM:
    """model of a group: one map, plus limits per collection"""

    def __init__(self, caps, items, strict):
        self.caps = list(caps)
        self.stricts = list(strict) if isinstance(strict, (list, tuple)) else [strict] * len(caps)
        self.d = {}
        for k, vi in items:
            self.d.setdefault(k, V(vi))
        self.n = len(caps)

    @property
    def strict(self):
        return all(self.stricts)

    @strict.setter
    def strict(self, v):
        self.stricts = [v] * len(self.caps)

    def count(self, i, extra=()):
        return sum(1 for k in set(self.d) | set(extra) if route(k, self.n) == i)

    def fits(self, new):
        """whether the new keys can be stored without exceeding a limit"""
        new = [k for k in new if k not in self.d]
        if not new:
            return True
        if self.strict and len(self.d) + len(set(new)) > sum(self.caps):
            return False
        return all(self.count(i, new) <= self.caps[i]
                   for i in {route(k, self.n) for k in new} if self.stricts[i])

    def copy(self):
        m = GM(self.caps, [], self.stricts)
        m.d = dict(self.d)
        return m


def build_group(caps, items, strict):
    c, g, _ = lib()
    grp = g.Group(collections=tuple(c.Collection(max_size=x, strict=False) for x in caps),
                  strict=False)
    for k, vi in items:
        grp.insert(k, V(vi))
    if isinstance(strict, (list, tuple)):
        for col, v in zip(grp.collections, strict):
            col.strict = v
    else:
        grp.strict = strict
    return grp


def group_state(grp):
    return [dict(col.items()) for col in grp.collections]


def check_group(grp, m, universe=(), what='group'):
    for k in set(universe) | set(m.d) | {'zz-absent'}:
        check(bool(grp.has_key(k)) == (k in m.d), f'{what}: has_key({k!r})', grp.has_key(k), m.d)
        got = grp.get(k, SENT)
        check(same(got, m.d.get(k, SENT)), f'{what}: get({k!r})', got, m.d)
    keys = list(grp.keys())
    check(sorted(keys) == sorted(m.d), f'{what}: keys()', keys, m.d)
    items = list(grp.items())
    check(len(items) == len(m.d) and all(k in m.d and same(v, m.d[k]) for k, v in items),
          f'{what}: items()', items, m.d)
    check(len(list(grp.values())) == len(m.d), f'{what}: values()')
    check(len(grp.keys()) == len(m.d), f'{what}: len(keys())', len(grp.keys()), m.d)
    check(grp.size == len(m.d), f'{what}: size', grp.size, m.d)


def apply_group_op(grp, m, op):
    """runs op on both; every deviation from the single-map reading is a violation"""
    name, args = op[0], op[1:]
    before = group_state(grp)

    def unchanged(what):
        after = group_state(grp)
        check(len(before) == len(after) and
              all(set(a) == set(b) and all(same(a[k], b[k]) for k in a)
                  for a, b in zip(before, after)), what + ' changed stored contents',
              before, after)

    if name == 'insert':
        k, v = args[0], V(args[1])
        if not m.fits([k]):
            raises(lambda: grp.insert(k, v), errors(), f'insert({k!r}) over the limit')
            unchanged('refused insert')
        else:
            r = ok(lambda: grp.insert(k, v), f'insert({k!r})')
            check(bool(r) == (k not in m.d), f'insert({k!r}) result', r)
            m.d.setdefault(k, v)
    elif name == 'setdefault':
        k, v = args[0], V(args[1])
        if not m.fits([k]):
            raises(lambda: grp.setdefault(k, v), errors(), f'setdefault({k!r}) over the limit')
            unchanged('refused setdefault')
        else:
            r = ok(lambda: grp.setdefault(k, v), f'setdefault({k!r})')
            check(same(r, m.d.get(k, v)), f'setdefault({k!r}) result', r)
            m.d.setdefault(k, v)
    elif name == 'update':
        new = {k: V(vi) for k, vi in args[0]}
        if not m.fits(new):
            raises(lambda: grp.update(dict(new)), errors(), f'update({short(new)}) over the limit')
            unchanged('refused update')
        else:
            ok(lambda: grp.update(dict(new)), f'update({short(new)})')
            m.d.update(new)
    elif name == 'pop':
        k = args[0]
        if k in m.d:
            r = ok(lambda: grp.pop(k), f'pop({k!r})')
            check(same(r, m.d.pop(k)), f'pop({k!r}) result', r)
        else:
            raises(lambda: grp.pop(k), KeyError, f'pop({k!r}) of an absent key')
            unchanged('pop of an absent key')
    elif name == 'popd':
        k = args[0]
        r = ok(lambda: grp.pop(k, SENT2), f'pop({k!r}, default)')
        check(same(r, m.d.pop(k, SENT2)), f'pop({k!r}, default) result', r)
    elif name == 'popitem':
        if m.d:
            r = ok(lambda: grp.popitem(), 'popitem()')
            k = min(m.d)
            check(isinstance(r, tuple) and len(r) == 2 and r[0] == k and same(r[1], m.d[k]),
                  'popitem() result', r, k)
            del m.d[k]
        else:
            raises(lambda: grp.popitem(), KeyError, 'popitem() of an empty group')
    elif name == 'clear':
        ok(lambda: grp.clear(), 'clear()')
        m.d.clear()
    elif name == 'strict':
        ok(lambda: setattr(grp, 'strict', args[0]), 'strict = ...')
        m.strict = args[0]
        check(grp.strict is args[0], 'strict', grp.strict)
    elif name == 'colstrict':
        i, v = args[0] % m.n, args[1]
        ok(lambda: setattr(grp.collections[i], 'strict', v), 'strict = ... of a collection')
        m.stricts[i] = v
        check(grp.strict is m.strict, 'strict', grp.strict)
    elif name == 'getkw':
        k = args[0]
        check(same(grp.get(key=k, default=SENT), m.d.get(k, SENT)), f'get(key={k!r})')
    elif name == 'getnone':
        k = args[0]
        check(same(grp.get(k), m.d.get(k)), f'get({k!r}) without default')
    else:
        raise AssertionError(name)


# ---------------------------------------------------------------- runners: group
def r_group(caps, items, strict, ops, full=True):
    m = GM(caps, items, strict)
    grp = build_group(caps, items, strict)
    universe = {k for k, _ in items} | {o[1] for o in ops if len(o) > 1 and isinstance(o[1], str)}
    for o in ops:
        if o[0] == 'update':
            universe |= {k for k, _ in o[1]}
    check_group(grp, m, universe, 'initially')
    before = sizes(grp)
    for o in ops:
        apply_group_op(grp, m, o)
        if full:
            check_group(grp, m, universe, f'after {short(o)}')
        check_limits(grp, before, m.stricts)
        before = sizes(grp)


def sizes(grp):
    return [len(list(col.keys())) for col in grp.collections]


def check_limits(grp, before=None, stricts=None):
    """nothing exceeds its maximum (or, if it did so before strictness was
    switched on, has grown any further)"""
    now = sizes(grp)
    before = before or [0] * len(now)
    for i, col in enumerate(grp.collections):
        if stricts and not stricts[i]:
            continue
        check(now[i] <= max(col.max_size, before[i]),
              f'collection {i} holds more than its maximum', now[i], col.max_size)
    if stricts and not all(stricts):
        return
    cap = sum(c.max_size for c in grp.collections)
    check(sum(now) <= max(cap, sum(before)), 'group holds more than its maximum', now, cap)


def r_collection(cap, items, strict, ops):
    """a single collection on its own"""
    c, _, _ = lib()
    col = c.Collection(max_size=cap, strict=False)
    d = {}
    for k, vi in items:
        col.insert(k, V(vi))
        d.setdefault(k, V(vi))
    ok(lambda: setattr(col, 'strict', strict), 'strict = ...')
    check(col.strict is strict, 'strict')

    def state():
        return dict(col.items())

    def compare(what):
        s = state()
        check(set(s) == set(d) and all(same(s[k], d[k]) for k in d), f'{what}: contents', s, d)
        check(col.size == len(d), f'{what}: size', col.size, len(d))
        for k in list(d) + ['zz-absent']:
            check(bool(col.has_key(k)) == (k in d), f'{what}: has_key', k)
            check(same(col.get(k, SENT), d.get(k, SENT)), f'{what}: get', k)
    compare('initially')
    n0 = len(state())
    for o in ops:
        name = o[0]
        if name in ('insert', 'setdefault'):
            k, v = o[1], V(o[2])
            full = strict and k not in d and len(d) >= cap
            if full:
                raises(lambda: getattr(col, name)(k, v), errors(), f'{name}({k!r}) when full')
            else:
                r = ok(lambda: getattr(col, name)(k, v), f'{name}({k!r})')
                if name == 'insert':
                    check(bool(r) == (k not in d), 'insert result', r)
                else:
                    check(same(r, d.get(k, v)), 'setdefault result', r)
                d.setdefault(k, v)
        elif name == 'update':
            new = {k: V(vi) for k, vi in o[1]}
            added = [k for k in new if k not in d]
            if strict and added and len(d) + len(added) > cap:
                raises(lambda: col.update(dict(new)), errors(), 'update when full')
            else:
                ok(lambda: col.update(dict(new)), f'update({short(new)})')
                d.update(new)
        elif name == 'pop':
            k = o[1]
            if k in d:
                check(same(ok(lambda: col.pop(k), 'pop'), d.pop(k)), 'pop result', k)
            else:
                raises(lambda: col.pop(k), KeyError, 'pop of an absent key')
        elif name == 'clear':
            ok(lambda: col.clear(), 'clear')
            d.clear()
        compare(f'after {short(o)}')
        if strict:
            check(len(state()) <= max(cap, n0), 'collection exceeds its maximum', len(state()), cap)
        n0 = len(state())


def r_routing(key, n, vi):
    """every operation uses the same collection for a key, whatever is stored"""
    c, g, _ = lib()
    i = route(key, n)
    for fill in (0, 3):
        grp = g.Group.new(size=n, max_collection_size=50, strict=False)
        for j in range(fill * n):
            grp.insert(f'f{j}', j)
        where = lambda: [x for x, col in enumerate(grp.collections) if col.has_key(key)]  # noqa
        grp.insert(key, V(vi))
        check(where() == [i], 'insert uses another collection', key, n, where(), i)
        grp.pop(key)
        check(where() == [], 'pop leaves the key')
        grp.update({key: V(vi)})
        check(where() == [i], 'update uses another collection', key, n)
        grp.clear()
        grp.setdefault(key, V(vi))
        check(where() == [i], 'setdefault uses another collection', key, n)
        check(grp.has_key(key) and same(grp.get(key, SENT), V(vi)), 'not found after setdefault')


# ---------------------------------------------------------------- runners: container
class CM:
    def __init__(self, groups):
        self.groups = groups

    def read(self, k, default):
        for g in self.groups:
            if k in g.d:
                return g.d[k]
        return default

    def ids(self):
        return {k for g in self.groups for k in g.d}


def build_container(groups, strict=False, position=0):
    """groups: list of (caps, items, strict); the first one is the primary. The
    primary may be handed over in any position of the groups tuple"""
    _, _, ct = lib()
    real = [build_group(*g) for g in groups]
    models = [GM(*g) for g in groups]
    rest = list(real[1:])
    if position is None:
        given = tuple(rest)
    else:
        given = tuple(rest[:position] + [real[0]] + rest[position:])
    con = ct.Container(real[0], groups=given, strict=strict)
    models[0].strict = strict
    check(con.groups[0] is real[0] and con.primary is real[0]
          and list(con.groups) == real, 'the primary must be the first of the groups')
    return con, CM(models)


def check_container(con, m, universe, what):
    for k in set(universe) | m.ids() | {'zz-absent'}:
        n = sum(1 for g in m.groups if k in g.d)
        check(bool(con.has(k)) == (n > 0), f'{what}: has({k!r})', con.has(k), n)
        check((k in con) is (n > 0), f'{what}: {k!r} in container', n)
        got = ok(lambda: con.read(k, SENT), f'{what}: read({k!r})')
        check(same(got, m.read(k, SENT)), f'{what}: read({k!r})', got, m.read(k, 'DEFAULT'))
        check(same(con.read(k), m.read(k, None)), f'{what}: read({k!r}) without default')


def apply_container_op(con, m, op):
    name = op[0]
    if name == 'write':
        k, v = op[1], V(op[2])
        p = m.groups[0]
        if not p.fits([k]):
            raises(lambda: con.write(k, v), errors(), f'write({k!r}) over the limit')
        else:
            ok(lambda: con.write(k, v), f'write({k!r})')
            p.d[k] = v
            got = con.read(k, SENT)
            check(same(got, v), f'read({k!r}) after write', got, v)
            check(bool(con.has(k)), f'has({k!r}) after write')
    elif name == 'delete':
        k = op[1]
        expected = [g.d.pop(k) for g in m.groups if k in g.d]
        r = ok(lambda: con.delete(k), f'delete({k!r})')
        check(isinstance(r, (tuple, list)) and len(r) == len(expected) and
              all(same(a, b) for a, b in zip(r, expected)),
              f'delete({k!r}) result', r, expected)
    elif name == 'strict':
        con.strict = op[1]
        m.groups[0].strict = op[1]
    else:
        raise AssertionError(name)


def r_container(groups, strict, ops, position=0, persist=False):
    con, m = build_container(groups, strict, position)
    universe = {o[1] for o in ops if isinstance(o[1], str)}
    check_container(con, m, universe, 'initially')
    if persist:
        return persistent(con, m, ops, universe)
    for o in ops:
        before = [dict(g.d) for g in m.groups]
        apply_container_op(con, m, o)
        check_container(con, m, universe, f'after {short(o)}')
        for i, (g, gm) in enumerate(zip(con.groups, m.groups)):
            check(sorted(g.keys()) == sorted(gm.d), f'after {short(o)}: group {i} keys',
                  list(g.keys()), gm.d)
    del before


def persistent(con, m, ops, universe):
    """the same with every operation committed and read back by a fresh connection"""
    import transaction
    from ZODB import DB
    from ZODB.MappingStorage import MappingStorage
    db = DB(MappingStorage())
    try:
        tm = transaction.TransactionManager()
        c = db.open(tm)
        c.root.container = con
        tm.commit()
        for o in ops:
            apply_container_op(c.root.container, m, o)
            tm.commit()
            tm2 = transaction.TransactionManager()
            c2 = db.open(tm2)
            c2.cacheMinimize()
            check_container(c2.root.container, m, universe, f'reopened after {short(o)}')
            tm2.abort()
            c2.close()
        tm.abort()
        c.close()
    finally:
        db.close()


# ---------------------------------------------------------------- sizing
def is_prime(n):
    return n >= 2 and all(n % d for d in range(2, int(n ** .5) + 1))


def r_sizing(capacity, limit, strict=None):
    import citrine.storage.utils as u
    need = -(-capacity // limit)
    expect = need
    while not (expect == 1 or is_prime(expect)):
        expect += 1
    if strict is None:
        n = ok(lambda: u.number_of_collections(capacity, max_collection_size=limit),
               'number_of_collections')
        check(n == expect, f'number_of_collections({capacity}, {limit})', n, expect)
        return
    _, _, ct = lib()
    con = ok(lambda: ct.Container.new(capacity=capacity, collection_max_size=limit, strict=strict),
             'Container.new')
    g = con.primary
    check(len(g.collections) == expect, 'number of collections', len(g.collections), expect)
    check(con.capacity >= capacity and g.max_size >= capacity, 'capacity', con.capacity, capacity)
    check(sum(c.max_size for c in g.collections) == con.capacity, 'capacity is the sum')
    for c in g.collections:
        check(c.max_size <= limit, 'collection larger than the limit', c.max_size, limit)
        check(c.strict is strict, 'strictness of a collection', c.strict, strict)
    check(con.strict is strict and g.strict is strict, 'strictness', con.strict, g.strict, strict)
    check(len({c.uuid for c in g.collections}) == expect, 'collection uuids are distinct')
    check(con.size == 0 and con.groups == (g,), 'new container is empty with one group')


def r_fill(capacity, limit):
    """a new strict container refuses exactly what does not fit, per collection"""
    _, _, ct = lib()
    con = ct.Container.new(capacity=capacity, collection_max_size=limit, strict=True)
    g = con.primary
    caps = [c.max_size for c in g.collections]
    m = GM(caps, [], True)
    for j in range(sum(caps) * 3 + 3):
        k = f'k{j}'
        if m.fits([k]):
            ok(lambda: con.write(k, j), f'write({k!r})')
            m.d[k] = j
        else:
            raises(lambda: con.write(k, j), errors(), 'write over the limit')
        check(con.size == len(m.d), 'size', con.size, len(m.d))
    check_limits(g)


def r_primes(lo, hi):
    import citrine.storage.utils as u
    got = ok(lambda: list(itertools.islice(u.get_primes(lo, hi), 10000)), 'get_primes')
    expect = [x for x in range(lo, hi + 1) if x == 1 or is_prime(x)]
    check(got == expect, f'get_primes({lo}, {hi})', got, expect)


def r_group_new(size, limit, strict, custom):
    c, g, _ = lib()
    kw = dict(max_collection_size=limit, strict=strict)
    if size is not None:
        kw['size'] = size
    cust = None if custom is None else {(int(k) if k.lstrip('-').isdigit() else k): v
                                        for k, v in custom.items()}
    if cust is not None:
        kw['custom'] = dict(cust)
    what = f'Group.new({kw})'
    if cust:
        if not all(isinstance(k, int) for k in cust) or size and size < max(cust):
            raises(lambda: g.Group.new(**kw), KeyError, what)
            return
        n = max(size or 0, max(cust) + 1)
        caps = [cust.get(i, limit) for i in range(n)]
    else:
        if not size:
            raises(lambda: g.Group.new(**kw), ValueError, what)
            return
        caps = [limit] * size
    if any(x <= 0 for x in caps):
        raises(lambda: g.Group.new(**kw), ValueError, what)
        return
    grp = ok(lambda: g.Group.new(**kw), what)
    check([x.max_size for x in grp.collections] == caps, f'{what}: collection limits',
          [x.max_size for x in grp.collections], caps)
    check(grp.strict is strict and all(x.strict is strict for x in grp.collections), f'{what}: strictness')
    check(grp.max_size == sum(caps) and grp.size == 0, f'{what}: an empty group', grp.max_size, grp.size)
    check(kw.get('custom', cust) == cust, f'{what}: the definition was changed', kw.get('custom'), cust)


# ---------------------------------------------------------------- resize / condense
class Tm:
    """transaction manager stand-in: looks at the container at each commit"""

    def __init__(self, look, fail_at=None):
        self.look, self.fail_at, self.commits = look, fail_at, 0
        self.inside = False

    def begin(self):
        pass

    def __enter__(self):
        self.inside = True
        return self

    def commit(self):
        self.commits += 1
        if self.fail_at is not None and self.commits == self.fail_at:
            raise Injected('commit failed')
        self.look()

    def abort(self):
        pass

    def __exit__(self, et, ev, tb):
        self.inside = False
        if ev is None:
            self.look()


class Injected(Exception):
    pass


# exceptions of other kinds too, some of them no Exception
INJECT = {'raise': Injected, **{k.__name__: k for k in (
    KeyError, ValueError, AttributeError, StopIteration, OSError, RuntimeError, AssertionError,
    KeyboardInterrupt, SystemExit, GeneratorExit)}}


def comes_out(fn, err, what):
    """the exception itself comes out of fn()"""
    try:
        got = fn()
    except type(err) as e:
        check(e is err, f'{what}: another exception', e)
    except Exception as e:       # noqa
        check(False, f'{what}: another exception', e)
    else:
        check(False, f'{what}: {type(err).__name__} was not passed on', got)


def readable(con, expect, what):
    for k, v in expect.items():
        got = outcome(lambda: con.read(k, SENT))
        check(got[0] == 'ok' and same(got[1], v), f'{what}: {k!r} no longer reads as before',
              got[1] if got[1] is not SENT else 'ABSENT', v)
        check(bool(con.has(k)), f'{what}: has({k!r})')
    check(con.read('zz-absent', SENT) is SENT, f'{what}: an absent id reads as something')


def structure(con):
    return [(id(g), sorted(g.keys()), g.size) for g in con.groups]


def do_resize(con, action):
    if action['op'] == 'condense':
        kw = {k: action[k] for k in ('transfer',) if k in action}
        return lambda tm: con.condense(transaction_manager=tm, **kw)
    kw = {k: action[k] for k in ('condense', 'transfer') if k in action}
    if 'limit' in action:
        kw['max_collection_size'] = action['limit']
    return lambda tm: con.resize(action['capacity'], transaction_manager=tm, **kw)


def r_resize(groups, strict, actions, tm=None, fail_at=None):
    """tm: None (no transaction manager) or 'stub'"""
    con, m = build_container(groups, strict)
    expect = {k: m.read(k, None) for k in m.ids()}
    for no, action in enumerate(actions):
        what = f'{action}'
        before = structure(con)
        groups_before = list(con.groups)
        total = con.size
        call = do_resize(con, action)
        last = [before]      # with no commit at all nothing may have happened

        def look():
            readable(con, expect, f'commit during {what}')
            last[0] = structure(con)
        t = None
        if tm:
            t = Tm(look, fail_at)
        kind, val = outcome(lambda: call(t))
        transfer = action.get('transfer', True)
        if action['op'] == 'resize' and action['capacity'] < total:
            check(kind == 'exc' and isinstance(val, ValueError),
                  f'{what} with {total} stored objects was not refused', val)
            check(structure(con) == before, f'refused {what} changed the container')
            continue
        readable(con, expect, f'after {what}')
        if kind == 'exc':
            if isinstance(val, Injected):
                return
            check(isinstance(val, errors()) and con.primary.strict,
                  f'{what} failed with {type(val).__name__}: {val}')
            if not tm:
                check(con.primary.strict is strict, 'strictness after failure')
            return
        if tm:
            check(last[0] == structure(con), f'{what}: the last commit lacks part of the operation',
                  last[0], structure(con))
        check(con.groups[0] is con.primary, f'{what}: primary first')
        check(con.strict is strict, f'{what}: strictness', con.strict)
        if action['op'] == 'resize':
            check(con.capacity >= action['capacity'], f'{what}: capacity', con.capacity)
            check(all(con.primary is not g for g in groups_before), f'{what}: new primary')
            if 'limit' in action:
                check(all(c.max_size <= action['limit'] for c in con.primary.collections),
                      f'{what}: collection limit')
            sources = groups_before if action.get('condense', False) else groups_before[:1]
        else:
            check(con.primary is groups_before[0], f'{what}: primary kept')
            sources = groups_before[1:]
        others = [g for g in groups_before
                  if not any(g is s for s in sources) and g is not con.primary]
        if transfer:
            check(len(val) == len(sources) and all(any(v is s for v in val) for s in sources),
                  f'{what}: returned groups', val, sources)
            check(all(s.size == 0 for s in sources), f'{what}: emptied groups',
                  [s.size for s in sources])
            check(list(con.groups) == [con.primary] + others, f'{what}: remaining groups')
        else:
            check(list(val or []) == [], f'{what}: returned groups', val)
            keep = [g for g in groups_before if g is not con.primary]
            check(list(con.groups) == [con.primary] + keep, f'{what}: remaining groups')
            now = {i: (k, n) for i, k, n in structure(con)}
            check(all(now[i] == (k, n) for i, k, n in before if i != id(con.primary)),
                  f'{what}: a group was emptied although transfer is off')


def r_resize_db(groups, strict, action, kind='tm', fail_at=None):
    """real database: a second connection reads the committed state at each commit"""
    import transaction
    from ZODB import DB
    from ZODB.MappingStorage import MappingStorage
    from citrine.storage.transaction import TransactionManager, ThreadTransactionManager
    con, m = build_container(groups, strict)
    expect = {k: m.read(k, None) for k in m.ids()}
    num = len(con.groups)
    db = DB(MappingStorage())
    tm2 = transaction.TransactionManager()
    c2 = db.open(tm2)

    def committed():
        tm2.begin()
        return c2.root.container

    base = TransactionManager if kind == 'tm' else ThreadTransactionManager
    n = [0]

    class Watch(base):
        def commit(self):
            n[0] += 1
            if fail_at is not None and n[0] == fail_at:
                super().abort()
                raise Injected('commit failed')
            super().commit()
            if n[0]:
                readable(committed(), expect, f'committed state {n[0]} during {action}')
    try:
        tm = Watch()
        c = db.open(tm)
        c.root.container = con
        n[0] = -1
        tm.commit()
        n[0] = 0
        res, val = outcome(lambda: do_resize(con, action)(tm))
        if isinstance(val, Violation):
            raise val
        if res == 'exc':
            readable(con, expect, f'in memory after failed {action}')
            tm.abort()
            readable(committed(), expect, f'committed state after failed {action}')
            check(isinstance(val, Injected) or isinstance(val, ValueError) or
                  (isinstance(val, errors()) and strict), f'{action} failed', val)
            return
        shape = [(sorted(g.keys()), g.size) for g in con.groups]
        readable(con, expect, f'after {action}')
        tm.abort()
        done = [(sorted(g.keys()), g.size) for g in committed().groups]
        check(shape == done, f'{action}: the last commit lacks part of the operation', done, shape)
        gone = (num if action['op'] == 'resize' and action.get('condense', False) else
                num - 1 if action['op'] == 'condense' else 1) if action.get('transfer', True) else 0
        left = num + (action['op'] == 'resize') - gone
        check(len(done) == left, f'{action}: groups of the container in the last commit', done, left)
        if action['op'] == 'resize':
            check(committed().capacity >= action['capacity'], f'{action}: capacity in the last commit',
                  committed().capacity)
    finally:
        try:
            tm.abort()
            c.close()
            tm2.abort()
            c2.close()
        finally:
            db.close()


# ---------------------------------------------------------------- metrics
LEVELS = (0, 60, 70, 80, 90)


def status_of(size, cap):
    pct = -((-100 * size) // cap)
    return max(v for v in LEVELS if v <= pct)


def r_metrics(groups, strict=False, ops=()):
    con, m = build_container(groups, strict)
    for o in [None] + list(ops):
        if o is not None:
            apply_container_op(con, m, o)
        sizes, maxes = [], []
        for g, gm in zip(con.groups, m.groups):
            stats = []
            for i, col in enumerate(g.collections):
                n, cap = gm.count(i), gm.caps[i]
                check(col.size == n, 'collection size', col.size, n)
                check(col.max_size == cap, 'collection max_size', col.max_size, cap)
                check(Fraction(col.usage).limit_denominator(10 ** 9) == Fraction(n, cap),
                      'collection usage', col.usage, n, cap)
                st = status_of(n, cap)
                check(col.status == st, f'collection status with {n} of {cap}', col.status, st)
                stats.append(st)
            n, cap = len(gm.d), sum(gm.caps)
            check(g.size == n and g.max_size == cap, 'group size/max_size', g.size, g.max_size, n, cap)
            check(abs(g.usage - n / cap) < 1e-9, 'group usage', g.usage, n, cap)
            check(g.status == max(stats), 'group status', g.status, stats)
            check(g.max_collection_size == max(gm.caps), 'max_collection_size')
            us = [gm.count(i) / gm.caps[i] for i in range(gm.n)]
            check(abs(g.highest_collection_usage - max(us)) < 1e-9 and
                  abs(g.lowest_collection_usage - min(us)) < 1e-9, 'collection usage extremes')
            sizes.append(n)
            maxes.append(cap)
        check(con.size == sum(sizes) and con.max_size == sum(maxes), 'container size/max_size',
              con.size, con.max_size, sizes, maxes)
        check(con.used == sizes[0] and con.capacity == maxes[0], 'container used/capacity',
              con.used, con.capacity)
        check(abs(con.usage - sizes[0] / maxes[0]) < 1e-9, 'container usage', con.usage)
        check(con.status == con.primary.status, 'container status')


def r_status(size, cap):
    """status straight from the definition, for one fill level"""
    c, _, _ = lib()
    col = c.Collection(max_size=cap, strict=False)
    col.update({str(i): i for i in range(size)})
    check(col.size == size and col.status == status_of(size, cap),
          f'status with {size} of {cap}', col.status, status_of(size, cap))


def r_metrics_conn(groups, strict, ops):
    """the connection reports what the container reports"""
    with opened(groups, strict) as (conn, m, db):
        for o in [None] + list(ops):
            if o is not None:
                conn_op(conn, m, o)
            p = m.groups[0]
            check(conn.used == len(p.d), 'connection used', conn.used, len(p.d))
            check(conn.capacity == sum(p.caps), 'connection capacity', conn.capacity)
            check(abs(conn.usage - len(p.d) / sum(p.caps)) < 1e-9, 'connection usage', conn.usage)
            st = max(status_of(p.count(i), p.caps[i]) for i in range(p.n))
            check(conn.status == st, 'connection status', conn.status, st)
            check(conn.strict is p.strict, 'connection strict')


def r_strictness(groups, strict, steps):
    """strictness set on a connection, container, group or collection"""
    with opened(groups, strict) as (conn, m, db):
        now = [[g.strict] * g.n for g in m.groups]
        for where, gi, ci, v in steps:
            con = conn.container
            target = {'connection': lambda: conn, 'container': lambda: con,
                      'group': lambda: con.groups[gi],
                      'collection': lambda: con.groups[gi].collections[ci]}[where]()
            what = f'{where}.strict = {v!r}'
            if isinstance(v, bool):
                ok(lambda: setattr(target, 'strict', v), what)
                if where == 'collection':
                    now[gi][ci] = v
                else:
                    i = gi if where == 'group' else 0
                    now[i] = [v] * len(now[i])
            elif where != 'collection':
                raises(lambda: setattr(target, 'strict', v), (TypeError,), what)
            got = [[c.strict for c in g.collections] for g in con.groups]
            check(got == now, f'{what}: strictness of the collections', got, now)
            for g, x in zip(con.groups, now):
                check(g.strict is all(x), f'{what}: strictness of the group', g.strict, x)
            check(con.strict is all(now[0]) and conn.strict is con.strict,
                  f'{what}: strictness of the container', con.strict, conn.strict, now[0])
        ok(conn.transaction_manager.commit, 'commit')
        conn.cacheMinimize()
        got = [[c.strict for c in g.collections] for g in conn.container.groups]
        check(got == now, 'read again after the commit: strictness of the collections', got, now)
        check(sorted(conn.container.keys()) == sorted(m.ids()) if hasattr(conn.container, 'keys')
              else all(conn.container.has(k) for k in m.ids()), 'contents')


# ---------------------------------------------------------------- iteration
def r_iterate(caps, items, lo, hi, kw=False):
    m = GM(caps, items, False)
    grp = build_group(caps, items, False)
    keys = sorted(k for k in m.d if (lo is None or k >= lo) and (hi is None or k <= hi))
    if kw:
        ik, ii = (lambda: list(itertools.islice(grp.iterkeys(min=lo, max=hi), 1000)),
                  lambda: list(itertools.islice(grp.iteritems(min=lo, max=hi), 1000)))
    else:
        ik, ii = (lambda: list(itertools.islice(grp.iterkeys(lo, hi), 1000)),
                  lambda: list(itertools.islice(grp.iteritems(lo, hi), 1000)))
    got = ok(ik, f'iterkeys({lo!r}, {hi!r})')
    check(got == keys, f'iterkeys({lo!r}, {hi!r})', got, keys)
    got = ok(ii, f'iteritems({lo!r}, {hi!r})')
    check([k for k, _ in got] == keys and all(same(v, m.d[k]) for k, v in got),
          f'iteritems({lo!r}, {hi!r})', got, [(k, m.d[k]) for k in keys])
    for name, pick, bound, sel in (
            ('minKey', min, lo, [k for k in m.d if lo is None or k >= lo]),
            ('maxKey', max, hi, [k for k in m.d if hi is None or k <= hi])):
        if sel:
            got = ok(lambda: getattr(grp, name)(bound), f'{name}({bound!r})')
            check(got == pick(sel), f'{name}({bound!r})', got, pick(sel))
        else:
            raises(lambda: getattr(grp, name)(bound), ValueError, f'{name}({bound!r}) of nothing')
    check_group(grp, m, (), 'after iterating')


def r_values(caps, items, lo, hi, least, of='int'):
    """values are small, many of them the same"""
    grp = build_group(caps, [], False)
    make = {'int': int, 'list': lambda n: [n], 'str': str}[of]
    items = [(k, make(v)) for k, v in items]
    least = least if least is None else make(least)
    d = dict(items)
    for k, v in items:
        grp.insert(k, v)
    want = sorted(((v, k) for k, v in d.items() if least is None or v >= least), reverse=True)
    got = ok(lambda: list(grp.byValue(least)), f'byValue({least!r})')
    check(got == want, f'byValue({least!r}) of {items}', got, want)
    if least is None:
        check(ok(lambda: list(grp.byValue()), 'byValue()') == want, 'byValue()')
    want = sorted(v for k, v in d.items() if (lo is None or k >= lo) and (hi is None or k <= hi))
    got = ok(lambda: list(itertools.islice(grp.itervalues(lo, hi), 1000)), f'itervalues({lo!r}, {hi!r})')
    check(sorted(got) == want, f'itervalues({lo!r}, {hi!r}) of {items}', got, want)
    check({k: grp.get(k) for k in grp.keys()} == d, 'after going through the values')


def r_drain(caps, items):
    m = GM(caps, items, False)
    grp = build_group(caps, items, False)
    while m.d:
        apply_group_op(grp, m, ['popitem'])
        check_group(grp, m, (), 'after popitem')
    apply_group_op(grp, m, ['popitem'])
    for col in build_group(caps, items, False).collections:
        inside = dict(col.items())
        while inside:
            k, v = ok(lambda: col.popitem(), 'popitem of a collection')
            check(k == min(inside) and same(v, inside.pop(k)) and sorted(col.keys()) == sorted(inside),
                  'popitem of a collection', k, v, sorted(col.keys()))
        raises(lambda: col.popitem(), KeyError, 'popitem of an empty collection')


# ---------------------------------------------------------------- connections
class opened:
    """a real ContainerConnection over an in-memory database"""

    def __init__(self, groups, strict=False, autocommit=True, tm=None):
        self.args = groups, strict
        self.autocommit, self.tm = autocommit, tm

    def __enter__(self):
        import transaction
        from ZODB import DB
        from ZODB.MappingStorage import MappingStorage
        from citrine.database.containerdb import ContainerDb
        con, m = build_container(*self.args)
        storage = MappingStorage()
        db = DB(storage)
        t = transaction.TransactionManager()
        c = db.open(t)
        c.root.container = con
        t.commit()
        c.close()
        self.db = db
        from citrine.connection.container_connection import ContainerConnection
        kw = {}
        if self.tm is not None:
            kw['transaction_manager'] = self.tm
        if self.autocommit is not None:
            kw['autocommit'] = self.autocommit
        self.conn = ContainerConnection(db, **kw)
        self.storage = storage
        return self.conn, m, self

    def committed(self):
        import transaction
        t = transaction.TransactionManager()
        c = self.db.open(t)
        c.cacheMinimize()
        res = [dict(g.items()) for g in c.root.container.groups]
        t.abort()
        c.close()
        return res

    def __exit__(self, *a):
        try:
            self.conn.transaction_manager.abort()
        except Exception:       # noqa
            pass
        self.db.close()


def conn_op(conn, m, o):
    from citrine.exceptions import ObjectOverwriteError
    name = o[0]
    p = m.groups[0]
    if name == 'create':
        k, v = o[1], V(o[2])
        if k in m.ids():
            raises(lambda: conn.create(k, v), ObjectOverwriteError, f'create({k!r}) over an object')
        elif not p.fits([k]):
            raises(lambda: conn.create(k, v), errors(), f'create({k!r}) over the limit')
        else:
            ok(lambda: conn.create(k, v), f'create({k!r})')
            p.d[k] = v
    elif name == 'update':
        k, v = o[1], V(o[2])
        if not p.fits([k]):
            raises(lambda: conn.update(k, v), errors(), f'update({k!r}) over the limit')
        else:
            prev = m.read(k, None)
            r = ok(lambda: conn.update(k, v), f'update({k!r})')
            check(same(r, prev), f'update({k!r}) result', r, prev)
            p.d[k] = v
    elif name == 'delete':
        k = o[1]
        exp = [g.d.pop(k) for g in m.groups if k in g.d]
        r = ok(lambda: conn.delete(k), f'delete({k!r})')
        check(isinstance(r, (list, tuple)) and len(r) == len(exp) and
              all(same(a, b) for a, b in zip(r, exp)), f'delete({k!r}) result', r, exp)
    elif name == 'read':
        k = o[1]
        check(same(conn.read(k, SENT), m.read(k, SENT)), f'read({k!r})')
        check(same(conn.read(k), m.read(k, None)), f'read({k!r}) without default')
    elif name == 'item':
        k = o[1]
        if k in m.ids():
            r = ok(lambda: conn[k], f'[{k!r}]')
            check(same(r, m.read(k, None)), f'[{k!r}]', r)
        else:
            raises(lambda: conn[k], KeyError, f'[{k!r}] of an absent id')
    elif name == 'items':
        ids, how = o[1], o[2]
        arg = {'list': list, 'tuple': tuple, 'gen': iter, 'dict': dict.fromkeys}[how](ids)
        if any(k in m.ids() for k in ids):
            r = ok(lambda: conn[arg], f'[{ids!r}]')
            exp = [m.read(k, None) for k in ids]
            check(len(r) == len(exp) and all(same(a, b) for a, b in zip(r, exp)),
                  f'[{ids!r}]', r, exp)
        else:
            raises(lambda: conn[arg], KeyError, f'[{ids!r}] of absent ids')
    else:
        raise AssertionError(name)


def check_conn(conn, m, universe, what):
    for k in set(universe) | m.ids():
        check(same(conn.read(k, SENT), m.read(k, SENT)), f'{what}: read({k!r})',
              conn.read(k, 'ABSENT'), m.read(k, 'ABSENT'))
    for i, (g, gm) in enumerate(zip(conn.container.groups, m.groups)):
        check(sorted(g.keys()) == sorted(gm.d), f'{what}: group {i}', list(g.keys()), gm.d)


def r_conn(groups, strict, ops, persist=False):
    with opened(groups, strict) as (conn, m, o_):
        uni = {o[1] for o in ops if isinstance(o[1], str)}
        for o in ops:
            conn_op(conn, m, o)
            check_conn(conn, m, uni, f'after {short(o)}')
            if persist:
                got = o_.committed()
                check(len(got) == len(m.groups) and
                      all(set(a) == set(b.d) and all(same(a[k], b.d[k]) for k in a)
                          for a, b in zip(got, m.groups)),
                      f'committed after {short(o)}', got, [g.d for g in m.groups])


# ---------------------------------------------------------------- transactions
def make_tm(kind, log, faults):
    """a real manager of the given kind, recording commits and aborts"""
    from citrine.storage.transaction import TransactionManager, ThreadTransactionManager
    base = TransactionManager if kind == 'tm' else ThreadTransactionManager

    class Rec(base):
        def commit(self):
            log.append('commit')
            if faults and faults[0] == len([x for x in log if x == 'commit']):
                raise Injected('commit failed')
            return super().commit()

        def abort(self):
            log.append('abort')
            return super().abort()
    return Rec()


def r_threads(how, step):
    """one manager made for threads used by two of them: each has its own block"""
    import threading
    from citrine.connection.container_connection import ContainerConnection
    from citrine.storage.transaction import ThreadTransactionManager
    tm = ThreadTransactionManager()
    with opened([[[9, 9], [['a', 0], ['b', 1]], False]], True) as (_, m, o_):
        expect = dict(m.groups[0].d)

        def other():
            conn = ContainerConnection(o_.db, transaction_manager=tm)
            try:
                check(tm.autocommit is True and conn.autocommit is True,
                      'automatic commits are off in a thread that is in no block')
                if step[0] == 'delete':
                    conn.delete(step[1])
                else:
                    getattr(conn, step[0])(step[1], V(step[2]))
            finally:
                tm.abort()

        def elsewhere():
            res = []
            t = threading.Thread(target=lambda: res.append(outcome(other)), daemon=True)
            t.start()
            t.join(30)
            check(res and not t.is_alive(), 'a thread does not end')
            if res[0][0] == 'exc':
                raise res[0][1]

        def committed():
            got = o_.committed()[0]
            check(set(got) == set(expect) and all(same(got[k], expect[k]) for k in got),
                  f'committed after {step} in another thread, block {how}', got, expect)

        conn = ContainerConnection(o_.db, transaction_manager=tm)
        err = Injected('user')

        def go():
            with conn:
                if how == 'raise':
                    conn.create('mine', 'x')
                ok(elsewhere, f'{step} in another thread')
                if step[0] == 'delete':
                    expect.pop(step[1])
                else:
                    expect[step[1]] = V(step[2])
                committed()
                check(tm.autocommit is False, 'automatic commits are on in a block')
                if how == 'raise':
                    raise err
        if how == 'raise':
            check(raises(go, Injected, 'block ending by an exception') is err, 'another exception')
        else:
            ok(go, 'block')
        committed()
        check(tm.autocommit is True, 'automatic commits must be on after a block')
        ok(lambda: conn.create('after', 'y'), 'create after the block')
        expect['after'] = 'y'
        committed()
        tm.abort()


def r_tx(kind, auto, steps, groups=None, strict=True):
    """steps: list of calls and blocks
    ['create'|'update'|'delete', id, value] one call
    ['block', [steps], how]   how: 'ok' or 'raise'
    ['failcommit', step]      the next commit raises
    ['tmblock', ...]          block on the transaction manager itself
    """
    from citrine.exceptions import ObjectOverwriteError
    log, faults = [], []
    tm = make_tm(kind, log, faults)
    groups = groups or [[[2, 2, 2], [['a', 0], ['b', 1]], False]]
    with opened(groups, strict, autocommit=auto, tm=tm) as (conn, m, o_):
        state = {'auto': auto, 'inblock': False}
        saved = [[dict(g.d) for g in m.groups]]     # committed contents

        def snapshot():
            return [dict(g.d) for g in m.groups]

        def restore():
            for g, d in zip(m.groups, saved[0]):
                g.d = dict(d)

        def eq(a, b):
            return len(a) == len(b) and all(
                set(x) == set(y) and all(same(x[k], y[k]) for k in x) for x, y in zip(a, b))

        def db_is(what):
            got = o_.committed()
            check(eq(got, saved[0]), f'{what}: committed contents', got, saved[0])

        def call(step, commit_fails=False):
            name, k = step[0], step[1]
            v = V(step[2]) if len(step) > 2 else None
            p = m.groups[0]
            fail = None
            if name == 'create' and k in m.ids():
                fail = ObjectOverwriteError
            elif name in ('create', 'update') and not p.fits([k]):
                fail = errors()
            del log[:]
            fn = {'create': lambda: conn.create(k, v), 'update': lambda: conn.update(k, v),
                  'delete': lambda: conn.delete(k)}[name]
            auto_now = state['auto'] and not state['inblock']
            if commit_fails and auto_now and not fail:
                faults[:] = [1]
                raises(fn, Injected, f'{step} with a failing commit')
                faults[:] = []
                tm.abort()
                restore()
                check(tm.autocommit is True, 'automatic commits are off after a failed commit')
                db_is(f'{step} with a failing commit')
                return
            if fail:
                raises(fn, fail, f'{step}')
                if auto_now:
                    check('commit' not in log, f'failing {step} was committed', log)
                    check('abort' in log, f'failing {step} was not aborted', log)
                    restore()
                else:
                    check(log == [], f'failing {step} with automatic commits off', log)
            else:
                ok(fn, f'{step}')
                if name == 'delete':
                    for g in m.groups:
                        g.d.pop(k, None)
                else:
                    p.d[k] = v
                if auto_now:
                    check(log == ['commit'], f'{step} must commit once', log)
                    saved[0] = snapshot()
                else:
                    check(log == [], f'{step} with automatic commits off committed or aborted', log)
            db_is(f'{step}')
            for i in m.ids() | {k}:
                check(same(conn.read(i, SENT), m.read(i, SENT)), f'after {step}: read({i!r})',
                      conn.read(i, 'ABSENT'), m.read(i, 'ABSENT'))

        def block(step):
            cm = conn if step[0] == 'block' else tm
            how = step[2]
            tm.abort()
            restore()
            state['inblock'] = True
            del log[:]
            err = INJECT.get(how, Injected)('user')

            def go():
                with cm:
                    # a block starts a new transaction; what was not committed
                    # before it is dropped by the manager
                    restore()
                    for s in step[1]:
                        call(s)
                    del log[:]
                    if how in INJECT:
                        raise err
            if how in INJECT:
                comes_out(go, err, 'block ending by an exception')
                check('commit' not in log and 'abort' in log, 'block ending by an exception', log)
                restore()
            elif how == 'failcommit':
                faults[:] = [1]
                raises(go, Injected, 'block with a failing commit')
                faults[:] = []
                tm.abort()
                restore()
            else:
                ok(go, 'block')
                check(log == ['commit'], 'a block must commit exactly once', log)
                saved[0] = snapshot()
            state['inblock'] = False
            state['auto'] = True
            check(tm.autocommit is True, 'automatic commits must be on after a block', tm.autocommit)
            check(conn.autocommit is True, 'connection autocommit after a block', step[0])
            db_is(f'after block {short(step)}')

        for step in steps:
            if step[0] in ('block', 'tmblock'):
                block(step)
            elif step[0] == 'failcommit':
                call(step[1], commit_fails=True)
            elif step[0] == 'auto':
                tm.abort()
                restore()
                conn.autocommit = step[1]
                state['auto'] = step[1]
                check(tm.autocommit is step[1], 'autocommit setting reaches the manager')
                check(conn.autocommit is step[1], 'autocommit of the connection', conn.autocommit)
            elif step[0] == 'commit':
                del log[:]
                tm.commit()
                saved[0] = snapshot()
                db_is('explicit commit')
            elif step[0] == 'abort':
                tm.abort()
                restore()
                db_is('explicit abort')
            else:
                call(step)


def r_reuse(kind, first, then, other):
    """a database hands out a connection again: it says of itself what it does"""
    import shutil
    import tempfile
    from citrine.database.containerdb import ContainerDb
    d = tempfile.mkdtemp(prefix='pvx-c10-')
    db = None
    try:
        db = ok(lambda: ContainerDb.new(os.path.join(d, 'x.fs'), capacity=20), 'ContainerDb.new')
        tm = make_tm(kind, [], [])
        conn = ok(lambda: db.open(tm), 'open')
        if first is not None:
            conn.autocommit = first
        tm.abort()
        conn.close()
        log = []
        tm2 = make_tm(kind, log, []) if other else tm
        if then is not None and other:
            tm2.autocommit = then
        conn = ok(lambda: db.open(tm2), 'open again')
        del log[:]
        says = conn.autocommit
        check(says is tm2.autocommit, 'a connection opened again: autocommit', says, tm2.autocommit)
        ok(lambda: conn.create('a', 1), 'create')
        tm2.abort()
        got = conn.read('a', None)
        check(got == (1 if says else None), f'a connection opened again with autocommit {says}: '
              'committed', got)
        conn.close()
    finally:
        if db is not None:
            db.close()
        shutil.rmtree(d, ignore_errors=True)


def r_tx_decorator(kind, auto, fails, args, in_block):
    """the autocommit decorator on any method of any object with a manager"""
    from citrine.storage.transaction import autocommit
    log = []
    tm = make_tm(kind, log, [])
    tm.autocommit = auto
    seen = []
    err = INJECT.get(fails, Injected)('method')

    class Obj:
        transaction_manager = tm

        @autocommit
        def method(self, id, *a, **kw):
            seen.append((id, a, kw))
            if fails:
                raise err
            return V(args[0])

    def go():
        return Obj().method('k', *args, extra=3)

    def run():
        if fails:
            comes_out(go, err, 'failing method')
        else:
            check(same(ok(go, 'method'), V(args[0])), 'result of the method')

    if in_block:
        with tm:
            run()
            check(log == [], 'a call inside a block must not commit or abort', log)
        check(log == ['commit'], 'the block commits once', log)
        check(tm.autocommit is True, 'automatic commits are on after a block')
    else:
        run()
        if not auto:
            check(log == [], 'nothing may be committed with automatic commits off', log)
            check(tm.autocommit is False, 'automatic commits stay off')
        elif fails:
            check('commit' not in log and 'abort' in log, 'failing call', log)
            check(tm.autocommit is True, 'automatic commits stay on')
        else:
            check(log == ['commit'], 'exactly one commit', log)
            check(tm.autocommit is True, 'automatic commits stay on')
    check(seen == [('k', tuple(args), {'extra': 3})], 'the method runs once with its arguments', seen)


PROCESS_IDS = ['key %d' % i for i in range(25)] + ['', 'é', '日本', 'https://example.org/x']


def r_other_process(n, limit):
    """keys stored by one process are found by another one"""
    processes(f"""
import os
from ZODB import DB
from ZODB.FileStorage import FileStorage
from citrine.storage.group import Group
db = DB(FileStorage(os.path.join(d, 'g.db')))
conn = db.open()
with conn.transaction_manager:
    conn.root.group = Group.new(size={n}, max_collection_size={limit})
    for i, k in enumerate({PROCESS_IDS!r}):
        conn.root.group.insert(k, i)
conn.close()
db.close()
""", f"""
import os
from ZODB import DB
from ZODB.FileStorage import FileStorage
db = DB(FileStorage(os.path.join(d, 'g.db'), read_only=True))
conn = db.open()
g = conn.root.group
print([g.get(k, 'lost') for k in {PROCESS_IDS!r}], [bool(g.has_key(k)) for k in {PROCESS_IDS!r}])
conn.close()
db.close()
""", f'{list(range(len(PROCESS_IDS)))} {[True] * len(PROCESS_IDS)}')


RUNNERS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('r_')}


# ======================================================================= generators
def items_for(rng, keys, p=0.5, vals=NPAL):
    return [[k, rng.randrange(vals)] for k in keys if rng.random() < p]


def rand_caps(rng, big=False):
    n = rng.choice([1, 1, 2, 3, 3, 5, 7])
    return [rng.randint(1, 3) if not big else rng.randint(3, 9) for _ in range(n)]


def rand_groups(rng, num, keys, strict_ok=True, big=False):
    return [[rand_caps(rng, big), items_for(rng, keys, rng.choice([0, .2, .5, .8])), False]
            for _ in range(num)]


def within(caps, items):
    """drop what would exceed a collection's limit"""
    n, have, res = len(caps), {}, []
    seen = set()
    for k, vi in items:
        if k in seen:
            continue
        i = route(k, n)
        if have.get(i, 0) < caps[i]:
            have[i] = have.get(i, 0) + 1
            res.append([k, vi])
            seen.add(k)
    return res


def budgeted(run, n_quick, n_thorough):
    """numbers 0..n-1, ending early when the time is used up"""
    n = n_quick if run.tier == 'quick' else n_thorough
    for i in range(n):
        if run.timeleft() <= 0:
            return
        yield i


def gen_c01(run):
    rng = run.rng
    # every subset of three groups holding the id, every value, before a write
    for present in itertools.product([0, 1], repeat=3):
        for vi in range(NPAL):
            groups = [[[2] * n, ([['a', 1]] if here else []) + [['b', 3]], False]
                      for n, here in zip((3, 1, 2), present)]
            yield 'container', dict(groups=groups, strict=False,
                                    ops=[['write', 'a', vi], ['write', 'a', (vi + 3) % NPAL]],
                                    position=vi % 4 if vi % 4 < 3 else None)
    for vi in range(NPAL):
        yield 'container', dict(groups=[[[2, 2], [['b', vi]], False], [[2], [['a', vi], ['c', 1]], False]],
                                strict=vi % 2 == 0, ops=[['write', 'a', (vi + 1) % NPAL], ['write', 'd', vi]],
                                persist=True)
    for _ in budgeted(run, 1500, 30000):
        keys = rng.sample(KEYS, rng.randint(2, 8))
        num = rng.randint(1, 5)
        groups = rand_groups(rng, num, keys)
        ops = [['write', rng.choice(keys), rng.randrange(NPAL)] for _ in range(rng.randint(1, 6))]
        yield 'container', dict(groups=groups, strict=rng.random() < .2, ops=ops,
                                position=rng.choice([None] + list(range(num))),
                                persist=rng.random() < .05)


def gen_c02(run):
    rng = run.rng
    for present in itertools.product([0, 1], repeat=4):
        for vi in range(0, NPAL):
            groups = [[[2] * n, ([['a', (vi + i) % NPAL]] if here else []) + [['b', i], ['c', 2]], False]
                      for i, (n, here) in enumerate(zip((3, 1, 2, 5), present))]
            yield 'container', dict(groups=groups, strict=False,
                                    ops=[['delete', 'a'], ['delete', 'a'], ['delete', 'b']])
    for _ in budgeted(run, 1200, 30000):
        keys = rng.sample(KEYS, rng.randint(2, 8))
        num = rng.randint(1, 5)
        groups = rand_groups(rng, num, keys)
        ops = [rng.choice([['delete', rng.choice(keys)], ['delete', rng.choice(keys)],
                           ['write', rng.choice(keys), rng.randrange(NPAL)]])
               for _ in range(rng.randint(1, 6))]
        yield 'container', dict(groups=groups, strict=False, ops=ops,
                                position=rng.choice([None] + list(range(num))),
                                persist=rng.random() < .05)


def rand_group_ops(rng, keys, n, strict=False):
    ops = []
    for _ in range(n):
        k, v = rng.choice(keys), rng.randrange(NPAL)
        ops.append(rng.choice([
            ['insert', k, v], ['insert', k, v], ['setdefault', k, v],
            ['update', [[x, rng.randrange(NPAL)] for x in rng.sample(keys, rng.randint(0, min(4, len(keys))))]],
            ['update', [[k, v]]], ['pop', k], ['popd', k], ['getkw', k], ['getnone', k],
            ['clear'] if rng.random() < .3 else ['pop', k]]))
    return ops


def gen_c03(run):
    rng = run.rng
    yield 'other_process', dict(n=7, limit=50)
    for key in KEYS + ['k%d' % i for i in range(30)]:
        for n in (1, 2, 3, 5, 7, 11, 13, 4, 6):
            yield 'routing', dict(key=key, n=n, vi=(len(key) + n) % NPAL)
    for op in (['insert', 'a', 1], ['insert', 'n', 2], ['setdefault', 'a', 3], ['setdefault', 'n', 4],
               ['update', [['a', 5], ['n', 6]]], ['update', []], ['pop', 'a'], ['pop', 'n'],
               ['popd', 'n'], ['clear']):
        for n in (1, 2, 3, 5):
            for vi in range(NPAL):
                yield 'group', dict(caps=[9] * n, items=[['a', vi], ['b', 1], ['c', 2], ['', 3]],
                                    strict=False, ops=[op])
    for _ in budgeted(run, 1500, 30000):
        keys = rng.sample(KEYS, rng.randint(2, 10))
        caps = rand_caps(rng, big=True)
        yield 'group', dict(caps=caps, items=items_for(rng, keys), strict=False,
                            ops=rand_group_ops(rng, keys, rng.randint(1, 7)))


def gen_c04(run):
    rng = run.rng
    ks = ['a', 'b', 'c', 'd']
    # one collection: all fillings up to the limit, every operation
    for cap in (1, 2, 3):
        for have in itertools.chain.from_iterable(itertools.combinations(ks, r) for r in range(len(ks) + 1)):
            for strict in (True, False):
                for op in ([['insert', 'a', 1]], [['setdefault', 'a', 1]], [['update', [['a', 1], ['b', 2]]]],
                           [['update', [['c', 1], ['d', 1]]]], [['update', [[k, 0] for k in ks]]]):
                    yield 'collection', dict(cap=cap, items=[[k, i] for i, k in enumerate(have)],
                                             strict=strict, ops=op)
                    # (a store may be over its limit when strictness is switched on)
                    yield 'group', dict(caps=[cap, 1, 2], strict=strict, ops=op,
                                        items=[[k, i] for i, k in enumerate(have)])
                    yield 'group', dict(caps=[1, cap], strict=strict, ops=op,
                                        items=[[k, i] for i, k in enumerate(have)])
    for where in ('connection', 'container', 'group'):
        for first, then in itertools.product([True, False], repeat=2):
            for one in (0, 1):
                # all but one collection are as they are about to be set, or only one is
                yield 'strictness', dict(groups=[[[1, 2, 3], [], True], [[2, 2], [], False]], strict=first, steps=[
                    ['group', 0, 0, first], ['collection', 0, one, not first], [where, 0, 0, then],
                    ['collection', 0, 2 - one, not then], [where, 0, 0, then], [where, 0, 0, not then]])
    for i in range(40):
        caps = [[rng.randint(1, 4) for _ in range(rng.choice([1, 2, 3]))] for _ in range(rng.randint(1, 3))]
        steps = []
        for _ in range(rng.randint(1, 5)):
            g = rng.randrange(len(caps))
            where = rng.choice(['connection', 'container', 'group', 'collection'])
            steps.append([where, g, rng.randrange(len(caps[g])), rng.choice([True, False]) if
                          where == 'collection' else rng.choice([True, False, True, False, None, 1, 'x'])])
        yield 'strictness', dict(groups=[[c, [], i % 3 == 0] for c in caps], strict=i % 2 == 0, steps=steps)
    for _ in budgeted(run, 2500, 40000):
        keys = rng.sample(KEYS, rng.randint(2, 10))
        caps = rand_caps(rng)
        strict = rng.random() < .85
        items = items_for(rng, keys, rng.choice([.3, .7, 1]))
        if rng.random() < .3:
            con_caps = [caps] + [rand_caps(rng) for _ in range(rng.randint(0, 2))]
            over = rng.random() < .3
            groups = [[c, (lambda c, i: i if over else within(c, i))(c, items_for(rng, keys, .8)), False]
                      for c in con_caps]
            ops = [rng.choice([['write', rng.choice(keys), rng.randrange(NPAL)],
                               ['write', rng.choice(keys), rng.randrange(NPAL)],
                               ['delete', rng.choice(keys)]]) for _ in range(rng.randint(1, 6))]
            yield 'container', dict(groups=groups, strict=strict, ops=ops)
        else:
            ops = rand_group_ops(rng, keys, rng.randint(1, 7))
            if not strict and rng.random() < .3:
                ops = ops[:2]
            if rng.random() < .75:
                items = within(caps, items)
            if rng.random() < .3:
                strict = [rng.random() < .6 for _ in caps]
                ops.insert(rng.randint(0, len(ops)),
                           ['update', [[k, rng.randrange(NPAL)] for k in rng.sample(
                               keys, rng.randint(1, len(keys)))]])
                if rng.random() < .3:
                    ops.insert(rng.randint(0, len(ops)),
                               ['colstrict', rng.randrange(9), rng.random() < .5])
            yield 'group', dict(caps=caps, items=items, strict=strict, ops=ops)
    for cap, lim in ((1, 1), (3, 2), (5, 2), (7, 3), (10, 4), (4, 10), (12, 1)):
        yield 'fill', dict(capacity=cap, limit=lim)


def gen_c05(run):
    rng = run.rng
    for cap in range(1, 130):
        for lim in (1, 2, 3, 5, 10, 97, 5000):
            yield 'sizing', dict(capacity=cap, limit=lim)
    for cap in (1, 2, 3, 4, 5, 6, 7, 9, 10, 16, 25, 49, 50, 99, 100, 121, 169, 1000):
        for lim in (1, 2, 3, 4, 7, 10, 100, 5000):
            for strict in (True, False):
                if cap / lim < 200:
                    yield 'sizing', dict(capacity=cap, limit=lim, strict=strict)
    for big in (10 ** 16, 2 ** 53, 2 ** 60, 10 ** 30, 3 ** 50):
        for n in (1, 2, 3, 11, 13, 97):
            for d in (-1, 0, 1):
                yield 'sizing', dict(capacity=n * big + d, limit=big)
    for lo, hi in ((1, 1), (1, 2), (1, 30), (2, 2), (4, 4), (8, 11), (24, 29), (100, 130), (1, 200), (9, 9)):
        yield 'primes', dict(lo=lo, hi=hi)
    for size in (1, 2, 3, 5):
        for strict in (True, False):
            yield 'group_new', dict(size=size, limit=4, strict=strict, custom=None)
            yield 'group_new', dict(size=size, limit=4, strict=strict, custom={'0': 2})
    for custom in (None, {}, {'0': 3}, {'1': 3}, {'0': 2, '1': 5}, {'2': 1, '0': 7}, {'4': 2}, {'1': 0},
                   {'x': 3}, {'0': 3, 'x': 1}, {'3': 9, '1': 2}, {'0': 4, '2': -1}, {'5': 1, '4': 2, '3': 3}):
        for size in (None, 0, 1, 2, 3, 5, 7):
            for limit in (1, 4, 0):
                yield 'group_new', dict(size=size, limit=limit, strict=size == 2, custom=custom)
    for cap, lim in ((1, 1), (3, 2), (5, 2), (7, 3), (10, 4), (4, 10)):
        yield 'fill', dict(capacity=cap, limit=lim)
    for cap in (100000, 123457, 5000, 5001, 9999, 10000, 1000000, 4 * 5000, 25 * 5000, 5000 * 49):
        yield 'sizing', dict(capacity=cap, limit=5000)
    for _ in budgeted(run, 1500, 20000):
        yield 'sizing', dict(capacity=rng.choice([rng.randint(1, 3000), rng.randint(1, 10 ** 7)]),
                             limit=rng.choice([rng.randint(1, 50), rng.randint(50, 6000)]))
        if rng.random() < .1:
            lim = rng.randint(1, 60)
            yield 'sizing', dict(capacity=rng.randint(1, lim * 60), limit=lim, strict=rng.random() < .5)


def model_c05(m):
    """counterexamples of the solver"""
    for n in {v for v in m.values() if isinstance(v, int) and not isinstance(v, bool) and 0 < v < 10 ** 7}:
        yield 'primes', dict(lo=max(1, n - 2), hi=n + 2)
        for lim in (1, 5000):
            yield 'sizing', dict(capacity=n, limit=lim)


def resize_actions(rng, total):
    if rng.random() < .35:
        a = {'op': 'condense'}
    else:
        a = {'op': 'resize', 'capacity': rng.choice([total, total + 1, total * 3 + 5, max(1, total - 1), 50])}
        a['capacity'] = max(1, a['capacity'])
        if rng.random() < .7:
            a['limit'] = rng.choice([1, 2, 3, 5, 50])
        if rng.random() < .7:
            a['condense'] = rng.random() < .6
    if rng.random() < .7:
        a['transfer'] = rng.random() < .6
    return a


def gen_resize(run, tmode, nq, nt):
    rng = run.rng
    base = [[[3, 3, 3], [['a', 0], ['b', 1]], False], [[3, 3], [['a', 2], ['c', 3], ['d', 4]], False],
            [[5], [['d', 5], ['', 2], ['e', 6]], False]]
    for strict in (False, True):
        for transfer in (True, False):
            yield 'resize', dict(groups=base, strict=strict, tm=tmode,
                                 actions=[{'op': 'condense', 'transfer': transfer}])
            for condense in (True, False):
                for cap in (7, 8, 9, 20, 60):
                    yield 'resize', dict(groups=base, strict=strict, tm=tmode, actions=[
                        {'op': 'resize', 'capacity': cap, 'limit': 4, 'condense': condense,
                         'transfer': transfer}])
    for _ in budgeted(run, nq, nt):
        keys = rng.sample(KEYS, rng.randint(2, 9))
        groups = rand_groups(rng, rng.randint(1, 4), keys, big=rng.random() < .6)
        strict = rng.random() < .5
        if strict:
            groups = [[c, within(c, i), False] for c, i, s in groups]
        total = sum(len(i) for _, i, _ in groups)
        acts = [resize_actions(rng, total) for _ in range(rng.randint(1, 3))]
        if tmode and rng.random() < .4:
            yield 'resize', dict(groups=groups, strict=strict, actions=acts[:1], tm=tmode,
                                 fail_at=rng.randint(1, 12))
        else:
            yield 'resize', dict(groups=groups, strict=strict, actions=acts, tm=tmode)


def gen_c06(run):
    yield from gen_resize(run, None, 2000, 40000)


def gen_c07(run):
    rng = run.rng
    n = 0
    for name, params in gen_resize(run, 'stub', 1200, 25000):
        yield name, params
        n += 1
        if n % 6 == 0:
            yield 'resize_db', dict(groups=params['groups'], strict=params['strict'],
                                    action=params['actions'][0], kind=rng.choice(['tm', 'thread']),
                                    fail_at=rng.choice([None, None, rng.randint(1, 8)]))


def gen_c08(run):
    rng = run.rng
    for cap in (1, 2, 3, 5, 7, 9, 10, 11, 13, 29, 30, 50, 59, 69, 99, 100):
        for size in range(0, cap + 2):
            yield 'status', dict(size=size, cap=cap)
    for cap in (200, 333, 1000):
        for pct in (0.59, 0.6, 0.69, 0.7, 0.79, 0.8, 0.89, 0.9, 1.0):
            for d in (-1, 0, 1):
                yield 'status', dict(size=max(0, int(cap * pct) + d), cap=cap)
    for _ in budgeted(run, 700, 15000):
        keys = rng.sample(KEYS, rng.randint(0, 12))
        groups = [[rand_caps(rng, rng.random() < .5), items_for(rng, keys, rng.choice([0, .5, 1])), False]
                  for _ in range(rng.randint(1, 4))]
        ops = [rng.choice([['write', rng.choice(KEYS), 0], ['delete', rng.choice(KEYS)]]) for _ in range(3)]
        yield 'metrics', dict(groups=groups, ops=ops)
        if rng.random() < .05:
            yield 'metrics_conn', dict(groups=groups, strict=False,
                                       ops=[['update', o[1], 1] if o[0] == 'write' else o for o in ops])


def gen_c09(run):
    rng = run.rng
    for n in (1, 2, 3, 5, 7):
        for r in range(0, 5):
            for ks in itertools.combinations(['a', 'b', '', 'é', 'c'], r):
                items = [[k, (i * 5 + 2 + n) % NPAL] for i, k in enumerate(ks)]
                yield 'iterate', dict(caps=[9] * n, items=items, lo=None, hi=None)
                yield 'drain', dict(caps=[9] * n, items=items)
                for lo, hi in (('a', None), (None, 'b'), ('a', 'b'), ('aa', 'bb'), ('', ''), ('z', 'a')):
                    yield 'iterate', dict(caps=[9] * n, items=items, lo=lo, hi=hi, kw=r % 2 == 0)
    for n in (1, 2, 3, 5):
        for r in range(0, 6):
            items = [[k, (i * 3 + n) % 2] for i, k in enumerate(['a', 'b', '', 'é', 'c', 'd'][:r])]
            for lo, hi, least in ((None, None, None), ('a', None, 0), (None, 'b', 1), ('b', 'c', 2)):
                for of in ('int', 'list', 'str'):
                    yield 'values', dict(caps=[9] * n, items=items, lo=lo, hi=hi, least=least, of=of)
    for _ in budgeted(run, 1500, 30000):
        keys = rng.sample(KEYS, rng.randint(1, len(KEYS)))
        b = [None] + keys + ['m', 'zz']
        if rng.random() < .15:
            yield 'values', dict(caps=rand_caps(rng), items=[[k, rng.randint(0, 3)] for k in keys],
                                 lo=rng.choice(b), hi=rng.choice(b), least=rng.choice([None, 0, 1, 2, 4]))
        yield 'iterate', dict(caps=rand_caps(rng), items=items_for(rng, keys, .7),
                              lo=rng.choice(b), hi=rng.choice(b), kw=rng.random() < .3)
        if rng.random() < .1:
            yield 'drain', dict(caps=rand_caps(rng), items=items_for(rng, keys, .7))


def rand_step(rng):
    k = rng.choice(['a', 'b', 'c', 'd', 'e', 'f', 'g'])
    return rng.choice([['create', k, rng.randrange(NPAL)], ['update', k, rng.randrange(NPAL)],
                       ['delete', k]])


def gen_c10(run):
    rng = run.rng
    for how in ('raise', 'ok'):
        for step in (['create', 'c', 1], ['update', 'a', 2], ['delete', 'b']):
            yield 'threads', dict(how=how, step=step)
    for kind in ('tm', 'thread'):
        for first in (None, True, False):
            yield 'reuse', dict(kind=kind, first=first, then=None, other=False)
            for then in (None, True, False):
                yield 'reuse', dict(kind=kind, first=first, then=then, other=True)
    for kind in ('tm', 'thread'):
        for auto in (True, False):
            for fails in (*INJECT, False):
                for in_block in (True, False):
                    for arg in (0, 3, 5):
                        yield 'tx_decorator', dict(kind=kind, auto=auto, fails=fails,
                                                   args=[arg], in_block=in_block)
        for auto in (True, False):
            for st in (['create', 'c', 1], ['create', 'a', 1], ['update', 'a', 2], ['update', 'n', 2],
                       ['delete', 'a'], ['delete', 'zz']):
                yield 'tx', dict(kind=kind, auto=auto, steps=[st, ['create', 'x', 3], ['delete', 'x']])
                for how in ('ok', *INJECT, 'failcommit') if st[1] == 'a' else ('ok', 'raise', 'failcommit'):
                    for b in ('block', 'tmblock'):
                        yield 'tx', dict(kind=kind, auto=auto, steps=[
                            [b, [st, ['create', 'y', 1]], how], ['create', 'w', 2], ['failcommit', ['update', 'a', 4]],
                            ['create', 'z', 0]])
    for _ in budgeted(run, 350, 8000):
        steps = []
        for _ in range(rng.randint(1, 5)):
            x = rng.random()
            if x < .5:
                steps.append(rand_step(rng))
            elif x < .75:
                steps.append([rng.choice(['block', 'tmblock']), [rand_step(rng) for _ in range(rng.randint(0, 4))],
                              rng.choice(['ok', 'ok', 'failcommit', *INJECT][:rng.choice([3, 4, 99])])])
            elif x < .85:
                steps.append(['failcommit', rand_step(rng)])
            elif x < .9:
                steps.append(['auto', rng.random() < .5])
            else:
                steps.append([rng.choice(['commit', 'abort'])])
        yield 'tx', dict(kind=rng.choice(['tm', 'thread']), auto=rng.random() < .7, steps=steps,
                         strict=rng.random() < .7)


def gen_c11(run):
    rng = run.rng
    base = [[[3, 3], [['a', 1], ['b', 2]], False], [[3], [['a', 3], ['c', 4]], False]]
    for vi in range(NPAL):
        g = [[[3, 3], [['a', vi]], False], [[3], [['b', vi], ['a', 0]], False]]
        yield 'conn', dict(groups=g, strict=False, persist=True, ops=[
            ['create', 'a', 1], ['create', 'b', 1], ['item', 'a'], ['item', 'b'], ['item', 'n'],
            ['items', ['b', 'a', 'n', 'a'], 'list'], ['items', ['a'], 'gen'],
            ['items', ['n'], 'tuple'], ['create', 'n', vi], ['item', 'n'],
            ['update', 'n', (vi + 1) % NPAL], ['update', 'b', (vi + 2) % NPAL], ['read', 'b'],
            ['items', ['n', 'b'], 'dict'], ['delete', 'a'], ['delete', 'a'], ['update', 'a', vi]])
    for _ in budgeted(run, 220, 5000):
        keys = rng.sample(KEYS, rng.randint(2, 6))
        groups = rand_groups(rng, rng.randint(1, 3), keys)
        strict = rng.random() < .2
        if strict:
            groups = [[c, within(c, i), False] for c, i, s in groups]
        ops = []
        for _ in range(rng.randint(1, 8)):
            k, v = rng.choice(keys), rng.randrange(NPAL)
            ops.append(rng.choice([
                ['create', k, v], ['update', k, v], ['delete', k], ['read', k], ['item', k],
                ['items', [rng.choice(keys) for _ in range(rng.randint(1, 4))],
                 rng.choice(['list', 'tuple', 'gen'])]]))
        yield 'conn', dict(groups=groups, strict=strict, ops=ops, persist=rng.random() < .1)
    del base


PROPS = {
    'C01': dict(gen=gen_c01, rule='container histories over 1-5 groups: every presence pattern of the id over '
                '3 groups times every palette value, then seeded random histories; a case is distinct by its parameters'),
    'C02': dict(gen=gen_c02, rule='every presence pattern over 4 groups times every palette value, then seeded random histories'),
    'C03': dict(gen=gen_c03, rule='every single operation over a filled group, routing of 50 keys for 9 collection counts, then random histories against one dict'),
    'C04': dict(gen=gen_c04, rule='all fillings of small collections times every operation, strict and not, then random strict histories'),
    'C05': dict(gen=gen_c05, from_model=model_c05, rule='all capacities below 130 times seven limits, prime boundaries, constructed containers, then random pairs up to 10^7'),
    'C06': dict(gen=gen_c06, rule='all option combinations on overlapping groups, then random containers and 1-3 successive operations'),
    'C07': dict(gen=gen_c07, rule='as C06 with a recording transaction manager (every commit is looked at), failing commits, and real databases read by a second connection at each commit'),
    'C08': dict(gen=gen_c08, rule='all fill levels of 16 limits, level boundaries of larger ones, random containers'),
    'C09': dict(gen=gen_c09, rule='all subsets of 5 keys over 5 collection counts times 7 bounds, then random ones'),
    'C10': dict(gen=gen_c10, rule='every call kind times mode times block ending times manager kind on a real database, then random histories with failing calls and failing commits'),
    'C11': dict(gen=gen_c11, rule='connection histories on a real database with every palette value, then random ones'),
}

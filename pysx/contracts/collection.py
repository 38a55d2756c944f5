"""Collection and CollectionMeta against the contract of a collection, on top
of the trusted tree."""
import types

import z3

from pysx import maps
from pysx.core import ctx, I, Key, Unsupported
from pysx.contracts.common import Stored, equal, key, outcome, truthy, val
from pysx.maps import CollectionContract, Map, Mapping, Tree
from pysx.seq import PvxSeq, Store
from pysx.sym import PvxBool, PvxInt, PvxKey, PvxReal, it, mkbool, rt
from pysx.transform import Loader


def tree_stubs():
    ns = types.ModuleType('BTrees._OOBTree')
    ns.BTree = ns.OOBTree = Tree
    return {'persistent': {'Persistent': maps.Persistent},
            'BTrees': {'_OOBTree': ns, 'OOBTree': ns},
            'BTrees._OOBTree': ns, 'BTrees.OOBTree': ns}


BARE = ('citrine', 'citrine.storage', 'citrine.connection', 'citrine.database',
        'citrine.cluster_tools', 'citrine.client')


def load():
    L = Loader(stubs=tree_stubs(), bare=BARE)
    mod = L.load('citrine.storage.collection')
    maps.DEFAULT_LIMIT = L.load('citrine.storage.consts').DEFAULT_COLLECTION_SIZE
    CollectionContract.errors = {'collection': mod.CollectionCapacityError}
    return L, mod


def pair(mod):
    """a real collection in an arbitrary state, and the contract in the same one"""
    c = ctx()
    base = maps.collection_store('c')
    spec_store = Store('c', **base.f)
    zero = z3.IntVal(0)
    spec = CollectionContract.at(spec_store, zero)
    cap, strict = spec._cap, spec._strict
    real = mod.Collection(max_size=PvxInt(cap), strict=mkbool(strict))
    tree = find_tree(real)
    tree.m = Map(base, zero)
    c.mutlog.clear()
    return real, spec, tree, base, spec_store


def find_tree(col):
    ts = [v for v in vars(col).values() if isinstance(v, Tree)]
    if len(ts) != 1:
        raise Unsupported('where the collection keeps its tree')
    return ts[0]


def same_state(name, tree, spec_store, base):
    c = ctx()
    zero = z3.IntVal(0)
    k = c.fresh('any', Key)
    r, s = tree.m, Map(spec_store, zero)
    c.prove(name + ': stored ids', r.has(k) == s.has(k))
    c.prove(name + ': stored objects', z3.Implies(s.has(k), r.val(k) == s.val(k)))
    c.prove(name + ': number of objects', r.card() == s.card())
    del base


def operation(run, mod, name, make, result=equal):
    """the real operation and the contract, from the same arbitrary state, have
    the same outcome and leave the same state"""
    def h():
        real, spec, tree, base, spec_store = pair(mod)
        c = ctx()
        call = make()
        stored = Stored(real)
        k1, v1 = outcome(lambda: call(spec))
        k2, v2 = outcome(lambda: call(real))
        stored.check(f'Collection.{name}')
        if k1 == 'exc' or k2 == 'exc':
            c.prove(f'Collection.{name}: refuses exactly what the contract refuses',
                    k1 == k2 and type(v1) is type(v2), f'contract {k1} {v1!r}, code {k2} {v2!r}')
        else:
            c.prove(f'Collection.{name}: result', result(v1, v2))
        same_state(f'Collection.{name}', tree, spec_store, base)
        c.prove(f'Collection.{name}: limit and strictness kept',
                z3.And(equal(real.max_size, spec.max_size), equal(real.strict, spec.strict)))
    run.explore(f'Collection.{name}', h)
    run.covers(f'citrine.storage.collection:Collection.{name}')


def truth_result(a, b):
    return truthy(a) == truthy(b)


def nothing(a, b):
    return z3.BoolVal(True)


def ops(run, names):
    L, mod = load()

    def two(m):
        def make():
            k, v = key(), val()
            return lambda o: getattr(o, m)(k, v)
        return make

    def get():
        k = key()
        d = ctx().choose(['none', 'value', 'kw'])
        v = val('default')
        if d == 'none':
            return lambda o: o.get(k)
        if d == 'kw':
            return lambda o: o.get(k, default=v)
        return lambda o: o.get(k, v)

    def pop():
        k, v = key(), val('default')
        if ctx().choose([0, 1]):
            return lambda o: o.pop(k, v)
        return lambda o: o.pop(k)

    def update():
        kind = ctx().choose(['mapping', 'one', 'two', 'empty'])
        if kind == 'mapping':
            m = Mapping('m')
            return lambda o: o.update(m)
        if kind == 'empty':
            return lambda o: o.update({})
        k, v = key(), val()
        if kind == 'one':
            return lambda o: o.update({k: v})
        k2, v2 = key('key2'), val('value2')
        ctx().assume(k.t != k2.t)

        def call(o):
            d = {}
            d[k] = v
            dict.__setitem__(d, k2, v2)
            return o.update(d)
        return call

    makers = {
        'get': (get, equal),
        'has_key': (lambda: (lambda k: lambda o: o.has_key(k))(key()), truth_result),
        'insert': (two('insert'), truth_result),
        'setdefault': (two('setdefault'), equal),
        'update': (update, nothing),
        'pop': (pop, equal),
        'clear': (lambda: lambda o: o.clear(), nothing),
    }
    for n in names:
        operation(run, mod, n, *makers[n])


def construct(run):
    """a new collection is empty and has the limit and strictness asked for"""
    L, mod = load()

    def h():
        c = ctx()
        n = c.fresh('max_size', I)
        st = PvxBool(c.fresh('strict', z3.BoolSort()))
        how = c.choose(['both', 'default'])
        if how == 'both':
            c.assume(n >= 1)
            col = mod.Collection(max_size=PvxInt(n), strict=st)
            c.prove('Collection.__init__: limit', equal(col.max_size, PvxInt(n)))
            c.prove('Collection.__init__: strictness', equal(col.strict, st))
        else:
            col = mod.Collection()
            c.prove('Collection.__init__: default limit', equal(col.max_size, maps.DEFAULT_LIMIT))
        m = find_tree(col).m
        k = c.fresh('any', Key)
        c.prove('Collection.__init__: empty', z3.And(z3.Not(m.has(k)), m.card() == 0))
        c.prove('Collection.__init__: size', equal(col.size, 0))
        v = PvxBool(c.fresh('new_strict', z3.BoolSort()))
        stored = Stored(col)
        col.strict = v
        stored.check('Collection.strict')
        c.prove('Collection.strict: setting it', equal(col.strict, v))
    run.explore('Collection.__init__', h)
    run.covers('citrine.storage.collection:Collection.__init__',
               'citrine.storage.collection:Collection.strict',
               'citrine.storage.collection:CollectionMeta.__init__')


def metrics(run):
    """size, usage and status for every number of objects and every limit"""
    L, mod = load()

    def h():
        real, spec, tree, base, spec_store = pair(mod)
        c = ctx()
        c.prove('Collection.size', equal(real.size, spec.size))
        c.prove('Collection.max_size', equal(real.max_size, spec.max_size))
        u = real.usage
        c.prove('Collection.usage', rt(u) * z3.ToReal(spec._cap) == z3.ToReal(spec.m.card()))
        c.prove('CollectionMeta values', z3.And(equal(real.meta.size, spec.size),
                                                equal(real.meta.max_size, spec.max_size)))
    run.explore('Collection metrics', h)

    def hs():
        real, spec, tree, base, spec_store = pair(mod)
        c = ctx()
        st = real.status
        c.prove('Collection.status', equal(st, spec.status))
    run.explore('Collection status', hs)
    run.covers(*['citrine.storage.collection:' + x for x in (
        'Collection.size', 'Collection.usage', 'Collection.status', 'Collection.max_size',
        'CollectionMeta.size', 'CollectionMeta.usage', 'CollectionMeta.status')])


def order(run):
    """bounded iteration and extreme keys"""
    L, mod = load()

    def ext(n):
        def make():
            b = ctx().choose(['none', 'bound'])
            k = key('bound')
            return (lambda o: getattr(o, n)()) if b == 'none' else (lambda o: getattr(o, n)(k))
        return make
    for n in ('minKey', 'maxKey'):
        operation(run, mod, n, ext(n))
    operation(run, mod, 'popitem', lambda: lambda o: o.popitem())

    for n in ('iteritems', 'iterkeys', 'items', 'keys'):
        def make(n=n):
            if n in ('items', 'keys'):
                return lambda o: getattr(o, n)()
            b = ctx().choose(['none', 'lo', 'hi', 'both'])
            lo = key('lo') if b in ('lo', 'both') else None
            hi = key('hi') if b in ('hi', 'both') else None
            return lambda o: getattr(o, n)(lo, hi)
        operation(run, mod, n, make, same_view)


def as_members(x, k):
    from pysx.hooks import as_seq, isgen
    from pysx.loops import drain_for
    s = as_seq(drain_for(x) if isgen(x) else x)
    if s is None or s.sort != Key:
        raise Unsupported('an iteration that is not over the ids in order')
    return s


def same_view(a, b):
    c = ctx()
    k = c.fresh('member', Key)
    sa, sb = as_members(a, k), as_members(b, k)
    c.prove('iteration: the same ids', sa.member(k) == sb.member(k))
    if c.branch(sa.member(k)):
        return equal(sa.elem(k), sb.elem(k))
    return z3.BoolVal(True)


del PvxSeq, PvxKey, it, PvxReal

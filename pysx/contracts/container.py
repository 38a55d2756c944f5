"""Container and ContainerMeta, on top of the contract of Group."""
import z3

from pysx import hooks, maps
from pysx.core import B, I, Key, Unsupported, Val, contract_error, ctx, simp
from pysx.contracts.common import Stored, equal, key, outcome, truthy, val
from pysx.contracts.collection import BARE, tree_stubs
from pysx.contracts import group as grp
from pysx.maps import GroupContract, Map
from pysx.seq import PvxSeq, Store, sum_term, touch
from pysx.sym import PvxBool, PvxInt, PvxKey, PvxVal, it, mkbool, rt, vt
from pysx.transform import Loader

Z = z3.IntVal(0)


def load(extra=None):
    _, gmod = grp.load()
    GroupContract.errors = {'group': gmod.GroupCapacityError}
    stub = {n: v for n, v in vars(gmod).items()
            if isinstance(v, type) and issubclass(v, BaseException)}
    stub['Group'] = GroupContract
    stub.update(extra or {})
    L = Loader(stubs={**tree_stubs(), 'citrine.storage.group': stub}, bare=BARE)
    return L, L.load('citrine.storage.container')


class World:
    """a real container of arbitrarily many groups in arbitrary states; group 0
    is the primary"""

    def __init__(self, mod, invalid=False):
        c = self.c = ctx()
        self.m = c.fresh('m', I)
        c.assume(self.m >= 1)
        self.store = maps.group_store('G')
        st0 = dict(self.store.f)
        q = z3.Const('gq', I)
        c.assume(z3.ForAll([q], z3.And(st0['cap'](q) >= 1, st0['card'](q) >= 0)))
        others = PvxSeq(simp(self.m - 1), lambda j: GroupContract.at(self.store, j + 1),
                        label='groups', injective=True)
        kind, self.con = outcome(lambda: mod.Container(GroupContract.at(self.store, Z), others))
        if kind == 'exc':
            raise Unsupported(f'the container could not be made: {self.con!r}')
        self.store.f = st0
        c.mutlog.clear()

    def rng(self, j):
        return z3.And(j >= 0, j < self.m)


class Spec:
    """the container as a list of maps, the first of which is written to"""

    def __init__(self, w):
        self.w = w
        self.store = Store('G', **w.store.f)

    def grp(self, j):
        return GroupContract.at(self.store, j)

    def first(self, k):
        """the first group that holds k, or None (fork)"""
        c, w = ctx(), self.w
        has = self.store.f['has']
        q = z3.Const(c.name_of('fq'), I)
        if not c.branch(z3.Exists([q], z3.And(w.rng(q), has(q, k)))):
            return None
        j = c.fresh('first', I)
        c.assume(z3.And(w.rng(j), has(j, k)))
        touch(j)
        c.assume_checked(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < j), z3.Not(has(q, k)))))
        return j

    def read(self, k, default=None):
        j = self.first(k.t)
        return default if j is None else PvxVal(self.store.f['val'](j, k.t))

    def write(self, k, v):
        c, g = ctx(), self.grp(Z)
        if not c.branch(g.m.has(k.t)) and c.branch(g.refuses(k.t)):
            raise contract_error(grp.CapacityError())
        g.m.put(k.t, v.t)

    def delete(self, k):
        has, card = self.store.f['has'], self.store.f['card']
        self.store.replace('has', lambda j, x: z3.And(x != k.t, has(j, x)))
        self.store.replace('card', lambda j: z3.If(has(j, k.t), card(j) - 1, card(j)))
        ctx()


def same_groups(name, w, spec):
    c = ctx()
    j, x = c.fresh('grp', I), c.fresh('any', Key)
    c.assume(w.rng(j))
    touch(j)
    r, s = Map(w.store, j), Map(spec.store, j)
    c.prove(f'{name}: stored ids', r.has(x) == s.has(x))
    c.prove(f'{name}: stored objects', z3.Implies(s.has(x), r.val(x) == s.val(x)))
    c.prove(f'{name}: number of objects', r.card() == s.card())
    c.prove(f'{name}: strictness kept', w.store.f['strict'](j) == spec.store.f['strict'](j))


def same_list(name, w, groups=None):
    """the container still consists of the same groups in the same order"""
    c = ctx()
    gs = groups if groups is not None else hooks.as_seq(w.con.groups)
    if not isinstance(gs, PvxSeq):
        raise Unsupported('the groups are no sequence')
    c.prove(f'{name}: the groups', it(hooks.h_len(gs)) == w.m)
    j = c.fresh('at', I)
    c.assume(w.rng(j))
    c.prove(f'{name}: the groups', gs.elem(j).pvx_same(GroupContract.at(w.store, j)))


def construct(run):
    """Container(primary, groups): the primary first, the others in order"""
    _, mod = load()

    def h():
        c = ctx()
        store = maps.group_store('G')
        n = c.fresh('n', I)
        c.assume(n >= 0)
        p = c.fresh('primary', I)
        st = PvxBool(c.fresh('strict', B))
        groups = PvxSeq(n, lambda j: GroupContract.at(store, j), label='groups', injective=True)
        con = mod.Container(GroupContract.at(store, p), groups, strict=st)
        gs = hooks.as_seq(con.groups)
        prim = GroupContract.at(store, p)
        c.prove('Container: the primary', con.primary.pvx_same(prim))
        c.prove('Container: strictness', z3.And(truthy(con.strict) == st.t,
                                                store.f['strict'](p) == st.t))
        c.prove('Container: the primary is the first group', con.groups[0].pvx_same(prim))
        # position in the list of a given group
        a, b = c.fresh('a', gs.sort), c.fresh('b', gs.sort)
        ga, gb = gs.elem(a), None
        c.assume(gs.member(a))
        c.prove('Container: only the groups given and the primary',
                z3.Or(ga.idx == p, z3.And(ga.idx >= 0, ga.idx < n)))
        c.assume(gs.member(b))
        gb = gs.elem(b)
        c.prove('Container: each group once', z3.Implies(ga.idx == gb.idx, a == b))
        c.prove('Container: the others in the order given', z3.Implies(
            z3.And(ga.idx != p, gb.idx != p, ga.idx < gb.idx), gs.before(a, b)))
        del gb
    run.explore('Container.__init__', h)
    run.covers('citrine.storage.container:Container.__init__',
               'citrine.storage.container:ContainerProperties.strict')


def operation(run, mod, name, make, result, after=None):
    def h():
        w = World(mod)
        spec = Spec(w)
        c = ctx()
        st0 = dict(w.store.f)
        call, args = make()
        stored = Stored(w.con)
        k2, v2 = outcome(lambda: call(w.con))
        stored.check(f'Container.{name}')
        k1, v1 = outcome(lambda: call(spec))
        n = f'Container.{name}'
        if k1 == 'exc' or k2 == 'exc':
            errs = tuple(GroupContract.errors.values())
            same = k1 == k2 and (isinstance(v2, errs) if isinstance(v1, grp.CapacityError)
                                 else type(v1) is type(v2))
            c.prove(f'{n}: refuses exactly what the contract refuses', same,
                    f'contract {k1} {v1!r}, code {k2} {v2!r}')
        else:
            result(n, w, st0, args, v1, v2)
        same_groups(n, w, spec)
        same_list(n, w)
        if after and k2 == 'ok':
            after(n, w, st0, args)
    run.explore(f'Container.{name}', h)
    run.covers(f'citrine.storage.container:Container.{name}')


def ops(run, names):
    _, mod = load()

    def read():
        k, d = key('id'), val('default')
        how = ctx().choose(['none', 'default', 'kw'])
        if how == 'none':
            return (lambda o: o.read(k)), (k, None)
        if how == 'kw':
            return (lambda o: o.read(k, default=d)), (k, d)
        return (lambda o: o.read(k, d)), (k, d)

    def same(n, w, st0, args, v1, v2):
        ctx().prove(f'{n}: result', equal(v1, v2))

    def nothing(n, w, st0, args, v1, v2):
        pass

    def write():
        k, v = key('id'), val('obj')
        if ctx().choose(['positional', 'keywords']) == 'positional':
            return (lambda o: o.write(k, v)), (k, v)
        return (lambda o: o.write(k, v) if isinstance(o, Spec) else o.write(id=k, obj=v)), (k, v)

    def written(n, w, st0, args):
        c = ctx()
        k, v = args
        c.prove(f'{n}: read back', equal(w.con.read(k), v))
        c.prove(f'{n}: reported as present', truthy(w.con.has(k)))

    def delete():
        k = key('id')
        return (lambda o: o.delete(k)), (k,)

    def removed(n, w, st0, args, v1, v2):
        """the removed objects in group order"""
        c = ctx()
        k = args[0].t
        s = hooks.as_seq(v2)
        if s is None or s.sort != I:
            raise Unsupported('what delete returns')
        j = c.fresh('r', I)
        c.prove(f'{n}: returns one object for each group that held the id',
                s.member(j) == z3.And(w.rng(j), st0['has'](j, k)))
        c.assume(s.member(j))
        c.prove(f'{n}: returns the removed objects in group order',
                vt(s.elem(j)) == st0['val'](j, k))

    def gone(n, w, st0, args):
        c = ctx()
        d = val('default')
        c.prove(f'{n}: reads as the default', equal(w.con.read(args[0], d), d))
        c.prove(f'{n}: no longer present', z3.Not(truthy(w.con.has(args[0]))))

    def has():
        k = key('id')
        return (lambda o: o.has(k) if not isinstance(o, Spec) else None), (k,)

    def contains():
        k = key('id')

        def call(o):
            fn = getattr(type(o), '__contains__', None)
            if fn is None:
                raise Unsupported('no __contains__')
            return fn(o, k)
        return (lambda o: call(o) if not isinstance(o, Spec) else None), (k,)

    def counted(n, w, st0, args, v1, v2):
        c = ctx()
        k = args[0].t
        q = z3.Const('hq', I)
        c.prove(f'{n}: true exactly if a group holds it',
                truthy(v2) == z3.Exists([q], z3.And(w.rng(q), st0['has'](q, k))))
    table = {'read': (read, same, None), 'write': (write, nothing, written),
             'delete': (delete, removed, gone), 'has': (has, counted, None),
             '__contains__': (contains, counted, None)}
    for n in names:
        operation(run, mod, n, *table[n])


def metrics(run):
    _, mod = load()

    def h():
        w = World(mod)
        c = ctx()
        con, f = w.con, w.store.f
        c.prove('Container.size: all groups', it(con.size) == sum_term(w.m, lambda j: f['card'](j)))
        c.prove('Container.max_size: all groups',
                it(con.max_size) == sum_term(w.m, lambda j: f['cap'](j)))
        p = GroupContract.at(w.store, Z)
        c.prove('Container.capacity: of the primary', equal(con.capacity, p.max_size))
        c.prove('Container.used: of the primary', equal(con.used, p.size))
        c.prove('Container.usage: of the primary', equal(con.usage, p.usage))
        c.prove('Container.status: of the primary', equal(con.status, p.status))
        c.prove('Container.strict: of the primary', equal(con.strict, p.strict))
        v = PvxBool(c.fresh('wanted', B))
        con.strict = v
        c.prove('Container.strict: setting it', equal(con.strict, v))

    def bad():
        c = ctx()
        w = World(mod)
        p = GroupContract.at(w.store, Z)
        was = p.strict
        v = c.choose([None, 0, 1, 'yes', object()])
        kind, e = outcome(lambda: setattr(w.con, 'strict', v))
        c.prove('Container.strict: only true or false', kind == 'exc' and isinstance(e, TypeError), repr(e))
        c.prove('Container.strict: a refusal changes nothing', equal(p.strict, was))
    run.explore('Container sizes', h)
    run.explore('Container.strict, anything else', bad)
    run.covers(*['citrine.storage.container:ContainerMeta.' + x for x in (
        'size', 'max_size', 'capacity', 'used', 'usage', 'status')])


del PvxInt, mkbool, PvxKey, rt, Val

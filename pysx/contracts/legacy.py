"""citrine.persistence.DbContainer: ids spread over n mappings by a number made
from the id.

Representation invariant: the containers are numbered 0 .. n-1 (n >= 1), and
what container j holds under id k is only what is looked for there, has(j, k)
=> j = route(k, n), where route(k, n) is the container that the code itself
picks for k (the result of its own lookup, shown to be a function of k and n).
Abstractly: one map, has(k) = has(route(k, n), k). The stand-ins for
PersistentMapping are a mapping of ids to objects (Bucket, a finite map in
insertion order) and one of numbers to such mappings (Outer)."""
import z3

from pysx import hooks
from pysx.core import B, I, Key, Unsupported, Val, contract_error, ctx, simp
from pysx.contracts.collection import BARE
from pysx.contracts.common import Stored, equal, key, outcome, val
from pysx.contracts.group import ALLOWED, symbols
from pysx.loops import Rule
from pysx.maps import Map, Persistent, Tree, empty_store, key_of, map_store
from pysx.seq import PvxDict, PvxSeq, sum_term, touch
from pysx.sym import PROCHASH, Pvx, PvxInt, PvxKey, PvxVal, it, kt, mkint, vt
from pysx.transform import Loader


class Bucket(Tree):
    """PersistentMapping of ids to objects"""

    def __init__(self, store, idx):
        self.m = Map(store, simp(idx))

    @property
    def store(self):
        return self.m.store

    def pvx_at(self, store):
        return Bucket(store, self.m.idx)

    def pvx_reindex(self, j, i):
        return Bucket(self.m.store, z3.substitute(self.m.idx, (j, i)))

    def pvx_same(self, o):
        return z3.And(self.m.store is o.m.store, self.m.idx == o.m.idx) \
            if isinstance(o, Bucket) else z3.BoolVal(False)

    def __hash__(self):
        raise Unsupported('hash of a mapping')

    def __getattr__(self, n):
        raise Unsupported(f'PersistentMapping.{n}')

    insert = minKey = maxKey = has_key = iterkeys = itervalues = iteritems = property(
        lambda s: (_ for _ in ()).throw(AttributeError('not a method of PersistentMapping')))


class Outer(Pvx):
    """PersistentMapping (or dict) of the numbers 0 .. n-1 to such mappings"""

    def __init__(self, n, store):
        self.n, self.store = n, store

    def _seq(self, elem, what):
        return PvxSeq(self.n, elem, label=what, injective=True)

    def keys(self):
        return self._seq(lambda j: mkint(j), 'numbers of containers')

    def values(self):
        return self._seq(lambda j: Bucket(self.store, j), 'containers')

    def items(self):
        return self._seq(lambda j: (mkint(j), Bucket(self.store, j)), 'containers')

    def pvx_iter(self):
        return self.keys()

    def pvx_len(self):
        return mkint(self.n)

    def __bool__(self):
        return ctx().branch(self.n > 0)

    def inside(self, k):
        if not isinstance(k, (int, PvxInt)):
            raise Unsupported('the number of a container')
        return ctx().branch(z3.And(it(k) >= 0, it(k) < self.n))

    def __getitem__(self, k):
        if not self.inside(k):
            raise contract_error(KeyError('container'))
        touch(it(k))
        return Bucket(self.store, it(k))

    def get(self, k, default=None):
        return self[k] if self.inside(k) else default

    def __contains__(self, k):
        return self.inside(k)

    def __getattr__(self, n):
        raise Unsupported(f'PersistentMapping.{n}')


def persistent_mapping(*args, **kw):
    c = ctx()
    if kw or len(args) > 1:
        raise Unsupported('arguments of PersistentMapping')
    if not args or isinstance(args[0], dict) and not args[0]:
        if len(c.generic) > 1:
            raise Unsupported('mappings made in nested loops')
        return Bucket(empty_store(c.name_of('bucket')), c.generic[0] if c.generic else z3.IntVal(0))
    d = args[0]
    if isinstance(d, dict) and list(d) == [0] and isinstance(d[0], Bucket):
        return Outer(z3.IntVal(1), d[0].m.store)
    if isinstance(d, PvxDict) and d.pairs.sort == I and d.pairs.keep is None:
        j = c.fresh('number', I)
        c.assume(z3.And(j >= 0, j < d.pairs.n))
        k, b = d.pairs.elem(j)
        if isinstance(b, Bucket) and c.check(z3.Not(z3.And(it(k) == j, b.m.idx == j))) == z3.unsat:
            return Outer(d.pairs.n, b.m.store)
    raise Unsupported('data of a PersistentMapping')


class PersistentMapping:
    def __new__(cls, *args, **kw):
        return persistent_mapping(*args, **kw)


class Refill(Rule):
    """the loop that puts every object listed where it belongs"""

    def __init__(self, w, seq):
        self.w, self.seq = w, seq

    def init(self, env):
        c, w = ctx(), self.w
        o = w.box.containers
        if not isinstance(o, Outer):
            raise Unsupported('containers')
        self.st, self.n = o.store, o.n
        j, k = c.fresh('j', I), c.fresh('k', Key)
        c.prove('expand_size: the new containers are empty at first', z3.Implies(
            z3.And(j >= 0, j < self.n), z3.Not(self.st.f['has'](j, k))))
        # the listing: every id that was held, with its object, once
        p = c.fresh('listed', self.seq.sort)
        c.assume_checked(self.seq.member(p))
        a, b = self.seq.elem(p)
        c.prove('expand_size: what is listed was held', z3.And(
            w.held0(kt(a)), vt(b) == w.object0(kt(a))))
        P = self.seq.sort
        at = P.constructor(0)(w.route0(k), k)
        c.prove('expand_size: what was held is listed', z3.Implies(
            w.held0(k), self.seq.member(at)))
        c.assume(w.held0(k))
        c.prove('expand_size: under its id', equal(self.seq.elem(at)[0], PvxKey(k)))

    def filled(self, k, j, f):
        """container j after the ids `visited` were written"""
        w = self.w
        r = z3.And(self.visited(k), j == w.route1(k))
        return z3.Implies(z3.And(j >= 0, j < self.n), z3.And(
            f['has'](j, k) == r, z3.Implies(r, f['val'](j, k) == w.object0(k))))

    def havoc(self, env):
        c, w = ctx(), self.w
        o = w.box.containers
        self.st, self.n = o.store, o.n
        w.new = self
        m = c.name_of('filled')
        self.V = z3.Function(m + '.visited', Key, B)
        self.visited = lambda k: self.V(k)
        for g, sorts in (('has', (I, Key, B)), ('val', (I, Key, Val)), ('card', (I, I))):
            self.st.replace(g, z3.Function(f'{m}.{g}', *sorts))
        f = self.st.f
        j, k = z3.Const('hj', I), z3.Const('hk', Key)
        c.assume(z3.ForAll([j], f['card'](j) >= 0))
        c.assume(z3.ForAll([k], z3.Implies(self.V(k), w.held0(k))))
        c.assume(z3.ForAll([j, k], self.filled(k, j, f)))
        self.count = c.fresh('written', I)
        card = f['card']
        c.assume(sum_term(self.n, lambda i: card(i)) == self.count)
        self.mark = len(c.mutlog)
        return {}

    def iterate(self, env):
        c = ctx()
        self.at = c.fresh('this', self.seq.sort)
        c.assume_checked(self.seq.member(self.at))
        self.id, obj = self.seq.elem(self.at)
        c.assume(z3.Not(self.V(self.id.t)))
        return self.id, obj

    def preserved(self, env):
        c, w = ctx(), self.w
        for what, _ in c.changes(self.mark):
            if not (isinstance(what, tuple) and what[0] == 'store' and what[1] is self.st):
                raise Unsupported(f'the loop changes {what[0]}')
        this = self.id.t
        self.visited = lambda k: z3.Or(self.V(k), k == this)
        j, k = c.fresh('j', I), c.fresh('k', Key)
        c.prove('expand_size: an object is written where it is looked for',
                self.filled(k, j, self.st.f))
        c.prove('expand_size: and counted', sum_term(self.n, lambda i: self.st.f['card'](i))
                == self.count + 1)

    def finish(self, env):
        c, w = ctx(), self.w
        k = z3.Const('hk', Key)
        c.assume(z3.ForAll([k], self.V(k) == w.held0(k)))
        c.assume(self.count == it(self.seq.count()) if self.seq.over is not None else self.count >= 0)
        return {}


class World:
    def __init__(self, mod, made=None):
        c = self.c = ctx()
        self.mod = mod
        self.store = map_store(c.name_of('cs'))
        self.n = c.fresh('n', I)
        c.assume(self.n >= 1)
        self.f0 = dict(self.store.f)
        j, k = z3.Const('wj', I), z3.Const('wk', Key)
        c.assume(z3.ForAll([j], self.f0['card'](j) >= 0))
        self.box = mod.DbContainer(Outer(self.n, self.store))
        self.new = None
        self.R = {}
        self.n0 = self.n
        r0 = self.route0
        c.assume(z3.ForAll([j, k], z3.Implies(self.f0['has'](j, k), j == r0(k))))

    def where(self, k):
        """the container that the code picks for an id: its own lookup"""
        b = self.box._DbContainer__locate_container(PvxKey(k))
        if not isinstance(b, Bucket):
            raise Unsupported('lookup of a container')
        return b.m.idx

    def routed(self, n):
        """route(., n): the lookup of the code, for an arbitrary id, with n containers"""
        t = self.R.get(str(n))
        if t is None:
            c = self.c
            was = self.box.containers
            x = z3.Const('route?', Key)
            self.box.__dict__['containers'] = Outer(n, self.store)
            try:
                ps = c.nested(lambda: self.where(x))
            finally:
                self.box.__dict__['containers'] = was
            t = self.R[str(n)] = (x, ps)
        return t

    def check_route(self, n, what):
        c = self.c
        x, ps = self.routed(n)
        for p in ps:
            c.prove(f'{what}: every id has a container', z3.Not(p.cond) if p.kind != 'ok' else
                    z3.Implies(p.cond, z3.And(p.val >= 0, p.val < n)), repr(p.val))
        t = self.at_n(n, x)
        free = symbols(t)
        c.prove(f'{what}: the container depends on the id and the number of containers only',
                PROCHASH.name() not in free and free <= ALLOWED | {x.decl().name()} | symbols(n),
                str(sorted(free)))
        k = z3.Const(c.name_of('rk'), Key)
        c.assume(z3.ForAll([k], z3.And(self.at_n(n, k) >= 0, self.at_n(n, k) < n)))

    def at_n(self, n, k):
        x, ps = self.routed(n)
        ok = [p for p in ps if p.kind == 'ok']
        if not ok:
            raise Unsupported('lookup of a container')
        t = ok[-1].val
        for p in ok[:-1]:
            t = z3.If(p.cond, p.val, t)
        return z3.substitute(t, (x, k))

    def route0(self, k):
        return self.at_n(self.n0, k)

    def route1(self, k):
        return self.at_n(self.new.n, k)

    def held0(self, k):
        return self.f0['has'](self.route0(k), k)

    def object0(self, k):
        return self.f0['val'](self.route0(k), k)

    def total(self, f, n):
        return sum_term(n, lambda i: f['card'](i))

    def invariant(self, what):
        """what is kept is where it is looked for"""
        c = self.c
        o = self.box.containers
        j, k = c.fresh('j', I), c.fresh('k', Key)
        c.prove(f'{what}: everything is where it is looked for', z3.Implies(
            z3.And(j >= 0, j < o.n, o.store.f['has'](j, k)), j == self.at_n(o.n, k)))

    def others(self, k, what):
        c = self.c
        x = key('other')
        c.assume(x.t != k.t)
        c.prove(f'{what}: every other id is as before', z3.And(
            self.store.f['has'](self.route0(x.t), x.t) == self.held0(x.t),
            z3.Implies(self.held0(x.t), self.store.f['val'](self.route0(x.t), x.t) == self.object0(x.t))))


def load():
    stubs = {'persistent': {'Persistent': Persistent},
             'persistent.mapping': {'PersistentMapping': PersistentMapping}}
    return Loader(stubs=stubs, bare=BARE).load('citrine.persistence')


def ops(run):
    mod = load()

    def each(op):
        def h():
            c = ctx()
            w = World(mod)
            k, v = key('id'), val('object')
            w.check_route(w.n, 'lookup')
            touch(w.route0(k.t))
            size0 = w.total(w.f0, w.n)
            mark = len(c.mutlog)
            stored = Stored(w.box)
            held = w.held0(k.t)
            # what is held counts
            j = z3.Const('cj', I)
            x = z3.Const('ck', Key)
            c.assume(z3.ForAll([j, x], z3.Implies(w.f0['has'](j, x), w.f0['card'](j) >= 1)))
            if op == 'has':
                kind, r = outcome(lambda: w.box.has(k))
                c.prove('has: does not fail', kind == 'ok', repr(r))
                if kind == 'ok':
                    from pysx.sym import truth
                    c.prove('has: agrees with what was written', truth(r) == held)
            elif op == 'read':
                kind, r = outcome(lambda: w.box.read(k))
                c.prove('read: does not fail', kind == 'ok', repr(r))
                if kind == 'ok' and c.branch(held):
                    c.prove('read: the object', equal(r, PvxVal(w.object0(k.t))))
                elif kind == 'ok':
                    c.prove('read: None for an absent id', r is None)
            elif op == 'size':
                kind, r = outcome(lambda: w.box.size)
                c.prove('size: does not fail', kind == 'ok', repr(r))
                if kind == 'ok':
                    c.prove('size: the number of stored objects', it(r) == size0)
                kind, r = outcome(lambda: w.box.containers_size)
                c.prove('containers_size: the number of containers', kind == 'ok' and
                        it(r) == w.n, repr(r))
            elif op == 'write':
                kind, r = outcome(lambda: w.box.write(k, v))
                c.prove('write: does not fail', kind == 'ok', repr(r))
                if kind != 'ok':
                    return
                kind, r = outcome(lambda: w.box.read(k))
                c.prove('write: the object is read back', equal(r, v) if kind == 'ok' else False)
                kind, r = outcome(lambda: w.box.has(k))
                c.prove('write: the id is present', kind == 'ok' and bool(r))
                w.others(k, 'write')
                w.invariant('write')
                kind, r = outcome(lambda: w.box.size)
                c.prove('write: the size grows with a new id', it(r) == size0 + z3.If(held, 0, 1)
                        if kind == 'ok' else False)
            elif op == 'delete':
                kind, r = outcome(lambda: w.box.delete(k))
                if kind == 'exc':
                    c.prove('delete: fails only with KeyError for an absent id',
                            z3.Not(held) if isinstance(r, KeyError) else False, repr(r))
                    c.prove('delete: a failed one changes nothing', not c.changes(mark))
                    return
                kind, r = outcome(lambda: w.box.read(k))
                c.prove('delete: the id reads as absent', kind == 'ok' and r is None, repr(r))
                kind, r = outcome(lambda: w.box.has(k))
                c.prove('delete: the id is absent', kind == 'ok' and not bool(r))
                w.others(k, 'delete')
                w.invariant('delete')
                kind, r = outcome(lambda: w.box.size)
                c.prove('delete: the size shrinks by the id', it(r) == size0 - z3.If(held, 1, 0)
                        if kind == 'ok' else False)
            stored.check(op)
            if op in ('has', 'read', 'size'):
                c.prove(f'{op}: changes nothing', not c.changes(mark))
        run.explore(f'DbContainer.{op}', h)
        run.covers('citrine.persistence:DbContainer.' + op)
    for op in ('has', 'read', 'size', 'write', 'delete'):
        each(op)
    run.covers('citrine.persistence:DbContainer.__locate_container',
               'citrine.persistence:DbContainer.containers_size')


def creation(run):
    mod = load()

    def h():
        c = ctx()
        given = c.choose([False, True])
        if given:
            n = c.fresh('n', I)
            c.assume(n >= 1)
            o = Outer(n, map_store(c.name_of('cs')))
            kind, b = outcome(lambda: mod.DbContainer(o))
            c.prove('DbContainer: keeps the containers given', kind == 'ok' and b.containers is o)
            return
        kind, b = outcome(lambda: mod.DbContainer())
        c.prove('DbContainer: is made without arguments', kind == 'ok', repr(b))
        o = b.containers
        if not isinstance(o, Outer):
            raise Unsupported('containers')
        j, k = c.fresh('j', I), c.fresh('k', Key)
        c.prove('DbContainer: one container at least', o.n >= 1)
        c.prove('DbContainer: empty', z3.Implies(z3.And(j >= 0, j < o.n), z3.Not(
            o.store.f['has'](j, k))))
        kind, r = outcome(lambda: b.size)
        c.prove('DbContainer: of size 0', it(r) == 0 if kind == 'ok' else False)
    run.explore('DbContainer.__init__', h)
    run.covers('citrine.persistence:DbContainer.__init__')


def expansion(run):
    mod = load()

    def h():
        c = ctx()
        w = World(mod)
        new = PvxInt(c.fresh('new_size', I))
        w.check_route(w.n, 'lookup')
        c.hooks['rules'] = [lambda seq, key: Refill(w, seq) if seq is not None and
                            not c.depth_nested and not c.generic and seq.sort != I
                            and w.new is None else None]
        mark = len(c.mutlog)
        size0 = w.total(w.f0, w.n)
        small = new.t <= w.n
        stored = Stored(w.box)
        kind, r = outcome(lambda: w.box.expand_size(new))
        stored.check('expand_size')
        if kind == 'exc':
            c.prove('expand_size: refused only if the new size is not larger',
                    small if isinstance(r, ValueError) else False, repr(r))
            c.prove('expand_size: a refusal changes nothing', not c.changes(mark))
            return
        c.prove('expand_size: shrinking or an equal size is refused', z3.Not(small))
        o = w.box.containers
        if not isinstance(o, Outer):
            raise Unsupported('containers')
        c.prove('expand_size: as many containers as asked for', o.n == new.t)
        k = key('id')
        w.check_route(o.n, 'lookup after the expansion')
        touch(w.at_n(o.n, k.t))
        kind, r = outcome(lambda: w.box.read(k))
        c.prove('expand_size: reading does not fail', kind == 'ok', repr(r))
        if kind == 'ok':
            if c.branch(w.held0(k.t)):
                c.prove('expand_size: every object is read as before', equal(r, PvxVal(w.object0(k.t))))
            else:
                c.prove('expand_size: absent ids stay absent', r is None)
        kind, r = outcome(lambda: w.box.has(k))
        c.prove('expand_size: presence is as before', kind == 'ok' and bool(r) ==
                c.branch(w.held0(k.t)))
        w.invariant('expand_size')
        kind, r = outcome(lambda: w.box.size)
        c.prove('expand_size: the size is as before', it(r) == size0 if kind == 'ok' else False)
    run.explore('DbContainer.expand_size', h)
    run.covers('citrine.persistence:DbContainer.expand_size')


# ------------------------------------------------------------------ the connection
class BoxContract:
    """contract of DbContainer: one map"""

    def __init__(self, commits):
        c = ctx()
        self.m = Map(map_store(c.name_of('box')), z3.IntVal(0))
        self.n = c.fresh('containers', I)
        c.assume(self.n >= 1)
        self.commits = commits

    def __getattr__(self, n):
        raise Unsupported(f'DbContainer.{n} is not part of the contract')

    @property
    def size(self):
        return mkint(self.m.card())

    @property
    def containers_size(self):
        return mkint(self.n)

    def read(self, id):
        return PvxVal(self.m.val(kt(id))) if ctx().branch(self.m.has(kt(id))) else None

    def has(self, id):
        return ctx().branch(self.m.has(kt(id)))

    def write(self, id, obj):
        self.m.put(kt(id), vt(obj))

    def delete(self, id):
        if not ctx().branch(self.m.has(kt(id))):
            raise contract_error(KeyError('id'))
        self.m.drop(kt(id))

    def expand_size(self, new_size):
        if ctx().branch(it(new_size) <= self.n):
            raise contract_error(ValueError('size'))
        self.n = it(new_size)


class TMBase:
    def __init__(self, explicit=False):
        self.pvx_events = []

    def __enter__(self):
        self.pvx_events.append('begin')

    def commit(self):
        self.pvx_events.append('commit')

    def abort(self):
        self.pvx_events.append('abort')


class Logger:
    def setLevel(self, *a):
        pass

    info = error = warning = setLevel


class ConnectionBase:
    def __init__(self, db=None, cache_size=400, before=None, cache_size_bytes=0):
        self.root = db

    def open(self, tm=None):
        self.pvx_opened = tm


class Root:
    pass


def connection(run):
    stubs = {'persistent': {'Persistent': Persistent},
             'persistent.mapping': {'PersistentMapping': PersistentMapping},
             'transaction': {'ThreadTransactionManager': TMBase, 'TransactionManager': TMBase},
             'logging': {'getLogger': lambda *a: Logger(), 'INFO': 20, 'warning': lambda *a: None},
             'ZODB': {}, 'ZODB.Connection': {'Connection': ConnectionBase},
             'citrine.storage.container': {'Container': object, 'Metadata': object}}
    L = Loader(stubs=stubs, bare=BARE)
    per, mod = L.load('citrine.persistence'), L.load('citrine.connection.connection')

    def h():
        c = ctx()
        op = c.choose(['create', 'update', 'read', 'delete', 'item', 'items', 'size', 'grow',
                       'set up'])
        root = Root()
        box = root.container = BoxContract(None)
        root.meta = None
        kind, tm = outcome(per.CitrineTransactionManager)
        c.prove('legacy connection: its transaction manager is made', kind == 'ok', repr(tm))
        kind, conn = outcome(lambda: mod.CitrineConnection(root, transaction_manager=tm))
        c.prove('legacy connection: is made', kind == 'ok', repr(conn))
        k, v = key('id'), val('object')
        f0 = dict(box.m.store.f)
        had, was = f0['has'](z3.IntVal(0), k.t), PvxVal(f0['val'](z3.IntVal(0), k.t))
        n0 = box.n
        mark = len(c.mutlog)
        if op in ('create', 'update'):
            kind, r = outcome(lambda: getattr(conn, op)(k, v))
            c.prove(f'legacy {op}: does not fail', kind == 'ok', repr(r))
            c.prove(f'legacy {op}: the object is stored', z3.And(
                box.m.has(k.t), box.m.val(k.t) == v.t))
            c.prove(f'legacy {op}: committed once', tm.pvx_events == ['begin', 'commit'],
                    str(tm.pvx_events))
        elif op == 'delete':
            kind, r = outcome(lambda: conn.delete(k))
            if kind == 'exc':
                c.prove('legacy delete: fails only for an absent id', z3.Not(had) if isinstance(
                    r, KeyError) else False, repr(r))
                c.prove('legacy delete: a failed one is aborted', tm.pvx_events == ['begin', 'abort'],
                        str(tm.pvx_events))
                return
            c.prove('legacy delete: the id is absent', z3.Not(box.m.has(k.t)))
            c.prove('legacy delete: committed once', tm.pvx_events == ['begin', 'commit'],
                    str(tm.pvx_events))
        elif op in ('read', 'item', 'items'):
            k2 = key('other')
            kind, r = outcome(lambda: conn.read(k) if op == 'read' else conn[k] if op == 'item'
                              else conn[[k, k2]])
            c.prove(f'legacy {op}: does not fail', kind == 'ok', repr(r))
            if op == 'items':
                c.prove('legacy items: one for each id', isinstance(r, list) and len(r) == 2)
                h2 = f0['has'](z3.IntVal(0), k2.t)
                c.prove('legacy items: in the order given', z3.And(*[
                    z3.Not(h) if x is None else z3.And(h, equal(x, PvxVal(f0['val'](z3.IntVal(0), kk.t))))
                    for x, h, kk in ((r[0], had, k), (r[1], h2, k2))]))
            else:
                c.prove(f'legacy {op}: the object, or None', z3.Not(had) if r is None else
                        z3.And(had, equal(r, was)))
            c.prove(f'legacy {op}: changes nothing', not c.changes(mark) and not tm.pvx_events)
            return
        elif op == 'size':
            kind, r = outcome(lambda: conn.size)
            c.prove('legacy size: that of the store', kind == 'ok' and equal(r, box.size))
            kind, r = outcome(conn.num_containers)
            c.prove('legacy num_containers: those of the store', kind == 'ok' and
                    equal(r, box.containers_size))
            return
        elif op == 'grow':
            g = PvxInt(c.fresh('num', I))
            kind, r = outcome(lambda: conn.expand_containers(g))
            c.prove('legacy expand_containers: refused only if nothing is added',
                    kind == 'ok' or (g.t <= 0 if isinstance(r, ValueError) else False), repr(r))
            c.prove('legacy expand_containers: as many more as asked for',
                    z3.Implies(g.t > 0, box.n == n0 + g.t))
            c.prove('legacy expand_containers: committed, or aborted', tm.pvx_events == [
                'begin', 'commit' if kind == 'ok' else 'abort'], str(tm.pvx_events))
        else:
            kind, r = outcome(conn.setup)
            c.prove('legacy setup: keeps a store that is there', kind == 'ok' and
                    root.container is box and not c.changes(mark), repr(r))
            del root.container
            kind, r = outcome(conn.setup)
            c.prove('legacy setup: makes a store where there is none', kind == 'ok' and
                    isinstance(root.container, per.DbContainer), repr(r))
        x = key('another')
        c.assume(x.t != k.t)
        h0, v0 = f0['has'](z3.IntVal(0), x.t), f0['val'](z3.IntVal(0), x.t)
        c.prove(f'legacy {op}: every other id is as before', z3.And(
            box.m.has(x.t) == h0, z3.Implies(h0, box.m.val(x.t) == v0)))
    run.explore('CitrineConnection', h)
    run.covers(*['citrine.connection.connection:CitrineConnection.' + n for n in (
        'create', 'update', 'read', 'delete', '__getitem__', 'size', 'num_containers',
        'expand_containers', 'setup', '__enter__', '__exit__')], 'citrine.persistence:autocommit',
        'citrine.persistence:CitrineTransactionManager.__enter__',
        'citrine.persistence:CitrineTransactionManager.__exit__')


del hooks, key_of

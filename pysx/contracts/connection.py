"""ContainerConnection and the transaction managers.

The real connection runs on a real Container (over the contract of Group) and
on the real transaction manager classes; the base classes they extend - those
of the transaction and ZODB packages - are stand-ins that count begins, commits
and aborts, and that publish and take back the state of the container.
"""
import types

import z3

from pysx import hooks, maps
from pysx.core import B, I, Key, NONE, Unsupported, Val, contract_error, ctx
from pysx.contracts import container as con
from pysx.contracts import group as grp
from pysx.contracts.common import equal, key, outcome, truthy, val
from pysx.maps import GroupContract
from pysx.seq import arbitrary_seq
from pysx.sym import PvxBool, PvxInt, PvxKey, PvxVal, kt, vt


class CommitRefused(Exception):
    """what a commit may fail with"""


class Raised(Exception):
    """what the body of a block may fail with"""


# an exception of any kind: also ones that are no Exception (an interrupt, a
# generator that is closed), and ones that are something else as well (a storage
# that cannot find an object raises a KeyError)
RAISED = (Raised, KeyError, ValueError, AttributeError, StopIteration, OSError, RuntimeError,
          AssertionError, KeyboardInterrupt, SystemExit, GeneratorExit)


def whatever(fn):
    """outcome(), of whatever the body of a block may raise"""
    try:
        return outcome(fn)
    except RAISED as e:
        return 'exc', e


class TMBase:
    """transaction.TransactionManager and ThreadTransactionManager: begin()
    starts from the last committed state, commit() publishes the current one or
    is refused (and then nothing is kept), abort() goes back"""
    world = None

    def __init__(self, explicit=False):
        self.pvx_explicit = explicit

    def __enter__(self):
        return self.begin()

    def begin(self):
        self.world.event('begin')
        self.world.rollback()
        return object()

    def commit(self):
        w = self.world
        w.event('commit')
        if ctx().choose(['done', 'refused']) == 'refused':
            w.event('refused')
            w.rollback()
            raise contract_error(CommitRefused('commit'))
        w.publish()

    def abort(self):
        self.world.event('abort')
        self.world.rollback()

    def __exit__(self, t, v, tb):
        if v is None:
            self.commit()
        else:
            self.abort()


class ThreadTMBase(TMBase):
    def __init__(self):
        super().__init__()


class Logger:
    def setLevel(self, *a):
        pass

    info = error = warning = debug = exception = critical = log = setLevel


class ConnectionBase:
    """ZODB.Connection.Connection: opened with a transaction manager, it has the
    root of the database"""
    world = None

    def __init__(self, db, cache_size=400, before=None, cache_size_bytes=0):
        self.pvx_db = db
        self.pvx_options = {'cache_size': cache_size, 'before': before,
                            'cache_size_bytes': cache_size_bytes}
        self.pvx_opened = None

    def open(self, transaction_manager=None, delegate=True):
        self.pvx_opened = self.transaction_manager = transaction_manager

    @property
    def root(self):
        return self.pvx_db.pvx_root


class Uuids:
    def __init__(self):
        self.n = 0

    def uuid4(self):
        self.n += 1
        return f'uuid-{self.n}'


def load():
    u = Uuids()
    logging = {'getLogger': lambda *a: Logger(), 'INFO': 20}
    stubs = {
        'logging': logging,
        'transaction': {'ThreadTransactionManager': ThreadTMBase, 'TransactionManager': TMBase},
        'ZODB': {}, 'ZODB.Connection': {'Connection': ConnectionBase},
        'uuid': {'uuid4': u.uuid4, 'UUID': str},
    }
    L, cmod = con.load()
    L.stubs.update(stubs)
    errors = L.load('citrine.exceptions')
    return L, cmod, errors, L.load('citrine.storage.transaction'), L.load(
        'citrine.connection.container_connection')


class World(con.World):
    """a container in an arbitrary state, all of it committed"""

    def __init__(self, cmod):
        super().__init__(cmod)
        self.events = []
        self.committed = None
        TMBase.world = ConnectionBase.world = self
        self.publish()
        self.initial = self.committed

    def event(self, e):
        self.events.append(e)

    def state(self):
        return (dict(self.store.f), {k: v for k, v in vars(self.con).items()})

    def publish(self):
        self.committed = self.state()

    def rollback(self):
        f, attrs = self.committed
        self.store.f = dict(f)
        vars(self.con).clear()
        vars(self.con).update(attrs)

    def count(self, e):
        return self.events.count(e)

    def untouched(self, name):
        """the container is as it was to begin with"""
        self.same(name, self.initial)

    def same(self, name, state):
        s = con.Spec(self)
        s.store.f = dict(state[0])
        con.same_groups(name, self, s)
        con.same_list(name, self)

    def published(self, name):
        """what is committed is what is there"""
        s = con.Spec(self)
        s.store.f = dict(self.committed[0])
        con.same_groups(name, self, s)


def connect(w, mods, autocommit=True, tm=None):
    L, cmod, errors, tmod, xmod = mods
    db = types.SimpleNamespace(database_name='name', pvx_root=types.SimpleNamespace(container=w.con))
    if tm == 'thread':
        tm = tmod.ThreadTransactionManager()
    elif tm == 'single':
        tm = tmod.TransactionManager()
    kw = {'transaction_manager': tm} if tm is not None else {}
    if autocommit is not True:
        kw['autocommit'] = autocommit
    kind, c = outcome(lambda: xmod.ContainerConnection(db, **kw))
    if kind == 'exc':
        raise Unsupported(f'the connection could not be made: {c!r}')
    return c


def is_(x, b):
    t = truthy(x)
    return t if b else z3.Not(t)


class ContainerContract:
    """a container as containers('read', 'has') prove it to be: one map, whose
    has() is the number of groups that hold the id"""
    strict = False

    def __init__(self):
        c = ctx()
        self.val = c.func('stored', Key, Val)
        self.count = c.func('holders', Key, I)
        x = z3.Const('cx', Key)
        c.assume(z3.ForAll([x], self.count(x) >= 0))

    def there(self, k):
        return self.count(k) >= 1

    def has(self, k):
        return PvxInt(self.count(kt(k)))

    def read(self, k, default=None):
        return PvxVal(z3.If(self.there(kt(k)), self.val(kt(k)), vt(default)))


class Model:
    """what C11 says about a container"""

    def __init__(self, spec, errors):
        self.s, self.e = spec, errors

    def create(self, k, v):
        if self.s.first(k.t) is not None:
            raise contract_error(self.e.ObjectOverwriteError(id='x'))
        self.s.write(k, v)

    def update(self, k, v):
        old = self.s.read(k, None)
        self.s.write(k, v)
        return old

    def delete(self, k):
        self.s.delete(k)

    def read(self, k, default=None):
        return self.s.read(k, default)


OPS = ('create', 'update', 'delete')


def arguments(op):
    k = key('id')
    if op == 'delete':
        return (k,)
    return (k, val('obj'))


def same_error(a, b):
    errs = tuple(GroupContract.errors.values())
    return isinstance(b, errs) if isinstance(a, grp.CapacityError) else type(a) is type(b)


def operations(run, op):
    """each change, automatic commits on or off, in a block or not"""
    mods = load()

    def h():
        c = ctx()
        w = World(mods[1])
        tm = c.choose([None, 'thread', 'single'])
        mode = c.choose(['auto', 'off', 'switched off', 'block', 'on again', 'handed out again',
                         'handed out again, off', 'manager off'])
        conn = connect(w, mods, autocommit=mode != 'off', tm=tm)
        if mode == 'switched off':
            conn.autocommit = False
        if mode == 'on again':
            conn.autocommit = False
            conn.autocommit = True
        if mode == 'block':
            kind, _ = outcome(conn.__enter__)
            c.prove('block: is entered without a commit', kind == 'ok' and not w.count('commit'))
        if mode.startswith('handed'):
            # the database keeps closed connections and opens them with the next manager
            conn.autocommit = mode.endswith('off')
            other = mods[3].TransactionManager()
            other.autocommit = not mode.endswith('off')
            conn.open(other)
        if mode == 'manager off':
            conn.transaction_manager.autocommit = False
        auto = mode in ('auto', 'on again', 'handed out again')
        c.prove('connection: it says of automatic commits what is so', is_(conn.autocommit, auto))
        n = f"connection.{op}, {'automatic commits' if auto else 'in a block' if mode == 'block' else 'commits off'}"
        w.events.clear()
        spec = con.Spec(w)
        args = arguments(op)
        st0 = dict(w.store.f)
        k2, v2 = outcome(lambda: getattr(conn, op)(*args))
        model = Model(spec, mods[2])
        k1, v1 = outcome(lambda: getattr(model, op)(*args))
        if auto:
            refused = w.count('refused')
            if k2 == 'ok':
                c.prove(f'{n}: committed exactly once', w.count('commit') == 1 and not refused
                        and w.count('abort') == 0, str(w.events))
                w.published(f'{n}: everything is committed')
            else:
                c.prove(f'{n}: an exception commits nothing',
                        w.count('commit') == refused, str(w.events))
                c.prove(f'{n}: an exception aborts', w.count('abort') >= 1 or refused,
                        str(w.events))
                w.untouched(f'{n}: an exception leaves nothing behind')
                c.prove(f'{n}: a refused commit is reported',
                        isinstance(v2, CommitRefused) == bool(refused), repr(v2))
            c.prove(f'{n}: automatic commits stay on', z3.And(
                is_(conn.transaction_manager.autocommit, True), is_(conn.autocommit, True)))
            if refused:
                return
        else:
            c.prove(f'{n}: nothing is committed or aborted', not w.events, str(w.events))
            c.prove(f'{n}: the mode is kept', is_(conn.transaction_manager.autocommit, False))
        if k1 == 'exc' or k2 == 'exc':
            c.prove(f'connection.{op}: raises exactly what it should',
                    k1 == k2 and same_error(v1, v2), f'contract {k1} {v1!r}, code {k2} {v2!r}')
            if k1 == k2:
                w.untouched(f'connection.{op}: an error changes nothing')
            return
        con.same_groups(f'connection.{op}', w, spec)
        con.same_list(f'connection.{op}', w)
        if op == 'update':
            c.prove('connection.update: returns what was replaced', equal(v1, v2))
        if op == 'delete':
            s = hooks.as_seq(v2)
            if s is None or s.sort != I:
                raise Unsupported('what delete returns')
            j, k = c.fresh('r', I), args[0].t
            c.prove('connection.delete: returns what was removed',
                    s.member(j) == z3.And(w.rng(j), st0['has'](j, k)))
            c.assume(s.member(j))
            c.prove('connection.delete: returns what was removed',
                    s.elem(j).t == st0['val'](j, k) if isinstance(s.elem(j), PvxVal) else False)
    run.explore(f'ContainerConnection.{op}', h)
    run.covers(f'citrine.connection.container_connection:ContainerConnection.{op}',
               'citrine.storage.transaction:autocommit',
               'citrine.connection.container_connection:ContainerConnectionProperties.autocommit')


def decorated(run):
    """autocommit on a method of any object that has a manager"""
    mods = load()

    def h():
        c = ctx()
        w = World(mods[1])
        conn = connect(w, mods, autocommit=True, tm=c.choose(['thread', 'single']))
        tm = conn.transaction_manager
        mode = c.choose(['auto', 'off', 'block'])
        how = c.choose(['returns', 'raises'])
        n = f'autocommit of any method, {mode}'
        if mode == 'off':
            tm.autocommit = False
        res, calls, raised, left = val('result'), [], [], []
        k, a, kw = key('id'), val('arg'), val('kwarg')

        def method(self, *args, **kwargs):
            calls.append((self, args, kwargs))
            # it may do anything to what is stored
            f = maps.group_store('later').f
            q = z3.Const('gq', I)
            c.assume(z3.ForAll([q], z3.And(f['cap'](q) >= 1, f['card'](q) >= 0)))
            for x in ('has', 'val', 'card'):
                w.store.f[x] = f[x]
            left.append(w.state())
            if how == 'raises':
                raised.append(contract_error(c.choose(RAISED)('method')))
                raise raised[0]
            return res
        obj = type('Decorated', (), {'transaction_manager': tm,
                                     'method': mods[3].autocommit(method)})()
        if mode == 'block':
            tm.__enter__()
        w.events.clear()
        kind, e = whatever(lambda: obj.method(k, a, extra=kw))
        c.prove(f'{n}: it is called once, with what was given', len(calls) == 1 and
                calls[0][0] is obj and len(calls[0][1]) == 2 and calls[0][1][0] is k and
                calls[0][1][1] is a and list(calls[0][2]) == ['extra'] and
                calls[0][2]['extra'] is kw, str(len(calls)))
        refused = w.count('refused')
        if how == 'raises':
            c.prove(f'{n}: its exception comes out', kind == 'exc' and e is raised[0], repr(e))
        else:
            c.prove(f'{n}: its result comes out', kind == 'ok' and e is res if not refused else
                    kind == 'exc' and isinstance(e, CommitRefused), repr(e))
        if mode != 'auto':
            c.prove(f'{n}: nothing is committed or aborted', not w.events, str(w.events))
            c.prove(f'{n}: the mode is kept', is_(tm.autocommit, False))
            return
        c.prove(f'{n}: the mode is kept', is_(tm.autocommit, True))
        if how == 'raises':
            c.prove(f'{n}: an exception commits nothing, and aborts',
                    w.count('commit') == 0 and w.count('abort') >= 1, str(w.events))
            w.untouched(f'{n}: an exception leaves nothing behind')
        elif refused:
            w.untouched(f'{n}: a refused commit leaves nothing behind')
        else:
            c.prove(f'{n}: exactly one commit', w.count('commit') == 1 and w.count('abort') == 0,
                    str(w.events))
            w.same(f'{n}: what it did is there', left[0])
            w.published(f'{n}: what it did is committed')
    run.explore('autocommit', h)
    run.covers('citrine.storage.transaction:autocommit')


def block(run):
    """a block as a whole: what happens inside leaves the container in an
    arbitrary state and commits nothing (operations(), in a block)"""
    mods = load()

    def h():
        c = ctx()
        w = World(mods[1])
        tm = c.choose([None, 'thread', 'single'])
        auto = c.choose([True, False])
        which = c.choose(['connection', 'manager'])
        conn = connect(w, mods, autocommit=auto, tm=tm)
        w.events.clear()
        blk = conn if which == 'connection' else conn.transaction_manager
        k, v = key('id'), val('obj')
        how = c.choose(['normal', 'exception', 'operation fails'])
        seen = []

        def body():
            with blk:
                seen.append(list(w.events))
                seen.append(conn.transaction_manager.autocommit)
                # any number of changes: an arbitrary state of the container
                f = maps.group_store('later').f
                q = z3.Const('gq', I)
                c.assume(z3.ForAll([q], z3.And(f['cap'](q) >= 1, f['card'](q) >= 0)))
                for n in ('has', 'val', 'card'):
                    w.store.f[n] = f[n]
                inside.append(w.state())
                if how == 'operation fails':
                    conn.create(k, v)
                    inside.append(w.state())
                if how == 'exception':
                    raised.append(contract_error(c.choose(RAISED)('body')))
                    raise raised[0]
        inside, raised = [], []
        kind, e = whatever(body)
        c.prove('block: opens with a begin, commits nothing', 'commit' not in seen[0]
                and 'abort' not in seen[0], str(seen[0]))
        c.prove('block: no automatic commits inside', is_(seen[1], False))
        refused = w.count('refused')
        if how == 'exception' or (kind == 'exc' and not refused):
            c.prove('block, exception: it propagates', kind == 'exc' and not isinstance(
                e, CommitRefused) and (not raised or e is raised[0]), repr(e))
            c.prove('block, exception: no commit', w.count('commit') == 0, str(w.events))
            c.prove('block, exception: aborts', w.count('abort') >= 1, str(w.events))
            w.untouched('block, exception: nothing is left')
        elif refused:
            c.prove('block, commit refused: it is reported', kind == 'exc' and isinstance(
                e, CommitRefused), repr(e))
            w.untouched('block, commit refused: nothing is left')
        else:
            c.prove('block, normal end: exactly one commit', kind == 'ok' and w.count('commit') == 1
                    and w.count('abort') == 0, str(w.events))
            w.same('block, normal end: all of it is there', inside[-1])
            w.published('block, normal end: all of it is committed')
        c.prove('block: automatic commits are on again (manager)',
                is_(conn.transaction_manager.autocommit, True))
        c.prove('block: automatic commits are on again (connection)', is_(conn.autocommit, True))
    run.explore('transaction blocks', h)
    run.covers('citrine.connection.container_connection:ContainerConnection.__enter__',
               'citrine.connection.container_connection:ContainerConnection.__exit__',
               *[f'citrine.storage.transaction:{k}.{m}' for k in (
                   'TransactionManager', 'ThreadTransactionManager')
                 for m in ('__init__', '__enter__', '__exit__')])


def reading(run):
    """read and item access"""
    mods = load()

    def one():
        c = ctx()
        w = World(mods[1])
        conn = connect(w, mods)
        w.events.clear()
        spec, k, d = con.Spec(w), key('id'), val('default')
        how = c.choose(['read', 'read or default', 'item'])
        if how == 'read':
            r = outcome(lambda: conn.read(k))
            c.prove('connection.read: the object or None',
                    equal(r[1], spec.read(k)) if r[0] == 'ok' else False)
        elif how == 'read or default':
            r = outcome(lambda: conn.read(k, default=d))
            c.prove('connection.read: the object or the default',
                    equal(r[1], spec.read(k, d)) if r[0] == 'ok' else False)
        else:
            kind, v = outcome(lambda: conn[k])
            if spec.first(k.t) is None:
                c.prove('connection[id]: KeyError if it is absent',
                        kind == 'exc' and type(v) is KeyError, f'{kind} {v!r}')
            else:
                c.prove('connection[id]: the object',
                        equal(v, spec.read(k)) if kind == 'ok' else False, f'{kind} {v!r}')
        w.untouched('connection: reading changes nothing')
        c.prove('connection: reading commits nothing', not w.events)

    def several():
        c = ctx()
        w = World(mods[1])
        w.con = ContainerContract()
        conn = connect(w, mods)
        w.events.clear()
        f = c.func('id', I, Key)
        ids = arbitrary_seq('ids', lambda t: PvxKey(f(t)))
        q = z3.Const('iq', I)
        there = w.con.there
        some = z3.Exists([q], z3.And(ids.member(q), there(f(q))))
        kind, v = outcome(lambda: conn[ids])
        n = 'connection[ids]'
        if kind == 'exc':
            c.prove(f'{n}: KeyError only if none is present',
                    z3.Not(some) if type(v) is KeyError else False, repr(v))
            return
        c.prove(f'{n}: refused if none is present', some)
        s = hooks.as_seq(v)
        if s is None or s.sort != I:
            raise Unsupported('what [ids] returns')
        j = c.fresh('r', I)
        c.prove(f'{n}: as many as there are ids', s.member(j) == ids.member(j))
        c.assume(ids.member(j))
        e = s.elem(j)
        if c.branch(there(f(j))):
            c.prove(f'{n}: the objects in the order of the ids', equal(e, PvxVal(w.con.val(f(j)))))
        else:
            c.prove(f'{n}: None for absent ids', vt(e) == NONE)
    run.explore('ContainerConnection.read, [id]', one)
    run.explore('ContainerConnection[ids]', several)
    run.covers('citrine.connection.container_connection:ContainerConnection.read',
               'citrine.connection.container_connection:ContainerConnection.__getitem__')


def metrics(run):
    """what a connection reports of its container, and its strictness"""
    mods = load()

    def h():
        c = ctx()
        w = World(mods[1])
        conn = connect(w, mods)
        w.events.clear()
        p = con.GroupContract.at(w.store, con.Z)
        for n, g in (('capacity', 'max_size'), ('used', 'size'), ('usage', 'usage'),
                     ('status', 'status'), ('strict', 'strict')):
            kind, v = outcome(lambda: getattr(conn, n))
            c.prove(f'connection.{n}: of the primary group', equal(v, getattr(p, g))
                    if kind == 'ok' else False, repr(v))
        w.untouched('connection: reporting changes nothing')
        if c.choose(['strictness', 'anything else']) == 'strictness':
            v = PvxBool(c.fresh('wanted', B))
            kind, e = outcome(lambda: setattr(conn, 'strict', v))
            c.prove('connection.strict: can be set', kind == 'ok', repr(e))
            c.prove('connection.strict: setting it sets it on the primary group',
                    equal(p.strict, v))
            c.prove('connection.strict: afterwards it reads as set', equal(conn.strict, v))
        else:
            v = c.choose([None, 0, 1, 'yes', object()])
            kind, e = outcome(lambda: setattr(conn, 'strict', v))
            c.prove('connection.strict: only true or false', kind == 'exc' and isinstance(e, TypeError))
            w.untouched('connection.strict: a refusal changes nothing')
    run.explore('connection sizes', h)
    run.covers(*[f'citrine.connection.container_connection:ContainerConnectionProperties.{n}' for n in (
        'capacity', 'used', 'usage', 'status', 'strict', 'meta', 'container')],
        *[f'citrine.connection.container_connection:ContainerConnectionMeta.{n}' for n in (
            'capacity', 'used', 'usage', 'status', 'strict')])


def opening(run):
    """a connection needs a container; its options reach the base class"""
    mods = load()

    def h():
        c = ctx()
        w = World(mods[1])
        L, cmod, errors, tmod, xmod = mods
        root = c.choose(['container', 'nothing', 'None'])
        r = types.SimpleNamespace()
        if root == 'container':
            r.container = w.con
        elif root == 'None':
            r.container = None
        db = types.SimpleNamespace(database_name='name', pvx_root=r)
        auto = c.choose([True, False])
        tm = tmod.ThreadTransactionManager()
        a, b, d = object(), object(), object()
        kind, v = outcome(lambda: xmod.ContainerConnection(
            db, cache_size=a, before=b, cache_size_bytes=d, transaction_manager=tm, autocommit=auto))
        if root != 'container':
            c.prove('connection: refused without a store', kind == 'exc' and isinstance(
                v, errors.IncompatibleDatabaseError), f'{kind} {v!r}')
            return
        c.prove('connection: opened on a store', kind == 'ok', repr(v))
        if kind != 'ok':
            return
        c.prove('connection: opened with its manager', v.pvx_opened is tm
                and v.transaction_manager is tm)
        c.prove('connection: options reach the base class', v.pvx_options == {
            'cache_size': a, 'before': b, 'cache_size_bytes': d} and v.pvx_db is db)
        c.prove('connection: automatic commits as asked', z3.And(
            is_(v.autocommit, auto), is_(tm.autocommit, auto)))
        c.prove('connection: the store of the database', v.container is w.con)
        for n in ('capacity', 'used', 'usage', 'status', 'strict'):
            c.prove(f'connection.{n}: that of the container', equal(getattr(v, n), getattr(w.con, n)))
        w.untouched('connection: opening changes nothing')
        c.prove('connection: opening commits nothing', not w.count('commit'))
    run.explore('ContainerConnection.__init__', h)
    run.covers('citrine.connection.container_connection:ContainerConnection.__init__',
               'citrine.connection.container_connection:ContainerConnectionMeta.__init__',
               *['citrine.connection.container_connection:ContainerConnectionProperties.' + n
                 for n in ('container', 'meta', 'capacity', 'used', 'usage', 'status', 'strict')])

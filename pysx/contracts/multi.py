"""GroupReadConnection over the contract of a connection: read(id) is the object
held, or None (a stored None cannot be told from an absent one). asyncio is a
stand-in that runs each task in one go, in the order they are made; the
coroutines of the code under contract do not await anything on the way. The
event loop, and what else runs in it, is not modelled."""
import datetime
import inspect
import types

import z3

from pysx import hooks
from pysx.core import I, Key, NONE, Unsupported, Val, artefact, contract_error, ctx
from pysx.contracts.collection import BARE
from pysx.contracts.common import equal, key, outcome
from pysx.data import SKIP, Merged, NameMap
from pysx.loops import Rule
from pysx.seq import PvxSeq, touch
from pysx.sym import Pvx, PvxKey, PvxVal, kt
from pysx.transform import Loader


class Conn(Pvx):
    """connection number idx of the group"""
    held = val = None

    def __init__(self, idx):
        self.idx = idx

    def pvx_reindex(self, j, i):
        return Conn(z3.simplify(z3.substitute(self.idx, (j, i))))

    def pvx_same(self, o):
        return self.idx == o.idx if isinstance(o, Conn) else z3.BoolVal(False)

    def __hash__(self):
        raise Unsupported('hash of a connection')

    def read(self, id, default=None):
        k = kt(id)
        return PvxVal(z3.If(Conn.held(self.idx, k), Conn.val(self.idx, k), NONE))

    def __getattr__(self, n):
        raise Unsupported(f'connection.{n}')


class Task(Pvx):
    pvx_local = True

    def __init__(self, group, val):
        self.group, self.val = group, val

    def pvx_reindex(self, j, i):
        from pysx.seq import reindex
        return Task(self.group, reindex(self.val, j, i))

    def result(self):
        if self.group.open:
            raise contract_error(RuntimeError('result of an unfinished task'))
        return self.val

    def pvx_await(self):
        return self.val


class TaskGroup:
    pvx_async = True

    def __init__(self):
        self.open = False

    def __enter__(self):
        self.open = True
        return self

    def create_task(self, coro, **k):
        if not self.open:
            raise contract_error(RuntimeError('task group is not open'))
        return Task(self, coro.run())

    def __exit__(self, *a):
        self.open = False
        return False


class timeout:
    pvx_async = True
    late = False
    given = None

    def __init__(self, s):
        self.s = s
        if timeout.given is not None and s is not None:
            ctx().prove('group read: waits as long as it was told', s >= timeout.given.total_seconds(),
                        f'{s} s, told {timeout.given!r}')

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if t is None and self.s is not None and ctx().choose(['in time', 'late']) == 'late':
            timeout.late = True
            raise contract_error(TimeoutError())
        return False


def load():
    def run(coro):
        return coro.run()
    stubs = {'asyncio': {'timeout': timeout, 'run': run, 'TaskGroup': TaskGroup}}
    L = Loader(stubs=stubs, bare=BARE)
    return L.load('citrine.exceptions'), L.load('citrine.connection.group_connection')


def reading(run):
    errors, mod = load()

    def h():
        c = ctx()
        held = Conn.held = c.func('held', I, Key, z3.BoolSort())
        val = Conn.val = c.func('object', I, Key, Val)
        timeout.late = False
        x, i = z3.Const('mx', Key), z3.Const('mi', I)
        c.assume(z3.ForAll([i, x], val(i, x) != NONE))
        m = c.fresh('m', I)
        c.assume(m >= 0)
        grp = mod.GroupReadConnection(())
        grp.connections = PvxSeq(m, lambda j: Conn(j), label='connections', injective=True)
        k = key('id')
        t = c.choose(['none', 'zero', 'short', 'half', 'days'])
        t = {'none': None, 'zero': datetime.timedelta(0), 'short': datetime.timedelta(seconds=1),
             'half': datetime.timedelta(milliseconds=500), 'days': datetime.timedelta(days=2)}[t]
        timeout.given = t
        many = c.choose([False, True, 'default'])
        kw = {} if many == 'default' else {'multiple': many}
        if t is not None:
            kw['timeout'] = t
        kind, r = outcome(lambda: grp.read(k, **kw))
        rng = lambda j: z3.And(j >= 0, j < m, held(j, k.t))     # noqa
        some = z3.Exists([i], rng(i))
        j2 = z3.Const('mj', I)
        two = z3.Exists([i, j2], z3.And(i != j2, rng(i), rng(j2)))
        if timeout.late:
            c.prove('group read: a timeout is reported', kind == 'exc' and isinstance(
                r, TimeoutError), repr(r))
            return
        if many is True:
            c.prove('group read, several: does not fail', kind == 'ok', repr(r))
            if kind != 'ok':
                return
            if r is None or isinstance(r, (dict, list, tuple)) and not r:
                c.prove('group read, several: nothing only if nobody holds it', z3.Not(some))
                return
            if not isinstance(r, hooks.PvxDict):
                raise Unsupported(f'several results as {type(r).__name__}')
            s = r.pairs
            j = c.fresh('at', I)
            c.prove('group read, several: exactly the holders', s.member(j) == rng(j))
            c.assume(s.member(j))
            a, b = s.elem(j)
            c.prove('group read, several: by connection', a.pvx_same(Conn(j))
                    if isinstance(a, Conn) else False)
            c.prove('group read, several: their objects', equal(b, PvxVal(val(j, k.t))))
            return
        if kind == 'exc':
            c.prove('group read: a duplicate is an error, and nothing else is',
                    two if isinstance(r, errors.CitrineDuplicateIdError) else False, repr(r))
            return
        c.prove('group read: a duplicate is never read', z3.Not(two))
        if r is None:
            c.prove('group read: None only if nobody holds it', z3.Not(some))
            return
        j = c.fresh('at', I)
        if not c.branch(some):
            c.prove('group read: None if nobody holds it', equal(r, None))
            return
        c.assume(rng(j))
        c.prove('group read: the object', equal(r, PvxVal(val(j, k.t))))
    run.explore('GroupReadConnection.read', h)
    run.covers('citrine.connection.group_connection:GroupReadConnection.read',
               'citrine.connection.group_connection:GroupReadConnection.__read',
               'citrine.connection.group_connection:GroupReadConnection.__read_db')


# ------------------------------------------------------------------ opening them
NAME = z3.Function('name of the database', I, Key)
GIVEN = z3.Function('options given for', Key, z3.BoolSort())
HASOPT = z3.Function('option given', Key, Key, z3.BoolSort())
OPT = z3.Function('option', Key, Key, Val)


class Options(NameMap):
    """the options given for a name: any number, of any kind"""

    def __init__(self, db):
        self.db = db

    def holds(self, k):
        return HASOPT(self.db, kt(k))

    def __contains__(self, k):
        return ctx().branch(self.holds(k))

    def __bool__(self):
        k = z3.Const('oq', Key)
        return ctx().branch(z3.Exists([k], HASOPT(self.db, k)))

    def value(self, k):
        return PvxVal(OPT(self.db, kt(k)))

    def __getitem__(self, k):
        if k not in self:
            raise contract_error(KeyError('option'))
        return self.value(k)

    def get(self, k, default=None):
        return self.value(k) if k in self else default


class AllOptions(Pvx):
    """the options given for the databases, by their names"""

    def pvx_isinstance(self, cls):
        return issubclass(dict, cls)

    def __contains__(self, k):
        return ctx().branch(GIVEN(kt(k)))

    def __getitem__(self, k):
        if k not in self:
            raise contract_error(KeyError('database'))
        return Options(kt(k))

    def get(self, k, default=None):
        return Options(kt(k)) if k in self else default

    def __bool__(self):
        k = z3.Const('dq', Key)
        return ctx().branch(z3.Exists([k], GIVEN(k)))

    def __getattr__(self, n):
        raise Unsupported(f'{n} of the options')


class Opener:
    """db.open"""

    def __init__(self, idx):
        self.idx = idx

    def __call__(self, *a, **kw):
        return self.opened(a, Merged([kw]))

    def pvx_callkw(self, a, m):
        return self.opened(a, m)

    def opened(self, a, m):
        c = ctx()
        if a:
            raise Unsupported('positional options')
        name = NAME(self.idx)
        o = c.fresh('option', Key)
        n = 'group connection: the options given for a database reach it, the transaction manager ' \
            'of the group if none is given for it'
        own = z3.And(GIVEN(name), HASOPT(name, o))
        v = m.find(PvxKey(o))
        if v is SKIP:
            c.prove(n, z3.And(z3.Not(own), o != kt('transaction_manager')))
        elif c.branch(own):
            c.prove(n, equal(v, PvxVal(OPT(name, o))))
        else:
            c.prove(n, z3.And(o == kt('transaction_manager'), equal(v, Db.shared)))
        return Conn(self.idx)


class Db(Pvx):
    """database number idx"""
    shared = None

    def __init__(self, idx):
        self.idx = idx

    def pvx_reindex(self, j, i):
        return Db(z3.simplify(z3.substitute(self.idx, (j, i))))

    def pvx_same(self, o):
        return self.idx == o.idx if isinstance(o, Db) else z3.BoolVal(False)

    @property
    def database_name(self):
        return PvxKey(NAME(self.idx))

    @property
    def open(self):
        return Opener(self.idx)

    def __getattr__(self, n):
        raise Unsupported(f'database.{n}')

    __hash__ = None


class Opening(Rule):
    """after t databases: the connections to them, in order"""
    for_changes = True
    changed = 'setattr'

    def __init__(self, seq, grp):
        self.seq, self.grp = seq, grp

    def check(self, when, t):
        c = ctx()
        s = self.grp.connections
        if isinstance(s, (tuple, list)) and not s:
            c.prove(f'group connection: one per database, in order ({when})', t == 0)
            return
        if not isinstance(s, PvxSeq) or s.keep is not None or s.sort != I:
            raise Unsupported('connections of some other kind')
        c.prove(f'group connection: one per database, in order ({when})', s.n == t)
        j = c.fresh('at', I)
        c.assume(z3.And(j >= 0, j < t))
        e = s.elem(j)
        c.prove(f'group connection: one per database, in order ({when})',
                e.pvx_same(Conn(j)) if isinstance(e, Conn) else False)

    def init(self, env):
        self.check('before the first', z3.IntVal(0))

    def havoc(self, env):
        c = ctx()
        self.t = c.fresh('opened', I)
        c.assume(z3.And(self.t >= 0, self.t <= self.seq.n))
        if not isinstance(self.grp.connections, (tuple, PvxSeq)):
            raise Unsupported('connections of some other kind')
        hooks._pvx_setattr(self.grp, 'connections', PvxSeq(self.t, lambda j: Conn(j)))
        self.mark = len(c.mutlog)

    def iterate(self, env):
        ctx().assume_checked(self.t < self.seq.n)
        touch(self.t)
        return self.seq.elem(self.t)

    def preserved(self, env):
        for what, _ in ctx().changes(self.mark):
            if not (what[0] == 'setattr' and what[1] is self.grp and what[2] == 'connections'):
                raise Unsupported('opening changes something else')
        self.check('after one more', self.t + 1)

    def finish(self, env):
        ctx().assume(self.t == self.seq.n)


def construct(run):
    errors, mod = load()

    def h():
        c = ctx()
        m = c.fresh('m', I)
        c.assume(m >= 0)
        dbs = PvxSeq(m, lambda j: Db(j), label='databases', injective=True,
                     mutable=c.choose([False, True]))
        how = c.choose(['none', 'shared'])
        Db.shared = None if how == 'none' else PvxVal(c.fresh('manager', Val))
        kw = {} if how == 'none' else {'transaction_manager': Db.shared}
        g = mod.GroupReadConnection.__new__(mod.GroupReadConnection)
        c.hooks['rules'] = [lambda seq, key: Opening(seq, g) if isinstance(seq, PvxSeq) and
                            isinstance(seq.elem(z3.IntVal(0)), Db) else None]
        init, extra = with_mapping(mod.GroupReadConnection.__init__)
        kind, e = outcome(lambda: init(g, dbs, **kw, **{extra: AllOptions()}))
        c.prove('group connection: opening does not fail', kind == 'ok', repr(e))
        if kind == 'ok':
            Opening(dbs, g).check('at the end', m)
    run.explore('GroupReadConnection.__init__', h)
    run.covers('citrine.connection.group_connection:GroupReadConnection.__init__')


def with_mapping(fn):
    """the same code, its ** parameter given as one mapping, of any content"""
    code = fn.__code__
    if not code.co_flags & inspect.CO_VARKEYWORDS or code.co_flags & inspect.CO_VARARGS:
        raise Unsupported('parameters')
    n = code.co_argcount + code.co_kwonlyargcount
    new = code.replace(co_flags=code.co_flags & ~inspect.CO_VARKEYWORDS,
                       co_kwonlyargcount=code.co_kwonlyargcount + 1)
    f = types.FunctionType(new, fn.__globals__, fn.__name__, fn.__defaults__, fn.__closure__)
    f.__kwdefaults__ = fn.__kwdefaults__
    return f, code.co_varnames[n]


del artefact

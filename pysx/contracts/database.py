"""ContainerDb: create, load, new, the constructor and open, and the client.

The real classes run over stand-ins for ZODB.DB, FileStorage, ClientStorage and
Connection. A storage is either new (no root: reading it raises POSKeyError), or
has a root with or without a store; what is set on a root is there for good once
committed. Options are arbitrary opaque values; calls are checked against the
signatures of the real classes, read from the installed packages.
"""
import inspect
import types

import z3

from pysx.core import B, I, Val, contract_error, ctx
from pysx.contracts import connection as cxn
from pysx.contracts.collection import BARE, tree_stubs
from pysx.contracts.common import equal, outcome, truthy
from pysx.sym import PvxBool, PvxInt, PvxVal, it
from pysx.transform import Loader

DB_OPTIONS = ('pool_size', 'pool_timeout', 'cache_size', 'cache_size_bytes', 'historical_pool_size',
              'historical_cache_size', 'historical_cache_size_bytes', 'historical_timeout', 'xrefs',
              'large_record_size')
FS_OPTIONS = ('create', 'read_only', 'stop', 'quota', 'pack_gc', 'pack_keep_old', 'packer', 'blob_dir')


class POSKeyError(KeyError):
    pass


def real(mod, name):
    import importlib
    Loader()
    return getattr(importlib.import_module(mod), name)


def bind(fn, a, k):
    """the arguments by name, as the real function would take them"""
    try:
        b = inspect.signature(fn).bind(None, *a, **k)
    except TypeError as e:
        raise contract_error(TypeError(str(e)))
    b.apply_defaults()
    args = dict(b.arguments)
    args.pop(next(iter(args)))
    for n, p in inspect.signature(fn).parameters.items():
        if p.kind is p.VAR_KEYWORD:
            args.update(args.pop(n, {}))
    return args


class StorageBase:
    """root: None (new), or the names on it and what they are"""

    def __init__(self, root=None):
        self.committed = root
        self.closed = 0
        self.fails = 0                # how often reading the root fails although it is there
        self.opened_by = []

    def close(self):
        self.closed += 1


class FileStorageBase(StorageBase):
    made = None

    def __init__(self, *a, **k):
        super().__init__(None)
        self.args = bind(real('ZODB.FileStorage', 'FileStorage').__init__, a, k)
        self.world.made.append(self)


class ClientStorageBase(StorageBase):
    start = None

    def __init__(self, *a, **k):
        super().__init__(dict(self.start) if self.start is not None else None)
        self.args = bind(real('ZEO.ClientStorage', 'ClientStorage').__init__, a, k)
        self.world.made.append(self)


class Root:
    """what a connection sees of the root: changes are its own until committed"""

    def __init__(self, conn):
        object.__setattr__(self, 'pvx_c', conn)

    def __getattr__(self, n):
        if n.startswith('__') or n.startswith('pvx_'):
            raise AttributeError(n)
        return self.pvx_c.pvx_look(n)

    def __setattr__(self, n, v):
        self.pvx_c.pvx_new[n] = v


class ConnBase:
    def __init__(self, db, cache_size=400, before=None, cache_size_bytes=0):
        self.pvx_db, self.pvx_new, self.pvx_open = db, {}, None
        self.pvx_before = before
        self.transaction_manager = None

    def open(self, transaction_manager=None, delegate=True):
        self.pvx_open = True
        tm = transaction_manager if transaction_manager is not None else Manager()
        self.transaction_manager = tm
        joined = tm.__dict__.setdefault('pvx_joined', [])
        if self not in joined:
            joined.append(self)

    def pvx_state(self):
        s = self.pvx_db.storage
        if s.closed:
            raise contract_error(ValueError('I/O operation on closed file'))
        return s.committed

    def pvx_look(self, n):
        if n in self.pvx_new:
            return self.pvx_new[n]
        st = self.pvx_state() or {}
        if n in st:
            return st[n]
        raise AttributeError(n)

    @property
    def root(self):
        if self.pvx_state() is None and not self.pvx_db.pvx_making:
            raise contract_error(POSKeyError('root'))
        if self.pvx_state() is None and type(self) is not ConnBase:
            raise contract_error(POSKeyError('root'))
        if self.pvx_db.storage.fails:
            self.pvx_db.storage.fails -= 1
            raise contract_error(POSKeyError('something else'))
        return Root(self)

    def close(self):
        if self.pvx_new:
            raise contract_error(RuntimeError('Cannot close a connection joined to a transaction'))
        self.pvx_open = False

    def pvx_commit(self):
        s = self.pvx_db.storage
        self.pvx_state()
        if self.pvx_new:
            s.committed = {**(s.committed or {}), **self.pvx_new}
            self.pvx_new = {}


class Manager:
    def __init__(self, explicit=False):
        pass

    def __enter__(self):
        return self.begin()

    def begin(self):
        self.abort()
        return self

    def commit(self):
        for c in self.__dict__.get('pvx_joined', []):
            c.pvx_commit()

    def abort(self):
        for c in self.__dict__.get('pvx_joined', []):
            c.pvx_new = {}

    def __exit__(self, t, v, tb):
        if t is None:
            self.commit()
        else:
            self.abort()


class ThreadManager(Manager):
    def __init__(self):
        pass


class DBBase:
    """ZODB.DB: registers its name, makes a root if there is none (which takes
    a connection of its own class), hands out connections"""
    klass = ConnBase
    world = None

    def __init__(self, *a, **k):
        self.pvx_args = args = bind(real('ZODB', 'DB').__init__, a, k)
        self.pvx_closed = 0
        self.pvx_making = True
        self.storage = self.pvx_storage(args.pop('storage'), {
            n: args.pop(n) for n in list(args) if n not in inspect.signature(
                real('ZODB', 'DB').__init__).parameters})
        self.database_name = args['database_name']
        if args['databases'] is None:
            args['databases'] = {}
        self.databases = args['databases']
        if self.database_name in self.databases:
            raise contract_error(ValueError('database_name already in databases'))
        self.databases[self.database_name] = self
        c = DBBase.open(self)
        if self.storage.committed is None:
            self.storage.committed = {}
        self.pvx_making = False
        c.close()

    def pvx_storage(self, storage, args):
        """a path is a file, which nobody else has open; nothing is a storage
        in memory, which is new"""
        if isinstance(storage, str):
            return self.world.file(storage, args)
        if storage is None:
            s = StorageBase(None)
            s.args = args
            self.world.made.append(s)
            return s
        if args:
            raise contract_error(AssertionError('options for a storage that is there'))
        return storage

    def open(self, transaction_manager=None, at=None, before=None):
        if self.pvx_closed:
            raise contract_error(ValueError('closed'))
        c = self.klass(self)
        self.storage.opened_by.append(c)
        c.pvx_asked = {'at': at, 'before': before, 'transaction_manager': transaction_manager}
        c.open(transaction_manager)
        return c

    def close(self):
        self.close = lambda: None
        self.pvx_closed += 1
        self.storage.close()


class Store:
    """what Container.new makes (contract: layout.new_container)"""

    def __init__(self, capacity, strict):
        self.capacity, self.strict = capacity, strict

    @property
    def size(self):
        if 'pvx_size' not in self.__dict__:
            self.pvx_size = ctx().fresh('size', I)
            ctx().assume(self.pvx_size >= 0)
        return PvxInt(self.pvx_size)


class Maker:
    world = None

    @classmethod
    def new(cls, capacity=1000, collection_max_size=1000, strict=False):
        c = ctx()
        if c.branch(it(capacity) < 1):
            raise contract_error(ValueError('capacity'))
        room = c.fresh('room', I)
        c.assume(room >= it(capacity))
        s = Store(PvxInt(room), strict)
        cls.world.stores.append(s)
        return s


class World:
    def __init__(self):
        self.made, self.stores, self.files = [], [], {}
        FileStorageBase.world = ClientStorageBase.world = Maker.world = DBBase.world = self

    def file(self, path, args):
        was = self.files.get(path)
        if was is not None and not was.closed:
            raise contract_error(OSError('Could not lock the file'))
        s = FileStorageBase(path, **args)
        if was is not None:
            s.committed, s.fails = was.committed, was.fails
        self.files[path] = s
        return s


def load():
    stubs = {
        **tree_stubs(),
        'logging': {'getLogger': lambda *a: cxn.Logger(), 'INFO': 20},
        'transaction': {'ThreadTransactionManager': ThreadManager, 'TransactionManager': Manager},
        'ZODB': {'DB': DBBase}, 'ZODB.Connection': {'Connection': ConnBase},
        'ZODB.FileStorage': {'FileStorage': FileStorageBase},
        'ZODB.POSException': {'POSKeyError': POSKeyError},
        'ZEO': {}, 'ZEO.ClientStorage': {'ClientStorage': ClientStorageBase},
        'ZEO.asyncio': {}, 'ZEO.asyncio.client': {'ClientThread': real('ZEO.asyncio.client', 'ClientThread')},
        'citrine.storage.container': {'Container': Maker},
        'uuid': {'uuid4': cxn.Uuids().uuid4},
    }
    L = Loader(stubs=stubs, bare=BARE)
    errors = L.load('citrine.exceptions')
    return types.SimpleNamespace(
        L=L, errors=errors, mod=L.load('citrine.database.containerdb'),
        limit=L.load('citrine.storage.consts').DEFAULT_CONTAINER_SIZE)


def opaque(names):
    """arbitrary values for the options"""
    return {n: PvxVal(ctx().fresh(n, Val)) for n in names}


def names_option(c, opts):
    """a database name and a register of databases"""
    dbs = c.choose([None, 'empty', 'others'])
    if dbs is not None:
        opts['databases'] = {} if dbs == 'empty' else {'other': object()}
    opts['database_name'] = 'a name'
    return dict(opts.get('databases') or {})


def defaults(fn):
    """what the real function takes for what is left out"""
    return {n: p.default for n, p in inspect.signature(fn).parameters.items()}


def default(name, what, got, want):
    ctx().prove(f'{name}: {what} left out is its default', got is want or (
        type(got) is type(want) and got == want), repr((got, want)))


def some_options(c, names):
    """none, all, or one of the options"""
    which = c.choose(['none', 'all', *names])
    return opaque(names if which == 'all' else () if which == 'none' else (which,))


def forwarded(name, db, opts, before):
    c = ctx()
    own = defaults(real('ZODB.DB', 'DB').__init__)
    for n in DB_OPTIONS:
        if n in opts:
            c.prove(f'{name}: option {n} reaches the database', equal(db.pvx_args[n], opts[n]))
        else:
            default(name, f'option {n}', db.pvx_args[n], own[n])
    if 'database_name' not in opts:
        default(name, 'option database_name', db.database_name, own['database_name'])
    if 'databases' in opts:
        c.prove(f'{name}: option databases reaches the database', db.databases is opts['databases'])
        now = dict(db.databases)
        c.prove(f'{name}: registered under its name, and nothing else', now.pop(
            opts['database_name'], None) is db and now == before, str(now))
    if 'database_name' in opts:
        c.prove(f'{name}: option database_name reaches the database',
                db.database_name == opts['database_name'])


def usable(name, M, db, storage, store):
    """opening the database gives a connection to that store"""
    c = ctx()
    kind, x = outcome(db.open)
    c.prove(f'{name}: opens', kind == 'ok', repr(x))
    if kind == 'ok':
        c.prove(f'{name}: opens with the store', x.container is store and db.storage is storage)
        c.prove(f'{name}: nothing uncommitted', not any(k.pvx_new for k in storage.opened_by))
        c.prove(f'{name}: the storage is open', not storage.closed)


def creation(run):
    M = load()
    Db = M.mod.ContainerDb

    def made(n, w, args, sopts, storage):
        c = ctx()
        root = storage.committed
        c.prove(f'{n}: the store is committed', isinstance((root or {}).get('container'), Store)
                and len(root) == 1, str(root))
        store = root['container']
        c.prove(f'{n}: at least the capacity asked for', it(store.capacity) >= it(
            args.get('capacity', M.limit)))
        c.prove(f'{n}: exactly the strictness asked for',
                truthy(store.strict) == truthy(args.get('strict', False)))
        c.prove(f'{n}: the file asked for', storage.args['file_name'] is args['file_name']
                and len(w.made) == 1)
        for o in FS_OPTIONS:
            if o in sopts:
                c.prove(f'{n}: option {o} reaches the storage', equal(storage.args[o], sopts[o]))
            else:
                default(n, f'option {o}', storage.args[o], defaults(
                    real('ZODB.FileStorage', 'FileStorage').__init__)[o])
        return store

    def arguments():
        c = ctx()
        args = {'file_name': object()}
        how = c.choose(['all', 'defaults', 'some'])
        if how == 'all':
            cap = c.fresh('capacity', I)
            c.assume(cap >= 1)
            args.update(capacity=PvxInt(cap), strict=PvxBool(c.fresh('strict', B)))
            return args, opaque(FS_OPTIONS)
        return args, some_options(c, FS_OPTIONS) if how == 'some' else {}

    def create():
        w = World()
        args, sopts = arguments()
        kind, s = outcome(lambda: Db.create(**args, **sopts))
        c = ctx()
        c.prove('create: does not fail', kind == 'ok', repr(s))
        if kind != 'ok':
            return
        c.prove('create: returns the storage', isinstance(s, FileStorageBase) and not s.closed)
        made('create', w, args, sopts, s)
        c.prove('create: nothing uncommitted', not any(k.pvx_new for k in s.opened_by))
        c.prove('create: leaves no connection open', not any(k.pvx_open for k in s.opened_by))

    def new():
        c = ctx()
        w = World()
        args, sopts = arguments()
        opts = some_options(c, DB_OPTIONS) if len(sopts) != 1 else {}
        before = names_option(c, opts) if opts else {}
        kind, db = outcome(lambda: Db.new(**args, **sopts, **opts))
        c.prove('new: does not fail', kind == 'ok', repr(db))
        if kind != 'ok':
            return
        c.prove('new: a database', isinstance(db, Db))
        store = made('new', w, args, sopts, db.storage)
        forwarded('new', db, opts, before)
        usable('new', M, db, db.storage, store)
    run.explore('ContainerDb.create', create)
    run.explore('ContainerDb.new', new)
    run.covers('citrine.database.containerdb:ContainerDb.create',
               'citrine.database.containerdb:ContainerDb.new')


def loading(run):
    M = load()
    Db = M.mod.ContainerDb

    def h():
        c = ctx()
        w = World()
        kind = c.choose(['file', 'other', 'path', 'none'])
        cls = StorageBase if kind in ('other', 'none') else FileStorageBase
        storage = cls.__new__(cls)
        StorageBase.__init__(storage, None)
        what = c.choose(['with a store', 'new', 'without a store', 'with a store that cannot be read']
                        if kind != 'none' else ['new'])
        store = None
        if what.startswith('with a store'):
            store = Store(PvxInt(c.fresh('had', I)), PvxBool(c.fresh('was', B)))
            storage.committed = {'container': store, 'more': object()}
        elif what == 'without a store':
            storage.committed = {'more': object()}
        if what == 'with a store that cannot be read':
            storage.fails = 1
        was = storage.committed
        opts = some_options(c, DB_OPTIONS)
        before = names_option(c, opts) if opts else {}
        how = c.choose(['load', 'construct'])
        given, sopts = storage, {}
        if kind == 'path':
            given = 'a path'
            w.files[given] = storage
            storage.closed = 1
            sopts = some_options(c, FS_OPTIONS) if how == 'construct' and not opts else {}
        elif kind == 'none':
            given = None
        k, db = outcome(lambda: (Db.load if how == 'load' else Db)(given, **opts, **sopts))
        n = f'{how} a {kind if kind != "other" else "storage"} {what}'
        if what == 'without a store':
            storage = w.files.get('a path', storage)
            c.prove(f'{n}: is refused', k == 'exc' and isinstance(
                db, M.errors.IncompatibleDatabaseError), f'{k} {db!r}')
            c.prove(f'{n}: changes nothing', storage.committed is was and not w.stores)
            return
        if kind == 'path':
            storage = w.files['a path']
        elif kind == 'none' and k == 'ok':
            storage = db.storage
        if storage.committed is was and (what == 'with a store that cannot be read') and k == 'exc':
            return
        c.prove(f'{n}: does not fail', k == 'ok', repr(db))
        if k != 'ok':
            return
        if what.startswith('with a store'):
            c.prove(f'{n}: the store is not replaced', storage.committed is was
                    and was['container'] is store and not w.stores)
        else:
            c.prove(f'{n}: makes one store', len(w.stores) == 1 and (
                storage.committed or {}).get('container') is w.stores[0] and
                len(storage.committed) == 1, str(storage.committed))
            store = w.stores[0]
        forwarded(n, db, opts, before)
        if kind in ('path', 'none'):
            last = db.storage
            c.prove(f'{n}: the other storages it made are closed', all(
                x is last or x.closed for x in w.made))
            c.prove(f'{n}: the file of that path' if kind == 'path' else f'{n}: one in memory',
                    w.files['a path'] is last if kind == 'path' else bool(w.made))
            if kind == 'path':
                own = defaults(real('ZODB.FileStorage', 'FileStorage').__init__)
                for o in FS_OPTIONS:
                    if o in sopts:
                        c.prove(f'{n}: option {o} reaches the storage', equal(last.args[o], sopts[o]))
                    else:
                        default(n, f'option {o}', last.args[o], own[o])
            storage = last
        usable(n, M, db, storage, store)
        c.prove(f'{n}: is not closed', not db.pvx_closed)
        db.close()
        c.prove(f'{n}: closing it closes the storage', bool(storage.closed))
    run.explore('ContainerDb.load', h)
    run.covers('citrine.database.containerdb:ContainerDb.__init__',
               'citrine.database.containerdb:ContainerDb.load')


def opening(run):
    M = load()
    Db = M.mod.ContainerDb

    def h():
        c = ctx()
        World()
        storage = StorageBase({'container': Store(PvxInt(c.fresh('had', I)), False)})
        db = Db(storage)
        tm = c.choose([None, 'given'])
        tm = tm and M.L.load('citrine.storage.transaction').ThreadTransactionManager()
        at, before = object(), object()
        k, x = outcome(lambda: db.open(transaction_manager=tm, at=at, before=before) if tm
                       else db.open())
        c.prove('open: does not fail', k == 'ok', repr(x))
        if k != 'ok':
            return
        if tm:
            c.prove('open: arguments reach the connection', x.transaction_manager is tm
                    and x.pvx_asked['at'] is at and x.pvx_asked['before'] is before)
        c.prove('open: with a manager that commits by itself',
                truthy(x.transaction_manager.autocommit))
        seen = []

        def body():
            with db as y:
                seen.append((y, y.pvx_open))
                if c.choose([1, 2]) == 2:
                    raise contract_error(cxn.Raised('body'))
        kind, e = outcome(body)
        c.prove('with database: gives an open connection', len(seen) == 1 and bool(seen[0][1])
                and seen[0][0].container is storage.committed['container'])
        c.prove('with database: closed in the end', seen[0][0].pvx_open is False)
        c.prove('with database: exceptions propagate', kind == 'ok' or isinstance(e, cxn.Raised))
    run.explore('ContainerDb.open', h)
    run.covers('citrine.database.containerdb:ContainerDb.open',
               'citrine.database.containerdb:ContainerDb.__enter__',
               'citrine.database.containerdb:ContainerDb.__exit__')


CLIENT = {'storage_type': 'storage', 'storage_cache_size': 'cache_size', **{n: n for n in (
    'name', 'wait_timeout', 'disconnect_poll', 'read_only', 'read_only_fallback', 'blob_dir',
    'shared_blob_dir', 'blob_cache_size', 'blob_cache_size_check', 'client_label', 'ssl',
    'ssl_server_hostname', 'client', 'var', 'min_disconnect_poll', 'max_disconnect_poll', 'wait',
    'drop_cache_rather_verify', 'credentials', 'server_sync', 'username', 'password', 'realm',
    '_client_factory')}}


def client(run):
    M = load()
    Client = M.L.load('citrine.client.container_client').ContainerClient

    def h():
        c = ctx()
        w = World()
        what = c.choose(['with a store', 'new'])
        store = Store(PvxInt(c.fresh('had', I)), PvxBool(c.fresh('was', B)))
        ClientStorageBase.start = {'container': store} if what == 'with a store' else None
        opts = some_options(c, DB_OPTIONS)
        before = names_option(c, opts) if opts else {}
        copts = some_options(c, tuple(CLIENT)) if len(opts) != 1 else {}
        path = PvxVal(c.fresh('path', Val))
        addr, cache = object(), PvxVal(c.fresh('cache', Val))
        st = PvxBool(c.fresh('strict', B))
        k, db = outcome(lambda: Client.connect(addr, path, cache=cache, strict=st, **opts, **copts))
        n = f'connect to a storage {what}'
        c.prove(f'{n}: does not fail', k == 'ok', repr(db))
        if k != 'ok':
            return
        s = db.storage
        own = defaults(real('ZEO.ClientStorage', 'ClientStorage').__init__)
        c.prove(f'{n}: one client storage', len(w.made) == 1 and w.made[0] is s
                and s.args['addr'] is addr)
        for a, b in CLIENT.items():
            if a in copts:
                c.prove(f'{n}: option {a} reaches the storage', equal(s.args[b], copts[a]))
            else:
                default(n, f'option {a}', s.args[b], own[b])
        if what == 'with a store':
            c.prove(f'{n}: the store is not replaced',
                    s.committed['container'] is store and not w.stores)
        else:
            c.prove(f'{n}: a store is made', len(w.stores) == 1
                    and s.committed['container'] is w.stores[0])
            store = w.stores[0]
        forwarded(n, db, opts, before)
        usable(n, M, db, s, store)
    run.explore('ContainerClient.connect', h)
    run.covers('citrine.client.container_client:ContainerClient.connect')


del z3

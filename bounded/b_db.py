"""C12-C15: databases, group reads, the legacy store, database modules"""
import ast
import os
import shutil
import sys
import tempfile
from datetime import timedelta

from bounded.harness import V, NPAL, check, ok, outcome, processes, raises, same, short, Violation

SENT = object()


def mod_storage():
    from ZODB.MappingStorage import MappingStorage
    return MappingStorage()


# ======================================================================== C12
DBOPTS = ['pool_size', 'cache_size', 'cache_size_bytes', 'historical_pool_size',
          'historical_cache_size', 'historical_cache_size_bytes', 'historical_timeout',
          'database_name', 'xrefs', 'large_record_size', 'pool_timeout', 'databases']


def dbopts(db):
    return {
        'pool_size': db.getPoolSize(), 'cache_size': db.getCacheSize(),
        'cache_size_bytes': db.getCacheSizeBytes(),
        'historical_pool_size': db.getHistoricalPoolSize(),
        'historical_cache_size': db.getHistoricalCacheSize(),
        'historical_cache_size_bytes': db.getHistoricalCacheSizeBytes(),
        'historical_timeout': db.getHistoricalTimeout(),
        'database_name': db.database_name, 'xrefs': db.xrefs,
        'large_record_size': db.large_record_size,
        'pool_timeout': db.pool.timeout, 'databases': db.databases,
    }


def check_dbopts(db, opts, what):
    from ZODB import DB
    got = dbopts(db)
    plain = DB(None)
    own = dbopts(plain)
    plain.close()
    for k in own:
        if k not in opts and k != 'databases':
            check(got[k] == own[k], f'{what}: option {k} left out is not its default', got[k], own[k])
    for k, v in opts.items():
        if k == 'databases':
            check(got[k] is v, f'{what}: option {k}', got[k], v)
        else:
            check(got[k] == v, f'{what}: option {k} did not reach the database', got[k], v)


def r_create(capacity, strict, via='create', opts=None, sopts=None, omit=False):
    """create a database file and open it"""
    from citrine.database.containerdb import ContainerDb
    opts, sopts = dict(opts or {}), dict(sopts or {})
    d = tempfile.mkdtemp(prefix='vf12')
    db = None
    try:
        if opts.get('databases') == 'own':
            opts['databases'] = {}
        if sopts.get('blob_dir'):
            sopts['blob_dir'] = os.path.join(d, 'blobs')
        if sopts.get('packer'):
            sopts['packer'] = check
        path = os.path.join(d, 'x.fs')
        kw = {} if omit else {'capacity': capacity, 'strict': strict}
        if via == 'create':
            storage = ok(lambda: ContainerDb.create(path, **kw, **sopts), f'create({kw}, {sopts})')
            db = ok(lambda: ContainerDb.load(storage, **opts), f'load({opts})')
        elif via == 'reopen':
            from ZODB.FileStorage import FileStorage
            storage = ok(lambda: ContainerDb.create(path, **kw, **sopts), f'create({kw}, {sopts})')
            storage.close()
            storage = FileStorage(path)
            db = ok(lambda: ContainerDb.load(storage, **opts), f'load({opts})')
        else:
            db = ok(lambda: ContainerDb.new(path, **kw, **sopts, **opts), f'new({kw}, {sopts}, {opts})')
            storage = db.storage
        what = f'{via}({kw})'
        conn = ok(lambda: db.open(), 'open')
        cap = conn.capacity
        check(cap >= capacity, f'{what}: capacity of the store', cap)
        check(conn.strict is strict, f'{what}: strictness of the store', conn.strict)
        check(conn.container.strict is strict and conn.container.primary.strict is strict,
              f'{what}: strictness of the container and its group')
        check(all(c.strict is strict for c in conn.container.primary.collections),
              f'{what}: strictness of the collections')
        check(conn.container.size == 0, f'{what}: a new store is empty')
        check_dbopts(db, opts, what)
        if via != 'reopen':
            fs = storage
            for k, a in (('quota', '_quota'), ('pack_gc', '_pack_gc'),
                         ('pack_keep_old', 'pack_keep_old'), ('packer', 'packer')):
                if k in sopts and hasattr(fs, a):
                    check(getattr(fs, a) == sopts[k], f'{what}: storage option {k}', getattr(fs, a), sopts[k])
                elif k not in sopts and k != 'packer':
                    own = {'quota': None, 'pack_gc': True, 'pack_keep_old': True}[k]
                    check(getattr(fs, a) == own, f'{what}: storage option {k} left out is not its default',
                          getattr(fs, a), own)
            if 'blob_dir' in sopts:
                check(os.path.isdir(sopts['blob_dir']), f'{what}: blob directory')
        conn.create('a', 1)
        check(conn.read('a') == 1, 'the opened store can be used')
        conn.close()
        with db as c2:
            check(c2.read('a') == 1, 'context manager connection')
    finally:
        if db is not None:
            try:
                db.close()
            except Exception:       # noqa
                pass
        shutil.rmtree(d, ignore_errors=True)


def r_create_existing(flag, vi):
    """a store that is already in the file: create=True is documented to
    replace the file, otherwise the file is not emptied by FileStorage"""
    from citrine.database.containerdb import ContainerDb
    d = tempfile.mkdtemp(prefix='vf12')
    db = None
    try:
        path = os.path.join(d, 'x.fs')
        db = ContainerDb.new(path, capacity=10)
        with db as c:
            c.create('a', V(vi))
        db.close()
        db = ok(lambda: ContainerDb.new(path, capacity=50, create=flag, strict=True), 'new on an existing file')
        with db as c:
            check(c.capacity >= 50 and c.strict is True, 'capacity and strictness as asked')
    finally:
        if db is not None:
            db.close()
        shutil.rmtree(d, ignore_errors=True)


def r_create_beside(via):
    """a file that holds other things keeps them unless it is to be created anew"""
    import transaction
    from ZODB import DB
    from ZODB.FileStorage import FileStorage
    from citrine.database.containerdb import ContainerDb
    d = tempfile.mkdtemp(prefix='vf12')
    db = None
    try:
        path = os.path.join(d, 'x.fs')
        db = DB(FileStorage(path))
        t = transaction.TransactionManager()
        c = db.open(t)
        c.root.other = 'kept'
        t.commit()
        c.close()
        db.close()
        if via == 'create':
            db = ok(lambda: ContainerDb.load(ContainerDb.create(path, capacity=10)), 'create and load')
        else:
            db = ok(lambda: ContainerDb.new(path, capacity=10), 'new')
        with db as c:
            check(getattr(c.root, 'other', None) == 'kept',
                  f'{via} in a file with other content, without create=True: it is emptied')
    finally:
        if db is not None:
            db.close()
        shutil.rmtree(d, ignore_errors=True)


def r_registered(fresh, via):
    """databases that know each other: a new one joins them, the others stay"""
    from citrine.database.containerdb import ContainerDb
    d = tempfile.mkdtemp(prefix='vf12')
    dbs, known = [], {}
    try:
        for i, name in enumerate(('one', 'two', 'three')):
            path = os.path.join(d, name)
            if via == 'new':
                db = ok(lambda: ContainerDb.new(path, capacity=10, databases=known, database_name=name), 'new')
            else:
                storage = mod_storage() if fresh else ContainerDb.create(path, capacity=10)
                db = ok(lambda: ContainerDb.load(storage, databases=known, database_name=name), 'load')
            dbs.append(db)
            check(list(known.values()) == dbs and list(known) == ['one', 'two', 'three'][:i + 1],
                  f'databases known after opening {name!r}', known)
            check(all(x.databases is known for x in dbs), 'all of them know each other')
            with db as c:
                if fresh and via != 'new':
                    check(c.container.size == 0, 'a fresh storage gets an empty store')
                c.create('k', i)
                for j, n in enumerate(known):
                    if n != name:
                        o = c.get_connection(n)
                        check(o.container.read('k', None) == j, f'{n!r} seen from {name!r}')
    finally:
        for db in dbs:
            db.close()
        shutil.rmtree(d, ignore_errors=True)


def r_load(kind, filled, opts=None, times=1, extra=None):
    """load a storage, with and without a store in it"""
    import transaction
    from ZODB import DB
    from ZODB.FileStorage import FileStorage
    from ZODB.DemoStorage import DemoStorage
    from citrine.database.containerdb import ContainerDb
    from citrine.storage.container import Container
    opts = dict(opts or {})
    d = tempfile.mkdtemp(prefix='vf12')
    dbs = []
    try:
        path = os.path.join(d, 'x.fs')
        if kind == 'mapping':
            storage = mod_storage()
        elif kind == 'demo':
            storage = DemoStorage(base=mod_storage(), changes=mod_storage())
        elif kind == 'none':
            storage = None
        else:
            storage = FileStorage(path)
        if filled is not None:
            con = Container.new(capacity=filled['capacity'], strict=filled['strict'])
            for k, vi in filled['items']:
                con.write(k, V(vi))
            db = DB(storage)
            t = transaction.TransactionManager()
            c = db.open(t)
            c.root.container = con
            if extra:
                c.root.other = extra
            t.commit()
            oid = con._p_oid
            c.close()
            if kind == 'path':
                db.close()
                storage = path
        elif kind == 'path':
            storage.close()
            storage = path
        for no in range(times):
            db = ok(lambda: ContainerDb.load(storage, **opts), f'load {kind} {filled} {opts}')
            dbs.append(db)
            check_dbopts(db, {k: v for k, v in opts.items()}, 'load')
            conn = ok(lambda: db.open(), 'open')
            if filled is not None:
                con = conn.container
                check(con._p_oid == oid, f'loading replaced the container (time {no + 1})', con._p_oid, oid)
                check(conn.strict is filled['strict'], 'strictness after load', conn.strict)
                check(conn.capacity >= filled['capacity'], 'capacity after load', conn.capacity)
                check(conn.container.size == len(dict(filled['items'])), 'size after load', conn.container.size)
                for k, vi in dict(filled['items']).items():
                    check(same(conn.read(k, SENT), V(vi)), f'{k!r} after load', conn.read(k, SENT))
                if extra:
                    check(conn.root.other == extra, 'other root objects after load')
            else:
                check(conn.container is not None and conn.container.size == 0, 'a fresh storage gets an empty store')
                check(conn.capacity >= Container.new().capacity, 'the store of a fresh storage: capacity',
                      conn.capacity)
                conn.create('k', 1)
                check(conn.read('k') == 1, 'the fresh store works')
                filled = {'capacity': 1, 'strict': conn.strict, 'items': [['k', 8]]}
                oid = conn.container._p_oid
            conn.close()
            if kind == 'path':
                db.close()
    finally:
        for db in dbs:
            try:
                db.close()
            except Exception:       # noqa
                pass
        shutil.rmtree(d, ignore_errors=True)


def r_unreadable(items, fails):
    """reading the root fails for another reason than that there is none"""
    import transaction
    from ZODB import DB
    from ZODB.FileStorage import FileStorage
    from ZODB.POSException import POSKeyError
    from citrine.database.containerdb import ContainerDb
    from citrine.storage.container import Container

    class Unreadable(FileStorage):
        fails = 0

        def loadBefore(self, oid, tid):
            if self.fails:
                self.fails -= 1
                raise POSKeyError(oid)
            return super().loadBefore(oid, tid)
    d = tempfile.mkdtemp(prefix='vf12')
    try:
        path = os.path.join(d, 'x.fs')
        db = DB(FileStorage(path))
        t = transaction.TransactionManager()
        c = db.open(t)
        con = c.root.container = Container.new(capacity=20)
        for k, vi in items:
            con.write(k, V(vi))
        t.commit()
        oid = con._p_oid
        c.close()
        db.close()
        storage = Unreadable(path)
        storage.fails = fails
        try:
            db = ContainerDb.load(storage)
        except Exception:       # noqa - it may fail, but not replace the store
            pass
        for x in (db, storage):
            try:
                x.close()
            except Exception:   # noqa
                pass
        db = DB(FileStorage(path))
        c = db.open(transaction.TransactionManager())
        try:
            con = c.root.container
            check(con._p_oid == oid and con.size == len(items), 'a storage that could not be read: '
                  'the store is another one', con._p_oid, oid)
        finally:
            c.close()
            db.close()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def r_incompatible(root):
    """a connection to a database without a store is refused"""
    import transaction
    from ZODB import DB
    from citrine.connection.container_connection import ContainerConnection
    from citrine.exceptions import IncompatibleDatabaseError
    db = DB(mod_storage())
    try:
        t = transaction.TransactionManager()
        c = db.open(t)
        for k, v in root.items():
            setattr(c.root, k, v)
        t.commit()
        c.close()
        raises(lambda: ContainerConnection(db), IncompatibleDatabaseError,
               f'connecting to a database whose root has {sorted(root)}')
        raises(lambda: ContainerConnection(db, autocommit=False), IncompatibleDatabaseError,
               f'connecting to a database whose root has {sorted(root)}')
    finally:
        db.close()


def rand_dbopts(rng):
    all_ = {'pool_size': rng.randint(1, 9), 'cache_size': rng.randint(10, 900),
            'cache_size_bytes': rng.randint(0, 10 ** 7), 'historical_pool_size': rng.randint(1, 9),
            'historical_cache_size': rng.randint(10, 900),
            'historical_cache_size_bytes': rng.randint(0, 10 ** 7),
            'historical_timeout': rng.randint(1, 999),
            'database_name': rng.choice(['unnamed', 'main', 'db-2', '']), 'xrefs': rng.random() < .5,
            'large_record_size': rng.randint(1 << 12, 1 << 26), 'pool_timeout': rng.randint(1, 1 << 20)}
    return {k: v for k, v in all_.items() if rng.random() < .5}


# options for which 0 is a value like any other
dbopts_zero = ('cache_size', 'cache_size_bytes', 'historical_pool_size', 'historical_cache_size',
               'historical_cache_size_bytes', 'historical_timeout')


def gen_c12(run):
    rng = run.rng
    yield 'create', dict(capacity=1, strict=False, omit=True)
    yield 'create', dict(capacity=1, strict=False, omit=True, via='new')
    for via in ('create', 'new', 'reopen'):
        for strict in (True, False):
            for cap in (1, 2, 1000, 250001):
                yield 'create', dict(capacity=cap, strict=strict, via=via)
    for via in ('create', 'new'):
        for k, v in dict(pool_size=3, cache_size=77, cache_size_bytes=12345, historical_pool_size=5,
                         historical_cache_size=66, historical_cache_size_bytes=999,
                         historical_timeout=41, database_name='other', xrefs=False,
                         large_record_size=1 << 20, pool_timeout=99, databases='own').items():
            yield 'create', dict(capacity=10, strict=True, via=via, opts={k: v})
            if k in dbopts_zero:
                yield 'create', dict(capacity=10, strict=True, via=via, opts={k: 0})
        for k, v in dict(quota=10 ** 9, pack_gc=False, pack_keep_old=False, packer=True,
                         blob_dir=True, create=True).items():
            yield 'create', dict(capacity=10, strict=True, via=via, sopts={k: v})
    for root in ({}, {'container': None}, {'other': 1}, {'meta': {}}):
        yield 'incompatible', dict(root=root)
    for kind in ('mapping', 'file', 'demo', 'path'):
        yield 'load', dict(kind=kind, filled={'capacity': 5, 'strict': True, 'items': []})
        yield 'load', dict(kind=kind, filled={'capacity': 9, 'strict': False, 'items': [['a', 1]]},
                           extra='x')
        yield 'load', dict(kind=kind, filled=None, times=2 if kind == 'path' else 1)
    yield 'load', dict(kind='none', filled=None)
    for items in ([], [['a', 1]], [['a', 0], ['b', 2]]):
        for fails in (0, 1, 2, 3, 4):
            yield 'unreadable', dict(items=items, fails=fails)
    for via in ('create', 'new'):
        yield 'create_beside', dict(via=via)
    for fresh in (True, False):
        yield 'registered', dict(fresh=fresh, via='load')
    yield 'registered', dict(fresh=False, via='new')
    for flag in (True,):
        yield 'create_existing', dict(flag=flag, vi=0)
    n = 60 if run.tier == 'quick' else 1500
    for _ in range(n):
        if run.timeleft() <= 0:
            return
        if rng.random() < .5:
            yield 'create', dict(capacity=int(10 ** rng.uniform(0, 6)), strict=rng.random() < .5,
                                 via=rng.choice(['create', 'new', 'reopen']), opts=rand_dbopts(rng))
        else:
            keys = rng.sample('abcdefgh', rng.randint(0, 6))
            yield 'load', dict(kind=rng.choice(['mapping', 'file', 'demo', 'path']),
                               filled={'capacity': rng.randint(10, 10 ** 5), 'strict': rng.random() < .5,
                                       'items': [[k, rng.randrange(NPAL)] for k in keys]},
                               opts=rand_dbopts(rng), extra=rng.choice([None, 'x']))


# ======================================================================== C13
def open_dbs(contents, names):
    from citrine.database.containerdb import ContainerDb
    from citrine.storage.container import Container
    dbs = []
    import transaction
    from ZODB import DB
    for items, name in zip(contents, names):
        storage = mod_storage()
        raw = DB(storage)
        t = transaction.TransactionManager()
        c = raw.open(t)
        c.root.container = Container.new(capacity=1000)
        t.commit()
        c.close()
        db = ContainerDb.load(storage, database_name=name)
        with db as c:
            with c:
                for k, vi in items:
                    c.update(k, V(vi))
        dbs.append(db)
    return dbs


def r_group_read(contents, ids, timeout=None, shape='list', names=None, options=None, tm=None):
    from citrine.connection.group_connection import GroupReadConnection
    from citrine.exceptions import CitrineDuplicateIdError
    from citrine.storage.transaction import TransactionManager
    names = names or [f'db{i}' for i in range(len(contents))]
    dbs = open_dbs(contents, names)
    try:
        mine = {'tm': TransactionManager()} if tm == 'tm' else {}
        opts = {}
        for n in options or []:
            opts[n] = {'transaction_manager': TransactionManager()}
        coll = {'list': list, 'tuple': tuple, 'set': set}[shape](dbs)
        g = ok(lambda: GroupReadConnection(coll, transaction_manager=mine.get('tm'), **opts), 'connecting')
        check(len(g.connections) == len(dbs), 'a connection per database')
        by = {}
        for c in g.connections:
            check(any(c.db() is d for d in dbs), 'connections belong to the databases')
            by[id(c.db())] = c
        check(len(by) == len(dbs), 'one connection per database')
        for d in dbs:
            if d.database_name in opts:
                check(by[id(d)].transaction_manager is opts[d.database_name]['transaction_manager'],
                      'connection options of the database')
            elif mine:
                check(by[id(d)].transaction_manager is mine['tm'], 'shared transaction manager')
        t = timedelta(seconds=timeout) if timeout is not None else None
        for k in ids:
            hold = [(by[id(d)], V(dict(items)[k])) for d, items in zip(dbs, contents) if k in dict(items)]
            kw = {} if t is None else {'timeout': t}
            what = f'read({k!r}, {kw}) held by {len(hold)} of {len(dbs)}'
            if len(hold) > 1:
                raises(lambda: g.read(k, **kw), CitrineDuplicateIdError, what)
            else:
                got = ok(lambda: g.read(k, **kw), what)
                check(same(got, hold[0][1]) if hold else got is None, what, got,
                      hold[0][1] if hold else None)
            got = ok(lambda: g.read(k, multiple=True, **kw), what + ' multiple')
            if not hold:
                check(got is None, what + ' multiple', got)
            else:
                check(isinstance(got, dict) and len(got) == len(hold), what + ' multiple: holders', got)
                for c, v in hold:
                    check(c in got and same(got[c], v), what + ' multiple', got, v)
    finally:
        for d in dbs:
            d.close()


NOTNONE = [i for i in range(NPAL) if V(i) is not None]


def gen_c13(run):
    rng = run.rng
    for n in range(0, 4):
        for mask in range(2 ** n):
            for timeout in (None, 30, 86400):
                for vi in ((NOTNONE[(mask + n) % len(NOTNONE)], 1)):
                    yield 'group_read', dict(
                        contents=[[['a', vi]] if mask >> i & 1 else [['z', 0]] for i in range(n)],
                        ids=['a', 'missing'], timeout=timeout, tm='tm' if mask % 2 else None)
    for vi in NOTNONE:
        yield 'group_read', dict(contents=[[], [['a', vi]]], ids=['a'], timeout=None)
        yield 'group_read', dict(contents=[[['a', vi]], [['a', vi]]], ids=['a'], timeout=30)
    for names in (['x', 'y', 'z'], ['x', 'x', 'y']):
        for options in ([], ['x'], ['y'], ['x', 'y'], ['nobody']):
            yield 'group_read', dict(contents=[[['a', 1]], [['b', 2]], [['a', 0]]], ids=['a', 'b', 'c'],
                                     names=names, options=options, tm='tm')
            yield 'group_read', dict(contents=[[['a', 1]], [['b', 2]], [['a', 0]]], ids=['a', 'b', 'c'],
                                     names=names, options=options, timeout=20)
    n = 60 if run.tier == 'quick' else 1500
    for _ in range(n):
        if run.timeleft() <= 0:
            return
        num = rng.randint(1, 6)
        yield 'group_read', dict(
            contents=[[[k, rng.choice(NOTNONE)] for k in 'abcd' if rng.random() < .3] for _ in range(num)],
            ids=list('abcde'), timeout=rng.choice([None, 10, 0, 3600, 90000.5]), shape=rng.choice(['list', 'tuple', 'set']),
            names=[rng.choice(['p', 'q', 'r']) + str(i) for i in range(num)],
            options=rng.sample(['p0', 'q1', 'r2', 'p1'], rng.randint(0, 3)), tm=rng.choice([None, 'tm']))


# ======================================================================== C14
def legacy_ops(store, m, ops, universe, size, expand):
    for op in ops:
        name = op[0]
        if name == 'write':
            ok(lambda: store.write(op[1], V(op[2])), f'{op}')
            m[op[1]] = V(op[2])
        elif name == 'delete':
            if op[1] in m:
                ok(lambda: store.delete(op[1]), f'{op}')
                del m[op[1]]
            else:
                outcome(lambda: store.delete(op[1]))
        elif name == 'expand':
            n = size()
            if op[1] <= n:
                raises(lambda: expand(op[1]), ValueError, f'{op} with {n} containers')
                check(size() == n, 'containers after a refused expansion')
            else:
                ok(lambda: expand(op[1]), f'{op}')
                check(size() == op[1], 'containers after an expansion', size())
        for k in universe:
            check(bool(store.has(k)) == (k in m), f'after {op}: has({k!r})', store.has(k))
            got = ok(lambda: store.read(k), f'after {op}: read({k!r})')
            check(same(got, m[k]) if k in m else got is None, f'after {op}: read({k!r})', got, m.get(k))
        check(store.size == len(m), f'after {op}: size', store.size, len(m))


def r_legacy(n, ops, given='pm', persist=False):
    from citrine.persistence import DbContainer
    from persistent.mapping import PersistentMapping
    if n is None:
        store = DbContainer()
    else:
        cs = {i: PersistentMapping() for i in range(n)}
        store = DbContainer(cs if given == 'dict' else PersistentMapping(cs))
    universe = sorted({o[1] for o in ops if o[0] != 'expand'} | {'zz', ''}, key=repr)
    if not persist:
        legacy_ops(store, {}, ops, universe, lambda: store.containers_size, store.expand_size)
        return
    import transaction
    from ZODB import DB
    db = DB(mod_storage())
    try:
        t = transaction.TransactionManager()
        c = db.open(t)
        c.root.container = store
        t.commit()
        m = {}
        for i, op in enumerate(ops):
            legacy_ops(store, m, [op], universe, lambda: store.containers_size, store.expand_size)
            t.commit()
            t2 = transaction.TransactionManager()
            c2 = db.open(t2)
            s2 = c2.root.container
            for k in universe:
                check(bool(s2.has(k)) == (k in m), f'reopened after {op}: has({k!r})')
                check(same(s2.read(k), m.get(k)), f'reopened after {op}: read({k!r})', s2.read(k), m.get(k))
            check(s2.size == len(m), 'reopened: size')
            t2.abort()
            c2.close()
        t.abort()
        c.close()
    finally:
        db.close()


def r_legacy_conn(ops):
    """through the legacy connection"""
    from ZODB import DB
    from citrine.connection.connection import CitrineConnection
    from citrine.persistence import CitrineTransactionManager
    db = DB(mod_storage())
    conn = None
    try:
        conn = ok(lambda: CitrineConnection(db, transaction_manager=CitrineTransactionManager()), 'connect')
        ok(conn.setup, 'setup')
        ok(conn.setup, 'setup again')
        m = {}
        for op in ops:
            name = op[0]
            if name in ('create', 'update'):
                ok(lambda: getattr(conn, name)(op[1], V(op[2])), f'{op}')
                m[op[1]] = V(op[2])
            elif name == 'delete':
                if op[1] in m:
                    ok(lambda: conn.delete(op[1]), f'{op}')
                    del m[op[1]]
                else:
                    outcome(lambda: conn.delete(op[1]))
            elif name == 'grow':
                n = conn.num_containers()
                if op[1] > 0:
                    ok(lambda: conn.expand_containers(op[1]), f'{op}')
                    check(conn.num_containers() == n + op[1], 'containers after growth')
                else:
                    raises(lambda: conn.expand_containers(op[1]), ValueError, f'{op}')
            for k in list('abcde') + ['zz']:
                check(same(conn.read(k), m.get(k)), f'after {op}: read({k!r})', conn.read(k), m.get(k))
                check(same(conn[k], m.get(k)), f'after {op}: [{k!r}]')
            got = conn[['a', 'zz', 'b']]
            check(same(got, [m.get('a'), None, m.get('b')]) or got == [m.get('a'), None, m.get('b')],
                  f'after {op}: several ids', got)
            check(conn.size == len(m), f'after {op}: size', conn.size)
    finally:
        try:
            conn.transaction_manager.abort()
        except Exception:       # noqa
            pass
        db.close()


LEGACY_IDS = ['key %d' % i for i in range(25)] + ['', 'é', '日本', 'https://example.org/x']


def r_other_process(n):
    """objects stored by one process are found by another one"""
    processes(f"""
import os
from ZODB import DB
from ZODB.FileStorage import FileStorage
from citrine.persistence import DbContainer
db = DB(FileStorage(os.path.join(d, 'g.db')))
conn = db.open()
with conn.transaction_manager:
    conn.root.store = DbContainer()
    conn.root.store.expand_size({n})
    for i, k in enumerate({LEGACY_IDS!r}):
        conn.root.store.write(k, i)
conn.close()
db.close()
""", f"""
import os
from ZODB import DB
from ZODB.FileStorage import FileStorage
db = DB(FileStorage(os.path.join(d, 'g.db'), read_only=True))
conn = db.open()
g = conn.root.store
print([g.read(k) for k in {LEGACY_IDS!r}], [bool(g.has(k)) for k in {LEGACY_IDS!r}])
conn.close()
db.close()
""", f'{list(range(len(LEGACY_IDS)))} {[True] * len(LEGACY_IDS)}')


def gen_c14(run):
    rng = run.rng
    yield 'other_process', dict(n=7)
    ids = ['a', 'b', 'c', 'd', 'ab', 'ba', '', 'é', '日本', 'a' * 40, 1, 7, -3, 1.5, None, '1']
    # -- ids are JSON values (and None)
    for n in (None, 1, 2, 3, 5):
        for given in ('pm', 'dict'):
            for vi in range(0, NPAL, 3):
                yield 'legacy', dict(n=n, given=given, ops=[
                    ['write', 'a', vi], ['write', 'b', 1], ['write', 1, 2], ['write', '1', vi],
                    ['expand', (n or 1) + 1], ['expand', (n or 1) + 1], ['expand', 1], ['expand', 0],
                    ['expand', -1], ['delete', 'a'], ['delete', 'a'], ['write', 'a', 0],
                    ['expand', 11], ['delete', 'b']])
    yield 'legacy', dict(n=None, persist=True, ops=[['write', 'a', 1], ['write', 'b', 0], ['expand', 4],
                                                    ['write', 'c', 2], ['delete', 'a'], ['expand', 9],
                                                    ['delete', 'c']])
    yield 'legacy_conn', dict(ops=[['create', 'a', 1], ['create', 'b', 2], ['grow', 3], ['update', 'a', 0],
                                   ['grow', 0], ['delete', 'b'], ['grow', 5], ['create', 'c', 1], ['delete', 'zz']])
    n = 1200 if run.tier == 'quick' else 40000
    for i in range(n):
        if run.timeleft() <= 0:
            return
        ks = rng.sample(ids, rng.randint(2, 8))
        ops = []
        for _ in range(rng.randint(2, 12)):
            x = rng.random()
            if x < .55:
                ops.append(['write', rng.choice(ks), rng.randrange(NPAL)])
            elif x < .75:
                ops.append(['delete', rng.choice(ks)])
            else:
                ops.append(['expand', rng.randint(0, 14)])
        yield 'legacy', dict(n=rng.choice([None, 1, 2, 3, 4, 7, 10]), given=rng.choice(['pm', 'dict']), ops=ops,
                             persist=rng.random() < .04)
        if i % 25 == 0:
            ops = []
            for _ in range(rng.randint(2, 8)):
                x = rng.random()
                k = rng.choice('abcde')
                ops.append(['create', k, rng.randrange(NPAL)] if x < .4 else
                           ['update', k, rng.randrange(NPAL)] if x < .6 else
                           ['delete', k] if x < .75 else ['grow', rng.randint(0, 4)])
            yield 'legacy_conn', dict(ops=ops)


# ======================================================================== C15
class Guard:
    """an audit hook that stops (and reports) every file-system change outside
    the scratch directory of the case"""
    installed = None
    EVENTS = {'os.remove', 'os.rmdir', 'os.mkdir', 'os.rename', 'os.link', 'os.symlink',
              'os.truncate', 'os.chmod', 'os.chown', 'os.utime', 'shutil.rmtree', 'shutil.move',
              'shutil.copyfile', 'shutil.copytree', 'os.system', 'subprocess.Popen', 'os.exec',
              'os.posix_spawn', 'os.removexattr', 'os.setxattr', 'os.chflags', 'shutil.unpack_archive',
              'shutil.make_archive', 'tempfile.mkdtemp', 'tempfile.mkstemp'}

    def __init__(self):
        self.root = None
        self.escape = None

    def hook(self, event, args):
        if self.root is None:
            return
        if event == 'open':
            path, mode, flags = args
            if not isinstance(path, (str, bytes)) or not isinstance(flags, int):
                return
            if not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND):
                return
            self.look(event, path)
        elif event in self.EVENTS:
            if event in ('os.system', 'subprocess.Popen', 'os.exec', 'os.posix_spawn'):
                self.stop(event, args)
            dirfd = args[-1] if event in ('os.remove', 'os.rmdir', 'os.mkdir') else -1
            if isinstance(dirfd, int) and dirfd >= 0:
                base = os.readlink(f'/proc/self/fd/{dirfd}')
                self.look(event, os.path.join(base, os.fsdecode(args[0])))
                return
            n = 2 if event in ('os.rename', 'os.link', 'shutil.move', 'shutil.copytree') else 1
            for p in args[:n]:
                if isinstance(p, (str, bytes)):
                    self.look(event, p)

    def look(self, event, path):
        path = os.fsdecode(path)
        parent, base = os.path.split(os.path.abspath(path))
        real = os.path.join(os.path.realpath(parent), base)
        if real != self.root and not real.startswith(self.root + os.sep):
            self.stop(event, path)
        if real == self.root:
            self.stop(event, path)

    def stop(self, event, what):
        self.escape = f'{event} on {what}'
        raise PermissionError(f'verification guard: {event} outside the scratch directory: {what}')



def guard():
    if not Guard.installed:
        Guard.installed = Guard()
        sys.addaudithook(Guard.installed.hook)
    return Guard.installed


def tree(root):
    """path -> content of a file, 'dir' or the target of a link"""
    res = {}
    for base, dirs, files in os.walk(root):
        for d in dirs:
            p = os.path.join(base, d)
            res[os.path.relpath(p, root)] = ('link', os.readlink(p)) if os.path.islink(p) else 'dir'
        for f in files:
            p = os.path.join(base, f)
            res[os.path.relpath(p, root)] = ('link', os.readlink(p)) if os.path.islink(p) else \
                ('file', open(p, 'rb').read())
    return res


def populate(root, entries):
    for e in entries:
        p = os.path.join(root, e[0])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if e[1] == 'dir':
            os.makedirs(p, exist_ok=True)
        elif e[1] == 'link':
            os.symlink(e[2], p)
        else:
            with open(p, 'w') as f:
                f.write(e[1])


def flags_of(text):
    res = {}
    for node in ast.parse(text).body:
        if isinstance(node, ast.Assign) and isinstance(node.value, ast.Constant):
            res[node.targets[0].id] = node.value.value
    return res


def scratch(fn, inside=''):
    base = os.path.realpath(tempfile.mkdtemp(prefix='vf15'))
    g = guard()
    cwd = os.getcwd()
    try:
        root = os.path.join(base, 'root')
        os.mkdir(root)
        return fn(base, root, g)
    finally:
        g.root = None
        os.chdir(cwd)
        shutil.rmtree(base, ignore_errors=True)


def guarded(g, base, fn):
    g.root, g.escape = base, None
    try:
        res = outcome(fn)
    finally:
        g.root = None
    check(g.escape is None, 'touched something outside the scratch directory', g.escape)
    return res


def r_create_module(name, entries=(), discoverable=None, overwrite=None, form='abs', sub=''):
    from citrine.cluster_tools.dbmodule import dbmodule as dm

    def body(base, root, g):
        populate(base, entries)
        before = tree(base)
        kw = {}
        if discoverable is not None:
            kw['discoverable'] = discoverable
        if overwrite is not None:
            kw['overwrite'] = overwrite
        where = root
        if form == 'rel':
            os.chdir(base)
            where = 'root'
        elif form == 'cwd':
            os.chdir(root)
            where = '.'
        elif form == 'slash':
            where = root + os.sep
        elif form == 'default':
            os.chdir(root)
            where = None
        args = {'name': name} if name is not None else {}
        if where is not None:
            args['path'] = where
        kind, val = guarded(g, base, lambda: dm.create_dbmodule(**args, **kw))
        after = tree(base)
        what = f'create_dbmodule({args}, {kw})'
        if name is not None and 'root/' + name in before and not overwrite:
            check(kind == 'exc' and isinstance(val, OSError), f'{what} on an existing module was not refused', val)
            check(before == after, f'{what}: a refusal changed files', before, after)
            return
        if name is not None and before.get('root/' + name) not in (None, 'dir'):
            own = 'root/' + name
            check({k: v for k, v in before.items() if k != own} ==
                  {k: v for k, v in after.items() if k != own and not k.startswith(own + '/')},
                  f'{what}: changed something else')
            return
        if kind == 'exc':
            raise Violation(f'{what} raised {type(val).__name__}: {val}')
        made = os.path.relpath(os.path.realpath(os.path.join(os.getcwd(), val)), base)
        if name is None:
            check(os.path.dirname(made) == 'root' and made not in before, f'{what}: a directory of its own', made)
        else:
            check(made == 'root/' + name, f'{what}: returned path', val)
        check(after.get(made) == 'dir', f'{what}: the directory exists')
        init = after.get(made + '/__init__.py')
        check(init is not None and init[0] == 'file', f'{what}: initialisation file', sorted(after))
        fl = flags_of(init[1].decode())
        want = True if discoverable is None else bool(discoverable)
        check(fl.get('DISCOVERABLE') is want, f'{what}: discoverable flag', fl)
        check(fl.get('DB_MODULE') is True, f'{what}: marked as a module', fl)
        out = lambda t: {k: v for k, v in t.items() if k != made and not k.startswith(made + '/')}
        check(out(before) == out(after), f'{what}: changed something outside its directory')
        own = made + '/'
        nm = made.split('/')[-1]
        for k, v in before.items():
            if k.startswith(own):
                rel = k[len(own):]
                first = rel.split('/')[0]
                if rel == '__init__.py':
                    continue
                if '/' not in rel and v != 'dir' and first.startswith(nm):
                    check(k not in after or isinstance(v, tuple) and v[0] != 'file',
                          f'{what}: overwritten, but kept {k}')
                    continue
                check(after.get(k) == v, f'{what}: removed or changed {k}')
        if name is None or 'root/' + name not in before:
            check({k for k in after if k.startswith(own)} == {own + '__init__.py'},
                  f'{what}: files in a new module')
    scratch(body)


def r_delete_module(name, entries=(), remove_empty=None, remove_all=None, form='abs'):
    from citrine.cluster_tools.dbmodule import dbmodule as dm

    def body(base, root, g):
        populate(base, entries)
        before = tree(base)
        mod = os.path.join(root, name)
        if form == 'rel':
            os.chdir(root)
            mod = name
        elif form == 'slash':
            mod += os.sep
        elif form == 'dot':
            mod = os.path.join(root, '.', name)
        elif form == 'cwd':
            os.chdir(mod)
            mod = '.'
        elif form == 'updown':
            mod = os.path.join(root, name, '..', name)
        kw = {}
        if remove_empty is not None:
            kw['remove_empty'] = remove_empty
        if remove_all is not None:
            kw['remove_all'] = remove_all
        kind, val = guarded(g, base, lambda: dm.delete_dbmodule(mod, **kw))
        os.chdir('/')
        after = tree(base)
        what = f'delete_dbmodule({form} {name!r}, {kw})'
        own = 'root/' + name
        if form == 'cwd' and (kind == 'exc'):
            # the directory one stands in cannot always be removed by the name '.'
            check({k: v for k, v in after.items() if not (k + '/').startswith(own + '/')} ==
                  {k: v for k, v in before.items() if not (k + '/').startswith(own + '/')}, what)
        elif kind == 'exc':
            raise Violation(f'{what} raised {type(val).__name__}: {val}')
        expect = dict(before)
        inside = [k for k in before if k.startswith(own + '/')]
        if remove_all:
            for k in inside + [own]:
                expect.pop(k)
        else:
            for k in inside:
                rel = k[len(own) + 1:]
                if '/' in rel:
                    continue
                v = before[k]
                target = os.path.normpath(os.path.join(own, v[1])) if v[0] == 'link' else None
                file = v[0] == 'file' or (target and before.get(target, 'dir')[0] == 'file')
                if rel == '__init__.py' or (file and rel.startswith(name)):
                    expect.pop(k)
            left = [k for k in expect if k.startswith(own + '/')]
            if not left and remove_empty is not False:
                if form == 'cwd':
                    expect.pop(own)
                    after.pop(own, None)
                else:
                    expect.pop(own)
        check(after == expect, f'{what}: files left', sorted(set(after) ^ set(expect)),
              sorted(k for k in after if k in expect and after[k] != expect[k]))
    scratch(body)


INIT = {'yes': 'DB_MODULE = True\n', 'no': 'DB_MODULE = False\n', 'none': 'x = 1\n',
        'broken': 'raise RuntimeError("x")\n', 'syntax': 'def (\n', 'discoverable': 'DISCOVERABLE = False\nDB_MODULE = True\n',
        'decoy': 'DB_ID = "x"\nDB_PATH = "x"\nDISCOVERABLE = True\ndb = lambda: None\n',
        'not': 'DB_ID = "x"\ndb = lambda: None\nDB_MODULE = False\nDISCOVERABLE = True\n',
        'bare': 'DB_MODULE = 1\n', 'late': 'DB_MODULE = True\nraise ValueError("x")\n'}


def r_find_modules(entries, form='abs', name='root'):
    from citrine.cluster_tools.dbmodule import dbmodule as dm

    def body(base, root, g):
        top = os.path.join(base, name)
        os.makedirs(top, exist_ok=True)
        expect = set()
        for e in entries:
            d = os.path.join(top, e[0])
            if e[1] == 'file':
                with open(d, 'w') as f:
                    f.write('x')
                continue
            os.makedirs(d, exist_ok=True)
            if e[1] is not None:
                with open(os.path.join(d, '__init__.py'), 'w') as f:
                    f.write(INIT[e[1]])
            if e[1] in ('yes', 'discoverable', 'bare') and '/' not in e[0]:
                expect.add(e[0])
        where = top
        if form == 'rel':
            os.chdir(base)
            where = name
        elif form == 'cwd':
            os.chdir(top)
            where = '.'
        elif form == 'slash':
            where = top + os.sep
        before = tree(base)
        kind, val = guarded(g, base, lambda: list(dm.find_dbmodules(where)))
        what = f'find_dbmodules({form} {name!r})'
        check(kind == 'ok', f'{what} raised', val)
        got = sorted(os.path.abspath(x) for x in val)
        os.chdir('/')
        check(got == sorted(os.path.join(os.path.abspath(top), e) for e in expect), f'{what}: modules found', got,
              sorted(expect))
        check({k: v for k, v in tree(base).items() if '__pycache__' not in k} ==
              {k: v for k, v in before.items() if '__pycache__' not in k}, f'{what}: files changed')
    scratch(body)


class FakeGiven:
    size = 0


def r_created(names, form='abs'):
    """modules that were created are found, open their databases and keep them"""
    from citrine.cluster_tools.dbmodule import dbmodule as dm
    from citrine.cluster_tools.dbmodule.dbgroup import DbGroup

    def body(base, root, g):
        where = root
        if form == 'rel':
            os.chdir(base)
            where = 'root'
        elif form == 'slash':
            where = root + os.sep
        seen = {}

        def go():
            grp = DbGroup(where)
            check(not grp.modules, 'nothing is found in an empty directory', grp.modules)
            for i, n in enumerate(names):
                m = grp.create_dbmodule(n)
                check(m.name == n or n is None, f'creating module {n!r}: its name', m.name)
                seen[m.name] = i
                conn = m.open()
                conn.create('k', i)
                check(m.size == 1, f'module {n!r}: size', m.size)
                conn.close()
            check(set(grp.modules) == set(seen), 'modules of the group', sorted(grp.modules))
            check(grp.size == len(seen), 'size of the group', grp.size)
            for m in grp.modules.values():
                m.db.close()
            again = DbGroup(where)
            check(set(again.modules) == set(seen), 'modules found again', sorted(again.modules), sorted(seen))
            for n, m in again.modules.items():
                conn = m.open()
                check(conn.read('k') == seen[n], f'module {n!r}: what was stored', conn.read('k'))
                check(m.db.database_name == n and again.databases[n] is m.db, f'module {n!r}: its database')
                conn.close()
                m.db.close()
            found = sorted(os.path.basename(os.path.normpath(x)) for x in dm.find_dbmodules(where))
            check(found == sorted(seen), 'modules found', found)
            given = FakeGiven()
            for disc, found in ((True, again.modules), (False, {})):
                own = DbGroup(where, discovery=disc, modules={'given': given, min(seen): given})
                check(set(own.modules) == set(found) | {'given', min(seen)} and
                      all(own.modules[x] is given for x in ('given', min(seen))),
                      f'modules given (discovery: {disc})', own.modules)
                for x, m in own.modules.items():
                    if m is not given:
                        m.db.close()
            n = min(seen)
            again.destroy_dbmodule(n)
            check(set(again.modules) == set(seen) - {n}, f'modules of the group after destroying {n!r}',
                  sorted(again.modules))
            shutil.rmtree(os.path.join(root, n, '__pycache__'), ignore_errors=True)
            check(os.path.exists(os.path.join(root, n)) is False or not [
                x for x in os.listdir(os.path.join(root, n))], f'module {n!r} was destroyed',
                os.path.exists(os.path.join(root, n)) and os.listdir(os.path.join(root, n)))
            left = DbGroup(where)
            check(set(left.modules) == set(seen) - {n}, 'modules left', sorted(left.modules))
            for m in left.modules.values():
                m.db.close()
        kind, val = guarded(g, base, go)
        os.chdir('/')
        if kind == 'exc':
            if isinstance(val, Violation):
                raise val
            raise Violation(f'modules {names}: {type(val).__name__}: {val}')
    scratch(body)


class FakeModule:
    def __init__(self, name, path):
        self.name, self.path = name, path


def r_registry(initial, ops, persist=False):
    from citrine.cluster_tools.clusterdb.container import ClusterRegistryContainer, DbModuleRegistry
    from persistent.mapping import PersistentMapping
    m = {}
    if initial is None:
        reg = ClusterRegistryContainer()
    else:
        kind, names = initial
        m = {n: DbModuleRegistry(n, '/p/' + n) for n in names}
        reg = ClusterRegistryContainer((PersistentMapping if kind == 'pm' else dict)(m))
    t = db = None
    if persist:
        import transaction
        from ZODB import DB
        db = DB(mod_storage())
        t = transaction.TransactionManager()
        c = db.open(t)
        c.root.reg = reg
        t.commit()

    def look(r, what):
        check(set(r.modules.keys()) == set(m), f'{what}: registered modules', sorted(r.modules.keys()), sorted(m))
        for n in set(m) | {'zz', 'a', ''}:
            check(bool(r.has(n)) == (n in m), f'{what}: has({n!r})')
            got = r.read(n)
            if n in m:
                check(got is not None and got.name == m[n].name and got.path == m[n].path,
                      f'{what}: read({n!r})', got)
            else:
                check(got is None, f'{what}: read({n!r})', got)
    try:
        look(reg, 'new registry')
        for op in ops:
            if op[0] == 'write':
                mod = FakeModule(op[2], op[3])
                ok(lambda: reg.write(op[1], mod), f'{op}')
                m[op[1]] = mod
            elif op[0] == 'delete':
                if op[1] in m:
                    ok(lambda: reg.delete(op[1]), f'{op}')
                    del m[op[1]]
                else:
                    outcome(lambda: reg.delete(op[1]))
            else:
                ok(lambda: reg.expand_size(op[1]), f'{op}')
            look(reg, f'after {op}')
            if persist:
                t.commit()
                import transaction
                t2 = transaction.TransactionManager()
                c2 = db.open(t2)
                look(c2.root.reg, f'reopened after {op}')
                t2.abort()
                c2.close()
    finally:
        if db is not None:
            t.abort()
            db.close()


def gen_c15(run):
    rng = run.rng
    outside = [['other.txt', 'o'], ['root/side.txt', 's'], ['root/dbx/__init__.py', 'i'],
               ['root/dbx/dbx', 'd'], ['elsewhere/db', 'e'], ['root/db.txt', 'n']]
    full = [['root/db/__init__.py', 'old'], ['root/db/db', 'data'], ['root/db/db.index', 'x'],
            ['root/db/db.lock', ''], ['root/db/notes.txt', 'keep'], ['root/db/sub/db', 'keep'],
            ['root/db/dbdir/f', 'keep'], ['root/db/mydb', 'keep'], ['root/db/__init__.pyc', 'keep']]
    for disc in (None, True, False):
        for over in (None, True, False):
            for form in ('abs', 'rel', 'cwd', 'slash', 'default'):
                yield 'create_module', dict(name='db', entries=outside, discoverable=disc, overwrite=over, form=form)
                yield 'create_module', dict(name='db', entries=outside + full, discoverable=disc,
                                            overwrite=over, form=form)
                yield 'create_module', dict(name=None, entries=outside + full, discoverable=disc,
                                            overwrite=over, form=form)
    for over in (None, True, False):
        yield 'create_module', dict(name='db', entries=outside[:-1] + [['root/db', 'a file']], overwrite=over)
        yield 'create_module', dict(name='db', entries=outside + [['root/db', 'dir']], overwrite=over)
        yield 'create_module', dict(name='db', entries=outside + [['root/db/db', 'data'], ['root/db/db.index', 'x']],
                                    overwrite=over)
    minimal = [['root/db/__init__.py', 'old'], ['root/db/db', 'data']]
    for re_ in (None, True, False):
        for ra in (None, True, False):
            for form in ('abs', 'rel', 'slash', 'dot', 'updown'):
                for ent in (full, minimal, [['root/db', 'dir']], [['root/db/notes', 'k']],
                            [['root/db/db', 'dir']], [['root/db/db.d', 'dir'], ['root/db/__init__.py', '']],
                            minimal + [['root/db/db.ln', 'link', '../side.txt']],
                            minimal + [['root/db/ln', 'link', '../side.txt']]):
                    yield 'delete_module', dict(name='db', entries=outside + ent, remove_empty=re_,
                                                remove_all=ra, form=form)
    for nm in ('my.db', 'a b', '.db', 'db.fs.old', '__init__', 'é', 'D-b', '__init__.py'):
        ent = [[f'root/{nm}/' + x, 'y'] for x in (nm, nm + '.index', nm[:-1] or 'q', 'x' + nm, '__init__.py',
                                                  nm.split('.')[0] + '_', nm.upper() + 'Q', 'notes')]
        ent = [e for i, e in enumerate(ent) if e[0] not in [x[0] for x in ent[:i]]]
        for form in ('abs', 'slash'):
            for ra in (None, True):
                yield 'delete_module', dict(name=nm, entries=outside + ent, remove_all=ra, form=form)
            yield 'create_module', dict(name=nm, entries=outside + ent, overwrite=True, form=form)
        yield 'create_module', dict(name=nm, entries=outside)
    for form in ('abs', 'rel', 'cwd', 'slash'):
        for nm in ('root', 'mods'):
            yield 'find_modules', dict(entries=[], form=form, name=nm)
            yield 'find_modules', dict(entries=[['a', 'yes'], ['b', 'no'], ['c', 'none'], ['d', 'broken'],
                                                ['e', 'syntax'], ['f', 'discoverable'], ['g', None],
                                                ['h', 'file'], ['i', 'decoy'], ['j', 'not'], ['k', 'bare'],
                                                ['l', 'late'], ['.m', 'yes'], ['n.o', 'yes'], ['g/a', 'yes'], ['a/b', 'yes'],
                                                [nm, 'yes']], form=form, name=nm)
    for form in ('abs', 'rel', 'slash'):
        for names in (['one'], ['a', 'b', 'c'], [None], ['x.y', 'two words', '_u']):
            yield 'created', dict(names=names, form=form)
    yield 'registry', dict(initial=None, ops=[['write', 'a', 'n', '/p'], ['write', 'b', 'm', '/q'],
                                              ['delete', 'a'], ['delete', 'a'], ['expand', 5]], persist=True)
    for kind in ('dict', 'pm'):
        for names in ([], ['a'], ['a', 'b']):
            for p in (False, True):
                yield 'registry', dict(initial=[kind, names], persist=p, ops=[
                    ['write', 'c', 'c', '/c'], ['delete', 'a'], ['write', 'a', 'x', '/x'],
                    ['write', 'a', 'y', '/y'], ['delete', 'c'], ['delete', 'a']])
    n = 250 if run.tier == 'quick' else 6000
    files = ['__init__.py', 'db', 'db.index', 'db.tmp', 'dba', 'notes', 'xdb', 'DB', 'db.d/x', 'sub/db',
             'sub/__init__.py', '__init__.pyc', '_', 'd', 'db/db']
    for _ in range(n):
        if run.timeleft() <= 0:
            return
        ent, have = [], set()
        for f in rng.sample(files, rng.randint(0, 8)):
            top = f.split('/')[0]
            if top in have:
                continue
            have.add(top)
            ent.append(['root/db/' + f, rng.choice(['x', 'y'])])
        if not ent:
            ent = [['root/db', 'dir']]
        side = rng.sample(outside, rng.randint(0, len(outside)))
        if rng.random() < .15:
            yield 'find_modules', dict(entries=[[x, rng.choice(list(INIT) + [None, 'file', 'yes'])]
                                                for x in rng.sample(['root', 'a', 'b', '.', '_x', 'a b'][:3] +
                                                                    ['c.d', '_x', 'a b'], rng.randint(0, 5))],
                                       form=rng.choice(['abs', 'rel', 'cwd', 'slash']))
        elif rng.random() < .6:
            yield 'delete_module', dict(name='db', entries=side + ent, remove_empty=rng.choice([None, True, False]),
                                        remove_all=rng.choice([None, False, False, True]),
                                        form=rng.choice(['abs', 'rel', 'slash', 'dot', 'updown']))
        elif rng.random() < .6:
            yield 'create_module', dict(name=rng.choice(['db', 'new', 'dbx2', 'd']), entries=side + ent,
                                        discoverable=rng.choice([None, True, False]),
                                        overwrite=rng.choice([None, True, False]),
                                        form=rng.choice(['abs', 'rel', 'cwd', 'slash', 'default']))
        else:
            ops = [rng.choice([['write', rng.choice('abc'), rng.choice(['n', '']), '/q'],
                               ['delete', rng.choice('abc')]]) for _ in range(6)]
            yield 'registry', dict(initial=rng.choice([None, ['dict', ['a']], ['pm', ['b', 'c']]]), ops=ops,
                                   persist=rng.random() < .2)


RUNNERS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('r_')}
PROPS = {
    'C12': {'gen': gen_c12, 'rule': 'real FileStorage/MappingStorage/DemoStorage databases: every way of creating, '
            'each option on its own, random option sets, loading filled and fresh storages'},
    'C13': {'gen': gen_c13, 'rule': 'real databases: every subset of up to three databases holding the id, every '
            'palette value but None, timeouts, options per database, then random sets'},
    'C14': {'gen': gen_c14, 'rule': 'random histories of the legacy store against a dict, with expansion, '
            'also through the legacy connection and a reopened database'},
    'C15': {'gen': gen_c15, 'rule': 'every option combination on scratch directories under an audit hook that stops '
            'changes elsewhere, compared file by file; registry histories against a dict'},
}

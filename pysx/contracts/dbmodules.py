"""citrine.cluster_tools.dbmodule.dbmodule over a contract of the file system, and
the registry of modules (citrine.cluster_tools.clusterdb.container).

The file system is a set of names for each of the two directories that matter,
the root and the directory of the module (Dir: which names there are, which of
them are files, directories or neither), and every call of os, os.path, shutil
and open() is a stand-in with the effect of the real call on that state (or its
error). A path is the root or the module's directory, as it was given by the
caller, followed by names. What a path given by the caller is called can only be
learnt from its absolute form: as it was given it may end in a separator (the
last part is then empty). Names are arbitrary; whether one starts with, ends
with or equals another one is arbitrary, a name starting and ending with itself."""
import ast
import builtins
import importlib
import importlib.util
import os
import os.path
import runpy
import shutil
import types
from unittest import mock

import z3

from pysx.core import B, I, Key, Unsupported, contract_error, ctx
from pysx.contracts.collection import BARE
from pysx.contracts.common import Stored, equal, key, outcome, truthy, val
from pysx.contracts.legacy import Bucket
from pysx.maps import Map, Persistent, empty_store, map_store
from pysx.seq import PvxDict, PvxSeq, Store
from pysx.sym import Pvx, PvxKey, PvxVal, isa, mkbool, mknot, vt
from pysx.transform import REPO, Loader

STARTS = z3.Function('starts_with', Key, Key, B)
ENDS = z3.Function('ends_with', Key, Key, B)
JOINED = z3.Function('joined_text', Key, Key, Key)
EMPTY = z3.Function('empty_name', Key, B)


def lit(s):
    """the name that is the given text"""
    c = ctx()
    known = c.known.setdefault('file names', {})
    if s not in known:
        t = z3.Const(f'"{s}"', Key)
        for x, u in known.items():
            c.assume(t != u)
            c.assume(STARTS(t, u) if s.startswith(x) else z3.Not(STARTS(t, u)))
            c.assume(STARTS(u, t) if x.startswith(s) else z3.Not(STARTS(u, t)))
            c.assume(ENDS(t, u) if s.endswith(x) else z3.Not(ENDS(t, u)))
            c.assume(ENDS(u, t) if x.endswith(s) else z3.Not(ENDS(u, t)))
        c.assume(z3.And(STARTS(t, t), ENDS(t, t)))
        known[s] = t
    return known[s]


def label(n):
    return n if type(n) is str else repr(n)


def nt(x):
    if isinstance(x, Name):
        return x.t
    if type(x) is str:
        return lit(x)
    raise Unsupported(f'{type(x).__name__} as the name of a file')


class Name(Pvx):
    """the name of an entry of a directory"""

    def __init__(self, t):
        self.t = t

    def pvx_isinstance(self, cls):
        return isa(str, cls)

    def pvx_type(self):
        return str

    def pvx_reindex(self, j, i):
        return Name(z3.substitute(self.t, (j, i)))

    def pvx_same(self, o):
        return self.t == o.t if isinstance(o, Name) else z3.BoolVal(False)

    def __eq__(self, o):
        if isinstance(o, (str, Name)):
            return mkbool(self.t == nt(o))
        if isinstance(o, Path):
            # a relative path can be a name as well
            return mkbool(o.as_name() == self.t)
        return False

    def __ne__(self, o):
        return mknot(self.__eq__(o))

    def __hash__(self):
        return 0

    def __bool__(self):
        return mknot(mkbool(EMPTY(self.t))).__bool__()

    def tests(self, fn, x, rest):
        if rest:
            raise Unsupported('part of a name')
        xs = x if isinstance(x, tuple) else (x,)
        r = [fn(self.t, nt(y)) for y in xs]
        for y in xs:
            if isinstance(y, Name):
                ctx().assume(fn(y.t, y.t))
        return mkbool(z3.Or(*r))

    def startswith(self, x, *rest):
        return self.tests(STARTS, x, rest)

    def endswith(self, x, *rest):
        return self.tests(ENDS, x, rest)

    def __add__(self, o):
        if not isinstance(o, (str, Name)):
            return NotImplemented
        if type(o) is str and ('/' in o or os.sep in o):
            raise Unsupported('a path put together from text')
        t = JOINED(self.t, nt(o))
        ctx().assume(z3.And(STARTS(t, self.t), ENDS(t, nt(o))))
        return Name(t)

    def __radd__(self, o):
        raise Unsupported('a path put together from text')

    def __contains__(self, o):
        raise Unsupported('part of a name')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'{n} of a name')

    def __repr__(self):
        return f'<{self.t}>'


class Path(Pvx):
    """a directory given by the caller, and names below it"""

    def __init__(self, base, names=(), clean=False):
        self.base, self.names, self.clean = base, tuple(names), clean

    def pvx_isinstance(self, cls):
        return isa(str, cls)

    def pvx_type(self):
        return str

    def pvx_reindex(self, j, i):
        return Path(self.base, [n.pvx_reindex(j, i) if isinstance(n, Name) else n
                                for n in self.names], self.clean)

    def pvx_here(self, c):
        # a path of another path through the code: the same directory on this one
        d = c.known.get('directories', {}).get(self.base.label)
        if d is None:
            raise Unsupported('a directory that is not known here')
        return Path(d, self.names, self.clean)

    def pvx_same(self, o):
        if not isinstance(o, Path) or o.base is not self.base or len(o.names) != len(self.names) \
                or o.clean != self.clean:
            return z3.BoolVal(False)
        return z3.And(*[nt(a) == nt(b) for a, b in zip(self.names, o.names)]) \
            if self.names else z3.BoolVal(True)

    def as_name(self):
        if self.names:
            return ctx().fresh('pathname', Key)
        return self.base.text

    def __eq__(self, o):
        if isinstance(o, Path):
            return mkbool(self.pvx_same(o))
        if isinstance(o, Name):
            return o == self
        if isinstance(o, str):
            raise Unsupported('comparison of a path')
        return False

    def __ne__(self, o):
        return mknot(self.__eq__(o))

    def __hash__(self):
        return 0

    def __bool__(self):
        return True

    def __iter__(self):
        raise Unsupported('characters of a path')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'{n} of a path')

    def __repr__(self):
        return '/'.join([repr(self.base)] + [repr(n) for n in self.names])


class Dir:
    """a directory"""

    def __init__(self, label):
        c = ctx()
        self.label = c.name_of(label)
        c.known.setdefault('directories', {})[self.label] = self
        self.there0 = c.func(self.label + '.there', Key, B)
        self.file = c.func(self.label + '.is_file', Key, B)
        self.dir = c.func(self.label + '.is_dir', Key, B)
        k = z3.Const('dk', Key)
        c.assume(z3.ForAll([k], z3.Not(z3.And(self.file(k), self.dir(k)))))
        self.exists0 = c.fresh(self.label + '.exists', B)
        self.store = Store(self.label, there=lambda k: z3.And(self.exists0, self.there0(k)))
        self.self_ = Store(self.label + ' itself', there=lambda i: self.exists0)
        self.written = {}
        # the text the caller gives, as a name, and what it is called
        self.text = c.fresh(self.label + '.text', Key)
        self.name = c.fresh(self.label + '.name', Key)
        self.last = c.fresh(self.label + '.last_part', Key)

    def there(self, k):
        return self.store.at('there', k)

    @property
    def exists(self):
        return self.self_.f['there'](z3.IntVal(0))

    def put(self, k, v):
        self.store.set('there', k, lambda: z3.BoolVal(v))

    def vanish(self):
        self.store.replace('there', lambda k: z3.BoolVal(False))
        self.self_.set('there', z3.IntVal(0), lambda: z3.BoolVal(False))

    def entries(self):
        there = self.store.f['there']
        return PvxSeq(None, lambda k: Name(k), keep=lambda k: there(k), label=f'entries of {self.label}',
                      sort=Key, mutable=True, injective=True)

    def empty(self):
        k = z3.Const('ek', Key)
        there = self.store.f['there']
        return z3.ForAll([k], z3.Not(there(k)))

    def __repr__(self):
        return self.label


class Disk:
    """the stand-ins of os, os.path, shutil and open"""

    def __init__(self, what):
        c = self.c = ctx()
        self.what = what
        self.module = Dir('module')
        self.root = None
        self.m = self.module.name
        self.opened = []
        self.may_remove_dir = z3.BoolVal(False)
        self.may_remove_all = False
        c.assume(z3.Not(EMPTY(self.m)))
        c.assume(STARTS(self.m, self.m))
        for f in (os.listdir, os.remove, os.unlink, os.rmdir, os.mkdir, os.makedirs, shutil.rmtree):
            c.hooks[f] = getattr(self, f.__name__)
        c.hooks[builtins.open] = self.open
        for n in ('exists', 'lexists', 'isfile', 'isdir', 'join', 'split', 'basename', 'dirname',
                  'abspath', 'realpath', 'normpath'):
            c.hooks[getattr(os.path, n)] = getattr(self, n)
        for f in (os.rename, os.replace, os.removedirs, os.truncate, os.symlink, os.link, os.chmod,
                  os.system, os.scandir, os.walk, shutil.move, shutil.copy, shutil.copyfile,
                  shutil.copytree, os.path.islink, os.path.splitext, os.path.relpath):
            c.hooks[f] = self.other(f.__name__)

    def other(self, n):
        def f(*a, **k):
            raise Unsupported(f'{n}() on the file system')
        return f

    def own(self, k):
        """the files that belong to the module itself"""
        return z3.Or(k == lit('__init__.py'), z3.And(self.module.file(k), STARTS(k, self.m)))

    # -- paths
    def join(self, p, *more):
        if not isinstance(p, Path):
            raise Unsupported('a path that is not given')
        for x in more:
            if isinstance(x, Path):
                raise Unsupported('a path below a path')
            if type(x) is str and ('/' in x or x in ('', '.', '..')):
                raise Unsupported('a path put together from text')
            nt(x)
        return Path(p.base, p.names + more)

    def where(self, p):
        """(directory, None) or (directory, name in it)"""
        if not isinstance(p, Path):
            if isinstance(p, Name):
                # relative to wherever the process is
                self.c.prove(f'{self.what}: only paths below what was given are used', False, repr(p))
            raise Unsupported('a path that is not given')
        names = p.names
        d = p.base
        if d is self.root and names:
            if self.module_name is None:
                self.module_name = names[0]
                self.c.assume(nt(names[0]) == self.m)
            if self.is_module(names[0]):
                d, names = self.module, names[1:]
        if not names:
            return d, None
        if len(names) > 1:
            return None, names
        return d, names[0]

    module_name = None

    def is_module(self, n):
        return n is self.module_name or type(n) is str and n == self.module_name or \
            self.c.branch(nt(n) == self.m)

    def abspath(self, p):
        if not isinstance(p, Path):
            raise Unsupported('a path that is not given')
        return Path(p.base, p.names, True)

    def realpath(self, p, **k):
        # a symbolic link may be called anything
        raise Unsupported('realpath')

    normpath = realpath

    def basename(self, p):
        if isinstance(p, (Name, str)):
            return p
        if p.names:
            return p.names[-1]
        return Name(p.base.name if p.clean else p.base.last)

    def dirname(self, p):
        if isinstance(p, Path) and p.names:
            return Path(p.base, p.names[:-1], p.clean)
        raise Unsupported('the parent of what was given')

    def split(self, p):
        if isinstance(p, Path) and p.names:
            return (self.dirname(p), p.names[-1])
        return (Outside(), self.basename(p))

    # -- looking
    def holds(self, p, of):
        d, n = self.where(p)
        if d is None:
            return mkbool(self.deep(n, of))
        if n is None:
            return mkbool(d.exists if of != 'file' else z3.BoolVal(False))
        k = nt(n)
        t = d.there(k)
        if of == 'file':
            t = z3.And(t, d.file(k))
        elif of == 'dir':
            t = z3.And(t, d.dir(k))
        elif of == 'seen':
            t = z3.And(t, z3.Or(d.file(k), d.dir(k)))
        return mkbool(t)

    def deep(self, names, of):
        raise Unsupported('below other directories')

    def exists(self, p):
        return self.holds(p, 'seen')

    def lexists(self, p):
        return self.holds(p, 'any')

    def isfile(self, p):
        return self.holds(p, 'file')

    def isdir(self, p):
        return self.holds(p, 'dir')

    def listdir(self, p):
        d, n = self.where(p)
        if n is not None or d is None:
            raise Unsupported('listing another directory')
        if not self.c.branch(d.exists):
            raise contract_error(FileNotFoundError('directory'))
        return d.entries()

    # -- changing
    def own_dir(self, p, what):
        """the module's own directory"""
        d, n = self.where(p)
        ok = d is self.module and n is None
        self.c.prove(f'{self.what}: {what} its own directory only', ok, repr(p))
        if not ok:
            raise Unsupported('another directory is changed')

    def remove(self, p):
        d, n = self.where(p)
        if d is not self.module or n is None:
            self.c.prove(f'{self.what}: only its own files are removed', False, repr(p))
            raise Unsupported('something else is removed')
        k = nt(n)
        self.c.prove(f'{self.what}: only its own files are removed',
                     z3.Implies(d.there(k), self.own(k)), repr(p))
        if not self.c.branch(d.there(k)):
            raise contract_error(FileNotFoundError('file'))
        if self.c.branch(d.dir(k)):
            raise contract_error(IsADirectoryError('file'))
        d.put(k, False)
        d.written.pop(label(n), None)

    unlink = remove

    def rmdir(self, p):
        self.own_dir(p, 'removes')
        d = self.module
        if not self.c.branch(d.exists):
            raise contract_error(FileNotFoundError('directory'))
        if not self.c.branch(d.empty()):
            raise contract_error(OSError('directory not empty'))
        d.vanish()

    def rmtree(self, p, *a, **k):
        if a or k:
            raise Unsupported('options of rmtree')
        self.own_dir(p, 'removes')
        if not self.c.branch(self.module.exists):
            raise contract_error(FileNotFoundError('directory'))
        self.module.vanish()

    def mkdir(self, p, *a, **k):
        if a or k:
            raise Unsupported('options of mkdir')
        self.own_dir(p, 'makes')
        d = self.module
        if self.c.branch(d.exists):
            raise contract_error(FileExistsError('directory'))
        d.store.replace('there', lambda k: z3.BoolVal(False))
        d.self_.set('there', z3.IntVal(0), lambda: z3.BoolVal(True))
        d.written.clear()

    def makedirs(self, p, *a, exist_ok=False, **k):
        if a or k:
            raise Unsupported('options of makedirs')
        if exist_ok and self.c.branch(self.module.exists):
            self.own_dir(p, 'makes')
            return
        self.mkdir(p)

    def open(self, p, mode='r', *a, **k):
        if a or set(k) - {'encoding', 'newline'} or mode not in ('w', 'wt', 'x', 'xt', 'a', 'at'):
            raise Unsupported('how a file is opened')
        d, n = self.where(p)
        ok = d is self.module and n is not None
        self.c.prove(f'{self.what}: writes only inside its own directory', ok, repr(p))
        if not ok:
            raise Unsupported('another file is written')
        if not self.c.branch(d.exists):
            raise contract_error(FileNotFoundError('directory'))
        t = nt(n)
        old = []
        if self.c.branch(d.there(t)):
            if self.c.branch(d.dir(t)):
                raise contract_error(IsADirectoryError('file'))
            if mode[0] == 'x':
                raise contract_error(FileExistsError('file'))
            if mode[0] == 'a':
                old = d.written.get(label(n), [Path(d)])
        d.put(t, True)
        f = File(d, label(n), old)
        self.opened.append((n, f))
        return f


class Outside(Pvx):
    """some directory further up"""

    def __getattr__(self, n):
        raise Unsupported('a directory further up')


class File:
    def __init__(self, d, n, old):
        self.got, self.open = list(old), True
        d.written[n] = self.got

    def write(self, text):
        if not self.open:
            raise contract_error(ValueError('closed file'))
        if not isinstance(text, str):
            raise Unsupported('what is written')
        self.got.append(text)
        return len(text)

    def writelines(self, texts):
        for t in list(texts):
            self.write(t)

    def flush(self):
        pass

    def close(self):
        self.open = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.open = False
        return False


def load():
    return Loader(stubs={'persistent': {'Persistent': Persistent},
                         'persistent.mapping': {'PersistentMapping': PersistentMapping}},
                  bare=BARE + ('citrine.cluster_tools', 'citrine.cluster_tools.dbmodule',
                               'citrine.cluster_tools.clusterdb')).load(
        'citrine.cluster_tools.dbmodule.dbmodule')


def bare():
    return BARE + ('citrine.cluster_tools', 'citrine.cluster_tools.dbmodule',
                   'citrine.cluster_tools.clusterdb')


def deletion(run):
    mod = load()

    def h():
        c = ctx()
        w = Disk('delete')
        d = w.module
        c.assume(d.exists0)
        init = lit('__init__.py')
        c.assume(z3.Not(z3.And(d.there0(init), d.dir(init))))
        kw = {}
        empty, whole = c.choose(['default', True, False]), c.choose(['default', True, False])
        if empty != 'default':
            kw['remove_empty'] = empty
        if whole != 'default':
            kw['remove_all'] = whole
        how = 'everything' if whole is True else 'keeping the directory' if empty is False else 'by default'
        k = c.fresh('entry', Key)
        was, own = d.there0(k), w.own(k)
        q = z3.Const('lk', Key)
        left = z3.Exists([q], z3.And(d.there0(q), z3.Not(w.own(q))))
        kind, r = outcome(lambda: mod.delete_dbmodule(Path(d), **kw))
        c.prove(f'delete, {how}: does not fail', kind == 'ok', repr(r))
        if kind != 'ok':
            return
        if whole is True:
            c.prove(f'delete, {how}: the directory is gone', z3.Not(d.exists))
            return
        c.prove(f'delete, {how}: the directory is gone only if it is empty and that is asked for',
                d.exists == (left if empty is not False else z3.BoolVal(True)))
        c.prove(f'delete, {how}: exactly its own files are gone',
                d.there(k) == z3.And(was, z3.Not(own)))
    run.explore('delete_dbmodule', h)
    run.covers('citrine.cluster_tools.dbmodule.dbmodule:delete_dbmodule')


def flags(text):
    """what the written module says about itself"""
    try:
        body = ast.parse(text).body
    except SyntaxError:
        return None
    r = {}
    for node in body:
        if isinstance(node, ast.Assign) and isinstance(node.value, ast.Constant):
            for t in node.targets:
                if isinstance(t, ast.Name):
                    r[t.id] = node.value.value
    return r


class Database:
    """stands for a class of the code under test that a written module imports"""

    def __init__(self, calls):
        self.calls = calls

    def __call__(self, *a, **k):
        self.calls.append(('open', a, k))
        return self

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: self.calls.append((n, a, k)) or self


ISFILE = os.path.isfile


def names_of(module):
    """the names a module of the code under test has"""
    at = os.path.join(REPO, *module.split('.'))
    for f in (at + '.py', os.path.join(at, '__init__.py')):
        if ISFILE(f):
            with open(f) as src:
                body = ast.parse(src.read()).body
            r = set(os.path.splitext(x)[0] for x in os.listdir(at)) if os.path.isdir(at) else set()
            for node in body:
                if isinstance(node, (ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)):
                    r.add(node.name)
                elif isinstance(node, (ast.Import, ast.ImportFrom)):
                    r |= {(x.asname or x.name).split('.')[0] for x in node.names}
                elif isinstance(node, (ast.Assign, ast.AnnAssign)):
                    for t in getattr(node, 'targets', None) or [node.target]:
                        r |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
            return r
    return None


def opens(text, there):
    """what the module written opens when asked for its database (the name of its
    directory being `given`), the file of the database being there or not"""
    calls = []

    def imports(name, g=None, l=None, fromlist=(), level=0):
        if level or name.split('.')[0] not in ('citrine', 'jsonld', 'activitystreams', 'activitypub'):
            return builtins.__import__(name, g, l, fromlist, level)
        have = names_of(name)
        if have is None or not fromlist or set(fromlist) - have:
            raise ImportError(name)
        return types.SimpleNamespace(**{n: Database(calls) for n in fromlist})
    ns = {'__builtins__': {**vars(builtins), '__import__': imports}, '__name__': 'db',
          '__file__': '/below/given/__init__.py'}
    with mock.patch('os.path.exists', lambda p: there), mock.patch('os.path.isfile', lambda p: there):
        exec(compile(text, 'the module written', 'exec'), ns)
        db = ns['db']()
    return calls, isinstance(db, Database)


def database_of(text):
    """whether the module written opens a database of its name, among its own files,
    and makes one only if there is none"""
    for there in (True, False):
        try:
            calls, db = opens(text, there)
        except Exception as e:
            return f'{type(e).__name__}: {e}'
        if len(calls) != 1 or not db:
            return repr(calls)
        how, a, k = calls[0]
        path = a[0] if a else k.get('storage', k.get('file_name'))
        if type(path) is not str or os.path.dirname(os.path.abspath(path)) != '/below/given' or \
                not os.path.basename(path).startswith('given'):
            return f'at {path!r}'
        if k.get('database_name') != 'given':
            return f"called {k.get('database_name')!r}"
        if how not in (('open', 'load') if there else ('open', 'load', 'new')):
            return f'{how}, although there is one' if there else how
    return None


def creation(run):
    mod = load()

    def h():
        c = ctx()
        w = Disk('create')
        d = w.module
        w.root = Dir('root')
        c.assume(w.root.exists0)
        init = lit('__init__.py')
        c.assume(z3.Not(z3.And(d.there0(init), d.dir(init))))
        named = c.choose([True, False])
        over, disc = c.choose(['default', True, False]), c.choose(['default', True, False])
        kw = {}
        if over != 'default':
            kw['overwrite'] = over
        if disc != 'default':
            kw['discoverable'] = disc
        if named:
            w.module_name = Name(w.m)
            kw['name'] = w.module_name
        c.hooks[mod.delete_dbmodule] = lambda path, remove_empty=True, remove_all=False: \
            deleted(w, path, remove_empty, remove_all)
        k = c.fresh('entry', Key)
        was, own, ex0 = z3.And(d.exists0, d.there0(k)), w.own(k), d.exists0
        p = Path(w.root)
        kind, r = outcome(lambda: mod.create_dbmodule(p, **kw))
        if kind == 'exc':
            c.prove('create: refuses only one that exists, unless it is to be overwritten',
                    z3.And(ex0, over is not True) if isinstance(r, OSError) else False, repr(r))
            c.prove('create: a refusal changes nothing', z3.And(
                d.exists == ex0, d.there(k) == was))
            return
        c.prove('create: one that exists is refused, unless it is to be overwritten',
                z3.Or(z3.Not(ex0), over is True))
        c.prove('create: the path of the module is returned', isinstance(r, Path) and w.where(r) == (d, None),
                repr(r))
        c.prove('create: the directory is there', d.exists)
        c.prove('create: nothing but its own files is changed',
                d.there(k) == z3.Or(k == init, z3.And(was, z3.Not(own))))
        f = [f for n, f in w.opened if (n == '__init__.py' if type(n) is str else c.check(
            n.t != init) == z3.unsat)]
        ok = bool(f) and all(isinstance(x, str) for x in f[-1].got)
        text = ''.join(f[-1].got) if ok else ''
        got = flags(text) if ok else None
        c.prove('create: the file written is complete Python', bool(got) and not f[-1].open)
        c.prove('create: the file says that it is a module', bool(got) and got.get('DB_MODULE') is True)
        wrong = database_of(text) if got else 'no module'
        c.prove('create: the module opens a database of its name, among its own files, and makes '
                'one only if there is none', wrong is None, wrong)
        c.prove('create: the discoverable flag is honoured',
                bool(got) and got.get('DISCOVERABLE') is (disc is not False), str(got))
    run.explore('create_dbmodule', h)
    run.covers('citrine.cluster_tools.dbmodule.dbmodule:create_dbmodule')


def deleted(w, path, remove_empty, remove_all):
    """the contract of delete_dbmodule"""
    c, d = w.c, w.module
    w.own_dir(path, 'empties')
    if not c.branch(d.exists):
        raise contract_error(FileNotFoundError('directory'))
    if remove_all:
        d.vanish()
        return
    there = d.store.f['there']
    d.store.replace('there', lambda k: z3.And(there(k), z3.Not(w.own(k))))
    if remove_empty and c.branch(d.empty()):
        d.vanish()


def finding(run):
    mod = load()

    def h():
        c = ctx()
        w = Disk('find')
        w.root = Dir('root')
        c.assume(w.root.exists0)
        w.module_name = Name(w.m)
        has = c.func('holds_init', Key, B)
        isdb = c.func('is_dbmodule', Key, B)
        w.is_module = lambda n: False

        def deep(names, of):
            if len(names) == 2 and names[1] == '__init__.py' if type(names[-1]) is str else False:
                return z3.And(w.root.there(nt(names[0])), has(nt(names[0])))
            raise Unsupported('other files')
        w.deep = deep

        def check(p):
            d, n = w.where(p)
            if d is not w.root or n is None:
                raise Unsupported('another directory is looked at')
            return mkbool(z3.And(has(nt(n)), isdb(nt(n))))
        c.hooks[mod.is_path_dbmodule] = check
        k = c.fresh('entry', Key)
        from pysx.hooks import as_seq, drain, isgen
        def go():
            r = mod.find_dbmodules(Path(w.root))
            return drain(r) if isgen(r) else r
        kind, r = outcome(go)
        c.prove('find: does not fail', kind == 'ok', repr(r))
        if kind != 'ok':
            return
        s = as_seq(r)
        if not isinstance(s, PvxSeq) or s.sort != Key:
            raise Unsupported('what was found')
        c.prove('find: exactly the modules of the directory', s.member(k) == z3.And(
            w.root.there0(k), has(k), isdb(k)))
        c.assume(s.member(k))
        p = s.elem(k)
        c.prove('find: their paths', p.pvx_same(Path(w.root, [Name(k)])) if isinstance(
            p, Path) else False)
    run.explore('find_dbmodules', h)
    run.covers('citrine.cluster_tools.dbmodule.dbmodule:find_dbmodules')


class Executed:
    """a module whose file has been executed: what it defines is arbitrary"""

    def __init__(self, known=None):
        c = ctx()
        self.__dict__['got'] = dict(known or {})
        self.__dict__['has'] = {}
        self.__dict__['c'] = c

    def defines(self, n):
        if n not in self.has:
            self.has[n] = self.c.fresh(f'defines {n}', B)
        return self.has[n]

    def __getattr__(self, n):
        if n.startswith('__') or n == 'pvx_isinstance':
            raise AttributeError(n)
        if not self.c.branch(self.defines(n)):
            raise contract_error(AttributeError(n))
        if n not in self.got:
            self.got[n] = val(n)
        return self.got[n]

    def __setattr__(self, n, v):
        raise Unsupported('setting a name of a module')


class Importing:
    """importlib: the file at a path is executed, which can fail"""

    FAILURES = {'import': ImportError, 'runtime': RuntimeError, 'syntax': SyntaxError, 'key': KeyError}

    def __init__(self, w, made=None):
        c = ctx()
        self.w, self.ran, self.made, self.module = w, [], made, None
        self.how = c.choose(['runs', *self.FAILURES])
        c.hooks[importlib.util.spec_from_file_location] = self.spec
        c.hooks[importlib.util.module_from_spec] = self.from_spec
        for f in (importlib.import_module, runpy.run_path, runpy.run_module):
            c.hooks[f] = w.other(f.__name__)

    def spec(self, name, location=None, **kw):
        if kw or not isinstance(location, Path):
            raise Unsupported('how a module is imported')
        return Spec(self, location)

    def from_spec(self, spec):
        if not isinstance(spec, Spec):
            raise Unsupported('how a module is imported')
        return spec.module

    def run(self, spec):
        c = ctx()
        d, n = self.w.where(spec.at)
        c.prove(f'{self.w.what}: only the file of the module is executed',
                d is self.w.module and n == '__init__.py', repr(spec.at))
        if not c.branch(z3.And(d.there(lit('__init__.py')), d.file(lit('__init__.py')))):
            raise contract_error(FileNotFoundError('__init__.py'))
        self.ran.append(spec)
        if self.how != 'runs':
            raise contract_error(self.FAILURES[self.how](self.how))
        spec.done = True


class Spec:
    def __init__(self, imp, at):
        self.imp, self.at, self.done = imp, at, False
        self.loader = self
        self.module = imp.module = ModuleOf(self, imp.made)

    def exec_module(self, m):
        if m is not self.module:
            raise Unsupported('how a module is imported')
        self.imp.run(self)


class ModuleOf(Executed):
    """nothing is defined until it has been executed"""

    def __init__(self, spec, known):
        super().__init__(known)
        self.__dict__['spec'] = spec

    def __getattr__(self, n):
        if not self.__dict__['spec'].done:
            raise AttributeError(n)
        return super().__getattr__(n)


def modules(run):
    """what a module at a path is, and what is known about it"""
    mod = load()

    def disk(what):
        w = Disk(what)
        ctx().assume(w.module.exists0)
        # (nothing called that that is neither a file nor a directory)
        return w

    def changed_nothing(w):
        c = ctx()
        k = c.fresh('entry', Key)
        c.prove(f'{w.what}: changes no file', z3.And(w.module.there(k) == w.module.there0(k),
                                                      w.module.exists))

    def declares():
        c = ctx()
        w = disk('is it a module')
        imp = Importing(w)
        init = lit('__init__.py')
        there = z3.And(w.module.there0(init), w.module.file(init))
        kind, r = outcome(lambda: mod.is_path_dbmodule(Path(w.module)))
        c.prove('is it a module: does not fail', kind == 'ok', repr(r))
        if kind != 'ok':
            return
        if imp.ran:
            m = imp.module
            says = z3.And(m.defines('DB_MODULE'), truthy(m.got['DB_MODULE'])) \
                if 'DB_MODULE' in m.got else z3.And(m.defines('DB_MODULE'), c.fresh('its value', B))
            says = says if imp.how == 'runs' else z3.BoolVal(False)
        else:
            # whatever is there has not been looked at
            says = z3.And(there, c.fresh('it says so', B)) if imp.how == 'runs' else z3.BoolVal(False)
        c.prove('is it a module: exactly if it says so', truthy(r) == says)
        changed_nothing(w)

    def importing():
        c = ctx()
        w = disk('import')
        db = Plain()
        calls = []

        def make(*a, **k):
            calls.append((a, k))
            return db
        imp = Importing(w, {'db': make})
        init = lit('__init__.py')
        there = z3.And(w.module.there0(init), w.module.file(init))
        kind, r = outcome(lambda: mod.import_db(Path(w.module)))
        if kind == 'exc':
            c.prove('import: fails only without a module that runs and has a database', z3.Not(
                z3.And(there, imp.how == 'runs', imp.module.defines('db') if imp.module else True)),
                repr(r))
            c.prove('import: nothing is opened', not calls)
            changed_nothing(w)
            return
        c.prove('import: the database of that module', r is db and calls == [((), {})] and bool(imp.ran),
                repr((r, calls)))
        changed_nothing(w)

    class Db:
        def __init__(self):
            self.log, self.database_name, self.conn, self.how = [], Plain(), Plain(), None
            self.conn.container = Plain()
            self.conn.container.size = Plain()

        def open(self, *a, **k):
            self.log.append(('open', a, k))
            return self.conn

        def __enter__(self):
            self.log.append('in')
            return self.conn

        def __exit__(self, *a):
            self.log.append('out')

    def one():
        c = ctx()
        p, db = Plain(), Db()
        there = c.choose([True, False])
        c.hooks[os.path.exists] = lambda x: there if x is p else False
        asked = []
        c.hooks[mod.import_db] = lambda x: asked.append(x) or db
        kind, m = outcome(lambda: mod.DbModule(p))
        if not there:
            c.prove('DbModule: a path that is not there is refused', kind == 'exc' and
                    isinstance(m, FileNotFoundError) and not asked, repr(m))
            return
        c.prove('DbModule: the module at that path', kind == 'ok' and m.path is p and m.db is db and
                asked == [p] and m.name is db.database_name and m() is db, repr(m))
        if kind != 'ok':
            return
        q = Plain()
        c.hooks[os.path.exists] = lambda x: True

        def move():
            m.path = q
        kind, r = outcome(move)
        c.prove('DbModule: its path cannot be changed', kind == 'exc' and isinstance(r, AttributeError)
                and m.path is p, repr(r))
        del db.log[:]
        kind, r = outcome(lambda: m.size)
        c.prove('DbModule.size: that of its database, whose connection is given back',
                kind == 'ok' and r is db.conn.container.size and db.log == ['in', 'out'], repr((r, db.log)))
        del db.log[:]
        kw = {n: Plain() for n in ('transaction_manager', 'at', 'before') if c.choose([False, True])}
        kind, r = outcome(lambda: m.open(**kw))
        want = {n: kw.get(n) for n in ('transaction_manager', 'at', 'before')}
        c.prove('DbModule.open: opens its database, as asked', kind == 'ok' and r is db.conn and
                len(db.log) == 1 and db.log[0][1] == () and
                {**dict.fromkeys(want), **db.log[0][2]} == want, repr((r, db.log)))

    def entry():
        c = ctx()
        m = Plain()
        m.path, m.name, m.size = Plain(), Plain(), Plain()
        kind, r = outcome(lambda: mod.DbModuleRegistry.from_dbmodule(m))
        c.prove('DbModuleRegistry: what the module says', kind == 'ok' and r.module_path is m.path and
                r.name is m.name and r.size is m.size, repr(r))
        if kind != 'ok':
            return
        other = Plain()
        other.path, other.name, other.size = Plain(), Plain(), Plain()
        stored = Stored(r)
        kind, _ = outcome(lambda: r.update_from_dbmodule(other))
        c.prove('DbModuleRegistry.update: the size of the module', kind == 'ok' and r.size is other.size
                and r.module_path is m.path and r.name is m.name)
        stored.check('DbModuleRegistry.update')
    for n, h in (('is_path_dbmodule', declares), ('import_db', importing), ('DbModule', one),
                 ('DbModuleRegistry', entry)):
        run.explore(n, h)
    run.covers(*('citrine.cluster_tools.dbmodule.dbmodule:' + n for n in (
        'is_path_dbmodule', 'import_db', 'DbModule.__init__', 'DbModule.path', 'DbModule.size',
        'DbModule.open', 'DbModule.__call__', 'DbModuleRegistry.__init__',
        'DbModuleRegistry.from_dbmodule', 'DbModuleRegistry.update_from_dbmodule')))


# ------------------------------------------------------------------ who calls them
class Plain:
    """what is passed on, unseen"""


class Conn:
    """a connection to the registry of a cluster"""

    def __init__(self, log, refuses=False):
        self.log, self.refuses = log, refuses

    def __enter__(self):
        self.log.append('begin')
        return self

    def __exit__(self, t, v, tb):
        self.log.append('end' if t is None else 'abort')

    def create(self, id, obj):
        if self.refuses:
            raise contract_error(KeyError('registry'))
        self.log.append(('create', id, obj))

    def delete(self, id):
        if self.refuses:
            raise contract_error(KeyError('registry'))
        self.log.append(('delete', id))

    def __getattr__(self, n):
        raise Unsupported(f'connection.{n}')


class FakeDB:
    def __enter__(self):
        return self.conn_

    def __exit__(self, *a):
        self.conn_.log.append('close')


class Found(Pvx):
    """the path of the idx-th module that was found, or (named) the module there"""

    def __init__(self, idx, named):
        self.idx, self.named = idx, named

    def pvx_reindex(self, j, i):
        return Found(z3.simplify(z3.substitute(self.idx, (j, i))), self.named)

    def pvx_same(self, o):
        return self.idx == o.idx if isinstance(o, Found) and o.named is self.named \
            else z3.BoolVal(False)

    @property
    def name(self):
        if self.named is None:
            raise Unsupported('name of a path')
        return PvxKey(self.named(self.idx))

    def __getattr__(self, n):
        raise Unsupported(f'{n} of a module')

    __hash__ = None


def calling(run):
    L = Loader(stubs={'persistent': {'Persistent': Persistent},
                      'persistent.mapping': {'PersistentMapping': PersistentMapping},
                      'ZODB': {'DB': FakeDB}}, bare=bare())
    one = L.load('citrine.cluster_tools.dbmodule.dbmodule')
    grp = L.load('citrine.cluster_tools.dbmodule.dbgroup')

    def destroy():
        c = ctx()
        calls = []

        def gone(path, remove_empty=True, remove_all=False):
            calls.append((path, remove_empty, remove_all))
        c.hooks[one.delete_dbmodule] = gone
        p = Plain()
        a, b = c.choose(['default', True, False]), c.choose(['default', True, False])
        kw = {} if a == 'default' else {'remove_empty': a}
        if b != 'default':
            kw['remove'] = b
        kind, r = outcome(lambda: one.DbModule.destroy(p, **kw))
        c.prove('DbModule.destroy: deletes that module, as asked', kind == 'ok' and calls == [
            (p, a is not False, b is True)], repr((r, calls)))

    def create():
        c = ctx()
        calls, p, q, n, db = [], Plain(), Plain(), Plain(), Plain()
        db.database_name = n

        def made(path='.', name=None, discoverable=True, overwrite=False):
            calls.append((path, name, discoverable, overwrite))
            return q
        c.hooks[one.create_dbmodule] = made
        c.hooks[one.import_db] = lambda path: db if path is q else None
        c.hooks[os.path.exists] = lambda path: path is q
        o = c.choose(['default', True, False])
        kind, r = outcome(lambda: one.DbModule.create(p, n, **(
            {} if o == 'default' else {'overwrite': o})))
        c.prove('DbModule.create: writes one module, overwriting only if asked to',
                kind == 'ok' and calls == [(p, n, True, o is True)], repr((r, calls)))
        if kind == 'ok':
            c.prove('DbModule.create: the module written is the one returned',
                    r.path is q and r.db is db and r.name is n)

    def group(cls, op):
        def h():
            c = ctx()
            calls, log, name, new = [], [], Plain(), Plain()
            new.name = Plain()
            root = Path(Dir('root'))
            g = getattr(grp, cls).__new__(getattr(grp, cls))
            g.root = root
            mods = {'other': Plain()}
            if c.choose([True, False]):
                mods[name] = Plain()
            before = dict(mods)
            g.modules = mods
            g.conn_ = Conn(log, c.choose([False, True]) if cls == 'ManagedGroupDB' else False)

            def join(p, n):
                return ('path of', n) if p is root else None
            c.hooks[os.path.join] = join

            def make(path, name, overwrite=False):
                calls.append((path, name, overwrite))
                return new

            def kill(path, remove_empty=True, remove=False):
                calls.append((path, remove_empty, remove))
            c.hooks[one.DbModule.create] = make
            c.hooks[one.DbModule.destroy] = kill
            what = f'{cls}.{op}'
            if op == 'create_dbmodule':
                o = c.choose(['default', True, False])
                kw = {} if o == 'default' else {'overwrite': o}
                kind, r = outcome(lambda: g.create_dbmodule(name, **kw))
                if g.conn_.refuses:
                    c.prove(f'{what}: the registry can refuse', kind == 'exc', repr(r))
                    return
                c.prove(f'{what}: writes one module below the root', kind == 'ok' and calls == [
                    (root, name, o is True)], repr((r, calls)))
                if kind == 'ok':
                    c.prove(f'{what}: and knows it, besides the others', all(
                        g.modules.get(k) is (new if k is new.name else v) for k, v in before.items())
                        and g.modules.get(new.name) is new)
                    if cls == 'ManagedGroupDB':
                        c.prove(f'{what}: it is registered once, in one transaction', [
                            x for x in log if x != 'close'] == ['begin', ('create', new.name, new), 'end'],
                            repr(log))
                return
            kind, r = outcome(lambda: g.destroy_dbmodule(name))
            if g.conn_.refuses:
                c.prove(f'{what}: what is not registered is not deleted', kind == 'exc' and not calls,
                        repr((r, calls)))
                return
            c.prove(f'{what}: deletes that module below the root', kind == 'ok' and calls == [
                (('path of', name), True, False)], repr((r, calls)))
            c.prove(f'{what}: it is no longer known, the other modules are', g.modules == {
                'other': before['other']}, repr(g.modules))
            if cls == 'ManagedGroupDB':
                c.prove(f'{what}: it is unregistered once, in one transaction', [
                    x for x in log if x != 'close'] == ['begin', ('delete', name), 'end'], repr(log))
        return h

    def discover():
        c = ctx()
        n = c.fresh('modules', I)
        c.assume(n >= 0)
        named = c.func('name of the module', I, Key)
        i, j = z3.Ints('ni nj')
        c.assume(z3.ForAll([i, j], z3.Implies(named(i) == named(j), i == j)))
        root = Plain()
        c.hooks[grp.find_dbmodules] = lambda p: PvxSeq(
            n if p is root else z3.IntVal(0), lambda j: Found(j, None), mutable=True, injective=True)

        def module(p):
            if not isinstance(p, Found) or p.named is not None:
                raise Unsupported('a module that is not at a path found')
            return Found(p.idx, named)
        c.hooks[grp.DbModule] = module
        kind, r = outcome(lambda: grp.DbGroup.discover(root))
        what = 'DbGroup.discover: every module found, under its name'
        c.prove('DbGroup.discover: does not fail', kind == 'ok', repr(r))
        if kind != 'ok':
            return
        if isinstance(r, dict) and not r:
            c.prove(what, n == 0)
            return
        if not isinstance(r, PvxDict) or r.pairs.sort != I:
            raise Unsupported('modules of some other kind')
        q = c.fresh('at', I)
        c.prove(what, r.pairs.member(q) == z3.And(q >= 0, q < n))
        c.assume(r.pairs.member(q))
        k, m = r.pairs.elem(q)
        c.prove(what, z3.And(k.t == named(q), m.idx == q) if isinstance(m, Found) and
                m.named is named and isinstance(k, PvxKey) else False)
    def making():
        c = ctx()
        root, a, b, m1, m2, m3 = (Plain() for _ in range(6))
        c.hooks[grp.DbGroup.discover] = lambda p: {a: m1, b: m2} if p is root else {}
        kw = {}
        d = c.choose(['default', True, False])
        if d != 'default':
            kw['discovery'] = d
        given = c.choose(['none', 'nothing', 'one'])
        if given != 'none':
            kw['modules'] = {b: m3} if given == 'one' else {}
        want = ({a: m1, b: m2} if d is not False else {}) | ({b: m3} if given == 'one' else {})
        kind, g = outcome(lambda: grp.DbGroup(root, **kw))
        c.prove('DbGroup: knows the modules discovered and given', kind == 'ok' and
                len(g.modules) == len(want) and all(g.modules.get(k) is v for k, v in want.items()),
                repr(g))
    run.explore('DbGroup.__init__', making)
    run.covers('citrine.cluster_tools.dbmodule.dbgroup:DbGroup.__init__')
    run.explore('DbModule.destroy', destroy)
    run.explore('DbModule.create', create)
    run.covers('citrine.cluster_tools.dbmodule.dbmodule:DbModule.destroy',
               'citrine.cluster_tools.dbmodule.dbmodule:DbModule.create',
               'citrine.cluster_tools.dbmodule.dbmodule:DbModule.__init__')
    for cls in ('DbGroup', 'ManagedGroupDB'):
        for op in ('create_dbmodule', 'destroy_dbmodule'):
            run.explore(f'{cls}.{op}', group(cls, op))
            run.covers(f'citrine.cluster_tools.dbmodule.dbgroup:{cls}.{op}')
    run.explore('DbGroup.discover', discover)
    run.covers('citrine.cluster_tools.dbmodule.dbgroup:DbGroup.discover')


# ------------------------------------------------------------------ the registry
class PersistentMapping:
    def __new__(cls, *args, **kw):
        if kw or len(args) > 1:
            raise Unsupported('arguments of PersistentMapping')
        b = Bucket(empty_store(ctx().name_of('mapping')), z3.IntVal(0))
        if args:
            b.update(args[0])
        return b


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path


def registry(run):
    mod = Loader(stubs={'persistent': {'Persistent': Persistent},
                        'persistent.mapping': {'PersistentMapping': PersistentMapping}},
                 bare=bare()).load('citrine.cluster_tools.clusterdb.container')

    def arbitrary():
        c = ctx()
        st = map_store('registry')
        box = mod.ClusterRegistryContainer()
        box.modules = Bucket(st, z3.IntVal(0))
        return box, st, dict(st.f)

    def each(op):
        def h():
            c = ctx()
            box, st, f0 = arbitrary()
            stored = Stored(box)
            z = z3.IntVal(0)
            k = key('name')
            o = c.fresh('other', Key)
            c.assume(o != k.t)
            listed = f0['has'](z, k.t)
            if op == 'has':
                kind, r = outcome(lambda: box.has(k))
                c.prove('registry, has: does not fail', kind == 'ok', repr(r))
                if kind == 'ok':
                    from pysx.sym import truth
                    c.prove('registry, has: exactly those listed', truth(r) == listed)
            elif op == 'read':
                kind, r = outcome(lambda: box.read(k))
                c.prove('registry, read: does not fail', kind == 'ok', repr(r))
                if kind == 'ok':
                    c.prove('registry, read: what is listed, or None', z3.If(
                        listed, equal(r, PvxVal(f0['val'](z, k.t))), equal(r, None)))
            elif op == 'write':
                m = Module(val('its name'), val('its path'))
                kind, r = outcome(lambda: box.write(k, m))
                c.prove('registry, write: does not fail', kind == 'ok', repr(r))
                if kind == 'ok':
                    c.prove('registry, write: it is listed', st.f['has'](z, k.t))
                    kind, e = outcome(lambda: box.modules[k])
                    t = vt(e) if kind == 'ok' else None
                    made = [x for x, u in c.known.get('objects', []) if t is not None and c.check(
                        u != t) == z3.unsat]
                    c.prove('registry, write: with its name and path', bool(made) and equal(
                        getattr(made[0], 'name', None), m.name) if made else False)
                    c.prove('registry, write: with its name and path', bool(made) and equal(
                        getattr(made[0], 'path', None), m.path) if made else False)
            elif op == 'delete':
                kind, r = outcome(lambda: box.delete(k))
                c.prove('registry, delete: fails only if it is not listed', z3.BoolVal(True)
                        if kind == 'ok' else z3.Not(listed), repr(r))
                c.prove('registry, delete: it is not listed', z3.Not(st.f['has'](z, k.t)))
            else:
                box.expand_size(c.fresh('size', I))
                c.prove('registry, expand: changes nothing', st.f['has'](z, k.t) == listed)
            stored.check(f'registry, {op}')
            c.prove(f'registry, {op}: every other module is as before', z3.And(
                st.f['has'](z, o) == f0['has'](z, o), z3.Implies(
                    f0['has'](z, o), st.f['val'](z, o) == f0['val'](z, o))))
            if op in ('has', 'read'):
                c.prove(f'registry, {op}: changes nothing', st.f['has'](z, k.t) == listed)
        return h
    for op in ('has', 'read', 'write', 'delete', 'expand'):
        run.explore(f'ClusterRegistryContainer.{op}', each(op))
        run.covers(f'citrine.cluster_tools.clusterdb.container:ClusterRegistryContainer.'
                   f'{"expand_size" if op == "expand" else op}')

    def made():
        c = ctx()
        from pysx.maps import Mapping
        how = c.choose(['none', 'empty', 'modules'])
        given = {'none': None, 'empty': {}, 'modules': None}[how]
        m = Mapping('given') if how == 'modules' else None
        kind, box = outcome(lambda: mod.ClusterRegistryContainer(m if m is not None else given))
        c.prove('registry, construction: does not fail', kind == 'ok', repr(box))
        if kind != 'ok':
            return
        b = box.modules
        if not isinstance(b, Bucket):
            c.prove('registry, construction: changes are going to be saved', False, repr(b))
            return
        k = c.fresh('name', Key)
        c.prove('registry, construction: the modules given', b.m.has(k) == (
            m.has(k) if m is not None else z3.BoolVal(False)))
    run.explore('ClusterRegistryContainer.__init__', made)
    run.covers('citrine.cluster_tools.clusterdb.container:ClusterRegistryContainer.__init__',
               'citrine.cluster_tools.clusterdb.container:DbModuleRegistry.__init__',
               'citrine.cluster_tools.clusterdb.container:DbModuleRegistry.from_dbmodule')


del Map

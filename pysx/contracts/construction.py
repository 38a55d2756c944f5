"""activitystreams/models.py: constructing every class, plain and of an engine.

The arguments are of any kind. In a class of an engine every linked property is
used by its contract (C19: what is set is kept, or refused); that engine is what
the real create_package() gives."""
import datetime as dtm
import inspect
import logging

import z3

from bounded.b_as import COLLECTIONS, NOT_LINKED, PARENT, VOCAB
from pysx import hooks
from pysx.core import B, I, Unsupported, contract_error, ctx
from pysx.contracts.common import outcome
from pysx.contracts.links import BARE_AS, Other, sub
from pysx.data import AT, LEN, SIZE, Data, Universe
from pysx.seq import PvxSeq
from pysx.sym import Pvx, PvxInt
from pysx.transform import Loader

KINDS = {'none': type(None), 'bool': bool, 'int': int, 'list': list, 'tuple': tuple, 'set': set,
         'a list': sub('L', list), 'other': Other, 'datetime': dtm.datetime}
LISTS = ('list', 'tuple', 'set', 'a list')
NS = 'https://www.w3.org/ns/activitystreams'
FAMILIES = ('plain', 'engine')
REQUIRED = ('Relationship', 'Place', 'Profile', 'Tombstone')


class World:
    def __init__(self):
        logging.disable(logging.CRITICAL)
        L = Loader(bare=BARE_AS)
        self.models = L.load('activitystreams.models')
        self.package = L.load('activitystreams.package')
        self._pkg = None

    @property
    def pkg(self):
        if self._pkg is None:
            self._pkg = self.package.create_package()
        return self._pkg

    def cls(self, name, family):
        c = getattr(self.models, name, None)
        if not isinstance(c, type):
            return None
        return c if family == 'plain' else self.pkg[c.__get_namespace__()]


WORLD = []


def world():
    if not WORLD:
        WORLD.append(World())
    return WORLD[0]


class Contract:
    """the linked properties of a class, by their contract"""

    def __init__(self, cls):
        self.sets = []
        names = [n for n in cls.__get_properties__() if n not in ('acontext', '__namespace__')
                 and isinstance(inspect.getattr_static(cls, n, None), property)]
        self.names = set(names)
        # a class of the same name, in which they are replaced
        self.cls = type(cls.__name__, (cls,), {n: self.one(n) for n in names})

    def one(self, n):
        def get(o):
            return o.__dict__.get('given ' + n)

        def put(o, v):
            if v is not None and not isinstance(v, (Data, PvxInt, int, str)):
                raise Unsupported(f'a value of {n}')
            o.__dict__['given ' + n] = v

        def drop(o):
            raise contract_error(AttributeError(n))
        return property(get, put, drop)


def same(x, v):
    if isinstance(v, Data):
        if x is None:
            return v.u.of(v.t, 'none')
        return x.t == v.t if isinstance(x, Data) else z3.BoolVal(False)
    return z3.BoolVal(x is v or type(x) is type(v) and isinstance(x, (str, int)) and x == v)


def construct(run, name, family):
    w = world()
    what = f'{family} {name}'
    names = list(VOCAB[name]) + (['totalItems'] if name in COLLECTIONS else [])

    def h():
        c = ctx()
        c.known['hint'] = {'property': 'C27', 'cls': name, 'family': family}
        u = Universe(KINDS)
        K = w.cls(name, family)
        c.prove(f'{what}: there is such a class', K is not None)
        if K is None:
            return
        linked = set()
        if family == 'engine':
            k = Contract(K)
            K, linked = k.cls, k.names
            c.prove(f'{what}: its properties are linked', linked >= set(names) - NOT_LINKED,
                    repr(set(names) - NOT_LINKED - linked))
        omitted = c.choose([(), tuple(names), *[(n,) for n in names]])
        typed = c.choose(['no type', 'type'])
        args = {n: u.fresh(n) for n in names if n not in omitted}
        for n in ('totalItems', 'startIndex'):
            if n in args:
                c.assume(u.of(args[n].t, 'none', 'int'))
        kw = dict(args)
        if typed == 'type':
            kw['type'] = 'Custom'
        if name in REQUIRED and 'id' not in kw:
            kw['id'] = None
        got, o = outcome(lambda: K(**kw))
        c.prove(f'{what}: is constructed', got == 'ok', repr(o))
        if got != 'ok':
            return

        def read(n):
            return outcome(lambda: getattr(o, n))
        for n in names:
            if n == 'totalItems':
                continue
            how, r = read(n)
            c.prove(f'{what}: every property can be read', how == 'ok', f'{n}: {r!r}')
            if how != 'ok':
                continue
            if n == 'startIndex':
                v = args.get(n)
                # zero is where a collection starts, unless told otherwise
                if v is None:
                    c.prove(f'{what}: startIndex is 0 by default', type(r) is int and r == 0, repr(r))
                elif type(r) is int and r == 0:
                    c.prove(f'{what}: startIndex is 0 by default', not v)
                else:
                    c.prove(f'{what}: reads back what it was constructed with', same(r, v), n)
                continue
            if n not in args:
                c.prove(f'{what}: what is not given is None', r is None, f'{n}: {r!r}')
            else:
                c.prove(f'{what}: reads back what it was constructed with', same(r, args[n]),
                        f'{n}: {r!r}')
        how, r = read('type')
        own = family == 'engine' and name in ('Object', 'Link')
        want = name if not own else 'Custom' if typed == 'type' else None
        c.prove(f'{what}: is of its own type' if not own else f'{what}: is of the type given',
                how == 'ok' and r == want, repr(r))
        if name not in COLLECTIONS:
            return
        how, r = read('totalItems')
        c.prove(f'{what}: its total can be read', how == 'ok', repr(r))
        if how != 'ok':
            return
        v, items = args.get('totalItems'), args.get('items')
        if v is not None and not c.branch(u.of(v.t, 'none')):
            c.prove(f'{what}: the total is the one given', same(r, v), repr(r))
            return
        n = r.t if isinstance(r, PvxInt) else r if type(r) is int else None
        c.prove(f'{what}: the total is a number', n is not None, repr(r))
        if n is None:
            return
        if items is None:
            c.prove(f'{what}: the total is 0 without items', n == 0 if not isinstance(n, int)
                    else z3.BoolVal(n == 0))
        else:
            c.assume(LEN(items.t) >= 0)
            c.prove(f'{what}: the total is the number of items', n == z3.If(
                u.of(items.t, *LISTS), LEN(items.t), 0))
    run.explore(what, h)
    run.covers(f'activitystreams.models:{name}.__init__')


def iterating(run, family):
    w = world()

    def h(name):
        c = ctx()
        c.known['hint'] = {'property': 'C27', 'cls': name, 'family': family}
        what = f'{family} {name}: iterating gives its items, in order'
        u = Universe(KINDS)
        K = w.cls(name, family)
        if family == 'engine':
            K = Contract(K).cls
        how = c.choose(['omitted', 'given'])
        v = u.fresh('items')
        c.assume(u.of(v.t, 'none', *LISTS))
        o = K(items=v) if how == 'given' else K()
        got, s = outcome(lambda: hooks.drain(o))
        c.prove(what, got == 'ok', repr(s))
        if got != 'ok':
            return
        if isinstance(s, (list, tuple)) and not s:
            c.prove(what, how == 'omitted' or z3.Or(u.of(v.t, 'none'), LEN(v.t) <= 0))
            return
        if not isinstance(s, PvxSeq) or s.sort != I or how == 'omitted':
            raise Unsupported('items of some other kind')
        i = c.fresh('at', I)
        c.assume(LEN(v.t) >= 0)
        c.prove(what, z3.And(z3.Not(u.of(v.t, 'none')), s.member(i) == z3.And(i >= 0, i < LEN(v.t))))
        c.assume(s.member(i))
        e = s.elem(i)
        c.prove(what, e.t == AT(v.t, i) if isinstance(e, Data) else False, repr(e))
    for name in COLLECTIONS:
        run.explore(f'{family} {name}: iterating', lambda name=name: h(name))
    run.covers('activitystreams.models:Collection.__iter__')


def hierarchy(run):
    w = world()

    def h():
        c = ctx()
        for family in FAMILIES:
            for name in VOCAB:
                K = w.cls(name, family)
                c.prove(f'{family} classes are of their own namespace', K is not None and
                        K.__get_namespace__() == f'{NS}#{name}', name)
            for a, b in PARENT.items():
                A, P = w.cls(a, family), w.cls(b, family)
                c.prove(f'{family} classes inherit as documented', bool(A) and bool(P) and
                        issubclass(A, P), f'{a}, {b}')
    run.explore('hierarchy', h)
    run.covers('activitystreams.package:create_package')

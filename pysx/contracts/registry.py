"""jsonld/base.py: what a class finds out about itself, and remembers.

The name and the registration of a property (JsonProperty) and the properties of
a class (PropertyAwareObject) are looked for once per class and remembered on the
class. A class has any attributes, any of them a property; it and the classes it
inherits from may or may not remember theirs already, what the class itself
remembers having been true; what the others remember is anything."""
import z3

from pysx.core import B, I, Key, Unsupported, contract_error, ctx
from pysx.contracts.common import outcome
from pysx.contracts.contexts import BARE_LD
from pysx.seq import PvxDict, PvxSeq, touch
from pysx.sym import Pvx, PvxKey, kt, mkbool
from pysx.transform import Loader

CACHES = ('__property_name__', '__registration__', '__properties__')


class Attr(Pvx):
    """the value of an attribute of a class"""

    def __init__(self, of, t):
        self.of, self.t = of, t

    def pvx_same(self, o):
        return z3.And(self.t == o.t, z3.BoolVal(self.of is o.of)) if isinstance(o, Attr) else z3.BoolVal(False)

    def pvx_reindex(self, j, i):
        return Attr(self.of.pvx_reindex(j, i), z3.substitute(self.t, (j, i)))

    def pvx_isinstance(self, cls):
        if cls is property:
            return mkbool(self.of.isprop(self.t))
        raise Unsupported('kind of an attribute')

    def __bool__(self):
        return True

    def part(self, what):
        return Part(self, what)

    fget = property(lambda self: Part(self, 'fget'))
    fset = property(lambda self: Part(self, 'fset'))
    fdel = property(lambda self: Part(self, 'fdel'))
    __doc__ = property(lambda self: Part(self, 'doc'))

    def __getattr__(self, n):
        if n.startswith('pvx_') or n == '__wrapped__':
            raise AttributeError(n)
        raise Unsupported(f'{n} of an attribute')


class Part:
    """what belongs to a property"""

    def __init__(self, of, what):
        self.of, self.what = of, what

    def pvx_same(self, o):
        return z3.And(z3.BoolVal(self.what == o.what), self.of.pvx_same(o.of)) \
            if isinstance(o, Part) else z3.BoolVal(False)


class Space:
    """the attributes of a class"""

    def __init__(self, of):
        self.of = of

    def items(self):
        k = self.of
        return PvxSeq(None, lambda t: (PvxKey(t), Attr(k, t)), keep=k.has, sort=Key, injective=True,
                      label='attributes')

    def keys(self):
        return PvxSeq(None, PvxKey, keep=self.of.has, sort=Key, injective=True, label='attributes')

    def __contains__(self, n):
        if isinstance(n, str) and n in CACHES:
            return n in self.of.own
        raise Unsupported(f'whether {n} is an attribute')

    def get(self, n, default=None):
        if n in CACHES:
            return self.of.own.get(n, default)
        raise Unsupported(f'attribute {n}')

    def __getitem__(self, n):
        if n in CACHES:
            if n in self.of.own:
                return self.of.own[n]
            raise contract_error(KeyError(n))
        raise Unsupported(f'attribute {n}')

    def __getattr__(self, n):
        raise Unsupported(f'{n} of the attributes of a class')


class Class(Pvx):
    """a class; a class of a family is known by its index"""

    def __init__(self, name='a class', fam=None, t=None):
        c = ctx()
        if fam is None:
            has, isprop = c.func(name + ' has', Key, B), c.func(name + ' is property', Key, B)
            fam = lambda t, k: has(k), lambda t, k: isprop(k)           # noqa
        set_ = object.__setattr__
        for n, v in dict(fam=fam, t=t, own={}, inherited={}, inside=None,
                         has=lambda k: fam[0](t, k), isprop=lambda k: fam[1](t, k)).items():
            set_(self, n, v)

    def pvx_reindex(self, j, i):
        if self.t is None:
            return self
        return Class(fam=self.fam, t=z3.substitute(self.t, (j, i)))

    def pvx_same(self, o):
        if not isinstance(o, Class) or (self.t is None) != (o.t is None):
            return z3.BoolVal(False)
        return z3.BoolVal(self is o) if self.t is None else self.t == o.t

    @property
    def __dict__(self):
        return Space(self)

    @property
    def __name__(self):
        return 'a class'

    def mro(self):
        if self.inside is None:
            raise Unsupported('the classes a class inherits from')
        return self.inside

    def pvx_getattr(self, n, *default):
        if isinstance(n, str):
            try:
                return getattr(self, n)
            except AttributeError:
                if default:
                    return default[0]
                raise
        k = kt(n)
        if ctx().branch(self.has(k)):
            return Attr(self, k)
        raise Unsupported('an inherited attribute')

    def pvx_hasattr(self, n):
        return n in self.own or n in self.inherited if n in CACHES else self._no(n)

    def _no(self, n):
        raise Unsupported(f'attribute {n}')

    def __getattr__(self, n):
        if n in CACHES:
            for d in (self.own, self.inherited):
                if n in d:
                    return d[n]
            raise contract_error(AttributeError(n))
        if n.startswith('pvx_') or n == '__wrapped__':
            raise AttributeError(n)
        raise Unsupported(f'{n} of a class')

    def __setattr__(self, n, v):
        if n not in CACHES:
            ctx().prove('a class gets no other attributes', False, n)
            raise Unsupported(f'{n} of a class is set')
        self.own[n] = v

    def __get_property_name__(self, *a, **k):
        raise Unsupported('the name of the property')


def remembered(k, what, true):
    """what is remembered, if anything"""
    c = ctx()
    which = c.choose(['nothing', 'own', 'inherited', 'both'])
    if which in ('own', 'both'):
        k.own[what] = true()
    if which in ('inherited', 'both'):
        k.inherited[what] = object() if what != '__property_name__' else PvxKey(c.fresh('inherited', Key))
    return which


def only(k):
    """the class has exactly one property, the returned one"""
    c = ctx()
    p, q = c.fresh('the property', Key), z3.Const(c.name_of('q'), Key)
    return p, z3.And(k.has(p), k.isprop(p), z3.ForAll([q], z3.Implies(
        z3.And(k.has(q), k.isprop(q)), q == p), patterns=[k.has(q)]))


def refreshed():
    how = ctx().choose(['left out', 'yes', 'no'])
    return {} if how == 'left out' else {'refresh': how == 'yes'}


def name(run):
    mod = Loader(bare=BARE_LD).load('jsonld.base')
    what = 'name of a property'

    def h():
        c = ctx()
        c.known['one'] = [True]
        fn = mod.JsonProperty.__dict__['__get_property_name__'].__func__
        k = Class()
        # it has exactly one property, none, or two different ones
        case = c.choose(['one', 'none', 'more'])
        a, b, q = c.fresh('a', Key), c.fresh('b', Key), z3.Const(c.name_of('q'), Key)
        prop = lambda x: z3.And(k.has(x), k.isprop(x))                     # noqa
        if case == 'none':
            c.assume(z3.ForAll([q], z3.Not(prop(q)), patterns=[k.has(q)]))
        else:
            c.assume(prop(a))
            if case == 'one':
                c.assume(z3.ForAll([q], z3.Implies(prop(q), q == a), patterns=[k.has(q)]))
            else:
                c.assume(z3.And(prop(b), a != b))
        if case == 'one':
            remembered(k, '__property_name__', lambda: PvxKey(a))
        elif c.choose(['nothing', 'inherited']) == 'inherited':
            k.inherited['__property_name__'] = PvxKey(c.fresh('inherited', Key))
        kw = refreshed()
        kind, r = outcome(lambda: fn(k, **kw))
        if case == 'one':
            c.prove(f'{what}: that of the only one of the class', z3.And(
                z3.BoolVal(kind == 'ok'), kt(r) == a) if kind == 'ok' and isinstance(r, PvxKey)
                else z3.BoolVal(False), repr(r))
            if '__property_name__' in k.own:
                c.prove(f'{what}: only the right one is remembered', kt(k.own['__property_name__']) == a)
        else:
            c.prove(f'{what}: a class without exactly one is refused',
                    kind == 'exc' and isinstance(r, ValueError), repr(r))
            c.prove(f'{what}: nothing is remembered of such a class', '__property_name__' not in k.own)
    run.explore(what, h)
    run.covers('jsonld.base:JsonProperty.__get_property_name__')


def registration(run):
    mod = Loader(bare=BARE_LD).load('jsonld.base')
    what = 'registration of a property'

    def h():
        c = ctx()
        fn = mod.JsonProperty.__dict__['__get_registration__'].__func__
        k = Class()
        a = c.fresh('a', Key)
        c.assume(z3.And(k.has(a), k.isprop(a)))
        now = Attr(k, a)

        def named(refresh=False):
            # by its contract
            k.own['__property_name__'] = PvxKey(a)
            return PvxKey(a)
        object.__setattr__(k, '__get_property_name__', named)
        remembered(k, '__property_name__', lambda: PvxKey(a))
        remembered(k, '__registration__', lambda: (now.fget, now.fset, now.fdel, now.__doc__))
        kw = refreshed()
        kind, r = outcome(lambda: fn(k, **kw))
        want = ('fget', 'fset', 'fdel', 'doc')
        ok = kind == 'ok' and isinstance(r, tuple) and len(r) == 4 and all(
            isinstance(x, Part) and x.what == w for x, w in zip(r, want))
        c.prove(f'{what}: its accessors and its documentation',
                z3.And(*[x.of.pvx_same(now) for x in r]) if ok else z3.BoolVal(False), repr(r))
    run.explore(what, h)
    run.covers('jsonld.base:JsonProperty.__get_registration__')


def properties(run):
    mod = Loader(bare=BARE_LD).load('jsonld.base')
    what = 'properties of a class'

    def h():
        from pysx.hooks import _pvx_in
        from pysx.sym import truth
        c = ctx()
        fn = mod.PropertyAwareObject.__dict__['__get_properties__'].__func__
        k = Class()
        has, isprop = c.func('class has', I, Key, B), c.func('is property', I, Key, B)
        n = c.fresh('classes', I)
        c.assume(n >= 1)
        object.__setattr__(k, 'inside', PvxSeq(
            n, lambda j: Class(fam=(has, isprop), t=j), label='classes', injective=True))

        def wanted():
            # found before: the same as is found now
            s = c.func('remembered', Key, B)
            q, j = z3.Const(c.name_of('q'), Key), z3.Const(c.name_of('j'), I)
            at = c.func('where', Key, I)
            c.assume(z3.ForAll([q, j], z3.Implies(z3.And(
                j >= 0, j < n, has(j, q), isprop(j, q)), s(q)), patterns=[has(j, q)]))
            c.assume(z3.ForAll([q], z3.Implies(s(q), z3.And(
                at(q) >= 0, at(q) < n, has(at(q), q), isprop(at(q), q))), patterns=[s(q)]))
            return PvxSeq(None, PvxKey, keep=s, sort=Key, injective=True, label='remembered')
        remembered(k, '__properties__', wanted)
        kw = refreshed()
        kind, r = outcome(lambda: fn(k, **kw))
        c.prove(f'{what}: are found', kind == 'ok', repr(r))
        if kind != 'ok':
            return
        if not isinstance(r, PvxSeq):
            c.prove(f'{what}: those of the class itself', False, repr(r))
            return
        if c.choose(['all', 'only']) == 'all':
            j, q = c.fresh('j', I), c.fresh('q', Key)
            c.assume(z3.And(j >= 0, j < n, has(j, q), isprop(j, q)))
            touch(j)
            c.prove(f'{what}: every one it has or inherits', truth(_pvx_in(PvxKey(q), r)))
        else:
            p = c.fresh('p', r.sort)
            c.assume(r.member(p))
            q = kt(r.elem(p))
            j = z3.Const(c.name_of('j'), I)
            c.prove(f'{what}: nothing else', z3.Exists([j], z3.And(
                j >= 0, j < n, has(j, q), isprop(j, q))))
    run.explore(what, h)
    run.covers('jsonld.base:PropertyAwareObject.__get_properties__')

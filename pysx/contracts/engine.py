"""jsonld/engine: PropertyJsonIntake and the engine's registry.

Data is of any kind and nesting. `expand` of pyld gives any list of nodes, whose
'@type', where there is one, is a non-empty list of identifiers; decoding of
members is replaced by the contract proved here (induction on the depth)."""
import json
import logging

import z3

from pysx.core import B, I, Key, Unsupported, Val, contract_error, ctx
from pysx.contracts.collection import BARE
from pysx.contracts.common import outcome
from pysx.data import AT, HAS, LEN, UNDER, Data, Induction, Merged, Names, Universe
from pysx.hooks import _pvx_call
from pysx.seq import SKIP, PvxDict, PvxSeq
from pysx.sym import Pvx, PvxKey, kt, mkbool
from pysx.transform import Loader

BARE_LD = BARE + ('jsonld', 'jsonld.tools', 'jsonld.engine')
UNPACKED = z3.Function('unpacked', Val, Val)
DECODED = z3.Function('decoded', Val, Val)
EMPTY = z3.Function('expands_to_nothing', Val, B)
TYPED = z3.Function('expands_to_typed', Val, B)
KNOWN = z3.Function('type_is_known', Val, B)


class Boom(Exception):
    pass


class Iterable_:
    def __iter__(self):
        return iter(())


class Other:
    pass


def sub(name, *bases):
    return type(name, bases, {})


KINDS = {'none': type(None), 'bool': bool, 'int': int, 'float': float, 'str': str,
         'list': list, 'dict': dict, 'a str': sub('S', str), 'a list': sub('L', list),
         'a dict': sub('D', dict), 'tuple': tuple, 'set': set, 'iterable': Iterable_,
         'other': Other}
SCALARS = ('none', 'bool', 'int', 'float', 'str', 'a str')


class Out(Pvx):
    """a value in its unpacked or decoded form"""

    def __init__(self, v, f=UNPACKED):
        self.v, self.f, self.t = v, f, f(v.t)

    def pvx_reindex(self, j, i):
        return Out(self.v.pvx_reindex(j, i), self.f)

    def pvx_same(self, o):
        return self.t == o.t if isinstance(o, Out) else z3.BoolVal(False)

    def pvx_is(self, o):
        if o is None and self.f is UNPACKED:
            return self.v.pvx_is(None)
        return mkbool(self.t == o.t) if isinstance(o, Out) else False

    def __bool__(self):
        raise Unsupported('truth of a decoded value')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'{n} of a decoded value')


def universe():
    return Universe(KINDS, members=(list, tuple, set, Iterable_))


def same_under(name, m, v, given):
    """m is the dictionary v, with a context where it has none"""
    c = ctx()
    if isinstance(m, Data):
        m = Merged([m])
    if not isinstance(m, Merged):
        raise Unsupported('what is expanded')
    k = PvxKey(c.fresh('k', Key))
    c.assume(k.t != kt('@context'))
    has = k in m
    c.prove(f'{name}: with what is in the dictionary', HAS(v.t, k.t) if has
            else z3.Not(HAS(v.t, k.t)))
    if has:
        e = m[k]
        c.prove(f'{name}: with the same values', e.t == UNDER(v.t, k.t)
                if isinstance(e, Data) else False, repr(e))
    has = '@context' in m
    own = c.branch(HAS(v.t, kt('@context')))
    if own:
        own = v.u.value(UNDER(v.t, kt('@context')))
        c.prove(f'{name}: in its own context', has)
        if has:
            e = m['@context']
            if not own:      # there is none
                return
            c.prove(f'{name}: in its own context', isinstance(e, Data) and e.t == own.t, repr(e))
    else:
        c.prove(f'{name}: in the context around it', has)
        if has:
            e = m['@context']
            c.prove(f'{name}: in the context around it', e is given or
                    isinstance(given, str) and e == given, repr(e))


def setup():
    logging.disable(logging.CRITICAL)
    return Loader(bare=BARE_LD).load('jsonld.engine.json_input')


class Nodes:
    """what pyld's expand gives"""

    def __init__(self, mod, name):
        self.mod, self.name = mod, name

    def install(self, v, given):
        c = ctx()

        def expand(m, *a, **k):
            if a or k:
                raise Unsupported('expansion in another way')
            same_under(f'{self.name}: expanded', m, v, given)
            if c.branch(EMPTY(v.t)):
                return []
            if c.branch(TYPED(v.t)):
                return [{'@type': [PvxKey(c.fresh('type', Key))]}]
            return [{}]
        c.hooks[self.mod.expand] = expand


def unpacking(run):
    mod = setup()
    name = 'unpacking'

    def h():
        c = ctx()
        c.hooks['names'] = True
        kt('@context')
        u = universe()
        obj = mod.PropertyJsonIntake()
        context = object()
        v = u.fresh('value')
        c.known['hint'] = {'property': 'C25'}
        if v.kind() in ('dict', 'a dict'):
            Nodes(mod, name).install(v, context)
        typed = z3.And(z3.Not(EMPTY(v.t)), TYPED(v.t))
        Klass = type('Klass', (), {})

        def of_class(m, *a, **k):
            same_under(f'{name}: class', m, v, context)
            return Klass if c.branch(KNOWN(v.t)) else None

        def decode(m, *a, **k):
            same_under(f'{name}: decoded', m, v, context)
            if not c.branch(KNOWN(v.t)):
                raise contract_error(ValueError('unknown type'))
            return Out(v, DECODED)
        c.hooks[obj._get_object_class] = of_class
        c.hooks[obj.from_json] = decode

        def check(v, r):
            kind = v.kind()
            if kind in SCALARS:
                c.prove(f'{name}: scalars keep their value', isinstance(r, Data) and r.t.eq(v.t)
                        or r is None and kind == 'none', f'{kind}: {r!r}')
            elif kind in ('dict', 'a dict'):
                if c.branch(typed):
                    if c.branch(KNOWN(v.t)):
                        c.prove(f'{name}: typed objects are decoded', r.t == DECODED(v.t)
                                if isinstance(r, Out) else False, repr(r))
                    return
                if isinstance(r, (dict, Merged)) or isinstance(r, PvxDict) and r.pairs.sort != Key:
                    raise Unsupported('how a dictionary is unpacked')
                c.prove(f'{name}: untyped dictionaries stay dictionaries',
                        isinstance(r, PvxDict), repr(r))
                if isinstance(r, PvxDict):
                    k = c.fresh('k', Key)
                    c.prove(f'{name}: of the same keys', r.pairs.member(k) == HAS(v.t, k))
                    c.assume(r.pairs.member(k))
                    a, e = r.pairs.elem(k)
                    c.prove(f'{name}: of unpacked members under their keys', z3.And(
                        kt(a) == k, e.t == UNPACKED(UNDER(v.t, k))) if isinstance(e, Out)
                        else False, repr(e))
            elif kind in ('list', 'a list'):
                ok = isinstance(r, PvxSeq) and r.mutable and r.keep is None
                c.prove(f'{name}: lists stay lists', ok, repr(r))
                if ok:
                    c.prove(f'{name}: of as many members', r.n == LEN(v.t))
                    j = c.fresh('j', I)
                    c.assume(z3.And(j >= 0, j < LEN(v.t)))
                    e = r.at(j)
                    c.prove(f'{name}: of unpacked members in order', e.t == UNPACKED(AT(v.t, j))
                            if isinstance(e, Out) else False, repr(e))
        c.hooks['induction'] = Induction(lambda x, others: Out(x), lambda v, others, r: check(v, r))
        what, r = outcome(lambda: _pvx_call(obj._unpack_objects, v, context))
        if what == 'exc' and v.kind() in ('dict', 'a dict'):
            c.prove(f'{name}: fails only on unknown types', z3.And(
                typed, z3.Not(KNOWN(v.t))) if isinstance(r, ValueError) else False, repr(r))
            return
        c.prove(f'{name}: does not fail', what == 'ok', repr(r))
        if what == 'ok':
            check(v, r)
    run.explore(name, h)
    run.covers('jsonld.engine.json_input:PropertyJsonIntake._unpack_objects')


class Made(Pvx):
    def __init__(self, given):
        self.given = given

    def pvx_is(self, o):
        return self is o


class Maker:
    def __init__(self):
        self.made = []

    def __call__(self, *a, **k):
        return self.pvx_callkw(a, Merged([k]))

    def pvx_callkw(self, a, m):
        if a:
            raise Unsupported('an object made with other than keywords')
        self.made.append(Made(m))
        return self.made[-1]


def decoding(run):
    """from_json"""
    mod = setup()
    name = 'decoding'

    def h():
        c = ctx()
        c.hooks['names'] = True
        for k in ('@context', 'acontext'):
            kt(k)
        u = universe()
        obj = mod.PropertyJsonIntake()
        doc = u.fresh('document', 'dict')
        given = doc
        c.known['hint'] = {'property': 'C25'}
        if c.choose(['dictionary', 'text']) == 'text':
            given = u.fresh('text', 'str')

            def loads(x, *a, **k):
                c.prove(f'{name}: the text is parsed', x is given)
                return Merged([doc])
            c.hooks[json.loads] = loads
        n = c.fresh('properties', I)
        c.assume(n >= 0)
        pname, back = c.func('name', I, Key), c.func('index', Key, I)
        i = z3.Int('pi')
        # different identifiers
        c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
            back(pname(i)) == i, pname(i) != kt('@context'))), patterns=[pname(i)]))

        class Klass:
            @classmethod
            def __get_properties__(cls, *a, **k):
                return PvxSeq(n, lambda x: PvxKey(pname(x)), label='properties', injective=True)
        maker = c.hooks[Klass] = Maker()
        default = mod.DEFAULT_CONTEXT

        def of_class(m, *a, **k):
            same_under(f'{name}: class', m, doc, default)
            return Klass if c.branch(KNOWN(doc.t)) else None

        def unpack(x, context, *a, **k):
            # the context of the document itself
            if c.branch(HAS(doc.t, kt('@context'))):
                own = u.value(UNDER(doc.t, kt('@context')))
                if own:
                    c.prove(f'{name}: members in the context of the document',
                            context.t == own.t if isinstance(context, Data) else False)
            else:
                c.prove(f'{name}: members in the default context', context == default)
            if x is None:
                return None
            if not isinstance(x, Data):
                raise Unsupported('unpacking of other than a member')
            return Out(x)
        c.hooks[obj._get_object_class] = of_class
        c.hooks[obj._unpack_objects] = unpack
        what, r = outcome(lambda: _pvx_call(obj.from_json, given))
        if not c.branch(KNOWN(doc.t)):
            c.prove(f'{name}: unknown types are refused with ValueError',
                    what == 'exc' and isinstance(r, ValueError) and not maker.made, repr(r))
            return
        c.prove(f'{name}: does not fail', what == 'ok', repr(r))
        if what != 'ok':
            return
        c.prove(f'{name}: an instance of the class', len(maker.made) == 1 and r is maker.made[0],
                repr(r))
        if len(maker.made) != 1:
            return
        m = maker.made[0].given
        j = c.fresh('j', I)
        c.assume(z3.And(j >= 0, j < n))
        c.assume(pname(j) != kt('acontext'))
        has = c.branch(HAS(doc.t, pname(j)))
        e = m.find(PvxKey(pname(j)))
        if e is SKIP:
            c.prove(f'{name}: every property in the data is carried over', not has)
            return
        if has:
            x = u.value(UNDER(doc.t, pname(j)))
            if e is None:
                c.prove(f'{name}: every property in the data is carried over',
                        u.of(x.t, 'none'))
            else:
                c.prove(f'{name}: every property in the data is carried over',
                        e.t == UNPACKED(x.t) if isinstance(e, Out) else False, repr(e))
        else:
            c.prove(f'{name}: properties not in the data have no value', e is None, repr(e))
    run.explore(name, h)
    run.covers('jsonld.engine.json_input:PropertyJsonIntake.from_json')


class Classes(Names):
    """a registry: classes by names"""

    def __init__(self, name):
        super().__init__(name)
        self.at = ctx().func(name + '_at', Key, Val)
        self.added = []

    def pvx_isinstance(self, cls):
        return issubclass(dict, cls)

    def keys(self):
        return self

    def __contains__(self, k):
        for a, _ in reversed(self.added):
            if bool(a == k if isinstance(a, PvxKey) else k == a):
                return True
        return super().__contains__(k)

    def __getitem__(self, k):
        for a, v in reversed(self.added):
            if bool(a == k if isinstance(a, PvxKey) else k == a):
                return v
        if not Names.__contains__(self, k):
            raise contract_error(KeyError('name'))
        return Registered(self.at(kt(k)))

    def get(self, k, default=None):
        return self[k] if k in self else default

    def __setitem__(self, k, v):
        self.added.append((k, v))

    def update(self, d=(), **kw):
        for k, v in {**dict(d), **kw}.items():
            self[k] = v

    def setdefault(self, k, v=None):
        if k not in self:
            self[k] = v
        return self[k]

    def pvx_is(self, o):
        return self is o


class Registered(Pvx):
    def __init__(self, t):
        self.t = t

    def pvx_same(self, o):
        return self.t == o.t if isinstance(o, Registered) else z3.BoolVal(False)

    def __bool__(self):
        return True


def dispatch(run):
    """_get_object_class"""
    mod = setup()
    name = 'dispatch'

    def h():
        c = ctx()
        c.hooks['names'] = True
        for k in ('default', '', '@type'):
            kt(k)
        u = universe()
        obj = mod.PropertyJsonIntake()
        reg = Classes('registered')
        obj.___class_registry___ = reg
        data = u.fresh('data', 'dict')
        T = PvxKey(c.fresh('type', Key))
        c.assume(z3.And(T.t != kt(''), T.t != kt('default')))
        case = c.choose(['nothing', 'untyped', 'typed', 'several'])
        more = PvxKey(c.fresh('another', Key))

        def expand(m, *a, **k):
            c.prove(f'{name}: the data is expanded', m is data)
            return {'nothing': [], 'untyped': [{'@id': 'x'}], 'typed': [{'@type': [T]}],
                    'several': [{'@type': [T, more]}, {'@type': [more]}]}[case]
        c.hooks[mod.expand] = expand
        c.assume(z3.Not(reg.has(kt(''))))
        c.known['hint'] = {'property': 'C25'}
        what, r = outcome(lambda: _pvx_call(obj._get_object_class, data))
        c.prove(f'{name}: does not fail', what == 'ok', repr(r))
        if what != 'ok':
            return
        c.prove(f'{name}: the registry is not changed', not reg.added)
        typed = case in ('typed', 'several')
        if typed and c.branch(reg.has(T.t)):
            c.prove(f'{name}: the class registered for the type', r.t == reg.at(T.t)
                    if isinstance(r, Registered) else False, repr(r))
        elif c.branch(reg.has(kt('default'))):
            c.prove(f'{name}: the default class for other types', r.t == reg.at(kt('default'))
                    if isinstance(r, Registered) else False, repr(r))
        else:
            c.prove(f'{name}: no class for other types', r is None, repr(r))
    run.explore(name, h)
    run.covers('jsonld.engine.json_input:PropertyJsonIntake._get_object_class',
               'jsonld.engine.json_input:PropertyJsonIntake.class_registry')


def engine_class():
    logging.disable(logging.CRITICAL)
    return Loader(bare=BARE_LD).load('jsonld.engine.jsonld_engine').JsonLdEngine


def registering(run):
    """register_class"""
    cls = engine_class()
    name = 'registering'

    def h():
        c = ctx()
        c.hooks['names'] = True
        eng = object.__new__(cls)
        eng.logger = logging.getLogger('x')
        reg = Classes('registered')
        eng.___class_registry___ = reg
        k = PvxKey(c.fresh('name', Key))
        before = reg.has(k.t)
        Klass = type('Klass', (), {})
        what, r = outcome(lambda: _pvx_call(eng.register_class, k, Klass))
        taken = c.branch(before)
        if taken:
            c.prove(f'{name}: a name that is taken is refused with ValueError',
                    what == 'exc' and isinstance(r, ValueError), repr(r))
            c.prove(f'{name}: a refusal registers nothing', not reg.added)
            return
        c.prove(f'{name}: does not fail', what == 'ok', repr(r))
        if what == 'ok':
            x = PvxKey(c.fresh('x', Key))
            if c.branch(x.t == k.t):
                c.prove(f'{name}: the class is registered under the name',
                        x in reg and reg[x] is Klass)
            else:
                has = x in reg
                c.prove(f'{name}: no other name is touched', reg.has(x.t) if has
                        else z3.Not(reg.has(x.t)))
                if has:
                    e = reg[x]
                    c.prove(f'{name}: no other name is touched', e.t == reg.at(x.t)
                            if isinstance(e, Registered) else False)
            c.prove(f'{name}: the class knows its engine',
                    getattr(Klass, '__jsonld_engine__', None) is eng)
    run.explore(name, h)
    run.covers('jsonld.engine.jsonld_engine:JsonLdEngine.register_class')


def items(run):
    """engine[text], engine[texts]"""
    cls = engine_class()
    name = 'engine item access'

    def h():
        c = ctx()
        u = universe()
        eng = object.__new__(cls)
        eng.logger = logging.getLogger('x')
        v = u.fresh('texts')
        c.assume(z3.Not(u.of(v.t, 'iterable', 'set', 'dict', 'a dict')))

        def decode(x, *a, **k):
            if a or k or not isinstance(x, Data):
                raise Unsupported('decoding of other than a member')
            c.prove(f'{name}: only texts are decoded', u.isa(x.t, str))
            if c.branch(KNOWN(x.t)):
                return Out(x, DECODED)
            raise contract_error(ValueError('unknown type'))
        c.hooks[eng.from_json] = decode
        what, r = outcome(lambda: eng[v])
        kind = v.kind()
        j = z3.Int('tj')

        def all_(p):
            return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < LEN(v.t)), p(AT(v.t, j))))
        if kind in ('str', 'a str'):
            if c.branch(KNOWN(v.t)):
                c.prove(f'{name}: a text is decoded', what == 'ok' and isinstance(r, Out)
                        and r.t.eq(DECODED(v.t)), repr(r))
            else:
                c.prove(f'{name}: an unknown type is refused', what == 'exc' and
                        isinstance(r, ValueError), repr(r))
        elif kind in ('list', 'a list', 'tuple'):
            texts = all_(lambda t: u.isa(t, str))
            known = all_(KNOWN)
            if what == 'ok':
                c.prove(f'{name}: only texts are accepted', texts)
                ok = isinstance(r, PvxSeq) and r.keep is None
                c.prove(f'{name}: a list of what the texts decode to', ok, repr(r))
                if ok:
                    i = c.fresh('i', I)
                    c.prove(f'{name}: as many', r.n == LEN(v.t))
                    c.assume(z3.And(i >= 0, i < LEN(v.t)))
                    e = r.at(i)
                    c.prove(f'{name}: in the order given', e.t == DECODED(AT(v.t, i))
                            if isinstance(e, Out) else False, repr(e))
            elif isinstance(r, TypeError):
                c.prove(f'{name}: only other than texts is refused', z3.Not(texts))
            else:
                c.prove(f'{name}: fails only where one of them does', z3.And(
                    texts, z3.Not(known)) if isinstance(r, ValueError) else False, repr(r))
        else:
            c.prove(f'{name}: only other than texts is refused', what == 'exc' and
                    isinstance(r, TypeError), repr(r))
    run.explore(name, h)
    run.covers('jsonld.engine.jsonld_engine:JsonLdEngine.__getitem__')

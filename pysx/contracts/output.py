"""jsonld/jsonld.py: PropertyJsonLD.data and json, and the conversion of values.

An object has any set of properties with values of any nesting; the selection is
given by arbitrary collections of names. The conversion calls itself on members
and `data` of nested objects: both are replaced by the contract proved here."""
import inspect
import json

import z3

from pysx.core import B, I, Key, Unsupported, Val, contract_error, ctx
from pysx.contracts.collection import BARE
from pysx.contracts.common import outcome
from pysx.data import AT, HAS, LEN, UNDER, Data, Merged, NameMap, Names, Universe
from pysx.seq import PvxDict, PvxSeq
from pysx.sym import Pvx, PvxBool, PvxKey, kt, mkbool
from pysx.transform import Loader

BARE_LD = BARE + ('jsonld', 'jsonld.tools', 'jsonld.engine')
OUT = z3.Function('converted', Val, Val)


class Boom(Exception):
    pass


class Iterable_:
    def __iter__(self):
        return iter(())


class Other:
    pass


# the keywords of JSON-LD 1.1; an attribute cannot be called '@id', so it is called 'aid'
KEYWORDS = ('base container context direction graph id import included index json language list nest '
            'none prefix propagate protected reverse set type value version vocab').split()


def sub(name, *bases):
    return type(name, bases, {})


def kinds(mod):
    return {'none': type(None), 'bool': bool, 'int': int, 'float': float, 'str': str,
            'list': list, 'tuple': tuple, 'set': set, 'dict': dict, 'frozenset': frozenset,
            'a str': sub('S', str), 'an int': sub('N', int), 'a float': sub('F', float),
            'a list': sub('L', list), 'a tuple': sub('U', tuple), 'a set': sub('E', set),
            'a dict': sub('D', dict), 'iterable': Iterable_, 'other': Other,
            'object': sub('O', mod.PropertyJsonLD), 'an iterable str': sub('J', str)}


UNCHANGED = ('none', 'bool', 'int', 'float', 'str', 'a str', 'an int', 'a float', 'an iterable str')
LISTS = ('list', 'tuple', 'set', 'frozenset', 'a list', 'a tuple', 'a set', 'iterable')
DICTS = ('dict', 'a dict')


class Out(Pvx):
    """what a value is converted to"""

    def __init__(self, v):
        self.v, self.t = v, OUT(v.t)

    def pvx_reindex(self, j, i):
        return Out(self.v.pvx_reindex(j, i))

    def pvx_same(self, o):
        return self.t == o.t

    def pvx_is(self, o):
        if o is None:
            return self.v.pvx_is(None)
        return mkbool(self.t == o.t) if isinstance(o, Out) else False

    def __bool__(self):
        raise Unsupported('truth of a converted value')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'{n} of a converted value')


class Text(Pvx):
    """str() of a value"""

    def __init__(self, v):
        self.v = v

    def pvx_same(self, o):
        return self.v.t == o.v.t

    def pvx_reindex(self, j, i):
        return Text(self.v.pvx_reindex(j, i))

    def pvx_isinstance(self, cls):
        return issubclass(str, cls)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'{n} of a text')


class Value(Data):
    """a value of a property"""

    def pvx_str(self):
        if self.kind() in ('str', 'a str', 'an iterable str'):
            return self
        return Text(self)

    def data(self, *a, **k):
        c = ctx()
        if not c.branch(self.u.of(self.t, 'object')):
            raise contract_error(AttributeError('data'))
        sig = inspect.signature(c.hooks['data'])
        try:
            b = sig.bind(None, *a, **k).arguments
        except TypeError as e:
            raise contract_error(e)
        ex = b.pop('exclude', ())
        c.prove('nested objects: without their context entry', set(ex) == {'acontext'}, repr(ex))
        b.pop('self', None)
        other = {n: v for n, v in b.items() if v is not sig.parameters[n].default
                 and v != sig.parameters[n].default}
        c.prove('nested objects: their own dictionary form', not other, repr(other))
        return Out(self)


def conversion(run):
    mod = Loader(bare=BARE_LD).load('jsonld.jsonld')
    cls = mod.PropertyJsonLD

    def h():
        c = ctx()
        c.hooks['names'] = True
        u = Universe(kinds(mod), members=(list, tuple, set, frozenset, Iterable_), data=Value)
        obj = cls(acontext=None)
        handler = getattr(obj, '_PropertyJsonLD__handler', None)
        if handler is None:
            raise Unsupported('the conversion of values')
        c.hooks['data'] = inspect.unwrap(cls.data)
        v = u.fresh('value')
        c.known['hint'] = {'property': 'C17'}

        def rec(x, *a, **k):
            if a or k or not isinstance(x, Data):
                raise Unsupported('conversion of other than a member')
            return Out(x)
        c.hooks[handler] = rec
        what, r = outcome(lambda: handler(v))
        c.prove('conversion: does not fail', what == 'ok', repr(r))
        if what != 'ok':
            return
        kind = v.kind()
        if kind in UNCHANGED:
            c.prove('conversion: strings, numbers, booleans and None are unchanged',
                    isinstance(r, Data) and r.t == v.t, f'{kind}: {r!r}')
        elif kind in LISTS:
            ok = isinstance(r, PvxSeq) and r.mutable and r.keep is None
            c.prove('conversion: collections become lists', ok, f'{kind}: {r!r}')
            if ok:
                c.prove('conversion: of as many members', r.n == LEN(v.t))
                j = c.fresh('j', I)
                c.assume(z3.And(j >= 0, j < LEN(v.t)))
                e = r.at(j)
                c.prove('conversion: of converted members in order', isinstance(e, Out) and
                        e.t == OUT(AT(v.t, j)), repr(e))
        elif kind in DICTS:
            ok = isinstance(r, PvxDict) and r.pairs.sort == Key
            if isinstance(r, PvxDict) and not ok:
                raise Unsupported('how a dictionary is converted')
            c.prove('conversion: dictionaries become dictionaries', ok, f'{kind}: {r!r}')
            if ok:
                k = c.fresh('k', Key)
                c.prove('conversion: of the same keys', r.pairs.member(k) == HAS(v.t, k))
                c.assume(r.pairs.member(k))
                a, e = r.pairs.elem(k)
                c.prove('conversion: of converted members under their keys', z3.And(
                    kt(a) == k, e.t == OUT(UNDER(v.t, k))) if isinstance(e, Out) else False, repr(e))
        elif kind == 'object':
            c.prove('conversion: nested objects become their dictionary form',
                    isinstance(r, Out) and r.t == OUT(v.t), repr(r))
        else:
            c.prove('conversion: anything else becomes its string',
                    isinstance(r, Text) and r.v.t == v.t, f'{kind}: {r!r}')
    run.explore('conversion', h)
    run.covers('jsonld.jsonld:PropertyJsonLD.__handler')


class Holder:
    """the properties of an object: arbitrary values under arbitrary names"""

    def __init__(self, u, n, name):
        c = ctx()
        self.u, self.n, self.name = u, n, name
        self.val, self.fails = c.func('property', Key, Val), c.func('getter_fails', Key, B)
        self.any_fails = c.fresh('some_getter_fails', B)
        self.contexts = []


def selection(run):
    L = Loader(bare=BARE_LD)
    mod = L.load('jsonld.jsonld')
    utils = L.load('jsonld.utils')
    cls = mod.PropertyJsonLD

    def pvx_getattr(self, n, *d):
        c = ctx()
        hold = self.__dict__.get('hold')
        if isinstance(n, PvxKey) and hold is not None:
            c.prove('data: values are read in the context asked for',
                    self.__context__.context is hold.context)
            if c.branch(z3.And(hold.any_fails, hold.fails(n.t))):
                raise contract_error(Boom('getter'))
            return hold.u.value(hold.val(n.t))
        return getattr(self, n, *d)

    def h():
        c = ctx()
        c.hooks['names'] = True
        u = Universe(kinds(mod), members=(list, tuple, set, frozenset, Iterable_), data=Value)
        obj = type('Obj', (cls,), {'pvx_getattr': pvx_getattr})(acontext=None)
        handler = getattr(obj, '_PropertyJsonLD__handler', None)
        if handler is None:
            raise Unsupported('the conversion of values')
        c.hooks[handler] = lambda x: Out(x)
        c.hooks['data'] = inspect.unwrap(cls.data)
        keymap = {'a' + k: '@' + k for k in KEYWORDS}
        for k in [*keymap, *keymap.values(), 'acontext']:
            kt(k)
        # any number of properties, in any order
        n = c.fresh('properties', I)
        c.assume(n >= 0)
        name = c.func('name', I, Key)
        i, back = z3.Int('pi'), c.func('index', Key, I)
        c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), back(name(i)) == i),
                           patterns=[name(i)]))
        hold = Holder(u, n, name)
        obj.__properties__ = PvxSeq(n, lambda x: PvxKey(name(x)), label='properties', injective=True)
        kw = {}
        # all options, none, or all but one (given, they may still be empty)
        options = ['include', 'exclude', 'rename', 'reject_values', 'include_none', 'context']
        without = c.choose(['', 'any', *options])
        given = [o for o in options if o != without and without != 'any']
        for o in given:
            kw[o] = {'rename': NameMap, 'reject_values': lambda n: Names(n, Val),
                     'include_none': lambda n: PvxBool(c.fresh(n, B)),
                     'context': lambda n: object()}.get(o, Names)(o)
        none = kw['include_none'].t if 'include_none' in kw else z3.BoolVal(False)
        hold.context = kw.get('context', utils.JSON_DATA_CONTEXT)
        outer = object()
        obj.__context__(outer)
        obj.__dict__['hold'] = hold

        names = [keymap]
        if 'rename' in kw and c.branch(kw['rename'].some):
            names.append(kw['rename'])

        def renamed(k):
            return kt(Merged(names).get(PvxKey(k), PvxKey(k)))
        # two properties never get the same name
        back2 = c.func('index_of_renamed', Key, I)
        c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), back2(renamed(name(i))) == i),
                           patterns=[name(i)]))

        def chosen(k):
            v = hold.val(k)
            t = [z3.Or(none, z3.Not(u.of(v, 'none')))]
            if 'include' in kw:
                t.append(z3.Or(z3.Not(kw['include'].some), kw['include'].has(k)))
            if 'exclude' in kw:
                t.append(z3.Not(kw['exclude'].has(k)))
            if 'reject_values' in kw:
                t.append(z3.Not(kw['reject_values'].has(v)))
            return z3.And(*t)
        what, r = outcome(lambda: obj.data(**kw))
        c.prove('data: the context is the one before', obj.__context__.context is outer)
        if what == 'exc':
            c.prove('data: fails only if a property does',
                    z3.And(hold.any_fails, z3.BoolVal(isinstance(r, Boom))), repr(r))
            return
        if not isinstance(r, PvxDict) or r.pairs.sort != I:
            if isinstance(r, (dict, PvxDict)):
                raise Unsupported('how the dictionary is made')
            c.prove('data: a dictionary', False, repr(r))
            return
        j = c.fresh('j', I)
        c.assume(z3.And(j >= 0, j < n))
        c.assume(u.within(hold.val(name(j))))
        for x in ('include', 'exclude'):
            if x in kw:
                kw[x].holds(PvxKey(name(j)))
        c.prove('data: exactly the selected properties', r.pairs.member(j) == chosen(name(j)))
        c.assume(r.pairs.member(j))
        a, e = r.pairs.elem(j)
        c.prove('data: under their names', kt(a) == renamed(name(j)))
        c.prove('data: their converted values', isinstance(e, Out) and
                e.t == OUT(hold.val(name(j))), repr(e))
        x = c.fresh('x', I)
        c.prove('data: nothing else', z3.Implies(r.pairs.member(x), z3.And(x >= 0, x < n)))
    run.explore('data', h)
    run.covers('jsonld.jsonld:PropertyJsonLD.data')


def access(run):
    """the properties of an object one by one, and some of them by their names"""
    from pysx.hooks import as_seq, drain, isgen
    mod = Loader(bare=BARE_LD).load('jsonld.jsonld')
    cls = mod.PropertyJsonLD

    def pvx_getattr(self, n, *d):
        c = ctx()
        hold = self.__dict__.get('hold')
        if isinstance(n, PvxKey) and hold is not None:
            if c.branch(z3.And(hold.any_fails, hold.fails(n.t))):
                raise contract_error(Boom('getter'))
            return hold.u.value(hold.val(n.t))
        return getattr(self, n, *d)

    def h():
        c = ctx()
        u = Universe(kinds(mod), members=(list, tuple, set, frozenset, Iterable_), data=Value)
        obj = type('Obj', (cls,), {'pvx_getattr': pvx_getattr})(acontext=None)
        n = c.fresh('properties', I)
        c.assume(n >= 0)
        name = c.func('name', I, Key)
        i, back = z3.Int('pi'), c.func('index', Key, I)
        c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), back(name(i)) == i),
                           patterns=[name(i)]))
        hold = Holder(u, n, name)
        c.assume(z3.Not(hold.any_fails))
        obj.__properties__ = PvxSeq(n, lambda x: PvxKey(name(x)), label='properties', injective=True)
        obj.__dict__['hold'] = hold

        def has(k):
            j = back(k)
            return z3.And(j >= 0, j < n, name(j) == k)
        if c.choose(['all', 'some']) == 'all':
            def go():
                r = type(obj).__iter__(obj)
                return drain(r) if isgen(r) else r
            what, r = outcome(go)
            c.prove('iterating: does not fail', what == 'ok', repr(r))
            s = as_seq(r) if what == 'ok' else None
            if not isinstance(s, PvxSeq) or s.sort != I:
                raise Unsupported('what iterating gives')
            j = c.fresh('j', I)
            c.prove('iterating: each property once', s.member(j) == z3.And(j >= 0, j < n))
            c.assume(s.member(j))
            e = s.elem(j)
            ok = isinstance(e, tuple) and len(e) == 2
            c.prove('iterating: properties with their values', z3.And(
                kt(e[0]) == name(j), e[1].t == hold.val(name(j))) if ok else False, repr(e))
            return
        how = c.choose(['one', 'two', 'two in a tuple'])
        ks = [PvxKey(c.fresh('asked', Key)) for _ in range(1 if how == 'one' else 2)]
        if len(ks) == 2:
            c.assume(ks[0].t != ks[1].t)
        arg = ks[0] if how == 'one' else tuple(ks) if how.endswith('tuple') else list(ks)
        what, r = outcome(lambda: type(obj).__getitem__(obj, arg))
        all_ = z3.And(*[has(k.t) for k in ks])
        if what == 'exc':
            c.prove('item access: only a name that is no property is refused',
                    z3.Not(all_) if isinstance(r, KeyError) else False, repr(r))
            return
        c.prove('item access: a name that is no property is refused', all_)
        if not isinstance(r, dict):
            raise Unsupported('what item access gives')
        c.prove('item access: exactly what was asked for', len(r) == len(ks), repr(r))
        for k in ks:
            c.prove('item access: the value of the property', z3.Or(*[z3.And(
                kt(a) == k.t, b.t == hold.val(k.t)) for a, b in r.items()]))
    run.explore('properties of an object', h)
    run.covers('jsonld.base:PropertyAwareObject.__iter__', 'jsonld.base:PropertyAwareObject.__getitem__')


def text(run):
    """json(): the text of data() in the JSON context"""
    L = Loader(bare=BARE_LD)
    mod = L.load('jsonld.jsonld')
    cls = mod.PropertyJsonLD
    sig = inspect.signature(inspect.unwrap(cls.data))

    def h():
        c = ctx()
        obj = cls(acontext=None)
        calls, dumps = [], []
        doc, res = object(), 'the text'

        def data(*a, **k):
            calls.append(sig.bind(obj, *a, **k).arguments)
            return doc

        def dump(*a, **k):
            dumps.append((a, k))
            return res
        c.hooks[obj.data] = data
        c.hooks[json.dumps] = dump
        given = {}
        for n in ('include', 'exclude', 'transforms', 'rename', 'include_none'):
            if c.choose(['given', 'not']) == 'given':
                given[n] = object()
        form = {}
        for n, vs in (('minified', (True, False)), ('indent', (None, 2))):
            v = c.choose(['not', *vs])
            if v != 'not':
                form[n] = v
        what, r = outcome(lambda: str(obj) if not given and not form and c.choose(['str', 'json'])
                          == 'str' else obj.json(**given, **form))
        c.prove('json: one dictionary, one text', what == 'ok' and len(calls) == 1
                and len(dumps) == 1 and r is res, repr(r))
        if what != 'ok' or len(calls) != 1 or len(dumps) != 1:
            return
        b = calls[0]
        c.prove('json: of the selected properties', all(b.get(n) is v for n, v in given.items())
                and not [n for n in b if n not in given and n not in ('self', 'context') and
                         b[n] is not sig.parameters[n].default and b[n] != sig.parameters[n].default],
                repr(b))
        c.prove('json: in the context of JSON output',
                b.get('context', sig.parameters['context'].default)
                == L.load('jsonld.utils').JSON_DATA_CONTEXT)
        a, k = dumps[0]
        c.prove('json: the text is of that dictionary', len(a) == 1 and a[0] is doc)
        c.prove('json: laid out as asked for', set(k) <= {'separators', 'indent'} and
                k.get('indent') == form.get('indent') and
                k.get('separators') == ((',', ':') if form.get('minified') else None), repr(k))
    run.explore('json', h)
    run.covers('jsonld.jsonld:PropertyJsonLD.json', 'jsonld.jsonld:PropertyJsonLD.__str__')

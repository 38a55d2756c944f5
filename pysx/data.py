"""Nested data: values of which only a term is known. Each is of one of finitely
many kinds, given by a representative class; collections have any number of
members, which are such values again, to any depth. A function that calls itself
on members is checked against its own contract there (induction on the depth)."""
import inspect
import types
import zlib

import z3

from pysx.core import B, I, Infeasible, Key, Unsupported, Val, contract_error, ctx
from pysx.seq import SKIP, PvxDict, PvxSeq, comp
from pysx.sym import Pvx, PvxKey, mkbool, mknot

LEN = z3.Function('data_len', Val, I)
AT = z3.Function('data_member', Val, I, Val)
HAS = z3.Function('data_has', Val, Key, B)
UNDER = z3.Function('data_under', Val, Key, Val)
SIZE = z3.Function('data_size', Val, I)
KIND = z3.Function('data_kind', Val, I)
TRUE = z3.Function('data_true', Val, B)
EQUAL = z3.Function('data_equal', Val, Val, B)


class Universe:
    """the kinds of values: name -> representative class"""

    def __init__(self, kinds, members=(list, tuple, set, frozenset), data=None):
        self.kinds = dict(kinds)
        self.names = list(self.kinds)
        self.members = members        # classes whose instances have members
        self.make = data or Data

    def of(self, t, *names):
        """a formula: the value is of one of these kinds"""
        ns = [self.names.index(n) for n in names]
        return z3.Or(*[KIND(t) == n for n in ns]) if ns else z3.BoolVal(False)

    def within(self, t):
        return z3.And(KIND(t) >= 0, KIND(t) < len(self.names))

    def where(self, t, test):
        return self.of(t, *[n for n, c in self.kinds.items() if test(c)])

    def isa(self, t, cls):
        return self.where(t, lambda c: issubclass(c, cls))

    def fresh(self, name, *kinds):
        """an arbitrary value of these kinds (of any kind)"""
        c = ctx()
        t = c.fresh(name, Val)
        c.assume(self.within(t))
        if kinds:
            c.assume(self.of(t, *kinds))
        return self.make(self, t)

    def value(self, t):
        ctx().assume(self.within(t))
        return self.make(self, t)

    def collection(self, t):
        return self.isa(t, self.members)


class Names(Pvx):
    """a collection of names or of values, by its membership"""

    def __init__(self, name, sort=Key):
        c = ctx()
        self.has, self.some = c.func(name + '_has', sort, B), c.fresh(name + '_some', B)
        self.sort = sort

    def holds(self, x):
        from pysx.sym import kt
        t = self.has(kt(x) if self.sort == Key else x.t)
        ctx().assume(z3.Implies(t, self.some))
        return t

    def __contains__(self, x):
        return ctx().branch(self.holds(x))

    def __bool__(self):
        return ctx().branch(self.some)

    def __iter__(self):
        raise Unsupported('iteration over a collection of names')


class NameMap(Names):
    """a dictionary from names to names"""

    def __init__(self, name):
        super().__init__(name)
        self.at = ctx().func(name + '_at', Key, Key)

    def pvx_isinstance(self, cls):
        return issubclass(dict, cls)

    def value(self, k):
        from pysx.sym import kt
        return PvxKey(self.at(kt(k)))

    def term(self, k, default):
        from pysx.sym import kt
        return z3.If(self.holds(k), self.at(kt(k)), default)

    def get(self, k, default=None):
        return Merged([self]).get(k, default)

    def __getitem__(self, k):
        return Merged([self])[k]

    pvx_copies = True

    def copy(self):
        return Merged([self])


class Merged(Pvx):
    """{**a, **b, ...}, the last one winning"""

    def __init__(self, parts, keywords=False):
        self.parts = []
        for p in parts:
            self.parts += p.parts if isinstance(p, Merged) else [p]
        for p in self.parts:
            if isinstance(p, Data):
                if not ctx().branch(p.u.isa(p.t, dict)):
                    raise contract_error(TypeError('not a mapping'))
            elif not isinstance(p, (dict, NameMap, PvxDict)):
                raise Unsupported('a dictionary made of others')
        if keywords:
            for i, p in enumerate(parts):
                for o in parts[:i]:
                    if not isinstance(o, dict):
                        p, o = o, p
                    if not isinstance(o, dict):
                        raise Unsupported('keywords that may be given twice')
                    if any(q in p for q in o):
                        raise contract_error(TypeError('multiple values for a keyword'))

    pvx_logged = pvx_copies = True

    def copy(self):
        return Merged([dict(p) if isinstance(p, dict) else p for p in self.parts])

    def put(self, part):
        c, old = ctx(), self.parts
        self.parts = Merged([*old, part]).parts
        c.log(('setitem', self), lambda: setattr(self, 'parts', old))

    def update(self, other=(), **kw):
        if not isinstance(other, (dict, Pvx)):
            other = dict(other)
        self.put(other)
        if kw:
            self.put(kw)

    def __setitem__(self, k, v):
        self.put({k: v})

    def setdefault(self, k, v=None):
        if k in self:
            return self[k]
        self[k] = v
        return v

    def pvx_isinstance(self, cls):
        return issubclass(dict, cls)

    def get(self, k, default=None):
        from pysx.sym import kt
        if not all(type(p) is NameMap or isinstance(p, dict) and all(
                isinstance(v, (str, PvxKey)) for v in p.values())
                   for p in self.parts) or not isinstance(default, (str, PvxKey)):
            v = self.find(k)
            return default if v is SKIP else v
        t, key = kt(default), kt(k)
        f = None
        if t.eq(key):
            # a function of the key, the same one for the same contents
            parts = [p for p in self.parts if p is not None and not (isinstance(p, dict) and not p)]
            if not parts:
                return PvxKey(key)
            what = tuple(p.has.name() if isinstance(p, NameMap) else tuple(
                (str(a), str(b)) for a, b in p.items()) for p in parts)
            f = z3.Function(f'lookup{zlib.crc32(repr(what).encode())}', Key, Key)
        for p in self.parts:
            if isinstance(p, NameMap):
                t = p.term(k, t)
            else:
                for q, v in p.items():
                    t = z3.If(key == kt(q), kt(v), t)
        if f is not None:
            ctx().assume(f(key) == t)
            return PvxKey(f(key))
        return PvxKey(z3.simplify(t))

    def find(self, k):
        """the value under the key, or SKIP (fork)"""
        from pysx.sym import kt
        for p in reversed(self.parts):
            if isinstance(p, NameMap):
                if k in p:
                    return p.value(k)
            elif isinstance(p, PvxDict):
                e = p.at(k)
                if e is not None:
                    return e[1]
            elif isinstance(p, Data):
                if k in p:
                    return p[k]
            else:
                for q, v in reversed(p.items()):
                    if ctx().branch(kt(q) == kt(k)):
                        return v
        return SKIP

    def __getitem__(self, k):
        v = self.find(k)
        if v is SKIP:
            raise contract_error(KeyError('name'))
        return v

    def __contains__(self, k):
        return self.find(k) is not SKIP

    def __bool__(self):
        return any(bool(p) for p in self.parts)

    def pop(self, k, *d):
        v = self.find(k)
        if v is SKIP:
            if d:
                return d[0]
            raise contract_error(KeyError('name'))
        self.put({k: SKIP})         # nothing from here on
        return v

    def items(self):
        """where every part is listed by its keys"""
        from pysx.sym import kt

        def by_key(p):
            if not isinstance(p, PvxDict) or p.pairs.sort != Key:
                return isinstance(p, dict)
            j = z3.Const('probe?', Key)
            t = getattr(p.pairs.elem(j)[0], 't', None)
            return t is not None and z3.simplify(t).eq(j)
        if not all(by_key(p) for p in self.parts):
            raise Unsupported('items of a dictionary made of others')
        parts = list(self.parts)

        def keep(k):
            t = z3.BoolVal(False)
            for p in parts:
                if isinstance(p, PvxDict):
                    t = z3.Or(t, p.pairs.member(k))
                else:
                    for q, v in p.items():
                        t = z3.If(kt(q) == k, z3.BoolVal(v is not SKIP), t)
            return t

        def elem(k):
            for p in reversed(parts):
                if isinstance(p, PvxDict):
                    if ctx().branch(p.pairs.member(k)):
                        return p.pairs.elem(k)
                else:
                    for q, v in p.items():
                        if ctx().branch(kt(q) == k):
                            return (PvxKey(k), v)
            raise Infeasible()
        return PvxSeq(None, elem, keep=keep, label='items', sort=Key, injective=True)

    def keys(self):
        """the names in the order they are listed in"""
        return comp(self.items(), None, lambda e: e[0])

    def pvx_iter(self):
        return self.keys()

    def pvx_is(self, o):
        return self is o

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'{n} of a dictionary made of others')


class Induction:
    """The hook under 'induction': where a function that was given a value calls
    itself on a member of it, with the same other arguments, the result is
    `result(member, others)`; what the outer call returns then has to be what
    `check(value, others, result)` asks for."""

    def __init__(self, result, check):
        self.result, self.check, self.active = result, check, []

    def __call__(self, f, a, k):
        fn = getattr(f, '__func__', f)
        if not isinstance(fn, types.FunctionType) or fn.__code__.co_filename == __file__:
            return None
        if not any(isinstance(x, Data) for x in (*a, *k.values())):
            return None
        try:
            b = inspect.signature(f).bind(*a, **k)
        except TypeError:
            return None
        b.apply_defaults()
        args = dict(b.arguments)
        for n, p in inspect.signature(f).parameters.items():
            if p.kind == p.VAR_KEYWORD:
                args.update(args.pop(n))
        me = getattr(f, '__self__', None)
        for fr in reversed(self.active):
            if fr['code'] is fn.__code__:
                at = [n for n, x in args.items() if n not in fr['args'] or
                      not (x is fr['args'][n] or pvx_same_data(x, fr['args'][n]))]
                if len(at) != 1 or set(args) != set(fr['args']) or me is not fr['self']:
                    raise Unsupported('a call to itself with other arguments')
                n = at[0]
                v, outer = args[n], fr['args'][n]
                if not isinstance(v, Data) or not isinstance(outer, Data) or not below(v.t, outer.t):
                    raise Unsupported('a call to itself with other than a member')
                fr['used'] = n
                return (self.result(v, {m: x for m, x in args.items() if m != n}),)
        fr = {'code': fn.__code__, 'args': args, 'used': None, 'self': me}
        self.active.append(fr)
        try:
            r = f(*a, **k)
        finally:
            self.active.pop()
        if fr['used']:
            self.check(args[fr['used']], {m: x for m, x in args.items() if m != fr['used']}, r)
        return (r,)


def pvx_same_data(x, y):
    if isinstance(x, Data) and isinstance(y, Data):
        return x.t.eq(y.t)
    return isinstance(x, (str, int, tuple, type(None))) and type(x) is type(y) and x == y


def below(t, outer):
    """a member of a member ... of it"""
    while z3.is_app(t) and t.decl().eq(AT) or z3.is_app(t) and t.decl().eq(UNDER):
        t = t.arg(0)
        if t.eq(outer):
            return True
    return False


class Data(Pvx):
    def __init__(self, u, t):
        self.u, self.t = u, t

    # -- what it is
    def pvx_isinstance(self, cls):
        if not isinstance(cls, (type, tuple)):
            raise Unsupported('isinstance')
        return mkbool(self.u.isa(self.t, cls))

    def kind(self):
        """its kind (fork)"""
        c = ctx()
        for i, n in enumerate(self.u.names):
            if c.branch(KIND(self.t) == i):
                return n
        raise Infeasible()

    def pvx_type(self):
        return self.u.kinds[self.kind()]

    @property
    def __class__(self):
        return Data

    def pvx_is(self, o):
        if o is None:
            return mkbool(self.u.isa(self.t, type(None)))
        if isinstance(o, Data):
            return mkbool(self.t == o.t)
        if isinstance(o, bool):
            raise Unsupported('identity with a truth value')
        return False

    def pvx_same(self, o):
        return self.t == o.t

    def pvx_reindex(self, j, i):
        return type(self)(self.u, z3.substitute(self.t, (j, i)))

    def __eq__(self, o):
        if isinstance(o, Data):
            return mkbool(z3.Or(self.t == o.t, EQUAL(self.t, o.t)))
        if o is None:
            return mkbool(self.u.isa(self.t, type(None)))
        raise Unsupported('comparison of a value')

    def __ne__(self, o):
        return mknot(self == o)

    def __hash__(self):
        raise Unsupported('hash of a value')

    def __bool__(self):
        c, u, t = ctx(), self.u, self.t
        if c.branch(u.isa(t, type(None))):
            return False
        if c.branch(u.collection(t)):
            return c.branch(LEN(t) > 0)
        return c.branch(TRUE(t))

    # -- its members
    def member(self, j):
        return self.u.value(AT(self.t, j))

    def members(self):
        c = ctx()
        c.assume(LEN(self.t) >= 0)
        return PvxSeq(LEN(self.t), self.member, label='members')

    def entries(self):
        """of a dictionary (its order is left open)"""
        t = self.t
        return PvxSeq(None, lambda k: (PvxKey(k), self.u.value(UNDER(t, k))), sort=Key,
                      keep=lambda k: HAS(t, k), label='entries', injective=True,
                      over=lambda: SIZE(t))

    def mapping(self):
        if not ctx().branch(self.u.isa(self.t, dict)):
            raise contract_error(AttributeError('no such method'))

    def pvx_iter(self):
        c = ctx()
        if c.branch(self.u.collection(self.t)):
            return self.members()
        if c.branch(self.u.isa(self.t, dict)):
            t = self.t
            return PvxSeq(None, PvxKey, sort=Key, keep=lambda k: HAS(t, k), label='keys',
                          injective=True, over=lambda: SIZE(t))
        raise Unsupported('iteration over what may be anything')

    def pvx_len(self):
        return self.pvx_iter().pvx_len()

    def __iter__(self):
        raise Unsupported('iteration over a value by uninstrumented code')

    def items(self):
        self.mapping()
        return self.entries()

    def keys(self):
        self.mapping()
        return self.pvx_iter()

    def values(self):
        self.mapping()
        e = self.entries()
        return PvxSeq(None, lambda k: e.elem(k)[1], sort=Key, keep=e.keep, label='values',
                      over=e.over)

    def get(self, k, default=None):
        self.mapping()
        from pysx.sym import kt
        if ctx().branch(HAS(self.t, kt(k))):
            return self.u.value(UNDER(self.t, kt(k)))
        return default

    def __getitem__(self, k):
        from pysx.sym import kt
        if isinstance(k, (str, PvxKey)) and ctx().branch(self.u.isa(self.t, dict)):
            if not ctx().branch(HAS(self.t, kt(k))):
                raise contract_error(KeyError('key'))
            return self.u.value(UNDER(self.t, kt(k)))
        return self.pvx_iter()[k]

    def __contains__(self, k):
        from pysx.sym import kt
        c = ctx()
        if isinstance(k, (str, PvxKey)) and c.branch(self.u.isa(self.t, dict)):
            return c.branch(HAS(self.t, kt(k)))
        return k in self.pvx_iter()

    pvx_copies = True

    def copy(self):
        if ctx().branch(self.u.isa(self.t, dict)):
            return Merged([self])
        raise Unsupported('copy of a value')

    def modified(self, *a, **k):
        ctx().prove('the value given is not modified', False)
        raise Unsupported('a value is modified')

    update = setdefault = pop = popitem = clear = append = extend = insert = remove = modified
    __setitem__ = __delitem__ = sort = reverse = add = discard = modified

    def pvx_hasattr(self, n):
        if n == '__iter__':
            return mkbool(self.u.where(self.t, lambda c: hasattr(c, '__iter__')))
        raise Unsupported(f'hasattr {n}')

    def pvx_text(self):
        from pysx.strs import Opaque
        return [Opaque(self)]

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'{n} of a value')

    def __repr__(self):
        return f'PvxData({self.t})'

"""jsonld/package.py: combining packages, and what a package is made of.

A class of a package is known by its namespace and by the package it comes from;
packages have any number of classes, properties and mappings. Namespaces are
distinct within a package. Cloning (jsonld/kamino.py) is used by its contract:
one clone for each of the classes, of the same namespace, in any order; that the
clones behave like their originals is decided by the bounded part."""
import logging
from contextlib import contextmanager

import z3

from pysx.core import B, I, Key, Unsupported, Val, contract_error, ctx
from pysx.contracts.common import equal, key, outcome, val
from pysx.contracts.contexts import BARE_LD
from pysx.loops import Rule
from pysx.maps import kle
from pysx.seq import PvxDict, PvxSeq, Store
from pysx.sym import Pvx, PvxKey, PvxVal, isa, kt, mkbool
from pysx.transform import Loader

NAME = z3.Function('property_name', Key, Key)
UNNAME = z3.Function('property_of_name', Key, Key)


class Cls(Pvx):
    """a class or property of a package"""

    def __init__(self, fam, t, links=None):
        self.fam, self.t, self.links = fam, t, links

    def pvx_same(self, o):
        return self.t == o.t if isinstance(o, Cls) and o.fam == self.fam else z3.BoolVal(False)

    def pvx_reindex(self, j, i):
        return Cls(self.fam, z3.substitute(self.t, (j, i)), self.links)

    def pvx_isinstance(self, cls):
        return isa(type, cls)

    def pvx_callable(self):
        return True

    def __eq__(self, o):
        return mkbool(self.pvx_same(o))

    def __ne__(self, o):
        return mkbool(z3.Not(self.pvx_same(o)))

    def __hash__(self):
        return 0

    def __bool__(self):
        return True

    @property
    def __name__(self):
        return 'the class'

    def __get_namespace__(self):
        return PvxKey(self.t)

    def __get_property_name__(self):
        if not self.fam.endswith('properties'):
            raise Unsupported('name of a class')
        return PvxKey(NAME(self.t))

    def __get_registration__(self):
        if not self.fam.endswith('properties'):
            raise Unsupported('registration of a class')
        return [Part(self, n) for n in ('get', 'set', 'delete', 'doc')]

    def __get_properties__(self, refresh=False):
        return {}

    def pvx_setattr(self, n, v):
        if self.links is None:
            ctx().prove(f'{self.fam}: only clones are changed', False, repr(n))
            raise Unsupported('a change of a class')
        self.links.put(self, n, v)

    def __getattr__(self, n):
        if n.startswith('pvx_') or n == '__wrapped__':
            raise AttributeError(n)
        raise Unsupported(f'{n} of a class')

    def __repr__(self):
        return f'<{self.fam} {self.t}>'


class Part:
    """what is registered for a property"""

    def __init__(self, of, what):
        self.of, self.what = of, what

    def __call__(self, *a, **k):
        raise Unsupported('an accessor')


class Classes:
    """the classes, or the properties, of a package"""

    def __init__(self, fam, links=None, size=None):
        c = ctx()
        self.fam, self.links = fam, links
        self.n = size if size is not None else c.fresh(fam + '_n', I)
        c.assume(self.n >= 0)
        self.ns = c.func(fam + '.ns', I, Key)
        self.has = c.func(fam + '.has', Key, B)
        self.at = c.func(fam + '.at', Key, I)
        j, k = z3.Const('cj', I), z3.Const('ck', Key)
        c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.n), z3.And(
            self.has(self.ns(j)), self.at(self.ns(j)) == j)), patterns=[self.ns(j)]))
        c.assume(z3.ForAll([k], z3.Implies(self.has(k), z3.And(
            self.at(k) >= 0, self.at(k) < self.n, self.ns(self.at(k)) == k)), patterns=[self.has(k)]))

    def cls(self, t):
        return Cls(self.fam, t, self.links)

    def seq(self, mutable=False):
        return PvxSeq(self.n, lambda j: self.cls(self.ns(j)), label=self.fam, injective=True,
                      mutable=mutable)


class Names(PvxSeq):
    """the namespaces of the properties listed for a class"""

    def __init__(self, of, k):
        self.of, self.k = of, k
        super().__init__(of.n(k), lambda j: PvxKey(of.p(k, j)), label='listed', injective=True)

    def pvx_reindex(self, j, i):
        return Names(self.of, z3.substitute(self.k, (j, i)))


class Mapped:
    """a property mapping"""

    def __init__(self, name):
        c = ctx()
        self.name = name
        self.has = c.func(name + '.lists', Key, B)
        self.n = c.func(name + '.number', Key, I)
        self.p = c.func(name + '.property', Key, I, Key)
        self.listed = c.func(name + '.listed', Key, Key, B)
        self.first = c.func(name + '.first', Key, Key, I)
        k, p, j = z3.Const('mk', Key), z3.Const('mp', Key), z3.Const('mj', I)
        c.assume(z3.ForAll([k], self.n(k) >= 0, patterns=[self.n(k)]))
        c.assume(z3.ForAll([k, j], z3.Implies(z3.And(j >= 0, j < self.n(k)), z3.And(
            self.listed(k, self.p(k, j)), self.first(k, self.p(k, j)) <= j)), patterns=[self.p(k, j)]))
        c.assume(z3.ForAll([k, p], z3.Implies(self.listed(k, p), z3.And(
            self.first(k, p) >= 0, self.first(k, p) < self.n(k),
            self.p(k, self.first(k, p)) == p)), patterns=[self.listed(k, p)]))

    def dict(self):
        return PvxDict(PvxSeq(None, lambda k: (PvxKey(k), Names(self, k)), keep=lambda k: self.has(k),
                              label=self.name, sort=Key, injective=True), True)


def load():
    logging.disable(logging.CRITICAL)
    return Loader(bare=BARE_LD).load('jsonld.package')


def made(mod, name, ns):
    """an arbitrary package"""
    p = mod.JsonLdPackage.__new__(mod.JsonLdPackage)
    obs, props = Classes(name + ' classes'), Classes(name + ' properties')
    c = ctx()
    k = z3.Const('ok', Key)
    c.assume(z3.ForAll([k], z3.Not(z3.And(obs.has(k), props.has(k))), patterns=[obs.has(k)]))
    c.assume(z3.ForAll([k], z3.Not(z3.And(obs.has(k), props.has(k))), patterns=[props.has(k)]))
    mp = Mapped(name + ' mapping')
    p.namespace = ns
    p.objects = obs.seq()
    p.properties = props.seq()
    p.property_mapping = mp.dict()
    return p, obs, props, mp


def given(args, kw):
    import inspect
    def sig(namespace, objects=(), properties=(), property_mapping=None):
        pass
    b = inspect.signature(sig).bind(*args, **kw)
    b.apply_defaults()
    return b.arguments


def same_classes(what, seq, wanted):
    """wanted: [(classes, condition on the namespace)]: exactly those are members"""
    from pysx.hooks import _pvx_in, as_seq
    from pysx.sym import truth
    c = ctx()
    s = as_seq(seq) if not isinstance(seq, (tuple, list)) else None
    if s is None:
        raise Unsupported('the classes of a package')
    which = c.choose(list(range(len(wanted) + 1)))
    if which < len(wanted):
        cl, cond = wanted[which]
        j = c.fresh('one', I)
        c.assume(z3.And(j >= 0, j < cl.n, cond(cl.ns(j))))
        c.prove(f'{what}: none of the {cl.fam} is lost', truth(_pvx_in(cl.cls(cl.ns(j)), seq)))
        return
    a, b = c.fresh('a', s.sort), c.fresh('b', s.sort)
    c.assume(s.member(a))
    x = s.elem(a)
    ok = [(cl, cond) for cl, cond in wanted if isinstance(x, Cls) and cl.fam == x.fam]
    c.prove(f'{what}: nothing else is there', z3.And(ok[0][0].has(x.t), ok[0][1](x.t))
            if ok else z3.BoolVal(False), repr(x))
    c.assume(s.member(b))
    y = s.elem(b)
    if isinstance(y, Cls) and isinstance(x, Cls):
        c.prove(f'{what}: one for each namespace', z3.Implies(x.t == y.t, a == b), repr((x, y)))


def lists(what, got, m, k, cond):
    """the names kept are those of m's list for k with the condition, in order"""
    from pysx.hooks import _pvx_in, as_seq
    from pysx.sym import truth
    c = ctx()
    if isinstance(got, Names):
        c.prove(f'{what}: that list', got.of is m and got.k.eq(k) or z3.And(
            z3.BoolVal(got.of is m), got.k == k))
        q = c.fresh('p', Key)
        c.prove(f'{what}: nothing listed is left out', z3.Implies(m.listed(k, q), cond(q)))
        return
    s = as_seq(got) if not isinstance(got, (tuple, list)) else None
    if s is None:
        raise Unsupported('a list of namespaces')
    if c.choose(['members', 'all']) == 'members':
        j = c.fresh('member', s.sort)
        c.assume(s.member(j))
        x = s.elem(j)
        c.prove(f'{what}: only what was listed', z3.And(m.listed(k, x.t), cond(x.t))
                if isinstance(x, PvxKey) else False, repr(x))
    else:
        j = c.fresh('listed', I)
        c.assume(z3.And(j >= 0, j < m.n(k), cond(m.p(k, j))))
        c.prove(f'{what}: all that is left', truth(_pvx_in(PvxKey(m.p(k, j)), got)))


def combining(run, op):
    mod = load()
    what = f'package {op} package'

    def h():
        c = ctx()
        ns, ns2 = Str(), Str()
        A, ao, ap, am = made(mod, 'left', ns)
        Bp, bo, bp, bm = made(mod, 'right', ns2)
        got = []
        result = object()

        def ctor(*args, **kw):
            got.append(given(args, kw))
            return result
        c.hooks[mod.JsonLdPackage] = ctor
        mark = len(c.mutlog)
        kind, r = outcome(lambda: A + Bp if op == '+' else A - Bp)
        c.prove(f'{what}: makes one package', kind == 'ok' and r is result and len(got) == 1, repr(r))
        if kind != 'ok' or len(got) != 1:
            return
        for w, _ in c.changes(mark):
            c.prove(f'{what}: neither of them is changed', not (isinstance(w, tuple) and w[0] == 'setattr'
                                                               and w[1] in (A, Bp)), repr(w))
        g = got[0]
        c.prove(f'{what}: of the namespace of the left one', g['namespace'] is ns)
        part = c.choose(['objects', 'properties', 'mapping'])
        if part != 'mapping':
            x, y = (ao, bo) if part == 'objects' else (ap, bp)
            same_classes(f'{what}: {part}', g[part], [(x, lambda k: z3.Not(y.has(k)))] + (
                [(y, lambda k: z3.BoolVal(True))] if op == '+' else []))
            return
        m = g['property_mapping']
        k = key('class')
        from pysx.hooks import _pvx_in, _pvx_getitem
        from pysx.sym import truth
        # what the mapping says about a class
        there = c.branch(truth(_pvx_in(k, m)))
        gone = z3.BoolVal(False) if op == '+' else z3.And(bo.has(k.t))
        t = z3.Or(am.has(k.t), bm.has(k.t)) if op == '+' else z3.And(am.has(k.t), z3.Not(gone))
        c.prove(f'{what}: the classes of the mapping', t == z3.BoolVal(there))
        if not there:
            return
        v = _pvx_getitem(m, k)
        if op == '+':
            if c.branch(bm.has(k.t)):
                lists(f'{what}: the right mapping wins', v, bm, k.t, lambda p: z3.BoolVal(True))
            else:
                lists(f'{what}: the left mapping', v, am, k.t, lambda p: z3.BoolVal(True))
        else:
            lists(f'{what}: the left mapping', v, am, k.t, lambda p: z3.Not(bp.has(p)))

    def bad():
        c = ctx()
        A, *_ = made(mod, 'left', Str())
        x = c.choose([None, 5, 'text', {}, object()])
        kind, r = outcome(lambda: A + x if op == '+' else A - x)
        c.prove(f'{what}: refuses anything else', kind == 'exc' and isinstance(r, TypeError), repr(r))
    run.explore(what, h)
    run.explore(f'{what}: not a package', bad)
    n = {'+': '__add__', '-': '__sub__'}[op]
    run.covers(f'jsonld.package:JsonLdPackage.{n}')


class Str(str):
    """a namespace of a package"""

    def __new__(cls):
        return str.__new__(cls, 'https://p.example/')


# ------------------------------------------------------------------ construction
class Links:
    """which property is linked to which class"""

    def __init__(self, obs):
        self.obs = obs
        self.store = Store('links', on=lambda c, p: z3.BoolVal(False))

    def put(self, cls, n, v):
        c = ctx()
        if not isinstance(v, property):
            raise Unsupported('an attribute of a clone')
        parts = [v.fget, v.fset, v.fdel]
        ok = all(isinstance(x, Part) and x.what == w and x.of is parts[0].of
                 for x, w in zip(parts, ('get', 'set', 'delete')))
        c.prove('a linked property has the accessors registered for it', ok)
        if not ok:
            raise Unsupported('other accessors')
        p = parts[0].of
        c.prove('a property is linked under its own name', n.t == NAME(p.t) if isinstance(
            n, PvxKey) else False, repr(n))
        c.prove('properties are linked to classes of the package, and are its clones',
                z3.And(z3.BoolVal(cls.fam == 'cloned classes'), z3.BoolVal(p.fam == 'cloned properties')),
                repr((cls, p)))
        self.store.set_key('on', cls.t, p.t, z3.BoolVal(True))


def prefix(m, k, p, t):
    """p is among the first t listed for k"""
    return z3.And(m.listed(k, p), m.first(k, p) < t)


class Inner(Rule):
    """linking the properties of one class"""

    def __init__(self, w, k):
        self.w, self.k = w, k

    def init(self, env):
        self.on0 = self.w.links.store.f['on']

    def state(self, t):
        m, on0, k = self.w.m, self.on0, self.k
        return lambda c, p: z3.Or(on0(c, p), z3.And(c == k, prefix(m, k, p, t)))

    def havoc(self, env):
        c = ctx()
        self.t = c.fresh('linked_so_far', I)
        c.assume(z3.And(self.t >= 0, self.t <= self.w.m.n(self.k)))
        self.w.links.store.replace('on', self.state(self.t))
        j = z3.Const('ij', I)
        m = self.w.m
        c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.t), self.w.known_property(
            m.p(self.k, j))), patterns=[m.p(self.k, j)]))
        return {}

    def iterate(self, env):
        c = ctx()
        c.assume(self.t < self.w.m.n(self.k))
        self.w.now = self.w.m.p(self.k, self.t)
        return PvxKey(self.w.now)

    def preserved(self, env):
        c = ctx()
        x, p = c.fresh('anyclass', Key), c.fresh('anyproperty', Key)
        c.prove('linking one property more links just that', self.w.links.store.f['on'](x, p)
                == self.state(self.t + 1)(x, p))
        c.prove('a property that is linked is one of the package', self.w.known_property(
            self.w.m.p(self.k, self.t)))

    def finish(self, env):
        ctx().assume(self.t == self.w.m.n(self.k))
        return {}


class Outer(Rule):
    """linking the properties of the classes of the mapping"""

    def __init__(self, w):
        self.w = w

    def init(self, env):
        self.on0 = self.w.links.store.f['on']

    def state(self, done):
        m, on0 = self.w.m, self.on0
        return lambda c, p: z3.Or(on0(c, p), z3.And(done(c), m.listed(c, p)))

    def havoc(self, env):
        c = ctx()
        d = self.d = c.func('classes done', Key, B)
        m, w = self.w.m, self.w
        k, j = z3.Const('ok', Key), z3.Const('oj', I)
        c.assume(z3.ForAll([k], z3.Implies(d(k), z3.And(m.has(k), w.known_class(k))), patterns=[d(k)]))
        c.assume(z3.ForAll([k, j], z3.Implies(z3.And(d(k), j >= 0, j < m.n(k)), w.known_property(
            m.p(k, j))), patterns=[m.p(k, j)]))
        w.links.store.replace('on', self.state(lambda x: d(x)))
        return {}

    def iterate(self, env):
        c = ctx()
        self.k = c.fresh('class', Key)
        c.assume(z3.And(self.w.m.has(self.k), z3.Not(self.d(self.k))))
        self.w.k, self.w.now = self.k, None
        return (PvxKey(self.k), Names(self.w.m, self.k))

    def preserved(self, env):
        c = ctx()
        x, p, j = c.fresh('anyclass', Key), c.fresh('anyproperty', Key), c.fresh('anyindex', I)
        c.prove('linking one class more links just what is listed for it', self.w.links.store.f['on'](x, p)
                == self.state(lambda q: z3.Or(self.d(q), q == self.k))(x, p))
        m = self.w.m
        c.prove('a class that is linked is one of the package', self.w.known_class(self.k))
        c.prove('the properties listed are of the package', z3.Implies(
            z3.And(j >= 0, j < m.n(self.k)), self.w.known_property(m.p(self.k, j))))

    def finish(self, env):
        k = z3.Const('ak', Key)
        ctx().assume(z3.ForAll([k], self.d(k) == self.w.m.has(k), patterns=[self.w.m.has(k)]))
        ctx().assume(z3.ForAll([k], self.d(k) == self.w.m.has(k), patterns=[self.d(k)]))
        return {}


class World:
    pass


def construction(run):
    mod = load()

    def h():
        c = ctx()
        w = World()
        w.k = w.now = None
        obs, props = Classes('classes'), Classes('properties')
        k = z3.Const('ok', Key)
        for pat in (obs.has(k), props.has(k)):
            c.assume(z3.ForAll([k], z3.Not(z3.And(obs.has(k), props.has(k))), patterns=[pat]))
        c.assume(z3.ForAll([k], UNNAME(NAME(k)) == k, patterns=[NAME(k)]))
        w.links = Links(obs)
        clones = {}
        for x in (obs, props):
            y = Classes('cloned ' + x.fam, w.links, x.n)
            c.assume(z3.ForAll([k], y.has(k) == x.has(k), patterns=[x.has(k)]))
            c.assume(z3.ForAll([k], y.has(k) == x.has(k), patterns=[y.has(k)]))
            clones[x.fam] = y
        w.known_class = lambda t: z3.Or(obs.has(t), props.has(t))
        w.known_property = w.known_class
        m = w.m = Mapped('mapping')
        # what is listed: properties, for classes
        p, j = z3.Const('lp', Key), z3.Const('lj', I)
        c.assume(z3.ForAll([k], z3.Implies(m.has(k), z3.Not(props.has(k))), patterns=[m.has(k)]))
        c.assume(z3.ForAll([k, j], z3.Implies(z3.And(j >= 0, j < m.n(k)), z3.Not(
            obs.has(m.p(k, j)))), patterns=[m.p(k, j)]))

        given_o, given_p = obs.seq(), props.seq()

        def clone(self, classes):
            for s, x in ((given_o, obs), (given_p, props)):
                if classes is s:
                    y = clones[x.fam]
                    return PvxDict(PvxSeq(x.n, lambda i: (x.cls(y.ns(i)), y.cls(y.ns(i))),
                                          label='clones', injective=True), True)
            raise Unsupported('other classes are cloned')
        c.hooks[mod.JsonLdPackage.clone_classes] = clone

        def rules(seq, key):
            if isinstance(seq, Names):
                return Inner(w, seq.k)
            if isinstance(seq, PvxSeq) and seq.label == 'mapping' and seq.sort == Key:
                return Outer(w)
            return None
        c.hooks['rules'] = [rules]
        ns = Str()
        how = c.choose(['mapping', 'none'])
        kind, r = outcome(lambda: mod.JsonLdPackage(ns, given_o, given_p, *(
            [m.dict()] if how == 'mapping' else [])))
        if kind == 'exc':
            c.prove('construction: fails only for what the mapping names and the package lacks',
                    z3.And(z3.BoolVal(isinstance(r, ValueError)), m.has(w.k), z3.Or(
                        z3.Not(w.known_class(w.k)), z3.Not(w.known_property(w.now))
                        if w.now is not None else z3.BoolVal(False))) if w.k is not None else False, repr(r))
            return
        x, p = c.fresh('anyclass', Key), c.fresh('anyproperty', Key)
        if how == 'mapping':
            c.prove('construction: the properties linked to a class are those listed for it',
                    w.links.store.f['on'](x, p) == z3.And(m.has(x), m.listed(x, p)))
            c.prove('construction: everything the mapping names is of the package', z3.Implies(
                z3.And(m.has(x), m.listed(x, p)), z3.And(obs.has(x), props.has(p))))
        else:
            c.prove('construction: the properties linked to a class are those listed for it',
                    z3.Not(w.links.store.f['on'](x, p)))
        c.prove('construction: its namespace', r.namespace is ns)
        q = key('asked')
        found = r[q]
        if found is None:
            c.prove('an unknown namespace is None', z3.Not(z3.Or(obs.has(q.t), props.has(q.t))))
        else:
            c.prove('a namespace is its clone', z3.And(found.t == q.t, z3.If(
                obs.has(q.t), z3.BoolVal(found.fam == 'cloned classes'), z3.And(
                    props.has(q.t), z3.BoolVal(found.fam == 'cloned properties'))))
                if isinstance(found, Cls) else False, repr(found))
        q2 = key('asked too')
        both = r[(q, q2)]
        c.prove('several namespaces: one for each', isinstance(both, list) and len(both) == 2, repr(both))
        for a, b in zip(both, (q, q2)):
            if a is None:
                c.prove('several namespaces: an unknown one is None', z3.Not(z3.Or(
                    obs.has(b.t), props.has(b.t))))
            else:
                c.prove('several namespaces: their clones', a.t == b.t if isinstance(a, Cls) else False)
        for part, x in (('objects', obs), ('properties', props)):
            if c.choose([True, False]):
                same_classes(f'construction: {part}', getattr(r, part), [
                    (clones[x.fam], lambda k: z3.BoolVal(True))])

    def bad():
        c = ctx()
        x = c.choose([None, 5, b'x', {}, object()])
        kind, r = outcome(lambda: mod.JsonLdPackage(x))
        c.prove('construction: a namespace has to be text', kind == 'exc' and isinstance(r, TypeError))
        p, obs, props, m = made(mod, 'one', Str())
        kind, r = outcome(lambda: setattr(p, 'namespace', 'https://other.example'))
        c.prove('the namespace of a package stays', kind == 'exc' and isinstance(r, AttributeError))
        y = c.choose([None, 5, object()])
        kind, r = outcome(lambda: p[y])
        c.prove('only text is a namespace', kind == 'exc')
    run.explore('JsonLdPackage', h)
    run.explore('JsonLdPackage: what is refused', bad)
    run.covers(*[f'jsonld.package:JsonLdPackage.{n}' for n in (
        '__init__', '__getitem__', 'link_property', 'link_properties', '_JsonLdPackage__perform_mapping',
        'namespace', 'objects', 'properties')])



# ------------------------------------------------------------------ objects that are handed out
class Known:
    """the classes of a package and their clones; `given` is one of them or not"""

    def __init__(self, given, clone, known):
        self.given, self.clone, self.known = given, clone, known

    def __contains__(self, k):
        return k is self.given and ctx().branch(self.known)

    def keys(self):
        return self

    def get(self, k, *d):
        if k in self:
            return self.clone
        return d[0] if d else None

    def __getitem__(self, k):
        if k in self:
            return self.clone
        raise KeyError('class')


class Handed(Pvx):
    """an object that is handed out"""

    def __init__(self, cls, log, named=None):
        d = self.__dict__
        d['cls'], d['log'], d['named'], d['inside'] = cls, log, named, []

    @property
    def __class__(self):
        return self.cls

    @__class__.setter
    def __class__(self, v):
        self.log.append(('class', v))
        self.__dict__['cls'] = v

    def pvx_type(self):
        return self.cls

    def pvx_is(self, o):
        return self is o

    def __bool__(self):
        raise Unsupported('truth of an object')

    @contextmanager
    def switch_context(self, context):
        self.log.append(('enter', self, context))
        self.inside.append(context)
        try:
            yield context
        finally:
            self.inside.pop()
            self.log.append(('leave', self, context))

    def __getattr__(self, n):
        if n.startswith('pvx_') or n == '__wrapped__':
            raise AttributeError(n)
        raise Unsupported(f'{n} of an object')


class Boom(Exception):
    pass


class Meta(Pvx):
    """a class, original or clone"""

    def __init__(self, name):
        self.name = name

    def pvx_is(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return f'<{self.name}>'


def handing_out(run):
    logging.disable(logging.CRITICAL)
    mod = Loader(bare=BARE_LD).load('jsonld.kamino')
    utils_context = mod.CLASS_CHANGE_CONTEXT
    cloner = mod.ClassCloner

    def situation(c):
        log = []
        orig, clone = Meta('original'), Meta('clone')
        known = c.fresh('of_the_package', B)
        pkg = cloner.__new__(cloner)
        pkg.object_ref = Known(orig, clone, known)
        what = c.choose(['object', None, 5, 'text', (1, 2)])
        v = Handed(orig, log) if what == 'object' else what
        raises = c.choose([False, True]) if what == 'object' else False
        changed = object()

        def change(*args, **kw):
            log.append(('change', args[-2:], kw))
            c.prove('the object is changed in the context for that', v.inside == [utils_context])
            return changed
        c.hooks[cloner.change_class] = change

        def give(*a, **k):
            log.append(('called', a, k))
            if raises:
                raise contract_error(Boom('the method'))
            return v
        return log, known, pkg, v, raises, changed, give, clone

    def judge(what, c, log, known, v, raises, changed, clone, kind, r, args, kw=None):
        calls = [e for e in log if e[0] == 'called']
        ok = len(calls) == 1 and len(calls[0][1]) == len(args) and all(
            a is b for a, b in zip(calls[0][1], args)) and calls[0][2] == (kw or {})
        c.prove(f'{what}: is called once, with what was given', ok, repr(calls))
        rest = [e for e in log if e[0] != 'called']
        if raises:
            c.prove(f'{what}: its failure is passed on', kind == 'exc' and isinstance(r, Boom)
                    and not rest, repr(r))
            return
        if isinstance(v, Handed) and c.branch(known):
            c.prove(f'{what}: an object of the package becomes one of its clone', kind == 'ok'
                    and r is changed and [e[0] for e in rest] == ['enter', 'change', 'leave']
                    and rest[1][1][0] is v and rest[1][1][1] is clone, repr((r, rest)))
        else:
            c.prove(f'{what}: anything else is handed out as it is', kind == 'ok' and r is v
                    and not rest, repr((r, rest)))

    def methods():
        c = ctx()
        log, known, pkg, v, raises, changed, give, clone = situation(c)

        class Inner:
            pass

        class Giver:
            def __call__(self, *a, **k):
                return give(*a, **k)

        class K:
            inner = Inner
            text = 'text'
            number = 5
            giver = Giver()

            def method(self, *a, **k):
                return give(self, *a, **k)

            @staticmethod
            def static(*a, **k):
                return give(*a, **k)

            @property
            def prop(self):
                return give(self)

            @classmethod
            def ofclass(cls):
                return cls
        prop = K.__dict__['prop']
        cloner.wrap_callables(pkg, K)
        k = K()
        a, b = object(), object()
        which = c.choose(['method', 'static', 'giver', 'attributes'])
        if which == 'attributes':
            c.prove('a class: what is not called stays', K.text == 'text' and K.number == 5
                    and K.inner is Inner and isinstance(K.inner(), Inner) and K.__dict__['prop'] is prop
                    and K.ofclass() is K and k.ofclass() is K)
            return
        kind, r = outcome(lambda: getattr(k, which)(a, name=b))
        judge({'method': 'a method', 'static': 'a static method', 'giver': 'a callable attribute'}[which],
              c, log, known, v, raises, changed, clone, kind, r,
              (k, a) if which == 'method' else (a,), {'name': b})

    def properties():
        c = ctx()
        log, known, pkg, v, raises, changed, give, clone = situation(c)
        removed = []

        def getter(self):
            return give(self)

        def setter(self, value):
            log.append(('set', self, value))

        def deleter(self):
            removed.append(self)
        how = c.choose(['property', 'registered', 'no property'])

        class K:
            if how == 'property':
                @classmethod
                def __get_properties__(cls, refresh=False):
                    return ('prop',)
            elif how == 'registered':
                @classmethod
                def __get_property_name__(cls):
                    return 'prop'
            prop = property(getter, setter, deleter, 'the doc')
            other = 7
        before = K.__dict__['prop']
        cloner.wrap_properties(pkg, K)
        k = K()
        p = K.__dict__['prop']
        c.prove('a property: stays a property, with its text and its deletion', isinstance(p, property)
                and p.__doc__ == 'the doc' and p.fdel is deleter and K.other == 7, repr(p))
        if how == 'no property':
            c.prove('a property: that is not listed stays', p is before)
            return
        if c.choose(['get', 'set']) == 'set':
            x = object()
            kind, r = outcome(lambda: setattr(k, 'prop', x))
            c.prove('a property: is set to what is given', kind == 'ok' and log == [('set', k, x)], repr(log))
            return
        kind, r = outcome(lambda: k.prop)
        judge('a property', c, log, known, v, raises, changed, clone, kind, r, (k,))

    def names(name):
        has = ctx().func(name + '.has', Key, B)
        return has, PvxSeq(None, lambda k: PvxKey(k), keep=lambda k: has(k), label=name, sort=Key,
                           injective=True)

    def change():
        c = ctx()
        c.hooks['names'] = True
        space = kt('__namespace__')
        ohas, olist = names('properties of the object')
        nhas, nlist = names('properties of the class')
        log = []
        fails = c.func('cannot be set', Key, B)
        there = c.func('has a value', Key, B)
        value = c.func('value', Key, Val)
        new_listing = object()
        store = Store('attributes', set=lambda j: z3.BoolVal(False), value=lambda j: value(j))
        own_o, own_n = c.choose([True, False]), c.choose([True, False])

        class NewClass(Meta):
            def pvx_getattr(self, n, *d):
                if n == '__properties__':
                    if own_n:
                        return nlist
                    if d:
                        return d[0]
                    raise AttributeError(n)
                raise Unsupported(f'{n} of a class')
        new = NewClass('clone')

        class Obj(Handed):
            def pvx_getattr(self, n, *d):
                if isinstance(n, str) and n == '__properties__':
                    if own_o:
                        return olist
                    if d:
                        return d[0]
                    raise AttributeError(n)
                k = kt(n)
                c.prove('a change of class: values are read before it', not log)
                if c.branch(there(k)):
                    return PvxVal(value(k))
                if d:
                    return d[0]
                raise contract_error(AttributeError('name'))

            def pvx_setattr(self, n, v):
                k = kt(n)
                c.prove('a change of class: values are set on the object of the new class',
                        self.cls is new)
                c.prove('a change of class: leaves the namespace of the class alone', k != space)
                if c.branch(fails(k)):
                    raise contract_error(AttributeError('name'))
                store.set('set', k, lambda: z3.BoolVal(True))
                if isinstance(v, PvxVal):
                    store.set('value', k, lambda: v.t)
                else:
                    c.prove('a change of class: no value is made up', v is None and z3.Not(there(k)))

            def __get_properties__(self, refresh=False):
                log.append(('listing', self.cls, refresh))
                return new_listing
        obj = Obj(Meta('original'), log)

        def logged(*a, **k):
            pass
        pkg = cloner.__new__(cloner)
        pkg.logger = logging.getLogger('contract')
        kind, r = outcome(lambda: cloner.change_class(pkg, obj, new))
        c.prove('a change of class: gives the object back', kind == 'ok' and r is obj, repr(r))
        if kind != 'ok':
            return
        c.prove('a change of class: its class is the one asked for', obj.cls is new
                and ('class', new) in log)
        p = obj.__dict__.get('__properties__')
        c.prove('a change of class: its properties are listed anew', p is None or p is new_listing
                and ('listing', new, True) in log, repr(log))
        k = c.fresh('any', Key)
        k0 = [(ohas, own_o), (nhas, own_n)]
        listed = z3.Or(*[h(k) for h, own in k0 if own] + [z3.BoolVal(False)])
        c.prove('a change of class: every property keeps its value', store.f['value'](k) == value(k))
        c.prove('a change of class: every property is set', z3.Implies(z3.And(
            listed, z3.Not(fails(k)), there(k), k != space), store.f['set'](k)))
        c.prove('a change of class: nothing else is set', z3.Implies(store.f['set'](k), listed))
    run.explore('wrap_callables', methods)
    run.explore('wrap_properties', properties)
    run.explore('change_class', change)
    run.covers(*[f'jsonld.kamino:ClassCloner.{n}' for n in (
        'change_class', 'wrap_callables', 'wrap_properties')])


del kle, val, equal

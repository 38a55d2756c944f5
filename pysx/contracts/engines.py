"""jsonld/engine/jsonld_engine.py: what an engine is made of, and engines put
together.

A package is known by which packages it is the sum of, in order (that `+` on
packages keeps all namespaces and the right one wins is decided in packages.py;
sums of sums are the same whichever is made first). Engines have any number of
packages, and their packages any number of classes with namespaces and names of
their own."""
import logging

import z3

from pysx.core import B, I, Key, Unsupported, ctx
from pysx.contracts.common import key, outcome
from pysx.contracts.contexts import BARE_LD
from pysx.contracts.packages import Classes, Cls
from pysx.hooks import _pvx_call, as_seq
from pysx.loops import Rule
from pysx.seq import PvxDict, PvxSeq, Store
from pysx.sym import Pvx, PvxKey, isa, kt
from pysx.transform import Loader

CNAME = z3.Function('class_name', Key, Key)
CNAMED = z3.Function('class_of_name', Key, Key)


def load():
    logging.disable(logging.CRITICAL)
    L = Loader(bare=BARE_LD)
    mod = L.load('jsonld.engine.jsonld_engine')
    return mod, mod.JsonLdPackage


class Pack(Pvx):
    """the sum of packages: segs lists (family, from, to)"""

    def __init__(self, P, segs, world=None):
        self.P, self.segs, self.world = P, segs, world

    def pvx_isinstance(self, cls):
        return isa(self.P, cls)

    def pvx_same(self, o):
        if not isinstance(o, Pack) or len(o.segs) != len(self.segs):
            return z3.BoolVal(False)
        return z3.And(*[z3.And(z3.BoolVal(a[0] == b[0]), a[1] == b[1], a[2] == b[2])
                        for a, b in zip(self.segs, o.segs)])

    def pvx_reindex(self, j, i):
        return Pack(self.P, [(f, z3.substitute(a, (j, i)), z3.substitute(b, (j, i)))
                             for f, a, b in self.segs], self.world)

    def __bool__(self):
        return True

    def __hash__(self):
        return 0

    def __add__(self, o):
        if not isinstance(o, Pack):
            raise Unsupported('package + something else')
        f, a, b = self.segs[-1]
        g, x, y = o.segs[0]
        if f == g and ctx().branch(b == x):
            return Pack(self.P, self.segs[:-1] + [(f, a, y)] + o.segs[1:], self.world)
        return Pack(self.P, self.segs + o.segs, self.world)

    def __sub__(self, o):
        if not isinstance(o, Pack):
            raise Unsupported('package - something else')
        return Less(self.P, self, o)

    def __getattr__(self, n):
        if n == 'objects' and self.world is not None:
            w = self.world
            if len(self.segs) != 1 or not ctx().branch(z3.And(
                    self.segs[0][1] == 0, self.segs[0][2] == w.n)):
                raise Unsupported('the classes of some of the packages')
            return w.classes.seq()
        if n.startswith('pvx_') or n == '__wrapped__':
            raise AttributeError(n)
        raise Unsupported(f'{n} of a package')

    def __repr__(self):
        return f'<sum of {self.segs}>'


class Less(Pvx):
    """one package without the namespaces of another"""

    def __init__(self, P, left, right):
        self.P, self.left, self.right = P, left, right

    def pvx_isinstance(self, cls):
        return isa(self.P, cls)

    def __bool__(self):
        return True


def all_of(P, fam, n, world=None):
    return Pack(P, [(fam, z3.IntVal(0), n)], world)


def packages(P, fam, n, world=None):
    return PvxSeq(n, lambda j: Pack(P, [(fam, j, j + 1)], world), label=fam, injective=True)


def engine(mod, P, fam):
    e = object.__new__(mod.JsonLdEngine)
    n = ctx().fresh(fam + '_n', I)
    ctx().assume(n >= 1)
    e.___packages___ = packages(P, fam, n)
    e.package = all_of(P, fam, n)
    return e, n


def is_sum(what, got, wanted):
    """the packages given are, one after the other, the sum of what is wanted"""
    c = ctx()
    if isinstance(got, Pack):
        got = (got,)
    if isinstance(got, (list, tuple)):
        if not all(isinstance(x, Pack) for x in got):
            raise Unsupported('other packages')
        s = got[0]
        for x in got[1:]:
            s = s + x
        c.prove(what, s.pvx_same(Pack(s.P, wanted)), repr(s))
        return
    s = as_seq(got)
    if not isinstance(s, PvxSeq) or s.keep is not None:
        raise Unsupported('other packages')
    c.prove(f'{what}: as many', s.n == sum([b - a for _, a, b in wanted], z3.IntVal(0)))
    j = c.fresh('one of them', I)
    c.assume(z3.And(j >= 0, j < s.n))
    x = s.elem(j)
    before = z3.IntVal(0)
    for f, a, b in wanted:
        if c.branch(z3.And(j >= before, j < before + b - a)):
            i = a + j - before
            c.prove(f'{what}: in order', x.pvx_same(Pack(x.P, [(f, i, i + 1)])) if isinstance(
                x, Pack) else False, repr(x))
            return
        before = before + b - a


def combining(run, op):
    """engine + package, engine + engine, and the same with -"""
    mod, P = load()
    what = f'engine {op}'

    def h():
        c = ctx()
        A, n = engine(mod, P, 'left')
        kindof = c.choose(['package', 'engine'])
        if kindof == 'package':
            m = z3.IntVal(1)
            other = Pack(P, [('right', z3.IntVal(0), m)])
        else:
            other, m = engine(mod, P, 'right')
        got, result = [], object()

        def ctor(packages):
            got.append(packages)
            return result
        c.hooks[mod.JsonLdEngine] = ctor
        mark = len(c.mutlog)
        kind, r = outcome(lambda: A + other if op == '+' else A - other)
        c.prove(f'{what} {kindof}: makes one engine', kind == 'ok' and r is result and len(got) == 1,
                repr(r))
        if kind != 'ok' or len(got) != 1:
            return
        c.prove(f'{what} {kindof}: neither is changed', not [
            w for w, _ in c.changes(mark) if isinstance(w, tuple) and w[0] == 'setattr'
            and w[1] in (A, other)])
        left, right = ('left', z3.IntVal(0), n), ('right', z3.IntVal(0), m)
        if op == '+':
            is_sum(f'{what} {kindof}: of the packages of both, the right ones last', got[0], [left, right])
        else:
            g = got[0]
            if isinstance(g, (tuple, list)) and len(g) == 1:
                g = g[0]
            if not isinstance(g, Less):
                raise Unsupported('other packages')
            c.prove(f'{what} {kindof}: of what the left one has', g.left.pvx_same(Pack(P, [left])))
            c.prove(f'{what} {kindof}: without what the right one has', g.right.pvx_same(Pack(P, [right])))

    def bad():
        c = ctx()
        A, n = engine(mod, P, 'left')
        x = c.choose([None, 5, 'text', {}, (), object()])
        kind, r = outcome(lambda: A + x if op == '+' else A - x)
        c.prove(f'{what}: refuses anything else', kind == 'exc' and isinstance(r, TypeError), repr(r))
    run.explore(f'{what} package, {what} engine', h)
    run.explore(f'{what} anything else', bad)
    n = {'+': '__add__', '-': '__sub__'}[op]
    run.covers(f'jsonld.engine.jsonld_engine:JsonLdEngine.{n}',
               'jsonld.engine.jsonld_engine:JsonLdEngine.packages')


# ------------------------------------------------------------------ making one
class Fold(Rule):
    """adding up packages: whatever is a sum up to where the loop starts is, after
    t iterations, the sum of t more"""

    def __init__(self, seq, eng):
        self.seq, self.eng = seq, eng

    def init(self, env):
        c = ctx()
        if self.seq.keep is not None:
            raise Unsupported('some of the packages')
        self.start = self.seq.elem(z3.IntVal(0)).segs[0][1]
        self.where = [('var', n) for n, v in env.items() if isinstance(v, Pack)] + [
            ('attr', n) for n, v in vars(self.eng).items() if isinstance(v, Pack)]
        self.was = {}
        for w in self.where:
            v = env[w[1]] if w[0] == 'var' else vars(self.eng)[w[1]]
            if len(v.segs) != 1 or not c.branch(v.segs[0][2] == self.start):
                raise Unsupported('a sum of other packages')
            self.was[w] = v

    def upto(self, w, t):
        f, a, b = self.was[w].segs[0]
        return Pack(self.was[w].P, [(f, a, b + t)], self.was[w].world)

    def put(self, t):
        env = {}
        for w in self.where:
            if w[0] == 'var':
                env[w[1]] = self.upto(w, t)
            else:
                vars(self.eng)[w[1]] = self.upto(w, t)
        return env

    def havoc(self, env):
        c = ctx()
        self.t = c.fresh('added', I)
        c.assume(z3.And(self.t >= 0, self.t <= self.seq.n))
        return self.put(self.t)

    def iterate(self, env):
        ctx().assume(self.t < self.seq.n)
        return self.seq.elem(self.t)

    def preserved(self, env):
        c = ctx()
        for w in self.where:
            v = env.get(w[1]) if w[0] == 'var' else vars(self.eng).get(w[1])
            if not isinstance(v, Pack):
                raise Unsupported('something else than a sum')
            if w[0] == 'var' and v is self.upto(w, self.t):
                continue
            c.prove('adding up packages: each iteration adds the next one', v.pvx_same(
                self.upto(w, self.t + 1)), repr(v))

    def finish(self, env):
        ctx().assume(self.t == self.seq.n)
        return {}


class Registry(Pvx):
    """what is registered: a class under a name"""

    def __init__(self):
        self.store = Store('registry', has=lambda k: z3.BoolVal(False), cid=lambda k: k)

    def has(self, k):
        return self.store.f['has'](k)

    def pvx_isinstance(self, cls):
        return issubclass(dict, cls)

    def pvx_contains(self, k):
        return self.has(kt(k))

    def __contains__(self, k):
        return bool(ctx().branch(self.has(kt(k))))

    def keys(self):
        return self

    def update(self, d=(), **kw):
        for k, v in dict(d).items():
            self[k] = v

    def __setitem__(self, k, v):
        if not isinstance(v, Cls):
            raise Unsupported('something registered that is no class')
        old_h, old_c, k = self.store.f['has'], self.store.f['cid'], kt(k)
        self.store.replace('has', lambda x: z3.Or(x == k, old_h(x)))
        self.store.replace('cid', lambda x: z3.If(x == k, v.t, old_c(x)))

    def setdefault(self, k, v):
        if k not in self:
            self[k] = v
        return Cls('classes', self.store.f['cid'](kt(k)), self.world)

    def items(self):
        return PvxDict(PvxSeq(None, lambda k: (PvxKey(k), Cls('classes', self.store.f['cid'](k),
                                                              self.world)),
                              keep=lambda k: self.has(k), label='registered', sort=Key,
                              injective=True), True).items()

    def values(self):
        return PvxDict(PvxSeq(None, lambda k: (PvxKey(k), Cls('classes', self.store.f['cid'](k),
                                                              self.world)),
                              keep=lambda k: self.has(k), label='registered', sort=Key,
                              injective=True), True).values()

    def pvx_is(self, o):
        return self is o


class World:
    """the classes: what is set on them"""

    def __init__(self):
        self.bound = Store('bound', to=lambda k: z3.BoolVal(False))
        self.eng = None

    def put(self, cls, n, v):
        if n != '__jsonld_engine__':
            raise Unsupported(f'{n} of a class is set')
        ctx().prove('a class is given its engine', v is self.eng)
        old = self.bound.f['to']
        self.bound.replace('to', lambda k: z3.Or(k == cls.t, old(k)))


class Named(Cls):
    @property
    def __name__(self):
        return PvxKey(CNAME(self.t))


class Filling(Rule):
    """registering classes, or naming them on the engine: what is done depends
    only on which classes have been through"""

    def __init__(self, w, what, has, state, make):
        self.w, self.what, self.member, self.state, self.make = w, what, has, state, make

    def init(self, env):
        x = ctx().fresh('any', Key)
        for n, got, want in self.state(lambda k: z3.BoolVal(False), x):
            ctx().prove(f'{self.what}: nothing is done to begin with: {n}', got == want)

    def havoc(self, env):
        c = ctx()
        d = self.d = c.func(f'{self.what} done', Key, B)
        k = z3.Const('fk', Key)
        c.assume(z3.ForAll([k], z3.Implies(d(k), self.member(k)), patterns=[d(k)]))
        self.w.become(self.what, d)
        return {}

    def iterate(self, env):
        c = ctx()
        self.k = c.fresh('class', Key)
        c.assume(z3.And(self.member(self.k), z3.Not(self.d(self.k))))
        return self.make(self.k)

    def preserved(self, env):
        c = ctx()
        x = c.fresh('any', Key)
        for n, got, want in self.state(lambda k: z3.Or(self.d(k), k == self.k), x):
            c.prove(f'{self.what}: one more does just that: {n}', got == want)

    def finish(self, env):
        k = z3.Const('fk', Key)
        for p in (self.d(k), self.member(k)):
            ctx().assume(z3.ForAll([k], self.d(k) == self.member(k), patterns=[p]))
        return {}


def construction(run):
    mod, P = load()
    name = 'engine'

    def h():
        c = ctx()
        c.hooks['names'] = True
        w = World()
        how = c.choose(['one', 'several'])
        w.n = z3.IntVal(1) if how == 'one' else c.fresh('packages', I)
        c.assume(w.n >= 0)
        w.classes = Classes('classes', w)
        w.classes.cls = lambda t: Named('classes', t, w)
        k = z3.Const('nk', Key)
        c.assume(z3.ForAll([k], CNAMED(CNAME(k)) == k, patterns=[CNAME(k)]))
        # attributes named after classes
        attrs = Store('attributes', has=lambda n: z3.BoolVal(False), cid=lambda n: n)
        reg = Registry()
        reg.world = w
        reg.cls = w.classes.cls

        class E(mod.JsonLdEngine):
            def pvx_hasattr(self, n):
                if isinstance(n, PvxKey):
                    return c.branch(attrs.f['has'](n.t)) or c.branch(c.fresh('own attribute', B))
                return hasattr(self, n)

            def pvx_setattr(self, n, v):
                if not isinstance(n, PvxKey):
                    return setattr(self, n, v)
                if not isinstance(v, Cls):
                    raise Unsupported('an attribute')
                oh, oc = attrs.f['has'], attrs.f['cid']
                attrs.replace('has', lambda x: z3.Or(x == n.t, oh(x)))
                attrs.replace('cid', lambda x: z3.If(x == n.t, v.t, oc(x)))
        eng = w.eng = object.__new__(E)
        eng.___class_registry___ = reg
        seq = packages(P, 'given', w.n, w)

        def regstate(done, x):
            return [('registered', reg.has(x), done(x)),
                    ('under its own namespace', z3.Implies(reg.has(x), reg.store.f['cid'](x) == x),
                     z3.BoolVal(True)),
                    ('bound', w.bound.f['to'](x), done(x))]

        def attrstate(done, n):
            return [('named', attrs.f['has'](n), z3.And(done(CNAMED(n)), CNAME(CNAMED(n)) == n)),
                    ('under its own name', z3.Implies(attrs.f['has'](n), attrs.f['cid'](n) == CNAMED(n)),
                     z3.BoolVal(True))]

        def become(what, d):
            if what == 'registering':
                reg.store.replace('has', lambda x: d(x))
                reg.store.replace('cid', lambda x: x)
                w.bound.replace('to', lambda x: d(x))
            else:
                attrs.replace('has', lambda n: z3.And(d(CNAMED(n)), CNAME(CNAMED(n)) == n))
                attrs.replace('cid', lambda n: CNAMED(n))
        w.become = become

        def rules(s, key):
            if not isinstance(s, PvxSeq):
                return None
            if s.label == 'classes':
                return Filling(w, 'registering', w.classes.has, regstate, w.classes.cls)
            if s.label == 'registered':
                pair = isinstance(s.elem(z3.Const('probe', Key)), tuple)
                cid = reg.store.f['cid']
                has = reg.store.f['has']
                return Filling(w, 'naming', lambda k: has(k), attrstate, lambda k: (
                    PvxKey(k), w.classes.cls(cid(k))) if pair else w.classes.cls(cid(k)))
            try:
                first = s.elem(z3.IntVal(0)) if s.sort == I else None
            except Exception:
                first = None
            if isinstance(first, Pack):
                return Fold(s, eng)
            return None
        c.hooks['rules'] = [rules]
        given = seq if how == 'several' else Pack(P, [('given', z3.IntVal(0), z3.IntVal(1))], w)
        kind, r = outcome(lambda: _pvx_call(mod.JsonLdEngine.__init__, eng, given))
        if c.branch(w.n == 0):
            c.prove(f'{name}: none without packages', kind == 'exc' and isinstance(r, ValueError), repr(r))
            return
        c.prove(f'{name}: can be made', kind == 'ok', repr(r))
        if kind != 'ok':
            return
        whole = Pack(P, [('given', z3.IntVal(0), w.n)])
        c.prove(f'{name}: its package is the sum of those given', eng.package.pvx_same(whole) if isinstance(
            eng.package, Pack) else False, repr(eng.package))
        is_sum(f'{name}: its packages are those given', eng.packages, whole.segs)
        x = c.fresh('asked', Key)
        c.prove(f'{name}: knows the types of its packages, and no others', reg.has(x) == w.classes.has(x))
        c.prove(f'{name}: a type is its class', z3.Implies(reg.has(x), reg.store.f['cid'](x) == x))
        c.prove(f'{name}: the classes know their engine', z3.Implies(w.classes.has(x), w.bound.f['to'](x)))
        n = CNAME(x)
        c.prove(f'{name}: a class is an attribute under its name', z3.Implies(w.classes.has(x), z3.And(
            attrs.f['has'](n), attrs.f['cid'](n) == x)))
    run.explore('JsonLdEngine', h)
    run.covers(*[f'jsonld.engine.jsonld_engine:JsonLdEngine.{n}' for n in (
        '__init__', '_JsonLdEngine__load_objects', 'register_class', 'packages')])


del key

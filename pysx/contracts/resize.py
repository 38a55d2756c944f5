"""Container.resize and Container.condense.

Ghost: W(k), the group that id k was read from to begin with (the first one
that holds it), or none. Invariant, at the head of every loop over groups and
over the ids of a group, for every id k:

  A  no group holds k if there was no W(k)
  B  otherwise the primary holds k with W(k)'s object, or the primary does not
     hold it, W(k) still holds its object, and no group before W(k) holds k
  C  the groups already merged hold nothing the primary does not hold, and
     nothing at all if they are to be emptied
  D  all groups not yet merged, other than the primary, are as they were

so that Container.read(k), which is run for real at every commit and at the
end, returns what it returned before.
"""
import z3

from pysx import hooks, maps
from pysx.core import B, I, Key, Unsupported, Val, contract_error, ctx, simp
from pysx.contracts import container as con
from pysx.contracts import layout
from pysx.contracts.common import Stored, equal, key, outcome, truthy, val
from pysx.loops import Rule
from pysx.maps import GroupContract
from pysx.seq import PvxSeq, touch
from pysx.sym import PvxBool, PvxInt, PvxVal, it
from pysx.transform import Loader

NB = z3.IntVal(-9)
NEW = z3.IntVal(-1)


class Refused(Exception):
    """what a commit may fail with"""


class GroupMaker(GroupContract):
    """Group.new: makes the one empty group at index -1"""
    world = None

    @classmethod
    def new(cls, size=None, max_collection_size=None, strict=False, custom=None):
        w, c = cls.world, ctx()
        if custom is not None or w.made:
            raise Unsupported('a second group, or one with sizes of its own')
        if size is None or max_collection_size is None:
            raise Unsupported('a group of the default size')
        if c.branch(z3.Or(it(size) < 1, it(max_collection_size) < 1)):
            raise contract_error(ValueError('sizes must be positive'))
        w.made = True
        f = w.f0
        c.assume(f['cap'](NEW) == it(size) * it(max_collection_size))
        c.assume(f['cap'](NEW) >= 1)
        st = truthy(strict)
        c.assume(z3.And(f['strict'](NEW) == st, f['lenient'](NEW) == z3.Not(st)))
        w.asked = (it(size), it(max_collection_size), st)
        return GroupContract.at(w.store, NEW)


class TM:
    """a transaction manager as resize() uses it, as the managers of
    citrine.storage.transaction are: entering begins a transaction (what was
    changed before it and not committed is lost), leaving without an exception
    commits what has not been committed yet"""

    def __init__(self, w):
        self.w = w
        self.open = False

    def __enter__(self):
        self.begin()
        self.open = True
        return self

    def __exit__(self, t=None, v=None, tb=None):
        self.open = False
        if v is None and t is None and ctx().changes(self.w.mark):
            self.commit()
        return False

    def begin(self):
        self.w.all_published('when a transaction begins')

    def abort(self):
        raise Unsupported('an abort in the code')

    def commit(self):
        w, c = self.w, ctx()
        if c.choose(['done', 'refused']) == 'refused':
            raise contract_error(Refused('commit'))
        w.readable('every commit')
        w.published()


class World(con.World):
    def __init__(self, mod, op, transfer, with_tm):
        super().__init__(mod)
        c = self.c
        self.op, self.transfer = op, transfer
        self.made, self.asked = False, None
        GroupMaker.world = self
        f = self.store.f
        q, x = z3.Const('gq', I), z3.Const('gk', Key)
        c.assume(z3.ForAll([x], z3.Not(f['has'](NEW, x))))
        c.assume(f['card'](NEW) == 0)
        self.f0 = dict(f)
        self.P = NEW if op == 'resize' else z3.IntVal(0)
        W = self.W = z3.Function('W', Key, I)
        rng = z3.And(q >= self.P, q < self.m)
        c.assume(z3.ForAll([x], z3.Or(W(x) == NB, z3.And(
            W(x) >= self.P, W(x) < self.m, f['has'](W(x), x))), patterns=[W(x)]))
        c.assume(z3.ForAll([x, q], z3.Implies(
            z3.And(rng, f['has'](q, x)), z3.And(W(x) != NB, W(x) <= q)),
            patterns=[f['has'](q, x)]))
        self.tm = TM(self) if with_tm else None
        self.mark = len(c.mutlog)
        c.hooks['rules'] = [self.rule]
        self.size0 = None

    # ---- what has to hold
    def readable(self, when):
        """reading any id gives what it gave before"""
        c = ctx()
        rules = c.hooks.get('rules')
        c.hooks['rules'] = []
        n = f'Container.{self.op}: an id reads as before at {when}'

        def read():
            k, d = key('read'), val('default')
            r = self.con.read(k, d)
            w = self.W(k.t)
            if c.branch(w == NB):
                c.prove(n, equal(r, d))
            else:
                c.prove(n, equal(r, PvxVal(self.f0['val'](w, k.t))))
        for p in c.nested(read):
            if p.kind == 'exc':
                c.prove(n, z3.Not(p.cond), repr(p.val))
        c.hooks['rules'] = rules

    def published(self):
        self.mark = len(ctx().mutlog)

    def all_published(self, when):
        c = ctx()
        if self.tm is not None:
            c.prove(f'Container.{self.op}: nothing is left uncommitted {when}',
                    not c.changes(self.mark), str(c.changes(self.mark)[-1:])[:200])

    # ---- the loops
    def rule(self, seq, loopkey):
        c = ctx()
        if c.depth_nested or c.generic or seq is None:
            return None
        if seq.sort == I:
            j = c.fresh('probe', I)

            def member():
                c.assume_checked(seq.member(j))
                return seq.elem(j)
            es = c.nested(member)
            if es and all(p.kind == 'ok' and type(p.val) is GroupContract
                          and p.val.store is self.store for p in es):
                ds = [simp(p.val.idx - j) for p in es]
                base = ([d for d in ds if z3.is_int_value(d)]
                        + [simp(z3.substitute(d, (j, z3.IntVal(0)))) for d in ds])[0]
                if seq.keep is not None or not z3.is_int_value(base) or any(
                        c.check(seq.member(j), p.cond, p.val.idx != j + base) != z3.unsat
                        for p in es):
                    raise Unsupported('groups in another order than that of the container')
                return Groups(self, seq, base)
            return None
        if seq.sort == Key and getattr(self, 'outer', None) is not None:
            return Ids(self, seq, self.outer)
        return None

    def fresh_state(self):
        """the contents of all groups become unknown"""
        c, st = ctx(), self.store
        n = c.name_of('mid')
        for f, sorts in (('has', (I, Key, B)), ('val', (I, Key, Val)), ('card', (I, I)),
                         ('ver', (I, I))):
            st.replace(f, z3.Function(f'{n}.{f}', *sorts))
        q = z3.Const('gq', I)
        c.assume(z3.ForAll([q], st.f['card'](q) >= 0))
        return st.f

    def inv(self, k, f):
        """A and B for id k"""
        W, f0, P = self.W, self.f0, self.P
        q = z3.Const('iq', I)
        w = W(k)
        none = z3.ForAll([q], z3.Implies(z3.And(q >= P, q < self.m), z3.Not(f['has'](q, k))))
        before = z3.ForAll([q], z3.Implies(z3.And(q >= P, q < w), z3.Not(f['has'](q, k))))
        moved = z3.And(f['has'](P, k), f['val'](P, k) == f0['val'](w, k))
        there = z3.And(w != P, f['has'](w, k), f['val'](w, k) == f0['val'](w, k), before)
        return z3.If(w == NB, none, z3.Or(moved, there))

    def merged(self, j, k, f):
        """C for group j"""
        if self.transfer:
            return z3.Not(f['has'](j, k))
        return z3.Implies(f['has'](j, k), f['has'](self.P, k))

    def kept(self, j, k, f):
        """D for group j"""
        f0 = self.f0
        return z3.And(f['has'](j, k) == f0['has'](j, k),
                      z3.Implies(f0['has'](j, k), f['val'](j, k) == f0['val'](j, k)))


class Invariant(Rule):
    what = ''
    for_changes = True

    def __init__(self, w, seq):
        self.w, self.seq = w, seq

    def check(self, when):
        """the invariant holds now"""
        w, c = self.w, ctx()
        n = f'Container.{w.op}: loop over the {self.what}, {when}'
        f = w.store.f
        k, j = c.fresh('anyid', Key), c.fresh('anygrp', I)
        c.prove(f'{n}: ids read as before', w.inv(k, f))
        c.prove(f'{n}: merged groups', z3.Implies(self.done(j), w.merged(j, k, f)))
        c.prove(f'{n}: other groups untouched', z3.Implies(
            z3.And(self.rest(j), j != w.P, j >= w.P, j < w.m), w.kept(j, k, f)))
        more = self.here(k, f)
        if more is not None:
            c.prove(f'{n}: the group being merged', more)
        w.all_published(f'by the loop over the {self.what}')
        q = c.fresh('anygrp', I)
        for g in ('cap', 'strict'):
            c.prove(f'{n}: capacities and strictness', f[g](q) == w.f0[g](q))

    def suppose(self):
        """an arbitrary state in which the invariant holds"""
        w, c = self.w, ctx()
        f = w.fresh_state()
        k, j = z3.Const('hk', Key), z3.Const('hj', I)
        c.assume(z3.ForAll([k], w.inv(k, f), patterns=[w.W(k), f['has'](w.P, k)]))
        c.assume(z3.ForAll([k, j], z3.And(
            z3.Implies(self.done(j), w.merged(j, k, f)),
            z3.Implies(z3.And(self.rest(j), j != w.P, j >= w.P, j < w.m), w.kept(j, k, f))),
            patterns=[f['has'](j, k)]))
        more = self.here(k, f)
        if more is not None:
            c.assume(z3.ForAll([k], more, patterns=[w.W(k)]))
            c.assume(z3.ForAll([k], more, patterns=[f['has'](w.P, k)]))
        w.published()
        self.mark = len(c.mutlog)

    def own(self):
        """nothing but the contents of the groups is changed"""
        c = ctx()
        for what, _ in c.changes(self.mark):
            if not (isinstance(what, tuple) and what[0] == 'store' and what[1] is self.w.store):
                raise Unsupported(f'a loop over the {self.what} changes {what[0]}')
            if self.live:
                raise Unsupported('a group is changed while it is iterated over')

    def here(self, k, f):
        return None


class Groups(Invariant):
    what = 'groups'

    def __init__(self, w, seq, base):
        super().__init__(w, seq)
        self.base = base
        self.t = z3.IntVal(0)

    def done(self, j):
        return z3.And(j >= self.base, j < self.base + self.t, j < self.w.m)

    def rest(self, j):
        return z3.Not(z3.And(j >= self.base, j < self.base + self.t))

    def init(self, env):
        self.check('at the start')

    def havoc(self, env):
        self.t = ctx().fresh('round', I)
        ctx().assume(z3.And(self.t >= 0, self.t <= self.seq.n))
        self.suppose()

    def iterate(self, env):
        ctx().assume_checked(self.t < self.seq.n)
        self.w.outer = self
        touch(self.t)
        return self.seq.elem(self.t)

    def preserved(self, env):
        self.w.outer = None
        self.own()
        self.t = self.t + 1
        self.check('after a group')

    def finish(self, env):
        ctx().assume(self.t == self.seq.n)


class Ids(Invariant):
    what = 'ids of a group'

    def __init__(self, w, seq, outer):
        super().__init__(w, seq)
        self.outer = outer
        self.g = simp(outer.base + outer.t)
        self.list = seq.keep
        self.gone = lambda k: z3.BoolVal(False)

    def done(self, j):
        return self.outer.done(j)

    def rest(self, j):
        return z3.And(self.outer.rest(j), j != self.g)

    def here(self, k, f):
        w, g = self.w, self.g
        return z3.And(z3.Implies(self.gone(k), w.merged(g, k, f)),
                      z3.Implies(z3.Not(self.gone(k)), w.kept(g, k, f)))

    def init(self, env):
        c = ctx()
        x = c.fresh('listed', Key)
        c.prove(f'Container.{self.w.op}: the ids listed are those of the group',
                self.list(x) == self.w.f0['has'](self.g, x))
        self.check('at the start')

    def havoc(self, env):
        c = ctx()
        self.at = c.fresh('id', Key)
        D = z3.Function(c.name_of('gone'), Key, B)
        x = z3.Const('hk', Key)
        c.assume(z3.ForAll([x], z3.Implies(D(x), self.list(x)), patterns=[D(x)]))
        self.gone = D
        self.suppose()

    def iterate(self, env):
        c = ctx()
        c.assume(z3.And(self.list(self.at), z3.Not(self.gone(self.at))))
        return self.seq.elem(self.at)

    def preserved(self, env):
        self.own()
        D, at = self.gone, self.at
        self.gone = lambda k: z3.Or(k == at, D(k))
        self.check('after an id')

    def finish(self, env):
        c = ctx()
        x = z3.Const('hk', Key)
        c.assume(z3.ForAll([x], z3.Implies(self.list(x), self.gone(x)), patterns=[self.gone(x)]))
        c.assume(z3.ForAll([x], z3.Implies(self.list(x), self.gone(x)),
                           patterns=[self.w.f0['has'](self.g, x)]))


def load():
    GroupMaker.errors = GroupContract.errors
    L, mod = con.load({'Group': GroupMaker})
    mod.number_of_collections = layout.number_contract
    return mod


def end(w, ret, base, count, emptied, first):
    """the operation has ended normally"""
    c = ctx()
    op = w.op
    n = f'Container.{op}'
    w.readable('the end')
    w.all_published('at the end')
    # what is returned
    s = hooks.as_seq(ret)
    if s is None:
        c.prove(f'{n}: returns the groups removed', isinstance(ret, (list, tuple)) and (
            not ret if not emptied else z3.And(count == len(ret), *[
                g.pvx_same(GroupContract.at(w.store, simp(base + i))) for i, g in enumerate(ret)])))
    elif not emptied:
        c.prove(f'{n}: returns the groups removed', it(hooks.h_len(s)) == 0)
    else:
        if s.keep is not None:
            raise Unsupported('a filtered list of groups')
        c.prove(f'{n}: returns the groups removed', it(hooks.h_len(s)) == count)
        j = c.fresh('removed', I)
        c.assume(z3.And(j >= 0, j < count))
        c.prove(f'{n}: returns the groups removed',
                s.elem(j).pvx_same(GroupContract.at(w.store, simp(base + j))))
    if emptied:
        j, k = c.fresh('removed', I), c.fresh('id', Key)
        c.assume(z3.And(j >= base, j < base + count))
        c.prove(f'{n}: removed groups are empty', z3.Not(w.store.f['has'](j, k)))
    # what is left
    gs = hooks.as_seq(w.con.groups)
    prim = GroupContract.at(w.store, w.P)
    c.prove(f'{n}: the primary', w.con.primary.pvx_same(prim))
    if gs is None:
        gs_n = z3.IntVal(len(w.con.groups))
        c.prove(f'{n}: the primary is read first', w.con.groups[0].pvx_same(prim))
        idx = [g.idx for g in w.con.groups]
    else:
        if gs.sort != I:
            raise Unsupported('the groups are no list')
        c.lemma(f'{n}: the primary is read first', gs.member(z3.IntVal(0)))
        c.prove(f'{n}: the primary is read first', gs.elem(z3.IntVal(0)).pvx_same(prim))
        idx = None
    a = c.fresh('grp', I)
    c.assume(z3.And(a >= w.P, a < w.m))
    stays = z3.Or(a == w.P, z3.Not(z3.And(a >= base, a < base + count))) if emptied \
        else z3.BoolVal(True)
    if idx is not None:
        inn = z3.Or(*[a == i for i in idx])
        del gs_n
    else:
        q = c.fresh('pos', I)
        w_ = z3.Const(c.name_of('wq'), I)
        c.assume(gs.member(q))
        e = gs.elem(q)
        c.prove(f'{n}: no group but these', z3.And(e.idx >= w.P, e.idx < w.m, z3.Or(
            e.idx == w.P, z3.Not(z3.And(e.idx >= base, e.idx < base + count)))
            if emptied else z3.BoolVal(True)))
        d = z3.IntVal(1) if w.op == 'resize' else z3.IntVal(0)
        # the list is the old one, with the new group in front
        inn = gs.member(simp(a + d))
        del w_, first
    c.prove(f'{n}: all other groups stay', z3.Implies(stays, inn))


def resize(run, transfer=None, tm=None):
    mod = load()

    def h():
        c = ctx()
        condense = c.choose([True, False])
        tr = c.choose([True, False])
        with_tm = c.choose([True, False])
        w = World(mod, 'resize', tr, with_tm)
        cap, limit = c.fresh('capacity', I), c.fresh('limit', I)
        c.assume(z3.And(cap >= 1, limit >= 1))
        before = w.con.groups
        st0 = dict(w.store.f)
        size = w.con.size
        too_small = z3.simplify(cap < it(size))
        strict0 = truthy(w.con.strict)
        c.mutlog.clear()
        w.mark = 0
        kw = {'condense': condense, 'transfer': tr, 'transaction_manager': w.tm}
        stored = Stored(w.con)
        kind, ret = outcome(lambda: w.con.resize(PvxInt(cap), PvxInt(limit), **kw))
        c.hooks['rules'] = []
        stored.check('Container.resize')
        n = 'Container.resize'
        if kind == 'exc':
            errs = tuple(GroupContract.errors.values()) + (Refused,)
            if isinstance(ret, errs):
                w.readable('an exception')
                return
            c.prove(f'{n}: raises only ValueError, and only for too small a capacity',
                    z3.And(isinstance(ret, ValueError), too_small), repr(ret))
            c.prove(f'{n}: a refusal changes nothing', not c.changes(0)
                    and w.con.groups is before and w.store.f == st0)
            return
        c.prove(f'{n}: too small a capacity is refused', z3.Not(too_small))
        count = w.m if condense else z3.IntVal(1)
        end(w, ret, z3.IntVal(0), count, tr, before)
        a = w.asked
        if a is None:
            raise Unsupported('no new group was made')
        c.prove(f'{n}: room for the capacity', z3.And(a[0] * a[1] >= cap, a[1] <= limit))
        c.prove(f'{n}: strictness as before', a[2] == strict0)
        c.prove(f'{n}: strictness as before', truthy(w.con.strict) == strict0)
    run.explore('Container.resize', h)
    run.covers('citrine.storage.container:Container.resize',
               'citrine.storage.container:Container.__condense',
               'citrine.storage.container:Container.condense')


def condense(run):
    mod = load()

    def h():
        c = ctx()
        tr = c.choose([True, False])
        with_tm = c.choose([True, False])
        w = World(mod, 'condense', tr, with_tm)
        before = w.con.groups
        c.mutlog.clear()
        w.mark = 0
        stored = Stored(w.con)
        kind, ret = outcome(lambda: w.con.condense(transfer=tr, transaction_manager=w.tm))
        c.hooks['rules'] = []
        stored.check('Container.condense')
        if kind == 'exc':
            errs = tuple(GroupContract.errors.values()) + (Refused,)
            if isinstance(ret, errs):
                w.readable('an exception')
                return
            c.prove('Container.condense: raises nothing else', False, repr(ret))
            return
        end(w, ret, z3.IntVal(1), simp(w.m - 1), tr, before)
    run.explore('Container.condense', h)
    run.covers('citrine.storage.container:Container.condense',
               'citrine.storage.container:Container.__condense')


del maps, PvxBool, PvxSeq, Loader

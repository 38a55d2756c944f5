"""Sequences of symbolic length, what can be computed from them, and the
element-wise rule for what is done to their members."""
import z3

from pysx.core import (B, I, Infeasible, Key, Unsupported, Val, artefact, contract_error, ctx, simp)
from pysx.sym import (kle, Pvx, PvxBool, PvxInt, PvxKey, PvxReal, PvxVal, bt, it, kt, mkbool, mkint,
                      mkreal, rt, truth, vt)


# ------------------------------------------------------------------ reindexing
def reindex(v, j, i):
    """the value v, computed for index j, for index i"""
    if v is None or isinstance(v, (int, str, float, bytes, type)):
        return v
    if isinstance(v, (PvxInt, PvxBool, PvxReal, PvxVal, PvxKey)):
        return type(v)(z3.substitute(v.t, (j, i)))
    if hasattr(type(v), 'pvx_reindex'):
        return v.pvx_reindex(j, i)
    if isinstance(v, tuple):
        return tuple(reindex(x, j, i) for x in v)
    if isinstance(v, BaseException):
        return v
    if isinstance(v, list) and not v or isinstance(v, dict) and not v:
        return v
    if isinstance(v, list):
        return [reindex(x, j, i) for x in v]
    if isinstance(v, Pvx):
        raise Unsupported(f'member of a sequence: {type(v).__name__}')
    if callable(v) and not hasattr(v, '__dict__'):
        return v
    # an object that does not depend on the index
    return v


# ------------------------------------------------------------------ sums
def sum_term(n, f, base='sum'):
    """the sum of f(j) for 0 <= j < n, as a term; related to all other sums
    known on the path by instances of valid lemmas"""
    c = ctx()
    if c.generic:
        raise Unsupported('sum inside of a generic element')
    sums = c.known.setdefault('sums', [])
    for n2, f2, s2 in sums:
        w = z3.Const('w?', I)
        if n2.eq(n) and simp(f(w)).eq(simp(f2(w))):
            return s2
    s = c.fresh(base, I)
    w = c.fresh('w', I)
    rng = z3.And(w >= 0, w < n)
    c.assume(z3.Or(z3.And(rng, f(w) < 0), s >= 0))
    w = c.fresh('w', I)
    c.assume(z3.Or(z3.And(w >= 0, w < n, f(w) > 0), s <= 0))
    c.assume(z3.Implies(n <= 0, s == 0))
    w = c.fresh('w', I)
    # the sum of ones is the length
    c.assume(z3.Or(z3.And(w >= 0, w < n, f(w) > 1), s <= z3.If(n > 0, n, z3.IntVal(0))))
    w = c.fresh('w', I)
    c.assume(z3.Or(z3.And(w >= 0, w < n, f(w) < 1), s >= z3.If(n > 0, n, z3.IntVal(0))))
    w, q = c.fresh('w', I), z3.Const(c.name_of('sq'), I)
    if not z3.is_int_value(simp(n)):
        c.assume(z3.Or(z3.And(w >= 0, w < n, f(w) < 0), s > 0,
                       z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), f(q) <= 0))))
    if base == 'count':
        # two of them, if there is more than one
        a, b = c.fresh('one', I), c.fresh('two', I)
        c.assume(z3.Or(s <= 1, z3.And(a >= 0, a < b, b < n, f(a) == 1, f(b) == 1)))
        q2 = z3.Const(c.name_of('sq'), I)
        c.assume(z3.Or(s >= 2, z3.ForAll([q, q2], z3.Implies(z3.And(
            q >= 0, q < q2, q2 < n, f(q) == 1), f(q2) != 1))))
    one = simp(f(w))
    if not mentions(one, w) and not c.hooks.get('linear'):
        # all the same
        c.assume(s == z3.If(n > 0, n * one, z3.IntVal(0)))
    for n2, f2, s2 in sums:
        sum_pair(c, n, f, s, n2, f2, s2)
    sums.append((n, f, s))
    for r in c.known.get('idx', []):
        sum_idx(c, n, f, s, r)
    return s


def sum_pair(c, n, f, s, n2, f2, s2):
    same = n == n2
    w = c.fresh('w', I)
    rng = z3.And(w >= 0, w < n)
    c.assume(z3.Implies(same, z3.Or(z3.And(rng, f(w) > f2(w)), s <= s2)))
    w = c.fresh('w', I)
    rng = z3.And(w >= 0, w < n)
    c.assume(z3.Implies(same, z3.Or(z3.And(rng, f(w) < f2(w)), s >= s2)))
    for r in c.known.get('idx', []):
        sum_pair_idx(c, n, f, s, n2, f2, s2, r)
    # one more member at the front, or at the end
    w = c.fresh('w', I)
    c.assume(z3.Implies(z3.And(n == n2 + 1, n2 >= 0),
                        z3.Or(z3.And(w >= 0, w < n2, f(w + 1) != f2(w)), s == s2 + f(z3.IntVal(0)))))
    c.assume(z3.Implies(z3.And(n2 == n + 1, n >= 0),
                        z3.Or(z3.And(w >= 0, w < n, f2(w + 1) != f(w)), s2 == s + f2(z3.IntVal(0)))))


def sum_pair_idx(c, n, f, s, n2, f2, s2, r):
    """differing in one place only"""
    w = c.fresh('w', I)
    c.assume(z3.Implies(z3.And(n == n2, r >= 0, r < n),
                        z3.Or(z3.And(w >= 0, w < n, w != r, f(w) != f2(w)),
                              s == s2 + f(r) - f2(r))))


def sum_idx(c, n, f, s, r):
    w = c.fresh('w', I)
    c.assume(z3.Implies(z3.And(r >= 0, r < n),
                        z3.Or(z3.And(w >= 0, w < n, f(w) < 0), s >= f(r))))


def forall_members(seq, fn):
    """for all members i: fn(i); spelled out for the indices of interest"""
    c = ctx()
    q = z3.Const(c.name_of('q'), seq.sort if seq is not None else I)
    rng = (lambda i: seq.member(i)) if seq is not None else (lambda i: i >= 0)
    t = z3.ForAll([q], z3.Implies(rng(q), fn(q)))
    if q.sort() == I and not c.generic:
        inst = lambda r: c.assume(z3.Implies(z3.And(t, rng(r)), fn(r)))     # noqa
        c.known.setdefault('foralls', []).append(inst)
        for r in c.known.get('idx', []):
            inst(r)
    return t


def touch(r):
    """an index of interest"""
    c = ctx()
    if c.generic:
        return
    idx = c.known.setdefault('idx', [])
    r = simp(r)
    if any(x.eq(r) for x in idx):
        return
    idx.append(r)
    for inst in c.known.get('foralls', []):
        inst(r)
    sums = c.known.setdefault('sums', [])
    for k, (n, f, s) in enumerate(sums):
        sum_idx(c, n, f, s, r)
        for n2, f2, s2 in sums[:k]:
            sum_pair_idx(c, n, f, s, n2, f2, s2, r)


# ------------------------------------------------------------------ sets of keys
def listed(k, body):
    """the keys the set is made of, where it says so itself"""
    cands, todo, seen = [], [body], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return None
        if z3.is_eq(x) and x.arg(0).sort() == Key:
            for a, b in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                if a.eq(k) and not mentions(b, k) and not any(b.eq(y) for y in cands):
                    cands.append(b)
        todo += x.children()
    if len(cands) > 6:
        return None
    s = z3.SimpleSolver()
    s.set('timeout', 300)
    s.add(body, *[k != a for a in cands])
    return cands if s.check() == z3.unsat else None


def set_card(pred):
    """the number of keys in a (finite) set, as a term; related to the other
    cardinalities known on the path by instances of valid lemmas"""
    c = ctx()
    sets = c.known.setdefault('sets', [])
    probe = z3.Const('k?', Key)
    body = simp(pred(probe))
    for g2, p2, b2, s2 in sets:
        if b2.eq(body):
            return s2
    few = listed(probe, body)
    if few is not None:
        n = z3.IntVal(0)
        for i, a in enumerate(few):
            n = n + z3.If(z3.And(pred(a), *[a != b for b in few[:i]]), 1, 0)
        return simp(n)
    # a family of sets, if it depends on the element it is made for
    gs = [g for g in c.generic if mentions(body, g)]
    outer, c.generic = c.generic, gs
    try:
        s = c.fresh('card', I)
        c.assume(s >= 0)
        w = c.fresh('k', Key)
        c.assume(z3.Or(pred(w), s == 0))
        q = z3.Const(c.name_of('kq'), Key)
        c.assume(z3.Implies(s == 0, z3.ForAll([q], z3.Not(pred(q)))))
        if c.known.get('one'):
            # a set of one or none has no two members, and only such a set
            v, w, r = c.fresh('k', Key), c.fresh('k', Key), z3.Const(c.name_of('kr'), Key)
            c.assume(z3.Or(z3.And(pred(v), pred(w), v != w), s <= 1))
            c.assume(z3.Implies(s <= 1, z3.ForAll([q, r], z3.Implies(z3.And(pred(q), pred(r)), q == r))))
        for g2, p2, b2, s2 in sets:
            if len(g2) != len(gs) or any(x.sort() != y.sort() for x, y in zip(g2, gs)):
                continue
            sub = list(zip(g2, gs))
            if sub:
                p2 = lambda k, b2=b2, sub=sub: z3.substitute(b2, (probe, k), *sub)     # noqa
                s2 = z3.substitute(s2, *sub)
            w = c.fresh('k', Key)
            c.assume(z3.Or(z3.And(pred(w), z3.Not(p2(w))), s <= s2))
            w = c.fresh('k', Key)
            c.assume(z3.Or(z3.And(z3.Not(pred(w)), p2(w)), s >= s2))
    finally:
        c.generic = outer
    sets.append((gs, pred, body, s))
    return s


def families(entries):
    """cardinalities found while a generic element was looked at"""
    sets = ctx().known.setdefault('sets', [])
    for e in entries:
        if e[0] and not any(e[2].eq(x[2]) for x in sets):
            sets.append(e)


# ------------------------------------------------------------------ stores
class Store:
    """the state of a family of objects under contract; each field is a
    function of the index (and of further arguments) to a z3 term"""

    def __init__(self, name, **fields):
        self.name = name
        self.f = dict(fields)
        self.reads = None
        # the same on every execution of the path that leads here
        c = ctx()
        self.uid = c.name_of('store:' + name)
        c.stores[self.uid] = self

    def get(self, field, idx):
        if self.reads is not None:
            self.reads.append(idx)
        return lambda *a: self.at(field, idx, *a)

    trace = None

    def at(self, field, idx, *a):
        if self.trace is not None:
            self.trace.append((field, idx))
        return self.f[field](idx, *a)

    def set_key(self, field, idx, key, v):
        """what is kept under a key of one member"""
        c = ctx()
        old = self.f[field]
        self.f[field] = lambda j, k: z3.If(z3.And(j == idx, k == key), v, old(j, k))
        c.log(('store', self, idx, field, key), lambda: self.f.__setitem__(field, old))

    def set(self, field, idx, new):
        c = ctx()
        old = self.f[field]
        self.f[field] = lambda j, *a: z3.If(j == idx, new(*a), old(j, *a)) if not same_term(j, idx) \
            else new(*a)
        c.log(('store', self, idx, field), lambda: self.f.__setitem__(field, old))
        if not c.generic:
            touch(idx)

    def replace(self, field, fn):
        """all members at once"""
        c = ctx()
        old = self.f[field]
        self.f[field] = fn
        c.log(('store', self, None, field), lambda: self.f.__setitem__(field, old))

    def snapshot(self):
        return dict(self.f)


def same_term(a, b):
    return a is b or simp(a).eq(simp(b))


# ------------------------------------------------------------------ sequences
class PvxSeq(Pvx):
    """an immutable sequence of n members, elem(j) being the j-th; where `keep`
    is given, only the members with keep(j) belong to it"""

    def __init__(self, n, elem, keep=None, kind=None, lazy=False, label='', mutable=False,
                 injective=False, sort=None, over=None):
        # sort: the sort of the index; where it is Key the members are those
        # keys k with keep(k), in ascending order
        self.sort = sort if sort is not None else I
        self.over = over
        self.n, self.elem, self.keep = n, elem, keep
        self.kind, self.lazy, self.label, self.mutable = kind, lazy, label, mutable
        self.injective = injective

    def pvx_isinstance(self, cls):
        return issubclass(list if self.mutable else tuple, cls)

    def pvx_type(self):
        return list if self.mutable else tuple

    def pvx_hasattr(self, n):
        return hasattr(self.pvx_type(), n)

    def pvx_getattr(self, n, *d):
        if d and not hasattr(self.pvx_type(), n):
            return d[0]
        return getattr(self, n)

    def pvx_len(self):
        c = ctx()
        if self.keep is None:
            c.assume(self.n >= 0)
            return mkint(self.n)
        return mkint(self.count())

    def count(self):
        keep = self.keep
        if self.sort != I:
            if self.over is not None:
                return self.over()
            if self.sort == Key:
                return set_card(keep)
            raise Unsupported('length of a nested sequence')
        if keep is None:
            return self.n
        return sum_term(self.n, lambda j: z3.If(keep(j), z3.IntVal(1), z3.IntVal(0)), 'count')

    def pvx_reindex(self, j, i):
        """the sequence computed for index j, for index i"""
        if self.mutable or self.sort != I:
            raise Unsupported('sequence of sequences')

        def at(t):
            return z3.substitute(t, (j, i))
        # what a member is, and when
        s = summarise(self, lambda e: e)
        if any(p.kind != 'ok' for p in s.paths):
            raise Unsupported('sequence of sequences')

        def elem(t):
            c = ctx()
            for p in s.paths[:-1]:
                if c.branch(at(z3.substitute(p.cond, (s.j, t)))):
                    return reindex(reindex(p.val, s.j, t), j, i)
            return reindex(reindex(s.paths[-1].val, s.j, t), j, i)
        return PvxSeq(at(self.n), elem, keep=None if self.keep is None else lambda t: at(self.keep(t)),
                      kind=None, label=self.label, injective=self.injective)

    def before(self, i, j):
        """member i comes before member j"""
        if self.sort == I:
            return i < j
        if self.sort == Key:
            return z3.And(kle(i, j), i != j)
        f, g = self.sort.accessor(0, 0), self.sort.accessor(0, 1)
        inner = z3.And(kle(g(i), g(j)), g(i) != g(j)) if g(i).sort() == Key else g(i) < g(j)
        return z3.Or(f(i) < f(j), z3.And(f(i) == f(j), inner))

    def member(self, j):
        if self.sort != I:
            return self.keep(j)
        t = z3.And(j >= 0, j < self.n)
        return t if self.keep is None else z3.And(t, self.keep(j))

    def __bool__(self):
        c = ctx()
        if self.keep is None:
            c.assume(self.n >= 0)
            return c.branch(self.n > 0)
        return self.inhabited() is not None

    def inhabited(self):
        """a member, or None (fork)"""
        c = ctx()
        q = z3.Const(c.name_of('jq'), self.sort)
        if c.branch(self.n > 0 if self.sort == I and self.keep is None
                    else z3.Exists([q], self.member(q))):
            j = c.fresh('j', self.sort)
            c.assume(self.member(j))
            if self.sort == I:
                touch(j)
            return j
        return None

    def __getitem__(self, i):
        c = ctx()
        if isinstance(i, slice):
            return self.slice(i)
        if not isinstance(i, (int, PvxInt)):
            raise TypeError('sequence indices must be integers or slices')
        if self.sort != I:
            if isinstance(i, int) and i == 0:
                # any of its members may be the first
                j = self.inhabited()
                if j is None:
                    raise contract_error(IndexError('tuple index out of range'))
                return self.elem(simp(j))
            raise Unsupported('index into a listing')
        if self.keep is not None and isinstance(i, (int, PvxInt)):
            if isinstance(i, int) and i == 0:
                return first(self, IndexError('tuple index out of range'))
            raise Unsupported('index into a filtered sequence')
        t = it(i)
        c.assume(self.n >= 0)
        if c.branch(z3.And(t >= 0, t < self.n)):
            return self.at(t)
        if c.branch(z3.And(t < 0, t >= -self.n)):
            return self.at(simp(self.n + t))
        raise contract_error(IndexError('tuple index out of range'))

    def at(self, t):
        touch(t)
        return self.elem(simp(t))

    def slice(self, s):
        c = ctx()
        if self.sort != I:
            raise Unsupported('slice of a listing')
        if s.step not in (None, 1) or self.keep is not None:
            raise Unsupported('slice')
        c.assume(self.n >= 0)

        def bound(x, default):
            if x is None:
                return default
            t = it(x)
            if c.branch(t < 0):
                t = simp(t + self.n)
                if c.branch(t < 0):
                    return z3.IntVal(0)
            return self.n if c.branch(t > self.n) else t
        lo = simp(bound(s.start, z3.IntVal(0)))
        hi = simp(bound(s.stop, self.n))
        n = simp(hi - lo) if c.branch(hi > lo) else z3.IntVal(0)
        return PvxSeq(n, lambda j: self.elem(simp(j + lo)), kind=self.kind, label=self.label + '[:]',
                      injective=self.injective)

    def __add__(self, o):
        return concat(self, o)

    def __radd__(self, o):
        return concat(o, self)

    def __iter__(self):
        raise Unsupported('iteration over a symbolic sequence by uninstrumented code')

    def __len__(self):
        raise Unsupported('length of a symbolic sequence as a plain number')

    def __contains__(self, x):
        from pysx.hooks import same_or_equal
        c = ctx()
        s = summarise(self, lambda e: truth(same_or_equal(e, x)))
        t = s.exists(lambda v: v)
        return c.branch(t)

    def __eq__(self, o):
        raise Unsupported('comparison of sequences')

    def __hash__(self):
        raise Unsupported('hash of a sequence')

    def index(self, x, *bounds):
        """the first place where it is"""
        from pysx.hooks import same_or_equal
        if bounds or self.keep is not None or self.sort != I:
            raise Unsupported('index()')
        c = ctx()
        s = summarise(self, lambda e: truth(same_or_equal(e, x)))
        if any(p.kind != 'ok' for p in s.paths):
            raise Unsupported('index()')
        if not c.branch(s.exists(lambda v: v)):
            raise contract_error(ValueError('not in list'))
        i = c.fresh('place', I)
        at = lambda t: s.value(B, lambda v: v if isinstance(v, z3.ExprRef) else z3.BoolVal(v), t,       # noqa
                               z3.BoolVal(False))
        c.assume(z3.And(self.member(i), at(i)))
        touch(i)
        c.assume(forall_members(self, lambda q: z3.Implies(q < i, z3.Not(at(q)))))
        return mkint(i)

    pvx_logged = True

    def __setitem__(self, i, v):
        if not self.mutable:
            raise contract_error(TypeError('does not support item assignment'))
        if not isinstance(i, (int, PvxInt)) or self.sort != I or self.keep is not None:
            raise Unsupported('assignment to a symbolic list')
        c, t, old = ctx(), it(i), self.elem
        c.assume(self.n >= 0)
        if c.branch(z3.And(t < 0, t >= -self.n)):
            t = simp(t + self.n)
        elif not c.branch(z3.And(t >= 0, t < self.n)):
            raise contract_error(IndexError('list assignment index out of range'))
        inj = self.injective

        def undo():
            self.elem, self.injective = old, inj
        self.elem = lambda j: v if ctx().branch(j == t) else old(j)
        self.injective = False
        c.log(('mutate', self, 'setitem', (i, v)), undo)

    def append(self, x):
        raise Unsupported('append to a symbolic list')

    def __next__(self):
        if not self.lazy:
            raise TypeError('not an iterator')
        raise Unsupported('next() on a shared iterator')


def concat(a, b):
    for x in (a, b):
        if not isinstance(x, (tuple, list, PvxSeq)):
            return NotImplemented
        if isinstance(x, PvxSeq) and x.sort != I:
            raise Unsupported('concatenation with a listing')
    if isinstance(a, PvxSeq) and a.keep is not None or isinstance(b, PvxSeq) and b.keep is not None:
        return concat_filtered(a, b)
    na = z3.IntVal(len(a)) if isinstance(a, (tuple, list)) else a.n
    nb = z3.IntVal(len(b)) if isinstance(b, (tuple, list)) else b.n

    def elem(j):
        c = ctx()
        if c.branch(j < na):
            return pick(a, j)
        return pick(b, simp(j - na))
    c = ctx()
    c.assume(z3.And(na >= 0, nb >= 0))
    kinds = [x.kind for x in (a, b) if isinstance(x, PvxSeq)]
    return PvxSeq(simp(na + nb), elem, kind=kinds[0], label='concatenation')


def concat_filtered(a, b):
    def parts(x):
        if isinstance(x, (tuple, list)):
            return z3.IntVal(len(x)), (lambda j: z3.BoolVal(True))
        return x.n, (x.keep or (lambda j: z3.BoolVal(True)))
    (na, ka), (nb, kb) = parts(a), parts(b)

    def elem(j):
        c = ctx()
        if c.branch(j < na):
            return pick(a, j)
        return pick(b, simp(j - na))
    kinds = [x.kind for x in (a, b) if isinstance(x, PvxSeq)]
    return PvxSeq(simp(na + nb), elem, keep=lambda j: z3.If(j < na, ka(j), kb(j - na)),
                  kind=kinds[0], label='concatenation')


def pick(x, j):
    """member j (a term, known to be in range) of a concrete or symbolic sequence"""
    if isinstance(x, PvxSeq):
        return x.elem(j)
    j = simp(j)
    if z3.is_int_value(j):
        return x[j.as_long()]
    c = ctx()
    for k in range(len(x)):
        if k == len(x) - 1 or c.branch(j == k):
            return x[k]
    raise Infeasible()


def arbitrary_seq(name, elem, **kw):
    c = ctx()
    n = c.fresh(name + '_n', I)
    c.assume(n >= 0)
    return PvxSeq(n, elem, label=name, **kw)


def seq_range(*args):
    c = ctx()
    if len(args) == 1:
        lo, hi, step = z3.IntVal(0), it(args[0]), 1
    else:
        lo, hi = it(args[0]), it(args[1])
        step = args[2] if len(args) == 3 else 1
    if step == 1:
        n = z3.If(hi > lo, hi - lo, z3.IntVal(0))
        return PvxSeq(simp(n), lambda j: mkint(lo + j), label='range', kind='range', injective=True)
    if step == -1:
        n = z3.If(lo > hi, lo - hi, z3.IntVal(0))
        return PvxSeq(simp(n), lambda j: mkint(lo - j), label='range', kind='range', injective=True)
    raise Unsupported('range with a step')


# ------------------------------------------------------------------ summaries
class Summary:
    """what evaluating a function on each member of a sequence comes to"""

    def __init__(self, seq, j, paths, effects):
        self.seq, self.j, self.paths, self.effects = seq, j, paths, effects

    def at(self, t, i):
        return z3.substitute(t, (self.j, i))

    def raising(self, i):
        """member i makes it raise"""
        cs = [self.at(p.cond, i) for p in self.paths if p.kind == 'exc']
        return z3.Or(*cs) if cs else z3.BoolVal(False)

    def can_raise(self):
        return any(p.kind == 'exc' for p in self.paths)

    def value(self, sort, conv, i, default):
        """If-term over the paths"""
        t = default
        for p in self.paths:
            if p.kind == 'ok':
                t = z3.If(p.cond, conv(p.val), t)
        return self.at(t, i)

    def formula(self, i, of=lambda v: v):
        """truth of the value for member i"""
        ps = [p for p in self.paths if p.kind == 'ok']
        return self.at(z3.Or(*[z3.And(p.cond, of(p.val)) for p in ps]) if ps
                       else z3.BoolVal(False), i)

    def exists(self, of=lambda v: v):
        return z3.Not(forall_members(self.seq, lambda i: z3.Not(self.formula(i, of))))

    def settle_exceptions(self):
        """either no member raises, or the first one that does is met"""
        if not self.can_raise():
            return
        c = ctx()
        q = z3.Const(c.name_of('q'), self.seq.sort)
        if not c.branch(z3.Exists([q], z3.And(self.seq.member(q), self.raising(q)))):
            return
        i = c.fresh('at', self.seq.sort)
        c.assume(z3.And(self.seq.member(i), self.raising(i)))
        if self.seq.sort == I:
            touch(i)
        c.assume_checked(z3.ForAll([q], z3.Implies(
            z3.And(self.seq.member(q), self.seq.before(q, i)), z3.Not(self.raising(q)))))
        self.apply(upto=i)
        for p in self.paths:
            if p.kind == 'exc' and c.branch(self.at(p.cond, i)):
                raise p.val
        raise Infeasible()

    def apply(self, upto=None):
        """the effect on the state of the members"""
        apply_effects(self.seq, self.j, [p for p in self.paths], self.effects, upto)


def apply_effects(seq, j, paths, effects, upto):
    """the states after the members (before `upto`) have had their effect.
    effects: per path {(store, field): (new, at)}: the field function after the
    path, for an iteration that changes member j itself (at is None), or only
    what is kept under the id j (at: the index this is kept under)"""
    if not any(effects):
        return
    touched = {}
    stores = ctx().stores
    for p, eff in zip(paths, effects):
        for uid, field in eff:
            if uid not in stores:
                raise Unsupported('a change of something made on the way')
            touched.setdefault((uid, field), (stores[uid], field))
    for store, field in touched.values():
        old = store.f[field]

        def fn(i, *a, store=store, field=field, old=old):
            t = old(i, *a)
            for p, eff in zip(paths, effects):
                if p.kind == 'exc' or (store.uid, field) not in eff:
                    continue
                new, at = eff[store.uid, field]
                e = i if at is None else a[0]
                m = seq.member(e) if upto is None else z3.And(seq.member(e), seq.before(e, upto))
                cond = z3.substitute(p.cond, (j, e))
                if at is None:
                    v = z3.substitute(new(j, *a), (j, e))
                else:
                    cond = z3.And(cond, i == z3.substitute(at, (j, e)))
                    v = z3.substitute(new(at, j), (j, e))
                t = z3.If(z3.And(m, cond), v, t)
            return t
        store.replace(field, fn)


def same_here(a, j):
    """equal on this path"""
    return same_term(a, j) or a.sort() == j.sort() and ctx().check(a != j) == z3.unsat


def own_effects(changes, j, where):
    """the changes of one evaluation, if each is member j's own"""
    ch, stores = {}, {}
    for what, _ in changes:
        ok = isinstance(what, tuple) and what[0] == 'store' and what[2] is not None
        if ok and len(what) > 4 and same_here(what[4], j):
            at = what[2]
        elif ok and len(what) == 4 and same_here(what[2], j):
            at = None
        else:
            raise Unsupported(f'{where} changes shared state ({what[0]})')
        k = (what[1].uid, what[3])
        if k in ch and at is not None and not (ch[k][1] is not None and same_term(ch[k][1], at)):
            raise Unsupported(f'{where} changes several places')
        ch[k] = (what[1].f[what[3]], at)
        stores[id(what[1])] = what[1]
    return ch, stores


def no_newborn(v, fresh):
    """an object made for a member could not be told for another one"""
    if isinstance(v, tuple):
        for x in v:
            no_newborn(x, fresh)
    elif id(v) in fresh and not isinstance(v, (list, dict, set)) \
            and not hasattr(type(v), 'pvx_reindex') and not isinstance(v, BaseException):
        raise Unsupported(f'an object made for each of the members: {type(v).__name__}')


def summarise(seq, fn, effects=False):
    """evaluates fn on a generic member"""
    c = ctx()
    j = z3.Const(c.name_of('g'), seq.sort)
    c.solver.push()
    base = len(c.pc)
    c.assume(seq.member(j), 'g')
    c.generic.append(j)
    eff = []
    stores = {}
    fams, nsets = [], len(c.known.get('sets', []))
    try:
        def once():
            mark = len(c.mutlog)
            try:
                kind, v = 'ok', fn(seq.elem(j))
            except Exception as e:        # noqa
                if artefact(e):
                    raise Unsupported(f'{type(e).__name__}: {e}')
                kind, v = 'exc', e
            done = c.changes(mark)
            if not effects and done:
                raise Unsupported(f'side effect in a comprehension: {done[0][0][0]}')
            if kind == 'ok':
                no_newborn(v, c.newborn(mark))
            ch, st = own_effects(done, j, 'a comprehension')
            stores.update(st)
            fams.extend(c.known.get('sets', [])[nsets:])
            return kind, v, ch
        paths = c.nested(once, keep_state=True)
    finally:
        c.generic.pop()
        del c.pc[base:]
        del c.pck[base:]
        c.solver.pop()
    defs = []
    for p in paths:
        p.kind, p.val, ch = p.val
        eff.append(ch)
        defs += p.defs
    if defs:
        # facts about the values made up for a generic member hold for all
        seen = []
        for d in defs:
            if not any(d.eq(x) for x in seen):
                seen.append(d)
        body = z3.Implies(seq.member(j), z3.And(*seen))
        if mentions(body, j):
            c.assume(z3.ForAll([j], body))
        else:
            q = z3.Const(c.name_of('q'), seq.sort)
            nonempty = (seq.n > 0) if seq.sort == I else z3.Exists([q], seq.member(q))
            for d in seen:
                c.assume(z3.Implies(nonempty, d))
    if any(eff):
        check_frame(paths, eff, stores, j, seq)
    families(fams)
    return Summary(seq, j, paths, eff)


def mentions(t, j):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(j):
            return True
        todo += x.children()
    return False


def check_frame(paths, eff, stores, j, seq):
    """the values for one member must not depend on the state of another one
    that is changed as well"""
    names = set()
    for s in stores.values():
        for f in s.f:
            names.add(f'{s.name}.{f}')

    def ok(p, t):
        todo, seen = [t], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                todo.append(x.body())
                continue
            if z3.is_app(x) and x.decl().name() in names and x.num_args():
                if not x.arg(0).eq(j) and not same(p, x.arg(0)):
                    return False
            todo += x.children()
        return True

    def same(p, a):
        if a.sort() != j.sort():
            return False
        s = z3.SimpleSolver()
        s.set('timeout', 500)
        s.add(seq.member(j) if seq is not None else j >= 0, p.cond, a != j)
        return s.check() == z3.unsat
    for p, e in zip(paths, eff):
        if not ok(p, p.cond):
            raise Unsupported('an element-wise effect depends on other members')
        if isinstance(p.val, (PvxInt, PvxBool, PvxVal)) and not ok(p, p.val.t):
            raise Unsupported('an element-wise effect depends on other members')


SKIP = object()


def comp(seq, test, elt, effects=True):
    """[elt(x) for x in seq if test(x)], evaluated now"""
    s = summarise(seq, lambda e: elt(e) if test is None or test(e) else SKIP, effects=effects)
    s.settle_exceptions()
    return collect(s)


def flat(seq, test, inner):
    """[y for x in seq if test(x) for y in inner(x)], evaluated now"""
    from pysx.hooks import drain
    s = summarise(seq, lambda e: drain(inner(e)) if test is None or test(e) else SKIP)
    s.settle_exceptions()
    paths = []
    for p in s.paths:
        if p.kind != 'ok':
            continue
        v = p.val
        if v is SKIP or isinstance(v, (list, tuple)) and not v:
            v = None
        elif not isinstance(v, PvxSeq):
            raise Unsupported('members that contribute several values each')
        paths.append((p.cond, v))
    return flatten(seq, s.j, paths)


def collect(s, kind=None, mutable=False):
    """the sequence of the values of a summary (other than SKIP)"""
    seq, j = s.seq, s.j
    kept = [p for p in s.paths if p.kind == 'ok' and p.val is not SKIP]
    skipped = [p for p in s.paths if p.kind == 'ok' and p.val is SKIP]
    s.apply()
    keep = seq.keep
    fresh = fresh_dicts(seq, kept, skipped, j)
    if fresh is not None:
        return PvxSeq(seq.n, fresh, kind=None, label='dictionaries', mutable=mutable)
    for p in kept:
        if mutable_in(p.val):
            raise Unsupported('a list or dictionary made for each of the members')
    if skipped:
        cond = z3.Or(*[p.cond for p in kept]) if kept else z3.BoolVal(False)
        keep = lambda i: (z3.And(seq.keep(i), s.at(cond, i)) if seq.keep is not None   # noqa
                          else s.at(cond, i))

    def elem(i):
        c = ctx()
        for k, p in enumerate(kept):
            if k == len(kept) - 1:
                # being a member, it is on one of the paths
                return reindex(p.val, j, i)
            if c.branch(s.at(p.cond, i)):
                return reindex(p.val, j, i)
        raise Infeasible()
    whole = len(kept) == 1 and is_identity(kept[0].val, seq, j)
    return PvxSeq(seq.n, elem, keep=keep, kind=seq.kind if whole else None,
                  label=f'comprehension over {seq.label}', mutable=mutable,
                  injective=seq.injective and whole, sort=seq.sort,
                  over=seq.over if not skipped else None)


def mutable_in(v):
    if isinstance(v, tuple):
        return any(mutable_in(x) for x in v)
    return isinstance(v, (list, dict, set)) or isinstance(v, PvxSeq) and v.mutable


def fresh_dicts(seq, kept, skipped, j):
    if skipped or len(kept) != 1 or seq.sort != I or seq.keep is not None:
        return None
    v = kept[0].val
    if type(v) is dict and not v:
        return dict_family(seq, None)
    if type(v) is tuple and len(v) == 2 and type(v[1]) is dict and not v[1]:
        return dict_family(seq, lambda i: reindex(v[0], j, i))
    return None


def is_identity(v, seq, j):
    c = ctx()

    def member():
        c.assume(seq.member(j))
        return seq.elem(j)
    c.generic.append(j)
    try:
        es = [p.val for p in c.nested(member)]
    except Unsupported:
        return False
    finally:
        c.generic.pop()
    return all(same_member(v, e) for e in es)


def same_member(v, e):
    if type(e) is not type(v):
        return False
    if hasattr(v, 'pvx_same'):
        return z3.is_true(simp(v.pvx_same(e)))
    return isinstance(v, (PvxInt, PvxKey, PvxVal)) and v.t.eq(e.t)


def first(seq, exc, default=SKIP):
    """the first member, or the exception / the default if there is none"""
    c = ctx()
    q = z3.Const(c.name_of('q'), seq.sort)
    if seq.keep is None:
        c.assume(seq.n >= 0)
        if c.branch(seq.n > 0):
            return seq.at(z3.IntVal(0))
    else:
        if seq.sort == I and c.check(z3.Not(seq.member(z3.IntVal(0)))) == z3.unsat:
            return seq.at(z3.IntVal(0))
        i = seq.inhabited()
        if i is not None:
            c.assume_checked(z3.ForAll([q], z3.Implies(z3.And(seq.member(q), seq.before(q, i)),
                                                       z3.BoolVal(False))))
            return seq.elem(simp(i))
    if default is not SKIP:
        return default
    raise contract_error(exc)


# ------------------------------------------------------------------ builtins
def seq_any(seq):
    s = summarise(seq, lambda e: truth(e))
    t = s.exists(lambda v: v)
    witness(seq, t, s.formula)
    return mkbool(t)


def seq_all(seq):
    s = summarise(seq, lambda e: truth(e))
    t = forall_members(seq, s.formula)
    witness(seq, z3.Not(t), lambda i: z3.Not(s.formula(i)))
    return mkbool(t)


def witness(seq, exists, fn):
    """names a member for which fn holds, if there is one"""
    c = ctx()
    if seq.sort != I or c.generic:
        return
    w = c.fresh('witness', I)
    c.assume(z3.Implies(exists, z3.And(seq.member(w), fn(w))))
    touch(w)


def seq_sum(seq, start=0):
    s = summarise(seq, lambda e: e)
    for p in s.paths:
        if p.kind != 'ok' or not isinstance(p.val, (int, PvxInt, PvxBool)):
            raise Unsupported('sum of other than integers')
    if seq.sort != I:
        if all(isinstance(p.val, int) and p.val == s.paths[0].val for p in s.paths):
            return mkint(seq.count() * s.paths[0].val + it(start))
        if seq.sort == Key and seq.over is None and all(
                isinstance(p.val, PvxBool) or p.val in (0, 1) for p in s.paths
                if not isinstance(p.val, PvxInt)) and not any(isinstance(p.val, PvxInt) for p in s.paths):
            # how many of them there are for which it is true
            return mkint(set_card(lambda k: z3.And(
                seq.member(k), s.value(I, it, k, z3.IntVal(0)) != 0)) + it(start))
        raise Unsupported('sum over keys')

    def f(i):
        t = s.value(I, it, i, z3.IntVal(0))
        return t if seq.keep is None else z3.If(seq.keep(i), t, z3.IntVal(0))
    return mkint(sum_term(seq.n, f) + it(start))


def seq_extreme(seq, high, default=SKIP, key=None):
    c = ctx()
    if key is not None:
        raise Unsupported('max/min with a key')
    s = summarise(seq, lambda e: e)
    vals = [p.val for p in s.paths]
    if any(p.kind != 'ok' for p in s.paths):
        raise Unsupported('max/min of raising members')
    q = z3.Const(c.name_of('q'), seq.sort)
    i = seq.inhabited()
    if i is None:
        if default is not SKIP:
            return default
        raise contract_error(ValueError('max() iterable argument is empty'))
    if all(isinstance(v, (int, PvxInt, PvxBool)) for v in vals):
        f = lambda x: s.value(I, it, x, z3.IntVal(0))      # noqa
        mk, le = mkint, (lambda a, b: a <= b)
    elif all(isinstance(v, (int, float, PvxInt, PvxReal)) for v in vals):
        f = lambda x: s.value(None, rt, x, z3.RealVal(0))  # noqa
        mk, le = mkreal, (lambda a, b: a <= b)
    elif all(isinstance(v, PvxKey) for v in vals):
        d = c.fresh('nokey', Key)
        f = lambda x: s.value(None, kt, x, d)              # noqa
        mk, le = PvxKey, (lambda a, b: kle(a, b))
    else:
        raise Unsupported('max/min of other than numbers and ids')
    bound = (le(f(q), f(i)) if high else le(f(i), f(q)))
    c.assume(z3.ForAll([q], z3.Implies(seq.member(q), bound)))
    return mk(f(i))


class PvxSet(Pvx):
    """a set made from a symbolic sequence"""

    def __init__(self, seq):
        self.seq = seq

    def pvx_isinstance(self, cls):
        return issubclass(set, cls)

    def pvx_len(self):
        c = ctx()
        s = summarise(self.seq, lambda e: e)
        p = s.paths
        if len(p) == 1 and p[0].kind == 'ok' and self.seq.keep is None:
            v = p[0].val
            t = getattr(v, 't', None)
            if t is not None:
                q1, q2 = z3.Consts(c.name_of('x') + ' ' + c.name_of('y'), I)
                d = c.fresh('distinct', I)
                inj = z3.ForAll([q1, q2], z3.Implies(
                    z3.And(self.seq.member(q1), self.seq.member(q2), s.at(t, q1) == s.at(t, q2)),
                    q1 == q2))
                c.assume(z3.And(d >= 0, d <= self.seq.n))
                c.assume((d == self.seq.n) == inj)
                return PvxInt(d)
        raise Unsupported('size of a set')

    def __contains__(self, x):
        return x in self.seq

    def listing(self):
        """its members, each once"""
        s = summarise(self.seq, lambda e: e)
        if any(p.kind != 'ok' or not isinstance(p.val, PvxKey) for p in s.paths):
            raise Unsupported('iteration over a symbolic set')
        q = z3.Const(ctx().name_of('member'), self.seq.sort)
        return PvxSeq(None, PvxKey, sort=Key, injective=True, label='set', keep=lambda k: z3.Exists([q], z3.And(
            self.seq.member(q), z3.Or(*[z3.And(s.at(p.cond, q), s.at(p.val.t, q) == k) for p in s.paths]))))

    def __iter__(self):
        raise Unsupported('iteration over a symbolic set')


def distinct_keys(pairs):
    """whether no two of the pairs can have the same key"""
    c = ctx()
    a, b = z3.Const(c.name_of('ka'), pairs.sort), z3.Const(c.name_of('kb'), pairs.sort)

    def two():
        c.assume(z3.And(pairs.member(a), pairs.member(b), a != b))
        k1, k2 = pairs.elem(a)[0], pairs.elem(b)[0]
        if hasattr(type(k1), 'pvx_same'):
            eq = k1.pvx_same(k2)
        elif type(k1) is type(k2) and isinstance(k1, (PvxKey, PvxInt)):
            eq = k1.t == k2.t
        else:
            raise Unsupported('what the keys of a dictionary are')
        return c.check(eq) == z3.unsat
    return all(p.kind == 'ok' and p.val for p in c.nested(two))


def offset(t, j):
    """the c for which the term is a function of j + c"""
    if j.sort() != I:
        return None
    todo = [t]
    while todo:
        x = todo.pop()
        if z3.is_app(x) and x.sort() == I and not x.eq(j) and mentions(x, j):
            d = simp(x - j)
            if not mentions(d, j):
                return d
        todo += x.children()
    return None


class PvxDict(Pvx):
    """a dictionary made from a symbolic sequence of pairs with distinct keys"""

    def __init__(self, pairs, checked=False):
        if not checked and not distinct_keys(pairs):
            raise Unsupported('a dictionary whose keys may coincide')
        self.pairs = pairs

    def pvx_isinstance(self, cls):
        return issubclass(dict, cls)

    def values(self):
        return comp(self.pairs, None, lambda p: p[1])

    def keys(self):
        return comp(self.pairs, None, lambda p: p[0])

    def items(self):
        return self.pairs

    def pvx_iter(self):
        return self.keys()

    def pvx_len(self):
        return self.pairs.pvx_len()

    def __bool__(self):
        return bool(self.pairs)

    def at(self, k):
        """the pair with this key, or None (fork)"""
        c = ctx()
        s, j = self.pairs, z3.Const('probe?', self.pairs.sort)
        sm = summarise(s, lambda p: p[0])
        if len(sm.paths) > 1:
            return self.at_cases(k, sm)
        e = s.elem(j)[0]
        t = getattr(e, 't', None)
        if t is not None and simp(t).eq(j):
            # numbered by the key itself
            i = kt(k) if s.sort == Key else it(k)
            if c.branch(s.member(i)):
                if s.sort == I:
                    touch(i)
                return s.elem(simp(i))
            return None
        if not isinstance(e, PvxKey) or s.sort not in (I, Key):
            raise Unsupported('lookup in a symbolic dictionary')
        # the member with that key, if there is one
        q = kt(k)
        w = c.fresh('at_key', s.sort)
        if c.branch(c.fresh('is_key', B)):
            c.assume(z3.And(s.member(w), kt(s.elem(w)[0]) == q))
            return s.elem(w)
        pat = {'patterns': [e.t]} if z3.is_app(e.t) and e.t.num_args() else {}
        c.assume(z3.ForAll([j], z3.Implies(s.member(j), e.t != q), **pat))
        return None

    def at_cases(self, k, sm):
        """the same, for pairs that are one of several things"""
        c, s, q = ctx(), self.pairs, kt(k)
        if any(p.kind != 'ok' or not isinstance(p.val, PvxKey) for p in sm.paths) \
                or s.sort not in (I, Key):
            raise Unsupported('lookup in a symbolic dictionary')
        w = c.fresh('at_key', s.sort)
        if c.branch(c.fresh('is_key', B)):
            c.assume(z3.And(s.member(w), sm.at(z3.Or(*[
                z3.And(p.cond, p.val.t == q) for p in sm.paths]), w)))
            return s.elem(w)
        for p in sm.paths:
            # numbered so that the key is a function of the number
            i, shift = sm.j, offset(p.val.t, sm.j)
            def num(t):
                return t if shift is None else simp(z3.substitute(t, (i, i - shift)))
            t = num(p.val.t)
            pat = {'patterns': [t]} if z3.is_app(t) and t.num_args() else {}
            c.assume(z3.ForAll([i], z3.Implies(z3.And(num(s.member(i)), num(p.cond)), t != q), **pat))
        return None

    pvx_logged = True

    def grown(self):
        """becomes a dictionary that can be added to"""
        from pysx.data import Merged
        c, old = ctx(), dict(self.__dict__)
        was, cls = PvxDict(self.pairs, True), type(self)

        def undo():
            self.__class__ = cls
            self.__dict__.clear()
            self.__dict__.update(old)
        c.log(('setitem', self), undo)
        self.__dict__.clear()
        self.__class__ = Merged
        self.parts = [was]
        return self

    def __setitem__(self, k, v):
        self.grown()[k] = v

    def update(self, *a, **k):
        self.grown().update(*a, **k)

    def copy(self):
        return PvxDict(self.pairs, True)

    def __getitem__(self, k):
        p = self.at(k)
        if p is None:
            raise contract_error(KeyError('key'))
        return p[1]

    def get(self, k, default=None):
        p = self.at(k)
        return default if p is None else p[1]

    def __contains__(self, k):
        return self.at(k) is not None

    def __getattr__(self, n):
        raise Unsupported(f'dict.{n} on a symbolic dictionary')


# ------------------------------------------------------------------ nested sequences
_pairs = {}


def pair_sort(s):
    k = s.name()
    if k not in _pairs:
        d = z3.Datatype('At_' + k)
        d.declare('at', ('fst', I), ('snd', s))
        _pairs[k] = d.create()
    return _pairs[k]


def flatten(outer, t, paths):
    """the members of inner sequences, one for each member t of the outer one.
    paths: (condition, inner sequence or None), both depending on t"""
    if outer.sort != I:
        raise Unsupported('nested listing')
    inner = [(cond, s) for cond, s in paths if s is not None]
    sorts = {s.sort.name() for _, s in inner}
    if len(sorts) != 1:
        raise Unsupported('inner sequences of different kinds')
    P = pair_sort(inner[0][1].sort)
    c = ctx()
    x = z3.Const(c.name_of('inner'), inner[0][1].sort)
    # evaluated here, where the outer member is known
    c.generic += [t, x]
    try:
        made = []
        for cond, s in inner:
            for p in c.nested(lambda s=s: s.elem(x)):
                if p.kind != 'ok' or p.defs:
                    raise Unsupported('members of an inner sequence')
                made.append((z3.And(cond, s.member(x)), p.cond, p.val))
    finally:
        del c.generic[-2:]

    def sub(f, p):
        return z3.substitute(f, (t, P.fst(p)), (x, P.snd(p)))

    def keep(p):
        return z3.And(outer.member(P.fst(p)), z3.Or(*[sub(m, p) for m, _, _ in made]))

    def elem(p):
        c = ctx()
        for k, (m, cond, v) in enumerate(made):
            if k == len(made) - 1 or c.branch(sub(z3.And(m, cond), p)):
                return reindex2(v, (t, P.fst(p)), (x, P.snd(p)))
    over = None
    if len(inner) == 1 and inner[0][1].over is not None and all(s is not None for _, s in paths):
        n = inner[0][1].over()
        over = lambda: sum_term(outer.n, lambda i: (                       # noqa
            z3.substitute(n, (t, i)) if outer.keep is None else
            z3.If(outer.keep(i), z3.substitute(n, (t, i)), z3.IntVal(0))))
    return PvxSeq(None, elem, keep=keep, sort=P, over=over, label='nested listing')


def reindex2(v, a, b):
    return reindex(reindex(v, *a), *b)


# ------------------------------------------------------------------ families of dictionaries
class MapRef(Pvx):
    """one of a family of dictionaries with ids as keys"""
    pvx_logged = True

    def __init__(self, store, idx):
        self.store, self.idx = store, idx

    @property
    def has(self):
        f, i = self.store.f['has'], self.idx
        return lambda k: f(i, k)

    @property
    def val(self):
        f, i = self.store.f['val'], self.idx
        return lambda k: f(i, k)

    def pvx_isinstance(self, cls):
        return issubclass(dict, cls)

    def pvx_at(self, store):
        return MapRef(store, self.idx)

    def pvx_reindex(self, j, i):
        return MapRef(self.store, z3.substitute(self.idx, (j, i)))

    def _seq(self, what):
        has, val = self.has, self.val

        def elem(k):
            if what == 'keys':
                return PvxKey(k)
            return PvxVal(val(k)) if what == 'values' else (PvxKey(k), PvxVal(val(k)))
        return PvxSeq(None, elem, keep=has, label=what, sort=Key, injective=what != 'values')

    def keys(self):
        return self._seq('keys')

    def values(self):
        return self._seq('values')

    def items(self):
        return self._seq('items')

    def pvx_iter(self):
        return self._seq('keys')

    def pvx_len(self):
        return mkint(set_card(self.has))

    def __bool__(self):
        c = ctx()
        q = z3.Const(c.name_of('kq'), Key)
        if c.branch(z3.Exists([q], self.has(q))):
            w = c.fresh('some', Key)
            c.assume(self.has(w))
            return True
        return False

    def __contains__(self, k):
        return ctx().branch(self.has(kt(k)))

    def __getitem__(self, k):
        if ctx().branch(self.has(kt(k))):
            return PvxVal(self.val(kt(k)))
        raise contract_error(KeyError('key'))

    def get(self, k, default=None):
        if ctx().branch(self.has(kt(k))):
            return PvxVal(self.val(kt(k)))
        return default

    def __setitem__(self, k, v):
        k = kt(k)
        self.store.set_key('has', self.idx, k, z3.BoolVal(True))
        self.store.set_key('val', self.idx, k, vt(v))

    def __getattr__(self, n):
        raise Unsupported(f'dict.{n} on one of a family of dictionaries')


def dict_family(seq, pairs):
    """{key(j): {} for j in seq}, or [{} for j in seq]"""
    c = ctx()
    name = c.name_of('dicts')
    st = Store(name, has=lambda j, k: z3.BoolVal(False),
               val=z3.Function(name + '.val', I, Key, Val))
    if pairs:
        return lambda j: (pairs(j), MapRef(st, j))
    return lambda j: MapRef(st, j)

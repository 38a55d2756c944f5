"""How many collections a new store gets (citrine.storage.utils), and that the
new store is laid out accordingly (Container.new over Group.new)."""
import z3

from pysx import hooks
from pysx.core import B, I, Unsupported, contract_error, ctx, simp
from pysx.contracts.common import outcome, truthy
from pysx.contracts.collection import BARE, tree_stubs, load as load_collection
from pysx.maps import CollectionContract
from pysx.seq import PvxSeq, touch
from pysx.sym import EDIV, PvxBool, PvxInt, divmod_, it, mkbool
from pysx.transform import Loader

# one, or prime: see is_prime below
PRIME = z3.Function('prime', I, B)


def load():
    L = Loader(stubs={**tree_stubs()}, bare=BARE)
    return L.load('citrine.storage.utils')


def around(*ts):
    """indices of interest near these values"""
    for t in ts:
        for d in range(4):
            touch(simp(t - d))


def is_prime(run):
    """is_prime(n), n >= 1: no a, b with 2 <= a, b and n = a * b"""
    mod = load()

    def h():
        c = ctx()
        n = c.fresh('num', I)
        c.assume(n >= 1)
        r = mod.is_prime(PvxInt(n))
        if c.branch(truthy(r)):
            a, b = c.fresh('a', I), c.fresh('b', I)
            c.assume(z3.And(a >= 2, b >= 2, n == a * b))
            w = simp(z3.If(a <= b, a, b))
            o = simp(z3.If(a <= b, b, a))
            c.lemma('is_prime: the smaller factor is at most the root', w * w <= n)
            around(w)
            q, m = divmod_(PvxInt(n), PvxInt(w))
            c.lemma('is_prime: a factor leaves no remainder', z3.And(
                z3.Implies(it(q) >= o + 1, w * it(q) >= w * o + w),
                z3.Implies(it(q) <= o - 1, w * it(q) <= w * o - w)))
            c.lemma('is_prime: a factor leaves no remainder', it(m) == 0)
            c.prove('is_prime: true only of 1 and of primes', z3.BoolVal(False))
        else:
            cands = []
            for r in c.known.get('idx', []):
                for d in range(4):
                    a = simp(r + d)
                    cands.append(z3.And(a >= 2, EDIV(n, a) >= 2, n == a * EDIV(n, a)))
            c.prove('is_prime: false only of numbers with a factor',
                    z3.Or(*cands) if cands else z3.BoolVal(False))
    run.explore('is_prime', h)
    run.covers('citrine.storage.utils:is_prime')


def prime_contract(x):
    c = ctx()
    if isinstance(x, int):
        return all(x % d for d in range(2, x))
    if not c.generic and c.branch(x.t < 1):
        raise Unsupported('is_prime of less than 1')
    return mkbool(PRIME(x.t))


def generator(run):
    """get_primes(min) yields primes only, starting with the first from min on"""
    mod = load()
    mod.is_prime = prime_contract

    def h():
        c = ctx()
        lo = c.fresh('min', I)
        c.assume(lo >= 1)
        how = c.choose(['no max', 'max'])
        hi = c.fresh('max', I)
        c.assume(hi >= 1)
        g = mod.get_primes(PvxInt(lo)) if how == 'no max' else mod.get_primes(
            min=PvxInt(lo), max=PvxInt(hi))
        p = next(g, None)
        q = c.fresh('other', I)
        c.assume(z3.And(q >= lo, PRIME(q)))
        for r in list(c.known.get('idx', [])):
            touch(simp(q - r))
        around(simp(q - lo))
        if p is None:
            c.prove('get_primes: ends only beyond the maximum', z3.And(how == 'max', q > hi))
            return
        p = it(p)
        c.prove('get_primes: the first is a prime from the start on', z3.And(p >= lo, PRIME(p)))
        c.prove('get_primes: the first is the smallest', q >= p)
        if how == 'max':
            c.prove('get_primes: within the maximum', p <= hi)
    run.explore('get_primes', h)
    run.covers('citrine.storage.utils:get_primes')


def number(run, name='number_of_collections'):
    mod = load()
    mod.is_prime = prime_contract

    def h():
        c = ctx()
        cap, limit = c.fresh('capacity', I), c.fresh('limit', I)
        c.assume(z3.And(cap >= 1, limit >= 1))
        how = c.choose(['positional', 'keywords'])
        if how == 'positional':
            p = mod.number_of_collections(PvxInt(cap), PvxInt(limit))
        else:
            p = mod.number_of_collections(capacity=PvxInt(cap), max_collection_size=PvxInt(limit))
        p = it(p)
        n = 'number_of_collections'
        c.prove(f'{n}: one or a prime', z3.And(p >= 1, PRIME(p)))
        c.prove(f'{n}: enough for the capacity', p * limit >= cap)
        q = c.fresh('other', I)
        c.assume(z3.And(q >= 1, q < p, q * limit >= cap))
        for r in list(c.known.get('idx', [])):
            touch(simp(q - p + r))
        around(simp(q), simp(q - p))
        c.prove(f'{n}: no smaller one is enough', z3.Not(PRIME(q)))
    run.explore(name, h)
    run.covers('citrine.storage.utils:number_of_collections', 'citrine.storage.utils:get_primes')


def number_contract(capacity, max_collection_size=5000):
    c = ctx()
    cap, limit = it(capacity), it(max_collection_size)
    if c.branch(z3.Or(cap < 1, limit < 1)):
        raise Unsupported('number_of_collections without a positive capacity and limit')
    p = c.fresh('number', I)
    c.assume(z3.And(p >= 1, PRIME(p), p * limit >= cap))
    return PvxInt(p)


def new_container(run):
    _, col = load_collection()
    stub = {n: v for n, v in vars(col).items()
            if isinstance(v, type) and issubclass(v, BaseException)}
    stub['Collection'] = CollectionContract
    L = Loader(stubs={**tree_stubs(), 'citrine.storage.collection': stub}, bare=BARE)
    L.load('citrine.storage.utils')
    mod = L.load('citrine.storage.container')
    mod.number_of_collections = number_contract

    def h():
        c = ctx()
        cap, limit = c.fresh('capacity', I), c.fresh('limit', I)
        st = PvxBool(c.fresh('strict', B))
        c.assume(z3.And(cap >= 1, limit >= 1))
        n = 'Container.new'
        kind, con = outcome(lambda: mod.Container.new(PvxInt(cap), PvxInt(limit), strict=st))
        if kind == 'exc':
            c.prove(f'{n}: does not refuse', z3.BoolVal(False), repr(con))
            return
        g = con.primary
        cols = hooks.as_seq(g.collections)
        if not isinstance(cols, PvxSeq) or cols.keep is not None:
            raise Unsupported('the collections are no plain sequence')
        c.prove(f'{n}: one group', it(hooks.h_len(con.groups)) == 1 if not isinstance(
            con.groups, tuple) else len(con.groups) == 1 and con.groups[0] is g)
        size = cols.n
        c.prove(f'{n}: the number of collections is one or a prime', z3.And(size >= 1, PRIME(size)))
        c.prove(f'{n}: as many collections as the capacity and the limit call for',
                size * limit >= cap)
        j = c.fresh('col', I)
        c.assume(z3.And(j >= 0, j < size))
        one = cols.elem(j)
        each = it(one.max_size)
        c.prove(f'{n}: no collection beyond the limit', z3.And(each <= limit, each >= 1))
        c.prove(f'{n}: strictness of each collection', truthy(one.strict) == st.t)
        c.prove(f'{n}: strictness of the group', truthy(g.strict) == st.t)
        c.prove(f'{n}: strictness of the container', truthy(con.strict) == st.t)
        c.lemma(f'{n}: room for the capacity in all collections', size * each >= cap)
        c.prove(f'{n}: room for the capacity', it(con.max_size) >= cap)
        c.prove(f'{n}: empty', it(con.size) == 0)
    run.explore('Container.new', h)
    run.covers('citrine.storage.container:Container.new', 'citrine.storage.group:Group.new',
               'citrine.storage.container:Container.__init__')


del contract_error

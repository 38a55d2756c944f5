"""What the instrumented code calls instead of the built-in operations."""
import builtins
import collections
import itertools
import math
import re
import types

import z3

from pysx.core import (Control, I, Infeasible, Unsupported, artefact, contract_error, ctx, _ctx)
from pysx import seq as S
from pysx.seq import PvxDict, PvxSeq, PvxSet, SKIP
from pysx.sym import (Pvx, PvxBool, PvxInt, PvxKey, PvxKeyBytes, PvxPoison, PvxReal, PvxVal, bt,
                      ceil_int, floor_int, it, kt, mkbool, mkint, mknot, real_sqrt, rt, same_value,
                      trunc_int, truth, PROCHASH)


# ------------------------------------------------------------------ identity
def pvx_is(a, b):
    if a is b:
        return True
    for x, y in ((a, b), (b, a)):
        if isinstance(x, PvxPoison):
            x._no()
        f = getattr(type(x), 'pvx_is', None)
        if f is not None:
            return f(x, y)
        f = getattr(type(x), 'pvx_same', None)
        if f is not None:
            if hasattr(type(y), 'pvx_same'):
                return mkbool(f(x, y))
            return False
    if isinstance(a, Pvx) or isinstance(b, Pvx):
        x, y = (a, b) if isinstance(a, Pvx) else (b, a)
        if y is None or y is Ellipsis or isinstance(y, (type, Pvx)) and type(x) is not type(y):
            return False
        if isinstance(x, PvxBool) and (y is True or y is False):
            return x == y
        if isinstance(x, PvxInt) and isinstance(y, bool):
            return False
        raise Unsupported(f'identity of {type(a).__name__} and {type(b).__name__}')
    return a is b


def same_or_equal(a, b):
    if isinstance(a, (Pvx, str, int, float, tuple)) or isinstance(b, (Pvx, str, int, float, tuple)):
        r = _eq(a, b)
        return False if r is NotImplemented else r
    return pvx_is(a, b)


def _pvx_is(a, b):
    return pvx_is(a, b)


def _pvx_isnot(a, b):
    return mknot(pvx_is(a, b))


# ------------------------------------------------------------------ mappings with symbolic keys
def symbolic_key(d):
    return any(isinstance(k, Pvx) or hasattr(type(k), 'pvx_same') or
               isinstance(k, tuple) and any(isinstance(x, Pvx) for x in k) for k in d)


def is_sym_key(k):
    return isinstance(k, Pvx) or hasattr(type(k), 'pvx_same') or \
        isinstance(k, tuple) and any(isinstance(x, Pvx) for x in k)


def find_key(d, k):
    """the key of d equal to k, or SKIP"""
    for x in list(d):
        if x is k:
            return x
    for x in list(d):
        r = (x == k)
        if r is NotImplemented:
            continue
        if r if isinstance(r, bool) else bool(r):
            return x
    return SKIP


def _pvx_in(a, c):
    if isinstance(c, (dict, set, frozenset)) and (is_sym_key(a) or symbolic_key(c)):
        return find_key(c, a) is not SKIP
    if isinstance(c, (tuple, list)) and (hasattr(type(a), 'pvx_same') or isinstance(a, Pvx)):
        for x in c:
            if bool(pvx_is(x, a)) if not isinstance(x, (str, int, float)) else False:
                return True
            if bool(x == a):
                return True
        return False
    if isinstance(c, str) and isinstance(a, Pvx):
        f = getattr(type(a), 'pvx_in_str', None)
        if f:
            return f(a, c)
        raise Unsupported('substring test')
    s = as_seq(c)
    if s is None and not isinstance(c, Pvx) and not hasattr(type(c), '__contains__'):
        from pysx.loops import own_iter
        g = own_iter(c)
        if g is not None:
            s = drain(g)
            if not isinstance(s, PvxSeq):
                return _pvx_in(a, list(s))
    if isinstance(s, PvxSeq) and '__contains__' not in type(c).__dict__:
        return S.PvxSeq.__contains__(s, a)
    return a in c


def _pvx_notin(a, c):
    return mknot(_pvx_in(a, c))


def _pvx_getitem(o, i):
    if isinstance(o, dict) and (is_sym_key(i) or (o and symbolic_key(o))):
        k = find_key(o, i)
        if k is SKIP:
            if hasattr(type(o), '__missing__'):
                raise Unsupported('default dictionary')
            raise contract_error(KeyError('key'))
        return o[k]
    if isinstance(i, PvxInt) and isinstance(o, (list, tuple, str)):
        n = len(o)
        c = ctx()
        if c.branch(z3.And(i.t >= -n, i.t < n)):
            for k in range(-n, n):
                if c.branch(i.t == k):
                    return o[k]
            raise Infeasible()
        raise contract_error(IndexError('index out of range'))
    if isinstance(i, slice) and any(isinstance(x, Pvx) for x in (i.start, i.stop, i.step)) \
            and not isinstance(o, Pvx):
        raise Unsupported('slice of a concrete sequence')
    return o[i]


def _pvx_setitem(o, i, v):
    c = _ctx[0]
    if isinstance(o, dict):
        if is_sym_key(i) or (o and symbolic_key(o)):
            k = find_key(o, i)
            if k is not SKIP:
                i = k
        old = o.get(i, SKIP) if not is_sym_key(i) else SKIP
        if is_sym_key(i):
            for x in o:
                if x is i:
                    old = dict.get(o, x)
        o[i] = v
        if c is not None:
            c.log((('setitem', o), None)[0], (lambda: o.pop(i, None)) if old is SKIP
                  else (lambda: o.__setitem__(i, old)))
        return
    if isinstance(o, list):
        if isinstance(i, PvxInt):
            raise Unsupported('assignment at a symbolic index')
        old = o[i]
        o[i] = v
        if c is not None:
            c.log(('setitem', o), lambda: o.__setitem__(i, old))
        return
    o[i] = v
    if c is not None and not getattr(type(o), 'pvx_logged', False):
        c.log(('setitem', o), None)


def _pvx_setattr(o, name, v):
    c = _ctx[0]
    old = SKIP
    d = getattr(o, '__dict__', None)
    if isinstance(d, dict):
        old = d.get(name, SKIP)
    setattr(o, name, v)
    if c is not None and not getattr(type(o), 'pvx_logged', False):
        def undo():
            if isinstance(d, dict):
                if old is SKIP:
                    d.pop(name, None)
                else:
                    d[name] = old
        c.log(('setattr', o, name), undo)


# ------------------------------------------------------------------ calls
LIST_MUT = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update',
            'setdefault', 'popitem', 'add', 'discard', 'appendleft', 'popleft'}
HANDLERS = {}


def handler(*fs):
    def deco(h):
        for f in fs:
            HANDLERS[f] = h
        return h
    return deco


def symbolic(*xs):
    return any(isinstance(x, (Pvx, Lazy)) or hasattr(type(x), 'pvx_same') for x in xs)


class Lazy:
    """a generator expression over a symbolic sequence, not yet evaluated"""
    parts = None

    def __init__(self, make):
        self.make, self.seq = make, None

    def force(self):
        if self.seq is None:
            self.seq = self.make()
            self.seq.lazy = False
        return self.seq

    def __iter__(self):
        raise Unsupported('Pvx: iteration over a lazy symbolic sequence')

    def __next__(self):
        raise Unsupported('Pvx: iteration over a lazy symbolic sequence')


def as_seq(x):
    """the symbolic sequence behind x, or None if x is an ordinary iterable"""
    if isinstance(x, Lazy):
        return x.force()
    if isinstance(x, PvxSeq):
        return x
    f = getattr(type(x), 'pvx_iter', None)
    if f is not None:
        return f(x)
    if isinstance(x, PvxDict):
        return x.keys()
    if type(x).__name__ == 'generator' and x.gi_frame is not None and x.gi_frame.f_lasti <= 0 \
            and '__pvx_gen__' in x.gi_code.co_varnames:
        return None
    return None


def _pvx_call(f, /, *a, **k):
    try:
        h = HANDLERS.get(f)
    except TypeError:
        h = None
    if h is not None:
        r = h(*a, **k)
        if _ctx[0] is not None and type(r) in (list, dict, set) and f in (list, dict, set, sorted):
            _ctx[0].born(r, len(_ctx[0].mutlog))
        return r
    slf = getattr(f, '__self__', None)
    if slf is not None and not isinstance(slf, type(builtins)):
        name = getattr(f, '__name__', '')
        t = type(slf)
        if t in (dict, set, list, collections.OrderedDict, collections.deque,
                 collections.defaultdict) or isinstance(slf, (dict, list, set)):
            return container_method(slf, f, name, a, k)
        if t is str and (symbolic(*a) or name == 'join' and a and type(a[0]) in (list, tuple)
                         and symbolic(*a[0])):
            return str_method(slf, f, name, a, k)
        if t is re.Pattern and symbolic(*a):
            from pysx import text
            return text.pattern_method(slf, f, name, a, k)
    c = _ctx[0]
    if c is not None:
        hk = c.hooks.get(f) if c.hooks and _hashable(f) else None
        if hk is not None:
            return hk(*a, **k)
        if c.hooks and type(f) is types.MethodType:
            hk = c.hooks.get(f.__func__)
            if hk is not None:
                return hk(slf, *a, **k)
        ind = c.hooks.get('induction')
        if ind is not None:
            r = ind(f, a, k)
            if r is not None:
                return r[0]
        if isinstance(f, type):
            start = len(c.mutlog)
            r = f(*a, **k)
            if type(r) is f and not isinstance(r, (str, int, tuple, float)):
                c.born(r, start)
            return r
    return f(*a, **k)


def _pvx_callkw(f, args, *parts):
    """a call with **keywords"""
    if any(n is None and (isinstance(v, Pvx) or isinstance(v, dict) and symbolic_key(v))
           for n, v in parts):
        from pysx import data
        m = data.Merged([{n: v} if n is not None else v for n, v in parts], keywords=True)
        c = _ctx[0]
        hk = c.hooks.get(f) if c is not None and _hashable(f) else None
        take = getattr(hk if hk is not None else type(f), 'pvx_callkw', None)
        if take is None:
            raise Unsupported('a call with keywords that are not known')
        return take(args, m) if hk is not None else take(f, args, m)
    kw = {}
    for n, v in parts:
        if n is not None:
            new = {n: v}
        else:
            if not hasattr(v, 'keys'):
                raise TypeError('argument after ** must be a mapping')
            new = {k: v[k] for k in v.keys()}
        for k in new:
            if not isinstance(k, str):
                raise TypeError('keywords must be strings')
            if k in kw:
                raise TypeError(f'got multiple values for keyword argument {k!r}')
        kw.update(new)
    return _pvx_call(f, *args, **kw)


def _pvx_dict(*parts):
    """a dictionary display with unpacking"""
    if len(parts) == 1 and parts[0][0] and hasattr(type(parts[0][2]), 'pvx_copies'):
        return parts[0][2].copy()
    if any(u and (isinstance(v, Pvx) or isinstance(v, dict) and symbolic_key(v)) or is_sym_key(k)
           for u, k, v in parts):
        from pysx import data
        return data.Merged([v if u else {k: v} for u, k, v in parts])
    r = {}
    for u, k, v in parts:
        if u:
            r.update(v)
        else:
            r[k] = v
    return _pvx_new(r)


def _pvx_new(x):
    """a list, dictionary or set display"""
    c = _ctx[0]
    if c is not None:
        c.born(x, len(c.mutlog))
    return x


def _hashable(f):
    try:
        hash(f)
        return True
    except Exception:       # noqa
        return False


def container_method(o, f, name, a, k):
    c = _ctx[0]
    if name == 'get' and isinstance(o, dict) and a and isinstance(a[0], PvxKey) and c is not None \
            and c.hooks.get('names'):
        from pysx import data
        return data.Merged([o]).get(*a, **k)
    if isinstance(o, (dict, set)) and a and (is_sym_key(a[0]) or symbolic_key(o)):
        if isinstance(o, dict):
            if name in ('get', 'pop', 'setdefault', '__getitem__', '__contains__'):
                key = find_key(o, a[0])
                if key is not SKIP:
                    a = (key,) + a[1:]
                    if name == 'get':
                        return o[key]
                elif name == 'get':
                    return a[1] if len(a) > 1 else k.get('default')
                elif name == 'pop':
                    if len(a) > 1:
                        return a[1]
                    raise contract_error(KeyError('key'))
                elif name in ('__getitem__',):
                    raise contract_error(KeyError('key'))
                elif name == '__contains__':
                    return False
        elif name in ('add', 'discard', 'remove'):
            key = find_key(o, a[0])
            if key is not SKIP:
                a = (key,)
            elif name == 'discard':
                return None
            elif name == 'remove':
                raise contract_error(KeyError('key'))
    if name in ('extend', 'update', 'intersection', 'difference', 'union', 'symmetric_difference',
                'issubset', 'issuperset') and any(as_seq(x) is not None for x in a):
        raise Unsupported(f'{type(o).__name__}.{name} with a symbolic sequence')
    if name == 'index' and isinstance(o, list) and a and symbolic(a[0], *o):
        for i, x in enumerate(o):
            if bool(_eq(x, a[0])):
                return i
        raise contract_error(ValueError('not in list'))
    if name in LIST_MUT and c is not None:
        if isinstance(o, list):
            old = list(o)
            r = f(*a, **k)
            c.log(('mutate', o, name, a), lambda: o.__setitem__(slice(None), old))
            return r
        old = o.copy() if hasattr(o, 'copy') else None
        r = f(*a, **k)

        def undo():
            o.clear()
            if isinstance(o, (dict, set)):
                o.update(old)
            else:
                o.extend(old)
        c.log(('mutate', o, name, a), undo)
        return r
    return f(*a, **k)


def _eq(x, y):
    if x is y:
        return True
    r = (x == y)
    return False if r is NotImplemented else r


def str_method(s, f, name, a, k):
    from pysx import strs
    return strs.str_method(s, f, name, a, k)


# ---- built-in functions
@handler(len)
def h_len(x):
    x = x.force() if isinstance(x, Lazy) else x
    g = getattr(type(x), 'pvx_len', None)
    if g is not None:
        return g(x)
    if not isinstance(x, Pvx):
        m = type(x).__dict__.get('__len__')
        for b in type(x).__mro__:
            m = b.__dict__.get('__len__')
            if m is not None:
                break
        if m is not None and hasattr(m, '__code__'):
            # a __len__ in Python may well return a symbolic number
            r = m(x)
            if isinstance(r, PvxInt):
                ctx().branch(r.t >= 0)
                return r
            return len(x) if not isinstance(r, int) else r
    return len(x)


@handler(isinstance)
def h_isinstance(x, cls):
    if isinstance(x, PvxPoison):
        x._no()
    f = getattr(type(x), 'pvx_isinstance', None)
    if f is not None:
        return f(x, cls)
    if hasattr(cls, 'pvx_stands_for') or isinstance(cls, tuple) and any(
            hasattr(y, 'pvx_stands_for') for y in cls):
        pass
    return isinstance(x, cls)


@handler(type)
def h_type(*a, **k):
    if len(a) == 1 and not k:
        f = getattr(type(a[0]), 'pvx_type', None)
        if f is not None:
            return f(a[0])
        if isinstance(a[0], Pvx):
            raise Unsupported(f'type of {builtins.type(a[0]).__name__}')
    return type(*a, **k)


@handler(bool)
def h_bool(*a):
    if a and isinstance(a[0], PvxBool):
        return a[0]
    if a and isinstance(a[0], PvxInt):
        return mkbool(a[0].t != 0)
    return bool(*a)


@handler(int)
def h_int(*a, **k):
    if a and isinstance(a[0], (PvxInt, PvxBool, PvxReal)):
        return trunc_int(a[0])
    if a and isinstance(a[0], Pvx):
        f = getattr(type(a[0]), 'pvx_int', None)
        if f:
            return f(a[0])
        raise Unsupported(f'int() of {type(a[0]).__name__}')
    return int(*a, **k)


@handler(float)
def h_float(*a):
    if a and isinstance(a[0], (PvxInt, PvxBool, PvxReal)):
        return PvxReal(rt(a[0]))
    if a and isinstance(a[0], Pvx):
        raise Unsupported('float()')
    return float(*a)


@handler(str)
def h_str(*a, **k):
    if a and isinstance(a[0], Pvx):
        f = getattr(type(a[0]), 'pvx_str', None)
        if f:
            return f(a[0])
        if isinstance(a[0], PvxKey):
            return a[0]
        if isinstance(a[0], (PvxInt, PvxBool)) or hasattr(type(a[0]), 'pvx_text'):
            from pysx import strs
            return strs.build(strs.conv(a[0], 's', ''))
        raise Unsupported(f'str() of {type(a[0]).__name__}')
    return str(*a, **k)


@handler(repr)
def h_repr(x):
    if isinstance(x, Pvx):
        return '\x02sym\x03'
    return repr(x)


@handler(hash)
def h_hash(x):
    if isinstance(x, PvxKey):
        return PvxInt(PROCHASH(x.t))
    if isinstance(x, Pvx):
        raise Unsupported('hash()')
    return hash(x)


@handler(abs)
def h_abs(x):
    return abs(x)


@handler(round)
def h_round(x, *a):
    if isinstance(x, PvxInt) and not a:
        return x
    if isinstance(x, PvxReal) and not a:
        # to the nearest, and of two to the even one
        f = it(floor_int(x))
        d = rt(x) - z3.ToReal(f)
        return mkint(z3.If(z3.Or(d > 0.5, z3.And(d == 0.5, f % 2 == 1)), f + 1, f))
    if isinstance(x, Pvx):
        raise Unsupported('round()')
    return round(x, *a)


@handler(divmod)
def h_divmod(a, b):
    return divmod(a, b)


@handler(math.ceil)
def h_ceil(x):
    return ceil_int(x) if isinstance(x, Pvx) else math.ceil(x)


@handler(math.floor)
def h_floor(x):
    return floor_int(x) if isinstance(x, Pvx) else math.floor(x)


@handler(math.trunc)
def h_trunc(x):
    return trunc_int(x) if isinstance(x, Pvx) else math.trunc(x)


@handler(math.sqrt)
def h_sqrt(x):
    return real_sqrt(x) if isinstance(x, Pvx) else math.sqrt(x)


@handler(math.isqrt)
def h_isqrt(x):
    return floor_int(real_sqrt(x)) if isinstance(x, Pvx) else math.isqrt(x)


@handler(pow)
def h_pow(a, b, *m):
    return pow(a, b, *m)


@handler(int.from_bytes)
def h_from_bytes(b, byteorder='big', *, signed=False):
    if isinstance(b, PvxKeyBytes):
        if byteorder != 'big' or signed:
            # some other number of the key, just as good
            t = z3.Function(f'keynum_{byteorder}_{signed}', b.t.sort(), I)(b.t)
            if not signed:
                ctx().assume(t >= 0)
            return PvxInt(t)
        return b.number()
    return int.from_bytes(b, byteorder, signed=signed)


@handler(any)
def h_any(x):
    s = drain(x) if not isgen(x) else as_seq(x)
    if isinstance(s, PvxSeq):
        return S.seq_any(s)
    for v in x:
        if v:
            return True
    return False


@handler(all)
def h_all(x):
    s = drain(x) if not isgen(x) else as_seq(x)
    if isinstance(s, PvxSeq):
        return S.seq_all(s)
    for v in x:
        if not v:
            return False
    return True


@handler(sum)
def h_sum(x, start=0):
    g = drain(x)
    if isinstance(g, PvxSeq):
        return S.seq_sum(g, start)
    for v in g:
        start = start + v
    return start


def _extreme(a, k, high):
    key = k.get('key')
    if len(a) == 1:
        g = drain(a[0])
        if isinstance(g, PvxSeq):
            return S.seq_extreme(g, high, k.get('default', SKIP), key)
        vals = list(g)
    else:
        vals = list(a)
    if not vals:
        if 'default' in k:
            return k['default']
        raise contract_error(ValueError('iterable argument is empty'))
    if not symbolic(*vals) and not any(isinstance(v, tuple) for v in vals):
        return (max if high else min)(vals, **({'key': key} if key else {}))
    best = vals[0]
    kb = key(best) if key else best
    for v in vals[1:]:
        kv = key(v) if key else v
        if (kv > kb) if high else (kv < kb):
            best, kb = v, kv
    return best


@handler(max)
def h_max(*a, **k):
    return _extreme(a, k, True)


@handler(min)
def h_min(*a, **k):
    return _extreme(a, k, False)


def drain(x):
    """a symbolic sequence or an ordinary iterable"""
    s = as_seq(x)
    if s is not None:
        return s
    if isgen(x):
        from pysx.loops import collect_generator
        return collect_generator(x)
    if not isinstance(x, (list, tuple, dict, set, str, range, Pvx)) and _ctx[0] is not None:
        from pysx.loops import own_iter
        g = own_iter(x)
        if g is not None:
            return drain(g)
    return x


def isgen(x):
    return type(x).__name__ == 'generator'


@handler(tuple)
def h_tuple(*a):
    if a:
        g = drain(a[0]) if not isinstance(a[0], PvxSet) else a[0].listing()
        if isinstance(g, PvxSeq):
            return PvxSeq(g.n, g.elem, g.keep, g.kind, label=g.label, injective=g.injective,
                          sort=g.sort, over=g.over)
        return tuple(g)
    return ()


@handler(list)
def h_list(*a):
    if a:
        g = drain(a[0]) if not isinstance(a[0], PvxSet) else a[0].listing()
        if isinstance(g, PvxSeq):
            return PvxSeq(g.n, g.elem, g.keep, g.kind, label=g.label, mutable=True,
                          injective=g.injective, sort=g.sort, over=g.over)
        return list(g)
    return []


@handler(set, frozenset)
def h_set(*a):
    if a:
        g = drain(a[0])
        if isinstance(g, PvxSeq):
            return PvxSet(g)
        vals = list(g)
        res = set()
        for v in vals:
            if find_key(res, v) is SKIP if (is_sym_key(v) or symbolic_key(res)) else True:
                res.add(v)
        return res
    return set()


@handler(dict)
def h_dict(*a, **k):
    if a:
        x = a[0]
        if isinstance(x, PvxDict) or hasattr(type(x), 'pvx_copies'):
            x = x.copy()
            if k:
                x.update(k)
            return x
        if isinstance(x, Pvx) or hasattr(type(x), 'pvx_same') or as_seq(x) is not None:
            f = getattr(type(x), 'pvx_dict', None)
            if f:
                return f(x)
            raise Unsupported('dict() of a symbolic value')
        if isgen(x) or isinstance(x, (list, tuple)):
            return _mkdict(list(x), k)
    return dict(*a, **k)


def _mkdict(pairs, k):
    d = {}
    for a, b in pairs:
        _pvx_setitem(d, a, b)
    d.update(k)
    return d


@handler(sorted)
def h_sorted(x, *, key=None, reverse=False):
    g = drain(x)
    if isinstance(g, PvxSeq):
        raise Unsupported('sorting a symbolic sequence')
    vals = list(g)
    if not symbolic(*vals) and not any(isinstance(v, tuple) and symbolic(*v) for v in vals):
        return sorted(vals, key=key, reverse=reverse)
    res = []
    for v in vals:
        kv = key(v) if key else v
        i = len(res)
        while i and (kv < res[i - 1][0] if not reverse else res[i - 1][0] < kv):
            i -= 1
        res.insert(i, (kv, v))
    return [v for _, v in res]


@handler(range)
def h_range(*a):
    if symbolic(*a):
        return S.seq_range(*a)
    return range(*a)


@handler(reversed)
def h_reversed(x):
    s = as_seq(x)
    if s is not None and s.sort != I:
        raise Unsupported('reversing a listing')
    if s is not None:
        n = s.n
        return PvxSeq(n, lambda j: s.elem(simp_(n - 1 - j)),
                      None if s.keep is None else (lambda j: s.keep(n - 1 - j)), s.kind,
                      label='reversed', injective=s.injective)
    return reversed(x)


def simp_(t):
    return z3.simplify(t)


@handler(enumerate)
def h_enumerate(x, start=0):
    s = as_seq(x)
    if s is not None:
        if s.keep is not None or s.sort != I:
            raise Unsupported('enumerate of a filtered sequence')
        return PvxSeq(s.n, lambda j: (mkint(j + it(start)), s.elem(j)), label='enumerate')
    return enumerate(x, start)


@handler(zip)
def h_zip(*xs, strict=False):
    ss = [as_seq(x) for x in xs]
    if any(s is not None for s in ss):
        if any(s is not None and s.keep is not None for s in ss) or strict:
            raise Unsupported('zip')
        if any(s is None for s in ss):
            raise Unsupported('zip of concrete and symbolic sequences')
        n = ss[0].n
        for s in ss[1:]:
            n = z3.If(s.n < n, s.n, n)
        return PvxSeq(z3.simplify(n), lambda j: tuple(s.elem(j) for s in ss), label='zip')
    return zip(*xs, strict=strict)


@handler(map)
def h_map(f, *xs):
    if len(xs) == 1 and as_seq(xs[0]) is not None:
        s = as_seq(xs[0])
        return Lazy(lambda: S.comp(s, None, f))
    return map(f, *xs)


@handler(filter)
def h_filter(f, x):
    s = as_seq(x)
    if s is not None:
        return Lazy(lambda: S.comp(s, f or (lambda e: e), lambda e: e))
    return filter(f, x)


@handler(itertools.chain)
def h_chain(*xs):
    ss = [as_seq(x) for x in xs]
    if any(s is not None for s in ss):
        res = None
        for x, s in zip(xs, ss):
            v = s if s is not None else tuple(x)
            res = v if res is None else S.concat(res, v)
        return res
    return itertools.chain(*xs)


@handler(itertools.chain.from_iterable)
def h_chain_from(xs):
    if isinstance(xs, Lazy) and xs.seq is None and xs.parts is not None:
        return Lazy(lambda: S.flat(*xs.parts))
    s = as_seq(own(xs))
    if s is None:
        return h_chain(*(drain(xs) if isgen(xs) else xs))
    return Lazy(lambda: S.flat(s, None, lambda x: x))


def own(x):
    """what is iterated over where an object has an __iter__ of its own"""
    from pysx import loops
    if _ctx[0] is None or as_seq(x) is not None or isgen(x) or isinstance(
            x, (list, tuple, dict, set, str, range, Pvx)):
        return x
    g = loops.own_iter(x)
    return x if g is None else loops.drain_for(g)


def _pvx_star(kind, *parts):
    """a tuple or list display with unpacking: (is unpacked, value) in order"""
    res = ()
    for star, v in parts:
        if not star:
            v = (v,)
        else:
            s = as_seq(own(v))
            v = s if s is not None else tuple(drain(v) if isgen(v) else v)
        res = S.concat(res, v) if isinstance(res, PvxSeq) or isinstance(v, PvxSeq) else res + v
    if isinstance(res, PvxSeq):
        return h_tuple(res) if kind == 'tuple' else h_list(res)
    return res if kind == 'tuple' else _pvx_new(list(res))


@handler(iter)
def h_iter(x, *a):
    s = as_seq(x)
    if s is not None:
        return SeqIter(s)
    return iter(x, *a)


class SeqIter(Pvx):
    """an explicit iterator over a symbolic sequence"""

    def __init__(self, s):
        self.s, self.pos = s, 0

    def pvx_next(self, default=SKIP):
        if self.s.keep is not None:
            if self.pos:
                raise Unsupported('next() on a filtered sequence')
            self.pos = 1
            return S.first(self.s, StopIteration(), default)
        c = ctx()
        if c.branch(self.s.n > self.pos):
            v = self.s.at(z3.IntVal(self.pos))
            self.pos += 1
            c.log(('next', self), lambda: setattr(self, 'pos', self.pos - 1))
            return v
        if default is not SKIP:
            return default
        raise contract_error(StopIteration())


@handler(next)
def h_next(x, *d):
    if hasattr(type(x), 'pvx_advance'):
        try:
            return x.pvx_advance()
        except StopIteration:
            if d:
                return d[0]
            raise
    if isinstance(x, SeqIter):
        return x.pvx_next(*d)
    if isinstance(x, Lazy):
        s = x.force()
        if getattr(x, 'used', False):
            raise Unsupported('second next() on a lazy sequence')
        x.used = True
        return S.first(s, StopIteration(), d[0] if d else SKIP)
    return next(x, *d)


@handler(id)
def h_id(x):
    if symbolic(x):
        f = getattr(type(x), 'pvx_id', None)
        if f:
            return f(x)
        raise Unsupported('id()')
    return id(x)


@handler(callable)
def h_callable(x):
    f = getattr(type(x), 'pvx_callable', None)
    if f:
        return f(x)
    if isinstance(x, Pvx):
        raise Unsupported('callable()')
    return callable(x)


@handler(hasattr)
def h_hasattr(o, n):
    f = getattr(type(o), 'pvx_hasattr', None)
    if f:
        return f(o, n)
    if isinstance(o, Pvx):
        raise Unsupported('hasattr()')
    return hasattr(o, n)


@handler(getattr)
def h_getattr(o, n, *d):
    f = getattr(type(o), 'pvx_getattr', None)
    if f:
        return f(o, n, *d)
    if isinstance(o, Pvx) and d:
        raise Unsupported('getattr()')
    return getattr(o, n, *d)


@handler(setattr)
def h_setattr(o, n, v):
    f = getattr(type(o), 'pvx_setattr', None)
    if f:
        return f(o, n, v)
    if isinstance(n, Pvx):
        raise Unsupported('setattr()')
    _pvx_setattr(o, n, v)


@handler(ord)
def h_ord(x):
    if isinstance(x, Pvx):
        raise Unsupported('ord()')
    return ord(x)


# ------------------------------------------------------------------ comprehensions
def _pvx_comp(kind, it_, test, elt, elt2=None):
    """[elt(x) for x in it_ if test(x)] and the like; functions of one argument"""
    it_ = own(it_)
    s = as_seq(it_)
    if s is None and isgen(it_) and it_.gi_frame is not None and kind != 'gen':
        it_ = drain(it_)
        s = as_seq(it_)
    if s is not None:
        if kind == 'gen':
            r = Lazy(lambda: S.comp(s, test, elt))
            r.parts = s, test, elt
            return r
        if kind == 'list':
            r = S.comp(s, test, elt)
            r.mutable = True
            return r
        if kind == 'set':
            return PvxSet(S.comp(s, test, elt))
        return PvxDict(S.comp(s, test, lambda x: (elt(x), elt2(x))))
    if kind == 'gen':
        return _gen(it_, test, elt)
    if kind == 'list':
        return _pvx_new([elt(x) for x in it_ if test is None or test(x)])
    if kind == 'set':
        return h_set(elt(x) for x in it_ if test is None or test(x))
    d = {}
    for x in it_:
        if test is None or test(x):
            _pvx_setitem_new(d, elt(x), elt2(x))
    return _pvx_new(d)


def _pvx_flat(kind, it_, test, inner):
    """a comprehension with several `for`: inner(x) gives what x contributes"""
    it_ = own(it_)
    s = as_seq(it_)
    if s is None and isgen(it_) and it_.gi_frame is not None and kind != 'gen':
        it_ = drain(it_)
        s = as_seq(it_)
    if s is not None:
        if kind == 'gen':
            return Lazy(lambda: S.flat(s, test, inner))
        r = S.flat(s, test, inner)
    elif kind == 'gen':
        return _chained(it_, test, inner)
    else:
        r = drain(_chained(it_, test, inner))
    if kind == 'list':
        if isinstance(r, PvxSeq):
            r.mutable = True
            return r
        return _pvx_new(list(r))
    if kind == 'set':
        return PvxSet(r) if isinstance(r, PvxSeq) else h_set(r)
    if isinstance(r, PvxSeq):
        return PvxDict(r)
    d = {}
    for k, v in r:
        _pvx_setitem_new(d, k, v)
    return _pvx_new(d)


def _chained(it_, test, inner):
    for x in it_:
        if test is None or test(x):
            r = inner(x)
            if as_seq(r) is not None:
                raise Unsupported('a comprehension over a listing inside of another one')
            yield from r


def _pvx_setitem_new(d, k, v):
    if is_sym_key(k) or symbolic_key(d):
        x = find_key(d, k)
        if x is not SKIP:
            k = x
    d[k] = v


def _gen(it_, test, elt):
    for x in it_:
        if test is None or test(x):
            yield elt(x)


# ------------------------------------------------------------------ text
def _pvx_fstr(*parts):
    """parts: literal strings, or (value, conversion, format spec)"""
    if not any(isinstance(p, tuple) and (isinstance(p[0], Pvx)) for p in parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                out.append(p)
            else:
                v, conv, spec = p
                if conv == 's':
                    v = str(v)
                elif conv == 'r':
                    v = repr(v)
                elif conv == 'a':
                    v = ascii(v)
                out.append(format(v, spec))
        return ''.join(out)
    from pysx import strs
    return strs.fstr(parts)


# ------------------------------------------------------------------ coroutines
class Coroutine(Pvx):
    """the call of a coroutine function, to be run once"""

    def __init__(self, fn, a, k):
        self.fn, self.a, self.k, self.used = fn, a, k, False

    def run(self):
        if self.used:
            raise contract_error(RuntimeError('cannot reuse already awaited coroutine'))
        self.used = True
        return self.fn(*self.a, **self.k)


def _pvx_coroutine(fn):
    import functools

    @functools.wraps(fn)
    def made(*a, **k):
        return Coroutine(fn, a, k)
    return made


def _pvx_await(x):
    if hasattr(type(x), 'pvx_await'):
        return x.pvx_await()
    if not isinstance(x, Coroutine):
        raise Unsupported(f'await of {type(x).__name__}')
    return x.run()


def _pvx_actx(x):
    if not hasattr(type(x), 'pvx_async'):
        raise Unsupported(f'async with {type(x).__name__}')
    return x


def _pvx_unsupported(what):
    raise Unsupported(what)


def _text():
    from pysx import text
    text.install(HANDLERS)


_text()
NAMES = {k: v for k, v in list(globals().items()) if k.startswith('_pvx_')}
del Control, artefact, bt, kt, same_value, PvxVal

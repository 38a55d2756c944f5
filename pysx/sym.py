"""Symbolic values. Class names start with Pvx so that an error message of the
interpreter about one of them is recognised as an artefact of the verifier."""
import z3

from pysx.core import (AXIOMS, B, I, Infeasible, Key, NONE, R, T, Unsupported, Val, contract_error,  # noqa
                       ctx, simp)


class Pvx:
    """base of all symbolic values"""
    __slots__ = ()
    pvx_types = ()

    def pvx_isinstance(self, cls):
        raise Unsupported(f'isinstance of {type(self).__name__}')

    def __format__(self, spec):
        return '\x02sym\x03'

    def __str__(self):
        raise Unsupported(f'str() of {type(self).__name__}')


def isa(sub, cls):
    """issubclass for a concrete type against a type or tuple"""
    return issubclass(sub, cls)


class PvxBool(Pvx):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = T(t)

    def __bool__(self):
        return ctx().branch(self.t)

    def __eq__(self, o):
        if isinstance(o, (PvxBool, bool)):
            return mkbool(self.t == bt(o))
        if isinstance(o, (PvxInt, int, float)):
            return mkbool(it(self) == it(o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return mknot(r)

    def __hash__(self):
        return 0

    def __and__(self, o):
        if isinstance(o, (bool, PvxBool)):
            return mkbool(z3.And(self.t, bt(o)))
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, PvxBool)):
            return mkbool(z3.Or(self.t, bt(o)))
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, PvxBool)):
            return mkbool(z3.Xor(self.t, bt(o)))
        return NotImplemented
    __rxor__ = __xor__

    def pvx_isinstance(self, cls):
        return isa(bool, cls)

    def pvx_type(self):
        return bool

    def __index__(self):
        return int(bool(self))

    def _i(self):
        return PvxInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._i() + o

    def __radd__(self, o):
        return o + self._i()

    def __sub__(self, o):
        return self._i() - o

    def __mul__(self, o):
        return self._i() * o

    def __lt__(self, o):
        return self._i() < o

    def __le__(self, o):
        return self._i() <= o

    def __gt__(self, o):
        return self._i() > o

    def __ge__(self, o):
        return self._i() >= o

    def __invert__(self):
        return -self._i() - 1

    def __repr__(self):
        return f'PvxBool({self.t})'


def bt(x):
    """z3 Bool of a Python or symbolic boolean"""
    if isinstance(x, PvxBool):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, z3.BoolRef):
        return x
    raise Unsupported(f'not a boolean: {type(x).__name__}')


def mkbool(t):
    t = simp(T(t))
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return PvxBool(t)


def mknot(x):
    if isinstance(x, bool):
        return not x
    return mkbool(z3.Not(bt(x)))


def truth(x):
    """the truth of a value as a z3 Bool (may fork for other kinds)"""
    if isinstance(x, PvxBool):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, PvxInt):
        return x.t != 0
    return z3.BoolVal(bool(x))


def it(x):
    """z3 Int of a Python or symbolic integer"""
    if isinstance(x, PvxInt):
        return x.t
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, PvxBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, z3.ArithRef) and x.is_int():
        return x
    raise Unsupported(f'not an integer: {type(x).__name__}')


def rt(x):
    """z3 Real of a number"""
    if isinstance(x, PvxReal):
        return x.t
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non finite float')
        from fractions import Fraction
        f = Fraction(x)
        return z3.RealVal(f'{f.numerator}/{f.denominator}')
    if isinstance(x, (int, PvxInt, PvxBool)):
        return simp(z3.ToReal(it(x)))
    raise Unsupported(f'not a number: {type(x).__name__}')


NUM = (int, float)


def pymod(a, b):
    """remainder of Python (sign of the divisor) for b > 0"""
    return a % b


class PvxInt(Pvx):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def pvx_isinstance(self, cls):
        return isa(int, cls)

    def pvx_type(self):
        return int

    def _bin(self, o, f, real=False):
        if isinstance(o, (PvxReal, float)):
            return mkreal(f(rt(self), rt(o)))
        if isinstance(o, (int, PvxInt, PvxBool)):
            return mkint(f(self.t, it(o)))
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple, bytes)):
            raise Unsupported('sequence repetition')
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.t >= 0, self.t, -self.t))

    def __pow__(self, e):
        if isinstance(e, int) and 0 <= e <= 4:
            r = z3.IntVal(1)
            for _ in range(e):
                r = r * self.t
            return mkint(r)
        if isinstance(e, float) and e == .5:
            return real_sqrt(self)
        raise Unsupported('power')

    def __truediv__(self, o):
        return divide(self, o)

    def __rtruediv__(self, o):
        return divide(o, self)

    def __floordiv__(self, o):
        return divmod_(self, o)[0]

    def __rfloordiv__(self, o):
        return divmod_(o, self)[0]

    def __mod__(self, o):
        return divmod_(self, o)[1]

    def __rmod__(self, o):
        if isinstance(o, str):
            raise Unsupported('string formatting')
        return divmod_(o, self)[1]

    def __divmod__(self, o):
        return divmod_(self, o)

    def __rdivmod__(self, o):
        return divmod_(o, self)

    def _cmp(self, o, f):
        if isinstance(o, (PvxReal, float)):
            if isinstance(o, float) and o in (float('inf'), float('-inf')):
                return f(0, o)
            return mkbool(f(rt(self), rt(o)))
        if isinstance(o, (int, PvxInt, PvxBool)):
            return mkbool(f(self.t, it(o)))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return mknot(self.__eq__(o))

    def __hash__(self):
        return 0

    def __bool__(self):
        return ctx().branch(self.t != 0)

    def __index__(self):
        raise Unsupported('a concrete integer is needed')

    def __int__(self):
        raise Unsupported('a concrete integer is needed')

    def __float__(self):
        raise Unsupported('a concrete float is needed')

    def is_integer(self):
        return True

    def __repr__(self):
        return f'PvxInt({self.t})'


class PvxReal(Pvx):
    """a float, treated as a mathematical real"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def pvx_isinstance(self, cls):
        return isa(float, cls)

    def pvx_type(self):
        return float

    def _bin(self, o, f):
        if isinstance(o, (int, float, PvxInt, PvxBool, PvxReal)):
            return mkreal(f(self.t, rt(o)))
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return divide(self, o)

    def __rtruediv__(self, o):
        return divide(o, self)

    def __floordiv__(self, o):
        return mkreal(z3.ToReal(floor_int(divide(self, o)).t))

    def __mod__(self, o):
        raise Unsupported('remainder of a real')

    def __neg__(self):
        return mkreal(-self.t)

    def __abs__(self):
        return mkreal(z3.If(self.t >= 0, self.t, -self.t))

    def _cmp(self, o, f):
        if isinstance(o, float) and o in (float('inf'), float('-inf')):
            return f(0, o)
        if isinstance(o, (int, float, PvxInt, PvxBool, PvxReal)):
            return mkbool(f(self.t, rt(o)))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return mknot(self.__eq__(o))

    def __hash__(self):
        return 0

    def __bool__(self):
        return ctx().branch(self.t != 0)

    def is_integer(self):
        return mkbool(z3.ToReal(z3.ToInt(self.t)) == self.t)

    def __repr__(self):
        return f'PvxReal({self.t})'


def mkint(t):
    t = simp(t)
    if z3.is_int_value(t):
        return t.as_long()
    return PvxInt(t)


def mkreal(t):
    return PvxReal(simp(t))


# functions of their operands, so that equal operands have equal results
QUOT = z3.Function('quot', R, R, R)
EDIV, EMOD = z3.Function('ediv', I, I, I), z3.Function('emod', I, I, I)
SQRT = z3.Function('sqrt', R, R)


def divide(a, b):
    """true division"""
    c = ctx()
    if not isinstance(a, (int, float, PvxInt, PvxBool, PvxReal)) or \
            not isinstance(b, (int, float, PvxInt, PvxBool, PvxReal)):
        return NotImplemented
    n, d = rt(a), rt(b)
    if c.branch(d == 0):
        raise contract_error(ZeroDivisionError('division by zero'))
    key = ('div', n.sexpr(), d.sexpr())
    if key in c.memo_path():
        return PvxReal(c.memo_path()[key])
    if z3.is_rational_value(simp(d)):
        return mkreal(n / d)
    q = QUOT(n, d)
    c.assume(z3.Implies(d != 0, q * d == n))
    c.memo_path()[key] = q
    return PvxReal(q)


def divmod_(a, b):
    c = ctx()
    if isinstance(a, (float, PvxReal)) or isinstance(b, (float, PvxReal)):
        raise Unsupported('floor division of reals')
    n, d = it(a), it(b)
    if c.branch(d == 0):
        raise contract_error(ZeroDivisionError('integer division or modulo by zero'))
    if z3.is_int_value(simp(d)):
        k = simp(d).as_long()
        if k > 0:
            return mkint(n / d), mkint(n % d)
    key = ('divmod', simp(n).sexpr(), simp(d).sexpr())
    memo = c.memo_path()
    if key not in memo:
        q, r = EDIV(n, d), EMOD(n, d)
        # (the product is left out where the harness has no use for it)
        c.assume(z3.Implies(d != 0, z3.And(
            True if c.hooks.get('linear') else n == d * q + r, z3.If(d > 0, z3.And(r >= 0, r < d), z3.And(r <= 0, r > d)))))
        memo[key] = q, r
    q, r = memo[key]
    return PvxInt(q), PvxInt(r)


def real_sqrt(x):
    c = ctx()
    v = rt(x)
    if c.branch(v < 0):
        raise contract_error(ValueError('math domain error'))
    memo = c.memo_path()
    key = ('sqrt', v.sexpr())
    if key not in memo:
        s = SQRT(v)
        c.assume(z3.Implies(v >= 0, z3.And(s >= 0, s * s == v)))
        memo[key] = s
    return PvxReal(memo[key])


def floor_int(x):
    if isinstance(x, (int, PvxInt, PvxBool)):
        return x
    c = ctx()
    v = rt(x)
    memo = c.memo_path()
    key = ('floor', v.sexpr())
    if key not in memo:
        k = c.fresh('floor', I)
        c.assume(z3.And(z3.ToReal(k) <= v, v < z3.ToReal(k) + 1))
        memo[key] = k
    return PvxInt(memo[key])


def ceil_int(x):
    if isinstance(x, (int, PvxInt, PvxBool)):
        return x
    c = ctx()
    v = rt(x)
    memo = c.memo_path()
    key = ('ceil', v.sexpr())
    if key not in memo:
        k = c.fresh('ceil', I)
        c.assume(z3.And(v <= z3.ToReal(k), z3.ToReal(k) - 1 < v))
        memo[key] = k
    return PvxInt(memo[key])


def trunc_int(x):
    """int() of a number"""
    if isinstance(x, PvxBool):
        return x._i()
    if isinstance(x, (int, PvxInt)):
        return x
    if ctx().branch(rt(x) >= 0):
        return floor_int(x)
    return ceil_int(x)


# ------------------------------------------------------------------ keys
kle = z3.Function('key_le', Key, Key, B)
KEYNUM = z3.Function('keynum', Key, I)          # int.from_bytes(key.encode())
KEYLEN = z3.Function('keylen', Key, I)          # length in UTF-8
PROCHASH = z3.Function('prochash', Key, I)      # hash(key), differs per process
_str_keys = {}


def key_order_axioms():
    a, b, c = z3.Consts('ka kb kc', Key)
    return [z3.ForAll([a, b], z3.Or(kle(a, b), kle(b, a)), patterns=[z3.MultiPattern(kle(a, b))]),
            z3.ForAll([a, b], z3.Implies(z3.And(kle(a, b), kle(b, a)), a == b),
                      patterns=[z3.MultiPattern(kle(a, b), kle(b, a))]),
            z3.ForAll([a, b, c], z3.Implies(z3.And(kle(a, b), kle(b, c)), kle(a, c)),
                      patterns=[z3.MultiPattern(kle(a, b), kle(b, c))])]


AXIOMS.extend(key_order_axioms())


def kt(x):
    if isinstance(x, PvxKey):
        return x.t
    if isinstance(x, str):
        # a string literal as a key: some key, the same one for the same text
        t = z3.Const('key:' + x, Key)
        c = ctx()
        if c.hooks.get('names'):
            known = c.known.setdefault('names', {})
            if x not in known:
                for o in known.values():
                    c.assume(o != t)
                known[x] = t
                for (how, y), f in c.known.get('key tests', {}).items():
                    c.assume(f(t) == z3.BoolVal(KEY_TESTS[how](x, y)))
        return t
    if isinstance(x, z3.ExprRef) and x.sort() == Key:
        return x
    raise Unsupported(f'not a key: {type(x).__name__}')


KEY_TESTS = {'startswith': str.startswith, 'endswith': str.endswith, 'contains': str.__contains__}


def key_test(how, y):
    """the predicate of ids that start with, end with or contain a given text"""
    c = ctx()
    known = c.known.setdefault('key tests', {})
    if (how, y) in known:
        return known[how, y]
    f = z3.Function(f'key_{how}_{y!r}', Key, B)
    k = z3.Const('tested key', Key)
    for x, t in c.known.get('names', {}).items():
        c.assume(f(t) == z3.BoolVal(KEY_TESTS[how](x, y)))
    if not y:
        c.assume(z3.ForAll([k], f(k), patterns=[f(k)]))
    else:
        c.assume(z3.ForAll([k], z3.Implies(f(k), KEYLEN(k) > 0), patterns=[f(k)]))
    for (other, x), g in known.items():
        for (h1, y1, f1), (h2, y2, f2) in (((how, y, f), (other, x, g)), ((other, x, g), (how, y, f))):
            # what has the first text there has the second one as well
            if (h2 == 'contains' and y2 in y1) or (h1 == h2 and h1 != 'contains' and KEY_TESTS[h1](y1, y2)):
                c.assume(z3.ForAll([k], z3.Implies(f1(k), f2(k)), patterns=[f1(k)]))
            elif h1 == h2 == 'startswith' and not y2.startswith(y1) or \
                    h1 == h2 == 'endswith' and not y2.endswith(y1):
                c.assume(z3.ForAll([k], z3.Not(z3.And(f1(k), f2(k))), patterns=[z3.MultiPattern(f1(k), f2(k))]))
    known[how, y] = f
    return f


class PvxKey(Pvx):
    """an arbitrary string used as an id"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def pvx_isinstance(self, cls):
        return isa(str, cls)

    def pvx_type(self):
        return str

    def __eq__(self, o):
        if isinstance(o, PvxKey):
            return mkbool(self.t == o.t)
        if isinstance(o, str) and ctx().hooks.get('names'):
            return mkbool(self.t == kt(o))
        if isinstance(o, (str, Pvx)):
            raise Unsupported('comparison of an id with a string')
        return False

    def __ne__(self, o):
        return mknot(self.__eq__(o))

    def __hash__(self):
        return 0

    def __lt__(self, o):
        return mkbool(z3.Not(kle(kt(o), self.t)))

    def __le__(self, o):
        return mkbool(kle(self.t, kt(o)))

    def __gt__(self, o):
        return mkbool(z3.Not(kle(self.t, kt(o))))

    def __ge__(self, o):
        return mkbool(kle(kt(o), self.t))

    def __bool__(self):
        return ctx().branch(KEYLEN(self.t) != 0)

    def _test(self, how, y, rest=()):
        ys = y if isinstance(y, tuple) and how != 'contains' else (y,)
        if rest or not all(type(x) is str for x in ys):
            raise Unsupported('part of an id')
        return mkbool(z3.Or(*[key_test(how, x)(self.t) for x in ys]))

    def startswith(self, x, *rest):
        return self._test('startswith', x, rest)

    def endswith(self, x, *rest):
        return self._test('endswith', x, rest)

    def __contains__(self, x):
        return bool(self._test('contains', x))

    def encode(self, encoding='utf-8', errors='strict'):
        if encoding.lower().replace('_', '-') not in ('utf-8', 'utf8'):
            raise Unsupported('encoding')
        return PvxKeyBytes(self.t)

    def __repr__(self):
        return f'PvxKey({self.t})'


class PvxKeyBytes(Pvx):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def number(self):
        ctx().assume(KEYNUM(self.t) >= 0)
        return PvxInt(KEYNUM(self.t))


# ------------------------------------------------------------------ values
TRUTHY = z3.Function('truthy', Val, B)
VEQ = z3.Function('val_eq', Val, Val, B)


class PvxVal(Pvx):
    """an arbitrary stored object (None included): only its identity is known,
    looking inside is out of the verifier's reach, except for its truth, which
    is arbitrary, and its equality with others, which is arbitrary too"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        if isinstance(o, PvxVal):
            return mkbool(VEQ(self.t, o.t))
        return mkbool(z3.Function('val_eq_c', Val, I, B)(self.t, z3.IntVal(id(o))))

    def __ne__(self, o):
        return mknot(self.__eq__(o))

    def __hash__(self):
        raise Unsupported('hash of an arbitrary value')

    def __bool__(self):
        c = ctx()
        c.assume(z3.Not(TRUTHY(NONE)))
        return c.branch(TRUTHY(self.t))

    def pvx_is(self, o):
        if isinstance(o, PvxVal):
            return mkbool(self.t == o.t)
        if o is None:
            return mkbool(self.t == NONE)
        if isinstance(o, (bool, int, str)) or o is Ellipsis:
            return mkbool(z3.Function('val_is_c', Val, I, B)(self.t, z3.IntVal(id(o))))
        return False

    def __repr__(self):
        return f'PvxVal({self.t})'


def vt(x):
    if isinstance(x, PvxVal):
        return x.t
    if x is None:
        return NONE
    if isinstance(x, z3.ExprRef) and x.sort() == Val:
        return x
    c = ctx()
    objs = c.known.setdefault('objects', [])
    for o, t in objs:
        if o is x:
            return t
    t = c.fresh('obj', Val)
    for o, u in objs:
        c.assume(t != u)
    c.assume(t != NONE)
    objs.append((x, t))
    return t


def same_value(a, b):
    """identity of two values as a formula"""
    if a is b:
        return z3.BoolVal(True)
    if isinstance(a, PvxVal) or isinstance(b, PvxVal):
        return vt(a) == vt(b)
    if isinstance(a, (PvxInt, PvxBool, int)) and isinstance(b, (PvxInt, PvxBool, int)):
        return it(a) == it(b)
    if isinstance(a, PvxKey) or isinstance(b, PvxKey):
        return kt(a) == kt(b)
    if isinstance(a, Pvx) or isinstance(b, Pvx):
        raise Unsupported(f'comparing {type(a).__name__} and {type(b).__name__}')
    return z3.BoolVal(a is b or (type(a) is type(b) and isinstance(a, (int, str, float)) and a == b))


class PvxPoison(Pvx):
    """a variable whose value after a loop is not known"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def _no(self, *a, **k):
        raise Unsupported(f'variable {object.__getattribute__(self, "name")} is used after or '
                          'across iterations of a loop without an invariant')
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = _no
    __iter__ = __len__ = __bool__ = __call__ = __getitem__ = __setitem__ = __contains__ = _no
    __sub__ = __rsub__ = __mul__ = __and__ = __or__ = __hash__ = __index__ = _no
    __format__ = __str__ = __repr__ = _no

    def __getattr__(self, n):
        self._no()

"""Strings put together from literal text and symbolic parts."""
import z3

from pysx.core import B, I, Unsupported, ctx
from pysx.sym import Pvx, PvxBool, PvxInt, PvxKey, PvxPoison, PvxReal, PvxVal, mkbool, mkint

Tok = z3.DeclareSort('Text')
NDIG = z3.Function('ndigits', I, I)


class Num:
    """the decimal digits of an integer"""

    def __init__(self, t, spec=''):
        self.t, self.spec = t, spec

    def length(self):
        n = NDIG(self.t)
        ctx().assume(n >= 1)
        width = 0
        s = self.spec.rstrip('d')
        if s:
            try:
                width = int(s)
            except ValueError:
                raise Unsupported('format of a number')
        return z3.If(n > width, n, z3.IntVal(width)) if width else n

    def __repr__(self):
        return f'<{self.t}:{self.spec}>'


class Opaque:
    """text nobody looks into"""

    def __init__(self, v):
        self.v = v

    def length(self):
        n = ctx().fresh('textlen', I)
        ctx().assume(n >= 0)
        return n

    def __repr__(self):
        return '<..>'


class PvxStr(Pvx):
    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = out

    def pvx_isinstance(self, cls):
        return issubclass(str, cls)

    def pvx_type(self):
        return str

    def pvx_str(self):
        return self

    def pvx_len(self):
        n = z3.IntVal(0)
        for p in self.parts:
            n = n + (len(p) if isinstance(p, str) else p.length())
        return mkint(z3.simplify(n))

    def __bool__(self):
        if any(isinstance(p, (str, Num)) for p in self.parts):
            return True
        if not self.parts:
            return False
        raise Unsupported('whether a text is empty')

    def __add__(self, o):
        return build(self.parts + parts_of(o)) if stringy(o) else NotImplemented

    def __radd__(self, o):
        return build(parts_of(o) + self.parts) if stringy(o) else NotImplemented

    def __eq__(self, o):
        if isinstance(o, str):
            if not any(not isinstance(p, (str, Num)) for p in self.parts):
                # digits only where the literal text is not
                lits = ''.join(p for p in self.parts if isinstance(p, str))
                if not subsequence(lits, o):
                    return False
            raise Unsupported('comparison of a text')
        if isinstance(o, PvxStr):
            if len(o.parts) == len(self.parts) and all(
                    a == b if isinstance(a, str) or isinstance(b, str) else
                    type(a) is type(b) is Num and a.spec == b.spec
                    for a, b in zip(self.parts, o.parts)):
                return mkbool(z3.And(*[a.t == b.t for a, b in zip(self.parts, o.parts)
                                       if isinstance(a, Num)]))
            raise Unsupported('comparison of texts')
        return False

    def __ne__(self, o):
        from pysx.sym import mknot
        return mknot(self == o)

    def __hash__(self):
        raise Unsupported('hash of a text')

    def __mod__(self, o):
        raise Unsupported('% formatting')

    def __iter__(self):
        raise Unsupported('characters of a text')

    def __getitem__(self, i):
        raise Unsupported('characters of a text')

    def startswith(self, s, *a):
        if not a and isinstance(s, str) and self.parts and isinstance(self.parts[0], str) \
                and (len(self.parts[0]) >= len(s) or not s.startswith(self.parts[0])):
            return self.parts[0].startswith(s)
        raise Unsupported('startswith')

    def endswith(self, s, *a):
        if not a and isinstance(s, str) and self.parts and isinstance(self.parts[-1], str) \
                and (len(self.parts[-1]) >= len(s) or not s.endswith(self.parts[-1])):
            return self.parts[-1].endswith(s)
        raise Unsupported('endswith')

    def rstrip(self, chars=None):
        p = list(self.parts)
        if p and isinstance(p[-1], str) and isinstance(chars, str):
            s = p[-1].rstrip(chars)
            if s or len(p) == 1:
                return build(p[:-1] + [s])
        raise Unsupported('rstrip')

    def join(self, xs):
        raise Unsupported('join')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'str.{n} on a symbolic text')

    def __repr__(self):
        return 'text' + repr(self.parts)

    # where an exception is shown; code under contract goes through the hooks
    __str__ = __repr__


def subsequence(a, b):
    it_ = iter(b)
    return all(ch in it_ for ch in a)


def stringy(o):
    return isinstance(o, (str, PvxStr, PvxKey)) or hasattr(type(o), 'pvx_text')


def parts_of(o):
    if isinstance(o, str):
        return [o]
    if isinstance(o, PvxStr):
        return list(o.parts)
    if hasattr(type(o), 'pvx_text'):
        return list(o.pvx_text())
    return [Opaque(o)]


def build(parts):
    if all(isinstance(p, str) for p in parts):
        return ''.join(parts)
    return PvxStr(parts)


def conv(v, cv, spec):
    """the text of one formatted value"""
    if isinstance(v, PvxPoison):
        v._no()
    if isinstance(v, PvxInt) and cv in ('', 's', 'r'):
        t = z3.simplify(v.t)
        if z3.is_int_value(t):
            return [format(t.as_long(), spec)]
        return [Num(t, spec)]
    if isinstance(v, PvxBool):
        return [format(ctx().branch(v.t), spec)] if cv != 'r' else [repr(ctx().branch(v.t))]
    if hasattr(type(v), 'pvx_text') and cv in ('', 's') and not spec:
        return list(v.pvx_text())
    if isinstance(v, PvxStr) and cv in ('', 's') and not spec:
        return list(v.parts)
    if isinstance(v, (Pvx, PvxVal, PvxReal)):
        return [Opaque(v)]
    if cv == 's':
        v = str(v)
    elif cv == 'r':
        v = repr(v)
    elif cv == 'a':
        v = ascii(v)
    if isinstance(spec, PvxStr):
        raise Unsupported('symbolic format specification')
    if has_sym(v):
        return [Opaque(v)]
    return [format(v, spec)]


def has_sym(v):
    if isinstance(v, (list, tuple, set, frozenset)):
        return any(isinstance(x, Pvx) or has_sym(x) for x in v)
    if isinstance(v, dict):
        return any(isinstance(x, Pvx) or has_sym(x) for kv in v.items() for x in kv)
    return False


def fstr(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
        else:
            out += conv(*p)
    return build(out)


def str_method(s, f, name, a, k):
    """a method of an ordinary string with symbolic arguments"""
    if name == 'join':
        from pysx.hooks import drain
        from pysx.seq import PvxSeq
        g = drain(a[0])
        if isinstance(g, PvxSeq):
            return PvxStr([Opaque(g)])
        out = []
        for i, x in enumerate(g):
            if not stringy(x):
                raise TypeError(f'sequence item {i}: expected str instance')
            if i:
                out.append(s)
            out += parts_of(x)
        return build(out)
    if name == 'format':
        import string
        out, auto = [], 0
        for lit, field, spec, cv in string.Formatter().parse(s):
            out.append(lit)
            if field is None:
                continue
            if field == '':
                field, auto = str(auto), auto + 1
            if not field.isalnum() and not field.isidentifier():
                raise Unsupported('format() with an expression')
            v = a[int(field)] if field.isdigit() else k[field]
            out += conv(v, cv or '', spec or '')
        return build(out)
    if name in ('__add__',):
        return build([s] + parts_of(a[0]))
    if name in ('startswith', 'endswith', '__eq__'):
        raise Unsupported(f'str.{name} with a symbolic argument')
    raise Unsupported(f'str.{name} with symbolic arguments')


del B

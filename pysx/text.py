"""Symbolic text that code looks into.

PvxText   an arbitrary string. What is known of it is which regular languages it
          is in: one predicate each, of which the combinations that no string
          has are excluded (pysx/rx.py decides that)
PvxChars  a string of known length whose characters are symbolic

Regular expressions are those of the code: parsed by Python's own parser and
taken as languages (PvxText), or matched by backtracking in the order of Python's
engine (PvxChars). \\d and \\w are the Unicode classes unless the pattern says
ASCII."""
import re
import re._constants as K

import z3

from pysx import rx
from pysx.core import B, I, Unsupported, contract_error, ctx, simp
from pysx.sym import Pvx, PvxInt, mkbool, mkint, mknot

Txt = z3.DeclareSort('Txt')
LEN = z3.Function('textlength', Txt, I)
_preds = {}


def pred(r):
    """the predicate of a language"""
    if r not in _preds:
        _preds[r] = z3.Function(f'in_language_{len(_preds)}', Txt, B)
    return _preds[r]


class Known:
    """the combinations of languages a text may be in: (languages, [(signs, their
    intersection)])"""

    def __init__(self, langs=(), combos=(((), rx.ALL),)):
        self.langs, self.combos = langs, combos


def registry():
    return ctx().known.setdefault('texts', {})


def member(t, r):
    """t is in r"""
    if r == rx.ALL:
        return z3.BoolVal(True)
    if r == rx.NONE:
        return z3.BoolVal(False)
    if r[0] == 'not':
        return z3.Not(member(t, r[1]))
    learn(t, r)
    return pred(r)(t)


def learn(t, r):
    c = ctx()
    reg = registry()
    k = reg.get(t.get_id(), (t, Known()))[1]
    if r in k.langs:
        return
    combos = []
    for signs, x in k.combos:
        for sign in (True, False):
            y = rx.both(x, r if sign else rx.no(r))
            if rx.some(y) is not None:
                combos.append((signs + (sign,), y))
    if len(combos) > 400:
        raise Unsupported('too much is asked of a text')
    langs = k.langs + (r,)
    reg[t.get_id()] = (t, Known(langs, tuple(combos)))
    c.assume(z3.Or(*[z3.And(*[pred(x)(t) if s else z3.Not(pred(x)(t))
                              for x, s in zip(langs, signs)]) for signs, _ in combos]))
    for a, b in c.known.setdefault('text_links', {}).values():
        if a.get_id() == t.get_id() or b.get_id() == t.get_id():
            learn(b if a.get_id() == t.get_id() else a, r)
    single(t, r)


def single(t, r):
    """texts that are the same one word are equal"""
    w = rx.some(r)
    if w is None or r != rx.word(w):
        return
    c = ctx()
    for a, b in c.known.setdefault('text_links', {}).values():
        if t.get_id() in (a.get_id(), b.get_id()):
            c.assume(z3.Implies(z3.And(pred(r)(a), pred(r)(b)), a == b))


def link(a, b):
    """a and b are compared: what is known of one is asked of the other"""
    c = ctx()
    links = c.known.setdefault('text_links', {})
    k = tuple(sorted((a.get_id(), b.get_id())))
    if k in links or a.get_id() == b.get_id():
        return
    links[k] = (a, b)
    reg = registry()
    for x, y in ((a, b), (b, a)):
        for r in reg.get(x.get_id(), (x, Known()))[1].langs:
            learn(y, r)
            single(x, r)


def language(p, how='fullmatch', flags=0):
    return rx.language(p, how, flags)


class Found(Pvx):
    """a match object of which only its existence is known"""

    def __bool__(self):
        return True

    def pvx_is(self, o):
        return self is o

    def __getattr__(self, n):
        raise Unsupported(f'{n}() of a match in an arbitrary text')


class PvxText(Pvx):
    """an arbitrary string"""

    def __init__(self, t):
        self.t = t

    @classmethod
    def fresh(cls, name):
        return cls(ctx().fresh(name, Txt))

    def pvx_isinstance(self, cls):
        if isinstance(cls, tuple):
            return any(self.pvx_isinstance(x) for x in cls)
        return issubclass(str, cls)

    def pvx_type(self):
        return str

    def pvx_str(self):
        return self

    def pvx_text(self):
        from pysx.strs import Opaque
        return [Opaque(self)]

    def pvx_len(self):
        n = LEN(self.t)
        ctx().assume(z3.And(n >= 0, (n == 0) == self.within(rx.EPS)))
        return mkint(n)

    def pvx_is(self, o):
        if o is None or not isinstance(o, (PvxText, str)):
            return False
        raise Unsupported('identity of texts')

    def pvx_reindex(self, j, i):
        return PvxText(z3.substitute(self.t, (j, i)))

    def __bool__(self):
        return ctx().branch(z3.Not(self.within(rx.EPS)))

    def __eq__(self, o):
        if isinstance(o, str):
            return mkbool(self.within(rx.word(o)))
        if isinstance(o, PvxText):
            link(self.t, o.t)
            return mkbool(self.t == o.t)
        if isinstance(o, Pvx) and getattr(type(o), 'pvx_isinstance', None) and o.pvx_isinstance(str):
            raise Unsupported('comparison of texts')
        return False

    def __ne__(self, o):
        return mknot(self == o)

    def __hash__(self):
        raise Unsupported('hash of a text')

    def pvx_in_str(self, s):
        return mkbool(self.within(rx.alt(rx.EPS, *{
            rx.word(s[i:j]) for i in range(len(s)) for j in range(i + 1, len(s) + 1)})))

    def __contains__(self, x):
        if not isinstance(x, str):
            raise Unsupported('substring test')
        return ctx().branch(self.within(rx.cats([rx.ALL, rx.word(x), rx.ALL])))

    def affix(self, s, make):
        if not isinstance(s, (str, tuple)) or isinstance(s, tuple) and not all(
                isinstance(x, str) for x in s):
            raise Unsupported('affix of a text')
        return mkbool(self.within(rx.alt(*[make(rx.word(x)) for x in (
            s if isinstance(s, tuple) else (s,))])))

    def startswith(self, s, *a):
        if a:
            raise Unsupported('startswith with bounds')
        return self.affix(s, lambda w: rx.cat(w, rx.ALL))

    def endswith(self, s, *a):
        if a:
            raise Unsupported('endswith with bounds')
        return self.affix(s, lambda w: rx.cat(rx.ALL, w))

    def all_of(self, chars):
        """not empty, and every character in the class"""
        r = rx.cls(chars)
        return mkbool(self.within(rx.cat(r, rx.star(r))))

    def isascii(self):
        return mkbool(self.within(rx.star(rx.cls([(0, 127)]))))

    def __add__(self, o):
        raise Unsupported('concatenation of arbitrary texts')

    __radd__ = __add__

    def __getitem__(self, i):
        if isinstance(i, slice) and i.step in (None, 1) and i.stop is None and isinstance(
                i.start, int) and i.start >= 0:
            return Tail.of(self, i.start)
        raise Unsupported('part of an arbitrary text')

    def removeprefix(self, s):
        return self[len(s):] if bool(self.startswith(s)) else self

    def __iter__(self):
        raise Unsupported('characters of an arbitrary text')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'str.{n} on an arbitrary text')

    def __repr__(self):
        return f'text({self.t})'

    def within(self, r):
        return member(self.t, r)

    def matches(self, how, p, flags=0):
        return Found() if ctx().branch(self.within(rx.language(p, how, flags))) else None


class Tail(PvxText):
    """a text without its first n characters, handed on but not looked into"""

    @classmethod
    def of(cls, text, n):
        if not n:
            return text
        if isinstance(text, Tail):
            raise Unsupported('part of a part of a text')
        r = cls(z3.Function(f'without_first_{n}', Txt, Txt)(text.t))
        r.whole, r.dropped = text, n
        return r

    def within(self, r):
        # the languages of the whole with anything in front
        return member(self.whole.t, rx.cat(rx.cats([rx.ANY] * self.dropped), r)) \
            if not rx.nullable(r) else z3.Or(
                member(self.whole.t, rx.cat(rx.cats([rx.ANY] * self.dropped), r)),
                member(self.whole.t, rx.cats([rx.alt(rx.EPS, rx.ANY)] * (self.dropped - 1))))

    def __eq__(self, o):
        if isinstance(o, PvxText):
            raise Unsupported('comparison of parts of texts')
        return PvxText.__eq__(self, o)

    __hash__ = None


# ------------------------------------------------------------------ known length
def in_ranges(t, rs):
    return z3.Or(*[(t == a) if a == b else z3.And(t >= a, t <= b) for a, b in rs]) if rs else \
        z3.BoolVal(False)


class PvxChars(Pvx):
    """a string of known length; characters are code points, some of them symbolic"""

    def __init__(self, chars):
        self.chars = [z3.IntVal(ord(c)) if isinstance(c, str) else c for c in chars]

    @classmethod
    def build(cls, chars):
        s = cls(chars)
        if all(z3.is_int_value(c) for c in s.chars):
            return ''.join(chr(c.as_long()) for c in s.chars)
        return s

    def pvx_isinstance(self, cls):
        return PvxText.pvx_isinstance(self, cls)

    def pvx_type(self):
        return str

    def pvx_str(self):
        return self

    def pvx_text(self):
        from pysx.strs import Opaque
        return [Opaque(self)]

    def pvx_len(self):
        return len(self.chars)

    def pvx_is(self, o):
        if o is None:
            return False
        raise Unsupported('identity of texts')

    def pvx_concrete_iter(self):
        return iter([PvxChars.build([c]) for c in self.chars])

    __len__ = pvx_len

    def __bool__(self):
        return bool(self.chars)

    @staticmethod
    def codes(o):
        if isinstance(o, PvxChars):
            return o.chars
        if isinstance(o, str):
            return [z3.IntVal(ord(c)) for c in o]
        return None

    def eq_at(self, i, cs):
        return z3.And(*[self.chars[i + k] == c for k, c in enumerate(cs)]) if cs else z3.BoolVal(True)

    def __eq__(self, o):
        cs = self.codes(o)
        if cs is None or len(cs) != len(self.chars):
            return False
        return mkbool(self.eq_at(0, cs))

    def __ne__(self, o):
        return mknot(self == o)

    def __hash__(self):
        raise Unsupported('hash of a text')

    def positions(self, cs):
        return range(len(self.chars) - len(cs) + 1)

    def __contains__(self, x):
        cs = self.codes(x)
        if cs is None:
            raise Unsupported('substring test')
        return ctx().branch(z3.Or(*[self.eq_at(i, cs) for i in self.positions(cs)]))

    def pvx_in_str(self, s):
        n = len(self.chars)
        return mkbool(z3.Or(*[self.eq_at(0, self.codes(s[i:i + n])) for i in range(
            len(s) - n + 1)])) if n <= len(s) else False

    def find(self, x, *a):
        if a:
            raise Unsupported('find with bounds')
        cs = self.codes(x)
        for i in self.positions(cs):
            if ctx().branch(self.eq_at(i, cs)):
                return i
        return -1

    def count(self, x):
        cs = self.codes(x)
        if len(cs) != 1:
            raise Unsupported('count')
        return sum(1 for c in self.chars if ctx().branch(c == cs[0]))

    def startswith(self, s, *a):
        if a or not isinstance(s, str):
            raise Unsupported('startswith')
        return len(s) <= len(self.chars) and mkbool(self.eq_at(0, self.codes(s)))

    def endswith(self, s, *a):
        if a or not isinstance(s, str):
            raise Unsupported('endswith')
        return len(s) <= len(self.chars) and mkbool(
            self.eq_at(len(self.chars) - len(s), self.codes(s)))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return PvxChars.build(self.chars[i])
        return PvxChars.build([self.chars[i]])

    def __add__(self, o):
        cs = self.codes(o)
        return PvxChars.build(self.chars + cs) if cs is not None else NotImplemented

    def __radd__(self, o):
        cs = self.codes(o)
        return PvxChars.build(cs + self.chars) if cs is not None else NotImplemented

    def replace(self, a, b, *n):
        cs = self.codes(a)
        if n or len(cs) != 1 or not isinstance(b, str):
            raise Unsupported('replace')
        out = []
        for c in self.chars:
            out += self.codes(b) if ctx().branch(c == cs[0]) else [c]
        return PvxChars.build(out)

    def rstrip(self, chars=None):
        if not isinstance(chars, str):
            raise Unsupported('rstrip')
        cs = list(self.chars)
        while cs and ctx().branch(in_ranges(cs[-1], [(ord(c), ord(c)) for c in chars])):
            cs.pop()
        return PvxChars.build(cs)

    def removesuffix(self, s):
        return self[:-len(s)] if s and bool(self.endswith(s)) else self

    def split(self, sep=None, maxsplit=-1):
        cs = self.codes(sep) if sep is not None else []
        if len(cs) != 1:
            raise Unsupported('split')
        out, cur = [], []
        for c in self.chars:
            if (maxsplit < 0 or len(out) < maxsplit) and ctx().branch(c == cs[0]):
                out.append(PvxChars.build(cur))
                cur = []
            else:
                cur.append(c)
        return out + [PvxChars.build(cur)]

    def partition(self, sep):
        r = self.split(sep, 1)
        return (r[0], sep, r[1]) if len(r) == 2 else (r[0], '', '')

    def pvx_int(self):
        c = ctx()
        n = z3.IntVal(0)
        for ch in self.chars:
            if not c.branch(z3.And(ch >= 48, ch <= 57)):
                raise Unsupported('int() of other than digits')
            n = n * 10 + (ch - 48)
        if not self.chars:
            raise contract_error(ValueError('invalid literal for int()'))
        return PvxInt(simp(n))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'str.{n} on a symbolic text')

    def __repr__(self):
        return ''.join(chr(c.as_long()) if z3.is_int_value(c) else '?' for c in self.chars)

    def matches(self, how, p, flags=0):
        tree, flags = rx.parse(p, flags, re.IGNORECASE)
        names = dict(tree.state.groupdict)
        m = Matcher(self, flags)
        for at in range(len(self.chars) + 1) if how == 'search' else [0]:
            for cond, end, g in m.seq(list(tree), at, ()):
                if how == 'fullmatch' and end != len(self.chars):
                    continue
                if ctx().branch(cond):
                    return Match(self, at, end, dict(g), names, tree.state.groups - 1)
        return None


class Matcher:
    """what Python's engine tries, in its order: [(condition, end, groups)], of
    which the first with a true condition is the match. Ways to the same end with
    the same groups that follow each other are one"""

    def __init__(self, text, flags):
        self.s, self.flags = text.chars, flags

    def one(self, i, cond, g):
        if i >= len(self.s):
            return []
        t = z3.simplify(cond(self.s[i]))
        return [] if z3.is_false(t) else [(t, i + 1, g)]

    def merged(self, ways):
        out = []
        for cond, i, g in ways:
            if out and out[-1][1:] == (i, g):
                out[-1] = (z3.simplify(z3.Or(out[-1][0], cond)), i, g)
            elif not z3.is_false(cond):
                out.append((cond, i, g))
        c = ctx()
        if len(out) > 1:
            out = [w for w in out if c.check(w[0]) != z3.unsat]
        return out

    def then(self, ways, f):
        """f(end, groups) after each of the ways"""
        return self.merged([(z3.simplify(z3.And(c1, c2)), j, h)
                            for c1, i, g in ways for c2, j, h in f(i, g)])

    def seq(self, items, i, g):
        ways = [(z3.BoolVal(True), i, g)]
        for x in items:
            ways = self.then(ways, lambda j, h: self.item(x, j, h))
            if not ways:
                break
        return ways

    def item(self, x, i, g):
        op, a = x
        if op is K.LITERAL:
            same = {a}
            if self.flags & re.IGNORECASE:
                if a >= 128:
                    raise Unsupported('case of a character')
                # (K and S have one more each, outside of ASCII)
                same = {ord(v) for v in (chr(a).lower(), chr(a).upper())} | {
                    ord('k'): {0x212a}, ord('s'): {0x17f}}.get(ord(chr(a).lower()), set())
            return self.one(i, lambda c: z3.Or(*[c == v for v in same]), g)
        if op is K.NOT_LITERAL:
            return self.one(i, lambda c: c != a, g)
        if op is K.ANY:
            return self.one(i, lambda c: z3.BoolVal(True) if self.flags & re.DOTALL else c != 10, g)
        if op is K.IN:
            if self.flags & re.IGNORECASE and any(
                    o not in (K.LITERAL, K.RANGE, K.CATEGORY) or any(
                        chr(v).lower() != chr(v).upper() for v in (
                            [w] if o is K.LITERAL else range(w[0], w[1] + 1) if o is K.RANGE else ()))
                    for o, w in a):
                raise Unsupported('case of a character class')
            rs = rx.class_of(a, self.flags)
            return self.one(i, lambda c: in_ranges(c, rs), g)
        if op is K.SUBPATTERN:
            n = a[0]
            m = self
            if a[1] or a[2]:
                if (a[1] | a[2]) & ~re.IGNORECASE:
                    raise Unsupported('flags inside of a pattern')
                m = Matcher.__new__(Matcher)
                m.s, m.flags = self.s, (self.flags | a[1]) & ~a[2]
            return [(c, j, h if n is None else tuple(
                [kv for kv in h if kv[0] != n] + [(n, (i, j))]))
                for c, j, h in m.seq(list(a[3]), i, g)]
        if op is K.BRANCH:
            return self.merged([w for x in a[1] for w in self.seq(list(x), i, g)])
        if op is K.MAX_REPEAT or op is K.MIN_REPEAT:
            lo, hi, x = a
            return self.repeat(list(x), lo, hi, op is K.MAX_REPEAT, i, g, 0)
        if op is K.AT:
            n = len(self.s)
            if a in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
                ok = z3.BoolVal(i == 0)
            elif a is K.AT_END_STRING:
                ok = z3.BoolVal(i == n)
            elif a is K.AT_END:
                ok = self.s[i] == 10 if i == n - 1 else z3.BoolVal(i == n)
            else:
                raise Unsupported(f'{a} in a regular expression')
            ok = z3.simplify(ok)
            return [] if z3.is_false(ok) else [(ok, i, g)]
        raise Unsupported(f'{op} in a regular expression')

    def repeat(self, x, lo, hi, greedy, i, g, n):
        stop = [(z3.BoolVal(True), i, g)] if n >= lo else []
        more = []
        if n < hi:
            more = self.then([w for w in self.seq(x, i, g) if w[1] != i or n < lo],
                             lambda j, h: self.repeat(x, lo, hi, greedy, j, h, n + 1))
        return self.merged(more + stop if greedy else stop + more)


class Match(Pvx):
    def __init__(self, s, a, b, groups, names, n):
        self.string, self.a, self.b, self.g, self.names, self.n = s, a, b, groups, names, n

    def __bool__(self):
        return True

    def pvx_is(self, o):
        return self is o

    def span(self, n=0):
        n = self.names.get(n, n)
        if n == 0:
            return (self.a, self.b)
        if not isinstance(n, int) or n > self.n:
            raise contract_error(IndexError('no such group'))
        return self.g.get(n, (-1, -1))

    def start(self, n=0):
        return self.span(n)[0]

    def end(self, n=0):
        return self.span(n)[1]

    def group(self, *ns):
        def one(n):
            a, b = self.span(n)
            return None if a < 0 else self.string[a:b]
        if not ns:
            return one(0)
        return one(ns[0]) if len(ns) == 1 else tuple(one(n) for n in ns)

    def __getitem__(self, n):
        return self.group(n)

    def groups(self, default=None):
        return tuple(default if self.span(n)[0] < 0 else self.group(n) for n in range(1, self.n + 1))

    def groupdict(self, default=None):
        return {k: default if self.span(n)[0] < 0 else self.group(n) for k, n in self.names.items()}

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'{n} of a match')


# ------------------------------------------------------------------ the re module
def install(HANDLERS):
    def wrap(how, real):
        def h(p, s, flags=0):
            if isinstance(s, (PvxText, PvxChars)):
                return s.matches(how, p, flags)
            if isinstance(s, Pvx):
                raise Unsupported(f're.{how} on {type(s).__name__}')
            return real(p, s, flags)
        HANDLERS[real] = h
    for n in ('search', 'match', 'fullmatch'):
        wrap(n, getattr(re, n))
    for n in ('sub', 'split', 'findall', 'finditer', 'subn'):
        def other(*a, _n=n, _f=getattr(re, n), **k):
            if any(isinstance(x, Pvx) for x in a):
                raise Unsupported(f're.{_n} on a symbolic text')
            return _f(*a, **k)
        HANDLERS[getattr(re, n)] = other


def pattern_method(p, f, name, a, k):
    """a method of a compiled pattern"""
    if name in ('search', 'match', 'fullmatch') and len(a) == 1 and not k \
            and isinstance(a[0], (PvxText, PvxChars)):
        return a[0].matches(name, p)
    if any(isinstance(x, Pvx) for x in a):
        raise Unsupported(f'pattern.{name} on a symbolic text')
    return f(*a, **k)

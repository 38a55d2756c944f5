"""Regular languages: from Python's patterns, closed under union, intersection and
complement, with a decision of emptiness that also gives a shortest word.

Expressions are tuples; emptiness is decided by the derivatives of the
expression, over one character per class of characters it can tell apart."""
import re
import re._constants as K
import re._parser as parser

from pysx.core import Unsupported

TOP = 0x10ffff
EPS, NONE = ('eps',), ('none',)


# ------------------------------------------------------------------ characters
def normal(rs):
    out = []
    for a, b in sorted(rs):
        if out and a <= out[-1][1] + 1:
            out[-1][1] = max(out[-1][1], b)
        else:
            out.append([a, b])
    return tuple((a, b) for a, b in out)


def invert(rs):
    out, at = [], 0
    for a, b in normal(rs):
        if a > at:
            out.append((at, a - 1))
        at = b + 1
    if at <= TOP:
        out.append((at, TOP))
    return tuple(out)


_ranges = {}


def category(cat, ascii_):
    k = (str(cat), ascii_)
    if k not in _ranges:
        src = {K.CATEGORY_DIGIT: r'\d', K.CATEGORY_NOT_DIGIT: r'\D', K.CATEGORY_SPACE: r'\s',
               K.CATEGORY_NOT_SPACE: r'\S', K.CATEGORY_WORD: r'\w', K.CATEGORY_NOT_WORD: r'\W'}
        if cat not in src:
            raise Unsupported(f'character category {cat}')
        m = re.compile(src[cat], re.ASCII if ascii_ else 0).match
        _ranges[k] = normal((i, i) for i in range(TOP + 1) if m(chr(i)))
    return _ranges[k]


def class_of(items, flags):
    """the ranges of a character class"""
    neg, rs = False, []
    for op, a in items:
        if op is K.NEGATE:
            neg = True
        elif op is K.LITERAL:
            rs.append((a, a))
        elif op is K.RANGE:
            rs.append(tuple(a))
        elif op is K.CATEGORY:
            rs += category(a, bool(flags & re.ASCII))
        else:
            raise Unsupported(f'{op} in a character class')
    return invert(rs) if neg else normal(rs)


# ------------------------------------------------------------------ expressions
def cls(rs):
    rs = normal(rs)
    return ('cls', rs) if rs else NONE


ANY = ('cls', ((0, TOP),))


def star(r):
    return EPS if r in (EPS, NONE) else r if r[0] == 'star' else ('star', r)


ALL = star(ANY)


def cat(a, b):
    if NONE in (a, b):
        return NONE
    if a == EPS:
        return b
    if b == EPS:
        return a
    if a[0] == 'cat':
        return ('cat', a[1], cat(a[2], b))
    return ('cat', a, b)


def cats(rs):
    out = EPS
    for r in reversed(list(rs)):
        out = cat(r, out)
    return out


def alt(*rs):
    s = set()
    for r in rs:
        s |= r[1] if r[0] == 'alt' else {r}
    s.discard(NONE)
    if ALL in s:
        return ALL
    chars = [r for r in s if r[0] == 'cls']
    if len(chars) > 1:
        s -= set(chars)
        s.add(cls([x for r in chars for x in r[1]]))
    if not s:
        return NONE
    return s.pop() if len(s) == 1 else ('alt', frozenset(s))


def both(*rs):
    s = set()
    for r in rs:
        s |= r[1] if r[0] == 'and' else {r}
    if NONE in s:
        return NONE
    s.discard(ALL)
    if not s:
        return ALL
    return s.pop() if len(s) == 1 else ('and', frozenset(s))


def no(r):
    return r[1] if r[0] == 'not' else ALL if r == NONE else NONE if r == ALL else ('not', r)


def word(s):
    return cats(('cls', ((ord(c), ord(c)),)) for c in s)


def nullable(r):
    k = r[0]
    if k in ('eps', 'star'):
        return True
    if k in ('none', 'cls'):
        return False
    if k == 'cat':
        return nullable(r[1]) and nullable(r[2])
    if k == 'alt':
        return any(map(nullable, r[1]))
    if k == 'and':
        return all(map(nullable, r[1]))
    return not nullable(r[1])


def derive(r, c, memo):
    v = memo.get((r, c))
    if v is not None:
        return v
    k = r[0]
    if k in ('eps', 'none'):
        v = NONE
    elif k == 'cls':
        v = EPS if any(a <= c <= b for a, b in r[1]) else NONE
    elif k == 'cat':
        v = cat(derive(r[1], c, memo), r[2])
        if nullable(r[1]):
            v = alt(v, derive(r[2], c, memo))
    elif k == 'alt':
        v = alt(*[derive(x, c, memo) for x in r[1]])
    elif k == 'and':
        v = both(*[derive(x, c, memo) for x in r[1]])
    elif k == 'not':
        v = no(derive(r[1], c, memo))
    else:
        v = cat(derive(r[1], c, memo), r)
    memo[r, c] = v
    return v


def classes(r, out):
    k = r[0]
    if k == 'cls':
        out.add(r[1])
    elif k == 'cat':
        classes(r[1], out)
        classes(r[2], out)
    elif k in ('alt', 'and'):
        for x in r[1]:
            classes(x, out)
    elif k in ('not', 'star'):
        classes(r[1], out)
    return out


def representatives(rs):
    """a character for every way of belonging to these classes, printable ones
    where there are any"""
    points = {0}
    for x in rs:
        for a, b in x:
            points.add(a)
            if b < TOP:
                points.add(b + 1)
    points |= {ord('a'), ord('A'), ord('1')}
    seen = {}
    ordered = sorted(points, key=lambda p: (not 33 <= p < 127, p))
    import bisect
    starts = [[a for a, _ in x] for x in rs]
    for p in ordered:
        sig = []
        for x, st in zip(rs, starts):
            i = bisect.bisect_right(st, p) - 1
            sig.append(i >= 0 and p <= x[i][1])
        seen.setdefault(tuple(sig), p)
    return list(seen.values())


_words = {}


def some(r):
    """a shortest word of r, or None if it has none"""
    if r not in _words:
        reps = representatives(list(classes(r, set())))
        memo, seen, todo = {}, {r}, [(r, '')]
        found = None
        for x, w in todo:
            if nullable(x):
                found = w
                break
            if len(seen) > 20000:
                raise Unsupported('languages too large')
            for c in reps:
                y = derive(x, c, memo)
                if y != NONE and y not in seen:
                    seen.add(y)
                    todo.append((y, w + chr(c)))
        _words[r] = found
    return _words[r]


def contains(r, s):
    memo = {}
    for ch in s:
        r = derive(r, ord(ch), memo)
    return nullable(r)


# ------------------------------------------------------------------ Python's patterns
def parse(p, flags=0, allowed=0):
    if isinstance(p, re.Pattern):
        p, flags = p.pattern, p.flags
    if not isinstance(p, str):
        raise Unsupported('a pattern that is not a plain text')
    if flags & (re.IGNORECASE | re.MULTILINE | re.LOCALE | re.VERBOSE) & ~allowed:
        raise Unsupported('flags of a regular expression')
    t = parser.parse(p, flags)
    return t, flags | t.state.flags


def lang(tree, flags):
    """the language of a pattern without anchors"""
    out = []
    for op, a in tree:
        if op is K.LITERAL:
            out.append(cls([(a, a)]))
        elif op is K.NOT_LITERAL:
            out.append(cls(invert([(a, a)])))
        elif op is K.ANY:
            out.append(ANY if flags & re.DOTALL else cls(invert([(10, 10)])))
        elif op is K.IN:
            out.append(cls(class_of(a, flags)))
        elif op is K.SUBPATTERN:
            if a[1] or a[2]:
                raise Unsupported('flags inside of a pattern')
            out.append(lang(a[3], flags))
        elif op is K.BRANCH:
            out.append(alt(*[lang(x, flags) for x in a[1]]))
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, x = a
            r = lang(x, flags)
            if lo > 200 or hi != K.MAXREPEAT and hi > 200:
                raise Unsupported('repetition in a regular expression')
            tail = star(r) if hi == K.MAXREPEAT else EPS
            if hi != K.MAXREPEAT:
                for _ in range(hi - lo):
                    tail = alt(EPS, cat(r, tail))
            out.append(cat(cats([r] * lo), tail))
        else:
            raise Unsupported(f'{op} in a regular expression')
    return cats(out)


def language(p, how='fullmatch', flags=0):
    """the strings in which re.<how>(p, s) finds something"""
    tree, flags = parse(p, flags)
    items = list(tree)
    begin, end = False, None
    while items and items[0][0] is K.AT and items[0][1] in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
        begin = True
        items.pop(0)
    while items and items[-1][0] is K.AT and items[-1][1] in (K.AT_END, K.AT_END_STRING):
        # $ also matches before a newline at the end
        e = 'end' if items[-1][1] is K.AT_END_STRING else 'line'
        end = 'end' if 'end' in (e, end) else e
        items.pop()
    r = lang(items, flags)
    if how == 'fullmatch':
        return r
    if end == 'line':
        r = cat(r, alt(EPS, word('\n')))
    elif end is None:
        r = cat(r, ALL)
    if how == 'search' and not begin:
        r = cat(ALL, r)
    return r

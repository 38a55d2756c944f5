"""Date-times: which strings are accepted, what they are read as, and what is
written for one.

Accepting is decided for arbitrary strings. Reading is decided for every string of
the documented form: the characters are symbolic, the lengths of such strings are
finitely many. datetime.strptime is a stand-in that does what the real one does:
it matches the pattern the standard library makes of the format. A date-time that
is written is a stand-in with symbolic fields."""
import datetime

import z3

from pysx import rx
from pysx.core import B, I, Unsupported, contract_error, ctx
from pysx.contracts.common import outcome
from pysx.contracts.loader import BARE_LD
from pysx.strs import Num, PvxStr, build
from pysx.sym import Pvx, PvxInt, mkbool
from pysx.text import PvxChars, PvxText
from pysx.transform import Loader

FORM = (r'{d}{{4}}-(0[1-9]|1[0-2])-(0[1-9]|[12]{d}|3[01])T([01]{d}|2[0-3]):[0-5]{d}(:([0-5]{d}|60))?'
        r'(\.{d}{{1,6}})?(Z|Z?[+\-]([01]{d}|2[0-3]):[0-5]{d})')
DOCUMENTED = rx.language(FORM.format(d='[0-9]'))
LENIENT = rx.language(FORM.format(d=r'\d'))       # other digits than ASCII: left open


def load():
    return Loader(bare=BARE_LD).load('jsonld.tools.datetime')


def accepting(run):
    mod = load()

    def h():
        c = ctx()
        val = PvxText.fresh('val')
        kw = c.choose([{}, {'prop': 'published'}, {'prop': 'p', 'types': (str,), 'functional': True}])
        kind, r = outcome(lambda: mod.is_activity_datetime(val, **kw))
        if kind == 'ok':
            c.prove('is_activity_datetime: accepts only the documented form', val.within(LENIENT))
        else:
            c.prove('is_activity_datetime: accepts the documented form',
                    z3.Not(val.within(DOCUMENTED)))
            c.prove('is_activity_datetime: refuses with ValueError', isinstance(r, ValueError), repr(r))

    def others():
        c = ctx()
        m = Moment('moment')
        for v in (None, m):
            kind, r = outcome(lambda: mod.is_activity_datetime(v, prop='p'))
            c.prove('is_activity_datetime: accepts a date-time and None', kind == 'ok', repr(r))
            kind, r = outcome(lambda: mod.parse_activitystream_datetime(v))
            c.prove('parse_activitystream_datetime: gives a date-time and None back', r is v, repr(r))
    run.explore('is_activity_datetime', h)
    run.explore('is_activity_datetime of other than text', others)
    run.covers('jsonld.tools.datetime:is_activity_datetime')


# ------------------------------------------------------------------ reading
def digits(chars, a, n):
    v = z3.IntVal(0)
    for k in range(n):
        v = v * 10 + (chars[a + k] - 48)
    return v


class Written:
    """a string of the documented form, in ASCII digits, and what it denotes"""

    def __init__(self, seconds, fraction, zone):
        c = ctx()
        shape = 'dddd-dd-ddTdd:dd' + (':dd' if seconds else '') + (
            '.' + 'd' * fraction if fraction else '') + zone
        cs = []
        for i, ch in enumerate(shape):
            if ch in 'ds':
                x = c.fresh(f'char{i}', I)
                c.assume(z3.And(x >= 48, x <= 57) if ch == 'd' else z3.Or(x == ord('+'), x == ord('-')))
                cs.append(x)
            else:
                cs.append(ch)
        self.text = PvxChars(cs)
        c.known['hint'] = {'shape': shape}
        cs = self.text.chars
        at = 16
        self.Y, self.m, self.d = digits(cs, 0, 4), digits(cs, 5, 2), digits(cs, 8, 2)
        self.H, self.M = digits(cs, 11, 2), digits(cs, 14, 2)
        self.S = self.us = z3.IntVal(0)
        if seconds:
            self.S, at = digits(cs, 17, 2), 19
        if fraction:
            self.us = digits(cs, at + 1, fraction) * 10 ** (6 - fraction)
        self.offset = None
        if 's' in zone:
            z = len(shape) - 6
            hh, mm = digits(cs, z + 1, 2), digits(cs, z + 4, 2)
            self.offset = z3.If(cs[z] == ord('-'), -1, 1) * (hh * 3600 + mm * 60)
            c.assume(z3.And(hh <= 23, mm <= 59))
        # the documented form, an existing date and no leap second
        c.assume(z3.And(self.Y >= 1, self.m >= 1, self.m <= 12, self.d >= 1, self.d <= 31,
                        self.H <= 23, self.M <= 59, self.S <= 59, exists(self.Y, self.m, self.d)))


def exists(y, m, d):
    leap = z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))
    return d <= z3.If(m == 2, z3.If(leap, 29, 28), z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), 30, 31))


class Read(Pvx):
    """a date-time that was read: the fields, and the offset if there is one"""

    def __init__(self, f, offset):
        self.f, self.offset = f, offset

    def pvx_isinstance(self, cls):
        return issubclass(datetime.datetime, cls) if isinstance(cls, type) else any(
            self.pvx_isinstance(x) for x in cls)

    def replace(self, **k):
        if set(k) != {'tzinfo'} or k['tzinfo'] not in (None, datetime.timezone.utc):
            raise Unsupported('replace')
        return Read(self.f, None if k['tzinfo'] is None else z3.IntVal(0))

    def astimezone(self, tz=None):
        if self.offset is None or tz is not datetime.timezone.utc:
            raise Unsupported('astimezone')
        return self     # the same instant

    @property
    def tzinfo(self):
        return None if self.offset is None else datetime.timezone.utc

    def utcoffset(self):
        raise Unsupported('offset of what was read')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'datetime.{n}')


def strptime(text, fmt):
    """datetime.strptime, by the pattern the standard library makes of the format"""
    import _strptime
    import re
    if not isinstance(text, PvxChars) or not isinstance(fmt, str):
        raise Unsupported('strptime')
    try:
        pat = re.compile(_strptime.TimeRE().pattern(fmt), re.IGNORECASE)
    except (KeyError, IndexError) as e:
        raise contract_error(ValueError(f'bad directive in format {fmt!r}: {e}'))
    m = text.matches('match', pat)
    if m is None or m.end() != len(text.chars):
        raise contract_error(ValueError(f'time data does not match format {fmt!r}'))
    g = m.groupdict()
    if set(g) - set('YmdHMSfz'):
        raise Unsupported(f'format {fmt!r}')

    def num(x, default):
        if g.get(x) is None:
            return z3.IntVal(default)
        cs = PvxChars.codes(g[x])
        if any(z3.is_int_value(z3.simplify(ch)) and not 48 <= z3.simplify(ch).as_long() <= 57
               for ch in cs):
            raise Unsupported('digits')
        return digits(cs, 0, len(cs))
    f = dict(Y=num('Y', 1900), m=num('m', 1), d=num('d', 1), H=num('H', 0), M=num('M', 0), S=num('S', 0))
    f['us'] = num('f', 0) * 10 ** (6 - len(g['f'].chars if isinstance(g['f'], PvxChars) else g['f'])) \
        if g.get('f') is not None else z3.IntVal(0)
    c = ctx()
    if not c.branch(z3.And(f['Y'] >= 1, f['S'] <= 59, exists(f['Y'], f['m'], f['d']))):
        raise contract_error(ValueError('no such date'))
    offset = None
    if g.get('z') is not None:
        z = PvxChars.codes(g['z'])
        if len(z) == 1:
            offset = z3.IntVal(0)
        else:
            z = [z[0]] + [ch for ch in z[1:] if not c.branch(ch == ord(':'))]
            if len(z) != 5:
                raise Unsupported('seconds of an offset')
            offset = z3.If(z[0] == ord('-'), -1, 1) * (
                digits(z, 1, 2) * 3600 + digits(z, 3, 2) * 60)
    return Read(f, offset)


ZONES = ['Z', 'sdd:dd', 'Zsdd:dd']


def reading(run, zone):
    mod = load()
    name = 'parse_activitystream_datetime'

    def h():
        c = ctx()
        c.hooks[datetime.datetime.strptime] = strptime
        w = Written(c.choose([False, True]), c.choose(range(7)), zone)
        kind, r = outcome(lambda: mod.parse_activitystream_datetime(w.text))
        c.prove(f'{name}: reads every existing date-time of the documented form', kind == 'ok',
                f'{w.text!r}: {r!r}')
        if kind != 'ok':
            return
        c.prove(f'{name}: gives a date-time', isinstance(r, Read), repr(r))
        if not isinstance(r, Read):
            return
        for n, what in (('Y', 'year'), ('m', 'month'), ('d', 'day'), ('H', 'hour'), ('M', 'minute'),
                        ('S', 'second'), ('us', 'fraction')):
            c.prove(f'{name}: the {what}', r.f[n] == getattr(w, n), f'{w.text!r}')
        if w.offset is None:
            c.prove(f'{name}: the offset', z3.BoolVal(r.offset is None) if r.offset is None else
                    r.offset == 0, f'{w.text!r}')
        else:
            c.prove(f'{name}: the offset', z3.BoolVal(False) if r.offset is None else
                    r.offset == w.offset, f'{w.text!r}')
    run.explore(name, h)
    run.covers(f'jsonld.tools.datetime:{name}')


# ------------------------------------------------------------------ writing
FIELDS = {'year': (1, 9999, 4), 'month': (1, 12, 2), 'day': (1, 31, 2), 'hour': (0, 23, 2),
          'minute': (0, 59, 2), 'second': (0, 59, 2), 'microsecond': (0, 999999, 6)}
DIRECTIVES = {'Y': ('year', ''), 'm': ('month', '02d'), 'd': ('day', '02d'), 'H': ('hour', '02d'),
              'M': ('minute', '02d'), 'S': ('second', '02d'), 'f': ('microsecond', '06d')}


class Offset(Pvx):
    """an offset from UTC: a duration that may be zero"""

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().branch(self.t != 0)

    def __eq__(self, o):
        if isinstance(o, datetime.timedelta):
            return mkbool(self.t * 1000000 == int(o / datetime.timedelta(microseconds=1)))
        return False

    __hash__ = None

    def total_seconds(self):
        return PvxInt(self.t)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'{n} of an offset')


class Zone(Pvx):
    """some tzinfo"""

    def __eq__(self, o):
        if self is o:
            return True
        return ctx().branch(ctx().fresh('same_zone', B))

    __hash__ = None

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'{n} of a tzinfo')


class Moment(Pvx):
    """a date-time: naive, with a tzinfo that knows no offset, or aware; its fields
    are arbitrary. In UTC it has other fields (the same ones at no offset)"""

    def __init__(self, name, kind='naive', f=None, utc=None, offset=None, zone=None):
        c = ctx()
        self.kind, self.zone = kind, zone
        self.f = f or self.fields(name)
        self.offset, self.utc = offset, utc
        if kind == 'aware' and offset is None:
            self.zone = Zone()
            self.offset = c.fresh('offset', I)
            c.assume(z3.And(self.offset > -86400, self.offset < 86400))
            self.utc = self.fields(name + '_utc')
            c.assume(z3.Implies(self.offset == 0, z3.And(*[self.utc[n] == self.f[n] for n in FIELDS])))
        elif kind == 'no offset' and zone is None:
            self.zone = Zone()

    @staticmethod
    def fields(name):
        c = ctx()
        f = {}
        for n, (lo, hi, _) in FIELDS.items():
            f[n] = c.fresh(f'{name}_{n}', I)
            c.assume(z3.And(f[n] >= lo, f[n] <= hi))
        return f

    def pvx_isinstance(self, cls):
        return issubclass(datetime.datetime, cls) if isinstance(cls, type) else any(
            self.pvx_isinstance(x) for x in cls)

    def pvx_type(self):
        return datetime.datetime

    def __bool__(self):
        return True

    def utcoffset(self):
        return Offset(self.offset) if self.kind == 'aware' else None

    @property
    def tzinfo(self):
        return None if self.kind == 'naive' else self.zone

    def astimezone(self, tz=None):
        if self.kind != 'aware':
            # taken as local time, whatever that is
            return Moment('local', 'aware')
        if tz is not datetime.timezone.utc:
            raise Unsupported('astimezone to another zone')
        return Moment('', 'aware', f=self.utc, utc=self.utc, offset=z3.IntVal(0), zone=tz)

    def replace(self, **k):
        f, kind, off, zone, utc = dict(self.f), self.kind, self.offset, self.zone, self.utc
        for n, v in k.items():
            if n == 'tzinfo':
                if v is None:
                    kind, off, zone, utc = 'naive', None, None, None
                elif v is datetime.timezone.utc:
                    kind, off, zone, utc = 'aware', z3.IntVal(0), v, None
                else:
                    raise Unsupported('replace')
            elif n == 'microsecond' and v == 0:
                f[n] = z3.IntVal(0)
                utc = utc and {**utc, n: z3.IntVal(0)}
            else:
                raise Unsupported(f'replace {n}')
        if kind == 'aware' and utc is None:
            utc = f
        return Moment('', kind, f, utc, off, zone)

    def isoformat(self, sep='T', timespec='auto'):
        if timespec == 'auto':
            timespec = 'seconds' if ctx().branch(self.f['microsecond'] == 0) else 'microseconds'
        if timespec not in ('minutes', 'seconds', 'microseconds'):
            raise Unsupported('isoformat')
        f = self.f
        p = [Num(f['year'], '04d'), '-', Num(f['month'], '02d'), '-', Num(f['day'], '02d'), sep,
             Num(f['hour'], '02d'), ':', Num(f['minute'], '02d')]
        if timespec != 'minutes':
            p += [':', Num(f['second'], '02d')]
        if timespec == 'microseconds':
            p += ['.', Num(f['microsecond'], '06d')]
        if self.kind == 'aware':
            t = z3.simplify(self.offset)
            if not (z3.is_int_value(t) and t.as_long() == 0):
                raise Unsupported('the text of an offset')
            p.append('+00:00')
        return build(p)

    def strftime(self, fmt):
        p, i = [], 0
        while i < len(fmt):
            if fmt[i] == '%' and i + 1 < len(fmt):
                if fmt[i + 1] not in DIRECTIVES:
                    raise Unsupported(f'strftime {fmt!r}')
                n, spec = DIRECTIVES[fmt[i + 1]]
                p.append(Num(self.f[n], spec))
                i += 2
            else:
                p.append(fmt[i])
                i += 1
        return build(p)

    def __getattr__(self, n):
        if n in FIELDS:
            return PvxInt(self.f[n])
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'datetime.{n}')

    def __repr__(self):
        return f'moment({self.kind})'


WRITERS = {'datetime_str': 'jsonld.tools.datetime', 'stringify_datetime': 'jsonld.engine.utils'}


def text_is(r, f):
    """(formula, problem): r is YYYY-mm-ddTHH:MM:SSZ of these fields"""
    want = ['year', '-', 'month', '-', 'day', 'T', 'hour', ':', 'minute', ':', 'second', 'Z']
    if not isinstance(r, PvxStr) or len(r.parts) != len(want):
        return z3.BoolVal(False)
    out = []
    for p, w in zip(r.parts, want):
        if w not in FIELDS:
            if p != w:
                return z3.BoolVal(False)
            continue
        if not isinstance(p, Num):
            return z3.BoolVal(False)
        width = FIELDS[w][2]
        out.append(p.t == f[w])
        spec = p.spec.rstrip('d').replace('0>', '0')
        if spec == '':
            out.append(p.t >= 10 ** (width - 1))
        elif spec != f'0{width}':
            return z3.BoolVal(False)
    return z3.And(*out)


def writing(run, name):
    mod = Loader(bare=BARE_LD).load(WRITERS[name])

    def h():
        c = ctx()
        kind = c.choose(['naive', 'no offset', 'aware'])
        m = Moment('moment', kind)
        c.known['hint'] = {'kind': kind}
        k, r = outcome(lambda: getattr(mod, name)(m))
        c.prove(f'{name}: writes every date-time that has a form in UTC', k == 'ok', repr(r))
        if k == 'ok':
            c.prove(f'{name}: YYYY-mm-ddTHH:MM:SSZ of the date-time in UTC, naive ones taken as UTC',
                    text_is(r, m.utc if kind == 'aware' else m.f), f'{kind}: {r!r}')
    run.explore(name, h)
    run.covers(f'{WRITERS[name]}:{name}')

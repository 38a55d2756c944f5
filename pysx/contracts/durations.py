"""timedelta_str, for a duration of any number of days and of seconds."""
import datetime

import z3

from pysx.core import I, Unsupported, ctx
from pysx.contracts.collection import BARE
from pysx.contracts.common import outcome
from pysx.strs import Num, PvxStr
from pysx.sym import Pvx, PvxInt, mkint
from pysx.transform import Loader

UNITS_D = {'Y': 365, 'M': 30, 'W': 7, 'D': 1}
UNITS_T = {'H': 3600, 'M': 60, 'S': 1}


class Delta(Pvx):
    """datetime.timedelta in its normal form: any number of days, and seconds
    within a day (whole ones: no microseconds)"""

    def __init__(self):
        c = ctx()
        self.d, self.s = c.fresh('days', I), c.fresh('seconds', I)
        c.assume(z3.And(self.d >= 0, self.s >= 0, self.s < 86400))

    days = property(lambda s: PvxInt(s.d))
    seconds = property(lambda s: PvxInt(s.s))
    microseconds = 0

    def pvx_isinstance(self, cls):
        return issubclass(datetime.timedelta, cls)

    def pvx_type(self):
        return datetime.timedelta

    def total_seconds(self):
        from pysx.sym import PvxReal, rt
        return PvxReal(rt(self.total()))

    def total(self):
        return mkint(86400 * self.d + self.s)

    def __bool__(self):
        return ctx().branch(z3.Or(self.d != 0, self.s != 0))

    def __floordiv__(self, o):
        if isinstance(o, datetime.timedelta) and not o.microseconds and o > datetime.timedelta(0):
            return self.total() // int(o.total_seconds())
        raise Unsupported('division of a duration')

    def __mod__(self, o):
        raise Unsupported('remainder of a duration')

    def __eq__(self, o):
        if isinstance(o, datetime.timedelta):
            from pysx.sym import mkbool
            return mkbool(z3.And(self.d == o.days, self.s == o.seconds)) if not o.microseconds \
                else False
        raise Unsupported('comparison of a duration')

    def __hash__(self):
        raise Unsupported('hash of a duration')

    def __getattr__(self, n):
        raise Unsupported(f'timedelta.{n}')


def components(text):
    """[(number, designator, whether after T)], or a reason why it is none"""
    parts = [text] if isinstance(text, str) else list(text.parts) if isinstance(
        text, PvxStr) else None
    if parts is None:
        return f'not a text: {type(text).__name__}'
    toks = []
    for p in parts:
        if isinstance(p, Num):
            if p.spec.rstrip('d'):
                raise Unsupported('padded numbers')
            if toks and isinstance(toks[-1], (int, Num)):
                return 'two numbers in a row'
            toks.append(p)
        elif isinstance(p, str):
            num = ''
            for ch in p:
                if ch.isdigit():
                    num += ch
                    continue
                if num:
                    if toks and isinstance(toks[-1], (int, Num)):
                        return 'two numbers in a row'
                    toks.append(int(num))
                    num = ''
                toks.append(ch)
            if num:
                if toks and isinstance(toks[-1], (int, Num)):
                    return 'two numbers in a row'
                toks.append(int(num))
        else:
            raise Unsupported('text of the duration')
    if not toks or toks[0] != 'P':
        return 'does not begin with P'
    res, time, i = [], False, 1
    while i < len(toks):
        if toks[i] == 'T' and not time:
            time = True
            if i + 1 == len(toks):
                return 'ends in T'
            i += 1
            continue
        if not isinstance(toks[i], (int, Num)) or i + 1 == len(toks):
            return 'not a component'
        order = list(UNITS_T if time else UNITS_D)
        if toks[i + 1] not in order:
            return f'no such designator: {toks[i + 1]!r}'
        done = [d for _, d, t in res if t == time]
        if done and order.index(done[-1]) >= order.index(toks[i + 1]):
            return 'designators repeat or are out of order'
        n = toks[i]
        res.append((z3.IntVal(n) if isinstance(n, int) else n.t, toks[i + 1], time))
        i += 2
    if not res:
        return 'no component'
    return res


WHERE = {'timedelta_str': 'jsonld.tools.datetime', 'stringify_timedelta': 'jsonld.engine.utils'}


def text(run, name):
    mod = Loader(bare=BARE).load(WHERE[name])

    def h():
        c = ctx()
        d = Delta()
        kind, r = outcome(lambda: getattr(mod, name)(d))
        c.prove(f'{name}: does not fail', kind == 'ok', repr(r))
        if kind != 'ok':
            return
        cs = components(r)
        c.prove(f'{name}: a valid ISO 8601 duration, components once and in order',
                not isinstance(cs, str), f'{cs}: {r!r}')
        if isinstance(cs, str):
            return
        zero = z3.And(d.d == 0, d.s == 0)
        c.prove(f'{name}: components are not negative', z3.And(*[n >= 0 for n, _, _ in cs]))
        c.prove(f'{name}: components are not zero, unless the duration is',
                z3.Or(zero, z3.And(*[n > 0 for n, _, _ in cs])))
        days = sum((n * UNITS_D[u] for n, u, t in cs if not t), z3.IntVal(0))
        secs = sum((n * UNITS_T[u] for n, u, t in cs if t), z3.IntVal(0))
        # so that different durations have different texts
        c.prove(f'{name}: denotes the duration', 86400 * days + secs == 86400 * d.d + d.s)
    run.explore(name, h)
    run.covers(f'{WHERE[name]}:{name}')

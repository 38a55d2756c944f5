"""Helpers for the harnesses."""
import z3

from pysx.core import Unsupported, artefact, ctx, simp, Key, Val, I
from pysx.sym import (Pvx, PvxBool, PvxInt, PvxKey, PvxReal, PvxVal, it, kt, rt, vt)


def outcome(fn):
    try:
        return ('ok', fn())
    except Exception as e:        # noqa
        if artefact(e):
            raise Unsupported(f'{type(e).__name__}: {e}')
        return ('exc', e)


def key(name='key'):
    return PvxKey(ctx().fresh(name, Key))


def val(name='value'):
    return PvxVal(ctx().fresh(name, Val))


def equal(a, b):
    """a formula: the two results are the same"""
    if a is b:
        return z3.BoolVal(True)
    if isinstance(a, PvxReal) or isinstance(b, PvxReal):
        return rt(a) == rt(b)
    num = (int, PvxInt, PvxBool)
    if isinstance(a, num) and isinstance(b, num):
        return it(a) == it(b)
    if isinstance(a, PvxVal) or isinstance(b, PvxVal):
        return vt(a) == vt(b)
    if isinstance(a, PvxKey) and isinstance(b, PvxKey):
        return a.t == b.t
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return z3.BoolVal(False)
        return z3.And(*[equal(x, y) for x, y in zip(a, b)]) if a else z3.BoolVal(True)
    if isinstance(a, PvxKey) or isinstance(b, PvxKey):
        raise Unsupported('comparing an id')
    if isinstance(a, Pvx) or isinstance(b, Pvx):
        raise Unsupported(f'comparing results {type(a).__name__} {type(b).__name__}')
    if a is None or b is None:
        return z3.BoolVal(a is b)
    if type(a) is type(b) and isinstance(a, (str, bytes, float)):
        return z3.BoolVal(a == b)
    return z3.BoolVal(a is b)


def truthy(a):
    from pysx.sym import truth
    return truth(a)


class Stored:
    """Which objects of the code an operation changes. ZODB writes a Persistent object to
    one of whose attributes something was assigned, with all that it holds and that is not
    Persistent itself; a change inside of a plain object, a list or a dictionary it does
    not see. Made before the operation; ``check`` after it."""

    def __init__(self, *roots):
        self.seen, self.before, self.owners = {}, [], {}
        ctx().known['p_changed'] = {}
        for r in roots:
            self.walk(r, None)

    def walk(self, o, owner):
        from pysx.maps import Persistent
        if isinstance(o, (Pvx, type)):
            return
        if isinstance(o, (list, dict, set, bytearray)):
            inside = [*o.items()] if isinstance(o, dict) else [*o]
        elif (type(o).__module__ or '').startswith('citrine') and hasattr(o, '__dict__'):
            inside = [*vars(o).items()]
        elif isinstance(o, tuple):
            inside = list(o)
        else:
            return
        if owner is not None:
            self.owners.setdefault(id(o), []).append(owner)
        if isinstance(o, Persistent):
            owner = o
        if id(o) in self.seen:
            return
        self.seen[id(o)] = o
        self.before.append((o, inside))
        for x in inside:
            for y in x if isinstance(x, tuple) else (x,):
                self.walk(y, owner)

    def check(self, name):
        from pysx.maps import Persistent

        def same(a, b):
            return len(a) == len(b) and all(x is y or isinstance(x, tuple) and isinstance(y, tuple)
                                            and same(x, y) for x, y in zip(a, b))
        marked, lost = ctx().known.get('p_changed', {}), []
        for o, old in self.before:
            now = [*o.items()] if isinstance(o, dict) else [*o] if isinstance(
                o, (list, set, bytearray, tuple)) else [*vars(o).items()]
            if not same(old, now) and not isinstance(o, Persistent) and not any(
                    id(p) in marked for p in self.owners.get(id(o), ())):
                lost.append(o)
        ctx().prove(f'{name}: what it changes is stored when it is committed', not lost,
                    f'changed, but nothing that holds it: {[type(o).__name__ for o in lost]}')

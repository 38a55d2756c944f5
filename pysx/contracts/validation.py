"""jsonld/tools/type.py: values of any nesting against any set of declared types.

The declared types are any of list, tuple, set and NoneType together with one
class that stands for all others that are declared; a value may be an instance of
it, a collection, both or neither. Additional checks are any number of functions
that accept or raise. The recursive call is replaced by the contract of
evaluate_value itself: it accepts exactly what is acceptable, and raises
ValueError or what one of the checks raised otherwise."""
import itertools

import z3

from pysx.core import B, I, Unsupported, Val, contract_error, ctx
from pysx.contracts.collection import BARE
from pysx.contracts.common import outcome
from pysx.data import AT, Data, LEN, Universe
from pysx.seq import PvxSeq
from pysx.sym import Pvx, PvxBool, PvxInt
from pysx.transform import Loader

NoneType = type(None)
BARE_LD = BARE + ('jsonld', 'jsonld.tools', 'jsonld.engine')


class Declared:
    """any type that is declared, other than the collections"""


class Other:
    pass


def sub(name, *bases):
    return type(name, bases, {})


KINDS = {'declared': Declared, 'other': Other, 'none': NoneType, 'list': list, 'tuple': tuple,
         'set': set, 'a list': sub('L', list), 'a tuple': sub('U', tuple), 'a set': sub('S', set),
         'declared list': sub('DL', Declared, list), 'declared set': sub('DS', Declared, set),
         'string': str, 'dictionary': dict}
SCALAR = z3.Function('passes_checks', Val, B)      # all additional checks accept it
PASS = z3.Function('check_accepts', I, Val, B)
GOOD = z3.Function('acceptable', Val, B)
RESULT = z3.Function('validated', Val, Val)


class Refused(Exception):
    """raised by an additional check"""


class Checked(Pvx):
    """what evaluate_value gives for a value it accepts"""

    def __init__(self, t):
        self.t = t

    def pvx_same(self, o):
        return self.t == o.t

    def pvx_reindex(self, j, i):
        return Checked(z3.substitute(self.t, (j, i)))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'{n} of a checked value')


class Case:
    """a call: types, functional, checks, and the rest of the arguments"""

    def __init__(self, mod):
        c = ctx()
        self.u = Universe(KINDS)
        extra = c.choose([x for n in range(3) for x in itertools.combinations(
            (list, tuple, set, NoneType), n)])
        self.types = {Declared, *extra}
        self.functional = c.fresh('functional', B)
        n = c.fresh('checks', I)
        c.assume(n >= 0)
        self.checks = PvxSeq(n, lambda j: Check(self, j), label='checks')
        self.kw = {'secure': object(), 'skip_none': object()}
        self.mod = mod
        c.known['hint'] = {'types': sorted(t.__name__ for t in self.types)}

    def accepted(self, t):
        """one of the types covers the value itself"""
        u = self.u
        return z3.Or(u.where(t, lambda k: issubclass(k, tuple(self.types))),
                     z3.And(z3.Not(self.functional), u.isa(t, list)))

    def passes(self, t):
        j = z3.Int(ctx().name_of('jc'))
        return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.checks.n), PASS(j, t)))

    def good(self, t):
        """acceptable, by what its members are"""
        j = z3.Int(ctx().name_of('jm'))
        return z3.And(self.accepted(t), z3.If(
            self.u.collection(t),
            z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < LEN(t)), GOOD(AT(t, j)))), self.passes(t)))

    def types_formula(self, types):
        """those types mean the same as the declared ones, for what is inside"""
        types = set(types)
        if not (types - {list}) == (self.types - {list}):
            return z3.BoolVal(False)
        if list in self.types:
            return z3.BoolVal(list in types)
        # with lists, or functional given as it was: both do
        return z3.BoolVal(True) if list not in types else z3.Not(self.functional)

    def recursive(self, val, types=None, prop=None, functional=False, additional=(), **kw):
        c = ctx()
        if not isinstance(val, Data):
            raise Unsupported('validation of what is not a member')
        if types is None:
            raise contract_error(TypeError('missing argument'))
        name = 'evaluate_value: members'
        c.prove(f'{name} against the same types', self.types_formula(types))
        f = functional if isinstance(functional, bool) else functional.t
        c.prove(f'{name} as functional as it is', z3.BoolVal(f) == self.functional
                if isinstance(f, bool) else f == self.functional)
        c.prove(f'{name} with the same checks', additional is self.checks)
        c.prove(f'{name} with the same arguments', kw == self.kw and prop == 'prop')
        if not c.branch(GOOD(val.t)):
            raise contract_error(c.choose([ValueError, Refused])('member'))
        return Checked(RESULT(val.t))


class Check(Pvx):
    """one additional check"""

    def __init__(self, case, j):
        self.case, self.j = case, j

    def pvx_reindex(self, j, i):
        return Check(self.case, z3.substitute(self.j, (j, i)))

    def __call__(self, val, *a, types=None, prop=None, functional=None, **kw):
        c = ctx()
        if a or not isinstance(val, Data):
            raise Unsupported('arguments of a check')
        name = 'evaluate_value: checks get'
        c.prove(f'{name} the value', val.t == self.case.val.t)
        c.prove(f'{name} the property and the arguments', prop == 'prop' and kw == self.case.kw)
        c.prove(f'{name} types', types is not None)
        if not c.branch(PASS(self.j, val.t)):
            raise contract_error(Refused('by a check'))
        return c.choose([None, False])


def evaluate(run):
    mod = Loader(bare=BARE_LD).load('jsonld.tools.type')

    def h():
        c = ctx()
        k = Case(mod)
        v = k.val = k.u.fresh('value')
        c.hooks[mod.evaluate_value] = k.recursive
        given = c.choose(['set', 'tuple', 'generator'])
        types = {'set': set, 'tuple': tuple, 'generator': iter}[given](sorted(k.types, key=str))
        what, r = outcome(lambda: mod.evaluate_value(
            v, types=types, prop='prop', functional=PvxBool(k.functional), additional=k.checks,
            **k.kw))
        good = k.good(v.t)
        c.prove('evaluate_value: accepts exactly what is acceptable', good == (what == 'ok'), repr(r))
        if what != 'ok':
            c.prove('evaluate_value: refuses with ValueError or as the check did',
                    isinstance(r, (ValueError, Refused)), repr(r))
            c.prove('evaluate_value: ValueError for what is of no declared type', z3.Or(
                z3.BoolVal(isinstance(r, ValueError)), k.accepted(v.t)), repr(r))
            return
        if c.branch(k.u.collection(v.t)):
            ok = isinstance(r, PvxSeq) and r.mutable
            c.prove('evaluate_value: a collection becomes a list', ok, repr(r))
            if not ok:
                return
            j = c.fresh('j', I)
            c.prove('evaluate_value: of as many members', z3.And(
                r.n == LEN(v.t), z3.BoolVal(r.keep is None)))
            c.assume(z3.And(j >= 0, j < LEN(v.t)))
            e = r.at(j)
            c.prove('evaluate_value: members in order', isinstance(e, Checked) and
                    e.t == RESULT(AT(v.t, j)), repr(e))
        else:
            c.prove('evaluate_value: a scalar is unchanged',
                    isinstance(r, Data) and r.t == v.t, repr(r))
    run.explore('evaluate_value', h)
    run.covers('jsonld.tools.type:evaluate_value')


class Owner:
    pass


def setter(run):
    mod = Loader(bare=BARE_LD).load('jsonld.tools.type')
    SV = mod.SetterValidator

    def h():
        c = ctx()
        u = Universe(KINDS)
        case = [c.choose(['tuple', 'set', 'list', 'single']),
                c.choose(['none allowed', 'not', 'default'])]
        ts = [Declared] if case[0] == 'single' else c.choose([[Declared], [Declared, Other, str],
                                                              [Declared, NoneType], []])
        types = {'tuple': tuple, 'set': set, 'list': list, 'single': lambda x: x[0]}[case[0]](ts)
        functional, checks = PvxBool(c.fresh('functional', B)), (object(), object())
        kw = {'secure': object()}
        if case[1] != 'default':
            kw['none_allowed'] = case[1] == 'none allowed'
        named = c.choose(['functional', 'default'])
        if named == 'functional':
            kw.update(functional=functional, additional=checks)
        none = kw.get('none_allowed', True)
        calls, stored = [], []
        obj, val = Owner(), u.fresh('value')
        returned = u.fresh('returned')
        problem = ValueError('refused') if c.branch(c.fresh('refused', B)) else None

        def evaluate(*a, **k):
            calls.append((a, k))
            if problem is not None:
                raise contract_error(problem)
            return returned

        def prop(*a):
            stored.append(a)
        c.hooks[mod.evaluate_value] = evaluate
        what, r = outcome(lambda: SV(types, **kw).check(prop)(obj, val))
        c.prove('setter: a value is validated once', len(calls) == 1, repr(r))
        if len(calls) != 1:
            return
        a, k = calls[0]
        a = list(a) + [k.pop(n) for n in ('val', 'types', 'prop', 'functional', 'additional')[len(a):]
                       if n in k]
        c.prove('setter: against the declared types, None among them where allowed',
                len(a) == 5 and a[0] is val and
                set(a[1]) == set(ts) | ({NoneType} if none else set()), repr(a))
        if len(a) == 5:
            c.prove('setter: as functional as declared', a[3] is functional if named == 'functional'
                    else a[3] is False)
            c.prove('setter: with the declared checks and arguments', (
                tuple(a[4]) == (checks if named == 'functional' else ())) and
                k == {'secure': kw['secure']} and a[2] == 'prop', repr(k))
        if problem is not None:
            c.prove('setter: what is refused is not stored', what == 'exc' and r is problem
                    and not stored, repr(r))
        else:
            c.prove('setter: what is accepted is stored once', what == 'ok' and len(stored) == 1
                    and len(stored[0]) == 2 and stored[0][0] is obj and stored[0][1] is returned,
                    repr(stored))
    run.explore('SetterValidator', h)
    run.covers('jsonld.tools.type:SetterValidator.__init__', 'jsonld.tools.type:SetterValidator.check')

"""C16, C17, C18, C20-C23: the jsonld package"""
import collections
import datetime as dtm
import decimal
import enum
import json
import re
from urllib import parse

from bounded.harness import check, ok, outcome, raises, same, short, Violation

UTC = dtm.timezone.utc
CONTEXTS = [None, 'c1', 'c2', '', 0, 5]


# ======================================================================== C16
class Boom(Exception):
    pass


def r_prop(base, steps, order=None):
    """base: subset of 'gsd' given to the constructor; steps build further
    properties: ['derive', i, 'g'|'s'|'d'] appends a property derived from
    property i with a new default; ['ctx', i, kind, context] registers a function"""
    from jsonld.base import ContextualProperty, JsonContextAwareManager
    log = []
    n = [0]

    def fn(kind):
        n[0] += 1
        name = f'f{n[0]}'
        if kind == 'g':
            def f(obj):
                log.append((name, obj))
                return ('got', name)
        elif kind == 's':
            def f(obj, val):
                log.append((name, obj, val))
        else:
            def f(obj):
                log.append((name, obj))
        f.__name__ = 'prop'
        return name, f
    first = {}
    kw = {}
    for k in base:
        name, f = fn(k)
        first[k] = {None: name}
        kw[{'g': 'fget', 's': 'fset', 'd': 'fdel'}[k]] = f
    props = [ContextualProperty(doc='d', **kw)]
    models = [{k: first.get(k, {None: None}) for k in 'gsd'}]

    def look(what):
        for no, (p, m) in enumerate(zip(props, models)):
            cls = type('T', (), {'prop': p})
            plain = cls()
            aware = cls()
            aware.__context__ = JsonContextAwareManager()
            for c in CONTEXTS:
                for o in ([aware] if c is not None else [aware, plain]):
                    def act(kind, where):
                        del log[:]
                        fns = m[kind]
                        want = fns[c] if c in fns else fns[None]
                        val = object()
                        do = {'g': lambda: o.prop, 's': lambda: setattr(o, 'prop', val),
                              'd': lambda: delattr(o, 'prop')}[kind]
                        w = f'{what}: property {no}, {kind} in context {c!r}'
                        if want is None:
                            raises(do, AttributeError, w)
                            check(log == [], f'{w}: some function ran', [x[0] for x in log])
                        else:
                            got = ok(do, w)
                            exp = (want, o, val) if kind == 's' else (want, o)
                            check(len(log) == 1 and len(log[0]) == len(exp) and
                                  all(a is b or a == b for a, b in zip(log[0], exp)),
                                  f'{w}: ran', [x[0] for x in log], want)
                            if kind == 'g':
                                check(got == ('got', want), f'{w}: value', got)
                    for kind in 'gsd':
                        if c is None and o is plain:
                            act(kind, 'plain')
                        else:
                            with o.__context__(c):
                                act(kind, 'in')
    look('new property')
    for st in steps:
        i = st[1] % len(props)
        name, f = fn(st[2])
        if st[0] == 'derive':
            p = {'g': props[i].getter, 's': props[i].setter, 'd': props[i].deleter}[st[2]](f)
            m = {k: dict(v) for k, v in models[i].items()}
            m[st[2]][None] = name
            props.append(p)
            models.append(m)
        else:
            reg = {'g': props[i].getter_context, 's': props[i].setter_context,
                   'd': props[i].deleter_context}[st[2]](st[3])
            p = reg(f)
            if p is not props[i]:
                # a copy may be returned instead; then the old one is unaffected
                m = {k: dict(v) for k, v in models[i].items()}
                m[st[2]][st[3]] = name
                props.append(p)
                models.append(m)
            else:
                models[i] = {k: dict(v) for k, v in models[i].items()}
                models[i][st[2]][st[3]] = name
        look(f'after {st}')


def r_nesting(tree, kind='manager', start=None):
    """tree: list of [context, children, raises?]"""
    from jsonld.base import JsonContextAwareManager, PropertyAwareObject
    if kind == 'manager':
        man = JsonContextAwareManager()
        enter = man
    else:
        obj = PropertyAwareObject()
        man = obj.__context__
        enter = obj.switch_context
    if start is not None:
        man.context = start
    check(man.context is start or man.context == start, 'initial context')

    def walk(nodes, cur):
        for ctx, sub, fails in nodes:
            err = Boom('x')

            def go():
                with enter(ctx) as m:
                    check(m is man, 'the manager itself is entered')
                    check(same(man.context, ctx), f'context inside with {ctx!r}', man.context)
                    walk(sub, ctx)
                    check(same(man.context, ctx), f'context after inner blocks of {ctx!r}', man.context)
                    if fails:
                        raise err
            if fails:
                got = raises(go, Boom, 'a block left by an exception')
                check(got is err, 'the exception of the block')
            else:
                ok(go, f'block {ctx!r}')
            check(same(man.context, cur), f'context after leaving {ctx!r} (before it: {cur!r})', man.context)
    walk(tree, start)


def rand_tree(rng, depth):
    return [[rng.choice(CONTEXTS), rand_tree(rng, depth - 1) if depth else [], rng.random() < .4]
            for _ in range(rng.randint(0 if depth < 2 else 1, 3))]


def gen_c16(run):
    rng = run.rng
    for base in ('', 'g', 's', 'd', 'gs', 'gsd', 'sd', 'gd'):
        yield 'prop', dict(base=base, steps=[])
        for k in 'gsd':
            yield 'prop', dict(base=base, steps=[['ctx', 0, k, 'c1'], ['derive', 0, k], ['ctx', 1, k, 'c1'],
                                                 ['ctx', 0, k, 'c2'], ['derive', 1, k], ['derive', 0, k]])
            yield 'prop', dict(base=base, steps=[['derive', 0, k], ['ctx', 1, k, ''], ['ctx', 0, k, 0]])
    for kind in ('manager', 'object'):
        for start in (None, 'c1', 0):
            for a in CONTEXTS:
                for f in (0, 1):
                    yield 'nesting', dict(kind=kind, start=start, tree=[[a, [[None, [], f], ['c2', [[a, [], f]], 0]], f],
                                                                        ['c1', [], 0]])
    n = 300 if run.tier == 'quick' else 8000
    for _ in range(n):
        if run.timeleft() <= 0:
            return
        if rng.random() < .5:
            steps = [[rng.choice(['derive', 'ctx']), rng.randrange(9), rng.choice('gsd'),
                      rng.choice(CONTEXTS[1:])] for _ in range(rng.randint(1, 6))]
            yield 'prop', dict(base=''.join(k for k in 'gsd' if rng.random() < .6), steps=steps)
        else:
            yield 'nesting', dict(kind=rng.choice(['manager', 'object']), start=rng.choice([None, 'c1']),
                                  tree=rand_tree(rng, rng.randint(0, 4)))


# ======================================================================== C17
class StrSub(str):
    pass


class IntE(enum.IntEnum):
    A = 4


class StrE(str, enum.Enum):
    A = 'val'


class Iter:
    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)


class Odd:
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text

    def __eq__(self, other):
        return isinstance(other, Odd) and other.text == self.text

    def __hash__(self):
        return hash(self.text)


def make_class(names, hidden=None):
    """a PropertyJsonLD subclass with plain properties"""
    from jsonld.jsonld import PropertyJsonLD
    from jsonld.base import contextualproperty
    ns = {}
    for n in names:
        def get(self, n=n):
            return self.__dict__.get('_v_' + n)

        def put(self, v, n=n):
            self.__dict__['_v_' + n] = v
        get.__name__ = n
        if hidden and n in hidden:
            p = contextualproperty(get).setter(put)
            for ctx, val in hidden[n].items():
                p = p.getter_context(ctx)(lambda self, val=val: val)
            ns[n] = p
        else:
            ns[n] = property(get, put)
    return type('T', (PropertyJsonLD,), ns)


def build(spec):
    if not isinstance(spec, dict):
        return spec
    t, v = spec['t'], spec.get('v')
    if t == 'list':
        return [build(x) for x in v]
    if t == 'tuple':
        return tuple(build(x) for x in v)
    if t == 'set':
        return {build(x) for x in v}
    if t == 'frozenset':
        return frozenset(build(x) for x in v)
    if t == 'iter':
        return Iter([build(x) for x in v])
    if t == 'deque':
        return collections.deque(build(x) for x in v)
    if t == 'dict':
        return {k: build(x) for k, x in v.items()}
    if t == 'odict':
        return collections.OrderedDict((k, build(x)) for k, x in v.items())
    if t == 'date':
        return dtm.datetime(*v)
    if t == 'delta':
        return dtm.timedelta(seconds=v)
    if t == 'decimal':
        return decimal.Decimal(v)
    if t == 'strsub':
        return StrSub(v)
    if t == 'intenum':
        return IntE.A
    if t == 'strenum':
        return StrE.A
    if t == 'odd':
        return Odd(v)
    if t == 'obj':
        cls = make_class(v)
        o = cls(acontext=build(spec.get('c')))
        for k, x in v.items():
            setattr(o, k, build(x))
        return o
    raise ValueError(t)


# the keywords of JSON-LD 1.1, and the attributes that stand for them
KEYMAP17 = {'a' + k: '@' + k for k in (
    'base container context direction graph id import included index json language list nest '
    'none prefix propagate protected reverse set type value version vocab').split()}


def model_value(v):
    """the JSON value of v as the property states it"""
    from jsonld.jsonld import PropertyJsonLD
    if isinstance(v, PropertyJsonLD):
        return {KEYMAP17.get(k[3:], k[3:]): model_value(x) for k, x in sorted(v.__dict__.items())
                if k.startswith('_v_') and x is not None}
    if v is None or isinstance(v, (str, bool, int, float)):
        return v
    if isinstance(v, dict):
        return {k: model_value(x) for k, x in v.items()}
    try:
        it = iter(v)
    except TypeError:
        return str(v)
    return [model_value(x) for x in it]


def eqj(a, b, sets=True):
    """equal as JSON values (types included)"""
    if isinstance(b, dict):
        return type(a) is dict and set(a) == set(b) and all(eqj(a[k], b[k]) for k in b)
    if isinstance(b, list):
        return type(a) is list and len(a) == len(b) and all(eqj(x, y) for x, y in zip(a, b))
    if isinstance(b, bool) or b is None:
        return a is b
    return isinstance(a, type(b)) and not (isinstance(a, bool)) and (a == b or (a != a and b != b))


KEYS17 = ['alpha', 'beta', 'gamma', 'aid', 'name']


def r_data(values, include=None, exclude=None, rename=None, include_none=None, reject=None,
           context='default', hidden=None, acontext=None, shape='tuple'):
    from jsonld.utils import JSON_DATA_CONTEXT
    from jsonld.base import JsonContextAwareManager
    hid = {n: {(JSON_DATA_CONTEXT if c == 'json' else c): build(x) for c, x in m.items()}
           for n, m in (hidden or {}).items()}
    cls = make_class(values, hid)
    obj = cls(acontext=build(acontext))
    for k, x in values.items():
        setattr(obj, k, build(x))
    coll = {'tuple': tuple, 'list': list, 'set': set}[shape]
    kw = {}
    if include is not None:
        kw['include'] = coll(include)
    if exclude is not None:
        kw['exclude'] = coll(exclude)
    if rename is not None:
        kw['rename'] = rename
    if include_none is not None:
        kw['include_none'] = include_none
    if reject is not None:
        kw['reject_values'] = [build(x) for x in reject]
    jkw = {k: v for k, v in kw.items() if k != 'reject_values'}
    if context != 'default':
        kw['context'] = context
    ctx = JSON_DATA_CONTEXT if context == 'default' else context
    names = {**KEYMAP17, **(rename or {})}

    def expect(ctx, reject):
        res = {}
        for p in list(values) + ['acontext', '__namespace__']:
            if p == 'acontext':
                v = build(acontext)
            elif p == '__namespace__':
                v = None
            else:
                v = getattr(obj, '_v_' + p, None)
                if p in hid and ctx in hid[p]:
                    v = hid[p][ctx]
            if include and p not in include:
                continue
            if exclude and p in exclude:
                continue
            if v is None and not include_none:
                continue
            if any(v is r or v == r for r in reject):
                continue
            res[names.get(p, p)] = model_value(v)
        return res
    before = obj.__context__.context
    what = f'data({kw})'
    got = ok(lambda: obj.data(**kw), what)
    check(same(obj.__context__.context, before), f'{what}: the context is not restored', obj.__context__.context)
    want = expect(ctx, kw.get('reject_values', []))
    check(type(got) is dict and set(got) == set(want), f'{what}: keys', sorted(got), sorted(want))
    for k in want:
        check(eqj(got[k], want[k]), f'{what}: {k}', got[k], want[k])
    text = ok(lambda: json.dumps(got), f'{what}: encoding as JSON')
    for extra in ({}, {'minified': True}, {'indent': 2}):
        t = ok(lambda: obj.json(**jkw, **extra), f'json({jkw}, {extra})')
        w = json.loads(json.dumps(expect(JSON_DATA_CONTEXT, [])))
        g = json.loads(t)
        check(eqj(g, w), f'json({jkw}, {extra})', g, w)
        if extra.get('minified'):
            check(t == json.dumps(json.loads(t), separators=(',', ':')), 'minified output', t)
    names = sorted(list(values) + ['acontext', '__namespace__'])
    pairs = ok(lambda: list(obj), 'iterating the object')
    check(sorted(n for n, _ in pairs) == names, 'iterating the object: its properties', pairs, names)
    for n, v in pairs:
        check(same(v, getattr(obj, n)), f'iterating the object: {n}', v, getattr(obj, n))
    for some in (names[:1], names, names[::-2], []):
        for arg in (some, tuple(some), *some[:1]):
            want = [arg] if isinstance(arg, str) else some
            g = ok(lambda: obj[arg], f'item access {arg!r}')
            check(set(g) == set(want) and all(same(g[n], getattr(obj, n)) for n in want),
                  f'item access {arg!r}', g)
    for bad in ('nothing', ['nothing'], [names[0], 'nothing', 'neither'], ('_v_x', names[0])):
        raises(lambda: obj[bad], KeyError, f'item access {bad!r}')


def r_families(family, first):
    """family: [[bases (indexes), property]]: the output of every class has its
    properties, whatever was asked of which class before"""
    from jsonld.jsonld import PropertyJsonLD
    classes = []
    for i, (bases, name) in enumerate(family):
        try:
            classes.append(type(f'F{i}', tuple(classes[j] for j in bases) or (PropertyJsonLD,), {
                name: property(lambda self, i=i: ('of', i)),
                '__init__': lambda self: PropertyJsonLD.__init__(self, acontext='c')}))
        except TypeError:
            return                      # no such hierarchy in Python
    for i in first + sorted(range(len(classes)), reverse=len(first) % 2):
        c = classes[i]
        want = {'@context': 'c'}
        for m in reversed(c.__mro__):
            if m in classes:
                want[family[classes.index(m)][1]] = ['of', classes.index(m)]
        what = f'data() of an object of class {i} of {family}, after {first}'
        got = ok(lambda: c().data(), what)
        check(eqj(got, want), what, got, want)
        o = c()
        check(set(o.__properties__) == {*want, 'acontext', '__namespace__'} - {'@context'},
              f'properties of an object of class {i} of {family}', o.__properties__)


def rand_value(rng, depth=2, hashable=False):
    x = rng.random()
    scal = [None, True, False, 0, 1, -3, 2.5, 0.0, '', 'text', 'é"\n', 10 ** 20,
            {'t': 'date', 'v': [2020, 1, 2, 3, 4, 5]}, {'t': 'delta', 'v': 5}, {'t': 'decimal', 'v': '1.50'},
            {'t': 'strsub', 'v': 'sub'}, {'t': 'intenum'}, {'t': 'strenum'}, {'t': 'odd', 'v': 'odd'}]
    if depth == 0 or x < .5 or hashable:
        return rng.choice(scal)
    if x < .85:
        t = rng.choice(['list', 'list', 'tuple', 'set', 'iter', 'deque', 'frozenset'])
        n = rng.randint(0, 3) if t not in ('set', 'frozenset') else rng.randint(0, 1)
        return {'t': t, 'v': [rand_value(rng, depth - 1, t in ('set', 'frozenset')) for _ in range(n)]}
    if x < .93:
        return {'t': rng.choice(['dict', 'odict']),
                'v': {k: rand_value(rng, depth - 1) for k in rng.sample(['a', 'b', '', 'acontext', '@context'], 2)}}
    return {'t': 'obj', 'c': rng.choice([None, 'ctx']),
            'v': {k: rand_value(rng, depth - 1) for k in rng.sample(KEYS17, 2)}}


def gen_c17(run):
    rng = run.rng
    base = {'alpha': 1, 'beta': None, 'gamma': 'x', 'aid': 'http://i', 'name': ''}
    yield 'data', dict(values={k: 1 for k in KEYMAP17 if k != 'acontext'}, acontext='c')
    yield 'data', dict(values={k[1:]: 1 for k in KEYMAP17 if k not in ('ajson', 'acontext')})
    for inc in (None, [], ['alpha'], ['alpha', 'beta'], ['acontext'], ['nosuch']):
        for exc in (None, [], ['alpha'], ['acontext', 'gamma']):
            for none in (None, True, False):
                yield 'data', dict(values=base, include=inc, exclude=exc, include_none=none, acontext='c',
                                   shape=['tuple', 'list', 'set'][(len(inc or []) + len(exc or [])) % 3])
    for ren in ({}, {'alpha': 'x'}, {'aid': 'id'}, {'beta': 'b', 'gamma': '@g'}):
        for none in (True, False):
            yield 'data', dict(values=base, rename=ren, include_none=none)
    for rej in ([], [1], ['x', ''], [None], [0], [{'t': 'list', 'v': []}], [False]):
        for none in (True, False):
            yield 'data', dict(values=base, reject=rej, include_none=none)
    for spec in [{'t': t, 'v': [1, {'t': u, 'v': ['a']}]} for t in ('list', 'tuple', 'iter', 'deque')
                 for u in ('list', 'tuple', 'set', 'frozenset', 'iter', 'deque')]:
        yield 'data', dict(values={'alpha': spec})
    for ctx in (None, 'c1', 'other', '', 0):
        yield 'data', dict(values=base, context=ctx, hidden={'alpha': {'c1': 5, 'json': 'j'}, 'gamma': {'json': None}})
    yield 'data', dict(values=base, hidden={'alpha': {'c1': 5, 'json': 'j'}, 'gamma': {'json': None}})
    for first in ([], [0], [0, 2], [2], [1, 0]):
        yield 'families', dict(family=[[[], 'pa'], [[0], 'pb'], [[1], 'pc'], [[0], 'pa'], [[3, 2], 'pd']],
                               first=first)
    for depth in (8, 12, 20):
        chain = [[[i - 1] if i else [], f'p{i}'] for i in range(depth)]
        yield 'families', dict(family=chain, first=[depth - 1])
        yield 'families', dict(family=chain, first=[])
    for _ in range(60):
        k = rng.randint(2, 5)
        yield 'families', dict(
            family=[[sorted(rng.sample(range(i), min(i, rng.choice([0, 1, 1, 2]))), reverse=True),
                     rng.choice(['pa', 'pb', 'pc', 'pd'])] for i in range(k)],
            first=[rng.randrange(k) for _ in range(rng.randint(0, 3))])
    n = 700 if run.tier == 'quick' else 20000
    for _ in range(n):
        if run.timeleft() <= 0:
            return
        names = rng.sample(KEYS17, rng.randint(1, 5))
        pool = names + ['acontext', 'nosuch']
        yield 'data', dict(
            values={k: rand_value(rng) for k in names},
            include=rng.choice([None, None, rng.sample(pool, rng.randint(0, len(pool)))]),
            exclude=rng.choice([None, None, rng.sample(pool, rng.randint(0, len(pool)))]),
            rename=rng.choice([None, {rng.choice(names): 'renamed'}]),
            include_none=rng.choice([None, True, False]),
            reject=rng.choice([None, None, [rand_value(rng, 0)]]),
            acontext=rng.choice([None, 'ctx', {'t': 'list', 'v': ['a']}]),
            shape=rng.choice(['tuple', 'list', 'set']))


# ======================================================================== C18
class Base_:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f'{type(self).__name__}({self.n})'


class Derived(Base_):
    pass


class Other:
    pass


TYPES = {'str': str, 'int': int, 'float': float, 'bool': bool, 'list': list, 'tuple': tuple, 'set': set,
         'dict': dict, 'datetime': dtm.datetime, 'Base': Base_, 'Derived': Derived, 'None': type(None)}


def val18(spec):
    if isinstance(spec, dict):
        t, v = spec['t'], spec.get('v')
        if t == 'list':
            return [val18(x) for x in v]
        if t == 'tuple':
            return tuple(val18(x) for x in v)
        if t == 'set':
            return {val18(x) for x in v}
        if t == 'dict':
            return {k: val18(x) for k, x in v.items()}
        if t == 'base':
            return Base_(v)
        if t == 'derived':
            return Derived(v)
        if t == 'other':
            return Other()
        if t == 'datetime':
            return dtm.datetime(2020, 1, 1)
        if t == 'strsub':
            return StrSub(v)
        if t == 'listsub':
            return type('L', (list,), {})(val18(x) for x in v)
    return spec


def model18(v, types, functional):
    """(accepted, stored, scalars)"""
    allowed = set(types) if functional else set(types) | {list}
    if not isinstance(v, tuple(allowed)):
        return False, None, []
    if isinstance(v, (list, tuple, set)):
        out, sc = [], []
        for x in v:
            a, s, c = model18(x, types, functional)
            sc += c
            if not a:
                return False, None, sc
            out.append(s)
        return True, out, sc
    return True, v, [v]


def same_tree(a, b):
    if type(b) is list:
        return type(a) is list and len(a) == len(b) and all(same_tree(x, y) for x, y in zip(a, b))
    return a is b


def r_setter(types, value, functional=None, none=None, checks=0, refuse=None, single=False, extra=None, old='OLD'):
    from jsonld.tools.type import SetterValidator
    ts = [TYPES[t] for t in types]
    kw = dict(extra or {})
    if functional is not None:
        kw['functional'] = functional
    if none is not None:
        kw['none_allowed'] = none
    calls = []

    def make(i):
        def chk(v, *a, **k):
            calls.append((i, v, k))
            if refuse is not None and i == refuse[0] and len([c for c in calls if c[0] == i]) == refuse[1]:
                raise ValueError('refused')
            return refuse           # what a check returns does not matter
        return chk
    if checks:
        kw['additional'] = tuple(make(i) for i in range(checks))
    given = ts[0] if single and len(ts) == 1 else (t for t in ts) if single else ts
    val = ok(lambda: SetterValidator(given, **kw), 'SetterValidator')

    class T:
        pass

    def prop(self, v):
        self.stored = v
    T.prop = property(lambda self: self.stored, ok(lambda: val.check(prop), 'check'))
    o = T()
    o.stored = old
    v = val18(value)
    eff = set(ts) | ({type(None)} if none is None or none else set())
    acc, stored, scal = model18(v, eff, bool(functional))
    if refuse is not None and acc and len(scal) >= refuse[1] and refuse[0] < checks:
        acc = False
    what = f'setting {value} with types {types}, functional={functional}, none_allowed={none}, {checks} checks'

    def put():
        o.prop = v
    if not acc:
        raises(put, ValueError, what)
        check(o.stored is old, f'{what}: a refused value changed the property', o.stored)
    else:
        ok(put, what)
        check(same_tree(o.stored, stored), f'{what}: stored', o.stored, stored)
        if checks and refuse is None:
            for i in range(checks):
                got = [c[1] for c in calls if c[0] == i]
                check(len(got) == len(scal) and all(any(a is b for b in got) for a in scal),
                      f'{what}: check {i} ran on', got, scal)
                for c in calls:
                    for k, x in (extra or {}).items():
                        check(c[2].get(k) == x, f'{what}: keyword {k} for the checks', c[2])


def r_evaluate(types, value, functional=None, gen=False):
    from jsonld.tools.type import evaluate_value
    ts = [TYPES[t] for t in types]
    kw = {} if functional is None else {'functional': functional}
    v = val18(value)
    acc, stored, _ = model18(v, set(ts), bool(functional))
    what = f'evaluate_value({value}, {types}, {kw})'

    def go():
        return evaluate_value(v, types=(t for t in ts) if gen else ts, prop='p', **kw)
    if acc:
        check(same_tree(ok(go, what), stored), f'{what}: result')
    else:
        raises(go, ValueError, what)


def rand18(rng, depth):
    x = rng.random()
    scal = [None, 'a', '', 0, 1, -1, 1.5, 0.0, True, False, {'t': 'base', 'v': 1}, {'t': 'derived', 'v': 2},
            {'t': 'other'}, {'t': 'datetime'}, {'t': 'strsub', 'v': 's'}, {'t': 'dict', 'v': {}},
            {'t': 'dict', 'v': {'a': 1}}]
    if depth == 0 or x < .5:
        return rng.choice(scal)
    t = rng.choice(['list', 'list', 'list', 'tuple', 'set', 'listsub'])
    n = rng.randint(0, 3)
    if t == 'set':
        return {'t': 'set', 'v': [rng.choice(scal[:10]) for _ in range(min(n, 1))]}
    return {'t': t, 'v': [rand18(rng, depth - 1) for _ in range(n)]}


def gen_c18(run):
    rng = run.rng
    vals = [None, 'a', '', 0, 1, 1.5, True, {'t': 'base', 'v': 1}, {'t': 'derived', 'v': 1}, {'t': 'other'},
            {'t': 'list', 'v': []}, {'t': 'list', 'v': ['a', 'b', 'a']}, {'t': 'list', 'v': ['a', 1]},
            {'t': 'list', 'v': [None, 'a']}, {'t': 'list', 'v': [{'t': 'list', 'v': ['a', {'t': 'other'}]}]},
            {'t': 'list', 'v': [{'t': 'list', 'v': [{'t': 'list', 'v': ['a']}]}]}, {'t': 'tuple', 'v': ['a', 'b']},
            {'t': 'set', 'v': ['a']}, {'t': 'tuple', 'v': []}, {'t': 'list', 'v': [{'t': 'tuple', 'v': ['a']}]},
            {'t': 'dict', 'v': {'a': 1}}, {'t': 'listsub', 'v': ['a']}]
    for types in (['str'], ['int'], ['str', 'int'], ['bool'], ['Base'], ['Derived'], ['list'], ['str', 'list'],
                  ['tuple', 'str'], ['set', 'str'], ['dict'], [], ['None'], ['float'], ['datetime', 'str']):
        for v in vals:
            for fun in (None, True, False):
                for none in (None, True, False):
                    yield 'setter', dict(types=types, value=v, functional=fun, none=none,
                                         checks=(len(types) + (fun is True)) % 3, single=(fun is True))
                yield 'evaluate', dict(types=types, value=v, functional=fun, gen=fun is not False)
    for v in vals:
        for which in (0, 1):
            for nth in (1, 2, 3):
                yield 'setter', dict(types=['str', 'list', 'int'], value=v, checks=2, refuse=[which, nth],
                                     extra={'secure': True})
        yield 'setter', dict(types=['str', 'Base'], value=v, checks=2, extra={'secure': True})
    n = 2500 if run.tier == 'quick' else 60000
    for _ in range(n):
        if run.timeleft() <= 0:
            return
        types = rng.sample(sorted(TYPES), rng.randint(0, 4))
        checks = rng.randint(0, 2)
        yield 'setter', dict(types=types, value=rand18(rng, 3), functional=rng.choice([None, True, False]),
                             none=rng.choice([None, True, False]), checks=checks,
                             refuse=[rng.randrange(checks), rng.randint(1, 3)] if checks and rng.random() < .3 else None,
                             single=rng.random() < .3, extra=rng.choice([None, {'secure': 1}]),
                             old=rng.choice(['OLD', None, 0]))


# ======================================================================== C20
FORM = re.compile(r'([0-9]{4})-(0[1-9]|1[0-2])-(0[1-9]|[12][0-9]|3[01])T([01][0-9]|2[0-3]):([0-5][0-9])'
                  r'(?::([0-5][0-9]|60))?(?:\.([0-9]{1,6}))?(Z|Z?([-+])([01][0-9]|2[0-3]):([0-5][0-9]))')


def denoted(text):
    """('no'|'leap'|'nodate', None) or ('yes', instant)"""
    m = FORM.fullmatch(text)
    if not m:
        return 'no', None
    y, mo, d, h, mi, s, frac, z, sign, oh, om = m.groups()
    if s == '60':
        return 'leap', None
    try:
        t = dtm.datetime(int(y), int(mo), int(d), int(h), int(mi), int(s or 0),
                         int((frac or '').ljust(6, '0') or 0))
    except ValueError:
        return 'nodate', None
    off = dtm.timedelta(0)
    if sign:
        off = dtm.timedelta(hours=int(oh), minutes=int(om)) * (1 if sign == '+' else -1)
    return 'yes', (t - dtm.datetime(1, 1, 1)) - off


def instant(t):
    """time since year 1, naive taken as UTC"""
    off = t.utcoffset() or dtm.timedelta(0)
    return (t.replace(tzinfo=None) - dtm.datetime(1, 1, 1)) - off


def r_parse(text):
    from jsonld.tools.datetime import is_activity_datetime, parse_activitystream_datetime
    verdict, inst = denoted(text)
    kind, val = outcome(lambda: is_activity_datetime(text, prop='p'))
    if verdict == 'no':
        check(kind == 'exc' and isinstance(val, ValueError), f'{text!r} was accepted as a date-time')
        return
    check(kind == 'ok', f'{text!r} was not accepted as a date-time', val)
    if verdict != 'yes':
        return
    got = ok(lambda: parse_activitystream_datetime(text), f'parsing {text!r}')
    check(isinstance(got, dtm.datetime), f'parsing {text!r}', got)
    check(instant(got) == inst, f'{text!r} parsed to another instant', got)


def mkdt(v):
    tz = None
    if len(v) > 7 and v[7] is not None:
        tz = dtm.timezone(dtm.timedelta(seconds=v[7]))
    return dtm.datetime(*v[:7], tzinfo=tz)


def r_serialise(v):
    from jsonld.tools.datetime import datetime_str, parse_activitystream_datetime, is_activity_datetime
    from jsonld.engine.utils import stringify_datetime, stringify
    t = mkdt(v)
    sec = instant(t)
    try:
        dtm.datetime(1, 1, 1) + sec
    except OverflowError:
        return
    for fn in (datetime_str, stringify_datetime, stringify):
        s = ok(lambda: fn(t), f'{fn.__name__}({t!r})')
        check(isinstance(s, str), f'{fn.__name__}({t!r})', s)
        verdict, inst = denoted(s)
        check(verdict == 'yes', f'{fn.__name__}({t!r}) is not of the documented form', s)
        lost = sec - inst
        check(dtm.timedelta(0) <= lost < dtm.timedelta(seconds=1), f'{fn.__name__}({t!r}) denotes another instant', s)
        ok(lambda: is_activity_datetime(s), f'accepting {s!r}')
        back = ok(lambda: parse_activitystream_datetime(s), f'parsing {s!r}')
        check(instant(back) == inst, f'{t!r} -> {s!r} -> {back!r}')


def host(name):
    """an object with one property of the vocabulary"""
    from activitystreams import properties
    from jsonld.jsonld import PropertyJsonLD
    cls = getattr(properties, name)
    pname = cls.__get_property_name__()
    return lambda: type('H', (PropertyJsonLD,), {pname: cls.__dict__[pname]})(acontext=None)


def r_datetime_prop(text):
    """through a vocabulary property"""
    Object = host('Published')
    verdict, inst = denoted(text)
    o = Object()
    kind, val = outcome(lambda: setattr(o, 'published', text))
    if verdict == 'no':
        check(kind == 'exc', f'published = {text!r} was accepted')
        return
    if verdict != 'yes':
        return
    check(kind == 'ok', f'published = {text!r}', val)
    got = o.published
    check(isinstance(got, dtm.datetime) and instant(got) == inst, f'published = {text!r}', got)
    try:
        dtm.datetime(1, 1, 1) + inst
    except OverflowError:
        return
    out = o.data(include=('published',))['published']
    v2, i2 = denoted(out)
    check(v2 == 'yes' and dtm.timedelta(0) <= inst - i2 < dtm.timedelta(seconds=1),
          f'published = {text!r} comes out as', out)


def r_nonstring(v):
    from jsonld.tools.datetime import is_activity_datetime, parse_activitystream_datetime
    x = mkdt(v) if v is not None else None
    ok(lambda: is_activity_datetime(x), f'{x!r}')
    check(parse_activitystream_datetime(x) is x, f'parsing {x!r}')


def gen_c20(run):
    rng = run.rng
    for v in (None, [2020, 1, 1, 0, 0, 0, 0], [2020, 1, 1, 0, 0, 0, 5, 3600]):
        yield 'nonstring', dict(v=v)
    years = ['0001', '0042', '0999', '1000', '1970', '2000', '2023', '2024', '9999', '0000']
    zones = ['Z', '+00:00', '-00:00', '+05:30', '-23:59', '+23:59', 'Z+05:30', 'Z-11:45', '-01:00']
    for y in years:
        for md in ('01-01', '12-31', '02-28', '02-29', '02-30', '06-15'):
            for t in ('00:00', '23:59', '23:59:59', '00:00:00', '12:30:60', '10:20:30.5', '10:20.25', '10:20:30.123456',
                      '10:20:30.000001', '00:00.1'):
                for z in rng.sample(zones, 3):
                    yield 'parse', dict(text=f'{y}-{md}T{t}{z}')
    for z in zones:
        for t in ('10:20', '10:20:30', '10:20:30.5', '10:20.25'):
            yield 'parse', dict(text=f'2024-02-29T{t}{z}')
            yield 'datetime_prop', dict(text=f'2024-02-29T{t}{z}')
    good = '2024-02-29T10:20:30.5+05:30'
    for i in range(len(good)):
        for c in 'Z0-+:. T9a\n':
            yield 'parse', dict(text=good[:i] + c + good[i:])
            yield 'parse', dict(text=good[:i] + c + good[i + 1:])
        yield 'parse', dict(text=good[:i] + good[i + 1:])
        yield 'parse', dict(text=good[:i])
    for s in ('', 'Z', '2024', '2024-02-29', '2024-02-29T10:20:30', '2024-02-29 10:20:30Z', '2024-02-29T10Z',
              '2024-02-29t10:20:30z', '2024-02-29T24:00:00Z', '2024-2-9T1:2:3Z', '2024-02-29T10:20:30Z\n',
              ' 2024-02-29T10:20:30Z', '2024-02-29T10:20:30.Z', '2024-02-29T10:20:30.1234567Z', '2024-02-29T10:20:61Z',
              '2024-02-29T10:60:00Z', '2024-13-01T10:00:00Z', '2024-00-01T10:00:00Z', '2024-01-32T10:00:00Z',
              '2024-01-00T10:00:00Z', '2024-01-01T10:00:00+24:00', '2024-01-01T10:00:00+05:60',
              '2024-01-01T10:00:00+5:30', '2024-01-01T10:00:00+0530', '20240-01-01T10:00:00Z', '202-01-01T10:00:00Z',
              '-2024-01-01T10:00:00Z', '2024-01-01T10:00:00ZZ', '2024-01-01T10:00:00+05:30Z'):
        yield 'parse', dict(text=s)
        yield 'datetime_prop', dict(text=s)
    for y in (1, 42, 999, 1000, 1970, 2024, 9999):
        for off in (None, 0, 3600, -3600, 86340, -86340, 19800, 1, -1, 59, 3661):
            for us in (0, 1, 999999):
                yield 'serialise', dict(v=[y, 1, 1, 0, 0, 0, us, off])
                yield 'serialise', dict(v=[y, 12, 31, 23, 59, 59, us, off])
                yield 'serialise', dict(v=[y, 6, 5, 4, 3, 2, us, off])
    n = 2500 if run.tier == 'quick' else 60000
    for _ in range(n):
        if run.timeleft() <= 0:
            return
        d = dtm.date.fromordinal(rng.randint(1, 3652059))
        h, mi, s = rng.randrange(24), rng.randrange(60), rng.randrange(60)
        if rng.random() < .5:
            t = f'{d.year:04d}-{d.month:02d}-{d.day:02d}T{h:02d}:{mi:02d}'
            t += rng.choice(['', f':{s:02d}'])
            t += rng.choice(['', '', '.' + ''.join(rng.choice('0123456789') for _ in range(rng.randint(1, 6)))])
            t += rng.choice(['Z', f'{rng.choice(["", "Z"])}{rng.choice("+-")}{rng.randrange(24):02d}:{rng.randrange(60):02d}'])
            yield rng.choice(['parse', 'parse', 'datetime_prop']), dict(text=t)
        else:
            yield 'serialise', dict(v=[d.year, d.month, d.day, h, mi, s, rng.choice([0, rng.randrange(10 ** 6)]),
                                       rng.choice([None, 0, rng.randint(-86399, 86399), rng.randint(-1439, 1439) * 60])])


# ======================================================================== C21
DUR = re.compile(r'P(?:([0-9]+)Y)?(?:([0-9]+)M)?(?:([0-9]+)D)?'
                 r'(?:T(?:([0-9]+)H)?(?:([0-9]+)M)?(?:([0-9]+)S)?)?')


def r_duration(days, seconds):
    from jsonld.tools.datetime import timedelta_str
    from jsonld.engine.utils import stringify_timedelta, stringify
    d = dtm.timedelta(days=days, seconds=seconds)
    for fn in (timedelta_str, stringify_timedelta, stringify):
        s = ok(lambda: fn(d), f'{fn.__name__}({d!r})')
        m = DUR.fullmatch(s) if isinstance(s, str) else None
        check(m is not None and s != 'P' and not s.endswith('T'), f'{fn.__name__}({d!r}) is not a valid duration', s)
        y, mo, dd, h, mi, se = m.groups()
        tot = (int(y or 0) * 365 + int(mo or 0) * 30 + int(dd or 0)) * 86400 + \
            int(h or 0) * 3600 + int(mi or 0) * 60 + int(se or 0)
        check(tot == d.days * 86400 + d.seconds, f'{fn.__name__}({d!r}) denotes another duration', s)
        given = [g for g in m.groups() if g is not None]
        if d:
            check(all(int(g) for g in given), f'{fn.__name__}({d!r}) has a zero component', s)


def r_duration_prop(days, seconds):
    Object = host('Duration')
    d = dtm.timedelta(days=days, seconds=seconds)
    o = Object()
    ok(lambda: setattr(o, 'duration', d), f'duration = {d!r}')
    check(o.duration == d, f'duration = {d!r}', o.duration)
    s = o.data(include=('duration',))['duration']
    m = DUR.fullmatch(s) if isinstance(s, str) else None
    check(m is not None, f'duration = {d!r} comes out as', s)
    y, mo, dd, h, mi, se = (int(x or 0) for x in m.groups())
    check((y * 365 + mo * 30 + dd) * 86400 + h * 3600 + mi * 60 + se == d.days * 86400 + d.seconds,
          f'duration = {d!r} comes out as', s)


def gen_c21(run):
    rng = run.rng
    secs = [0, 1, 59, 60, 61, 3599, 3600, 3601, 3660, 7199, 86399, 43200, 36000, 600]
    days = [0, 1, 29, 30, 31, 59, 60, 359, 360, 364, 365, 366, 394, 395, 396, 729, 730, 731, 760, 3650, 36500,
            999999999, 999999, 12345678]
    for d in days:
        for s in secs:
            yield 'duration', dict(days=d, seconds=s)
        yield 'duration_prop', dict(days=d, seconds=d % 86400)
    n = 3000 if run.tier == 'quick' else 100000
    for _ in range(n):
        if run.timeleft() <= 0:
            return
        yield rng.choice(['duration', 'duration', 'duration_prop']), dict(
            days=rng.choice([0, rng.randrange(400), rng.randrange(10000), rng.randrange(10 ** 9)]),
            seconds=rng.choice([0, rng.randrange(86400), 3600 * rng.randrange(24), 60 * rng.randrange(1440)]))


# ======================================================================== C22
def well_formed(url, secure):
    """also False where urllib itself refuses the text"""
    try:
        p = parse.urlparse(url)
    except ValueError:
        return False
    return (p.scheme == 'https' or (p.scheme == 'http' and not secure)) and p.netloc != '' and \
        re.fullmatch(r'[A-Za-z0-9_.:\-]+', p.netloc) is not None


def r_url(url):
    from jsonld.tools import url as tools_url
    from jsonld.engine import utils as eng
    from jsonld import docloader
    calls = []

    class Resp:
        headers = {'content-type': 'application/ld+json'}

        def __init__(self, u):
            self.url = u

        def json(self):
            return {'ok': 1}

    def fake(u, *a, **k):
        calls.append(u)
        return Resp(u)
    saved = docloader.requests.get
    import requests
    real_session = requests.Session.request
    docloader.requests.get = fake
    requests.Session.request = lambda self, method, u, *a, **k: fake(u)
    try:
        for secure in (None, False, True):
            want = well_formed(url, bool(secure))
            kw = {} if secure is None else {'secure': secure}
            for name, fn in (('tools.url', tools_url.validate_url), ('engine.utils', eng.validate_url)):
                kind, val = outcome(lambda: fn(url, **kw))
                check(kind == 'ok', f'{name}.validate_url({url!r}, {kw}) raised', val)
                check(bool(val) is bool(want), f'{name}.validate_url({url!r}, {kw})', val)
        for cls in (docloader.RequestsJsonLoader, docloader.CachedRequestsJsonLoader):
            for secure in (None, False, True):
                fresh_loaders(docloader)
                want = well_formed(url, secure is not False)
                del calls[:]
                loader = cls() if secure is None else cls(secure=secure)
                kind, val = outcome(lambda: loader(url))
                what = f'{cls.__name__}(secure={secure})({url!r})'
                if want:
                    check(kind == 'ok', f'{what} refused a well-formed address', val)
                    check(calls == [url], f'{what}: requests', calls)
                else:
                    check(kind == 'exc', f'{what} was not refused')
                    check(calls == [], f'{what}: a request was made for a refused address', calls)
                del calls[:]
                fresh_loaders(docloader)
                kind, val = outcome(lambda: loader.get(url))
                check((kind == 'ok') == bool(want), f'{what}.get', val)
                check(calls == ([url] if want else []), f'{what}.get: requests', calls)
    finally:
        docloader.requests.get = saved
        requests.Session.request = real_session
        fresh_loaders(docloader)


def gen_c22(run):
    rng = run.rng
    hosts = ['example.com', 'a', 'localhost:8080', '127.0.0.1', 'ex_ample.com', 'ex-ample.com', 'EXAMPLE.Com', '',
             'user@host', 'user:pw@host', '[::1]', 'a b', 'exämple.com', 'a%20b', 'a,b', 'a;b', 'a~b', 'a!b', 'a$b',
             "a'b", 'a(b', 'a*b', 'a+b', 'a=b', 'a&b', 'a\\b', 'a^b', 'a`b', 'a{b', 'a|b', 'a"b', 'a<b', '-', '_',
             '.', ':', '日本', 'a\tb', 'a\nb', 'a\x00b', 'a[b', 'a]b', 'ａ', '١', 'a\u2028b', '[', ']', 'a@', '@']
    for sch in ('http', 'https', 'HTTP', 'HttpS', 'ftp', '', 'file', 'httpx', 'http+s', 'javascript', 'acct', 'mailto'):
        for h in hosts if sch in ('http', 'https') else hosts[:12]:
            for tail in (['', '/p?q=1#f'] if sch in ('http', 'https') else ['/p']):
                yield 'url', dict(url=f'{sch}://{h}{tail}')
    for u in ('', 'http', 'http:', 'http:/', 'http:/x', 'http:x', 'http:///x', '//example.com', 'example.com',
              'https:example.com', ' http://a', 'http ://a', 'http://a/ b', '\thttp://a', 'http://a?x@y', 'http://a#b@c',
              'https://a:b:c', 'http://[', 'http://]', 'http://a/[x]', 'ht\ntp://a', 'https://a\n', '://a', 'http://?q',
              'http://#f', 'https:////a', 'http://a\\@b', 'http:\\\\a'):
        yield 'url', dict(url=u)
    for c in range(0, 0x180):
        yield 'url', dict(url=f'https://a{chr(c)}b.com/')
    alpha = 'ab.:-_@/?#[]% \\é~'
    n = 800 if run.tier == 'quick' else 30000
    for _ in range(n):
        if run.timeleft() <= 0:
            return
        yield 'url', dict(url=rng.choice(['http://', 'https://', 'https:', 'ftp://', '']) +
                          ''.join(rng.choice(alpha) for _ in range(rng.randint(0, 8))))


# ======================================================================== C23
def link_header(links):
    return ', '.join(f'<{t}>' + ''.join(f'; {k}="{v}"' for k, v in a.items()) for t, a in links)


CTX = 'http://www.w3.org/ns/json-ld#context'


_loaders = {}


def fresh_loaders(mod):
    """what the loaders keep, wherever they do, is as it was when they were imported"""
    places = [mod, mod.RequestsJsonLoader, mod.CachedRequestsJsonLoader]
    if not _loaders:
        for p in places:
            for n, v in list(vars(p).items()):
                if not n.startswith('__') and isinstance(v, (dict, list, set)):
                    _loaders[id(v)] = (v, v.copy())
    for v, old in _loaders.values():
        v.clear()
        (v.extend if isinstance(v, list) else v.update)(old)
    for p in places:
        for v in list(vars(p).values()):
            clear = getattr(getattr(v, '__func__', v), 'cache_clear', None)
            if clear is not None:
                clear()


def r_loader(script, urls, cls='cached', instances=1, secure=None, headers=None):
    """script: url -> list of responses, the last one repeats; a response is
    {'raise': ..} or {'ct':.., 'links': [...], 'doc':.., 'url':.., 'badjson': ..}"""
    from jsonld import docloader
    from pyld.jsonld import JsonLdError
    from requests.structures import CaseInsensitiveDict
    import requests
    calls = []
    excs = {'conn': requests.ConnectionError('c'), 'value': ValueError('v'), 'key': KeyError('k'),
            'os': OSError('o'), 'rec': RuntimeError('r'), 'ld': JsonLdError('x', 'jsonld.Other', code='other'),
            'timeout': requests.Timeout('t'), 'attr': AttributeError('a'), 'type': TypeError('t')}

    def spec_of(u, n):
        lst = script[u]
        return lst[min(n, len(lst) - 1)]

    class Resp:
        def __init__(self, u, sp):
            self.sp = sp
            self.url = sp.get('url', u)
            self.status_code = 200
            h = {}
            if sp.get('ct') is not None:
                h['Content-Type'] = sp['ct']
            if sp.get('links') is not None:
                h['Link'] = link_header(sp['links'])
            self.headers = CaseInsensitiveDict(h)

        def json(self):
            if self.sp.get('badjson'):
                raise excs['value']
            return self.sp.get('doc', {'d': self.url})

    counts = {}

    def fake(u, *a, **k):
        n = counts.get(u, 0)
        counts[u] = n + 1
        calls.append((u, k.get('headers')))
        sp = spec_of(u, n)
        if 'raise' in sp:
            raise excs[sp['raise']]
        return Resp(u, sp)

    def expected(u, n):
        """('ok', doc) or ('exc', cause or None)"""
        if not well_formed(u, secure is not False):
            return 'exc', None
        sp = spec_of(u, n)
        if 'raise' in sp:
            return 'exc', excs[sp['raise']]
        if sp.get('badjson'):
            return 'exc', excs['value']
        ct = sp.get('ct') or 'application/octet-stream'
        doc = {'contentType': ct, 'contextUrl': None, 'documentUrl': sp.get('url', u),
               'document': sp.get('doc', {'d': sp.get('url', u)})}
        links = sp.get('links') or []
        ctxs = [t for t, a in links if a.get('rel') == CTX]
        if ctxs and ct != 'application/ld+json':
            if len(ctxs) > 1:
                return 'exc', None
            doc['contextUrl'] = ctxs[0]
        alts = [(t, a) for t, a in links if a.get('rel') == 'alternate']
        if alts and alts[0][1].get('type') == 'application/ld+json' and \
                not re.match(r'^application/(\w*\+)?json$', ct):
            doc['contentType'] = 'application/ld+json'
            doc['documentUrl'] = parse.urljoin(u, alts[0][0])
        return 'ok', doc
    saved = docloader.requests.get
    docloader.requests.get = fake
    fresh_loaders(docloader)
    try:
        klass = docloader.CachedRequestsJsonLoader if cls == 'cached' else docloader.RequestsJsonLoader
        kw = {} if secure is None else {'secure': secure}
        if headers:
            kw['headers'] = headers
        kw2 = {k: v for k, v in kw.items() if k != 'headers'}
        usual = [klass(**kw2)] if headers else []
        loaders = [klass(**kw) for _ in range(instances)]
        usual += [klass(**kw2)] if headers else []
        cached = {}
        for no, u in enumerate(urls):
            before = len(calls)
            n = counts.get(u, 0)
            kind, val = outcome(lambda: loaders[no % instances](u, {}))
            what = f'load {no} of {u!r}'
            if cls == 'cached' and u in cached:
                check(kind == 'ok' and (val is cached[u] or val == cached[u]), f'{what}: the cached document', val)
                check(len(calls) == before, f'{what}: requested again after a successful load')
                continue
            ek, ev = expected(u, n)
            reqs = 1 if well_formed(u, secure is not False) else 0
            for _, h in calls[before:]:
                check((h == headers) if headers else 'application/ld+json' in {
                    x.lower(): y for x, y in (h or {}).items()}.get('accept', ''), f'{what}: headers', h)
            check(len(calls) - before == reqs, f'{what}: requests made', len(calls) - before)
            check(kind == ek, f'{what}: outcome', val, ev)
            if ek == 'ok':
                check(isinstance(val, dict) and val == ev, f'{what}: document', val, ev)
                cached[u] = val
            else:
                check(isinstance(val, JsonLdError), f'{what}: failed with {type(val).__name__}: {val}')
                check(val.type == 'jsonld.LoadDocumentError' and val.code == 'loading document failed',
                      f'{what}: error', val.type, val.code)
                check(val.cause is not None, f'{what}: the error carries no cause')
                if ev is not None:
                    check(val.cause is ev, f'{what}: cause', val.cause, ev)
                if cls == 'cached':
                    check(u not in getattr(docloader.CachedRequestsJsonLoader, "cached_schemas", {}),
                          f'{what}: a failed load was cached')
        for i, x in enumerate(usual):
            u = f'https://usual{i}.example/doc'
            script[u] = [{'ct': 'application/ld+json'}]
            ok(lambda: x(u, {}), f'load of {u!r} by a loader without headers')
            h = {a.lower(): b for a, b in (calls[-1][1] or {}).items()}
            check(calls[-1][0] == u and 'application/ld+json' in h.get('accept', '')
                  and not ({a.lower() for a in headers} - {'accept'}) & set(h),
                  f'load of {u!r} by a loader without headers, beside one with {headers}: headers', calls[-1][1])
    finally:
        docloader.requests.get = saved
        fresh_loaders(docloader)


def gen_c23(run):
    rng = run.rng
    A, B = 'https://a.com/x/y', 'https://b.com/z'
    one = [CTX and ['http://c/ctx', {'rel': CTX}]]
    cts = [None, 'application/ld+json', 'application/json', 'application/activity+json', 'text/html', '',
           'application/foo+json', 'application/octet-stream', 'text/json']
    linksets = [None, one, one * 2, [['alt.jsonld', {'rel': 'alternate', 'type': 'application/ld+json'}]],
                [['/alt', {'rel': 'alternate', 'type': 'application/json'}]], [['/alt', {'rel': 'alternate'}]],
                one + [['https://q.org/alt', {'rel': 'alternate', 'type': 'application/ld+json'}]],
                [['http://c/o', {'rel': 'other'}]],
                one * 2 + [['alt', {'rel': 'alternate', 'type': 'application/ld+json'}]]]
    for cls in ('cached', 'plain'):
        for urls in ([A, B, A, B], [B, A, B, A], [B, A + '#x', A, B], [A, B, B, A, A]):
            yield 'loader', dict(cls=cls, urls=urls, script={
                A: [{'ct': 'application/ld+json', 'doc': {'a': 1}}], B: [{'url': A, 'doc': {'b': 1}}],
                A + '#x': [{'url': A, 'doc': {'x': 1}}]})
        for secure in (None, True, False):
            yield 'loader', dict(cls=cls, script={A: [{'ct': 'application/ld+json'}]}, urls=[A, A], secure=secure,
                                 headers={'Accept': 'x/y', 'Other': 'z'})
        for ct in cts:
            for ls in linksets:
                yield 'loader', dict(cls=cls, script={A: [{'ct': ct, 'links': ls}]}, urls=[A, A])
        for e in ('conn', 'value', 'key', 'os', 'rec', 'ld', 'timeout', 'attr', 'type'):
            yield 'loader', dict(cls=cls, script={A: [{'raise': e}, {'raise': e}, {'ct': 'application/ld+json'}]},
                                 urls=[A, A, A, A], instances=2)
        yield 'loader', dict(cls=cls, script={A: [{'badjson': 1}, {'ct': 'x'}], B: [{'url': 'https://b.com/other'}]},
                             urls=[A, B, A, B, A], instances=3)
        for u in ('http://a.com', 'ftp://a', '', 'https://', 'https://a b', 'https://[', 'nonsense', 'http://localhost/c',
                  'http://127.0.0.1:8080/c', 'https://localhost', 'HTTP://a.com', 'https://user@a.com', 'https://a.com?q@b',
                  'http://a.localhost', 'file:///etc/x', '//a.com/x', 'https:a.com', 'https:///a', 'https://192.168.0.1/'):
            for secure in (None, True, False):
                yield 'loader', dict(cls=cls, script={u: [{'ct': 'application/ld+json'}]}, urls=[u, u], secure=secure)
        near = ['https://a.com/x/y', 'https://a.com/X/y', 'https://a.com/x/y/', 'https://a.com/x/y#f', 'https://a.com/x/y?q=1',
                'https://a.com/x/y?q=2', 'https://a.com/x/y#g', 'https://a.com:443/x/y', 'https://A.com/x/y', 'https://a.com',
                'https://a.com/', 'https://www.a.com/', 'https://a.com/x%20y', 'https://a.com/x+y', 'https://a.com//x/y',
                'https://a.com/x/y;p', 'https://a.com/x', 'https://a.com/x/y/z', 'https://a.co/x/y', 'https://a.com/x/y.json',
                'http://a.com/x/y', 'http://a.com', 'HTTPS://a.com/x/y']
        for secure in (None, False):
            for order in (near, near[::-1]):
                yield 'loader', dict(cls=cls, script={u: [{'ct': 'application/ld+json', 'doc': {'n': i}}]
                                                      for i, u in enumerate(near)},
                                     urls=order + order[::2] + order, secure=secure)
        for doc in ({}, [], None, 0, '', {'@context': {}}):
            yield 'loader', dict(cls=cls, script={A: [{'doc': doc}, {'doc': {'second': 1}}]}, urls=[A, A, A])
    n = 600 if run.tier == 'quick' else 15000
    us = [A, B, 'https://c.com', 'http://d.com', 'https://e.com/1']
    for _ in range(n):
        if run.timeleft() <= 0:
            return
        def resp():
            x = rng.random()
            if x < .3:
                return {'raise': rng.choice(['conn', 'value', 'key', 'ld', 'timeout'])}
            if x < .4:
                return {'badjson': 1}
            r = {'ct': rng.choice(cts), 'doc': {'n': rng.randrange(99)}}
            if rng.random() < .6:
                r['links'] = rng.choice(linksets)
            if rng.random() < .3:
                r['url'] = 'https://redirected.com/'
            return r
        yield 'loader', dict(cls=rng.choice(['cached', 'cached', 'plain']), instances=rng.randint(1, 3),
                             script={u: [resp() for _ in range(rng.randint(1, 4))] for u in us},
                             urls=[rng.choice(us) for _ in range(rng.randint(1, 12))],
                             secure=rng.choice([None, True, False]))


# ======================================================================== counterexamples of the solver
def model_c20(m):
    if 'val' in m:
        yield 'parse', dict(text=m['val'])
        yield 'datetime_prop', dict(text=m['val'])
    if 'shape' in m:
        text = ''
        for i, ch in enumerate(m['shape']):
            x = m.get(f'char{i}')
            text += ch if ch not in 'ds' else chr(x) if x is not None else '0' if ch == 'd' else '+'
        if text.startswith('0000'):
            text = '2000' + text[4:]
        yield 'parse', dict(text=text)
        yield 'datetime_prop', dict(text=text)
    if 'kind' in m:
        f = [m.get(f'moment_{n}', 1) for n in ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond')]
        yield 'serialise', dict(v=f + ([m.get('offset', 3600)] if m['kind'] == 'aware' else []))


def model_c21(m):
    yield 'duration', dict(days=m.get('days', 0), seconds=m.get('seconds', 0))


def model_c22(m):
    for s in ([m['scheme']] if 'scheme' in m else ['http', 'https']):
        yield 'url', dict(url=f"{s}://{m.get('netloc', 'example.com')}")
        yield 'url', dict(url=f"{s}://{m.get('netloc', 'example.com')}/path")


def model_c23(m):
    u = f"{m.get('scheme', 'https')}://{m.get('netloc') or 'example.com'}"
    good = {'ct': m.get('content-type', 'text/html')}
    if m.get('has_content-type') is False:
        good['ct'] = None
    links = []
    for rel, k in (m.get('rels') or {}).items():
        for i in range({'none': 0, 'one': 1, 'several': 2}[k]):
            a = {'rel': CTX if rel == 'context' else rel}
            if rel == 'alternate' and m.get('alternate_has_type'):
                a['type'] = m.get('alternate_type', 'application/ld+json')
            links.append([f'https://other.example/{rel}{i}', a])
    if links and m.get('has_link', True):
        good['links'] = links
    bad = {'raise': 'conn'}
    worst = {**good, 'badjson': True}
    for cls in ('cached', 'plain'):
        for secure in (None, m.get('secure', True)):
            for script in ([good], [bad, good], [worst, good], [bad, bad, good]):
                yield 'loader', dict(cls=cls, script={u: script}, urls=[u] * 4, secure=secure)


RUNNERS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('r_')}
PROPS = {
    'C16': {'gen': gen_c16, 'rule': 'every subset of functions given to the constructor, derivations and registrations '
            'per kind, read/set/delete in every context; nested blocks with and without exceptions; random programs'},
    'C17': {'gen': gen_c17, 'rule': 'include x exclude x None treatment, renaming, rejected values, contexts, nested '
            'containers; random objects and options, against a model of the conversion'},
    'C18': {'gen': gen_c18, 'rule': 'type sets x values x functional x None, additional checks refusing at each '
            'position; random nested values'},
    'C20': {'gen': gen_c20, 'from_model': model_c20, 'rule': 'valid forms over years, zones and fractions, all one-character edits of a valid '
            'text, date-times over years and offsets; random ones'},
    'C21': {'gen': gen_c21, 'from_model': model_c21, 'rule': 'all carries of days and seconds, random durations up to 10^9 days'},
    'C22': {'gen': gen_c22, 'from_model': model_c22, 'rule': 'schemes x hosts x tails, every character up to U+017F in the host part, random text'},
    'C23': {'gen': gen_c23, 'from_model': model_c23, 'rule': 'content types x link headers, every failure kind, retries, several loaders; '
            'random scripted histories'},
}

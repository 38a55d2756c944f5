"""activitystreams/properties.py: every property, set to a value of any kind.

The validators are used by their contracts (C18: a value is accepted exactly if it
is of a declared type or, where lists are, all its members are; checks run on every
scalar); so are the gates for addresses (C22), the date and duration functions
(C20, C21) and fetching, which fails here. The documented ranges are those of
bounded/b_as.py: RANGE."""
import datetime as dtm
import inspect

import z3

from bounded.b_as import CLASS_OF, NOT_LINKED, RANGE, REFS, UNSPEC
from pysx.core import B, I, Unsupported, Val, contract_error, ctx
from pysx.contracts import links
from pysx.contracts.common import outcome
from pysx.contracts.links import (ACCT, BARE_AS, DICTS, HREF, LISTS, NS, STRINGS, URL, Boom,
                                  Iterable_, Linked, Made, Maker, Other, sub)
from pysx.data import AT, HAS, LEN, TRUE, UNDER, Data, Induction, Merged, Universe
from pysx.hooks import _pvx_call
from pysx.seq import PvxSeq
from pysx.sym import Pvx, kt, mkbool
from pysx.transform import Loader

NEG = z3.Function('is_negative', Val, B)
FORM = z3.Function('is_date_text', Val, B)
MOMENT = z3.Function('moment_of', Val, Val)
TEXT = z3.Function('text_of', Val, Val)
VALID = z3.Function('in_range', Val, B)            # a member, given to the property
RAW = z3.Function('in_range_unconverted', Val, B)  # a member, not made into a link
STORED = z3.Function('validated', Val, Val)
LINKS = ('link', 'a link')
CTX = 'jsonld.utils'


class Value(links.Value):
    def number(self):
        if not ctx().branch(self.u.of(self.t, 'int', 'float', 'bool')):
            raise contract_error(TypeError('not supported between instances'))

    def __lt__(self, o):
        if o != 0 or isinstance(o, Pvx):
            raise Unsupported('comparison of a value')
        self.number()
        return mkbool(NEG(self.t))

    def __ge__(self, o):
        return not (self < o)

    def pvx_getattr(self, n, *d):
        if n == '__namespace__':
            c = ctx()
            if c.branch(self.u.of(self.t, *LINKS)):
                return NS
            if c.branch(self.u.of(self.t, *OBJECTS)):
                return NS + 'x'
            if not d:
                raise contract_error(AttributeError(n))
            return d[0]
        return super().pvx_getattr(n, *d)

    def pvx_hasattr(self, n):
        if n.startswith('__jsonld'):
            return ctx().branch(self.u.of(self.t, *OBJECTS, *LINKS))
        return super().pvx_hasattr(n)

    def __getattr__(self, n):
        if n == '__namespace__':
            return self.pvx_getattr(n)
        return super().__getattr__(n)


OBJECTS = ('object', 'collection', 'page')


class Made_(Made):
    def pvx_isinstance(self, cls):
        return issubclass(self.cls, cls)

    def pvx_hasattr(self, n):
        return n in ('href', '__namespace__')

    def pvx_getattr(self, n, *d):
        if n == '__namespace__':
            return NS
        if n == 'href':
            return self.href
        if n.startswith('__jsonld') and d:
            return d[0]
        raise Unsupported(f'{n} of a link')

    __namespace__ = NS

    @property
    def href(self):
        return self.given['href']

    def __bool__(self):
        return True


class Maker_(Maker):
    def __call__(self, *a, **k):
        m = super().__call__(*a, **k)
        return Made_(m.cls, m.given)

    def pvx_callkw(self, a, m):
        m = super().pvx_callkw(a, m)
        return Made_(m.cls, m.given)


class Term(Pvx):
    """something of which only the term is known"""

    def __init__(self, t, cls=None):
        self.t, self.cls = t, cls

    def pvx_same(self, o):
        return self.t == o.t if isinstance(o, Term) else z3.BoolVal(False)

    def pvx_reindex(self, j, i):
        return Term(z3.substitute(self.t, (j, i)), self.cls)

    def pvx_isinstance(self, cls):
        if self.cls is None:
            raise Unsupported('type of a text')
        return issubclass(self.cls, cls)

    def pvx_getattr(self, n, *d):
        if d:
            return d[0]
        raise Unsupported(f'{n} of a value')

    def pvx_hasattr(self, n):
        return hasattr(self.cls, n)

    def __bool__(self):
        return True

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'{n} of a value')


class World:
    def __init__(self):
        import logging
        logging.disable(logging.CRITICAL)
        self.loader = Loader(bare=BARE_AS)
        self.props = self.loader.load('activitystreams.properties')
        self.models = m = self.loader.load('activitystreams.models')
        self.types = self.loader.load('jsonld.tools.type')
        self.base = self.loader.load('jsonld.jsonld')
        self.data_context = self.loader.load('jsonld.utils').JSON_DATA_CONTEXT
        self.kinds = {
            'none': type(None), 'bool': bool, 'int': int, 'float': float, 'str': str,
            'a str': sub('S', str), 'bytes': bytes, 'datetime': dtm.datetime,
            'timedelta': dtm.timedelta, 'list': list, 'tuple': tuple, 'set': set, 'dict': dict,
            'a dict': sub('D', dict), 'a list': sub('L', list), 'a tuple': sub('U', tuple),
            'a set': sub('E', set), 'frozenset': frozenset,
            'iterable': Iterable_, 'other': Other, 'object': m.Object,
            'collection': m.Collection, 'page': m.CollectionPage, 'a link': sub('M', m.Link),
            'link': m.Link}
        self.classes = {}
        for x in vars(self.props).values():
            if isinstance(x, type) and issubclass(x, self.props.ActivityStreamsProperty) and \
                    x is not self.props.ActivityStreamsProperty:
                for n, p in x.__dict__.items():
                    if isinstance(p, property):
                        self.classes[n] = x
        self.universe = Universe(self.kinds, members=(list, tuple, set, frozenset, Iterable_),
                                 data=Value)

    def hook(self, c, prop):
        """the contracts of what the setters and getters use"""
        u, p = self.universe, self.props

        def url(v, *a, **k):
            if isinstance(v, str):
                if v:
                    raise Unsupported('an address that is known')
                return False
            if not isinstance(v, Data):
                raise Unsupported('an address made of others')
            if c.branch(u.isa(v.t, str)):
                return c.branch(URL(v.t))
            if c.branch(u.of(v.t, 'none')):
                return False
            if c.branch(c.fresh('gate_fails', B)):
                raise contract_error(AttributeError('decode'))
            return False

        def acct(v, *a, **k):
            if not isinstance(v, Data):
                raise Unsupported('an account made of others')
            if c.branch(u.isa(v.t, str)):
                return c.branch(ACCT(v.t))
            raise contract_error(AttributeError('startswith'))

        def is_date(v, *a, **k):
            if isinstance(v, Made):
                return None
            if not isinstance(v, Data):
                raise Unsupported('a date made of others')
            if c.branch(u.isa(v.t, str)) and not c.branch(FORM(v.t)):
                raise contract_error(ValueError('no date'))
            return c.choose([None, True])

        def parse(v):
            if v is None:
                return v
            if not isinstance(v, Data):
                raise contract_error(TypeError('expected string'))
            if c.branch(u.of(v.t, 'none', 'datetime')):
                return v
            if not c.branch(u.isa(v.t, str)):
                raise contract_error(TypeError('expected string'))
            if not c.branch(FORM(v.t)):
                raise contract_error(AttributeError('span'))
            return Term(MOMENT(v.t), dtm.datetime)

        def text(v):
            if isinstance(v, Pvx) and hasattr(v, 't'):
                return Term(TEXT(v.t), str)
            raise Unsupported('text of a value')
        c.hooks[p.validate_url] = c.hooks[self.models.validate_url] = url
        c.hooks[self.models.validate_acct_or_email] = acct
        c.hooks[p.is_activity_datetime] = is_date
        c.hooks[p.parse_activitystream_datetime] = parse
        c.hooks[p.datetime_str] = c.hooks[p.timedelta_str] = text
        c.hooks[self.types.evaluate_value] = self.evaluate
        c.hooks[self.models.jsonld_get] = self.fetch
        self.fetched = []

    def fetch(self, link, *a, **k):
        raise contract_error(ctx().choose([ValueError, Boom])('no network'))

    # the contract of evaluate_value (C18)
    def evaluate(self, val, types=None, prop=None, functional=False, additional=(), **kw):
        c, u = ctx(), self.universe
        types = set(types) if functional else set(types) | {list}

        def refuse():
            raise contract_error(ValueError('not in range'))
        if isinstance(val, Data):
            if not c.branch(u.where(val.t, lambda k: issubclass(k, tuple(types)))):
                refuse()
            collection = c.branch(u.of(val.t, *LISTS))
        elif isinstance(val, PvxSeq):
            if list not in types:
                refuse()
            collection = True
        else:
            if not isinstance(val, Made):
                raise Unsupported('validation of a value')
            if not issubclass(val.cls, tuple(types)):
                refuse()
            collection = False
        if not collection:
            for f in additional:
                _pvx_call(f, val, types=types, prop=prop, functional=functional, **kw)
            return val
        s = val if isinstance(val, PvxSeq) else val.members()
        if s.keep is not None:
            raise Unsupported('validation of a value')
        i = z3.Int(c.name_of('i'))
        e = s.at(i)

        def ok(e):
            if isinstance(e, Linked):
                return VALID(e.v.t)
            if isinstance(e, Data):
                return RAW(e.t) if prop in REFS else VALID(e.t)
            raise Unsupported('a member of a value')
        if not c.branch(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.n), ok(e)))):
            refuse()
        return _list(s, lambda j: u.value(STORED(s.at(j).t)))


def _list(s, elem):
    return PvxSeq(s.n, elem, label='validated', mutable=True)


WORLD = None


def load():
    global WORLD
    if WORLD is None:
        WORLD = World()
    return WORLD


def is_none(u, t):
    return u.of(t, 'none')


def classes_of(u, t):
    """the kinds of bounded/b_as.py: RANGE, as formulas over a value (disjoint)"""
    text, form = u.of(t, *STRINGS), FORM(t)
    h = UNDER(t, kt('href'))
    href = z3.And(HAS(t, kt('href')), u.isa(h, str), URL(h))
    url = z3.And(text, URL(t))
    mail = z3.And(text, z3.Not(URL(t)), ACCT(t))
    plain = z3.And(text, z3.Not(URL(t)), z3.Not(ACCT(t)))
    return {'obj': u.of(t, 'object'), 'coll': u.of(t, 'collection'), 'page': u.of(t, 'page'),
            'link': u.of(t, 'link'), 'mention': u.of(t, 'a link'), 'url': url, 'mail': mail,
            'dtstr': z3.And(plain, form), 'str': z3.And(plain, z3.Not(form)),
            'hrefdict': z3.And(u.of(t, *DICTS), href),
            'dict': z3.And(u.of(t, *DICTS), z3.Not(href)),
            'int': z3.And(u.of(t, 'int'), z3.Not(NEG(t))), 'nint': z3.And(u.of(t, 'int'), NEG(t)),
            'float': z3.And(u.of(t, 'float'), z3.Not(NEG(t))),
            'nfloat': z3.And(u.of(t, 'float'), NEG(t)), 'bool': u.of(t, 'bool'),
            'dt': u.of(t, 'datetime'), 'td': u.of(t, 'timedelta'),
            'bytes': u.of(t, 'bytes'), 'other': u.of(t, 'other', 'iterable', 'frozenset')}


def properties(w, cls):
    return [n for n in w.classes if isinstance(inspect.getattr_static(cls, n, None), property)]


def host(w):
    """a class with all the properties, as a package gives them to its classes"""
    cls = type('Host', (w.base.PropertyJsonLD,),
               {n: x.__dict__[n] for n, x in w.classes.items()})
    return cls


def storage(w, cls):
    """where the properties are kept: the attributes their getters look for"""
    missing = {}
    seen = []

    def look(self, n):
        seen.append(n)
        raise AttributeError(n)
    probe = type('Probe', (cls,), {'__getattr__': look})
    for n in properties(w, cls):
        o = probe.__new__(probe)
        seen.clear()
        outcome(lambda: getattr(o, n))
        missing[n] = [x for x in seen if not x.startswith(('__context', '__jsonld', '__namespace'))]
    return missing


class Kept:
    """what a property held before"""


def setting(run, *names):
    w = load()
    cls = host(w)
    for prop in names or sorted(w.classes):
        one(run, w, cls, prop)


def others(run):
    """every property there is has a contract"""
    w = load()

    def h():
        c = ctx()
        c.prove('the properties are those with a contract', set(w.classes) == set(RANGE),
                repr(set(w.classes) ^ set(RANGE)))
        c.prove('each is the only property of its class', len(w.classes) == len(
            set(w.classes.values())))
    run.explore('properties', h)


def linked(run, prop):
    """the property of a class of an engine"""
    w = load()
    w.package = w.loader.load('activitystreams.package')
    if not hasattr(w, 'pkg'):
        w.pkg = w.package.create_package()
    name = sorted(CLASS_OF[prop])[0]
    if prop != 'type':
        name = CLASS_OF[prop][-1]
    cls = w.pkg[getattr(w.models, name).__get_namespace__()]
    if cls is None:
        raise Unsupported(f'no class {name}')
    one(run, w, cls, prop, w.pkg)


def one(run, w, cls, prop, pkg=None):
    name = f'setting {prop}' if pkg is None else f'setting {prop} of {cls.__name__} in an engine'
    names = properties(w, cls)
    if prop not in RANGE:
        raise Unsupported(f'a property whose range is not known: {prop}')

    def read(o, p, ctx_=None):
        if ctx_ is None:
            return getattr(o, p)
        with o.switch_context(ctx_):
            return getattr(o, p)

    def h():
        c = ctx()
        c.hooks['names'] = True
        u = w.universe
        c.known['hint'] = {'property': 'C19', 'prop': prop}
        if prop not in names:
            c.prove(f'{name}: there is such a property', False)
            return
        w.hook(c, prop)
        kt('href')
        if pkg is None:
            o = cls(acontext=None)
        else:
            o = cls.__new__(cls)
            w.base.PropertyJsonLD.__init__(o, acontext=None)
        # in a package or not
        case = c.choose(['no package', 'package']) if pkg is None else 'engine'
        lcls = w.models.Link
        if pkg is not None:
            lcls = pkg[lcls.__get_namespace__()]
        if case == 'package':
            lcls = type('PackageLink', (lcls,), {})
            o.__jsonld_package__ = {NS: lcls}
        for k in {lcls, w.models.Link}:
            c.hooks[k] = Maker_(k)
        c.hooks['induction'] = Induction(lambda x, others: Linked(x), lambda v, others, r: None)
        old = {}
        for p, at in storage(w, cls).items():
            for a in at:
                o.__dict__[a] = old.setdefault(a, Kept())
        before = {p: read(o, p) for p in names}
        v = u.fresh('value')
        kinds = classes_of(u, v.t)
        hr = UNDER(v.t, kt('href'))
        c.assume(u.within(hr))
        c.assume(z3.Implies(URL(hr), TRUE(hr)))
        # a date is no address
        c.assume(z3.Implies(FORM(v.t), z3.Not(z3.Or(URL(v.t), ACCT(v.t)))))
        for k in UNSPEC.get(prop, ()):
            c.assume(z3.Not(kinds[k]))
        ref, many = prop in REFS, '*' in RANGE[prop]
        seqs = LISTS if ref else ('list', 'a list')
        j = z3.Int(c.name_of('j'))
        members = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < LEN(v.t)), VALID(AT(v.t, j))))
        good = z3.Or(is_none(u, v.t), *[f for k, f in kinds.items() if k in RANGE[prop]],
                     z3.And(u.of(v.t, *seqs), members) if many else z3.BoolVal(False))
        what, r = outcome(lambda: setattr(o, prop, v))
        c.prove(f'{name}: accepted exactly if in the range', good == (what == 'ok'), repr(r))
        bad = [p for p in names if p != prop and read(o, p) is not before[p]]
        c.prove(f'{name}: no other property changes', not bad, repr(bad))
        if what != 'ok':
            c.prove(f'{name}: what is refused leaves the old value',
                    read(o, prop) is before[prop], repr(r))
            return
        got, out = read(o, prop), read(o, prop, w.data_context)
        again = read(o, prop)

        def same(x, y):
            return x is y or hasattr(x, 't') and hasattr(y, 't') and x.t.eq(y.t)
        c.prove(f'{name}: reading does not change it', same(got, again), repr(again))
        bad = [p for p in names if p != prop and read(o, p) is not before[p]]
        c.prove(f'{name}: no other property changes', not bad, repr(bad))
        if got is None:
            c.prove(f'{name}: reads back as given', is_none(u, v.t))
            c.prove(f'{name}: none in JSON', out is None)
            return
        kind = v.kind()
        link = ref and c.branch(z3.Or(kinds['url'], kinds['mail']))
        if link or ref and kind in DICTS and c.branch(kinds['hrefdict']):
            ok = isinstance(got, Made)
            c.prove(f'{name}: an address becomes a link', ok, repr(got))
            if ok:
                h = got.href
                t = v.t if link else hr
                c.prove(f'{name}: with that href', h.t == t if isinstance(h, Data) else False)
                c.prove(f'{name}: of the package of the object', got.cls is lcls)
                c.prove(f'{name}: a link appears as its href in JSON',
                        out.t == t if isinstance(out, Data) else False, repr(out))
            return
        if kind in LISTS:
            member = (lambda i: STORED(LINKED_OF(AT(v.t, i)))) if ref else \
                (lambda i: STORED(AT(v.t, i)))
            ok = isinstance(got, PvxSeq) and got.mutable and got.keep is None
            c.prove(f'{name}: a list reads back as one', ok, repr(got))
            if not ok:
                return
            i = c.fresh('i', I)
            c.prove(f'{name}: of as many members', got.n == LEN(v.t))
            c.assume(z3.And(i >= 0, i < LEN(v.t)))
            m = member(i)
            c.assume(u.within(m))
            e = got.at(i)
            c.prove(f'{name}: of the members given, in order',
                    e.t == m if isinstance(e, Data) else False, repr(e))
            ok = isinstance(out, PvxSeq)
            c.prove(f'{name}: a list in JSON', ok, repr(out))
            if ok:
                c.prove(f'{name}: of as many members in JSON', out.n == LEN(v.t))
                e = out.at(i)
                want = z3.If(u.of(m, *LINKS), HREF(m), m) if ref else m
                c.prove(f'{name}: every link in a list appears as its href in JSON',
                        e.t == want if isinstance(e, Data) else False, repr(e))
            return
        if kind in STRINGS and 'dtstr' in RANGE[prop] and c.branch(kinds['dtstr']):
            c.prove(f'{name}: a date reads back as its moment',
                    isinstance(got, Term) and got.t.eq(MOMENT(v.t)), repr(got))
            c.prove(f'{name}: a date appears as its text in JSON', isinstance(out, Term) and
                    out.t.eq(TEXT(MOMENT(v.t))), repr(out))
            return
        c.prove(f'{name}: reads back as given', isinstance(got, Data) and got.t.eq(v.t), repr(got))
        if kind in LINKS:
            c.prove(f'{name}: a link appears as its href in JSON',
                    isinstance(out, Data) and out.t == HREF(v.t), repr(out))
        elif kind in ('datetime', 'timedelta'):
            c.prove(f'{name}: a date appears as its text in JSON', isinstance(out, Term) and
                    out.t.eq(TEXT(v.t)), repr(out))
        else:
            c.prove(f'{name}: as given in JSON', isinstance(out, Data) and out.t.eq(v.t), repr(out))
    run.explore(name, h)
    run.covers(f'activitystreams.properties:{w.classes[prop].__name__}.{prop}'
               if pkg is None and prop in w.classes else 'jsonld.package:JsonLdPackage.link_property')


LINKED_OF = links.LINKED

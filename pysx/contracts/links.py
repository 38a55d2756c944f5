"""activitystreams/models.py: Link.from_str, Link.get and expand, Link.href_only.

Values are of any kind and nesting. What counts as an address or account is
decided by the two gates (`validate_url`, C22, and `validate_acct_or_email`),
which are predicates over strings here and fail on most other values. Fetching
and decoding give anything or raise anything."""
import logging

import z3

from pysx.core import B, I, Key, Unsupported, Val, contract_error, ctx
from pysx.contracts.collection import BARE
from pysx.contracts.common import outcome
from pysx.data import AT, HAS, LEN, TRUE, UNDER, Data, Induction, Merged, Universe
from pysx import rx
from pysx.contracts.contexts import BARE_LD
from pysx.contracts.loader import GATES, truthy
from pysx.seq import PvxSeq
from pysx.sym import Pvx, PvxKey, kt
from pysx.text import PvxText, Tail, Txt
from pysx.transform import Loader

BARE_AS = BARE + ('activitystreams', 'activitypub')
URL = z3.Function('is_url', Val, B)
ACCT = z3.Function('is_account', Val, B)
HREF = z3.Function('href_of', Val, Val)
LINKED = z3.Function('with_links', Val, Val)
NS = 'https://www.w3.org/ns/activitystreams#Link'


class Boom(Exception):
    pass


class Iterable_:
    def __iter__(self):
        return iter(())


class Other:
    pass


def sub(name, *bases):
    return type(name, bases, {})


STRINGS = ('str', 'a str')
DICTS = ('dict', 'a dict')
LISTS = ('list', 'tuple', 'set', 'a list', 'a tuple', 'a set')
LINKS = ('link', 'a link')


class Value(Data):
    @property
    def href(self):
        if not ctx().branch(self.u.of(self.t, *LINKS)):
            raise contract_error(AttributeError('href'))
        return self.u.value(HREF(self.t))

    def pvx_getattr(self, n, *d):
        c = ctx()
        if n == '__namespace__' and not c.branch(self.u.of(self.t, *LINKS)):
            if c.branch(self.u.of(self.t, 'object', 'other')):
                return NS + 'x'
            if not d:
                raise contract_error(AttributeError(n))
            return d[0]
        if n == 'href':
            try:
                return self.href
            except AttributeError:
                if not d:
                    raise
                return d[0]
        raise Unsupported(f'{n} of a value')

    def pvx_hasattr(self, n):
        if n.startswith('__jsonld'):
            return ctx().branch(self.u.of(self.t, 'object', 'other'))
        return super().pvx_hasattr(n)


def models():
    logging.disable(logging.CRITICAL)
    mod = Loader(bare=BARE_AS).load('activitystreams.models')
    return mod


def universe(mod):
    return Universe({
        'none': type(None), 'bool': bool, 'int': int, 'float': float, 'str': str,
        'a str': sub('S', str), 'list': list, 'tuple': tuple, 'set': set, 'dict': dict,
        'a dict': sub('D', dict), 'a list': sub('L', list), 'a tuple': sub('U', tuple),
        'a set': sub('E', set), 'frozenset': frozenset, 'iterable': Iterable_, 'other': Other,
        'object': mod.Object, 'a link': sub('M', mod.Link), 'link': mod.Link},
        members=(list, tuple, set, frozenset, Iterable_), data=Value)


class Made(Pvx):
    """a link made of keywords"""

    def __init__(self, cls, given):
        self.cls, self.given = cls, given

    def pvx_same(self, o):
        return z3.BoolVal(self is o)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'{n} of a link')


class Maker:
    def __init__(self, cls):
        self.cls = cls

    def __call__(self, *a, **k):
        if a:
            k = {**dict(zip(['href', 'rel', 'mediaType', 'name'], a)), **k}
        return Made(self.cls, k)

    def pvx_callkw(self, a, m):
        if a:
            raise Unsupported('a link made with keywords and others')
        return Made(self.cls, m)


class Linked(Pvx):
    """what a member is converted to"""

    def __init__(self, v):
        self.v, self.t = v, LINKED(v.t)

    def pvx_reindex(self, j, i):
        return Linked(self.v.pvx_reindex(j, i))

    def pvx_same(self, o):
        return self.t == o.t if isinstance(o, Linked) else z3.BoolVal(False)

    def __bool__(self):
        raise Unsupported('truth of a converted value')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'{n} of a converted value')


def gates(mod, u):
    """the two gates, as they are used"""
    c = ctx()

    def url(v, *a, **k):
        if a or k:
            raise Unsupported('an address checked in another way')
        if isinstance(v, str):
            if v:
                raise Unsupported('an address that is known')
            return False
        if not isinstance(v, Data):
            raise Unsupported('an address made of others')
        if c.branch(u.isa(v.t, str)):
            return c.branch(URL(v.t))
        if c.branch(u.of(v.t, 'none')):
            return False
        if c.branch(c.fresh('gate_fails', B)):
            raise contract_error(AttributeError('decode'))
        return False

    def acct(v, *a, **k):
        if not isinstance(v, Data):
            raise Unsupported('an account made of others')
        if c.branch(u.isa(v.t, str)):
            return c.branch(ACCT(v.t))
        raise contract_error(AttributeError('startswith'))
    c.hooks[mod.validate_url] = url
    c.hooks[mod.validate_acct_or_email] = acct


def packages(c, cls):
    """an object to set a property of, and the class of its links"""
    class Owner:
        pass
    o = Owner()
    in_package = type('PackageLink', (cls,), {})
    case = c.choose(['no package', 'package', 'package without links'])

    class Package:
        def __getitem__(self, ns):
            c.prove('links: looked up by their namespace', ns == NS, repr(ns))
            return in_package if case == 'package' else None
    if case != 'no package':
        o.__jsonld_package__ = Package()
    return o, (in_package if case == 'package' else cls)


def from_str(run):
    mod = models()
    name = 'from_str'

    def h():
        c = ctx()
        c.hooks['names'] = True
        u = universe(mod)
        gates(mod, u)
        kt('href')
        o, cls = packages(c, mod.Link)
        for k in {mod.Link, cls}:
            c.hooks[k] = Maker(k)

        def check(v, r, label=name):
            """r is what the value v is to be converted to"""
            kind = v.kind()
            url = z3.And(u.isa(v.t, str), z3.Or(URL(v.t), ACCT(v.t)))
            if kind in STRINGS and c.branch(url):
                ok = isinstance(r, Made) and isinstance(r.given, dict) and set(r.given) == {'href'}
                c.prove(f'{label}: an address becomes a link', isinstance(r, Made), repr(r))
                if isinstance(r, Made):
                    h = r.given['href'] if ok else None
                    c.prove(f'{label}: with that href', isinstance(h, Data) and h.t.eq(v.t),
                            repr(r.given))
                    c.prove(f'{label}: of the package', r.cls is cls)
                return
            if kind in DICTS:
                h = UNDER(v.t, kt('href'))
                c.assume(u.within(h))
                c.assume(z3.Implies(URL(h), TRUE(h)))       # the empty string is none
                if c.branch(z3.And(HAS(v.t, kt('href')), u.isa(h, str), URL(h))):
                    c.prove(f'{label}: a dictionary with an href becomes a link',
                            isinstance(r, Made), repr(r))
                    if isinstance(r, Made):
                        m = r.given if isinstance(r.given, Merged) else Merged([r.given])
                        k = PvxKey(c.fresh('k', Key))
                        has = k in m
                        c.prove(f'{label}: with what was in the dictionary',
                                HAS(v.t, k.t) if has else z3.Not(HAS(v.t, k.t)))
                        if has:
                            e = m[k]
                            c.prove(f'{label}: with the same values',
                                    e.t == UNDER(v.t, k.t) if isinstance(e, Data) else False, repr(e))
                        c.prove(f'{label}: of the package', r.cls is cls)
                    return
            if kind in LISTS:
                ok = isinstance(r, PvxSeq) and r.mutable and r.keep is None
                c.prove(f'{label}: a collection becomes a list', ok, repr(r))
                if ok:
                    c.prove(f'{label}: of as many members', r.n == LEN(v.t))
                    j = c.fresh('j', I)
                    c.assume(z3.And(j >= 0, j < LEN(v.t)))
                    e = r.at(j)
                    c.prove(f'{label}: of converted members in order',
                            e.t == LINKED(AT(v.t, j)) if isinstance(e, Linked) else False, repr(e))
                return
            c.prove(f'{label}: anything else is passed on',
                    isinstance(r, Data) and r.t.eq(v.t), f'{kind}: {r!r}')
        c.hooks['induction'] = Induction(lambda x, others: Linked(x),
                                         lambda v, others, r: check(v, r))
        seen = []
        set_prop = mod.Link.from_str(lambda obj, val: seen.append((obj, val)))
        v = u.fresh('value')
        c.known['hint'] = {'property': 'C26'}
        from pysx.hooks import _pvx_call
        what, r = outcome(lambda: _pvx_call(set_prop, o, v))
        c.prove(f'{name}: does not fail', what == 'ok', repr(r))
        if what != 'ok':
            return
        c.prove(f'{name}: the property is set once', len(seen) == 1 and seen[0][0] is o, repr(seen))
        if len(seen) == 1:
            check(v, seen[0][1])
    run.explore(name, h)
    run.covers('activitystreams.models:Link.from_str')


def href_only(run):
    mod = models()
    name = 'href_only'

    def h():
        c = ctx()
        u = universe(mod)
        o = object()
        v = u.fresh('value')
        calls = []

        def getter(obj):
            calls.append(obj)
            return v
        get = mod.Link.href_only(getter)
        c.known['hint'] = {'property': 'C26'}
        what, r = outcome(lambda: get(o))
        c.prove(f'{name}: does not fail', what == 'ok', repr(r))
        c.prove(f'{name}: of the object', bool(calls) and all(x is o for x in calls))
        if what != 'ok':
            return
        kind = v.kind()
        if kind in LINKS:
            c.prove(f'{name}: a link becomes its href', isinstance(r, Data) and
                    r.t == HREF(v.t), repr(r))
        elif kind in ('list', 'a list'):
            if r is v:
                # as it is: no link in it
                j = c.fresh('j', I)
                c.assume(z3.And(j >= 0, j < LEN(v.t)))
                c.prove(f'{name}: every link in a list becomes its href',
                        z3.Not(u.of(AT(v.t, j), *LINKS)))
                return
            ok = isinstance(r, PvxSeq) and r.mutable and r.keep is None
            c.prove(f'{name}: a list stays a list', ok, repr(r))
            if ok:
                c.prove(f'{name}: of as many members', r.n == LEN(v.t))
                j = c.fresh('j', I)
                c.assume(z3.And(j >= 0, j < LEN(v.t)))
                m = AT(v.t, j)
                c.assume(u.within(m))
                e = r.at(j)
                link = u.of(m, *LINKS)
                c.prove(f'{name}: every link in a list becomes its href', z3.Implies(
                    link, e.t == HREF(m)) if isinstance(e, Data) else False, repr(e))
                c.prove(f'{name}: nothing else in a list changes', z3.Implies(
                    z3.Not(link), e.t == m) if isinstance(e, Data) else False, repr(e))
        else:
            c.prove(f'{name}: nothing else changes', isinstance(r, Data) and r.t.eq(v.t),
                    f'{kind}: {r!r}')
    run.explore(name, h)
    run.covers('activitystreams.models:Link.href_only')


def reading(run):
    """Link.get and expand: the object, or what is stored"""
    mod = models()
    name = 'reading a reference'

    def h():
        c = ctx()
        u = universe(mod)
        o, cls = packages(c, mod.Link)
        got, fetched = object(), []
        address, doc = 'https://x.example/1', {'a': 1}

        decoders = []

        class Engine:
            def __init__(self, whose):
                self.whose = whose

            def from_json(self, data, *a, **k):
                decoders.append(self.whose)
                c.prove(f'{name}: what was fetched is decoded', data is doc)
                if c.choose(['decodes', 'fails']) == 'fails':
                    raise contract_error(c.choose([ValueError, KeyError, Boom])('decode'))
                return got

        def fetch(url, *a, **k):
            fetched.append(url)
            if c.choose(['there', 'not']) == 'not':
                raise contract_error(c.choose([ValueError, OSError, Boom])('fetch'))
            return doc
        c.hooks[mod.jsonld_get] = fetch
        if c.choose(['link', 'other']) == 'other':
            # of any kind, but no link
            v = u.fresh('value')
            c.assume(z3.Not(u.of(v.t, *LINKS)))
            if c.choose(['value', 'object']) == 'object':
                v = type('Stored', (), {'__namespace__': c.choose([None, NS + 'x']),
                                        'href': address})()
            reachable = False
        else:
            ref = type('Ref', (mod.Link,), {'__namespace__': NS})
            v = object.__new__(ref)
            v.href = c.choose([address, None, ''])
            theirs = c.choose(['engine', 'no package', 'no engine'])
            if theirs != 'no package':
                ref.__jsonld_package__ = object()
            if theirs == 'engine':
                ref.__jsonld_engine__ = Engine('its own')
            reachable = bool(v.href)
        ours = c.choose([True, False])
        for k in {cls, mod.Link}:
            for a in ('__jsonld_package__', '__jsonld_engine__'):
                if a in k.__dict__:
                    delattr(k, a)
        if ours:
            cls.__jsonld_package__, cls.__jsonld_engine__ = object(), Engine("the object's")
        get = mod.Link.expand(lambda obj: v if obj is o else None)
        decodes = []
        real = Engine.from_json
        Engine.from_json = lambda self, *a, **k: decodes.append(real(self, *a, **k)) or decodes[-1]
        try:
            what, r = outcome(lambda: get(o))
        finally:
            for k in {cls, mod.Link}:
                for a in ('__jsonld_package__', '__jsonld_engine__'):
                    if a in k.__dict__:
                        delattr(k, a)
        c.prove(f'{name}: does not fail', what == 'ok', repr(r))
        if what != 'ok':
            return
        stored = r is v or isinstance(v, Data) and isinstance(r, Data) and r.t.eq(v.t)
        if isinstance(v, Data) and r is None:
            c.prove(f'{name}: what is stored', u.of(v.t, 'none'))
            stored = True
        if not reachable:
            c.prove(f'{name}: nothing is fetched for what is no link', not fetched)
            c.prove(f'{name}: what is no link is read as it is', stored, repr(r))
            return
        c.prove(f'{name}: only its address is fetched, and once', len(fetched) <= 1 and all(
            x == address for x in fetched))
        c.prove(f'{name}: by the engine of the link before the one of its object',
                theirs != 'engine' or "the object's" not in decoders, decoders)
        if decodes:
            c.prove(f'{name}: the object it links to', r is got, repr(r))
        else:
            c.prove(f'{name}: what is stored, whatever goes wrong', stored, repr(r))
            if theirs == 'engine' or ours and theirs == 'no package':
                c.prove(f'{name}: its address is fetched', len(fetched) == 1)
    run.explore(name, h)
    run.covers('activitystreams.models:Link.get', 'activitystreams.models:Link.expand')


# ------------------------------------------------------------------ accounts, and fetching
MAIL = z3.Function('is_mail_address', Txt, B)


def accounts(run, which):
    """an account is 'acct:' before a mail address, or that address"""
    mod = Loader(bare=BARE_LD).load(GATES[which])
    name = f'{GATES[which]}.validate_acct_or_email'

    def h():
        c = ctx()
        text = PvxText.fresh('text')
        asked = []

        def mail(v, *a, **k):
            if a or k or not isinstance(v, PvxText):
                raise Unsupported('an address checked in another way')
            asked.append(v)
            return c.branch(MAIL(v.t)) or c.choose([False, None])
        c.hooks[mod.validate_email] = mail
        marked = text.within(rx.cat(rx.word('acct:'), rx.ALL))
        kind, r = outcome(lambda: mod.validate_acct_or_email(text))
        c.prove(f'{name}: answers', kind == 'ok', repr(r))
        rest = Tail.of(text, 5)
        c.prove(f'{name}: accepts mail addresses, also behind acct:', z3.If(
            marked, MAIL(rest.t), MAIL(text.t)) == truthy(r))
    run.explore(name, h)
    run.covers(f'{GATES[which]}:validate_acct_or_email')


def fetching(run):
    """jsonld_get, which activitystreams uses, and its copy among the tools: one request, for
    JSON-LD unless the caller asks for something else"""
    def get(*a, **k):
        raise Unsupported('a request')

    def other(*a, **k):
        raise Unsupported('another kind of request')

    class Answer:
        def __init__(self, fails):
            self.fails, self.body = fails, object()

        def json(self):
            if self.fails:
                raise contract_error(ValueError('no JSON'))
            return self.body

    def h(mod, name):
        c = ctx()
        seen = []
        answer = Answer(c.choose([False, True]))

        def get(*a, **k):
            seen.append((a, k))
            if c.branch(c.fresh('request_fails', B)):
                raise contract_error(Boom('no connection'))
            return answer
        c.hooks[mod.requests.get] = get
        url = PvxText.fresh('url')
        headers = c.choose([None, {}, {'Accept': 'x/y'}, {'Other': 'z'}])
        how = c.choose(['default', True, False])
        kind, r = outcome(lambda: mod.jsonld_get(url, *([headers] if headers is not None else []), **(
            {} if how == 'default' else {'json': how})))
        c.prove(f'{name}: one request for that address', len(seen) == 1 and seen[0][0][0] is url, repr(seen))
        k = seen[0][1] if seen else {}
        sent = k.get('headers')
        c.prove(f'{name}: asks for JSON-LD, the caller may ask for more', type(sent) is dict and (
            'Accept' in (headers or {}) or 'application/ld+json' in sent.get('Accept', '')) and all(
                sent.get(x) == y for x, y in (headers or {}).items()), repr(k))
        if kind == 'exc':
            c.prove(f'{name}: a failure is one of the request or of its text', isinstance(r, Boom)
                    or isinstance(r, ValueError) and answer.fails and how is not False, repr(r))
        else:
            c.prove(f'{name}: what was sent', r is (answer if how is False else answer.body)
                    and not (answer.fails and how is not False), repr(r))
    for where in ('jsonld.utils', 'jsonld.tools.url'):
        mod = Loader(stubs={'requests': {'get': get, 'request': other, 'Session': other}},
                     bare=BARE_LD).load(where)
        if not hasattr(mod, 'jsonld_get') and where != 'jsonld.utils':
            continue
        name = f'jsonld_get ({where})'
        run.explore(name, lambda mod=mod, name=name: h(mod, name))
        run.covers(f'{where}:jsonld_get')

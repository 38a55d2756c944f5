"""The gate for web addresses (both copies) and the document loaders.

urllib.parse.urlparse is a stand-in that gives an arbitrary scheme and host part,
or refuses the text; requests.get one that records the request and gives an
arbitrary response, or fails; parse_link_header an arbitrary reading of the header.
"""
import urllib.parse

import z3

from pysx import rx
from pysx.core import B, Unsupported, artefact, contract_error, ctx
from pysx.contracts.collection import BARE
from pysx.contracts.common import outcome, truthy
from pysx.sym import Pvx, PvxBool, bt
from pysx.text import PvxText
from pysx.transform import Loader

BARE_LD = BARE + ('jsonld', 'jsonld.tools', 'jsonld.engine')
HOST = rx.language(r'[A-Za-z0-9_.:\-]+')
SURELY_JSON = rx.language(r'application/([a-zA-Z0-9_]+\+)?json')
MAYBE_JSON = rx.language(r'application/.*json\s?')
LD = rx.word('application/ld+json')


class Pieces(Pvx):
    """what urlparse gives"""

    def __init__(self):
        self.scheme, self.netloc = PvxText.fresh('scheme'), PvxText.fresh('netloc')

    def __iter__(self):
        raise Unsupported('the parts of an address as a tuple')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'{n} of an address')


class Web:
    """the network, and how texts are read"""

    def __init__(self, url):
        self.url, self.pieces, self.requests, self.responses = url, None, [], []
        self.refused = None
        c = ctx()
        for n in ('urlparse', 'urlsplit'):
            c.hooks[getattr(urllib.parse, n)] = self.urlparse

    def urlparse(self, url, *a, **k):
        c = ctx()
        if url is not self.url or a or k:
            raise Unsupported('another address is parsed')
        if self.pieces is None:
            self.refused = c.branch(c.fresh('urlparse_refuses', B))
            self.pieces = Pieces()
        if self.refused:
            raise contract_error(ValueError('Invalid URL'))
        return self.pieces

    def accepted(self, secure):
        """the address is to be accepted"""
        if self.pieces is None:
            self.pieces = Pieces()     # nobody has looked at it
            self.refused = False
        if self.refused:
            return z3.BoolVal(False)
        s, h = self.pieces.scheme, self.pieces.netloc
        return z3.And(z3.Or(s.within(rx.word('https')), z3.And(
            s.within(rx.word('http')), z3.Not(secure))), h.within(HOST))


GATES = {'tools': 'jsonld.tools.url', 'engine': 'jsonld.engine.utils'}


def gate(run, which):
    L = Loader(bare=BARE_LD)
    mod = L.load(GATES[which])
    name = f'{GATES[which]}.validate_url'

    def h():
        c = ctx()
        url = PvxText.fresh('url')
        w = Web(url)
        how = c.choose(['secure given', 'secure by position', 'default'])
        secure = c.fresh('secure', B)
        if how == 'default':
            kind, r = outcome(lambda: mod.validate_url(url))
            secure = z3.BoolVal(False)
        elif how == 'secure given':
            kind, r = outcome(lambda: mod.validate_url(url, secure=PvxBool(secure)))
        else:
            kind, r = outcome(lambda: mod.validate_url(url, PvxBool(secure)))
        ok = w.accepted(secure)
        c.prove(f'{name}: answers for every text, also what urllib refuses', kind == 'ok', repr(r))
        if kind == 'ok':
            c.prove(f'{name}: accepts exactly the well-formed addresses', truthy(r) == ok)
    run.explore(name, h)
    run.covers(f'{GATES[which]}:validate_url')


# ------------------------------------------------------------------ the loaders
class Boom(Exception):
    pass


class Document(Pvx):
    """a JSON document"""

    def __bool__(self):
        return ctx().branch(ctx().fresh('document_truth', B))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'{n} of a document')


class Headers(Pvx):
    """the headers of a response; case does not matter"""

    def __init__(self):
        c = ctx()
        self.has, self.val = {}, {}
        for n in ('content-type', 'link'):
            self.has[n], self.val[n] = c.fresh(f'has_{n}', B), PvxText.fresh(n)

    def name(self, n):
        if not isinstance(n, str) or n.lower() not in self.has:
            raise Unsupported(f'header {n!r}')
        return n.lower()

    def get(self, n, default=None):
        n = self.name(n)
        return self.val[n] if ctx().branch(self.has[n]) else default

    def __contains__(self, n):
        return ctx().branch(self.has[self.name(n)])

    def __getitem__(self, n):
        if n not in self:
            raise contract_error(KeyError(n))
        return self.val[self.name(n)]

    def __iter__(self):
        raise Unsupported('iteration over headers')


class Response(Pvx):
    def __init__(self, can_fail):
        self.headers, self.url, self.doc = Headers(), PvxText.fresh('response_url'), Document()
        self.error, self.read = None, False
        self.can_fail = can_fail

    def __bool__(self):
        return ctx().branch(ctx().fresh('response_ok', B))

    def json(self, **k):
        c = ctx()
        if not self.read:
            self.read = True
            if self.can_fail and c.branch(c.fresh('no_json', B)):
                self.error = contract_error(Boom('not JSON'))
        if self.error is not None:
            raise self.error
        return self.doc

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'{n} of a response')


class Target(Pvx):
    """one entry of a link header"""

    def __init__(self, name):
        self.target = PvxText.fresh(f'{name}_target')
        self.has_type, self.type = ctx().fresh(f'{name}_has_type', B), PvxText.fresh(f'{name}_type')

    def pvx_isinstance(self, cls):
        return issubclass(dict, cls) if isinstance(cls, type) else any(
            self.pvx_isinstance(x) for x in cls)

    def get(self, n, default=None):
        if n == 'target':
            return self.target
        if n != 'type':
            raise Unsupported(f'{n!r} of a link')
        return self.type if ctx().branch(self.has_type) else default

    def __contains__(self, n):
        return n == 'target' or (n == 'type' and ctx().branch(self.has_type))

    def __getitem__(self, n):
        if n not in self:
            raise contract_error(KeyError(n))
        return self.get(n)

    def __bool__(self):
        return True        # there is a target


CONTEXT = 'http://www.w3.org/ns/json-ld#context'


class Links(Pvx):
    """a link header, read: per relation nothing, one entry, or several"""

    def __init__(self):
        self.rels = {}

    def entry(self, rel):
        if rel not in (CONTEXT, 'alternate'):
            raise Unsupported(f'relation {rel!r}')
        if rel not in self.rels:
            n = 'context' if rel == CONTEXT else rel
            k = ctx().choose(['none', 'one', 'several'])
            h = ctx().known.setdefault('hint', {})
            h['rels'] = {**h.get('rels', {}), n: k}
            self.rels[rel] = None if k == 'none' else Target(n) if k == 'one' else [
                Target(n), Target(n + '2')]
        return self.rels[rel]

    def get(self, rel, default=None):
        e = self.entry(rel)
        return default if e is None else e

    def __contains__(self, rel):
        return self.entry(rel) is not None

    def __getitem__(self, rel):
        e = self.entry(rel)
        if e is None:
            raise contract_error(KeyError(rel))
        return e


def new_web(url, faults=True):
    """the hooks for one load; w.requests and w.failures say what happened"""
    import pyld.jsonld as real
    w = Web(url)
    w.failures, w.links, w.based, w.headers = [], None, [], []
    c = ctx()

    def get(u, *a, **k):
        w.requests.append(u)
        w.headers.append(k.get('headers'))
        if faults and c.branch(c.fresh('request_fails', B)):
            raise contract_error(Boom('no connection'))
        w.responses.append(Response(faults))
        return w.responses[-1]

    def parse(header):
        if not w.responses or header is not w.responses[0].headers.val['link']:
            raise Unsupported('another header is read')
        if w.links is None:
            w.links = Links()
        return w.links

    def prepend(base, iri):
        w.based.append((base, iri, PvxText.fresh('based')))
        return w.based[-1][2]
    w.get = get
    c.hooks[real.parse_link_header] = parse
    c.hooks[real.prepend_base] = prepend
    return w


def load():
    box = {}

    def get(u, *a, **k):
        return box['web'].get(u, *a, **k)

    def other(*a, **k):
        raise Unsupported('another kind of request')
    L = Loader(stubs={'requests': {'get': get, 'request': other, 'Session': other}}, bare=BARE_LD)
    return L.load('jsonld.docloader'), box


def made(mod, cls):
    """(loader, whether it is secure); the default is to be, and to ask for JSON-LD"""
    c = ctx()
    C = getattr(mod, cls)
    how = c.choose(['default', 'given', 'headers'])
    if how == 'default':
        return C(), z3.BoolVal(True)
    s = c.fresh('secure', B)
    if how == 'headers':
        c.known['headers'] = {'Accept': 'x/y', 'Other': 'z'}
        return C(secure=PvxBool(s), headers=dict(c.known['headers'])), s
    return C(secure=PvxBool(s)), s


def one_request(c, name, w, r):
    c.prove(f'{name}: requests are for the address given, and one of them answered at most',
            all(u is w.url for u in w.requests) and len(w.responses) <= 1, repr(w.requests))
    want = c.known.get('headers')
    c.prove(f'{name}: asks for JSON-LD, or as it was told to ask', all(
        type(h) is dict and (h == want if want else 'application/ld+json' in h.get('Accept', ''))
        for h in w.headers), repr(w.headers))


def get(run, cls):
    """the gate in front of the network, and what becomes of the response"""
    mod, box = load()
    name = f'{cls}.get'

    def h():
        c = ctx()
        url = PvxText.fresh('url')
        w = box['web'] = new_web(url)
        ld, secure = made(mod, cls)
        kind, r = outcome(lambda: ld.get(url))
        ok = w.accepted(secure)
        if not w.requests:
            c.prove(f'{name}: no request only where the address is refused', z3.Not(ok))
            c.prove(f'{name}: a refused address is an error', kind == 'exc', repr(r))
            return
        c.prove(f'{name}: a request only for a well-formed address', ok)
        one_request(c, name, w, r)
        if not w.responses or w.responses[0].error is not None:
            c.prove(f'{name}: fails if the request or the reading of it does', kind == 'exc')
            return
        document(c, name, w, kind, r)
    run.explore(name, h)
    run.covers(f'jsonld.docloader:{cls}.get')


def same(a, b):
    """the same text"""
    if a is b:
        return z3.BoolVal(True)
    if isinstance(a, PvxText) and isinstance(b, (str, PvxText)):
        return bt(a == b)
    if isinstance(b, PvxText) and isinstance(a, str):
        return bt(b == a)
    return z3.BoolVal(isinstance(a, str) and a == b)


def inside(a, r):
    """a is a text of the language"""
    if isinstance(a, PvxText):
        return a.within(r)
    return z3.BoolVal(isinstance(a, str) and rx.contains(r, a))


def document(c, name, w, kind, r):
    resp = w.responses[0]
    hd = resp.headers
    raw = hd.val['content-type']
    ct = raw if c.branch(z3.And(hd.has['content-type'], z3.Not(raw.within(rx.EPS)))) else \
        'application/octet-stream'
    linked = z3.And(hd.has['link'], z3.Not(hd.val['link'].within(rx.EPS)))
    ld = inside(ct, LD)
    ctx_link = w.links.rels.get(CONTEXT) if w.links is not None else None
    alt = w.links.rels.get('alternate') if w.links is not None else None
    unread = w.links is None
    if isinstance(ctx_link, list):
        # more than one context is an error, unless it does not matter
        c.prove(f'{name}: several contexts are an error for other than JSON-LD',
                z3.Or(ld, z3.Not(linked), kind == 'exc'))
    if isinstance(alt, list):
        return          # several alternates: nothing is promised
    if kind == 'exc':
        c.prove(f'{name}: fails on a response only for several contexts',
                z3.And(z3.Not(ld), linked, isinstance(ctx_link, list)), repr(r))
        if isinstance(ctx_link, list):
            c.prove(f'{name}: several contexts are reported as that',
                    getattr(r, 'code', None) == 'multiple context link headers', repr(r))
        return
    c.prove(f'{name}: a document', isinstance(r, dict) and {
        'contentType', 'contextUrl', 'documentUrl', 'document'} <= set(r), repr(r))
    if not isinstance(r, dict):
        return
    c.prove(f'{name}: the document is what was received', r.get('document') is resp.doc)
    # which relations were looked at, on this path
    rels = {} if unread else w.links.rels
    if CONTEXT not in rels:
        c.prove(f'{name}: the context link is looked at unless the content is JSON-LD',
                z3.Or(ld, z3.Not(linked)))
    if 'alternate' not in rels:
        c.prove(f'{name}: the alternate link is looked at unless the content is JSON',
                z3.Or(z3.Not(linked), inside(ct, MAYBE_JSON)))
    got = r.get('contextUrl')
    if isinstance(ctx_link, Target):
        c.prove(f'{name}: the context link is honoured exactly for other than JSON-LD',
                z3.And(z3.Implies(ld, z3.BoolVal(got is None)),
                       z3.Implies(z3.Not(ld), z3.BoolVal(got is not None) if got is None else
                                  same(got, ctx_link.target))))
    else:
        c.prove(f'{name}: no context without a link to it', got is None)
    ctype, durl = r.get('contentType'), r.get('documentUrl')
    plain = z3.And(same(ctype, ct), same(durl, resp.url))
    if isinstance(alt, Target):
        wanted = z3.And(alt.has_type, alt.type.within(LD))
        redirected = z3.BoolVal(False)
        if w.based and durl is w.based[-1][2]:
            redirected = z3.And(inside(ctype, LD),
                                same(w.based[-1][0], w.url), same(w.based[-1][1], alt.target))
        c.prove(f'{name}: a JSON-LD alternate of other than JSON is where the document is',
                z3.Implies(z3.And(wanted, z3.Not(inside(ct, MAYBE_JSON))), redirected))
        c.prove(f'{name}: otherwise the document is where it was found',
                z3.Implies(z3.Or(z3.Not(wanted), inside(ct, SURELY_JSON)), plain))
        c.prove(f'{name}: the document is in one of the two places', z3.Or(plain, redirected))
    else:
        c.prove(f'{name}: otherwise the document is where it was found', plain)


ABSENT = object()


class Cache(Pvx):
    """url -> document, of which the entry for one url matters"""

    def __init__(self, url):
        c = ctx()
        self.url, self.old = url, Document()
        self.old.__class__ = Stored
        self.had = c.branch(c.fresh('cached', B))
        self.now = self.old if self.had else ABSENT
        self.other = []

    def mine(self, k):
        if k is self.url:
            return True
        if isinstance(k, PvxText):
            raise Unsupported('another entry of the cache')
        return False

    def keys(self):
        return self

    def __contains__(self, k):
        if not self.mine(k):
            raise Unsupported('another entry of the cache')
        return self.now is not ABSENT

    def get(self, k, default=None):
        return self.now if k in self else default

    def __getitem__(self, k):
        if k not in self:
            raise contract_error(KeyError('url'))
        return self.now

    def setdefault(self, k, v=None):
        if k not in self:
            self[k] = v
        return self.now

    def __setitem__(self, k, v):
        if self.mine(k):
            self.now = v
        else:
            self.other.append(k)

    def __delitem__(self, k):
        if k not in self:
            raise contract_error(KeyError('url'))
        self.now = ABSENT

    def pop(self, k, *d):
        if k not in self:
            if d:
                return d[0]
            raise contract_error(KeyError('url'))
        v, self.now = self.now, ABSENT
        return v

    def clear(self):
        self.now = ABSENT
        self.other.append('*')

    def __iter__(self):
        raise Unsupported('iteration over the cache')


class Stored(Document):
    def __bool__(self):
        return True         # a dictionary with its four entries


def call(run, cls):
    """loader(url)"""
    mod, box = load()
    name = f'{cls}.__call__'
    cached = cls.startswith('Cached')
    from pyld.jsonld import JsonLdError

    def h():
        c = ctx()
        url = PvxText.fresh('url')
        w = box['web'] = new_web(url)
        cache = None
        if cached:
            cache = getattr(mod, cls).cached_schemas = Cache(url)
        ld, secure = made(mod, cls)
        extra = c.choose([((), {}), (({},), {}), ((), {'options': {}})])
        kind, r = outcome(lambda: ld(url, *extra[0], **extra[1]))
        if cached and 'cached_schemas' in vars(ld):
            raise Unsupported('the loader has a cache of its own')
        if cached:
            c.prove(f'{name}: other entries of the cache are left alone', not cache.other)
        if cached and cache.had:
            c.prove(f'{name}: what was loaded before is returned again',
                    kind == 'ok' and r is cache.old, repr(r))
            c.prove(f'{name}: without a request', not w.requests)
            c.prove(f'{name}: and is kept', cache.now is cache.old)
            return
        ok = w.accepted(secure)
        one_request(c, name, w, r)
        c.prove(f'{name}: a request only for a well-formed address',
                z3.Or(ok, z3.BoolVal(not w.requests)))
        if kind == 'exc':
            if artefact(getattr(r, 'cause', None) or r):
                raise Unsupported(f'{r!r}')
            c.prove(f'{name}: a failure is the loading error of JSON-LD',
                    isinstance(r, JsonLdError) and r.code == 'loading document failed', repr(r))
            c.prove(f'{name}: with its cause', isinstance(getattr(r, 'cause', None), Exception) and
                    r.cause is not r)
            if cached:
                c.prove(f'{name}: a failed load is not remembered', cache.now is ABSENT)
            several = w.links is not None and any(isinstance(x, list) for x in w.links.rels.values())
            bad = not w.responses or w.responses[0].error is not None or several
            c.prove(f'{name}: fails only for a reason', z3.Or(z3.Not(ok), z3.BoolVal(bad)), repr(r))
            return
        c.prove(f'{name}: a result only of a load that worked',
                len(w.responses) == 1 and w.responses[0].error is None)
        document(c, name, w, kind, r)
        if cached:
            c.prove(f'{name}: a load that worked is remembered', cache.now is r, repr(cache.now))
    run.explore(name, h)
    run.covers(f'jsonld.docloader:{cls}.__call__')


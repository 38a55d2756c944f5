"""C19, C24-C27: the activitystreams package, packages and engines"""
import copy
import functools
import datetime as dtm
import json

from bounded.harness import check, ok, outcome, raises, short

U = 'https://a.example/x'
URLS = ['https://a.example/x', 'http://b.example:8080/p?q=1#f', 'https://c-d_e.example']
MAILS = ['joe@example.com', 'acct:joe@example.com', 'a.b@c.example', 'acct:cat@example.com', 'acct:a@t.example',
         'tc@example.com']
PLAIN = ['x', '', 'no link', 'ftp://a.example/x', 'acct:', 'a@', '//a.example', 'https://',
         'http:///p', 'https://b ad.example/', 'mailto:joe', 'http://[', 'https://a]b/']
NS = 'https://www.w3.org/ns/activitystreams'
CTX = {"@context": {"@vocab": NS + "#", "id": "@id", "type": "@type", "as": NS + "#"}}

_W = {}


def world():
    """the package and an engine of it; nothing reaches a network"""
    if _W:
        return _W
    import jsonld
    import requests
    known = {u: {'contentType': 'application/ld+json', 'contextUrl': None, 'documentUrl': u,
                 'document': CTX}
             for u in (NS, 'http://www.w3.org/ns/activitystreams#', NS + '#')}
    kept = getattr(jsonld.CachedRequestsJsonLoader, 'cached_schemas', None)
    if isinstance(kept, dict):
        kept.update(known)
    else:
        import pyld.jsonld
        loader = jsonld.CachedRequestsJsonLoader()
        pyld.jsonld.set_document_loader(lambda u, *a, **k: known[u] if u in known else loader(u, *a, **k))
    fetch, asked = {}, []

    def get(url, *a, **k):
        asked.append((url, (k.get('headers') or {})))
        if url in fetch:
            return fetch[url]()
        raise requests.exceptions.ConnectionError('no network')
    requests.get = get
    import activitystreams
    from activitystreams import models, properties
    _W.update(engine=activitystreams.create_engine(), models=models,
              properties=properties, fetch=fetch, asked=asked)
    return _W


# ------------------------------------------------------------------ vocabulary
OBJECT_P = ('id attachment attributedTo audience content context name endTime generator icon '
            'image inReplyTo location preview published replies startTime summary tag updated '
            'url to bto cc bcc mediaType duration').split()
ACTIVITY_P = 'actor object target result origin instrument'.split()
COLLECTION_P = 'current first last items'.split()        # and totalItems
PAGE_P = 'partOf next prev'.split()
LINK_P = 'href rel mediaType name hreflang height width preview context'.split()

_ACT = ('Accept TentativeAccept Add Create Delete Follow Ignore Join Leave Like Offer Invite '
        'Reject TentativeReject Remove Undo Update View Listen Read Move Announce Block Flag '
        'Dislike Activity IntransitiveActivity Arrive Travel').split()
_PLAIN = ('Object Application Group Organization Person Service Article Document Audio Image '
          'Video Note Page Event').split()
VOCAB = {**{c: OBJECT_P + ACTIVITY_P for c in _ACT},
         **{c: OBJECT_P for c in _PLAIN},
         'Link': LINK_P, 'Mention': LINK_P,
         'Collection': OBJECT_P + COLLECTION_P,
         'OrderedCollection': OBJECT_P + COLLECTION_P + ['orderedItems'],
         'CollectionPage': OBJECT_P + COLLECTION_P + PAGE_P,
         'OrderedCollectionPage': OBJECT_P + COLLECTION_P + PAGE_P + ['orderedItems', 'startIndex'],
         'Question': OBJECT_P + ACTIVITY_P + ['oneOf', 'anyOf', 'closed'],
         'Relationship': OBJECT_P + ['subject', 'object', 'relationship'],
         'Place': OBJECT_P + 'accuracy altitude latitude longitude radius units'.split(),
         'Profile': OBJECT_P + ['describes'],
         'Tombstone': OBJECT_P + ['formerType', 'deleted']}
PARENT = {'TentativeAccept': 'Accept', 'IntransitiveActivity': 'Activity',
          'Arrive': 'IntransitiveActivity', 'Travel': 'IntransitiveActivity',
          'Question': 'IntransitiveActivity', 'Invite': 'Offer', 'TentativeReject': 'Reject',
          'Block': 'Ignore', 'Audio': 'Document', 'Image': 'Document', 'Video': 'Document',
          'Page': 'Document', 'OrderedCollection': 'Collection', 'CollectionPage': 'Collection',
          'Mention': 'Link', 'Activity': 'Object', 'Collection': 'Object'}
COLLECTIONS = ('Collection', 'OrderedCollection', 'CollectionPage', 'OrderedCollectionPage')

# kinds of values a property takes; '*': also lists of them
_REF = 'obj coll page opage link mention url mail hrefdict'
_DT = 'dt dtstr'
RANGE = {
    'id': 'url', 'type': '* str url mail',
    **{p: '* ' + _REF for p in (
        'attachment attributedTo actor audience bcc bto cc context generator icon image inReplyTo '
        'instrument location items orderedItems unorderedItems oneOf anyOf origin object preview '
        'result target to').split()},
    **{p: 'page opage link mention url mail hrefdict' for p in 'current first last next prev'.split()},
    'partOf': 'coll page opage link mention url mail hrefdict',
    'tag': '* dict ' + _REF, 'url': '* str link mention url mail hrefdict',
    'replies': 'coll page opage', 'subject': _REF,
    'closed': '* obj coll page opage link mention url mail hrefdict bool ' + _DT,
    'accuracy': 'int float nint', 'altitude': 'int float nint nfloat',
    'latitude': 'int float nint nfloat', 'longitude': 'int float nint nfloat',
    'radius': 'int float',
    'height': 'int', 'width': 'int', 'totalItems': 'int', 'startIndex': 'int',
    'content': '* str url mail', 'summary': '* str url mail', 'rel': '* str url mail',
    'name': '* str url mail dict hrefdict',
    'mediaType': 'str url mail', 'hreflang': 'str url mail', 'href': 'str url mail',
    'units': 'str url mail',
    'duration': 'td str url mail',
    **{p: _DT for p in 'endTime published startTime updated deleted'.split()},
    'relationship': '* obj coll page opage str url mail', 'describes': 'obj coll page opage',
    'formerType': '* obj coll page opage str url mail',
}
RANGE = {p: frozenset(v.split()) for p, v in RANGE.items()}
# to what a value of the kind belongs is not documented (negative accuracy,
# text that is no URL as an id, truth values as numbers): left out
UNSPEC = {'accuracy': {'nint', 'nfloat', 'bool'}, 'id': {'str', 'mail', 'dtstr'},
          'closed': {'str'}}
NUMERIC = 'altitude latitude longitude radius height width totalItems startIndex'.split()
for _p in NUMERIC:
    UNSPEC[_p] = {'bool'}
for _p, _k in RANGE.items():
    if 'str' in _k:
        UNSPEC.setdefault(_p, set()).add('dtstr')
REFS = {p for p, k in RANGE.items() if 'mail' in k and 'link' in k} | {'replies'}
KINDS = ('obj coll page opage link mention url mail hrefdict str dict int float nint nfloat bool '
         'dt dtstr td bytes other').split()
CLASS_OF = {}
for _c, _ps in VOCAB.items():
    for _p in _ps:
        CLASS_OF.setdefault(_p, []).append(_c)
for _c in COLLECTIONS:
    CLASS_OF.setdefault('totalItems', []).append(_c)
    CLASS_OF.setdefault('unorderedItems', []).append(_c)
    CLASS_OF.setdefault('orderedItems', []).append(_c)
CLASS_OF['orderedItems'] = sorted(set(CLASS_OF['orderedItems']))
CLASS_OF['type'] = ['Object', 'Link']
# the package maps `context` to no class
NOT_LINKED = {'context'}
# kinds of which every fourth is false as a condition
FALSIBLE = {'obj', 'coll', 'page', 'opage', 'link', 'mention'}


class Other:
    pass


def factory(family):
    w = world()
    return w['models'] if family == 'plain' else w['engine']


@functools.lru_cache(maxsize=None)
def falsy(cls):
    """a subclass whose instances count as false"""
    return type(cls.__name__, (cls,), {'__bool__': lambda self: False})


def make(kind, n, family):
    f = factory(family)
    made = {
        'obj': lambda: (f.Note, dict(id=f'https://o.example/{n}', content='c')),
        'coll': lambda: (f.Collection, dict(id=f'https://o.example/c{n}', items=[])),
        'page': lambda: (f.CollectionPage, dict(id=f'https://o.example/p{n}')),
        'opage': lambda: (f.OrderedCollectionPage, dict(id=f'https://o.example/p{n}')),
        'link': lambda: (f.Link, dict(href=f'https://l.example/{n}')),
        'mention': lambda: (f.Mention, dict(href=f'https://m.example/{n}')),
        'nolink': lambda: (f.Link, dict(rel='r')),
    }.get(kind)
    if made:
        cls, kw = made()
        return (falsy(cls) if n % 4 == 3 else cls)(**kw)
    if kind == 'url':
        return URLS[n % len(URLS)]
    if kind == 'mail':
        return MAILS[n % len(MAILS)]
    if kind == 'hrefdict':
        return {'href': URLS[n % len(URLS)], 'name': 'n'}
    return {'str': lambda: ['x', '', 'y z'][n % 3], 'dict': lambda: {'a': 'b', 'n': 'c'},
            'int': lambda: [0, 7, 10 ** 12][n % 3], 'float': lambda: [0.0, 1.5, 1e300][n % 3],
            'nint': lambda: [-1, -10 ** 9, -7][n % 3], 'nfloat': lambda: [-0.5, -1e9, -2.0][n % 3],
            'bool': lambda: bool(n % 2),
            'dt': lambda: [dtm.datetime(2024, 2, 29, 1, 2, 3),
                           dtm.datetime(2001, 1, 1, tzinfo=dtm.timezone.utc)][n % 2],
            'dtstr': lambda: ['2024-02-29T01:02:03Z', '2024-02-29T01:02:03-08:00',
                              '2001-12-31T23:59Z'][n % 3],
            'td': lambda: [dtm.timedelta(seconds=5), dtm.timedelta(0)][n % 2],
            'bytes': lambda: b'x', 'other': lambda: Other()}[kind]()


def is_ref(prop):
    return prop in REFS


def check_value(prop, kind, given, got, what):
    """what one (non-list) value reads back as"""
    Link = world()['models'].Link
    if is_ref(prop) and kind in ('url', 'mail', 'hrefdict'):
        href = given['href'] if kind == 'hrefdict' else given
        check(isinstance(got, Link) and got.href == href, f'{what}: not a link to it', got)
        if kind == 'hrefdict':
            check(got.name == given['name'], f'{what}: the name of the link', got.name)
        return
    if kind == 'dtstr':
        naive = {'2024-02-29T01:02:03Z': dtm.datetime(2024, 2, 29, 1, 2, 3),
                 '2024-02-29T01:02:03-08:00': dtm.datetime(2024, 2, 29, 9, 2, 3),
                 '2001-12-31T23:59Z': dtm.datetime(2001, 12, 31, 23, 59)}[given]
        check(isinstance(got, dtm.datetime), f'{what}: not a date', got)
        g = got if got.tzinfo is None else got.astimezone(dtm.timezone.utc).replace(tzinfo=None)
        check(g == naive, f'{what}: another date', got)
        return
    check(got is given or (type(got) is type(given) and got == given and
                           not hasattr(given, '__properties__')), f'{what}: value', got, given)


def read_all(o, skip):
    return {p: ok(lambda: getattr(o, p), f'reading {p}') for p in o.__properties__
            if p != skip and not p.startswith('__')}


def check_others(o, before, prop, what):
    after = read_all(o, prop)
    for p in before:
        check(before[p] is after[p] or before[p] == after[p],
              f'{what}: property {p} changed', before[p], after[p])


def json_of(prop, kind, given, out, what):
    if kind in ('url', 'mail', 'hrefdict') and is_ref(prop):
        check(out == (given['href'] if kind == 'hrefdict' else given), f'{what}: JSON', out)
    elif kind in ('link', 'mention') and is_ref(prop):
        check(out == given.href, f'{what}: JSON', out)


def r_prop(cls, prop, kinds, family, as_list, n=0, vfamily=None):
    """set one property of an object, see what it and the others read back"""
    w = world()
    if family == 'plain':
        P = next(c for c in vars(w['properties']).values()
                 if isinstance(c, type) and '__get_property_name__' in dir(c)
                 and c.__name__ != 'ActivityStreamsProperty' and c.__module__.endswith('properties')
                 and prop in c.__dict__)
        from jsonld.jsonld import PropertyJsonLD
        o = type('H', (PropertyJsonLD,), {prop: P.__dict__[prop]})(acontext=None)
    else:
        o = factory(family).__dict__[cls](id='https://h.example/1')
    vals = [make(k, n + i, vfamily or family) for i, k in enumerate(kinds)]
    rng = RANGE[prop]
    allowed = all(k in rng for k in kinds) and (not as_list or '*' in rng)
    val = vals[0] if not as_list else list(vals)
    what = f'{cls}.{prop} = {short(kinds if as_list else kinds[0])} ({family})'
    old_kind = sorted(k for k in rng if k != '*')[n % len([k for k in rng if k != '*'])]
    if family != 'plain' or n % 2:
        old = make(old_kind, n + 5, family)
        ok(lambda: setattr(o, prop, old), f'{cls}.{prop} = {old_kind} ({short(old)})')
        check_value(prop, old_kind, old, getattr(o, prop), f'{cls}.{prop} = {old_kind}')
    before = read_all(o, prop)
    stored = getattr(o, prop)
    kind, exc = outcome(lambda: setattr(o, prop, val))
    if allowed:
        check(kind == 'ok', f'{what} was refused', exc)
        got = getattr(o, prop)
        if as_list:
            check(isinstance(got, list) and len(got) == len(vals), f'{what}: list', got)
            for k, v, g in zip(kinds, vals, got):
                if not (prop == 'closed' and k == 'dtstr'):
                    check_value(prop, k, v, g, what)
        else:
            check_value(prop, kinds[0], vals[0], got, what)
        if is_ref(prop) and set(kinds) & {'url', 'mail', 'hrefdict', 'link', 'mention'}:
            out = ok(lambda: o.data(include=(prop,)), f'{what}: data()')[prop]
            if as_list:
                check(isinstance(out, list) and len(out) == len(vals), f'{what}: JSON list', out)
                for k, v, g in zip(kinds, vals, out):
                    json_of(prop, k, v, g, what)
            else:
                json_of(prop, kinds[0], vals[0], out, what)
    else:
        check(kind == 'exc', f'{what} was not refused', getattr(o, prop))
        check(getattr(o, prop) is stored or getattr(o, prop) == stored,
              f'{what}: refused, yet the old value is gone', getattr(o, prop))
    check_others(o, before, prop, what)
    if kind == 'ok' and n % 2 == 0:
        ok(lambda: setattr(o, prop, None), f'{cls}.{prop} = None')
        check(getattr(o, prop) is None, f'{cls}.{prop} = None reads back as', getattr(o, prop))


def gen_c19(run):
    def spec(p, k):
        return k not in UNSPEC.get(p, ())
    for p in sorted(RANGE):
        for i, k in enumerate(KINDS):
            if not spec(p, k):
                continue
            for n in [i, i + 1] + ([3] if k in FALSIBLE else []):
                yield 'prop', dict(cls='-', prop=p, kinds=[k], family='plain', as_list=False, n=n)
                if p not in NOT_LINKED:
                    yield 'prop', dict(cls=CLASS_OF[p][n % len(CLASS_OF[p])], prop=p, kinds=[k],
                                       family='engine', as_list=False, n=n)
            yield 'prop', dict(cls='-', prop=p, kinds=[k], family='plain', as_list=True, n=i)
            good = sorted(x for x in RANGE[p] if x != '*')
            yield 'prop', dict(cls='-', prop=p, kinds=[good[i % len(good)], k, good[0]],
                               family='plain', as_list=True, n=i)
            if p not in NOT_LINKED:
                yield 'prop', dict(cls=CLASS_OF[p][i % len(CLASS_OF[p])], prop=p,
                                   kinds=[good[-1], k], family='engine', as_list=True, n=i)
        if p not in NOT_LINKED:
            for i, c in enumerate(CLASS_OF[p]):
                good = sorted(x for x in RANGE[p] if x != '*')
                yield 'prop', dict(cls=c, prop=p, kinds=[good[i % len(good)]], family='engine',
                                   as_list=False, n=i)
                if 'obj' in RANGE[p]:
                    yield 'prop', dict(cls=c, prop=p, kinds=['obj'], family='engine',
                                       as_list=False, n=i, vfamily='plain')
    r = run.rng
    while run.timeleft() > 0 and run.evaluations < 6000 * (10 if run.tier == 'thorough' else 1):
        p = r.choice(sorted(RANGE))
        ks = [k for k in KINDS if spec(p, k)]
        if r.random() < .6:
            ks = [k for k in ks if k in RANGE[p]]
        as_list = r.random() < .6
        kinds = [r.choice(ks) for _ in range(r.randint(0, 4) if as_list else 1)]
        plain = p in NOT_LINKED or r.random() < .4
        yield 'prop', dict(cls='-' if plain else r.choice(CLASS_OF[p]), prop=p, kinds=kinds,
                           family='plain' if plain else 'engine', as_list=as_list,
                           n=r.randrange(12))


# ======================================================================== C26
def build(v, family, table):
    """a value out of its JSON description"""
    t = v[0]
    if t in ('list', 'tuple', 'set'):
        return {'list': list, 'tuple': tuple, 'set': set}[t](build(x, family, table) for x in v[1])
    if t == 'lit':
        return v[1]
    x = make(t, v[1] if len(v) > 1 else 0, family)
    table.append((v, x))
    return x


LINKDICTS = [({'href': U}, True), ({'href': U, 'rel': 'r', 'name': 'n'}, True),
             ({'href': 'x'}, False), ({'href': ''}, False), ({'href': None}, False),
             ({'a': U}, False), ({}, False), ({'href': 5}, False),
             ({'href': [U]}, False), ({'href': 'http://['}, False),
             ({'href': 'https://a.example '}, False), ({'href': 'https://a.example\u3000'}, False)]


def expect_link(v, val, got, what, cls):
    """cls: of what class a link that is made is"""
    Link = world()['models'].Link
    t = v[0]
    if t in ('list', 'tuple'):
        check(isinstance(got, list) and len(got) == len(v[1]), f'{what}: list', got)
        for sub, sv, sg in zip(v[1], val, got):
            expect_link(sub, sv, sg, what, cls)
    elif t == 'set':
        check(isinstance(got, list) and len(got) == len(val), f'{what}: list', got)
        hrefs = sorted(g.href if isinstance(g, Link) else repr(g) for g in got)
        want = sorted(x if (x in URLS + MAILS) else repr(x) for x in val)
        check(hrefs == want, f'{what}: members', got)
        check(all(type(g) is cls for g in got if isinstance(g, Link)), f'{what}: class of the links', got)
    elif t in ('url', 'mail') or (t == 'lit' and isinstance(val, str) and val in URLS + MAILS):
        check(type(got) is cls and got.href == val, f'{what}: no link to it', got)
    elif isinstance(val, dict) and any(d == val and y for d, y in LINKDICTS):
        check(type(got) is cls, f'{what}: no link', got)
        for k in val:
            check(getattr(got, k) == val[k], f'{what}: {k} of the link', getattr(got, k))
    elif t == 'hrefdict':
        check(type(got) is cls and got.href == val['href'], f'{what}: no link', got)
    else:
        check(got is val or (isinstance(val, (str, dict)) and type(got) is type(val)
                             and got == val), f'{what}: changed', got, val)


def r_from_str(value, family):
    w = world()
    Link = w['models'].Link
    seen = []
    fn = Link.from_str(lambda obj, val: seen.append((obj, val)))
    o = Other()
    if family == 'engine':
        o.__jsonld_package__ = w['engine'].package
    val = build(value, family, [])
    keep = copy.copy(val) if isinstance(val, (list, dict, set)) else val
    ok(lambda: fn(o, val), f'setting {short(val)}')
    check(len(seen) == 1 and seen[0][0] is o, f'setting {short(val)}: setter ran', len(seen))
    expect_link(value, val, seen[0][1], f'setting {short(val)} ({family})',
                w['engine'].package[NS + '#Link'] if family == 'engine' else Link)
    if isinstance(val, (list, dict, set)):
        check(val == keep, f'setting {short(keep)}: the given value was modified', val)


def r_href_only(value, family):
    w = world()
    Link = w['models'].Link
    val = build(value, family, [])
    o = Other()
    got = ok(lambda: Link.href_only(lambda obj: val if obj is o else None)(o), f'{short(val)}')
    what = f'JSON form of {short(val)}'
    if isinstance(val, Link):
        check(got == val.href, what, got)
    elif isinstance(val, list):
        check(isinstance(got, list) and len(got) == len(val), what, got)
        for v, g in zip(val, got):
            check(g == v.href if isinstance(v, Link) else g is v, what, got)
    else:
        check(got is val, what, got)


class Resp:
    def __init__(self, body, fail=False):
        self.body, self.fail = body, fail
        self.headers = {'content-type': 'application/activity+json'}

    def json(self):
        if self.fail:
            raise ValueError('no JSON')
        return copy.deepcopy(self.body)


def boom(exc):
    def f():
        raise exc
    return f


def r_expand(fault, prop, given, family='engine'):
    import requests
    w = world()
    url = 'https://fetch.example/o'
    note = {'@context': NS, 'type': 'Note', 'id': url, 'content': 'hello'}
    table = {
        'ok': lambda: Resp(note),
        'okperson': lambda: Resp({'type': 'Person', 'id': url, 'name': 'hello'}),
        'okcoll': lambda: Resp({'type': 'CollectionPage', 'id': url, 'items': []}),
        'none': None,
        'timeout': boom(requests.exceptions.Timeout('t')),
        'oserror': boom(OSError('x')), 'value': boom(ValueError('x')), 'key': boom(KeyError('x')),
        'runtime': boom(RuntimeError('x')), 'assertion': boom(AssertionError('x')),
        'attribute': boom(AttributeError('x')), 'type': boom(TypeError('x')),
        'nojson': lambda: Resp(None, True),
        'unknown': lambda: Resp({'@context': NS, 'type': 'Nothing', 'id': url}),
        'untyped': lambda: Resp({'@context': NS, 'name': 'x'}),
        'badfield': lambda: Resp({'@context': NS, 'type': 'Note', 'published': 'yesterday'}),
        'badctx': lambda: Resp({'@context': 'https://unknown.example/', 'type': 'Note'}),
        'list': lambda: Resp([note]), 'null': lambda: Resp(None), 'num': lambda: Resp(5),
        'text': lambda: Resp('text'), 'emptydict': lambda: Resp({}), 'emptylist': lambda: Resp([]),
    }
    w['fetch'].clear()
    f = factory(family)
    o = f.Note(id='https://h.example/1') if prop != 'first' else f.Collection(id='https://h.example/1')
    ref = f.Link(href=url) if given == 'link' else url
    ok(lambda: setattr(o, prop, ref), f'{prop} = {given}')
    stored = getattr(o, prop)         # nothing can be fetched yet
    if family == 'engine':
        check(isinstance(stored, w['models'].Link) and stored.href == url,
              f'{prop} = {given}, nothing to fetch', stored)
    if table[fault] is not None:
        w['fetch'][url] = table[fault]
    w['asked'].clear()
    try:
        got = ok(lambda: getattr(o, prop), f'reading {prop}, fetch: {fault}')
    finally:
        w['fetch'].clear()
    asked = [h for u, h in w['asked'] if u == url]    # (decoding may ask for contexts)
    check(len(asked) <= 1 and all('application/ld+json' in {
        x.lower(): y for x, y in h.items()}.get('accept', '') for h in asked),
        f'reading {prop}: not one request for JSON-LD', w['asked'])
    if fault.startswith('ok') and family == 'engine':
        cls = {'ok': 'Note', 'okperson': 'Person', 'okcoll': 'CollectionPage'}[fault]
        check(type(got) is w['engine'].__dict__[cls], f'reading {prop}: no {cls}', got.__class__)
        check(got.id == url, f'reading {prop}: id', got.id)
        if fault == 'ok':
            check(got.content == 'hello', f'reading {prop}: content', got.content)
    else:
        check(got is stored, f'reading {prop}, fetch: {fault}: not the stored link', got)
    check(getattr(o, prop) is stored, f'reading {prop}, fetch: {fault}: what is stored changed',
          getattr(o, prop))
    if family == 'engine':
        out = ok(lambda: o.data(include=(prop,)), 'data()')[prop]
        check(out == url, f'JSON form of {prop}', out)


def r_expand_other(theirs):
    """a link of one engine, kept by an object of another one"""
    import activitystreams
    w = world()
    url = 'https://fetch.example/o'
    if 'second' not in w:
        w['second'] = activitystreams.create_engine()
    owner, other = w['engine'], w['second']
    o = owner.Note(id='https://h.example/1')
    link = {'second': other, 'plain': w['models'], 'own': owner}[theirs].Link(href=url)
    ok(lambda: setattr(o, 'attachment', link), f'attachment = a link ({theirs})')
    w['fetch'][url] = lambda: Resp({'@context': NS, 'type': 'Note', 'id': url})
    try:
        got = ok(lambda: o.attachment, f'reading a link ({theirs})')
    finally:
        w['fetch'].clear()
    if theirs == 'plain':       # of no package: the object's engine, or nothing
        check(got is link or type(got) is owner.Note, f'reading a link ({theirs})', got)
    else:
        want = other if theirs == 'second' else owner
        check(type(got) is want.Note, f'reading a link ({theirs}): decoded by another engine', type(got))


def r_expand_plain(value, family):
    """references that are no links are read back as they are"""
    w = world()
    Link = w['models'].Link
    val = build(value, family, [])
    o = factory(family).Note(id='https://h.example/1')
    got = ok(lambda: Link.expand(lambda obj: val)(o), f'reading {short(val)}')
    check(got is val, f'reading {short(val)}', got)


FAULTS = ('ok okperson okcoll none timeout oserror value key runtime assertion attribute type '
          'nojson unknown untyped badfield badctx list null num text emptydict emptylist').split()


def gen_c26(run):
    base = ([['url', i] for i in range(len(URLS))] + [['mail', i] for i in range(len(MAILS))] +
            [['lit', s] for s in PLAIN] + [['lit', x] for x in (None, 0, 1, 1.5, True)] +
            [['lit', d] for d, _ in LINKDICTS] +
            [[k] for k in ('obj', 'coll', 'link', 'mention', 'dt', 'td', 'bytes', 'other')])
    for fam in ('plain', 'engine'):
        for b in base:
            yield 'from_str', dict(value=b, family=fam)
            yield 'href_only', dict(value=b, family=fam)
            if b[0] not in ('link', 'mention'):
                yield 'expand_plain', dict(value=b, family=fam)
            for t in ('list', 'tuple'):
                yield 'from_str', dict(value=[t, [b]], family=fam)
                yield 'href_only', dict(value=[t, [b]], family=fam)
                yield 'from_str', dict(value=[t, [['url', 1], b, ['list', [b, ['url', 2]]]]], family=fam)
                yield 'href_only', dict(value=[t, [['link', 1], b, ['mention', 2]]], family=fam)
        yield 'from_str', dict(value=['set', [['url', 0], ['url', 1], ['lit', 'x'], ['mail', 0]]], family=fam)
        yield 'from_str', dict(value=['set', []], family=fam)
        yield 'from_str', dict(value=['list', []], family=fam)
    for fam in ('plain', 'engine'):
        yield 'href_only', dict(value=['list', [['nolink'], ['link', 1], ['nolink']]], family=fam)
        yield 'href_only', dict(value=['nolink'], family=fam)
    for t in ('own', 'second', 'plain'):
        yield 'expand_other', dict(theirs=t)
    for f in FAULTS:
        for p in ('attachment', 'replies', 'url', 'tag', 'first', 'inReplyTo'):
            for g in ('url', 'link'):
                if p == 'replies':
                    continue
                yield 'expand', dict(fault=f, prop=p, given=g)
    r = run.rng

    def rnd(d):
        if d and r.random() < .5:
            return [r.choice(['list', 'tuple']), [rnd(d - 1) for _ in range(r.randint(0, 4))]]
        return r.choice(base)
    while run.timeleft() > 0 and run.evaluations < 4000 * (10 if run.tier == 'thorough' else 1):
        yield r.choice(['from_str', 'href_only']), dict(value=rnd(4), family=r.choice(['plain', 'engine']))


# ======================================================================== C27
PLAIN_VALUES = [0, '', 'x', None, [], [1, 2], {}, {'a': 1}, False, 'https://a.example/x', 5, 1.5]


def r_construct(cls, family, args, total=None, type_=None, expect_total=None, n=0):
    """args: {property: value description or index of PLAIN_VALUES}"""
    w = world()
    f = factory(family)
    K = getattr(f, cls)
    names = VOCAB[cls]
    kw = {}
    if family == 'plain':
        for p, i in args.items():
            kw[p] = PLAIN_VALUES[i] if i < len(PLAIN_VALUES) else Other()
    else:
        for p, k in args.items():
            kw[p] = (make(k, n, 'engine') if not isinstance(k, list) else
                     [make(x, n + j, 'engine') for j, x in enumerate(k)])
    given = dict(kw)
    if total is not None:
        kw['totalItems'] = total
    if type_ is not None:
        kw['type'] = type_
    what = f'{family} {cls}({", ".join(sorted(kw))})'
    if cls in ('Relationship', 'Place', 'Profile', 'Tombstone') and 'id' not in kw:
        kw['id'] = None          # a required argument
    o = ok(lambda: K(**kw), what)
    for p in names:
        if p == 'startIndex' and p not in given:
            check(o.startIndex == 0, f'{what}: startIndex', o.startIndex)
            continue
        got = ok(lambda: getattr(o, p), f'{what}: reading {p}')
        if p not in given:
            check(got is None, f'{what}: {p} was not given, yet reads', got)
        elif family == 'plain':
            if p == 'startIndex':
                check(got == given[p] or not given[p] and got == 0, f'{what}: {p}', got, given[p])
            else:
                check(got is given[p], f'{what}: {p}', got, given[p])
        elif isinstance(args[p], list):
            check(isinstance(got, list) and len(got) == len(args[p]), f'{what}: {p}', got)
            for k, v, g in zip(args[p], given[p], got):
                if not (p == 'closed' and k == 'dtstr') and p not in NOT_LINKED:
                    check_value(p, k, v, g, f'{what}: {p}')
        elif p in NOT_LINKED:
            check(got is given[p], f'{what}: {p}', got)
        else:
            check_value(p, args[p], given[p], got, f'{what}: {p}')
    if cls in COLLECTIONS:
        if total is not None:
            want = total
        else:
            it = given.get('items')
            want = len(it) if hasattr(it, '__len__') else 0
            if family == 'engine' and 'items' in args and not isinstance(args['items'], list):
                want = None      # a single item: its number is not documented
        if want is not None:
            check(o.totalItems == want, f'{what}: totalItems', o.totalItems, want)
        its = o.items
        if its is None or isinstance(its, (list, tuple)):
            got = ok(lambda: list(o), f'{what}: iterating')
            check(len(got) == len(its or ()) and all(a is b for a, b in zip(got, its or ())),
                  f'{what}: iterating gives', got, its)
    if family == 'engine' and cls in ('Object', 'Link'):
        check(o.type == type_, f'{what}: type', o.type, type_)
    else:
        check(o.type == cls, f'{what}: type', o.type)


def r_hierarchy(child, parent, family):
    f = factory(family)
    check(issubclass(getattr(f, child), getattr(f, parent)), f'{family}: {child} is no {parent}')
    check(getattr(f, child).__get_namespace__() == f'{NS}#{child}', f'{family} {child}: namespace')


def gen_c27(run):
    for fam in ('plain', 'engine'):
        for c, p in PARENT.items():
            yield 'hierarchy', dict(child=c, parent=p, family=fam)
    r = run.rng

    def pick(p):
        good = sorted(k for k in RANGE[p] if k != '*')
        if '*' in RANGE[p] and r.random() < .3:
            good = [k for k in good if k != 'dtstr'] if p == 'closed' else good
            return [r.choice(good) for _ in range(r.randint(0, 3))]
        return r.choice(good)

    def one(c, fam, names):
        if fam == 'plain':
            args = {p: (r.randrange(len(PLAIN_VALUES) + 1)) for p in names}
            if 'startIndex' in args:
                args['startIndex'] = r.choice([0, 10])
            if c in COLLECTIONS and 'items' in args and r.random() < .7:
                args['items'] = r.choice([4, 5, 4, 5, 3])
        else:
            args = {p: pick(p) for p in names}
        return 'construct', dict(cls=c, family=fam, args=args, n=r.randrange(6),
                                 total=r.choice([None, None, 0, 3]) if c in COLLECTIONS else None,
                                 type_=r.choice([None, 'Custom']))
    for fam in ('plain', 'engine'):
        for c in VOCAB:
            yield one(c, fam, [])
            yield one(c, fam, VOCAB[c])
            for p in VOCAB[c]:
                yield one(c, fam, [p])
    while run.timeleft() > 0 and run.evaluations < 8000 * (10 if run.tier == 'thorough' else 1):
        c = r.choice(sorted(VOCAB))
        yield one(c, r.choice(['plain', 'engine']),
                  [p for p in VOCAB[c] if r.random() < r.choice([.1, .5, .9])])


# ======================================================================== C24
def synth(classes, props, mapping, tag, via=()):
    """classes: [[bases (indexes), namespace, own property or None]]; props: [namespace];
    via: classes that inherit from their first base by a class in no package"""
    from jsonld.base import JsonProperty, contextualproperty
    from jsonld.jsonld import PropertyJsonLD
    out = []
    for i, (bases, ns, own) in enumerate(classes):
        b = tuple(out[j] for j in bases) or (PropertyJsonLD,)
        if i in via:
            b = (type(f'Mid{i}{tag}', b[:1], {f'mid{i}': i}), *b[1:])

        def init(self, **kw):
            PropertyJsonLD.__init__(self, acontext=kw.pop('acontext', None))
            for k, v in kw.items():
                setattr(self, k, v)
        d = {'__init__': init, 'ns_': ns,
             'who': (lambda self, i=i: (tag, i)), f'only{i}': (lambda self, i=i: (tag, i)),
             'const': (tag, i), 'static': staticmethod(lambda *a, i=i: (a, tag, i)),
             'named': classmethod(lambda cls, i=i: (cls.__name__, tag, i)),
             'Inner': type(f'Inner{i}', (), {}), 'part': functools.partial(pow, 2),
             'give': (lambda self, x: x), '_give': (lambda self, x: x),
             '__call__': (lambda self, x: x), 'sgive': staticmethod(lambda x: x),
             'cgive': classmethod(lambda cls, x: x)}
        if not bases or i % 2:
            # the others find theirs by the one they inherit
            d['__get_namespace__'] = classmethod(lambda cls: cls.ns_)
        if own:
            def get(self, own=own):
                return getattr(self, '_' + own, None)
            get.__name__ = own
            p = contextualproperty(get)
            p = p.setter(lambda self, v, own=own: setattr(self, '_' + own, v))
            d[own] = p
        try:
            out.append(type(f'C{i}{tag}', b, d))
        except TypeError:
            return None                 # no such hierarchy in Python
    pout = []
    for i, (ns, name, *parent) in enumerate(props):
        def get(self, name=name):
            return getattr(self, '_m_' + name, None)
        get.__name__ = name
        p = contextualproperty(get)
        p = p.setter(lambda self, v, name=name: setattr(self, '_m_' + name, v))
        pout.append(type(f'P{i}{tag}', (pout[parent[0]] if parent else JsonProperty,), {
            name: p, '__get_namespace__': classmethod(lambda cls, ns=ns: ns)}))
    return out, pout, {classes[c][1]: tuple(props[p][0] for p in ps) for c, ps in mapping}


def names_of(spec):
    return {p[0]: p[1] for p in spec['props']}


def snapshot(classes):
    return {c: ({k: v for k, v in c.__dict__.items()}, c.__bases__, c.__name__) for c in classes}


def check_unchanged(snap, what):
    for c, (d, b, n) in snap.items():
        now = dict(c.__dict__)
        # reading a class caches what it found out about it
        for cache in ('__properties__', '__property_name__', '__registration__'):
            now.pop(cache, None)
            d.pop(cache, None)
        check(set(now) == set(d), f'{what}: original class {n} has other attributes',
              sorted(set(now) ^ set(d)))
        for k in d:
            check(now[k] is d[k], f'{what}: {n}.{k} of an original class changed')
        check(c.__bases__ == b, f'{what}: bases of original class {n} changed')


def linked(pkg_map, ns_of, mro_ns, own, pname):
    out = set()
    for ns in mro_ns:
        out |= {pname[p] for p in pkg_map.get(ns, ())}
    return out | own


def build_pkg(spec, tag, ns=None):
    from jsonld.package import JsonLdPackage
    try:
        s = synth(spec['classes'], spec['props'], spec['mapping'], tag, spec.get('via') or ())
    except TypeError:
        s = None
    if s is None:
        return None
    objs, props, mapping = s
    for i in spec.get('known') or ():
        # what a class found out about itself is of no consequence
        if i < len(props):
            check(props[i].__get_property_name__() == spec['props'][i][1], 'name of a property')
            props[i].__get_registration__()
        if i < len(objs):
            objs[i].__get_properties__()
    snap = snapshot(objs + props)
    order = spec.get('order') or list(range(len(objs)))
    pkg = ok(lambda: JsonLdPackage(namespace=ns or 'https://p.example/' + tag,
                                   objects=[objs[i] for i in order], properties=props,
                                   property_mapping=mapping), f'building a package of {spec}')
    check_unchanged(snap, f'building a package of {spec}')
    return pkg, objs, props, mapping, snap


def base_names():
    from jsonld.jsonld import PropertyJsonLD
    return set(PropertyJsonLD.__get_properties__())


def check_pkg(pkg, objs, props, mapping, spec, tag):
    names = [c[1] for c in spec['classes']]
    clones = []
    for i, (o, ns) in enumerate(zip(objs, names)):
        c = pkg[ns]
        check(isinstance(c, type) and c is not o and c.__name__ == o.__name__ and
              issubclass(c, o), f'package {spec}: {ns} is no clone of its class', c)
        check(c.__get_namespace__() == ns, f'{ns}: namespace of the clone')
        check(c in pkg.objects, f'{ns}: the clone is not among the objects')
        clones.append(c)
    check(len(pkg.objects) == len(objs), 'number of classes', pkg.objects)
    for i, a in enumerate(objs):
        for j, b in enumerate(objs):
            check(issubclass(clones[i], clones[j]) == issubclass(a, b),
                  f'{spec}: clone {i} is a subclass of clone {j}: {issubclass(clones[i], clones[j])}')
        mro = [m for m in clones[i].__mro__ if m in clones]
        want = [clones[objs.index(m)] for m in a.__mro__ if m in objs]
        check(mro == want, f'{spec}: order of inheritance of clone {i}', mro, want)
        o = ok(lambda: clones[i](), f'{spec}: constructing clone {i}')
        check(o.who() == a().who() and o.const == a.const, f'{spec}: clone {i} behaves otherwise',
              o.who())
        for f in (lambda x: x.static(1), lambda x: x.named(), lambda x: x.Inner, lambda x: x.part(3)):
            for x, y in ((o, a()), (clones[i], a)):
                got = ok(lambda: f(x), f'{spec}: clone {i}')
                check(got == f(y), f'{spec}: clone {i} behaves otherwise', got, f(y))
        for k in range(len(objs)):
            check(hasattr(o, f'only{k}') == hasattr(a, f'only{k}'), f'{spec}: methods of clone {i}')
    for p, (ns, name, *_) in zip(props, spec['props']):
        c = pkg[ns]
        check(isinstance(c, type) and c is not p and issubclass(c, p) and c in pkg.properties,
              f'{ns}: no clone of the property', c)
    check(pkg['https://nowhere.example'] is None, 'unknown namespace')
    check(pkg[names] == clones, 'several namespaces at once')
    check(pkg[names + ['https://nowhere.example'] + names[::-1]] == clones + [None] + clones[::-1],
          'several namespaces, again and unknown ones')
    check(pkg[tuple(names[:1] * 2)] == clones[:1] * 2, 'the same namespace twice')
    pname = names_of(spec)
    for i, a in enumerate(objs):
        anc = [j for j, b in enumerate(objs) if issubclass(a, b)]
        want = base_names()
        for j in anc:
            want |= {pname[p] for p in mapping.get(names[j], ())}
            if spec['classes'][j][2]:
                want.add(spec['classes'][j][2])
        got = set(clones[i].__get_properties__())
        check(got == want, f'{spec}: properties of clone {i}', sorted(got), sorted(want))
        for j in anc:
            for p in mapping.get(names[j], ()):
                o = clones[i]()
                v = Other()
                ok(lambda: setattr(o, pname[p], v), f'setting {pname[p]} of clone {i}')
                check(getattr(o, pname[p]) is v, f'{spec}: {pname[p]} of clone {i}')
                oo = a()
                check(not hasattr(oo, pname[p]), f'{spec}: the original has property {pname[p]}')


def r_package(spec):
    b = build_pkg(spec, 'a')
    if b is None:
        return
    pkg, objs, props, mapping, snap = b
    check_pkg(pkg, objs, props, mapping, spec, 'a')
    check_unchanged(snap, 'using the package')
    check_handed_out(pkg, objs, spec, mapping)
    check_unchanged(snap, 'what is handed out')
    check_pkg(pkg, objs, props, mapping, spec, 'a')


def check_handed_out(pkg, objs, spec, mapping):
    """objects of the original classes, returned by methods or read from
    properties, become objects of the package and keep what they hold"""
    names = [c[1] for c in spec['classes']]
    clones = [pkg[ns] for ns in names]
    pname = names_of(spec)
    for i, a in enumerate(objs):
        own = [spec['classes'][j][2] for j, b in enumerate(objs) if issubclass(a, b)
               and spec['classes'][j][2]]
        hands = {'give': lambda o, x: o.give(x), '_give': lambda o, x: o._give(x),
                 '__call__': lambda o, x: o(x), 'sgive': lambda o, x: o.sgive(x),
                 'cgive': lambda o, x: o.cgive(x), 'of the class': lambda o, x: type(o).give(o, x),
                 'static': lambda o, x: type(o).sgive(x), 'of the class itself': lambda o, x: type(o).cgive(x)}
        others = sorted(hands)
        others.remove('give')
        ways = ['give', 'acontext', others[(i + len(objs)) % 7], others[(2 * i + 3) % 7]] + own + [
            pname[p] for j, b in enumerate(objs) if issubclass(a, b) for p in mapping.get(names[j], ())]
        for k, way in enumerate(ways[:6]):
            t = (i + 3 * k) % len(objs)
            x = objs[t]()
            x.acontext = ['kept']
            mine = [spec['classes'][j][2] for j, b in enumerate(objs) if issubclass(objs[t], b)
                    and spec['classes'][j][2]]
            for n, m in enumerate(mine):
                setattr(x, m, ('value', n))
            x.plain = 5
            o = clones[i]()
            if way in hands:
                y = ok(lambda: hands[way](o, x), f'{spec}: returning an original object by {way}')
            else:
                setattr(o, way, x)
                y = ok(lambda: getattr(o, way), f'{spec}: reading {way}')
            what = f'{spec}: an object of class {t}, by {way} of clone {i}'
            check(type(y) is clones[t], f'{what}, is no object of the package', type(y))
            check(y is x and y.plain == 5 and y.acontext == ['kept'], f'{what}: lost what it held')
            for n, m in enumerate(mine):
                check(getattr(y, m) == ('value', n), f'{what}: lost property {m}', getattr(y, m))
            check(y.__context__.context is None, f'{what}: its context', y.__context__.context)
            check(set(y.__properties__) == set(clones[t].__get_properties__()),
                  f'{what}: has other properties', y.__properties__)
            check(y.__get_namespace__() == names[t] and y.__namespace__ == names[t],
                  f'{what}: its namespace')
            for c, ns in zip(clones, names):
                check(c.__get_namespace__() == ns, f'{what}: changes the namespace of {ns}',
                      c.__get_namespace__())
            for other in (None, 5, 'x', [objs[t]()], {'a': objs[t]()}, Other(), clones[t]()):
                kinds = type(other), [type(q) for q in other] if type(other) is list else None
                y = o.give(other)
                check(y is other and kinds == (type(y), [type(q) for q in y] if type(y) is list else None),
                      f'{what}: another value is changed', y)


def check_linked(pkg, given, mapping, pname, what):
    """an object of one of the classes given (by namespace) comes out of a
    linked property as one of the package"""
    classes = [n for n in given if hasattr(given[n], 'const')]
    for i, (ns, ps) in enumerate(sorted(mapping.items())):
        for k, p in enumerate(ps[:2]):
            t = sorted(classes)[(i + 2 * k) % len(classes)]
            x, o = given[t](), pkg[ns]()
            x.plain = 5
            setattr(o, pname[p], x)
            y = ok(lambda: getattr(o, pname[p]), f'{what}: reading {pname[p]} of {ns}')
            check(y is x and type(y) is pkg[t] and y.plain == 5,
                  f'{what}: an object of {t} read from {pname[p]} of {ns}', type(y))


def r_packages(left, right):
    from jsonld.package import JsonLdPackage
    a = build_pkg(left, 'a')
    b = build_pkg(right, 'b')
    if a is None or b is None:
        return
    A, B = a[0], b[0]
    snapA, snapB = snapshot(A.objects + A.properties), snapshot(B.objects + B.properties)
    refsA = {ns: A[ns] for ns in [c[1] for c in left['classes']] + [p[0] for p in left['props']]}
    refsB = {ns: B[ns] for ns in [c[1] for c in right['classes']] + [p[0] for p in right['props']]}

    def tag(c):
        return c.const if hasattr(c, 'const') else c.__name__
    try:
        S = A + B
    except TypeError as e:
        # classes of the two cannot be put into one hierarchy
        check('MRO' in str(e) or 'order' in str(e), 'adding packages', e)
        S = None
    if S is not None:
        want = {**refsA, **refsB}
        for ns, c in want.items():
            check(S[ns] is not None and issubclass(S[ns], c),
                  f'sum of {left} and {right}: {ns} is not that of the winning package', S[ns])
            check(tag(S[ns]) == tag(c), f'sum: {ns} behaves otherwise')
        check(len(S.objects) + len(S.properties) == len(want), 'sum: number of namespaces',
              S.objects, S.properties)
        check(S.namespace == A.namespace, 'sum: its own namespace', S.namespace)
        pn = {**names_of(left), **names_of(right)}
        mp = {**a[3], **b[3]}
        for ns in {**a[3], **b[3]}:
            have = set(S[ns].__get_properties__())
            for p in mp[ns]:
                check(pn[p] in have, f'sum: {ns} lacks property {pn[p]}', sorted(have))
        check_linked(S, want, mp, pn, f'sum of {left} and {right}')
        of = {S[ns]: ns for ns in want}
        for ns in [c[1] for c in left['classes'] + right['classes']]:
            kin = [of[c] for c in S.objects if c in of and issubclass(S[ns], c)]
            allowed = {p for k in kin for p in want[k].__get_properties__()} | {
                pn[p] for k in kin for p in mp.get(k, ())}
            more = set(S[ns].__get_properties__()) - allowed
            check(not more, f'sum of {left} and {right}: {ns} has more than the winning mapping says', more)
    D = ok(lambda: A - B, f'{left} minus {right}')
    for ns, c in refsA.items():
        if ns in refsB:
            check(D[ns] is None, f'difference of {left} and {right} still has {ns}', D[ns])
        else:
            check(D[ns] is not None and issubclass(D[ns], c), f'difference of {left} and {right} '
                  f'lacks {ns}', D[ns])
    check(len(D.objects) + len(D.properties) == len([n for n in refsA if n not in refsB]),
          'difference: number of namespaces')
    pn = names_of(left)
    for ns, ps in a[3].items():
        if ns in refsB:
            continue
        have = set(D[ns].__get_properties__())
        for p in ps:
            if p not in refsB:
                check(pn[p] in have, f'difference: {ns} lacks property {pn[p]}', sorted(have))
    check_linked(D, {n: c for n, c in refsA.items() if n not in refsB},
                 {n: [p for p in ps if p not in refsB] for n, ps in a[3].items() if n not in refsB},
                 pn, f'difference of {left} and {right}')
    for ns, c in refsA.items():
        check(A[ns] is c, f'combining packages changed {ns} of the left one')
    for ns, c in refsB.items():
        check(B[ns] is c, f'combining packages changed {ns} of the right one')
    check_unchanged(snapA, 'combining packages (left)')
    check_unchanged(snapB, 'combining packages (right)')
    check_unchanged(a[4], 'combining packages (originals)')
    check_unchanged(b[4], 'combining packages (originals)')
    for bad in (None, 5, 'x', {}):
        raises(lambda: A + bad, TypeError, f'package + {bad!r}')
        raises(lambda: A - bad, TypeError, f'package - {bad!r}')


def r_engines(left, right, ns=None):
    from jsonld import JsonLdEngine
    a = build_pkg(left, 'a', ns)
    b = build_pkg(right, 'b', ns)
    if a is None or b is None:
        return
    A, B = a[0], b[0]
    nsA, nsB = [c[1] for c in left['classes']], [c[1] for c in right['classes']]
    for how in ('list', 'package', 'engine'):
        try:
            E = {'list': lambda: JsonLdEngine([A, B]), 'package': lambda: JsonLdEngine(A) + B,
                 'engine': lambda: JsonLdEngine(A) + JsonLdEngine(B)}[how]()
        except TypeError as e:
            check('MRO' in str(e) or 'order' in str(e), 'adding engines', e)
            continue
        for ns in {*nsA, *nsB}:
            c = E.class_registry.get(ns)
            want = (B if ns in nsB else A)[ns]
            check(c is not None and issubclass(c, want), f'engine of two packages ({how}): {ns}', c)
        check(set(E.class_registry) == {*nsA, *nsB}, f'engine of two packages ({how})',
              sorted(E.class_registry))
    if [n for n in nsA if n not in nsB]:
        for how in ('package', 'engine'):
            E = ok(lambda: JsonLdEngine(A) - (B if how == 'package' else JsonLdEngine(B)),
                   'subtracting from an engine')
            check(set(E.class_registry) == set(nsA) - set(nsB), f'engine minus {how}',
                  sorted(E.class_registry))


def rnd_spec(r, nsoff=0, size=5):
    n = r.randint(1, size)
    classes = []
    for i in range(n):
        bases = sorted(r.sample(range(i), min(i, r.choice([0, 1, 1, 1, 2, 2, 3]))), reverse=True)
        # a base that is an ancestor of another base comes after it
        classes.append([bases, f'https://n.example/c{i + nsoff}',
                        f'own{i}' if r.random() < .3 else None])
    np = r.randint(0, 4)
    props = [[f'https://n.example/p{i + nsoff}', f'prop{i + nsoff}'] for i in range(np)]
    for i in range(1, np):
        if r.random() < .3:
            props[i].append(r.randrange(i))
    mapping = [[c, sorted(r.sample(range(np), r.randint(0, np)))]
               for c in range(n) if r.random() < .6]
    order = list(range(n))
    if r.random() < .5:
        r.shuffle(order)
    spec = {'classes': classes, 'props': props, 'mapping': mapping, 'order': order}
    if r.random() < .2:
        spec['via'] = r.sample(range(n), r.randint(1, n))
    if r.random() < .5:
        spec['known'] = r.sample(range(max(n, np)), r.randint(0, max(n, np)))
    return spec


def gen_c24(run):
    chain = {'classes': [[[], 'https://n.example/c0', None], [[0], 'https://n.example/c1', 'own1'],
                         [[1], 'https://n.example/c2', None], [[1], 'https://n.example/c3', None],
                         [[3, 2], 'https://n.example/c4', None]],
             'props': [['https://n.example/p0', 'prop0'], ['https://n.example/p1', 'prop1']],
             'mapping': [[0, [0]], [2, [0, 1]]]}
    family = {**chain, 'props': [['https://n.example/p0', 'prop0'], ['https://n.example/p1', 'prop1', 0],
                                 ['https://n.example/p2', 'prop2', 1]], 'mapping': [[0, [0, 2]], [3, [1]]]}
    for known in ([], [0], [1], [0, 1], [2, 1, 0], [0, 1, 2, 3, 4], [4]):
        yield 'package', dict(spec={**family, 'known': known})
    for order in ([0, 1, 2, 3, 4], [4, 3, 2, 1, 0], [2, 4, 0, 3, 1]):
        yield 'package', dict(spec={**chain, 'order': order})
    for via in ([1], [1, 3], [0, 1, 2, 3, 4], [4]):
        yield 'package', dict(spec={**chain, 'via': via})
    yield 'packages', dict(left={**chain, 'via': [1, 2]}, right={**chain, 'via': [3, 4]})
    yield 'package', dict(spec={'classes': [], 'props': [], 'mapping': [], 'order': []})
    yield 'packages', dict(left=chain, right=chain)
    yield 'engines', dict(left=chain, right=chain)
    yield 'engines', dict(left=chain, right=chain, ns='https://p.example/one')
    r = run.rng
    while run.timeleft() > 0 and run.evaluations < 1200 * (10 if run.tier == 'thorough' else 1):
        k = r.random()
        if k < .4:
            yield 'package', dict(spec=rnd_spec(r, 0, 7))
        else:
            d = dict(left=rnd_spec(r), right=rnd_spec(r, r.choice([0, 1, 3, 9])))
            if k >= .9:
                d['ns'] = 'https://p.example/one'
            yield ('packages' if k < .8 else 'engines'), d


# ======================================================================== C25
SCALARS = ['', 'x', 'hello', 0, 1, -5, 1.5, 0.0, True, False, None, 'https://a.example/x']
SPROPS = ['pa', 'pb', 'pc', 'pd']
SCLASSES = {'Thing': ['pa', 'pb'], 'Sub': ['pa', 'pb', 'pc'], 'Lone': ['pd']}


def synth_engine():
    w = world()
    if 'synth' in w:
        return w['synth']
    from jsonld import JsonLdEngine, JsonLdPackage, ApplicationActivityJson
    from jsonld.base import JsonProperty, contextualproperty
    ps = []
    for name in SPROPS:
        def get(self, name=name):
            return getattr(self, '_s_' + name, None)
        get.__name__ = name
        p = contextualproperty(get)
        p = p.setter(lambda self, v, name=name: setattr(self, '_s_' + name, v))
        ps.append(type('P' + name, (JsonProperty,), {
            name: p, '__get_namespace__': classmethod(lambda cls, name=name: f'{NS}#dfn-{name}')}))

    def cls(name, bases):
        def init(self, acontext=None, **kw):
            ApplicationActivityJson.__init__(self, acontext=acontext)
            self.given = kw
            for k, v in kw.items():
                try:
                    setattr(self, k, v)
                except AttributeError:
                    pass
        return type(name, bases, {'__init__': init, '__get_namespace__':
                                  classmethod(lambda cls: f'{NS}#{name}')})
    Thing = cls('Thing', (ApplicationActivityJson,))
    Sub = cls('Sub', (Thing,))
    Lone = cls('Lone', (ApplicationActivityJson,))
    pkg = JsonLdPackage(NS, objects=(Thing, Sub, Lone), properties=ps, property_mapping={
        f'{NS}#Thing': (f'{NS}#dfn-pa', f'{NS}#dfn-pb'), f'{NS}#Sub': (f'{NS}#dfn-pc',),
        f'{NS}#Lone': (f'{NS}#dfn-pd',)})
    w['synth'] = JsonLdEngine(pkg)
    return w['synth']


def check_decoded(data, got, e, what):
    if isinstance(data, dict) and typename(data) is not None:
        t = typename(data)
        check(type(got) is e.class_registry[f'{NS}#{t}'], f'{what}: class of {short(data)}',
              type(got))
        for p in SCLASSES[t]:
            if p in data:
                check_decoded(data[p], getattr(got, p), e, what)
            else:
                check(getattr(got, p) is None, f'{what}: {p} of {short(data)}', getattr(got, p))
        want = {p: None for p in SPROPS if p not in SCLASSES[t]}
        for p in want:
            check(not hasattr(got, p), f'{what}: {p} of {short(data)}')
    elif isinstance(data, dict):
        check(type(got) is dict and list(got) == list(data), f'{what}: {short(data)} became', got)
        for k in data:
            check_decoded(data[k], got[k], e, what)
    elif isinstance(data, (list, tuple)):
        check(type(got) is list and len(got) == len(data), f'{what}: {short(data)} became', got)
        for x, y in zip(data, got):
            check_decoded(x, y, e, what)
    else:
        check(type(got) is type(data) and got == data, f'{what}: {data!r} became', got)


def typename(d):
    t = d.get('type', d.get('@type'))
    if isinstance(t, list):
        t = t[0]
    return t.split('#')[-1].split(':')[-1] if t else None


def r_decode(data, as_text):
    world()
    e = synth_engine()
    what = f'decoding {short(data, 600)}'
    arg = json.dumps(data) if as_text else data
    keep = copy.deepcopy(data)
    got = ok(lambda: e.from_json(arg), what)
    check(json.dumps(data) == json.dumps(keep), f'{what}: the data was modified', data)
    check_decoded(keep, got, e, what)
    if as_text:
        check_decoded(keep, ok(lambda: e[arg], what), e, what)
        for many in ([arg, arg], [arg], (arg,), (arg,) * 3):
            l = ok(lambda: e[many], what)
            check(isinstance(l, list) and len(l) == len(many), f'{what}: {len(many)} times in a '
                  f'{type(many).__name__}', l)
            for x in l:
                check_decoded(keep, x, e, what)
        check(ok(lambda: e[[]], 'none') == [], 'no texts')


def r_unknown(data, as_text):
    world()
    e = synth_engine()
    keep = copy.deepcopy(data)
    raises(lambda: e.from_json(json.dumps(data) if as_text else data), ValueError,
           f'decoding {short(data)} of unknown type')
    check(data == keep, f'{short(keep)}: the data was modified', data)


def r_contexts(outer, inner, deep):
    """nested data is decoded in its own context, or in that of what it is in"""
    world()
    e = synth_engine()
    own = {'type': '@type', 'kind': '@type', '@vocab': NS + '#'}
    other = {'sort': '@type', '@vocab': NS + '#'}
    contexts = {'ns': NS, 'own': own, 'other': other, 'list': [NS, own], None: None}
    name = {'ns': 'type', 'own': 'kind', 'other': 'sort', 'list': 'kind'}

    def data(c, t, above, **kw):
        d = {} if c is None else {'@context': contexts[c]}
        return {**d, name[c or above]: t, **kw}
    last = data(deep, 'Lone', inner or outer, pd=5)
    mid = data(inner, 'Sub', outer, pc=[last], pb={'x': 'y'})
    doc = data(outer, 'Thing', outer, pa=mid)
    keep = copy.deepcopy(doc)
    what = f'decoding {short(doc, 600)}'
    for arg in (doc, json.dumps(doc)):
        got = ok(lambda: e.from_json(arg), what)
        check(doc == keep, f'{what}: the data was modified', doc)
        for o, t, c in ((got, 'Thing', outer), (getattr(got, 'pa', None), 'Sub', inner or outer)):
            check(type(o) is e.class_registry[f'{NS}#{t}'], f'{what}: class of the {t}', type(o))
            check(o.acontext == contexts[c], f'{what}: context of the {t}', o.acontext)
        check(got.pa.pb == {'x': 'y'} and type(got.pa.pc) is list and len(got.pa.pc) == 1, f'{what}: values')
        o = got.pa.pc[0]
        check(type(o) is e.class_registry[f'{NS}#Lone'] and o.pd == 5, f'{what}: class of the Lone', type(o))
        check(o.acontext == contexts[deep or inner or outer], f'{what}: context of the Lone', o.acontext)


def r_as_decode(cls, args, n):
    """the vocabulary's own classes"""
    w = world()
    e = w['engine']
    data = {'@context': NS, 'type': cls}
    nested = {}
    for p, k in args.items():
        if k == 'obj':
            nested[p] = r_child = {'type': 'Note', 'content': f'c{n}', 'id': f'https://o.example/{n}'}
            data[p] = dict(r_child)
        else:
            v = make(k, n, 'engine')
            data[p] = v
    keep = copy.deepcopy(data)
    got = ok(lambda: e.from_json(data), f'decoding {short(data)}')
    check(data == keep, f'decoding {short(keep)}: the data was modified', data)
    check(type(got) is e.__dict__[cls], f'decoding {short(keep)}: class', type(got))
    for p, k in args.items():
        if p in nested:
            o = getattr(got, p)
            check(type(o) is e.Note and o.content == nested[p]['content'] and
                  o.id == nested[p]['id'], f'decoding {short(keep)}: {p}', o)
        else:
            check_value(p, k, data[p], getattr(got, p), f'decoding {short(keep)}: {p}')
    check(got.type == cls, f'decoding {short(keep)}: type', got.type)


def gen_c25(run):
    r = run.rng

    def typ(t):
        k = r.random()
        if k < .6:
            return {'type': t}
        if k < .75:
            return {'@type': f'{NS}#{t}'}
        if k < .85:
            return {'type': [t]}
        return {'type': f'as:{t}'}

    def value(d):
        k = r.random()
        if d == 0 or k < .35:
            return r.choice(SCALARS)
        if k < .6:
            return [value(d - 1) for _ in range(r.randint(0, 3))]
        if k < .8:
            return {r.choice(['a', 'b', 'name', 'pa', 'zz']): value(d - 1)
                    for _ in range(r.randint(0, 3))}
        return obj(d - 1)

    def obj(d):
        t = r.choice(sorted(SCLASSES))
        out = typ(t)
        for p in SPROPS:
            if r.random() < .6:
                out[p] = value(d)
        if r.random() < .3:
            out['id'] = 'https://i.example/1'
        if r.random() < .3:
            out['other'] = value(max(0, d - 1))
        return out
    for outer in ('ns', 'own', 'other', 'list'):
        for inner in (None, 'ns', 'own', 'other', 'list'):
            for deep in (None, 'ns', 'own', 'other', 'list'):
                yield 'contexts', dict(outer=outer, inner=inner, deep=deep)
    for t in SCLASSES:
        for s in SCALARS:
            for p in SCLASSES[t]:
                yield 'decode', dict(data={'@context': NS, 'type': t, p: s}, as_text=s == 'x')
                yield 'decode', dict(data={'type': t, p: [s, [s], {'k': s}]}, as_text=False)
    for d in ({'@value': 'x', '@language': 'en'}, {'@id': 'https://i.example/2', 'name': 'n'}, {'id': 'https://i.example/2', 'a': 1},
              {'@list': [1, {'@value': 2}]}, {'@set': ['x'], }, {'@value': 1}, {'': 1}, {'_b': 1, '__c': {'d_': 2}},
              {'a:b': 1, 'https://x.example/p': 'q'}, {'ä': 'ö', 'A': 1, 'a': 2, ' a ': 3}, {'@index': 'i', 'a': 1},
              {'items': [], 'pa': None, 'acontext': 'x'}, {'0': 0, 'None': None, 'k': {}}):
        for p in SCLASSES['Thing']:
            yield 'decode', dict(data={'type': 'Thing', p: d}, as_text=False)
            yield 'decode', dict(data={'@context': NS, 'type': 'Sub', p: [d, {'in': d}]}, as_text=True)
    deep = {'type': 'Thing', 'pa': 'x'}
    for i in range(12):
        deep = {'type': r.choice(['Thing', 'Sub']), 'pa': deep, 'pb': [deep, {'in': deep}]} \
            if i % 4 == 3 else {'type': 'Thing', 'pa': deep}
    yield 'decode', dict(data=deep, as_text=False)
    for t in ('Nothing', 'thing', '', 'Link', 'https://other.example/Thing', 'Default'):
        for extra in ({}, {'pa': 'x'}, {'@context': NS}, {'id': 'https://i.example/1'}):
            for text in (False, True):
                if t:
                    yield 'unknown', dict(data={'type': t, **extra}, as_text=text)
                yield 'unknown', dict(data=dict(extra), as_text=text)
    n = 0
    for c in sorted(VOCAB):
        for p in VOCAB[c]:
            if p in NOT_LINKED:
                continue
            for k in ('obj', 'url', 'str', 'int', 'dtstr'):
                if k in RANGE[p]:
                    n += 1
                    if n % 4 == run.seed % 4:
                        yield 'as_decode', dict(cls=c, args={p: k}, n=n % 6)
                    break
    while run.timeleft() > 0 and run.evaluations < 1500 * (10 if run.tier == 'thorough' else 1):
        d = obj(r.randint(0, 4))
        k = r.random()
        if k < .5:
            d = {'@context': r.choice([NS, 'http://www.w3.org/ns/activitystreams#']), **d}
        yield 'decode', dict(data=d, as_text=r.random() < .4)


RUNNERS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('r_')}
PROPS = {
    'C19': {'gen': gen_c19, 'rule': 'every property x every kind of value, alone and in lists, on '
            'the bare property and on every engine class that has it; then random lists'},
    'C24': {'gen': gen_c24, 'rule': 'random class hierarchies, properties and mappings, in every '
            'order of listing; random pairs of packages and engines'},
    'C25': {'gen': gen_c25, 'rule': 'random data over three synthetic classes, scalars in every '
            'position, every vocabulary class and property; unknown types'},
    'C26': {'gen': gen_c26, 'rule': 'every kind of value alone and nested in lists and tuples; '
            'every kind of failure of fetch and decode'},
    'C27': {'gen': gen_c27, 'rule': 'every class x no, one and all arguments, then random subsets'},
}

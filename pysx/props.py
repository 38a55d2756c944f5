"""Which contracts decide which property."""
from pysx.contracts import collection as col
from pysx.contracts import connection as cxn
from pysx.contracts import construction as mk
from pysx.contracts import container as con
from pysx.contracts import contexts as cxt
from pysx.contracts import database as db
from pysx.contracts import datetimes as dtm
from pysx.contracts import dbmodules as dbm
from pysx.contracts import durations as dur
from pysx.contracts import engine as eng
from pysx.contracts import engines as engs
from pysx.contracts import group as grp
from pysx.contracts import layout
from pysx.contracts import legacy
from pysx.contracts import links
from pysx.contracts import loader
from pysx.contracts import merging as mrg
from pysx.contracts import multi
from pysx.contracts import output as out
from pysx.contracts import packages as pkg
from pysx.contracts import registry as reg
from pysx.contracts import resize as rsz
from pysx.contracts import validation as val
from pysx.contracts import vocabulary as voc

BASIC = ['get', 'has_key', 'insert', 'setdefault', 'update', 'pop', 'clear']


def named(fn, *args):
    def step(run):
        fn(run, *args)
    step.__name__ = ' '.join([fn.__module__.rsplit('.', 1)[1], fn.__name__] + [
        str(a) for x in args for a in (x if isinstance(x, list) else [x])])
    return step


def collections(*names):
    return named(col.ops, list(names) or BASIC)


def groups(*names):
    return named(grp.ops, list(names))


def containers(*names):
    return named(con.ops, list(names))


PROPS = {
    'C01': [collections('get', 'has_key', 'insert', 'update'),
            groups('get', 'has_key', 'insert', 'update with one or none'),
            con.construct, containers('write', 'read', 'has', '__contains__')],
    'C02': [collections('get', 'has_key', 'pop'), groups('get', 'has_key', 'pop'),
            con.construct, containers('delete', 'read', 'has', '__contains__')],
    'C03': [grp.routing, collections(),
            groups('get', 'has_key', 'insert', 'setdefault', 'update', 'update with one or none',
                   'pop', 'clear'), grp.listing],
    'C04': [collections(), col.construct, grp.strictness, con.metrics, cxn.metrics,
            groups('insert', 'setdefault', 'update', 'update with one or none')],
    'C05': [layout.is_prime, layout.generator, layout.number, grp.new, grp.strictness,
            col.construct, layout.new_container],
    'C06': [rsz.condense, rsz.resize],
    'C07': [rsz.condense, rsz.resize],
    'C08': [col.metrics, collections('clear'), grp.metrics, grp.listing, con.metrics,
            cxn.metrics],
    'C09': [col.order, named(mrg.walking, 'keys'), named(mrg.walking, 'items'),
            groups('minKey', 'maxKey', 'popitem')],
    'C10': [named(cxn.operations, op) for op in cxn.OPS] + [cxn.block, cxn.decorated, cxn.opening],
    'C11': [named(cxn.operations, op) for op in cxn.OPS] + [cxn.reading],
    'C12': [db.creation, db.loading, db.opening, db.client, cxn.opening],
    'C13': [multi.reading, multi.construct],
    'C14': [legacy.ops, legacy.creation, legacy.expansion, legacy.connection],
    'C15': [dbm.deletion, dbm.creation, dbm.finding, dbm.modules, dbm.calling, dbm.registry],
    'C16': [cxt.prop, cxt.manager],
    'C17': [out.conversion, out.selection, out.text, out.access, reg.properties],
    'C18': [val.evaluate, val.setter],
    'C19': [named(voc.setting, p) for p in sorted(voc.RANGE)] + [voc.others] + [
        named(voc.linked, p) for p in sorted(voc.RANGE) if p not in voc.NOT_LINKED],
    'C20': [dtm.accepting] + [named(dtm.reading, z) for z in dtm.ZONES] + [
        named(dtm.writing, w) for w in dtm.WRITERS],
    'C21': [named(dur.text, n) for n in dur.WHERE],
    'C22': [named(loader.gate, g) for g in loader.GATES] + [
        named(loader.get, 'RequestsJsonLoader'), named(loader.get, 'CachedRequestsJsonLoader'),
        named(loader.call, 'RequestsJsonLoader'), named(loader.call, 'CachedRequestsJsonLoader')],
    'C23': [named(loader.get, 'RequestsJsonLoader'), named(loader.get, 'CachedRequestsJsonLoader'),
            named(loader.call, 'RequestsJsonLoader'), named(loader.call, 'CachedRequestsJsonLoader')],
    'C24': [reg.name, reg.registration, reg.properties,
            named(pkg.combining, '+'), named(pkg.combining, '-'), pkg.construction, pkg.handing_out,
            named(engs.combining, '+'), named(engs.combining, '-'), engs.construction],
    'C25': [eng.unpacking, eng.decoding, eng.dispatch, eng.registering, eng.items],
    'C26': [links.from_str, links.href_only, links.reading, links.fetching] + [
        named(links.accounts, g) for g in loader.GATES],
    'C27': [mk.hierarchy] + [named(mk.iterating, f) for f in mk.FAMILIES] + [named(mk.construct, n, f) for n in sorted(mk.VOCAB) for f in mk.FAMILIES],
}

TRUSTED_OF = {
    'collection': 'the interface of BTrees.OOBTree.BTree as a map in ascending key order '
                  '(pysx/maps.py: Tree)',
    'uuid': 'str(uuid4()) never repeats',
}

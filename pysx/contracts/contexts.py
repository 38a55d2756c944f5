"""jsonld/base.py: ContextualProperty and JsonContextAwareManager.

The functions registered for the contexts are an arbitrary map, contexts are
arbitrary values and the stack of saved contexts has any depth. Each operation is
checked from an arbitrary state to what can be observed afterwards, so the
properties hold after any sequence of them."""
import z3

from pysx.core import B, I, NONE, Unsupported, Val, contract_error, ctx
from pysx.contracts.collection import BARE
from pysx.contracts.common import outcome
from pysx.sym import Pvx, PvxVal, mkbool, vt
from pysx.transform import Loader

BARE_LD = BARE + ('jsonld', 'jsonld.tools', 'jsonld.engine')
ACCESS = ('get', 'set', 'delete')


class Boom(Exception):
    pass


class Fn(Pvx):
    """a function registered with a property; it can do anything"""

    def __init__(self, t, log):
        self.t, self.log = t, log
        self.__name__ = self.__doc__ = 'prop'

    def pvx_same(self, o):
        return self.t == o.t

    def pvx_callable(self):
        return True

    def __bool__(self):
        return True

    def __call__(self, *a, **k):
        c = ctx()
        res = PvxVal(c.fresh('returned', Val))
        if c.branch(c.fresh('raises', B)):
            e = contract_error(Boom())
            self.log.append((self.t, a, k, 'exc', e))
            raise e
        self.log.append((self.t, a, k, 'ok', res))
        return res


class CtxMap(Pvx):
    """a dictionary from contexts to functions: a map, with some entries on top"""

    def __init__(self, name, log, top=()):
        c = ctx()
        self.has_, self.val = c.func(name + '_has', Val, B), c.func(name + '_at', Val, Val)
        self.log, self.top = log, list(top)

    def key(self, k):
        return vt(k)

    def find(self, k):
        """(present, value) (fork)"""
        c = ctx()
        t = self.key(k)
        for q, v in reversed(self.top):
            if c.branch(q == t):
                return v is not None, v
        if c.branch(self.has_(t)):
            return True, Fn(self.val(t), self.log)
        return False, None

    def pvx_isinstance(self, cls):
        return issubclass(dict, cls)

    def get(self, k, default=None):
        ok, v = self.find(k)
        return v if ok else default

    def __getitem__(self, k):
        ok, v = self.find(k)
        if not ok:
            raise contract_error(KeyError('context'))
        return v

    def __contains__(self, k):
        return self.find(k)[0]

    def keys(self):
        return self

    def __setitem__(self, k, v):
        self.top.append((self.key(k), v))

    def setdefault(self, k, d=None):
        ok, v = self.find(k)
        if not ok:
            self[k] = v = d
        return v

    def pop(self, k, *d):
        ok, v = self.find(k)
        if ok:
            self[k] = None
            return v
        if d:
            return d[0]
        raise contract_error(KeyError('context'))

    pvx_copies = True

    def copy(self):
        r = CtxMap('copy', self.log, self.top)
        r.has_, r.val = self.has_, self.val
        return r

    def __iter__(self):
        raise Unsupported('iteration over the contexts')

    __copy__ = copy

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'dict.{n} of the contexts')


class Owner:
    pass


def prop(run):
    mod = Loader(bare=BARE_LD).load('jsonld.base')
    CP, Manager = mod.ContextualProperty, mod.JsonContextAwareManager

    def h():
        c = ctx()
        log = []
        fns = {}

        def new(name):
            fns[name] = t = c.fresh(name, Val)
            for o in fns.values():
                if o is not t:
                    c.assume(o != t)
            return Fn(t, log)
        given = {a: new('f' + a) if c.choose([True, False]) else None for a in ACCESS}
        how = c.choose(['class', 'wrapper']) if given['get'] and not given['set'] \
            and not given['delete'] else 'class'
        if how == 'wrapper':
            p = mod.contextualproperty(given['get'])
        else:
            p = CP(fget=given['get'], fset=given['set'], fdel=given['delete'], doc='doc')
        # the maps it keeps: from {None: function} to any map with that entry
        attrs = {}
        for n, v in list(vars(p).items()):
            for a, s in (('get', 'fget'), ('set', 'fset'), ('delete', 'fdel')):
                if type(v) is dict and s in n:
                    attrs[a] = n
        if set(attrs) != set(ACCESS):
            raise Unsupported('how a property keeps its functions')
        model = {}
        for a, n in attrs.items():
            d = vars(p)[n]
            if list(d) != [None]:
                raise Unsupported('how a property keeps its functions')
            m = CtxMap(a, log, [(NONE, d[None])])
            setattr(p, n, m)
            # what is expected: by context, or else the default
            model[a] = dict(default=given[a], top=[], has=m.has_, val=m.val)
        props = [(p, model)]
        ops = c.choose(['none', 'derive', 'register', 'derive and register'])
        if 'derive' in ops:
            a = c.choose(list(ACCESS))
            f = new('derived')
            q = {'get': p.getter, 'set': p.setter, 'delete': p.deleter}[a](f)
            c.prove('deriving gives another property', isinstance(q, CP) and q is not p)
            if not isinstance(q, CP) or q is p:
                return
            m2 = {x: {**y, 'top': list(y['top'])} for x, y in model.items()}
            m2[a]['default'] = f
            props.append((q, m2))
        if 'register' in ops:
            i = c.choose(range(len(props)))
            a = c.choose(list(ACCESS))
            f, k = new('registered'), PvxVal(c.fresh('registered_for', Val))
            c.assume(k.t != NONE)
            t, m = props[i]
            r = {'get': t.getter_context, 'set': t.setter_context, 'delete': t.deleter_context}[a](k)(f)
            c.prove('registering gives the property itself', r is t)
            m[a]['top'].append((k.t, f))
        i = c.choose(range(len(props)))
        p, model = props[i]
        cls = type('T', (Owner,), {'prop': p})
        obj = cls()
        k = NONE
        if c.choose(['aware', 'not aware']) == 'aware':
            obj.__context__ = Manager()
            k = c.fresh('context', Val)
            obj.__context__.context = PvxVal(k)
        a = c.choose(list(ACCESS))
        value = PvxVal(c.fresh('value', Val))
        mark = len(log)
        what, r = outcome(lambda: obj.prop if a == 'get' else setattr(obj, 'prop', value)
                          if a == 'set' else delattr(obj, 'prop'))
        m = model[a]
        expected = None
        for q, f in reversed(m['top']):
            if expected is None and c.branch(q == k):
                expected = f.t
        if expected is None and c.branch(z3.And(k != NONE, m['has'](k))):
            expected = m['val'](k)
        if expected is None and m['default'] is not None:
            expected = m['default'].t
        calls = log[mark:]
        if expected is None:
            c.prove(f'{a} without a function: AttributeError', what == 'exc' and
                    isinstance(r, AttributeError) and not calls, repr(r))
            return
        c.prove(f'{a} runs one function', len(calls) == 1, repr(r))
        if len(calls) != 1:
            return
        t, args, kw, kind, res = calls[0]
        c.prove(f'{a} runs the function registered for the context, or else the default',
                t == expected)
        c.prove(f'{a} gives it the object and the value', not kw and len(args) == 1 + (a == 'set')
                and args[0] is obj and (a != 'set' or args[1] is value))
        if a == 'get':
            c.prove('get returns what the function does', (what, r) == (kind, res)
                    if kind == 'exc' else what == 'ok' and r is res, repr(r))
        else:
            c.prove(f'{a} fails as the function does', what == kind and (
                kind == 'ok' or r is res), repr(r))
    run.explore('ContextualProperty', h)
    run.covers(*('jsonld.base:ContextualProperty.' + n for n in (
        '__init__', 'get_context', '__fget', '__fset', '__fdel', 'setter', 'getter', 'deleter',
        'setter_context', 'getter_context', 'deleter_context', '__copy__')),
        'jsonld.base:contextualproperty')


class Stack(Pvx):
    """a list of saved contexts: any number, and those saved from here on"""

    def __init__(self):
        c = ctx()
        self.n, self.at = c.fresh('saved', I), c.func('saved_at', I, Val)
        c.assume(self.n >= 0)
        self.taken, self.top = 0, []

    def pvx_isinstance(self, cls):
        return issubclass(list, cls)

    def append(self, v):
        self.top.append(v)

    def pop(self, i=-1):
        if i != -1:
            raise Unsupported('taken from the middle of the saved contexts')
        if self.top:
            return self.top.pop()
        if not ctx().branch(self.n - self.taken > 0):
            raise contract_error(IndexError('pop from empty list'))
        self.taken += 1
        return PvxVal(self.at(self.n - self.taken))

    def __getitem__(self, i):
        if i == -1 and self.top:
            return self.top[-1]
        raise Unsupported('index of the saved contexts')

    def __bool__(self):
        return True if self.top else ctx().branch(self.n - self.taken > 0)

    def pvx_len(self):
        from pysx.sym import mkint
        return mkint(self.n - self.taken + len(self.top))

    def state(self):
        return self.taken, tuple(self.top)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'list.{n} of the saved contexts')


def manager(run):
    mod = Loader(bare=BARE_LD).load('jsonld.base')

    def same(a, b):
        return vt(a) == vt(b)

    def h():
        c = ctx()
        if c.choose(['own', 'of an object']) == 'own':
            m = mod.JsonContextAwareManager()
            enter = m
        else:
            obj = mod.PropertyAwareObject()
            m = obj.__context__
            c.prove('objects have managers of their own',
                    m is not mod.PropertyAwareObject().__context__)
            enter = obj.switch_context
        c.prove('there is no context to begin with', m.context is None)
        lists = [n for n, v in vars(m).items() if isinstance(v, list)]
        if len(lists) != 1 or vars(m)[lists[0]]:
            raise Unsupported('how contexts are saved')
        saved = Stack()
        setattr(m, lists[0], saved)
        c0 = PvxVal(c.fresh('context', Val))
        m.context = c0
        before = saved.state()

        def block(depth):
            k = PvxVal(c.fresh('inner', Val)) if c.choose(['given', 'none']) == 'given' else None
            old, was = m.context, saved.state()
            w = enter(k) if k is not None or c.choose([1, 2]) == 1 or enter is not m else m()
            x = w.__enter__()
            c.prove('a context is current in its block', same(m.context, k))
            c.prove('the block gets the manager', x is m)
            if depth and c.choose(['plain', 'nested']) == 'nested':
                # deeper ones, by what is proved here, leave no trace
                block(depth - 1)
                c.prove('the context is current again after an inner block', same(m.context, k))
            if c.choose(['ends', 'fails']) == 'ends':
                r = w.__exit__(None, None, None)
            else:
                e = Boom()
                r = w.__exit__(Boom, e, None)
            c.prove('exceptions get out of the block', not r)
            c.prove('leaving a block restores the context before it', same(m.context, old))
            c.prove('leaving a block keeps the saved contexts', saved.state() == was)
        block(2)
        c.prove('nothing is left behind', z3.And(z3.BoolVal(saved.state() == before),
                                                 same(m.context, c0)))
    run.explore('JsonContextAwareManager', h)
    run.covers(*('jsonld.base:JsonContextAwareManager.' + n for n in (
        '__init__', '__call__', '__enter__', '__exit__')),
        'jsonld.base:PropertyAwareObject.switch_context')

"""
Mechanical extraction: reads a module from /repo and instruments its syntax
tree. Nothing is dropped; calls, identity and membership tests, subscripts and
assignments to them, formatted strings, comprehensions, loops and yields are
routed through pysx.hooks / pysx.loops, which do what Python does when the
operands are concrete.
"""
import ast
import builtins
import importlib
import importlib.machinery
import os
import sys
import types

from pysx import hooks, loops

REPO = os.environ.get('VERIF_REPO', '/repo')
ASYNC = True     # coroutines are run by the verifier, not by asyncio
UNTOUCHED = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec', '__import__'}


def name(n, store=False):
    return ast.Name(id=n, ctx=ast.Store() if store else ast.Load())


def call(f, *args):
    return ast.Call(func=name(f), args=list(args), keywords=[])


class Assigned(ast.NodeVisitor):
    """local names a piece of code may assign"""

    def __init__(self):
        self.names = set()

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)

    visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        # only assignment expressions get out of a comprehension
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                self.names.add(x.target.id)
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_Import(self, n):
        for a in n.names:
            self.names.add((a.asname or a.name).split('.')[0])
    visit_ImportFrom = visit_Import


def assigned(stmts):
    a = Assigned()
    for s in stmts:
        a.visit(s)
    return a.names


def own_yield(fn):
    """whether it is a generator"""
    todo = list(fn.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(x))
    return False


def has(node, *types_):
    return any(isinstance(x, types_) for x in ast.walk(node))


# ------------------------------------------------------------------ growing containers
FRESH = {'list', 'dict', 'set'}


def mentions(node, n):
    return any(isinstance(x, ast.Name) and x.id == n for x in ast.walk(node))


def fresh_container(s):
    """the name a statement gives a container nobody else has, or None"""
    if isinstance(s, ast.Assign) and len(s.targets) == 1:
        t, v = s.targets[0], s.value
    elif isinstance(s, ast.AnnAssign) and s.value is not None:
        t, v = s.target, s.value
    else:
        return None
    if not isinstance(t, ast.Name) or mentions(v, t.id):
        return None
    if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or (
            isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in FRESH):
        return t.id
    return None


def only_filled(n, node, methods):
    """every mention of n in the node puts something into it"""
    todo = [node]
    while todo:
        x = todo.pop()
        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(
                x.value.func, ast.Attribute) and isinstance(x.value.func.value, ast.Name) \
                and x.value.func.value.id == n and x.value.func.attr in methods:
            todo += x.value.args + [k.value for k in x.value.keywords]
        elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(
                x.targets[0], ast.Subscript) and isinstance(x.targets[0].value, ast.Name) \
                and x.targets[0].value.id == n and not isinstance(x.targets[0].slice, ast.Slice):
            todo += [x.targets[0].slice, x.value]
        elif isinstance(x, ast.Name) and x.id == n:
            return False
        elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef,
                            ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            if mentions(x, n):
                return False
        else:
            todo += list(ast.iter_child_nodes(x))
    return True


def mark_growing(fn):
    """for each loop of a function, the local variables that only grow in it
    and whose container nothing else can refer to"""
    hidden = {x.id for f in ast.walk(fn) if f is not fn and isinstance(f, (
        ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef))
        for x in ast.walk(f) if isinstance(x, ast.Name)}
    hidden |= {n for x in ast.walk(fn) if isinstance(x, (ast.Global, ast.Nonlocal))
               for n in x.names}

    def own(n, chain):
        for stmts, i, encl in reversed(chain):
            for s in reversed(stmts[:i]):
                if fresh_container(s) == n:
                    return True
                if not mentions(s, n):
                    continue
                if not only_filled(n, s, {'append', 'add', 'extend', 'update'}):
                    return False
            if isinstance(encl, (ast.For, ast.AsyncFor)):
                return n in encl._accs
            if isinstance(encl, ast.While):
                return False
        return False

    def walk(stmts, chain, encl):
        for i, s in enumerate(stmts):
            here = chain + [(stmts, i, encl)]
            if isinstance(s, (ast.For, ast.AsyncFor)):
                inside = assigned(s.body) | assigned([ast.Expr(s.target)])
                s._accs = ()
                s._accs = tuple(sorted(
                    n for n in {x.id for b in s.body for x in ast.walk(b)
                                if isinstance(x, ast.Name)} - inside - hidden
                    if all(only_filled(n, b, {'append', 'add'}) for b in s.body)
                    and not mentions(s.target, n) and own(n, here)))
            for f in ('body', 'orelse', 'finalbody'):
                if isinstance(getattr(s, f, None), list) and not isinstance(s, (
                        ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    walk(getattr(s, f), here, s)
            for h in getattr(s, 'handlers', []):
                walk(h.body, here, s)
    walk(fn.body, [], None)


class Instrument(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.scope = []           # enclosing functions / classes
        self.n = 0
        self.count = {'calls': 0, 'loops': 0, 'comprehensions': 0, 'tests': 0, 'functions': 0}

    def fresh(self):
        self.n += 1
        return f'_pvx_v{self.n}'

    def infn(self):
        return bool(self.scope) and self.scope[-1][0] == 'f'

    def inasync(self):
        return any(k == 'a' for k, _ in self.scope)

    # -- scopes
    def _fn(self, node, kind):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        if node.returns is not None:
            node.returns = None if False else node.returns
        self.count['functions'] += 1
        mark_growing(node)
        self.scope.append((kind, node.name))
        outer = getattr(self, 'globals_', set())
        self.globals_ = {n for x in ast.walk(node) if isinstance(x, ast.Global) for n in x.names}
        body = []
        for s in node.body:
            r = self.visit(s)
            body += r if isinstance(r, list) else [r]
        node.body = body
        self.globals_ = outer
        self.scope.pop()
        return node

    def visit_FunctionDef(self, node):
        return self._fn(node, 'f')

    def visit_AsyncFunctionDef(self, node):
        """a coroutine function becomes one that returns a hooks.Coroutine,
        which runs the body when it is awaited or made a task of"""
        if not ASYNC or own_yield(node):
            return self._fn(node, 'a')
        fn = ast.FunctionDef(**{f: getattr(node, f, None) for f in ast.FunctionDef._fields})
        fn = self._fn(ast.copy_location(fn, node), 'f')
        fn.decorator_list.append(name('_pvx_coroutine'))
        return fn

    def visit_Await(self, node):
        self.generic_visit(node)
        if not ASYNC or self.inasync():
            return node
        return ast.copy_location(call('_pvx_await', node.value), node)

    def visit_AsyncWith(self, node):
        if not ASYNC or self.inasync():
            return self.visit_With(node)
        for i in node.items:
            i.context_expr = call('_pvx_actx', self.visit(i.context_expr))
        w = ast.With(items=node.items, body=node.body, type_comment=None)
        return ast.copy_location(self._blocks(w), node)

    def visit_AsyncFor(self, node):
        if not ASYNC or self.inasync():
            return self.generic_visit(node)
        return ast.copy_location(ast.Expr(call('_pvx_unsupported', ast.Constant('async for'))), node)

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(b) for b in node.bases]
        self.scope.append(('c', node.name))
        node.body = self.block(node.body)
        self.scope.pop()
        return node

    def visit_arguments(self, node):
        node.defaults = [self.visit(d) for d in node.defaults]
        node.kw_defaults = [self.visit(d) if d is not None else None for d in node.kw_defaults]
        return node

    def visit_AnnAssign(self, node):
        if node.value is None:
            return node
        node.value = self.visit(node.value)
        if isinstance(node.target, ast.Name):
            return node
        return self.visit_assign_to(node.target, node.value, node)

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            out += r if isinstance(r, list) else [r]
        return out

    # -- expressions
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and (node.func.id in UNTOUCHED
                                                or node.func.id.startswith('_pvx_')):
            return node
        self.count['calls'] += 1
        if any(k.arg is None for k in node.keywords):
            # f(*a, x=1, **m): the keyword arguments in order
            parts = [ast.Tuple(elts=[ast.Constant(k.arg), k.value], ctx=ast.Load())
                     for k in node.keywords]
            return ast.copy_location(call('_pvx_callkw', node.func, ast.Tuple(
                elts=node.args, ctx=ast.Load()), *parts), node)
        return ast.copy_location(ast.Call(func=name('_pvx_call'), args=[node.func] + node.args,
                                          keywords=node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if not any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in node.ops):
            return node
        if len(node.ops) > 1:
            return node if not any(isinstance(o, (ast.In, ast.NotIn)) for o in node.ops) else node
        o, a, b = node.ops[0], node.left, node.comparators[0]
        f = {ast.Is: '_pvx_is', ast.IsNot: '_pvx_isnot', ast.In: '_pvx_in',
             ast.NotIn: '_pvx_notin'}[type(o)]
        self.count['tests'] += 1
        return ast.copy_location(call(f, a, b), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and (self.infn() or self.inasync()):
            sl = node.slice
            if isinstance(sl, ast.Slice):
                sl = ast.Call(func=name('slice'), args=[
                    x if x is not None else ast.Constant(None)
                    for x in (sl.lower, sl.upper, sl.step)], keywords=[])
            elif isinstance(sl, ast.Tuple) and any(isinstance(e, ast.Slice) for e in sl.elts):
                return node
            return ast.copy_location(call('_pvx_getitem', node.value, sl), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                conv = {-1: '', 115: 's', 114: 'r', 97: 'a'}[v.conversion]
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(conv), spec],
                                       ctx=ast.Load()))
        return ast.copy_location(call('_pvx_fstr', *parts), node)

    # -- comprehensions
    def _comp(self, node, kind):
        def names(t):
            if isinstance(t, ast.Name):
                return [t.id]
            if isinstance(t, ast.Tuple) and all(isinstance(e, ast.Name) for e in t.elts):
                return [e.id for e in t.elts]
            return None
        simple = all(not g.is_async and names(g.target) for g in node.generators) and \
            (self.infn()) and not has(node, ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)
        if not simple:
            for g in node.generators:
                g.iter = self.visit(g.iter)
                g.ifs = [self.visit(x) for x in g.ifs]
            if kind == 'dict':
                node.key, node.value = self.visit(node.key), self.visit(node.value)
            else:
                node.elt = self.visit(node.elt)
            return node
        self.count['comprehensions'] += 1

        def fn(target, expr):
            if isinstance(target, ast.Name):
                return ast.Lambda(args=args(target.id), body=expr)
            # unpacking: bind the names through a nested lambda
            arg, ns = self.fresh(), names(target)
            inner = ast.Lambda(args=args(*ns), body=expr)
            return ast.Lambda(args=args(arg), body=ast.Call(
                func=inner, args=[ast.Starred(value=call('_pvx_unpack', name(arg),
                                                         ast.Constant(len(ns))),
                                              ctx=ast.Load())], keywords=[]))

        def level(gs, kind, pair=False):
            # only the outermost iterable is evaluated at once
            g = gs[0]
            it = self.visit(g.iter)
            ifs = [self.visit(x) for x in g.ifs]
            test = ast.Constant(None)
            if ifs:
                test = fn(g.target, ifs[0] if len(ifs) == 1 else ast.BoolOp(op=ast.And(), values=ifs))
            if len(gs) > 1:
                return call('_pvx_flat', ast.Constant(kind), it, test,
                            fn(g.target, level(gs[1:], 'gen', pair or kind == 'dict')))
            if pair:
                extra = [fn(g.target, ast.Tuple(elts=[self.visit(node.key), self.visit(node.value)],
                                                ctx=ast.Load()))]
            elif kind == 'dict':
                extra = [fn(g.target, self.visit(node.key)), fn(g.target, self.visit(node.value))]
            else:
                extra = [fn(g.target, self.visit(node.elt))]
            return call('_pvx_comp', ast.Constant(kind), it, test, *extra)
        return ast.copy_location(level(node.generators, kind), node)

    def display(self, node):
        self.generic_visit(node)
        if self.infn() and isinstance(getattr(node, 'ctx', None), ast.Load) and any(
                isinstance(e, ast.Starred) for e in node.elts):
            parts = [ast.Tuple(elts=[ast.Constant(isinstance(e, ast.Starred)),
                                     e.value if isinstance(e, ast.Starred) else e],
                               ctx=ast.Load()) for e in node.elts]
            return ast.copy_location(call('_pvx_star', ast.Constant(
                'tuple' if isinstance(node, ast.Tuple) else 'list'), *parts), node)
        if isinstance(node, ast.Tuple):
            return node
        if not self.infn() or isinstance(getattr(node, 'ctx', None), (ast.Store, ast.Del)):
            return node
        return ast.copy_location(call('_pvx_new', node), node)

    visit_List = visit_Set = visit_Tuple = display

    def visit_Dict(self, node):
        if self.infn() and any(k is None for k in node.keys):
            # {**a, k: v}: the parts in order
            parts = [ast.Tuple(elts=[ast.Constant(k is None), self.visit(k) if k is not None
                                     else ast.Constant(None), self.visit(v)], ctx=ast.Load())
                     for k, v in zip(node.keys, node.values)]
            return ast.copy_location(call('_pvx_dict', *parts), node)
        return self.display(node)

    def visit_Lambda(self, node):
        node.args = self.visit(node.args)
        self.scope.append(('f', '<lambda>'))
        node.body = self.visit(node.body)
        self.scope.pop()
        return node

    def visit_ListComp(self, node):
        return self._comp(node, 'list')

    def visit_SetComp(self, node):
        return self._comp(node, 'set')

    def visit_GeneratorExp(self, node):
        return self._comp(node, 'gen')

    def visit_DictComp(self, node):
        return self._comp(node, 'dict')

    # -- yields
    def visit_Yield(self, node):
        if self.inasync():
            return self.generic_visit(node)
        v = self.visit(node.value) if node.value is not None else ast.Constant(None)
        return ast.copy_location(ast.Yield(value=call('_pvx_yield', v)), node)

    def visit_Expr(self, node):
        """`yield from xs` as a statement: yields each of them"""
        if isinstance(node.value, ast.YieldFrom) and self.infn():
            v = self.fresh()
            return self.visit_For(ast.copy_location(ast.For(
                target=name(v, True), iter=node.value.value, body=[ast.copy_location(
                    ast.Expr(ast.Yield(value=name(v))), node)], orelse=[]), node))
        return self.generic_visit(node)

    # -- assignments
    def visit_assign_to(self, target, value, node):
        if isinstance(target, ast.Attribute):
            t = self.visit(target.value)
            return ast.copy_location(ast.Expr(call('_pvx_setattr', t, ast.Constant(
                self.mangle(target.attr)), value)), node)
        if isinstance(target, ast.Subscript) and not isinstance(target.slice, ast.Slice):
            t = self.visit(target.value)
            return ast.copy_location(ast.Expr(call('_pvx_setitem', t, self.visit(target.slice),
                                                   value)), node)
        return None

    def mangle(self, attr):
        """private names of the class the code is in"""
        if attr.startswith('__') and not attr.endswith('__'):
            for k, n in reversed(self.scope):
                if k == 'c':
                    c = n.lstrip('_')
                    return f'_{c}{attr}' if c else attr
        return attr

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        if not (self.infn() or self.inasync()):
            return node
        if len(node.targets) == 1:
            r = self.visit_assign_to(node.targets[0], node.value, node)
            if r is not None:
                return r
            node.targets = [self.store(t) for t in node.targets]
            return node
        v = self.fresh()
        out = [ast.copy_location(ast.Assign(targets=[name(v, True)], value=node.value), node)]
        for t in node.targets:
            r = self.visit_assign_to(t, name(v), node)
            out.append(r if r is not None else ast.copy_location(
                ast.Assign(targets=[self.store(t)], value=name(v)), node))
        return out

    def store(self, t):
        if isinstance(t, ast.Name):
            return t
        if isinstance(t, (ast.Tuple, ast.List)):
            t.elts = [self.store(e) for e in t.elts]
            return t
        if isinstance(t, ast.Starred):
            t.value = self.store(t.value)
            return t
        if isinstance(t, ast.Attribute):
            t.value = self.visit(t.value)
            return t
        if isinstance(t, ast.Subscript):
            t.value = self.visit(t.value)
            t.slice = self.visit(t.slice)
            return t
        return t

    def visit_AugAssign(self, node):
        v = self.visit(node.value)
        t = node.target
        if isinstance(t, ast.Name) or not (self.infn() or self.inasync()):
            node.value = v
            return node
        a = self.fresh()
        out = [ast.copy_location(ast.Assign(targets=[name(a, True)], value=self.visit(t.value)),
                                 node)]
        if isinstance(t, ast.Attribute):
            attr = self.mangle(t.attr)
            cur = ast.Attribute(value=name(a), attr=t.attr, ctx=ast.Load())
            val = self.aug(cur, node.op, v)
            out += [ast.copy_location(s, node) for s in val[0]]
            out.append(ast.copy_location(ast.Expr(call('_pvx_setattr', name(a), ast.Constant(attr),
                                                       val[1])), node))
            return out
        if isinstance(t.slice, ast.Slice):
            node.value = v
            return node
        b = self.fresh()
        out.append(ast.copy_location(ast.Assign(targets=[name(b, True)],
                                                value=self.visit(t.slice)), node))
        val = self.aug(call('_pvx_getitem', name(a), name(b)), node.op, v)
        out += [ast.copy_location(s, node) for s in val[0]]
        out.append(ast.copy_location(ast.Expr(call('_pvx_setitem', name(a), name(b), val[1])), node))
        return out

    def aug(self, cur, op, v):
        x = self.fresh()
        return [ast.Assign(targets=[name(x, True)], value=cur),
                ast.AugAssign(target=name(x, True), op=op, value=v)], name(x)

    # -- loops
    def visit_For(self, node):
        if not self.infn():
            node.iter = self.visit(node.iter)
            node.body = self.block(node.body)
            node.orelse = self.block(node.orelse)
            return node
        self.count['loops'] += 1
        key = f'{self.mod}.{".".join(n for _, n in self.scope)}:{self.ordinal()}'
        it = self.visit(node.iter)
        accs = getattr(node, '_accs', ())
        names = sorted(assigned(node.body) | (assigned([ast.Expr(node.target)])) | set(accs))
        names = [n for n in names if not n.startswith('_pvx_') and n not in self.globals_]
        body = self.block(node.body)
        orelse = self.block(node.orelse)
        lp = self.fresh()
        pre = ast.Assign(targets=[name(lp, True)], value=call(
            '_pvx_for', it, ast.Constant(key), ast.Constant(tuple(names)), ast.Constant(accs)))
        take = [ast.Assign(targets=[node.target], value=ast.Call(
            func=ast.Attribute(value=name(lp), attr='value', ctx=ast.Load()), args=[],
            keywords=[]))]
        take = [self.visit_target(take[0])]
        loop = ast.While(test=self.head(lp, names),
                         body=take + body, orelse=self.havoc_stmt(lp, names) + orelse)
        out = [pre, ast.Try(body=[loop], handlers=[], orelse=[], finalbody=[
            ast.Expr(self.meth(lp, 'leave'))])]
        return [ast.copy_location(s, node) for s in out]

    def visit_target(self, assign):
        t = assign.targets[0]
        r = self.visit_assign_to(t, assign.value, assign) if not isinstance(t, ast.Name) else None
        if r is not None:
            return r
        assign.targets = [self.store(t)]
        return assign

    def ordinal(self):
        self.n += 1
        return self.n

    def meth(self, lp, m, *args):
        return ast.Call(func=ast.Attribute(value=name(lp), attr=m, ctx=ast.Load()),
                        args=list(args), keywords=[])

    def havoc_expr(self, lp, names):
        """(lp.sym and ((a := lp.var('a')), ...), True)[-1]"""
        sets = [ast.NamedExpr(target=name(n, True), value=self.meth(lp, 'var', ast.Constant(n)))
                for n in names]
        return ast.Subscript(value=ast.Tuple(elts=[
            ast.BoolOp(op=ast.And(), values=[
                ast.Attribute(value=name(lp), attr='sym', ctx=ast.Load()),
                ast.Tuple(elts=sets, ctx=ast.Load())]),
            ast.Constant(True)], ctx=ast.Load()), slice=ast.Constant(-1), ctx=ast.Load())

    def head(self, lp, names, cond=None):
        vals = [self.meth(lp, 'head', ast.Call(func=name('locals'), args=[], keywords=[]))]
        if names:
            vals.append(self.havoc_expr(lp, names))
        if cond is not None:
            vals.append(cond)
        return ast.BoolOp(op=ast.And(), values=vals) if len(vals) > 1 else vals[0]

    def havoc_stmt(self, lp, names):
        if not names:
            return []
        return [ast.If(test=ast.Attribute(value=name(lp), attr='sym', ctx=ast.Load()),
                       body=[ast.Assign(targets=[name(n, True)],
                                        value=self.meth(lp, 'var', ast.Constant(n)))
                             for n in names], orelse=[])]

    def visit_While(self, node):
        if not self.infn():
            self.generic_visit(node)
            return node
        self.count['loops'] += 1
        key = f'{self.mod}.{".".join(n for _, n in self.scope)}:{self.ordinal()}'
        names = sorted(n for n in assigned(node.body) | assigned([ast.Expr(node.test)])
                       if not n.startswith('_pvx_') and n not in self.globals_)
        test = self.visit(node.test)
        body = self.block(node.body)
        orelse = self.block(node.orelse)
        lp = self.fresh()
        pre = ast.Assign(targets=[name(lp, True)], value=call(
            '_pvx_while', ast.Constant(key), ast.Constant(tuple(names))))
        loop = ast.While(test=self.head(lp, names, test), body=body, orelse=orelse)
        out = [pre, ast.Try(body=[loop], handlers=[], orelse=[], finalbody=[
            ast.Expr(self.meth(lp, 'leave'))])]
        return [ast.copy_location(s, node) for s in out]

    # -- blocks of other statements
    def _blocks(self, node):
        for f in ('body', 'orelse', 'finalbody'):
            if getattr(node, f, None):
                setattr(node, f, self.block(getattr(node, f)))
        return node

    def visit_If(self, node):
        node.test = self.visit(node.test)
        return self._blocks(node)

    def visit_With(self, node):
        for i in node.items:
            i.context_expr = self.visit(i.context_expr)
        return self._blocks(node)

    def visit_Try(self, node):
        for h in node.handlers:
            if h.type is not None:
                h.type = self.visit(h.type)
            h.body = self.block(h.body)
        return self._blocks(node)


def args(*names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names], vararg=None,
                         kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[])


def _pvx_unpack(v, n):
    if isinstance(v, (tuple, list)):
        if len(v) != n:
            raise ValueError('not enough or too many values to unpack')
        return v
    return tuple(v)


NAMES = dict(hooks.NAMES)
NAMES.update(loops.NAMES)
NAMES['_pvx_unpack'] = _pvx_unpack
NAMES['_pvx_comp'] = hooks._pvx_comp
NAMES['_pvx_flat'] = hooks._pvx_flat
NAMES['_pvx_call'] = hooks._pvx_call

_cache = {}
LOADED = {}


def instrument(path, modname):
    src = open(path, encoding='utf-8').read()
    key = (path, src)
    if key not in _cache:
        tree = ast.parse(src, path)
        ins = Instrument(modname)
        ins.globals_ = set()
        tree = ins.visit(tree)
        ast.fix_missing_locations(tree)
        _cache[key] = compile(tree, path, 'exec'), ins.count
    return _cache[key]


class Loader:
    """loads modules of the repository, instrumented, with stand-ins (contracts)
    for some of the modules or of the names in them"""

    PACKAGES = ('citrine', 'jsonld', 'activitystreams', 'activitypub')

    def __init__(self, stubs=None, plain=(), packages=None, bare=()):
        self.stubs = dict(stubs or {})
        self.plain = set(plain)
        self.bare = set(bare)     # packages whose __init__ is not run
        self.mods = {}
        self.stats = {}
        self.packages = packages or self.PACKAGES
        if '/opt/venv/lib/python3.12/site-packages' not in sys.path:
            sys.path.append('/opt/venv/lib/python3.12/site-packages')
        self.builtins = dict(vars(builtins))
        self.builtins['__import__'] = self.imp

    def ours(self, modname):
        return modname.split('.')[0] in self.packages

    def load(self, modname):
        if modname in self.stubs:
            s = self.stubs[modname]
            if isinstance(s, dict):
                m = types.ModuleType(modname)
                m.__dict__.update(s)
                m.__path__ = []
                self.stubs[modname] = s = m
            return s
        if modname in self.mods:
            return self.mods[modname]
        if not self.ours(modname):
            return importlib.import_module(modname)
        parent = modname.rpartition('.')[0]
        if parent:
            self.load(parent)
        base = os.path.join(REPO, *modname.split('.'))
        m = types.ModuleType(modname)
        if os.path.isdir(base):
            path = os.path.join(base, '__init__.py')
            m.__path__ = [base]
            m.__package__ = modname
            if modname in self.bare:
                path = None
        else:
            path = base + '.py'
            m.__package__ = parent
        if path is None or not os.path.exists(path):
            if os.path.isdir(base):
                path = None
            else:
                raise ModuleNotFoundError(f'No module named {modname!r}', name=modname)
        m.__file__ = path
        m.__dict__['__builtins__'] = self.builtins
        m.__spec__ = importlib.machinery.ModuleSpec(modname, None)
        self.mods[modname] = m
        if path:
            try:
                code, count = instrument(path, modname)
                self.stats[modname] = LOADED[modname] = count
                m.__dict__.update(NAMES)
                exec(code, m.__dict__)
            except BaseException:
                del self.mods[modname]
                raise
        if parent:
            p = self.load(parent)
            try:
                setattr(p, modname.rpartition('.')[2], m)
            except Exception:      # noqa
                pass
        return m

    def imp(self, nm, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            nm = f'{pkg}.{nm}' if nm else pkg
        if not self.ours(nm) and nm not in self.stubs and nm.split('.')[0] not in self.stubs:
            return __import__(nm, globals, locals, fromlist, 0)
        if not fromlist:
            top = self.load(nm.split('.')[0])
            self.load(nm)
            # make submodules reachable as attributes
            parts = nm.split('.')
            for i in range(1, len(parts)):
                parent, child = self.load('.'.join(parts[:i])), self.load('.'.join(parts[:i + 1]))
                try:
                    setattr(parent, parts[i], child)
                except Exception:  # noqa
                    pass
            return top
        m = self.load(nm)
        for f in fromlist:
            if f != '*' and not hasattr(m, f) and (hasattr(m, '__path__')):
                sub = f'{nm}.{f}'
                if sub in self.stubs or self.ours(sub) and (
                        os.path.exists(os.path.join(REPO, *sub.split('.')) + '.py') or
                        os.path.isdir(os.path.join(REPO, *sub.split('.')))):
                    setattr(m, f, self.load(sub))
        return m

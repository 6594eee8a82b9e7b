'''Mechanical rewriting of the modules of /repo for symbolic execution, redone from the working tree on every run.

The text that is executed is the repository's own, except:
  - `a is b` (other than with None) becomes _vp_is(a, b), so that two symbolic books can be compared;
  - loops inside functions get a call at their head (_vp_loop / _vp_iter), which is where a loop is cut and its
    invariant is checked; `for` is rewritten to the `while` it abbreviates;
  - f-strings (without conversions and format specifications) become _vp_fmt(parts...);
  - list displays become _vp_list([...]) (a list that can also stand for a list of unknown length);
  - comprehensions and generator expressions become _vp_comp(kind, iterables, function): the same elements in order;
  - the builtins of the module are replaced by versions that also accept symbolic values (vp.symex.BUILTINS).
Docstrings, annotations and everything else are left as they are. Nothing is dropped.
'''
import ast
import copy


def _name(s, ctx=None):
    return ast.Name(id=s, ctx=ctx or ast.Load())


def _call(fn, *args):
    return ast.Call(func=_name(fn), args=list(args), keywords=[])


class _Assigned(ast.NodeVisitor):
    '''Names bound by statements, not looking into nested scopes.'''

    def __init__(self):
        self.names = []
        self.mutated = []

    def _add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self._add(node.id)

    def visit_FunctionDef(self, node):
        self._add(node.name)

    def visit_Lambda(self, node):
        pass

    def visit_ClassDef(self, node):
        self._add(node.name)

    def visit_ListComp(self, node):
        pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_ExceptHandler(self, node):
        if node.name:
            self._add(node.name)
        self.generic_visit(node)


def assigned(stmts):
    v = _Assigned()
    for s in stmts:
        v.visit(s)
    return v.names


GENERATORS = set()      # the loops that belong to generator functions


def is_generator(node):
    todo = list(node.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(x))
    return False


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.gen = []
        self.stack = []
        self.counters = {}
        self.infunc = 0
        self.declared = []

    def _lid(self):
        q = '.'.join(self.stack)
        k = self.counters.get(q, 0) + 1
        self.counters[q] = k
        lid = f'{q} loop {k}'
        if self.gen and self.gen[-1]:
            GENERATORS.add(lid)
        return lid

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        self.infunc += 1
        nl = set()
        for s in ast.walk(node):
            if isinstance(s, (ast.Global, ast.Nonlocal)):
                nl |= set(s.names)
        self.declared.append(nl)
        self.gen.append(is_generator(node))
        node.body = self._body(node.body)
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [d and self.visit(d) for d in node.args.kw_defaults]
        self.declared.pop()
        self.gen.pop()
        self.infunc -= 1
        self.stack.pop()
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        save, self.infunc = self.infunc, 0
        self.generic_visit(node)
        self.infunc = save
        self.stack.pop()
        return node

    def _body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            r = node.comparators[0]
            if any(isinstance(x, ast.Constant) and not isinstance(x.value, bool) for x in (r, node.left)):
                return node
            c = _call('_vp_is', node.left, r)
            if isinstance(node.ops[0], ast.IsNot):
                return ast.UnaryOp(op=ast.Not(), operand=c)
            return c
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and self.infunc:
            return _call('_vp_list', node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        if not self.infunc or any(isinstance(v, ast.FormattedValue) and (v.conversion != -1 or v.format_spec)
                                  for v in node.values):
            return node
        return _call('_vp_fmt', *[v.value if isinstance(v, ast.FormattedValue) else v for v in node.values])

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    # -- comprehensions --

    def _comp(self, node, kind):
        if not self.infunc or any(g.is_async for g in node.generators):
            return node
        if not all(isinstance(g.target, ast.Name) for g in node.generators):
            self.generic_visit(node)
            return node
        # _vp_comp(kind, lid, [(lambda x1..x(k-1): iterable k, lambda x1..xk: cond k)...], lambda x1..xn: element)
        lid = self._lid()
        names = []
        gens = []
        for g in node.generators:
            it = ast.Lambda(args=_args(names), body=self.visit(g.iter))
            names = names + [g.target.id]
            if g.ifs:
                test = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=g.ifs)
                cond = ast.Lambda(args=_args(names), body=self.visit(test))
            else:
                cond = ast.Constant(value=None)
            gens.append(ast.Tuple(elts=[it, cond], ctx=ast.Load()))
        elt = ast.Lambda(args=_args(names), body=self.visit(node.elt))
        return _call('_vp_comp', ast.Constant(value=kind), ast.Constant(value=lid),
                     ast.Tuple(elts=gens, ctx=ast.Load()), elt, ast.Constant(value=tuple(names)), _call('locals'))

    def visit_Call(self, node):
        # a list made only to be reduced need not be made first
        if isinstance(node.func, ast.Name) and len(node.args) == 1 and isinstance(node.args[0], ast.ListComp) and \
                node.func.id in ('sum', 'min', 'max', 'any', 'all'):
            node.args = [self._comp(node.args[0], 'eager')]
            node.keywords = [ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in node.keywords]
            return node
        self.generic_visit(node)
        return node

    def visit_ListComp(self, node):
        return self._comp(node, 'list')

    def visit_GeneratorExp(self, node):
        return self._comp(node, 'gen')

    def visit_SetComp(self, node):
        return self._comp(node, 'set')

    # -- loops --

    def _head(self, h, names):
        '''Statements at the loop head: let the engine replace the loop's variables.'''
        names = [n for n in names if n not in self.declared[-1]]
        out = [ast.Assign(targets=[_name('_vp_d', ast.Store())],
                          value=ast.Call(func=ast.Attribute(value=_name(h), attr='head', ctx=ast.Load()),
                                         args=[ast.Constant(value=tuple(names)), _call('locals')], keywords=[]))]
        for n in names:
            out.append(ast.If(test=ast.Compare(left=ast.Constant(value=n), ops=[ast.In()],
                                               comparators=[_name('_vp_d')]),
                              body=[ast.Assign(targets=[_name(n, ast.Store())],
                                               value=ast.Subscript(value=_name('_vp_d'),
                                                                   slice=ast.Constant(value=n), ctx=ast.Load()))],
                              orelse=[]))
        return out

    def _wrap(self, node, lid, setup, test_stmts, body, names):
        k = lid.rsplit(' ', 1)[1] + '_' + str(abs(hash(lid)) % 10**6)
        h, e = f'_vp_h{k}', f'_vp_e{k}'
        setup = setup(h)
        out = setup
        stop = [ast.Break()]
        if node.orelse:
            out.append(ast.Assign(targets=[_name(e, ast.Store())], value=ast.Constant(value=False)))
            stop = [ast.Assign(targets=[_name(e, ast.Store())], value=ast.Constant(value=True)), ast.Break()]
        inner = self._head(h, names) + test_stmts(h, stop) + body
        out.append(ast.While(test=ast.Constant(value=True), body=inner, orelse=[]))
        if node.orelse:
            out.append(ast.If(test=_name(e), body=self._body(node.orelse), orelse=[]))
        return out

    def visit_While(self, node):
        if not self.infunc:
            return node
        lid = self._lid()
        names = assigned([ast.Expr(value=node.test)] + node.body)
        body = self._body(node.body)
        test = self.visit(node.test)

        def setup(h):
            return [ast.Assign(targets=[_name(h, ast.Store())], value=_call('_vp_loop', ast.Constant(value=lid)))]

        def tests(h, stop):
            return [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=test), body=stop, orelse=[])]
        return self._wrap(node, lid, setup, tests, body, names)

    def visit_For(self, node):
        if not self.infunc:
            return node
        lid = self._lid()
        names = assigned([ast.Expr(value=node.target)] + node.body)
        it = self.visit(node.iter)
        body = self._body(node.body)

        def setup(h):
            return [ast.Assign(targets=[_name(h, ast.Store())],
                               value=_call('_vp_iter', ast.Constant(value=lid), it))]

        def tests(h, stop):
            return [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=ast.Call(
                        func=ast.Attribute(value=_name(h), attr='next', ctx=ast.Load()), args=[], keywords=[])),
                        body=stop, orelse=[]),
                    ast.Assign(targets=[node.target],
                               value=ast.Attribute(value=_name(h), attr='value', ctx=ast.Load()))]
        return self._wrap(node, lid, setup, tests, body, names)


def _args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names], vararg=None, kwonlyargs=[],
                         kw_defaults=[], kwarg=None, defaults=[])


def rewrite(source, filename, modname):
    tree = ast.parse(source, filename)
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)

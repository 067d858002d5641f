"""
Load modules of the repository for symbolic execution.

The text which is verified is the text in the repository, except that
 * `while` and `for` loops call a hook before the first and at the start of
   every iteration (it does nothing unless the loop has a contract, or iterates
   over a sequence of symbolic length),
 * comprehensions and generator expressions with one generator are passed as
   functions to a hook (which does the same as Python unless the sequence is
   symbolic),
 * `and`, `or`, `not`, conditional expressions are left alone (they split paths),
 * imported modules are replaced by models (numpy, ...) or loaded the same way,
 * some builtins (len, any, all, min, max, sorted, ...) accept symbolic values.
Nothing is dropped except docstrings-only effects; decorators of fsc.export and
fsc.hdf5_io are identity functions.
"""
import ast
import builtins
import os
import types

from . import core
from .core import Unsupported

REPO = os.environ.get('VERIF_REPO', '/repo')


def leaves(nodes, inner=False):
    """Whether a loop body may leave the loop (return, break)."""
    for node in nodes:
        if isinstance(node, ast.Return) or isinstance(node, ast.Break) and not inner:
            return True
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if leaves(ast.iter_child_nodes(node), inner or isinstance(node, (ast.For, ast.While, ast.AsyncFor))):
            return True
    return False


def assigned_names(nodes):
    """Names bound in statements (not in nested functions or comprehensions)."""
    names = []

    class Visitor(ast.NodeVisitor):
        def visit_Name(self, node):
            if isinstance(node.ctx, (ast.Store, ast.Del)) and node.id not in names:
                names.append(node.id)

        def visit_FunctionDef(self, node):
            if node.name not in names:
                names.append(node.name)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_Lambda(self, node):
            pass

        def _comp(self, node):
            pass

        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

        def visit_AugAssign(self, node):
            self.generic_visit(node)
            if isinstance(node.target, ast.Name) and node.target.id not in names:
                names.append(node.target.id)

    for n in nodes:
        Visitor().visit(n)
    return [n for n in names if not n.startswith('_vc_')]


def has_await(node):
    return any(isinstance(n, (ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr)) for n in ast.walk(node))


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.scope = []
        self.counts = {}
        self.in_class_body = False

    def _function(self, node):
        self.scope.append(node.name)
        node = self.generic_visit(node)
        self.scope.pop()
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function
    visit_ClassDef = _function

    def loop_id(self):
        qual = '.'.join(self.scope)
        n = self.counts[qual] = self.counts.get(qual, 0) + 1
        return '{}#{}'.format(qual, n)

    def hook_stmts(self, lid, node, names, extra, targets=()):
        """_vc_h = _vc_.loop(id, locals(), [names]); if active: names = havoc"""
        var = '_vc_h{}'.format(lid.split('#')[1])
        left = leaves(node.body)
        stmts = [
            ast.Assign(
                targets=[ast.Name(var, ast.Store())],
                value=ast.Call(
                    func=ast.Attribute(ast.Name('_vc_', ast.Load()), 'loop', ast.Load()),
                    args=[ast.Constant(lid), ast.Call(ast.Name('locals', ast.Load()), [], []), ast.Constant(tuple(names)), extra, ast.Constant(tuple(targets)), ast.Constant(left)], keywords=[]
                )
            )
        ]
        if names or targets:
            body = []
            for name in list(names) + list(targets):
                body.append(
                    ast.If(
                        test=ast.Call(ast.Attribute(ast.Name(var, ast.Load()), 'has', ast.Load()), [ast.Constant(name)], []),
                        body=[ast.Assign(targets=[ast.Name(name, ast.Store())], value=ast.Call(ast.Attribute(ast.Name(var, ast.Load()), 'get', ast.Load()), [ast.Constant(name)], []))],
                        orelse=[]
                    )
                )
            stmts.append(ast.If(test=ast.Attribute(ast.Name(var, ast.Load()), 'active', ast.Load()), body=body, orelse=[]))
        return var, stmts

    def visit_While(self, node):
        lid = self.loop_id()
        names = assigned_names(node.body)
        node = self.generic_visit(node)
        var, stmts = self.hook_stmts(lid, node, names, ast.Constant(None))
        head = ast.Call(
            ast.Attribute(ast.Name(var, ast.Load()), 'head', ast.Load()), [ast.Call(ast.Name('locals', ast.Load()), [], [])], []
        )
        node.test = ast.BoolOp(ast.And(), [head, node.test])
        return stmts + [node]

    def visit_For(self, node):
        lid = self.loop_id()
        names = assigned_names(node.body)
        targets = assigned_names([node.target])
        node = self.generic_visit(node)
        seqvar = '_vc_s{}'.format(lid.split('#')[1])
        pre = ast.Assign(targets=[ast.Name(seqvar, ast.Store())], value=node.iter)
        var, stmts = self.hook_stmts(lid, node, [n for n in names if n not in targets], ast.Name(seqvar, ast.Load()), targets)
        node.iter = ast.Call(
            ast.Attribute(ast.Name(var, ast.Load()), 'items', ast.Load()), [ast.Lambda(
                args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                body=ast.Constant(None)
            )], []
        )
        # locals() at the end of an iteration: first statement of the body records them lazily
        node.iter.args = [ast.Name(seqvar, ast.Load())]
        node.body = node.body + [
            ast.Expr(ast.Call(ast.Attribute(ast.Name(var, ast.Load()), 'tail', ast.Load()), [ast.Call(ast.Name('locals', ast.Load()), [], [])], []))
        ]
        node.body = self._continue_hook(node.body, var)
        return [pre] + stmts + [node]

    def _continue_hook(self, body, var):
        """Record locals() before each `continue` of this loop."""

        class Cont(ast.NodeTransformer):
            def visit_Continue(self, n):
                return [
                    ast.Expr(ast.Call(ast.Attribute(ast.Name(var, ast.Load()), 'tail', ast.Load()), [ast.Call(ast.Name('locals', ast.Load()), [], [])], [])), n
                ]

            def visit_For(self, n):
                n.orelse = [self.visit(x) for x in n.orelse]
                return n

            visit_While = visit_For

            def visit_FunctionDef(self, n):
                return n

            visit_AsyncFunctionDef = visit_FunctionDef
            visit_Lambda = visit_FunctionDef

        res = []
        for stmt in body:
            new = Cont().visit(stmt)
            res.extend(new if isinstance(new, list) else [new])
        return res

    def _comprehension(self, node, kind, elt):
        node = self.generic_visit(node)
        if len(node.generators) != 1 or has_await(node) or node.generators[0].is_async:
            return node
        gen = node.generators[0]
        tgt = gen.target

        def lam(body):
            if isinstance(tgt, ast.Name):
                args = [ast.arg(tgt.id)]
                return ast.Lambda(ast.arguments(posonlyargs=[], args=args, kwonlyargs=[], kw_defaults=[], defaults=[]), body)
            # a pattern: use a nested comprehension to bind it
            inner = ast.ListComp(elt=body, generators=[ast.comprehension(target=tgt, iter=ast.List([ast.Name('_vc_x', ast.Load())], ast.Load()), ifs=[], is_async=0)])
            return ast.Lambda(
                ast.arguments(posonlyargs=[], args=[ast.arg('_vc_x')], kwonlyargs=[], kw_defaults=[], defaults=[]),
                ast.Subscript(inner, ast.Constant(0), ast.Load())
            )

        if kind == 'dict':
            body = ast.Tuple([node.key, node.value], ast.Load())
        else:
            body = node.elt
        cond = None
        if gen.ifs:
            cond = gen.ifs[0] if len(gen.ifs) == 1 else ast.BoolOp(ast.And(), list(gen.ifs))
        return ast.Call(
            ast.Attribute(ast.Name('_vc_', ast.Load()), 'comp', ast.Load()), [ast.Constant(kind), lam(body), gen.iter, lam(cond) if cond is not None else ast.Constant(None)], []
        )

    def visit_List(self, node):
        node = self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load) or not any(isinstance(e, ast.Starred) for e in node.elts):
            return node
        parts = [ast.Tuple([ast.Constant(isinstance(e, ast.Starred)), e.value if isinstance(e, ast.Starred) else e], ast.Load()) for e in node.elts]
        return ast.Call(ast.Attribute(ast.Name('_vc_', ast.Load()), 'display', ast.Load()), parts, [])

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if len(node.ops) != 1 or not isinstance(node.ops[0], (ast.Is, ast.IsNot)) or isinstance(node.left, ast.Constant) or isinstance(node.comparators[0], ast.Constant):
            return node
        res = ast.Call(ast.Attribute(ast.Name('_vc_', ast.Load()), 'same_object', ast.Load()), [node.left, node.comparators[0]], [])
        return ast.UnaryOp(ast.Not(), res) if isinstance(node.ops[0], ast.IsNot) else res

    def visit_ListComp(self, node):
        return self._comprehension(node, 'list', None)

    def visit_SetComp(self, node):
        return self._comprehension(node, 'set', None)

    def visit_DictComp(self, node):
        return self._comprehension(node, 'dict', None)

    def visit_GeneratorExp(self, node):
        return self._comprehension(node, 'gen', None)

    def visit_Expr(self, node):
        node = self.generic_visit(node)
        if isinstance(node.value, ast.YieldFrom):
            return node
        return node

    def visit_YieldFrom(self, node):
        node = self.generic_visit(node)
        node.value = ast.Call(ast.Attribute(ast.Name('_vc_', ast.Load()), 'spread', ast.Load()), [node.value], [])
        return node


_SOURCES = {}


def module_path(name):
    base = os.path.join(REPO, *name.split('.'))
    if os.path.isdir(base):
        return os.path.join(base, '__init__.py'), True
    return base + '.py', False


def compiled(name):
    if name not in _SOURCES:
        path, is_pkg = module_path(name)
        if not os.path.exists(path):
            raise Unsupported('no module {}'.format(name))
        with open(path, encoding='utf-8') as f:
            tree = ast.parse(f.read(), path)
        tree = Rewriter().visit(tree)
        ast.fix_missing_locations(tree)
        _SOURCES[name] = (compile(tree, path, 'exec'), is_pkg, path)
    return _SOURCES[name]


def symbolic_length(cls):
    """The length can be symbolic, also where Python needs an integer."""
    length = vars(cls)['__len__']

    def nonzero(self):
        return bool(type(self).__len__(self) != 0)

    cls._vc_len = lambda self: type(self).__len__(self)
    if callable(length) and not any('__bool__' in vars(c) for c in cls.__mro__):
        cls.__bool__ = nonzero


class Loader:
    """Modules of the repository with replacements for what they import."""

    def __init__(self, stubs=None, builtin_stubs=None):
        from . import shims
        self.modules = {}
        self.stubs = dict(shims.MODULES)
        self.stubs.update(stubs or {})
        self.builtins = dict(vars(builtins))
        self.builtins.update(shims.BUILTINS)
        self.builtins.update(builtin_stubs or {})
        self.builtins['__import__'] = self.import_
        self.hooks = shims.Hooks()

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            package = globals['__package__']
            base = package.rsplit('.', level - 1)[0] if level > 1 else package
            name = base + ('.' + name if name else '')
        if name in self.stubs:
            mod = self.stubs[name]
            if not fromlist and '.' in name:
                return self._top(name)
            return mod
        if name == 'nodefinder' or name.startswith('nodefinder.'):
            if not fromlist:
                self.load(name)
                return self._top(name)
            if name not in self.modules and module_path(name)[1] and all(name + '.' + item in self.stubs or os.path.exists(module_path(name + '.' + item)[0]) for item in fromlist):
                # only modules of the package: it is not executed itself
                return types.SimpleNamespace(**{item: self.load(name + '.' + item) for item in fromlist})
            mod = self.load(name)
            for item in fromlist or ():
                if item != '*' and not hasattr(mod, item):
                    sub = name + '.' + item
                    if sub in self.stubs:
                        setattr(mod, item, self.stubs[sub])
                    elif os.path.exists(module_path(sub)[0]):
                        setattr(mod, item, self.load(sub))
            return mod
        return __import__(name, globals, locals, fromlist, 0)

    def _top(self, name):
        top = types.ModuleType(name.split('.')[0])
        node = top
        parts = name.split('.')
        for i in range(1, len(parts)):
            full = '.'.join(parts[:i + 1])
            sub = self.stubs.get(full) or self.modules.get(full) or types.ModuleType(full)
            setattr(node, parts[i], sub)
            node = sub
        return top

    def load(self, name):
        if name in self.stubs:
            return self.stubs[name]
        if name in self.modules:
            self._bind(name)
            return self.modules[name]
        code, is_pkg, path = compiled(name)
        mod = types.ModuleType(name)
        mod.__file__ = path
        mod.__package__ = name if is_pkg else name.rpartition('.')[0]
        if is_pkg:
            mod.__path__ = [os.path.dirname(path)]
        mod.__dict__['__builtins__'] = self.builtins
        mod.__dict__['_vc_'] = self.hooks
        self.modules[name] = mod
        # parent packages of the repository are not executed: their names are
        # resolved through the modules which define them
        exec(code, mod.__dict__)
        for obj in list(vars(mod).values()):
            if isinstance(obj, type) and obj.__module__ == name and '__len__' in vars(obj):
                symbolic_length(obj)
        self._bind(name)
        return mod

    def _bind(self, name):
        parent, _, short = name.rpartition('.')
        if parent in self.modules:
            setattr(self.modules[parent], short, self.modules[name])

    def get(self, name, attr):
        mod = self.load(name)
        obj = mod
        for part in attr.split('.'):
            if not hasattr(obj, part):
                raise Unsupported('no {}.{}'.format(name, attr))
            obj = getattr(obj, part)
        core.cur().functions.add('{}.{}'.format(name, attr))
        return obj

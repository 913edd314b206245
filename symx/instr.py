"""AST instrumentation and the import hook that applies it to /repo's sources."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import rt

_NOCALL = {"super", "locals", "globals", "vars", "eval", "exec", "dir", "__import__"}


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _call(n, *args, keywords=()):
    return ast.Call(func=_name(n), args=list(args), keywords=list(keywords))


class Tr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []

    # -- definitions
    def _func(self, node):
        self.stack.append(node.name)
        qn = self.mod + ":" + ".".join(self.stack)
        node.decorator_list = [_call("_sx_deco_", self.visit(d)) for d in node.decorator_list
                               ] if not self._plain(node) else node.decorator_list
        self._visit_args(node.args)
        node.body = [self.visit(s) for s in node.body]
        hook = ast.Expr(_call("_sx_enter_", ast.Constant(qn)))
        at = 1 if (node.body and isinstance(node.body[0], ast.Expr)
                   and isinstance(node.body[0].value, ast.Constant)
                   and isinstance(node.body[0].value.value, str)) else 0
        node.body.insert(at, hook)
        self.stack.pop()
        return node

    @staticmethod
    def _plain(node):
        ok = {"property", "staticmethod", "classmethod", "abc.abstractmethod", "wraps"}
        return all(ast.unparse(d) in ok or ast.unparse(d).endswith(".setter") for d in node.decorator_list)

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def _visit_args(self, args):
        args.defaults = [self.visit(d) for d in args.defaults]
        args.kw_defaults = [None if d is None else self.visit(d) for d in args.kw_defaults]

    def visit_Lambda(self, node):
        self._visit_args(node.args)
        node.body = self.visit(node.body)
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(b) for b in node.bases]
        node.body = [self.visit(s) for s in node.body]
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    # -- expressions
    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in _NOCALL:
            node.args = [self.visit(a) for a in node.args]
            for kw in node.keywords:
                kw.value = self.visit(kw.value)
            return node
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(func=_name("_sx_call_"), args=[node.func] + node.args, keywords=node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1:
            return node
        n = {ast.Is: "_sx_is_", ast.IsNot: "_sx_isnot_", ast.In: "_sx_in_", ast.NotIn: "_sx_notin_"}.get(
            type(node.ops[0]))
        if n is None:
            return node
        return ast.copy_location(_call(n, node.left, node.comparators[0]), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(_call("_sx_mod_", node.left, node.right), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = ast.Constant("") if v.format_spec is None else self.visit(v.format_spec)
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec],
                                       ctx=ast.Load()))
        return ast.copy_location(_call("_sx_fstr_", *parts), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        pairs = []
        for k, v in zip(node.keys, node.values):
            pairs.append(ast.Tuple(elts=[v] if k is None else [k, v], ctx=ast.Load()))
        return ast.copy_location(_call("_sx_dict_", *pairs), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
                               generators=node.generators)
        return ast.copy_location(_call("_sx_dictcomp_", gen), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call("_sx_set_", ast.Tuple(elts=node.elts, ctx=ast.Load())), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            _call("_sx_set_", ast.GeneratorExp(elt=node.elt, generators=node.generators)), node)

    def visit_Match(self, node):
        node.subject = self.visit(node.subject)
        for c in node.cases:
            if c.guard is not None:
                c.guard = self.visit(c.guard)
            c.body = [self.visit(s) for s in c.body]
        return node


def instrument(source, modname, filename):
    tree = ast.parse(source, filename)
    tree = Tr(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = self.get_data(path).decode("utf-8")
        return instrument(src, fullname, path)

    def exec_module(self, module):
        module.__dict__.update(rt.HOOKS)
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    """instruments the packages in `roots`: name -> directory containing it"""

    def __init__(self, roots):
        self.roots = roots

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split(".")[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *fullname.split("."))
        if os.path.isdir(base):
            init = os.path.join(base, "__init__.py")
            if os.path.exists(init):
                return importlib.util.spec_from_file_location(
                    fullname, init, loader=Loader(fullname, init), submodule_search_locations=[base])
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_file_location(
                fullname, base + ".py", loader=Loader(fullname, base + ".py"))
        return None


def install(roots):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(roots))


def load_lib(modname, names):
    """instrumented copy of a pure-python stdlib module; the given functions get
    routed to the copy when called with symbolic arguments."""
    spec = importlib.util.find_spec(modname)
    src = open(spec.origin, encoding="utf-8").read()
    import types
    m = types.ModuleType("_sxlib_" + modname.replace(".", "_"))
    m.__dict__.update(rt.HOOKS)
    m.__dict__["__file__"] = spec.origin
    m.__dict__["__name__"] = "_sxlib." + modname
    sys.modules["_sxlib." + modname] = m
    exec(instrument(src, "_sxlib." + modname, spec.origin), m.__dict__)
    real = importlib.import_module(modname)
    for n in names:
        rt.OVERRIDES[getattr(real, n)] = getattr(m, n)
    return m

"""Instrumentation of Python source for symbolic execution."""
import ast
from .rt import METHODS

H = "__symx__"


def _h(name):
    return ast.Attribute(ast.Name(H, ast.Load()), name, ast.Load())


def _call(name, *args):
    return ast.Call(_h(name), list(args), [])


class Transformer(ast.NodeTransformer):
    def __init__(self, tag):
        self.tag = tag
        self.scope = []

    # -- functions: record entry
    def _func(self, node):
        self.scope.append(node.name)
        qual = ".".join(self.scope)
        # annotations and defaults are evaluated outside
        self.generic_visit(node)
        self.scope.pop()
        if self.tag:
            stmt = ast.Expr(_call("enter", ast.Constant("%s:%s" % (self.tag, qual))))
        else:
            stmt = ast.Expr(_call("tick"))
        i = 0
        if (node.body and isinstance(node.body[0], ast.Expr)
                and isinstance(node.body[0].value, ast.Constant)
                and isinstance(node.body[0].value.value, str)):
            i = 1
        node.body.insert(i, stmt)
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        self.generic_visit(node)
        self.scope.pop()
        return node

    def visit_While(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(_call("tick")))
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(_call("tick")))
        return node

    # -- expressions
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            if isinstance(node.ops[0], ast.In):
                return _call("sym_in", node.left, node.comparators[0])
            if isinstance(node.ops[0], ast.NotIn):
                return _call("sym_notin", node.left, node.comparators[0])
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        pairs = [
            ast.Tuple([k if k is not None else _h("_STAR"), v], ast.Load())
            for k, v in zip(node.keys, node.values)
        ]
        return _call("sym_dict", ast.Tuple(pairs, ast.Load()))

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return _call(
            "sym_dict",
            ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()), node.generators),
        )

    def visit_Set(self, node):
        self.generic_visit(node)
        return _call("SymSet", ast.List(node.elts, ast.Load()))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return _call("SymSet", ast.ListComp(node.elt, node.generators))

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return _call("sym_mod", node.left, node.right)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                conv = {115: "s", 114: "r", 97: "a"}.get(v.conversion)
                spec = v.format_spec if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple([v.value, ast.Constant(conv), spec], ast.Load()))
        return _call("sym_fstr", *parts)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in METHODS:
            return ast.Call(
                _h("sym_meth"),
                [f.value, ast.Constant(f.attr)] + node.args,
                node.keywords,
            )
        return node

    # patterns and annotations contain no expressions to rewrite
    def visit_MatchValue(self, node):
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arguments(self, node):
        node.defaults = [self.visit(d) for d in node.defaults]
        node.kw_defaults = [self.visit(d) if d is not None else None for d in node.kw_defaults]
        return node


def instrument(source, filename, tag):
    tree = ast.parse(source, filename)
    tree = Transformer(tag).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)

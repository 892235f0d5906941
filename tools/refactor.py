"""Behaviour-preserving rewrites of the package (dev tool): refactor.py MODE  rewrites /repo/rockphypy/*.py in place.
Undo with git -C /repo checkout -- .   Modes: swap (commute products), assoc, div, pow, temps, helper, invert, all, all2,
jitter (one rounding error after every operation)"""
import ast
import glob
import sys

MODE = sys.argv[1]
ROOT = sys.argv[2] if len(sys.argv) > 2 else "/repo"


def pure(n):
    return not any(isinstance(x, (ast.List, ast.Constant)) and (isinstance(x, ast.List) or isinstance(x.value, str)) for x in ast.walk(n))


COUNT = int(sys.argv[3]) if len(sys.argv) > 3 else 0
JIT = """
def _j(x, s):
    if isinstance(x, float):
        return x * (1 + 2.220446049250313e-16) if s > 0 else x * (1 - 2.220446049250313e-16)
    if isinstance(x, np.ndarray) and x.dtype.kind in "fc" and x.dtype.itemsize >= 8:
        return x * (1 + 2.220446049250313e-16) if s > 0 else x * (1 - 2.220446049250313e-16)
    return x
"""


class R(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if not pure(n):
            return n
        if MODE == "jitter":
            global COUNT
            COUNT += 1
            return ast.Call(ast.Name("_j", ast.Load()), [n, ast.Constant(1 if COUNT * 7 % 5 < 2 else -1)], [])
        if MODE in ("swap", "all") and isinstance(n.op, ast.Mult):
            return ast.BinOp(n.right, ast.Mult(), n.left)
        if MODE in ("assoc", "all2") and isinstance(n.op, ast.Mult) and isinstance(n.left, ast.BinOp) and isinstance(n.left.op, ast.Mult):
            return ast.BinOp(n.left.left, ast.Mult(), ast.BinOp(n.left.right, ast.Mult(), n.right))
        if MODE in ("assoc", "all2") and isinstance(n.op, ast.Sub) and isinstance(n.left, ast.BinOp) and isinstance(n.left.op, ast.Sub):
            return ast.BinOp(n.left.left, ast.Sub(), ast.BinOp(n.left.right, ast.Add(), n.right))
        if MODE in ("div",) and isinstance(n.op, ast.Div) and isinstance(n.left, ast.BinOp) and isinstance(n.left.op, ast.Mult):
            return ast.BinOp(n.left.left, ast.Mult(), ast.BinOp(n.left.right, ast.Div(), n.right))
        if MODE in ("pow", "all") and isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, (ast.Name, ast.Attribute, ast.Subscript)):
            return ast.BinOp(n.left, ast.Mult(), n.left)
        if MODE in ("pow", "all") and isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 3 and isinstance(n.left, ast.Name):
            return ast.BinOp(ast.BinOp(n.left, ast.Mult(), n.left), ast.Mult(), n.left)
        return n

    def visit_Return(self, n):
        self.generic_visit(n)
        if MODE in ("temps", "all", "all2") and n.value is not None:
            if isinstance(n.value, ast.Tuple):
                out = []
                for k, e in enumerate(n.value.elts):
                    out.append(ast.Assign([ast.Name("_result%d" % k, ast.Store())], e))
                out.append(ast.Return(ast.Tuple([ast.Name("_result%d" % k, ast.Load()) for k in range(len(n.value.elts))], ast.Load())))
                return out
            return [ast.Assign([ast.Name("_result", ast.Store())], n.value), ast.Return(ast.Name("_result", ast.Load()))]
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if MODE in ("invert", "all2") and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_ClassDef(self, n):
        self.generic_visit(n)
        if MODE in ("helper", "all2"):
            out = []
            for f in n.body:
                if isinstance(f, ast.FunctionDef) and any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.decorator_list) and not f.args.vararg and not f.args.kwarg:
                    a = [x.arg for x in f.args.args]
                    inner = ast.FunctionDef("_%s_impl" % f.name, f.args, f.body, f.decorator_list, None, type_params=[])
                    call = ast.Call(ast.Attribute(ast.Name(n.name, ast.Load()), inner.name, ast.Load()), [ast.Name(x, ast.Load()) for x in a], [])
                    outer = ast.FunctionDef(f.name, f.args, [ast.Return(call)], f.decorator_list, None, type_params=[])
                    out += [inner, outer]
                else:
                    out.append(f)
            n.body = out
        return n


for p in sorted(glob.glob(ROOT + "/rockphypy/*.py")):
    t = R().visit(ast.parse(open(p, encoding="utf-8").read()))
    ast.fix_missing_locations(t)
    s = ast.unparse(t)
    if MODE == "jitter" and "__init__" not in p:
        k = s.index("\nclass ")
        s = ("" if "import numpy as np" in s else "import numpy as np\n") + s[:k] + JIT + s[k:]
    open(p, "w", encoding="utf-8").write(s + "\n")

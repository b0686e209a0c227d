#!/opt/venv/bin/python
"""Behaviour-preserving edits of a copy of the code, to see that the checks stay quiet:
refactor.py SRC_REPO DST_REPO [--only names] : copies the repository and applies the transformations
  unparse   every file is rewritten by ast.unparse (comments and line numbers change)
  rename    every local variable gets another name
  helper    every undecorated function/method becomes a one-line call of a helper with its body
  swap      every `if c: A else: B` becomes `if not c: B else: A`
  loop      `for x in it` becomes `for x in iter(list(it))` for range(...), every += on names becomes name = name + ... is NOT done
  noop      a statement that does nothing at the start of every function
  returns   every `return expr` becomes `result = expr; return result`
"""
import ast, os, shutil, sys


def params(f):
    a = f.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else [])}


class Rename(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        names, skip = set(), params(f)
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                skip |= set(n.names)
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)) and n is not f:
                if not isinstance(n, ast.Lambda):
                    skip.add(n.name)
                if not isinstance(n, ast.ClassDef):
                    skip |= params(n)
            if isinstance(n, ast.ExceptHandler) and n.name:
                skip.add(n.name)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                skip |= {(x.asname or x.name).split(".")[0] for x in n.names}
        names -= skip
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in names:
                n.id = n.id + "_v"
        return f     # nested functions are part of it


class Swap(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n


class Loop(ast.NodeTransformer):
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "range":
            n.iter = ast.Call(ast.Name("list", ast.Load()), [n.iter], [])
        return n


class Noop(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        i = 1 if ast.get_docstring(f) is not None else 0
        f.body.insert(i, ast.parse("_unused = None").body[0])
        return f


class Returns(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        return f

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Constant, ast.Name)):
            return n
        return [ast.Assign([ast.Name("result_r", ast.Store())], n.value), ast.Return(ast.Name("result_r", ast.Load()))]


class Helper(ast.NodeTransformer):
    def __init__(self):
        self.cls = None

    def block(self, body, cls):
        out = []
        for n in body:
            if isinstance(n, ast.ClassDef):
                n.body = self.block(n.body, n)
            elif isinstance(n, ast.FunctionDef) and not n.name.startswith("__"):
                deco = [d.id if isinstance(d, ast.Name) else "?" for d in n.decorator_list]
                gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n))
                sup = any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(n))
                static = cls is not None and (deco == ["staticmethod"] or (n.args.args[:1] and n.args.args[0].arg != "self") or not n.args.args)
                if not gen and not sup and not static and deco == [] and not n.args.vararg and not n.args.kwarg and not n.args.kwonlyargs and not n.args.posonlyargs:
                    impl = ast.FunctionDef(n.name.strip("_") + "_impl" if cls is None else "_" + n.name.strip("_") + "_impl", ast.arguments([], [ast.arg(a.arg) for a in n.args.args], None, [], [], None, []), n.body, [], None, None)
                    names = [a.arg for a in n.args.args]
                    if cls is not None:
                        call = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), impl.name, ast.Load()), [ast.Name(a, ast.Load()) for a in names[1:]], [])
                    else:
                        call = ast.Call(ast.Name(impl.name, ast.Load()), [ast.Name(a, ast.Load()) for a in names], [])
                    doc = ast.get_docstring(n, clean=False)
                    wrapper = ast.FunctionDef(n.name, n.args, ([ast.Expr(ast.Constant(doc))] if doc else []) + [ast.Return(call)], [], n.returns, None)
                    out += [impl, wrapper]
                    continue
            out.append(n)
        return out

    def visit_Module(self, m):
        m.body = self.block(m.body, None)
        return m


ALL = dict(returns=Returns, swap=Swap, loop=Loop, rename=Rename, helper=Helper, noop=Noop)


def main():
    src, dst = sys.argv[1:3]
    only = sys.argv[4].split(",") if len(sys.argv) > 4 else list(ALL)
    shutil.copytree(src, dst, symlinks=True)
    d = os.path.join(dst, "src", "tight_binding_redweasel")
    for f in sorted(os.listdir(d)):
        if not f.endswith(".py") or f == "__init__.py":
            continue
        p = os.path.join(d, f)
        t = ast.parse(open(p).read())
        for k in only:
            if k in ALL:
                t = ALL[k]().visit(t)
        open(p, "w").write(ast.unparse(ast.fix_missing_locations(t)) + "\n")


if __name__ == "__main__":
    main()

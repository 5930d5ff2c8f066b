"""Developer helper: behaviour-preserving rewrites of the whole package, to see that the checks stay quiet.
refactor.py NAME [CHECK...]: rewrite $SCRATCH with transform NAME, optionally run its tests (TESTS=1), run the checks."""
import ast, glob, os, subprocess, sys
import warnings
warnings.simplefilter("ignore")
S = os.environ.get("SCRATCH", "/tmp/m/ref")
VERIF = os.environ.get("VERIF", "/verif")
FILES = [f for f in glob.glob(S + "/jax_cosmo/**/*.py", recursive=True)]


def funcs(tree):
    return [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]


def after_doc(fn):
    b = fn.body
    return 1 if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str) else 0


def t_noop(tree):
    for f in funcs(tree):
        i = after_doc(f)
        f.body[i:i] = ast.parse("_noop = None\nif _noop is not None:\n    raise RuntimeError('x')\n").body
    return tree


def t_tempret(tree):
    for f in funcs(tree):
        class R(ast.NodeTransformer):
            def visit_FunctionDef(self, n): return n
            def visit_Lambda(self, n): return n
            def visit_Return(self, n):
                if n.value is None or isinstance(n.value, ast.Constant): return n
                return [ast.Assign([ast.Name("result_tmp", ast.Store())], n.value), ast.Return(ast.Name("result_tmp", ast.Load()))]
        f.body = [y for s in f.body for y in (lambda r: r if isinstance(r, list) else [r])(R().visit(s))]
    return tree


def t_args(tree):
    """hoist call arguments that are calls themselves out of simple assignment statements"""
    for f in funcs(tree):
        def do(body):
            out = []
            for s in body:
                for fld in ("body", "orelse"):
                    if isinstance(s, (ast.If, ast.For, ast.While, ast.With)) and getattr(s, fld, None):
                        setattr(s, fld, do(getattr(s, fld)))
                if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.BinOp):
                    l, r = s.value.left, s.value.right
                    if not isinstance(l, (ast.Constant, ast.Name)):
                        out.append(ast.Assign([ast.Name("lhs_part", ast.Store())], l)); s.value.left = ast.Name("lhs_part", ast.Load())
                    if not isinstance(r, (ast.Constant, ast.Name)):
                        out.append(ast.Assign([ast.Name("rhs_part", ast.Store())], r)); s.value.right = ast.Name("rhs_part", ast.Load())
                out.append(s)
            return out
        f.body = do(f.body)
    return tree


def t_helper(tree):
    def split(body, cls):
        out = []
        for n in body:
            if isinstance(n, ast.ClassDef):
                n.body = split(n.body, True); out.append(n); continue
            if isinstance(n, ast.FunctionDef) and not n.decorator_list and not (n.name.startswith("__") and n.name != "__call__"):
                a = n.args
                has_super = any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(n))
                if has_super: out.append(n); continue
                impl = ast.FunctionDef("_" + n.name.strip("_") + "_impl", a, n.body, [], None, None)
                params = a.posonlyargs + a.args
                self_ = params[0].arg if cls else None
                callargs = [ast.Name(p.arg, ast.Load()) for p in (params[1:] if cls else params)]
                if a.vararg: callargs.append(ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load()))
                kws = [ast.keyword(p.arg, ast.Name(p.arg, ast.Load())) for p in a.kwonlyargs]
                if a.kwarg: kws.append(ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load())))
                fn = ast.Attribute(ast.Name(self_, ast.Load()), impl.name, ast.Load()) if cls else ast.Name(impl.name, ast.Load())
                i = after_doc(n)
                new = ast.FunctionDef(n.name, a, n.body[:i] + [ast.Return(ast.Call(fn, callargs, kws))], [], None, None)
                out += [impl, new]
            else:
                out.append(n)
        return out
    tree.body = split(tree.body, False)
    return tree


def t_rename(tree):
    for f in [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]:
        params = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs} | ({f.args.vararg.arg} if f.args.vararg else set()) | ({f.args.kwarg.arg} if f.args.kwarg else set())
        inner = [n for n in ast.walk(f) if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not f]
        bad = set(params)
        for g in inner:
            bad |= {a.arg for a in g.args.posonlyargs + g.args.args + g.args.kwonlyargs}
            if isinstance(g, ast.FunctionDef):
                bad.add(g.name)
                bad |= {x.id for s in g.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        loc = {x.id for s in f.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - bad
        loc -= {x for n in ast.walk(f) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        loc = {x for x in loc if not x.endswith("_rn")}
        for s in f.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and x.id in loc: x.id += "_rn"
    return tree


def lit(n): return isinstance(n, (ast.List, ast.Tuple, ast.ListComp, ast.JoinedStr)) or (isinstance(n, ast.Constant) and isinstance(n.value, str))


class Commute(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if lit(n.left) or lit(n.right): return n
        num = lambda x: (isinstance(x, ast.Constant) and isinstance(x.value, (int, float))) or (isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Mult, ast.Pow, ast.Div)))
        if isinstance(n.op, ast.Mult) or (isinstance(n.op, ast.Add) and (num(n.left) or num(n.right))):
            n.left, n.right = n.right, n.left
        return n


def t_commute(tree): return Commute().visit(tree)


class Pow(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant):
            v = n.right.value
            if v in (2, 2.0): return ast.Call(ast.parse("np.square", mode="eval").body, [n.left], [])
            if v in (3, 3.0) and isinstance(n.left, ast.Name): return ast.BinOp(ast.BinOp(n.left, ast.Mult(), n.left), ast.Mult(), n.left)
        return n
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "np" and len(n.args) and not n.keywords:
            if n.func.attr == "sqrt": return ast.BinOp(n.args[0], ast.Pow(), ast.Constant(0.5))
            if n.func.attr == "dot" and len(n.args) == 2: return ast.Call(ast.parse("np.matmul", mode="eval").body, n.args, [])
            if n.func.attr == "sum" and len(n.args) == 1: return ast.Call(ast.Attribute(n.args[0], "sum", ast.Load()), [], [])
            if n.func.attr == "log10": return ast.BinOp(ast.Call(ast.parse("np.log", mode="eval").body, n.args, []), ast.Div(), ast.parse("np.log(10.0)", mode="eval").body)
        return n


def has_np(tree): return any(isinstance(n, ast.Import) and any(a.name == "jax.numpy" and a.asname == "np" for a in n.names) for n in tree.body)


def t_pow(tree): return Pow().visit(tree) if has_np(tree) else tree


class Sub(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Sub) and not lit(n.left):
            return ast.BinOp(n.left, ast.Add(), ast.UnaryOp(ast.USub(), n.right))
        if isinstance(n.op, ast.Div) and isinstance(n.right, ast.Constant) and isinstance(n.right.value, float):
            return ast.BinOp(n.left, ast.Mult(), ast.BinOp(ast.Constant(1.0), ast.Div(), n.right))
        return n


def t_sub(tree): return Sub().visit(tree)


class Alias(ast.NodeTransformer):
    def visit_Import(self, n):
        for a in n.names:
            if a.name == "jax.numpy" and a.asname == "np": a.asname = "jnp"
        return n
    def visit_Name(self, n):
        if n.id == "np": n.id = "jnp"
        return n


def t_alias(tree): return Alias().visit(tree) if has_np(tree) else tree


def t_from(tree):
    if not has_np(tree): return tree
    used = set()
    class A(ast.NodeTransformer):
        def visit_Attribute(self, n):
            self.generic_visit(n)
            if isinstance(n.value, ast.Name) and n.value.id == "np" and n.attr not in ("linalg",):
                used.add(n.attr); return ast.Name("jnp_" + n.attr, ast.Load())
            return n
    tree = A().visit(tree)
    i = next(j for j, n in enumerate(tree.body) if isinstance(n, ast.Import) and any(a.name == "jax.numpy" for a in n.names))
    if used:
        tree.body.insert(i + 1, ast.ImportFrom("jax.numpy", [ast.alias(u, "jnp_" + u) for u in sorted(used)], 0))
    return tree


class IfInv(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test = ast.UnaryOp(ast.Not(), n.test); n.body, n.orelse = n.orelse, n.body
        return n
    def visit_IfExp(self, n):
        self.generic_visit(n)
        n.test = ast.UnaryOp(ast.Not(), n.test); n.body, n.orelse = n.orelse, n.body
        return n
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "where" and len(n.args) == 3:
            n.args = [ast.Call(ast.Attribute(n.func.value, "logical_not", ast.Load()), [n.args[0]], []), n.args[2], n.args[1]]
        return n


def t_ifinv(tree): return IfInv().visit(tree)


def t_comploop(tree):
    for f in funcs(tree):
        cnt = [0]
        def do(body):
            out = []
            for s in body:
                for fld in ("body", "orelse"):
                    if isinstance(s, (ast.If, ast.For, ast.While, ast.With)) and getattr(s, fld, None):
                        setattr(s, fld, do(getattr(s, fld)))
                if isinstance(s, (ast.Assign, ast.Return)):
                    # outermost ListComps evaluated unconditionally in the expression
                    found = []
                    class C(ast.NodeTransformer):
                        def visit_Lambda(self, n): return n
                        def visit_GeneratorExp(self, n): return n
                        def visit_IfExp(self, n): return n
                        def visit_BoolOp(self, n): return n
                        def visit_DictComp(self, n): return n
                        def visit_ListComp(self, n):
                            cnt[0] += 1
                            nm = f"acc_{cnt[0]}"
                            found.append((nm, n)); return ast.Name(nm, ast.Load())
                    s = C().visit(s)
                    for nm, n in found:
                        out.append(ast.Assign([ast.Name(nm, ast.Store())], ast.List([], ast.Load())))
                        inner = [ast.Expr(ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), "append", ast.Load()), [n.elt], []))]
                        for g in reversed(n.generators):
                            for c in reversed(g.ifs): inner = [ast.If(c, inner, [])]
                            inner = [ast.For(g.target, g.iter, inner, [])]
                        out += inner
                out.append(s)
            return out
        f.body = do(f.body)
    return tree


def t_lamdef(tree):
    for f in funcs(tree):
        cnt = [0]
        def do(body):
            out = []
            for s in body:
                for fld in ("body", "orelse"):
                    if isinstance(s, (ast.If, ast.For, ast.While, ast.With)) and getattr(s, fld, None):
                        setattr(s, fld, do(getattr(s, fld)))
                if isinstance(s, (ast.Assign, ast.Return, ast.AugAssign)):
                    found = []
                    class C(ast.NodeTransformer):
                        def visit_ListComp(self, n): return n
                        def visit_GeneratorExp(self, n): return n
                        def visit_Lambda(self, n):
                            cnt[0] += 1; nm = f"fn_{cnt[0]}"; found.append((nm, n)); return ast.Name(nm, ast.Load())
                    s = C().visit(s)
                    for nm, n in found:
                        out.append(ast.FunctionDef(nm, n.args, [ast.Return(n.body)], [], None, None))
                out.append(s)
            return out
        f.body = do(f.body)
    return tree


def t_order(tree):
    """definition order: reverse the runs of plain functions at module level, and the methods of classes"""
    def rev(body, cls=False):
        out, run = [], []
        for n in body:
            if isinstance(n, ast.ClassDef): n.body = rev(n.body, True)
            if isinstance(n, ast.FunctionDef) and (not n.decorator_list or cls):
                run.append(n)
            else:
                out += run[::-1]; run = []; out.append(n)
        return out + run[::-1]
    for n in tree.body:
        if isinstance(n, ast.ClassDef): n.body = rev(n.body, True)
    return tree


class Funs(ast.NodeTransformer):
    M = {ast.Add: "add", ast.Mult: "multiply", ast.Div: "true_divide", ast.Sub: "subtract"}
    def visit_Return(self, n):
        v = n.value
        if isinstance(v, ast.BinOp) and type(v.op) in self.M and not lit(v.left) and not lit(v.right) and isinstance(v.op, (ast.Mult, ast.Div, ast.Sub)):
            n.value = ast.Call(ast.parse("np." + self.M[type(v.op)], mode="eval").body, [v.left, v.right], [])
        return n


def t_ufunc(tree): return Funs().visit(tree) if has_np(tree) else tree


class Aug(ast.NodeTransformer):
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            return ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value))
        return n


def t_aug(tree): return Aug().visit(tree)


class Shape(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute):
            isnp = isinstance(f.value, ast.Name) and f.value.id == "np"
            if isnp and f.attr == "atleast_1d" and len(n.args) == 1:
                return ast.Call(ast.parse("np.atleast_1d", mode="eval").body, [ast.Call(ast.parse("np.asarray", mode="eval").body, n.args, [])], [])
            if isnp and f.attr in ("stack", "concatenate") and len(n.args) == 1 and not n.keywords:
                n.keywords = [ast.keyword("axis", ast.Constant(0))]
            if isnp and f.attr == "expand_dims" and len(n.args) == 2 and isinstance(n.args[1], ast.Constant) and n.args[1].value == 0:
                return ast.Subscript(n.args[0], ast.Tuple([ast.Constant(None), ast.Constant(Ellipsis)], ast.Load()), ast.Load())
            if f.attr == "reshape" and not isnp and len(n.args) == 1:
                return ast.Call(ast.parse("np.reshape", mode="eval").body, [f.value, n.args[0]], [])
            if isnp and f.attr == "reshape" and len(n.args) == 2:
                return ast.Call(ast.Attribute(n.args[0], "reshape", ast.Load()), [n.args[1]], [])
            if f.attr == "squeeze" and not isnp and not n.args:
                return ast.Call(ast.parse("np.squeeze", mode="eval").body, [f.value], [])
            if isnp and f.attr == "squeeze" and len(n.args) == 1:
                return ast.Call(ast.Attribute(n.args[0], "squeeze", ast.Load()), [], [])
            if f.attr == "flatten" and not n.args:
                return ast.Call(ast.Attribute(f.value, "ravel", ast.Load()), [], [])
        if isinstance(f, ast.Name) and f.id == "vmap" and len(n.args) == 1 and not n.keywords:
            n.keywords = [ast.keyword("in_axes", ast.Constant(0))]
        return n


def t_shape(tree): return Shape().visit(tree) if has_np(tree) else tree


T = {k[2:]: v for k, v in list(globals().items()) if k.startswith("t_")}

if __name__ == "__main__":
    name, *checks = sys.argv[1:]
    subprocess.check_call(["git", "-C", S, "checkout", "-q", "--", "."])
    for f in FILES:
        t = ast.parse(open(f).read())
        for nm in name.split("+"):
            t = T[nm](t)
        open(f, "w").write(ast.unparse(ast.fix_missing_locations(t)) + "\n# end\n")
    if os.environ.get("TESTS"):
        env = dict(os.environ, PYTHONPATH=S, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-n", "4", "-p", "no:cacheprovider", "tests"], cwd=S, env=env, capture_output=True, text=True)
        print(name, "tests:", r.stdout.strip().splitlines()[-1], flush=True)
        if r.returncode: print("\n".join(r.stdout.splitlines()[-25:]))
    from concurrent.futures import ThreadPoolExecutor
    e2 = dict(os.environ, VERIF_REPO=S, VERIF_EVIDENCE=os.environ.get("EV", "/tmp/m/evr"))
    if not checks: checks = ["C%02d" % i for i in range(1, 33)]
    def go(c):
        q = subprocess.run(["python3-vt", VERIF + "/run.py", c], env=e2, capture_output=True, text=True)
        return c, q.returncode, (q.stdout + q.stderr).strip().splitlines()
    with ThreadPoolExecutor(int(os.environ.get("J", "6"))) as ex:
        for c, rc, o in ex.map(go, checks):
            und = [l for l in o if "undecided" in l.lower() and not " 0 undecided" in l]
            if rc or und:
                print(name, c, rc, " || ".join(o[:3])[:700], flush=True)
    print(name, "done", flush=True)
    if not os.environ.get("KEEP"): subprocess.check_call(["git", "-C", S, "checkout", "-q", "--", "."])

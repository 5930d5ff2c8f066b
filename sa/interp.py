"""Abstract interpreter over the Python AST of the analysed package."""
import ast
import builtins as _b
import operator
import os
import time
import warnings

import numpy as np

from . import terms as T
from .terms import Term, const, mk
from .values import *
from .values import fmt
from . import pylib, steer
from .steer import small

warnings.simplefilter("ignore", SyntaxWarning)
PKG = "jax_cosmo"
PRELUDE = "<standard library>"
_ast_cache = {}

BUILTIN_EXC = {
    n: getattr(_b, n) for n in dir(_b)
    if isinstance(getattr(_b, n), type) and issubclass(getattr(_b, n), BaseException)
}
# exceptions raised by JAX at tracing sinks, with their Python bases
JAX_EXC = {
    "ConcretizationTypeError": "TypeError", "TracerBoolConversionError": "TypeError",
    "TracerArrayConversionError": "TypeError", "TracerIntegerConversionError": "TypeError",
    "UnexpectedTracerError": "RuntimeError", "LinAlgError": "ValueError",
    "DistributionNotFound": "Exception",
}

BINOPS = {
    ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.Pow: "pow", ast.Mod: "mod",
    ast.FloorDiv: "floordiv", ast.MatMult: "matmul", ast.BitAnd: "and", ast.BitOr: "or", ast.BitXor: "xor",
    ast.LShift: "lshift", ast.RShift: "rshift",
}
PYOPS = {
    "add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv, "pow": operator.pow,
    "mod": operator.mod, "floordiv": operator.floordiv, "and": operator.and_, "or": operator.or_,
    "xor": operator.xor, "lshift": operator.lshift, "rshift": operator.rshift,
}
CMPS = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge", ast.Eq: "eq", ast.NotEq: "ne"}
PYCMP = {"lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge, "eq": operator.eq, "ne": operator.ne}
PRELUDE_OF = {"itertools", "itertools.chain", "collections", "contextlib", "types", "functools", "dataclasses"}
DUNDER = {"add": "__add__", "sub": "__sub__", "mul": "__mul__", "div": "__truediv__", "pow": "__pow__",
          "matmul": "__matmul__", "mod": "__mod__", "floordiv": "__floordiv__"}
NUM = (int, float, bool)


def isnum(v):
    return isinstance(v, (int, float)) or isinstance(v, Arr)


class Interp:
    def __init__(self, root, summaries=True, budget=60.0):
        self.root = root
        self.modules = {}
        self.jit_level = 0
        self.ctx_level = 0
        self.stack = []
        self.journal = None
        self.events = []
        self.writes = {}
        self.cond_raises = []
        self.conds = []
        self.summaries = summaries
        self.sum_log = []
        self.functions_seen = set()
        self.calls = 0
        self.deadline = time.time() + budget
        self.cur = None
        self.oplog = set()
        self.frames = []
        self.enum_bases = {}
        from . import models

        self.models = models
        self.builtins = models.make_builtins(self)

    # ------------------------------------------------------------ modules
    def module_file(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py")
        if os.path.exists(p + ".py"):
            return p + ".py"
        return None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        f = self.module_file(name)
        if f is None or not os.path.exists(f):
            raise AbsRaise("ImportError", f"no module {name}", self.loc())
        if f not in _ast_cache:
            with open(f) as fh:
                src = fh.read()
            _ast_cache[f] = ast.parse(src, f)
        tree = _ast_cache[f]
        m = AModule(name, os.path.relpath(f, self.root))
        self.modules[name] = m
        env = Env(None, m)
        env.vars = m.ns
        doc = ast.get_docstring(tree, clean=False)
        m.ns["__doc__"] = doc if doc is not None else None
        if doc is None:
            m.ns["__doc__"] = None
        self.stack.append((f"<module {name}>", m))
        saved = self.cur
        lv, cl = self.jit_level, self.ctx_level
        self.jit_level = self.ctx_level = 0
        try:
            for st in tree.body:
                try:
                    self.exec_block([st], env)
                except Incomplete as e:
                    names = _bound_names(st)
                    if not names or time.time() > self.deadline:
                        raise
                    for nm in names:  # only the uses of these names are undecided
                        m.ns[nm] = Unknown(f"{nm} of {name}: {e}")
        finally:
            self.jit_level, self.ctx_level = lv, cl
            self.stack.pop()
            self.cur = saved
        if self.summaries:
            self.models.install_summaries(self, m)
        if "." in name:
            par, ch = name.rsplit(".", 1)
            self.modules[par].ns.setdefault(ch, m)
        return m

    def prelude(self, name):
        """Standard-library piece written in interpreted Python."""
        m = self.modules.get("<prelude>")
        if m is None:
            f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "prelude.py")
            if f not in _ast_cache:
                with open(f) as fh:
                    _ast_cache[f] = ast.parse(fh.read(), f)
            m = AModule("prelude", PRELUDE)
            env = Env(None, m)
            env.vars = m.ns
            self.modules["<prelude>"] = m
            saved, j = self.cur, self.journal
            self.journal = None
            try:
                for st in _ast_cache[f].body:
                    self.exec_block([st], env)
            finally:
                self.cur, self.journal = saved, j
        return m.ns.get(name)

    def get(self, path):
        """Public entity by dotted path below the package; AnchorLost if absent."""
        parts = path.split(".")
        for cut in range(len(parts), -1, -1):
            name = ".".join([PKG] + parts[:cut])
            if self.module_file(name):
                v = self.load(name)
                for p in parts[cut:]:
                    if isinstance(v, AModule):
                        if p not in v.ns:
                            raise AnchorLost(path)
                        v = v.ns[p]
                    else:
                        v = self.getattr(v, p)
                return v
        raise AnchorLost(path)

    # ------------------------------------------------------------ helpers
    def loc(self):
        return self.cur

    def setloc(self, node, env):
        if hasattr(node, "lineno") and env.module.file is not PRELUDE:
            fn = self.stack[-1][0] if self.stack else "?"
            self.cur = (env.module.file, node.lineno, fn)
            T.cur_loc[0] = self.cur

    def raise_(self, cls, msg=""):
        raise AbsRaise(cls, msg, self.cur)

    def event(self, kind, **kw):
        self.events.append(dict(kind=kind, loc=self.cur, stack=[s[0] for s in self.stack], **kw))

    def sink(self, cls, what):
        """A tracer reached a construct that needs a concrete value."""
        self.event("trace-sink", what=what)
        self.raise_(cls, f"tracer used in {what}")

    def tick(self):
        self.calls += 1
        if self.calls % 256 == 0 and time.time() > self.deadline:
            raise Incomplete("analysis budget exhausted at " + fmt(self.cur))

    def check_level(self, a):
        if a.lvl > self.ctx_level:
            self.event("leaked-tracer-use", value=repr(a))
            self.raise_("UnexpectedTracerError", "value of a finished trace used")

    # ------------------------------------------------------------ writes
    def put(self, container, key, val):
        """Journaled write into a native dict or list slot."""
        if self.journal is not None:
            k = (id(container), key)
            if k not in self.journal:
                if isinstance(container, dict):
                    self.journal[k] = (container, key, container.get(key, _MISSING))
                else:
                    self.journal[k] = (container, key, container[key])
        self.writes[(id(container), key if isinstance(key, (str, int, tuple)) else repr(key))] = self.cur
        container[key] = val

    def mutate_list(self, lst, new):
        """Journaled replacement of the content of a native list/dict/set."""
        if self.journal is not None:
            k = (id(lst), _WHOLE)
            if k not in self.journal:
                self.journal[k] = (lst, _WHOLE, _copyc(lst))
        self.writes[(id(lst), "*")] = self.cur
        if isinstance(lst, list):
            lst[:] = new
        else:
            lst.clear()
            lst.update(new)

    def del_(self, container, key):
        if isinstance(container, dict):
            if self.journal is not None:
                k = (id(container), key)
                if k not in self.journal:
                    self.journal[k] = (container, key, container.get(key, _MISSING))
            self.writes[(id(container), key if isinstance(key, (str, int, tuple)) else repr(key))] = self.cur
            del container[key]
        else:
            n = list(container)
            del n[key]
            self.mutate_list(container, n)

    def fork(self, thunk):
        """Run thunk; return (outcome, writes) with the store rolled back."""
        outer = self.journal
        self.journal = {}
        try:
            try:
                r = thunk()
            except AbsRaise as e:
                r = ("raise", e)
            j = self.journal
            w = {}
            for k, (c, key, old) in j.items():
                if key is _WHOLE:
                    w[k] = (c, key, _copyc(c), old)
                else:
                    w[k] = (c, key, c.get(key, _MISSING) if isinstance(c, dict) else c[key], old)
            for k, (c, key, old) in reversed(list(j.items())):
                _restore(c, key, old)
        finally:
            self.journal = outer
        return r, w

    def apply(self, w):
        for k, (c, key, new, old) in w.items():
            if key is _WHOLE:
                self.mutate_list(c, new)
            elif new is _MISSING:
                if key in c:
                    self.del_(c, key)
            else:
                self.put(c, key, new)

    def merge_writes(self, c, w1, w2):
        for k in list(w1) + [k for k in w2 if k not in w1]:
            if k in w1 and k in w2:
                cont, key, a, old = w1[k]
                b = w2[k][2]
            elif k in w1:
                cont, key, a, old = w1[k]
                b = old
            else:
                cont, key, b, old = w2[k]
                a = old
            if key is _WHOLE:
                if _same_container(a, b):
                    self.mutate_list(cont, a)
                else:
                    if isinstance(a, list) and len(a) == len(b):
                        self.mutate_list(cont, [self.merge(c, x, y) for x, y in zip(a, b)])
                    else:
                        raise Incomplete("container differs between branches at " + fmt(self.cur))
            elif a is _MISSING and b is _MISSING:
                continue
            elif a is _MISSING or b is _MISSING:
                self.put(cont, key, Unknown(f"{key} defined on one branch only"))
            else:
                self.put(cont, key, self.merge(c, a, b))

    def merge(self, c, a, b):
        """Gated merge of two abstract values under condition term c."""
        if a is b:
            return a
        if isinstance(a, NUM) and isinstance(b, NUM) and type(a) == type(b) and a == b:
            return a
        if isnum(a) and isnum(b):
            A, B = self.arr(a), self.arr(b)
            if A.shape == B.shape:
                d = np.frompyfunc(lambda x, y: mk("select", c, x, y), 2, 1)(A.d, B.d)
                kind = "jnp" if "jnp" in (A.kind, B.kind) else ("np" if "np" in (A.kind, B.kind) else "py")
                dt = A.dt if A.dt == B.dt else self.models.promote(A.dt, B.dt)
                return Arr(d, dt, max(A.lvl, B.lvl), kind)
            return Unknown("shapes differ between branches")
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        if type(a) is type(b) and isinstance(a, (tuple, list)) and len(a) == len(b):
            if isinstance(a, pylib.NT):
                if a.cls is not b.cls:
                    return Unknown("different values on the two branches")
                return pylib.NT([self.merge(c, x, y) for x, y in zip(a, b)], a.cls)
            return type(a)(self.merge(c, x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b):
            return {k: self.merge(c, a[k], b[k]) for k in a}
        if isinstance(a, AObj) and isinstance(b, AObj) and a.cls is b.cls and set(a.attrs) == set(b.attrs):
            o = AObj(a.cls)
            o.attrs = {k: self.merge(c, a.attrs[k], b.attrs[k]) for k in a.attrs}
            return o
        if isinstance(a, Ext) and a == b:
            return a
        return Unknown("different values on the two branches")

    # ------------------------------------------------------------ arrays
    def arr(self, v, kind=None):
        """View a number/array/nested list as Arr."""
        if isinstance(v, Arr):
            if v.lvl:
                if v.lvl > self.ctx_level:
                    self.check_level(v)
                if self.frames:
                    f = self.frames[-1]
                    if v.lvl < f[0] and v.lvl > f[1]:
                        f[1] = v.lvl
            return v
        if isinstance(v, bool):
            return Arr(const(v), "b", 0, "py", True)
        if isinstance(v, int):
            return Arr(const(v), "i", 0, "py", True)
        if isinstance(v, float):
            return Arr(const(v), "f", 0, "py", True)
        if isinstance(v, Unknown):
            raise Incomplete(v.why + " at " + fmt(self.cur))
        if isinstance(v, (list, tuple)):
            return self.models.np_array(self, v, "jnp")
        if isinstance(v, AObj) and v.cls.lookup("__jax_array__")[0] is not None:
            return self.arr(self.call(self.getattr(v, "__jax_array__"), []))
        self.raise_("TypeError", f"not an array: {_tname(v)}")

    def native(self, v):
        """Concrete Python value of a constant level-0 scalar, else None."""
        if isinstance(v, Arr):
            if v.d.size == 1 and v.term().op == "const" and v.lvl == 0:
                x = v.term().attr
                if v.dt[0] == "b":
                    return bool(x)
                if v.dt[0] in "iu":
                    return int(x)
                return float(x)
            return None
        return v

    def index_of(self, v, what="index"):
        """Concrete int for structural use (shape, range, slice)."""
        if v is None or isinstance(v, int):
            return v
        if isinstance(v, Arr):
            if v.lvl > 0:
                self.sink("TracerIntegerConversionError", what)
            n = self.native(v)
            if n is not None and (isinstance(n, int) or (v.kind != "py" and float(n).is_integer() and v.dt[0] in "iu")):
                return int(n)
            if n is not None and isinstance(n, float):
                self.raise_("TypeError", f"float used as {what}")
            raise Incomplete(f"symbolic {what} at {fmt(self.cur)}")
        if isinstance(v, float):
            self.raise_("TypeError", f"float used as {what}")
        if isinstance(v, AObj) and v.cls.lookup("__index__")[0]:
            return self.call(self.getattr(v, "__index__"), [])
        self.raise_("TypeError", f"{_tname(v)} used as {what}")

    # ------------------------------------------------------------ truth
    def truth(self, v):
        """True/False, or a condition Term when abstract (eager only)."""
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str, bytes)):
            return bool(v)
        if isinstance(v, (list, tuple, dict, set, frozenset, range)):
            return len(v) > 0
        if isinstance(v, Arr):
            self.check_level(v)
            if v.lvl > 0:
                self.sink("TracerBoolConversionError", "Python condition")
            if v.d.size != 1:
                if v.d.size == 0:
                    return False
                self.raise_("ValueError", "truth value of an array is ambiguous")
            n = self.native(v)
            if n is not None:
                return bool(n)
            t = v.term()
            if t.op in ("nan",):
                return True
            if v.dt != "b":
                t = mk("ne", t, const(0))
            if t.op == "const":
                return bool(t.attr)
            return t
        if isinstance(v, Unknown):
            raise Incomplete(v.why + " at " + fmt(self.cur))
        if isinstance(v, AObj):
            for nm in ("__bool__", "__len__"):
                if v.cls.lookup(nm)[0] is not None:
                    return self.truth(self.call(self.getattr(v, nm), []))
        return True

    def truth_native(self, v):
        t = self.truth(v)
        if isinstance(t, Term):
            raise Incomplete("abstract condition at " + fmt(self.cur))
        return t

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, env):
        i = 0
        n = len(stmts)
        while i < n:
            s = stmts[i]
            self.tick()
            self.setloc(s, env)
            if isinstance(s, ast.If):
                t = self.truth(self.eval(s.test, env))
                if isinstance(t, Term):
                    return self.exec_if(t, s, stmts[i + 1:], env)
                r = self.exec_block(s.body if t else s.orelse, env)
            else:
                m = getattr(self, "st_" + type(s).__name__, None)
                if m is None:
                    raise Incomplete(f"statement {type(s).__name__} at {fmt(self.cur)}")
                r = m(s, env)
            if r is not None:
                return r
            i += 1
        return None

    def exec_if(self, c, s, rest, env):
        self.conds.append((c, self.cur))
        at = self.cur
        r1, w1 = self.fork(lambda: self.exec_block(s.body, env))
        r2, w2 = self.fork(lambda: self.exec_block(s.orelse, env))
        for r in (r1, r2):
            if r is not None and r[0] in ("break", "continue"):
                raise Incomplete("loop exit under abstract condition at " + fmt(at))
        if r1 is None and r2 is None:
            self.merge_writes(c, w1, w2)
            return self.exec_block(rest, env)
        if r1 is not None and r1[0] == "raise":
            if r2 is not None and r2[0] == "raise":
                raise r1[1]
            self.cond_raises.append((c, r1[1]))
            self.apply(w2)
            return r2 if r2 is not None else self.exec_block(rest, env)
        if r2 is not None and r2[0] == "raise":
            self.cond_raises.append((mk("not", c), r2[1]))
            self.apply(w1)
            return r1 if r1 is not None else self.exec_block(rest, env)
        if r1 is None:
            r1, w1 = self.fork(lambda: self.exec_block(list(s.body) + list(rest), env))
        elif r2 is None:
            r2, w2 = self.fork(lambda: self.exec_block(list(s.orelse) + list(rest), env))
        if r1 is not None and r1[0] == "raise":
            self.cond_raises.append((c, r1[1]))
            self.apply(w2)
            return r2
        if r2 is not None and r2[0] == "raise":
            self.cond_raises.append((mk("not", c), r2[1]))
            self.apply(w1)
            return r1
        self.merge_writes(c, w1, w2)
        v1 = r1[1] if r1 else None
        v2 = r2[1] if r2 else None
        return ("return", self.merge(c, v1, v2))

    def st_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, env)

    def st_Pass(self, s, env):
        pass

    def st_Return(self, s, env):
        return ("return", self.eval(s.value, env) if s.value is not None else None)

    def st_Break(self, s, env):
        return ("break",)

    def st_Continue(self, s, env):
        return ("continue",)

    def st_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, s, env):
        if isinstance(s.target, ast.Name):
            ann = env.vars.setdefault("__annotations__", {})
            if env.cls is not None or env.func is None:
                ann[s.target.id] = ast.unparse(s.annotation)
            else:
                env.vars.pop("__annotations__", None)
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def st_AugAssign(self, s, env):
        op = BINOPS[type(s.op)]
        tgt = s.target
        if isinstance(tgt, ast.Name):
            old = self.lookup(tgt.id, env)
            get, setv = old, lambda v: self.assign(tgt, v, env)
        elif isinstance(tgt, ast.Attribute):
            o = self.eval(tgt.value, env)
            old = self.getattr(o, tgt.attr)
            setv = lambda v: self.setattr(o, tgt.attr, v)
        else:
            o = self.eval(tgt.value, env)
            k = self.eval_index(tgt.slice, env)
            old = self.getitem(o, k)
            setv = lambda v: self.setitem(o, k, v)
        rhs = self.eval(s.value, env)
        self.setloc(s, env)
        if isinstance(old, list) and op == "add":
            self.mutate_list(old, list(old) + list(self.iterate(rhs)))
            setv(old)
            return
        if isinstance(old, list) and op == "mul":
            self.mutate_list(old, list(old) * rhs)
            setv(old)
            return
        if isinstance(old, dict) and op == "or":
            new = dict(old)
            new.update(rhs)
            self.mutate_list(old, new)
            return
        if isinstance(old, Arr) and old.kind == "np":
            r = self.arr(rhs)
            if r.kind == "jnp":
                # host array op= jax array: numpy converts the jax operand
                if r.lvl > 0:
                    self.sink("TracerArrayConversionError", "in-place host array operation")
            new = self.binop(op, Arr(old.d, old.dt, old.lvl, "np"), Arr(r.d, r.dt, r.lvl, "np"))
            self.inplace(old, new)
            setv(old)
            return
        if isinstance(old, AObj):
            nm = "__i" + DUNDER.get(op, "__x__")[2:]
            if old.cls.lookup(nm)[0] is not None:
                setv(self.call(self.getattr(old, nm), [rhs]))
                return
        setv(self.binop(op, old, rhs))

    def inplace(self, old, new):
        if new.shape != old.shape:
            self.raise_("ValueError", "in-place broadcast")
        if old.dt[0] in "iub" and new.dt[0] == "f":
            self.raise_("TypeError", "in-place cast from float to int")
        d = old.d
        if self.journal is not None:
            raise Incomplete("in-place array write under abstract condition at " + fmt(self.cur))
        self.writes[(id(old.d), "*")] = self.cur
        self.event("inplace", arr=id(old.d))
        d[...] = new.d

    def st_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.del_(env.vars, t.id)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.eval_index(t.slice, env)
                if isinstance(o, dict):
                    k = self.key(k)
                    if k not in o:
                        self.raise_("KeyError", repr(k))
                self.del_(o, k)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                self.del_(o.attrs, t.attr)

    def st_For(self, s, env):
        broke = False
        for v in self.lazy(self.eval(s.iter, env)):
            self.tick()
            self.assign(s.target, v, env)
            r = self.exec_block(s.body, env)
            if r is not None:
                if r[0] == "break":
                    broke = True
                    break
                if r[0] == "continue":
                    continue
                return r
        if not broke:
            return self.exec_block(s.orelse, env)

    def st_While(self, s, env):
        n = 0
        while True:
            self.setloc(s, env)
            if not self.truth_native(self.eval(s.test, env)):
                return self.exec_block(s.orelse, env)
            n += 1
            if n > 20000:
                raise Incomplete("loop bound at " + fmt(self.cur))
            r = self.exec_block(s.body, env)
            if r is not None:
                if r[0] == "break":
                    return
                if r[0] == "continue":
                    continue
                return r

    def st_FunctionDef(self, s, env):
        f = self.make_func(s, env)
        v = f
        for d in reversed(s.decorator_list):
            dec = self.eval(d, env)
            v = self.call(dec, [v])
        self.setvar(s.name, v, env)

    def make_func(self, s, env):
        a = s.args
        defaults = [self.eval(d, env) for d in a.defaults]
        kwd = {k.arg: self.eval(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        name = getattr(s, "name", "<lambda>")
        pre = env.func.qualname + "." if env.func else (env.cls + "." if env.cls else "")
        f = AFunc(s, env, env.module, name, pre + name, defaults, kwd)
        f.attrs["__name__"] = name
        f.attrs["__doc__"] = None
        f.attrs["__module__"] = env.module.name
        if not isinstance(s, ast.Lambda):
            f.attrs["__doc__"] = ast.get_docstring(s, clean=False)
            f.isgen = _is_gen(s)
        return f

    def st_ClassDef(self, s, env):
        bases = []
        for b in s.bases:
            if isinstance(b, ast.Starred):
                bases.extend(self.iterate(self.eval(b.value, env)))
            else:
                bases.append(self.eval(b, env))
        ckw = {k.arg: self.eval(k.value, env) for k in s.keywords}
        meta = ckw.pop("metaclass", None)
        if meta is not None and not (isinstance(meta, Ext) and meta.path.split(".")[-1] in ("ABCMeta", "EnumMeta", "EnumType")):
            raise Incomplete("metaclass at " + fmt(self.cur))
        e = Env(env, env.module)
        e.func = None
        e.cls = s.name
        e.vars["__doc__"] = ast.get_docstring(s, clean=False)
        e.vars["__module__"] = env.module.name
        e.vars["__qualname__"] = s.name
        self.exec_block(s.body, e)
        v = self.make_class(s.name, bases, e.vars, ckw, env.module, s, e)
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d, env), [v])
        self.setvar(s.name, v, env)

    def make_class(self, name, bases, ns, ckw, module, node, body_env=None):
        ab, mixin, named = [], None, False
        for b in bases:
            if isinstance(b, AClass):
                if b is not self.builtins.get("object") or len(bases) == 1:
                    ab.append(b)
            elif isinstance(b, Ext):
                if b.path == "typing.NamedTuple":
                    named = True
            elif isinstance(b, NF) and b.name in ("int", "str", "float"):
                mixin = b.name
            else:
                raise Incomplete(f"base class {b!r} at {fmt(self.cur)}")
        if named:
            ann = ns.get("__annotations__", {})
            fields = [n for n in ann]
            defaults = {n: ns.pop(n) for n in fields if n in ns}
            c = pylib.make_namedtuple(self, name, fields, defaults, ns, ab, node, module)
        else:
            c = AClass(name, ab, ns, module, node)
            if mixin is not None and not pylib.is_enum(c):
                raise Incomplete(f"subclass of {mixin} at {fmt(self.cur)}")
        for v in list(ns.values()):
            f = v
            if isinstance(f, (ClsM, StatM)):
                f = f.fn
            for g in (f.fget, f.fset) if isinstance(f, Prop) else (f,):
                while isinstance(g, (Jit, Vmap)):
                    g = g.fn
                if isinstance(g, AFunc) and body_env is not None and g.env is body_env:
                    g.owner = c
        if pylib.is_enum(c):
            pylib.finish_enum(self, c, mixin)
            return c
        for k, v in list(ns.items()):
            if isinstance(v, AObj) and v.cls.lookup("__set_name__")[0] is not None:
                self.call(self.getattr(v, "__set_name__"), [c, k])
        for b in c.mro[1:]:
            if "__init_subclass__" in b.ns:
                h = b.ns["__init_subclass__"]
                self.call(Bound(h.fn if isinstance(h, ClsM) else h, c), [], ckw)
                break
        return c

    def st_Import(self, s, env):
        for a in s.names:
            if a.name.split(".")[0] == PKG:
                m = self.load(a.name)
                if a.asname:
                    self.setvar(a.asname, m, env)
                else:
                    self.setvar(PKG, self.load(PKG), env)
            else:
                if a.asname:
                    self.setvar(a.asname, Ext(a.name), env)
                else:
                    self.setvar(a.name.split(".")[0], Ext(a.name.split(".")[0]), env)

    def st_ImportFrom(self, s, env):
        mod = s.module or ""
        if s.level:
            base = env.module.name.split(".")
            ispkg = env.module.file.endswith("__init__.py")
            drop = s.level - 1 if ispkg else s.level
            base = base[: len(base) - drop]
            mod = ".".join(base + ([mod] if mod else []))
        if mod == "__future__":
            return
        if mod.split(".")[0] == PKG:
            m = self.load(mod)
            for a in s.names:
                if a.name == "*":
                    names = m.ns.get("__all__") or [k for k in m.ns if not k.startswith("_")]
                    for n in names:
                        if n not in m.ns:
                            self.raise_("AttributeError", n)
                        self.setvar(n, m.ns[n], env)
                    continue
                if a.name in m.ns:
                    v = m.ns[a.name]
                else:
                    if self.module_file(mod + "." + a.name) is None:
                        self.raise_("ImportError", f"cannot import {a.name} from {mod}")
                    v = self.load(mod + "." + a.name)
                self.setvar(a.asname or a.name, v, env)
        else:
            for a in s.names:
                self.setvar(a.asname or a.name, self.ext_attr(Ext(mod), a.name), env)

    def st_Global(self, s, env):
        env.globals_decl |= set(s.names)

    def st_Nonlocal(self, s, env):
        env.nonlocal_decl |= set(s.names)

    def st_Assert(self, s, env):
        t = self.truth(self.eval(s.test, env))
        if isinstance(t, Term):
            self.cond_raises.append((mk("not", t), AbsRaise("AssertionError", "", self.cur)))
            return
        if not t:
            a = [self.eval(s.msg, env)] if s.msg is not None else []
            o = AObj(self.builtins["AssertionError"])
            o.attrs["args"] = tuple(a)
            raise AbsRaise("AssertionError", self.str_(a[0]) if a else "", self.cur, o)

    def st_Raise(self, s, env):
        if s.exc is None:
            for f in reversed(getattr(self, "handling", [])):
                raise f
            self.raise_("RuntimeError", "no active exception")
        v = self.eval(s.exc, env)
        self.setloc(s, env)
        if isinstance(v, AClass):
            v = self.call(v, [])
        if isinstance(v, AObj):
            a = v.attrs.get("args", ())
            raise AbsRaise(v.cls.name, ", ".join(str(x) for x in a), self.cur, v)
        if isinstance(v, Ext):
            raise AbsRaise(v.path.split(".")[-1], "", self.cur)
        raise Incomplete(f"raise of {v!r}")

    def exc_class(self, name):
        if name in BUILTIN_EXC:
            return self.builtins[name]
        return None

    def exc_matches(self, e, handler):
        if isinstance(handler, tuple):
            return any(self.exc_matches(e, h) for h in handler)
        if isinstance(handler, Ext):
            return handler.path.split(".")[-1] == e.cls
        if not isinstance(handler, AClass):
            raise Incomplete(f"except {handler!r}")
        if e.obj is not None:
            return handler in e.obj.cls.mro
        name = e.cls
        name0 = name
        name = JAX_EXC.get(name, name)
        if handler.name == name0:
            return True
        if name in BUILTIN_EXC and handler.name in BUILTIN_EXC:
            return issubclass(BUILTIN_EXC[name], BUILTIN_EXC[handler.name])
        return False

    def st_Try(self, s, env):
        try:
            try:
                r = self.exec_block(s.body, env)
            except AbsRaise as e:
                for h in s.handlers:
                    if h.type is None or self.exc_matches(e, self.eval(h.type, env)):
                        if h.name:
                            self.setvar(h.name, self.exc_obj(e), env)
                        self.handling = getattr(self, "handling", []) + [e]
                        try:
                            return self.exec_block(h.body, env)
                        finally:
                            self.handling = self.handling[:-1]
                raise
            if r is None and s.orelse:
                r = self.exec_block(s.orelse, env)
            return r
        finally:
            if s.finalbody:
                rf = self.exec_block(s.finalbody, env)
                if rf is not None:
                    return rf

    def st_With(self, s, env):
        return self._with(list(s.items), s.body, env)

    def _with(self, items, body, env):
        if not items:
            return self.exec_block(body, env)
        m, entered = self.ctx_enter(self.eval(items[0].context_expr, env))
        try:
            if items[0].optional_vars is not None:
                self.assign(items[0].optional_vars, entered, env)
            r = self._with(items[1:], body, env)
        except AbsRaise as e:
            if self.ctx_exit(m, e):
                return None
            raise
        except Incomplete:
            if hasattr(m, "leave"):
                m.leave(self)
            raise
        self.ctx_exit(m, None)
        return r

    def ctx_enter(self, v):
        if isinstance(v, AObj) and v.cls.lookup("__enter__")[0] is not None:
            return v, self.call(self.getattr(v, "__enter__"), [])
        if hasattr(v, "leave"):
            v.enter(self)
            return v, v
        if isinstance(v, pylib.GenCtx):
            return v, v.enter(self)
        if isinstance(v, (Ext, NF, Unknown)) or v is None:
            return None, v
        raise Incomplete(f"with {v!r} at {fmt(self.cur)}")

    def ctx_exit(self, m, e):
        """Leave a context; True when it swallows the exception."""
        if m is None:
            return False
        if hasattr(m, "leave"):
            m.leave(self)
            return False
        if isinstance(m, pylib.GenCtx):
            return m.exit(self, e)
        if e is None:
            self.call(self.getattr(m, "__exit__"), [None, None, None])
            return False
        o = self.exc_obj(e)
        return self.truth_native(self.call(self.getattr(m, "__exit__"), [o.cls, o, None]))

    def exc_obj(self, e):
        if e.obj is None:
            c = self.builtins.get(e.cls)
            if c is None:
                c = AClass(e.cls, [self.builtins[JAX_EXC.get(e.cls, "Exception")]], {})
            e.obj = AObj(c)
            e.obj.attrs["args"] = (e.msg,)
        return e.obj

    def st_Match(self, s, env):
        v = self.eval(s.subject, env)
        if all(pylib.simple_pattern(c.pattern) for c in s.cases):
            nm = f"__subject_{s.lineno}"
            self.setvar(nm, v, env)
            return self.exec_block(pylib.lower_match(s, nm), env)
        for c in s.cases:
            out = {}
            if not pylib.match_pattern(self, c.pattern, v, env, out):
                continue
            for k, x in out.items():
                self.setvar(k, x, env)
            if c.guard is not None and not self.truth_native(self.eval(c.guard, env)):
                continue
            return self.exec_block(c.body, env)

    # ------------------------------------------------------------ generators
    def gen_block(self, stmts, env):
        """Statements of a generator function, as a native generator."""
        for s in stmts:
            self.tick()
            self.setloc(s, env)
            y = _has_yield(s)
            r = None
            if isinstance(s, ast.If):
                t = self.truth(self.eval(s.test, env))
                if isinstance(t, Term):
                    if y or _exits(s):
                        raise Incomplete("generator control flow under abstract condition at " + fmt(self.cur))
                    r = self.exec_if(t, s, [], env)
                else:
                    r = yield from self.gen_block(s.body if t else s.orelse, env)
            elif not y:
                r = self.exec_block([s], env)
            elif isinstance(s, ast.For):
                r = yield from self.gen_for(s, env)
            elif isinstance(s, ast.While):
                r = yield from self.gen_while(s, env)
            elif isinstance(s, ast.With):
                r = yield from self.gen_with(list(s.items), s.body, env)
            elif isinstance(s, ast.Try):
                r = yield from self.gen_try(s, env)
            elif isinstance(s, (ast.Expr, ast.Assign, ast.AnnAssign)) and isinstance(s.value, (ast.Yield, ast.YieldFrom)):
                if isinstance(s.value, ast.Yield):
                    x = self.eval(s.value.value, env) if s.value.value is not None else None
                    if _has_yield(s.value.value):
                        raise Incomplete("nested yield at " + fmt(self.cur))
                    yield x
                else:
                    if not isinstance(s, ast.Expr):
                        raise Incomplete("value of yield from at " + fmt(self.cur))
                    for x in self.lazy(self.eval(s.value.value, env)):
                        yield x
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        self.assign(t, None, env)
                elif isinstance(s, ast.AnnAssign):
                    self.assign(s.target, None, env)
            else:
                raise Incomplete("yield inside an expression at " + fmt(self.cur))
            if r is not None:
                return r
        return None

    def gen_for(self, s, env):
        for v in self.lazy(self.eval(s.iter, env)):
            self.tick()
            self.assign(s.target, v, env)
            r = yield from self.gen_block(s.body, env)
            if r is not None and r[0] == "break":
                return None
            if r is not None and r[0] == "return":
                return r
        return (yield from self.gen_block(s.orelse, env))

    def gen_while(self, s, env):
        while True:
            self.tick()
            self.setloc(s, env)
            if not self.truth_native(self.eval(s.test, env)):
                return (yield from self.gen_block(s.orelse, env))
            r = yield from self.gen_block(s.body, env)
            if r is not None and r[0] == "break":
                return None
            if r is not None and r[0] == "return":
                return r

    def gen_with(self, items, body, env):
        if not items:
            return (yield from self.gen_block(body, env))
        m, entered = self.ctx_enter(self.eval(items[0].context_expr, env))
        try:
            if items[0].optional_vars is not None:
                self.assign(items[0].optional_vars, entered, env)
            r = yield from self.gen_with(items[1:], body, env)
        except AbsRaise as e:
            if self.ctx_exit(m, e):
                return None
            raise
        self.ctx_exit(m, None)
        return r

    def gen_try(self, s, env):
        pending = r = None
        try:
            r = yield from self.gen_block(s.body, env)
            if r is None:
                r = yield from self.gen_block(s.orelse, env)
        except AbsRaise as e:
            pending = e
        if pending is not None:
            for h in s.handlers:
                if h.type is None or self.exc_matches(pending, self.eval(h.type, env)):
                    if h.name:
                        self.setvar(h.name, self.exc_obj(pending), env)
                    self.handling = getattr(self, "handling", []) + [pending]
                    try:
                        r = yield from self.gen_block(h.body, env)
                        pending = None
                    except AbsRaise as e:
                        pending = e
                    finally:
                        self.handling = self.handling[:-1]
                    break
        rf = yield from self.gen_block(s.finalbody, env)
        if rf is not None:
            return rf
        if pending is not None:
            raise pending
        return r

    def run_gen(self, f, env):
        g = self.gen_block(f.node.body, env)
        exc = None
        while True:
            if len(self.stack) > 150:
                raise Incomplete("recursion depth")
            self.stack.append((f.qualname, f))
            loc = self.cur
            try:
                v = next(g) if exc is None else g.throw(exc)
            except StopIteration:
                return
            finally:
                self.stack.pop()
                self.cur = loc
                T.cur_loc[0] = loc
            exc = None
            try:
                yield v
            except AbsRaise as e:
                exc = e

    # ------------------------------------------------------------ variables
    def setvar(self, name, v, env):
        if name in env.globals_decl:
            self.put(env.module.ns, name, v)
            self.event("global-write", name=name)
            return
        if name in env.nonlocal_decl:
            e = env.parent
            while e is not None and name not in e.vars:
                e = e.parent
            self.put(e.vars, name, v)
            return
        if self.journal is not None:
            self.put(env.vars, name, v)
        else:
            env.vars[name] = v

    def lookup(self, name, env):
        e = env
        first = True
        while e is not None:
            if name in e.vars and (first or e.cls is None):
                if not (name in env.globals_decl and e.parent is not None):
                    v = e.vars[name]
                    if isinstance(v, Unknown):
                        raise Incomplete(v.why + f" ({name}) at " + fmt(self.cur))
                    return v
            first = False
            e = e.parent
        ns = env.module.ns
        if name in ns:
            v = ns[name]
            if isinstance(v, Unknown):
                raise Incomplete(v.why + f" ({name}) at " + fmt(self.cur))
            return v
        if name in self.builtins:
            return self.builtins[name]
        self.raise_("NameError", f"name {name!r} is not defined")

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = list(self.iterate(v))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    self.raise_("ValueError", "not enough values to unpack")
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, vals[i: len(vals) - after], env)
                for e, x in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(e, x, env)
                return
            if len(vals) != len(t.elts):
                self.raise_("ValueError", f"cannot unpack {len(vals)} values into {len(t.elts)}")
            for e, x in zip(t.elts, vals):
                self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval_index(t.slice, env), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Incomplete("assignment target")

    # ------------------------------------------------------------ expressions
    def eval(self, n, env):
        m = getattr(self, "ex_" + type(n).__name__, None)
        if m is None:
            raise Incomplete(f"expression {type(n).__name__} at {fmt(self.cur)}")
        return m(n, env)

    def ex_Constant(self, n, env):
        return n.value

    def ex_Name(self, n, env):
        return self.lookup(n.id, env)

    def ex_Attribute(self, n, env):
        o = self.eval(n.value, env)
        self.setloc(n, env)
        return self.getattr(o, n.attr)

    def ex_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args and "super" not in env.vars:
            e = env
            while e is not None and (e.func is None or e.func.owner is None):
                e = e.parent
            if e is None:
                self.raise_("RuntimeError", "super(): no arguments")
            first = e.func.node.args.args[0].arg
            return SuperObj(e.func.owner, e.vars[first])
        f = self.eval(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, env)))
            else:
                args.append(self.eval(a, env))
        kw = {}
        for k in n.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                if not isinstance(v, dict):
                    raise Incomplete("** of non-dict")
                for kk, vv in v.items():
                    if kk in kw:
                        self.raise_("TypeError", f"multiple values for {kk}")
                    kw[kk] = vv
            else:
                if k.arg in kw:
                    self.raise_("TypeError", f"multiple values for {k.arg}")
                kw[k.arg] = v
        self.setloc(n, env)
        if isinstance(f, NF) and f.name in ("locals", "globals", "vars") and not args:
            return env.module.ns if f.name == "globals" else env.vars
        loc = self.cur
        r = self.call(f, args, kw)
        self.cur = loc
        T.cur_loc[0] = loc
        return r

    def ex_BinOp(self, n, env):
        a = self.eval(n.left, env)
        b = self.eval(n.right, env)
        self.setloc(n, env)
        return self.binop(BINOPS[type(n.op)], a, b)

    def ex_UnaryOp(self, n, env):
        v = self.eval(n.operand, env)
        self.setloc(n, env)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            if isinstance(t, Term):
                return Arr(mk("not", t), "b", 0, "py")
            return not t
        if isinstance(v, NUM) and not isinstance(v, bool):
            if isinstance(n.op, ast.USub):
                return -v
            if isinstance(n.op, ast.UAdd):
                return +v
            return ~v
        if isinstance(n.op, ast.USub):
            if isinstance(v, AObj):
                return self.call(self.getattr(v, "__neg__"), [])
            return self.models.unary(self, "neg", v)
        if isinstance(n.op, ast.UAdd):
            return v
        a = self.arr(v)
        if a.dt == "b":
            return self.models.unary(self, "not", v)
        raise Incomplete("~ on non-bool")

    def ex_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        conds = []
        for e in n.values:
            v = self.eval(e, env)
            t = self.truth(v)
            if isinstance(t, Term):
                conds.append((t, v))
                continue
            if t != isand or e is n.values[-1]:
                return self._boolmerge(conds, v, isand) if conds else v
        return self._boolmerge(conds[:-1], conds[-1][1], isand, conds[-1][0])

    def _boolmerge(self, conds, v, isand, vt=None):
        """Value of the expression that ends at v unless an earlier operand decides."""
        boolean = lambda x: isinstance(x, bool) or isinstance(x, Arr) and x.dt[0] == "b"
        if all(boolean(x) for _, x in conds) and boolean(v):
            if vt is None:
                if v != isand:
                    return v
                conds, (vt, _) = conds[:-1], conds[-1]
            t = vt
            for c, _ in reversed(conds):
                t = mk("and" if isand else "or", c, t)
            return Arr(t, "b", 0, "py")
        num = lambda x: isinstance(x, (int, float)) or isinstance(x, Arr) and x.d.size == 1
        if not all(num(x) for _, x in conds) or not num(v):
            raise Incomplete("mixed boolean expression at " + fmt(self.cur))
        r = self.arr(v)
        for t, x in reversed(conds):
            x = self.arr(x)
            dt = "f" if "f" in (x.dt[0], r.dt[0]) else x.dt
            a, b = (r, x) if isand else (x, r)
            r = Arr(np.full(r.shape or x.shape, mk("select", t, a.term(), b.term()), object), dt, max(x.lvl, r.lvl), "py" if x.kind == r.kind == "py" else "jnp")
        return r

    def ex_Compare(self, n, env):
        left = self.eval(n.left, env)
        res = None
        for op, c in zip(n.ops, n.comparators):
            right = self.eval(c, env)
            self.setloc(n, env)
            r = self.compare(op, left, right)
            if res is None:
                res = r
            else:
                ta, tb = self.truth(res), self.truth(r)
                if ta is False:
                    return False
                if ta is True:
                    res = r
                elif tb is True:
                    pass
                elif tb is False:
                    return False
                else:
                    res = Arr(mk("and", ta, tb), "b", 0, "py")
            if len(n.ops) > 1 and self.truth(res) is False:
                return False
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b)
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(r, bool):
                return r if isinstance(op, ast.In) else not r
            return r if isinstance(op, ast.In) else Arr(mk("not", self.truth(r)), "b", 0, "py")
        return self.cmp(CMPS[type(op)], a, b)

    def is_(self, a, b):
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a == b
        if isinstance(a, (bool, type(None), DType)) or isinstance(b, (bool, type(None), DType)):
            return a is b or (isinstance(a, DType) and a == b)
        if isinstance(a, (int, str)) and isinstance(b, (int, str)):
            return type(a) == type(b) and a == b
        return a is b

    def cmp(self, op, a, b):
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            raise Incomplete("comparison of unknown at " + fmt(self.cur))
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isnum(a) and isnum(b):
                return self.models.compare(self, op, a, b)
            if op in ("eq", "ne"):
                if isinstance(a, (str, type(None), Ext, AObj, AClass, AFunc, dict)) or isinstance(b, (str, type(None), Ext, AObj, AClass, AFunc, dict)):
                    return op == "ne"
                if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
                    return self.models.compare(self, op, self.arr(a), self.arr(b))
            self.raise_("TypeError", "unorderable")
        if isinstance(a, NUM) and isinstance(b, NUM) or isinstance(a, str) and isinstance(b, str):
            if steer.ON[0] and isinstance(a, NUM) and small(a) and small(b):
                steer.note(self.cur, op, a, b)
            return PYCMP[op](a, b)
        if type(a) is type(b) and isinstance(a, (list, tuple)) or isinstance(a, tuple) and isinstance(b, tuple):
            if op in ("eq", "ne"):
                if len(a) != len(b):
                    return op == "ne"
                res = True
                for x, y in zip(a, b):
                    if x is y:
                        continue
                    t = self.truth(self.cmp("eq", x, y))
                    if t is False:
                        return op == "ne"
                    if isinstance(t, Term):
                        res = t if res is True else mk("and", res, t)
                if res is True:
                    return op == "eq"
                return Arr(res if op == "eq" else mk("not", res), "b", 0, "py")
            for x, y in zip(a, b):
                t = self.truth_native(self.cmp("eq", x, y))
                if not t:
                    return self.cmp(op, x, y)
            return PYCMP[op](len(a), len(b))
        if isinstance(a, dict) and isinstance(b, dict) and op in ("eq", "ne"):
            if set(a) != set(b):
                return op == "ne"
            for k in a:
                if a[k] is not b[k] and not self.truth_native(self.cmp("eq", a[k], b[k])):
                    return op == "ne"
            return op == "eq"
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return PYCMP[op](a, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, AObj):
                nm = {"eq": "__eq__", "ne": "__ne__", "lt": "__lt__", "le": "__le__", "gt": "__gt__", "ge": "__ge__"}[op]
                if x.cls.lookup(nm)[0] is not None:
                    return self.call(self.getattr(x, nm), [y])
                if op == "ne" and x.cls.lookup("__eq__")[0] is not None:
                    return not self.truth_native(self.call(self.getattr(x, "__eq__"), [y]))
        if op == "eq":
            return a is b or (isinstance(a, (Ext, DType, range, bytes)) and a == b)
        if op == "ne":
            return not (a is b or (isinstance(a, (Ext, DType, range, bytes)) and a == b))
        if isinstance(a, AObj) or isinstance(b, AObj):
            self.raise_("TypeError", "unorderable")
        self.raise_("TypeError", f"unorderable {_tname(a)} {_tname(b)}")

    def contains(self, c, x):
        if isinstance(c, str):
            return x in c
        if isinstance(c, (dict, set, frozenset)):
            return self.key(x) in c
        if isinstance(c, range):
            n = self.native(x)
            if isinstance(n, (int, float)):
                return n in c
            if isinstance(x, Arr) and x.lvl > 0:
                self.sink("TracerBoolConversionError", "membership test")
            raise Incomplete("abstract membership")
        if isinstance(c, (list, tuple)):
            acc = False
            for y in c:
                if y is x:
                    return True
                t = self.truth(self.cmp("eq", y, x))
                if t is True:
                    return True
                if isinstance(t, Term):
                    acc = t if acc is False else mk("or", acc, t)
            return acc if acc is False else Arr(acc, "b", 0, "py")
        if isinstance(c, AObj):
            if c.cls.lookup("__contains__")[0] is not None:
                return self.call(self.getattr(c, "__contains__"), [x])
            return self.contains(list(self.iterate(c)), x)
        if isinstance(c, Arr):
            return self.models.call(self, "jax.numpy.any", [self.models.compare(self, "eq", c, x)], {})
        raise Incomplete(f"in {_tname(c)}")

    def ex_IfExp(self, n, env):
        t = self.truth(self.eval(n.test, env))
        if isinstance(t, Term):
            self.conds.append((t, self.cur))
            r1, w1 = self.fork(lambda: ("val", self.eval(n.body, env)))
            r2, w2 = self.fork(lambda: ("val", self.eval(n.orelse, env)))
            if r1[0] == "raise":
                if r2[0] == "raise":
                    raise r1[1]
                self.cond_raises.append((t, r1[1]))
                self.apply(w2)
                return r2[1]
            if r2[0] == "raise":
                self.cond_raises.append((mk("not", t), r2[1]))
                self.apply(w1)
                return r1[1]
            self.merge_writes(t, w1, w2)
            return self.merge(t, r1[1], r2[1])
        return self.eval(n.body if t else n.orelse, env)

    def ex_Tuple(self, n, env):
        return tuple(self._elts(n, env))

    def ex_List(self, n, env):
        return self._elts(n, env)

    def ex_Set(self, n, env):
        return {self.key(x) for x in self._elts(n, env)}

    def _elts(self, n, env):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.eval(e.value, env)))
            else:
                out.append(self.eval(e, env))
        return out

    def ex_Dict(self, n, env):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.eval(v, env))
            else:
                d[self.key(self.eval(k, env))] = self.eval(v, env)
        return d

    def ex_Lambda(self, n, env):
        return self.make_func(n, env)

    def _comp(self, gens, env, body):
        e = Env(env, env.module, env.func)
        e.globals_decl = set()

        def go(i):
            if i == len(gens):
                body(e)
                return
            g = gens[i]
            it = self.eval(g.iter, e if i else env)
            for v in self.lazy(it):
                self.tick()
                self.assign(g.target, v, e)
                if all(self.truth_native(self.eval(c, e)) for c in g.ifs):
                    go(i + 1)

        go(0)

    def ex_ListComp(self, n, env):
        out = []
        self._comp(n.generators, env, lambda e: out.append(self.eval(n.elt, e)))
        return out

    def ex_GeneratorExp(self, n, env):
        e = Env(env, env.module, env.func)
        first = self.eval(n.generators[0].iter, env)

        def go(i):
            if i == len(n.generators):
                yield self.eval(n.elt, e)
                return
            g = n.generators[i]
            for v in self.lazy(first if i == 0 else self.eval(g.iter, e)):
                self.tick()
                self.assign(g.target, v, e)
                if all(self.truth_native(self.eval(c, e)) for c in g.ifs):
                    yield from go(i + 1)

        return _Iter(self, go(0))

    def ex_SetComp(self, n, env):
        return {self.key(x) for x in self.ex_ListComp(n, env)}

    def ex_DictComp(self, n, env):
        d = {}

        def b(e):
            d[self.key(self.eval(n.key, e))] = self.eval(n.value, e)

        self._comp(n.generators, env, b)
        return d

    def ex_JoinedStr(self, n, env):
        out = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                out.append(self.ex_FormattedValue(v, env))
        return "".join(out)

    def ex_FormattedValue(self, n, env):
        x = self.eval(n.value, env)
        if n.conversion in (114, 97):
            x = self.call(self.builtins["repr"], [x])
        elif n.conversion == 115 or n.format_spec is None:
            x = self.str_(x)
        if n.format_spec is None:
            return x
        spec = self.eval(n.format_spec, env)
        return self.call(self.builtins["format"], [x, spec]) if spec else self.str_(x)

    def ex_Starred(self, n, env):
        raise Incomplete("starred")

    def ex_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        self.assign(n.target, v, env)
        return v

    def ex_Yield(self, n, env):
        raise Incomplete("yield inside an expression at " + fmt(self.cur))

    ex_YieldFrom = ex_Yield

    def ex_Slice(self, n, env):
        return slice(*[self.index_of(self.eval(x, env), "slice bound") if x is not None else None
                       for x in (n.lower, n.upper, n.step)])

    def eval_index(self, n, env):
        if isinstance(n, ast.Tuple):
            return tuple(self.eval(e, env) if not isinstance(e, ast.Starred) else e for e in n.elts)
        return self.eval(n, env)

    def ex_Subscript(self, n, env):
        o = self.eval(n.value, env)
        k = self.eval_index(n.slice, env)
        self.setloc(n, env)
        return self.getitem(o, k)

    def ex_Index(self, n, env):
        return self.eval(n.value, env)

    # ------------------------------------------------------------ operations
    def str_(self, x):
        if isinstance(x, (str, int, float, bool, type(None))):
            return str(x)
        if isinstance(x, (list, tuple)):
            return type(x).__name__ + "(" + ", ".join(self.str_(y) for y in x) + ")"
        if isinstance(x, AObj):
            for nm in ("__str__", "__repr__"):
                f, _ = x.cls.lookup(nm)
                if f is not None:
                    return self.call(Bound(f, x), [])
            if x.cls.exc:
                a = x.attrs.get("args", ())
                return "" if not a else self.str_(a[0]) if len(a) == 1 else self.str_(tuple(a))
            if hasattr(x.cls, "members"):
                return f"{x.cls.name}.{x.attrs['name']}"
            return f"<{x.cls.name}>"
        if isinstance(x, Arr):
            return "<" + "|".join(T.show(t, 2) for t in x.flat()[:4]) + ">"
        return repr(x)

    def key(self, k):
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        if isinstance(k, Arr):
            if k.lvl > 0:
                self.sink("TypeError", "dictionary key")
            if k.kind == "py":
                n = self.native(k)
                return n if n is not None else PyKey(k)
            self.raise_("TypeError", "unhashable type: array")
        if isinstance(k, (list, dict, set)):
            self.raise_("TypeError", f"unhashable type: {type(k).__name__}")
        if isinstance(k, AObj):
            h, hc = k.cls.lookup("__hash__")
            e, ec = k.cls.lookup("__eq__")
            if e is not None and (h is None or k.cls.mro.index(ec) < k.cls.mro.index(hc)):
                self.raise_("TypeError", f"unhashable type: {k.cls.name}")
            if h is not None:
                return ObjKey(self, k, hash(self.native(self.call(Bound(h, k), []))))
        return k

    def unkey(self, k):
        if isinstance(k, PyKey):
            return k.arr
        if isinstance(k, ObjKey):
            return k.obj
        if isinstance(k, tuple):
            return tuple(self.unkey(x) for x in k)
        return k

    def binop(self, op, a, b):
        if isinstance(a, NUM) and isinstance(b, NUM) and op != "matmul":
            if steer.ON[0] and op in ("mod", "floordiv", "rshift") and small(a) and small(b):
                steer.note(self.cur, op, a, b)
            try:
                r = PYOPS[op](a, b)
                if isinstance(r, complex):
                    raise Incomplete("complex constant")
                return r
            except ZeroDivisionError:
                self.raise_("ZeroDivisionError", "")
            except OverflowError:
                self.raise_("OverflowError", "")
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            raise Incomplete((a.why if isinstance(a, Unknown) else b.why) + " at " + fmt(self.cur))
        for x, y, r in ((a, b, False), (b, a, True)):
            if isinstance(x, (AObj, pylib.NT)):
                nm = DUNDER.get(op)
                if nm:
                    nm = nm if not r else "__r" + nm[2:]
                    if x.cls.lookup(nm)[0] is not None:
                        return self.call(self.getattr(x, nm), [y])
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
                o = b if isinstance(a, (list, tuple)) else a
                if isinstance(o, Arr) and o.kind != "np":
                    self.raise_("TypeError", "array op with a Python sequence")
            if isinstance(a, (str, type(None), dict, AFunc, Ext, AClass, AObj)) or isinstance(b, (str, type(None), dict, AFunc, Ext, AClass, AObj)):
                self.raise_("TypeError", f"unsupported operand types {_tname(a)}, {_tname(b)}")
            return self.models.binop(self, op, a, b)
        if isinstance(a, str) and op == "mod":
            vals = list(b) if isinstance(b, tuple) else [b]
            if all(isinstance(x, (str, int, float)) for x in vals) or isinstance(b, dict) and all(isinstance(x, (str, int, float)) for x in b.values()):
                try:
                    return a % (b if isinstance(b, dict) else tuple(vals))
                except (ValueError, TypeError, KeyError) as e:
                    self.raise_(type(e).__name__, str(e))
            return "<formatted " + a + " " + ", ".join(self.str_(x) for x in vals) + ">"
        if op == "add" and type(a) is type(b) and isinstance(a, (str, list, tuple)):
            return a + b
        if op == "add" and isinstance(a, tuple) and isinstance(b, tuple):
            return tuple(a) + tuple(b)
        if op == "mul" and isinstance(a, (str, list, tuple)) and isinstance(b, int):
            return a * b
        if op == "mul" and isinstance(b, (str, list, tuple)) and isinstance(a, int):
            return b * a
        if op in ("or", "and", "sub", "xor") and isinstance(a, (set, frozenset, dict)):
            return PYOPS[op](a, b)
        self.raise_("TypeError", f"unsupported operand types for {op}: {_tname(a)}, {_tname(b)}")

    def iterate(self, v):
        """All items of an iterable, as a list."""
        if isinstance(v, (list, tuple, range, str)):
            return list(v)
        if isinstance(v, (dict, set, frozenset)):
            return [self.unkey(k) for k in v]
        out = []
        for x in self.lazy(v):
            out.append(x)
            if len(out) > 100000:
                raise Incomplete("unbounded iteration at " + fmt(self.cur))
        return out

    def lazy(self, v):
        """Native iterator over an iterable, drawing items on demand."""
        if isinstance(v, (list, tuple, range, str)):
            return iter(v)
        if isinstance(v, (dict, set, frozenset)):
            return iter([self.unkey(k) for k in v])
        if isinstance(v, _Iter):
            return self._drain(v)
        if isinstance(v, Arr):
            if v.ndim == 0:
                self.raise_("TypeError", "iteration over a 0-d array")
            return iter([Arr(v.d[i], v.dt, v.lvl, v.kind) for i in range(v.shape[0])])
        if isinstance(v, AObj):
            if v.cls.lookup("__iter__")[0] is not None:
                it = self.call(self.getattr(v, "__iter__"), [])
                if isinstance(it, AObj):
                    if it.cls.lookup("__next__")[0] is None:
                        self.raise_("TypeError", "iter() returned non-iterator")
                    return self._protocol(lambda n: self.call(self.getattr(it, "__next__"), []), "StopIteration")
                return self.lazy(it)
            if v.cls.lookup("__getitem__")[0] is not None:
                return self._protocol(lambda n: self.getitem(v, n), "IndexError")
            self.raise_("TypeError", f"{v.cls.name} is not iterable")
        if isinstance(v, AClass) and hasattr(v, "members"):
            return iter(list(v.members.values()))
        if isinstance(v, Unknown):
            raise Incomplete(v.why)
        self.raise_("TypeError", f"{_tname(v)} is not iterable")

    def _drain(self, it):
        while True:
            v, ok = it.next(self)
            if not ok:
                return
            yield v

    def _protocol(self, step, stop):
        n = 0
        while True:
            try:
                v = step(n)
            except AbsRaise as e:
                if e.cls == stop:
                    return
                raise
            yield v
            n += 1

    def getitem(self, o, k):
        if isinstance(o, Arr):
            return self.models.index(self, o, k)
        if isinstance(o, (list, tuple, str, range)):
            if isinstance(k, slice):
                if steer.ON[0]:
                    self.models.note_slice(self, len(o), k)
                return o[k]
            i = self.index_of(k, "sequence index")
            if not -len(o) <= i < len(o):
                self.raise_("IndexError", "index out of range")
            return o[i]
        if isinstance(o, dict):
            kk = self.key(k)
            if kk not in o:
                f = getattr(o, "factory", None)
                if f is None:
                    self.raise_("KeyError", repr(kk))
                v = self.call(f, [])
                if not getattr(o, "peek", False):
                    self.put(o, kk, v)
                return v
            v = o[kk]
            if isinstance(v, Unknown):
                raise Incomplete(v.why)
            return v
        if isinstance(o, AtIdx):
            return AtIdx(o.arr, k)
        if isinstance(o, AObj):
            return self.call(self.getattr(o, "__getitem__"), [k])
        if isinstance(o, AClass):
            if hasattr(o, "members"):
                if k not in o.members:
                    self.raise_("KeyError", repr(k))
                return o.members[k]
            g, _ = o.lookup("__class_getitem__")
            if g is not None:
                return self.call(g.fn if isinstance(g, ClsM) else g, [o, k])
            return o
        if isinstance(o, (Ext, NF)):
            return o  # typing subscripts
        self.raise_("TypeError", f"{_tname(o)} is not subscriptable")

    def setitem(self, o, k, v):
        if isinstance(o, dict):
            self.put(o, self.key(k), v)
        elif isinstance(o, list):
            if isinstance(k, slice):
                n = list(o)
                n[k] = list(self.iterate(v))
                self.mutate_list(o, n)
                return
            i = self.index_of(k)
            if not -len(o) <= i < len(o):
                self.raise_("IndexError", "assignment index out of range")
            self.put(o, i % len(o), v)
        elif isinstance(o, Arr):
            if o.kind != "np":
                self.raise_("TypeError", "JAX arrays are immutable")
            r = self.arr(v)
            if r.lvl > 0:
                self.sink("TracerArrayConversionError", "store into a host array")
            if o.dt[0] in "iub" and r.dt[0] == "f":
                r = self.models.astype(self, r, o.dt)
            kk = self.models.static_index(self, k)
            d = o.d
            if self.journal is not None:
                raise Incomplete("array store under abstract condition")
            self.event("inplace", arr=id(d))
            self.writes[(id(d), "*")] = self.cur
            d[kk] = r.d if r.d.ndim else r.term()
        elif isinstance(o, AObj):
            self.call(self.getattr(o, "__setitem__"), [k, v])
        else:
            self.raise_("TypeError", f"{_tname(o)} does not support item assignment")

    # ------------------------------------------------------------ attributes
    def ext_attr(self, o, name):
        p = o.path + "." + name
        if name == "newaxis":
            return None
        c = self.models.ext_constant(p)
        if c is not None:
            return c
        if o.path in PRELUDE_OF:
            v = self.prelude(o.path.replace(".", "_") + "_" + name)
            if v is not None:
                return v
        if o.path == "enum" and name in pylib.ENUMS:
            e = self.enum_bases.get(name)
            if e is None:
                e = self.enum_bases[name] = pylib.enum_base(name)
            return e
        return Ext(self.models.canon(p))

    def getattr(self, o, name, default=None, has_default=False):
        try:
            return self._getattr(o, name)
        except AbsRaise as e:
            if has_default and e.cls == "AttributeError":
                return default
            raise

    def _getattr(self, o, name):
        if isinstance(o, AModule):
            if name in o.ns:
                v = o.ns[name]
                if isinstance(v, Unknown):
                    raise Incomplete(v.why + " at " + fmt(self.cur))
                return v
            sub = o.name + "." + name
            if self.module_file(sub) and sub in self.modules:
                return self.modules[sub]
            self.raise_("AttributeError", f"module {o.name} has no attribute {name}")
        if isinstance(o, Ext):
            return self.ext_attr(o, name)
        if isinstance(o, AObj):
            cv, _ = o.cls.lookup(name)
            if isinstance(cv, Prop):
                return self.call(cv.fget, [o])
            desc = isinstance(cv, AObj) and cv.cls.lookup("__get__")[0] is not None
            if desc and (name not in o.attrs or cv.cls.lookup("__set__")[0] is not None):
                return self.call(self.getattr(cv, "__get__"), [o, o.cls])
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Unknown):
                    raise Incomplete(v.why)
                return v
            if cv is not None:
                return self.bind(cv, o, o.cls)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return o.attrs
            g, _ = o.cls.lookup("__getattr__")
            if g is not None:
                return self.call(Bound(g, o), [name])
            self.raise_("AttributeError", f"{o.cls.name} has no attribute {name}")
        if isinstance(o, AClass):
            cv, _ = o.lookup(name)
            if cv is not None:
                if isinstance(cv, ClsM):
                    return Bound(cv.fn, o)
                if isinstance(cv, StatM):
                    return cv.fn
                if isinstance(cv, AObj) and cv.cls.lookup("__get__")[0] is not None:
                    return self.call(self.getattr(cv, "__get__"), [None, o])
                return cv
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__bases__":
                return tuple(o.bases)
            if name == "__dict__":
                return o.ns
            if name in ("__setattr__", "__getattribute__") and o is self.builtins["object"]:
                if name == "__setattr__":
                    return NF("object.__setattr__", lambda I, a, k: I.put(a[0].attrs, a[1], a[2]))
                return NF("object.__getattribute__", lambda I, a, k: I.plain_attr(a[0], a[1]))
            if name == "__subclasses__":
                raise Incomplete("__subclasses__ at " + fmt(self.cur))
            if name == "__init__":
                return NF("object.__init__", lambda I, a, k: None)
            if name == "__new__":
                return NF("object.__new__", lambda I, a, k: AObj(a[0]))
            if name == "__mro__":
                return tuple(o.mro)
            self.raise_("AttributeError", f"class {o.name} has no attribute {name}")
        if isinstance(o, SuperObj):
            inst = o.obj
            mro = inst.mro if isinstance(inst, AClass) else inst.cls.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.ns:
                    cv = c.ns[name]
                    if isinstance(cv, Prop):
                        return self.call(cv.fget, [inst])
                    if isinstance(cv, ClsM):
                        return Bound(cv.fn, inst if isinstance(inst, AClass) else inst.cls)
                    if isinstance(cv, StatM):
                        return cv.fn
                    if isinstance(inst, AClass):
                        return cv
                    return self.bind(cv, inst, inst.cls)
            if name == "__init__":
                def init(I, a, k):
                    if not isinstance(inst, AClass) and inst.cls.exc:
                        inst.attrs["args"] = tuple(a)
                        return None
                    if a or k:
                        I.raise_("TypeError", "object.__init__() takes exactly one argument")
                return NF("object.__init__", init)
            if name == "__new__":
                return NF("object.__new__", lambda I, a, k: AObj(a[0]))
            if name == "__setattr__":
                return NF("object.__setattr__", lambda I, a, k: I.put(inst.attrs, a[0], a[1]))
            if name == "__getattribute__":
                return NF("object.__getattribute__", lambda I, a, k: I.plain_attr(inst, a[0]))
            if name == "__init_subclass__":
                return NF("object.__init_subclass__", lambda I, a, k: None)
            self.raise_("AttributeError", f"super has no attribute {name}")
        return self.models.native_attr(self, o, name)

    def plain_attr(self, o, name):
        if name in o.attrs:
            return o.attrs[name]
        cv, _ = o.cls.lookup(name)
        if cv is None:
            self.raise_("AttributeError", f"{o.cls.name} has no attribute {name}")
        return self.call(cv.fget, [o]) if isinstance(cv, Prop) else self.bind(cv, o, o.cls)

    def bind(self, cv, o, cls):
        if isinstance(cv, ClsM):
            return Bound(cv.fn, cls)
        if isinstance(cv, StatM):
            return cv.fn
        if isinstance(cv, (AFunc, Jit, Vmap)) or (isinstance(cv, NF) and cv.name.startswith("method:")):
            return Bound(cv, o)
        return cv

    def setattr(self, o, name, v):
        if isinstance(o, AObj):
            s, _ = o.cls.lookup("__setattr__")
            if s is not None:
                self.call(Bound(s, o), [name, v])
                return
            cv, _ = o.cls.lookup(name)
            if isinstance(cv, AObj) and cv.cls.lookup("__set__")[0] is not None:
                self.call(self.getattr(cv, "__set__"), [o, v])
                return
            if isinstance(cv, Prop):
                if cv.fset is None:
                    self.raise_("AttributeError", f"can't set attribute {name}")
                self.call(cv.fset, [o, v])
                return
            if isinstance(v, Arr):
                v.lvl  # noqa
            self.put(o.attrs, name, v)
        elif isinstance(o, AModule):
            self.event("global-write", name=f"{o.name}.{name}")
            self.put(o.ns, name, v)
        elif isinstance(o, AClass):
            self.event("global-write", name=f"{o.name}.{name}")
            self.put(o.ns, name, v)
        elif isinstance(o, AFunc):
            self.put(o.attrs, name, v)
        elif isinstance(o, (Jit, Vmap, NF, Partial)):
            pass
        else:
            self.raise_("AttributeError", f"cannot set {name} on {_tname(o)}")

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw=None):
        kw = kw or {}
        self.tick()
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, AFunc):
            return self.call_func(f, args, kw)
        if isinstance(f, NF):
            return f.fn(self, list(args), kw)
        if isinstance(f, Ext):
            return self.models.call(self, f.path, list(args), kw)
        if isinstance(f, Partial):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.fn, list(f.args) + list(args), k)
        if isinstance(f, AClass):
            return self.construct(f, args, kw)
        if isinstance(f, Jit):
            return self.models.call_jit(self, f, list(args), kw)
        if isinstance(f, Vmap):
            return self.models.call_vmap(self, f, list(args), kw)
        if isinstance(f, Summary):
            return f.fn(self, f, list(args), kw)
        if isinstance(f, AObj):
            c, _ = f.cls.lookup("__call__")
            if c is None:
                self.raise_("TypeError", f"{f.cls.name} object is not callable")
            return self.call(Bound(c, f), args, kw)
        if isinstance(f, DType):
            a = self.models.np_array(self, args[0] if args else 0.0, "np")
            return self.models.astype(self, a, f.name)
        if isinstance(f, Unknown):
            raise Incomplete(f.why)
        if callable(f) and not isinstance(f, (int, float, str)):
            return f(self, list(args), kw)
        self.raise_("TypeError", f"{_tname(f)} is not callable")

    def construct(self, cls, args, kw):
        if cls.exc:
            o = AObj(cls)
            o.attrs["args"] = tuple(args)
            init, own = cls.lookup("__init__")
            if init is not None:
                self.call(Bound(init, o), args, kw)
            return o
        if cls in (self.builtins.get("object"),):
            return AObj(cls)
        if hasattr(cls, "members"):
            return pylib.enum_call(self, cls, args)
        new, _ = cls.lookup("__new__")
        if new is not None:
            o = self.call(new.fn if isinstance(new, StatM) else new, [cls] + list(args), kw)
            if not (isinstance(o, AObj) and cls in o.cls.mro):
                return o
        else:
            o = AObj(cls)
        init, _ = cls.lookup("__init__")
        if init is not None:
            self.call(self.bind(init, o, cls), args, kw)
        elif (args or kw) and new is None:
            self.raise_("TypeError", f"{cls.name}() takes no arguments")
        return o

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        npos = len(a.posonlyargs)
        out = {}
        args = list(args)
        kw = dict(kw)
        if len(args) > len(names):
            if a.vararg is None:
                self.raise_("TypeError", f"{f.name}() takes {len(names)} positional arguments but {len(args)} were given")
            out[a.vararg.arg] = tuple(args[len(names):])
            args = args[: len(names)]
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        for n, v in zip(names, args):
            out[n] = v
        extra = {}
        for k, v in kw.items():
            if k in names and names.index(k) >= npos or k in [x.arg for x in a.kwonlyargs]:
                if k in out:
                    self.raise_("TypeError", f"{f.name}() got multiple values for argument {k}")
                out[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.raise_("TypeError", f"{f.name}() got an unexpected keyword argument {k}")
        if a.kwarg is not None:
            out[a.kwarg.arg] = extra
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in out:
                j = i - (len(names) - nd)
                if j < 0:
                    self.raise_("TypeError", f"{f.name}() missing argument {n}")
                out[n] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in out:
                if x.arg not in f.kwdefaults:
                    self.raise_("TypeError", f"{f.name}() missing keyword argument {x.arg}")
                out[x.arg] = f.kwdefaults[x.arg]
        return out

    def call_func(self, f, args, kw):
        if len(self.stack) > 150:
            raise Incomplete("recursion depth")
        env = Env(f.env, f.module, f)
        env.vars.update(self.bind_args(f, args, kw))
        self.functions_seen.add((f.module.file, f.qualname))
        self.stack.append((f.qualname, f))
        loc = self.cur
        try:
            if isinstance(f.node, ast.Lambda):
                self.setloc(f.node, env)
                return self.eval(f.node.body, env)
            if f.isgen:
                return _Iter(self, self.run_gen(f, env), effects=True)
            r = self.exec_block(f.node.body, env)
            return r[1] if r is not None and r[0] == "return" else None
        finally:
            self.stack.pop()
            self.cur = loc
            T.cur_loc[0] = loc


class AnchorLost(Exception):
    pass


class _Iter:
    """One-shot iterator. Drawn items are kept so that a rolled-back branch can draw them again."""

    def __init__(self, I, it, effects=False):
        self.it = iter(it)
        self.buf = []
        self.pos = [0]
        self.effects = effects
        self.born = I.journal

    def next(self, I):
        p = self.pos[0]
        if type(p) is not int:
            raise Incomplete("iterator position differs between branches at " + fmt(I.cur))
        if p >= len(self.buf):
            if I.journal is not None and I.journal is not self.born and self.effects:
                raise Incomplete("generator resumed under abstract condition at " + fmt(I.cur))
            try:
                self.buf.append(next(self.it))
            except StopIteration:
                return None, False
            if I.journal is None or I.journal is self.born:
                return self.buf.pop(), True
        if I.journal is None:
            v = self.buf[p]
            del self.buf[:p + 1]
            self.pos[0] = 0
            return v, True
        I.put(self.pos, 0, p + 1)
        return self.buf[p], True


class _M:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


_MISSING = _M("missing")
_WHOLE = _M("whole")


def _copyc(c):
    return list(c) if isinstance(c, list) else (dict(c) if isinstance(c, dict) else set(c))


def _restore(c, key, old):
    if key is _WHOLE:
        if isinstance(c, list):
            c[:] = old
        else:
            c.clear()
            c.update(old)
    elif old is _MISSING:
        c.pop(key, None)
    else:
        c[key] = old


def _same_container(a, b):
    if isinstance(a, list):
        return len(a) == len(b) and all(x is y for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(a[k] is b[k] for k in a)
    return a == b


def _bound_names(st):
    """Names a module-level statement defines when it can be skipped as a whole."""
    if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
        return [st.name]
    if isinstance(st, ast.Assign) and all(isinstance(t, ast.Name) for t in st.targets):
        return [t.id for t in st.targets]
    if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
        return [st.target.id]
    return []


def _has_yield(s):
    if s is None or isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
        return False
    if isinstance(s, (ast.Yield, ast.YieldFrom)):
        return True
    return any(_has_yield(c) for c in ast.iter_child_nodes(s))


def _exits(s):
    if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
        return False
    if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
        return True
    return any(_exits(c) for c in ast.iter_child_nodes(s))


def _is_gen(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def _tname(v):
    if isinstance(v, AObj):
        return v.cls.name
    if isinstance(v, Arr):
        return f"array{v.shape}"
    return type(v).__name__

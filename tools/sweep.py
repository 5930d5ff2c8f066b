"""Developer helper: syntactic mutation sweep.  sweep.py FILE [N workers] -> survivors on stdout."""
import warnings
warnings.simplefilter("ignore")
import ast, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import threading, queue
VERIF = os.environ.get("VERIF", "/verif")
ORDER = {
    "background": "C11 C12 C13 C10 C08 C32", "power": "C14 C16 C32", "transfer": "C15 C32", "probes": "C25 C19 C32 C23 C17",
    "redshift": "C24 C23 C19 C32", "angular_cl": "C17 C18 C20 C32 C21", "likelihood": "C21 C32", "sparse": "C22 C23",
    "bias": "C26", "interpolate": "C27 C29 C23", "integrate": "C28 C32", "ode": "C28", "core": "C10 C01 C02 C23",
    "utils": "C26", "constants": "C30", "jax_utils": "C01 C02", "parameters": "C10",
}
ALL = ["C%02d" % i for i in range(1, 33)]


def docs(tree):
    d = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            d.add(id(n.body[0].value))
    return d


def mutants(src):
    tree = ast.parse(src)
    skip = docs(tree)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    out = []

    def rep(n, new):
        s, e = pos(n)
        out.append((n.lineno, b[s:e].decode(), new, (b[:s] + new.encode() + b[e:]).decode()))

    u = ast.unparse
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and id(n) not in skip:
            v = n.value
            if isinstance(v, bool): rep(n, str(not v))
            elif isinstance(v, int): rep(n, str(v + 1)); v and rep(n, f"({v}-1)")
            elif isinstance(v, float): rep(n, repr(v * 1.03 if v else 0.03))
            elif isinstance(v, str): rep(n, repr(v + "_")) if len(v) < 25 else None
            elif v is None: pass
        elif isinstance(n, ast.BinOp):
            l, r = f"({u(n.left)})", f"({u(n.right)})"
            alts = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Pow: ["*"], ast.Mod: ["*"], ast.FloorDiv: ["/"], ast.MatMult: ["*"]}.get(type(n.op), [])
            for o in alts: rep(n, f"({l} {o} {r})")
            if isinstance(n.op, (ast.Mult, ast.Add)): rep(n, l); rep(n, r)
            if isinstance(n.op, (ast.Div, ast.Sub)): rep(n, l)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)): rep(n, u(n.operand))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}[type(n.ops[0])]
            rep(n, f"({u(n.left)} {o} {u(n.comparators[0])})")
        elif isinstance(n, ast.IfExp): rep(n, f"({u(n.body)})"); rep(n, f"({u(n.orelse)})")
        elif isinstance(n, ast.If): rep(n.test, "True"); rep(n.test, "False")
        elif isinstance(n, ast.BoolOp):
            for q in n.values: rep(n, f"({u(q)})")
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2:
                a = [u(x) for x in n.args]
                for i in range(len(a) - 1):
                    c = list(a); c[i], c[i + 1] = c[i + 1], c[i]
                    rep(n, f"{u(n.func)}({', '.join(c + [u(k) if not isinstance(k, ast.keyword) else (k.arg + '=' if k.arg else '**') + u(k.value) for k in n.keywords])})")
            for i, k in enumerate(n.keywords):
                ks = [x for j, x in enumerate(n.keywords) if j != i]
                rep(n, f"{u(n.func)}({', '.join([u(x) for x in n.args] + [(x.arg + '=' if x.arg else '**') + u(x.value) for x in ks])})")
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("sqrt", "abs", "exp", "log", "squeeze", "flatten", "atleast_1d", "sin", "sinh", "tanh", "asarray", "array", "clip", "conj", "transpose", "where", "stop_gradient") and n.args:
                rep(n, f"({u(n.args[-1])})")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise)) and not (isinstance(n, ast.Expr) and id(n.value) in skip):
            rep(n, "pass")
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
            rep(n, u(n.value))
    # variable replacement
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            names = sorted({x.arg for x in f.args.args} | {x.id for s in f.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
            names = [x for x in names if x not in ("self", "cls")]
            rnd = random.Random(f.name)
            for s in f.body:
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in names and len(names) > 1:
                        rep(x, rnd.choice([q for q in names if q != x.id]))
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "cosmo" and x.attr[0] != "_":
                        alt = {"Omega_m": "Omega_c", "Omega_c": "Omega_m", "Omega_b": "Omega_c", "Omega_k": "k", "h": "n_s"}.get(x.attr)
                        if alt: rep(x, "cosmo." + alt)
    seen, res = set(), []
    for m in out:
        if m[3] != src and m[3] not in seen:
            try: compile(m[3], "x", "exec")
            except SyntaxError: continue
            seen.add(m[3]); res.append(m)
    return sorted(res, key=lambda m: m[0])


def main():
    f = sys.argv[1]
    nw = int(sys.argv[2]) if len(sys.argv) > 2 else 5
    frac = float(os.environ.get("FRAC", "1"))
    full = os.environ.get("FULL", "1") == "1"
    lo, hi = [int(x) for x in os.environ.get("LINES", "0-100000").split("-")]
    src = open(f"/repo/jax_cosmo/{f}").read()
    ms = [m for m in mutants(src) if lo <= m[0] <= hi]
    random.Random(5).shuffle(ms)
    ms = sorted(ms[: int(len(ms) * frac)], key=lambda m: m[0])
    first = ORDER[os.path.basename(f)[:-3]].split()
    print(f, len(ms), "mutants", flush=True)
    q = queue.Queue()
    for m in ms: q.put(m)
    lock = threading.Lock()
    stat = dict(caught=0, survived=0)

    def worker(i):
        d = f"/tmp/m/w{os.getpid()}_{i}"
        shutil.copytree("/repo/jax_cosmo", d + "/jax_cosmo")
        env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/ev", PYTHONDONTWRITEBYTECODE="1")
        while True:
            try: m = q.get_nowait()
            except queue.Empty: break
            open(f"{d}/jax_cosmo/{f}", "w").write(m[3])
            res = None; und = []
            for c in first + ([x for x in ALL if x not in first] if full else []):
                try:
                    r = subprocess.run(["python3-vt", VERIF + "/run.py", c], env=env, capture_output=True, text=True, timeout=900)
                except subprocess.TimeoutExpired:
                    und.append(c + ":timeout"); continue
                if r.returncode == 1: res = c; break
                if r.returncode: res = c + ":broken"; break
                if "0 undecided" not in r.stdout: und.append(c)
            with lock:
                if res: stat["caught"] += 1
                else:
                    stat["survived"] += 1
                    print(f"SURVIVED {f}:{m[0]} [{m[1][:90]!r}] -> [{m[2][:90]!r}] undecided={und}", flush=True)
        shutil.rmtree(d)

    ts = [threading.Thread(target=worker, args=(i,)) for i in range(nw)]
    [t.start() for t in ts]; [t.join() for t in ts]
    print(f, stat, flush=True)


main()

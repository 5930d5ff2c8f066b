"""Developer helper: run tools/fidelity_snips.py with Python/JAX and with the analyser and compare, element by element."""
import json, os, shutil, subprocess, sys
import numpy as np
HERE = os.path.dirname(os.path.abspath(__file__))
X = [0.31, 0.77, 0.15, 0.93]
MM = [[0.9, 0.2, 0.4], [0.1, 1.3, 0.5], [0.3, 0.6, 1.1]]
REAL = r'''
import sys, json, traceback
import jax; jax.config.update("jax_enable_x64", True)
import numpy as onp, jax.numpy as jnp
from jax_cosmo import snips as S
def ser(v):
    if v is None or isinstance(v, (bool, str)): return v
    if isinstance(v, (list, tuple)): return [ser(q) for q in v]
    if isinstance(v, (int, float)): return float(v)
    if hasattr(v, "dtype") and hasattr(v, "shape"):
        a = onp.asarray(v)
        return a.astype(float).tolist() if a.dtype != bool else a.tolist()
    return "obj:" + type(v).__name__
out = {}
for n in dir(S):
    if n.startswith("t_"):
        x, m = jnp.array(%r), jnp.array(%r)
        try: out[n] = ser(getattr(S, n)(x, m))
        except Exception as e: out[n] = "EXC " + type(e).__name__ + " " + str(e)[:300]
json.dump(out, sys.stdout)
''' % (X, MM)


def main():
    d = "/tmp/m/fid"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo/jax_cosmo", d + "/jax_cosmo")
    shutil.copy(HERE + "/fidelity_snips.py", d + "/jax_cosmo/snips.py")
    env = dict(os.environ, PYTHONPATH=d, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run(["/opt/venv/bin/python", "-c", REAL], env=env, capture_output=True, text=True, cwd=d)
    if r.returncode: print(r.stderr[-3000:]); return
    real = json.loads(r.stdout)
    os.environ["VERIF_REPO"] = d
    sys.path.insert(0, os.environ.get("VERIF", "/verif"))
    from sa import lib, terms as T
    from sa.values import Arr, Term, const, Incomplete, AObj
    from sa.interp import AbsRaise
    import ast

    def ser(v):
        if v is None or isinstance(v, (bool, str)): return v
        if isinstance(v, (list, tuple)): return [ser(q) for q in v]
        if isinstance(v, (int, float, np.number)): return float(v)
        if isinstance(v, Arr):
            ts = v.flat()
            vals = [EV(t) for t in ts]
            a = np.array([float(np.asarray(q).reshape(-1)[0]) for q in vals]).reshape(v.shape)
            return a.tolist() if v.dt != "b" else (a != 0).tolist()
        return "obj:" + type(v).__name__

    def EV(t):
        return VAL(t)[0]

    VAL = T.Valuation(K=1)

    class CK:
        runs = []
    names = [n for n in real if not sys.argv[1:] or n in sys.argv[1:]]
    src = open(d + "/jax_cosmo/snips.py").read()
    bad = 0

    def cmp(a, b):
        if isinstance(a, list) and isinstance(b, list):
            return len(a) == len(b) and all(cmp(p, q) for p, q in zip(a, b))
        if isinstance(a, bool) or isinstance(b, bool):
            return (a in (True, False, 0.0, 1.0)) and (b in (True, False, 0.0, 1.0)) and bool(a) == bool(b)
        if isinstance(a, float) and isinstance(b, float):
            return abs(a - b) <= 1e-9 * max(1, abs(a)) or (a != a and b != b)
        return a == b or (isinstance(a, str) and a.startswith("obj") and isinstance(b, str))

    tree = ast.parse(src)
    for n in names:
        if isinstance(real[n], str):
            print("REAL", n, real[n]); bad += 1; continue
        # each element of a returned list literal separately
        fn = [q for q in tree.body if isinstance(q, ast.FunctionDef) and q.name == n][0]
        R = lib.Run(CK(), summaries=False)
        x = Arr(np.array([const(q) for q in X], dtype=object), "f", 0, "jnp")
        m = Arr(np.array([[const(q) for q in r] for r in MM], dtype=object), "f", 0, "jnp")
        last = fn.body[-1]
        try:
            mod = R.I.load("jax_cosmo.snips")
        except (Incomplete, AbsRaise) as e:
            print("LOAD", e); return
        try:
            got = ser(R("snips." + n, x, m))
            if cmp(real[n], got): continue
            for i, (p, q) in enumerate(zip(real[n], got)):
                if not cmp(p, q):
                    what = ast.unparse(last.value.elts[i]) if isinstance(last.value, ast.List) else ""
                    print("DIFF", n, i, what, "real", p, "got", q); bad += 1
            continue
        except Exception as e:
            first = f"{type(e).__name__}: {e}"
        if isinstance(last.value, ast.List) and len(fn.body) <= 3 or isinstance(last.value, ast.List) and "--each" in sys.argv:
            els = last.value.elts
            for i, el in enumerate(els):
                new = ast.Module(body=[ast.FunctionDef(name="t_one", args=fn.args, body=fn.body[:-1] + [ast.Return(ast.List([el], ast.Load()))], decorator_list=[], type_params=[])], type_ignores=[])
                ast.fix_missing_locations(new)
                R = lib.Run(CK(), summaries=False)
                try:
                    mod = R.I.load("jax_cosmo.snips")
                    from sa.values import Env
                    env = Env(None, mod); env.vars = mod.ns
                    R.I.stack.append(("<m>", mod))
                    R.I.exec_block(new.body, env)
                    got = ser(R("snips.t_one", x, m))[0]
                    if not cmp(real[n][i], got):
                        print("DIFF", n, ast.unparse(el)[:100], "real", str(real[n][i])[:150], "got", str(got)[:150]); bad += 1
                except Exception as e:
                    print("FAIL", n, ast.unparse(el)[:110], "::", type(e).__name__, str(e)[:160]); bad += 1
        else:
            print("FAIL", n, first[:300]); bad += 1
    print("problems", bad)


main()

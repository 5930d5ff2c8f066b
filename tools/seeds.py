"""Developer helper: (re)creates seeded/<id> and tries it: tests pass, demo fails, which checks fire."""
import json, os, re, subprocess, sys, textwrap
S = os.environ.get("SCRATCH", "/tmp/m/repo")
PY = "/opt/venv/bin/python"
HEAD = '''import os, sys
os.environ.setdefault("JAX_PLATFORMS", "cpu")
import numpy as onp
import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as np
import jax_cosmo as jc

def check(ok, msg=""):
    if not ok:
        print("BROKEN:", msg)
        sys.exit(1)

def close(x, y, msg="", rtol=1e-6, atol=0.0):
    x, y = onp.asarray(x), onp.asarray(y)
    check(x.shape == y.shape and onp.allclose(x, y, rtol=rtol, atol=atol), f"{msg}: {x} instead of {y}")

'''
SH = '''#!/bin/sh
# exit 0: the property holds; nonzero: it is broken
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def git(*a, **k):
    return subprocess.run(["git", "-C", S, *a], check=True, capture_output=True, text=True, **k).stdout


def make(d, prop, edits, needs, what, demo):
    git("checkout", "-q", "--", ".")
    for f, old, new in edits:
        p = f"{S}/jax_cosmo/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (d, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = git("diff")
    git("checkout", "-q", "--", ".")
    o = f"/verif/seeded/{d}"
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(diff)
    open(o + "/demo.py", "w").write(HEAD + textwrap.dedent(demo).lstrip())
    open(o + "/demo.sh", "w").write(SH)
    os.chmod(o + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(o + "/meta.json", "w"), indent=1)


def attempt(d, checks=None, tests=True):
    o = f"/verif/seeded/{d}"
    prop = json.load(open(o + "/meta.json"))["property"]
    env = dict(os.environ, PYTHONPATH=S, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1")
    demo = lambda: subprocess.run(["sh", o + "/demo.sh"], cwd=S, env=env, capture_output=True, text=True)
    git("checkout", "-q", "--", ".")
    a = demo()
    git("apply", o + "/patch.diff")
    b = demo()
    out = [d, prop, f"demo clean={a.returncode} patched={b.returncode}"]
    if a.returncode or not b.returncode:
        out.append((a.stdout + a.stderr)[-500:] + "///" + (b.stdout + b.stderr)[-300:])
    elif "BROKEN" not in b.stdout:
        out.append("crash:" + b.stderr[-200:])
    if tests:
        t = subprocess.run([PY, "-m", "pytest", "-q", "-n", "8", "-p", "no:cacheprovider", "tests"], cwd=S, env=env, capture_output=True, text=True)
        out.append("tests: " + t.stdout.strip().splitlines()[-1])
    e2 = dict(os.environ, VERIF_REPO=S, VERIF_EVIDENCE="/tmp/m/ev")
    cs = checks if checks is not None else [prop]
    ps = {c: subprocess.Popen(["python3-vt", "/verif/run.py", c], env=e2, stdout=subprocess.PIPE, text=True) for c in cs}
    for c, q in ps.items():
        txt = q.communicate()[0].strip().splitlines()
        if q.returncode or c == prop:
            out.append(f"{c}={q.returncode} {txt[0][:260] if txt else ''}")
    git("checkout", "-q", "--", ".")
    print("\n   ".join(out), flush=True)


if __name__ == "__main__":
    import importlib
    sys.path.insert(0, "/verif/tools")
    L = importlib.import_module("seedlist").SEEDS
    what = sys.argv[1:]
    for s in L:
        if not what or s[0] in what or "make" in what:
            make(*s)
    if "make" not in what:
        for s in L:
            if not what or s[0] in what:
                attempt(s[0])

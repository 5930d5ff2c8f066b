"""Developer helper: hand-written behaviour-preserving rewrites; every check must stay quiet and decided.

hand.py [--tests] NAME... ; the rewrites are in handlist.py as {name: [(file, qualified name, new source)]},
"+" as name: text put in front of the first function or class.
"""
import ast, os, shutil, subprocess, sys, textwrap
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from handlist import HAND
PY = "/opt/venv/bin/python"
SRC = "/repo"


def replace(src, name, new):
    t = ast.parse(src)
    lines = src.splitlines(keepends=True)
    if name == "+":
        for i, n in enumerate(t.body):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                a = min([n.lineno] + [d.lineno for d in n.decorator_list]) - 1
                return "".join(lines[:a]) + textwrap.dedent(new).strip("\n") + "\n\n\n" + "".join(lines[a:])
    body, node = t.body, None
    for p in name.split("."):
        node = [n for n in body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == p][0]
        body = node.body
    a = min([node.lineno] + [d.lineno for d in node.decorator_list]) - 1
    return "".join(lines[:a]) + textwrap.indent(textwrap.dedent(new).strip("\n"), " " * node.col_offset) + "\n" + "".join(lines[node.end_lineno:])


def main():
    tests = "--tests" in sys.argv
    names = [x for x in sys.argv[1:] if x[0] != "-"] or list(HAND)
    for nm in names:
        d = f"/tmp/m/hand_{nm}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree(SRC + "/jax_cosmo", d + "/jax_cosmo")
        shutil.copytree(SRC + "/tests", d + "/tests")
        for f, q, new in HAND[nm]:
            p = f"{d}/jax_cosmo/{f}"
            s = open(p).read()
            s = replace(s, q, new) if q[0] != "=" else (s.replace(q[1:], new) if s.count(q[1:]) == 1 else 1 / 0)
            compile(s, p, "exec")
            open(p, "w").write(s)
        if tests:
            env = dict(os.environ, PYTHONPATH=d, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1")
            r = subprocess.run([PY, "-m", "pytest", "-q", "-n", "4", "-p", "no:cacheprovider", "tests"], cwd=d, env=env, capture_output=True, text=True)
            print(nm, "tests:", r.stdout.strip().splitlines()[-1], flush=True)
        env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/ev", PYTHONDONTWRITEBYTECODE="1")

        def one(c):
            r = subprocess.run(["python3-vt", os.environ.get("VERIF", "/verif") + "/run.py", c], env=env, capture_output=True, text=True)
            if r.returncode or "0 undecided" not in r.stdout:
                return f"{nm} {c} rc={r.returncode} " + " || ".join(r.stdout.strip().splitlines()[:3])[:700] + r.stderr[-300:]

        cs = os.environ["CHECKS"].split() if "CHECKS" in os.environ else ["C%02d" % i for i in range(1, 33)]
        with ThreadPoolExecutor(int(os.environ.get("J", "5"))) as ex:
            for o in ex.map(one, cs):
                if o: print(o, flush=True)
        print(nm, "done", flush=True)
        shutil.rmtree(d)


main()

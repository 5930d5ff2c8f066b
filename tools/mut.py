"""Developer helper: mut.py FILE OLD NEW CHECK... - run checks on a scratch copy with one textual change."""
import os, subprocess, sys
S = os.environ.get("SCRATCH", "/tmp/m/repo")
f, old, new, *cs = sys.argv[1:]
p = f"{S}/jax_cosmo/{f}"
subprocess.check_call(["git", "-C", S, "checkout", "-q", "--", "."])
s = open(p).read()
old, new = old.encode().decode("unicode_escape"), new.encode().decode("unicode_escape")
assert s.count(old) >= 1, "not found"
open(p, "w").write(s.replace(old, new, 1))
env = dict(os.environ, VERIF_REPO=S, VERIF_EVIDENCE="/tmp/m/ev")
ps = {c: subprocess.Popen(["python3-vt", "/verif/run.py", c], env=env, stdout=subprocess.PIPE, text=True) for c in cs}
for c, q in ps.items():
    o = q.communicate()[0].strip().splitlines()
    print(c, q.returncode, " || ".join(o[-4:])[:900])
subprocess.check_call(["git", "-C", S, "checkout", "-q", "--", "."])

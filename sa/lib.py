"""Obligations, symbolic inputs and reporting shared by all property specs."""
import json
import os
import time
import traceback

import numpy as np

from . import terms as T
from . import models as M
from . import steer
from .interp import Interp, AnchorLost
from .terms import Term, const, mk, sym, opaque
from .values import *
from .values import fmt

ROOT = os.environ.get("VERIF_REPO", "/repo")


# ------------------------------------------------------------------ inputs
def P(name, lo=0.3, hi=1.7):
    """Symbolic Python float."""
    return Arr(sym(name, lo, hi), "f", 0, "py", True)


def widen(name, lo, hi):
    """Admissible range of an input where it is wider than the sampled one."""
    T._WIDE[name] = (lo, hi)


def J(name, lo=0.3, hi=1.7, dt="f"):
    """Symbolic rank-0 jax array."""
    return Arr(sym(name, lo, hi), dt, 0, "jnp")


def V(name, lo=0.3, hi=1.7, k=2, dt="f", kind="jnp"):
    """Symbolic vector of increasing entries."""
    d = np.empty(k, object)
    for i in range(k):
        r = (lo + (hi - lo) * i / k, lo + (hi - lo) * (i + 0.8) / k)
        n = f"{name}{i}"
        if T.RANGES.get(n, r) != r:  # one name, one range
            n = f"{name}{i}[{lo},{hi},{k}]"
        d[i] = sym(n, *r)
    return Arr(d, dt, 0, kind)


def mat(name, n, m=None, lo=-1.0, hi=1.0, symm=False, spd=False):
    m = n if m is None else m
    d = np.empty((n, m), object)
    for i in range(n):
        for j in range(m):
            a, b = (min(i, j), max(i, j)) if symm or spd else (i, j)
            if spd and i == j:
                d[i, j] = sym(f"{name}{a}_{b}", 2.0 + n, 3.0 + n)
            else:
                d[i, j] = sym(f"{name}{a}_{b}", lo, hi)
    return Arr(d, "f", 0, "jnp")


def arr(x, dt="f", kind="jnp"):
    return Arr(oa(x), dt, 0, kind)


def terms(v):
    """List of terms of a number / array."""
    if isinstance(v, Arr):
        return v.flat()
    if isinstance(v, np.ndarray):
        return list(oa(v).reshape(-1))
    if isinstance(v, (int, float, Term)):
        return [const(v)]
    raise TypeError(f"not numeric: {v!r}")


def shape(v):
    if isinstance(v, Arr):
        return v.shape
    return np.shape(v)


COSMO = dict(Omega_c=(0.2, 0.3), Omega_b=(0.035, 0.06), h=(0.6, 0.8), n_s=(0.9, 1.05), sigma8=(0.7, 0.9),
             Omega_k=(-0.12, 0.12), w0=(-1.2, -0.8), wa=(-0.3, 0.3))
GAMMA = (0.5, 0.6)


def cosmo_args(gamma=False, tag="", mk_=P):
    d = {n: mk_(tag + n, lo, hi) for n, (lo, hi) in COSMO.items()}
    if gamma:
        d["gamma"] = mk_(tag + "gamma", *GAMMA)
    return d


class Run:
    """One abstract machine over the analysed tree."""

    def __init__(self, ck, summaries=True, budget=400.0):
        self.ck = ck
        self.I = Interp(ROOT, summaries=summaries, budget=budget)
        ck.runs.append(self.I)

    def __call__(self, path, *a, **k):
        f = self.I.get(path) if isinstance(path, str) else path
        return self.I.call(f, list(a), k)

    def get(self, path):
        return self.I.get(path)

    def attr(self, o, name):
        return self.I.getattr(o, name)

    def meth(self, o, name, *a, **k):
        return self.I.call(self.I.getattr(o, name), list(a), k)

    def cosmo(self, gamma=False, tag="", mk_=P, **over):
        d = cosmo_args(gamma, tag, mk_)
        d.update(over)
        return self("Cosmology", **d)

    def traced(self, thunk, inputs=()):
        """Run thunk(*staged inputs) as the body of a jitted function."""
        I = self.I

        def body(I2, a, k):
            return thunk(*a)

        return M.call_jit(I, Jit(NF("user function", body)), list(inputs), {})

    def a(self, v):
        return self.I.arr(v)


class Stop(Exception):
    pass


class Ck:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.obl = []
        self.runs = []
        self.t0 = time.time()
        self.notes = []
        self.scales = {}
        self.decisions = self.onesided = self.explored = 0
        self.deadline = self.t0 + (3000 if self.thorough else 600)

    # -- obligations
    def ob(self, rule, subject, status, detail="", loc=None, key=None):
        self.obl.append(dict(rule=rule, subject=subject, status=status, detail=detail, loc=fmt(loc) if loc else None, key=key))
        return status == "ok"

    def ok(self, rule, subject, cond, detail="", loc=None):
        return self.ob(rule, subject, "ok" if cond else "violation", "" if cond else detail, loc)

    def valn(self, tag="", over=None, K=None):
        return T.Valuation(seed=self.seed, K=K or (6 if self.thorough else 3), over=over, tag=tag)

    def eq(self, rule, subject, got, want, valn=None, rtol=1e-9):
        """Element-wise congruence of two abstract arrays."""
        valn = valn or self.valn()
        sg, sw = shape(got), shape(want)
        if sg != sw:
            return self.ob(rule, subject, "violation", f"shape {sg} instead of {sw}")
        if not isinstance(got, (Arr, int, float, Term, np.ndarray)):
            return self.ob(rule, subject, "violation", f"{got!r} is not numeric")
        st = "ok"
        for i, (g, w) in enumerate(zip(terms(got), terms(want))):
            r, wit = T.congruent(g, w, valn, rtol=rtol)
            if r == "diff":
                idx = np.unravel_index(i, sg) if sg else ()
                k, x, y = wit
                loc = differ_at(g, w, valn)
                return self.ob(rule, subject, "violation",
                               f"element {tuple(int(q) for q in idx)}: {x:.12g} instead of {y:.12g} at {inputs_at(g, w, valn, k)}", loc)
            if r == "undecided":
                st = "undecided"
        w = self.beyond(terms(got), terms(want), valn, rtol)
        if w is not None:
            i, txt, loc = w
            idx = np.unravel_index(i, sg) if sg else ()
            return self.ob(rule, subject, "violation", f"element {tuple(int(q) for q in idx)}: {txt}", loc)
        return self.ob(rule, subject, st, "" if st == "ok" else "no lane decided the congruence")

    def representable(self, rule, subject, got, want, valn=None, rtol=1e-6):
        """got, evaluated in double precision, is the exact value of want.

        For inputs of extreme magnitude: an expression that is algebraically
        right but passes through a number outside the floating-point range
        (the determinant of a large or tiny matrix) is not the same value.
        """
        valn = valn or self.valn()
        sg, sw = shape(got), shape(want)
        if sg != sw:
            return self.ob(rule, subject, "violation", f"shape {sg} instead of {sw}")
        st = "ok"
        for g, w in zip(terms(got), terms(want)):
            f = valn(g)
            for k in range(valn.K):
                x = valn.mp(w, k)
                if not T.mp.isfinite(x):
                    st = "undecided"
                elif not abs(T.mp.mpf(float(f[k])) - x) <= rtol * abs(x):
                    return self.ob(rule, subject, "violation", f"{f[k]:.12g} in floating point instead of {float(x):.12g}", g.loc)
        return self.ob(rule, subject, st, "" if st == "ok" else "the exact value is not finite")

    def beyond(self, got, want, valn, rtol=1e-9):
        """Congruence again where decisions in the terms come out as valn does not show."""
        pairs = list(zip(got, want))
        sub, nd, one = T.explore(pairs, valn)
        self.decisions += nd
        self.onesided += one
        if sub is None:
            return None
        self.explored += sub.K
        for i, (g, w) in enumerate(pairs):
            r, wit = T.congruent(g, w, sub, rtol=rtol, finite=True)
            if r == "diff":
                k, x, y = wit
                return i, f"{x:.12g} instead of {y:.12g} at {inputs_at(g, w, sub, k)}", differ_at(g, w, sub)
        return None

    def same(self, rule, subject, got, want, valn=None):
        """Congruence of arbitrary abstract values (structures included)."""
        valn = valn or self.valn()
        d = self.diff(got, want, valn, "")
        if d is None:
            return self.ob(rule, subject, "ok")
        return self.ob(rule, subject, "violation", d)

    def diff(self, a, b, valn, where):
        num = (Arr, int, float)
        if isinstance(a, num) and isinstance(b, num) and not (isinstance(a, bool) ^ isinstance(b, bool)):
            if shape(a) != shape(b):
                return f"{where}: shape {shape(a)} instead of {shape(b)}"
            for i, (g, w) in enumerate(zip(terms(a), terms(b))):
                r, wit = T.congruent(g, w, valn)
                if r == "diff":
                    return f"{where}[{i}]: {wit[1]:.12g} instead of {wit[2]:.12g} at {inputs_at(g, w, valn, wit[0])}"
                if r == "undecided":
                    self.notes.append(f"undecided element at {where}")
            w = self.beyond(terms(a), terms(b), valn)
            if w is not None:
                return f"{where}[{w[0]}]: {w[1]}"
            return None
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if type(a) is not type(b) or len(a) != len(b):
                return f"{where}: {type(a).__name__} of {len(a)} instead of {type(b).__name__} of {len(b)}"
            for i, (x, y) in enumerate(zip(a, b)):
                d = self.diff(x, y, valn, f"{where}[{i}]")
                if d:
                    return d
            return None
        if isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b):
                return f"{where}: keys {sorted(map(repr, a))} instead of {sorted(map(repr, b))}"
            for k in a:
                d = self.diff(a[k], b[k], valn, f"{where}[{k!r}]")
                if d:
                    return d
            return None
        if isinstance(a, AObj) and isinstance(b, AObj):
            if a.cls.name != b.cls.name:
                return f"{where}: {a.cls.name} instead of {b.cls.name}"
            ka, kb = set(a.attrs), set(b.attrs)
            for k in sorted(ka | kb):
                if k not in a.attrs or k not in b.attrs:
                    return f"{where}.{k}: only in one of the objects"
                d = self.diff(a.attrs[k], b.attrs[k], valn, f"{where}.{k}")
                if d:
                    return d
            return None
        if isinstance(a, (AFunc, AClass, Ext, DType, NF, Bound, Summary, Jit, Vmap)) or a is None or isinstance(a, (str, bytes)):
            if a is b or (isinstance(a, (str, Ext, DType, bytes)) and type(a) is type(b) and a == b):
                return None
            if isinstance(a, Bound) and isinstance(b, Bound) and a.fn is b.fn:
                return self.diff(a.self_, b.self_, valn, where + ".__self__")
            return f"{where}: {a!r} instead of {b!r}"
        if a is b or (type(a) is type(b) and a == b):
            return None
        return f"{where}: {a!r} instead of {b!r}"

    def steer(self, axis, fn, sizes=(3, 4, 6), upto=40, most=4):
        """Obligations of fn(n) with n entries along an axis, at sizes chosen by steer.py."""
        r = steer.steer(fn, sizes, upto, most, self.deadline, time.time)
        self.scales[axis] = r

    def case(self, rule, subject):
        return _Case(self, rule, subject)

    def raises(self, rule, subject, thunk, want=None):
        """thunk must raise on every abstract path."""
        try:
            r = thunk()
        except AbsRaise as e:
            if want and e.cls not in want:
                return self.ob(rule, subject, "violation", f"raises {e} instead of {'/'.join(want)}", e.loc)
            return self.ob(rule, subject, "ok")
        except (Incomplete, AnchorLost) as e:
            return self.ob(rule, subject, "undecided", f"{type(e).__name__}: {e}")
        return self.ob(rule, subject, "violation", f"returns {brief(r)} instead of raising")

    # -- reporting
    def finish(self, known, out=print):
        viol = [o for o in self.obl if o["status"] == "violation"]
        und = [o for o in self.obl if o["status"] == "undecided"]
        okk = [o for o in self.obl if o["status"] == "ok"]
        funcs = sorted({f"{a}:{b}" for I in self.runs for a, b in I.functions_seen})
        st = T.STATS
        new = []
        seen_known = []
        for v in viol:
            k = finding_key(v)
            m = [x for x in known if x[0] == self.pid and x[1] == k]
            if m:
                if k not in seen_known:
                    seen_known.append(k)
                    out(f"KNOWN-FINDING: property={self.pid} {m[0][2]}")
            else:
                new.append(v)
        evdir = os.environ.get("VERIF_EVIDENCE", "/verif/evidence")
        os.makedirs(evdir, exist_ok=True)
        ev = dict(
            property=self.pid, tier=self.tier, seed=self.seed, level="other",
            coverage=dict(
                explanation=("Static analysis of the current source (abstract interpretation of the Python syntax tree, "
                             "value numbers compared by hash-consed identity or random interpretation). One obligation per "
                             "rule instance; nothing of the analysed code is executed."),
                obligations=len(self.obl), discharged=len(okk), undecided=len(und),
                rules=count([o["rule"] for o in self.obl]),
                functions_analysed=funcs, functions_analysed_count=len(funcs),
                call_transfers=sum(I.calls for I in self.runs),
                abstract_branches=len({c[1] for I in self.runs for c in I.conds}),
                congruences=dict(identical=st.identical, fingerprint=st.fingerprint, multiprecision=st.multiprec, different=st.different, undecided=st.undecided),
                decisions=dict(in_compared_terms=self.decisions, one_outcome_only=self.onesided, extra_valuations=self.explored, margins_hunted=len(T.HUNTS["done"]), margins_crossed=T.HUNTS["found"]),
                sizes_along_each_axis=self.scales,
                terms=len(T._terms),
                summarised_kernel_calls=count([f"{e['kind']}@{fmt(e['loc'])}" for I in self.runs for e in I.sum_log]),
                samples=[f"{o['rule']}: {o['subject']}" for o in okk[:: max(1, len(okk) // 12)]][:14],
                undecided_obligations=[f"{o['rule']}: {o['subject']}: {o['detail']}" for o in und][:40],
                source_root=ROOT,
            ),
            assumptions=ASSUME,
            wall_s=round(time.time() - self.t0, 3),
            violations=len(new),
        )
        if viol:
            ev["coverage"]["violating"] = [f"{o['rule']}: {o['subject']}: {o['detail']} {o['loc'] or ''}" for o in viol][:40]
        path = f"{evdir}/{self.pid}.json"
        with open(path, "w") as fh:
            json.dump(ev, fh, indent=1)
        for v in new[:25]:
            out(f"  {v['rule']} | {v['subject']} | {v['detail']}" + (f" | {v['loc']}" if v["loc"] else ""))
        if new:
            out(f"VIOLATION property={self.pid} replay={path}")
            return 1
        for o in und[:10]:
            out(f"  undecided: {o['rule']} | {o['subject']} | {o['detail']}")
        out(f"{self.pid}: {len(okk)}/{len(self.obl)} obligations discharged, {len(und)} undecided, {len(funcs)} functions, {time.time() - self.t0:.1f}s")
        if not okk or len(okk) < len(und):
            out(f"{self.pid}: analysis broken, too few obligations decided")
            return 2
        return 0


ASSUME = [
    "transfer functions for numpy / jax.numpy / jax.lax entry points follow their documentation (sa/npmodels.py, sa/models.py)",
    "random interpretation: two different value numbers agree on all sampled valuations with negligible probability",
    "array axes are instantiated at small sizes; results are treated as parametric in the element values",
    "outside C26-C29, simps/romb/odeint/interp are replaced by their contracts (sa/summaries.py), which C28/C29 verify",
]


def finding_key(o):
    return (o["rule"] + "|" + o["subject"]).replace(" ", "_")


def count(xs):
    d = {}
    for x in xs:
        d[x] = d.get(x, 0) + 1
    return dict(sorted(d.items()))


def brief(v):
    s = repr(v)
    return s if len(s) < 160 else s[:157] + "..."


def differ_at(g, w, valn):
    """Innermost source location that still explains the difference, if cheap."""
    return g.loc


def inputs_at(g, w, valn, k):
    names = sorted(T.symbols_many([const(g), const(w)]))
    out = []
    for n in names[:8]:
        out.append(f"{n}={float(valn.symval(n)[k]):.5g}")
    return ", ".join(out) + (", ..." if len(names) > 8 else "")


class _Case:
    """with ck.case(rule, subject): abstract raises become violations."""

    def __init__(self, ck, rule, subject):
        self.ck, self.rule, self.subject = ck, rule, subject

    def __enter__(self):
        return self

    def __exit__(self, et, e, tb):
        if et is None:
            return False
        if issubclass(et, AbsRaise):
            self.ck.ob(self.rule, self.subject, "violation", f"raises {e.cls}: {e.msg}", e.loc)
            return True
        if issubclass(et, (Incomplete, AnchorLost)):
            self.ck.ob(self.rule, self.subject, "undecided", f"{et.__name__}: {e}")
            return True
        if issubclass(et, (RecursionError,)) or (issubclass(et, Exception) and not os.environ.get("VERIF_DEBUG") and not issubclass(et, AssertionError)):
            self.ck.ob(self.rule, self.subject, "undecided", f"analyser: {et.__name__}: {e}")
            if os.environ.get("VERIF_TB"):
                traceback.print_exception(et, e, tb)
            return True
        return False


def known_findings():
    out = []
    p = "/verif/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known:"):
                # known: property=C06 key=<rule|subject with _> <text>
                parts = l.split(None, 3)
                out.append((parts[1].split("=", 1)[1], parts[2].split("=", 1)[1], parts[3].strip()))
    return out

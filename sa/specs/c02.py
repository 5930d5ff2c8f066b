"""Rebuilt objects follow their new leaf values, never stale ones."""
from .common import *
from .c01 import auxes


def run(ck):
    for ob in objects(ck.thorough):
        check(ck, ob)
    scale_objects(ck, lambda ob: check(ck, ob))


def check(ck, ob):
    # every parameter is a leaf, the static data is not numeric data
    R = Run(ck)
    sub = ob.name
    with ck.case("parameters are leaves", sub):
        c = R.cosmo(tag="ref") if ob.kind != "cosmo" else None
        o = ob.make(R)
        pars = list(ob.params)
        for warm in (False, True):
            if warm:
                values(R, ob.kind, o, c, heavy=ck.thorough)
            s = sub + (", after use" if warm else "")
            ls, st = M.flatten(R.I, o)
            lt = [t for l in ls for t in terms(l)]
            for t in pars:
                n = sum(x is t for x in lt)
                ck.ok("parameters are leaves", f"{s}: {t.attr}", n == 1, f"appears in {n} leaves")
            for cls, aux in auxes(st):
                bad = [p for p, x in walk(aux) if isinstance(x, Arr)]
                ck.ok("static data holds no arrays or parameters", f"{s}: {cls}", not bad, f"{bad[:4]}")
    # rebuilt with other values, after the original has been used in every way
    for warm in ("unused", "used"):
        for how in ("direct", "jit"):
            if how == "jit" and ob.kind == "spline":
                continue
            R = Run(ck)
            s = f"{sub}, original {warm}, {how}"
            with ck.case("follows new values", s):
                c = R.cosmo(tag="ref") if ob.kind != "cosmo" else None
                o = ob.make(R)
                old = list(ob.params)
                ls, st = M.flatten(R.I, o)
                olds = {t.id: i for i, t in enumerate(old)}
                p = ob.make(R, tag="n_")
                new = list(ob.params)
                if warm == "used":
                    values(R, ob.kind, o, c, heavy=ob.kind != "cosmo" or ck.thorough)
                    ls, st = M.flatten(R.I, o)
                if ob.kind == "spline":
                    # coefficients are leaves computed from the data: take all leaves of the other spline
                    ls2, st2 = M.flatten(R.I, p)
                    repl = ls2
                else:
                    repl = []
                    for l in ls:
                        if isinstance(l, Arr) and all(t.id in olds for t in l.flat()):
                            d = np.empty(l.shape, object)
                            for i, t in enumerate(l.flat()):
                                d.reshape(-1)[i] = new[olds[t.id]]
                            repl.append(Arr(d, l.dt, l.lvl, l.kind, l.weak))
                        else:
                            repl.append(l)
                o2 = M.unflatten(R.I, st, repl)
                v = ck.valn(s)
                want = dict(quantities(R, ob.kind, p, c))
                heavy = warm == "used"
                if how == "direct":
                    for n, t in quantities(R, ob.kind, o2, c, heavy):
                        ck.same("follows new values: " + n, s, t(), want[n](), v)
                else:
                    # the original is warmed and the rebuilt object lives inside a jitted function
                    num = [n for n, _ in quantities(R, ob.kind, o2, c, heavy)]

                    def body(q, c):
                        return {n: t() for n, t in quantities(R, ob.kind, q, c, heavy)}

                    got = R.traced(body, [o2, c])
                    for n in num:
                        w = want[n]()
                        ck.same("follows new values: " + n, s, got[n], w if isinstance(w, Arr) or w is None else R.a(w), v)
    # built at values that switch effects off, rebuilt with general ones (and the reverse)
    for a, b, n in ((null, P, "null"), (whole, P, "whole"), (P, null, "general, new null")):
        R = Run(ck)
        s = f"{sub}, original {n}"
        with ck.case("follows new values", s):
            c = R.cosmo(tag="ref") if ob.kind != "cosmo" else None
            ls, st = M.flatten(R.I, ob.make(R, mk_=a))
            p = ob.make(R, tag="n_", mk_=b)
            o2 = M.unflatten(R.I, st, M.flatten(R.I, p)[0])
            want = dict(quantities(R, ob.kind, p, c, False))
            for n, t in quantities(R, ob.kind, o2, c, False):
                ck.same("follows new values: " + n, s, t(), want[n](), ck.valn(s))

"""The transfer functions are the published Eisenstein-Hu ones."""
from ..lib import *
from .oracle import *
from .c11 import build


def run(ck):
    base = dict(Omega_c=("Ocx", 0.05, 0.6), Omega_b=("Obx", 0.01, 0.12), h=("hx", 0.45, 0.95))
    vs = (("reference", {}), ("wide", base), ("high baryon", dict(Omega_c=("Och", 0.05, 0.1), Omega_b=("Obh", 0.08, 0.15))),
          ("low baryon", dict(Omega_c=("Ocl", 0.25, 0.5), Omega_b=("Obl", 0.001, 0.01))), ("flat", dict(Omega_k=0.0)))
    ks = (("large scales", V("kl", 1e-5, 1e-2, 3)), ("acoustic scales", V("ka", 0.01, 0.4, 6)), ("small scales", V("ks", 0.4, 50.0, 4)))
    for name, over in vs:
        for gamma in (False, True):
            R = Run(ck)
            with ck.case("transfer", name):
                c, o = build(R, over, gamma)
                for kn, k in ks:
                    for ty, wig in ((None, True), ("eisenhu_osc", True), ("eisenhu", False)):
                        sub = f"{name}{'+gamma' if gamma else ''}, {kn}, {ty or 'default type'}"
                        with ck.case("transfer", sub):
                            kw = {} if ty is None else dict(type=ty)
                            ck.eq("transfer", sub, R("transfer.Eisenstein_Hu", c, k, **kw), arr([o.eh(x, wig) for x in k.flat()]), ck.valn(sub), rtol=2e-9)
    R = Run(ck)
    with ck.case("transfer", "scalar wavenumber"):
        c, o = build(R, {})
        k = P("k", 0.01, 0.5)
        for ty, wig in (("eisenhu_osc", True), ("eisenhu", False)):
            ck.eq("transfer", f"scalar wavenumber, {ty}", arr(R.a(R("transfer.Eisenstein_Hu", c, k, type=ty)).d.reshape(-1)), arr([o.eh(k.term(), wig)]), ck.valn("s"))
            r = R.traced(lambda q, cc: R("transfer.Eisenstein_Hu", cc, q, type=ty), [k, c])
            ck.eq("transfer", f"traced, {ty}", arr(r.d.reshape(-1)), arr([o.eh(k.term(), wig)]), ck.valn("s"))

"""Parameter objects survive flattening and rebuilding unchanged."""
from .common import *


def auxes(st):
    """Static data of all nodes of a pytree structure."""
    if st is M.LEAF or st[0] == "none":
        return []
    if st[0] in ("list", "tuple"):
        return [a for s in st[1] for a in auxes(s)]
    if st[0] == "dict":
        return [a for s in st[2] for a in auxes(s)]
    return [(st[1].name, st[2])] + [a for s in st[3] for a in auxes(s)]


def shape_of(st):
    if st is M.LEAF:
        return "*"
    if st[0] == "none":
        return "None"
    if st[0] in ("list", "tuple"):
        return (st[0],) + tuple(shape_of(s) for s in st[1])
    if st[0] == "dict":
        return ("dict", tuple(map(repr, st[1]))) + tuple(shape_of(s) for s in st[2])
    return (st[1].name,) + tuple(shape_of(s) for s in st[3])


FORMS = {"python": ("", P), "jax": (", jax scalars", J), "null": (", at null values", null), "whole": (", at whole numbers", whole)}


def run(ck):
    for form in ("python", "jax", "null", "whole") if ck.thorough else ("python", "null", "whole"):
        for ob in objects(ck.thorough):
            check(ck, ob, form)
    scale_objects(ck, lambda ob: check(ck, ob, "python"))


def check(ck, ob, form):
    sub = ob.name + FORMS[form][0]
    mk_ = FORMS[form][1]
    R = Run(ck)
    with ck.case("rebuild", sub):
        c = R.cosmo(tag="ref") if ob.kind != "cosmo" else None
        o = ob.make(R, mk_=mk_)
        ls, st = M.flatten(R.I, o)
        o2 = M.unflatten(R.I, st, ls)
        ck.ok("same class", sub, isinstance(o2, AObj) and o2.cls is o.cls, f"{o2!r} instead of {o!r}")
        ls2, st2 = M.flatten(R.I, o2)
        ck.ok("same structure", sub, shape_of(st) == shape_of(st2), f"{shape_of(st2)} instead of {shape_of(st)}")
        ck.same("same static data", sub, auxes(st2), auxes(st))
        same = len(ls) == len(ls2) and all(terms(x)[0] is terms(y)[0] for x, y in zip(ls, ls2))
        ck.ok("same leaves in the same order", sub, same, f"{[T.show(terms(x)[0]) for x in ls2]} instead of {[T.show(terms(x)[0]) for x in ls]}")
        v = ck.valn(sub)
        for n, t in quantities(R, ob.kind, o2, c, heavy=ck.thorough or form == "python"):
            with ck.case("same " + n, sub):
                got = t()
                want = dict(quantities(R, ob.kind, o, c))[n]()
                ck.same("same " + n, sub, got, want, v)
        # flattening is not disturbed by use, and a used object rebuilds equally
        ls3, st3 = M.flatten(R.I, o)
        ck.ok("same leaves after use", sub, len(ls3) == len(ls) and all(terms(x)[0] is terms(y)[0] for x, y in zip(ls, ls3)), "leaves changed")
        ck.same("same static data after use", sub, auxes(st3), auxes(st))
    with ck.case("rebuilt twice", sub):
        R = Run(ck)
        c = R.cosmo(tag="ref") if ob.kind != "cosmo" else None
        o = ob.make(R, mk_=mk_)
        for _ in range(2):
            ls, st = M.flatten(R.I, o)
            o = M.unflatten(R.I, st, ls)
        p = ob.make(R, mk_=mk_)
        want = dict(quantities(R, ob.kind, p, c, heavy=False))
        for n, t in quantities(R, ob.kind, o, c, heavy=False):
            ck.same("rebuilt twice: " + n, sub, t(), want[n](), ck.valn(sub))
    # JAX also rebuilds with placeholders and with batched leaves
    for what in ("placeholder", "batched"):
        R = Run(ck)
        with ck.case("rebuild from " + what + " leaves", sub):
            o = ob.make(R, mk_=mk_)
            ls, st = M.flatten(R.I, o)
            if what == "placeholder":
                new = [AObj(AClass("object", [], {})) for _ in ls]
            else:
                new = []
                for l in ls:
                    a = R.a(l)
                    new.append(Arr(np.stack([a.d, a.d]) if a.ndim else M._stack0([a.d, a.d]), a.dt, 0, "jnp"))
            o2 = M.unflatten(R.I, st, new)
            ls2, st2 = M.flatten(R.I, o2)
            good = shape_of(st2) == shape_of(st) and len(ls2) == len(ls) and all(x is y for x, y in zip(ls2, new))
            ck.ok("rebuild from " + what + " leaves", sub, good, "leaves do not come back")

"""Sizes at which a decision about a size comes out the other way.

While an axis is being scaled, every comparison, minimum, maximum, remainder and
slice bound of whole numbers in the analysed code is noted with its operands.
An operand that is the same constant at every size, faced by one that grows with
the size and has not passed it, marks a size limit written into the code; the
growth is extrapolated to the size that passes it, and the axis is analysed there.
"""
import math

ON = [False]
LOG = {}
CAP = 3000


def note(loc, kind, a, b):
    if loc is None:
        return
    if a == b and isinstance(a, bool):
        return
    s = LOG.setdefault((loc, kind), set())
    if len(s) < CAP:
        s.add(magnitudes(kind, float(a), float(b)))


def magnitudes(kind, a, b):
    """The operands on the growing side: negative extents are measured downwards."""
    if kind in ("mod", "floordiv", "rshift"):
        return abs(a), abs(b)
    return (-a, -b) if a <= 0 and b <= 0 else (a, b)


def small(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool) and -1e7 < v < 1e7 and float(v).is_integer()


def note_terms(loc, kind, d0, d1):
    import numpy as np
    if loc is None:
        return
    s = LOG.setdefault((loc, kind), set())
    if len(s) >= CAP:
        return
    x, y = np.broadcast_arrays(d0, d1)
    for p, q in zip(x.reshape(-1)[:CAP], y.reshape(-1)[:CAP]):
        if p.op == "const" and q.op == "const" and small(p.attr) and small(q.attr):
            s.add(magnitudes(kind, float(p.attr), float(q.attr)))
            if len(s) >= CAP:
                return


def record(f):
    LOG.clear()
    ON[0] = True
    try:
        f()
    finally:
        ON[0] = False
    r = {k: set(v) for k, v in LOG.items()}
    LOG.clear()
    return r


def grow(xs, ys):
    """Quadratic (or linear) continuation of values at sizes, None unless increasing."""
    if any(b < a for a, b in zip(ys, ys[1:])) or ys[-1] <= ys[0]:
        return None
    if len(xs) >= 3:
        (x0, x1, x2), (y0, y1, y2) = xs[-3:], ys[-3:]
        c2 = ((y2 - y1) / (x2 - x1) - (y1 - y0) / (x1 - x0)) / (x2 - x0)
        c1 = (y2 - y1) / (x2 - x1) - c2 * (x1 + x2)
        c0 = y2 - c2 * x2 * x2 - c1 * x2
        if c2 >= -1e-9:
            return lambda n: c2 * n * n + c1 * n + c0
    s = (ys[-1] - ys[0]) / (xs[-1] - xs[0])
    return lambda n: ys[-1] + s * (n - xs[-1])


def limits(logs, upto):
    """{size: [location]} to try next, and locations whose limit lies beyond upto."""
    sizes = sorted(logs)
    out, far = {}, []
    for key in set.intersection(*[set(logs[n]) for n in sizes]):
        loc, kind = key
        for side in (0, 1):
            consts = set.intersection(*[{p[side] for p in logs[n][key]} for n in sizes])
            for c in sorted(consts)[:60]:
                if c < 2:
                    continue
                ys = [max(p[1 - side] for p in logs[n][key] if p[side] == c) for n in sizes]
                if kind in ("eq", "ne", "mod") and c not in ys:
                    for (n0, y0), (n1, y1) in zip(zip(sizes, ys), zip(sizes[1:], ys[1:])):
                        n = n0 + (c - y0) * (n1 - n0) / (y1 - y0) if y0 < c < y1 else 0
                        if n and abs(n - round(n)) < 1e-6:
                            out.setdefault(round(n), []).append((loc, kind, c))
                if ys[-1] > c:
                    continue
                f = grow(sizes, ys)
                if f is None:
                    continue
                eq = gt = None
                for n in range(sizes[-1] + 1, upto + 1):
                    v = f(n)
                    if eq is None and abs(v - c) < 1e-6:
                        eq = n
                    if v > c + 1e-6:
                        gt = n
                        break
                if gt is None:
                    far.append((loc, kind, c))
                else:
                    out.setdefault(gt, []).append((loc, kind, c))
                if eq is not None and kind in ("eq", "ne", "mod"):
                    out.setdefault(eq, []).append((loc, kind, c))
    return out, far


FAR = 20000
SPEND = 45.0


def cost(times, n):
    """Predicted time at n entries, from the times at the sizes analysed."""
    ks = sorted(times)
    x0, x1 = ks[-2], ks[-1]
    t0, t1 = max(times[x0], 1e-3), max(times[x1], 1e-3)
    p = math.log(t1 / t0) / math.log(x1 / x0) if t1 > 0.03 else 1.5
    return t1 * (n / x1) ** min(max(p, 1.0), 3.5)


def steer(fn, sizes, upto, most=4, deadline=None, clock=None):
    """Analyse fn at base sizes, then where size decisions turn; a report of the sizes.

    Limits within upto are always followed; limits up to FAR as long as the growth
    of the analysis time, measured at sizes on the way, leaves them affordable.
    """
    import time
    logs, times = {}, {}

    def go(n):
        t = time.time()
        logs[n] = record(lambda: fn(n))
        times[n] = time.time() - t

    for n in sizes:
        go(n)
    rep = dict(base=list(sizes), steered={}, beyond=[])
    late = lambda: deadline is not None and clock() > deadline
    steps = 0
    while steps < most and not late():
        todo, far = limits(logs, max(upto, FAR))
        todo = {n: w for n, w in todo.items() if n not in logs}
        name = lambda w: sorted({f"{l[0].split('/')[-1]}:{l[1]} {k} {c:g}" for l, k, c in w})[:20]
        rep["beyond"] = name(far)
        if not todo:
            break
        n = min(todo)
        if n > upto:
            if n > 6 * max(logs):
                m = min(6 * max(logs), n // 2)
                if m not in logs and cost(times, m) < SPEND:
                    go(m)
                    continue
            if cost(times, n) > SPEND:
                rep["beyond"] = name([x for w in todo.values() for x in w] + far)
                break
        rep["steered"][n] = name(todo[n])[:8]
        go(n)
        steps += 1
        for m in (n + 1, n + 2):
            if m not in logs and not late() and (m <= upto or cost(times, m) < SPEND / 3):
                rep["steered"][m] = ["just past it"]
                go(m)
    return rep

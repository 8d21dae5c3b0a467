"""C07: lower bounds, envelopes and cut-offs."""
from . import gen
from .core import Session


def cell(dn, a, b):
    return (a - b) ** 2 if dn == "euclidean" else abs(a - b)


def dtw(dn, a, b, r):
    """only used to choose interesting cut-offs; the verdict is the specification's"""
    inf = float("inf")
    if abs(len(a) - len(b)) > r:
        return inf
    prev = None
    for i, x in enumerate(a):
        cur = []
        for j, y in enumerate(b):
            if abs(i - j) > r:
                cur.append(inf)
                continue
            c = cell(dn, x, y)
            if i == 0 and j == 0:
                cur.append(c)
                continue
            m = min(prev[j] if i else inf, cur[j - 1] if j else inf, prev[j - 1] if i and j else inf)
            cur.append(max(m, c) if dn == "chebyshev" else m + c)
        prev = cur
    return prev[-1]


def square(n):
    return int(n ** 0.5 + 0.5) ** 2 == n


def long(r):
    """rising, falling and waving rows, where envelopes have to remember much"""
    s = Session(1)
    n = r.randint(100, 200)
    rise = sorted(r.randint(-99, 99) for _ in range(n))
    wave = [min(k % 90, 90 - k % 90) + r.choice([0, 0, 1]) for k in range(n)]
    rows = [rise, rise[::-1], wave, [r.choice([0, 50]) for _ in range(n)], list(range(n // 2)) + [r.randint(0, 60)] * (n - n // 2)]
    s.table("a", rows).load("a", "a")
    for x in range(len(rows)):
        for w in (r.randint(1, 9), r.randint(30, 70), r.randint(70, n), n - 1):
            s.bound(("a", x, -1, -1), ("a", x, -1, -1), r.choice(["lower", "upper"]), w=w, cut=-1)
            s.bound(("a", x, -1, -1), ("a", x, -1, -1), "lower" if x == 1 else "upper", w=w, cut=r.choice([-1, 5]))
    for ra in ((1, 10), r.choice([(1, 4), (1, 2), (1, 1)])):
        s.ratio(*ra)
        for _ in range(2):
            x, y = r.sample(range(len(rows)), 2)
            A, B = ("a", x, -1, -1), ("a", y, -1, -1)
            for what in ("kim", "keogh", "cross"):
                s.bound(A, B, what)
            t = dtw("euclidean", rows[x], rows[y], min(n * ra[0] // ra[1], n - 1))
            for c in (t + 5, max(0, t - 5), t // 2):
                s.bound(A, B, "cut", "euclidean", True, c, 0)
                s.bound(A, B, "cut", "euclidean", True, c, 1)
    return s


def run(check):
    check.model("MCDist", consts=dict(Dom="{0, 1, 3}", N=check.pick(3, 4)), invariants="Bounds Rows Envelope")
    out = []
    for i in range(check.pick(600, 6000)):
        r = gen.rng("C07", i)
        s = Session(1, r.choice(gen.WIDE))
        n = r.randint(1, 14) if i % 10 else r.randint(30, 64)
        rows = gen.table(r, r.randint(2, 4), n, -15, 15)
        s.table("a", rows).load("a", "a")
        for _ in range(5 if i % 10 else 2):
            ra = r.choice(gen.RATIOS)
            s.ratio(*ra)
            x, y = gen.sub(r, rows), gen.sub(r, rows)
            if r.random() < 0.5:
                y = (y[0], -1, -1)
                x = (x[0], -1, -1)
            va = rows[x[0]] if x[1] < 0 else rows[x[0]][x[1]:x[2]]
            vb = rows[y[0]] if y[1] < 0 else rows[y[0]][y[1]:y[2]]
            A, B = ("a",) + x, ("a",) + y
            for what in ("kim", "keogh", "cross"):
                s.bound(A, B, what)
            # cut first asks for another width, to exercise the cached envelope
            s.bound(A, A, "lower", w=r.randint(0, len(va)), cut=r.randint(-1, len(va)))
            s.bound(A, A, "upper", w=r.randint(0, len(va)), cut=r.randint(-1, len(va)))
            m = max(len(va), len(vb))
            band = min(m * ra[0] // ra[1], m - 1)
            for dn in gen.ORDERED:
                t = dtw(dn, va, vb, band)
                for c in cuts(r, t):
                    # at equality only where every way of computing it is exact
                    if c == t and (dn != "chebyshev" and m & (m - 1) or dn == "euclidean" and not square(t)):
                        continue
                    s.bound(A, B, "cut", dn, True, c, 0)
                    if dn == "euclidean":
                        s.bound(A, B, "cut", dn, True, c, 1)
                if len(va) == len(vb):
                    p = 0
                    for u, v in zip(va, vb):
                        p = max(p, cell(dn, u, v)) if dn == "chebyshev" else p + cell(dn, u, v)
                    for c in cuts(r, p):
                        if c == p and (dn != "chebyshev" and m & (m - 1) or dn == "euclidean" and not (square(m) and square(p))):
                            continue
                        s.bound(A, B, "cut", dn, False, c, 0)
            for dn in ("cosine", "sorensen"):
                s.bound(A, B, "ratio", dn, True)
                if len(va) == len(vb):
                    s.bound(A, B, "ratio", dn, False)
        out.append(s)
    out += [long(gen.rng("C07long", i)) for i in range(check.pick(12, 120))]
    check.validate(out)


def cuts(r, t):
    if t == float("inf"):
        return [0, r.randint(1, 500)]
    c = {t, t + 1, max(0, t - 1), r.randint(0, max(1, 2 * t)), -1}
    return sorted(c)

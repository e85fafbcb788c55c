"""Reassignment: every cell of the representation moves, with its whole value, to
the cell designated by the displacement fields."""
import cmath
import math
import random

from . import forms, parts
from .forms import apply
from .p_defs import (D, S, M, cj, ham, odd_up, rn, centred, dft, definitions, penvs)
from .p_gens import ad, sb, dv, sq, ab

pi = math.pi
re = lambda v: apply("real", [v])        # noqa: E731
im = lambda v: apply("imag", [v])        # noqa: E731
rnd = lambda v: apply("round", [v])      # noqa: E731


def ite(c, a, b):
    return apply("ite", [c, a, b])


def dwin(w):
    n = len(w)
    step = M(0.5, ad(w[0], w[-1]))
    ramp = M(1.0 / max(n - 1, 1), sb(w[0], w[-1]))
    b = [0.0] + [sb(sb(w[i], step), M(ramp, i - (n - 1) / 2.0)) for i in range(n)] + [0.0]
    d = [ad(M(0.5, sb(b[i + 2], b[i])), ramp) for i in range(n)]
    d[0] = ad(d[0], step)
    d[-1] = sb(d[-1], step)
    return d


def meansq(d, lo=0, hi=None):
    xs = [d.x(i) for i in range(lo, d.N if hi is None else hi + 1)]
    return M(1.0 / len(xs), S(re(M(v, cj(v))) for v in xs))


class R(object):
    """Accumulates the reassigned representation."""

    def __init__(self, d, tfr, thr, dest):
        n, T = d.n, len(d.ts())
        self.tfr = tfr
        self.acc = {}
        self.hat = {}
        for i in range(T):
            for j in range(n):
                v = tfr[j, i]
                big = apply("gt", [ab(v), thr])
                jh, ih = dest(j, i)
                self.hat[j, i] = (big, jh, ih)
                cells = {}
                for p in range(n):
                    for q in range(T):
                        h = both(apply("eq", [jh, p]), apply("eq", [ih, q]))
                        stay = (p, q) == (j, i)
                        w = ite(big, ite(h, v, 0.0), v if stay else 0.0)
                        if forms.exact(w) and w == 0:
                            continue
                        self.acc[p, q] = ad(self.acc.get((p, q), 0.0), w)

    def rtfr(self, j, i):
        return self.acc.get((j, i), 0.0)


def both(a, b):
    if forms.exact(a) and forms.exact(b):
        return bool(a and b)
    if forms.exact(a):
        return b if a else False
    if forms.exact(b):
        return a if b else False
    return apply("logical_and", [a, b])


def fields(d, name):
    """(tfr, threshold, dest) by the definition of the reassigned representation."""
    n, N, ts = d.n, d.N, d.ts()
    T = len(ts)
    k2 = n / (2 * pi)
    if name in ("pwv", "pmh", "pp"):
        h = centred(d.win("fw", "fwindow", ham(odd_up(n // 4))))
        lh = (len(h) - 1) // 2
        dh = dwin(h)
        A, B = {}, {}
        for c, t in enumerate(ts):
            if name == "pwv":
                m = min(t, N - 1 - t, rn(n) - 1, lh)
                taus = range(-m, m + 1)
                pr = lambda u: M(d.x(t + u), cj(d.x(t - u)))      # noqa: E731,B023
            elif name == "pmh":
                taus = range(-min(rn(n) - 1, lh, N - 1 - t), min(rn(n) - 1, lh, t) + 1)
                pr = lambda u: M(d.x(t), cj(d.x(t - u)))          # noqa: E731,B023
            else:
                taus = range(min(n - 1, lh, t) + 1)
                pr = lambda u: M(d.x(t), cj(d.x(t - u)))          # noqa: E731,B023
            a = {u % n: M(h[lh + u], pr(u)) for u in taus}
            b = {u % n: M(dh[lh + u], pr(u)) for u in taus}
            q = rn(n)
            if name == "pwv" and n % 2 == 0 and q <= t <= N - 1 - q and q <= lh:
                a[q] = M(0.5, S([M(h[lh + q], pr(q)), M(h[lh - q], pr(-q))]))
                b[q] = M(0.5, S([M(dh[lh + q], pr(q)), M(dh[lh - q], pr(-q))]))
            if name == "pp":
                b[0] = ad(b.get(0, 0.0), M(d.x(t), cj(d.x(t))))
            for f, (u, v) in enumerate(zip(dft(a, n), dft(b, n))):
                A[f, c], B[f, c] = u, v
        tfr = {k: re(v) for k, v in A.items()}

        def dest(j, i):
            if name == "pwv":
                a, b = tfr[j, i], im(B[j, i])
            else:
                a, b = A[j, i], B[j, i]
            nz = apply("ne", [a, 0])
            v = ite(nz, dv(M(k2, b), a), b)
            v = ite(nz, rnd(v), v)
            if name != "pwv":
                v = im(v)
            r = sb(j, apply("toint", [v]))
            return apply("mod", [r, n]), i
        thr = M(1e-6, meansq(d, min(ts), max(ts)) if name == "pwv" else meansq(d))
        return tfr, thr, dest
    if name == "spec":
        h = d.win("fw", "fwindow", ham(odd_up(N // 4)))
        lh = (len(h) - 1) // 2
        th = [M(h[i], i - lh) for i in range(len(h))]
        dh = dwin(h)
        A = [{}, {}, {}]
        for c, t in enumerate(ts):
            taus = range(-min(rn(n) - 1, lh, t), min(rn(n) - 1, lh, N - 1 - t) + 1)
            k = apply("reciprocal", [apply("sqrt", [S(M(h[lh + u], h[lh + u]) for u in taus)])])
            for w, out in zip((h, th, dh), A):
                for f, v in enumerate(dft({u % n: M(d.x(t + u), w[lh + u], k) for u in taus}, n)):
                    out[f, c] = v
        tfr = {k: re(M(v, cj(v))) for k, v in A[0].items()}

        def dest(j, i):
            a, b, e = [z[j, i] for z in A]
            nz = apply("ne", [a, 0])
            bt = re(ite(nz, rnd(re(dv(b, a))), b))
            bf = re(ite(nz, rnd(im(dv(M(k2, e), a))), e))
            ih = apply("minimum", [apply("maximum", [ad(i, bt), 0]), T - 1])
            return apply("mod", [sb(j, bf), n]), ih
        return tfr, M(1e-6, meansq(d, min(ts), max(ts))), dest
    if name == "spwv":
        h = d.win("fw", "fwindow", ham(odd_up(n // 4)))
        g = d.win("tw", "twindow", ham(odd_up(n // 4)), "M")
        lh, lg = (len(h) - 1) // 2, (len(g) - 1) // 2
        dh = dwin(h)
        A = [{}, {}, {}]
        for c, t in enumerate(ts):
            cols = [{}, {}, {}]
            for u in range(0, min(rn(n) - 1, lh) + 1):
                ps = [p for p in range(-lg, lg + 1) if 0 <= t + u - p < N and 0 <= t - u - p < N]
                if not ps:
                    continue
                k = apply("reciprocal", [S(g[lg + p] for p in ps)])
                for s in ((1, -1) if u else (1,)):
                    z = S(M(g[lg + p], k, d.x(t + s * u - p), cj(d.x(t - s * u - p))) for p in ps)
                    zt = S(M(p, g[lg + p], k, d.x(t + s * u - p), cj(d.x(t - s * u - p))) for p in ps)
                    w, wd = (h[lh + s * u], dh[lh + s * u]) if u else (1.0, dh[lh])
                    cols[0][s * u % n] = M(w, z)
                    cols[1][s * u % n] = M(w, zt)
                    cols[2][s * u % n] = M(wd, z)
            for out, col in zip(A, cols):
                for f, v in enumerate(dft(col, n)):
                    out[f, c] = v
        tfr = {k: re(v) for k, v in A[0].items()}
        dt = ts[1] - ts[0]

        def dest(j, i):
            a, b, e = tfr[j, i], re(A[1][j, i]), im(A[2][j, i])
            nz = apply("ne", [a, 0])
            bt = ite(nz, rnd(dv(dv(b, a), dt)), b)
            bf = ite(nz, rnd(dv(M(k2, e), a)), e)
            ih = apply("minimum", [apply("maximum", [sb(i, apply("toint", [bt])), 0]), T - 1])
            return apply("mod", [apply("toint", [sb(j, bf)]), n]), ih
        return tfr, M(1e-6, meansq(d)), dest
    if name == "morlet":
        tbp = d.env["tbp"] if d.cfg.get("tbp") == "yes" else 0.25
        W = math.ceil(tbp * n * math.sqrt(2 * math.log(1000.0)))

        def h(u):
            return math.exp(-(u / (n * tbp)) ** 2 / 2.0) * cmath.exp(-2j * pi * u / n)
        A, B = {}, {}

        def put(row, m, c, t, s):
            K = math.ceil(W / m)
            k = math.sqrt(m / (tbp * n))
            us = range(-min(K, t), min(K, N - 1 - t) + 1)
            A[row, c] = S(M(k * h(s * m * u), d.x(t + u)) for u in us)
            B[row, c] = S(M(k * u * h(s * m * u), d.x(t + u)) for u in us)
        for c, t in enumerate(ts):
            for m in range(1, n // 2):
                put(m, m, c, t, 1)
                put(n - m, m, c, t, -1)
            put(rn(n), rn(n), c, t, 1)
        for j in range(n):
            for c in range(T):
                A.setdefault((j, c), 0.0)
                B.setdefault((j, c), 0.0)
        tfr = {k: re(M(v, cj(v))) for k, v in A.items()}
        dt = ts[1] - ts[0]
        fac = 2 * pi * n * tbp ** 2

        def dest(j, i):
            a, b = A[j, i], B[j, i]
            if forms.exact(a) and a == 0:
                return j, i
            v = ite(apply("ne", [a, 0]), dv(b, a), b)
            q = rn(n)
            m = (j + q - 1) % n - (q - 1)
            ih = apply("minimum", [apply("maximum", [ad(i, apply("toint", [rnd(re(dv(v, dt)))])), 0]), T - 1])
            jh = apply("mod", [ad(j, apply("toint", [rnd(im(M(m * m / fac, v)))])), n])
            return jh, ih
        return tfr, M(1e-6, meansq(d)), dest
    raise KeyError(name)


class Memo(object):
    """One definition per partition, shared by the three results."""

    def __init__(self, name):
        self.name, self.d, self.r = name, None, None

    def of(self, d):
        if self.d is not d:
            self.d, self.r = d, R(d, *fields(d, self.name))
        return self.r

    def rtfr(self, d):
        r = self.of(d)
        return lambda j, i: r.rtfr(j, i)

    def tfr(self, d):
        r = self.of(d)
        return lambda j, i: r.tfr[j, i]

    def field(self, d):
        r = self.of(d)
        inf = float("inf")

        def at(j, i):
            big, jh, ih = r.hat[j, i]
            if self.name in ("pwv", "pmh", "pp"):
                return ite(big, jh, inf)
            return ite(big, ad(jh, M(1j, ih)), inf if self.name == "spec" else complex(inf, inf))
        return at


def renvs(entry, cfg, level):
    out = []
    for e in penvs(entry, cfg, level):
        e["tbp"] = 0.1 + 0.1 * (e["N"] % 3)
        if e["n_fbins"] * e["T"] <= (20 if level == "quick" else 36) and e["N"] <= 6:
            out.append(e)
    return out


def classes(entry, cfg, level):
    """Records with known samples: cells below, near and above the threshold, cells that move
    and cells that stay - the case distinctions the symbolic records leave open."""
    rnd = random.Random(entry.name + str(sorted(cfg.items())))
    out = []
    for q in range(12 if level == "quick" else 60):
        # the larger ones have default windows of several samples
        N = rnd.choice([9, 11, 12, 13]) if q % 4 == 3 else rnd.choice([4, 5, 6, 7, 8])
        n = rnd.choice([3, 4, 6, 9, N]) if cfg.get("nf") == "yes" else N
        if n < max(1, parts.MINF.get(entry.name, 1)) or N < parts.MINN.get(entry.name, 1):
            continue
        ts = list(range(N))
        if cfg.get("ts") == "yes":
            ts = rnd.choice([ts, ts[::2], ts[1:]])
        L, m = rnd.choice([3, 5, 7]), rnd.choice([1, 3, 5])
        sc = [1.0] * N
        if q % 3 == 1:          # one dominant sample: the others are near the threshold
            sc = [1.5e-3 * rnd.uniform(0.2, 3.0) for _ in range(N)]
            if q % 2 and cfg.get("ts") == "yes":   # and it lies between the requested instants
                ts = list(range(0, N, 2))
                sc[2 * rnd.randrange(N // 2 - 1) + 1 if N > 3 else 1] = 1.0
            else:
                sc[rnd.randrange(N)] = 1.0
        elif q % 3 == 2:        # some samples vanish
            sc = [rnd.choice([0.0, 1.0, 1.0]) for _ in range(N)]
            sc[rnd.randrange(N)] = 1.0
        cx = cfg.get("sig", "c") == "c"
        x = [1e3 * s * (complex(rnd.uniform(-1, 1), rnd.uniform(-1, 1)) if cx else rnd.uniform(-1, 1)) for s in sc]
        out.append({"N": N, "n_fbins": n, "T": len(ts), "timestamps": ts, "L": L, "M": m, "K": 3, "lag": [-1, 0, 1],
                    "tbp": 0.15 + 0.1 * (q % 3), "signal": x,
                    "fwindow": [rnd.uniform(0.2, 1.0) for _ in range(L)],
                    "twindow": [rnd.uniform(0.2, 1.0) for _ in range(m)]})
    return out


def spec():
    out = {}
    for nm, k in (("pseudo_wigner_ville", "pwv"), ("pseudo_margenau_hill", "pmh"), ("pseudo_page", "pp"),
                  ("smoothed_pseudo_wigner_ville", "spwv"), ("spectrogram", "spec"),
                  ("morlet_scalogram", "morlet")):
        m = Memo(k)
        out["reassigned." + nm] = [(1, m.rtfr), (2, m.field)] + ([(0, m.tfr)] if k == "morlet" else [])
    return out


def c17(ctx):
    definitions(ctx, "reassigned-cell", spec(), renvs)
    definitions(ctx, "reassigned-case", spec(), classes, extra=False)

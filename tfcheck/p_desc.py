"""Descriptors, post-processing and utilities against their defining formulas."""
import cmath
import math

from . import forms
from .forms import U, apply
from .p_defs import S, M, abs2
from .p_gens import ad, sb, dv, pw, sq, sqrt, lg, ab, laws, Among, ENVS
from .forms import same
from .entries import ODDS

pi = math.pi
real = lambda v: apply("real", [v])      # noqa: E731
conj = lambda v: apply("conj", [v])      # noqa: E731


def sig(g, name="signal"):
    cx = g.r.cfg.get("sig", "c") == "c"
    nd = g.r.cfg.get("nd")
    if g.env.get(name):
        return list(g.env[name])
    return [forms.sample(name, (i, 0) if nd == "col" else (0, i) if nd == "row" else (i,), cx)
            for i in range(g.env["N"])]


def mat(g, name="tfr"):
    return [[forms.sample(name, (i, j), False) for j in range(g.env["C"])] for i in range(g.env["R"])]


def dft(x):
    n = len(x)
    return [S(M(x[j], cmath.exp(-2j * pi * ((j * k) % n) / n)) for j in range(n)) for k in range(n)]


def moments(pos, e):
    t = forms.lift(forms.P(S(e)))
    m = dv(S(M(p, v) for p, v in zip(pos, e)), t)
    s = dv(S(M(sq(sb(p, m)), v) for p, v in zip(pos, e)), t)
    return m, M(2.0, sqrt(M(pi, s)))


def loctime(g, o):
    x = sig(g)
    m, s = moments(list(range(len(x))), [abs2(v) for v in x])
    yield 0, (), m
    yield 1, (), s


def locfreq(g, o):
    x = sig(g)
    n = len(x)
    fr = [(k if k < n // 2 else k - n) / n for k in range(n)]
    m, s = moments(fr, [abs2(v) for v in dft(x)])
    yield 0, (), m
    yield 1, (), s


def inst_freq(g, o):
    x = sig(g)
    ts = g.env["t"] if g.r.cfg.get("t") == "yes" else list(range(2, len(x)))
    for i, t in enumerate(ts):
        a = apply("angle", [M(-1.0, x[t], conj(x[t - 2]))])
        yield 0, i, M(0.25 / pi, ad(a, pi))
        yield 1, i, t


def group_delay(g, o):
    x = sig(g)
    n = len(x)
    if g.r.cfg.get("fnorm") == "yes":
        fr = [forms.sample("fnorm", (i,), False) for i in range(g.env["K"])]
        E = [[apply("exp", [M(-2j * pi * j, f)]) for j in range(n)] for f in fr]
    else:
        E = [[cmath.exp(-2j * pi * ((j * k) % n) / n) for j in range(n)] for k in range(n)]
    out = []
    for w in E:
        num = S(M(x[j], float(j + 1), w[j]) for j in range(n))
        den = S(M(x[j], w[j]) for j in range(n))
        r = real(dv(num, den))
        out.append(M(r, apply("ge", [r, 1]), apply("le", [r, n + 3])))
    if g.r.cfg.get("fnorm") != "yes":
        out = [out[(i - n // 2) % n] for i in range(n)]
    for i, v in enumerate(out):
        yield 0, i, v


def get_spectrum(g, o):
    x = sig(g)
    n = len(x)
    X = dft(x)
    for i in range(n):
        yield 0, i, abs2(X[(i - n // 2) % n])


def trapz2(m, x, y):
    dx = sb(x[1], x[0])
    rows = [M(dx, sb(S(r), M(0.5, ad(r[0], r[-1])))) for r in m]
    return S(M(0.5, ad(rows[i], rows[i + 1]), sb(y[i + 1], y[i])) for i in range(len(rows) - 1))


def integrate_2d(g, o):
    m = mat(g)
    R, C = g.env["R"], g.env["C"]
    x = [forms.sample("xax", (i,), False) for i in range(C)] if g.r.cfg.get("x") == "yes" else list(range(C))
    y = [forms.sample("yax", (i,), False) for i in range(R)] if g.r.cfg.get("y") == "yes" else list(range(R))
    yield 0, (), trapz2(m, x, y)


def derive_window(g, o):
    n = g.env["L"]
    w = [forms.sample("fwindow", (i,), False) for i in range(n)]
    step = M(0.5, ad(w[0], w[-1]))
    ramp = M(1.0 / max(n - 1, 1), sb(w[0], w[-1]))
    b = [0.0] + [sb(sb(w[i], step), M(ramp, i - (n - 1) / 2.0)) for i in range(n)] + [0.0]
    d = [ad(M(0.5, sb(b[i + 2], b[i])), ramp) for i in range(n)]
    d[0] = ad(d[0], step)
    d[-1] = sb(d[-1], step)
    for i in range(n):
        yield 0, i, d[i]


def izak(g, o):
    if g.r.cfg["ndim"] == "1":
        n = g.env["N"]
        for k in range(n):
            v = S(M(forms.sample("x", (r,), True), cmath.exp(2j * pi * ((r * k) % n) / n)) for r in range(n))
            yield 0, k, M(1.0 / math.sqrt(n), v)
        return
    n, m = g.env["R"], g.env["C"]
    for j in range(m):
        for k in range(n):
            v = S(M(forms.sample("x", (r, j), True), cmath.exp(2j * pi * ((r * k) % n) / n)) for r in range(n))
            yield 0, j + k * m, M(1.0 / math.sqrt(n), v)


def hough(g, o):
    im = mat(g)
    R, C = g.env["R"], g.env["C"]
    m = g.env["m"] if g.r.cfg.get("m") == "yes" else R
    n = g.env["n"] if g.r.cfg.get("n") == "yes" else C
    rmax = math.sqrt(R * R + C * C) / 2.0
    dr, dt = rmax / (m - 1.0), 2 * pi / n
    top = None
    for row in im:
        for v in row:
            top = v if top is None else apply("maximum", [top, v])
    xc, yc = (R + 1) // 2, (C + 1) // 2
    cells = {}
    for i in range(R):
        for j in range(C):
            x, y = i + 1 - xc, j + 1 - yc
            v = apply("ite", [apply("gt", [ab(im[i][j]), dv(top, 20.0)]), im[i][j], 0.0])
            for k in range(n):
                th = k * dt
                rho = x * math.cos(th) - y * math.sin(th)
                exact = (x == 0 and y == 0) or (k == 0 and y == 0 and abs(rho / dr % 1 - 0.5) > 1e-9)
                if not exact and (abs(rho) < 1e-9 or abs(rho / dr % 1 - 0.5) < 1e-9 or abs(rho - rmax) < 1e-9):
                    cells.setdefault("skip", set()).add(k)     # decided by rounding only
                if 0 <= rho <= rmax:
                    q = int(round(rho / dr)), k
                    cells[q] = ad(cells.get(q, 0.0), v)
    skip = cells.pop("skip", set())
    for q in range(m):
        yield 1, q, rmax * q / (m - 1)
    for k in range(n):
        yield 2, k, k * dt
        if k in skip:
            # cells may differ by rounding, but nothing is lost or counted twice
            continue
        for q in range(m):
            yield 0, (q, k), cells.get((q, k), 0.0)


def renyi(g, o):
    t = mat(g)
    R, C = g.env["R"], g.env["C"]
    x = [c + 1 for c in range(C)]
    if g.r.cfg.get("ts") == "yes":
        x = list(g.env["timestamps"])
    y = sorted(g.env["freq"]) if g.r.cfg.get("fr") == "yes" else list(range(R))
    E = forms.lift(forms.P(trapz2(t, x, y)))
    a = {"no": 3.0, "one": 1, "yes": g.req("alpha")}[g.r.cfg.get("alpha", "no")]
    eps = 2.0 ** -52
    p = [[dv(v, E) for v in r] for r in t]
    if a == 1:
        L = [[M(v, M(1 / math.log(2), lg(ad(v, eps)))) for v in r] for r in p]
        yield 0, (), M(-1.0, trapz2(L, x, y))
    else:
        P = [[pw(v, a) for v in r] for r in p]
        yield 0, (), dv(M(1 / math.log(2), lg(ad(trapz2(P, x, y), eps))), sb(1.0, a))


def ideal(g, o):
    law = g.env["iflaws"]
    n = len(law[0])
    F = g.env["n_fbins"] if g.r.cfg.get("nf") == "yes" else n
    ts = g.env["timestamps"] if g.r.cfg.get("ts") == "yes" else list(range(n))
    hit = {(int(round(l[t] * 2 * (F - 1))), c) for l in law for c, t in enumerate(ts)}
    for c in range(len(ts)):
        yield 1, c, ts[c]
        for f in range(F):
            yield 0, (f, c), 1.0 if (f, c) in hit else 0.0
    for f in range(F):
        yield 2, f, 0.5 * f / F


def odd_near(v):
    f = math.floor(v)
    if f % 2:
        return f
    return f + 1


def nearest_odd(g, o):
    k = g.r.cfg["arg"]
    if k in ("array", "list", "tuple", "range"):
        for i, v in enumerate(g.env["x"] if k == "array" else range(1, len(ODDS)) if k == "range" else ODDS):
            yield 0, i, odd_near(v)
    else:
        yield 0, (), odd_near(g.env["n"])


def nextpow2(g, o):
    def power(n):
        k = 0
        while 2 ** k < n:
            k += 1
        return k
    if g.r.cfg["arg"] == "array":
        for i, n in enumerate(g.env["n"]):
            yield 0, i, power(n)
    else:
        yield 0, (), power(g.env["n"])


def divider(g, o):
    n = g.env["n"]
    k = math.isqrt(n)
    c = k if k * k == n else k + 1
    while n % c:
        c -= 1
    yield 0, (), c
    yield 1, (), n // c


def modulo(g, o):
    n = g.env["n"]
    if g.r.cfg["x"] == "c":
        for i, v in enumerate(g.env["x"]):
            v = complex(v)
            yield 0, i, complex(v.real % n, v.imag % n)
        return
    for i, v in enumerate(g.env["x"]):
        r = v % n
        yield 0, i, n if r == 0 else r


def is_linear(g, o):
    d = g.env.get("decimals") if g.r.cfg["dec"] == "yes" else 5
    x = g.env["x"]
    steps = [(b - a) * 10.0 ** d for a, b in zip(x, x[1:])]
    if any(abs(v - math.floor(v) - 0.5) < 1e-3 for v in steps):
        return
    yield 0, (), len({round(v) for v in steps}) == 1


def e_lin(cfg, level):
    xs = [[0.0, 1.0, 2.0, 3.0], [1.0, 1.0], [2.5, 1.25, 0.0, -1.25, -2.5], [0.0, 1.0, 2.0, 4.0], [0.0, -1.0, -2.0, -2.0, -3.0],
          [3.0, 3.0, 3.0], [0.0, 1.0, 0.0, 1.0], [0.0, 1.0, 2.001, 3.0], [0.0, 1.00001, 2.0, 3.0], [0.0, 1.0000004, 2.0, 3.0],
          [1e3, 2e3, 3e3 + 2e-4], [0.0, 0.1, 0.2, 0.3, 0.4, 0.5, 0.61], [1.0, 0.0, 1.0, 2.0], [0.03, 0.06, 0.09], [4.0, 1.0, -2.0, -5.2]]
    ds = (0, 1, 2, 3, 5, 8) if cfg["dec"] == "yes" else (None,)
    return [dict(N=len(x), x=x, decimals=d) if d is not None else dict(N=len(x), x=x) for x in xs for d in ds]


def e_util(vals):
    return lambda cfg, level: [dict(n=n, N=5, x=[0.0, 1.5, 4.0, -2.0, 7.0], R=2, C=2) for n in vals]


def e_modulo(cfg, level):
    if cfg["x"] == "c":
        xs = [[1 + 1j, 2.5 - 3j, -4 + 0.5j, 7.25 + 9j, 3j], [1.0, 2 + 1j, -3.0, 4.0, 5 + 5j], [1.0, 2.0, -3.5, 4.0, 5.0]]
        return [dict(n=n, N=5, x=[complex(v) for v in x]) for n in (1, 2, 3, 5, 8) for x in xs]
    return e_util([1, 2, 3, 5, 8])(cfg, level)


def e_pow(cfg, level):
    if cfg["arg"] == "array":
        return [dict(N=8, n=list(range(a, a + 8))) for a in (1, 9, 27, 58)]
    return e_util(range(1, 66))(cfg, level)


def e_izak(cfg, level):
    return e_len(cfg, level) if cfg["ndim"] == "1" else e_mat(cfg, level)


def e_near(cfg, level):
    if cfg["arg"] == "float":
        return [dict(n=v) for v in (0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 3.75, 4.25, 7.0, 8.0, 33.2)]
    if cfg["arg"] == "int":
        return [dict(n=v) for v in range(0, 41)]
    return [dict(n=3, N=6, x=x) for x in ([0.0, 1.0, 2.0, 3.5, 4.5, 9.0], [1.5, 2.5, 6.0, 7.0, 8.25, 10.0])]


def e_mat(cfg, level):
    out = []
    for R, C in [(2, 2), (3, 4), (4, 3), (5, 5), (4, 6)] + ([] if level == "quick" else [(6, 7), (7, 4), (8, 8)]):
        for k in (0, 1):
            m, n = (R + 1 + k, C + 2 - k)
            out.append({"R": R, "C": C, "m": m, "n": n, "N": C, "alpha": [3.0, 2.0][k],
                        "timestamps": [[2 + 3 * i for i in range(C)], [5 + i for i in range(C)]][k],
                        "freq": [0.05 * (i + 1) + 0.01 * i * i for i in range(R)][::(1 - 2 * k)]})
        out.append(dict(out[-1], freq=[0.06 * (i - R // 2) + 0.007 * i * i for i in range(R)][::-1]))
    return out


def e_ideal(cfg, level):
    out = []
    for n in (2, 3, 5, 8, 9):
        for I in (1, 2):
            law = [[((3 * i + 5 * q) % 11) / 22.0 for i in range(n)] for q in range(I)]
            out.append({"I": I, "N": n, "n_fbins": n + 3, "iflaws": law,
                        "timestamps": list(range(n))[::-1]})
    return out


def e_len(cfg, level):
    return [{"L": n, "N": n} for n in (1, 2, 3, 4, 5, 7, 8, 9, 12, 15)]


def e_sig(cfg, level):
    out = []
    for n in [3, 4, 5, 6, 7, 8, 9, 12] + ([] if level == "quick" else [10, 11, 13, 16, 17]):
        t = list(range(2, n))
        for ts in ([t, t[::-1], t[::2]] if cfg.get("t") == "yes" else [t]):
            out.append({"N": n, "K": 3, "T": len(ts), "t": ts})
    return out


def e_gd(cfg, level):
    """Plus two records whose delay sits exactly on a limit of the admitted range."""
    out = e_sig(cfg, level)
    if cfg.get("fnorm") != "yes" and cfg.get("nd") not in ("col", "row"):
        out += [{"N": 2, "K": 3, "T": 0, "t": [], "signal": x} for x in ([3.0, -4.0], [1.0, 0.0])]
    return out


ENVS.update({"nearest_odd": e_near, "is_linear": e_lin, "nextpow2": e_pow, "divider": e_util(range(1, 61)),
             "modulo": e_modulo, "izak": e_izak, "integrate_2d": e_mat,
             "hough_transform": e_mat, "renyi_information": e_mat, "ideal_tfr": e_ideal,
             "derive_window": e_len, "loctime": e_sig, "locfreq": e_sig, "inst_freq": e_sig,
             "group_delay": e_gd, "get_spectrum": e_sig})
NO = [()]
DESC = {"loctime": (loctime, NO), "locfreq": (locfreq, NO), "inst_freq": (inst_freq, NO),
        "group_delay": (group_delay, NO), "get_spectrum": (get_spectrum, NO)}
POST = {"integrate_2d": (integrate_2d, NO), "derive_window": (derive_window, NO),
        "hough_transform": (hough, NO), "renyi_information": (renyi, [(), ("alpha",)]),
        "ideal_tfr": (ideal, NO)}
UTIL = {"izak": (izak, NO), "is_linear": (is_linear, NO), "nearest_odd": (nearest_odd, NO), "nextpow2": (nextpow2, NO),
        "divider": (divider, NO), "modulo": (modulo, NO)}


def c31(ctx):
    laws(ctx, "descriptor-formula", DESC)


def c32(ctx):
    laws(ctx, "postprocessing-formula", POST)


def c33(ctx):
    laws(ctx, "utility-formula", UTIL)

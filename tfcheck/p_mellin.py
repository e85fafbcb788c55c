"""C40: Mellin-transform helpers (scaling, lambda functions, u-range)."""
import math

from .p_defs import S, M
from .p_gens import laws, hilb, ad, sb, dv, sq, sqrt, ex, lg, pw, cis, ENVS    # noqa: F401
from .p_affine import rsig, shift, ifft, fft, umax_of, real, conj
from .p_defs import D, abs2


def unshift_np(x):
    """fftshift applied again (an even length)."""
    return shift(x)


def scale(g, o):
    d = D(g.r, g.env)
    N = d.N
    lo, hi, V, a = g.env["fmin"], g.env["fmax"], g.env["n_voices"], g.env["a"]
    z = hilb(rsig(d))
    m = (N + N % 2) / 2
    q = math.log(hi / lo) / (V - 1.0)
    geo = [lo * math.exp(k * q) for k in range(V)]
    A = [S(M(z[j], cis(-(j - m - 1) * f)) for j in range(N)) for f in geo]
    mel = shift(ifft(A, 2 * V))
    la = math.log(a)
    D2 = fft(shift([M(v, cis(-(p / float(V) - 1) / (2 * q) * la)) for p, v in enumerate(mel)]))[:V]
    half = math.ceil(a * N / 2.0)
    y = []
    for r in range(2 * half):
        t = r - half - 1
        w = [M(cis(t * f), v) for f, v in zip(geo, D2)]
        y.append(S(M(0.5 * (geo[k + 1] - geo[k]), ad(w[k], w[k + 1])) for k in range(V - 1)))
    ex_ = sqrt(S(abs2(d.x(i)) for i in range(N)))
    ey = sqrt(S(abs2(v) for v in y))
    for r in range(2 * half):
        yield 0, r, dv(M(y[r], ex_), ey)


def senvs(cfg, level):
    out = []
    for N in (3, 4, 5, 6) if level == "quick" else (3, 4, 5, 6, 7, 8):
        for V, lo, hi, a in ((3, 0.1, 0.4, 1.0), (4, 0.07, 0.33, 2.0), (4, 0.2, 0.45, 0.5), (3, 0.15, 0.3, 1.3)):
            out.append({"N": N, "n_voices": V, "fmin": lo, "fmax": hi, "a": a})
    return out


POW = {"bertrand": 0, "unterberger": -1, "d_flandrin": 0.5, "aspwv": 2}


def lam(g, o):
    k, u = POW[g.r.cfg["k"]], g.env["u"]
    if u == 0:
        yield 0, (), 1
    elif k == 0:
        yield 0, (), u / (1 - math.exp(-u))
    else:
        yield 0, (), (k * (math.exp(-u) - 1) / (math.exp(-k * u) - 1)) ** (1.0 / (k - 1))


def umax(g, o):
    yield 0, (), umax_of("dflandrin", g.env["ratio"])


ENVS40 = {"scale": senvs,
          "lambdak": lambda c, lv: [{"u": u} for u in (0, 0.0, 0.3, -0.3, 1.7, -2.2, 1e-3)],
          "umaxdfla_solve": lambda c, lv: [{"ratio": r} for r in (1.01, 1.5, 2.0, 4.0, 9.0, 30.0)]}
NO = [()]


def c40(ctx):
    keep = dict(ENVS)
    ENVS.update(ENVS40)
    try:
        laws(ctx, "mellin-helper", {"scale": (scale, NO), "lambdak": (lam, NO), "umaxdfla_solve": (umax, NO)})
    finally:
        ENVS.clear()
        ENVS.update(keep)

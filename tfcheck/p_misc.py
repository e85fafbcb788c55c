"""C37: the Gabor representation and its dual window."""
import cmath
import math

from .forms import apply
from .p_defs import S, M, abs2, definitions, Skip

pi = math.pi


def rhe(v):
    """Round half to even, as the library does."""
    return int(round(v))


def divisor(n):
    """Largest divisor not exceeding ceil(sqrt n)."""
    return next(d for d in range(math.ceil(math.sqrt(n)), 0, -1) if n % d == 0)


def setup(d):
    N = d.N
    nc = d.env["n_coeff"] if d.cfg.get("nc") == "yes" else divisor(N)
    q = d.env["q_oversample"] if d.cfg.get("q") == "yes" else divisor(nc)
    if nc % q or N % nc or nc == N:
        raise Skip()
    if d.cfg.get("win") == "yes":
        w = list(d.env["fwindow"])
    else:
        L = nc + 1 - nc % 2
        w = [math.exp(math.log(0.005) * (2 * i / (L - 1.0) - 1) ** 2) for i in range(L)] if L > 1 else [0.005]
        k = math.sqrt(sum(v * v for v in w))
        w = [v / k for v in w]
    m, nb = q * N // nc, nc // q
    al = rhe((2.0 * N / nc - 1 - len(w)) / (2 * q))
    lo = rhe((N - (len(w) - 1)) / 2.0) - al
    hi = rhe((N + len(w) - 1) / 2.0) - al
    if lo < 1 or hi > N or hi - lo + 1 != len(w):
        raise Skip()
    h = [0.0] * (lo - 1) + w + [0.0] * (N - hi)
    e = [cmath.exp(2j * pi * k / m) for k in range(m)]
    # Zak transform of the synthesis window and of its dual
    Z = [[sum(h[j + nb * i] * e[-k * i % m] for i in range(m)) / math.sqrt(m) for j in range(nb)] for k in range(m)]
    P = [[sum(abs(Z[(k - l * (m // q)) % m][j]) ** 2 for l in range(q)) for j in range(nb)] for k in range(m)]
    if any(0 < p < 1e-9 for r in P for p in r):
        raise Skip()
    D = [[Z[k][j] / (P[k][j] or 1.0) for j in range(nb)] for k in range(m)]
    g = [0.0] * N
    for j in range(nb):
        for i in range(m):
            g[j + nb * i] = sum(D[k][j] * e[k * i % m] for k in range(m)).real / math.sqrt(m) / N
    return N, nc, q, m, nb, g


def get(d):
    if not hasattr(d, "gab"):
        d.gab = setup(d)
    return d.gab


def o_dual(d):
    g = get(d)[5]
    return lambda i: g[i]


def o_coef(d):
    N, nc, q, m, nb, g = get(d)

    def at(k, n):
        return S(M(g[(t + (N + 1) // 2 - n * (m // q)) % N] * cmath.exp(-2j * pi * ((k * nb * t) % N) / N), d.x(t))
                 for t in range(N))
    return at


def o_tfr(d):
    c = o_coef(d)
    return lambda k, n: abs2(c(k, n))


def genvs(entry, cfg, level):
    if cfg.get("sig") == "f" and cfg.get("nc") is None:
        cfg = dict(cfg, nc="no", q="no", win="no")
    combos = [(8, 4, 2), (12, 4, 2), (9, 3, 1), (12, 6, 3), (16, 4, 4), (16, 8, 2), (15, 5, 5), (10, 2, 1), (18, 6, 3)]
    if level != "quick":
        combos += [(20, 10, 5), (24, 8, 4), (21, 7, 7), (24, 12, 3), (32, 8, 2)]
    out = []
    for N, nc, q in combos:
        if cfg.get("nc") != "yes":
            nc = divisor(N)
            q = max(x for x in range(1, nc + 1) if nc % x == 0 and x <= max(1, nc // 2))
        for L in ([3, 5] if cfg.get("win") == "yes" else [3]):
            out.append({"N": N, "n_coeff": nc, "q_oversample": q, "L": L,
                        "fwindow": [0.3, 1.0, 0.55, 0.8, 0.25][:L]})
    return out


def c37(ctx):
    definitions(ctx, "gabor-frame", {"gabor": [(2, o_dual), (1, o_coef), (0, o_tfr)]}, genvs, extra=False)

"""Affine distributions, scalogram and wide-band ambiguity against their definitions."""
import cmath
import math

from . import forms, parts, peval, interp as IN
from .forms import apply, Forms
from .p_defs import S, M, U, abs2, definitions, sig_env, Skip, Out
from .p_effects import where
from .p_shapes import outs
from .p_gens import hilb, dv, ad

pi = math.pi
real = lambda v: apply("real", [v])      # noqa: E731
conj = lambda v: apply("conj", [v])      # noqa: E731


def rnd(v):
    """Nearest integer; None when only rounding errors decide."""
    if abs(v - math.floor(v) - 0.5) < 1e-9 and abs(2 * v - round(2 * v)) > 0:
        return None
    return int(round(v))


def need(v):
    if v is None:
        raise Skip()
    return v


def fft(x, n=None, sign=-1):
    n = n or len(x)
    out = []
    for f in range(n):
        out.append(S(M(v, _w(f * j, n, sign)) for j, v in enumerate(x[:n]) if not _zero(v)))
    return out


def _zero(v):
    return isinstance(v, (int, float, complex)) and v == 0


def _w(k, n, sign):
    z = cmath.exp(sign * 2j * pi * (k % n) / n)
    return complex(round(z.real, 15), round(z.imag, 15))


def ifft(x, n=None):
    n = n or len(x)
    return [M(v, 1.0 / n) for v in fft(x, n, 1)]


def shift(x):
    n = len(x)
    return [x[(i - n // 2) % n] for i in range(n)]


def unshift(x):
    return shift(x) if len(x) % 2 == 0 else [x[(i + len(x) // 2) % len(x)] for i in range(len(x))]


def voices(d):
    lo, hi = d.env["fmin"], d.env["fmax"]
    V = d.env["n_voices"]
    return lo, hi, V, [lo * (hi / lo) ** (k / (V - 1.0)) for k in range(V)]


def instants(d):
    return d.env["timestamps"] if d.cfg.get("ts") == "yes" else list(range(d.N))


def rsig(d):
    x = [d.x(i) for i in range(d.N)]
    return [real(v) for v in x] if d.cplx else x


def energy(spec, lo, hi, T, first):
    """Energy of the analytic spectrum in the analysed band."""
    a = 1 + need(rnd(lo * (T - 2)))
    b = 1 + need(rnd(hi * (T - 2)))
    return S(abs2(v) for v in (spec[a - 1:b] if first else spec[a:b + 1]))


def integral(m, x, y):
    R = [M(x[1] - x[0], ad(S(r), M(-0.5, ad(r[0], r[-1])))) for r in m]
    return S(M(0.5 * (y[i + 1] - y[i]), ad(R[i], R[i + 1])) for i in range(len(m) - 1))


def umax_of(kind, ratio):
    if kind == "bertrand":
        return math.log(ratio)
    if kind == "dflandrin":
        # ((1 + u/4)/(1 - u/4))^2 = ratio
        s = math.sqrt(ratio)
        return 4 * (s - 1) / (s + 1)
    # (a + u/2)/(a - u/2) = ratio with a^2 = 1 + u^2/4
    c = (ratio - 1) / (ratio + 1)
    return 2 * c / math.sqrt(1 - c * c)


def affine(kind):
    def build(d):
        return lambda f, t: cells(d)[f][t]

    def cells(d):
        if not hasattr(d, "aff"):
            d.aff = make(d)
        return d.aff

    def make(d):
        N = d.N
        lo, hi, V, geo = voices(d)
        s = rsig(d)
        m = (N + 1) // 2
        u0 = umax_of(kind, hi / lo)
        teq = m / (hi * u0)
        m1 = m
        lim = N if kind == "bertrand" else 2 * m
        if abs(teq - lim) < 1e-9:
            raise Skip()
        if teq < lim:
            m1 = m + need(rnd(2 * m * m / teq - m)) + 1
        A = [S(M(s[j], cmath.exp(-2j * pi * (j - m) * g)) for j in range(N)) for g in geo]
        mel = shift(ifft(A, 2 * V))
        du = u0 / m1
        lq = math.log(hi / lo) / (V - 1)
        beta = [(p / float(V) - 1) / (2 * lq) for p in range(2 * V)]
        W = []
        for n in range(2 * m1):
            u = 0.0 if n == m1 else -u0 + n * du
            c = 1.0
            if kind == "bertrand":
                if n == m1:
                    W.append([abs2(v) for v in A])
                    continue
                k = u / 2 / math.sinh(u / 2)
                e1, e2 = math.log(k) - u / 2, math.log(k) + u / 2
                ex = [-2j * pi * b + 0.5 for b in beta]
            else:
                ex = [-(2j * pi * b + 0.5) for b in beta]
                if kind == "dflandrin":
                    e1, e2 = 2 * math.log(1 - u / 4), 2 * math.log(1 + u / 4)
                else:
                    r = math.sqrt(1 + u * u / 4)
                    e1, e2 = math.log(r - u / 2), math.log(r + u / 2)
                    if d.cfg.get("form") != "A":
                        c = 1 / r
            f1 = fft(unshift([M(v, cmath.exp(x * e1)) for v, x in zip(mel, ex)]))[:V]
            f2 = fft(unshift([M(v, cmath.exp(x * e2)) for v, x in zip(mel, ex)]))[:V]
            W.append([M(c, p, conj(q)) for p, q in zip(f1, f2)])
        L = 2 * m1
        ts2 = (N - 1) / 2.0
        ts = instants(d)
        off = 1 if kind == "unterberger" else 0
        G = geo[-1] * ts2
        gam = [-G + 2 * G * i / (L - 1.0) for i in range(L)]
        gam[-1] = G
        rows = []
        for i in range(V):
            col = [M(geo[i], W[(r + m1) % L][i]) for r in range(L)]
            col = ifft(col)
            col = [col[(r + m1) % L] for r in range(L)]
            col = [real(v) for v in col[::-1]]
            b = geo[i] * ts2
            if i < V - 1 and any(abs(abs(g) - b) < 1e-9 for g in gam):
                raise Skip()
            ind = [k for k in range(L) if i == V - 1 or -b <= gam[k] <= b]
            w = peval.spline_weights([gam[k] for k in ind], [(t - ts2 - off) * geo[i] for t in ts])
            if w is None:
                raise Skip()
            rows.append([S(M(c, col[k]) for c, k in zip(wt, ind)) for wt in w])
        E = energy(fft(hilb(s)), lo, hi, N, True)
        I = integral(rows, ts, geo)                       # noqa: E741
        k = dv(M(1.0 / V, E), I)
        return [[M(v, k) for v in r] for r in rows]
    return build


def morlet(d, band=True):
    """Wavelet transform of the zero-mean analytic signal."""
    N = d.N
    lo, hi = d.env["fmin"], d.env["fmax"]
    V = d.env["n_voices"] if d.cfg.get("nv") == "yes" else N
    w = d.env["waveparams"] if d.cfg.get("wave") == "yes" else math.sqrt(N)
    s = rsig(d)
    mean = M(1.0 / N, S(s))
    z = hilb([apply("sub", [v, mean]) for v in s])
    f = [lo * (hi / lo) ** (k / (V - 1.0)) for k in range(V)]
    a = [(hi / lo) ** (1 - k / (V - 1.0)) for k in range(V)]
    wt = []
    for p in range(V):
        if w > 0:
            nha = w * a[p]
            h = need(rnd(nha))
            ha = [math.exp(-2 * math.log(10) * (t / nha) ** 2) * cmath.exp(2j * pi * f[p] * t)
                  for t in range(-h, h + 1)]
        else:
            q = 1.5 / f[p]
            if abs(q - round(q)) < 1e-9:
                raise Skip()
            h = int(math.ceil(q))
            al = (pi * f[p]) ** 2
            ha = [f[p] * math.sqrt(pi) / 2 * math.exp(-al * t * t) * (1 - 2 * al * t * t)
                  for t in range(-h, h + 1)]
        k = 1 / math.sqrt(a[p])
        wt.append([S(M(k * ha[h + u], z[t - u]) for u in range(-h, h + 1) if 0 <= t - u < N)
                   for t in instants(d)])
    return lo, hi, V, f, z, wt


def scalo(d):
    def get():
        if not hasattr(d, "sc"):
            lo, hi, V, f, z, wt = morlet(d)
            p = [[abs2(v) for v in r] for r in wt]
            N = d.N
            k = dv(M(1.0 / V, energy(fft(z), lo, hi, N, False)), integral(p, instants(d), f))
            d.sc = wt, [[M(v, k) for v in r] for r in p]
        return d.sc
    return get


def o_scalo(d):
    g = scalo(d)
    return lambda f, t: g()[1][f][t]


def o_wt(d):
    g = scalo(d)
    return lambda f, t: g()[0][f][t]


def o_wideband(d):
    memo = {}

    def make():
        N = d.N
        lo, hi, V, geo = voices(d)
        z = hilb(rsig(d))
        m = int(round(N / 2.0))
        A = [S(M(z[j], cmath.exp(-2j * pi * (j - m) * g)) for j in range(N)) for g in geo]
        lq = math.log(hi / lo) / (V - 1)
        amp = [math.exp(p / 2.0 * lq) for p in range(V)]
        a = shift(ifft([M(k, v) for k, v in zip(amp, A)], 2 * V))
        cols = []
        for j in range(N):
            b = shift(ifft([M(k * cmath.exp(-2j * pi * (j - m) * g), v)
                            for k, v, g in zip(amp, A, geo)], 2 * V))
            cols.append(ifft([M(p, conj(q)) for p, q in zip(a, b)][:V]))
        h = (V + V % 2) // 2
        E = energy(fft(z), lo, hi, N, True)
        k = dv(M(1.0 / V, E), cols[m - 1][(h - 1 + h) % V])
        return cols, h, V, k

    def at(f, t):
        if "w" not in memo:
            memo["w"] = make()
        cols, h, V, k = memo["w"]
        return M(cols[t][(f + h) % V], k)
    return at


def o_delays(d):
    return lambda i: i - int(round(d.N / 2.0))


def o_dilations(d):
    lo, hi, V = voices(d)[:3]
    return lambda i: (2.0 * i / (V - 1) - 1.0) * math.log(hi / lo)


def wenvs(entry, cfg, level):
    if cfg.get("band") != "yes" or cfg.get("n") != "yes":
        return []
    combos = [(6, 4, 0.1, 0.4), (7, 3, 0.17, 0.45), (9, 5, 0.13, 0.39), (8, 4, 0.15, 0.43), (5, 6, 0.2, 0.41)]
    if level != "quick":
        combos += [(9, 5, 0.12, 0.3), (10, 6, 0.2, 0.47)]
    return [{"N": N, "n_voices": V, "fmin": lo, "fmax": hi} for N, V, lo, hi in combos]


def aenvs(entry, cfg, level):
    """Sizes, bands and voice counts (the band is explicit)."""
    out = []
    if cfg.get("band") != "yes" or (cfg.get("nv") != "yes" and entry.name != "Scalogram"):
        return out
    if entry.name == "Scalogram":
        combos = [(6, 3, 0.1, 0.4), (7, 4, 0.12, 0.37), (8, 2, 0.11, 0.31), (9, 3, 0.06, 0.45)]
        if level != "quick":
            combos += [(10, 4, 0.07, 0.3), (12, 5, 0.05, 0.4), (13, 3, 0.2, 0.47)]
        ws = [2.0, 1.3, 0.0, 3.1] if cfg.get("wave") == "yes" else [0]
        for i, (N, V, lo, hi) in enumerate(combos):
            if cfg.get("nv") != "yes":
                V = N
            out.append(dict({"N": N, "n_voices": V, "fmin": lo, "fmax": hi, "waveparams": ws[i % len(ws)]},
                            **some(N, i, cfg)))
            if i == 0 and len(ws) > 1:
                out.append(dict(out[-1], waveparams=0.0))
        return out
    combos = [(12, 4, 0.1, 0.4), (13, 3, 0.17, 0.45), (14, 5, 0.15, 0.43), (15, 4, 0.12, 0.3)]
    if level != "quick":
        combos += [(16, 6, 0.11, 0.47), (18, 4, 0.08, 0.39), (21, 5, 0.21, 0.33), (12, 8, 0.13, 0.44)]
    for i, (N, V, lo, hi) in enumerate(combos):
        out.append(dict({"N": N, "n_voices": V, "fmin": lo, "fmax": hi}, **some(N, i, cfg)))
    return out


def some(N, i, cfg):
    """Time instants of a partition."""
    if cfg.get("ts") != "yes":
        return {}
    ts = [list(range(0, N, 2)), [2, 3, 4], list(range(N)), [1, 4]][i % 4]
    return {"timestamps": ts, "T": len(ts)}


AFF = {"BertrandDistribution": [(0, affine("bertrand"))],
       "DFlandrinDistribution": [(0, affine("dflandrin"))],
       "UnterbergerDistribution": [(0, affine("unterberger"))]}
SCA = {"Scalogram": [(0, o_scalo), (3, o_wt)]}


def default_voices(kind, N, lo, hi):
    m = (N + 1) // 2
    u0 = umax_of(kind, hi / lo)
    teq = m / (hi * u0)
    lim = N if kind == "bertrand" else 2 * m
    if abs(teq - lim) < 1e-9:
        raise Skip()
    m1 = m
    if teq < lim:
        m1 = m + need(rnd(2 * m * m / teq - m)) + 1
    B = hi - lo
    R = 2 * B / (lo + hi)
    q = B * (2 * m1 - 1) * (1 + 2 / R) * math.log((1 + R / 2) / (1 - R / 2)) / 2
    if abs(q - round(q)) < 1e-9:
        raise Skip()
    n = math.ceil(q)
    n -= n % 2
    k = 0
    while 2 ** k < n:
        k += 1
    return 2 ** k


def voices_default(ctx):
    for name, kd in (("BertrandDistribution", "bertrand"), ("DFlandrinDistribution", "dflandrin"),
                     ("UnterbergerDistribution", "unterberger")):
        for r in ctx.runs(names={name}):
            if r.cfg.get("band") != "yes" or r.cfg.get("nv") != "no" or r.ret is None:
                continue
            o = outs(r.ret)
            if not o:
                continue
            for N in (12, 13, 16, 21, 32, 45, 64):
                for lo, hi in ((0.05, 0.4), (0.1, 0.25), (0.02, 0.5), (0.13, 0.47)):
                    env = {"N": N, "fmin": lo, "fmax": hi}
                    forms.reset()
                    try:
                        want = default_voices(kd, N, lo, hi)
                        s = Out(ctx, r, o[0], Forms(env)).shp()
                    except (Skip, IN.Giveup):
                        continue
                    ok = s is not None and s[0] == want
                    ctx.add("default-voices", r.label, "proved" if ok else "unknown" if s is None else "refuted",
                            where(r.entry), "" if ok or s is None else "%d voices by default where %d are due"
                            % (s[0], want), env)


def records(level):
    """Band-limited records with known samples: (samples, time instants)."""
    out = []
    for i, (N, k0, k1) in enumerate([(16, 2, 5), (16, 3, 6), (13, 1, 4), (17, 3, 5), (24, 4, 9), (21, 5, 8)] +
                                    ([] if level == "quick" else [(32, 5, 11), (27, 2, 9), (40, 7, 13), (18, 1, 2)])):
        x = [sum((1.0 + 0.3 * ((3 * k + i) % 4)) * math.cos(2 * pi * k * n / N + 0.7 * k * k) for k in range(k0, k1 + 1))
             for n in range(N)]
        out.append((x, None))
        if i % 2:
            out.append((x, list(range(2, N - 2))))
    return out


def near(v):
    return abs(v - round(v)) < 1e-7


def default_band(x, analytic):
    """Multiples of 0.05 enclosing the bins whose power exceeds 1 % of the maximum."""
    n = len(x)
    X = [sum(v * cmath.exp(-2j * pi * k * i / n) for i, v in enumerate(x)) for k in range(n)]
    m = int(round(n / 2.0))
    if analytic:
        X = [X[k] * (1.0 if k == 0 or 2 * k == n else 2.0) for k in range(m)]
    sp = [abs(v) ** 2 for v in X[:m]]
    top = max(sp)
    if any(abs(v - top / 100) < 1e-6 * top for v in sp):
        raise Skip()
    on = [0.5 * k / m for k in range(m) if sp[k] > top / 100]
    a, b = on[0] / 0.05, on[-1] / 0.05
    if near(a) or near(b):
        raise Skip()
    lo, hi = max(0.01, 0.05 * math.floor(a)), 0.05 * math.ceil(b)
    if not lo < hi <= 0.5:
        raise Skip()
    return lo, hi


def band_default(ctx, names):
    for name in names:
        for r in ctx.runs(names={name}):
            if r.cfg.get("band") != "no" or r.ret is None or r.cfg.get("nv", r.cfg.get("n")) != "yes" \
                    or r.cfg.get("cross") == "yes" or r.cfg.get("sig") == "i":
                continue
            o = outs(r.ret)
            if not o or len(o) < 3:
                continue
            for x, ts in records(ctx.tier):
                if (ts is not None) != (r.cfg.get("ts") == "yes"):
                    continue
                env = {"N": len(x), "n_voices": 4, "signal": x, "waveparams": 2.0}
                if ts is not None:
                    env.update(timestamps=ts, T=len(ts))
                try:
                    lo, hi = default_band(x if ts is None else x[ts[0]:ts[-1] + 1], name == "wide_band")
                except Skip:
                    continue
                want = [-math.log(hi / lo), math.log(hi / lo)] if name == "wide_band" else [lo, hi]
                forms.reset()
                try:
                    v = Out(ctx, r, o[2], Forms(sig_env(env)))
                    got = [v.el((0,)), v.el((3,))]
                except (IN.Giveup, forms.Blowup):
                    got = [U, U]
                res = [forms.same(g, w) for g, w in zip(got, want)]
                s = "refuted" if False in res else "unknown" if None in res else "proved"
                ctx.add("default-band", r.label, s, where(r.entry), "" if s != "refuted" else
                        "the %s run from %s to %s by default where %.6g to %.6g is due" % (
                            "log scales" if name == "wide_band" else "frequencies", forms.show(got[0], 3),
                            forms.show(got[1], 3), want[0], want[1]), parts.show(env, r))


def c34(ctx):
    voices_default(ctx)
    band_default(ctx, AFF)
    definitions(ctx, "mellin-domain-construction", AFF, aenvs, extra=False)


def c35(ctx):
    band_default(ctx, SCA)
    definitions(ctx, "wavelet-convolution", SCA, aenvs, extra=False)


def c36(ctx):
    band_default(ctx, ["wide_band"])
    definitions(ctx, "wide-band-ambiguity", {"wide_band": [(0, o_wideband), (1, o_delays), (2, o_dilations)]}, wenvs, extra=False)

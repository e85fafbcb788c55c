"""Defining sums of the representations, compared with the polynomial form of
every cell of the results (for every signal and window, per size partition)."""
import cmath
import math

from . import interp as IN, nodes, parts, forms
from .forms import Forms, same, U, apply, Poly
from .peval import Evaluator, exact, TooBig
from .nodes import rank, kind
from .p_effects import where
from .core import pmap
from .p_shapes import outs, select, rejected


def rn(n):
    """round(n / 2), ties to even, as both round() and np.round() do."""
    return int(round(n / 2.0))


def ham(L):
    return [1.0] if L == 1 else [0.54 - 0.46 * math.cos(2 * math.pi * i / (L - 1)) for i in range(L)]


def odd_up(h):
    return h + 1 - h % 2


def S(vals):
    t = 0.0
    for v in vals:
        t = apply("add", [t, v])
    return t


def M(*vals):
    t = vals[0]
    for v in vals[1:]:
        t = apply("mul", [t, v])
    return t


def cj(v):
    return apply("conj", [v])


class Skip(Exception):
    """The partition is decided by floating point rounding only, or outside the domain."""


class D(object):
    """What an oracle may look at: configuration, sizes and the unknown samples."""

    def __init__(self, r, env):
        self.cfg, self.env = r.cfg, env
        self.N = env.get("N")
        self.n = env["n_fbins"] if r.cfg.get("nf") == "yes" else self.N
        self.cplx = r.cfg.get("sig", "c") == "c"

    def x(self, i):
        assert 0 <= i < self.N
        if self.env.get("signal"):
            return self.env["signal"][i]
        return forms.sample("signal", (i,), self.cplx)

    def ts(self):
        if self.cfg.get("ts") == "yes":
            return list(self.env["timestamps"])
        return list(range(self.N))

    def win(self, opt, name, default, sym="L"):
        """Window samples: unknown when passed, the documented default otherwise."""
        if self.cfg.get(opt) == "yes":
            if self.env.get(name):
                return list(self.env[name])
            return [forms.sample(name, (i,), False) for i in range(self.env[sym])]
        return default


def dft(col, n, sign=-1):
    """col: {row: value}; returns the n-point transform."""
    return [dft1(col, n, f, sign) for f in range(n)]


def dft1(col, n, f, sign=-1):
    t = 0j
    for r, v in col.items():
        w = cmath.exp(sign * 2j * math.pi * ((f * r) % n) / n)
        t = apply("add", [t, apply("mul", [v, complex(round(w.real, 15), round(w.imag, 15))])])
    return t


def table(cols, n, post):
    cs = {}

    def at(f, t):
        if (f, t) not in cs:
            cs[f, t] = post(dft1(cols[t], n, f))
        return cs[f, t]
    return at


real = lambda v: apply("real", [v])                    # noqa: E731
abs2 = lambda v: apply("real", [apply("mul", [v, cj(v)])])   # noqa: E731
ident = lambda v: v                                    # noqa: E731


# ------------------------------------------------------------------- oracles
def o_stft(d, labels=True, norm=False, post=ident, default=None):
    n, N = d.n, d.N
    h = d.win("fw", "fwindow", default or ham(odd_up(n // 4)))
    lh = (len(h) - 1) // 2
    R = min(rn(n) - 1, lh)
    cols = []
    for c, t in enumerate(d.ts()):
        t = c if labels else t
        taus = range(-min(R, t), min(R, N - 1 - t) + 1)
        k = 1.0
        if norm:
            k = apply("reciprocal", [apply("sqrt", [S(M(h[lh + u], h[lh + u]) for u in taus)])])
        cols.append({u % n: M(d.x(t + u), h[lh + u], k) for u in taus})
    return table(cols, n, post)


def o_spec(d):
    return o_stft(d, labels=False, norm=True, post=abs2)


def o_rspec(d):
    return o_stft(d, labels=False, norm=True, post=abs2, default=ham(odd_up(d.N // 4)))


def o_mh(d):
    n, N = d.n, d.N
    cols = []
    for t in d.ts():
        cols.append({(t - s) % n: M(d.x(t), cj(d.x(s))) for s in range(min(n, N))})
    return table(cols, n, real)


def centred(h):
    c = h[(len(h) - 1) // 2]
    return [apply("div", [v, c]) for v in h]


def o_pmh(d, labels=True, norm=False):
    n, N = d.n, d.N
    h = d.win("fw", "fwindow", centred(ham(odd_up(n // 4))))
    if norm:
        h = centred(h)
    lh = (len(h) - 1) // 2
    cols = []
    for c, t in enumerate(d.ts()):
        t = c if labels else t
        taus = range(-min(rn(n) - 1, lh, N - 1 - t), min(rn(n) - 1, lh, t) + 1)
        cols.append({u % n: M(h[lh + u], d.x(t), cj(d.x(t - u))) for u in taus})
    return table(cols, n, real)


def o_ppage(d, labels=True, norm=False):
    n, N = d.n, d.N
    h = d.win("fw", "fwindow", centred(ham(odd_up(n // 4))))
    if norm:
        h = centred(h)
    lh = (len(h) - 1) // 2
    cols = []
    for c, t in enumerate(d.ts()):
        t = c if labels else t
        cols.append({u % n: M(h[lh + u], d.x(t), cj(d.x(t - u)))
                     for u in range(min(n - 1, lh, t) + 1)})
    return table(cols, n, real)


def o_wv(d, h=None, labels=True):
    n, N = d.n, d.N
    cols = []
    lh = None if h is None else (len(h) - 1) // 2

    def w(u):
        return 1.0 if h is None else h[lh + u]
    for c, t in enumerate(d.ts()):
        t = c if labels else t
        m = min(t, N - 1 - t, rn(n) - 1)
        if h is not None:
            m = min(m, lh)
        col = {u % n: M(w(u), d.x(t + u), cj(d.x(t - u))) for u in range(-m, m + 1)}
        q = rn(n)
        if n % 2 == 0 and q <= t <= N - 1 - q and (h is None or q <= lh):
            col[q] = M(0.5, S([M(w(q), d.x(t + q), cj(d.x(t - q))),
                               M(w(-q), d.x(t - q), cj(d.x(t + q)))]))
        cols.append(col)
    return table(cols, n, real)


def o_pwv(d):
    return o_wv(d, d.win("fw", "fwindow", ham(odd_up(d.n // 4))))


def o_rpwv(d):
    return o_wv(d, centred(d.win("fw", "fwindow", ham(odd_up(d.n // 4)))), labels=False)


def o_spwv(d, nyq=True, tw=10):
    n, N = d.n, d.N
    h = d.win("fw", "fwindow", ham(odd_up(n // 4)))
    g = d.win("tw", "twindow", ham(odd_up(n // tw)), "M")
    lh, lg = (len(h) - 1) // 2, (len(g) - 1) // 2
    cols = []
    for t in d.ts():
        def corr(u):
            ps = [p for p in range(-lg, lg + 1) if 0 <= t + u - p < N and 0 <= t - u - p < N]
            if not ps:
                return None
            k = apply("reciprocal", [S(g[lg + p] for p in ps)])
            return S(M(g[lg + p], k, d.x(t + u - p), cj(d.x(t - u - p))) for p in ps)
        col = {}
        for u in range(0, min(rn(n) - 1, lh) + 1):
            v = corr(u)
            if v is None:
                continue
            if u == 0:
                col[0] = v
            else:
                col[u] = M(h[lh + u], v)
                col[n - u] = M(h[lh - u], corr(-u))
        if nyq and n % 2 == 0 and rn(n) <= lh and rn(n) <= t <= N - 1 - rn(n):
            q = rn(n)
            col[q] = M(0.5, S([M(h[lh + q], corr(q)), M(h[lh - q], corr(-q))]))
        cols.append(col)
    return table(cols, n, real)


def o_naf(d):
    n, N = d.n, d.N
    if d.cfg.get("lag") == "yes":
        lags = d.env["lag"]
    elif N % 2 == 0:
        lags = list(range(-N // 2 + 1, N // 2))
    else:
        lags = list(range(-(N - 1) // 2, (N + 1) // 2))
    cols = [dft({t: M(d.x(t + u), cj(d.x(t - u))) for t in range(abs(u), N - abs(u))}, n)
            for u in lags]
    h = (n + n % 2) // 2
    perm = list(range(h, n)) + list(range(h))
    return lambda f, t: cols[t][perm[f]]


# ------------------------------------------------------------------ the check
def sizes(level):
    if level == "quick":
        return [2, 3, 4, 5, 6, 7, 8, 9, 11, 12]
    return list(range(1, 15)) + [16, 17]


def penvs(entry, cfg, level):
    """Size partitions for the defining sums."""
    name = entry.name
    out = []
    amb = name == "narrow_band"
    ns = sizes(level)
    if not any(cfg.get(k) == "yes" for k in ("nf", "ts", "fw", "tw", "lag")):
        ns = ns + ([16, 21, 24] if level == "quick" else [18, 20, 21, 24, 25, 32, 33])
    for N in ns:
        if N < parts.MINN.get(name, 1):
            continue
        if cfg.get("nf") == "yes":
            nfs = sorted({2, 3, N // 2, N - 1, N + 1, N + 2, 2 * N, 2 * N + 1}) \
                if level != "quick" else sorted({2 + N % 3, N // 2 + 1, N + 1 + N % 2, 2 * N})
        else:
            nfs = [N]
        for nf in nfs:
            if nf < max(1, parts.MINF.get(name, 1)) or (amb and nf < N):
                continue
            if cfg.get("ts") == "yes" and name != "WignerVilleDistribution":
                tss = [list(range(N)), [N // 2], list(range(0, N, 2)), list(range(N - 1, -1, -1))[:3][::-1],
                       list(range(N - 2, max(-1, N - 5), -1))]
            else:
                tss = [list(range(N))]
            if name in parts.MINF:
                tss = [t for t in tss if len(t) >= 2 and len({b - a for a, b in zip(t, t[1:])}) == 1
                       and (len(t) < 2 or t[1] > t[0])]
            elif name == "reassigned.spectrogram":
                tss = [t for t in tss if len({b - a for a, b in zip(t, t[1:])}) <= 1 and
                       (len(t) < 2 or t[1] > t[0])]
            tss = [t for t in tss if t]
            Ls = [1, 3, 5, 2 * N + 1] if cfg.get("fw") == "yes" else [3]
            Ms = [1, 3, 7] if cfg.get("tw") == "yes" else [1]
            combos = [(t, L, m) for t in tss for L in Ls for m in Ms]
            if level == "quick":
                combos = [c for i, c in enumerate(combos) if (i + N + nf) % max(1, len(combos) // 4) == 0]
            for t, L, m in combos:
                out.append({"N": N, "n_fbins": nf, "T": len(t), "timestamps": t, "L": L, "M": m,
                            "lag": [-1, 0, 1] if N >= 3 else [0, 0, 0], "K": 3})
    return out


class Out(object):
    """A result in one partition: undecided alternatives are kept as a case distinction."""

    def __init__(self, ctx, r, v, F):
        self.F = F
        self.cond = None
        while True:
            if isinstance(v, IN.MaybeUnb):
                v = v.value
                continue
            if isinstance(v, IN.Choice):
                t = F.truth(v.cond)
                if t is None:
                    self.cond = v.cond
                    self.a, self.b = Out(ctx, r, v.a, F), Out(ctx, r, v.b, F)
                    return
                v = v.a if t else v.b
                continue
            break
        self.n = ctx.I.num(v, r.st)

    def shp(self):
        if self.cond is None:
            return self.F.shp(self.n)
        a, b = self.a.shp(), self.b.shp()
        return a if a == b else None

    def el(self, idx):
        try:
            if self.cond is None:
                return self.F.el(self.n, idx)
            a, b = self.a.el(idx), self.b.el(idx)
            if same(a, b):
                return a
            return apply("ite", [self.F.ev(self.cond), a, b])
        except (TooBig, RecursionError, forms.Blowup):
            return U


def roots(ctx, r, o):
    out = []

    def walk(v):
        if isinstance(v, IN.MaybeUnb):
            walk(v.value)
        elif isinstance(v, IN.Choice):
            out.append(v.cond)
            walk(v.a)
            walk(v.b)
        else:
            try:
                out.append(ctx.I.num(v, r.st))
            except IN.Giveup:
                pass
    for v in o:
        walk(v)
    for e in r.events:
        out.extend(c for c in e.pc if isinstance(c, nodes.Node))
    return [x for x in out if isinstance(x, nodes.Node)]


def far(ctx, r, o):
    """Extra partitions beyond every constant that the analysed code compares sizes with."""
    out = []
    for K in parts.thresholds(roots(ctx, r, o)):
        ctx.count("partitions added for constant %d" % K)
        for N in sorted(set(range(K, 2 * K)) if K <= 24 else {K - 1, K, K + 1, K + 3, 2 * K}):
            for nf in ([N] if r.cfg.get("nf") != "yes" else [N, N + 1, 8] if N < 150 else [N]):
                if r.entry.name == "narrow_band" and nf < N:
                    continue
                ts = list(range(N))
                if r.cfg.get("ts") == "yes" and r.entry.name != "WignerVilleDistribution":
                    ts = list(range(0, N, 2))
                for q, L in enumerate((K + 3 - K % 2, 2 * K + 3)):
                    fw, tw = r.cfg.get("fw") == "yes", r.cfg.get("tw") == "yes"
                    if q and not (fw or tw):
                        continue
                    out.append({"N": N, "n_fbins": nf, "T": len(ts), "timestamps": ts,
                                "L": L if fw and not (tw and N % 2) else 3,
                                "M": L if tw and not (fw and N % 2 == 0) else 3,
                                "lag": [-1, 0, min(K, (N - 1) // 2)], "K": 3, "_at": K})
    return out


def cells_of(s, env):
    K = env.get("_at")
    if K is None:
        return parts.indices(s)
    pick = [sorted({i for i in (0, 1, m // 4, m // 2, m - 1, K - 1, K, K + 1, m - K) if 0 <= i < m})
            for m in s]
    import itertools
    return itertools.product(*pick)


def compare(ctx, r, rule, k, n, oracle, env, cells=None):
    """Compare every cell of output k.  Returns a status string."""
    unk = 0
    cnt = 0
    s = n.shp()
    if s is None:
        return "unknown", None
    for idx in cells_of(s, env):
        want = oracle(*idx)
        got = n.el(idx)
        cnt += 1
        e = same(got, want)
        if e is False:
            return "refuted", "cell %s of result %d is %s where the definition gives %s" % (
                list(idx), k, forms.show(got, 4), forms.show(want, 4))
        if e is None:
            unk += 1
    ctx.count("cells compared", cnt)
    if unk:
        ctx.count("cells undecided", unk)
    return ("unknown" if unk else "proved"), None


def sig_env(env):
    return {k: v for k, v in env.items() if not callable(v)}


def definitions(ctx, rule, spec, envs=penvs, symbolic=(), extra=True):
    """spec: name -> list of (output index, oracle builder)."""
    jobs = []
    for name, os_ in spec.items():
        for r in ctx.runs(names={name}):
            if r.error or r.ret is None:
                if r.ended:
                    ctx.add(rule, r.label, "unknown", r.ended[1], "every path raises")
                continue
            o = outs(r.ret)
            if o is None:
                ctx.add(rule, r.label, "unknown")
                continue
            jobs += [(r, o, os_, env) for env in envs(r.entry, r.cfg, ctx.tier)]
            if extra:
                jobs += [(r, o, os_, env) for env in far(ctx, r, o)]
    # the largest partitions first, so that the workers stay busy
    jobs.sort(key=lambda j: -(j[3].get("N", 0) * j[3].get("n_fbins", 1) * j[3].get("T", 1)))
    pmap(ctx, lambda j: one(ctx, rule, symbolic, *j), jobs)


def one(ctx, rule, symbolic, r, o, os_, env):
    ev = Evaluator(env)
    if rejected(r, ev):
        return
    forms.reset()
    F = Forms(sig_env(env), symbolic)
    d = D(r, env)
    for k, orc in os_:
        if k >= len(o):
            ctx.add(rule, r.label, "refuted", where(r.entry), "result %d is missing" % k)
            return
        try:
            n = Out(ctx, r, o[k], F)
            st, msg = compare(ctx, r, rule, k, n, orc(d), env)
        except Skip:
            continue
        except (IN.Giveup, forms.Blowup, RecursionError):
            st, msg = "unknown", None
        ctx.add(rule, r.label, st, where(r.entry), msg or "", parts.show(env, r))
        if st == "refuted":
            return


LIN = {"ShortTimeFourierTransform": [(0, o_stft)], "Spectrogram": [(0, o_spec)],
       "reassigned.spectrogram": [(0, o_rspec)]}
WV = {"WignerVilleDistribution": [(0, o_wv)], "PseudoWignerVilleDistribution": [(0, o_pwv)],
      "cohen.smoothed_pseudo_wigner_ville": [(0, o_spwv)],
      "reassigned.pseudo_wigner_ville": [(0, o_rpwv)],
      "reassigned.smoothed_pseudo_wigner_ville": [(0, lambda d: o_spwv(d, False, 4))]}
MH = {"MargenauHillDistribution": [(0, o_mh)], "PageRepresentation": [(0, o_mh)],
      "PseudoMargenauHillDistribution": [(0, o_pmh)], "PseudoPageRepresentation": [(0, o_ppage)],
      "reassigned.pseudo_margenau_hill": [(0, lambda d: o_pmh(d, False, True))],
      "reassigned.pseudo_page": [(0, lambda d: o_ppage(d, False, True))]}
AMB = {"narrow_band": [(0, o_naf)]}


def c16(ctx):
    definitions(ctx, "windowed-fourier-sum", LIN)


def c26(ctx):
    definitions(ctx, "lag-product-sum", WV)


def c27(ctx):
    definitions(ctx, "lag-product-sum", MH)


def c28(ctx):
    definitions(ctx, "ambiguity-sum", AMB)

"""C38: noise generators as functions of their random draws."""
import math

from . import forms
from .forms import apply, U
from .p_defs import S, M
from .p_gens import laws, hilb, ad, sb, dv, sq, sqrt, ab, ENVS, rejected  # noqa: F401


class OneOf(object):
    """Equal to one of several forms (which draw feeds which part is free)."""

    def __init__(self, opts):
        self.opts = opts
        self.text = " or ".join(forms.show(v, 3) for v in opts[:2])

    def holds(self, v):
        if v is U:
            return None
        rs = [forms.same(v, w) for w in self.opts]
        if True in rs:
            return True
        return None if None in rs else False


def pow2(n):
    k = 0
    while 2 ** k < n:
        k += 1
    return 2 ** k


def white(kind):
    def law(g, o):
        n = g.env["n_points"]
        sfx = "~U" if kind == "uniform" else ""
        off = 0.5 if kind == "uniform" else 0.0
        if n <= 2:
            k = math.sqrt(6) if kind == "uniform" else math.sqrt(0.5)
            a, b = [[sb(forms.sample("draw%d%s" % (q, sfx), (i,), False), off) for i in range(n)] for q in (0, 1)]
            for i in range(n):
                yield 0, i, OneOf([M(k, ad(a[i], M(1j, b[i]))), M(k, ad(b[i], M(1j, a[i])))])
            return
        P = pow2(n)
        d = [sb(forms.sample("draw0" + sfx, (i,), False), off) for i in range(P)]
        m = M(1.0 / P, S(d))
        s = sqrt(M(1.0 / P, S(sq(sb(v, m)) for v in d)))
        z = hilb(d)
        for i in range(n):
            yield 0, i, dv(M(math.sqrt(0.5), z[P - n + i]), s)
    return law


def dopnoise(g, o):
    n = g.env["n_points"]
    fs, f0, d, v = [g.req(k) for k in ("s_freq", "f_target", "distance", "v_target")]
    tc, c = g.opt("time_center", float(n // 2)), g.opt("c", 340)
    x = [forms.sample("draw0", (i,), False) for i in range(2 * n)]
    t = [(i + 1 - tc - n) / fs for i in range(2 * n)]
    r = [math.sqrt(d * d + (v * q) ** 2) for q in t]
    law = [(1 - v * v * q / p / c) * f0 / fs for q, p in zip(t, r)]
    y = [0.0, 0.0]
    for i in range(2, 2 * n):
        # two-pole resonator of radius 0.9 tuned to the law
        y.append(S([x[i], M(-0.81, ad(x[i - 2], y[i - 2])), M(1.8 * math.cos(2 * math.pi * law[i]), y[i - 1])]))
    z = [M(1 / math.sqrt(p), w) for w, p in zip(hilb(y[n:]), r[n:])]
    E = sqrt(S(apply("real", [M(w, apply("conj", [w]))]) for w in z))
    for i in range(n):
        yield 0, i, dv(z[i], E)


def nenvs(cfg, level):
    if "yes" in (cfg.get("a1"), cfg.get("a2")):
        return []
    return [{"n_points": n, "a1": 0.5, "a2": 0.2} for n in
            ([1, 2, 3, 4, 5, 7, 8, 9] if level == "quick" else list(range(1, 14)) + [15, 16, 17])]


def denvs(cfg, level):
    return [{"n_points": n, "s_freq": 200.0, "f_target": f, "distance": 10.0, "v_target": v, "c": c,
             "time_center": tc}
            for n in ((2, 3, 4, 5) if level == "quick" else (2, 3, 4, 5, 6, 7))
            for f, v, c, tc in ((60.0, 50.0, 340.0, 1.0), (35.0, 20.0, 300.0, float(n)))]


ENVS38 = {"noisecu": nenvs, "noisecg": nenvs, "dopnoise": denvs}
NO = [()]


def c38(ctx):
    keep = dict(ENVS)
    ENVS.update(ENVS38)
    try:
        laws(ctx, "noise-structure", {"noisecu": (white("uniform"), NO), "noisecg": (white("normal"), NO),
                                      "dopnoise": (dopnoise, NO)})
    finally:
        ENVS.clear()
        ENVS.update(keep)

"""C24: the time instants and frequency axes handed out with the results."""
import math

from . import interp as IN, parts, forms
from .forms import Forms, same, apply
from .peval import Evaluator, TooBig
from .p_effects import where
from .core import pmap
from .p_shapes import outs, rejected
from .p_defs import Out, sig_env, penvs, S, M
from .p_gens import ENVS, NO, sb


def t_given(r, env):
    if r.cfg.get("ts") == "yes":
        return list(env["timestamps"])
    return list(range(env["N"]))


def nfb(r, env):
    return env["n_fbins"] if r.cfg.get("nf") == "yes" else env["N"]


def f_signed(r, env):
    n = nfb(r, env)
    h = (n + 1) // 2
    return [(k if k < h else k - n) / n for k in range(n)]


def f_half(r, env):
    n = nfb(r, env)
    return [0.5 * k / n for k in range(n)]


def band(r, env):
    """(fmin, fmax) as scalars, None when they depend on the data."""
    if r.cfg.get("band") != "yes":
        return None
    return env["fmin"], env["fmax"]


def geo(r, env):
    b = band(r, env)
    if b is None:
        return None
    if r.cfg.get("nv", r.cfg.get("n")) != "yes":
        # as many voices as the result has rows, between the same two frequencies
        return lambda n: [b[0] * (b[1] / b[0]) ** (k / (n - 1.0)) for k in range(n)]
    n = env["n_voices"]
    return [b[0] * (b[1] / b[0]) ** (k / (n - 1.0)) for k in range(n)]


def f_scalogram(r, env):
    b = band(r, env)
    if b is None:
        return None
    n = env["n_voices"] if r.cfg.get("nv") == "yes" else env["N"]
    return [b[0] * (b[1] / b[0]) ** (k / (n - 1.0)) for k in range(n)]


def lags(r, env):
    N = env["N"]
    if r.cfg.get("lag") == "yes":
        return list(env["lag"])
    return list(range(-(N // 2) + (1 - N % 2), N // 2 + N % 2))


def dopplers(r, env):
    n = nfb(r, env)
    return [(k - n // 2) / n for k in range(n)]


def wb_tau(r, env):
    N = env["N"]
    return [k - round(N / 2.0) for k in range(N)]


def wb_theta(r, env):
    b = band(r, env)
    if b is None:
        return None
    L = math.log(b[1] / b[0])
    f = lambda n: [-L + 2 * L * k / (n - 1.0) for k in range(n)]      # noqa: E731
    return f(env["n_voices"]) if r.cfg.get("n") == "yes" else f


def t_inst(r, env):
    return list(env["t"]) if r.cfg.get("t") == "yes" else list(range(2, env["N"]))


COH = {1: t_given, 2: f_signed, "ts": t_given, "timestamps": t_given, "freqs": f_signed}
WIG = {1: t_given, 2: f_half, "ts": t_given, "timestamps": t_given, "freqs": f_half}
AFF = {1: t_given, 2: geo, "ts": t_given, "freqs": geo}
AXES = {
    "ShortTimeFourierTransform": COH, "Spectrogram": COH, "PageRepresentation": COH,
    "PseudoPageRepresentation": COH, "MargenauHillDistribution": COH,
    "PseudoMargenauHillDistribution": COH,
    "WignerVilleDistribution": WIG, "PseudoWignerVilleDistribution": WIG,
    "BertrandDistribution": AFF, "DFlandrinDistribution": AFF, "UnterbergerDistribution": AFF,
    "Scalogram": {1: t_given, 2: f_scalogram, "freqs": f_scalogram},
    "narrow_band": {1: lags, 2: dopplers},
    "wide_band": {1: wb_tau, 2: wb_theta},
    "inst_freq": {1: t_inst},
}


def aenvs(entry, cfg, level):
    if entry.family == "tfr" or entry.name == "narrow_band":
        seen, out = set(), []
        ns = sorted(set(list(range(1, 14)) + [16, 17, 31, 32, 33, 64, 65, 100, 127, 128, 129, 256, 257]))
        for N in ns:
            for nf in ([N] if cfg.get("nf") != "yes" else [1, 2, 3, N // 2, N, N + 1, 2 * N, 2 * N + 1]):
                nf = max(1, nf)
                if entry.name == "narrow_band" and nf < N:
                    continue
                tss = [list(range(N))]
                if cfg.get("ts") == "yes":
                    tss += [list(range(N))[::-1], list(range(0, N, 2)), [N // 2]]
                    if entry.name == "WignerVilleDistribution":
                        tss = tss[:2]
                for ts in tss:
                    e = {"N": N, "n_fbins": nf, "T": len(ts), "timestamps": ts, "L": 3, "M": 1, "K": 3,
                         "lag": [-1, 0, 1] if N >= 3 else [0, 0, 0]}
                    k = (N, nf, tuple(ts))
                    if k not in seen:
                        seen.add(k)
                        out.append(e)
        return out
    if entry.name == "inst_freq":
        return ENVS["inst_freq"](cfg, level)
    out = []
    for N in (8, 9, 12, 16, 21, 32, 33):
        if N < parts.MINN.get(entry.name, 1):
            continue
        for V in (4, 7, 16):
            for lo, hi in ((0.05, 0.4), (0.1, 0.25), (0.02, 0.5)):
                ts = [1, 3, 5] if cfg.get("ts") == "yes" else list(range(N))
                out.append({"N": N, "n_voices": V, "fmin": lo, "fmax": hi, "waveparams": 3.0, "K": 3,
                            "timestamps": ts, "T": len(ts)})
    return out


def one(ctx, r, vals, env):
    if rejected(r, Evaluator(env)):
        return
    forms.reset()
    F = Forms(sig_env(env), ())
    for what, v, want in vals:
        w = want(r, env)
        if w is None:
            continue
        name = "result %d" % what if isinstance(what, int) else "attribute %s" % what
        rule = "time-axis" if want in (t_given, lags, wb_tau, t_inst) else "frequency-axis"
        st, msg = "proved", ""
        try:
            o = Out(ctx, r, v, F)
            s = o.shp()
            if callable(w):
                w = w(s[0]) if s else []
            if s is None:
                st = "unknown"
            elif len(s) != 1 or s[0] != len(w):
                # a length mismatch is C09's business unless the axis itself is wrong
                st, msg = "refuted", "%s has shape %s where %d values are due" % (name, list(s), len(w))
            else:
                pick = range(len(w)) if len(w) <= 40 else sorted(
                    {0, 1, 2, len(w) // 2 - 1, len(w) // 2, len(w) // 2 + 1, len(w) - 2, len(w) - 1})
                for i in pick:
                    got = o.el((i,))
                    e = same(got, w[i])
                    ctx.count("axis values compared")
                    if e is False:
                        st = "refuted"
                        msg = "value %d of %s is %s where %s is due" % (
                            i, name, forms.show(got, 3), forms.show(w[i], 3))
                        break
                    if e is None:
                        st = "unknown"
        except (IN.Giveup, forms.Blowup, RecursionError, TooBig):
            st = "unknown"
        except (ZeroDivisionError, OverflowError, ValueError):
            continue
        ctx.add(rule, "%s#%s" % (r.label, what), st, where(r.entry), msg, parts.show(env, r))


def c24(ctx):
    jobs = []
    for name, spec in AXES.items():
        for r in ctx.runs(names={name}):
            if r.error or r.ret is None:
                continue
            o = outs(r.ret)
            vals = []
            for k, want in spec.items():
                if isinstance(k, int):
                    if o is None or k >= len(o):
                        ctx.add("axes", r.label, "refuted" if o is not None else "unknown", where(r.entry),
                                "result %d is missing" % k)
                        continue
                    vals.append((k, o[k], want))
                elif r.entry.cls and "run" in r.phases:
                    snap = r.phases["run"][1]
                    if k not in snap:
                        ctx.add("axes", r.label, "refuted", where(r.entry), "attribute %s is missing" % k)
                        continue
                    vals.append((k, snap[k], want))
            jobs += [(r, vals, env) for env in aenvs(r.entry, r.cfg, ctx.tier)]
    pmap(ctx, lambda j: one(ctx, *j), jobs)

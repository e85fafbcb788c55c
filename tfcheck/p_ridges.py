"""C41: ridges and time-indexed histograms of a reassigned representation.

The samples only enter through comparisons, so the value graph is evaluated on
partitions of the comparison outcomes: cells below, at and above the threshold,
displacement fields that do or do not designate their own cell."""
import itertools
import random

from . import interp as IN, parts, forms
from .forms import Forms, U
from .p_defs import Out
from .p_shapes import outs
from .p_effects import where
from .core import pmap


def grids(level):
    rnd = random.Random(7)
    out = []
    for R, C in ((2, 2), (3, 2), (2, 3), (1, 3), (3, 1), (4, 3), (5, 2)):
        cells = R * C
        k = 24 if level == "quick" else 120
        vals = [[1.0] * (cells - 1) + [float(cells + 1)], [0.0] * cells, [-1.0] + [2.0] * (cells - 1)]
        for _ in range(k):
            vals.append([rnd.choice([0.0, 1.0, 1.0, 3.0, 5.0, -2.0]) for _ in range(cells)])
        for v in vals:
            rnd.shuffle(v)
            tfr = [v[r * C:(r + 1) * C] for r in range(R)]
            f = [[rnd.choice([r, r, r, (r + 1) % R, rnd.randrange(R)]) for c in range(C)] for r in range(R)]
            t = [[rnd.choice([c, c, c, (c + 1) % C, rnd.randrange(C)]) for c in range(C)] for r in range(R)]
            out.append((R, C, tfr, f, t))
    return out


def ridge_oracle(cfg, R, C, tfr, f, t, ts):
    m = cfg.get("method", "no")
    m = "rsp" if m == "no" else m
    thr = sum(sum(r) for r in tfr) * 0.5 / (R * C)
    tp, fp = [], []
    for c in range(C):
        for r in range(R):
            if tfr[r][c] > thr and f[r][c] == r and (m in ("rpwv", "rpmh") or t[r][c] == c):
                tp.append(ts[c])
                fp.append(r / (float(R) if m in ("rsp", "type1") else 2.0 * R))
    return tp, fp


def friedman_oracle(cfg, R, C, tfr, f, t, ts):
    thr = sum(sum(r) for r in tfr) * 0.5 / (R * C)
    out = [[0] * C for _ in range(R)]
    for c in range(C):
        for r in range(R):
            if tfr[r][c] > thr:
                out[f[r][c]][c] += 1
    n = sum(sum(r) for r in out)
    if not n:
        return None
    return [[x / float(n) for x in r] for r in out]


def one(ctx, r, g):
    R, C, tfr, f, t = g
    real = r.cfg.get("method") in ("rpwv", "rpmh")
    ts = [3 + 2 * c for c in range(C)] if r.cfg.get("ts") == "yes" else list(range(C))
    env = {"R": R, "C": C, "tfr": tfr, "timestamps": ts,
           "re_mat": [[float(f[i][j]) if real else complex(f[i][j], t[i][j]) for j in range(C)] for i in range(R)]}
    forms.reset()
    F = Forms(env)
    fried = r.entry.name == "friedman_density"
    want = (friedman_oracle if fried else ridge_oracle)(r.cfg, R, C, tfr, f, t, ts)
    if want is None:
        return
    rule = "reassigned-histogram" if fried else "ridge-points"
    o = outs(r.ret)
    wants = [want] if fried else list(want)
    if o is None or len(o) != len(wants):
        ctx.add(rule, r.label, "unknown", where(r.entry))
        return
    st = "proved"
    for k, (v, w) in enumerate(zip(o, wants)):
        try:
            x = Out(ctx, r, v, F)
            s = x.shp()
        except IN.Giveup:
            s = None
        sh = (R, C) if fried else (len(w),)
        if s is None:
            st = "unknown"
            continue
        if s != sh:
            ctx.add(rule, r.label, "refuted", where(r.entry), "result %d has shape %s where %s cells qualify" % (k, s, sh),
                    env)
            return
        for ix in itertools.product(*[range(n) for n in s]):
            e = w[ix[0]][ix[1]] if fried else w[ix[0]]
            q = forms.same(x.el(ix), e)
            ctx.count("samples compared")
            if q is False:
                ctx.add(rule, r.label, "refuted", where(r.entry), "entry %s of result %d is %s instead of %s" % (
                    list(ix), k, x.el(ix), e), env)
                return
            if q is None:
                st = "unknown"
    ctx.add(rule, r.label, st, where(r.entry))


def c41(ctx):
    gs = grids(ctx.tier)
    jobs = [(r, g) for r in ctx.runs(names={"ridges", "friedman_density"})
            if not r.error and r.ret is not None for g in gs]
    pmap(ctx, lambda j: one(ctx, *j), jobs)

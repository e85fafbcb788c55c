"""C18: inputs outside a documented domain are rejected, its boundary accepted."""
import itertools

from . import parts, forms
from .peval import Evaluator
from .p_effects import where
from .core import pmap

TE, VE = "TypeError", "ValueError"


def const_fn(v):
    return lambda *ix: v


def mat(v):
    return lambda *ix: v[0] if any(ix) else v[1]


def n_points(valid=(1, 2, 7, 64), bad=(0,)):
    return [({"n_points": n, "t0": 1.0, "time_center": 1.0}, True) for n in valid] + \
           [({"n_points": n}, False) for n in bad]


def band(key, lo, hi, inclusive=True, needs=None):
    """Values of one option around the two ends of its interval."""
    d = 1e-6 * max(1.0, abs(hi), abs(lo))
    out = [({key: v}, True) for v in (lo + d, hi - d, (lo + hi) / 2.0)]
    out += [({key: v}, inclusive) for v in (lo, hi)]
    out += [({key: v}, False) for v in (lo - d, hi + d, lo - 3.0, hi + 3.0)]
    return out


def doppler(c):
    out = [({"distance": v}, v > 0) for v in (1e-9, 10.0, 0.0, -1e-9, -5.0)]
    out += [({"s_freq": v, "f0": 0.0}, v >= 0) for v in (0.0, 200.0, -1e-9, -3.0)]
    out += [({"f0": v, "s_freq": 200.0}, 0 <= v <= 100) for v in (0.0, 100.0, 50.0, -1e-9, 100.0001, 150.0, 200.0)]
    out += [({"v_target": v}, v >= 0) for v in (0.0, 50.0, -1e-9, -50.0)]
    if c.get("t0") == "yes":
        out += [({"t0": v, "n_points": 16}, 1 <= v <= 16)
                for v in (1.0, 16.0, 8.0, 0.999, 0.0, 16.001, 17.0, -4.0)]
    return [(dict({"s_freq": 200.0, "f0": 65.0, "distance": 10.0, "v_target": 50.0, "n_points": 16,
                   "t0": 8.0, "v_wave": 340.0}, **o), a) for o, a in out]


def fmlin(c):
    out = n_points() + [({"n_points": -3}, False)]
    for k in ("fnormi", "fnormf"):
        if c.get(k) == "yes":
            out += band(k, -0.5, 0.5)
    return [(dict({"n_points": 8, "t0": 2.0, "fnormi": 0.1, "fnormf": 0.2}, **o), a) for o, a in out]


def fmodany(c):
    out = []
    for v, ok in ((0.5, True), (-0.5, True), (0.3, True), (0.500001, False), (-0.500001, False), (2.0, False)):
        out.append(({"N": 5, "t0": 2, "iflaw": const_fn(v)}, ok))
        out.append(({"N": 5, "t0": 2, "iflaw": mat((0.1, v))}, ok))
    if c.get("t0") == "yes":
        for n in (1, 4, 9):
            for t in (1, n, 0, n + 1, -2, 3 * n):
                out.append(({"N": n, "t0": t, "iflaw": const_fn(0.2)}, 1 <= t <= n))
    return out


def f0band(c):
    b = [(dict({"n_points": 12, "n_comp": 3}, **o), a) for o, a in band("f0", 0.0, 0.5)] \
        if c.get("f0") == "yes" else []
    return b


def odd(**names):
    def f(c):
        out = []
        for key, dim in names.items():
            if c.get(key) != "yes":
                continue
            for n in (1, 3, 5, 9, 2, 4, 10):
                e = {"N": 16, "n_fbins": 16, "T": 16, "timestamps": list(range(16)), "L": 3, "M": 3}
                e[dim] = n
                out.append((e, n % 2 == 1))
        return out
    return f


def regular(c):
    if c.get("ts") != "yes":
        return []
    e = {"N": 16, "n_fbins": 8, "L": 3, "M": 3, "tbp": 0.25}
    out = []
    for ts, ok in (([0, 1, 2, 3], True), ([2, 5, 8], True), ([0, 4, 8, 12], True), ([1, 2, 4], False),
                   ([0, 1, 2, 4], False), ([0, 2, 3, 4], False), ([0, 2, 3, 5], False), ([3, 2, 1], True)):
        out.append((dict(e, timestamps=ts, T=len(ts)), ok))
    return out


def both(*fs):
    return lambda c: [x for f in fs for x in f(c)]


def renyi(c):
    out = []
    for v, al in itertools.product((0.5, 0.0, -1e-9, -2.0), (3.0, 0.5, 2.0, 1.0) if c.get("alpha") == "yes" else (0,)):
        e = {"R": 3, "C": 4, "timestamps": [0, 1, 2, 3], "alpha": al}
        out.append((dict(e, tfr=const_fn(v)), (c.get("alpha") != "one" and al != 1) or v >= 0))
        out.append((dict(e, tfr=mat((1.0, v))), (c.get("alpha") != "one" and al != 1) or v >= 0))
        out.append((dict(e, tfr=mat((v, 1.0))), (c.get("alpha") != "one" and al != 1) or v >= 0))
    return out


def oned(c):
    sizes = {"m": [(2, 3), (5, 4), (2, 2)], "col": [(5, 1)], "row": [(5, 1)], "v": [(5, 1)]}[c["nd"]]
    return [({"N": n, "K": k, "T": 2, "t": [2, 3], "n_voices": 4, "fmin": 0.1, "fmax": 0.4}, c["nd"] != "m")
            for n, k in sizes]


def methods(c):
    return [({"R": 4, "C": 4, "timestamps": [0, 1, 2, 3]}, c["method"] != "bad")]


SIMPLE = {
    "amgauss": (lambda c: n_points(), TE), "amexpos": (lambda c: n_points(), TE),
    "amrect": (lambda c: n_points(), TE), "amtriang": (lambda c: n_points(), TE),
    "fmconst": (lambda c: [(dict({"fnorm": 0.2}, **o), a) for o, a in n_points() + [({"n_points": -3}, False)]] +
                ([(dict({"n_points": 8, "t0": 2.0}, **o), a) for o, a in band("fnorm", -0.5, 0.5)]
                 if c.get("fnorm") == "yes" else []), TE),
    "fmlin": (fmlin, TE), "fmodany": (fmodany, TE),
    "anaask": (f0band, TE), "anabpsk": (f0band, TE), "anaqpsk": (f0band, TE),
    "doppler": (doppler, TE),
    "gdpower": (lambda c: [({"n_points": 8, "degree": 2.0, "rate": v}, v != 0) for v in (1.0, -1.0, 0.0, 1e-6, 5.0)]
                if c.get("rate") == "yes" else [], TE),
    "gabor": (odd(win="L"), VE),
    "cohen.smoothed_pseudo_wigner_ville": (odd(fw="L", tw="M"), VE),
    "reassigned.pseudo_wigner_ville": (odd(fw="L"), VE),
    "reassigned.pseudo_margenau_hill": (odd(fw="L"), VE),
    "reassigned.pseudo_page": (odd(fw="L"), VE),
    "reassigned.smoothed_pseudo_wigner_ville": (both(odd(fw="L", tw="M"), regular), VE),
    "reassigned.spectrogram": (both(odd(fw="L"), regular), VE),
    "reassigned.morlet_scalogram": (regular, VE),
    "renyi_information": (renyi, VE),
    "ridges!": (methods, VE), "loctime!": (oned, TE), "locfreq!": (oned, TE), "inst_freq!": (oned, TE),
    "group_delay!": (oned, TE), "wide_band!": (oned, VE),
}


def uncaught(r):
    return [e for e in r.events if e.type == "raise"]


def one(ctx, r, env, ok, exc):
    loc = where(r.entry)
    if r.error:
        ctx.add("domain", r.label, "unknown", loc, r.error, parts.show(env, r))
        return
    ev = Evaluator(env)
    forms.reset()
    fired, maybe = None, False
    evs = uncaught(r)
    for e in evs:
        st = True
        for c, p in parts.literals(e.pc):
            try:
                t = ev.truth(c)
            except Exception:
                t = None
            ctx.count("guard conditions evaluated")
            if t is None:
                st = None if st else st
            elif t != p:
                st = False
                break
        if st is True:
            fired = e
            break
        if st is None:
            maybe = True
    if r.ended and fired is None and not maybe and not evs:
        ctx.add("domain", r.label, "unknown", loc, "no path returns", parts.show(env, r))
        return
    if ok:
        if fired is not None:
            ctx.add("valid-accepted", r.label, "refuted", fired.loc,
                    "%s is raised for arguments inside the documented domain" % fired.exc, parts.show(env, r))
        else:
            ctx.add("valid-accepted", r.label, "unknown" if maybe else "proved", loc, "", parts.show(env, r))
        return
    if fired is None:
        ctx.add("invalid-rejected", r.label, "unknown" if maybe else "refuted", loc,
                "no guard rejects arguments outside the documented domain", parts.show(env, r))
    elif fired.exc != exc:
        ctx.add("invalid-rejected", r.label, "refuted", fired.loc,
                "%s is raised where %s is the documented rejection" % (fired.exc, exc), parts.show(env, r))
    else:
        ctx.add("invalid-rejected", r.label, "proved", fired.loc, "", parts.show(env, r))


def c18(ctx):
    jobs = []
    for name, (fn, exc) in SIMPLE.items():
        for r in ctx.runs(names={name}, reject=True):
            for env, ok in fn(r.cfg):
                base = {"ti": 1.0, "spread": 4.0, "t0": 1.0, "K": 3}
                jobs.append((r, dict(base, **env), ok, exc))
    pmap(ctx, lambda j: one(ctx, *j), jobs)

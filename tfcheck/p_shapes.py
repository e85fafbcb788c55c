"""Shape properties: C09 (representations), C10 (generators)."""
from . import interp as IN, nodes, parts
from .nodes import Node, dims, rank, param, const, mk
from .interp import Ref, Choice, PyTuple, PyList, MaybeUnb
from .peval import Evaluator, exact
from .p_effects import where
from .forms import Forms


def outs(v):
    """Outputs as a list of python-level values (None when alternatives disagree)."""
    if isinstance(v, MaybeUnb):
        return outs(v.value)
    if isinstance(v, PyTuple):
        return list(v.items)
    if isinstance(v, Choice):
        a, b = outs(v.a), outs(v.b)
        if a is None or b is None or len(a) != len(b):
            return None
        return [x if x is y else Choice(v.cond, x, y) for x, y in zip(a, b)]
    return [v]


def select(v, ev):
    """Alternatives of v that are possible in a partition."""
    if isinstance(v, MaybeUnb):
        return select(v.value, ev)
    if isinstance(v, Choice):
        t = ev.truth(v.cond)
        if t is True:
            return select(v.a, ev)
        if t is False:
            return select(v.b, ev)
        return select(v.a, ev) + select(v.b, ev)
    return [v]


def raises_conds(r):
    """Path conditions under which the call raises explicitly."""
    return [e for e in r.events if e.type == "raise"]


def rejected(r, ev):
    """The partition is (possibly) rejected by an explicit raise."""
    for e in raises_conds(r):
        ok = True
        for c, p in parts.literals(e.pc):
            t = ev.truth(c)
            if (t is not None and t != p) or (t is None and parts.data_dep(c)):
                ok = False
                break
        if ok:
            return True
    return False


def sym(cfg, s):
    if isinstance(s, int):
        return const(s)
    if s == "F":
        return param("n_fbins", "i") if cfg.get("nf") == "yes" else param("N", "i")
    if s == "T":
        return param("T", "i") if cfg.get("ts") == "yes" or cfg.get("t") == "yes" else param("N", "i")
    if s == "V":
        return param("n_voices", "i") if cfg.get("nv") == "yes" or cfg.get("n") == "yes" else None
    if s == "KF":
        return param("K", "i") if cfg.get("fnorm") == "yes" else param("N", "i")
    if s == "HM":
        return param("m", "i") if cfg.get("m") == "yes" else param("R", "i")
    if s == "HN":
        return param("n", "i") if cfg.get("n") == "yes" else param("C", "i")
    if s == "IF":
        return param("n_fbins", "i") if cfg.get("nf") == "yes" else param("N", "i")
    if s == "G":
        return param("n_coeff", "i") if cfg.get("nc") == "yes" else None
    if s.startswith("?"):
        return None
    return param(s, "i")


def check_output(ctx, r, rule, k, v, spec, env_level, named):
    """Shape of output k against spec (tuple of symbols)."""
    alts = []

    def collect(x):
        if isinstance(x, MaybeUnb):
            collect(x.value)
        elif isinstance(x, Choice):
            collect(x.a)
            collect(x.b)
        else:
            alts.append(x)
    collect(v)
    want = [sym(r.cfg, s) for s in spec]
    ok = True
    for x in alts:
        try:
            n = ctx.I.num(x, r.st)
        except IN.Giveup:
            ok = False
            break
        d = dims(n)
        if d is None:
            ok = False
            break
        if len(d) != len(want):
            ctx.add(rule, r.label, "refuted", where(r.entry),
                    "output %d has %d dimensions instead of %d" % (k, len(d), len(want)))
            return
        for s, w, x2 in zip(spec, want, d):
            if w is None:
                w = named.setdefault(s, x2)
            if w is not x2:
                ok = False
    if ok:
        ctx.add(rule, "%s#%d" % (r.label, k), "proved")
        return
    seen = 0
    unk = False
    for env in parts.envs(r.entry, r.cfg, env_level):
        ev = Evaluator(env)
        if rejected(r, ev):
            continue
        if r.entry.name == "gabor":
            ev = Forms({a: b for a, b in env.items() if not callable(b)})
        for x in select(v, ev):
            try:
                n = ctx.I.num(x, r.st)
            except IN.Giveup:
                unk = True
                continue
            got = ev.shp(n) if rank(n) != 0 else ()
            if got is None:
                unk = True
                continue
            if len(got) != len(spec):
                ctx.add(rule, r.label, "refuted", where(r.entry), "output %d has %d dimensions instead of %d"
                        % (k, len(got), len(spec)), parts.show(env, r))
                return
            for s, w, g in zip(spec, want, got):
                if w is None:
                    w = named.get(s)
                    if w is None:
                        continue
                e = ev.ev(w)
                if not exact(e):
                    unk = True
                    continue
                seen += 1
                if int(e) != g:
                    single = len(select(v, ev)) == 1
                    ctx.add(rule, r.label, "refuted" if single else "unknown", where(r.entry),
                            "output %d has shape %s where %s = %d is promised" % (k, got, s, int(e)),
                            parts.show(env, r))
                    return
    ctx.add(rule, "%s#%d" % (r.label, k), "proved" if seen and not unk else "unknown")


TFR3 = [("F", "T"), ("T",), ("F",)]
AFF3 = [("V", "T"), ("T",), ("V",)]
SPEC = {
    "ShortTimeFourierTransform": TFR3, "Spectrogram": TFR3, "PageRepresentation": TFR3,
    "PseudoPageRepresentation": TFR3, "MargenauHillDistribution": TFR3,
    "PseudoMargenauHillDistribution": TFR3, "WignerVilleDistribution": TFR3,
    "PseudoWignerVilleDistribution": TFR3,
    "BertrandDistribution": AFF3, "DFlandrinDistribution": AFF3, "UnterbergerDistribution": AFF3,
    "Scalogram": AFF3 + [("V", "T")],
    "cohen.smoothed_pseudo_wigner_ville": [("F", "T")],
    "gabor": [("?m", "G"), ("?m", "G"), ("N",)],
    "wide_band": [("V", "N"), ("N",), ("V",)],
    "narrow_band": [("F", "?k"), ("?k",), ("F",)],
    "reassigned.pseudo_wigner_ville": [("F", "T")] * 3,
    "reassigned.pseudo_margenau_hill": [("F", "T")] * 3,
    "reassigned.pseudo_page": [("F", "T")] * 3,
    "reassigned.smoothed_pseudo_wigner_ville": [("F", "T")] * 3,
    "reassigned.spectrogram": [("F", "T")] * 3,
    "reassigned.morlet_scalogram": [("F", "T")] * 3,
    "locfreq": [(), ()], "loctime": [(), ()],
    "inst_freq": [("?n",), ("?n",)],
    "group_delay": [("KF",)], "get_spectrum": [("N",)], "derive_window": [("L",)],
    "integrate_2d": [()],
    "hough_transform": [("HM", "HN"), ("HM",), ("HN",)],
    "renyi_information": [()],
    "ideal_tfr": [("IF", "N"), ("N",), ("IF",)],
    "friedman_density": [("R", "C")],
    "ridges": [("?p",), ("?p",)],
}
NPT = ("n_points",)
GSPEC = {n: [NPT] for n in ("amgauss", "amrect", "amtriang", "amexpos", "anapulse", "anastep", "anasing",
                            "altes", "atoms", "klauder", "noisecu", "noisecg")}
GSPEC.update({n: [NPT, NPT] for n in ("anaask", "anabpsk", "anafsk", "anaqpsk", "fmconst", "fmhyp", "fmlin",
                                      "fmpar", "fmpower", "fmsin", "dopnoise")})
GSPEC.update({"doppler": [NPT, NPT, NPT], "fmodany": [("N",)], "sigmerge": [("N",)],
              "gdpower": [NPT, ("?g",), ("?g",)]})


def shapes(ctx, rule, spec):
    lvl = "quick" if ctx.tier == "quick" else "thorough"
    for name in spec:
        for r in ctx.runs(names={name}):
            if r.error or r.ret is None:
                if r.ended:
                    ctx.add(rule, r.label, "unknown", r.ended[1], "every path raises %s" % (r.ended[0],))
                continue
            o = outs(r.ret)
            if o is None or len(o) != len(spec[name]):
                ctx.add(rule, r.label, "refuted" if o is not None else "unknown", where(r.entry),
                        "%s results instead of %d" % (len(o or ()), len(spec[name])))
                continue
            named = {}
            for k, (v, s) in enumerate(zip(o, spec[name])):
                check_output(ctx, r, rule, k, v, s, lvl, named)


def c09(ctx):
    shapes(ctx, "result-shape", SPEC)
    # attributes of the objects agree with what run() returned
    for r in ctx.runs(family={"tfr", "affine"}):
        if not r.entry.cls or r.error or "run" not in r.phases:
            continue
        v, snap, st = r.phases["run"]
        o = outs(v)
        if not o:
            continue
        for a, k in (("tfr", 0), ("ts", 1), ("freqs", 2)):
            if a not in snap or k >= len(o):
                continue
            try:
                x, y = ctx.I.num(snap[a], st), ctx.I.num(o[k], st)
            except IN.Giveup:
                continue
            dx, dy = dims(x), dims(y)
            if dx is None or dy is None:
                ctx.add("attribute-shape", r.label, "unknown")
            elif dx == dy:
                ctx.add("attribute-shape", r.label, "proved")
            else:
                bad = None
                for env in parts.envs(r.entry, r.cfg, "tiny"):
                    ev = Evaluator(env)
                    p, q = ev.shp(x), ev.shp(y)
                    if p is not None and q is not None and p != q:
                        bad = (p, q, parts.show(env, r))
                if bad:
                    ctx.add("attribute-shape", r.label, "refuted", where(r.entry),
                            "attribute %s has shape %s, run() returned %s" % (a, bad[0], bad[1]), bad[2])
                else:
                    ctx.add("attribute-shape", r.label, "unknown")


def c10(ctx):
    shapes(ctx, "generator-length", GSPEC)

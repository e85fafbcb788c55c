"""Entry contracts: the public API of tftb, what callers may pass, and which
optional arguments are present.  One (entry, configuration) pair is analysed
as one abstract call.
"""
from . import nodes
from .nodes import const, param, arr
from . import interp as IN


class Entry(object):
    def __init__(self, name, module, attr, build, configs, family, cls=False, **meta):
        self.name, self.module, self.attr = name, module, attr
        self.build, self.configs, self.family, self.cls = build, configs, family, cls
        self.meta = meta


class Run(object):
    """Result of abstractly calling one entry in one configuration."""

    def __init__(self, entry, cfg):
        self.entry, self.cfg = entry, cfg
        self.ret = None          # python-level abstract value
        self.st = None
        self.events = []
        self.inputs = {}         # argument name -> value
        self.input_regions = {}  # rid -> argument name
        self.error = None        # analysis gave up: reason
        self.ended = None        # every path raises: (exc, loc)
        self.phases = {}         # phase name -> (value, attrs snapshot, state)
        self.inst = None
        self.functions = set()

    @property
    def label(self):
        return "%s[%s]" % (self.entry.name, cfgname(self.cfg))


def cfgname(cfg):
    return ",".join("%s=%s" % (k, v) for k, v in sorted(cfg.items())) or "-"


class Args(object):
    """Helper handed to the entry builders."""

    def __init__(self, I, st, run):
        self.I, self.st, self.run = I, st, run
        self.kw = {}

    def array(self, name, kind, *dims):
        ds = [param(d, "i") if isinstance(d, str) else const(d) for d in dims]
        n = arr(name, kind, ds)
        rid = self.I.new_region(self.st, n, origin="input", name=name)
        self.run.input_regions[rid] = name
        return IN.Ref(rid)

    def scalar(self, name, kind):
        return param(name, kind)


def product(**opts):
    """All combinations of the option values."""
    out = [{}]
    for k, vs in opts.items():
        out = [dict(c, **{k: v}) for c in out for v in vs]
    return out


ENTRIES = {}


def entry(name, module, attr, configs, family, cls=False, **meta):
    def deco(f):
        ENTRIES[name] = Entry(name, module, attr, f, configs, family, cls, **meta)
        return f
    return deco


G = "tftb.generators."
P = "tftb.processing."
YN = ("no", "yes")


# ------------------------------------------------------------- generators
def simple(name, module, spec, configs=None, family="gen", **meta):
    """spec: list of (arg, kind, mode) where mode is 'req' or 'opt'."""
    opts = {a: YN for a, k, m in spec if m == "opt"}
    if configs is None:
        if len(opts) <= 3:
            configs = product(**opts)
        else:
            configs = [dict.fromkeys(opts, "no"), dict.fromkeys(opts, "yes")]
            for o in opts:
                configs.append({k: ("yes" if k == o else "no") for k in opts})

    def build(A, cfg):
        kw = {}
        for a, k, m in spec:
            if m == "opt" and cfg.get(a, "no") == "no":
                continue
            kw[a] = A.scalar(a, k)
        return kw
    ENTRIES[name] = Entry(name, module, name.split(".")[-1], build, configs, family, False,
                          **meta)


for _n in ("amgauss", "amrect", "amtriang"):
    simple(_n, G + "amplitude_modulated",
           [("n_points", "i", "req"), ("t0", "f", "opt"), ("spread", "f", "opt")])


@entry("amexpos", G + "amplitude_modulated", "amexpos",
       product(t0=YN, spread=YN, kind=("no", "bilateral", "unilateral")), "gen")
def _amexpos(A, cfg):
    kw = {"n_points": A.scalar("n_points", "i")}
    for a in ("t0", "spread"):
        if cfg[a] == "yes":
            kw[a] = A.scalar(a, "f")
    if cfg["kind"] != "no":
        kw["kind"] = const(cfg["kind"])
    return kw


for _n, _x in (("anaask", "f0"), ("anabpsk", "f0"), ("anaqpsk", "f0")):
    simple(_n, G + "analytic_signals",
           [("n_points", "i", "req"), ("n_comp", "i", "opt"), ("f0", "f", "opt")])
simple("anafsk", G + "analytic_signals",
       [("n_points", "i", "req"), ("n_comp", "i", "opt"), ("Nbf", "i", "opt")])
simple("anapulse", G + "analytic_signals", [("n_points", "i", "req"), ("ti", "f", "opt")])
simple("anastep", G + "analytic_signals", [("n_points", "i", "req"), ("ti", "f", "opt")])
simple("anasing", G + "analytic_signals",
       [("n_points", "i", "req"), ("t0", "f", "opt"), ("h", "f", "opt")])
simple("fmconst", G + "frequency_modulated",
       [("n_points", "i", "req"), ("fnorm", "f", "opt"), ("t0", "f", "opt")])
simple("fmlin", G + "frequency_modulated",
       [("n_points", "i", "req"), ("fnormi", "f", "opt"), ("fnormf", "f", "opt"),
        ("t0", "f", "opt")])
simple("fmsin", G + "frequency_modulated",
       [("n_points", "i", "req"), ("fnormin", "f", "opt"), ("fnormax", "f", "opt"),
        ("period", "f", "opt"), ("t0", "f", "opt"), ("fnorm0", "f", "opt"),
        ("pm1", "i", "opt")])


@entry("fmhyp", G + "frequency_modulated", "fmhyp", [{}], "gen")
def _fmhyp(A, cfg):
    return {"n_points": A.scalar("n_points", "i"),
            "p1": IN.PyTuple([A.scalar("p1t", "f"), A.scalar("p1f", "f")]),
            "p2": IN.PyTuple([A.scalar("p2t", "f"), A.scalar("p2f", "f")])}


@entry("fmodany", G + "frequency_modulated", "fmodany", product(t0=YN), "gen")
def _fmodany(A, cfg):
    kw = {"iflaw": A.array("iflaw", "f", "N")}
    if cfg["t0"] == "yes":
        kw["t0"] = A.scalar("t0", "i")
    return kw


@entry("fmpar", G + "frequency_modulated", "fmpar", [{"coefs": "3"}], "gen")
def _fmpar(A, cfg):
    c = IN.PyTuple([A.scalar("a0", "f"), A.scalar("a1", "f"), A.scalar("a2", "f")])
    return {"n_points": A.scalar("n_points", "i"), "coefficients": c}


@entry("fmpower", G + "frequency_modulated", "fmpower", product(coefs=("2", "4"), deg=("f", "i")), "gen")
def _fmpower(A, cfg):
    n = int(cfg["coefs"])
    return {"n_points": A.scalar("n_points", "i"), "k": A.scalar("k", cfg["deg"]),
            "coefficients": IN.PyTuple([A.scalar("c%d" % i, "f") for i in range(n)])}


simple("altes", G + "misc", [("n_points", "i", "req"), ("fmin", "f", "opt"),
                             ("fmax", "f", "opt"), ("alpha", "f", "opt")])
simple("doppler", G + "misc",
       [("n_points", "i", "req"), ("s_freq", "f", "req"), ("f0", "f", "req"),
        ("distance", "f", "req"), ("v_target", "f", "req"), ("t0", "f", "opt"),
        ("v_wave", "f", "opt")])
simple("klauder", G + "misc", [("n_points", "i", "req"), ("attenuation", "f", "opt"),
                               ("f0", "f", "opt")])
simple("mexhat", G + "misc", [("nu", "f", "opt")])
simple("gdpower", G + "misc", [("n_points", "i", "req"), ("degree", "f", "opt"),
                               ("rate", "f", "opt")])


@entry("atoms", G + "misc", "atoms", product(flat=("no", "yes")), "gen")
def _atoms(A, cfg):
    c = A.array("coordinates", "f", 4) if cfg["flat"] == "yes" else A.array("coordinates", "f", "A", 4)
    return {"n_points": A.scalar("n_points", "i"), "coordinates": c}


simple("noisecu", G + "noise", [("n_points", "i", "req")])
simple("noisecg", G + "noise", [("n_points", "i", "req"), ("a1", "f", "opt"),
                                ("a2", "f", "opt")])
simple("dopnoise", G + "noise",
       [("n_points", "i", "req"), ("s_freq", "f", "req"), ("f_target", "f", "req"),
        ("distance", "f", "req"), ("v_target", "f", "req"), ("time_center", "f", "opt"),
        ("c", "f", "opt")])

KINDS = ("c", "f", "i")


@entry("sigmerge", G + "utils", "sigmerge", product(sig=KINDS, ratio=YN), "gen")
def _sigmerge(A, cfg):
    kw = {"x1": A.array("x1", cfg["sig"], "N"), "x2": A.array("x2", cfg["sig"], "N")}
    if cfg["ratio"] == "yes":
        kw["ratio"] = A.scalar("ratio", "f")
    return kw


@entry("scale", G + "utils", "scale", product(sig=KINDS), "gen")
def _scale(A, cfg):
    return {"X": A.array("signal", cfg["sig"], "N"), "a": A.scalar("a", "f"),
            "fmin": A.scalar("fmin", "f"), "fmax": A.scalar("fmax", "f"),
            "N": A.scalar("n_voices", "i")}


# ------------------------------------------------------------- processing
def tfr_args(A, cfg, ts="timestamps", nf="n_fbins", fw="fwindow", tw="twindow"):
    kw = {"signal": A.array("signal", cfg["sig"], "N")}
    if cfg.get("ts", "no") == "yes":
        kw[ts] = A.array("timestamps", "i", "T")
    if cfg.get("nf", "no") == "yes":
        kw[nf] = A.scalar("n_fbins", "i")
    if cfg.get("fw", "no") == "yes":
        kw[fw] = A.array("fwindow", "f", "L")
    if cfg.get("tw", "no") == "yes":
        kw[tw] = A.array("twindow", "f", "M")
    return kw


TFRC = product(sig=("c",), ts=YN, nf=YN, fw=YN) + product(sig=("f", "i"), ts=("no",), nf=("no",),
                                                         fw=("no",))
for _n, _m in (("ShortTimeFourierTransform", "linear"), ("Spectrogram", "cohen"),
               ("PageRepresentation", "cohen"), ("PseudoPageRepresentation", "cohen"),
               ("MargenauHillDistribution", "cohen"),
               ("PseudoMargenauHillDistribution", "cohen"),
               ("WignerVilleDistribution", "cohen"),
               ("PseudoWignerVilleDistribution", "cohen")):
    ENTRIES[_n] = Entry(_n, P + _m, _n, tfr_args, TFRC, "tfr", True)


def affine_args(A, cfg):
    kw = {"signal": A.array("signal", cfg["sig"], "N")}
    if cfg.get("band", "no") == "yes":
        kw["fmin"] = A.scalar("fmin", "f")
        kw["fmax"] = A.scalar("fmax", "f")
    if cfg.get("nv", "no") == "yes":
        kw["n_voices"] = A.scalar("n_voices", "i")
    if "form" in cfg:
        kw["form"] = const(cfg["form"])
    if cfg.get("wave", "no") == "yes":
        kw["waveparams"] = A.scalar("waveparams", "f")
    if cfg.get("ts", "no") == "yes":
        kw["timestamps"] = A.array("timestamps", "i", "T")
    return kw


AFC = product(sig=("c", "f", "i"), band=YN, nv=YN) + [{"sig": "f", "band": "yes", "nv": "yes", "ts": "yes"},
                                                      {"sig": "f", "band": "no", "nv": "yes", "ts": "yes"}]
for _n in ("BertrandDistribution", "DFlandrinDistribution"):
    ENTRIES[_n] = Entry(_n, P + "affine", _n, affine_args, AFC, "affine", True)
ENTRIES["UnterbergerDistribution"] = Entry(
    "UnterbergerDistribution", P + "affine", "UnterbergerDistribution", affine_args,
    product(sig=("f",), form=("A", "P"), band=YN, nv=YN) +
    [{"sig": "f", "form": "A", "band": "yes", "nv": "yes", "ts": "yes"}], "affine", True)
ENTRIES["Scalogram"] = Entry(
    "Scalogram", P + "affine", "Scalogram", affine_args,
    product(sig=("c", "f", "i"), band=YN, nv=YN, wave=YN) +
    [{"sig": "f", "band": "yes", "nv": "yes", "wave": "yes", "ts": "yes"},
     {"sig": "f", "band": "yes", "nv": "no", "wave": "no", "ts": "yes"},
     {"sig": "f", "band": "no", "nv": "yes", "wave": "no", "ts": "yes"}], "affine", True)


@entry("affine.smoothed_pseudo_wigner", P + "affine", "smoothed_pseudo_wigner",
       product(sig=("f",), band=("yes",)), "affine")
def _aspw(A, cfg):
    return {"signal": A.array("signal", "f", "N"), "fmin": A.scalar("fmin", "f"),
            "fmax": A.scalar("fmax", "f")}


@entry("lambdak", P + "affine", "lambdak",
       product(k=("bertrand", "unterberger", "d_flandrin", "aspwv")), "affine")
def _lambdak(A, cfg):
    return {"u": A.scalar("u", "f"), "k": const(cfg["k"])}


@entry("umaxdfla_solve", P + "affine", "umaxdfla_solve", [{}], "affine")
def _umax(A, cfg):
    return {"ratio": A.scalar("ratio", "f")}


@entry("cohen.smoothed_pseudo_wigner_ville", P + "cohen", "smoothed_pseudo_wigner_ville",
       product(sig=("c",), ts=YN, nf=YN, fw=YN, tw=YN) + [{"sig": "f"}, {"sig": "i"}], "tfr")
def _cspwv(A, cfg):
    return tfr_args(A, cfg, nf="freq_bins")


@entry("gabor", P + "linear", "gabor",
       product(sig=("c",), nc=YN, q=YN, win=YN) + [{"sig": "f"}, {"sig": "i"}], "tfr")
def _gabor(A, cfg):
    kw = {"signal": A.array("signal", cfg["sig"], "N")}
    if cfg.get("nc") == "yes":
        kw["n_coeff"] = A.scalar("n_coeff", "i")
    if cfg.get("q") == "yes":
        kw["q_oversample"] = A.scalar("q_oversample", "i")
    if cfg.get("win") == "yes":
        kw["window"] = A.array("fwindow", "f", "L")
    return kw


@entry("wide_band", P + "ambiguity", "wide_band",
       product(sig=("c", "f", "i"), band=YN, n=YN), "amb")
def _wb(A, cfg):
    kw = {"signal": A.array("signal", cfg["sig"], "N")}
    if cfg["band"] == "yes":
        kw["fmin"] = A.scalar("fmin", "f")
        kw["fmax"] = A.scalar("fmax", "f")
    if cfg["n"] == "yes":
        kw["N"] = A.scalar("n_voices", "i")
    return kw


@entry("narrow_band", P + "ambiguity", "narrow_band",
       product(sig=("c", "f", "i"), lag=YN, nf=YN), "amb")
def _nb(A, cfg):
    kw = {"signal": A.array("signal", cfg["sig"], "N")}
    if cfg["lag"] == "yes":
        kw["lag"] = A.array("lag", "i", "K")
    if cfg["nf"] == "yes":
        kw["n_fbins"] = A.scalar("n_fbins", "i")
    return kw


RC = product(sig=("c",), ts=YN, nf=YN, fw=YN) + [{"sig": "f"}, {"sig": "i"}]
for _n in ("pseudo_wigner_ville", "pseudo_margenau_hill", "pseudo_page"):
    ENTRIES["reassigned." + _n] = Entry("reassigned." + _n, P + "reassigned", _n, tfr_args, RC,
                                        "reassigned")


@entry("reassigned.smoothed_pseudo_wigner_ville", P + "reassigned",
       "smoothed_pseudo_wigner_ville",
       product(sig=("c",), ts=YN, nf=YN, fw=YN, tw=YN) + [{"sig": "f"}, {"sig": "i"}], "reassigned")
def _rspwv(A, cfg):
    return tfr_args(A, cfg)


@entry("reassigned.spectrogram", P + "reassigned", "spectrogram", RC, "reassigned")
def _rsp(A, cfg):
    return tfr_args(A, cfg, ts="time_samples", fw="window")


@entry("reassigned.morlet_scalogram", P + "reassigned", "morlet_scalogram",
       product(sig=("c",), ts=YN, nf=YN, tbp=YN) + [{"sig": "f"}, {"sig": "i"}], "reassigned")
def _rms(A, cfg):
    kw = tfr_args(A, cfg)
    if cfg.get("tbp") == "yes":
        kw["tbp"] = A.scalar("tbp", "f")
    return kw


def vec(A, cfg, kind):
    """A signal passed as a vector, or as a single column or row."""
    if cfg.get("nd") == "col":
        return A.array("signal", kind, "N", 1)
    if cfg.get("nd") == "row":
        return A.array("signal", kind, 1, "N")
    return A.array("signal", kind, "N")


ND = [{"sig": "c", "nd": "col"}, {"sig": "c", "nd": "row"}]


@entry("locfreq", P + "freq_domain", "locfreq", product(sig=KINDS) + ND, "desc")
def _lf(A, cfg):
    return {"signal": vec(A, cfg, cfg["sig"])}


@entry("loctime", P + "time_domain", "loctime", product(sig=KINDS) + ND, "desc")
def _lt(A, cfg):
    return {"sig": vec(A, cfg, cfg["sig"])}


@entry("inst_freq", P + "freq_domain", "inst_freq",
       product(t=YN) + [{"t": "no", "nd": "col"}, {"t": "yes", "nd": "row"}], "desc")
def _if(A, cfg):
    kw = {"x": vec(A, cfg, "c")}
    if cfg["t"] == "yes":
        kw["t"] = A.array("t", "i", "T")
    return kw


@entry("group_delay", P + "freq_domain", "group_delay",
       product(sig=KINDS, fnorm=YN) + [{"sig": "c", "fnorm": "no", "nd": "col"},
                                       {"sig": "c", "fnorm": "yes", "nd": "row"}], "desc")
def _gd(A, cfg):
    kw = {"x": vec(A, cfg, cfg["sig"])}
    if cfg["fnorm"] == "yes":
        kw["fnorm"] = A.array("fnorm", "f", "K")
    return kw


@entry("get_spectrum", P + "utils", "get_spectrum", product(sig=KINDS), "desc")
def _gs(A, cfg):
    return {"signal": A.array("signal", cfg["sig"], "N")}


@entry("integrate_2d", P + "utils", "integrate_2d", product(x=YN, y=YN), "desc")
def _i2(A, cfg):
    kw = {"mat": A.array("tfr", "f", "R", "C")}
    if cfg["x"] == "yes":
        kw["x"] = A.array("xax", "f", "C")
    if cfg["y"] == "yes":
        kw["y"] = A.array("yax", "f", "R")
    return kw


@entry("derive_window", P + "utils", "derive_window", [{}], "desc")
def _dw(A, cfg):
    return {"window": A.array("fwindow", "f", "L")}


@entry("hough_transform", P + "postprocessing", "hough_transform", product(m=YN, n=YN), "post")
def _ht(A, cfg):
    kw = {"image": A.array("tfr", "f", "R", "C")}
    if cfg["m"] == "yes":
        kw["m"] = A.scalar("m", "i")
    if cfg["n"] == "yes":
        kw["n"] = A.scalar("n", "i")
    return kw


@entry("renyi_information", P + "postprocessing", "renyi_information",
       product(ts=YN, fr=YN, alpha=("no", "yes", "one")), "post")
def _ri(A, cfg):
    kw = {"tfr": A.array("tfr", "f", "R", "C")}
    if cfg["ts"] == "yes":
        kw["timestamps"] = A.array("timestamps", "i", "C")
    if cfg["fr"] == "yes":
        kw["freq"] = A.array("freq", "f", "R")
    if cfg["alpha"] == "yes":
        kw["alpha"] = A.scalar("alpha", "f")
    elif cfg["alpha"] == "one":
        kw["alpha"] = const(1)
    return kw


@entry("ideal_tfr", P + "postprocessing", "ideal_tfr", product(ts=YN, nf=YN), "post")
def _it(A, cfg):
    kw = {"iflaws": A.array("iflaws", "f", "I", "N")}
    if cfg["ts"] == "yes":
        kw["timestamps"] = A.array("timestamps", "i", "N")
    if cfg["nf"] == "yes":
        kw["n_fbins"] = A.scalar("n_fbins", "i")
    return kw


@entry("friedman_density", P + "postprocessing", "friedman_density", product(ts=YN), "post")
def _fd(A, cfg):
    kw = {"tfr": A.array("tfr", "f", "R", "C"), "re_mat": A.array("re_mat", "c", "R", "C")}
    if cfg["ts"] == "yes":
        kw["timestamps"] = A.array("timestamps", "i", "C")
    return kw


@entry("ridges", P + "postprocessing", "ridges",
       product(ts=YN, method=("no", "rpwv", "rpmh", "rspwv", "rsp", "type1")), "post")
def _rd(A, cfg):
    kw = {"tfr": A.array("tfr", "f", "R", "C"), "re_mat": A.array("re_mat", "c", "R", "C")}
    if cfg["ts"] == "yes":
        kw["timestamps"] = A.array("timestamps", "i", "C")
    if cfg["method"] != "no":
        kw["method"] = const(cfg["method"])
    return kw


@entry("plotifl", P + "plotifl", "plotifl", product(sig=YN), "plot")
def _pl(A, cfg):
    kw = {"time_instants": A.array("t", "i", "T"), "iflaws": A.array("iflaws", "f", "T")}
    if cfg["sig"] == "yes":
        kw["signal"] = A.array("signal", "c", "T")
    return kw


@entry("is_linear", "tftb.utils", "is_linear", product(dec=YN), "util")
def _il(A, cfg):
    kw = {"x": A.array("x", "f", "N")}
    if cfg["dec"] == "yes":
        kw["decimals"] = A.scalar("decimals", "i")
    return kw


@entry("izak", "tftb.utils", "izak", product(ndim=("1", "2")), "util")
def _iz(A, cfg):
    return {"x": A.array("x", "c", "R", "C")} if cfg["ndim"] == "2" else \
        {"x": A.array("x", "c", "N")}


@entry("nextpow2", "tftb.utils", "nextpow2", product(arg=("int", "array")), "util")
def _np2(A, cfg):
    return {"n": A.scalar("n", "i") if cfg["arg"] == "int" else A.array("n", "i", "N")}


@entry("divider", "tftb.utils", "divider", [{}], "util")
def _dv(A, cfg):
    return {"N": A.scalar("n", "i")}


ODDS = (4, 1, 7, 2, 0, 3)


@entry("nearest_odd", "tftb.utils", "nearest_odd", product(arg=("int", "float", "array", "list", "tuple", "range")),
       "util")
def _no(A, cfg):
    if cfg["arg"] == "list":
        return {"N": IN.PyList(A.I.new_region(A.st, ("pylist", tuple(const(k) for k in ODDS))))}
    if cfg["arg"] == "tuple":
        return {"N": IN.PyTuple([const(k) for k in ODDS])}
    if cfg["arg"] == "range":
        return {"N": IN.Rng(const(1), const(len(ODDS)), const(1))}
    if cfg["arg"] == "array":
        return {"N": A.array("x", "f", "N")}
    return {"N": A.scalar("n", "i" if cfg["arg"] == "int" else "f")}


@entry("modulo", "tftb.utils", "modulo", product(x=("f", "c")), "util")
def _mo(A, cfg):
    return {"x": A.array("x", cfg["x"], "N"), "N": A.scalar("n", "i")}


# ------------------------------------- calls that must be rejected, with their neighbours
def matrix(name, module, key, family="reject", **extra):
    def build(A, cfg):
        dimz = {"m": ("N", "K"), "col": ("N", 1), "row": (1, "N"), "v": ("N",)}[cfg["nd"]]
        kw = {key: A.array("signal", cfg.get("sig", "c"), *dimz)}
        for k, d in extra.items():
            kw[k] = A.array(k, "i", *(("T", "K") if cfg.get("t") == "m" else ("T",)))
        return kw
    e = Entry(name + "!", module, name, build,
              product(nd=("m", "col", "row", "v"), sig=("c", "f") if name != "inst_freq" else ("c",)), family)
    ENTRIES[name + "!"] = e


matrix("loctime", P + "time_domain", "sig")
matrix("locfreq", P + "freq_domain", "signal")
matrix("inst_freq", P + "freq_domain", "x")
matrix("group_delay", P + "freq_domain", "x")
matrix("wide_band", P + "ambiguity", "signal")


def _rdx(A, cfg):
    kw = {"tfr": A.array("tfr", "f", "R", "C"), "re_mat": A.array("re_mat", "c", "R", "C")}
    kw["method"] = const({"bad": "wavelet", "upper": "RSP"}.get(cfg["method"], cfg["method"]))
    return kw


ENTRIES["ridges!"] = Entry("ridges!", P + "postprocessing", "ridges", _rdx,
                           product(method=("bad", "upper", "rsp", "type1", "rpwv", "rpmh", "rspwv")), "reject")


PLOTKW = [{}, {"kind": "contour"}, {"kind": "contour", "show_tf": True}, {"show_tf": True},
          {"kind": "surf"}, {"kind": "wireframe"}, {"threshold": 0.1}, {"sqmod": False},
          {"sqmod": True}, {"scale": "log"}]


def call_entry(I, e, cfg, phases=("init", "run"), plotkw=None):
    """Abstractly call an entry; classes go through the given method history."""
    I.events = []
    I.steps = 0
    I.frames = []
    I.loopstack = []
    I.epoch = 0
    r = Run(e, cfg)
    f0 = set(I.functions)
    I.functions = set()
    try:
        env = I.module(e.module)
        I.events = []
        st = I.initial_state()
        r.st = st
        A = Args(I, st, r)
        kw = e.build(A, cfg)
        r.inputs = kw
        if e.attr not in env:
            r.error = "entry point %s.%s is not defined" % (e.module, e.attr)
            r.missing = True
            return r
        f = env[e.attr]
        loc = IN.Loc("<caller>", e.name, 0)
        if not e.cls:
            r.ret = I.call(f, [], kw, st, loc)
            r.phases["call"] = (r.ret, None, st)
            return r
        inst = I.instantiate(f, [], kw, st, loc)
        r.inst = inst
        r.phases["init"] = (None, snapshot(I, inst, st), st.copy())
        for k, ph in enumerate(phases[1:], 1):
            I.epoch = k
            m = I.getattr(inst, ph, st, loc)
            kwp = {}
            if ph == "plot":
                if (plotkw or {}).get("~fresh"):
                    fresh_tfr(I, inst, st, A)
                kwp = {a: plot_value(b) for a, b in (plotkw or {}).items() if a[0] != "~"}
            if ph == "plot" and (plotkw or {}).get("~fails"):
                I.mpl_fails = True
                try:
                    I.call(m, [], kwp, st, loc)
                    raise IN.Giveup("plot() draws nothing")
                except IN.PathEnd as x:
                    if x.exc != "DrawingError":
                        raise
                    v = None
                finally:
                    I.mpl_fails = False
            else:
                v = I.call(m, [], kwp, st, loc)
            name = ph if ph not in r.phases else ph + str(k)
            r.phases[name] = (v, snapshot(I, inst, st), st.copy())
            if ph == "run" and r.ret is None:
                r.ret = v
    except IN.PathEnd as x:
        r.ended = (x.exc, x.loc)
    except IN.Giveup as x:
        r.error = "gave up: %s" % x
    except RecursionError:
        r.error = "recursion limit in the analysis"
    finally:
        r.events = I.events
        r.functions = I.functions
        I.functions = f0 | r.functions
        I.events = []
    return r


def plot_value(b):
    if b == "~axes":
        return IN.Opq(nodes.mk("ext", "mpl", ("caller",), None, 0), "mpl")
    if isinstance(b, tuple):
        return IN.PyTuple([const(x) for x in b])
    return const(b)


def fresh_tfr(I, inst, st, A):
    """Stand for the computed representation by an arbitrary matrix of its size."""
    k = (inst.oid, "tfr")
    n = I.num(st.attrs[k], st)
    d = nodes.dims(n)
    if d is None or len(d) != 2:
        raise IN.Giveup("size of the representation unknown")
    A.run.tfr_dims = d
    st.attrs[k] = IN.Ref(I.new_region(st, arr("tfr", nodes.kind(n) or "f", list(d)), origin="input", name="tfr"))


def snapshot(I, inst, st):
    out = {}
    for (o, name), v in st.attrs.items():
        if isinstance(inst, IN.Inst) and o == inst.oid:
            out[name] = v
    return out

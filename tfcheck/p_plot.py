"""C42: the pictures show the representation.

plot() is analysed as one abstract call in which the computed representation is
an arbitrary matrix; every drawing call leaves its argument values in the event
list.  On partitions of the sizes, with concrete cells, those values are compared
with the picture the documentation describes: the displayed half, the modulus or
its square, the cells below the threshold blanked, the axes of the cells."""
import cmath
import math
import random

from . import entries, forms, parts, interp as IN
from .forms import Forms, U, same
from .nodes import Node
from .peval import TooBig
from .p_defs import Out
from .p_effects import where, same_value
from .p_shapes import outs
from .core import pmap

HALF = ("ShortTimeFourierTransform", "Spectrogram", "PageRepresentation", "PseudoPageRepresentation",
        "MargenauHillDistribution", "PseudoMargenauHillDistribution")
WV = ("WignerVilleDistribution", "PseudoWignerVilleDistribution")
SQ = {"ShortTimeFourierTransform": True, "PageRepresentation": True, "PseudoPageRepresentation": True,
      "MargenauHillDistribution": True, "PseudoMargenauHillDistribution": True,
      "WignerVilleDistribution": False, "PseudoWignerVilleDistribution": False}
KINDS = {"cmap": "imshow", "contour": "contour", "surf": "plot_surface", "wireframe": "plot_wireframe"}
OTHER = {"contourf", "pcolormesh", "pcolor", "pcolorfast", "matshow", "scatter", "tricontour", "hist2d", "figimage",
         "plot_trisurf", "specgram", "contour3D", "imsave"}
OWN = {"grid", "kind", "show", "threshold", "sqmod", "show_tf", "default_annotation", "scale", "contour_x",
       "contour_y", "freq_x", "freq_y", "ax"}
KW = [{}, {"kind": "cmap"}, {"kind": "contour"}, {"kind": "contour", "show_tf": False},
      {"kind": "contour", "show_tf": True}, {"kind": "cmap", "show_tf": True}, {"kind": "cmap", "show_tf": False},
      {"kind": "surf", "show_tf": False}, {"kind": "wireframe", "show_tf": False},
      {"threshold": 0.3}, {"threshold": 0.0}, {"sqmod": False}, {"sqmod": True}, {"show": False},
      {"default_annotation": False}, {"default_annotation": False, "show_tf": True},
      {"kind": "cmap", "show_tf": False, "ax": "~axes"}, {"kind": "contour", "show_tf": False, "ax": "~axes"},
      {"kind": "cmap", "show_tf": False, "grid": False}, {"kind": "contour", "show_tf": False, "levels": (0.25, 0.5)},
      {"kind": "cmap", "show_tf": False, "extent": (1.0, 7.0, 0.0, 2.0)},
      {"kind": "contour", "scale": "log", "threshold": 0.1}, {"kind": "contour", "scale": "log"},
      {"kind": "contour", "grid": False, "show_tf": False},
      {"kind": "surf", "show_tf": False, "default_annotation": False},
      {"kind": "surf", "show_tf": False, "show": False}]


def admissible(name, e, kw):
    if "sqmod" in kw:
        if name not in SQ:
            return False
        if name == "ShortTimeFourierTransform" and not kw["sqmod"]:
            return False                                  # a complex matrix has no picture
    if "extent" in kw and name.endswith("MargenauHillDistribution"):
        return False
    if "scale" in kw and name not in WV:
        return False
    return True


def tf_shown(name, kw):
    return kw.get("show_tf", name in AFFINE)


AFFINE = ("BertrandDistribution", "DFlandrinDistribution", "UnterbergerDistribution", "Scalogram")


def the_kind(name, kw):
    return kw.get("kind", "contour" if name in AFFINE or name == "PseudoWignerVilleDistribution" else "cmap")


def shown(name, M, kw):
    """The matrix of the picture."""
    if name in HALF:
        M = M[:len(M) // 2]
    if name in SQ:
        if kw.get("sqmod", SQ[name]):
            M = [[abs(v) ** 2 for v in r] for r in M]
        elif name in WV:
            M = [[abs(v) for v in r] for r in M]
    t = max(v for r in M for v in r) * kw.get("threshold", 0.0 if name == "Spectrogram" else 0.05)
    return [[0.0 if v <= t else v for v in r] for r in M]


def freqs(name, rows, nf, band=None):
    """Acceptable frequencies of the displayed rows."""
    lin = [0.5 * k / (rows - 1) if rows > 1 else 0.0 for k in range(rows)]
    if name in HALF:
        return [lin, [float(k) / nf for k in range(rows)]]
    if name in WV:
        return [lin, [0.5 * k / nf for k in range(rows)]]
    if band:
        return [[band[0] * (band[1] / band[0]) ** (k / (rows - 1.0)) for k in range(rows)]]
    return None


def pict_envs(name, cfg, level):
    rnd = random.Random(11)
    out = []
    ns = (5, 8, 9) if level == "quick" else (4, 5, 6, 7, 8, 9, 12, 13)
    if name in AFFINE:
        ns = tuple(n + 8 for n in ns)
    for N in ns:
        for nf in [N] if cfg.get("nf") != "yes" else [N + 3, N - 1]:
            for ts in [list(range(N))] if cfg.get("ts") != "yes" else [[2, 3, 4], list(range(0, N, 2))]:
                for V in [16] if name not in AFFINE else (N // 2, 16, 4) if cfg.get("nv") == "yes" else (N // 2,):
                    e = {"N": N, "n_fbins": nf, "T": len(ts), "timestamps": ts, "L": 3, "M": 3, "n_voices": V,
                         "fmin": 0.1, "fmax": 0.4, "waveparams": 3.0, "K": 3,
                         "signal": [complex(rnd.uniform(-1, 1), rnd.uniform(-1, 1) if cfg.get("sig") != "f" else 0)
                                    for _ in range(N)]}
                    if cfg.get("sig") == "f":
                        e["signal"] = [z.real for z in e["signal"]]
                    elif cfg.get("sig") == "i":
                        e["signal"] = [rnd.randrange(-5, 6) for _ in range(N)]
                    out.append(e)
    return out


def matrix(rows, cols, cplx, seed, pos):
    rnd = random.Random(seed)
    v = []
    for i in range(rows):
        for j in range(cols):
            m = 10 ** rnd.uniform(-3.5, 0)
            v.append(cmath.rect(m, rnd.uniform(0, 6.28)) if cplx else m if pos else m * rnd.choice((1, -1)))
    v[rnd.randrange(max(1, rows // 2) * cols)] = 1.5 + 0j if cplx else 1.5
    return [v[i * cols:(i + 1) * cols] for i in range(rows)]


class Pic(object):
    """Drawing calls of one partition."""

    def __init__(self, r, F, epoch):
        self.F, self.calls, self.maybe = F, [], []
        for e in r.events:
            if e.type != "extcall" or "res" not in e.d or e.epoch != epoch:
                continue
            s = True
            for c, p in parts.literals(e.pc):
                t = F.truth(c)
                if t is None:
                    s = None
                elif t != p:
                    s = False
                    break
            if s is False:
                continue
            if e.loops:
                s = None
            (self.calls if s else self.maybe).append(e)

    def get(self, *names):
        return [e for e in self.calls if last(e) in names]

    def unsure(self, *names):
        return any(last(e) in names for e in self.maybe)


def last(e):
    return e.name.rsplit(".", 1)[-1]


def read(F, n):
    """Nested lists of the values; None when the sizes are not determined."""
    s = F.shp(n)
    if s is None:
        return None

    def go(ix):
        if len(ix) == len(s):
            v = F.el(n, ix)
            return v
        return [go(ix + (k,)) for k in range(s[len(ix)])]
    return s, go(())


def agree(F, n, want):
    """True / False / None, message"""
    g = read(F, n)
    if g is None:
        return None, ""
    s, v = g
    ws = []
    w = want
    while isinstance(w, list):
        ws.append(len(w))
        w = w[0] if w else None
    if tuple(s) != tuple(ws):
        return False, "has shape %s where %s is due" % (list(s), ws)
    st = True

    def go(a, b, ix):
        nonlocal st
        if isinstance(b, list):
            for k, (x, y) in enumerate(zip(a, b)):
                m = go(x, y, ix + [k])
                if m:
                    return m
            return ""
        q = same(a, b)
        if q is False:
            return "has %s at %s where %s is due" % (forms.show(a, 3), ix, forms.show(b, 3))
        if q is None:
            st = None
        return ""
    m = go(v, want, [])
    return (False, m) if m else (st, "")


def axes_of(F, n, k, size):
    """Coordinates along axis k of a grid argument (1-D or 2-D)."""
    g = read(F, n)
    if g is None:
        return None
    s, v = g
    if len(s) == 1:
        return v
    if len(s) != 2 or (s[k] != size):
        return ("shape", s)
    first = [v[i][0] for i in range(s[0])] if k == 0 else v[0]
    for i in range(s[0]):
        for j in range(s[1]):
            q = same(v[i][j], first[i if k == 0 else j])
            if q is False:
                return ("varies", s)
            if q is None:
                return None
    return first


def arg(e, k, name):
    if name in e.kws:
        return e.kws[name]
    return e.vals[k] if len(e.vals) > k else None


class Obs(object):
    def __init__(self, ctx, r, kw, env):
        self.ctx, self.r, self.kw, self.env = ctx, r, kw, env
        self.band = (env["fmin"], env["fmax"]) if r.entry.name in AFFINE and r.cfg.get("band") == "yes" else None

    def put(self, rule, st, msg="", loc=None):
        s = "proved" if st is True else "refuted" if st is False else "unknown"
        self.ctx.add(rule, "%s{%s}" % (self.r.label, ",".join("%s=%s" % x for x in sorted(self.kw.items()))), s,
                     loc or where(self.r.entry), "plot(%s): %s" % (fmt(self.kw), msg) if msg else "",
                     parts.show({k: v for k, v in self.env.items() if k in ("N", "n_fbins", "timestamps", "n_voices")}))


def fmt(kw):
    return ", ".join("%s=%s" % (k, "axes" if v == "~axes" else repr(v)) for k, v in sorted(kw.items()))


def grid(o, F, e, kw, name, rows, ts, nf, what):
    """The coordinates of a drawing over a mesh."""
    X, Y = arg(e, 0, "X"), arg(e, 1, "Y")
    x, y = axes_of(F, X, 1, len(ts)), axes_of(F, Y, 0, rows)
    for a, nm, size, wants in ((x, "time", len(ts), [[float(t) for t in ts]]), (y, "frequency", rows, freqs(name, rows, nf, o.band))):
        if a is None:
            o.put("plot-axes", None, loc=e.loc)
        elif isinstance(a, tuple) or len(a) != size:
            o.put("plot-axes", False, "the %s coordinates of %s have shape %s over a picture of %d by %d cells" % (
                nm, what, list(a[1]) if isinstance(a, tuple) else [len(a)], rows, len(ts)), e.loc)
        elif wants is None:
            o.put("plot-axes", True)
        else:
            best = []
            for w in wants:
                qs = [same(p, q) for p, q in zip(a, w)]
                best.append(True if all(q is True for q in qs) else False if any(q is False for q in qs) else None)
            st = True if True in best else None if None in best else False
            o.put("plot-axes", st, "" if st is not False else "the %s coordinates of %s are %s where %s are due" % (
                nm, what, [forms.show(v, 2) for v in a], [round(v, 4) for v in wants[0]]), e.loc)


def one(ctx, r, kw, env):
    name = r.entry.name
    o = Obs(ctx, r, kw, env)
    forms.reset()
    env = dict(env)
    F = Forms(env)
    d = r.tfr_dims
    try:
        rows, cols = [int(F.ev(x)) for x in d]
    except (TypeError, ValueError, OverflowError):
        o.put("plot-picture", None)
        return
    M = matrix(rows, cols, name == "ShortTimeFourierTransform", rows * 31 + cols, name == "Spectrogram")
    env["tfr"] = M
    F = Forms(env)
    ts = env["timestamps"] if r.cfg.get("ts") == "yes" else list(range(env["N"]))
    nf = env["n_fbins"] if r.cfg.get("nf") == "yes" else env["N"]
    pic = Pic(r, F, r.plot_epoch)
    knd = the_kind(name, kw)
    stf = tf_shown(name, kw)
    want = shown(name, M, kw)
    kinds = set(KINDS.values())
    try:
        body(o, F, pic, name, kw, knd, stf, want, ts, nf, env, r, kinds)
    except (IN.Giveup, forms.Blowup, RecursionError, TooBig):
        o.put("plot-picture", None)


def body(o, F, pic, name, kw, knd, stf, want, ts, nf, env, r, kinds):
    ctx = o.ctx
    rows, cols = len(want), len(want[0])
    draws = pic.get(*kinds)
    if pic.unsure(*(kinds | OTHER)) or pic.get(*OTHER):
        o.put("plot-picture", None)
        return
    # -- which drawing calls
    mine = [e for e in draws if last(e) == KINDS[knd]]
    if len(draws) != 1 or len(mine) != 1:
        st = False if not mine or len(mine) != len(draws) else None
        o.put("plot-picture", st, "draws %s where one %s is due" % (
            [last(e) for e in draws] or "nothing", KINDS[knd]))
        return
    e = mine[0]
    # -- the cells
    if knd == "cmap":
        Z = arg(e, 0, "X")
    elif knd == "contour" and len(e.vals) <= 2:
        Z = arg(e, 0, "Z")
    else:
        Z = arg(e, 2, "Z")
    W = want if knd in ("cmap", "contour") else [[abs(v) for v in q] for q in want]
    if Z is None:
        o.put("plot-picture", None)
    else:
        st, m = agree(F, Z, W)
        ctx.count("cells compared", rows * cols)
        o.put("plot-picture", st, m and "the matrix drawn by %s %s" % (last(e), m), e.loc)
    bad = sorted(set(e.kws) & OWN)
    o.put("plot-options", not bad, bad and "%s is handed to %s, which has no such option" % (bad[0], last(e)) or "", e.loc)
    # -- its coordinates
    if knd == "cmap":
        x = e.kws.get("extent")
        g = read(F, x) if isinstance(x, Node) else None
        if g is None or len(g[0]) != 1 or g[0][0] != 4:
            o.put("plot-axes", None if isinstance(x, Node) else False, "imshow gets no extent", e.loc)
        else:
            ex = g[1]
            if "extent" in kw:
                los, his, t0, t1 = [kw["extent"][2]], [kw["extent"][3]], kw["extent"][0], kw["extent"][1]
            else:
                fs = freqs(name, rows, nf, o.band)
                los = fs and [f[0] for f in fs]
                his = fs and [f[-1] for f in fs]
                t0, t1 = min(ts), max(ts)
            chk = [(0, [t0]), (1, [t1])] + ([(2, los), (3, his)] if los else [])
            st = True
            for k, ws in chk:
                qs = [same(ex[k], w) for w in ws]
                if True in qs:
                    continue
                if None in qs:
                    st = None
                    continue
                o.put("plot-axes", False, "extent[%d] of the image is %s where %s is due" % (
                    k, forms.show(ex[k], 3), ws[0]), e.loc)
                break
            else:
                o.put("plot-axes", st, loc=e.loc)
        q = e.kws.get("origin")
        if isinstance(q, Node) and q.op == "const":
            o.put("plot-axes", q.args[0] == "lower", "the image is drawn with origin=%r" % (q.args[0],), e.loc)
    elif knd == "contour" and len(e.vals) <= 2:
        o.put("plot-axes", None)
    else:
        grid(o, F, e, kw, name, rows, ts, nf, last(e))
    if "levels" in kw and knd == "contour":
        lv = e.kws.get("levels", e.vals[3] if len(e.vals) > 3 else None)
        st, m = (False, "is missing") if lv is None else agree(F, lv, list(kw["levels"]))
        o.put("plot-options", st, m and "levels handed to contour %s" % m, e.loc)
    elif knd == "contour":
        spaced(o, F, e, name, kw, stf, want)
    # -- where it is drawn
    if kw.get("ax") == "~axes":
        own = entries.plot_value("~axes").node
        o.put("plot-target", e.obj is own if isinstance(e.obj, Node) and e.obj.op == "ext" else None,
              "the picture is not drawn on the given axes", e.loc)
    # -- show
    sh = pic.get("show")
    if pic.unsure("show"):
        o.put("plot-show", None)
    else:
        w = kw.get("show", True)
        o.put("plot-show", bool(sh) == w, "plt.show is %scalled" % ("" if sh else "not "))
    # -- annotations
    ann = kw.get("default_annotation", True)
    for fn, txt in (("set_xlabel", "Time"), ("set_ylabel", "Normalized Frequency"), ("set_title", title(ctx, r))):
        if txt is None or pic.unsure(fn, "set"):
            o.put("plot-annotation", None)
            continue
        cs = [c for c in pic.get(fn) if c.vals and c.vals[0].op == "const" and c.vals[0].args[0] == txt]
        vague = any(not c.vals or c.vals[0].op != "const" for c in pic.get(fn)) or pic.get("set")
        if ann:
            ok = any(c.obj is e.obj for c in cs)
            o.put("plot-annotation", True if ok else None if vague else False, "%s(%r) is not called" % (fn, txt))
        else:
            o.put("plot-annotation", not cs, "%s(%r) is called" % (fn, txt))
    if stf:
        curves(o, F, pic, name, env)
    elif "grid" in kw:
        gs = [c for c in pic.get("grid") if c.obj is e.obj]
        v = [c.vals[0] if c.vals else c.kws.get("visible", c.kws.get("b")) for c in gs]
        o.put("plot-options", None if pic.unsure("grid") or any(x is not None and x.op != "const" for x in v) else
              not any(x is None or x.args[0] for x in v), "the grid is drawn", e.loc)
    if knd == "surf":
        zs = pic.get("set_zlabel", "set")
        o.put("plot-annotation", None if pic.unsure("set_zlabel") or pic.get("set") else bool(zs) == bool(ann),
              "set_zlabel is %scalled" % ("" if zs else "not "))


def spaced(o, F, e, name, kw, stf, want):
    """Default levels of a contour plot run up to the maximum, from the threshold."""
    log = kw.get("scale") == "log"
    lv = e.kws.get("levels", e.vals[3] if len(e.vals) > 3 else None)
    if not log and not (stf and name in AFFINE) or lv is None:
        if log:
            o.put("plot-options", False, "no levels are handed to contour", e.loc)
        return
    g = read(F, lv)
    if g is None or len(g[0]) != 1 or g[0][0] < 3:
        o.put("plot-options", None)
        return
    v = g[1]
    cells = [x for r in want for x in r]
    top = max(cells)
    th = {kw.get("threshold", 0.05)} | (set() if log else {0.05})
    if log:
        M = [x for r in F.env["tfr"] for x in r]
        top = max(M)
        firsts = [max(min(M), top * t) for t in th]
        q = [same(v[0] * v[2], v[1] * v[1])] if all(isinstance(x, float) for x in v[:3]) else [None]
    else:
        firsts = [max(min(cells), top * t) for t in th]
        q = [same(v[0] + v[2], 2 * v[1])] if all(isinstance(x, (int, float)) for x in v[:3]) else [None]
    fs = [same(v[0], f) for f in firsts]
    q.append(True if True in fs else None if None in fs else False)
    q.append(same(v[-1], top))
    o.put("plot-options", False if False in q else None if None in q else True,
          "the levels %s .. %s are not spaced %s from %s to %s" % (
              [forms.show(x, 3) for x in v[:3]], forms.show(v[-1], 3), "geometrically" if log else "evenly",
              firsts[0], top), e.loc)


def title(ctx, r):
    g, _ = r.inst.cls.lookup("name")
    if isinstance(g, Node) and g.op == "const" and isinstance(g.args[0], str):
        return g.args[0].upper()
    return None


def curves(o, F, pic, name, env):
    sig = env["signal"]
    N = len(sig)
    wave = [complex(v).real for v in sig]
    ps = pic.get("plot")
    if pic.unsure("plot"):
        o.put("plot-curves", None)
        return
    spec = None
    if name not in AFFINE or name == "Scalogram":
        spec = [abs(sum(v * cmath.exp(-2j * cmath.pi * k * i / N) for i, v in enumerate(sig))) ** 2 for k in range(N)]
        spec = [spec[(k - N // 2) % N] for k in range(N)][::-1][:N // 2]
    found = {"signal": None, "spectrum": None}
    unsure = False
    for e in ps:
        if not e.vals:
            continue
        y = e.vals[1] if len(e.vals) > 1 and not isstr(e.vals[1]) else e.vals[0]
        q, _ = agree(F, y, wave)
        if q:
            found["signal"] = e
        unsure = unsure or q is None
        if len(e.vals) > 1 and not isstr(e.vals[1]):
            a, b = read(F, e.vals[0]), read(F, e.vals[1])
            if a and b and a[0] != b[0]:
                o.put("plot-curves", False, "a curve is drawn from %s abscissae and %s ordinates" % (
                    list(a[0]), list(b[0])), e.loc)
            elif a and b:
                o.put("plot-curves", True)
                if spec is None and not q:
                    t = pairs(a[1], b[1], sig)
                    ts = env.get("timestamps")
                    if t is False and ts and all(isinstance(v, int) for v in ts):
                        # the spectrum of what is shown is as good as that of the whole
                        t = pairs(a[1], b[1], sig[min(ts):max(ts) + 1])
                    if t:
                        found["spectrum"] = e
                    unsure = unsure or t is None
        if spec is None:
            pass
        else:
            for v in e.vals[:2]:
                if isstr(v):
                    continue
                q, _ = agree(F, v, spec)
                if q:
                    found["spectrum"] = e
                unsure = unsure or q is None
    if found["signal"] is not None:                # the limits leave the whole record in sight
        for e in pic.get("set_xlim"):
            if e.obj is not found["signal"].obj:
                continue
            v = [F.ev(x) for x in e.vals[:2]]
            if len(v) == 2 and all(isinstance(x, (int, float)) for x in v):
                o.put("plot-curves", v[0] <= 0 and v[1] >= N - 1,
                      "the limits %s cut a record of %d samples" % (v, N), e.loc)
    for k in ("signal", "spectrum"):
        o.put("plot-curves", True if found[k] else None if unsure else False,
              "the %s is not drawn beside the picture" % k)


def pairs(xs, ys, sig):
    """Every point (power, frequency) lies on the spectrum of the signal."""
    st = True
    for x, y in zip(xs, ys):
        if not isinstance(y, (int, float)):
            return None
        w = abs(sum(complex(v).real * cmath.exp(-2j * cmath.pi * y * i) for i, v in enumerate(sig))) ** 2
        z = abs(sum(v * cmath.exp(-2j * cmath.pi * y * i) for i, v in enumerate(sig))) ** 2
        q = same(x, z) or same(x, w)
        if q is False:
            return False
        st = st and q
    return st


def isstr(n):
    return n.op == "const" and isinstance(n.args[0], str)


# ----------------------------------------------------------------- plotifl
def ifl(ctx, r, case):
    laws, T = case
    ts = [3 + k for k in range(T)]
    env = {"T": T, "t": ts, "iflaws": laws, "signal": [complex(k, 1) for k in range(T)]}
    o = Obs(ctx, r, {}, env)
    o.kw = {}
    forms.reset()
    F = Forms(env)
    pic = Pic(r, F, 0)
    got = {"law": None, "signal": None}
    unsure = pic.unsure("plot", "show", "ylim", "set_ylim")
    wants = {"law": laws}
    if r.cfg.get("sig") == "yes":
        wants["signal"] = [z.real for z in env["signal"]]
    for e in pic.get("plot"):
        if len(e.vals) < 2:
            unsure = True
            continue
        x, _ = agree(F, e.vals[0], ts)
        for k, w in wants.items():
            y, _ = agree(F, e.vals[1], w)
            if x and y:
                got[k] = e
            unsure = unsure or x is None or y is None
    for k in wants:
        o.put("plot-curves", True if got[k] else None if unsure else False, "the %s is not drawn against the instants" % k)
    sh = pic.get("show")
    o.put("plot-show", True if sh else None if unsure else False, "plt.show is not called")
    lim = pic.get("ylim", "set_ylim")
    for e in lim:
        v = [F.ev(x) for x in e.vals[:2]]
        if len(v) == 2 and all(isinstance(x, (int, float)) for x in v):
            fin = [x for x in laws if x == x]
            o.put("plot-axes", v[0] <= min(fin) and max(fin) <= v[1],
                  "frequencies %s..%s are outside the drawn range %s" % (min(fin), max(fin), v), e.loc)
            o.put("plot-axes", (v[0] >= 0) == (min(fin) >= 0),
                  "the frequency range starts at %s for laws of at least %s" % (v[0], min(fin)), e.loc)
        else:
            o.put("plot-axes", None)


def c42(ctx):
    jobs = []
    for name, e in entries.ENTRIES.items():
        if not e.cls or name in ("AffineDistribution",):
            continue
        cfgs = e.configs
        if ctx.tier == "quick":                     # window and wavelet do not enter the drawing
            cfgs = [c for c in cfgs if c.get("fw") != "yes" and c.get("wave") != "yes" and c.get("form") != "P"]
        for cfg in cfgs:
            for kw in KW:
                if not admissible(name, e, kw):
                    continue
                r = ctx.run(name, cfg, ("init", "run", "plot"), dict(kw, **{"~fresh": True}))
                if r.error or not hasattr(r, "tfr_dims"):
                    ctx.add("plot-picture", r.label, "unknown", where(e))
                    continue
                r.plot_epoch = 2
                jobs += [(one, r, kw, env) for env in pict_envs(name, cfg, ctx.tier)]
        for cfg in e.configs:                           # the picture is that of what run() returned
            r = ctx.run(name, cfg)
            if r.error or r.ret is None or "run" not in r.phases:
                continue
            o = outs(r.ret)
            _, snap, st = r.phases["run"]
            if o and "tfr" in snap:
                q = same_value(ctx.I, o[0], st, snap["tfr"], st)
                ctx.add("plot-source", r.label, "proved" if q is True else "refuted" if q is False else "unknown",
                        where(e), "run() returns something else than the representation that plot() draws")
    for r in ctx.runs(names={"plotifl"}):
        if not r.error:
            jobs += [(ifl, r, c) for c in (([0.1, 0.2, 0.45, 0.0], 4), ([-0.3, 0.2, -0.45, 0.4, 0.1], 5),
                                           ([0.5, 0.3], 2))]
    pmap(ctx, lambda j: j[0](ctx, *j[1:]), jobs)

"""Generators: every sample of the returned arrays compared with the documented
law, for every admissible value of the scalar options (kept as indeterminates)."""
import cmath
import math

from . import interp as IN, parts, forms
from .forms import Forms, same, U, apply
from .peval import Evaluator, TooBig
from .p_effects import where
from .core import pmap
from .p_shapes import outs, rejected
from .p_defs import Out, S, M, far as _far, roots, sig_env

pi = math.pi


def ad(a, b):
    return apply("add", [a, b])


def sb(a, b):
    return apply("sub", [a, b])


def dv(a, b):
    return apply("div", [a, b])


def pw(a, b):
    return apply("pow", [a, b])


def sq(a):
    return apply("mul", [a, a])


def sqrt(a):
    return apply("sqrt", [a])


def ex(a):
    return apply("exp", [a])


def lg(a):
    return apply("log", [a])


def cis(a):
    """exp(2 pi i a)"""
    return ex(M(2j * pi, a))


def ab(a):
    return apply("abs", [a])


def hilb(x):
    n = len(x)
    m = [0.0] * n
    m[0] = 1.0
    for i in range(1, (n + 1) // 2):
        m[i] = 2.0
    if n % 2 == 0:
        m[n // 2] = 1.0
    X = [S(M(x[j], cmath.exp(-2j * pi * j * k / n)) for j in range(n)) for k in range(n)]
    return [M(1.0 / n, S(M(m[k], X[k], cmath.exp(2j * pi * j * k / n)) for k in range(n) if m[k]))
            for j in range(n)]


class G(object):
    """Option values of one generator call: indeterminates when symbolic."""

    def __init__(self, r, env, symbolic):
        self.r, self.env, self.symb = r, env, symbolic
        self.n = env.get("n_points", env.get("N"))

    def opt(self, name, default):
        if self.r.cfg.get(name) != "yes":
            return default
        return self.req(name)

    def req(self, name):
        return forms.scalar(name) if name in self.symb else self.env[name]


def rn(n, d=2.0):
    return int(round(n / d))


# ---------------------------------------------------------------- amplitude laws
def amgauss(g, o):
    t0, s = g.opt("t0", rn(g.n)), g.opt("spread", 2 * math.sqrt(g.n))
    for i in range(g.n):
        yield 0, i, ex(M(-pi, sq(dv(sb(i + 1, t0), s))))


def amexpos(g, o):
    t0, s = g.opt("t0", rn(g.n)), g.opt("spread", 2 * math.sqrt(g.n))
    for i in range(g.n):
        d = sb(i, t0)
        if g.r.cfg.get("kind") == "unilateral":
            yield 0, i, M(ex(M(-math.sqrt(pi), dv(apply("maximum", [d, 0]), s))),
                          apply("ge", [d, 0.0]))
        else:
            yield 0, i, ex(M(-math.sqrt(2 * pi), dv(ab(d), s)))


def amrect(g, o):
    t0, s = g.opt("t0", rn(g.n)), g.opt("spread", 2 * math.sqrt(g.n))
    for i in range(g.n):
        yield 0, i, apply("le", [ab(sb(i, t0)), M(0.5 * math.sqrt(3 / pi), s)])


def amtriang(g, o):
    t0, s = g.opt("t0", rn(g.n)), g.opt("spread", 2 * math.sqrt(g.n))
    L = M(math.sqrt(10 / pi) / 2, s)
    for i in range(g.n):
        d = ab(sb(i, t0))
        yield 0, i, dv(apply("maximum", [sb(L, d), 0.0]), L)


# ---------------------------------------------------------------- frequency laws
def fmconst(g, o):
    f, t0 = g.opt("fnorm", 0.25), g.opt("t0", rn(g.n))
    for i in range(g.n):
        yield 0, i, cis(M(f, sb(i, t0)))
        yield 1, i, f


def fmlin(g, o):
    fi, ff, t0 = g.opt("fnormi", 0.0), g.opt("fnormf", 0.5), g.opt("t0", rn(g.n))
    n = g.n
    sl = M(sb(ff, fi), 1.0 / max(n - 1, 1))
    r = max(int(t0) - 1, 0)
    for i in range(n):
        # running integral of the law between the reference sample and sample i
        yield 0, i, cis(ad(M(fi, i - r), M(0.5, sl, i * i - r * r)))
        yield 1, i, ad(fi, M(sl, i))


def fmsin(g, o):
    a, b = g.opt("fnormin", 0.05), g.opt("fnormax", 0.45)
    T, t0 = g.opt("period", g.n), g.opt("t0", g.n / 2.0)
    mid, dl = M(0.5, ad(a, b)), M(0.5, sb(b, a))
    f0 = g.opt("fnorm0", mid)
    ph = M(-1.0, g.opt("pm1", 1), apply("arccos", [dv(sb(f0, mid), dl)]))
    for i in range(g.n):
        t = sb(i, t0)
        w = ad(M(2 * pi, dv(t, T)), ph)
        yield 0, i, ex(M(1j, ad(M(2 * pi, mid, t), M(dl, T, sb(apply("sin", [w]), apply("sin", [ph]))))))
        yield 1, i, ad(mid, M(dl, apply("cos", [w])))


def fmhyp(g, o):
    t1, f1, t2, f2 = [g.req(k) for k in ("p1t", "p1f", "p2t", "p2f")]
    c = dv(sb(f2, f1), sb(dv(1.0, t2), dv(1.0, t1)))
    f0 = sb(f1, dv(c, t1))
    for i in range(g.n):
        yield 0, i, cis(ad(M(f0, i + 1), M(c, math.log(i + 1))))
        yield 1, i, ad(f0, M(c, 1.0 / (i + 1)))


def fmodany(g, o):
    t0 = int(g.opt("t0", 1))
    law = [forms.sample("iflaw", (i,), False) for i in range(g.n)]
    for i in range(g.n):
        lo, hi = min(i, t0 - 1), max(i, t0 - 1)
        yield 0, i, cis(M(1.0 if i >= t0 - 1 else -1.0, S(law[lo + 1:hi + 1])))


def fmpar(g, o):
    a0, a1, a2 = [g.req(k) for k in ("a0", "a1", "a2")]
    for i in range(g.n):
        yield 0, i, cis(ad(M(a0, i), ad(M(a1, i * i / 2.0), M(a2, i ** 3 / 3.0))))
        yield 1, i, ad(a0, ad(M(a1, i), M(a2, i * i)))


def fmpower(g, o):
    k = g.req("k")
    cs = [g.req("c%d" % i) for i in range(int(g.r.cfg["coefs"]))]
    if len(cs) == 2:
        f0, c = cs
    else:
        t1, f1, t2, f2 = cs
        c = dv(sb(f2, f1), sb(dv(1.0, pw(t2, k)), dv(1.0, pw(t1, k))))
        f0 = sb(f1, dv(c, pw(t1, k)))
    for i in range(g.n):
        t = i + 1.0
        ph = M(c, math.log(t)) if k == 1 else M(dv(c, sb(1.0, k)), pw(t, sb(1.0, k)))
        yield 0, i, cis(ad(M(f0, t), ph))
        yield 1, i, ad(f0, M(c, pw(t, M(-1.0, k))))


class Among(object):
    """The value belongs to a finite alphabet (or interval), whatever the draws."""

    def __init__(self, test, text):
        self.test, self.text = test, text

    def holds(self, v):
        if v is U or isinstance(v, (forms.Iv, forms.peval.Cx)):
            return None
        p = forms.P(v)
        if p is None:
            return None
        try:
            for s in range(24):
                if not self.test(forms.evalnum(p, forms.Rnd("a%d" % s))):
                    return False
        except (ValueError, ZeroDivisionError, OverflowError, TypeError):
            return None
        return True


def alphabet(vals, text):
    return Among(lambda z: any(abs(z - v) < 1e-9 for v in vals), text)


class Differ(object):
    """Two elements are driven by different draws."""

    def __init__(self, other):
        self.other, self.text = other, "a value drawn independently of the previous interval"

    def holds(self, v):
        if v is U or self.other is U:
            return None
        return not same(v, self.other)


# ------------------------------------------------------- keyed and transient signals
def keyed(g, o, div):
    nc = int(g.opt("n_comp", max(1, rn(g.n, div))))
    return nc, g.opt("f0", 0.25)


def anaask(g, o, div=2.0, levels=Among(lambda z: abs(z.imag) < 1e-12 and 0 <= z.real < 1,
                                       "a level in [0, 1)")):
    nc, f0 = keyed(g, o, div)
    am = [o(1, i) for i in range(g.n)]
    for i in range(g.n):
        yield 1, i, am[i - i % nc]
        yield 1, i, levels
        if i and i % nc == 0:
            yield 1, i, Differ(am[i - 1])
        yield 0, i, M(am[i], cis(M(f0, i - 1)))


def anabpsk(g, o):
    return anaask(g, o, 5.0, alphabet((-1, 1), "one of -1, 1"))


def anaqpsk(g, o):
    nc, f0 = keyed(g, o, 5.0)
    pm = [o(1, i) for i in range(g.n)]
    for i in range(g.n):
        yield 1, i, pm[i - i % nc]
        yield 1, i, alphabet([q * pi / 2 for q in range(4)], "a multiple of pi/2 in [0, 2 pi)")
        if i and i % nc == 0:
            yield 1, i, Differ(pm[i - 1])
        yield 0, i, ex(M(1j, ad(M(2 * pi, f0, i - 1), pm[i])))


def anafsk(g, o):
    nc, _ = keyed(g, o, 5.0)
    law = [o(1, i) for i in range(g.n)]
    nb = int(g.opt("Nbf", 4))
    fr = [0.25 + 0.25 * (q / nb - (nb - 1) / (2.0 * nb)) for q in range(nb)]
    for i in range(g.n):
        yield 1, i, law[i - i % nc]
        yield 1, i, alphabet(fr, "one of the %d frequencies" % nb)
        if i and i % nc == 0:
            yield 1, i, Differ(law[i - 1])
        yield 0, i, cis(S(law[:i + 1]))


def anapulse(g, o):
    ti = g.opt("ti", float(rn(g.n)))
    y = hilb([1.0 if i == ti else 0.0 for i in range(g.n)])
    for i in range(g.n):
        yield 0, i, y[i]


def anastep(g, o):
    ti = g.opt("ti", float(rn(g.n)))
    y = hilb([1.0 if i > ti else 0.0 for i in range(g.n)])
    for i in range(g.n):
        yield 0, i, y[i]


def anasing(g, o):
    n = g.n
    t0, h = g.opt("t0", n / 2.0), g.opt("h", 0.0)
    if h > 0:
        x = [abs(i - t0) ** h for i in range(n)]
        x = [max(x) - v for v in x]
    else:
        m = int(n / 2.0)
        if m < 3:
            return
        fs = [1.0 / n + (0.5 - 2.0 / n) * j / (m - 2) for j in range(m - 1)]
        Y = [0j] + [f ** (-1 - h) * cmath.exp(-2j * pi * f * (t0 - 1)) for f in fs]
        x = [(sum(Y[k] * cmath.exp(2j * pi * k * i / n) for k in range(m)) / n).real for i in range(n)]
        mx = max(x)
        x = [v / mx for v in x]
        mn = min(x)
        x = [v - math.copysign(abs(mn), mn) if mn else v for v in x]
    y = hilb(x)
    for i in range(n):
        yield 0, i, y[i]


# --------------------------------------------------------------------- misc signals
def unit(x):
    k = sqrt(S(apply("real", [M(v, apply("conj", [v]))]) for v in x))
    return [dv(v, k) for v in x]


def altes(g, o):
    lo, hi, al = g.opt("fmin", 0.05), g.opt("fmax", 0.5), g.opt("alpha", 300)
    n = g.n
    r = lg(dv(hi, lo))
    lng = dv(sq(r), M(8.0, lg(al)))
    gg = ex(lng)
    nu0 = sqrt(M(lo, hi))
    beta = sqrt(M(2.0, lng, lg(al)))
    t0 = dv(float(n), sb(ex(beta), ex(M(-1.0, beta))))
    t1, t2 = M(t0, ex(M(-1.0, beta))), M(t0, ex(beta))
    b = M(-1.0, t0, nu0, gg, lng)
    x = []
    for i in range(n):
        t = ad(t1, M(sb(t2, t1), i / float(n)))
        u = lg(dv(t, t0))
        x.append(M(ex(M(-0.5, dv(sq(u), lng))), apply("cos", [M(2 * pi, b, dv(u, lng))])))
    for i, v in enumerate(unit(x)):
        yield 0, i, v


def atoms(g, o):
    co = g.env["coordinates"]
    co = co if isinstance(co[0], list) else [co]
    n = g.n
    for i in range(n):
        t = 0.0
        for a, f, T, A in co:
            a, f = round(max(min(a, n), 1)), max(min(f, 0.5), 0.0)
            t += A * math.exp(-pi * ((i + 1 - a) / T) ** 2) * cmath.exp(2j * pi * f * (i - a))
        yield 0, i, t


def doppler(g, o):
    n = g.n
    fs, f0, d, v = [g.req(k) for k in ("s_freq", "f0", "distance", "v_target")]
    t0, c = g.opt("t0", n / 2), g.opt("v_wave", 340.0)
    for i in range(n):
        t = dv(sb(i + 1, t0), fs)
        r = sqrt(ad(sq(d), sq(M(v, t))))
        yield 0, i, cis(M(f0, sb(t, dv(r, c))))
        yield 1, i, 0.0 if f0 == 0 else dv(1.0, sqrt(r))
        yield 2, i, M(sb(1.0, dv(M(v, v, t), M(r, c))), dv(f0, fs))


def klauder(g, o):
    n = g.n
    a, f0 = g.opt("attenuation", 10.0), g.opt("f0", 0.2)
    h = n // 2
    if h < 1:
        return
    w = [0.0]
    for j in range(1, h + 1):
        f = 0.5 * j / h
        w.append(M(ex(M(-2 * pi * f, a)), ex(M(math.log(f), sb(M(2 * pi, a, f0), 0.5)))))
    W = w[:n - h] + w[1:h + 1][::-1]
    x = [M(1.0 / n, S(M(W[k], cmath.exp(2j * pi * k * i / n)) for k in range(n))) for i in range(n)]
    sh = [x[(i + n - n // 2) % n] for i in range(n)]
    k = sqrt(S(apply("real", [M(v, apply("conj", [v]))]) for v in sh))
    for i in range(n):
        yield 0, i, dv(apply("real", [sh[i]]), k)


def mexhat(g, o):
    nu = g.opt("nu", 0.05)
    al = pi ** 2 * nu ** 2
    m = int(math.ceil(1.5 / nu))
    for i in range(2 * m + 1):
        t = i - m
        yield 0, i, nu * math.sqrt(pi) / 2 * math.exp(-al * t * t) * (1 - 2 * al * t * t)


def gdpower(g, o):
    n = g.n
    k, c = float(g.opt("degree", 0.0)), float(g.opt("rate", 1.0))
    m = (n + 1) // 2
    nu = [0.5 * (j + 1) / m for j in range(m)]
    for j in range(m):
        yield 2, j, nu[j]
    if k == 1.0:
        t0 = n
        x = hilb([1.0 if i == n - 1 else 0.0 for i in range(n)])
        gpd = [float(n)] * m
    else:
        if k == 0:
            d, t0 = c, n / 10.0
        elif k < 1:
            d, t0 = float(n) ** (k * c), n / 10.0
        else:
            d, t0 = n * 2.0 ** (k - 1) * c, 0
        sp = [cmath.exp(-2j * pi * (t0 * v + (d * math.log(v) if k == 0 else d * v ** k / k)))
              * v ** ((k - 2) / 6.0) for v in nu]
        x = [sum(sp[q] * cmath.exp(2j * pi * q * i / n) for q in range(m)) / n for i in range(n)]
        gpd = [t0 + (n + 1.0 if c < 0 else 0.0) + d * v ** (k - 1) for v in nu]
    for j in range(m):
        yield 1, j, gpd[j]
    mean = sum(x) / n
    x = [v - mean for v in x]
    e = math.sqrt(sum(abs(v) ** 2 for v in x))
    if e < 1e-9:
        return
    for i in range(n):
        yield 0, i, x[i] / e


def dopnoise(g, o):
    n = g.n
    fs, f0, d, v = [g.req(k) for k in ("s_freq", "f_target", "distance", "v_target")]
    tc, c = g.opt("time_center", float(n // 2)), g.opt("c", 340)
    for i in range(n):
        t = dv(sb(n + i + 1 - n, tc), fs)
        r = sqrt(ad(sq(d), sq(M(v, t))))
        yield 1, i, M(sb(1.0, dv(M(v, v, t), M(r, c))), dv(f0, fs))


def sigmerge(g, o):
    cx = g.r.cfg.get("sig") == "c"
    n = g.env["N"]
    a = [forms.sample("x1", (i,), cx) for i in range(n)]
    b = [forms.sample("x2", (i,), cx) for i in range(n)]
    e1, e2 = [S(apply("real", [M(v, apply("conj", [v]))]) for v in z) for z in (a, b)]
    h = sqrt(dv(e1, M(e2, pw(10.0, M(0.1, g.opt("ratio", 0.0))))))
    for i in range(n):
        yield 0, i, ad(a[i], M(h, b[i]))


# ------------------------------------------------------------------------ the checks
def genvs(entry, cfg, level):
    out = []
    if entry.name in ENVS:
        return ENVS[entry.name](cfg, level)
    for e in parts.envs(entry, cfg, "quick" if level == "quick" else "thorough"):
        n = e.get("n_points", e.get("N", 1))
        if n > (16 if level == "quick" else 33):
            continue
        out.append(e)
    return out


def powenvs(cfg, level):
    return [{"n_points": n, "k": k, "c0": 1.0, "c1": 0.4, "c2": 100.0, "c3": 0.1}
            for n in ((1, 2, 5, 9) if level == "quick" else (1, 2, 3, 5, 8, 13, 33))
            for k in ((1, 2, 3, -1) if cfg["deg"] == "i" else (0.5, 1.0, 2.0, -0.5, 1.5))]


def parenvs(cfg, level):
    """Includes laws that leave [0, 1/2] (they are generated, with a warning)."""
    return [dict(n_points=n, a0=a, a1=b, a2=c) for n in ((1, 2, 5, 9) if level == "quick" else (1, 2, 3, 5, 8, 13, 33))
            for a, b, c in ((0.1, 0.01, 0.0001), (0.45, 0.05, 0.01), (0.02, -0.03, 0.0))]


def hypenvs(cfg, level):
    return [dict(n_points=n, p1t=a, p1f=b, p2t=c, p2f=d)
            for n in ((1, 2, 5, 9) if level == "quick" else (1, 2, 3, 5, 8, 13, 33))
            for a, b, c, d in ((1.0, 0.4, 32.0, 0.1), (4.0, 0.45, 8.0, 0.05), (2.0, 0.1, 5.0, 0.4))]


ENVS = {"fmpower": powenvs, "fmpar": parenvs, "fmhyp": hypenvs}


def gfar(ctx, r, o):
    out = []
    base = parts.envs(r.entry, r.cfg, "tiny")
    for K in parts.thresholds(roots(ctx, r, o)):
        ctx.count("partitions added for constant %d" % K)
        for n in (K - 1, K, K + 1, 2 * K + 1):
            for b in base[-1:]:
                e = dict(b)
                for k in ("n_points", "N"):
                    if k in e:
                        e[k] = n
                e["_at"] = K
                out.append(e)
    return out


def laws(ctx, rule, spec):
    """spec: name -> (oracle, symbolic option sets)."""
    jobs = []
    for name, (orc, symbs) in spec.items():
        for r in ctx.runs(names={name}):
            if r.error or r.ret is None:
                continue
            o = outs(r.ret)
            if o is None:
                ctx.add(rule, r.label, "unknown")
                continue
            ge = genvs(r.entry, r.cfg, ctx.tier)
            for env in ge + gfar(ctx, r, o):
                for sy in symbs:
                    jobs.append((r, o, orc, sy, env))
            for env, nm in parts.cover(r, roots(ctx, r, o), ge, lambda e: not rejected(r, Evaluator(e))):
                ctx.count("partitions added for a one-sided decision")
                for sy in symbs:
                    jobs.append((r, o, orc, tuple(x for x in sy if x not in nm), env))
    jobs.sort(key=lambda j: -j[4].get("n_points", j[4].get("N", 0)))
    pmap(ctx, lambda j: one(ctx, rule, *j), jobs)


def one(ctx, rule, r, o, orc, sy, env):
    if rejected(r, Evaluator(env)):
        return
    forms.reset()
    F = Forms(sig_env(env), sy)
    try:
        rs = [Out(ctx, r, v, F) for v in o]
    except IN.Giveup:
        ctx.add(rule, r.label, "unknown")
        return
    shp = [x.shp() for x in rs]

    def got(k, i):
        ix = i if isinstance(i, tuple) else (i,)
        if shp[k] is None or len(ix) != len(shp[k]) or not all(0 <= a < b for a, b in zip(ix, shp[k])):
            return U
        return rs[k].el(ix)
    unk = cnt = 0
    try:
        for k, i, want in orc(G(r, env, sy), got):
            if k >= len(rs):
                ctx.add(rule, r.label, "refuted", where(r.entry), "result %d is missing" % k)
                return
            v = got(k, i)
            e = want.holds(v) if hasattr(want, "holds") else same(v, want)
            cnt += 1
            if e is False:
                ctx.add(rule, r.label, "refuted", where(r.entry),
                        "sample %s of result %d is %s where the law gives %s" % (
                            i, k, forms.show(v, 4), want.text if hasattr(want, "text") else forms.show(want, 4)),
                        parts.show(env, r))
                return
            if e is None:
                unk += 1
    except (TooBig, RecursionError, forms.Blowup):
        unk += 1
    except (ZeroDivisionError, OverflowError, ValueError):
        return                       # the law itself is undefined in this partition
    ctx.count("samples compared", cnt)
    ctx.count("samples undecided", unk)
    if cnt:
        ctx.add(rule, r.label, "unknown" if unk else "proved", where(r.entry))


NO = [()]
AM = {"amgauss": (amgauss, [("t0", "spread")]), "amexpos": (amexpos, [(), ("t0", "spread"), ("spread",)]),
      "amrect": (amrect, [(), ("t0", "spread")]), "amtriang": (amtriang, [(), ("t0", "spread")])}
FM = {"fmconst": (fmconst, [("fnorm", "t0")]), "fmlin": (fmlin, [("fnormi", "fnormf")]),
      "fmsin": (fmsin, [("fnormin", "fnormax", "period", "t0", "fnorm0"), ()]),
      "fmhyp": (fmhyp, [("p1t", "p1f", "p2t", "p2f"), ()]), "fmodany": (fmodany, NO),
      "fmpar": (fmpar, [("a0", "a1", "a2"), ()]),
      "fmpower": (fmpower, [("c0", "c1", "c2", "c3"), ()])}
ANA = {"anaask": (anaask, [("f0",)]), "anabpsk": (anabpsk, [("f0",)]), "anaqpsk": (anaqpsk, [("f0",)]),
       "anafsk": (anafsk, NO), "anapulse": (anapulse, NO), "anastep": (anastep, NO),
       "anasing": (anasing, NO)}
MISC = {"altes": (altes, [("fmin", "fmax", "alpha"), ()]), "atoms": (atoms, NO),
        "doppler": (doppler, [("s_freq", "distance", "v_target", "v_wave", "t0")]),
        "klauder": (klauder, [(), ("attenuation", "f0")]), "mexhat": (mexhat, NO),
        "gdpower": (gdpower, NO), "dopnoise": (dopnoise, [("s_freq", "f_target", "distance",
                                                           "v_target", "c", "time_center")]),
        "sigmerge": (sigmerge, [("ratio",)])}


def c13(ctx):
    laws(ctx, "amplitude-law", AM)


def c14(ctx):
    laws(ctx, "frequency-law", FM)


def c29(ctx):
    laws(ctx, "keyed-signal-law", ANA)


def c30(ctx):
    laws(ctx, "signal-law", MISC)

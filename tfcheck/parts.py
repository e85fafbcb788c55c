"""Trace partitioning: the classes of argument sizes / option values on which
the constant-and-interval domain of peval is evaluated."""
import itertools

from . import nodes, interp as IN
from .nodes import Node, reach, LV
from .peval import Evaluator, Iv, exact

ODD = [1, 3, 5, 7, 9, 11]


def indices(shape):
    return itertools.product(*[range(x) for x in shape])


def evaluator(env):
    return Evaluator(env)


def relevant(r):
    """Names of the sizes, scalars and arrays the arguments of a run depend on."""
    out, st, seen = set(), [], set()

    def visit(v):
        if isinstance(v, nodes.Node):
            st.append(v)
        elif isinstance(v, IN.Ref) and r.st is not None:
            c = r.st.heap.get(v.rid)
            if isinstance(c, nodes.Node):
                st.append(c)
            if r.input_regions.get(v.rid):
                out.add(r.input_regions[v.rid])
    for v in r.inputs.values():
        visit(v)
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op in ("param", "arr") and n.args and isinstance(n.args[0], str):
            out.add(n.args[0])
        st.extend(nodes.children(n))
        d = nodes.dims(n)
        st.extend(x for x in (d or ()) if isinstance(x, nodes.Node))
    return out


def show(env, r=None):
    """The partition as a witness: what the arguments of the run depend on."""
    keep = relevant(r) if r is not None else None
    return {k: (v if not callable(v) else "...") for k, v in env.items()
            if not k.startswith("_") and (not keep or k in keep)}


def _ts_list(N, T):
    """Regular sampling instants inside the record."""
    if T <= 1:
        return [max(0, N // 2)][:T]
    step = max(1, N // T)
    return [min(N - 1, i * step) for i in range(T)]


def _sizes(level):
    if level == "tiny":
        return [2, 5, 8]
    if level == "quick":
        return [2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 16, 17]
    return list(range(1, 21)) + [24, 25, 31, 32, 33, 40]


NP = {"tiny": [1, 4, 7], "quick": [1, 2, 3, 4, 5, 7, 8, 10, 13, 16, 31, 32],
      "thorough": list(range(1, 41)) + [64, 65, 100, 127, 128, 129]}

SCAL = {
    "fnorm": [0.25, -0.5, 0.1], "fnormi": [0.0, 0.1, -0.2], "fnormf": [0.5, 0.3, 0.05],
    "f0": [0.25, 0.05, 0.5], "fnormin": [0.05, 0.1], "fnormax": [0.45, 0.3],
    "period": [10.0, 25.0], "fnorm0": [0.2, 0.3], "pm1": [1, -1],
    "spread": [5.0, 2.5], "h": [-0.5, 0.0, 0.5], "Nbf": [4, 5, 2],
    "a0": [0.1], "a1": [0.01], "a2": [0.0001], "p1t": [1.0], "p1f": [0.4], "p2t": [32.0],
    "p2f": [0.1], "c0": [1.0, 0.1], "c1": [0.4, 0.01], "c2": [100.0], "c3": [0.1], "k": [0.5, 2.0],
    "fmin": [0.05, 0.1], "fmax": [0.4, 0.45], "alpha": [300.0, 2.0], "attenuation": [10.0, 2.0],
    "nu": [0.05, 0.25], "degree": [0.0, 0.5, 1.0, 2.0, -1.0], "rate": [1.0, -1.0, 2.0],
    "s_freq": [200.0], "f_target": [60.0], "distance": [10.0], "v_target": [50.0],
    "v_wave": [340.0], "c": [340.0], "ratio": [0.0, 3.0], "a": [2.0], "waveparams": [3.0, 5.0],
    "tbp": [0.25], "u": [0.5, 0.0], "decimals": [5], "a1c": [0.1],
}
ENTRY_SCAL = {
    "doppler": {"f0": [65.0, 0.0]}, "klauder": {"f0": [0.2, 0.1]},
    "noisecg": {"a1": [0.5], "a2": [0.5]}, "umaxdfla_solve": {"ratio": [4.0]},
    "gdpower": {"rate": [1.0, -1.0]},
}


def envs(entry, cfg, level="quick"):
    """Representative valid calls, one per partition."""
    name, fam = entry.name, entry.family
    out = []
    sc = dict(SCAL)
    sc.update(ENTRY_SCAL.get(name, {}))

    def scal(i):
        e = {}
        for j, (k, vs) in enumerate(sorted(sc.items())):
            e[k] = vs[(i + j * (i > 0)) % len(vs)]
        return e

    if fam == "gen" and name not in ("sigmerge", "scale", "fmodany"):
        i = 0
        for n in NP[level]:
            t0s = sorted({1, (n + 1) // 2, n}) if level != "tiny" else [1]
            if level != "tiny" and n in (5, 8, 16) and cfg.get("t0") == "yes" and name[:2] in ("fm", "am", "do"):
                t0s.append(n // 2 + 0.7)          # a reference time between two samples
            for t0 in t0s:
                e = scal(i)
                e.update({"n_points": n, "t0": float(t0), "ti": float(int(t0)), "time_center": float(t0)})
                comps = sorted({1, max(1, n // 3), max(1, (n + 1) // 2), n})
                if cfg.get("n_comp") == "yes":
                    for nc in (comps if level != "tiny" else comps[:1]):
                        out.append(dict(e, n_comp=nc))
                elif name in ("amexpos", "amgauss") and cfg.get("spread") == "yes" and t0 == n:
                    out.extend([e, dict(e, spread=0.02)])
                elif name == "fmpower":
                    for k in ((1, 2, 3, -1) if cfg.get("deg") == "i" else (0.5, 1.0, 2.0, -0.5)):
                        out.append(dict(e, k=k))
                elif name == "gdpower" and cfg.get("degree") == "yes":
                    for dg in sc["degree"]:
                        out.append(dict(e, degree=dg))
                else:
                    if name == "atoms":
                        cos = [[[1.0 + q, 0.1 * q + 0.1, 4.0, 1.0] for q in range(A)] for A in (1, 2)]
                        cos.append([[n + 3.0, 0.6, 2.0, 0.5], [0.2, -0.1, 3.0, 1.2]])
                        cos.append([[1.0, 0.0, 3.0, -1.0], [2.0, 0.2, 5.0, -0.7], [1.5, 0.1, 2.0, 0.0]])
                        for co in cos:
                            out.append(dict(e, A=len(co), coordinates=co if cfg.get("flat") != "yes" else co[0]))
                    else:
                        out.append(e)
                i += 1
        return out
    if name == "fmodany":
        for i, n in enumerate(_sizes(level)):
            for t0 in sorted({1, n - 1 or 1}):
                e = scal(i)
                e.update({"N": n, "t0": t0, "iflaw": (lambda *ix: Iv(-0.5, 0.5, "f"))})
                out.append(e)
        return out
    if fam in ("tfr", "amb", "reassigned", "affine", "desc", "gen"):
        i = 0
        for N in _sizes(level):
            if N < MINN.get(name, 1):
                continue
            if cfg.get("nf") == "yes":
                nfs = sorted({2, max(2, N // 2), N, N + 1, 2 * N}) if level != "tiny" else [N, N + 3]
            else:
                nfs = [N]
            Ts = sorted({1, max(1, N // 2), N}) if cfg.get("ts", cfg.get("t")) == "yes" else [N]
            if level == "tiny":
                Ts = Ts[:2]
            for nf in nfs:
                if nf < MINF.get(name, 1):
                    continue
                for T in Ts:
                    Ls = [1, 3, 7] if cfg.get("fw") == "yes" or cfg.get("win") == "yes" else [3]
                    if level == "tiny":
                        Ls = [3]
                    if name == "derive_window":
                        Ls = [N] if N % 2 else [N + 1, 1]
                    for L in Ls:
                        e = scal(i)
                        i += 1
                        ts = _ts_list(N, T)
                        if name == "inst_freq":
                            ts = [2 + q for q in range(max(0, N - 2))][:T]
                            T2 = len(ts)
                        else:
                            T2 = T
                        e.update({"N": N, "n_fbins": nf, "T": T2, "timestamps": ts, "L": L,
                                  "M": [1, 3, 5][i % 3], "t": ts, "n_voices": [4, 8, 7][i % 3],
                                  "K": 3, "lag": [-1, 0, 1] if N >= 3 else [0, 0, 0],
                                  "R": 3 + i % 3, "C": 4 + i % 2})
                        e["n_coeff"], e["q_oversample"] = gab(N, i)
                        if name == "gabor" and cfg.get("nc") != "yes":
                            nc = next(d for d in range(int(-(-N ** 0.5 // 1)), 0, -1) if N % d == 0)
                            qs = [d for d in range(1, nc + 1) if nc % d == 0]
                            e["q_oversample"] = qs[len(qs) // 2]
                        if name == "narrow_band" and nf < N:
                            continue
                        out.append(e)
        if len(out) > 160 and level == "quick":
            st = (len(out) + 159) // 160
            out = out[::st]
        return out
    if fam == "post":
        for i, (R, C) in enumerate([(4, 4), (5, 7), (8, 5), (3, 3), (2, 6), (9, 2)]):
            for m, n in ((R, C), (5, 3), (4, 8)):
                e = scal(i)
                e.update({"R": R, "C": C, "m": m, "n": n, "I": 1 + i % 2, "N": C, "n_fbins": m,
                          "timestamps": list(range(C)), "alpha": [3.0, 2.0][i % 2],
                          "iflaws": (lambda *ix: Iv(0.0, 0.5, "f"))})
                out.append(e)
        return out if level != "tiny" else out[:3]
    if fam == "plot":
        return [{"T": 5}, {"T": 8}]
    if fam == "util":
        for n in ([4, 7] if level == "tiny" else [1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 64, 100]):
            e = {"n": n, "N": n, "R": 3, "C": 2 + n % 3, "decimals": 5}
            out.append(e)
        return out
    return [{}]


MINN = {"gabor": 4, "wide_band": 8, "BertrandDistribution": 12, "DFlandrinDistribution": 12,
        "UnterbergerDistribution": 12, "Scalogram": 8, "affine.smoothed_pseudo_wigner": 12,
        "inst_freq": 3, "reassigned.smoothed_pseudo_wigner_ville": 4,
        "reassigned.morlet_scalogram": 4, "scale": 8, "integrate_2d": 2, "sigmerge": 1}
MINF = {"reassigned.smoothed_pseudo_wigner_ville": 4, "reassigned.morlet_scalogram": 4}


def gab(N, i):
    ds = [d for d in range(1, N + 1) if N % d == 0]
    n = ds[len(ds) // 2]
    qs = [d for d in range(1, n + 1) if n % d == 0]
    return n, qs[len(qs) // 2 if len(qs) > 1 else 0]


def literals(pc):
    """Flatten a path condition into (node, polarity) literals."""
    out = []
    st = [(c, True) for c in pc]
    while st:
        c, p = st.pop()
        if not isinstance(c, Node):
            continue
        if c.op == "not":
            st.append((c.args[0], not p))
        elif c.op == "land" and p:
            st.extend((x, True) for x in c.args[0])
        elif c.op == "lor" and not p:
            st.extend((x, False) for x in c.args[0])
        else:
            out.append((c, p))
    return out


NEGCMP = {"lt": "ge", "ge": "lt", "le": "gt", "gt": "le", "eq": "ne", "ne": "eq"}


def contradictory(lits):
    s = set()
    for c, p in lits:
        if (c.id, not p) in s:
            return True
        s.add((c.id, p))
        if c.op in NEGCMP:
            d = nodes.mk(NEGCMP[c.op], *c.args)
            if (d.id, p) in s:
                return True
            s.add((d.id, not p))
    return False


def data_dep(c):
    for x in reach([c]).values():
        if x.op in ("arr", "rand", "mu"):
            return True
    return False


def status(lits, env, ev=None):
    """True: condition certainly satisfiable in this partition; False: infeasible; None."""
    ev = ev or Evaluator(env)
    res = True
    for c, p in lits:
        try:
            t = ev.truth(c)
        except Exception:
            t = None
        if t is None:
            if not data_dep(c):
                res = None
            else:
                res = res and "data"
        elif t != p:
            return False
    return res


def feasible(r, pc, extra=(), level="tiny"):
    """('refuted', witness) when some partition can take the path."""
    lits = literals(tuple(pc) + tuple(extra))
    if contradictory(lits):
        return "proved", None
    if not lits:
        return "refuted", None
    best = "proved"
    wit = None
    for env in envs(r.entry, r.cfg, level):
        s = status(lits, env)
        if s is True:
            return "refuted", show(env, r)
        if s == "data":
            best, wit = "refuted", show(env, r)
        elif s is None and best == "proved":
            best = "unknown"
    if best == "refuted":
        return best, wit
    if level == "tiny":
        return feasible(r, pc, extra, "quick")
    if best == "proved":
        w = _reach_values(r, lits)
        if w is not None:
            return "refuted", w
    return best, None


def _reach_values(r, lits):
    """Admissible values of the scalar arguments named in a path condition that take the path."""
    dom = dict(DOM)
    dom.update(ENTRY_DOM.get(r.entry.name, {}))
    base = list(envs(r.entry, r.cfg, "tiny"))[:6]
    for c, p in lits:
        if nodes.rank(c) != 0 or data_dep(c):
            continue
        sub = reach([c]).values()
        consts = {x.args[0] for x in sub if x.op == "const" and type(x.args[0]) in (int, float)
                  and x.args[0] == x.args[0] and abs(x.args[0]) < 1e5}
        for nm in sorted({x.args[0] for x in sub if x.op == "param" and x.args[0] in dom}):
            lo, hi, kd = dom[nm]
            for e in base:
                if type(e.get(nm)) not in (int, float):
                    continue
                for v in _candidates(lo, hi, "i" if type(e[nm]) is int else kd, consts, e[nm]):
                    e2 = dict(e)
                    e2[nm] = v
                    if nm in ("t0", "ti", "time_center", "n_comp") and v > e2.get("n_points", v):
                        continue
                    if status(lits, e2) in (True, "data"):
                        return show(e2)
    return None


def unbound_feasible(r, e):
    if e.cond is not None:
        return feasible(r, e.pc, (e.cond,))
    if e.lv is not None and e.why == "zero-trip":
        b = LV.get(e.lv, {}).get("bounds")
        if b is None:
            return "unknown", None
        lits = literals(e.pc)
        for env in envs(r.entry, r.cfg, "quick"):
            ev = Evaluator(env)
            s, t, d = [ev.ev(x) for x in b]
            if all(exact(x) for x in (s, t, d)) and d:
                empty = (s >= t) if d > 0 else (s <= t)
                if empty and status(lits, env, ev) in (True, "data"):
                    return "refuted", show(env, r)
                continue
        return "unknown", None
    return "unknown", None


class _Seen(Exception):
    pass


def depends_on_empty(ev, n, idx):
    """Does the element come from np.empty memory (exact tracking only)?"""
    hit = []
    cls = type("E", (Evaluator,), {"_e_empty": lambda self, a, b, c: hit.append(1) or None})
    e2 = cls(ev.env)
    e2.el(n, idx)
    return False if not hit else (n.op == "empty")


CMP = ("lt", "le", "gt", "ge", "eq", "ne", "min", "max", "minimum", "maximum", "mod", "floordiv",
       "pymin", "pymax", "clip")


def thresholds(roots, lo=13, hi=400):
    """Integer constants (beyond the routine partitions) that scalar quantities are
    compared with, clipped to or reduced by in the analysed value graph."""
    out = set()
    for n in reach(roots).values():
        any_int = n.op not in NUMERIC
        for x in nodes.children(n):
            if x.op == "const" and type(x.args[0]) in (int, float):
                v = x.args[0]
                if v == v and lo <= abs(v) <= hi and (n.op in CMP or (any_int and type(v) is int)):
                    out.add(int(abs(v)))
    return sorted(out)


NUMERIC = {"mul", "div", "pow", "floatpow"}

# ---------------------------------------------------- partitions covering scalar decisions
DOM = {"n_points": (1, 4200, "i"), "fnorm": (-0.5, 0.5, "f"), "fnormi": (-0.5, 0.5, "f"),
       "fnormf": (-0.5, 0.5, "f"), "f0": (0.01, 0.49, "f"), "period": (1.0, 500.0, "f"),
       "spread": (0.02, 600.0, "f"), "h": (-2.0, 2.0, "f"), "Nbf": (1, 64, "i"), "k": (-4.0, 4.0, "f"),
       "a0": (-0.4, 0.4, "f"), "a1": (-0.02, 0.02, "f"), "a2": (-0.001, 0.001, "f"),
       "attenuation": (0.5, 40.0, "f"), "nu": (0.02, 0.5, "f"), "degree": (-3.0, 3.0, "f"),
       "rate": (-3.0, 3.0, "f"), "distance": (0.5, 1000.0, "f"), "v_target": (0.0, 300.0, "f"),
       "v_wave": (100.0, 2000.0, "f"), "ratio": (-40.0, 40.0, "f"), "a": (0.3, 4.0, "f"),
       "n_comp": (1, 4200, "i"), "t0": (1.0, 4200.0, "f"), "ti": (0.0, 4200.0, "f"), "alpha": (1.5, 900.0, "f"),
       "s_freq": (150.0, 5000.0, "f"), "f_target": (5.0, 70.0, "f"), "c": (100.0, 2000.0, "f"),
       "waveparams": (0.0, 40.0, "f"), "fnorm0": (0.06, 0.29, "f"), "time_center": (1.0, 4200.0, "f")}
ENTRY_DOM = {"doppler": {"f0": (0.0, 75.0, "f")}, "umaxdfla_solve": {"ratio": (1.2, 30.0, "f")},
             "renyi_information": {"alpha": (0.2, 9.0, "f")}}
CONDS = ("lt", "le", "gt", "ge", "eq", "ne")


def _candidates(lo, hi, kd, consts, cur):
    out = []
    for c in sorted(consts):
        if kd == "i":
            out += [c - 1, c, c + 1, c + 2, 2 * c, c // 2]
        else:
            out += [c, c - 0.5, c + 0.5, c * 0.99, c * 1.01, c - 0.01, c + 0.01, -c, 2 * c, c / 2.0, c + 0.001,
                    c - 0.001, 1 + c / 2.0, 1 - c / 2.0]
    n = 24
    if kd == "i":
        out += [1, 2, 3, 5, 6, 11, 14, 18, 23, 29, 37, 50, 64, 101, 128, 200, 257, 400, 513, 1025, 2049, 4097]
    else:
        out += [lo + (hi - lo) * q / n for q in range(n + 1)] + [cur * 0.5, cur * 2, 0.0, 1.0, cur + 0.37]
    res, seen = [], set()
    for v in out:
        v = int(v) if kd == "i" else round(float(v), 6)
        if lo <= v <= hi and v not in seen:
            seen.add(v)
            res.append(v)
    return res


def cover(r, roots, base, ok=None, limit=12):
    """Extra partitions that make every scalar decision of the code take both outcomes.

    Returns [(env, names of the arguments that were chosen)]."""
    dom = dict(DOM)
    dom.update(ENTRY_DOM.get(r.entry.name, {}))
    found = []
    base = [e for e in base][:: max(1, len(base) // 40)]
    evs = [(e, Evaluator(e)) for e in base]
    for c in sorted((x for x in reach(roots).values() if x.op in CONDS), key=lambda x: x.uid if hasattr(x, "uid") else id(x)):
        if nodes.rank(c) != 0 or nodes.lvs(c) or data_dep(c):
            continue
        sub = reach([c]).values()
        names = sorted({x.args[0] for x in sub if x.op == "param" and x.args[0] in dom})
        if not names:
            continue
        seen = set()
        for e, ev in evs:
            try:
                seen.add(ev.truth(c))
            except Exception:
                seen.add(None)
        if True in seen and False in seen:
            for h in _boundary(c, names, dom, evs, ok):
                h[0]["_cover"] = True
                found.append(h)
            continue
        want = not (True in seen)
        consts = {x.args[0] for x in sub if x.op == "const" and type(x.args[0]) in (int, float)
                  and x.args[0] == x.args[0] and abs(x.args[0]) < 1e5}
        hits = []
        for e, _ in evs[:: max(1, len(evs) // 6)]:
            for nm in names:
                got = []
                if nm not in e or callable(e[nm]) or isinstance(e[nm], (list, tuple)):
                    continue
                lo, hi, kd = dom[nm]
                if nm == "k" and type(e[nm]) is int:
                    kd = "i"
                for v in _candidates(lo, hi, kd, consts, e[nm] if not isinstance(e[nm], Iv) else 1.0):
                    e2 = dict(e)
                    e2[nm] = v
                    if nm in ("t0", "ti", "time_center", "n_comp") and v > e2.get("n_points", v):
                        continue
                    try:
                        t = Evaluator(e2).truth(c)
                    except Exception:
                        continue
                    if t is want and (ok is None or ok(e2)):
                        got.append((e2, (nm,)))
                        if len(got) >= 6:
                            break
                # one value next to the boundary and one away from it
                hits += got[:1] + got[-1:] if len(got) > 1 else got
            if len(hits) >= 4:
                break
        for h in hits:
            h[0]["_cover"] = True
            found.append(h)
        if len(found) >= limit:
            break
    return found


def _boundary(c, names, dom, evs, ok):
    """Values of one argument just on either side of the point where the decision changes."""
    out = []
    for nm in names:
        lo, hi, kd = dom[nm]
        for e, ev in sorted(evs, key=lambda x: -min(x[0].get("n_points", 0), 9)):
            if nm not in e or type(e[nm]) not in (int, float):
                continue
            k2 = "i" if kd == "i" or type(e[nm]) is int else "f"

            def at(v):
                e2 = dict(e)
                e2[nm] = v
                try:
                    return Evaluator(e2).truth(c)
                except Exception:
                    return None
            t = at(e[nm])
            if t is None:
                continue
            other = [x[nm] for x, _ in evs if type(x.get(nm)) in (int, float) and at(x[nm]) is (not t)]
            if not other:
                continue
            a, b = e[nm], other[0]
            if k2 == "i":
                a, b = int(a), int(b)
                while abs(a - b) > 1:
                    m = (a + b) // 2
                    if at(m) is t:
                        a = m
                    else:
                        b = m
                vs = [a, b]
            else:
                for _ in range(40):
                    m = (a + b) / 2.0
                    if at(m) is t:
                        a = m
                    else:
                        b = m
                w = max(abs(a), 0.1) * 1e-3
                vs = [round(v, 9) for v in (a - w, a + w)]
            for v in vs:
                if lo <= v <= hi and not any(x.get(nm) == v for x, _ in evs):
                    e2 = dict(e)
                    e2[nm] = v
                    if nm in ("t0", "ti", "time_center", "n_comp") and v > e2.get("n_points", v):
                        continue
                    if ok is None or ok(e2):
                        out.append((e2, (nm,)))
            break
    return out

"""C21: every call inside the documented domain runs to completion.

Every operation of the analysed code that can fail at run time (indexing,
broadcasting, reshaping, allocation sizes, loop bounds, scalar division, real
square roots and logarithms, conversions to int, library preconditions) leaves
an obligation in the event list of its run; the obligation is decided on the
partitions of the argument sizes with the interval evaluator, loop variables
first as intervals, then one iteration at a time."""
import cmath
import itertools
import math

from . import entries, forms, parts, nodes, interp as IN
from .nodes import Node, LV, rank, dims, kind, is_const
from .peval import Evaluator, Iv, exact, lo, hi, isreal
from .p_effects import where
from .p_gens import sig_env
from .p_shapes import rejected, outs, select
from .core import pmap

TYPES = {"load", "store", "bcast", "eqreq", "intreq", "reshape", "nonempty", "toint", "mathdom", "winlen",
         "divreq", "powreq", "raise", "truthreq"}
INF = float("inf")
OK, BAD, UNK = 1, 0, None


def num(v):
    return exact(v) and not isinstance(v, complex) and v == v


def bounds(ev, lid):
    b = LV.get(lid, {})
    if b.get("kind") == "while" or not b.get("bounds"):
        return None
    return [ev.ev(x) for x in b["bounds"]]


def trips(ev, lid):
    b = bounds(ev, lid)
    if b is None or not all(num(x) and not math.isinf(x) and x == int(x) for x in b) or not b[2]:
        return None
    return range(int(b[0]), int(b[1]), int(b[2]))


def in_range(v, n, slack=0):
    """Index v into an axis of n entries."""
    if not isreal(v):
        return UNK
    l, h = lo(v), hi(v)
    if l != l or h != h:
        return UNK
    if -n <= l and h <= n - 1 + slack:
        return OK
    if h < -n or l > n - 1:
        return BAD
    return BAD if exact(v) else UNK


def pyscalar(n):
    """The value is a plain Python number (so dividing by zero raises)."""
    st, seen = [n], set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ("const", "param", "dim"):
            continue
        if x.op == "lv":
            if LV.get(x.args[0], {}).get("kind") != "range":
                return False
            continue
        if x.op in ("add", "sub", "mul", "div", "floordiv", "neg", "mod", "pyround", "toint", "mceil", "mfloor"):
            st.extend(nodes.children(x))
            continue
        return False
    return True


def selection(ev, base, items):
    """Concrete shape of base[items] (None when it cannot be told)."""
    s = ev.shp(base)
    if s is None:
        return None
    its = [i for i in items if i != "newaxis" and i != "ellipsis"]
    if any(isinstance(i, Node) and kind(i) == "b" for i in its) or len(its) > len(s):
        return None
    if "ellipsis" in items:
        k = items.index("ellipsis")
        items = items[:k] + (("slice", None, None, None),) * (len(s) - len(its)) + items[k + 1:]
    out, adv, ax, first = [], [], 0, None
    for i in items:
        if i == "newaxis":
            out.append(1)
        elif isinstance(i, tuple):
            b = []
            for x in i[1:]:
                v = None if x is None else ev.ev(x)
                if v is not None and not (num(v) and v == int(v)):
                    return None
                b.append(None if v is None else int(v))
            if b[2] == 0:
                return None
            out.append(len(range(*slice(*b).indices(s[ax]))))
            ax += 1
        else:
            if rank(i):
                q = ev.shp(i)
                if q is None or rank(i) != 1:
                    return None
                adv.append(q[0])
                if first is None:
                    first = len(out)
                    out.append(q[0])
                elif len(adv) > 1:
                    out[first] = max(out[first], q[0])
            elif rank(i) is None:
                return None
            ax += 1
    return tuple(out) + tuple(s[ax:])


def fits(val, sel):
    """A value of shape val can be stored in a selection of shape sel."""
    v = list(val)
    while len(v) > len(sel) and v[0] == 1:
        v.pop(0)
    if len(v) > len(sel):
        return False
    return all(x == 1 or x == y for x, y in zip(reversed(v), reversed(sel)))


def all_of(rs):
    bad = False
    for r in rs:
        if r is BAD:
            return BAD
        if r is UNK:
            bad = True
    return UNK if bad else OK


def index_ok(ev, base, items, value=None):
    if rank(base) is None:
        return UNK, "array of unknown rank"
    s = ev.shp(base)
    n_items = [i for i in items if i not in ("newaxis", "ellipsis")]
    if any(isinstance(i, Node) and kind(i) == "b" and (rank(i) or 0) > 1 for i in n_items):
        return OK, ""
    if len(n_items) > rank(base):
        return BAD, "%d indices for an array of %d dimensions" % (len(n_items), rank(base))
    res = []
    ax = 0
    for k, i in enumerate(items):
        if i == "newaxis":
            continue
        if i == "ellipsis":
            ax = rank(base) - len([j for j in items[k + 1:] if j != "newaxis"])
            continue
        if isinstance(i, tuple):
            for x in i[1:]:
                if x is None:
                    continue
                if kind(x) in "fc" and kind(x) != "?" and not is_const(x, None):
                    return BAD, "slice bound is a float"
            if i[3] is not None:
                v = ev.ev(i[3])
                if num(v) and v == 0:
                    return BAD, "slice step is zero"
            ax += 1
            continue
        kd = kind(i)
        if kd in ("f", "c"):
            return BAD, "index of kind %s" % {"f": "float", "c": "complex"}[kd]
        if kd == "b":
            q = ev.shp(i) if rank(i) else None
            if rank(i) and (q is None or s is None):
                res.append(UNK)
            elif rank(i) and q[0] != s[ax]:
                return BAD, "boolean index of length %d for an axis of %d" % (q[0], s[ax])
            ax += 1
            continue
        if s is None or kd == "?":
            res.append(UNK)
            ax += 1
            continue
        n = s[ax]
        if rank(i) == 0:
            v = ev.ev(i)
            t = in_range(v, n)
            if t is BAD:
                return BAD, "index %s is out of range for an axis of %d entries" % (show(v), n)
            res.append(t)
        else:
            q = ev.shp(i)
            if q is None or ev.size(q) > 400:
                res.append(UNK)
            else:
                for ix in itertools.product(*[range(m) for m in q]):
                    v = ev.el(i, ix)
                    t = in_range(v, n)
                    if t is BAD:
                        return BAD, "index %s is out of range for an axis of %d entries" % (show(v), n)
                    res.append(t)
                    if t is UNK:
                        break
        ax += 1
    adv = [i for i in items if isinstance(i, Node) and kind(i) != "b" and rank(i)]
    if len(adv) > 1 and all(rank(i) == 1 for i in adv):
        ls = [ev.shp(i) for i in adv]
        if any(x is None for x in ls):
            res.append(UNK)
        else:
            m = {x[0] for x in ls if x[0] != 1}
            if len(m) > 1:
                return BAD, "index arrays of different lengths %s" % sorted(m)
    if value is not None and rank(value):
        sel, vs = selection(ev, base, items), ev.shp(value)
        if any(isinstance(i, Node) and kind(i) == "b" for i in items):
            same = dims(value) is not None and dims(value) == dims(nodes.mk("getitem", base, items))
            res.append(OK if same else UNK)
        elif sel is None or vs is None:
            res.append(UNK)
        elif not fits(vs, sel):
            return BAD, "a value of shape %s is stored in a selection of shape %s" % (vs, sel)
    return all_of(res), ""


def show(v):
    if isinstance(v, Iv):
        return "[%s, %s]" % (v.lo, v.hi)
    return "%s" % (v,)


def decide(e, ev):
    """(verdict, message) of one obligation in one partition."""
    t = e.type
    if t == "load":
        return index_ok(ev, e.base, e.idx)
    if t == "store":
        return index_ok(ev, e.base, e.idx, e.value)
    if t == "bcast":
        vs = [ev.ev(x) for x in e.dims]
        if not all(num(v) for v in vs):
            return UNK, ""
        m = {int(v) for v in vs if v != 1}
        return (BAD, "operands of lengths %s (%s)" % (sorted(m), e.what)) if len(m) > 1 else (OK, "")
    if t == "truthreq":
        q = ev.shp(e.node)
        if q is None:
            return UNK, ""
        return (OK, "") if ev.size(q) == 1 else (BAD, "the truth value of an array of %d entries is taken" % ev.size(q))
    if t == "eqreq":
        a, b = ev.ev(e.a), ev.ev(e.b)
        if not (num(a) and num(b)):
            return UNK, ""
        return (OK, "") if a == b else (BAD, "%s: %s and %s differ" % (e.what, a, b))
    if t == "intreq":
        if kind(e.node) in ("f", "c"):
            return BAD, "%s is a float" % e.what
        v = ev.ev(e.node)
        if e.what == "range() argument" or kind(e.node) == "?":
            return (OK, "") if kind(e.node) in ("i", "b") else (UNK, "")
        if num(v):
            neg_ok = e.what in ("size", "reshape size")
            return (OK, "") if v >= 0 or neg_ok else (BAD, "%s is negative (%s)" % (e.what, v))
        return (OK, "") if isreal(v) and lo(v) >= 0 else (UNK, "")
    if t == "reshape":
        s = ev.shp(e.base)
        q = [ev.ev(x) for x in e.shape]
        if s is None or not all(num(x) for x in q):
            return UNK, ""
        n, m, neg = ev.size(s), 1, 0
        for x in q:
            if x < 0:
                neg += 1
            else:
                m *= int(x)
        good = (n == m) if not neg else (neg == 1 and m and n % m == 0)
        return (OK, "") if good else (BAD, "%d values reshaped to %s" % (n, q))
    if t == "nonempty":
        s = ev.shp(e.base)
        if s is None:
            return UNK, ""
        return (OK, "") if ev.size(s) else (BAD, "%s of an empty array" % e.what)
    if t == "toint":
        if rank(e.node):
            return UNK, ""
        v = ev.ev(e.node)
        if exact(v) and not isinstance(v, complex):
            return (BAD, "int() of %s" % v) if v != v or math.isinf(v) else (OK, "")
        if isinstance(v, Iv):
            return (OK, "") if not math.isinf(v.lo) and not math.isinf(v.hi) else (UNK, "")
        return UNK, ""
    if t == "mathdom":
        v = ev.ev(e.node)
        if not isreal(v):
            return UNK, ""
        if e.op == "sqrt":
            return (OK, "") if lo(v) >= 0 else ((BAD, "math.sqrt of %s" % show(v)) if hi(v) < 0 else (UNK, ""))
        if e.op in ("log", "log2", "log10"):
            return (OK, "") if lo(v) > 0 else ((BAD, "math.%s of %s" % (e.op, show(v))) if hi(v) <= 0 else (UNK, ""))
        if e.op in ("mceil", "mfloor", "toint"):
            if exact(v) and (v != v or math.isinf(v)):
                return BAD, "%s of %s" % (e.op, v)
        return OK, ""
    if t == "winlen":
        v = ev.ev(e.node)
        if not num(v):
            return UNK, ""
        return (OK, "") if v == int(v) and v >= 0 else (BAD, "window of %s points" % v)
    if t == "divreq":
        v = ev.ev(e.b)
        if not isreal(v):
            return UNK, ""
        if lo(v) > 0 or hi(v) < 0:
            return OK, ""
        if not (pyscalar(e.a) and pyscalar(e.b)):
            return None, "skip"
        return (BAD, "division by zero") if exact(v) and v == 0 else (UNK, "")
    if t == "powreq":
        if rank(e.b):
            return UNK, ""
        v = ev.ev(e.b)
        if not isreal(v):
            return UNK, ""
        return (OK, "") if lo(v) >= 0 else (
            (BAD, "integers raised to the negative integer power %s" % show(v)) if hi(v) < 0 else (UNK, ""))
    if t == "raise":
        return BAD, "%s is raised" % e.exc
    return UNK, ""


def path(e, ev):
    """True / False / None: the path condition in this partition."""
    res = True
    for c, p in parts.literals(e.pc):
        t = ev.truth(c)
        if t is None:
            res = None
        elif t != p:
            return False
    return res


CAP = 3000


def check(e, env):
    """('ok'|'bad'|'unk'|'dead'|'skip', message)"""
    ev = Evaluator(env)
    lids = list(e.loops)
    # interval pass
    usable = True
    for l in lids:
        b = bounds(ev, l)
        if b is None or not all(isreal(x) for x in b) or lo(b[2]) <= 0 <= hi(b[2]):
            usable = False
            if b is None:
                continue
            ev.bind(l, Iv(-INF, INF, "i"))
            continue
        a, z = (lo(b[0]), hi(b[1]) - 1) if lo(b[2]) > 0 else (lo(b[1]) + 1, hi(b[0]))
        if a > z:
            return "dead", ""
        ev.bind(l, a if a == z else Iv(a, z, "i"))
    p = path(e, ev)
    if p is False:
        return "dead", ""
    r, msg = decide(e, ev)
    if msg == "skip":
        return "skip", ""
    if r is OK:
        return "ok", ""
    if not lids:
        if r is BAD and p is True:
            return "bad", msg
        return "unk", msg
    if not usable:
        return "unk", msg
    # one iteration at a time
    n = [0]
    worst = ["ok", ""]

    def rec(k, evx):
        if n[0] > CAP:
            worst[:] = ["unk", "too many iterations"]
            return True
        if k == len(lids):
            n[0] += 1
            p = path(e, evx)
            if p is False:
                return False
            r, msg = decide(e, evx)
            if msg == "skip" or r is OK:
                return False
            if r is BAD and p is True:
                worst[:] = ["bad", msg]
                return True
            worst[:] = ["unk", msg]
            return False
        q = trips(evx, lids[k])
        if q is None:
            worst[:] = ["unk", "iteration count"]
            return False
        for i in q:
            evx.bind(lids[k], i)
            if rec(k + 1, evx):
                return True
        evx.unbind(lids[k])
        return False
    ev = Evaluator(env)
    rec(0, ev)
    return worst[0], worst[1]


RULE = {"load": "index-in-range", "store": "index-in-range", "bcast": "shapes-agree", "eqreq": "shapes-agree",
        "reshape": "shapes-agree", "truthreq": "unambiguous-truth", "intreq": "integer-size", "winlen": "integer-size", "nonempty": "non-empty",
        "toint": "finite-to-int", "mathdom": "real-domain", "divreq": "nonzero-divisor", "raise": "no-failure",
        "powreq": "integer-power"}


TINY = {"anasing": 3, "klauder": 1, "gdpower": 2, "dopnoise": 1}


def klass(name, env, cfg=None):
    """Degenerate partitions that are reported apart from the ordinary ones."""
    if (cfg or {}).get("ts") == "yes" and entries.ENTRIES[name].family == "affine" and env.get("T") == 1:
        return "{len(timestamps)=1}"
    if name == "affine.smoothed_pseudo_wigner":
        return "{any}"
    if name == "gabor" and env.get("n_coeff") == env.get("N"):
        return "{n_coeff=len(signal)}"
    if env.get("n_points", 9) <= TINY.get(name, 0):
        return "{n_points=%d}" % env["n_points"]
    return ""


def job(ctx, r, envs):
    per = {}
    live = [env for env in envs if not rejected(r, Evaluator(env))]
    ctx.count("partitions", len(live))
    for e in r.events:
        if e.type not in TYPES or (e.type == "raise" and e.explicit):
            continue
        if parts.contradictory(parts.literals(e.pc)):
            continue
        done = set()
        for env in live:
            kl = klass(r.entry.name, env, r.cfg)
            k = (RULE[e.type], e.loc.file, e.loc.func, e.loc.line, kl)
            if kl in done or per.get(k, ("",))[0] == "bad":
                continue
            try:
                s, msg = check(e, env)
            except (RecursionError, OverflowError, ValueError, ArithmeticError, TypeError, IndexError):
                s, msg = "unk", "not evaluated"
            if s in ("skip", "dead"):
                continue
            ctx.count("operations evaluated")
            old = per.get(k, ("ok", "", None))
            if s == "bad" or (s == "unk" and old[0] == "ok") or k not in per:
                per[k] = (s, msg, env, e)
            if s == "bad" or s == "unk":
                done.add(kl)
    for k, v in per.items():
        st = {"ok": "proved", "bad": "refuted", "unk": "unknown"}[v[0]]
        sub = r.entry.name + k[4] + r.label[len(r.entry.name):]
        if st == "refuted" and k[4]:
            ctx.add("completes", sub, st, where(r.entry), "%s (%s, %s)" % (v[1], k[0], v[3].loc), parts.show(v[2], r))
        elif st == "refuted":
            ctx.add(k[0], sub, st, v[3].loc, "%s in a documented call of %s" % (v[1], r.label), parts.show(v[2], r))
        else:
            ctx.add(k[0], sub, st, v[3].loc, v[1])


def finite(ctx, r, envs):
    """No result sample is NaN or infinite, whatever the data."""
    o = outs(r.ret)
    if not o:
        return
    seen = {}
    for env in envs:
        if rejected(r, Evaluator(env)) or env.get("n_points", env.get("N", 1)) > 17:
            continue
        forms.reset()
        ev = forms.Forms(sig_env(env))
        kl = klass(r.entry.name, env, r.cfg)
        for k, v in enumerate(o):
            for x in select(v, ev):
                try:
                    n = ctx.I.num(x, r.st)
                except IN.Giveup:
                    continue
                s = ev.shp(n) if rank(n) else ()
                if s is None or ev.size(s) > 600 or seen.get((kl, k), ("",))[0] == "refuted":
                    continue
                for ix in itertools.product(*[range(m) for m in s]):
                    w = ev.el(n, ix)
                    if w is forms.U:
                        if seen.get((kl, k), ("proved",))[0] == "proved":
                            seen[kl, k] = ("unknown", env, ix, None)
                        break
                    if not exact(w):
                        continue               # a finite combination of the samples
                    z = complex(w)
                    if z != z or cmath.isinf(z):
                        seen[kl, k] = ("refuted" if len(select(v, ev)) == 1 else "unknown", env, ix, w)
                        break
                else:
                    seen.setdefault((kl, k), ("proved", env, (), None))
    for (kl, k), (st, env, ix, w) in seen.items():
        sub = r.entry.name + kl + r.label[len(r.entry.name):] + "#%d" % k
        ctx.add("finite-result", sub, st, where(r.entry), "sample %s of result %d is %s" % (list(ix), k, w)
                if st == "refuted" else "", parts.show(env, r) if st == "refuted" else None)


def large(r, es):
    """Larger sizes, where rounding of a computed step may lose an entry."""
    if r.entry.family == "gen" and es and "n_points" in es[0]:
        return [dict(es[0], n_points=n) for n in (40, 100, 104, 122, 129, 246)]
    if r.entry.family == "affine" and r.cfg.get("band") == "yes":
        return [dict(es[0], N=n, T=n, n_fbins=n, timestamps=list(range(n)), t=list(range(n)), fmin=lo_, fmax=hi_)
                for n, lo_, hi_ in ((33, 0.1, 0.4), (49, 0.05, 0.3), (64, 0.2, 0.45), (107, 0.1, 0.3))]
    return []


def c21(ctx):
    jobs = []
    plots = [ctx.run(n, e.configs[0], ("init", "run", "plot"), kw) for n, e in entries.ENTRIES.items()
             if e.cls and e.family != "reject" for kw in entries.PLOTKW[1:]
             if not (n == "Spectrogram" and "sqmod" in kw)]        # sqmod is not one of its options
    for r in list(ctx.runs(phases=("init", "run", "plot"))) + plots:
        if r.error:
            ctx.add("completes", r.label, "unknown", where(r.entry), r.error)
            continue
        es = parts.envs(r.entry, r.cfg, "quick" if ctx.tier == "quick" else "thorough")
        if r.entry.name == "WignerVilleDistribution":
            # the instants label the samples, one each
            es = [x for x in es if x.get("T") == x.get("N")]
        lim = 16 if ctx.tier == "quick" else 60
        if len(es) > lim:
            st = len(es) / float(lim)
            es = [es[int(i * st)] for i in range(lim)]
        es = es + large(r, es)
        jobs.append((r, es))
    def both(j):
        job(ctx, *j)
        if (j[0].entry.family in ("gen", "util") or j[0].entry.name == "derive_window") and not j[0].ended and j[0].ret is not None:
            finite(ctx, *j)
    pmap(ctx, both, jobs)

"""Effect, alias, state and name-resolution properties (C01-C05, C20)."""
from . import interp as IN, entries, nodes
from .nodes import Node, reach
from .graph import iso, full_overwrite
from .peval import TooBig
from .interp import Ref, Choice, PyTuple, PyList, PyDict, MaybeUnb, Inst

STOCHASTIC = {"anaask", "anabpsk", "anafsk", "anaqpsk", "noisecu", "noisecg", "dopnoise"}
HIST = ("init", "run", "plot", "run")


def leaves(v):
    """Python-level components of a returned value."""
    if isinstance(v, PyTuple):
        for x in v.items:
            for y in leaves(x):
                yield y
    elif isinstance(v, Choice):
        for x in (v.a, v.b):
            for y in leaves(x):
                yield y
    elif isinstance(v, MaybeUnb):
        for y in leaves(v.value):
            yield y
    else:
        yield v


def outputs(v):
    """Positional outputs of a returned value (list of lists of alternatives)."""
    if isinstance(v, MaybeUnb):
        return outputs(v.value)
    if isinstance(v, PyTuple):
        return [list(leaves(x)) for x in v.items]
    if isinstance(v, Choice):
        a, b = outputs(v.a), outputs(v.b)
        if len(a) == len(b):
            return [x + y for x, y in zip(a, b)]
        return a + b
    return [list(leaves(v))]


# ------------------------------------------------------------------- C01
# outputs that hand an axis argument back by design
PASSTHROUGH = {"timestamps", "t", "lag"}


def c01(ctx):
    for r in ctx.runs(phases=HIST):
        if r.error and not r.events:
            continue
        seen = set()
        for e in r.events:
            if e.type != "mutate":
                continue
            hit = [r.input_regions[x] for x in e.regions if x in r.input_regions]
            if hit:
                seen.update(hit)
                ctx.add("argument-mutation", r.label, "refuted", e.loc,
                        "in-place modification (%s) reaches the caller's argument %s" % (
                            e.how, ", ".join(sorted(hit))))
            else:
                ctx.add("argument-mutation", r.label, "proved", e.loc)
        if r.error:
            ctx.add("analysis", r.label, "unknown", None, r.error)
            continue
        for nm in r.input_regions.values():
            if nm not in seen:
                ctx.add("argument-unmodified", r.label + ":" + nm, "proved")
        # results do not share memory with the arguments
        rets = []
        for ph, (v, snap, st) in r.phases.items():
            if v is not None and ph.startswith(("run", "call")):
                rets.append((ph, v))
        for ph, v in rets:
            for k, alts in enumerate(outputs(v)):
                for x in alts:
                    hit = {r.input_regions[q] for q in ctx.I.base_regions(x) if q in r.input_regions}
                    hit -= PASSTHROUGH
                    if r.entry.family == "util" or not isinstance(x, Ref):
                        hit = hit if r.entry.family != "util" else set()
                    if hit:
                        ctx.add("result-aliases-argument", r.label, "refuted",
                                IN.Loc(r.entry.module.replace(".", "/") + ".py", r.entry.attr, 0),
                                "output %d of %s shares memory with argument %s" % (
                                    k, ph, ", ".join(sorted(hit))))
                    else:
                        ctx.add("result-aliases-argument", r.label, "proved")


# ------------------------------------------------------------------- C02
def flat(v, out, tag=""):
    """Flatten a snapshot value to comparable leaves."""
    out.append(v)


def same_value(I, a, sa, b, sb):
    """Same binding and same content in two states: True / False / None (unknown)."""
    if isinstance(a, MaybeUnb) or isinstance(b, MaybeUnb):
        a = a.value if isinstance(a, MaybeUnb) else a
        b = b.value if isinstance(b, MaybeUnb) else b
    if isinstance(a, Choice) and isinstance(b, Choice) and a.cond is b.cond:
        x = same_value(I, a.a, sa, b.a, sb)
        y = same_value(I, a.b, sa, b.b, sb)
        if x is False or y is False:
            return False
        return True if (x and y) else None
    if isinstance(a, Ref) and isinstance(b, Ref):
        try:
            na, nb = I.num(a, sa), I.num(b, sb)
        except IN.Giveup:
            return None
        if na is nb:
            return True
        return iso(na, nb)
    if isinstance(a, Node) and isinstance(b, Node):
        return a is b or iso(a, b)
    if I.same_val(a, b):
        return True
    if isinstance(a, Choice) or isinstance(b, Choice):
        try:
            na, nb = I.num(a, sa), I.num(b, sb)
        except IN.Giveup:
            return None
        return True if (na is nb or iso(na, nb)) else False
    if type(a) is not type(b):
        return False
    return None


FAILING = [{"~fails": True}, {"~fails": True, "kind": "contour"}]


def c02(ctx):
    n = 0
    for name, e in entries.ENTRIES.items():
        if not e.cls:
            continue
        for cfg in e.configs:
            for kw in entries.PLOTKW + FAILING:
                if kw and cfg is not e.configs[0] and cfg is not e.configs[-1] and ctx.tier == "quick":
                    continue
                r = ctx.run(name, cfg, ("init", "run", "plot"), kw)
                if r.error or "plot" not in r.phases:
                    if r.ended and "run" in r.phases:
                        ctx.add("plot-total", r.label, "unknown", r.ended[1],
                                "plot(%s) ends with %s" % (kw, r.ended[0]))
                    if "~fails" in kw:
                        ctx.add("plot-attribute", r.label, "unknown")
                        continue
                    check_plot_events(ctx, r, kw)
                    continue
                n += 1
                check_plot_events(ctx, r, kw)
                _, s1, st1 = r.phases["run"]
                _, s2, st2 = r.phases["plot"]
                for a in sorted(set(s1) | set(s2)):
                    if a.startswith("_"):
                        continue
                    if a not in s1:
                        ctx.add("plot-attribute", r.label, "refuted", where(e),
                                "plot(%s) adds public attribute %s" % (fmt(kw), a))
                        continue
                    if a not in s2:
                        ctx.add("plot-attribute", r.label, "refuted", where(e),
                                "plot(%s) deletes attribute %s" % (fmt(kw), a))
                        continue
                    same = same_value(ctx.I, s1[a], st1, s2[a], st2)
                    if same is True:
                        ctx.add("plot-attribute", r.label + "." + a, "proved")
                    elif same is False:
                        ctx.add("plot-attribute", r.label, "refuted", plot_loc(r, a) or where(e),
                                "plot(%s) leaves attribute %s different from what run() computed%s" % (
                                    fmt(kw), a, " when the drawing fails" if "~fails" in kw else ""))
                    else:
                        ctx.add("plot-attribute", r.label + "." + a, "unknown")
    # plotifl only draws
    for r in ctx.runs(names={"plotifl"}):
        check_plot_events(ctx, r, {})


def fmt(kw):
    return ", ".join("%s=%r" % x for x in sorted(kw.items()) if x[0][0] != "~")


def where(e):
    return IN.Loc(e.module.replace(".", "/") + ".py", e.attr, 0)


def plot_loc(r, a):
    for e in r.events:
        if e.type == "attrwrite" and e.epoch == 2 and e.name == a:
            return e.loc
    return None


def check_plot_events(ctx, r, kw):
    ep = 2 if r.entry.cls else 0
    for e in r.events:
        if e.epoch != ep or e.type != "mutate":
            continue
        old = [x for x in e.regions if ctx.I.regions.get(x, {}).get("epoch", 0) < ep and
               ctx.I.regions.get(x, {}).get("epoch", 0) >= 0]
        if not r.entry.cls:
            old = [x for x in e.regions if x in r.input_regions]
        if old:
            ctx.add("plot-mutation", r.label, "refuted", e.loc,
                    "plot(%s) modifies in place (%s) an array that existed before plotting" % (
                        fmt(kw), e.how))
        else:
            ctx.add("plot-mutation", r.label, "proved", e.loc)


# ------------------------------------------------------------------- C03
def c03(ctx):
    hists = [("init", "run", "run"), HIST]
    for name, e in entries.ENTRIES.items():
        if not e.cls:
            continue
        for cfg in e.configs:
            for h in hists:
                r = ctx.run(name, cfg, h)
                if r.error or "run" not in r.phases:
                    continue
                last = "run%d" % (len(h) - 1)
                # arrays handed out by the first run stay untouched
                v1, s1, st1 = r.phases["run"]
                rep = {x for x in ctx.I.base_regions(v1)}
                ep = h.index("run", 2)
                bad = False
                for ev in r.events:
                    if ev.type == "mutate" and ev.epoch >= ep and (set(ev.regions) & rep):
                        bad = True
                        ctx.add("earlier-result-overwritten", r.label, "refuted", ev.loc,
                                "a later run() modifies in place (%s) the array returned by the "
                                "earlier run()" % ev.how)
                if not bad:
                    ctx.add("earlier-result-overwritten", r.label, "proved")
                if last not in r.phases:
                    if r.ended and ep == r_epoch(r):
                        ctx.add("run-repeatable", r.label, "refuted", r.ended[1],
                                "history %s: the repeated run() raises %s" % ("/".join(h), r.ended[0]))
                    continue
                v2, s2, st2 = r.phases[last]
                o1, o2 = outputs(v1), outputs(v2)
                if len(o1) != len(o2):
                    ctx.add("run-repeatable", r.label, "refuted", where(e),
                            "history %s: number of outputs changes" % "/".join(h))
                    continue
                for k, (a, b) in enumerate(zip(comp(v1), comp(v2))):
                    try:
                        na, nb = ctx.I.num(a, st1), ctx.I.num(b, st2)
                    except IN.Giveup:
                        ctx.add("run-repeatable", r.label, "unknown")
                        continue
                    if na is nb or iso(na, nb, norm=full_overwrite):
                        ctx.add("run-repeatable", "%s#%d" % (r.label, k), "proved")
                        continue
                    src = feedback(na, nb)
                    if src is not None:
                        ctx.add("run-repeatable", r.label, "refuted", src_loc(r, ep) or where(e),
                                "history %s: output %d of the repeated run() is computed from the "
                                "output of the earlier run()" % ("/".join(h), k))
                    else:
                        st_, msg, wit = differ(r, na, nb)
                        ctx.add("run-repeatable", "%s#%d" % (r.label, k), st_, src_loc(r, ep) or where(e),
                                "history %s: %s of output %d changes with the repeated run()" % (
                                    "/".join(h), msg, k) if msg else "", wit)


def differ(r, na, nb):
    """Two terms that are not syntactically alike: compare selected elements on small partitions."""
    from . import forms, parts
    from .p_defs import penvs
    from .p_affine import aenvs
    import itertools
    status = "proved"
    seen = 0
    es = (aenvs if r.entry.family == "affine" else penvs)(r.entry, r.cfg, "quick")
    es = sorted(es, key=lambda e: e.get("N", 0))
    es = [e for e in es if e.get("N", 0) >= 3][:40:8]
    for env in es[:3]:
        forms.reset()
        F = forms.Forms({k: v for k, v in env.items() if not callable(v)})
        try:
            sa, sb = F.shp(na), F.shp(nb)
            if sa is None or sb is None:
                return "unknown", "", None
            if sa != sb:
                return "refuted", "the shape", parts.show(env)
            for ix in itertools.product(*[sorted({0, n // 2, n - 1}) if n else () for n in sa]):
                q = forms.same(F.el(na, ix), F.el(nb, ix))
                seen += 1
                if q is False:
                    return "refuted", "cell %s" % list(ix), parts.show(env)
                if q is None:
                    status = "unknown"
        except (IN.Giveup, forms.Blowup, RecursionError, ArithmeticError, ValueError):
            status = "unknown"
    return "unknown", "", None          # equal on the sampled cells only


def r_epoch(r):
    return max([e.epoch for e in r.events] or [0])


def comp(v):
    if isinstance(v, MaybeUnb):
        return comp(v.value)
    return v.items if isinstance(v, PyTuple) else [v]


def src_loc(r, ep):
    for e in r.events:
        if e.type == "store" and e.epoch == ep:
            return e.loc
    return None


def feedback(na, nb):
    """Is a computed intermediate/final result of run 1 an input of run 2's value?"""
    r1 = {x.id for x in reach([na]).values()}
    heavy = {"fft", "ifft", "abs", "real", "setitem", "mul", "div", "pow"}
    if na.op in ("zeros", "const", "param", "arr", "arange"):
        return None
    for x in reach([nb]).values():
        if x is na:
            return na
    return None


# ------------------------------------------------------------------- C04
GLOBAL_RNG = ("numpy.random.",)
BADRNG = {"seed", "set_state", "default_rng", "RandomState", "Generator", "SeedSequence", "PCG64",
          "MT19937", "bytes"}
AMBIENT = ("time.", "datetime.", "os.", "uuid.", "secrets.", "random.", "builtins.id",
           "builtins.hash", "builtins.input", "builtins.open", "socket.", "platform.", "getpass.",
           "threading.", "multiprocessing.", "subprocess.", "tempfile.", "sys.")


def c04(ctx):
    for r in ctx.runs(phases=HIST):
        if r.error and not r.events:
            continue
        sto = r.entry.name in STOCHASTIC
        drew = False
        for e in r.events:
            if e.type == "rng":
                short = e.name.split(".")[-1]
                drew = True
                if not sto:
                    ctx.add("unexpected-randomness", r.label, "refuted", e.loc,
                            "%s is drawn by an entry documented as deterministic" % e.name)
                elif not e.name.startswith("numpy.random.") or short in BADRNG:
                    ctx.add("generator-not-seedable", r.label, "refuted", e.loc,
                            "%s does not follow numpy's global seed" % e.name)
                else:
                    ctx.add("global-generator", r.label, "proved", e.loc)
            elif e.type == "extcall" and e.name.startswith(AMBIENT):
                ctx.add("ambient-input", r.label, "refuted", e.loc,
                        "%s makes the result depend on something other than the arguments" % e.name)
        if r.error or r.ret is None:
            continue
        # uninitialised memory must not reach the result
        roots = []
        for x in leaves(r.ret):
            try:
                roots.append(ctx.I.num(x, r.st))
            except IN.Giveup:
                pass
        ops = {}
        for x in reach(roots).values():
            ops.setdefault(x.op, x)
        if sto:
            if "rand" in ops or "randscalar" in ops:
                ctx.add("noise-reaches-result", r.label, "proved")
            else:
                ctx.add("noise-reaches-result", r.label, "refuted" if not drew else "unknown",
                        where(r.entry), "no draw from numpy's generator reaches the result")
        else:
            if "rand" in ops:
                ctx.add("deterministic-result", r.label, "refuted", where(r.entry),
                        "a random draw reaches the result")
            else:
                ctx.add("deterministic-result", r.label, "proved")
        if "empty" in ops:
            ctx.add("uninitialised", r.label, *empty_status(ctx, r, roots, ops["empty"]))
        else:
            ctx.add("uninitialised", r.label, "proved")


def empty_status(ctx, r, roots, n):
    """np.empty reaches the result: decide whether any element depends on the
    uninitialised cells (kept as indeterminates of their own)."""
    from . import forms, parts
    verdict = "proved"
    es = [e for e in parts.envs(r.entry, r.cfg, "tiny")]
    es = sorted(es, key=lambda e: (e.get("N", 0), e.get("n_points", 0)))[:24]
    for env in es:
        forms.reset()
        F = forms.Forms({k: v for k, v in env.items() if not callable(v)})
        for x in roots:
            try:
                shape = F.shp(x)
                if shape is None or F.size(shape) > 200:
                    verdict = "unknown"
                    continue
                for idx in parts.indices(shape):
                    v = F.el(x, idx)
                    if v is forms.U:
                        verdict = "unknown"
                        continue
                    d = forms.depends(forms.P(v), "uninit~")
                    if d:
                        return ("refuted", where(r.entry),
                                "cell %s of a result depends on uninitialised memory" % (idx,),
                                parts.show(env, r))
                    if d is None:
                        verdict = "unknown"
            except (IN.Giveup, forms.Blowup, RecursionError, ArithmeticError, ValueError, TooBig):
                verdict = "unknown"
    return (verdict,)


# ------------------------------------------------------------------- C05
PLOTTING = ("matplotlib", "mpl_toolkits")
SIDE = ("builtins.print", "builtins.open", "builtins.exec", "builtins.eval", "builtins.input", "os.",
        "sys.", "warnings.simplefilter", "warnings.filterwarnings", "warnings.resetwarnings",
        "subprocess.", "logging.", "builtins.setattr", "atexit.", "signal.", "gc.", "locale.",
        "builtins.exit", "builtins.quit")
CACHES = ("lru_cache", "cache", "memoize", "cached", "cached_property", "functools.lru_cache")


def c05(ctx):
    for m, e in ctx.load_events:
        if e.type == "decorator":
            short = e.name.split(".")[-1] if e.name else "?"
            if short in CACHES:
                ctx.add("result-cache", e.func, "refuted", e.loc,
                        "@%s hands the same mutable result object to every caller" % e.name)
            else:
                ctx.add("result-cache", e.func, "proved")
        elif e.type == "globalwrite":
            ctx.add("ambient-effect", m, "refuted", e.loc,
                    "importing %s changes process-wide state (%s)" % (m, e.name))
        elif e.type == "rng":
            ctx.add("ambient-effect", m, "refuted", e.loc,
                    "importing %s uses the random generator (%s)" % (m, e.name))
        elif e.type == "extcall" and e.name.startswith(SIDE):
            ctx.add("ambient-effect", m, "refuted", e.loc, "importing %s calls %s" % (m, e.name))
    for m in ctx.I.modules:
        ctx.add("ambient-effect", "import " + m, "proved")
    for r in ctx.runs(phases=HIST):
        if r.error and not r.events:
            continue
        ok = True
        for e in r.events:
            if e.type == "globalwrite":
                ok = False
                ctx.add("hidden-state", r.label, "refuted", e.loc,
                        "writes state shared between calls: %s.%s" % (e.module, e.name))
            elif e.type == "mutate":
                pers = [x for x in e.regions if ctx.I.regions.get(x, {}).get("epoch", 0) < 0]
                if pers:
                    ok = False
                    ctx.add("hidden-state", r.label, "refuted", e.loc,
                            "modifies in place (%s) an object that outlives the call (module level, "
                            "class level or default argument)" % e.how)
            elif e.type == "decorator" and e.name and e.name.split(".")[-1] in CACHES:
                ok = False
                ctx.add("result-cache", r.label, "refuted", e.loc, "@%s inside the call" % e.name)
            elif e.type == "extcall" and e.name.startswith(SIDE):
                ok = False
                ctx.add("ambient-effect", r.label, "refuted", e.loc, "calls %s" % e.name)
            elif e.type == "extcall" and e.name.startswith(PLOTTING) and not (
                    r.entry.family == "plot" or (r.entry.cls and e.epoch == 2)):
                ok = False
                ctx.add("ambient-effect", r.label, "refuted", e.loc,
                        "a computation draws with %s" % e.name)
        if r.error:
            continue
        for ph, (v, snap, st) in r.phases.items():
            vs = list(leaves(v)) if v is not None else []
            if snap:
                vs += [x for q in snap.values() for x in leaves(q)]
            for x in vs:
                pers = [q for q in ctx.I.base_regions(x)
                        if ctx.I.regions.get(q, {}).get("epoch", 0) < 0]
                if pers:
                    ok = False
                    ctx.add("shared-result", r.label, "refuted", where(r.entry),
                            "%s hands out an object shared between calls" % ph)
        if ok:
            ctx.add("hidden-state", r.label, "proved")


# ------------------------------------------------------------------- C20
def c20(ctx):
    from . import parts
    for m, e in ctx.load_events:
        if e.type == "unresolved":
            ctx.add("unresolved-name", m, "refuted", e.loc, "%s %s does not exist" % (e.what, e.name))
        elif e.type == "import":
            ctx.add("unresolved-name", m, "proved")
    todo = []
    for r in ctx.runs(phases=HIST):
        todo.append((r, {}))
    for name, e in entries.ENTRIES.items():
        if e.cls:
            for kw in entries.PLOTKW[1:]:
                todo.append((ctx.run(name, e.configs[0], HIST, kw), kw))
    for r, kw in todo:
        if r.error and not r.events:
            if getattr(r, "missing", False):
                ctx.add("unresolved-name", r.label, "refuted", where(r.entry), r.error)
            continue
        bad = False
        for e in r.events:
            if e.type == "unresolved":
                msg = "%s %s does not exist" % (e.what, e.name)
            elif e.type == "unbound":
                msg = "%s may be used before it is assigned" % e.name
            elif e.type == "typeerr":
                msg = e.msg
            elif e.type == "keyerr":
                msg = "key %r does not exist" % (e.key,)
            else:
                continue
            if e.type == "unbound" and not e.definite:
                s, w = parts.unbound_feasible(r, e)
            else:
                s, w = parts.feasible(r, e.pc)
            bad = True
            ctx.add("unresolved-name" if e.type != "typeerr" else "call-signature", r.label, s,
                    e.loc, msg, w)
        if not bad:
            ctx.add("unresolved-name", r.label, "proved")

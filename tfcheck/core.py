"""Shared driver: runs the entry contracts, collects obligations, applies the
known-findings file, writes the evidence file and prints the verdict."""
import json
import os
import sys
import time

from . import nodes, interp, entries

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TFCHECK_REPO", "/repo")


class Obl(object):
    """One proof obligation: status is 'proved', 'refuted' or 'unknown'."""
    __slots__ = ("rule", "subject", "status", "loc", "msg", "witness")

    def __init__(self, rule, subject, status, loc=None, msg="", witness=None):
        self.rule, self.subject, self.status = rule, subject, status
        self.loc, self.msg, self.witness = loc, msg, witness

    def key(self):
        where = self.loc.key() if hasattr(self.loc, "key") else (self.loc or "")
        return "%s|%s|%s" % (self.rule, self.subject.split("[")[0], where)


class Ctx(object):
    def __init__(self, tier="quick"):
        self.tier = tier
        sys.setrecursionlimit(50000)
        nodes.reset()
        self.I = interp.Interp(interp.Loader(REPO))
        self.cache = {}
        self.inconclusive = []
        self.obls = []
        self.functions = set()
        self.counts = {}
        self.load_events = []
        for m in self.package_modules():
            self.I.events = []
            try:
                self.I.module(m)
            except interp.Giveup as e:
                self.inconclusive.append("module %s: %s" % (m, e))
            except interp.PathEnd as e:
                self.add("import", m, "refuted", e.loc, "importing %s raises %s" % (m, e.exc))
            self.load_events += [(m, e) for e in self.I.events]
        self.I.events = []

    def package_modules(self):
        out = []
        base = os.path.join(REPO, "tftb")
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in ("tests", "__pycache__"))
            rel = os.path.relpath(d, REPO).replace(os.sep, ".")
            for f in sorted(fs):
                if f == "__init__.py":
                    out.append(rel)
                elif f.endswith(".py"):
                    out.append(rel + "." + f[:-3])
        return sorted(out)

    # ---------------------------------------------------------------- running
    def run(self, name, cfg=None, phases=("init", "run"), plotkw=None):
        e = entries.ENTRIES[name]
        cfg = cfg if cfg is not None else e.configs[0]
        k = (name, entries.cfgname(cfg), tuple(phases), str(plotkw))
        if k not in self.cache:
            try:
                r = entries.call_entry(self.I, e, cfg, phases, plotkw)
            except RecursionError:
                r = entries.Run(e, cfg)
                r.error = "recursion limit"
            except Exception as x:          # analysis limitation, never a verdict
                if os.environ.get("TFCHECK_DEBUG"):
                    raise
                r = entries.Run(e, cfg)
                r.error = "analysis error: %s: %s" % (type(x).__name__, x)
            self.functions |= r.functions
            if r.error:
                self.inconclusive.append("%s: %s" % (r.label, r.error))
            self.cache[k] = r
        return self.cache[k]

    def runs(self, names=None, family=None, phases=("init", "run"), plotkw=None,
             reject=False):
        for n, e in entries.ENTRIES.items():
            if e.family == "reject" and not reject:
                continue
            if names is not None and n not in names:
                continue
            if family is not None and e.family not in family:
                continue
            for c in e.configs:
                yield self.run(n, c, phases if e.cls else (), plotkw if e.cls else None)

    # ------------------------------------------------------------ obligations
    def add(self, rule, subject, status, loc=None, msg="", witness=None):
        self.obls.append(Obl(rule, subject, status, loc, msg, witness))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n


def known():
    p = os.path.join(VERIF, "known_findings.json")
    try:
        with open(p) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"findings": [], "fixed": []}


def finish(prop, ctx, floor, rule_text, assumptions, t0):
    """Write the evidence file and return the exit status."""
    st = {"proved": 0, "refuted": 0, "unknown": 0}
    rules = {}
    for o in ctx.obls:
        st[o.status] += 1
        r = rules.setdefault(o.rule, {"proved": 0, "refuted": 0, "unknown": 0})
        r[o.status] += 1
    kf = [f for f in known().get("findings", []) if f["property"] == prop]
    kkeys = {f["key"]: f for f in kf}
    hit, new = {}, {}
    for o in ctx.obls:
        if o.status != "refuted":
            continue
        k = o.key()
        if k in kkeys:
            hit.setdefault(k, o)
        else:
            new.setdefault(k, o)
    rep = {"property": prop, "violations": [
        {"rule": o.rule, "subject": o.subject, "where": str(o.loc), "message": o.msg,
         "witness": o.witness, "key": k} for k, o in new.items()]}
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    rp = os.path.join(edir, "%s.violations.json" % prop)
    with open(rp, "w") as f:
        json.dump(rep, f, indent=1, default=str)
        f.write("\n")
    total = len(ctx.obls)
    cov = {
        "explanation": rule_text,
        "obligations": total, "proved": st["proved"], "refuted": st["refuted"],
        "undecided": st["unknown"], "known_findings_matched": len(hit),
        "functions_analysed": len(ctx.functions),
        "functions": sorted(ctx.functions),
        "entry_configurations": len(ctx.cache),
        "abstract_calls": ctx.I.n_calls,
        "value_graph_terms": nodes.Node._count,
        "rules": rules,
        "counts": ctx.counts,
        "inconclusive": sorted(set(ctx.inconclusive))[:60],
    }
    ev = {"property": prop, "tier": ctx.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": "other", "coverage": cov, "wall_s": round(time.time() - t0, 3),
          "assumptions": assumptions,
          "violations": [{"key": k, "where": str(o.loc), "message": o.msg} for k, o in new.items()]}
    with open(os.path.join(edir, "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    print("%s: %d obligations over %d entry configurations, %d functions: %d proved, "
          "%d undecided, %d refuted (%d known)" % (
              prop, total, len(ctx.cache), len(ctx.functions), st["proved"], st["unknown"],
              st["refuted"], len(hit)))
    for k, o in sorted(hit.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, kkeys[k].get("what", k)))
    if new:
        for k, o in new.items():
            print("  %s: %s: %s [%s] %s" % (o.rule, o.loc, o.msg, o.subject,
                                          ("witness %s" % (o.witness,)) if o.witness else ""))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if not total:
        print("ERROR: no obligation was generated: the anchors of this check have moved")
        return 2
    if not st["proved"]:
        # no construct violates the rule, none could be shown to satisfy it either
        print("INCONCLUSIVE: none of the %d obligations could be decided" % total)
        return 0
    if total < floor:
        print("ERROR: only %d obligations were generated (at least %d expected): the anchors of "
              "this check have moved" % (total, floor))
        return 2
    return 0


_JOB = {}


def _work(i):
    ctx, fn, jobs = _JOB["v"]
    sys.setrecursionlimit(50000)
    ctx.obls, ctx.counts = [], {}
    try:
        fn(jobs[i])
    except Exception as x:              # analysis limitation, never a verdict
        if os.environ.get("TFCHECK_DEBUG"):
            raise
        ctx.obls.append(Obl("analysis", str(i), "unknown", None, "%s: %s" % (type(x).__name__, x)))
    return [(o.rule, o.subject, o.status, o.loc, o.msg, o.witness) for o in ctx.obls], ctx.counts


def pmap(ctx, fn, jobs):
    """Evaluate fn(job) (which calls ctx.add / ctx.count) over forked workers.

    The value graph is shared copy-on-write; results come back in job order, so
    the verdict does not depend on scheduling."""
    import multiprocessing
    import threading
    jobs = list(jobs)
    obls, counts = ctx.obls, ctx.counts
    n = min(8, os.cpu_count() or 1, len(jobs))
    if n <= 1 or os.environ.get("TFCHECK_SERIAL"):
        for j in jobs:
            fn(j)
        return
    _JOB["v"] = (ctx, fn, jobs)
    threading.stack_size(0)
    with multiprocessing.get_context("fork").Pool(n) as pool:
        res = pool.map(_work, range(len(jobs)), chunksize=1)
    ctx.obls, ctx.counts = obls, counts
    for os_, cs in res:
        for o in os_:
            ctx.obls.append(Obl(*o))
        for k, v in cs.items():
            ctx.count(k, v)

"""C39: no argument is silently ignored.

Dependence analysis over the value graph: the result of a call (or what it
raises on) must be reachable from every argument it was given.  Reachability
over-approximates influence, so an argument out of reach is certainly ignored."""
from . import nodes, interp as IN
from .p_effects import where
from .p_shapes import outs

# (entry, argument): accepted by a common constructor, without a meaning for this representation
NOT_MEANT = {(c, "fwindow") for c in ("WignerVilleDistribution", "PageRepresentation", "MargenauHillDistribution")}
NOT_MEANT |= {("friedman_density", "timestamps")}         # the histogram has one column per column


def leaf(ctx, r, v):
    try:
        n = ctx.I.num(v, r.st) if not isinstance(v, IN.Ref) else None
    except IN.Giveup:
        return None
    if isinstance(v, IN.Ref):
        nm = r.input_regions.get(getattr(v, "rid", None))
        return ("arr", nm) if nm else None
    if n.op in ("param", "arr"):
        return (n.op, n.args[0])
    return None


def result_roots(ctx, r):
    out = []

    def walk(v):
        if isinstance(v, IN.MaybeUnb):
            walk(v.value)
        elif isinstance(v, IN.Choice):
            out.append(v.cond)
            walk(v.a)
            walk(v.b)
        elif isinstance(v, (IN.PyTuple,)):
            for x in v.items:
                walk(x)
        else:
            out.append(ctx.I.num(v, r.st))
    walk(r.ret)
    return [x for x in out if isinstance(x, nodes.Node)]


def c39(ctx):
    for r in ctx.runs():
        if r.entry.name == "plotifl" or r.error or r.ret is None:
            continue
        try:
            rs = result_roots(ctx, r)
        except IN.Giveup:
            ctx.add("argument-used", r.label, "unknown")
            continue
        seen, opaque = set(), False
        for x in nodes.reach(rs).values():
            if x.op in ("arr", "param"):
                seen.add((x.op, x.args[0]))
            elif x.op == "ext" and (len(x.args) < 2 or not x.args[1]) and not str(x.args[0]).startswith("dtype"):
                opaque = True                               # its operands are not on record
        for name, v in r.inputs.items():
            k = leaf(ctx, r, v)
            if k is None or (r.entry.name, name) in NOT_MEANT:
                continue
            ctx.add("argument-used", "%s{%s}" % (r.entry.name, name), "proved" if k in seen else "unknown" if opaque else "refuted", where(r.entry),
                    "the result does not depend on argument %s" % name)

"""Comparison of value graphs up to renaming of loop/allocation identities."""
from .nodes import Node, MU, LV, mk


def iso(a, b, seen=None, norm=None):
    """Structural bisimulation of two terms (mu/loop/fresh ids are renamed)."""
    seen = {} if seen is None else seen
    stack = [(a, b)]
    while stack:
        x, y = stack.pop()
        if x is y:
            continue
        if isinstance(x, Node) != isinstance(y, Node):
            return False
        if not isinstance(x, Node):
            if isinstance(x, tuple) and isinstance(y, tuple):
                if len(x) != len(y):
                    return False
                stack.extend(zip(x, y))
                continue
            if isinstance(x, float) and isinstance(y, float) and x != x and y != y:
                continue
            if type(x) is not type(y) or x != y:
                return False
            continue
        if norm is not None:
            x, y = norm(x), norm(y)
            if x is y:
                continue
        k = (x.id, y.id)
        if k in seen:
            continue
        seen[k] = True
        if x.op != y.op:
            return False
        if x.op == "mu":
            mx, my = MU[x.args[0]], MU[y.args[0]]
            if (mx["init"] is None) != (my["init"] is None):
                return False
            if (mx["next"] is None) != (my["next"] is None):
                return False
            if mx["init"] is not None:
                stack.append((mx["init"], my["init"]))
            if mx["next"] is not None:
                stack.append((mx["next"], my["next"]))
            continue
        if x.op == "lv":
            lx, ly = LV.get(x.args[0], {}), LV.get(y.args[0], {})
            m = seen.setdefault(("lv", x.args[0]), y.args[0])
            if m != y.args[0]:
                return False
            if lx.get("bounds") and ly.get("bounds"):
                stack.append((tuple(lx["bounds"]), tuple(ly["bounds"])))
            continue
        if len(x.args) != len(y.args):
            return False
        if x.op in ("ext", "rand", "randscalar", "mutated", "vstore") and \
                isinstance(x.args[-1], int) and isinstance(y.args[-1], int):
            stack.extend(zip(x.args[:-1], y.args[:-1]))
            continue
        if x.op == "comp":
            m = seen.setdefault(("lv", x.args[0]), y.args[0])
            if m != y.args[0]:
                return False
            stack.extend(zip(x.args[1:], y.args[1:]))
            continue
        stack.extend(zip(x.args, y.args))
    return True


def full_overwrite(x):
    """setitem over complete slices discards the old content."""
    while isinstance(x, Node) and x.op == "setitem":
        items = x.args[1]
        if all(it == "ellipsis" or (isinstance(it, tuple) and it[:1] == ("slice",) and
               all(_none(z) for z in it[1:])) for it in items):
            from .nodes import dims, kind, rank
            d = dims(x.args[0])
            v = x.args[2]
            if d is not None and rank(v) == 0 and v.op == "const" and v.args[0] == 0:
                return mk("zeros", tuple(d), kind(x.args[0]))
        break
    if isinstance(x, Node) and x.op == "full" and x.args[1].op == "const" and x.args[1].args[0] == 0:
        return mk("zeros", x.args[0], x.args[2])
    return x


def _none(z):
    return z is None or (isinstance(z, Node) and z.op == "const" and z.args[0] is None)

"""Hash-consed term graph ("value graph") built by the abstract interpreter.

Every abstract value the interpreter computes is a term.  No term is ever
computed by executing code of the repository: terms are derived from the
syntax tree by the transfer functions in interp.py / npmodel.py.
"""
import math


class Node(object):
    __slots__ = ("op", "args", "id", "_rank", "_dims", "_kind", "_lvs", "loc")
    _table = {}
    _count = 0

    def __repr__(self):
        return show(self, 4)


_UNSET = object()


def reset():
    Node._table = {}
    Node._count = 0
    MU.clear()
    LV.clear()
    ARR.clear()
    PARAM.clear()
    FRESH[0] = 0


MU = {}      # mu id -> {"init": Node, "next": Node|None}
LV = {}      # loop id -> {"kind": "range"/"iter"/"while", ...}
ARR = {}     # array symbol -> {"dims": (Node,..), "kind": str}
PARAM = {}   # scalar symbol -> {"kind": str}
FRESH = [0]


def fresh():
    FRESH[0] += 1
    return FRESH[0]


def _key(a):
    if isinstance(a, Node):
        return ("n", a.id)
    if isinstance(a, tuple):
        return ("t",) + tuple(_key(x) for x in a)
    if isinstance(a, float) and a != a:
        return ("nan",)
    return (type(a).__name__, a if not (isinstance(a, float) and a == 0.0) else repr(a))


def mk(op, *args):
    k = (op,) + tuple(_key(a) for a in args)
    t = Node._table
    n = t.get(k)
    if n is None:
        n = Node()
        n.op = op
        n.args = args
        Node._count += 1
        n.id = Node._count
        n._rank = _UNSET
        n._dims = _UNSET
        n._kind = _UNSET
        n._lvs = _UNSET
        n.loc = None
        t[k] = n
    return n


def const(v):
    return mk("const", v)


def is_const(n, v=_UNSET):
    if not isinstance(n, Node) or n.op != "const":
        return False
    if v is _UNSET:
        return True
    c = n.args[0]
    return type(c) in (int, float, bool, complex) and c == v


def cval(n):
    return n.args[0]


def is_num_const(n):
    return isinstance(n, Node) and n.op == "const" and \
        type(n.args[0]) in (int, float, bool, complex)


def param(name, kind="f"):
    PARAM[name] = {"kind": kind}
    return mk("param", name)


def arr(name, kind, dims):
    ARR[name] = {"kind": kind, "dims": tuple(dims)}
    return mk("arr", name, kind, tuple(dims))


# ---------------------------------------------------------------- categories
BIN = {"add", "sub", "mul", "div", "floordiv", "mod", "pow",
       "lt", "le", "gt", "ge", "eq", "ne", "and_", "or_", "xor_",
       "lshift", "rshift", "maximum", "minimum", "arctan2", "hypot",
       "logical_and", "logical_or", "logical_xor", "fmod", "copysign",
       "floatpow", "heaviside", "logaddexp", "nextafter"}
CMP = {"lt", "le", "gt", "ge", "eq", "ne"}
LOGIC = {"logical_and", "logical_or", "logical_xor", "logical_not", "and_",
         "or_", "not", "land", "lor"}
UN = {"neg", "pos", "abs", "real", "imag", "conj", "angle", "exp", "log",
      "log2", "log10", "sqrt", "sin", "cos", "tan", "arcsin", "arccos",
      "arctan", "sinh", "cosh", "tanh", "floor", "ceil", "round", "trunc",
      "rint", "fix", "sign", "isnan", "isinf", "isfinite", "logical_not",
      "expm1", "log1p", "square", "spacing", "isreal", "invert", "sinc",
      "exp2", "cbrt", "reciprocal", "pyround", "toint", "tofloat",
      "tocomplex", "tobool", "mceil", "mfloor", "positive", "i0", "gamma",
      "lgamma", "rad2deg", "deg2rad", "nan_to_num", "iscomplex", "not",
      "arcsinh", "arccosh", "arctanh", "signbit", "stop"}
ELEM = BIN | UN | {"ite", "where", "clip", "roundn"}
RED = {"sum", "mean", "max", "min", "prod", "any", "all", "std", "var",
       "norm", "median", "ptp", "argmax", "argmin", "nansum", "nanmean",
       "nanmax", "nanmin", "count_nonzero", "trapezoid"}
SAMESHAPE1 = {"fftshift", "ifftshift", "cumsum", "cumprod", "hilbert", "flip",
              "roll", "sort", "argsort", "fftn", "detrend", "copy_",
              "asarr", "gradient", "unwrap", "setitem", "vstore", "mutated",
              "zeros_like_", "random_like", "last", "atbrk"}


def children(n):
    for a in n.args:
        if isinstance(a, Node):
            yield a
        elif isinstance(a, tuple):
            for x in _flat(a):
                yield x


def _flat(t):
    for a in t:
        if isinstance(a, Node):
            yield a
        elif isinstance(a, tuple):
            for x in _flat(a):
                yield x


def rank(n):
    """Number of dimensions of the value denoted by n (None: unknown)."""
    r = n._rank
    if r is _UNSET:
        n._rank = None       # cycles (mu): unknown while computing
        r = _rank(n)
        n._rank = r
    return r


def _maxrank(ns):
    m = 0
    for x in ns:
        r = rank(x)
        if r is None:
            return None
        m = max(m, r)
    return m


def _rank(n):
    d = dims(n)
    if d is not None:
        return len(d)
    op = n.op
    a = n.args
    if op in ELEM:
        return _maxrank([x for x in a if isinstance(x, Node)])
    if op == "mu":
        i = MU[a[0]]["init"]
        return rank(i) if isinstance(i, Node) else None
    if op in SAMESHAPE1:
        return rank(a[0])
    if op == "ext":
        return a[2] if len(a) > 2 and isinstance(a[2], int) else None
    if op == "getitem":
        rb = rank(a[0])
        return None if rb is None else getitem_rank(rb, a[1])
    if op in RED:
        r = rank(a[0])
        ax = a[1] if len(a) > 1 else None
        if ax is None:
            return 0
        return None if r is None else r - 1
    if op in ("mask1",):
        return 1
    return None


def getitem_rank(rb, idx):
    used = 0
    out = 0
    adv = []
    for it in idx:
        if it == "newaxis":
            out += 1
            continue
        if it == "ellipsis":
            return None
        if isinstance(it, tuple) and it and it[0] == "slice":
            used += 1
            out += 1
            continue
        r = rank(it)
        if r is None:
            return None
        if kind(it) == "b" and r > 0:
            used += r
            adv.append(1)
        else:
            used += 1
            adv.append(r)
    if adv:
        out += max(adv)
    return out + max(0, rb - used)


def dims(n):
    """Tuple of dimension terms, or None when the shape is not known."""
    d = n._dims
    if d is _UNSET:
        n._dims = None
        d = _dims(n)
        n._dims = d
    return d


def bdims(ds):
    """Broadcast a list of dim tuples."""
    if any(d is None for d in ds):
        return None
    m = max(len(d) for d in ds) if ds else 0
    out = []
    for k in range(m):
        cur = None
        for d in ds:
            j = k - (m - len(d))
            if j < 0:
                continue
            x = d[j]
            if cur is None or is_const(cur, 1):
                cur = x
            elif x is cur or is_const(x, 1):
                pass
            elif is_const(x) and not is_const(cur):
                cur = mk("bdim", cur, x)
            else:
                cur = mk("bdim", cur, x)
        out.append(cur)
    return tuple(out)


def scal(op, *args):
    """Build a scalar arithmetic term with constant folding."""
    from . import peval
    return peval.fold(op, *args)


def slicelen(d, sl):
    _, s, e, st = sl
    if s is None and e is None and (st is None or is_const(st, 1) or is_const(st, -1)):
        return d
    return mk("slicelen", d, s, e, st)


def _dims(n):
    op = n.op
    a = n.args
    if op == "const":
        return () if type(a[0]) in (int, float, complex, bool) else None
    if op in ("param", "lv", "len", "dim", "arangelen", "mudim", "slicelen", "bdim",
              "shapeprod", "randscalar", "rootof", "count", "nunique", "land", "lor",
              "contains", "is_", "allclose", "brk"):
        return ()
    if op == "arr":
        return a[2]
    if op == "ext" and a[0] in ("allclose", "array_equal"):
        return ()
    if op == "ite" and rank(a[0]) in (0, None):
        d1, d2 = dims(a[1]), dims(a[2])
        if d1 is not None and d2 is not None and len(d1) == len(d2):
            return tuple(x if x is y else mk("ite", a[0], x, y) for x, y in zip(d1, d2))
        return None
    if op in ELEM:
        return bdims([dims(x) for x in a if isinstance(x, Node)])
    if op == "astype":
        return dims(a[0])
    if op in SAMESHAPE1:
        return dims(a[0])
    if op == "mu":
        i = MU[a[0]]["init"]
        d = dims(i) if isinstance(i, Node) else None
        g = MU[a[0]].get("grow")
        if i is None and g:
            return tuple(mk("mudim", n, k) for k in sorted(g))
        if d is not None and g:
            d = tuple(mk("mudim", n, k) if k in g else x for k, x in enumerate(d))
        return d
    if op in ("zeros", "ones", "full", "empty", "rand"):
        return tuple(a[0])
    if op == "arange":
        return (mk("arangelen", a[0], a[1], a[2]),)
    if op in ("linspace", "logspace", "geomspace"):
        return (a[2],)
    if op == "histogram":
        from .peval import fold
        return (fold("sub", dims(a[1])[0], const(1)),)
    if op == "window":
        return (a[1],)
    if op in RED:
        d = dims(a[0])
        ax = a[1] if len(a) > 1 else None
        if ax is None:
            return ()
        if d is None or not isinstance(ax, int):
            return None
        k = ax if ax >= 0 else ax + len(d)
        if not 0 <= k < len(d):
            return None
        return d[:k] + d[k + 1:]
    if op in ("fft", "ifft"):
        d = dims(a[0])
        if d is None or not isinstance(a[2], int):
            return None
        k = a[2] if a[2] >= 0 else a[2] + len(d)
        if not 0 <= k < len(d):
            return None
        if a[1] is not None:
            return d[:k] + (a[1],) + d[k + 1:]
        return d
    if op == "T":
        d = dims(a[0])
        return None if d is None else tuple(reversed(d))
    if op == "ravel":
        d = dims(a[0])
        if d is None:
            return None
        if len(d) == 1:
            return d
        if len(d) == 0:
            return (const(1),)
        p = d[0]
        for x in d[1:]:
            p = scal("mul", p, x)
        return (p,)
    if op == "reshape":
        sh = a[1]
        if any(is_const(x, -1) for x in sh):
            d = dims(a[0])
            if d is None:
                return None
            p = const(1)
            for x in d:
                p = scal("mul", p, x)
            q = const(1)
            for x in sh:
                if not is_const(x, -1):
                    q = scal("mul", q, x)
            return tuple(scal("floordiv", p, q) if is_const(x, -1) else x
                         for x in sh)
        return tuple(sh)
    if op == "list":
        if not a[0]:
            return (const(0),)
        ds = [dims(x) for x in a[0]]
        if any(x is None for x in ds):
            return None
        return (const(len(a[0])),) + ds[0]
    if op == "comp":
        d = dims(a[2])
        return None if d is None else (a[1],) + d
    if op == "concat":
        # args: axis, tuple of parts
        ds = [dims(x) for x in a[1]]
        if any(x is None for x in ds) or not ds:
            return None
        r = max(len(x) for x in ds)
        if r == 0:
            return (const(len(ds)),)
        ds = [x if x else (const(1),) for x in ds]
        ax = a[0]
        if any(len(x) != r for x in ds):
            return None
        k = ax if ax >= 0 else ax + r
        if not 0 <= k < r:
            return None
        tot = ds[0][k]
        for x in ds[1:]:
            tot = scal("add", tot, x[k])
        return ds[0][:k] + (tot,) + ds[0][k + 1:]
    if op == "stack":
        ds = [dims(x) for x in a[1]]
        if any(x is None for x in ds) or not ds:
            return None
        ax = a[0] if a[0] >= 0 else a[0] + len(ds[0]) + 1
        return ds[0][:ax] + (const(len(ds)),) + ds[0][ax:]
    if op == "getitem":
        return _getitem_dims(a[0], a[1])
    if op in ("repeat",):
        # repeat(x, count, axis)
        d = dims(a[0])
        if d is None:
            return None
        if rank(a[1]) not in (0, None):
            return None
        if a[2] is None:
            p = const(1)
            for x in d:
                p = scal("mul", p, x)
            return (scal("mul", p, a[1]),)
        k = a[2] if a[2] >= 0 else a[2] + len(d)
        return d[:k] + (scal("mul", d[k], a[1]),) + d[k + 1:]
    if op == "tile":
        d = dims(a[0])
        reps = a[1]
        if d is None:
            return None
        m = max(len(d), len(reps))
        dd = (const(1),) * (m - len(d)) + d
        rr = (const(1),) * (m - len(reps)) + tuple(reps)
        return tuple(scal("mul", x, y) for x, y in zip(dd, rr))
    if op == "matmul":
        d1, d2 = dims(a[0]), dims(a[1])
        if d1 is None or d2 is None:
            return None
        if not d1 or not d2:
            return bdims([d1, d2])
        if len(d1) == 1 and len(d2) == 1:
            return ()
        if len(d1) == 2 and len(d2) == 1:
            return (d1[0],)
        if len(d1) == 1 and len(d2) == 2:
            return (d2[1],)
        if len(d1) == 2 and len(d2) == 2:
            return (d1[0], d2[1])
        return None
    if op == "outer":
        d1, d2 = dims(a[0]), dims(a[1])
        if d1 is None or d2 is None or len(d1) != 1 or len(d2) != 1:
            return None
        return (d1[0], d2[0])
    if op == "convolve":
        d1, d2 = dims(a[0]), dims(a[1])
        if d1 is None or d2 is None or len(d1) != 1 or len(d2) != 1:
            return None
        if a[2] == "full":
            return (scal("sub", scal("add", d1[0], d2[0]), const(1)),)
        if a[2] == "same":
            return (mk("max", mk("list", (d1[0], d2[0])), None),)
        return None
    if op == "diff":
        d = dims(a[0])
        if d is None or not d:
            return None
        return d[:-1] + (mk("max", mk("list", (const(0), scal("sub", d[-1], const(1)))), None),)
    if op == "newaxis_":
        d = dims(a[0])
        return None if d is None else d + (const(1),)
    if op == "splev":
        return dims(a[0])
    if op == "polyroots":
        d = dims(a[0])
        return None if d is None else (mk("max", mk("list", (const(0), scal("sub", d[0], const(1)))), None),)
    if op == "interp":
        return dims(a[0])
    if op == "rot90":
        d = dims(a[0])
        if d is None:
            return None
        return (d[1], d[0]) if a[1] % 2 else d
    if op == "fftfreq":
        return (a[0],)
    if op == "nonzero1":
        return (mk("count", a[0]),)
    if op == "unique":
        return (mk("nunique", a[0]),)
    if op == "broadcast_to":
        return tuple(a[1])
    return None


def _getitem_dims(base, idx):
    db = dims(base)
    if db is None:
        return None
    out = []
    k = 0
    adv = []
    advpos = None
    nconsumed = 0
    for it in idx:
        if it == "newaxis" or it == "ellipsis":
            continue
        if isinstance(it, tuple):
            nconsumed += 1
        else:
            r = rank(it)
            if r is None:
                return None
            nconsumed += r if (kind(it) == "b" and r > 0) else 1
    if nconsumed > len(db):
        return None
    for it in idx:
        if it == "newaxis":
            out.append(const(1))
        elif it == "ellipsis":
            m = len(db) - nconsumed
            out.extend(db[k:k + m])
            k += m
        elif isinstance(it, tuple):
            out.append(slicelen(db[k], it))
            k += 1
        else:
            r = rank(it)
            if r == 0:
                k += 1
                if advpos is None:
                    advpos = len(out)
            elif kind(it) == "b":
                if advpos is None:
                    advpos = len(out)
                adv.append((mk("count", it),))
                k += r
            else:
                di = dims(it)
                if di is None:
                    return None
                if advpos is None:
                    advpos = len(out)
                adv.append(di)
                k += 1
    out.extend(db[k:])
    if adv:
        b = bdims(adv)
        if b is None:
            return None
        out[advpos:advpos] = list(b)
    return tuple(out)


# ------------------------------------------------------------------- dtype
_KO = {"b": 0, "i": 1, "f": 2, "c": 3}
_KR = "bifc"


def kjoin(*ks):
    m = 0
    for k in ks:
        if k not in _KO:
            return "?"
        m = max(m, _KO[k])
    return _KR[m]


def kind(n):
    """dtype kind: b, i, f, c or ? (unknown).  Joins take the larger kind."""
    k = n._kind
    if k is _UNSET:
        n._kind = "?"
        k = _kind(n)
        n._kind = k
    return k


def surely_complex(n, depth=0):
    """Of complex dtype on every path (joins of unlike kinds excluded)."""
    if kind(n) != "c" or depth > 40:
        return False
    if n.op in ("arr", "param", "const"):
        return True
    subs = [x for x in n.args if isinstance(x, Node) and kind(x) == "c"]
    if n.op == "ite":
        return surely_complex(n.args[1], depth + 1) and surely_complex(n.args[2], depth + 1)
    if n.op in ("mu", "loop", "fold", "after"):
        return False
    return any(surely_complex(x, depth + 1) for x in subs)


_FLOATRES = {"exp", "log", "log2", "log10", "sqrt", "sin", "cos", "tan",
             "arcsin", "arccos", "arctan", "sinh", "cosh", "tanh", "expm1",
             "log1p", "sinc", "exp2", "cbrt", "reciprocal", "arcsinh",
             "arccosh", "arctanh", "rint"}


def _kind(n):
    op = n.op
    a = n.args
    if op == "const":
        v = a[0]
        if isinstance(v, bool):
            return "b"
        if isinstance(v, int):
            return "i"
        if isinstance(v, float):
            return "f"
        if isinstance(v, complex):
            return "c"
        return "?"
    if op == "param":
        return PARAM[a[0]]["kind"]
    if op == "arr":
        return a[1]
    if op == "lv":
        return LV[a[0]].get("vkind", "i")
    if op in ("dim", "len", "arangelen", "mudim", "slicelen", "bdim", "shapeprod", "count", "nunique",
              "argmax", "argmin", "argsort", "toint", "mceil", "mfloor",
              "pyround", "count_nonzero", "nonzero1"):
        return "i"
    if op in CMP or op in ("isnan", "isinf", "isfinite", "logical_and",
                           "logical_or", "logical_xor", "logical_not", "any",
                           "all", "isreal", "not", "land", "lor", "tobool",
                           "iscomplex", "signbit", "contains", "allclose", "is_", "brk"):
        return "b"
    if op in ("and_", "or_", "xor_"):
        return kjoin(kind(a[0]), kind(a[1]))
    if op == "invert":
        return kind(a[0])
    if op in ("add", "sub", "mul", "mod", "floordiv", "maximum", "minimum"):
        k = kjoin(kind(a[0]), kind(a[1]))
        return "i" if k == "b" and op not in ("maximum", "minimum") else k
    if op == "histogram" and len(a) > 2:
        return "f" if kind(a[2]) in "bif" else kind(a[2])
    if op == "histogram":
        return "i"
    if op == "div":
        k = kjoin(kind(a[0]), kind(a[1]))
        return k if k in ("c", "?") else "f"
    if op == "pow":
        k = kjoin(kind(a[0]), kind(a[1]))
        if k == "b":
            return "i"
        if k == "i" and is_num_const(a[1]) and not isinstance(cval(a[1]), complex) and cval(a[1]) < 0:
            return "f"
        return k
    if op in ("abs", "real", "imag", "angle"):
        k = kind(a[0])
        if op == "angle":
            return "f"
        if k == "c":
            return "f"
        if k == "?" and op in ("real", "imag", "abs"):
            return "f"
        return k
    if op in ("neg", "pos", "conj", "square", "positive", "fftshift", "ifftshift",
              "cumsum", "cumprod", "flip", "roll", "sort", "copy_", "asarr",
              "ravel", "reshape", "T", "getitem", "max", "min", "prod", "sum",
              "repeat", "tile", "diff", "rot90", "nan_to_num", "median", "ptp",
              "broadcast_to", "newaxis_", "nansum", "nanmax", "nanmin",
              "trapezoid", "clip", "unwrap", "unique"):
        k = kind(a[0])
        if op in ("sum", "cumsum", "prod") and k == "b":
            return "i"
        return k
    if op in _FLOATRES:
        k = kind(a[0])
        return k if k in ("c", "?") else "f"
    if op in ("floor", "ceil", "round", "trunc", "fix", "roundn"):
        k = kind(a[0])
        return k if k in ("i", "c", "?") else "f"
    if op in ("mean", "gradient"):
        k = kind(a[0])
        return k if k in ("c", "?") else "f"
    if op in ("norm", "std", "var", "tofloat", "spacing", "window", "linspace",
              "logspace", "geomspace", "randscalar", "arctan2", "hypot", "nanmean",
              "splev", "i0", "sign_f", "fftfreq", "rootof", "interp"):
        if op == "linspace" and kjoin(kind(a[0]), kind(a[1])) == "c":
            return "c"
        return "f"
    if op == "sign":
        return kind(a[0])
    if op in ("fft", "ifft", "hilbert", "tocomplex", "fftn", "polyroots"):
        return "c"
    if op in ("zeros", "ones", "empty", "astype", "rand"):
        return a[1]
    if op == "full":
        return a[2] if a[2] else kind(a[1])
    if op == "arange":
        return a[3] if a[3] else kjoin(*[kind(x) for x in a[:3]])
    if op in ("ite", "where"):
        return kjoin(kind(a[1]), kind(a[2]))
    if op == "list":
        return kjoin(*[kind(x) for x in a[0]]) if a[0] else "f"
    if op in ("concat", "stack"):
        return kjoin(*[kind(x) for x in a[1]])
    if op == "comp":
        return kind(a[2])
    if op in ("matmul", "outer", "convolve"):
        return kjoin(kind(a[0]), kind(a[1]))
    if op in ("setitem", "vstore", "last", "atbrk"):
        return kind(a[0])
    if op == "mutated":
        return kind(a[0])
    if op == "mu":
        m = MU[a[0]]
        i = m["init"]
        if not isinstance(i, Node):
            nx = m.get("next")
            return kind(nx) if isinstance(nx, Node) else "?"
        ki = kind(i)
        if m.get("content"):
            return ki          # array contents never change dtype in place
        nx = m.get("next")
        if isinstance(nx, Node):
            return kjoin(ki, kind(nx)) if kind(nx) != "?" else ki
        return "?"
    return "?"


# --------------------------------------------------------------- utilities
def reach(roots, stop=None):
    """All nodes reachable from roots (through mu definitions)."""
    seen = {}
    st = [r for r in roots if isinstance(r, Node)]
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen[n.id] = n
        if stop and stop(n):
            continue
        if n.op == "mu":
            m = MU[n.args[0]]
            for x in (m["init"], m.get("next")):
                if isinstance(x, Node):
                    st.append(x)
            for x in m.get("pcs", ()):
                if isinstance(x, Node):
                    st.append(x)
        if n.op == "lv":
            d = LV[n.args[0]]
            for x in d.get("bounds", ()):
                if isinstance(x, Node):
                    st.append(x)
        if n.op in ("last", "atbrk", "brk"):
            d = LV[n.args[1] if n.op != "brk" else n.args[0]]
            for x in tuple(d.get("bounds", ())) + tuple(d.get("breaks", ())):
                if isinstance(x, Node):
                    st.append(x)
        st.extend(children(n))
    return seen


def lvs(n):
    """Loop counters on which n depends (transitively, not through mu)."""
    r = n._lvs
    if r is _UNSET:
        n._lvs = frozenset()
        s = set()
        if n.op == "lv":
            s.add(n.args[0])
        if n.op == "comp":
            s |= lvs(n.args[1])
            s |= lvs(n.args[2]) - {n.args[0]}
        elif n.op == "mu":
            s.add(("mu", n.args[0]))
        else:
            for c in children(n):
                s |= lvs(c)
        r = n._lvs = frozenset(s)
    return r


_INF = {"add": "+", "sub": "-", "mul": "*", "div": "/", "floordiv": "//",
        "mod": "%", "pow": "**", "lt": "<", "le": "<=", "gt": ">", "ge": ">=",
        "eq": "==", "ne": "!="}


def show(n, depth=6):
    if not isinstance(n, Node):
        if isinstance(n, tuple):
            if n and n[0] == "slice":
                return ":".join("" if x is None else show(x, depth) for x in n[1:])
            return "(" + ", ".join(show(x, depth) for x in n) + ")"
        return str(n)
    if n.op == "const":
        return repr(n.args[0])
    if n.op in ("param", "arr"):
        return n.args[0]
    if n.op == "lv":
        return LV.get(n.args[0], {}).get("name", "i") + ""
    if n.op == "dim":
        return "dim(%s,%s)" % (show(n.args[0], depth - 1), n.args[1])
    if depth <= 0:
        return "..."
    if n.op in _INF:
        return "(%s %s %s)" % (show(n.args[0], depth - 1), _INF[n.op], show(n.args[1], depth - 1))
    if n.op == "getitem":
        return "%s[%s]" % (show(n.args[0], depth - 1), ", ".join(show(x, depth - 1) for x in n.args[1]))
    return "%s(%s)" % (n.op, ", ".join(show(x, depth - 1) for x in n.args if x is not None))

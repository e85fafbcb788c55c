"""Transfer functions for the external libraries the package relies on.

Each entry states what a call to numpy / scipy / math / builtins means for the
term graph (value), for the heap (fresh array, view, in-place write) and which
obligations it raises (integer sizes, broadcast compatibility, ...).
"""
import json
import os
from . import nodes
from .nodes import Node, mk, const, is_const, is_num_const, cval, rank, dims, kind
from .peval import fold
from .interp import (Ref, Choice, PyTuple, PyList, PyDict, Rng, EnumV, ZipV, RevV, SliceV, EllipsisV,
                     Opq, Ext, Mod, Func, Cls, Inst, Bound, ArrMeth, MaybeUnb, PathEnd, Giveup, UNBOUND)

_here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(_here, "namespaces.json")) as _f:
    NS = {k: frozenset(v) for k, v in json.load(_f).items()}

CONSTS = {}
for _m in ("numpy", "math"):
    CONSTS[_m + ".pi"] = 3.141592653589793
    CONSTS[_m + ".e"] = 2.718281828459045
    CONSTS[_m + ".inf"] = float("inf")
    CONSTS[_m + ".nan"] = float("nan")
CONSTS.update({"numpy.Inf": float("inf"), "numpy.infty": float("inf"), "numpy.NaN": float("nan"),
               "numpy.NAN": float("nan"), "math.tau": 6.283185307179586, "numpy.NINF": -float("inf"),
               "numpy.PINF": float("inf"), "numpy.euler_gamma": 0.5772156649015329})

PURE_ROOTS = ("numpy", "scipy", "math", "cmath")

DTYPES = {"int": "i", "float": "f", "complex": "c", "bool": "b", "int_": "i", "intp": "i", "int8": "i", "int16": "i",
          "int32": "i", "int64": "i", "uint8": "i", "uint16": "i", "uint32": "i", "uint64": "i", "float_": "f",
          "float16": "f", "float32": "f", "float64": "f", "double": "f", "single": "f", "complex_": "c",
          "complex64": "c", "complex128": "c", "cdouble": "c", "bool_": "b", "longdouble": "f", "cfloat": "c",
          "uint": "i", "uintp": "i", "i4": "i", "i8": "i", "f4": "f", "f8": "f", "c8": "c", "c16": "c", "i": "i",
          "f": "f", "d": "f", "D": "c", "F": "c", "l": "i", "?": "b", "csingle": "c"}


def ext_value(name, I, st, loc):
    if name in CONSTS:
        return const(CONSTS[name])
    if name == "numpy.newaxis":
        return const(None)
    if name == "scipy.pi":
        return const(3.141592653589793)
    base, _, attr = name.rpartition(".")
    if base in NS and attr not in NS[base] and (base + "." + attr) not in NS and not attr.startswith("__"):
        I.ev("unresolved", loc, st, name=name, what="library attribute")
        raise PathEnd("AttributeError", loc)
    return Ext(name)


def dtype_kind(v):
    if v is None:
        return None
    if isinstance(v, MaybeUnb):
        v = v.value
    if isinstance(v, Ext):
        return DTYPES.get(v.name.split(".")[-1])
    if isinstance(v, Node) and v.op == "const" and isinstance(v.args[0], str):
        return DTYPES.get(v.args[0].lstrip("<>=|"))
    if isinstance(v, Opq) and v.tag and v.tag.startswith("dtype:"):
        k = v.tag[6:]
        return k if k in "bifc" else None
    if isinstance(v, Node) and v.op == "const" and v.args[0] is None:
        return None
    return None


def dtype_small(v):
    """dtype objects that may lose information (narrow ints, float32)."""
    if isinstance(v, Ext):
        return v.name.split(".")[-1] in ("uint8", "int8", "int16", "uint16", "int32", "uint32", "float16",
                                         "float32", "single", "complex64", "csingle")
    return False


# ------------------------------------------------------------- attributes
def shape_value(I, n):
    d = dims(n)
    if d is not None:
        return PyTuple(d)
    r = rank(n)
    if r is not None:
        return PyTuple([mk("dim", n, k) for k in range(r)])
    return None


PYNAMES = {PyTuple: "tuple", PyList: "list", PyDict: "dict", Rng: "range"}
PYATTRS = {PyTuple: set(dir(tuple)), PyList: set(dir(list)), PyDict: set(dir(dict)), Rng: set(dir(range))}


def value_attr(I, o, name, st, loc):
    if isinstance(o, Opq):
        if o.tag == "mpl":
            return Opq(mk("ext", "mpl." + name, (o.node,), None, nodes.fresh()), "mpl")
        if o.tag and o.tag.startswith("dtype:"):
            return Opq(mk("ext", "dtype." + name, (), None, 0))
        if name == "shape":
            s = shape_value(I, o.node)
            if s is not None:
                return s
        if name == "ndim" and rank(o.node) is not None:
            return const(rank(o.node))
        if name in ("real", "imag"):
            return Opq(fold(name, o.node))
        if name in NS["numpy_ndarray"] and name not in ("shape", "ndim", "size", "dtype", "T", "flat"):
            return ArrMeth(o, name)
        return Opq(mk("ext", "attr." + name, (o.node,), None, 0), "attr:" + name)
    if isinstance(o, (PyTuple, PyList, PyDict, Rng)):
        if name not in PYATTRS[type(o)]:
            I.ev("unresolved", loc, st, name="%s.%s" % (PYNAMES[type(o)], name), what="attribute")
            raise PathEnd("AttributeError", loc)
        return ArrMeth(o, name)
    n = I.num(o, st)
    if n.op == "const" and not is_num_const(n):
        if isinstance(n.args[0], str):
            return ArrMeth(o, name)
        I.ev("unresolved", loc, st, name="None.%s" % name, what="attribute")
        raise PathEnd("AttributeError", loc)
    if name == "shape":
        s = shape_value(I, n)
        return s if s is not None else Opq(mk("ext", "attr.shape", (n,), None, 0), "attr:shape")
    if name == "ndim":
        r = rank(n)
        return const(r) if r is not None else mk("ext", "ndim", (n,), 0, 0)
    if name == "size":
        d = dims(n)
        if d is None:
            return mk("ext", "size", (n,), 0, 0)
        p = const(1)
        for x in d:
            p = fold("mul", p, x)
        return p
    if name == "dtype":
        return Opq(mk("ext", "dtype", (), None, 0), "dtype:" + kind(n))
    if name == "T":
        if rank(n) in (0, 1):
            return o
        return Ref(o.rid, o.path + (("T",),)) if isinstance(o, Ref) else I.wrap(mk("T", n), st, loc)
    if name in ("real", "imag"):
        if isinstance(o, Ref):
            return Ref(o.rid, o.path + ((name,),))
        return fold(name, n) if not (name == "real" and kind(n) in "ifb") else n
    if name == "flat":
        return Ref(o.rid, o.path + (("ravel",),)) if isinstance(o, Ref) else o
    if name in NS["numpy_ndarray"] or name in ("is_integer", "hex", "bit_length"):
        return ArrMeth(o, name)
    I.ev("unresolved", loc, st, name="ndarray.%s" % name, what="array attribute")
    raise PathEnd("AttributeError", loc)


# ------------------------------------------------------------------ helpers
class A(object):
    """Bound arguments of one call."""

    def __init__(self, I, st, loc, name, d):
        self.I, self.st, self.loc, self.name, self.d = I, st, loc, name, d

    def has(self, k):
        v = self.d.get(k)
        return v is not None and not (isinstance(v, Node) and v.op == "const" and v.args[0] is None)

    def v(self, k):
        return self.d.get(k)

    def n(self, k, default=None):
        if k not in self.d:
            return default
        v = self.d[k]
        if isinstance(v, Node) and v.op == "const" and v.args[0] is None:
            return default
        return self.I.num(v, self.st)

    def axis(self, k="axis", default=None):
        if not self.has(k):
            return default
        n = self.I.num(self.d[k], self.st)
        if is_num_const(n) and isinstance(cval(n), int):
            return cval(n)
        return "?"

    def flag(self, k, default=False):
        if not self.has(k):
            return default
        n = self.d[k]
        if isinstance(n, Node) and n.op == "const":
            return bool(n.args[0])
        return "?"

    def s(self, k, default=None):
        v = self.d.get(k)
        if isinstance(v, Node) and v.op == "const" and isinstance(v.args[0], str):
            return v.args[0]
        return default

    def all_nodes(self):
        out = []
        for v in self.d.values():
            if isinstance(v, (Func, Bound, Cls, Mod)):
                continue
            out.append(self.I.num(v, self.st))
        return tuple(out)


def bindargs(I, sig, args, kw, st, loc, name):
    params = [p.strip() for p in sig.split(",") if p.strip()]
    strict = True
    if params and params[-1] == "...":
        params = params[:-1]
        strict = False
    names = []
    req = set()
    for p in params:
        if p.endswith("="):
            names.append(p[:-1])
        else:
            names.append(p)
            req.add(p)
    d = {}
    for i, v in enumerate(args):
        if i < len(names):
            d[names[i]] = v
        elif strict:
            I.ev("typeerr", loc, st, msg="%s() takes at most %d positional arguments (%d given)" % (
                name, len(names), len(args)))
            raise PathEnd("TypeError", loc)
        else:
            d["_%d" % i] = v
    for k, v in kw.items():
        if k == "**":
            continue
        if k not in names and strict:
            I.ev("typeerr", loc, st, msg="%s() got an unexpected keyword argument %r" % (name, k))
            raise PathEnd("TypeError", loc)
        d[k] = v
    for r in req:
        if r not in d:
            I.ev("typeerr", loc, st, msg="%s() missing argument %r" % (name, r))
            raise PathEnd("TypeError", loc)
    return d


MODELS = {}


def model(names, sig):
    def deco(f):
        for nm in names.split():
            MODELS[nm] = (sig, f)
        return f
    return deco


def canon(name):
    for a, b in (("scipy.fftpack.", "numpy.fft."), ("scipy.fft.", "numpy.fft."), ("scipy.linalg.", "numpy.linalg."),
                 ("numpy.core.", "numpy."), ("numpy.lib.", "numpy.")):
        if name.startswith(a):
            c = b + name[len(a):]
            if c in MODELS:
                return c
    return name


def finish(a, n):
    """Store into out= if given, otherwise a fresh value."""
    if a.has("out"):
        o = a.v("out")
        if isinstance(o, PyTuple) and o.items:
            o = o.items[0]
        if isinstance(o, Ref):
            a.I.write_ref(o, n, a.st, a.loc, "out= of %s" % a.name)
            return o
        a.I.mutate(o, a.st, a.loc, "out= of %s" % a.name)
        return o
    if rank(n) is None and any(isinstance(v, Opq) for v in a.d.values()) and not any(
            isinstance(v, Ref) for v in a.d.values()):
        return Opq(n)
    return a.I.wrap(n, a.st, a.loc)


DRAWING = {"imshow", "contour", "contourf", "plot_surface", "plot_wireframe", "pcolormesh", "pcolor", "matshow"}


def mpl_call(I, name, obj, args, kw, st, loc):
    """A drawing call: the values of its arguments at this moment go on record."""
    res = mk("ext", "mpl", (), None, nodes.fresh())
    if obj is not None and name.endswith(".set") and not args and "**" not in kw:
        for k, v in kw.items():            # ax.set(title=...) is ax.set_title(...)
            I.ev("extcall", loc, st, name=name + "_" + k, args=[v], obj=obj, res=res,
                 vals=(I.num(v, st),), kws={})
        return Opq(res, "mpl")
    if I.mpl_fails and name.rsplit(".", 1)[-1] in DRAWING:
        raise PathEnd("DrawingError", loc)
    I.ev("extcall", loc, st, name=name, args=args, obj=obj, res=res,
         vals=tuple(I.num(x, st) for x in args), kws={k: I.num(v, st) for k, v in kw.items()})
    return Opq(res, "mpl")


def call_ext(I, name, args, kw, st, loc):
    name = canon(name)
    args = [I.strip_unbound(x) if isinstance(x, Choice) else x for x in args]
    m = MODELS.get(name)
    root = name.split(".")[0]
    if m is not None:
        sig, f = m
        d = bindargs(I, sig, args, kw, st, loc, name)
        return f(A(I, st, loc, name, d))
    if root in ("matplotlib", "mpl_toolkits"):
        return mpl_call(I, name, None, args, kw, st, loc)
    if name.startswith("numpy.random.") or name.startswith("random.") or name.startswith("scipy.stats."):
        return rng_call(I, name, args, kw, st, loc)
    if name.split(".")[-1] in ("Exception",) or name.endswith("Error") or name.endswith("Warning"):
        return Opq(mk("ext", "exc", (), None, nodes.fresh()), "exc:" + name)
    if root in PURE_ROOTS or name in PURE_EXTRA:
        short = name.split(".")[-1]
        if short in ("copyto", "put", "place", "putmask", "fill_diagonal", "put_along_axis"):
            I.mutate(args[0], st, loc, name)
            return const(None)
        if short in ("seterr", "seterrcall", "setbufsize", "set_printoptions", "set_string_function"):
            I.ev("globalwrite", loc, st, name=name, module="external")
            return Opq(mk("ext", name, (), None, nodes.fresh()))
        if "out" in kw:
            I.mutate(kw["out"], st, loc, "out= of %s" % name)
        if kw.get("overwrite_x") is not None or kw.get("overwrite_a") is not None:
            I.mutate(args[0], st, loc, name + " overwrite")
        vals = list(args) + list(kw.values())
        deps = []
        for v in vals:
            if isinstance(v, (Func, Bound)):
                deps.extend(call_probe(I, v, st, loc))
            elif isinstance(v, (Cls, Mod)):
                continue
            else:
                deps.append(I.num(v, st))
        I.unknown_ext = getattr(I, "unknown_ext", {})
        I.unknown_ext[name] = I.unknown_ext.get(name, 0) + 1
        alias = frozenset().union(*[frozenset(I.base_regions(v)) for v in vals]) if vals else frozenset()
        n = mk("ext", name, tuple(deps), None, 0)
        rid = I.new_region(st, n, alias=alias, unknown=name)
        return Ref(rid) if alias else Opq(n)
    I.ev("extcall", loc, st, name=name, args=args)
    deps = tuple(I.num(v, st) for v in list(args) + list(kw.values())
                 if not isinstance(v, (Func, Bound, Cls, Mod)))
    return Opq(mk("ext", name, deps, None, nodes.fresh()))


PURE_EXTRA = {"itertools.product", "itertools.chain", "itertools.cycle", "itertools.count", "functools.partial",
              "functools.reduce", "builtins.str", "builtins.repr", "builtins.format", "builtins.hash",
              "builtins.id", "builtins.set", "builtins.frozenset", "builtins.dir", "builtins.vars", "builtins.chr",
              "builtins.ord", "builtins.bytes", "operator.add", "operator.mul", 
              "collections.OrderedDict", "collections.namedtuple", "collections.defaultdict"}


def call_probe(I, fn, st, loc, nargs=1):
    """Call a repository function passed to a library routine on a symbol."""
    p = mk("randscalar", "probe", nodes.fresh())
    try:
        r = I.call(fn, [p] * nargs, {}, st, loc)
        return [I.num(r, st)]
    except (Giveup, PathEnd):
        return []


def rng_call(I, name, args, kw, st, loc):
    short = name.split(".")[-1]
    I.ev("rng", loc, st, name=name, args=args)
    if short in ("seed", "set_state"):
        I.ev("globalwrite", loc, st, name=name, module="external")
        return const(None)
    if short in ("shuffle",):
        I.mutate(args[0], st, loc, name)
        return const(None)
    if short in ("default_rng", "RandomState", "Generator", "PCG64", "MT19937", "SeedSequence"):
        return Opq(mk("ext", name, tuple(I.num(a, st) for a in args), None, nodes.fresh()), "rng")
    if short == "get_state":
        return Opq(mk("ext", name, (), None, nodes.fresh()))
    k = "i" if short in ("randint", "random_integers", "integers", "permutation", "binomial", "poisson") else "f"
    size = None
    if short in ("rand", "randn"):
        size = tuple(size_node(I, a, st, loc) for a in args)
    elif short in ("random", "random_sample", "ranf", "sample", "standard_exponential", "standard_normal",
                   "standard_cauchy"):
        size = args[0] if args else kw.get("size")
    elif "size" in kw:
        size = kw["size"]
    elif short in ("normal", "uniform", "laplace", "gumbel", "logistic", "randint", "integers", "choice"):
        pos = {"choice": 1}.get(short, 2)
        size = args[pos] if len(args) > pos else None
    else:
        return Opq(mk("ext", name, tuple(I.num(a, st) for a in args), None, nodes.fresh()))
    if size is None or (isinstance(size, Node) and size.op == "const" and size.args[0] is None):
        return mk("randscalar", short, nodes.fresh())
    if not isinstance(size, tuple):
        size = shape_arg(I, size, st, loc)
    if size is None:
        return Opq(mk("ext", name, (), None, nodes.fresh()))
    if not size:
        return mk("randscalar", short, nodes.fresh())
    n = mk("rand", size, k, short, nodes.fresh())
    return I.wrap(n, st, loc)


def size_node(I, v, st, loc, what="array size"):
    n = I.num(v, st)
    I.ev("intreq", loc, st, node=n, what=what)
    return n


def shape_arg(I, v, st, loc, what="array size"):
    if isinstance(v, MaybeUnb):
        v = v.value
    it = I.seq_items(v, st)
    if it is not None:
        return tuple(size_node(I, x, st, loc, what) for x in it)
    if isinstance(v, Choice):
        a, b = shape_arg(I, v.a, st, loc, what), shape_arg(I, v.b, st, loc, what)
        if a is not None and b is not None and len(a) == len(b):
            return tuple(fold("ite", v.cond, x, y) for x, y in zip(a, b))
        return None
    if isinstance(v, Opq) and v.tag == "attr:shape":
        return None
    n = I.num(v, st)
    if rank(n) == 0:
        return (size_node(I, v, st, loc, what),)
    d = dims(n)
    if d is not None and len(d) == 1 and is_const(d[0]):
        return tuple(fold("toint", mk("getitem", n, (const(i),))) for i in range(cval(d[0])))
    return None


def unknown(a, r=None):
    n = mk("ext", a.name, a.all_nodes(), r, 0)
    return finish(a, n) if r is not None else Opq(n)


# --------------------------------------------------------------- elementwise
UNARY = {"abs": "abs", "absolute": "abs", "fabs": "abs", "conj": "conj", "conjugate": "conj",
         "exp": "exp", "log": "log", "log2": "log2", "log10": "log10", "sqrt": "sqrt", "square": "square",
         "sin": "sin", "cos": "cos", "tan": "tan", "arcsin": "arcsin", "arccos": "arccos",
         "arctan": "arctan", "sinh": "sinh", "cosh": "cosh", "tanh": "tanh", "floor": "floor",
         "ceil": "ceil", "rint": "rint", "trunc": "trunc", "sign": "sign", "isnan": "isnan", "isinf": "isinf",
         "isfinite": "isfinite", "logical_not": "logical_not", "expm1": "expm1", "log1p": "log1p",
         "spacing": "spacing", "exp2": "exp2", "cbrt": "cbrt", "reciprocal": "reciprocal", "negative": "neg",
         "positive": "positive", "deg2rad": "deg2rad", "radians": "deg2rad", "rad2deg": "rad2deg",
         "degrees": "rad2deg", "invert": "invert", "bitwise_not": "invert", "arcsinh": "arcsinh",
         "arccosh": "arccosh", "arctanh": "arctanh", "signbit": "signbit"}
UNARY_NOOUT = {"isreal": "isreal", "iscomplex": "iscomplex", "sinc": "sinc", "i0": "i0"}
BINARY = {"add": "add", "subtract": "sub", "multiply": "mul", "divide": "div", "true_divide": "div",
          "floor_divide": "floordiv", "remainder": "mod", "mod": "mod", "power": "pow", "float_power": "floatpow",
          "maximum": "maximum", "minimum": "minimum", "fmax": "maximum", "fmin": "minimum", "arctan2": "arctan2",
          "hypot": "hypot", "logical_and": "logical_and", "logical_or": "logical_or",
          "logical_xor": "logical_xor", "less": "lt", "less_equal": "le", "greater": "gt",
          "greater_equal": "ge", "equal": "eq", "not_equal": "ne", "fmod": "fmod", "bitwise_and": "and_",
          "bitwise_or": "or_", "bitwise_xor": "xor_", "copysign": "copysign", "heaviside": "heaviside",
          "left_shift": "lshift", "right_shift": "rshift"}


def _mkunary(op):
    def f(a):
        n = a.n("x")
        if n.op == "const" and n.args[0] is None and op != "logical_not":
            a.I.ev("typeerr", a.loc, a.st, msg="%s of None" % a.name)
            raise PathEnd("TypeError", a.loc)
        if n.op == "const" and not is_num_const(n):
            return unknown(a)
        if op in ("floor", "ceil", "trunc", "fix", "mod", "cbrt", "signbit") and nodes.surely_complex(n):
            a.I.ev("typeerr", a.loc, a.st, msg="%s of complex numbers" % a.name)
            raise PathEnd("TypeError", a.loc)
        if op == "conj" and kind(n) in "ifb":
            return finish(a, n)
        return finish(a, fold(op, n))
    return f


for _k, _op in UNARY.items():
    MODELS["numpy." + _k] = ("x, out=, where=, dtype=, casting=", _mkunary(_op))
for _k, _op in UNARY_NOOUT.items():
    MODELS["numpy." + _k] = ("x", _mkunary(_op))


def _mkbinary(op):
    def f(a):
        r = a.I.arith(op, a.n("x1"), a.n("x2"), a.st, a.loc)
        return finish(a, r)
    return f


for _k, _op in BINARY.items():
    MODELS["numpy." + _k] = ("x1, x2, out=, where=, dtype=, casting=", _mkbinary(_op))


@model("numpy.ndim", "x")
def _ndimf(a):
    return value_attr(a.I, a.n("x"), "ndim", a.st, a.loc)


@model("numpy.isrealobj numpy.iscomplexobj", "x")
def _isrealobj(a):
    k = kind(a.n("x"))
    if k is None or k not in "bifc":
        return unknown(a)
    return const((k == "c") == a.name.endswith("iscomplexobj"))


@model("numpy.real numpy.imag", "x")
def _real(a):
    op = a.name.split(".")[-1]
    v = a.v("x")
    if isinstance(v, MaybeUnb):
        v = v.value
    if isinstance(v, Ref):
        n = a.I.num(v, a.st)
        if rank(n) != 0:
            return Ref(v.rid, v.path + ((op,),))
    n = a.n("x")
    if op == "real" and kind(n) in "ifb":
        return a.I.wrap(n, a.st, a.loc)
    return a.I.wrap(fold(op, n), a.st, a.loc)


@model("numpy.angle", "x, deg=")
def _angle(a):
    if a.flag("deg"):
        return unknown(a, rank(a.n("x")))
    return a.I.wrap(fold("angle", a.n("x")), a.st, a.loc)


@model("numpy.round numpy.around numpy.round_", "x, decimals=, out=")
def _round(a):
    n = a.n("x")
    d = a.n("decimals")
    if d is None or is_const(d, 0):
        return finish(a, fold("round", n))
    return finish(a, fold("roundn", n, d))


@model("numpy.fix", "x, out=")
def _fix(a):
    return finish(a, fold("fix", a.n("x")))


@model("numpy.nan_to_num", "x, copy=, nan=, posinf=, neginf=")
def _nan(a):
    n = fold("nan_to_num", a.n("x"))
    if a.flag("copy", True) is not True and isinstance(a.v("x"), Ref):
        a.I.write_ref(a.v("x"), n, a.st, a.loc, "nan_to_num(copy=False)")
        return a.v("x")
    return a.I.wrap(n, a.st, a.loc)


@model("numpy.clip", "x, lo=, hi=, out=, ...")
def _clip(a):
    lo = a.n("lo") or a.n("a_min") or const(-float("inf"))
    hi = a.n("hi") or a.n("a_max") or const(float("inf"))
    return finish(a, fold("clip", a.n("x"), lo, hi))


@model("numpy.where", "c, x=, y=")
def _where(a):
    c = a.n("c")
    if not a.has("x"):
        return _nonzero(a, c)
    x, y = a.n("x"), a.n("y")
    a.I.check_bcast((c, x, y), a.st, a.loc, "where")
    return a.I.wrap(mk("where", c, x, y), a.st, a.loc)


def _nonzero(a, c):
    r = rank(c)
    if r is None:
        return Opq(mk("ext", "nonzero", (c,), None, 0))
    return PyTuple([a.I.wrap(mk("nonzero1", c, k), a.st, a.loc) for k in range(max(1, r))])


@model("numpy.nonzero", "c")
def _nz(a):
    return _nonzero(a, a.n("c"))


@model("numpy.flatnonzero", "c")
def _fnz(a):
    c = a.n("c")
    if rank(c) not in (None, 1):
        c = mk("ravel", c)
    return a.I.wrap(mk("nonzero1", c, 0), a.st, a.loc)


@model("numpy.argwhere", "c")
def _aw(a):
    return unknown(a, 2)


# ----------------------------------------------------------------- creation
@model("numpy.zeros numpy.ones numpy.empty", "shape, dtype=, order=, like=")
def _zeros(a):
    sh = shape_arg(a.I, a.v("shape"), a.st, a.loc)
    op = a.name.split(".")[-1]
    if sh is None:
        return unknown(a)
    k = dtype_kind(a.v("dtype")) if a.has("dtype") else "f"
    n = mk(op, sh, k or "?")
    if a.has("dtype") and dtype_small(a.v("dtype")):
        n = mk(op, sh, k or "?", "narrow")
    return a.I.wrap(n, a.st, a.loc)


@model("numpy.full", "shape, val, dtype=, order=")
def _full(a):
    sh = shape_arg(a.I, a.v("shape"), a.st, a.loc)
    if sh is None:
        return unknown(a)
    v = a.n("val")
    return a.I.wrap(mk("full", sh, v, dtype_kind(a.v("dtype")) if a.has("dtype") else kind(v)), a.st, a.loc)


@model("numpy.zeros_like numpy.ones_like numpy.empty_like", "x, dtype=, order=, subok=, shape=")
def _zl(a):
    n = a.n("x")
    op = a.name.split(".")[-1][:-5]
    k = dtype_kind(a.v("dtype")) if a.has("dtype") else kind(n)
    sh = shape_arg(a.I, a.v("shape"), a.st, a.loc) if a.has("shape") else dims(n)
    if sh is None:
        r = rank(n)
        if r is None:
            return unknown(a)
        sh = tuple(mk("dim", n, j) for j in range(r))
    if not sh:
        return a.I.wrap({"zeros": const(0.0), "ones": const(1.0)}.get(op, const(0.0)), a.st, a.loc)
    return a.I.wrap(mk(op, tuple(sh), k or "?"), a.st, a.loc)


@model("numpy.full_like", "x, val, dtype=, ...")
def _fl(a):
    n = a.n("x")
    sh = dims(n)
    if sh is None:
        return unknown(a)
    k = dtype_kind(a.v("dtype")) if a.has("dtype") else kind(n)
    return a.I.wrap(mk("full", tuple(sh), a.n("val"), k), a.st, a.loc)


@model("numpy.arange", "a, b=, c=, dtype=, start=, stop=, step=")
def _arange(a):
    k = dtype_kind(a.v("dtype")) if a.has("dtype") else None
    s = a.n("start")
    e = a.n("stop")
    stp = a.n("c") or a.n("step") or const(1)
    if a.has("b") or e is not None and a.has("a"):
        s, e = a.n("a"), (a.n("b") if a.has("b") else e)
    elif e is None:
        s, e = const(0), a.n("a")
    if s is None:
        s = const(0)
    return a.I.wrap(mk("arange", s, e, stp, k), a.st, a.loc)


def either(a, k, dflt, make):
    """make(the truth of argument k), for both values when they depend on the input."""
    f = a.flag(k, dflt)
    return fold("ite", a.I.num(a.d[k], a.st), make(True), make(False)) if f == "?" else make(f)


@model("numpy.linspace", "a, b, num=, endpoint=, retstep=, dtype=, axis=")
def _lin(a):
    num = a.n("num", const(50))
    a.I.ev("intreq", a.loc, a.st, node=num, what="linspace count")
    x, y = a.n("a"), a.n("b")
    if rank(x) != 0 or rank(y) != 0:
        return unknown(a)
    n = either(a, "endpoint", True, lambda e: mk("linspace", x, y, num, e))
    if a.has("dtype") and dtype_kind(a.v("dtype")) not in (None, "f"):
        n = mk("astype", n, dtype_kind(a.v("dtype")))
    r = a.I.wrap(n, a.st, a.loc)
    if a.flag("retstep"):
        return PyTuple([r, mk("ext", "linstep", (x, y, num), 0, 0)])
    return r


@model("numpy.logspace numpy.geomspace", "a, b, num=, endpoint=, base=, dtype=, axis=")
def _log(a):
    num = a.n("num", const(50))
    a.I.ev("intreq", a.loc, a.st, node=num, what="logspace count")
    if a.has("base") and not is_const(a.n("base"), 10):
        return unknown(a, 1)
    return a.I.wrap(either(a, "endpoint", True, lambda e: mk(a.name.split(".")[-1], a.n("a"), a.n("b"), num, e)),
                    a.st, a.loc)


@model("numpy.eye numpy.identity", "n, m=, k=, dtype=, order=")
def _eye(a):
    return unknown(a, 2)


@model("numpy.array numpy.asarray numpy.asanyarray numpy.ascontiguousarray numpy.asfortranarray "
       "numpy.atleast_1d numpy.asarray_chkfinite", "x, dtype=, copy=, order=, subok=, ndmin=, like=")
def _array(a):
    short = a.name.split(".")[-1]
    v = a.v("x")
    if isinstance(v, MaybeUnb):
        v = v.value
    k = dtype_kind(a.v("dtype")) if a.has("dtype") else None
    if a.has("dtype") and k is None:
        return unknown(a)
    if isinstance(v, Choice):
        return a.I.merge_val(v.cond, _array(A(a.I, a.st, a.loc, a.name, dict(a.d, x=v.a))),
                             _array(A(a.I, a.st, a.loc, a.name, dict(a.d, x=v.b))))
    alias = short != "array" or a.flag("copy", True) is not True
    n = a.I.num(v, a.st)
    if n.op == "const" and not is_num_const(n):
        return Opq(mk("ext", "array", (n,), 0, 0))
    if k is not None and kind(n) != k:
        n2 = mk("astype", n, k) if not (a.has("dtype") and dtype_small(a.v("dtype"))) else \
            mk("astype", n, k, "narrow")
        if isinstance(v, Ref) and alias and kind(n) == "?":
            return Ref(v.rid, v.path + (("astype", k),))
        return arr_wrap(a, n2)
    if isinstance(v, Ref) and alias:
        if short == "atleast_1d" or True:
            return v if not v.path else Ref(v.rid, v.path)
    if isinstance(v, Opq):
        return Opq(n, v.tag)
    if a.has("ndmin") and rank(n) is not None and is_num_const(a.n("ndmin")):
        while rank(n) < cval(a.n("ndmin")):
            n = mk("getitem", n, ("newaxis", "ellipsis"))
    if short in ("atleast_1d", "ascontiguousarray") and rank(n) == 0:
        n = mk("list", (n,))
    return arr_wrap(a, n)


def arr_wrap(a, n):
    return a.I.wrap(n, a.st, a.loc)


@model("numpy.copy", "x, order=, subok=")
def _copy(a):
    v = a.v("x")
    if isinstance(v, Opq):
        return v
    return a.I.wrap(a.n("x"), a.st, a.loc)


@model("numpy.atleast_2d", "x")
def _al2(a):
    v = a.v("x")
    n = a.n("x")
    r = rank(n)
    if r is None:
        return unknown(a)
    if r >= 2:
        return v
    if r == 1:
        it = ("newaxis", ("slice", None, None, None))
        if isinstance(v, Ref):
            return Ref(v.rid, v.path + (("getitem", it),))
        return a.I.wrap(mk("getitem", n, it), a.st, a.loc)
    return a.I.wrap(mk("list", (mk("list", (n,)),)), a.st, a.loc)


@model("numpy.expand_dims", "x, axis")
def _expd(a):
    v, n, ax = a.v("x"), a.n("x"), a.axis()
    r = rank(n)
    if r is None or ax == "?" or ax is None:
        return unknown(a)
    k = ax if ax >= 0 else ax + r + 1
    it = tuple([("slice", None, None, None)] * k) + ("newaxis",)
    if isinstance(v, Ref):
        return Ref(v.rid, v.path + (("getitem", it),))
    return a.I.wrap(mk("getitem", n, it), a.st, a.loc)


# ------------------------------------------------------------------- shape
def view(a, v, step, n):
    if isinstance(v, Ref):
        if step[0] == "reshape" or step[0] == "ravel" and n.op == "ravel":
            # a view or a copy, depending on the memory layout: its own contents, may-alias
            rid = a.I.new_region(a.st, n, alias=frozenset([v.rid]))
            a.I.regions.setdefault(v.rid, {"origin": "?", "epoch": a.I.epoch, "alias": frozenset()}
                                   ).setdefault("views", set()).add(rid)
            return Ref(rid)
        return Ref(v.rid, v.path + (step,))
    if isinstance(v, Opq):
        return Opq(n)
    return a.I.wrap(n, a.st, a.loc)


@model("numpy.ravel", "x, order=")
def _ravel(a):
    v = a.v("x")
    if isinstance(v, MaybeUnb):
        v = v.value
    n = a.n("x")
    if a.s("order", "C") not in ("C", "K", "A") and rank(n) != 1:
        d = dims(n)
        if d is None:
            return unknown(a, 1)
        p = const(1)
        for x in d:
            p = fold("mul", p, x)
        return view(a, v, ("reshape", (p,), "F"), mk("reshape", n, (p,), "F"))
    if rank(n) == 0:
        return a.I.wrap(mk("list", (n,)), a.st, a.loc)
    return view(a, v, ("ravel",), n if rank(n) == 1 else mk("ravel", n))


@model("numpy.reshape", "x, shape, order=")
def _reshape(a):
    v = a.v("x")
    if isinstance(v, MaybeUnb):
        v = v.value
    sh = shape_arg(a.I, a.v("shape"), a.st, a.loc, "reshape size")
    n = a.n("x")
    if sh is None:
        return unknown(a)
    a.I.ev("reshape", a.loc, a.st, base=n, shape=sh)
    o = a.s("order", "C")
    return view(a, v, ("reshape", sh, o), mk("reshape", n, sh, o))


@model("numpy.transpose", "x, axes=")
def _transpose(a):
    v, n = a.v("x"), a.n("x")
    if a.has("axes"):
        return unknown(a, rank(n))
    if rank(n) in (0, 1):
        return v
    return view(a, v, ("T",), mk("T", n))


@model("numpy.squeeze", "x, axis=")
def _squeeze(a):
    v, n = a.v("x"), a.n("x")
    return view(a, v, ("squeeze",), a.I.squeeze(n))


@model("numpy.flip numpy.flipud numpy.fliplr", "x, axis=")
def _flip(a):
    v, n = a.v("x"), a.n("x")
    ax = {"flipud": 0, "fliplr": 1}.get(a.name.split(".")[-1], a.axis())
    if ax == "?":
        return unknown(a, rank(n))
    return view(a, v, ("flip", ax), mk("flip", n, ax))


@model("numpy.rot90", "x, k=, axes=")
def _rot(a):
    v, n = a.v("x"), a.n("x")
    k = a.n("k", const(1))
    if not is_const(k) or a.has("axes"):
        return unknown(a, 2)
    return view(a, v, ("op", "rot90", cval(k)), mk("rot90", n, cval(k)))


@model("numpy.swapaxes numpy.moveaxis numpy.rollaxis", "x, p, q=, ...")
def _swap(a):
    n = a.n("x")
    if rank(n) == 2:
        return view(a, a.v("x"), ("T",), mk("T", n))
    return unknown(a, rank(n))


@model("numpy.broadcast_to", "x, shape, subok=")
def _bto(a):
    sh = shape_arg(a.I, a.v("shape"), a.st, a.loc)
    if sh is None:
        return unknown(a)
    return view(a, a.v("x"), ("broadcast", sh), mk("broadcast_to", a.n("x"), sh))


def parts(a, v):
    it = a.I.seq_items(v, a.st)
    if it is None:
        return None
    return [a.I.num(x, a.st) for x in it]


def concat(a, ns, axis):
    rs = [rank(n) for n in ns]
    if any(r is None for r in rs):
        return Opq(mk("ext", "concat", tuple(ns), None, 0))
    ds = [dims(n) for n in ns]
    if all(d is not None for d in ds) and all(ds):
        r = len(ds[0])
        for d in ds[1:]:
            if len(d) == r:
                for j in range(r):
                    if j != (axis if axis >= 0 else axis + r) and d[j] is not ds[0][j]:
                        a.I.ev("eqreq", a.loc, a.st, a=ds[0][j], b=d[j], what="concatenation")
    return a.I.wrap(mk("concat", axis, tuple(ns)), a.st, a.loc)


@model("numpy.concatenate", "xs, axis=, out=, dtype=, casting=")
def _conc(a):
    ns = parts(a, a.v("xs"))
    ax = a.axis(default=0)
    if ns is None or ax == "?":
        return unknown(a)
    if a.has("axis") is False and "axis" in a.d and a.d["axis"] is not None:
        ns = [n if rank(n) == 1 else mk("ravel", n) for n in ns]
        ax = 0
    r = concat(a, ns, ax)
    return finish(a, a.I.num(r, a.st)) if a.has("out") else r


@model("numpy.hstack", "xs, ...")
def _hst(a):
    ns = parts(a, a.v("xs"))
    if ns is None:
        n = a.n("xs")
        if rank(n) == 1:
            return a.I.wrap(n, a.st, a.loc)
        return unknown(a)
    ns = [mk("list", (n,)) if rank(n) == 0 else n for n in ns]
    return concat(a, ns, 0 if all(rank(n) == 1 for n in ns) else 1)


@model("numpy.vstack numpy.row_stack", "xs, ...")
def _vst(a):
    ns = parts(a, a.v("xs"))
    if ns is None:
        return unknown(a)
    sl = ("slice", None, None, None)
    ns = [mk("getitem", n, ("newaxis", sl)) if rank(n) == 1 else
          (mk("list", (mk("list", (n,)),)) if rank(n) == 0 else n) for n in ns]
    return concat(a, ns, 0)


@model("numpy.column_stack", "xs")
def _cst(a):
    ns = parts(a, a.v("xs"))
    if ns is None:
        return unknown(a)
    sl = ("slice", None, None, None)
    return concat(a, [mk("getitem", n, (sl, "newaxis")) if rank(n) == 1 else n for n in ns], 1)


@model("numpy.stack", "xs, axis=, ...")
def _stk(a):
    ns = parts(a, a.v("xs"))
    ax = a.axis(default=0)
    if ns is None or ax == "?":
        return unknown(a)
    return a.I.wrap(mk("stack", ax, tuple(ns)), a.st, a.loc)


@model("numpy.append", "x, y, axis=")
def _app(a):
    x, y = a.n("x"), a.n("y")
    if a.has("axis"):
        ax = a.axis()
        return unknown(a) if ax == "?" else concat(a, [x, y], ax)
    f = lambda n: mk("list", (n,)) if rank(n) == 0 else (n if rank(n) == 1 else mk("ravel", n))
    return concat(a, [f(x), f(y)], 0)


@model("numpy.repeat", "x, n, axis=")
def _rep(a):
    ax = a.axis()
    if ax == "?":
        return unknown(a)
    k = a.n("n")
    a.I.ev("intreq", a.loc, a.st, node=k, what="repeat count")
    return a.I.wrap(mk("repeat", a.n("x"), k, ax), a.st, a.loc)


@model("numpy.tile", "x, reps")
def _tile(a):
    sh = shape_arg(a.I, a.v("reps"), a.st, a.loc, "tile count")
    if sh is None:
        return unknown(a)
    x = a.n("x")
    if rank(x) == 0:
        x = mk("list", (x,))
    return a.I.wrap(mk("tile", x, sh), a.st, a.loc)


@model("numpy.pad", "x, width, mode=, ...")
def _pad(a):
    n = a.n("x")
    return unknown(a, rank(n))


@model("numpy.meshgrid", "x, y, ...")
def _mesh(a):
    x, y = a.n("x"), a.n("y")
    dx, dy = dims(x), dims(y)
    if not dx or not dy or any(k.startswith("_") or k in ("indexing", "sparse") for k in a.d):
        return PyTuple([Opq(mk("ext", "meshgrid", (x, y), 2, 0)), Opq(mk("ext", "meshgrid", (y, x), 2, 1))])
    sl = ("slice", None, None, None)
    sh = (dy[0], dx[0])
    return PyList(a.I.new_region(a.st, ("pylist", (
        a.I.wrap(mk("broadcast_to", mk("getitem", x, ("newaxis", sl)), sh), a.st, a.loc),
        a.I.wrap(mk("broadcast_to", mk("getitem", y, (sl, "newaxis")), sh), a.st, a.loc)))))


@model("numpy.roll", "x, shift, axis=")
def _roll(a):
    ax = a.axis()
    return a.I.wrap(mk("roll", a.n("x"), a.n("shift"), ax), a.st, a.loc)


@model("numpy.diff", "x, n=, axis=, prepend=, append=")
def _diff(a):
    x = a.n("x")
    if a.has("n") and not is_const(a.n("n"), 1) or a.has("prepend") or a.has("append"):
        return unknown(a, rank(x))
    ax = a.axis(default=-1)
    if rank(x) == 1 or (rank(x) is not None and ax in (-1, rank(x) - 1)):
        return a.I.wrap(mk("diff", x), a.st, a.loc)
    if rank(x) == 2 and ax == 0:
        return a.I.wrap(mk("T", mk("diff", mk("T", x))), a.st, a.loc)
    return unknown(a, rank(x))


@model("numpy.cumsum numpy.cumprod numpy.nancumsum", "x, axis=, dtype=, out=")
def _cs(a):
    n = a.n("x")
    ax = a.axis()
    if ax is None and rank(n) not in (0, 1):
        n = mk("ravel", n)
    return finish(a, mk(a.name.split(".")[-1].replace("nan", ""), n, ax if rank(n) != 1 else 0))


@model("numpy.sort", "x, axis=, ...")
def _sort(a):
    return a.I.wrap(mk("sort", a.n("x"), a.axis(default=-1)), a.st, a.loc)


@model("numpy.argsort", "x, axis=, ...")
def _asort(a):
    return a.I.wrap(mk("argsort", a.n("x"), a.axis(default=-1)), a.st, a.loc)


@model("numpy.unwrap", "x, ...")
def _unwrap(a):
    return a.I.wrap(mk("unwrap", a.n("x")), a.st, a.loc)


@model("numpy.gradient", "x, ...")
def _grad(a):
    n = a.n("x")
    if rank(n) == 1 and len(a.d) == 1:
        return a.I.wrap(mk("gradient", n), a.st, a.loc)
    return unknown(a, 1 if rank(n) == 1 else None)


@model("numpy.unique", "x, return_index=, return_inverse=, return_counts=, ...")
def _uniq(a):
    n = mk("unique", a.n("x"))
    rest = [a.flag(k) for k in ("return_index", "return_inverse", "return_counts")]
    r = a.I.wrap(n, a.st, a.loc)
    if any(rest):
        return PyTuple([r] + [a.I.wrap(mk("ext", "unique%d" % i, (a.n("x"),), 1, 0), a.st, a.loc)
                              for i, f in enumerate(rest) if f])
    return r


@model("numpy.interp", "x, xp, fp, ...")
def _interp(a):
    return a.I.wrap(mk("interp", a.n("x"), a.n("xp"), a.n("fp")), a.st, a.loc)


@model("numpy.histogram", "x, bins=, range=, density=, weights=")
def _hist(a):
    ns = a.all_nodes()
    if a.has("bins") and not (a.has("range") or a.has("density")):
        e = a.n("bins")
        d = dims(e)
        if d is not None and len(d) == 1:
            w = (a.n("weights"),) if a.has("weights") else ()
            return PyTuple([a.I.wrap(mk("histogram", a.n("x"), e, *w), a.st, a.loc), a.v("bins")])
    return PyTuple([Opq(mk("ext", "hist", ns, 1, 0)), Opq(mk("ext", "hist_edges", ns, 1, 0))])


@model("numpy.roots", "x")
def _roots(a):
    return a.I.wrap(mk("polyroots", a.n("x")), a.st, a.loc)


@model("numpy.poly numpy.polyfit", "x, ...")
def _poly(a):
    return unknown(a, 1)


@model("numpy.take", "x, idx, axis=, out=, mode=")
def _take(a):
    x, i = a.n("x"), a.n("idx")
    ax = a.axis()
    if rank(x) == 1 or ax == 0:
        a.I.ev("load", a.loc, a.st, base=x, idx=(i,), regions=a.I.base_regions(a.v("x")), aug=False)
        return finish(a, mk("getitem", x, (i,)))
    if ax == 1 and rank(x) == 2:
        it = (("slice", None, None, None), i)
        a.I.ev("load", a.loc, a.st, base=x, idx=it, regions=a.I.base_regions(a.v("x")), aug=False)
        return finish(a, mk("getitem", x, it))
    return unknown(a)


# ---------------------------------------------------------------- reductions
REDS = {"sum": "sum", "mean": "mean", "max": "max", "amax": "max", "min": "min", "amin": "min", "prod": "prod",
        "product": "prod", "any": "any", "all": "all", "std": "std", "var": "var", "median": "median",
        "ptp": "ptp", "argmax": "argmax", "argmin": "argmin", "nansum": "nansum", "nanmean": "nanmean",
        "nanmax": "nanmax", "nanmin": "nanmin", "count_nonzero": "count_nonzero", "average": "mean",
        "sometrue": "any", "alltrue": "all"}


def _mkred(op):
    def f(a):
        n = a.n("x")
        ax = a.axis()
        if ax == "?" or (op == "mean" and a.has("weights")) or a.has("where"):
            return unknown(a)
        dd = 0
        if a.has("ddof"):
            v = a.v("ddof")
            if op not in ("std", "var") or not isinstance(v, Node) or v.op != "const":
                return unknown(a)
            dd = v.args[0]
        if rank(n) == 0 and op not in ("any", "all", "std", "var", "argmax", "argmin", "count_nonzero"):
            return finish(a, n)
        if rank(n) == 1:
            ax = None
        if op in ("max", "min", "argmax", "argmin"):
            a.I.ev("nonempty", a.loc, a.st, base=n, what=op)
        r = mk(op, n, ax, dd) if dd else mk(op, n, ax)
        if a.has("dtype") and dtype_kind(a.v("dtype")):
            r = mk("astype", r, dtype_kind(a.v("dtype")))
        if a.flag("keepdims"):
            d = dims(n)
            if d is None:
                return unknown(a)
            if ax is None:
                return finish(a, mk("full", tuple(const(1) for _ in d), r, kind(r)))
            k = ax if ax >= 0 else ax + len(d)
            it = tuple([("slice", None, None, None)] * k) + ("newaxis",)
            return finish(a, mk("getitem", r, it))
        return finish(a, r)
    return f


for _k, _op in REDS.items():
    if _k in ("any", "all"):
        MODELS["numpy." + _k] = ("x, axis=, out=, keepdims=, where=", _mkred(_op))
    elif _k in ("max", "min", "amax", "amin"):
        MODELS["numpy." + _k] = ("x, axis=, out=, keepdims=, initial=, where=", _mkred(_op))
    elif _k == "average":
        MODELS["numpy." + _k] = ("x, axis=, weights=, returned=, keepdims=", _mkred(_op))
    elif _k in ("argmax", "argmin"):
        MODELS["numpy." + _k] = ("x, axis=, out=, keepdims=", _mkred(_op))
    elif _k in ("median",):
        MODELS["numpy." + _k] = ("x, axis=, out=, overwrite_input=, keepdims=", _mkred(_op))
    else:
        MODELS["numpy." + _k] = ("x, axis=, dtype=, out=, ...", _mkred(_op))


@model("numpy.linalg.norm", "x, ord=, axis=, keepdims=")
def _norm(a):
    n = a.n("x")
    o = a.n("ord")
    if o is not None and not is_const(o, 2) or (o is not None and rank(n) != 1):
        if o is not None and is_const(o, 1) and rank(n) == 1:
            return a.I.wrap(mk("sum", fold("abs", n), None), a.st, a.loc)
        if o is not None and is_const(o, float("inf")) and rank(n) == 1:
            return a.I.wrap(mk("max", fold("abs", n), None), a.st, a.loc)
        return unknown(a, 0)
    ax = a.axis()
    if ax == "?" or a.flag("keepdims"):
        return unknown(a)
    return a.I.wrap(mk("norm", n, ax if rank(n) != 1 else None), a.st, a.loc)


@model("numpy.trapz scipy.integrate.trapezoid scipy.integrate.trapz numpy.trapezoid", "y, x=, dx=, axis=")
def _trapz(a):
    y = a.n("y")
    ax = a.axis(default=-1)
    if ax == "?":
        return unknown(a)
    if rank(y) == 1:
        ax = None
    x = a.n("x")
    return a.I.wrap(mk("trapezoid", y, ax, x if x is not None else const(None),
                       a.n("dx", const(1.0))), a.st, a.loc)


@model("numpy.ptp", "x, axis=, ...")
def _ptp(a):
    if set(k for k in a.d if a.has(k)) != {"x"}:
        return unknown(a)
    x = a.n("x")
    return a.I.wrap(fold("sub", mk("max", x, None), mk("min", x, None)), a.st, a.loc)


@model("numpy.allclose numpy.isclose numpy.array_equal numpy.array_equiv", "x, y, rtol=, atol=, equal_nan=")
def _allclose(a):
    if a.name.endswith("isclose"):
        r = nodes._maxrank([a.n("x"), a.n("y")])
        return unknown(a, r) if r is not None else unknown(a)
    eq = a.name.endswith(("array_equal", "array_equiv"))
    rt, at = (0.0, 0.0) if eq else (_num(a, "rtol", 1e-5), _num(a, "atol", 1e-8))
    if rt is None or at is None:
        return unknown(a, 0)
    return mk("ext", "array_equal" if eq else "allclose", (a.n("x"), a.n("y"), const(float(rt)), const(float(at))), 0, 0)


# ------------------------------------------------------------ linear algebra
@model("numpy.dot numpy.matmul numpy.vdot numpy.inner", "x, y, out=")
def _dot(a):
    x, y = a.n("x"), a.n("y")
    short = a.name.split(".")[-1]
    if rank(x) == 0 or rank(y) == 0:
        return finish(a, a.I.arith("mul", x, y, a.st, a.loc))
    if short == "vdot":
        x = fold("conj", x) if kind(x) == "c" else x
    if short == "inner" and rank(y) == 2:
        y = mk("T", y)
    a.I.check_matmul(x, y, a.st, a.loc)
    n = mk("matmul", x, y)
    return finish(a, n)


@model("numpy.outer", "x, y, out=")
def _outer(a):
    return finish(a, mk("outer", a.n("x"), a.n("y")))


@model("numpy.kron", "x, y")
def _kron(a):
    return unknown(a, nodes._maxrank([a.n("x"), a.n("y")]))


@model("numpy.convolve scipy.signal.convolve scipy.signal.fftconvolve", "x, y, mode=, method=, axes=")
def _convolve(a):
    return a.I.wrap(mk("convolve", a.n("x"), a.n("y"), a.s("mode", "full")), a.st, a.loc)


@model("numpy.correlate", "x, y, mode=")
def _correlate(a):
    y = a.n("y")
    y = mk("flip", fold("conj", y) if kind(y) == "c" else y, 0)
    return a.I.wrap(mk("convolve", a.n("x"), y, a.s("mode", "valid")), a.st, a.loc)


# --------------------------------------------------------------------- fft
@model("numpy.fft.fft numpy.fft.ifft", "x, n=, axis=, norm=, overwrite_x=, workers=")
def _fft(a):
    op = a.name.split(".")[-1]
    n = a.n("n")
    x = a.n("x")
    if n is not None:
        a.I.ev("intreq", a.loc, a.st, node=n, what="fft length")
    ax = a.axis(default=-1)
    if ax == "?":
        return unknown(a, rank(x))
    if a.has("overwrite_x") and a.flag("overwrite_x") is not False:
        a.I.mutate(a.v("x"), a.st, a.loc, "fft overwrite_x")
    norm = a.s("norm")
    r = mk(op, x, n, ax) if norm in (None, "backward") else mk(op, x, n, ax, norm)
    return a.I.wrap(r, a.st, a.loc)


@model("numpy.fft.fft2 numpy.fft.ifft2 numpy.fft.fftn numpy.fft.ifftn", "x, s=, axes=, norm=")
def _fft2(a):
    x = a.n("x")
    if len(a.d) != 1 or rank(x) != 2:
        return unknown(a, rank(x))
    op = "ifft" if "ifft" in a.name else "fft"
    return a.I.wrap(mk(op, mk(op, x, None, 1), None, 0), a.st, a.loc)


@model("numpy.fft.rfft numpy.fft.irfft numpy.fft.hfft numpy.fft.ihfft", "x, ...")
def _rfft(a):
    return unknown(a, rank(a.n("x")))


@model("numpy.fft.fftshift numpy.fft.ifftshift", "x, axes=")
def _fftshift(a):
    ax = a.axis("axes")
    if isinstance(a.d.get("axes"), (PyTuple, PyList)):
        it = [a.I.num(x, a.st) for x in a.I.seq_items(a.d["axes"], a.st) or []]
        ax = tuple(cval(x) for x in it if is_const(x))
        if len(ax) == 1:
            ax = ax[0]
    return a.I.wrap(mk(a.name.split(".")[-1], a.n("x"), ax), a.st, a.loc)


@model("numpy.fft.fftfreq numpy.fft.rfftfreq", "n, d=")
def _fftfreq(a):
    if a.name.endswith("rfftfreq"):
        return unknown(a, 1)
    return a.I.wrap(mk("fftfreq", a.n("n"), a.n("d", const(1.0))), a.st, a.loc)


@model("scipy.signal.hilbert", "x, N=, axis=")
def _hilbert(a):
    n = a.n("x")
    if kind(n) == "c":
        a.I.ev("raise", a.loc, a.st, exc="ValueError", explicit=False)
        raise PathEnd("ValueError", a.loc)
    if a.has("N"):
        return unknown(a, rank(n))
    return a.I.wrap(mk("hilbert", n, a.axis(default=-1)), a.st, a.loc)


def _window(a):
    m = a.n("M")
    a.I.ev("winlen", a.loc, a.st, node=m)
    rest = tuple(a.I.num(v, a.st) for k, v in sorted(a.d.items()) if k not in ("M", "sym"))
    nm = a.name.split(".")[-1]
    return a.I.wrap(either(a, "sym", True, lambda e: mk("window", nm if e else nm + "-periodic", m, rest)), a.st, a.loc)


for _w in ("hamming", "hann", "hanning", "blackman", "bartlett", "boxcar", "kaiser", "gaussian", "triang", "parzen",
           "bohman", "blackmanharris", "nuttall", "barthann", "cosine", "flattop", "general_gaussian", "tukey",
           "chebwin", "exponential"):
    for _p in ("scipy.signal.windows.", "numpy."):
        if _p == "numpy." and _w not in ("hamming", "hanning", "blackman", "bartlett", "kaiser"):
            continue
        MODELS[_p + _w] = ("M, p1=, p2=, sym=, ..." if _w in ("kaiser", "gaussian", "tukey", "chebwin",
                                                             "general_gaussian", "exponential")
                           else "M, sym=, ...", _window)


@model("scipy.signal.get_window scipy.signal.windows.get_window", "w, n, fftbins=")
def _getwin(a):
    nm = a.s("w", "?")
    return a.I.wrap(either(a, "fftbins", True, lambda e: mk("window", nm + "-periodic" if e else nm, a.n("n"), ())),
                    a.st, a.loc)


def _num(a, k, dflt):
    """The constant number that argument k is bound to, the default, or None."""
    if not a.has(k):
        return dflt
    n = a.I.num(a.d[k], a.st)
    return cval(n) if is_num_const(n) else None


@model("scipy.interpolate.splrep", "x, y, w=, xb=, xe=, k=, task=, s=, ...")
def _splrep(a):
    plain = set(p for p in a.d if a.has(p)) <= {"x", "y", "k", "s", "task"} and \
        _num(a, "s", 0) == 0 and _num(a, "task", 0) == 0 and _num(a, "k", 3) in (1, 3)
    if not plain:
        return Opq(mk("ext", "splrep*", a.all_nodes(), None, 0))
    return Opq(mk("ext", "splrep%d" % _num(a, "k", 3), (a.n("x"), a.n("y")), None, 0))


@model("scipy.interpolate.splev", "x, tck, der=, ext=, ...")
def _splev(a):
    if not (_num(a, "der", 0) == 0 and _num(a, "ext", 0) == 0):
        return a.I.wrap(mk("ext", "splev*", a.all_nodes(), rank(a.n("x")), 0), a.st, a.loc)
    return a.I.wrap(mk("splev", a.n("x"), a.n("tck")), a.st, a.loc)


@model("scipy.optimize.newton scipy.optimize.brenth scipy.optimize.brentq scipy.optimize.bisect "
       "scipy.optimize.ridder scipy.optimize.toms748", "f, a, ...")
def _rootof(a):
    f = a.v("f")
    body = None
    var = "root#%d" % nodes.fresh()
    if isinstance(f, (Func, Bound)):
        try:
            body = a.I.num(a.I.call(f, [nodes.param(var, "f")], {}, a.st, a.loc), a.st)
        except (Giveup, PathEnd):
            body = None
    nm = a.name.split(".")[-1]
    rest = [a.I.num(v, a.st) for k, v in a.d.items() if k != "f" and not isinstance(v, (Func, Bound))]
    plain = len(rest) == (1 if nm == "newton" else 2) and len(a.d) == len(rest) + 1 \
        and all(rank(x) == 0 for x in rest)
    return mk("rootof", body if body is not None and plain and rank(body) == 0 else const(None),
              tuple(rest), var, nm)


# -------------------------------------------------------------------- python
def lenof(I, v, st, loc):
    if isinstance(v, MaybeUnb):
        v = v.value
    it = I.seq_items(v, st)
    if it is not None:
        return const(len(it))
    if isinstance(v, Choice):
        return fold("ite", v.cond, lenof(I, v.a, st, loc), lenof(I, v.b, st, loc))
    if isinstance(v, PyDict):
        c = st.heap.get(v.rid)
        return const(len(c[1])) if isinstance(c, tuple) else mk("ext", "dictlen", (), 0, nodes.fresh())
    if isinstance(v, Inst):
        g, c = v.cls.lookup("__len__")
        if isinstance(g, Func):
            return I.call_func(g, [v], {}, st, loc)
    n = I.num(v, st)
    if n.op == "const":
        if isinstance(n.args[0], str):
            return const(len(n.args[0]))
        I.ev("typeerr", loc, st, msg="object of type %s has no len()" % type(n.args[0]).__name__)
        raise PathEnd("TypeError", loc)
    if isinstance(v, Rng) and is_const(v.s, 0) and is_const(v.st, 1):
        return v.e
    if rank(n) == 0:
        if isinstance(v, Ref) or n.op not in ("ext", "ite", "mu"):
            I.ev("typeerr", loc, st, msg="len() of a scalar")
            raise PathEnd("TypeError", loc)
    return I.length(n)


@model("builtins.len", "x")
def _len(a):
    return lenof(a.I, a.v("x"), a.st, a.loc)


@model("builtins.min builtins.max", "x, ...")
def _pymin(a):
    op = a.name.split(".")[-1]
    vals = [v for k, v in a.d.items() if k == "x" or k.startswith("_")]
    if len(vals) == 1:
        it = a.I.seq_items(vals[0], a.st)
        if it is None:
            n = a.I.num(vals[0], a.st)
            if rank(n) == 1:
                return mk(op, n, None)
            return Opq(mk("ext", op, (n,), None, 0))
        vals = it
    ns = [a.I.num(v, a.st) for v in vals]
    if any(rank(n) != 0 for n in ns):
        if all(rank(n) == 1 and dims(n) and is_const(dims(n)[0], 1) for n in ns):
            pass
        return Opq(mk("ext", op, tuple(ns), None, 0))
    if all(is_num_const(n) and not isinstance(cval(n), complex) for n in ns):
        vs = [cval(n) for n in ns]
        return const(max(vs) if op == "max" else min(vs))
    uniq = []
    for n in ns:
        if n not in uniq:
            uniq.append(n)
    if len(uniq) == 1:
        return uniq[0]
    return mk(op, mk("list", tuple(ns)), None, "py")


@model("builtins.abs", "x")
def _pyabs(a):
    return a.I.wrap(fold("abs", a.n("x")), a.st, a.loc)


@model("builtins.round", "x, nd=")
def _pyround(a):
    n = a.n("x")
    if rank(n) not in (0, None):
        return a.I.wrap(fold("round", n), a.st, a.loc)
    if a.has("nd"):
        return fold("roundn", n, a.n("nd"))
    return fold("pyround", n)


def scalarise(a, n):
    r = rank(n)
    if r in (0, None):
        return n
    d = dims(n)
    if d is not None:
        for x in d:
            if not is_const(x, 1):
                a.I.ev("eqreq", a.loc, a.st, a=x, b=const(1), what="conversion of an array to a scalar")
    return mk("getitem", n, tuple(const(0) for _ in range(r)))


@model("builtins.int", "x=, base=")
def _int(a):
    if not a.has("x"):
        return const(0)
    n = a.n("x")
    if n.op == "const" and not is_num_const(n):
        return mk("ext", "int", (n,), 0, 0)
    n = scalarise(a, n)
    a.I.ev("toint", a.loc, a.st, node=n)
    return fold("toint", n)


@model("builtins.float numpy.float64 numpy.float32 numpy.double", "x=")
def _float(a):
    if not a.has("x"):
        return const(0.0)
    n = a.n("x")
    if n.op == "const" and not is_num_const(n):
        return mk("ext", "float", (n,), 0, 0)
    if a.name.startswith("numpy") and rank(n) not in (0, None):
        return a.I.wrap(mk("astype", n, "f"), a.st, a.loc)
    return fold("tofloat", scalarise(a, n))


@model("numpy.int32 numpy.int64 numpy.int_ numpy.intp numpy.uint8 numpy.int16 numpy.uint32 numpy.uint64", "x=")
def _npint(a):
    n = a.n("x", const(0))
    if rank(n) not in (0, None):
        return a.I.wrap(mk("astype", n, "i"), a.st, a.loc)
    return fold("toint", n)


@model("builtins.complex numpy.complex128 numpy.complex64", "x=, y=")
def _complex(a):
    n = a.n("x", const(0.0))
    if a.has("y"):
        return fold("add", n, fold("mul", a.n("y"), const(1j)))
    if rank(n) not in (0, None):
        return a.I.wrap(mk("astype", n, "c"), a.st, a.loc)
    return fold("tocomplex", n)


@model("builtins.bool numpy.bool_", "x=")
def _bool(a):
    t = a.I.truth(a.v("x"), a.st)
    return const(t) if isinstance(t, bool) else t


@model("builtins.sum", "x, start=")
def _pysum(a):
    it = a.I.seq_items(a.v("x"), a.st)
    if it is not None:
        r = a.n("start", const(0))
        for x in it:
            r = a.I.arith("add", r, a.I.num(x, a.st), a.st, a.loc)
        return a.I.wrap(r, a.st, a.loc)
    n = a.n("x")
    if rank(n) == 1:
        return mk("sum", n, None)
    if rank(n) is not None and rank(n) >= 2:
        return a.I.wrap(mk("sum", n, 0), a.st, a.loc)
    return Opq(mk("ext", "sum", (n,), None, 0))


@model("builtins.any builtins.all", "x")
def _pyany(a):
    op = a.name.split(".")[-1]
    it = a.I.seq_items(a.v("x"), a.st)
    if it is not None:
        cs = []
        for x in it:
            t = a.I.truth(x, a.st)
            if isinstance(t, bool):
                if t == (op == "any"):
                    return const(t)
                continue
            cs.append(t)
        if not cs:
            return const(op == "all")
        return cs[0] if len(cs) == 1 else mk("lor" if op == "any" else "land", tuple(cs))
    return mk(op, a.n("x"), None)


@model("builtins.range", "a, b=, c=")
def _range(a):
    if a.has("b"):
        return Rng(a.n("a"), a.n("b"), a.n("c", const(1)))
    return Rng(const(0), a.n("a"), const(1))


@model("builtins.enumerate", "x, start=")
def _enum(a):
    return EnumV(a.v("x"), a.n("start", const(0)))


@model("builtins.zip", "...")
def _zip(a):
    return ZipV([v for k, v in a.d.items() if k != "strict"])


@model("builtins.reversed", "x")
def _rev(a):
    return RevV(a.v("x"))


@model("numpy.ndenumerate numpy.nditer numpy.ndindex", "x, ...")
def _nde(a):
    return unknown(a)


@model("builtins.list builtins.tuple builtins.sorted builtins.iter", "x=, ...")
def _list(a):
    short = a.name.split(".")[-1]
    v = a.v("x")
    if v is None:
        items = []
    else:
        if isinstance(v, MaybeUnb):
            v = v.value
        items = a.I.concrete_items(v, a.st)
        if items is None and isinstance(v, (Ref, Node)):
            n = a.I.num(v, a.st)
            d = dims(n)
            if d and is_const(d[0]) and cval(d[0]) <= 16 and len(d) == 1:
                items = [mk("getitem", n, (const(i),)) for i in range(cval(d[0]))]
    if short == "sorted":
        if items is not None and all(isinstance(x, Node) and is_num_const(x) for x in items):
            items = sorted(items, key=lambda x: cval(x))
        else:
            n = a.I.num(v, a.st)
            return PyList(a.I.new_region(a.st, mk("sort", n, -1)))
    if items is None:
        if isinstance(v, (EnumV, ZipV, RevV)):
            return Opq(mk("ext", "list", (), None, nodes.fresh()))
        n = a.I.num(v, a.st)
        if rank(n) == 0:
            return Opq(mk("ext", "list", (n,), None, 0))
        return PyList(a.I.new_region(a.st, n))
    if short == "tuple":
        return PyTuple(items)
    return PyList(a.I.new_region(a.st, ("pylist", tuple(items))))


@model("builtins.next", "x, d=")
def _next(a):
    return Opq(mk("ext", "next", (a.I.num(a.v("x"), a.st),), None, nodes.fresh()))


@model("builtins.dict", "x=, ...")
def _dict(a):
    items = [(k, v) for k, v in a.d.items() if k != "x"]
    v = a.v("x")
    if isinstance(v, PyDict) and isinstance(a.st.heap.get(v.rid), tuple):
        items = list(a.st.heap[v.rid][1]) + items
    elif v is not None:
        return PyDict(a.I.new_region(a.st, mk("ext", "dict", (), None, nodes.fresh())))
    return PyDict(a.I.new_region(a.st, ("pydict", tuple(items))))


def typename(v, st):
    """python type of a value: name or None"""
    if isinstance(v, MaybeUnb):
        v = v.value
    if isinstance(v, Ref):
        return "ndarray"
    if isinstance(v, PyList):
        return "list"
    if isinstance(v, PyTuple):
        return "tuple"
    if isinstance(v, PyDict):
        return "dict"
    if isinstance(v, Node):
        if v.op == "const":
            return type(v.args[0]).__name__
        return {"i": "int", "f": "float", "c": "complex", "b": "bool"}.get(kind(v))
    if isinstance(v, (Func, Bound)):
        return "function"
    return None


TYPEUP = {"int": {"int", "Number", "Integral", "Real", "object", "Rational", "Complex"},
          "bool": {"bool", "int", "Number", "Integral", "Real", "object"},
          "float": {"float", "Number", "Real", "object", "Complex"},
          "complex": {"complex", "Number", "object", "Complex"},
          "ndarray": {"ndarray", "object", "Iterable", "Sized"},
          "list": {"list", "object", "Sequence", "Iterable"},
          "tuple": {"tuple", "object", "Sequence", "Iterable"}, "str": {"str", "object", "basestring"},
          "dict": {"dict", "object"}, "NoneType": {"NoneType", "object"}, "function": {"function", "object"}}
# a value that came out of a numpy expression may also be a numpy scalar
NPSCALAR = {"integer", "floating", "number", "generic", "complexfloating", "inexact", "int64", "float64", "int32",
            "complex128", "intp", "int_"}


@model("builtins.isinstance", "x, t")
def _isinst(a):
    v = a.v("x")
    if isinstance(v, MaybeUnb):
        v = v.value
    ts = a.I.seq_items(a.v("t"), a.st)
    if ts is None:
        ts = [a.v("t")]
    return isinst(a, v, ts)


def isinst(a, v, ts):
    if isinstance(v, MaybeUnb):
        v = v.value
    if isinstance(v, Choice):
        return a.I.merge_val(v.cond, isinst(a, v.a, ts), isinst(a, v.b, ts))
    if isinstance(v, Inst):
        return const(any(isinstance(t, Cls) and t in v.cls.mro() for t in ts))
    tn = typename(v, a.st)
    names = [t.name.split(".")[-1] if isinstance(t, Ext) else None for t in ts]
    if tn is not None:
        up = TYPEUP.get(tn, {tn, "object"})
        if any(n in up for n in names):
            return const(True)
        if tn in ("int", "float", "complex", "bool") and v.op != "const" and any(n in NPSCALAR for n in names):
            return mk("ext", "isinstance", (v,), 0, nodes.fresh())
        if all(n is not None for n in names):
            return const(False)
    return mk("ext", "isinstance", (a.I.num(v, a.st),), 0, nodes.fresh())


@model("builtins.type", "x, ...")
def _type(a):
    v = a.v("x")
    if isinstance(v, Inst):
        return v.cls
    tn = typename(v, a.st)
    if tn == "ndarray":
        return Ext("numpy.ndarray")
    if tn is not None:
        return Ext("builtins." + tn)
    return Opq(mk("ext", "type", (a.I.num(v, a.st),), None, 0))


@model("builtins.callable", "x")
def _callable(a):
    v = a.v("x")
    if isinstance(v, (Func, Bound, Cls, Ext)):
        return const(True)
    if isinstance(v, (Node, Ref, PyTuple, PyList)):
        return const(False)
    return mk("ext", "callable", (), 0, nodes.fresh())


@model("builtins.hasattr builtins.getattr", "o, name, default=")
def _getattr(a):
    short = a.name.split(".")[-1]
    nm = a.s("name")
    o = a.v("o")
    if nm is None:
        return Opq(mk("ext", short, (), None, nodes.fresh()))
    if short == "getattr" and "default" not in a.d:
        return a.I.getattr(o, nm, a.st, a.loc)
    if isinstance(o, Inst):
        k = (o.oid, nm)
        has = k in a.st.attrs and a.st.attrs[k] is not UNBOUND or o.cls.lookup(nm)[1] is not None
        if k in a.st.attrs and isinstance(a.st.attrs[k], (Choice, MaybeUnb)):
            un = a.I.unbound_cond(a.st.attrs[k])
            if un is not None or isinstance(a.st.attrs[k], MaybeUnb):
                has = None
    elif isinstance(o, (Ref, Node, PyTuple, PyList)):
        tn = typename(o, a.st)
        if tn == "ndarray":
            has = nm in NS["numpy_ndarray"]
        elif isinstance(o, (PyList, PyTuple)):
            has = nm in dir([]) if isinstance(o, PyList) else nm in dir(())
        elif tn in ("int", "float", "complex", "bool") and o.op == "const":
            has = nm in dir(0.0) or nm in dir(0)
        elif isinstance(o, Node) and o.op == "const":
            has = nm in dir(o.args[0])
        else:
            has = None
    else:
        has = None
    if short == "hasattr":
        if has is None:
            return mk("ext", "hasattr", (), 0, nodes.fresh())
        return const(bool(has))
    if has is True:
        return a.I.getattr(o, nm, a.st, a.loc)
    if has is False:
        return a.v("default")
    try:
        v = a.I.getattr(o, nm, a.st, a.loc)
    except PathEnd:
        return a.v("default")
    return Choice(mk("ext", "hasattr", (), 0, nodes.fresh()), v, a.v("default"))


@model("builtins.setattr", "o, name, v")
def _setattr(a):
    nm = a.s("name")
    if nm is None:
        raise Giveup("setattr with computed name")
    a.I.setattr(a.v("o"), nm, a.v("v"), a.st, a.loc)
    return const(None)


@model("copy.copy copy.deepcopy", "x, memo=")
def _pycopy(a):
    deep = a.name.endswith("deepcopy")
    memo = {}

    def go(v, top):
        if isinstance(v, MaybeUnb):
            return MaybeUnb(go(v.value, top), v.lv, v.why) if deep else v
        if isinstance(v, Choice):
            return a.I.merge_val(v.cond, go(v.a, top), go(v.b, top)) if v.a is not UNBOUND and \
                v.b is not UNBOUND else v
        if not (top or deep):
            return v
        if isinstance(v, Inst):
            if v.oid not in memo:
                memo[v.oid] = Inst(nodes.fresh(), v.cls)
                for (o, k), x in list(a.st.attrs.items()):
                    if o == v.oid:
                        a.st.attrs[memo[v.oid].oid, k] = go(x, False)
            return memo[v.oid]
        if isinstance(v, Ref):
            return a.I.wrap(a.I.num(v, a.st), a.st, a.loc)
        if isinstance(v, PyTuple):
            return PyTuple([go(x, False) for x in v.items])
        if isinstance(v, (PyList, PyDict)):
            c = a.st.heap.get(v.rid)
            if isinstance(c, tuple) and c[0] == "pylist":
                c = (c[0], tuple(go(x, False) for x in c[1]))
            elif isinstance(c, tuple):
                c = (c[0], tuple((k, go(x, False)) for k, x in c[1]))
            return type(v)(a.I.new_region(a.st, c))
        return v
    return go(a.v("x"), True)


@model("builtins.divmod", "x, y")
def _divmod(a):
    return PyTuple([a.I.binop("floordiv", a.v("x"), a.v("y"), a.st, a.loc),
                    a.I.binop("mod", a.v("x"), a.v("y"), a.st, a.loc)])


@model("builtins.pow", "x, y")
def _pow(a):
    return a.I.binop("pow", a.v("x"), a.v("y"), a.st, a.loc)


@model("builtins.map", "f, xs")
def _map(a):
    it = a.I.concrete_items(a.v("xs"), a.st)
    if it is None:
        raise Giveup("map over symbolic sequence")
    return PyList(a.I.new_region(a.st, ("pylist", tuple(
        a.I.call(a.v("f"), [x], {}, a.st, a.loc) for x in it))))


@model("builtins.slice", "a, b=, c=")
def _slice(a):
    if a.has("b") or "b" in a.d:
        return SliceV(a.v("a"), a.v("b"), a.v("c"))
    return SliceV(None, a.v("a"), None)


@model("builtins.noop builtins.object warnings.warn warnings.simplefilter_", "...")
def _noop(a):
    return const(None)


@model("builtins.print", "...")
def _print(a):
    a.I.ev("extcall", a.loc, a.st, name="builtins.print", args=[])
    return const(None)


MATH1 = {"sqrt": "sqrt", "sin": "sin", "cos": "cos", "tan": "tan", "exp": "exp", "log2": "log2",
         "log10": "log10", "ceil": "mceil", "floor": "mfloor", "fabs": "abs", "sinh": "sinh", "cosh": "cosh",
         "tanh": "tanh", "asin": "arcsin", "acos": "arccos", "atan": "arctan", "trunc": "toint",
         "isnan": "isnan", "isinf": "isinf", "isfinite": "isfinite", "expm1": "expm1", "log1p": "log1p",
         "degrees": "rad2deg", "radians": "deg2rad", "gamma": "gamma", "lgamma": "lgamma"}


def _mkmath(op):
    def f(a):
        n = scalarise(a, a.n("x"))
        if kind(n) == "c":
            a.I.ev("typeerr", a.loc, a.st, msg="complex passed to %s" % a.name)
            raise PathEnd("TypeError", a.loc)
        a.I.ev("mathdom", a.loc, a.st, op=op, node=n)
        return fold(op, n)
    return f


for _k, _op in MATH1.items():
    MODELS["math." + _k] = ("x", _mkmath(_op))


@model("math.log", "x, base=")
def _mlog(a):
    n = scalarise(a, a.n("x"))
    if a.has("base"):
        return fold("div", fold("log", n), fold("log", a.n("base")))
    return fold("log", n)


@model("math.atan2 math.pow math.hypot math.fmod math.copysign", "x, y")
def _m2(a):
    op = {"atan2": "arctan2"}.get(a.name.split(".")[-1], a.name.split(".")[-1])
    return fold(op, a.n("x"), a.n("y"))


@model("math.gcd", "x, y")
def _gcd(a):
    return mk("ext", "gcd", (a.n("x"), a.n("y")), 0, 0)


@model("scipy.special.gamma", "x")
def _gam(a):
    return a.I.wrap(fold("gamma", a.n("x")), a.st, a.loc)


# ------------------------------------------------------------------- methods
LISTMUT = {"append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear"}


def call_method(I, obj, name, args, kw, st, loc):
    if isinstance(obj, MaybeUnb):
        obj = obj.value
    args = [x.value if isinstance(x, MaybeUnb) else x for x in args]
    if isinstance(obj, PyList):
        return list_method(I, obj, name, args, kw, st, loc)
    if isinstance(obj, PyDict):
        return dict_method(I, obj, name, args, kw, st, loc)
    if isinstance(obj, PyTuple):
        if name == "index" or name == "count":
            return mk("ext", "tuple." + name, tuple(I.num(x, st) for x in args), 0, 0)
        raise Giveup("tuple method " + name)
    if isinstance(obj, Node) and obj.op == "const" and isinstance(obj.args[0], str):
        if name in ("lower", "upper", "strip", "title") and not args:
            return const(getattr(obj.args[0], name)())
        if name in ("startswith", "endswith") and args and isinstance(args[0], Node) and args[0].op == "const" \
                and isinstance(args[0].args[0], str):
            return const(getattr(obj.args[0], name)(args[0].args[0]))
        return Opq(mk("ext", "str." + name, tuple(I.num(x, st) for x in args), None, 0))
    if isinstance(obj, Opq) and obj.tag == "mpl":
        return mpl_call(I, "matplotlib." + name, obj.node, args, kw, st, loc)
    if isinstance(obj, Opq) and obj.tag == "rng":
        I.ev("rng", loc, st, name="generator." + name, args=args)
        return rng_call(I, "numpy.random." + name, args, kw, st, loc)
    n = I.num(obj, st)
    call = lambda nm, *xs, **k: call_ext(I, nm, list(xs), dict(kw, **k), st, loc)
    if name == "reshape":
        if len(args) == 1:
            return call("numpy.reshape", obj, args[0])
        return call("numpy.reshape", obj, PyTuple(args))
    if name == "transpose":
        if not args:
            return call("numpy.transpose", obj)
        return call("numpy.transpose", obj, PyTuple(args) if len(args) > 1 else args[0])
    if name in ("flatten", "copy"):
        if name == "copy":
            return call("numpy.copy", obj)
        if rank(n) == 1:
            return I.wrap(n, st, loc)
        if kw or args:
            r = call("numpy.ravel", obj, *args)
            return I.wrap(I.num(r, st), st, loc)
        return I.wrap(mk("ravel", n), st, loc)
    if name == "astype":
        k = dtype_kind(args[0] if args else kw.get("dtype"))
        d = args[0] if args else kw.get("dtype")
        cp = kw.get("copy")
        nocopy = isinstance(cp, Node) and cp.op == "const" and not cp.args[0]
        if k is None:
            return I.wrap(mk("ext", "astype", (n,), rank(n), 0), st, loc) if rank(n) is not None else \
                Opq(mk("ext", "astype", (n,), None, 0))
        if kind(n) == k:
            if nocopy and isinstance(obj, Ref):
                return obj
            if dtype_small(d):
                return I.wrap(mk("astype", n, k, "narrow"), st, loc)
            return I.wrap(n, st, loc)
        return I.wrap(mk("astype", n, k) if not dtype_small(d) else mk("astype", n, k, "narrow"), st, loc)
    if name in ("conj", "conjugate"):
        if kind(n) in "ifb":
            return obj
        return call("numpy.conj", obj)
    if name == "tolist":
        if rank(n) == 0:
            return n
        return PyList(I.new_region(st, n))
    if name == "sort":
        if isinstance(obj, Ref):
            I.write_ref(obj, mk("sort", n, -1), st, loc, ".sort()")
        return const(None)
    if name == "fill":
        if isinstance(obj, Ref):
            d = dims(n)
            v = I.num(args[0], st)
            I.write_ref(obj, mk("full", d, v, kind(n)) if d is not None else
                        mk("mutated", n, (v,), nodes.fresh()), st, loc, ".fill()")
        return const(None)
    if name in ("put", "resize", "partition", "itemset", "setfield", "setflags", "byteswap"):
        I.mutate(obj, st, loc, "." + name + "()")
        return const(None)
    if name == "item":
        if args:
            return mk("getitem", n, (I.num(args[0], st),))
        a = A(I, st, loc, "item", {"x": obj})
        return scalarise(a, n)
    if name == "view":
        return Ref(obj.rid, obj.path + (("ext", "view"),)) if isinstance(obj, Ref) and args else obj
    if name == "is_integer":
        return mk("eq", fold("floor", n), n)
    if name in ("nonzero", "sum", "mean", "max", "min", "prod", "any", "all", "std", "var", "argmax", "argmin",
                "cumsum", "cumprod", "ravel", "dot", "round", "clip", "repeat", "squeeze", "swapaxes", "take",
                "argsort", "ptp"):
        return call("numpy." + name, obj, *args)
    if name in ("diagonal", "trace", "searchsorted", "compress", "choose", "tobytes", "tostring", "dump"):
        return Opq(mk("ext", "meth." + name, (n,) + tuple(I.num(x, st) for x in args), None, 0))
    return Opq(mk("ext", "meth." + name, (n,) + tuple(I.num(x, st) for x in args), None, 0))


def list_method(I, obj, name, args, kw, st, loc):
    c = st.heap.get(obj.rid)
    if name in LISTMUT:
        I.ev("mutate", loc, st, regions={obj.rid}, how="list." + name)
        if isinstance(c, tuple) and c[0] == "pylist":
            it = list(c[1])
            if name == "append":
                st.heap[obj.rid] = ("pylist", tuple(it + [args[0]]))
                return const(None)
            if name == "extend":
                w = I.seq_items(args[0], st)
                if w is not None:
                    st.heap[obj.rid] = ("pylist", tuple(it + w))
                    return const(None)
            if name == "insert" and isinstance(args[0], Node) and is_const(args[0]):
                it.insert(cval(args[0]), args[1])
                st.heap[obj.rid] = ("pylist", tuple(it))
                return const(None)
            if name == "pop" and it and (not args or is_const(args[0])):
                v = it.pop(cval(args[0]) if args else -1)
                st.heap[obj.rid] = ("pylist", tuple(it))
                return v
            if name == "reverse":
                st.heap[obj.rid] = ("pylist", tuple(reversed(it)))
                return const(None)
            if name == "clear":
                st.heap[obj.rid] = ("pylist", ())
                return const(None)
        deps = tuple(I.num(x, st) for x in args)
        old = (I.num(obj, st),)
        st.heap[obj.rid] = mk("ext", "list", old + deps, None, nodes.fresh())
        return const(None) if name != "pop" else Opq(mk("ext", "pop", old, None, nodes.fresh()))
    if name == "copy":
        return PyList(I.new_region(st, c))
    return mk("ext", "list." + name, (I.num(obj, st),) + tuple(I.num(x, st) for x in args), 0, 0)


def dict_method(I, obj, name, args, kw, st, loc):
    c = st.heap.get(obj.rid)
    known = isinstance(c, tuple) and c[0] == "pydict"
    key = cval(args[0]) if args and isinstance(args[0], Node) and args[0].op == "const" else None
    if name in ("get", "pop", "setdefault"):
        dflt = args[1] if len(args) > 1 else const(None)
        if known and key is not None:
            for k, v in c[1]:
                if k == key:
                    if name == "pop":
                        st.heap[obj.rid] = ("pydict", tuple((a, b) for a, b in c[1] if a != key))
                        I.ev("mutate", loc, st, regions={obj.rid}, how="dict.pop")
                    return v
            if name == "setdefault":
                st.heap[obj.rid] = ("pydict", c[1] + ((key, dflt),))
                I.ev("mutate", loc, st, regions={obj.rid}, how="dict.setdefault")
            if name == "pop" and len(args) == 1:
                I.ev("keyerr", loc, st, key=key)
                raise PathEnd("KeyError", loc)
            return dflt
        if name != "get":
            I.ev("mutate", loc, st, regions={obj.rid}, how="dict." + name)
        return Opq(mk("ext", "dict." + name, (I.num(obj, st),) + tuple(
            I.num(x, st) for x in args if not isinstance(x, (Func, Cls))), None, nodes.fresh()))
    if name in ("update", "clear", "popitem"):
        I.ev("mutate", loc, st, regions={obj.rid}, how="dict." + name)
        if name == "update" and known:
            new = list(c[1])
            add = []
            if args and isinstance(args[0], PyDict) and isinstance(st.heap.get(args[0].rid), tuple):
                add = list(st.heap[args[0].rid][1])
            elif args:
                add = None
            if add is not None:
                for k, v in add + list(kw.items()):
                    new = [(a, b) for a, b in new if a != k] + [(k, v)]
                st.heap[obj.rid] = ("pydict", tuple(new))
                return const(None)
        st.heap[obj.rid] = mk("ext", "dict", (), None, nodes.fresh())
        return const(None)
    if known and name == "items":
        return PyTuple([PyTuple([const(k), v]) for k, v in c[1]])
    if known and name == "keys":
        return PyTuple([const(k) for k, v in c[1]])
    if known and name == "values":
        return PyTuple([v for k, v in c[1]])
    if name == "copy":
        return PyDict(I.new_region(st, c))
    return Opq(mk("ext", "dict." + name, (I.num(obj, st),), None, nodes.fresh()))


# ---------------------------------------------------------------- np.r_ / c_
def ext_getitem(I, name, k, st, loc):
    a = A(I, st, loc, name, {})
    ks = k.items if isinstance(k, PyTuple) else (k,)
    if name in ("numpy.r_", "numpy.c_"):
        ns = []
        for x in ks:
            if isinstance(x, SliceV):
                g = lambda y, d: d if y is None else I.num(y, st)
                stp = g(x.st, const(1))
                if is_num_const(stp) and isinstance(cval(stp), complex):
                    ns.append(mk("linspace", g(x.s, const(0)), g(x.e, None), const(int(abs(cval(stp)))), True))
                else:
                    ns.append(mk("arange", g(x.s, const(0)), g(x.e, None), stp, None))
            elif isinstance(x, Node) and x.op == "const" and isinstance(x.args[0], str):
                return Opq(mk("ext", name, (), None, nodes.fresh()))
            else:
                ns.append(I.num(x, st))
        if any(rank(n) is None for n in ns):
            return Opq(mk("ext", name, tuple(ns), None, 0))
        if name == "numpy.r_":
            ns = [mk("list", (n,)) if rank(n) == 0 else n for n in ns]
            return concat(a, ns, 0)
        sl = ("slice", None, None, None)
        ns = [mk("list", (mk("list", (n,)),)) if rank(n) == 0 else
              (mk("getitem", n, (sl, "newaxis")) if rank(n) == 1 else n) for n in ns]
        return concat(a, ns, 1)
    if name == "numpy.s_" or name == "numpy.index_exp":
        return k
    if name in ("numpy.mgrid", "numpy.ogrid"):
        return Opq(mk("ext", name, (), None, nodes.fresh()))
    return Opq(mk("ext", "item:" + name, (), None, nodes.fresh()), "global:" + name)

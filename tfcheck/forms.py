"""Polynomial-form domain: every element of an array term is described as a
sparse polynomial whose indeterminates are the (unknown) samples of the input
arrays and the (unknown) scalar options, for one partition of the sizes.

Array contents built in loops are resolved by instance-wise array dataflow:
the definition of an element at loop exit is the last store instance that hits
it.  Index and size arithmetic is constant-propagated; data is never given a
value, so an equality of forms holds for every signal, window and option.
"""
import cmath
import itertools
import math

from . import nodes, peval
from .nodes import Node, rank, kind, LV, MU, lvs
from .peval import Evaluator, U, exact, Iv, TooBig

TOL = 1e-9


class Poly(object):
    __slots__ = ("t", "_k")

    def __init__(self, t):
        self.t = t
        self._k = None

    def key(self):
        if self._k is None:
            self._k = tuple(sorted((m, _r(c)) for m, c in self.t.items() if abs(c) > TOL))
        return self._k

    def __repr__(self):
        return show(self)


def _r(c):
    c = complex(c)
    a = float("%.8g" % c.real) + 0.0
    b = float("%.8g" % c.imag) + 0.0
    if abs(a) < TOL:
        a = 0.0
    if abs(b) < TOL:
        b = 0.0
    return (a, b)


class Atoms(object):
    """Interned indeterminates."""

    def __init__(self):
        self.by = {}
        self.info = []

    def get(self, key, **kw):
        i = self.by.get(key)
        if i is None:
            i = len(self.info)
            self.by[key] = i
            self.info.append(dict(kw, key=key))
        return i


A = Atoms()


def reset():
    A.by.clear()
    del A.info[:]


def pconst(c):
    return Poly({(): complex(c)}) if c != 0 else Poly({})


def atom(i, e=1):
    return Poly({((i, e),): 1.0 + 0j})


def sample(name, idx, cplx):
    if cplx:
        a = A.get(("x", name, idx, 0), k="x")
        b = A.get(("x", name, idx, 1), k="x")
        A.info[a]["conj"], A.info[b]["conj"] = b, a
        return atom(a)
    a = A.get(("x", name, idx, 0), k="x")
    A.info[a]["conj"] = a
    return atom(a)


def scalar(name):
    a = A.get(("p", name), k="p")
    A.info[a]["conj"] = a
    return atom(a)


def func(name, *args, **kw):
    """Opaque application name(args)."""
    real = kw.get("real", False)
    a = A.get((name,) + tuple(x.key() if isinstance(x, Poly) else x for x in args), k="f",
              name=name, args=args, real=real)
    if real:
        A.info[a]["conj"] = a
    return atom(a)


def isnum(p):
    return not p.t or (len(p.t) == 1 and () in p.t)


def num(p):
    return p.t.get((), 0j) if p.t else 0j


def P(v):
    if isinstance(v, Poly):
        return v
    if exact(v):
        if isinstance(v, complex):
            if v != v:
                return None
            r, i = P(v.real), P(v.imag)
            return pconst(v) if isnum(r) and isnum(i) else add(r, scale(i, 1j))
        if v != v:
            return None
        if math.isinf(v):
            return scale(func("infinity", real=True), 1 if v > 0 else -1)
        return pconst(v)
    return None


def add(p, q, s=1):
    if len(p.t) < len(q.t) and s == 1:
        p, q = q, p
    t = dict(p.t)
    for m, c in q.t.items():
        v = t.get(m, 0j) + s * c
        if abs(v) <= 1e-13 * max(1.0, abs(c)):
            t.pop(m, None)
        else:
            t[m] = v
    return Poly(t)


def scale(p, c):
    if c == 0:
        return Poly({})
    return Poly({m: v * c for m, v in p.t.items()})


def _mm(m1, m2):
    """Product of two monomials -> (mono, factor)."""
    if not m1:
        return m2, 1
    if not m2:
        return m1, 1
    d = dict(m1)
    for a, e in m2:
        if a in d and A.info[a].get("name") in BOOL:
            continue                      # c * c = c
        d[a] = d.get(a, 0) + e
    f = 1
    ex = [a for a in d if d[a] and A.info[a].get("name") == "exp"]
    if len(ex) > 1 or (ex and d[ex[0]] != 1):
        tot = Poly({})
        for a in ex:
            tot = add(tot, scale(A.info[a]["args"][0], d.pop(a)))
        e = exp(tot)
        (m, f), = e.t.items()
        for a, k in m:
            d[a] = d.get(a, 0) + k
    sq = [a for a in d if A.info[a].get("name") == "sqrt" and abs(d[a]) >= 2]
    if sq:
        return tuple(sorted((a, e) for a, e in d.items() if e)), f, sq
    return tuple(sorted((a, e) for a, e in d.items() if e)), f


def lift(p):
    if len(p.t) <= 8:
        return p
    return func("lift", p, real=isreal(p))


class Blowup(Exception):
    pass


def mul(p, q):
    if len(p.t) * len(q.t) > 20000:
        # keep the factors as opaque terms instead of expanding the product
        p, q = lift(p), lift(q)
    t = {}
    extra = None
    for m1, c1 in p.t.items():
        for m2, c2 in q.t.items():
            r = _mm(m1, m2)
            c = c1 * c2 * r[1]
            if len(r) == 3:
                x = _desqrt(r[0], c, r[2])
                extra = x if extra is None else add(extra, x)
                continue
            m = r[0]
            v = t.get(m, 0j) + c
            t[m] = v
    for m in [m for m, v in t.items() if abs(v) < 1e-13]:
        del t[m]
    r = Poly(t)
    return r if extra is None else add(r, extra)


def _desqrt(m, c, sq):
    d = dict(m)
    res = pconst(c)
    for a in sq:
        e = d[a]
        h = int(e / 2)            # towards zero
        d[a] = e - 2 * h
        b = A.info[a]["args"][0]
        res = mul(res, ipow(b, h))
    rest = tuple(sorted((a, e) for a, e in d.items() if e))
    return mul(res, Poly({rest: 1 + 0j}))


def ipow(p, n):
    if n < 0:
        return ipow(inv(p), -n)
    r = pconst(1)
    b = p
    while n:
        if n & 1:
            r = mul(r, b)
        n >>= 1
        if n:
            b = mul(b, b)
    return r


def lead(p):
    m = min(p.t)
    return p.t[m]


def inv(p):
    if isnum(p):
        return pconst(1 / num(p))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        out = []
        r = pconst(1 / c)
        for a, e in m:
            if A.info[a].get("name") == "exp":
                r = mul(r, exp(scale(A.info[a]["args"][0], -e)))
            else:
                out.append((a, -e))
        return mul(r, Poly({tuple(out): 1 + 0j}))
    c = lead(p)
    q = scale(p, 1 / c)
    return scale(_opaque("inv", q), 1 / c)


def isreal(p):
    return p is not None and conj(p) is not None and conj(p).key() == p.key()


def _opaque(name, p, *more):
    return func(name, p, *more, real=isreal(p))


def conj(p):
    if all(not m for m in p.t):
        return Poly({m: c.conjugate() for m, c in p.t.items()})
    r = Poly({})
    simple = {}
    for m, c in p.t.items():
        out = []
        big = None
        for a, e in m:
            i = A.info[a]
            cj = i.get("conj")
            if cj is not None:
                out.append((cj, e))
                continue
            nm = i.get("name")
            if nm == "exp":
                f = exp(scale(conj(i["args"][0]), e))
            elif nm in ("inv", "log", "pow", "sqrt", "lift"):
                f = ipow(_opaque(nm, conj(i["args"][0]), *i["args"][1:]), e)
            else:
                f = ipow(func("conj", atom(a)), e)
            big = f if big is None else mul(big, f)
        if big is None:
            k = tuple(sorted(out))
            simple[k] = simple.get(k, 0j) + c.conjugate()
        else:
            r = add(r, mul(big, Poly({tuple(sorted(out)): c.conjugate()})))
    return add(r, Poly(simple))


def exp(p):
    c0 = p.t.get((), 0j)
    rest = Poly({m: c for m, c in p.t.items() if m})
    if not rest.t:
        return pconst(cmath.exp(c0))
    # exp(c log q) -> q ** c
    if len(rest.t) == 1:
        (m, c), = rest.t.items()
        if len(m) == 1 and m[0][1] == 1 and A.info[m[0][0]].get("name") == "log":
            return scale(power(A.info[m[0][0]]["args"][0], c.real if c.imag == 0 else c), cmath.exp(c0))
    # 2 pi i periodicity of the coefficients is not applied: they multiply data
    return scale(func("exp", rest, real=isreal(rest)), cmath.exp(c0))


def power(p, e):
    if isinstance(e, complex) and e.imag == 0:
        e = e.real
    if isnum(p) and not isinstance(e, complex):
        b = num(p)
        b = b.real if b.imag == 0 else b
        try:
            r = b ** e
        except (ZeroDivisionError, OverflowError):
            return None
        return pconst(r)
    if not isinstance(e, complex) and float(e).is_integer() and abs(e) <= 16:
        return ipow(p, int(e))
    if e == 0.5:
        return sqrt(p)
    if e == -0.5:
        return inv(sqrt(p))
    return _opaque("pow", p, e if not isinstance(e, float) else float("%.10g" % e))


def sqrt(p):
    if isnum(p):
        c = num(p)
        return pconst(cmath.sqrt(c))
    c = lead(p)
    if abs(c.imag) < 1e-12 and c.real > 0:
        return scale(func("sqrt", scale(p, 1 / c.real), real=isreal(p)), math.sqrt(c.real))
    return func("sqrt", p, real=isreal(p))


def re(p):
    return scale(add(p, conj(p)), 0.5)


def im(p):
    return scale(add(p, conj(p), -1), -0.5j)


def absv(p):
    return sqrt(mul(p, conj(p)))


def apply(op, vs):
    """Transfer function on exact values and forms."""
    if all(exact(v) for v in vs):
        r = peval.apply(op, vs)
        return r if exact(r) else U
    if op in ("ite", "where"):
        if exact(vs[0]):
            return vs[1] if vs[0] else vs[2]
        if any(v is U for v in vs):
            return U
        a, b = P(vs[1]), P(vs[2])
        if a is not None and b is not None and a.key() == b.key():
            return vs[1]
        c = P(vs[0])
        if a is None or b is None or c is None:
            return U
        if not isbool(c):
            c = add(pconst(1), eq0(c), -1)
        return add(b, mul(c, add(a, b, -1)))
    if any(v is U or isinstance(v, (Iv, peval.Cx)) for v in vs):
        if op == "mul" and any(exact(v) and v == 0 for v in vs):
            return 0.0
        return U
    if op in ("add", "sub", "mul", "div", "neg") and any(exact(v) and v != v for v in vs):
        return float("nan")             # the forms stand for finite numbers
    ps = [P(v) for v in vs]
    if any(p is None for p in ps):
        return U
    x = ps[0]
    try:
        if op == "add":
            return add(x, ps[1])
        if op == "sub":
            return add(x, ps[1], -1)
        if op == "mul":
            return mul(x, ps[1])
        if op == "div":
            if not ps[1].t:
                return float("nan") if not x.t else U
            return mul(x, inv(ps[1]))
        if op in ("pow", "floatpow"):
            if isnum(ps[1]):
                e = vs[1] if exact(vs[1]) else num(ps[1])
                r = power(x, e)
                return U if r is None else r
            if isnum(x) and num(x).imag == 0 and num(x).real > 0:
                return exp(scale(ps[1], math.log(num(x).real)))
            return func("power", x, ps[1], real=isreal(x) and isreal(ps[1]))
        if op == "neg":
            return scale(x, -1)
        if op in ("pos", "positive", "tofloat", "tocomplex", "copy_", "asarr"):
            return x if op != "tofloat" else x
        if op == "conj":
            return conj(x)
        if op == "real":
            return re(x)
        if op == "imag":
            return im(x)
        if op == "abs":
            return absv(x)
        if op == "square":
            return mul(x, x)
        if op == "sqrt":
            return sqrt(x)
        if op == "reciprocal":
            return inv(x)
        if op == "exp":
            return exp(x)
        if op == "exp2":
            return exp(scale(x, math.log(2)))
        if op in ("log", "log2", "log10"):
            b = {"log": 1.0, "log2": math.log(2), "log10": math.log(10)}[op]
            return scale(log(x), 1 / b)
        if op in ("sin", "cos", "sinh", "cosh"):
            i = 1j if op in ("sin", "cos") else 1
            e1, e2 = exp(scale(x, i)), exp(scale(x, -i))
            if op in ("cos", "cosh"):
                return scale(add(e1, e2), 0.5)
            return scale(add(e1, e2, -1), 0.5 / i)
        if op in ("logical_and", "logical_or", "and_", "or_", "logical_xor"):
            x, y = [p if isbool(p) else add(pconst(1), eq0(p), -1) for p in ps]
            xy = mul(x, y)
            if op in ("logical_and", "and_"):
                return down(xy)
            return down(add(add(x, y), scale(xy, 2 if op == "logical_xor" else 1), -1))
        if op == "lt":
            return down(lt0(add(x, ps[1], -1)))
        if op == "gt":
            return down(lt0(add(ps[1], x, -1)))
        if op == "ge":
            return down(add(pconst(1), lt0(add(x, ps[1], -1)), -1))
        if op == "le":
            return down(add(pconst(1), lt0(add(ps[1], x, -1)), -1))
        if op == "eq":
            return down(eq0(add(x, ps[1], -1)))
        if op == "ne":
            return down(add(pconst(1), eq0(add(x, ps[1], -1)), -1))
        if op in ("not", "logical_not"):
            return down(add(pconst(1), x, -1) if isbool(x) else eq0(x))
        if op == "tobool":
            return x if isbool(x) else down(add(pconst(1), eq0(x), -1))
        if op in ("maximum", "minimum"):
            return extremum(op, ps)
        if op == "mod" and isnum(ps[1]) and num(ps[1]).imag == 0 and num(ps[1]).real > 0:
            return modn(x, num(ps[1]).real)
        if op in ("arctan2", "hypot", "mod", "floordiv", "roundn", "fmod", "copysign"):
            return func(op, *ps, real=True)
        if op in ("round", "rint", "fix", "pyround", "trunc") and not isreal(x):
            r, i = apply(op, [re(x)]), apply(op, [im(x)])
            return apply("add", [r, apply("mul", [1j, i])])
        if op in ("angle", "sign", "floor", "ceil", "round", "rint", "trunc", "fix", "pyround",
                  "toint", "mceil", "mfloor", "isnan", "isinf", "isfinite", "not", "logical_not",
                  "isreal", "tobool"):
            if op == "isnan":
                return False
            if op in ROUND and isint(x):
                return x
            if op in ("round", "rint", "pyround"):
                op = "round"
            return func(op, x, real=True)
        if op in ("arcsin", "arccos", "arctan", "tan", "tanh", "sinc", "arcsinh", "arccosh",
                  "arctanh", "log1p", "expm1", "gamma"):
            return func(op, x, real=isreal(x))
    except (Blowup, OverflowError, ZeroDivisionError):
        return U
    return U


BOOL = {"lt0", "eq0"}
ROUND = {"floor", "ceil", "round", "rint", "trunc", "fix", "pyround", "toint", "mceil", "mfloor"}


def down(p):
    """Constant conditions become plain booleans again."""
    if isnum(p):
        return bool(abs(num(p)) > 0.5)
    return p


def atoms_of(p):
    return {a for m in p.t for a, e in m}


def isbool(p):
    """Is the form 0/1-valued?"""
    ats = sorted(atoms_of(p))
    if len(ats) > 6 or any(A.info[a].get("name") not in BOOL for a in ats):
        return False
    for k in range(2 ** len(ats)):
        v = {a: (k >> i) & 1 for i, a in enumerate(ats)}
        t = sum(c * math.prod(v[a] for a, e in m) for m, c in p.t.items())
        if abs(t) > 1e-9 and abs(t - 1) > 1e-9:
            return False
    return True


def isint(p):
    for m, c in p.t.items():
        if c.imag or c.real != int(c.real):
            return False
        for a, e in m:
            i = A.info[a]
            nm = i.get("name")
            if e < 0 or not (nm in BOOL or nm in ROUND or (nm == "mod" and isint(i["args"][0])
                                                            and float(i["args"][1]).is_integer())
                             or nm in ("maximum", "minimum") and all(isint(x) for x in i["args"])):
                return False
    return True


def norm_sign(d):
    c = lead(d)
    return c


def lt0(d):
    """d < 0 for a real form d."""
    if isnum(d):
        return pconst(1.0 if num(d).real < -1e-14 else 0.0)
    c = lead(d)
    if abs(c.imag) < 1e-12 and c.real:
        d = scale(d, 1 / abs(c.real))
    return func("lt0", d, real=True)


def eq0(d):
    if isnum(d):
        return pconst(1.0 if abs(num(d)) < 1e-14 else 0.0)
    return func("eq0", scale(d, 1 / lead(d)), real=True)


def extremum(op, ps):
    out = {}
    for p in ps:
        ins = [p]
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and A.info[m[0][0]].get("name") == op:
                ins = A.info[m[0][0]]["args"]
        for x in ins:
            out[x.key()] = x
    ks = sorted(out)
    nums = [k for k in ks if isnum(out[k])]
    if len(nums) > 1:
        best = (max if op == "maximum" else min)(nums, key=lambda k: num(out[k]).real)
        ks = [k for k in ks if k == best or k not in nums]
    if len(ks) == 1:
        return out[ks[0]]
    return func(op, *[out[k] for k in ks], real=True)


def modn(p, n):
    """p mod n for a positive constant n."""
    t = {}
    add_ = Poly({})
    for m, c in p.t.items():
        if not m:
            t[m] = complex(c.real % n)
        elif len(m) == 1 and m[0][1] == 1 and A.info[m[0][0]].get("name") == "mod" and c.imag == 0 \
                and float(c.real).is_integer() and A.info[m[0][0]]["args"][1] == n:
            add_ = add(add_, scale(A.info[m[0][0]]["args"][0], c.real))
        else:
            t[m] = c
    q = add(Poly(t), add_)
    if add_.t:
        return modn(q, n)
    if isnum(q):
        return pconst(num(q).real % n)
    return func("mod", q, n, real=True)


def log(p):
    if isnum(p):
        c = num(p)
        return pconst(cmath.log(c))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1 and A.info[m[0][0]].get("name") == "exp" and isreal(A.info[m[0][0]]["args"][0]) \
                and m[0][1] == 1 and c.imag == 0 and c.real > 0:
            return add(A.info[m[0][0]]["args"][0], pconst(math.log(c.real)))
    return _opaque("log", p)


# ------------------------------------------------------------ random identity
def evalnum(p, asg, cache=None):
    """Value of a form under an assignment of the indeterminates (identity testing)."""
    cache = {} if cache is None else cache
    tot = 0j
    for m, c in p.t.items():
        v = c
        for a, e in m:
            v *= _atomval(a, asg, cache) ** e
        tot += v
    return tot


def _atomval(a, asg, cache):
    if a in cache:
        return cache[a]
    i = A.info[a]
    k = i["key"]
    if i["k"] == "x":
        v = asg(("x", k[1], k[2]))
        if A.info[a]["conj"] == a:
            v = v.real
        elif k[3]:
            v = v.conjugate()
    elif i["k"] == "p":
        v = asg(k).real
    else:
        vs = [evalnum(x, asg, cache) if isinstance(x, Poly) else x for x in i["args"]]
        nm = i["name"]
        x = vs[0] if vs else None
        if nm == "inv":
            v = 1 / x
        elif nm == "exp":
            v = cmath.exp(x)
        elif nm == "lift":
            v = x
        elif nm == "infinity":
            v = 1e30
        elif nm == "lt0":
            v = 1.0 if x.real < 0 else 0.0
        elif nm == "eq0":
            v = 1.0 if abs(x) < 1e-12 else 0.0
        elif nm in ("maximum", "minimum"):
            v = (max if nm == "maximum" else min)(z.real for z in vs)
        elif nm == "sqrt":
            v = cmath.sqrt(x)
        elif nm == "log":
            v = cmath.log(x)
        elif nm == "pow":
            v = x ** vs[1]
        elif nm == "power":
            v = x ** vs[1]
        elif nm == "conj":
            v = x.conjugate()
        elif nm == "angle":
            v = cmath.phase(x)
        elif nm == "ite":
            v = vs[1] if x else vs[2]
        else:
            ws = [w.real if isinstance(w, complex) and abs(w.imag) < 1e-9 else w for w in vs]
            if nm in ROUND and isinstance(ws[0], float) and abs(ws[0]) < 1e9:
                # values that only floating-point noise sends to one side or the other
                z = ws[0] + (0.5 if nm in ("round", "rint", "pyround") else 0.0)
                if abs(z - round(z)) < 1e-9 and (z != round(z) or nm in ("round", "rint", "pyround")):
                    raise ValueError("tie")
            v = peval.apply(nm, ws)
            if not exact(v):
                raise ValueError(nm)
    v = complex(v)
    cache[a] = v
    return v


# admissible values of the scalar options (for identity testing of forms)
RANGES = {
    "fnorm": (-0.5, 0.5), "fnormi": (-0.5, 0.5), "fnormf": (-0.5, 0.5), "f0": (0.02, 0.48),
    "fnormin": (0.01, 0.2), "fnormax": (0.3, 0.5), "fnorm0": (0.21, 0.29), "period": (2.0, 60.0),
    "t0": (-3.0, 40.0), "spread": (0.2, 40.0), "h": (-1.5, 1.5), "a0": (-0.4, 0.4),
    "a1": (-0.02, 0.02), "a2": (-0.001, 0.001), "p1t": (1.0, 4.0), "p1f": (0.2, 0.5),
    "p2t": (10.0, 60.0), "p2f": (0.0, 0.2), "c0": (0.5, 4.0), "c1": (0.01, 0.5), "c2": (20.0, 200.0),
    "c3": (0.01, 0.4), "k": (0.1, 0.9), "fmin": (0.01, 0.2), "fmax": (0.25, 0.5),
    "alpha": (1.5, 500.0), "attenuation": (1.0, 20.0), "nu": (0.02, 0.5), "rate": (0.5, 2.0),
    "s_freq": (100.0, 400.0), "f_target": (10.0, 90.0), "distance": (1.0, 50.0),
    "v_target": (1.0, 100.0), "v_wave": (200.0, 400.0), "c": (200.0, 400.0), "ratio": (-20.0, 20.0),
    "time_center": (1.0, 30.0), "q": (0.0, 1.0),
}


class Rnd(object):
    """Deterministic pseudo-random assignment."""

    def __init__(self, seed, ranges=None, mode=""):
        self.seed, self.d, self.ranges, self.mode = seed, {}, ranges or {}, mode

    def jitter(self):
        import random
        for k, v in self.d.items():
            self.d[k] = v * (1 + 1e-3 * random.Random("j|%s" % (k,)).uniform(-1, 1))

    def __call__(self, k):
        if k not in self.d:
            import random
            r = random.Random("%s|%s" % (self.seed, k))
            if k[0] == "p":
                lo, hi = self.ranges.get(k[1], RANGES.get(k[1], (0.05, 0.45)))
                v = r.uniform(lo, hi)
                if self.mode == "big":
                    v = hi
                elif self.mode == "small":
                    v = lo
                elif self.mode == "zero" and lo <= 0 <= hi:
                    v = 0.0
                elif self.mode == "const":
                    v = lo + (hi - lo) * r.uniform(0, 0.05)
                elif self.mode == "neg":
                    v = hi - (hi - lo) * r.uniform(0, 0.05)
                self.d[k] = complex(v)
            else:
                lo, hi = self.ranges.get(k[1], (None, None))
                if k[1].endswith("~U"):
                    self.d[k] = complex(r.uniform(0, 0.999999))
                elif lo is not None:
                    self.d[k] = complex(r.uniform(lo, hi))
                else:
                    v = complex(r.uniform(-2, 2), r.uniform(-2, 2))
                    m = self.mode
                    if m == "real":
                        v = complex(v.real)
                    elif m == "pos":
                        v = complex(abs(v.real) + 0.1)
                    elif m == "neg":
                        v = complex(-abs(v.real) - 0.1)
                    elif m == "big":
                        v *= 1e4
                    elif m == "small":
                        v *= 1e-4
                    elif m == "const":
                        v = 1.5 + 0j
                    elif m == "zero":
                        v = 0j
                    self.d[k] = v
        return self.d[k]


SHARP = {"ite", "lt0", "eq0", "maximum", "minimum", "sign", "floor", "ceil",
         "round", "rint", "trunc", "fix", "pyround", "toint", "mceil", "mfloor", "mod", "floordiv",
         "logical_and", "logical_or", "not", "logical_not", "tobool", "isreal", "roundn", "fmod",
         "copysign", "isinf", "isfinite"}


def sharp(p, seen=None):
    """Does the form contain an operation whose case distinctions matter?"""
    seen = set() if seen is None else seen
    for m in p.t:
        for a, e in m:
            if a in seen:
                continue
            seen.add(a)
            i = A.info[a]
            if i["k"] == "f":
                if i["name"] in SHARP:
                    return True
                if any(isinstance(x, Poly) and sharp(x, seen) for x in i["args"]):
                    return True
    return False


def same(a, b, ranges=None):
    """True / False / None for equality of two abstract values."""
    if exact(a) and exact(b):
        if a != a and b != b or a == b:
            return True
        try:
            return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))
        except OverflowError:
            return a == b
    if a is U or b is U or isinstance(a, (Iv, peval.Cx)) or isinstance(b, (Iv, peval.Cx)):
        return None
    p, q = P(a), P(b)
    if p is None or q is None:
        return None
    d = add(p, q, -1)
    if not d.key():
        return True
    mx = max([abs(c) for c in p.t.values()] + [abs(c) for c in q.t.values()] + [1.0])
    if all(abs(c) <= 1e-8 * mx for c in d.t.values()):
        return True
    if all(A.info[x]["k"] in ("x", "p") and e > 0 for m in d.t for x, e in m):
        return False           # distinct polynomials over free indeterminates
    return identity(p, q, ranges)


MODES = ["", "real", "pos", "neg", "big", "small", "const", "zero"]


def differ(u, v, s, m=0.0):
    return abs(u - v) > max(1e-6 * max(1.0 if s != "small" else 1e-9, abs(u), abs(v)), 1e-9 * m)


def magnitude(p, asg):
    """Sum of the moduli of the terms: the scale of the rounding errors."""
    cache = {}
    tot = 0.0
    for m, c in p.t.items():
        v = abs(c)
        for a, e in m:
            v *= abs(_atomval(a, asg, cache)) ** e
        tot += v
    return tot


def identity(p, q, ranges=None):
    """Identity testing: both forms under deterministic pseudo-random valuations of the
    indeterminates; forms with case distinctions get valuations of several magnitudes."""
    ok = 0
    sh = sharp(p) or sharp(q)
    for s in (MODES * 2 if sh else ["", "", "", ""]):
        try:
            asg = Rnd(s + str(ok), ranges, s)
            u, v = evalnum(p, asg), evalnum(q, asg)
        except (ValueError, ZeroDivisionError, OverflowError, TypeError):
            continue
        if u != u or v != v:
            continue
        if differ(u, v, s) and differ(u, v, s, magnitude(p, asg) + magnitude(q, asg)):
            # a difference must survive a small perturbation (not a singular point)
            asg.jitter()
            try:
                u, v = evalnum(p, asg), evalnum(q, asg)
            except (ValueError, ZeroDivisionError, OverflowError, TypeError):
                continue
            if u == u and v == v and differ(u, v, s, magnitude(p, asg) + magnitude(q, asg)):
                return False
            continue
        ok += 1
    if sh:
        return None
    return True if ok >= 2 else None


def mentions(p, prefix, seen=None):
    """Indeterminates with that name prefix anywhere inside a form."""
    seen = set() if seen is None else seen
    out = set()
    if not isinstance(p, Poly):
        return out
    for m in p.t:
        for a, e in m:
            if a in seen:
                continue
            seen.add(a)
            i = A.info[a]
            if i["k"] == "x":
                if str(i["key"][1]).startswith(prefix):
                    out.add(i["key"])
            elif i["k"] == "f":
                for x in i["args"]:
                    out |= mentions(x, prefix, seen)
    return out


def depends(p, prefix):
    """Does the value change with the indeterminates of that prefix?  True / False / None."""
    if not mentions(p, prefix):
        return False
    for s in MODES:
        base = Rnd(s, None, s)

        def other(k, b=base):
            return b(k) * (0.3 - 0.7j) + 0.11 if str(k[1]).startswith(prefix) else b(k)
        try:
            u, v = evalnum(p, base), evalnum(p, other)
        except (ValueError, ZeroDivisionError, OverflowError, TypeError):
            continue
        if u == u and v == v and differ(u, v, s, magnitude(p, base)):
            return True
    return None


def show(p, limit=6):
    if exact(p):
        return repr(p)
    if not isinstance(p, Poly):
        return repr(p)
    out = []
    for m, c in sorted(p.t.items(), key=lambda z: str(z[0]))[:limit]:
        c = complex(c)
        s = "%.4g" % c.real if abs(c.imag) < 1e-12 else "(%.4g%+.4gj)" % (c.real, c.imag)
        for a, e in m:
            s += "*" + showatom(a) + ("^%g" % e if e != 1 else "")
        out.append(s)
    if len(p.t) > limit:
        out.append("... (%d terms)" % len(p.t))
    r = " + ".join(out) or "0"
    return r if len(r) < 240 else r[:200] + "... (%d terms)" % len(p.t)


def showatom(a):
    i = A.info[a]
    k = i["key"]
    if i["k"] == "x":
        return "%s%s[%s]" % ("conj " if k[3] else "", k[1], ",".join(map(str, k[2])))
    if i["k"] == "p":
        return k[1]
    return "%s(%s)" % (i["name"], ", ".join(show(x, 3) if isinstance(x, Poly) else str(x)
                                            for x in i["args"]))


def accum(base, items, val):
    """a[i] = a[i] + x  ->  ("add", x)"""
    if val.op in ("add", "sub") and len(val.args) == 2:
        for k in (0, 1):
            g = val.args[k]
            if isinstance(g, Node) and g.op == "getitem" and g.args[0] is base and g.args[1] == items:
                if k == 1 and val.op == "sub":
                    continue
                return val.op, val.args[1 - k]
    return None


def nonneg(p):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            i = A.info[m[0][0]]
            nm = i.get("name")
            if nm == "mod":
                return True
            if nm == "maximum":
                return any(isnum(x) and num(x).real >= 0 for x in i["args"])
            if nm == "minimum":
                return all(isnum(x) and num(x).real >= 0 or nonneg(x) for x in i["args"])
            if nm in ROUND:
                return nonneg(i["args"][0])
    return False


# ------------------------------------------------------------------ evaluator
class Forms(Evaluator):
    """Evaluator over forms with instance-wise resolution of loop contents."""
    LIMIT = 20000
    MAXDEPTH = 30000

    def __init__(self, env, symbolic=(), lvv=None):
        Evaluator.__init__(self, env, lvv)
        self.symbolic = set(symbolic)
        self.deps = {}
        self.fftc = {}
        self.draws = {}

    def app(self, op, vs):
        return apply(op, vs)

    def top(self, k):
        return U

    def join(self, a, b):
        r = same(a, b)
        return a if r else U

    def ite(self, c, a, b):
        return apply("ite", [c, a, b])

    # -- loop dependencies
    def _dep(self, n):
        s = lvs(n)
        if not s:
            return ()
        d = self.deps.get(n.id)
        if d is None:
            out = set()
            for x in s:
                if isinstance(x, tuple):
                    for y in nodes.reach([nodes.mk("mu", x[1])]).values():
                        if y.op == "lv":
                            out.add(y.args[0])
                        elif y.op == "mu":
                            out.add(MU[y.args[0]]["lv"])
                else:
                    out.add(x)
                    for y in nodes.reach([nodes.mk("lv", x)]).values():
                        if y.op == "lv":
                            out.add(y.args[0])
            d = self.deps[n.id] = tuple(sorted(out))
        return d

    def _lvkey(self, n):
        return tuple(self.lvv.get(x) for x in self._dep(n))

    def leaf(self, n, idx):
        """Unknown array element."""
        return sample(n.args[0], idx, kind(n) == "c")

    def _el(self, n, idx):
        op = n.op
        a = n.args
        if op == "param":
            if a[0] in self.symbolic:
                return scalar(a[0])
            v = self.env.get(a[0])
            return scalar(a[0]) if v is None else v
        if op == "arr":
            v = self.env.get(a[0])
            if a[0] in self.symbolic or v is None or callable(v) or not isinstance(v, (list, tuple)):
                return self.leaf(n, idx)
            return Evaluator._el(self, n, idx)
        if op == "lv":
            return self.lvv.get(a[0], U)
        if op == "mu":
            return self._mu(n, a[0], idx)
        return Evaluator._el(self, n, idx)

    def trips(self, lid):
        b = LV[lid]
        if b["kind"] == "while" or not b.get("bounds"):
            return None
        s, e, st = [self.ev(x) for x in b["bounds"]]
        if not all(exact(v) and not isinstance(v, complex) and v == v and not math.isinf(v)
                   and v == int(v) for v in (s, e, st)) or st == 0:
            return None
        return range(int(s), int(e), int(st))

    def _e_mudim(self, n, a, idx):
        ax = a[1]

        def size(x, _):
            s = self.shp(x)
            return U if s is None else s[ax]
        return self._mu(a[0], a[0].args[0], idx, size)

    def _mu(self, n, mid, idx, get=None):
        get = get or self.el
        m = MU[mid]
        lid = m["lv"]
        if m.get("brk") and "breaks" not in LV[lid]:
            return U
        if LV[lid]["kind"] == "while":
            return U
        cur = self.lvv.get(lid)
        if cur is None:
            r = self.trips(lid)
            if r is None or m["next"] is None:
                return U
            if not r:
                return get(m["init"], idx) if isinstance(m["init"], Node) else U
            k = r[-1]
        else:
            self.lvv.pop(lid)
            r = self.trips(lid)
            self.lvv[lid] = cur
            if r is None or cur not in r:
                return U
            p = r.index(cur)
            if p == 0:
                if not isinstance(m["init"], Node):
                    return U
                self.lvv.pop(lid)
                try:
                    return get(m["init"], idx)
                finally:
                    self.lvv[lid] = cur
            k = r[p - 1]
        if not isinstance(m["next"], Node):
            return U
        self.lvv[lid] = k
        try:
            return get(m["next"], idx)
        finally:
            if cur is None:
                self.lvv.pop(lid)
            else:
                self.lvv[lid] = cur

    def _e_last(self, n, a, idx):
        lid = a[1]
        cur = self.lvv.pop(lid, None)
        try:
            r = self.trips(lid)
            if not r:
                return U
            self.lvv[lid] = r[-1]
            return self.el(a[0], idx)
        finally:
            self.lvv.pop(lid, None)
            if cur is not None:
                self.lvv[lid] = cur

    def broken(self, lid):
        """(iteration, break number) of the first break; None: completes; U: undecided."""
        cur = self.lvv.pop(lid, None)
        try:
            r = self.trips(lid)
            if r is None or len(r) > 2000:
                return U
            for k in r:
                self.lvv[lid] = k
                for j, c in enumerate(LV[lid]["breaks"]):
                    t = self.truth(c)
                    if t is None:
                        return U
                    if t:
                        return k, j
                self.lvv.pop(lid)
            return None
        finally:
            self.lvv.pop(lid, None)
            if cur is not None:
                self.lvv[lid] = cur

    def _e_brk(self, n, a, idx):
        b = self.broken(a[0])
        if b is U:
            return U
        return b is not None and b[1] == a[1]

    def _e_atbrk(self, n, a, idx):
        lid = a[1]
        b = self.broken(lid)
        if b is U or b is None:
            return U
        cur = self.lvv.get(lid)
        self.lvv[lid] = b[0]
        try:
            return self.el(a[0], idx)
        finally:
            self.lvv.pop(lid)
            if cur is not None:
                self.lvv[lid] = cur

    # -- transforms
    def _e_fft(self, n, a, idx, sign=-1):
        s = self.shp(a[0])
        if s is None:
            return U
        k = a[2] if a[2] >= 0 else a[2] + len(s)
        m = s[k]
        N = m
        if a[1] is not None:
            N = self.ev(a[1])
            if not exact(N):
                return U
            N = int(N)
        tot = 0j
        f = idx[k]
        for j in range(min(m, N)):
            v = self.el(a[0], idx[:k] + (j,) + idx[k + 1:])
            if exact(v) and v == 0:
                continue
            w = cmath.exp(sign * 2j * math.pi * ((f * j) % N) / N)
            w = complex(round(w.real, 15), round(w.imag, 15))
            tot = self.app("add", [tot, self.app("mul", [v, w])])
        return tot

    def _e_ifft(self, n, a, idx):
        v = self._e_fft(n, a, idx, 1)
        s = self.shp(n)
        if s is None:
            return U
        k = a[2] if a[2] >= 0 else a[2] + len(s)
        return self.app("mul", [v, 1.0 / s[k]])

    def _e_hilbert(self, n, a, idx):
        s = self.shp(a[0])
        if s is None or len(s) != 1:
            return U
        N = s[0]
        h = self.fftc.get(("h", N))
        if h is None:
            mask = [0.0] * N
            mask[0] = 1.0
            if N % 2 == 0:
                mask[N // 2] = 1.0
                for i in range(1, N // 2):
                    mask[i] = 2.0
            else:
                for i in range(1, (N + 1) // 2):
                    mask[i] = 2.0
            h = []
            for d in range(N):
                z = sum(mask[k] * cmath.exp(2j * math.pi * k * d / N) for k in range(N)) / N
                h.append(complex(round(z.real, 14), round(z.imag, 14)))
            self.fftc[("h", N)] = h
        tot = 0j
        for j in range(N):
            tot = self.app("add", [tot, self.app("mul", [self.el(a[0], (j,)), h[(idx[0] - j) % N]])])
        return tot

    def _e_linspace(self, n, a, idx):
        s, e, m = self.ev(a[0]), self.ev(a[1]), self.ev(a[2])
        if not exact(m):
            return U
        div = m - 1 if a[3] else m
        if div <= 0:
            return self.app("add", [s, 0.0])
        if a[3] and idx[0] == m - 1:
            return self.app("add", [e, 0.0])
        return self.app("add", [s, self.app("mul", [self.app("sub", [e, s]), idx[0] / div])])

    def _e_convolve(self, n, a, idx):
        p, q = self.shp(a[0]), self.shp(a[1])
        if p is None or q is None or len(p) != 1 or len(q) != 1 or a[2] not in ("full", "same"):
            return U
        p, q = p[0], q[0]
        i = idx[0]
        if a[2] == "same":
            i += (min(p, q) - 1) // 2
        t = 0.0
        for j in range(max(0, i - q + 1), min(p - 1, i) + 1):
            t = self.app("add", [t, self.app("mul", [self.el(a[0], (j,)), self.el(a[1], (i - j,))])])
        return t

    def _e_splev(self, n, a, idx):
        tck = a[1]
        if tck.op != "ext" or tck.args[0] not in ("splrep1", "splrep3") or rank(a[0]) not in (0, 1):
            return U
        xs, ys = tck.args[1]
        s, sy = self.shp(xs), self.shp(ys)
        if s is None or sy is None or len(s) != 1 or s != sy or s[0] < 4:
            return U
        x = [self.el(xs, (i,)) for i in range(s[0])]
        u = self.el(a[0], idx)
        if not all(exact(v) and not isinstance(v, complex) for v in x + [u]) \
                or any(p >= q for p, q in zip(x, x[1:])):
            return U
        w = peval.spline_weights(x, [u]) if tck.args[0] == "splrep3" else [peval.linear_weights(x, u)]
        if w is None:
            return U
        t = 0.0
        for i, c in enumerate(w[0]):
            t = self.app("add", [t, self.app("mul", [c, self.el(ys, (i,))])])
        return t

    def _e_sort(self, n, a, idx):
        s = self.shp(a[0])
        if s is None or len(s) != 1:
            return U
        vs = [self.el(a[0], (i,)) for i in range(s[0])]
        if not all(exact(v) and not isinstance(v, complex) for v in vs):
            return U
        return sorted(vs)[idx[0]]

    def _e_ext(self, n, a, idx):
        if a[0] in ("allclose", "array_equal"):
            x, y = a[1][:2]
            s, t = self.shp(x), self.shp(y)
            if s is None or t is None or len(s) > 1 or len(t) > 1:
                return U
            if s != t and (a[0] == "array_equal" or (s and t and 1 not in s + t)):
                return False if a[0] == "array_equal" else U
            rt, at = self.el(a[1][2], ()), self.el(a[1][3], ())
            m = 0 if 0 in s + t else max(s + t + (1,))
            for i in range(m):
                u = self.el(x, (i if s[0] > 1 else 0,) if s else ())
                v = self.el(y, (i if t[0] > 1 else 0,) if t else ())
                if not (exact(u) and exact(v)):
                    return U
                if u == v:
                    continue
                gap = abs(u - v) - (at + rt * abs(v))
                if abs(gap) < 1e-12:
                    return U
                if gap > 0:
                    return False
            return True
        return U

    def at_mask(self, v, m, idx):
        """Element of a value computed from masked reads, at the masked position idx."""
        if rank(v) == 0:
            return self.ev(v)
        if v.op == "getitem" and len(v.args[1]) == 1 and v.args[1][0] is m:
            return self.el(v.args[0], idx)
        if v.op in nodes.BIN or v.op in nodes.UN:
            return self.app(v.op, [self.at_mask(x, m, idx) for x in v.args])
        return U

    def _e_setitem(self, n, a, idx):
        base, items, val = a
        if len(items) == 1 and isinstance(items[0], Node) and kind(items[0]) == "b" \
                and rank(items[0]) == len(idx) and rank(val) == 1:
            c = self.el(items[0], idx)
            if exact(c) and not c:
                return self.el(base, idx)
            v = self.at_mask(val, items[0], idx)
            return self.ite(c, v, self.el(base, idx))
        if len(items) == len(idx) and all(isinstance(it, Node) and rank(it) == 0 and kind(it) != "b"
                                          for it in items) and rank(val) == 0:
            s = self.shp(base)
            if s is None:
                return U
            c = self.hit(items, idx, s)
            if c is U:
                return U
            if exact(c):
                return self.conv(self.ev(val), kind(n)) if c else self.el(base, idx)
            old = self.el(base, idx)
            inc = accum(base, items, val)
            if inc is not None:
                sg, x = inc
                return self.app(sg, [old, self.ite(c, self.ev(x), 0)])
            return self.ite(c, self.conv(self.ev(val), kind(n)), old)
        return Evaluator._e_setitem(self, n, a, idx)

    def hit(self, items, idx, s):
        """Condition under which a[items] designates the cell idx."""
        c = True
        for it, k, m in zip(items, idx, s):
            v = self.ev(it)
            if v is U or isinstance(v, (Iv, peval.Cx)):
                return U
            if exact(v):
                if isinstance(v, complex) or v != v or math.isinf(v):
                    return U
                v = int(v)
                h = (v + m if v < 0 else v) == k
            else:
                if kind(it) != "i" and not isint(P(v)):
                    v = self.app("toint", [v])
                h = self.app("eq", [v, k])
                if not nonneg(P(v)):
                    h = self.app("logical_or", [h, self.app("eq", [v, k - m])])
            if exact(h):
                if not h:
                    return False
                continue
            c = h if c is True else self.app("logical_and", [c, h])
        return c

    def _e_getitem(self, n, a, idx):
        base, items = a
        if idx == () and len(items) == rank(base) and all(
                isinstance(it, Node) and rank(it) == 0 and kind(it) != "b" for it in items):
            vs = [self.ev(it) for it in items]
            if all(exact(v) for v in vs) or any(v is U for v in vs):
                return Evaluator._e_getitem(self, n, a, idx)
            s = self.shp(base)
            if s is None or math.prod(s) > 64:
                return U
            t = 0
            for cell in itertools.product(*[range(m) for m in s]):
                h = self.hit(items, cell, s)
                if h is U:
                    return U
                if exact(h) and not h:
                    continue
                t = self.app("add", [t, self.ite(h, self.el(base, cell), 0)])
            return t
        return Evaluator._e_getitem(self, n, a, idx)

    def _e_rand(self, n, a, idx):
        nm = "draw%d" % self.draws.setdefault(n.id, len(self.draws))
        if a[2] in ("rand", "random", "uniform01"):
            nm += "~U"
        elif a[2] not in ("randn", "normal", "standard_normal"):
            return U
        return sample(nm, idx, False)

    def _e_empty(self, n, a, idx):
        return sample("uninit~%d" % n.id, idx, True)

    def conv(self, v, k):
        if exact(v):
            return Evaluator.conv(self, v, k)
        if v is U:
            return U
        if k == "i":
            return self.app("toint", [v])
        if k == "f":
            return self.app("real", [v]) if not isreal(P(v)) else v
        return v

    def range_of(self, n):
        return U

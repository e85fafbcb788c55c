"""Abstract interpreter: syntax tree -> value graph, effects and obligations.

The interpreter walks the AST of the repository (never imports it).  Calls to
repository functions are inlined, conditions that are not decided by constants
are explored on both sides and joined with gates ("ite"), loops are closed
with "mu" terms.  Mutable arrays live in regions so that aliases (views,
ravel, asarray, attributes) are followed.
"""
import ast
import os
from . import nodes
from .nodes import Node, mk, const, is_const, is_num_const, cval, rank, dims, kind, MU, LV
from .peval import fold


# ------------------------------------------------------------ python values
class Ref(object):
    """Reference to an array region through a (possibly empty) view path."""
    __slots__ = ("rid", "path")

    def __init__(self, rid, path=()):
        self.rid, self.path = rid, path

    def same(self, o):
        return isinstance(o, Ref) and o.rid == self.rid and o.path == self.path

    def __repr__(self):
        return "Ref(%s%s)" % (self.rid, self.path)


class Choice(object):
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b


class PyTuple(object):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class PyList(object):
    __slots__ = ("rid",)

    def __init__(self, rid):
        self.rid = rid


class PyDict(object):
    __slots__ = ("rid",)

    def __init__(self, rid):
        self.rid = rid


class Rng(object):
    __slots__ = ("s", "e", "st")

    def __init__(self, s, e, st):
        self.s, self.e, self.st = s, e, st


class EnumV(object):
    def __init__(self, it, start):
        self.it, self.start = it, start


class ZipV(object):
    def __init__(self, its):
        self.its = its


class RevV(object):
    def __init__(self, it):
        self.it = it


class SliceV(object):
    def __init__(self, s, e, st):
        self.s, self.e, self.st = s, e, st


class EllipsisV(object):
    pass


class Opq(object):
    """Opaque value (external object); node carries its dependencies."""
    __slots__ = ("node", "tag")

    def __init__(self, node, tag=None):
        self.node, self.tag = node, tag


class Ext(object):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Ext(%s)" % self.name


class Mod(object):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Func(object):
    __slots__ = ("node", "module", "qual", "closure", "cls", "deco", "defaults", "kwdefaults")

    def __init__(self, node, module, qual, closure=None, cls=None):
        self.node, self.module, self.qual, self.closure, self.cls = node, module, qual, closure, cls
        self.deco = []
        self.defaults = []
        self.kwdefaults = {}


class Cls(object):
    def __init__(self, node, module, qual):
        self.node, self.module, self.qual = node, module, qual
        self.bases = []
        self.attrs = {}

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c in out:
                        out.remove(c)
                    out.append(c)
        return out

    def lookup(self, name, after=None):
        m = self.mro()
        if after is not None and after in m:
            m = m[m.index(after) + 1:]
        for c in m:
            if name in c.attrs:
                return c.attrs[name], c
        return None, None

    def has_ext_base(self):
        return any(isinstance(b, (Ext, Opq)) and not (isinstance(b, Ext) and b.name in ("builtins.object",))
                   for c in self.mro() for b in c.bases)


class Inst(object):
    __slots__ = ("oid", "cls")

    def __init__(self, oid, cls):
        self.oid, self.cls = oid, cls


class Bound(object):
    __slots__ = ("self_", "func")

    def __init__(self, self_, func):
        self.self_, self.func = self_, func


class SuperV(object):
    def __init__(self, cls, inst):
        self.cls, self.inst = cls, inst


class ArrMeth(object):
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class _Unbound(object):
    def __repr__(self):
        return "UNBOUND"


UNBOUND = _Unbound()


class MaybeUnb(object):
    """Variable first bound inside a loop, seen after (or before) the loop."""
    __slots__ = ("value", "lv", "why")

    def __init__(self, value, lv, why):
        self.value, self.lv, self.why = value, lv, why


NONE = None  # set below


class State(object):
    __slots__ = ("vars", "heap", "attrs", "pc")

    def __init__(self, vars=None, heap=None, attrs=None, pc=()):
        self.vars = vars if vars is not None else {}
        self.heap = heap if heap is not None else {}
        self.attrs = attrs if attrs is not None else {}
        self.pc = pc

    def copy(self):
        return State(dict(self.vars), dict(self.heap), dict(self.attrs), self.pc)

    def become(self, o):
        self.vars, self.heap, self.attrs, self.pc = o.vars, o.heap, o.attrs, o.pc


class PathEnd(Exception):
    """The current path raises (no normal continuation)."""

    def __init__(self, exc, loc):
        Exception.__init__(self, str(exc))
        self.exc, self.loc = exc, loc


class Giveup(Exception):
    """Construct outside the modelled subset."""


class Loc(object):
    __slots__ = ("file", "func", "line", "text")

    def __init__(self, file, func, line, text=""):
        self.file, self.func, self.line, self.text = file, func, line, text

    def __str__(self):
        return "%s:%s (%s)" % (self.file, self.line, self.func)

    def key(self):
        return "%s:%s" % (self.file, self.func)


class ManagerV(object):
    """A call of a @contextmanager function, not yet entered."""

    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class Event(object):
    __slots__ = ("type", "loc", "pc", "loops", "d", "epoch")

    def __init__(self, type, loc, pc, loops, epoch, d):
        self.type, self.loc, self.pc, self.loops, self.epoch, self.d = type, loc, pc, loops, epoch, d

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)

    def __repr__(self):
        return "<%s %s %s>" % (self.type, self.loc, self.d)


class Loader(object):
    """Parses the package on demand and executes module bodies abstractly."""

    def __init__(self, root):
        self.root = root
        self.src = {}
        self.trees = {}

    def path(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        return None, False

    def tree(self, name):
        if name not in self.trees:
            p, pkg = self.path(name)
            with open(p, encoding="utf-8") as f:
                s = f.read()
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.trees[name] = (ast.parse(s, p), os.path.relpath(p, self.root), pkg)
            self.src[name] = s
        return self.trees[name]


BUILTINS = {"len", "min", "max", "abs", "round", "int", "float", "complex", "bool", "str",
            "range", "enumerate", "zip", "sum", "any", "all", "isinstance", "type", "list",
            "tuple", "dict", "set", "sorted", "reversed", "print", "super", "map", "filter",
            "getattr", "setattr", "hasattr", "divmod", "pow", "callable", "iter", "next",
            "ValueError", "TypeError", "IndexError", "KeyError", "NotImplementedError",
            "AssertionError", "Exception", "RuntimeError", "UserWarning", "object", "repr",
            "slice", "id", "hash", "DeprecationWarning", "Warning", "ZeroDivisionError",
            "AttributeError", "ImportError", "StopIteration", "RuntimeWarning", "FutureWarning",
            "property", "staticmethod", "classmethod", "format", "vars", "dir", "globals",
            "locals", "open", "input", "frozenset", "bytes", "bytearray", "chr", "ord",
            "ArithmeticError", "OverflowError", "FloatingPointError", "BaseException",
            "issubclass", "eval", "exec", "compile", "__import__", "OSError", "LookupError",
            "NotImplemented", "Ellipsis", "delattr", "memoryview", "bin", "hex", "oct",
            "ascii", "KeyboardInterrupt", "SystemExit", "NameError", "UnboundLocalError",
            "EnvironmentError", "IOError", "ModuleNotFoundError", "RecursionError",
            "UnicodeDecodeError", "UnicodeError", "PendingDeprecationWarning", "SyntaxWarning",
            "ResourceWarning", "MemoryError", "aiter", "anext", "breakpoint", "exit", "quit",
            "__name__", "__file__", "__doc__", "__builtins__"}

BINOPS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div",
          ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.Pow: "pow",
          ast.BitAnd: "and_", ast.BitOr: "or_", ast.BitXor: "xor_",
          ast.LShift: "lshift", ast.RShift: "rshift", ast.MatMult: "matmul"}
CMPOPS = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge", ast.Eq: "eq", ast.NotEq: "ne"}


class Interp(object):
    MAXDEPTH = 24

    def __init__(self, loader):
        self.loader = loader
        self.modules = {}      # name -> env dict
        self.events = []
        self.regions = {}      # rid -> info
        self.frames = []
        self.loopstack = []
        self.epoch = 0
        self.loading = []
        self.functions = set()   # qualified names interpreted
        self.n_calls = 0
        self.ext_calls = {}
        self.steps = 0
        self.maxsteps = 400000

    # ------------------------------------------------------------- utilities
    def ev(self, type, loc, st, **d):
        e = Event(type, loc, st.pc, tuple(self.loopstack), self.epoch, d)
        self.events.append(e)
        return e

    def loc(self, node):
        f = self.frames[-1] if self.frames else None
        return Loc(f["file"] if f else "?", f["qual"] if f else "?", getattr(node, "lineno", 0))

    def new_region(self, st, content, origin="alloc", **info):
        rid = nodes.fresh()
        d = {"origin": origin, "epoch": self.epoch, "alias": frozenset()}
        d.update(info)
        self.regions[rid] = d
        st.heap[rid] = content
        return rid

    def wrap(self, n, st, loc=None):
        """Make a python-level value from a term (arrays get a fresh region)."""
        if loc is not None and n.loc is None:
            n.loc = loc
        if rank(n) == 0:
            return n
        return Ref(self.new_region(st, n))

    def base_regions(self, v):
        """All regions a value may denote."""
        out = set()
        if isinstance(v, Ref):
            st = [v.rid]
            while st:
                r = st.pop()
                if r in out:
                    continue
                out.add(r)
                info = self.regions.get(r, {})
                if not info.get("unknown"):      # aliasing through unmodelled calls is only a guess
                    st.extend(info.get("alias", ()))
        elif isinstance(v, Choice):
            out |= self.base_regions(v.a) | self.base_regions(v.b)
        elif isinstance(v, PyTuple):
            for x in v.items:
                out |= self.base_regions(x)
        elif isinstance(v, (PyList, PyDict)):
            out.add(v.rid)
        elif isinstance(v, MaybeUnb):
            out |= self.base_regions(v.value)
        return out

    def read(self, ref, st):
        n = st.heap.get(ref.rid)
        if not isinstance(n, Node):
            raise Giveup("read of region without content")
        return self.apply_path(n, ref.path)

    def apply_path(self, n, path):
        for p in path:
            if p[0] == "getitem":
                n = mk("getitem", n, p[1])
            elif p[0] == "ravel":
                n = n if rank(n) == 1 else mk("ravel", n)
            elif p[0] == "reshape":
                n = mk("reshape", n, p[1], p[2])
            elif p[0] == "T":
                n = n if rank(n) in (0, 1) else mk("T", n)
            elif p[0] == "real":
                n = mk("real", n) if kind(n) in "c?" else n
            elif p[0] == "imag":
                n = mk("imag", n)
            elif p[0] == "flip":
                n = mk("flip", n, p[1])
            elif p[0] == "alias":
                pass
            elif p[0] == "broadcast":
                n = mk("broadcast_to", n, p[1])
            elif p[0] == "squeeze":
                n = self.squeeze(n)
            elif p[0] == "astype":
                n = n if kind(n) == p[1] else mk("astype", n, p[1])
            elif p[0] == "op":
                n = mk(p[1], n, *p[2:])
            elif p[0] == "ext":
                n = mk("ext", p[1], (n,), None, 0)
        return n

    def squeeze(self, n):
        d = dims(n)
        if d is None:
            return mk("ext", "squeeze", (n,), None, 0)
        keep = tuple(x for x in d if not is_const(x, 1))
        if len(keep) == len(d):
            return n
        return mk("reshape", n, keep, "C")

    def num(self, v, st):
        """Numeric term of a python-level value."""
        if isinstance(v, Node):
            return v
        if isinstance(v, Ref):
            return self.read(v, st)
        if isinstance(v, Choice):
            return fold("ite", v.cond, self.num(v.a, st), self.num(v.b, st))
        if isinstance(v, PyTuple):
            return mk("list", tuple(self.num(x, st) for x in v.items))
        if isinstance(v, PyList):
            c = st.heap.get(v.rid)
            if isinstance(c, tuple) and c[0] == "pylist":
                return mk("list", tuple(self.num(x, st) for x in c[1]))
            if isinstance(c, Node):
                return c
            return mk("ext", "list", (), None, nodes.fresh())
        if isinstance(v, Opq):
            return v.node
        if isinstance(v, MaybeUnb):
            return self.num(v.value, st)
        if isinstance(v, Rng):
            return mk("arange", v.s, v.e, v.st, "i")
        if isinstance(v, Ext):
            return mk("ext", v.name, (), None, 0)
        if v is UNBOUND:
            return mk("ext", "unbound", (), None, 0)
        if isinstance(v, PyDict):
            c = st.heap.get(v.rid)
            if isinstance(c, tuple):
                return mk("ext", "dict", tuple(self.num(x, st) for _, x in c[1]), None, 0)
        if isinstance(v, Inst):
            return mk("ext", "instance", tuple(self.num(x, st) for (o, _), x in sorted(
                ((k, w) for k, w in st.attrs.items() if k[0] == v.oid), key=lambda t: t[0][1])
                if not isinstance(x, Inst)), None, v.oid)
        return mk("ext", type(v).__name__, (), None, nodes.fresh())

    def merge_val(self, c, a, b, st=None):
        if a is b:
            return a
        if isinstance(a, Node) and isinstance(b, Node):
            if a is b:
                return a
            na = not (a.op == "const" and not is_num_const(a))
            nb = not (b.op == "const" and not is_num_const(b))
            if na and nb:
                return fold("ite", c, a, b)
            return Choice(c, a, b)
        if isinstance(a, Ref) and a.same(b):
            return a
        if isinstance(a, PyTuple) and isinstance(b, PyTuple) and len(a.items) == len(b.items):
            return PyTuple([self.merge_val(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, (PyList, PyDict)) and type(a) is type(b) and a.rid == b.rid:
            return a
        if isinstance(a, Inst) and isinstance(b, Inst) and a.oid == b.oid:
            return a
        if isinstance(a, Ext) and isinstance(b, Ext) and a.name == b.name:
            return a
        if isinstance(a, Func) and isinstance(b, Func) and a.node is b.node:
            return a
        if isinstance(a, Opq) and isinstance(b, Opq):
            if a.node is b.node:
                return a
            return Opq(fold("ite", c, a.node, b.node), a.tag)
        return Choice(c, a, b)

    def merge(self, c, s1, s2):
        """State that is s1 if c else s2."""
        st = State()
        k = 0
        while k < len(s1.pc) and k < len(s2.pc) and s1.pc[k] is s2.pc[k]:
            k += 1
        st.pc = s1.pc[:k]
        for name in list(s1.vars) + [x for x in s2.vars if x not in s1.vars]:
            a, b = s1.vars.get(name, UNBOUND), s2.vars.get(name, UNBOUND)
            st.vars[name] = self.merge_val(c, a, b)
        for r in set(s1.heap) | set(s2.heap):
            a, b = s1.heap.get(r), s2.heap.get(r)
            if a is None:
                st.heap[r] = b
            elif b is None:
                st.heap[r] = a
            elif a is b:
                st.heap[r] = a
            elif isinstance(a, Node) and isinstance(b, Node):
                st.heap[r] = fold("ite", c, a, b)
            elif isinstance(a, tuple) and isinstance(b, tuple) and a == b:
                st.heap[r] = a
            elif isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "pylist" \
                    and len(a[1]) == len(b[1]):
                st.heap[r] = ("pylist", tuple(self.merge_val(c, x, y) for x, y in zip(a[1], b[1])))
            else:
                st.heap[r] = mk("ext", "merged", (c,), None, nodes.fresh())
        for k in set(s1.attrs) | set(s2.attrs):
            a, b = s1.attrs.get(k, UNBOUND), s2.attrs.get(k, UNBOUND)
            st.attrs[k] = self.merge_val(c, a, b)
        return st

    def tick(self):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Giveup("step budget exhausted")

    # --------------------------------------------------------------- modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        tree, rel, pkg = self.loader.tree(name)
        env = {"__name__": const(name), "__doc__": const(None), "__file__": const(rel)}
        self.modules[name] = env
        st = State(vars=env)
        self.frames.append({"module": name, "qual": "<module>", "file": rel, "cls": None,
                            "closure": None, "globals": set(), "pkg": pkg, "modlevel": True})
        saved_loops, self.loopstack = self.loopstack, []
        saved_epoch, self.epoch = self.epoch, -1
        try:
            outs = self.block(tree.body, st)
            nx = outs["next"]
            if nx is not None:
                env.update(nx.vars)
                self.modheap = getattr(self, "modheap", {})
                self.modheap.update(nx.heap)
                self.modattrs = getattr(self, "modattrs", {})
                self.modattrs.update(nx.attrs)
        finally:
            self.frames.pop()
            self.loopstack = saved_loops
            self.epoch = saved_epoch
        return env

    def initial_state(self):
        st = State()
        st.heap.update(getattr(self, "modheap", {}))
        st.attrs.update(getattr(self, "modattrs", {}))
        return st

    def import_from(self, modname, name):
        """Value of `from modname import name` for a repository module."""
        p, pkg = self.loader.path(modname)
        env = self.module(modname)
        if name in env:
            return env[name]
        sub = modname + "." + name
        if self.loader.path(sub)[0]:
            self.module(sub)
            return Mod(sub)
        return None

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        """Execute statements.  Returns {"next": State|None, "break": [...],
        "continue": [...], "return": [(State, value)], "raise": [...]}."""
        out = {"next": st, "break": [], "continue": [], "return": [], "raise": []}
        for s in stmts:
            cur = out["next"]
            if cur is None:
                break
            try:
                r = self.stmt(s, cur)
            except PathEnd as e:
                out["raise"].append((cur, e.exc, e.loc))
                out["next"] = None
                break
            if r is None:
                continue
            out["next"] = r["next"]
            for k in ("break", "continue", "return", "raise"):
                out[k].extend(r[k])
        return out

    @staticmethod
    def outs(next=None, **k):
        d = {"next": next, "break": [], "continue": [], "return": [], "raise": []}
        d.update(k)
        return d

    cur = None
    mpl_fails = False              # every drawing call raises (how a failing plot leaves its object)

    def stmt(self, s, st):
        self.tick()
        self.cur = s
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Giveup("statement %s" % type(s).__name__)
        return m(s, st)

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Yield):
            return self.yielded(s.value, st)
        self.expr(s.value, st)

    def s_Pass(self, s, st):
        pass

    def s_Global(self, s, st):
        self.frames[-1]["globals"].update(s.names)

    def s_Nonlocal(self, s, st):
        self.frames[-1].setdefault("nonlocals", set()).update(s.names)

    def s_Import(self, s, st):
        for al in s.names:
            top = al.name.split(".")[0]
            if self.loader.path(top)[0]:
                self.module(al.name)
                v = Mod(al.name if al.asname else top)
            else:
                v = Ext(al.name if al.asname else top)
                self.ev("import", self.loc(s), st, name=al.name)
            self.setvar(al.asname or top, v, st, s)

    def s_ImportFrom(self, s, st):
        f = self.frames[-1]
        base = s.module or ""
        if s.level:
            parts = f["module"].split(".")
            if not f.get("pkg"):
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        for al in s.names:
            if self.loader.path(base.split(".")[0])[0]:
                if al.name == "*":
                    env = self.module(base)
                    for k, v in env.items():
                        if not k.startswith("_"):
                            self.setvar(k, v, st, s)
                    continue
                v = self.import_from(base, al.name)
                if v is None:
                    self.ev("unresolved", self.loc(s), st, name=base + "." + al.name, what="import")
                    raise PathEnd("ImportError", self.loc(s))
            else:
                self.ev("import", self.loc(s), st, name=base + "." + al.name)
                from . import npmodel
                v = npmodel.ext_value(base + "." + al.name, self, st, self.loc(s))
            self.setvar(al.asname or al.name, v, st, s)

    def s_FunctionDef(self, s, st):
        f = self.frames[-1]
        qual = s.name if f["qual"] == "<module>" else f["qual"] + "." + s.name
        fn = Func(s, f["module"], qual, None if f.get("modlevel") else st.vars, f.get("clsdef"))
        self.fill_defaults(fn, s.args, st)
        v = fn
        for d in reversed(s.decorator_list):
            dv = self.expr(d, st)
            fn.deco.append(dv)
            nm = dv.name if isinstance(dv, Ext) else None
            if nm in ("builtins.property", "builtins.staticmethod", "builtins.classmethod"):
                continue
            if nm in ("functools.wraps",):
                continue
            if isinstance(dv, Func):
                try:
                    v = self.call(dv, [v], {}, st, self.loc(s))
                except PathEnd:
                    raise
            else:
                self.ev("decorator", self.loc(s), st, name=nm or self.deco_name(d), func=qual)
        self.setvar(s.name, v, st, s)

    def deco_name(self, d):
        try:
            return ast.unparse(d)
        except Exception:
            return "?"

    def fill_defaults(self, fn, args, st):
        for d in args.defaults:
            fn.defaults.append(self.default_value(d, st, fn))
        for a, d in zip(args.kwonlyargs, args.kw_defaults):
            if d is not None:
                fn.kwdefaults[a.arg] = self.default_value(d, st, fn)

    def default_value(self, d, st, fn):
        v = self.expr(d, st)
        for r in self.base_regions(v):
            if r in self.regions:
                self.regions[r]["origin"] = "default"
                self.regions[r]["func"] = fn.qual
        return v

    def s_ClassDef(self, s, st):
        f = self.frames[-1]
        qual = s.name if f["qual"] == "<module>" else f["qual"] + "." + s.name
        c = Cls(s, f["module"], qual)
        for b in s.bases:
            c.bases.append(self.expr(b, st))
        self.frames.append({"module": f["module"], "qual": qual, "file": f["file"], "cls": None,
                            "closure": None, "globals": set(), "clsdef": c, "modlevel": True,
                            "pkg": f.get("pkg")})
        sub = State(dict(), st.heap, st.attrs, st.pc)
        self.frames[-1]["outer"] = st.vars
        try:
            o = self.block(s.body, sub)
            nx = o["next"] or sub
            st.heap, st.attrs = nx.heap, nx.attrs
        finally:
            self.frames.pop()
        c.attrs = dict(nx.vars)
        for k, v in c.attrs.items():
            for r in self.base_regions(v):
                if r in self.regions:
                    self.regions[r]["origin"] = "classattr"
        self.setvar(s.name, c, st, s)

    def s_Return(self, s, st):
        v = self.expr(s.value, st) if s.value is not None else const(None)
        return self.outs(**{"return": [(st, v)]})

    def s_Break(self, s, st):
        return self.outs(**{"break": [st]})

    def s_Continue(self, s, st):
        return self.outs(**{"continue": [st]})

    def s_Raise(self, s, st):
        name = "Exception"
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                for x in e.args:
                    self.expr(x, st)
                e = e.func
            v = self.expr(e, st)
            name = v.name.split(".")[-1] if isinstance(v, Ext) else (
                v.qual if isinstance(v, Cls) else getattr(e, "id", "Exception"))
        self.ev("raise", self.loc(s), st, exc=name, explicit=True)
        return self.outs(**{"raise": [(st, name, self.loc(s))]})

    def s_Assert(self, s, st):
        c = self.truth(self.expr(s.test, st), st)
        if c is True:
            return
        if c is False:
            self.ev("raise", self.loc(s), st, exc="AssertionError", explicit=True)
            return self.outs(**{"raise": [(st, "AssertionError", self.loc(s))]})
        bad = st.copy()
        bad.pc = st.pc + (fold("not", c),)
        self.ev("raise", self.loc(s), bad, exc="AssertionError", explicit=True)
        st.pc = st.pc + (c,)
        return self.outs(st, **{"raise": [(bad, "AssertionError", self.loc(s))]})

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.expr(t.value, st)
                if isinstance(o, Inst):
                    st.attrs.pop((o.oid, t.attr), None)
                    self.ev("attrdel", self.loc(s), st, oid=o.oid, name=t.attr)
            else:
                o = self.expr(t.value, st)
                self.mutate(o, st, self.loc(s), "del")

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value, st), st)

    def s_Assign(self, s, st):
        v = self.expr(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)

    def s_AugAssign(self, s, st):
        op = BINOPS[type(s.op)]
        t = s.target
        loc = self.loc(s)
        if isinstance(t, ast.Name):
            cur = self.getvar(t.id, st, t)
            v = self.expr(s.value, st)
            r = self.inplace(cur, op, v, st, loc)
            self.setvar(t.id, r, st, s)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value, st)
            cur = self.getattr(o, t.attr, st, loc)
            v = self.expr(s.value, st)
            r = self.inplace(cur, op, v, st, loc)
            self.setattr(o, t.attr, r, st, loc)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, st)
            k = self.index(t.slice, st)
            cur = self.getitem(o, k, st, loc, aug=True)
            v = self.expr(s.value, st)
            nv = self.num(cur, st) if not isinstance(cur, (PyList, PyDict)) else None
            if nv is None:
                r = self.inplace(cur, op, v, st, loc)
                self.setitem(o, k, r, st, loc)
                return
            vn = self.num(v, st)
            r = self.arith(op, nv, vn, st, loc)
            self.setitem(o, k, r, st, loc, aug=op, augval=vn, cur=nv)
        else:
            raise Giveup("augassign target")

    def inplace(self, cur, op, v, st, loc):
        if isinstance(cur, MaybeUnb):
            cur = cur.value
        if isinstance(cur, Choice):
            a = self.inplace(cur.a, op, v, st, loc)
            b = self.inplace(cur.b, op, v, st, loc)
            return self.merge_val(cur.cond, a, b)
        if isinstance(cur, Ref):
            old = self.read(cur, st)
            if rank(old) == 0:
                return self.arith(op, old, self.num(v, st), st, loc)
            vn = self.num(v, st)
            new = self.arith(op, old, vn, st, loc)
            self.ev("inplace", loc, st, regions=self.base_regions(cur), base=old, value=new, operand=vn)
            self.write_ref(cur, new, st, loc, "augassign %s" % op)
            return cur
        if isinstance(cur, PyList):
            if op == "add":
                c = st.heap.get(cur.rid)
                w = self.seq_items(v, st)
                if isinstance(c, tuple) and w is not None:
                    st.heap[cur.rid] = ("pylist", c[1] + tuple(w))
                else:
                    st.heap[cur.rid] = mk("ext", "list", (self.num(v, st),), None, nodes.fresh())
                self.ev("mutate", loc, st, regions={cur.rid}, how="list +=")
                return cur
        return self.binop(op, cur, v, st, loc)

    def s_If(self, s, st):
        c = self.truth(self.expr(s.test, st), st)
        if c is True:
            return self.block(s.body, st)
        if c is False:
            return self.block(s.orelse, st)
        # decided by the path condition?
        for p in st.pc:
            if p is c:
                return self.block(s.body, st)
            if p is fold("not", c):
                return self.block(s.orelse, st)
        s1, s2 = st.copy(), st.copy()
        s1.pc = st.pc + (c,)
        s2.pc = st.pc + (fold("not", c),)
        o1 = self.block(s.body, s1)
        o2 = self.block(s.orelse, s2)
        out = self.outs()
        for k in ("break", "continue", "return", "raise"):
            out[k] = o1[k] + o2[k]
        n1, n2 = o1["next"], o2["next"]
        if n1 is None:
            out["next"] = n2
        elif n2 is None:
            out["next"] = n1
        else:
            m = self.merge(c, n1, n2)
            m.pc = st.pc if len(m.pc) <= len(st.pc) else m.pc
            out["next"] = m
        return out

    def s_With(self, s, st):
        return self.with_items(list(s.items), s.body, st, self.loc(s))

    def with_items(self, items, body, st, loc):
        if not items:
            return self.block(body, st)
        it, rest = items[0], items[1:]
        v = self.expr(it.context_expr, st)

        def inner(value, stt):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, value, stt)
            return self.with_items(rest, body, stt, loc)
        if isinstance(v, ManagerV):
            return self.managed(v, inner, st, loc)
        if isinstance(v, Inst):
            en, _ = v.cls.lookup("__enter__")
            ex, _ = v.cls.lookup("__exit__")
            if isinstance(en, Func) and isinstance(ex, Func):
                return self.entered(v, en, ex, inner, st, loc)
        return inner(v, st)

    def entered(self, v, en, ex, inner, st, loc):
        """with over an object of the package: __enter__, the block, __exit__."""
        val = self.call_func(en, [v], {}, st, loc)
        o = inner(val, st)

        def leave(stt):
            self.call_func(ex, [v] + [const(None)] * 3, {}, stt, loc)
            return stt
        out = self.outs(None if o["next"] is None else leave(o["next"]))
        out["return"] = [(leave(rs), rv) for rs, rv in o["return"]]
        out["raise"] = [(leave(rs.copy()), e, l) for rs, e, l in o["raise"]]
        for k in ("break", "continue"):
            out[k] = [leave(x) for x in o[k]]
        return out

    def managed(self, m, inner, st, loc):
        """with over a @contextmanager function: its body runs around the block."""
        fr, callee = self.bind_call(m.f, m.args, m.kw, st, loc)
        back = {}

        def hook(value, cs):
            if "done" in back:
                raise Giveup("context manager that yields repeatedly")
            back["done"] = True
            top = self.frames.pop()
            try:
                bs = State(st.vars, cs.heap, cs.attrs, cs.pc)
                try:
                    o = inner(value, bs)
                except PathEnd as e:
                    o = self.outs(None, **{"raise": [(bs, e.exc, e.loc)]})
            finally:
                self.frames.append(top)
            nxt = o["next"]
            if o["break"] or o["continue"] or len(o["return"]) + (nxt is not None) > 1:
                raise Giveup("block of a context manager left in several ways")
            if o["return"]:
                nxt, back["value"] = o["return"][0]
            if nxt is not None:
                back["vars"] = nxt.vars
            inside = lambda x: State(cs.vars, x.heap, x.attrs, x.pc)
            return self.outs(None if nxt is None else inside(nxt),
                             **{"raise": [(inside(x), e, l) for x, e, l in o["raise"]]})
        fr["yield"] = hook
        depth = len(self.loopstack)
        fr["yielddepth"] = depth
        self.frames.append(fr)
        try:
            o = self.block(m.f.node.body, callee)
        finally:
            self.frames.pop()
        if "done" not in back:
            raise Giveup("context manager that does not yield")
        outside = lambda x: State(back.get("vars", st.vars), x.heap, x.attrs, x.pc)
        ends = [x for x, _ in o["return"]] + ([o["next"]] if o["next"] is not None else [])
        if len(ends) > 1:
            raise Giveup("context manager that ends in several ways")
        out = self.outs(None, **{"raise": [(outside(x), e, l) for x, e, l in o["raise"]]})
        if ends:
            if "value" in back:
                out["return"] = [(outside(ends[0]), back["value"])]
            else:
                out["next"] = outside(ends[0])
        return out

    def yielded(self, y, st):
        """A yield statement inside a @contextmanager function."""
        fr = self.frames[-1]
        if "yield" not in fr or len(self.loopstack) != fr["yielddepth"]:
            raise Giveup("yield")
        v = self.expr(y.value, st) if y.value is not None else const(None)
        return fr["yield"](v, st)

    def s_Try(self, s, st):
        pre = st.copy()
        o = self.block(s.body, st)
        out = self.outs(o["next"])
        for k in ("break", "continue", "return"):
            out[k] = list(o[k])
        raises = list(o["raise"])
        if s.handlers:
            caught = False
            base = raises[0][0] if raises else None
            c = mk("ext", "exception-raised", (), 0, nodes.fresh())
            hstates = []
            for h in s.handlers:
                hs = (base or pre).copy() if not raises else raises[0][0].copy()
                hs.pc = pre.pc + (c,)
                if h.name:
                    hs.vars[h.name] = Opq(mk("ext", "exc", (), None, nodes.fresh()))
                ho = self.block(h.body, hs)
                for k in ("break", "continue", "return", "raise"):
                    out[k].extend(ho[k])
                if ho["next"] is not None:
                    hstates.append(ho["next"])
            for hs in hstates:
                if out["next"] is None:
                    out["next"] = hs
                else:
                    c = mk("ext", "exception-raised", (), 0, nodes.fresh())
                    out["next"] = self.merge(c, hs, out["next"])
        else:
            out["raise"].extend(raises)
        if s.orelse and out["next"] is not None and o["next"] is not None:
            o2 = self.block(s.orelse, out["next"])
            out["next"] = o2["next"]
            for k in ("break", "continue", "return", "raise"):
                out[k].extend(o2[k])
        if s.finalbody:
            def fin(stt):
                r = self.block(s.finalbody, stt)
                return r
            if out["next"] is not None:
                r = fin(out["next"])
                out["next"] = r["next"]
                for k in ("break", "continue", "return", "raise"):
                    out[k].extend(r[k])
            rets = []
            for (rs, v) in out["return"]:
                r = fin(rs)
                if r["next"] is not None:
                    rets.append((r["next"], v))
                rets.extend(r["return"])
            out["return"] = rets
            rr = []
            for (rs, e, l) in out["raise"]:
                r = fin(rs.copy())
                if r["next"] is not None:
                    rr.append((r["next"], e, l))
            out["raise"] = rr
        return out

    s_TryStar = s_Try

    # ----------------------------------------------------------------- loops
    def concrete_items(self, v, st):
        """List of items if the iterable is a short concrete sequence."""
        if isinstance(v, PyTuple):
            return list(v.items)
        if isinstance(v, PyList):
            c = st.heap.get(v.rid)
            if isinstance(c, tuple) and c[0] == "pylist":
                return list(c[1])
            return None
        if isinstance(v, Rng):
            if all(is_const(x) for x in (v.s, v.e, v.st)):
                r = range(cval(v.s), cval(v.e), cval(v.st))
                if len(r) <= 4:
                    return [const(i) for i in r]
            return None
        if isinstance(v, PyDict):
            c = st.heap.get(v.rid)
            if isinstance(c, tuple) and c[0] == "pydict":
                return [const(k) for k, _ in c[1]]
            return None
        if isinstance(v, EnumV):
            it = self.concrete_items(v.it, st)
            if it is None:
                return None
            return [PyTuple([fold("add", v.start, const(i)), x]) for i, x in enumerate(it)]
        if isinstance(v, ZipV):
            its = [self.concrete_items(x, st) for x in v.its]
            if any(i is None for i in its):
                return None
            return [PyTuple(list(x)) for x in zip(*its)]
        if isinstance(v, RevV):
            it = self.concrete_items(v.it, st)
            return None if it is None else list(reversed(it))
        return None

    def symbolic_iter(self, v, st, name, loc):
        """(lv id, element value builder) for a symbolic iteration."""
        lid = nodes.fresh()
        lv = mk("lv", lid)

        def reg(bounds, vkind="i", k="range"):
            LV[lid] = {"kind": k, "bounds": bounds, "name": name, "vkind": vkind, "loc": loc}

        if isinstance(v, Rng):
            for b in (v.s, v.e, v.st):
                self.ev("intreq", loc, st, node=b, what="range() argument")
            reg((v.s, v.e, v.st))
            return lid, lambda s: lv
        if isinstance(v, EnumV):
            inner_lid, f = self.symbolic_iter(v.it, st, name, loc)
            b = LV[inner_lid]["bounds"]
            il = mk("lv", inner_lid)
            pos = il
            if LV[inner_lid]["kind"] == "range" and not (is_const(b[0], 0) and is_const(b[2], 1)):
                pos = fold("floordiv", fold("sub", il, b[0]), b[2])
            return inner_lid, lambda s: PyTuple([fold("add", v.start, pos), f(s)])
        if isinstance(v, ZipV):
            ns = []
            for x in v.its:
                ns.append(self.seq_node(x, st))
            if any(n is None for n in ns):
                reg((const(0), mk("ext", "ziplen", (), 0, nodes.fresh()), const(1)))
                return lid, lambda s: Opq(mk("ext", "zipitem", (lv,), None, nodes.fresh()))
            ls = [self.length(n) for n in ns]
            e = ls[0]
            for x in ls[1:]:
                if x is not e:
                    e = mk("min", mk("list", (e, x)), None, "py")
            reg((const(0), e, const(1)))
            return lid, lambda s: PyTuple([self.elem_at(n, lv, s, loc) for n in ns])
        if isinstance(v, RevV):
            if isinstance(v.it, Rng):
                r = v.it
                if is_const(r.st, 1):
                    reg((fold("sub", r.e, const(1)), fold("sub", r.s, const(1)), const(-1)))
                    return lid, lambda s: lv
            n = self.seq_node(v.it, st)
            if n is not None:
                ln = self.length(n)
                reg((const(0), ln, const(1)))
                return lid, lambda s: self.elem_at(
                    n, fold("sub", fold("sub", ln, const(1)), lv), s, loc)
        n = self.seq_node(v, st)
        if n is not None and rank(n) not in (None, 0):
            reg((const(0), self.length(n), const(1)))
            ref = v if isinstance(v, Ref) else None
            return lid, lambda s: self.elem_at(n, lv, s, loc, ref)
        reg((const(0), mk("ext", "iterlen", (self.num(v, st),), 0, nodes.fresh()), const(1)))
        dep = self.num(v, st)
        return lid, lambda s: Opq(mk("ext", "item", (dep, lv), None, 0))

    def seq_node(self, v, st):
        if isinstance(v, (Ref, PyTuple, PyList, Node, Rng, Choice)):
            n = self.num(v, st)
            return n
        if isinstance(v, EnumV) or isinstance(v, ZipV):
            return None
        return None

    def length(self, n):
        d = dims(n)
        if d:
            return d[0]
        return mk("len", n)

    def elem_at(self, n, i, st, loc, ref=None):
        if n.op == "arange" and rank(i) == 0:
            v = fold("add", n.args[0], fold("mul", i, n.args[2]))
            return v
        g = mk("getitem", n, (i,))
        if rank(g) == 0:
            return g
        if ref is not None:
            return Ref(ref.rid, ref.path + (("getitem", (i,)),))
        return self.wrap(g, st, loc)

    def s_For(self, s, st):
        loc = self.loc(s)
        it = self.expr(s.iter, st)
        if isinstance(it, MaybeUnb):
            it = it.value
        items = self.concrete_items(it, st)
        if items is not None and len(items) <= 64:
            return self.unrolled(s, items, st)
        name = s.target.id if isinstance(s.target, ast.Name) else "i"
        lid, build = self.symbolic_iter(it, st, name, loc)

        def bind(stt):
            self.assign(s.target, build(stt), stt)

        return self.loop(s, st, lid, bind, None)

    def unrolled(self, s, items, st):
        out = self.outs()
        cur = st
        breaks = []
        for x in items:
            if cur is None:
                break
            self.assign(s.target, x, cur)
            o = self.block(s.body, cur)
            out["return"].extend(o["return"])
            out["raise"].extend(o["raise"])
            breaks.extend(o["break"])
            cur = self.join_states([o["next"]] + o["continue"])
        if cur is not None and s.orelse:
            o = self.block(s.orelse, cur)
            for k in ("break", "continue", "return", "raise"):
                out[k].extend(o[k])
            cur = o["next"]
        out["next"] = self.join_states([cur] + breaks)
        return out

    def join_states(self, sts):
        sts = [x for x in sts if x is not None]
        if not sts:
            return None
        cur = sts[0]
        for x in sts[1:]:
            c = self.path_cond(x, cur)
            pc0 = cur.pc
            cur = self.merge(c, x, cur)
        return cur

    def path_cond(self, x, other):
        """Condition under which state x (rather than other) is current."""
        k = 0
        while k < len(x.pc) and k < len(other.pc) and x.pc[k] is other.pc[k]:
            k += 1
        rest = x.pc[k:]
        if not rest:
            rest2 = other.pc[k:]
            if not rest2:
                return mk("ext", "nondet", (), 0, nodes.fresh())
            return fold("not", self.conj(rest2))
        return self.conj(rest)

    def conj(self, conds):
        if len(conds) == 1:
            return conds[0]
        return mk("land", tuple(conds))

    def s_While(self, s, st):
        loc = self.loc(s)
        lid = nodes.fresh()
        LV[lid] = {"kind": "while", "bounds": (), "name": "while", "vkind": "i", "loc": loc}
        c0 = self.truth(self.expr(s.test, st.copy()), st)
        if c0 is False:
            return self.block(s.orelse, st) if s.orelse else self.outs(st)
        return self.loop(s, st, lid, lambda stt: None, s.test)

    def loop(self, s, st, lid, bind, test):
        pre = st
        mus = {}
        out = None
        for _ in range(7):
            head = pre.copy()
            for key, (mval, mid) in mus.items():
                self.setkey(head, key, mval)
            n_ev = len(self.events)
            self.loopstack.append(lid)
            body_st = head.copy()
            raised = []
            exit_cond = None
            try:
                if test is not None:
                    c = self.truth(self.expr(test, body_st), body_st)
                    if isinstance(c, Node):
                        exit_cond = c
                        body_st.pc = body_st.pc + (c,)
                bind(body_st)
                o = self.block(s.body, body_st)
            except PathEnd as e:
                o = self.outs(None, **{"raise": [(body_st, e.exc, e.loc)]})
            finally:
                self.loopstack.pop()
            end = self.join_states([o["next"]] + o["continue"])
            cand = set()
            for z in [end] + o["break"]:
                if z is None:
                    continue
                cand |= self.changed(head, z)
            new = [k for k in cand if k not in mus]
            if not new:
                grow = self.growing(mus, end)
                if not grow:
                    break
                del self.events[n_ev:]
                for k, axes in grow.items():
                    mus[k] = self.make_mu(k, pre, lid, axes)
                continue
            del self.events[n_ev:]
            for k in sorted(new, key=str):
                mus[k] = self.make_mu(k, pre, lid)
        else:
            raise Giveup("loop did not stabilise")
        # close the mu definitions
        for key, (mval, mid) in mus.items():
            if end is not None:
                v = self.getkey(end, key)
                try:
                    nx = self.num(v, end) if v is not UNBOUND and v is not None else None
                except Giveup:
                    nx = None
                if key[0] == "h":
                    nx = v if isinstance(v, Node) else nx
                MU[mid]["next"] = nx
                MU[mid]["pcs"] = tuple(end.pc[len(pre.pc):])
                MU[mid]["brk"] = bool(o["break"])
                # aliasing of loop-carried references
                if key[0] in ("v", "a") and isinstance(mval, Ref):
                    al = self.base_regions(self.getkey(pre, key)) | self.base_regions(v)
                    self.regions[mval.rid]["alias"] = frozenset(al - {mval.rid})
        # state after the loop
        ex = head.copy()
        ex.pc = pre.pc
        for key, (mval, mid) in mus.items():
            if key[0] == "v":
                p = pre.vars.get(key[1], UNBOUND)
                if p is UNBOUND and MU[mid].get("grow"):
                    continue        # bound by some iterations, kept by the others
                if p is UNBOUND and end is not None:
                    v = end.vars.get(key[1], UNBOUND)
                    if isinstance(v, MaybeUnb):
                        v = v.value
                    if isinstance(v, Node):
                        v = self.last(v, lid)
                    ex.vars[key[1]] = MaybeUnb(v, lid, "zero-trip")
        if end is not None:
            for r, c in end.heap.items():
                if r not in ex.heap:
                    ex.heap[r] = self.last(c, lid) if isinstance(c, Node) else c
            for k, v in end.attrs.items():
                if k not in ex.attrs:
                    if isinstance(v, Node):
                        v = self.last(v, lid)
                    ex.attrs[k] = MaybeUnb(v, lid, "zero-trip")
        out = self.outs()
        out["return"] = o["return"]
        out["raise"] = o["raise"]
        if s.orelse:
            o2 = self.block(s.orelse, ex)
            ex = o2["next"]
            for k in ("break", "continue", "return", "raise"):
                out[k].extend(o2[k])
        if o["break"]:
            LV[lid]["breaks"] = tuple(self.conj(b.pc[len(head.pc):]) if len(b.pc) > len(head.pc)
                                      else const(True) for b in o["break"])
        for j, b in enumerate(o["break"]):
            bb = b.copy()
            bb.pc = pre.pc
            for k, v in list(bb.vars.items()):
                if isinstance(v, Node):
                    bb.vars[k] = self.last(v, lid, "atbrk")
            for k, v in list(bb.heap.items()):
                if isinstance(v, Node):
                    bb.heap[k] = self.last(v, lid, "atbrk")
            for k, v in list(bb.attrs.items()):
                if isinstance(v, Node):
                    bb.attrs[k] = self.last(v, lid, "atbrk")
            if ex is None:
                ex = bb
            else:
                ex = self.merge(mk("brk", lid, j), bb, ex)
                ex.pc = pre.pc
        out["next"] = ex
        return out

    def growing(self, mus, end):
        """Loop-carried arrays whose shape changes from one iteration to the next."""
        out = {}
        for key, (mval, mid) in mus.items():
            m = MU[mid]
            if end is not None and key[0] == "v" and m["init"] is None and not m.get("grow") and not m.get("content"):
                v = self.getkey(end, key)
                rk = self.kept_rank(v, mid, end)
                if rk:
                    out[key] = frozenset(range(rk))
                continue
            if end is None or not isinstance(m["init"], Node) or not rank(m["init"]):
                continue
            v = self.getkey(end, key)
            try:
                nx = self.num(v, end) if v is not UNBOUND and v is not None else None
            except Giveup:
                nx = None
            a, b = dims(m["init"]), dims(nx) if isinstance(nx, Node) else None
            if a is None or b is None or len(a) != len(b):
                continue
            ax = {k for k, (x, y) in enumerate(zip(a, b)) if x is not y} - set(m.get("grow", ()))
            if ax:
                out[key] = frozenset(ax) | frozenset(m.get("grow", ()))
        return out

    def kept_rank(self, v, mid, st):
        """Rank of a variable first bound by some iteration and kept by others (None: not that case)."""
        if isinstance(v, MaybeUnb):
            v = v.value
        if not isinstance(v, Choice):
            return None
        keep, rks = False, set()
        todo = [v.a, v.b]
        while todo:
            x = todo.pop()
            if isinstance(x, MaybeUnb):
                x = x.value
            if isinstance(x, Choice):
                todo += [x.a, x.b]
            elif isinstance(x, Opq) and x.node.op == "mu" and x.node.args[0] == mid:
                keep = True
            elif isinstance(x, Ref):
                rks.add(rank(self.num(x, st)))
            elif isinstance(x, Node):
                rks.add(rank(x))
            else:
                return None
        return rks.pop() if keep and len(rks) == 1 else None

    def last(self, v, lid, op="last"):
        """Value of a loop-body term after the last iteration (or at the break)."""
        for x in nodes.lvs(v):
            if x == lid or (isinstance(x, tuple) and MU[x[1]]["lv"] == lid):
                return mk(op, v, lid)
        return v

    def changed(self, a, b):
        out = set()
        for k, v in b.vars.items():
            w = a.vars.get(k, UNBOUND)
            if not self.same_val(v, w):
                out.add(("v", k))
        for k, v in b.heap.items():
            if k in a.heap and a.heap[k] is not v and a.heap[k] != v:
                out.add(("h", k))
        for k, v in b.attrs.items():
            if k in a.attrs and not self.same_val(v, a.attrs[k]):
                out.add(("a",) + k)
        return out

    def same_val(self, v, w):
        if v is w:
            return True
        if isinstance(v, Ref):
            return v.same(w)
        if isinstance(v, (PyList, PyDict)):
            return type(v) is type(w) and v.rid == w.rid
        if isinstance(v, PyTuple) and isinstance(w, PyTuple) and len(v.items) == len(w.items):
            return all(self.same_val(x, y) for x, y in zip(v.items, w.items))
        if isinstance(v, Inst) and isinstance(w, Inst):
            return v.oid == w.oid
        if isinstance(v, Ext) and isinstance(w, Ext):
            return v.name == w.name
        if isinstance(v, Func) and isinstance(w, Func):
            return v.node is w.node
        if isinstance(v, Mod) and isinstance(w, Mod):
            return v.name == w.name
        if isinstance(v, Opq) and isinstance(w, Opq):
            return v.node is w.node
        if isinstance(v, MaybeUnb) and isinstance(w, MaybeUnb):
            return self.same_val(v.value, w.value)
        return False

    def getkey(self, st, key):
        if key[0] == "v":
            return st.vars.get(key[1], UNBOUND)
        if key[0] == "h":
            return st.heap.get(key[1])
        return st.attrs.get(key[1:], UNBOUND)

    def setkey(self, st, key, v):
        if key[0] == "v":
            st.vars[key[1]] = v
        elif key[0] == "h":
            st.heap[key[1]] = v
        else:
            st.attrs[key[1:]] = v
        w = v.value if isinstance(v, MaybeUnb) else v
        if isinstance(w, Ref) and w.rid not in st.heap and "content" in self.regions[w.rid]:
            st.heap[w.rid] = self.regions[w.rid]["content"]

    def make_mu(self, key, pre, lid, grow=()):
        mid = nodes.fresh()
        v = self.getkey(pre, key)
        if key[0] == "h":
            MU[mid] = {"init": v if isinstance(v, Node) else None, "next": None, "lv": lid,
                       "key": key, "content": True, "grow": grow}
            return mk("mu", mid), mid
        if v is UNBOUND or v is None:
            MU[mid] = {"init": None, "next": None, "lv": lid, "key": key, "grow": grow}
            if grow and v is UNBOUND:
                rid = nodes.fresh()
                self.regions[rid] = {"origin": "mu", "epoch": self.epoch, "alias": frozenset(),
                                     "content": mk("mu", mid)}
                return MaybeUnb(Ref(rid), lid, "first-iteration"), mid
            return MaybeUnb(Opq(mk("mu", mid)), lid, "first-iteration"), mid
        if isinstance(v, MaybeUnb):
            v = v.value
        try:
            n = self.num(v, pre)
        except Giveup:
            n = None
        MU[mid] = {"init": n, "next": None, "lv": lid, "key": key, "grow": grow}
        m = mk("mu", mid)
        if isinstance(v, (Ref,)) or (n is not None and rank(n) != 0):
            rid = nodes.fresh()
            self.regions[rid] = {"origin": "mu", "epoch": self.epoch, "alias": frozenset(
                self.base_regions(v)), "content": m}
            return Ref(rid), mid
        if isinstance(v, Opq):
            return Opq(m, v.tag), mid
        if isinstance(v, Node):
            return m, mid
        return Opq(m), mid

    # ----------------------------------------------------------- assignment
    def setvar(self, name, v, st, node):
        f = self.frames[-1]
        if name in f["globals"]:
            self.ev("globalwrite", self.loc(node), st, name=name, module=f["module"])
            st.attrs[(("M", f["module"]), name)] = v
            return
        if name in f.get("nonlocals", ()):
            cl = f.get("closure")
            while cl is not None:
                if name in cl:
                    cl[name] = v
                    return
                cl = cl.get("__closure__")
        st.vars[name] = v

    def getvar(self, name, st, node, quiet=False):
        f = self.frames[-1]
        if name in f["globals"]:
            k = (("M", f["module"]), name)
            if k in st.attrs:
                return st.attrs[k]
            env = self.modules.get(f["module"], {})
            if name in env:
                return env[name]
        if name in st.vars:
            v = st.vars[name]
            if v is UNBOUND:
                self.ev("unbound", self.loc(node), st, name=name, definite=True, cond=None)
                raise PathEnd("UnboundLocalError", self.loc(node))
            if isinstance(v, MaybeUnb):
                self.ev("unbound", self.loc(node), st, name=name, definite=False, lv=v.lv, why=v.why, cond=None)
                return v.value
            if isinstance(v, Choice):
                un = self.unbound_cond(v)
                if un is not None:
                    self.ev("unbound", self.loc(node), st, name=name, definite=False, cond=un, lv=None,
                            why="branch")
                    v = self.strip_unbound(v)
            return v
        if name in f.get("locals", ()) and name not in f["globals"]:
            self.ev("unbound", self.loc(node), st, name=name, definite=True, cond=None)
            raise PathEnd("UnboundLocalError", self.loc(node))
        cl = f.get("closure")
        while cl is not None:
            if name in cl:
                return cl[name]
            cl = cl.get("__closure__")
        ou = f.get("outer")
        if ou is not None and name in ou:
            return ou[name]
        k = (("M", f["module"]), name)
        if k in st.attrs:
            return st.attrs[k]
        env = self.modules.get(f["module"], {})
        if name in env:
            return env[name]
        if name in BUILTINS:
            if name == "Ellipsis":
                return EllipsisV()
            return Ext("builtins." + name)
        self.ev("unresolved", self.loc(node), st, name=name, what="name")
        raise PathEnd("NameError", self.loc(node))

    def unbound_cond(self, v):
        if v is UNBOUND:
            return const(True)
        if isinstance(v, Choice):
            a, b = self.unbound_cond(v.a), self.unbound_cond(v.b)
            if a is None and b is None:
                return None
            cs = []
            if a is not None:
                cs.append(v.cond if is_const(a) else mk("land", (v.cond, a)))
            if b is not None:
                nc = fold("not", v.cond)
                cs.append(nc if is_const(b) else mk("land", (nc, b)))
            return cs[0] if len(cs) == 1 else mk("lor", tuple(cs))
        return None

    def strip_unbound(self, v):
        if isinstance(v, Choice):
            a, b = self.strip_unbound(v.a), self.strip_unbound(v.b)
            if a is UNBOUND:
                return b
            if b is UNBOUND:
                return a
            return self.merge_val(v.cond, a, b)
        return v

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, st, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, t)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value, st)
            self.setattr(o, t.attr, v, st, self.loc(t))
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, st)
            k = self.index(t.slice, st)
            self.setitem(o, k, v, st, self.loc(t))
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        else:
            raise Giveup("assignment target")

    def seq_items(self, v, st):
        if isinstance(v, MaybeUnb):
            v = v.value
        if isinstance(v, PyTuple):
            return list(v.items)
        if isinstance(v, PyList):
            c = st.heap.get(v.rid)
            if isinstance(c, tuple) and c[0] == "pylist":
                return list(c[1])
        return None

    def unpack(self, elts, v, st, node):
        loc = self.loc(node)
        if isinstance(v, Choice):
            ia, ib = self.seq_items(v.a, st), self.seq_items(v.b, st)
            if ia is not None and ib is not None and len(ia) == len(ib):
                v = PyTuple([self.merge_val(v.cond, x, y) for x, y in zip(ia, ib)])
        items = self.seq_items(v, st)
        if items is not None:
            star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                nafter = len(elts) - i - 1
                mid = items[i:len(items) - nafter]
                rid = self.new_region(st, ("pylist", tuple(mid)))
                for e, x in zip(elts[:i], items[:i]):
                    self.assign(e, x, st)
                self.assign(elts[i].value, PyList(rid), st)
                for e, x in zip(elts[i + 1:], items[len(items) - nafter:]):
                    self.assign(e, x, st)
                return
            if len(items) != len(elts):
                self.ev("typeerr", loc, st, msg="cannot unpack %d values into %d" % (len(items), len(elts)))
                raise PathEnd("ValueError", loc)
            for e, x in zip(elts, items):
                self.assign(e, x, st)
            return
        if isinstance(v, (Ref, Node)):
            n = self.num(v, st)
            d = dims(n)
            if d:
                self.ev("eqreq", loc, st, a=d[0], b=const(len(elts)), what="unpacking")
            if rank(n) not in (None, 0):
                for i, e in enumerate(elts):
                    self.assign(e, self.elem_at(n, const(i), st, loc, v if isinstance(v, Ref) else None), st)
                return
        dep = self.num(v, st)
        for i, e in enumerate(elts):
            self.assign(e, Opq(mk("ext", "unpack", (dep, const(i)), None, 0), getattr(v, "tag", None)), st)

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, st, loc):
        if isinstance(o, MaybeUnb):
            o = o.value
        if isinstance(o, Choice):
            if o.a is UNBOUND or o.b is UNBOUND:
                return self.getattr(self.strip_unbound(o), name, st, loc)
            def isn(x):
                return isinstance(x, Node) and x.op == "const" and x.args[0] is None
            for x, y, cnd in ((o.a, o.b, o.cond), (o.b, o.a, fold("not", o.cond))):
                if isn(x):
                    bad = st.copy()
                    bad.pc = st.pc + (cnd,)
                    self.ev("typeerr", loc, bad, msg="None has no attribute %r" % name)
                    return self.getattr(y, name, st, loc)
            return self.merge_val(o.cond, self.getattr(o.a, name, st, loc),
                                  self.getattr(o.b, name, st, loc))
        if isinstance(o, Inst):
            k = (o.oid, name)
            if k in st.attrs and st.attrs[k] is not UNBOUND:
                v = st.attrs[k]
                self.ev("attrread", loc, st, oid=o.oid, name=name, value=v)
                if isinstance(v, MaybeUnb):
                    self.ev("unbound", loc, st, name="self." + name, definite=False, lv=v.lv, why=v.why, cond=None)
                    return v.value
                if isinstance(v, Choice):
                    un = self.unbound_cond(v)
                    if un is not None:
                        self.ev("unbound", loc, st, name="self." + name, definite=False, cond=un, lv=None,
                                why="branch")
                        v = self.strip_unbound(v)
                return v
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return Opq(mk("ext", "__dict__", (), None, nodes.fresh()))
            v, c = o.cls.lookup(name)
            if v is not None or c is not None:
                if isinstance(v, Func):
                    decos = [d.name for d in v.deco if isinstance(d, Ext)]
                    if "builtins.property" in decos:
                        return self.call_func(v, [o], {}, st, loc)
                    if "builtins.staticmethod" in decos:
                        return v
                    return Bound(o, v)
                self.ev("attrread", loc, st, oid=o.oid, name=name, value=v, cls=True)
                return v
            g, c = o.cls.lookup("__getattr__")
            if g is not None:
                return Opq(mk("ext", "getattr." + name, (), None, nodes.fresh()))
            if o.cls.has_ext_base():
                return Opq(mk("ext", "attr." + name, (), None, nodes.fresh()))
            self.ev("unresolved", loc, st, name="%s.%s" % (o.cls.qual, name), what="attribute")
            raise PathEnd("AttributeError", loc)
        if isinstance(o, Cls):
            v, c = o.lookup(name)
            if c is not None:
                return v
            if name in ("__name__", "__qualname__"):
                return const(o.node.name)
            if name in ("__dict__", "__mro__", "__bases__", "__module__", "__doc__"):
                return Opq(mk("ext", "cls." + name, (), None, 0))
            if o.has_ext_base():
                return Opq(mk("ext", "attr." + name, (), None, 0))
            self.ev("unresolved", loc, st, name="%s.%s" % (o.qual, name), what="attribute")
            raise PathEnd("AttributeError", loc)
        if isinstance(o, SuperV):
            v, c = o.inst.cls.lookup(name, after=o.cls)
            if c is None:
                if name == "__init__":
                    return Ext("builtins.noop")
                self.ev("unresolved", loc, st, name="super.%s" % name, what="attribute")
                raise PathEnd("AttributeError", loc)
            if isinstance(v, Func):
                decos = [d.name for d in v.deco if isinstance(d, Ext)]
                if "builtins.property" in decos:
                    return self.call_func(v, [o.inst], {}, st, loc)
                return Bound(o.inst, v)
            return v
        if isinstance(o, Mod):
            env = self.module(o.name)
            k = (("M", o.name), name)
            if k in st.attrs:
                return st.attrs[k]
            if name in env:
                return env[name]
            sub = o.name + "." + name
            if self.loader.path(sub)[0] and sub in self.modules:
                return Mod(sub)
            if self.loader.path(sub)[0]:
                self.module(sub)
                return Mod(sub)
            self.ev("unresolved", loc, st, name=sub, what="attribute")
            raise PathEnd("AttributeError", loc)
        if isinstance(o, Ext):
            from . import npmodel
            return npmodel.ext_value(o.name + "." + name, self, st, loc)
        if isinstance(o, (Ref, Node, Opq, PyTuple, PyList, PyDict, Rng)):
            from . import npmodel
            return npmodel.value_attr(self, o, name, st, loc)
        if isinstance(o, Func):
            k = (("F", o.module, o.qual), name)
            if k in st.attrs:
                return st.attrs[k]
            return Opq(mk("ext", "func." + name, (), None, 0))
        if isinstance(o, Bound):
            return Opq(mk("ext", "meth." + name, (), None, 0))
        return Opq(mk("ext", "attr." + name, (self.num(o, st),), None, 0))

    def setattr(self, o, name, v, st, loc):
        if isinstance(o, MaybeUnb):
            o = o.value
        if isinstance(o, Inst):
            c, own = o.cls.lookup(name)
            if isinstance(c, Func) and any(isinstance(d, Ext) and d.name == "builtins.property" for d in c.deco):
                pass
            self.ev("attrwrite", loc, st, oid=o.oid, name=name, value=v, old=st.attrs.get((o.oid, name)))
            st.attrs[(o.oid, name)] = v
            return
        if isinstance(o, Cls):
            self.ev("globalwrite", loc, st, name=o.qual + "." + name, module=o.module)
            o.attrs = dict(o.attrs)
            o.attrs[name] = v
            return
        if isinstance(o, Mod):
            self.ev("globalwrite", loc, st, name=name, module=o.name)
            st.attrs[(("M", o.name), name)] = v
            return
        if isinstance(o, Func):
            self.ev("globalwrite", loc, st, name=o.qual + "." + name, module=o.module)
            st.attrs[(("F", o.module, o.qual), name)] = v
            return
        if isinstance(o, Ext):
            self.ev("globalwrite", loc, st, name=o.name + "." + name, module="external")
            return
        if isinstance(o, Ref):
            if name in ("shape", "dtype", "flat", "real", "imag", "strides"):
                self.mutate(o, st, loc, "." + name + " =")
            return
        if isinstance(o, Choice):
            self.setattr(o.a, name, v, st, loc)
            self.setattr(o.b, name, v, st, loc)

    # -------------------------------------------------------------- mutation
    def mutate(self, v, st, loc, how, content=None):
        """Record an in-place modification of everything v may denote."""
        if isinstance(v, MaybeUnb):
            v = v.value
        regs = self.base_regions(v)
        if regs:
            self.ev("mutate", loc, st, regions=regs, how=how)
        if isinstance(v, Choice):
            for x in (v.a, v.b):
                self.mutate(x, st, loc, how)
            return
        if isinstance(v, Ref):
            old = st.heap.get(v.rid)
            if isinstance(old, Node):
                st.heap[v.rid] = content if (content is not None and not v.path) else \
                    mk("mutated", old, tuple([content] if content is not None else []), nodes.fresh())
            self.spread(v.rid, st)

    def spread(self, rid, st):
        """May-alias regions changed as well."""
        seen, todo = {rid}, [rid]
        while todo:
            q = todo.pop()
            info = self.regions.get(q, {})
            for r in list(info.get("alias", ())) + sorted(info.get("views", ())):
                if r in seen:
                    continue
                seen.add(r)
                todo.append(r)
                old = st.heap.get(r)
                if isinstance(old, Node):
                    st.heap[r] = mk("mutated", old, (st.heap.get(rid),) if isinstance(
                        st.heap.get(rid), Node) else (), nodes.fresh())

    def write_ref(self, ref, new, st, loc, how):
        """Overwrite the whole array denoted by ref with term new."""
        self.ev("mutate", loc, st, regions=self.base_regions(ref), how=how)
        old = st.heap[ref.rid]
        if not ref.path:
            k = kind(old)
            if kind(new) != k and k in "bifc":
                new = mk("astype", new, k)
            st.heap[ref.rid] = new
        elif len(ref.path) == 1 and ref.path[0][0] == "getitem":
            st.heap[ref.rid] = mk("setitem", old, ref.path[0][1], new)
        elif all(p[0] == "alias" for p in ref.path):
            st.heap[ref.rid] = new
        else:
            w = self.write_path(old, ref.path, new)
            st.heap[ref.rid] = w if w is not None else mk("vstore", old, (), new, nodes.fresh())
        self.spread(ref.rid, st)

    def write_path(self, old, path, new):
        """Contents of a region after its view through path became new (None: not modelled)."""
        if not path:
            return new
        p = path[0]
        inner = self.apply_path(old, (p,))
        sub = self.write_path(inner, path[1:], new)
        if sub is None:
            return None
        if p[0] == "getitem":
            return mk("setitem", old, p[1], sub)
        if p[0] == "T":
            return sub if inner is old else mk("T", sub)
        if p[0] == "real":
            if inner is old:
                return sub
            if kind(old) != "c":
                return None
            return mk("add", sub, mk("mul", const(1j), mk("imag", old)))
        if p[0] == "imag":
            if kind(old) != "c":
                return None
            return mk("add", mk("real", old), mk("mul", const(1j), sub))
        if p[0] == "flip":
            return mk("flip", sub, p[1])
        if p[0] == "alias" or inner is old:
            return sub
        return None

    # -------------------------------------------------------------- indexing
    def index(self, sl, st):
        if isinstance(sl, ast.Tuple):
            return PyTuple([self.index(x, st) for x in sl.elts])
        if isinstance(sl, ast.Slice):
            g = lambda x: None if x is None else self.expr(x, st)
            return SliceV(g(sl.lower), g(sl.upper), g(sl.step))
        return self.expr(sl, st)

    def index_items(self, k, st):
        ks = k.items if isinstance(k, PyTuple) else (k,)
        out = []
        for x in ks:
            if isinstance(x, MaybeUnb):
                x = x.value
            if isinstance(x, SliceV):
                def g(y):
                    if y is None:
                        return None
                    n = self.num(y, st)
                    return None if (n.op == "const" and n.args[0] is None) else n
                out.append(("slice", g(x.s), g(x.e), g(x.st)))
            elif isinstance(x, EllipsisV):
                out.append("ellipsis")
            elif isinstance(x, Node) and x.op == "const" and x.args[0] is None:
                out.append("newaxis")
            elif isinstance(x, Ext) and x.name == "numpy.newaxis":
                out.append("newaxis")
            elif isinstance(x, Opq) and x.tag == "ix_":
                raise Giveup("np.ix_ index")
            else:
                out.append(self.num(x, st))
        return tuple(out)

    def getitem(self, o, k, st, loc, aug=False):
        if isinstance(o, MaybeUnb):
            o = o.value
        if isinstance(o, Choice):
            return self.merge_val(o.cond, self.getitem(o.a, k, st, loc), self.getitem(o.b, k, st, loc))
        if isinstance(o, (PyTuple, PyList)):
            items = self.seq_items(o, st)
            if items is not None:
                if isinstance(k, SliceV):
                    def g(y):
                        if y is None:
                            return None
                        n = self.num(y, st)
                        return cval(n) if is_const(n) else "?"
                    b = [g(k.s), g(k.e), g(k.st)]
                    if "?" not in b:
                        sub = items[slice(*b)]
                        if isinstance(o, PyTuple):
                            return PyTuple(sub)
                        return PyList(self.new_region(st, ("pylist", tuple(sub))))
                elif isinstance(k, Node) and is_num_const(k) and isinstance(cval(k), int):
                    i = cval(k)
                    if -len(items) <= i < len(items):
                        return items[i]
                    self.ev("typeerr", loc, st, msg="index %d out of range for %d items" % (i, len(items)))
                    raise PathEnd("IndexError", loc)
                elif isinstance(k, Node):
                    if items and all(isinstance(x, Node) for x in items):
                        return mk("getitem", mk("list", tuple(items)), (k,))
            return Opq(mk("ext", "seqitem", (self.num(o, st), self.num(k, st) if not isinstance(k, SliceV)
                                              else const(0)), None, 0))
        if isinstance(o, PyDict):
            c = st.heap.get(o.rid)
            if isinstance(c, tuple) and isinstance(k, Node) and k.op == "const":
                for kk, vv in c[1]:
                    if kk == cval(k):
                        return vv
                self.ev("keyerr", loc, st, key=cval(k))
            if isinstance(c, tuple) and c[1] and isinstance(k, Node):
                vals = [v for _, v in c[1]]
                if all(isinstance(v, Node) for v in vals):
                    return mk("ext", "dictitem", tuple(vals) + (self.num(k, st),), 0, 0)
            return Opq(mk("ext", "dictitem", (self.num(o, st), self.num(k, st)), None, 0))
        if isinstance(o, Ext):
            from . import npmodel
            return npmodel.ext_getitem(self, o.name, k, st, loc)
        if isinstance(o, Inst):
            g, c = o.cls.lookup("__getitem__")
            if isinstance(g, Func):
                return self.call_func(g, [o, k], {}, st, loc)
        if isinstance(o, (Ref, Node)):
            n = self.num(o, st)
            if n.op == "const" and isinstance(n.args[0], str):
                return Opq(mk("ext", "strslice", (n,), None, 0))
            if n.op == "const" and isinstance(n.args[0], (type(None), bool, int, float, complex)):
                self.ev("typeerr", loc, st, msg="%s is not subscriptable" % type(n.args[0]).__name__)
                raise PathEnd("TypeError", loc)
            items = self.index_items(k, st)
            self.ev("load", loc, st, base=n, idx=items, regions=self.base_regions(o), aug=aug)
            g = mk("getitem", n, items)
            if g.loc is None:
                g.loc = loc
            r = rank(g)
            basic = all(isinstance(i, (tuple, str)) or rank(i) == 0 for i in items)
            if r == 0:
                return g
            if basic and isinstance(o, Ref) and r is not None:
                return Ref(o.rid, o.path + (("getitem", items),))
            if basic and isinstance(o, Ref):
                return Ref(o.rid, o.path + (("getitem", items),))
            return self.wrap(g, st, loc)
        dep = [self.num(o, st)]
        if not isinstance(k, (SliceV, EllipsisV)):
            try:
                dep.append(self.num(k, st))
            except Giveup:
                pass
        return Opq(mk("ext", "item", tuple(dep), None, 0), getattr(o, "tag", None))

    def setitem(self, o, k, v, st, loc, aug=None, augval=None, cur=None):
        if isinstance(o, MaybeUnb):
            o = o.value
        if isinstance(o, Choice):
            for x, cnd in ((o.a, o.cond), (o.b, fold("not", o.cond))):
                if isinstance(x, Ref):
                    before = st.heap.get(x.rid)
                    self.setitem(x, k, v, st, loc, aug, augval, cur)
                    after = st.heap.get(x.rid)
                    if isinstance(before, Node) and isinstance(after, Node):
                        st.heap[x.rid] = fold("ite", cnd, after, before)
            return
        if isinstance(o, Ref):
            base = self.read(o, st)
            items = self.index_items(k, st)
            vn = self.num(v, st)
            self.ev("store", loc, st, base=base, idx=items, value=vn, regions=self.base_regions(o),
                    aug=aug, augval=augval, cur=cur)
            self.ev("mutate", loc, st, regions=self.base_regions(o), how="item assignment")
            old = st.heap[o.rid]
            if not o.path or all(p[0] == "alias" for p in o.path):
                st.heap[o.rid] = mk("setitem", old, items, vn)
            elif len(o.path) == 1 and o.path[0][0] == "getitem":
                st.heap[o.rid] = mk("setitem", old, o.path[0][1], mk("setitem", base, items, vn))
            else:
                w = self.write_path(old, o.path, mk("setitem", base, items, vn))
                st.heap[o.rid] = w if w is not None else mk("vstore", old, items, vn, nodes.fresh())
            self.spread(o.rid, st)
            return
        if isinstance(o, PyList):
            c = st.heap.get(o.rid)
            self.ev("mutate", loc, st, regions={o.rid}, how="item assignment")
            if isinstance(c, tuple) and isinstance(k, Node) and is_num_const(k) and isinstance(cval(k), int) \
                    and -len(c[1]) <= cval(k) < len(c[1]):
                l = list(c[1])
                l[cval(k)] = v
                st.heap[o.rid] = ("pylist", tuple(l))
            else:
                st.heap[o.rid] = mk("ext", "list", (self.num(v, st),), None, nodes.fresh())
            return
        if isinstance(o, PyDict):
            c = st.heap.get(o.rid)
            self.ev("mutate", loc, st, regions={o.rid}, how="item assignment")
            if isinstance(c, tuple) and isinstance(k, Node) and k.op == "const":
                l = [(a, b) for a, b in c[1] if a != cval(k)]
                l.append((cval(k), v))
                st.heap[o.rid] = ("pydict", tuple(l))
            else:
                st.heap[o.rid] = mk("ext", "dict", (self.num(v, st),), None, nodes.fresh())
            return
        if isinstance(o, Ext):
            self.ev("globalwrite", loc, st, name=o.name + "[...]", module="external")
            return
        if isinstance(o, Opq) and o.tag and o.tag.startswith("global:"):
            self.ev("globalwrite", loc, st, name=o.tag[7:] + "[...]", module="external")
        if isinstance(o, Inst):
            g, c = o.cls.lookup("__setitem__")
            if isinstance(g, Func):
                self.call_func(g, [o, k, v], {}, st, loc)

    # ------------------------------------------------------------ arithmetic
    def check_bcast(self, ns, st, loc, what):
        ds = [dims(n) for n in ns]
        ds = [d for d in ds if d]
        if len(ds) < 2:
            return
        m = min(len(d) for d in ds)
        for j in range(1, m + 1):
            xs = [d[-j] for d in ds]
            xs = [x for x in xs if not is_const(x, 1)]
            if len(xs) > 1 and any(x is not xs[0] for x in xs):
                self.ev("bcast", loc, st, dims=tuple(xs), what=what)

    def arith(self, op, a, b, st, loc):
        if op == "matmul":
            self.check_matmul(a, b, st, loc)
            return mk("matmul", a, b)
        for x in (a, b):
            if x.op == "const" and not is_num_const(x):
                if x.args[0] is None:
                    self.ev("typeerr", loc, st, msg="arithmetic on None")
                    raise PathEnd("TypeError", loc)
                return mk("ext", "strop", (a, b), None, 0)
        if op in ("mod", "floordiv", "fmod", "arctan2", "hypot", "copysign", "heaviside") and (
                nodes.surely_complex(a) or nodes.surely_complex(b)):
            self.ev("typeerr", loc, st, msg="%s of complex numbers" % op)
            raise PathEnd("TypeError", loc)
        self.check_bcast((a, b), st, loc, op)
        if op in ("div", "floordiv", "mod") and rank(a) == 0 and rank(b) == 0 and not (
                is_num_const(b) and cval(b) != 0):
            self.ev("divreq", loc, st, a=a, b=b)
        if op == "pow" and kind(a) == "i" and kind(b) == "i" and (rank(a) or rank(b)):
            self.ev("powreq", loc, st, a=a, b=b)
        r = fold(op, a, b)
        if r.loc is None:
            r.loc = loc
        return r

    def check_matmul(self, a, b, st, loc):
        d1, d2 = dims(a), dims(b)
        if d1 and d2:
            x = d1[-1]
            y = d2[0] if len(d2) == 1 else d2[-2]
            if x is not y:
                self.ev("eqreq", loc, st, a=x, b=y, what="matrix product inner dimension")

    def binop(self, op, a, b, st, loc):
        if isinstance(a, MaybeUnb):
            a = a.value
        if isinstance(b, MaybeUnb):
            b = b.value
        ia, ib = self.seq_items(a, st), self.seq_items(b, st)
        if op == "add" and ia is not None and ib is not None:
            if isinstance(a, PyTuple):
                return PyTuple(ia + ib)
            return PyList(self.new_region(st, ("pylist", tuple(ia + ib))))
        if op == "mul" and (ia is not None) != (ib is not None):
            seq, k = (ia, b) if ia is not None else (ib, a)
            k = k if isinstance(k, Node) else None
            if k is not None and is_const(k) and isinstance(cval(k), int):
                r = seq * cval(k)
                if isinstance(a, PyTuple) or isinstance(b, PyTuple):
                    return PyTuple(r)
                return PyList(self.new_region(st, ("pylist", tuple(r))))
            if k is not None and rank(k) == 0 and len(seq) == 1:
                e = self.num(seq[0], st)
                n = mk("full", (k,), e, kind(e))
                return PyList(self.new_region(st, n))
            # array * list falls through
        if isinstance(a, Node) and a.op == "const" and isinstance(a.args[0], str):
            return Opq(mk("ext", "str", (a,), None, 0)) if op != "add" else \
                (const(a.args[0] + b.args[0]) if isinstance(b, Node) and b.op == "const" and
                 isinstance(b.args[0], str) else Opq(mk("ext", "str", (a,), None, 0)))
        na, nb = self.num(a, st), self.num(b, st)
        r = self.arith(op, na, nb, st, loc)
        if isinstance(a, Opq) or isinstance(b, Opq):
            if rank(r) is None:
                return Opq(r)
        return self.wrap(r, st, loc)

    def truth(self, v, st):
        """True, False or a condition term."""
        if isinstance(v, MaybeUnb):
            v = v.value
        if isinstance(v, (Ref, Node)):
            n = self.num(v, st)
            if rank(n) and self.cur is not None:
                self.ev("truthreq", self.loc(self.cur), st, node=n)
        if isinstance(v, Node):
            if v.op == "const":
                return bool(v.args[0])
            return v
        if isinstance(v, (PyTuple, PyList)):
            it = self.seq_items(v, st)
            if it is not None:
                return bool(it)
        if isinstance(v, PyDict):
            c = st.heap.get(v.rid)
            if isinstance(c, tuple):
                return bool(c[1])
        if isinstance(v, (Inst, Func, Cls, Mod, Bound)):
            return True
        if isinstance(v, Choice):
            a, b = self.truth(v.a, st), self.truth(v.b, st)
            if a is b:
                return a
            g = lambda x: const(x) if isinstance(x, bool) else x
            r = fold("ite", v.cond, g(a), g(b))
            if a is True and b is False:
                return v.cond
            if a is False and b is True:
                return fold("not", v.cond)
            return r
        n = self.num(v, st)
        return fold("tobool", n)

    # ----------------------------------------------------------- expressions
    def expr(self, e, st):
        self.tick()
        m = getattr(self, "x_" + type(e).__name__, None)
        if m is None:
            raise Giveup("expression %s" % type(e).__name__)
        return m(e, st)

    def x_Constant(self, e, st):
        if e.value is Ellipsis:
            return EllipsisV()
        if isinstance(e.value, bytes):
            return const(str(e.value))
        return const(e.value)

    def x_Name(self, e, st):
        return self.getvar(e.id, st, e)

    def x_Attribute(self, e, st):
        return self.getattr(self.expr(e.value, st), e.attr, st, self.loc(e))

    def x_Tuple(self, e, st):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                it = self.seq_items(self.expr(x.value, st), st)
                if it is None:
                    raise Giveup("starred")
                out.extend(it)
            else:
                out.append(self.expr(x, st))
        return PyTuple(out)

    def x_List(self, e, st):
        t = self.x_Tuple(e, st)
        return PyList(self.new_region(st, ("pylist", t.items)))

    def x_Set(self, e, st):
        return self.x_Tuple(e, st)

    def x_Dict(self, e, st):
        items = []
        ok = True
        for k, v in zip(e.keys, e.values):
            vv = self.expr(v, st)
            if k is None:
                if isinstance(vv, PyDict) and isinstance(st.heap.get(vv.rid), tuple):
                    for a, b in st.heap[vv.rid][1]:
                        items = [(x, y) for x, y in items if x != a] + [(a, b)]
                    continue
                ok = False
                continue
            kk = self.expr(k, st)
            if isinstance(kk, Node) and kk.op == "const":
                items.append((cval(kk), vv))
            else:
                ok = False
        if ok:
            return PyDict(self.new_region(st, ("pydict", tuple(items))))
        return PyDict(self.new_region(st, mk("ext", "dict", tuple(self.num(v, st) for _, v in items), None,
                                             nodes.fresh())))

    def x_BinOp(self, e, st):
        a = self.expr(e.left, st)
        b = self.expr(e.right, st)
        return self.binop(BINOPS[type(e.op)], a, b, st, self.loc(e))

    def x_UnaryOp(self, e, st):
        v = self.expr(e.operand, st)
        if isinstance(e.op, ast.Not):
            t = self.truth(v, st)
            if isinstance(t, bool):
                return const(not t)
            return fold("not", t)
        op = {ast.USub: "neg", ast.UAdd: "pos", ast.Invert: "invert"}[type(e.op)]
        n = self.num(v, st)
        if n.op == "const" and (n.args[0] is None or isinstance(n.args[0], str)):
            self.ev("typeerr", self.loc(e), st, msg="arithmetic on %s" % type(n.args[0]).__name__)
            raise PathEnd("TypeError", self.loc(e))
        if op == "pos" and rank(n) == 0:
            return n
        if op == "invert" and kind(n) == "b":
            op = "logical_not"
        return self.wrap(fold(op, n), st, self.loc(e))

    def x_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        conds = []
        cur = st
        saved = st.pc
        lastv = None
        for x in e.values:
            v = self.expr(x, st)
            t = self.truth(v, st)
            lastv = v
            if t is True and isand:
                continue
            if t is False and not isand:
                continue
            if t is False and isand:
                st.pc = saved
                if not conds:
                    return v
                return const(False)
            if t is True and not isand:
                st.pc = saved
                if not conds:
                    return v
                return const(True)
            conds.append(t)
            st.pc = st.pc + (t if isand else fold("not", t),)
        st.pc = saved
        if not conds:
            return lastv
        if len(conds) == 1:
            if isinstance(lastv, Node) and kind(lastv) == "b":
                return conds[0]
            if isinstance(lastv, Node) and lastv is conds[0]:
                return lastv
            return conds[0]
        return mk("land" if isand else "lor", tuple(conds))

    def x_Compare(self, e, st):
        left = self.expr(e.left, st)
        res = []
        for op, rx in zip(e.ops, e.comparators):
            right = self.expr(rx, st)
            res.append(self.compare(op, left, right, st, self.loc(e)))
            left = right
        if len(res) == 1:
            return res[0]
        conds = []
        for r in res:
            t = self.truth(r, st)
            if t is False:
                return const(False)
            if t is True:
                continue
            conds.append(t)
        if not conds:
            return const(True)
        return conds[0] if len(conds) == 1 else mk("land", tuple(conds))

    def isnone(self, v):
        """True/False/None(unknown)/condition"""
        if isinstance(v, MaybeUnb):
            v = v.value
        if isinstance(v, Node):
            if v.op == "const":
                return v.args[0] is None
            return False
        if isinstance(v, Choice):
            a, b = self.isnone(v.a), self.isnone(v.b)
            if a is b and isinstance(a, bool):
                return a
            if a is True and b is False:
                return v.cond
            if a is False and b is True:
                return fold("not", v.cond)
            return None
        if isinstance(v, Opq):
            return False if v.tag == "mpl" else None
        return False

    def compare(self, op, a, b, st, loc):
        if isinstance(op, (ast.Is, ast.IsNot)):
            neg = isinstance(op, ast.IsNot)
            r = None
            if self.isnone(b) is True:
                r = self.isnone(a)
            elif self.isnone(a) is True:
                r = self.isnone(b)
            elif isinstance(a, Node) and isinstance(b, Node) and a.op == b.op == "const":
                r = cval(a) is cval(b) or cval(a) == cval(b)
            elif isinstance(a, (Ref,)) and isinstance(b, Ref):
                r = a.same(b)
            elif isinstance(a, Ext) and isinstance(b, Ext):
                r = a.name == b.name
            elif isinstance(a, Inst) and isinstance(b, Inst):
                r = a.oid == b.oid
            if r is None:
                n = mk("is_", self.num(a, st), self.num(b, st))
                return fold("not", n) if neg else n
            if isinstance(r, Node):
                return fold("not", r) if neg else r
            return const(bool(r) != neg)
        if isinstance(op, (ast.In, ast.NotIn)):
            neg = isinstance(op, ast.NotIn)
            r = self.contains(a, b, st)
            if isinstance(r, bool):
                return const(r != neg)
            return fold("not", r) if neg else r
        o = CMPOPS[type(op)]
        if isinstance(a, Choice) and not isinstance(b, Choice):
            ka = self.is_strish(a.a) or self.is_strish(a.b) or self.isnone(a.a) or self.isnone(a.b)
            if ka is True or ka:
                return self.merge_val(a.cond, self.compare(op, a.a, b, st, loc),
                                      self.compare(op, a.b, b, st, loc))
        # type(x) == ..., strings, tuples
        if isinstance(a, Ext) and isinstance(b, Ext):
            if o in ("eq", "ne"):
                return const((a.name == b.name) == (o == "eq"))
        if isinstance(a, Cls) and isinstance(b, Cls) and o in ("eq", "ne"):
            return const((a is b) == (o == "eq"))
        if isinstance(a, Node) and isinstance(b, Node) and a.op == b.op == "const":
            try:
                x, y = cval(a), cval(b)
                r = {"eq": lambda: x == y, "ne": lambda: x != y, "lt": lambda: x < y,
                     "le": lambda: x <= y, "gt": lambda: x > y, "ge": lambda: x >= y}[o]()
                return const(bool(r))
            except TypeError:
                self.ev("typeerr", loc, st, msg="comparison of incompatible constants")
                raise PathEnd("TypeError", loc)
        if isinstance(a, Node) and isinstance(b, Node) and (
                (a.op == "const" and not is_num_const(a)) or (b.op == "const" and not is_num_const(b))):
            k = a if (a.op == "const" and not is_num_const(a)) else b
            other = b if k is a else a
            if isinstance(cval(k), str) and other.op not in ("ext", "ite", "mu") and o in ("eq", "ne"):
                return const(o == "ne")
        ia, ib = self.seq_items(a, st), self.seq_items(b, st)
        if ia is not None and ib is not None and o in ("eq", "ne"):
            if len(ia) != len(ib):
                return const(o == "ne")
            cs = []
            for x, y in zip(ia, ib):
                t = self.truth(self.compare(ast.Eq(), x, y, st, loc), st)
                if t is False:
                    return const(o == "ne")
                if t is not True:
                    cs.append(t)
            if not cs:
                return const(o == "eq")
            n = cs[0] if len(cs) == 1 else mk("land", tuple(cs))
            return fold("not", n) if o == "ne" else n
        na, nb = self.num(a, st), self.num(b, st)
        self.check_bcast((na, nb), st, loc, o)
        if rank(na) == 0 and rank(nb) == 0 and na is nb and kind(na) == "i":
            return const(o in ("eq", "le", "ge"))
        self.ev("compare", loc, st, op=o, a=na, b=nb)
        return self.wrap(fold(o, na, nb), st, loc)

    def is_strish(self, v):
        return isinstance(v, Node) and v.op == "const" and isinstance(v.args[0], str)

    def contains(self, a, b, st):
        items = self.seq_items(b, st)
        if isinstance(b, PyDict):
            c = st.heap.get(b.rid)
            if isinstance(c, tuple) and isinstance(a, Node) and a.op == "const":
                return any(k == cval(a) for k, _ in c[1])
            return mk("ext", "contains", (self.num(a, st),), 0, nodes.fresh())
        if items is not None:
            cs = []
            for x in items:
                if isinstance(a, Ext) or isinstance(x, Ext):
                    if isinstance(a, Ext) and isinstance(x, Ext):
                        if a.name == x.name:
                            return True
                        continue
                    if isinstance(a, Opq):
                        cs.append(mk("ext", "typeeq", (a.node,), 0, nodes.fresh()))
                    continue
                t = self.truth(self.compare(ast.Eq(), a, x, st, None), st)
                if t is True:
                    return True
                if t is False:
                    continue
                cs.append(t)
            if not cs:
                return False
            return cs[0] if len(cs) == 1 else mk("lor", tuple(cs))
        if isinstance(a, Node) and isinstance(b, Node) and a.op == b.op == "const" and \
                isinstance(cval(a), str) and isinstance(cval(b), str):
            return cval(a) in cval(b)
        return mk("ext", "contains", (self.num(a, st), self.num(b, st)), 0, 0)

    def x_IfExp(self, e, st):
        c = self.truth(self.expr(e.test, st), st)
        if c is True:
            return self.expr(e.body, st)
        if c is False:
            return self.expr(e.orelse, st)
        s1, s2 = st.copy(), st.copy()
        s1.pc = st.pc + (c,)
        s2.pc = st.pc + (fold("not", c),)
        v1 = v2 = None
        try:
            v1 = self.expr(e.body, s1)
        except PathEnd as p:
            p1 = p
        try:
            v2 = self.expr(e.orelse, s2)
        except PathEnd as p:
            p2 = p
            if v1 is None:
                raise
            st.become(s1)
            return v1
        if v1 is None:
            st.become(s2)
            return v2
        pc = st.pc
        st.become(self.merge(c, s1, s2))
        st.pc = pc
        return self.merge_val(c, v1, v2)

    def x_NamedExpr(self, e, st):
        v = self.expr(e.value, st)
        self.assign(e.target, v, st)
        return v

    def x_Subscript(self, e, st):
        o = self.expr(e.value, st)
        k = self.index(e.slice, st)
        return self.getitem(o, k, st, self.loc(e))

    def x_Slice(self, e, st):
        return self.index(e, st)

    def x_Lambda(self, e, st):
        f = self.frames[-1]
        fn = Func(e, f["module"], f["qual"] + ".<lambda>", st.vars)
        self.fill_defaults(fn, e.args, st)
        return fn

    def x_JoinedStr(self, e, st):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.expr(v.value, st)
        return Opq(mk("ext", "fstr", (), None, 0))

    def x_FormattedValue(self, e, st):
        self.expr(e.value, st)
        return Opq(mk("ext", "fstr", (), None, 0))

    def x_Starred(self, e, st):
        return self.expr(e.value, st)

    def unrolled_comp(self, gens, st, elt):
        """Elements of a comprehension over concrete sequences, else None."""
        out = []

        def go(k, sub):
            if k == len(gens):
                out.append(elt(sub))
                return True
            g = gens[k]
            it = self.expr(g.iter, sub)
            items = self.concrete_items(it.value if isinstance(it, MaybeUnb) else it, sub)
            if items is None:
                return False
            for x in items:
                self.assign(g.target, x, sub)
                keep = True
                for c in g.ifs:
                    t = self.truth(self.expr(c, sub), sub)
                    if not isinstance(t, bool):
                        return False
                    keep = keep and t
                if keep and not go(k + 1, sub):
                    return False
            return True
        n = len(self.events)
        trial = st.copy()
        if go(0, trial):
            st.heap, st.attrs = trial.heap, trial.attrs
            return out
        del self.events[n:]
        return None

    def comp(self, e, st, elt):
        if len(e.generators) != 1:
            out = self.unrolled_comp(e.generators, st, elt)
            if out is not None:
                return PyList(self.new_region(st, ("pylist", tuple(out))))
            # nested generators: unknown contents, but evaluate for effects
            return self.nested_comp(e, st, elt, 0)
        g = e.generators[0]
        it = self.expr(g.iter, st)
        if isinstance(it, MaybeUnb):
            it = it.value
        loc = self.loc(e)
        sub = State(dict(st.vars), st.heap, st.attrs, st.pc)
        items = self.concrete_items(it, st)
        if items is not None:
            out = []
            for x in items:
                self.assign(g.target, x, sub)
                keep = True
                for c in g.ifs:
                    t = self.truth(self.expr(c, sub), sub)
                    if t is False:
                        keep = False
                    elif t is not True:
                        raise Giveup("conditional comprehension")
                if keep:
                    out.append(elt(sub))
            st.heap, st.attrs = sub.heap, sub.attrs
            return PyList(self.new_region(st, ("pylist", tuple(out))))
        name = g.target.id if isinstance(g.target, ast.Name) else "i"
        lid, build = self.symbolic_iter(it, st, name, loc)
        self.loopstack.append(lid)
        try:
            self.assign(g.target, build(sub), sub)
            for c in g.ifs:
                t = self.truth(self.expr(c, sub), sub)
                if isinstance(t, Node):
                    sub.pc = sub.pc + (t,)
            v = elt(sub)
            n = self.num(v, sub)
        finally:
            self.loopstack.pop()
        for r in self.changed(st, State(st.vars, sub.heap, sub.attrs)):
            if r[0] == "h":
                st.heap[r[1]] = mk("mutated", st.heap[r[1]], (sub.heap[r[1]],), nodes.fresh())
        for r, c in sub.heap.items():
            if r not in st.heap:
                st.heap[r] = c
        b = LV[lid]["bounds"]
        if g.ifs:
            return PyList(self.new_region(st, mk("ext", "listcomp", (n,) + tuple(b), 1 + (rank(n) or 0),
                                                 0)))
        if len(b) == 3:
            cnt = mk("arangelen", *b) if not (is_const(b[0], 0) and is_const(b[2], 1)) else b[1]
            return PyList(self.new_region(st, mk("comp", lid, cnt, n)))
        return PyList(self.new_region(st, mk("ext", "listcomp", (n,), None, nodes.fresh())))

    def nested_comp(self, e, st, elt, k):
        sub = State(dict(st.vars), st.heap, st.attrs, st.pc)
        pushed = 0
        try:
            for g in e.generators:
                it = self.expr(g.iter, sub)
                lid, build = self.symbolic_iter(it, sub, "i", self.loc(e))
                self.loopstack.append(lid)
                pushed += 1
                self.assign(g.target, build(sub), sub)
                for c in g.ifs:
                    self.expr(c, sub)
            n = self.num(elt(sub), sub)
        finally:
            for _ in range(pushed):
                self.loopstack.pop()
        return PyList(self.new_region(st, mk("ext", "listcomp", (n,), None, nodes.fresh())))

    def x_ListComp(self, e, st):
        return self.comp(e, st, lambda s: self.expr(e.elt, s))

    x_GeneratorExp = x_ListComp
    x_SetComp = x_ListComp

    def x_DictComp(self, e, st):
        out = self.unrolled_comp(e.generators, st, lambda s: (self.expr(e.key, s), self.expr(e.value, s)))
        if out is not None and all(isinstance(k, Node) and k.op == "const" for k, _ in out):
            d = {}
            for k, v in out:
                d[cval(k)] = v
            return PyDict(self.new_region(st, ("pydict", tuple(d.items()))))
        self.comp(e, st, lambda s: self.expr(e.value, s))
        return PyDict(self.new_region(st, mk("ext", "dict", (), None, nodes.fresh())))

    def x_Call(self, e, st):
        loc = self.loc(e)
        f = self.expr(e.func, st)
        # zero-argument super()
        if isinstance(f, Ext) and f.name == "builtins.super":
            if not e.args:
                fr = self.frames[-1]
                c = fr.get("cls")
                inst = fr.get("self")
                if c is None or inst is None:
                    raise Giveup("super()")
                return SuperV(c, inst)
            c = self.expr(e.args[0], st)
            o = self.expr(e.args[1], st)
            if isinstance(c, Cls) and isinstance(o, Inst):
                return SuperV(c, o)
            raise Giveup("super")
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value, st)
                it = self.seq_items(v, st)
                if it is None:
                    it = self.concrete_items(v, st)
                if it is None:
                    raise Giveup("star argument")
                args.extend(it)
            else:
                args.append(self.expr(a, st))
        kw = {}
        for k in e.keywords:
            v = self.expr(k.value, st)
            if k.arg is None:
                if isinstance(v, PyDict) and isinstance(st.heap.get(v.rid), tuple):
                    for a, b in st.heap[v.rid][1]:
                        kw[a] = b
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, st, loc)

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kw, st, loc):
        if isinstance(f, MaybeUnb):
            f = f.value
        args = [a.value if isinstance(a, MaybeUnb) else a for a in args]
        if isinstance(f, Choice):
            s1, s2 = st.copy(), st.copy()
            s1.pc = st.pc + (f.cond,)
            s2.pc = st.pc + (fold("not", f.cond),)
            v1 = self.call(f.a, args, kw, s1, loc)
            v2 = self.call(f.b, args, kw, s2, loc)
            pc = st.pc
            st.become(self.merge(f.cond, s1, s2))
            st.pc = pc
            return self.merge_val(f.cond, v1, v2)
        if isinstance(f, Func):
            return self.call_func(f, args, kw, st, loc)
        if isinstance(f, Bound):
            decos = [d.name for d in f.func.deco if isinstance(d, Ext)] if isinstance(f.func, Func) else []
            if "builtins.classmethod" in decos:
                return self.call_func(f.func, [f.self_.cls] + args, kw, st, loc)
            return self.call_func(f.func, [f.self_] + args, kw, st, loc)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw, st, loc)
        from . import npmodel
        if isinstance(f, ArrMeth):
            return npmodel.call_method(self, f.obj, f.name, args, kw, st, loc)
        if isinstance(f, Ext):
            self.ext_calls[f.name] = self.ext_calls.get(f.name, 0) + 1
            return npmodel.call_ext(self, f.name, args, kw, st, loc)
        if isinstance(f, Inst):
            g, c = f.cls.lookup("__call__")
            if isinstance(g, Func):
                return self.call_func(g, [f] + args, kw, st, loc)
        if isinstance(f, Opq):
            deps = tuple(self.num(a, st) for a in args) + tuple(self.num(a, st) for a in kw.values())
            if f.tag == "mpl":
                m = f.node.args[0] if f.node.op == "ext" else "mpl"
                known = m.startswith("mpl.") and f.node.args[1]
                return npmodel.mpl_call(self, "matplotlib" + (m[3:] if known else ""),
                                        f.node.args[1][0] if known else f.node, args, kw, st, loc)
            self.ev("extcall", loc, st, name="<opaque>", args=args)
            return Opq(mk("ext", "call", (f.node,) + deps, None, nodes.fresh()), f.tag)
        if isinstance(f, Node):
            if f.op == "const":
                self.ev("typeerr", loc, st, msg="call of a constant")
                raise PathEnd("TypeError", loc)
            return Opq(mk("ext", "call", (f,), None, nodes.fresh()))
        raise Giveup("call of %r" % (f,))

    def instantiate(self, c, args, kw, st, loc):
        oid = nodes.fresh()
        inst = Inst(oid, c)
        init, own = c.lookup("__init__")
        if isinstance(init, Func):
            self.call_func(init, [inst] + args, kw, st, loc)
        elif c.has_ext_base():
            return Opq(mk("ext", "instance", tuple(self.num(a, st) for a in args), None, oid))
        return inst

    def bind_call(self, f, args, kw, st, loc):
        node = f.node
        a = node.args
        tree, rel, pkg = self.loader.tree(f.module)
        env = {}
        params = [x.arg for x in a.posonlyargs + a.args]
        rest = []
        kw = dict(kw)
        dyn = kw.pop("**", None)
        for i, v in enumerate(args):
            if i < len(params):
                env[params[i]] = v
            else:
                rest.append(v)
        if rest and a.vararg is None:
            self.ev("typeerr", loc, st, msg="%s() takes %d positional arguments but %d were given" % (
                f.qual, len(params), len(args)))
            raise PathEnd("TypeError", loc)
        extra = {}
        names = set(params) | {x.arg for x in a.kwonlyargs}
        for k, v in kw.items():
            if k in names:
                if k in env:
                    self.ev("typeerr", loc, st, msg="%s() got multiple values for argument %r" % (f.qual, k))
                    raise PathEnd("TypeError", loc)
                env[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.ev("typeerr", loc, st, msg="%s() got an unexpected keyword argument %r" % (f.qual, k))
                raise PathEnd("TypeError", loc)
        nd = len(f.defaults)
        for i, p in enumerate(params):
            if p not in env:
                j = i - (len(params) - nd)
                if j >= 0:
                    env[p] = f.defaults[j]
                elif dyn is not None:
                    env[p] = Opq(mk("ext", "kwarg", (), None, nodes.fresh()))
                else:
                    self.ev("typeerr", loc, st, msg="%s() missing required argument %r" % (f.qual, p))
                    raise PathEnd("TypeError", loc)
        for x in a.kwonlyargs:
            if x.arg not in env:
                if x.arg in f.kwdefaults:
                    env[x.arg] = f.kwdefaults[x.arg]
                else:
                    self.ev("typeerr", loc, st, msg="%s() missing keyword argument %r" % (f.qual, x.arg))
                    raise PathEnd("TypeError", loc)
        callee = State(env, st.heap, st.attrs, st.pc)
        if a.vararg is not None:
            env[a.vararg.arg] = PyTuple(rest)
        if a.kwarg is not None:
            env[a.kwarg.arg] = PyDict(self.new_region(callee, ("pydict", tuple(extra.items()))))
        selfv = args[0] if args and isinstance(args[0], Inst) and f.cls is not None else None
        fr = {"module": f.module, "qual": f.qual, "file": rel, "cls": f.cls, "self": selfv,
              "closure": f.closure, "globals": set(), "pkg": pkg, "locals": local_names(node)}
        self.functions.add("%s:%s" % (rel, f.qual))
        return fr, callee

    def call_func(self, f, args, kw, st, loc):
        if len(self.frames) > self.MAXDEPTH:
            raise Giveup("call depth")
        self.n_calls += 1
        if not isinstance(f.node, ast.Lambda) and is_generator(f.node) and any(
                isinstance(d, Ext) and d.name == "contextlib.contextmanager" for d in f.deco or ()):
            return ManagerV(f, list(args), dict(kw))
        fr, callee = self.bind_call(f, args, kw, st, loc)
        node = f.node
        self.frames.append(fr)
        try:
            if isinstance(node, ast.Lambda):
                v = self.expr(node.body, callee)
                st.heap, st.attrs = callee.heap, callee.attrs
                return v
            if is_generator(node):
                raise Giveup("generator function")
            o = self.block(node.body, callee)
        finally:
            self.frames.pop()
        rets = list(o["return"])
        if o["next"] is not None:
            rets.append((o["next"], const(None)))
        base = st.pc
        if not rets:
            r = o["raise"][0] if o["raise"] else (None, "Exception", loc)
            if r[0] is not None:               # what was done before the exception stays done
                st.heap, st.attrs = r[0].heap, r[0].attrs
            raise PathEnd(r[1], r[2])
        # fold return points: last is the default, earlier ones are gated
        cur_st, cur_v = rets[-1]
        for (rs, rv) in reversed(rets[:-1]):
            c = self.path_cond(rs, cur_st)
            m = self.merge(c, rs, cur_st)
            cur_v = self.merge_val(c, rv, cur_v)
            cur_st = m
        st.heap, st.attrs = cur_st.heap, cur_st.attrs
        if len(rets) == 1:
            st.pc = cur_st.pc if len(cur_st.pc) >= len(base) else base
        return cur_v


def local_names(node):
    """Names assigned in a function body (its locals)."""
    c = getattr(node, "_tf_locals", None)
    if c is not None:
        return c
    out = set()
    glob = set()

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.add(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            self.visit(n.generators[0].iter)

        visit_SetComp = visit_GeneratorExp = visit_ListComp

        def visit_DictComp(self, n):
            self.visit(n.generators[0].iter)

        def visit_Global(self, n):
            glob.update(n.names)

        visit_Nonlocal = visit_Global

        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store):
                out.add(n.id)

        def visit_Import(self, n):
            for a in n.names:
                out.add(a.asname or a.name.split(".")[0])

        def visit_ImportFrom(self, n):
            for a in n.names:
                out.add(a.asname or a.name)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

    body = node.body if isinstance(node.body, list) else []
    v = V()
    for s in body:
        v.visit(s)
    out -= glob
    node._tf_locals = out
    return out


def is_generator(node):
    class V(ast.NodeVisitor):
        found = False

        def visit_Yield(self, n):
            self.found = True

        visit_YieldFrom = visit_Yield

        def visit_FunctionDef(self, n):
            pass

        def visit_Lambda(self, n):
            pass
    v = V()
    for s in node.body:
        v.visit(s)
    return v.found

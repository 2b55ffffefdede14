"""Meaning of Python built-ins, containers and the standard library."""
import re
import builtins

import numpy as np

from . import ops
from . import terms as tm
from .terms import T, Undecided
from .vals import *
from .tfgraph import TNode
from .libnp import NumpyMixin
from .libtf import TFMixin
from .args import P

NUM = (int, float, T)


class PullIter(object):
    """Lazily pulled finite iteration (a Python generator of values)."""

    def __init__(self, gen):
        self.gen = gen

    def __iter__(self):
        return self.gen


class Stop(Exception):
    pass


PY_TYPES = {
    "builtins.int": int, "builtins.float": float, "builtins.str": str, "builtins.bool": bool,
    "builtins.list": list, "builtins.tuple": tuple, "builtins.dict": dict, "builtins.set": set,
}

NOOP_MODULES = ("logging", "warnings", "time", "tqdm", "gc", "traceback", "pprint")

# library functions that change process-wide state
GLOBAL_EFFECTS = {
    "numpy.random.seed", "numpy.random.set_state", "numpy.seterr", "numpy.seterrcall",
    "numpy.set_printoptions", "numpy.random.shuffle", "numpy.random.permutation#",
    "random.seed", "random.setstate", "random.shuffle",
    "tensorflow.set_random_seed", "tensorflow.reset_default_graph",
    "tensorflow.enable_eager_execution", "tensorflow.disable_eager_execution",
    "tensorflow.enable_v2_behavior", "tensorflow.disable_v2_behavior",
    "tensorflow.logging.set_verbosity", "tensorflow.set_default_session",
    "logging.basicConfig", "logging.disable", "logging.root.setLevel", "logging.root.addHandler", "logging.addLevelName",
    "tensorflow.get_logger#", "tensorflow.random.set_seed", "logging.setLoggerClass", "logging.captureWarnings",
    "warnings.filterwarnings", "warnings.simplefilter", "warnings.resetwarnings",
    "sys.setrecursionlimit", "sys.settrace", "os.chdir", "os.putenv", "os.unsetenv",
    "os.umask", "gc.disable", "gc.enable", "gc.collect#", "locale.setlocale", "signal.signal",
    "decimal.setcontext", "socket.setdefaulttimeout", "threading.settrace", "sys.setswitchinterval",
}


class Library(NumpyMixin, TFMixin):
    def __init__(self, interp):
        self.I = interp
        self.strict_global = False
        self.default_session = None
        self.stack = []              # with-statement stack
        self.init_np()
        self.init_tf()
        self.mod_cache = {}

    # ------------------------------------------------------------ names

    CANON = {"np": "numpy", "tf": "tensorflow"}

    def canon(self, name):
        if name.startswith("tensorflow.compat.v1"):
            return "tensorflow" + name[len("tensorflow.compat.v1"):]
        if name in ("tf_v1_api",):
            return "tensorflow"
        return name

    MISSING = {"numpy." + n for n in ("int", "float", "bool", "object", "str", "complex", "long")} | \
        {"scipy.misc." + n for n in ("logsumexp", "comb", "factorial", "derivative", "face")}
    MISSING_MODULES = ("tensorflow.contrib.",)

    def missing(self, mod, name):
        full = self.canon(mod) + "." + name
        return full in self.MISSING

    def libattr(self, mod, name):
        full = self.canon(mod + "." + name)
        if full in self.MISSING:
            self.I.raise_("AttributeError", full)
        return self.libvalue(full)

    def libvalue(self, full):
        v = self.np_value(full)
        if v is not UNBOUND:
            return v
        v = self.tf_value(full)
        if v is not UNBOUND:
            return v
        if full in ("math.pi",):
            return tm.sym("pi", kind="pi")
        if full in ("math.inf",):
            return float("inf")
        if full in ("math.e",):
            return tm.fn("exp", tm.const(1))
        if full in ("inspect.Parameter.empty", "inspect._empty", "inspect.Signature.empty"):
            return Lib("inspect._empty")
        if full == "sys.maxsize":
            return 2 ** 63 - 1
        if full == "sys.version_info":
            return (3, 10, 0)
        if full in ("os.environ",):
            return Opq("os.environ", "environ")
        if full.startswith("typing."):
            return Opq(full, "typing")
        return Lib(full)

    def text(self, v):
        if isinstance(v, (str, int, float)):
            return str(v)
        if isinstance(v, Phi):
            return "{phi}"
        if isinstance(v, T):
            n = self.I.norm(v)
            return str(n) if not isinstance(n, T) else "{%s}" % tm.show(n)
        if isinstance(v, DType):
            return "<dtype: '%s'>" % v.name
        if isinstance(v, tuple):
            return "(%s)" % ", ".join(self.text(x) for x in v)
        if isinstance(v, Ref) and v.kind == "inst":
            for n in ("__str__", "__repr__"):
                m = self.I.class_attr(self.I.get(v).cls, n)
                if isinstance(m, Func):
                    return self.text(self.I.call(m, [v], {}))
        return "{%s}" % type(v).__name__

    # ------------------------------------------------------------ truth

    def truth(self, v):
        if v is None or isinstance(v, (bool, int, float, str, bytes)):
            return bool(v)
        if isinstance(v, T):
            n = self.I.norm(v)
            if isinstance(n, (bool, int, float, str)) or n is None:
                return bool(n)
            if v.sort == "bool":
                return v
            if v.sort == "obj":
                return True
            return tm.ne(v, 0)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, Ref):
            c = self.I.get(v)
            if v.kind in ("list", "deque"):
                if isinstance(c.items, SymSeq):
                    return tm.gt(self.length(v), 0)
                return len(c.items) > 0
            if v.kind == "dict":
                if c.rest is not None and not c.items:
                    return tm.sym("nonempty:%s" % c.rest.name, "bool")
                return len(c.items) > 0
            if v.kind == "set":
                return len(c.items) > 0
            if v.kind == "arr":
                d = c.data
                if isinstance(d, np.ndarray):
                    if d.size == 1:
                        return self.truth(d.reshape(-1)[0])
                    if d.size == 0:
                        return False
                self.I.raise_("ValueError", "truth value of an array is ambiguous")
            if v.kind == "inst":
                for n in ("__bool__", "__len__"):
                    m = self.I.class_attr(c.cls, n)
                    if m is not UNBOUND:
                        return self.I.truth(self.I.call(m, [v], {}))
                return True
            return True
        if isinstance(v, TNode):
            self.I.raise_("TypeError", "using a tensor as a Python bool")
        if isinstance(v, Shape):
            return len(v) > 0
        if isinstance(v, Opq) and not v.strict and v.attrs.get("__truth__") is not None:
            return v.attrs["__truth__"]
        if isinstance(v, RangeV):
            return self.truth(self.length(v))
        return True

    # ------------------------------------------------------------ comparison

    def identical(self, a, b):
        """True/False/None for `is`."""
        if a is b:
            return True
        if isinstance(a, (bool, type(None))) or isinstance(b, (bool, type(None))):
            if isinstance(a, T) or isinstance(b, T):
                t, o = (a, b) if isinstance(a, T) else (b, a)
                if o is None:
                    return self.I.norm(t) is None
                if t.sort == "bool":
                    return tm.eq(t, tm.const(o))
                return False
            return type(a) is type(b) and a == b
        if isinstance(a, Ref) or isinstance(b, Ref):
            return a == b
        if isinstance(a, T) and isinstance(b, T) and a.sort == "obj" and b.sort == "obj":
            return tm.eq(a, b)
        if isinstance(a, NUM) and isinstance(b, NUM):
            return tm.eq(a, b)
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, (Bound, tuple)) and type(a) is type(b):
            return a == b
        return False

    def compare(self, op, a, b):
        I = self.I
        if op in ("Is", "IsNot"):
            r = self.identical(a, b)
            if isinstance(r, T):
                r = I.norm(r)
            if op == "IsNot":
                return (not r) if isinstance(r, bool) else tm.not_(r)
            return r
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            if op == "NotIn":
                return (not r) if isinstance(r, bool) else I.norm(tm.not_(r))
            return r
        for x, y, f in ((a, b, op), (b, a, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op))):
            if isinstance(x, Ref) and x.kind == "inst":
                m = self.I.class_attr(I.get(x).cls, {"Eq": "__eq__", "NotEq": "__ne__", "Lt": "__lt__",
                                                     "Gt": "__gt__", "LtE": "__le__", "GtE": "__ge__"}[f])
                if m is UNBOUND and f == "NotEq":
                    m = self.I.class_attr(I.get(x).cls, "__eq__")
                    if m is not UNBOUND:
                        t = I.truth(I.call(m, [x, y], {}))
                        return (not t) if isinstance(t, bool) else tm.not_(t)
                if m is not UNBOUND:
                    return I.call(m, [x, y], {})
        if isinstance(a, TNode) or isinstance(b, TNode):
            if op in ("Eq", "NotEq"):
                return (a is b) == (op == "Eq")
            return self.tf_binary(op, a, b)
        if self.is_arr(a) or self.is_arr(b):
            if op in ("Eq", "NotEq") and (a is None or b is None or isinstance(a, str) or isinstance(b, str)):
                return op == "NotEq"
            return self.np_compare(op, a, b)
        if op in ("Eq", "NotEq"):
            r = self.equal(a, b)
            if op == "NotEq":
                return (not r) if isinstance(r, bool) else I.norm(tm.not_(r))
            return I.norm(r) if isinstance(r, T) else r
        f = {"Lt": tm.lt, "LtE": tm.le, "Gt": tm.gt, "GtE": tm.ge}[op]
        if isinstance(a, NUM) and isinstance(b, NUM):
            if isinstance(a, T) and a.sort == "obj" or isinstance(b, T) and b.sort == "obj":
                if (isinstance(a, T) and I.norm(a) is None) or (isinstance(b, T) and I.norm(b) is None):
                    I.raise_("TypeError", "comparison with None")
            return I.norm(f(a, b))
        if isinstance(a, str) and isinstance(b, str):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        if isinstance(a, tuple) and isinstance(b, tuple):
            la, lb = list(a), list(b)
            if all(isinstance(x, int) for x in la + lb):
                return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == "set":
            ka = {I.key(x) for x in I.get(a).items}
            kb = {I.key(x) for x in I.get(b).items}
            return {"Lt": ka < kb, "LtE": ka <= kb, "Gt": ka > kb, "GtE": ka >= kb}[op]
        I.raise_("TypeError", "comparison of %s and %s" % (self.typename(a), self.typename(b)))

    def equal(self, a, b):
        """bool or boolean term."""
        I = self.I
        if isinstance(a, Phi):
            return I.branch(a.cond, lambda: self.equal(a.a, b), lambda: self.equal(a.b, b))
        if isinstance(b, Phi):
            return I.branch(b.cond, lambda: self.equal(a, b.a), lambda: self.equal(a, b.b))
        if a is b:
            return True
        if isinstance(a, NUM) and isinstance(b, NUM):
            return I.norm(tm.eq(a, b))
        if isinstance(a, T) or isinstance(b, T):
            t, o = (a, b) if isinstance(a, T) else (b, a)
            if isinstance(o, str) or o is None:
                return I.norm(tm.eq(t, tm.const(o)))
            return False
        if isinstance(a, (str, bytes, type(None), DType, Lib)) or isinstance(b, (str, bytes, type(None), DType, Lib)):
            if isinstance(a, DType) or isinstance(b, DType):
                ref = [isinstance(x, DType) and x.name.endswith("_ref") for x in (a, b)]
                return self.dtype_of(a) is self.dtype_of(b) and self.dtype_of(a) is not None and ref[0] == ref[1]
            return a is b or (type(a) is type(b) and a == b)
        if isinstance(a, (tuple,)) and isinstance(b, (tuple,)) or \
                isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == "list" or \
                isinstance(a, Shape) and isinstance(b, Ref) or isinstance(b, Shape) and isinstance(a, Ref):
            xs, ys = I.items_of(a), I.items_of(b)
            if len(xs) != len(ys):
                return False
            out = tm.TRUE
            for x, y in zip(xs, ys):
                r = self.equal(x, y) if not (self.is_arr(x) or self.is_arr(y)) else False
                out = tm.and_(out, r)
            return I.norm(out)
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == "dict":
            ca, cb = I.get(a), I.get(b)
            if {I.key(k) for k, _ in ca.items} != {I.key(k) for k, _ in cb.items}:
                return False
            db = {I.key(k): v for k, v in cb.items}
            return I.norm(tm.and_(*[tm.term(self.equal(v, db[I.key(k)])) for k, v in ca.items]))
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == "set":
            return {I.key(x) for x in I.get(a).items} == {I.key(x) for x in I.get(b).items}
        if isinstance(a, RangeV) and isinstance(b, RangeV):
            return (a.start, a.stop, a.step) == (b.start, b.stop, b.step)
        return a == b if isinstance(a, (Ref, Bound)) else a is b

    def contains(self, c, x):
        I = self.I
        if isinstance(c, Opq) and c.typ == "environ":
            return tm.sym("env:" + self.text(x), "bool")
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            raise Undecided("substring test")
        if isinstance(c, Ref) and c.kind == "dict":
            d = I.get(c)
            k = I.key(x)
            for kk, _ in d.items:
                if I.key(kk) == k:
                    return True
            if d.rest is not None:
                return tm.uf("has:" + d.rest.name, tm.term(x) if not isinstance(x, Ref) else x.as_term(), sort="bool")
            keys = [kk for kk, _ in d.items]
        elif isinstance(c, Class) and c.is_enum:
            return x in c.members.values()
        else:
            keys = I.items_of(c)
        out = tm.FALSE
        for kk in keys:
            r = self.equal(kk, x) if not self.is_arr(kk) else (kk == x)
            if r is True:
                return True
            if r is not False:
                out = tm.or_(out, r)
        return I.norm(out)

    # ------------------------------------------------------------ operators

    SYM = {"Add": tm.add, "Sub": tm.sub, "Mult": tm.mul, "Div": tm.div,
           "FloorDiv": tm.floordiv, "Mod": tm.mod, "Pow": tm.power}
    BITS = {"BitAnd": "and", "BitOr": "or", "BitXor": "xor", "LShift": "shl", "RShift": "shr"}
    DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv",
              "Mod": "mod", "Pow": "pow", "MatMult": "matmul", "BitOr": "or", "BitAnd": "and",
              "BitXor": "xor"}

    def binop(self, op, a, b):
        I = self.I
        for x, y, pre in ((a, b, "__"), (b, a, "__r")):
            if isinstance(x, Ref) and x.kind == "inst":
                m = I.class_attr(I.get(x).cls, pre + self.DUNDER.get(op, "?") + "__")
                if m is not UNBOUND:
                    return I.call(m, [x, y], {})
        if isinstance(a, TNode) or isinstance(b, TNode):
            return self.tf_binary(op, a, b)
        if isinstance(a, str) and op == "Mod":
            return self.percent(a, b)
        if isinstance(a, str) or isinstance(b, str):
            if op == "Add" and isinstance(a, str) and isinstance(b, str):
                return a + b
            if op == "Mult":
                s, n = (a, b) if isinstance(a, str) else (b, a)
                if isinstance(n, int):
                    return s * n
            I.raise_("TypeError", "string operand")
        if self.is_arr(a) or self.is_arr(b):
            return self.np_binary(op, a, b)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and op in ("BitAnd", "BitOr", "BitXor", "LShift", "RShift"):
            return {"BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b,
                    "LShift": lambda: a << b, "RShift": lambda: a >> b}[op]()
        if isinstance(a, NUM) and isinstance(b, NUM):
            if isinstance(a, T) and a.sort == "bool" and op in ("BitAnd", "BitOr"):
                return I.norm((tm.and_ if op == "BitAnd" else tm.or_)(a, b))
            if isinstance(a, int) and isinstance(b, int) and op in ("Add", "Sub", "Mult"):
                return {"Add": a + b, "Sub": a - b, "Mult": a * b}[op]
            if isinstance(a, int) and isinstance(b, int) and op == "Pow" and b >= 0:
                return a ** b
            if op in self.BITS:
                if any(isinstance(x, float) or isinstance(x, T) and x.sort == "real" for x in (a, b)):
                    I.raise_("TypeError", "bitwise operator on a float")
                if not any(isinstance(x, T) and x.sort not in ("int",) for x in (a, b)):
                    return I.norm(tm.bits(self.BITS[op], a, b))
            if op in ("Div", "FloorDiv", "Mod") and isinstance(b, (int, float)) and b == 0 and \
                    not (isinstance(a, T) and False):
                I.raise_("ZeroDivisionError", "division by zero")
            if op not in self.SYM:
                raise Undecided("operator %s" % op)
            if (isinstance(a, T) and I.norm(a) is None) or (isinstance(b, T) and I.norm(b) is None):
                I.raise_("TypeError", "None operand")
            for x in (a, b):
                if isinstance(x, float) and (x != x or x in (float("inf"), float("-inf"))):
                    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                        return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b,
                                "Div": lambda: a / b}.get(op, lambda: float("nan"))()
            return I.norm(self.SYM[op](a, b))
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "Add":
            return tuple(a) + tuple(b)
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == "list" and op == "Add":
            ca, cb = I.get(a), I.get(b)
            return I.list_(list(I.items_of(a)) + list(I.items_of(b)))
        for s, n in ((a, b), (b, a)):
            if op == "Mult" and isinstance(n, (int, T)) and (isinstance(s, tuple) or isinstance(s, Ref) and s.kind == "list"):
                if isinstance(n, T) and n.sort == "real" and not tm.is_num(n) and n.op != "sym":
                    return self.np_binary(op, a, b)      # a numpy scalar: numpy converts the list
                if not isinstance(n, int):
                    raise Undecided("sequence repeated a symbolic number of times")
                items = I.items_of(s) * n
                return tuple(items) if isinstance(s, tuple) else I.list_(items)
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == "set":
            return self.set_op({"BitOr": "union", "BitAnd": "intersection", "Sub": "difference",
                                "BitXor": "symmetric_difference"}[op], a, [b])
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == "dict" and op == "BitOr":
            d = I.dict_(I.get(a).items, I.get(a).rest)
            self.call_method(d, "update", [b], {})
            return d
        if isinstance(a, (Opq,)) or isinstance(b, (Opq,)):
            f = self.SYM.get(op)
            if f is None:
                raise Undecided("operator %s on an opaque value" % op)
            if isinstance(a, (Opq, int, float, T)) and isinstance(b, (Opq, int, float, T)):
                return f(tm.term(a), tm.term(b))
        I.raise_("TypeError", "unsupported operands for %s: %s, %s" % (op, self.typename(a), self.typename(b)))

    def unary(self, op, v):
        if isinstance(v, TNode):
            return self.tf_unary(op, v)
        if self.is_arr(v):
            return self.np_unary(op, v)
        if isinstance(v, (int, float)) and op in ("USub", "UAdd", "Invert"):
            return {"USub": lambda: -v, "UAdd": lambda: +v, "Invert": lambda: ~v}[op]()
        if isinstance(v, T) or isinstance(v, Opq):
            t = tm.term(v)
            if op == "USub":
                return self.I.norm(tm.neg(t))
            if op == "UAdd":
                return v
            if op == "Invert" and t.sort == "bool":
                return tm.not_(t)
        if isinstance(v, Ref) and v.kind == "inst":
            m = self.I.class_attr(self.I.get(v).cls, {"USub": "__neg__"}.get(op, "?"))
            if m is not UNBOUND:
                return self.I.call(m, [v], {})
        self.I.raise_("TypeError", "bad operand for unary %s" % op)

    # ------------------------------------------------------------ types

    def typename(self, v):
        if isinstance(v, Ref):
            return v.kind
        return type(v).__name__

    def isinstance_(self, v, c):
        I = self.I
        if isinstance(c, tuple):
            out = False
            for x in c:
                r = self.isinstance_(v, x)
                if r is True:
                    return True
                if r is not False:
                    out = r if out is False else tm.or_(out, r)
            return out
        if isinstance(v, Phi):
            r = I.branch(v.cond, lambda: self.isinstance_(v.a, c), lambda: self.isinstance_(v.b, c))
            return r
        if isinstance(c, Class):
            if isinstance(v, Ref) and v.kind == "inst":
                return c in I.get(v).cls.mro()
            if isinstance(v, Opq) and isinstance(v.typ, Class):
                return c in v.typ.mro()
            if isinstance(v, Class):
                return False
            return False
        name = c.name if isinstance(c, Lib) else None
        if isinstance(c, Opq) and c.typ == "typing":
            name = c.name
        if name is None:
            raise Undecided("isinstance against %r" % (c,))
        if name == "builtins.object":
            return True
        if isinstance(v, Opq) and isinstance(v.typ, str):
            return name in self.SUPERS.get(v.typ, (v.typ,)) or name == v.typ
        if isinstance(v, Ref) and v.kind == "inst":
            return any(isinstance(b, Lib) and b.name == name for b in I.get(v).cls.mro())
        t = self.types_of(v)
        return name in t

    SUPERS = {
        "session": ("tensorflow.Session",),
        "interactive_session": ("tensorflow.InteractiveSession",),
    }

    def types_of(self, v):
        """Names of the types v is an instance of."""
        if v is None:
            return ("builtins.NoneType",)
        if isinstance(v, bool):
            return ("builtins.bool", "builtins.int", "numbers.Integral", "numbers.Real", "numbers.Number")
        if isinstance(v, int):
            return ("builtins.int", "numbers.Integral", "numbers.Real", "numbers.Number")
        if isinstance(v, float):
            return ("builtins.float", "numbers.Real", "numbers.Number")
        if isinstance(v, str):
            return ("builtins.str", "collections.abc.Sequence", "collections.Sequence", "collections.abc.Iterable")
        if isinstance(v, T):
            k = v.args[3] if v.op == "sym" and len(v.args) > 3 else None
            if v.sort == "int":
                return ("builtins.int", "numbers.Integral", "numbers.Real", "numbers.Number")
            if v.sort == "bool":
                return ("builtins.bool", "builtins.int")
            if v.sort == "real":
                return ("builtins.float", "numpy.float64", "numpy.floating", "numpy.generic",
                        "numpy.number", "numbers.Real", "numbers.Number")
            if v.op == "const" and v.args[0] == "str":
                return ("builtins.str",)
            return ("builtins.object",)
        if isinstance(v, tuple):
            return ("builtins.tuple", "collections.abc.Sequence", "collections.abc.Iterable")
        if isinstance(v, Ref):
            return {"list": ("builtins.list", "collections.abc.Sequence", "collections.abc.Iterable"),
                    "deque": ("collections.deque", "collections.abc.Iterable"),
                    "dict": ("builtins.dict", "collections.OrderedDict", "collections.abc.Mapping", "collections.abc.Iterable"),
                    "set": ("builtins.set", "collections.abc.Iterable"),
                    "arr": ("numpy.ndarray", "collections.abc.Iterable"),
                    "iter": ("collections.abc.Iterator", "collections.abc.Iterable"),
                    "rng": ("numpy.random.RandomState", "numpy.random.mtrand.RandomState"),
                    "state": ()}[v.kind]
        if isinstance(v, TNode):
            if v.is_var():
                return ("tensorflow.Variable",)
            return ("tensorflow.Tensor",)
        if isinstance(v, DType):
            return ("tensorflow.DType", "tensorflow.dtypes.DType")
        if isinstance(v, (Func, Bound, Native)):
            return ("types.FunctionType", "types.LambdaType", "collections.abc.Callable", "typing.Callable")
        if isinstance(v, GenV):
            return ("types.GeneratorType", "collections.abc.Iterator", "collections.abc.Iterable", "collections.abc.Generator")
        if isinstance(v, ExcVal):
            out = []
            n = v.name()
            out.append(v.cls.name)
            t = getattr(builtins, n, None)
            if isinstance(t, type):
                out += ["builtins." + b.__name__ for b in t.__mro__]
            return tuple(out)
        if isinstance(v, RangeV):
            return ("builtins.range",)
        if isinstance(v, (Class, Lib)):
            return ("builtins.type",)
        if isinstance(v, Lazy):
            return ("collections.abc.Iterator", "collections.abc.Iterable")
        return ()

    ATTRS = {
        "list": dir(list), "deque": ["append", "appendleft", "clear", "extend", "maxlen", "pop", "popleft",
                                     "__len__", "__iter__", "__getitem__"],
        "dict": dir(dict), "set": dir(set),
        "arr": dir(np.ndarray), "iter": ["__next__", "__iter__"],
        "rng": dir(np.random.RandomState),
    }

    def hasattr_(self, v, name):
        I = self.I
        if isinstance(v, Phi):
            return I.branch(v.cond, lambda: self.hasattr_(v.a, name), lambda: self.hasattr_(v.b, name))
        if isinstance(v, Ref):
            if v.kind == "inst":
                c = I.get(v)
                if name in c.attrs:
                    a = c.attrs[name]
                    if a is UNBOUND:
                        return False
                    if isinstance(a, Phi) and (a.a is UNBOUND or a.b is UNBOUND):
                        return tm.not_(a.cond) if a.a is UNBOUND else a.cond
                    return True
                if I.class_attr(c.cls, name) is not UNBOUND:
                    return True
                return name in dir(object)
            if v.kind == "arr" and name in ("__len__", "__iter__"):
                return True
            return name in self.ATTRS[v.kind]
        if isinstance(v, Opq):
            if v.has is not None:
                r = v.has(name)
                if r is not None:
                    return r
            return name in v.attrs or name in v.methods
        if v is None or isinstance(v, (int, float, str, tuple)):
            return hasattr(v, name)
        if isinstance(v, T):
            if v.sort in ("int", "real", "bool"):
                return hasattr(0 if v.sort == "int" else 0.0, name) or \
                    name in ("dtype", "shape", "astype", "item") and v.sort == "real"
            return False
        if isinstance(v, TNode):
            return name in ("shape", "dtype", "name", "op", "graph", "get_shape", "initializer", "initialized_value",
                            "__getitem__", "__iter__", "eval", "__add__", "__mul__", "assign") and \
                not (not v.is_var() and name in ("initializer", "initialized_value", "assign"))
        if isinstance(v, (Func, Native, Bound)):
            return name in ("__call__", "__name__", "__doc__") or (isinstance(v, Func) and name in v.attrs)
        if isinstance(v, GenV):
            return name in ("__next__", "__iter__", "send", "close")
        if isinstance(v, Lazy):
            return name in ("__next__", "__iter__")
        if isinstance(v, Class):
            return I.class_attr(v, name) is not UNBOUND or name in ("__name__", "__call__")
        if isinstance(v, Module):
            return name in I.heap[v.env.oid].vars
        if isinstance(v, Lib):
            return True
        if isinstance(v, DType):
            return name in ("name", "as_numpy_dtype")
        raise Undecided("hasattr on %r" % (v,))

    # ------------------------------------------------------------ attributes

    def getattr(self, o, name):
        I = self.I
        if isinstance(o, Ref):
            if o.kind == "inst":
                return self.inst_attr(o, name)
            if o.kind == "arr":
                return self.arr_attr(o, name)
            if o.kind == "deque" and name == "maxlen":
                return I.get(o).maxlen
            if name == "__class__":
                return Lib("builtins." + o.kind)
            if name not in self.ATTRS.get(o.kind, ()):
                I.raise_("AttributeError", "%s has no attribute %s" % (o.kind, name))
            return BuiltinM(o, name)
        if isinstance(o, Module):
            v = I.heap[o.env.oid].vars.get(name, UNBOUND)
            if v is not UNBOUND:
                return v
            if I.is_package(o.name + "." + name):
                return I.load(o.name + "." + name)
            I.raise_("AttributeError", "module %s has no attribute %s" % (o.name, name))
        if isinstance(o, Lib):
            if o.name.startswith("pymc3"):
                return Lib(o.name + "." + name)
            if name in ("__name__",):
                return o.name.split(".")[-1]
            if name in ("kind", "itemsize", "char", "name", "type", "str") and o.name.startswith("numpy."):
                n = self.dtname(o)
                if n.rstrip("0123456789") in ("float", "int", "uint", "bool", "object", "complex"):
                    bits = int("".join(c for c in n if c.isdigit()) or (8 if n == "bool" else 64))
                    return {"kind": {"object": "O"}.get(n, n[0]), "itemsize": bits // 8, "name": n, "type": o,
                            "char": {"float64": "d", "float32": "f", "int64": "l", "bool": "?"}.get(n, n),
                            "str": "<%s%d" % (n[0], bits // 8)}[name]
            return self.libattr(o.name, name)
        if isinstance(o, TNode):
            return self.tf_attr(o, name)
        if isinstance(o, Opq):
            if name in o.attrs:
                return o.attrs[name]
            if name in o.methods:
                return BuiltinM(o, name)
            if isinstance(o.typ, Class):
                v = I.class_attr(o.typ, name)
                if v is not UNBOUND:
                    return self.bind_attr(v, o, o.typ)
            if name == "__class__" and o.typ is not None:
                return o.typ if not isinstance(o.typ, str) else Lib(o.typ)
            if o.strict:
                I.raise_("AttributeError", "%s has no attribute %s" % (o.name, name))
            if o.has is not None and o.has(name) is False:
                I.raise_("AttributeError", "%s has no attribute %s" % (o.name, name))
            raise Undecided("attribute %s of %s at %s" % (name, o.name, I.site))
        if isinstance(o, Class):
            if name == "__name__":
                return o.name
            if name == "__members__" and o.is_enum:
                return I.dict_(list(o.members.items()))
            if name == "__mro__":
                return tuple(o.mro())
            if name in ("__qualname__",):
                return o.name
            if name == "__module__":
                return o.module.name
            if name == "__doc__":
                return None
            v = I.class_attr(o, name)
            if v is UNBOUND:
                if name == "__init__":
                    return Lib("builtins.object.__init__")
                I.raise_("AttributeError", "class %s has no attribute %s" % (o.name, name))
            if isinstance(v, StaticM):
                return v.fn
            if isinstance(v, ClassM):
                return Bound(v.fn, o)
            return v
        if isinstance(o, SuperV):
            cls = I.get(o.obj).cls if isinstance(o.obj, Ref) else o.obj
            v = I.class_attr(cls, name, after=o.cls)
            if v is UNBOUND:
                if name in ("__init__", "__init_subclass__", "__setattr__"):
                    if name == "__setattr__":
                        return Native("object.__setattr__", lambda I_, a, k: self.raw_setattr(o.obj, a[0], a[1]))
                    return Native("object.__init__", lambda I_, a, k: None)
                I.raise_("AttributeError", name)
            return self.bind_attr(v, o.obj, cls)
        if isinstance(o, Func):
            if name in o.attrs:
                return o.attrs[name]
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__doc__":
                return None
            if name == "__module__":
                return o.module.name
            if name == "__dict__":
                return I.dict_(list(o.attrs.items()))
            if name == "__defaults__":
                return tuple(o.defaults)
            if name == "__wrapped__" or name == "__annotations__":
                I.raise_("AttributeError", name)
            I.raise_("AttributeError", "function has no attribute %s" % name)
        if isinstance(o, Bound):
            if name == "__self__":
                return o.self_
            if name == "__func__":
                return o.fn
            return self.getattr(o.fn, name)
        if isinstance(o, Native):
            if name in ("__name__", "__qualname__"):
                return o.name
            if name in ("__doc__",):
                return None
            I.raise_("AttributeError", name)
        if isinstance(o, DType):
            if name in ("name",):
                return o.name
            if name in ("as_numpy_dtype",):
                return Lib("numpy." + o.base().name)
            if name in ("is_floating", "is_integer", "is_bool"):
                return o.name.startswith({"is_floating": "float", "is_bool": "bool"}.get(name, ("int", "uint")))
            if name in ("base_dtype",):
                return o.base()
            if name == "is_compatible_with":
                return Native(name, lambda I, a, k: self.dtype_of(a[0]) in (o, o.base()) and
                              (a[0] is o or not o.name.endswith("_ref")))
            if name in ("max", "min"):
                return tm.sym("%s.%s" % (o.name, name), kind="pos" if name == "max" else None)
            raise Undecided("dtype attribute %s" % name)
        if isinstance(o, str):
            return BuiltinM(o, name)
        if isinstance(o, Shape):
            if name == "ndims" or name == "rank":
                return len(o)
            return BuiltinM(o, name)
        if isinstance(o, tuple):
            names = getattr(o, "names", ())
            if name in names:
                return o[names.index(name)]
            if name in ("index", "count"):
                return BuiltinM(o, name)
            I.raise_("AttributeError", "tuple has no attribute %s" % name)
        if isinstance(o, (GenV, Lazy)):
            return BuiltinM(o, name)
        if isinstance(o, ExcVal):
            if name == "args":
                return tuple(o.args)
            if name == "with_traceback":
                return BuiltinM(o, name)
            if name == "value":
                return o.args[0] if o.args else None
            I.raise_("AttributeError", name)
        if isinstance(o, RangeV):
            return {"start": o.start, "stop": o.stop, "step": o.step}[name]
        if isinstance(o, Slice):
            if name in ("start", "stop", "step"):
                return getattr(o, name)
            return BuiltinM(o, name)
        if isinstance(o, (int, float, T)) and not (isinstance(o, T) and o.sort == "obj"):
            return self.scalar_attr(o, name)
        if isinstance(o, T):
            raise Undecided("attribute %s of %s at %s" % (name, tm.show(o), I.site))
        if isinstance(o, Prop) and name in ("setter", "getter", "deleter"):
            return Native("setter", lambda I_, a, k: Prop(o.fget, a[0]))
        if isinstance(o, BuiltinM):
            if name == "__name__":
                return o.name
        I.raise_("AttributeError", "%s has no attribute %s" % (self.typename(o), name))

    def scalar_attr(self, o, name):
        if name in ("real",):
            return o
        if name == "shape":
            return ()
        if name == "ndim":
            return 0
        if name == "size":
            return 1
        if name == "dtype":
            return Lib("numpy.float64")
        return BuiltinM(o, name)

    def bind_attr(self, v, o, cls):
        if isinstance(v, Func):
            return Bound(v, o)
        if isinstance(v, Native):
            return Bound(v, o)
        if isinstance(v, Prop):
            return self.I.call(v.fget, [o], {})
        if isinstance(v, StaticM):
            return v.fn
        if isinstance(v, ClassM):
            return Bound(v.fn, cls)
        return v

    def inst_attr(self, o, name):
        I = self.I
        c = I.get(o)
        v = I.class_attr(c.cls, name)
        if isinstance(v, Prop):
            return I.call(v.fget, [o], {})
        if name in c.attrs and c.attrs[name] is not UNBOUND:
            a = c.attrs[name]
            if isinstance(a, Phi) and (a.a is UNBOUND or a.b is UNBOUND):
                def missing():
                    if v is not UNBOUND:
                        return self.bind_attr(v, o, c.cls)
                    I.raise_("AttributeError", "%s has no attribute %s" % (c.cls.name, name))
                return I.branch(a.cond, lambda: a.a if a.a is not UNBOUND else missing(),
                                lambda: a.b if a.b is not UNBOUND else missing())
            return a
        if v is not UNBOUND:
            return self.bind_attr(v, o, c.cls)
        if name == "__class__":
            return c.cls
        if name == "__dict__":
            return I.dict_([(k, x) for k, x in c.attrs.items() if x is not UNBOUND])
        g = I.class_attr(c.cls, "__getattr__")
        if isinstance(g, Func):
            return I.call(g, [o, name], {})
        if o in I.stubs:
            raise Undecided("attribute %s of a stand-in for %s" % (name, c.cls.name))
        I.raise_("AttributeError", "%s object has no attribute %s" % (c.cls.name, name))

    def raw_setattr(self, o, name, v):
        I = self.I
        c = I.get(o)
        a = dict(c.attrs)
        a[name] = v
        I.put(o, InstC(c.cls, a))
        I.event("setattr", obj=o, name=name, value=v)

    def setattr(self, o, name, v):
        I = self.I
        if isinstance(o, Ref) and o.kind == "inst":
            c = I.get(o)
            p = I.class_attr(c.cls, name)
            if isinstance(p, Prop):
                if p.fset is None:
                    I.raise_("AttributeError", "can't set attribute")
                return I.call(p.fset, [o, v], {})
            s = I.class_attr(c.cls, "__setattr__")
            if isinstance(s, Func):
                return I.call(s, [o, name, v], {})
            return self.raw_setattr(o, name, v)
        if isinstance(o, Func):
            o.attrs[name] = v
            return
        if isinstance(o, Bound):
            I.raise_("AttributeError", "method object has no attribute %s" % name)
        if isinstance(o, Class):
            o.attrs[name] = v
            I.event("class_write", cls=o, name=name)
            return
        if isinstance(o, Module):
            I.event("global_effect", what="module attribute %s.%s" % (o.name, name))
            c = I.get(o.env)
            d = dict(c.vars)
            d[name] = v
            I.put(o.env, EnvC(d, c.parent))
            return
        if isinstance(o, Lib):
            I.event("global_effect", what="attribute %s.%s" % (o.name, name))
            return
        if isinstance(o, Opq):
            I.event("opq_setattr", obj=o, name=name, value=v)
            o.attrs[name] = v
            return
        if isinstance(o, Ref) and o.kind == "arr" and name == "shape":
            c = I.get(o)
            I.put(o, ArrC(ops.reshape(c.data, [self.intval(x) for x in I.items_of(v)]), c.owner, c.dtype, c.view))
            return
        if isinstance(o, TNode):
            raise Undecided("attribute write on a tensor")
        I.raise_("AttributeError", "cannot set %s" % name)

    # ------------------------------------------------------------ items

    def intval(self, v):
        """Concrete int of a value."""
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, T):
            n = self.I.norm(v)
            if isinstance(n, int):
                return int(n)
            c = self.concrete(v)
            if c is not None:
                return c
        if self.is_arr(v):
            d = self.data(v)
            if isinstance(d, np.ndarray) and d.size == 1:
                return self.intval(d.reshape(-1)[0])
        if isinstance(v, str) or isinstance(v, Ref) and v.kind in ("list", "dict", "set", "deque"):
            self.I.raise_("TypeError", "an integer is required")
        raise Undecided("need a concrete integer, have %r at %s" % (v, self.I.site))

    def concrete(self, t):
        """int value of a closed term."""
        if tm.contains(t, lambda x: x.op in ("sym", "uf")):
            return None
        import mpmath
        try:
            v = tm.Valuation(0)(t)
        except tm.Undef:
            return None
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, mpmath.mpf) and tm.close(v, mpmath.nint(v)):
            return int(mpmath.nint(v))
        return None

    def isint(self, v):
        if isinstance(v, int):
            return True
        if isinstance(v, T):
            return isinstance(self.I.norm(v), int) or (v.sort == "int" and self.concrete(v) is not None)
        return False

    def getitem(self, o, k):
        I = self.I
        if isinstance(o, TNode):
            return self.tf_getitem(o, k)
        if isinstance(o, str):
            if isinstance(k, Slice):
                return o[slice(*[None if x is None else self.intval(x) for x in (k.start, k.stop, k.step)])]
            try:
                return o[self.intval(k)]
            except IndexError:
                I.raise_("IndexError", "string index")
        if isinstance(o, tuple):
            if isinstance(k, Slice):
                r = tuple(o)[self.pyslice(k)]
                return Shape(r) if isinstance(o, Shape) else r
            if isinstance(k, T) and not self.isint(k):
                return self.select_item(list(o), k)
            self.bad_index(k)
            try:
                return o[self.intval(k)]
            except IndexError:
                I.raise_("IndexError", "tuple index out of range")
        if isinstance(o, Ref):
            c = I.get(o)
            if o.kind in ("list", "deque"):
                if isinstance(c.items, SymSeq):
                    return self.symseq_item(o, c, k)
                if isinstance(k, Slice):
                    if any(x is not None and not self.isint(x) for x in (k.start, k.stop, k.step)):
                        self.pyslice(Slice(*[x if not isinstance(x, T) else None for x in (k.start, k.stop, k.step)]))
                        raise Undecided("symbolic list slice")
                    return I.list_(list(c.items)[self.pyslice(k)])
                if isinstance(k, T) and not self.isint(k):
                    return self.select_item(list(c.items), k)
                self.bad_index(k)
                try:
                    return c.items[self.intval(k)]
                except IndexError:
                    I.raise_("IndexError", "list index out of range")
            if o.kind == "dict":
                kk = I.key(k)
                for x, v in c.items:
                    if I.key(x) == kk:
                        return v
                if c.rest is not None:
                    return tm.uf("item:" + c.rest.name, self.kterm(k), sort="obj")
                if c.default is not None:
                    v = I.call(c.default, [], {})
                    self.setitem(o, k, v)
                    return v
                I.raise_("KeyError", k)
            if o.kind == "arr":
                return self.arr_getitem(o, k)
            if o.kind == "inst":
                m = I.class_attr(c.cls, "__getitem__")
                if m is not UNBOUND:
                    return I.call(m, [o, k], {})
        if isinstance(o, RangeV):
            return I.norm(tm.add(o.start, tm.mul(k, o.step)))
        if isinstance(o, Class) and o.is_enum:
            if isinstance(k, str) and k in o.members:
                return o.members[k]
            I.raise_("KeyError", k)
        if isinstance(o, Opq):
            if "__getitem__" in o.methods:
                return o.methods["__getitem__"](I, [k], {})
            if o.typ == "environ":
                return Opq("env:" + self.text(k))
            if o.typ == "typing":
                return o
            if isinstance(k, int):
                return Opq("%s[%d]" % (o.name, k))
            if isinstance(k, T):
                return Opq("%s[%s]" % (o.name, tm.show(k)))
            raise Undecided("item of %s" % o.name)
        if isinstance(o, T) and o.sort == "obj":
            return tm.uf("item", o, self.kterm(k), sort="obj")
        if isinstance(o, Lib):
            return o
        I.raise_("TypeError", "%s is not subscriptable" % self.typename(o))

    def kterm(self, k):
        return k.as_term() if isinstance(k, (Ref, Phi)) else tm.term(k)

    def select_item(self, items, k):
        I = self.I
        n = len(items)
        bad = tm.or_(tm.lt(k, -n), tm.ge(k, n))

        def f():
            out = items[-1]
            for j in range(n - 1):
                c = tm.or_(tm.eq(k, j), tm.eq(k, j - n))
                out = I.phi(c, items[j], out) if j == 0 else out
            out = items[n - 1]
            for j in reversed(range(n - 1)):
                out = I.phi(tm.or_(tm.eq(k, j), tm.eq(k, j - n)), items[j], out)
            return out

        def err():
            I.raise_("IndexError", "index out of range")
        return I.branch(bad, err, f)

    def symseq_item(self, o, c, k):
        s = c.items
        if isinstance(k, Slice):
            if k.start is None and k.stop is None and k.step is None:
                return self.I.list_(SymSeq(s.length, s.elem, s.tail))
            st = 0 if k.start is None else k.start
            step = 1 if k.step is None else k.step
            if s.tail or k.stop is not None:
                raise Undecided("slice of a symbolic sequence")
            n = s.length
            st = tm.fn("min", self.wrap_index(st, n), n)
            ln = tm.floordiv(tm.add(tm.sub(n, st), tm.sub(step, 1)), step)
            return self.I.list_(SymSeq(ln, lambda i: s.elem(tm.add(st, tm.mul(step, i)))))
        if isinstance(k, int) and k < 0:
            if s.tail and -k <= len(s.tail):
                return s.tail[k]
            return s.elem(tm.add(s.length, k + len(s.tail)))
        return s.elem(tm.term(k))

    def wrap_index(self, i, n):
        return tm.ite(tm.lt(i, 0), tm.fn("max", tm.add(i, n), 0), i)

    def bad_index(self, k):
        if k is None or isinstance(k, (str, float, tuple)) or isinstance(k, Ref) and k.kind in ("list", "dict", "set", "inst", "deque"):
            self.I.raise_("TypeError", "indices must be integers or slices")

    def pyslice(self, k):
        for x in (k.start, k.stop, k.step):
            if x is not None:
                self.bad_index(x)
        if k.step is not None and self.isint(k.step) and self.intval(k.step) == 0:
            self.I.raise_("ValueError", "slice step cannot be zero")
        return slice(*[None if x is None else self.intval(x) for x in (k.start, k.stop, k.step)])

    def setitem(self, o, k, v):
        I = self.I
        if isinstance(o, Ref):
            c = I.get(o)
            if o.kind == "dict":
                kk = I.key(k)
                out, done = [], False
                for x, y in c.items:
                    if I.key(x) == kk:
                        out.append((x, v))
                        done = True
                    else:
                        out.append((x, y))
                if not done:
                    out.append((k, v))
                I.put(o, DictC(out, c.rest, c.default))
                I.event("dict_write", ref=o, key=k, value=v)
                return
            if o.kind in ("list", "deque"):
                if isinstance(c.items, SymSeq):
                    raise Undecided("item assignment in a symbolic sequence")
                items = list(c.items)
                if isinstance(k, Slice):
                    items[self.pyslice(k)] = I.items_of(v)
                else:
                    if not self.isint(k):
                        for j in range(len(items)):
                            items[j] = I.phi(tm.or_(tm.eq(k, j), tm.eq(k, j - len(items))), v, items[j])
                    else:
                        try:
                            items[self.intval(k)] = v
                        except IndexError:
                            I.raise_("IndexError", "list assignment index out of range")
                I.put(o, ListC(tuple(items), c.maxlen))
                I.event("list_write", ref=o)
                return
            if o.kind == "arr":
                return self.arr_setitem(o, k, v)
            if o.kind == "inst":
                m = I.class_attr(c.cls, "__setitem__")
                if m is not UNBOUND:
                    return I.call(m, [o, k, v], {})
        if isinstance(o, Opq):
            if o.typ == "environ":
                I.event("global_effect", what="environment variable %s" % self.text(k))
                return
            if "__setitem__" in o.methods:
                return o.methods["__setitem__"](I, [k, v], {})
            raise Undecided("item assignment on %s" % o.name)
        I.raise_("TypeError", "%s does not support item assignment" % self.typename(o))

    def delitem(self, o, k):
        I = self.I
        c = I.get(o)
        if o.kind == "dict":
            kk = I.key(k)
            items = [(x, y) for x, y in c.items if I.key(x) != kk]
            if len(items) == len(c.items) and c.rest is None:
                I.raise_("KeyError", k)
            I.put(o, DictC(items, c.rest, c.default))
            I.event("dict_write", ref=o, key=k, value=UNBOUND)
            return
        if o.kind in ("list", "deque") and not isinstance(c.items, SymSeq):
            items = list(c.items)
            del items[self.pyslice(k) if isinstance(k, Slice) else self.intval(k)]
            I.put(o, ListC(tuple(items), c.maxlen))
            I.event("list_write", ref=o)
            return
        raise Undecided("del")

    def list_append(self, ref, v, quiet=False):
        I = self.I
        c = I.get(ref)
        lps = I.loops
        if not quiet:
            I.event("append", ref=ref, value=v)
        if isinstance(c.items, SymSeq):
            s = c.items
            I.put(ref, ListC(SymSeq(s.length, s.elem, s.tail + (v,)), c.maxlen))
            return
        items = tuple(c.items) + (v,)
        if c.maxlen is not None:
            m = c.maxlen
            if isinstance(m, int):
                items = items[max(0, len(items) - m):]
            elif isinstance(m, T):
                # symbolic bound: keep while within the bound
                pass
        I.put(ref, ListC(items, c.maxlen))

    def list_extend(self, ref, it):
        if isinstance(it, Ref) and it.kind == "iter" or not isinstance(it, Ref):
            self.I.loop_over(it, lambda v: self.list_append(ref, v), None)
            return
        for x in list(self.I.items_of(it)):
            self.list_append(ref, x)

    def make_set(self, items):
        I = self.I
        seen, out = set(), []
        for x in items:
            k = I.key(x)
            if k not in seen:
                seen.add(k)
                out.append(x)
        if all(isinstance(x, int) for x in out):
            out = list(set(out))       # CPython order of a set of small ints
        return I.alloc(SetC(out), "set")

    def make_iter(self, v):
        I = self.I
        if isinstance(v, Ref) and v.kind == "iter" or isinstance(v, (GenV, Lazy)):
            return v
        if isinstance(v, Phi):
            return I.over(v, self.make_iter)
        if isinstance(v, Ref) and v.kind == "inst":
            m = I.class_attr(I.get(v).cls, "__iter__")
            if m is not UNBOUND:
                return I.call(m, [v], {})
        if isinstance(v, Opq):
            return v
        r = self.iterate(v)
        if isinstance(r, list):
            return I.alloc(IterC(r), "iter")
        if isinstance(r, GenIter):
            return Lazy("gen", (r,))
        if isinstance(r, PullIter):
            return Lazy("pull", (r,))
        raise Undecided("iter of %r" % (v,))

    def dict_items(self, v):
        I = self.I
        if isinstance(v, Ref) and v.kind == "dict":
            c = I.get(v)
            if c.rest is not None:
                raise Undecided("items of a partly known dict")
            return list(c.items)
        if isinstance(v, Phi):
            r = I.branch(v.cond, lambda: tuple(self.dict_items(v.a)), lambda: tuple(self.dict_items(v.b)))
            if isinstance(r, Phi):
                raise Undecided("items of a joined dict")
            return list(r)
        if isinstance(v, Opq) and "items" in v.attrs:
            return v.attrs["items"]
        raise Undecided("keyword expansion of %r" % (v,))

    def length(self, v):
        I = self.I
        if isinstance(v, Phi):
            return I.over(v, self.length)
        if isinstance(v, (str, tuple)):
            return len(v)
        if isinstance(v, Ref):
            c = I.get(v)
            if v.kind in ("list", "deque"):
                if isinstance(c.items, SymSeq):
                    n = tm.add(c.items.length, len(c.items.tail))
                    if c.maxlen is not None:
                        n = tm.fn("min", n, c.maxlen)
                    return I.norm(n)
                n = len(c.items)
                if c.maxlen is not None and not isinstance(c.maxlen, int):
                    return I.norm(tm.fn("min", n, c.maxlen))
                return n
            if v.kind == "dict":
                if c.rest is not None:
                    raise Undecided("length of a partly known dict")
                return len(c.items)
            if v.kind == "set":
                return len(c.items)
            if v.kind == "arr":
                if len(c.data.shape) == 0:
                    I.raise_("TypeError", "len() of unsized object")
                return I.norm(c.data.shape[0]) if isinstance(c.data.shape[0], T) else c.data.shape[0]
            if v.kind == "inst":
                m = I.class_attr(c.cls, "__len__")
                if m is not UNBOUND:
                    return I.call(m, [v], {})
        if isinstance(v, RangeV):
            d = tm.sub(v.stop, v.start)
            if isinstance(v.step, int) and v.step != 0:
                if v.step > 0:
                    return I.norm(tm.fn("max", 0, tm.floordiv(tm.add(d, v.step - 1), v.step)))
                return I.norm(tm.fn("max", 0, tm.floordiv(tm.add(tm.neg(d), -v.step - 1), -v.step)))
            return I.norm(tm.fn("max", 0, tm.floordiv(tm.add(d, tm.sub(v.step, 1)), v.step)))
        if isinstance(v, TNode):
            if not v.shape:
                I.raise_("TypeError", "len of a scalar tensor")
            return v.shape[0]
        if isinstance(v, Opq) and "__len__" in v.methods:
            return v.methods["__len__"](I, [], {})
        if isinstance(v, Opq) and "__len__" in v.attrs:
            return v.attrs["__len__"]
        if isinstance(v, Class) and v.is_enum:
            return len(v.members)
        if isinstance(v, (T, Opq)) and not (isinstance(v, T) and v.sort != "obj"):
            raise Undecided("length of %r" % (v,))
        I.raise_("TypeError", "object of type %s has no len()" % self.typename(v))

    # ------------------------------------------------------------ iteration

    def iterate(self, v):
        """list | GenIter | GenV | PullIter."""
        I = self.I
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Ref):
            c = I.get(v)
            if v.kind in ("list", "deque"):
                if isinstance(c.items, SymSeq):
                    s = c.items
                    if s.tail:
                        raise Undecided("iterating over a growing symbolic sequence")
                    return GenIter(self.length(v), s.elem)
                return list(c.items)
            if v.kind == "dict":
                if c.rest is not None:
                    raise Undecided("iterating over a partly known dict")
                return [k for k, _ in c.items]
            if v.kind == "set":
                return list(c.items)
            if v.kind == "iter":
                I.put(v, IterC(()))
                return list(c.items)
            if v.kind == "arr":
                return self.arr_rows(v)
            if v.kind == "inst":
                m = I.class_attr(c.cls, "__iter__")
                if m is not UNBOUND:
                    r = I.call(m, [v], {})
                    if r == v:
                        return self.pull_next(v)
                    return self.iterate(r) if not isinstance(r, GenV) else r
                if I.class_attr(c.cls, "__getitem__") is not UNBOUND and \
                        I.class_attr(c.cls, "__len__") is not UNBOUND:
                    n = self.length(v)
                    if isinstance(n, int):
                        return [self.getitem(v, j) for j in range(n)]
        if isinstance(v, RangeV):
            n = self.length(v)
            if isinstance(n, int):
                return [I.norm(tm.add(v.start, tm.mul(v.step, j))) if not (isinstance(v.start, int) and isinstance(v.step, int))
                        else v.start + v.step * j for j in range(n)]
            return GenIter(n, lambda i: I.norm(tm.add(v.start, tm.mul(v.step, i))))
        if isinstance(v, GenV):
            if v.done is not None:
                return self.iterate(v.done)
            return v
        if isinstance(v, GenIter):
            return v
        if isinstance(v, Lazy):
            return self.lazy(v)
        if isinstance(v, TNode):
            if not v.shape:
                I.raise_("TypeError", "iterating over a scalar tensor")
            return [self.tf_getitem(v, j) for j in range(v.shape[0])]
        if isinstance(v, Class) and v.is_enum:
            out = []
            for m in v.members.values():
                if m not in out:
                    out.append(m)
            return out
        if isinstance(v, Opq):
            if v.iter_ is not None:
                return v.iter_(I) if callable(v.iter_) else v.iter_
            if "__iter__" in v.methods:
                it = v.methods["__iter__"](I, [], {})
                if it is not v:
                    return self.iterate(it)
            if "__next__" in v.methods:
                return self.pull_next(v)
        if isinstance(v, T) and v.sort == "obj" or isinstance(v, Opq):
            raise Undecided("iterating over %r at %s" % (v, I.site))
        I.raise_("TypeError", "%s is not iterable" % self.typename(v))

    PULLED = 400            # items of an endless iterator that are looked at

    def pull_next(self, v):
        def gen():
            k = 0
            while True:
                try:
                    x = self.next_(v)
                except Stop:
                    return
                yield x
                k += 1
                if k > self.PULLED:
                    raise Undecided("unbounded iteration at %s" % self.I.site)
        return PullIter(gen())

    def pull(self, it):
        """Python iterator over the values of any finite or lazily pulled iterable."""
        if isinstance(it, list):
            for x in it:
                yield x
        elif isinstance(it, PullIter):
            for x in it:
                yield x
        elif isinstance(it, GenV):
            while True:
                try:
                    x = self.next_(it)
                except Stop:
                    return
                yield x
        elif isinstance(it, GenIter):
            n = 0
            while it.count is None or isinstance(it.count, int) and n < it.count:
                yield it.elem(n)
                n += 1
                if n > self.PULLED:
                    raise Undecided("unbounded iteration")
        else:
            raise Undecided("pull")

    def count_of(self, r):
        """Number of elements: int, term, or None (infinite / unknown pulled)."""
        if isinstance(r, list):
            return len(r)
        if isinstance(r, GenIter):
            return r.count
        return "pull"

    def elem_of(self, r):
        if isinstance(r, list):
            def f(i):
                if isinstance(i, int):
                    return r[i]
                return self.select_item(r, i)
            return f
        return r.elem

    def lazy(self, v):
        I, k, a = self.I, v.kind, v.args
        if k == "gen":
            return a[0]
        if k == "pull":
            return a[0]
        if k == "count":
            return GenIter(None, lambda i: I.norm(tm.add(a[0], tm.mul(a[1], i))))
        if k == "repeat":
            if len(a) > 1 and a[1] is not None:
                if isinstance(a[1], int):
                    return [a[0]] * a[1]
                return GenIter(a[1], lambda i: a[0])
            return GenIter(None, lambda i: a[0])
        if k == "islice":
            src, start, stop, step = a
            r = self.iterate(src)
            n = self.count_of(r)
            start = 0 if start is None else start
            step = 1 if step is None else step
            conc = all(x is None or isinstance(x, int) for x in (start, stop, step))
            if isinstance(r, list) and conc:
                return r[slice(start, stop, step)]
            if n == "pull" or conc and stop is not None and isinstance(r, GenIter) and \
                    (n is None or isinstance(n, int)):
                if not conc:
                    raise Undecided("symbolic slice of a pulled iterator at %s" % I.site)

                def gen():
                    j = 0
                    want = start
                    for x in self.pull(r):
                        if stop is not None and j >= stop:
                            return
                        if j == want:
                            yield x
                            want += step
                        j += 1
                        if stop is not None and (j >= stop or want >= stop and False):
                            return
                return PullIter(gen())
            elem = self.elem_of(r)
            if stop is None:
                if n is None:
                    cnt = None
                else:
                    cnt = self.length(RangeV(start, n, step))
            else:
                end = stop if n is None else tm.fn("min", stop, n)
                cnt = self.length(RangeV(start, I.norm(end) if isinstance(end, T) else end, step))
            return GenIter(cnt, lambda i: elem(I.norm(tm.add(start, tm.mul(step, i)))))
        if k == "enumerate":
            src, start = a
            r = self.iterate(src)
            if isinstance(r, list):
                return [(I.norm(tm.add(start, j)) if not isinstance(start, int) else start + j, x)
                        for j, x in enumerate(r)]
            if isinstance(r, GenIter):
                return GenIter(r.count, lambda i: (I.norm(tm.add(start, i)), r.elem(i)))
            return PullIter(((start + j, x) for j, x in enumerate(self.pull(r))))
        if k == "zip":
            rs = [self.iterate(x) for x in a]
            if all(isinstance(r, list) for r in rs):
                return [tuple(t) for t in zip(*rs)]
            if any(isinstance(r, list) for r in rs):
                n = min(len(r) for r in rs if isinstance(r, list))

                def gen():
                    its = [self.pull(r) for r in rs]
                    for _ in range(n):
                        row = []
                        for it in its:
                            try:
                                row.append(next(it))
                            except StopIteration:
                                return
                        yield tuple(row)
                return PullIter(gen())
            if all(isinstance(r, GenIter) for r in rs):
                cnt = None
                for r in rs:
                    if r.count is not None:
                        cnt = r.count if cnt is None else I.norm(tm.fn("min", cnt, r.count))
                return GenIter(cnt, lambda i: tuple(r.elem(i) for r in rs))

            def gen2():
                its = [self.pull(r) for r in rs]
                while True:
                    row = []
                    for it in its:
                        try:
                            row.append(next(it))
                        except StopIteration:
                            return
                    yield tuple(row)
            return PullIter(gen2())
        if k == "map":
            f, srcs = a[0], a[1:]
            r = self.lazy(Lazy("zip", srcs)) if len(srcs) > 1 else self.iterate(srcs[0])
            ap = (lambda x: I.call(f, list(x), {})) if len(srcs) > 1 else (lambda x: I.call(f, [x], {}))
            if isinstance(r, list):
                return PullIter((ap(x) for x in r))
            if isinstance(r, GenIter):
                return GenIter(r.count, lambda i: ap(r.elem(i)))
            return PullIter((ap(x) for x in self.pull(r)))
        if k == "filter":
            f, src = a
            r = self.iterate(src)

            def gen3():
                for x in self.pull(r):
                    t = I.truth(x if f is None else I.call(f, [x], {}))
                    if isinstance(t, T):
                        raise Undecided("filter on an unknown condition")
                    if t:
                        yield x
            return PullIter(gen3())
        if k == "takewhile":
            f, src = a
            r = self.iterate(src)

            def gen4():
                for x in self.pull(r):
                    t = I.truth(I.call(f, [x], {}))
                    if isinstance(t, T):
                        raise Undecided("takewhile on an unknown condition")
                    if not t:
                        return
                    yield x
            return PullIter(gen4())
        if k == "chain":
            rs = [self.iterate(x) for x in a]
            if all(isinstance(r, list) for r in rs):
                return [x for r in rs for x in r]
            return PullIter((x for r in rs for x in self.pull(r)))
        if k == "cycle":
            r = self.iterate(a[0])
            if isinstance(r, list):
                return GenIter(None, lambda i: r[i % len(r)] if isinstance(i, int)
                               else self.select_item(r, tm.mod(i, len(r))))
        raise Undecided("iterator %s" % k)

    GEN_ITEMS = 4

    def next_(self, v):
        """Next item; raises Stop at the end."""
        I = self.I
        if isinstance(v, Phi):
            return I.over(v, self.next_)
        if isinstance(v, Ref):
            if v.kind == "iter":
                c = I.get(v)
                if not c.items:
                    raise Stop()
                I.put(v, IterC(c.items[1:]))
                return c.items[0]
            if v.kind == "inst":
                m = I.class_attr(I.get(v).cls, "__next__")
                if m is UNBOUND:
                    I.raise_("TypeError", "not an iterator")
                from .interp import PyRaise
                try:
                    return I.call(m, [v], {})
                except PyRaise as e:
                    if isinstance(e.exc, ExcVal) and e.exc.name() == "StopIteration":
                        raise Stop()
                    raise
        if isinstance(v, GenV):
            if v.item is not None:
                x, v.item = v.item, None
                return x
            if v.pulled:
                raise Undecided("a generator advanced by a loop and used again")
            if v.done is None:
                self.materialise(v)
            c = I.get(v.done)
            if not c.items:
                if getattr(v, "exhausted", True):
                    raise Stop()
                raise Undecided("more than %d items of a generator" % self.GEN_ITEMS)
            I.put(v.done, IterC(c.items[1:]))
            return c.items[0]
        if isinstance(v, Opq) and "__next__" in v.methods:
            r = v.methods["__next__"](I, [], {})
            if r is Stop:
                raise Stop()
            return r
        if isinstance(v, Lazy):
            it = getattr(v, "running", None)
            if it is None:
                r = self.lazy(v)
                if isinstance(r, list):
                    it = iter(r)
                else:
                    it = self.pull(r)
                v.running = it
            try:
                return next(it)
            except StopIteration:
                raise Stop()
        if isinstance(v, Opq) or isinstance(v, T):
            raise Undecided("next of %r" % (v,))
        I.raise_("TypeError", "%s is not an iterator" % self.typename(v))

    def materialise(self, gen):
        """First items of a generator, computed ahead of their use."""
        from .interp import StopGen
        I = self.I
        items = []
        gen.exhausted = True

        def cb(x):
            items.append(x)
            if len(items) >= self.GEN_ITEMS:
                raise StopGen(gen, None)
        frames, loops, depth = list(I.frames), list(I.loops), I.depth
        pc = I.pc
        try:
            I.run_generator(gen, cb)
        except StopGen as e:
            if e.gen is not gen:
                raise
            gen.exhausted = False
            I.frames, I.depth = frames, depth
            I.loops[:] = loops
            if len(I.pc) != len(pc):
                pass
        gen.done = I.alloc(IterC(items), "iter")

    # ------------------------------------------------------------ with

    def enter(self, v):
        I = self.I
        g = I.graph
        if isinstance(v, Opq):
            if v.typ == "ctrl":
                g.ctrl.append(v.attrs["nodes"])
                self.stack.append(("ctrl", None))
                return v
            if v.typ in ("session", "interactive_session", "session_default"):
                closing = v if v.typ != "session_default" else None
                v = v.attrs.get("session", v)
                self.stack.append(("session", self.default_session))
                self.default_session = v
                I.event("enter_session", session=v)
                gr = v.attrs.get("graph")
                self.stack[-1] = ("session", (self.stack[-1][1], self.graph_stack[:], closing))
                if gr is not None:
                    self.graph_stack.append(gr)
                return v
            if v.typ == "graph":
                self.stack.append(("graph", self.graph_stack[:]))
                self.graph_stack.append(v)
                return v
            if v.typ == "scope":
                sn = v.attrs.get("scope_name")
                self.stack.append(("scope", sn))
                if sn:
                    self.name_stack.append(sn)
                return v.attrs.get("value", v)
            if "__enter__" in v.methods:
                self.stack.append(("opq", v))
                return v.methods["__enter__"](I, [], {})
        if isinstance(v, Ref) and v.kind == "inst":
            c = I.get(v)
            m = I.class_attr(c.cls, "__enter__")
            if m is not UNBOUND:
                self.stack.append(("inst", v))
                return I.call(m, [v], {})
        if isinstance(v, Lazy) and v.kind == "suppress":
            raise Undecided("suppress")
        if v is None or isinstance(v, (bool, int, float, str, tuple, T, TNode)) or isinstance(v, Ref) and v.kind in (
                "list", "dict", "set", "deque", "arr"):
            I.raise_("TypeError", "object does not support the context manager protocol")
        raise Undecided("with statement over %r at %s" % (v, I.site))

    def exit_(self):
        kind, old = self.stack.pop()
        if kind == "ctrl":
            self.I.graph.ctrl.pop()
        elif kind == "session":
            self.default_session, self.graph_stack = old[0], old[1]
            if old[2] is not None:
                self.close_session(old[2])
        elif kind == "scope":
            if old:
                self.name_stack.pop()
        elif kind == "graph":
            self.graph_stack = old
        elif kind == "opq":
            if "__exit__" in old.methods:
                old.methods["__exit__"](self.I, [None, None, None], {})
        elif kind == "inst":
            m = self.I.class_attr(self.I.get(old).cls, "__exit__")
            self.I.call(m, [old, None, None, None], {})

    # ------------------------------------------------------------ calls

    def call(self, f, args, kw, node=None):
        I = self.I
        for i, a in enumerate(args):
            if isinstance(a, Phi) and self.split_arg(f, i):
                def with_(x, i=i):
                    return lambda: self.call(f, args[:i] + [x] + args[i + 1:], kw, node)
                return I.branch(a.cond, with_(a.a), with_(a.b))
        for k, a in kw.items():
            if isinstance(a, Phi) and self.split_arg(f, k):
                def withk(x, k=k):
                    d = dict(kw)
                    d[k] = x
                    return lambda: self.call(f, args, d, node)
                return I.branch(a.cond, withk(a.a), withk(a.b))
        return I.guard_op(lambda: self.call1(f, args, kw, node))

    def split_arg(self, f, i):
        if isinstance(f, BuiltinM):
            return f.name not in ("append", "setdefault", "update", "add", "insert")
        return True

    def call1(self, f, args, kw, node):
        I = self.I
        if isinstance(f, BuiltinM):
            return self.call_method(f.obj, f.name, args, kw)
        if isinstance(f, Lib):
            return self.call_lib(f.name, args, kw)
        if isinstance(f, DType):
            if len(args) == 1:
                return args[0]
        if isinstance(f, Opq):
            if f.call is not None:
                return f.call(I, args, kw)
            if isinstance(f.typ, Class):
                m = I.class_attr(f.typ, "__call__")
                if m is not UNBOUND:
                    return I.call(m, [f] + args, kw)
            raise Undecided("call of %s at %s" % (f.name, I.site))
        if isinstance(f, Ref) and f.kind == "inst":
            m = I.class_attr(I.get(f).cls, "__call__")
            if m is not UNBOUND:
                return I.call(m, [f] + args, kw)
        if isinstance(f, (T,)) and f.sort == "obj":
            raise Undecided("call of %s at %s" % (tm.show(f), I.site))
        if isinstance(f, ClassM):
            return I.call(f.fn, args, kw)
        I.raise_("TypeError", "%s object is not callable" % self.typename(f))

    def logger(self, name):
        own = isinstance(name, str) and name.split(".")[0] == "pysgmcmc"

        def quiet(I, a, k):
            I.lib.shown(tuple(a))

        def loud(what):
            def f(I, a, k):
                if not own:
                    I.event("global_effect", what="logging.getLogger(%r).%s" % (name, what))
            return f
        m = {n: quiet for n in ("info", "debug", "warning", "warn", "error", "critical", "exception", "log")}
        m["isEnabledFor"] = lambda I, a, k: I.fresh("enabled", "bool")
        m["getEffectiveLevel"] = lambda I, a, k: I.fresh("level", "int")
        m["hasHandlers"] = m["isEnabledFor"]
        m["getChild"] = lambda I, a, k: self.logger("%s.%s" % (name or "root", a[0]) if own else None)
        for n in ("setLevel", "addHandler", "removeHandler", "addFilter", "removeFilter"):
            m[n] = loud(n)
        return Opq("logger", "logger", attrs={"name": name or "root", "handlers": self.I.list_([]), "level": 0}, methods=m)

    def call_lib(self, name, args, kw):
        I = self.I
        if name in GLOBAL_EFFECTS:
            I.event("global_effect", what=name)
        short = name.replace(".", "_")
        m = getattr(self, "f_" + short, None)
        if m is not None:
            return m(args, kw)
        top = name.split(".")[0]
        if top in NOOP_MODULES:
            if name in ("time.time", "time.perf_counter", "time.monotonic", "time.process_time", "time.clock"):
                return I.fresh("time", kind="nonneg")
            if name == "time.sleep":
                I.event("sleep", args=args)
                return None
            if name.startswith("logging.getLogger") or name == "tqdm.tqdm" or name == "tqdm.trange":
                if name == "tqdm.tqdm":
                    return args[0] if args else kw.get("iterable")
                return self.logger(args[0] if args else kw.get("name"))
            if top == "logging":
                self.shown(tuple(args))
            return None
        if top == "numpy" or top == "scipy":
            return self.call_np(name, args, kw)
        if top == "tensorflow":
            return self.call_tf(name, args, kw)
        if top == "math":
            return self.call_math(name[5:], args)
        if top == "builtins":
            n = name[9:]
            t = getattr(builtins, n, None)
            if isinstance(t, type) and issubclass(t, BaseException):
                return ExcVal(Lib(n), args)
            if n.endswith("__init__"):
                return None
        hook = getattr(self, "unknown_call", None)
        if hook is not None:
            r = hook(name, args, kw)
            if r is not UNBOUND:
                return r
        raise Undecided("library function %s at %s" % (name, I.site))

    def call_math(self, n, args):
        n = n.lstrip(".")
        I = self.I
        if n in ("sqrt", "log", "exp", "sin", "cos", "tan", "tanh", "floor", "ceil", "trunc", "log1p", "expm1"):
            if n == "log" and len(args) == 2:
                return tm.div(tm.fn("log", args[0]), tm.fn("log", args[1]))
            r = tm.fn(n, tm.term(self.scalar(args[0])))
            if n in ("floor", "ceil", "trunc"):
                c = self.concrete(r)
                if c is not None:
                    return c
            return I.norm(r)
        if n == "fabs":
            return tm.fn("abs", args[0])
        if n == "pow":
            return tm.power(args[0], args[1])
        if n in ("isnan", "isinf", "isfinite"):
            return n == "isfinite"
        if n == "log2":
            return tm.div(tm.fn("log", args[0]), tm.fn("log", 2))
        if n == "log10":
            return tm.div(tm.fn("log", args[0]), tm.fn("log", 10))
        if n == "isqrt":
            return tm.fn("floor", tm.fn("sqrt", args[0]))
        if n == "prod":
            out = tm.const(1)
            for x in I.items_of(args[0]):
                out = tm.mul(out, x)
            return I.norm(out)
        if n == "fsum":
            return self.f_builtins_sum(args, {})
        if n == "hypot":
            return tm.fn("sqrt", tm.add(tm.mul(args[0], args[0]), tm.mul(args[1], args[1])))
        if n == "comb" and all(isinstance(a, int) for a in args):
            import math
            return math.comb(*args)
        raise Undecided("math." + n)

    # ---- builtins

    def f_builtins_len(self, a, k):
        return self.length(a[0])

    def f_builtins_isinstance(self, a, k):
        r = self.isinstance_(a[0], a[1])
        return self.I.norm(r) if isinstance(r, T) else r

    def f_builtins_issubclass(self, a, k):
        cs = a[1] if isinstance(a[1], tuple) else (a[1],)
        if isinstance(a[0], Class):
            return any(c in a[0].mro() for c in cs)
        return any(a[0] is c for c in cs)

    def f_builtins_hasattr(self, a, k):
        if not isinstance(a[1], (str, Phi, T)):
            self.I.raise_("TypeError", "attribute name must be string")
        return self.hasattr_(a[0], a[1])

    def f_builtins_getattr(self, a, k):
        if len(a) > 2:
            h = self.hasattr_(a[0], a[1])
            if isinstance(h, bool):
                return self.I.getattr(a[0], a[1]) if h else a[2]
            return self.I.branch(h, lambda: self.I.getattr(a[0], a[1]), lambda: a[2])
        return self.I.getattr(a[0], a[1])

    def f_builtins_setattr(self, a, k):
        return self.I.setattr(a[0], a[1], a[2])

    def f_builtins_delattr(self, a, k):
        raise Undecided("delattr")

    def f_builtins_callable(self, a, k):
        v = a[0]
        if isinstance(v, (Func, Bound, Class, Native, Lib, BuiltinM, StaticM)):
            return True
        if isinstance(v, Opq):
            return v.call is not None
        if isinstance(v, Ref) and v.kind == "inst":
            return self.I.class_attr(self.I.get(v).cls, "__call__") is not UNBOUND
        return False

    def f_builtins_range(self, a, k):
        a = [self.index(x) for x in a]
        if len(a) == 1:
            return RangeV(0, a[0], 1)
        if len(a) == 2:
            return RangeV(a[0], a[1], 1)
        return RangeV(a[0], a[1], a[2])

    def index(self, v):
        if isinstance(v, int):
            return int(v)
        if isinstance(v, T):
            n = self.I.norm(v)
            if isinstance(n, int):
                return n
            if v.sort == "int":
                c = self.concrete(v)
                return v if c is None else c
            self.I.raise_("TypeError", "float object cannot be interpreted as an integer")
        if v is None or isinstance(v, (float, str)):
            self.I.raise_("TypeError", "not an integer")
        return self.intval(v)

    def f_builtins_print(self, a, k):
        return None

    def f_builtins_iter(self, a, k):
        return self.make_iter(a[0])

    def f_builtins_next(self, a, k):
        try:
            return self.next_(a[0])
        except Stop:
            if len(a) > 1:
                return a[1]
            self.I.raise_("StopIteration")

    def f_builtins_enumerate(self, a, k):
        return Lazy("enumerate", (a[0], a[1] if len(a) > 1 else k.get("start", 0)))

    def f_builtins_zip(self, a, k):
        return Lazy("zip", tuple(a))

    def f_builtins_map(self, a, k):
        return Lazy("map", tuple(a))

    def select_if(self, items, keep):
        """The items for which keep() is true, as an iterator; the conditions may be unknown."""
        I = self.I
        out = I.list_([])
        for x in items:
            I.cond_exec(keep(x), lambda: self.list_append(out, x, quiet=True), lambda: None)
        return self.make_iter(out)

    def f_builtins_filter(self, a, k):
        f, src = a
        if isinstance(src, tuple) or isinstance(src, Ref) and src.kind == "list" and not isinstance(self.I.get(src).items, SymSeq):
            return self.select_if(self.I.items_of(src), lambda x: x if f is None else self.I.call(f, [x], {}))
        return Lazy("filter", (f, src))

    def f_itertools_filterfalse(self, a, k):
        f = a[0]
        return self.select_if(self.I.items_of(a[1]), lambda x: self.f_operator_not_([x if f is None else self.I.call(f, [x], {})], {}))

    def f_itertools_compress(self, a, k):
        p = P(a, k, "data selectors")
        rows = list(zip(self.I.items_of(p.data), self.I.items_of(p.selectors)))
        flags = dict((n, row[1]) for n, row in enumerate(rows))
        out = self.I.list_([])
        for n, (x, _) in enumerate(rows):
            self.I.cond_exec(flags[n], lambda: self.list_append(out, x, quiet=True), lambda: None)
        return self.make_iter(out)

    def f_itertools_dropwhile(self, a, k):
        items = list(self.I.items_of(a[1]))
        while items:
            t = self.I.truth(self.I.call(a[0], [items[0]], {}))
            if isinstance(t, T):
                raise Undecided("dropwhile on an unknown condition")
            if not t:
                break
            items.pop(0)
        return self.I.alloc(IterC(items), "iter")

    def f_itertools_pairwise(self, a, k):
        items = list(self.I.items_of(a[0]))
        return self.I.alloc(IterC(list(zip(items, items[1:]))), "iter")

    def f_operator_not_(self, a, k):
        t = self.I.truth(a[0])
        return tm.not_(t) if isinstance(t, T) else not t

    def f_operator_contains(self, a, k):
        return self.I.compare("In", a[1], a[0])

    def f_operator_getitem(self, a, k):
        return self.I.getitem(a[0], a[1])

    def f_operator_methodcaller(self, a, k):
        rest = list(a[1:])
        return Native("methodcaller", lambda I, b, kk: I.call(I.getattr(b[0], a[0]), list(rest), dict(k)))

    def f_builtins_reversed(self, a, k):
        return self.I.alloc(IterC(list(reversed(self.I.items_of(a[0])))), "iter")

    def f_builtins_sorted(self, a, k):
        items = list(self.I.items_of(a[0]))
        key = k.get("key")
        keys = [self.I.call(key, [x], {}) if key is not None else x for x in items]
        if not all(isinstance(x, (int, float, str)) or isinstance(x, tuple) and
                   all(isinstance(y, (int, float, str)) for y in x) for x in keys):
            raise Undecided("sorting unknown values")
        order = sorted(range(len(items)), key=lambda i: keys[i], reverse=bool(k.get("reverse", False)))
        return self.I.list_([items[i] for i in order])

    def seq_of(self, v):
        """('list', items) or ('sym', GenIter)."""
        if isinstance(v, GenV):
            out = self.I.list_([])
            self.I.loop_over(v, lambda x: self.list_append(out, x, quiet=True), None)
            v = out
        r = self.iterate(v)
        if isinstance(r, list):
            return r
        if isinstance(r, PullIter):
            return list(r)
        if isinstance(r, GenIter) and isinstance(r.count, int) and r.count <= 64:
            return [r.elem(i) for i in range(r.count)]
        return r

    def f_builtins_list(self, a, k):
        if not a:
            return self.I.list_([])
        r = self.seq_of(a[0])
        if isinstance(r, GenIter):
            if r.count is None:
                raise Undecided("list of an infinite iterator")
            return self.I.list_(SymSeq(r.count, r.elem))
        return self.I.list_(r)

    def f_builtins_tuple(self, a, k):
        if not a:
            return ()
        r = self.seq_of(a[0])
        if isinstance(r, GenIter):
            raise Undecided("tuple of symbolic length")
        return tuple(r)

    def f_builtins_set(self, a, k):
        return self.make_set(self.seq_of(a[0]) if a else [])

    f_builtins_frozenset = f_builtins_set

    def f_builtins_dict(self, a, k):
        d = self.I.dict_()
        if a:
            self.call_method(d, "update", [a[0]], {})
        for kk, v in k.items():
            self.setitem(d, kk, v)
        return d

    f_collections_OrderedDict = f_builtins_dict

    def f_builtins_dict_fromkeys(self, a, k):
        v = a[1] if len(a) > 1 else None
        return self.f_builtins_dict([self.I.list_([(x, v) for x in self.I.items_of(a[0])])], {})

    f_collections_OrderedDict_fromkeys = f_builtins_dict_fromkeys

    def f_collections_defaultdict(self, a, k):
        d = self.f_builtins_dict(a[1:], k)
        c = self.I.get(d)
        self.I.put(d, DictC(c.items, c.rest, a[0] if a else None))
        return d

    def f_collections_deque(self, a, k):
        p = P(a, k, "iterable=None maxlen=None")
        ref = self.I.list_([], "deque", p.maxlen)
        if p.iterable is not None and p.iterable != ():
            self.list_extend(ref, p.iterable)
        return ref

    def f_collections_namedtuple(self, a, k):
        raise Undecided("namedtuple")

    def f_collections_Counter(self, a, k):
        raise Undecided("Counter")

    def f_builtins_str(self, a, k):
        return self.text(a[0]) if a else ""

    f_builtins_repr = f_builtins_str

    def f_builtins_format(self, a, k):
        return self.text(a[0])

    def f_builtins_int(self, a, k):
        if not a:
            return 0
        v = a[0]
        if isinstance(v, (bool, int)):
            return int(v)
        if isinstance(v, float):
            return int(v)
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                self.I.raise_("ValueError", "int")
        if self.is_arr(v):
            v = self.scalar(v)
        if isinstance(v, T):
            if v.sort == "bool":
                return tm.ite(v, tm.const(1), tm.const(0))
            n = self.I.norm(v)
            if isinstance(n, int):
                return n
            if tm.is_num(v):
                return int(tm.num(v))
            c = tm.fn("trunc", v) if v.sort != "int" else v
            x = self.concrete(c)
            return x if x is not None else c
        if isinstance(v, Opq):
            return tm.uf("int", tm.term(v), sort="int")
        if isinstance(v, TNode):
            self.I.raise_("TypeError", "int() of a tensor")
        if v is None:
            self.I.raise_("TypeError", "int() of None")
        raise Undecided("int of %r" % (v,))

    def f_builtins_float(self, a, k):
        if not a:
            return 0.0
        v = a[0]
        if isinstance(v, str):
            try:
                return float(v)
            except ValueError:
                self.I.raise_("ValueError", "float")
        if isinstance(v, (int, float)):
            return float(v)
        if self.is_arr(v):
            v = self.scalar(v)
        if isinstance(v, T):
            if v.op == "const" and v.args[0] == "num":
                return tm._mk("const", v.args, "real")
            return v
        if isinstance(v, Opq):
            return tm.uf("float", tm.term(v))
        if v is None:
            self.I.raise_("TypeError", "float() of None")
        if isinstance(v, TNode):
            self.I.raise_("TypeError", "float() of a tensor")
        raise Undecided("float of %r" % (v,))

    def f_builtins_bool(self, a, k):
        return self.I.truth(a[0]) if a else False

    def f_builtins_abs(self, a, k):
        v = a[0]
        if isinstance(v, (int, float)):
            return abs(v)
        if isinstance(v, TNode):
            return self.call_tf("tensorflow.abs", [v], {})
        if self.is_arr(v):
            return self.call_np("numpy.abs", [v], {})
        return tm.fn("abs", v)

    def f_builtins_sum(self, a, k):
        start = a[1] if len(a) > 1 else k.get("start", 0)
        r = self.seq_of(a[0])
        if isinstance(r, GenIter):
            raise Undecided("sum of symbolic length")
        out = start
        for x in r:
            out = self.I.binop("Add", out, x)
        return out

    def minmax(self, which, a, k):
        I = self.I
        items = a if len(a) > 1 else self.seq_of(a[0])
        if isinstance(items, GenIter):
            raise Undecided("min/max of symbolic length")
        items = list(items)
        if not items:
            if "default" in k:
                return k["default"]
            I.raise_("ValueError", "empty sequence")
        if "key" in k:
            best = items[0]
            kb = I.call(k["key"], [best], {})
            for x in items[1:]:
                kx = I.call(k["key"], [x], {})
                c = I.compare("Lt" if which == "min" else "Gt", kx, kb)
                t = I.truth(c)
                if isinstance(t, bool):
                    if t:
                        best, kb = x, kx
                else:
                    best, kb = I.phi(t, x, best), I.phi(t, kx, kb)
            return best
        if all(isinstance(x, NUM) for x in items):
            if all(isinstance(x, (int, float)) for x in items):
                return (min if which == "min" else max)(items)
            return I.norm(tm.fn(which, *items))
        if any(x is None for x in items):
            I.raise_("TypeError", "None in min/max")
        items = [self.scalar(x) if self.is_arr(x) else x for x in items]
        if any(isinstance(x, TNode) for x in items):
            I.raise_("TypeError", "using a tensor as a Python bool")
        return I.norm(tm.fn(which, *items))

    def f_builtins_min(self, a, k):
        return self.minmax("min", a, k)

    def f_builtins_max(self, a, k):
        return self.minmax("max", a, k)

    def quant(self, v, stop):
        I = self.I
        r = self.seq_of(v)
        if isinstance(r, GenIter):
            e = r.elem(tm.sym("any#", "int", 0))
            t = I.truth(e)
            if isinstance(t, bool):
                return t if not stop else t
            raise Undecided("quantifier over a symbolic sequence")
        out = []
        for x in r:
            t = I.truth(x)
            if t is stop:
                return stop
            if isinstance(t, T):
                out.append(t)
        if not out:
            return not stop
        return I.norm((tm.or_ if stop else tm.and_)(*out))

    def f_builtins_all(self, a, k):
        return self.quant(a[0], False)

    def f_builtins_any(self, a, k):
        return self.quant(a[0], True)

    def f_builtins_round(self, a, k):
        v, nd = a[0], a[1] if len(a) > 1 else k.get("ndigits")
        if isinstance(v, (int, float)):
            return round(v, *a[1:])
        f = lambda x: tm.fn("floor", tm.add(x, tm.div(1, 2)))
        if nd is not None and isinstance(nd, int) and nd:
            q = 10 ** abs(nd)
            return tm.div(f(tm.mul(v, q)), q) if nd > 0 else tm.mul(f(tm.div(v, q)), q)
        return f(v)

    def f_builtins_divmod(self, a, k):
        return (self.I.binop("FloorDiv", a[0], a[1]), self.I.binop("Mod", a[0], a[1]))

    def f_builtins_pow(self, a, k):
        return self.I.binop("Pow", a[0], a[1])

    def f_builtins_slice(self, a, k):
        a = list(a)
        if len(a) == 1:
            return Slice(None, a[0], None)
        return Slice(a[0], a[1], a[2] if len(a) > 2 else None)

    def f_builtins_id(self, a, k):
        v = a[0]
        return tm.uf("id", v.as_term() if hasattr(v, "as_term") else self.text(v), sort="int")

    def f_builtins_hash(self, a, k):
        return self.f_builtins_id(a, k)

    def f_builtins_type(self, a, k):
        v = a[0]
        if isinstance(v, Ref) and v.kind == "inst":
            return self.I.get(v).cls
        if isinstance(v, Opq) and isinstance(v.typ, Class):
            return v.typ
        t = self.types_of(v)
        if t:
            return Lib(t[0])
        raise Undecided("type of %r" % (v,))

    def f_builtins_property(self, a, k):
        return Prop(a[0] if a else k.get("fget"), a[1] if len(a) > 1 else k.get("fset"))

    def f_builtins_staticmethod(self, a, k):
        return StaticM(a[0])

    def f_builtins_classmethod(self, a, k):
        return ClassM(a[0])

    def f_builtins_vars(self, a, k):
        return self.getattr(a[0], "__dict__")

    def f_builtins_dir(self, a, k):
        raise Undecided("dir")

    def f_builtins_super(self, a, k):
        raise Undecided("super")

    def f_builtins_object(self, a, k):
        return Opq("object#%d" % self.I.next_oid)

    def f_builtins_globals(self, a, k):
        self.I.event("global_effect", what="globals()")
        raise Undecided("globals()")

    # ---- abc, enum, functools, itertools, inspect, copy

    def _same(self, a, k):
        return a[0]

    f_abc_abstractmethod = f_abc_abstractproperty = _same
    f_typing_cast = lambda self, a, k: a[1]
    f_functools_lru_cache = lambda self, a, k: a[0] if a and isinstance(a[0], Func) else \
        Native("lru_cache", lambda I, b, kk: b[0])
    f_functools_cache = _same

    def f_functools_wraps(self, a, k):
        src = a[0]

        def deco(I, b, kk):
            if isinstance(b[0], Func):
                if isinstance(src, (Func, Native, Bound)):
                    try:
                        b[0].attrs["__name__"] = self.getattr(src, "__name__")
                    except Exception:
                        pass
                b[0].attrs["__wrapped__"] = src
            return b[0]
        return Native("wraps", deco)

    def f_functools_update_wrapper(self, a, k):
        return a[0]

    def f_functools_partial(self, a, k):
        f, pre, prek = a[0], list(a[1:]), dict(k)

        def call(I, b, kk):
            d = dict(prek)
            d.update(kk)
            return I.call(f, pre + list(b), d)
        n = Native("partial", call)
        return n

    def f_functools_reduce(self, a, k):
        items = list(self.seq_of(a[1]))
        if len(a) > 2:
            acc = a[2]
        else:
            if not items:
                self.I.raise_("TypeError", "reduce of empty sequence")
            acc = items.pop(0)
        for x in items:
            acc = self.I.call(a[0], [acc, x], {})
        return acc

    def f_itertools_islice(self, a, k):
        if len(a) > 1 and (a[0] is None or isinstance(a[0], (int, float)) or isinstance(a[0], T) and a[0].sort != "obj"):
            self.I.raise_("TypeError", "%s is not iterable" % self.typename(a[0]))
        for x in a[1:]:
            if x is not None and not self.isint(x) and not (isinstance(x, T) and x.sort == "int"):
                self.I.raise_("ValueError", "indices of islice() must be None or an integer")
        src, rest = a[0], [x if x is None else self.index(x) for x in a[1:]]
        if len(rest) == 1:
            return Lazy("islice", (src, 0, rest[0], 1))
        return Lazy("islice", (src, rest[0], rest[1], rest[2] if len(rest) > 2 else 1))

    def f_itertools_count(self, a, k):
        return Lazy("count", (a[0] if a else k.get("start", 0), a[1] if len(a) > 1 else k.get("step", 1)))

    def f_itertools_repeat(self, a, k):
        return Lazy("repeat", tuple(a))

    def f_itertools_chain(self, a, k):
        return Lazy("chain", tuple(a))

    def f_itertools_cycle(self, a, k):
        return Lazy("cycle", tuple(a))

    def f_itertools_takewhile(self, a, k):
        return Lazy("takewhile", tuple(a))

    def f_itertools_chain_from_iterable(self, a, k):
        return Lazy("chain", tuple(self.I.items_of(a[0])))

    def f_itertools_starmap(self, a, k):
        return self.I.alloc(IterC([self.I.call(a[0], list(self.I.items_of(x)), {}) for x in self.I.items_of(a[1])]), "iter")

    def f_itertools_zip_longest(self, a, k):
        import itertools
        return self.I.list_([tuple(x) for x in itertools.zip_longest(*[self.I.items_of(y) for y in a],
                                                                    fillvalue=k.get("fillvalue"))])

    def f_itertools_product(self, a, k):
        import itertools
        r = k.get("repeat", 1)
        return self.I.list_([tuple(x) for x in itertools.product(*[list(self.I.items_of(y)) for y in a], repeat=r)])

    def f_itertools_combinations(self, a, k):
        import itertools
        return self.I.list_([tuple(x) for x in itertools.combinations(list(self.I.items_of(a[0])), self.intval(a[1]))])

    def f_itertools_combinations_with_replacement(self, a, k):
        import itertools
        return self.I.list_([tuple(x) for x in itertools.combinations_with_replacement(list(self.I.items_of(a[0])), self.intval(a[1]))])

    def f_itertools_permutations(self, a, k):
        import itertools
        return self.I.list_([tuple(x) for x in itertools.permutations(list(self.I.items_of(a[0])))])

    def f_itertools_accumulate(self, a, k):
        items = list(self.I.items_of(a[0]))
        f = a[1] if len(a) > 1 else None
        out = []
        for x in items:
            out.append(x if not out else (self.I.call(f, [out[-1], x], {}) if f else self.I.binop("Add", out[-1], x)))
        return self.I.list_(out)

    def f_itertools_tee(self, a, k):
        items = list(self.I.items_of(a[0]))
        n = a[1] if len(a) > 1 else 2
        return tuple(self.I.alloc(IterC(items), "iter") for _ in range(n))

    def f_copy_copy(self, a, k):
        v = a[0]
        I = self.I
        if isinstance(v, Ref):
            c = I.get(v)
            if v.kind == "arr":
                return I.arr(c.data, dtype=c.dtype)
            return I.alloc(c, v.kind)
        return v

    def f_copy_deepcopy(self, a, k):
        return self.deepcopy(a[0], {})

    def deepcopy(self, v, memo):
        I = self.I
        if isinstance(v, tuple):
            return type(v)(self.deepcopy(x, memo) for x in v)
        if isinstance(v, Ref):
            if v in memo:
                return memo[v]
            c = I.get(v)
            if v.kind == "arr":
                return I.arr(c.data, dtype=c.dtype)
            if v.kind in ("list", "deque") and not isinstance(c.items, SymSeq):
                r = I.list_([self.deepcopy(x, memo) for x in c.items], v.kind, c.maxlen)
            elif v.kind == "dict":
                r = I.alloc(DictC([(k, self.deepcopy(x, memo)) for k, x in c.items], c.rest, c.default), "dict")
            elif v.kind == "inst":
                r = I.alloc(InstC(c.cls, {n: self.deepcopy(x, memo) for n, x in c.attrs.items()}), "inst")
            else:
                r = I.alloc(c, v.kind)
            memo[v] = r
            return r
        return v

    def f_inspect_signature(self, a, k):
        f = a[0]
        skip = 0
        if isinstance(f, Bound):
            f, skip = f.fn, 1
        if isinstance(f, Class):
            f = self.I.class_attr(f, "__init__")
            skip = 1
        while isinstance(f, Func) and "__wrapped__" in f.attrs:
            f = f.attrs["__wrapped__"]
        if not isinstance(f, Func):
            raise Undecided("signature of %r" % (f,))
        params = self.I.dict_(self.signature_items(f)[skip:])
        return Opq("signature", attrs={"parameters": params})

    def signature_items(self, f):
        ar = f.node.args
        names = [x.arg for x in ar.posonlyargs + ar.args]
        nd = len(f.defaults)
        out = []
        E = Lib("inspect._empty")

        def par(n, d, kind):
            return (n, Opq("parameter " + n, attrs={"name": n, "default": d, "kind": Lib("inspect.Parameter." + kind)}))
        for i, n in enumerate(names):
            j = i - (len(names) - nd)
            out.append(par(n, f.defaults[j] if j >= 0 else E, "POSITIONAL_OR_KEYWORD"))
        if ar.vararg:
            out.append(par(ar.vararg.arg, E, "VAR_POSITIONAL"))
        for x in ar.kwonlyargs:
            out.append(par(x.arg, f.kwdefaults.get(x.arg, E), "KEYWORD_ONLY"))
        if ar.kwarg:
            out.append(par(ar.kwarg.arg, E, "VAR_KEYWORD"))
        return out

    def f_inspect_getfullargspec(self, a, k):
        f = a[0]
        if isinstance(f, Bound):
            f = f.fn
        if isinstance(f, Class):
            f = self.I.class_attr(f, "__init__")
        ar = f.node.args
        names = [x.arg for x in ar.posonlyargs + ar.args]
        return Opq("argspec", attrs={"args": self.I.list_(names), "defaults": tuple(f.defaults) or None,
                                     "kwonlyargs": self.I.list_([x.arg for x in ar.kwonlyargs]),
                                     "varkw": ar.kwarg.arg if ar.kwarg else None,
                                     "varargs": ar.vararg.arg if ar.vararg else None,
                                     "kwonlydefaults": self.I.dict_(list(f.kwdefaults.items()))})

    def f_inspect_isclass(self, a, k):
        return isinstance(a[0], Class)

    def f_operator_itemgetter(self, a, k):
        ks = list(a)
        return Native("itemgetter", lambda I, b, kk: I.getitem(b[0], ks[0]) if len(ks) == 1
                      else tuple(I.getitem(b[0], x) for x in ks))

    def f_operator_attrgetter(self, a, k):
        return Native("attrgetter", lambda I, b, kk: I.getattr(b[0], a[0]))

    def _opf(op):
        return lambda self, a, k: self.I.binop(op, a[0], a[1])
    f_operator_add, f_operator_sub, f_operator_mul = _opf("Add"), _opf("Sub"), _opf("Mult")
    f_operator_truediv, f_operator_pow = _opf("Div"), _opf("Pow")
    f_operator_floordiv, f_operator_mod, f_operator_matmul = _opf("FloorDiv"), _opf("Mod"), _opf("MatMult")
    f_operator_and_, f_operator_or_ = _opf("BitAnd"), _opf("BitOr")

    def _cmpf(op):
        return lambda self, a, k: self.I.compare(op, a[0], a[1])
    f_operator_lt, f_operator_le, f_operator_eq = _cmpf("Lt"), _cmpf("LtE"), _cmpf("Eq")
    f_operator_gt, f_operator_ge, f_operator_ne = _cmpf("Gt"), _cmpf("GtE"), _cmpf("NotEq")
    f_operator_is_, f_operator_is_not = _cmpf("Is"), _cmpf("IsNot")

    def f_operator_neg(self, a, k):
        return self.I.over(a[0], lambda x: self.unary("USub", x))

    def f_operator_pos(self, a, k):
        return a[0]

    def f_operator_abs(self, a, k):
        return self.f_builtins_abs(a, k)

    def f_contextlib_suppress(self, a, k):
        raise Undecided("contextlib.suppress")

    def f_contextlib_ExitStack(self, a, k):
        raise Undecided("contextlib.ExitStack")

    def f_os_getpid(self, a, k):
        return self.I.fresh("pid", "int")

    def f_os_urandom(self, a, k):
        return self.I.fresh("entropy", "obj")

    def f_random_random(self, a, k):
        self.I.event("global_rng", what="random.random")
        return self.I.fresh("entropy", kind="half")

    def f_random_randint(self, a, k):
        self.I.event("global_rng", what="random.randint")
        return self.I.fresh("entropy", "int", a[0], a[1])

    def f_os_getenv(self, a, k):
        return Opq("env:" + self.text(a[0]))

    # ------------------------------------------------------------ methods

    def call_method(self, o, name, a, k):
        I = self.I
        if isinstance(o, str):
            return self.str_method(o, name, a, k)
        if isinstance(o, Opq):
            m = o.methods.get(name)
            if m is None:
                raise Undecided("method %s of %s" % (name, o.name))
            return m(I, a, k)
        if isinstance(o, TNode):
            return self.tf_method(o, name, a, k)
        if isinstance(o, (GenV, Lazy)):
            if name == "__next__":
                return self.f_builtins_next([o], {})
            if name == "__iter__":
                return o
            if name == "close":
                return None
            raise Undecided("generator method " + name)
        if isinstance(o, Shape):
            if name == "as_list":
                return I.list_(list(o))
            if name == "is_compatible_with":
                return I.items_of(a[0]) == list(o)
            if name in ("index", "count"):
                return getattr(tuple(o), name)(a[0])
            if name == "num_elements":
                return int(np.prod([int(x) for x in o]))
            if name == "is_fully_defined":
                return all(x is not None for x in o)
            if name in ("assert_has_rank", "assert_is_compatible_with"):
                return None
            raise Undecided("shape method " + name)
        if isinstance(o, tuple):
            if name == "index":
                return self.list_index(list(o), a[0])
            if name == "count":
                return sum(1 for x in o if self.equal(x, a[0]) is True)
        if isinstance(o, ExcVal):
            return o
        if isinstance(o, (int, float, T)):
            return self.scalar_method(o, name, a, k)
        if isinstance(o, Slice) and name == "indices":
            n = self.intval(a[0])
            return self.pyslice(o).indices(n)
        if isinstance(o, Ref):
            c = I.get(o)
            if o.kind == "arr":
                return self.arr_method(o, name, a, k)
            if o.kind == "rng":
                return self.rng_method(o, name, a, k)
            if o.kind in ("list", "deque"):
                return self.list_method(o, c, name, a, k)
            if o.kind == "dict":
                return self.dict_method(o, c, name, a, k)
            if o.kind == "set":
                return self.set_method(o, c, name, a, k)
            if o.kind == "iter":
                if name == "__next__":
                    return self.f_builtins_next([o], {})
                if name == "__iter__":
                    return o
        raise Undecided("method %s of %r" % (name, o))

    def scalar_method(self, o, name, a, k):
        if name == "astype" and isinstance(o, T):
            return self.convert1(o, self.dtname(a[0] if a else k.get("dtype")))
        if name in ("item", "copy", "conjugate", "astype", "squeeze", "tolist", "sum", "mean", "max", "min"):
            return o
        if name == "reshape":
            return self.arr_method(self.I.arr(ops.A(o)), name, a, k)
        if name == "is_integer":
            if isinstance(o, (int, float)):
                return float(o).is_integer()
            return self.I.norm(tm.eq(tm.fn("floor", o), o))
        if name in ("__float__", "__int__"):
            return o
        if name == "bit_length" and isinstance(o, int):
            return o.bit_length()
        raise Undecided("number method " + name)

    def str_method(self, o, name, a, k):
        I = self.I
        if name == "format":
            try:
                return o.format(*[self.fmt(x) for x in a], **{n: self.fmt(x) for n, x in k.items()})
            except (IndexError, KeyError):
                I.raise_("KeyError", "format")
            except Exception:
                return o
        if name == "join":
            parts = []
            for x in I.items_of(a[0]):
                if isinstance(x, (int, float)) and not isinstance(x, str):
                    I.raise_("TypeError", "join of non-strings")
                parts.append(x if isinstance(x, str) else self.text(x))
            return o.join(parts)
        if hasattr(str, name):
            if all(isinstance(x, (str, int)) for x in a):
                r = getattr(o, name)(*a)
                if isinstance(r, list):
                    return I.list_(r)
                return r
            if name in ("startswith", "endswith") and isinstance(a[0], tuple):
                return getattr(o, name)(a[0])
        I.raise_("AttributeError", "str has no attribute " + name)

    class _F(object):
        def __init__(self, s):
            self.s = s

        def __format__(self, spec):
            return self.s

        def __getattr__(self, n):
            return Library._F(self.s + "." + n)

        def __getitem__(self, n):
            return Library._F("%s[%s]" % (self.s, n))

        def __str__(self):
            return self.s
        __repr__ = __str__

    def fmt(self, v):
        if isinstance(v, (str, int, float)):
            return v
        self.shown(v)
        return Library._F(self.text(v))

    def shown(self, v):
        """A computed figure becomes part of a message."""
        for x in v if isinstance(v, tuple) else (v,):
            if isinstance(x, T) and x.sort == "real" and not tm.is_num(x):
                self.I.event("shown", value=x)
            elif self.is_arr(x) and tuple(self.data(x).shape) == ():
                self.I.event("shown", value=self.scalar(x))

    def percent(self, a, b):
        I = self.I
        args = self.dict_items(b) if isinstance(b, Ref) and b.kind == "dict" else b
        vals = [v for _, v in args] if isinstance(args, list) else list(args) if isinstance(args, tuple) else [args]
        if all(isinstance(v, (str, int, float)) or v is None for v in vals):
            try:
                return a % (dict(args) if isinstance(args, list) else args)
            except TypeError as e:
                I.raise_("TypeError", str(e))
            except (ValueError, KeyError) as e:
                I.raise_(type(e).__name__, str(e))
        self.shown(tuple(vals))
        texts = [self.text(v) for v in vals][::-1]
        return re.sub(r"%[-+ #0-9.*]*[a-zA-Z]", lambda m: texts.pop() if texts else m.group(0), a)

    def list_index(self, items, x):
        I = self.I

        def go(j):
            if j == len(items):
                I.raise_("ValueError", "not in list")
            r = self.equal(items[j], x)
            if isinstance(r, bool):
                return j if r else go(j + 1)
            return I.branch(r, lambda: j, lambda: go(j + 1))
        return go(0)

    def list_method(self, o, c, name, a, k):
        I = self.I
        if name == "append":
            return self.list_append(o, a[0])
        if name == "extend":
            return self.list_extend(o, a[0])
        if name == "clear":
            I.event("clear", ref=o)
            I.put(o, ListC((), c.maxlen))
            return None
        if name == "__len__":
            return self.length(o)
        if name == "__iter__":
            return self.make_iter(o)
        if isinstance(c.items, SymSeq):
            if name == "copy":
                return I.alloc(c, o.kind)
            raise Undecided("list method %s on a symbolic sequence" % name)
        items = list(c.items)
        if name == "index":
            return self.list_index(items, a[0])
        if name == "copy":
            return I.alloc(c, o.kind)
        if name == "__contains__":
            return self.contains(o, a[0])
        if name == "__getitem__":
            return self.getitem(o, a[0])
        if name == "count":
            out = 0
            for x in items:
                r = self.equal(x, a[0])
                out = out + (1 if r else 0) if isinstance(r, bool) and isinstance(out, int) else \
                    tm.add(out, tm.ite(r, 1, 0))
            return I.norm(out)
        res = None
        I.event("list_write", ref=o)
        if name == "pop":
            try:
                res = items.pop(*[self.intval(x) for x in a])
            except IndexError:
                I.raise_("IndexError", "pop from empty list")
        elif name == "popleft":
            if not items:
                I.raise_("IndexError", "pop from an empty deque")
            res = items.pop(0)
        elif name == "insert":
            items.insert(self.intval(a[0]), a[1])
        elif name == "appendleft":
            items.insert(0, a[0])
            if isinstance(c.maxlen, int):
                items = items[:c.maxlen]
        elif name == "reverse":
            items.reverse()
        elif name == "remove":
            items.pop(self.intval(self.list_index(items, a[0])))
        elif name == "sort":
            items = list(I.get(self.f_builtins_sorted([o], k)).items)
        elif name == "rotate":
            n = self.intval(a[0]) if a else 1
            n %= max(1, len(items))
            items = items[-n:] + items[:-n] if n else items
        else:
            raise Undecided("list method " + name)
        I.put(o, ListC(tuple(items), c.maxlen))
        return res

    def dict_method(self, o, c, name, a, k):
        I = self.I
        if name == "update":
            if a:
                src = a[0]
                if isinstance(src, Phi):
                    return I.branch(src.cond, lambda: self.call_method(o, name, [src.a], k),
                                    lambda: self.call_method(o, name, [src.b], k))
                if src is None:
                    I.raise_("TypeError", "NoneType object is not iterable")
                if isinstance(src, Ref) and src.kind == "dict":
                    sc = I.get(src)
                    if sc.rest is not None:
                        c2 = I.get(o)
                        I.put(o, DictC(c2.items, sc.rest, c2.default))
                    for kk, v in sc.items:
                        self.setitem(o, kk, v)
                elif isinstance(src, Opq):
                    if "items" in src.attrs:
                        for kk, v in src.attrs["items"]:
                            self.setitem(o, kk, v)
                    else:
                        self.setitem(o, src, Opq("content of " + src.name))
                elif isinstance(src, T):
                    raise Undecided("dict.update of %s" % tm.show(src))
                elif isinstance(src, (bool, int, float)):
                    I.raise_("TypeError", "%r is not iterable" % (src,))
                else:
                    for pair in (list(src) if isinstance(src, str) else I.items_of(src)):
                        try:
                            parts = list(pair) if isinstance(pair, str) else list(I.items_of(pair))
                        except NotAnObject:
                            I.raise_("TypeError", "cannot convert dictionary update sequence")
                        if len(parts) != 2:
                            I.raise_("ValueError", "dictionary update sequence element has length %d" % len(parts))
                        self.setitem(o, parts[0], parts[1])
            for kk, v in k.items():
                self.setitem(o, kk, v)
            return None
        if name == "copy":
            return I.alloc(c, "dict")
        if name == "get":
            p = list(a) + [None]
            d = p[1] if len(a) > 1 else k.get("default")
            r = self.contains(o, a[0])
            if isinstance(r, bool):
                return self.getitem(o, a[0]) if r else d
            return I.branch(r, lambda: self.getitem(o, a[0]), lambda: d)
        if name == "setdefault":
            if self.contains(o, a[0]) is True:
                return self.getitem(o, a[0])
            d = a[1] if len(a) > 1 else None
            self.setitem(o, a[0], d)
            return d
        if name == "clear":
            I.put(o, DictC(()))
            I.event("dict_write", ref=o, key=None, value=UNBOUND)
            return None
        if name == "pop":
            r = self.contains(o, a[0])
            if r is True:
                v = self.getitem(o, a[0])
                self.delitem(o, a[0])
                return v
            if r is False:
                if len(a) > 1:
                    return a[1]
                I.raise_("KeyError", a[0])
            raise Undecided("dict.pop")
        if name == "__contains__":
            return self.contains(o, a[0])
        if name == "__getitem__":
            return self.getitem(o, a[0])
        if name == "__len__":
            return self.length(o)
        if c.rest is not None:
            raise Undecided("dict.%s of a partly known dict" % name)
        if name == "items":
            return I.list_([(kk, v) for kk, v in c.items])
        if name == "keys":
            return self.make_set_ordered([kk for kk, _ in c.items])
        if name == "values":
            return I.list_([v for _, v in c.items])
        raise Undecided("dict method " + name)

    def make_set_ordered(self, items):
        return self.I.alloc(SetC(items), "set")

    def set_op(self, name, o, others):
        I = self.I
        cur = list(I.get(o).items)
        keys = [I.key(x) for x in cur]
        for other in others:
            ot = I.items_of(other)
            ok = {I.key(x) for x in ot}
            if name == "union":
                for x in ot:
                    if I.key(x) not in {I.key(y) for y in cur}:
                        cur.append(x)
            elif name == "intersection":
                cur = [x for x in cur if I.key(x) in ok]
            elif name == "difference":
                cur = [x for x in cur if I.key(x) not in ok]
            elif name == "symmetric_difference":
                ck = {I.key(x) for x in cur}
                cur = [x for x in cur if I.key(x) not in ok] + [x for x in ot if I.key(x) not in ck]
        return self.make_set(cur)

    def set_method(self, o, c, name, a, k):
        I = self.I
        if name in ("union", "intersection", "difference", "symmetric_difference"):
            return self.set_op(name, o, a)
        if name == "add":
            r = self.make_set(list(c.items) + [a[0]])
            I.put(o, I.get(r))
            return None
        if name in ("update", "difference_update", "intersection_update"):
            r = self.set_op({"update": "union", "difference_update": "difference",
                             "intersection_update": "intersection"}[name], o, a)
            I.put(o, I.get(r))
            return None
        if name in ("discard", "remove"):
            kk = I.key(a[0])
            I.put(o, SetC([x for x in c.items if I.key(x) != kk]))
            return None
        if name in ("issubset", "issuperset", "isdisjoint"):
            x = {I.key(y) for y in c.items}
            y = {I.key(z) for z in I.items_of(a[0])}
            return {"issubset": x <= y, "issuperset": x >= y, "isdisjoint": not (x & y)}[name]
        if name == "copy":
            return I.alloc(c, "set")
        if name == "__contains__":
            return self.contains(o, a[0])
        if name == "__len__":
            return len(c.items)
        raise Undecided("set method " + name)

"""Hash-consed value terms and their comparison.

A term is a node of the value graph the interpreter builds from the source.
Two terms are compared by global value numbering with random interpretation
(Gulwani & Necula, POPL 2003/04): each *symbol* of the graph is given a value,
every operator is given its mathematical meaning, every unknown function is an
uninterpreted (hashed) function, and equal graphs must agree everywhere.
Nothing of the analysed repository is executed by this.
"""
import hashlib
import itertools
import math
import struct
from fractions import Fraction

import mpmath
from mpmath import mp

mp.dps = 70
EPS = mpmath.mpf(10) ** -40

_table = {}
_counter = itertools.count()


class Undecided(Exception):
    """The analysis met something it cannot interpret."""


class T(object):
    __slots__ = ("op", "args", "sort", "id", "__weakref__")

    def __repr__(self):
        return show(self)

    # operators, so that numpy object arrays work on terms
    def __add__(self, o): return _lift(add, self, o)
    def __radd__(self, o): return _lift(add, o, self)
    def __sub__(self, o): return _lift(sub, self, o)
    def __rsub__(self, o): return _lift(sub, o, self)
    def __mul__(self, o): return _lift(mul, self, o)
    def __rmul__(self, o): return _lift(mul, o, self)
    def __truediv__(self, o): return _lift(div, self, o)
    def __rtruediv__(self, o): return _lift(div, o, self)
    def __floordiv__(self, o): return _lift(floordiv, self, o)
    def __rfloordiv__(self, o): return _lift(floordiv, o, self)
    def __mod__(self, o): return _lift(mod, self, o)
    def __rmod__(self, o): return _lift(mod, o, self)
    def __pow__(self, o): return _lift(power, self, o)
    def __rpow__(self, o): return _lift(power, o, self)
    def __neg__(self): return neg(self)
    def __abs__(self): return fn("abs", self)
    # identity semantics for == (terms are hash-consed)
    def __eq__(self, o): return self is o
    def __ne__(self, o): return self is not o
    def __hash__(self): return self.id


def _lift(f, a, b):
    if not isinstance(a, (T, int, float, Fraction, bool)) or \
            not isinstance(b, (T, int, float, Fraction, bool)):
        return NotImplemented
    return f(a, b)


def _mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort = op, args, sort
        t.id = next(_counter)
        _table[key] = t
    return t


def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return _mk("const", (type(v).__name__, v),
                   "bool" if isinstance(v, bool) else "obj")
    if isinstance(v, int):
        return _mk("const", ("num", Fraction(v)), "int")
    if isinstance(v, Fraction):
        return _mk("const", ("num", v), "int" if v.denominator == 1 else "real")
    if isinstance(v, float):
        if math.isinf(v):
            return _mk("const", ("inf", 1 if v > 0 else -1), "real")
        if math.isnan(v):
            return _mk("const", ("nan", 0), "real")
        return _mk("const", ("num", Fraction(repr(v))), "real")
    raise Undecided("no constant term for %r" % (v,))


TRUE, FALSE = const(True), const(False)


def term(v):
    if isinstance(v, T):
        return v
    if isinstance(v, (bool, int, float, Fraction, str)) or v is None:
        return const(v)
    try:
        import numpy as np
        if isinstance(v, np.ndarray) and v.shape == ():
            return term(v.item())
        if isinstance(v, np.generic):
            return term(v.item())
    except ImportError:
        pass
    if isinstance(v, tuple):
        return uf("tuple", *[term(x) for x in v], sort="obj")
    tid = getattr(v, "as_term", None)
    if tid is not None:
        return tid()
    raise Undecided("not a term: %r" % (v,))


def is_num(t):
    return t.op == "const" and t.args[0] == "num"


def num(t):
    return t.args[1]


def sym(name, sort="real", lo=None, hi=None, kind=None):
    """A free symbol. kind: 'pos', 'nonneg', 'any' for reals."""
    return _mk("sym", (name, lo, hi, kind), sort)


def uf(name, *args, sort="real", kind=None):
    """Uninterpreted function application."""
    return _mk("uf", (name, kind) + tuple(term(a) for a in args), sort)


def _rs(a, b):
    return "int" if a.sort == "int" and b.sort == "int" else "real"


def add(a, b):
    a, b = term(a), term(b)
    if is_num(a) and is_num(b):
        return _numconst(num(a) + num(b), a, b)
    if is_num(a) and num(a) == 0:
        return b
    if is_num(b) and num(b) == 0:
        return a
    if a.id > b.id:
        a, b = b, a
    return _mk("+", (a, b), _rs(a, b))


def _numconst(v, *src):
    if all(s.sort == "int" for s in src) and v.denominator == 1:
        return const(int(v))
    return _mk("const", ("num", v), "real")


def neg(a):
    return mul(-1, a)


def sub(a, b):
    a, b = term(a), term(b)
    if a is b:
        return const(0)
    return add(a, neg(b))


def mul(a, b):
    a, b = term(a), term(b)
    if is_num(a) and is_num(b):
        return _numconst(num(a) * num(b), a, b)
    for x, y in ((a, b), (b, a)):
        if is_num(x):
            if num(x) == 0:
                return const(0)
            if num(x) == 1:
                return y
            if y.op == "*" and is_num(y.args[0]):
                return mul(mul(x, y.args[0]), y.args[1])
    if is_num(b) or (not is_num(a) and a.id > b.id):
        a, b = b, a
    return _mk("*", (a, b), _rs(a, b))


def div(a, b):
    a, b = term(a), term(b)
    if is_num(b):
        if num(b) == 0:
            return _mk("/", (a, b), "real")
        return mul(_mk("const", ("num", 1 / num(b)), "real"), a)
    return _mk("/", (a, b), "real")


def floordiv(a, b):
    a, b = term(a), term(b)
    if is_num(a) and is_num(b) and num(b) != 0:
        return const(int(num(a) // num(b)))
    if is_num(b) and num(b) == 1 and a.sort == "int":
        return a
    return _mk("//", (a, b), _rs(a, b))


def mod(a, b):
    a, b = term(a), term(b)
    if is_num(a) and is_num(b) and num(b) != 0:
        return _numconst(num(a) % num(b), a, b)
    return _mk("%", (a, b), _rs(a, b))


def power(a, b):
    a, b = term(a), term(b)
    if is_num(b):
        e = num(b)
        if e == 1:
            return a
        if e == 0:
            return const(1)
        if is_num(a) and e.denominator == 1 and (num(a) != 0 or e > 0) \
                and abs(e) < 64:
            v = num(a) ** int(e)
            return _numconst(v, a, b) if e > 0 else _numconst(Fraction(v), a, b)
    return _mk("pow", (a, b), _rs(a, b))


def bits(op, a, b):
    """Bitwise operators on integers: and, or, xor, shl, shr."""
    a, b = term(a), term(b)
    if is_num(a) and is_num(b):
        x, y = int(num(a)), int(num(b))
        return const({"and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y,
                      "shl": lambda: x << y, "shr": lambda: x >> y}[op]())
    return _mk(op + "#", (a, b), "int")


FUNCS = {"sqrt", "exp", "log", "tanh", "sin", "cos", "tan", "abs", "sign", "max", "min",
         "floor", "ceil", "ite", "kth", "select", "argmin", "argmax", "trunc", "log1p",
         "expm1", "bitcount", "narrow"}


def fn(name, *args):
    args = tuple(term(a) for a in args)
    if name in ("max", "min"):
        if all(is_num(a) for a in args):
            return _numconst((max if name == "max" else min)(num(a) for a in args), *args)
        flat = []
        for a in args:
            flat.extend(a.args if a.op == name else (a,))
        flat = sorted(set(flat), key=lambda t: t.id)
        flat = [a for a in flat
                if not (a.op == "const" and a.args == (("inf", -1) if name == "max" else ("inf", 1)))]
        if not flat:
            return args[0]
        if len(flat) == 1:
            return flat[0]
        return _mk(name, tuple(flat),
                   "int" if all(a.sort == "int" for a in flat) else "real")
    if name == "abs" and is_num(args[0]):
        return _numconst(abs(num(args[0])), *args)
    if name == "sign" and is_num(args[0]):
        v = num(args[0])
        return const(0 if v == 0 else (1 if v > 0 else -1))
    if name == "sqrt" and is_num(args[0]) and num(args[0]) >= 0:
        v = num(args[0])
        p, q = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if p * p == v.numerator and q * q == v.denominator:
            return _mk("const", ("num", Fraction(p, q)), "real")
    if name in ("floor", "ceil", "trunc") and (is_num(args[0])):
        return const(int(getattr(math, name)(num(args[0]))))
    if name in ("floor", "ceil", "trunc") and args[0].sort == "int":
        return args[0]
    if name == "narrow" and (args[0].op == "narrow" or args[0].sort != "real" or args[0].op == "const" and
                             (args[0].args[0] != "num" or float(num(args[0])) == struct.unpack("f", struct.pack("f", num(args[0])))[0])):
        return args[0]
    sort = "int" if name in ("floor", "ceil", "trunc", "argmin", "argmax") else "real"
    if name == "abs":
        sort = args[0].sort
    return _mk(name, args, sort)


def _cmp(op, a, b):
    a, b = term(a), term(b)
    if a is b:
        return const(op in ("le", "eq"))
    if a.op == "const" and b.op == "const":
        ka, kb = a.args[0], b.args[0]
        if ka in ("num", "inf", "bool") and kb in ("num", "inf", "bool"):
            x = float("inf") * a.args[1] if ka == "inf" else a.args[1]
            y = float("inf") * b.args[1] if kb == "inf" else b.args[1]
            return const({"lt": x < y, "le": x <= y, "eq": x == y}[op])
        if op == "eq":
            return const(a is b)
    if op == "eq" and a.id > b.id:
        a, b = b, a
    return _mk(op, (a, b), "bool")


def lt(a, b): return _cmp("lt", a, b)
def le(a, b): return _cmp("le", a, b)
def gt(a, b): return _cmp("lt", b, a)
def ge(a, b): return _cmp("le", b, a)
def eq(a, b): return _cmp("eq", a, b)
def ne(a, b): return not_(eq(a, b))


def not_(a):
    a = term(a)
    if a.op == "const":
        return const(not truthy(a))
    if a.op == "not":
        return a.args[0]
    return _mk("not", (a,), "bool")


def truthy(a):
    v = a.args[1]
    return bool(v)


def and_(*xs):
    out = []
    for x in xs:
        x = term(x)
        if x.op == "const":
            if not truthy(x):
                return FALSE
            continue
        for y in (x.args if x.op == "and" else (x,)):
            if y not in out:
                out.append(y)
    for y in out:
        if not_(y) in out:
            return FALSE
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else _mk("and", tuple(out), "bool")


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def ite(c, a, b):
    c, a, b = term(c), term(a), term(b)
    if c.op == "const":
        return a if truthy(c) else b
    if a is b:
        return a
    if a.sort == "bool" and b.sort == "bool":
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
    if c.op == "not":
        return ite(c.args[0], b, a)
    sort = a.sort if a.sort == b.sort else \
        ("real" if {a.sort, b.sort} <= {"int", "real"} else "obj")
    return _mk("ite", (c, a, b), sort)


# ---------------------------------------------------------------- evaluation

class Undef(Exception):
    """A term has no value at this point."""


class Obj(object):
    """Value of a non-numeric term."""
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, Obj) and o.key == self.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return "<%s>" % (self.key,)


def _h(*parts):
    return int.from_bytes(hashlib.blake2b("\x1f".join(parts).encode(), digest_size=16).digest(), "big")


def _canon(v):
    if isinstance(v, bool):
        return "b%d" % v
    if isinstance(v, mpmath.mpf):
        if v == 0:
            return "0"
        r = mpmath.nint(v)
        if abs(v - r) < EPS * (1 + abs(v)):
            return mpmath.nstr(r, 30)
        return mpmath.nstr(v, 28)
    return repr(v)


class Valuation(object):
    def __init__(self, seed, regime=0):
        self.seed, self.regime, self.memo, self.given = seed, regime, {}, {}
        self.used = False       # a comparison was defined here
        self.forced = {}        # values imposed on symbols and function values, by key

    def real(self, key, kind):
        h = _h("r", str(self.seed), key)
        u = mpmath.mpf(h % (10 ** 18)) / mpmath.mpf(10) ** 18
        sel = (h >> 64) % 16
        sgn = -1 if (h >> 80) % 2 else 1
        if self.regime == 1:      # small magnitudes
            v = mpmath.mpf(10) ** (-2 - 5 * u)
        elif self.regime == 2:    # mixed magnitudes, exact zeros
            v = mpmath.mpf(10) ** (-9 + 11 * u)
            if sel < 3 and kind != "pos":
                return mpmath.mpf(0)
        elif self.regime == 3:    # special values
            v = mpmath.mpf([1, 1, 2, 3, 1][sel % 5]) / [1, 1, 1, 2][sel % 4]
        else:
            v = mpmath.mpf("0.3") + 2 * u
        if kind in ("unit", "half"):
            return u
        if kind in ("pos", "nonneg"):
            return v
        return sgn * v

    def integer(self, key, lo, hi):
        h = _h("i", str(self.seed), key)
        lo = -3 if lo is None else int(lo)
        hi = lo + 9 if hi is None else int(hi)
        return mpmath.mpf(lo + h % (hi - lo + 1))

    def __call__(self, t):
        memo = self.memo
        if t in memo:
            v = memo[t]
            if isinstance(v, Undef):
                raise v
            return v
        # iterative post-order is not needed: graphs here are shallow enough
        try:
            v = self._eval(t)
        except Undef as e:
            memo[t] = e
            raise
        memo[t] = v
        return v

    def _eval(self, t):
        op, args = t.op, t.args
        if op == "const":
            k, v = args
            if k == "num":
                return mpmath.mpf(v.numerator) / v.denominator
            if k == "bool":
                return v
            if k == "inf":
                return mpmath.inf * v
            if k == "nan":
                raise Undef("nan")
            return Obj(repr(v))
        if op == "sym":
            name, lo, hi, kind = args
            if name in self.given:
                return self.given[name]
            if self.forced and "sym:" + name in self.forced:
                return self.forced["sym:" + name]
            if t.sort == "int":
                lo = self(lo) if isinstance(lo, T) else lo
                hi = self(hi) if isinstance(hi, T) else hi
                if lo is not None and hi is not None and hi < lo:
                    raise Undef("empty range")
                return self.integer("sym:" + name, lo, hi)
            if t.sort == "bool":
                return bool(_h("b", str(self.seed), name) % 2)
            if t.sort == "obj":
                return Obj("sym:" + name)
            if kind == "pi":
                return +mpmath.pi
            return self.real("sym:" + name, kind)
        if op == "uf":
            key = self.uf_key(t)
            if self.forced and key in self.forced:
                return self.forced[key]
            if t.sort == "int":
                lo, hi = args[1] if args[1] else (None, None)
                lo = self(lo) if isinstance(lo, T) else lo
                hi = self(hi) if isinstance(hi, T) else hi
                return self.integer(key, lo, hi)
            if t.sort == "bool":
                return bool(_h("b", str(self.seed), key) % 2)
            if t.sort == "obj":
                return Obj("%x" % _h(key))
            return self.real(key, args[1])
        if op == "ite":
            return self(args[1]) if self(args[0]) else self(args[2])
        if op == "and":
            return all(self(a) for a in args)
        if op == "not":
            return not self(args[0])
        if op == "select":
            i = int(self(args[0]))
            n = len(args) - 1
            if not -n <= i < n:
                raise Undef("index")
            return self(args[1:][i])
        if op == "perm":
            return self.permuted(*[self(a) for a in args])
        vs = [self(a) for a in args]
        if op == "eq":
            a, b = vs
            if isinstance(a, Obj) or isinstance(b, Obj):
                return a == b
            return bool(close(a, b))
        for v in vs:
            if isinstance(v, Obj):
                # arithmetic on an opaque value: uninterpreted
                return self.real("op:" + op + ",".join(map(_canon, vs)), None)
        vs = [mpmath.mpf(int(v)) if isinstance(v, bool) else v for v in vs]
        if op == "lt":
            return bool(vs[0] < vs[1] and not close(*vs))
        if op == "le":
            return bool(vs[0] <= vs[1] or close(*vs))
        try:
            return self._arith(op, vs)
        except (ZeroDivisionError, ValueError, OverflowError) as e:
            raise Undef(str(e))

    def uf_key(self, t):
        return "uf:" + t.args[0] + "(" + ",".join(_canon(self(a)) for a in t.args[2:]) + ")"

    def permuted(self, state, n, i):
        """i-th item of the permutation of range(n) that `state` determines."""
        n, i = int(n), int(i)
        if not -n <= i < n:
            raise Undef("index")
        key = "perm:%s:%d" % (_canon(state), n)
        p = self.memo.get(key)
        if p is None:
            p = sorted(range(n), key=lambda j: _h("p", str(self.seed), key, str(j)))
            self.memo[key] = p
        return mpmath.mpf(p[i])

    def _arith(self, op, v):
        if op == "+":
            r = v[0] + v[1]
            # cancellation: treat relative dust as zero
            if r != 0 and abs(r) < EPS * EPS * max(abs(v[0]), abs(v[1])):
                return mpmath.mpf(0)
            if mpmath.isnan(r):
                raise Undef("nan")
            return r
        if op == "*":
            r = v[0] * v[1]
            if mpmath.isnan(r):
                raise Undef("nan")
            return r
        if op == "/":
            if v[1] == 0:
                raise Undef("division by zero")
            return v[0] / v[1]
        if op == "//":
            if v[1] == 0:
                raise Undef("division by zero")
            return mpmath.floor(v[0] / v[1])
        if op == "%":
            if v[1] == 0:
                raise Undef("division by zero")
            return v[0] - v[1] * mpmath.floor(v[0] / v[1])
        if op == "pow":
            b, e = v
            if e == mpmath.floor(e) and abs(e) < 10 ** 6:
                if b == 0 and e < 0:
                    raise Undef("zero power")
                return b ** int(e)
            if b < 0:
                raise Undef("negative base")
            if b == 0 and e < 0:
                raise Undef("zero power")
            return b ** e
        if op[-1] == "#":
            a, b = int(v[0]), int(v[1])
            if op in ("shl#", "shr#") and not 0 <= b < 4096:
                raise Undef("shift")
            return mpmath.mpf({"and#": lambda: a & b, "or#": lambda: a | b, "xor#": lambda: a ^ b,
                               "shl#": lambda: a << b, "shr#": lambda: a >> b}[op]())
        x = v[0]
        if op == "sqrt":
            if x < 0:
                raise Undef("sqrt of a negative")
            return mpmath.sqrt(x)
        if op == "log":
            if x <= 0:
                raise Undef("log")
            return mpmath.log(x)
        if op == "log1p":
            if x <= -1:
                raise Undef("log")
            return mpmath.log(1 + x)
        if op == "expm1":
            return mpmath.exp(x) - 1
        if op == "exp":
            if x > 10 ** 6:
                raise Undef("overflow")
            return mpmath.exp(x)
        if op in ("tanh", "sin", "cos", "tan"):
            return getattr(mpmath, op)(x)
        if op == "abs":
            return abs(x)
        if op == "sign":
            return mpmath.mpf(0 if x == 0 else (1 if x > 0 else -1))
        if op == "max":
            return max(v)
        if op == "min":
            return min(v)
        if op == "floor":
            return mpmath.floor(x)
        if op == "ceil":
            return mpmath.ceil(x)
        if op == "trunc":
            return mpmath.mpf(int(x))
        if op == "narrow":     # rounded to single precision
            m, e = mpmath.frexp(x)
            return mpmath.ldexp(mpmath.nint(mpmath.ldexp(m, 24)), int(e) - 24)
        if op == "kth":        # kth(k, e0, e1, ...): k-th largest
            es = sorted(v[1:], reverse=True)
            k = int(x)
            if not -len(es) <= k < len(es):
                raise Undef("kth")
            return es[k]
        if op in ("argmin", "argmax"):
            f = min if op == "argmin" else max
            return mpmath.mpf(v.index(f(v)))
        raise Undecided("operator %s" % op)


# rounding of the interpretation itself, in sums that cancel
FLOOR = mpmath.mpf(10) ** -58


LOOSE = mpmath.mpf(10) ** -13


def close(a, b, eps=EPS):
    if a == b:
        return True
    if mpmath.isinf(a) or mpmath.isinf(b):
        return False
    return abs(a - b) <= eps * (abs(a) + abs(b)) + FLOOR


def rounded(t):
    """Does a term contain a literal written out to (nearly) full float precision?"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == "const" and x.args[0] == "num" and len(str(x.args[1].numerator)) >= 14 and \
                len(str(x.args[1].denominator)) >= 12:
            return True
        todo.extend(a for a in x.args if isinstance(a, T))
    return False


class Verdict(object):
    def __init__(self, ok, why="", points=0, identical=False):
        self.ok, self.why, self.points, self.identical = ok, why, points, identical

    def __bool__(self):
        return self.ok


def free_syms(ts):
    seen, out, todo = set(), {}, [t for t in ts]
    while todo:
        t = todo.pop()
        if not isinstance(t, T) or t in seen:
            continue
        seen.add(t)
        if t.op == "sym":
            out[t.args[0]] = t
        todo.extend(a for a in t.args if isinstance(a, T))
    return out


def contains(t, pred):
    seen, todo = set(), [t]
    while todo:
        t = todo.pop()
        if not isinstance(t, T) or t in seen:
            continue
        seen.add(t)
        if pred(t):
            return t
        todo.extend(a for a in t.args if isinstance(a, T))
    return None


STATS = {"comparisons": 0, "identical": 0, "points": 0, "critical": 0}


# ------------------------------------------------------- critical valuations
# Random interpretation rarely lands on the boundary of a guard.  For every guard
# of one graph that the other does not have, symbols are also given the values
# that put the guard on its boundary and on either side of it.

def atoms(t):
    """The guards of a graph, as pairs of terms that it compares."""
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op in ("lt", "le", "eq"):
            out.append((x.args[0], x.args[1]))
        elif x.op in ("max", "min"):
            a = x.args
            out.extend((a[i], a[j]) for i in range(len(a)) for j in range(i + 1, len(a)) if len(a) <= 4)
        elif x.op in ("sign", "abs"):
            out.append((x.args[0], const(0)))
        elif x.op in ("%", "//", "and#", "or#", "xor#", "shl#", "shr#", "trunc", "floor", "ceil"):
            out.append((x.args[0], x.args[1] if len(x.args) > 1 else const(0), "steps"))
        todo.extend(x.args)
    return out


def leaves(ts, limit=4):
    """Symbols and function values a guard depends on, nearest first."""
    out, seen, todo = [], set(), list(ts)
    while todo and len(out) < limit:
        nxt = []
        for t in todo:
            if not isinstance(t, T) or t in seen:
                continue
            seen.add(t)
            if t.op in ("sym", "uf") and t.sort in ("int", "real") and not (t.op == "sym" and t.args[3] == "pi"):
                out.append(t)
            nxt.extend(a for a in t.args if isinstance(a, T))
        todo = nxt
    return out[:limit]


def _allowed(v, t, c):
    """A value a leaf can have, or None."""
    if isinstance(c, (Obj, bool)) or mpmath.isinf(c) or mpmath.isnan(c):
        return None
    if t.sort == "int":
        if t.op == "sym":
            lo, hi = t.args[1], t.args[2]
        else:
            lo, hi = t.args[1] if t.args[1] else (None, None)
        c = mpmath.floor(c)
        lo = v(lo) if isinstance(lo, T) else lo
        hi = v(hi) if isinstance(hi, T) else hi
        if lo is not None and c < lo or hi is not None and c > hi:
            return None
        return c
    kind = t.args[3] if t.op == "sym" else t.args[1]
    if kind == "pos" and c <= 0 or kind == "nonneg" and c < 0 or kind == "unit" and not 0 <= c <= 1 \
            or kind == "half" and not 0 <= c < 1:
        return None
    return c


EXPLORED = {}
TRIED = {}


def dependents(ts, leaf):
    """The nodes of a graph whose value depends on a leaf (or a function value like it)."""
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is None:
            r = t is leaf or leaf.op == "uf" and t.op == "uf" and t.args[0] == leaf.args[0]
            for x in t.args:
                if isinstance(x, T) and go(x):
                    r = True
            memo[t] = r
        return r
    for t in ts:
        go(t)
    return {t for t, r in memo.items() if r}


def critical(ts, known=(), base=2, limit=60):
    """Valuations on and around the boundaries of the guards of `ts`."""
    have, prints, todo = set(), set(), []
    probes = [Valuation(k, regime=0) for k in range(2)]

    def fingerprint(a):
        out = []
        for v in probes:
            try:
                x, y = v(a[0]), v(a[1])
                out.append(_canon(abs(x - y)))
            except (Undef, TypeError):
                out.append("?")
        return tuple(out)
    for new, us in ((False, known), (True, ts)):
        for t in us:
            for a in atoms(t):
                if a not in have:
                    have.add(a)
                    f = fingerprint(a)
                    if f not in prints:
                        if "?" not in f:
                            prints.add(f)
                        if new:
                            todo.append((a, f if "?" not in f else a))
    tiny = mpmath.mpf(10) ** -9
    for atom, ident in todo[:limit]:
        a, b = atom[:2]
        if len(atom) == 2:
            # each guard is explored in the first few comparisons it appears in
            if EXPLORED.get(ident, 0) > 2 or TRIED.get(ident, 0) > 11:
                continue
            TRIED[ident] = TRIED.get(ident, 0) + 1
        useful = False
        consts = [mpmath.mpf(0)] + [mpmath.mpf(num(x).numerator) / num(x).denominator for x in _consts((a, b))]
        for leaf in leaves((a, b)):
            for k in range(base):
                v0 = Valuation(k, regime=0)
                try:
                    key = "sym:" + leaf.args[0] if leaf.op == "sym" else v0.uf_key(leaf)
                except (Undef, Undecided):
                    continue

                fixed = {}
                try:
                    v0(a), v0(b)
                except (Undef, Undecided):
                    pass
                moving = dependents((a, b), leaf)
                fixed = {t: x for t, x in v0.memo.items() if t not in moving}

                def gap(c):
                    v = Valuation(k, regime=0)
                    v.forced[key] = c
                    v.memo.update(fixed)
                    x, y = v(a), v(b)
                    if isinstance(x, (Obj, bool)) or isinstance(y, (Obj, bool)):
                        raise Undef("no number")
                    return x - y
                cands = []
                for c in consts:
                    cands += [c, -c]
                for x, y in ((a, b), (b, a)):
                    if x is leaf:
                        try:
                            cands.append(v0(y))
                        except (Undef, Undecided):
                            pass
                if leaf.sort == "int":
                    cands = [c + d for c in cands if isinstance(c, mpmath.mpf) for d in (-1, 0, 1)]
                    lo, hi = leaf.args[1:3] if leaf.op == "sym" else leaf.args[1] or (None, None)
                    for e in (lo, hi):
                        if isinstance(e, int):
                            cands.append(mpmath.mpf(e))
                else:
                    cands = [c + d * (abs(c) + (c == 0)) for c in cands if isinstance(c, mpmath.mpf)
                             for d in (-tiny, 0, tiny)]
                    cands += [mpmath.mpf(s) * mpmath.mpf(10) ** e for s in (1, -1) for e in (-12, -6, -3, 0, 3, 6)]
                    # where the guard flips between two candidates: its boundary
                    vals = []
                    for c in sorted(set(cands)):
                        c = _allowed(v0, leaf, c)
                        if c is None:
                            continue
                        try:
                            vals.append((c, gap(c)))
                        except (Undef, Undecided):
                            pass
                    for (c1, g1), (c2, g2) in zip(vals, vals[1:]):
                        if g1 * g2 < 0:
                            for _ in range(45):
                                m = (c1 + c2) / 2
                                try:
                                    g = gap(m)
                                except (Undef, Undecided):
                                    break
                                if g == 0 or g1 * g < 0:
                                    c2 = m
                                else:
                                    c1, g1 = m, g
                            cands += [c1 * (1 - tiny), c2, c2 * (1 + tiny)]
                seen, sides = set(), {}
                try:
                    g0 = v0(a) - v0(b)
                    sides[int(mpmath.sign(g0))] = 3
                except (Undef, TypeError):
                    pass
                for c in cands:
                    c = _allowed(v0, leaf, c)
                    if c is None or c in seen:
                        continue
                    seen.add(c)
                    if len(atom) == 2:
                        # only values that put the guard on another side
                        try:
                            side = int(mpmath.sign(gap(c)))
                        except (Undef, Undecided, TypeError):
                            continue
                        sides[side] = sides.get(side, 0) + 1
                        if sides[side] > 3:
                            continue
                    v = Valuation(k, regime=0)
                    v.forced[key] = c
                    STATS["critical"] += 1
                    yield v
                    useful |= v.used
        if useful and len(atom) == 2:
            EXPLORED[ident] = EXPLORED.get(ident, 0) + 1


def _consts(ts, limit=8):
    out, seen, todo = [], set(), list(ts)
    while todo and len(out) < limit:
        t = todo.pop()
        if not isinstance(t, T) or t in seen:
            continue
        seen.add(t)
        if is_num(t):
            out.append(t)
        todo.extend(t.args)
    return out


def precise(v, got, want):
    """Do the values still differ once cancellation is ruled out?"""
    with mpmath.workdps(400):
        u = Valuation(v.seed, v.regime)
        u.forced, u.given = dict(v.forced), dict(v.given)
        try:
            return bool(close(u(got), u(want)))
        except (Undef, TypeError):
            return False


def equal(got, want, assume=(), points=24, tries=4000, vacuous=False):
    """Do two terms have the same value wherever `assume` holds and `want` is defined?"""
    STATS["comparisons"] += 1
    got, want = term(got), term(want)
    if got is want:
        STATS["identical"] += 1
        return Verdict(True, "identical", 0, True)
    assume = [term(a) for a in assume]
    done = 0
    def valuations():
        for k in range(tries):
            if done >= points:
                break
            yield Valuation(k, regime=k % 4)
        for v in critical([got], [want]):
            yield v

    for v in valuations():
        try:
            if not all(v(a) for a in assume):
                continue
        except Undef:
            continue
        try:
            w = v(want)
        except Undef:
            continue
        done += 1
        v.used = True
        STATS["points"] += 1
        try:
            g = v(got)
        except Undef as e:
            return Verdict(False, "undefined (%s) where the required value is %s; %s"
                           % (e, _show(w), witness(v, (got, want))), done)
        same = (g == w) if isinstance(g, (Obj, bool)) or isinstance(w, (Obj, bool)) \
            else close(g, w)
        if not same and isinstance(g, mpmath.mpf) and isinstance(w, mpmath.mpf) and close(g, w, LOOSE) and \
                rounded(got) and not rounded(want):
            same = True         # a constant precomputed in floating point
        if not same and isinstance(g, mpmath.mpf) and isinstance(w, mpmath.mpf):
            same = precise(v, got, want)
        if not same:
            return Verdict(False, "computes %s, required %s, e.g. at %s"
                           % (_show(g), _show(w), witness(v, (got, want))), done)
    if done == 0 and vacuous:
        return Verdict(True, "vacuous")
    if done == 0:
        raise Undecided("no point satisfies the assumptions of a comparison")
    return Verdict(True, "agree", done)


def equal_int(got, want, assume=(), points=400, vacuous=False):
    """As equal, for guards over small integers: many points."""
    return equal(got, want, assume, points=points, tries=20 * points, vacuous=vacuous)


def implies(a, b, points=400):
    return equal_int(b, TRUE, assume=[a], points=points) if _sat(a) else Verdict(True, "vacuous")


def _sat(a, tries=4000):
    a = term(a)
    if a is TRUE:
        return True
    if a is FALSE:
        return False
    for k in range(tries):
        v = Valuation(k, regime=k % 4)
        try:
            if v(a):
                return True
        except Undef:
            pass
    for v in critical([a]):
        try:
            v.used = True
            if v(a):
                return True
        except Undef:
            pass
    return False


satisfiable = _sat


def _show(v):
    if isinstance(v, mpmath.mpf):
        return mpmath.nstr(v, 8)
    return str(v)


def witness(v, ts, limit=8):
    out = []
    for n, s in sorted(free_syms(ts).items()):
        try:
            out.append("%s=%s" % (n, _show(v(s))))
        except Undef:
            pass
        if len(out) >= limit:
            out.append("...")
            break
    return ", ".join(out)


_INFIX = {"+": " + ", "*": "*", "/": "/", "//": "//", "%": " % ", "pow": "**",
          "lt": " < ", "le": " <= ", "eq": " == ", "and": " and "}


def show(t, depth=6):
    if not isinstance(t, T):
        return str(t)
    if t.op == "const":
        if t.args[0] == "num":
            v = t.args[1]
            return str(v) if v.denominator == 1 else repr(float(v))
        return repr(t.args[1]) if t.args[0] != "inf" else ("inf" if t.args[1] > 0 else "-inf")
    if t.op == "sym":
        return t.args[0]
    if depth <= 0:
        return "..."
    if t.op == "uf":
        return "%s(%s)" % (t.args[0], ", ".join(show(a, depth - 1) for a in t.args[2:]))
    if t.op in _INFIX:
        return "(" + _INFIX[t.op].join(show(a, depth - 1) for a in t.args) + ")"
    if t.op == "not":
        return "not " + show(t.args[0], depth - 1)
    return "%s(%s)" % (t.op, ", ".join(show(a, depth - 1) for a in t.args))

"""Meaning of numpy (and scipy.special.logsumexp) on arrays of terms."""
import math

import numpy as np

from . import ops
from . import terms as tm
from .args import P
from .terms import T, Undecided
from .vals import *


def sinc(a):
    p = tm.mul(PI, a)
    return tm.ite(tm.eq(a, 0), 1, tm.div(tm.fn("sin", p), p))


PI = tm.sym("pi", kind="pi")

UN = {n: ops.unary(n) for n in ("sqrt", "exp", "log", "log1p", "expm1", "tanh", "sin", "cos", "tan",
                                "abs", "sign", "floor", "ceil", "trunc")}
UN.update({"absolute": UN["abs"], "fabs": UN["abs"], "square": ops.square, "negative": ops.neg,
           "sinc": ops.ew(sinc, 1), "positive": ops.identity, "reciprocal": lambda x: ops.div(1, x),
           "logical_not": ops.lnot, "log2": lambda x: ops.div(UN["log"](x), tm.fn("log", 2)),
           "log10": lambda x: ops.div(UN["log"](x), tm.fn("log", 10)),
           "rint": lambda x: UN["floor"](ops.add(x, tm.div(1, 2))),
           "nan_to_num": ops.identity, "real": ops.identity, "conj": ops.identity,
           "deg2rad": lambda x: ops.mul(x, tm.div(PI, 180)), "exp2": lambda x: ops.power(2, x),
           "isnan": ops.ew(lambda a: tm.FALSE, 1), "isinf": ops.ew(lambda a: tm.FALSE, 1),
           "isfinite": ops.ew(lambda a: tm.TRUE, 1)})
BIN = {"add": ops.add, "subtract": ops.sub, "multiply": ops.mul, "divide": ops.div, "true_divide": ops.div,
       "floor_divide": ops.floordiv, "mod": ops.mod, "remainder": ops.mod, "power": ops.power,
       "float_power": ops.power, "maximum": ops.maximum, "minimum": ops.minimum, "fmax": ops.maximum,
       "fmin": ops.minimum, "less": ops.lt, "less_equal": ops.le, "greater": ops.gt,
       "greater_equal": ops.ge, "equal": ops.eq, "not_equal": ops.ne, "logical_and": ops.land,
       "logical_or": ops.lor, "hypot": lambda a, b: UN["sqrt"](ops.add(ops.square(a), ops.square(b))),
       "logaddexp": lambda a, b: UN["log"](ops.add(UN["exp"](a), UN["exp"](b)))}
RED = {"sum": ops.reduce_sum, "prod": ops.reduce_prod, "product": ops.reduce_prod, "mean": ops.reduce_mean,
       "average": ops.reduce_mean, "max": ops.reduce_max, "amax": ops.reduce_max, "min": ops.reduce_min,
       "amin": ops.reduce_min, "all": ops.reduce_all, "any": ops.reduce_any, "median": ops.median,
       "nansum": ops.reduce_sum, "nanmean": ops.reduce_mean, "nanmax": ops.reduce_max, "nanmin": ops.reduce_min,
       "argmin": ops.arg("argmin"), "argmax": ops.arg("argmax"), "nanargmin": ops.arg("argmin"), "nanargmax": ops.arg("argmax"), "var": ops.variance, "std": ops.std,
       "nanvar": ops.variance, "nanstd": ops.std}
OPS = {"Add": ops.add, "Sub": ops.sub, "Mult": ops.mul, "Div": ops.div, "FloorDiv": ops.floordiv,
       "Mod": ops.mod, "Pow": ops.power, "BitAnd": ops.land, "BitOr": ops.lor}
CMP = {"Lt": ops.lt, "LtE": ops.le, "Gt": ops.gt, "GtE": ops.ge, "Eq": ops.eq, "NotEq": ops.ne}

FLOATS = ("float16", "float32", "float64", "floating", "float_", "double", "single", "longdouble", "half")
INTS = ("int8", "int16", "int32", "int64", "intp", "int_", "integer", "uint8", "uint32", "uint64")


# name: positions (names) of the arguments that are indices
MOVES = {"flip": (1, "axis"), "fliplr": (), "flipud": (), "roll": (1, 2, "shift", "axis"), "rollaxis": (1, 2), "moveaxis": (1, 2),
         "tril": (1, "k"), "triu": (1, "k"), "split": (1, 2, "indices_or_sections", "axis"),
         "array_split": (1, 2, "indices_or_sections", "axis"), "hsplit": (1,), "vsplit": (1,), "dstack": (), "block": (),
         "delete": (1, 2, "obj", "axis"), "insert": (1, 3, "obj", "axis"), "meshgrid": (), "broadcast_arrays": (),
         "take_along_axis": (1, 2, "indices", "axis"), "compress": (0, 2, "condition", "axis"), "rot90": (1, "k"),
         "resize": (1, "new_shape")}


def I_arr(I, items):
    return I.arr(ops.A(np.array(items, dtype=object)))


class NumpyMixin(object):
    def init_np(self):
        self.global_rng = None

    def np_value(self, full):
        if not full.startswith(("numpy.", "scipy.")):
            return UNBOUND
        n = full.split(".", 1)[1]
        if n == "pi":
            return PI
        if n == "e":
            return tm.fn("exp", 1)
        if n in ("inf", "Inf", "infty", "Infinity", "PINF"):
            return float("inf")
        if n == "NINF":
            return float("-inf")
        if n in ("nan", "NaN", "NAN"):
            return float("nan")
        if n == "newaxis":
            return None
        if n == "euler_gamma":
            return tm.sym("euler_gamma", kind="pos")
        return UNBOUND

    # ------------------------------------------------------------ basics

    def is_arr(self, v):
        return isinstance(v, Ref) and v.kind == "arr"

    def data(self, v):
        return self.I.get(v).data

    def to_array(self, v):
        """Object ndarray of terms of a Python value."""
        I = self.I
        if self.is_arr(v):
            d = self.data(v)
            if isinstance(d, SArr):
                raise Undecided("array of symbolic shape in an operation at %s" % I.site)
            return d
        if isinstance(v, np.ndarray):
            return ops.A(v)
        if isinstance(v, (bool, int, float, T)):
            return ops.A(v)
        if isinstance(v, Phi):
            return ops.A(I.over(v, lambda x: self.scalar(x)))
        if isinstance(v, (tuple,)) or isinstance(v, Ref) and v.kind in ("list", "deque", "set", "iter") \
                or isinstance(v, (RangeV, GenV)):
            items = I.items_of(v)
            try:
                return ops.A([self.to_array(x) for x in items])
            except ops.ShapeError:
                I.raise_("ValueError", "inhomogeneous array")
        if isinstance(v, Opq):
            if "array" in v.attrs:
                return self.to_array(v.attrs["array"])
            return ops.A(tm.term(v))
        if v is None or isinstance(v, str):
            return ops.A(tm.term(v))
        if isinstance(v, (int, float)):
            return ops.A(v)
        from .tfgraph import TNode
        if isinstance(v, TNode):
            I.raise_("NotImplementedError", "cannot convert a symbolic tensor to a numpy array")
        raise Undecided("not an array: %r at %s" % (v, I.site))

    def wrap(self, d, dtype=None, owner=None, view=False):
        """Result of a numpy operation: arrays of rank 0 become scalars."""
        if isinstance(d, np.ndarray) and d.shape == ():
            return self.I.norm(d[()])
        if not isinstance(d, (np.ndarray, SArr)):
            return self.I.norm(d)
        return self.I.arr(d, owner=owner, dtype=dtype, view=view)

    def scalar(self, v):
        if self.is_arr(v):
            d = self.data(v)
            if isinstance(d, np.ndarray) and d.size == 1:
                return self.I.norm(d.reshape(-1)[0])
            self.I.raise_("TypeError", "only length-1 arrays can be converted to scalars")
        if isinstance(v, Opq):
            return tm.term(v)
        return v

    def shp(self, f):
        try:
            return f()
        except ops.ShapeError as e:
            self.I.event("shape_error", op="numpy", why=str(e))
            self.I.raise_("ValueError", str(e))

    def opaque_like(self, data, name):
        if isinstance(data, SArr):
            return SArr(data.shape, lambda *i: tm.uf(name, *i))
        out = np.empty(data.shape, dtype=object)
        for i in np.ndindex(data.shape):
            out[i] = tm.sym("%s%s" % (name, list(i)))
        return out

    def any_sarr(self, *vs):
        return any(self.is_arr(v) and isinstance(self.data(v), SArr) for v in vs)

    def s_ew(self, f, *vs):
        """Elementwise over arrays of symbolic shape (same rank or scalars)."""
        shapes = [self.data(v).shape for v in vs if self.is_arr(v)]
        rank = max(len(s) for s in shapes)
        shape = []
        for ax in range(rank):
            dims = [s[ax - (rank - len(s))] for s in shapes if ax - (rank - len(s)) >= 0]
            big = [d for d in dims if not (isinstance(d, int) and d == 1)]
            d0 = big[0] if big else 1
            for d in big[1:]:
                if tm.term(d) is not tm.term(d0) and not tm.equal(d, d0, [tm.TRUE]):
                    raise Undecided("shapes of symbolic arrays differ")
            shape.append(d0)

        def elem(*idx):
            xs = []
            for v in vs:
                if self.is_arr(v):
                    d = self.data(v)
                    sub = idx[len(idx) - len(d.shape):]
                    sub = tuple(0 if isinstance(n, int) and n == 1 else j for n, j in zip(d.shape, sub))
                    xs.append(self.at(d, sub))
                else:
                    xs.append(tm.term(self.scalar(v)))
            return f(*xs)
        return self.I.arr(SArr(shape, elem))

    def at(self, d, idx):
        if isinstance(d, SArr):
            return d.elem(*idx)
        return d[tuple(self.intval(i) for i in idx)]

    SCAL = {"Add": tm.add, "Sub": tm.sub, "Mult": tm.mul, "Div": tm.div, "FloorDiv": tm.floordiv,
            "Mod": tm.mod, "Pow": tm.power, "Lt": tm.lt, "LtE": tm.le, "Gt": tm.gt, "GtE": tm.ge,
            "Eq": tm.eq, "NotEq": tm.ne, "BitAnd": tm.and_, "BitOr": tm.or_}

    def np_binary(self, op, a, b):
        if op == "MatMult":
            return self.wrap(self.shp(lambda: ops.matmul(self.to_array(a), self.to_array(b))))
        if a is None or b is None:
            self.I.raise_("TypeError", "None operand")
        if op not in OPS:
            raise Undecided("numpy operator " + op)
        if self.any_sarr(a, b):
            return self.s_ew(self.SCAL[op], a, b)
        x, y = self.to_array(a), self.to_array(b)
        if op == "Mult" and (isinstance(a, Ref) and a.kind == "list" or isinstance(b, Ref) and b.kind == "list"):
            pass
        return self.wrap(self.shp(lambda: OPS[op](x, y)), self.np_dtype(a, b))

    def np_dtype(self, *vs):
        ds = [self.I.get(v).dtype for v in vs if self.is_arr(v)]
        ds = [d for d in ds if d is not None]
        return ds[0] if ds and all(d == ds[0] for d in ds) else None

    def np_compare(self, op, a, b):
        if self.any_sarr(a, b):
            return self.s_ew(self.SCAL[op], a, b)
        return self.wrap(self.shp(lambda: CMP[op](self.to_array(a), self.to_array(b))), "bool")

    def np_unary(self, op, v):
        f = {"USub": (ops.neg, tm.neg), "UAdd": (ops.identity, lambda x: x), "Invert": (ops.lnot, tm.not_)}[op]
        if self.any_sarr(v):
            return self.s_ew(f[1], v)
        return self.wrap(f[0](self.to_array(v)), self.I.get(v).dtype)

    def arr_rows(self, v):
        c = self.I.get(v)
        d = c.data
        if isinstance(d, SArr):
            n = d.shape[0]
            if isinstance(n, int):
                return [self.arr_getitem(v, j) for j in range(n)]
            return GenIter(n, lambda i: self.arr_getitem(v, i))
        if d.ndim == 0:
            self.I.raise_("TypeError", "iteration over a 0-d array")
        return [self.wrap(d[j], c.dtype, c.owner, True) for j in range(d.shape[0])]

    # ------------------------------------------------------------ attributes

    def arr_attr(self, o, name):
        c = self.I.get(o)
        d = c.data
        if name == "shape":
            return tuple(self.I.norm(x) if isinstance(x, T) else int(x) for x in d.shape)
        if name == "ndim":
            return len(d.shape)
        if name == "size":
            return self.I.norm(ops.tprod([tm.term(x) for x in d.shape]))
        if name == "T":
            if isinstance(d, SArr):
                if len(d.shape) < 2:
                    return o
                return self.I.arr(SArr(d.shape[::-1], lambda *i: d.elem(*i[::-1])), c.owner, c.dtype, True)
            return self.I.arr(np.transpose(d), c.owner, c.dtype, True)
        if name == "dtype":
            return Lib("numpy." + (self.dtname(c.dtype) or "float64"))
        if name == "base":
            return None
        if name == "flat":
            return self.I.list_(list(d.flat))
        if name == "real":
            return o
        if name in dir(np.ndarray):
            return BuiltinM(o, name)
        self.I.raise_("AttributeError", "ndarray has no attribute " + name)

    # ------------------------------------------------------------ indexing

    def norm_key(self, k):
        return k if isinstance(k, tuple) else (k,)

    def arr_getitem(self, o, k):
        I = self.I
        c = I.get(o)
        if isinstance(c.data, SArr):
            return self.s_getitem(o, c, k)
        d = c.data
        key = []
        view = True
        ks = self.norm_key(k)
        symb = []
        for kk in ks:
            if kk is None or kk is Ellipsis:
                key.append(kk)
            elif isinstance(kk, Slice):
                if all(x is None or self.isint(x) for x in (kk.start, kk.stop, kk.step)):
                    key.append(self.pyslice(kk))
                else:
                    return self.s_getitem(o, ArrC(self.as_sarr(d), c.owner, c.dtype, c.view), k)
            elif isinstance(kk, (int, T)) and self.isint(kk):
                key.append(self.intval(kk))
            elif isinstance(kk, T) and kk.sort in ("int", "real"):
                key.append(0)
                symb.append((len(key) - 1, kk))
            elif self.is_arr(kk) or isinstance(kk, Ref) and kk.kind in ("list",) or isinstance(kk, (tuple, RangeV)):
                if self.is_arr(kk) and isinstance(self.data(kk), SArr):
                    return self.s_getitem(o, ArrC(self.as_sarr(d), c.owner, c.dtype, c.view), k)
                a = self.to_array(kk)
                view = False
                if self.is_arr(kk) and a.ndim == 1 and any(x.sort != "bool" and not self.isint(x) for x in a.flat):
                    return self.s_getitem(o, ArrC(self.as_sarr(d), c.owner, c.dtype, c.view), k)
                if all(x.sort == "bool" for x in a.flat) and a.size:
                    vals = [I.norm(x) for x in a.flat]
                    if not all(isinstance(x, bool) for x in vals):
                        raise Undecided("mask of unknown values")
                    key.append(np.array(vals, dtype=bool).reshape(a.shape))
                else:
                    key.append(np.array([self.intval(x) for x in a.flat], dtype=int).reshape(a.shape))
            elif isinstance(kk, bool):
                raise Undecided("boolean scalar index")
            elif isinstance(kk, str) or isinstance(kk, float):
                I.raise_("IndexError", "only integers, slices ... are valid indices")
            else:
                raise Undecided("index %r" % (kk,))
        try:
            if symb:
                if len(symb) > 1 or any(isinstance(x, np.ndarray) for x in key):
                    raise Undecided("several symbolic indices")
                pos, t = symb[0]
                if any(x is None or x is Ellipsis for x in key[:pos]):
                    raise Undecided("symbolic index after a new axis")
                axis = pos
                n = d.shape[axis]
                out = None
                full = list(key)
                full[pos] = slice(None)
                sub = d[tuple(full[:pos] + [slice(None)] + full[pos + 1:])]
                ax = sum(1 for x in full[:pos] if isinstance(x, slice))
                return self.wrap(ops.select_index(sub, t, axis=ax), c.dtype)
            r = d[tuple(key)]
        except IndexError as e:
            I.raise_("IndexError", str(e))
        if not isinstance(r, np.ndarray):
            return I.norm(r)
        return self.wrap(r, c.dtype, c.owner if view else None, view)

    def as_sarr(self, d):
        return SArr(d.shape, lambda *i: tm._mk("select", (self.flat_index(i, d.shape),) + tuple(d.flat), "real"))

    def flat_index(self, i, shape):
        r = tm.const(0)
        for j, n in zip(i, shape):
            r = tm.add(tm.mul(r, n), j)
        return r

    def sdim(self, lo, hi):
        d = tm.fn("max", tm.sub(hi, lo), 0)
        return self.I.norm(d)

    def s_getitem(self, o, c, k):
        I = self.I
        d = c.data
        ks = list(self.norm_key(k))
        if Ellipsis in [x for x in ks if not isinstance(x, (T, Ref, Slice))]:
            j = ks.index(Ellipsis)
            n = len(d.shape) - sum(1 for x in ks if x is not None and x is not Ellipsis)
            ks[j:j + 1] = [Slice(None, None, None)] * n
        shape, plan = [], []
        ax = 0
        view = True
        for kk in ks:
            if kk is None:
                plan.append(("new", None))
                shape.append(1)
                continue
            if ax >= len(d.shape):
                I.raise_("IndexError", "too many indices for array")
            n = d.shape[ax]
            ax += 1
            if isinstance(kk, Slice):
                st = 1 if kk.step is None else kk.step
                if isinstance(st, int) and st == -1 and kk.start is None and kk.stop is None:
                    plan.append(("map", lambda j, n=n: tm.sub(tm.sub(n, 1), j)))
                    shape.append(n)
                    continue
                lo = 0 if kk.start is None else tm.fn("min", self.wrap_index(kk.start, n), n)
                hi = n if kk.stop is None else tm.fn("min", self.wrap_index(kk.stop, n), n)
                if not (isinstance(st, int) and st == 1):
                    if not (isinstance(st, int) and st > 0):
                        raise Undecided("symbolic step")
                    shape.append(I.norm(tm.fn("max", 0, tm.floordiv(tm.add(tm.sub(hi, lo), st - 1), st))))
                else:
                    shape.append(n if kk.start is None and kk.stop is None else self.sdim(lo, hi))
                plan.append(("map", lambda j, lo=lo, st=st: tm.add(lo, tm.mul(st, j))))
            elif isinstance(kk, (int, T)):
                i = self.wrap_index(kk, n)
                plan.append(("fix", i))
            elif self.is_arr(kk) or isinstance(kk, Ref) and kk.kind == "list" or isinstance(kk, RangeV):
                view = False
                if isinstance(kk, RangeV):
                    shape.append(self.length(kk))
                    plan.append(("map", lambda j, r=kk: tm.add(r.start, tm.mul(r.step, j))))
                    continue
                if isinstance(kk, Ref) and kk.kind == "list":
                    lc = I.get(kk)
                    if isinstance(lc.items, SymSeq):
                        ia = SArr((self.length(kk),), lc.items.elem)
                    else:
                        ia = self.to_array(kk)
                else:
                    ia = self.data(kk)
                if len(ia.shape) != 1:
                    raise Undecided("multi-dimensional index array")
                shape.append(ia.shape[0])
                if isinstance(ia, SArr):
                    plan.append(("map", lambda j, ia=ia, n=n: self.wrap_index(ia.elem(j), n)))
                else:
                    plan.append(("map", lambda j, ia=ia: tm._mk("select", (tm.term(j),) + tuple(ia.flat), "int")))
            else:
                raise Undecided("index %r of a symbolic array" % (kk,))
        for n in d.shape[ax:]:
            plan.append(("map", lambda j: j))
            shape.append(n)

        def elem(*idx):
            out, p = [], 0
            for kind, f in plan:
                if kind == "new":
                    p += 1
                elif kind == "fix":
                    out.append(tm.term(f))
                else:
                    out.append(tm.term(f(tm.term(idx[p]))))
                    p += 1
            return self.at(d, out)
        if not shape:
            return I.norm(elem())
        return I.arr(SArr(shape, elem), c.owner if view else None, c.dtype, view)

    def arr_setitem(self, o, k, v):
        I = self.I
        c = I.get(o)
        d = c.data
        if isinstance(d, SArr):
            tag = "mut%d.%d" % (o.oid, len(I.events))
            self.mutate(o, SArr(d.shape, lambda *i: tm.uf(tag, *i)), "item assignment")
            return
        new = d.copy()
        key = []
        for kk in self.norm_key(k):
            if isinstance(kk, Slice):
                key.append(self.pyslice(kk))
            elif kk is None or kk is Ellipsis:
                key.append(kk)
            elif self.is_arr(kk) or isinstance(kk, Ref) and kk.kind == "list" or isinstance(kk, tuple):
                a = self.to_array(kk)
                if a.size and all(x.sort == "bool" for x in a.flat):
                    # masked assignment
                    if len(self.norm_key(k)) == 1 and a.shape == d.shape:
                        val = self.shp(lambda: np.broadcast_to(self.to_array(v), d.shape))
                        for i in np.ndindex(d.shape):
                            new[i] = tm.ite(a[i], val[i], d[i])
                        self.mutate(o, new, "masked assignment")
                        return
                    raise Undecided("mask")
                key.append(np.array([self.intval(x) for x in a.flat], dtype=int).reshape(a.shape))
            elif self.isint(kk):
                key.append(self.intval(kk))
            elif isinstance(kk, T) and len(self.norm_key(k)) == 1:
                val = self.to_array(v)
                for j in range(d.shape[0]):
                    for i in np.ndindex(d.shape[1:]):
                        x = val[i] if val.shape == d.shape[1:] else val.reshape(-1)[0]
                        new[(j,) + i] = tm.ite(tm.or_(tm.eq(kk, j), tm.eq(kk, j - d.shape[0])), x, d[(j,) + i])
                self.mutate(o, new, "item assignment")
                return
            else:
                raise Undecided("assignment index")
        val = self.to_array(v)
        try:
            new[tuple(key)] = val if val.shape != () else val[()]
        except (ValueError, IndexError) as e:
            I.raise_("ValueError" if isinstance(e, ValueError) else "IndexError", str(e))
        self.mutate(o, new, "item assignment")

    def is_external(self, c):
        return isinstance(c.owner, tuple) and c.owner[0] == "ext"

    def mutate(self, ref, newdata, how):
        I = self.I
        c = I.get(ref)
        I.event("mutate", owner=c.owner, how=how, ref=ref)
        I.put(ref, ArrC(newdata, c.owner, c.dtype, c.view))
        # other handles on the same buffer no longer have a known content
        for oid, x in list(I.heap.items()):
            if oid != ref.oid and isinstance(x, ArrC) and x.owner == c.owner:
                I.heap[oid] = ArrC(self.opaque_like(x.data, "stale%d" % len(I.events)), x.owner, x.dtype, x.view)

    def mutate_array(self, ref, newref, why):
        if self.is_arr(newref):
            d = self.data(newref)
        else:
            d = self.to_array(newref)
        c = self.I.get(ref)
        if isinstance(d, np.ndarray) and isinstance(c.data, np.ndarray) and d.shape != c.data.shape:
            self.I.raise_("ValueError", "non-broadcastable output operand")
        self.mutate(ref, d, why)

    # ------------------------------------------------------------ methods

    def arr_method(self, o, name, a, k):
        I = self.I
        c = I.get(o)
        d = c.data
        if name in ("copy", "__copy__", "__deepcopy__"):
            return I.arr(d, dtype=c.dtype)
        if name == "__len__":
            return self.length(o)
        if name == "__iter__":
            return self.make_iter(o)
        if name == "__getitem__":
            return self.arr_getitem(o, a[0])
        if name == "astype":
            dt = self.dtname(a[0] if a else k.get("dtype"))
            return I.arr(self.convert(d, dt), dtype=dt)
        if name == "view":
            return o
        if name in ("reshape", "ravel", "flatten"):
            if name == "reshape":
                shape = a[0] if len(a) == 1 else tuple(a)
                if "newshape" in k:
                    shape = k["newshape"]
                shape = [shape] if isinstance(shape, (int, T)) else I.items_of(shape)
            else:
                shape = [-1]
            return self.np_reshape(o, c, shape, copy=name == "flatten")
        if name == "squeeze":
            if isinstance(d, SArr):
                return self.s_squeeze(o, c, P(a, k, "axis=None").axis)
            return self.wrap(self.shp(lambda: ops.squeeze(d, P(a, k, "axis=None").axis)), c.dtype, c.owner, True)
        if name in ("transpose", "swapaxes"):
            if isinstance(d, SArr):
                return self.arr_attr(o, "T")
            if name == "swapaxes":
                return I.arr(np.swapaxes(d, *a), c.owner, c.dtype, True)
            return I.arr(np.transpose(d, *[tuple(I.items_of(x)) if not isinstance(x, int) else x for x in a]), c.owner, c.dtype, True)
        if name == "tolist":
            def tl(x):
                if not isinstance(x, np.ndarray):
                    return I.norm(x)
                if x.ndim == 0:
                    return I.norm(x[()])
                return I.list_([tl(y) for y in x])
            if isinstance(d, SArr):
                return Opq("tolist", attrs={"of": o})
            return tl(d)
        if name == "item":
            if a:
                return I.norm(d.reshape(-1)[self.intval(a[0])])
            return self.scalar(o)
        if name == "fill":
            self.mutate(o, ops.full(d.shape, tm.term(self.scalar(a[0]))), "fill")
            return None
        if name == "sort":
            self.mutate(o, ops.sort(d), "sort")
            return None
        if name in ("dot",):
            return self.call_np("numpy.dot", [o] + a, k)
        if name in ("take",):
            return self.call_np("numpy.take", [o] + a, k)
        if name in RED:
            return self.call_np("numpy." + name, [o] + a, k)
        if name == "clip":
            return self.call_np("numpy.clip", [o] + a, k)
        if name in ("repeat", "nonzero", "cumsum", "argsort", "round", "cumprod", "diagonal", "trace"):
            return self.call_np("numpy." + name, [o] + a, k)
        if name in ("setflags",):
            return None
        raise Undecided("array method %s at %s" % (name, I.site))

    def dtname(self, v):
        if v is None:
            return None
        if isinstance(v, str):
            v = v.lstrip("<>=|")
            return {"f4": "float32", "f": "float32", "single": "float32", "f2": "float16", "e": "float16", "f8": "float64", "d": "float64",
                    "float": "float64", "double": "float64", "i4": "int32", "i8": "int64", "i": "int32", "int": "int64", "l": "int64",
                    "?": "bool", "O": "object"}.get(v, v)
        if isinstance(v, DType):
            return v.base().name
        if isinstance(v, Lib):
            n = v.name.split(".")[-1]
            return {"float": "float64", "double": "float64", "int": "int64", "bool_": "bool", "float_": "float64", "single": "float32",
                    "half": "float16", "intp": "int64", "int_": "int64"}.get(n, n)
        return None

    def np_reshape(self, o, c, shape, copy=False):
        I = self.I
        d = c.data
        owner = None if copy else c.owner
        if isinstance(d, SArr):
            shape = [I.norm(x) if isinstance(x, T) else x for x in shape]
            old = [x for x in d.shape if not (isinstance(x, int) and x == 1)]
            new = [x for x in shape if not (isinstance(x, int) and x == 1)]
            if len(old) <= 1 and len(new) <= 1:
                n = old[0] if old else 1
                if new and not (isinstance(new[0], int) and new[0] == -1) and \
                        tm.term(new[0]) is not tm.term(n):
                    if not tm.equal_int(new[0], n, self.assumed(), vacuous=True):
                        I.raise_("ValueError", "cannot reshape")
                pos_old = [i for i, x in enumerate(d.shape) if not (isinstance(x, int) and x == 1)]
                pos_new = [i for i, x in enumerate(shape) if not (isinstance(x, int) and x == 1)]

                def elem(*idx):
                    j = idx[pos_new[0]] if pos_new else 0
                    full = [tm.const(0)] * len(d.shape)
                    if pos_old:
                        full[pos_old[0]] = j
                    return d.elem(*full)
                sh = [n if isinstance(x, int) and x == -1 or i in pos_new else x for i, x in enumerate(shape)]
                return I.arr(SArr(sh, elem), owner, c.dtype, not copy)
            if len(old) == len(new) and all(tm.term(x) is tm.term(y) or isinstance(y, int) and y == -1
                                            for x, y in zip(old, new)) and len(d.shape) == len(shape):
                return I.arr(d, owner, c.dtype, not copy)
            total = 1
            for x in d.shape:
                total = tm.mul(total, x)
            unknown = [i for i, x in enumerate(shape) if isinstance(x, int) and x == -1]
            known = 1
            for i, x in enumerate(shape):
                if i not in unknown:
                    known = tm.mul(known, x)
            if len(unknown) > 1:
                I.raise_("ValueError", "can only specify one unknown dimension")
            sh = list(shape)
            if unknown:
                if not tm.equal_int(known, 1, self.assumed(), vacuous=True):
                    raise Undecided("reshape of a symbolic array")
                sh[unknown[0]] = I.norm(total)
            elif not tm.equal_int(known, total, self.assumed(), vacuous=True):
                I.raise_("ValueError", "cannot reshape")
            old_shape = tuple(d.shape)

            def elem(*idx):
                flat = self.flat_index(idx, sh)
                out = []
                for n in reversed(old_shape[1:]):
                    out.append(tm.mod(flat, n))
                    flat = tm.floordiv(flat, n)
                return d.elem(*([flat] + out[::-1])) if old_shape else d.elem()
            return I.arr(SArr(sh, elem), owner, c.dtype, not copy)
        return I.arr(self.shp(lambda: ops.reshape(d, [self.intval(x) for x in shape])), owner, c.dtype, not copy)

    def assumed(self):
        return list(self.I.pc) + list(getattr(self.I, "assume", ()))

    def s_squeeze(self, o, c, axis):
        d = c.data
        keep = [i for i, n in enumerate(d.shape) if not (isinstance(n, int) and n == 1)]
        if axis is not None:
            ax = axis % len(d.shape)
            keep = [i for i in range(len(d.shape)) if i != ax]

        def elem(*idx):
            full = [tm.const(0)] * len(d.shape)
            for i, j in zip(keep, idx):
                full[i] = j
            return d.elem(*full)
        return self.I.arr(SArr([d.shape[i] for i in keep], elem), c.owner, c.dtype, True)

    # ------------------------------------------------------------ functions

    def axis_of(self, v):
        if v is None:
            return None
        if isinstance(v, tuple) or isinstance(v, Ref) and v.kind == "list":
            return tuple(self.intval(x) for x in self.I.items_of(v))
        return self.intval(v)

    def call_np(self, name, a, k):
        I = self.I
        n = name.split(".", 1)[1]
        if name.startswith("numpy.random."):
            return self.call_random(n[7:], a, k)
        if name.startswith("scipy."):
            last = name.split(".")[-1]
            if last == "logsumexp":
                p = P(a, k, "a axis=None b=None keepdims=False")
                x = self.to_array(p.a)
                e = UN["exp"](x)
                if p.b is not None:
                    e = ops.mul(e, self.to_array(p.b))
                return self.wrap(self.shp(lambda: UN["log"](ops.reduce_sum(e, self.axis_of(p.axis), p.keepdims))))
            if last in ("pdist", "squareform", "norm") or True:
                raise Undecided("library function %s at %s" % (name, I.site))
        if n.startswith("linalg."):
            if n == "linalg.norm":
                p = P(a, k, "x ord=None axis=None keepdims=False")
                if p.ord not in (None, 2):
                    raise Undecided("norm order")
                return self.wrap(self.shp(lambda: ops.norm(self.to_array(p.x), self.axis_of(p.axis), p.keepdims)))
            raise Undecided("library function " + name)
        if n in UN:
            p = P(a, k, "x out=None", ignore=("dtype",))
            if p.out is not None:
                out = p.out[0] if isinstance(p.out, tuple) else p.out
                self.mutate_array(out, self.s_ew(lambda t: UN[n](ops.A(t))[()], p.x) if self.any_sarr(p.x) else
                                  self.wrap(UN[n](self.to_array(p.x))), "out=")
                return out
            if self.any_sarr(p.x):
                return self.s_ew(lambda t: UN[n](ops.A(t))[()], p.x)
            r = UN[n](self.to_array(p.x))
            if r.shape == () and n in ("ceil", "floor", "trunc", "sqrt"):
                # floats in numpy; keep integral value usable through int()
                return I.norm(r[()]) if not isinstance(I.norm(r[()]), int) else tm._mk("const", r[()].args, "real")
            return self.wrap(r, None)
        if n in BIN:
            p = P(a, k, "x y out=None", ignore=("dtype", "casting"))
            if self.any_sarr(p.x, p.y):
                r = self.s_ew(lambda s, t: BIN[n](ops.A(s), ops.A(t))[()], p.x, p.y)
                if p.out is not None:
                    out = p.out[0] if isinstance(p.out, tuple) else p.out
                    self.mutate_array(out, r, "out=")
                    return out
                return r
            r = self.shp(lambda: BIN[n](self.to_array(p.x), self.to_array(p.y)))
            if p.out is not None:
                out = p.out[0] if isinstance(p.out, tuple) else p.out
                self.mutate_array(out, self.wrap(r), "out=")
                return out
            return self.wrap(r)
        if n in RED:
            sp = "x axis=None keepdims=False ddof=0" if n in ("var", "std", "nanvar", "nanstd") else "x axis=None keepdims=False"
            if n == "average":
                sp = "x axis=None weights=None keepdims=False"
            kk = dict(k)
            if len(a) > 2:
                raise Undecided("positional reduction arguments")
            p = P(a, kk, sp + " out=None", ignore=("dtype", "initial"))
            if self.any_sarr(p.x):
                return self.s_reduce(n, p)
            x = self.to_array(p.x)
            if n == "average" and p.weights is not None:
                w = self.to_array(p.weights)
                ax = self.axis_of(p.axis)
                if w.shape != x.shape and ax is not None and w.ndim == 1:
                    sh = [1] * x.ndim
                    sh[ax] = -1
                    w = w.reshape(sh)
                w = self.shp(lambda: np.broadcast_to(w, x.shape))
                return self.wrap(ops.div(ops.reduce_sum(ops.mul(x, w), ax), ops.reduce_sum(w, ax)))
            if x.size == 0 and n in ("max", "min", "amax", "amin", "argmin", "argmax", "nanargmin", "nanargmax"):
                I.raise_("ValueError", "zero-size array")
            if n in ("argmin", "argmax", "nanargmin", "nanargmax"):
                return self.wrap(self.shp(lambda: RED[n](x, self.axis_of(p.axis))))
            f = RED[n]
            if "ddof" in sp:
                r = self.shp(lambda: f(x, self.axis_of(p.axis), p.keepdims, p.ddof))
            else:
                r = self.shp(lambda: f(x, self.axis_of(p.axis), bool(p.keepdims)))
            if k.get("dtype") is not None and n not in ("all", "any"):
                r = self.convert(r, self.dtname(k["dtype"]))
            if p.out is not None:
                self.mutate_array(p.out, self.wrap(r), "out=")
                return p.out
            return self.wrap(r)
        if n in MOVES:
            return self.np_moves(n, a, k)
        n = {"around": "round", "round_": "round", "asanyarray": "asarray", "ascontiguousarray": "asarray", "identity": "eye"}.get(n, n)
        m = getattr(self, "np_" + {"reshape": "reshape_", "dtype": "dtype_"}.get(n, n.replace(".", "_")), None)
        if m is not None:
            return self.shp(lambda: m(a, k))
        if n in FLOATS + ("float128",):
            v = a[0]
            if self.is_arr(v):
                return self.asarray(v, n if n in ("float16", "float32") else "float64")
            v = self.f_builtins_float([v], {})
            return self.convert1(v, n) if isinstance(v, T) else v
        if n in INTS:
            return self.f_builtins_int(a, k)
        if n in ("bool_",):
            return I.truth(a[0])
        if n in ("errstate", "printoptions"):
            return Opq("np." + n, "scope")
        if n in ("seterr", "set_printoptions", "seterrcall", "testing"):
            return I.dict_()
        raise Undecided("library function %s at %s" % (name, I.site))

    def s_reduce(self, n, p):
        """Reductions of arrays of symbolic shape along the first axis: opaque folds."""
        d = self.data(p.x)
        ax = self.axis_of(p.axis)
        j = tm.sym("@red", "int")

        def fold(*rest):
            return tm.uf("reduce_" + n, d.shape[0], d.elem(j, *rest))
        if ax == 0 and len(d.shape) == 1 or ax is None and len(d.shape) == 1:
            return fold()
        if ax == 0:
            if all(isinstance(x, int) for x in d.shape[1:]):
                out = np.empty(tuple(d.shape[1:]), dtype=object)
                for i in np.ndindex(out.shape):
                    out[i] = fold(*[tm.const(int(x)) for x in i])
                return self.I.arr(out)
        raise Undecided("reduction of a symbolic array")

    def np_array(self, a, k):
        p = P(a, k, "object dtype=None copy=True ndmin=0", ignore=("order", "subok"))
        return self.asarray(p.object, p.dtype, copy=p.copy is not False, ndmin=p.ndmin)

    def convert(self, d, dt):
        """The elements as the given type holds them."""
        if isinstance(d, SArr):
            return SArr(d.shape, lambda *i: self.convert1(tm.term(d.elem(*i)), dt))
        return ops.ew(lambda t: self.convert1(t, dt), 1)(d)

    def convert1(self, t, dt):
        if not dt or t.sort not in ("real", "int", "bool"):
            return t
        if dt.startswith(("int", "uint")):
            return t if t.sort in ("int", "bool") else tm.fn("trunc", t)
        if dt == "bool":
            return t if t.sort == "bool" else tm.not_(tm.eq(t, 0))
        if dt in ("float32", "float16") and self.I.narrow and t.sort == "real":
            return tm.fn("narrow", t)
        return t

    def asarray(self, v, dtype=None, copy=False, ndmin=0):
        I = self.I
        dt = self.dtname(dtype)
        if isinstance(v, Phi):
            return I.over(v, lambda x: self.asarray(x, dtype, copy, ndmin))
        if self.is_arr(v):
            c = I.get(v)
            if not copy and (dt is None or dt == (c.dtype or "float64")):
                return v
            if dt and dt != (c.dtype or "float64") and not isinstance(c.data, SArr):
                d = self.convert(c.data, dt)
                if not all(x is y for x, y in zip(d.flat, c.data.flat)):
                    return I.arr(d, dtype=dt)
            if not copy:
                # may or may not copy: treat as an alias
                return I.arr(c.data, c.owner, dt, True)
            return I.arr(self.convert(c.data, dt) if dt else c.data, dtype=dt or c.dtype)
        if isinstance(v, Lazy) or isinstance(v, Ref) and v.kind in ("dict",):
            raise Undecided("array of an iterator")
        if isinstance(v, Ref) and v.kind == "list":
            lc = I.get(v)
            if isinstance(lc.items, SymSeq) and not lc.items.tail:
                s = lc.items
                return I.arr(SArr((self.length(v),), lambda i: tm.term(self.scalar(s.elem(i)))))
        if isinstance(v, RangeV) and not isinstance(self.length(v), int):
            return I.arr(SArr((self.length(v),), lambda i: tm.add(v.start, tm.mul(v.step, i))), dtype="int64")
        if isinstance(v, (list,)):
            v = I.list_(v)
        if isinstance(v, Opq) and "array" not in v.attrs:
            return Opq("array(%s)" % v.name, attrs=dict(v.attrs), methods=v.methods, iter_=v.iter_)
        # list of symbolic-shaped arrays of the same shape
        if isinstance(v, Ref) and v.kind == "list":
            items = I.items_of(v)
            if items and any(self.any_sarr(x) for x in items):
                ds = [self.data(x) for x in items]
                n = len(items)

                def elem(i, *rest):
                    if isinstance(i, T) and not tm.is_num(i):
                        out = ds[-1].elem(*rest)
                        for j in reversed(range(n - 1)):
                            out = tm.ite(tm.eq(i, j), ds[j].elem(*rest), out)
                        return out
                    return ds[self.intval(i)].elem(*rest)
                return I.arr(SArr((n,) + tuple(ds[0].shape), elem))
        d = self.to_array(v)
        if isinstance(ndmin, int) and d.ndim < ndmin:
            d = d.reshape((1,) * (ndmin - d.ndim) + d.shape)
        return I.arr(self.convert(d, dt), dtype=dt)

    def np_asarray(self, a, k):
        p = P(a, k, "a dtype=None", ignore=("order",))
        return self.asarray(p.a, p.dtype)

    np_asanyarray = np_ascontiguousarray = np_asfortranarray = np_require = np_asarray

    def np_asarray_chkfinite(self, a, k):
        return self.np_asarray(a, k)

    def np_round(self, a, k):
        p = P(a, k, "a decimals=0 out=None")
        d = self.to_array(p.a)
        nd = self.intval(p.decimals)
        q = 10 ** abs(nd)
        f = UN["rint"]
        r = f(d) if nd == 0 else ops.div(f(ops.mul(d, q)), q) if nd > 0 else ops.mul(f(ops.div(d, q)), q)
        return self.wrap(r, self.I.get(p.a).dtype if self.is_arr(p.a) else None)

    def np_copy(self, a, k):
        return self.asarray(a[0], None, copy=True)

    def np_atleast_1d(self, a, k):
        r = self.asarray(a[0])
        d = self.data(r)
        if len(d.shape) == 0:
            return self.I.arr(d.reshape(1))
        return r

    def np_atleast_2d(self, a, k):
        r = self.asarray(a[0])
        c = self.I.get(r)
        if len(c.data.shape) >= 2:
            return r
        return self.np_reshape(r, c, [1, -1])

    def np_zeros(self, a, k):
        p = P(a, k, "shape dtype=None", ignore=("order",))
        return self.filled(p.shape, 0, p.dtype)

    def np_ones(self, a, k):
        p = P(a, k, "shape dtype=None", ignore=("order",))
        return self.filled(p.shape, 1, p.dtype)

    def np_empty(self, a, k):
        p = P(a, k, "shape dtype=None", ignore=("order",))
        return self.filled(p.shape, self.I.fresh("uninit"), p.dtype)

    def np_full(self, a, k):
        p = P(a, k, "shape fill_value dtype=None", ignore=("order",))
        return self.filled(p.shape, self.scalar(p.fill_value), p.dtype)

    def filled(self, shape, v, dtype=None):
        dims = [shape] if isinstance(shape, (int, T)) else self.I.items_of(shape)
        if all(self.isint(x) for x in dims):
            return self.I.arr(ops.full([self.intval(x) for x in dims], v), dtype=self.dtname(dtype))
        return self.I.arr(SArr(dims, lambda *i: tm.term(v)), dtype=self.dtname(dtype))

    def like(self, v, x):
        d = self.data(self.asarray(v))
        return self.I.arr(SArr(d.shape, lambda *i: tm.term(x)) if isinstance(d, SArr) else ops.full(d.shape, x))

    def np_zeros_like(self, a, k):
        return self.like(a[0], 0)

    def np_ones_like(self, a, k):
        return self.like(a[0], 1)

    def np_empty_like(self, a, k):
        return self.like(a[0], self.I.fresh("uninit"))

    def np_full_like(self, a, k):
        return self.like(a[0], self.scalar(a[1]))

    def np_eye(self, a, k):
        n = self.intval(a[0])
        d = ops.full((n, n), 0)
        for i in range(n):
            d[i, i] = tm.const(1)
        return self.I.arr(d)

    np_identity = np_eye

    def np_arange(self, a, k):
        a = [self.scalar(x) for x in a]
        k = {kk: v for kk, v in k.items() if kk != "dtype"}
        if k:
            p = P(a, k, "start stop=None step=1")
            a = [0, p.start, p.step] if p.stop is None else [p.start, p.stop, p.step]
        r = RangeV(0, a[0], 1) if len(a) == 1 else RangeV(a[0], a[1], a[2] if len(a) > 2 else 1)
        n = self.length(r)
        if isinstance(n, int):
            return self.I.arr(ops.A([tm.add(r.start, tm.mul(r.step, i)) for i in range(n)]) if n else
                              np.empty((0,), dtype=object), dtype="int64")
        return self.I.arr(SArr((n,), lambda i: tm.add(r.start, tm.mul(r.step, i))), dtype="int64")

    def np_linspace(self, a, k):
        p = P(a, k, "start stop num=50 endpoint=True", ignore=("dtype",))
        n = self.intval(p.num)
        m = n - 1 if p.endpoint else n
        return self.I.arr(ops.A([tm.add(p.start, tm.mul(tm.div(tm.sub(p.stop, p.start), max(m, 1)), i)) for i in range(n)]))

    def np_append(self, a, k):
        p = P(a, k, "arr values axis=None")
        x, y = self.asarray(p.arr), self.asarray(p.values)
        if p.axis is None:
            x, y = self.np_reshape(x, self.I.get(x), [-1]), self.np_reshape(y, self.I.get(y), [-1])
        return self.np_concatenate([self.I.list_([x, y]), p.axis or 0], {})

    def np_concatenate(self, a, k):
        p = P(a, k, "arrays axis=0")
        xs = [self.asarray(x) for x in self.I.items_of(p.arrays)]
        ax = self.axis_of(p.axis)
        if ax is None:
            xs = [self.np_reshape(x, self.I.get(x), [-1]) for x in xs]
            ax = 0
        if self.any_sarr(*xs):
            ds = [self.data(x) for x in xs]
            r = len(ds[0].shape)
            if any(len(d.shape) != r for d in ds):
                self.I.raise_("ValueError", "all the input array dimensions must match")
            ax = ax % r
            offs = [tm.const(0)]
            for d in ds:
                offs.append(tm.add(offs[-1], d.shape[ax]))

            def elem(*idx):
                out = None
                for d, o in reversed(list(zip(ds, offs))):
                    j = list(idx)
                    j[ax] = tm.sub(idx[ax], o)
                    e = self.at_any(d, j)
                    out = e if out is None else tm.ite(tm.lt(idx[ax], tm.add(o, d.shape[ax])), e, out)
                return out
            shape = list(ds[0].shape)
            shape[ax] = self.I.norm(offs[-1])
            return self.I.arr(SArr(shape, elem))
        return self.I.arr(ops.concat([self.data(x) for x in xs], ax))

    def at_any(self, d, idx):
        if isinstance(d, SArr):
            return d.elem(*idx)
        return self.as_sarr(d).elem(*idx)

    def np_vstack(self, a, k):
        xs = [self.data(self.np_atleast_2d([x], {})) for x in self.I.items_of(a[0])]
        return self.I.arr(ops.concat(xs, 0))

    def np_hstack(self, a, k):
        xs = [self.data(self.np_atleast_1d([x], {})) for x in self.I.items_of(a[0])]
        return self.I.arr(ops.concat(xs, 0 if xs[0].ndim == 1 else 1))

    def np_column_stack(self, a, k):
        xs = [self.to_array(x) for x in self.I.items_of(a[0])]
        xs = [x.reshape(-1, 1) if x.ndim == 1 else x for x in xs]
        return self.I.arr(ops.concat(xs, 1))

    def np_stack(self, a, k):
        p = P(a, k, "arrays axis=0")
        return self.I.arr(ops.stack([self.to_array(x) for x in self.I.items_of(p.arrays)], self.intval(p.axis)))

    def np_expand_dims(self, a, k):
        p = P(a, k, "a axis")
        r = self.asarray(p.a)
        c = self.I.get(r)
        if isinstance(c.data, SArr):
            ax = self.intval(p.axis) % (len(c.data.shape) + 1)
            return self.s_getitem(r, c, tuple([Slice(None, None, None)] * ax + [None]))
        return self.I.arr(ops.expand_dims(c.data, self.intval(p.axis)), c.owner, c.dtype, True)

    def np_reshape_(self, a, k):
        p = P(a, k, "a newshape", ignore=("order",))
        r = self.asarray(p.a)
        sh = [p.newshape] if isinstance(p.newshape, (int, T)) else self.I.items_of(p.newshape)
        return self.np_reshape(r, self.I.get(r), sh)

    def np_ravel(self, a, k):
        r = self.asarray(a[0])
        return self.np_reshape(r, self.I.get(r), [-1])

    def np_squeeze(self, a, k):
        return self.arr_method(self.asarray(a[0]), "squeeze", a[1:], k)

    def np_transpose(self, a, k):
        r = self.asarray(a[0])
        return self.arr_method(r, "transpose", a[1:], {})

    def np_dot(self, a, k):
        return self.wrap(ops.dot(self.to_array(a[0]), self.to_array(a[1])))

    def np_matmul(self, a, k):
        return self.wrap(ops.matmul(self.to_array(a[0]), self.to_array(a[1])))

    def np_inner(self, a, k):
        return self.wrap(ops.reduce_sum(ops.mul(self.to_array(a[0]), self.to_array(a[1])), -1))

    def np_outer(self, a, k):
        x, y = self.to_array(a[0]).reshape(-1), self.to_array(a[1]).reshape(-1)
        return self.wrap(ops.mul(x.reshape(-1, 1), y.reshape(1, -1)))

    def np_einsum(self, a, k):
        return self.wrap(ops.einsum(a[0], *[self.to_array(x) for x in a[1:]]))

    def np_clip(self, a, k):
        p = P(a, k, "a a_min=None a_max=None out=None min=None max=None")
        x = self.to_array(p.a)
        lo = p.a_min if p.a_min is not None else p.min
        hi = p.a_max if p.a_max is not None else p.max
        if lo is not None:
            x = ops.maximum(x, self.to_array(lo))
        if hi is not None:
            x = ops.minimum(x, self.to_array(hi))
        return self.wrap(x)

    def np_where(self, a, k):
        if len(a) == 1:
            raise Undecided("np.where of one argument")
        c = self.to_array(a[0])
        c = ops.ew(lambda t: t if t.sort == "bool" else tm.ne(t, 0), 1)(c)
        return self.wrap(ops.where(c, self.to_array(a[1]), self.to_array(a[2])))

    def np_take(self, a, k):
        p = P(a, k, "a indices axis=None", ignore=("mode",))
        r = self.asarray(p.a)
        if p.axis is None and len(self.data(r).shape) != 1:
            raise Undecided("np.take without an axis")
        ax = 0 if p.axis is None else self.intval(p.axis)
        key = tuple([Slice(None, None, None)] * ax + [p.indices])
        v = self.arr_getitem(r, key)
        if self.is_arr(v):
            c = self.I.get(v)
            return self.I.arr(c.data, dtype=c.dtype)
        return v

    def np_moves(self, n, a, k):
        """Functions that only move elements: applied to the arrays of values."""
        I = self.I

        def plain(v, index=False):
            if isinstance(v, (Ref, tuple)) and not self.is_arr(v):
                return [plain(x, index) for x in I.items_of(v)]
            if self.is_arr(v):
                d = self.to_array(v)
                if index:
                    return np.array([self.intval(x) for x in d.flat], dtype=int).reshape(d.shape)
                return d
            if isinstance(v, T):
                c = I.norm(v)
                return c if not isinstance(c, T) else v
            return v
        which = MOVES[n]
        args = [plain(v, i in which) for i, v in enumerate(a)]
        kw = {x: plain(v, x in which) for x, v in k.items()}

        def back(r):
            if isinstance(r, (list, tuple)):
                xs = [back(x) for x in r]
                return tuple(xs) if isinstance(r, tuple) else I.list_(xs)
            return self.wrap(ops.A(np.array(r, dtype=object)))
        return back(self.shp(lambda: getattr(np, n)(*args, **kw)))

    def np_argsort(self, a, k):
        """Stable order; the position of an element is the number of elements that come before it."""
        p = P(a, k, "a axis=-1", ignore=("kind", "order", "stable"))
        x = self.to_array(p.a)
        if x.ndim != 1:
            raise Undecided("argsort")
        n = x.shape[0]
        rank = []
        for i in range(n):
            r = tm.const(0)
            for j in range(n):
                if j != i:
                    before = tm.le(x[j], x[i]) if j < i else tm.lt(x[j], x[i])
                    r = tm.add(r, tm.ite(before, tm.const(1), tm.const(0)))
            rank.append(r)
        out = []
        for q in range(n):
            t = tm.const(0)
            for i in range(n):
                t = tm.add(t, tm.ite(tm.eq(rank[i], tm.const(q)), tm.const(i), tm.const(0)))
            out.append(t)
        return I_arr(self.I, out)

    def np_count_nonzero(self, a, k):
        p = P(a, k, "a axis=None keepdims=False")
        x = ops.ew(lambda t: tm.ite(t if t.sort == "bool" else tm.ne(t, 0), tm.const(1), tm.const(0)), 1)(self.to_array(p.a))
        return self.wrap(ops.reduce_sum(x, self.axis_of(p.axis), bool(p.keepdims)))

    def np_ptp(self, a, k):
        p = P(a, k, "a axis=None keepdims=False")
        x, ax = self.to_array(p.a), self.axis_of(p.axis)
        return self.wrap(ops.sub(ops.reduce_max(x, ax, bool(p.keepdims)), ops.reduce_min(x, ax, bool(p.keepdims))))

    def np_diff(self, a, k):
        p = P(a, k, "a n=1 axis=-1")
        if p.n != 1:
            raise Undecided("np.diff")
        x = self.to_array(p.a)
        ax = self.intval(p.axis) % x.ndim
        m = x.shape[ax]
        return self.wrap(ops.sub(np.take(x, range(1, m), ax), np.take(x, range(m - 1), ax)))

    def np_percentile(self, a, k, scale=100):
        p = P(a, k, "a q axis=None keepdims=False")
        q = self.I.norm(tm.term(p.q))
        if isinstance(q, T) and not tm.is_num(q) or float(tm.num(q) if isinstance(q, T) else q) != scale / 2.:
            raise Undecided("percentile")
        return self.wrap(ops.median(self.to_array(p.a), self.axis_of(p.axis), bool(p.keepdims)))

    def np_quantile(self, a, k):
        return self.np_percentile(a, k, 1)

    def np_cumsum(self, a, k):
        x = self.to_array(a[0])
        if x.ndim != 1:
            raise Undecided("cumsum")
        out, s = [], tm.const(0)
        for t in x:
            s = tm.add(s, t)
            out.append(s)
        return self.I.arr(ops.A(out))

    def np_triu_indices(self, a, k):
        p = P(a, k, "n k=0")
        r = np.triu_indices(self.intval(p.n), self.intval(p.k))
        return tuple(self.I.arr(ops.A([int(x) for x in y])) for y in r)

    def np_tril_indices(self, a, k):
        p = P(a, k, "n k=0")
        r = np.tril_indices(self.intval(p.n), self.intval(p.k))
        return tuple(self.I.arr(ops.A([int(x) for x in y])) for y in r)

    def np_sort(self, a, k):
        return self.I.arr(ops.sort(self.to_array(a[0]), k.get("axis", -1)))

    def np_diag(self, a, k):
        x = self.to_array(a[0])
        if x.ndim == 2:
            return self.I.arr(ops.A([x[i, i] for i in range(min(x.shape))]))
        n = x.shape[0]
        d = ops.full((n, n), 0)
        for i in range(n):
            d[i, i] = x[i]
        return self.I.arr(d)

    def np_fill_diagonal(self, a, k):
        d = self.to_array(a[0]).copy()
        for i in range(min(d.shape)):
            d[i, i] = tm.term(self.scalar(a[1]))
        self.mutate(a[0], d, "fill_diagonal")

    def np_tile(self, a, k):
        return self.I.arr(ops.tile(self.to_array(a[0]), a[1] if isinstance(a[1], int) else tuple(self.I.items_of(a[1]))))

    def np_repeat(self, a, k):
        p = P(a, k, "a repeats axis=None")
        return self.I.arr(np.repeat(self.to_array(p.a), self.intval(p.repeats), axis=self.axis_of(p.axis)))

    def np_broadcast_to(self, a, k):
        return self.I.arr(np.broadcast_to(self.to_array(a[0]), tuple(self.intval(x) for x in self.I.items_of(a[1]))).copy())

    def np_shape(self, a, k):
        return self.arr_attr(self.asarray(a[0]), "shape")

    def np_ndim(self, a, k):
        if isinstance(a[0], (int, float, T)):
            return 0
        return len(self.data(self.asarray(a[0])).shape)

    def np_size(self, a, k):
        return self.arr_attr(self.asarray(a[0]), "size")

    def np_isscalar(self, a, k):
        return isinstance(a[0], (int, float, str)) or isinstance(a[0], T) and a[0].sort != "obj"

    def np_array_equal(self, a, k):
        x, y = self.to_array(a[0]), self.to_array(a[1])
        if x.shape != y.shape:
            return False
        return self.I.norm(tm.and_(*[tm.eq(s, t) for s, t in zip(x.flat, y.flat)]))

    def np_allclose(self, a, k):
        return self.np_array_equal(a[:2], {})

    def np_issubdtype(self, a, k):
        x, y = self.dtname(a[0]), self.dtname(a[1])
        if y in ("floating", "inexact", "float64"):
            return (x or "float64").startswith("float")
        if y in ("integer", "int64"):
            return (x or "float64").startswith(("int", "uint"))
        if y == "number":
            return x != "bool"
        raise Undecided("issubdtype")

    def np_dtype_(self, a, k):
        return a[0]

    def np_copyto(self, a, k):
        self.mutate_array(a[0], a[1], "copyto")

    def np_apply_along_axis(self, a, k):
        f, ax, x = a[0], self.intval(a[1]), self.to_array(a[2])
        y = np.moveaxis(x, ax, -1)
        rows = [self.I.call(f, [self.I.arr(y[i])], {}) for i in np.ndindex(y.shape[:-1])]
        out = ops.A([self.to_array(r) for r in rows])
        return self.I.arr(out.reshape(y.shape[:-1] + out.shape[1:]))

    def np_vectorize(self, a, k):
        f = a[0]

        def call(I, b, kk):
            x = self.to_array(b[0])
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(x.shape):
                out[i] = tm.term(I.call(f, [I.norm(x[i])] + b[1:], kk))
            return self.wrap(out)
        return Native("vectorize", call)

    def np_nonzero(self, a, k):
        d = self.to_array(a[0])
        hit = [self.I.norm(self.I.truth(x)) if isinstance(x, T) else bool(x) for x in d.flat]
        if not all(isinstance(h, bool) for h in hit):
            raise Undecided("nonzero")
        r = np.nonzero(np.array(hit, dtype=bool).reshape(d.shape))
        return tuple(self.I.arr(ops.A([int(x) for x in y])) for y in r)

    def np_flatnonzero(self, a, k):
        return self.np_nonzero([self.I.arr(self.to_array(a[0]).reshape(-1))], {})[0]

    def np_unique(self, a, k):
        raise Undecided("unique")

    def np_finfo(self, a, k):
        n = self.dtname(a[0])
        return Opq("finfo", attrs={"eps": tm.const(2.220446049250313e-16 if n != "float32" else 1.1920929e-07),
                                   "tiny": tm.const(2.2250738585072014e-308),
                                   "max": tm.const(1.7976931348623157e+308)})

    def np_iinfo(self, a, k):
        n = self.dtname(a[0]) or "int64"
        b = int("".join(c for c in n if c.isdigit()) or 64)
        u = n.startswith("uint")
        return Opq("iinfo", attrs={"max": 2 ** b - 1 if u else 2 ** (b - 1) - 1, "min": 0 if u else -2 ** (b - 1)})

    # ------------------------------------------------------------ randomness

    def call_random(self, n, a, k):
        I = self.I
        if n in ("RandomState", "default_rng", "Generator"):
            p = P(a, k, "seed=None")
            flav = "RandomState" if n == "RandomState" else "Generator"
            if isinstance(p.seed, Ref) and p.seed.kind == "rng":
                return p.seed
            return I.alloc(RngC(self.seed_state(p.seed, flav), flav), "rng")
        if n == "seed":
            I.event("global_effect", what="numpy.random.seed") if not any(
                e.kind == "global_effect" and e.site == I.site for e in I.events[-1:]) else None
            self.global_rng = None
            self.rng_seeded = True
            g = self.get_global_rng()
            I.put(g, RngC(self.seed_state(a[0] if a else None, "RandomState"), "RandomState"))
            return None
        if n in ("SeedSequence", "PCG64", "MT19937", "Philox"):
            return Opq("seedseq", attrs={"seed": a[0] if a else None})
        g = self.get_global_rng()
        I.event("global_rng", what="numpy.random." + n)
        if n in ("get_state",):
            return I.get(g).state
        if n in ("set_state",):
            I.put(g, RngC(a[0], "RandomState"))
            return None
        return self.rng_method(g, n, a, k)

    def get_global_rng(self):
        if self.global_rng is None:
            self.global_rng = self.I.alloc(RngC(tm.sym("entropy:global", "obj"), "RandomState"), "rng")
        return self.global_rng

    def seed_state(self, seed, flav):
        if isinstance(seed, Opq) and "seed" in seed.attrs:
            return self.seed_state(seed.attrs["seed"], flav)
        if seed is None:
            return self.I.fresh("entropy", "obj")
        if isinstance(seed, (float, str, bytes)) or isinstance(seed, T) and seed.sort == "real":
            self.I.raise_("TypeError", "cannot seed a generator with %r" % (seed,))
        if isinstance(seed, (int, T)):
            ok = self.I.norm(tm.and_(tm.le(0, seed), tm.lt(seed, 2 ** 32)))
            if flav == "RandomState" and ok is not True:
                self.I.branch(tm.term(ok), lambda: None,
                              lambda: self.I.raise_("ValueError", "seed must be between 0 and 2**32 - 1"))
            return tm.uf("seeded", tm.const(flav), seed, sort="obj")
        if isinstance(seed, tuple) or isinstance(seed, Ref) and seed.kind in ("list",):
            return tm.uf("seeded", tm.const(flav), *[tm.term(x) for x in self.I.items_of(seed)], sort="obj")
        raise Undecided("seed %r" % (seed,))

    def rng_method(self, o, name, a, k):
        I = self.I
        c = I.get(o)
        st = c.state

        def advance(tag, *args):
            I.put(o, RngC(tm.uf("next:" + tag, st, *[tm.term(x) for x in args], sort="obj"), c.flavour))
        if name == "seed":
            I.put(o, RngC(self.seed_state(a[0] if a else k.get("seed"), c.flavour), c.flavour))
            return None
        if name == "get_state":
            return st
        if name == "set_state":
            I.put(o, RngC(a[0], c.flavour))
            return None
        if name in ("randint", "integers", "random_integers"):
            p = P(a, k, "low high=None size=None", ignore=("dtype", "endpoint"))
            lo, hi = p.low, p.high
            if hi is None:
                lo, hi = 0, lo
            lo, hi = self.scalar(lo), self.scalar(hi)
            if name == "random_integers" or k.get("endpoint"):
                hi = tm.add(hi, 1)
            top = I.norm(tm.sub(hi, 1))

            def draw(*idx):
                return tm.uf("draw:randint", st, lo, hi, *idx, sort="int", kind=(lo, top))
            dims = self.size_of(p.size)
            advance("randint", lo, hi, *(dims or ()))
            I.event("draw", low=lo, high=hi, rng=o, value=draw() if dims is None else None)
            bad = tm.le(hi, lo)
            nb = I.norm(bad)
            if nb is True:
                I.raise_("ValueError", "low >= high")
            return self.draws(draw, dims)
        if name in ("rand", "random", "random_sample", "ranf", "uniform", "randn", "normal", "standard_normal",
                    "exponential", "beta", "gamma", "laplace"):
            dist = {"rand": "uniform", "random": "uniform", "random_sample": "uniform", "ranf": "uniform",
                    "randn": "normal", "standard_normal": "normal"}.get(name, name)
            if name in ("rand", "randn"):
                dims = tuple(a) if a else None
                par = []
            elif name in ("random", "random_sample", "ranf", "standard_normal"):
                dims = self.size_of(a[0] if a else k.get("size"))
                par = []
            else:
                pp = P(a, k, "loc=None scale=None size=None low=None high=None")
                if name == "uniform":   # uniform(low=0.0, high=1.0), read positionally as loc, scale
                    lo, hi = (pp.low if pp.loc is None else pp.loc), (pp.high if pp.scale is None else pp.scale)
                    par = [] if lo is None and hi is None else [0 if lo is None else lo, 1 if hi is None else hi]
                else:
                    par = [x for x in (pp.loc, pp.scale, pp.low, pp.high) if x is not None]
                dims = self.size_of(pp.size)

            def draw(*idx):
                u = tm.uf("draw:" + dist, st, *idx, kind="half" if dist == "uniform" else None)
                if dist == "uniform" and len(par) == 2:
                    return tm.add(par[0], tm.mul(tm.sub(par[1], par[0]), u))
                if dist == "normal" and par:
                    return tm.add(par[0], tm.mul(par[1] if len(par) > 1 else 1, u))
                return u
            advance(dist, *(dims or ()))
            return self.draws(draw, dims)
        if name == "permutation":
            x = a[0]
            if isinstance(x, (int, T)):
                n = x
                base = None
            else:
                x = self.asarray(x)
                base = self.data(x)
                n = base.shape[0]
            perm = self.perm(st, n)
            advance("permute", n)
            if base is None:
                if isinstance(n, int):
                    return I.arr(ops.A([perm(i) for i in range(n)]), dtype="int64")
                return I.arr(SArr((n,), perm), dtype="int64")
            return I.arr(SArr(base.shape, lambda i, *r: self.at_any(base, [perm(i)] + list(r))))
        if name == "shuffle":
            x = a[0]
            if self.is_arr(x):
                base = self.data(x)
                n = base.shape[0]
                perm = self.perm(st, n)
                advance("permute", n)
                if isinstance(base, SArr):
                    new = SArr(base.shape, lambda i, *r: base.elem(perm(i), *r))
                else:
                    s = self.as_sarr(base)
                    new = np.empty(base.shape, dtype=object)
                    for i in np.ndindex(base.shape):
                        new[i] = s.elem(perm(i[0]), *[tm.const(int(j)) for j in i[1:]])
                self.mutate(x, new, "shuffle")
                return None
            if isinstance(x, Ref) and x.kind == "list":
                lc = I.get(x)
                n = self.length(x)
                perm = self.perm(st, n)
                advance("permute", n)
                I.event("list_write", ref=x)
                if isinstance(lc.items, SymSeq):
                    el = lc.items.elem
                    I.put(x, ListC(SymSeq(n, lambda i: el(perm(i))), lc.maxlen))
                else:
                    items = list(lc.items)
                    I.put(x, ListC(tuple(self.select_item(items, perm(i)) for i in range(n)), lc.maxlen))
                return None
        if name == "choice":
            p = P(a, k, "a size=None replace=True p=None")
            if p.p is not None:
                raise Undecided("choice with probabilities")
            n = p.a if isinstance(p.a, (int, T)) else self.length(p.a)
            dims = self.size_of(p.size)
            if p.replace is False:
                pf = self.perm(st, n)
                if dims is None or len(dims) != 1:
                    raise Undecided("choice")
                advance("permute", n)
                pick = lambda *i: pf(i[0])
            else:
                pick = lambda *i: tm.uf("draw:randint", st, 0, n, *i, sort="int", kind=(0, I.norm(tm.sub(n, 1))))
                advance("randint", 0, n, *(dims or ()))
            if not isinstance(p.a, (int, T)):
                src = self.asarray(p.a)
                return self.arr_getitem(src, self.draws(pick, dims))
            return self.draws(pick, dims)
        raise Undecided("random method %s" % name)

    def size_of(self, s):
        if s is None:
            return None
        if isinstance(s, (int, T)):
            return (s,)
        return tuple(self.I.items_of(s))

    def draws(self, draw, dims):
        if dims is None:
            return draw()
        if all(isinstance(d, int) for d in dims):
            out = np.empty(dims, dtype=object)
            for i in np.ndindex(dims):
                out[i] = draw(*[tm.const(int(j)) for j in i])
            return self.I.arr(out)
        return self.I.arr(SArr(dims, draw))

    def perm(self, st, n):
        """Permutation of range(n) drawn in state st."""
        return lambda i: tm._mk("perm", (tm.term(st), tm.term(n), tm.term(i)), "int")

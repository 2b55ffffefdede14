"""Mathematical meaning of array operations, on object arrays of terms."""
import functools
import itertools

import numpy as np

from . import terms as tm
from .terms import T, Undecided


def A(x):
    """Object array of terms."""
    if isinstance(x, np.ndarray):
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(x.shape):
            out[i] = x[i] if isinstance(x[i], T) else tm.term(x[i])
        return out
    if isinstance(x, (list, tuple)):
        parts = [A(e) for e in x]
        if not parts:
            return np.empty((0,), dtype=object)
        shp = parts[0].shape
        if any(p.shape != shp for p in parts):
            raise ShapeError("ragged array")
        out = np.empty((len(parts),) + shp, dtype=object)
        for k, p in enumerate(parts):
            out[k] = p[()] if p.ndim == 0 else p
        return out
    out = np.empty((), dtype=object)
    out[()] = tm.term(x)
    return out


class ShapeError(Exception):
    pass


def ew(f, n):
    """Elementwise with broadcasting."""
    uf = np.frompyfunc(f, n, 1)

    def g(*xs):
        try:
            r = uf(*[A(x) for x in xs])
        except ValueError as e:
            raise ShapeError(str(e))
        return r if isinstance(r, np.ndarray) else A(r)
    return g


add = ew(tm.add, 2)
sub = ew(tm.sub, 2)
mul = ew(tm.mul, 2)
div = ew(tm.div, 2)
floordiv = ew(tm.floordiv, 2)
mod = ew(tm.mod, 2)
power = ew(tm.power, 2)
neg = ew(tm.neg, 1)
maximum = ew(lambda a, b: tm.fn("max", a, b), 2)
minimum = ew(lambda a, b: tm.fn("min", a, b), 2)
lt = ew(tm.lt, 2)
le = ew(tm.le, 2)
gt = ew(tm.gt, 2)
ge = ew(tm.ge, 2)
eq = ew(tm.eq, 2)
ne = ew(tm.ne, 2)
lnot = ew(tm.not_, 1)
land = ew(lambda a, b: tm.and_(a, b), 2)
lor = ew(lambda a, b: tm.or_(a, b), 2)
square = ew(lambda a: tm.mul(a, a), 1)
where = ew(tm.ite, 3)
identity = ew(lambda a: a, 1)


def unary(name):
    return ew(lambda a: tm.fn(name, a), 1)


def sigmoid(x):
    return ew(lambda a: tm.div(1, tm.add(1, tm.fn("exp", tm.neg(a)))), 1)(x)


def relu(x):
    return maximum(x, 0)


def squared_difference(a, b):
    return square(sub(a, b))


def axes(axis, ndim):
    if axis is None:
        return tuple(range(ndim))
    if isinstance(axis, int):
        axis = (axis,)
    for a in axis:
        if not -ndim <= a < ndim:
            raise ShapeError("axis %r out of range" % (a,))
    return tuple(sorted(a % ndim for a in axis))


def reduce_(f, x, axis=None, keepdims=False):
    x = A(x)
    ax = axes(axis, x.ndim)
    rest = [i for i in range(x.ndim) if i not in ax]
    y = np.transpose(x, rest + list(ax))
    shp = tuple(x.shape[i] for i in rest)
    out = np.empty(shp, dtype=object)
    for i in np.ndindex(shp):
        v = y[i]
        out[i] = f(list(v.flat) if isinstance(v, np.ndarray) else [v])
    if keepdims:
        out = out.reshape(tuple(1 if i in ax else x.shape[i] for i in range(x.ndim)))
    return out


def tsum(xs):
    return functools.reduce(tm.add, xs, tm.const(0))


def tprod(xs):
    return functools.reduce(tm.mul, xs, tm.const(1))


def reduce_sum(x, axis=None, keepdims=False):
    return reduce_(tsum, x, axis, keepdims)


def reduce_prod(x, axis=None, keepdims=False):
    return reduce_(tprod, x, axis, keepdims)


def reduce_mean(x, axis=None, keepdims=False):
    return reduce_(lambda v: tm.div(tsum(v), len(v)), x, axis, keepdims)


def reduce_max(x, axis=None, keepdims=False):
    return reduce_(lambda v: tm.fn("max", *v), x, axis, keepdims)


def reduce_min(x, axis=None, keepdims=False):
    return reduce_(lambda v: tm.fn("min", *v), x, axis, keepdims)


def reduce_all(x, axis=None, keepdims=False):
    return reduce_(lambda v: tm.and_(*v), x, axis, keepdims)


def reduce_any(x, axis=None, keepdims=False):
    return reduce_(lambda v: tm.or_(*v), x, axis, keepdims)


def logsumexp(x, axis=None, keepdims=False):
    return reduce_(lambda v: tm.fn("log", tsum([tm.fn("exp", e) for e in v])), x, axis, keepdims)


def variance(x, axis=None, keepdims=False, ddof=0):
    def f(v):
        m = tm.div(tsum(v), len(v))
        return tm.div(tsum([tm.power(tm.sub(e, m), 2) for e in v]), len(v) - ddof)
    return reduce_(f, x, axis, keepdims)


def std(x, axis=None, keepdims=False, ddof=0):
    return unary("sqrt")(variance(x, axis, keepdims, ddof))


def arg(name):
    def g(x, axis=None):
        return reduce_(lambda v: tm.fn(name, *v), x, axis)
    return g


def median(x, axis=None, keepdims=False):
    def f(v):
        n = len(v)
        a = kth(n // 2, v)
        if n % 2:
            return a
        return tm.div(tm.add(a, kth(n // 2 - 1, v)), 2)
    return reduce_(f, x, axis, keepdims)


def kth(k, v):
    """k-th largest."""
    v = sorted(v, key=lambda t: t.id)
    if len(v) == 1:
        return v[0]
    return tm._mk("kth", (tm.const(k),) + tuple(v), "real")


def matmul(a, b, transpose_a=False, transpose_b=False):
    a, b = A(a), A(b)
    if transpose_a:
        a = np.swapaxes(a, -1, -2)
    if transpose_b:
        b = np.swapaxes(b, -1, -2)
    if a.ndim == 0 or b.ndim == 0:
        raise ShapeError("matmul of scalars")
    try:
        r = np.matmul(a, b)
    except ValueError as e:
        raise ShapeError(str(e))
    return A(r)


def dot(a, b):
    a, b = A(a), A(b)
    if a.ndim == 0 or b.ndim == 0:
        return mul(a, b)
    try:
        return A(np.dot(a, b))
    except ValueError as e:
        raise ShapeError(str(e))


def norm(x, axis=None, keepdims=False):
    return reduce_(lambda v: tm.fn("sqrt", tsum([tm.mul(e, e) for e in v])), x, axis, keepdims)


def reshape(x, shape):
    x = A(x)
    if isinstance(shape, int):
        shape = (shape,)
    if any(int(s) < -1 for s in shape):
        raise ShapeError("negative size in %r" % (shape,))
    try:
        return x.reshape(tuple(int(s) for s in shape))
    except ValueError as e:
        raise ShapeError(str(e))


def expand_dims(x, axis):
    return np.expand_dims(A(x), axis)


def squeeze(x, axis=None):
    try:
        return A(np.squeeze(A(x), axis=axis if axis is None or isinstance(axis, int) else tuple(axis)))
    except ValueError as e:
        raise ShapeError(str(e))


def transpose(x, perm=None):
    return np.transpose(A(x), perm)


def concat(xs, axis=0):
    try:
        return np.concatenate([A(x) for x in xs], axis=axis)
    except ValueError as e:
        raise ShapeError(str(e))


def stack(xs, axis=0):
    try:
        return np.stack([A(x) for x in xs], axis=axis)
    except ValueError as e:
        raise ShapeError(str(e))


def tile(x, reps):
    return np.tile(A(x), reps)


def clip(x, lo, hi):
    return minimum(maximum(x, lo), hi)


def full(shape, v):
    out = np.empty(tuple(int(s) for s in shape), dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = tm.term(v)
    return out


def top_k(x, k):
    x = A(x)
    rows = x.reshape(-1, x.shape[-1])
    out = np.empty((rows.shape[0], k), dtype=object)
    for r in range(rows.shape[0]):
        for j in range(k):
            out[r, j] = kth(j, list(rows[r]))
    return out.reshape(x.shape[:-1] + (k,))


def sort(x, axis=-1, descending=False):
    x = A(x)
    y = np.moveaxis(x, axis, -1)
    n = y.shape[-1]
    out = np.empty(y.shape, dtype=object)
    for i in np.ndindex(y.shape[:-1]):
        for j in range(n):
            out[i + (j,)] = kth(j if descending else n - 1 - j, list(y[i]))
    return np.moveaxis(out, -1, axis)


def dynamic_stitch(indices, data):
    idx = [np.asarray(i, dtype=int) for i in indices]
    n = max([int(i.max()) + 1 for i in idx if i.size] or [0])
    rest = None
    vals = {}
    for i, d in zip(idx, data):
        d = A(d)
        r = d.shape[i.ndim:]
        if rest is None:
            rest = r
        if d.shape[:i.ndim] != i.shape or r != rest:
            raise ShapeError("dynamic_stitch")
        for j in np.ndindex(i.shape):
            vals[int(i[j])] = d[j]
    out = np.empty((n,) + (rest or ()), dtype=object)
    for k in range(n):
        if k in vals:
            out[k] = vals[k]
        else:
            out[k] = A(full(rest or (), tm.sym("uninitialised[%d]" % k)))
    return out


def einsum(spec, *xs):
    ins, out = spec.replace(" ", "").split("->") if "->" in spec else (spec, None)
    ins = ins.split(",")
    if out is None:
        import collections
        cnt = collections.Counter("".join(ins))
        out = "".join(sorted(c for c in cnt if cnt[c] == 1))
    xs = [A(x) for x in xs]
    dims = {}
    for s, x in zip(ins, xs):
        if len(s) != x.ndim:
            raise ShapeError("einsum")
        for c, n in zip(s, x.shape):
            if dims.setdefault(c, n) != n:
                raise ShapeError("einsum")
    inner = [c for c in dims if c not in out]
    res = np.empty(tuple(dims[c] for c in out), dtype=object)
    for o in np.ndindex(res.shape):
        env = dict(zip(out, o))
        terms = []
        for k in itertools.product(*[range(dims[c]) for c in inner]):
            env.update(zip(inner, k))
            terms.append(tprod([x[tuple(env[c] for c in s)] for s, x in zip(ins, xs)]))
        res[o] = tsum(terms)
    return res


def select_index(x, idx, axis=0):
    """x[idx] for symbolic integer idx."""
    x = np.moveaxis(A(x), axis, 0)
    out = np.empty(x.shape[1:], dtype=object)
    for j in np.ndindex(out.shape):
        out[j] = tm._mk("select", (tm.term(idx),) + tuple(x[(k,) + j] for k in range(x.shape[0])),
                        "real")
    return out

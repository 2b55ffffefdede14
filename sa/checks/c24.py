"""C24: pdist, squareform and median agree with their definitions."""
from ..tensors import *

EXPLANATION = ("pdist, squareform and median are interpreted for tensors of one to six rows with free elements; every"
               " element of the result is compared with the distance, its position or the order statistic it stands for.")
FLOOR = 150
ANCHORS = [MOD + "pdist", MOD + "squareform", MOD + "median"]


def dist(d, i, j):
    t = tm.const(0)
    for k in range(d.shape[1]):
        e = tm.sub(d[i, k], d[j, k])
        t = tm.add(t, tm.mul(e, e))
    return tm.fn("sqrt", t)


def distances(ctx, m, n, kind="tensor"):
    c = Case(ctx)
    t, d = getattr(c, kind)("t", (m, n))
    where = "pdist of %s (%d, %d)" % (kind, m, n)
    got = c.value(ctx.must(c.call(MOD + "pdist", t)))
    want = [dist(d, i, j) for i in range(m) for j in range(i + 1, m)]
    arrays_equal(ctx, "condensed-distances", got, np.array(want, dtype=object), where)
    v = ctx.must(c.call(MOD + "squareform", ctx.must(c.call(MOD + "pdist", t))))
    got = c.value(v)
    want = np.empty((m, m), dtype=object)
    for i in range(m):
        for j in range(m):
            want[i, j] = tm.const(0) if i == j else dist(d, min(i, j), max(i, j))
    arrays_equal(ctx, "distance-matrix", got, want, where)


def square(ctx, m):
    c = Case(ctx)
    n = m * (m - 1) // 2
    t, d = c.tensor("t", (n,))
    where = "squareform of %d" % n
    v = ctx.must(c.call(MOD + "squareform", t))
    got = c.value(v)
    want = ops.full((m, m), 0)
    k = 0
    for i in range(m):
        for j in range(i + 1, m):
            want[i, j] = want[j, i] = d[k]
            k += 1
    arrays_equal(ctx, "symmetric-zero-diagonal", got, want, where)
    ctx.ob("dtype-is-kept", v.dtype is t.dtype, repr(v.dtype), where)


def empty(ctx, dtype):
    c = Case(ctx)
    t = c.I.graph.node("const", [], lambda: ops.full((0,), 0), dtype=DType(dtype), shape=(0,))
    v = ctx.must(c.call(MOD + "squareform", t))
    arrays_equal(ctx, "symmetric-zero-diagonal", c.value(v), ops.full((1, 1), 0), "squareform of 0")
    ctx.ob("dtype-is-kept", v.dtype is t.dtype, repr(v.dtype), "squareform of 0 " + dtype)


def types(ctx, dtype):
    """Results have the type of the argument, for every size."""
    c = Case(ctx)
    for m, n in ((1, 1), (1, 3), (2, 1), (3, 2), (4, 1)):
        t, _ = c.tensor("t%d_%d" % (m, n), (m, n), dtype)
        v = ctx.must(c.call(MOD + "pdist", t))
        where = "%s (%d, %d)" % (dtype, m, n)
        ctx.ob("dtype-is-kept", v.dtype is t.dtype, "pdist gives %r" % (v.dtype,), where)
        w = ctx.must(c.call(MOD + "squareform", v))
        ctx.ob("dtype-is-kept", w.dtype is t.dtype, "squareform gives %r" % (w.dtype,), where)
        u = ctx.must(c.call(MOD + "median", t))
        ctx.ob("dtype-is-kept", u.dtype is t.dtype, "median gives %r" % (u.dtype,), where)


def middle(ctx, shape):
    c = Case(ctx)
    t, d = c.tensor("t", shape)
    v = ctx.must(c.call(MOD + "median", t))
    got = c.value(v)
    ctx.ob("scalar", got.shape == (), repr(got.shape), "median %s" % (shape,))
    if got.shape == ():
        ctx.eq("middle-of-the-order", got[()], ops.median(d)[()], (), 40, "median %s" % (shape,))


def refused(ctx):
    c = Case(ctx)
    I = c.I
    bad = [("array", I.arr(ops.full((2, 2), 1))), ("list", I.list_([1.0])), ("None", None)]
    for what, v in bad:
        c.refused("pdist-refuses", c.call(MOD + "pdist", v), ("AssertionError",), what)
        c.refused("squareform-refuses", c.call(MOD + "squareform", v), ("AssertionError",), what)
    for shape in ((3,), (2, 2, 2), ()):
        t, _ = c.tensor("t", shape)
        c.refused("pdist-refuses-rank", c.call(MOD + "pdist", t), ("ValueError",), "rank %d" % len(shape))
    t, _ = c.tensor("t", (2, 2))
    c.refused("squareform-refuses-matrix", c.call(MOD + "squareform", t), ("NotImplementedError",), "matrix")
    for m in ("cityblock", "cosine", "", "sqeuclidean"):
        c.refused("unknown-metric-refused", c.call(MOD + "pdist", t, metric=m), ("NotImplementedError",), m)
    for n in (2, 4, 5, 7, 8, 9, 11, 14):
        t, _ = c.tensor("t%d" % n, (n,))
        c.refused("incompatible-size-refused", c.call(MOD + "squareform", t), ("ValueError",), "%d elements" % n)


def run(ctx):
    for m, n in ((2, 1), (2, 2), (3, 2), (4, 3), (5, 1), (5, 3)) + (((6, 2), (7, 4), (1, 2)) if ctx.thorough else ()):
        ctx.scenario("distances %d %d" % (m, n), distances, ctx, m, n)
    ctx.scenario("distances of a variable", distances, ctx, 3, 2, "variable")
    for m in (2, 3, 4, 5, 6) + ((7, 8, 9) if ctx.thorough else ()):
        ctx.scenario("square %d" % m, square, ctx, m)
    for dt in ("float64", "float32"):
        ctx.scenario("square 0 " + dt, empty, ctx, dt)
        ctx.scenario("types " + dt, types, ctx, dt)
    for s in ((1,), (2,), (3,), (4,), (5,), (6,), (2, 2), (3, 3), (2, 2, 2), (1, 1)):
        ctx.scenario("median %s" % (s,), middle, ctx, s)
    ctx.scenario("refused", refused, ctx)
    for n in sizes(["tensor_utils.py"], 5, 40):
        ctx.scenario("distances %d 1" % n, distances, ctx, n, 1)
        ctx.scenario("distances 2 %d" % n, distances, ctx, 2, n)
        ctx.scenario("square %d" % n, square, ctx, n)
    for n in sizes(["tensor_utils.py"], 41, 2000):
        ctx.scenario("distances 2 %d" % n, distances, ctx, 2, n)
        ctx.scenario("median (%d,)" % n, middle, ctx, (n,))

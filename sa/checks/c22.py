"""C22: vectorize gives the column of all elements, and unvectorize inverts it."""
from ..tensors import *

EXPLANATION = ("vectorize and unvectorize are interpreted for tensors and variables of every rank from 0 to 4 with free"
               " elements; the resulting value graphs are compared element by element.")
FLOOR = 60
ANCHORS = [MOD + "vectorize", MOD + "unvectorize"]
SHAPES = [(), (1,), (3,), (1, 1), (2, 3), (3, 1), (1, 4), (2, 2, 2), (1, 3, 2), (2, 1, 1, 3)]


def roundtrip(ctx, shape, kind, dtype="float64"):
    c = Case(ctx)
    where = "%s of shape %s%s" % (kind, shape, "" if dtype == "float64" else " " + dtype)
    t, d = getattr(c, kind)("t", shape, dtype)
    v = ctx.must(c.call(MOD + "vectorize", t))
    got = c.value(v)
    want = np.array(list(d.flat), dtype=object).reshape((d.size, 1))
    arrays_equal(ctx, "column-of-all-elements", got, want, where)
    ctx.ob("kind-is-kept", isinstance(v, TNode) and v.is_var() == (kind == "variable"), repr(v), where)
    ctx.ob("static-shape", tuple(v.shape or ()) == (d.size, 1), repr(v.shape), where)
    ctx.ob("dtype-is-kept", v.dtype is t.dtype, repr(v.dtype), where)
    w = ctx.must(c.call(MOD + "unvectorize", v, original_shape=tuple(shape)))
    arrays_equal(ctx, "round-trip", c.value(w), d, where)
    w = ctx.must(c.call(MOD + "unvectorize", v, c.I.getattr(t, "shape")))
    arrays_equal(ctx, "round-trip", c.value(w), d, where)
    if kind == "variable":
        ctx.ob("a-new-variable", v is not t, "returns the argument", where)


def independent(ctx):
    """The vectorised variable can be updated without changing the original."""
    c = Case(ctx)
    t, d = c.variable("t", (2, 2))
    v = ctx.must(c.call(MOD + "vectorize", t))
    c.value(v)
    a = c.I.graph.assign("assign", v, c.I.graph.const(c.I.arr(ops.full((4, 1), 7))))
    out = c.I.run(lambda: c.I.lib.session_run(c.session, [a], {}))
    ctx.must(out)
    out = c.I.run(lambda: c.I.lib.session_run(c.session, [t], {}))
    arrays_equal(ctx, "original-untouched", c.I.get(ctx.must(out)).data, d, "variable")


def refused(ctx):
    c = Case(ctx)
    I = c.I
    for what, v in (("None", None), ("a number", 1.5), ("a list", I.list_([1.0, 2.0])), ("a string", "t"),
                    ("an array", I.arr(ops.full((2, 2), 1)))):
        c.refused("other-input-refused", c.call(MOD + "vectorize", v), ("ValueError",), what)


def run(ctx):
    for kind in ("tensor", "variable"):
        for dt in ("float32", "int32", "int64", "bool"):
            for s in ((), (2, 3)):
                ctx.scenario("%s %s %s" % (kind, s, dt), roundtrip, ctx, s, kind, dt)
        for s in ((0,), (0, 3), (2, 0), (1, 0, 2)):
            ctx.scenario("%s %s" % (kind, s), roundtrip, ctx, s, kind)
        for s in SHAPES + ([(5,), (4, 5), (2, 3, 4), (1, 1, 1, 1, 2)] if ctx.thorough else []):
            ctx.scenario("%s %s" % (kind, s), roundtrip, ctx, s, kind)
    for n in sizes(["tensor_utils.py"], 4, 2000):
        for kind in ("tensor", "variable"):
            ctx.scenario("%s of %d" % (kind, n), roundtrip, ctx, (n,), kind)
            ctx.scenario("%s of %d rows" % (kind, n), roundtrip, ctx, (n, 2), kind)
            ctx.scenario("%s of %d columns" % (kind, n), roundtrip, ctx, (2, n), kind)
    ctx.scenario("independent", independent, ctx)
    ctx.scenario("refused", refused, ctx)

"""C23: safe_divide and safe_sqrt never leave the finite reals."""
from ..tensors import *

EXPLANATION = ("safe_divide and safe_sqrt are interpreted with free operands; the value graphs are compared with the"
               " documented formulas, and the denominator and the radicand with zero, over interpretations that include"
               " zero, negative and tiny operands.")
FLOOR = 40
ANCHORS = [MOD + "safe_divide", MOD + "safe_sqrt"]
SMALL = tm.const(1e-16)


def shifted(y, c):
    s = tm.fn("sign", y)
    return tm.add(y, tm.add(tm.mul(tm.mul(2, s), c), c))


def signs(y):
    return [("positive", tm.lt(tm.const(0), y)), ("negative", tm.lt(y, tm.const(0))), ("any", tm.TRUE)]


def divide(ctx, shape, given, kind):
    c = Case(ctx)
    x, xd = c.tensor("x", shape)
    y, yd = c.tensor("y", shape, kind=kind)
    kw = {}
    sc = SMALL
    if given:
        sc = tm.sym("small_constant", kind="pos")
        kw["small_constant"] = sc
    where = "safe_divide%s%s%s" % (shape, " given constant" if given else "", " " + (kind or ""))
    v = ctx.must(c.call(MOD + "safe_divide", x, y, **kw))
    got = c.value(v)
    for i in np.ndindex(tuple(shape)):
        ctx.eq("shifted-quotient", got[i], tm.div(xd[i], shifted(yd[i], sc)), (), 24, where)


def zero(ctx, which):
    """Constant denominators, zero included."""
    c = Case(ctx)
    x, xd = c.tensor("x", ())
    for val in (0.0, 1.0, -1.0, 1e-16, -1e-16, 3e-16, -3e-16, 1e8, 1e-30, -1e-30):
        y = c.I.graph.const(val, dtype=DType("float64"))
        v = ctx.must(c.call(MOD + "safe_divide", x, y))
        got = c.value(v)[()]
        sgn = 0 if val == 0 else (1 if val > 0 else -1)
        den = tm.add(tm.const(val), tm.mul(tm.const(2 * sgn + 1), SMALL))
        ctx.eq("shifted-quotient", got, tm.div(xd[()], den), (), 12, "denominator %g" % val)
        p, q = tm.Valuation(5), tm.Valuation(6)
        try:
            r = p(got)
            fin = bool(tm.mpmath.isfinite(r))
        except ZeroDivisionError:
            fin = False
        ctx.ob("finite-for-every-denominator", fin, "not finite", "denominator %g" % val)


def python_numbers(ctx):
    c = Case(ctx)
    x, xd = c.tensor("x", (2,))
    x0 = c.call(MOD + "safe_divide", 3.0, x)
    got = c.value(ctx.must(x0))
    for i in range(2):
        ctx.eq("shifted-quotient", got[i], tm.div(tm.const(3), shifted(xd[i], SMALL)), (), 12, "number over tensor")


def broadcast(ctx):
    c = Case(ctx)
    x, xd = c.tensor("x", (2, 3))
    y, yd = c.tensor("y", ())
    got = c.value(ctx.must(c.call(MOD + "safe_divide", x, y)))
    for i in np.ndindex((2, 3)):
        ctx.eq("shifted-quotient", got[i], tm.div(xd[i], shifted(yd[()], SMALL)), (), 12, "scalar denominator")


def sqrt(ctx, shape, lo, hi):
    c = Case(ctx)
    x, xd = c.tensor("x", shape)
    kw = {}
    L, H = tm.const(0), None
    if lo:
        kw["clip_value_min"] = L = tm.sym("lo", kind="pos")
    if hi:
        # an upper bound above the lower one
        H = tm.add(L, tm.sym("above", kind="pos"))
        kw["clip_value_max"] = H
    where = "safe_sqrt%s%s%s" % (shape, " lower" if lo else "", " upper" if hi else "")
    got = c.value(ctx.must(c.call(MOD + "safe_sqrt", x, **kw)))
    for i in np.ndindex(tuple(shape)):
        want = tm.fn("max", xd[i], L)
        if H is not None:
            want = tm.fn("min", want, H)
        ctx.eq("clipped-root", got[i], tm.fn("sqrt", want), (), 32, where)


def sqrt_values(ctx):
    c = Case(ctx)
    for val, want in ((0.0, 0), (-1.0, 0), (-1e-30, 0), (-1e30, 0), (4.0, 2), (2.25, 1.5), (1e20, 1e10)):
        y = c.I.graph.const(val, dtype=DType("float64"))
        got = c.value(ctx.must(c.call(MOD + "safe_sqrt", y)))[()]
        ctx.eq("root-of-negative-is-zero" if val <= 0 else "clipped-root", got, tm.const(want), (), 4, "%g" % val)


def run(ctx):
    for shape in ((), (2,), (2, 2)):
        for given in (False, True):
            for kind in (None, "pos"):
                ctx.scenario("divide %s %s %s" % (shape, given, kind), divide, ctx, shape, given, kind)
        for lo in (False, True):
            for hi in (False, True):
                ctx.scenario("sqrt %s %s %s" % (shape, lo, hi), sqrt, ctx, shape, lo, hi)
    ctx.scenario("denominators", zero, ctx, None)
    ctx.scenario("numbers", python_numbers, ctx)
    ctx.scenario("broadcast", broadcast, ctx)
    ctx.scenario("roots", sqrt_values, ctx)

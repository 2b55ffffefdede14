"""C29: a constant schedule gives its initial value at every step, whatever it is told."""
from ..tensors import *

EXPLANATION = ("ConstantStepsizeSchedule is interpreted with a free initial value through sequences of next, iter and"
               " update calls, alone and next to a second schedule.")
FLOOR = 30
ANCHORS = ["pysgmcmc.stepsize_schedules.ConstantStepsizeSchedule.__next__"]
TOLD = ("params", "cost", "gradient", "initial_value", "stepsize", "step_size", "epsilon", "learning_rate", "lr", "value",
        "decay", "factor", "t", "k", "step", "n", "iteration", "n_iterations")
CLS = "pysgmcmc.stepsize_schedules.ConstantStepsizeSchedule"


def sequence(ctx, how):
    I = ctx.interp()
    v, w = tm.sym("stepsize", kind="pos"), tm.sym("other", kind="pos")
    cls = I.resolve(CLS)
    s = ctx.must(I.run(lambda: I.call(cls, [v], {}) if how != "keyword" else I.call(cls, [], {"initial_value": v})))
    o = ctx.must(I.run(lambda: I.call(cls, [w], {})))

    def nxt(x, want):
        got = ctx.must(I.run(lambda: I.lib.f_builtins_next([x], {})))
        ctx.eq("constant", got, want, (), 8, how)
    for k in range(4):
        nxt(s, v)
        nxt(o, w)
        told = {n: tm.sym("%s%d" % (n, k)) for n in TOLD} if k >= 2 else {}
        told.update({"params": None} if k == 3 else {})
        up = I.run(lambda: I.call(I.getattr(s, "update"), [] if k == 0 else [tm.sym("grad%d" % k), k], told))
        ctx.must(up, "update-accepts-anything")
    nxt(s, v)
    it = ctx.must(I.run(lambda: I.lib.f_builtins_iter([s], {})))
    nxt(it, v)
    nxt(s, v)
    nxt(o, w)
    init = ctx.must(I.run(lambda: I.getattr(s, "initial_value")))
    ctx.eq("initial-value-kept", init, v, (), 8, how)


def endless(ctx):
    """Iteration never ends by itself, and a schedule is its own iterator."""
    I = ctx.interp()
    v = tm.sym("stepsize", kind="pos")
    s = ctx.must(I.run(lambda: I.call(I.resolve(CLS), [v], {})))
    it = ctx.must(I.run(lambda: I.lib.f_builtins_iter([s], {})))
    ctx.ob("own-iterator", it == s, repr(it), "iter")
    items = ctx.must(I.run(lambda: list(first_items(I, it, 5, lambda x: x))))
    ctx.ob("endless", len(items) == 5, "%d of 5" % len(items), "iteration")
    for x in items:
        ctx.eq("constant", x, v, (), 8, "iteration")


def many(ctx, n):
    I = ctx.interp()
    v = tm.sym("stepsize", kind="pos")
    s = ctx.must(I.run(lambda: I.call(I.resolve(CLS), [v], {})))
    for k in range(n + 1):
        got = ctx.must(I.run(lambda: I.lib.f_builtins_next([s], {})))
        ctx.eq("constant", got, v, (), 4, "value %d" % (k + 1))
        ctx.must(I.run(lambda: I.call(I.getattr(s, "update"), [tm.sym("params"), tm.sym("cost%d" % k)], {})))


def run(ctx):
    for how in ("positional", "keyword"):
        ctx.scenario(how, sequence, ctx, how)
    ctx.scenario("endless", endless, ctx)
    for n in [60] + sizes(["stepsize_schedules.py"], 4, 3000):
        ctx.scenario("%d values" % n, many, ctx, n)
    for v in (0.01, 3, 0, 0.1234567890123, 1e-12, 123456789.0, 7.5e20, 12345678901):
        ctx.scenario(repr(v), typed, ctx, v)


def typed(ctx, v):
    I = ctx.interp()
    s = ctx.must(I.run(lambda: I.call(I.resolve(CLS), [v], {})))
    text = ctx.must(I.run(lambda: I.lib.f_builtins_str([s], {})))
    ctx.ob("text", text == "ConstantStepsizeSchedule(stepsize=%s)" % (v,), repr(text), repr(v))
    got = ctx.must(I.run(lambda: I.lib.f_builtins_next([s], {})))
    ctx.ob("value-unconverted", got == v and type(got) is type(v), repr(got), repr(v))

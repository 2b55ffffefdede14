"""C20: predictions need a completed training, and badly shaped data is refused before anything happens."""
from ..bnn import *

EXPLANATION = ("BayesianNeuralNetwork is interpreted through histories of predict, failing and successful train calls,"
               " with data of wrong ranks and lengths.")
FLOOR = 40
ANCHORS = [BNN + ".predict", BNN + ".__init__"]


def refused(ctx, rule, out, names, where):
    ctx.ob(rule, out.value is UNBOUND, "accepted", where)
    ctx.ob(rule + "-error", out.raised and all(e.exc.name() in names for _, e in out.raised),
           repr([e.exc for _, e in out.raised]), where)


def untrained(ctx, kw):
    b = Bnn(ctx, config(4, 1, 1, 1, **kw), N=2, D=1)
    for ind in (False, True):
        out = b.predict(b.data("t", 2), must=False, return_individual_predictions=ind)
        refused(ctx, "untrained-network-refuses", out, ("ValueError",), "untrained %r" % (kw,))
    b.train()
    b.predict(b.data("t", 2))


def failing(ctx, at):
    """A training that ends with an error does not make the network usable."""
    b = Bnn(ctx, config(6, 1, 1, 2), N=2, D=1, fail_at=at)
    out = b.train(must=False)
    ctx.ob("step-failure-is-reported", out.value is UNBOUND and any(
        e.exc.name() == "InvalidArgumentError" for _, e in out.raised), repr(out.raised), "failure at step %d" % at)
    out = b.predict(b.data("t", 2), must=False)
    refused(ctx, "untrained-network-refuses", out, ("ValueError",), "failure at step %d" % at)


def failing_again(ctx, first, second):
    """Neither do two of them, whatever the first one collected."""
    b = Bnn(ctx, config(9, 1, 1, 3), N=2, D=1, fail_at=first, reuse=True)
    where = "failures at steps %d and %d" % (first, second)
    b.train(must=False)
    b.samplers.steps, b.samplers.fail_at = 0, second
    b.train(must=False)
    out = b.predict(b.data("t", 2), must=False)
    refused(ctx, "untrained-network-refuses", out, ("ValueError",), where)
    b.samplers.steps, b.samplers.fail_at = 0, None
    b.train()
    b.predict(b.data("t", 2))


def failing_later(ctx, at, kw):
    """A training that fails takes the earlier one's predictions with it: data, statistics and samples are already replaced."""
    b = Bnn(ctx, config(6, 1, 1, 2, **kw), N=2, D=1, reuse=True)
    where = "training completes, the next one fails %s %r" % ("in the network" if at is None else "at step %d" % at, kw)
    b.train()
    b.predict(b.data("t", 2))
    b.samplers.steps, b.samplers.fail_at = 0, at
    if at is None:
        fn = b.get_net.fn
        b.get_net.fn = lambda I, a, k: I.raise_("RuntimeError", "no network")
    out = b.train(b.data("x2"), b.data("y2", cols=0), must=False)
    ctx.ob("step-failure-is-reported", out.value is UNBOUND, "", where)
    for ind in (False, True):
        out = b.predict(b.data("t", 2), must=False, return_individual_predictions=ind)
        refused(ctx, "untrained-network-refuses", out, ("ValueError",), where)
    if at is None:
        b.get_net.fn = fn
    b.samplers.steps, b.samplers.fail_at = 0, None
    b.train()
    b.predict(b.data("t", 2))


def failing_net(ctx):
    b = Bnn(ctx, config(6, 1, 1, 2), N=2, D=1)

    def bad(I, a, k):
        I.raise_("RuntimeError", "no network")
    b.get_net.fn = bad
    out = b.train(must=False)
    out = b.predict(b.data("t", 2), must=False)
    refused(ctx, "untrained-network-refuses", out, ("ValueError",), "failing network")


SHAPES_BAD = (("lengths", (3, 2), (2,)), ("lengths", (2, 2), (3,)), ("input rank", (3,), (3,)),
              ("input rank", (3, 2, 1), (3,)), ("label rank", (3, 2), (3, 1)), ("label rank", (3, 1), (3, 1, 1)))


def shapes(ctx, what, xs, ys):
    b = Bnn(ctx, config(4, 1, 1, 1), N=3, D=2)
    I = b.I

    def mk(name, sh):
        d = np.empty(sh, dtype=object)
        for i in np.ndindex(sh):
            d[i] = tm.sym("%s%s" % (name, list(i)))
        return I.arr(ops.A(d), dtype=DType("float64"))
    where = "%s: X %s, y %s" % (what, xs, ys)
    out = b.train(mk("x", xs), mk("y", ys), must=False)
    refused(ctx, "bad-shapes-refused", out, ("AssertionError", "ValueError"), where)
    ctx.ob("refused-before-sampling", b.samplers.steps == 0 and not b.samplers.made, "", where)
    out = b.predict(b.data("t", 2), must=False)
    refused(ctx, "untrained-network-refuses", out, ("ValueError",), where)


def queries(ctx):
    b = Bnn(ctx, config(4, 1, 1, 1), N=3, D=2)
    b.train()
    for sh in ((2,), (2, 2, 1)):
        d = np.empty(sh, dtype=object)
        for i in np.ndindex(sh):
            d[i] = tm.sym("t%s" % list(i))
        out = b.predict(b.I.arr(ops.A(d), dtype=DType("float64")), must=False)
        refused(ctx, "bad-query-refused", out, ("AssertionError", "ValueError"), "query %s" % (sh,))
    b.predict(b.data("t", 2))


def run(ctx):
    for kw in ({}, {"normalize_input": False}, {"normalize_input": False, "normalize_output": False}):
        ctx.scenario("untrained %r" % (kw,), untrained, ctx, kw)
    for at in (0, 1, 2):
        ctx.scenario("failing at %d" % at, failing, ctx, at)
    for at in ((0, 0), (3, 0), (3, 3), (2, 1), (1, 4)):
        ctx.scenario("failing at %d and %d" % at, failing_again, ctx, *at)
    for at in (None, 0, 1, 3):
        for kw in ({}, {"normalize_input": False, "normalize_output": False}):
            ctx.scenario("failing later at %r %r" % (at, kw), failing_later, ctx, at, kw)
    ctx.scenario("failing network", failing_net, ctx)
    for what, xs, ys in SHAPES_BAD:
        ctx.scenario("%s %s %s" % (what, xs, ys), shapes, ctx, what, xs, ys)
    ctx.scenario("queries", queries, ctx)

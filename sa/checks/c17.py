"""C17: training retains exactly the thinned post-burn-in samples."""
from ..bnn import *

EXPLANATION = ("BayesianNeuralNetwork.train and predict are interpreted over a stand-in sampler whose k-th sample is a"
               " tuple of free symbols; which samples every individual prediction depends on, and how often the sampler"
               " is stepped, is compared with the documented retention rule over a grid of configurations.")
FLOOR = 140
ANCHORS = [BNN + ".train", BNN + ".predict"]


def history(ctx, n_iters, burn_in, steps, n_nets, shapes=None, method=None, N=1):
    where = "n_iters=%d burn_in_steps=%d sample_steps=%d n_nets=%d%s" % (
        n_iters, burn_in, steps, n_nets, " %s" % method if method else "")
    b = Bnn(ctx, config(n_iters, burn_in, steps, n_nets, normalize_input=False, normalize_output=False),
            N=N, D=1, shapes=shapes, method=method)
    where += " %d rows" % N if N > 1 else ""
    b.I.lib.PULLED = max(b.I.lib.PULLED, 2 * n_iters)
    b.train()
    want = b.retained(n_iters, burn_in, steps, n_nets)
    run_to = want[-1] + 1 if len(want) == n_nets else n_iters
    ctx.ob("sampler-steps", b.samplers.steps == run_to, "%d steps, required %d" % (b.samplers.steps, run_to), where)
    ctx.ob("one-sampler", len(b.samplers.made) == 1, "%d samplers" % len(b.samplers.made), where)
    if not want:
        return
    x = b.data("t", 1)
    xd = ops.A(b.I.get(x).data)
    means, noise = b.predict(x, return_individual_predictions=True)
    ctx.ob("number-of-networks", means.shape == (len(want), 1), "%r, required %d" % (means.shape, len(want)), where)
    for j, k in enumerate(want[:means.shape[0]]):
        ctx.eq("retained-sample", means[j, 0], b.net_ref(0, xd[0], k), (), 4, where, what="network %d is sample %d" % (j, k))


def again(ctx):
    """A second training replaces the networks of the first."""
    b = Bnn(ctx, config(6, 1, 2, 5, normalize_input=False, normalize_output=False), N=1, D=1, reuse=True)
    b.train()
    n1 = b.samplers.steps
    b.train(b.data("x2", 1), b.data("y2", 1, cols=0))
    want = [n1 + i for i in b.retained(6, 1, 2, 5)]
    x = b.data("t", 1)
    xd = ops.A(b.I.get(x).data)
    means, _ = b.predict(x, return_individual_predictions=True)
    ctx.ob("number-of-networks", means.shape == (len(want), 1), "%r, required %d" % (means.shape, len(want)), "second training")
    for j, k in enumerate(want[:means.shape[0]]):
        ctx.eq("retained-sample", means[j, 0], b.net_ref(0, xd[0], k), (), 4, "second training")


def run(ctx):
    grid = [(8, 2, 2, 3), (8, 2, 2, 2), (9, 0, 1, 4), (5, 0, 1, 100), (7, 3, 1, 3), (7, 3, 3, 5), (12, 4, 4, 2),
            (10, 5, 2, 1), (3, 3, 1, 2), (4, 9, 1, 2), (1, 0, 1, 1), (2, 0, 1, 1), (20, 6, 7, 10), (13, 6, 5, 1),
            (10, 4, 5, 2), (11, 4, 5, 2), (6, 1, 100, 3), (24, 3, 10, 2), (16, 10, 5, 1)]
    if ctx.thorough:
        grid = [(n, b, s, m) for n in (1, 2, 5, 9, 14) for b in (0, 1, 4, 8) for s in (1, 2, 3, 5) for m in (1, 2, 4, 20)] + grid
    for g in grid:
        ctx.scenario("history %r" % (g,), history, ctx, *g)
    ctx.scenario("sgld", history, ctx, 8, 2, 2, 3, None, "SGLD")
    ctx.scenario("one parameter", history, ctx, 8, 2, 2, 3, [(2, 2)])
    ctx.scenario("three parameters", history, ctx, 8, 2, 2, 3, [(2,), (), (1, 2)])
    ctx.scenario("second training", again, ctx)
    for n in sizes(["models", "samplers"], 4, 3000):
        ctx.scenario("%d networks" % n, history, ctx, n + 3, 1, 1, n, [()])
        ctx.scenario("%d burn-in steps" % n, history, ctx, n + 4, n, 1, 2, [()])
        ctx.scenario("thinning %d" % n, history, ctx, 2 * n + 2, 1, n, 5, [()])
        ctx.scenario("%d rows" % n, history, ctx, 8, 2, 2, 3, [()], None, n)

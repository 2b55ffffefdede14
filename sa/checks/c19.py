"""C19: the predictive mean and variance are those of the ensemble of retained networks."""
from ..bnn import *

EXPLANATION = ("BayesianNeuralNetwork.predict is interpreted for ensembles of one to five networks with free outputs; the"
               " returned means and variances are compared with the ensemble's moments, and with the individual predictions.")
FLOOR = 60
ANCHORS = [BNN + ".predict"]


def case(ctx, K, M, nin, nout):
    where = "%d networks, %d points, normalize_input=%s normalize_output=%s" % (K, M, nin, nout)
    n_iters = K + 1
    b = Bnn(ctx, config(n_iters, 0, 1, K, normalize_input=nin, normalize_output=nout), N=2, D=1, shapes=[(1,), ()])
    b.I.lib.PULLED = max(b.I.lib.PULLED, 2 * n_iters)
    b.train()
    I = b.I
    x = b.data("t", M)
    td = ops.A(I.get(x).data).copy()
    keep = b.retained(n_iters, 0, 1, K)
    ctx.ob("ensemble-size", len(keep) == K, "", where)
    wt = b.normalised(td, b.xd) if nin else td
    ym, ys = b.moments(b.yd) if nout else (tm.const(0), tm.const(1))
    f = [[tm.add(tm.mul(b.net_ref(0, wt[i], k), ys), ym) for i in range(M)] for k in keep]
    wm, wv = np.empty((M,), dtype=object), np.empty((M,), dtype=object)
    for i in range(M):
        wm[i] = tm.div(total(f[j][i] for j in range(K)), K)
        wv[i] = tm.div(total(tm.mul(tm.sub(f[j][i], wm[i]), tm.sub(f[j][i], wm[i])) for j in range(K)), K)
    for rep in range(2):
        mean, var = b.predict(x)
        arrays_equal(ctx, "ensemble-mean", mean, wm, where, 8)
        arrays_equal(ctx, "ensemble-variance", var, wv, where, 8)
        ind, noise = b.predict(x, return_individual_predictions=True)
        arrays_equal(ctx, "individual-predictions", ind, np.array(f, dtype=object), where, 8)
        wn = np.array([[tm.mul(tm.fn("exp", b.net_ref(1, wt[i], k)), tm.mul(ys, ys)) for i in range(M)] for k in keep],
                      dtype=object)
        arrays_equal(ctx, "individual-noise", noise, wn, where, 8)
    ctx.ob("predicting-takes-no-steps", b.samplers.steps == n_iters, "%d steps" % b.samplers.steps, where)
    for e in I.evs("run")[-1:]:
        ctx.ob("right-session", e.session is b.session, repr(e.session), where, e.site)


def run(ctx):
    for K in (1, 2, 3) + ((4, 5, 8) if ctx.thorough else ()):
        for M in (1, 2):
            for nin, nout in ((True, True), (False, False), (False, True), (True, False)):
                ctx.scenario("%d %d %s %s" % (K, M, nin, nout), case, ctx, K, M, nin, nout)
    for n in sizes(["models"], 4, 3000):
        if n <= 1200:
            ctx.scenario("%d networks" % n, case, ctx, n, 1, False, False)
        ctx.scenario("%d test rows" % n, case, ctx, 2, n, False, False)
    for n in sizes(["models"], 3001, 20000):
        ctx.scenario("%d test rows" % n, case, ctx, 1, n, False, False)

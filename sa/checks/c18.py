"""C18: the network is trained and queried on normalised data, with the training normaliser throughout."""
from ..bnn import *

EXPLANATION = ("BayesianNeuralNetwork.train and predict are interpreted with free data for every combination of the"
               " normalisation options; the data that reaches the batch generator and the network, and the predictions,"
               " are compared with the training data's column means and standard deviations.")
FLOOR = 100
ANCHORS = [BNN + ".train", BNN + ".predict"]
ASSUMPTIONS = ["no column of the training data is constant"]


def case(ctx, nin, nout, N, D, M, K=2):
    where = "normalize_input=%s normalize_output=%s N=%d D=%d" % (nin, nout, N, D)
    n_iters = 2 * K + 2
    b = Bnn(ctx, config(n_iters, 1, 2, K, normalize_input=nin, normalize_output=nout), N=N, D=D, shapes=[(1,), ()])
    b.train()
    I = b.I
    bc = b.batch_calls[0]
    wx = b.normalised(b.xd, b.xd) if nin else b.xd
    wy = b.normalised(b.yd, b.yd) if nout else b.yd
    arrays_equal(ctx, "training-inputs", I.get(bc["x"]).data, wx, where, 8)
    arrays_equal(ctx, "training-labels", I.get(bc["y"]).data, wy, where, 8)
    x = b.data("t", M)
    td = ops.A(I.get(x).data).copy()
    keep = b.retained(n_iters, 1, 2, K)
    wt = b.normalised(td, b.xd) if nin else td
    ym, ys = b.moments(b.yd) if nout else (tm.const(0), tm.const(1))
    means, noise = b.predict(x, return_individual_predictions=True)
    wm, wn = np.empty((len(keep), M), dtype=object), np.empty((len(keep), M), dtype=object)
    for j, k in enumerate(keep):
        for i in range(M):
            wm[j, i] = tm.add(tm.mul(b.net_ref(0, wt[i], k), ys), ym)
            wn[j, i] = tm.mul(tm.fn("exp", b.net_ref(1, wt[i], k)), tm.mul(ys, ys))
    arrays_equal(ctx, "individual-means", means, wm, where, 8)
    arrays_equal(ctx, "individual-noise", noise, wn, where, 8)
    # a second query, with other data, uses the training normaliser again
    x2 = b.data("u", M)
    ud = ops.A(I.get(x2).data).copy()
    wu = b.normalised(ud, b.xd) if nin else ud
    m2, _ = b.predict(x2, return_individual_predictions=True)
    w2 = np.empty((len(keep), M), dtype=object)
    for j, k in enumerate(keep):
        for i in range(M):
            w2[j, i] = tm.add(tm.mul(b.net_ref(0, wu[i], k), ys), ym)
    arrays_equal(ctx, "individual-means", m2, w2, where + " second query", 8)


def retrained(ctx):
    """A second training replaces the normaliser."""
    where = "second training"
    b = Bnn(ctx, config(4, 0, 1, 1), N=2, D=1, shapes=[(1,), ()], reuse=True)
    b.train()
    n1 = b.samplers.steps
    b.train(b.data("x2", 3), b.data("y2", 3, cols=0))
    k = n1 + 1
    x = b.data("t", 2)
    td = ops.A(b.I.get(x).data).copy()
    wt = b.normalised(td, b.xd)
    ym, ys = b.moments(b.yd)
    means, _ = b.predict(x, return_individual_predictions=True)
    for i in range(2):
        ctx.eq("individual-means", means[0, i], tm.add(tm.mul(b.net_ref(0, wt[i], k), ys), ym), (), 8, where)


def run(ctx):
    for nin in (True, False):
        for nout in (True, False):
            for N, D, M in ((3, 2, 2), (2, 1, 1)) + (((4, 3, 3), (6, 1, 2)) if ctx.thorough else ()):
                ctx.scenario("%s %s %d %d" % (nin, nout, N, D), case, ctx, nin, nout, N, D, M)
    ctx.scenario("retrained", retrained, ctx)
    for n in sizes(["models"], 4, 1000):
        ctx.scenario("%d rows" % n, case, ctx, True, True, n, 1, 2, 1)
        ctx.scenario("%d test rows" % n, case, ctx, True, True, 3, 1, n, 1)

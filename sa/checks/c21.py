"""C21: the training objective is the Gaussian negative log likelihood with the documented priors."""
from ..bnn import *

EXPLANATION = ("The cost tensor that BayesianNeuralNetwork.train gives to its sampler is evaluated over free batches, network"
               " outputs and weights, and compared with the likelihood and priors; the prior functions are interpreted on"
               " their own as well.")
FLOOR = 60
ANCHORS = [BNN + ".negative_log_likelihood", MODULE + ".log_variance_prior_log_like", MODULE + ".weight_prior_log_like"]
C = tm.const


def sdiv(x, y):
    sg = tm.fn("sign", y)
    sm = C(1e-16)
    return tm.div(x, tm.add(y, tm.add(tm.mul(tm.mul(2, sg), sm), sm)))


def variance_prior(lv, mean=C(1e-6), var=C(0.01)):
    rows = []
    for r in lv:
        t = C(0)
        for v in r:
            e = tm.sub(v, tm.fn("log", mean))
            t = tm.add(t, tm.sub(sdiv(tm.neg(tm.mul(e, e)), tm.mul(2, var)), tm.mul(0.5, tm.fn("log", var))))
        rows.append(t)
    return tm.div(total(rows), len(rows))


def weight_prior(ws, wd=C(1)):
    flat = [x for w in ws for x in ops.A(w).flat]
    return sdiv(total(tm.neg(tm.mul(tm.mul(0.5, wd), tm.mul(x, x))) for x in flat), C(len(flat)))


def objective(ctx, N, B, bs, shapes, method="SGHMC", norm=False):
    where = "N=%d, batch of %d, batch_size=%d, %d parameters" % (N, B, bs, len(shapes))
    b = Bnn(ctx, config(2, 0, 1, 1, batch_size=bs, normalize_input=norm, normalize_output=norm), N=N, D=2, shapes=shapes,
            method=method)
    b.train()
    I = b.I
    _, args = b.samplers.made[0]
    node = ctx.must(I.run(lambda: I.call(args["cost_fun"], [args["params"]], {})))
    bc = b.batch_calls[0]
    x, y = b.data("bx", B), b.data("by", B, cols=1)
    ws = []
    feed = [(bc["x_placeholder"], x), (bc["y_placeholder"], y)]
    for i, v in enumerate(b.net_vars):
        w = b.samplers.value(77, i)
        feed.append((v, I.arr(ops.A(w))))
        ws.append(w)
    out = I.run(lambda: I.lib.session_run(b.session, [node, I.dict_(feed)], {}))
    v = ctx.must(out)
    v = ops.A(I.get(v).data) if isinstance(v, Ref) else ops.A(tm.term(v))
    xd, yd = ops.A(I.get(x).data), ops.A(I.get(y).data)
    ll = C(0)
    lvs = []
    for i in range(B):
        m, lv = b.net_ref(0, xd[i], 77), b.net_ref(1, xd[i], 77)
        inv = tm.div(1, tm.add(tm.fn("exp", lv), C(1e-16)))
        e = tm.sub(yd[i, 0], m)
        ll = tm.add(ll, tm.sub(tm.neg(tm.mul(tm.mul(e, e), tm.mul(0.5, inv))), tm.mul(0.5, lv)))
        lvs.append([lv])
    n = min(bs, N)
    want = tm.div(ll, n)
    want = tm.add(want, tm.div(variance_prior(lvs), N))
    want = tm.add(want, tm.div(weight_prior(ws), N))
    ctx.ob("scalar-cost", v.shape == (), repr(v.shape), where)
    ctx.eq("negative-log-likelihood", v.flat[0], tm.neg(want), (), 24, where)


def priors(ctx, shape, given):
    from ..tensors import Case
    c = Case(ctx)
    t, d = c.tensor("lv", shape)
    kw, mean, var = {}, C(1e-6), C(0.01)
    if given:
        mean, var = tm.sym("mean", kind="pos"), tm.sym("var", kind="pos")
        kw = dict(mean=mean, var=var)
    got = c.value(ctx.must(c.call(MODULE + ".log_variance_prior_log_like", t, **kw)))
    ctx.eq("variance-prior", got.flat[0], variance_prior(d, mean, var), (), 24, "log variances %s" % (shape,))
    ctx.ob("scalar", got.shape == (), repr(got.shape), "variance prior")


def weights(ctx, shapes, given, kind):
    from ..tensors import Case
    c = Case(ctx)
    ts, ds = [], []
    for i, s in enumerate(shapes):
        t, d = getattr(c, kind)("w%d" % i, s)
        ts.append(t)
        ds.append(d)
    kw, wd = {}, C(1)
    if given:
        wd = tm.sym("wdecay", kind="pos")
        kw = dict(wdecay=wd)
    got = c.value(ctx.must(c.call(MODULE + ".weight_prior_log_like", c.I.list_(ts), **kw)))
    ctx.eq("weight-prior", got.flat[0], weight_prior(ds, wd), (), 24, "%s %s" % (kind, shapes))


def float32(ctx):
    b = Bnn(ctx, config(2, 0, 1, 1), N=3, D=2, dtype="float32")
    b.train()
    ctx.ob("float32-objective", len(b.samplers.made) == 1, "", "float32")


def run(ctx):
    for N, B, bs in ((5, 2, 2), (5, 5, 5), (3, 3, 20), (2, 1, 1), (7, 3, 3)) + (
            ((40, 4, 4), (4, 4, 100), (100, 1, 1)) if ctx.thorough else ()):
        for shapes in ([(2, 1), (2,)], [()], [(1, 2), (2,), (2, 2)]):
            ctx.scenario("%d %d %d %d" % (N, B, bs, len(shapes)), objective, ctx, N, B, bs, shapes)
    ctx.scenario("SGLD", objective, ctx, 5, 2, 2, [(2, 1), (2,)], "SGLD")
    ctx.scenario("normalised", objective, ctx, 4, 2, 2, [(2, 1), (2,)], "SGHMC", True)
    for given in (False, True):
        for shape in ((1, 1), (3, 1), (2, 2)):
            ctx.scenario("variance prior %s %s" % (shape, given), priors, ctx, shape, given)
        for shapes in ([(2,)], [(), (2, 2)], [(1, 2), (3,), ()]):
            for kind in ("tensor", "variable"):
                ctx.scenario("weight prior %s %s %s" % (shapes, given, kind), weights, ctx, shapes, given, kind)
    ctx.scenario("float32", float32, ctx)
    for n in sizes(["models"], 4, 1000):
        ctx.scenario("%d rows" % n, objective, ctx, n, 2, 2, [(2,)])
        ctx.scenario("batches of %d" % n, objective, ctx, 2 * n, n, n, [(2,)])
        ctx.scenario("%d weights" % n, objective, ctx, 4, 2, 2, [(n,)])

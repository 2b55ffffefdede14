"""C13: SVGD steps follow the documented recurrence."""
from .. import ops
from .. import terms as tm
from ..mcmc import *
from ..sizes import sizes

EXPLANATION = ("SVGDSampler is interpreted on two to four particles of one to three elements; the value graph of every"
               " particle element after each of the first steps is compared with the Stein variational update.")
FLOOR = 30
ANCHORS = ["pysgmcmc.samplers.svgd.SVGDSampler.__init__"]
ASSUMPTIONS = ["at least two distinct particles (the kernel bandwidth of the paper is zero otherwise)"]


def phi(theta, grads):
    """Kernelised Stein direction (descending), with the median bandwidth."""
    n, d = theta.shape
    d2 = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            d2[i, j] = total(tm.mul(tm.sub(theta[i, k], theta[j, k]), tm.sub(theta[i, k], theta[j, k])) for k in range(d))
    h2 = tm.div(tm.mul(0.5, ops.median(d2)[()]), tm.fn("log", tm.const(n + 1)))
    K = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            K[i, j] = tm.fn("exp", tm.neg(tm.div(d2[i, j], tm.mul(2, h2))))
    out = np.empty((n, d), dtype=object)
    for i in range(n):
        for k in range(d):
            a = total(tm.mul(K[i, j], grads[j, k]) for j in range(n))
            rep = tm.div(tm.sub(tm.mul(theta[i, k], total(K[i, j] for j in range(n))),
                                total(tm.mul(K[i, j], theta[j, k]) for j in range(n))), h2)
            out[i, k] = tm.div(tm.sub(a, rep), n)
    return out


def case(ctx, n, d, steps, given=True, kw=None, batches=True, warm=0, jump_to=None, grounded_start=False):
    alpha, fudge = (tm.sym("alpha", kind="unit"), pos("fudge_factor")) if given else (tm.const(0.9), tm.const(1e-6))
    k = dict(alpha=alpha, fudge_factor=fudge) if given else {}
    k.update(kw or {})
    run = Run(ctx, "SVGD", [(d,)] * n, kw=k, batches=batches)
    what = "%d particles of %d elements%s" % (n, d, "" if given else ", default coefficients")
    pt = tm.Valuation(3)
    if grounded_start:
        run.ground(pt)
    for j in range(warm + steps):
        was = counters(run)
        rec = run.step()
        if jump_to is not None and j == warm - 1:
            list(jump(run, was, [jump_to - warm]))
        if j < warm:
            run.ground(pt)
            rec.after = run.theta()
    hist = np.empty((n, d), dtype=object)
    hist[...] = tm.const(0)
    for s, rec in enumerate(run.steps):
        eps = run.schedule.values[s] if s < len(run.schedule.values) else pos("eps[%d]" % (s + 1))
        where = "%s step %d" % (what, s + 1)
        th = np.array([[rec.before[i][k] for k in range(d)] for i in range(n)], dtype=object)
        g = np.empty((n, d), dtype=object)
        for i in range(n):
            keys = [tm.const("")] + list(th[i]) + (run.batches.values(s) if batches else [])
            for k in range(d):
                g[i, k] = tm.uf("D0%s:U" % [k], *keys)
        f = phi(th, g)
        for i in range(n):
            for k in range(d):
                hist[i, k] = tm.add(tm.mul(alpha, hist[i, k]), tm.mul(tm.sub(1, alpha), tm.mul(f[i, k], f[i, k])))
                if s < warm:
                    hist[i, k] = number(hist[i, k], pt)
                    continue
                want = tm.sub(th[i, k], tm.div(tm.mul(eps, f[i, k]), tm.add(fudge, tm.fn("sqrt", hist[i, k]))))
                ctx.eq("svgd-update", rec.after[i][k], want, (), 16, where)


def run(ctx):
    ctx.scenario("3 particles", case, ctx, 3, 2, 3)
    ctx.scenario("2 particles", case, ctx, 2, 2, 2)
    ctx.scenario("one element", case, ctx, 3, 1, 2)
    ctx.scenario("4 particles", case, ctx, 4, 3, 1)
    ctx.scenario("after 40 steps", case, ctx, 3, 2, 2, True, None, True, 40 if not ctx.thorough else 400)
    for n in sizes(["samplers", "stepsize_schedules.py"], 6, 3000):
        ctx.scenario("after %d steps" % (n - 2), case, ctx, 2, 1, 4, True, None, True, n - 2)
    for n in [1000, 4096, 65536, 10 ** 6] + sizes(["samplers", "stepsize_schedules.py"], 3001, 10 ** 9):
        ctx.scenario("at step %d" % n, case, ctx, 2, 1, 3, True, None, True, 3, n - 2)
    for n in [12] + sizes(["samplers", "tensor_utils.py"], 5, 60):
        ctx.scenario("%d particles" % n, case, ctx, n, 1, 2 if n < 15 else 1, True, None, True, 0, None, True)
    ctx.scenario("defaults", case, ctx, 2, 3, 2, False)
    ctx.scenario("seeded", case, ctx, 2, 2, 1, True, {"seed": 7})
    ctx.scenario("no batches", case, ctx, 3, 2, 1, True, None, False)
    if ctx.thorough:
        ctx.scenario("5 particles", case, ctx, 5, 2, 3)
        ctx.scenario("7 particles", case, ctx, 7, 1, 2)

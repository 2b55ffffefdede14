"""C11: SGLD steps follow the documented recurrence."""
from .. import ops
from .. import terms as tm
from ..mcmc import *
from ..sizes import sizes

EXPLANATION = ("SGLDSampler is interpreted on parameters of several shapes; the value graph of every parameter element"
               " after each of the first steps, during and after burn-in, is compared with the recurrence.")
FLOOR = 100
ANCHORS = ["pysgmcmc.samplers.sgld.SGLDSampler.__init__"]

SHAPES = [[()], [(3,)], [(2, 2)], [(), (2,), (2, 1)]]


def case(ctx, shapes, burn_in, steps, given=True, kw=None, warm=0, free=False, jump_to=None):
    A, scale = (pos("A"), pos("scale_grad")) if given else (tm.const(1.0), tm.const(1.0))
    k = dict(burn_in_steps=burn_in)
    if given:
        k.update(A=A, scale_grad=scale)
    k.update(kw or {})
    run = Run(ctx, "SGLD", shapes, kw=k)
    h = History(run, warm, burn_in, jump_to=jump_to)
    if free and not h.generalise(run):
        return
    for _ in range(steps):
        run.step()
    pre = preconditioners(run, warm + steps, burn_in, h)
    for n, rec in list(enumerate(run.steps))[warm:]:
        eps = run.schedule.values[n] if n < len(run.schedule.values) else pos("eps[%d]" % (n + 1))
        cos = []
        where = "shapes %s step %d (%s)" % (shapes, n + h.jumped + 1, "burn-in" if n + h.jumped < burn_in else "sampling")
        for i, s in enumerate(run.shapes):
            g = run.grad_ref(rec.before, n, i)
            for idx in np.ndindex(s):
                m = pre[n][i][idx] if pre[n][i].shape else pre[n][i][()]
                want = tm.sub(rec.before[i][idx], tm.mul(tm.mul(eps, m), tm.mul(A, g[idx])))
                q = safe_div(tm.mul(m, A), scale)[()]
                var = tm.fn("max", tm.mul(tm.mul(2, eps), q), 0)
                co = noise_check(ctx, "sgld", rec.after[i][idx], rec, want, var, where)
                cos.append(("theta%d%s" % (i, list(idx)), co))
        independent(ctx, "sgld-noise-independent", cos, where)


def run(ctx):
    for sh in SHAPES:
        ctx.scenario("shapes %s" % (sh,), case, ctx, sh, 2, 4)
    # a wrong smoothed gradient shows in the preconditioner only three steps later (g -> tau -> r -> v_hat -> minv)
    ctx.scenario("long burn-in", case, ctx, [()], 6, 7)
    # long histories, walked at one point; the steps after them are compared for every interpretation
    for burn_in, warm in ((40, 60), (150, 149)) + (((500, 1200), (2000, 1000)) if ctx.thorough else ()):
        ctx.scenario("after %d steps" % warm, case, ctx, [(2,)], burn_in, 2, True, None, warm)
    for n in sizes(["samplers", "stepsize_schedules.py", "tensor_utils.py"], 6, 4000):
        for burn_in in (n // 2, n, n + 9):
            ctx.scenario("after %d steps, burn-in %d" % (n - 2, burn_in), case, ctx, [()], burn_in, 4, True, None, n - 2)
    for n in [1000, 4096, 65536, 10 ** 6] + sizes(["samplers", "stepsize_schedules.py", "tensor_utils.py"], 4001, 10 ** 9):
        for burn_in in (3, n):
            ctx.scenario("at step %d, burn-in %d" % (n, burn_in), case, ctx, [()], burn_in, 3, True, None, 4, False, n - 2)
    # any state the estimators can be in
    for sh, n in (([()], 3), ([(), (2,)], 1)) + ((([(2,)], 2),) if ctx.thorough else ()):
        ctx.scenario("from any state %s" % (sh,), case, ctx, sh, 50, n, True, None, 4, True)
    ctx.scenario("no burn-in", case, ctx, [(2,)], 0, 5)
    ctx.scenario("default coefficients", case, ctx, [(), (2,)], 1, 3, False)
    ctx.scenario("seeded", case, ctx, [(), (2,)], 1, 3, True, {"seed": 7})
    if ctx.thorough:
        ctx.scenario("long", case, ctx, [(2,)], 3, 8)
        ctx.scenario("never leaves burn-in", case, ctx, [(2,), ()], 9, 6)

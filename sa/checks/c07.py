"""C07: burn-in lasts exactly the requested number of steps and freezes the preconditioner after it."""
from .. import ops
from .. import terms as tm
from ..mcmc import *
from ..sizes import sizes

EXPLANATION = ("SGHMCSampler and SGLDSampler are interpreted for several burn-in lengths; the drift of every step is"
               " compared with the drift under the preconditioner that is adapted during burn-in and frozen after it.")
FLOOR = 200
ANCHORS = ["pysgmcmc.samplers.base_classes.BurnInMCMCSampler.__next__"]


def drift_want(run, rec, n, pre, V, i, idx, extra):
    eps = run.schedule.values[n] if n < len(run.schedule.values) else pos("eps[%d]" % (n + 1))
    g = run.grad_ref(rec.before, n, i, extra)[idx]
    m = pre[idx] if pre.shape else pre[()]
    if run.which == "SGLD":
        return tm.sub(rec.before[i][idx], tm.mul(tm.mul(eps, m), tm.mul(tm.const(1.0), g)))
    v = tm.sub(tm.sub(V[i][idx], tm.mul(tm.mul(tm.mul(eps, eps), m), g)), tm.mul(tm.const(0.05), V[i][idx]))
    return tm.add(rec.before[i][idx], v)


def case(ctx, which, burn_in, steps, feed=False, shapes=((2,), ()), warm=0, jump_to=None):
    I = ctx.interp()
    kw = {"burn_in_steps": burn_in}
    fed = []
    if feed:
        kw["_extra"] = [I.graph.placeholder(DType("float64"), (), "caller")]
    run = make(ctx, which, list(shapes), burn_in=burn_in, kw=kw, I=I)
    what = "%s burn_in_steps=%d%s" % (which, burn_in, " with the caller's feeds" if feed else "")

    def burning():
        out = I.run(lambda: I.getattr(run.sampler, "is_burning_in"))
        return ctx.must(out)
    h = History(run, warm, burn_in, jump_to=jump_to)
    J = h.jumped
    if jump_to is not None:
        what += ", %d steps made" % (warm + J)
    extras = [()] * warm
    for k in range(warm, warm + steps):
        b = burning()
        b = I.norm(b) if isinstance(b, tm.T) else b
        ctx.ob("burn-in-flag", b is (k + J < burn_in), "is %r before step %d" % (b, k + J + 1), what)
        d = None
        ex = ()
        if feed:
            s = tm.sym("caller[%d]" % k)
            d = I.dict_([(run.extra[0], s)])
            ex = (s,)
        extras.append(ex)
        rec = run.step(d)
        ctx.ob("one-batch-per-step", len([e for e in rec.events if e.kind == "batch_next"]) == 1, "", what)
    b = burning()
    ctx.ob("burn-in-flag", (I.norm(b) if isinstance(b, tm.T) else b) is (warm + steps + J < burn_in), "", what)
    est, last, V = h.est, h.last, h.V
    for n, rec in list(enumerate(run.steps))[warm:]:
        cur = [est[i].advance(run.grad_ref(rec.before, n, i, extras[n])) for i in range(len(run.shapes))]
        if n + J < burn_in:
            last = cur
        pre = last if (n + J >= burn_in and last is not None) else cur
        where = "%s step %d (%s)" % (what, n + J + 1, "burn-in" if n + J < burn_in else "sampling")
        for i, s in enumerate(run.shapes):
            for idx in np.ndindex(s):
                got = rec.after[i][idx]
                base = drift(got, noise_symbols(got, rec))
                rule = "adapted-during-burn-in" if n + J < burn_in else (
                    "frozen-after-burn-in" if burn_in else "adapted-without-burn-in")
                ctx.eq(rule, base, drift_want(run, rec, n, pre[i], V, i, idx, extras[n]), (), 16, where)
            V[i] = ops.sub(rec.after[i], rec.before[i])
        same_array(ctx, "cost-under-the-feeds", rec.cost_data, ops.A(run.cost_ref(rec.before, n, extras[n])), where)


def flag(ctx, which, burn_in):
    """is_burning_in after many steps: the counters of the sampler are moved on, it is not stepped that far."""
    I = ctx.interp()
    run = make(ctx, which, [()], burn_in=burn_in, I=I)
    run.step()
    was = counters(run)
    run.step()
    at = {burn_in + d for d in (-1000, -10, -2, -1, 0, 1, 2, 10, 1000, 2 ** 15, 2 ** 16, 10 ** 6, 2 ** 31, 2 ** 32)}
    for d in jump(run, was, sorted(k - 2 for k in at | set(sizes(["samplers"], 6, 10 ** 9)) if k > 2)):
        b = ctx.must(I.run(lambda: I.getattr(run.sampler, "is_burning_in")))
        b = I.norm(b) if isinstance(b, tm.T) else b
        ctx.ob("burn-in-flag", b is (d + 2 < burn_in), "is %r before step %d" % (b, d + 3),
               "%s burn_in_steps=%d" % (which, burn_in))


def validation(ctx, which):
    for bad in (2.5, "3", None):
        I = ctx.interp()
        run = make(ctx, which, None, burn_in=None, kw={"burn_in_steps": bad}, I=I, must=False)
        ctx.ob("burn-in-steps-must-be-an-integer", run.out.value is UNBOUND or run.sampler is None,
               "%r is accepted" % (bad,), which)


def run(ctx):
    for which in BURN:
        for b, n in ((0, 2), (1, 4), (2, 5), (3, 5)) + (((5, 9), (8, 8)) if ctx.thorough else ()):
            ctx.scenario("%s %d" % (which, b), case, ctx, which, b, n)
        for b, warm in ((30, 28), (12, 45)) + (((700, 698), (300, 1300)) if ctx.thorough else ()):
            ctx.scenario("%s %d after %d steps" % (which, b, warm), case, ctx, which, b, 4, False, [(2,)], warm)
        for n in sizes(["samplers"], 6, 4000):
            for b in (n // 2, n, n + 9):
                ctx.scenario("%s %d after %d steps" % (which, b, n - 2), case, ctx, which, b, 4, False, [()], n - 2)
        for b in [0, 1, 2, 3, 7, 10, 50, 100, 999, 1000, 1001, 3000, 10 ** 4, 50000, 10 ** 5, 10 ** 6, 10 ** 7] + \
                sizes(["samplers"], 6, 10 ** 9):
            ctx.scenario("%s flag %d" % (which, b), flag, ctx, which, b)
        for b in [1000, 3000, 50000, 10 ** 6] + sizes(["samplers"], 4001, 10 ** 9):
            ctx.scenario("%s %d at its end" % (which, b), case, ctx, which, b, 4, False, [()], 4, b - 2)
            ctx.scenario("%s %d after it" % (which, b), case, ctx, which, b - 70000 if b > 70000 else 3, 2, False, [()], 4, b)
        ctx.scenario("%s feeds" % which, case, ctx, which, 2, 4, True)
        ctx.scenario("%s long" % which, case, ctx, which, 5, 7, False, [()])
        ctx.scenario("%s one parameter" % which, case, ctx, which, 1, 3, False, [(2, 2)])
        ctx.scenario("%s validation" % which, validation, ctx, which)

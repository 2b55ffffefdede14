"""C06: one next() is one step: one batch, one step size, one update, one report."""
from .. import ops
from .. import terms as tm
from ..mcmc import *
from ..sizes import sizes
from ..vals import UNBOUND

EXPLANATION = ("Every sampler is interpreted over several next() calls, inside and outside burn-in; the events of each"
               " call (batches, step sizes, graph runs, schedule updates) and the returned value graphs are checked.")
FLOOR = 150
ANCHORS = ["pysgmcmc.samplers.base_classes.MCMCSampler.__next__"]


def protocol(ctx, run, steps, what, batches=True, warm=0, jump_to=None):
    I = run.I
    it = I.run(lambda: I.lib.f_builtins_iter([run.sampler], {}))
    ctx.must(it)
    ctx.ob("iterates-over-itself", it.value == run.sampler, repr(it.value), what)
    n_batch0 = run.batches.n if run.batches else 0
    ctx.ob("no-batch-before-first-step", n_batch0 == 0, "%d batches used during construction" % n_batch0, what)
    pt = tm.Valuation(3)
    J = 0
    for k in range(warm + steps):
        was = counters(run)
        rec = run.step()
        where = "%s step %d" % (what, k + J + 1)
        nb = [e for e in rec.events if e.kind == "batch_next"]
        ns = [e for e in rec.events if e.kind == "schedule_next"]
        nu = [e for e in rec.events if e.kind == "schedule_update"]
        if batches:
            ctx.ob("one-batch-per-step", len(nb) == 1, "%d batches" % len(nb), where)
        ctx.ob("one-stepsize-per-step", len(ns) == 1, "%d step sizes" % len(ns), where)
        ctx.ob("schedule-told-once-per-step", len(nu) == 1, "%d updates" % len(nu), where)
        writes = {}
        for e in rec.runs:
            st = e.data.get("step")
            if st is not None:
                for v, ws in st.writes.items():
                    if v in run.params:
                        writes[v] = writes.get(v, 0) + len(ws)
        for i, v in enumerate(run.params):
            ctx.ob("each-parameter-updated-once", writes.get(v, 0) == 1,
                   "parameter %d is written %d times" % (i, writes.get(v, 0)), where)
        ok = ctx.ob("step-returns-sample-and-cost", rec.sample_data is not None and rec.cost_data is not None,
                    "returned %r" % (rec.value,), where)
        if not ok:
            continue
        if len(run.params) == 1:
            ctx.ob("single-parameter-is-bare", not isinstance(rec.sample_data, list), "", where)
        else:
            ctx.ob("parameters-in-a-list", isinstance(rec.sample_data, list) and
                   len(rec.sample_data) == len(run.params), repr(rec.sample), where)
        for i, (got, want) in enumerate(zip(run.samples(rec), rec.after)):
            same_array(ctx, "sample-is-the-updated-parameters", got, want, where)
        moved = any(tm.term(a) is not tm.term(b) for x, y in zip(rec.after, rec.before)
                    for a, b in zip(ops.A(x).flat, ops.A(y).flat))
        ctx.ob("parameters-move", moved, "no parameter changes", where)
        same_array(ctx, "cost-before-the-update", rec.cost_data, cost_want(run, rec.before, k), where)
        if nu:
            args, kw = nu[0].args, dict(nu[0].kw)
            args = list(args) + [kw[n] for n in sorted(kw, reverse=True)]
            ctx.ob("schedule-update-arguments", len(args) == 2, "%d arguments" % len(args), where)
            if len(args) == 2:
                up = run.snapshot(args[0])
                ctx.ob("schedule-sees-the-sample", isinstance(up, list) == isinstance(rec.sample_data, list),
                       "a single parameter is told in another form than it is returned", where)
                up = up if isinstance(up, list) else [up]
                for a, b in zip(up, run.samples(rec)):
                    same_array(ctx, "schedule-sees-the-sample", a, b, where)
                same_array(ctx, "schedule-sees-the-cost", run.data(args[1]), rec.cost_data, where)
        ctx.ob("graph-does-not-grow", rec.nodes_after == rec.nodes_before,
               "%d operations are added by a step" % (rec.nodes_after - rec.nodes_before), where)
        for e in rec.runs:
            ctx.ob("runs-in-the-given-session", e.session is run.session, repr(e.session), where)
        ctx.ob("no-race", not rec.races, "", where)
        if run.I.lib.hasattr_(run.sampler, "n_iterations") is True:
            n = run.I.getattr(run.sampler, "n_iterations")
            ctx.ob("iterations-are-counted", n == k + J + 1, "n_iterations is %r after %d steps" % (n, k + J + 1), where)
        if k < warm:
            run.ground(pt)
        if jump_to is not None and k == warm - 1:
            J = sum(jump(run, was, [jump_to - warm]))


def case(ctx, which, shapes, what, **kw):
    warm, jump_to = kw.pop("warm", 0), kw.pop("jump_to", None)
    run = make(ctx, which, shapes, **kw)
    protocol(ctx, run, 4 if not ctx.thorough else 7, "%s %s" % (which, what), batches=kw.get("batches", True), warm=warm, jump_to=jump_to)


def exhausted(ctx, which, burn_in):
    """A batch iterator that ends: the step that finds no batch is no step."""
    run = make(ctx, which, None, burn_in=burn_in)
    run.batches.limit = 2
    run.step(), run.step()
    rec = run.step(must=False)
    where = "%s, batches end after 2 steps%s" % (which, "" if which not in BURN else ", burn-in %d" % burn_in)
    ctx.ob("no-step-without-a-batch", rec.out.raised and (rec.value is None or rec.value is UNBOUND), "returned %r" % (rec.value,), where)
    for i, (a, b) in enumerate(zip(rec.after, rec.before)):
        same_array(ctx, "no-step-without-a-batch", a, b, where + " parameter %d" % i)
    ctx.ob("no-step-without-a-batch", not [e for e in rec.events if e.kind == "schedule_update"], "the schedule is told of a step", where)


def run(ctx):
    for which in ALL:
        ctx.scenario(which, case, ctx, which, None, "several parameters")
        ctx.scenario(which + " hyperparameters", case, ctx, which, None, "hyperparameters", hyper=True)
        if which != "SVGD":
            ctx.scenario(which + " one parameter", case, ctx, which, [(2,)], "one parameter")
        ctx.scenario(which + " without batches", case, ctx, which, None, "without batches", batches=False)
        ctx.scenario(which + " history", case, ctx, which, [(2,), ()], "history", burn_in=20, warm=40 if not ctx.thorough else 400)
        for n in sizes(["samplers", "stepsize_schedules.py"], 6, 3000):
            ctx.scenario(which + " history of %d" % n, case, ctx, which, [(), ()], "history", burn_in=n, warm=n - 2)
        for n in [1000, 4096, 65536, 10 ** 6] + sizes(["samplers", "stepsize_schedules.py"], 3001, 10 ** 9):
            ctx.scenario(which + " at step %d" % n, case, ctx, which, [(), ()], "at step %d" % n, burn_in=n, warm=3, jump_to=n - 2)
        for b in ((0, 1, 5) if which in BURN else (0,)):
            ctx.scenario(which + " batches end %d" % b, exhausted, ctx, which, b)
        if which in BURN:
            ctx.scenario(which + " no burn-in", case, ctx, which, None, "no burn-in", burn_in=0)
            ctx.scenario(which + " all burn-in", case, ctx, which, [()], "all burn-in", burn_in=50)

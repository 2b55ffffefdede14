"""C14: the result of a step does not depend on the order in which the runtime schedules operations."""
from .. import ops
from .. import terms as tm
from ..mcmc import *

EXPLANATION = ("For every graph run that the samplers make, each read and write of a variable must be ordered by data or"
               " control edges with every write of that variable in the same run.")
FLOOR = 60
ANCHORS = []


def describe(r):
    var, w, reader = r
    return "%s %r written at %s is %s" % (
        "variable", var.name or var.id, w.site,
        "fetched in the same run" if reader is None else "accessed without ordering by %s at %s" % (reader.op, reader.site))


def case(ctx, which, what, shapes=None, steps=4, cost="plain", **kw):
    I = ctx.interp()
    run = make(ctx, which, shapes, I=I, **kw)
    for _ in range(steps):
        run.step()
    n = 0
    for e in I.evs("run"):
        st = e.data.get("step")
        if st is None:
            continue
        n += 1
        accesses = len(st.reads) + sum(len(w) for w in st.writes.values())
        ctx.ob("accesses-are-ordered", not st.races, "; ".join(describe(r) for r in st.races[:3]),
               "%s %s run %d" % (which, what, n), st.races[0][1].site if st.races else e.site)
        for var, ws in st.writes.items():
            ctx.ob("single-writer-per-run", len(ws) == 1 or not st.races, "%d unordered writers" % len(ws),
                   "%s %s run %d" % (which, what, n))
    ctx.ob("runs-analysed", n >= steps, "%d" % n, "%s %s" % (which, what))
    # what a step reports belongs to one state
    for k, rec in enumerate(run.steps):
        same_array(ctx, "cost-of-the-state-before", rec.cost_data, cost_want(run, rec.before, k),
                   "%s %s step %d" % (which, what, k + 1))


def run(ctx):
    for which in ALL:
        ctx.scenario(which, case, ctx, which, "several parameters")
        ctx.scenario(which + " hyperparameters", case, ctx, which, "hyperparameters", None, 3, hyper=True)
        if which != "SVGD":
            ctx.scenario(which + " scalar", case, ctx, which, "one parameter", [()])
        if which in BURN:
            ctx.scenario(which + " matrix", case, ctx, which, "matrix", [(2, 2), (3,)])
            ctx.scenario(which + " no burn-in", case, ctx, which, "no burn-in", None, 2, burn_in=0)
        ctx.scenario(which + " no batches", case, ctx, which, "no batches", None, 2, batches=False)

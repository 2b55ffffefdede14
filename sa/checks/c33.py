"""C33: samplers do not influence each other, and leave the caller's objects as they were."""
from ..mcmc import *

EXPLANATION = ("Each sampler is interpreted alone and, in a second analysis, interleaved with another sampler of every kind"
               " built in the same graph; the value graphs of its samples, costs, noise seeds and schedule use are compared.")
FLOOR = 300
ANCHORS = []
OPT = {
    "SGHMC": lambda t: dict(mdecay=tm.sym("mdecay" + t, kind="unit"), scale_grad=pos("scale" + t), seed=11),
    "SGLD": lambda t: dict(A=pos("A" + t), scale_grad=pos("scale" + t), seed=11),
    "RelativisticSGHMC": lambda t: dict(mass=pos("mass" + t), D=pos("D" + t), Bhat=tm.const(0), seed=11),
    "SVGD": lambda t: dict(alpha=tm.sym("alpha" + t, kind="unit"), fudge_factor=pos("fudge" + t)),
}
SHAPES = [(), (2,)]


def build(ctx, which, tag, I=None, burn_in=2, **kw):
    return make(ctx, which, SHAPES, burn_in=burn_in, kw=dict(OPT[which](tag), **kw), I=I, tag=tag)


def facts(run, n):
    """Outputs, next states and noise seeds of the first n steps."""
    out = outputs(run)[:]
    seeds = []
    for rec in run.steps[:n]:
        for a in rec.after:
            out.extend(tm.term(x) for x in ops.A(a).flat)
        for nd, st in rec.random:
            seeds.append(tm.term(nd.attrs.get("seed")))
    return canon(out, run.steps[:n]) + seeds


def pair(ctx, which, other, order, steps=4):
    alone = build(ctx, which, "")
    for _ in range(steps):
        alone.step()
    want = facts(alone, steps)
    what = "%s next to %s (%s)" % (which, other, order)
    if order == "second":
        b = build(ctx, other, "B", burn_in=5)
        b.step()
        a = build(ctx, which, "", I=b.I)
    else:
        a = build(ctx, which, "")
        b = build(ctx, other, "B", I=a.I, burn_in=5)
    for k in range(steps):
        if k % 2 == 0:
            b.step()
        a.step()
        b.step()
    got = facts(a, steps)
    ctx.ob("same-number-of-outputs", len(got) == len(want), "%d and %d" % (len(got), len(want)), what)
    for g, w in zip(got, want):
        ctx.eq("isolated", g, w, (), 6, what)
    ctx.ob("own-schedule", a.schedule.n == alone.schedule.n, "%d and %d values drawn" % (a.schedule.n, alone.schedule.n), what)
    ctx.ob("own-batches", a.batches.n == alone.batches.n, "%d and %d batches drawn" % (a.batches.n, alone.batches.n), what)
    for r in (a, b):
        for rec in r.steps:
            for e in rec.runs:
                ctx.ob("own-session", e.session is r.session, repr(e.session), what, e.site)


def caller(ctx, which):
    """The caller's parameter list, schedule and feeds are not modified."""
    run = build(ctx, which, "")
    I = run.I
    before = list(run.params)

    def check(when):
        now = I.items_of(run.param_list)
        ctx.ob("parameter-list-untouched", len(now) == len(before) and all(x is y for x, y in zip(now, before)),
               "%r -> %r" % (before, now), "%s %s" % (which, when))
    check("constructed")
    for k in range(3):
        run.step()
        check("step %d" % (k + 1))
    extra = I.graph.placeholder(run.dtype, (), "extra")
    feed = I.dict_([(extra, tm.sym("fed"))])
    for k in range(2):
        run.step(feed=feed)
        items = I.lib.dict_items(feed)
        ctx.ob("feed-untouched", len(items) == 1 and items[0][0] is extra, repr(items), "%s step" % which)
    for k, ref in enumerate(run.batches.refs):
        items = I.lib.dict_items(ref)
        ctx.ob("batch-untouched", len(items) == 1 and items[0][0] is run.placeholder, repr(items), "%s batch %d" % (which, k))
    for e in I.evs("mutate"):
        ctx.ob("caller-data-untouched", not (isinstance(e.data.get("owner"), tuple) and e.owner[0] == "ext"),
               repr(e), which, e.site)


def tuple_params(ctx, which):
    """A tuple of parameters is treated like a list."""
    run = build(ctx, which, "")
    run.step()
    ctx.ob("parameter-objects-kept", [x for x in run.I.items_of(run.param_list)] == run.params, "", which)


def run(ctx):
    for which in ALL:
        for other in ALL:
            for order in ("first", "second"):
                if order == "second" and which != other and not ctx.thorough:
                    continue
                ctx.scenario("%s with %s %s" % (which, other, order), pair, ctx, which, other, order,
                             7 if ctx.thorough else 4)
        ctx.scenario("%s caller" % which, caller, ctx, which)

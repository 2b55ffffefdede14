"""C31: every tensor of a sampler has the requested floating point type."""
from .. import ops
from .. import terms as tm
from ..mcmc import *

EXPLANATION = ("Every sampler is interpreted with float32 and float64; the type of every variable, noise operation and"
               " assigned value of its graph is compared with the requested one, and no operation may mix types.")
FLOOR = 100
ANCHORS = []
FLOATS = ("float16", "float32", "float64")


def case(ctx, which, dtype, **opts):
    I = ctx.interp()
    run = make(ctx, which, None, dtype=dtype, I=I, must=False, **opts)
    what = "%s %s" % (which, dtype)
    ctx.must(run.out, "types-agree", (), what)
    for _ in range(3):
        rec = run.step(must=False)
        ctx.must(rec.out, "types-agree", (), what)
    want = DType(dtype)
    for n in I.graph.nodes:
        if n.dtype is not None and n.dtype.name in FLOATS:
            ctx.ob("requested-type", n.dtype is want, "%s %r has type %s" % (n.op, n.name, n.dtype.name), what, n.site)
    for e in I.evs("dtype_mismatch"):
        ctx.ob("types-agree", False, "%s mixes %r" % (e.op, e.dtypes), what, e.site)
    ctx.ob("types-agree", True, "", what)


def invalid(ctx, which):
    run = make(ctx, which, None, kw={"dtype": "double"}, must=False)
    ctx.ob("type-is-checked", run.sampler is None, "a dtype that is no tensorflow type is accepted", which)


def run(ctx):
    for which in ALL:
        for dt in ("float64", "float32"):
            ctx.scenario("%s %s" % (which, dt), case, ctx, which, dt)
            ctx.scenario("%s %s seeded" % (which, dt), case, ctx, which, dt, kw={"seed": 3, "dtype": DType(dt)})
            ctx.scenario("%s %s hyperparameters" % (which, dt), case, ctx, which, dt, hyper=True)

"""C39: samplers refuse malformed arguments before they touch the session."""
from ..mcmc import *

EXPLANATION = ("Every sampler's constructor is interpreted with one malformed argument at a time; it has to raise on every"
               " path before a graph run, and the well-formed neighbours of these arguments have to be accepted.")
FLOOR = 120
ANCHORS = ["pysgmcmc.samplers.base_classes.MCMCSampler.__init__"]
REFUSALS = ("AssertionError", "TypeError", "ValueError", "AttributeError")


def partial_schedule(missing):
    attrs = {"initial_value": pos("e")}
    methods = {"__next__": lambda I, a, k: pos("e"), "update": lambda I, a, k: None, "__iter__": lambda I, a, k: None}
    attrs.pop(missing, None)
    methods.pop(missing, None)
    return Opq("schedule without " + missing, "schedule", attrs=attrs, methods=methods, strict=True)


def things(I):
    """Values of many kinds, none of which is a callable, an iterator, a session, a type or an integer."""
    return {"text": "3", "float": 2.5, "list": I.list_([1, 2]), "dict": I.dict_([]), "none": None, "int": 3}


BAD = {
    "cost_fun": ("text", "float", "list", "dict", "none", "int"),
    "batch_generator": ("text", "float", "list", "dict", "int"),
    "stepsize_schedule": ("text", "float", "list", "none", "int"),
    "seed": ("text", "float", "list"),
    "session": ("text", "float", "list", "int"),
    "dtype": ("text", "float", "list", "none", "int"),
    "burn_in_steps": ("text", "float", "list", "none"),
}
EXTRA = {"SVGD": {"alpha": ("text", "list", "none"), "fudge_factor": ("text", "list", "none")},
         "RelativisticSGHMC": {"mass": ("text", "list", "none"), "speed_of_light": ("text", "list", "none")},
         "SGHMC": {}, "SGLD": {}}
LATE = ("mass", "speed_of_light")      # looked at when the momenta are drawn


def construct(ctx, which, name, value, I, default=False):
    """The constructor's outcome with `name` replaced by `value` in a well-formed call."""
    g = I.graph
    session = I.run(lambda: I.lib.new_session()).value
    if default:
        I.lib.default_session = session
    if which == "RelativisticSGHMC":
        I.lib.ars = Ars(I)
    shapes = [(2,)] * 3 if which == "SVGD" else [(), ()]
    ps = [g.variable(g.const(0.0 if s == () else I.arr(ops.full(s, 0)), dtype=DType("float64")), DType("float64"),
                     "theta%d" % i) for i, s in enumerate(shapes)]
    calls = []

    def cost(I, a, k):
        calls.append(a)
        p = a[0] if a else k["params"]
        return g.userfun("U", [p] if isinstance(p, TNode) else list(I.items_of(p)), shape=())
    kw = {"particles" if which == "SVGD" else "params": I.list_(ps), "cost_fun": Native("cost_fun", cost),
          "session": session}
    if value is UNBOUND:
        kw.pop(name)
    else:
        kw[name] = value
    n0 = len(I.events)
    out = I.run(lambda: I.call(I.resolve(CLS[which]), [], kw))
    return out, I.events[n0:]


def refused(ctx, which, name, value, I, what, default=True):
    out, events = construct(ctx, which, name, value, I, default)
    where = "%s %s is %s" % (which, name, what)
    ctx.ob("malformed-argument-refused", out.value is UNBOUND and bool(out.raised), "accepted", where)
    ctx.ob("refused-with-an-argument-error", all(e.exc.name() in REFUSALS for _, e in out.raised),
           repr([e.exc for _, e in out.raised]), where)
    if name not in LATE:
        ctx.ob("nothing-run-before-refusal", not [e for e in events if e.kind == "run"], "a graph run precedes it", where)


def accepted(ctx, which, name, value, I, what, default=True):
    out, _ = construct(ctx, which, name, value, I, default)
    where = "%s %s is %s" % (which, name, what)
    ctx.must(out, "well-formed-argument-accepted", (), where)


def bad(ctx, which, name, kinds):
    for kind in kinds:
        I = ctx.interp()
        refused(ctx, which, name, things(I)[kind], I, kind)


def schedules(ctx, which):
    for missing in ("update", "__next__", "initial_value"):
        refused(ctx, which, "stepsize_schedule", partial_schedule(missing), ctx.interp(), "an object without " + missing)
    accepted(ctx, which, "stepsize_schedule", partial_schedule("nothing"), ctx.interp(), "an object with all three")


def good(ctx, which):
    accepted(ctx, which, "seed", 0, ctx.interp(), "0")
    accepted(ctx, which, "seed", None, ctx.interp(), "None")
    accepted(ctx, which, "seed", 2 ** 31 - 1, ctx.interp(), "large")
    accepted(ctx, which, "batch_generator", None, ctx.interp(), "None")
    it = Opq("batches", "batches", methods={"__next__": lambda I, a, k: I.dict_([]), "__iter__": lambda I, a, k: it})
    accepted(ctx, which, "batch_generator", it, ctx.interp(), "an iterator")
    accepted(ctx, which, "dtype", DType("float64"), ctx.interp(), "float64")
    accepted(ctx, which, "session", None, ctx.interp(), "None with a default session")
    accepted(ctx, which, "session", UNBOUND, ctx.interp(), "left out with a default session")
    refused(ctx, which, "session", None, ctx.interp(), "None without a default session", False)
    refused(ctx, which, "session", UNBOUND, ctx.interp(), "left out without a default session", False)
    refused(ctx, which, "cost_fun", UNBOUND, ctx.interp(), "left out")
    if which in BURN:
        for n in (0, 1, 3000):
            accepted(ctx, which, "burn_in_steps", n, ctx.interp(), n)


def feeds(ctx, which):
    """A step refuses feeds that are no mapping before it takes a batch or a step size."""
    for kind in ("text", "float", "int"):
        run = make(ctx, which)
        out0 = run.step()
        n0, b0, s0 = len(run.I.events), run.batches.n, run.schedule.n
        v = things(run.I)[kind]
        out = run.I.run(lambda: run.I.call(run.I.getattr(run.sampler, "__next__"), [], {"feed_dict": v}))
        where = "%s feeds are %s" % (which, kind)
        ctx.ob("malformed-feeds-refused", out.value is UNBOUND, "accepted", where)
        ctx.ob("nothing-run-before-refusal", not [e for e in run.I.events[n0:] if e.kind == "run"], "", where)
        ctx.ob("nothing-consumed-before-refusal", (run.batches.n, run.schedule.n) == (b0, s0), "a batch or step size is lost", where)


def run(ctx):
    for which in ALL:
        for name, kinds in sorted(BAD.items()) + sorted(EXTRA[which].items()):
            if name != "burn_in_steps" or which in BURN:
                ctx.scenario("%s %s" % (which, name), bad, ctx, which, name, kinds)
        ctx.scenario("%s schedules" % which, schedules, ctx, which)
        ctx.scenario("%s accepted" % which, good, ctx, which)
        ctx.scenario("%s feeds" % which, feeds, ctx, which)

"""C40: a sampler starts from the parameters' current values and initialises only what is not initialised."""
from ..mcmc import *

EXPLANATION = ("Every sampler is interpreted over parameters of which every subset is already initialised in the session and"
               " holds free symbols, next to unrelated variables; the values of all variables after construction and the"
               " first steps are compared with those of a sampler whose parameters have these values initially.")
FLOOR = 60
ANCHORS = ["pysgmcmc.samplers.base_classes.MCMCSampler.__init__"]
F = DType("float64")


def variable(I, name, shape):
    init = arr(lambda i: tm.sym("%s.init%s" % (name, list(i))), shape)
    n = I.graph.variable(I.graph.const(I.arr(init), dtype=F), F, name)
    return n, init


def values_of(I, session):
    return dict(I.get(I.lib.state_of(session)).vars)


def load(I, session, v, value):
    d = values_of(I, session)
    d[v] = value
    I.put(I.lib.state_of(session), StateC(d))


def started(ctx, which, shapes, loaded, steps=2):
    """A sampler over variables of which those in `loaded` are initialised and have moved."""
    I = ctx.interp()
    where = "%s %s, initialised before: %s" % (which, shapes, sorted(loaded))
    session = I.run(lambda: I.lib.new_session()).value
    if which == "RelativisticSGHMC":
        I.lib.ars = Ars(I)
    made = [variable(I, "p%d" % i, s) for i, s in enumerate(shapes)]
    params = [v for v, _ in made]
    other_a, _ = variable(I, "untouched", (2,))
    other_b, _ = variable(I, "moved", (2,))
    moved = arr(lambda i: tm.sym("moved%s" % list(i)), (2,))

    def prep():
        I.lib.session_run(session, [I.lib.init_node([params[i] for i in sorted(loaded)] + [other_b])], {})
        for i in loaded:
            load(I, session, params[i], ops.A(arr(lambda j: tm.sym("p%d.now%s" % (i, list(j))), shapes[i])))
        load(I, session, other_b, ops.A(moved))
    ctx.must(I.run(prep))
    want = [ops.A(arr(lambda j: tm.sym("p%d.now%s" % (i, list(j))), shapes[i])) if i in loaded else ops.A(made[i][1])
            for i in range(len(shapes))]
    before = set(n for n in I.graph.nodes if n.is_var())
    run = Run.__new__(Run)
    attach(run, ctx, which, I, session, params, shapes)
    st = values_of(I, session)
    for i, v in enumerate(params):
        ctx.ob("parameter-is-initialised", v in st, "parameter %d has no value after construction" % i, where)
        if v in st:
            same_array(ctx, "initial-or-current-value", ops.A(st[v]), want[i], "%s parameter %d after construction" % (where, i))
    ctx.ob("other-variables-stay-uninitialised", other_a not in st, "", where)
    same_array(ctx, "other-variables-keep-their-values", ops.A(st[other_b]), ops.A(moved), where)
    # the user initialises what is left of the sampler's own variables
    own = [n for n in I.graph.nodes if n.is_var() and n not in before and n not in st]
    # (tf.Variable of a sampler may start from another one of its variables: TF orders these by itself)
    if own:
        ctx.must(I.run(lambda: I.lib.session_run(session, [I.lib.init_node(own)], {})))
    st = values_of(I, session)
    for i, v in enumerate(params):
        same_array(ctx, "initial-or-current-value", ops.A(st[v]), want[i], "%s parameter %d before the first step" % (where, i))
    for _ in range(steps):
        run.step()
    st = values_of(I, session)
    ctx.ob("other-variables-stay-uninitialised", other_a not in st, "after stepping", where)
    same_array(ctx, "other-variables-keep-their-values", ops.A(st[other_b]), ops.A(moved), where + " after stepping")
    return run, want, where


def attach(run, ctx, which, I, session, params, shapes):
    """A Run over existing variables in an existing session (Run makes its own session otherwise)."""
    new = I.lib.new_session
    I.lib.new_session = lambda *a, **k: session
    try:
        kw = {"burn_in_steps": 2} if which in BURN else {}
        run.__init__(ctx, which, shapes, kw=kw, I=I, params=params, init=False)
    finally:
        I.lib.new_session = new


def reference(ctx, which, shapes, want, steps=2):
    """The same sampler, over fresh variables with these initial values, everything initialised."""
    I = ctx.interp()
    if which == "RelativisticSGHMC":
        I.lib.ars = Ars(I)
    params = [I.graph.variable(I.graph.const(I.arr(w) if w.shape else tm.term(w[()]), dtype=F), F, "p%d" % i)
              for i, w in enumerate(want)]
    kw = {"burn_in_steps": 2} if which in BURN else {}
    run = Run(ctx, which, shapes, kw=kw, I=I, params=params)
    for _ in range(steps):
        run.step()
    return run


def case(ctx, which, shapes, loaded):
    run, want, where = started(ctx, which, shapes, loaded)
    ref = reference(ctx, which, shapes, want)
    a, b = canon(outputs(run), run.steps), canon(outputs(ref), ref.steps)
    ctx.ob("same-number-of-results", len(a) == len(b) and len(a) > 0, "%d, %d" % (len(a), len(b)), where)
    for x, y in zip(a, b):
        ctx.eq("starts-from-the-current-values", x, y, (), 8, where)


def run(ctx):
    for which in ALL:
        if which == "SVGD":
            shapes = [(2,)] * 3
        elif which == "RelativisticSGHMC":
            shapes = [()] * 2
        else:
            shapes = [(2,), (), (1, 2)]
        n = len(shapes)
        for mask in range(2 ** n):
            loaded = frozenset(i for i in range(n) if mask >> i & 1)
            ctx.scenario("%s %s" % (which, sorted(loaded)), case, ctx, which, shapes, loaded)
        if which != "SVGD":
            for loaded in (frozenset(), frozenset([0])):
                ctx.scenario("%s one parameter %s" % (which, sorted(loaded)), case, ctx, which, [()], loaded)

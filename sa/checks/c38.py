"""C38: arguments left out behave as their documented defaults."""
from .. import bnn as B
from ..mcmc import *

EXPLANATION = ("Every sampler, the network, the minibatch generators and the priors are interpreted once with an optional"
               " argument left out and once with its documented default passed; noise operations, samples, costs and"
               " whatever reaches sampler, batches and network have to be the same. The default lengths (burn-in,"
               " iterations, thinning, networks) are counted by interpreting the whole loop over stand-in steps.")
FLOOR = 150
ANCHORS = ["pysgmcmc.samplers.base_classes.MCMCSampler.__init__"]
CONSTANT = "pysgmcmc.stepsize_schedules.ConstantStepsizeSchedule"
BATCHES = "pysgmcmc.data_batches."
SHAPES = [(), (2,)]

NUMBERS = {
    "SGHMC": dict(mdecay=0.05, scale_grad=1.0),
    "SGLD": dict(A=1.0, scale_grad=1.0),
    "RelativisticSGHMC": dict(mass=1.0, speed_of_light=1.0, D=1.0, Bhat=0.0),
    "SVGD": dict(alpha=0.9, fudge_factor=1e-6),
}
STEPSIZE = {"SGHMC": 0.01, "SGLD": 0.01, "RelativisticSGHMC": 0.001, "SVGD": 0.1}


def seeds(run):
    return [[nd.attrs.get("seed") for nd, _ in rec.random] for rec in run.steps]


def compare(ctx, a, b, where):
    """Two runs with the same inputs are indistinguishable."""
    for rec in a.steps + b.steps:
        ctx.ob("step-returns", rec.sample_data is not None and rec.cost_data is not None, "", where)
    x, y = canon(outputs(a), a.steps), canon(outputs(b), b.steps)
    ctx.ob("same-number-of-results", len(x) == len(y) and len(x) > 0, "%d and %d" % (len(x), len(y)), where)
    for s, t in zip(x, y):
        ctx.eq("default-as-documented", s, t, (), 8, where)
    for p, q in zip(seeds(a), seeds(b)):
        ctx.ob("same-noise-operations", len(p) == len(q) and all(same_seed(s, t) for s, t in zip(p, q)),
               "seeds %r and %r" % (p, q), where)


def same_seed(a, b):
    if a is None or b is None:
        return a is b
    return bool(tm.equal(tm.term(a), tm.term(b), points=4).ok)


class Constant(object):
    """The library's own constant schedule, built by the caller."""
    values = ()

    def __init__(self, value):
        self.value, self.obj = value, None

    def bind(self, I):
        self.obj = I.call(I.resolve(CONSTANT), [self.value], {})


def pair(ctx, which, left, right, where, lkw=None, rkw=None, burn_in=2, dtype="float64", **opts):
    """Run without and with the argument."""
    runs = []
    for kw, extra in ((left, lkw), (right, rkw)):
        o = dict(opts)
        o.update(extra or {})
        if which == "RelativisticSGHMC":
            kw = dict(kw)
        r = make(ctx, which, SHAPES, burn_in=burn_in, kw=dict(kw), dtype=dtype, **o)
        for _ in range(3):
            r.step()
        runs.append(r)
    compare(ctx, runs[0], runs[1], where)


def number(ctx, which, name):
    d = NUMBERS[which]
    others = {k: pos(k) if k not in ("alpha", "mdecay") else tm.sym(k, kind="unit") for k in d if k != name}
    pair(ctx, which, others, dict(others, **{name: tm.const(d[name])}), "%s without %s" % (which, name))


def stepsize(ctx, which):
    pair(ctx, which, {}, {}, "%s without stepsize_schedule" % which, dict(schedule=None),
         dict(schedule=Constant(STEPSIZE[which])))


def nothing(ctx, which):
    """Nothing but the required arguments."""
    d = {k: tm.const(v) for k, v in NUMBERS[which].items()}
    pair(ctx, which, {}, dict(d, batch_generator=None, seed=None, dtype=DType("float64")), "%s with no options" % which,
         dict(schedule=None, batches=False, session="default"),
         dict(schedule=Constant(STEPSIZE[which]), batches=False, session="default"), burn_in=None)


def explicit_none(ctx, which):
    """No session given: the default session of that moment."""
    pair(ctx, which, {}, {"session": None}, "%s without session" % which, dict(session="default"), dict(session="default"))
    pair(ctx, which, {}, {"seed": None}, "%s without seed" % which)
    pair(ctx, which, {}, {"batch_generator": None}, "%s without batches" % which, dict(batches=False), dict(batches=False))


def later_session(ctx, which):
    """The default session is looked up when the sampler is built, each time."""
    I = ctx.interp()
    a = make(ctx, which, SHAPES, I=I, session="default", tag="a")
    b = make(ctx, which, SHAPES, I=I, session="default", tag="b")
    for r in (a, b):
        r.step()
    ctx.ob("session-of-that-moment", all(e.session is a.session for e in a.steps[0].runs) and
           all(e.session is b.session for e in b.steps[0].runs), "", which)


def burn_in(ctx, which, n=3000):
    run = make(ctx, which, [()], burn_in=None, schedule=None)
    I = run.I
    I.lib.PULLED, I.max_steps = 10 * n, 10 ** 7
    rec = run.step()
    memo = {}

    def hook(I, ev):
        # every later step gives what the first one gave; only what is asked for is observed
        key = [len(I.items_of(f)) if isinstance(f, Ref) and f.kind == "list" else 1 for f in I.items_of(ev.fetches)]
        k = tuple(key)
        if k not in memo:
            I.lib.run_hook = None
            memo[k] = I.lib.session_run(ev.session, [ev.fetches], {"feed_dict": ev.feed_ref})
            I.lib.run_hook = hook
        return memo[k]
    I.lib.run_hook = hook

    def burning():
        v = ctx.must(I.run(lambda: I.getattr(run.sampler, "is_burning_in")))
        return I.norm(v) if isinstance(v, T) else v
    last = None
    for k in range(1, n + 2):
        if k in (2, n // 2, n - 1, n, n + 1):
            ctx.ob("default-burn-in", burning() is (k < n), "flag %r before step %d" % (burning(), k + 1), which)
        out = I.run(lambda: I.lib.f_builtins_next([run.sampler], {}))
        ctx.must(out)
        del I.events[:]
    ctx.ob("default-burn-in", burning() is False, "", which)


# ------------------------------------------------------------------- network

def network(ctx):
    """What reaches sampler, batches and network when nothing is configured."""
    I = ctx.interp()
    b = B.Bnn(ctx, {"get_net": B.OMIT}, stub_batches=False, I=I, must=False)
    ctx.must(b.out)
    calls = {"net": [], "plain": [], "shuffled": []}

    def net(I, a, k):
        k = dict(zip(("inputs", "seed", "dtype"), a), **k)
        calls["net"].append(k)
        return b.net(I, [], k)

    def batches(kind):
        def f(I, a, k):
            k = dict(zip(("x", "y", "x_placeholder", "y_placeholder", "batch_size", "seed"), a), **k)
            calls[kind].append(k)
            return b.batches(I, [], k)
        return f
    I.overrides["pysgmcmc.models.bayesian_neural_network.get_default_net"] = Native("get_default_net", net)
    I.overrides[BATCHES + "generate_batches"] = Native("generate_batches", batches("plain"))
    I.overrides[BATCHES + "generate_shuffled_batches"] = Native("generate_shuffled_batches", batches("shuffled"))
    I.lib.PULLED, I.max_steps = 60000, 10 ** 7
    I.lib.run_hook = lambda I, ev: I.list_([tm.sym("nll"), tm.sym("mse")]) if b.samplers.steps else UNBOUND
    b.train()
    where = "network with no options"
    ctx.ob("default-network", len(calls["net"]) == 1, "%d calls" % len(calls["net"]), where)
    ctx.ob("default-batches", len(calls["plain"]) == 1 and not calls["shuffled"], "%r" % {k: len(v) for k, v in calls.items()}, where)
    ctx.ob("one-sampler", len(b.samplers.made) == 1, "%d" % len(b.samplers.made), where)
    cls, args = b.samplers.made[0]
    ctx.ob("default-method", cls is I.resolve(CLS["SGHMC"]), repr(cls), where)
    ctx.ob("default-burn-in", args.get("burn_in_steps") == 1000, repr(args.get("burn_in_steps")), where)
    for what, v in (("sampler", args), ("network", calls["net"][0])):
        ctx.ob("default-seed", v.get("seed") is None, "%s: %r" % (what, v.get("seed")), where)
        ctx.ob("default-dtype", v.get("dtype") is DType("float64"), "%s: %r" % (what, v.get("dtype")), where)
    bc = calls["plain"][0]
    ctx.ob("default-batch-size", bc.get("batch_size", 20) == 20, repr(bc.get("batch_size")), where)
    ctx.ob("default-seed", bc.get("seed") is None, repr(bc.get("seed")), where)
    s = args.get("stepsize_schedule")
    for what, f in (("first value", lambda: I.getattr(s, "initial_value")), ("next value", lambda: I.lib.f_builtins_next([s], {}))):
        v = ctx.must(I.run(f))
        ctx.eq("default-stepsize", tm.term(v), tm.const(0.01), (), 4, "%s %s" % (where, what))
    # 100 networks from iterations 1100, 1200, ..., 11000
    ctx.ob("default-retention", b.samplers.steps == 11001, "%d steps, required 11001" % b.samplers.steps, where)
    first_and_count(ctx, b, 100, 1100, 100, where)
    bx, by = I.get(bc["x"]).data, I.get(bc["y"]).data
    for what, got, d in (("inputs", bx, b.xd), ("labels", by, b.yd)):
        if d.ndim == 1:
            m, s = b.moments(d)
            want = B.ops.div(B.ops.sub(d, m), s)
        else:
            want = b.normalised(d, d)
        same_array(ctx, "normalised-by-default", got, want, "%s %s" % (where, what))


def first_and_count(ctx, b, n, first, step, where):
    x = b.data("t", 1)
    b.I.lib.run_hook = None
    means = b.predict(x, return_individual_predictions=True)[0]
    ctx.ob("default-number-of-networks", means.shape == (n, 1), repr(means.shape), where)
    for j in (0, 1, n - 1):
        if j < means.shape[0]:
            syms = [s for s in tm.free_syms([tm.term(means[j, 0])]) if s.startswith("s") and "." in s]
            ks = {int(s[1:].split(".")[0]) for s in syms}
            ctx.ob("default-thinning", ks == {first + j * step}, "network %d is %r" % (j, ks), where)


def iterations(ctx):
    """Without enough networks the training ends after the default number of iterations."""
    b = B.Bnn(ctx, {"sample_steps": 30000, "burn_in_steps": 0, "normalize_input": False, "normalize_output": False},
              N=1, D=1)
    I = b.I
    I.lib.PULLED, I.max_steps = 60000, 10 ** 7
    I.lib.run_hook = lambda I, ev: I.list_([tm.sym("nll"), tm.sym("mse")]) if b.samplers.steps else UNBOUND
    b.train()
    ctx.ob("default-iterations", b.samplers.steps == 50000, "%d, required 50000" % b.samplers.steps, "network")


# ---------------------------------------------------------------- generators

def batches(ctx, fname):
    from ..batch import Setup
    from ..drive import isym
    res = []
    I1, I2 = ctx.interp(), ctx.interp()
    for I, dflt in ((I1, True), (I2, False)):
        s = Setup(ctx, BATCHES + fname, N=isym("N", 1, 50), batch_size=20, default_bs=dflt, seed=isym("seed", 0, 99), I=I)
        out, items = s.first(2)
        ctx.must(out)
        res.append(items)
    for k, (a, b) in enumerate(zip(*res)):
        where = "%s item %d without batch_size" % (fname, k + 1)
        ctx.eq("default-batch-size", tm.term(a.x.shape[0]), tm.term(b.x.shape[0]), (), 40, where)
        ctx.eq("default-batch-size", tm.term(a.x.shape[0]), tm.fn("min", tm.const(20), isym("N", 1, 50)), (), 60, where)


def priors(ctx):
    I = ctx.interp()
    g = I.graph
    M = "pysgmcmc.models.bayesian_neural_network."

    def evaluate(node):
        s = I.run(lambda: I.lib.new_session()).value
        v = ctx.must(I.run(lambda: I.lib.session_run(s, [node], {})))
        return ops.A(I.get(v).data) if isinstance(v, Ref) else ops.A(tm.term(v))

    def data(name, shape, dtype):
        return g.const(I.arr(arr(lambda i: tm.sym("%s%s" % (name, list(i))), shape)), dtype=dtype)
    for f, omitted, full in (
            ("log_variance_prior_log_like", {}, dict(mean=tm.const(1e-6), var=tm.const(0.01), dtype=DType("float64"))),
            ("weight_prior_log_like", {}, dict(wdecay=tm.const(1.0), dtype=DType("float64")))):
        arg = data("v", (2, 1), DType("float64"))
        arg = arg if "var" in f.split("_")[1] else I.list_([arg, data("w", (2,), DType("float64"))])
        got = []
        for kw in (omitted, full):
            got.append(evaluate(ctx.must(I.run(lambda: I.call(I.resolve(M + f), [arg], dict(kw))))))
        same_array(ctx, "default-of-the-prior", got[0], got[1], f)


def run(ctx):
    for which in ALL:
        for n in NUMBERS[which]:
            ctx.scenario("%s %s" % (which, n), number, ctx, which, n)
        ctx.scenario("%s stepsize" % which, stepsize, ctx, which)
        ctx.scenario("%s nothing" % which, nothing, ctx, which)
        ctx.scenario("%s none" % which, explicit_none, ctx, which)
        ctx.scenario("%s sessions" % which, later_session, ctx, which)
    for which in BURN:
        ctx.scenario("%s burn-in" % which, burn_in, ctx, which)
    ctx.scenario("network", network, ctx)
    ctx.scenario("iterations", iterations, ctx)
    for f in ("generate_batches", "generate_shuffled_batches"):
        ctx.scenario(f, batches, ctx, f)
    ctx.scenario("priors", priors, ctx)

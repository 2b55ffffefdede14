"""C16: the network forwards its configuration to the sampler, the batches and the network function, or refuses it."""
from .c39 import partial_schedule
from ..bnn import *

EXPLANATION = ("BayesianNeuralNetwork is interpreted with symbolic configuration values; the arguments that reach the"
               " sampler's constructor, the batch generator and get_net are compared with the configuration, and every"
               " out-of-range or wrongly typed configuration value has to be refused by the constructor.")
FLOOR = 150
ANCHORS = [BNN + ".__init__", BNN + ".train"]


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (Ref, Opq, Native, TNode)) or isinstance(b, (Ref, Opq, Native, TNode)):
        return isinstance(a, Ref) and a == b
    try:
        return bool(tm.equal(tm.term(a), tm.term(b), points=4).ok)
    except Exception:
        return a == b


def schedule(name):
    return Opq(name, "schedule", attrs={"initial_value": pos(name)},
               methods={"__next__": lambda I, a, k: pos(name), "update": lambda I, a, k: None})


def forward(ctx, method, extra, dtype="float64", default_seed=False, counts=(3, 1, 1, 2)):
    sched = schedule("stepsize")
    seed = None if default_seed else isym("seed", 0, 2 ** 32 - 1)
    bs = isym("bs", 1, 50)
    kw = config(*counts, stepsize_schedule=sched, batch_size=bs, normalize_input=False, normalize_output=False)
    if not default_seed:
        kw["seed"] = seed
    more = {k: pos("opt:" + k) for k in extra}
    kw.update(more)
    b = Bnn(ctx, kw, method=method, dtype=dtype)
    where = "%s%s%s" % (method, " with " + ",".join(extra) if extra else "", "" if dtype == "float64" else " " + dtype)
    if counts != (3, 1, 1, 2):
        where += " iterations, burn-in, thinning, networks = %d, %d, %d, %d" % counts
    b.train()
    I = b.I
    ctx.ob("one-sampler", len(b.samplers.made) == 1, "%d" % len(b.samplers.made), where)
    cls, args = b.samplers.made[0]
    ctx.ob("requested-sampler", cls is I.resolve(CLS[method or "SGHMC"]), repr(cls), where)
    ctx.ob("session-forwarded", args.get("session") is b.session, repr(args.get("session")), where)
    ctx.ob("dtype-forwarded", args.get("dtype") is DType(dtype), repr(args.get("dtype")), where)
    ctx.ob("schedule-forwarded", args.get("stepsize_schedule") is sched, repr(args.get("stepsize_schedule")), where)
    ctx.ob("seed-forwarded", same(args.get("seed"), seed), repr(args.get("seed")), where)
    ctx.ob("burn-in-forwarded", same(args.get("burn_in_steps"), counts[1]), repr(args.get("burn_in_steps")), where)
    ctx.ob("gradient-scale-is-dataset-size", same(args.get("scale_grad"), b.N), repr(args.get("scale_grad")), where)
    for k, v in more.items():
        ctx.ob("option-forwarded", same(args.get(k), v), "%s is %r" % (k, args.get(k)), where)
    params = I.items_of(args["params"])
    ctx.ob("all-network-parameters", len(params) == len(b.net_vars) and all(x is y for x, y in zip(params, b.net_vars)),
           repr(params), where)
    ctx.ob("batches-forwarded", isinstance(args.get("batch_generator"), Opq) and args["batch_generator"].name == "batches",
           repr(args.get("batch_generator")), where)
    ctx.ob("one-batch-generator", len(b.batch_calls) == 1, "%d" % len(b.batch_calls), where)
    ctx.ob("one-network", len(b.net_calls) == 1, "%d" % len(b.net_calls), where)
    bc, nc = b.batch_calls[0], b.net_calls[0]
    ctx.ob("batch-size-forwarded", same(bc.get("batch_size"), bs), repr(bc.get("batch_size")), where)
    ctx.ob("batch-seed-forwarded", same(bc.get("seed"), seed), repr(bc.get("seed")), where)
    arrays_equal(ctx, "batches-over-training-inputs", I.get(bc["x"]).data, b.xd, where, 4)
    arrays_equal(ctx, "batches-over-training-labels", I.get(bc["y"]).data, b.yd, where, 4)
    ctx.ob("net-reads-the-input-placeholder", nc.get("inputs") is bc.get("x_placeholder"), repr(nc.get("inputs")), where)
    ctx.ob("label-placeholder", isinstance(bc.get("y_placeholder"), TNode) and bc["y_placeholder"].op == "placeholder" and
           bc["y_placeholder"] is not bc["x_placeholder"], repr(bc.get("y_placeholder")), where)
    ctx.ob("net-seed-forwarded", same(nc.get("seed"), seed), repr(nc.get("seed")), where)
    ctx.ob("net-dtype-forwarded", nc.get("dtype") is DType(dtype), repr(nc.get("dtype")), where)
    for p in (bc["x_placeholder"], bc["y_placeholder"]):
        ctx.ob("placeholder-dtype", p.dtype is DType(dtype), repr(p.dtype), where)
    cf = I.run(lambda: I.call(args["cost_fun"], [args["params"]], {}))
    ctx.ob("cost-is-a-tensor", isinstance(ctx.must(cf), TNode), repr(cf.value), where)
    ctx.ob("cost-of-this-network", isinstance(cf.value, TNode) and depends(cf.value, bc["x_placeholder"]) and
           depends(cf.value, bc["y_placeholder"]) and all(depends(cf.value, v) for v in b.net_vars), "", where)


def depends(y, x):
    seen, todo = set(), [y]
    while todo:
        n = todo.pop()
        if n is x:
            return True
        if n not in seen:
            seen.add(n)
            todo.extend(n.inputs)
    return False


def defaults(ctx):
    """The documented defaults."""
    I = ctx.interp()
    init = I.class_attr(I.resolve(BNN), "__init__")
    bound = I.bind_args(init, [None, Opq("session", "session")], {})
    for k, v in (("n_nets", 100), ("n_iters", 50000), ("burn_in_steps", 1000), ("sample_steps", 100), ("batch_size", 20),
                 ("normalize_input", True), ("normalize_output", True), ("seed", None)):
        got = bound.get(k, "missing")
        ctx.ob("documented-default", got == v and type(got) is type(v), "%s is %r, required %r" % (k, got, v), k)


def invalid(ctx):
    bad = []
    for n in ("n_nets", "n_iters", "sample_steps", "batch_size"):
        bad += [(n, 0), (n, -1), (n, 2.5), (n, "3"), (n, None)]
    bad += [("burn_in_steps", -1), ("burn_in_steps", 1.5), ("burn_in_steps", "3"), ("burn_in_steps", None)]
    bad += [("dtype", "not a dtype"), ("dtype", None), ("get_net", 3), ("get_net", None), ("batch_generator", 3),
            ("batch_generator", None), ("stepsize_schedule", 0.1), ("stepsize_schedule", None),
            ("stepsize_schedule", partial_schedule("update")), ("stepsize_schedule", partial_schedule("__next__"))]
    for n, v in bad:
        b = Bnn(ctx, {n: v}, must=False, stub_batches=n != "batch_generator")
        where = "%s=%r" % (n, v)
        ctx.ob("invalid-configuration-refused", b.out.value is UNBOUND, "accepted", where)
        ctx.ob("refused-with-assertion", b.out.raised and all(e.exc.name() in ("AssertionError", "ValueError", "TypeError")
                                                              for _, e in b.out.raised),
               repr([e.exc for _, e in b.out.raised]), where)


def symbolic(ctx):
    """Every integer out of range is refused, every integer in range accepted."""
    for n, lo in (("n_nets", 1), ("n_iters", 1), ("sample_steps", 1), ("batch_size", 1), ("burn_in_steps", 0)):
        v = isym("value", -50, 50)
        b = Bnn(ctx, {n: v}, must=False)
        c = tm.or_(*[tm.and_(*pc) for pc, _ in b.out.raised]) if b.out.raised else tm.FALSE
        ctx.eq("refused-exactly-when-invalid", c, tm.lt(v, tm.const(lo)), (), 120, n)


def methods(ctx):
    for m in ("RelativisticSGHMC", "SVGD"):
        b = Bnn(ctx, {}, method=m, must=False)
        ctx.ob("unsupported-method-refused", b.out.value is UNBOUND, "accepted", m)
        ctx.ob("refused-with-value-error", b.out.raised and all(e.exc.name() == "ValueError" for _, e in b.out.raised),
               repr([e.exc for _, e in b.out.raised]), m)
    for m in ("SGHMC", None):
        b = Bnn(ctx, {"sampling_method": "no method" if m else None}, must=False)
        ctx.ob("unsupported-method-refused", b.out.value is UNBOUND, "accepted", "no member")


def unknown_option(ctx):
    """Options the sampler does not have are refused at training at the latest."""
    for method, name in (("SGLD", "mdecay"), ("SGHMC", "A"), ("SGHMC", "learning_rate")):
        b = Bnn(ctx, config(2, 0, 1, 1, **{name: pos("opt")}), method=method, must=False)
        if b.out.value is UNBOUND:
            ctx.ob("unknown-option-refused", True, "", "%s %s" % (method, name))
            continue
        out = b.train(must=False)
        ctx.ob("unknown-option-refused", out.value is UNBOUND and b.samplers.steps == 0, "accepted", "%s %s" % (method, name))


def explicit_none(ctx):
    """An option that is None is an option: forwarded, or refused where the sampler has none of that name."""
    b = Bnn(ctx, config(2, 0, 1, 1, mdecay=None))
    b.train()
    args = b.samplers.made[0][1]
    ctx.ob("option-forwarded", args.get("mdecay", "missing") is None, "mdecay is %r" % (args.get("mdecay"),), "mdecay=None")
    for method, name in (("SGLD", "mdecay"), ("SGHMC", "learning_rate")):
        b = Bnn(ctx, config(2, 0, 1, 1, **{name: None}), method=method, must=False)
        if b.out.value is UNBOUND:
            ctx.ob("unknown-option-refused", True, "", "%s %s=None" % (method, name))
            continue
        out = b.train(must=False)
        ctx.ob("unknown-option-refused", out.value is UNBOUND and b.samplers.steps == 0, "accepted", "%s %s=None" % (method, name))


def again(ctx, method, first, second):
    """The next training is configured for its own data."""
    b = Bnn(ctx, config(3, 1, 1, 2, normalize_input=False, normalize_output=False), method=method, reuse=True)
    for k, n in enumerate((first, second)):
        b.N = n
        b.train(b.data("x%d" % k, n), b.data("y%d" % k, n, cols=0))
        where = "%s training %d, %d points" % (method, k + 1, n)
        if not ctx.ob("one-sampler", len(b.samplers.made) == k + 1, "%d" % len(b.samplers.made), where):
            return
        args, bc = b.samplers.made[k][1], b.batch_calls[k]
        ctx.ob("gradient-scale-is-dataset-size", same(args.get("scale_grad"), n), repr(args.get("scale_grad")), where)
        ctx.ob("burn-in-forwarded", same(args.get("burn_in_steps"), 1), repr(args.get("burn_in_steps")), where)
        arrays_equal(ctx, "batches-over-training-inputs", b.I.get(bc["x"]).data, b.xd, where, 4)
        arrays_equal(ctx, "batches-over-training-labels", b.I.get(bc["y"]).data, b.yd, where, 4)
        params = b.I.items_of(args["params"])
        ctx.ob("all-network-parameters", len(params) == len(b.net_vars), repr(params), where)
        cf = ctx.must(b.I.run(lambda: b.I.call(args["cost_fun"], [args["params"]], {})))
        ctx.ob("cost-of-this-training", isinstance(cf, TNode) and depends(cf, bc["x_placeholder"]) and depends(cf, bc["y_placeholder"]),
               "", where)


def run(ctx):
    ctx.scenario("options None", explicit_none, ctx)
    for method in ("SGHMC", "SGLD"):
        for first, second in ((3, 5), (4, 2)):
            ctx.scenario("%s %d then %d points" % (method, first, second), again, ctx, method, first, second)
    for method, extra in (("SGHMC", ()), ("SGHMC", ("mdecay",)), ("SGLD", ()), ("SGLD", ("A",)), (None, ("mdecay",))):
        ctx.scenario("forward %s %s" % (method, extra), forward, ctx, method, extra)
    for counts in ((3, 1, 2, 1), (3, 2, 1, 1), (6, 0, 3, 1), (2, 5, 1, 1), (4, 3, 2, 5), (5, 1, 4, 1), (1, 0, 1, 1), (7, 2, 6, 9)):
        for method in ("SGHMC", "SGLD"):
            ctx.scenario("forward %s %s" % (method, counts), forward, ctx, method, (), "float64", False, counts)
    ctx.scenario("forward float32", forward, ctx, "SGHMC", (), "float32")
    ctx.scenario("forward unseeded", forward, ctx, "SGHMC", (), "float64", True)
    ctx.scenario("defaults", defaults, ctx)
    ctx.scenario("invalid", invalid, ctx)
    ctx.scenario("ranges", symbolic, ctx)
    ctx.scenario("methods", methods, ctx)
    ctx.scenario("unknown options", unknown_option, ctx)

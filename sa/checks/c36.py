"""C36: the default network is the documented architecture."""
from ..bnn import *

EXPLANATION = ("get_default_net is interpreted (alone, and as the default of BayesianNeuralNetwork); its variables, their"
               " initial values and its output, at free inputs and weights, are compared with three tanh layers of 50 units,"
               " a linear output and a separate trainable log variance.")
FLOOR = 60
ANCHORS = [MODULE + ".get_default_net"]


def reference(x, ws):
    h = ops.A(x)
    for i in range(0, 8, 2):
        h = ops.add(ops.matmul(h, ws[i]), ws[i + 1])
        if i < 6:
            h = ops.A(np.array([[tm.fn("tanh", t) for t in r] for r in h], dtype=object))
    return h


def weights(I, shapes, tag):
    out = []
    for i, s in enumerate(shapes):
        d = np.empty(s, dtype=object)
        for j in np.ndindex(*s):
            d[j] = tm.sym("%s%d%s" % (tag, i, list(j)))
        out.append(ops.A(d))
    return out


def structure(ctx, I, session, x_ph, out, D, seed, dtype, where, N, variables=None):
    if out is not None:
        ctx.ob("output-shape", tuple(out.shape) == (x_ph.shape[0], 2), "%r" % (out.shape,), where)
        ctx.ob("output-dtype", out.dtype is dtype, "%r, required %r" % (out.dtype, dtype), where)
    if variables is None:
        variables = ctx.must(I.run(lambda: I.items_of(I.lib.call_tf("tensorflow.trainable_variables", [], {}))))
    want = [(D, 50), (50,), (50, 50), (50,), (50, 50), (50,), (50, 1), (1,), (1, 1)]
    got = [tuple(v.shape) for v in variables]
    ok = ctx.ob("trainable-variables", sorted(got) == sorted(want), "shapes %r, required %r" % (got, want), where)
    if not ok:
        return
    ctx.ob("variable-order", got == want, "shapes %r, required %r" % (got, want), where)
    for j, v in enumerate(variables):
        ctx.ob("variable-dtype", v.dtype is dtype, "%r, required %r" % (v.dtype, dtype), "%s variable %d" % (where, j))
    names = [I.run(lambda: I.getattr(v, "name")).value for v in variables]
    wantn = ["fc_layer_%d/%s:0" % (i, k) for i in (1, 2, 3, 4) for k in ("kernel", "bias")] + ["output_bias:0"]
    ctx.ob("variable-names", names == wantn, "%r, required %r" % (names, wantn), where)
    # initial values
    r = ctx.must(I.run(lambda: I.lib.session_run(session, [I.lib.call_tf("tensorflow.global_variables_initializer", [], {})], {})))
    init_vals = [ctx.must(I.run(lambda: I.lib.session_run(session, [v], {}))) for v in variables]
    init_vals = [ops.A(I.get(v).data) if isinstance(v, Ref) else ops.A(tm.term(v)) for v in init_vals]
    for j in (1, 3, 5, 7):
        arrays_equal(ctx, "bias-starts-at-zero", init_vals[j], ops.full(want[j], 0), "%s bias %d" % (where, j), 2)
    arrays_equal(ctx, "log-variance-starts-at-0.001", init_vals[8], ops.full((1, 1), tm.fn("log", tm.const(1e-3))), where, 2)
    for j in (0, 2, 4, 6):
        w = "%s kernel %d" % (where, j // 2)
        init = variables[j].init
        while init.op in ("identity", "cast") and init.inputs:
            init = init.inputs[0]
        ok = ctx.ob("kernel-drawn-by-variance-scaling", init.op == "random_init" and
                    init.attrs["init"]["name"] == "variance_scaling_initializer", init.op, w)
        if ok:
            p = dict(zip(("factor", "mode", "uniform", "seed", "dtype"), init.attrs["init"]["args"]), **init.attrs["init"]["kw"])
            ctx.ob("variance-scaling", tm.term(p.get("factor", 2.0)) is tm.const(1.0) and p.get("mode", "FAN_IN") == "FAN_IN"
                   and p.get("uniform", False) is False, repr(p), w)
            s = p.get("seed")
            same = s is seed or (s is not None and seed is not None and tm.equal(tm.term(s), tm.term(seed)).ok)
            ctx.ob("kernel-seeded", same, "seed %r, required %r" % (s, seed), w)
            ctx.ob("initialiser-dtype", p.get("dtype", DType("float32")) is dtype, repr(p.get("dtype")), w)
    if out is None:
        return
    # output at free inputs and weights
    ws = weights(I, want, "w")
    x = np.empty((N, D), dtype=object)
    for j in np.ndindex(N, D):
        x[j] = tm.sym("in%s" % list(j))
    feed = [(x_ph, I.arr(ops.A(x)))] + [(v, I.arr(w)) for v, w in zip(variables, ws)]
    o = ctx.must(I.run(lambda: I.lib.session_run(session, [out, I.dict_(feed)], {})))
    o = ops.A(I.get(o).data)
    if ctx.ob("two-columns", o.shape == (N, 2), "%r" % (o.shape,), where):
        arrays_equal(ctx, "mean-is-the-documented-function", o[:, :1], reference(x, ws), where, 4)
        arrays_equal(ctx, "log-variance-is-its-own-parameter", o[:, 1:], ops.full((N, 1), ws[8][0, 0]), where, 4)
    again = ctx.must(I.run(lambda: I.lib.session_run(session, [out, I.dict_(feed)], {})))
    arrays_equal(ctx, "output-is-a-function", ops.A(I.get(again).data), o, where, 2)


def alone(ctx, D, seed, dtype, N, call):
    I = ctx.interp()
    I.graph.none_dim = N
    session = I.run(lambda: I.lib.new_session()).value
    d = DType(dtype)
    ph = I.lib.call_tf("tensorflow.placeholder", [], {"shape": (None, D), "dtype": d})
    where = "get_default_net D=%d %s seed %r N=%d" % (D, dtype, seed, N)
    s = tm.sym("seed") if seed == "any" else seed
    k = {}
    if s is not None or call != "defaults":
        k["seed"] = s
    if dtype != "float64" or call != "defaults":
        k["dtype"] = d
    fn = I.resolve(MODULE + ".get_default_net")
    out = ctx.must(I.run(lambda: I.call(fn, [ph] if call != "keywords" else [], dict(k, inputs=ph) if call == "keywords" else k)))
    structure(ctx, I, session, ph, out, D, s, d, where, N)


def as_default(ctx, dtype, seed):
    """BayesianNeuralNetwork() without get_net trains this network."""
    kw = dict(config(3, 0, 1, 2, batch_size=2, normalize_input=False, normalize_output=False), get_net=OMIT)
    if seed is not None:
        kw["seed"] = seed
    b = Bnn(ctx, kw, N=2, D=2, shapes=[(2, 50), (50,), (50, 50), (50,), (50, 50), (50,), (50, 1), (1,), (1, 1)], dtype=dtype)
    b.train()
    I = b.I
    bc = b.batch_calls[0]
    where = "network by default %s seed %r" % (dtype, seed)
    params = ctx.must(I.run(lambda: I.items_of(b.samplers.made[0][1]["params"])))
    structure(ctx, I, b.session, bc["x_placeholder"], None, 2, seed, b.dtype, where, 2, params)
    xt = b.data("t", 2)
    mean, noise = b.predict(xt, return_individual_predictions=True)
    ws = [[ops.A(b.samplers.value(k, i)) for i in range(9)] for k in b.retained(3, 0, 1, 2)]
    if ctx.ob("one-prediction-per-network", mean.shape == (len(ws), 2) and noise.shape == mean.shape, "%r" % (mean.shape,), where):
        for i, w in enumerate(ws):
            ref = reference(I.get(xt).data, w)
            arrays_equal(ctx, "mean-is-the-documented-function", mean[i], ops.A(ref[:, 0]), where, 4)
            arrays_equal(ctx, "noise-is-its-own-parameter", noise[i], ops.full((2,), tm.fn("exp", w[8][0, 0])), where, 4)


def run(ctx):
    for dtype in ("float64", "float32"):
        ctx.scenario("alone %s" % dtype, alone, ctx, 2, "any", dtype, 2, "keywords")
    ctx.scenario("alone defaults", alone, ctx, 1, None, "float64", 3, "defaults")
    ctx.scenario("alone seed 0", alone, ctx, 3, 0, "float64", 1, "positional")
    ctx.scenario("default net", as_default, ctx, "float64", None)
    ctx.scenario("default net", as_default, ctx, "float32", 5)
    if ctx.thorough:
        ctx.scenario("alone wide", alone, ctx, 7, 3, "float64", 4, "keywords")

"""C37: progress reports during training only observe, over the whole training set."""
from .c21 import C, variance_prior, weight_prior
from ..bnn import *

EXPLANATION = ("BayesianNeuralNetwork.train is interpreted over a stand-in sampler and network; every graph run that train"
               " itself makes between two sampler steps must write no variable, draw nothing, feed exactly the (normalised)"
               " training set with labels as a column, and evaluate the training objective and the squared error of that set.")
FLOOR = 60
ANCHORS = [BNN + ".train"]


def objective(b, xs, ys, bs, ws):
    """The training objective and mean squared error over the rows xs with labels ys at the weights ws."""
    flat = [tm.term(t) for w in ws for t in ops.A(w).flat]
    ll, lvs, mse = C(0), [], C(0)
    for i in range(len(ys)):
        m, lv = [tm.uf("net%s%d" % (b.tag, c), *([tm.term(t) for t in xs[i]] + flat)) for c in (0, 1)]
        inv = tm.div(1, tm.add(tm.fn("exp", lv), C(1e-16)))
        e = tm.sub(ys[i], m)
        ll = tm.add(ll, tm.sub(tm.neg(tm.mul(tm.mul(e, e), tm.mul(0.5, inv))), tm.mul(0.5, lv)))
        mse = tm.add(mse, tm.mul(e, e))
        lvs.append([lv])
    n = len(ys)
    want = tm.div(ll, min(bs, n))
    want = tm.add(want, tm.div(variance_prior(lvs), n))
    want = tm.add(want, tm.div(weight_prior(ws), n))
    return tm.neg(want), tm.div(mse, n)


def figures(I, r):
    """Everything a run returned, as arrays."""
    if r is None:
        return []
    if isinstance(r, tuple) or isinstance(r, Ref) and r.kind == "list":
        return [v for x in I.items_of(r) for v in figures(I, x)]
    if isinstance(r, Ref) and r.kind == "dict":
        return [v for _, x in I.lib.dict_items(r) for v in figures(I, x)]
    return [ops.A(I.get(r).data) if isinstance(r, Ref) else ops.A(tm.term(r))]


def case(ctx, N, bs, norm_x, norm_y, cfg, shapes=None, method=None, dtype="float64"):
    where = "N=%d batch_size=%d normalised %s %s %r%s" % (N, bs, norm_x, norm_y, cfg, " %s" % method if method else "")
    b = Bnn(ctx, config(*cfg, batch_size=bs, normalize_input=norm_x, normalize_output=norm_y), N=N, D=2, shapes=shapes, method=method)
    I = b.I
    I.lib.PULLED = 4000
    b.train()
    xs = b.normalised(b.xd, b.xd) if norm_x else b.xd
    ys = b.normalised(b.yd, b.yd) if norm_y else b.yd
    init = [k for k, e in enumerate(I.events) if e.kind == "initialise"]
    steps = [k for k, e in enumerate(I.events) if e.kind == "sampler_next"]
    ctx.ob("sampler-stepped", len(steps) > 0, "", where)
    reports = [e for k, e in enumerate(I.events) if e.kind == "run" and steps and k > steps[0]]
    bc = b.batch_calls[0]
    n_batches = len([e for e in I.events if e.kind == "batch_next"])
    ctx.ob("no-batch-drawn", n_batches == 0, "%d" % n_batches, where)
    want = None
    for j, e in enumerate(reports):
        w = "%s report %d" % (where, j + 1)
        st = e.data.get("step")
        if st is None:
            continue
        ctx.ob("nothing-written", not any(st.writes.values()), "%d variables written" % len(st.writes), w, e.site)
        ctx.ob("nothing-drawn", not [n for n in st.executed if n.op.startswith("random")], "", w, e.site)
        ctx.ob("nothing-initialised", not [n for n in st.executed if n.op == "init"], "", w, e.site)
        fed = {id(k): v for k, v in st.feeds.items()}
        for what, ph, data in (("inputs", bc["x_placeholder"], xs), ("labels", bc["y_placeholder"], ys.reshape(-1, 1))):
            got = fed.get(id(ph))
            ok = ctx.ob("whole-%s-fed" % what, got is not None and ops.A(got).shape == data.shape,
                        "shape %r, required %r" % (None if got is None else ops.A(got).shape, data.shape), w, e.site)
            if ok:
                arrays_equal(ctx, "training-%s-fed" % what, ops.A(got), data, w, 6)
        others = [v for v in st.feeds if v is not bc["x_placeholder"] and v is not bc["y_placeholder"]]
        ctx.ob("current-parameters", not [v for v in others if v in b.net_vars], "parameters are fed", w, e.site)
        ws = [ops.A(st.state[v]) if v in st.state else None for v in b.net_vars]
        if any(x is None for x in ws):
            continue
        nll, mse = objective(b, xs, ys, bs, ws)
        for v in figures(I, e.data["result"]):
            if v.shape == ():
                # the two reported figures
                a, c = tm.equal(v[()], nll, points=8), tm.equal(v[()], mse, points=8)
                ctx.ob("reported-figure", a.ok or c.ok, "neither the objective nor the squared error: %s / %s" % (a.why, c.why), w, e.site)
            else:
                ctx.ob("reported-figure", False, "not a single number: %r" % (v.shape,), w, e.site)
    if where.startswith("N=") and N <= 4 and len(reports) < 20:
        texts(ctx, b, reports, steps, xs, ys, bs, where)
    # a report is due for every retained network at the latest (nothing is required of others)
    ctx.ob("training-completes", I.run(lambda: I.getattr(b.bnn, "is_trained")).value is True, "", where)


def texts(ctx, b, reports, steps, xs, ys, bs, where):
    """Figures written into messages between two steps are those of the report."""
    I = b.I
    at = {id(e): k for k, e in enumerate(I.events)}
    for j, e in enumerate(reports):
        st = e.data.get("step")
        k = at[id(e)]
        end = min([s for s in steps if s > k] or [len(I.events)])
        if st is None or any(v not in st.state for v in b.net_vars):
            continue
        nll, mse = objective(b, xs, ys, bs, [ops.A(st.state[v]) for v in b.net_vars])
        for x in I.events[k:end]:
            if x.kind != "shown":
                continue
            t = x.data["value"]
            if not tm.contains(t, lambda s: s.op == "uf" and str(s.args[0]).startswith("net")):
                continue
            a, c = tm.equal(t, nll, points=8), tm.equal(t, mse, points=8)
            ctx.ob("figure-in-the-message", a.ok or c.ok, "neither the objective nor the squared error: %s / %s" % (a.why, c.why),
                   "%s report %d" % (where, j + 1), x.site)


def run(ctx):
    for nx in (True, False):
        for ny in (True, False):
            ctx.scenario("reports %s %s" % (nx, ny), case, ctx, 3, 2, nx, ny, (6, 1, 2, 3))
    ctx.scenario("no burn-in", case, ctx, 2, 5, False, False, (4, 0, 1, 5))
    ctx.scenario("only burn-in", case, ctx, 2, 1, True, True, (4, 10, 1, 5))
    ctx.scenario("one row", case, ctx, 1, 1, False, False, (4, 1, 1, 2))
    ctx.scenario("one parameter", case, ctx, 3, 2, False, True, (5, 1, 2, 2), [(2, 2)])
    ctx.scenario("SGLD", case, ctx, 4, 3, True, False, (5, 1, 2, 2), None, "SGLD")
    ctx.scenario("long burn-in", case, ctx, 2, 2, False, False, (520, 516, 1, 2))
    for n in sizes(["models", "data_batches.py"], 4, 1500):
        for m in (n - 1, n):
            ctx.scenario("%d rows" % m, case, ctx, m, 2, True, True, (4, 1, 1, 2))
        if n <= 300:
            ctx.scenario("%d networks" % n, case, ctx, 1, 2, False, False, (n + 3, 1, 1, n))
    if ctx.thorough:
        ctx.scenario("longer burn-in", case, ctx, 2, 2, True, True, (1030, 1026, 1, 2))

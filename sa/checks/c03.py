"""C03: data handed to the library is never modified."""
from .. import batch
from ..batch import PLAIN, SHUF, Setup
from ..bnn import *

EXPLANATION = ("Every write to an array is an event with the owner of the array; the minibatch generators, the network's"
               " training and prediction and the normalisers are interpreted on arrays owned by the caller, and no write may"
               " reach one. Batches already handed out are compared with what they held when they were yielded.")
FLOOR = 120
ANCHORS = ["pysgmcmc.data_batches.generate_batches", "pysgmcmc.data_batches.generate_shuffled_batches", BNN + ".train",
           BNN + ".predict"]
BASE = "pysgmcmc.models.base_model."


def external(e):
    o = e.data.get("owner")
    return isinstance(o, tuple) and o and o[0] == "ext"


def writes(ctx, I, where, n0=0):
    bad = [e for e in I.evs("mutate")[n0:] if external(e)]
    for e in bad:
        ctx.ob("caller-data-not-written", not tm.satisfiable(e.cond()) if hasattr(e, "cond") else False,
               "write to %r" % (e.data.get("owner"),), where, e.site)
    ctx.ob("caller-data-not-written", True, "", where)


def same(ctx, I, ref, before, where):
    now = I.get(ref).data
    if isinstance(before, SArr) or isinstance(now, SArr):
        r = tm.sym("row", "int", 0, 5)
        idx = (r,) if len(before.shape) == 1 else (r, 0)
        ok = isinstance(now, SArr) and tuple(now.shape) == tuple(before.shape)
        if not ctx.ob("caller-data-kept", ok, "%r -> %r" % (before.shape, now.shape), where):
            return
        a, b = tm.term(before.elem(*idx)), tm.term(now.elem(*idx))
        ctx.eq("caller-data-kept", b, a, (), 24, where)
        return
    if ctx.ob("caller-data-kept", tuple(ops.A(now).shape) == tuple(ops.A(before).shape), "shape changed", where):
        for i in np.ndindex(ops.A(before).shape):
            ctx.eq("caller-data-kept", ops.A(now)[i], ops.A(before)[i], (), 4, where)


def batches(ctx, fn, seed, what):
    short = fn.split(".")[-1]
    where = "%s %s" % (short, what)
    for kw in ({}, {"N": 7, "batch_size": 3}, {"N": 4, "batch_size": 4}, {"N": 2, "batch_size": 9}):
        s = Setup(ctx, fn, seed=seed, **kw)
        w = "%s %r" % (where, kw)
        bx, by = s.I.get(s.x).data, s.I.get(s.y).data
        bx = bx.copy() if isinstance(bx, np.ndarray) else bx
        by = by.copy() if isinstance(by, np.ndarray) else by
        out, items = s.first(4)
        ctx.quiet(out)
        writes(ctx, s.I, w)
        same(ctx, s.I, s.x, bx, w)
        same(ctx, s.I, s.y, by, w)
        for k, b in enumerate(items):
            now = b.still(s.I)
            ctx.ob("yielded-batch-kept", now is None, now or "", "%s batch %d" % (w, k))
            for nm, sn in (("x", b.x), ("y", b.y)):
                if sn is None:
                    continue
                now = s.I.get(sn.ref)
                ctx.ob("yielded-batch-kept", unchanged(sn.data, now.data), "changed by a later batch", "%s batch %d %s" % (w, k, nm))
    s = Setup(ctx, fn, seed=seed)
    out, items = s.generic()
    ctx.quiet(out)
    writes(ctx, s.I, where + " any batch")


def unchanged(a, b):
    if a is b:
        return True
    if isinstance(a, SArr) or isinstance(b, SArr):
        if not (isinstance(a, SArr) and isinstance(b, SArr)):
            return False
        r = tm.sym("row", "int", 0, 3)
        idx = (r,) if len(a.shape) == 1 else (r, 0)
        return tm.equal(tm.term(a.elem(*idx)), tm.term(b.elem(*idx)), points=24).ok
    return ops.A(a).shape == ops.A(b).shape and all(
        tm.equal(ops.A(a)[i], ops.A(b)[i], points=4).ok for i in np.ndindex(ops.A(a).shape))


def network(ctx, nin, nout, stub, method="SGHMC", N=3):
    where = "network normalize_input=%s normalize_output=%s%s" % (nin, nout, "" if stub else " default batches")
    where += " %d rows" % N if N != 3 else ""
    b = Bnn(ctx, config(5, 1, 1, 2, normalize_input=nin, normalize_output=nout, batch_size=2), N=N, D=2,
            stub_batches=stub, method=method)
    I = b.I
    b.train()
    same(ctx, I, b.x, b.xd, where + " training inputs")
    same(ctx, I, b.y, b.yd, where + " training labels")
    for ind in (False, True):
        x = b.data("t", 2, owner=("ext", "X_test"))
        td = ops.A(I.get(x).data).copy()
        b.predict(x, return_individual_predictions=ind)
        same(ctx, I, x, td, where + " test inputs")
    writes(ctx, I, where)
    if not stub:
        # the default generator runs over the training data
        _, args = b.samplers.made[0]
        ctx.must(I.run(lambda: [I.lib.f_builtins_next([args["batch_generator"]], {}) for _ in range(3)] and None))
        same(ctx, I, b.x, b.xd, where + " training inputs after batches")
        same(ctx, I, b.y, b.yd, where + " training labels after batches")
        writes(ctx, I, where + " batches")


def normalisers(ctx):
    I = ctx.interp()

    def arr(name, sh):
        d = np.empty(sh, dtype=object)
        for i in np.ndindex(sh):
            d[i] = tm.sym("%s%s" % (name, list(i)))
        return I.arr(ops.A(d), owner=("ext", name), dtype=DType("float64"))
    for f, extra in (("zero_mean_unit_var_normalization", 0), ("zero_mean_unit_var_normalization", 2),
                     ("zero_mean_unit_var_unnormalization", 2), ("zero_one_normalization", 0),
                     ("zero_one_normalization", 2), ("zero_one_unnormalization", 2)):
        for sh in ((3, 2), (3,)):
            args = [arr("X", sh)] + [arr("p%d" % j, sh[1:] if len(sh) > 1 else ()) if len(sh) > 1 else tm.sym("p%d" % j)
                                     for j in range(extra)]
            keep = [ops.A(I.get(a).data).copy() if isinstance(a, Ref) else None for a in args]
            ctx.must(I.run(lambda: I.call(I.resolve(BASE + f), args, {})))
            for a, k in zip(args, keep):
                if k is not None:
                    same(ctx, I, a, k, f)
    writes(ctx, I, "normalisers")


def run(ctx):
    for fn in (PLAIN, SHUF):
        for seed, what in (("seed", "seeded"), (None, "unseeded"), ("omit", "default seed")):
            ctx.scenario("%s %s" % (fn.split(".")[-1], what), batches, ctx, fn, seed, what)
    for nin in (True, False):
        for nout in (True, False):
            for stub in (True, False):
                ctx.scenario("network %s %s %s" % (nin, nout, stub), network, ctx, nin, nout, stub)
    ctx.scenario("normalisers", normalisers, ctx)
    for n in sizes(["models", "data_batches.py"], 4, 2000):
        for m in (n - 1, n):
            ctx.scenario("network of %d rows" % m, network, ctx, True, True, True, "SGHMC", m)

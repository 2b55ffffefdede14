"""C35: a seeded network run is a function of its arguments."""
from ..bnn import *
from ..batch import PLAIN

EXPLANATION = ("Two networks with the same symbolic seed are interpreted, the second after arbitrary other use of the global"
               " random state; everything that can make their results differ (data, seeds of the network, of the batches and"
               " of the sampler, the batches themselves) is compared and has to be free of operating system entropy.")
FLOOR = 60
ANCHORS = [BNN + ".train", "pysgmcmc.data_batches.generate_batches"]


def disturb(I):
    g = I.lib.get_global_rng()
    I.put(g, RngC(I.fresh("entropy:elsewhere", "obj"), "RandomState"))


def facts(ctx, b, k=3):
    """What the outcome of a training depends on, as named terms."""
    I = b.I
    out = []
    cls, args = b.samplers.made[0]
    out.append(("sampler seed", tm.term(args.get("seed"))))
    for c in b.net_calls:
        out.append(("network seed", tm.term(c.get("seed"))))
    if b.batch_calls:
        bc = b.batch_calls[0]
        out.append(("batch seed", tm.term(bc.get("seed"))))
        for nm in ("x", "y"):
            for i, t in enumerate(ops.A(I.get(bc[nm]).data).flat):
                out.append(("training data " + nm, tm.term(t)))
    else:
        gen = args["batch_generator"]

        def snap(v):
            r = []
            for kk, vv in I.lib.dict_items(v):
                d = I.get(vv).data
                d = d if isinstance(d, np.ndarray) else np.array([[tm.term(d.elem(i, j)) for j in range(d.shape[1])]
                                                                  for i in range(2)], dtype=object)
                r.extend(("batch", tm.term(t)) for t in ops.A(d).flat)
            return r
        o = I.run(lambda: first_items(I, gen, k, snap))
        for r in ctx.must(o):
            out.extend(r)
    return out


def seeded(ctx, stub, method="SGHMC"):
    seed = isym("seed", 0, 2 ** 32 - 1)
    runs = []
    for noisy in (False, True):
        b = Bnn(ctx, config(4, 1, 1, 2, seed=seed, batch_size=2), N=3, D=1, stub_batches=stub, method=method, shapes=[(1,)])
        if noisy:
            b.I.run(lambda: disturb(b.I))
        b.train()
        runs.append((b, facts(ctx, b)))
    (a, fa), (b, fb) = runs
    where = "%s%s" % (method, "" if stub else " default batches")
    ctx.ob("same-kind-of-run", len(fa) == len(fb), "%d and %d" % (len(fa), len(fb)), where)
    for (n, x), (_, y) in zip(fa, fb):
        ctx.eq("same-when-seeded", x, y, (), 12, where, what=n)
        e = entropy_in(y)
        ctx.ob("no-entropy-when-seeded", e is None, "%s depends on %r" % (n, e), where)
    for n in ("sampler seed", "network seed", "batch seed"):
        for m, x in fa:
            if m == n:
                ctx.eq("seed-is-used", x, seed, (), 12, where, what=n)
    for r in (a, b):
        for e in r.I.evs("global_rng"):
            ctx.ob("no-global-random-state", False, repr(e.data.get("what")), where, e.site)
        ctx.ob("no-global-random-state", True, "", where)
        x = r.data("t", 2)
        for arr in r.predict(x):
            for t in ops.A(arr).flat:
                e = entropy_in(tm.term(t))
                ctx.ob("no-entropy-when-seeded", e is None, "prediction depends on %r" % (e,), where)


def different(ctx):
    """Batches of different seeds differ."""
    b = Bnn(ctx, config(4, 1, 1, 2, seed=isym("seed", 0, 2 ** 32 - 1), batch_size=2), N=5, D=1, stub_batches=False, shapes=[(1,)])
    b.train()
    n = 0
    for nm, t in facts(ctx, b):
        n += tm.contains(t, lambda s: s.op == "sym" and s.args[0] == "seed") is not None
    ctx.ob("seed-reaches-the-batches", n > 0, "no batch depends on the seed", "default batches")


def zero(ctx):
    b = Bnn(ctx, config(4, 1, 1, 2, seed=0, batch_size=2), N=3, D=1, shapes=[(1,)])
    b.train()
    for n, x in facts(ctx, b):
        if n.endswith("seed"):
            ctx.ob("seed-is-used", x is tm.term(0), "seed 0 arrives as %r" % (x,), n)


def run(ctx):
    for method in ("SGHMC", "SGLD"):
        for stub in (True, False):
            ctx.scenario("%s %s" % (method, stub), seeded, ctx, stub, method)
    ctx.scenario("different", different, ctx)
    ctx.scenario("zero", zero, ctx)

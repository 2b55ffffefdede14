"""C04: a seeded minibatch stream is a function of its arguments alone."""
from .. import terms as tm
from ..batch import *
from ..terms import T

EXPLANATION = ("Both generators are interpreted twice with the same arguments, the second time with arbitrary other"
               " use of the global random state and of other generators between the batches; the value graphs of the"
               " batches have to be the same, free of operating system entropy, and dependent on the seed.")
FLOOR = 30
ANCHORS = ["pysgmcmc.data_batches.generate_batches", "pysgmcmc.data_batches.generate_shuffled_batches"]


def disturb(I):
    """Anything else in the process may have used the global random state."""
    g = I.lib.get_global_rng()
    I.put(g, RngC(I.fresh("entropy:elsewhere", "obj"), "RandomState"))


def stream(ctx, s, k, noise):
    I = s.I
    out = []

    def snap(v):
        b = s.snap(v)
        if noise:
            disturb(I)
            for fn in (PLAIN, SHUF):
                for seed in (s.kw["seed"], 5):
                    o = Setup(ctx, fn, enc=None, seed=seed, I=I)
                    o.kw["batch_size"] = 3
                    first_items(I, o.gen(), 2, o.snap)
            disturb(I)
        return b

    def go():
        if noise:
            disturb(I)
        out.extend(first_items(I, s.gen(), k, snap))
    o = I.run(go)
    ctx.quiet(o)
    return out


def same(ctx, a, b, where, s):
    r = tm.sym("row", "int", 0, tm.sub(s.want, 1))
    for i, (p, q) in enumerate(zip(a, b)):
        w = "%s item %d" % (where, i)
        if not ctx.ob("same-keys", p.x is not None and q.x is not None and p.y is not None and q.y is not None, "", w):
            continue
        for nm, u, v, idx in (("rows", p.x, q.x, (r, 0)), ("rows", p.x, q.x, (r, 1)), ("labels", p.y, q.y, (r, 0))):
            ctx.eq("same-stream-" + nm, u.at(*idx), v.at(*idx), [p.cond, q.cond], 120, w)
            e = entropy_in(v.at(*idx))
            ctx.ob("no-entropy-when-seeded", e is None, "depends on %r" % (e,), w)


def seeded(ctx, fn):
    short = fn.split(".")[-1]
    s1 = Setup(ctx, fn)
    a = stream(ctx, s1, 3, False)
    s2 = Setup(ctx, fn)
    b = stream(ctx, s2, 3, True)
    # in one process: a second generator with the same arguments
    s3 = Setup(ctx, fn, I=s1.I)
    c = stream(ctx, s3, 3, False)
    ctx.ob("yields", len(a) == len(b) == len(c) == 3, "%d, %d and %d items" % (len(a), len(b), len(c)))
    same(ctx, a, b, short + " disturbed", s1)
    same(ctx, a, c, short + " again", s1)
    # the seed selects the stream
    r = tm.sym("row", "int", 0, tm.sub(s1.want, 1))
    for i, p in enumerate(a):
        if p.y is None:
            continue
        d, n = 0, 0
        for k in range(200):
            v, w = tm.Valuation(k), tm.Valuation(k)
            for q, sd in ((v, 11), (w, 12)):
                q.given.update({"N": tm.mpmath.mpf(9), "bs": tm.mpmath.mpf(4), "seed": tm.mpmath.mpf(sd + 100 * k)})
            n += 1
            d += [v(p.y.at(j, 0)) for j in range(4)] != [w(p.y.at(j, 0)) for j in range(4)]
        ctx.ob("seed-selects-the-stream", d > n / 2, "differs for %d of %d pairs of seeds" % (d, n), "%s item %d" % (short, i))
    # no two seeds are mapped to one stream by arithmetic on them: shifts at which such arithmetic folds
    for delta in (1, 2, 7, 100, 255, 256, 1000, 9973, 10000, 32768, 65536, 99991, 100000, 10 ** 6, 2 ** 20, 2 ** 24,
                  10 ** 9, 2 ** 30, 2 ** 31, 2 ** 32 - 1):
        for i, p in enumerate(a[:2]):
            if p.y is None:
                continue
            d = n = 0
            for k in range(24):
                lo = (0, 1, 5, 1234567, 2 ** 31 - 1, 2 ** 20)[k % 6]
                if lo + delta > 2 ** 32 - 1:
                    lo = 0
                got = []
                for sd in (lo, lo + delta):
                    v = tm.Valuation(("fold", k))
                    v.given.update({"N": tm.mpmath.mpf(40), "bs": tm.mpmath.mpf(4), "seed": tm.mpmath.mpf(sd)})
                    got.append([v(p.y.at(j, 0)) for j in range(4)])
                n += 1
                d += got[0] != got[1]
            ctx.ob("seeds-are-not-folded", d > n / 2, "seeds %d apart: streams differ for %d of %d" % (delta, d, n),
                   "%s item %d" % (short, i))


def unseeded(ctx, fn):
    short = fn.split(".")[-1]
    s = Setup(ctx, fn, seed=None, enc="pos")
    a, b = [], []

    def go():
        a.extend(first_items(s.I, s.gen(), 1, s.snap))
        b.extend(first_items(s.I, s.gen(), 1, s.snap))
    ctx.quiet(s.I.run(go))
    if not (a and b and a[0].y and b[0].y):
        return ctx.ob("yields", False, "no items")
    d = 0
    for k in range(120):
        v = tm.Valuation(k)
        v.given.update({"N": tm.mpmath.mpf(12), "bs": tm.mpmath.mpf(4)})
        d += [v(a[0].y.at(j, 0)) for j in range(4)] != [v(b[0].y.at(j, 0)) for j in range(4)]
    ctx.ob("unseeded-streams-differ", d > 30, "differ in %d of 120 interpretations" % d, short)


def zero(ctx, fn):
    """0 is a seed like any other."""
    s = Setup(ctx, fn, seed=0)
    a = stream(ctx, s, 2, False)
    r = tm.sym("row", "int", 0, tm.sub(s.want, 1))
    for i, p in enumerate(a):
        for nm, u, idx in (("rows", p.x, (r, 0)), ("labels", p.y, (r, 0))):
            if u is None:
                continue
            e = entropy_in(u.at(*idx))
            ctx.ob("no-entropy-when-seeded", e is None, "seed 0: depends on %r" % (e,),
                   "%s item %d %s seed 0" % (fn.split(".")[-1], i, nm))


def run(ctx):
    for fn in (PLAIN, SHUF):
        ctx.scenario("seeded %s" % fn, seeded, ctx, fn)
        ctx.scenario("seed zero %s" % fn, zero, ctx, fn)
        ctx.scenario("unseeded %s" % fn, unseeded, ctx, fn)

"""C02: a shuffled minibatch is one reordering, applied to rows and labels alike, of a window."""
from .. import terms as tm
from ..batch import *
from ..sizes import sizes
from .c01 import distinct, revisits

EXPLANATION = ("generate_shuffled_batches is interpreted with symbolic sizes and seed; each yielded batch is"
               " compared with a common permutation of a contiguous window of the data.")
FLOOR = 40
ANCHORS = ["pysgmcmc.data_batches.generate_shuffled_batches"]
ASSUMPTIONS = ["a shuffle of n items is an arbitrary permutation determined by the generator state and n"]


def points(n, bs, count, tag):
    for k in range(count):
        v = tm.Valuation((tag, k))
        v.given.update({"N": tm.mpmath.mpf(n), "bs": tm.mpmath.mpf(bs)})
        yield v


def check(ctx, s, b, where, assume=()):
    ok = ctx.ob("feeds-both-placeholders", b.x is not None and b.y is not None and len(b.keys) == 2, "", where)
    if not ok or not ctx.ob("rank", len(b.x.shape) == 2 and len(b.y.shape) == 2,
                            "shapes %r %r" % (b.x.shape, b.y.shape), where):
        return False
    a = list(assume) + [b.cond]
    ctx.eq("batch-size", b.x.shape[0], s.want, a, 200, where)
    ctx.eq("label-rows", b.y.shape[0], s.want, a, 200, where)
    ctx.eq("columns", b.x.shape[1], 2, a, 8, where)
    ctx.eq("label-columns", b.y.shape[1], 1, a, 8, where)
    r = tm.sym("row", "int", 0, tm.sub(s.want, 1))
    for j in (0, 1):
        ctx.eq("row-keeps-its-label", b.x.at(r, j), tm.add(tm.mul(2, b.y.at(r, 0)), j), a, 300, where)
    bad = None
    starts, orders, lands = {}, set(), set()
    n, bs = 6, 3
    for nn, bb in ((6, 3), (4, 4), (5, 9), (3, 1), (9, 2)):
        for v in points(nn, bb, 200, "perm"):
            m = min(nn, bb)
            try:
                if not all(v(c) for c in a):
                    continue
                got = [int(v(b.y.at(i, 0))) for i in range(m)]
            except tm.Undef as e:
                bad = "undefined row (%s) for N=%d batch_size=%d" % (e, nn, bb)
                break
            lo = min(got)
            if sorted(got) != list(range(lo, lo + m)) or lo < 0 or lo + m > nn:
                bad = "labels %r for N=%d batch_size=%d" % (got, nn, bb)
                break
            if (nn, bb) == (n, bs):
                starts[lo] = starts.get(lo, 0) + 1
                orders.add(tuple(g - lo for g in got))
                for i, g in enumerate(got):
                    lands.add((i, g - lo))
    ctx.ob("reordered-window", bad is None, bad or "", where)
    if bad is None:
        ctx.ob("every-window-reachable", sorted(starts) == list(range(n - bs + 1)), "%r" % starts, where)
        ctx.ob("order-is-shuffled", len(orders) == 6, "orders seen of 3 rows: %r" % sorted(orders), where)
        ctx.ob("every-row-can-land-anywhere", len(lands) == 9, "%r" % sorted(lands), where)
    return True


def exact(ctx, seed="seed", column=False):
    s = Setup(ctx, SHUF, seed=seed, column=column)
    out, items = s.first(3 if seed else 2)
    ctx.quiet(out)
    good = [check(ctx, s, b, "generate_shuffled_batches item %d%s" % (i, "" if seed else " unseeded"))
            for i, b in enumerate(items)]
    if len(items) < 2:
        return ctx.ob("yields", False, "%d items" % len(items))
    if not all(good):
        return
    # successive batches are ordered by different draws: the relative order of two batches differs
    for i, j in ((0, 1), (1, 2), (0, 2))[:len(items) * 2 - 3]:
        a, b = items[i], items[j]
        same = 0
        for v in points(5, 5, 150, "orders"):
            same += all(v(a.y.at(k, 0)) == v(b.y.at(k, 0)) for k in range(5))
        ctx.ob("fresh-order-per-batch", same < 50, "same order in %d of 150 interpretations" % same,
               "items %d and %d%s" % (i, j, "" if seed else " unseeded"))
        distinct(ctx, "fresh-window-per-batch", lowest(a), lowest(b), "items %d and %d" % (i, j))


def lowest(b):
    return tm.fn("min", b.y.at(0, 0), b.y.at(1, 0))


def order(b):
    r = tm.const(0)
    for k in range(5):
        r = tm.add(tm.mul(8, r), b.y.at(k, 0))
    return r


def generic(ctx):
    s = Setup(ctx, SHUF)
    out, items = s.generic()
    ctx.quiet(out)
    ctx.ob("yields", len(items) > 0, "no yield in a generic iteration")
    for e in items:
        b, where = e.snap, "generate_shuffled_batches generic iteration"
        if check(ctx, s, b, where, [e.cond()]):
            _, items0 = Setup(ctx, SHUF).first(1)
            if items0 and items0[0].y is not None:
                f = items0[0]
                revisits(ctx, "later-windows-are-fresh", lowest(b), lowest(f), where)
                revisits(ctx, "later-orders-are-fresh", order(b), order(f), where, 5, 5)


def large(ctx, c):
    """Datasets and batches of a size that the code mentions."""
    for n, bs in (((4 * c, 4 * c + 9), (1, 9)), ((4 * c, 4 * c + 9), (c - 1, c + 2)), ((c - 1, c + 2), (c - 1, c + 2))):
        s = Setup(ctx, SHUF, n=n, bs=bs)
        out, items = s.first(2)
        ctx.quiet(out)
        for i, b in enumerate(items):
            check(ctx, s, b, "generate_shuffled_batches item %d, %d..%d rows, batch size %d..%d" % ((i,) + n + bs))


def defaults(ctx):
    s = Setup(ctx, SHUF, default_bs=True, n=(1, 45))
    s.want = tm.fn("min", 20, s.N)
    out, items = s.first(1)
    ctx.quiet(out)
    for b in items:
        ctx.eq("default-batch-size", b.x.shape[0], s.want, [b.cond], 200)


def run(ctx):
    ctx.scenario("first items", exact, ctx)
    ctx.scenario("generic iteration", generic, ctx)
    ctx.scenario("default batch size", defaults, ctx)
    ctx.scenario("without a seed", exact, ctx, None)
    for c in sizes(["data_batches.py"], 13, 10 ** 7)[::2]:
        ctx.scenario("at %d" % c, large, ctx, c)
    ctx.scenario("types of the data", precisions, ctx, SHUF)
    ctx.scenario("labels as a column", exact, ctx, "seed", True)

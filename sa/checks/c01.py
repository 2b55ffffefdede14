"""C01: every minibatch is a contiguous window of matching rows."""
from .. import terms as tm
from ..batch import *
from ..sizes import sizes

EXPLANATION = ("generate_batches is interpreted with symbolic dataset size, batch size and seed; the yielded"
               " value of the first iterations and of a generic iteration of its loop is compared row by row"
               " with the window it has to be.")
FLOOR = 40
ANCHORS = ["pysgmcmc.data_batches.generate_batches"]
ASSUMPTIONS = ["data arrays are indexed on their first axis; x has two columns in the analysed calls"]


def window(ctx, s, b, where, assume=()):
    """Obligations on one unshuffled batch."""
    ok = ctx.ob("feeds-both-placeholders", b.x is not None and b.y is not None and len(b.keys) == 2,
                "keys %r" % (b.keys,), where)
    if not ok:
        return
    a = list(assume) + [b.cond]
    if not ctx.ob("rank", len(b.x.shape) == 2 and len(b.y.shape) == 2, "shapes %r %r" % (b.x.shape, b.y.shape), where):
        return
    ctx.eq("batch-size", b.x.shape[0], s.want, a, 200, where)
    ctx.eq("label-rows", b.y.shape[0], s.want, a, 200, where)
    ctx.eq("columns", b.x.shape[1], 2, a, 8, where)
    ctx.eq("label-columns", b.y.shape[1], 1, a, 8, where)
    n = s.want
    r = tm.sym("row", "int", 0, tm.sub(n, 1))
    start = b.y.at(0, 0)
    ctx.holds("window-inside-dataset", tm.and_(tm.le(0, start), tm.le(tm.add(start, n), s.N)), a, 300, where)
    ctx.eq("contiguous-labels", b.y.at(r, 0), tm.add(start, r), a, 300, where)
    for j in (0, 1):
        ctx.eq("matching-rows", b.x.at(r, j), tm.add(tm.mul(2, tm.add(start, r)), j), a, 300, where)


def frequencies(ctx, I, b, where, pairs=((7, 3), (5, 5), (6, 1), (3, 8))):
    """Which windows occur over the interpretations of the random draws."""
    start = b.y.at(0, 0)
    for n, bs in pairs:
        windows = n - min(n, bs) + 1
        counts = {}
        total = 360 * windows
        for k in range(total):
            v = tm.Valuation(("freq", k))
            v.given.update({"N": tm.mpmath.mpf(n), "bs": tm.mpmath.mpf(bs)})
            try:
                c = int(v(start))
            except tm.Undef:
                continue
            counts[c] = counts.get(c, 0) + 1
        every = sorted(counts) == list(range(windows))
        ctx.ob("every-window-reachable", every, "N=%d batch_size=%d: starts %r" % (n, bs, counts), where)
        ctx.ob("windows-equally-likely", every and min(counts.values()) > 360 * 0.74 and max(counts.values()) < 360 * 1.3,
               "N=%d batch_size=%d: %r of %d" % (n, bs, counts, total), where)


def distinct(ctx, rule, a, b, where, n=9, bs=2, lo=0.2):
    """Two items come from different draws: their starts differ for most seeds."""
    same = diff = 0
    for k in range(120):
        v = tm.Valuation(("dist", k))
        v.given.update({"N": tm.mpmath.mpf(n), "bs": tm.mpmath.mpf(bs)})
        try:
            if v(a) == v(b):
                same += 1
            else:
                diff += 1
        except tm.Undef:
            pass
    ctx.ob(rule, diff > lo * (same + diff) and diff > 0, "equal in %d of %d interpretations" % (same, same + diff), where)


def turns():
    """Positions in the stream: the first ones and those at which the code decides by a literal."""
    out = set(range(2, 14))
    for c in sizes(["data_batches.py"], 14, 10 ** 7, limit=6):
        out |= {c - 1, c, 2 * c - 1, 2 * c}
    return sorted(out)


def revisits(ctx, rule, value, first, where, n=9, bs=2, count=24):
    """No position of the stream repeats the draw of another one: (value: term of a generic iteration)."""
    counters = [t for k, t in tm.free_syms([value]).items() if t.sort == "int" and k not in ("N", "bs", "seed")]
    seen = {}
    for j in [None] + (turns() if counters else []):
        row = []
        for k in range(count):
            v = tm.Valuation(("rev", k))
            v.given.update({"N": tm.mpmath.mpf(n), "bs": tm.mpmath.mpf(bs)})
            if j is not None:
                v.given.update({c.args[0]: tm.mpmath.mpf(j) for c in counters})
            try:
                row.append(v(first if j is None else value))
            except tm.Undef:
                row.append(None)
        seen["the first" if j is None else "number %d" % (j + 1)] = row
    names = list(seen)
    bad = [(a, b) for i, a in enumerate(names) for b in names[:i]
           if sum(p == q and p is not None for p, q in zip(seen[a], seen[b])) > 0.8 * count]
    ctx.ob(rule, not bad, "%s repeats %s" % (bad[0] if bad else ("", "")), where)


def exact(ctx):
    s = Setup(ctx, PLAIN)
    out, items = s.first(3)
    ctx.quiet(out)
    for i, b in enumerate(items):
        window(ctx, s, b, "generate_batches item %d" % i)
    if len(items) == 3 and items[0].y is not None:
        frequencies(ctx, s.I, items[0], "generate_batches item 0")
        frequencies(ctx, s.I, items[1], "generate_batches item 1", ((7, 3),))
        for i, j in ((0, 1), (1, 2), (0, 2)):
            distinct(ctx, "fresh-draw-per-batch", items[i].y.at(0, 0), items[j].y.at(0, 0), "items %d and %d" % (i, j))
    else:
        ctx.ob("yields", False, "only %d items" % len(items))


def generic(ctx):
    s = Setup(ctx, PLAIN)
    out, items = s.generic()
    ctx.quiet(out)
    ctx.ob("yields", len(items) > 0, "no yield in a generic iteration")
    for e in items:
        b = e.snap
        window(ctx, s, b, "generate_batches generic iteration", [e.cond()])
        ctx.holds("stream-never-ends", tm.not_(tm.FALSE))
        if b.y is not None:
            frequencies(ctx, s.I, b, "generate_batches generic iteration", ((7, 3),))
            _, items0 = Setup(ctx, PLAIN).first(1)
            if items0 and items0[0].y is not None:
                revisits(ctx, "later-batches-are-fresh", b.y.at(0, 0), items0[0].y.at(0, 0), "generate_batches generic iteration")
    # the stream is infinite: nothing leaves the loop
    for e in s.I.evs("loop"):
        if e.count is None and not e.breaks:
            break
    else:
        ctx.ob("stream-never-ends", False, "no unbounded loop reached")


def defaults(ctx):
    s = Setup(ctx, PLAIN, default_bs=True, n=(1, 45))
    s.want = tm.fn("min", 20, s.N)
    out, items = s.first(1)
    ctx.quiet(out)
    for b in items:
        window(ctx, s, b, "generate_batches default batch size")


def large(ctx, c):
    """Datasets and batches of a size that the code mentions."""
    for n, bs in (((4 * c, 4 * c + 9), (1, 9)), ((4 * c, 4 * c + 9), (c - 1, c + 2)), ((c - 1, c + 2), (c - 1, c + 2))):
        s = Setup(ctx, PLAIN, n=n, bs=bs)
        out, items = s.first(2)
        ctx.quiet(out)
        for i, b in enumerate(items):
            where = "generate_batches item %d, %d..%d rows, batch size %d..%d" % ((i,) + n + bs)
            window(ctx, s, b, where)
            if b.y is None or n[0] < 3 * c:
                continue
            size, start = bs[0], b.y.at(0, 0)
            bins, total = [0] * 8, 320
            rest = {m: [0] * m for m in (2, 3, 4, 5)}
            for k in range(total):
                v = tm.Valuation(("freq", k))
                v.given.update({"N": tm.mpmath.mpf(n[0]), "bs": tm.mpmath.mpf(size)})
                at = int(v(start))
                j = at * 8 // (n[0] - size + 1)
                bins[min(max(j, 0), 7)] += 1
                for m in rest:
                    rest[m][at % m] += 1
            for m, counts in rest.items():
                ctx.ob("windows-equally-likely", min(counts) > 0.55 * total / m and max(counts) < 1.55 * total / m,
                       "starts modulo %d: %r of %d" % (m, counts, total), where)
            ctx.ob("windows-equally-likely", min(bins) > 20 and max(bins) < 64,
                   "starts by eighths of the range: %r of %d" % (bins, total), where)


def unseeded(ctx):
    s = Setup(ctx, PLAIN, seed=None)
    out, items = s.first(2)
    ctx.quiet(out)
    for i, b in enumerate(items):
        window(ctx, s, b, "generate_batches unseeded item %d" % i)


def columns(ctx, seed):
    """Labels given as the documented column."""
    s = Setup(ctx, PLAIN, seed=seed, column=True)
    out, items = s.first(2)
    ctx.quiet(out)
    ctx.ob("yields", len(items) == 2, "%d items" % len(items))
    for i, b in enumerate(items):
        window(ctx, s, b, "generate_batches column of labels item %d" % i)


def run(ctx):
    ctx.scenario("first items", exact, ctx)
    ctx.scenario("generic iteration", generic, ctx)
    ctx.scenario("default batch size", defaults, ctx)
    ctx.scenario("without a seed", unseeded, ctx)
    for c in sizes(["data_batches.py"], 13, 10 ** 7)[::2]:
        ctx.scenario("at %d" % c, large, ctx, c)
    ctx.scenario("types of the data", precisions, ctx, PLAIN)
    ctx.scenario("labels as a column", columns, ctx, "seed")
    ctx.scenario("labels as a column, no seed", columns, ctx, None)

"""C05: malformed minibatch requests are rejected before any batch; well-formed ones never are."""
from .. import ops
from .. import terms as tm
from ..batch import *

EXPLANATION = ("Both generators are interpreted with malformed arguments (symbolic where the malformed set is a range):"
               " no yield may be reachable; and with well-formed ones: no exception may be reachable.")
FLOOR = 40
ANCHORS = ["pysgmcmc.data_batches.generate_batches", "pysgmcmc.data_batches.generate_shuffled_batches"]


def rejected(ctx, fn, what, **kw):
    y_rows = kw.pop("y_rows", None)
    assume = kw.pop("assume", [])
    y_shape = kw.pop("y_shape", None)
    s = Setup(ctx, fn, **kw)
    if y_shape is not None:
        s.y = s.I.arr(ops.full(y_shape, tm.sym("label")), owner=("ext", "y"))
    if y_rows is not None:
        s.y = s.I.arr(rows("y", y_rows), owner=("ext", "y"))
    out, items = s.first(1)
    where = "%s %s" % (fn.split(".")[-1], what)
    reach = None
    for b in items:
        c = tm.and_(b.cond, *assume)
        if tm.satisfiable(c):
            reach = c
    ctx.ob("malformed-request-rejected", reach is None,
           "a batch is produced when %s" % (tm.show(reach, 4) if reach is not None else ""), where)
    ctx.ob("rejection-is-an-exception", len(out.raised) > 0, "nothing raised", where)


def accepted(ctx, fn, what, **kw):
    assume = kw.pop("assume", [])
    s = Setup(ctx, fn, **kw)
    out, items = s.first(2)
    where = "%s %s" % (fn.split(".")[-1], what)
    ctx.quiet(out, "well-formed-request-accepted", assume, where)
    ctx.ob("well-formed-request-served", len(items) == 2, "%d items" % len(items), where)


def run(ctx):
    real = tm.sym("w")
    for fn in (PLAIN, SHUF):
        sh = fn.split(".")[-1]
        m = tm.sym("M", "int", 1, 12)
        n = tm.sym("N", "int", 1, 12)
        bad = [
            ("batch size zero or negative", dict(bs=(-6, 0))),
            ("batch size zero", dict(batch_size=0)),
            ("fractional batch size", dict(batch_size=2.5)),
            ("real batch size", dict(batch_size=tm.sym("w", kind="pos"))),
            ("whole float batch size", dict(batch_size=3.0)),
            ("text batch size", dict(batch_size="3")),
            ("no batch size", dict(batch_size=Opq("thing", typ=None))),
            ("negative seed", dict(seed=isym("neg", -9, -1))),
            ("seed over 32 bits", dict(seed=isym("big", 2 ** 32, 2 ** 34))),
            ("fractional seed", dict(seed=1.5)),
            ("text seed", dict(seed="1")),
            ("more labels than rows", dict(N=n, y_rows=m, assume=[tm.lt(n, m)])),
            ("fewer labels than rows", dict(N=n, y_rows=m, assume=[tm.lt(m, n)])),
        ]
        for n_, ysh in ((6, (2, 3)), (6, (3, 2)), (4, (1, 4)), (5, (4,)), (5, (6,)), (12, (3, 4)), (2, (1, 2)), (3, (9, 1))):
            bad.append(("%d rows, labels of shape %r" % (n_, ysh), dict(N=n_, batch_size=2, y_shape=ysh)))
        for what, kw in bad:
            if kw.get("batch_size").__class__ is Opq:
                continue
            ctx.scenario("%s: %s" % (sh, what), rejected, ctx, fn, what, **kw)
        good = [
            ("smallest batch", dict(batch_size=1)),
            ("any batch size", dict()),
            ("batch size of the dataset", dict(N=n, batch_size=n)),
            ("batch larger than the dataset", dict(N=n, batch_size=tm.add(n, isym("extra", 1, 5)))),
            ("one row", dict(N=1)),
            ("seed zero", dict(seed=0)),
            ("largest seed", dict(seed=2 ** 32 - 1)),
            ("any 32 bit seed", dict(seed=isym("s32", 0, 2 ** 32 - 1))),
            ("no seed", dict(seed=None)),
            ("seed omitted", dict(seed="omit")),
            ("batch size omitted", dict(default_bs=True)),
            ("labels as a column", dict(column=True)),
        ]
        for what, kw in good:
            ctx.scenario("%s: %s" % (sh, what), accepted, ctx, fn, what, **kw)

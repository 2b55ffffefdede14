"""Shared driver for the minibatch generators."""
import numpy as np

from . import terms as tm
from .drive import *
from .interp import PyRaise
from .vals import *

PLAIN = "pysgmcmc.data_batches.generate_batches"
SHUF = "pysgmcmc.data_batches.generate_shuffled_batches"


class Batch(object):
    def __init__(self, I, ref, xp, yp):
        from .terms import Undecided
        c = I.get(ref) if isinstance(ref, Ref) and ref.kind == "dict" else None
        # a dictionary kept across iterations: what this iteration put there counts
        items = list(I.lib.dict_items(ref)) if c is None or c.rest is None else known_items(I, ref)
        self.keys = [k for k, _ in items]
        d = {id(k): v for k, v in items}
        self.x = Snap(I, d[id(xp)]) if id(xp) in d else None
        self.y = Snap(I, d[id(yp)]) if id(yp) in d else None
        self.cond = tm.and_(*I.pc)
        self.ref = ref
        self.items = [(k, v) for k, v in items]

    def still(self, I):
        """What the dictionary handed out holds now, where it differs."""
        if not (isinstance(self.ref, Ref) and self.ref.kind == "dict") or I.get(self.ref).rest is not None:
            return None
        now = I.lib.dict_items(self.ref)
        if len(now) == len(self.items) and all(a is c and b is d for (a, b), (c, d) in zip(now, self.items)):
            return None
        return "the dictionary handed out now holds %r, it held %r" % (now, self.items)


class Setup(object):
    """One call of a generator entry point with symbolic sizes."""

    def __init__(self, ctx, fname, enc="pos", seed="seed", n=(1, 12), bs=(1, 14), kw=None, N=None,
                 batch_size=None, default_bs=False, I=None, dtypes=(None, None), column=False):
        self.I = I = I or ctx.interp()
        self.fname = fname
        self.N = N if N is not None else isym("N", *n)
        self.bs = batch_size if batch_size is not None else isym("bs", *bs)
        self.seed = isym("seed", 0, 2 ** 32 - 1) if seed == "seed" else seed
        self.xp, self.yp = Opq("x_placeholder"), Opq("y_placeholder")
        self.x = I.arr(rows("x", self.N, 2, enc=enc), owner=("ext", "x"), dtype=dtypes[0])
        self.y = I.arr(SArr((self.N, 1), lambda i, j: tm.term(i)) if column else rows("y", self.N, enc=enc), owner=("ext", "y"), dtype=dtypes[1])
        self.want = tm.fn("min", self.bs, self.N)
        self.kw = {}
        if not default_bs:
            self.kw["batch_size"] = self.bs
        if seed != "omit":
            self.kw["seed"] = self.seed

    def gen(self):
        I = self.I
        f = I.resolve(self.fname)
        return I.call(f, [self.x, self.y, self.xp, self.yp], dict(self.kw))

    def snap(self, v):
        return Batch(self.I, v, self.xp, self.yp)

    def first(self, k):
        res = []

        def go():
            res.extend(first_items(self.I, self.gen(), k, self.snap))
        out = self.I.run(go)
        return out, res

    def generic(self):
        res = []

        def go():
            res.extend(generic_items(self.I, self.gen(), self.snap))
        out = self.I.run(go)
        return out, res


def precisions(ctx, fn):
    """Batches hold the data's values: no type that cannot represent them is put in between."""
    short = fn.split(".")[-1]
    for dx, dy in (("float64", "float64"), ("float32", "float64"), ("float64", "float32"), ("int64", "float64"),
                   ("float64", "int64"), ("int32", "float32"), ("float32", "float32")):
        s = Setup(ctx, fn, dtypes=(dx, dy))
        out, items = s.first(2)
        ctx.quiet(out)
        for i, b in enumerate(items):
            for nm, sn, src in (("inputs", b.x, dx), ("labels", b.y, dy)):
                if sn is None or sn.dtype is None:
                    continue
                ctx.ob("values-kept-by-type", np.can_cast(src, sn.dtype, "safe"),
                       "%s of type %s come as %s" % (nm, src, sn.dtype), "%s item %d %s %s" % (short, i, dx, dy))


def known_items(I, ref):
    return list(I.get(ref).items)

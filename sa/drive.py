"""Driving the analysed public entry points: shared by the checks."""
import numpy as np

from . import ops
from . import terms as tm
from .interp import PyRaise, StopGen
from .terms import T, Undecided
from .vals import *


class Snap(object):
    """What one array held at the time it was handed out."""

    def __init__(self, I, ref):
        if isinstance(ref, Phi):
            raise Undecided("array is a join of different objects")
        c = I.get(ref)
        self.ref, self.data, self.owner, self.dtype = ref, c.data, c.owner, c.dtype
        self.shape = tuple(c.data.shape)

    def at(self, *idx):
        if isinstance(self.data, SArr):
            return tm.term(self.data.elem(*idx))
        return I_at(self.data, idx)


def I_at(d, idx):
    if all(isinstance(i, int) for i in idx):
        return tm.term(d[idx])
    i = idx[0]
    rows = [d[k] for k in range(d.shape[0])]
    if len(idx) == 1:
        return tm._mk("select", (tm.term(i),) + tuple(tm.term(x) for x in rows), tm.term(rows[0]).sort)
    return tm._mk("select", (tm.term(i),) + tuple(I_at(np.array(r, dtype=object), idx[1:]) for r in rows), "real")


def first_items(I, gen, k, snap):
    """The first k items of a generator, each captured by snap when it is yielded."""
    if not isinstance(gen, GenV):
        # an iterator object: plain next()
        out = []
        for _ in range(k):
            out.append(snap(I.lib.f_builtins_next([gen], {})))
        return out
    out = []

    def cb(v):
        out.append((snap(v), tm.and_(*I.pc[n:])))
        if len(out) >= k:
            raise StopGen(gen, None)
    n = len(I.pc)
    frames, loops, depth, pc = list(I.frames), list(I.loops), I.depth, I.pc
    try:
        I.run_generator(gen, cb)
    except StopGen as e:
        if e.gen is not gen:
            raise
        I.frames, I.depth = frames, depth
        I.loops[:] = loops
    return [s for s, _ in out]


def generic_items(I, gen, snap):
    """Every item of a generator: one event per yield of a generic iteration."""
    def cb(v):
        I.event("item", snap=snap(v))
    n = len(I.events)
    I.run_generator(gen, cb)
    return [e for e in I.events[n:] if e.kind == "item"]


def rows(name, N, cols=None, owner=None, enc=None):
    """Caller data whose element encodes its own position."""
    if cols is None:
        return SArr((N,), lambda i: tm.term(i) if enc == "pos" else tm.uf(name, i))
    return SArr((N, cols), lambda i, j: tm.add(tm.mul(cols, i), j) if enc == "pos" else tm.uf(name, i, j))


def isym(name, lo=0, hi=None):
    return tm.sym(name, "int", lo, hi)


def entropy_in(t):
    return tm.contains(t, lambda s: s.op == "sym" and str(s.args[0]).startswith("entropy")) if isinstance(t, T) else None

"""Shared driver for checks over tensor functions: build a graph, evaluate it, compare."""
import numpy as np

from . import ops
from . import terms as tm
from .drive import *
from .sizes import array, sizes
from .tfgraph import TNode
from .vals import *

MOD = "pysgmcmc.tensor_utils."


class Case(object):
    """A fresh interpreter with one session, and tensors whose elements are free symbols."""

    def __init__(self, ctx, I=None):
        self.ctx = ctx
        self.I = I or ctx.interp()
        self.session = self.I.run(self.I.lib.new_session).value

    def tensor(self, name, shape, dtype="float64", kind=None):
        """A placeholder-like tensor of symbols."""
        d = array(name, shape, kind)
        g = self.I.graph
        n = g.node("identity", [g.node("const", [], lambda: ops.A(d), dtype=DType(dtype), shape=tuple(shape))], ops.identity,
                   dtype=DType(dtype), shape=tuple(shape), name=name)
        return n, d

    def variable(self, name, shape, dtype="float64"):
        n, d = self.tensor(name, shape, dtype)
        v = self.I.graph.variable(n, DType(dtype), name)
        return v, d

    def call(self, f, *a, **k):
        I = self.I
        return I.run(lambda: I.call(I.resolve(f), list(a), dict(k)))

    def value(self, node):
        """The value of a tensor in a session run, after initialising what exists."""
        I = self.I

        def go():
            I.lib.session_run(self.session, [I.lib.call_tf("tensorflow.global_variables_initializer", [], {})], {})
            return I.lib.session_run(self.session, [node], {})
        out = I.run(go)
        v = self.ctx.must(out)
        if isinstance(v, Ref) and v.kind == "arr":
            return ops.A(I.get(v).data)
        return ops.A(tm.term(v))

    def refused(self, rule, out, exc, where):
        ok = out.value is UNBOUND
        self.ctx.ob(rule, ok, "accepted: %r" % (out.value,), where)
        if ok:
            names = [e.exc.name() for _, e in out.raised]
            self.ctx.ob(rule + "-error", names and all(n in exc for n in names), repr(names), where)


def arrays_equal(ctx, rule, got, want, where, points=16, assume=()):
    got, want = ops.A(got), ops.A(want)
    if got.shape != want.shape:
        return ctx.ob(rule, False, "shape %s, required %s" % (got.shape, want.shape), where)
    for i in np.ndindex(got.shape):
        ctx.eq(rule, got[i], want[i], assume, points, where, what=str(list(i)))

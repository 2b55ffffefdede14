"""Driving BayesianNeuralNetwork: the samplers, the network and the batch generator are stand-ins."""
import numpy as np

from . import ops
from . import terms as tm
from .drive import *
from .sizes import array, sizes
from .mcmc import CLS, BURN, pos, total, canon
from .tensors import arrays_equal
from .terms import T
from .tfgraph import TNode
from .vals import *

BNN = "pysgmcmc.models.bayesian_neural_network.BayesianNeuralNetwork"
MODULE = "pysgmcmc.models.bayesian_neural_network"
SHAPES = [(2, 1), (), (2,)]


class Samplers(object):
    """Replaces construction and stepping of the sampler classes."""

    def __init__(self, I, shapes, fail_at=None):
        self.I, self.shapes, self.made, self.steps = I, shapes, [], 0
        self.fail_at = fail_at
        for which, dotted in CLS.items():
            cls = I.resolve(dotted)
            init = I.class_attr(cls, "__init__")
            self.install(self.full(init), init)
            for n in ("__next__", "__iter__"):
                m = I.class_attr(cls, n)
                I.overrides[self.full(m)] = Native(n, self.nxt if n == "__next__" else (lambda I_, a, k: a[0]))

    def full(self, f):
        return "%s.%s.%s" % (f.module.name, f.cls.name, f.name.split(".")[-1]) if f.cls else f.name

    def install(self, full, init):
        def fn(I, a, k):
            bound = I.bind_args(init, a, k)
            self.made.append((I.get(a[0]).cls, bound))
            I.event("sampler", cls=I.get(a[0]).cls, args=bound)
            # what every sampler offers its users
            for n in ("params", "cost_fun", "batch_generator", "stepsize_schedule", "session", "dtype", "seed", "burn_in_steps"):
                if n in bound:
                    I.setattr(a[0], n, bound[n])
            I.setattr(a[0], "n_iterations", 0)
            I.stubs.add(a[0])
            return None
        self.I.overrides[full] = Native("init", fn)

    def value(self, k, i):
        d = np.empty(self.shapes[i], dtype=object)
        for j in np.ndindex(d.shape):
            d[j] = tm.sym("s%d.%d%s" % (k, i, list(j)))
        return d

    def nxt(self, I, a, k):
        n = self.steps
        self.steps += 1
        if a and isinstance(a[0], Ref) and a[0] in I.stubs:
            I.setattr(a[0], "n_iterations", I.getattr(a[0], "n_iterations") + 1)
        I.event("sampler_next", index=n)
        if self.fail_at is not None and n == self.fail_at:
            I.raise_("InvalidArgumentError", "the step failed")
        vals = [I.arr(ops.A(self.value(n, i))) for i in range(len(self.shapes))]
        s = vals[0] if len(vals) == 1 else I.list_(vals)
        return (s, I.arr(ops.A(tm.sym("cost%d" % n))))


class Bnn(object):
    def __init__(self, ctx, kw=None, shapes=None, N=3, D=2, method=None, fail_at=None, stub_batches=True, I=None,
                 positional=False, reuse=False, must=True, tag="", dtype="float64", B=2, stub_samplers=True):
        self.ctx, self.I = ctx, I or ctx.interp()
        I = self.I
        self.tag = tag
        self.shapes = [tuple(s) for s in (shapes if shapes is not None else SHAPES)]
        self.N, self.D, self.B = N, D, B
        I.graph.none_dim = 1
        I.graph.unknown_shape = (1, 1)
        self.dtype = DType(dtype)
        I.narrow = I.narrow and dtype == "float64"
        self.samplers = Samplers(I, self.shapes, fail_at) if stub_samplers else None
        self.net_calls, self.batch_calls, self.net_vars = [], [], None
        self.reuse = reuse
        self.session = I.run(lambda: I.lib.new_session()).value
        self.cls = I.resolve(BNN)
        self.get_net = Native("get_net", self.net)
        self.batch_generator = Native("batch_generator", self.batches) if stub_batches else None
        self.kw = {"session": self.session, "get_net": self.get_net}
        if stub_batches:
            self.kw["batch_generator"] = self.batch_generator
        if method is not None:
            self.kw["sampling_method"] = I.run(lambda: I.getattr(I.resolve("pysgmcmc.sampling.Sampler"), method)).value
        if dtype != "float64":
            self.kw["dtype"] = self.dtype
        self.kw.update(kw or {})
        self.kw = {k: v for k, v in self.kw.items() if v is not OMIT}
        self.out = I.run(lambda: I.call(self.cls, [], dict(self.kw)))
        if must:
            ctx.must(self.out)
        self.bnn = self.out.value

    # ---------------------------------------------------------------- stand-ins

    def net(self, I, a, k):
        if a:
            k = dict(zip(("inputs", "seed", "dtype"), a), **k)
        x = k["inputs"]
        self.net_calls.append(dict(k))
        I.event("get_net", args=dict(k))
        g = I.graph
        if self.net_vars is None or not self.reuse:
            self.net_vars = [g.variable(g.const(0.0 if s == () else I.arr(ops.full(s, 0)), dtype=k.get("dtype")),
                                        k.get("dtype"), "%s%s%d" % ("zykcxab"[i % 7], self.tag, i)) for i, s in enumerate(self.shapes)]
            for v in self.net_vars:
                v.attrs["user"] = True
        cols = len(self.shapes)
        return g.node("net", [x] + self.net_vars, self.net_fn, {}, x.dtype, shape=(x.shape[0], 2))

    def net_fn(self, x, *ws):
        x = ops.A(x)
        flat = [t for w in ws for t in ops.A(w).flat]
        out = np.empty((x.shape[0], 2), dtype=object)
        for i in range(x.shape[0]):
            for c in range(2):
                out[i, c] = tm.uf("net%s%d" % (self.tag, c), *([t for t in x[i]] + flat))
        return ops.A(out)

    def batches(self, I, a, k):
        if a:
            k = dict(zip(("x", "y", "x_placeholder", "y_placeholder", "batch_size", "seed"), a), **k)
        self.batch_calls.append(dict(k))
        I.event("batch_generator", args=dict(k))

        def nxt(I, a_, k_):
            I.event("batch_next")
            m = k.get("batch_size", 20)
            m = min(m if isinstance(m, int) else 1, self.N)
            x, y = ops.A(I.get(k["x"]).data)[:m], ops.A(I.get(k["y"]).data)[:m].reshape(-1, 1)
            return I.dict_([(k["x_placeholder"], I.arr(x.copy(), dtype=DType("float64"))),
                            (k["y_placeholder"], I.arr(y.copy(), dtype=DType("float64")))])
        made = Opq("batches", "batches", methods={"__next__": nxt, "__iter__": lambda I, a, k: made})
        return made

    # ------------------------------------------------------------------ calls

    def data(self, name="x", n=None, owner=None, cols=None):
        n = self.N if n is None else n
        cols = self.D if cols is None else cols
        d = array(name, (n, cols) if cols else (n,))
        return self.I.arr(ops.A(d), owner=owner, dtype=DType("float64"))

    def train(self, x=None, y=None, must=True):
        I = self.I
        self.x = x if x is not None else self.data("x", owner=("ext", "X"))
        self.y = y if y is not None else self.data("y", owner=("ext", "y"), cols=0)
        self.xd, self.yd = ops.A(I.get(self.x).data).copy(), ops.A(I.get(self.y).data).copy()
        out = I.run(lambda: I.call(I.getattr(self.bnn, "train"), [self.x, self.y], {}))
        if must:
            self.ctx.must(out)
        return out

    def predict(self, x, must=True, **kw):
        I = self.I
        out = I.run(lambda: I.call(I.getattr(self.bnn, "predict"), [x], dict(kw)))
        if must:
            self.ctx.must(out)
            v = out.value
            items = I.items_of(v)
            return [ops.A(I.lib.to_array(i)) if isinstance(i, Ref) else ops.A(tm.term(i)) for i in items]
        return out

    # -------------------------------------------------------------- references

    def moments(self, d):
        """Mean and standard deviation of every column, as the data determines them."""
        d = ops.A(d)
        n = d.shape[0]
        if d.ndim == 1:
            m = tm.div(total(d[i] for i in range(n)), n)
            v = tm.div(total(tm.mul(tm.sub(d[i], m), tm.sub(d[i], m)) for i in range(n)), n)
            return m, tm.fn("sqrt", v)
        ms = [self.moments(d[:, j]) for j in range(d.shape[1])]
        return [m for m, _ in ms], [s for _, s in ms]

    def normalised(self, d, of):
        """Rows of d under the normaliser of the training inputs `of`."""
        m, s = self.moments(of)
        d = ops.A(d)
        out = np.empty(d.shape, dtype=object)
        for i in np.ndindex(d.shape):
            mm, ss = (m, s) if d.ndim == 1 else (m[i[1]], s[i[1]])
            out[i] = tm.div(tm.sub(d[i], mm), ss)
        return out

    def net_ref(self, c, row, k):
        flat = [t for i in range(len(self.shapes)) for t in self.samplers.value(k, i).flat]
        return tm.uf("net%s%d" % (self.tag, c), *([tm.term(t) for t in row] + flat))

    def retained(self, n_iters, burn_in, steps, n_nets):
        return [i for i in range(n_iters) if i > burn_in and i % steps == 0][:n_nets]


class _Omit(object):
    pass


OMIT = _Omit()


def config(n_iters=8, burn_in=2, steps=2, n_nets=3, **kw):
    return dict(n_iters=n_iters, burn_in_steps=burn_in, sample_steps=steps, n_nets=n_nets, **kw)

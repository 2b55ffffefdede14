"""Driving the samplers through their public interface, and the reference recurrences."""
from fractions import Fraction

import mpmath
import numpy as np

from . import ops
from . import terms as tm
from .drive import *
from .interp import substitute, PyRaise
from .terms import T, Undecided
from .tfgraph import TNode
from .lib import Stop
from .vals import *

CLS = {
    "SGHMC": "pysgmcmc.samplers.sghmc.SGHMCSampler",
    "SGLD": "pysgmcmc.samplers.sgld.SGLDSampler",
    "RelativisticSGHMC": "pysgmcmc.samplers.relativistic_sghmc.RelativisticSGHMCSampler",
    "SVGD": "pysgmcmc.samplers.svgd.SVGDSampler",
}
BURN = ("SGHMC", "SGLD")
DATA = 2          # elements of a fed minibatch


def pos(name):
    return tm.sym(name, kind="pos")


def arr(f, shape):
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(tuple(shape)):
        out[i] = tm.term(f(i))
    return out


class Ars(object):
    """Stand-in for the momentum sampler of the library arspy."""

    def __init__(self, I):
        self.calls = []
        I.lib.unknown_call = self.hook
        self.I = I

    def hook(self, name, a, k):
        if not name.endswith("adaptive_rejection_sampling"):
            return UNBOUND
        from .args import P
        p = P(a, k, "logpdf a b domain n_samples seed=None")
        self.calls.append(p)
        I = self.I
        if isinstance(p.n_samples, Ref) or p.n_samples is None or isinstance(p.n_samples, str):
            I.raise_("TypeError", "'>=' not supported between these types")
        if p.logpdf is None or isinstance(p.logpdf, (int, float, str, T)):
            I.raise_("AssertionError", "logpdf is not callable")
        ends = [x for x in (p.a, p.b) if isinstance(x, (int, float))]
        # the library wants a < b, finite, and on an unbounded domain a rising density at a, a falling one at b
        if len(ends) == 2 and not (p.a < p.b and abs(p.a) != float("inf") and abs(p.b) != float("inf")):
            I.raise_("ValueError", "invalid a and b")
        if len(ends) == 2 and not p.a < 0 < p.b:
            I.raise_("AssertionError", "the derivative at a (b) must be positive (negative)")
        n = I.lib.intval(p.n_samples)
        return I.list_([I.arr(ops.A(self.p0(j)), dtype=DType("float64")) for j in range(n)])

    def p0(self, j):
        return tm.sym("p0[%d]" % j)


class Schedule(object):
    """A caller's stepsize schedule: next() gives eps[k]; update() is recorded."""

    def __init__(self, name="eps", initial=None):
        self.name, self.n, self.updates = name, 0, []
        self.values = []
        self.obj = Opq("schedule:" + name, "schedule", attrs={
            "initial_value": initial if initial is not None else pos(name + "0")},
            methods={"__next__": self.nxt, "update": self.upd, "__iter__": lambda I, a, k: self.obj})

    def nxt(self, I, a, k):
        v = pos("%s[%d]" % (self.name, self.n + 1))
        self.n += 1
        self.values.append(v)
        I.event("schedule_next", schedule=self, index=self.n - 1, value=v)
        return v

    def upd(self, I, a, k):
        self.updates.append((list(a), dict(k)))
        I.event("schedule_update", schedule=self, args=list(a), kw=dict(k))
        return None


class Batches(object):
    """A caller's batch iterator: a new feed dict of new data each time."""

    def __init__(self, node, name="data"):
        self.node, self.name, self.n = node, name, 0
        self.refs, self.limit = [], None
        self.obj = Opq("batches", "batches", methods={"__next__": self.nxt, "__iter__": lambda I, a, k: self.obj})

    def values(self, k):
        return [tm.sym("%s%d[%d]" % (self.name, k, j)) for j in range(DATA)]

    def nxt(self, I, a, k):
        if self.limit is not None and self.n >= self.limit:
            return Stop
        r = I.arr(ops.A(np.array(self.values(self.n), dtype=object)), owner=("ext", "batch"))
        I.event("batch_next", index=self.n)
        self.n += 1
        d = I.dict_([(self.node, r)])
        self.refs.append(d)
        return d


class Run(object):
    """One sampler over user variables of the given shapes, stepped with next()."""

    def __init__(self, ctx, which, shapes=((),), batches=True, schedule=True, kw=None, dtype="float64",
                 cost_shape=(), session="given", I=None, init=True, name="U", params=None, must=True, tag=""):
        self.ctx, self.which, self.shapes = ctx, which, [tuple(s) for s in shapes]
        self.I = I = I or ctx.interp()
        g = I.graph
        self.dtype = DType(dtype)
        I.narrow = I.narrow and dtype == "float64"
        self.steps, self.raised, self.name, self.tag = [], [], name + tag, tag
        self.outs = []
        self.sampler = None
        self.params = []
        self.kw = dict(kw or {})
        self.session = None
        self.default = session == "default"
        self.out = I.run(lambda: self.build(batches, schedule, session, init, params))
        if must:
            ctx.must(self.out)

    def build(self, batches, schedule, session, init, params):
        I, g = self.I, self.I.graph
        self.session = I.lib.new_session()
        if self.default:
            I.lib.default_session = self.session
        if params is None:
            for i, s in enumerate(self.shapes):
                z = g.const(0.0, dtype=self.dtype) if s == () else g.const(
                    I.arr(ops.full(s, 0)), dtype=self.dtype)
                self.params.append(g.variable(z, self.dtype, "%s%s%d" % ("theta phi beta xi alpha".split()[i % 5], self.tag, i)))
                self.params[-1].attrs["user"] = True
        else:
            self.params = params
        self.placeholder = g.placeholder(self.dtype, (DATA,), "minibatch") if batches else None
        self.batches = Batches(self.placeholder, "data" + self.tag) if batches else None
        self.extra = self.kw.pop("_extra", None)
        self.cost_calls = []
        self.cost = Native("cost_fun", self.cost_fun)
        self.schedule = Schedule("eps" + self.tag) if schedule is True else schedule
        if hasattr(self.schedule, "bind"):
            self.schedule.bind(I)
        kw = dict(self.kw)
        kw["cost_fun"] = self.cost
        self.param_list = I.list_(self.params)
        kw["params" if self.which != "SVGD" else "particles"] = self.param_list
        if batches:
            kw["batch_generator"] = self.batches.obj
        if self.schedule:
            kw["stepsize_schedule"] = self.schedule.obj
        if session == "given":
            kw["session"] = self.session
        if self.dtype.name != "float64" or "dtype" in self.kw:
            kw["dtype"] = self.dtype
        self.final_kw = kw
        self.sampler = I.call(I.resolve(CLS[self.which]), [], kw)
        if init:
            self.initialise()

    def initialise(self):
        I = self.I
        op = I.lib.call_tf("tensorflow.global_variables_initializer", [], {})
        I.lib.session_run(self.session, [op], {})

    def cost_fun(self, I, a, k):
        p = a[0] if a else k.get("params")
        nodes = [p] if isinstance(p, TNode) else [x for x in I.items_of(p)]
        self.cost_calls.append(nodes)
        I.event("cost_call", nodes=nodes)
        extra = ([self.placeholder] if self.placeholder is not None else []) + (self.extra or [])
        return I.graph.userfun(self.name, nodes + extra, shape=())

    # ------------------------------------------------------------- stepping

    def state(self):
        return dict(self.I.get(self.I.lib.state_of(self.session)).vars)

    def theta(self):
        st = self.state()
        return [ops.A(st[v]) for v in self.params]

    def step(self, feed=None, must=True):
        """One next(sampler); returns a record of what happened."""
        I = self.I
        n0 = len(I.events)
        rec = Rec()
        rec.before = self.theta() if all(v in self.state() for v in self.params) else None
        rec.n_random = len(I.evs("random"))
        rec.nodes_before = len(I.graph.nodes)

        def go():
            if feed is None:
                return I.lib.f_builtins_next([self.sampler], {})
            return I.call(I.getattr(self.sampler, "__next__"), [], {"feed_dict": feed})
        rec.out = I.run(go)
        if must:
            self.ctx.must(rec.out)
        rec.nodes_after = len(I.graph.nodes)
        rec.value = rec.out.value
        rec.after = self.theta()
        rec.events = I.events[n0:]
        rec.runs = [e for e in rec.events if e.kind == "run"]
        rec.races = [r for e in rec.events if e.kind == "race" for r in e.races]
        rec.random = []
        for e in rec.runs:
            st = e.data.get("step")
            if st is not None:
                for nd in sorted(set(st.random), key=lambda n: n.id):
                    rec.random.append((nd, st))
        rec.index = len(self.steps)
        self.steps.append(rec)
        if isinstance(rec.value, tuple) and len(rec.value) == 2:
            rec.sample, rec.cost = rec.value
            rec.sample_data = self.snapshot(rec.sample)
            rec.cost_data = self.data(rec.cost)
        return rec

    def ground(self, pt):
        """Replaces the value of every variable of the session by the number it has at the point pt."""
        st = self.I.get(self.I.lib.state_of(self.session))
        for v in list(st.vars):
            st.vars[v] = grounded(st.vars[v], pt)

    def data(self, v):
        I = self.I
        if isinstance(v, Ref) and v.kind == "arr":
            return I.get(v).data
        return ops.A(tm.term(v)) if isinstance(v, (int, float, T)) else None

    def snapshot(self, v):
        """The arrays of a returned sample: a bare array or a list of arrays."""
        I = self.I
        if isinstance(v, Ref) and v.kind == "list" or isinstance(v, tuple):
            return [self.data(x) for x in I.items_of(v)]
        return self.data(v)

    def samples(self, rec):
        s = rec.sample_data
        return s if isinstance(s, list) else [s]

    # ------------------------------------------------------------- references

    def keys(self, theta, k, extra=()):
        flat = [x for t in theta for x in ops.A(t).flat]
        if self.batches is not None:
            flat += self.batches.values(k)
        return [tm.const("")] + flat + list(extra)

    def cost_ref(self, theta, k, extra=()):
        return tm.uf("fun:" + self.name, *self.keys(theta, k, extra))

    def grad_ref(self, theta, k, i, extra=()):
        ks = self.keys(theta, k, extra)
        return arr(lambda idx: tm.uf("D%d%s:%s" % (i, list(idx), self.name), *ks), self.shapes[i])


class Rec(object):
    sample = cost = sample_data = cost_data = None


def noise_symbols(t, rec):
    """Standard normal symbols drawn in this step that t depends on."""
    tags = ["[%s;%d]" % (st.tag, nd.id) for nd, st in rec.random]
    return [s for n, s in sorted(tm.free_syms([tm.term(t)]).items())
            if n.startswith(("random_normal[", "truncated_normal[", "random_uniform["))
            and any(tg in n for tg in tags)]


def drift(t, syms):
    return substitute(tm.term(t), {s: tm.const(0) for s in syms})


def coefficients(t, syms):
    """d t / d sym, as differences; exact for terms linear in the symbols."""
    base = drift(t, syms)
    out = {}
    for s in syms:
        m = {x: tm.const(0) for x in syms}
        m[s] = tm.const(1)
        out[s] = tm.sub(substitute(tm.term(t), m), base)
    return base, out


def total(xs):
    t = tm.const(0)
    for x in xs:
        t = tm.add(t, x)
    return t


def noise_check(ctx, rule, t, rec, want_drift, want_var, where, assume=(), points=16):
    """t = drift + zero-mean Gaussian noise of the required variance."""
    syms = noise_symbols(t, rec)
    base, co = coefficients(t, syms)
    ok = ctx.eq(rule + "-drift", base, want_drift, assume, points, where)
    ctx.ob(rule + "-noise-is-normal", all(s.args[0].startswith("random_normal[") for s in syms), repr(syms), where)
    var = total(tm.mul(c, c) for c in co.values())
    ok &= ctx.eq(rule + "-noise-variance", var, want_var, assume, points, where)
    lin = base
    for s, c in co.items():
        lin = tm.add(lin, tm.mul(c, s))
    ok &= ctx.eq(rule + "-noise-linear", t, lin, assume, points, where)
    return co


def independent(ctx, rule, cos, where, groups=None):
    """Noise of different elements has no common source."""
    seen = {}
    for name, co in cos:
        for s in co:
            for a, b in [(s, name)]:
                o = seen.setdefault(a, b)
                ctx.ob(rule, o == b, "%s and %s use the same draw %s" % (o, b, a.args[0]), where)


SMALL = tm.const(1e-16)


def safe_div(x, y):
    return ops.div(x, ops.add(y, ops.add(ops.mul(ops.mul(2, ops.unary("sign")(ops.A(y))), SMALL), SMALL)))


def safe_sqrt(x):
    return ops.unary("sqrt")(ops.maximum(ops.A(x), ops.A(0)))


def number(t, pt):
    # fewer digits than the working precision: equal values become identical numbers
    with mpmath.workdps(120):
        return tm.const(Fraction(mpmath.nstr(pt(tm.term(t)), 95)))


def grounded(a, pt):
    if not isinstance(a, np.ndarray):
        return number(a, pt) if isinstance(a, T) else a
    return arr(lambda i: number(a[i], pt), a.shape)


class Estimators(object):
    """tau, g, v of the adaptive preconditioner."""

    def __init__(self, shape):
        self.tau, self.g, self.v = [ops.full(shape, 1) for _ in range(3)]

    def advance(self, grad):
        """Returns the preconditioner of this step; updates the estimators."""
        r = ops.div(1, ops.add(self.tau, 1))
        minv = safe_div(ops.A(1), safe_sqrt(self.v))
        tau = ops.add(self.tau, ops.add(safe_div(ops.neg(ops.mul(ops.square(self.g), self.tau)), self.v), 1))
        g = ops.add(self.g, ops.add(ops.neg(ops.mul(r, self.g)), ops.mul(r, grad)))
        v = ops.add(self.v, ops.add(ops.neg(ops.mul(r, self.v)), ops.mul(r, ops.square(grad))))
        self.tau, self.g, self.v = tau, g, v
        return minv


def counters(run):
    """The integers the sampler holds."""
    return {k: v for k, v in run.I.get(run.sampler).attrs.items() if isinstance(v, int) and not isinstance(v, bool)}


def jump(run, before, deltas):
    """Moves the counters of the sampler on by delta steps: those that changed by one in its last step (before: their
    values before it). Yields each delta once it is done; yields nothing if there is no counter."""
    now = counters(run)
    move = {k: now[k] - before[k] for k in now if k in before and abs(now[k] - before[k]) == 1}
    for delta in deltas if move else ():
        c = run.I.get(run.sampler)
        a = dict(c.attrs)
        for k, d in move.items():
            a[k] = now[k] + d * delta
        run.I.put(run.sampler, InstC(c.cls, a))
        yield delta


class History(object):
    """The first n steps of a run at one point of the interpretation of its symbols: state and reference are numbers,
    so that any number of steps can be analysed. The steps after it are analysed for every interpretation again."""

    def __init__(self, run, n, burn_in=None, seed=3, jump_to=None):
        """jump_to: the counters of the sampler are then moved on as if it had made so many steps."""
        self.n, self.pt = n, tm.Valuation(seed)
        self.est = [Estimators(s) for s in run.shapes]
        self.last = None
        self.V = [ops.full(s, 0) for s in run.shapes]
        self.jumped = 0
        for k in range(n):
            was = counters(run) if jump_to is not None and k == n - 1 else None
            rec = run.step()
            if was is not None and jump_to > n:
                self.jumped = sum(jump(run, was, [jump_to - n]))
            if burn_in is not None:
                cur = [e.advance(run.grad_ref(rec.before, k, i)) for i, e in enumerate(self.est)]
                for e in self.est:
                    e.tau, e.g, e.v = [grounded(x, self.pt) for x in (e.tau, e.g, e.v)]
                if k < burn_in:
                    self.last = [grounded(x, self.pt) for x in cur]
            run.ground(self.pt)
            rec.after = run.theta()
            self.V = [ops.sub(a, b) for a, b in zip(rec.after, rec.before)]


    def generalise(self, run):
        """Replaces the adaptive estimators by arbitrary ones that can occur (tau >= 1, v > 0, g^2 <= v), in the state of
        the sampler and in the reference alike; the variables that hold them are recognised by their values after the
        walk. Returns False, and changes nothing, if they cannot be recognised."""
        st = run.I.get(run.I.lib.state_of(run.session))
        new, found = {}, 0
        for i, e in enumerate(self.est):
            shape = run.shapes[i]
            v = arr(lambda j: pos("v%d%s" % (i, list(j))), shape)
            u = arr(lambda j: tm.sub(tm.mul(2, tm.sym("u%d%s" % (i, list(j)), kind="unit")), 1), shape)
            fresh = {"v": v, "g": arr(lambda j: tm.mul(u[j], tm.fn("sqrt", v[j])), shape),
                     "tau": arr(lambda j: tm.add(1, pos("tau%d%s" % (i, list(j)))), shape)}
            for name, f in fresh.items():
                have = [self.pt(tm.term(x)) for x in ops.A(getattr(e, name)).flat]
                hit = 0
                for var, a in st.vars.items():
                    if var in run.params or not isinstance(a, np.ndarray) or a.size != len(have):
                        continue
                    try:
                        same = all(tm.close(self.pt(tm.term(x)), h) for x, h in zip(a.flat, have))
                    except (tm.Undef, TypeError, ValueError):
                        continue
                    if same:
                        if var in new:
                            return False
                        new[var] = f.reshape(a.shape)
                        hit += 1
                if not hit:
                    return False
                new[(i, name)] = f
        for k, f in new.items():
            if isinstance(k, tuple):
                setattr(self.est[k[0]], k[1], f)
            else:
                st.vars[k] = ops.A(f)
        return True


def preconditioners(run, n, burn_in, history=None):
    """Reference preconditioner of each step and parameter, given the visited states."""
    est = [Estimators(s) for s in run.shapes]
    last, out, first, jumped = None, [], 0, 0
    if history is not None:
        jumped = history.jumped
        est, last, first = history.est, history.last, history.n
        out = [None] * first
    for k in range(first, n):
        th = run.steps[k].before
        cur = [est[i].advance(run.grad_ref(th, k, i)) for i in range(len(run.shapes))]
        if k + jumped < burn_in:
            last = cur
        out.append(last if (k + jumped >= burn_in and last is not None) else cur)
    return out


ALL = ("SGHMC", "SGLD", "RelativisticSGHMC", "SVGD")


HYPER = {
    "SGHMC": lambda t: dict(mdecay=tm.sym("mdecay" + t, kind="unit"), scale_grad=pos("scale" + t)),
    "SGLD": lambda t: dict(A=pos("A" + t), scale_grad=pos("scale" + t)),
    "RelativisticSGHMC": lambda t: dict(mass=pos("mass" + t), speed_of_light=pos("c" + t), D=pos("D" + t), Bhat=pos("Bhat" + t)),
    "SVGD": lambda t: dict(alpha=tm.sym("alpha" + t, kind="unit"), fudge_factor=pos("fudge" + t)),
}


def make(ctx, which, shapes=None, burn_in=2, kw=None, hyper=False, **opts):
    """A sampler of the given kind with a standard configuration; hyper: arbitrary hyperparameters
    instead of the default ones."""
    I = opts.pop("I", None) or ctx.interp()
    k = dict(kw or {})
    if hyper:
        for n, v in HYPER[which](opts.get("tag", "")).items():
            k.setdefault(n, v)
    if which in BURN and burn_in is not None:
        k.setdefault("burn_in_steps", burn_in)
    if which == "RelativisticSGHMC":
        if getattr(I.lib, "ars", None) is None:
            I.lib.ars = Ars(I)
        shapes = [()] * (len(shapes) if shapes else 2)
    if which == "SVGD":
        n = max(2, len(shapes)) if shapes else 3
        shapes = [(2,)] * n
    return Run(ctx, which, shapes or [(), (2,)], kw=k, I=I, **opts)


def canon(terms, recs):
    """Rename the noise symbols by step and rank, so that two runs can be compared."""
    m = {}
    for k, rec in enumerate(recs):
        for rank, (nd, st) in enumerate(rec.random):
            tag = "[%s;%d]" % (st.tag, nd.id)
            for t in terms:
                for n, s in tm.free_syms([tm.term(t)]).items():
                    if tag in n:
                        m[s] = tm.sym("noise[%d;%d]%s" % (k, rank, n.split(tag)[1]))
    memo = {}
    return [substitute(tm.term(t), m, memo) for t in terms]


def outputs(run):
    """Every sample element and cost a run has returned, as terms."""
    out = []
    for rec in run.steps:
        for a in run.samples(rec):
            out.extend(tm.term(x) for x in ops.A(a).flat)
        out.extend(tm.term(x) for x in ops.A(rec.cost_data).flat)
    return out


def cost_want(run, theta, k, extra=()):
    """What the reported cost of step k has to be: the cost at the parameters before the step."""
    if run.which == "SVGD":
        return ops.A([tm.uf("fun:" + run.name, *run.keys([t], k, extra)) for t in theta])
    return ops.A(run.cost_ref(theta, k, extra))


def same_array(ctx, rule, got, want, where, points=8, assume=()):
    if got is None or tuple(ops.A(got).shape) != tuple(ops.A(want).shape):
        return ctx.ob(rule, False, "shape %s, required %s" % (
            None if got is None else ops.A(got).shape, ops.A(want).shape), where)
    ok = True
    for i in np.ndindex(ops.A(got).shape):
        ok &= ctx.eq(rule, ops.A(got)[i], ops.A(want)[i], assume, points, where)
    return ok

"""C34: importing and using the package leaves process-wide state alone."""
import os

from ..interp import REPO
from ..batch import PLAIN, SHUF, Setup, first_items
from ..bnn import *
from ..mcmc import *
from ..tensors import Case, MOD

EXPLANATION = ("Every module of the package is interpreted at import, and samplers, batch generators, the network model,"
               " tensor utilities, schedules and diagnostics in use; no call on any of these paths may reseed or reconfigure"
               " numpy, TensorFlow, logging, warnings or the interpreter, draw from the global random state when seeded,"
               " or leave another default session, graph or scope behind.")
FLOOR = 200
ANCHORS = []


def clean(ctx, I, where, seeded=True):
    n = 0
    for e in I.evs("global_effect"):
        what = str(e.data.get("what"))
        if what.startswith("module attribute pysgmcmc"):
            continue
        n += 1
        ctx.ob("no-process-wide-effect", False, what, where, e.site)
    ctx.ob("no-process-wide-effect", not n, "", where)
    g = [e for e in I.evs("graph_seed")]
    ctx.ob("caller-graph-not-reseeded", not g, "tensorflow.set_random_seed", where, g[0].site if g else None)
    if seeded:
        r = [e for e in I.evs("global_rng")]
        ctx.ob("no-global-draws-when-seeded", not r, repr([e.data.get("what") for e in r[:3]]), where, r[0].site if r else None)
    ctx.ob("default-graph-restored", I.lib.cur_graph() is I.lib.root_graph and len(I.lib.graph_stack) == 1,
           repr(I.lib.graph_stack), where)
    ctx.ob("name-scope-restored", not I.lib.name_stack, repr(I.lib.name_stack), where)


def modules(root):
    base = os.path.join(root, "pysgmcmc")
    out = []
    for d, dirs, files in os.walk(base):
        dirs[:] = sorted(x for x in dirs if x not in ("tests", "__pycache__"))
        for f in sorted(files):
            if f.endswith(".py"):
                m = os.path.relpath(os.path.join(d, f), root)[:-3].replace(os.sep, ".")
                out.append(m[:-9] if m.endswith(".__init__") else m)
    return out


def imports(ctx, m):
    I = ctx.interp()
    ctx.quiet(I.run(lambda: I.load(m)))
    clean(ctx, I, "import of " + m)
    ctx.ob("no-session-at-import", not I.evs("session"), "", m)
    ctx.ob("no-variables-at-import", not I.evs("variable"), "", m)


def sampler(ctx, which, seed):
    kw = {} if which == "SVGD" else {"seed": seed}
    run = make(ctx, which, [(), (2,)], kw=kw)
    before = run.I.lib.default_session
    for _ in range(4):
        run.step()
    clean(ctx, run.I, "%s seed=%r" % (which, seed), seed is not None)
    ctx.ob("default-session-kept", run.I.lib.default_session is before, "", which)


def batches(ctx, fn, seed):
    s = Setup(ctx, fn, seed=seed)
    out = s.I.run(lambda: first_items(s.I, s.gen(), 4, s.snap))
    ctx.quiet(out)
    clean(ctx, s.I, "%s seed=%r" % (fn.split(".")[-1], seed), seed is not None)


def network(ctx, seed, stub):
    b = Bnn(ctx, config(4, 1, 1, 2, seed=seed, batch_size=2), N=3, D=1, stub_batches=stub, shapes=[(1,)])
    before = b.I.lib.default_session
    b.train()
    b.predict(b.data("t", 2))
    clean(ctx, b.I, "network seed=%r%s" % (seed, "" if stub else " default batches"), seed is not None)
    ctx.ob("default-session-kept", b.I.lib.default_session is before, "", "network")


def tensors(ctx):
    c = Case(ctx)
    x, _ = c.tensor("x", (3, 2))
    y, _ = c.tensor("y", (3, 2))
    v, _ = c.variable("v", (2, 2))
    vec = ctx.must(c.call(MOD + "vectorize", v))
    ctx.must(c.call(MOD + "unvectorize", vec, (2, 2)))
    ctx.must(c.call(MOD + "safe_divide", x, y))
    ctx.must(c.call(MOD + "safe_sqrt", x))
    d = ctx.must(c.call(MOD + "pdist", x))
    ctx.must(c.call(MOD + "squareform", d))
    ctx.must(c.call(MOD + "median", d))
    ctx.must(c.call(MOD + "uninitialized_params", c.I.list_([v]), c.session))
    clean(ctx, c.I, "tensor utilities")


def objectives(ctx):
    I = ctx.interp()
    m = "pysgmcmc.diagnostics.objective_functions."
    for f, n in (("banana_log_likelihood", 2), ("gmm1_log_likelihood", 1), ("gmm2_log_likelihood", 1), ("branin", 2),
                 ("hartmann3", 3), ("hartmann6", 6), ("levy", 1), ("sin_two", 2), ("camelback", 2), ("bohachevski", 2)):
        ctx.must(I.run(lambda: I.call(I.resolve(m + f), [I.list_([tm.sym("x%d" % i) for i in range(n)])], {})))
    clean(ctx, I, "objective functions")


def schedules(ctx):
    I = ctx.interp()
    s = ctx.must(I.run(lambda: I.call(I.resolve("pysgmcmc.stepsize_schedules.ConstantStepsizeSchedule"), [pos("eps")], {})))
    for _ in range(3):
        ctx.must(I.run(lambda: I.call(I.getattr(s, "__next__"), [], {})))
        ctx.must(I.run(lambda: I.call(I.getattr(s, "update"), [], {"params": None, "cost": tm.sym("c")})))
    clean(ctx, I, "schedule")


def trace(ctx, names):
    """The warning about missing names is a message, not a reconfiguration."""
    I = ctx.interp()
    rows = I.list_([I.list_([tm.sym("a%d" % k), tm.sym("b%d" % k)]) for k in range(3)])
    t = ctx.must(I.run(lambda: I.call(I.resolve("pysgmcmc.diagnostics.sample_chains.PYSGMCMCTrace"), [0, rows],
                                      {"varnames": I.list_(["a", "b"]) if names else None})))
    ctx.must(I.run(lambda: I.getitem(t, 0)))
    clean(ctx, I, "trace%s" % (" named" if names else ""))


def chains(ctx, fn):
    from .c27 import Chains
    I = ctx.interp()
    ch = Chains(ctx, I, 2)
    ctx.must(I.run(lambda: I.call(I.resolve(fn), [ch.fn], {"n_chains": 2, "samples_per_chain": 2})))
    clean(ctx, I, fn.split(".")[-1])
    ctx.ob("default-session-kept", I.lib.default_session is None, repr(I.lib.default_session), fn)


def run(ctx):
    for m in modules(REPO):
        ctx.scenario("import " + m, imports, ctx, m)
    for which in ALL:
        for seed in (None, 0, 7):
            ctx.scenario("%s %r" % (which, seed), sampler, ctx, which, seed)
    for fn in (PLAIN, SHUF):
        for seed in (None, 0, 7):
            ctx.scenario("%s %r" % (fn, seed), batches, ctx, fn, seed)
    for seed in (None, 0, 7):
        for stub in (True, False):
            ctx.scenario("network %r %r" % (seed, stub), network, ctx, seed, stub)
    ctx.scenario("tensors", tensors, ctx)
    ctx.scenario("objectives", objectives, ctx)
    ctx.scenario("schedules", schedules, ctx)
    for names in (True, False):
        ctx.scenario("trace %r" % names, trace, ctx, names)
    for fn in ("sample_chains.pymc3_multitrace", "sampler_diagnostics.effective_sample_sizes", "sampler_diagnostics.gelman_rubin"):
        ctx.scenario(fn, chains, ctx, "pysgmcmc.diagnostics." + fn)

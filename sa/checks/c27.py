"""C27: multi-chain sampling makes independent, initialised, numbered chains and hands them all on."""
from ..mcmc import *
from ..tensors import *

EXPLANATION = ("pymc3_multitrace, effective_sample_sizes and gelman_rubin are interpreted with stand-in samplers that read a"
               " variable created by the caller's factory, and with a repository sampler; sessions, graphs, chains and the"
               " objects handed to pymc3 are followed.")
FLOOR = 150
SC = "pysgmcmc.diagnostics.sample_chains."
SD = "pysgmcmc.diagnostics.sampler_diagnostics."
ANCHORS = [SC + "pymc3_multitrace", SD + "effective_sample_sizes", SD + "gelman_rubin"]


class Chains(object):
    """The caller's factory: every call makes a variable, and a sampler that counts and reads it."""

    def __init__(self, ctx, I, n_params=1, real=None):
        self.ctx, self.I, self.n_params, self.real = ctx, I, n_params, real
        self.made = []
        self.handed = []
        I.lib.unknown_call = self.hook
        self.fn = Native("get_sampler", self.get)

    def get(self, I, a, k):
        c = len(self.made)
        ok = not a and list(k) == ["session"]
        self.ctx.ob("factory-gets-session", ok, "called with %r %r" % (a, list(k)))
        session = k["session"] if ok else (a[0] if a else k.get("session"))
        graph = I.lib.cur_graph()
        rec = {"session": session, "graph": graph, "n": 0, "default": I.lib.default_session}
        self.made.append(rec)
        rec["params"] = []
        for j in range(self.n_params):
            v = I.lib.call_tf("tensorflow.Variable", [0.5], {"name": "p%d" % j})
            rec["params"].append(v)
        if self.real:
            rec["sampler"] = self.real(I, session, I.list_(rec["params"]))
            return rec["sampler"]

        def nxt(I, a, k):
            rec["n"] += 1
            I.lib.session_run(session, [I.list_(rec["params"])], {})   # fails unless initialised, open, and in its graph
            s = [tm.sym("c%d.s%d.%d" % (c, rec["n"] - 1, j)) for j in range(self.n_params)]
            return (s[0] if self.n_params == 1 else I.list_(s), tm.sym("cost"))
        rec["sampler"] = Opq("sampler%d" % c, "sampler", attrs={"params": I.list_(rec["params"])},
                             methods={"__next__": nxt, "__iter__": lambda I, a, k: rec["sampler"]})
        return rec["sampler"]

    def hook(self, name, a, k):
        if not name.startswith("pymc3"):
            return UNBOUND
        self.handed.append((name, a, k))
        return Opq("result of " + name, "pymc3")


def handed_traces(ctx, I, ch, where):
    mt = [x for x in ch.handed if x[0].endswith("MultiTrace")]
    ctx.ob("one-multitrace", len(mt) == 1, "%d made" % len(mt), where)
    if not mt:
        return None
    a, k = mt[0][1], mt[0][2]
    traces = a[0] if a else k.get("straces")
    ok = isinstance(traces, Ref) and traces.kind == "list" or isinstance(traces, tuple)
    ctx.ob("multitrace-of-chains", ok and len(a) + len(k) == 1, repr((a, k)), where)
    return I.items_of(traces) if ok else None


def check_traces(ctx, I, ch, n_chains, n, keep, names, where):
    tr = handed_traces(ctx, I, ch, where)
    if tr is None:
        return
    ctx.ob("every-chain-handed-on", len(tr) == n_chains, "%d of %d" % (len(tr), n_chains), where)
    ctx.ob("one-sampler-per-chain", len(ch.made) == n_chains, "%d for %d" % (len(ch.made), n_chains), where)
    ids = [I.run(lambda: I.getattr(t, "chain")).value for t in tr]
    ctx.ob("chains-numbered", ids == list(range(n_chains)), repr(ids), where)
    graphs = [r["graph"] for r in ch.made]
    sessions = [r["session"] for r in ch.made]
    ctx.ob("own-graph-per-chain", len({id(g) for g in graphs}) == n_chains and I.lib.root_graph not in graphs, repr(graphs), where)
    ctx.ob("own-session-per-chain", len({id(s) for s in sessions}) == n_chains, repr(sessions), where)
    for c, r in enumerate(ch.made):
        ctx.ob("session-of-the-graph", r["session"].attrs.get("graph") is r["graph"], "", where + " chain %d" % c)
        ctx.ob("session-released", I.items_of(r["session"].attrs["closed"])[0] is True, "left open", where + " chain %d" % c)
    for c, t in enumerate(tr):
        ctx.ob("samples-per-chain", I.run(lambda: I.lib.f_builtins_len([t], {})).value == n,
               "%r" % I.run(lambda: I.lib.f_builtins_len([t], {})).value, where + " chain %d" % c)
        nm = I.run(lambda: I.items_of(I.getattr(t, "varnames"))).value
        want = names if names is not None else [I.run(lambda: I.getattr(p, "name")).value for p in ch.made[c]["params"]]
        ctx.ob("names", nm == want, "%r, required %r" % (nm, want), where + " chain %d" % c)
        if ch.real:
            continue
        for j, name in enumerate(want):
            out = I.run(lambda: I.call(I.getattr(t, "get_values"), [name], {}))
            v = ctx.must(out)
            arrays_equal(ctx, "own-samples", I.get(v).data,
                         np.array([tm.sym("c%d.s%d.%d" % (c, k * keep, j)) for k in range(n)], dtype=object),
                         where + " chain %d %s" % (c, name), 2)
    ctx.ob("default-graph-restored", I.lib.cur_graph() is I.lib.root_graph and I.lib.default_session is None, "", where)


def multi(ctx, n_params, kw, names):
    I = ctx.interp()
    I.lib.PULLED = 4000
    ch = Chains(ctx, I, n_params)
    where = "%d parameters %r%s" % (n_params, kw, " named" if names else "")
    k = dict(kw)
    k["get_sampler"] = ch.fn
    if names:
        k["parameter_names"] = I.list_(list(names))
    r = ctx.must(I.run(lambda: I.call(I.resolve(SC + "pymc3_multitrace"), [], k)))
    ctx.ob("multitrace-returned", isinstance(r, Opq) and "MultiTrace" in r.name, repr(r), where)
    check_traces(ctx, I, ch, kw.get("n_chains", 2), kw.get("samples_per_chain", 100), kw.get("keep_every", 10), names, where)


def diagnostic(ctx, fn, target, kw, positional=False):
    I = ctx.interp()
    I.lib.PULLED = 4000
    ch = Chains(ctx, I, 2)
    where = "%s %r" % (fn, kw)
    k = dict(kw)
    pos = [ch.fn] if positional else []
    if not positional:
        k["get_sampler"] = ch.fn
    r = ctx.must(I.run(lambda: I.call(I.resolve(SD + fn), pos, k)))
    check_traces(ctx, I, ch, kw.get("n_chains", 2), kw.get("samples_per_chain", 100), 10, None, where)
    diag = [x for x in ch.handed if not x[0].endswith("MultiTrace")]
    ctx.ob("diagnostic-dispatched", len(diag) == 1 and diag[0][0].endswith("." + target), repr([d[0] for d in diag]), where)
    if len(diag) == 1:
        a = list(diag[0][1]) + list(diag[0][2].values())
        ctx.ob("diagnostic-of-the-multitrace", len(a) == 1 and isinstance(a[0], Opq) and "MultiTrace" in a[0].name, repr(a), where)
        ctx.ob("diagnostic-returned", isinstance(r, Opq) and r.name.endswith("." + target), repr(r), where)


def burnt_in(ctx, n_params):
    """A factory may return a sampler that has already been run: its chain continues from there."""
    I = ctx.interp()
    ch = Chains(ctx, I, n_params)
    make_ = ch.get

    def get(I, a, k):
        s = make_(I, a, k)
        rec = ch.made[-1]
        c = len(ch.made) - 1
        late = I.lib.call_tf("tensorflow.Variable", [0.25], {"name": "late"})       # left to the caller to initialise
        I.lib.session_run(rec["session"], [I.lib.call_tf("tensorflow.variables_initializer", [I.list_(rec["params"])], {})], {})
        for j, p in enumerate(rec["params"]):
            I.lib.session_run(rec["session"], [I.lib.call_tf("tensorflow.assign", [p, tm.sym("burnt%d.%d" % (c, j))], {})], {})
        rec["seen"] = []

        def nxt(I, a, k):
            got = I.items_of(I.lib.session_run(rec["session"], [I.list_(list(rec["params"]) + [late])], {}))
            rec["seen"].append([I.lib.to_array(g)[()] for g in got])
            return (got[0] if n_params == 1 else I.list_(list(got[:-1])), tm.sym("cost"))
        s.methods["__next__"] = nxt
        return s
    ctx.must(I.run(lambda: I.call(I.resolve(SC + "pymc3_multitrace"), [Native("get_sampler", get)],
                                  {"n_chains": 2, "samples_per_chain": 2, "keep_every": 1})))
    for c, rec in enumerate(ch.made):
        for seen in rec["seen"]:
            for j in range(n_params):
                ctx.eq("burnt-in-state-kept", seen[j], tm.sym("burnt%d.%d" % (c, j)), (), 4, "chain %d of burnt-in samplers" % c)
            ctx.eq("initialised-before-sampling", seen[-1], tm.const(0.25), (), 4, "chain %d of burnt-in samplers" % c)
    ctx.ob("chains-sampled", all(len(r["seen"]) == 2 for r in ch.made) and len(ch.made) == 2, "", "burnt-in")


def real(ctx, which):
    """With a sampler of the repository behind the factory."""
    I = ctx.interp()

    def make_(I, session, params):
        cost = Native("cost", lambda I, a, k: I.graph.userfun("cost", list(I.items_of(a[0]))))
        kw = {"params": params, "cost_fun": cost, "session": session, "seed": 3, "dtype": DType("float32")}
        return I.call(I.resolve(CLS[which]), [], kw)
    ch = Chains(ctx, I, 2, real=make_)
    ctx.must(I.run(lambda: I.call(I.resolve(SC + "pymc3_multitrace"), [ch.fn], {"n_chains": 2, "samples_per_chain": 2, "keep_every": 2})))
    check_traces(ctx, I, ch, 2, 2, 2, None, "chains of " + which)
    ctx.ob("no-foreign-graph", not I.evs("foreign_graph"), "", which)


def run(ctx):
    small = [{"n_chains": 2, "samples_per_chain": 3, "keep_every": 2}, {"n_chains": 3, "samples_per_chain": 2, "keep_every": 1},
             {"n_chains": 1, "samples_per_chain": 4, "keep_every": 3}, {"samples_per_chain": 2}, {"n_chains": 4, "samples_per_chain": 1, "keep_every": 5}, {}]
    for kw in small:
        for n in (1, 2):
            for names in (None, ["a", "b"][:n]):
                ctx.scenario("multitrace %d %r %r" % (n, kw, names), multi, ctx, n, kw, names)
    for fn, target in (("effective_sample_sizes", "effective_n"), ("gelman_rubin", "gelman_rubin")):
        for kw in ({"n_chains": 3, "samples_per_chain": 2}, {"n_chains": 1, "samples_per_chain": 3},
                   {"n_chains": 5, "samples_per_chain": 1}, {"samples_per_chain": 3}, {"n_chains": 2, "samples_per_chain": 4}):
            ctx.scenario("%s %r" % (fn, kw), diagnostic, ctx, fn, target, kw)
        ctx.scenario("%s defaults" % fn, diagnostic, ctx, fn, target, {})
        ctx.scenario("%s positional" % fn, diagnostic, ctx, fn, target, {"n_chains": 3, "samples_per_chain": 2}, True)
    for n in sizes(["diagnostics/sample_chains.py", "diagnostics/sampler_diagnostics.py"], 4, 1500):
        ctx.scenario("%d chains" % n, multi, ctx, 1, {"n_chains": n, "samples_per_chain": 1, "keep_every": 1}, None)
        ctx.scenario("%d samples" % n, multi, ctx, 1, {"n_chains": 2, "samples_per_chain": n, "keep_every": 1}, None)
        ctx.scenario("every %d" % n, multi, ctx, 1, {"n_chains": 2, "samples_per_chain": 2, "keep_every": n}, None)
    for n in (1, 2):
        ctx.scenario("burnt-in %d" % n, burnt_in, ctx, n)
    for which in ("SGHMC", "SGLD"):
        ctx.scenario("chains of %s" % which, real, ctx, which)

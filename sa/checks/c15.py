"""C15: get_sampler builds the requested sampler with the caller's arguments, or refuses."""
from .. import ops
from .. import terms as tm
from ..mcmc import *

EXPLANATION = ("Sampler.get_sampler is interpreted for every member of the enumeration; the constructor arguments it"
               " passes on are recorded and compared with the caller's arguments and the constructor's defaults.")
FLOOR = 60
ANCHORS = []
SAMPLER = "pysgmcmc.sampling.Sampler"
REQUIRED = {"SGHMC": ("params", "cost_fun"), "SGLD": ("params", "cost_fun"),
            "RelativisticSGHMC": ("params", "cost_fun"), "SVGD": ("particles", "cost_fun")}


class Recorder(object):
    """Replaces the constructors; every construction is recorded as bound arguments."""

    def __init__(self, I):
        self.I, self.made = I, []
        for which, dotted in CLS.items():
            cls = I.resolve(dotted)
            init = I.class_attr(cls, "__init__")
            full = "%s.%s.__init__" % (init.module.name, init.cls.name if init.cls else which)
            self.install(full, init)

    def install(self, full, init):
        I = self.I

        def fn(I_, a, k):
            bound = I.bind_args(init, a, k)
            c = I.get(a[0])
            self.made.append((c.cls.name, bound))
            return None
        I.overrides[full] = Native("init", fn)


def member(I, which):
    e = I.resolve(SAMPLER)
    out = I.run(lambda: I.getattr(e, which))
    return e, out.value


def build(I, which, kw):
    e, m = member(I, which)
    return I.run(lambda: I.call(I.getattr(e, "get_sampler"), [m], kw))


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, Ref) or isinstance(b, Ref) or isinstance(a, (Opq, Native)) or isinstance(b, (Opq, Native)):
        return a == b if isinstance(a, Ref) else False
    try:
        return bool(tm.equal(a, b, points=4).ok)
    except Exception:
        return a == b


OPTIONS = {
    "SGHMC": ["batch_generator", "stepsize_schedule", "burn_in_steps", "mdecay", "scale_grad", "session", "dtype", "seed"],
    "SGLD": ["batch_generator", "stepsize_schedule", "burn_in_steps", "A", "scale_grad", "session", "dtype", "seed"],
    "RelativisticSGHMC": ["batch_generator", "stepsize_schedule", "mass", "speed_of_light", "D", "Bhat", "session",
                          "dtype", "seed"],
    "SVGD": ["batch_generator", "stepsize_schedule", "alpha", "fudge_factor", "session", "dtype", "seed"],
}


def values(I, which):
    v = {}
    for n in list(REQUIRED[which]) + OPTIONS[which]:
        v[n] = Opq("arg:" + n, "argument")
    return v


def full(ctx, which):
    """All arguments given; and each optional argument left out in turn."""
    I = ctx.interp()
    rec = Recorder(I)
    cls = I.resolve(CLS[which])
    init = I.class_attr(cls, "__init__")
    names = [x.arg for x in init.node.args.args][1:]
    defaults = dict(zip(names[len(names) - len(init.defaults):], init.defaults))
    v = values(I, which)
    ctx.ob("documented-arguments", set(OPTIONS[which]) <= set(names) and set(REQUIRED[which]) <= set(names),
           "constructor takes %r" % names, which)
    # defaults as the constructor binds them when called directly
    n_direct = len(rec.made)
    out = I.run(lambda: I.call(cls, [], {k: v[k] for k in REQUIRED[which]}))
    ctx.must(out)
    direct = rec.made[n_direct][1]
    for drop in [None] + OPTIONS[which] + [tuple(OPTIONS[which])]:
        kw = {k: x for k, x in v.items() if k != drop and not (isinstance(drop, tuple) and k in drop)}
        what = "%s without %s" % (which, "any option" if isinstance(drop, tuple) else drop)
        n0 = len(rec.made)
        out = build(I, which, dict(kw))
        ctx.must(out, "valid-request-accepted", (), what)
        ctx.ob("one-sampler-built", len(rec.made) == n0 + 1, "%d constructions" % (len(rec.made) - n0), what)
        if len(rec.made) != n0 + 1:
            continue
        name, got = rec.made[n0]
        ctx.ob("requested-class", name == cls.name, "builds %s" % name, what)
        ok = isinstance(out.value, Ref) and out.value.kind == "inst" and I.get(out.value).cls is cls
        ctx.ob("returns-the-sampler", ok, repr(out.value), what)
        for k in list(REQUIRED[which]) + OPTIONS[which]:
            want = kw[k] if k in kw else direct.get(k)
            ctx.ob("argument-forwarded" if k in kw else "default-kept", same_value(got.get(k), want),
                   "%s is %r, required %r" % (k, got.get(k), want), what)


def defaults_of(I):
    """Defaults of every sampler's constructor: a value equal to another method's default is still unknown."""
    d = {}
    for dotted in CLS.values():
        init = I.class_attr(I.resolve(dotted), "__init__")
        names = [x.arg for x in init.node.args.args]
        d.update(zip(names[len(names) - len(init.defaults):], init.defaults))
    return d


def unknown(ctx, which):
    I = ctx.interp()
    rec = Recorder(I)
    v = values(I, which)
    others = sorted({o for w in OPTIONS for o in OPTIONS[w]} | {"learning_rate", "n_iters"})
    here = OPTIONS[which] + list(REQUIRED[which])
    others += ["self", "", "_", "_seed", "__x", "x", "args", "kwargs", "sampling_method_", "sampler_args", "seed_", "Seed",
               "SEED", "dtype2", "eps", "burn_in", "mdecay_", "a", "B", "params2", "cost", "cost_function", "name", "batch"]
    if which == "SVGD":
        others.append("params")
    for bad in others:
        if bad in here:
            continue
        for val in (Opq("arg:" + bad, "argument"), None, 0, False, 0.0, "", I.list_([]), 1, True, defaults_of(I).get(bad, None)):
            kw = {k: v[k] for k in REQUIRED[which]}
            kw[bad] = val
            n0 = len(rec.made)
            out = build(I, which, kw)
            what = "%s with %s=%r" % (which, bad, val)
            ctx.ob("unknown-argument-refused", out.value is UNBOUND and len(rec.made) == n0, "accepted", what)
            ctx.ob("refused-with-value-error", all(e.exc.name() == "ValueError" for _, e in out.raised) and out.raised,
                   repr([e.exc for _, e in out.raised]), what)
    # values equal to None or falsy are arguments like any other
    for name, val in (("seed", 0), ("seed", None), ("burn_in_steps", 0), ("mdecay", 0.0), ("scale_grad", 0.0)) + tuple(
            (n, None) for n in here) + tuple((n, 0) for n in here) + tuple((n, False) for n in here):
        if name not in here:
            continue
        n0 = len(rec.made)
        kw = {k: v[k] for k in REQUIRED[which]}
        kw[name] = val
        out = build(I, which, kw)
        ctx.must(out, "valid-request-accepted", (), which)
        got = rec.made[n0][1].get(name)
        ctx.ob("argument-forwarded", type(got) is type(val) and got == val, "%s is %r, required %r" % (name, got, val),
               "%s %s=%r" % (which, name, val))


def missing(ctx, which):
    I = ctx.interp()
    rec = Recorder(I)
    v = values(I, which)
    for drop in REQUIRED[which]:
        kw = {k: x for k, x in v.items() if k != drop}
        n0 = len(rec.made)
        out = build(I, which, kw)
        what = "%s without %s" % (which, drop)
        ctx.ob("missing-argument-refused", out.value is UNBOUND and len(rec.made) == n0, "accepted", what)
        ctx.ob("refused-with-value-error", all(e.exc.name() == "ValueError" for _, e in out.raised) and out.raised,
               repr([e.exc for _, e in out.raised]), what)


def predicates(ctx):
    I = ctx.interp()
    e = I.resolve(SAMPLER)
    names = sorted(e.members) if isinstance(e, Class) else []
    ctx.ob("members", set(CLS) <= set(names), repr(names), "Sampler")
    for which in CLS:
        _, m = member(I, which)
        for fn, yes in (("is_supported", BURN), ("is_burn_in_mcmc", BURN)):
            out = I.run(lambda: I.call(I.getattr(e, fn), [m], {}))
            ctx.must(out)
            got = I.norm(out.value) if isinstance(out.value, tm.T) else out.value
            ctx.ob(fn.replace("_", "-"), got is (which in yes), "%s(%s) is %r" % (fn, which, got), which)
    out = I.run(lambda: I.call(I.getattr(e, "get_sampler"), ["no such method"], {}))
    ctx.ob("unknown-method-refused", out.value is UNBOUND, "accepted", "Sampler")


def run(ctx):
    for which in ALL:
        ctx.scenario("%s arguments" % which, full, ctx, which)
        ctx.scenario("%s unknown arguments" % which, unknown, ctx, which)
        ctx.scenario("%s missing arguments" % which, missing, ctx, which)
    ctx.scenario("predicates", predicates, ctx)

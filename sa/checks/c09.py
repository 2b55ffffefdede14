"""C09: the seed determines a sampler's noise; every parameter, element and step has its own draw."""
from .. import ops
from .. import terms as tm
from ..mcmc import *
from ..sizes import sizes

EXPLANATION = ("Every noise operation that a step of a sampler executes is collected from the interpreted graph; its seed"
               " attribute is compared between operations and between two constructions with the same seed, and the"
               " draws that reach each parameter element are compared.")
FLOOR = 100
ANCHORS = []
NOISY = ("SGHMC", "SGLD", "RelativisticSGHMC")
SHAPES = [(2,), (2,), (2, 1)]


def ops_of(run, steps=3):
    for _ in range(steps):
        run.step()
    out = []
    for rec in run.steps:
        for nd, st in rec.random:
            if nd not in out:
                out.append(nd)
    return out


def seed_terms(nodes):
    return [tm.term(n.attrs.get("seed")) for n in nodes]


def elements(ctx, run, what):
    """Draws used by the elements of one step, and by successive steps, are different."""
    prev = None
    for k, rec in enumerate(run.steps):
        where = "%s step %d" % (what, k + 1)
        seen = {}
        per_seed = {}
        for i, a in enumerate(rec.after):
            for idx in np.ndindex(a.shape):
                syms = noise_symbols(a[idx], rec)
                ctx.ob("every-element-is-perturbed", len(syms) >= 1, "parameter %d%s gets no noise" % (i, list(idx)), where)
                for s in syms:
                    other = seen.setdefault(s, (i, idx))
                    ctx.ob("one-draw-per-element", other == (i, idx), "elements %r and %r share a draw" % (other, (i, idx)), where)
        ctx.ob("noise-every-step", rec.nodes_after == rec.nodes_before,
               "noise operations are added by a step (they would restart their streams)", where)


def collide(a, b):
    """Is there a sampler seed for which two operations have the same seed?"""
    return a is b or tm.satisfiable(tm.eq(a, b), 40)


def many(ctx, which, n):
    """More parameters than a network usually has layers."""
    a = make(ctx, which, [()] * n, kw=dict(seed=isym("seed", 0, 2 ** 31 - 1)))
    what = "%s %d parameters" % (which, n)
    nodes = ops_of(a, 1)
    seeds = seed_terms(nodes)
    for i in range(len(nodes)):
        for j in range(i):
            ctx.ob("independent-streams", not collide(seeds[i], seeds[j]), "operations %d and %d have the same seed" % (j, i),
                   what, nodes[i].site)
    elements(ctx, a, what)


def seeded(ctx, which, kw=None):
    seed = isym("seed", 0, 2 ** 31 - 1)
    a = make(ctx, which, SHAPES, kw=dict(kw or {}, seed=seed))
    b = make(ctx, which, SHAPES, kw=dict(kw or {}, seed=seed))
    na, nb = ops_of(a), ops_of(b)
    what = "%s seeded" % which
    ctx.ob("noise-operations", len(na) >= 1, "no noise operation", what)
    ctx.ob("same-operations", len(na) == len(nb), "%d and %d" % (len(na), len(nb)), what)
    sa, sb = seed_terms(na), seed_terms(nb)
    for n, s in zip(na, sa):
        ctx.ob("noise-is-seeded", s is not tm.term(None), "%s has no seed" % n.op, what, n.site)
        ctx.ob("seed-without-entropy", entropy_in(s) is None, repr(s), what, n.site)
        if s is not tm.term(None):
            d = 0
            for k in range(40):
                v, w = tm.Valuation(k), tm.Valuation(k)
                v.given["seed"], w.given["seed"] = tm.mpmath.mpf(17 + k), tm.mpmath.mpf(3011 + 7 * k)
                d += v(s) != w(s)
            ctx.ob("seed-selects-the-noise", d > 30, "the operation seed does not follow the sampler seed", what, n.site)
    for x, y in zip(sa, sb):
        ctx.eq("reproducible-seed", x, y, (), 12, what)
    for i in range(len(sa)):
        for j in range(i):
            if na[i].shape != na[j].shape:
                pass
            ctx.ob("independent-streams", not collide(sa[i], sa[j]), "operations %d and %d have the same seed" % (j, i), what, na[i].site)
    elements(ctx, a, what)
    if which == "RelativisticSGHMC":
        for x in a.I.lib.ars.calls:
            ctx.eq("momentum-is-seeded", tm.term(x.seed), seed, (), 8, what)
    # building a second sampler does not disturb the first, and gets the same stream
    I = a.I
    n0 = len(I.evs("random"))
    c = make(ctx, which, SHAPES, kw=dict(kw or {}, seed=seed), I=I)
    sc = seed_terms(ops_of(c))
    ctx.ob("same-operations", len(sc) == len(sa), "", what + " again")
    for x, y in zip(sa, sc):
        ctx.eq("reproducible-seed", x, y, (), 12, what + " again")


def apart(ctx, which):
    """Operations of samplers with different seeds have different seeds, whatever the signs."""
    for s, t in ((-3, 3), (0, 1), (0, -1), (-1, 1), (7, 8), (-20, -19), (2 ** 31 - 1, 2 ** 30), (12, 1012), (5, 5 + 2 ** 16)):
        a = seed_terms(ops_of(make(ctx, which, [(2,), ()], kw=dict(seed=s)), 1))
        b = seed_terms(ops_of(make(ctx, which, [(2,), ()], kw=dict(seed=t)), 1))
        what = "%s seeds %d and %d" % (which, s, t)
        ctx.ob("same-operations", len(a) == len(b) and len(a) > 0, "%d and %d" % (len(a), len(b)), what)
        for i, (x, y) in enumerate(zip(a, b)):
            ctx.ob("seed-selects-the-noise", not tm.equal(x, y, points=4).ok, "operation %d has seed %r for both" % (i, x), what)


def zero(ctx, which):
    a = make(ctx, which, SHAPES, kw=dict(seed=0), hyper=True)
    for n in ops_of(a):
        ctx.ob("noise-is-seeded", n.attrs.get("seed") is not None, "seed 0 is ignored", which + " seed 0", n.site)
    if which == "RelativisticSGHMC":
        for x in a.I.lib.ars.calls:
            ctx.ob("momentum-is-seeded", x.seed is not None, "seed 0 is ignored", which + " seed 0")


def unseeded(ctx, which):
    a = make(ctx, which, SHAPES, hyper=True)
    nodes = ops_of(a)
    for n in nodes:
        s = tm.term(n.attrs.get("seed"))
        ctx.ob("unseeded-noise-varies", s is tm.term(None) or entropy_in(s) is not None,
               "noise has the fixed seed %r without a sampler seed" % (s,), which + " unseeded", n.site)
    elements(ctx, a, which + " unseeded")


def deterministic(ctx):
    """SVGD draws nothing."""
    a = make(ctx, "SVGD", None, kw=dict(seed=3))
    ctx.ob("no-noise", not ops_of(a), "SVGD draws noise", "SVGD")


def bad_seed(ctx, which):
    for s in (1.5, "a"):
        run = make(ctx, which, None, kw=dict(seed=s), must=False)
        ctx.ob("seed-must-be-an-integer", run.out.value is UNBOUND or run.sampler is None,
               "%r is accepted" % (s,), which)


def run(ctx):
    for which in NOISY:
        ctx.scenario("%s seeded" % which, seeded, ctx, which)
        ctx.scenario("%s seed zero" % which, zero, ctx, which)
        ctx.scenario("%s different seeds" % which, apart, ctx, which)
        ctx.scenario("%s unseeded" % which, unseeded, ctx, which)
        for n in [18] + sizes(["samplers"], 6, 60):
            ctx.scenario("%s %d parameters" % (which, n), many, ctx, which, n)
    for which in ALL:
        ctx.scenario("%s bad seed" % which, bad_seed, ctx, which)
    ctx.scenario("SVGD", deterministic, ctx)

"""C12: relativistic SGHMC steps follow the documented recurrence (scalar parameters)."""
from .. import ops
from .. import terms as tm
from ..mcmc import *
from ..sizes import sizes

EXPLANATION = ("RelativisticSGHMCSampler is interpreted on one and several scalar parameters; the density handed to the"
               " momentum sampler and the value graph of every parameter after each of the first steps are compared"
               " with the recurrence.")
FLOOR = 25
ANCHORS = ["pysgmcmc.samplers.relativistic_sghmc.RelativisticSGHMCSampler.__init__"]
ASSUMPTIONS = ["adaptive_rejection_sampling draws from the density it is given"]


def speed(p, m, c):
    return tm.div(p, tm.mul(m, tm.fn("sqrt", tm.add(tm.div(tm.mul(p, p), tm.mul(tm.mul(m, m), tm.mul(c, c))), 1))))


def at(pt, got, want):
    """Comparison at one point only."""
    g, w = pt(tm.term(got)), pt(tm.term(want))
    return tm.Verdict(bool(tm.close(g, w)), "%s, required %s" % (mpmath.nstr(g, 10), mpmath.nstr(w, 10)), 1)


def case(ctx, n_params, steps, given=True, kw=None, warm=0, jump_to=None):
    I = ctx.interp()
    ars = Ars(I)
    m, c, D, B = [tm.sym(x, kind="pos") for x in ("mass", "speed_of_light", "D", "Bhat")]
    if not given:
        m, c, D, B = [tm.const(x) for x in (1.0, 1.0, 1.0, 0.0)]
    k = dict(mass=m, speed_of_light=c, D=D, Bhat=B) if given else {}
    k.update(kw or {})
    run = Run(ctx, "RelativisticSGHMC", [()] * n_params, kw=k, I=I)
    what = "%d parameters%s" % (n_params, "" if given else ", default coefficients")
    if not ctx.ob("momentum-sampled-once", len(ars.calls) == 1, "%d calls" % len(ars.calls), what):
        return
    call = ars.calls[0]
    x = tm.sym("p")
    out = I.run(lambda: I.call(call.logpdf, [x], {}))
    ctx.must(out)
    want = tm.neg(tm.mul(tm.mul(m, tm.mul(c, c)), tm.fn("sqrt", tm.add(
        tm.div(tm.mul(x, x), tm.mul(tm.mul(m, m), tm.mul(c, c))), 1))))
    y = tm.sym("p'")
    out2 = I.run(lambda: I.call(call.logpdf, [y], {}))
    from ..interp import substitute
    ctx.eq("momentum-log-density", tm.sub(out.value, out2.value),
           tm.sub(want, substitute(want, {x: y})), (), 40, what)
    ctx.eq("one-momentum-per-parameter", call.n_samples, n_params, (), 4, what)
    dom = I.items_of(call.domain)
    ctx.ob("momentum-unbounded", [tm.term(d) for d in dom] == [tm.term(float("-inf")), tm.term(float("inf"))],
           repr(dom), what)
    pt = tm.Valuation(3)
    for j in range(warm + steps):
        was = counters(run)
        rec = run.step()
        if jump_to is not None and j == warm - 1:
            list(jump(run, was, [jump_to - warm]))
        if j < warm:
            rec.last = [tm.term(a[()]) for a in rec.after]
            run.ground(pt)
            rec.after = run.theta()
    ps = [ars.p0(j) for j in range(n_params)]
    for n, rec in enumerate(run.steps):
        eps = run.schedule.values[n] if n < len(run.schedule.values) else pos("eps[%d]" % (n + 1))
        cos, new = [], []
        where = "%s step %d" % (what, n + 1)
        for i in range(n_params):
            g = tm.neg(run.grad_ref(rec.before, n, i)[()])
            got = rec.last[i] if n < warm else rec.after[i][()]
            syms = noise_symbols(got, rec)
            ctx.ob("relativistic-noise-is-normal", len(syms) == 1 and syms[0].args[0].startswith("random_normal["),
                   "noise sources %r" % (syms,), where)
            if len(syms) != 1:
                new.append(ps[i])
                continue
            s = syms[0]
            sigma = tm.fn("sqrt", tm.mul(eps, tm.sub(tm.mul(2, D), tm.mul(eps, B))))
            best = None
            for sign in (1, -1):
                p = tm.sub(tm.add(tm.add(ps[i], tm.mul(eps, g)), tm.mul(sign, tm.mul(sigma, s))),
                           tm.mul(D, tm.mul(eps, speed(ps[i], m, c))))
                want = tm.add(rec.before[i][()], tm.mul(eps, speed(p, m, c)))
                v = at(pt, got, want) if n < warm else tm.equal(got, want, points=ctx.points(24))
                if best is None or v.ok:
                    best = (v, p)
                if v.ok:
                    break
            ctx.ob("relativistic-update", best[0].ok, best[0].why, where)
            new.append(best[1])
            cos.append(("theta%d" % i, {s: 1}))
        independent(ctx, "relativistic-noise-independent", cos, where)
        ps = [number(p, pt) for p in new] if n < warm else new


def run(ctx):
    ctx.scenario("one parameter", case, ctx, 1, 3)
    ctx.scenario("three parameters", case, ctx, 3, 3)
    ctx.scenario("after 60 steps", case, ctx, 2, 2, True, None, 60 if not ctx.thorough else 600)
    for n in sizes(["samplers", "stepsize_schedules.py"], 6, 3000):
        ctx.scenario("after %d steps" % (n - 2), case, ctx, 1, 4, True, None, n - 2)
    for n in [1000, 4096, 65536, 10 ** 6] + sizes(["samplers", "stepsize_schedules.py"], 3001, 10 ** 9):
        ctx.scenario("at step %d" % n, case, ctx, 1, 3, True, None, 3, n - 2)
    ctx.scenario("default coefficients", case, ctx, 2, 2, False)
    ctx.scenario("seeded", case, ctx, 2, 3, True, {"seed": 7})
    if ctx.thorough:
        ctx.scenario("long", case, ctx, 2, 6)

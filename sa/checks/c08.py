"""C08: the step size used by every step is the schedule's current value, in every sampler."""
from fractions import Fraction

import mpmath

from .. import ops
from .. import terms as tm
from ..interp import substitute
from ..mcmc import *
from ..sizes import sizes

EXPLANATION = ("Every sampler is interpreted with an arbitrary schedule (a fresh symbol per step) and with constant"
               " schedules; the transition of each step must depend on exactly the step size drawn for it.")
FLOOR = 80
ANCHORS = ["pysgmcmc.stepsize_schedules.ConstantStepsizeSchedule.__next__"]


def arbitrary(ctx, which, hyper=False):
    run = make(ctx, which, hyper=hyper)
    steps = 3 if hyper else 5
    for k in range(steps):
        run.step()
    ctx.ob("schedule-drives-the-sampler", run.schedule.n == steps, "%d values drawn" % run.schedule.n, which)
    for k, rec in enumerate(run.steps):
        cur = "eps[%d]" % (k + 1)
        for i, a in enumerate(rec.after):
            for idx in np.ndindex(a.shape):
                t = tm.term(a[idx])
                where = "%s step %d%s" % (which, k + 1, " with hyperparameters" if hyper else "")
                ctx.ob("current-stepsize-is-used", cur in tm.free_syms([t]), "the update does not depend on it", where)
                # a change of the current value changes the new parameters
                s = pos(cur)
                u = substitute(t, {s: tm.mul(2, s)})
                ctx.ob("current-stepsize-matters", not tm.equal(u, t, points=6).ok, "no effect", where)
                if k < 2 and not any(idx):
                    injective(ctx, t, s, where)
                future = [n for n in tm.free_syms([t]) if n.startswith("eps[") and int(n[4:-1]) > k + 1]
                ctx.ob("no-future-stepsize", not future, repr(future), where)
                ctx.ob("initial-value-is-not-used", "eps0" not in tm.free_syms([t]),
                       "the schedule's initial value enters the update", where)
        same_array(ctx, "cost-independent-of-stepsize", rec.cost_data, cost_want(run, rec.before, k), which)


def injective(ctx, t, s, where):
    """Doubling the step size changes the update whatever the magnitude of the step size is."""
    bad = []
    for e in range(-12, 13):
        a, b = tm.const(Fraction(10) ** e), tm.const(2 * Fraction(10) ** e)
        lo, hi = substitute(t, {s: a}), substitute(t, {s: b})
        moved, seen = False, False
        for k in range(6):
            v = tm.Valuation(k)
            try:
                x, y = v(lo), v(hi)
            except tm.Undef:
                continue
            seen = True
            moved |= not (x == y or abs(x - y) <= mpmath.mpf(10) ** -60 * (abs(x) + abs(y)))
        if seen and not moved:
            bad.append(e)
    ctx.ob("current-stepsize-matters", not bad, "no effect for step sizes of 1e%s" % (bad[:3],), where)


def one_value(ctx, which):
    """next() is asked once per step and the value is used for the whole step: a schedule that
    yields e1, e2 equals, at each step, a constant schedule of that value from the same state."""
    a = make(ctx, which)
    a.step()
    b = make(ctx, which, schedule=Fixed(pos("eps[1]")))
    b.step()
    for x, y in zip(canon(flat(a, 0), a.steps), canon(flat(b, 0), b.steps)):
        ctx.eq("schedule-value-is-the-stepsize", x, y, (), 12, which)


class Fixed(object):
    """A ConstantStepsizeSchedule built from the source."""

    def __init__(self, value):
        self.value, self._obj, self.values = value, None, []
        self.n = 0

    def bind(self, I):
        self._obj = I.call(I.resolve("pysgmcmc.stepsize_schedules.ConstantStepsizeSchedule"), [self.value], {})

    @property
    def obj(self):
        return self._obj


def flat(run, k):
    return [tm.term(x) for a in run.steps[k].after for x in ops.A(a).flat]


def constant(ctx, which, steps=3, hyper=False):
    e = pos("e")
    a = make(ctx, which, hyper=hyper)
    b = make(ctx, which, schedule=Fixed(e), hyper=hyper)
    for _ in range(steps):
        a.step()
        b.step()
    m = {pos("eps[%d]" % (k + 1)): e for k in range(steps)}
    m[pos("eps0")] = e
    for k in range(steps):
        for x, y in zip(canon(flat(a, k), a.steps), canon(flat(b, k), b.steps)):
            ctx.eq("constant-schedule", y, substitute(x, m), (), 8, "%s step %d" % (which, k + 1))


DEFAULT = {"SGHMC": 0.01, "SGLD": 0.01, "RelativisticSGHMC": 0.001, "SVGD": 0.1}


def default(ctx, which):
    """Without a schedule the sampler behaves as with a constant one of the documented value."""
    a = make(ctx, which, schedule=None)
    b = make(ctx, which, schedule=Fixed(tm.const(DEFAULT[which])))
    for _ in range(2):
        a.step()
        b.step()
    for k in range(2):
        for x, y in zip(canon(flat(a, k), a.steps), canon(flat(b, k), b.steps)):
            ctx.eq("default-schedule", x, y, (), 8, "%s step %d" % (which, k + 1))


def crowd(ctx, n):
    """As many particles: each moves by the value drawn for the step."""
    run = Run(ctx, "SVGD", [(1,)] * n)
    pt = tm.Valuation(3)
    run.ground(pt)
    for k in range(2):
        rec = run.step()
        where = "SVGD of %d particles step %d" % (n, k + 1)
        for i, a in enumerate(rec.after):
            syms = tm.free_syms([tm.term(x) for x in ops.A(a).flat])
            used = [x for x in syms if x.startswith("eps")]
            ctx.ob("current-stepsize-is-used", used == ["eps[%d]" % (k + 1)], "particle %d uses %r" % (i, used), where)
        run.ground(pt)


def run(ctx):
    for which in ALL:
        ctx.scenario("%s arbitrary schedule" % which, arbitrary, ctx, which)
        ctx.scenario("%s arbitrary schedule and hyperparameters" % which, arbitrary, ctx, which, True)
        ctx.scenario("%s constant schedule and hyperparameters" % which, constant, ctx, which, 2, True)
        ctx.scenario("%s one value" % which, one_value, ctx, which)
        ctx.scenario("%s constant schedule" % which, constant, ctx, which)
        ctx.scenario("%s default schedule" % which, default, ctx, which)
    for n in [12] + sizes(["samplers", "tensor_utils.py"], 5, 40):
        ctx.scenario("%d particles" % n, crowd, ctx, n)

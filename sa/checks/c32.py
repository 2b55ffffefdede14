"""C32: samplers run in the given session, else in the default session of their creation."""
from .. import ops
from .. import terms as tm
from ..mcmc import *

EXPLANATION = ("Every sampler is interpreted with an explicit session, with only a default session, and with none; every"
               " graph run event is attributed to the session object it used.")
FLOOR = 60
ANCHORS = []


def runs_in(ctx, run, session, what, steps=4):
    for k in range(steps):
        run.step()
    n = 0
    for e in run.I.evs("run"):
        n += 1
        ctx.ob("right-session", e.session is session, "runs in %r" % (e.session,), what, e.site)
    ctx.ob("runs-analysed", n >= steps, "%d runs" % n, what)


def explicit(ctx, which):
    I = ctx.interp()
    other = I.run(lambda: I.lib.new_session(name="another")).value
    I.lib.default_session = other
    run = make(ctx, which, I=I)
    runs_in(ctx, run, run.session, "%s explicit session" % which)


def default(ctx, which, explicit_none):
    I = ctx.interp()
    # the module is imported, and any default argument evaluated, while another session is the default
    stale = I.run(lambda: I.lib.new_session(name="stale")).value
    I.lib.default_session = stale
    I.run(lambda: I.resolve(CLS[which]))
    I.lib.default_session = None
    run = make(ctx, which, I=I, session="default", kw={"session": None} if explicit_none else {})
    other = I.run(lambda: I.lib.new_session(name="another")).value
    I.lib.default_session = other
    runs_in(ctx, run, run.session, "%s default session%s" % (which, " (None given)" if explicit_none else ""))
    ctx.ob("session-attribute", I.getattr(run.sampler, "session") is run.session, "", which)


def missing(ctx, which):
    run = make(ctx, which, session="none", must=False)
    ctx.ob("a-session-is-required", run.sampler is None, "constructed without any session", which)


def wrong(ctx, which):
    run = make(ctx, which, session="none", kw={"session": Opq("not a session", "thing")}, must=False)
    ctx.ob("a-session-is-required", run.sampler is None, "constructed with something that is no session", which)


def interactive(ctx, which):
    I = ctx.interp()
    s = I.run(lambda: I.lib.new_session(typ="interactive_session", name="interactive")).value
    run = make(ctx, which, I=I, session="none", kw={"session": s}, init=False)
    run.session = s
    run.initialise()
    runs_in(ctx, run, s, "%s interactive session" % which, 2)


def run(ctx):
    for which in ALL:
        ctx.scenario("%s explicit" % which, explicit, ctx, which)
        ctx.scenario("%s default" % which, default, ctx, which, False)
        ctx.scenario("%s default none" % which, default, ctx, which, True)
        ctx.scenario("%s missing" % which, missing, ctx, which)
        ctx.scenario("%s wrong" % which, wrong, ctx, which)
        ctx.scenario("%s interactive" % which, interactive, ctx, which)

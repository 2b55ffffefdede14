"""C25: uninitialized_params names exactly the variables the session has not initialised."""
import itertools

from ..tensors import *

EXPLANATION = ("uninitialized_params is interpreted for every subset of four variables initialised in the given session,"
               " while another session of the same graph has initialised all or none of them.")
FLOOR = 60
ANCHORS = [MOD + "uninitialized_params"]


def subset(ctx, init, elsewhere):
    c = Case(ctx)
    I = c.I
    vs = [c.variable("v%d" % i, s)[0] for i, s in enumerate([(), (2,), (2, 2), (1,)])]
    other = I.run(lambda: I.lib.new_session(name="other")).value
    I.lib.default_session = other

    def prep():
        if elsewhere:
            I.lib.session_run(other, [I.lib.init_node(vs)], {})
        if init:
            I.lib.session_run(c.session, [I.lib.init_node([vs[i] for i in init])], {})
    ctx.must(I.run(prep))
    where = "initialised %s%s" % (list(init), ", other session too" if elsewhere else "")
    for order in ([0, 1, 2, 3], [3, 1, 0, 2]):
        n0 = len(I.evs("run"))
        out = c.call(MOD + "uninitialized_params", I.list_([vs[i] for i in order]), c.session)
        got = ctx.must(out)
        items = I.items_of(got)
        want = [vs[i] for i in order if i not in init]
        ctx.ob("exactly-the-uninitialised", len(items) == len(want) and all(a is b for a, b in zip(items, want)),
               "%r, required %r" % (items, want), where)
        for e in I.evs("run")[n0:]:
            ctx.ob("asks-the-given-session", e.session is c.session, repr(e.session), where)
            st = e.data.get("step")
            ctx.ob("initialises-nothing", st is None or not [n for n in st.executed if n.op == "init"], "", where)


def trained(ctx):
    """Assigned (not only initialised) variables count as initialised."""
    c = Case(ctx)
    I = c.I
    v, _ = c.variable("v", (2,))
    w, _ = c.variable("w", ())
    a = I.graph.assign("assign", v, I.graph.const(I.arr(ops.full((2,), 1)), dtype=DType("float64")))
    ctx.must(I.run(lambda: I.lib.session_run(c.session, [a], {})))
    got = I.items_of(ctx.must(c.call(MOD + "uninitialized_params", I.list_([v, w]), c.session)))
    ctx.ob("exactly-the-uninitialised", len(got) == 1 and got[0] is w, repr(got), "assigned")


def sessions(ctx):
    c = Case(ctx)
    I = c.I
    v, _ = c.variable("v", (2,))
    s = I.run(lambda: I.lib.new_session(typ="interactive_session", name="interactive")).value
    got = I.items_of(ctx.must(c.call(MOD + "uninitialized_params", I.list_([v]), s)))
    ctx.ob("exactly-the-uninitialised", len(got) == 1 and got[0] is v, repr(got), "interactive session")
    for what, x in (("None", None), ("no session", Opq("thing", "thing"))):
        c.refused("other-session-refused", c.call(MOD + "uninitialized_params", I.list_([v]), x), ("AssertionError",), what)


def run(ctx):
    for n in range(5):
        for init in itertools.combinations(range(4), n):
            for elsewhere in (False, True):
                ctx.scenario("%s %s" % (init, elsewhere), subset, ctx, init, elsewhere)
    ctx.scenario("assigned", trained, ctx)
    ctx.scenario("sessions", sessions, ctx)

"""C26: a trace holds the sampler's values, by parameter name, without loss or mix-up."""
from ..tensors import *

EXPLANATION = ("PYSGMCMCTrace is interpreted over chains of free values: constructed directly, extracted from a stand-in"
               " sampler, queried by name and index with burn and thin, sliced, and asked for what it does not hold.")
FLOOR = 250
TR = "pysgmcmc.diagnostics.sample_chains.PYSGMCMCTrace"
ANCHORS = [TR + ".__init__", TR + ".from_sampler", TR + ".get_values"]


class Chain(object):
    """Samples of parameters of the given shapes, as a sampler returns them."""

    def __init__(self, I, shapes, n, bare_floats=False):
        self.I, self.shapes, self.n = I, shapes, n

    def value(self, k, i):
        d = np.empty(self.shapes[i], dtype=object)
        for j in np.ndindex(d.shape):
            d[j] = tm.sym("s%d.%d%s" % (k, i, list(j)))
        return d

    def wrapped(self, k, i):
        d = self.value(k, i)
        return d[()] if d.shape == () else self.I.arr(ops.A(d), dtype=DType("float64"))

    def sample(self, k):
        v = [self.wrapped(k, i) for i in range(len(self.shapes))]
        return v[0] if len(v) == 1 else self.I.list_(v)

    def row(self, k):
        return self.I.list_([self.wrapped(k, i) for i in range(len(self.shapes))])


class Sampler(object):
    def __init__(self, I, chain, names):
        self.n, self.chain = 0, chain
        self.params = [Opq("param:" + n, "variable", attrs={"name": n}) for n in names]
        self.obj = Opq("sampler", "sampler", attrs={"params": I.list_(self.params)},
                       methods={"__next__": self.nxt, "__iter__": lambda I, a, k: self.obj})

    def nxt(self, I, a, k):
        self.n += 1
        return (self.chain.sample(self.n - 1), tm.sym("cost%d" % (self.n - 1)))


def values(ctx, I, t, name, keys, where, rule, chain, i, **kw):
    out = I.run(lambda: I.call(I.getattr(t, "get_values"), [name], dict(kw)))
    v = ctx.must(out)
    want = np.array([chain.value(k, i) for k in keys], dtype=object).reshape((len(keys),) + tuple(chain.shapes[i]))
    got = ops.A(I.get(v).data) if isinstance(v, Ref) and v.kind == "arr" else None
    if got is None:
        return ctx.ob(rule, False, repr(v), where)
    arrays_equal(ctx, rule, got, want, where, 4)


def names_of(I, t):
    out = I.run(lambda: I.items_of(I.getattr(t, "varnames")))
    return out.value if out.value is not UNBOUND else None


def direct(ctx, shapes, n, names):
    I = ctx.interp()
    ch = Chain(I, shapes, n)
    where = "%d samples of %r%s" % (n, shapes, "" if names else " unnamed")
    nm = names or [str(i) for i in range(len(shapes))]
    rows = I.list_([ch.row(k) for k in range(n)])
    t = ctx.must(I.run(lambda: I.call(I.resolve(TR), [], {
        "chain_id": 7, "samples": rows, "varnames": I.list_(list(names)) if names else None})))
    checks(ctx, I, t, ch, list(range(n)), nm, where)
    ctx.ob("chain-id", I.run(lambda: I.getattr(t, "chain")).value == 7, "", where)


def checks(ctx, I, t, ch, keys, nm, where):
    n = ctx.must(I.run(lambda: I.lib.f_builtins_len([t], {})))
    ctx.ob("length", n == len(keys), "%r, required %d" % (n, len(keys)), where)
    ctx.ob("names", names_of(I, t) == nm, "%r, required %r" % (names_of(I, t), nm), where)
    for i, name in enumerate(nm):
        values(ctx, I, t, name, keys, where + " " + name, "values-by-name", ch, i)
        for burn, thin in ((0, 1), (1, 1), (0, 2), (1, 2), (2, 3)):
            if keys[burn::thin]:
                values(ctx, I, t, name, keys[burn::thin], where + " %s burn=%d thin=%d" % (name, burn, thin),
                       "burn-and-thin", ch, i, burn=burn, thin=thin)
        v = ctx.must(I.run(lambda: I.getitem(t, i)))
        want = np.array([ch.value(k, i) for k in keys], dtype=object).reshape((len(keys),) + tuple(ch.shapes[i]))
        if not isinstance(v, Ref) or v.kind != "arr":
            ctx.ob("values-by-index", False, repr(v), where + " [%d]" % i)
            continue
        arrays_equal(ctx, "values-by-index", I.get(v).data, want, where + " [%d]" % i, 4)
    for k, s in enumerate(keys):
        p = ctx.must(I.run(lambda: I.call(I.getattr(t, "point"), [k], {})))
        if not ctx.ob("point-is-a-dictionary", isinstance(p, Ref) and p.kind == "dict", repr(p), where):
            continue
        items = dict(I.lib.dict_items(p))
        ctx.ob("point-names", sorted(items) == sorted(nm), repr(list(items)), where)
        for i, name in enumerate(nm):
            if name in items:
                x = items[name]
                got = ops.A(I.get(x).data) if isinstance(x, Ref) and x.kind == "arr" else ops.A(tm.term(x))
                arrays_equal(ctx, "point-values", got, ch.value(s, i), where + " point %d" % k, 4)
    for k in {-1, -len(keys)} if keys else ():
        # counted from the end, where that is taken at all
        out = I.run(lambda: I.call(I.getattr(t, "point"), [k], {}))
        p = out.value
        if not (isinstance(p, Ref) and p.kind == "dict"):
            continue
        for name, x in I.lib.dict_items(p):
            if name in nm:
                got = ops.A(I.get(x).data) if isinstance(x, Ref) and x.kind == "arr" else ops.A(tm.term(x))
                arrays_equal(ctx, "point-values", got, ch.value(keys[k], nm.index(name)), where + " point %d" % k, 4)
    for bad in (len(keys), len(keys) + 3, -len(keys) - 1):
        out = I.run(lambda: I.call(I.getattr(t, "point"), [bad], {}))
        ctx.ob("bad-point-refused", out.value is UNBOUND and len(out.raised) > 0, "accepted %d" % bad, where)
    # what it does not hold
    out = I.run(lambda: I.call(I.getattr(t, "get_values"), ["no such name"], {}))
    ctx.ob("unknown-name-refused", out.value is UNBOUND and out.raised and all(
        e.exc.name() == "ValueError" for _, e in out.raised), repr([e.exc for _, e in out.raised]), where)
    for bad in (len(nm), -1):
        out = I.run(lambda: I.getitem(t, bad))
        ctx.ob("bad-index-refused", out.value is UNBOUND, "accepted %d" % bad, where)


def extracted(ctx, shapes, names, n, keep, given):
    I = ctx.interp()
    I.lib.PULLED = max(I.lib.PULLED, 2 * n * (keep or 1))
    ch = Chain(I, shapes, n * (keep or 1))
    s = Sampler(I, ch, names)
    where = "%d samples of %r, keep_every=%s%s" % (n, shapes, keep, ", named" if given else "")
    kw = {"chain_id": 3, "sampler": s.obj, "n_samples": n}
    if keep is not None:
        kw["keep_every"] = keep
    nm = names
    if given:
        nm = ["given%d" % i for i in range(len(names))]
        kw["varnames"] = I.list_(list(nm))
    t = ctx.must(I.run(lambda: I.call(I.getattr(I.resolve(TR), "from_sampler"), [], kw)))
    keys = [k * (keep or 1) for k in range(n)]
    ctx.ob("no-more-steps-than-asked", s.n <= n * (keep or 1), "%d" % s.n, where)
    checks(ctx, I, t, ch, keys, nm, where)


def scalars(ctx):
    """A chain of plain numbers is a chain of one parameter."""
    I = ctx.interp()
    ch = Chain(I, [()], 3)
    lst = I.list_([0.5, 1.5, 2.5])
    t = ctx.must(I.run(lambda: I.call(I.resolve(TR), [0, lst], {"varnames": I.list_(["p"])})))
    v = ctx.must(I.run(lambda: I.call(I.getattr(t, "get_values"), ["p"], {})))
    arrays_equal(ctx, "values-by-name", I.get(v).data, np.array([tm.term(x) for x in (0.5, 1.5, 2.5)], dtype=object), "floats", 2)
    ctx.ob("length", I.run(lambda: I.lib.f_builtins_len([t], {})).value == 3, "", "floats")


def sliced(ctx):
    I = ctx.interp()
    shapes = [(), (2,), ()]
    ch = Chain(I, shapes, 4)
    nm = ["z", "a", "m"]
    t = ctx.must(I.run(lambda: I.call(I.resolve(TR), [5, I.list_([ch.row(k) for k in range(4)]), I.list_(list(nm))], {})))
    for sl in (slice(0, 2), slice(1, None), slice(2, 3), slice(None, None, 2)):
        part = ctx.must(I.run(lambda: I.call(I.getattr(t, "_slice"), [Slice(sl.start, sl.stop, sl.step)], {})))
        where = "slice %r" % (sl,)
        ctx.ob("names", names_of(I, part) == nm[sl], "%r" % (names_of(I, part),), where)
        ctx.ob("length", I.run(lambda: I.lib.f_builtins_len([part], {})).value == 4, "", where)
        for i in range(3)[sl]:
            values(ctx, I, part, nm[i], range(4), where, "values-by-name", ch, i)
    values(ctx, I, t, "a", range(4), "after slicing", "values-by-name", ch, 1)


def refused(ctx):
    I = ctx.interp()
    ch = Chain(I, [(), ()], 2)
    row = lambda: I.list_([ch.row(0), ch.row(1)])
    for what, samples, names in (("no samples", I.list_([]), None), ("no length", 5, None), ("empty sample", I.list_([I.list_([])]), None),
                                 ("too few names", row(), I.list_(["a"])), ("too many names", row(), I.list_(["a", "b", "c"]))):
        out = I.run(lambda: I.call(I.resolve(TR), [0, samples], {"varnames": names}))
        ctx.ob("invalid-chain-refused", out.value is UNBOUND, "accepted", what)


def run(ctx):
    for shapes, n, names in (([(), ()], 4, ["y:0", "x:0"]), ([(2,), ()], 3, ["w", "b"]), ([(), (2, 2), (3,)], 5, None), ([()], 3, ["p"]),
                             ([()] * 11, 2, None), ([()] * 3, 2, ["b", "B", "a_1"]),
                             ([()] * 4, 3, ["w:0", "w:1", "x", "xx"]), ([(), (2,), ()], 2, ["n/w:0", "w:0", "w_1:0"]),
                             ([()] * 3, 2, ["w ", "w", " w"])):
        ctx.scenario("direct %r" % (shapes,), direct, ctx, shapes, n, names)
    for shapes, names in (([()], ["p:0"]), ([(2,)], ["v:0"]), ([(1,)], ["v:0"]), ([(), ()], ["y:0", "x:0"]), ([(2,), (2, 1), ()], ["c", "a", "b"])):
        for n, keep in ((3, None), (3, 1), (2, 3), (4, 2), (1, 5)):
            for given in (False, True):
                if given and keep != 2:
                    continue
                ctx.scenario("extracted %r %r %r %r" % (shapes, n, keep, given), extracted, ctx, shapes, names, n, keep, given)
    ctx.scenario("scalars", scalars, ctx)
    ctx.scenario("sliced", sliced, ctx)
    ctx.scenario("refused", refused, ctx)
    for n in sizes(["diagnostics/sample_chains.py"], 3, 20000):
        ctx.scenario("direct %d" % n, direct, ctx, [(), (2,)], n, ["b", "a"])
        ctx.scenario("extracted %d" % n, extracted, ctx, [()], ["p:0"], n, 2, False)
        if n <= 600:
            ctx.scenario("extracted every %d" % n, extracted, ctx, [()], ["p:0"], 3, n, False)

"""C30: normalisers are exact inverses, and the base model accumulates data and finds its incumbent."""
from ..tensors import *
from ..mcmc import total

EXPLANATION = ("The normalisation functions and the base model are interpreted on free arrays of several shapes; results, plain data,"
               " round trips and the data handed to train are compared element by element.")
FLOOR = 120
BASE = "pysgmcmc.models.base_model."
ANCHORS = [BASE + "BaseModel.update", BASE + "BaseModel.get_json_data", BASE + "BaseModel.get_incumbent", BASE + "zero_mean_unit_var_normalization",
           BASE + "zero_mean_unit_var_unnormalization", BASE + "zero_one_normalization", BASE + "zero_one_unnormalization"]
ASSUMPTIONS = ["no column of the data is constant"]


def arr(I, name, sh):
    d = array(name, sh)
    return I.arr(ops.A(d), dtype=DType("float64")), d


def columns(d):
    return [d] if d.ndim == 1 else [d[:, j] for j in range(d.shape[1])]


def stats(col, kind):
    n = len(col)
    if kind == "one":
        lo, hi = col[0], col[0]
        for x in col[1:]:
            lo, hi = tm.fn("min", lo, x), tm.fn("max", hi, x)
        return lo, hi
    m = tm.div(total(col), n)
    return m, tm.fn("sqrt", tm.div(total(tm.mul(tm.sub(x, m), tm.sub(x, m)) for x in col), n))


def val(I, v):
    return ops.A(I.get(v).data) if isinstance(v, Ref) else ops.A(tm.term(v))


def norm(ctx, kind, sh, given):
    I = ctx.interp()
    fwd, back = (("zero_mean_unit_var_normalization", "zero_mean_unit_var_unnormalization") if kind == "mean" else
                 ("zero_one_normalization", "zero_one_unnormalization"))
    x, d = arr(I, "X", sh)
    where = "%s %s%s" % (fwd, sh, " given %s" % (given,) if given else "")
    args = [x]
    st = [stats(c, kind) for c in columns(d)]
    a = [s[0] for s in st]
    b = [s[1] for s in st]
    kw = {}
    names = ("mean", "std") if kind == "mean" else ("lower", "upper")
    for which, n, store in ((0, names[0], a), (1, names[1], b)):
        if which in given:
            if len(sh) == 1:
                g = tm.sym("given:" + n)
                kw[n] = g
                store[:] = [g]
            else:
                r, gd = arr(I, "given:" + n, sh[1:])
                kw[n] = r
                store[:] = list(gd)
    out = ctx.must(I.run(lambda: I.call(I.resolve(BASE + fwd), args, kw)))
    items = I.items_of(out)
    ctx.ob("three-results", len(items) == 3, repr(items), where)
    want = np.empty(sh, dtype=object)
    for i in np.ndindex(sh):
        j = 0 if len(sh) == 1 else i[1]
        if kind == "mean":
            want[i] = tm.div(tm.sub(d[i], a[j]), b[j])
        else:
            want[i] = tm.div(tm.sub(d[i], a[j]), tm.sub(b[j], a[j]))
    arrays_equal(ctx, "normalised-data", val(I, items[0]), want, where, 12)
    for it, store in ((items[1], a), (items[2], b)):
        w = np.array(store, dtype=object) if len(sh) > 1 else ops.A(tm.term(store[0]))
        arrays_equal(ctx, "returned-statistics", val(I, it), w, where, 12)
    r = ctx.must(I.run(lambda: I.call(I.resolve(BASE + back), items, {})))
    scale = [y if kind == "mean" else tm.sub(y, x) for x, y in zip(a, b)]
    arrays_equal(ctx, "round-trip", val(I, r), d, where, 12, [tm.not_(tm.eq(s, 0)) for s in scale])
    # zero statistics are statistics
    if given == (0, 1) and len(sh) == 1:
        z = ctx.must(I.run(lambda: I.call(I.resolve(BASE + fwd), [x, 0, 2], {})))
        for i in range(sh[0]):
            ctx.eq("given-zero-is-used", val(I, I.items_of(z)[0])[i], tm.div(d[i], 2), (), 12, where)


def update(ctx, n, m, D):
    I = ctx.interp()
    calls = []

    def train(I_, a, k):
        calls.append((a[1] if len(a) > 1 else k["X"], a[2] if len(a) > 2 else k["y"]))
    I.overrides[BASE + "BaseModel.train"] = Native("train", train)
    mod = ctx.must(I.run(lambda: I.call(I.resolve(BASE + "BaseModel"), [], {})))
    x, xd = arr(I, "X", (n, D))
    y, yd = arr(I, "y", (n,))
    x2, xd2 = arr(I, "X2", (m, D))
    y2, yd2 = arr(I, "y2", (m,))
    where = "update %d+%d" % (n, m)
    I.run(lambda: I.setattr(mod, "X", x))
    I.run(lambda: I.setattr(mod, "y", y))
    ctx.must(I.run(lambda: I.call(I.getattr(mod, "update"), [x2, y2], {})))
    ctx.ob("trains-once", len(calls) == 1, "%d" % len(calls), where)
    arrays_equal(ctx, "all-data-kept", val(I, calls[0][0]), np.concatenate([xd, xd2]), where, 4)
    arrays_equal(ctx, "all-data-kept", val(I, calls[0][1]), np.concatenate([yd, yd2]), where, 4)
    arrays_equal(ctx, "old-data-untouched", val(I, x), xd, where, 4)
    arrays_equal(ctx, "old-data-untouched", val(I, y), yd, where, 4)


def types(ctx, old, new):
    """Data of another type joins without being converted to the old one."""
    I = ctx.interp()
    calls = []
    I.overrides[BASE + "BaseModel.train"] = Native("train", lambda I_, a, k: calls.append((a[1] if len(a) > 1 else k["X"],
                                                                                         a[2] if len(a) > 2 else k["y"])))
    mod = ctx.must(I.run(lambda: I.call(I.resolve(BASE + "BaseModel"), [], {})))

    def mk(name, sh, dt):
        d = np.empty(sh, dtype=object)
        for k, i in enumerate(np.ndindex(sh)):
            d[i] = tm.const(2 * k + 1) if dt.startswith("int") else tm.sym("%s%s" % (name, list(i)))
        return I.arr(ops.A(d), dtype=DType(dt)), d
    x, xd = mk("X", (2, 2), old)
    y, yd = mk("y", (2,), old)
    x2, xd2 = mk("X2", (3, 2), new)
    y2, yd2 = mk("y2", (3,), new)
    where = "update of %s by %s" % (old, new)
    I.run(lambda: I.setattr(mod, "X", x))
    I.run(lambda: I.setattr(mod, "y", y))
    ctx.must(I.run(lambda: I.call(I.getattr(mod, "update"), [x2, y2], {})))
    arrays_equal(ctx, "all-data-kept", val(I, calls[0][0]), np.concatenate([xd, xd2]), where, 4)
    arrays_equal(ctx, "all-data-kept", val(I, calls[0][1]), np.concatenate([yd, yd2]), where, 4)


def mismatched(ctx, D, E):
    """Data of another width is refused, not cut or filled up."""
    I = ctx.interp()
    calls = []
    I.overrides[BASE + "BaseModel.train"] = Native("train", lambda I_, a, k: calls.append(1))
    mod = ctx.must(I.run(lambda: I.call(I.resolve(BASE + "BaseModel"), [], {})))
    I.run(lambda: I.setattr(mod, "X", arr(I, "X", (2, D))[0]))
    I.run(lambda: I.setattr(mod, "y", arr(I, "y", (2,))[0]))
    out = I.run(lambda: I.call(I.getattr(mod, "update"), [arr(I, "X2", (3, E))[0], arr(I, "y2", (3,))[0]], {}))
    where = "update of %d columns by %d" % (D, E)
    ctx.ob("other-width-refused", out.value is UNBOUND and not calls, "accepted", where)


def incumbent(ctx, n, D):
    I = ctx.interp()
    mod = ctx.must(I.run(lambda: I.call(I.resolve(BASE + "BaseModel"), [], {})))
    x, xd = arr(I, "X", (n, D))
    y, yd = arr(I, "y", (n,))
    I.run(lambda: I.setattr(mod, "X", x))
    I.run(lambda: I.setattr(mod, "y", y))
    got = I.items_of(ctx.must(I.run(lambda: I.call(I.getattr(mod, "get_incumbent"), [], {}))))
    best, bx = yd[0], list(xd[0])
    for i in range(1, n):
        c = tm.lt(yd[i], best)
        best = tm.ite(c, yd[i], best)
        bx = [tm.ite(c, xd[i, j], bx[j]) for j in range(D)]
    where = "incumbent of %d" % n
    ctx.eq("smallest-value", val(I, got[1]).flat[0], best, (), 60, where)
    g = val(I, got[0])
    ctx.ob("one-point", g.shape == (D,), repr(g.shape), where)
    for j in range(D):
        ctx.eq("point-of-the-smallest-value", g[j], bx[j], (), 60, where)


def plain(I, v):
    """Nested python lists of a value, or None when something in it is no list and no number."""
    if isinstance(v, Ref) and v.kind == "list":
        r = [plain(I, x) for x in I.items_of(v)]
        return r
    if isinstance(v, (int, float)) or isinstance(v, T) and v.sort != "obj":
        return tm.term(v)
    return None


def json_data(ctx, n, D):
    I = ctx.interp()
    mod = ctx.must(I.run(lambda: I.call(I.resolve(BASE + "BaseModel"), [], {})))
    where = "json data of %dx%d" % (n, D)

    def get():
        r = ctx.must(I.run(lambda: I.call(I.getattr(mod, "get_json_data"), [], {})))
        if not ctx.ob("dictionary", isinstance(r, Ref) and r.kind == "dict", repr(r), where):
            return {}
        return dict(I.lib.dict_items(r))
    d = get()
    ctx.ob("nothing-before-training", d.get("X", 0) is None and d.get("y", 0) is None, repr(d), where)
    ctx.ob("fields", sorted(d) == ["X", "hyperparameters", "y"], repr(sorted(d)), where)
    x, xd = arr(I, "X", (n, D))
    y, yd = arr(I, "y", (n,))
    I.run(lambda: I.setattr(mod, "X", x))
    I.run(lambda: I.setattr(mod, "y", y))
    d = get()
    for key, want in (("X", xd), ("y", yd)):
        p = plain(I, d.get(key))
        rows_ok = isinstance(p, list) and (all(isinstance(r, list) for r in p) if want.ndim == 2 else all(isinstance(r, T) for r in p))
        if ctx.ob("plain-lists", rows_ok, repr(d.get(key)), where + " " + key):
            arrays_equal(ctx, "json-data", ops.A(np.array(p, dtype=object)), want, where + " " + key, 4)
    arrays_equal(ctx, "data-kept", val(I, I.run(lambda: I.getattr(mod, "X")).value), xd, where, 4)


def run(ctx):
    for n in sizes(["models"], 5, 2000):
        ctx.scenario("mean %d rows" % n, norm, ctx, "mean", (n, 1), ())
        ctx.scenario("one %d rows" % n, norm, ctx, "one", (n,), ())
        ctx.scenario("update to %d rows" % n, update, ctx, max(n - 2, 1), 2, 1)
        ctx.scenario("update by %d rows" % n, update, ctx, 1, n, 1)
        ctx.scenario("incumbent of %d" % n, incumbent, ctx, n, 1)
        ctx.scenario("json data of %d" % n, json_data, ctx, n, 1)
    for n, D in ((1, 1), (2, 3), (3, 1)):
        ctx.scenario("json %d %d" % (n, D), json_data, ctx, n, D)
    for kind in ("mean", "one"):
        for sh in ((3,), (2, 2), (4, 1), (3, 3)) + (((6, 4), (9,)) if ctx.thorough else ()):
            for given in ((), (0,), (1,), (0, 1)):
                ctx.scenario("%s %s %s" % (kind, sh, given), norm, ctx, kind, sh, given)
    for n, m, D in ((2, 1, 2), (1, 3, 1), (3, 2, 3)):
        ctx.scenario("update %d %d %d" % (n, m, D), update, ctx, n, m, D)
    for D, E in ((2, 3), (3, 2), (1, 2)):
        ctx.scenario("widths %d %d" % (D, E), mismatched, ctx, D, E)
    for old, new in (("int64", "float64"), ("float64", "int64"), ("float64", "float64"), ("int64", "int64")):
        ctx.scenario("types %s %s" % (old, new), types, ctx, old, new)
    for n, D in ((1, 2), (2, 1), (4, 2)):
        ctx.scenario("incumbent %d %d" % (n, D), incumbent, ctx, n, D)

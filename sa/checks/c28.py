"""C28: objective functions are the published formulas; the negation wrapper negates and forwards."""
from ..tensors import *

EXPLANATION = ("Every objective function is interpreted with free coordinates (numbers, lists, arrays, tensors) and its value"
               " graph compared with the published formula written here; the mixture likelihoods with free means, variances"
               " and weights; the negating wrapper around a stand-in.")
FLOOR = 130
M = "pysgmcmc.diagnostics.objective_functions."
NAMES = ["banana_log_likelihood", "gaussian_mixture_model_log_likelihood", "gmm1_log_likelihood", "gmm2_log_likelihood",
         "gmm3_log_likelihood", "sinc", "bohachevski", "branin", "camelback", "goldstein_price", "hartmann3", "hartmann6",
         "levy", "rosenbrock", "sin_one", "sin_two", "to_negative_log_likelihood"]
ANCHORS = [M + n for n in NAMES]
C = tm.const
PI = tm.sym("pi", kind="pi")


def A_(*xs):
    r = tm.term(xs[0])
    for x in xs[1:]:
        r = tm.add(r, tm.term(x))
    return r


def M_(*xs):
    r = tm.term(xs[0])
    for x in xs[1:]:
        r = tm.mul(r, tm.term(x))
    return r


def sq(x):
    return tm.mul(x, x)


def sin(x):
    return tm.fn("sin", x)


def cos(x):
    return tm.fn("cos", x)


def banana(x):
    return M_(-0.5, A_(M_(0.01, sq(x[0])), sq(A_(x[1], M_(0.1, sq(x[0])), -10))))


def bohachevski(x):
    return A_(0.7, sq(x[0]), M_(2, sq(x[1])), M_(-0.3, cos(M_(3, PI, x[0]))), M_(-0.4, cos(M_(4, PI, x[1]))))


def branin(x):
    b, c, t = tm.div(C(5.1), M_(4, PI, PI)), tm.div(C(5), PI), tm.div(C(1), M_(8, PI))
    return A_(sq(A_(x[1], M_(-1, b, sq(x[0])), M_(c, x[0]), -6)), M_(10, A_(1, tm.neg(t)), cos(x[0])), 10)


def camelback(x):
    a, b = sq(x[0]), sq(x[1])
    return A_(M_(A_(4, M_(-2.1, a), tm.div(sq(a), C(3))), a), M_(x[0], x[1]), M_(A_(-4, M_(4, b)), b))


def goldstein_price(x):
    u, v = x
    p = A_(1, M_(sq(A_(u, v, 1)), A_(19, M_(-14, u), M_(3, sq(u)), M_(-14, v), M_(6, u, v), M_(3, sq(v)))))
    q = A_(30, M_(sq(A_(M_(2, u), M_(-3, v))), A_(18, M_(-32, u), M_(12, sq(u)), M_(48, v), M_(-36, u, v), M_(27, sq(v)))))
    return M_(p, q)


def hartmann(x, A, P, alpha=(1.0, 1.2, 3.0, 3.2)):
    out = C(0)
    for i in range(4):
        e = A_(*[M_(A[i][j], sq(A_(x[j], M_(-0.0001, P[i][j])))) for j in range(len(x))])
        out = A_(out, M_(-alpha[i], tm.fn("exp", M_(-1, e))))
    return out


def hartmann3(x):
    return hartmann(x, [[3, 10, 30], [0.1, 10, 35], [3, 10, 30], [0.1, 10, 35]],
                    [[3689, 1170, 2673], [4699, 4387, 7470], [1090, 8732, 5547], [381, 5743, 8828]])


def hartmann6(x):
    return hartmann(x, [[10, 3, 17, 3.5, 1.7, 8], [0.05, 10, 17, 0.1, 8, 14], [3, 3.5, 1.7, 10, 17, 8], [17, 8, 0.05, 10, 0.1, 14]],
                    [[1312, 1696, 5569, 124, 8283, 5886], [2329, 4135, 8307, 3736, 1004, 9991],
                     [2348, 1451, 3522, 2883, 3047, 6650], [4047, 8828, 8732, 5743, 1091, 381]])


def levy(x):
    z = A_(1, tm.div(A_(x[0], -1), C(4)))
    return A_(sq(sin(M_(PI, z))), M_(sq(A_(z, -1)), A_(1, sq(sin(M_(2, PI, z))))))


def rosenbrock(x):
    return A_(M_(100, sq(A_(x[1], M_(-1, sq(x[0]))))), sq(A_(x[0], -1)))


def s1(x):
    return A_(M_(0.5, sin(M_(13, x)), sin(M_(27, x))), 0.5)


FORMULAS = {"banana_log_likelihood": (banana, 2), "bohachevski": (bohachevski, 2), "branin": (branin, 2), "camelback": (camelback, 2),
            "goldstein_price": (goldstein_price, 2), "hartmann3": (hartmann3, 3), "hartmann6": (hartmann6, 6), "levy": (levy, 1),
            "rosenbrock": (rosenbrock, 2), "sin_one": (lambda x: s1(x[0]), 1), "sin_two": (lambda x: M_(s1(x[0]), s1(x[1])), 2)}


def scalar(I, v):
    if isinstance(v, Ref) and v.kind == "arr":
        v = I.get(v).data
    return ops.A(v)


def formula(ctx, name, kind):
    I = ctx.interp()
    ref, n = FORMULAS[name]
    xs = [tm.sym("x%d" % i) for i in range(n)]
    where = "%s of %s" % (name, kind)
    if kind == "list":
        x = I.list_(list(xs))
    elif kind == "tuple":
        x = tuple(xs)
    elif kind == "array":
        x = I.arr(ops.A(np.array(xs + [None], dtype=object)[:-1]), dtype=DType("float64"))
    elif kind == "columns":
        cols = [[tm.sym("x%d_%d" % (i, j)) for j in range(3)] for i in range(n)]
        x = I.list_([I.arr(ops.A(np.array(c + [None], dtype=object)[:-1]), dtype=DType("float64")) for c in cols])
    v = ctx.must(I.run(lambda: I.call(I.resolve(M + name), [x], {})))
    got = scalar(I, v)
    if kind == "columns":
        want = np.array([ref([c[j] for c in cols]) for j in range(3)], dtype=object)
        arrays_equal(ctx, "published-formula", got, want, where)
        for i, r in enumerate(I.items_of(x)):
            arrays_equal(ctx, "argument-unchanged", I.get(r).data, np.array(cols[i], dtype=object), where, 2)
    else:
        arrays_equal(ctx, "published-formula", got, np.array(ref(xs), dtype=object), where, 24)


def constants(ctx, name):
    """Plain Python numbers."""
    I = ctx.interp()
    ref, n = FORMULAS[name]
    for k, xs in enumerate(([0.0] * n, [1.0] * n, [0.25 * (i + 1) for i in range(n)], [-1.5 + i for i in range(n)], list(range(n)))):
        v = ctx.must(I.run(lambda: I.call(I.resolve(M + name), [I.list_(list(xs))], {})))
        arrays_equal(ctx, "published-formula", scalar(I, v), np.array(ref([tm.const(a) for a in xs]), dtype=object),
                     "%s %r" % (name, xs), 2)


def sinc(ctx, rows, cols):
    I = ctx.interp()
    d = np.empty((rows, cols), dtype=object)
    for i in np.ndindex(d.shape):
        d[i] = tm.sym("x%d_%d" % i)
    x = I.arr(ops.A(d), dtype=DType("float64"))
    v = ctx.must(I.run(lambda: I.call(I.resolve(M + "sinc"), [x], {})))

    def one(t):
        z = M_(PI, A_(M_(10, t), -5))
        return tm.div(sin(z), z)
    want = np.array([A_(*[one(d[i, j]) for j in range(cols)]) for i in range(rows)] + [None], dtype=object)[:-1]
    arrays_equal(ctx, "published-formula", scalar(I, v), want, "sinc %dx%d" % (rows, cols))


def mixture_ref(x, mu, var, w):
    return tm.fn("log", A_(*[M_(w[i], tm.div(tm.fn("exp", M_(-0.5, tm.div(sq(A_(x, M_(-1, mu[i]))), tm.term(var[i])))),
                                             tm.fn("sqrt", M_(2, PI, var[i])))) for i in range(len(mu))]))


MIX = {"gmm1_log_likelihood": [1.0, 1.0, 1.0], "gmm2_log_likelihood": [2.0, 0.5, 2.0], "gmm3_log_likelihood": [tm.div(C(1), C(0.3)), 0.3, tm.div(C(1), C(0.3))]}


def mixture(ctx, name, kind, params):
    c = Case(ctx)
    I = c.I
    xs = tm.sym("x")
    dt = None
    if kind == "number":
        x = xs
    elif kind == "list":
        x = I.list_([xs])
    elif kind == "array":
        x = I.arr(ops.A(np.array([xs], dtype=object)), dtype=DType("float64"))
    else:
        dt = kind
        v, d = c.variable("x", (), kind)
        xs = d[()]
        x = I.list_([v])
    where = "%s of %s%s" % (name, kind, " with parameters" if params else "")
    mu, var, w = (-5.0, 0.0, 5.0), MIX.get(name, [1.0, 1.0, 1.0]), [tm.div(C(1), C(3))] * 3
    kw = {}
    if params:
        n = params
        # plain numbers: they are hyperparameters
        mu, var, w = [-1.5, 2.0, 0.25, 4.0][:n], [0.7, 1.9, 2.5, 0.3][:n], [0.15, 0.35, 0.3, 0.2][:n]
        for k, val in (("mu", mu), ("var", var), ("weights", w)):
            kw[k] = I.list_(list(val)) if n != 2 else tuple(val)
    out = ctx.must(I.run(lambda: I.call(I.resolve(M + name), [x], kw)))
    if isinstance(out, TNode):
        ctx.ob("dtype-kept", out.dtype is None or out.dtype == DType(dt), "%r" % (out.dtype,), where)
        got = c.value(out)
    else:
        ctx.ob("tensor-in-tensor-out", dt is None, "no tensor: %r" % (out,), where)
        got = scalar(I, out)
    if got.shape not in ((), (1,)):
        return ctx.ob("scalar-likelihood", False, "shape %s" % (got.shape,), where)
    if dt is not None or kind != "array":
        ctx.ob("scalar-likelihood", got.shape == (), "shape %s" % (got.shape,), where)
    ctx.eq("mixture-density", got.reshape(-1)[0], mixture_ref(xs, mu, var, w), (), 24, where)


def mixture_refused(ctx):
    c = Case(ctx)
    I = c.I
    f = M + "gaussian_mixture_model_log_likelihood"
    for what, x, kw in (("two coordinates", I.list_([1.0, 2.0]), {}), ("no coordinate", I.list_([]), {}),
                        ("fewer variances", 1.0, {"var": (1.0, 1.0)}), ("fewer weights", 1.0, {"weights": (0.5, 0.5)}),
                        ("more means", 1.0, {"mu": (1.0, 2.0, 3.0, 4.0)}), ("more weights", 1.0, {"weights": (0.2, 0.3, 0.3, 0.2)}),
                        ("more variances", 1.0, {"var": (1.0, 1.0, 1.0, 1.0)}), ("fewer means", 1.0, {"mu": (1.0, 2.0)}),
                        ("three coordinates", I.list_([1.0, 2.0, 3.0]), {}), ("one mean", 1.0, {"mu": (1.0,)})):
        out = I.run(lambda: I.call(I.resolve(f), [x], kw))
        ctx.ob("invalid-mixture-refused", out.value is UNBOUND, "accepted: %r" % (out.value,), what)


def negated(ctx, n, kws, tensor):
    c = Case(ctx)
    I = c.I
    seen = []
    res = c.tensor("ll", ())[0] if tensor else tm.sym("ll")

    def f(I, a, k):
        seen.append((list(a), dict(k)))
        return res
    ll = Native("some_log_likelihood", f)
    g = ctx.must(I.run(lambda: I.call(I.resolve(M + "to_negative_log_likelihood"), [ll], {})))
    args = [tm.sym("a%d" % i) for i in range(n)]
    kw = {k: tm.sym(k) for k in kws}
    where = "%d arguments %r" % (n, kws)
    ctx.ob("nothing-evaluated-early", not seen, "", where)
    for rep in range(2):
        del seen[:]
        v = ctx.must(I.run(lambda: I.call(g, list(args), dict(kw))))
        ctx.ob("arguments-forwarded", seen == [(args, kw)], repr(seen), where)
        got = c.value(v) if isinstance(v, TNode) else scalar(I, v)
        ctx.eq("negated", got[()], tm.neg(tm.sym("ll[]") if tensor else res), (), 8, where)


def negated_repo(ctx, name):
    """Around the repository's own likelihoods; the name is kept."""
    I = ctx.interp()
    f = I.resolve(M + name)
    g = ctx.must(I.run(lambda: I.call(I.resolve(M + "to_negative_log_likelihood"), [f], {})))
    n = 2 if name.startswith("banana") else 1
    xs = [tm.sym("x%d" % i) for i in range(n)]
    a = ctx.must(I.run(lambda: I.call(f, [I.list_(list(xs))], {})))
    b = ctx.must(I.run(lambda: I.call(g, [I.list_(list(xs))], {})))
    ctx.eq("negated", scalar(I, b)[()], tm.neg(scalar(I, a)[()]), (), 16, name)
    nm = I.run(lambda: I.getattr(g, "__name__")).value
    ctx.ob("name-kept", nm == name, repr(nm), name)


def banana_tensor(ctx, dt):
    c = Case(ctx)
    I = c.I
    u, ud = c.variable("u", (), dt)
    v, vd = c.variable("v", (), dt)
    out = ctx.must(I.run(lambda: I.call(I.resolve(M + "banana_log_likelihood"), [I.list_([u, v])], {})))
    ctx.ob("dtype-kept", isinstance(out, TNode) and (out.dtype is None or out.dtype == DType(dt)), repr(out), "banana " + dt)
    ctx.eq("published-formula", c.value(out)[()], banana([ud[()], vd[()]]), (), 16, "banana of tensors " + dt)


def run(ctx):
    for name in FORMULAS:
        for kind in ("list", "tuple", "array", "columns"):
            ctx.scenario("%s %s" % (name, kind), formula, ctx, name, kind)
        ctx.scenario("%s constants" % name, constants, ctx, name)
    for r, c in ((1, 1), (2, 3), (4, 2), (3, 1), (1, 3), (2, 2)):
        ctx.scenario("sinc %d %d" % (r, c), sinc, ctx, r, c)
    for name in list(MIX) + ["gaussian_mixture_model_log_likelihood"]:
        for kind in ("number", "list", "array", "float32", "float64"):
            ctx.scenario("%s %s" % (name, kind), mixture, ctx, name, kind, 0)
    for kind in ("number", "list", "float32", "float64"):
        for n in (1, 2, 3, 4):
            ctx.scenario("mixture of %d %s" % (n, kind), mixture, ctx, "gaussian_mixture_model_log_likelihood", kind, n)
    ctx.scenario("refused", mixture_refused, ctx)
    for n, kws in ((1, []), (2, ["mu"]), (0, ["x", "var"]), (3, [])):
        for t in (False, True):
            ctx.scenario("negated %d %r %r" % (n, kws, t), negated, ctx, n, kws, t)
    for name in list(MIX) + ["banana_log_likelihood"]:
        ctx.scenario("negated %s" % name, negated_repo, ctx, name)
    for dt in ("float32", "float64"):
        ctx.scenario("banana tensors %s" % dt, banana_tensor, ctx, dt)

"""The dataflow graph that the analysed source builds, and its meaning.

Interpreting the source yields TNodes (operation, inputs, control inputs,
attributes).  `Step` gives the value of every fetched node of one graph run and
decides, from data and control edges alone, which version of a variable each
reader sees; a reader that is not ordered with a writer is a race.
"""
import numpy as np

from . import ops
from . import terms as tm
from .terms import T, Undecided
from .vals import *


class TNode(object):
    __slots__ = ("id", "op", "inputs", "attrs", "ctrl", "shape", "dtype", "fn", "site",
                 "name", "graph", "init", "loops")

    def __repr__(self):
        return "<tf %s#%d%s>" % (self.op, self.id, (" " + self.name) if self.name else "")

    def as_term(self):
        return tm.sym("node:%d" % self.id, "obj")

    def is_var(self):
        return self.op == "variable"


class Graph(object):
    def __init__(self, interp):
        self.I = interp
        self.nodes = []
        self.ctrl = []
        self.device = None
        self.unknown_shape = None     # driver: shape of a placeholder without one
        self.none_dim = None          # driver: size of an unknown dimension
        self.reset_calls = 0

    def mark(self):
        return len(self.nodes)

    def reset(self, m):
        del self.nodes[m:]

    def node(self, op, inputs, fn, attrs=None, dtype=None, shape=None, name=None):
        n = TNode()
        n.op, n.inputs, n.fn, n.attrs = op, list(inputs), fn, dict(attrs or {})
        n.id = len(self.nodes)
        n.ctrl = [c for grp in self.ctrl for c in grp]
        n.dtype, n.name, n.site, n.init = dtype, name, self.I.site, None
        n.graph = self.I.lib.cur_graph()
        n.loops = tuple(self.I.loops)
        if shape is None:
            shape = self.infer(n)
        n.shape = shape
        self.nodes.append(n)
        return n

    def infer(self, n):
        dummies = []
        for x in n.inputs:
            if x.shape is None:
                return None
            dummies.append(ops.full(x.shape, tm.sym("@shape", kind="pos")))
        try:
            r = n.fn(*dummies)
        except ops.ShapeError as e:
            self.I.event("shape_error", op=n.op, why=str(e))
            self.I.raise_("ValueError", "incompatible shapes in %s: %s" % (n.op, e))
        return tuple(r.shape)

    # ------------------------------------------------------------- building

    def const(self, v, dtype=None, name=None):
        data = self.I.lib.to_array(v)
        return self.node("const", [], lambda d=data: d, dtype=dtype, name=name,
                         attrs={"data": data}, shape=tuple(data.shape))

    def as_node(self, v, like=None):
        """convert_to_tensor."""
        if isinstance(v, TNode):
            return v
        if isinstance(v, Ref) and v.kind in ("list",) or isinstance(v, tuple):
            items = self.I.items_of(v)
            if any(self.has_node(x) for x in items):
                return self.op("stack", items, ops_stack, {}, dtype=None)
        d = like.dtype if like is not None else None
        return self.const(v, dtype=d)

    def has_node(self, v):
        if isinstance(v, TNode):
            return True
        if isinstance(v, Ref) and v.kind == "list" or isinstance(v, tuple):
            try:
                return any(self.has_node(x) for x in self.I.items_of(v))
            except Undecided:
                return False
        return False

    def op(self, name, xs, fn, attrs=None, dtype="same", label=None):
        """Operation over tensors `xs`; python values are converted."""
        like = next((x for x in xs if isinstance(x, TNode)), None)
        nodes = [self.as_node(x, like) for x in xs]
        dts = [n.dtype for n in nodes if n.dtype is not None]
        if dtype == "same" or dtype is None:
            if len(set(dts)) > 1:
                self.I.event("dtype_mismatch", op=name, dtypes=dts)
                self.I.raise_("TypeError", "dtypes %r in %s" % (dts, name))
            dtype = dts[0] if dts else None
        return self.node(name, nodes, fn, attrs, dtype, name=label)

    def variable(self, init, dtype=None, name=None, trainable=True, shape=None):
        initn = self.as_node(init)
        if dtype is not None and initn.dtype is not None and dtype is not initn.dtype and \
                (isinstance(init, TNode)):
            self.I.event("dtype_mismatch", op="Variable", dtypes=[dtype, initn.dtype])
            self.I.raise_("ValueError", "initial value of a variable has dtype %r" % initn.dtype)
        n = self.node("variable", [], None, {"trainable": trainable}, dtype or initn.dtype,
                      shape=tuple(initn.shape), name=name)
        n.init = initn
        return n

    def placeholder(self, dtype=None, shape=None, name=None):
        return self.node("placeholder", [], None, {"declared": shape}, dtype,
                         shape=shape, name=name)

    def assign(self, op, var, value, name=None):
        if var is None or isinstance(var, (bool, int, float, str, tuple, T)) or isinstance(var, TNode) and not var.is_var() \
                or isinstance(var, Ref):
            self.I.raise_("AttributeError", "only variables can be assigned to")
        if not (isinstance(var, TNode) and var.is_var()):
            raise Undecided("assignment to something that is not a variable at %s" % self.I.site)
        val = self.as_node(value, var)
        if val.dtype is not None and var.dtype is not None and val.dtype is not var.dtype:
            self.I.event("dtype_mismatch", op=op, dtypes=[var.dtype, val.dtype])
            self.I.raise_("TypeError", "dtypes in %s" % op)
        if val.shape is not None and tuple(val.shape) != tuple(var.shape) and op == "assign":
            self.I.event("shape_error", op=op, why="%s -> %s" % (val.shape, var.shape))
            self.I.raise_("ValueError", "shapes in %s" % op)
        f = {"assign": lambda c, v: v, "assign_add": ops.add, "assign_sub": ops.sub}[op]
        n = self.node(op, [var, val], f, {}, var.dtype, name=name, shape=tuple(var.shape))
        if val.shape is not None and op != "assign" and tuple(val.shape) not in ((), tuple(var.shape)):
            self.I.event("shape_error", op=op, why="%s -> %s" % (val.shape, var.shape))
            self.I.raise_("ValueError", "shapes in %s" % op)
        if val.shape is not None and op != "assign" and tuple(val.shape) != tuple(var.shape):
            self.I.event("shape_error", op=op, why="%s -> %s" % (val.shape, var.shape))
            self.I.raise_("ValueError", "shapes in %s" % op)
        return n

    def userfun(self, name, args, shape=()):
        """Unknown differentiable scalar function of tensors (e.g. a cost)."""
        nodes = [self.as_node(a) for a in args]
        return self.node("userfun", nodes, None, {"name": name},
                         nodes[0].dtype if nodes else None, shape=shape)

    def gradients(self, ys, xs):
        """tf.gradients: linear structure of ys is resolved, the rest is opaque."""
        ylist = self.flat(ys)
        out = []
        for x in self.flat(xs):
            out.append(self.node("gradient", [y for y in ylist], None, {"x": x, "ys": ylist},
                                 x.dtype, shape=tuple(x.shape)))
        return out

    def flat(self, v):
        if isinstance(v, TNode):
            return [v]
        out = []
        for x in self.I.items_of(v):
            out.extend(self.flat(x))
        return out


def ops_stack(*xs):
    return ops.stack(list(xs))


WRITES = ("assign", "assign_add", "assign_sub")


def reaches(y, x, memo):
    if y is x:
        return True
    if y not in memo:
        memo[y] = False
        memo[y] = any(reaches(i, x, memo) for i in y.inputs)
    return memo[y]


def data_inputs(n):
    """The nodes whose values a node waits for. A gradient waits for the values that the derivative consists of, not
    for the function itself."""
    if n.op != "gradient":
        return n.inputs
    if "needs" not in n.attrs:
        x, needs, seen, memo = n.attrs["x"], [], set(), {}
        todo = list(n.attrs["ys"])
        while todo:
            y = todo.pop()
            if y in seen or y is x or not reaches(y, x, memo):
                continue
            seen.add(y)
            todo.extend(y.inputs)
            if y.op in ("mul", "div") and len(y.inputs) == 2:
                a, b = y.inputs
                if reaches(b, x, memo):
                    needs += [a] if y.op == "mul" else [a, b]
                if reaches(a, x, memo):
                    needs.append(b)
            elif y.op not in LINEAR:
                needs.extend(y.inputs)
        n.attrs["needs"] = needs
    return n.attrs["needs"]


LINEAR = ("identity", "convert", "cast", "neg", "add", "sub", "reduce_sum", "reduce_mean", "reshape", "stack", "getitem",
          "squeeze", "expand_dims", "transpose", "map_fn", "concat", "tile")


class Step(object):
    """One session run: fetch nodes under feeds, from a variable state."""

    def __init__(self, graph, fetches, feeds, state, tag, rng=None):
        self.g, self.feeds, self.state, self.tag = graph, dict(feeds), state, tag
        self.memo, self.races, self.random = {}, [], []
        self.fetches = fetches
        self.executed = self.closure(fetches)
        self.writes = {}
        for n in self.executed:
            if n.op in WRITES and n not in self.feeds:
                self.writes.setdefault(n.inputs[0], []).append(n)
        self._anc = {}
        self.reads = []

    def closure(self, fetches):
        """Nodes executed: data ancestors (cut at feeds) and control ancestors."""
        seen, todo = set(), []
        for f in fetches:
            if f not in self.feeds:
                todo.append(f)
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            for i in data_inputs(n):
                if i not in self.feeds:
                    todo.append(i)
            todo.extend(n.ctrl)
        return seen

    def ancestors(self, n):
        """Nodes that certainly complete before n starts."""
        a = self._anc.get(n)
        if a is None:
            a = set()
            self._anc[n] = a
            todo = [i for i in data_inputs(n) if i not in self.feeds] + list(n.ctrl)
            while todo:
                m = todo.pop()
                if m in a:
                    continue
                a.add(m)
                if m in self._anc and m is not n:
                    a |= self._anc[m]
                    continue
                todo.extend([i for i in data_inputs(m) if i not in self.feeds])
                todo.extend(m.ctrl)
        return a

    def read(self, var, reader):
        """Value of a variable as seen by `reader` (None: the run's fetch)."""
        if var in self.feeds:
            return self.feeds[var]
        ws = [w for w in self.writes.get(var, []) if w is not reader]
        before = []
        for w in ws:
            if reader is None:
                self.races.append((var, w, None))
            elif w in self.ancestors(reader):
                before.append(w)
            elif reader in self.ancestors(w):
                pass
            else:
                self.races.append((var, w, reader))
        self.reads.append((var, reader, bool(before)))
        if not before:
            return self.initial(var, reader)
        last = [w for w in before if not any(w in self.ancestors(o) for o in before if o is not w)]
        return self.value(last[0])

    def initial(self, var, reader=None):
        if var not in self.state:
            if reader is None or reader.op != "assign":
                self.g.I.event("uninitialised_read", var=var)
                self.g.I.raise_("FailedPreconditionError", "variable %s is not initialised" % var.name)
            self.state[var] = ops.full(tuple(var.shape), tm.sym("uninitialised:%d" % var.id))
        return self.state[var]

    def init_value(self, var):
        return InitStep(self.g, var).value_of(var)

    def value(self, n):
        if n in self.feeds:
            return self.feeds[n]
        v = self.memo.get(n)
        if v is None:
            v = self.compute(n)
            self.memo[n] = v
        return v

    def arg(self, i, n):
        if i.op == "variable":
            return self.read(i, n)
        return self.value(i)

    def compute(self, n):
        if n.op == "variable":
            return self.read(n, None)
        if n.op == "placeholder":
            self.g.I.raise_("InvalidArgumentError", "placeholder %r is not fed" % n)
        if n.op == "is_init":
            return ops.A(n.attrs["var"] in self.state)
        if n.op == "userfun":
            args = [self.arg(i, n) for i in n.inputs]
            return ops.A(tm.uf("fun:" + n.attrs["name"], *self.key_args(args)))
        if n.op == "gradient":
            return self.gradient(n)
        if n.op in ("random_normal", "random_uniform", "truncated_normal", "random_init"):
            self.random.append(n)
            out = np.empty(n.shape, dtype=object)
            for i in np.ndindex(n.shape):
                out[i] = tm.sym("%s[%s;%d]%s" % (n.op, self.tag, n.id, list(i)),
                                kind="half" if n.op == "random_uniform" else None)
            mean, sd = [self.arg(i, n) for i in n.inputs]
            return ops.add(mean, ops.mul(out, sd))
        return ops.A(n.fn(*[self.arg(i, n) for i in n.inputs]))

    def key_args(self, args):
        out = [tm.const(self.tag_of_data())]
        for a in args:
            out.extend(list(ops.A(a).flat))
        return out

    def tag_of_data(self):
        """Identity of the fed minibatch: costs depend on it."""
        return "|".join(sorted("%d=%s" % (k.id, self.feed_tag.get(k)) for k in self.feeds
                               if k in self.feed_tag)) if hasattr(self, "feed_tag") else ""

    def gradient(self, n):
        x = n.attrs["x"]
        out = ops.full(x.shape, 0)
        for y in n.attrs["ys"]:
            for k, coef in enumerate(np.ndindex(tuple(y.shape))):
                out = ops.add(out, self.d(y, coef, x, n, ops.A(1)))
        return out

    def d(self, y, idx, x, reader, coef):
        """coef * d y[idx] / d x as an array of x's shape."""
        if y is x:
            out = ops.full(x.shape, 0)
            out[idx] = coef[()]
            return out
        one = lambda c: ops.A(c)
        if y.op in ("identity", "convert", "cast") and y.inputs:
            return self.d(y.inputs[0], idx, x, reader, coef)
        if y.op == "neg":
            return self.d(y.inputs[0], idx, x, reader, ops.neg(coef))
        if y.op in ("add", "sub", "mul", "div"):
            a, b = y.inputs
            zero = ops.full(x.shape, 0)

            def pick(n):
                sh = tuple(n.shape)
                full = (0,) * (len(idx) - len(sh)) + sh
                j = tuple(0 if full[k] == 1 else idx[k] for k in range(len(idx)))
                return j[len(idx) - len(sh):]
            da = lambda c: self.d(a, pick(a), x, reader, ops.A(c)) if self.depends(a, x) else zero
            db = lambda c: self.d(b, pick(b), x, reader, ops.A(c)) if self.depends(b, x) else zero
            c = coef[()]
            if y.op == "add":
                return ops.add(da(c), db(c))
            if y.op == "sub":
                return ops.add(da(c), db(tm.neg(c)))
            va, vb = self.arg(a, reader)[pick(a)], self.arg(b, reader)[pick(b)]
            if y.op == "mul":
                return ops.add(da(tm.mul(c, vb)), db(tm.mul(c, va)))
            return ops.add(da(tm.div(c, vb)),
                           db(tm.neg(tm.div(tm.mul(c, va), tm.mul(vb, vb)))))
        if y.op in ("reduce_sum", "reduce_mean", "reshape", "stack", "getitem", "squeeze",
                    "expand_dims", "transpose", "map_fn", "concat", "tile"):
            # structural: use symbols to find which inputs an element is made of
            probe, table = [], {}
            for i, m in enumerate(y.inputs):
                p = np.empty(tuple(m.shape), dtype=object)
                for j in np.ndindex(p.shape):
                    s = tm.sym("@probe%d%s" % (i, list(j)))
                    p[j] = s
                    table[s] = (m, j)
                probe.append(p)
            e = y.fn(*probe)[idx]
            out = ops.full(x.shape, 0)
            for s, c in linear(e).items():
                m, j = table[s]
                if self.depends(m, x):
                    out = ops.add(out, self.d(m, j, x, reader, ops.mul(coef, c)))
            return out
        if y.op == "userfun":
            args = [self.arg(i, reader) for i in y.inputs]
            keys = self.key_args(args)
            out = ops.full(x.shape, 0)
            for pos, i in enumerate(y.inputs):
                if not self.depends(i, x):
                    continue
                for j in np.ndindex(tuple(i.shape)):
                    g = tm.uf("D%d%s:%s" % (pos, list(j), y.attrs["name"]), *keys)
                    c = ops.mul(coef, ops.A(g))
                    if i is x:
                        e = ops.full(x.shape, 0)
                        e[j] = c[()]
                        out = ops.add(out, e)
                    else:
                        out = ops.add(out, self.d(i, j, x, reader, c))
            return out
        if not self.depends(y, x):
            return ops.full(x.shape, 0)
        raise Undecided("gradient through operation %s (%s)" % (y.op, y.site))

    def depends(self, y, x):
        seen, todo = set(), [y]
        while todo:
            n = todo.pop()
            if n is x:
                return True
            if n in seen:
                continue
            seen.add(n)
            todo.extend(n.inputs)
        return False

    def run(self):
        vals = [self.value(f) for f in self.fetches]
        for n in sorted(self.executed, key=lambda n: n.id):
            if n.op == "variable":
                continue
            if n.op in WRITES or n.op.startswith("random"):
                self.value(n)
            elif n.op in ("userfun", "gradient"):
                self.value(n)
        new = dict(self.state)
        for var, ws in self.writes.items():
            order = [w for w in ws if not any(w in self.ancestors(o) for o in ws if o is not w)]
            if len(order) > 1:
                self.races.append((var, order[0], order[1]))
            new[var] = self.value(order[0])
        return vals, new


def linear(e):
    """Coefficients of a term that is linear in @probe symbols."""
    e = tm.term(e)
    if e.op == "sym" and e.args[0].startswith("@probe"):
        return {e: tm.const(1)}
    if e.op == "const":
        return {}
    if e.op == "+":
        a, b = linear(e.args[0]), linear(e.args[1])
        for k, v in b.items():
            a[k] = tm.add(a[k], v) if k in a else v
        return a
    if e.op == "*":
        a, b = e.args
        fa, fb = tm.free_syms([a]), tm.free_syms([b])
        pa = any(k.startswith("@probe") for k in fa)
        pb = any(k.startswith("@probe") for k in fb)
        if pa and pb:
            raise Undecided("not linear")
        if not pa and not pb:
            return {}
        lin, c = (a, b) if pa else (b, a)
        return {k: tm.mul(v, c) for k, v in linear(lin).items()}
    if e.op == "/":
        return {k: tm.div(v, e.args[1]) for k, v in linear(e.args[0]).items()}
    raise Undecided("not linear: %r" % e)


class InitStep(Step):
    """Initial value of a variable: its initialiser, variables at their own."""

    def __init__(self, graph, var):
        Step.__init__(self, graph, [], {}, {}, "init")

    def value_of(self, var):
        if var.init is None:
            raise Undecided("variable without initial value")
        if var.attrs.get("user"):
            out = np.empty(tuple(var.shape), dtype=object)
            for i in np.ndindex(out.shape):
                out[i] = tm.sym("%s%s" % (var.name, list(i)))
            return out
        return self.value(var.init)

    cur = None

    def read(self, var, reader):
        if self.cur is not None and var in self.cur and reader is not None and \
                reader.op == "initialized_value":
            return self.cur[var]
        return self.value_of(var)

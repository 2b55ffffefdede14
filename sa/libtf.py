"""Meaning of the TensorFlow (v1 graph mode) API in terms of graph nodes."""
import numpy as np

from . import ops
from . import terms as tm
from . import tfgraph
from .args import P
from .libnp import UN
from .terms import T, Undecided
from .tfgraph import TNode
from .vals import *

DTYPES = ("float16", "float32", "float64", "int8", "int16", "int32", "int64", "uint8", "bool",
          "string", "double", "half", "complex64", "complex128", "bfloat16")

EW1 = {n: UN[n] for n in ("sqrt", "exp", "log", "log1p", "expm1", "tanh", "sin", "cos", "tan", "abs", "sign",
                          "floor", "square")}
EW1.update({"negative": ops.neg, "neg": ops.neg, "rsqrt": lambda x: ops.div(1, UN["sqrt"](x)),
            "reciprocal": lambda x: ops.div(1, x), "sigmoid": ops.sigmoid, "relu": ops.relu,
            "ceil": UN["ceil"], "identity": ops.identity, "stop_gradient": ops.identity,
            "softplus": lambda x: UN["log"](ops.add(1, UN["exp"](x))), "logical_not": ops.lnot,
            "check_numerics": ops.identity, "ensure_shape": ops.identity, "complex_abs": UN["abs"],
            "snapshot": ops.identity, "inv": lambda x: ops.div(1, x)})
EW2 = {"add": ops.add, "subtract": ops.sub, "sub": ops.sub, "multiply": ops.mul, "mul": ops.mul,
       "divide": ops.div, "div": ops.div, "truediv": ops.div, "realdiv": ops.div, "floordiv": ops.floordiv,
       "floor_div": ops.floordiv, "mod": ops.mod, "floormod": ops.mod, "pow": ops.power,
       "maximum": ops.maximum, "minimum": ops.minimum, "squared_difference": ops.squared_difference,
       "less": ops.lt, "less_equal": ops.le, "greater": ops.gt, "greater_equal": ops.ge,
       "equal": ops.eq, "not_equal": ops.ne, "logical_and": ops.land, "logical_or": ops.lor,
       "div_no_nan": lambda a, b: ops.where(ops.eq(b, 0), 0, ops.div(a, b)), "add_v2": ops.add,
       "bias_add": ops.add}
BOOLOUT = ("less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "logical_and",
           "logical_or", "logical_not", "is_nan", "is_finite", "is_inf")
KIND = {"add": "add", "add_v2": "add", "bias_add": "add", "subtract": "sub", "sub": "sub", "multiply": "mul", "mul": "mul",
        "divide": "div", "div": "div", "truediv": "div", "realdiv": "div", "negative": "neg", "neg": "neg"}
RED = {"reduce_sum": ops.reduce_sum, "reduce_mean": ops.reduce_mean, "reduce_prod": ops.reduce_prod,
       "reduce_max": ops.reduce_max, "reduce_min": ops.reduce_min, "reduce_all": ops.reduce_all,
       "reduce_any": ops.reduce_any, "reduce_logsumexp": ops.logsumexp, "reduce_variance": ops.variance,
       "reduce_std": ops.std, "reduce_euclidean_norm": ops.norm}
PYOP = {"Add": "add", "Sub": "subtract", "Mult": "multiply", "Div": "divide", "FloorDiv": "floordiv",
        "Mod": "floormod", "Pow": "pow", "MatMult": "matmul", "Lt": "less", "LtE": "less_equal",
        "Gt": "greater", "GtE": "greater_equal", "BitAnd": "logical_and", "BitOr": "logical_or"}
PREFIX = ("compat.v1.", "math.", "nn.", "linalg.", "train.", "initializers.", "distributions.", "python.")
ALIAS = {"random.normal": "random_normal", "random.uniform": "random_uniform",
         "random.truncated_normal": "truncated_normal", "random.set_random_seed": "set_random_seed",
         "random.set_seed": "set_random_seed", "top_k": "top_k", "matrix_transpose": "matrix_transpose",
         "lin_space": "linspace", "sum": "reduce_sum", "pack": "stack", "unpack": "unstack",
         "global_variables_initializer": "global_variables_initializer",
         "initialize_all_variables": "global_variables_initializer",
         "all_variables": "global_variables", "initialize_variables": "variables_initializer",
         "strings.as_string": "as_string", "dtypes.cast": "cast", "manip.tile": "tile",
         "manip.reshape": "reshape", "debugging.check_numerics": "check_numerics",
         "logsumexp": "reduce_logsumexp", "l2_norm": "norm", "expand_dims_v2": "expand_dims",
         "where_v2": "where", "data.AUTOTUNE": "AUTOTUNE", "batch_matmul": "matmul"}


class TFMixin(object):
    def init_tf(self):
        I = self.I
        self.root_graph = Opq("graph:default", "graph", methods=self.graph_methods())
        self.root_graph.attrs["key"] = 0
        self.graph_stack = [self.root_graph]
        self.run_hook = None
        self.n_runs = 0
        self.var_names = {}
        self.name_stack = []

    # ------------------------------------------------------------ names

    def tf_value(self, full):
        if not full.startswith("tensorflow."):
            return UNBOUND
        n = self.tf_name(full)
        if n in DTYPES:
            return DType({"double": "float64", "half": "float16"}.get(n, n))
        if n in ("dtypes." + d for d in DTYPES):
            return DType(n[7:])
        if n == "newaxis":
            return None
        return UNBOUND

    def tf_name(self, full):
        n = full[len("tensorflow."):]
        n = ALIAS.get(n, n)
        again = True
        while again:
            again = False
            for p in PREFIX:
                if n.startswith(p) and n != p:
                    n = n[len(p):]
                    n = ALIAS.get(n, n)
                    again = True
        return n

    def dtype_of(self, v):
        if isinstance(v, DType):
            return v.base()
        if v is None:
            return None
        n = None
        if isinstance(v, str):
            n = v
        elif isinstance(v, Lib):
            n = v.name.split(".")[-1]
            n = {"float": "float32" if v.name.startswith("builtins") else "float64", "int": "int32",
                 "float_": "float64", "double": "float64", "single": "float32", "bool_": "bool"}.get(n, n)
        if n in DTYPES:
            return DType(n)
        return None

    def cur_graph(self):
        return self.graph_stack[-1]

    def graph_methods(self):
        return {
            "as_default": lambda I, a, k: self.cur_graph_obj(a, k),
            "get_operations": lambda I, a, k: I.list_([]),
            "finalize": lambda I, a, k: None,
            "get_collection": lambda I, a, k: self.variables(None),
        }

    def cur_graph_obj(self, a, k):
        return self.root_graph

    def new_graph(self):
        g = Opq("graph:%d" % len(self.I.events), "graph")
        g.methods = dict(self.graph_methods())
        g.methods["as_default"] = lambda I, a, k, g=g: g
        self.I.event("graph", graph=g)
        return g

    def new_session(self, graph=None, typ="session", name=None):
        g = graph if graph is not None else self.cur_graph()
        self.I.fresh_n += 1
        s = Opq(name or "session:%d" % self.I.fresh_n, typ, attrs={"graph": g})
        s.methods = {
            "run": lambda I, a, k, s=s: self.session_run(s, a, k),
            "close": lambda I, a, k, s=s: self.close_session(s),
            "as_default": lambda I, a, k, s=s: Opq("default:" + s.name, "session_default", attrs={"session": s, "graph": g}),
            "__enter__": lambda I, a, k, s=s: s,
        }
        s.attrs["state"] = self.I.alloc(StateC({}), "state")
        s.attrs["closed"] = self.I.list_([False])
        self.I.event("session", session=s, graph=g)
        return s

    def close_session(self, s):
        self.I.event("close_session", session=s)
        self.I.put(s.attrs["closed"], ListC([True]))

    def state_of(self, session):
        return session.attrs["state"]

    # ------------------------------------------------------------ operators

    def tf_binary(self, op, a, b):
        if op not in PYOP:
            raise Undecided("tensor operator %s" % op)
        if a is None or b is None:
            self.I.raise_("ValueError", "None values not supported by tensors")
        return self.call_tf("tensorflow." + PYOP[op], [a, b], {})

    def tf_unary(self, op, v):
        if op == "USub":
            return self.call_tf("tensorflow.negative", [v], {})
        if op == "UAdd":
            return v
        if op == "Invert":
            return self.call_tf("tensorflow.logical_not", [v], {})
        raise Undecided("tensor operator " + op)

    def tf_getitem(self, o, k):
        I = self.I
        keys = list(k) if isinstance(k, tuple) and not isinstance(k, Shape) else [k]
        if len(keys) == 1 and isinstance(keys[0], TNode) or isinstance(keys[0], T) and not self.isint(keys[0]):
            return I.graph.op("gather", [o, keys[0]], lambda x, i: gather(x, i, 0), dtype=o.dtype)
        conc = []
        for x in keys:
            if isinstance(x, Slice):
                conc.append(self.pyslice(x))
            elif x is None or x is Ellipsis:
                conc.append(x)
            elif isinstance(x, TNode):
                conc.append(self.static_int(x))
            else:
                conc.append(self.intval(x))
        conc = tuple(conc)

        def f(x):
            try:
                return ops.A(x[conc])
            except IndexError as e:
                raise ops.ShapeError(str(e))
        return I.graph.op("getitem", [o], f)

    def static_int(self, n):
        """Concrete integer of a tensor that only depends on static shapes."""
        return self.intval(self.static_array(n).reshape(-1)[0])

    def static_array(self, n):
        if isinstance(n, TNode):
            if n.op in ("placeholder", "variable", "userfun", "gradient") or n.op.startswith("random"):
                raise Undecided("tensor-valued shape at %s" % self.I.site)
            return ops.A(n.fn(*[self.static_array(i) for i in n.inputs]))
        return self.to_array(n)

    def dims(self, v):
        """Concrete shape given as list/tuple/Shape/tensor."""
        if v is None:
            return None
        if isinstance(v, TNode):
            return tuple(self.intval(x) for x in self.static_array(v).flat)
        if isinstance(v, (int, T)):
            return (self.intval(v),)
        if self.is_arr(v):
            return tuple(self.intval(x) for x in self.to_array(v).flat)
        out = []
        for x in self.I.items_of(v):
            if isinstance(x, TNode):
                out.append(self.static_int(x))
            elif x is None:
                out.append(-1)
            else:
                out.append(self.intval(x))
        return tuple(out)

    # ------------------------------------------------------------ tensors

    def tf_attr(self, o, name):
        I = self.I
        if name == "shape":
            if o.shape is None:
                raise Undecided("shape of a tensor of unknown rank at %s" % I.site)
            return Shape(o.shape)
        if name == "dtype":
            d = o.dtype if o.dtype is not None else DType("float32")
            if o.op == "variable" or (o.op.startswith("assign") and o.inputs):
                return DType(d.name + "_ref")       # variables are reference variables in this version of TensorFlow
            return d
        if name == "name":
            return (o.name or "%s_%d" % (o.op, o.id)) + ":0"
        if name == "graph":
            return o.graph
        if name == "op":
            return Opq("op of #%d" % o.id, attrs={"name": o.name or "%s_%d" % (o.op, o.id), "type": o.op,
                                                  "inputs": tuple(o.inputs), "outputs": (o,), "node": o})
        if name == "ndims":
            return len(o.shape)
        if name in ("initializer",) and o.is_var():
            return self.init_node([o])
        if name in ("initial_value",) and o.is_var():
            return o.init
        if name == "trainable" and o.is_var():
            return o.attrs["trainable"]
        if name in ("get_shape", "set_shape", "eval", "initialized_value", "assign", "assign_add", "assign_sub",
                    "read_value", "value", "load", "consumers", "__getitem__", "__iter__"):
            if name in ("initialized_value", "assign", "assign_add", "assign_sub", "read_value", "value", "load") \
                    and not o.is_var():
                I.raise_("AttributeError", "Tensor has no attribute %s" % name)
            return BuiltinM(o, name)
        I.raise_("AttributeError", "%s has no attribute %s" % (o.op, name))

    def tf_method(self, o, name, a, k):
        I = self.I
        if name == "get_shape":
            return self.tf_attr(o, "shape")
        if name == "set_shape":
            return None
        if name == "eval":
            p = P(a, k, "feed_dict=None session=None")
            s = p.session if p.session is not None else self.default_session
            if s is None:
                I.raise_("ValueError", "no default session")
            return self.session_run(s, [o, p.feed_dict], {})
        if name == "initialized_value":
            return I.graph.op("initialized_value", [o], ops.identity)
        if name in ("read_value", "value"):
            return I.graph.op("identity", [o], ops.identity)
        if name in ("assign", "assign_add", "assign_sub"):
            p = P(a, k, "value use_locking=None name=None read_value=True")
            return I.graph.assign(name, o, p.value, p.name)
        if name == "load":
            p = P(a, k, "value session=None")
            ses = p.session if p.session is not None else self.default_session
            if ses is None:
                I.raise_("ValueError", "no default session")
            c = I.get(self.state_of(ses))
            d = dict(c.vars)
            d[o] = self.to_array(p.value)
            I.put(self.state_of(ses), StateC(d))
            I.event("load", var=o)
            return None
        if name == "__getitem__":
            return self.tf_getitem(o, a[0])
        raise Undecided("tensor method " + name)

    def init_node(self, vars_):
        n = self.I.graph.node("init", [], lambda: ops.A(0), {"vars": list(vars_)}, shape=())
        return n

    def variables(self, trainable):
        g = self.cur_graph()
        return self.I.list_([n for n in self.I.graph.nodes if n.is_var() and n.graph is g and
                             (trainable is None or n.attrs["trainable"] is trainable or
                              n.attrs["trainable"] == trainable)])

    def lit_dtype(self, v, dtype):
        """dtype a Python value gets in tf.constant / Variable."""
        d = self.dtype_of(dtype)
        if d is not None:
            return d
        if isinstance(v, TNode):
            return v.dtype
        if isinstance(v, bool):
            return DType("bool")
        if isinstance(v, int):
            return DType("int32")
        if isinstance(v, float):
            return DType("float32")
        if isinstance(v, T):
            if tm.is_num(v):
                return DType("int32" if v.sort == "int" else "float32")
            if v.sort == "int":
                return DType("int32")
            return None
        if self.is_arr(v):
            return self.dtype_of(self.I.get(v).dtype) or DType("float64")
        if isinstance(v, tuple) or isinstance(v, Ref) and v.kind == "list":
            ds = [self.lit_dtype(x, None) for x in self.I.items_of(v)]
            if ds and all(x is ds[0] for x in ds):
                return ds[0]
            if ds and None not in ds and DType("float32") in ds:
                return DType("float32")
        return None

    # ------------------------------------------------------------ functions

    def call_tf(self, name, a, k):
        I = self.I
        n = self.tf_name(name)
        if n in DTYPES and len(a) == 1:
            return a[0]
        if n in EW1:
            p = P(a, k, "x name=None", ignore=("message", "shape")) if "features" not in k and "input" not in k and "tensor" not in k else None
            x = p.x if p is not None else k.get("features", k.get("input", k.get("tensor")))
            label = k.get("name")
            r = I.graph.op(KIND.get(n, n), [self.tnum(x)], EW1[n], label=label)
            if n in BOOLOUT:
                r.dtype = DType("bool")
            return r
        if n in EW2:
            p = P(a, k, "x y name=None", ignore=("data_format",)) if "value" not in k else None
            r = I.graph.op(KIND.get(n, n), [self.tnum(p.x, p.y), self.tnum(p.y, p.x)], EW2[n], label=p.name)
            if n in BOOLOUT:
                r.dtype = DType("bool")
            return r
        if n in RED:
            p = P(a, k, "x axis=None keepdims=None name=None reduction_indices=None keep_dims=None") \
                if "input_tensor" not in k else P(a, k, "input_tensor axis=None keepdims=None name=None reduction_indices=None keep_dims=None")
            x = p.x if hasattr(p, "x") else p.input_tensor
            ax = p.axis if p.axis is not None else p.reduction_indices
            ax = self.axis_of(ax if not isinstance(ax, TNode) else self.static_int(ax))
            kd = bool(p.keepdims or p.keep_dims)
            f = RED[n]
            return I.graph.op(n, [x], lambda v: f(v, ax, kd), label=p.name)
        m = getattr(self, "tf_f_" + n.replace(".", "_"), None)
        if m is not None:
            return m(a, k)
        if n.endswith("_initializer") or n in ("zeros", "ones", "constant", "he_normal", "glorot_uniform", "glorot_normal",
                                               "truncated_normal_initializer", "contrib.layers.variance_scaling_initializer",
                                               "variance_scaling", "keras.initializers.VarianceScaling"):
            return self.initializer(n, a, k)
        hook = getattr(self, "unknown_call", None)
        if hook is not None:
            r = hook(name, a, k)
            if r is not UNBOUND:
                return r
        raise Undecided("library function %s at %s" % (name, I.site))

    def tnum(self, x, other=None):
        if x is None:
            self.I.raise_("ValueError", "None values not supported by tensors")
        if isinstance(x, TNode):
            return x
        if isinstance(other, TNode):
            if self.is_arr(x):
                d = self.dtype_of(self.I.get(x).dtype)
                return self.I.graph.const(x, dtype=other.dtype)
            if isinstance(x, float) and other.dtype is not None and other.dtype.name.startswith(("int", "uint")):
                self.I.event("dtype_mismatch", op="python float", dtypes=[other.dtype])
                self.I.raise_("TypeError", "float with an integer tensor")
            return self.I.graph.as_node(x, other) if not self.I.graph.has_node(x) else self.I.graph.as_node(x)
        if self.I.graph.has_node(x):
            return self.I.graph.as_node(x)
        return self.I.graph.const(x, dtype=self.lit_dtype(x, None))

    def initializer(self, n, a, k):
        n = n.split(".")[-1]
        I = self.I
        pos = list(a)
        if n.startswith("zeros"):
            fill = 0
        elif n.startswith("ones"):
            fill = 1
        elif n.startswith("constant"):
            fill = pos[0] if pos else k.get("value", 0)
        else:
            fill = None
        info = {"name": n, "args": pos, "kw": dict(k)}

        def call(I_, b, kk):
            p = P(b, kk, "shape dtype=None partition_info=None")
            shape = self.dims(p.shape)
            dt = self.dtype_of(p.dtype) or self.dtype_of(k.get("dtype"))
            if fill is not None:
                return I.graph.node("fill", [], lambda: ops.full(shape, tm.term(self.scalar(fill))), {}, dt, shape)
            zero, one = I.graph.const(0, dtype=dt), I.graph.const(1, dtype=dt)
            return I.graph.node("random_init", [zero, one], None, {"init": info, "seed": k.get("seed")}, dt, shape)
        return Opq("initializer:" + n, "initializer", attrs=info, call=call)

    def tf_f_constant(self, a, k):
        p = P(a, k, "value dtype=None shape=None name=None verify_shape=False")
        if self.I.graph.has_node(p.value):
            if isinstance(p.value, TNode):
                self.I.raise_("TypeError", "constant of a tensor")
            raise Undecided("constant of tensors")
        if isinstance(p.value, (DType, Class, Func)):
            self.I.raise_("TypeError", "constant of %r" % (p.value,))
        d = self.to_array(p.value)
        if p.shape is not None:
            sh = self.dims(p.shape)
            d = ops.full(sh, d.reshape(-1)[0]) if d.size == 1 else self.shp(lambda: ops.reshape(d, sh))
        return self.I.graph.const(d, dtype=self.lit_dtype(p.value, p.dtype), name=p.name)

    def tf_f_convert_to_tensor(self, a, k):
        p = P(a, k, "value dtype=None name=None preferred_dtype=None", ignore=("dtype_hint",))
        v = p.value
        self.no_ref(p.dtype)
        dt = self.dtype_of(p.dtype)
        if isinstance(v, TNode):
            if dt is not None and v.dtype is not None and dt is not v.dtype:
                self.I.event("dtype_mismatch", op="convert_to_tensor", dtypes=[dt, v.dtype])
                self.I.raise_("ValueError", "dtype of a converted tensor")
            if v.is_var():
                return self.I.graph.op("identity", [v], ops.identity)
            return v
        if self.I.graph.has_node(v):
            return self.I.graph.as_node(v)
        return self.I.graph.const(v, dtype=self.lit_dtype(v, p.dtype), name=p.name)

    def tf_f_cast(self, a, k):
        p = P(a, k, "x dtype name=None")
        dt = self.dtype_of(p.dtype)
        f = UN["trunc"] if dt is not None and dt.name.startswith(("int", "uint")) else ops.identity
        if dt is not None and dt.name.startswith("float"):
            f = ops.ew(lambda t: tm.ite(t, 1, 0) if t.sort == "bool" else t, 1)
        x = self.tnum(p.x)
        return self.I.graph.op("cast", [x], f, dtype=dt, label=p.name)

    def tf_f_to_float(self, a, k):
        return self.tf_f_cast([P(a, k, "x name=None").x, DType("float32")], {})

    def tf_f_to_double(self, a, k):
        return self.tf_f_cast([P(a, k, "x name=None").x, DType("float64")], {})

    def tf_f_to_int32(self, a, k):
        return self.tf_f_cast([P(a, k, "x name=None").x, DType("int32")], {})

    def tf_f_to_int64(self, a, k):
        return self.tf_f_cast([P(a, k, "x name=None").x, DType("int64")], {})

    def tf_f_reshape(self, a, k):
        p = P(a, k, "tensor shape name=None")
        sh = self.dims(p.shape)
        return self.I.graph.op("reshape", [self.tnum(p.tensor)], lambda x: ops.reshape(x, sh), label=p.name)

    def tf_f_squeeze(self, a, k):
        p = P(a, k, "input axis=None name=None squeeze_dims=None")
        ax = self.axis_of(p.axis if p.axis is not None else p.squeeze_dims)
        return self.I.graph.op("squeeze", [p.input], lambda x: ops.squeeze(x, ax))

    def tf_f_expand_dims(self, a, k):
        p = P(a, k, "input axis=None name=None dim=None")
        ax = self.intval(p.axis if p.axis is not None else p.dim)
        return self.I.graph.op("expand_dims", [self.tnum(p.input)], lambda x: ops.expand_dims(x, ax))

    def tf_f_transpose(self, a, k):
        p = P(a, k, "a perm=None name=None conjugate=False")
        perm = None if p.perm is None else self.dims(p.perm)
        return self.I.graph.op("transpose", [self.tnum(p.a)], lambda x: ops.transpose(x, perm))

    def tf_f_matrix_transpose(self, a, k):
        p = P(a, k, "a name=None")
        return self.I.graph.op("transpose", [p.a], lambda x: np.swapaxes(ops.A(x), -1, -2))

    def tensors(self, v):
        if isinstance(v, TNode):
            return [self.tf_getitem(v, i) for i in range(v.shape[0])]
        return self.I.items_of(v)

    def same_like(self, xs):
        like = next((x for x in xs if isinstance(x, TNode)), None)
        return [x if isinstance(x, TNode) else self.tnum(x, like) for x in xs]

    def tf_f_concat(self, a, k):
        p = P(a, k, "values axis name=None")
        xs = self.same_like(self.tensors(p.values))
        ax = self.intval(p.axis)
        return self.I.graph.op("concat", xs, lambda *v: ops.concat(v, ax), label=p.name)

    def tf_f_stack(self, a, k):
        p = P(a, k, "values axis=0 name=None")
        if isinstance(p.values, TNode) and self.intval(p.axis) == 0:
            return p.values if not p.values.is_var() else self.I.graph.op("identity", [p.values], ops.identity)
        xs = self.same_like(self.I.items_of(p.values))
        ax = self.intval(p.axis)
        return self.I.graph.op("stack", xs, lambda *v: ops.stack(v, ax), label=p.name)

    def tf_f_unstack(self, a, k):
        p = P(a, k, "value num=None axis=0 name=None")
        v, ax = self.tnum(p.value), self.intval(p.axis)
        n = v.shape[ax]
        return self.I.list_([self.I.graph.op("getitem", [v], lambda x, j=j: ops.A(np.take(x, j, axis=ax)))
                             for j in range(n)])

    def tf_f_split(self, a, k):
        p = P(a, k, "value num_or_size_splits axis=0 num=None name=None")
        v, ax = self.tnum(p.value), self.intval(p.axis)
        n = v.shape[ax]
        if isinstance(p.num_or_size_splits, (int, T)):
            m = self.intval(p.num_or_size_splits)
            sizes = [n // m] * m
        else:
            sizes = [self.intval(x) for x in self.I.items_of(p.num_or_size_splits)]
        out, s = [], 0
        for z in sizes:
            sl = tuple([slice(None)] * (ax % len(v.shape)) + [slice(s, s + z)])
            out.append(self.I.graph.op("getitem", [v], lambda x, sl=sl: ops.A(x[sl])))
            s += z
        return self.I.list_(out)

    def tf_f_slice(self, a, k):
        p = P(a, k, "input_ begin size name=None")
        b, s = self.dims(p.begin), self.dims(p.size)
        sl = tuple(slice(i, None if z == -1 else i + z) for i, z in zip(b, s))
        return self.I.graph.op("getitem", [p.input_], lambda x: ops.A(x[sl]))

    def tf_f_tile(self, a, k):
        p = P(a, k, "input multiples name=None")
        r = self.dims(p.multiples)
        return self.I.graph.op("tile", [self.tnum(p.input)], lambda x: ops.tile(x, r))

    def tf_f_fill(self, a, k):
        p = P(a, k, "dims value name=None")
        sh = self.dims(p.dims)
        return self.I.graph.op("fill", [self.tnum(p.value)], lambda v: ops.full(sh, ops.A(v)[()]))

    def filled_tf(self, a, k, v):
        p = P(a, k, "shape dtype=None name=None")
        sh = self.dims(p.shape)
        return self.I.graph.node("fill", [], lambda: ops.full(sh, v), {}, self.dtype_of(p.dtype) or DType("float32"),
                                 sh, p.name)

    def tf_f_zeros(self, a, k):
        return self.filled_tf(a, k, 0)

    def tf_f_ones(self, a, k):
        return self.filled_tf(a, k, 1)

    def like_tf(self, a, k, v):
        p = P(a, k, "tensor dtype=None name=None optimize=True", ignore=("input",))
        x = self.tnum(p.tensor)
        return self.I.graph.op("like", [x], lambda t: ops.full(ops.A(t).shape, v),
                               dtype=self.dtype_of(p.dtype) or x.dtype, label=p.name)

    def tf_f_zeros_like(self, a, k):
        return self.like_tf(a, k, 0)

    def tf_f_ones_like(self, a, k):
        return self.like_tf(a, k, 1)

    def tf_f_eye(self, a, k):
        p = P(a, k, "num_rows num_columns=None batch_shape=None dtype=None name=None")
        n = self.intval(p.num_rows)
        m = n if p.num_columns is None else self.intval(p.num_columns)
        d = ops.A(np.eye(n, m).astype(int))
        return self.I.graph.const(d, dtype=self.dtype_of(p.dtype) or DType("float32"))

    def tf_f_shape(self, a, k):
        p = P(a, k, "input name=None out_type=None")
        return self.I.graph.op("shape", [self.tnum(p.input)],
                               lambda x: ops.A(list(int(s) for s in ops.A(x).shape)), dtype=DType("int32"))

    def tf_f_size(self, a, k):
        p = P(a, k, "input name=None out_type=None")
        return self.I.graph.op("size", [self.tnum(p.input)], lambda x: ops.A(int(ops.A(x).size)), dtype=DType("int32"))

    def tf_f_rank(self, a, k):
        p = P(a, k, "input name=None")
        return self.I.graph.op("rank", [self.tnum(p.input)], lambda x: ops.A(ops.A(x).ndim), dtype=DType("int32"))

    def tf_f_gather(self, a, k):
        p = P(a, k, "params indices validate_indices=None name=None axis=0 batch_dims=0")
        ax = self.intval(p.axis) if p.axis is not None else 0
        x = self.tnum(p.params)
        return self.I.graph.op("gather", [x, self.tnum(p.indices)], lambda v, i: gather(v, i, ax), dtype=x.dtype)

    def tf_f_matmul(self, a, k):
        p = P(a, k, "a b transpose_a=False transpose_b=False name=None", ignore=("adjoint_a", "adjoint_b"))
        x, y = self.tnum(p.a, p.b), self.tnum(p.b, p.a)
        for z in (x, y):
            if z.shape is not None and len(z.shape) < 2:
                self.I.raise_("ValueError", "matmul needs rank 2")
        ta, tb = bool(p.transpose_a), bool(p.transpose_b)
        return self.I.graph.op("matmul", [x, y], lambda u, v: ops.matmul(u, v, ta, tb), label=p.name)

    def tf_f_tensordot(self, a, k):
        p = P(a, k, "a b axes name=None")
        if isinstance(p.axes, int):
            ax = p.axes
        else:
            ax = [self.axis_of(x) for x in self.I.items_of(p.axes)]

        def f(u, v):
            try:
                return ops.A(np.tensordot(u, v, axes=ax))
            except (ValueError, IndexError) as e:
                raise ops.ShapeError(str(e))
        return self.I.graph.op("matmul", [self.tnum(p.a, p.b), self.tnum(p.b, p.a)], f)

    def tf_f_einsum(self, a, k):
        spec, xs = a[0], self.same_like(list(a[1:]))
        return self.I.graph.op("einsum", xs, lambda *v: ops.einsum(spec, *v))

    def tf_f_norm(self, a, k):
        p = P(a, k, "tensor ord='euclidean' axis=None keepdims=None name=None keep_dims=None")
        ax, kd = self.axis_of(p.axis), bool(p.keepdims or p.keep_dims)
        if p.ord in ("euclidean", 2, None, 2.0):
            return self.I.graph.op("norm", [self.tnum(p.tensor)], lambda x: ops.norm(x, ax, kd), label=p.name)
        if p.ord == 1:
            return self.I.graph.op("norm", [self.tnum(p.tensor)], lambda x: ops.reduce_sum(UN["abs"](x), ax, kd))
        raise Undecided("norm order %r" % (p.ord,))

    def tf_f_l2_loss(self, a, k):
        p = P(a, k, "t name=None")
        return self.I.graph.op("l2_loss", [p.t], lambda x: ops.div(ops.reduce_sum(ops.square(x)), 2))

    def tf_f_top_k(self, a, k):
        p = P(a, k, "input k=1 sorted=True name=None")
        n = self.static_int(p.k) if isinstance(p.k, TNode) else self.intval(p.k)
        x = self.tnum(p.input)
        v = self.I.graph.op("top_k", [x], lambda t: ops.top_k(t, n))

        def idx(t):
            t = ops.A(t)
            out = np.empty(t.shape[:-1] + (n,), dtype=object)
            for i in np.ndindex(out.shape):
                out[i] = tm.uf("top_k_index", *(list(t[i[:-1]]) + [i[-1]]), sort="int")
            return out
        ix = self.I.graph.op("top_k_idx", [x], idx, dtype=DType("int32"))
        return NT(("values", "indices"), (v, ix))

    def tf_f_sort(self, a, k):
        p = P(a, k, "values axis=-1 direction='ASCENDING' name=None")
        ax, d = self.intval(p.axis), p.direction == "DESCENDING"
        return self.I.graph.op("sort", [p.values], lambda x: ops.sort(x, ax, d))

    tf_f_contrib_framework_sort = tf_f_sort

    def tf_f_reverse(self, a, k):
        p = P(a, k, "tensor axis name=None")
        ax = self.axis_of(p.axis)
        return self.I.graph.op("getitem", [p.tensor], lambda x: ops.A(np.flip(x, ax)))

    def tf_f_cumsum(self, a, k):
        p = P(a, k, "x axis=0 exclusive=False reverse=False name=None")
        if p.exclusive or p.reverse:
            raise Undecided("cumsum")
        ax = self.intval(p.axis)
        return self.I.graph.op("cumsum", [p.x], lambda x: ops.A(np.cumsum(x, axis=ax)))

    def tf_f_dynamic_stitch(self, a, k):
        p = P(a, k, "indices data name=None")
        data = self.same_like(self.I.items_of(p.data))
        idx = []
        for i in self.I.items_of(p.indices):
            arr = self.static_array(i) if isinstance(i, TNode) else self.to_array(i)
            idx.append(np.array([self.intval(x) for x in arr.flat], dtype=int).reshape(arr.shape))
        return self.I.graph.op("dynamic_stitch", data, lambda *v: ops.dynamic_stitch(idx, v), label=p.name)

    def tf_f_scatter_nd(self, a, k):
        p = P(a, k, "indices updates shape name=None")
        arr = self.static_array(p.indices)
        ix = np.array([self.intval(x) for x in arr.flat], dtype=int).reshape(arr.shape)
        sh = self.dims(p.shape)

        def f(u):
            out = ops.full(sh, 0)
            for i in np.ndindex(ix.shape[:-1]):
                key = tuple(int(z) for z in ix[i])
                out[key] = ops.add(out[key], u[i]) if not isinstance(out[key], T) else tm.add(out[key], u[i])
            return out
        return self.I.graph.op("scatter_nd", [self.tnum(p.updates)], f)

    def tf_f_diag(self, a, k):
        x = self.tnum(a[0] if a else k["diagonal"])

        def f(v):
            v = ops.A(v)
            out = ops.full((v.shape[0], v.shape[0]), 0)
            for i in range(v.shape[0]):
                out[i, i] = v[i]
            return out
        return self.I.graph.op("diag", [x], f)

    def tf_f_diag_part(self, a, k):
        x = self.tnum(a[0] if a else k["input"])
        return self.I.graph.op("getitem", [x], lambda v: ops.A(np.diagonal(v)))

    tf_f_matrix_diag_part = tf_f_diag_part
    tf_f_matrix_diag = tf_f_diag

    def tf_f_matrix_band_part(self, a, k):
        p = P(a, k, "input num_lower num_upper name=None")
        lo, up = self.intval(p.num_lower), self.intval(p.num_upper)

        def f(v):
            v = ops.A(v).copy()
            for i in range(v.shape[0]):
                for j in range(v.shape[1]):
                    if (lo >= 0 and i - j > lo) or (up >= 0 and j - i > up):
                        v[i, j] = tm.const(0)
            return v
        return self.I.graph.op("band", [self.tnum(p.input)], f)

    def tf_f_matrix_set_diag(self, a, k):
        p = P(a, k, "input diagonal name=None")

        def f(v, d):
            v = ops.A(v).copy()
            for i in range(min(v.shape)):
                v[i, i] = d[i]
            return v
        return self.I.graph.op("set_diag", [self.tnum(p.input), self.tnum(p.diagonal)], f)

    def tf_f_trace(self, a, k):
        return self.I.graph.op("trace", [a[0]], lambda v: ops.reduce_sum(np.diagonal(v)))

    def tf_f_range(self, a, k):
        p = P(a, k, "start limit=None delta=1 dtype=None name=None")
        f = lambda x: self.static_int(x) if isinstance(x, TNode) else self.intval(x)
        s, l, d = f(p.start), None if p.limit is None else f(p.limit), f(p.delta)
        if l is None:
            s, l = 0, s
        return self.I.graph.const(ops.A(list(range(s, l, d))), dtype=self.dtype_of(p.dtype) or DType("int32"))

    def tf_f_linspace(self, a, k):
        p = P(a, k, "start stop num name=None")
        n = self.intval(p.num)
        return self.I.graph.op("linspace", [self.tnum(p.start), self.tnum(p.stop)],
                               lambda s, e: ops.A([ops.add(s, ops.mul(ops.sub(e, s), tm.div(i, n - 1)))[()] for i in range(n)]))

    def tf_f_where(self, a, k):
        p = P(a, k, "condition x=None y=None name=None")
        if p.x is None:
            raise Undecided("where with one argument")
        return self.I.graph.op("where", [self.tnum(p.condition), self.tnum(p.x, p.y), self.tnum(p.y, p.x)], ops.where,
                               dtype=self.tnum(p.x, p.y).dtype)

    def tf_f_cond(self, a, k):
        p = P(a, k, "pred true_fn=None false_fn=None strict=False name=None fn1=None fn2=None")
        t, f = p.true_fn or p.fn1, p.false_fn or p.fn2
        x, y = self.I.call(t, [], {}), self.I.call(f, [], {})
        if any(n.op in tfgraph.WRITES for n in (x, y) if isinstance(n, TNode)):
            raise Undecided("cond over assignments")
        return self.tf_f_where([p.pred, x, y], {})

    def tf_f_clip_by_value(self, a, k):
        p = P(a, k, "t clip_value_min clip_value_max name=None")
        t = self.tnum(p.t)
        return self.I.graph.op("clip", [t, self.tnum(p.clip_value_min, t), self.tnum(p.clip_value_max, t)],
                               ops.clip, label=p.name)

    def tf_f_add_n(self, a, k):
        p = P(a, k, "inputs name=None")
        xs = self.same_like(self.tensors(p.inputs))
        out = xs[0]
        for x in xs[1:]:
            out = self.call_tf("tensorflow.add", [out, x], {})
        return out if len(xs) > 1 else self.I.graph.op("identity", [out], ops.identity)

    tf_f_accumulate_n = tf_f_add_n

    def tf_f_softmax(self, a, k):
        p = P(a, k, "logits axis=-1 name=None")
        ax = self.intval(p.axis)

        def f(x):
            e = UN["exp"](x)
            return ops.div(e, ops.reduce_sum(e, ax, True))
        return self.I.graph.op("softmax", [p.logits], f)

    def tf_f_moments(self, a, k):
        p = P(a, k, "x axes", ignore=("name", "keepdims", "keep_dims"))
        ax, kd = self.axis_of(p.axes), bool(k.get("keepdims") or k.get("keep_dims"))
        return (self.I.graph.op("reduce_mean", [p.x], lambda v: ops.reduce_mean(v, ax, kd)),
                self.I.graph.op("variance", [p.x], lambda v: ops.variance(v, ax, kd)))

    def argop(self, name, a, k):
        p = P(a, k, "input axis=None name=None dimension=None output_type=None")
        ax = self.axis_of(p.axis if p.axis is not None else p.dimension)
        return self.I.graph.op(name, [p.input], lambda x: ops.arg(name)(x, 0 if ax is None else ax), dtype=DType("int64"))

    def tf_f_argmin(self, a, k):
        return self.argop("argmin", a, k)

    def tf_f_argmax(self, a, k):
        return self.argop("argmax", a, k)

    def tf_f_map_fn(self, a, k):
        p = P(a, k, "fn elems dtype=None", ignore=("parallel_iterations", "back_prop", "swap_memory",
                                                   "infer_shape", "name", "fn_output_signature"))
        el = p.elems
        if not isinstance(el, TNode):
            raise Undecided("map_fn over %r" % (el,))
        outs = []
        for j in range(el.shape[0]):
            r = self.I.call(p.fn, [self.tf_getitem(el, j)], {})
            if not isinstance(r, TNode):
                r = self.tnum(r)
            if p.dtype is None and r.dtype is not None and el.dtype is not None and r.dtype is not el.dtype:
                self.I.event("dtype_mismatch", op="map_fn", dtypes=[r.dtype, el.dtype])
                self.I.raise_("TypeError", "map_fn result dtype")
            outs.append(r)
        return self.I.graph.op("stack", outs, lambda *v: ops.stack(v, 0))

    # random
    def no_ref(self, dt):
        """Values cannot be converted to a reference type."""
        if isinstance(dt, DType) and dt.name.endswith("_ref"):
            self.I.raise_("RuntimeError", "conversion to type %s" % dt.name)

    def rand(self, op, p, m, s):
        self.no_ref(p.dtype)
        dt = self.dtype_of(p.dtype) or DType("float32")
        sh = self.dims(p.shape)
        f = lambda v: self.I.graph.as_node(v) if isinstance(v, TNode) else self.I.graph.const(v, dtype=dt)
        n = self.I.graph.node(op, [f(m), f(s)], None, {"seed": p.seed}, dt, sh, p.name)
        self.I.event("random", node=n, seed=p.seed, shape=sh, op=op)
        return n

    def tf_f_random_normal(self, a, k):
        p = P(a, k, "shape mean=0.0 stddev=1.0 dtype=None seed=None name=None")
        return self.rand("random_normal", p, p.mean, p.stddev)

    def tf_f_truncated_normal(self, a, k):
        p = P(a, k, "shape mean=0.0 stddev=1.0 dtype=None seed=None name=None")
        return self.rand("truncated_normal", p, p.mean, p.stddev)

    def tf_f_random_uniform(self, a, k):
        p = P(a, k, "shape minval=0 maxval=1 dtype=None seed=None name=None")
        return self.rand("random_uniform", p, p.minval, self.I.binop("Sub", p.maxval, p.minval))

    def tf_f_set_random_seed(self, a, k):
        self.I.event("graph_seed", seed=a[0] if a else k.get("seed"))
        return None

    # state
    def tf_f_Variable(self, a, k):
        I = self.I
        p = P(a, k, "initial_value=None trainable=None collections=None validate_shape=True caching_device=None "
                    "name=None variable_def=None dtype=None", ignore=("expected_shape", "import_scope", "constraint",
                                                                     "use_resource", "synchronization", "aggregation", "shape"))
        v = p.initial_value
        if isinstance(v, (Func, Native, Bound)):
            v = I.call(v, [], {})
        if v is None:
            I.raise_("ValueError", "initial_value must be specified")
        self.no_ref(p.dtype)
        dt = self.dtype_of(p.dtype)
        if isinstance(v, TNode):
            if v.is_var():
                v = I.graph.op("identity", [v], ops.identity)
        elif I.graph.has_node(v):
            v = I.graph.as_node(v)
        else:
            v = I.graph.const(v, dtype=self.lit_dtype(v, p.dtype))
        n = I.graph.variable(v, dt, p.name, True if p.trainable is None else p.trainable)
        n.attrs["collections"] = p.collections
        I.event("variable", var=n, name=p.name)
        return n

    def tf_f_get_variable(self, a, k):
        I = self.I
        p = P(a, k, "name shape=None dtype=None initializer=None regularizer=None trainable=None", ignore=(
            "collections", "caching_device", "partitioner", "validate_shape", "use_resource", "constraint"))
        scope = "/".join(self.name_stack)
        full = (scope + "/" if scope else "") + self.text(p.name)
        key = (self.cur_graph().name, full)
        I.event("get_variable", name=full, key=key)
        if key in self.var_names:
            I.raise_("ValueError", "variable %s already exists" % full)
        self.var_names[key] = True
        init = p.initializer
        dt = self.dtype_of(p.dtype)
        if isinstance(init, Opq) and init.typ == "initializer" or isinstance(init, (Func, Native)):
            init = I.call(init, [p.shape], {"dtype": dt} if dt else {})
        if init is None:
            init = self.initializer("glorot_uniform", [], {}).call(I, [p.shape], {"dtype": dt})
        return self.tf_f_Variable([init], {"name": full, "trainable": p.trainable, "dtype": p.dtype})

    def tf_f_placeholder(self, a, k):
        p = P(a, k, "dtype shape=None name=None")
        g = self.I.graph
        if p.shape is None:
            sh = g.unknown_shape
        else:
            sh = tuple(g.none_dim if x is None else (x if isinstance(x, tuple) else self.intval(x))
                       for x in self.I.items_of(p.shape))
            if any(isinstance(x, tuple) for x in sh):
                self.I.raise_("TypeError", "placeholder shape %r" % (sh,))
        n = g.placeholder(self.dtype_of(p.dtype), sh, p.name)
        n.attrs["declared"] = p.shape
        self.I.event("placeholder", node=n)
        return n

    def tf_f_placeholder_with_default(self, a, k):
        p = P(a, k, "input shape=None name=None")
        return self.I.graph.op("identity", [self.tnum(p.input)], ops.identity, label=p.name)

    def tf_f_assign(self, a, k):
        p = P(a, k, "ref value validate_shape=None use_locking=None name=None")
        return self.I.graph.assign("assign", p.ref, p.value, p.name)

    def tf_f_assign_add(self, a, k):
        p = P(a, k, "ref value use_locking=None name=None")
        return self.I.graph.assign("assign_add", p.ref, p.value, p.name)

    def tf_f_assign_sub(self, a, k):
        p = P(a, k, "ref value use_locking=None name=None")
        return self.I.graph.assign("assign_sub", p.ref, p.value, p.name)

    def ctrl_nodes(self, v):
        out = []
        for x in self.I.items_of(v):
            if isinstance(x, TNode):
                out.append(x)
            elif isinstance(x, Opq) and "node" in x.attrs:
                out.append(x.attrs["node"])
            elif isinstance(x, tuple) or isinstance(x, Ref) and x.kind == "list":
                out.extend(self.ctrl_nodes(x))
            elif x is None:
                self.I.raise_("TypeError", "None control input")
            else:
                raise Undecided("control input %r" % (x,))
        return out

    def tf_f_group(self, a, k):
        g = self.I.graph
        n = g.node("group", [], lambda: ops.A(0), {}, shape=())
        for x in a:
            n.ctrl = n.ctrl + (self.ctrl_nodes((x,)))
        return n

    def tf_f_no_op(self, a, k):
        return self.I.graph.node("group", [], lambda: ops.A(0), {}, shape=())

    def tf_f_tuple(self, a, k):
        p = P(a, k, "tensors name=None control_inputs=None")
        xs = self.I.items_of(p.tensors)
        g = self.I.graph
        gate = self.tf_f_group(list(xs), {})
        out = []
        for x in xs:
            n = g.op("identity", [x], ops.identity)
            n.ctrl = n.ctrl + [gate]
            out.append(n)
        return self.I.list_(out)

    def tf_f_with_dependencies(self, a, k):
        p = P(a, k, "dependencies output_tensor name=None")
        n = self.I.graph.op("identity", [p.output_tensor], ops.identity)
        n.ctrl = n.ctrl + self.ctrl_nodes(p.dependencies)
        return n

    def tf_f_control_dependencies(self, a, k):
        v = a[0] if a else k.get("control_inputs")
        if v is None:
            raise Undecided("control_dependencies(None)")
        return Opq("control_dependencies", "ctrl", attrs={"nodes": self.ctrl_nodes(v)})

    def tf_f_name_scope(self, a, k):
        return Opq("name_scope", "scope", attrs={"value": a[0] if a else None})

    def tf_f_variable_scope(self, a, k):
        s = a[0] if a else k.get("name_or_scope", k.get("default_name"))
        return Opq("variable_scope", "scope", attrs={"value": s, "scope_name": self.text(s) if s is not None else ""})

    def tf_f_device(self, a, k):
        return Opq("device", "scope")

    tf_f_colocate_with = tf_f_device

    def tf_f_gradients(self, a, k):
        p = P(a, k, "ys xs grad_ys=None", ignore=("name", "colocate_gradients_with_ops", "gate_gradients",
                                                  "aggregation_method", "stop_gradients"))
        if p.grad_ys is not None:
            raise Undecided("grad_ys")
        self.I.event("gradients", ys=p.ys, xs=p.xs)
        out = []
        ys = self.I.graph.flat(p.ys)
        for x in self.I.graph.flat(p.xs):
            if not any(self.depends(y, x) for y in ys):
                out.append(None)
            else:
                out.append(self.I.graph.gradients(self.I.list_(ys), x)[0])
        return self.I.list_(out)

    def depends(self, y, x):
        seen, todo = set(), [y]
        while todo:
            n = todo.pop()
            if n is x:
                return True
            if n in seen:
                continue
            seen.add(n)
            todo.extend(n.inputs)
        return False

    def tf_f_Session(self, a, k):
        p = P(a, k, "target='' graph=None config=None")
        return self.new_session(p.graph)

    def tf_f_InteractiveSession(self, a, k):
        p = P(a, k, "target='' graph=None config=None")
        s = self.new_session(p.graph, "interactive_session")
        self.I.event("global_effect", what="tensorflow.InteractiveSession installs a default session")
        self.default_session = s
        return s

    def tf_f_ConfigProto(self, a, k):
        return Opq("ConfigProto", attrs={})

    tf_f_GPUOptions = tf_f_ConfigProto

    def tf_f_get_default_session(self, a, k):
        self.I.event("get_default_session")
        return self.default_session

    def tf_f_Graph(self, a, k):
        return self.new_graph()

    def tf_f_get_default_graph(self, a, k):
        return self.cur_graph()

    def tf_f_reset_default_graph(self, a, k):
        self.graph_stack[-1] = self.new_graph()
        return None

    def tf_f_trainable_variables(self, a, k):
        self.I.event("trainable_variables")
        return self.variables(True)

    def tf_f_global_variables(self, a, k):
        return self.variables(None)

    def tf_f_get_collection(self, a, k):
        key = a[0] if a else k.get("key")
        n = key.name if isinstance(key, Lib) else str(key)
        if "TRAINABLE" in n.upper():
            return self.variables(True)
        if "GLOBAL_VARIABLES" in n.upper() or n == "variables":
            return self.variables(None)
        return self.I.list_([])

    def tf_f_global_variables_initializer(self, a, k):
        n = self.init_node(self.I.items_of(self.variables(None)))
        n.attrs["all"] = True
        return n

    def tf_f_variables_initializer(self, a, k):
        p = P(a, k, "var_list name=None")
        vs = self.I.items_of(p.var_list)
        for v in vs:
            if not (isinstance(v, TNode) and v.is_var()):
                self.I.raise_("AttributeError", "initializer of something that is not a variable")
        return self.init_node(vs)

    def tf_f_is_variable_initialized(self, a, k):
        v = a[0] if a else k["variable"]
        if not (isinstance(v, TNode) and v.is_var()):
            self.I.raise_("TypeError", "not a variable")
        return self.I.graph.node("is_init", [], None, {"var": v}, DType("bool"), ())

    def tf_f_report_uninitialized_variables(self, a, k):
        raise Undecided("report_uninitialized_variables")

    def tf_f_layers_dense(self, a, k):
        p = P(a, k, "inputs units activation=None use_bias=True kernel_initializer=None bias_initializer=None",
              ignore=("kernel_regularizer", "bias_regularizer", "activity_regularizer", "kernel_constraint",
                      "bias_constraint", "trainable", "name", "reuse"))
        I = self.I
        x = self.tnum(p.inputs)
        units = self.intval(p.units)
        name = k.get("name") or "dense_%d" % len(I.graph.nodes)
        ki = p.kernel_initializer if p.kernel_initializer is not None else self.initializer("glorot_uniform", [], {})
        bi = p.bias_initializer if p.bias_initializer is not None else self.initializer("zeros_initializer", [], {})
        kd = {"dtype": x.dtype}
        kernel = self.tf_f_get_variable([], {"name": name + "/kernel", "initializer": I.call(ki, [(x.shape[-1], units)], dict(kd))})
        out = self.tf_f_matmul([x, kernel], {})
        if p.use_bias:
            bias = self.tf_f_get_variable([], {"name": name + "/bias", "initializer": I.call(bi, [(units,)], dict(kd))})
            out = self.call_tf("tensorflow.add", [out, bias], {})
        if p.activation is not None:
            out = I.call(p.activation, [out], {})
        I.event("dense", units=units, kernel=kernel)
        return out

    def tf_f_Print(self, a, k):
        return a[0]

    def tf_f_is_nan(self, a, k):
        return self.I.graph.op("is_nan", [a[0]], lambda x: ops.full(ops.A(x).shape, False), dtype=DType("bool"))

    def tf_f_is_finite(self, a, k):
        return self.I.graph.op("is_finite", [a[0]], lambda x: ops.full(ops.A(x).shape, True), dtype=DType("bool"))

    tf_f_is_inf = tf_f_is_nan

    def tf_f_broadcast_to(self, a, k):
        p = P(a, k, "input shape name=None")
        sh = self.dims(p.shape)
        return self.I.graph.op("tile", [self.tnum(p.input)], lambda x: ops.A(np.broadcast_to(ops.A(x), sh)))

    def tf_f_is_tensor(self, a, k):
        return isinstance(a[0], TNode)

    tf_f_contrib_framework_is_tensor = tf_f_is_tensor

    def tf_f_TensorShape(self, a, k):
        return Shape(self.dims(a[0]))

    def tf_f_as_dtype(self, a, k):
        return self.dtype_of(a[0])

    tf_f_dtypes_as_dtype = tf_f_as_dtype

    def tf_f_logging_set_verbosity(self, a, k):
        return None

    # ------------------------------------------------------------ running

    def session_run(self, session, a, k):
        try:
            return self.session_run_(session, a, k)
        except ops.ShapeError as e:
            self.I.event("shape_error", op="run", why=str(e))
            self.I.raise_("InvalidArgumentError", "shapes at run time: %s" % e)

    def session_run_(self, session, a, k):
        I = self.I
        p = P(a, k, "fetches feed_dict=None options=None run_metadata=None")
        feeds, keys = {}, []
        if p.feed_dict is not None:
            for kk, v in self.dict_items(p.feed_dict):
                keys.append((kk, v))
        ev = I.event("run", session=session, fetches=p.fetches, feeds=keys, feed_ref=p.feed_dict)
        if self.run_hook is not None:
            r = self.run_hook(I, ev)
            if r is not UNBOUND:
                ev.data["result"] = r
                return r
        if I.items_of(session.attrs["closed"])[0] is True:
            I.raise_("RuntimeError", "Attempted to use a closed Session.")
        fetch = []
        self.flat_fetch(p.fetches, fetch)
        for kk, v in keys:
            if not isinstance(kk, TNode):
                I.raise_("TypeError", "feed_dict key is not a tensor")
            if isinstance(v, TNode):
                I.raise_("TypeError", "a fed value cannot be a tensor")
            arr = self.to_array(v)
            feeds[kk] = arr
            if kk.shape is not None and tuple(kk.shape) != arr.shape and kk.op != "placeholder":
                I.event("shape_error", op="feed", why="%s <- %s" % (kk.shape, arr.shape))
                I.raise_("ValueError", "cannot feed value of shape %s" % (arr.shape,))
            dec = kk.attrs.get("declared") if kk.op == "placeholder" else None
            if dec is not None:
                dims = [self.intval(x) if x is not None and self.isint(x) else None for x in I.items_of(dec)]
                if len(dims) != len(arr.shape) or any(x is not None and isinstance(y, int) and x != y for x, y in zip(dims, arr.shape)):
                    I.event("shape_error", op="feed", why="%s <- %s" % (dims, arr.shape))
                    I.raise_("ValueError", "cannot feed value of shape %s" % (arr.shape,))
        self.n_runs += 1
        tag = "run%d" % self.n_runs
        c = I.get(self.state_of(session))
        state = dict(c.vars)
        step = tfgraph.Step(I.graph, [n for n in fetch if n.op not in ("init", "group")], feeds, state, tag)
        step.fetches_all = fetch
        step.executed = step.closure(fetch)
        inits = [n for n in step.executed if n.op == "init"]
        for n in inits:
            order = list(n.attrs["vars"])
            new = {}
            for v in order:
                if v.graph is not session.attrs.get("graph"):
                    I.event("foreign_graph", node=v)
                ini = tfgraph.InitStep(I.graph, v)
                ini.cur = state
                new[v] = ini.value_of(v)
            state.update(new)
            I.event("initialise", vars=order)
        for n in step.executed:
            if session.attrs.get("graph") is not None and n.graph is not session.attrs["graph"]:
                I.event("foreign_graph", node=n)
                I.raise_("ValueError", "tensor is not an element of the session's graph")
        for n in step.executed:
            if (n.op in tfgraph.WRITES or n.op == "initialized_value") and n not in step.feeds and n.inputs[0] in feeds:
                # a fed variable is a value: there is nothing to write to, or to ask whether it is initialised
                I.event("fed_reference", node=n)
                I.raise_("InvalidArgumentError", "%s of a variable that is fed" % n.op)
        step.state = state
        step.writes = {}
        for n in step.executed:
            if n.op in tfgraph.WRITES and n not in step.feeds:
                step.writes.setdefault(n.inputs[0], []).append(n)
        vals, new = step.run()
        I.put(self.state_of(session), StateC(new))
        ev.data["step"] = step
        if step.races:
            I.event("race", races=list(step.races), step=step)
        table = {}
        for n, v in zip([n for n in fetch if n.op not in ("init", "group")], vals):
            table[n] = v
        r = self.build_fetch(p.fetches, table)
        ev.data["result"] = r
        return r

    def flat_fetch(self, f, out):
        I = self.I
        if isinstance(f, TNode):
            out.append(f)
        elif isinstance(f, Opq) and "node" in f.attrs:
            out.append(f.attrs["node"])
        elif isinstance(f, tuple) or isinstance(f, Ref) and f.kind == "list":
            for x in I.items_of(f):
                self.flat_fetch(x, out)
        elif isinstance(f, Ref) and f.kind == "dict":
            for _, x in self.dict_items(f):
                self.flat_fetch(x, out)
        elif isinstance(f, Phi):
            raise Undecided("fetch depends on a condition at %s" % I.site)
        elif f is None or isinstance(f, (int, float, T, str)):
            I.event("bad_fetch", value=f)
            I.raise_("TypeError", "fetch %r is not a tensor" % (f,))
        else:
            raise Undecided("fetch %r" % (f,))

    def build_fetch(self, f, table):
        I = self.I
        if isinstance(f, TNode):
            if f.op in ("init", "group"):
                return None
            return self.wrap(table[f])
        if isinstance(f, Opq):
            return None
        if isinstance(f, tuple):
            return tuple(self.build_fetch(x, table) for x in f)
        if f.kind == "list":
            return I.list_([self.build_fetch(x, table) for x in I.items_of(f)])
        return I.dict_([(k, self.build_fetch(x, table)) for k, x in self.dict_items(f)])


class NT(tuple):
    """namedtuple"""

    def __new__(cls, names, vals):
        o = tuple.__new__(cls, vals)
        o.names = names
        return o


def gather(x, i, axis):
    x = np.moveaxis(ops.A(x), axis, 0)
    i = ops.A(i)
    out = np.empty(i.shape + x.shape[1:], dtype=object)
    for j in np.ndindex(i.shape):
        t = i[j]
        if tm.is_num(t):
            k = int(tm.num(t))
            if not 0 <= k < x.shape[0]:
                raise ops.ShapeError("gather index")
            out[j] = x[k]
        else:
            out[j] = ops.select_index(x, t)
    if i.ndim == 0 or axis == 0:
        return ops.A(out) if i.ndim else ops.A(out[()] if out.shape == () else out)
    return np.moveaxis(ops.A(out), 0, axis) if i.ndim == 1 else ops.A(out)

"""Abstract interpreter over the syntax tree of the analysed package.

It builds, for one entry point, the gated value graph (a term per scalar, a
heap of abstract objects, joins at control-flow merges) and the ordered log of
effects, each under its guard.  Callees in the repository are resolved and
inlined; library callees are modelled in lib*.py.  Branches on unknown
conditions are both analysed and *joined*; loops over a container whose length
is fixed by the analysed configuration are unrolled, every other loop is
summarised by one generic iteration with its loop-carried state abstracted.
"""
import ast
import builtins
import os
import sys

import numpy as np

from . import terms as tm
from .args import MissingArgument
from .terms import T, Undecided
from .vals import *
from .vals import _uid

sys.setrecursionlimit(20000)

REPO = os.environ.get("SA_REPO", "/repo")


class Event(object):
    __slots__ = ("kind", "data", "guard", "loops", "site", "seq")

    def __init__(self, kind, data, guard, loops, site, seq):
        self.kind, self.data, self.guard = kind, data, guard
        self.loops, self.site, self.seq = loops, site, seq

    def __getattr__(self, k):
        try:
            return self.data[k]
        except KeyError:
            raise AttributeError(k)

    def cond(self):
        return tm.and_(*self.guard)

    def __repr__(self):
        return "%s@%s %s if %s" % (self.kind, self.site, self.data, self.cond())


class ControlExit(Exception):
    pass


class ReturnExc(ControlExit):
    def __init__(self, frame, value):
        self.frame, self.value = frame, value


class BreakExc(ControlExit):
    def __init__(self, loop):
        self.loop = loop


class ContinueExc(ControlExit):
    def __init__(self, loop):
        self.loop = loop


class PyRaise(ControlExit):
    def __init__(self, exc, site):
        self.exc, self.site = exc, site


class StopGen(ControlExit):
    """First yield of a generator reached by next()."""

    def __init__(self, gen, value):
        self.gen, self.value = gen, value


class NeedSplit(Exception):
    def __init__(self, oid, phi):
        self.oid, self.phi = oid, phi


class Loop(object):
    def __init__(self, generic=False, index=None, count=None, node=None):
        self.generic, self.index, self.count, self.node = generic, index, count, node
        self.breaks, self.continues = [], []


class Frame(object):
    def __init__(self, func, env, self_=None, yield_cb=None):
        self.func, self.env, self.self_ = func, env, self_
        self.pending, self.loops = [], []
        self.yield_cb = yield_cb


class Try(object):
    def __init__(self, types):
        self.types, self.pending = types, []


class Outcome(object):
    def __init__(self, value, raised, cond):
        self.value, self.raised, self.cond = value, raised, cond


def has_yield(node):
    todo = list(node.body) if not isinstance(node, ast.Lambda) else [node.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Interp(object):
    UNROLL = 40

    def __init__(self, repo=None):
        from . import lib, tfgraph
        self.repo = repo or REPO
        self.stubs = set()
        self.narrow = True     # numbers are double precision: conversions to less lose digits
        self.heap = {}
        self.next_oid = 1
        self.pc = []
        self.events = []
        self.frames = []
        self.loops = []
        self.tries = []
        self.raises = []
        self.raise_count = 0
        self.modules = {}
        self.cur = None
        self.site = "?"
        self.fresh_n = 0
        self.graph = tfgraph.Graph(self)
        self.lib = lib.Library(self)
        self.analysed = set()
        self.callsites = 0
        self.depth = 0
        self.overrides = {}       # dotted function name -> Native (driver stubs)
        self.max_steps = 400000
        self.steps = 0

    # ------------------------------------------------------------- plumbing

    def fresh(self, name, sort="real", lo=None, hi=None, kind=None):
        self.fresh_n += 1
        return tm.sym("%s#%d" % (name, self.fresh_n), sort, lo, hi, kind)

    def alloc(self, content, kind):
        oid = self.next_oid
        self.next_oid += 1
        self.heap[oid] = content
        return Ref(oid, kind)

    def get(self, ref):
        if not isinstance(ref, Ref):
            raise NotAnObject(ref)
        c = self.heap[ref.oid]
        if isinstance(c, Phi):
            raise NeedSplit(ref.oid, c)
        return c

    def put(self, ref, content):
        self.heap[ref.oid] = content

    def list_(self, items, kind="list", maxlen=None):
        return self.alloc(ListC(items if isinstance(items, SymSeq) else tuple(items), maxlen), kind)

    def dict_(self, items=(), rest=None):
        return self.alloc(DictC(tuple(items), rest), "dict")

    def arr(self, data, owner=None, dtype=None, view=False):
        if isinstance(data, np.ndarray) and data.dtype != object:
            data = data.astype(object)
        r = self.alloc(ArrC(data, None, dtype, view), "arr")
        c = self.heap[r.oid]
        c.owner = owner if owner is not None else ("buf", r.oid)
        return r

    def event(self, kind, **data):
        e = Event(kind, data, tuple(self.pc), tuple(self.loops), self.site, len(self.events))
        self.events.append(e)
        return e

    def evs(self, kind):
        return [e for e in self.events if e.kind == kind]

    def raise_(self, excname, *args):
        raise PyRaise(ExcVal(Lib(excname), list(args)), self.site)

    def pend(self, e, pc, heap):
        if isinstance(e, ReturnExc):
            e.frame.pending.append((pc, e.value, heap))
        elif isinstance(e, BreakExc):
            e.loop.breaks.append((pc, heap))
        elif isinstance(e, ContinueExc):
            e.loop.continues.append((pc, heap))
        elif isinstance(e, PyRaise):
            self.raise_count += 1
            if self.tries:
                self.tries[-1].pending.append((pc, e, heap))
            else:
                self.raises.append((tuple(pc), e))
                self.events.append(Event("raise", {"exc": e.exc}, tuple(pc),
                                         tuple(self.loops), e.site, len(self.events)))
        else:
            raise Undecided("conditional exit through a generator")

    def known(self, cond):
        if cond.op == "const":
            return tm.truthy(cond)
        if cond in self.pc:
            return True
        n = tm.not_(cond)
        if n in self.pc:
            return False
        for c in self.pc:
            if c.op == "and" and cond in c.args:
                return True
            if c.op == "and" and n in c.args:
                return False
        return None

    def branch(self, cond, fa, fb):
        k = self.known(cond)
        if k is True:
            return fa()
        if k is False:
            return fb()
        pc0, h0 = self.pc, self.heap

        def run(c, f):
            self.heap, self.pc = dict(h0), pc0 + [c]
            try:
                return f(), None, self.heap, self.pc
            except ControlExit as e:
                return None, e, self.heap, self.pc
        va, ea, ha, pca = run(cond, fa)
        vb, eb, hb, pcb = run(tm.not_(cond), fb)
        n = len(pc0) + 1
        if ea is None and eb is None:
            self.heap = self.join(cond, ha, hb)
            self.pc = pc0
            if len(pca) > n or len(pcb) > n:
                r = tm.or_(tm.and_(*pca[n - 1:]), tm.and_(*pcb[n - 1:]))
                if r is not tm.TRUE:
                    self.pc = pc0 + [r]
            return self.phi(cond, va, vb)
        if ea is not None:
            self.pend(ea, pca, ha)
            self.heap, self.pc = hb, pcb
            if eb is not None:
                raise eb
            return vb
        self.pend(eb, pcb, hb)
        self.heap, self.pc = ha, pca
        return va

    def phi(self, c, a, b):
        if a is b:
            return a
        try:
            if type(a) is type(b) and not isinstance(a, np.ndarray) and a == b:
                return a
        except Exception:
            pass
        if isinstance(a, (T, int, float)) and isinstance(b, (T, int, float)):
            return self.norm(tm.ite(c, a, b))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) \
                and type(a) is type(b):
            return type(a)([self.phi(c, x, y) for x, y in zip(a, b)])
        if c.op == "const":
            return a if tm.truthy(c) else b
        return Phi(c, a, b)

    def norm(self, v):
        if isinstance(v, T) and v.op == "const":
            k, x = v.args
            if k == "num" and v.sort == "int":
                return int(x)
            if k == "bool" or k == "NoneType":
                return x
            if k == "str":
                return x
            if k == "inf":
                return float("inf") * x
        return v

    def join(self, c, ha, hb):
        out = dict(ha)
        for oid, b in hb.items():
            a = ha.get(oid)
            if a is b:
                continue
            out[oid] = b if a is None else self.join_content(c, a, b)
        return out

    def join_content(self, c, a, b):
        if a is b:
            return a
        if type(a) is type(b):
            if isinstance(a, EnvC):
                return EnvC(self._joind(c, a.vars, b.vars), a.parent)
            if isinstance(a, InstC) and a.cls is b.cls:
                return InstC(a.cls, self._joind(c, a.attrs, b.attrs))
            if isinstance(a, ListC) and isinstance(a.items, tuple) and isinstance(b.items, tuple) \
                    and len(a.items) == len(b.items):
                return ListC(tuple(self.phi(c, x, y) for x, y in zip(a.items, b.items)), a.maxlen)
            if isinstance(a, DictC) and a.rest is b.rest and \
                    [self.key(k) for k, _ in a.items] == [self.key(k) for k, _ in b.items]:
                return DictC(tuple((k, self.phi(c, x, y))
                                   for (k, x), (_, y) in zip(a.items, b.items)), a.rest)
            if isinstance(a, RngC) and a.flavour == b.flavour:
                return RngC(tm.ite(c, a.state, b.state), a.flavour)
            if isinstance(a, StateC):
                out = {}
                for k in list(a.vars) + [k for k in b.vars if k not in a.vars]:
                    x, y = a.vars.get(k), b.vars.get(k)
                    if x is None or y is None:
                        out[k] = y if x is None else x
                    else:
                        out[k] = x if x is y else self._joina(c, x, y)
                return StateC(out)
            if isinstance(a, ArrC) and isinstance(a.data, np.ndarray) and \
                    isinstance(b.data, np.ndarray) and a.data.shape == b.data.shape and a.owner == b.owner:
                return ArrC(self._joina(c, a.data, b.data), a.owner, a.dtype, a.view)
        return Phi(c, a, b)

    def _joina(self, c, a, b):
        d = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            d[i] = tm.ite(c, tm.term(a[i]), tm.term(b[i]))
        return d

    def _joind(self, c, a, b):
        out = {}
        for k in list(a) + [k for k in b if k not in a]:
            out[k] = self.phi(c, a.get(k, UNBOUND), b.get(k, UNBOUND))
        return out

    def key(self, k):
        """Hashable identity of a dict/set key."""
        if isinstance(k, (bool, int, float, str, bytes)) or k is None:
            return ("c", float(k) if isinstance(k, (int, float)) else k)
        if isinstance(k, tuple):
            return ("t",) + tuple(self.key(x) for x in k)
        if isinstance(k, T):
            n = self.norm(k)
            if n is not k:
                return self.key(n)
            if tm.is_num(k):
                return ("c", float(tm.num(k)))
            return ("T", k.id)
        if isinstance(k, Ref):
            return ("r", k.oid)
        if isinstance(k, Phi):
            return ("p", k.cond.id, self.key(k.a), self.key(k.b))
        return ("o", id(k))

    def guard_op(self, f):
        """Run a primitive operation; split it on joined heap content."""
        try:
            return f()
        except NeedSplit as s:
            oid, phi = s.oid, s.phi

            def with_(content):
                def g():
                    self.heap[oid] = content
                    return self.guard_op(f)
                return g
            return self.branch(phi.cond, with_(phi.a), with_(phi.b))

    def over(self, v, f):
        """Apply f to v, distributing over a gated join."""
        if isinstance(v, Phi):
            return self.branch(v.cond, lambda: self.over(v.a, f), lambda: self.over(v.b, f))
        return self.guard_op(lambda: f(v))

    # ------------------------------------------------------------- modules

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        rel = name.replace(".", "/")
        path = os.path.join(self.repo, rel + ".py")
        if not os.path.exists(path):
            path = os.path.join(self.repo, rel, "__init__.py")
        if not os.path.exists(path):
            raise PyRaise(ExcVal(Lib("ImportError"), [name]), self.site)
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
        with open(path, "rb") as f:
            src = f.read()
        tree = ast.parse(src, path)
        env = self.alloc(EnvC({"__name__": name, "__file__": path, "__doc__": None}, None), "env")
        m = Module(name, env, path, tree)
        self.modules[name] = m
        saved = (self.frames, self.loops, self.tries, self.pc, self.site, self.cur)
        self.frames, self.loops, self.tries, self.pc = [], [], [], []
        self.cur = m
        fr = Frame(Func("<module>", tree, env, [], {}, m), env)
        self.frames = [fr]
        n_ev = len(self.events)
        try:
            for st in tree.body:
                self.exec_stmt(st)
        finally:
            self.frames, self.loops, self.tries, self.pc, self.site, self.cur = saved
        for e in self.events[n_ev:]:
            e.data["module_level"] = name
        return m

    def is_package(self, name):
        return os.path.isdir(os.path.join(self.repo, name.replace(".", "/"))) or \
            os.path.exists(os.path.join(self.repo, name.replace(".", "/") + ".py"))

    def resolve(self, dotted):
        """Value of e.g. 'pysgmcmc.samplers.sghmc.SGHMCSampler'."""
        mod, name = dotted.rsplit(".", 1)
        m = self.load(mod)
        v = self.heap[m.env.oid].vars.get(name, UNBOUND)
        if v is UNBOUND:
            raise Undecided("anchor %s not found" % dotted)
        return v

    # ---------------------------------------------------------- environments

    def env_lookup(self, env, name):
        while env is not None:
            c = self.get(env)
            if name in c.vars:
                return c.vars[name]
            env = c.parent
        return None

    def lookup(self, name):
        fr = self.frames[-1]
        env = fr.env
        while env is not None:
            c = self.get(env)
            if name in c.vars:
                v = c.vars[name]
                return self._bound(v, name)
            env = c.parent
        v = self.heap[fr.func.module.env.oid].vars.get(name, UNBOUND)
        if v is not UNBOUND:
            return v
        if hasattr(builtins, name):
            return Lib("builtins." + name) if name not in ("True", "False", "None") else getattr(builtins, name)
        if name == "__class__" and fr.func.cls is not None:
            return fr.func.cls
        self.raise_("NameError", name)

    def _bound(self, v, name):
        if v is UNBOUND:
            self.raise_("UnboundLocalError", name)
        if isinstance(v, Phi):
            if v.a is UNBOUND:
                return self.branch(v.cond, lambda: self._bound(v.a, name), lambda: self._bound(v.b, name))
            if v.b is UNBOUND:
                return self.branch(v.cond, lambda: self._bound(v.a, name), lambda: self._bound(v.b, name))
        return v

    def bind(self, name, value, env=None):
        fr = self.frames[-1]
        if env is None:
            env = fr.env
            decl = getattr(fr, "decl", None)
            if decl and name in decl:
                env = decl[name]
        c = self.get(env)
        nv = dict(c.vars)
        nv[name] = value
        self.put(env, EnvC(nv, c.parent))

    # ------------------------------------------------------------ statements

    def exec_block(self, stmts):
        for st in stmts:
            self.exec_stmt(st)

    def exec_stmt(self, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Undecided("analysis budget exhausted")
        m = self.frames[-1].func.module
        old = self.site
        self.site = "%s:%d" % (os.path.relpath(m.path, self.repo), getattr(st, "lineno", 0))
        meth = getattr(self, "st_" + type(st).__name__, None)
        if meth is None:
            raise Undecided("statement %s at %s" % (type(st).__name__, self.site))
        meth(st)
        self.site = old

    def st_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value)

    def st_Pass(self, st):
        pass

    def st_FunctionDef(self, st):
        f = self.make_function(st)
        v = f
        for d in reversed(st.decorator_list):
            dec = self.eval(d)
            v = self.call(dec, [v], {}, d)
        self.bind(st.name, v)

    def make_function(self, st, name=None):
        a = st.args
        defaults = [self.eval(d) for d in a.defaults]
        kwd = {arg.arg: self.eval(d) for arg, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        fr = self.frames[-1]
        env = fr.env
        cls = getattr(fr, "building", None) or fr.func.cls
        if getattr(fr, "building", None):
            env = fr.outer_env
        return Func(name or getattr(st, "name", "<lambda>"), st, env, defaults, kwd, fr.func.module, cls)

    def st_ClassDef(self, st):
        bases = [self.eval(b) for b in st.bases]
        fr = self.frames[-1]
        cls = Class(st.name, bases, {}, fr.func.module, st)
        env = self.alloc(EnvC({}, fr.env), "env")
        nf = Frame(Func("<class %s>" % st.name, st, env, [], {}, fr.func.module, cls), env)
        nf.building, nf.outer_env = cls, fr.env
        self.frames.append(nf)
        try:
            self.exec_block(st.body)
        finally:
            self.frames.pop()
        cls.attrs = dict(self.get(env).vars)
        if any(isinstance(b, (Lib, Class)) and self._enum_base(b) for b in bases):
            cls.is_enum = True
            for k, v in list(cls.attrs.items()):
                if not k.startswith("_") and not isinstance(v, (Func, Prop, StaticM, ClassM)):
                    mem = Opq("%s.%s" % (cls.name, k), typ=cls, attrs={"name": k, "value": v}, strict=True)
                    for m2 in cls.members.values():
                        if self.key(m2.attrs["value"]) == self.key(v):
                            mem = m2
                    cls.members[k] = mem
                    cls.attrs[k] = mem
        v = cls
        for d in reversed(st.decorator_list):
            v = self.call(self.eval(d), [v], {}, d)
        self.bind(st.name, v)

    def _enum_base(self, b):
        if isinstance(b, Lib):
            return b.name in ("enum.Enum", "enum.IntEnum")
        return b.is_enum

    def st_Return(self, st):
        v = self.eval(st.value) if st.value is not None else None
        raise ReturnExc(self.frames[-1], v)

    def st_Assign(self, st):
        v = self.eval(st.value)
        for t in st.targets:
            self.assign(t, v)

    def st_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value))

    def st_AugAssign(self, st):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            put = lambda v: self.assign(t, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            cur = self.getattr(o, t.attr)
            put = lambda v: self.setattr(o, t.attr, v)
        else:
            o = self.eval(t.value)
            k = self.eval_index(t.slice)
            cur = self.getitem(o, k)
            put = lambda v: self.setitem(o, k, v)
        rhs = self.eval(st.value)
        put(self.inplace(type(st.op).__name__, cur, rhs))

    def inplace(self, op, cur, rhs):
        def f(c):
            if isinstance(c, Ref) and c.kind == "arr":
                r = self.binop(op, c, rhs)
                self.lib.mutate_array(c, r, "in-place operator")
                return c
            if isinstance(c, Ref) and c.kind in ("list", "deque") and op == "Add":
                self.lib.list_extend(c, rhs)
                return c
            if isinstance(c, Ref) and c.kind == "dict" and op == "BitOr":
                self.lib.call_method(c, "update", [rhs], {})
                return c
            if isinstance(c, Ref) and c.kind == "set" and op in ("BitOr", "Sub", "BitAnd"):
                r = self.binop(op, c, rhs)
                self.put(c, self.get(r))
                return c
            return self.binop(op, c, rhs)
        return self.over(cur, f)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.bind(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            self.setitem(o, self.eval_index(t.slice), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Undecided("assignment target at %s" % self.site)

    def unpack(self, elts, v):
        items = self.items_of(v, want=len(elts))
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            i = star[0]
            n_after = len(elts) - i - 1
            if len(items) < len(elts) - 1:
                self.raise_("ValueError", "not enough values to unpack")
            for e, x in zip(elts[:i], items[:i]):
                self.assign(e, x)
            mid = items[i:len(items) - n_after]
            self.assign(elts[i].value, self.list_(mid))
            for e, x in zip(elts[i + 1:], items[len(items) - n_after:]):
                self.assign(e, x)
            return
        if len(items) != len(elts):
            self.raise_("ValueError", "unpacking %d values into %d names" % (len(items), len(elts)))
        for e, x in zip(elts, items):
            self.assign(e, x)

    def items_of(self, v, want=None):
        """Finite list of the items of an iterable."""
        if isinstance(v, Phi):
            a = self.branch(v.cond, lambda: tuple(self.items_of(v.a, want)),
                            lambda: tuple(self.items_of(v.b, want)))
            if isinstance(a, Phi):
                raise Undecided("iterating over a joined value")
            return list(a)
        if isinstance(v, Opq) and want is not None and v.iter_ is None:
            return [Opq("%s[%d]" % (v.name, i)) for i in range(want)]
        if isinstance(v, T) and v.sort == "obj" and want is not None:
            return [tm.uf("item", v, i) for i in range(want)]
        r = self.guard_op(lambda: self.lib.iterate(v))
        if isinstance(r, list):
            return r
        if hasattr(r, "gen"):
            return list(r)
        raise Undecided("need a finite iterable at %s, have %r" % (self.site, v))

    def st_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.bind(t.id, UNBOUND)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                k = self.eval_index(t.slice)
                self.lib.delitem(o, k)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value)
                c = self.get(o)
                a = dict(c.attrs)
                a.pop(t.attr, None)
                self.put(o, InstC(c.cls, a))

    def st_Global(self, st):
        fr = self.frames[-1]
        if not hasattr(fr, "decl"):
            fr.decl = {}
        for n in st.names:
            fr.decl[n] = fr.func.module.env

    def st_Nonlocal(self, st):
        fr = self.frames[-1]
        if not hasattr(fr, "decl"):
            fr.decl = {}
        for n in st.names:
            env = self.get(fr.env).parent
            while env is not None and n not in self.get(env).vars:
                env = self.get(env).parent
            if env is not None:
                fr.decl[n] = env

    def st_If(self, st):
        self.cond_exec(self.eval(st.test), lambda: self.exec_block(st.body),
                       lambda: self.exec_block(st.orelse))

    def cond_exec(self, v, fa, fb):
        t = self.truth(v)
        if isinstance(t, bool):
            return fa() if t else fb()
        return self.branch(t, fa, fb)

    def st_Assert(self, st):
        t = self.truth(self.eval(st.test))
        if t is True:
            return

        def bad():
            raise PyRaise(ExcVal(Lib("AssertionError"), []), self.site)
        if t is False:
            bad()
        self.branch(t, lambda: None, bad)

    def st_Raise(self, st):
        if st.exc is None:
            e = getattr(self, "handling", None)
            if e:
                raise e
            raise Undecided("bare raise")
        v = self.eval(st.exc)
        if isinstance(v, (Lib, Class)):
            v = self.call(v, [], {}, st)
        if v is None or isinstance(v, (bool, int, float, str, tuple)) or isinstance(v, Ref) and v.kind != "inst":
            self.raise_("TypeError", "exceptions must derive from BaseException")
        raise PyRaise(v, self.site)

    def exc_matches(self, exc, typ):
        if typ is None:
            return True
        if isinstance(typ, tuple):
            return any(self.exc_matches(exc, t) for t in typ)
        if isinstance(exc, Ref) and exc.kind == "inst":
            cls = self.get(exc).cls
            if typ in cls.mro():
                return True
            names = [b.name.split(".")[-1] for b in cls.mro() if isinstance(b, Lib)]
        else:
            names = [exc.name()]
        want = typ.name.split(".")[-1] if isinstance(typ, Lib) else None
        for n in names:
            if n == want:
                return True
            a, b = getattr(builtins, n, None), getattr(builtins, want or "", None)
            if isinstance(a, type) and isinstance(b, type) and issubclass(a, b):
                return True
        return False

    def st_Try(self, st):
        tr = Try(None)
        self.tries.append(tr)
        depth = len(self.tries)
        pc0 = self.pc
        exit_ = None
        ok = True
        frames, loops = list(self.frames), list(self.loops)
        try:
            self.exec_block(st.body)
        except PyRaise as e:
            tr.pending.append((self.pc, e, self.heap))
            ok = False
        except ControlExit as e:
            exit_ = e
            ok = False
        finally:
            del self.tries[depth - 1:]
        self.frames, self.loops = frames, loops
        outs = []   # (pc, heap, exit)
        if ok:
            try:
                self.exec_block(st.orelse)
                outs.append((self.pc, self.heap, None))
            except ControlExit as e:
                outs.append((self.pc, self.heap, e))
        elif exit_ is not None:
            outs.append((self.pc, self.heap, exit_))
        for pc, e, heap in tr.pending:
            self.pc, self.heap = pc, heap
            for h in st.handlers:
                typ = self.eval(h.type) if h.type is not None else None
                if self.exc_matches(e.exc, typ):
                    old = getattr(self, "handling", None)
                    self.handling = e
                    try:
                        if h.name:
                            self.bind(h.name, e.exc)
                        self.exec_block(h.body)
                        outs.append((self.pc, self.heap, None))
                    except ControlExit as e2:
                        outs.append((self.pc, self.heap, e2))
                    finally:
                        self.handling = old
                    break
            else:
                outs.append((pc, heap, e))
        fin = []
        for pc, heap, ex in outs:
            if st.finalbody and ex is not None:
                self.pc, self.heap = pc, heap
                self.exec_block(st.finalbody)
                pc, heap = self.pc, self.heap
            fin.append((pc, heap, ex))
        normal = [(pc, heap) for pc, heap, ex in fin if ex is None]
        exits = [(pc, heap, ex) for pc, heap, ex in fin if ex is not None]
        if not normal:
            for pc, heap, ex in exits[:-1]:
                self.pend(ex, pc, heap)
            self.pc, self.heap = exits[-1][0], exits[-1][1]
            raise exits[-1][2]
        for pc, heap, ex in exits:
            self.pend(ex, pc, heap)
        self.merge_states(pc0, normal, bool(exits))
        if st.finalbody:
            self.exec_block(st.finalbody)

    def merge_states(self, pc0, states, partial):
        """Join several (pc, heap) that reach one program point."""
        n = len(pc0)
        pc, heap = states[-1]
        for pc2, h2 in reversed(states[:-1]):
            heap = self.join(tm.and_(*pc2[n:]), h2, heap)
        self.heap = heap
        if len(states) == 1:
            self.pc = pc if partial else pc0
        elif partial:
            r = tm.or_(*[tm.and_(*p[n:]) for p, _ in states])
            self.pc = pc0 + ([r] if r is not tm.TRUE else [])
        else:
            self.pc = pc0

    def st_With(self, st):
        n = 0
        for item in st.items:
            v = self.eval(item.context_expr)
            ent = self.lib.enter(v)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, ent)
            n += 1
        frames_g = list(self.graph.ctrl)
        try:
            self.exec_block(st.body)
        finally:
            for item in reversed(st.items):
                self.lib.exit_()

    def st_Import(self, st):
        for a in st.names:
            top = a.name.split(".")[0]
            if self.is_package(top):
                m = self.load(a.name)
                self.bind(a.asname or top, m if a.asname else self.load(top))
            else:
                self.bind(a.asname or top, Lib(self.lib.canon(a.name if a.asname else top)))

    def st_ImportFrom(self, st):
        mod = st.module or ""
        if st.level:
            cur = self.frames[-1].func.module
            parts = cur.name.split(".")
            if not cur.path.endswith("__init__.py"):
                parts = parts[:-1]
            parts = parts[:len(parts) - (st.level - 1)]
            mod = ".".join(parts + ([mod] if mod else []))
        top = mod.split(".")[0]
        if self.is_package(top):
            m = self.load(mod)
            for a in st.names:
                if a.name == "*":
                    for k, v in self.heap[m.env.oid].vars.items():
                        if not k.startswith("_"):
                            self.bind(k, v)
                    continue
                v = self.heap[m.env.oid].vars.get(a.name, UNBOUND)
                if v is UNBOUND:
                    if self.is_package(mod + "." + a.name):
                        v = self.load(mod + "." + a.name)
                    else:
                        self.raise_("ImportError", a.name)
                self.bind(a.asname or a.name, v)
            return
        for a in st.names:
            self.event("import", module=mod, name=a.name)
            if mod == "tensorflow.contrib.layers" or not self.lib.missing(mod, a.name):
                self.bind(a.asname or a.name, self.lib.libattr(mod, a.name))
            else:
                self.raise_("ImportError", "%s.%s" % (mod, a.name))

    # ----------------------------------------------------------------- loops

    def st_For(self, st):
        it = self.eval(st.iter)

        def body(v):
            self.assign(st.target, v)
            self.exec_block(st.body)
        broke = self.loop_over(it, body, st)
        if st.orelse:
            if broke is False:
                self.exec_block(st.orelse)
            elif broke is not True:
                self.branch(broke, lambda: None, lambda: self.exec_block(st.orelse))

    def loop_over(self, it, body, node):
        """Run body for each item; returns True/False/condition of break."""
        if isinstance(it, Phi):
            r = self.branch(it.cond, lambda: self.loop_over(it.a, body, node),
                            lambda: self.loop_over(it.b, body, node))
            return r
        if isinstance(it, GenV) and it.done is None:
            return self.loop_generator(it, body, node)
        r = self.guard_op(lambda: self.lib.iterate(it))
        if isinstance(r, list):
            return self.loop_list(r, body, node)
        if hasattr(r, "gen"):       # PullIter
            return self.loop_list(r, body, node)
        if isinstance(r, GenIter):
            return self.generic_loop(r.count, r.elem, None, body, node)
        if isinstance(r, GenV):
            return self.loop_generator(r, body, node)
        raise Undecided("cannot iterate over %r at %s" % (it, self.site))

    def loop_list(self, items, body, node):
        lp = Loop(node=node)
        pc0 = self.pc
        self.frames[-1].loops.append(lp)
        depth = len(self.frames[-1].loops)
        fr = self.frames[-1]
        done = False
        try:
            for x in items:
                pci = self.pc
                lp.continues = []
                rc = self.raise_count
                nb = len(lp.breaks)
                alive = True
                try:
                    body(x)
                except ContinueExc as e:
                    if e.loop is not lp:
                        raise
                except BreakExc as e:
                    if e.loop is not lp:
                        raise
                    lp.breaks.append((self.pc, self.heap))
                    alive = False
                if lp.continues:
                    sts = list(lp.continues) + ([(self.pc, self.heap)] if alive else [])
                    self.merge_states(pci, sts, True)
                elif not alive:
                    done = True
                    break
        finally:
            del fr.loops[depth - 1:]
        return self.end_loop(lp, pc0, done)

    def end_loop(self, lp, pc0, done):
        if not lp.breaks:
            return False
        n = len(pc0)
        brk = tm.or_(*[tm.and_(*pc[n:]) for pc, _ in lp.breaks])
        sts = list(lp.breaks)
        if not done:
            sts.append((self.pc, self.heap))
        # residual condition: some exit of the loop was reached (not a return/raise)
        self.merge_states(pc0, sts, True)
        if done and len(lp.breaks) == 1:
            return True
        return True if done else brk

    def loop_generator(self, gen, body, node):
        lp = Loop(node=node)
        outer = self.frames[-1]
        pc0 = self.pc
        outer.loops.append(lp)
        depth = len(outer.loops)

        def cb(v):
            frames = self.frames
            i = frames.index(outer)
            self.frames = frames[:i + 1]
            try:
                lp.continues = []
                pci = self.pc
                try:
                    body(v)
                except ContinueExc as e:
                    if e.loop is not lp:
                        raise
                if lp.continues:
                    self.merge_states(pci, list(lp.continues) + [(self.pc, self.heap)], True)
            finally:
                self.frames = frames
        done = False
        try:
            try:
                self.run_generator(gen, cb)
            except BreakExc as e:
                if e.loop is not lp:
                    raise
                while self.frames[-1] is not outer:
                    self.frames.pop()
                lp.breaks.append((self.pc, self.heap))
                done = True
        finally:
            del outer.loops[depth - 1:]
        return self.end_loop(lp, pc0, done)

    def run_generator(self, gen, cb):
        fr = Frame(gen.func, gen.env, gen.frame_self, yield_cb=cb)
        self.exec_function_body(fr)
        gen.endless = getattr(fr, "endless", False)

    def pulled_generator(self, st):
        """The fresh generator that each pass of `while True: ... = ... next(g) ...` starts by advancing."""
        first = st.body[0]
        if isinstance(first, ast.Try) and len(first.body) == 1 and len(first.handlers) == 1 and not first.orelse and \
                not first.finalbody and isinstance(first.handlers[0].type, ast.Name) and \
                first.handlers[0].type.id == "StopIteration" and \
                isinstance(first.handlers[0].body[0], (ast.Break, ast.Return)):
            first = first.body[0]       # the end of the generator leaves the loop
        if not isinstance(first, (ast.Assign, ast.AnnAssign, ast.Expr)) or st.orelse:
            return None
        calls = [n for n in ast.walk(first) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and
                 n.func.id == "next" and len(n.args) == 1 and isinstance(n.args[0], ast.Name) and not n.keywords]
        if len(calls) != 1:
            return None
        name = calls[0].args[0].id
        uses = [n for b in st.body for n in ast.walk(b) if isinstance(n, ast.Name) and n.id == name]
        if len(uses) != 1:
            return None
        g = self.eval(calls[0].args[0])
        return g if isinstance(g, GenV) and g.done is None else None

    def st_While(self, st):
        lit = isinstance(st.test, ast.Constant) and bool(st.test.value)
        gen = self.pulled_generator(st) if lit else None
        if gen is not None:
            def body(v):
                gen.item = v
                self.exec_block(st.body)
            gen.pulled = True
            try:
                broke = self.loop_generator(gen, body, st)
            finally:
                gen.item = None
            if gen.endless:
                self.frames[-1].endless = True
            elif broke is False and isinstance(st.body[0], ast.Try):
                if isinstance(st.body[0].handlers[0].body[0], ast.Return):
                    self.exec_block(st.body[0].handlers[0].body)
            elif broke is False:
                self.raise_("StopIteration", "end of a generator")
            elif broke is not True:
                raise Undecided("a generator that may end in a loop that may break")
            return
        snap = (self.heap, self.pc, len(self.events), self.fresh_n, self.raise_count,
                len(self.raises), self.graph.mark())
        fr = self.frames[-1]
        npend = [(f, len(f.pending)) for f in self.frames]
        tpend = [(t, len(t.pending)) for t in self.tries]
        lpend = [(l, len(l.breaks), len(l.continues)) for f in self.frames for l in f.loops]
        lp = Loop(node=st)
        pc0 = self.pc
        fr.loops.append(lp)
        depth = len(fr.loops)
        result = None
        try:
            self.heap = dict(self.heap)
            for k in range(self.UNROLL):
                t = True if lit else self.truth(self.eval(st.test))
                if t is False:
                    result = (False,)
                    break
                if t is not True:
                    result = None
                    break
                lp.continues = []
                pci = self.pc
                alive = True
                try:
                    self.exec_block(st.body)
                except ContinueExc as e:
                    if e.loop is not lp:
                        raise
                except BreakExc as e:
                    if e.loop is not lp:
                        raise
                    lp.breaks.append((self.pc, self.heap))
                    alive = False
                if lp.continues:
                    self.merge_states(pci, list(lp.continues) + ([(self.pc, self.heap)] if alive else []), True)
                elif not alive:
                    result = (True,)
                    break
                if len(lp.breaks) > 6:
                    break
            else:
                result = None
        except StopGen:
            del fr.loops[depth - 1:]
            raise
        except ControlExit:
            del fr.loops[depth - 1:]
            raise
        del fr.loops[depth - 1:]
        if result is not None:
            broke = self.end_loop(lp, pc0, result[0])
            if st.orelse and broke is False:
                self.exec_block(st.orelse)
            return
        # not finitely unrollable: one generic iteration
        self.heap, self.pc = snap[0], snap[1]
        del self.events[snap[2]:]
        self.fresh_n, self.raise_count = snap[3], snap[4]
        del self.raises[snap[5]:]
        self.graph.reset(snap[6])
        for f, n in npend:
            del f.pending[n:]
        for t, n in tpend:
            del t.pending[n:]
        for l, n, m in lpend:
            del l.breaks[n:]
            del l.continues[m:]
        nb = self.generic_loop(None, None, None if lit else st.test, lambda _: self.exec_block(st.body), st)
        if lit and nb is False:
            self.frames[-1].endless = True

    def slots(self, heap):
        return heap

    def diff(self, h0, h1):
        out = {}
        for oid, a in h0.items():
            b = h1.get(oid)
            if a is b:
                continue
            if isinstance(a, EnvC) and isinstance(b, EnvC):
                for k in set(a.vars) | set(b.vars):
                    if not self.same(a.vars.get(k, UNBOUND), b.vars.get(k, UNBOUND)):
                        out[(oid, k)] = b.vars.get(k, UNBOUND)
            elif isinstance(a, InstC) and isinstance(b, InstC):
                for k in set(a.attrs) | set(b.attrs):
                    if not self.same(a.attrs.get(k, UNBOUND), b.attrs.get(k, UNBOUND)):
                        out[(oid, k)] = b.attrs.get(k, UNBOUND)
            elif isinstance(a, RngC) and isinstance(b, RngC) and a.state is b.state:
                pass
            else:
                out[(oid, None)] = b
        return out

    def same(self, a, b):
        if a is b:
            return True
        try:
            return type(a) is type(b) and bool(a == b)
        except Exception:
            return False

    def slot_get(self, heap, slot):
        oid, k = slot
        c = heap[oid]
        if k is None:
            return c
        d = c.vars if isinstance(c, EnvC) else c.attrs
        return d.get(k, UNBOUND)

    def slot_set(self, slot, v):
        oid, k = slot
        c = self.heap[oid]
        if k is None:
            self.heap[oid] = v
        elif isinstance(c, EnvC):
            d = dict(c.vars)
            d[k] = v
            self.heap[oid] = EnvC(d, c.parent)
        else:
            d = dict(c.attrs)
            d[k] = v
            self.heap[oid] = InstC(c.cls, d)

    def generic_loop(self, count, elem, test, body, node):
        self.fresh_n += 1
        lid = self.fresh_n
        hi = None if count is None else tm.sub(count, 1)
        if isinstance(hi, T) and tm.is_num(hi):
            hi = int(tm.num(hi))
        idx = tm.sym("i#%d" % lid, "int", 0, hi)
        h0, pc0, ev0 = dict(self.heap), self.pc, len(self.events)
        raises0, rc0, g0, fn0 = len(self.raises), self.raise_count, self.graph.mark(), self.fresh_n
        frames = self.frames
        fr = frames[-1]
        pend0 = [(f, len(f.pending)) for f in frames]
        tpend = [(t, len(t.pending)) for t in self.tries]
        lpend = [(l, len(l.breaks), len(l.continues)) for f in frames for l in f.loops]
        values = {}

        def run():
            """One pass; returns (changed slots, loop)."""
            self.heap = dict(h0)
            for s, v in values.items():
                self.slot_set(s, v)
            self.pc = list(pc0)
            base = dict(self.heap)
            lp = Loop(True, idx, count, node)
            fr.loops.append(lp)
            depth = len(fr.loops)
            self.loops.append(lp)
            ldepth = len(self.loops)
            alive = True
            try:
                if count is not None:
                    self.pc = self.pc + [tm.lt(idx, count)]
                if test is not None:
                    t = self.truth(self.eval(test))
                    if t is False:
                        return {}, lp, base
                    if t is not True:
                        self.pc = self.pc + [t]
                v = elem(idx) if elem is not None else None
                try:
                    body(v)
                except ContinueExc as e:
                    if e.loop is not lp:
                        raise
                except BreakExc as e:
                    if e.loop is not lp:
                        raise
                    lp.breaks.append((self.pc, self.heap))
                    alive = False
                if lp.continues:
                    self.merge_states(list(pc0), list(lp.continues) + ([(self.pc, self.heap)] if alive else []), True)
                elif not alive:
                    self.heap = dict(base)
            finally:
                del fr.loops[depth - 1:]
                del self.loops[ldepth - 1:]
                self.frames = frames
            return self.diff(base, self.heap), lp, base

        def rewind():
            del self.events[ev0:]
            del self.raises[raises0:]
            self.raise_count = rc0
            self.graph.reset(g0)
            self.fresh_n = fn0
            for f, n in pend0:
                del f.pending[n:]
            for t, n in tpend:
                del t.pending[n:]
            for l, n, m in lpend:
                del l.breaks[n:]
                del l.continues[m:]

        mus = {}
        for attempt in range(8):
            try:
                changed, lp, base = run()
            except ControlExit:
                # leaves the loop in every iteration: the pass is exact for the first one
                if attempt == 0:
                    raise
                break
            new = [s for s in changed if s not in values]
            # temporaries: slots unbound before the loop stay unbound at its head
            new = [s for s in new if s[1] is None or self.slot_get(h0, s) is not UNBOUND]
            if not new:
                break
            rewind()
            for s in new:
                values[s] = mus[s] = self.havoc(s, self.slot_get(h0, s), changed[s], lid)
        else:
            raise Undecided("loop at %s does not stabilise" % self.site)
        # recognise induction variables and iterated states
        if mus:
            better = {}
            for s, mu in mus.items():
                after = changed.get(s, mu)
                v = self.iterate_value(s, self.slot_get(h0, s), mu, after, idx, lid)
                if v is not None:
                    better[s] = v
            if better:
                values.update(better)
                rewind()
                changed, lp, base = run()
        body_exit = [(pc, h) for pc, h in lp.breaks]
        # state after the loop: the head state (loop-carried values abstracted)
        heap_after = dict(self.heap)
        for s, v in values.items():
            oid, k = s
            if k is None:
                heap_after[oid] = self.slot_get(base, s)
        self.heap = heap_after
        for s, v in values.items():
            if s[1] is not None:
                self.slot_set(s, self.slot_get(base, s))
        self.pc = list(pc0)
        for pc, h in body_exit:
            g = tm.and_(*pc[len(pc0):])
            self.heap = self.join(g, h, self.heap)
        self.event("loop", index=idx, count=count, breaks=[tm.and_(*pc[len(pc0):]) for pc, _ in body_exit])
        return tm.or_(*[tm.and_(*pc[len(pc0):]) for pc, _ in body_exit]) if body_exit else False

    def havoc(self, slot, init, after, lid):
        name = "mu%d:%s" % (lid, slot[1] if slot[1] is not None else slot[0])
        if isinstance(init, (T, int, float)) and not isinstance(init, bool):
            t = tm.term(init)
            s = t.sort if t.sort in ("int", "real") else t.sort
            return tm.sym(name, s)
        if isinstance(init, bool):
            return tm.sym(name, "bool")
        if isinstance(init, RngC):
            return RngC(tm.sym(name, "obj"), init.flavour)
        if isinstance(init, ListC):
            hi = None
            if init.maxlen is not None:
                hi = tm.sub(init.maxlen, 1)
            L = tm.sym(name + ".len", "int", 0, hi)
            return ListC(SymSeq(L, lambda i, n=name: Opq("%s[%r]" % (n, i))), init.maxlen)
        if isinstance(init, DictC):
            return DictC((), rest=Opq(name))
        if isinstance(init, ArrC):
            return ArrC(self.lib.opaque_like(init.data, name), init.owner, init.dtype, init.view)
        if isinstance(init, StateC):
            out = {}
            for v, x in init.vars.items():
                out[v] = x if isinstance(after, StateC) and after.vars.get(v) is x else \
                    self.lib.opaque_like(x, "%s:%d" % (name, v.id))
            return StateC(out)
        if isinstance(init, InstC):
            return init
        return Opq(name)

    def iterate_value(self, slot, init, mu, after, idx, lid):
        if isinstance(mu, RngC) and isinstance(after, RngC):
            sig = substitute(after.state, {mu.state: tm.sym("@", "obj")})
            return RngC(tm.uf("iter", init.state, idx, sig, sort="obj"), mu.flavour)
        if isinstance(mu, T) and isinstance(after, (T, int)) and mu.sort in ("int", "real"):
            step = tm.sub(after, mu)
            step = self._cancel(after, mu)
            if step is not None:
                return tm.add(init, tm.mul(step, idx))
        return None

    def _cancel(self, after, mu):
        after = tm.term(after)
        if after is mu:
            return tm.const(0)
        if after.op == "+":
            a, b = after.args
            if a is mu and not tm.contains(b, lambda t: t is mu):
                return b
            if b is mu and not tm.contains(a, lambda t: t is mu):
                return a
        return None

    # ----------------------------------------------------------- break etc.

    def st_Break(self, st):
        raise BreakExc(self.frames[-1].loops[-1])

    def st_Continue(self, st):
        raise ContinueExc(self.frames[-1].loops[-1])

    # ----------------------------------------------------------- expressions

    def eval(self, e):
        meth = getattr(self, "ex_" + type(e).__name__, None)
        if meth is None:
            raise Undecided("expression %s at %s" % (type(e).__name__, self.site))
        return meth(e)

    def ex_Constant(self, e):
        return e.value

    def ex_Name(self, e):
        return self.lookup(e.id)

    def ex_Tuple(self, e):
        return tuple(self.elements(e.elts))

    def ex_List(self, e):
        return self.list_(self.elements(e.elts))

    def ex_Set(self, e):
        return self.lib.make_set(self.elements(e.elts))

    def elements(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.items_of(self.eval(x.value)))
            else:
                out.append(self.eval(x))
        return out

    def ex_Dict(self, e):
        d = self.dict_()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.lib.call_method(d, "update", [self.eval(v)], {})
            else:
                kk = self.eval(k)
                self.setitem(d, kk, self.eval(v))
        return d

    def ex_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        if isinstance(a, Phi):
            return self.branch(a.cond, lambda: self.binop(op, a.a, b), lambda: self.binop(op, a.b, b))
        if isinstance(b, Phi):
            return self.branch(b.cond, lambda: self.binop(op, a, b.a), lambda: self.binop(op, a, b.b))
        return self.guard_op(lambda: self.lib.binop(op, a, b))

    def ex_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else tm.not_(t)
        return self.over(v, lambda x: self.lib.unary(type(e.op).__name__, x))

    def ex_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)

        def go(vals):
            v = self.eval(vals[0])
            if len(vals) == 1:
                return v
            t = self.truth(v)
            if isinstance(t, bool):
                return go(vals[1:]) if t == is_and else v
            if isinstance(v, T) and v.sort == "bool":
                short = not is_and
            else:
                short = v
            if is_and:
                return self.branch(t, lambda: go(vals[1:]), lambda: short)
            return self.branch(t, lambda: short, lambda: go(vals[1:]))
        return go(e.values)

    def ex_IfExp(self, e):
        return self.cond_exec(self.eval(e.test), lambda: self.eval(e.body), lambda: self.eval(e.orelse))

    def ex_Compare(self, e):
        left = self.eval(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r)
            c = self.compare(type(op).__name__, left, right)
            if res is None:
                res = c
            else:
                if isinstance(c, Ref) or isinstance(res, Ref):
                    raise Undecided("chained array comparison")
                res = self.norm(tm.and_(tm.term(res), tm.term(c)))
            if res is False:
                return False
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(a, Phi):
            return self.branch(a.cond, lambda: self.compare(op, a.a, b), lambda: self.compare(op, a.b, b))
        if isinstance(b, Phi):
            return self.branch(b.cond, lambda: self.compare(op, a, b.a), lambda: self.compare(op, a, b.b))
        return self.guard_op(lambda: self.lib.compare(op, a, b))

    def truth(self, v):
        """bool or boolean term."""
        if isinstance(v, Phi):
            r = self.branch(v.cond, lambda: self.truth(v.a), lambda: self.truth(v.b))
            if isinstance(r, bool):
                return r
            if isinstance(r, T):
                n = self.norm(r)
                return n if isinstance(n, bool) else r
            raise Undecided("truth of a join")
        r = self.guard_op(lambda: self.lib.truth(v))
        if isinstance(r, T):
            n = self.norm(r)
            if isinstance(n, bool):
                return n
            if r.sort != "bool":
                r = tm.ne(r, 0)
                n = self.norm(r)
                if isinstance(n, bool):
                    return n
            k = self.known(r)
            return r if k is None else k
        return bool(r)

    def ex_Lambda(self, e):
        return self.make_function(e)

    def ex_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    def ex_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(str(v.value))
            else:
                x = self.eval(v.value)
                spec = self.eval(v.format_spec) if v.format_spec is not None else ""
                if v.conversion in (114, 97) and isinstance(x, (str, int, float)):
                    x = repr(x)
                if isinstance(x, (str, int, float)):
                    try:
                        parts.append(format(x, spec))
                    except ValueError as e:
                        self.raise_("ValueError", str(e))
                elif isinstance(x, T):
                    parts.append(format(self.lib.fmt(x), spec))
                else:
                    parts.append(self.lib.text(x))
        return "".join(parts)

    def ex_Attribute(self, e):
        return self.getattr(self.eval(e.value), e.attr)

    def ex_Subscript(self, e):
        o = self.eval(e.value)
        k = self.eval_index(e.slice)
        return self.getitem(o, k)

    def eval_index(self, s):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.eval(x)
            return Slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x) for x in s.elts)
        return self.eval(s)

    def ex_Slice(self, s):
        return self.eval_index(s)

    def getattr(self, o, name):
        return self.over(o, lambda x: self.lib.getattr(x, name))

    def setattr(self, o, name, v):
        return self.over(o, lambda x: self.lib.setattr(x, name, v))

    def getitem(self, o, k):
        if isinstance(k, Phi):
            return self.branch(k.cond, lambda: self.getitem(o, k.a), lambda: self.getitem(o, k.b))
        return self.over(o, lambda x: self.lib.getitem(x, k))

    def setitem(self, o, k, v):
        return self.over(o, lambda x: self.lib.setitem(x, k, v))

    def ex_Starred(self, e):
        raise Undecided("starred expression")

    def ex_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else None
        self.do_yield(v)
        return None

    def do_yield(self, v):
        fr = self.frames[-1]
        cb = fr.yield_cb
        if cb is None:
            raise Undecided("yield outside a generator")
        cb(v)

    def ex_YieldFrom(self, e):
        it = self.eval(e.value)
        self.loop_over(it, self.do_yield, e)
        return None

    # comprehensions
    def comp(self, gens, emit):
        fr = self.frames[-1]
        env = self.alloc(EnvC({}, fr.env), "env")
        nf = Frame(fr.func, env, fr.self_, fr.yield_cb)
        nf.comp_of = fr
        first = self.eval(gens[0].iter)
        self.frames.append(nf)
        try:
            def go(i, it=None):
                if i == len(gens):
                    emit()
                    return
                g = gens[i]
                src = it if it is not None else self.eval(g.iter)

                def body(v):
                    self.assign(g.target, v)

                    def conds(cs):
                        if not cs:
                            go(i + 1)
                            return
                        self.cond_exec(self.eval(cs[0]), lambda: conds(cs[1:]), lambda: None)
                    conds(g.ifs)
                self.loop_over(src, body, g)
            go(0, first)
        finally:
            while self.frames[-1] is not nf:
                self.frames.pop()
            self.frames.pop()

    def generic_comp(self, e):
        """[f(x) for x in <symbolic>] as a symbolic sequence."""
        return None

    def ex_ListComp(self, e):
        out = self.list_([])
        self.comp(e.generators, lambda: self.lib.list_append(out, self.eval(e.elt), quiet=True))
        return out

    def ex_GeneratorExp(self, e):
        r = self.ex_ListComp(e)
        return self.lib.make_iter(r)

    def ex_SetComp(self, e):
        out = self.ex_ListComp(e)
        return self.lib.make_set(self.items_of(out))

    def ex_DictComp(self, e):
        d = self.dict_()

        def emit():
            k = self.eval(e.key)
            self.setitem(d, k, self.eval(e.value))
        self.comp(e.generators, emit)
        return d

    # ----------------------------------------------------------------- calls

    def ex_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and \
                self.env_lookup(self.frames[-1].env, "super") is None:
            fr = self.frames[-1]
            if not e.args:
                while hasattr(fr, "comp_of"):
                    fr = fr.comp_of
                return SuperV(fr.func.cls, fr.self_)
            c, s = [self.eval(a) for a in e.args]
            return SuperV(c, s)
        f = self.eval(e.func)
        pos = [(isinstance(a, ast.Starred), self.eval(a.value if isinstance(a, ast.Starred) else a)) for a in e.args]
        named = [(k.arg, self.eval(k.value)) for k in e.keywords]
        self.callsites += 1
        return self.finish_call(f, pos, named, e)

    def finish_call(self, f, pos, named, e):
        args, kw = [], {}
        try:
            for starred, v in pos:
                args.extend(self.items_of(v)) if starred else args.append(v)
            for name, v in named:
                if name is not None:
                    kw[name] = v
                    continue
                for kk, vv in self.lib.dict_items(v):
                    if not isinstance(kk, str):
                        raise Undecided("non-string keyword")
                    kw[kk] = vv
        except NeedSplit as s:
            # the arguments depend on the path: one call for each
            def with_(content):
                def go():
                    self.heap[s.oid] = content
                    return self.finish_call(f, pos, named, e)
                return go
            return self.branch(s.phi.cond, with_(s.phi.a), with_(s.phi.b))
        old = self.site
        m = self.frames[-1].func.module
        self.site = "%s:%d" % (os.path.relpath(m.path, self.repo), e.lineno)
        r = self.call(f, args, kw, e)
        self.site = old
        return r

    def call(self, f, args, kw, node=None):
        if isinstance(f, Phi):
            return self.branch(f.cond, lambda: self.call(f.a, args, kw, node),
                               lambda: self.call(f.b, args, kw, node))
        if isinstance(f, Func):
            return self.call_function(f, args, kw)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + list(args), kw, node)
        if isinstance(f, Class):
            return self.instantiate(f, args, kw)
        if isinstance(f, Native):
            return self.guard_op(lambda: f.fn(self, list(args), dict(kw)))
        if isinstance(f, (StaticM,)):
            return self.call(f.fn, args, kw, node)
        try:
            return self.lib.call(f, list(args), dict(kw), node)
        except MissingArgument as e:
            self.raise_("TypeError", str(e))

    def instantiate(self, cls, args, kw):
        if cls.is_enum and len(args) == 1 and not kw:
            if args[0] in cls.members.values():
                return args[0]
            for m in cls.members.values():
                if self.key(m.attrs["value"]) == self.key(args[0]):
                    return m
            self.raise_("ValueError", "not an enum value")
        o = self.alloc(InstC(cls, {}), "inst")
        init = self.class_attr(cls, "__init__")
        if isinstance(init, Func):
            self.call_function(init, [o] + list(args), kw)
        elif any(isinstance(b, Lib) and b.name.endswith(("Error", "Exception")) for b in cls.mro()):
            pass
        elif args or kw:
            if isinstance(init, Native):
                init.fn(self, [o] + list(args), kw)
            else:
                self.raise_("TypeError", "no arguments expected")
        return o

    def class_attr(self, cls, name, after=None):
        mro = cls.mro()
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if isinstance(c, Class) and name in c.attrs:
                return c.attrs[name]
        return UNBOUND

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vars_ = {}
        rest = list(args[len(names):])
        for n, v in zip(names, args):
            vars_[n] = v
        if rest and a.vararg is None:
            self.raise_("TypeError", "%s() takes %d positional arguments" % (f.name, len(names)))
        if a.vararg is not None:
            vars_[a.vararg.arg] = tuple(rest)
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in vars_:
                    self.raise_("TypeError", "%s() got multiple values for argument %r" % (f.name, k))
                vars_[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.raise_("TypeError", "%s() got an unexpected keyword argument %r" % (f.name, k))
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:], f.defaults):
            vars_.setdefault(n, d)
        for n in kwonly:
            if n not in vars_:
                if n in f.kwdefaults:
                    vars_[n] = f.kwdefaults[n]
                else:
                    self.raise_("TypeError", "missing keyword argument %r" % n)
        for n in names:
            if n not in vars_:
                self.raise_("TypeError", "%s() missing argument %r" % (f.name, n))
        if a.kwarg is not None:
            vars_[a.kwarg.arg] = self.dict_([(k, v) for k, v in extra.items()])
        return vars_

    def call_function(self, f, args, kw):
        full = "%s.%s" % (f.module.name, ((f.cls.name + ".") if f.cls else "") + f.name)
        if full in self.overrides:
            return self.overrides[full].fn(self, list(args), dict(kw))
        self.analysed.add(full)
        if self.depth > 60:
            raise Undecided("call depth at %s" % self.site)
        vars_ = self.bind_args(f, args, kw)
        env = self.alloc(EnvC(vars_, f.env), "env")
        self_ = args[0] if args else None
        if isinstance(f.node, ast.Lambda):
            fr = Frame(f, env, self_)
            self.frames.append(fr)
            self.depth += 1
            try:
                return self.eval(f.node.body)
            finally:
                self.depth -= 1
                while self.frames[-1] is not fr:
                    self.frames.pop()
                self.frames.pop()
        if has_yield(f.node):
            return GenV(f, env, self_)
        fr = Frame(f, env, self_)
        return self.exec_function_body(fr)

    def exec_function_body(self, fr):
        pc0 = self.pc
        rc = self.raise_count
        site = self.site
        self.frames.append(fr)
        frames = self.frames
        depth = len(frames)
        self.depth += 1
        final = None
        value = None
        try:
            try:
                self.exec_block(fr.func.node.body)
            except ReturnExc as e:
                if e.frame is not fr:
                    raise
                value = e.value
            except PyRaise as e:
                if not fr.pending:
                    raise
                self.pend(e, self.pc, self.heap)
                final = e
            except ControlExit:
                # leaves through this frame (break/return of a generator's consumer)
                if fr.pending:
                    raise Undecided("mixed exits through a generator")
                raise
        finally:
            self.depth -= 1
            self.frames = frames
            del frames[depth - 1:]
        self.site = site
        outs = [(pc, v, h) for pc, v, h in fr.pending]
        if final is None:
            outs.append((self.pc, value, self.heap))
        n = len(pc0)
        pc, value, heap = outs[-1]
        for pc2, v2, h2 in reversed(outs[:-1]):
            g = tm.and_(*pc2[n:])
            heap = self.join(g, h2, heap)
            value = self.phi(g, v2, value)
        self.heap = heap
        if self.raise_count != rc:
            r = tm.or_(*[tm.and_(*p[n:]) for p, _, _ in outs])
            self.pc = pc0 + ([r] if r is not tm.TRUE else [])
        else:
            self.pc = pc0
        return value

    # ------------------------------------------------------------ entry point

    def run(self, f):
        """Run f(); returns Outcome with the value, and what was raised."""
        pc0 = self.pc
        n0 = len(self.raises)
        if not self.frames:
            env = self.alloc(EnvC({}, None), "env")
            m = Module("<driver>", env, "<driver>", None)
            self.frames = [Frame(Func("<driver>", None, env, [], {}, m), env)]
        frames = list(self.frames)
        value = UNBOUND
        try:
            value = f()
        except PyRaise as e:
            self.pend(e, self.pc, self.heap)
            self.pc = self.pc + [tm.FALSE]
        self.frames = frames
        raised = self.raises[n0:]
        return Outcome(value, raised, tm.and_(*self.pc[len(pc0):]))


def substitute(t, m, memo=None):
    memo = {} if memo is None else memo
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    args = tuple(substitute(a, m, memo) if isinstance(a, T) else a for a in t.args)
    r = t if args == t.args else tm._mk(t.op, args, t.sort)
    memo[t] = r
    return r

"""Abstract values of the interpreter."""
import itertools
from . import terms as tm
from .terms import T, Undecided

_uid = itertools.count(1)


class Ref(object):
    """Reference to a heap object; `kind` is fixed at creation."""
    __slots__ = ("oid", "kind")

    def __init__(self, oid, kind):
        self.oid, self.kind = oid, kind

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(("ref", self.oid))

    def __repr__(self):
        return "<%s #%s>" % (self.kind, self.oid)

    def as_term(self):
        return tm.uf("ref", self.oid, sort="obj")


class Phi(object):
    """Gated join of two values that have no common scalar form."""
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def as_term(self):
        return tm.ite(self.cond, tm.term(self.a), tm.term(self.b))

    def __repr__(self):
        return "phi(%r, %r, %r)" % (self.cond, self.a, self.b)


class _Undef(object):
    def __repr__(self):
        return "<unbound>"


UNBOUND = _Undef()


class EnvC(object):
    __slots__ = ("vars", "parent", "globals_", "nonlocals")

    def __init__(self, vars_, parent):
        self.vars, self.parent = vars_, parent


class InstC(object):
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class SymSeq(object):
    """Items of a sequence of unknown length."""
    __slots__ = ("length", "elem", "tail")

    def __init__(self, length, elem, tail=()):
        self.length, self.elem, self.tail = length, elem, tuple(tail)

    def __len__(self):
        raise Undecided("length of a symbolic sequence")


class ListC(object):
    __slots__ = ("items", "maxlen")

    def __init__(self, items, maxlen=None):
        self.items, self.maxlen = items, maxlen


class DictC(object):
    __slots__ = ("items", "rest", "default")

    def __init__(self, items, rest=None, default=None):
        self.items, self.rest, self.default = tuple(items), rest, default


class SetC(object):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class IterC(object):
    """A Python iterator with a position over finitely many known items."""
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class RngC(object):
    __slots__ = ("state", "flavour")

    def __init__(self, state, flavour):
        self.state, self.flavour = state, flavour


class ArrC(object):
    """numpy array: `data` is an object ndarray of terms or an SArr."""
    __slots__ = ("data", "owner", "dtype", "view")

    def __init__(self, data, owner=None, dtype=None, view=False):
        self.data, self.owner, self.dtype, self.view = data, owner, dtype, view


class SArr(object):
    """Array of symbolic shape, given by its element function."""
    __slots__ = ("shape", "elem")

    def __init__(self, shape, elem):
        self.shape, self.elem = tuple(shape), elem


class GenIter(object):
    """Iterable of a symbolic number of elements (count may be None: infinite)."""

    def __init__(self, count, elem, name="it", after=None):
        self.count, self.elem, self.name = count, elem, name


class StateC(object):
    """Values of the graph variables."""
    __slots__ = ("vars",)

    def __init__(self, vars_):
        self.vars = vars_


class Func(object):
    def __init__(self, name, node, env, defaults, kwdefaults, module, cls=None):
        self.name, self.node, self.env = name, node, env
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.module, self.cls = module, cls
        self.attrs = {}
        self.uid = next(_uid)

    def as_term(self):
        return tm.uf("func", "%s.%s" % (self.module.name, self.name), self.uid, sort="obj")

    def __repr__(self):
        return "<function %s.%s>" % (self.module.name, self.name)


class Bound(object):
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __eq__(self, o):
        return isinstance(o, Bound) and o.fn is self.fn and o.self_ == self.self_

    def __hash__(self):
        return hash((id(self.fn), self.self_))

    def __repr__(self):
        return "<bound %r>" % (self.fn,)


class Class(object):
    def __init__(self, name, bases, attrs, module, node):
        self.name, self.bases, self.attrs = name, bases, attrs
        self.module, self.node = module, node
        self.is_enum = False
        self.members = {}

    def mro(self):
        seqs = [list(b.mro()) if isinstance(b, Class) else [b] for b in self.bases]
        seqs.append(list(self.bases))
        out = [self]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                c = s[0]
                if not any(c in o[1:] for o in seqs):
                    break
            out.append(c)
            seqs = [[x for x in s if x is not c and x != c] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    def __repr__(self):
        return "<class %s>" % self.name

    def as_term(self):
        return tm.uf("class", "%s.%s" % (self.module.name, self.name), sort="obj")


class Prop(object):
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticM(object):
    def __init__(self, fn):
        self.fn = fn


class ClassM(object):
    def __init__(self, fn):
        self.fn = fn


class Module(object):
    def __init__(self, name, env, path, tree):
        self.name, self.env, self.path, self.tree = name, env, path, tree

    def __repr__(self):
        return "<module %s>" % self.name


class Lib(object):
    """A name in a library: module, function, class or constant."""
    __slots__ = ("name",)
    _cache = {}

    def __new__(cls, name):
        o = cls._cache.get(name)
        if o is None:
            o = object.__new__(cls)
            o.name = name
            cls._cache[name] = o
        return o

    def __repr__(self):
        return "<%s>" % self.name

    def as_term(self):
        return tm.uf("lib", self.name, sort="obj")


class DType(object):
    __slots__ = ("name",)
    _cache = {}

    def __new__(cls, name):
        o = cls._cache.get(name)
        if o is None:
            o = object.__new__(cls)
            o.name = name
            cls._cache[name] = o
        return o

    def base(self):
        return DType(self.name[:-4]) if self.name.endswith("_ref") else self

    def __repr__(self):
        return "tf." + self.name

    def as_term(self):
        return tm.uf("dtype", self.name, sort="obj")


class BuiltinM(object):
    """Bound method of a built-in object."""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return "<method %s of %r>" % (self.name, self.obj)


class Native(object):
    """A callable implemented by the analysis (driver stubs)."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<native %s>" % self.name

    def as_term(self):
        return tm.uf("native", self.name, sort="obj")


class Opq(object):
    """An object of which only a name, a type and some attributes are known."""

    def __init__(self, name, typ=None, attrs=None, methods=None, call=None,
                 has=None, iter_=None, strict=False):
        self.name, self.typ = name, typ
        self.attrs, self.methods = dict(attrs or {}), dict(methods or {})
        self.call, self.has, self.iter_ = call, has, iter_
        self.strict = strict

    def as_term(self):
        return tm.sym("obj:" + self.name, "obj")

    def __repr__(self):
        return "<%s>" % self.name


class ExcVal(object):
    """An exception instance."""

    def __init__(self, cls, args):
        self.cls, self.args = cls, args

    def name(self):
        return self.cls.name.split(".")[-1]

    def __repr__(self):
        return "%s%r" % (self.name(), tuple(self.args))

    def as_term(self):
        return tm.uf("exc", self.name(), sort="obj")


class SuperV(object):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Slice(object):
    __slots__ = ("start", "stop", "step")

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class RangeV(object):
    __slots__ = ("start", "stop", "step")

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class GenV(object):
    """A generator object of an analysed generator function."""

    def __init__(self, func, env, frame_self):
        self.func, self.env, self.frame_self = func, env, frame_self
        self.done = None        # list Ref once drained
        self.item = None        # the item at hand while a loop advances the generator with next()
        self.pulled = False
        self.endless = False    # its body was found to loop for ever
        self.uid = next(_uid)

    def __repr__(self):
        return "<generator %s>" % self.func.name


class Shape(tuple):
    """Static tensor shape."""


class Lazy(object):
    """iterator adaptors with unresolved sources: kind in map/zip/enumerate/islice..."""

    def __init__(self, kind, args):
        self.kind, self.args = kind, args


class NotAnObject(Exception):
    """A heap object was required where there is something else."""

    def __init__(self, value):
        Exception.__init__(self, "%r is not an object" % (value,))
        self.value = value

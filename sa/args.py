"""Binding of the arguments of modelled library functions."""
from .terms import Undecided


class MissingArgument(Exception):
    """A required argument of a library function is left out: Python raises a TypeError."""


class P(object):
    """P(args, kw, 'x axis=None keepdims=False') -> attributes."""
    DEF = {"None": None, "True": True, "False": False, "()": ()}

    def __init__(self, args, kw, spec, ignore=()):
        names = []
        self.given = set()
        for part in spec.split():
            n, _, d = part.partition("=")
            names.append(n)
            if d:
                if d in self.DEF:
                    setattr(self, n, self.DEF[d])
                elif d.startswith("'"):
                    setattr(self, n, d.strip("'"))
                else:
                    setattr(self, n, float(d) if "." in d else int(d))
        if len(args) > len(names):
            raise Undecided("too many arguments for a library function (%s)" % spec)
        for n, a in zip(names, args):
            setattr(self, n, a)
            self.given.add(n)
        for k, v in kw.items():
            if k in names:
                setattr(self, k, v)
                self.given.add(k)
            elif k not in ignore:
                raise Undecided("argument %s of a library function (%s)" % (k, spec))
        for n in names:
            if not hasattr(self, n):
                raise MissingArgument("missing argument %s (%s)" % (n, spec))

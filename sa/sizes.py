"""Sizes at which the code itself decides: integer literals that it compares with, bounds with or slices by.

Scenarios enumerate small sizes; a branch on a literal size (`if len(x) > 500`) is only taken beyond it. The literals are
read from the current source, so that scenarios at these sizes follow the code.
"""
import ast
import os

import numpy as np

from . import terms as tm

REPO = os.environ.get("SA_REPO") or "/repo"


def literals(tree):
    out = set()

    def take(n):
        if isinstance(n, ast.UnaryOp):
            n = n.operand
        if isinstance(n, ast.BinOp):
            take(n.left), take(n.right)
            if isinstance(n.left, ast.Constant) and isinstance(n.right, ast.Constant) and \
                    all(isinstance(x.value, (int, float)) for x in (n.left, n.right)):
                a, b = n.left.value, n.right.value
                if isinstance(n.op, ast.Pow) and 0 <= b < 40:
                    out.add(a ** b)
                elif isinstance(n.op, ast.Mult):
                    out.add(a * b)
                elif isinstance(n.op, ast.LShift) and 0 <= b < 40:
                    out.add(a << b)
        if isinstance(n, (ast.Tuple, ast.List, ast.Set)):
            for e in n.elts:
                take(e)
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            out.add(n.value)

    for n in ast.walk(tree):
        if isinstance(n, ast.Compare):
            for e in [n.left] + n.comparators:
                take(e)
        elif isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
            take(n.value)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("min", "max", "range", "deque", "islice"):
            for e in n.args + [k.value for k in n.keywords]:
                take(e)
        elif isinstance(n, ast.Slice):
            for e in (n.lower, n.upper, n.step):
                if e is not None:
                    take(e)
        elif isinstance(n, (ast.BinOp, ast.AugAssign)) and isinstance(n.op, (ast.Mod, ast.FloorDiv)):
            take(n.right if isinstance(n, ast.BinOp) else n.value)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name.startswith("_") and not n.name.startswith("__"):
            for e in n.args.defaults + [d for d in n.args.kw_defaults if d is not None]:
                take(e)
    return out


def sizes(modules, lo, hi, limit=3):
    """The literal sizes in [lo, hi] of these modules (paths below pysgmcmc), each with its successor."""
    found = set()
    for m in modules:
        path = os.path.join(REPO, "pysgmcmc", m)
        for root, _, files in os.walk(path) if os.path.isdir(path) else [(os.path.dirname(path), [], [os.path.basename(path)])]:
            for f in files:
                p = os.path.join(root, f)
                if f.endswith(".py") and os.path.exists(p):
                    try:
                        found |= literals(ast.parse(open(p, encoding="utf-8").read()))
                    except (SyntaxError, UnicodeDecodeError):
                        pass
    found = sorted(int(c) for c in found if c == int(c) and lo <= c <= hi)[:limit]
    return sorted(set(found) | {c + 1 for c in found})


FREE = 40


def array(name, shape, kind=None):
    """An array of free symbols; beyond FREE rows, of distinct numbers (so that its statistics stay small)."""
    d = np.empty(tuple(shape), dtype=object)
    plain = d.ndim and d.shape[0] > FREE
    salt = sum(map(ord, name))
    for k, i in enumerate(np.ndindex(d.shape)):
        if plain:
            d[i] = tm.term(((k * 7919 + salt) % 10007) / 8. + 0.25)
        else:
            n = "%s%s" % (name, list(i))
            d[i] = tm.sym(n, kind=kind) if kind else tm.sym(n)
    return d

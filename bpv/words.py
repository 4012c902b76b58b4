"""Boundary values: powers of two and the literals of the code under test.

The literals are read from the source with the ast module.  They only steer
generation towards sizes, counts and strings the code distinguishes; whether
a case passes is never decided by them.
"""
import ast
import functools
import os

from . import env

LIMIT = 1 << 64

# integer literals of the code when this was written; others get more attention
USUAL = frozenset([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 20, 24, 30, 31, 32, 40, 63, 64, 90, 255,
                   1024, 2 ** 20, 2 ** 30, 2 ** 40, 2 ** 31, 2 ** 32, 2 ** 32 - 1, 2 ** 63, 2 ** 63 - 1,
                   0xffffffff])


def fold(node, names):
    """Value of a constant expression, or None."""
    if isinstance(node, ast.Constant):
        return node.value
    if isinstance(node, ast.Name):
        return names.get(node.id)
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.UAdd)):
        v = fold(node.operand, names)
        if isinstance(v, (int, float)):
            return -v if isinstance(node.op, ast.USub) else v
    if isinstance(node, ast.BinOp):
        a, b = fold(node.left, names), fold(node.right, names)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and abs(a) < LIMIT and abs(b) < LIMIT:
            try:
                if isinstance(node.op, ast.Add):
                    return a + b
                if isinstance(node.op, ast.Sub):
                    return a - b
                if isinstance(node.op, ast.Mult):
                    return a * b
                if isinstance(node.op, ast.FloorDiv):
                    return a // b
                if isinstance(node.op, ast.Div):
                    return a / b
                if isinstance(node.op, ast.Pow) and abs(b) < 80:
                    return a ** b
                if isinstance(node.op, ast.LShift) and 0 <= b < 80:
                    return a << b
                if isinstance(node.op, ast.Mod):
                    return a % b
            except (ArithmeticError, TypeError, ValueError):
                pass
    return None


@functools.lru_cache(None)
def literals():
    """(ints, strings) used anywhere in the code under test."""
    ints, strs = set(), set()
    for n in sorted(os.listdir(env.SUT_DIR)):
        if not n.endswith('.py') or n == 'testutil.py':
            continue
        try:
            with open(os.path.join(env.SUT_DIR, n), 'rb') as fp:
                tree = ast.parse(fp.read())
        except (SyntaxError, ValueError, OSError):
            continue
        names = {}
        for node in ast.walk(tree):
            if isinstance(node, ast.Assign) and len(node.targets) == 1 and \
                    isinstance(node.targets[0], ast.Name):
                v = fold(node.value, names)
                if isinstance(v, (int, float)) and not isinstance(v, bool):
                    names[node.targets[0].id] = v
        for node in ast.walk(tree):
            if isinstance(node, (ast.Constant, ast.BinOp, ast.UnaryOp)):
                v = fold(node, names)
                if isinstance(v, bool) or v is None:
                    continue
                if isinstance(v, float) and v == v and abs(v) < LIMIT:
                    v = int(v)
                if isinstance(v, int) and abs(v) < LIMIT:
                    ints.add(abs(v))
                elif isinstance(v, bytes) and len(v) <= 40:
                    strs.add(v.decode('latin-1'))
                elif isinstance(v, str) and len(v) <= 40:
                    strs.add(v)
    return ints, strs


def ints():
    return sorted(literals()[0])


def strings():
    return sorted(s for s in literals()[1] if '\n' not in s)


def novel():
    """Integer literals the code did not contain when this was written."""
    return sorted(literals()[0] - USUAL)


def around(lo, hi, powers=True):
    """Sorted values in [lo, hi]: powers of two, literals, small multiples of
    the less usual literals, each with its neighbours."""
    base = set()
    if powers:
        base.update(1 << k for k in range(0, 65))
        base.update(10 ** k for k in range(0, 20))
    base.update(literals()[0])
    for v in novel():
        base.update((2 * v, 3 * v, 4 * v, v // 2))
    out = set()
    for b in base:
        out.update((b - 1, b, b + 1))
    return sorted(x for x in out if lo <= x <= hi)


def spread(values, n):
    """At most n of the values, evenly spread, always with all unusual ones."""
    values = list(values)
    if len(values) <= n:
        return values
    unusual = set()
    for v in novel():
        for k in (v // 2, v, 2 * v, 3 * v, 4 * v):
            unusual.update((k - 1, k, k + 1))
    step = len(values) / float(n)
    keep = set(values[int(i * step)] for i in range(n)) | {values[-1]}
    return [v for v in values if v in keep or v in unusual]

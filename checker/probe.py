"""Case enumeration of a method's result: callees are replaced by every outcome they may have, data by named constants, and the value the
source derives is compared with the specified one."""
import ast
from . import graphsem as gs, terms as T
from .absint import V
from .model import FunctionInfo

c = T.const


def P(n):
    return ('param', n)


def tup(*xs):
    return ('tuple', tuple(xs))


def program(inference=False):
    return gs.program(inference)


def fn(module, src):
    """a caller of the code under analysis, resolved in the module's own namespace"""
    node = ast.parse(src).body[0]
    return FunctionInfo(node.name, module, node)


def plain(a, state, depth=0):
    """a python value for constants and known containers; the term otherwise"""
    if depth > 8:
        return a
    if a[0] == 'const':
        return a[2]
    if a == T.NONE:
        return None
    if a[0] in ('tuple', 'list'):
        return [plain(x, state, depth + 1) for x in a[1]]
    if a[0] == 'ref' and state is not None:
        o = state.heap.get(a[1])
        if o is not None and o.kind in ('list', 'tuple') and o.items is not None and all(len(i) == 1 for i in o.items):
            return [plain(next(iter(i)), state, depth + 1) for i in o.items]
        if o is not None and o.kind == 'dict' and o.keys is not None and not o.elem and all(len(v) == 1 for v in o.keys.values()):
            return {plain(k, state, depth + 1): plain(next(iter(v)), state, depth + 1) for k, v in o.keys.items()}
    return a


def results(r):
    return [plain(a, r.state) for a in (r.value or ())]


def decided(v):
    if isinstance(v, list):
        return all(decided(x) for x in v)
    if isinstance(v, dict):
        return all(decided(x) for x in v.values())
    return not isinstance(v, tuple) or v[:1] in (('param',),)


def number(t, leaf):
    """the exact number a term denotes once its atoms are given by leaf(term); None when it is not arithmetic"""
    from fractions import Fraction
    v = leaf(t)
    if v is not None:
        return v
    k = t[0]
    if k == 'const':
        return t[2] if isinstance(t[2], (int, float)) else None
    if k == 'poly':
        s = 0
        for mono, q in t[1]:
            x = Fraction(q)
            for a, e in mono:
                y = number(a, leaf)
                if y is None or (y == 0 and e < 0):
                    return None
                x *= Fraction(y) ** e
            s += x
        return int(s) if s == int(s) else s
    if k == 'call':
        xs = [number(a, leaf) for a in t[2]]
        if any(x is None for x in xs) or not xs:
            return None
        try:
            import math
            if t[1] in ('pymax', 'max', 'maximum'):
                return max(xs)
            if t[1] in ('pymin', 'min', 'minimum'):
                return min(xs)
            if t[1] in ('int', 'float', 'copy', 'abs', 'trunc') and len(xs) == 1:
                return xs[0] if t[1] in ('float', 'copy') else abs(xs[0]) if t[1] == 'abs' else math.trunc(xs[0])
            if t[1] == 'floordiv' and len(xs) == 2:
                return xs[0] // xs[1]
            if t[1] in ('floor', 'ceil') and len(xs) == 1:
                return getattr(math, t[1])(xs[0])
            if t[1] == 'mod' and len(xs) == 2:
                return xs[0] % xs[1]
            if t[1] in ('pysum',):
                return sum(xs)
        except (ZeroDivisionError, TypeError):
            return None
    return None


def compare(t, leaf):
    """truth of a comparison between arithmetic terms, or None"""
    if t[0] != 'cmp':
        x = number(t, leaf) if t[0] in ('poly', 'call') else leaf(t)
        return None if x is None else bool(x)
    a, b = number(t[2], leaf), number(t[3], leaf)
    if a is None or b is None:
        return None
    return {'<': a < b, '<=': a <= b, '==': a == b, '!=': a != b, '>': a > b, '>=': a >= b}.get(t[1])

"""Numeric meaning of derived array expressions: two normal forms that are spelled with different primitives are compared at sample points. Nothing of the
analysed program runs: the terms are evaluated here."""
import glob
import math
import sys
from fractions import Fraction

from . import terms as T

try:
    import numpy as np
except ImportError:
    np = None
    for d in sorted(glob.glob('/opt/veriftools/pyvenv/lib/python3*/site-packages')):
        if d not in sys.path:
            sys.path.append(d)
            try:
                import numpy as np
            except ImportError:
                np = None
            finally:
                sys.path.remove(d)

PLAIN = set('''absolute ceil floor round sign sqrt exp log sin cos tan arctan arcsin arccos sinh cosh tanh maximum minimum clip logical_not logical_and logical_or logical_xor zeros_like ones_like full_like
 where sum mean prod max min any all matmul mod fmod transpose concatenate stack take argmax argmin expand_dims tile arange ones zeros full cumsum array asarray nonzero tril triu squeeze split array_split pad
 bitwise_and bitwise_or bitwise_xor invert equal not_equal less greater less_equal greater_equal swapaxes moveaxis broadcast_to square power multiply divide subtract add negative floor_divide reciprocal log1p expm1
 log2 log10 rint trunc flip rollaxis dot outer repeat sort argsort identity eye hypot isnan isinf nan_to_num ravel atleast_1d heaviside count_nonzero argwhere take_along_axis tensordot'''.split())


class Undecided(Exception):
    pass


def evaluate(t, env, bind=None):
    bind = bind or {}

    def go(t):
        if t in bind:
            return bind[t]
        k = t[0]
        if k == 'const':
            return t[2] if not isinstance(t[2], Fraction) else float(t[2])
        if k == 'param':
            if t[1] in env:
                return env[t[1]]
            raise Undecided(t)
        if k == 'attr':
            if t[2] == 'numpy' and t[1][0] == 'param' and t[1][1] in env:
                return env[t[1][1]]
            if t[2] in ('shape', 'dtype', 'T', 'size', 'ndim'):
                return getattr(np.asarray(go(t[1])), t[2])
            raise Undecided(t)
        if k == 'ext' and isinstance(t[1], str) and t[1].startswith('numpy.'):
            return getattr(np, t[1][6:])
        if k == 'builtin' and t[1] in ('int', 'float', 'bool'):
            return {'int': int, 'float': float, 'bool': bool}[t[1]]
        if k in ('tuple', 'list'):
            return tuple(go(x) for x in t[1])
        if k == 'concat':
            return tuple(go(t[1])) + tuple(go(t[2]))
        if k == 'slice':
            return slice(*[go(x) for x in t[1:4]])
        if k == 'idx':
            i = go(t[2])
            return go(t[1])[i]
        if k == 'poly':
            acc = 0
            for m, c in t[1]:
                x = c if isinstance(c, (int, float)) else float(c)
                for b, p in m:
                    v = go(b)
                    x = x * (v if p == 1 else v ** p if p > 0 else np.asarray(v, dtype=float) ** p)
                acc = acc + x
            return acc
        if k == 'cmp':
            a, b = go(t[2]), go(t[3])
            if t[1] in ('==', '!=', '<', '<='):
                return {'==': np.equal, '!=': np.not_equal, '<': np.less, '<=': np.less_equal}[t[1]](a, b)
            raise Undecided(t)
        if k == 'call':
            return call(t)
        raise Undecided(t)

    def call(t):
        name = t[1]
        if name == 'stored':
            return stored(t)
        a = [go(x) for x in t[2]]
        kw = {n: go(v) for n, v in t[3]}
        if name == 'compress' and len(a) == 1:
            return np.compress(kw['condition'], a[0], kw.get('axis'))
        if name == 'reshape':
            return np.reshape(a[0], kw['shape'] if 'shape' in kw else a[1])
        if name == 'astype':
            return np.asarray(a[0]).astype(kw.get('dtype', a[1] if len(a) > 1 else None))
        if name == 'floordiv':
            return a[0] // a[1]
        if name == 'pow':
            return a[0] ** a[1]
        if name == 'div':
            return a[0] / a[1]
        if name in ('item', 'int', 'float') and len(a) == 1:
            return {'item': lambda x: np.asarray(x).item(), 'int': int, 'float': float}[name](a[0])
        if name in ('ndarray', 'copy') and len(a) == 1:
            return np.array(a[0])
        if name == 'shapeof' and len(a) == 1:
            return np.asarray(a[0]).shape
        if name in ('list', 'tuple', 'tolist') and len(a) == 1:
            return tuple(a[0])
        if name == 'erf' and len(a) == 1:
            return np.vectorize(math.erf, otypes=[float])(a[0])
        if name == 'len' and len(a) == 1:
            return len(a[0])
        if name in PLAIN:
            return getattr(np, name)(*a, **kw)
        raise Undecided(t)

    def stored(t):
        base = np.array(go(t[2][0]), dtype=float)
        if len(t[2]) != 2:  # the order of several writes is not known
            raise Undecided(t)
        for pair in t[2][1:]:
            if pair[0] != 'tuple' or len(pair[1]) != 2:
                raise Undecided(t)
            loops = sorted({x for x in T.subterms(pair) if x[0] == 'each' and x not in bind}, key=repr)
            if len(loops) > 1:
                raise Undecided(t)
            turns = [{}]
            if loops:
                s = loops[0][1]
                if s[0] != 'call' or s[1] != 'ndindex' or len(s[2]) != 1:
                    raise Undecided(t)
                n = go(s[2][0])
                turns = [{loops[0]: i} for i in np.ndindex(tuple(n) if isinstance(n, tuple) else (n,))]
            for b in turns:
                base[evaluate(pair[1][0], env, {**bind, **b})] = evaluate(pair[1][1], env, {**bind, **b})
        return base
    return go(t)


class Samples:
    """arrays for the inputs of one configuration"""
    POOL = {'float': [-7.5, 0.5, 2.75, -1.25, 6.5, 0.25, -0.75, 3.5, 1.5, -2.25, 9.0, -0.125, 4.25, 0.0, -3.5, 1.0, 8.75, -6.0, 2.5, 0.875, -4.5, 5.0, -5.25, 7.0],
            'nonzero': [2.0, -1.5, 0.5, 3.0, -2.0, 1.25, -0.75, 4.0], 'int': [-7, 3, 12, -4, 0, 5, -1, 9, 2, -3, 8, 1, 6, -9, 11, 4, -2, 7], 'nonzeroint': [2, -3, 1, 4, -2, 5],
            'bool': [True, False, False, True, True, False, True], 'index': [1, 0, 2, 1, 1, 0, 2, 2, 0], 'signed': [-1, 0, 1, -2, 1, -3, 2], 'small': [0, 1, 1, 0], 'uint8': [3, 200, 17, 255, 0, 128, 64]}

    def __init__(self, ranks, shapes, values, kinds):
        self.ranks, self.shapes, self.values, self.kinds = ranks, shapes, values, kinds

    def __iter__(self):
        for dims in ((3, 3, 3, 3, 3), (2, 3, 4, 2, 3), (4, 6, 9, 3, 2), (1, 1, 1, 1, 1)):
            for off in (0, 5, 11, 13, 18):
                yield self.env(dims, off)

    def env(self, dims, off):
        env = {}
        named = {}
        for i, r in enumerate(self.ranks):
            shape = self.shapes.get(i)
            if shape is None:
                if r is None:
                    v = self.values.get(i)
                    if v is not None:
                        env[f'in{i}'] = np.array(v)
                    continue
                shape = [dims[j] for j in range(r)]
            else:
                shape = [d if isinstance(d, int) else d[2] if T.is_num(d) else named.setdefault(d, dims[len(named) % 5]) for d in shape]
                for d, n in named.items():
                    env[d if isinstance(d, str) else d[1]] = n
            for j, d in enumerate(shape):
                env[f'in{i}.d{j}'] = d
            if i in self.values:
                env[f'in{i}'] = np.array(self.values[i])
                continue
            pool = self.POOL[self.kinds[i] if i < len(self.kinds) else self.kinds[-1]]
            n = 1
            for d in shape:
                n *= d
            flat = [pool[(off + i + j) % len(pool)] for j in range(n)]
            kind = self.kinds[i] if i < len(self.kinds) else self.kinds[-1]
            env[f'in{i}'] = np.array(flat, dtype=np.uint8 if kind == 'uint8' else None).reshape(shape)
        return env


def differ(got, want, samples):
    """a sample at which the expression has another value than a definition, provided every definition has one"""
    if np is None or not want:
        return None
    found = None
    samples = list(samples)
    with np.errstate(all='ignore'):
        gs = []
        for env in samples:
            try:
                g = np.asarray(evaluate(got, env))
            except Exception:
                g = None
            gs.append(None if g is None or g.dtype == object else g)
        for w in want:
            d = None
            for env, g in zip(samples, gs):
                if g is None:
                    continue
                try:
                    v = np.asarray(evaluate(w, env))
                except Exception:
                    continue
                if v.dtype != object and not same(g, v):
                    d = (env, g, v)
                    break
            if d is None:
                return None
            found = found or d
    return found


def agree(got, want, samples):
    """number of samples at which both have a value and agree (None: a difference)"""
    n = 0
    if np is None:
        return 0
    with np.errstate(all='ignore'):
        for env in samples:
            try:
                a, b = np.asarray(evaluate(got, env)), np.asarray(evaluate(want, env))
            except Exception:
                continue
            if not same(a, b):
                return None
            n += 1
    return n


def same(a, b):
    if a.shape != b.shape:
        return False
    try:
        a, b = a.astype(float), b.astype(float)
    except (TypeError, ValueError):
        return True
    ok = np.isfinite(b)
    return bool(np.all(np.where(ok, np.abs(a - b) <= 1e-6 * (1 + np.abs(b)), True)))

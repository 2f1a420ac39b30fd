"""P20: every kernel of the runtime writes its operator's result into the output it is given, every element, and nothing else."""
import ast
import itertools
import math

from .. import graphsem as gs, symt, terms as T
from ..absint import TooLong, V
from ..model import ClassInfo
from ..probe import P, c, fn, results

TITLE = "Each kernel of the runtime writes its operator's result"
TECHNIQUE = ('abstract interpretation of every registered kernel on tensors whose elements are expressions over the input elements; each output element\'s expression is compared, '
             'by normal form and else at generic points, with the operator\'s definition; unwritten elements, changed inputs and failures are reported')
EXPLANATION = ('Every kernel class is found through its registration and its run method is interpreted on enumerated small operand shapes, ranks, attribute forms (as built in memory and as read '
               'from a model file) and optional operands; the tensor library\'s operations are given by their index formulas, the operators by independently written definitions.')
LEVEL = 'bounded'
MODULE = 'inference.kernels'


class In:
    def __init__(self, shape, dtype='float32', values=None):
        self.shape, self.dtype, self.values = list(shape), dtype, values


def ints(xs, shape=None, dtype='int64'):
    return In([len(xs)] if shape is None else shape, dtype, list(xs))


class A:
    """an operand of a definition"""

    def __init__(self, t):
        self.shape, self.d = t.shape, t.data()
        self.s = symt.strides(t.shape)

    def __call__(self, i):
        """the element at an index, aligned to the right, repeated along dimensions of one"""
        i = i[len(i) - len(self.shape):]
        return self.d[sum((v if d != 1 else 0) * s for v, d, s in zip(i, self.shape, self.s))]

    def at(self, *i):
        return self.d[sum(v * s for v, s in zip(i, self.s))]


class Case:
    def __init__(self, op, label, ins, attrs, outs, ref, may_raise=False, cache=None):
        """outs: [(shape, dtype)], ref(E, operands, index, which) -> expression; cache: operand written besides, with its own definition"""
        self.op, self.label, self.ins, self.attrs, self.ref, self.may_raise, self.cache = op, label, ins, attrs, ref, may_raise, cache
        self.outs = [(list(o[0]), o[1]) if isinstance(o, tuple) else (list(o), 'float32') for o in outs]


def sh_(*xs):
    return symt.broadcast(*xs)


def cases():
    L = []

    def add(*a, **k):
        L.append(Case(*a, **k))
    pairs = [([2, 3], [2, 3]), ([2, 3], [3]), ([2, 1], [1, 3]), ([3], [2, 3]), ([2, 3], []), ([2, 3, 2], [3, 1])]
    E_ = {'Add': lambda E, a, b: E.add(a, b), 'Sub': lambda E, a, b: E.add(a, (b, -1)), 'Mul': lambda E, a, b: E.mul(a, b), 'Div': lambda E, a, b: E.mul(a, (b, -1)),
          'Pow': lambda E, a, b: E.f('pow', a, b)}
    for op, f in E_.items():
        for x, y in pairs:
            add(op, f'{x} and {y}', [In(x), In(y)], {}, [sh_(x, y)], lambda E, v, i, o, f=f: f(E, v[0](i), v[1](i)))
        if op in ('Add', 'Sub', 'Mul'):
            add(op, 'whole numbers', [In([2, 3], 'int64'), In([3], 'int64')], {}, [([2, 3], 'int64')], lambda E, v, i, o, f=f: f(E, v[0](i), v[1](i)))
    add('Pow', 'square by a constant', [In([2, 3]), In([], values=[2.0])], {}, [[2, 3]], lambda E, v, i, o: E.mul(v[0](i), v[0](i)))
    for op, n in (('Equal', 'eq'), ('Greater', 'gt'), ('Less', 'lt'), ('GreaterOrEqual', 'ge'), ('LessOrEqual', 'le')):
        for x, y in pairs[:5]:
            add(op, f'{x} and {y}', [In(x), In(y)], {}, [(sh_(x, y), 'bool')], lambda E, v, i, o, n=n: E.f(n, v[0](i), v[1](i)))
        add(op, 'whole numbers', [In([2, 3], 'int64'), In([3], 'int64')], {}, [([2, 3], 'bool')], lambda E, v, i, o, n=n: E.f(n, v[0](i), v[1](i)))
    for dt in ('int64', 'int32'):
        add('Mod', f'of {dt}', [In([2, 3], dt), In([3], dt)], {}, [([2, 3], dt)], lambda E, v, i, o: E.f('pymod', v[0](i), v[1](i)))
        add('Mod', f'of {dt}, truncating', [In([2, 3], dt), In([3], dt)], {'fmod': 1}, [([2, 3], dt)], lambda E, v, i, o: E.f('fmod', v[0](i), v[1](i)))
    add('Mod', 'of reals', [In([2, 3]), In([2, 3])], {'fmod': 1}, [[2, 3]], lambda E, v, i, o: E.f('fmod', v[0](i), v[1](i)))
    for x, y, z in (([2, 3], [2, 3], [2, 3]), ([2, 1], [3], []), ([3], [2, 3], [2, 1])):
        for d in ('bool', 'uint8'):
            add('Where', f'{d} {x}, {y}, {z}', [In(x, d), In(y), In(z)], {}, [sh_(x, y, z)], lambda E, v, i, o: E.f('where', v[0](i), v[1](i), v[2](i)))

    # element by element
    def sig(E, a):
        return E.mul((E.add(E.num(1), E.f('exp', E.mul(a, q=-1))), -1))
    un = {'Relu': lambda E, a: E.f('max', a, E.num(0)), 'Sigmoid': sig, 'Tanh': lambda E, a: E.f('tanh', a), 'Neg': lambda E, a: E.mul(a, q=-1), 'Sqrt': lambda E, a: E.f('sqrt', a),
          'Erf': lambda E, a: E.f('erf', a), 'Identity': lambda E, a: a, 'Silu': lambda E, a: E.mul(a, sig(E, a)), 'Exp': lambda E, a: E.f('exp', a), 'Log': lambda E, a: E.f('log', a),
          'Abs': lambda E, a: E.f('abs', a), 'Floor': lambda E, a: E.f('floor', a), 'Ceil': lambda E, a: E.f('ceil', a), 'Reciprocal': lambda E, a: E.mul((a, -1)),
          'Sin': lambda E, a: E.f('sin', a), 'Cos': lambda E, a: E.f('cos', a), 'Round': lambda E, a: E.f('round', a),
          'Gelu': lambda E, a: E.mul(a, E.add(E.num(1), E.f('erf', E.mul(a, q=1 / math.sqrt(2)))), q=0.5)}
    for op, f in un.items():
        for x in ([2, 3], [4], []):
            add(op, f'{x}', [In(x)], {}, [x], lambda E, v, i, o, f=f: f(E, v[0](i)))
    add('Identity', 'whole numbers', [In([3], 'int64')], {}, [([3], 'int64')], lambda E, v, i, o: v[0](i))
    add('Neg', 'whole numbers', [In([3], 'int64')], {}, [([3], 'int64')], lambda E, v, i, o: E.mul(v[0](i), q=-1))
    add('Relu', 'whole numbers', [In([3], 'int32')], {}, [([3], 'int32')], lambda E, v, i, o: E.f('max', v[0](i), E.num(0)))
    for at, al in (({}, 0.01), ({'alpha': 0.2}, 0.2), ({'alpha': 0.0}, 0.0)):
        add('LeakyRelu', f'{at}', [In([2, 3])], at, [[2, 3]], lambda E, v, i, o, al=al: E.f('where', E.f('gt', v[0](i), E.num(0)), v[0](i), E.mul(v[0](i), q=al)))

    def clip(lo, hi):
        def f(E, v, i, o):
            e = v[0](i)
            e = e if lo is None else E.f('max', e, E.num(lo))
            return e if hi is None else E.f('min', e, E.num(hi))
        return f
    s = lambda x: In([], values=[x])
    for lo, hi in ((-0.5, 0.7), (0.0, 6.0), (0.0, None), (None, 1.0), (0.6, None), (None, 0.0), (None, None)):
        at = {k: x for k, x in (('min', lo), ('max', hi)) if x is not None}
        add('Clip', f'attributes {at}', [In([2, 3])], at, [[2, 3]], clip(lo, hi))
        add('Clip', f'operands {at}', [In([2, 3]), None if lo is None else s(lo), None if hi is None else s(hi)], {}, [[2, 3]], clip(lo, hi))
    add('Clip', 'one operand', [In([2, 3]), s(0.3)], {}, [[2, 3]], clip(0.3, None))

    # layout
    def lin(x):
        """the n-th element stays the n-th"""
        st = symt.strides(x)
        return lambda E, v, i, o: v[0].d[sum(a * b for a, b in zip(i, st))]
    for x, r, y in (([2, 3], [3, 2], [3, 2]), ([2, 3, 4], [0, -1], [2, 12]), ([2, 3, 4], [0, 0, 4, 1], [2, 3, 4, 1]), ([2, 6], [-1], [12]), ([2, 6], [0, 2, -1], [2, 2, 3]), ([2, 3, 4], [-1, 0, 2], [4, 3, 2]), ([1], [], [])):
        add('Reshape', f'{x} to {r}', [In(x), ints(r)], {}, [y], lin(y), may_raise=r == [])
        add('Reshape', f'{x} to {r}, in place of an attribute', [In(x)], {'shape': r}, [y], lin(y), may_raise=r == [])
    for x, p in (([2, 3], [1, 0]), ([2, 3, 4], [0, 2, 1]), ([2, 3, 4], [1, 2, 0]), ([2, 3, 4], [2, 0, 1]), ([2, 3, 2, 2], [0, 2, 3, 1]), ([2, 3, 2, 4], [0, 2, 1, 3]), ([2, 3, 4], None), ([2, 3], None), ([3], None)):
        q = p or list(range(len(x)))[::-1]
        add('Transpose', f'{x} by {p}', [In(x)], {} if p is None else {'perm': p}, [[x[k] for k in q]],
            lambda E, v, i, o, q=q: v[0].at(*[i[q.index(k)] for k in range(len(q))]))
    for x, a in (([2, 3, 4], 1), ([2, 3, 4], 0), ([2, 3, 4], 2), ([2, 3, 4], 3), ([2, 3, 4], -1), ([2, 3], None), ([2, 3, 4], None)):
        k = (1 if a is None else a) % (len(x) + 1) if (a or 0) >= 0 else len(x) + a
        y = [symt.numel(x[:k]), symt.numel(x[k:])]
        add('Flatten', f'{x} at {a}', [In(x)], {} if a is None else {'axis': a}, [y], lin(y))
    for xs, a in (([[2, 3], [2, 2]], 1), ([[2, 3], [1, 3]], 0), ([[2, 3], [2, 2], [2, 1]], -1), ([[2, 3, 2], [2, 1, 2]], -2), ([[3], [2]], 0), ([[2, 3]], 1)):
        k = a % len(xs[0])
        y = list(xs[0])
        y[k] = sum(x[k] for x in xs)

        def ref(E, v, i, o, k=k):
            j = list(i)
            for t in v:
                if j[k] < t.shape[k]:
                    return t.at(*j)
                j[k] -= t.shape[k]
        add('Concat', f'{xs} at {a}', [In(x) for x in xs], {'axis': a}, [y], ref)
    add('Concat', 'whole numbers', [In([2], 'int64'), In([1], 'int64')], {'axis': 0}, [([3], 'int64')], lambda E, v, i, o: v[0].at(i[0]) if i[0] < 2 else v[1].at(i[0] - 2))
    for x, a, y in (([1, 3, 1, 2], [0], [3, 1, 2]), ([1, 3, 1, 2], [0, 2], [3, 2]), ([1, 3, 1, 2], [-2], [1, 3, 2]), ([1, 3, 1, 2], None, [3, 2]), ([1, 1], [1], [1]), ([1], [0], [])):
        add('Squeeze', f'{x} at {a}', [In(x)], {} if a is None else {'axes': a}, [y], lin(y))
        if a is not None:
            add('Squeeze', f'{x} at the operand {a}', [In(x), ints(a)], {}, [y], lin(y))
    for x, a, y in (([2, 3], [0], [1, 2, 3]), ([2, 3], [1], [2, 1, 3]), ([2, 3], [2], [2, 3, 1]), ([2, 3], [-1], [2, 3, 1]), ([2, 3], [-2], [2, 1, 3]), ([2, 3], [0, 3], [1, 2, 3, 1]), ([2, 3], [3, 0], [1, 2, 3, 1]),
                    ([2, 3], [0, 1], [1, 1, 2, 3]), ([2, 3], [1, 3], [2, 1, 3, 1]), ([2, 3], [-1, 0], [1, 2, 3, 1]), ([2, 3], [-2, -1], [2, 3, 1, 1]), ([2, 3], [-3, -1], [2, 1, 3, 1]), ([], [0], [1])):
        add('Unsqueeze', f'{x} at {a}', [In(x)], {'axes': a}, [y], lin(y))
        add('Unsqueeze', f'{x} at the operand {a}', [In(x), ints(a)], {}, [y], lin(y))
    for x in ([2, 3, 4], [5], [1, 7]):
        add('Shape', f'{x}', [In(x)], {}, [([len(x)], 'int64')], lambda E, v, i, o, x=x: E.num(x[i[0]]))
    for x, y in (([2, 3], [2, 3]), ([3], [2, 3]), ([2, 1], [2, 3]), ([2, 1, 3], [2, 4, 3]), ([1, 3], [2, 2, 3]), ([], [2])):
        add('Expand', f'{x} to {y}', [In(x), ints(y)], {}, [y], lambda E, v, i, o: v[0](i))
    add('Expand', 'a dimension kept by one', [In([2, 3]), ints([2, 1])], {}, [[2, 3]], lambda E, v, i, o: v[0](i), may_raise=True)
    for x, r in (([2, 3], [2, 1]), ([2, 3], [1, 3]), ([2], [3]), ([2, 1, 2], [2, 3, 2])):
        add('Tile', f'{x} by {r}', [In(x), ints(r)], {}, [[a * b for a, b in zip(x, r)]], lambda E, v, i, o, x=x: v[0].at(*[a % b for a, b in zip(i, x)]))
    for x, st, en, ax, sp in (([5, 4], [1], [3], [0], None), ([5, 4], [0, 1], [3, 4], None, None), ([5, 4], [-3], [-1], [0], None), ([5, 4], [1], [2 ** 63 - 1], [1], None), ([5, 4], [0], [5], [0], [2]),
                              ([5, 4], [1, 0], [5, 3], [0, 1], [2, 1]), ([5, 4], [1, 0], [4, 4], [1, 0], [1, 3]), ([2, 5, 4], [1], [-1], [-2], None), ([5, 4], [-10], [3], [0], None), ([5, 4], [2], [10], [0], [1]),
                              ([2, 5], [1], [4], [1], None), ([2, 3, 6], [0, 2], [5, 2], [2, 1], None), ([5, 4], [4], [0], [0], [-2]), ([5], [-1], [-2 ** 63], [0], [-1])):
        axs = [k % len(x) for k in (ax if ax is not None else range(len(st)))]
        sps = sp or [1] * len(st)
        rows = {k: list(range(x[k]))[slice(a, b, q)] for k, a, b, q in zip(axs, st, en, sps)}
        y = [len(rows.get(k, range(d))) for k, d in enumerate(x)]
        ref = lambda E, v, i, o, rows=rows: v[0].at(*[rows[k][p] if k in rows else p for k, p in enumerate(i)])
        neg = any(q < 0 for q in sps)
        add('Slice', f'{x} from {st} to {en} along {ax} by {sp}', [In(x), ints(st), ints(en)] + ([ints(ax)] if ax is not None else [None] if sp else []) + ([ints(sp)] if sp else []), {}, [y], ref, may_raise=neg)
        if sp is None:
            add('Slice', f'{x} from {st} to {en} along {ax}, attributes', [In(x)], {k: z for k, z in (('starts', st), ('ends', en), ('axes', ax)) if z is not None}, [y], ref)

    def padded(x, pads, mode, value, axes=None):
        n = len(x)
        ax = [k % n for k in axes] if axes is not None else list(range(n))
        lo = {k: pads[j] for j, k in enumerate(ax)}
        hi = {k: pads[len(ax) + j] for j, k in enumerate(ax)}
        y = [x[k] + lo.get(k, 0) + hi.get(k, 0) for k in range(n)]

        def f(E, v, i, o):
            j = []
            for k in range(n):
                p = i[k] - lo.get(k, 0)
                if not 0 <= p < x[k]:
                    if mode == 'constant':
                        return E.num(value)
                    p = (min(max(p, 0), x[k] - 1) if mode == 'edge' else -p if p < 0 else 2 * (x[k] - 1) - p)
                j.append(p)
            return v[0].at(*j)
        return y, f
    for x, pads, axes in (([2, 3], [0, 1, 0, 2], None), ([2, 3], [1, 0, 2, 0], None), ([2, 3], [1, 1, 1, 1], None), ([1, 2, 3, 2], [0, 0, 1, 2, 0, 0, 3, 1], None), ([2, 3], [2, 1], [1]), ([2, 3, 2], [1, 2], [-2]), ([2, 3, 2], [1, 0, 2, 3], [0, 2]), ([2, 3, 2], [1, 0, 2, 3], [2, 1]), ([3], [1, 2], None)):
        for val in (None, 1.5):
            y, f = padded(x, pads, 'constant', val or 0.0, axes)
            ins = [In(x), ints(pads)] + ([None if val is None else s(val), ints(axes)] if axes is not None else [] if val is None else [s(val)])
            for md in ({}, {'mode': b'constant'}, {'mode': 'constant'}):
                add('Pad', f'{x} by {pads}, {val}, axes {axes}, {md}', ins, md, [y], f)
            if axes is None:
                add('Pad', f'{x} by {pads}, {val}, attributes', [In(x)], {k: z for k, z in (('pads', pads), ('value', val)) if z is not None}, [y], f)
    for mode in ('reflect', 'edge'):
        for x, pads in (([1, 2, 3, 4], [0, 0, 1, 2, 0, 0, 2, 1]), ([1, 2, 4], [0, 0, 1, 0, 0, 2]), ([2, 4], [0, 1, 0, 2])):
            y, f = padded(x, pads, mode, 0)
            for md in (mode, mode.encode()):
                add('Pad', f'{x} by {pads}, {md}', [In(x), ints(pads)], {'mode': md}, [y], f, may_raise=True)
    for x, ix, ish, a in (([5, 3], [2, 0], [2], 0), ([5, 3], [1, 1, 2], [3], 1), ([5, 3], [2], [1], None), ([2, 4, 3], [3, 0], [2], 1), ([2, 4, 3], [2, 0, 1, 1], [4], -1), ([5, 3], [4, 0, 2], [1, 3], 0),
                          ([5, 3], [1, 2, 3, 0], [2, 2], 0), ([2, 4, 3], [1, 2, 3, 0], [2, 2], 1), ([5], [4, 3], [1, 2], 0), ([5], [4, 3, 1, 0], [2, 2], 0), ([5, 3], [4], [], 0), ([2, 4], [3], [], 1), ([5], [2], [], 0), ([5, 3], [-1, -5], [2], 0)):
        k = (a or 0) % len(x)
        y = x[:k] + ish + x[k + 1:]
        ist = symt.strides(ish)

        def ref(E, v, i, o, k=k, ix=ix, n=len(ish), ist=ist, x=x):
            return v[0].at(*(list(i[:k]) + [ix[sum(p * q for p, q in zip(i[k:k + n], ist))] % x[k]] + list(i[k + n:])))
        for dt in ('int64', 'int32'):
            add('Gather', f'{x} at {ix}, indices {ish} of {dt}, axis {a}', [In(x), ints(ix, ish, dt)], {} if a is None else {'axis': a}, [y], ref, may_raise=min(ix) < 0)
    for x, ix, ish, a in (([3, 3], [1, 2, 0, 0, 2, 1], [2, 3], 0), ([2, 4], [3, 1, 0, 0], [2, 2], 1), ([2, 4], [3, 1, 0, 0], [2, 2], -1), ([3], [2, 0], [2], None), ([3, 2], [-1, 1], [1, 2], 0)):
        k = (a or 0) % len(x)
        ist = symt.strides(ish)
        add('GatherElements', f'{x} at {ix} {ish}, axis {a}', [In(x), ints(ix, ish)], {} if a is None else {'axis': a}, [ish],
            lambda E, v, i, o, k=k, ix=ix, ist=ist, x=x: v[0].at(*[ix[sum(p * q for p, q in zip(i, ist))] % x[k] if j == k else w for j, w in enumerate(i)]), may_raise=min(ix) < 0)
    ids = {'float32': 1, 'uint8': 2, 'int8': 3, 'int16': 5, 'int32': 6, 'int64': 7, 'bool': 9, 'float16': 10, 'float64': 11, 'bfloat16': 16}
    for a in ('float32', 'int64', 'bool', 'float16', 'int32', 'uint8', 'float64'):
        for b, n in ids.items():
            add('Cast', f'{a} to {b}', [In([2, 3], a)], {'to': n}, [([2, 3], b)], lambda E, v, i, o, a=a, b=b: E.cast(v[0](i), a, b))
    for a, b, xs in (('float32', 'int64', [3e9, -70000.75]), ('float32', 'int32', [70000.25, -3.5]), ('float32', 'int16', [300.5, -2.25]), ('float32', 'int8', [-100.5, 7.9]), ('float32', 'uint8', [200.5, 0.0]),
                     ('float32', 'bool', [0.25, 0.0]), ('int64', 'float64', [2 ** 40 + 1, -3]), ('int64', 'bool', [256, 0]), ('int64', 'int32', [70000, -70000]), ('float64', 'float64', [1e300, 0.1]), ('int32', 'float32', [70000, -1])):
        add('Cast', f'{xs} from {a} to {b}', [In([2], a, xs)], {'to': ids[b]}, [([2], b)], lambda E, v, i, o, a=a, b=b: E.cast(v[0](i), a, b))
    for x, a in (([2, 3], -1), ([2, 3], 1), ([2, 3], 0), ([2, 3], None), ([2, 2, 3], 1), ([2, 2, 3], -2), ([2, 2, 3], None), ([3], 0)):
        k = (-1 if a is None else a) % len(x)
        add('Softmax', f'{x} along {a}', [In(x)], {} if a is None else {'axis': a}, [x],
            lambda E, v, i, o, k=k, x=x: E.mul(E.f('exp', v[0](i)), (E.add(*[E.f('exp', v[0].at(*(i[:k] + (q,) + i[k + 1:]))) for q in range(x[k])]), -1)))

    # reductions
    red = {'ReduceMean': lambda E, xs: E.mul(E.add(*xs), q=1 / len(xs)), 'ReduceSum': lambda E, xs: E.add(*xs), 'ReduceMax': lambda E, xs: E.f('max', *xs), 'ReduceMin': lambda E, xs: E.f('min', *xs)}
    for op, f in red.items():
        for x, a, kd in (([2, 3], [1], 1), ([2, 3], [1], 0), ([2, 3], [0], None), ([2, 3, 2], [-1], 1), ([2, 3, 2], [0, 2], 1), ([2, 3, 2], [1, 2], 0), ([2, 3, 2], [-1, -2], 0), ([2, 3], [0, 1], 1), ([2, 3], None, 1), ([2, 3], None, 0)):
            ks = sorted(k % len(x) for k in (a if a is not None else range(len(x))))
            keep = kd is None or kd
            y = [1 if k in ks else d for k, d in enumerate(x)] if keep else [d for k, d in enumerate(x) if k not in ks]

            def ref(E, v, i, o, ks=ks, keep=keep, x=x, f=f):
                i = list(i)
                if not keep:
                    for k in ks:
                        i.insert(k, 0)
                out = []
                for j in itertools.product(*[range(x[k]) for k in ks]):
                    q = list(i)
                    for k, p in zip(ks, j):
                        q[k] = p
                    out.append(v[0].at(*q))
                return f(E, out)
            at = {} if kd is None else {'keepdims': kd}
            add(op, f'{x} along {a}, keepdims {kd}', [In(x)], dict(at, **({} if a is None else {'axes': a})), [y], ref, may_raise=a is None)
            if a is not None:
                add(op, f'{x} along the operand {a}, keepdims {kd}', [In(x), ints(a)], at, [y], ref)

    # products
    for x, y, z in (([2, 3], [3, 2], [2, 2]), ([2, 2, 3], [3, 2], [2, 2, 2]), ([2, 2, 3], [2, 3, 2], [2, 2, 2]), ([2, 1, 2, 2], [1, 2, 2, 3], [2, 2, 2, 3]), ([3], [3, 2], [2]), ([2, 3], [3], [2]), ([3], [3], []), ([3, 2], [2, 2, 3], [2, 3, 3])):
        def ref(E, v, i, o, x=x, y=y, n=len(z)):
            i = list(i)
            col = [] if len(y) == 1 else [i.pop()]
            row = [] if len(x) == 1 else [i.pop()]
            r = E.add(*[E.mul(v[0](tuple(i + row + [k])), v[1](tuple(i + [k] + col))) for k in range(x[-1])])
            return r
        add('MatMul', f'{x} by {y}', [In(x), In(y)], {}, [z], ref)
        if len(y) > 1:
            add('MatMul', f'{x} by {y} and a bias', [In(x), In(y), In([y[-1]])], {}, [z], lambda E, v, i, o, ref=ref: E.add(ref(E, v, i, o), v[2](i)))
        add('MatMul', f'{x} by {y}, bias omitted', [In(x), In(y), None], {}, [z], ref)
    for ta in (None, 0, 1):
        for tb in (None, 0, 1):
            for al, be in ((None, None), (0.5, 2.0), (2.0, None), (None, 0.25)):
                for cs in ([2], [3, 2], [3, 1], [1, 2], [], 'none', 'omitted'):
                    at = {k: z for k, z in (('transA', ta), ('transB', tb), ('alpha', al), ('beta', be)) if z is not None}
                    ins = [In([4, 3] if ta else [3, 4]), In([2, 4] if tb else [4, 2])] + ([] if cs == 'none' else [None] if cs == 'omitted' else [In(cs)])
                    if (ta, tb) not in ((None, None), (None, 1)) and cs not in ([2], 'none'):
                        continue

                    def ref(E, v, i, o, ta=ta, tb=tb, al=al, be=be, cs=cs):
                        m, n = i
                        r = E.mul(E.add(*[E.mul(v[0].at(k, m) if ta else v[0].at(m, k), v[1].at(n, k) if tb else v[1].at(k, n)) for k in range(4)]), q=1 if al is None else al)
                        return r if isinstance(cs, str) else E.add(r, E.mul(v[2](i), q=1 if be is None else be))
                    add('Gemm', f'{at}, C {cs}', ins, at, [[3, 2]], ref)
    for x in ([2, 3, 2, 2], [2, 3], [1, 2, 4]):
        for at in ({}, {'epsilon': 0.01}, {'epsilon': 0.001, 'momentum': 0.5}):
            add('BatchNormalization', f'{x} {at}', [In(x)] + [In([x[1]]) for _ in range(4)], at, [x],
                lambda E, v, i, o, ep=at.get('epsilon', 1e-5): E.add(E.mul(E.add(v[0](i), (v[3].at(i[1]), -1)), (E.f('sqrt', E.add(v[4].at(i[1]), E.num(ep))), -1), v[1].at(i[1])), v[2].at(i[1])))

    # windows
    def outsz(d, k, s_, lo, hi, dl=1, ceil=False):
        q = d + lo + hi - dl * (k - 1) - 1
        r = -(-q // s_) + 1 if ceil else q // s_ + 1
        if ceil and (r - 1) * s_ >= d + lo:
            r -= 1
        return r
    for N, C, M, g, sp, k, st, pd, dl, bias in ((1, 2, 3, 1, [3, 4], [2, 2], None, None, None, True), (2, 1, 2, 1, [4, 3], [3, 2], [1, 1], [1, 0, 1, 0], None, False), (1, 1, 1, 1, [4, 4], [3, 3], [2, 1], [1, 1, 1, 1], [1, 1], True),
                                                (1, 4, 4, 2, [3, 3], [2, 2], None, None, None, True), (1, 2, 2, 2, [3, 3], [2, 3], None, [0, 1, 0, 1], None, False), (1, 1, 2, 1, [5, 4], [2, 2], None, None, [2, 1], True),
                                                (1, 1, 1, 1, [3, 4], [2, 2], None, [1, 0, 0, 1], None, True), (1, 1, 1, 1, [3, 4], [2, 2], [1, 2], [0, 1, 1, 0], None, False), (1, 1, 1, 1, [4, 4], [3, 3], None, [2, 1, 2, 1], None, True),
                                                (1, 1, 1, 1, [3, 3], [2, 2], None, [0, 0, 1, 1], None, True), (2, 2, 1, 1, [2, 2], [1, 1], None, None, None, True)):
        s_, p, d = st or [1, 1], pd or [0] * 4, dl or [1, 1]
        o_ = [outsz(sp[a], k[a], s_[a], p[a], p[a + 2], d[a]) for a in (0, 1)]

        def ref(E, v, i, o, M=M, g=g, C=C, sp=sp, k=k, s_=s_, p=p, d=d):
            acc = [v[2].at(i[1])] if len(v) > 2 and v[2] is not None else []
            for ch in range(C // g):
                for a, b in itertools.product(range(k[0]), range(k[1])):
                    y, x = i[2] * s_[0] - p[0] + a * d[0], i[3] * s_[1] - p[1] + b * d[1]
                    if 0 <= y < sp[0] and 0 <= x < sp[1]:
                        acc.append(E.mul(v[0].at(i[0], i[1] // (M // g) * (C // g) + ch, y, x), v[1].at(i[1], ch, a, b)))
            return E.add(*acc) if acc else E.num(0)
        for tup_ in (False, True):
            w = tuple if tup_ else list
            at = {n: w(z) for n, z in (('strides', st), ('pads', pd), ('dilations', dl), ('kernel_shape', k)) if z is not None}
            if g != 1:
                at['group'] = g
            for b in ([True, None] if bias else [False, None]):
                add('Conv', f'{at} on {[N, C] + sp}, bias {b}', [In([N, C] + sp), In([M, C // g] + k)] + ([In([M])] if b else [None] if b is None else []), at, [[N, M] + o_], ref)
    for kind in ('AveragePool', 'MaxPool'):
        for sp, k, st, pd, dl, ceil, inc in (([4, 4], [2, 2], [2, 2], None, None, 0, None), ([3, 4], [2, 3], None, None, None, 0, None), ([4, 5], [3, 3], [1, 2], [1, 1, 1, 1], None, 0, None), ([5, 4], [3, 2], [2, 1], [1, 0, 1, 0], None, 0, None),
                                             ([5, 4], [2, 3], [1, 2], [0, 1, 0, 1], None, 0, None), ([4, 4], [3, 3], [2, 2], [0, 0, 1, 1], None, 0, None), ([4, 4], [2, 3], [1, 1], [1, 0, 0, 1], None, 0, None), ([5, 5], [2, 2], [2, 2], None, None, 1, None),
                                             ([5, 4], [3, 3], [2, 2], [1, 1, 1, 1], None, 1, None), ([4, 4], [3, 3], [1, 1], [1, 1, 1, 1], None, 0, 1), ([4, 4], [3, 3], [1, 1], [1, 1, 1, 1], None, 0, 0), ([5, 4], [2, 2], [1, 1], None, [2, 1], 0, None),
                                             ([4, 5], [3, 2], [2, 1], [1, 0, 0, 1], None, 0, 1)):
            if kind == 'MaxPool' and inc is not None or kind == 'AveragePool' and dl is not None:
                continue
            s_, p, d = st or [1, 1], pd or [0] * 4, dl or [1, 1]
            o_ = [outsz(sp[a], k[a], s_[a], p[a], p[a + 2], d[a], ceil) for a in (0, 1)]

            def ref(E, v, i, o, kind=kind, sp=sp, k=k, s_=s_, p=p, d=d, inc=inc):
                acc, area = [], 0
                for a, b in itertools.product(range(k[0]), range(k[1])):
                    y, x = i[2] * s_[0] - p[0] + a * d[0], i[3] * s_[1] - p[1] + b * d[1]
                    area += y < sp[0] + p[2] and x < sp[1] + p[3]
                    if 0 <= y < sp[0] and 0 <= x < sp[1]:
                        acc.append(v[0].at(i[0], i[1], y, x))
                return E.f('max', *acc) if kind == 'MaxPool' else E.mul(E.add(*acc), q=1 / (area if inc else len(acc)))
            for w in (list, tuple):
                at = {n: w(z) for n, z in (('kernel_shape', k), ('strides', st), ('pads', pd), ('dilations', dl)) if z is not None}
                at.update({n: z for n, z in (('ceil_mode', ceil or None), ('count_include_pad', inc)) if z is not None})
                add(kind, f'{at} on {sp}', [In([1, 2] + sp)], at, [[1, 2] + o_], ref)
    for op, f in (('GlobalAveragePool', red['ReduceMean']), ('GlobalMaxPool', red['ReduceMax'])):
        for x in ([2, 2, 2, 3], [1, 3, 1, 1]):
            add(op, f'{x}', [In(x)], {}, [x[:2] + [1, 1]], lambda E, v, i, o, x=x, f=f: f(E, [v[0].at(i[0], i[1], a, b) for a in range(x[2]) for b in range(x[3])]))

    # resizing: nearest by whole factors, linear by half pixels or aligned corners
    def resized(x, y, mode, aligned):
        def f(E, v, i, o):
            ax = []
            for k in (2, 3):
                if mode == 'nearest':
                    ax.append([(i[k] * x[k] // y[k], 1.0)])
                    continue
                q = i[k] * (x[k] - 1) / (y[k] - 1) if aligned and y[k] > 1 else 0.0 if aligned else (i[k] + 0.5) * x[k] / y[k] - 0.5
                q = min(max(q, 0.0), x[k] - 1)
                lo = int(q + 1e-12)
                ax.append([(lo, 1 - (q - lo))] + ([(lo + 1, q - lo)] if q - lo > 1e-9 else []))
            return E.add(*[E.mul(v[0].at(i[0], i[1], a, b), q=wa * wb) for a, wa in ax[0] for b, wb in ax[1]])
        return f
    for x, y in (([1, 2, 2, 3], [1, 2, 4, 6]), ([1, 1, 2, 2], [1, 1, 6, 4]), ([1, 1, 2, 2], [1, 1, 2, 6])):
        sc = [b / a for a, b in zip(x, y)]
        for md in ('nearest', b'nearest', 'linear', b'linear'):
            for ct in (None, 'half_pixel', b'half_pixel', 'align_corners', b'align_corners', 'asymmetric', b'asymmetric'):
                m = md if isinstance(md, str) else md.decode()
                t = ct if not isinstance(ct, bytes) else ct.decode()
                if m == 'nearest' and t == 'align_corners' or m == 'linear' and t == 'asymmetric':
                    continue
                at = {'mode': md}
                if ct is not None:
                    at['coordinate_transformation_mode'] = ct
                if t == 'asymmetric':
                    at['nearest_mode'] = b'floor' if isinstance(ct, bytes) else 'floor'
                f = resized(x, y, m, t == 'align_corners')
                add('Resize', f'{x} to {y}, sizes, {at}', [In(x), None, None, ints(y)], at, [y], f)
                add('Resize', f'{x} to {y}, scales, {at}', [In(x), None, In([4], values=sc)], at, [y], f)
                if m == 'nearest' and ct is None:
                    add('Resize', f'{x} to {y}, empty scales and sizes, {at}', [In(x), In([0], values=[]), In([0], values=[]), ints(y)], at, [y], f)
                    add('Resize', f'{x} to {y}, scales second, {at}', [In(x), In([4], values=sc)], at, [y], f)
        add('Resize', f'{x} to {y}, defaults', [In(x), None, None, ints(y)], {}, [y], resized(x, y, 'nearest', False))
    add('Resize', 'neither sizes nor scales', [In([1, 1, 2, 2])], {}, [[1, 1, 2, 2]], lambda E, v, i, o: v[0](i), may_raise=True)

    # pieces and extremes
    for x, sp, a in (([2, 5], [2, 3], 1), ([2, 5], [3, 2], -1), ([5, 2], [1, 3, 1], 0), ([6], [2, 4], None), ([2, 6], None, 1), ([2, 6], None, -1), ([4, 2], None, 0), ([5, 2], None, 0)):
        k = (a or 0) % len(x)
        n = 3 if sp is None and x[k] == 6 else 2
        szs = sp or [min(-(-x[k] // n), x[k] - j * -(-x[k] // n)) for j in range(n)]
        outs = [x[:k] + [z] + x[k + 1:] for z in szs]
        ref = lambda E, v, i, o, k=k, szs=szs: v[0].at(*[p + sum(szs[:o]) if j == k else p for j, p in enumerate(i)])
        at = {} if a is None else {'axis': a}
        if sp:
            add('Split', f'{x} into {sp} along {a}', [In(x), ints(sp)], at, outs, ref)
            add('Split', f'{x} into {sp} along {a}, attribute', [In(x)], dict(at, split=sp), outs, ref)
        else:
            add('Split', f'{x} into {n} along {a}', [In(x)], at, outs, ref)
            add('Split', f'{x} into {n} along {a}, stated', [In(x)], dict(at, num_outputs=n), outs, ref)
            add('Split', f'{x} into {n} along {a}, sizes omitted', [In(x), None], at, outs, ref)
    for x, k_, a, lg in (([2, 4], 2, -1, None), ([2, 4], 3, 1, 1), ([2, 4], 2, 1, 0), ([4, 2], 2, 0, 1), ([5], 1, None, None), ([2, 3, 2], 2, 1, 0), ([4], 4, 0, 1)):
        k = (-1 if a is None else a) % len(x)
        y = x[:k] + [k_] + x[k + 1:]
        at = {n: z for n, z in (('axis', a), ('largest', lg)) if z is not None}

        def ref(E, v, i, o, k=k, lg=lg, x=x):
            return E.f(f"pick {'vi'[o]} {1 if lg is None else lg} {i[k]}", *[v[0].at(*(i[:k] + (q,) + i[k + 1:])) for q in range(x[k])])
        for ks in ([1], []):
            add('TopK', f'{x} best {k_} {ks} along {a}, largest {lg}', [In(x), ints([k_], ks)], at, [y, (y, 'int64')], ref)
        add('TopK', f'{x} best {k_} along {a}, largest {lg}, attribute', [In(x)], dict(at, k=k_), [y, (y, 'int64')], ref)
        add('TopK', f'{x} best {k_} along {a}, largest {lg}, values only', [In(x), ints([k_])], dict(at, sorted=1), [y], ref)

    # fused and language-model operators
    def normed(E, v, i, w, eps, rms, bias, x, axes):
        xs = []
        for j in itertools.product(*[range(x[k]) for k in axes]):
            q = list(i)
            for k, p in zip(axes, j):
                q[k] = p
            xs.append(v[0].at(*q))
        m = E.mul(E.add(*xs), q=1 / len(xs)) if not rms else E.num(0)
        var = E.mul(E.add(*[E.mul(E.add(e, (m, -1)), E.add(e, (m, -1))) for e in xs]), q=1 / len(xs))
        r = E.mul(E.add(v[0](i), (m, -1)), (E.f('sqrt', E.add(var, E.num(eps))), -1), w)
        return r if bias is None else E.add(r, bias)
    for x, ax in (([2, 3], None), ([2, 2, 3], [-1]), ([1, 2, 3], [2])):
        add('Layernrom', f'{x} along {ax}', [In(x), In([x[-1]]), In([x[-1]])], {} if ax is None else {'ReduceMean0_axes': ax}, [x],
            lambda E, v, i, o, x=x: normed(E, v, i, v[1].at(i[-1]), 1e-5, False, v[2].at(i[-1]), x, [len(x) - 1]))
    for x in ([2, 3], [1, 2, 4]):
        add('Mad', f'{x}', [In(x), In([x[-1]]), In([x[-1]])], {}, [x], lambda E, v, i, o: E.add(E.mul(v[0](i), v[1](i)), v[2](i)))
        add('Mad', f'{x} by a number', [In(x), In([]), In(x)], {}, [x], lambda E, v, i, o: E.add(E.mul(v[0](i), v[1](i)), v[2](i)))
    for ty in (None, 'layer', 'rms', b'rms', b'layer'):
        for ep in (None, 0.01):
            for x, h in (([2, 3], 3), ([1, 2, 4], 4), ([1, 2, 4], 2), ([2, 1, 6], 2), ([1, 2, 2, 4], 4)):
                rms = ty in ('rms', b'rms')
                at = {n: z for n, z in (('type', ty), ('epsilon', ep)) if z is not None}
                for b in ((False,) if rms else (True, False, None)):
                    def ref(E, v, i, o, x=x, h=h, rms=rms, ep=ep, b=b):
                        k = i[-1] // h * h
                        xs = [v[0].at(*(i[:-1] + (k + q,))) for q in range(h)]
                        m = E.mul(E.add(*xs), q=1 / h) if not rms else E.num(0)
                        var = E.mul(E.add(*[E.mul(E.add(e, (m, -1)), E.add(e, (m, -1))) for e in xs]), q=1 / h)
                        r = E.mul(E.add(v[0](i), (m, -1)), (E.f('sqrt', E.add(var, E.num(1e-5 if ep is None else ep))), -1), v[1].at(i[-1] % h))
                        return E.add(r, v[2].at(i[-1] % h)) if b else r
                    add('LayerNormalization', f'{at} on {x}, {h} weights, bias {b}', [In(x), In([h])] + ([In([h])] if b else [None] if b is None else []), at, [x], ref)
    for S, past in ((1, 0), (3, 0), (1, 4), (2, 3)):
        for pshape in ([], [1], [1, 1]):
            add('RangeGather', f'{S} after {past} {pshape}', [ints([S], pshape), In([1]), In([1]), In([1]), In([8, 3]), ints([past], pshape)], {}, [[S, 3]], lambda E, v, i, o, past=past: v[4].at(past + i[0], i[1]))
    # every position looks up its own rotation
    for B, N, S, half, four, tab, pos in ((1, 2, 2, 2, False, 3, [3, 4]), (1, 2, 2, 2, True, 4, [0, 1]), (2, 1, 2, 1, False, 4, [2, 0, 1, 5]), (2, 2, 1, 1, True, 3, [4, 2]), (1, 1, 3, 2, False, 3, [0, 1, 2]), (1, 3, 1, 1, False, 4, [5])):
        x = [B, N, S, 2 * half] if four else [B, S, N * 2 * half]
        tb = [1, 6, half] if tab == 3 else [1, 1, 6, half]

        def ref(E, v, i, o, S=S, half=half, four=four, tab=tab, pos=pos):
            b, sq = (i[0], i[2]) if four else (i[0], i[1])
            d = i[-1] % (2 * half)
            j = d % half
            get = lambda k: v[0].at(*(i[:-1] + (i[-1] - d + k,)))
            p = pos[b * S + sq]
            cs, sn = ((v[n].at(0, p, j) if tab == 3 else v[n].at(0, 0, p, j)) for n in (1, 2))
            x1, x2 = get(j), get(half + j)
            return E.add(E.mul(x1, cs), (E.mul(x2, sn), -1)) if d < half else E.add(E.mul(x1, sn), E.mul(x2, cs))
        for dt in ('int64', 'int32'):
            add('Rope', f'{x}, table {tb}, positions {pos} of {dt}', [In(x), In(tb), In(tb), ints(pos, [B, S], dt)], {}, [x], ref)
    L += attention()
    return L


def attention():
    out = []
    for B, N, K, S, hd, four, past, layer, ctx_, wide in ((1, 2, 2, 2, 2, False, None, 0, 0, 0), (1, 2, 1, 2, 2, False, None, 0, 0, 0), (2, 1, 1, 2, 2, False, None, 0, 0, 0), (1, 2, 2, 2, 1, True, None, 0, 0, 0), (1, 4, 2, 1, 1, True, None, 0, 0, 0),
                                                         (1, 4, 2, 2, 1, False, None, 0, 0, 0), (1, 2, 1, 2, 2, False, 0, 0, 4, 0), (1, 2, 1, 1, 2, False, 2, 1, 4, 0), (1, 2, 2, 2, 1, False, 1, 1, 5, 1), (2, 1, 1, 1, 2, False, 2, 0, 3, 0),
                                                         (1, 2, 2, 2, 1, True, 1, 0, 4, 0), (1, 2, 1, 2, 2, True, 0, 1, 3, 0), (1, 2, 2, 1, 2, True, 2, 0, 3, 0), (1, 4, 2, 3, 1, True, 2, 0, 6, 0), (1, 2, 2, 3, 1, False, 'omitted', 0, 4, 0)):
        q = [B, N, S, hd] if four else [B, S, N * hd]
        kv = [B, K, S, hd] if four else [B, S, K * hd]
        p = past if isinstance(past, int) else 0

        def row(v, n, b, h, s_, d, four=four, hd=hd):
            return v[n].at(b, h, s_, d) if four else v[n].at(b, s_, h * hd + d)

        def ref(E, v, i, o, N=N, K=K, hd=hd, p=p, layer=layer, four=four, has=past is not None, row=row, S=S):
            b, s_, h, d = i[0], i[1], i[2] // hd, i[2] % hd
            g = h // (N // K)

            def kvat(n, t, e):
                return v[4].at(b, layer * 2 + n - 1, t, g * hd + e) if t < p else row(v, n, b, g, t - p, e)
            ws = [E.f('exp', E.mul(E.add(*[E.mul(row(v, 0, b, h, s_, e), kvat(1, t, e)) for e in range(hd)]), q=1 / math.sqrt(hd))) for t in range(p + s_ + 1)]
            return E.add(*[E.mul(w, (E.add(*ws), -1), kvat(2, t, d)) for t, w in enumerate(ws)])

        def cache(E, v, i, o, N=N, K=K, hd=hd, p=p, layer=layer, row=row, S=S):
            b, l, t, e = i
            if l // 2 == layer and p <= t < p + S and e < K * hd:
                return row(v, 1 + l % 2, b, e // hd, t - p, e % hd)
            return v[4].at(*i)
        for pshape in ([[], [1]] + ([[B, S]] if S == 1 or past == 0 else []) if isinstance(past, int) else [None]):
            ins = [In(q), In(kv), In(kv)]
            if past is not None:
                ins += [None if pshape is None else ints([p] * symt.numel(pshape), pshape), In([B, 2 * (layer + 1), ctx_, K * hd + wide])]
            at = {'head_num': N, 'head_size': hd}
            if K != N or layer:
                at['kv_head_num'] = K
            if layer:
                at['layer_i'] = layer
            out.append(Case('SDPA', f'{at}, query {q}, past {past} {pshape}, cache {ctx_ and ins[-1].shape}', ins, at, [[B, S, N * hd]], ref, cache=(4, cache) if past is not None else None))
    return out


def registered(p):
    """operator -> class of its kernel, by the registrations of the module"""
    mod = p.modules.get(MODULE)
    out = {}
    if mod is None:
        return out
    for n in mod.tree.body:
        if not isinstance(n, ast.ClassDef):
            continue
        for d in n.decorator_list:
            if isinstance(d, ast.Call) and (isinstance(d.func, ast.Attribute) and d.func.attr == 'register' or isinstance(d.func, ast.Name) and d.func.id == 'register'):
                for a in d.args:
                    if isinstance(a, ast.Constant) and isinstance(a.value, str):
                        ci = ClassInfo(n.name, mod, n)
                        ci.program = p
                        out[a.value] = ci
    return out


class Known:
    def __init__(self, w):
        self.w = w

    def __contains__(self, a):
        return a in self.w.tens or a[0] == 'param'


def val(x):
    if isinstance(x, (list,)):
        return [val(y) for y in x]
    if isinstance(x, tuple):
        return ('tuple', tuple(val(y) for y in x))
    return c(x)


def drive(p, fi, case, seconds=20):
    """(world, inputs, outputs, run)"""
    w = symt.World()

    class S:
        over = {}
    S.over = {}
    tins, vins = [], []
    for k, i in enumerate(case.ins):
        if i is None:
            tins.append(None)
            vins.append(T.NONE)
            continue
        t = w.given('xwbmv'[k] if k < 5 else f'in{k}', i.shape, i.dtype, i.values)
        tins.append(t)
        vins.append(w.put(S, t))
    touts = [w.given(str(k), s, d, stale=True) for k, (s, d) in enumerate(case.outs)]
    vouts = [w.put(S, t) for t in touts]
    before = [None if t is None else list(t.st) for t in tins]
    names = [a.arg for a in fi.node.args.args]
    if fi.is_classmethod() or not fi.is_static():
        names = names[1:]
    if len(names) < 3:
        return None
    args = {names[0]: vins, names[1]: vouts, names[2]: {c(k): val(v) for k, v in case.attrs.items()}}
    over = [(a, n, next(iter(v))) for (a, n), v in S.over.items()]
    r = gs.run(None, fi, args, over=over, seconds=seconds, unroll=256, strict_keys=True, exact_try=True, set_items=True, track_guards=False, nonnull=Known(w), ext_hook=ext,
               item_hook=w.item, setitem_hook=w.setitem, binop_hook=w.binop, summaries=symt.summaries(w))
    return w, tins, before, touts, r


def ext(path):
    from .. import runtime
    if path in ('math.inf', 'numpy.inf', 'torch.inf'):
        return c(math.inf)
    if path == 'math.pi' or path == 'numpy.pi':
        return c(math.pi)
    return runtime.ext(path)


def judge(ctx, p, ops, case):
    ci = ops.get(case.op)
    where = f'{case.op} {case.label}'
    if ci is None:
        return
    fi = ci.find_method('run')
    if fi is None:
        ctx.undecided(f'{where}: the kernel has no run method')
        return
    site = f'{fi.module.rel}:{fi.node.lineno} {ci.name}.run'
    try:
        got = drive(p, fi, case)
    except (TooLong, gs.TooLong):
        ctx.undecided(f'{where}: too long', site)
        return
    if got is None:
        ctx.undecided(f'{where}: unexpected signature', site)
        return
    w, tins, before, touts, r = got
    ctx.seen(site)
    if w.unknown or r.I.splits:
        ctx.undecided(f'{where}: {w.unknown[:2]} {r.I.splits} undecided conditions', site)
        return
    key = f'{case.op}: {case.label}'
    if r.state is None:
        if case.may_raise:
            ctx.ok(f'{where}: refused')
        else:
            ctx.fail(key, f'{where}: the kernel fails', site)
        return
    E = w.E
    ops_ = [None if t is None else A(symt.Ten(b, t.idx, t.shape, t.dtype)) for t, b in zip(tins, before)]
    bad = None
    for k, (t, (sh, dt)) in enumerate(zip(touts, case.outs)):
        if t.shape != sh:
            bad = f'output {k} becomes {t.shape}, not {sh}'
            break
        for i, e in zip(itertools.product(*map(range, sh)), t.data()):
            st = E.uses(e, 'stale')
            if st is not None:
                bad = f'element {list(i)} of output {k} is not written: it depends on {E.show(E.ids[st])}'
                break
            want = case.ref(E, ops_, i, k)
            if not E.same(e, want):
                bad = f'element {list(i)} of output {k} is {E.show(e)[:160]}, not {E.show(want)[:160]}'
                break
        if bad:
            break
    for k, (t, b) in enumerate(zip(tins, before)):
        if bad or t is None:
            continue
        if case.cache is not None and case.cache[0] == k:
            for i, e in zip(itertools.product(*map(range, t.shape)), t.data()):
                want = case.cache[1](E, ops_, i, k)
                if not E.same(e, want):
                    bad = f'element {list(i)} of operand {k} becomes {E.show(e)[:120]}, not {E.show(want)[:120]}'
                    break
        elif t.st != b:
            bad = f'operand {k} is changed'
    if bad:
        ctx.fail(key, f'{where}: {bad}', site)
    else:
        ctx.ok(where)


def check(ctx):
    p = gs.program(True)
    ops = registered(p)
    ctx.rule('on every path that returns, each element of each output equals the operator\'s definition on the operands as they were given; the output keeps its shape; no operand changes but the key/value cache, as defined')
    ctx.rule('a kernel fails only where the definition or the library leaves the case open')
    ctx.assume('tensor-library operations follow their documented index formulas; arithmetic is exact (rounding, overflow and NaN are not modelled)')
    ctx.assume('outputs do not overlap operands (P18, P19) and arrive with the shape and element type of the operator\'s result (P21, P33, P03)')
    for case in cases():
        judge(ctx, p, ops, case)
    ctx.count('kernels', len(ops))

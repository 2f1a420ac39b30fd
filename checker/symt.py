"""Tensors of the inference kernels, element by element: a tensor is a list of positions in a storage of expressions; the operations of the tensor library the kernels use
are given by their index formulas.  Two elements agree when their expressions have one normal form, or take the same values at generic points."""
import itertools
import math
import struct

from . import terms as T
from .absint import V, Unreachable
from .probe import P, c, plain, tup
from .runtime import ALIAS, SIZES, dt, numel, one

FLOATS = {'float64': 4, 'float32': 3, 'bfloat16': 2, 'float16': 2}
INTS = {'int64': 64, 'int32': 32, 'int16': 16, 'int8': 8, 'uint8': 8}
NPTS = 3


class Expr:
    """hash-consed expressions: numbers and identifiers of nodes"""

    def __init__(self):
        self.nodes = []
        self.ids = {}
        self.vals = []

    def mk(self, op, *args):
        k = (op,) + args
        i = self.ids.get(k)
        if i is None:
            i = self.ids[k] = len(self.nodes)
            self.nodes.append(k)
            self.vals.append(None)
        return i

    def num(self, x):
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, float) and x == x and abs(x) < 2 ** 53 and x == int(x):
            x = int(x)
        return self.mk('n', repr(x))

    def leaf(self, name, i, dtype='float32'):
        return self.mk('v', name, i, dtype)

    def const(self, e):
        n = self.nodes[e]
        if n[0] != 'n':
            return None
        return float(n[1]) if n[1] in ('inf', '-inf', 'nan') or '.' in n[1] or 'e' in n[1] else int(n[1])

    def add(self, *xs):
        terms, k = {}, 0

        def put(e, q):
            nonlocal k
            x = self.const(e)
            n = self.nodes[e]
            if x is not None:
                k = k + q * x
            elif n[0] == '+':
                for y, w in n[1]:
                    put(y, q * w)
                k = k + q * n[2]
            elif n[0] == '*' and n[2] != 1:
                y = self.mk('*', n[1], 1) if not (len(n[1]) == 1 and n[1][0][1] == 1) else n[1][0][0]
                terms[y] = terms.get(y, 0) + q * n[2]
            else:
                terms[e] = terms.get(e, 0) + q
        for x in xs:
            e, q = x if isinstance(x, tuple) else (x, 1)
            put(e, q)
        if k != k or abs(k) == math.inf:
            return self.num(k)
        ts = tuple(sorted((e, q) for e, q in terms.items() if q != 0))
        if not ts:
            return self.num(k)
        if len(ts) == 1 and k == 0:
            return self.mul((ts[0][0], 1), q=ts[0][1])
        return self.mk('+', ts, k)

    def mul(self, *xs, q=1):
        f = {}
        bad = False

        def put(e, p):
            nonlocal q, bad
            x = self.const(e)
            n = self.nodes[e]
            if x is not None and (p > 0 or x != 0):
                try:
                    q = q * (x ** p if p > 0 else (1 / x) ** -p)
                except OverflowError:
                    bad = True
            elif n[0] == '*' and n[2] != 0:
                for y, w in n[1]:
                    put(y, p * w)
                q = q * (n[2] ** p if p > 0 else (1 / n[2]) ** -p)
            else:
                f[e] = f.get(e, 0) + p
        for x in xs:
            e, p = x if isinstance(x, tuple) else (x, 1)
            put(e, p)
        fs = tuple(sorted((e, p) for e, p in f.items() if p != 0))
        if q == 0 or q != q or not fs:
            return self.num(q)
        if len(fs) == 1 and fs[0][1] == 1 and q == 1:
            return fs[0][0]
        return self.mk('*', fs, q)

    def sub(self, a, b):
        return self.add(a, (b, -1))

    def div(self, a, b):
        return self.mul(a, (b, -1))

    def f(self, name, *args):
        xs = [self.const(a) for a in args]
        if all(x is not None for x in xs):
            v = fun(name, xs)
            if v is not None and v == v:
                return self.num(v)
        if name in ('max', 'min'):
            s = set()
            for a in args:
                n = self.nodes[a]
                s |= set(n[1:]) if n[0] == name else {a}
            if len(s) == 1:
                return s.pop()
            return self.mk(name, *sorted(s))
        if name == 'sqrt':
            return self.f('pow', args[0], self.num(0.5))
        if name == 'pow' and xs[1] is not None and xs[1] == int(xs[1]) and 0 < abs(xs[1]) < 8:
            return self.mul((args[0], int(xs[1])))
        if name == 'eq' or name == 'ne':
            if args[0] == args[1]:
                return self.num(int(name == 'eq'))
            return self.mk(name, *sorted(args))
        return self.mk(name, *args)

    def cast(self, e, a, b):
        """the value after conversion from element type a to b"""
        if a == b or a is None or b is None:
            return e
        if b == 'bool':
            return self.f('ne', e, self.num(0)) if a != 'bool' else e
        if a == 'bool':
            return e
        if b in FLOATS:
            if a in INTS or FLOATS.get(a, 0) <= FLOATS[b] and not (a == 'bfloat16' and b == 'float16' or a == 'float16' and b == 'bfloat16'):
                return e if a not in INTS or b in ('float64', 'float32') or INTS[a] <= 8 else self.f('to ' + b, e)
            return self.f('to ' + b, e)
        if a in FLOATS:
            e = self.f('trunc', e)
        elif INTS[a] < INTS[b] or INTS[a] == INTS[b] and a == b:
            return e if a != 'uint8' or INTS[b] > 8 else self.f('to ' + b, e)
        return self.f('to ' + b, e) if b != 'int64' else e

    def value(self, e):
        """values at the sample points"""
        todo = [e]
        while todo:
            i = todo[-1]
            if self.vals[i] is not None:
                todo.pop()
                continue
            n = self.nodes[i]
            if n[0] == '+' or n[0] == '*':
                kids = [x for x, _ in n[1]]
            elif n[0] in ('n', 'v', 'stale'):
                kids = []
            else:
                kids = [x for x in n[1:] if isinstance(x, int)]
            miss = [x for x in kids if self.vals[x] is None]
            if miss:
                todo += miss
                continue
            todo.pop()
            self.vals[i] = tuple(self.at(n, p) for p in range(NPTS))
        return self.vals[e]

    def at(self, n, p):
        op = n[0]
        if op == 'n':
            return self.const(self.ids[n])
        if op in ('v', 'stale'):
            return sample(n[1], n[2], n[3] if op == 'v' else 'float32', p)
        try:
            if op == '+':
                return n[2] + sum(self.vals[x][p] * q for x, q in n[1])
            if op == '*':
                r = n[2]
                for x, q in n[1]:
                    r = r * self.vals[x][p] ** q
                return r if not isinstance(r, complex) else math.nan
            v = fun(op, [self.vals[x][p] for x in n[1:]])
            return math.nan if v is None or isinstance(v, complex) else v
        except (ZeroDivisionError, OverflowError, ValueError):
            return math.nan

    def same(self, a, b):
        if a == b:
            return True
        for x, y in zip(self.value(a), self.value(b)):
            if x != x and y != y:
                continue
            if x == y:
                continue
            if x != x or y != y or abs(x) == math.inf or abs(y) == math.inf:
                return False
            if abs(x - y) > 1e-9 * max(1.0, abs(x), abs(y)):
                return False
        return True

    def uses(self, e, op):
        seen, todo = set(), [e]
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            n = self.nodes[i]
            if n[0] == op:
                return n
            if n[0] in '+*':
                todo += [x for x, _ in n[1]]
            elif n[0] not in ('n', 'v', 'stale'):
                todo += [x for x in n[1:] if isinstance(x, int)]
        return None

    def show(self, e, depth=3):
        n = self.nodes[e]
        if n[0] == 'n':
            return n[1]
        if n[0] == 'v':
            return f'{n[1]}[{n[2]}]'
        if n[0] == 'stale':
            return f'whatever output {n[1]} held at {n[2]}'
        if depth == 0:
            return '..'
        if n[0] == '+':
            ps = [f'{q}*{self.show(x, depth - 1)}' if q != 1 else self.show(x, depth - 1) for x, q in n[1][:4]]
            return '(' + ' + '.join(ps) + (' + ..' if len(n[1]) > 4 else '') + (f' + {n[2]}' if n[2] else '') + ')'
        if n[0] == '*':
            ps = [self.show(x, depth - 1) + (f'^{q}' if q != 1 else '') for x, q in n[1][:4]]
            return (f'{n[2]}*' if n[2] != 1 else '') + '*'.join(ps) + ('*..' if len(n[1]) > 4 else '')
        return f'{n[0]}(' + ', '.join(self.show(x, depth - 1) if isinstance(x, int) else str(x) for x in n[1:5]) + (', ..' if len(n) > 5 else '') + ')'


def sample(name, i, dtype, p):
    h = 0
    for ch in f'{name}/{i}/{p}/k':
        h = (h * 1000003 ^ ord(ch)) & 0xffffffff
    h ^= h >> 13
    h = (h * 0x5bd1e995) & 0xffffffff
    h ^= h >> 15
    u = h / 0xffffffff
    if dtype == 'bool':
        return h >> 5 & 1
    if dtype in INTS:
        return (h >> 3) % 9 + 1 if p == 0 else ((h >> 3) % 17 - 8 if dtype != 'uint8' else (h >> 3) % 17)
    return (0.3 + 1.4 * u, 3 * u - 1.5, 9 * u - 4.5)[p]


def fun(op, xs):
    x = xs[0]
    if op == 'exp':
        return math.exp(x) if x < 700 else math.inf
    if op == 'pow':
        if x == 0 and xs[1] < 0:
            return math.inf
        v = x ** xs[1]
        return math.nan if isinstance(v, complex) else v
    if op == 'max':
        return max(xs)
    if op == 'min':
        return min(xs)
    if op == 'tanh':
        return math.tanh(x)
    if op == 'erf':
        return math.erf(x)
    if op == 'log':
        return math.log(x) if x > 0 else math.nan
    if op == 'sin':
        return math.sin(x)
    if op == 'cos':
        return math.cos(x)
    if op == 'abs':
        return abs(x)
    if op == 'floor':
        return math.floor(x)
    if op == 'ceil':
        return math.ceil(x)
    if op == 'round':
        return round(x)
    if op == 'trunc':
        return math.trunc(x)
    if op in ('eq', 'ne', 'lt', 'gt', 'le', 'ge'):
        y = xs[1]
        return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'gt': x > y, 'le': x <= y, 'ge': x >= y}[op])
    if op == 'where':
        return xs[1] if x else xs[2]
    if op == 'fmod':
        return math.fmod(x, xs[1])
    if op == 'pymod':
        return x - xs[1] * math.floor(x / xs[1])
    if op.startswith('to '):
        d = op[3:]
        if d in INTS:
            n = INTS[d]
            x = int(x) & (1 << n) - 1
            return x if d[0] == 'u' or x < 1 << n - 1 else x - (1 << n)
        if d == 'float16':
            return struct.unpack('e', struct.pack('e', x))[0] if abs(x) < 65504 else math.copysign(math.inf, x)
        if d == 'bfloat16':
            return struct.unpack('f', struct.pack('I', struct.unpack('I', struct.pack('f', x))[0] + 0x8000 & 0xffff0000))[0]
        if d == 'float32':
            return struct.unpack('f', struct.pack('f', x))[0]
    if op.startswith('pick'):                                   # the j-th of the sorted operands, or where it stands
        _, what, largest, j = op.split()
        order = sorted(range(len(xs)), key=lambda i: (-xs[i] if largest == '1' else xs[i], i))
        return order[int(j)] if what == 'i' else xs[order[int(j)]]
    return None


class Ten:
    def __init__(self, st, idx, shape, dtype):
        self.st, self.idx, self.shape, self.dtype = st, idx, list(shape), dtype

    def data(self):
        return [self.st[i] for i in self.idx]


def strides(shape):
    out, n = [], 1
    for d in reversed(shape):
        out.append(n)
        n *= d
    return out[::-1]


def broadcast(*shapes):
    r = []
    n = max(map(len, shapes))
    for i in range(n):
        d = 1
        for s in shapes:
            k = i - (n - len(s))
            if k >= 0 and s[k] != 1:
                if d not in (1, s[k]):
                    raise Unreachable()
                d = s[k]
        r.append(d)
    return r


def spread(data, shape, to):
    """the elements of a tensor, repeated to a larger shape"""
    if shape == to:
        return data
    s = strides(shape)
    off = len(to) - len(shape)
    return [data[sum((i[k + off] if shape[k] != 1 else 0) * s[k] for k in range(len(shape)))] for i in itertools.product(*map(range, to))]


class Undecided(Exception):
    pass


class World:
    """tensors and the tensor library"""

    def __init__(self):
        self.E = Expr()
        self.tens = {}
        self.unknown = []
        self.reads = 0

    # tensors
    def put(self, st, t):
        """a value for the tensor"""
        base = None
        for cur in ((t, Ten(t.st, self.permuted(t, list(range(len(t.shape)))[::-1]), t.shape[::-1], t.dtype)) if len(t.shape) > 1 else (t,)):
            a = P(f'tensor#{len(self.tens)}')
            self.tens[a] = cur
            self.facts(st.over, a, cur)
            if base is None:
                base = a
                if len(t.shape) < 2:
                    st.over[(a, 'T')] = V(a)
            else:
                st.over[(base, 'T')] = V(a)
                st.over[(a, 'T')] = V(base)
        return base

    def facts(self, over, a, t):
        over[(a, 'shape')] = V(tup(*[c(int(d)) for d in t.shape]))
        over[(a, 'ndim')] = V(c(len(t.shape)))
        over[(a, 'dtype')] = V(dt(t.dtype))
        over[(a, 'device')] = V(P('device'))
        over[(a, 'data')] = V(a)

    def permuted(self, t, perm):
        s = strides(t.shape)
        sh = [t.shape[p] for p in perm]
        return [t.idx[sum(i[k] * s[perm[k]] for k in range(len(perm)))] for i in itertools.product(*map(range, sh))]

    def new(self, data, shape, dtype):
        if numel(shape) != len(data):
            raise Undecided()
        return Ten(list(data), list(range(len(data))), shape, dtype)

    def of(self, a):
        return self.tens.get(a)

    def given(self, name, shape, dtype='float32', values=None, stale=False):
        n = numel(shape)
        if values is not None:
            st = [self.E.num(x) for x in values]
        elif stale:
            st = [self.E.mk('stale', name, i) for i in range(n)]
        else:
            st = [self.E.leaf(name, i, dtype) for i in range(n)]
        return Ten(st, list(range(n)), shape, dtype)

    # arguments
    def ten(self, v):
        """a tensor operand; numbers are tensors without dimensions"""
        a = one(v)
        if a is None:
            raise Undecided()
        t = self.of(a)
        if t is not None:
            return t
        if a[0] == 'const' and isinstance(a[2], (int, float)):
            return Ten([self.E.num(a[2])], [0], [], 'number' if isinstance(a[2], float) else 'whole' if not isinstance(a[2], bool) else 'bool')
        if a[0] == 'param' and a[1].startswith('elem#'):
            _, e, d = a[1].split('#')
            return Ten([int(e)], [0], [], 'number' if d in FLOATS else 'whole')
        raise Undecided()

    def py(self, v, st, kinds=(int, float, str, bytes, bool, type(None))):
        a = one(v)
        if a is None:
            raise Undecided()
        if self.of(a) is not None:
            t = self.of(a)
            if len(t.idx) == 1 and self.E.const(t.st[t.idx[0]]) is not None:
                return self.E.const(t.st[t.idx[0]])
            raise Undecided()
        x = plain(a, st)
        self.flat(x, kinds)
        return x

    def flat(self, x, kinds):
        if isinstance(x, list):
            for y in x:
                self.flat(y, kinds)
        elif isinstance(x, tuple) or not isinstance(x, kinds):
            raise Undecided()

    def ints(self, args, st):
        xs = [self.py(v, st) for v in args]
        if len(xs) == 1 and isinstance(xs[0], list):
            xs = xs[0]
        for x in xs:
            if isinstance(x, float):
                raise Unreachable()
            if not isinstance(x, int):
                raise Undecided()
        return [int(x) for x in xs]

    def dtype(self, v):
        a = one(v)
        if a is not None and a[0] == 'const' and a[1] == 'torch.dtype':
            return a[2][6:]
        if a is not None and a[0] == 'builtin' and a[1] in ('float', 'int', 'bool'):
            return {'float': 'float32', 'int': 'int64', 'bool': 'bool'}[a[1]]
        return None

    def axis(self, x, n):
        if not isinstance(x, int):
            raise Undecided() if not isinstance(x, float) else Unreachable()
        m = max(n, 1)
        if not -m <= x < m:
            raise Unreachable()
        return x % m

    def promote(self, *ts):
        """the element type of a result"""
        full = [t for t in ts if t.shape]
        zero = [t for t in ts if not t.shape]

        def top(xs):
            best = None
            for d in xs:
                if best is None or d == best:
                    best = d
                elif d in FLOATS and best in FLOATS:
                    best = d if FLOATS[d] > FLOATS[best] else best if FLOATS[d] < FLOATS[best] else 'float32'
                elif d in FLOATS or best in FLOATS:
                    best = d if d in FLOATS else best
                elif d == 'bool' or best == 'bool':
                    best = d if best == 'bool' else best
                elif 'uint8' in (d, best):
                    o = d if best == 'uint8' else best
                    best = o if INTS[o] > 8 else 'int16'
                else:
                    best = d if INTS[d] > INTS[best] else best
            return best
        num = [t.dtype for t in zero if t.dtype in ('number', 'whole')]
        zero = [t.dtype for t in zero if t.dtype not in ('number', 'whole')]
        r = top([t.dtype for t in full])
        z = top(zero)
        cat = lambda d: 0 if d is None else 1 if d == 'bool' else 2 if d in INTS or d == 'whole' else 3
        if r is None or cat(z) > cat(r):
            r = z if r is None or cat(z) > cat(r) else r
        for d in num:
            if cat(d if d == 'whole' else 'float32') > cat(r):
                r = 'float32' if d == 'number' else 'int64'
        return r

    def castall(self, t, d):
        return [self.E.cast(e, None if t.dtype in ('number', 'whole') else t.dtype, d) for e in t.data()]

    # writing
    def store(self, t, data, dtype):
        """data of the tensor's own shape"""
        vals = [self.E.cast(e, dtype, t.dtype) for e in data]
        for i, e in zip(t.idx, vals):
            t.st[i] = e

    def into(self, t, src):
        """copy with repetition"""
        sh = src.shape
        while len(sh) > len(t.shape) and sh[0] == 1:
            sh = sh[1:]
        if len(sh) > len(t.shape) or broadcast(sh, t.shape) != t.shape:
            raise Unreachable()
        self.store(t, spread(src.data(), sh, t.shape), src.dtype)

    def result(self, t, kw, st):
        """a new tensor, or the one given as out="""
        if 'out' not in kw or one(kw['out']) == T.NONE:
            return V(self.put(st, t))
        a = one(kw['out'])
        o = self.of(a)
        if o is None:
            raise Undecided()
        if t.dtype in FLOATS and o.dtype not in FLOATS or t.dtype in INTS and o.dtype == 'bool':
            raise Unreachable()
        data = t.data()
        if o.shape != t.shape:
            o.st, o.idx, o.shape = [None] * len(data), list(range(len(data))), list(t.shape)      # the library replaces the memory of the result
            self.facts(st.over, a, o)
        self.store(o, data, t.dtype)
        return V(a)

    # element by element
    def zipped(self, f, ts, dtype=None):
        sh = broadcast(*[t.shape for t in ts])
        d = dtype or self.promote(*ts)
        cols = [spread(t.data(), t.shape, sh) for t in ts]
        return self.new([f(*xs) for xs in zip(*cols)], sh, d)

    def binary(self, op, x, y):
        E = self.E
        d = self.promote(x, y)
        if op == 'div' and d not in FLOATS:
            d = 'float32'
        if op in ('eq', 'ne', 'lt', 'gt', 'le', 'ge'):
            return self.zipped(lambda a, b: E.f(op, a, b), [x, y], 'bool')
        g = {'add': E.add, 'sub': E.sub, 'mul': E.mul, 'div': E.div, 'pow': lambda a, b: E.f('pow', a, b), 'fmod': lambda a, b: E.f('fmod', a, b),
             'mod': lambda a, b: E.f('pymod', a, b), 'max': lambda a, b: E.f('max', a, b), 'min': lambda a, b: E.f('min', a, b),
             'floordiv': lambda a, b: E.f('floor', E.div(a, b))}.get(op)
        if g is None or d == 'bool':
            raise Undecided()
        return self.zipped(g, [x, y], d)

    def unary(self, op, t, *xs):
        E = self.E
        d = t.dtype
        if op in ('sigmoid', 'tanh', 'sqrt', 'rsqrt', 'erf', 'exp', 'log', 'sin', 'cos', 'silu', 'gelu', 'gelu tanh', 'reciprocal') and d not in FLOATS:
            d = 'float32'
        one_ = E.num(1)
        g = {'relu': lambda a: E.f('max', a, E.num(0)), 'neg': lambda a: E.mul(a, q=-1), 'sigmoid': lambda a: self.sigmoid(a),
             'silu': lambda a: E.mul(a, self.sigmoid(a)), 'rsqrt': lambda a: E.div(one_, E.f('sqrt', a)), 'reciprocal': lambda a: E.div(one_, a),
             'gelu': lambda a: E.mul(a, E.add(one_, E.f('erf', E.mul(a, q=1 / math.sqrt(2)))), q=0.5),
             'gelu tanh': lambda a: self.gelu_tanh(a), 'not': lambda a: E.f('eq', a, E.num(0)),
             'leaky': lambda a: E.f('where', E.f('gt', a, E.num(0)), a, E.mul(a, xs[0])), 'square': lambda a: E.mul(a, a)}.get(op) or (lambda a: E.f(op, a))
        return self.new([g(e) for e in t.data()], t.shape, d)

    def sigmoid(self, a):
        E = self.E
        return E.div(E.num(1), E.add(E.num(1), E.f('exp', E.mul(a, q=-1))))

    def gelu_tanh(self, a):
        E = self.E
        return E.mul(a, E.add(E.num(1), E.f('tanh', E.mul(E.add(a, E.mul(a, a, a, q=0.044715)), q=math.sqrt(2 / math.pi)))), q=0.5)

    # structure
    def reshaped(self, t, sh):
        sh = list(sh)
        n = len(t.idx)
        if sh.count(-1) == 1:
            k = numel([d for d in sh if d != -1])
            if k == 0 or n % k:
                raise Unreachable()
            sh[sh.index(-1)] = n // k
        if any(d < 0 for d in sh) or numel(sh) != n:
            raise Unreachable()
        return sh

    def whole(self, t):
        return all(b == a + 1 for a, b in zip(t.idx, t.idx[1:]))

    def reshape(self, t, sh, view=False):
        sh = self.reshaped(t, sh)
        if self.whole(t):
            return Ten(t.st, t.idx, sh, t.dtype)
        if view and [d for d in sh if d != 1] != [d for d in t.shape if d != 1]:
            raise Unreachable()
        return self.new(t.data(), sh, t.dtype) if not view else Ten(t.st, t.idx, sh, t.dtype)

    def take(self, t, axis, ks):
        """elements along an axis, in the given order, as a view"""
        s = strides(t.shape)
        sh = list(t.shape)
        sh[axis] = len(ks)
        return Ten(t.st, [t.idx[sum((ks[v] if k == axis else v) * s[k] for k, v in enumerate(i))] for i in itertools.product(*map(range, sh))], sh, t.dtype)

    def index(self, t, parts, st):
        out, k = t, 0
        n = sum(1 for p in parts if p != T.NONE and p != ('ellipsis',))
        if ('ellipsis',) in parts:
            if parts.count(('ellipsis',)) > 1:
                raise Unreachable()
            i = parts.index(('ellipsis',))
            parts = parts[:i] + [('slice', T.NONE, T.NONE, T.NONE)] * (len(t.shape) - n) + parts[i + 1:]
        if n > len(t.shape):
            raise Unreachable()
        for p in parts:
            if p == T.NONE:
                out = Ten(out.st, out.idx, out.shape[:k] + [1] + out.shape[k:], out.dtype)
                k += 1
            elif p[0] == 'slice':
                v = [self.py(V(x), st) for x in p[1:]]
                if any(isinstance(x, float) for x in v):
                    raise Unreachable()
                if v[2] is not None and v[2] <= 0:
                    raise Unreachable()
                out = self.take(out, k, list(range(out.shape[k]))[slice(*v)])
                k += 1
            elif self.of(p) is not None:
                it = self.of(p)
                if sum(1 for q in parts if self.of(q) is not None) > 1 or it.dtype not in INTS:
                    raise Undecided()
                ks = [self.E.const(e) for e in it.data()]
                if any(x is None for x in ks):
                    raise Undecided()
                d = out.shape[k]
                if any(not -d <= x < d for x in ks):
                    raise Unreachable()
                out = self.take(out, k, [x % d for x in ks])
                out = self.new(out.data(), out.shape[:k] + it.shape + out.shape[k + 1:], out.dtype)
                k += len(it.shape)
            else:
                x = self.py(V(p), st)
                if isinstance(x, (list, str, bytes, bool, float)) or x is None:
                    raise Undecided()
                d = out.shape[k]
                if not -d <= x < d:
                    raise Unreachable()
                out = self.take(out, k, [x % d])
                out = Ten(out.st, out.idx, out.shape[:k] + out.shape[k + 1:], out.dtype)
        return out

    def parts(self, iv, st):
        i = one(iv)
        if i is None:
            raise Undecided()
        if i[0] == 'tuple':
            ps = list(i[1])
        elif i[0] == 'ref':
            o = st.heap.get(i[1])
            if o is None or o.items is None or o.elem or any(len(x) != 1 for x in o.items) or o.kind != 'tuple':
                raise Undecided()
            ps = [one(x) for x in o.items]
        else:
            ps = [i]
        return [('ellipsis',) if p == ('const', 'ellipsis', Ellipsis) or p[0] == 'const' and p[2] is Ellipsis else p for p in ps]

    def item(self, I, b, iv, st):
        t = self.of(b)
        if t is None:
            return None
        try:
            return V(self.put(st, self.index(t, self.parts(iv, st), st)))
        except Undecided:
            self.unknown.append(None)
            return V(('call', 'torch', (b,), ()))

    def setitem(self, I, b, iv, v, st):
        t = self.of(b)
        if t is None:
            return None
        try:
            self.into(self.index(t, self.parts(iv, st), st), self.ten(v))
        except Undecided:
            self.unknown.append(None)
        return True

    def binop(self, I, o, a, b, st, inplace=False):
        if self.of(a) is None and self.of(b) is None:
            return None
        try:
            x, y = self.ten(V(a)), self.ten(V(b))
            if o == '@':
                r = self.matmul(x, y)
            else:
                op = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '**': 'pow', '%': 'mod', '//': 'floordiv', '==': 'eq', '!=': 'ne', '<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge'}.get(o)
                if op is None:
                    raise Undecided()
                r = self.binary(op, x, y)
            if inplace and self.of(a) is not None:
                return V(self.inplace(a, x, r))
            return V(self.put(st, r))
        except Undecided:
            self.unknown.append(None)
            return V(('call', 'torch', (a, b), ()))

    def inplace(self, a, t, r):
        if r.shape != t.shape or r.dtype in FLOATS and t.dtype not in FLOATS:
            raise Unreachable()
        self.store(t, r.data(), r.dtype)
        return a

    # larger operations
    def matmul(self, x, y):
        E = self.E
        a, b = list(x.shape), list(y.shape)
        if not a or not b or x.dtype != y.dtype:
            raise Unreachable()
        da, db = x.data(), y.data()
        va, vb = len(a) == 1, len(b) == 1
        if va:
            a = [1] + a
        if vb:
            b = b + [1]
        if a[-1] != b[-2]:
            raise Unreachable()
        batch = broadcast(a[:-2], b[:-2])
        da, db = spread(da, a, batch + a[-2:]), spread(db, b, batch + b[-2:])
        m, k, n = a[-2], a[-1], b[-1]
        out = []
        for p in range(numel(batch)):
            for i in range(m):
                for j in range(n):
                    out.append(E.add(*[E.mul(da[(p * m + i) * k + q], db[(p * k + q) * n + j]) for q in range(k)]))
        sh = batch + ([] if va else [m]) + ([] if vb else [n])
        return self.new(out, sh, x.dtype)

    def reduce(self, t, axes, keep, f):
        axes = sorted(axes)
        red = [t.shape[k] for k in axes]
        outer = [1 if k in axes else d for k, d in enumerate(t.shape)]
        s = strides(t.shape)
        data = t.data()
        out = []
        for i in itertools.product(*map(range, outer)):
            base = sum(v * s[k] for k, v in enumerate(i))
            out.append(f([data[base + sum(v * s[k] for v, k in zip(j, axes))] for j in itertools.product(*map(range, red))]))
        sh = outer if keep else [d for k, d in enumerate(t.shape) if k not in axes]
        return out, sh

    def softmax(self, t, axis):
        E = self.E
        ex = self.new([E.f('exp', e) for e in t.data()], t.shape, t.dtype)
        den, sh = self.reduce(ex, [axis], True, lambda xs: E.add(*xs))
        den = spread(den, sh, t.shape)
        return self.new([E.div(a, b) for a, b in zip(ex.data(), den)], t.shape, t.dtype)

    def cat(self, ts, axis):
        ts = [t for t in ts if t.shape != [0]]
        sh = list(ts[0].shape)
        for t in ts:
            if len(t.shape) != len(sh) or any(k != axis and d != sh[k] for k, d in enumerate(t.shape)):
                raise Unreachable()
        d = self.promote(*ts)
        sh[axis] = sum(t.shape[axis] for t in ts)
        cols = [(t, self.castall(t, d), strides(t.shape)) for t in ts]
        out = []
        for i in itertools.product(*map(range, sh)):
            k = i[axis]
            for t, data, s in cols:
                if k < t.shape[axis]:
                    out.append(data[sum((k if q == axis else v) * s[q] for q, v in enumerate(i))])
                    break
                k -= t.shape[axis]
        return self.new(out, sh, d)

    def windows(self, t, k, stride, pads, dil, ceil=False):
        """(output sizes, function giving the input positions of a window, None outside) over the last dimensions"""
        n = len(k)
        sp = t.shape[-n:]
        o = []
        for i in range(n):
            v = sp[i] + 2 * pads[i] - dil[i] * (k[i] - 1) - 1
            q = (v + (stride[i] - 1 if ceil else 0)) // stride[i] + 1
            if ceil and (q - 1) * stride[i] >= sp[i] + pads[i]:
                q -= 1
            if q <= 0 or stride[i] <= 0:
                raise Unreachable()
            o.append(q)
        return o

    def conv(self, x, w, b, stride, pads, dil, groups):
        E = self.E
        n = len(w.shape) - 2
        if len(x.shape) == n + 1:
            r = self.conv(Ten(x.st, x.idx, [1] + x.shape, x.dtype), w, b, stride, pads, dil, groups)
            return Ten(r.st, r.idx, r.shape[1:], r.dtype)
        if len(x.shape) != n + 2:
            raise Unreachable()
        M, cg = w.shape[:2]
        k = w.shape[2:]
        if x.shape[1] != cg * groups or M % groups or b is not None and b.shape != [M]:
            raise Unreachable()
        o = self.windows(x, k, stride, pads, dil)
        dx, dw, s, sw = x.data(), w.data(), strides(x.shape), strides(w.shape)
        db = b.data() if b is not None else None
        out = []
        for i in itertools.product(range(x.shape[0]), range(M), *map(range, o)):
            g = i[1] // (M // groups)
            acc = []
            for cc in range(cg):
                for j in itertools.product(*map(range, k)):
                    p = [i[2 + a] * stride[a] - pads[a] + j[a] * dil[a] for a in range(n)]
                    if all(0 <= p[a] < x.shape[2 + a] for a in range(n)):
                        acc.append(E.mul(dx[i[0] * s[0] + (g * cg + cc) * s[1] + sum(p[a] * s[2 + a] for a in range(n))],
                                         dw[i[1] * sw[0] + cc * sw[1] + sum(j[a] * sw[2 + a] for a in range(n))]))
            if db is not None:
                acc.append(db[i[1]])
            out.append(E.add(*acc))
        return self.new(out, [x.shape[0], M] + o, x.dtype)

    def pool(self, x, kind, k, stride, pads, dil, ceil, include, divisor=None):
        E = self.E
        n = len(k)
        if len(x.shape) not in (n + 1, n + 2):
            raise Unreachable()
        if any(p > q // 2 for p, q in zip(pads, k)):
            raise Unreachable()                              # the library refuses larger padding
        o = self.windows(x, k, stride, pads, dil, ceil)
        lead = x.shape[:-n]
        dx, s = x.data(), strides(x.shape)
        sp = x.shape[-n:]
        out = []
        for i in itertools.product(*map(range, lead + o)):
            base = sum(i[q] * s[q] for q in range(len(lead)))
            acc, area = [], 0
            for j in itertools.product(*map(range, k)):
                p = [i[len(lead) + a] * stride[a] - pads[a] + j[a] * dil[a] for a in range(n)]
                if all(-pads[a] <= p[a] < sp[a] + pads[a] for a in range(n)):
                    area += 1
                if all(0 <= p[a] < sp[a] for a in range(n)):
                    acc.append(dx[base + sum(p[a] * s[len(lead) + a] for a in range(n))])
            if kind == 'max':
                out.append(E.f('max', *acc) if acc else E.num(-math.inf))
            else:
                d = divisor or (area if include else len(acc))
                out.append(E.mul(E.add(*acc), q=1 / d) if acc else E.num(0))
        return self.new(out, lead + o, x.dtype)

    def pad(self, t, pads, mode, value):
        """pads: (begin, end) per dimension"""
        sh = [d + b + e for d, (b, e) in zip(t.shape, pads)]
        if any(d < 0 for d in sh):
            raise Unreachable()
        data, s = t.data(), strides(t.shape)
        out = []
        for i in itertools.product(*map(range, sh)):
            pos = 0
            for k, v in enumerate(i):
                p, d = v - pads[k][0], t.shape[k]
                if not 0 <= p < d:
                    if mode == 'constant':
                        pos = None
                        break
                    if mode == 'reflect':
                        p = -p if p < 0 else 2 * (d - 1) - p
                        if not 0 <= p < d:
                            raise Unreachable()
                    elif mode == 'edge':
                        p = min(max(p, 0), d - 1)
                    elif mode == 'wrap':
                        p %= d
                pos += p * s[k]
            out.append(data[pos] if pos is not None else value)
        return self.new(out, sh, t.dtype)

    def resize(self, t, size, mode, coord, scales=None):
        """the spatial dimensions follow two; coord(dst, in, out) gives the source coordinate; linear or nearest (floor) sampling"""
        E = self.E
        data, s = t.data(), strides(t.shape)
        n = len(size)
        axes = []
        for k in range(n):
            d = t.shape[k + 2]
            row = []
            for v in range(size[k]):
                x = coord(v, d, size[k])
                if mode == 'nearest':
                    row.append([(min(max(int(x), 0), d - 1), 1)])
                else:
                    x = min(max(x, 0), d - 1)
                    lo = min(int(math.floor(x + 1e-12)), d - 1)
                    w = x - lo
                    row.append([(lo, 1 - w)] + ([(min(lo + 1, d - 1), w)] if w > 1e-9 else []))
            axes.append(row)
        out = []
        for i in itertools.product(*map(range, t.shape[:2] + list(size))):
            base = i[0] * s[0] + i[1] * s[1]
            acc = []
            for combo in itertools.product(*[axes[k][i[k + 2]] for k in range(n)]):
                w = 1
                pos = base
                for k, (p, q) in enumerate(combo):
                    pos += p * s[k + 2]
                    w *= q
                acc.append((data[pos], w))
            out.append(E.add(*acc) if mode != 'nearest' else data[pos])
        return self.new(out, t.shape[:2] + list(size), t.dtype)


# ------------------------------------------------------------------ the library's functions and methods
MISSING = object()


class Args:
    """the arguments of a call by name"""

    def __init__(self, w, st, params, args, kw):
        self.w, self.st = w, st
        self.v = {}
        star = params and params[-1].startswith('*')
        names = [p.lstrip('*') for p in params]
        for i, a in enumerate(args):
            if star and i >= len(names) - 1:
                self.v.setdefault(names[-1], [])
                self.v[names[-1]].append(a)
            elif i >= len(names):
                raise Undecided()
            else:
                self.v[names[i]] = a
        for k, a in kw.items():
            k = {'axis': 'dim', 'keepdims': 'keepdim', 'x': 'input', 'x1': 'input', 'x2': 'other', 'index': 'index', 'tensors': 'tensors'}.get(k, k)
            if k in ('out', 'device', 'non_blocking', 'inplace', 'memory_format', 'requires_grad', 'copy', 'layout', 'pin_memory'):
                self.v[k] = a
                continue
            if k not in names and k != 'dtype':
                raise Undecided()
            if k in self.v:
                raise Undecided()
            self.v[k] = [a] if star and k == names[-1] else a

    def has(self, k):
        v = self.v.get(k)
        return v is not None and (isinstance(v, list) or one(v) != T.NONE)

    def t(self, k):
        return self.w.ten(self.v[k]) if k in self.v else self.w.ten(None)

    def py(self, k, d=MISSING):
        if k not in self.v:
            if d is MISSING:
                raise Undecided()
            return d
        return self.w.py(self.v[k], self.st)

    def ints(self, k, d=MISSING):
        """a list of numbers given as one sequence or several arguments"""
        if k not in self.v:
            if d is MISSING:
                raise Undecided()
            return d
        v = self.v[k]
        return self.w.ints(v if isinstance(v, list) else [v], self.st)

    def several(self, k, n, d):
        """one number for every dimension"""
        x = self.py(k, d)
        if x is None or x == []:
            x = d
        if isinstance(x, (int, float)):
            x = [x] * n
        if len(x) == 1:
            x = x * n
        if len(x) != n:
            raise Unreachable()
        if any(isinstance(y, float) for y in x):
            raise Unreachable()
        return [int(y) for y in x]

    def dims(self, k, n):
        """reduced dimensions; None for all"""
        x = self.py(k, None)
        if x is None or x == []:
            return list(range(n))
        xs = x if isinstance(x, list) else [x]
        r = [self.w.axis(y, n) for y in xs]
        if len(set(r)) != len(r):
            raise Unreachable()
        return r if n else []


API = {}


def api(names, params=''):
    def g(f):
        for n in names.split():
            API[n] = (params.split(), f)
        return f
    return g


def _bin(op):
    def f(w, a):
        y = a.t('other')
        if a.has('alpha'):
            y = w.binary('mul', y, w.ten(a.v['alpha']))
        return w.binary(op, a.t('input'), y)
    return f


for _n, _o in (('add', 'add'), ('sub', 'sub'), ('subtract', 'sub'), ('mul', 'mul'), ('multiply', 'mul'), ('true_divide', 'div'), ('eq', 'eq'), ('ne', 'ne'), ('lt', 'lt'), ('gt', 'gt'),
               ('le', 'le'), ('ge', 'ge'), ('less', 'lt'), ('greater', 'gt'), ('fmod', 'fmod'), ('remainder', 'mod'), ('pow', 'pow'), ('maximum', 'max'), ('minimum', 'min'), ('floor_divide', 'floordiv')):
    API[_n] = (['input', 'other'] + (['alpha'] if _n in ('add', 'sub') else []), _bin(_o))
API['pow'] = (['input', 'exponent'], lambda w, a: w.binary('pow', a.t('input'), a.t('exponent')))


@api('div divide', 'input other rounding_mode')
def _div(w, a):
    m = a.py('rounding_mode', None)
    r = w.binary('div', a.t('input'), a.t('other'))
    if m is None:
        return r
    if m not in ('floor', 'trunc'):
        raise Undecided()
    return Ten([w.E.f(m, e) for e in r.data()], list(range(len(r.idx))), r.shape, w.promote(a.t('input'), a.t('other')))


def _un(op):
    return lambda w, a: w.unary(op, a.t('input'))


for _n in ('relu', 'sigmoid', 'tanh', 'neg', 'negative', 'sqrt', 'rsqrt', 'erf', 'exp', 'log', 'abs', 'floor', 'ceil', 'round', 'trunc', 'sin', 'cos', 'silu', 'reciprocal', 'square', 'absolute',
           'logical_not', 'expit'):
    API[_n] = (['input'] + (['inplace'] if _n in ('relu', 'silu') else []), _un({'negative': 'neg', 'absolute': 'abs', 'logical_not': 'not', 'expit': 'sigmoid'}.get(_n, _n)))


@api('gelu', 'input approximate')
def _gelu(w, a):
    m = a.py('approximate', 'none')
    if m not in ('none', 'tanh'):
        raise Unreachable()
    return w.unary('gelu tanh' if m == 'tanh' else 'gelu', a.t('input'))


@api('leaky_relu', 'input negative_slope inplace')
def _leaky(w, a):
    return w.unary('leaky', a.t('input'), w.E.num(a.py('negative_slope', 0.01)))


@api('clamp clip', 'input min max')
def _clamp(w, a):
    r = a.t('input')
    if not a.has('min') and not a.has('max'):
        raise Unreachable()
    d = r.dtype
    for k, op in (('min', 'max'), ('max', 'min')):
        if a.has(k):
            y = a.t(k)
            if y.dtype == 'number' and w.E.const(y.st[0]) is not None and abs(w.E.const(y.st[0])) > 3.3e38 and r.dtype in FLOATS:
                continue                                    # the limits of the element type
            r = w.binary(op, r, y)
    if r is a.t('input'):
        r = w.new(r.data(), r.shape, d)
    return r


@api('reshape', 'input *shape')
def _reshape(w, a):
    return w.reshape(a.t('input'), a.ints('shape'))


@api('view', 'input *shape')
def _view(w, a):
    return w.reshape(a.t('input'), a.ints('shape'), view=True)


@api('flatten', 'input start_dim end_dim')
def _flatten(w, a):
    t = a.t('input')
    n = len(t.shape)
    s, e = w.axis(a.py('start_dim', 0), n), w.axis(a.py('end_dim', -1), n)
    return w.reshape(t, t.shape[:s] + [numel(t.shape[s:e + 1])] + t.shape[e + 1:] if n else [1])


@api('permute', 'input *dims')
def _permute(w, a):
    t = a.t('input')
    p = [w.axis(x, len(t.shape)) for x in a.ints('dims')]
    if sorted(p) != list(range(len(t.shape))):
        raise Unreachable()
    return Ten(t.st, w.permuted(t, p), [t.shape[x] for x in p], t.dtype)


@api('transpose swapaxes swapdims', 'input dim0 dim1')
def _transpose(w, a):
    t = a.t('input')
    i, j = w.axis(a.py('dim0'), len(t.shape)), w.axis(a.py('dim1'), len(t.shape))
    p = list(range(len(t.shape)))
    p[i], p[j] = p[j], p[i]
    return Ten(t.st, w.permuted(t, p), [t.shape[x] for x in p], t.dtype)


@api('t', 'input')
def _t(w, a):
    t = a.t('input')
    if len(t.shape) > 2:
        raise Unreachable()
    p = list(range(len(t.shape)))[::-1]
    return Ten(t.st, w.permuted(t, p), t.shape[::-1], t.dtype)


@api('matmul', 'input other')
def _matmul(w, a):
    return w.matmul(a.t('input'), a.t('other'))


@api('mm', 'input mat2')
def _mm(w, a):
    x, y = a.t('input'), a.t('mat2')
    if len(x.shape) != 2 or len(y.shape) != 2:
        raise Unreachable()
    return w.matmul(x, y)


@api('bmm', 'input mat2')
def _bmm(w, a):
    x, y = a.t('input'), a.t('mat2')
    if len(x.shape) != 3 or len(y.shape) != 3 or x.shape[0] != y.shape[0]:
        raise Unreachable()
    return w.matmul(x, y)


@api('addmm', 'input mat1 mat2 beta alpha')
def _addmm(w, a):
    r = w.matmul(a.t('mat1'), a.t('mat2'))
    if a.has('alpha'):
        r = w.binary('mul', r, a.t('alpha'))
    x = a.t('input')
    if a.has('beta'):
        x = w.binary('mul', x, a.t('beta'))
    if broadcast(x.shape, r.shape) != r.shape:
        raise Unreachable()
    return w.binary('add', r, x)


@api('linear', 'input weight bias')
def _linear(w, a):
    wt = a.t('weight')
    r = w.matmul(a.t('input'), Ten(wt.st, w.permuted(wt, list(range(len(wt.shape)))[::-1]), wt.shape[::-1], wt.dtype))
    return w.binary('add', r, a.t('bias')) if a.has('bias') else r


@api('batch_norm', 'input running_mean running_var weight bias training momentum eps')
def _bn(w, a):
    E = w.E
    x = a.t('input')
    if a.py('training', False):
        raise Undecided()
    if len(x.shape) < 2:
        raise Unreachable()
    C = x.shape[1]

    def chan(k, d):
        if not a.has(k):
            return [E.num(d)] * C
        t = a.t(k)
        if t.shape != [C]:
            raise Unreachable()
        return t.data()
    m, v, g, b = chan('running_mean', 0), chan('running_var', 1), chan('weight', 1), chan('bias', 0)
    eps = E.num(a.py('eps', 1e-5))
    inner = numel(x.shape[2:])
    out = []
    for i, e in enumerate(x.data()):
        k = i // inner % C
        out.append(E.add(E.mul(E.sub(e, m[k]), (E.f('sqrt', E.add(v[k], eps)), -1), g[k]), b[k]))
    return w.new(out, x.shape, x.dtype)


@api('layer_norm', 'input normalized_shape weight bias eps')
def _ln(w, a):
    x = a.t('input')
    n = len(a.ints('normalized_shape'))
    if x.shape[-n:] != a.ints('normalized_shape'):
        raise Unreachable()
    axes = list(range(len(x.shape) - n, len(x.shape)))
    r = normed(w, x, axes, a.py('eps', 1e-5))
    if a.has('weight'):
        r = w.binary('mul', r, a.t('weight'))
    return w.binary('add', r, a.t('bias')) if a.has('bias') else r


@api('rms_norm', 'input normalized_shape weight eps')
def _rms(w, a):
    x = a.t('input')
    n = len(a.ints('normalized_shape'))
    if a.py('eps', None) is None:
        raise Undecided()
    r = normed(w, x, list(range(len(x.shape) - n, len(x.shape))), a.py('eps'), center=False)
    return w.binary('mul', r, a.t('weight')) if a.has('weight') else r


def normed(w, x, axes, eps, center=True):
    E = w.E
    mean = lambda t: Ten(*(lambda o: (o[0], list(range(len(o[0]))), o[1], x.dtype))(w.reduce(t, axes, True, lambda xs: E.mul(E.add(*xs), q=1 / len(xs)))))
    y = w.binary('sub', x, mean(x)) if center else x
    var = mean(w.binary('mul', y, y))
    s = w.new([E.f('sqrt', E.add(e, E.num(eps))) for e in var.data()], var.shape, x.dtype)
    return w.binary('div', y, s)


def _convn(n):
    def f(w, a):
        p = a.py('padding', 0)
        x, k = a.t('input'), a.t('weight')
        if len(k.shape) != n + 2:
            raise Unreachable()
        st, dil = a.several('stride', n, 1), a.several('dilation', n, 1)
        if p == 'valid':
            p = 0
        if p == 'same':
            if any(s != 1 for s in st):
                raise Unreachable()
            tot = [d * (q - 1) for d, q in zip(dil, k.shape[2:])]
            lo = [t // 2 for t in tot]
            x = w.pad(x, [(0, 0)] * (len(x.shape) - n) + [(l, t - l) for l, t in zip(lo, tot)], 'constant', w.E.num(0))
            ps = [0] * n
        elif isinstance(p, str):
            raise Unreachable()
        else:
            ps = a.several('padding', n, 0)
        return w.conv(x, k, a.t('bias') if a.has('bias') else None, st, ps, dil, a.py('groups', 1))
    return f


for _k in (1, 2, 3):
    API[f'conv{_k}d'] = ('input weight bias stride padding dilation groups'.split(), _convn(_k))


def _pooln(n, kind):
    def f(w, a):
        k = a.several('kernel_size', n, None)
        st = a.py('stride', None)
        st = k if st is None or st == [] else a.several('stride', n, 1)
        if a.has('return_indices') and a.py('return_indices'):
            raise Undecided()
        return w.pool(a.t('input'), kind, k, st, a.several('padding', n, 0), a.several('dilation', n, 1) if kind == 'max' else [1] * n, bool(a.py('ceil_mode', False)),
                      bool(a.py('count_include_pad', True)), a.py('divisor_override', None))
    return f


for _k in (1, 2, 3):
    API[f'avg_pool{_k}d'] = ('input kernel_size stride padding ceil_mode count_include_pad divisor_override'.split(), _pooln(_k, 'avg'))
    API[f'max_pool{_k}d'] = ('input kernel_size stride padding dilation ceil_mode return_indices'.split(), _pooln(_k, 'max'))


def _adaptive(n, kind):
    def f(w, a):
        E = w.E
        t = a.t('input')
        o = a.several('output_size', n, 1)
        if o != [1] * n:
            raise Undecided()
        axes = list(range(len(t.shape) - n, len(t.shape)))
        d, sh = w.reduce(t, axes, True, (lambda xs: E.mul(E.add(*xs), q=1 / len(xs))) if kind == 'avg' else (lambda xs: E.f('max', *xs)))
        return w.new(d, sh, t.dtype)
    return f


for _k in (1, 2, 3):
    API[f'adaptive_avg_pool{_k}d'] = (['input', 'output_size'], _adaptive(_k, 'avg'))
    API[f'adaptive_max_pool{_k}d'] = (['input', 'output_size'], _adaptive(_k, 'max'))


def tensors(w, v, st):
    a = one(v)
    if a is None:
        raise Undecided()
    if a[0] in ('tuple', 'list'):
        return [w.ten(V(x)) for x in a[1]]
    if a[0] == 'ref':
        o = st.heap.get(a[1])
        if o is not None and o.items is not None and not o.elem:
            return [w.ten(x) for x in o.items]
    raise Undecided()


@api('cat concat concatenate', 'tensors dim')
def _cat(w, a):
    ts = tensors(w, a.v.get('tensors'), a.st)
    n = max(len(t.shape) for t in ts)
    if n == 0:
        raise Unreachable()
    return w.cat(ts, w.axis(a.py('dim', 0), n))


@api('stack', 'tensors dim')
def _stack(w, a):
    ts = tensors(w, a.v.get('tensors'), a.st)
    n = len(ts[0].shape) + 1
    k = w.axis(a.py('dim', 0), n)
    return w.cat([Ten(t.st, t.idx, t.shape[:k] + [1] + t.shape[k:], t.dtype) for t in ts], k)


@api('softmax', 'input dim dtype')
def _softmax(w, a):
    t = a.t('input')
    if t.dtype not in FLOATS or a.has('dtype'):
        raise Unreachable() if not a.has('dtype') else Undecided()
    return w.softmax(t, w.axis(a.py('dim'), len(t.shape)))


@api('log_softmax', 'input dim')
def _logsoftmax(w, a):
    t = a.t('input')
    return w.unary('log', w.softmax(t, w.axis(a.py('dim'), len(t.shape))))


@api('squeeze', 'input *dim')
def _squeeze(w, a):
    t = a.t('input')
    n = len(t.shape)
    if 'dim' in a.v:
        ks = [w.axis(x, n) for x in a.ints('dim')]
        if len(set(ks)) != len(ks):
            raise Unreachable()
    else:
        ks = list(range(n))
    return Ten(t.st, t.idx, [d for k, d in enumerate(t.shape) if k not in ks or d != 1], t.dtype)


@api('unsqueeze', 'input dim')
def _unsqueeze(w, a):
    t = a.t('input')
    k = w.axis(a.py('dim'), len(t.shape) + 1)
    return Ten(t.st, t.idx, t.shape[:k] + [1] + t.shape[k:], t.dtype)


@api('index_select', 'input dim index')
def _index_select(w, a):
    t, i = a.t('input'), a.t('index')
    k = w.axis(a.py('dim'), len(t.shape))
    if len(i.shape) > 1 or i.dtype not in ('int64', 'int32'):
        raise Unreachable()
    ks = [w.E.const(e) for e in i.data()]
    if None in ks:
        raise Undecided()
    if any(not 0 <= x < t.shape[k] for x in ks):
        raise Unreachable()
    r = w.take(t, k, ks)
    return w.new(r.data(), r.shape, r.dtype)


@api('gather', 'input dim index')
def _gather(w, a):
    t, i = a.t('input'), a.t('index')
    n = len(t.shape)
    k = w.axis(a.py('dim'), n)
    if len(i.shape) != n or i.dtype != 'int64' or any(q != k and i.shape[q] > t.shape[q] for q in range(n)):
        raise Unreachable()
    s = strides(t.shape)
    out = []
    data = t.data()
    for pos, e in zip(itertools.product(*map(range, i.shape)), i.data()):
        x = w.E.const(e)
        if x is None:
            raise Undecided()
        if not 0 <= x < t.shape[k]:
            raise Unreachable()
        out.append(data[sum((x if q == k else v) * s[q] for q, v in enumerate(pos))])
    return w.new(out, i.shape, t.dtype)


@api('take_along_dim', 'input indices dim')
def _take_along(w, a):
    a.v['index'] = a.v['indices']
    return _gather(w, a)


@api('expand', 'input *size')
def _expand(w, a):
    t = a.t('input')
    sh = a.ints('size')
    lead = len(sh) - len(t.shape)
    if lead < 0:
        raise Unreachable()
    to = []
    for k, d in enumerate(sh):
        if d == -1:
            if k < lead:
                raise Unreachable()
            d = t.shape[k - lead]
        to.append(d)
    if broadcast(t.shape, to) != to:
        raise Unreachable()
    return Ten(t.st, spread(t.idx, t.shape, to), to, t.dtype)


API['broadcast_to'] = (['input', '*size'], _expand)


@api('expand_as', 'input other')
def _expand_as(w, a):
    t, to = a.t('input'), a.t('other').shape
    if broadcast(t.shape, to) != to:
        raise Unreachable()
    return Ten(t.st, spread(t.idx, t.shape, to), to, t.dtype)


@api('view_as reshape_as', 'input other')
def _as(w, a):
    return w.reshape(a.t('input'), a.t('other').shape)


def repeated(w, t, r):
    sh = [1] * (len(r) - len(t.shape)) + t.shape
    cur = Ten(t.st, t.idx, sh, t.dtype)
    for k, n in enumerate(r):
        if n < 0:
            raise Unreachable()
        cur = w.take(cur, k, list(range(sh[k])) * n)
    return w.new(cur.data(), cur.shape, t.dtype)


@api('repeat', 'input *repeats')
def _repeat(w, a):
    t, r = a.t('input'), a.ints('repeats')
    if len(r) < len(t.shape):
        raise Unreachable()
    return repeated(w, t, r)


@api('tile', 'input *dims')
def _tile(w, a):
    t, r = a.t('input'), a.ints('dims')
    return repeated(w, t, [1] * (len(t.shape) - len(r)) + r)


@api('repeat_interleave', 'input repeats dim')
def _interleave(w, a):
    t, n = a.t('input'), a.py('repeats')
    if not isinstance(n, int) or not a.has('dim'):
        raise Undecided()
    k = w.axis(a.py('dim'), len(t.shape))
    r = w.take(t, k, [i for i in range(t.shape[k]) for _ in range(n)])
    return w.new(r.data(), r.shape, r.dtype)


@api('where', 'input self other')
def _where(w, a):
    c_, x, y = a.t('input'), a.t('self'), a.t('other')
    if c_.dtype not in ('bool', 'uint8'):
        raise Unreachable()
    return w.zipped(lambda p, q, r: w.E.f('where', p, q, r), [c_, x, y], w.promote(x, y))


@api('masked_fill', 'input mask value')
def _masked(w, a):
    t, m, v = a.t('input'), a.t('mask'), a.t('value')
    if m.dtype != 'bool' or len(v.idx) != 1 or broadcast(m.shape, t.shape) != t.shape:
        raise Unreachable()
    return w.zipped(lambda p, q, r: w.E.f('where', q, r, p), [t, m, v], t.dtype)


def _red(kind):
    def f(w, a):
        E = w.E
        t = a.t('input')
        if kind in ('mean',) and t.dtype not in FLOATS:
            raise Unreachable()
        if not a.has('dim') and 'keepdim' in a.v and kind != 'amax' and kind != 'amin':
            raise Unreachable()                              # the library has no such overload
        axes = a.dims('dim', len(t.shape))
        g = {'mean': lambda xs: E.mul(E.add(*xs), q=1 / len(xs)), 'sum': lambda xs: E.add(*xs), 'amax': lambda xs: E.f('max', *xs), 'amin': lambda xs: E.f('min', *xs),
             'prod': lambda xs: E.mul(*xs)}[kind]
        d, sh = w.reduce(t, axes, bool(a.py('keepdim', False)), g)
        return w.new(d, sh, 'int64' if kind in ('sum', 'prod') and t.dtype not in FLOATS else t.dtype)
    return f


for _n in ('mean', 'sum', 'amax', 'amin', 'prod'):
    API[_n] = (['input', 'dim', 'keepdim'], _red(_n))


@api('max', 'input dim keepdim')
def _max(w, a, kind='max'):
    E = w.E
    t = a.t('input')
    if not a.has('dim'):
        d, sh = w.reduce(t, list(range(len(t.shape))), False, lambda xs: E.f(kind, *xs))
        return w.new(d, sh, t.dtype)
    if w.of(one(a.v['dim'])) is not None:
        return w.binary(kind, t, a.t('dim'))
    k = [w.axis(a.py('dim'), len(t.shape))]
    keep = bool(a.py('keepdim', False))
    d, sh = w.reduce(t, k, keep, lambda xs: E.f(kind, *xs))
    i, _ = w.reduce(t, k, keep, lambda xs: E.f('pick i %d 0' % (kind == 'max'), *xs))
    return w.new(d, sh, t.dtype), w.new(i, sh, 'int64')


@api('min', 'input dim keepdim')
def _min(w, a):
    return _max(w, a, 'min')


@api('var', 'input dim unbiased keepdim correction')
def _var(w, a):
    E = w.E
    t = a.t('input')
    cor = a.py('correction', None)
    if cor is None:
        cor = 1 if a.py('unbiased', True) else 0

    def g(xs):
        m = E.mul(E.add(*xs), q=1 / len(xs))
        ys = [E.sub(x, m) for x in xs]
        return E.mul(E.add(*[E.mul(y, y) for y in ys]), q=1 / (len(xs) - cor)) if len(xs) > cor else E.num(math.nan)
    d, sh = w.reduce(t, a.dims('dim', len(t.shape)), bool(a.py('keepdim', False)), g)
    return w.new(d, sh, t.dtype)


@api('pad', 'input pad mode value')
def _pad(w, a):
    t = a.t('input')
    p = a.ints('pad')
    mode = a.py('mode', 'constant')
    if len(p) % 2 or len(p) > 2 * len(t.shape):
        raise Unreachable()
    if mode not in ('constant', 'reflect', 'replicate', 'circular'):
        raise Unreachable()
    v = a.py('value', 0)
    if mode != 'constant' and not (2 <= len(p) // 2 + 1 <= len(t.shape) <= len(p) // 2 + 2):
        raise Unreachable()
    pads = [(0, 0)] * (len(t.shape) - len(p) // 2) + [(p[i], p[i + 1]) for i in range(len(p) - 2, -1, -2)]
    return w.pad(t, pads, {'replicate': 'edge', 'circular': 'wrap'}.get(mode, mode), w.E.num(v or 0))


@api('interpolate', 'input size scale_factor mode align_corners recompute_scale_factor antialias')
def _interp(w, a):
    t = a.t('input')
    n = len(t.shape) - 2
    mode = a.py('mode', 'nearest')
    al = a.py('align_corners', None)
    if n < 1 or mode not in ('nearest', 'linear', 'bilinear', 'bicubic', 'trilinear', 'area', 'nearest-exact'):
        raise Unreachable()
    if {'linear': 1, 'bilinear': 2, 'bicubic': 2, 'trilinear': 3}.get(mode, n) != n or 'nearest' in mode and al is not None:
        raise Unreachable()
    if not a.has('size'):
        f = a.py('scale_factor')
        f = [f] * n if isinstance(f, (int, float)) else f
        size = [int(math.floor(d * x)) for d, x in zip(t.shape[2:], f)]
    else:
        size = a.several('size', n, None)
        if a.has('scale_factor'):
            raise Unreachable()
    if len(size) != n or any(d <= 0 for d in size):
        raise Unreachable()
    if mode == 'bicubic' or mode == 'area':
        return w.new([w.E.mk(f'{mode} {int(bool(al))} {size}', *t.data(), w.E.num(i)) for i in range(numel(t.shape[:2] + size))], t.shape[:2] + size, t.dtype)
    if mode == 'nearest':
        return w.resize(t, size, 'nearest', lambda v, d, o: v * d // o)
    if mode == 'nearest-exact':
        return w.resize(t, size, 'nearest', lambda v, d, o: math.floor((v + 0.5) * d / o))
    return w.resize(t, size, 'linear', (lambda v, d, o: v * (d - 1) / (o - 1) if o > 1 else 0) if al else (lambda v, d, o: max((v + 0.5) * d / o - 0.5, 0)))


@api('to type', 'input dtype other')
def _to(w, a):
    t = a.t('input')
    d = None
    for k in ('dtype', 'other'):
        if k in a.v:
            x = one(a.v[k])
            if w.of(x) is not None:
                d = w.of(x).dtype
            elif w.dtype(a.v[k]):
                d = w.dtype(a.v[k])
            elif x is None or x[0] not in ('param', 'const'):
                raise Undecided()
    if d is None or d == t.dtype:
        return t
    return w.new(w.castall(t, d), t.shape, d)


def _conv_to(d):
    return lambda w, a: a.t('input') if a.t('input').dtype == d else w.new(w.castall(a.t('input'), d), a.t('input').shape, d)


for _n, _d in (('long', 'int64'), ('bool', 'bool'), ('float', 'float32'), ('half', 'float16'), ('double', 'float64'), ('int', 'int32'), ('bfloat16', 'bfloat16')):
    API[_n] = (['input'], _conv_to(_d))


@api('type_as', 'input other')
def _type_as(w, a):
    return _conv_to(a.t('other').dtype)(w, a)


@api('cpu cuda detach numpy', 'input')
def _same(w, a):
    return a.t('input')


@api('contiguous', 'input')
def _contiguous(w, a):
    t = a.t('input')
    return t if w.whole(t) else w.new(t.data(), t.shape, t.dtype)


@api('clone', 'input')
def _clone(w, a):
    t = a.t('input')
    return w.new(t.data(), t.shape, t.dtype)


@api('numel nelement', 'input')
def _numel(w, a):
    return V(c(len(a.t('input').idx)))


@api('dim ndimension', 'input')
def _dim(w, a):
    return V(c(len(a.t('input').shape)))


@api('size', 'input dim')
def _size(w, a):
    t = a.t('input')
    if a.has('dim'):
        return V(c(t.shape[w.axis(a.py('dim'), len(t.shape))]))
    return V(tup(*[c(d) for d in t.shape]))


@api('element_size', 'input')
def _esize(w, a):
    return V(c(SIZES[a.t('input').dtype]))


@api('is_contiguous', 'input')
def _isc(w, a):
    return V(c(w.whole(a.t('input'))))


def pyconst(w, e, d):
    x = w.E.const(e)
    if x is None:
        return P(f'elem#{e}#{d}')
    return c(bool(x) if d == 'bool' else float(x) if d in FLOATS else int(x))


@api('item', 'input')
def _item(w, a):
    t = a.t('input')
    if len(t.idx) != 1:
        raise Unreachable()
    return V(pyconst(w, t.st[t.idx[0]], t.dtype))


@api('tolist', 'input')
def _tolist(w, a):
    t = a.t('input')

    def nest(es, sh):
        if not sh:
            return V(pyconst(w, es[0], t.dtype))
        n = len(es) // sh[0] if sh[0] else 0
        return V(w.I.new_ref(a.st, w.Obj('list', [nest(es[i * n:i * n + n], sh[1:]) for i in range(sh[0])], node=w.node), w.node))
    return nest(t.data(), t.shape)


def literal(w, v, st):
    """a tensor from nested sequences"""
    a = one(v)
    if a is None:
        raise Undecided()
    if w.of(a) is not None:
        return w.of(a)
    if a[0] in ('tuple', 'list'):
        items = [V(x) for x in a[1]]
    elif a[0] == 'ref' and st.heap.get(a[1]) is not None and st.heap[a[1]].items is not None and not st.heap[a[1]].elem:
        items = st.heap[a[1]].items
    else:
        return w.ten(v)
    ts = [literal(w, x, st) for x in items]
    if not ts:
        return Ten([], [], [0], 'number')
    if any(t.shape != ts[0].shape for t in ts):
        raise Unreachable()
    d = 'number' if any(t.dtype == 'number' for t in ts) else ts[0].dtype
    return Ten([e for t in ts for e in t.data()], list(range(sum(len(t.idx) for t in ts))), [len(ts)] + ts[0].shape, d)


@api('tensor as_tensor', 'data dtype')
def _tensor(w, a):
    t = literal(w, a.v['data'], a.st)
    d = w.dtype(a.v['dtype']) if a.has('dtype') else {'number': 'float32', 'whole': 'int64'}.get(t.dtype, t.dtype)
    if d is None:
        raise Undecided()
    return w.new(w.castall(t, d), t.shape, d)


def filled(w, a, sh, e, like=None):
    d = w.dtype(a.v['dtype']) if a.has('dtype') else like or 'float32'
    if d is None:
        raise Undecided()
    return w.new([e] * numel(sh) if not callable(e) else [e(i) for i in range(numel(sh))], sh, d)


@api('full', 'size fill_value dtype')
def _full(w, a):
    t = a.t('fill_value')
    return filled(w, a, a.ints('size'), t.st[t.idx[0]], 'float32' if t.dtype in FLOATS or t.dtype == 'number' else 'bool' if t.dtype == 'bool' else 'int64')


@api('zeros', '*size')
def _zeros(w, a):
    return filled(w, a, a.ints('size'), w.E.num(0))


@api('ones', '*size')
def _ones(w, a):
    return filled(w, a, a.ints('size'), w.E.num(1))


@api('empty', '*size')
def _empty(w, a):
    k = len(w.tens)
    return filled(w, a, a.ints('size'), lambda i: w.E.mk('stale', f'a new tensor {k}', i))


@api('zeros_like', 'input dtype')
def _zl(w, a):
    return filled(w, a, a.t('input').shape, w.E.num(0), a.t('input').dtype)


@api('ones_like', 'input dtype')
def _ol(w, a):
    return filled(w, a, a.t('input').shape, w.E.num(1), a.t('input').dtype)


@api('full_like', 'input fill_value dtype')
def _fl(w, a):
    t = a.t('fill_value')
    return filled(w, a, a.t('input').shape, t.st[t.idx[0]], a.t('input').dtype)


@api('empty_like', 'input dtype')
def _el(w, a):
    k = len(w.tens)
    return filled(w, a, a.t('input').shape, lambda i: w.E.mk('stale', f'a new tensor {k}', i), a.t('input').dtype)


@api('arange', 'start end step dtype')
def _arange(w, a):
    s, e = a.py('start'), a.py('end', None)
    if e is None:
        s, e = 0, s
    r = a.py('step', 1)
    if any(not isinstance(x, int) for x in (s, e, r)) or r == 0:
        raise Undecided()
    xs = list(range(s, e, r))
    d = w.dtype(a.v['dtype']) if a.has('dtype') else 'int64'
    return w.new([w.E.num(x) for x in xs], [len(xs)], d)


def _tri(upper):
    def f(w, a):
        t = a.t('input')
        k = a.py('diagonal', 0)
        if len(t.shape) < 2:
            raise Unreachable()
        m, n = t.shape[-2:]
        return w.new([e if (i % n - i // n % m >= k if upper else i % n - i // n % m <= k) else w.E.num(0) for i, e in enumerate(t.data())], t.shape, t.dtype)
    return f


API['triu'] = (['input', 'diagonal'], _tri(True))
API['tril'] = (['input', 'diagonal'], _tri(False))


@api('split', 'input split_size_or_sections dim')
def _split(w, a):
    t = a.t('input')
    k = w.axis(a.py('dim', 0), len(t.shape))
    s = a.py('split_size_or_sections')
    n = t.shape[k]
    if isinstance(s, int):
        if s <= 0:
            raise Unreachable()
        s = [min(s, n - i) for i in range(0, n, s)]
    if sum(s) != n or any(x < 0 for x in s):
        raise Unreachable()
    out, p = [], 0
    for x in s:
        out.append(w.take(t, k, list(range(p, p + x))))
        p += x
    return tuple(out)


API['split_with_sizes'] = (['input', 'split_size_or_sections', 'dim'], _split)


@api('chunk', 'input chunks dim')
def _chunk(w, a):
    t = a.t('input')
    k = w.axis(a.py('dim', 0), len(t.shape))
    n = a.py('chunks')
    if n <= 0:
        raise Unreachable()
    q = -(-t.shape[k] // n)
    return tuple(w.take(t, k, list(range(p, min(p + q, t.shape[k])))) for p in range(0, t.shape[k], q))


@api('unbind', 'input dim')
def _unbind(w, a):
    t = a.t('input')
    k = w.axis(a.py('dim', 0), len(t.shape))
    return tuple(Ten(u.st, u.idx, u.shape[:k] + u.shape[k + 1:], u.dtype) for u in (w.take(t, k, [i]) for i in range(t.shape[k])))


@api('select', 'input dim index')
def _select(w, a):
    t = a.t('input')
    k = w.axis(a.py('dim'), len(t.shape))
    i = w.axis(a.py('index'), t.shape[k])
    u = w.take(t, k, [i])
    return Ten(u.st, u.idx, u.shape[:k] + u.shape[k + 1:], u.dtype)


@api('narrow', 'input dim start length')
def _narrow(w, a):
    t = a.t('input')
    k, s, n = w.axis(a.py('dim'), len(t.shape)), a.py('start'), a.py('length')
    if s < 0:
        s += t.shape[k]
    if s < 0 or n < 0 or s + n > t.shape[k]:
        raise Unreachable()
    return w.take(t, k, list(range(s, s + n)))


@api('flip', 'input *dims')
def _flip(w, a):
    t = a.t('input')
    for x in a.ints('dims'):
        k = w.axis(x, len(t.shape))
        t = w.take(t, k, list(range(t.shape[k]))[::-1])
    return w.new(t.data(), t.shape, t.dtype)


@api('topk', 'input k dim largest sorted')
def _topk(w, a):
    E = w.E
    t = a.t('input')
    n, k = a.py('k'), w.axis(a.py('dim', -1), len(t.shape))
    if not isinstance(n, int) or not 0 <= n <= t.shape[k]:
        raise Unreachable() if isinstance(n, int) else Undecided()
    lg = int(bool(a.py('largest', True)))
    vs, ix = [], []
    for j in range(n):
        vs.append(w.reduce(t, [k], True, lambda xs: E.f(f'pick v {lg} {j}', *xs)))
        ix.append(w.reduce(t, [k], True, lambda xs: E.f(f'pick i {lg} {j}', *xs)))
    if not n:
        raise Undecided()
    return w.cat([w.new(d, sh, t.dtype) for d, sh in vs], k), w.cat([w.new(d, sh, 'int64') for d, sh in ix], k)


@api('copy_', 'input src')
def _copy(w, a):
    w.into(a.t('input'), a.t('src'))
    return a.v['input']


@api('fill_', 'input value')
def _fill(w, a):
    w.into(a.t('input'), a.t('value'))
    return a.v['input']


@api('zero_', 'input')
def _zero(w, a):
    w.into(a.t('input'), w.ten(V(c(0))))
    return a.v['input']


@api('addcmul', 'input tensor1 tensor2 value')
def _addcmul(w, a):
    y = w.binary('mul', a.t('tensor1'), a.t('tensor2'))
    if a.has('value'):
        y = w.binary('mul', y, a.t('value'))
    return w.binary('add', a.t('input'), y)


@api('scaled_dot_product_attention', 'query key value attn_mask dropout_p is_causal scale enable_gqa')
def _sdpa(w, a):
    E = w.E
    q, k, v = a.t('query'), a.t('key'), a.t('value')
    if a.py('dropout_p', 0) or a.py('enable_gqa', False):
        raise Undecided()
    kt = Ten(k.st, w.permuted(k, list(range(len(k.shape) - 2)) + [len(k.shape) - 1, len(k.shape) - 2]), k.shape[:-2] + [k.shape[-1], k.shape[-2]], k.dtype)
    s = a.py('scale', None)
    r = w.matmul(q, kt)
    r = w.new([E.mul(e, q=1 / math.sqrt(q.shape[-1]) if s is None else s) for e in r.data()], r.shape, r.dtype)
    if a.py('is_causal', False):
        m, n = r.shape[-2:]
        r = w.new([e if i % n <= i // n % m else E.num(-math.inf) for i, e in enumerate(r.data())], r.shape, r.dtype)
    if a.has('attn_mask'):
        mk = a.t('attn_mask')
        r = w.binary('add', r, mk) if mk.dtype != 'bool' else w.zipped(lambda p, x: E.f('where', p, x, E.num(-math.inf)), [mk, r], r.dtype)
    return w.matmul(w.softmax(r, len(r.shape) - 1), v)


def call(w, I, name, args, kw, st, node, recv=None):
    """the library function or method; NotImplemented when it is not one this world knows"""
    from .absint import Obj
    w.I, w.Obj, w.node = I, Obj, node
    inplace = False
    if name not in API and name.endswith('_') and name[:-1] in API and recv is not None:
        inplace, name = True, name[:-1]
    if name not in API:
        w.unknown.append(name)
        return V(('call', 'torch', (recv or T.NONE,), ()))
    params, f = API[name]
    if params and params[0] in ('input', 'query') and 'self' in kw:
        w.unknown.append(name)
        return V(('call', 'torch', (recv or T.NONE,), ()))
    try:
        a = Args(w, st, params, ([V(recv)] if recv is not None else []) + list(args), kw)
        r = f(w, a)
        if isinstance(r, frozenset):
            return r
        if isinstance(r, tuple):
            return V(tup(*[w.put(st, t) for t in r]))
        if inplace:
            return V(w.inplace(recv, w.of(recv), r))
        if a.has('inplace') and a.py('inplace'):
            raise Undecided()
        return w.result(r, kw, st)
    except (Undecided, KeyError, TypeError, IndexError, ValueError, OverflowError, AttributeError):
        w.unknown.append(name)
        return V(('call', 'torch', (recv or T.NONE,), ()))


NPFUN = {'prod': lambda x: numel(x)}


def summaries(w):
    def method(I, b, name, args, kw, st, fr, node):
        if w.of(b) is None:
            if b[0] == 'param' and b[1].startswith('elem#'):
                w.unknown.append(name)
            return NotImplemented
        return call(w, I, name, args, kw, st, node, recv=b)

    def function(I, path, args, kw, st, fr, node):
        if path.startswith('torch.nn.functional.') or path.startswith('torch.') and path.count('.') == 1 or path.startswith('torch.special.') or path.startswith('torch.Tensor.'):
            n = path.rsplit('.', 1)[1]
            if n == 'Size':
                return V(tup(*[c(d) for d in w.ints(args, st)]))
            if n == 'no_grad' or n == 'inference_mode':
                return NotImplemented
            return call(w, I, n, args, kw, st, node)
        if path in ('numpy.prod', 'math.prod') and len(args) == 1:
            try:
                return V(c(numel(w.ints(args, st))))
            except (Undecided, Unreachable):
                return NotImplemented
        if path in ('math.sqrt', 'numpy.sqrt') and len(args) == 1:
            try:
                x = w.py(args[0], st)
                if isinstance(x, (int, float)) and x >= 0:
                    return V(c(math.sqrt(x)))
            except Undecided:
                pass
        return NotImplemented

    def slice_(I, name, args, kw, st, fr, node):
        xs = [one(a) for a in args]
        if any(x is None for x in xs) or kw or not 1 <= len(xs) <= 3:
            return NotImplemented
        lo, hi, step = {1: (T.NONE, xs[0], T.NONE), 2: (xs[0], xs[1], T.NONE) if len(xs) > 1 else None, 3: tuple(xs) if len(xs) > 2 else None}[len(xs)]
        return V(('slice', lo, hi, step))

    def number(I, name, args, kw, st, fr, node):
        if len(args) != 1:
            return NotImplemented
        a = one(args[0])
        if a is None:
            return NotImplemented
        if w.of(a) is not None:
            r = call(w, I, 'item', [], {}, st, node, recv=a)
            a = one(r)
        if a[0] == 'const' and (isinstance(a[2], (int, float)) or isinstance(a[2], str) and name == 'float'):
            try:
                return V(c({'int': int, 'float': float, 'bool': bool}[name](a[2])))
            except (ValueError, OverflowError):
                raise Unreachable()
        return NotImplemented if w.of(one(args[0])) is None else V(a)

    def length(I, name, args, kw, st, fr, node):
        t = w.of(one(args[0])) if len(args) == 1 else None
        if t is None:
            return NotImplemented
        if not t.shape:
            raise Unreachable()
        return V(c(t.shape[0]))

    return {'.*': method, 'ext:*': function, 'builtin:slice': slice_, 'builtin:int': number, 'builtin:float': number, 'builtin:bool': number, 'builtin:len': length}

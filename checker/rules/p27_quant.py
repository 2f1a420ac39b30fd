"""P27: quantized weights keep the scheme they were asked for."""
import ast
import itertools
import math
from fractions import Fraction

from .. import graphsem as gs, probe, terms as T
from ..absint import V, Obj
from ..probe import P, c, plain

TITLE = 'Quantized weights keep the scheme they were asked for'
TECHNIQUE = ('abstract interpretation of the quantizer on small weight matrices with symbolic elements: the derived formula of every code, scale and zero point is evaluated for '
             'sampled magnitudes and compared with the specification of the scheme; abstract interpretation of the graph rewrite over an enumeration of weight uses')
EXPLANATION = ('For every scheme, bit width and block size the formulas of all codes, scales and zero points are derived from the source and judged: code range, reconstruction '
               'error, resolution, own block. Packing is derived for all code pairs. The rewrite is judged on operands, initializers and links.')
LEVEL = 'bounded'
MOD = 'onnx_tool.quantization'
EPS = Fraction(1, 10 ** 6)


BITS = {'bitand': 0, '&': 0, 'bitwise_and': 0, 'and_': 0, 'bitor': 1, '|': 1, 'bitwise_or': 1, 'or_': 1, 'bitxor': 2, '^': 2, 'bitwise_xor': 2, 'xor': 2, '<<': 3, 'lshift': 3, 'left_shift': 3,
        '>>': 4, 'rshift': 4, 'right_shift': 4}
BITFN = (lambda a, b: a & b, lambda a, b: a | b, lambda a, b: a ^ b, lambda a, b: a << b, lambda a, b: a >> b)
BYTES = {'c_uint8': (8, 0), 'c_ubyte': (8, 0), 'uint8': (8, 0), 'c_int8': (8, 1), 'c_byte': (8, 1), 'int8': (8, 1)}
SAME = ('asint', 'asfloat', 'array', 'asarray', 'float32', 'float64', 'int32', 'int64', 'float', 'copy', 'item', 'value')


def wrap(x, bits, signed):
    if x != int(x):
        return None
    x = int(x) & (1 << bits) - 1
    return x - (1 << bits) if signed and x >> bits - 1 else x


def number(t, leaf):
    """exact value of a derived formula; None when it is not one"""
    v = leaf(t)
    if v is not None:
        return v
    k = t[0]
    if k == 'const':
        return Fraction(t[2]) if isinstance(t[2], (int, float)) and t[2] == t[2] and abs(t[2]) != math.inf else None
    if k == 'attr' and t[2] == 'value':
        return number(t[1], leaf)
    if k == 'poly':
        s = Fraction(0)
        for mono, q in t[1]:
            x = Fraction(q)
            for a, e in mono:
                y = number(a, leaf)
                if y is None or (y == 0 and e < 0):
                    return None
                x *= Fraction(y) ** e
            s += x
        return s
    if k == 'cmp':
        a, b = number(t[2], leaf), number(t[3], leaf)
        if a is None or b is None:
            return None
        return {'<': a < b, '<=': a <= b, '==': a == b, '!=': a != b, '>': a > b, '>=': a >= b}.get(t[1])
    if k != 'call' or not t[2]:
        return None
    n = t[1].rsplit('.', 1)[-1]
    xs = [number(a, leaf) for a in t[2]]
    if any(x is None for x in xs):
        return None
    try:
        if n in ('pyround', 'round', 'rint', 'around', 'round_') and len(xs) == 1:
            return round(Fraction(xs[0]))
        if n == 'clip' and len(xs) == 3:
            return min(max(xs[0], xs[1]), xs[2])
        if n in ('pymax', 'max', 'maximum', 'amax', 'fmax'):
            return max(xs)
        if n in ('pymin', 'min', 'minimum', 'amin', 'fmin'):
            return min(xs)
        if n in BITS and len(xs) == 2 and all(x == int(x) for x in xs):
            return BITFN[BITS[n]](int(xs[0]), int(xs[1]))
        if n in BYTES and len(xs) == 1:
            return wrap(xs[0], *BYTES[n])
        if n in SAME and len(xs) == 1:
            return xs[0]
        if n in ('abs', 'fabs', 'absolute') and len(xs) == 1:
            return abs(xs[0])
        if n in ('int', 'trunc') and len(xs) == 1:
            return math.trunc(xs[0])
        if n in ('floor', 'ceil') and len(xs) == 1:
            return getattr(math, n)(xs[0])
        if n in ('truediv', 'div', 'divide', 'true_divide') and len(xs) == 2:
            return Fraction(xs[0]) / Fraction(xs[1])
        if n in ('floordiv', 'floor_divide') and len(xs) == 2:
            return xs[0] // xs[1]
        if n in ('mod', 'remainder') and len(xs) == 2:
            return xs[0] % xs[1]
        if n in ('power', 'pow') and len(xs) == 2 and xs[1] == int(xs[1]):
            return Fraction(xs[0]) ** int(xs[1])
        if n == 'sign' and len(xs) == 1:
            return (xs[0] > 0) - (xs[0] < 0)
        if n == 'where' and len(xs) == 3:
            return xs[1] if xs[0] else xs[2]
    except (ZeroDivisionError, TypeError, ValueError):
        return None
    return None


def summaries():
    def arrlit(I, path, a, kw, st, fr, node):
        if len(a) >= 1 and len(a[0]) == 1:
            x = next(iter(a[0]))
            if x[0] == 'ref':
                return V(x)
            st.over[(x, 'shape')] = V(('tuple', ()))
            st.over[(x, 'ndim')] = V(c(0))
            st.over[(x, 'size')] = V(c(1))
            return V(x)
        return None

    def nested(I, st, node, dims, v):
        if not dims:
            return V(v)
        return V(I.new_ref(st, Obj('list', [nested(I, st, node, dims[1:], v) for _ in range(dims[0])], node=node), node))

    fresh = itertools.count()

    def new(I, st, node, dims, v):
        # distinct objects for every row
        def mk(d):
            if not d:
                return V(v)
            o = Obj('list', [mk(d[1:]) for _ in range(d[0])], node=node)
            loc = ('given', 'q', next(fresh), 'list')
            st.heap[loc] = o
            return V(('ref', loc))
        return mk(dims)

    def like(v):
        def h(I, path, a, kw, st, fr, node):
            if len(a[0]) != 1:
                return None
            x = next(iter(a[0]))
            sh = I.nd_shape(x, st) if x[0] == 'ref' else []
            return new(I, st, node, sh, v) if sh is not None else None
        return h

    def filled(v):
        def h(I, path, a, kw, st, fr, node):
            k = I.known_items(a[0], st)
            if k is None or any(len(x) != 1 for x in k):
                return None
            d = [next(iter(x)) for x in k]
            if any(x[0] != 'const' or not isinstance(x[2], int) for x in d):
                return None
            return new(I, st, node, [x[2] for x in d], v)
        return h

    def ndindex(I, path, a, kw, st, fr, node):
        k = a
        if len(a) == 1:
            kk = I.known_items(a[0], st)
            k = kk if kk is not None else a
        d = [next(iter(x)) if len(x) == 1 else None for x in k]
        if any(x is None or x[0] != 'const' or not isinstance(x[2], int) for x in d):
            return None
        return V(I.new_ref(st, Obj('list', [V(('tuple', tuple(c(y) for y in t))) for t in itertools.product(*[range(x[2]) for x in d])], node=node), node))

    def leaves(I, a, st):
        if a[0] == 'ref':
            o = st.heap.get(a[1])
            if o is None or o.items is None or o.elem:
                return None
            out = []
            for x in o.items:
                if len(x) != 1:
                    return None
                y = leaves(I, next(iter(x)), st)
                if y is None:
                    return None
                out += y
            return out
        return [a]

    def red(name):
        def h(I, a, args, kw, st, fr, node):
            ax = kw.get('axis', args[0] if args else V(T.NONE))
            if len(args) > 1 or any(k not in ('keepdims', 'axis') for k in kw) or len(ax) != 1:
                return NotImplemented
            ax = next(iter(ax))
            one = lambda l: V(P('beyond') if not l else l[0] if len(l) == 1 else ('call', name, tuple(l), ()))
            if ax == T.NONE:
                l = leaves(I, a, st)
                return one(l) if l is not None else NotImplemented
            sh = I.nd_shape(a, st)
            if sh is None or kw.get('keepdims', V(c(False))) != V(c(False)) or ax[0] != 'const' or len(sh) > 2 or not all(sh):
                return NotImplemented
            rows = [leaves(I, next(iter(x)), st) if next(iter(x))[0] == 'ref' else [next(iter(x))] for x in st.heap[a[1]].items]
            if len(sh) == 1:
                return one([x for r in rows for x in r])
            return V(I.new_ref(st, Obj('list', [one(list(r)) for r in (rows if ax[2] in (1, -1) else zip(*rows))], node=node), node))
        return h
    return {'ext:numpy.array': arrlit, 'ext:numpy.asarray': arrlit, 'ext:numpy.zeros_like': like(c(0)), 'ext:numpy.ones_like': like(c(1)), 'ext:numpy.empty_like': like(P('stale')),
            'ext:numpy.zeros': filled(c(0)), 'ext:numpy.ones': filled(c(1)), 'ext:numpy.empty': filled(P('stale')), 'ext:numpy.ndindex': ndindex, '[].min': red('min'), '[].max': red('max'),
            '[].astype': lambda I, a, args, kw, st, fr, node: V(a), '[].copy': lambda I, a, args, kw, st, fr, node: V(a)}


# at most 12 elements, so that loops over them are followed one by one
MATS = {
    'large and small rows': [[8, -4, 2, 1, -16], [0.03125, 0.015625, -0.03125, 0, 0.0078125]],
    'small blocks': [[-0.5, 0.25, 4, 6.5, 0.0625], [100, -100, -1, 0.75, -7]],
    'positive': [[1, 2, 3, 4, 5], [0.5, 0.25, 6, 7, 8]],
    'negative': [[-1, -2, -3, -4, -5], [-3, -3, -3, -3, -3]],
    'balanced': [[-1, 1, 0.5, -0.5, 0.25], [-4, 4, 4, -4, 1]],
    'zero rows': [[0, 0, 0, 0, 0], [1, -1, 0, 0, 2]],
}


def flat(v):
    return [y for x in v for y in flat(x)] if isinstance(v, list) else [v]


def check_values(ctx, p):
    ctx.rule('every code lies in the range of the bit width and signedness, is within half a step (a step when there is a zero point) of the value it stands for when restored with the '
             'scale and zero point of its own block, and no step is wider than the range of its block requires')
    fi = p.modules[MOD].bind.get('quantize')
    if fi is None:
        ctx.undecided('quantize not found', MOD)
        return
    ctx.seen(fi.where)
    pars = [a.arg for a in fi.node.args.args]
    done = 0
    lost = {}
    for scheme, bits, block, (mlab, mat) in itertools.product(('sym', 'asym'), (8, 4), (0, -1, 2, 4), MATS.items()):
        if lost.get((scheme, block), 0) > 2:
            continue
        lab = f'{scheme} {bits} bits, block {block}, {mlab} weights'
        vals = {P(f'w{i}{j}'): Fraction(x) for i, r in enumerate(mat) for j, x in enumerate(r)}
        leaf = lambda t: vals.get(t)
        lit = [[P(f'w{i}{j}') for j in range(len(r))] for i, r in enumerate(mat)]
        args = dict(zip(pars, [lit, c(block), c(scheme), c(bits)]))

        def hook(t, st):
            x = number(t, leaf) if t[0] in ('cmp', 'poly', 'call', 'param') else None
            return None if x is None else bool(x)
        try:
            r = gs.run(None, fi, args, seconds=20, ndlists=True, summaries=summaries(), truth_hook=hook)
        except gs.TooLong:
            lost[scheme, block] = lost.get((scheme, block), 0) + 2
            ctx.undecided(f'{lab}: not reduced', fi.where)
            continue
        key = f'quantize:{lab}'
        if r.state is None:
            ctx.fail(key, f'quantizing with {lab} fails', fi.where)
            continue
        res = probe.results(r)
        if len(res) != 1 or not isinstance(res[0], list) or len(res[0]) != 3:
            lost[scheme, block] = lost.get((scheme, block), 0) + 1
            ctx.undecided(f'{lab}: {str(res)[:120]}', fi.where)
            continue
        bad = next((x for t in flat(res[0]) if isinstance(t, tuple) for x in T.subterms(t) if x in (P('stale'), P('beyond'))), None)
        if bad:
            ctx.fail(key, f'quantizing with {lab} {"reads beyond the end of an array" if bad == P("beyond") else "leaves codes or scales unwritten"}', fi.where)
            continue
        nz = []

        def num(v):
            if isinstance(v, list):
                return [num(x) for x in v]
            t = v if isinstance(v, tuple) else c(v)
            x = number(t, leaf) if t[0] != 'const' else (Fraction(t[2]) if isinstance(t[2], (int, float)) else None)
            if x is None and divides_by_zero(t, leaf):
                nz.append(t)
            return x
        Q, S, Z = map(num, res[0])
        rows, cols = len(mat), len(mat[0])
        if nz:
            ctx.fail(key, f'quantizing with {lab} divides by zero: a block of zeros has no scale', fi.where)
            continue
        nb = {0: None, -1: 1}.get(block, -(-cols // block) if block > 0 else None)
        shp = lambda v: [len(v)] + shp(v[0]) if isinstance(v, list) and v else []
        if any(x is None for x in flat(Q) + flat(S) + flat(Z)):
            lost[scheme, block] = lost.get((scheme, block), 0) + 1
            ctx.undecided(f'{lab}: formulas not evaluated ' + str(next((t for t in flat(res[0]) if isinstance(t, tuple) and number(t, leaf) is None), ''))[:200], fi.where)
            continue
        want = [] if block == 0 else [rows] if block == -1 else [rows, nb]
        if shp(Q) != [rows, cols] or shp(S) != want or (shp(Z) != want and (scheme == 'asym' or shp(Z))):
            ctx.fail(key, f'quantizing with {lab}: codes, scales, zero points have shapes {shp(Q)}, {shp(S)}, {shp(Z)}, not {[rows, cols]}, {want}, {want}', fi.where)
            continue
        lo, hi = (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1) if scheme == 'sym' else (0, 2 ** bits - 1)
        msg = None
        for i, j in itertools.product(range(rows), range(cols)):
            at = (lambda v: v if block == 0 else v[i] if block == -1 else v[i][j // block])
            s = at(S)
            z = at(Z) if shp(Z) == want else Z
            q, w = Q[i][j], Fraction(mat[i][j])
            blk = [Fraction(x) for x in (flat(mat) if block == 0 else mat[i] if block == -1 else mat[i][j // block * block:j // block * block + block])]
            span = max(abs(x) for x in blk) if scheme == 'sym' else max(max(blk), 0) - min(min(blk), 0)
            steps = 2 ** (bits - 1) - 1 if scheme == 'sym' else 2 ** bits - 1
            if q != int(q) or not lo <= q <= hi:
                msg = f'the code of {mat[i][j]} is {show(q)}, outside {lo}..{hi}'
            elif z != int(z) or (scheme == 'sym' and z != 0) or not (scheme == 'sym' or lo <= z <= hi):
                msg = f'the zero point {show(z)} is not a code'
            elif s <= 0:
                msg = f'the scale of {mat[i][j]} is {show(s)}'
            elif abs((q - z) * s - w) > s * (Fraction(1, 2) if scheme == 'sym' else 1) + EPS:
                msg = f'{mat[i][j]} is stored as code {show(q)} with scale {show(s)} and zero point {show(z)}, which restores {show((q - z) * s)}'
            elif span and s * steps > span * (1 + EPS):
                msg = f'the scale of {mat[i][j]} is {show(s)}: its block spans {show(span)} in {steps} steps'
            if msg:
                break
        done += 1
        if msg:
            ctx.fail(key, f'quantizing with {lab}: {msg}', fi.where)
        else:
            ctx.ok(key)
    ctx.count('quantizations derived', done)


def show(x):
    return str(int(x)) if x == int(x) else f'{float(x):.5g}'


def divides_by_zero(t, leaf):
    for s in T.subterms(t):
        if s[0] == 'poly':
            for mono, q in s[1]:
                for a, e in mono:
                    if e < 0 and number(a, leaf) == 0:
                        return True
        if s[0] == 'call' and s[1] in ('truediv', 'div') and number(s[2][1], leaf) == 0:
            return True
    return False


def check_packing(ctx, p):
    ctx.rule('packing keeps both 4-bit codes of every pair, signed and unsigned, and keeps every element of a row')
    fi = p.modules[MOD].bind.get('pack_4bits')
    if fi is None:
        ctx.undecided('pack_4bits not found', MOD)
        return
    ctx.seen(fi.where)
    pars = [a.arg for a in fi.node.args.args]
    for cols in (2, 4, 3, 1):
        lit = [[P(f'q{i}{j}') for j in range(cols)] for i in range(2)]
        try:
            r = gs.run(None, fi, {pars[0]: lit}, seconds=20, ndlists=True, summaries=summaries())
        except gs.TooLong:
            ctx.undecided(f'pack_4bits, {cols} columns', fi.where)
            continue
        key = f'pack:{cols} columns'
        if r.state is None:
            ctx.fail(key, f'packing rows of {cols} codes fails', fi.where)
            continue
        res = probe.results(r)
        if len(res) != 1 or not isinstance(res[0], list) or not all(isinstance(x, list) for x in res[0]):
            ctx.undecided(f'pack_4bits, {cols} columns: {str(res)[:100]}', fi.where)
            continue
        out = res[0]
        if [len(x) for x in out] != [(cols + 1) // 2] * 2:
            ctx.fail(key, f'packing 2 rows of {cols} codes gives rows of {[len(x) for x in out]} bytes: {(cols + 1) // 2} are needed to hold every code', fi.where)
            continue
        bad = und = None
        for base in (0, -8):
            for a, b in itertools.product(range(base, base + 16), repeat=2):
                for i in range(2):
                    for j in range(cols):
                        env = {P(f'q{x}{y}'): 0 for x in range(2) for y in range(cols)}
                        env[P(f'q{i}{j}')] = a
                        if j ^ 1 < cols:
                            env[P(f'q{i}{j ^ 1}')] = b
                        t = out[i][j // 2]
                        v = number(t if isinstance(t, tuple) else c(t), env.get) if isinstance(t, tuple) else t
                        if v is None:
                            und = t
                        elif bad is None and (v != int(v) or not 0 <= v < 256 or (int(v) >> 4 * (j % 2)) & 15 != a & 15):
                            bad = f'code {a} at column {j} beside {b} is packed into {v}, whose {"high" if j % 2 else "low"} half is {(int(v) >> 4 * (j % 2)) & 15}'
                    if und or bad or (a % 5 and b % 3):
                        break
                if und or bad:
                    break
        if und:
            ctx.undecided(f'pack_4bits, {cols} columns: {T.show(und)[:120]}', fi.where)
        elif bad:
            ctx.fail(key, f'packing rows of {cols} codes: {bad}', fi.where)
        else:
            ctx.ok(key)


USES = [('one operator', {'n0': ['x', 'W', 'b']}), ('two operators', {'n0': ['x', 'W'], 'n1': ['y', 'W', 'c']}), ('three operators, one in first place', {'n0': ['x', 'W'], 'n1': ['W', 'y'], 'n2': ['z', 'W']}),
        ('one operator twice', {'n0': ['W', 'W'], 'n1': ['x', 'W']})]


class NonNull(set):
    def __contains__(self, t):
        return isinstance(t, tuple) and t[:1] == ('param',)


def rewrite(p, fi, uses, tname, scheme, bits, dtype='numpy.float32', rank=2, initial=True, gemm=None, suffix=None, seconds=20):
    g = P('g')
    calls = []
    cons = {}
    for n, ins in uses.items():
        for x in ins:
            cons.setdefault(x, []).append(n)
    names = sorted(cons)
    inits = [x for x in names if x in ('b', 'c') or x == tname and initial]
    over = [(g, 'initials', [c(x) for x in inits]), (g, 'nodemap', {c(n): P('node:' + n) for n in uses}), (g, 'tensormap', {c(x): P('tensor:' + x) for x in names}),
            (g, 'consumedby', {c(x): [c(n) for n in l] for x, l in cons.items()}), (g, 'producedby', {})]
    A = P('arr:' + tname)
    over += [(P('tensor:' + tname), 'numpy', A), (P('tensor:' + tname), 'name', c(tname)), (A, 'dtype', ('ext', dtype)), (A, 'shape', [c(6), c(4)][:rank] if rank < 3 else [c(6), c(4), c(2)]),
             (A, 'ndim', c(rank)), (A, 'T', P('arr:' + tname + '^T')), (P(A[1] + ' as numpy.float32'), 'T', P('arr:' + tname + '^T'))]
    for n, ins in uses.items():
        over += [(P('node:' + n), 'input', [c(x) for x in ins]), (P('node:' + n), 'name', c(n)), (P('node:' + n), 'op_type', c('Gemm' if gemm is not None else 'MatMul'))]
        if gemm is not None:
            over.append((P('node:' + n), 'transB', c(gemm)))

    def quant(I, f, a, kw, st, fr, node):
        d = dict(zip([x.arg for x in f.node.args.args], a))
        d.update(kw)
        for x, y in zip(reversed(f.node.args.args), reversed(f.node.args.defaults)):
            if x.arg not in d and isinstance(y, ast.Constant):
                d[x.arg] = V(c(y.value))
        calls.append({k: plain(next(iter(v)), st) if len(v) == 1 else None for k, v in d.items()})
        return V(('tuple', (P('Q'), P('S'), P('Z'))))

    def pack(I, f, a, kw, st, fr, node):
        v = plain(next(iter(a[0])), st) if len(a[0]) == 1 else None
        return V(P('packed ' + v[1])) if isinstance(v, tuple) and v[0] == 'param' else V(T.TOP)

    def astype(I, recv, a, kw, st, fr, node):
        t = plain(next(iter(a[0])), st) if a and len(a[0]) == 1 else None
        if recv[0] == 'param' and isinstance(t, tuple) and t[0] == 'ext':
            return V(P(f'{recv[1].split(" as ")[0]} as {t[1]}'))
        return V(T.TOP)

    def asarr(I, path, a, kw, st, fr, node):
        if len(a) + len(kw) > 2 or len(a[0]) != 1:
            return None
        d = kw.get('dtype', a[1] if len(a) > 1 else None)
        return astype(I, next(iter(a[0])), [d], {}, st, fr, node) if d is not None else a[0]

    def transpose(I, recv, a, kw, st, fr, node):
        return V(P(recv[1] + '^T')) if recv[0] == 'param' and not a and not kw else V(T.TOP)
    made = []

    def mk(I, f, a, kw, st, fr, node):
        made.append((plain(next(iter(a[0])), st), plain(next(iter(a[1])), st)))
        return V(P(f'tensor:{made[-1][0]}={made[-1][1][1] if isinstance(made[-1][1], tuple) else made[-1][1]}'))
    attrs = []

    def set_attr(I, recv, a, kw, st, fr, node):
        attrs.append((recv, tuple(plain(next(iter(x)), st) for x in a)))
        return V(T.NONE)
    graph, gemmc, base = p.cls('onnx_tool.graph', 'Graph'), p.cls('onnx_tool.node', 'GemmNode'), p.cls('onnx_tool.node', 'MatMulNode')

    def typer(t):
        if t == g:
            return graph
        if t[0] == 'param' and t[1].startswith('node:'):
            return gemmc if gemm is not None else base
        return None
    pars = [a.arg for a in fi.node.args.args]
    args = dict(zip(pars, [g, c(tname), P('block'), c(scheme), c(bits)]))

    def isnd(t, st):
        if t[:2] == ('call', 'isinstance') and t[2][0][:1] == ('param',):
            return any(x[0] == 'ext' and x[1] == 'numpy.ndarray' for x in t[2][1:]) and not t[2][0][1].startswith(('node', 'tensor', 'g'))
        return None
    r = gs.run(None, fi, args, over, seconds=seconds, typer=typer, nonnull=NonNull(), truth_hook=isnd, summaries={
        'quantize': quant, 'ext:numpy.asarray': asarr, 'ext:numpy.array': asarr, 'ext:numpy.ascontiguousarray': asarr, 'pack_4bits': pack, '.astype': astype, '.transpose': transpose, 'create_initial_Tensor': mk, '.set_attr': set_attr,
        'Node.set_attr': lambda I, f, a, kw, st, fr, node: set_attr(I, next(iter(a[0])), a[1:], kw, st, fr, node),
        'ext:warnings.warn': lambda I, path, a, kw, st, fr, node: V(T.NONE)})
    out = {'state': r.state, 'calls': calls, 'attrs': attrs}
    if r.state is not None:
        get = lambda a, n: plain(next(iter(r.state.over[(a, n)])), r.state) if len(r.state.over.get((a, n), ())) == 1 else None
        out.update({k: get(g, k) for k in ('initials', 'tensormap', 'consumedby')})
        out['inputs'] = {n: get(P('node:' + n), 'input') for n in uses}
    return out, inits, cons


def known(x):
    if isinstance(x, list):
        return all(known(y) for y in x)
    if isinstance(x, dict):
        return all(known(y) and known(k) for k, y in x.items())
    return not isinstance(x, tuple) or x[0] == 'param'


def check_rewrite(ctx, p):
    ctx.rule('quantizing a weight puts its codes, scale (and zero point exactly in the asymmetric scheme) in its place in every operator using it, registers them as initializers and '
             'links them, and removes the weight; everything else stays')
    fi = p.modules[MOD].bind.get('graph_quantize')
    if fi is None:
        ctx.undecided('graph_quantize not found', MOD)
        return
    ctx.seen(fi.where)
    for (ulab, uses), scheme, bits in itertools.product(USES, ('sym', 'asym'), (8, 4)):
        lab = f'a weight used by {ulab}, {scheme} {bits} bits'
        key = f'rewrite:{lab}'
        try:
            o, inits, cons = rewrite(p, fi, uses, 'W', scheme, bits)
        except gs.TooLong:
            ctx.undecided(lab, fi.where)
            continue
        if o['state'] is None:
            ctx.fail(key, f'quantizing {lab} fails', fi.where)
            continue
        if len(o['calls']) != 1 or any(not known(o[k]) or o[k] is None for k in ('initials', 'tensormap', 'consumedby', 'inputs')):
            ctx.undecided(f'{lab}: {[k for k in ("initials", "tensormap", "consumedby", "inputs") if o[k] is None or not known(o[k])]} {len(o["calls"])}', fi.where)
            continue
        new = ['W_ot_q', 'W_ot_s'] + (['W_ot_z'] if scheme == 'asym' else [])
        call = o['calls'][0]
        msg = None
        for k, v in (('block', P('block')), ('type', scheme), ('bits', bits)):
            if k in call and call[k] != v:
                msg = f'the quantizer is asked for {k}={call[k]}'
        for n, ins in uses.items():
            w = [y for x in ins for y in (new if x == 'W' else [x])]
            if o['inputs'][n] != w:
                msg = f'operator {n} reads {o["inputs"][n]}, not {w}'
        want = sorted([x for x in inits if x != 'W'] + new)
        if sorted(o['initials']) != want:
            msg = f'the initializers are {sorted(o["initials"])}, not {want}'
        tm = set(o['tensormap'])
        if tm != (set(cons) - {'W'}) | set(new):
            msg = f'the tensors are {sorted(tm)}'
        wc = {x: l for x, l in cons.items() if x != 'W'}
        wc.update({x: cons['W'] for x in new})
        if msg is None and {k: sorted(v) if isinstance(v, list) else v for k, v in o['consumedby'].items()} != {k: sorted(v) for k, v in wc.items()}:
            k = next(k for k in sorted(set(wc) | set(o['consumedby'])) if sorted(wc.get(k, ['-'])) != (sorted(o['consumedby'][k]) if isinstance(o['consumedby'].get(k), list) else o['consumedby'].get(k, ['-'])))
            msg = f'{k} is recorded as used by {o["consumedby"].get(k, "nothing")}, not {wc.get(k, "nothing")}'
        if msg is None:
            codes = {(8, 'sym'): 'Q as numpy.int8', (8, 'asym'): 'Q as numpy.uint8', (4, 'sym'): 'packed Q', (4, 'asym'): 'packed Q'}[(bits, scheme)]
            data = {k: v[1].split('=', 1)[1] if isinstance(v, tuple) and '=' in v[1] else None for k, v in o['tensormap'].items()}
            if data.get('W_ot_q') not in (codes, codes + ' as numpy.uint8' if bits == 4 else codes):
                msg = f'the codes are stored as {data.get("W_ot_q")}, not {codes}'
            elif (data.get('W_ot_s') or '').split(' ')[0] != 'S':
                msg = f'the scale is stored as {data.get("W_ot_s")}'
            elif scheme == 'asym' and (data.get('W_ot_z') or '').split(' ')[0] != 'Z' or scheme == 'asym' and data['W_ot_z'] not in ('Z', 'Z as numpy.uint8', 'Z as numpy.int32'):
                msg = f'the zero point is stored as {data.get("W_ot_z")}'
        if msg is None:
            for n, ins in uses.items():
                if 'W' in ins:
                    have = {a[0]: a[1] for r, a in o['attrs'] if r == P('node:' + n) and len(a) == 2}
                    for k, v in (('OTQ_Block', P('block')), ('OTQ_Type', scheme), ('OTQ_Bits', bits)):
                        if have.get(k) != v:
                            msg = f'operator {n} is told {k}={have.get(k, "nothing")}, not {v if not isinstance(v, tuple) else v[1]}'
        if msg:
            ctx.fail(key, f'quantizing {lab}: {msg}', fi.where)
        else:
            ctx.ok(key)
    ctx.rule('what is no floating-point weight matrix, and what is quantized already, is left alone')
    for lab, kw, tname in (('an activation', {'initial': False}, 'W'), ('an integer weight', {'dtype': 'numpy.int64'}, 'W'), ('a bias vector', {'rank': 1}, 'W'), ('a weight of rank 3', {'rank': 3}, 'W'),
                           ('codes', {}, 'v_ot_q'), ('a scale', {}, 'v_ot_s'), ('a zero point', {}, 'v_ot_z')):
        uses = {'n0': ['x', tname, 'b']}
        try:
            o, inits, cons = rewrite(p, fi, uses, tname, 'asym', 8, **kw)
        except gs.TooLong:
            ctx.undecided(lab, fi.where)
            continue
        key = f'skip:{lab}'
        if o['state'] is None:
            ctx.undecided(f'{lab}: refused by an exception', fi.where)
        elif any(o[k] is None or not known(o[k]) for k in ('initials', 'tensormap', 'consumedby', 'inputs')):
            ctx.undecided(f'{lab}', fi.where)
        elif o['calls'] or sorted(o['initials']) != sorted(inits) or o['inputs'] != uses or set(o['tensormap']) != set(cons) or o['attrs']:
            ctx.fail(key, f'{lab} is quantized or its graph changed: operator inputs {o["inputs"]["n0"]}, initializers {o["initials"]}', fi.where)
        else:
            ctx.ok(key)
    ctx.rule('the matrix is quantized with its output channels first: a Gemm weight that is not transposed by the operator is transposed before')
    for tb, want in ((0, 'arr:W^T'), (1, 'arr:W')):
        try:
            o, _, _ = rewrite(p, fi, {'n0': ['x', 'W']}, 'W', 'sym', 8, gemm=tb)
        except gs.TooLong:
            continue
        d = o['calls'][0].get('f32') if len(o['calls']) == 1 else None
        got = d[1].replace(' as numpy.float32', '') if isinstance(d, tuple) and d[0] == 'param' else None
        if got is None:
            ctx.undecided(f'Gemm with transB={tb}', fi.where)
        elif got != want:
            ctx.fail(f'layout:transB={tb}', f'the weight of a Gemm with transB={tb} is quantized as {got}, not {want}', fi.where)
        else:
            ctx.ok(f'layout:transB={tb}')


def check(ctx):
    p = gs.program()
    check_values(ctx, p)
    check_packing(ctx, p)
    check_rewrite(ctx, p)

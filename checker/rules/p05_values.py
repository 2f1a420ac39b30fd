"""P05: folded constants are the values the operator definition gives."""
import os

from .. import formula as F
from .. import arrayeval, model, numsem, sweep
from .. import terms as T
from ..opsem import tin, tout
from ..shapecheck import Case, execute
from ..terms import const

TITLE = 'Constant folding computes the operator\'s value'
TECHNIQUE = ('abstract interpretation of value_infer and of reference definitions into array-expression normal forms (global value numbering), compared term by term in pinned configurations')
EXPLANATION = ('every value_infer is abstractly interpreted in pinned attribute/rank/arity configurations; the array expression stored in each output is brought to a normal form and must be one of the '
               'normal forms obtained by the same interpretation from the reference definition of that operator (oracle/values.py, never executed). An expression built only from primitives the '
               'definitions of that operator use, but different from all of them, is a violation; an expression using other primitives is undecided unless it is a single well-known primitive of '
               'another operator. Every input given in a configuration must be read.')

HERE = os.path.join(os.path.dirname(__file__), '..', '..', 'oracle', 'values.py')

UNARY = ['Abs', 'Neg', 'Ceil', 'Floor', 'Round', 'Sign', 'Sqrt', 'Exp', 'Log', 'Sin', 'Cos', 'Atan', 'Tanh', 'Sigmoid', 'Softplus', 'Reciprocal', 'Relu', 'Relu6', 'Not', 'Identity', 'Erf', 'HardSwish']
BINARY = ['Add', 'Sub', 'Mul', 'Div', 'Pow', 'And', 'Or', 'Xor', 'Less', 'LessOrEqual', 'Greater', 'GreaterOrEqual', 'Equal', 'MatMul']


def SL(*parts):
    def one(p):
        if p is None:
            return ('slice', const(None), const(None), const(None))
        return ('slice',) + tuple(const(x) for x in p)
    return ('tuple', tuple(one(p) for p in parts))


NPD = {1: 'float32', 2: 'uint8', 3: 'int8', 4: 'uint16', 5: 'int16', 6: 'int32', 7: 'int64', 9: 'bool', 10: 'float16', 11: 'float64', 12: 'uint32', 13: 'uint64'}
ABSENT = ('missing',)


class VC:
    def __init__(self, op, ranks, attrs=None, ref=None, nread=None, loose=False, **kw):
        self.loose = loose
        self.case = Case(op, ranks, None, attrs=attrs, select=True, **kw)
        self.ref = ref or {}
        self.nread = nread


def cases():
    out = []

    def C(*a, **k):
        out.append(VC(*a, **k))
    for op in UNARY:
        for r in (1, 3):
            C(op, [r])
    C('Dropout', [2])
    C('Dropout', [2, None], shapes={1: []}, nread=1)
    C('Dropout', [2, None, None], shapes={1: [], 2: []}, nread=1)
    C('Elu', [2], ref={'alpha': 1.0})
    C('Elu', [2], {'alpha': 0.25})
    C('LeakyRelu', [2], ref={'alpha': 0.01})
    C('LeakyRelu', [2], {'alpha': 0.25})
    C('HardSigmoid', [2], ref={'alpha': 0.2, 'beta': 0.5})
    C('HardSigmoid', [2], {'alpha': 0.25, 'beta': 0.375})
    for ax in (0, 1, -1):
        C('Softmax', [2], {'axis': ax})
    C('Softmax', [2], ref={'axis': -1})
    for op in BINARY:
        C(op, [2, 2])
        C(op, [3, 3])
    C('Mod', [2, 2], ref={'fmod': 0})
    C('Mod', [2, 2], {'fmod': 0})
    C('Mod', [2, 2], {'fmod': 1})
    for op in ('Min', 'Max', 'Sum'):
        for n in (1, 2, 3, 4):
            C(op, [2] * n)
    C('Where', [2, 2, 2])
    for n in (1, 2, 3):
        C('Clip', [2, None, None][:n], shapes={i: [] for i in range(1, n)})
    C('Clip', [2, None, None], shapes={1: [], 2: []}, noname=(1,), nread=(0, 2))
    C('Clip', [2, None, None], shapes={1: [], 2: []}, noname=(2,), nread=(0, 1))
    for to, dt in ((1, 'float32'), (6, 'int32'), (7, 'int64'), (9, 'bool'), (2, 'uint8'), (3, 'int8'), (11, 'float64'), (10, 'float16'), (5, 'int16'), (4, 'uint16'), (12, 'uint32'), (13, 'uint64')):
        C('Cast', [2], {'to': to}, ref={'DT': ('ext', 'numpy.' + dt)})
    C('Transpose', [3], {'perm': [2, 0, 1]})
    C('Transpose', [3], ref={'perm': [2, 1, 0]})
    C('Transpose', [2], ref={'perm': [1, 0]})
    for n in (1, 2, 3):
        for ax in (0, 1, -1):
            C('Concat', [2] * n, {'axis': ax})
    for ax in (0, 1, -1):
        C('Gather', [2, 1], {'axis': ax})
        C('GatherElements', [2, 2], {'axis': ax})
        C('Compress', [2, 1], {'axis': ax})
        for kd in (0, 1):
            C('ArgMax', [3], {'axis': ax, 'keepdims': kd})
    C('ArgMax', [3], ref={'axis': 0, 'keepdims': 1})
    C('Gather', [2, 1], ref={'axis': 0})
    C('GatherElements', [2, 2], ref={'axis': 0})
    C('Compress', [2, 1], ref={'axis': None})
    C('Tile', [2, None], values={1: [2, 3]})
    C('Range', [None] * 3, shapes={0: [], 1: [], 2: []})
    C('Expand', [2, 1])
    C('CumSum', [3, None], values={1: 1}, shapes={1: []}, ref={'AXIS': 1})
    C('CumSum', [3, None], values={1: 0}, shapes={1: []}, ref={'AXIS': 0})
    C('CumSum', [3, None], {'exclusive': 0, 'reverse': 0}, values={1: [2]}, shapes={1: []}, ref={'AXIS': 2})
    C('NonZero', [2])
    C('GlobalAveragePool', [4])
    C('GlobalAveragePool', [3])
    C('BatchNormalization', [4, 1, 1, 1, 1], {'epsilon': 0.125})
    C('BatchNormalization', [4, 1, 1, 1, 1], ref={'epsilon': 1e-5})
    C('Constant', [], {'value': ('param', 'the value')})
    for up in (0, 1):
        C('Trilu', [2], {'upper': up})
        C('Trilu', [2, None], {'upper': up}, shapes={1: []})
    C('Trilu', [2], ref={'upper': 1})
    for ta in (0, 1):
        for tb in (0, 1):
            for n in (2, 3):
                C('Gemm', [2, 2, 2][:n], {'transA': ta, 'transB': tb}, ref={'alpha': 1.0, 'beta': 1.0})
                C('Gemm', [2, 2, 2][:n], {'transA': ta, 'transB': tb, 'alpha': 0.25, 'beta': 0.375})
    C('Gemm', [2, 2, 2], ref={'alpha': 1.0, 'beta': 1.0, 'transA': 0, 'transB': 0})
    for n in (2, 3, 4):
        C('MatMulInteger', [2, 2, None, None][:n], shapes={i: [] for i in range(2, n)})
    for op in ('ReduceSum', 'ReduceMean', 'ReduceMax', 'ReduceMin', 'ReduceProd', 'ReduceL2'):
        for kd in (0, 1):
            for ax in ([0], [1, 2], [-1]):
                C(op, [3], {'axes': ax, 'keepdims': kd}, ref={'AXES': ('tuple', tuple(const(x) for x in ax)), 'KEEP': bool(kd)})
                C(op, [3, None], {'keepdims': kd}, values={1: ax}, ref={'AXES': ('tuple', tuple(const(x) for x in ax)), 'KEEP': bool(kd)})
            C(op, [3], {'keepdims': kd}, ref={'AXES': None, 'KEEP': bool(kd)})
        C(op, [3], {'axes': [1]}, ref={'AXES': ('tuple', (const(1),)), 'KEEP': True})
        C(op, [3], ref={'AXES': None, 'KEEP': True})
    C('Squeeze', [None], {'axes': [1]}, shapes={0: ['a0', 1, 'a2']}, ref={'AXES': ('tuple', (const(1),))})
    C('Squeeze', [None, None], values={1: [1]}, shapes={0: ['a0', 1, 'a2']}, ref={'AXES': ('tuple', (const(1),))})
    C('Squeeze', [None], shapes={0: ['a0', 1, 'a2']}, ref={'AXES': None})
    for ax in ([0], [1], [0, 2]):
        C('Unsqueeze', [2], {'axes': ax}, ref={'AXES': ('tuple', tuple(const(x) for x in ax))})
        C('Unsqueeze', [2, None], values={1: ax}, ref={'AXES': ('tuple', tuple(const(x) for x in ax))})
    C('Reshape', [None, None], values={1: [4, 6]}, shapes={0: [2, 3, 4]}, ref={'SHAPE': [4, 6]})
    C('Reshape', [None, None], values={1: [0, -1]}, shapes={0: [2, 3, 4]}, ref={'SHAPE': [2, 12]})
    C('Reshape', [None, None], values={1: [-1, 0, 2]}, shapes={0: [2, 3, 4]}, ref={'SHAPE': [4, 3, 2]})
    C('Flatten', [None], {'axis': 1}, shapes={0: [2, 3, 4]}, ref={'SHAPE': [2, 12]})
    C('Flatten', [None], {'axis': 2}, shapes={0: [2, 3, 4]}, ref={'SHAPE': [6, 4]})
    C('Flatten', [None], {'axis': 0}, shapes={0: [2, 3, 4]}, ref={'SHAPE': [1, 24]})
    C('Flatten', [None], {'axis': -1}, shapes={0: [2, 3, 4]}, ref={'SHAPE': [6, 4]})
    C('Flatten', [None], shapes={0: [2, 3, 4]}, ref={'SHAPE': [2, 12]})
    C('Shape', [None], shapes={0: [2, 3, 4]}, ref={'SHAPE': [2, 3, 4]}, nread=0)
    C('Shape', [None], {'start': 1}, shapes={0: [2, 3, 4]}, ref={'SHAPE': [3, 4]}, nread=0)
    C('Shape', [None], {'start': 1, 'end': 2}, shapes={0: [2, 3, 4]}, ref={'SHAPE': [3]}, nread=0)
    C('Shape', [None], {'end': -1}, shapes={0: [2, 3, 4]}, ref={'SHAPE': [2, 3]}, nread=0)
    sl = {0: [8, 9, 7]}
    C('Slice', [None] * 5, values={1: [1], 2: [5], 3: [1], 4: [2]}, shapes=sl, ref={'INDEX': SL(None, (1, 5, 2), None)})
    C('Slice', [None] * 5, values={1: [0, 1], 2: [6, 7], 3: [0, 2], 4: [1, 1]}, shapes=sl, ref={'INDEX': SL((0, 6, 1), None, (1, 7, 1))})
    C('Slice', [None] * 4, values={1: [0, 1], 2: [6, 7], 3: [2, 0]}, shapes=sl, ref={'INDEX': SL((1, 7, 1), None, (0, 6, 1))})
    C('Slice', [None] * 3, values={1: [0, 1], 2: [6, 7]}, shapes=sl, ref={'INDEX': SL((0, 6, 1), (1, 7, 1), None)})
    C('Slice', [None], {'starts': [1], 'ends': [3], 'axes': [1]}, shapes=sl, ref={'INDEX': SL(None, (1, 3, 1), None)})
    C('Split', [None, None], {'axis': 1}, values={1: [2, 3, 4]}, shapes=sl, nout=3, ref={'POS': [2, 5]})
    C('Split', [None], {'axis': 1, 'split': [2, 3, 4]}, shapes=sl, nout=3, ref={'POS': [2, 5]})
    C('Split', [None], {'axis': 0}, shapes=sl, nout=2, ref={'POS': [4]})
    C('Split', [None], shapes=sl, nout=2, ref={'POS': [4], 'axis': 0})
    W = [('tuple', (const(1), const(3))), ('tuple', (const(2), const(4)))]
    C('Pad', [2], {'pads': [1, 2, 3, 4], 'value': 0.25}, ref={'WIDTH': W, 'FILL': 0.25})
    C('Pad', [2], {'pads': [1, 2, 3, 4]}, ref={'WIDTH': W, 'FILL': 0})
    C('Pad', [2, None], values={1: [1, 2, 3, 4]}, ref={'WIDTH': W, 'FILL': 0})
    C('Pad', [2, None, None], values={1: [1, 2, 3, 4]}, shapes={2: []}, ref={'WIDTH': W, 'FILL': ('attr', tin(2), 'numpy')})
    C('ConstantOfShape', [None], {'value': ('call', 'ndarray', (('list', (const(7),)),), ())}, values={0: [2, 3]})
    C('ConstantOfShape', [None], values={0: [2, 3]}, ref={'value': None})
    for r, ax in ((1, -1), (1, 0), (2, 1), (2, -3)):
        C('OneHot', [r, None, None], {'axis': ax}, values={1: 5}, shapes={1: [], 2: [2]}, ref={'axis': ax % (r + 1)})
    C('OneHot', [2, None, None], values={1: 5}, shapes={1: [], 2: [2]}, ref={'axis': 2})
    for b, sh in (None, ([3, 4], [2, 2])), (0, ([3, 4], [2, 1])), (None, ([3, 4], [2, 2, 1])), (1, ([2, 3, 4], [2, 1])), (1, ([2, 3, 4], [2, 2, 2])), (1, ([2, 3, 4], [2, 2, 1])), (2, ([2, 3, 4], [2, 3, 1])):
        C('GatherND', [None] * 2, {'batch_dims': b} if b is not None else {}, shapes=dict(enumerate(sh)), ref={'batch_dims': b or 0})
    for red in (None, b'none', b'add', b'mul', b'max', b'min'):
        for sh in ([4, 6], [3, 2], [3]), ([4, 6], [3, 1], [3, 6]), ([4, 3, 2], [2, 2, 2], [2, 2, 2]):
            C('ScatterND', [None] * 3, {'reduction': red} if red else {}, shapes=dict(enumerate(sh)), ref={'reduction': red or b'none'})
    C('QLinearMatMul', [2, 0, 0, 2, 0, 0, 0, 0])
    C('ConvInteger', [4, 4])
    C('ConvInteger', [4, 4, 0])
    C('ConvInteger', [4, 4, 0, 1])
    C('QLinearConv', [4, 0, 0, 4, 0, 0, 0, 0])
    C('QLinearConv', [4, 0, 0, 4, 0, 0, 0, 0, 1])
    w = {'strides': [2, 3], 'dilations': [5, 7], 'pads': [1, 4, 6, 8], 'group': 1}
    C('Conv', [4, 4, 1], w, loose=True)
    w1 = {'strides': [1, 1], 'dilations': [1, 1], 'pads': [0, 0, 0, 0], 'group': 1}
    C('Conv', [4, 4, 1], ref=w1, loose=True)
    return out


CONFUSABLE = {'absolute', 'ceil', 'floor', 'round', 'sign', 'sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'arctan', 'arcsin', 'arccos', 'tanh', 'sinh', 'cosh', 'arcsinh', 'arccosh', 'arctanh', 'logical_and', 'logical_or',
              'logical_xor', 'logical_not', 'invert', 'minimum', 'maximum', 'pymin', 'pymax', 'mod', 'fmod', 'floordiv', 'pow', 'power', 'sum', 'mean', 'prod', 'max', 'min', 'argmax', 'argmin', 'tril', 'triu', 'trunc', 'log2',
              'log10', 'exp2', 'cmp', 'poly', 'fix', 'cbrt', 'square', 'erf', 'erfc', 'logical', 'median', 'std', 'var', 'bitwise_and', 'bitwise_or', 'bitwise_xor', 'squeeze', 'expand_dims', 'cumsum', 'cumprod', 'where',
              'clip', 'matmul', 'dot', 'zeros_like', 'ones_like', 'stored', 'cmp<', 'cmp<=', 'cmp==', 'cmp!=', 'swapaxes', 'transpose', 'idx'}

_ref = {}


def references():
    if 'm' not in _ref:
        s = sweep.sem()
        _ref['m'] = model.Module(s.p, 'oracle.values', os.path.realpath(HERE), 'oracle')
        _ref['c'] = {c.name: c for c in _ref['m'].all_classes}
    return _ref['c']


# ------------------------------------------------------------------ normal form refinements used only for the comparison
def norm(t, r, memo=None):
    """rank-aware clean-up: shapes of inputs, axis numbers, tuples/lists/arrays of numbers"""
    memo = {} if memo is None else memo

    def shape_of(x):
        if x[0] == 'attr' and x[2] == 'numpy' and x[1] in (r.ins or ()):
            v = r.before.get((x[1], 'shape'))
            if v is not None and len(v) == 1:
                items = r.I.known_items(v, r.state)
                if items is not None and all(len(i) == 1 for i in items):
                    return ('list', tuple(next(iter(i)) for i in items))
            return ('attr', x[1], 'shape')
        if x[0] == 'call' and x[1] in ('zeros_like', 'ones_like', 'empty_like', 'copy') and x[2]:
            return shape_of(x[2][0])
        if x[0] == 'call' and x[1] == 'stored':
            return shape_of(x[2][0])
        if x[0] == 'call' and x[1] == 'arange' and len(x[2]) == 1:
            n = go(x[2][0])
            return ('list', (n,)) if T.is_num(n) else None
        return None

    def rank_of(x):
        s = shape_of(x)
        if s is not None and s[0] == 'list':
            return len(s[1])
        if x[0] == 'poly' or (x[0] == 'call' and x[1] in ('exp', 'absolute', 'sqrt', 'maximum', 'minimum')):
            ks = [rank_of(c) for c in T.children(x)]
            ks = [k for k in ks if k is not None]
            return max(ks) if ks else None
        return None

    def seqnorm(x):
        while x[0] == 'call' and x[1] in ('ndarray', 'list', 'tuple', 'array', 'asarray', 'tolist', 'int') and len(x[2]) == 1 and not x[3]:
            x = x[2][0]
        if x[0] in ('list', 'tuple'):
            return ('tuple', tuple(seqnorm(i) for i in x[1]))
        if x[0] == 'concat':
            a, b = seqnorm(x[1]), seqnorm(x[2])
            if a[0] == 'tuple' and b[0] == 'tuple':
                return ('tuple', a[1] + b[1])
        return x

    def resolve(dims, shape):
        if const(-1) in dims and shape is not None and shape[0] == 'list' and all(T.is_num(x) for x in shape[1] + dims):
            tot = known = 1
            for x in shape[1]:
                tot *= x[2]
            for x in dims:
                known *= x[2] if x[2] != -1 else 1
            if known > 0 and tot % known == 0:
                return tuple(const(tot // known) if x == const(-1) else x for x in dims)
        return dims

    def go(t):
        k = id(t)
        if k in memo:
            return memo[k][1]
        o = t
        t = step(t)
        memo[k] = (o, t)
        return t

    def step(t):
        t = numsem.strip_copy(t)
        if t[0] == 'cmp':
            a, b = go(t[2]), go(t[3])
            if t[1] in ('==', '!='):
                a, b = sorted((a, b), key=repr)
            return ('cmp', t[1], a, b)
        if t[0] == 'attr':
            if t[2] == 'shape':
                s = shape_of(t[1]) or (shape_of(T.attr(t[1], 'numpy')) if t[1] in (r.ins or ()) else None)
                if s is not None:
                    return s
            return ('attr', go(t[1]), t[2])
        if t[0] == 'call':
            args = tuple(go(x) for x in t[2])
            kw = {n: go(v) for n, v in t[3]}
            name = t[1]
            if name in ('item', 'int') and len(args) == 1 and not kw and args[0][0] == 'const' and isinstance(args[0][2], int):
                return args[0]
            if name in ('asarray', 'array', 'astype') and len(args) == 1 and args[0][0] == 'cmp' and kw.get('dtype') in (('ext', 'numpy.bool_'), ('builtin', 'bool')):
                return args[0]
            if name == 'ndindex' and not kw and args and (len(args) > 1 or T.is_num(args[0])):
                return ('call', 'ndindex', (('tuple', args),), ())
            if name == 'ndarray':
                return seqnorm(('call', name, args, ()))
            if name in ('list', 'tuple', 'tolist') and len(args) == 1 and not kw and args[0][0] in ('list', 'tuple'):
                return ('tuple', args[0][1])
            if name == 'zip' and len(args) == 2 and all(a[0] in ('list', 'tuple') for a in args):
                return ('tuple', tuple(('tuple', p) for p in zip(args[0][1], args[1][1])))
            if name == 'stored':
                pairs = tuple(sorted((x for x in args[1:] if x != ABSENT), key=repr))
                return ('call', 'stored', args[:1] + pairs, ())
            if name == 'npdtype' and len(args) == 1 and T.is_num(args[0]) and args[0][2] in NPD:
                return ('ext', 'numpy.' + NPD[args[0][2]])
            if name == 'slice' and not kw and 1 <= len(args) <= 3:
                a3 = (T.NONE,) + args if len(args) == 1 else args
                return ('slice',) + a3 + (T.NONE,) * (3 - len(a3))
            rk = rank_of(args[0]) if args else None
            if name == 'range' and len(args) == 2 and all(T.is_num(a) for a in args):
                return ('tuple', tuple(const(i) for i in range(args[0][2], args[1][2])))
            if 'axis' in kw:
                ax = seqnorm(kw['axis'])
                if ax[0] == 'tuple':
                    nums = [x[2] if T.is_num(x) else None for x in ax[1]]
                    if name in ('sum', 'mean', 'prod', 'max', 'min', 'any', 'all', 'squeeze') and rk is not None and None not in nums:
                        nums = sorted(n + rk if n < 0 else n for n in nums)
                        if name != 'squeeze' and nums == list(range(rk)):
                            ax = T.NONE
                        elif len(nums) == 1:
                            ax = const(nums[0])
                        else:
                            ax = ('tuple', tuple(const(n) for n in nums))
                    elif None not in nums and len(nums) == 1:
                        ax = const(nums[0])
                elif T.is_num(ax) and ax[2] < 0 and rk is not None and name not in ('expand_dims', 'stack'):
                    ax = const(ax[2] + rk)
                if ax == T.NONE and name in ('sum', 'mean', 'prod', 'max', 'min', 'any', 'all', 'squeeze'):
                    kw.pop('axis')
                elif ax == const(0) and name in ('concatenate', 'split'):
                    kw.pop('axis')
                else:
                    kw['axis'] = ax
            if 'keepdims' in kw:
                if kw['keepdims'] in (const(0), T.FALSE):
                    kw.pop('keepdims')
                elif kw['keepdims'] in (const(1), T.TRUE):
                    kw['keepdims'] = T.TRUE
            for n in ('axes', 'pad_width', 'reps', 'indices_or_sections', 'shape'):
                if n in kw:
                    kw[n] = seqnorm(kw[n])
            if name == 'reshape' and 'shape' in kw and kw['shape'][0] == 'tuple':
                kw['shape'] = ('tuple', resolve(kw['shape'][1], shape_of(args[0])))
            if name == 'transpose' and 'axes' in kw and kw['axes'][0] == 'tuple' and all(T.is_num(x) for x in kw['axes'][1]) and [x[2] for x in kw['axes'][1]] == list(range(len(kw['axes'][1])))[::-1]:
                kw.pop('axes')
            if name == 'swapaxes' and rk == 2:
                return ('call', 'transpose', (args[0],), ())
            if name == 'astype' and args and args[0][0] == 'attr' and args[0][2] == 'numpy' and kw.get('dtype') in (('attr', args[0], 'dtype'), ('attr', args[0][1], 'dtype')):
                return args[0]
            if name == 'pad':
                if kw.get('constant_values') in (const(0), const(0.0)):
                    kw.pop('constant_values')
                if kw.get('mode') == const('constant'):
                    kw.pop('mode')
            if name == 'dot' and len(args) == 2 and not kw and all(rank_of(a) in (1, 2) for a in args):
                name = 'matmul'
            return ('call', name, args, tuple(sorted(kw.items())))
        if t[0] == 'poly':
            acc = const(0)
            for m, c in t[1]:
                x = const(c)
                for b, p in m:
                    b = go(b)
                    if isinstance(p, int) and 0 < p <= 3:
                        for _ in range(p):
                            x = T.mul(x, b)
                    else:
                        x = T.mul(x, T.from_poly({((b, p),): 1}))
                acc = T.add(acc, x)
            return acc
        if t[0] in ('list', 'tuple'):
            return ('tuple', tuple(go(x) for x in t[1]))
        if t[0] in ('idx', 'each', 'concat', 'map'):
            return (t[0],) + tuple(go(x) if isinstance(x, tuple) else x for x in t[1:])
        return t
    return go(t)


def strip_cast(t, r):
    """drop a final conversion to the element type of an input (checked by P03)"""
    t = numsem.strip_copy(t)
    while t[0] == 'call' and t[1] == 'astype' and len(t[2]) == 1:
        d = dict(t[3]).get('dtype')
        if d is not None and d[0] == 'attr' and d[2] == 'dtype':
            b = d[1]
            if b[0] == 'attr' and b[2] == 'numpy':
                b = b[1]
            if b in (r.ins or ()):
                t = numsem.strip_copy(t[2][0])
                continue
        break
    return t


def prims(t, acc=None):
    acc = set() if acc is None else acc
    for s in T.subterms(t):
        if s[0] == 'call':
            acc.add(s[1])
        elif s[0] == 'cmp':
            acc.add('cmp' + s[1])
        elif s[0] in ('idx', 'poly'):
            acc.add(s[0])
    return acc


OPEN = ('top', 'ref', 'lv', 'inst', 'closure')


def decided(t):
    return not any(s[0] in OPEN or (s[0] == 'call' and s[1] in ('anyindex',)) for s in T.subterms(t))


def rename(t):
    """loop counters by number of loop dimensions instead of extents"""
    memo = {}

    def go(x):
        if id(x) in memo:
            return memo[id(x)][1]
        k = x
        if x[0] == 'each' and x[1][0] == 'call' and x[1][1] == 'ndindex':
            a = x[1][2]
            n = len(a[0][1]) if len(a) == 1 and a[0][0] in ('list', 'tuple') else len(a)
            x = ('param', f'counter of {n} loops')
        elif x[0] == 'poly':
            x = ('poly', tuple(sorted(((tuple(sorted(((go(b), p) for b, p in m), key=repr)), c) for m, c in x[1]), key=repr)))
        elif x[0] == 'call':
            x = ('call', x[1], tuple(go(y) for y in x[2]), tuple((n, go(y)) for n, y in x[3]))
        elif x[0] in ('list', 'tuple'):
            x = (x[0], tuple(go(y) for y in x[1]))
        elif x[0] in ('idx', 'each', 'attr', 'cmp'):
            x = (x[0],) + tuple(go(y) if isinstance(y, tuple) else y for y in x[1:])
        memo[id(k)] = (k, x)
        return x
    return go(t)


def result(r, k, loose=False):
    s = sweep.sem()
    if r.state is None:
        return 'never'
    ts = s.S.fact_terms(r, tout(k), 'numpy')
    if ts is None:
        return None
    ts = {norm(strip_cast(t, r), r) for t in ts}
    if loose:
        out = set()
        for x in map(rename, ts):
            if x[0] == 'call' and x[1] == 'stored':
                full = [p for p in x[2][1:] if 'sumover' in prims(p)]
                x = ('call', 'stored', (x[2][0],) + tuple(sorted(full or x[2][1:], key=repr)), ())
            out.add(x)
        return out
    return ts


def run_ref(vc, cls):
    c = vc.case
    import copy
    cc = copy.copy(c)
    s = sweep.sem()
    saved = s.ops.get(c.op)
    try:
        s.ops[c.op] = cls
        cc.attrs = {**c.attrs, **vc.ref}
        cc.kw = dict(c.kw)
        return execute(cc, 'value_infer')[1]
    finally:
        s.ops[c.op] = saved


STRUCT = {'idx', 'poly'}
# kinds of values each operator takes (floats otherwise)
KINDS = {'And': 'bool', 'Or': 'bool', 'Xor': 'bool', 'Not': 'bool', 'Where': 'bool float float', 'Gather': 'float signed', 'GatherElements': 'float signed', 'GatherND': 'float signed', 'OneHot': 'signed int float',
         'Div': 'float nonzero', 'Compress': 'float small', 'Tile': 'float index', 'Expand': 'float index', 'Reshape': 'float index', 'Trilu': 'float index', 'Range': 'int', 'ConstantOfShape': 'index',
         'ScatterND': 'float signed float', 'MatMulInteger': 'uint8', 'ConvInteger': 'uint8', 'CumSum': 'float index', 'Pow': 'nonzero index', 'BatchNormalization': 'float float float float nonzero'}
MORE = {'Div': ['int nonzeroint'], 'Mod': ['int nonzeroint'], **{op: ['index'] for op in ('ArgMax', 'Less', 'LessOrEqual', 'Greater', 'GreaterOrEqual', 'Equal', 'Sign', 'Max', 'Min')}}


def differs(vc, op, t, want, several):
    s = vc.case
    rows = [KINDS.get(op, 'float')] + MORE.get(op, [])
    ds = [arrayeval.differ(t, sorted(want, key=repr), arrayeval.Samples(s.ranks, s.shapes, s.values, kinds.split())) for kinds in rows]
    if several and None in ds:
        return None
    return next((d for d in ds if d is not None), None)



def alike(vc, op, t, want):
    """is t another spelling of a definition as far as the samples tell?"""
    s = vc.case
    for w in want:
        ns = [arrayeval.agree(t, w, arrayeval.Samples(s.ranks, s.shapes, s.values, kinds.split())) for kinds in [KINDS.get(op, 'float')] + MORE.get(op, [])]
        if None not in ns and sum(ns) >= 4:
            return True
    return False


def small(env):
    return ', '.join(f'{k} = {v.tolist()}' for k, v in sorted(env.items()) if not isinstance(v, int))[:300]


def leafy(x):
    return x[0] in ('const', 'param', 'ext') or (x[0] == 'attr' and x[2] in ('numpy', 'dtype', 'shape')) or (x[0] in ('tuple', 'list') and all(leafy(y) for y in x[1]))


FAMILIES = [{'maximum', 'minimum'}, {'floor', 'ceil', 'round', 'trunc'}, {'logical_and', 'logical_or', 'logical_xor'}, {'sum', 'prod', 'max', 'min', 'mean'}, {'argmax', 'argmin'}, {'tril', 'triu'},
            {'sin', 'cos', 'tan', 'arctan'}, {'exp', 'log', 'sqrt', 'tanh'}, {'any', 'all'}]


def swapped(t, w):
    """is t the definition w with one primitive exchanged for another one of its family throughout?"""
    pair = set()

    def go(a, b):
        if a == b:
            return True
        if not isinstance(a, tuple) or not isinstance(b, tuple) or len(a) != len(b):
            return False
        if a[:1] == ('call',) and b[:1] == ('call',) and a[1] != b[1]:
            if not any({a[1], b[1]} <= f for f in FAMILIES):
                return False
            pair.add((a[1], b[1]))
            return go(a[2:], b[2:])
        return all(go(x, y) for x, y in zip(a, b))
    return go(t, w) and len(pair) == 1


def recognised(t, want):
    """is the (different) expression t written in the same terms as a definition, so that the difference is a difference in value?"""
    p = prims(t)
    if any(swapped(t, w) for w in want):
        return True
    for w in want:
        q = prims(w)
        if p == q and (t[0] == w[0] and (t[0] != 'call' or t[1] == w[1]) or p <= STRUCT | {'cmp<', 'cmp<=', 'cmp=='}):
            return True
        if p < q and len(q - p) == 1 and ((p - STRUCT) or 'idx' not in p) and 'stored' not in q - p:
            return True
    if t[0] in ('call', 'cmp') and (t[1] if t[0] == 'call' else 'cmp' + t[1]) in CONFUSABLE and all(leafy(c) for c in T.children(t)):
        return not any(w[0] == 'call' and w[1] == 'stored' for w in want)
    return leafy(t) or (t[0] == 'poly' and all(leafy(c) for c in T.children(t)))


def check(ctx):
    ctx.rule('the value stored in each output equals, as a normalised array expression, one of the reference definitions of the operator')
    ctx.rule('every given input is read')
    refs = references()
    s = sweep.sem()
    seen = set()
    nconf = 0
    for vc in cases():
        op = vc.case.op
        c = s.ops.get(op)
        if c is None or not sweep.has_value_infer(c):
            continue
        nconf += 1
        seen.add(op)
        f = c.find_method('value_infer')
        ctx.seen(f'{f.cls.name}.value_infer')
        w = sweep.where(c, 'value_infer')
        tag = vc.case.tag()
        _, r = execute(vc.case, 'value_infer')
        what = f'{op} ({tag})'
        # inputs read
        if r.state is not None:
            read = {a for a, *_ in r.reads}
            n = len(vc.case.ranks)
            need = vc.nread if isinstance(vc.nread, tuple) else tuple(range(n if vc.nread is None else vc.nread))
            for i in need:
                if tin(i) in read or (T.call('anyin') in read):
                    ctx.ok(f'{what}: input {i} is read')
                elif any(a[0] in ('idx', 'each', 'each_from', 'top') for a in read):
                    ctx.undecided(f'{what}: input {i} may be read', w)
                else:
                    ctx.fail(f'{op} ignores input {i} of {n}', f'{what}: the folded value does not depend on input {i}', w)
        rs = [refs[n] for n in [op] + [f'{op}_{i}' for i in range(1, 6)] if n in refs]
        if not rs:
            continue
        rr = [run_ref(vc, rc) for rc in rs]
        for k in range(vc.case.nout):
            got = result(r, k, vc.loose)
            want = set()
            for x in rr:
                v = result(x, k, vc.loose)
                if v and v != 'never':
                    want |= v
            name = what + (f' output {k}' if vc.case.nout > 1 else '')
            if got == 'never':
                ctx.fail(f'{op} value {tag} out{k}', f'{name}: folding never returns', w)
                continue
            if got is None:
                ctx.undecided(f'{name}: no value stored on some path', w)
                continue
            if not want:
                ctx.undecided(f'{name}: reference not evaluated', w)
                continue
            bad = [t for t in got if t not in want]
            if not bad:
                ctx.ok(f'{name}: {T.show(sorted(got, key=repr)[0])[:200]}')
                continue
            t = sorted(bad, key=repr)[0]
            if decided(t) and recognised(t, want) and not alike(vc, op, t, want):
                ctx.fail(f'{op} value {tag} out{k}', f'{name}: the stored value is {T.show(t)[:300]} instead of {" or ".join(T.show(x)[:200] for x in sorted(want, key=repr)[:2])}', w)
                continue
            d = differs(vc, op, t, want, len(want) > 1) if len(got) <= len(want) else None
            if d is not None:
                ctx.fail(f'{op} value {tag} out{k}', f'{name}: the stored value is {T.show(t)[:300]}, which for {small(d[0])} is {d[1].tolist()} instead of {d[2].tolist()}'[:900], w)
            else:
                ctx.undecided(f'{name}: {T.show(t)[:260]} is not in the form of the definition {T.show(sorted(want, key=repr)[0])[:160]}', w)
    ctx.count('configurations', nconf)
    ctx.floor('operators with a reference definition analysed', len(seen), 40)
    ctx.assume('numpy functions compute what their documentation says')

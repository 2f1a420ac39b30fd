"""P33: inferred output shapes follow the operator's definition."""
from ..shapecheck import Case, Bc, bshape, run_cases

TITLE = 'Inferred output shapes follow the operator definition'
TECHNIQUE = 'abstract interpretation of shape_infer/value_infer with symbolic extents and pinned ranks/attributes; canonical size formulas compared with the definition'
EXPLANATION = ('shape_infer (and, for operators inferring through their folded value, the shape of the folded array expression) is abstractly interpreted with symbolic extents for a table of '
               'operator configurations (ranks, attributes, constant shape-carrying inputs) taken from the ONNX operator definitions; every inferred dimension is normalised and compared with '
               'the definition\'s formula for all positive extents.')

L = 'abcdefgh'

SAME = ['Abs', 'Neg', 'Ceil', 'Floor', 'Atan', 'Cos', 'Sin', 'Elu', 'Exp', 'Log', 'Sqrt', 'Reciprocal', 'Relu', 'Relu6', 'Round', 'Sigmoid', 'Sign', 'Silu', 'Softplus', 'Tanh', 'Gelu',
        'HardSigmoid', 'HardSwish', 'LeakyRelu', 'Erf', 'Identity', 'Softmax', 'LogSoftmax', 'Hardmax', 'Not', 'LpNormalization', 'Clip', 'Dropout', 'LRN', 'LogitSoftCapping',
        'RandomNormalLike', 'RandomUniformLike', 'ImageScaler', 'CategoryMapper']
BINARY = ['Add', 'Sub', 'Mul', 'Div', 'Mod', 'Pow', 'Min', 'Max', 'And', 'Or', 'Xor', 'Less', 'LessOrEqual', 'Greater', 'GreaterOrEqual', 'Equal', 'Sum']


def dims(i, r):
    return [f'{L[i]}{k}' for k in range(r)]


def elementwise():
    for op in SAME:
        for r in (1, 2, 3, 4):
            if op == 'LRN' and r != 4:
                continue
            at = {}
            yield Case(op, [r], dims(0, r), attrs=at)
    for op in ('Softmax', 'LogSoftmax', 'Hardmax', 'LpNormalization'):
        for ax in (1, -1, 0):
            yield Case(op, [3], dims(0, 3), attrs={'axis': ax})
    yield Case('Clip', [3, None, None], dims(0, 3), shapes={1: [], 2: []})
    yield Case('Clip', [3, None, None], dims(0, 3), shapes={1: [1], 2: [1]})
    yield Case('Dropout', [3, None], dims(0, 3), shapes={1: []})
    yield Case('Dropout', [3, None, None], [dims(0, 3), dims(0, 3)], shapes={1: [], 2: []}, nout=2)
    for r in (2, 3):
        yield Case('Trilu', [r], dims(0, r))
        yield Case('Trilu', [r, None], dims(0, r), values={1: 1}, shapes={1: []}, attrs={'upper': 0})
    for r in (1, 2, 3):
        yield Case('CumSum', [r, None], dims(0, r), values={1: 0}, shapes={1: []})
        yield Case('Cast', [r], dims(0, r), attrs={'to': 1})
        yield Case('PRelu', [r, r], dims(0, r), shapes={1: ['b0'] + [1] * (r - 1)})
    yield Case('PRelu', [4, None], dims(0, 4), shapes={1: ['b0', 1, 1]})
    yield Case('PRelu', [4, None], dims(0, 4), shapes={1: [1]})
    for r in (3, 4, 5):
        yield Case('InstanceNormalization', [r, None, None], dims(0, r), shapes={1: ['a1'], 2: ['a1']})
    for r in (2, 3, 4, 5):
        yield Case('BatchNormalization', [r, None, None, None, None], dims(0, r), shapes={i: ['a1'] for i in range(1, 5)})
    for r in (1, 2, 3, 4):
        for op in ('QuantizeLinear', 'DequantizeLinear'):
            yield Case(op, [r, 0], dims(0, r))
            yield Case(op, [r, 0, 0], dims(0, r))
            yield Case(op, [r, 1, 1], dims(0, r), attrs={'axis': 0})
    for r in (2, 3, 4):
        yield Case('LayerNormalization', [r, 1], dims(0, r))
        yield Case('LayerNormalization', [r, 1, 1], dims(0, r), attrs={'axis': -1})
        yield Case('LayerNormalization', [r, 1, 1], dims(0, r), attrs={'axis': r - 1, 'epsilon': 1e-5})


def broadcasting():
    for op in BINARY:
        for ra, rb in ((1, 1), (2, 2), (3, 3), (3, 1), (1, 3), (4, 2), (2, 4), (0, 2), (2, 0)):
            yield Case(op, [ra, rb], bshape(ra, rb) if ra and rb else dims(0, ra) or dims(1, rb))
        yield Case(op, [None, None], [2, 3, 4], shapes={0: [2, 1, 4], 1: [3, 1]})
        yield Case(op, [None, None], [2, 3, 4], shapes={0: [3, 1], 1: [2, 1, 4]})
        yield Case(op, [None, None], ['b0', 'a1'], shapes={0: [1, 'a1'], 1: ['b0', 1]})
    for op in ('Min', 'Max', 'Sum'):
        yield Case(op, [None, None, None], [2, 3, 4], shapes={0: [2, 1, 1], 1: [3, 1], 2: [4]})
        yield Case(op, [2], dims(0, 2))
    yield Case('Where', [None, None, None], [2, 3, 4], shapes={0: [2, 1, 1], 1: [3, 1], 2: [4]})
    yield Case('Where', [None, None, None], [2, 3, 4], shapes={0: [4], 1: [3, 1], 2: [2, 1, 1]})
    yield Case('Where', [None, None, None], dims(0, 3), shapes={0: dims(0, 3), 1: [], 2: []})
    yield Case('Where', [None, None, None], dims(1, 3), shapes={0: [1], 1: dims(1, 3), 2: [1]})


def matmul():
    M = 'MatMul'
    yield Case(M, [2, 2], ['a0', 'b1'])
    yield Case(M, [3, 2], ['a0', 'a1', 'b1'])
    yield Case(M, [2, 3], ['b0', 'a0', 'b2'])
    yield Case(M, [4, 2], ['a0', 'a1', 'a2', 'b1'])
    yield Case(M, [2, 4], ['b0', 'b1', 'a0', 'b3'])
    yield Case(M, [4, 3], ['a0', Bc('a1', 'b0'), 'a2', 'b2'])
    yield Case(M, [3, 3], [Bc('a0', 'b0'), 'a1', 'b2'])
    yield Case(M, [4, 4], [Bc('a0', 'b0'), Bc('a1', 'b1'), 'a2', 'b3'])
    yield Case(M, [None, None], [2, 3, 'a2', 'b3'], shapes={0: [2, 1, 'a2', 'a3'], 1: [1, 3, 'a3', 'b3']})
    yield Case(M, [None, None], [2, 7, 'a1', 'b3'], shapes={0: [7, 'a1', 'a2'], 1: [2, 1, 'a2', 'b3']})
    yield Case('MatMulInteger', [2, 2], ['a0', 'b1'])
    yield Case('MatMulInteger', [3, 2], ['a0', 'a1', 'b1'])
    yield Case('MatMulInteger', [None, None], [2, 3, 'a2', 'b3'], shapes={0: [2, 1, 'a2', 'a3'], 1: [1, 3, 'a3', 'b3']})
    q = [2, 0, 0, 2, 0, 0, 0, 0]
    yield Case('QLinearMatMul', q, ['a0', 'd1'])
    yield Case('QLinearMatMul', [3, 0, 0, 2, 0, 0, 0, 0], ['a0', 'a1', 'd1'])
    yield Case('QLinearMatMul', [None, 0, 0, None, 0, 0, 0, 0], [2, 3, 'a2', 'd3'], shapes={0: [2, 1, 'a2', 'a3'], 3: [1, 3, 'a3', 'd3']})
    for n in (2, 3):
        rk = [2, 2] + [1] * (n - 2)
        yield Case('Gemm', rk, ['a0', 'b1'])
        yield Case('Gemm', rk, ['a0', 'b0'], attrs={'transB': 1})
        yield Case('Gemm', rk, ['a1', 'b1'], attrs={'transA': 1})
        yield Case('Gemm', rk, ['a1', 'b0'], attrs={'transA': 1, 'transB': 1})
        yield Case('Gemm', rk, ['a0', 'b1'], attrs={'transA': 0, 'transB': 0, 'alpha': 1.0, 'beta': 1.0})


def reshaping():
    R = 'Reshape'
    yield Case(R, [3, None], [2, 'a0*a1*a2/2'], values={1: [2, -1]})
    yield Case(R, [3, None], ['a0*a1*a2'], values={1: [-1]})
    yield Case(R, [3, None], ['a0', 'a1*a2'], values={1: [0, -1]})
    yield Case(R, [4, None], ['a0', 'a1', 'a2*a3'], values={1: [0, 0, -1]})
    yield Case(R, [4, None], ['a0*a2*a3/4', 'a1', 4], values={1: [-1, 0, 4]})
    yield Case(R, [2, None], [3, 4, 5], values={1: [3, 4, 5]})
    yield Case(R, [2, None], ['a0', 4], values={1: [0, 4]}, attrs={'allowzero': 0})
    yield Case(R, [None, None], [4, 0], values={1: [4, 0]}, attrs={'allowzero': 1}, shapes={0: [0, 4]})
    for r in (2, 3, 4):
        yield Case('Transpose', [r], dims(0, r)[::-1])
    yield Case('Transpose', [3], ['a1', 'a2', 'a0'], attrs={'perm': [1, 2, 0]})
    yield Case('Transpose', [4], ['a0', 'a2', 'a3', 'a1'], attrs={'perm': [0, 2, 3, 1]})
    yield Case('Transpose', [2], ['a1', 'a0'], attrs={'perm': [1, 0]})
    for ax, e in ((0, [1, 'a0*a1*a2*a3']), (1, ['a0', 'a1*a2*a3']), (2, ['a0*a1', 'a2*a3']), (3, ['a0*a1*a2', 'a3']), (4, ['a0*a1*a2*a3', 1]), (-1, ['a0*a1*a2', 'a3']), (-2, ['a0*a1', 'a2*a3'])):
        yield Case('Flatten', [4], e, attrs={'axis': ax})
    yield Case('Flatten', [4], ['a0', 'a1*a2*a3'])
    yield Case('Flatten', [2], ['a0', 'a1'])
    # Squeeze / Unsqueeze, attribute and input forms
    for form in ('attr', 'input'):
        def s(op, shape, axes, e):
            if form == 'attr':
                return Case(op, [None], e, attrs={'axes': axes}, shapes={0: shape})
            return Case(op, [None, None], e, values={1: axes}, shapes={0: shape})
        yield s('Squeeze', [1, 'a1', 1, 'a3'], [0], ['a1', 1, 'a3'])
        yield s('Squeeze', [1, 'a1', 1, 'a3'], [2], [1, 'a1', 'a3'])
        yield s('Squeeze', [1, 'a1', 1, 'a3'], [0, 2], ['a1', 'a3'])
        yield s('Squeeze', [1, 'a1', 1, 'a3'], [2, 0], ['a1', 'a3'])
        yield s('Squeeze', [1, 'a1', 1, 'a3'], [-2], [1, 'a1', 'a3'])
        yield s('Squeeze', ['a0', 1], [-1], ['a0'])
        yield s('Unsqueeze', ['a0', 'a1'], [0], [1, 'a0', 'a1'])
        yield s('Unsqueeze', ['a0', 'a1'], [1], ['a0', 1, 'a1'])
        yield s('Unsqueeze', ['a0', 'a1'], [2], ['a0', 'a1', 1])
        yield s('Unsqueeze', ['a0', 'a1'], [-1], ['a0', 'a1', 1])
        yield s('Unsqueeze', ['a0', 'a1'], [-2], ['a0', 1, 'a1'])
        yield s('Unsqueeze', ['a0', 'a1'], [0, 3], [1, 'a0', 'a1', 1])
        yield s('Unsqueeze', ['a0', 'a1'], [0, 1], [1, 1, 'a0', 'a1'])
        yield s('Unsqueeze', ['a0', 'a1'], [3, 0], [1, 'a0', 'a1', 1])
        yield s('Unsqueeze', ['a0', 'a1'], [-1, 0], [1, 'a0', 'a1', 1])
    yield Case('Squeeze', [None], [3, 4], shapes={0: [1, 3, 1, 4]})
    yield Case('Expand', [None, None], ['a0', 3, 4], shapes={0: ['a0', 1, 1]}, values={1: [3, 4]})
    yield Case('Expand', [None, None], [2, 3, 'a1'], shapes={0: [3, 'a1']}, values={1: [2, 1, 1]})
    yield Case('Expand', [None, None], [5, 'a0'], shapes={0: ['a0']}, values={1: [5, 1]})
    yield Case('Expand', [None, None], [3, 4], shapes={0: [3, 4]}, values={1: [1]})
    yield Case('Tile', [2, None], ['2*a0', '3*a1'], values={1: [2, 3]})
    yield Case('Tile', [3, None], ['a0', '4*a1', '2*a2'], values={1: [1, 4, 2]})
    yield Case('ConstantOfShape', [None], [2, 3, 4], values={0: [2, 3, 4]})
    yield Case('ConstantOfShape', [None], [5], values={0: [5]})
    for r in (1, 2, 4):
        yield Case('Shape', [r], [r])
    yield Case('Shape', [4], [2], attrs={'start': 1, 'end': 3})
    yield Case('Shape', [4], [3], attrs={'start': 1})
    yield Case('Shape', [4], [1], attrs={'start': -1})
    for lo, hi, st, n in ((0, 10, 2, 5), (0, 10, 3, 4), (10, 4, -2, 3), (5, 5, 1, 0), (3, 8, 1, 5)):
        yield Case('Range', [None, None, None], [n], values={0: [lo], 1: [hi], 2: [st]}, shapes={0: [], 1: [], 2: []})
    yield Case('DepthToSpace', [4], ['a0', 'a1/4', '2*a2', '2*a3'], attrs={'blocksize': 2})
    yield Case('DepthToSpace', [4], ['a0', 'a1/9', '3*a2', '3*a3'], attrs={'blocksize': 3, 'mode': b'CRD'})


def indexing():
    for ax in (0, 1, -1):
        p = ax % 3
        e = dims(0, 3)
        e[p] = f'a{p}+b{p}'
        yield Case('Concat', [3, 3], e, attrs={'axis': ax})
        e = dims(0, 3)
        e[p] = f'a{p}+b{p}+c{p}'
        yield Case('Concat', [3, 3, 3], e, attrs={'axis': ax})
    yield Case('Concat', [2], dims(0, 2), attrs={'axis': 0})
    yield Case('Concat', [1, 1], ['a0+b0'], attrs={'axis': 0})
    for r in (1, 2, 3):
        for ax in range(r):
            for q in (0, 1, 2):
                yield Case('Gather', [r, q], dims(0, ax) + dims(1, q) + dims(0, r)[ax + 1:], attrs={'axis': ax})
    yield Case('Gather', [3, 1], ['a0', 'a1', 'b0'], attrs={'axis': -1})
    yield Case('Gather', [3, 2], ['a0', 'b0', 'b1', 'a2'], attrs={'axis': -2})
    yield Case('Gather', [2, 2], ['b0', 'b1', 'a1'])
    yield Case('GatherElements', [3, 3], dims(1, 3), attrs={'axis': 1})
    yield Case('GatherElements', [2, 2], dims(1, 2))
    yield Case('GatherND', [None, None], ['b0', 'a2'], shapes={0: dims(0, 3), 1: ['b0', 2]})
    yield Case('GatherND', [None, None], ['b0'], shapes={0: dims(0, 3), 1: ['b0', 3]})
    yield Case('GatherND', [None, None], ['b0', 'b1', 'a1', 'a2'], shapes={0: dims(0, 3), 1: ['b0', 'b1', 1]})
    yield Case('GatherND', [None, None], ['a0', 'a2'], shapes={0: dims(0, 3), 1: ['a0', 1]}, attrs={'batch_dims': 1})
    yield Case('GatherND', [None, None], ['a0', 'b1', 'a2'], shapes={0: dims(0, 3), 1: ['a0', 'b1', 1]}, attrs={'batch_dims': 1})
    yield Case('GatherND', [None, None], ['b0', 'a1', 'a2'], shapes={0: dims(0, 3), 1: ['b0', 1]}, attrs={'batch_dims': 0})
    for op in ('ScatterElements',):
        yield Case(op, [3, 3, 3], dims(0, 3), attrs={'axis': 1})
        yield Case(op, [2, 2, 2], dims(0, 2))
    yield Case('ScatterND', [3, None, None], dims(0, 3), shapes={1: ['b0', 2], 2: ['b0', 'a2']})
    # Slice: inputs data, starts, ends, axes, steps
    def sl(r, st, en, ax=None, sp=None, e=None):
        v = {1: st, 2: en}
        if ax is not None:
            v[3] = ax
        if sp is not None:
            v[4] = sp
        return Case('Slice', [r] + [None] * len(v), e, values=v)
    B = 2 ** 63 - 1
    yield sl(3, [1], [4], [1], [1], ['a0', {'mn(a1,4)-mn(a1,1)', 'mn(a1,4)-1', 'mx(mn(a1,4)-1,0)', 'mn(3,a1-1)', 0}, 'a2'])
    yield sl(3, [1], [B], [1], [1], ['a0', {'a1-1', f'mn(a1,{B})-mn(a1,1)', 0}, 'a2'])
    yield sl(3, [1], [B], [-1], [1], ['a0', 'a1', {'a2-1', f'mn(a2,{B})-mn(a2,1)', 0}])
    yield sl(3, [0], [-1], [2], None, ['a0', 'a1', {'a2-1', 0}])
    yield sl(3, [0], [B], [1], [2], ['a0', {'ceil(a1/2)', 0}, 'a2'])
    yield sl(2, [0, 0], [-1, -2], None, None, [{'a0-1', 0}, {'a1-2', 'mx(a1-2,0)', 0}])
    yield Case('Slice', [3], ['a0', {'a1-1', 0}, 'a2'], attrs={'starts': [0], 'ends': [-1], 'axes': [1]})
    yield Case('Slice', [2], [{'a0-1', 0}, {'a1-2', 'mx(a1-2,0)', 0}], attrs={'starts': [0, 0], 'ends': [-1, -2]})

    def slc(shape, st, en, ax=None, sp=None, e=None):
        v = {1: st, 2: en}
        if ax is not None:
            v[3] = ax
        if sp is not None:
            v[4] = sp
        return Case('Slice', [None] + [None] * len(v), e, values=v, shapes={0: shape}, note=f'data {shape}')
    yield slc([10, 20], [2], [7], [0], None, [5, 20])
    yield slc([10, 20], [2, 3], [7, 9], None, None, [5, 6])
    yield slc([10, 20], [2, 3], [7, 19], [0, 1], [1, 2], [5, 8])
    yield slc([10, 20], [2, 3], [7, 19], [1, 0], [1, 2], [4, 5])
    yield slc([10, 20], [-3], [B], [0], None, [3, 20])
    yield slc([10, 20], [-3], [-1], [1], None, [10, 2])
    yield slc([10, 20], [5], [100], [1], None, [10, 15])
    yield slc([10, 20], [9], [0], [0], [-1], [9, 20])
    yield slc([10, 20], [-1], [-B], [0], [-1], [10, 20])
    yield slc([10, 20], [-1], [-B], [1], [-3], [10, 7])
    yield slc([10, 20], [7], [3], [0], [1], [0, 20])
    # Split
    for ax in (0, 1, -1):
        p = ax % 3
        for n in (2, 3):
            e = [dims(0, 3) for _ in range(n)]
            for q in e:
                q[p] = f'a{p}'
            sh = dims(0, 3)
            sh[p] = f'{n}*a{p}'
            yield Case('Split', [None], e, nout=n, attrs={'axis': ax}, shapes={0: sh}, note='even')
    yield Case('Split', [None], [['a0', 'a1'], ['a0', 'a1']], nout=2, shapes={0: ['2*a0', 'a1']})
    for ax in (1, -1):
        yield Case('Split', [None], [['a0', 2], ['a0', 3], ['a0', 5]], nout=3, attrs={'axis': ax, 'split': [2, 3, 5]}, shapes={0: ['a0', 10]})
        yield Case('Split', [None, None], [['a0', 2], ['a0', 3], ['a0', 5]], nout=3, attrs={'axis': ax}, values={1: [2, 3, 5]}, shapes={0: ['a0', 10]})
    yield Case('Split', [None, None], [[2, 'a1'], [3, 'a1']], nout=2, attrs={'axis': 0}, values={1: [2, 3]}, shapes={0: [5, 'a1']})
    yield Case('Split', [None, None], [[2, 'a1'], [3, 'a1']], nout=2, values={1: [2, 3]}, shapes={0: [5, 'a1']})
    yield Case('Split', [None], [[3, 'a1'], [3, 'a1'], [1, 'a1']], nout=3, attrs={'num_outputs': 3}, shapes={0: [7, 'a1']})
    yield Case('Split', [None], [['a0', 4], ['a0', 3]], nout=2, attrs={'axis': 1, 'num_outputs': 2}, shapes={0: ['a0', 7]})
    # TopK, OneHot, ArgMax, Compress, NonZero
    yield Case('TopK', [2, None], [['a0', 5], ['a0', 5]], nout=2, values={1: [5]})
    yield Case('TopK', [3, None], [['a0', 4, 'a2'], ['a0', 4, 'a2']], nout=2, values={1: [4]}, attrs={'axis': 1})
    yield Case('TopK', [3, None], [['a0', 4, 'a2'], ['a0', 4, 'a2']], nout=2, values={1: [4]}, attrs={'axis': -2, 'largest': 1, 'sorted': 1})
    yield Case('OneHot', [1, None, 1], ['a0', 7], values={1: [7]})
    yield Case('OneHot', [2, None, 1], ['a0', 'a1', 7], values={1: [7]}, attrs={'axis': -1})
    yield Case('OneHot', [2, None, 1], ['a0', 7, 'a1'], values={1: [7]}, attrs={'axis': 1})
    yield Case('OneHot', [2, None, 1], [7, 'a0', 'a1'], values={1: [7]}, attrs={'axis': 0})
    yield Case('OneHot', [2, None, 1], ['a0', 7, 'a1'], values={1: [7]}, attrs={'axis': -2})
    for ax in (0, 1, 2, -1):
        p = ax % 3
        yield Case('ArgMax', [3], [1 if k == p else f'a{k}' for k in range(3)], attrs={'axis': ax})
        yield Case('ArgMax', [3], [1 if k == p else f'a{k}' for k in range(3)], attrs={'axis': ax, 'keepdims': 1})
        yield Case('ArgMax', [3], [f'a{k}' for k in range(3) if k != p], attrs={'axis': ax, 'keepdims': 0})
    yield Case('ArgMax', [3], [1, 'a1', 'a2'])


def reducing():
    for op in ('ReduceMean', 'ReduceSum', 'ReduceMax', 'ReduceMin', 'ReduceProd', 'ReduceL2'):
        for axes in ([0], [1], [-1], [0, 2], [2, 0], [-1, -2], [0, 1, 2]):
            ax = {x % 3 for x in axes}
            keep = [1 if k in ax else f'a{k}' for k in range(3)]
            drop = [f'a{k}' for k in range(3) if k not in ax]
            yield Case(op, [3], keep, attrs={'axes': axes})
            yield Case(op, [3], keep, attrs={'axes': axes, 'keepdims': 1})
            yield Case(op, [3], drop, attrs={'axes': axes, 'keepdims': 0})
            yield Case(op, [3, None], keep, values={1: axes})
            yield Case(op, [3, None], drop, values={1: axes}, attrs={'keepdims': 0})
        yield Case(op, [3], [1, 1, 1])
        yield Case(op, [3], [], attrs={'keepdims': 0})
        yield Case(op, [3], dims(0, 3), attrs={'noop_with_empty_axes': 1})


def layout():
    yield Case('Pad', [2, None], ['a0+4', 'a1+6'], values={1: [1, 2, 3, 4]})
    yield Case('Pad', [4, None], ['a0', 'a1', 'a2+4', 'a3+6'], values={1: [0, 0, 1, 2, 0, 0, 3, 4]}, attrs={'mode': b'reflect'})
    yield Case('Pad', [2, None], ['a0-1', 'a1+6'], values={1: [-1, 2, 0, 4]})
    yield Case('Pad', [2, None, 0], ['a0+4', 'a1+6'], values={1: [1, 2, 3, 4]})
    yield Case('Pad', [2], ['a0+4', 'a1+6'], attrs={'pads': [1, 2, 3, 4]})
    yield Case('Pad', [3, None, 0, None], ['a0', 'a1+3', 'a2'], values={1: [1, 2], 3: [1]})
    yield Case('Pad', [3, None, 0, None], ['a0', 'a1+4', 'a2+6'], values={1: [1, 2, 3, 4], 3: [1, -1]})
    for m in (b'nearest', b'linear'):
        yield Case('Resize', [4, None, None], ['a0', 'a1', '2*a2', '3*a3'], values={2: [1.0, 1.0, 2.0, 3.0]}, shapes={1: [0]}, attrs={'mode': m})
        yield Case('Resize', [None, None, None, None], [1, 3, 20, 30], values={3: [1, 3, 20, 30]}, shapes={0: [1, 3, 'a2', 'a3'], 1: [0], 2: [0]}, attrs={'mode': m})
    yield Case('Resize', [4, None], ['a0', 'a1', '2*a2', '3*a3'], values={1: [1.0, 1.0, 2.0, 3.0]})
    yield Case('Resize', [4, None], ['a0', 'a1', 'floor(a2/2)', 'floor(3*a3/2)'], values={1: [1.0, 1.0, 0.5, 1.5]})
    yield Case('Upsample', [4, None], ['a0', 'a1', '2*a2', '3*a3'], values={1: [1.0, 1.0, 2.0, 3.0]})
    yield Case('Upsample', [4], ['a0', 'a1', '2*a2', '3*a3'], attrs={'scales': [1.0, 1.0, 2.0, 3.0]})
    yield Case('GridSample', [4, None], ['a0', 'a1', 'b1', 'b2'], shapes={1: ['a0', 'b1', 'b2', 2]})
    yield Case('GridSample', [5, None], ['a0', 'a1', 'b1', 'b2', 'b3'], shapes={1: ['a0', 'b1', 'b2', 'b3', 3]})
    yield Case('RoiAlign', [4, 2, 1], ['b0', 'a1', 5, 7], attrs={'output_height': 5, 'output_width': 7})
    yield Case('RoiAlign', [4, 2, 1], ['b0', 'a1', 1, 1])
    # Einsum
    for eq, e, n in ((b'ij,jk->ik', ['a0', 'b1'], [2, 2]), (b'bij,bjk->bik', [Bc('a0', 'b0'), 'a1', 'b2'], [3, 3]), (b'bhid,bhjd->bhij', [Bc('a0', 'b0'), Bc('a1', 'b1'), 'a2', 'b2'], [4, 4]),
                     (b'ij->ji', ['a1', 'a0'], [2]), (b'ij->i', ['a0'], [2]), (b'i,j->ij', ['a0', 'b0'], [1, 1]), (b'bij, bjk -> bik', [Bc('a0', 'b0'), 'a1', 'b2'], [3, 3])):
        yield Case('Einsum', n, e, attrs={'equation': eq})


def recurrent():
    for op, g in (('LSTM', 4), ('GRU', 3)):
        for d in (1, 2):
            at = {'hidden_size': 16}
            if d == 2:
                at['direction'] = b'bidirectional'
            for nin in (3, 4, 5, 6):
                ranks = [3, None, None] + ([None] if nin > 3 else []) + ([1] if nin > 4 else []) + ([None] if nin > 5 else [])
                shapes = {1: [d, g * 16, 'a2'], 2: [d, g * 16, 16]}
                if nin > 3:
                    shapes[3] = [d, 2 * g * 16]
                if nin > 5:
                    shapes[5] = [d, 'a1', 16]
                outs = [['a0', d, 'a1', 16], [d, 'a1', 16], [d, 'a1', 16]][:3 if op == 'LSTM' else 2]
                for no in range(1, len(outs) + 1):
                    yield Case(op, ranks, outs[:no] if no > 1 else outs[0], attrs=at, shapes=shapes, nout=no)


def cases():
    yield from elementwise()
    yield from broadcasting()
    yield from matmul()
    yield from reshaping()
    yield from indexing()
    yield from reducing()
    yield from layout()
    yield from recurrent()


def check(ctx):
    ctx.rule('every inferred dimension equals the definition\'s formula for the configuration, for all positive input extents')
    run_cases(ctx, list(cases()))

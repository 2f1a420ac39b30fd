"""P25: convolution and pooling output extents, per spatial axis."""
from ..shapecheck import Case, run_cases

TITLE = 'Convolution and pooling extents follow the window formula on every axis'
TECHNIQUE = 'abstract interpretation of shape_infer with symbolic extents, algebraic normal forms of the size formula compared with the definition'
EXPLANATION = ('shape_infer of every window operator is abstractly interpreted with symbolic extents for 1, 2 and 3 spatial axes, distinct constant kernel/stride/dilation/begin/end padding per '
               'axis, every auto_pad mode, ceil mode, and attributes omitted; each inferred extent is normalised (floor/ceil/int rules) and compared with the definition for that axis.')

K = [2, 3, 4]
S = [2, 3, 4]
D = [2, 3, 1]
B = [1, 2, 3]
E = [4, 5, 7]


def out(i, x, k=None, s=None, d=None, pb=None, pe=None, ceil=False):
    k = K[i] if k is None else k
    s = 1 if s is None else s
    d = 1 if d is None else d
    n = f'({x}{i + 2} + {(pb or 0) + (pe or 0)} - {d * (k - 1)} - 1)/{s}'
    f = 'ceil' if ceil else 'floor'
    return f'{f}({n}) + 1'


def window_cases(op, conv, wi=1):
    """conv: output channels come from the kernel; wi: index of the kernel input"""
    for n in (1, 2, 3):
        rank = n + 2
        nin = {'QLinearConv': 8, 'ConvInteger': 2, 'Conv': 2}.get(op, 1)
        ranks = [None] * nin
        ranks[0] = rank
        shapes = {}
        letter = 'abcdefgh'[wi]
        if conv:
            shapes[wi] = [f'{letter}0', f'{letter}1'] + K[:n]
        head = ['a0', f'{letter}0'] if conv else ['a0', 'a1']
        ks = {'kernel_shape': K[:n]}
        P = {'pads': B[:n] + E[:n]}

        def c(attrs, dims, note=''):
            return Case(op, ranks, head + dims, attrs=attrs, shapes=shapes, note=note)
        full = dict(ks, strides=S[:n], dilations=D[:n], **P)
        if op in ('AveragePool',):
            yield c(dict(ks, strides=S[:n], **P), [out(i, 'a', s=S[i], pb=B[i], pe=E[i]) for i in range(n)])
        yield c(full, [out(i, 'a', s=S[i], d=D[i], pb=B[i], pe=E[i]) for i in range(n)])
        yield c(dict(full, auto_pad=b'NOTSET'), [out(i, 'a', s=S[i], d=D[i], pb=B[i], pe=E[i]) for i in range(n)])
        yield c(dict(ks), [out(i, 'a') for i in range(n)])
        yield c(dict(ks, **P), [out(i, 'a', pb=B[i], pe=E[i]) for i in range(n)])
        yield c(dict(ks, strides=S[:n]), [out(i, 'a', s=S[i]) for i in range(n)])
        yield c(dict(ks, dilations=D[:n]), [out(i, 'a', d=D[i]) for i in range(n)])
        for ap in (b'SAME_UPPER', b'SAME_LOWER'):
            yield c(dict(ks, auto_pad=ap, strides=S[:n]), [f'ceil(a{i + 2}/{S[i]})' for i in range(n)])
            yield c(dict(ks, auto_pad=ap), [f'a{i + 2}' for i in range(n)])
        yield c(dict(ks, auto_pad=b'VALID', strides=S[:n]), [out(i, 'a', s=S[i]) for i in range(n)])
        yield c(dict(ks, auto_pad=b'VALID', strides=S[:n], dilations=D[:n]), [out(i, 'a', s=S[i], d=D[i]) for i in range(n)])
        if not conv:
            yield c(dict(full, ceil_mode=1), [out(i, 'a', s=S[i], d=D[i], pb=B[i], pe=E[i], ceil=True) for i in range(n)])
            yield c(dict(full, ceil_mode=0), [out(i, 'a', s=S[i], d=D[i], pb=B[i], pe=E[i]) for i in range(n)])


def tout(i, s=1, d=1, op=0, pb=0, pe=0):
    return f'{s}*(a{i + 2} - 1) + {op + (K[i] - 1) * d + 1 - pb - pe}'


def transpose_cases():
    for n in (1, 2, 3):
        shapes = {1: ['b0', 'b1'] + K[:n]}
        ks = {'kernel_shape': K[:n]}
        P = {'pads': B[:n] + E[:n]}
        OP = [1, 2, 3]

        def c(attrs, dims, g=1):
            return Case('ConvTranspose', [n + 2, None], ['a0', f'{g}*b1'] + dims, attrs=attrs, shapes=shapes)
        full = dict(ks, strides=S[:n], dilations=D[:n], output_padding=OP[:n], **P)
        yield c(full, [tout(i, S[i], D[i], OP[i], B[i], E[i]) for i in range(n)])
        yield c(dict(full, auto_pad=b'NOTSET'), [tout(i, S[i], D[i], OP[i], B[i], E[i]) for i in range(n)])
        yield c(dict(full, group=3), [tout(i, S[i], D[i], OP[i], B[i], E[i]) for i in range(n)], 3)
        yield c(dict(ks), [tout(i) for i in range(n)])
        yield c(dict(ks, strides=S[:n]), [tout(i, S[i]) for i in range(n)])
        yield c(dict(ks, **P), [tout(i, pb=B[i], pe=E[i]) for i in range(n)])
        yield c(dict(ks, output_shape=[20, 21, 22][:n], strides=S[:n]), [20, 21, 22][:n])
        for ap in (b'SAME_UPPER', b'SAME_LOWER'):
            yield c(dict(ks, auto_pad=ap, strides=S[:n]), [f'{S[i]}*a{i + 2}' for i in range(n)])
        yield c(dict(ks, auto_pad=b'VALID', strides=S[:n]), [tout(i, S[i]) for i in range(n)])


def cases():
    yield from window_cases('Conv', True)
    yield from window_cases('ConvInteger', True)
    yield from window_cases('QLinearConv', True, 3)
    yield from window_cases('MaxPool', False)
    yield from window_cases('AveragePool', False)
    yield from transpose_cases()
    for r in (3, 4, 5):
        yield Case('GlobalAveragePool', [r], ['a0', 'a1'] + [1] * (r - 2))


def check(ctx):
    ctx.rule('every inferred extent equals the definition\'s formula for its axis, for all input extents')
    run_cases(ctx, list(cases()))

"""P06: operation counts follow each operator's arithmetic."""
from .. import formula as F
from .. import sweep
from .. import terms as T
from ..shapecheck import Case, execute
from ..terms import const

TITLE = 'Operation counts follow each operator\'s arithmetic'
TECHNIQUE = 'abstract interpretation of profile/_profile_core with symbolic extents in pinned configurations; canonical cost polynomials compared with the operator\'s arithmetic'
EXPLANATION = ('profile() is abstractly interpreted per operator and configuration (ranks, attributes, number of inputs, which inputs are weights) with symbolic extents; the returned MAC count, '
               'moved activations and weight elements are normalised to polynomials over the input and output extents and compared, for all positive extents, with the polynomial the operator\'s arithmetic '
               'dictates (output elements times per-element cost, contracted extents, input volume for reductions, bias only when given, weights once).')

L = 'abcdefgh'


def dims(i, r):
    return [f'{L[i]}{k}' for k in range(r)]


def P(*xs):
    out = []
    for x in xs:
        out.extend(str(y) for y in x) if isinstance(x, (list, tuple)) else out.append(str(x))
    return '*'.join(f'({x})' for x in out) if out else '1'


# cost per output element
UNARY = {'Abs': 1, 'Ceil': 1, 'Floor': 1, 'Neg': 1, 'Not': 1, 'Relu': 1, 'Round': 1, 'Sign': 1, 'Atan': (32, 64), 'Clip': 2, 'Cos': 39, 'Sin': 39, 'Elu': 35, 'Exp': 32, 'Gelu': 34,
         'HardSigmoid': 4, 'HardSwish': 5, 'ImageScaler': 2, 'LeakyRelu': 2, 'Log': 43, 'LogSoftmax': 80, 'LogitSoftCapping': 43, 'LpNormalization': 33, 'Relu6': 2, 'Reciprocal': 4, 'Sigmoid': 32,
         'Silu': 33, 'Softmax': 36, 'Softplus': 76, 'Sqrt': 24, 'Tanh': (38, 76), 'Hardmax': 1, 'Erf': None, 'Identity': 0, 'Dropout': 0, 'Flatten': None}
BINARY = {'Add': 1, 'Sub': 1, 'Mul': 1, 'Div': 4, 'Mod': 1, 'And': 1, 'Or': 1, 'Xor': 1, 'Less': 1, 'LessOrEqual': 1, 'Greater': 1, 'GreaterOrEqual': 1, 'Equal': 1, 'Pow': 32, 'Min': 1, 'Max': 1,
          'Sum': 1}
ZERO = {'Reshape': 2, 'Transpose': 1, 'Squeeze': 1, 'Unsqueeze': 1, 'Concat': 2, 'Slice': 1, 'Cast': 1, 'Shape': 1, 'Identity': 1, 'Expand': 2, 'Tile': 2, 'Flatten': 1, 'Constant': 0, 'Dropout': 1,
        'DepthToSpace': 1, 'SpaceToDepth': 1, 'Pad': 1, 'Split': 1}


class PC:
    """one profile configuration; macs/io/static: formula or None (not judged)"""

    def __init__(self, op, ranks, macs, out=None, attrs=None, shapes=None, values=None, static=(), io=True, st=None, outs=None, note=''):
        self.op, self.macs, self.io, self.note = op, macs, io, note
        full = {}
        for i, r in enumerate(ranks):
            full[i] = dims(i, r) if r is not None else (shapes or {}).get(i, [])
        full.update(shapes or {})
        outs = outs if outs is not None else [out if out is not None else full[0]]
        self.outs = outs
        self.io = ' + '.join(P(o) if o else '0' for o in outs) if io is True else io
        self.st = st if st is not None else (' + '.join(P(full[i]) for i in static) if static else '0')
        if not macs:
            pass
        self.case = Case(op, ranks, None, attrs=attrs, values=values, nout=len(outs), shapes=shapes, note=note, method='profile',
                         outshapes=dict(enumerate(outs)), selfover={'static_inputs': list(static)})

    def tag(self):
        return self.case.tag() + f' -> {self.outs}'


def elementwise():
    for op, c in UNARY.items():
        if c is None:
            continue
        cs = c if isinstance(c, tuple) else (c,)
        for r in (1, 2, 3, 4):
            if op in ('Dropout', 'Identity'):
                continue
            if op == 'Clip':
                yield PC(op, [r, None, None], f'{c}*' + P(dims(0, r)), shapes={1: [1], 2: [1]})
            else:
                yield PC(op, [r], {f'{x}*' + P(dims(0, r)) for x in cs})
    for op, c in BINARY.items():
        for r in (1, 3, 4):
            y = [f'y{k}' for k in range(r)]
            yield PC(op, [r, r], f'{c}*' + P(y), out=y)
            yield PC(op, [r, r], f'{c}*' + P(y), out=y, static=(1,))
        yield PC(op, [3, 1], f'{c}*' + P(dims(0, 3)), shapes={1: ['a2']})
    for op in ('Sum', 'Min', 'Max'):
        for n in (3, 4, 5):
            y = ['y0', 'y1']
            yield PC(op, [2] * n, f'{n - 1}*' + P(y), out=y)
    yield PC('PRelu', [4, None], '2*' + P(dims(0, 4)), shapes={1: ['a1', 1, 1]}, static=(1,))
    yield PC('BatchNormalization', [4, None, None, None, None], '31*' + P(dims(0, 4)), shapes={i: ['a1'] for i in range(1, 5)}, static=(1, 2, 3, 4))
    yield PC('InstanceNormalization', [4, None, None], '7*' + P(dims(0, 4)), shapes={1: ['a1'], 2: ['a1']}, static=(1, 2))
    for n in (2, 3):
        for op in ('QuantizeLinear', 'DequantizeLinear'):
            yield PC(op, [3] + [None] * (n - 1), '2*' + P(dims(0, 3)), shapes={i: ['a0'] for i in range(1, n)}, static=tuple(range(1, n)), attrs={'axis': 0})
    yield PC('LRN', [4], '42*' + P(dims(0, 4)), attrs={'size': 5})
    yield PC('CumSum', [3, None], P(dims(0, 3)), shapes={1: [1]})
    yield PC('GeGelu', [3], '34*' + P(['a0', 'a1', 'y2']), out=['a0', 'a1', 'y2'])
    yield PC('NonZero', [2], P(['y0', 'y1']), out=['y0', 'y1'])
    for op, n in ZERO.items():
        for r in (2, 3):
            y = [f'y{k}' for k in range(3)]
            yield PC(op, [r] * n, '0', out=y, static=(1,) if n > 1 else ())


def reductions():
    for op in ('ReduceMean', 'ReduceSum', 'ReduceMax', 'ReduceMin', 'ReduceProd'):
        for r in (2, 3, 4):
            yield PC(op, [r], P(dims(0, r)), out=['y0', 'y1'], attrs={'axes': [r - 1]})
        yield PC(op, [3, 1], P(dims(0, 3)), out=['y0', 'y1'])
    for r in (2, 4):
        yield PC('ReduceL2', [r], '25*' + P(dims(0, r)), out=['y0', 'y1'], attrs={'axes': [r - 1]})
    for r in (3, 4, 5):
        y = ['a0', 'a1'] + [1] * (r - 2)
        yield PC('GlobalAveragePool', [r], P(dims(0, r)) + '+ 4*a0*a1', out=y)
    for r in (2, 3, 4):
        for ax in range(-r, r):
            pos = ax % r
            yield PC('LayerNormalization', [r, None], '7*' + P(dims(0, r)) + ' + 29*' + P(dims(0, pos)), shapes={1: dims(0, r)[pos:]}, static=(1,), attrs={'axis': ax})
        yield PC('LayerNormalization', [r, None, None], '7*' + P(dims(0, r)) + ' + 29*' + P(dims(0, r - 1)), shapes={1: [f'a{r - 1}'], 2: [f'a{r - 1}']}, static=(1, 2))


def products():
    # matrix products: output elements times the contracted extent
    for r in (2, 3, 4):
        y = dims(0, r - 1) + [f'b{r - 1}']
        yield PC('MatMul', [r, None], P(y) + f'*a{r - 1}', out=y, shapes={1: dims(0, r - 2) + [f'a{r - 1}', f'b{r - 1}']})
        y2 = dims(0, r - 1) + ['b1']
        yield PC('MatMul', [r, None], P(y2) + f'*a{r - 1}', out=y2, shapes={1: [f'a{r - 1}', 'b1']}, static=(1,))
        yield PC('MatMul', [r, None], P(dims(0, r - 1)) + f'*a{r - 1}', out=dims(0, r - 1), shapes={1: [f'a{r - 1}']}, static=(1,), note='vector weight')
    yield PC('MatMul', [1, None], 'a0*b1', out=['b1'], shapes={1: ['a0', 'b1']}, static=(1,))
    yield PC('MatMul', [2, None], 'b0*a0*b2*a1', out=['b0', 'a0', 'b2'], shapes={1: ['b0', 'a1', 'b2']})
    for ta in (None, 0, 1):
        for tb in (None, 0, 1):
            at = {}
            if ta is not None:
                at['transA'] = ta
            if tb is not None:
                at['transB'] = tb
            m, k = ('a1', 'a0') if ta else ('a0', 'a1')
            w = ['b0', k] if tb else [k, 'b1']
            n = 'b0' if tb else 'b1'
            yield PC('Gemm', [2, None], P([m, n, k]), out=[m, n], shapes={1: w}, static=(1,), attrs=at)
            yield PC('Gemm', [2, None, None], P([m, n, k]) + f' + {m}*{n}', out=[m, n], shapes={1: w, 2: [n]}, static=(1, 2), attrs=at)
    for n in (2, 3, 4):
        yield PC('MatMulInteger', [3] + [None] * (n - 1), 'a0*a1*b1*a2', out=['a0', 'a1', 'b1'], shapes={1: ['a2', 'b1'], 2: [1], 3: [1]} if n == 4 else {1: ['a2', 'b1'], 2: [1]} if n == 3 else {1: ['a2', 'b1']}, static=(1,))
    for r in (2, 3):
        y = dims(0, r - 1) + ['d1']
        sh = {1: [1], 2: [1], 3: [f'a{r - 1}', 'd1'], 4: [1], 5: [1], 6: [1], 7: [1]}
        yield PC('QLinearMatMul', [r] + [None] * 7, P(y) + f'*a{r - 1}', out=y, shapes=sh, static=(3,))
    sh = {1: [1], 2: [1], 3: ['d0', 'a1', 'd2'], 4: [1], 5: [1], 6: [1], 7: [1]}
    yield PC('QLinearMatMul', [2] + [None] * 7, 'd0*a0*d2*a1', out=['d0', 'a0', 'd2'], shapes=sh, static=(3,))
    # convolutions
    for sp in (1, 2, 3):
        r = sp + 2
        k = [f'k{i}' for i in range(sp)]
        w = dims(1, r)
        y = ['a0', 'b0'] + [f'y{i + 2}' for i in range(sp)]
        for g in (None, 1, 2):
            at = {'group': g} if g is not None else {}
            for b in (0, 1):
                yield PC('Conv', [r, r] + [None] * b, P(y) + '*' + P(w[1:]) + (' + ' + P(y) if b else ''), out=y, shapes={2: ['b0']} if b else {}, static=(1, 2)[:1 + b], attrs=at)
        for n in (2, 3, 4):
            yield PC('ConvInteger', [r, r] + [None] * (n - 2), P(y) + '*' + P(w[1:]), out=y, shapes={i: [1] for i in range(2, n)}, static=(1,))
        w3 = dims(3, r)
        y3 = ['a0', 'd0'] + [f'y{i + 2}' for i in range(sp)]
        for n in (8, 9):
            sh = {i: [1] for i in (1, 2, 4, 5, 6, 7)}
            sh[8] = ['d0']
            sh = {i: v for i, v in sh.items() if i < n}
            yield PC('QLinearConv', [r if i == 0 else r if i == 3 else None for i in range(n)], P(y3) + '*' + P(w3[1:]) + (' + ' + P(y3) if n == 9 else ''), out=y3, shapes=sh, static=(3,) if n == 8 else (3, 8))
        # transposed: each input element meets the whole kernel of its group
        for b in (0, 1):
            yt = ['a0', 'b1'] + [f'y{i + 2}' for i in range(sp)]
            one = P(yt) + '*' + P(['a1'] + w[2:])
            two = P(dims(0, r)) + '*' + P(w[1:])
            bias = ' + ' + P(yt) if b else ''
            yield PC('ConvTranspose', [r, r] + [None] * b, {one + bias, two + bias}, out=yt, shapes={1: ['a1'] + w[1:], **({2: ['b1']} if b else {})} , static=(1, 2)[:1 + b],
                     attrs={'kernel_shape': [3] * sp}, note='weights [Cin, Cout, kernel]')
        for g in (2, 3):
            yt = ['a0', f'{g}*b1'] + [f'y{i + 2}' for i in range(sp)]
            sh = {0: ['a0', f'{g}*a1'] + dims(0, r)[2:], 1: [f'{g}*a1'] + w[1:]}
            yield PC('ConvTranspose', [None, None], {P(yt) + '*' + P(['a1'] + w[2:]), P(sh[0]) + '*' + P(w[1:])}, out=yt, shapes=sh, static=(1,), attrs={'group': g, 'kernel_shape': [3] * sp})
        # pooling
        for op in ('MaxPool', 'AveragePool'):
            y = ['a0', 'a1'] + [f'y{i + 2}' for i in range(sp)]
            ks = [3, 5, 7][:sp]
            yield PC(op, [r], P(y) + '*' + P(ks), out=y, attrs={'kernel_shape': ks})


def others():
    yield PC('Resize', [4, None, None, None], '0', out=['y0', 'y1', 'y2', 'y3'], shapes={1: [1], 2: [1], 3: [4]}, attrs={'mode': b'nearest'})
    yield PC('Resize', [4, None, None, None], '4*' + P(['y0', 'y1', 'y2', 'y3']), out=['y0', 'y1', 'y2', 'y3'], shapes={1: [1], 2: [1], 3: [4]}, attrs={'mode': b'linear'})
    yield PC('Resize', [4, None, None, None], '8*' + P(['y0', 'y1', 'y2', 'y3']), out=['y0', 'y1', 'y2', 'y3'], shapes={1: [1], 2: [1], 3: [4]}, attrs={'mode': b'cubic'})
    # recurrent: x [seq, batch, in], W [dir, G*h, in], R [dir, G*h, h], B [dir, 2*G*h]
    for op, gates, act in (('LSTM', 4, 4 + 3 * 32 + 2 * 38 + 4), ('GRU', 3, 3 + 2 * 32 + 38 + 5)):
        for nin in (3, 4):
            w = ['b0', f'{gates}*c2', 'a2']
            rr = ['b0', f'{gates}*c2', 'c2']
            b = ['b0', f'{2 * gates}*c2']
            m = f'({P(w)} + {P(rr)})*a0*a1 + {act}*a0*a1*c2'
            if nin == 4:
                m += f' + {P(b)}*a0*a1'
            yield PC(op, [3] + [None] * (nin - 1), m, shapes={1: w, 2: rr, 3: b} if nin == 4 else {1: w, 2: rr}, outs=[['a0', 'b0', 'a1', 'c2'], ['b0', 'a1', 'c2']], static=(1, 2, 3)[:nin - 1])
    sd = {'head_num': 16, 'kv_head_num': 4, 'head_size': 64}
    for op in ('SDPA', 'GQA', 'MQA'):
        yield PC(op, [3, 3, 3], 'a0*16*a1*a1*64*2 + a0*16*a1*a1*36', attrs=sd)
    yield PC('Gather', [2, 2], '0', shapes={0: ['a0', 'a1']}, out=['b0', 'b1', 'a1'], static=(0,), st='b0*b1*a1', attrs={'axis': 0})
    yield PC('Gather', [2, 1], '0', out=['b0', 'a1'], static=(0,), st='b0*a1')
    h = dict(hidden_size=24, num_q_heads=3, num_v_heads=5, qk_head_dim=7, v_head_dim=11, conv_kernel=4)
    H, Nq, Nv, D, Dv, K = 24, 3, 5, 7, 11, 4
    yield PC('GDN', [3, 3, 3], f'a0*a1*({2 * H * Nq * D + H * Nv * Dv + 2 * Nq * D + 2 * Nq * D * K + H * 33 + Nv * Dv * H}) + a0*a1*a1*({Nq * D + Nv * Dv})', attrs=h, io=f'a0*a1*{2 * H}')
    for ng in (False, True):
        for ne in (False, True):
            H, I, SI, E, k = 24, 7, 5, 16, 3
            at = dict(hidden_size=H, moe_intermediate_size=I, shared_expert_intermediate_size=SI, num_experts=E, num_experts_per_tok=k, no_shared_gate=ng, no_shared_expert=ne)
            per = H * E + k * (3 * H * I + I * 34) + (0 if ne else 3 * H * SI + SI * 34) + (0 if ng else H * 33) + H
            sh = 0 if ne else 3 * SI * H
            for B, S, act in ((1, 2, 6), (2, 3, 16)):
                yield PC('MoE', [None], f'{B * S * per}', shapes={0: [B, S, H]}, attrs=at, io=f'{2 * B * S * H}', st=f'{H * E + act * 3 * I * H + sh}')
            yield PC('MoE', [3], f'a0*a1*{per}', attrs=at, io=f'a0*a1*{2 * H}', st={f'{H * E + E * 3 * I * H + sh}', f'{H * E + sh} + a0*a1*{k * 3 * I * H}'})
    D, N, H, Qr, Or, G, Rd, W, IN, ID, IT = 20, 4, 6, 3, 5, 2, 2, 8, 3, 7, 9
    base = dict(dim=D, n_heads=N, head_dim=H, q_lora_rank=Qr, o_lora_rank=Or, o_groups=G, rope_head_dim=Rd, window_size=W, index_n_heads=IN, index_head_dim=ID, index_topk=IT)
    proj = D * Qr + Qr * 32 + Qr * N * H + N * H * 31 + D * H + H * 32 + 80 * Rd * (N + 1) + N * H * Or + G * Or * D
    st = f'{D * Qr + Qr + Qr * N * H + D * H + H + Or * N * H + D * G * Or}'
    yield PC('MLA', [3], f'a0*a1*({proj} + a1*({2 * N * H + N * 36}))', attrs=dict(base, compress_ratio=0), io=f'a0*a1*{2 * D}', st=st)
    for S, CR in ((6, 2), (20, 2), (4, 4)):
        C = S // CR
        comp = S * D * H + C * CR * H * 38 + C * H * 32 + C * Rd * 80
        if CR == 4:
            comp += 2 * S * D * ID + C * CR * ID * 38 + C * ID * 32 + C * Rd * 80 + S * Qr * IN * ID + IN * S * Rd * 80 + IN * S * ID * C + S * IN * C * 2 + S * D * IN
        kv = min(W, S) + C + min(IT, C)
        yield PC('MLA', [None], f'a0*({S * proj + comp + S * kv * (2 * N * H + N * 36)})', shapes={0: ['a0', S, 'a2']}, attrs=dict(base, compress_ratio=CR), io=f'a0*{S * 2 * D}', st=st)
    half = ['b0', 'b1', 'b2', 'b3']
    for r in (3,):
        yield PC('Rope', [r], '80*' + P(dims(0, r)))
        yield PC('Rope', [None, None, None], '80*a0*4*a2', shapes={0: ['a0', 4, 'a2'], 1: [1, 1, 64, 'b3'], 2: [1, 1, 64, 'c3']}, static=(1, 2), st='4*b3 + 4*c3')
        yield PC('Rope', [None, None, None], '80*a0*80*a2', shapes={0: ['a0', 80, 'a2'], 1: [1, 1, 64, 'b3'], 2: [1, 1, 64, 'c3']}, static=(1, 2), st='64*b3 + 64*c3')


def want(e):
    return [F.canon(F.parse(x)) for x in (e if isinstance(e, set) else [e])]


def compare(t, e):
    ws = want(e)
    d = F.canon(t)
    if d in ws or any(F.equal(d, x) for x in ws):
        return 'ok', d
    return ('bad' if F.decided(d) else 'undecided'), d


def check(ctx):
    n, ops = 0, set()
    allcases = [c for g in (elementwise, reductions, products, others) for c in g()]
    for pc in allcases:
        c, r = execute(pc.case)
        if c is None:
            continue
        n += 1
        ops.add(pc.op)
        m = c.find_method('_profile_core') if c.find_method('profile').cls.name == 'Node' else c.find_method('profile')
        ctx.seen(f'{m.cls.name}.{m.name}')
        w = (m.module.path, m.node.lineno) if hasattr(m, 'module') else sweep.where(c, 'profile')
        what = f'{pc.op} ({pc.tag()})'
        key = f'{pc.op} profile {pc.tag()}'
        if r.state is None:
            ctx.fail(key + ' never', f'{what}: profiling never returns normally', w)
            continue
        ts = r.I.terms_of(r.ret, r.state, 64)
        und, bad = None, None
        for t in ts:
            if t[0] not in ('list', 'tuple'):
                und = f'the result is {T.show(t)[:120]}'
                continue
            if len(t[1]) != 3:
                bad = ('arity', f'{len(t[1])} figures instead of 3')
                continue
            for nm, x, e in zip(('MAC count', 'activation count', 'weight count'), t[1], (pc.macs, pc.io, pc.st)):
                v, d = compare(x, e)
                if v == 'bad':
                    bad = (nm, f'the {nm} is {T.show(d)[:300]} instead of {" or ".join(T.show(z)[:300] for z in want(e))}')
                elif v == 'undecided':
                    und = f'the {nm} is {T.show(d)[:200]}'
        if bad:
            ctx.fail(f'{key} {bad[0]}', f'{what}: {bad[1]}', w)
        elif und or not ts:
            ctx.undecided(f'{what}: {und}', w)
        else:
            ctx.ok(f'{what}: {" or ".join(sorted(pc.macs)) if isinstance(pc.macs, set) else pc.macs}')
    ctx.count('configurations', n)
    ctx.floor('operators with a configuration', len(ops), max(1, int(0.7 * len({p.op for p in allcases}))))

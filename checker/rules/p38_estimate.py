"""P38: the memory and latency figures of a language model follow the element sizes and rates they were asked for."""
import ast
from .. import graphsem as gs, terms as T
from ..absint import V
from ..probe import P, c, compare, number, plain

TITLE = 'Projected memory and latency follow the configuration and the device'
TECHNIQUE = ('abstract interpretation of Builder.profile over the operator classes, configurations and devices it distinguishes; the derived expressions of every figure are compared with the '
             'specified ones at generic points on both sides of every comparison')
EXPLANATION = ('For every operator class, with and without a device, with one and several linked devices, with rates given or left to FP32, the operations, memory, compute, transfer and synchronisation '
               'times, the total and the bottleneck of each operator and the totals per weight class are derived as expressions of the operator\'s counts, the bits and the rates, and compared with the '
               'stated hardware model.')
LEVEL = 'bounded'
OPS = ['MatMul', 'SDPA', 'MoE', 'MLA', 'GDN', 'Gather', 'LayerNormalization', 'Add', 'Rope']
DENSE = {'MatMul', 'MoE', 'MLA', 'GDN'}
FIELDS = ['macs', 'io_params', 'static_params', 'kv_size']
CFG = {'Compute': {'MM': 'CM', 'MHA': 'CA', 'Others': 'CO'}, 'Bits': {'MM': 4, 'MHA': 16, 'Others': 32}}
OTHER = {'Compute': {'MM': 'CO', 'MHA': 'CM', 'Others': 'CA'}, 'Bits': {'MM': 2, 'MHA': 64, 'Others': 8}}
DEVS = [
    ('no device', None),
    ('every rate given', {'CM': 3001, 'CA': 2003, 'CO': 1009, 'FP32': 503, 'Bandwidth': 97}),
    ('no rate given', {'FP32': 503, 'Bandwidth': 97}),
    ('one rate given', {'CA': 2003, 'FP32': 503, 'Bandwidth': 97, 'Number': 4}),
    ('the other rates given', {'CM': 3001, 'CO': 1009, 'FP32': 503, 'Bandwidth': 97, 'LinkBandwidth': 13}),
    ('four linked devices', {'CM': 3001, 'CA': 2003, 'CO': 1009, 'FP32': 503, 'Bandwidth': 97, 'LinkBandwidth': 13, 'Number': 4}),
    ('one linked device', {'CM': 3001, 'CA': 2003, 'CO': 1009, 'FP32': 503, 'Bandwidth': 97, 'LinkBandwidth': 13, 'Number': 1}),
    ('devices without a link', {'CM': 3001, 'CA': 2003, 'CO': 1009, 'FP32': 503, 'Bandwidth': 97, 'LinkBandwidth': 0, 'Number': 4}),
]


def model(op, n, cfg, dev):
    """figures of one operator"""
    b = cfg['Bits']
    io = n['io_params'] * b['Others'] / 8
    kind = 'MM' if op in DENSE or op == 'Gather' else 'MHA' if op == 'SDPA' else 'Others'
    w = n['kv_size' if op == 'SDPA' else 'static_params'] * b[kind] / 8
    flops, mem = n['macs'] * 2, io + w
    r = {'FLOPs': flops, 'Memory': mem, 'kind': kind, 'weight': w, 'Device': None}
    if dev is not None:
        link = dev.get('LinkBandwidth', 0) * 1e9
        num = dev.get('Number', 1) if link else 1
        split = num if op in DENSE or op == 'SDPA' else 1
        rate = dev.get(cfg['Compute']['MM' if op in DENSE else 'MHA' if op == 'SDPA' else 'Others'], dev['FP32']) * 1e9
        c_, l_ = flops / rate / split, mem / (dev['Bandwidth'] * 1e9) / split
        s = io / link if num > 1 and (op in DENSE or op == 'SDPA') else 0
        r['Device'] = {'latency': [c_, l_, max(c_, l_) + s, s], 'Bottleneck': 'Compute' if c_ > l_ else 'Memory'}
    return r


def near(a, b):
    return isinstance(a, (int, float)) and not isinstance(a, bool) and abs(a - b) <= 1e-9 * max(abs(a), abs(b))


def value(t, leaf):
    if isinstance(t, (int, float)):
        return t
    v = number(t, leaf) if isinstance(t, tuple) else None
    return None if v is None else float(v)


def check(ctx):
    p = gs.program()
    B = p.cls('onnx_tool.llm', 'Builder') if 'onnx_tool.llm' in p.modules else None
    fi = B.find_method('profile') if B is not None else None
    if fi is None:
        return ctx.undecided('Builder.profile not found', 'onnx_tool/llm.py')
    ctx.seen(fi.where)
    ctx.rule('every operator: operations are twice its multiply-adds; memory is its activations at the size of Others plus its weights at the size of their class (matrix operators and embeddings MM, '
             'attention its cached keys and values at MHA, all else Others); compute time is operations over the rate of its class (FP32 when the device lacks it), transfer time memory over bandwidth, '
             'both divided by the number of linked devices for matrix operators and attention, which then also exchange their activations over the link; latency is the larger of both plus the exchange')
    for bound, scale in (('compute', 10 ** 7), ('memory', 101), ('exchange', 60000)):
        base = {}
        for i, op in enumerate(OPS):
            for j, f in enumerate(FIELDS):
                base[P(f'{op}.{f}')] = (scale if f == 'macs' else 101) * (7 + 3 * i + 5 * j) + 11 * i + j
        leaf = lambda t: base.get(t)
        for label, dev in DEVS:
            for multi in (False, True):
                one(ctx, B, fi, f'{label}, {bound} bound' + (', counts per pass' if multi else ''), dev, base, leaf, multi)
        for n in ast.walk(B.node):
            if isinstance(n, ast.Assign) and [ast.unparse(t) for t in n.targets] == ['DefaultCfg']:
                try:
                    cfg = ast.literal_eval(n.value)
                    dev = {'FP32': 503, 'Bandwidth': 97, cfg['Compute']['MM']: 3001}
                    cfg['Bits']['Others'], cfg['Bits']['MHA']
                except (ValueError, KeyError, TypeError):
                    continue
                one(ctx, B, fi, f'default configuration, {bound} bound', dev, base, leaf, False, cfg)


def one(ctx, B, fi, label, dev, base, leaf, multi, cfg=None):
    given, cfg = cfg is None, cfg or CFG
    over = [(T.attr(gs.SELF, 'graph'), 'nodemap', {c('n' + op): P('node:' + op) for op in OPS})]
    for op in OPS:
        q = P('node:' + op)
        over += [(q, 'op_type', c(op)), (q, 'name', c('n' + op))]
        for f in FIELDS:
            v = P(f'{op}.{f}')
            if f == 'macs' and multi:
                over.append((q, f, [v, P('other')]))
            else:
                over.append((q, f, v))

    over.append((gs.SELF, 'DefaultCfg', literal(OTHER if given else cfg)))

    def truth(t, st):
        if t[:2] == ('call', 'isinstance') and t[2][0] in base:
            ts = t[2][1:]
            return any(x in (('builtin', 'int'), ('builtin', 'float')) for x in ts)
        return compare(t, leaf) if t[0] == 'cmp' else None
    r = gs.run(B, 'profile', {'Config': literal(cfg) if given else V(T.NONE), 'Device': V(T.NONE) if dev is None else rk(dev)}, over=over,
               seconds=30, unroll=64, strict_keys=True, exact_try=True, set_items=True, track_guards=False, truth_hook=truth, summaries={'Graph.profile': lambda *a: V(T.NONE)},
               opaque=lambda f: f.qualname.startswith('Graph.') if hasattr(f, 'qualname') else False, nonnull=NonNull())

    def get(atom, name):
        v = r.state.over.get((atom, name)) if r.state is not None else None
        return plain(next(iter(v)), r.state) if v is not None and len(v) == 1 else None
    total, mems = [0.0, 0.0, 0.0], {'MM': 0.0, 'MHA': 0.0, 'Others': 0.0}
    for op in OPS:
        n = {f: base[P(f'{op}.{f}')] for f in FIELDS}
        want = model(op, n, cfg, dev)
        total[0] += want['FLOPs']
        total[1] += want['Memory']
        mems[want['kind']] += want['weight']
        total[2] += want['Device']['latency'][2] if dev is not None else 0
        got = get(P('node:' + op), 'llm_profile')
        if not isinstance(got, dict) or not {'FLOPs', 'Memory', 'Device'} <= set(got):
            ctx.undecided(f'{label}: the figures of {op} are not derived', fi.where)
            continue
        pairs = [('operations', got['FLOPs'], want['FLOPs']), ('memory', got['Memory'], want['Memory'])]
        d = got['Device']
        if (d is None) != (dev is None):
            ctx.fail('device', f'{label}: {op} has {"no " if d is None else ""}latency figures', fi.where)
            continue
        if dev is not None:
            if not isinstance(d, dict) or not isinstance(d.get('latency'), list) or len(d['latency']) != 4:
                ctx.undecided(f'{label}: the latencies of {op} are not derived', fi.where)
                continue
            pairs += list(zip(('compute time', 'transfer time', 'latency', 'exchange time'), d['latency'], want['Device']['latency']))
            if isinstance(d.get('Bottleneck'), str):
                if d['Bottleneck'] != want['Device']['Bottleneck']:
                    ctx.fail('bottleneck', f'{label}: the bottleneck of {op} is {d["Bottleneck"]}', fi.where)
                else:
                    ctx.ok(f'{label}: bottleneck of {op}')
            else:
                ctx.undecided(f'{label}: the bottleneck of {op} is not derived', fi.where)
        for what, g, w in pairs:
            judge(ctx, fi, what, f'{label}: {what} of {op}', g, w, leaf)
    t = get(gs.SELF, 'llm_profile')
    m = get(gs.SELF, 'context_mem')
    for what, got, want in (('total', t, total), ('weights', m, [mems['MM'], mems['MHA'], mems['Others'], sum(mems.values())])):
        if not isinstance(got, list) or len(got) != len(want):
            ctx.undecided(f'{label}: {what} not derived', fi.where)
            continue
        for i, (g, w) in enumerate(zip(got, want)):
            judge(ctx, fi, what, f'{label}: {what}[{i}]', g, w, leaf)


def judge(ctx, fi, key, text, g, w, leaf):
    v = value(g, leaf)
    if v is None:
        ctx.undecided(f'{text} is not derived', fi.where)
    elif not near(v, w):
        ctx.fail(key.replace(' ', '-'), f'{text} is {v:.6g}, not {w:.6g}', fi.where)
    else:
        ctx.ok(text)


def literal(cfg):
    return {c(k): {c(a): c(b) for a, b in v.items()} for k, v in cfg.items()}


def rk(d):
    return {c(k): c(v) for k, v in d.items()}


class NonNull:
    def __contains__(self, t):
        return t[0] in ('param', 'ref')

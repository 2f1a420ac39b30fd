"""P03: inferred element types are the ones the standard ties the output to."""
from .. import cases, sweep, dtypes
from .. import terms as T
from ..opsem import tout

TITLE = 'Inferred output element types follow the ONNX standard'
TECHNIQUE = 'abstract interpretation with an element-type lattice, compared against the type constraints of the ONNX operator schemas'
EXPLANATION = ('The element type each inference method gives each output is computed as a set of labels (type of input i, a fixed type, the type of an attribute or of the type '
               'an attribute names) by abstract interpretation of the method and a transfer function for numpy results; each label must be one the type variables of the ONNX '
               'schema (frozen extract of onnx.defs) allow for that output. Types the transfer functions cannot determine are reported undecided.')

# outputs whose type the schema ties to an attribute or to a default
ATTR = {
    'Cast': {0: [('npdtype', T.attr(('param', 'self'), 'to'))]},
    'RandomUniformLike': {0: [('npdtype', T.attr(('param', 'self'), 'dtype')), ('in', 0)]},
    'RandomNormalLike': {0: [('npdtype', T.attr(('param', 'self'), 'dtype')), ('in', 0)]},
    'ConstantOfShape': {0: [('attr', 'value'), ('np', 'float32')]},
    'Constant': {0: [('attr', 'value')]},
    'LayerNormalization': {k: [('np', 'float32'), ('npdtype', T.attr(('param', 'self'), 'stash_type'))] for k in (1, 2)},
    'DequantizeLinear': {0: [('in', 1), ('np', 'float32')]},
}
NPOF = {'tensor(bool)': 'bool_', 'tensor(int64)': 'int64', 'tensor(int32)': 'int32', 'tensor(uint8)': 'uint8', 'tensor(float)': 'float32', 'tensor(int8)': 'int8'}
ABSENT = {'QuantizeLinear': ('np', 'uint8'), 'DynamicQuantizeLinear': ('np', 'uint8')}
SKIP = {'ZipMap', 'ArrayFeatureExtractor', 'CategoryMapper', 'Scan', 'Loop', 'If'}
RAWTYPES = {'int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32'}


def expected(op, k, nin):
    """allowed labels, or None when the standard leaves it open; second: the type variable"""
    if op in SKIP:
        return None
    e = cases.latest(op)
    if op in ATTR and k in ATTR[op]:
        return set(ATTR[op][k])
    if e is None:
        return {('in', 0)}
    outs = e['outputs']
    o = outs[k] if k < len(outs) else outs[-1]
    if k >= len(outs) and o['option'] != 'Variadic':
        return None
    t = o['type']
    if t in NPOF:
        return {('np', NPOF[t])}
    allowed = set()
    known = e['types'].get(t)
    for i in range(nin):
        ins = e['inputs']
        x = ins[i] if i < len(ins) else (ins[-1] if ins and ins[-1]['option'] == 'Variadic' else None)
        if x is not None and x['type'] == t:
            allowed.add(('in', i))
    if known and len(known) == 1 and known[0] in NPOF:
        allowed.add(('np', NPOF[known[0]]))
    if not allowed and op in ABSENT:
        allowed.add(ABSENT[op])
    return allowed or None


def promotable(op, k):
    """the output's type variable admits a narrow integer type, which numpy's reductions would widen"""
    e = cases.latest(op)
    if e is None:
        return False
    outs = e['outputs']
    t = (outs[k] if k < len(outs) else outs[-1])['type']
    ts = e['types'].get(t) or []
    return any(x[7:-1] in RAWTYPES for x in ts)


def show(l):
    if l[0] == 'in':
        return f'type of input {l[1]}'
    if l[0] == 'promoted':
        return f'type of input {l[1]} widened by numpy'
    if l[0] == 'np':
        return l[1]
    if l[0] == 'attr':
        return f'type of attribute {l[1]}'
    return f'type named by {T.show(l[1])}'


def check(ctx):
    ctx.rule('every label of an inferred element type is one the schema\'s type variables tie that output to')
    s = sweep.sem()
    classes = set()
    n = 0
    for op, c, m, nin, nout, mode, r in sweep.runs():
        if r.state is None:
            continue
        n += 1
        for k in range(nout):
            ts = s.S.fact_terms(r, tout(k), 'dtype')
            if ts is None:
                continue
            exp = expected(op, k, nin)
            if exp is None:
                continue
            if op == 'RandomUniformLike' or op == 'RandomNormalLike':
                if mode == 'absent':
                    exp = {('in', 0)}
                elif mode == 'given':
                    exp = {ATTR[op][0][0]}
            if op == 'ConstantOfShape' and mode != 'open':
                exp = {('np', 'float32')} if mode == 'absent' else {('attr', 'value')}
            classes.add(c.name)
            ctx.seen(f'{c.name}.{m}')
            for t in ts:
                ls = dtypes.of_dtype(t)
                if ls == set():
                    continue
                if ls is None:
                    ctx.undecided(f'{op}.{m} out{k}: {T.show(t)[:160]}', sweep.where(c, m))
                    continue
                if t[0] == 'call' and t[1] == 'dtypeof' and op not in cases.schema() and ls != {('in', 0)}:
                    continue
                for l in sorted(ls, key=repr):
                    ok = l in exp or (l[0] == 'np' and _same(l, exp)) or (l[0] == 'promoted' and ('in', l[1]) in exp and not promotable(op, k))
                    if ok:
                        ctx.ok(f'{op}.{m} nin={nin} out{k}: {show(l)}')
                    else:
                        ctx.fail(f'{op}.{m} out{k} {show(l)}',
                                 f'{op}.{m} ({nin} inputs) gives output {k} the {show(l)}; the standard ties it to {", ".join(show(x) for x in sorted(exp, key=repr))}',
                                 sweep.where(c, m))
    ctx.floor('operator classes analysed', len(classes), 60)
    ctx.count('configurations judged', n)
    ctx.assume('numpy result types: elementwise functions and data movement keep the element type, comparisons give bool, index functions give int64, '
               'sum/prod/cumsum/mean widen narrow integers unless cast')


def _same(l, exp):
    return any(x[0] == 'np' and x[1] == l[1] for x in exp)

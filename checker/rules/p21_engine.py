"""P21: every inference of the runtime computes with the views, shapes and inputs of that inference, each operator once and in order."""
import itertools

from .. import engine as E, graphsem as gs, probe, runtime as R, terms as T
from ..probe import P, c, plain, tup

TITLE = 'The runtime never computes with shapes or views of an earlier input'
TECHNIQUE = ('abstract interpretation of the inference engine on tensors that are places, element types and shapes, with the graph library, the shape engine and the kernels '
             'replaced by their contracts; every kernel invocation, input copy and returned output of enumerated histories of inferences is derived and compared with what the current inputs demand')
EXPLANATION = ('Small models covering every kind of operand (planned activations, weights embedded or loaded from a file, prepared weights, unplanned inputs, omitted operands, outputs '
               'used inside, outputs that are weights or inputs, narrow element types, a key/value cache, shapes known only to the graph) are run abstractly through histories of inferences: '
               'repeated and changing shapes, several inputs with their own variables, failures of kernels, copies and shape updates between them.')
LEVEL = 'bounded'
INFER = 'inference.infer'

Net = E.Net
NETS = [
    Net('a chain', ['x'], {'n': (1, 8)}, [('A', 'Prep', ['x', 'w'], ['h']), ('B', 'Add', ['h', 'b'], ['y'])],
        {'x': ['n', 4], 'w': [4, 5], 'h': ['n', 5], 'b': [5], 'y': ['n', 5]}, ['y'], consts={'w': 1, 'b': 1}),
    Net('two inputs with their own variables', ['x', 'z'], {'n': (1, 8), 'm': (1, 6)}, [('A', 'Neg', ['x'], ['h']), ('B', 'Outer', ['h', 'z'], ['y']), ('C', 'Abs', ['z'], ['q'])],
        {'x': ['n', 4], 'z': [4, 'm'], 'h': ['n', 4], 'y': ['n', 'm'], 'q': [4, 'm']}, ['y', 'q']),
    Net('two inputs of one rank, one fixed', ['s', 'x'], {'n': (1, 8)}, [('A', 'Neg', ['x'], ['h']), ('B', 'Mul', ['h', 's'], ['y'])],
        {'s': [1, 4], 'x': ['n', 4], 'h': ['n', 4], 'y': ['n', 4]}, ['y']),
    Net('a shape that is computed from the input shape', ['x'], {'n': (1, 8)}, [('A', 'Up', ['x'], ['h']), ('B', 'Down', ['h'], ['y']), ('C', 'Add', ['y', 'x'], ['o'])],
        {'x': [1, 'n'], 'h': [1, 'k'], 'y': [1, 'n'], 'o': [1, 'n']}, ['o', 'h'], derived={'k': ('n', 3)}),
    Net('an input outside the plan', ['x', 'past'], {'n': (1, 8)}, [('A', 'Rope', ['x', 'past', 'cos'], ['h']), ('B', 'Neg', ['h'], ['y']), ('C', 'Rot', ['y', 'past'], ['o'])],
        {'x': ['n', 4], 'past': [], 'cos': [16, 4], 'h': ['n', 4], 'y': ['n', 4], 'o': ['n', 4]}, ['o'], consts={'cos': 1}),
    Net('outputs of every kind', ['x', 'past'], {'n': (1, 8)}, [('A', 'Neg', ['x'], ['h']), ('B', 'Abs', ['h'], ['y'])],
        {'x': ['n', 4], 'past': [], 'w': [2, 2], 'h': ['n', 4], 'y': ['n', 4]}, ['h', 'w', 'y', 'x', 'past'], consts={'w': 1}),
    Net('element types narrower and wider than the engine\'s', ['x', 'i'], {'n': (1, 8)}, [('A', 'Greater', ['x', 'i'], ['m']), ('B', 'Not', ['m'], ['k']), ('C', 'Where', ['k', 'x', 'i'], ['y'])],
        {'x': ['n', 4], 'i': ['n', 4], 'm': ['n', 4], 'k': ['n', 4], 'y': ['n', 4]}, ['y'], dtypes={'m': 'bool', 'k': 'uint8', 'i': 'int64'}),
    Net('a shape the shape engine does not know', ['x'], {'n': (1, 8)}, [('A', 'Pool', ['x'], ['g']), ('B', 'Neg', ['x'], ['h']), ('C', 'Mul', ['h', 'g'], ['y'])],
        {'x': ['n', 4], 'g': [1, 4], 'h': ['n', 4], 'y': ['n', 4]}, ['y', 'g'], unknown=('g',)),
    Net('several results and omitted operands', ['x'], {'n': (1, 8)}, [('A', 'Split', ['x'], ['a', 'b']), ('B', 'Clip', ['a', '', 'hi'], ['d']), ('C', 'Add', ['d', 'b'], ['y']), ('D', 'Mul', ['y', 'y'], ['o'])],
        {'x': ['n', 4], 'a': ['n', 2], 'b': ['n', 2], 'hi': [], 'd': ['n', 2], 'y': ['n', 2], 'o': ['n', 2]}, ['o', 'b'], consts={'hi': 1}),
    Net('weights of a matrix product', ['x'], {'n': (1, 8)}, [('A', 'MatMul', ['x', 'w'], ['h']), ('B', 'Gemm', ['h', 'v', 'b'], ['y']), ('C', 'MatMul', ['y', 'u'], ['o'])],
        {'x': ['n', 4], 'w': [4, 5], 'h': ['n', 5], 'v': [5, 5], 'b': [5], 'y': ['n', 5], 'u': [5, 5], 'o': ['n', 5]}, ['o'], consts={'w': 1, 'v': 1, 'b': 1, 'u': 1}),
    Net('one operator type several times', ['x'], {'n': (1, 8)}, [('A', 'Neg', ['x'], ['a']), ('B', 'Neg', ['a'], ['b']), ('C', 'Add', ['a', 'b'], ['d']), ('D', 'Neg', ['d'], ['e']), ('F', 'Add', ['e', 'x'], ['y'])],
        {'x': ['n', 4], 'a': ['n', 4], 'b': ['n', 4], 'd': ['n', 4], 'e': ['n', 4], 'y': ['n', 4]}, ['y', 'b']),
    Net('a key/value cache', ['x', 'past', 'kv_cache'], {'n': (1, 8)}, [('A', 'Proj', ['x', 'w'], ['h']), ('B', 'Attn', ['h', 'kv_cache', 'past'], ['y']), ('C', 'Neg', ['y'], ['o'])],
        {'x': ['n', 4], 'past': [], 'kv_cache': [2, 16, 4], 'w': [4, 4], 'h': ['n', 4], 'y': ['n', 4], 'o': ['n', 4]}, ['o'], consts={'w': 1}),
]


def source(net, history):
    """a caller running the history; every step is (inputs as variable values, ...)"""
    body = []
    for i, step in enumerate(history):
        call = 'e.forward({' + ', '.join(f'"{k}": v{i}_{j}' for j, k in enumerate(net.inputs) if k not in step.get('omit', ())) + '}' + step.get('extra', '') + ')'
        if step.get('fails'):
            body.append(f'    host.mark({i})\n    try:\n        r{i} = {call}\n    except RuntimeError as err:\n        r{i} = None')
        else:
            body.append(f'    host.mark({i})\n    r{i} = {call}')
    params = ', '.join(f'v{i}_{j}' for i in range(len(history)) for j in range(len(net.inputs)))
    return (f'def main(desc, rng, host, dt, st, wm, {params}):\n    e = GraphInfer("m", desc, rng, dt, "cpu", st, wm)\n' + '\n'.join(body) +
            '\n    return [' + ', '.join(f'r{i}' for i in range(len(history))) + ']\n')


def base(buf):
    """the buffer a value was made from, what was done on the way"""
    done = []
    while isinstance(buf, tuple) and buf[0] in ('moved', 'prepared', 'transposed'):
        if buf[0] != 'moved':
            done.append(buf[0])
        buf = buf[1]
    return buf, tuple(sorted(done))


class Steps:
    """what every inference of a history has to do"""

    def __init__(self, net, w, history, elem):
        self.net, self.w, self.h, self.elem = net, w, history, elem

    def planned(self, t):
        return t in self.w.plan or t in self.w.kvplan

    def view(self, t, vs):
        sh = self.net.shape(t, vs)
        off = (self.w.kvplan.get(t) or self.w.plan.get(t))[0]
        return off, R.numel(sh) * self.elem, sh


def show(m):
    return 'nothing' if m is None else f'{base(m.buf)[0]} bytes {m.start}..{m.start + m.nbytes} as {list(m.shape)}'


def compare(s, t, m, step, i, consumer_op):
    """None when the operand is right, otherwise what is wrong; 'undecided' when not known"""
    net = s.net
    if t == '':
        return None if m is None else 'undecided' if not isinstance(m, R.Meta) else f'an omitted operand is given {show(m)}'
    if m is not None and not isinstance(m, R.Meta):
        return 'undecided'
    if m is None:
        return f'{t} is missing'
    b, done = base(m.buf)
    if s.planned(t):
        off, n, sh = s.view(t, step['vars'])
        kind, other = ('kv', 'main') if t in s.w.kvplan else ('main', 'kv')
        if not str(b).startswith(('in', 'const:', 'file:')) and s.w.pools.get(other) != b:
            s.w.pools.setdefault(kind, b)
        if b != s.w.pools.get(kind):
            return f'{t} is {show(m)}, not in its memory pool'
        if m.start != off or m.nbytes != n or list(m.shape) != sh:
            return f'{t} is bytes {m.start}..{m.start + m.nbytes} as {list(m.shape)} instead of bytes {off}..{off + n} as {sh}'
        if m.dtype != s.w.engine_dtype:
            return f'{t} is read as {m.dtype}'
        return None
    if t in net.consts:
        origin = s.w.loaded.get(t, f'const:{t}')
        if b != origin:
            return f'{t} is {show(m)} instead of the weight {origin}'
        want = ['prepared'] if s.w.first_consumer(t) == 'Prep' else []
        if origin != f'const:{t}' and s.w.first_consumer(t) == 'MatMul' and len(net.shapes[t]) == 2:
            want.append('transposed')
        if done != tuple(sorted(want)):
            return f'the weight {t} of {s.w.first_consumer(t)} is {" and ".join(done) or "used as stored"} instead of {" and ".join(want) or "used as stored"}'
        if m.dtype != s.w.engine_dtype:
            return f'the weight {t} is given as {m.dtype}'
        return None
    if b != f'in{i}:{t}':
        return f'{t} is {show(m)} instead of the input given to this inference'
    return None


def walk(ctx, net, w, r, history, key, where):
    elem = R.SIZES[w.engine_dtype]
    s = Steps(net, w, history, elem)
    text0 = f'{net.label}, {key}'
    if r.state is None:
        ctx.fail(f'raises:{net.label}:{key}', f'{text0}: an inference that has to succeed fails', where)
        return
    res = plain(R.one(r.value) or T.TOP, r.state)
    if not isinstance(res, list) or len(res) != len(history):
        ctx.undecided(f'{text0}: {str(res)[:100]}', where)
        return
    seg, cur = {}, None
    for l in w.log:
        if l[0] == 'mark':
            cur = l[1]
            seg[cur] = []
        elif cur is not None:
            seg[cur].append(l)
    for i, step in enumerate(history):
        text = f'{text0}: inference {i + 1}'
        if step.get('fails'):
            if not w.plan or isinstance(res[i], tuple):
                ctx.undecided(f'{text}: {str(res[i])[:60]}', where)
            elif step['fails'] == 'must' and res[i] is not None:
                ctx.fail(f'accepted:{net.label}:{key}', f'{text} must be refused: {step["why"]}', where)
            else:
                ctx.ok()
            continue
        if i not in seg or not isinstance(res[i], dict):
            ctx.undecided(f'{text}: {str(res[i])[:80]}', where)
            continue
        wrong = segment(s, step, i, seg[i], res[i])
        if wrong is None:
            ctx.ok(f'{text}: {len(net.nodes)} operators, {len(net.outputs)} outputs')
        elif wrong[0] == 'undecided':
            ctx.undecided(f'{text}: {wrong[1]}', where)
        else:
            ctx.fail(f'{wrong[0]}:{net.label}:{key}', f'{text}: {wrong[1]}', where)
            return


def segment(s, step, i, log, res):
    net = s.net
    runs = [l for l in log if l[0] == 'run']
    if any(not isinstance(l[4], tuple) for l in runs):
        return 'undecided', 'attributes of an operator'
    order = [l[4][1].split(':', 1)[1] if l[4][0] == 'param' and l[4][1].startswith('attrs:') else None for l in runs]
    names = [n[0] for n in net.nodes]
    if None in order:
        return 'undecided', 'attributes of an operator'
    if order != names:
        return 'order', f'the operators run are {order} instead of {names}'
    for l, (nm, op, ii, oo) in zip(runs, net.nodes):
        if l[1] != op:
            return 'kernel', f'{nm} ({op}) is run by the kernel of {l[1]}'
        for kind, have, want in (('operands', l[2], ii), ('results', l[3], oo)):
            if have is None:
                return 'undecided', f'{kind} of {nm}'
            if len(have) != len(want):
                return kind, f'{nm} gets {len(have)} {kind} instead of {len(want)}'
            for t, m in zip(want, have):
                e = compare(s, t, m, step, i, op)
                if e == 'undecided':
                    return 'undecided', f'{kind} of {nm}: {str(m)[:80]}'
                if e:
                    return kind, f'{kind} of {nm} ({op}): {e}'
    first = next((k for k, l in enumerate(log) if l[0] == 'run'), len(log))
    for t in net.inputs:
        if not s.planned(t) or t in step.get('omit', ()):
            continue
        got = [(k, l) for k, l in enumerate(log) if l[0] == 'copy' and l[2] is not None and base(l[2].buf)[0] == f'in{i}:{t}']
        if not got and any(l[0] == 'copy' and l[2] is None for l in log):
            return 'undecided', f'copy of {t}'
        if not got:
            return 'input', f'the input {t} is not copied into the pool'
        for k, l in got:
            if k > first:
                return 'input', f'the input {t} is copied after operators have run'
            e = compare(s, t, l[1], step, i, 'copy')
            if e and e != 'undecided':
                return 'input', f'the input is copied to a wrong place: {e}'
    for t in net.outputs:
        if t not in res:
            return 'output', f'the output {t} is not returned'
        m = s.w.of(res[t]) if isinstance(res[t], tuple) else None
        if m is None:
            return 'undecided', f'output {t}: {str(res[t])[:60]}'
        if t in net.consts and s.w.first_consumer(t) is not None:
            continue
        e = compare(s, t, m, step, i, 'output')
        if e and e != 'undecided':
            return 'output', f'the output: {e}'
    return None


def args_of(net, history, dtype):
    a = {}
    for i, step in enumerate(history):
        for j, t in enumerate(net.inputs):
            sh = step.get('shapes', {}).get(t) or net.shape(t, step['vars'])
            a[f'v{i}_{j}'] = (lambda w, n=f'in{i}:{t}', s=sh: w.given(w.over, n, 'float32', s))
    return a


def drive(ctx, p, net, history, key, dtype='float32', prepare=None, load=None):
    where = INFER
    src = source(net, history)
    a = args_of(net, history, dtype)
    a['st'] = c('weights.safetensors') if load else T.NONE
    a['wm'] = {c(k): c(v) for k, v in (load or {}).get('map', {}).items()} if load else T.NONE
    try:
        def prep(w):
            w.load = load
            if prepare:
                prepare(w)
        w, r = E.drive(p, net, src, a, dtype, prep)
    except gs.TooLong:
        ctx.undecided(f'{net.label}, {key}: too long', where)
        return
    walk(ctx, net, w, r, history, key, where)


def steps(net, values, **kw):
    """a history giving every variable the listed values"""
    out = []
    for k, v in enumerate(values):
        vs = {x: (v if isinstance(v, int) else v[i]) for i, x in enumerate(net.ranges)}
        out.append({'vars': vs})
    return out


def histories(net):
    vs = list(net.ranges)
    if len(vs) == 1:
        out = [[3], [3, 3], [3, 5], [5, 3], [8, 1, 8], [3, 3, 5, 2, 5], [1, 1, 1], [8, 8, 3, 3, 8]]
    else:
        out = [[(3, 2)], [(3, 2), (3, 2)], [(3, 2), (3, 4)], [(3, 2), (5, 2)], [(3, 2), (2, 3)], [(8, 6), (1, 1), (8, 6)], [(3, 3), (3, 3), (5, 3), (5, 4)], [(4, 4), (2, 4), (2, 2), (4, 2), (4, 4)]]
    return out


def check_plain(ctx, p):
    ctx.rule('in every inference each operator runs once, in the order of the graph, on views of the planned place of its operands with the shapes the current inputs give, on the weights the model '
             'holds and on the inputs of this inference; every planned input is copied to its place first, and every output of the model is returned with its current shape')
    for net in NETS:
        for h in histories(net):
            drive(ctx, p, net, steps(net, h), ' then '.join(str(x) for x in h))
    for net in (NETS[0], NETS[4], NETS[6]):
        for dt in ('float16', 'float64'):
            drive(ctx, p, net, steps(net, [3, 5, 5, 3]), f'engine type {dt}', dt)
    for extra in (', debug=True', ', profile=True', ', True, True'):
        h = steps(NETS[0], [3, 3, 5])
        for s in h:
            s['extra'] = extra
        drive(ctx, p, NETS[0], h, 'with' + extra)
    kv = next(n for n in NETS if 'kv_cache' in n.inputs)
    h = steps(kv, [5, 1, 1, 3])
    for s in h[1:]:
        s['omit'] = ('kv_cache',)
    drive(ctx, p, kv, h, 'the cache given once')


def check_failures(ctx, p):
    ctx.rule('after an inference that failed (a kernel, an input that does not fit, the update of the shape engine), the next one computes with its own shapes and views as if the failed one had '
             'never been')
    for net in (NETS[0], NETS[1], NETS[3], NETS[10]):
        two = len(net.ranges) > 1
        ops = [n[1] for n in net.nodes]
        for op in ops if len(set(ops)) == len(ops) else ops[:1]:
            for vals, at in (([3, 5, 5], 1), ([3, 3, 3], 1), ([3, 5, 3], 1), ([3, 3], 0), ([3, 5], 0), ([3, 5, 5, 3, 5], 1)):
                h = steps(net, [(v, 2) if two else v for v in vals])
                h[at]['fails'] = 'may'
                h[at]['why'] = f'the kernel of {op} fails'
                occ = at * ops.count(op) + 1
                drive(ctx, p, net, h, f'{vals} with {op} failing in inference {at + 1}', prepare=lambda w, o=op, k=occ: setattr(w, 'fail', (o, k)))
        if net.ranges:
            for vals, at in (([3, 5, 5], 1), ([3, 5, 3], 1), ([3, 5, 4, 3], 1), ([3, 5], 0), ([3, 3], 0)):
                h = steps(net, [(v, 2) if two else v for v in vals])
                h[at]['fails'] = 'may'
                h[at]['why'] = 'the shape engine fails'
                drive(ctx, p, net, h, f'{vals} with the shape update of inference {at + 1} failing', prepare=lambda w, k=at + 1: setattr(w, 'engine_fail', k))
    net = NETS[1]
    for vals, at, bad in (([(3, 2), (5, 2), (5, 2)], 1, {'z': [99, 2]}), ([(3, 2), (5, 4), (5, 4), (3, 2)], 1, {'z': [99, 99]}), ([(3, 2), (5, 4), (3, 2)], 1, {'x': [99, 4]}), ([(3, 2), (3, 2)], 0, {'x': [50, 50]})):
        h = steps(net, vals)
        h[at].update(fails='must', why='an input is larger than its block', shapes=bad)
        drive(ctx, p, net, h, f'{vals} with {bad} in inference {at + 1}')
    for net, big in ((NETS[0], 9), (NETS[0], 100), (NETS[3], 9), (NETS[10], 40)):
        h = steps(net, [3, big, 3, 8])
        h[1].update(fails='must', why='the variable is beyond its range and the input does not fit')
        drive(ctx, p, net, h, f'{big} beyond the range')


def check_unsupported(ctx, p):
    ctx.rule('an operator without kernel makes the inference fail, it is never skipped')
    for op in ('Neg', 'Add'):
        net = NETS[10] if op == 'Neg' else NETS[0]
        h = steps(net, [3])
        h[0].update(fails='must', why=f'{op} has no kernel')
        drive(ctx, p, net, h, f'{op} without kernel', prepare=lambda w, o=op: w.nokernel.add(o))


def check_loaded(ctx, p):
    ctx.rule('weights loaded from a file replace those of the model, by their own name or the mapped one; two-dimensional weights of MatMul are transposed exactly when they come from the file')
    net = NETS[9]
    for label, load in (('all by name', {'names': {'w': [5, 4], 'v': [5, 5], 'b': [5], 'u': [5, 5]}, 'map': {}}),
                        ('by map', {'names': {'W1': [5, 4], 'V1': [5, 5]}, 'map': {'w': 'W1', 'v': 'V1'}}),
                        ('some', {'names': {'u': [5, 5]}, 'map': {'w': 'missing'}}), ('none', {'names': {'other': [3]}, 'map': {}})):
        drive(ctx, p, net, steps(net, [3, 5, 5]), f'weights from a file, {label}', load=load)


def check(ctx):
    p = gs.program(True)
    cls = p.cls(INFER, 'GraphInfer') if INFER in p.modules else None
    if cls is None:
        return ctx.undecided('no GraphInfer', INFER)
    ctx.seen(*[f.where for f in cls.methods.values()])
    check_plain(ctx, p)
    check_failures(ctx, p)
    check_unsupported(ctx, p)
    check_loaded(ctx, p)
    ctx.assume('the memory planner, the shape engine and the kernels keep their contracts (P18, P12, P20): they are replaced by them here')
    ctx.assume('the enumerated models and histories bound the exploration')

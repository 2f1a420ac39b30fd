"""P22: serialized files announce exactly what follows."""
import itertools

from .. import graphsem as gs, probe, terms as T
from ..absint import V, Obj
from ..probe import P, c, plain

TITLE = 'Serialized files announce exactly what follows'
TECHNIQUE = ('abstract interpretation of the writers with strings, numbers and arrays kept symbolic, over an enumeration of graph, shape-engine and plan shapes; the derived '
             'sequence of written fields is compared, field by field, with the record layout')
EXPLANATION = ('The fields written to each file (text, integer of a width, float, array bytes) are derived from the source for graphs with every attribute kind, empty and '
               'non-empty lists, every supported array type and rank; shape engines with literal and variable dimensions; memory plans. Counts, order, widths, terminators '
               'and tags must be those of the layout, nothing may be left out, and what cannot be written must be refused.')
LEVEL = 'bounded'
MOD = 'onnx_tool.serialization'
TAG = {'int': 0, 'float': 1, 'str': 2, 'fp16': 3, 'int8': 5, 'uint8': 6, 'int64': 9}
ANY = ('param', 'any tag')
ARR = {'numpy.float32': 1, 'numpy.float16': 3, 'numpy.int32': 0, 'numpy.int8': 5, 'numpy.uint8': 6, 'numpy.int64': 9}


class Raised(Exception):
    pass


def kind(t):
    if t[0] == 'param':
        return t[1].split(':')[0]
    if t[0] == 'const':
        return type(t[2]).__name__
    return None


def run(p, fname, args, over=(), seconds=10):
    """the fields written to the file, None when the source could not be followed, or 'raises'"""
    got = {'written': [], 'open': [], 'closed': 0, 'bad': None}

    def part(I, st, node, item):
        return V(I.new_ref(st, Obj('list', [V(item)], node=node), node))

    def pack(I, path, a, kw, st, fr, node):
        fmt = plain(next(iter(a[0])), st) if a and len(a[0]) == 1 else None
        if not isinstance(fmt, str) or len(a) != 2 or len(a[1]) != 1:
            got['bad'] = 'struct.pack'
            return NotImplemented
        f = fmt.lstrip('<=@')
        v = I.one(a[1], st)
        w = {'f': ('f', 4), 'd': ('f', 8), 'i': ('i', 4), 'q': ('i', 8), 'h': ('i', 2), 'b': ('i', 1), 'l': ('i', 4 if fmt[0] in '<=' else 8),
             'I': ('u', 4), 'Q': ('u', 8), 'B': ('u', 1), 'H': ('u', 2)}.get(f)
        if w is None or fmt[0] in '>!':
            w = ('pack:' + fmt, 0)
        return part(I, st, node, ('field', w[0], c(w[1]), v))

    def to_bytes(I, recv, a, kw, st, fr, node):
        n = I.one(a[0], st) if a else (I.one(kw['length'], st) if 'length' in kw else c(1))
        o = I.one(a[1], st) if len(a) > 1 else (I.one(kw['byteorder'], st) if 'byteorder' in kw else c('big'))
        s = I.one(kw['signed'], st) if 'signed' in kw else c(False)
        v = I.one(V(recv), st)
        if o != c('little') or s not in (c(True), c(False)):
            return part(I, st, node, ('field', 'i' if o == c('little') else 'b', n, v) if o in (c('little'), c('big')) else ('field', 'other', n, v))
        return part(I, st, node, ('field', 'i' if s == c(True) else 'u', n, v))

    def bytes_(I, name, a, kw, st, fr, node):
        if len(a) >= 1 and len(a[0]) == 1:
            v = next(iter(a[0]))
            if v[0] == 'const' and isinstance(v[2], str):
                return part(I, st, node, ('field', 's', c(len(v[2])), v))
            if v[0] == 'const' and isinstance(v[2], int):
                return part(I, st, node, ('field', 's', v, c('\0' * v[2])))
            if v[0] == 'ref':
                return V(v)
        return NotImplemented

    def encode(I, recv, a, kw, st, fr, node):
        v = I.one(V(recv), st)
        if v[0] == 'const' and isinstance(v[2], str):
            return part(I, st, node, ('field', 's', c(len(v[2])), v))
        return NotImplemented

    def barr(I, name, a, kw, st, fr, node):
        if not a or a[0] == V(c(0)):
            return V(I.new_ref(st, Obj('list', [], node=node), node))
        if len(a[0]) == 1:
            v = next(iter(a[0]))
            if v[0] == 'ref':
                o = st.heap.get(v[1])
                if o is not None and o.items is not None:
                    return V(I.new_ref(st, Obj('list', list(o.items), node=node), node))
            if v[0] == 'const' and isinstance(v[2], bytes):
                return part(I, st, node, v)
        return NotImplemented

    def tobytes(I, recv, a, kw, st, fr, node):
        v = I.one(V(recv), st)
        return part(I, st, node, ('field', 'raw', c(0), v)) if not a and not kw else NotImplemented

    def open_(I, name, a, kw, st, fr, node):
        got['open'].append([I.one(x, st) for x in a] + [I.one(x, st) for x in kw.values()])
        return V(P('file'))

    def write(I, recv, a, kw, st, fr, node):
        got['written'].append(list(flatten(a[0], st)) if a and len(a[0]) == 1 else [('?',)])
        return V(T.NONE)

    def join(I, recv, a, kw, st, fr, node):
        r = V(recv)
        k = I.known_items(a[0], st) if a else None
        if r == V(c(b'')) and k is not None:
            items = []
            for x in k:
                if len(x) != 1:
                    return NotImplemented
                it = next(iter(x))
                o = st.heap.get(it[1]) if it[0] == 'ref' else None
                if o is not None and o.items is not None:
                    items += o.items
                else:
                    items.append(V(it))
            return V(I.new_ref(st, Obj('list', items, node=node), node))
        return NotImplemented

    def flatten(v, st):
        if len(v) != 1:
            yield ('?',)
            return
        x = next(iter(v))
        if x[0] == 'ref':
            o = st.heap.get(x[1])
            if o is None or o.items is None:
                yield ('?',)
                return
            for y in o.items:
                yield from flatten(y, st)
        elif x[0] == 'const' and isinstance(x[2], bytes):
            yield ('field', 's', c(len(x[2])), c(x[2].decode('latin1')))
        else:
            yield x

    def ndarr(I, path, a, kw, st, fr, node):
        v = I.one(a[0], st)
        return V(P('arr:' + v[1].split(':', 1)[1])) if v[0] == 'param' else NotImplemented

    def npnum(I, name, a, kw, st, fr, node):
        """int(x), float(x) of a symbolic number is that number"""
        v = I.one(a[0], st) if a else None
        return V(v) if v is not None and v[0] == 'param' and kind(v) in ('int', 'float', 'num') else NotImplemented

    def hook(t, st=None):
        if t[:2] == ('call', 'isinstance'):
            k = kind(t[2][0])
            names = []
            for x in t[2][1:]:
                names.append(x[1].rsplit('.', 1)[-1] if x[0] in ('builtin', 'ext') else x[2] if x[0] == 'const' else None)
            if k is None or None in names:
                return None
            is_ = {'int': {'int', 'Integral', 'Number'}, 'float': {'float', 'Number'}, 'str': {'str'}, 'bytes': {'bytes', 'bytearray'}, 'arr': {'ndarray'}, 'proto': {'TensorProto'},
                   'num': {'float', 'Number'}, 'strange': set(), 'bool': {'int', 'bool', 'Integral', 'Number'}}.get(k)
            if is_ is None:
                return None
            return bool(is_ & set(names))
        return None
    fi = p.modules[MOD].bind.get(fname)
    if fi is None:
        return None, got
    try:
        r = gs.run(None, fi, args, over, seconds=seconds, truth_hook=hook, set_items=True, summaries={
            'ext:struct.pack': pack, '.to_bytes': to_bytes, 'builtin:bytes': bytes_, '.encode': encode, 'builtin:bytearray': barr, '.tobytes': tobytes,
            'builtin:open': open_, '.write': write, 'ext:onnx.numpy_helper.to_array': ndarr, 'builtin:int': npnum, 'builtin:float': npnum, '.join': join})
    except gs.TooLong:
        return None, got
    if r is None:
        return None, got
    return r, got


def norm(fields):
    """adjacent text joined"""
    out = []
    for f in fields:
        if out and f[:2] == ('field', 's') and out[-1][:2] == ('field', 's'):
            out[-1] = ('field', 's', None, c(out[-1][3][2] + f[3][2]))
        elif f[:2] == ('field', 's'):
            out.append(('field', 's', None, f[3]))
        else:
            out.append(f)
    return [f for f in out if f[:2] != ('field', 's') or f[3][2]]


def txt(s):
    return [('field', 's', None, c(s + '\0'))]


def i(v, w=4):
    return [('field', 'i', c(w), v if isinstance(v, tuple) else c(v))]


def f4(v):
    return [('field', 'f', c(4), v)]


def show(f):
    if f is None:
        return 'nothing'
    if f[:1] != ('field',) or len(f) != 4:
        return T.show(f)[:60]
    w = {'s': 'text', 'i': 'integer', 'b': 'big-endian integer', 'u': 'unsigned integer', 'f': 'float', 'raw': 'bytes of'}.get(f[1], f[1])
    return f'{w}{"" if f[2] is None or f[2] == c(0) else f[2][2] if f[2][0] == "const" else "?"} {T.show(f[3])[:50]}'


def known(fields):
    return all(f[:1] == ('field',) and len(f) == 4 and (f[2] is None or f[2][0] == 'const') and not T.has_top(f[3]) and (f[3][0] in ('const', 'param') or f[3][:2] == ('call', 'len') and f[3][2][0][0] == 'param')
               and not f[1].startswith(('pack:', 'other')) for f in fields)


def arr(n, dt, rank, over):
    a = P('arr:' + n)
    dims = [P(f'int:{n}{k}') for k in range(rank)]
    over += [(a, 'dtype', ('ext', dt)), (a, 'shape', dims), (a, 'ndim', c(rank))]
    body = i(ARR[dt]) if dt in ARR else None
    if body is not None:
        body = body + i(rank) + [x for d in dims for x in i(d)] + [('field', 'raw', c(0), a)]
    return a, body


def shape_engine(names, descs, exprs):
    E = P('engine')
    over = [(E, 'input_desc', {c('input'): [c(1)], c('input2'): [c(1)], c('input3'): [], c('input4'): []}), (E, 'variables', {c(n): P('int:v' + n) for n in names}), (E, 'tensor_desc', {c(k): list(v) for k, v in descs.items()}),
            (E, 'tensor_epxr', {c(k): [c(s), P('expr:' + k)] for k, s in exprs.items()})]
    want = i(len(names))
    for n in names:
        want += txt(n)
    want += i(len(descs))
    for k, v in descs.items():
        want += txt(k) + i(len(v))
        for d in v:
            want += i(0) + i(d) if d[0] == 'param' or isinstance(d[2], int) else i(2) + txt(d[2])
    want += i(len(exprs))
    for k, s in exprs.items():
        e = P('expr:' + k)
        for a, b in (('alpha', 'num'), ('beta', 'num'), ('factor', 'int'), ('truncmode', 'int')):
            over.append((e, a, P(f'{b}:{k}.{a}')))
        want += txt(k) + txt(s) + f4(P(f'num:{k}.alpha')) + f4(P(f'num:{k}.beta')) + i(P(f'int:{k}.factor')) + i(P(f'int:{k}.truncmode'))
    return [E], over, want


def graph(nodes, inits):
    """nodes: [(name, op, inputs, outputs, {attr: (value, fields)})], inits: [(name, element type, rank)]"""
    G = P('graph')
    over = [(G, 'nodemap', {c(n[0]): P('node:' + n[0]) for n in nodes})]
    want = i(len(nodes))
    bad = False
    for n, op, ins, outs, attrs in nodes:
        N = P('node:' + n)
        over += [(N, 'name', c(n)), (N, 'op_type', c(op)), (N, 'input', [c(x) for x in ins]), (N, 'output', [c(x) for x in outs])]
        want += txt(n) + txt(op) + i(len(ins)) + [y for x in ins for y in txt(x)] + i(len(outs)) + [y for x in outs for y in txt(x)] + i(len(attrs))
        d = {}
        for k, mk in attrs.items():
            v, f = mk(over, n + k)
            d[c(k)] = v
            if f is None:
                bad = True
            else:
                want += txt(k) + f
        over.append((N, 'attr', d))
    tm = {}
    want += i(len(inits))
    for n, dt, rank in inits:
        a, body = arr(n, dt, rank, over)
        t = P('tensor:' + n)
        tm[c(n)] = t
        over += [(t, 'numpy', a), (t, 'name', c(n))]
        if body is None:
            bad = True
        else:
            want += txt(n) + body
    over += [(G, 'initials', [c(x[0]) for x in inits]), (G, 'tensormap', tm)]
    return [G], over, None if bad else want


def a_one(k):
    def mk(over, n):
        v = P(f'{k}:{n}')
        return v, i(1) + (i(0) + i(v) if k == 'int' else i(1) + f4(v))
    return mk


def a_text(b):
    return lambda over, n: (c(b), i(1) + i(2) + txt(b if isinstance(b, str) else b.decode()))


def a_list(k, m, tup=False):
    def mk(over, n):
        if k in ('str', 'bytes'):
            vs = [c(f'{n}{j}') if k == 'str' else c(f'{n}{j}'.encode()) for j in range(m)]
            f = i(m) + i(2) + [y for j in range(m) for y in txt(f'{n}{j}')]
        else:
            vs = [P(f'{k}:{n}{j}') for j in range(m)]
            f = i(m) + i({'int': 0, 'float': 1}[k]) + [y for v in vs for y in (i(v) if k == 'int' else f4(v))]
        if m == 0:
            f = i(0) + i(ANY)
        return (('tuple', tuple(vs)) if tup else vs), f
    return mk


def a_arr(dt, rank, proto=False):
    def mk(over, n):
        a, body = arr(n, dt, rank, over)
        if body is None:
            return (P('proto:' + n) if proto else a), None
        return (P('proto:' + n) if proto else a), i(1) + i(10) + body
    return mk


def a_strange(over, n):
    return P('strange:' + n), None


def memory(blocks, shapes):
    mem = {c(k): [P(f'int:{k}.offset'), P(f'int:{k}.size')] for k in blocks}
    want = i(P('int:total'), 8) + i(len(blocks), 8)
    for k in blocks:
        want += txt(k) + i(P(f'int:{k}.offset'), 8) + i(P(f'int:{k}.size'), 8)
    want += i(len(shapes), 8)
    for k in shapes:
        want += txt(k) + i(P(f'int:max{k}'), 8)
    return [[mem, P('int:total')], {c(k): P('int:max' + k) for k in shapes}], [], want


def scenarios():
    I = P
    D = lambda *xs: [c(x) if isinstance(x, str) else P(f'int:d{x}') for x in xs]
    yield 'serialize_shape_engine', 'an empty shape engine', shape_engine([], {}, {})
    yield 'serialize_shape_engine', 'one variable', shape_engine(['h'], {'x': D(1, 3, 'h')}, {})
    yield 'serialize_shape_engine', 'derived variables', shape_engine(['h', 'w', '1', '4'], {'x': D(1, 'h', 'w'), 'y': D('1', 2), 'z': D('4')}, {'1': 'h', '4': '1'})
    yield 'serialize_shape_engine', 'a scalar and literal tensors', shape_engine(['n'], {'s': [], 'x': D('n', 'n'), 't': D(5, 6)}, {'1': 'n'})
    yield 'serialize_shape_engine', 'a dimension used twice', shape_engine(['n'], {'x': D('n', 'n')}, {})
    yield 'serialize_shape_engine', 'equal literal dimensions', shape_engine(['n'], {'x': [c(3), c(3), c('n')], 'y': [c(3), c(3), c('n')]}, {})
    yield 'serialize_shape_engine', 'variables derived from one variable', shape_engine(['n', '1', '2'], {'x': D('n', '1'), 'y': D('2', '2')}, {'1': 'n', '2': 'n'})
    yield 'serialize_graph', 'an empty graph', graph([], [])
    N = lambda n, a, ins=('x', 'w'), outs=('y',): (n, 'Op' + n, list(ins), list(outs), a)
    yield 'serialize_graph', 'operators and initializers', graph([N('n0', {}), N('n1', {}, ('y',), ('z', 'q'))], [('w', 'numpy.float32', 2), ('b', 'numpy.float32', 1)])
    yield 'serialize_graph', 'an operator without inputs or outputs', graph([N('n0', {}, (), ('y',)), N('n1', {}, ('y',), ())], [])
    yield 'serialize_graph', 'an operator using one tensor twice', graph([N('n0', {}, ('x', 'x'), ('y',)), N('n1', {}, ('y', 'x', 'y'), ('z', '', ''))], [])
    yield 'serialize_graph', 'equal attribute values', graph([N('n0', {'pads': lambda over, n: ([c(1), c(1), c(1)], i(3) + i(0) + i(1) + i(1) + i(1)), 'mode': lambda over, n: ([c('a'), c('a')], i(2) + i(2) + txt('a') + txt('a'))})], [])
    yield 'serialize_graph', 'an omitted input', graph([N('n0', {}, ('x', '', 'w'), ('y',))], [])
    for dt in list(ARR) + ['numpy.float64', 'numpy.bool_', 'numpy.int16']:
        yield 'serialize_graph', f'an initializer of type {dt}', graph([N('n0', {})], [('w', dt, 2)])
    for rank in (0, 1, 4):
        yield 'serialize_graph', f'an initializer of rank {rank}', graph([N('n0', {})], [('w', 'numpy.float32', rank), ('b', 'numpy.int64', 1)])
    kinds = [('an integer', a_one('int')), ('a float', a_one('float')), ('a string', a_text('relu')), ('a byte string', a_text(b'SAME')), ('an empty string', a_text('')),
             ('three integers', a_list('int', 3)), ('two floats', a_list('float', 2)), ('two strings', a_list('str', 2)), ('two byte strings', a_list('bytes', 2)),
             ('one integer in a list', a_list('int', 1)), ('an empty list', a_list('int', 0)), ('a tuple of integers', a_list('int', 2, True)),
             ('an array', a_arr('numpy.float32', 2)), ('a scalar array', a_arr('numpy.int64', 0)), ('a tensor', a_arr('numpy.float32', 1, True)),
             ('something else', a_strange), ('an unsupported array', a_arr('numpy.float64', 1))]
    for lab, mk in kinds:
        yield 'serialize_graph', f'an attribute holding {lab}', graph([N('n0', {'a': a_one('int'), 'Kind': mk, 'z': a_one('float')}), N('n1', {})], [('w', 'numpy.float32', 1)])
    yield 'serialize_memory_compression', 'an empty plan', memory([], [])
    yield 'serialize_memory_compression', 'a plan', memory(['a', 'b', 'c'], ['h', 'w'])
    yield 'serialize_memory_compression', 'a plan without shapes', memory(['a'], [])


def close(p, fname, given):
    """the arguments by parameter name, in the declared order"""
    fi = p.modules[MOD].bind.get(fname)
    return [a.arg for a in fi.node.args.args] if hasattr(fi, 'node') else None


def check(ctx):
    p = gs.program()
    ctx.rule('the fields of every written file are, in order, kind, width and value, those of the record layout: counts of exactly the records that follow, null-terminated names, '
             'a type tag before each tagged value, arrays as tag, rank, extents, bytes')
    ctx.rule('what the layout cannot express is refused before the file is written')
    n = lost = 0
    for fname, lab, (args, over, want) in scenarios():
        pars = close(p, fname, args)
        fi = p.modules[MOD].bind.get(fname) if MOD in p.modules else None
        if pars is None or len(pars) != len(args) + 1:
            ctx.undecided(f'{fname}: not found or of another signature', MOD)
            continue
        ctx.seen(fi.where)
        r, got = run(p, fname, dict(zip(pars, args + [P('path')])), over)
        n += 1
        key = f'{fname}:{lab}'
        w = got['written']
        if r is None or got['bad'] or any(not known(x) for x in w):
            lost += 1
            ctx.undecided(f'{key}: not followed ({got["bad"] or [show(f) for x in w for f in x if not known([f])][:3]})', fi.where)
            continue
        have = norm([f for x in w for f in x])
        if r.state is None and want is None and not w:
            ctx.ok(key)
            continue
        if want is None:
            if r.state is None:
                ctx.ok(key)
            else:
                ctx.fail(key, f'{fname}: {lab} cannot be expressed in the layout, yet a file is written', fi.where)
            continue
        if r.state is None:
            ctx.fail(key, f'{fname}: {lab}: refused or fails', fi.where)
            continue
        opened = [o for o in got['open'] if o[0] == P('path')]
        if not opened or len(opened) != len(got['open']):
            ctx.undecided(f'{key}: how the file is opened is not determined', fi.where)
            continue
        if len(opened) == 1 and opened[0][1:2] != [c('wb')]:
            ctx.fail(key, f'{fname}: the file is opened with mode {[T.show(x) for x in opened[0][1:]]}, not replaced in binary mode', fi.where)
            continue
        exp = norm(want)
        if len(have) == len(exp) and all(same(a, b) for a, b in zip(have, exp)):
            ctx.ok(key)
        else:
            k = next((j for j, (a, b) in enumerate(zip(have, exp)) if not same(a, b)), min(len(have), len(exp)))
            ctx.fail(key, f'{fname}: {lab}: field {k} is {show(have[k] if k < len(have) else None)}, the layout has {show(exp[k] if k < len(exp) else None)} '
                     f'(after {", ".join(show(x) for x in exp[max(0, k - 2):k])})', fi.where)
    ctx.count('files derived', n)
    ctx.count('files not followed', lost)


def same(a, b):
    return a == b or b[-1] == ANY and a[:3] == b[:3] and a[3][0] == 'const'

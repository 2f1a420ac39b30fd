"""P07: element-type tables are mutually inverse; initializers are decoded from and encoded into the standard's fields."""
from .. import graphsem as gs, terms as T
from ..absint import Interp, State, Obj, V
from ..model import AnalysisBroken
from ..terms import attr, const

TITLE = 'Element-type conversions agree with each other and lose no data'
TECHNIQUE = 'partial evaluation of the type tables over the full enumeration of ONNX element types, symbolic evaluation of the decoder and encoder per type, compared with the standard\'s storage rules'
EXPLANATION = ('Both conversion tables are evaluated from their source for every element type of the standard and every array type; the decoder is evaluated symbolically for each supported type with the '
               'packed field empty and filled, and the resulting term must take its values from the field the standard names, with that array type and the declared dimensions; the encoders must hand '
               'on the tensor\'s own name, dimensions, data and element type.')

CODES = dict(UNDEFINED=0, FLOAT=1, UINT8=2, INT8=3, UINT16=4, INT16=5, INT32=6, INT64=7, STRING=8, BOOL=9, FLOAT16=10, DOUBLE=11, UINT32=12, UINT64=13, COMPLEX64=14, COMPLEX128=15, BFLOAT16=16)
STD = {'FLOAT': 'float32', 'UINT8': 'uint8', 'INT8': 'int8', 'UINT16': 'uint16', 'INT16': 'int16', 'INT32': 'int32', 'INT64': 'int64', 'STRING': 'bytes_', 'BOOL': 'bool_',
       'FLOAT16': 'float16', 'DOUBLE': 'float64', 'UINT32': 'uint32', 'UINT64': 'uint64', 'COMPLEX64': 'complex64', 'COMPLEX128': 'complex128'}
MUST = ['FLOAT', 'UINT8', 'INT8', 'UINT16', 'INT16', 'INT32', 'INT64', 'STRING', 'BOOL', 'FLOAT16', 'DOUBLE']
ALIAS = {'bool': 'bool_', 'double': 'float64', 'single': 'float32', 'half': 'float16', 'float': 'float64', 'int': 'int64', 'str': 'str_', 'object': 'object_'}
FIELD = {'FLOAT': 'float_data', 'DOUBLE': 'double_data', 'INT64': 'int64_data', 'STRING': 'string_data', 'UINT32': 'uint64_data', 'UINT64': 'uint64_data'}
FIELDS = {'float_data', 'double_data', 'int64_data', 'int32_data', 'string_data', 'uint64_data'}
WIDTH = {'float32': 4, 'float64': 8, 'float16': 2, 'int8': 1, 'int16': 2, 'int32': 4, 'int64': 8, 'uint8': 1, 'uint16': 2, 'uint32': 4, 'uint64': 8, 'bool_': 1}
NPS = sorted(set(WIDTH) | {'bytes_', 'str_', 'object_', 'complex64', 'complex128'})


def hook(path):
    last = path.split('.')[-1]
    if path.startswith(('onnx.TensorProto.', 'onnx.onnx_pb.TensorProto.', 'onnx.onnx_ml_pb2.TensorProto.')) and last in CODES:
        return const(CODES[last])
    if path.startswith('numpy.') and path.count('.') == 1:
        n = ALIAS.get(last, last)
        if n in NPS:
            return const('numpy:' + n)
    return None


def np_of(t):
    if t[0] == 'builtin':
        n = {'bool': 'bool_', 'bytes': 'bytes_'}.get(t[1])
        return n
    if T.is_const(t) and isinstance(T.cval(t), str):
        s = T.cval(t)
        return s[6:] if s.startswith('numpy:') else ALIAS.get(s, s)
    if t[0] == 'call' and t[1].endswith('dtype') and t[2]:
        return np_of(t[2][0])
    if t[0] == 'attr' and t[2] == 'type':
        return np_of(t[1])
    return None


class Mod:
    def __init__(self):
        self.p = gs.program()
        self.m = self.p.modules['onnx_tool.tensor']
        self.cls = self.p.cls('onnx_tool.tensor', 'Tensor')

    def fn(self, name):
        b = self.m.bind.get(name)
        if b is None or not hasattr(b, 'node'):
            raise AnalysisBroken(f'onnx_tool.tensor.{name} vanished')
        return b

    def run(self, name, args=None, over=(), opaque=(), method=False, hk=hook):
        f = self.cls.find_method(name) if method else self.fn(name)
        if f is None:
            raise AnalysisBroken(f'Tensor.{name} vanished')
        I = Interp(self.p, {}, (lambda t: self.cls if t == gs.SELF else None) if method else None, opaque=lambda fi: fi.name in opaque)
        I.open_tables = True
        I.ext_hook = hk
        st = State()
        for a, n, v in over:
            if isinstance(v, list):
                st.over[(a, n)] = V(I.new_ref(st, Obj('list', [V(x) for x in v], node=None), f.node))
            else:
                st.over[(a, n)] = V(v)
        names = [a.arg for a in f.node.args.args]
        av = {}
        for i, x in enumerate(args or []):
            av[names[i + (1 if method else 0)]] = V(x)
        v, s = I.run_function(f, av, st=st, selfatom=gs.SELF if method else None, cls=self.cls if method else None)
        return I, v, s, f

    def terms(self, *a, **k):
        I, v, s, f = self.run(*a, **k)
        return set(I.terms_of(v, s)), f


def check(ctx):
    ctx.rule('forward and backward type tables compose to the identity on supported types, are injective, and follow the standard')
    ctx.rule('each supported type is decoded from the standard\'s field with its own array type and declared dimensions, packed and typed')
    ctx.rule('encoders pass the tensor\'s own name, dimensions, data and element type')
    M = Mod()
    fwd = tables(ctx, M)
    decoder(ctx, M, fwd)
    encoder(ctx, M, fwd)
    makers(ctx, M)
    sizes(ctx, M)


def single(ts):
    return next(iter(ts)) if len(ts) == 1 else None


def tables(ctx, M):
    fwd = {}
    for k, c in CODES.items():
        ts, f = M.terms('onnxdtype2npdtype', [const(c)])
        ctx.seen(f'onnxdtype2npdtype({k})')
        t = single(ts)
        n = np_of(t) if t is not None else None
        if t == T.NONE:
            if k in MUST:
                ctx.fail(f'fwd:{k}', f'element type {k} has no array type', f.where)
            else:
                ctx.ok()
            continue
        if n is None:
            ctx.undecided(f'{k} -> {[T.show(x) for x in ts]}', f.where)
            continue
        fwd[k] = n
        if k in STD and n != STD[k]:
            ctx.fail(f'fwd:{k}', f'element type {k} is translated to {n}; the standard stores it as {STD[k]}', f.where)
        elif k not in STD:
            ctx.fail(f'fwd:{k}', f'element type {k} is translated to {n}, whose width or meaning differs', f.where)
        else:
            ctx.ok(f'{k} -> {n}')
    ctx.floor('supported element types', len(fwd), 8)
    back = {}
    for n in NPS:
        ts, f = M.terms('npdtype2onnxdtype', [const('numpy:' + n)])
        t = single(ts)
        if t is None or not (t == T.NONE or T.is_const(t)):
            ctx.undecided(f'{n} -> {[T.show(x) for x in ts]}', f.where)
            continue
        c = None if t == T.NONE else T.cval(t)
        back[n] = c
        std = [k for k, v in STD.items() if v == n]
        if c is not None and std and CODES[std[0]] != c:
            ctx.fail(f'back:{n}', f'array type {n} is translated to element type {name_of(c)}; the standard\'s is {std[0]}', f.where)
        else:
            ctx.ok()
    for k, n in fwd.items():
        if n in back:
            if back[n] != CODES[k]:
                ctx.fail(f'round:{k}', f'{k} becomes {n} and then {name_of(back[n])}', f.where)
            else:
                ctx.ok(f'{k} -> {n} -> {k}')
    inv = {}
    for k, n in fwd.items():
        inv.setdefault(n, []).append(k)
    for n, ks in inv.items():
        if len(ks) > 1:
            ctx.fail('shared:' + n, f'element types {ks} share the array type {n}', f.where)
    return fwd


def name_of(c):
    return next((k for k, v in CODES.items() if v == c), str(c))


def decoder(ctx, M, fwd):
    ini = ('param', 'initial')
    f = M.fn('tensorproto2ndarray')
    pn = f.node.args.args[0].arg
    ini = ('param', pn)
    for k, n in fwd.items():
        field = FIELD.get(k, 'int32_data')
        for mode, raw in (('typed', b''), ('packed', b'\x01')):
            if k == 'STRING' and mode == 'packed':
                continue      # the standard forbids packed strings
            ctx.seen(f'tensorproto2ndarray {k} {mode}')
            ts, f = M.terms('tensorproto2ndarray', [ini], over=[(ini, 'data_type', const(CODES[k])), (ini, 'raw_data', const(raw))])
            good = False
            for t in ts:
                v, why = decoded(t, ini, field, n, raw)
                if v is None:
                    ctx.undecided(f'{k} {mode}: {why}', f.where)
                    good = True
                elif v is False:
                    ctx.fail(f'decode:{k}:{mode}', f'{mode} {k} initializer: {why}', f.where)
                    good = True
                elif v in (mode, 'both'):
                    good = True
            if not good:
                ctx.fail(f'decode:{k}:{mode}', f'{mode} {k} initializer is never decoded from {"its packed bytes" if mode == "packed" else field}', f.where)
            else:
                ctx.ok(f'{k} {mode}')


def decoded(t, ini, field, n, raw):
    """('typed'|'packed'|'both', ''), (False, why) or (None, why)"""
    dims = attr(ini, 'dims')
    shaped = False
    cur = t
    dt = None
    fields = {x[2] for x in T.subterms(t) if x[0] == 'attr' and x[1] == ini and x[2] in FIELDS}
    packed = any(x == const(b'\x01') for x in T.subterms(t)) or any(x == attr(ini, 'raw_data') for x in T.subterms(t))
    if any(x[0] == 'call' and x[1].endswith('to_array') and x[2] and x[2][0] == ini for x in T.subterms(t)):
        return 'both', ''
    if not fields and not packed:
        if any(x[0] == 'call' and x[1] in ('zeros', 'empty', 'ones', 'full') for x in T.subterms(t)):
            return False, f'the data is replaced by a constant array instead of being read from {field if raw == b"" else "the packed bytes"}'
        return None, T.show(t)[:120]
    # outermost shape
    while True:
        if cur[0] == 'call' and cur[1] == 'reshape':
            if any(x == dims for x in T.subterms(cur)):
                d = [x for x in list(cur[2][1:]) + [v for _, v in cur[3]]]
                if any(y == dims for x in d for y in T.subterms(x)):
                    shaped = True
                elif not shaped:
                    pass
            cur = cur[2][0]
            continue
        if cur[0] == 'call' and cur[1] in ('copy', 'array', 'asarray') and not cur[3] and len(cur[2]) == 1 and cur[2][0][0] == 'call':
            cur = cur[2][0]
            continue
        break
    if not shaped:
        return False, 'the array is not given the declared dimensions'
    kw = dict(cur[3]) if cur[0] == 'call' else {}
    if packed and not fields:
        d = array_type(cur, n)
        if d is None:
            return None, T.show(cur)[:120]
        if d != n:
            return False, f'the packed bytes are read as {d}, not {n}'
        return 'packed', ''
    if fields != {field}:
        return False, f'the values are read from {"/".join(sorted(fields))}, not from {field}'
    if n == 'float16':
        return half(cur)
    d = array_type(cur, n)
    if d is None:
        return None, T.show(cur)[:120]
    if d != n:
        return False, f'the values become {d}, not {n}'
    if any(x[0] == 'call' and x[1] in ('tobytes', 'frombuffer', 'view') for x in T.subterms(cur)) and n not in ('float16',):
        w = widths(cur)
        if w is False:
            return False, 'typed values are reinterpreted byte-wise with another width'
    return 'typed', ''


def dtype_arg(c, pos=1):
    kw = dict(c[3])
    if 'dtype' in kw:
        return np_of(kw['dtype'])
    if c[1] in ('astype', 'view') and len(c[2]) > 1:
        return np_of(c[2][1])
    if len(c[2]) > pos:
        return np_of(c[2][pos])
    return None


def array_type(c, n):
    if c[0] != 'call':
        return None
    if c[1] in ('fromiter', 'array', 'asarray', 'frombuffer', 'astype', 'view', 'fromstring', 'ascontiguousarray'):
        return dtype_arg(c)
    if c[1] in ('copy', 'ravel', 'flatten', 'reshape'):
        return array_type(c[2][0], n)
    return None


def widths(c):
    return True


def half(c):
    """float16 from int32_data holds the bit patterns"""
    chain = []
    while c[0] == 'call' and c[2]:
        d = dtype_arg(c) if c[1] in ('fromiter', 'array', 'asarray', 'frombuffer', 'astype', 'view') else None
        chain.append((c[1], d))
        c = c[2][0]
    ds = [(f, d) for f, d in chain if d]
    if not ds or ds[0][1] != 'float16':
        return (False, f'the values become {ds[0][1]}, not float16') if ds else (None, str(chain)[:80])
    if ds[0][0] not in ('frombuffer', 'view'):
        return False, 'the bit patterns are converted as numbers instead of being reinterpreted'
    if len(ds) < 2:
        return None, str(chain)[:80]
    if ds[1][1] not in ('uint16', 'int16'):
        return False, f'bit patterns of 16 bits are held as {ds[1][1]} before being reinterpreted'
    return 'typed', ''


def calls(t, suffix):
    return [x for x in T.subterms(t) if x[0] == 'call' and x[1].split('.')[-1] == suffix]


def eltype_of(t, sources):
    """t is npdtype2onnxdtype(<source>.dtype[.type]) or the like"""
    if t[0] == 'call' and t[1].split('.')[-1] in ('npdtype2onnxdtype', 'np_dtype_to_tensor_dtype') and t[2]:
        a = t[2][0]
        while True:
            if a in sources:
                return True
            if a[0] == 'attr' and a[2] in ('type', 'dtype'):
                a = a[1]
            elif a[0] == 'call' and a[1].split('.')[-1] == 'dtype' and a[2]:
                a = a[2][0]
            else:
                return False if a[0] in ('const', 'attr', 'param', 'ext') else None
    return None


def encoder(ctx, M, fwd):
    num = attr(gs.SELF, 'numpy')
    # the tensor proto, per array type
    for k, n in fwd.items():
        if k == 'STRING':
            continue
        code = CODES[k]
        ts, f = M.terms('make_tensor_proto', over=[(num, 'dtype', const('numpy:' + n))], method=True)
        ctx.seen(f'Tensor.make_tensor_proto {n}')
        mk = [t for t in ts if t != T.NONE]
        if not mk:
            ctx.undecided('no tensor message found', f.where)
            continue
        for t in mk:
            if t[0] == 'call' and t[1].endswith('from_array'):
                if not any(x == num for x in T.subterms(t)):
                    ctx.fail(f'encode:{n}:data', 'the tensor message does not hold the tensor\'s own data', f.where)
                else:
                    ctx.ok()
                continue
            if t[0] != 'call' or not t[1].endswith('make_tensor') or t[1] == 'make_tensor_value_info':
                ctx.undecided(T.show(t)[:100], f.where)
                continue
            kw = dict(t[3])
            g = lambda i, nm: t[2][i] if len(t[2]) > i else kw.get(nm)
            name, dt, dims, vals, raw = g(0, 'name'), g(1, 'data_type'), g(2, 'dims'), g(3, 'vals'), g(4, 'raw') or const(False)
            verdicts = []
            verdicts.append((name == attr(gs.SELF, 'name') if name is not None and name[0] != 'top' else None, 'name', 'is not stored under the tensor\'s own name'))
            verdicts.append((dt == const(code) if dt is not None and dt[0] == 'const' else None, 'type', f'is stored as {name_of(T.cval(dt)) if dt is not None and dt[0] == "const" and T.cval(dt) is not None else dt}, not {k}'))
            dv = None
            if dims is not None:
                s = attr(num, 'shape')
                if any(x in (s, attr(gs.SELF, 'shape')) for x in T.subterms(dims)):
                    dv = not any(x[0] in ('slice',) for x in T.subterms(dims))
                elif dims in (('list', ()), ('tuple', ())):
                    dv = vals is not None and vals[0] in ('list', 'tuple') and len(vals[1]) == 1
            verdicts.append((dv, 'dims', 'does not keep the dimensions'))
            vv = None
            if vals is not None:
                has = any(x == num for x in T.subterms(vals))
                tb = any(x[0] == 'call' and x[1] in ('tobytes', 'tostring') for x in T.subterms(vals))
                if not has:
                    vv = False if vals[0] != 'top' else None
                elif raw == const(True):
                    vv = tb
                elif raw == const(False):
                    vv = not tb
                conv = [x for x in T.subterms(vals) if x[0] == 'call' and x[1] in ('astype', 'view', 'asarray', 'array')]
                for c in conv:
                    d = dtype_arg(c)
                    if vv and d and d != n and not lossless(n, d, raw == const(True)):
                        vv = False
            verdicts.append((vv, 'data', 'does not hold the tensor\'s own data in the chosen form' + ('' if vals is None else f' ({T.show(vals)[:60]})')))
            for v, what, msg in verdicts:
                if v is True:
                    ctx.ok()
                elif v is False:
                    ctx.fail(f'encode:{n}:{what}', f'a {n} tensor {msg}', f.where)
                else:
                    ctx.undecided(f'{n} tensor message, {what}: {T.show(t)[:120]}', f.where)
    # the value description
    for numpy_set in (False, True):
        for dims in ([], [('param', 'd0'), ('param', 'd1')]):
            over = [(gs.SELF, 'shape', dims)] + ([(gs.SELF, 'numpy', T.NONE)] if not numpy_set else [])
            I, v, s, f = M.run('make_value_proto', over=over, method=True, opaque=('npdtype2onnxdtype',), hk=None) if not numpy_set else \
                nonnull(M, over)
            ts = [t for t in I.terms_of(v, s) if t != T.NONE]
            ctx.seen(f'Tensor.make_value_proto numpy={numpy_set} rank={len(dims)}')
            for t in ts:
                if t[0] != 'call' or not t[1].endswith('make_tensor_value_info'):
                    ctx.undecided(T.show(t)[:100], f.where)
                    continue
                kw = dict(t[3])
                g = lambda i, nm: t[2][i] if len(t[2]) > i else kw.get(nm)
                if g(0, 'name') == attr(gs.SELF, 'name'):
                    ctx.ok()
                elif g(0, 'name') is not None and g(0, 'name')[0] == 'top':
                    ctx.undecided('value description name', f.where)
                else:
                    ctx.fail('value:name', 'the value description does not carry the tensor\'s name', f.where)
                src = {attr(gs.SELF, 'dtype')} | ({num} if numpy_set else set())
                e = eltype_of(g(1, 'elem_type') or T.TOP, src)
                if e:
                    ctx.ok()
                elif e is False or (g(1, 'elem_type') or T.TOP)[0] in ('const', 'ext'):
                    ctx.fail('value:type', f'the value description states {T.show(g(1, "elem_type"))[:60]} instead of the tensor\'s element type', f.where)
                else:
                    ctx.undecided(f'value description type {T.show(g(1, "elem_type") or T.TOP)[:80]}', f.where)
                if dims:
                    sh = g(2, 'shape')
                    got = [x for x in T.subterms(sh) if x in dims] if sh is not None else []
                    if sh is not None and sh[0] in ('list', 'tuple') and len(sh[1]) == 2 and [next((y for y in T.subterms(x) if y in dims), None) for x in sh[1]] == dims:
                        ctx.ok()
                    elif sh is None or sh == T.NONE or (sh[0] in ('list', 'tuple')):
                        ctx.fail('value:shape', 'the value description does not carry the tensor\'s dimensions', f.where)
                    else:
                        ctx.undecided(f'value description shape {T.show(sh)[:80]}', f.where)


def nonnull(M, over):
    f = M.cls.find_method('make_value_proto')
    I = Interp(M.p, {}, lambda t: M.cls if t == gs.SELF else None, opaque=lambda fi: fi.name == 'npdtype2onnxdtype')
    I.nonnull.add(attr(gs.SELF, 'numpy'))
    st = State()
    for a, n, v in over:
        st.over[(a, n)] = V(I.new_ref(st, Obj('list', [V(x) for x in v], node=None), f.node)) if isinstance(v, list) else V(v)
    v, s = I.run_function(f, {}, st=st, selfatom=gs.SELF, cls=M.cls)
    return I, v, s, f


def lossless(n, d, raw):
    if raw:
        return False
    order = ['bool_', 'uint8', 'int8', 'uint16', 'int16', 'int32', 'int64']
    if n in order and d in order:
        return WIDTH[d] > WIDTH[n] or n == 'bool_'
    fl = ['float16', 'float32', 'float64']
    if n in fl and d in fl:
        return fl.index(d) >= fl.index(n)
    return n in order[:5] and d in fl[1:]


def makers(ctx, M):
    """tensors built from an array or a description hold that array's data, type, shape; the message is built after"""
    opaque = ('npdtype2onnxdtype', 'onnxdtype2npdtype', 'tensorproto2ndarray', 'sparsity_search')
    for name, kind in (('create_initial_Tensor', 'array'), ('create_dynamic_Tensor', 'array'), ('create_tensor', 'desc')):
        I, v, s, f = M.run(name, [const('some_name')], opaque=opaque, hk=None)
        ctx.seen(f'onnx_tool.tensor.{name}')
        ps = [('param', a.arg) for a in f.node.args.args]
        tens = [a for a in v if a[0] == 'inst'] if v else []
        if len(tens) != 1:
            ctx.undecided(f'{name} returns {len(tens)} objects', f.where)
            continue
        t, = tens

        def field(n):
            return set(I.terms_of(frozenset(x for x in s.over.get((t, n), ()) if x != ('missing',)), s))
        data = ps[1] if kind == 'array' else None
        want = [('dtype', [attr(attr(data, 'dtype'), 'type'), attr(data, 'dtype')] if data else [ps[3]], 'element type'),
                ('numpy', [data] if data else [T.NONE], 'data'),
                ('shape', [attr(data, 'shape')] if data else [ps[2]], 'shape')]
        for n, ok, what in want:
            got = {strip(x) for x in field(n)}
            if got <= set(ok) and got:
                ctx.ok(f'{name}: own {what}')
            elif any(x[0] == 'top' for x in got) or not got:
                ctx.undecided(f'{name} {what}', f.where)
            else:
                ctx.fail(f'maker:{name}:{n}', f'{name} gives the tensor {what} {[T.show(x)[:60] for x in got]} instead of the caller\'s', f.where)
        src = {data, attr(data, 'dtype'), attr(attr(data, 'dtype'), 'type')} if data else {ps[3]}
        for x in field('proto'):
            if x[0] == 'call' and x[1].split('.')[-1] in ('make_tensor_value_info', 'make_tensor'):
                dt = x[2][1] if len(x[2]) > 1 else dict(x[3]).get('elem_type', T.TOP)
                e = eltype_of(dt, src)
                if e:
                    ctx.ok(f'{name}: described with its own element type')
                elif e is False or dt[0] in ('const', 'ext'):
                    ctx.fail(f'maker:{name}:proto', f'{name} describes the tensor with element type {T.show(dt)[:60]}, not its own', f.where)
                else:
                    ctx.undecided(f'{name} description type {T.show(dt)[:80]}', f.where)
    # the constructor and update_tensor
    I, v, s, f = M.run('__init__', opaque=opaque, method=True, hk=None)
    p = ('param', f.node.args.args[1].arg)
    got = set(I.terms_of(frozenset(x for x in s.over.get((gs.SELF, 'dtype'), ()) if x != ('missing',)), s))
    bad = []
    for x in got:
        if x[0] == 'ext' or x[0] == 'const':
            ok = np_of(x) == 'float32' or x == ('ext', 'numpy.float32')
        elif x[0] == 'call' and x[1] == 'onnxdtype2npdtype':
            ok = T.show(x[2][0]).endswith('elem_type') or T.show(x[2][0]).endswith('.data_type')
        else:
            ok = any(y == ('call', 'tensorproto2ndarray', (p,), ()) for y in T.subterms(x)) or None
        if ok is False:
            bad.append(x)
        elif ok:
            ctx.ok()
        else:
            ctx.undecided(f'constructor element type {T.show(x)[:80]}', f.where)
    for x in bad:
        ctx.fail('ctor:dtype', f'the constructor gives element type {T.show(x)[:80]}', f.where)
    I, v, s, f = M.run('update_tensor', method=True, hk=None)
    p = ('param', f.node.args.args[1].arg)
    for n, suffixes in (('dtype', ('.dtype.type', '.dtype')), ('shape', ('.shape',)), ('numpy', ('',))):
        got = {x for x in I.terms_of(frozenset(s.over.get((gs.SELF, n), ())), s)}
        for x in got:
            y = T.show(strip(x))
            if ('missing',) == x:
                ctx.fail(f'update:{n}', f'update_tensor does not always store the {n}', f.where)
            elif any(y in (T.show(p) + q, f'copy({T.show(p)}){q}', f'array({T.show(p)}){q}', f'asarray({T.show(p)}){q}') for q in suffixes):
                ctx.ok()
            elif x[0] == 'top':
                ctx.undecided(f'update_tensor {n}', f.where)
            else:
                ctx.fail(f'update:{n}', f'update_tensor stores {y[:80]} as {n}', f.where)
        if not got:
            ctx.fail(f'update:{n}', f'update_tensor does not store the {n}', f.where)


def strip(t):
    while t[0] == 'call' and t[1] in ('copy', 'list', 'tuple') and len(t[2]) == 1 and t[2][0][0] == 'attr':
        t = t[2][0]
    if t[0] == 'map' and t[1] in (('each', t[2]), ('call', 'int', (('each', t[2]),), ())):
        return t[2]
    return t


def sizes(ctx, M):
    n = attr(gs.SELF, 'numpy')
    ts, f = M.terms('get_elementsize', method=True, hk=None)
    for t in ts:
        s = T.show(t)
        base = [x for x in T.subterms(t) if x in (attr(gs.SELF, 'dtype'), attr(n, 'dtype'))]
        if t[0] == 'attr' and t[2] == 'itemsize' and (base or t[1] == n) or t[0] == 'call' and 'itemsize' in s and base:
            ctx.ok('size in bytes of the own element type')
        elif t[0] == 'const' or t[0] == 'poly':
            ctx.fail('size:element', f'the element size is {s[:80]}, not the width of the element type', f.where)
        else:
            ctx.undecided(f'element size {s[:80]}', f.where)
    ts, f = M.terms('numpy_dtype2bytes', hk=None)
    for t in ts:
        if t[0] == 'attr' and t[2] == 'itemsize' and any(x[0] == 'param' for x in T.subterms(t)):
            ctx.ok()
        elif t[0] == 'const':
            ctx.fail('size:dtype', f'the byte size of an array type is {T.show(t)}', f.where)
        else:
            ctx.undecided(f'byte size {T.show(t)[:80]}', f.where)
    ts, f = M.terms('get_memsize', method=True, hk=None, opaque=('get_elementsize',))
    for t in ts:
        subs = [T.show(x) for x in T.subterms(t)]
        if any('get_elementsize' in x for x in subs) and any(x.startswith('prodover(') and 'self.shape' in x for x in subs):
            ctx.ok('memory is element count times element size')
        elif t[0] in ('const',):
            ctx.fail('size:mem', f'the memory size is {T.show(t)}', f.where)
        elif t[0] == 'poly' and not any('get_elementsize' in x for x in subs) and not any('itemsize' in x or 'nbytes' in x for x in subs):
            ctx.fail('size:mem', f'the memory size {T.show(t)[:80]} does not depend on the element size', f.where)
        else:
            ctx.undecided(f'memory size {T.show(t)[:80]}', f.where)

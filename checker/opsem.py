"""Abstract runs of operator classes: constructor + inference/cost method under a stated configuration
(number of inputs and outputs, which attributes are present, optional ranks).  Tensors are symbolic."""
from . import numsem
from . import terms as T
from .absint import Interp, State, Obj, V, VNONE, VTOP, EMPTY, MISSING, Unreachable
from .model import AnalysisBroken, ClassInfo
from .terms import const, attr, is_const, is_num, cval

SELF = ('param', 'self')
NPROTO = ('param', 'n')


def tin(i):
    return ('param', f'in{i}')


def tout(i):
    return ('param', f'out{i}')


INS = ('param', 'intensors')
OUTS = ('param', 'outtensors')


def dim(i, k):
    return ('param', f'in{i}.d{k}')


def operator_classes(program):
    """op type -> class, through the registrations of create_node (class name minus 'Node')."""
    node = program.module('onnx_tool.node')
    out = {}
    for c in node.all_classes:
        if c.name.endswith('Node') and c.is_subclass_of('Node') and c.name != 'Node' and c.node.decorator_list:
            out.setdefault(c.name[:-4], c)
    return out


def is_dim(t):
    return t[0] == 'param' and '.d' in t[1]


def sign(t):
    """1/-1: certainly positive/negative given that every dimension is at least 1; 0 for the constant zero; None: unknown"""
    p = T.as_poly(t)
    if not p:
        return 0
    if not all(all(is_dim(x) for x, _ in m) and isinstance(c, (int, float)) for m, c in p.items()):
        return None
    lo, hi = bounds(t)
    if lo is not None and lo > 0:
        return 1
    if hi is not None and hi < 0:
        return -1
    return None


def bounds(t):
    """(lower, upper) bound of a polynomial of dimensions, every dimension being at least 1"""
    p = T.as_poly(t)
    if not all(all(is_dim(x) and e > 0 for x, e in m) and isinstance(c, (int, float)) for m, c in p.items()):
        if all(all(is_dim(x) for x, e in m) and isinstance(c, (int, float)) for m, c in p.items()):
            cs = list(p.values())
            return (1e-9 if all(c > 0 for c in cs) else None), (-1e-9 if all(c < 0 for c in cs) else None)
        return None, None
    v = [c for m, c in p.items() if m]
    tot = sum(p.values())
    return (tot if all(c > 0 for c in v) else None), (tot if all(c < 0 for c in v) else None)


def dim_truth(a, st):
    if a[0] == 'cmp' and a[1] in ('<', '<='):
        if a[2][0] == 'top' or a[3][0] == 'top':
            return None
        lo, hi = bounds(T.sub(a[3], a[2]))
        if lo is not None and (lo > 0 or (lo == 0 and a[1] == '<=')):
            return True
        if hi is not None and (hi < 0 or (hi == 0 and a[1] == '<')):
            return False
        return None
    if a[0] == 'cmp' and a[1] in ('==', '!='):
        d = sign(T.sub(a[3], a[2])) if a[2][0] != 'top' and a[3][0] != 'top' else None
        if d is None:
            return None
        return (d == 0) == (a[1] == '==')
    return None


def literal(val):
    def go(x):
        return ('list', tuple(go(y) for y in x)) if isinstance(x, list) else x if isinstance(x, tuple) else const(x)
    return ('call', 'ndarray', (go(val),), ())


class Run:
    pass


class OpSem:
    def __init__(self, program):
        self.p = program
        self.tensor = program.cls('onnx_tool.tensor', 'Tensor')
        self.nodebase = program.cls('onnx_tool.node', 'Node')
        for m in ('get_shape', 'get_numpy', 'update_shape', 'update_dtype', 'update_tensor'):
            if self.tensor.find_method(m) is None:
                raise AnalysisBroken(f'Tensor.{m} vanished')

    def reshaped(self, I, b, name, st, fr, node, read):
        """extents of a reshaped array when all of them are numbers"""
        to = dict(b[3]).get('shape', b[2][1] if len(b[2]) > 1 else None)
        if to is None or to[0] not in ('list', 'tuple') or not all(is_num(x) and isinstance(x[2], int) for x in to[1]):
            return None
        if const(-1) not in to[1]:
            return tuple(to[1])
        v = read(I, b[2][0], name, st, fr, node)
        items = I.known_items(v, st) if v is not None and len(v) == 1 else None
        if items is None or not all(len(x) == 1 and is_num(next(iter(x))) for x in items):
            return None
        size = known = 1
        for x in items:
            size *= next(iter(x))[2]
        for x in to[1]:
            known *= 1 if x[2] == -1 else x[2]
        if known <= 0 or size % known or to[1].count(const(-1)) > 1:
            return None
        return tuple(const(size // known) if x == const(-1) else x for x in to[1])

    def run(self, cls, method, nin=None, nout=None, attrs=None, closed=True, ranks=None, init=True, selfover=None, op=None, outranks=None,
            shapes=None, values=None, extra_args=None, ints=False, outshapes=None, noname=(), select=False):
        """nin/nout None: symbolic lists. attrs: name -> V or term or list of terms. Returns Run."""
        r = Run()
        r.facts_log = []
        r.reads = []
        r.shape_reads = []
        tensors = set()
        ins = [tin(i) for i in range(nin)] if nin is not None else None
        outs = [tout(i) for i in range(nout)] if nout is not None else None
        tens = set((ins or []) + (outs or []))

        def typer(t):
            if t == SELF:
                return cls
            if t in tens:
                return self.tensor
            if t[0] in ('idx', 'each', 'each_from'):
                b = t[1]
                if t[0] == 'idx' and t[2][0] == 'slice':
                    return None
                if b in (INS, OUTS):
                    return self.tensor
                if b[0] == 'idx' and b[2][0] == 'slice' and b[1] in (INS, OUTS):
                    return self.tensor
            return None

        def fresh_shape(I, a, st, node, fr):
            cur = st.over.get((a, 'shape'))
            if cur is not None and MISSING not in cur and len(cur) == 1:
                x, = cur
                if x[0] == 'ref' and st.heap.get(x[1]) is not None:
                    o = st.heap[x[1]].copy()
                    o.kind = 'list'
                    return V(I.new_ref(st, o, node))
                return V(I.new_ref(st, Obj('list', None, I.iter_elem(cur, node, st, fr), sym=numsem.copy_of(numsem.strip_copy(I.as_term(x, st))), node=node), node)) \
                    if I.as_term(x, st)[0] != 'top' else V(I.new_ref(st, Obj('list', None, I.iter_elem(cur, node, st, fr), node=node), node))
            if cur is not None:
                e = I.iter_elem(frozenset(c for c in cur if c != MISSING), node, st, fr)
                return V(I.new_ref(st, Obj('list', None, e, node=node), node))
            s = attr(a, 'shape')
            return V(I.new_ref(st, Obj('list', None, V(('each', s)), sym=numsem.copy_of(s), node=node), node))

        def get_shape(I, fi, args, kwargs, st, fr, node):
            out = EMPTY
            for a in args[0]:
                for b in I.expand(a):
                    r.shape_reads.append(b)
                    v = fresh_shape(I, b, st, _n(node, len(out)), fr)
                    out = out | v
            return out or VTOP

        def get_numpy(I, fi, args, kwargs, st, fr, node):
            out = EMPTY
            for a in args[0]:
                for b in I.expand(a):
                    r.reads.append((b, fi.name, node, fr.fn.qualname))
                    cur = st.over.get((b, 'numpy'))
                    out = out | (frozenset(c for c in cur if c != MISSING) if cur is not None else V(attr(b, 'numpy')))
            return out or VTOP

        def get_scalar(I, fi, args, kwargs, st, fr, node):
            out = EMPTY
            for a in args[0]:
                r.reads.append((a, fi.name, node, fr.fn.qualname))
                cur = st.over.get((a, 'numpy'))
                x = next(iter(cur)) if cur is not None and len(cur) == 1 else T.TOP
                if x[0] == 'call' and x[1] == 'ndarray':
                    x = x[2][0]
                    while x[0] == 'list' and len(x[1]) == 1:
                        x = x[1][0]
                    if x[0] != 'list':
                        out = out | V(x)
                        continue
                out = out | V(('call', 'scalar', (attr(a, 'numpy'),), ()))
            return out or VTOP

        def setter(kind):
            def f(I, fi, args, kwargs, st, fr, node):
                val = args[1] if len(args) > 1 else next(iter(kwargs.values())) if kwargs else VTOP
                tgt = args[0]
                for a in tgt:
                    for b in I.expand(a):
                        weak = len(tgt) > 1
                        r.facts_log.append((kind, b, val, I.terms_of(val, st), node, fr))
                        I.emit('update', b, kind, node, fr, val)
                        if kind == 'tensor':
                            self.store(I, st, b, 'numpy', val, weak)
                            ts = I.terms_of(val, st, 24)
                            self.store(I, st, b, 'shape', frozenset(('call', 'shapeof', (x,), ()) for x in ts), weak)
                            self.store(I, st, b, 'dtype', frozenset(('call', 'dtypeof', (x,), ()) for x in ts), weak)
                            fk = [('shape', frozenset(('call', 'shapeof', (x,), ()) for x in ts)), ('dtype', frozenset(('call', 'dtypeof', (x,), ()) for x in ts)), ('numpy', val)]
                        else:
                            self.store(I, st, b, kind, val, weak)
                            fk = [(kind, val)]
                        if not weak:
                            for k2, v2 in fk:
                                st.facts[(b, k2)] = v2
                return VNONE
            return f
        def tonp(I, fi, args, kwargs, st, fr, node):
            ts = I.terms_of(args[0], st, 16)
            return frozenset(('call', 'npdtype', (x,), ()) for x in ts)
        S = {'onnxdtype2npdtype': tonp, 'ext:onnx.helper.tensor_dtype_to_np_dtype': tonp, 'Tensor.get_shape': get_shape, 'Tensor.get_numpy': get_numpy, 'Tensor.get_scalar': get_scalar,
             'Tensor.update_shape': setter('shape'), 'Tensor.update_dtype': setter('dtype'), 'Tensor.update_tensor': setter('tensor')}

        def numpy_read(I, b, name, st, fr, node):
            if name == 'numpy' and (b in tens or typer(b) is self.tensor):
                r.reads.append((b, '.numpy', node, fr.fn.qualname))
            if name == 'shape':
                while b[0] == 'call' and b[1] in ('zeros_like', 'ones_like', 'empty_like', 'full_like', 'copy', 'astype', 'absolute', 'exp', 'log', 'sqrt', 'stored') and b[2]:
                    b = b[2][0]
            if name == 'shape' and b[0] == 'call' and b[1] == 'reshape':
                sh = self.reshaped(I, b, name, st, fr, node, numpy_read)
                if sh is not None:
                    return V(('tuple', sh))
            if name == 'shape' and b[0] == 'attr' and b[2] == 'numpy' and (b[1] in tens or typer(b[1]) is self.tensor):
                cur = st.over.get((b[1], 'shape'))
                if cur is not None and MISSING not in cur:
                    return cur
                return V(attr(b[1], 'shape'))
            return None

        I = Interp(self.p, S, typer)
        I.attr_hook = numpy_read

        def kind(t):
            if t[0] == 'attr' and t[2] in ('shape', 'pads', 'strides', 'dilations', 'kernel_shape', 'axes', 'perm'):
                return 'list'
            return None
        I.kind_hook = kind
        if select:
            def sel(c, a, b):
                if len(c) != 1 or len(a) != 1 or len(b) != 1:
                    return None
                c, a, b = (next(iter(x)) for x in (c, a, b))
                if c[0] not in ('cmp', 'call') or any(x[0] in ('top', 'ref') for y in (c, a, b) for x in T.subterms(y)):
                    return None
                if not any(x[0] == 'attr' and x[2] == 'numpy' for x in T.subterms(c)):
                    return None
                return V(numsem.where(c, a, b))
            I.select = sel
        if ints:
            I.int_hook = is_dim
            I.truth_hook = dim_truth
        if closed:
            I.closed.add(SELF)
            I.nonnull.update(attr(SELF, k) for k in (attrs or {}))
        st = State()
        st.over[(NPROTO, 'attribute')] = V(I.new_ref(st, Obj('list', [], node=None), _N(1)))
        st.over[(NPROTO, 'op_type')] = V(const(op or cls.name[:-4]))
        if nin is not None:
            st.over[(NPROTO, 'input')] = V(I.new_ref(st, Obj('list', [V(('param', f'inputname{i}')) for i in range(nin)], node=None), _N(7)))
        if nout is not None:
            st.over[(NPROTO, 'output')] = V(I.new_ref(st, Obj('list', [V(('param', f'outputname{i}')) for i in range(nout)], node=None), _N(8)))
        keys = {}
        for k, v in (attrs or {}).items():
            vv = self.value(I, st, v, k)
            st.over[(SELF, k)] = vv
            keys[const(k)] = vv
        ini = cls.find_method('__init__')
        if init and ini is not None:
            params = [a.arg for a in ini.node.args.args][1:]
            v, st2 = I.run_function(ini, {params[0]: V(NPROTO)} if params else {}, st=st, selfatom=SELF, cls=ini.cls)
            if st2 is None:
                r.ret, r.state, r.I = None, None, I
                return r
            st = State({}, st2.heap, st2.over, {})
        r.init_events = list(I.events)
        I.events = []
        I._seen_events = {}
        for k, v in (attrs or {}).items():
            if (SELF, k) not in st.over:
                st.over[(SELF, k)] = self.value(I, st, v, k)
        st.over[(SELF, 'attr')] = V(I.new_ref(st, Obj('dict', None, EMPTY if closed else VTOP, keys=keys, keyv=frozenset(keys), node=None), _N(2)))
        for nm, n in (('input', nin), ('output', nout)):
            if n is not None:
                st.over[(SELF, nm)] = V(I.new_ref(st, Obj('list', [V(('param', f'{nm}name{i}')) for i in range(n)], node=None), _N(3 if nm == 'input' else 4)))
            else:
                st.over[(SELF, nm)] = V(attr(SELF, nm))
        for nm in ('static_inputs', 'dynamic_inputs', 'nextnodes', 'prevnodes', 'name'):
            st.over[(SELF, nm)] = V(attr(SELF, nm))
        st.over[(SELF, 'op_type')] = V(const(op or cls.name[:-4]))
        for k, v in (selfover or {}).items():
            st.over[(SELF, k)] = self.value(I, st, v, k)
        for i, rk in (ranks or {}).items():
            if rk is not None:
                st.over[(tin(i), 'shape')] = V(I.new_ref(st, Obj('list', [V(dim(i, k)) for k in range(rk)], node=None), _N(100 + i)))
        for i, rk in (outranks or {}).items():
            st.over[(tout(i), 'shape')] = V(I.new_ref(st, Obj('list', [V(('param', f'out{i}.d{k}')) for k in range(rk)], node=None), _N(150 + i)))
        for i, sh in (outshapes or {}).items():
            st.over[(tout(i), 'shape')] = V(I.new_ref(st, Obj('list', [V(x) for x in sh], node=None), _N(250 + i)))
        for i, sh in (shapes or {}).items():
            st.over[(tin(i), 'shape')] = V(I.new_ref(st, Obj('list', [V(x) for x in sh], node=None), _N(200 + i)))
        for i, val in (values or {}).items():
            st.over[(tin(i), 'numpy')] = V(literal(val)) if isinstance(val, list) else self.value(I, st, val, f'in{i}.value')
        if ints:
            for x in (ins or []) + (outs or []):
                st.over.setdefault((x, 'name'), V(const('name of ' + x[1])))
            for i in noname:
                st.over[(tin(i), 'name')] = V(const(''))
        args = {}
        if ins is not None:
            args['intensors'] = V(I.new_ref(st, Obj('list', [V(a) for a in ins], node=None), _N(5)))
        else:
            args['intensors'] = V(INS)
        if outs is not None:
            args['outtensors'] = V(I.new_ref(st, Obj('list', [V(a) for a in outs], node=None), _N(6)))
        else:
            args['outtensors'] = V(OUTS)
        m = cls.find_method(method)
        if m is None:
            raise AnalysisBroken(f'{cls.name}.{method} vanished')
        ps = [a.arg for a in m.node.args.args][1:]
        if len(ps) < 2:
            raise AnalysisBroken(f'{cls.name}.{method} does not take (intensors, outtensors)')
        bound = {ps[0]: args['intensors'], ps[1]: args['outtensors']}
        before = dict(st.over)
        v, s = I.run_function(m, bound, st=st, selfatom=SELF, cls=m.cls)
        r.I, r.ret, r.state, r.method, r.cls, r.before = I, v, s, m, cls, before
        r.ins, r.outs = ins, outs
        r.events = I.events
        r.raised = [x for x in I.raises]
        return r

    def store(self, I, st, b, name, val, weak):
        if weak:
            old = st.over.get((b, name), V(MISSING))
            st.over[(b, name)] = old | val
        else:
            st.over[(b, name)] = val

    def value(self, I, st, v, tag):
        if isinstance(v, frozenset):
            return v
        if isinstance(v, list):
            return V(I.new_ref(st, Obj('list', [V(x) if isinstance(x, tuple) else V(const(x)) for x in v], node=None), _N(1000 + hash(tag) % 100000)))
        if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] in ('param', 'const', 'attr', 'call', 'idx', 'list', 'tuple', 'ext'):
            return V(v)
        return V(const(v))

    # results
    def fact_terms(self, r, out, kind):
        """Set of terms the output's shape/dtype/numpy may be at return (None: not set on some path)."""
        if r.state is None:
            return None
        if (out, kind) not in r.state.facts:
            return None
        v = r.state.over.get((out, kind))
        if v is None or MISSING in v:
            v = r.state.facts[(out, kind)]
        return r.I.terms_of(v, r.state, 64)


class _N:
    def __init__(self, n):
        self.lineno = -n
        self.col_offset = 0


class _n:
    def __init__(self, node, k):
        self.lineno = getattr(node, 'lineno', 0)
        self.col_offset = getattr(node, 'col_offset', 0) + 100000 * k

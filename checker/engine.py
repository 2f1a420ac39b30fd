"""The inference engine on abstract tensors: the engine's source is interpreted with the graph library, the shape engine and the kernels replaced by their
contracts, and every kernel invocation, copy and result is derived for given sequences of inputs."""
from . import graphsem as gs, probe, runtime as R, terms as T
from .absint import V, Unreachable
from .probe import P, c, plain, tup

NP = {'float32': 4, 'float64': 8, 'float16': 2, 'int64': 8, 'int32': 4, 'bool': 1, 'bool_': 1, 'uint8': 1}
GRAPH, CG, ENGINE, MODEL = P('graph'), P('compute graph'), P('shape engine'), P('onnx file')


class Net:
    """a model: desc gives shapes with variables; derived variables (name -> (variable, factor)) exist once the engine has been told to update"""

    def __init__(self, label, inputs, ranges, nodes, shapes, outputs, consts=None, dtypes=None, derived=None, unknown=(), kv=()):
        self.label, self.inputs, self.ranges, self.nodes, self.shapes, self.outputs = label, inputs, ranges, nodes, shapes, outputs
        self.consts, self.dtypes, self.derived, self.unknown = consts or {}, dtypes or {}, derived or {}, unknown

    def shape(self, t, vs):
        full = dict(vs)
        for d, (v, k) in self.derived.items():
            if v in vs:
                full[d] = vs[v] * k
        return [full[x] if isinstance(x, str) else x for x in self.shapes[t]]

    def dynamic(self):
        out = [i for i in self.inputs if self.shapes[i] != []]
        for _, _, _, oo in self.nodes:
            out += [o for o in oo if o]
        return out


def itemsize(d):
    """bytes of one element of a numpy type term, however the source wrote it"""
    while isinstance(d, tuple) and d:
        if d[0] == 'ext':
            return NP.get(d[1].rsplit('.', 1)[-1])
        if d[0] == 'const':
            return NP.get(str(d[2]).rsplit('.', 1)[-1])
        if d[0] == 'builtin':
            return {'float': 8, 'int': 8, 'bool': 1}.get(d[1])
        if d[0] == 'attr':
            d = d[1] if isinstance(d[1], tuple) else d[2]
        elif d[0] == 'call' and d[2]:
            d = d[2][0]
        else:
            return None
    return None


class World(R.Torch):
    def __init__(self, net, dtype='float32'):
        super().__init__()
        self.net, self.engine_dtype = net, dtype
        self.log, self.vars, self.derived = [], {}, {}
        self.fail = None            # (node, occurrence) whose kernel fails
        self.runs = {}
        self.tens, self.plan, self.over = {}, {}, []
        self.consts = {}
        self.kernels = {}
        self.engine_fail = 0
        self.pools, self.kvplan, self.loaded, self.nokernel, self.load, self.file = {}, {}, {}, set(), None, {}

    # -- the graph library
    def setup(self, p):
        n, over = self.net, self.over
        names = list(n.shapes)
        self.tens = {t: P(f'T:{t}') for t in names}
        for t, a in self.tens.items():
            over.append((a, 'name', c(t)))
            over.append((a, 'dtype', ('ext', 'numpy.' + n.dtypes.get(t, 'float32'))))
            if t in n.consts:
                m = self.given(over, f'const:{t}', 'float32', n.shapes[t])
                self.consts[t] = m
                over.append((a, 'numpy', m))
                over.append((a, 'type', c(1)))
                over.append((a, 'shape', [c(d) for d in n.shapes[t]]))
            else:
                over.append((a, 'numpy', T.NONE))
                over.append((a, 'type', c(0)))
                over.append((a, 'shape', [c(d) for d in n.shape(t, {v: lo for v, (lo, hi) in n.ranges.items()})]))
        self.nodes = {}
        cons, prod = {}, {}
        for nm, op, ii, oo in n.nodes:
            a = P(f'N:{nm}')
            self.nodes[nm] = a
            over += [(a, 'name', c(nm)), (a, 'op_type', c(op)), (a, 'input', [c(x) for x in ii]), (a, 'output', [c(x) for x in oo]), (a, 'attr', P(f'attrs:{nm}'))]
            for x in ii:
                cons.setdefault(x, []).append(nm)
            for x in oo:
                prod[x] = [nm]
        for g in (GRAPH, CG):
            over += [(g, 'nodemap', {c(k): v for k, v in self.nodes.items()}), (g, 'tensormap', {c(k): v for k, v in self.tens.items()}),
                     (g, 'input', [c(x) for x in n.inputs]), (g, 'output', [c(x) for x in n.outputs]), (g, 'initials', [c(x) for x in n.consts]),
                     (g, 'dynamics', [c(x) for x in n.dynamic()]), (g, 'consumedby', {c(k): [c(x) for x in v] for k, v in cons.items()}),
                     (g, 'producedby', {c(k): [c(x) for x in v] for k, v in prod.items()})]

    def s_model(self, I, f, a, kw, st, fr, node):
        st.over[(R.one(a[0]), 'graph')] = V(GRAPH)
        return V(T.NONE)

    def s_infer(self, I, f, a, kw, st, fr, node):
        """the library: every tensor of the graph gets the shape it has for the given inputs"""
        ins = plain(one(a[1]), st) if len(a) > 1 and R.one(a[1]) is not None else {}
        vs = {}
        if not isinstance(ins, dict):
            return V(T.TOP)
        for nm, t in ins.items():
            m = self.of(t)
            if m is None or nm not in self.net.inputs:
                continue
            for d, v in zip(self.net.shapes[nm], m.shape):
                if isinstance(d, str):
                    vs[d] = v
        for t, at in self.tens.items():
            if t in self.net.consts:
                continue
            try:
                sh = self.net.shape(t, vs)
            except KeyError:
                continue
            st.over[(at, 'shape')] = V(gs.container(I, st, f, [c(d) for d in sh]))
        return V(T.NONE)

    def s_compress(self, I, f, a, kw, st, fr, node, split=False):
        """the library: dynamic tensors in one block each, as large as shape and element type say"""
        off = 0
        plan = {}
        for t in self.net.dynamic():
            if t in plan:
                continue
            sh = plain(one(st.over.get((self.tens[t], 'shape'))), st)
            e = itemsize(R.one(st.over.get((self.tens[t], 'dtype'))))
            if not isinstance(sh, list) or e is None or any(not isinstance(x, int) for x in sh):
                return V(T.TOP)
            n = (R.numel(sh) * e + 15) // 16 * 16
            plan[t] = [off, n]
            off += n
        kv = {k: [0, v[1]] for k, v in plan.items() if k == 'kv_cache'}
        if split:
            plan = {k: v for k, v in plan.items() if k not in kv}
            self.kvplan = kv
        self.plan = plan
        fn = f if f is not None else fr.fn
        r = [gs.container(I, st, fn, {c(k): [c(v[0]), c(v[1])] for k, v in plan.items()}), c(off)]
        if split:
            r += [gs.container(I, st, fn, {c(k): [c(v[0]), c(v[1])] for k, v in kv.items()}), c(sum(v[1] for v in kv.values()))]
        return V(tup(*r))

    def s_compress_kv(self, I, path, a, kw, st, fr, node):
        return self.s_compress(I, None, a, kw, st, fr, node, True)

    # -- the shape engine
    def s_setvar(self, I, b, a, kw, st, fr, node):
        if b != ENGINE:
            return NotImplemented
        k, v = plain(one(a[0]), st), plain(one(a[1]), st)
        self.vars[k] = v
        return V(T.NONE)

    def s_update(self, I, b, a, kw, st, fr, node):
        if b != ENGINE:
            return NotImplemented
        if self.engine_fail > 0:
            self.engine_fail -= 1
            if self.engine_fail == 0:
                raise Unreachable()
        self.derived = {d: self.vars[v] * k for d, (v, k) in self.net.derived.items() if isinstance(self.vars.get(v), int)}
        return V(T.NONE)

    def s_shape(self, I, b, a, kw, st, fr, node):
        if b != ENGINE:
            return NotImplemented
        t = plain(one(a[0]), st)
        if t not in self.net.shapes or t in self.net.unknown or t in self.net.consts:
            raise Unreachable()         # KeyError
        full = dict(self.vars, **self.derived)
        try:
            sh = [full[x] if isinstance(x, str) else x for x in self.net.shapes[t]]
        except KeyError:
            raise Unreachable()
        if any(not isinstance(x, int) for x in sh):
            return V(('call', 'shape', (c(str(t)),), ()))
        return V(gs.container(I, st, fr.fn, [c(d) for d in sh]))

    def s_maxinputs(self, I, b, a, kw, st, fr, node):
        if b != ENGINE:
            return NotImplemented
        d = {}
        for nm in self.net.inputs:
            sh = [self.vars.get(x) if isinstance(x, str) else x for x in self.net.shapes[nm]]
            if any(not isinstance(x, int) for x in sh):
                raise Unreachable()
            d[c(nm)] = self.new(st, 'zeros', 'float64', sh)
        return V(gs.container(I, st, fr.fn, d))

    # -- kernels
    def s_kernel(self, I, f, a, kw, st, fr, node):
        op = plain(one(a[-1] if a else next(iter(kw.values()))), st)
        if not isinstance(op, str):
            return V(T.TOP)
        if op in self.nokernel:
            return V(T.NONE)
        k = P(f'kernel:{op}')
        self.kernels[k] = op
        return V(k)

    def s_prep(self, I, b, a, kw, st, fr, node):
        if b not in self.kernels:
            return NotImplemented
        m = self.of(R.one(a[1]))
        if m is None:
            return V(('call', 'prepared', (), ()))
        if self.kernels[b] != 'Prep':
            return V(R.one(a[1]))
        return V(self.make(st, ('prepared', m.buf), m.start, m.nbytes, m.dtype, list(reversed(m.shape))))

    def first_consumer(self, t):
        return next((op for _, op, ii, _ in self.net.nodes if t in ii), None)

    # -- the weight file
    def s_open(self, I, path, a, kw, st, fr, node):
        return V(P('weight file')) if self.load is not None else None

    def s_filekeys(self, I, b, a, kw, st, fr, node):
        if b != P('weight file'):
            return NotImplemented
        return V(gs.container(I, st, fr.fn, [c(k) for k in self.load['names']]))

    def s_fileget(self, I, b, a, kw, st, fr, node):
        k = plain(one(a[0]), st)
        if b != P('weight file') or not isinstance(k, str):
            return NotImplemented
        if k not in self.load['names']:
            raise Unreachable()
        sh = self.load['names'][k]
        return V(self.make(st, f'file:{k}', 0, R.numel(sh) * 4, 'float32', sh))

    def s_enter(self, I, b, a, kw, st, fr, node):
        return V(b) if b == P('weight file') else NotImplemented

    def s_hasattr(self, I, name, args, kw, st, fr, node):
        b, n = R.one(args[0]), R.one(args[1])
        if b in self.kernels and n == c('preprocess_weight'):
            return V(c(self.kernels[b] == 'Prep'))
        return NotImplemented

    def s_run(self, I, b, a, kw, st, fr, node):
        if b not in self.kernels:
            return NotImplemented
        names = ('inputs', 'outputs', 'attrs')
        d = dict(zip(names, a))
        d.update(kw)
        vals = {}
        for k in ('inputs', 'outputs'):
            x = plain(one(d.get(k)), st)
            vals[k] = [self.of(y) if isinstance(y, tuple) and self.of(y) is not None else y for y in x] if isinstance(x, list) else None
        op = self.kernels[b]
        self.log.append(('run', op, vals['inputs'], vals['outputs'], plain(one(d.get('attrs')), st)))
        self.runs[op] = self.runs.get(op, 0) + 1
        if self.fail == (op, self.runs[op]):
            raise Unreachable()
        return V(T.NONE)

    def s_mark(self, I, b, a, kw, st, fr, node):
        if b != P('host'):
            return NotImplemented
        self.log.append(('mark', plain(one(a[0]), st)))
        return V(T.NONE)

    def m_copy(self, m, b, args, kw, st):
        r = super().m_copy(m, b, args, kw, st)
        self.log.append(('copy',) + self.copies[-1])
        return r

    def summaries(self):
        s = super().summaries()
        s.update({'Model.__init__': self.s_model, 'Graph.graph_reorder_nodes': lambda *a: V(T.NONE), 'Graph.shape_regress': lambda *a: V(ENGINE), 'Graph.shape_infer': self.s_infer,
                  'Graph.get_compute_graph': lambda *a: V(CG), 'Graph.compress_memory': self.s_compress, '.update_variable': self.s_setvar, '.update_variables': self.s_update,
                  '.get_tensorshape': self.s_shape, '.generate_input': self.s_maxinputs, 'KernelRegistry.get': self.s_kernel, '.run': self.s_run, '.preprocess_weight': self.s_prep,
                  'builtin:hasattr': self.s_hasattr, '.mark': self.s_mark, 'ext:benchmark.llm_test.compress_memory_with_kv_cache': self.s_compress_kv,
                  'compress_memory_with_kv_cache': lambda I, f, a, kw, st, fr, node: self.s_compress(I, f, a, kw, st, fr, node, True), 'ext:safetensors.safe_open': self.s_open,
                  'ext:safetensors.torch.load_file': lambda *a: None, '.keys': self.s_filekeys, '.get_tensor': self.s_fileget, '.__enter__': self.s_enter})
        return s


def one(v):
    return R.one(v) or T.TOP


def drive(p, net, src, args=None, dtype='float32', prepare=None, seconds=30):
    """(world, run) of a caller of GraphInfer"""
    w = World(net, dtype)
    w.setup(p)
    mod = p.modules['inference.infer']
    G, TN = p.cls('onnx_tool.graph', 'Graph'), p.cls('onnx_tool.tensor', 'Tensor')
    atoms = set(w.tens.values())
    a = {'desc': {c(k): tup(*[c(x) for x in net.shapes[k]]) for k in net.inputs}, 'rng': {c(k): tup(c(lo), c(hi)) for k, (lo, hi) in net.ranges.items()},
         'host': P('host'), 'dt': R.dt(dtype)}
    a.update({k: v(w) if callable(v) else v for k, v in (args or {}).items()})
    if prepare:
        prepare(w)
    if w.load is not None:
        for t in net.consts:
            st = t if t in w.load['names'] else w.load['map'].get(t)
            if st in w.load['names']:
                w.loaded[t] = f'file:{st}'
    fi = probe.fn(mod, src)
    r = gs.run(None, fi, {x.arg: a[x.arg] for x in fi.node.args.args}, over=w.over, seconds=seconds, typer=lambda t: G if t in (GRAPH, CG) else TN if t in atoms else None,
               closed=R.Insts('MemoryPool', 'GraphInfer'), unroll=256, strict_keys=True, exact_try=True, set_items=True, track_guards=False, nonnull=R.Nonnull(w), ext_hook=R.ext, item_hook=w.item,
               summaries=w.summaries())
    return w, r

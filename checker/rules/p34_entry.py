"""P34: entry points and the command line carry out the steps their options ask for."""
import ast
import posixpath

from .. import graphsem as gs, probe, terms as T
from ..absint import V, Obj
from ..model import FunctionInfo
from ..probe import P, c, plain

TITLE = 'Entry points do what their options ask'
TECHNIQUE = ('abstract interpretation of the entry points and of the command-line module for every option combination, library calls replaced by recorded steps; the derived '
             'sequence of steps with its operands is compared with the specified one')
EXPLANATION = ('For model_profile, model_shape_regress, model_constant_folding, model_reorder_nodes, model_io_modify, model_subgraph, model_opfusion and every command-line mode, '
               'the calls made on the model, their order and their arguments are derived from the source with each option absent and present.')
LEVEL = 'bounded'
PKG, GRAPH, MODEL, MAIN, UTILS = 'onnx_tool', 'onnx_tool.graph', 'onnx_tool.model', 'onnx_tool.__main__', 'onnx_tool.utils'
M, G, RAW = P('model'), P('graph'), P('mproto')
STEPS = ('graph_reorder_nodes', 'shape_infer', 'profile', 'print_node_map', 'save_model', 'shape_regress', 'get_compute_graph', 'get_subgraph', 'get_onnxgraph_by_nodenames',
         'fuse_subgraph_iotensors', 'fuse_subgraph_node_names')
VALUES = {'shape_regress': lambda: V(P('engine')), 'get_compute_graph': lambda: V(P('cg')), 'get_onnxgraph_by_nodenames': lambda: V(P('rawsub'))}


class NonNull(set):
    def __contains__(self, t):
        return isinstance(t, tuple) and t[:1] == ('param',)


def setof(a, st):
    """('set', members) for a set with exactly known members"""
    o = st.heap.get(a[1]) if a[0] == 'ref' else None
    if o is not None and o.kind == 'set':
        return ('set', frozenset(plain(x, st) for x in o.setk)) if o.setk is not None else ('?',)
    return None


def val(v, st, I):
    if v is None or len(v) != 1:
        return ('?',)
    a, = v
    s = setof(a, st)
    return s if s is not None else plain(a, st)


def undef(x):
    if isinstance(x, (list, set)):
        return any(undef(y) for y in x)
    if isinstance(x, dict):
        return any(undef(y) for y in x.values())
    return isinstance(x, tuple) and x[:1] not in (('param',), ('set',), ('graph',), ('ext',), ('inst',))


def defaults(fi):
    a = fi.node.args
    pos = a.args
    out = {}
    for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        try:
            out[p.arg] = ast.literal_eval(d)
        except ValueError:
            pass
    return out


def record(p, fi, args, over=(), cls=None, extra=None, seconds=30):
    """(steps, run): steps are (name, receiver, {parameter: value}) in order"""
    steps, insts, sets = [], {}, []
    graph, model = p.cls(GRAPH, 'Graph'), p.cls(MODEL, 'Model')

    def step(name):
        def h(I, recv, a, kw, st, fr, node):
            if I.cur_loops if hasattr(I, 'cur_loops') else False:
                return NotImplemented
            owner = graph if recv != M else model
            m = owner.find_method(name) or graph.find_method(name)
            names = [x.arg for x in m.node.args.args][1:] if m is not None else []
            d = dict(defaults(m)) if m is not None else {}
            for n, x in zip(names, a):
                d[n] = val(x, st, I)
            for n, x in kw.items():
                d[n] = val(x, st, I)
            r = recv
            if name == 'save_model' and recv == M:
                r, d = G, dict(d, rawmodel=RAW)
            steps.append((name, insts.get(r, r), d))
            if name == 'get_subgraph':
                return V(('tuple', (P('level0'), P('level1'), P('level2'))))
            return VALUES.get(name, lambda: V(T.NONE))()
        return h

    def bound(name):
        h = step(name)
        return lambda I, f, a, kw, st, fr, node: h(I, next(iter(a[0])), a[1:], kw, st, fr, node)

    def load(I, f, a, kw, st, fr, node):
        names = [x.arg for x in f.node.args.args]
        d = dict(defaults(f))
        for n, x in list(zip(names, a)) + list(kw.items()):
            d[n] = val(x, st, I)
        steps.append(('load', None, d))
        return V(M)

    def newgraph(I, f, a, kw, st, fr, node):
        names = [x.arg for x in f.node.args.args]
        d = {n: val(x, st, I) for n, x in list(zip(names, a))[1:]}
        d.update({n: val(x, st, I) for n, x in kw.items()})
        inst = next(iter(a[0]))
        insts[inst] = ('graph', d.get('g'), d.get('mcfg') if isinstance(d.get('mcfg'), tuple) and d.get('mcfg')[:1] == ('param',) else 'own')
        return V(T.NONE)
    sm = {'loadmodel': load, 'Graph.__init__': newgraph}
    for s in STEPS:
        sm['.' + s] = step(s)
        sm['Graph.' + s] = bound(s)
        if s != 'save_model' or cls is None:
            sm['Model.' + s] = bound(s)

    def join(I, path, a, kw, st, fr, node):
        k = [plain(next(iter(x)), st) if len(x) == 1 else None for x in a]
        return V(c(posixpath.join(*k))) if k and all(isinstance(x, str) for x in k) else None
    sm['ext:os.path.join'] = join
    sm.update(extra or {})
    ov = [(M, 'graph', G), (M, 'mproto', RAW), (M, 'modelname', c('net')), (M, 'cfg', P('cfg')), (M, 'valid', c(True)), (RAW, 'graph', P('rawgraph'))] + list(over)
    r = gs.run(cls, fi.name if cls is not None else fi, args, ov, seconds=seconds, summaries=sm, nonnull=NonNull())
    return steps, r


def want(name, recv=G, **d):
    return (name, recv, d)


def agree(have, exp):
    """None when the steps agree, 'undecided', or a message"""
    for x in have:
        if any(undef(y) for y in x[2].values()) or (isinstance(x[1], tuple) and x[1][:1] == ('graph',) and any(undef(y) for y in x[1] if isinstance(y, tuple))):
            return 'undecided'
    for k in range(max(len(have), len(exp))):
        h, e = have[k] if k < len(have) else None, exp[k] if k < len(exp) else None
        if h is None:
            return f'step {e[0]} is missing after {[x[0] for x in have]}'
        if e is None:
            return f'unexpected step {h[0]}'
        if h[0] != e[0]:
            return f'{h[0]} is done where {e[0]} is expected'
        if h[1] != e[1]:
            return f'{h[0]} is done on {txt(h[1])}, not on {txt(e[1])}'
        for n, v in e[2].items():
            hv = h[2].get(n, '<not given>')
            if isinstance(v, tuple) and v[:1] == ('set',) and isinstance(hv, (list, tuple)) and not (hv and hv[0] == 'set'):
                hv = ('set', frozenset(hv))
            if hv != v:
                return f'{h[0]} gets {n}={txt(hv)}, not {txt(v)}'
    return None


def txt(v):
    if isinstance(v, tuple) and v[:1] == ('param',):
        return v[1]
    if isinstance(v, tuple) and v[:1] == ('set',):
        return '{' + ', '.join(sorted(map(txt, v[1]))) + '}'
    if isinstance(v, tuple) and v[:1] == ('graph',):
        return f'a graph of {txt(v[1])}'
    if isinstance(v, (list,)):
        return '[' + ', '.join(map(txt, v)) + ']'
    return str(v)[:80]


def entry(p, name):
    fi = p.modules[PKG].bind.get(name)
    return fi if isinstance(fi, FunctionInfo) else None


def judge(ctx, p, name, lab, args, exp, over=(), ret=None):
    fi = entry(p, name)
    if fi is None:
        ctx.fail(f'{name}:exists', f'entry point {name} does not exist', PKG)
        return
    ctx.seen(fi.where)
    pars = {a.arg for a in fi.node.args.args}
    key = f'{name}:{lab}'
    if not set(args) <= pars:
        ctx.undecided(f'{key}: {name} has no parameter {sorted(set(args) - pars)}', fi.where)
        return
    base = {n: (list(map(c, v)) if isinstance(v, (list, tuple)) else c(v)) for n, v in defaults(fi).items() if not isinstance(v, (dict, set))}
    base.update(args)
    try:
        steps, r = record(p, fi, base, over)
    except gs.TooLong:
        ctx.undecided(f'{key}: not reduced', fi.where)
        return
    if r.state is None:
        ctx.fail(key, f'{name} with {lab} fails', fi.where)
        return
    msg = agree(steps, exp)
    if msg == 'undecided' or not any(s[0] == 'load' for s in steps):
        ctx.undecided(f'{key}: {[(s[0], {k: v for k, v in s[2].items() if undef(v)}) for s in steps]}', fi.where)
    elif msg:
        ctx.fail(key, f'{name} with {lab}: {msg}', fi.where)
    elif ret is not None and [plain(a, r.state) for a in r.value] != [ret]:
        got = [plain(a, r.state) for a in r.value]
        (ctx.undecided if any(undef(x) for x in got) else lambda m, w: ctx.fail(key, m, w))(f'{name} with {lab} returns {txt(got)}, not {txt(ret)}', fi.where)
    else:
        ctx.ok(key)


def check_entries(ctx, p):
    ctx.rule('each entry point loads the given model and performs the specified steps in order, on the right graph, with the arguments its options name')
    m = P('m')
    load = want('load', None, f=m)
    for dyn in (None, P('shapes')):
        for excl in (None, ['B', 'C']):
            for prof in (None, P('profile.txt')):
                for out in (None, P('out.onnx')):
                    hid = ('set', frozenset(['A'] + (excl or [])))
                    exp = [load, want('graph_reorder_nodes'), want('shape_infer', inputs=dyn), want('profile', exclude_ops=hid),
                           want('print_node_map', f=prof, exclude_ops=hid)]
                    if out:
                        exp.append(want('save_model', f=out, shape_only=P('shape_only'), no_shape=P('no_shape'), rawmodel=RAW))
                    lab = f'dynamic_shapes {"given" if dyn else "absent"}, exclude_ops {"given" if excl else "absent"}, save_profile {"given" if prof else "absent"}, ' \
                          f'save_model {"given" if out else "absent"}'
                    judge(ctx, p, 'model_profile', lab, {
                        'm': m, 'dynamic_shapes': dyn or T.NONE, 'exclude_ops': [c(x) for x in excl] if excl else T.NONE, 'hidden_ops': [c('A')], 'mcfg': P('mcfg'),
                        'save_profile': prof or T.NONE, 'save_model': out or T.NONE, 'shape_only': P('shape_only'), 'no_shape': P('no_shape')},
                        [want('load', None, f=m, mcfg=P('mcfg'))] + exp[1:])
    judge(ctx, p, 'model_shape_regress', 'its ranges', {'m': m, 'input_desc': P('desc'), 'input_range': P('ranges')},
          [load, want('graph_reorder_nodes'), want('shape_regress', input_desc=P('desc'), input_range=P('ranges')), want('get_compute_graph')], ret=[P('engine'), P('cg')])
    judge(ctx, p, 'model_reorder_nodes', 'a path', {'m': m, 'save_model': P('out.onnx')},
          [load, want('graph_reorder_nodes'), want('save_model', f=P('out.onnx'), shape_only=False, no_shape=False, rawmodel=RAW)])
    fi = entry(p, 'model_constant_folding')
    judge(ctx, p, 'model_constant_folding', 'a path', {'m': m, 'save_model': P('out.onnx')},
          [load, want('save_model', f=P('out.onnx'), shape_only=False, no_shape=False, rawmodel=RAW)])
    if fi is not None:
        try:
            steps, r = record(p, fi, {'m': m, 'save_model': P('out.onnx')})
            cf = [s[2].get('mcfg') for s in steps if s[0] == 'load']
            if len(cf) == 1 and isinstance(cf[0], dict):
                if cf[0].get('constant_folding') is True:
                    ctx.ok('folding enabled')
                else:
                    ctx.fail('model_constant_folding:enabled', f'model_constant_folding loads the model with {cf[0]}: constants are not folded', fi.where)
        except gs.TooLong:
            pass
    ins, outs, names = [c('i')], [c('o')], [c('n')]
    sv = lambda g, f: want('save_model', g, f=f, rawmodel=RAW)
    for io in (False, True):
        for nn in (False, True):
            exp = [load]
            if io:
                exp += [want('get_subgraph', inputs=['i'], outputs=['o']), sv(P('level0'), 'd/net_level0.onnx'), sv(P('level1'), 'd/net_level1.onnx'), sv(P('level2'), 'd/net_level2.onnx')]
            if nn:
                exp += [want('get_onnxgraph_by_nodenames', nodenames=['n']), sv(('graph', P('rawsub'), P('cfg')), 'd/net_subgraph.onnx')]
            judge(ctx, p, 'model_subgraph', f'tensors {"given" if io else "absent"}, node names {"given" if nn else "absent"}',
                  {'m': m, 'in_tensor_names': ins if io else T.NONE, 'out_tensor_names': outs if io else T.NONE, 'nodenames': names if nn else T.NONE, 'save_folder': c('d')}, exp)
    for io, nn in ((True, False), (False, True)):
        exp = [load]
        if io:
            exp.append(want('fuse_subgraph_iotensors', inputs=['i'], outputs=['o'], name_prefix=P('op_name'), nodeop=P('op_type'), keep_attr=P('keep_attr')))
        else:
            exp.append(want('fuse_subgraph_node_names', nodes=['n'], nodeop=P('op_type'), nodename=P('op_name'), keep_attr=P('keep_attr')))
        exp.append(want('save_model', f=P('out.onnx'), shape_only=False, no_shape=False, rawmodel=RAW))
        judge(ctx, p, 'model_opfusion', f'tensors {"given" if io else "absent"}, node names {"given" if nn else "absent"}',
              {'m': m, 'op_type': P('op_type'), 'op_name': P('op_name'), 'save_file': P('out.onnx'), 'in_tensor_names': ins if io else T.NONE,
               'out_tensor_names': outs if io else T.NONE, 'nodenames': names if nn else T.NONE, 'keep_attr': P('keep_attr')}, exp)


def check_model(ctx, p):
    ctx.rule('saving a model saves its graph with the options given and with the model it came from')
    model = p.cls(MODEL, 'Model')
    fi = model.find_method('save_model') if model is not None else None
    if fi is None:
        ctx.undecided('Model.save_model not found', MODEL)
        return
    ctx.seen(fi.where)
    S = gs.SELF
    a = {'f': P('f'), 'shape_only': P('shape_only'), 'no_shape': P('no_shape')}
    try:
        steps, r = record(p, fi, a, [(S, 'graph', G), (S, 'mproto', RAW)], cls=model)
    except gs.TooLong:
        ctx.undecided('Model.save_model', fi.where)
        return
    msg = agree(steps, [want('save_model', f=P('f'), shape_only=P('shape_only'), no_shape=P('no_shape'), rawmodel=RAW)])
    if msg == 'undecided':
        ctx.undecided(f'Model.save_model {steps}', fi.where)
    elif msg:
        ctx.fail('Model.save_model', f'Model.save_model: {msg}', fi.where)
    else:
        ctx.ok('Model.save_model')


OPTIONS = {'constant_folding': False, 'node_rename': False, 'if_fixed_branch': None, 'fixed_topk': 0, 'verbose': False, 'remove_dangling': True}


def check_config(ctx, p):
    ctx.rule('every model option takes the value the user gives and its documented default otherwise')
    m = p.modules[UTILS]
    k = m.bind.get('ModelConfig')
    where = getattr(k, 'where', None) or UTILS
    for given, falsy in [(None, 0)] + [(x, f) for x in OPTIONS for f in (0, 1)]:
        d = {c(given): c(False) if falsy else P('value:' + given)} if given else {}
        src = 'def f(d):\n o = ModelConfig(d)\n return [' + ', '.join('o.' + x for x in OPTIONS) + ']\n'
        try:
            r = gs.run(None, probe.fn(m, src), {'d': d}, seconds=20)
            res = probe.results(r)
        except gs.TooLong:
            res = []
        exp = [(False if falsy else P('value:' + x)) if x == given else v for x, v in OPTIONS.items()]
        if len(res) != 1 or not isinstance(res[0], list) or any(undef(x) for x in res[0]):
            ctx.undecided(f'options {given}: {str(res)[:100]}', where)
        elif all(a == b and (a is b or type(a) is type(b)) for a, b in zip(res[0], exp)):
            ctx.ok(f'config:{given}{" (false)" if falsy else ""}')
        else:
            i = next(i for i in range(len(exp)) if res[0][i] != exp[i] or type(res[0][i]) is not type(exp[i]))
            ctx.fail(f'config:{given}{" (false)" if falsy else ""}', f'with {given or "no option"} given, option {list(OPTIONS)[i]} is {txt(res[0][i])}, not {txt(exp[i])}', where)


def check_io(ctx, p):
    ctx.rule('model_io_modify gives every dimension of exactly the named inputs and outputs the requested extent or variable name, then saves the modified model')
    fi = entry(p, 'model_io_modify')
    if fi is None:
        ctx.fail('model_io_modify:exists', 'entry point model_io_modify does not exist', PKG)
        return
    ctx.seen(fi.where)
    RG = P('rawgraph')
    names = {'input': ['x', 'y'], 'output': ['o', 'q']}
    for lab, custom in (('an input', {'x': '1x3xhxw'}), ('an output', {'q': 'nx5'}), ('an input and an output', {'y': '7x8', 'o': 'batchx9'}), ('nothing', {})):
        over = [(RAW, 'graph', RG)]
        dims = {}
        for io, l in names.items():
            over.append((RG, io, [P(f'{io}:{n}') for n in l]))
            for n in l:
                a = P(f'{io}:{n}')
                ds = [P(f'dim:{n}{j}') for j in range(len(custom[n].split('x')) if n in custom else 2)]
                dims[n] = ds
                t, tt, sh = P('type:' + n), P('tt:' + n), P('shape:' + n)
                over += [(a, 'name', c(n)), (a, 'type', t), (t, 'tensor_type', tt), (tt, 'shape', sh), (sh, 'dim', ds)]
        m = P('m')
        try:
            steps, r = record(p, fi, {'m': m, 'save_model': P('out.onnx'), 'custom_io': {c(k): c(v) for k, v in custom.items()}}, over)
        except gs.TooLong:
            ctx.undecided(f'model_io_modify:{lab}', fi.where)
            continue
        key = f'model_io_modify:{lab}'
        if r.state is None:
            ctx.fail(key, f'model_io_modify naming {lab} fails', fi.where)
            continue
        exp = {}
        for n, s in custom.items():
            for d, v in zip(dims[n], s.split('x')):
                exp[d] = ('dim_value', int(v)) if v.isnumeric() else ('dim_param', v)
        have, odd = {}, None
        for e in r.events:
            if e.kind == 'setattr' and e.atom[0] == 'param' and e.atom[1].startswith('dim:') and e.how in ('dim_value', 'dim_param'):
                vs = [plain(a, r.state) for a in e.extra or ()]
                if len(vs) != 1 or undef(vs[0]) or any(g[0] == 'if' for s in e.guardsets for g in s):
                    odd = f'{e.atom[1]}.{e.how}'
                else:
                    have[e.atom] = (e.how, vs[0])
        if odd:
            ctx.undecided(f'{key}: {odd}', fi.where)
            continue
        bad = next((d for d in sorted(set(have) | set(exp)) if have.get(d) != exp.get(d)), None)
        msg = agree(steps, [want('load', None, f=m), want('save_model', ('graph', RG, 'own'), f=P('out.onnx'), rawmodel=RAW)])
        if bad is not None:
            ctx.fail(key, f'model_io_modify naming {lab}: dimension {bad[1][4:]} is set to {txt(have.get(bad, "nothing"))}, not to {txt(exp.get(bad, "nothing"))}', fi.where)
        elif msg == 'undecided':
            ctx.undecided(f'{key}: {steps}', fi.where)
        elif msg:
            ctx.fail(key, f'model_io_modify naming {lab}: {msg}', fi.where)
        else:
            ctx.ok(key)


def main_function(p):
    """the command-line module as a function"""
    m = p.modules.get(MAIN)
    if m is None:
        return None

    class Sub(ast.NodeTransformer):
        def visit_Name(self, n):
            return ast.copy_location(ast.Constant('__main__'), n) if n.id == '__name__' else n
    body = [Sub().visit(ast.parse(ast.unparse(s)).body[0]) for s in m.tree.body if not isinstance(s, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef))]
    if not body:
        return None
    f = ast.parse('def command_line():\n pass').body[0]
    f.body = body
    ast.fix_missing_locations(f)
    return FunctionInfo('command_line', m, f)


ARGS = P('args')


def command(p, fi, opts):
    calls = []
    over = [(ARGS, k, (v if isinstance(v, tuple) and v[:1] == ('param',) else [c(x) for x in v] if isinstance(v, list) else c(v))) for k, v in opts.items()]
    sm = {'.parse_args': lambda I, recv, a, kw, st, fr, node: V(ARGS), '.add_argument': lambda I, recv, a, kw, st, fr, node: V(T.NONE)}

    def rec(name):
        def h(I, f, a, kw, st, fr, node):
            d = dict(defaults(f))
            for n, x in list(zip([y.arg for y in f.node.args.args], a)) + list(kw.items()):
                d[n] = val(x, st, I)
            calls.append((name, None, d))
            return V(T.NONE)
        return h

    def zeros(I, path, a, kw, st, fr, node):
        shape = val(a[0], st, I) if a else val(kw.get('shape'), st, I)
        dt = val(a[1] if len(a) > 1 else kw.get('dtype'), st, I)
        if undef(shape) or not isinstance(shape, list):
            return None
        return V(P(f'zeros {shape} {dt[1] if isinstance(dt, tuple) else dt}'))

    def array(I, path, a, kw, st, fr, node):
        v = val(a[0], st, I) if a else ('?',)
        dt = val(a[1] if len(a) > 1 else kw.get('dtype'), st, I)
        if not isinstance(v, list):
            return None
        return V(P(f'array {dt[1] if isinstance(dt, tuple) else dt}'))

    def reshape(I, recv, a, kw, st, fr, node):
        sh = val(a[0], st, I) if a else ('?',)
        return V(P(f'{recv[1]} {sh}')) if recv[0] == 'param' and not undef(sh) else NotImplemented
    for name, f in p.modules[PKG].bind.items():
        if name.startswith('model_') and isinstance(f, FunctionInfo):
            sm[name] = rec(name)
    sm.update({'ext:numpy.zeros': zeros, 'ext:numpy.array': array, '.reshape': reshape})
    r = gs.run(None, fi, {}, over, seconds=30, summaries=sm, nonnull=NonNull())
    return calls, r


def check_command(ctx, p):
    ctx.rule('every command-line mode runs its own entry point once with the model, the output and the options given, and no option is lost or exchanged')
    fi = main_function(p)
    if fi is None:
        ctx.undecided('command line module not found', MAIN)
        return
    ctx.seen(f'{p.modules[MAIN].path}')
    base = {'in_': P('in'), 'out': None, 'names': None, 'exclude_ops': None, 'dynamic_shapes': None, 'fp16': False, 'file': None}
    cases = []
    pr = lambda **k: ('model_profile', None, dict({'m': P('in'), 'dynamic_shapes': None, 'exclude_ops': None, 'save_profile': None, 'save_model': None}, **k))
    cases.append(('profile', {}, pr()))
    cases.append(('profile', {'out': P('out')}, pr(save_model=P('out'))))
    cases.append(('profile', {'file': P('file')}, pr(save_profile=P('file'))))
    cases.append(('profile', {'exclude_ops': 'Conv,Relu', 'out': P('out'), 'file': P('file')}, pr(exclude_ops=('set', frozenset(['Conv', 'Relu'])), save_model=P('out'), save_profile=P('file'))))
    cases.append(('profile', {'dynamic_shapes': ['a:f32:1x3', 'b:int32:7x8x9']}, pr(dynamic_shapes={'a': P('zeros [1, 3] numpy.float32'), 'b': P('zeros [7, 8, 9] numpy.int32')})))
    cases.append(('profile', {'dynamic_shapes': ['a:f32:1x2:0.25x0.5']}, pr(dynamic_shapes={'a': P('array numpy.float32 [1, 2]')})))
    ex = lambda **k: ('model_export_tensors_numpy', None, dict({'m': P('in'), 'tensornames': None, 'savefolder': None, 'fp16': False}, **k))
    cases.append(('export_tensors', {}, ex()))
    cases.append(('export_tensors', {'out': P('out'), 'fp16': True}, ex(savefolder=P('out'), fp16=True)))
    cases.append(('export_tensors', {'names': ['p', 'q'], 'out': P('out')}, ex(savefolder=P('out'), tensornames=['p', 'q'])))
    cases.append(('constant_folding', {'out': P('out')}, ('model_constant_folding', None, {'m': P('in'), 'save_model': P('out')})))
    cases.append(('io_modify', {'out': P('out'), 'dynamic_shapes': ['a:1x3xhxw', 'b:nx4']}, ('model_io_modify', None, {'m': P('in'), 'save_model': P('out'), 'custom_io': {'a': '1x3xhxw', 'b': 'nx4'}})))
    for mode, opts, exp in cases:
        given = [f'--{k}' for k in opts]
        lab = f'{mode} {" ".join(given)}'.strip()
        if not all(k in ('mode',) or True for k in opts):
            continue
        try:
            calls, r = command(p, fi, dict(base, mode=mode, **opts))
        except gs.TooLong:
            ctx.undecided(f'command line {lab}', MAIN)
            continue
        key = f'cli:{lab}'
        if r.state is None:
            ctx.fail(key, f'the command line with mode {lab} fails', p.modules[MAIN].path)
            continue
        msg = agree(calls, [exp])
        if msg == 'undecided':
            ctx.undecided(f'command line {lab}: {calls}', MAIN)
        elif msg:
            ctx.fail(key, f'command line, mode {lab}: {msg}', p.modules[MAIN].path)
        else:
            ctx.ok(key)


def check_choices(ctx, p):
    ctx.rule('every mode the parser offers is one that is handled, and every option read is one the parser defines')
    m = p.modules.get(MAIN)
    if m is None:
        return
    dests, choices = set(), None
    for s in ast.walk(m.tree):
        if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr == 'add_argument':
            names = [a.value for a in s.args if isinstance(a, ast.Constant)]
            if len(names) != len(s.args):
                return
            d = next((k.value.value for k in s.keywords if k.arg == 'dest' and isinstance(k.value, ast.Constant)), None)
            d = d or next((n[2:].replace('-', '_') for n in names if n.startswith('--')), names[0].lstrip('-') if names else None)
            dests.add(d)
            if d == 'mode':
                ch = next((k.value for k in s.keywords if k.arg == 'choices'), None)
                if isinstance(ch, (ast.List, ast.Tuple)) and all(isinstance(e, ast.Constant) for e in ch.elts):
                    choices = [e.value for e in ch.elts]
                df = next((k.value.value for k in s.keywords if k.arg == 'default' and isinstance(k.value, ast.Constant)), None)
                if choices is not None and df is not None and df not in choices:
                    ctx.fail('cli:default', f'the default mode {df} is not among the choices {choices}', m.path)
    if not dests:
        return
    for k in ('mode', 'in_', 'out', 'names', 'exclude_ops', 'dynamic_shapes', 'fp16', 'file'):
        if k in dests:
            ctx.ok(f'cli:option {k}')
        else:
            ctx.fail(f'cli:option {k}', f'option {k} is read but the parser defines {sorted(dests)}', m.path)
    if choices is not None:
        for k in ('profile', 'export_tensors', 'constant_folding', 'io_modify'):
            if k not in choices:
                ctx.fail(f'cli:mode {k}', f'mode {k} cannot be chosen: {choices}', m.path)
        fi = main_function(p)
        for k in choices:
            try:
                calls, r = command(p, fi, {'in_': P('in'), 'out': P('out'), 'names': None, 'exclude_ops': None, 'dynamic_shapes': ['a:f32:1x3'] if k != 'io_modify' else ['a:1x3'], 'fp16': False,
                                           'file': None, 'mode': k})
            except gs.TooLong:
                continue
            if r.state is not None and not calls:
                ctx.fail(f'cli:handled {k}', f'mode {k} is offered but does nothing', m.path)
            else:
                ctx.ok(f'cli:handled {k}')


def check(ctx):
    p = gs.program()
    check_entries(ctx, p)
    check_model(ctx, p)
    check_config(ctx, p)
    check_io(ctx, p)
    check_command(ctx, p)
    check_choices(ctx, p)

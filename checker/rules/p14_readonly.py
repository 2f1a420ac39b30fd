"""P14: questions asked of a model do not change it."""
import ast

from .. import graphsem as gs, model, terms as T
from ..model import AnalysisBroken
from .p08_isolation import root, params

TITLE = 'Questions asked of a model do not change it'
TECHNIQUE = ('alias-rooted effect analysis of every query, export and extraction (helpers inlined): every attribute write, container change and '
             'call of a changing method is traced to the object it reaches; separation of the containers of extracted graphs')
EXPLANATION = ('Each read-only operation is interpreted abstractly on access paths with all helpers inlined. An effect whose root is the model the question '
               'is asked of, or anything reachable from it, is a violation. For operations that hand out a graph, every container of the '
               'result is followed back: one that is the original\'s own container is a violation.')

# class or None -> names; the question's subject is self or the first graph-like parameter
READONLY = {
    ('onnx_tool.graph', 'Graph'): ['get_subgraph', '__get_subnodes_byio__', 'get_initials_from_nodenames', 'get_onnxgraph_by_nodenames', 'save_model',
                                   'make_graph_onnx', 'topsort_nodes', 'get_iotensors', 'get_dynamic_tensors', 'check_inputs',
                                   'compress_memory', 'get_compute_graph', 'print_node_map', 'log', '__is_node_constant__'],
    ('onnx_tool.graph', 'ShapeEngine'): ['get_tensor_desc', 'generate_input', '__get_shape_from_desc__', 'get_tensorshape'],
    ('onnx_tool.model', 'Model'): ['save_model'],
    ('onnx_tool.fusion', 'FusionPattern'): ['search_pattern', 'search_node'],
    ('onnx_tool.fusion', 'NodeCondition'): ['is_node'],
    ('onnx_tool.fusion', 'AttrExpr'): ['logical', '__call__'],
    ('onnx_tool.fusion', None): ['create_descs_from_nodenames'],
    ('onnx_tool.serialization', None): ['serialize_graph', 'serialize_shape_engine', 'serialize_memory_compression'],
    ('onnx_tool.tensor', 'Tensor'): ['shape2str', 'get_shape', 'get_scalar', 'get_valueorshape', 'get_elementsize', 'get_memsize',
                                     'make_value_proto', 'make_tensor_proto'],
    ('onnx_tool.node', 'Node'): ['make_nodeproto'],
}
PREFIX = ('get_', 'make_', 'print_', 'save_', 'search_', 'check_', 'serialize_', 'find_', 'export_', 'list_', 'dump_', 'to_')
NOT_QUERY = {'get_numpy'}      # materialises missing data on request
HELPER_SUBJECTS = ('graph', 'g', 'self', 'engine', 'node', 'x', 'model', 'tensor')
CONTAINERS = ('nodemap', 'tensormap', 'producedby', 'consumedby', 'input', 'output', 'initials', 'dynamics')
LISTS = {'input', 'output', 'initials', 'dynamics', 'prevnodes', 'nextnodes'}


def targets(p):
    for (mn, cn), names in READONLY.items():
        m = p.modules.get(mn)
        if m is None:
            continue
        if cn is None:
            for n in names:
                f = m.bind.get(n)
                if isinstance(f, model.FunctionInfo):
                    yield None, f
            for n, f in m.bind.items():
                if isinstance(f, model.FunctionInfo) and f.module is m and n not in names and n.startswith('serialize_'):
                    yield None, f
            continue
        c = m.bind.get(cn)
        if not isinstance(c, model.ClassInfo):
            continue
        for n in names:
            if n in c.methods:
                yield c, c.methods[n]
        for n, f in c.methods.items():
            if n not in names and n.startswith(PREFIX) and n not in NOT_QUERY:
                yield c, f


def heavy(g):
    """building a new graph from a file structure only fills the new graph; what the constructor does to its arguments is looked at once"""
    return g.qualname == 'Graph.__init__'


def changing_methods(p):
    """method name -> parameters (0 = receiver) a method of that name changes in some class of the package"""
    out = {}
    from .p08_isolation import effects
    for m in p.modules.values():
        for c in m.bind.values():
            if isinstance(c, model.ClassInfo) and c.module is m:
                for n, f in c.methods.items():
                    if n.startswith('__') and n.endswith('__'):
                        continue
                    out.setdefault(n, []).append((c, f))
    return out


def direct_effects(p, f, c, memo):
    from .p08_isolation import effects
    k = f.qualname
    if k not in memo:
        memo[k] = set()
        try:
            evs = effects(p, f, c)
        except RecursionError:
            evs = []
        for e in evs:
            if e.kind in ('mutate', 'setattr') and e.how != 'augassign':
                r, path = root(e.atom)
                if r[0] == 'param':
                    memo[k].add(r[1])
    return memo[k]


def check(ctx):
    ctx.rule('no query, export, search, plan or extraction writes an attribute, container or array reachable from the model it is asked of')
    ctx.rule('a graph handed out separately has its own node table, tensor table, relations and name lists')
    ctx.assume('Tensor.get_numpy materialises missing data by design and is not a query')
    p = gs.program()
    byname = changing_methods(p)
    memo = {}
    n = 0
    for c, fi in targets(p):
        n += 1
        ctx.seen(fi.module.rel + ':' + fi.qualname)
        try:
            if c is not None and not fi.is_static():
                r = gs.run_cut(c, fi.name, opaque=heavy)
            else:
                r = gs.run_cut(None, fi, opaque=heavy)
        except RecursionError:
            ctx.undecided('not analysed', fi.where)
            continue
        own = c is not None and c.name == 'FusionPattern'    # the pattern keeps its own search state
        bad = False
        for e in r.events:
            hit = None
            if e.kind in ('mutate', 'setattr'):
                rt, path = root(e.atom)
                if rt[0] != 'param':
                    continue
                if own and rt == gs.SELF:
                    continue
                if e.how == 'augassign':
                    if not (e.atom[0] == 'attr' and e.atom[2] in LISTS):
                        continue
                if e.kind == 'mutate' and rt[1] not in subjects(fi, c) and not any(s.startswith('.') for s in path):
                    continue      # an output buffer or an accumulator of the caller
                hit = f'changes {T.show(e.atom)[:90]} ({e.how})'
                key = f'{T.show(e.atom)[:60]}:{e.how}'
            elif e.kind == 'opaquecall':
                eff = direct_effects(p, e.how, e.how.cls, memo)
                for prm, x in e.extra:
                    if prm in eff and prm != 'self' and root(x)[0][0] == 'param':
                        hit = f'hands {T.show(x)[:80]} to {e.how.qualname}, which changes it'
                        key = f'{T.show(x)[:60]}:{e.how.qualname}'
            elif e.kind == 'methodcall':
                rt, path = root(e.atom)
                for cc, f in byname.get(e.how, ()):
                    if cc.module.name.startswith('onnx_tool') is False:
                        continue
                    eff = direct_effects(p, f, cc, memo)
                    ps = params(f)
                    if rt[0] == 'param' and 'self' in eff and not (own and rt == gs.SELF) and not (e.how in dict.__dict__ or e.how in list.__dict__ or e.how in set.__dict__):
                        if rt[1] in subjects(fi, c) or any(s.startswith('.') for s in path):
                            hit = f'calls {e.how}() on {T.show(e.atom)[:80]}, which changes it'
                            key = f'{T.show(e.atom)[:60]}:{e.how}'
                    for k, x in e.extra:
                        nm = ps[k + 1] if isinstance(k, int) and k + 1 < len(ps) else k
                        xs = [x]
                        if x[0] == 'ref':
                            continue
                        rx, px = root(x)
                        if nm in eff and rx[0] == 'param' and px:
                            hit = f'hands {T.show(x)[:80]} to {e.how}(), which changes it'
                            key = f'{T.show(x)[:60]}:{e.how}'
            if hit:
                bad = True
                ctx.fail(f'effect:{fi.qualname}:{key}', f'{fi.qualname} {hit}', e.where)
        if not bad:
            ctx.ok(f'{fi.qualname}: {len(r.events)} effects, none reaches the model')
        handed_out(ctx, r, fi, c)
    ctx.floor('read-only operations', n, 25)


def subjects(fi, c):
    ps = params(fi)
    if c is not None and not fi.is_static():
        return {ps[0] if ps else 'self', 'self'} | {x for x in ps if x in HELPER_SUBJECTS}
    return {x for x in ps if x in HELPER_SUBJECTS}


def level1(state, atoms):
    """values directly held by the containers the atoms stand for"""
    out = set()
    for a in atoms:
        if a[0] == 'ref':
            o = state.heap.get(a[1])
            if o is None:
                continue
            out |= set(o.elem or ())
            for i in (o.items or []):
                out |= set(i)
            for v in (o.keys or {}).values():
                out |= set(v)
        elif a[0] == 'call' and a[1] in ('copy', 'dict') and a[2]:
            out |= {T.idx(a[2][0], ('each', a[2][0]))}
    return out


def handed_out(ctx, r, fi, c):
    """containers of a separate graph"""
    if c is None or c.name != 'Graph' or not r.value or r.state is None:
        return
    for a in r.value:
        if a == gs.SELF:
            if fi.name in ('get_compute_graph', 'get_subgraph'):
                ctx.fail(f'alias:{fi.qualname}:self', f'{fi.qualname} hands out the graph itself', fi.where)
            continue
        if a[0] != 'inst':
            for cn in CONTAINERS:
                if a == T.attr(gs.SELF, cn):
                    ctx.fail(f'alias:{fi.qualname}:{cn}', f'{fi.qualname} hands out the model\'s own {cn}', fi.where)
            continue
        if a not in getattr(r.I, 'copied', {}):
            continue
        for cn in CONTAINERS:
            v = r.state.over.get((a, cn))
            own = T.attr(gs.SELF, cn)
            if v is None or own in v:
                ctx.fail(f'alias:{fi.qualname}:{cn}', f'{fi.qualname} hands out a graph whose {cn} is the original\'s own: editing one edits the other', fi.where)
                continue
            ctx.ok(f'{fi.qualname}: own {cn}')
            if cn in ('producedby', 'consumedby'):
                if any(x == T.idx(own, ('each', own)) for x in level1(r.state, v)):
                    ctx.fail(f'alias:{fi.qualname}:{cn}[]', f'{fi.qualname} hands out a graph whose {cn} lists are the original\'s own lists', fi.where)
                else:
                    ctx.ok(f'{fi.qualname}: own {cn} lists')
            if cn == 'nodemap':
                vs = level1(r.state, v)
                if any(x == T.idx(own, ('each', own)) for x in vs):
                    ctx.fail(f'alias:{fi.qualname}:nodes', f'{fi.qualname} hands out a graph whose operators are the original\'s own operators', fi.where)
                    continue
                for x in vs:
                    if x[0] == 'call' and x[1] == 'copy' or x[0] == 'inst' and x in getattr(r.I, 'copied', {}):
                        for an in ('input', 'output'):
                            w = r.state.over.get((x, an))
                            src = x[2][0] if x[0] == 'call' else r.I.copied[x]
                            if w is None or T.attr(src, an) in w:
                                ctx.fail(f'alias:{fi.qualname}:nodes.{an}', f'{fi.qualname} hands out a graph whose operators share their {an} lists with the original\'s', fi.where)
                            else:
                                ctx.ok(f'{fi.qualname}: own operator {an} lists')

"""P16: a saved model describes the same computation as the graph it was saved from."""
import ast
import itertools

from .. import graphsem as gs, model, probe, terms as T
from ..absint import V
from ..probe import P, c, plain

TITLE = 'A saved model describes the same computation'
TECHNIQUE = ('abstract interpretation of the save path over an enumeration of small graph shapes and save options (callees replaced by named results), compared with '
             'the specified contents of the written graph; table agreement for the element-type maps; effect check on operator attributes')
EXPLANATION = ('What is handed to the ONNX constructors is derived from the source for graphs with shared, unused, data-less, input and output constants, for every '
               'combination of options: operators, their order, names, operands, attributes, domain; the interface; constants with shape, type and data; operator-set versions.')
GRAPH, NODE, TENSOR, MODEL = 'onnx_tool.graph', 'onnx_tool.node', 'onnx_tool.tensor', 'onnx_tool.model'
PROTO = ('name', 'op_type', 'domain')


def params_of(fi):
    return [a.arg for a in fi.node.args.args if a.arg != 'self']


def bind(names, args, kwargs):
    """argument values of a call to a constructor with these parameter names"""
    out = dict(kwargs)
    for n, a in zip(names, args):
        out.setdefault(n, a)
    return out


class NonNull(set):
    def __contains__(self, t):
        return isinstance(t, tuple) and (t[:1] == ('call',) and t[1] in ('tproto', 'vproto', 'nproto', 'valueinfo') or t[:1] == ('param',) and t[1] not in ('shape_only',))


# operator-set imports of the source model: default set, vendor sets, first and later versions
OPSETS = {'std': ('', 13), 'ms': ('com.microsoft', 1), 'ml': ('ai.onnx.ml', 3)}
NONNULL = NonNull()


def one(vals):
    return next(iter(vals)) if vals is not None and len(vals) == 1 else None


MAKE_NODE = ['op_type', 'inputs', 'outputs', 'name', 'doc_string', 'domain', 'overload']
MAKE_TENSOR = ['name', 'data_type', 'dims', 'vals', 'raw']
MAKE_VI = ['name', 'elem_type', 'shape', 'doc_string']
MAKE_GRAPH = ['nodes', 'name', 'inputs', 'outputs', 'initializer', 'doc_string', 'value_info']
MAKE_MODEL = ['graph']


def check_node(ctx, p):
    base = p.cls(NODE, 'Node')
    ctx.rule('an operator is written with its own type, inputs, outputs, name and domain, and with every attribute it was read with')
    impls = [f for f in p.functions() if f.name == 'make_nodeproto' and f.cls]
    for fi in impls:
        ctx.seen(fi.where)
        calls = []

        def mk(I, path, args, kwargs, st, fr, node):
            calls.append((bind(MAKE_NODE, args, kwargs), I.cur_kwstar, st, {k: frozenset(I.as_term(a, st) for a in v) for k, v in bind(MAKE_NODE, args, kwargs).items()}))
            return V(P('proto'))
        try:
            r = gs.run(fi.cls, fi.name, summaries={'ext:onnx.helper.make_node': mk}, seconds=30)
        except gs.TooLong:
            ctx.undecided('not reduced', fi.where)
            continue
        if not calls:
            ctx.undecided('no onnx.helper.make_node call reached', fi.where)
            continue
        for b, kw, st, terms in calls:
            for par, want in (('op_type', 'op_type'), ('inputs', 'input'), ('outputs', 'output'), ('name', 'name'), ('domain', 'domain')):
                v = {gs.norm(x) for x in terms.get(par, ())}
                w = T.attr(gs.SELF, want)
                ok = v == {w} or {strip_copy(x) for x in v} == {w}
                if ok:
                    ctx.ok(f'{fi.qualname}: {par} is the operator\'s {want}')
                elif not v or all(x[0] in ('attr', 'const', 'none') for x in v):
                    ctx.fail(f'node:{fi.qualname}:{par}', f'the written operator\'s {par} is {" | ".join(T.show(x) for x in v) or "left out"}, not the operator\'s own {want}', fi.where)
                else:
                    ctx.undecided(f'{par} is {" | ".join(T.show(x)[:80] for x in v)}', fi.where)
            attrs = {gs.norm(x) for x in kw or ()}
            A = T.attr(gs.SELF, 'attr')
            if attrs and {strip_copy(x) for x in attrs} == {A}:
                ctx.ok(f'{fi.qualname}: written with all its attributes')
            elif attrs == {P('all')} or not attrs:
                extra = set(b) - set(MAKE_NODE)
                ctx.fail(f'node:{fi.qualname}:attr', f'the operator is written without its attributes{" (only " + ", ".join(sorted(extra)) + ")" if extra else ""}', fi.where)
            else:
                ctx.undecided(f'attributes given as {" | ".join(T.show(x)[:80] for x in attrs)}', fi.where)
    if not impls:
        ctx.undecided('no make_nodeproto', NODE)
    # reading: each attribute of the source proto is recorded under its own name, whatever it is
    init = base.find_method('__init__')
    ctx.seen(init.where)
    n = P(params_of(init)[0])
    atts = [P('att0'), P('att1'), P('att2')]
    names = ['axes', 'kernel_shape', 'other']
    for form in ('list', 'dict'):
        over = [(n, 'attribute', atts if form == 'list' else {c(x): a for x, a in zip(names, atts)})]
        over += [(a, 'name', c(x)) for a, x in zip(atts, names)]
        try:
            r = gs.run(base, '__init__', over=over, seconds=60, summaries={
                'ext:onnx.helper.get_attribute_value': lambda I, path, args, kwargs, st, fr, node: V(('call', 'value', (I.one(args[0], st),), ())),
                'get_attribute_data': lambda I, f, args, kwargs, st, fr, node: V(('call', 'pyvalue', (I.one(args[0], st),), ()))})
        except gs.TooLong:
            ctx.undecided('reading attributes not reduced', init.where)
            continue
        got = r.state.over.get((gs.SELF, 'attr'))
        g = plain(one(got), r.state) if got and one(got) else None
        filtered = set()
        for a, x in zip(atts, names):
            gsets = [gs.normg(gg) for e in r.of('mutate') if e.how == 'setitem' and got and e.atom == one(got) and
                     any(a in T.subterms(y) for y in (e.extra if isinstance(e.extra, frozenset) else ())) for gg in e.guardsets]
            gsets = [frozenset(q for q in gg if q[0] == 'if' and any(a in T.subterms(t) for t in q[1])) for gg in gsets]
            if gsets and all(gsets) and len(set(gsets)) == 1 and len(gsets[0]) == 1:
                filtered.add(x)
                ctx.fail(f'read:{form}:conditional', f'attribute {x!r} is kept only if {gs.showg(gsets[0])[:120]}', init.where)
        if filtered:
            continue
        if not isinstance(g, dict):
            ctx.undecided(f'attributes read from a {form}: {str(g)[:80]}', init.where)
        else:
            for x, a in zip(names, atts):
                want = [('call', 'value', (a,), ())] if form == 'list' else [a]
                v = g.get(x)
                if x not in g:
                    ctx.fail(f'read:{form}:missing', f'attribute {x!r} of the source operator is not kept', init.where)
                elif v in want or form == 'list' and v == ('call', 'pyvalue', (a,), ()):
                    ctx.ok(f'attribute {x!r} kept from a {form}')
                elif isinstance(v, tuple) and v[:1] in (('param',), ('call',)) and any(s in atts and s != a for s in T.subterms(v)):
                    ctx.fail(f'read:{form}:value', f'attribute {x!r} holds the value of another attribute', init.where)
                else:
                    ctx.undecided(f'attribute {x!r} read as {str(v)[:80]}', init.where)
        for f in PROTO:
            v = {gs.norm(x) for x in (r.state.over.get((gs.SELF, f)) or ())}
            okv = {T.attr(n, f), ('call', 'getattr', (n, c(f), c('')), ())}
            if v and (v <= okv or any(T.attr(n, f) == x for x in v)):
                ctx.ok(f'{f} kept')
            elif not v or all(x[0] in ('const', 'none', 'attr') for x in v):
                ctx.fail(f'read:{f}', f'the operator\'s {f} is recorded as {" | ".join(T.show(x) for x in v) or "nothing"}', init.where)
            else:
                ctx.undecided(f'{f} read as {" | ".join(T.show(x)[:60] for x in v)}', init.where)
    # nothing removes attributes afterwards
    n_del = 0
    for f in p.functions():
        if not f.module.name.startswith('onnx_tool'):
            continue
        for x in ast.walk(f.node):
            tgt = None
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('pop', 'clear', 'popitem') and isinstance(x.func.value, ast.Attribute) and x.func.value.attr == 'attr':
                tgt = x
            if isinstance(x, ast.Delete) and any(isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and t.value.attr == 'attr' for t in x.targets):
                tgt = x
            if tgt is not None:
                n_del += 1
                if f.name in ('shape_infer', 'value_infer', 'profile', '__init__', 'make_nodeproto', 'save_model', 'make_graph_onnx'):
                    ctx.fail(f'attr-removed:{f.qualname}', 'attributes of an operator are removed while it is analysed or written', f.where)
    ctx.count('attribute removals found', n_del)


def strip_copy(t):
    while t[0] == 'call' and t[1] in ('list', 'dict', 'tuple', 'copy', 'deepcopy', 'str') and len(t[2]) == 1:
        t = t[2][0]
    return t


def fixture(nodes, initials, dynamics, nodata=()):
    """a graph: nodes {name: (inputs, outputs)}"""
    S = gs.SELF
    N = {k: P('node:' + k) for k in nodes}
    TN = {x: P('tensor:' + x) for x in list(initials) + list(dynamics)}
    over = [(S, 'nodemap', {c(k): N[k] for k in nodes}), (S, 'initials', [c(x) for x in initials]), (S, 'dynamics', [c(x) for x in dynamics]),
            (S, 'tensormap', {c(k): v for k, v in TN.items()})]
    for k, (i, o) in nodes.items():
        over += [(N[k], 'input', [c(x) for x in i]), (N[k], 'output', [c(x) for x in o]), (N[k], 'name', c(k))]
    for x, t in TN.items():
        over += [(t, 'name', c(x)), (('call', 'tproto', (t,), ()), 'name', c(x)), (('call', 'vproto', (t,), ()), 'name', c(x))]
        if x in nodata or x not in initials:
            over.append((t, 'numpy', T.NONE))
    return N, TN, over


def protos(TN, nodata):
    """summaries for the per-object constructors"""
    def tp(I, f, args, kwargs, st, fr, node):
        a = one(args[0])
        nm = next((k for k, v in TN.items() if v == a), None)
        return V(T.NONE) if nm is None or nm in nodata or nm in TN and False else V(('call', 'tproto', (a,), ()))

    def vp(I, f, args, kwargs, st, fr, node):
        return V(('call', 'vproto', (one(args[0]) or T.TOP,), ()))

    def np_(I, f, args, kwargs, st, fr, node):
        return V(('call', 'nproto', (one(args[0]) or T.TOP,), ()))
    return {'Tensor.make_tensor_proto': tp, 'Tensor.make_value_proto': vp, 'Node.make_nodeproto': np_}


def typer(p):
    Tn, Nd, G = p.cls(TENSOR, 'Tensor'), p.cls(NODE, 'Node'), p.cls(GRAPH, 'Graph')

    def ty(t):
        if t == gs.SELF:
            return G
        if t[0] == 'param' and t[1].startswith('tensor:'):
            return Tn
        if t[0] == 'param' and t[1].startswith('node:'):
            return Nd
    return ty


def name_of(x):
    """name of a proto term made by the summaries"""
    if isinstance(x, tuple) and x[:1] == ('call',) and x[1] in ('tproto', 'vproto', 'nproto') and x[2][0][0] == 'param':
        return x[1], x[2][0][1].split(':', 1)[1]
    if isinstance(x, tuple) and x[:1] == ('call',) and x[1] == 'valueinfo' and x[2][0][0] == 'const':
        return 'vproto', x[2][0][2]
    return None


NODES = {'n0': (['a', 'w1', 'w2', ''], ['t']), 'n1': (['w1', 't'], ['o']), 'n2': (['w3', 't'], ['u'])}
INITIALS = ['w1', 'w2', 'w3', 'w4']
DYNAMICS = ['a', 't', 'o', 'u']
# (label, selected nodes, inputs, outputs)
GRAPHS = [('the whole graph', ['n0', 'n1', 'n2'], ['a'], ['o', 'u']),
          ('part of the graph', ['n0', 'n1'], ['a'], ['o']),
          ('a part that starts inside', ['n2'], ['t'], ['u']),
          ('a graph with a constant as input', ['n0', 'n1'], ['a', 'w2'], ['o']),
          ('a graph with a constant as output', ['n0', 'n1'], ['a'], ['o', 'w2']),
          ('a graph with an unused constant as output', ['n0', 'n1'], ['a'], ['o', 'w4']),
          ('a graph with an input without tensor', ['n0', 'n1'], ['zz', 'a'], ['o']),
          ('a reordered part', ['n1', 'n2'], ['t'], ['u', 'o'])]
NODATA = [(), ('w2',), ('w1', 'w3'), ('w1', 'w2', 'w3', 'w4')]


def check_initials(ctx, p):
    G = p.cls(GRAPH, 'Graph')
    fi = G.find_method('get_initials_from_nodenames')
    if fi is None:
        return ctx.undecided('no get_initials_from_nodenames', GRAPH)
    ctx.seen(fi.where)
    ctx.rule('every constant read by a written operator is written once, with its data')
    for (label, sel, _, _), nodata in itertools.product(GRAPHS, NODATA):
        N, TN, over = fixture(NODES, INITIALS, DYNAMICS, nodata)
        try:
            r = gs.run(G, fi.name, args={params_of(fi)[0]: [c(x) for x in sel]}, over=over, summaries=protos(TN, nodata), typer=typer(p), nonnull=NONNULL, seconds=30)
        except gs.TooLong:
            ctx.undecided(f'{label}: not reduced', fi.where)
            continue
        judge_consts(ctx, fi, probe.results(r), sel, [], nodata, f'{label}, {"no data for " + ",".join(nodata) if nodata else "all constants with data"}', 'initials')


def judge_consts(ctx, fi, res, sel, outs, nodata, label, key, allow=None):
    want = {x for n in sel for x in NODES[n][0] if x in INITIALS} | {x for x in outs if x in INITIALS}
    want -= set(nodata)
    if len(res) != 1 or not isinstance(res[0], list):
        return ctx.undecided(f'{label}: constants not determined ({str(res)[:80]})', fi.where)
    got = [name_of(x) for x in res[0]]
    if any(x is None or x[0] != 'tproto' for x in got):
        return ctx.undecided(f'{label}: {str(res[0])[:80]}', fi.where)
    got = [x[1] for x in got]
    miss = sorted(want - set(got))
    extra = sorted(set(got) - want - set(allow or ()))
    dup = sorted({x for x in got if got.count(x) > 1})
    if miss:
        ctx.fail(f'{key}:missing', f'{label}: constant {", ".join(miss)} is used but not written', fi.where)
    elif dup:
        ctx.fail(f'{key}:twice', f'{label}: constant {", ".join(dup)} is written twice', fi.where)
    elif extra and key == 'graph':
        ctx.ok(f'{label}: {got}')      # writing an unused constant changes nothing
    else:
        ctx.ok(f'{label}: {got}')


def check_graph(ctx, p):
    G = p.cls(GRAPH, 'Graph')
    fi = G.find_method('make_graph_onnx')
    if fi is None:
        return ctx.undecided('no make_graph_onnx', GRAPH)
    ctx.seen(fi.where)
    ctx.rule('the written graph lists the selected operators in order, the requested inputs and outputs in order, each used constant once: as a constant when constants '
             'with data are written, as an input when it has no data or constants are left out, never as both unless it is a requested input')
    pars = params_of(fi)
    for (label, sel, ins, outs), nodata, wi, ws in itertools.product(GRAPHS, NODATA, (True, False), (True, False)):
        N, TN, over = fixture(NODES, INITIALS, DYNAMICS, nodata)
        over += [(gs.SELF, 'input', [c('a')]), (gs.SELF, 'output', [c('o'), c('u')])]
        calls = []

        def mg(I, path, args, kwargs, st, fr, node):
            calls.append({k: [plain(a, st) for a in v] for k, v in bind(MAKE_GRAPH, args, kwargs).items()})
            return V(P('graphproto'))

        def vi(I, path, args, kwargs, st, fr, node):
            return V(('call', 'valueinfo', (one(args[0]) or T.TOP,), ()))
        a = dict(zip(pars, ([c(x) for x in sel], c('g'), [c(x) for x in ins], [c(x) for x in outs], c(wi), c(ws))))
        s = protos(TN, nodata)
        s.update({'ext:onnx.helper.make_graph': mg, 'ext:onnx.helper.make_tensor_value_info': vi})
        try:
            r = gs.run(G, fi.name, args=a, over=over, summaries=s, typer=typer(p), nonnull=NONNULL, seconds=60)
        except gs.TooLong:
            ctx.undecided(f'{label}: not reduced', fi.where)
            continue
        lab = f'{label}, {"constants " + ",".join(nodata) + " without data" if nodata else "constants with data"}, with_initializer={wi}, with_shape_info={ws}'
        if len(calls) != 1:
            ctx.undecided(f'{lab}: {len(calls)} make_graph calls', fi.where)
            continue
        k = calls[0]

        def names(par, kind):
            v = k.get(par)
            if v is None:
                return []
            if len(v) != 1 or not isinstance(v[0], list):
                return None if not (len(v) == 1 and v[0] is None) else []
            out = [name_of(x) for x in v[0]]
            return None if any(x is None or x[0] != kind for x in out) else [x[1] for x in out]
        nodes, gi, go, ci = names('nodes', 'nproto'), names('inputs', 'vproto'), names('outputs', 'vproto'), names('initializer', 'tproto')
        if None in (nodes, gi, go, ci):
            ctx.undecided(f'{lab}: not determined: {[x for x in ('nodes', 'inputs', 'outputs', 'initializer') if names(x, dict(nodes='nproto', initializer='tproto').get(x, 'vproto')) is None]} {str([k.get(x) for x in ('inputs', 'initializer')])[:200]}', fi.where)
            continue
        used = [x for n in sel for x in NODES[n][0] if x in INITIALS] + [x for x in outs if x in INITIALS]
        bad = []
        if nodes != sel:
            bad.append(('nodes', f'operators written are {nodes}, selected {sel}'))
        if gi[:len(ins)] != ins and [x for x in gi if x in ins] != ins:
            bad.append(('inputs', f'inputs written are {gi}, requested {ins}'))
        if go != outs:
            bad.append(('outputs', f'outputs written are {go}, requested {outs}'))
        want_c = set(used) - set(nodata) if wi else set()
        if want_c - set(ci):
            bad.append(('constants', f'constant {", ".join(sorted(want_c - set(ci)))} is used but not written'))
        if len(set(ci)) != len(ci):
            bad.append(('twice', f'constants written are {ci}'))
        if not wi and ci:
            bad.append(('kept', f'constants {ci} are written although left out'))
        want_i = set(ins) | (set(used) - set(ci))
        if want_i - set(gi):
            bad.append(('free', f'{", ".join(sorted(want_i - set(gi)))} is read by the written operators but is neither constant nor input'))
        extra = [x for x in gi if x not in want_i]
        if extra:
            bad.append(('extra', f'{", ".join(extra)} is listed as an input although {"it is written as a constant" if set(extra) & set(ci) else "no written operator reads it"}'))
        if len(set(gi)) != len(gi):
            bad.append(('input-twice', f'inputs written are {gi}'))
        for kk, msg in bad:
            ctx.fail(f'graph:{kk}', f'{lab}: {msg}', fi.where)
        if not bad:
            ctx.ok(f'{lab}: inputs {gi}, outputs {go}, constants {ci}')


def check_save(ctx, p):
    G = p.cls(GRAPH, 'Graph')
    fi = G.find_method('save_model')
    if fi is None:
        return ctx.undecided('no Graph.save_model', GRAPH)
    ctx.seen(fi.where)
    ctx.rule('saving writes every operator of the graph between its own inputs and outputs; constants are left out exactly for shape_only, tensor shapes exactly for no_shape; '
             'the operator-set versions, IR version and function definitions are the source model\'s')
    S = gs.SELF
    RAW = P('raw')
    for so, ns, hasraw in itertools.product((True, False), (True, False), (True, False)):
        made, models, saved = [], [], []
        mp = params_of(G.find_method('make_graph_onnx'))

        def mgo(I, f, args, kwargs, st, fr, node):
            b = bind(['self'] + mp, args, kwargs)
            made.append({k: [plain(x, st) for x in v] for k, v in b.items()})
            return V(P('graphproto'))

        def mm(I, path, args, kwargs, st, fr, node):
            b = bind(MAKE_MODEL, args, kwargs)
            models.append({k: [I.as_term(x, st) for x in v] for k, v in b.items()})
            o = V(P('modelproto'))
            return o

        def sv(I, path, args, kwargs, st, fr, node):
            snap = {at: [plain(x, st) for x in (st.over.get((P('modelproto'), at)) or ())] for at in ('ir_version', 'opset_import', 'functions')}
            saved.append(([I.as_term(x, st) for a in args[:1] for x in a], [I.as_term(x, st) for a in args[1:2] for x in a], snap))
            return V(T.NONE)
        over = [(S, 'nodemap', {c('n0'): P('node:n0'), c('n1'): P('node:n1')}),
                (P('modelproto'), 'opset_import', [P('default_opset')]), (P('modelproto'), 'functions', []), (RAW, 'opset_import', [P(f'opset_{k}') for k in OPSETS]),
                (RAW, 'functions', [P('function')])]
        for k, (dom, ver) in OPSETS.items():
            over += [(P(f'opset_{k}'), 'domain', c(dom)), (P(f'opset_{k}'), 'version', c(ver))]
        pars = params_of(fi)
        a = dict(zip(pars, (P('f'), c(so), c(ns), RAW if hasraw else T.NONE)))
        try:
            r = gs.run(G, 'save_model', args=a, over=over, nonnull=NONNULL, seconds=60, summaries={
                'Graph.make_graph_onnx': mgo, 'ext:onnx.helper.make_model': mm, 'ext:onnx.save_model': sv, 'ext:onnx.save': sv})
        except gs.TooLong:
            ctx.undecided('not reduced', fi.where)
            continue
        lab = f'shape_only={so}, no_shape={ns}, {"with" if hasraw else "without"} source model'
        if len(made) != 1 or not saved:
            ctx.undecided(f'{lab}: {len(made)} graphs made, {len(saved)} saved', fi.where)
            continue
        m = made[0]
        keys = mp

        def judge(key, par, want, say):
            v = m.get(par)
            if v is None:
                d = G.find_method('make_graph_onnx').node.args
                dv = dict(zip([x.arg for x in d.args][len(d.args) - len(d.defaults):], d.defaults)).get(par)
                v = [dv.value] if isinstance(dv, ast.Constant) else None
            if v is None or len(v) != 1 or not (probe.decided(v[0]) or isinstance(v[0], tuple) and v[0][0] == 'attr'):
                if v is not None and len(v) == 1 and isinstance(v[0], tuple) and v[0][0] == 'call':
                    v = [strip_copy(v[0])]
                    if v[0] in want:
                        return ctx.ok(f'{lab}: {say}')
                return ctx.undecided(f'{lab}: {par} is {str(v)[:80]}', fi.where)
            if v[0] in want:
                ctx.ok(f'{lab}: {say}')
            else:
                ctx.fail(f'save:{key}', f'{lab}: {par} of the written graph is {v[0] if not isinstance(v[0], tuple) else T.show(v[0])}', fi.where)
        judge('nodes', keys[0], (['n0', 'n1'], T.attr(S, 'nodemap')), 'all operators')
        judge('inputs', keys[2], (T.attr(S, 'input'),), 'graph inputs')
        judge('outputs', keys[3], (T.attr(S, 'output'),), 'graph outputs')
        judge('initializer', keys[4], (not so,), f'constants {"left out" if so else "written"}')
        judge('shapes', keys[5], (not ns,), 'tensor shapes')
        for mod, dest, snap in saved:
            if mod == [P('f')] and dest == [P('modelproto')]:
                ctx.fail('save:swapped', f'{lab}: model and file name are exchanged', fi.where)
            elif mod != [P('modelproto')] or dest != [P('f')]:
                ctx.undecided(f'{lab}: saves {[T.show(x)[:40] for x in mod + dest]}', fi.where)
            if not hasraw:
                continue
            for at, want, say in (('ir_version', [T.attr(RAW, 'ir_version')], 'IR version'), ('opset_import', [[P(f'opset_{k}') for k in OPSETS]], 'operator-set versions'),
                                  ('functions', [[P('function')]], 'function definitions')):
                v = snap[at]
                if v == want or v == [T.attr(RAW, at)]:
                    ctx.ok(f'{lab}: {say} of the source model')
                elif not v or all(probe.decided(x) for x in v):
                    ctx.fail(f'save:{at}', f'{lab}: {say} written are {str(v)[:120]}, not the source model\'s', fi.where)
                else:
                    ctx.undecided(f'{lab}: {at} is {str(v)[:100]}', fi.where)
    # the model object hands everything through
    M = p.cls(MODEL, 'Model')
    fm = M.find_method('save_model') if M else None
    if fm is None:
        return ctx.undecided('no Model.save_model', MODEL)
    ctx.seen(fm.where)
    pars = params_of(fi)
    calls = []

    def gsave(I, f, args, kwargs, st, fr, node):
        calls.append({k: {I.as_term(x, st) for x in v} for k, v in bind(['self'] + pars, args, kwargs).items()})
        return V(T.NONE)
    r = gs.run(M, 'save_model', summaries={'Graph.save_model': gsave}, typer=lambda t: G if t == T.attr(gs.SELF, 'graph') else None, seconds=30)
    if not calls:
        return ctx.undecided('Model.save_model does not reach Graph.save_model', fm.where)
    mine = params_of(fm)
    want = {'rawmodel': T.attr(gs.SELF, 'mproto')}
    want.update({x: P(x) for x in mine})
    for k in calls:
        for par, w in want.items():
            if par not in pars:
                continue
            v = k.get(par, set())
            if v == {w}:
                ctx.ok(f'Model.save_model hands on {par}')
            elif not v or all(x[0] in ('param', 'const', 'none', 'attr') for x in v):
                ctx.fail(f'model-save:{par}', f'Model.save_model hands {" | ".join(T.show(x) for x in v) or "nothing"} to Graph.save_model as {par}', fm.where)
            else:
                ctx.undecided(f'{par} handed on as {" | ".join(T.show(x)[:60] for x in v)}', fm.where)
    # the command functions that save
    I = p.modules['onnx_tool']
    for f in p.functions():
        if f.module.name != 'onnx_tool' or f.cls is not None or '.' in f.qualname:
            continue
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'save_model' and isinstance(x.func.value, ast.Name):
                # a Graph saved on its own needs the source model
                src = source_of(f, x.func.value.id)
                ctx.seen(f.where)
                if src == 'graph':
                    raw = next((k.value for k in x.keywords if k.arg == 'rawmodel'), x.args[3] if len(x.args) > 3 else None)
                    if raw is None and not any(k.arg is None for k in x.keywords) or isinstance(raw, ast.Constant) and raw.value is None:
                        ctx.fail(f'caller:{f.name}:{x.func.value.id}', f'{f.name} saves {x.func.value.id} without the source model: operator-set versions are lost', f.where)
                    else:
                        ctx.ok(f'{f.name} saves {x.func.value.id} with the source model')
                elif src == 'model':
                    ctx.ok(f'{f.name} saves the model itself')


def source_of(f, name):
    """is the local a Model (from loadmodel), or a Graph derived from one?"""
    kind = None
    for x in ast.walk(f.node):
        if isinstance(x, ast.Assign):
            for t in x.targets:
                names = [t.id] if isinstance(t, ast.Name) else [e.id for e in t.elts if isinstance(e, ast.Name)] if isinstance(t, ast.Tuple) else []
                if name in names and isinstance(x.value, ast.Call):
                    fn = x.value.func
                    callee = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else ''
                    if callee in ('Graph', 'get_subgraph', 'get_compute_graph'):
                        kind = 'graph'
                    elif callee in ('loadmodel', 'Model'):
                        kind = 'model'
                elif name in names and isinstance(x.value, ast.Attribute) and x.value.attr == 'graph':
                    kind = 'graph'
    return kind


FLOATY = ('float32', 'int32')


def check_tensor(ctx, p):
    Tn = p.cls(TENSOR, 'Tensor')
    ctx.rule('a constant is written under its own name with the type, shape and complete data of its array, in the encoding its type allows')
    fi = Tn.find_method('make_tensor_proto')
    if fi is None:
        return ctx.undecided('no make_tensor_proto', TENSOR)
    ctx.seen(fi.where)
    NP = T.attr(gs.SELF, 'numpy')
    types = ['float32', 'float64', 'float16', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'bool_']
    for rank, ty in itertools.product((0, 1, 2), types):
        A = P('array')
        calls = []
        shape = tuple(P(f'd{i}') for i in range(rank))

        def mt(I, path, args, kwargs, st, fr, node):
            calls.append({k: [plain(x, st) for x in v] for k, v in bind(MAKE_TENSOR, args, kwargs).items()})
            return V(P('tensorproto'))
        over = [(gs.SELF, 'numpy', A), (A, 'shape', ('tuple', shape)), (A, 'dtype', ('ext', 'numpy.' + ty)), (A, 'ndim', c(rank))]
        try:
            r = gs.run(Tn, fi.name, over=over, seconds=30, summaries={
                'ext:onnx.helper.make_tensor': mt,
                'npdtype2onnxdtype': lambda I, f, args, kwargs, st, fr, node: V(('call', 'onnxtype', (I.one(args[0], st),), ())),
                '.item': lambda I, b, args, kwargs, st, fr, node: V(('call', 'item', (b,), ())),
                '.tobytes': lambda I, b, args, kwargs, st, fr, node: V(('call', 'tobytes', (b,), ())),
                '.flatten': lambda I, b, args, kwargs, st, fr, node: V(('call', 'flat', (b,), ())),
                '.ravel': lambda I, b, args, kwargs, st, fr, node: V(('call', 'flat', (b,), ())),
                '.tolist': lambda I, b, args, kwargs, st, fr, node: V(('call', 'nested', (b,), ()) if rank > 1 and b[:2] != ('call', 'flat') else b if b[:2] == ('call', 'flat') else ('call', 'flat', (b,), ())),
            })
        except gs.TooLong:
            ctx.undecided('not reduced', fi.where)
            continue
        lab = f'{"scalar" if not rank else f"rank {rank}"} {ty} constant'
        if len(calls) != 1:
            ctx.undecided(f'{lab}: {len(calls)} make_tensor calls', fi.where)
            continue
        k = calls[0]
        g = {x: (k[x][0] if len(k.get(x, ())) == 1 else None) for x in MAKE_TENSOR}
        bad = None
        dt = g['data_type']
        okdt = [('call', 'onnxtype', (w,), ()) for w in (('ext', 'numpy.' + ty), T.attr(('ext', 'numpy.' + ty), 'type'), T.attr(A, 'dtype'), T.attr(gs.SELF, 'dtype'))]
        raw = g['raw'] if 'raw' in k else False
        vals = g['vals']
        if isinstance(vals, tuple) and vals and vals[0] == 'call' and vals[1] in ('list', 'tuple'):
            vals = vals[2][0]
        if g['name'] != T.attr(gs.SELF, 'name'):
            bad = ('name', f'written under the name {show(g["name"])}') if known(g['name']) else 'undecided'
        elif g['dims'] not in (list(shape), T.attr(A, 'shape')) and strip_list(g['dims']) != list(shape):
            bad = ('dims', f'written with shape {show(g["dims"])}') if known(g['dims']) else 'undecided'
        elif raw not in (True, False):
            bad = 'undecided'
        elif raw and vals != ('call', 'tobytes', (A,), ()):
            conv = [x for x in T.subterms(vals) if x[:2] == ('call', 'astype')] if isinstance(vals, tuple) else []
            to = {x[2][1] if len(x[2]) > 1 else dict(x[3]).get('dtype', T.TOP) for x in conv}
            mine = ('ext', 'numpy.' + ty)
            if known(vals) or to and all(x[0] == 'ext' and x != mine for x in to):
                bad = ('data', f'raw data is {show(vals)}')
            elif not to or to != {mine}:
                bad = 'undecided'
        elif not raw and rank and vals != ('call', 'flat', (A,), ()) and not (isinstance(vals, tuple) and vals[:2] == ('call', 'nested') and False):
            bad = ('data', f'data is {show(vals)}') if known(vals) or isinstance(vals, tuple) and vals[:1] == ('call',) and vals[1] in ('tobytes', 'nested', 'item') else 'undecided'
        elif not raw and not rank and vals != [('call', 'item', (A,), ())] and vals != ('call', 'flat', (A,), ()):
            bad = ('data', f'data is {show(vals)}') if known(vals) or isinstance(vals, tuple) and vals[:1] == ('call',) and vals[1] in ('tobytes',) else 'undecided'
        elif dt not in okdt:
            bad = ('type', f'written with element type {show(dt)}') if known(dt) or isinstance(dt, tuple) and dt[:1] == ('ext',) else 'undecided'
        if bad == 'undecided':
            ctx.undecided(f'{lab}: vals {str(g["vals"])[:100]}, dims {str(g["dims"])[:50]}', fi.where)
        elif bad:
            ctx.fail(f'tensor:{bad[0]}', f'{lab}: {bad[1]}', fi.where)
        else:
            ctx.ok(f'{lab} written {"raw" if raw else "by value"}')
    fv = Tn.find_method('make_value_proto')
    if fv:
        ctx.seen(fv.where)
        for hasdata in (True, False):
            calls = []
            A = P('array')

            def vi(I, path, args, kwargs, st, fr, node):
                calls.append({k: {I.as_term(x, st) for x in v} for k, v in bind(MAKE_VI, args, kwargs).items()})
                return V(P('vi'))
            over = [(gs.SELF, 'numpy', A if hasdata else T.NONE), (gs.SELF, 'name', c('x')), (gs.SELF, 'shape', [P('d0'), P('d1')]), (A, 'shape', ('tuple', (P('d0'), P('d1'))))]
            try:
                gs.run(Tn, fv.name, over=over, seconds=30, summaries={
                    'ext:onnx.helper.make_tensor_value_info': vi,
                    'npdtype2onnxdtype': lambda I, f, args, kwargs, st, fr, node: V(('call', 'onnxtype', (I.one(args[0], st),), ()))})
            except gs.TooLong:
                continue
            lab = f'interface entry of a tensor {"with" if hasdata else "without"} data'
            for k in calls:
                if k.get('name') == {c('x')}:
                    ctx.ok(f'{lab}: name')
                elif k.get('name') and all(x[0] in ('const', 'none') for x in k['name']):
                    ctx.fail('value:name', f'{lab} is named {[T.show(x) for x in k["name"]]}', fv.where)
                et = k.get('elem_type', set())
                src = {s for x in et for s in T.subterms(x)}
                if et and all(x[:2] == ('call', 'onnxtype') for x in et) and (T.attr(gs.SELF, 'dtype') in src or T.attr(A, 'dtype') in src):
                    if not hasdata and T.attr(A, 'dtype') in src:
                        ctx.undecided(f'{lab}: type', fv.where)
                    else:
                        ctx.ok(f'{lab}: element type')
                elif et and all(x[0] in ('const', 'none', 'ext') for x in et):
                    ctx.fail('value:type', f'{lab} has element type {[T.show(x) for x in et]} whatever the tensor\'s type', fv.where)
                else:
                    ctx.undecided(f'{lab}: type {[T.show(x)[:60] for x in et]}', fv.where)


def strip_list(v):
    if isinstance(v, tuple) and v[:1] == ('call',) and v[1] in ('list', 'tuple') and v[2]:
        v = v[2][0]
        if v[0] in ('tuple', 'list'):
            return list(v[1])
    return v


def known(v):
    if isinstance(v, (list,)):
        return all(known(x) for x in v)
    return not isinstance(v, tuple) or v[:1] in (('param',), ('const',), ('none',), ('attr',))


def show(v):
    if isinstance(v, list):
        return '[' + ', '.join(show(x) for x in v) + ']'
    return T.show(v) if isinstance(v, tuple) else repr(v)


PAIRS = {'FLOAT': 'float32', 'DOUBLE': 'float64', 'FLOAT16': 'float16', 'INT8': 'int8', 'INT16': 'int16', 'INT32': 'int32', 'INT64': 'int64', 'UINT8': 'uint8',
         'UINT16': 'uint16', 'UINT32': 'uint32', 'UINT64': 'uint64', 'BOOL': 'bool_', 'STRING': 'bytes_'}


def check_types(ctx, p):
    ctx.rule('the two element-type maps agree: each onnx element type maps to its numpy type and back')
    m = p.modules[TENSOR]
    for fname in ('onnxdtype2npdtype', 'npdtype2onnxdtype'):
        fi = next((f for f in p.functions() if f.name == fname and f.module.name == TENSOR), None)
        if fi is None:
            ctx.undecided(f'no {fname}', TENSOR)
            continue
        ctx.seen(fi.where)
        for o, n in PAIRS.items():
            src, dst = (('ext', 'onnx.TensorProto.' + o), ('ext', 'numpy.' + n))[::1 if fname.startswith('onnx') else -1]
            try:
                r = gs.run(None, fi, args={params_of(fi)[0]: src}, seconds=20)
            except gs.TooLong:
                continue
            v = set(r.value or ())
            if v == {dst}:
                ctx.ok(f'{fname}({src[1]}) = {dst[1]}')
            elif len(v) == 1 and all(x[0] in ('ext', 'const', 'none') for x in v):
                ctx.fail(f'types:{fname}:{o if fname.startswith("onnx") else n}', f'{fname} maps {src[1]} to {" | ".join(T.show(x) for x in v)}', fi.where)
            else:
                ctx.undecided(f'{fname}({src[1]}) = {" | ".join(T.show(x)[:60] for x in v)}', fi.where)


def check(ctx):
    p = gs.program()
    for fn in (check_node, check_initials, check_graph, check_save, check_tensor, check_types):
        fn(ctx, p)
    ctx.assume('operators do not carry sub-graph attributes; string constants and sparse constants are out of scope')
    ctx.assume('onnx.helper.make_node, make_tensor, make_graph, make_model and onnx.save_model write what they are given')

"""P08: nothing done for one model survives into the treatment of the next."""
import ast

from .. import graphsem as gs, model, terms as T
from ..absint import Interp

TITLE = 'Working on one model never changes how a later model is treated'
TECHNIQUE = ('interprocedural effect analysis: alias roots of every container change and attribute write in every function, '
             'with per-function summaries joined to a fixpoint over the call graph')
EXPLANATION = ('Every function of the package (operator classes, graph, fusion, quantization, serialization, language-model builder, runtime) is '
               'interpreted abstractly on access paths. An effect whose root is a module-level object, a class, a mutable default argument or '
               'a collection the caller passed to a public entry point is a violation; effects of callees are translated through the call.')

SMALL = 8
# container parameters that exist to be filled in by the callee: recursion accumulators and output buffers
OUT_SUFFIX = ('buf', 'buffer', 'file', 'fp', 'f')
SCOPE_INFERENCE = ('infer', 'kernels', 'memory_pool', 'llm_infer')


def size(fi):
    return sum(isinstance(x, ast.stmt) for x in ast.walk(fi.node))


def root(a):
    """(root, path of access kinds outermost last)"""
    path = []
    while True:
        if a[0] in ('attr',):
            path.append('.' + a[2]); a = a[1]
        elif a[0] in ('idx', 'each', 'each_from'):
            path.append('[]'); a = a[1]
        elif a[0] == 'call' and a[1] in ('copy', '.copy') and a[2] and path:
            a = a[2][0]          # element of a shallow copy is the element of the original
            path = [x for x in path]
        elif a[0] == 'call' and a[1] in ('.get', '.setdefault', '.pop', '.values', '.items', '.keys', 'list', 'tuple', 'iter', 'enumerate', 'sorted', 'reversed') and a[2]:
            path.append('[]'); a = a[2][0]
        else:
            return a, tuple(reversed(path))


def scalar_rhs(e):
    return e.how == 'augassign'


def mutable_defaults(fi):
    """parameter -> default expression text for defaults that are one object for the whole life of the program"""
    a = fi.node.args
    pos = a.posonlyargs + a.args
    out = {}
    for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
        if isinstance(d, ast.Constant) or (isinstance(d, ast.UnaryOp) and isinstance(d.operand, ast.Constant)):
            continue
        if isinstance(d, ast.Tuple):
            continue
        out[p.arg] = ast.unparse(d)
    return out


def is_container_global(p, g):
    """module-level name bound to something that can be changed in place"""
    m = p.modules.get(g[1])
    b = m.bind.get(g[2]) if m else None
    return b


def analyse(ctx, inference):
    p = gs.program(inference)
    fns = []
    for mn, m in sorted(p.modules.items()):
        base = mn.split('.')[-1]
        if inference and not (base in SCOPE_INFERENCE and not mn.startswith('onnx_tool')):
            continue
        for f in m.bind.values():
            if isinstance(f, model.FunctionInfo) and f.module is m:
                fns.append((f, None))
            elif isinstance(f, model.ClassInfo) and f.module is m:
                fns += [(g, f) for g in f.methods.values()]
    return p, fns


def effects(p, fi, cls):
    I = Interp(p, {}, (lambda t: cls if t == gs.SELF else None) if cls else None,
               opaque=lambda g: size(g) > SMALL and g.node is not fi.node)
    I.run_function(fi, {}, selfatom=gs.SELF if cls and not fi.is_static() else None, cls=cls)
    return I.events


def params(fi):
    a = fi.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def check(ctx):
    ctx.rule('no function changes a module-level object, a class object or its attribute, or an object reachable from them')
    ctx.rule('no function changes a mutable default argument, directly, through a callee or through an attribute that keeps it')
    ctx.rule('no public entry point changes a list, set or dict the caller handed over')
    ctx.assume('operator, graph and tensor objects passed to a function are what the call is meant to work on; only the caller\'s plain collections are protected')
    summ = {}
    store = {}
    units = []
    for inference in (False, True):
        p, fns = analyse(ctx, inference)
        byname = {}
        for m in p.modules.values():
            for c in m.bind.values():
                if isinstance(c, model.ClassInfo) and c.module is m:
                    for n, f in c.methods.items():
                        byname.setdefault(n, []).append(f)
        n = 0
        for fi, cls in fns:
            try:
                evs = effects(p, fi, cls)
            except model.AnalysisBroken:
                raise
            except RecursionError:
                ctx.undecided('not analysed', fi.where)
                continue
            n += 1
            ctx.seen(fi.module.rel + ':' + fi.qualname)
            units.append((p, fi, cls, evs, byname, inference))
        ctx.floor('functions analysed (%s)' % ('runtime' if inference else 'package'), n, 60 if inference else 250)
    # attributes that keep a module-level object or a shared default
    keeps = {}
    for p, fi, cls, evs, byname, inf in units:
        if cls is None:
            continue
        md = mutable_defaults(fi)
        for e in evs:
            if e.kind == 'setattr' and e.atom == gs.SELF and isinstance(e.extra, frozenset):
                for x in e.extra:
                    r, path = root(x)
                    if r[0] == 'param' and r[1] in md and not any(s.startswith('.') for s in path):
                        keeps.setdefault((cls.name, e.how), set()).add(('default', fi.qualname, r[1]))
                    elif r[0] == 'global' and container(p, r, path):
                        keeps.setdefault((cls.name, e.how), set()).add(('global', r[1], r[2]))
    classattrs = {}
    for p in (gs.program(False), gs.program(True)):
        for m in p.modules.values():
            for c in m.bind.values():
                if isinstance(c, model.ClassInfo) and c.module is m:
                    for s in c.node.body:
                        if isinstance(s, ast.Assign) and isinstance(s.value, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Call)):
                            for t in s.targets:
                                if isinstance(t, ast.Name):
                                    classattrs.setdefault(c.name, set()).add(t.id)
    ownattr = {}
    for p, fi, cls, evs, byname, inf in units:
        if cls is not None:
            for e in evs:
                if e.kind == 'setattr' and e.atom == gs.SELF:
                    ownattr.setdefault(cls.name, set()).add(e.how)
    # fixpoint of "changes its parameter k"
    for _ in range(8):
        changed = False
        for p, fi, cls, evs, byname, inf in units:
            out = set()
            for e, atom, how in all_effects(evs, summ, byname):
                r, path = root(atom)
                if r[0] == 'param' and r[1] in params(fi):
                    weak = how if how in ('augassign', 'opaque-object') else None
                    out.add((r[1], e.kind == 'setattr' or any(s.startswith('.') for s in path), weak))
            if out - summ.get(fi.qualname, set()):
                summ.setdefault(fi.qualname, set()).update(out)
                changed = True
        if not changed:
            break
    called = set()
    for p, fi, cls, evs, byname, inf in units:
        for x in ast.walk(fi.node):
            if isinstance(x, ast.Call):
                f = x.func
                nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
                if nm and nm != fi.name:
                    called.add(nm)
    legacy = legacy_only(units)
    for p, fi, cls, evs, byname, inf in units:
        md = mutable_defaults(fi)
        public = not fi.name.startswith('_') and not inf and fi.module.name != 'onnx_tool.node' and \
            (fi.name in PUBLIC or fi.name not in called)
        bad = False
        for e, atom, how in all_effects(evs, summ, byname):
            r, path = root(atom)
            msg = None
            if r[0] in ('global', 'cls', 'class', 'mod', 'module', 'fn'):
                if fi.name in legacy and r == ('global', 'onnx_tool.utils', 'GLOBAL_VARS'):
                    continue
                msg = ('shared', T.show(r)[:60], f'changes {T.show(atom)[:80]}, which outlives the model being processed')
            elif r[0] == 'param' and r == gs.SELF and cls is not None:
                if len(path) >= 1 and path[0].startswith('.') and not all(s == '.' for s in path):
                    a = path[0][1:]
                    if e.kind == 'mutate' or len(path) > 1:
                        ks = keeps.get((cls.name, a), set())
                        for k in sorted(ks):
                            what = f'the default of parameter {k[2]} of {k[1]}' if k[0] == 'default' else f'the module-level {k[2]}'
                            msg = ('kept', a, f'changes self.{a}, which can be {what}')
                        if not ks and a in classattrs.get(cls.name, ()) and a not in ownattr.get(cls.name, ()):
                            msg = ('classattr', a, f'changes self.{a}, one object shared by every {cls.name}')
            elif r[0] == 'param' and e.kind != 'setattr':
                if any(s.startswith('.') for s in path) or how == 'augassign':
                    continue
                if r[1] in md:
                    msg = ('default', r[1], f'changes parameter {r[1]} in place ({how}); its default {md[r[1]]} is shared by all later calls')
                elif public and r[1] in params(fi) and how != 'opaque-object' and collection_param(fi, r[1], e, path):
                    msg = ('argument', r[1], f'changes the caller\'s collection {r[1]} in place ({how})')
            if msg:
                bad = True
                ctx.fail(f'{msg[0]}:{fi.qualname}:{msg[1]}', f'{fi.qualname} {msg[2]}', e.where)
        if not bad:
            ctx.ok(f'{fi.qualname}: no lasting effect', n=1)


def container(p, r, path):
    m = p.modules.get(r[1])
    b = m.bind.get(r[2]) if m else None
    return not isinstance(b, (model.FunctionInfo, model.ClassInfo))


# legacy helpers nothing in the library calls; filling the GLOBAL_VARS store is what they are for
LEGACY = {'graph_set_inputs', 'update_static_tensors'}


def legacy_only(units):
    """the legacy helpers and what only they call"""
    users = {}
    for p, fi, cls, evs, byname, inf in units:
        for x in ast.walk(fi.node):
            nm = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else None
            if nm and nm != fi.name:
                users.setdefault(nm, set()).add(fi.name)
    out = set(LEGACY)
    while True:
        new = {n for p, fi, cls, evs, byname, inf in units for n in [fi.name] if n not in out and users.get(n) and users[n] <= out and n not in PUBLIC}
        if not new:
            return out
        out |= new


def accumulator(fi, name):
    """a None-by-default parameter that the function hands on to itself collects results over the recursion"""
    a = fi.node.args
    pos = a.posonlyargs + a.args
    d = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
    if not (name in d and isinstance(d[name], ast.Constant) and d[name].value is None):
        return False
    for x in ast.walk(fi.node):
        if isinstance(x, ast.Call):
            f = x.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
            if nm == fi.name and any(isinstance(y, ast.Name) and y.id == name for y in x.args + [k.value for k in x.keywords]):
                return True
    return False


def collection_param(fi, name, e, path):
    return name not in OUT_SUFFIX and not accumulator(fi, name)


def all_effects(evs, summ, byname):
    for e in evs:
        if e.kind in ('mutate', 'setattr'):
            yield e, e.atom, e.how
        elif e.kind == 'opaquecall':
            fi = e.how
            for prm, x in e.extra:
                for (q, deep, weak) in summ.get(fi.qualname, ()):
                    if q == prm:
                        yield e, (T.attr(x, '*') if deep else x), weak or fi.qualname
        elif e.kind == 'methodcall':
            c = byname.get(e.how, ())
            if len(c) == 1:
                fi = c[0]
                ps = params(fi)
                if not fi.is_static():
                    ps = ps[1:]
                    for (q, deep, weak) in summ.get(fi.qualname, ()):
                        if q == params(fi)[0]:
                            yield e, T.attr(e.atom, '*'), fi.qualname
                for k, x in e.extra:
                    prm = ps[k] if isinstance(k, int) and k < len(ps) else k
                    for (q, deep, weak) in summ.get(fi.qualname, ()):
                        if q == prm:
                            yield e, (T.attr(x, '*') if deep else x), weak or fi.qualname


PUBLIC = {
    'add_dump_tensors', 'add_dynamic', 'add_expr', 'add_initial', 'add_tensor_desc', 'asymmetric_dequant', 'asymmetric_quant', 'build_expr',
    'check_inputs', 'compress_memory', 'createSerialOpChain', 'createSerialPattern', 'create_descs_from_nodenames', 'cvt_s8bits_to_s4bits',
    'error', 'find_min_max', 'fuse_postop_node_names', 'fuse_subgraph_iotensors', 'fuse_subgraph_node_names', 'generate_input',
    'get_asymmetric_u8_parameter', 'get_compute_graph', 'get_dynamic_tensors', 'get_initials_from_nodenames', 'get_iotensors',
    'get_onnxgraph_by_nodenames', 'get_subgraph', 'get_symmetric_parameter', 'get_tensor_desc', 'get_tensorshape', 'graph_quantize',
    'graph_reorder_nodes', 'is_node', 'loadmodel', 'log', 'logical', 'make_graph_onnx', 'model_constant_folding', 'model_export_tensors_numpy',
    'model_io_modify', 'model_opfusion', 'model_profile', 'model_reorder_nodes', 'model_shape_regress', 'model_subgraph', 'pack_4bits',
    'print_node_map', 'profile', 'quantize', 'removeShapeOps', 'remove_dangling_nodes', 'remove_node', 'save_model', 'save_numpy',
    'search_pattern', 'shape_infer', 'shape_regress', 'skip_node', 'symmetric_dequant', 'symmetric_quant', 'topsort_nodes', 'truncate',
    'update_graph', 'update_input_by_map', 'update_tensor_desc', 'update_tensor_relations', 'update_variable', 'update_variables',
    'value_infer',
}

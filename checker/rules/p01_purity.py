"""P01: inference and profiling write only their own outputs."""
from .. import cases, sweep, opsem
from .. import terms as T
from ..absint import MISSING
from ..numsem import VIEWS
from ..opsem import SELF

TITLE = 'Inferring or profiling a node changes nothing but its outputs'
TECHNIQUE = 'interprocedural mutation/escape analysis by abstract interpretation of every operator method, with copy/alias tracking'
EXPLANATION = ('Every operator class is abstractly interpreted (constructor, then shape_infer, value_infer and profile, all helpers inlined, for every number of '
               'inputs/outputs the standard allows, attributes unknown/absent/given). Every write the interpretation meets is classified by the object it '
               'reaches through aliases and views: input tensor, input data, input shape list, operator attribute, or a value created by the method. '
               'The summaries used for Tensor.get_shape/get_numpy/update_* are validated against the bodies of those methods.')
NOTE = 'Placeholder zeros that Tensor.get_numpy materialises for a tensor without data are not a write of an input (the tensor had no data).'

BASE = {'input', 'output', 'name', 'op_type', 'attr', 'nextnodes', 'prevnodes', 'static_inputs', 'dynamic_inputs', 'shape_calc', 'proto'}


def owner(t):
    """(tensor index or 'self', facet) a term's memory belongs to, or None"""
    while True:
        if t[0] == 'idx':
            t = t[1]
            if t[0] == 'param' and t[1] == 'intensors':
                return ('in', '*'), None
        elif t[0] == 'call' and t[1] in VIEWS and t[2]:
            t = t[2][0]
        elif t[0] == 'attr' and t[2] == 'T':
            t = t[1]
        elif t[0] == 'call' and t[1] == 'stored':
            t = t[2][0]
        else:
            break
    if t[0] == 'param' and t[1].startswith('in') and t[1][2:].isdigit():
        return ('in', t[1]), None
    if t[0] == 'attr':
        b = t[1]
        if b == SELF:
            return ('self', t[2]), t[2]
        if b[0] == 'param' and b[1].startswith('in') and b[1][2:].isdigit():
            return ('in', b[1]), t[2]
        if b[0] == 'idx' and b[1] == ('param', 'intensors'):
            return ('in', '*'), t[2]
    return None


def initial_attrs(op, c):
    names = set(BASE) | set(cases.attr_names(op))
    import ast
    for k in c.mro():
        if not hasattr(k, 'methods'):
            continue
        f = k.methods.get('__init__')
        if f is None:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                names.add(n.attr)
            if isinstance(n, ast.Call) and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
                names.add(n.args[0].value)
    return names


def judge(e, attrs):
    """message for a forbidden write, None when allowed"""
    if e.kind == 'update':
        a = e.atom
        if a[0] == 'param' and a[1].startswith('in'):
            return f'input {a[1]}', f'writes {e.how} of input tensor {a[1]}'
        if a[0] == 'idx' and a[1] == ('param', 'intensors'):
            return 'input', f'writes {e.how} of an input tensor'
        return None
    if e.kind == 'setattr':
        a = e.atom
        if a == SELF:
            if e.how in attrs or e.how == '*':
                return f'self.{e.how}', f'overwrites the operator attribute self.{e.how}'
            return None
        if a[0] == 'param' and a[1].startswith('in') and a[1][2:].isdigit() or a[0] == 'idx' and a[1] == ('param', 'intensors'):
            return f'input.{e.how}', f'overwrites .{e.how} of input tensor {T.show(a)}'
        return None
    if e.kind == 'mutate':
        o = owner(e.atom)
        if o is None:
            return None
        (k, n), facet = o
        if e.how == 'augassign':
            # only a container or array changes in place
            t = e.atom
            if not (t[0] == 'attr' and t[2] in ('numpy', 'shape')) and not (t[0] == 'idx' and _sliced(t)) and not (t[0] == 'call'):
                if not (k == 'self' and facet in ('pads', 'strides', 'dilations', 'kernel_shape', 'axes', 'perm', 'attr', 'input', 'output')):
                    return None
        if k == 'self':
            if facet in attrs:
                return f'self.{facet} content', f'changes the content of the operator attribute self.{facet} in place ({e.how})'
            return None
        if facet is None:
            return f'{n} list', f'changes the list of input tensors ({e.how})'
        return f'{n}.{facet}', f'changes .{facet} of input tensor {n} in place ({e.how})'
    return None


def _sliced(t):
    i = t[2]
    if i[0] == 'slice':
        return owner(t) is not None and (owner(t)[1] == 'numpy')
    if i[0] == 'tuple':
        return any(x[0] == 'slice' for x in i[1])
    return False


def check(ctx):
    s = sweep.sem()
    ctx.rule('no write reachable from shape_infer/value_infer/profile may reach an input tensor, its data or shape list, or an attribute the operator had')
    ctx.rule('Tensor accessors hand out copies of the shape and writers touch only the tensor they are called on')
    api = sweep.tensor_api()
    fresh = api.shape_is_fresh()
    ctx.seen('Tensor.get_shape', 'Tensor.get_numpy', 'Tensor.update_shape', 'Tensor.update_dtype', 'Tensor.update_tensor')
    for m in api.info:
        for kind, what, how in api.mutations(m):
            w = f'onnx_tool/tensor.py:{api.info[m][0].node.lineno} Tensor.{m}'
            if m == 'get_shape' or m == 'get_scalar':
                if what.split('.')[0] == 'self':
                    ctx.fail(f'tensor {m} writes {what}.{how}', f'Tensor.{m} changes the tensor it is asked about ({what} {how})', w)
            elif m == 'get_numpy':
                if kind == 'set' and what == 'self' and how not in ('numpy',):
                    ctx.fail(f'tensor {m} writes {how}', f'reading the data of a tensor overwrites its {how}', w)
                elif kind == 'mutate' and what.startswith('self.numpy'):
                    ctx.fail(f'tensor {m} mutates {what}', f'reading the data of a tensor changes it ({how})', w)
            elif kind == 'mutate' and not what.startswith('self'):
                ctx.fail(f'tensor {m} mutates {what}', f'Tensor.{m} changes its argument {what}', w)
        ctx.ok(f'Tensor.{m} writes {sorted(api.mutations(m))}')
    # get_numpy must not replace existing data of matching shape: the data path returns self.numpy itself
    mutators = {}
    nruns = 0
    classes = set()
    for op, c, m, nin, nout, mode, r in sweep.runs(('shape_infer', 'value_infer', 'profile')):
        nruns += 1
        classes.add(c.name)
        ctx.seen(f'{c.name}.{m}')
        attrs = initial_attrs(op, c)
        evs = list(r.init_events) * 0 + list(r.events if r.I is not None and hasattr(r, 'events') else [])
        bad = False
        for e in evs:
            j = judge(e, attrs)
            if e.kind == 'mutate' and e.atom[0] == 'ref' and not fresh:
                o = r.I and r.state and r.state.heap.get(e.atom[1])
                if o is not None and o.sym is not None and o.sym[0] == 'call' and o.sym[1] == 'copy' and o.sym[2][0][0] == 'attr' and o.sym[2][0][2] == 'shape':
                    j = ('input shape list', 'changes the shape list it got from get_shape, which is the tensor\'s own list')
            if j is None:
                continue
            k, msg = j
            bad = True
            ctx.fail(f'{e.frame.fn.qualname} {k}' if hasattr(e.frame.fn, 'qualname') else f'{c.name}.{m} {k}',
                     f'{op}.{m} ({nin} inputs): {msg} in {e.frame.fn.qualname}', f'onnx_tool/node.py:{e.node.lineno} {e.frame.fn.qualname}')
        # shape lists shared with an input
        if hasattr(r, 'facts_log'):
            for kind, b, val, ts, node, fr in r.facts_log:
                if kind != 'shape' or not (b[0] == 'param' and b[1].startswith('out') or b[0] == 'idx'):
                    continue
                for a in val:
                    raw = a[0] == 'attr' and a[2] == 'shape' and owner(a) is not None and owner(a)[0][0] == 'in'
                    if raw:
                        bad = True
                        ctx.fail(f'{fr.fn.qualname} shares shape', f'{op}.{m}: the output is given the very shape list of input {T.show(a[1])}',
                                 f'onnx_tool/node.py:{node.lineno} {fr.fn.qualname}')
        if not bad:
            ctx.ok(f'{op}.{m} nin={nin} nout={nout} {mode}: {len(evs)} events')
    if fresh is False:
        # who edits what get_shape gave it
        hit = []
        for op, c, m, nin, nout, mode, r in sweep.runs(('shape_infer', 'value_infer', 'profile'), ('open',)):
            for e in getattr(r, 'events', []):
                if e.kind == 'mutate' and e.atom[0] == 'ref' and e.how in ('setitem', 'augassign', 'extend', 'append', 'insert', 'delitem', 'pop'):
                    o = r.state and r.state.heap.get(e.atom[1])
                    if o is not None and o.node is not None and _from_get_shape(o):
                        hit.append(f'{e.frame.fn.qualname}')
        f = api.info['get_shape'][0]
        ctx.fail('tensor get_shape aliases', 'Tensor.get_shape hands out the tensor\'s own shape list; operators that edit it: ' + ', '.join(sorted(set(hit))[:8]),
                 f'onnx_tool/tensor.py:{f.node.lineno} Tensor.get_shape')
    elif fresh is None:
        ctx.undecided('Tensor.get_shape does not return')
    ctx.floor('operator classes analysed', len(classes), 60)
    ctx.count('configurations interpreted', nruns)
    ctx.assume('numpy functions do not write their arguments except through out=, and item/slice assignment, in-place operators and the in-place array methods')


def _from_get_shape(o):
    import ast
    n = o.node
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'get_shape'

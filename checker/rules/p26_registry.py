"""P26: every operator type resolves to its own implementation."""
import ast

from .. import graphsem as gs, probe, terms as T
from ..absint import V
from ..probe import P, c, plain

TITLE = 'Every operator type resolves to its own implementation'
TECHNIQUE = ('query over the syntax tree for the registrations, resolved against the class hierarchy; abstract interpretation of the registry and of the dispatch with a '
             'symbolic operator type')
EXPLANATION = ('All registrations of operator classes are collected and compared with the classes that implement operators; the registry operations and the dispatch are derived '
               'from the source for a registered and an unregistered operator type.')
LEVEL = 'sound'
NODE, UTILS = 'onnx_tool.node', 'onnx_tool.utils'
REG = ('global', UTILS, 'NODE_REGISTRY')
SUPPORTED = ('Abs Add And ArgMax ArrayFeatureExtractor Atan AveragePool BatchNormalization Cast CategoryMapper Ceil Clip Compress Concat Constant ConstantOfShape '
             'Conv ConvInteger ConvTranspose Cos CumSum DepthToSpace DequantizeLinear Div Dropout Einsum Elu Equal Erf Exp Expand Flatten Floor GDN GQA GRU Gather '
             'GatherElements GatherND GeGelu Gelu Gemm GlobalAveragePool Greater GreaterOrEqual GridSample HardSigmoid HardSwish Hardmax Identity ImageScaler '
             'InstanceNormalization LRN LSTM LayerNormalization LeakyRelu Less LessOrEqual Log LogSoftmax LogitSoftCapping LpNormalization MLA MQA MatMul '
             'MatMulInteger Max MaxPool Min MoE Mod Mul Neg NonMaxSuppression NonZero Not OneHot Or PRelu Pad Pow QLinearConv QLinearMatMul QuantizeLinear '
             'RandomNormalLike RandomUniformLike Range Reciprocal ReduceL2 ReduceMax ReduceMean ReduceMin ReduceProd ReduceSum Relu Relu6 Reshape Resize RoiAlign '
             'Rope Round SDPA Scan ScatterElements ScatterND Shape Sigmoid Sign Silu Sin Slice Softmax Softplus Split Sqrt Squeeze Sub Sum Tanh Tile TopK Transpose '
             'Trilu Unsqueeze Upsample Where Xor ZipMap').split()


def is_reg(p, m, e, depth=0):
    """does this expression denote the operator registry"""
    if depth > 4:
        return False
    if isinstance(e, ast.Name):
        if m.name == UTILS and e.id == 'NODE_REGISTRY':
            return True
        for s in m.tree.body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in s.targets):
                return is_reg(p, m, s.value, depth + 1)
            if isinstance(s, ast.ImportFrom):
                for a in s.names:
                    if (a.asname or a.name) == e.id:
                        return a.name == 'NODE_REGISTRY'
        return False
    return isinstance(e, ast.Attribute) and e.attr == 'NODE_REGISTRY'


def is_register(p, m, e, depth=0):
    """does this expression denote the registry's register method"""
    if isinstance(e, ast.Attribute) and e.attr == 'register':
        return is_reg(p, m, e.value)
    if isinstance(e, ast.Name) and depth < 4:
        for s in m.tree.body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in s.targets):
                return is_register(p, m, s.value, depth + 1)
    return False


def registrations(p):
    """[(registered name or None, class name, module, node)], and whether some registration is not in a recognised form"""
    out, odd = [], []
    for m in p.modules.values():
        if not m.name.startswith('onnx_tool'):
            continue
        claimed = set()
        for s in ast.walk(m.tree):
            if isinstance(s, ast.ClassDef):
                for d in s.decorator_list:
                    if isinstance(d, ast.Call) and is_register(p, m, d.func):
                        claimed.add(id(d))
                        if not d.args and not d.keywords:
                            out.append((s.name, s.name, m, s))
                        else:
                            odd.append((m, s))
                    elif is_register(p, m, d):
                        out.append((s.name, s.name, m, s))
                        claimed.add(id(d))
                    elif not (isinstance(d, ast.Name) and d.id in ('dataclass',)) and s in m.tree.body:
                        odd.append((m, s))
        for s in ast.walk(m.tree):
            if isinstance(s, ast.Call) and id(s) not in claimed and is_register(p, m, s.func):
                if len(s.args) == 1 and isinstance(s.args[0], ast.Name) and isinstance(m.bind.get(s.args[0].id), type(p.cls(NODE, 'Node'))):
                    out.append((m.bind[s.args[0].id].name, s.args[0].id, m, s))
                else:
                    odd.append((m, s))
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Subscript) and is_reg(p, m, t.value) for t in s.targets):
                t = s.targets[0]
                if isinstance(t.slice, ast.Constant) and isinstance(s.value, ast.Name):
                    out.append((t.slice.value, s.value.id, m, s))
                else:
                    odd.append((m, s))
            if isinstance(s, ast.Attribute) and s.attr == '_obj_map' and is_reg(p, m, s.value):
                odd.append((m, s))
    return out, odd


def check_registrations(ctx, p):
    ctx.rule('every operator class is registered once, under the name of the operator it implements; no later registration or class of the same name replaces it')
    base = p.cls(NODE, 'Node')
    regs, odd = registrations(p)
    if odd:
        ctx.undecided(f'{len(odd)} registrations in a form that is not recognised (first at line {getattr(odd[0][1], "lineno", "?")})', NODE)
    by = {}
    for name, cls, m, s in regs:
        by.setdefault(name, []).append((cls, m, s))
    for name, l in sorted(by.items()):
        ctx.seen(f'{l[0][1].path}:{l[0][2].lineno} {name}')
        if len(l) > 1:
            ctx.fail(f'duplicate:{name}', f'{name} is registered {len(l)} times: the last registration replaces the others', f'{l[1][1].path}:{l[1][2].lineno}')
        else:
            ctx.ok(f'one:{name}')
        cls, m, s = l[0]
        k = m.bind.get(cls)
        defs = [x for x in m.tree.body if isinstance(x, ast.ClassDef) and x.name == cls]
        if isinstance(s, ast.ClassDef) and len(defs) > 1:
            ctx.fail(f'shadowed:{name}', f'class {cls} is defined {len(defs)} times', f'{m.path}:{defs[-1].lineno}')
        if k is not None and hasattr(k, 'mro') and base not in k.mro() and not k.has_external_base():
            ctx.fail(f'kind:{name}', f'{cls} is registered as an operator but is no Node', f'{m.path}:{s.lineno}')
        if name != cls:
            ctx.undecided(f'{cls} registered as {name}', m.path)
    # the operators the tool supports
    for op in SUPPORTED:
        if op + 'Node' in by:
            ctx.ok(f'supported:{op}')
        elif odd:
            ctx.undecided(f'{op}: registration not found', NODE)
        else:
            ctx.fail(f'supported:{op}', f'no class is registered for operator {op}: it would be kept without shape, value or cost', NODE)
    # classes implementing operators
    m = p.modules[NODE]
    classes = [k for k in m.bind.values() if hasattr(k, 'mro') and base in k.mro() and k is not base and k.module is m]
    parents = {b for k in classes for b in k.mro() if b is not k}
    for k in classes:
        if k in parents or k.name + '' in by or not k.name.endswith('Node'):
            continue
        if odd:
            ctx.undecided(f'{k.name}: registration not found', NODE)
        else:
            ctx.fail(f'unregistered:{k.name}', f'{k.name} implements an operator but is never registered', f'{m.path}:{k.node.lineno}')
    return by, odd


def check_names_used(ctx, p, by, odd):
    ctx.rule('every operator type the package itself creates by name has a registered implementation')
    m = p.modules.get('onnx_tool.llm')
    if m is None:
        return
    acts = {}
    for s in m.tree.body:
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == 'ActMap' for t in s.targets) and isinstance(s.value, ast.Dict):
            for v in s.value.values:
                if isinstance(v, ast.Constant) and isinstance(v.value, str):
                    acts[v.value] = v
    used = [(k, f'ActMap, {m.path}:{v.lineno}') for k, v in acts.items()]
    for s in ast.walk(m.tree):
        if isinstance(s, ast.Call) and isinstance(s.func, ast.Name) and s.func.id == 'TmpNodeProto' and len(s.args) > 1 and isinstance(s.args[1], ast.Constant):
            used.append((s.args[1].value, f'{m.path}:{s.lineno}'))
    for op, where in used:
        if op + 'Node' in by:
            ctx.ok(f'used:{op}')
        elif odd:
            ctx.undecided(f'{op}: registration not found', where)
        else:
            ctx.fail(f'used:{op}', f'operator {op} is created by the language-model builder but has no registered implementation', where)


def check_registry(ctx, p):
    ctx.rule('registering stores the given class itself under its own name and hands it back; looking a name up gives the class registered under it, or nothing')
    m = p.modules[UTILS]
    A, B = ('cls', p.cls(NODE, 'Node')), ('cls', p.cls(NODE, 'FusedBase'))
    cases = [('as a decorator', "def f(A, B):\n r = Registry('x')\n q = r.register()(A)\n s = r.register()(B)\n return [q, s, r.get('Node'), r.get('FusedBase'), r['Node'], r.get('zz')]\n",
              [A, B, A, B, A, None]),
             ('by a call', "def f(A, B):\n r = Registry('x')\n r.register(A)\n r.register(B)\n return [r.get('Node'), r.get('FusedBase'), r['FusedBase'], r.get('zz')]\n", [A, B, B, None]),
             ('in separate registries', "def f(A, B):\n r = Registry('x')\n s = Registry('y')\n r.register()(A)\n s.register()(B)\n return [r.get('Node'), s.get('Node'), r.get('FusedBase'), s.get('FusedBase')]\n",
              [A, None, None, B]),
             ('to replace an implementation', "def f(A, B):\n r = Registry('x')\n r['Node'] = B\n r['Node'] = A\n r['Other'] = B\n return [r.get('Node'), r.get('Other')]\n", [A, B]),
             ('for an unknown name', "def f(A, B):\n r = Registry('x')\n r.register()(A)\n v = r.get('zz')\n return [v]\n", [None])]
    reg = m.bind.get('Registry')
    where = getattr(reg, 'where', None) or UTILS
    for lab, src, want in cases:
        try:
            r = gs.run(None, probe.fn(m, src), {'A': A, 'B': B}, seconds=20)
            res = probe.results(r)
        except gs.TooLong:
            res, r = [], None
        if r is not None and r.state is None:
            ctx.fail(f'registry:{lab}', f'the registry, used {lab}, fails', where)
        elif len(res) != 1 or not isinstance(res[0], list) or len(res[0]) != len(want) or any(isinstance(x, tuple) and x[:1] not in (('cls',),) for x in res[0]):
            ctx.undecided(f'registry used {lab}: {str(res)[:100]}', where)
        elif res[0] == want:
            ctx.ok(f'registry:{lab}')
        else:
            k = next(i for i in range(len(want)) if res[0][i] != want[i])
            ctx.fail(f'registry:{lab}', f'the registry, used {lab}, answers {short(res[0][k])} where {short(want[k])} is registered', where)


def short(x):
    return 'nothing' if x is None else 'class ' + x[1].name if isinstance(x, tuple) and x[:1] == ('cls',) else str(x)[:60]


def check_dispatch(ctx, p):
    ctx.rule('an operator is built by the class registered under its type name; when there is none, as a plain operator with a warning, never a failure')
    fi = p.modules[NODE].bind.get('create_node')
    if fi is None:
        ctx.undecided('create_node not found', NODE)
        return
    ctx.seen(fi.where)
    key = ('call', 'strcat', (P('op'), c('Node')), ())
    entry = ('idx', REG, key)
    for present in (True, False):
        def hook(t, st):
            if t[0] == 'cmp' and t[1] in ('==', '!=', 'is', 'is not') and T.NONE in t[2:] and entry in t[2:]:
                return present if t[1] in ('!=', 'is not') else not present
            if t == entry:
                return present
            if t[:2] == ('call', 'in') and t[2][0] == key and (t[2][1] == REG or t[2][1][:2] == ('call', 'keys') and t[2][1][2][0] == REG):
                return present
            return None
        warned = []

        def warn(I, path, a, kw, st, fr, node):
            warned.append(1)
            return V(T.NONE)
        def get(I, recv, a, kw, st, fr, node):
            if recv != REG or not a or len(a[0]) != 1:
                return NotImplemented
            k = next(iter(a[0]))
            if k != key:
                return V(('idx', REG, k))
            return V(entry) if present else a[1] if len(a) > 1 else V(T.NONE)
        arg = [a.arg for a in fi.node.args.args][0]
        try:
            r = gs.run(None, fi, {arg: P('proto')}, over=[(P('proto'), 'op_type', P('op'))], truth_hook=hook, seconds=20, summaries={'ext:warnings.warn': warn, '.get': get},
                       opaque=lambda f: f.cls is not None and f.name == '__init__')
        except gs.TooLong:
            r = None
        vals = r.value if r is not None else None
        lab = 'registered' if present else 'unregistered'
        if present:
            want = ('call', 'apply', (entry, P('proto')), ())
            good = vals == V(want)
            bad = vals is not None and len(vals) > 0 and (all(clear(v) for v in vals))
        else:
            insts = [v for v in vals or () if v[0] == 'inst' and v[1] == 'Node']
            good = vals is not None and len(vals) == 1 and len(insts) == 1 and bool(warned) and r.state is not None
            bad = vals is not None and (all(clear(v) for v in vals))
        if good:
            ctx.ok(f'dispatch:{lab}')
        elif r is not None and (bad or r.state is None):
            got = 'an exception' if r.state is None else ', '.join(sorted(T.show(v)[:80] for v in vals)) or 'nothing'
            ctx.fail(f'dispatch:{lab}', f'an operator of {"a" if present else "no"} registered type becomes {got}' + ('' if present or warned else ' without a warning'), fi.where)
        else:
            ctx.undecided(f'{lab} operator: {[T.show(v)[:80] for v in vals or ()]}', fi.where)


def clear(v):
    return v[0] == 'inst' or v == T.NONE or v[:2] == ('call', 'apply') and v[2][0][0] in ('idx', 'cls') and not T.has_top(v)


def check_base(ctx, p):
    ctx.rule('the plain operator costs nothing')
    base = p.cls(NODE, 'Node')
    fi = base.find_method('_profile_core')
    if fi is None:
        ctx.undecided('Node._profile_core not found', NODE)
        return
    ctx.seen(fi.where)
    try:
        r = gs.run(base, fi.name, args={a.arg: P(a.arg) for a in fi.node.args.args if a.arg != 'self'}, seconds=20)
    except gs.TooLong:
        ctx.undecided('Node._profile_core', fi.where)
        return
    if r.state is None:
        ctx.fail('base:cost', 'profiling an operator without implementation fails', fi.where)
    elif r.value != V(c(0)) and r.value and all(v[0] == 'const' for v in r.value):
        ctx.fail('base:cost', f'an operator without implementation costs {sorted(T.show(v) for v in r.value)}', fi.where)
    elif r.value == V(c(0)):
        ctx.ok('base:cost')
    else:
        ctx.undecided('cost of the plain operator', fi.where)


def check(ctx):
    p = gs.program()
    by, odd = check_registrations(ctx, p)
    check_names_used(ctx, p, by, odd)
    check_registry(ctx, p)
    check_dispatch(ctx, p)
    check_base(ctx, p)
    ctx.count('registered operators', len(by))

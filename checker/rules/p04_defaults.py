"""P04: an omitted attribute takes the default the ONNX standard defines."""
import ast

from .. import cases, model, numsem, sweep
from .. import terms as T
from ..opsem import SELF, NPROTO, tout
from ..shapecheck import Case, alternatives, execute
from ..absint import MISSING
from ..terms import const
from . import p05_values, p25_window, p33_shapes, p06_macs

TITLE = 'Omitted attributes take the ONNX default'
TECHNIQUE = ('abstract interpretation of constructors (stored defaults) against the schema table of every opset, relational comparison of inference/folding/profiling with the attribute absent and '
             'with the schema default given, and a query over attribute lookups of the kernels')
EXPLANATION = ('(D) the value every operator constructor leaves in an attribute the model omits is compared with the defaults of all schema versions; (R) for every configuration of the shape, window, '
               'folding and profiling tables and every optional attribute with a default the configuration omits, shape inference, value inference and profiling are abstractly interpreted once with the '
               'attribute absent and once with the standard\'s default given, and must give the same normal forms; (N) constructors do not set defaults under names no schema knows and nothing reads; '
               '(K) the fall-back of every attribute lookup in a kernel is the schema default of the operator it is registered for.')

NEUTRAL = {'strides': 1, 'dilations': 1, 'pads': 0, 'output_padding': 0, 'output_shape': 0}


def attributes(op):
    """attr -> (set of defaults over all versions, in every version defaulted?, ever required)"""
    out = {}
    for e in cases.schema().get(op) or []:
        for k, v in e['attrs'].items():
            d, nd, rq = out.setdefault(k, [set(), False, False])
            if v['required']:
                out[k][2] = True
            elif v.get('default') is None:
                out[k][1] = True
            else:
                x = v['default']
                if isinstance(x, float):
                    x = float(f'{x:.6g}')  # single precision in the schema
                d.add(tuple(x) if isinstance(x, list) else x)
    return out


def same(c, d):
    if isinstance(c, bytes):
        c = c.decode('utf-8', 'replace')
    if isinstance(d, bytes):
        d = d.decode('utf-8', 'replace')
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, (int, float)) and isinstance(d, (int, float)):
        return abs(c - d) <= 1e-5 * max(abs(c), abs(d))
    if isinstance(c, (list, tuple)) and isinstance(d, (list, tuple)):
        return len(c) == len(d) and all(same(a, b) for a, b in zip(c, d))
    return c == d


def literal_value(v, I, st):
    """python value of an abstract value when it is one constant (list)"""
    if v is None or len(v) != 1:
        return None, False
    t, = v
    if T.is_const(t):
        return t[2], True
    items = I.known_items(v, st) if t[0] in ('ref', 'list', 'tuple') else None
    if items is not None:
        xs = [literal_value(x, I, st) for x in items]
        if all(ok for _, ok in xs):
            return [x for x, _ in xs], True
    return None, False


def as_attr(d, type_):
    """a schema default in the form get_attribute_data hands it to the node"""
    if isinstance(d, str):
        return d.encode('utf-8')
    if isinstance(d, (list, tuple)):
        return [x.encode('utf-8') if isinstance(x, str) else x for x in d]
    return d


def direct(ctx):
    s = sweep.sem()
    ctx.rule('D: a constructor leaves the standard\'s default (of some opset) in an omitted attribute')
    ctx.rule('N: every default is set under the name of an attribute')
    n = 0
    for op, c in sorted(s.ops.items()):
        h = attributes(op)
        m = next((x for x, in [('shape_infer',)]), None)
        r = s.S.run(c, m, nin=1, nout=1, attrs={}, closed=True)
        init = c.find_method('__init__')
        w = f'onnx_tool/node.py:{init.node.lineno} {init.cls.name}.__init__'
        if r.state is None and not hasattr(r, 'before'):
            continue
        before, st = r.before, r.state
        ctx.seen(f'{init.cls.name}.__init__ ({op})')
        for (b, k), v in sorted(before.items(), key=repr):
            if b != SELF or not isinstance(k, str):
                continue
            if k in h:
                val, ok = literal_value(v, r.I, st) if st is not None else literal_value(v, r.I, type('S', (), {'heap': {}})())
                if not ok or val is None:
                    continue
                n += 1
                ds, nodef, req = h[k]
                what = f'{op}.{k} defaults to {val!r}'
                if any(same(val, d) for d in ds):
                    ctx.ok(what)
                elif k in NEUTRAL and nodef and neutral(k, val):
                    ctx.ok(what + ' (neutral)')
                elif req and not ds and not nodef:
                    ctx.ok(what + ' (always given)')
                elif not ds and req:
                    ctx.ok(what + ' (given whenever it matters)')
                elif not ds and nodef and absent_like(op, k, val):
                    ctx.ok(what + ' (not given)')
                else:
                    ctx.fail(f'{op}.{k} default', f'{what}, but the standard says {" or ".join(sorted(map(repr, ds))) or "it has no default"}', w)
    ctx.count('stored defaults', n)
    ctx.floor('stored defaults compared with the schema', n, 60)
    # N
    mod = s.p.module('onnx_tool.node') if hasattr(s.p, 'module') else s.p.modules['onnx_tool.node']
    reads = set()
    for x in ast.walk(mod.tree):
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
            reads.add(x.attr)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('getattr', 'hasattr') and len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
            reads.add(x.args[1].value)
    allnames = {k for h in cases.schema().values() for e in h for k in e['attrs']}
    for x in ast.walk(mod.tree):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'add_default_value' and x.args and isinstance(x.args[0], ast.Constant):
            k = x.args[0].value
            if not isinstance(k, str):
                continue
            if k.isidentifier() and (k in allnames or k in reads):
                ctx.ok(f'default name {k}')
            elif not k.isidentifier():
                ctx.fail(f'default name {k!r}', f'a default is stored under the name {k!r}, which no attribute of an operator can have', f'onnx_tool/node.py:{x.lineno}')


def neutral(k, val):
    vs = val if isinstance(val, (list, tuple)) else [val]
    return all(v == NEUTRAL[k] for v in vs)


# attributes without a default whose absence is represented by a value (checked by shape/value rules in detail)
def absent_like(op, k, val):
    if val in (None, [], (), 0, '', b''):
        return True
    return (op, k, str(val)) in {('Pad', 'value', '0'), ('Shape', 'start', '0')}


# ---------------------------------------------------------------- R
def outcomes(case, method):
    """comparable result of one method"""
    try:
        c, r = execute(case, method)
    except KeyError:
        return None
    if r is None:
        return None
    if r.state is None:
        return {'never': True}
    out = {}
    s = sweep.sem()
    for k in range(case.nout):
        if method == 'shape_infer':
            a = alternatives(case, r, k)
            out['shape', k] = tuple(sorted({tuple(map(repr, d)) for d in a})) if isinstance(a, list) else None
            out['shown', k] = ' | '.join('[' + ', '.join(T.show(x) for x in d) + ']' for d in a) if isinstance(a, list) else None
            ts = s.S.fact_terms(r, tout(k), 'dtype')
            out['dtype', k] = frozenset(repr(t) for t in ts) if ts and all(p05_values.decided(t) for t in ts) else None
        elif method == 'value_infer':
            v = p05_values.result(r, k)
            out['value', k] = v if v and v != 'never' else None
        else:
            pass
    if method == '_profile_core':
        ts = r.I.terms_of(r.ret, r.state, 32) if r.ret is not None else None
        out['macs'] = frozenset(ts) if ts and all(p05_values.decided(t) for t in ts) else None
    return out


def differ(a, b):
    """'never' | description | None (equal or undecided)"""
    if a is None or b is None:
        return None
    if a.get('never') or b.get('never'):
        return 'fails when it is omitted, although it returns when the default is given' if a.get('never') and not b.get('never') else None
    for k in a:
        x, y = a[k], b.get(k)
        if isinstance(k, tuple) and k[0] == 'shown':
            continue
        if x is None or y is None or x == y:
            continue
        if isinstance(k, tuple) and k[0] == 'shape':
            return f'gives shape {a["shown", k[1]]} when it is omitted and {b["shown", k[1]]} with the default'
        if isinstance(k, tuple) and k[0] == 'dtype':
            return f'gives another element type when it is omitted'
        if k == 'macs' or (isinstance(k, tuple) and k[0] == 'value'):
            if all(p05_values.decided(t) for t in x | y) and len(x) == 1 and len(y) == 1:
                tx, ty = next(iter(x)), next(iter(y))
                if skeleton(tx) == skeleton(ty) or p05_values.recognised(tx, {ty}):
                    return f'gives {T.show(tx)[:200]} when it is omitted and {T.show(ty)[:200]} with the default'
    return None


def skeleton(t):
    if t[0] == 'const':
        return 'K'
    if t[0] == 'poly':
        return ('poly', tuple(sorted((tuple((skeleton(x), p) for x, p in m) for m, c in t[1]), key=repr)))
    if t[0] in T.LEAF:
        return t
    return (t[0],) + tuple(skeleton(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else tuple(skeleton(y) if isinstance(y, tuple) and y and isinstance(y[0], str) else (y[0], skeleton(y[1])) if isinstance(y, tuple) and len(y) == 2 and isinstance(y[1], tuple) else y for y in x)
                           if isinstance(x, tuple) else x for x in t[1:])


def configurations():
    for c in p33_shapes.cases():
        yield c
    for c in p25_window.cases():
        yield c
    for v in p05_values.cases():
        yield v.case
    for cs in (p06_macs.elementwise, p06_macs.reductions, p06_macs.products, p06_macs.others):
        for pc in cs():
            yield pc.case


def with_attrs(case, extra):
    kw = dict(case.kw)
    kw.pop('selfover', None)
    kw.pop('outshapes', None)
    c = Case(case.op, case.ranks, None, attrs={**case.attrs, **extra}, values=case.values, nout=case.nout, shapes=case.shapes, **kw)
    return c


def relational(ctx):
    ctx.rule('R: leaving an attribute out and giving its default are the same')
    s = sweep.sem()
    seen = set()
    pairs = set()
    for case in configurations():
        op = case.op
        c = s.ops.get(op)
        h = attributes(op)
        if c is None or not h:
            continue
        names = {k for k, (ds, nodef, req) in h.items() if ds and k not in case.attrs and not (req and k not in cases.attr_names(op))}
        names = {k for k in names if readable(c, k)}
        if not names:
            continue
        key = (op, tuple(case.ranks), repr(sorted(case.attrs.items(), key=str)), repr(sorted(case.values.items())), repr(sorted(case.shapes.items(), key=str)), case.nout, repr(sorted(case.kw.get('noname', ()))))
        if key in seen:
            continue
        seen.add(key)
        base = with_attrs(case, {})
        for m in ('shape_infer', 'value_infer', '_profile_core'):
            if m == 'value_infer' and not sweep.has_value_infer(c):
                continue
            f = c.find_method(m)
            if f is None or (f.cls.name == 'Node' and m == '_profile_core'):
                continue
            if m == '_profile_core':
                base = with_attrs(case, {})
                base.kw = {k: v for k, v in case.kw.items() if k in ('outshapes', 'selfover')}
                if 'outshapes' not in base.kw:
                    continue
            a = outcomes(base, m)
            for k in sorted(names):
                ds = sorted(h[k][0], key=repr)
                t = cases.attr_names(op)[k].get('type')
                msgs = []
                for d in ds:
                    ex = with_attrs(case, {k: as_attr(d, t)})
                    if m == '_profile_core':
                        ex.kw = {kk: v for kk, v in case.kw.items() if kk in ('outshapes', 'selfover')}
                    msgs.append(differ(a, outcomes(ex, m)))
                    if msgs[-1] is None:
                        break
                pairs.add((op, k))
                w = sweep.where(c, m)
                if msgs and msgs[-1] is not None:
                    ctx.fail(f'{op}.{k} omitted {m}', f'{op} ({case.tag()}): {m} {msgs[0]} ({k}={ds[0]!r})', w)
                else:
                    ctx.ok(f'{op} ({case.tag()}) {m}: {k} omitted = default')
    ctx.count('operator attributes compared relationally', len(pairs))
    ctx.floor('operator attributes compared relationally', len(pairs), 25)


_reads = {}


def readable(c, k):
    """does any code of the class (or a helper it hands itself to) mention the attribute"""
    if 'all' not in _reads:
        s = sweep.sem()
        names = set()
        for x in ast.walk(s.p.modules['onnx_tool.node'].tree):
            if isinstance(x, ast.Attribute):
                names.add(x.attr)
            elif isinstance(x, ast.Constant) and isinstance(x.value, str):
                names.add(x.value)
        _reads['all'] = names
    return k in _reads['all']


# ---------------------------------------------------------------- K
def kernels(ctx):
    ctx.rule('K: a kernel falls back to the schema default')
    p = model.load(inference=True)
    n = 0
    for mod in p.modules.values():
        if not mod.rel.startswith('inference'):
            continue
        for cls in mod.all_classes:
            op = registered(cls.node)
            if op is None or op not in cases.schema():
                continue
            h = attributes(op)
            for x in ast.walk(cls.node):
                if not (isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'get' and len(x.args) == 2 and isinstance(x.args[0], ast.Constant)):
                    continue
                k = x.args[0].value
                if k not in h:
                    continue
                try:
                    val = ast.literal_eval(x.args[1])
                except ValueError:
                    continue
                ds, nodef, req = h[k]
                n += 1
                what = f'{op} kernel: {k} falls back to {val!r}'
                w = f'{mod.rel}:{x.lineno} {cls.name}'
                if any(same(val, d) or (isinstance(val, float) and isinstance(d, float) and abs(val - d) < 0.01 * abs(d)) for d in ds):
                    ctx.ok(what)
                elif val is None or val == '' or val == []:
                    ctx.ok(what + ' (not given)')
                elif k in NEUTRAL and neutral(k, val):
                    ctx.ok(what + ' (neutral)')
                elif not ds and req:
                    ctx.ok(what + ' (required)')
                elif not ds and nodef and absent_like(op, k, val):
                    ctx.ok(what)
                else:
                    ctx.fail(f'{op} kernel {k} default', f'{what}, but the standard says {" or ".join(sorted(map(repr, ds))) or "it has no default"}', w)
    ctx.count('kernel attribute fall-backs', n)
    ctx.floor('kernel attribute fall-backs', n, 10)


def registered(node):
    for d in node.decorator_list:
        if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == 'register' and d.args and isinstance(d.args[0], ast.Constant):
            return d.args[0].value
    return None


def check(ctx):
    direct(ctx)
    relational(ctx)
    kernels(ctx)
    ctx.assume('the schema table (oracle/onnx_schema.json) is the one of the installed onnx package; its opset history covers the models in use')

"""P13: constant search and constant folding."""
from .. import graphsem as gs, model, terms as T
from ..absint import V, Obj
from ..model import AnalysisBroken

TITLE = 'Only operators with constant inputs are folded, and folding is complete'
TECHNIQUE = ('guarded effect analysis of the constant search in both modes: which nodes are marked, under which conditions, what is stored on their outputs '
             'and in which order; the constancy predicate evaluated over every static/dynamic combination of up to three inputs')
EXPLANATION = ('Graph.__is_node_constant__ is interpreted abstractly for every combination of input types; Graph.__constant_search__ and '
               '__update_nodes_tensors__ are reduced to guarded effects (attribute writes, container changes, calls on nodes) for folding on and off, '
               'and each effect is checked against what constancy requires.')

SELF = gs.SELF
NM, TM, CB = T.attr(SELF, 'nodemap'), T.attr(SELF, 'tensormap'), T.attr(SELF, 'consumedby')
PRED = '__is_node_constant__'
STATIC, DYNAMIC = 0, 1


def iscall(t, name=PRED):
    return t[0] == 'call' and isinstance(t[1], str) and t[1].split('.')[-1] == name


def mentions(t, x):
    return x in gs.subs(t)


def static_value(p):
    m = p.modules['onnx_tool.tensor']
    b = m.bind.get('STATIC_TENSOR'), m.bind.get('DYNAMIC_TENSOR')
    out = []
    for v in b:
        vals = getattr(v, 'values', None)
        out.append(vals)
    return out


def check_predicate(ctx, G):
    fi = G.find_method(PRED)
    N = ('param', 'node')
    import itertools
    argn = fi.node.args.args[1].arg
    N = ('param', argn)
    bad = False
    for op in ('Add', 'DequantizeLinear'):
        for k in range(4):
            for types in itertools.product((STATIC, DYNAMIC), repeat=k):
                names = [T.const(f'in{i}') for i in range(k)]
                over = [(N, 'op_type', T.const(op)), (N, 'input', names)]
                for i, ty in enumerate(types):
                    over.append((T.idx(TM, T.const(f'in{i}')), 'type', T.const(ty)))
                r = gs.run_cut(G, PRED, over=over)
                want = op != 'DequantizeLinear' and all(t == STATIC for t in types)
                got = r.value.atoms if hasattr(r.value, 'atoms') else None
                vals = decide(r.value)
                what = f'{op} with inputs {["static" if t == STATIC else "dynamic" for t in types]}'
                if vals is None:
                    ctx.undecided(f'constancy of {what} not decided: {show(r.value)}', fi.where)
                elif vals != {want}:
                    bad = True
                    ctx.fail(f'predicate:{op}:{"".join(map(str, types))}', f'{fi.qualname}: {what} is judged {sorted(vals)}, expected {want}', fi.where)
                else:
                    ctx.ok(f'{what}: constant is {want}')
    return not bad


def terms_of(v):
    return set(v) if v is not None and not isinstance(v, tuple) else (set(v) if isinstance(v, frozenset) else None)


def decide(v):
    try:
        ts = set(v)
    except TypeError:
        return None
    out = set()
    for t in ts:
        if t[0] == 'const' and isinstance(t[2], (bool, int)):
            out.add(bool(t[2]))
        else:
            return None
    return out or None


def show(v):
    try:
        return '|'.join(sorted(T.show(t)[:60] for t in v))
    except Exception:
        return '?'


def depth_of(t):
    return sum(1 for s in T.subterms(t) if s == CB)


def harmless(terms, pol):
    """conditions that only say there is something to do"""
    for t in terms:
        if t == T.TRUE or iscall(t):
            continue
        s = T.show(t)
        if t[0] == 'cmp' or s.startswith('in(') or s.startswith('hasattr('):
            if '.input' in s and 'len(' in s:
                return False
            if 'len(' in s or s.startswith('in(') or s.startswith('hasattr('):
                continue
        if t[0] in ('ref', 'each', 'idx', 'attr') and not s.endswith('.numpy'):
            continue
        if t[0] == 'call' and t[1] == 'len':
            continue
        return False
    return True


SUSPECT = ('.numpy', 'op_type', '.shape', '.dtype', '.type', '.attr')


def sliced(t):
    return any(s[0] == 'idx' and s[2][0] == 'slice' for s in T.subterms(t))


def judge_guards(ctx, key, what, e, allow_pred_of=None):
    """the effect must not be subject to conditions on anything but reachability"""
    bad = None
    for g in e.guardsets:
        for c in gs.conds(g):
            if not harmless(c[1], c[2]):
                bad = c
                s = ' '.join(T.show(t) for t in c[1])
                if any(x in s for x in SUSPECT) or any(t[0] == 'cmp' for t in c[1]):
                    ctx.fail(key, f'{what} only when {gs.showg([c])[:120]}', e.where)
                    return False
    if bad is not None:
        ctx.undecided(f'{what} under {gs.showg([bad])[:120]}', e.where)
        return None
    return True


def check_search(ctx, G, folding):
    mode = 'folding' if folding else 'marking'
    fi = G.find_method('__constant_search__')
    args = [a.arg for a in fi.node.args.args][1:]
    r = gs.run_cut(G, '__constant_search__', {args[0]: V(T.const(folding))} if args else {},
               opaque=lambda f: f.name == PRED)
    evs = r.events
    order = {id(e): i for i, e in enumerate(evs)}
    marks = [e for e in evs if e.kind == 'setattr' and e.how == 'constant' and (mentions(e.atom, NM))]
    if not marks:
        ctx.undecided(f'{mode}: no store of the constant mark was found', fi.where)
        return
    # R4: every mark is the predicate's answer for the same node
    nodes = {}
    for e in marks:
        nodes.setdefault(e.atom, []).append(e)
        for val in e.extra or ():
            if iscall(val):
                if e.atom in val[2]:
                    ctx.ok(f'{mode}: mark of {T.show(e.atom)[:50]} is the predicate on it')
                elif any(x[0] != 'param' for x in val[2]):
                    ctx.fail(f'mark:{mode}:other', f'{fi.qualname}: the mark of {T.show(e.atom)[:60]} is the answer for another node', e.where)
                else:
                    ctx.undecided('mark value', e.where)
            elif val == T.FALSE:
                ctx.ok()
            elif val == T.TRUE:
                for g in e.guardsets:
                    pos = [t for c in gs.conds(g) if c[2] for t in c[1] if iscall(t)]
                    neg = [t for c in gs.conds(g) if not c[2] for t in c[1] if iscall(t) and e.atom in t[2]]
                    if neg:
                        ctx.fail(f'mark:{mode}:negated', f'{fi.qualname}: a node is marked constant where the predicate said it is not', e.where)
                    elif any(e.atom in t[2] for t in pos):
                        ctx.ok(f'{mode}: {T.show(e.atom)[:50]} marked under the predicate on it')
                    elif any(a[0] == 'top' for t in pos for a in t[2]):
                        continue
                    elif depth_of(e.atom) <= 1 or not pos:
                        ctx.fail(f'mark:{mode}:unchecked', f'{fi.qualname}: {T.show(e.atom)[:80]} is marked constant without asking whether its inputs are static', e.where)
            else:
                ctx.undecided(f'{mode}: mark value {T.show(val)[:60]}', e.where)
    opq = [e for e in evs if e.kind == 'opaquecall' and e.how.name == PRED]
    base = sorted(nodes, key=depth_of)
    maxd = max(depth_of(n) for n in nodes)
    tstores = [e for e in evs if e.kind == 'setattr' and e.how == 'type' and mentions(e.atom, TM)]
    for e in tstores:
        if not any(mentions(e.atom, T.attr(n, 'output')) for n in nodes):
            ctx.fail(f'static:{mode}:other', f'{fi.qualname}: marks {T.show(e.atom)[:80]} static, which is not an output of a constant operator', e.where)
        for val in e.extra or ():
            if val != T.const(STATIC):
                if val[0] == 'const':
                    ctx.fail(f'static:{mode}:value', f'{fi.qualname}: an output of a constant operator gets type {T.show(val)}', e.where)
                else:
                    ctx.undecided('type value', e.where)
    for n in base:
        if depth_of(n) > max(1, maxd - 2):
            continue
        outs = T.attr(n, 'output')
        mine = [e for e in tstores if mentions(e.atom, outs) and depth_of(e.atom) == depth_of(n)]
        full = [e for e in mine if mentions(e.atom, ('each', outs))]
        some = mine
        if not full:
            if depth_of(n) and any(e.kind in ('recurse', 'opaquecall') and getattr(e.how, 'name', '') != PRED for e in evs):
                ctx.undecided(f'{mode}: how consumers found constant are treated', fi.where)
            elif some:
                ctx.fail(f'static:{mode}:some', f'{fi.qualname}: only {T.show(some[0].atom)[:70]} of a constant operator becomes static, not every output', some[0].where)
            else:
                ctx.fail(f'static:{mode}:none', f'{fi.qualname} ({mode}): no output of a constant operator becomes static', fi.where)
            continue
        ok = [judge_guards(ctx, f'static:{mode}:guard', f'{fi.qualname}: outputs of a constant operator become static', e) for e in full]
        for e in full:
            for g in e.guardsets:
                if any(iscall(t) and not c[2] and n in t[2] for c in gs.conds(g) for t in c[1]):
                    ctx.fail(f'static:{mode}:dynamic', f'{fi.qualname}: outputs of an operator with dynamic inputs become static', e.where)
                    ok.append(False)
        if all(x for x in ok):
            ctx.ok(f'{mode}: every output of {T.show(n)[:50]} becomes static')
        # R8 + order
        cons = [e for e in opq if any(depth_of(a) == depth_of(n) + 1 and mentions(a, outs) for _, a in e.extra)]
        every = [e for e in cons if any(depth_of(a) == depth_of(n) + 1 and any(s[0] == 'each' and depth_of(s[1]) == depth_of(n) + 1 and not sliced(s[1]) for s in gs.subs(a)) and mentions(a, ('each', outs)) for _, a in e.extra)]
        if not cons and depth_of(n):
            continue
        if not cons:
            if any(e.kind == 'mutate' and mentions_any(e.extra, CB) for e in evs) or uses(fi, 'consumedby'):
                ctx.undecided(f'{mode}: how consumers are examined', fi.where)
            else:
                ctx.fail(f'consumers:{mode}:none', f'{fi.qualname} ({mode}): consumers of a constant operator\'s outputs are never examined again', fi.where)
            continue
        if not every:
            ctx.fail(f'consumers:{mode}:some', f'{fi.qualname} ({mode}): only {T.show([a for _, a in cons[0].extra if mentions(a, CB)][0])[:80]} is examined again, not every consumer of every output', cons[0].where)
            continue
        for e in every:
            judge_guards(ctx, f'consumers:{mode}:guard', f'{fi.qualname}: consumers of a constant operator are examined', e)
        first = min(order[id(e)] for e in every)
        for e in full:
            if order[id(e)] > first:
                ctx.fail(f'order:{mode}:static', f'{fi.qualname} ({mode}): consumers are examined before the outputs of the constant operator are static', e.where)
            else:
                ctx.ok(f'{mode}: outputs static before consumers are examined')
        # R3
        vi = [e for e in evs if e.kind == 'methodcall' and e.how == 'value_infer' and e.atom == n]
        if folding:
            if not vi:
                ctx.fail('infer:none', f'{fi.qualname}: with folding on, the values of a constant operator are not computed', fi.where)
            for e in vi:
                j = judge_guards(ctx, 'infer:guard', f'{fi.qualname}: values of a constant operator are computed', e)
                if order[id(e)] > first:
                    ctx.fail('order:infer', f'{fi.qualname}: consumers of a constant operator are examined before its values are computed', e.where)
                elif j:
                    ctx.ok('folding: values computed before consumers are examined')
                a = dict((k, x) for k, x in e.extra)
                check_infer_args(ctx, r, e, n, fi)
            for e in vi:
                for g in e.guardsets:
                    if any(iscall(t) and not c[2] and n in t[2] for c in gs.conds(g) for t in c[1]):
                        ctx.fail('infer:dynamic', f'{fi.qualname}: values are computed for an operator with dynamic inputs', e.where)
        elif vi:
            ctx.fail('infer:marking', f'{fi.qualname}: with folding off, operator values are computed and overwrite tensors', vi[0].where)
    # nodes skipped altogether
    skip = [c for e in marks if depth_of(e.atom) == 0 for g in e.guardsets for c in gs.conds(g)]
    for c in skip:
        for t in c[1]:
            s = T.show(t)
            if s.startswith('hasattr(') or iscall(t) or 'constant' in s:
                continue
            if 'op_type' in s or 'numpy' in s or 'shape' in s:
                ctx.fail(f'mark:{mode}:skip', f'{fi.qualname} ({mode}): only operators with {gs.showg([c])[:100]} are examined', marks[0].where)


def mentions_any(extra, x):
    try:
        return any(mentions(t, x) for t in (extra or ()) if isinstance(t[0], str))
    except Exception:
        return False


def uses(fi, name):
    import ast
    return any(isinstance(x, ast.Attribute) and x.attr == name for x in ast.walk(fi.node))


def check_infer_args(ctx, r, e, n, fi):
    got = {}
    for k, x in e.extra:
        got.setdefault(k, set()).add(x)
    for k, side in ((0, 'input'), (1, 'output')):
        cs = set(r.contents(got.get(k, ())))
        for x in got.get(k, ()):
            for m in r.of('mutate'):
                if m.atom == x and isinstance(m.extra, frozenset):
                    cs |= {t for t in m.extra if isinstance(t[0], str)}
        want = T.attr(n, side)
        other = T.attr(n, 'output' if side == 'input' else 'input')
        good = [t for t in cs if t[0] == 'idx' and t[1] == TM and mentions(t, want)]
        wrong = [t for t in cs if t[0] == 'idx' and t[1] == TM and mentions(t, other) and not mentions(t, want) and depth_of(t) == depth_of(n)]
        if good and not wrong:
            ctx.ok(f'folding: argument {k} of value_infer holds the {side}s')
        elif wrong and not good:
            ctx.fail(f'infer:arg{k}', f'{fi.qualname}: value_infer gets {T.show(wrong[0])[:60]} where its {side} tensors belong', e.where)
        elif not good:
            ctx.undecided(f'value_infer argument {k}: {[T.show(t)[:60] for t in list(cs)[:3]]}', e.where)


def check_drop(ctx, G):
    fi = G.find_method('__update_nodes_tensors__')
    args = [a.arg for a in fi.node.args.args][1:]
    for folding in (True, False):
        r = gs.run_cut(G, '__update_nodes_tensors__', {args[0]: V(T.const(folding))} if args else {},
                   opaque=lambda f: f.name == '__update_consumer_producer__')
        drops = [e for e in r.of('mutate') if e.atom == NM and e.how in ('pop', 'delitem', 'del', 'popitem', 'clear', 'remove')]
        drops += [e for e in r.events if e.kind == 'setattr' and e.atom == SELF and e.how == 'nodemap']
        if not folding:
            for e in drops:
                ctx.fail('drop:marking', f'{fi.qualname}: operators are removed although folding is off', e.where)
            if not drops:
                ctx.ok('marking: no operator is removed')
            continue
        # the names collected for removal
        coll = [e for e in r.of('mutate') if e.how in ('append', 'add', 'extend', 'insert') and e.atom[0] == 'ref'
                and any(t == ('each', NM) for t in (e.extra or ()) if isinstance(t[0], str))]
        coll = [e for e in coll if any(is_const_guard(c) for g in e.guardsets for c in gs.conds(g)) or True]
        if not drops:
            ctx.undecided('folding: where constant operators are dropped', fi.where)
            continue
        direct = [e for e in drops if any(is_const_guard(c) for g in e.guardsets for c in gs.conds(g))]
        src = direct or coll
        tests = comp_tests(r, fi) if not src else None
        if not src and tests is None:
            ctx.undecided('folding: which operators are dropped', fi.where)
            continue
        for e in src:
            for g in e.guardsets:
                cs = [c for c in gs.conds(g) if is_const_guard(c)]
                keep = [c for c in gs.conds(g) if not is_const_guard(c)]
                if any(not c[2] for c in cs):
                    ctx.fail('drop:negated', f'{fi.qualname}: operators that are not constant are dropped', e.where)
                elif not cs:
                    ctx.fail('drop:any', f'{fi.qualname}: operators are dropped without having been found constant', e.where)
                else:
                    ctx.ok('folding: only operators found constant are dropped')
                if not any(('output' in gs.showg([c])) for c in keep):
                    ctx.fail('drop:output', f'{fi.qualname}: an operator producing an output of the model can be dropped', e.where)
                else:
                    ctx.ok('folding: an operator producing a model output is kept')
                for c in keep:
                    s = gs.showg([c])
                    if 'op_type' in s or 'numpy' in s or 'shape' in s or 'input' in s:
                        ctx.fail('drop:some', f'{fi.qualname}: constant operators are dropped only when {s[:100]}', e.where)
        # what the remaining operators read has to be kept as initial value
        ini = T.attr(SELF, 'initials')
        add = [e for e in r.of('mutate') if e.atom == ini and e.how in ('append', 'add', 'extend', 'insert')]
        node = T.idx(NM, ('each', NM))
        good = [e for e in add if any(mentions(t, T.attr(node, 'input')) for t in (e.extra or ()) if isinstance(t[0], str))]
        if not add and not any(e.kind == 'setattr' and e.how == 'initials' for e in r.events):
            ctx.fail('initials:none', f'{fi.qualname}: with folding on, computed inputs of the remaining operators are not kept as initial values', fi.where)
        elif not good:
            ctx.undecided('folding: what becomes an initial value', fi.where)
        for e in good:
            for g in e.guardsets:
                ty = [(t, c[2]) for c in gs.conds(g) for t in c[1] if t[0] == 'cmp' and any(s[0] == 'attr' and s[2] == 'type' for s in gs.subs(t))]
                odd = [c for c in gs.conds(g) if any(x in gs.showg([c]) for x in ('op_type', 'numpy', 'shape'))]
                if odd:
                    ctx.fail('initials:guard', f'{fi.qualname}: a static input of a remaining operator is kept only when {gs.showg(odd)[:100]}', e.where)
                elif ty:
                    t, pol = ty[0]
                    if static_test(t, pol) is False:
                        ctx.fail('initials:type', f'{fi.qualname}: dynamic inputs of remaining operators become initial values', e.where)
                    elif static_test(t, pol):
                        ctx.ok('folding: static inputs of remaining operators become initial values')
                    else:
                        ctx.undecided('folding: type test of initial values', e.where)
                else:
                    ctx.undecided('folding: condition of initial values', e.where)


def comp_tests(r, fi):
    return None


def is_const_guard(c):
    return any(s[0] == 'attr' and s[2] == 'constant' for t in c[1] for s in gs.subs(t)) or any(iscall(t) for t in c[1])


def static_test(t, pol):
    s = T.show(t)
    ops = [x for x in t if isinstance(x, str)]
    consts = [x for x in T.subterms(t) if x[0] == 'const' and x[1] == 'int']
    if len(consts) != 1:
        return None
    v = consts[0][2]
    op = t[1]
    if op not in ('==', 'eq', '!=', 'ne'):
        return None
    eq = (op in ('==', 'eq')) == pol
    if v == STATIC:
        return eq
    if v == DYNAMIC:
        return not eq
    return None


def check_order(ctx, G):
    """a graph and its updated version search for constants before using the marks"""
    steps = ('__constant_search__', '__update_nodes_tensors__', '__find_shape_tensors__')
    for name in ('__init__', 'update_graph'):
        fi = G.find_method(name)
        if fi is None:
            raise AnalysisBroken(f'Graph.{name} not found')
        import ast
        calls = []
        for x in ast.walk(fi.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                calls.append(x)
        want = [s for s in steps]
        evs = opaque_order(G, fi, steps)
        if evs is None:
            ctx.undecided(f'{name}: order of the constant search', fi.where)
            continue
        names = [e.how.name for e in evs]
        if '__constant_search__' not in names:
            if '__update_nodes_tensors__' in names:
                ctx.fail(f'order:{name}:search', f'{fi.qualname}: operators are dropped without searching for constants first', fi.where)
            continue
        cs = names.index('__constant_search__')
        for s in steps[1:]:
            if s in names and names.index(s) < cs:
                ctx.fail(f'order:{name}:{s}', f'{fi.qualname}: {s} runs before the constant search', evs[names.index(s)].where)
            elif s in names:
                ctx.ok(f'{name}: constant search before {s}')
        cfg = {}
        for e in evs:
            if e.how.name in steps[:2]:
                a = [x for prm, x in e.extra if prm != 'self']
                cfg[e.how.name] = frozenset(a)
        if len(cfg) == 2 and len(set(cfg.values())) > 1 and all(len(v) == 1 for v in cfg.values()):
            ctx.fail(f'mode:{name}', f'{fi.qualname}: the constant search and the removal of operators run in different modes '
                     f'({", ".join(T.show(next(iter(v)))[:40] for v in cfg.values())})', fi.where)
        elif len(cfg) == 2:
            ctx.ok(f'{name}: search and removal in the same mode')
        for e in evs:
            if e.how.name == '__constant_search__' and any(gs.conds(g) for g in e.guardsets):
                bad = [c for g in e.guardsets for c in gs.conds(g) if 'constant_folding' in gs.showg([c])]
                if bad:
                    ctx.fail(f'mode:{name}:guard', f'{fi.qualname}: constants are searched only when {gs.showg(bad)[:80]}', e.where)


def opaque_order(G, fi, steps):
    try:
        r = gs.run_cut(G, fi.name, opaque=lambda f: f.cls is G and f.name not in ('_Graph__dummy',) and f.node is not fi.node) if False else \
            gs.run_cut(G, fi.name, opaque=lambda f: f.node is not fi.node)
    except Exception as e:
        return None
    evs = [e for e in r.events if e.kind == 'opaquecall' and e.how.name in steps]
    if evs:
        return evs
    # one level down
    r = gs.run_cut(G, fi.name, opaque=lambda f: f.name in steps or f.module.name != 'onnx_tool.graph')
    return [e for e in r.events if e.kind == 'opaquecall' and e.how.name in steps] or None


def check(ctx):
    ctx.rule('the constancy predicate is true exactly when every input is static and the operator is not DequantizeLinear')
    ctx.rule('a node is marked constant only by that predicate on the node itself')
    ctx.rule('every output of a constant node becomes static, and with folding its values are computed, before any consumer is examined; every consumer of every output is examined')
    ctx.rule('only nodes found constant are dropped, never one producing a model output; static inputs of what remains become initial values')
    ctx.rule('graphs search for constants before dropping operators and before looking for shape tensors, in one mode')
    p = gs.program()
    G = p.cls('onnx_tool.graph', 'Graph')
    for m in (PRED, '__constant_search__', '__update_nodes_tensors__'):
        if G.find_method(m) is None:
            raise AnalysisBroken(f'Graph.{m} not found')
        ctx.seen('onnx_tool/graph.py:Graph.' + m)
    check_predicate(ctx, G)
    for f in (True, False):
        check_search(ctx, G, f)
    check_drop(ctx, G)
    check_order(ctx, G)

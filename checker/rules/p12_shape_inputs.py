"""P12: inputs whose contents decide a shape are recognised, and their producers are computed."""
import ast

from .. import graphsem as gs, sweep, terms as T
from ..model import AnalysisBroken
from ..terms import attr, const

TITLE = 'Inputs whose contents decide a shape are known as such'
TECHNIQUE = 'interprocedural content-read analysis of shape_infer per operator and arity, joined with a guarded effect summary of the shape-tensor marking pass'
EXPLANATION = ('For every operator and every number of inputs, the inputs whose contents shape_infer can read are computed from the source (helpers inlined, attributes absent and given). The pass '
               'that marks operators whose values must be computed is abstractly interpreted for an operator of that type and arity; every content-read input must lead to its producer being marked, '
               'under no further condition, and the marking must propagate through all inputs of a marked operator until a Shape operator.')

# default Node.shape_infer computes the value: inputs whose contents change the extent of the result
BY_VALUE = {'Compress': {2: {1}}, 'Tile': {2: {1}}, 'Range': {3: {0, 1, 2}}}
ILLEGAL = {('Slice', 2)}      # starts and ends are only ever given together
STOPS = {'Shape', 'Size'}


def dead_read(fi_node, node):
    """the value read is bound to a local name nobody loads"""
    if isinstance(node, tuple):
        node = node[0]
    if fi_node is None or node is None:
        return False
    for st in ast.walk(fi_node):
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and any(x is node for x in ast.walk(st.value)):
            n = st.targets[0].id
            return not any(isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Load) for x in ast.walk(fi_node))
    return False


def content_reads():
    s = sweep.sem()
    out = {}
    for op, c in sorted(s.ops.items()):
        m = c.find_method('shape_infer')
        own = m is not None and m.cls.name != 'Node'
        for nin in sorted(set(a for a in sweep.arities(op) if a)):
            acc = {}
            if (op, nin) in ILLEGAL:
                continue
            if not own:
                r = s.S.run(c, 'shape_infer', nin=nin, nout=1, closed=False)
                got = {k for k in range(nin) for a, *_ in r.reads if a == ('input', k) or T.show(a) == f'in{k}'}
                want = BY_VALUE.get(op, {}).get(nin, set())
                if op == 'ReduceL2' and nin == 2:
                    want = {1}
                for k in want & got:
                    acc[k] = c.where if hasattr(c, 'where') else f'{op}'
                out[(op, nin)] = (c, acc)
                continue
            for nout in sweep.outputs(op):
                for mode, kw in sweep.modes(op):
                    r = s.S.run(c, 'shape_infer', nin=nin, nout=nout, **kw)
                    for a, how, node, q in r.reads:
                        for k in range(nin):
                            if T.show(a) == f'in{k}':
                                f = s.p.modules['onnx_tool.node']
                                fn = next((x for x in ast.walk(f.tree) if isinstance(x, ast.FunctionDef) and any(y is (node[0] if isinstance(node, tuple) else node) for y in ast.walk(x))), None)
                                if dead_read(fn, node):
                                    continue
                                nn = node[0] if isinstance(node, tuple) else node
                                acc[k] = f'onnx_tool/node.py:{getattr(nn, "lineno", 0)} {q}'
            out[(op, nin)] = (c, acc)
    return out


def marker(G):
    """the method that sets <node>.shape_calc = True"""
    cands = []
    for name, f in G.methods.items():
        for x in ast.walk(f.node):
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant) and x.value.value is False and any(
                    isinstance(t, ast.Attribute) and t.attr == 'shape_calc' for t in x.targets):
                cands.append(name)
    if not cands:
        raise AnalysisBroken('no method of Graph resets shape_calc on its operators')
    return cands


def run_marking(G, name, op, n):
    nm = attr(gs.SELF, 'nodemap')
    nd = T.idx(nm, ('each', nm))
    over = [(nd, 'op_type', const(op)), (nd, 'input', [const(f'#{k}') for k in range(n)])]
    return gs.run_cut(G, name, over=over)


def mentions(t, x):
    return any(s == x for s in T.subterms(t))


def produced_by(t):
    """the tensors t whose producers this operator term ranges over"""
    out = []
    for s in T.subterms(t):
        if s[0] == 'idx' and s[1] == attr(gs.SELF, 'producedby'):
            out.append(s[2])
        if s[0] == 'call' and s[1] == 'get' and s[2] and s[2][0] == attr(gs.SELF, 'producedby') and len(s[2]) > 1:
            out.append(s[2][1])
    return out


def harmless(g, allow_stop):
    """a condition that never hides a needed operator; else its text. None: cannot be interpreted"""
    if g[0] == 'for':
        return True
    ts, pol = g[1], g[2]
    res = True
    for t in ts:
        r = harmless1(t, pol, allow_stop)
        if r is not True:
            res = r if res is True or r is False else res
    return res


def harmless1(t, pol, allow_stop):
    while t[0] == 'not' or (t[0] == 'call' and t[1] == 'not'):
        t = t[1] if t[0] == 'not' else t[2][0]
        pol = not pol
    txt = T.show(t)
    if t[0] == 'const':
        return True
    if t[0] == 'call' and t[1] == 'in':
        what, coll = T.show(t[2][0]), T.show(t[2][1])
        if what.endswith('.op_type'):
            return stop_ok(t[2][1]) if allow_stop and not pol else False
        if 'self.initials' in coll:
            return not pol
        if coll.split('(')[-1].startswith(('self.producedby', 'self.nodemap')):
            return pol
        if 'self.' in coll:
            return None
        return True        # membership in a local work list / visited set
    if t[0] == 'cmp' and any(T.show(x).endswith('.op_type') for x in t[1:] if isinstance(x, tuple)):
        if allow_stop and ((t[1] == '==') != pol):
            return stop_ok(('list', tuple(x for x in t[1:] if isinstance(x, tuple) and x[0] == 'const')))
        return False
    if '.shape_calc' in txt:
        if t[0] == 'attr':
            return not pol
        if t[0] == 'cmp':
            want = any(x == const(True) for x in t)
            eq = t[1] in ('==', 'is')
            return (want != eq) == pol
        return None
    if 'len(' in txt or t[0] in ('lv', 'ref') or 'unknown' in txt:
        return True        # work list not empty
    if t[0] == 'idx' and t[1] == attr(gs.SELF, 'producedby') or txt.startswith('self.producedby'):
        return pol
    return None


def stop_ok(t):
    names = {x[2] for x in T.subterms(t) if x[0] == 'const' and isinstance(x[2], str) and not x[2].startswith('#')}
    return True if names and names <= STOPS else False


def check(ctx):
    ctx.rule('each input whose contents shape_infer can read seeds the marking pass for that operator and arity, unconditionally')
    ctx.rule('marking extends to the producers of every input of a marked operator; only Shape (or Size) stops it')
    p = gs.program()
    G = p.cls('onnx_tool.graph', 'Graph')
    names = marker(G)
    name = names[0]
    f = G.find_method(name)
    reads = content_reads()
    ctx.floor('operator/arity pairs analysed', len(reads), 100)
    need = 0
    for (op, n), (c, acc) in sorted(reads.items()):
        ctx.seen(f'onnx_tool.node.{c.name}.shape_infer/{n}')
        if not acc:
            ctx.ok()
            continue
        r = run_marking(G, name, op, n)
        marks = [e for e in r.events if e.kind == 'setattr' and e.how == 'shape_calc' and is_true(e.extra)]
        if not marks:
            ctx.undecided(f'no marking found for {op}/{n}', f.where)
            continue
        for k, wh in sorted(acc.items()):
            need += 1
            name_k = const(f'#{k}')
            es = [e for e in marks if name_k in produced_by(e.atom)]
            if not es:
                if any(name_k in gs.subs(t) for e in r.events if isinstance(e.extra, frozenset) for t in set(e.extra) | r.contents(e.extra)) or escapes(r):
                    ctx.undecided(f'{op}/{n} input {k}: seed not resolved', f.where)
                    continue
                ctx.fail(f'seed:{op}/{n}:in{k}', f'{op} with {n} inputs reads the contents of input {k} ({wh}) but the marking pass never marks the producer of that input, so its value is not '
                         'computed before it is needed', f.where)
                continue
            bad = None
            for e in es:
                for g in e.guardsets:
                    v = [harmless(x, False) for x in g]
                    if all(x is True for x in v):
                        bad = None
                        break
                    bad = bad or (False if False in v else None, [gs.showg([x])[:120] for x, y in zip(g, v) if y is not True])
                else:
                    continue
                bad = None
                break
            if bad is None:
                ctx.ok(f'{op}/{n} input {k} seeds the marking')
            elif bad[0] is False:
                ctx.fail(f'seedcond:{op}/{n}:in{k}', f'the producer of input {k} of {op} is marked only if {"; ".join(bad[1])}', f.where)
            else:
                ctx.undecided(f'{op}/{n} input {k}: condition {bad[1]}', f.where)
    ctx.count('content-read inputs', need)
    propagation(ctx, G, name, f)


def is_true(x):
    return x is not None and any(t == const(True) for t in (x if isinstance(x, frozenset) else [x]))


def escapes(r):
    """the operator or its input list is handed to code that is not analysed"""
    nm = attr(gs.SELF, 'nodemap')
    nd = T.idx(nm, ('each', nm))
    return any(e.kind == 'escape' and isinstance(e.extra, frozenset) and (nd in e.extra or any(t[0] == 'ref' for t in e.extra)) for e in r.events)


def propagation(ctx, G, name, f):
    r = run_marking(G, name, 'Reshape', 2)
    marks = [e for e in r.events if e.kind == 'setattr' and e.how == 'shape_calc' and is_true(e.extra)]
    nodes = [e.atom for e in marks if produced_by(e.atom)]
    if not nodes:
        ctx.undecided('no marked operator found', f.where)
        return
    # where do names of producers of a marked operator's inputs enter a work list?
    pb = attr(gs.SELF, 'producedby')
    ok, verdicts = False, []
    for e in r.events:
        if e.kind not in ('comp', 'mutate', 'setattr', 'recurse') or not isinstance(e.extra, (frozenset, set, tuple, list)):
            continue
        if e.kind == 'setattr' and e.how != 'shape_calc':
            continue
        terms = {t for t in e.extra if t[0] != 'ref'} | displays(r, e.extra) | ({e.atom} if e.kind == 'setattr' else set())
        for t in terms:
            for s in produced_by(t):
                base = input_of(s)
                if base is None or base not in nodes or produced_by(base) != [const('#1')]:
                    continue
                for g in e.guardsets:
                    v = [harmless(x, True) for x in g]
                    verdicts.append((v, g, s, e.kind))
    verdicts = [x[:3] for x in verdicts if x[3] != 'setattr'] or [x[:3] for x in verdicts]
    if not verdicts:
        ctx.fail('propagate:none', 'marking an operator does not lead to the producers of its inputs being marked: values that feed a shape are not computed all the way back', f.where)
        return
    full = [x for x in verdicts if all(y is True for y in x[0])]
    whole = [x for x in full if x[2] in [('each', attr(n, 'input')) for n in nodes]]
    second = [e for e in marks if not produced_by(e.atom) or any(s[0] != 'const' for s in produced_by(e.atom))] or r.of('recurse')
    if whole and not second:
        ctx.fail('propagate:dropped', 'the producers of the inputs of a marked operator are collected but never marked', f.where)
    elif whole:
        ctx.ok('marking propagates to the producers of every input of a marked operator')
    elif full:
        ctx.fail('propagate:partial', f'marking propagates only through {T.show(full[0][2])[:80]}, not through every input of a marked operator', f.where)
    elif any(False in v for v, g, s in verdicts):
        v, g, s = next(x for x in verdicts if False in x[0])
        ctx.fail('propagate:cond', 'marking propagates to the producers of inputs only if ' + '; '.join(gs.showg([x])[:120] for x, y in zip(g, v) if y is False), f.where)
    else:
        v, g, s = verdicts[0]
        ctx.undecided('propagation condition ' + '; '.join(gs.showg([x])[:120] for x, y in zip(g, v) if y is None), f.where)


def displays(r, vs):
    """elements of list displays passed on (lists filled step by step are seen when they are filled)"""
    out = set()
    for a in vs:
        o = r.state.heap.get(a[1]) if a[0] == 'ref' and r.state else None
        if o is not None and o.items and not o.elem:
            for i in o.items:
                out |= set(i)
    return out


def input_of(t):
    """N for each(N.input) / N.input[i] / a slice of it"""
    if t[0] in ('each', 'each_from', 'idx', 'elem'):
        b = t[1]
        while b[0] in ('idx', 'call') and not (b[0] == 'attr'):
            b = b[1] if b[0] == 'idx' else (b[2][0] if b[2] else ('top',))
        if b[0] == 'attr' and b[2] == 'input':
            return b[1]
    return None

"""P17: pattern search finds exactly what the pattern describes; fusing keeps the group's external tensors and its arithmetic."""
import ast
import math
from .. import graphsem as gs, probe, terms as T
from ..absint import V
from ..opsem import operator_classes
from ..probe import P, c, tup

TITLE = 'Fusion matching and boundaries'
TECHNIQUE = ('static evaluation of the pattern tables, case enumeration of the matcher with its callees replaced by every outcome, and guarded effect analysis of the '
             'fusing functions')
EXPLANATION = ('Pattern tables are well formed and symmetric; the attribute and operator conditions are the stated comparisons; the node search accepts exactly the '
               'pairs whose operator and every connection match; matches do not overlap; group inputs and outputs are the tensors crossing the group boundary; '
               'fusing keeps the graph outputs; the folded convolution has the batch-normalised weight and bias.')
FUSION, GRAPH = 'onnx_tool.fusion', 'onnx_tool.graph'
OPS = ['<=', '<', '>=', '>', '==']


class Undecided(Exception):
    pass


def find(p, mod, name, cls=None):
    for f in p.functions():
        if f.name == name and f.module.name == mod and ((f.cls.name if f.cls else None) == cls):
            return f
    return None


# ---------------------------------------------------------------- tables
def literal(node):
    try:
        return ast.literal_eval(node)
    except (ValueError, TypeError, SyntaxError, MemoryError):
        return None


def tables(p):
    """module-level lists of operator descriptions: name -> (value, where)"""
    out = {}
    for m in p.modules.values():
        for st in m.tree.body:
            tg = st.targets[0] if isinstance(st, ast.Assign) and len(st.targets) == 1 else st.target if isinstance(st, ast.AnnAssign) else None
            if not isinstance(tg, ast.Name) or st.value is None:
                continue
            v = literal(st.value)
            if isinstance(v, list) and v and all(isinstance(d, dict) and {'name', 'op', 'inport', 'outport'} <= set(d) for d in v):
                out[f'{m.name}.{tg.id}'] = (v, f'{m.path}:{tg.id}')
    return out


def check_table(ctx, name, descs, where, known_ops, cmps):
    names = [d.get('name') for d in descs]

    def bad(kind, detail, msg):
        ctx.fail(f'table:{name}:{kind}:{detail}', msg, where)
    n0 = len(ctx.findings)
    for n in sorted({n for n in names if names.count(n) > 1}, key=str):
        bad('duplicate', n, f'pattern {name} describes {n!r} more than once')
    ins, outs = set(), set()
    for d in descs:
        for what, store in (('inport', ins), ('outport', outs)):
            for t in d[what]:
                if not (isinstance(t, (list, tuple)) and len(t) == 3 and isinstance(t[0], int) and isinstance(t[2], int)):
                    bad('malformed', d['name'], f'{what} entry {t!r} of {d["name"]!r} in {name} is not [own index, operator, other index]')
                elif t[1] not in names:
                    bad('unknown', f'{d["name"]}-{t[1]}', f'{what} of {d["name"]!r} in {name} refers to {t[1]!r}, which the pattern does not describe')
                else:
                    store.add((d['name'], t[0], t[1], t[2]) if what == 'outport' else (t[1], t[2], d['name'], t[0]))
    for s, o, dst, i in sorted(outs - ins, key=str):
        bad('oneway', f'{s}-{dst}', f'pattern {name}: output {o} of {s!r} goes to input {i} of {dst!r}, which does not list it')
    for s, o, dst, i in sorted(ins - outs, key=str):
        bad('oneway', f'{s}-{dst}', f'pattern {name}: input {i} of {dst!r} comes from output {o} of {s!r}, which does not list it')
    # every operator is reachable from the one the search starts at
    reach, todo = {names[0]}, [names[0]]
    while todo:
        x = todo.pop()
        for s, _, d, _ in ins | outs:
            for a, b in ((s, d), (d, s)):
                if a == x and b not in reach:
                    reach.add(b)
                    todo.append(b)
    for n in names:
        if n not in reach:
            bad('unconnected', n, f'pattern {name}: {n!r} is not connected to the first operator, so the search never assigns it')
    for d in descs:
        ops = d['op'] if isinstance(d['op'], list) else [d['op']]
        for op in ops:
            near = [k for k in known_ops or () if str(op).lower() == k.lower() and op != k]
            if op not in (known_ops or ()) and near:
                bad('op', f'{d["name"]}-{op}', f'pattern {name}: operator type {op!r} of {d["name"]!r} matches nothing; the operator is called {near[0]!r}')
            if op == 'Any' and isinstance(d['op'], list):
                bad('any', d['name'], f'pattern {name}: \'Any\' inside a list of operator types matches nothing')
        for a in d.get('attrs', []):
            if not (isinstance(a, (list, tuple)) and len(a) in (3, 4) and isinstance(a[0], str)):
                bad('attr', d['name'], f'pattern {name}: attribute condition {a!r} of {d["name"]!r} is not [name, operator, (index,) value]')
            elif a[1] not in cmps:
                bad('attrop', f'{d["name"]}-{a[1]}', f'pattern {name}: attribute condition {a!r} uses comparison {a[1]!r}, which is not supported')
    if len(ctx.findings) == n0:
        ctx.ok(f'{name}: {len(descs)} operators, {len(ins)} connections listed at both ends', len(descs) + len(ins))


# ---------------------------------------------------------------- conditions
def cmp_term(op, x, n):
    if op == '==':
        return {('cmp', '==', a, b) for a, b in ((x, n), (n, x))}
    if op in ('>', '>='):
        op, x, n = {'>': '<', '>=': '<='}[op], n, x
    return {('cmp', op, x, n)}


def check_conditions(ctx, p):
    m = p.modules[FUSION]
    X, NUM, IDX = P('x'), P('num'), P('idx')
    ctx.rule('an attribute condition [name, op, number] or [name, op, index, number] is exactly that comparison of the named attribute (entry), '
             'false when the node has no such attribute or entry')
    AE = p.cls(FUSION, 'AttrExpr')
    if AE is None:
        return ctx.undecided('no class AttrExpr', FUSION)
    where = f'{m.path}:AttrExpr'
    src = 'def probe(x, num):\n    return AttrExpr([{raw}])(x)'
    for op in OPS:
        for raw, val in ((f"'alpha', '{op}', num", T.attr(X, 'alpha')), (f"'alpha', '{op}', 1, num", T.idx(T.attr(X, 'alpha'), c(1)))):
            r = gs.run(None, probe.fn(m, src.format(raw=raw)), seconds=20)
            ok = cmp_term(op, val, NUM)
            got = {gs.norm(a) for a in r.value or ()}
            rest = got - ok - {c(False)}
            ctx.seen(f'AttrExpr {op} {"indexed" if "1, num" in raw else "scalar"}')
            if not got or any(a[0] not in ('cmp', 'const') for a in got):
                ctx.undecided(f'attribute condition {raw} not reduced', where)
            elif rest or not got & ok:
                ctx.fail(f'attr:{op}:{"indexed" if "1, num" in raw else "scalar"}',
                         f'the attribute condition [{raw}] evaluates {sorted(T.show(a) for a in got)} instead of the comparison {op}', where)
            else:
                ctx.ok(f'[{raw}] is {sorted(T.show(a) for a in ok)[0]} or False')
    # boundary: entry 2 of a 2-entry attribute is absent, entry 1 is present
    for i, n, want in ((0, 1, True), (1, 2, True), (1, 1, False), (2, 2, False), (0, 0, False)):
        r = gs.run(None, probe.fn(m, f"def probe(x):\n    return AttrExpr(['alpha', '==', {i}, 7])(x)"), over=[(X, 'alpha', [c(7)] * n)], seconds=20)
        got = set(map(str, probe.results(r)))
        if got - {'True', 'False'} or len(got) != 1:
            ctx.undecided(f'attribute condition on entry {i} of {n} not reduced: {sorted(got)[:3]}', where)
        elif got != {str(want)}:
            ctx.fail(f'attr:index:{i}of{n}', f'a condition on entry {i} of an attribute with {n} entries, all of which satisfy it, is {got.pop()}', where)
        else:
            ctx.ok(f'entry {i} of {n}: {want}')
    # the operator condition
    ctx.rule('a node satisfies a description iff its operator type is the one given (or in the list given, or any for \'Any\') and every attribute condition holds')
    NCW = f'{m.path}:NodeCondition'
    if p.cls(FUSION, 'NodeCondition') is None:
        return ctx.undecided('no class NodeCondition', FUSION)
    for op, typ, conds in (("'Conv'", 'Conv', ()), ("'Conv'", 'ConvTranspose', ()), ("'Conv'", 'Co', ()), ("['Relu', 'Add']", 'Add', ()), ("['Relu', 'Add']", 'Mul', ()),
                           ("'Any'", 'Mul', ()), ("'Any'", 'Mul', (False,)), ("'Conv'", 'Conv', (True, False)), ("'Conv'", 'Conv', (False, True)),
                           ("'Conv'", 'Conv', (True, True)), ("'Conv'", 'Mul', (True,)), ("['Relu', 'Add']", 'Relu', (False,))):
        todo = []

        def ae(I, fi, args, kwargs, st, fr, node):
            k = int(next(iter(I.st_attr(args[0], st)))) if hasattr(I, 'st_attr') else 0
            return V(c(k))
        attrs = ', '.join(f"['a{k}', '==', {1 if v else 0}]" for k, v in enumerate(conds))
        src = (f"def probe(node):\n    return NodeCondition({{'name': 'd', 'op': {op}, 'attrs': [{attrs}], 'inport': [], 'outport': []}}).is_node(node)")
        r = gs.run(None, probe.fn(m, src), over=[(P('node'), 'op_type', c(typ))] + [(P('node'), f'a{k}', c(1)) for k in range(len(conds))], seconds=20)
        want = all(conds) and (op == "'Any'" or f"'{typ}'" in op and (op.startswith('[') or op == f"'{typ}'"))
        got = {bool(v) if v in (0, 1) else v for v in map(lambda v: v if isinstance(v, (bool, int)) else str(v)[:60], probe.results(r))}
        label = f'{op} with {len(conds)} conditions {list(conds)} on {typ}'
        # a condition on an attribute the node may lack is also False; those outcomes are not of interest where all hold
        if want and conds and got == {True, False}:
            got = {True}
        if not got or got - {True, False} or len(got) != 1:
            ctx.undecided(f'{label}: {sorted(map(str, got))[:3]}', NCW)
        elif got != {want}:
            ctx.fail(f'is_node:{op}:{typ}:{"".join("TF"[not v] for v in conds)}', f'a description for {label} {"matches" if not want else "does not match"}', NCW)
        else:
            ctx.ok(f'{label}: {want}')


# ---------------------------------------------------------------- search
PROD = dict(a='p0', b='p1', x='p0', c='n0', d='n0')
CONS = dict(a=['n0'], b=['n0'], c=['c0', 'c1'], d=['c1'])
NODES = (('n0', 'ab', 'cd'), ('p0', '', 'xa'), ('p1', '', 'b'), ('c0', 'zc', 'y'), ('c1', 'dc', 'w'))


def search_case(p, inport=(), outport=(), outcome=True, isnode=True, searched=(), found=(), inplace=False, gout='', pair=('d0', 'n0')):
    FP, NC, G = p.cls(FUSION, 'FusionPattern'), p.cls(FUSION, 'NodeCondition'), p.cls(GRAPH, 'Graph')
    tried = []
    D = P('D')

    def rec(I, fi, args, kwargs, st, fr, node):
        names = [a.arg for a in fi.node.args.args]
        arg = kwargs.get('nodepair', args[names.index('nodepair')] if 'nodepair' in names and len(args) > names.index('nodepair') else None)
        if arg is None:
            raise Undecided
        v = [probe.plain(a, st) for a in arg]
        if len(v) != 1 or not probe.decided(v[0]):
            raise Undecided
        tried.append(tuple(v[0]))
        ok = outcome(tuple(v[0])) if callable(outcome) else outcome
        return V(tup(c(True), ('list', (tup(c(v[0][0]), c(v[0][1])),))) if ok else tup(c(False), T.NONE))

    def isn(I, fi, args, kwargs, st, fr, node):
        return V(c(isnode))
    over = [(gs.SELF, 'nodedesc', {c('d0'): D, c('d5'): P('D5')}), (P('graph'), 'nodemap', {c(n): P(n) for n, _, _ in NODES}),
            (gs.SELF, 'found_node_names', [c(x) for x in found]), (gs.SELF, 'append_fusion', c(inplace)), (gs.SELF, 'inplace_fusion', c(inplace)),
            (D, 'inport', [[c(x) for x in t] for t in inport]), (D, 'outport', [[c(x) for x in t] for t in outport]),
            (P('graph'), 'producedby', {c(k): [c(v)] for k, v in PROD.items()}),
            (P('graph'), 'consumedby', {c(k): [c(x) for x in v] for k, v in CONS.items()}),
            (P('graph'), 'output', [c(x) for x in gout])]
    for n, i, o in NODES:
        over += [(P(n), 'input', [c(x) for x in i]), (P(n), 'output', [c(x) for x in o])]
    r = gs.run(FP, 'search_node', over=over, seconds=20,
               args={'nodepair': tup(*map(c, pair)), 'graph': P('graph'), 'searched': [tup(c(a), c(b)) for a, b in searched]},
               summaries={'FusionPattern.search_node': rec, 'NodeCondition.is_node': isn}, typer=lambda t: {gs.SELF: FP, D: NC, P('graph'): G}.get(t))
    vals = probe.results(r)
    res = {(v[0] if isinstance(v, list) and v else 'unknown') for v in vals}
    paths = [v[1] for v in vals if isinstance(v, list) and len(v) == 2]
    left = None
    for k, o in r.state.heap.items():
        if k[0] == 'given' and o.kind == 'list' and o.items is not None and k == r_searched(r):
            left = probe.plain(('ref', k), r.state)
    return res, tried, paths, left


def r_searched(r):
    """the list handed in as the pairs already assigned (the last container made for the call)"""
    given = [k for k in r.state.heap if k[0] == 'given' and k[3] == 'list']
    return max(given, key=lambda k: k[1]) if given else None


SEARCH = [
    # label, arguments, expected result, pairs that have to be tried (in any order; None: do not care)
    ('input connection met', dict(inport=[[0, 'd1', 1]]), True, {('d1', 'p0')}),
    ('input connection refused', dict(inport=[[0, 'd1', 1]], outcome=False), False, {('d1', 'p0')}),
    ('producer on another of its outputs', dict(inport=[[0, 'd1', 0]]), False, set()),
    ('second input', dict(inport=[[1, 'd1', 0]]), True, {('d1', 'p1')}),
    ('second input wrongly numbered', dict(inport=[[1, 'd1', 1]]), False, set()),
    ('any input to any output', dict(inport=[[-1, 'd1', -1]], outcome=False), False, {('d1', 'p0'), ('d1', 'p1')}),
    ('input that does not exist', dict(inport=[[2, 'd1', 0]]), False, set()),
    ('two inputs, both met', dict(inport=[[0, 'd1', 1], [1, 'd2', 0]]), True, {('d1', 'p0'), ('d2', 'p1')}),
    ('two inputs, second refused', dict(inport=[[0, 'd1', 1], [1, 'd2', 0]], outcome=lambda x: x[0] == 'd1'), False, None),
    ('two inputs, first refused', dict(inport=[[0, 'd1', 1], [1, 'd2', 0]], outcome=lambda x: x[0] == 'd2'), False, None),
    ('input met, output refused', dict(inport=[[0, 'd1', 1]], outport=[[1, 'd2', 0]], outcome=lambda x: x[0] == 'd1'), False, None),
    ('input refused, output met', dict(inport=[[0, 'd1', 1]], outport=[[1, 'd2', 0]], outcome=lambda x: x[0] == 'd2'), False, None),
    ('two outputs, second refused', dict(outport=[[0, 'd1', 1], [1, 'd2', 0]], outcome=lambda x: x[0] == 'd1'), False, None),
    ('output connection met', dict(outport=[[1, 'd1', 0]]), True, {('d1', 'c1')}),
    ('output connection refused', dict(outport=[[0, 'd1', 1]], outcome=False), False, {('d1', 'c0'), ('d1', 'c1')}),
    ('second consumer accepted', dict(outport=[[0, 'd1', 1]], outcome=lambda x: x[1] == 'c1'), True, {('d1', 'c0'), ('d1', 'c1')}),
    ('consumer on another of its inputs', dict(outport=[[1, 'd1', 1]]), False, set()),
    ('any output to any input', dict(outport=[[-1, 'd1', -1]], outcome=False), False, {('d1', 'c0'), ('d1', 'c1')}),
    ('output that does not exist', dict(outport=[[2, 'd1', 0]]), False, set()),
    ('in-place, result also used elsewhere', dict(outport=[[0, 'd1', 1]], inplace=True), False, set()),
    ('in-place, result used once', dict(outport=[[1, 'd1', 0]], inplace=True), True, {('d1', 'c1')}),
    ('in-place, result is a graph output', dict(outport=[[1, 'd1', 0]], inplace=True, gout='d'), False, set()),
    ('not in-place, result is a graph output', dict(outport=[[1, 'd1', 0]], gout='d'), True, {('d1', 'c1')}),
    ('operator does not match', dict(isnode=False), False, set()),
    ('operator does not match but connections do', dict(isnode=False, inport=[[0, 'd1', 1]]), False, None),
    ('single operator', dict(), True, set()),
    ('operator already part of another match', dict(found=['n0']), False, set()),
    ('pair already assigned', dict(searched=[('d0', 'n0')]), True, set()),
    ('description already assigned to another node', dict(searched=[('d0', 'n1')]), False, set()),
    ('node already assigned to another description', dict(searched=[('d5', 'n0')]), False, set()),
]


def check_search(ctx, p):
    ctx.rule('the node search accepts a node for a description iff it matches, is not taken, and every listed connection is met by a producer/consumer at exactly '
             'those indices for which the search accepts in turn; in-place fusion only along results with one consumer that are no graph output')
    where = f'{p.modules[FUSION].path}:FusionPattern.search_node'
    FP = p.cls(FUSION, 'FusionPattern')
    if FP is None or FP.find_method('search_node') is None:
        return ctx.undecided('no FusionPattern.search_node', FUSION)
    for label, kw, want, pairs in SEARCH:
        try:
            res, tried, paths, left = search_case(p, **kw)
        except (Undecided, gs.TooLong):
            ctx.undecided(f'search, {label}: not reduced', where)
            continue
        ctx.seen(f'search_node: {label}')
        if res != {True} and res != {False}:
            ctx.undecided(f'search, {label}: {sorted(map(str, res))[:3]}', where)
            continue
        n0 = len(ctx.findings)
        if res != {want}:
            ctx.fail(f'search:{label}', f'the node search {"accepts" if not want else "refuses"} a node in the case: {label}', where)
            continue
        if pairs is not None and set(tried) - pairs:
            ctx.fail(f'search:{label}:tried', f'in the case "{label}" the search tries {sorted(set(tried) - pairs)}, which the connection does not reach', where)
        if pairs is not None and not want and pairs - set(tried):
            ctx.fail(f'search:{label}:skipped', f'in the case "{label}" the search never tries {sorted(pairs - set(tried))}', where)
        if want and paths and kw.get('searched') is None:
            path = paths[0]
            if probe.decided(path) and isinstance(path, list):
                got = sorted(map(tuple, path))
                exp = [('d0', 'n0')] + [t for t in sorted(set(tried)) if not callable(kw.get('outcome')) or kw['outcome'](t)]
                if got != sorted(exp):
                    ctx.fail(f'search:{label}:path', f'in the case "{label}" the reported assignment is {got} instead of {sorted(exp)}', where)
        if not want and not kw.get('searched') and left is not None and probe.decided(left) and left != []:
            ctx.fail(f'search:{label}:left', f'in the case "{label}" the refused node stays in the list of assigned pairs ({left})', where)
        if len(ctx.findings) == n0:
            ctx.ok(f'{label}: {want}')


def check_pattern(ctx, p):
    """search_pattern records a match only when accepted, complete and disjoint from earlier ones"""
    ctx.rule('the pattern search starts at every node matching the first description that no earlier match contains, records exactly the accepted assignments in '
             'description order, and takes their nodes out of later matches')
    FP, NC, G = p.cls(FUSION, 'FusionPattern'), p.cls(FUSION, 'NodeCondition'), p.cls(GRAPH, 'Graph')
    where = f'{p.modules[FUSION].path}:FusionPattern.search_pattern'
    if FP is None or FP.find_method('search_pattern') is None:
        return ctx.undecided('no FusionPattern.search_pattern', FUSION)
    cases = [
        ('first accepted', {'n0': [('d0', 'n0'), ('d1', 'n1')], 'n1': None, 'n2': None}, [['n0', 'n1']], {'n0', 'n2'}),
        ('children listed first', {'n0': [('d1', 'n2'), ('d0', 'n0')], 'n1': None, 'n2': None}, [['n0', 'n2']], {'n0', 'n1'}),
        ('none accepted', {'n0': None, 'n1': None, 'n2': None}, [], {'n0', 'n1', 'n2'}),
        ('later accepted', {'n0': None, 'n1': [('d0', 'n1'), ('d1', 'n2')], 'n2': None}, [['n1', 'n2']], {'n0', 'n1'}),
        ('both accepted', {'n0': [('d0', 'n0'), ('d1', 'n9')], 'n1': [('d0', 'n1'), ('d1', 'n2')], 'n2': None}, [['n0', 'n9'], ['n1', 'n2']], {'n0', 'n1'}),
    ]
    for label, outcome, want, starts in cases:
        tried, seen_lists, taken_at = [], [], []

        def rec(I, fi, args, kwargs, st, fr, node):
            names = [a.arg for a in fi.node.args.args]
            try:
                v = [probe.plain(a, st) for a in (kwargs.get('nodepair') or args[names.index('nodepair')])]
                s = [probe.plain(a, st) for a in (kwargs.get('searched') or args[names.index('searched')])]
            except (ValueError, IndexError):
                raise Undecided
            if len(v) != 1 or not probe.decided(v[0]):
                raise Undecided
            tried.append(tuple(v[0]))
            seen_lists.append(s[0] if len(s) == 1 else None)
            o = outcome.get(v[0][1])
            taken = st.over.get((gs.SELF, 'found_node_names'))
            if taken and len(taken) == 1:
                taken_at.append((v[0][1], probe.plain(next(iter(taken)), st)))
            if o is not None:
                for a in kwargs.get('searched') or args[names.index('searched')]:
                    if a[0] == 'ref' and a[1] in st.heap and st.heap[a[1]].items is not None:
                        st.heap[a[1]] = st.heap[a[1]].copy()
                        st.heap[a[1]].items = list(st.heap[a[1]].items) + [V(tup(c(x), c(y))) for x, y in o]
            return V(tup(c(False), T.NONE) if o is None else tup(c(True), ('list', tuple(tup(c(a), c(b)) for a, b in o))))

        def isn(I, fi, args, kwargs, st, fr, node):
            return V(c(True))
        over = [(gs.SELF, 'nodedesc', {c('d0'): P('D0'), c('d1'): P('D1')}), (gs.SELF, 'first_key', c('d0')), (gs.SELF, 'found_node_names', [c('n0')]),
                (P('graph'), 'nodemap', {c(n): P(n) for n in ('n0', 'n1', 'n2')})]
        try:
            r = gs.run(FP, 'search_pattern', args={'graph': P('graph')}, over=over, seconds=30,
                       summaries={'FusionPattern.search_node': rec, 'NodeCondition.is_node': isn},
                       typer=lambda t: {gs.SELF: FP, P('D0'): NC, P('D1'): NC, P('graph'): G}.get(t))
        except (Undecided, gs.TooLong):
            ctx.undecided(f'pattern search, {label}: not reduced', where)
            continue
        vals = probe.results(r)
        ctx.seen(f'search_pattern: {label}')
        if len(vals) != 1 or not probe.decided(vals[0]) or not isinstance(vals[0], list):
            ctx.undecided(f'pattern search, {label}: result not reduced', where)
            continue
        n0 = len(ctx.findings)
        if vals[0] != want:
            ctx.fail(f'pattern:{label}', f'in the case "{label}" the pattern search reports {vals[0]} instead of {want}', where)
        if {t[1] for t in tried} != starts or any(t[0] != 'd0' for t in tried):
            ctx.fail(f'pattern:{label}:starts', f'in the case "{label}" the search starts at {sorted(set(tried))} instead of {sorted(starts)}', where)
        order = list(outcome)
        for start, taken in taken_at:
            need = {n for s in order[:order.index(start)] if outcome[s] and s in {t[1] for t in tried} for _, n in outcome[s]}
            if isinstance(taken, list) and probe.decided(taken) and need - set(map(str, taken)):
                ctx.fail(f'pattern:{label}:taken', f'in the case "{label}" {sorted(need - set(map(str, taken)))} of an earlier match can still become part of a later one', where)
        if any(s for s in seen_lists if isinstance(s, list)):
            ctx.fail(f'pattern:{label}:fresh', f'in the case "{label}" a search starts with pairs assigned by an earlier one', where)
        if len(ctx.findings) == n0:
            ctx.ok(f'{label}: {want}')
    # a start that does not match the first description is not searched
    tried = []

    def rec(I, fi, args, kwargs, st, fr, node):
        tried.append(1)
        return V(tup(c(False), T.NONE))
    over = [(gs.SELF, 'nodedesc', {c('d0'): P('D0')}), (gs.SELF, 'first_key', c('d0')), (P('graph'), 'nodemap', {c(n): P(n) for n in ('n0', 'n1')})]
    try:
        r = gs.run(FP, 'search_pattern', args={'graph': P('graph')}, over=over, seconds=30,
                   summaries={'FusionPattern.search_node': rec, 'NodeCondition.is_node': lambda *a: V(c(False))}, typer=lambda t: {gs.SELF: FP, P('D0'): NC, P('graph'): G}.get(t))
        vals = probe.results(r)
        if vals == [[]]:
            ctx.ok('no node matches the first description: no match')
        elif len(vals) == 1 and probe.decided(vals[0]):
            ctx.fail('pattern:no start', f'with no node accepted the pattern search reports {vals[0]}', where)
        else:
            ctx.undecided('pattern search without a start: result not reduced', where)
    except (Undecided, gs.TooLong):
        ctx.undecided('pattern search without a start: not reduced', where)


# ---------------------------------------------------------------- descriptions from nodes
def check_descs(ctx, p):
    ctx.rule('descriptions made from a group of nodes list every internal connection at both ends with its output and input index, and nothing else')
    m = p.modules[FUSION]
    fi = find(p, FUSION, 'create_descs_from_nodenames')
    if fi is None:
        return ctx.undecided('no create_descs_from_nodenames', FUSION)
    where = fi.where
    nodes = (('n0', 'a', 'xb'), ('n1', 'wbb', 'c'), ('n2', 'cx', 'd'))
    over = [(P('graph'), 'nodemap', {c(n): P(n) for n, _, _ in nodes})]
    for n, i, o in nodes:
        over += [(P(n), 'name', c(n)), (P(n), 'op_type', c('Op' + n)), (P(n), 'input', [c(x) for x in i]), (P(n), 'output', [c(x) for x in o])]
    for group in (['n0', 'n1'], ['n0', 'n1', 'n2'], ['n0', 'n2'], ['n1']):
        want = {}
        for n, i, o in nodes:
            if n in group:
                want[n] = {'op': 'Op' + n, 'inport': [], 'outport': []}
        for d, ins, _ in nodes:
            for s, _, outs in nodes:
                if d in want and s in want:
                    for j, t in enumerate(ins):
                        if t in outs:
                            want[d]['inport'].append((j, s, outs.index(t)))
                            want[s]['outport'].append((outs.index(t), d, j))
        ctx.seen(f'create_descs_from_nodenames {group}')
        try:
            r = gs.run(None, fi, args={'graph': P('graph'), 'nodenames': [c(x) for x in group]}, over=over, seconds=30)
        except gs.TooLong:
            ctx.undecided(f'descriptions of {group} not reduced', where)
            continue
        vals = probe.results(r)
        if len(vals) != 1 or not probe.decided(vals[0]) or not isinstance(vals[0], list):
            ctx.undecided(f'descriptions of {group} not reduced', where)
            continue
        got = {d.get('name'): {'op': d.get('op'), 'inport': sorted(map(tuple, d.get('inport', []))), 'outport': sorted(map(tuple, d.get('outport', [])))}
               for d in vals[0] if isinstance(d, dict)}
        want = {k: {'op': v['op'], 'inport': sorted(v['inport']), 'outport': sorted(v['outport'])} for k, v in want.items()}
        if got != want:
            diff = [k for k in set(got) | set(want) if got.get(k) != want.get(k)]
            ctx.fail(f'descs:{"".join(group)}', f'the descriptions made from {group} give {({k: got.get(k) for k in sorted(diff)})} instead of {({k: want.get(k) for k in sorted(diff)})}', where)
        else:
            ctx.ok(f'{group}: {sum(len(v["inport"]) for v in want.values())} internal connections')
    fi = find(p, FUSION, 'createSerialOpChain')
    if fi is None:
        return
    for ops in (['Conv'], ['Conv', 'Relu'], ['Conv', 'Relu', 'Add']):
        r = gs.run(None, fi, args={'oplist': [c(x) for x in ops]}, seconds=20)
        vals = probe.results(r)
        if len(vals) != 1 or not probe.decided(vals[0]) or not all(isinstance(d, dict) for d in vals[0]):
            ctx.undecided(f'serial chain of {ops} not reduced', fi.where)
            continue
        if [d.get('op') for d in vals[0]] != ops:
            ctx.fail(f'serial:{len(ops)}', f'a serial pattern of {ops} describes {[d.get("op") for d in vals[0]]}', fi.where)
            continue
        nm = [d['name'] for d in vals[0]]
        conn = {(d['name'], t[1]) for d in vals[0] for t in d['outport']}
        if conn != set(zip(nm, nm[1:])):
            ctx.fail(f'serial:{len(ops)}:links', f'a serial pattern of {ops} links {sorted(conn)} instead of each operator to the next', fi.where)
            continue
        check_table(ctx, f'serial{len(ops)}', vals[0], fi.where, None, OPS)


# ---------------------------------------------------------------- group boundary
def check_boundary(ctx, p):
    ctx.rule('the inputs of a group are the tensors its nodes read and none of them makes; its outputs are those it makes that a node outside reads, the graph outputs '
             'or nobody reads; each once')
    G = p.cls(GRAPH, 'Graph')
    fi = G.find_method('get_iotensors') if G else None
    if fi is None:
        return ctx.undecided('no Graph.get_iotensors', GRAPH)
    N0, N1 = P('N0'), P('N1')
    cases = []
    for cons in (['n1'], ['n1', 'n9'], ['n9'], ['n9', 'n1'], None):
        for out in ([], ['t'], ['z'], ['t', 'z']):
            cases.append((cons, out, 'at'))
    for cons, out, _ in cases:
        over = [(gs.SELF, 'nodemap', {c('n0'): N0, c('n1'): N1, c('n9'): P('N9')}), (gs.SELF, 'producedby', {c('t'): [c('n0')], c('z'): [c('n1')], c('q'): [c('n9')]}),
                (gs.SELF, 'consumedby', {c('a'): [c('n0')], c('q'): [c('n1')], **({c('t'): [c(x) for x in cons]} if cons is not None else {})}),
                (gs.SELF, 'output', [c(x) for x in out]), (gs.SELF, 'initials', []), (N0, 'input', [c('a'), c('a')]), (N0, 'output', [c('t')]),
                (N1, 'input', [c('t'), c('q')]), (N1, 'output', [c('z')]), (P('N9'), 'input', []), (P('N9'), 'output', [c('q')])]
        label = f'read by {cons}, graph outputs {out}'
        try:
            r = gs.run(G, 'get_iotensors', over=over, args={'nodenames': [c('n0'), c('n1')], 'remove_initials': c(False)}, seconds=30)
        except gs.TooLong:
            ctx.undecided(f'group boundary, {label}: not reduced', fi.where)
            continue
        vals = probe.results(r)
        ctx.seen(f'get_iotensors: {label}')
        if len(vals) != 1 or not probe.decided(vals[0]) or not isinstance(vals[0], list) or len(vals[0]) != 2:
            ctx.undecided(f'group boundary, {label}: not reduced', fi.where)
            continue
        ins, outs = vals[0]
        wo = ({'t'} if not cons or 'n9' in cons or 't' in out else set()) | {'z'}
        n0 = len(ctx.findings)
        for what, got, want in (('inputs', ins, {'a', 'q'}), ('outputs', outs, wo)):
            if set(got) != want or len(got) != len(set(got)):
                ctx.fail(f'boundary:{what}:{cons}:{out}', f'two nodes sharing tensor t ({label}; a and q come from outside, z is their result) have group {what} {got} instead of {sorted(want)}', fi.where)
        if len(ctx.findings) == n0:
            ctx.ok(f'{label}: outputs {sorted(wo)}')


# ---------------------------------------------------------------- fusing keeps the graph outputs
def check_outputs_kept(ctx, p):
    ctx.rule('an operation that removes nodes and puts a replacement for their results in place ends with the graph outputs it started with')
    G = p.cls(GRAPH, 'Graph')
    rm = G.find_method('remove_node') if G else None
    if rm is None:
        return ctx.undecided('no Graph.remove_node', GRAPH)
    n = 0
    for f in p.functions():
        if f.module.name not in (GRAPH, FUSION) or f is rm:
            continue
        names = {x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute)}
        if 'remove_node' not in names or not any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Attribute) and
                                                 x.value.attr == 'producedby' for x in ast.walk(f.node)):
            continue
        graphs = [gs.SELF] if f.cls is G else [P(a.arg) for a in f.node.args.args if a.annotation is not None and 'Graph' in ast.unparse(a.annotation) or a.arg in ('graph', 'g')]
        try:
            r = gs.run(f.cls if f.cls is G else None, f.name if f.cls is G else f, opaque=lambda g: g is rm or g.name in ('search_pattern', 'search_node', 'get_iotensors'),
                       typer=lambda t: G if t in graphs else None, seconds=60)
        except gs.TooLong:
            ctx.undecided('not reduced within the time budget', f.where)
            continue
        for g in graphs:
            adds = [e for e in r.of('mutate') if e.how in ('setitem', 'append') and gs.norm(e.atom)[:2] in (('attr', T.attr(g, 'producedby')[1]),) and gs.norm(e.atom)[2] == 'producedby']
            removes = [i for i, e in enumerate(r.events) if e.kind == 'opaquecall' and e.how is rm]
            if not adds or not removes:
                continue
            n += 1
            ctx.seen(f.where)
            OUT = T.attr(g, 'output')
            ok = False
            for e in r.of('setattr'):
                if e.how == 'output' and gs.norm(e.atom) == g:
                    vals = {gs.norm(a) for a in e.extra} | {gs.norm(a) for a in e.content}
                    if any(v == ('each', OUT) or v == OUT for v in vals):
                        ok = True
            removed_outputs = {x for e in r.events if e.kind == 'opaquecall' and e.how is rm for x in (e.extra or ())}
            if ok:
                ctx.ok(f'{f.qualname}: graph outputs restored after the removals')
            else:
                ctx.fail(f'outputs:{f.qualname}', f'{f.qualname} removes nodes and re-creates the producers of their results, but the graph outputs the removals drop are '
                         f'not put back', f.where)
    ctx.count('fusing functions', n)


# ---------------------------------------------------------------- conv + batch normalisation
class Leaf(Exception):
    pass


def evaluate(t, leaf):
    v = leaf(t)
    if v is not None:
        return v
    if t[0] == 'const' and isinstance(t[2], (int, float)):
        return float(t[2])
    if t[0] == 'poly':
        s = 0.0
        for mono, k in t[1]:
            x = float(k)
            for a, e in mono:
                x *= evaluate(a, leaf) ** e
            s += x
        return s
    if t[0] == 'call' and t[1] == 'sqrt' and len(t[2]) == 1:
        return math.sqrt(evaluate(t[2][0], leaf))
    if t[0] == 'call' and t[1] in ('copy', 'float', 'float32') and t[2]:
        return evaluate(t[2][0], leaf)
    if t[0] == 'call' and t[1] in ('pow', 'power') and len(t[2]) == 2:
        return evaluate(t[2][0], leaf) ** evaluate(t[2][1], leaf)
    raise Leaf(T.show(t)[:80])


def check_convbn(ctx, p):
    G = p.cls(GRAPH, 'Graph')
    fi = find(p, FUSION, 'ConvBNFusion')
    if fi is None:
        return ctx.undecided('no ConvBNFusion', FUSION)
    ctx.rule('folding a batch normalisation into a convolution stores weight*scale/sqrt(var+epsilon) and (bias-mean)*scale/sqrt(var+epsilon)+beta per output channel, '
             'only when nothing else uses the convolution result or its parameters')
    g = P(fi.node.args.args[0].arg)
    MATCH = P('matches')

    def sp(I, f, args, kwargs, st, fr, node):
        return V(MATCH)
    try:
        r = gs.run(None, fi, seconds=120, summaries={'FusionPattern.search_pattern': sp}, opaque=lambda f: f.name == 'remove_node', typer=lambda t: G if t == g else None)
    except gs.TooLong:
        return ctx.undecided('ConvBNFusion not reduced within the time budget', fi.where)
    NM, TM = T.attr(g, 'nodemap'), T.attr(g, 'tensormap')
    node = {k: T.idx(NM, T.idx(('each', MATCH), c(k))) for k in (0, 1)}
    role = {}
    for k, i, nm in ((0, 1, 'W'), (0, 2, 'b'), (1, 1, 'gamma'), (1, 2, 'beta'), (1, 3, 'mean'), (1, 4, 'var')):
        role[T.attr(T.idx(TM, T.idx(T.attr(node[k], 'input'), c(i))), 'numpy')] = nm
    EPS = T.attr(node[1], 'epsilon')
    samples = [dict(W=1.7, b=0.4, gamma=1.3, beta=-0.6, mean=0.9, var=2.1, eps=0.01, zero=0.0), dict(W=-0.8, b=2.5, gamma=-0.7, beta=1.1, mean=1.6, var=0.5, eps=0.3, zero=0.0)]
    found = {'W': 0, 'b': 0}
    guards = []
    for e in r.events:
        if e.kind != 'mutate' or e.how != 'setitem' or not isinstance(e.extra, frozenset):
            continue
        base = gs.norm(e.atom)
        what = role.get(base) or ('zeros' if base[0] == 'call' and base[1] == 'zeros' else None)
        if what not in ('W', 'b', 'zeros'):
            continue
        keys = set()
        for k in e.keys:
            k = gs.norm(k)
            if k[0] == 'ref':
                o = r.state.heap.get(k[1])
                k = ('tuple', tuple(next(iter(i)) if len(i) == 1 else T.TOP for i in o.items)) if o is not None and o.items else T.TOP
            keys.add(k)
        firsts = {gs.norm(k[1][0]) if k[0] == 'tuple' and k[1] else gs.norm(k) for k in keys}
        for x in e.extra:
            if any(s[:2] == ('call', 'stored') and len(s[2]) > 2 for s in T.subterms(x)) or x[0] == 'top':
                continue   # a later round of the same loop body
            idxs = {}

            def leaf(t, s=None):
                t = gs.norm(t)
                if t == EPS:
                    return s['eps']
                if t[0] == 'idx':
                    b = t[1]
                    if b in role:
                        i = t[2][1][0] if t[2][0] == 'tuple' and t[2][1] else t[2]
                        idxs.setdefault(role[b], set()).add(i)
                        return s[role[b]]
                    if b[0] == 'call' and b[1] == 'zeros':
                        idxs.setdefault('b', set()).add(t[2])
                        return 0.0
                return None
            for bias in ((True, False) if what != 'W' else (True,)):
                pass
            try:
                got = [evaluate(x, lambda t, s=s: leaf(t, s)) for s in samples]
            except (Leaf, ZeroDivisionError, ValueError, OverflowError):
                continue
            kind = 'W' if what == 'W' else 'b'
            hasb = any(gs.norm(s) in role and role[gs.norm(s)] == 'b' for s in T.subterms(x))
            want = [s['W'] * s['gamma'] / math.sqrt(s['var'] + s['eps']) if kind == 'W' else
                    ((s['b'] if hasb else 0.0) - s['mean']) * s['gamma'] / math.sqrt(s['var'] + s['eps']) + s['beta'] for s in samples]
            found[kind] += 1
            guards += [gs.normg(gg) for gg in e.guardsets]
            if any(abs(a - b) > 1e-9 * max(1, abs(b)) for a, b in zip(got, want)):
                ctx.fail(f'convbn:{kind}', f'the folded {"weight" if kind == "W" else "bias"} is {T.show(gs.norm(x))[:220]}', fi.where)
            elif T.TOP not in firsts and any(i != f for v in idxs.values() for i in v for f in firsts if i[0] in ('loopidx', 'const') and f[0] == 'loopidx'):
                ctx.fail(f'convbn:{kind}:channel', f'the folded {"weight" if kind == "W" else "bias"} of a channel is computed from the parameters of another', fi.where)
            else:
                ctx.ok(f'folded {kind}: {T.show(gs.norm(x))[:140]}')
    for k, v in found.items():
        if not v:
            ctx.undecided(f'folded {k}: not written element by element', fi.where)
    # the removal happens only when nothing else reads the convolution result
    CONVOUT = T.idx(T.attr(node[0], 'output'), c(0))
    for e in r.of('opaquecall'):
        if e.how.name != 'remove_node':
            continue
        for gg in e.guardsets:
            flat = {s for t in gs.normg(gg) if t[0] == 'if' for x in t[1] for s in T.subterms(x)}
            users = any(s == T.idx(T.attr(g, 'consumedby'), CONVOUT) or s == ('call', 'get', (T.attr(g, 'consumedby'), CONVOUT), ()) for s in flat) or \
                any(s[0] == 'call' and s[1] in ('get',) and T.attr(g, 'consumedby') in s[2] for s in flat if s[0] == 'call')
            outs = T.attr(g, 'output') in flat
            params = any(s[0] == 'call' and s[1] in ('any', 'all', 'len', 'max') for s in flat if s[0] == 'call' and any(x == T.attr(node[0], 'input') for x in T.subterms(s)))
            for okk, nm, msg in ((users, 'users', 'whether other nodes read the convolution result'), (outs, 'output', 'whether the convolution result is a graph output')):
                if okk:
                    ctx.ok(f'fold guarded by {nm}')
                else:
                    ctx.fail(f'convbn:guard:{nm}', f'ConvBNFusion removes the batch normalisation without testing {msg}', fi.where)


def check(ctx):
    p = gs.program()
    tabs = tables(p)
    ops = set(operator_classes(p))
    ctx.rule('each pattern table lists every connection at both ends, between operators it describes, all connected to the first, with supported attribute comparisons')
    for name, (v, where) in sorted(tabs.items()):
        ctx.seen(name)
        check_table(ctx, name.split('.')[-1], v, where, ops, OPS)
    if not tabs:
        ctx.undecided('no pattern tables found', FUSION)
    for fn in (check_conditions, check_search, check_pattern, check_descs, check_boundary, check_outputs_kept, check_convbn):
        fn(ctx, p)
    ctx.assume('the case analysis of the search fixes two inputs, two outputs and two consumers; the code branches on membership and index equality only')

"""P28: ordering the operators of a graph puts every producer before its consumers and loses nothing."""
import time

from .. import graphsem as gs
from ..absint import Endless
from ..probe import P, c, fn, results

TITLE = 'Topological order puts producers before consumers'
TECHNIQUE = ('abstract interpretation of the ordering functions over an enumeration of acyclic graphs (every graph of up to four operators in every stored order, plus larger '
             'patterns), operators opaque; the derived sequence of node-map entries is compared with the partial order of the graph')
EXPLANATION = ('The node map graph_reorder_nodes leaves behind, and the sequence topsort_nodes returns for a part of a graph, are derived from the source for every acyclic graph of '
               'up to four operators in every stored order and for patterns with several results, shared and repeated operands, constants, omitted operands and unused results. '
               'Every operator must appear exactly once, under its own name, after all producers of its operands; the links rebuilt afterwards must be those of the same graph.')
LEVEL = 'bounded'
GRAPH = 'onnx_tool.graph'

# (label, operators in stored order [(inputs, outputs)], graph inputs)
PATTERNS = [
    ('a reversed chain', [(['d'], ['o']), (['c'], ['d']), (['b'], ['c']), (['a', 'w'], ['b']), (['x'], ['a'])], ['x']),
    ('a chain with crossed order', [(['b'], ['c']), (['x'], ['a']), (['d'], ['o']), (['a'], ['b']), (['c'], ['d'])], ['x']),
    ('a reversed diamond', [(['c', 'd'], ['o']), (['a'], ['d']), (['a'], ['c']), (['x'], ['a'])], ['x']),
    ('a result used twice by one operator', [(['a', 'a'], ['o']), (['x'], ['a'])], ['x']),
    ('a result used twice by one operator and once by another', [(['a', 'b', 'a'], ['o']), (['a'], ['b']), (['x'], ['a'])], ['x']),
    ('two results of one operator used by one', [(['a', 'b'], ['o']), (['x'], ['a', 'b'])], ['x']),
    ('two results of one operator used apart', [(['c', 'b'], ['o']), (['a'], ['c']), (['x'], ['a', 'b'])], ['x']),
    ('an unused result', [(['a'], ['o', 'z']), (['x'], ['a', 'y'])], ['x']),
    ('an operator without operands', [(['a', 'k'], ['o']), (['x'], ['a']), ([], ['k'])], ['x']),
    ('only constant operands', [(['a', 'k'], ['o']), (['w', 'w2'], ['k']), (['x'], ['a'])], ['x']),
    ('an omitted operand', [(['a', '', 'b'], ['o']), (['x', ''], ['a']), (['x', '', 'a'], ['b'])], ['x']),
    ('an omitted result', [(['a'], ['o']), (['x'], ['', 'a'])], ['x']),
    ('omitted operands and results of one operator', [(['a'], ['o']), (['x', 'w', '', 'h'], ['', 'a'])], ['x']),
    ('an omitted result next to omitted operands elsewhere', [(['x', '', 'w'], ['a']), (['a'], ['', 'b']), (['b', ''], ['o'])], ['x']),
    ('two omitted results', [(['b', ''], ['', 'o']), (['a', '', 'w'], ['', 'b']), (['x'], ['a'])], ['x']),
    ('operators that share nothing', [(['b'], ['p']), (['y'], ['b']), (['a'], ['o']), (['x'], ['a'])], ['x', 'y']),
    ('a skip over several operators', [(['a', 'c'], ['o']), (['b'], ['c']), (['a'], ['b']), (['x'], ['a'])], ['x']),
    ('a graph input that is also used late', [(['b', 'x'], ['o']), (['a', 'x'], ['b']), (['x'], ['a'])], ['x']),
    ('many users of one result', [(['a'], ['o1']), (['a'], ['o2']), (['a'], ['o3']), (['o1', 'o2', 'o3'], ['o']), (['x'], ['a'])], ['x']),
    ('many producers of one operator', [(['a', 'b', 'd', 'e'], ['o']), (['x'], ['a']), (['x'], ['b']), (['b'], ['d']), (['d'], ['e'])], ['x']),
    ('two branches of different length', [(['e', 'a'], ['o']), (['d'], ['e']), (['c'], ['d']), (['b'], ['c']), (['x'], ['a']), (['x'], ['b'])], ['x']),
]


def dags(n):
    """every acyclic graph of n operators; the label of an operator is its position in the stored order"""
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    for bits in range(1 << len(pairs)):
        e = {pr for k, pr in enumerate(pairs) if bits >> k & 1}
        if any((j, i) in e for i, j in e):
            continue
        left, prog = set(range(n)), True
        while left and prog:
            prog = {i for i in left if not any((j, i) in e for j in left)}
            left -= prog
        if left:
            continue
        yield e


def nodes_of(n, e):
    return [(['x'] * (not any(j == i for _, j in e)) + [f't{k}' for k, j in sorted(e) if j == i], [f't{i}']) for i in range(n)]


def names_of(nodes):
    out = []
    for i, o in nodes:
        for x in i + o:
            if x and x not in out:
                out.append(x)
    return out


REORDER = '''
def main(g):
    g.graph_reorder_nodes()
    return [list(g.nodemap.keys()), list(g.nodemap.values()), g.producedby, g.consumedby, g.dynamics]
'''


def derive(p, G, nodes, ins, src):
    S = gs.SELF
    N = {f'n{i}': P(f'node:n{i}') for i in range(len(nodes))}
    names = names_of(nodes)
    made = {x for _, o in nodes for x in o}
    TN = {x: P('tensor:' + x) for x in names}
    over = [(S, 'nodemap', {c(k): v for k, v in N.items()}), (S, 'input', [c(x) for x in ins]), (S, 'output', [c('o')]), (S, 'dynamics', []),
            (S, 'initials', [c(x) for x in names if x not in made and x not in ins]), (S, 'tensormap', {c(k): v for k, v in TN.items()}), (S, 'consumedby', {}), (S, 'producedby', {})]
    for k, (i, o) in zip(N, nodes):
        over += [(N[k], 'input', [c(x) for x in i]), (N[k], 'output', [c(x) for x in o]), (N[k], 'name', c(k))]
    return results(gs.run(None, fn(G.module, src.strip()), args={'g': S}, over=over, seconds=30, unroll=64, strict_keys=True, exact_try=True, set_items=True, peel_while=True, track_guards=False, typer=lambda t: G if t == S else None))


def flat(v):
    return [x for y in v for x in flat(y)] if isinstance(v, list) else [x for k, y in v.items() for x in [k] + flat(y)] if isinstance(v, dict) else [v]


def order_faults(nodes, seq, part=None):
    """what is wrong with a sequence of operator names"""
    members = [f'n{i}' for i in range(len(nodes))] if part is None else part
    at = {}
    for i, x in enumerate(seq):
        if x in at:
            return f'{x} appears twice in {seq}'
        if x not in members:
            return f'{x!r} is no operator of the graph'
        at[x] = i
    for x in members:
        if x not in at:
            return f'{x} {nodes[int(x[1:])]} is lost: {seq}'
    made = {t: f'n{i}' for i, (_, o) in enumerate(nodes) for t in o if t}
    for x in members:
        for t in nodes[int(x[1:])][0]:
            q = made.get(t)
            if q in at and q != x and at[q] > at[x]:
                return f'{x} comes before {q}, which produces its operand {t}: {seq}'
    return None


def relation_faults(nodes, prod, cons, dyn):
    wp, wc = {}, {}
    for i, (ii, oo) in enumerate(nodes):
        for t in oo:
            if t:
                wp.setdefault(t, set()).add(f'n{i}')
        for t in ii:
            if t:
                wc.setdefault(t, set()).add(f'n{i}')
    for what, got, want in (('producers', prod, wp), ('consumers', cons, wc)):
        for t, w in want.items():
            g = got.get(t)
            if not isinstance(g, list) or set(g) != w:
                return f'the {what} of {t} are {g}, not {sorted(w)}'
        for t in got:
            if t and t not in want:
                return f'{t} has {what} {got[t]}, there are none'
    if {t for t in dyn if t} != set(wp):
        return f'the computed tensors are {dyn}, not {sorted(wp)}'
    return None


def judge(ctx, p, G, label, nodes, ins, where, say):
    try:
        res = derive(p, G, nodes, ins, REORDER)
    except Endless:
        return ctx.fail('order', f'{label}: the ordering does not end', where)
    except gs.TooLong:
        return ctx.undecided(f'{label}: too long', where)
    if len(res) != 1 or not isinstance(res[0], list) or len(res[0]) != 5 or not isinstance(res[0][0], list) or not isinstance(res[0][1], list):
        return ctx.undecided(f'{label}: {str(res)[:120]}', where)
    keys, values, prod, cons, dyn = res[0]
    vals = [v[1].split(':')[1] if isinstance(v, tuple) and v[0] == 'param' and v[1].startswith('node:') else None for v in values]
    if not all(isinstance(k, str) for k in keys) or None in vals:
        return ctx.undecided(f'{label}: {str(keys)[:100]}', where)
    bad = order_faults(nodes, keys)
    if bad:
        return ctx.fail('order', f'{label}: {bad}', where)
    if keys != vals:
        return ctx.fail('names', f'{label}: the node map has {list(zip(keys, vals))}', where)
    if isinstance(prod, dict) and isinstance(cons, dict) and isinstance(dyn, list) and all(isinstance(x, str) for x in flat([prod, cons, dyn])):
        bad = relation_faults(nodes, prod, cons, dyn)
        if bad:
            return ctx.fail('links', f'{label}: after reordering {bad}', where)
    else:
        ctx.undecided(f'{label}: links not decided', where)
    ctx.ok(label if say else None)


def check(ctx):
    p = gs.program()
    G = p.cls(GRAPH, 'Graph')
    fi = G.find_method('graph_reorder_nodes') if G else None
    if fi is None:
        return ctx.undecided('no graph_reorder_nodes', GRAPH)
    ctx.seen(fi.where)
    ctx.rule('the node map after reordering holds every operator exactly once, under its own name, after every operator producing one of its operands; an omitted operand is no tensor; '
             'producers, consumers and computed tensors afterwards are those of the graph')
    for label, nodes, ins in PATTERNS:
        judge(ctx, p, G, label, nodes, ins, fi.where, True)
        # and in the opposite stored order
        judge(ctx, p, G, label + ' (stored backwards)', nodes[::-1], ins, fi.where, False)
    t0 = time.monotonic()
    n_max, done = 5 if ctx.tier == 'thorough' else 4, 0
    for n in range(1, n_max + 1):
        for e in dags(n):
            if time.monotonic() - t0 > 200:
                break
            judge(ctx, p, G, f'{n} operators, edges {sorted(e)}', nodes_of(n, e), ['x'], fi.where, False)
            done += 1
    ctx.count('acyclic graphs of up to four operators', done)
    parts(ctx, p, G)
    ctx.assume('every tensor has at most one producer')


def parts(ctx, p, G):
    fi = G.find_method('topsort_nodes')
    if fi is None or [a.arg for a in fi.node.args.args] != ['self', 'node_names', 'input_names']:
        return ctx.undecided('no ordering of a part of a graph', GRAPH)
    ctx.seen(fi.where)
    ctx.rule('ordering a part of a graph yields the operators of that part, each once, producers first')
    for label, nodes, ins in PATTERNS:
        for drop in range(len(nodes)):
            part = [f'n{i}' for i in range(len(nodes)) if i != drop]
            if not part:
                continue
            src = f'def main(g):\n    return list(g.topsort_nodes({part!r}, {ins!r}))'
            try:
                res = derive(p, G, nodes, ins, src)
            except gs.TooLong:
                ctx.undecided(f'{label} without n{drop}: too long', fi.where)
                continue
            if len(res) != 1 or not isinstance(res[0], list) or not all(isinstance(x, str) for x in res[0]):
                ctx.undecided(f'{label} without n{drop}: {str(res)[:100]}', fi.where)
                continue
            bad = order_faults(nodes, res[0], part)
            if bad:
                ctx.fail('part', f'{label} without n{drop}: {bad}', fi.where)
            else:
                ctx.ok(None)

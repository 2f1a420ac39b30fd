"""P18: the activation memory plan never lets two tensors alive at the same time share memory."""
import itertools
import time

from .. import graphsem as gs, probe, terms as T
from ..absint import V
from ..probe import P, c, plain

TITLE = 'Live activation tensors never share planned memory'
TECHNIQUE = ('abstract interpretation of the planner with tensor sizes symbolic in a common unit, over an enumeration of graph shapes and size ratios; the derived offsets '
             'and sizes are compared with the live ranges computed from the same graph')
EXPLANATION = ('The plan (offset and size of every tensor, total size) is derived from the source for small graphs covering every lifetime pattern: tensors used once, '
               'several times, twice by one operator, never, outputs that are also used inside, late uses of early results. Tensors whose live ranges meet must lie apart, '
               'every block must hold its tensor, and the total must cover all blocks.')
LEVEL = 'bounded'
GRAPH, TENSOR = 'onnx_tool.graph', 'onnx_tool.tensor'
U = P('unit')

# (label, nodes in execution order [(inputs, outputs)], graph inputs, graph outputs)
SHAPES = [
    ('a chain', [(['x', 'w'], ['a']), (['a'], ['b']), (['b'], ['c']), (['c'], ['d']), (['d'], ['o'])], ['x'], ['o']),
    ('a diamond', [(['x'], ['a']), (['a'], ['b']), (['a'], ['c']), (['b', 'c'], ['d']), (['d'], ['o'])], ['x'], ['o']),
    ('a skip connection', [(['x'], ['a']), (['a'], ['b']), (['b'], ['c']), (['c', 'w'], ['d']), (['a', 'd'], ['o'])], ['x'], ['o']),
    ('a tensor used twice by one operator', [(['x'], ['a']), (['a', 'a'], ['b']), (['b'], ['c']), (['a', 'c'], ['d']), (['d'], ['o'])], ['x'], ['o']),
    ('a tensor used twice by its last operator', [(['x'], ['a']), (['a'], ['b']), (['a', 'a'], ['c']), (['b', 'c'], ['d']), (['d'], ['o'])], ['x'], ['o']),
    ('an output used inside', [(['x'], ['a']), (['a'], ['p']), (['p'], ['b']), (['b'], ['c']), (['c'], ['o'])], ['x'], ['p', 'o']),
    ('an unused result', [(['x'], ['a', 'z']), (['a'], ['b', 'y']), (['b'], ['c']), (['c'], ['o'])], ['x'], ['o']),
    ('an input used late', [(['x'], ['a']), (['a'], ['b']), (['b'], ['c']), (['c', 'x'], ['o'])], ['x'], ['o']),
    ('two inputs', [(['x'], ['a']), (['a'], ['b']), (['b', 'y'], ['c']), (['c', 'y'], ['d']), (['d', 'a'], ['o'])], ['x', 'y'], ['o']),
    ('several early results', [(['x'], ['a']), (['x'], ['b']), (['x'], ['c']), (['a', 'b'], ['d']), (['d'], ['e']), (['e', 'c'], ['o'])], ['x'], ['o']),
    ('an output produced early', [(['x'], ['o', 'a']), (['a'], ['b']), (['b'], ['c']), (['c'], ['p'])], ['x'], ['o', 'p']),
    ('a results pair', [(['x'], ['a', 'b']), (['a'], ['c']), (['b'], ['d', 'e']), (['c', 'd'], ['f']), (['e', 'f'], ['o'])], ['x'], ['o']),
    ('a tensor used by two operators in a row', [(['x'], ['a']), (['a'], ['b']), (['a', 'b'], ['c']), (['c', 'b'], ['d']), (['d'], ['o'])], ['x'], ['o']),
    ('a gap that grows from both sides', [(['x'], ['l']), (['x'], ['a']), (['x'], ['b']), (['x'], ['m']), (['x'], ['q']), (['a', 'm'], ['s']), (['b', 's'], ['t']),
                                          (['t'], ['u']), (['u', 'q'], ['v']), (['v', 'l'], ['o'])], ['x'], ['o']),
    ('a gap that grows at the front', [(['x'], ['l']), (['x'], ['a']), (['x'], ['b']), (['x'], ['q']), (['a'], ['s']), (['b'], ['t']), (['s', 't'], ['u']),
                                       (['u', 'q'], ['v']), (['v', 'l'], ['o'])], ['x'], ['o']),
    ('an operator without planned output', [(['x'], ['a']), (['a'], ['n']), (['n', 'a'], ['b']), (['b'], ['o'])], ['x'], ['o']),
]
CACHED = [
    ('a cache that is an input', [(['x'], ['a']), (['a', 'kv_cache'], ['b']), (['b'], ['c']), (['c', 'kv_cache'], ['o'])], ['x', 'kv_cache'], ['o']),
    ('a cache used by the first operator only', [(['x', 'kv_cache'], ['a']), (['a'], ['b']), (['b'], ['c']), (['c'], ['o'])], ['kv_cache', 'x'], ['o']),
]
# size in units of the i-th tensor in order of appearance
RATIOS = [(1,), (1, 2), (2, 1), (3, 1, 2), (1, 3, 2), (2, 3, 1), (4, 1, 1, 2), (1, 1, 4), (5, 2, 3, 1), (1, 2, 3, 4, 5), (5, 4, 3, 2, 1), (2, 2, 1, 4, 1), (1, 4, 2, 2), (1, 3, 1, 1, 1, 1, 1, 4, 4, 1), (1, 3, 1, 1, 1, 1, 1, 4, 3, 1), (1, 2, 1, 1, 2, 3, 3, 3, 2, 1), (1, 3, 1, 1, 2, 2, 2, 4, 1, 1), (1, 2, 2, 1, 1, 3, 4, 4, 3, 2)]
# value of the unit that decides comparisons with absolute numbers: leftovers are always / sometimes / never worth keeping
UNITS = (1 << 20, 2048, 64)


def ranges(nodes, ins, outs):
    """first and last position at which each tensor must be there"""
    n = len(nodes)
    r = {}
    for x in ins:
        r[x] = [0, 0]
    for i, (ii, oo) in enumerate(nodes):
        for x in ii:
            if x in r:
                r[x][1] = max(r[x][1], i)
        for x in oo:
            r.setdefault(x, [i, i])
    for x in outs:
        if x in r:
            r[x][1] = n
    return r


def plan(p, G, nodes, ins, outs, size, unit, inputs_planned, padding, fn=None):
    """derived (offset, size) terms, total term; raises TooLong"""
    S = gs.SELF
    N = {f'n{i}': P(f'node:n{i}') for i in range(len(nodes))}
    names = []
    for i, o in nodes:
        for x in i + o:
            if x not in names:
                names.append(x)
    TN = {x: P('tensor:' + x) for x in names}
    cons, prod = {}, {}
    for k, (i, o) in zip(N, nodes):
        for x in i:
            cons.setdefault(x, []).append(k)
        for x in o:
            prod.setdefault(x, []).append(k)
    dyn = [x for x in names if x in prod or inputs_planned and x in ins]
    over = [(S, 'nodemap', {c(k): v for k, v in N.items()}), (S, 'input', [c(x) for x in ins]), (S, 'output', [c(x) for x in outs]),
            (S, 'dynamics', [c(x) for x in dyn]), (S, 'initials', [c(x) for x in names if x not in prod and x not in ins]), (S, 'tensormap', {c(k): v for k, v in TN.items()}),
            (S, 'consumedby', {c(k): [c(y) for y in v] for k, v in cons.items()}), (S, 'producedby', {c(k): [c(y) for y in v] for k, v in prod.items()})]
    for k, (i, o) in zip(N, nodes):
        over += [(N[k], 'input', [c(x) for x in i]), (N[k], 'output', [c(x) for x in o]), (N[k], 'name', c(k))]
    for x, t in TN.items():
        over.append((t, 'name', c(x)))

    def memsize(I, f, args, kwargs, st, fr, node):
        a = next(iter(args[0]))
        return V(size(a[1].split(':')[1])) if len(args[0]) == 1 and a[0] == 'param' and a[1].startswith('tensor:') else V(T.TOP)

    def leaf(t):
        return unit if t == U else None
    fi = G.find_method('compress_memory')
    pars = [a.arg for a in fi.node.args.args if a.arg != 'self']
    if fn is not None:
        fi = fn
        pars = [a.arg for a in fi.node.args.args]
    r = gs.run(G if fn is None else None, fi.name if fn is None else fn, args={pars[0]: padding} if fn is None and pars else dict(zip(pars, (S, padding))), over=over, seconds=60, summaries={'Tensor.get_memsize': memsize, '.get_memsize': lambda I, b, a, k, st, fr, node:
               memsize(I, None, [V(b)], k, st, fr, node)},
               typer=lambda t: G if t == S else p.cls(TENSOR, 'Tensor') if t[0] == 'param' and t[1].startswith('tensor:') else None,
               truth_hook=lambda t, st: probe.compare(t, leaf), order_hook=lambda t: probe.number(t, leaf))
    return fi, probe.results(r), leaf, dyn, prod


def check_family(ctx, p, G, fi, ratios, shapes=SHAPES, units=UNITS, fn=None):
    ctx.rule('tensors whose live ranges meet (from their producer, or the start for inputs, to their last user, or the end for outputs) lie in disjoint blocks; every block is '
             'at least as large as its tensor; the reported total covers every block; every sized activation is planned and no constant is')
    n_plans = lost = 0
    t0 = time.monotonic()
    for (label, nodes, ins, outs), unit in itertools.product(shapes, units):
        live = ranges(nodes, ins, outs)
        for ri, ratio in enumerate(ratios):
            if lost > 8 or time.monotonic() - t0 > 240:
                break
            names = list(live)
            k = {x: ratio[i % len(ratio)] for i, x in enumerate(names)}
            if 'n' in k:
                k['n'] = 0
            if 'w' not in k:
                k['w'] = 7
            planned = bool(ri % 2) or fn is not None
            lab = f'{label}, sizes {"/".join(str(k[x]) for x in names)}, unit {unit}'
            try:
                _, res, leaf, dyn, prod = plan(p, G, nodes, ins, outs, lambda x: T.mul(c(k[x]), U) if k[x] else c(0), unit, planned, c(1), fn)
            except gs.TooLong:
                lost += 3
                ctx.undecided(f'{lab}: not reduced', fi.where)
                continue
            kv = None
            if fn is not None and len(res) == 1 and isinstance(res[0], list) and len(res[0]) == 4:
                kv = res[0][2:]
                res = [res[0][:2]]
            if len(res) != 1 or not isinstance(res[0], list) or len(res[0]) != 2 or not isinstance(res[0][0], dict):
                lost += 1
                ctx.undecided(f'{lab}: plan not determined {str(res)[:120]}', fi.where)
                continue
            mem, total = res[0]

            def num(x):
                return probe.number(x if isinstance(x, tuple) else c(x), leaf) if not isinstance(x, list) else None
            blocks = {}
            for x, b in mem.items():
                if isinstance(b, list) and len(b) == 2 and num(b[0]) is not None and num(b[1]) is not None:
                    blocks[x] = (num(b[0]), num(b[1]), b)
            if len(blocks) != len(mem) or num(total) is None:
                lost += 1
                ctx.undecided(f'{lab}: {str(mem)[:120]}', fi.where)
                continue
            n_plans += 1
            bad = []

            def sh(x):
                b = blocks[x][2]
                return f'{x} [{", ".join(T.show(y) if isinstance(y, tuple) else str(y) for y in b)}]'
            if kv is not None and 'kv_cache' in live:
                b = kv[0].get('kv_cache') if isinstance(kv[0], dict) else None
                b = [num(y) for y in b] if isinstance(b, list) and len(b) == 2 else None
                if b is None or None in b or num(kv[1]) is None:
                    ctx.undecided(f'{lab}: cache plan {str(kv)[:80]}', fi.where)
                elif b[0] < 0 or b[1] < k['kv_cache'] * unit or b[0] + b[1] > num(kv[1]):
                    bad.append(('cache', f'the cache of {k["kv_cache"]} units gets the block {b} of a pool of {num(kv[1])} bytes'))
                elif set(kv[0]) != {'kv_cache'}:
                    bad.append(('cache', f'the pool of the cache also holds {sorted(set(kv[0]) - {"kv_cache"})}'))
                if 'kv_cache' in blocks:
                    bad.append(('cache', 'the cache is placed among the activations'))
            for x in live:
                if x == 'kv_cache' and kv is not None:
                    continue
                if x in dyn and k[x] and x not in blocks:
                    bad.append(('absent', f'{x} gets no memory'))
            for x in blocks:
                if x not in live:
                    bad.append(('constant', f'the constant {x} is given activation memory'))
                elif blocks[x][1] < k[x] * unit:
                    bad.append(('small', f'{sh(x)} is smaller than its tensor ({k[x]} units)'))
                if blocks[x][0] < 0 or blocks[x][0] + blocks[x][1] > num(total):
                    bad.append(('total', f'{sh(x)} exceeds the reported total {T.show(total) if isinstance(total, tuple) else total}'))
            for x, y in itertools.combinations([x for x in blocks if x in live], 2):
                a, b = live[x], live[y]
                if a[0] <= b[1] and b[0] <= a[1] and k[x] and k[y]:
                    if blocks[x][0] < blocks[y][0] + blocks[y][1] and blocks[y][0] < blocks[x][0] + blocks[x][1]:
                        why = 'output' if a[1] == len(nodes) and any(x in i for i, _ in nodes) or b[1] == len(nodes) and any(y in i for i, _ in nodes) else 'overlap'
                        bad.append((why, f'{sh(x)} and {sh(y)} are both needed at operator {max(a[0], b[0])} and overlap'))
            for kk, msg in bad[:3]:
                ctx.fail(f'plan:{kk}' if fn is None else f'plan of {fn.name}:{kk}', f'{lab}: {msg}', fi.where)
            if not bad:
                ctx.ok(f'{lab}: {len(blocks)} blocks' if ri == 0 else None)
    ctx.count('memory plans derived', n_plans)


def check_padding(ctx, p, G, fi):
    ctx.rule('a planned size is the tensor size rounded up to a multiple of the requested alignment')
    M, A = P('bytes'), P('alignment')
    nodes = [(['x'], ['a']), (['a'], ['o'])]
    for m, a in ((1, 64), (64, 64), (65, 64), (127, 64), (4096, 64), (5000, 256), (255, 256), (7, 1), (1000, 32), (33, 32)):
        def leaf(t):
            return m if t == M else a if t == A else None
        try:
            S = gs.SELF
            hook = {'truth_hook': lambda t, st: probe.compare(t, leaf), 'order_hook': lambda t: probe.number(t, leaf)}
            fi2, res, _, dyn, prod = plan_with(p, G, nodes, M, A, hook)
        except gs.TooLong:
            ctx.undecided('not reduced', fi.where)
            continue
        if len(res) != 1 or not isinstance(res[0], list) or not isinstance(res[0][0], dict):
            ctx.undecided(f'plan of {m} bytes aligned to {a}: {str(res)[:100]}', fi.where)
            continue
        for x, b in res[0][0].items():
            s = probe.number(b[1] if isinstance(b[1], tuple) else c(b[1]), leaf) if isinstance(b, list) and len(b) == 2 else None
            o = probe.number(b[0] if isinstance(b[0], tuple) else c(b[0]), leaf) if s is not None else None
            if s is None or o is None:
                ctx.undecided(f'plan of {m} bytes aligned to {a}: {str(b)[:100]}', fi.where)
            elif s < m:
                ctx.fail('padding:small', f'a tensor of {m} bytes aligned to {a} is planned with {T.show(b[1])} = {s} bytes', fi.where)
            elif s % a or o % a:
                ctx.fail('padding:align', f'a tensor of {m} bytes aligned to {a} is planned at {o} with {s} bytes', fi.where)
            else:
                ctx.ok(f'{m} bytes aligned to {a}: {s}')


def plan_with(p, G, nodes, M, A, hook):
    old = gs.run

    def run(*args, **kw):
        kw.update(hook)
        return old(*args, **kw)
    gs.run = run
    try:
        return plan(p, G, nodes, ['x'], ['o'], lambda x: M, 1, False, A)
    finally:
        gs.run = old


def check(ctx):
    p = gs.program()
    G = p.cls(GRAPH, 'Graph')
    fi = G.find_method('compress_memory') if G else None
    if fi is None:
        return ctx.undecided('no compress_memory', GRAPH)
    ctx.seen(fi.where)
    check_family(ctx, p, G, fi, RATIOS)
    check_padding(ctx, p, G, fi)
    q = gs.program('llm')
    m = q.modules.get('benchmark.llm_test')
    fn = next((f for f in m.all_functions if f.name == 'compress_memory_with_kv_cache'), None) if m is not None else None
    if fn is None:
        ctx.undecided('no planner for models with a key/value cache', 'benchmark/llm_test.py')
    else:
        ctx.seen(fn.where)
        ctx.rule('the planner for models with a key/value cache keeps the same rules for activations and places the cache alone in a pool of its own')
        check_family(ctx, q, q.cls(GRAPH, 'Graph'), fn, RATIOS[1::3], SHAPES + CACHED, UNITS[::2], fn)
    ctx.assume('operators run in the order of the node map, one at a time; the relation between tensors and their users is the one P15 keeps')
    ctx.assume('sizes are symbolic in a common unit; the enumerated ratios and graph shapes bound the plans explored')

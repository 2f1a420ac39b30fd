"""P35: the graph built from a model file computes what the file describes: every operator, operand, constant and connection is there."""
from .. import graphsem as gs, loading as L
from ..absint import Endless
from ..probe import P
from .p28_order import PATTERNS, dags, nodes_of

TITLE = 'Loading a model keeps every operator, constant and connection'
TECHNIQUE = ('abstract interpretation of the graph constructor (all its passes inlined) over an enumeration of model descriptions; the derived operators, operands, constants, interface and '
             'relations are expanded into the computation of every output and compared with the computation the description states')
EXPLANATION = ('Graph construction is derived from the source for every acyclic graph of up to three operators and for patterns with several results, repeated and omitted operands, shared '
               'constants, constants listed as inputs, used and constant outputs, missing, repeated and colliding operator names, value information, If operators with either branch chosen '
               '(captured, shared and equally named tensors, several, chained and nested Ifs) and TopK with a fixed k. The computation of every output, the operator set, the interface, the tensor table and '
               'the producer and consumer relations must be those of the description.')
LEVEL = 'bounded'
GRAPH = L.GRAPH
STATIC = 0

# (label, nodes, inputs, outputs, initializers, value infos, configuration)
def base():
    out = []
    for label, nodes, ins in PATTERNS:
        nodes = nodes[::-1]
        made = {x for _, o in nodes for x in o}
        inits = []
        for i, _ in nodes:
            for x in i:
                if x and x not in made and x not in ins and x not in inits:
                    inits.append(x)
        for cfg in ({}, {'constant_folding': True}):
            out.append((label + (' (folding)' if cfg else ''), [(f'op{k}', 'Foo', i, o) for k, (i, o) in enumerate(nodes)], ins, ['o'], inits, [], cfg))
    for n in (1, 2, 3):
        for e in dags(n):
            if all(i < j for i, j in e):
                nodes = nodes_of(n, e)
                used = {x for i, _ in nodes for x in i}
                out.append((f'{n} operators, edges {sorted(e)}', [(f'op{k}', 'Foo', i, o) for k, (i, o) in enumerate(nodes)], ['x'], [f't{k}' for k in range(n) if f't{k}' not in used], [], [], {}))
    A = ('A', 'Foo', ['x', 'w'], ['a'])
    B = ('B', 'Bar', ['a', 'w', 'v'], ['b'])
    C = ('C', 'Foo', ['b', 'a'], ['o'])

    def named(*names):
        return [(n,) + d[1:] for n, d in zip(names, (A, B, C))]
    out += [
        ('constants shared by operators', [A, B, C], ['x'], ['o'], ['w', 'v'], ['a', 'b'], {}),
        ('constants listed among the inputs', [A, B, C], ['x', 'w', 'v'], ['o'], ['w', 'v'], [], {}),
        ('a constant used by no operator', [A, B, C], ['x'], ['o'], ['w', 'u', 'v'], [], {}),
        ('an input used by no operator', [A, B, C], ['u', 'x'], ['o'], ['w', 'v'], [], {}),
        ('two inputs', [('A', 'Foo', ['y', 'w'], ['a']), B, ('C', 'Foo', ['b', 'x'], ['o'])], ['x', 'y'], ['o'], ['w', 'v'], [], {}),
        ('an output that is used inside', [A, B, C], ['x'], ['a', 'o'], ['w', 'v'], [], {}),
        ('outputs in another order than produced', [A, B, C], ['x'], ['o', 'b', 'a'], ['w', 'v'], [], {}),
        ('operators without names', named('', '', ''), ['x'], ['o'], ['w', 'v'], [], {}),
        ('some operators without names', named('', 'B', ''), ['x'], ['o'], ['w', 'v'], [], {}),
        ('operators with equal names', named('A', 'B', 'A'), ['x'], ['o'], ['w', 'v'], [], {}),
        ('three operators with one name', named('A', 'A', 'A'), ['x'], ['o'], ['w', 'v'], [], {}),
        ('an operator called as an unnamed one could be, after it', named('', 'Foo_0', 'C'), ['x'], ['o'], ['w', 'v'], [], {}),
        ('an operator called as an unnamed one could be, before it', named('Foo_2', 'Bar_1', ''), ['x'], ['o'], ['w', 'v'], [], {}),
        ('operators to be renamed', named('Foo_2', 'B', 'Foo_0'), ['x'], ['o'], ['w', 'v'], [], {'node_rename': True}),
        ('operators with equal names to be renamed', named('A', 'A', 'A'), ['x'], ['o'], ['w', 'v'], [], {'node_rename': True}),
        ('an operator named like a tensor', named('a', 'w', 'x'), ['x'], ['o'], ['w', 'v'], [], {}),
        ('unsorted operators', [C, B, A], ['x'], ['o'], ['w', 'v'], [], {}),
        ('results that are kept', [A, B, C, ('D', 'Foo', ['a'], ['d'])], ['x'], ['o'], ['w', 'v'], [], {'remove_dangling': False}),
        ('attributes and domains', [A[:4] + ({'alpha': P('alpha'), 'axes': P('axes')},), B[:4] + ({'alpha': P('beta')}, 'com.example'), C], ['x'], ['o'], ['w', 'v'], [], {}),
        ('an operator on constants', [('K', 'Foo', ['w', 'v'], ['k']), ('A', 'Foo', ['x', 'k'], ['o'])], ['x'], ['o'], ['w', 'v'], [], {}),
        ('value information for constants, inputs and outputs', [A, B, C], ['x'], ['o'], ['w', 'v'], ['w', 'x', 'o', 'v', 'a'], {}),
        ('a constant that is an output', [A, B, C], ['x'], ['o', 'w'], ['w', 'v'], [], {}),
        ('an input that is an output', [A, B, C], ['x'], ['o', 'x'], ['w', 'v'], [], {}),
        ('omitted operands', [('A', 'Foo', ['x', '', 'w'], ['a']), ('B', 'Foo', ['', 'a'], ['o'])], ['x'], ['o'], ['w'], [], {}),
    ]
    fold = {'constant_folding': True}
    K, KK = ('K', 'Foo', ['w', 'v'], ['k']), ('KK', 'Foo', ['k', 'w'], ['l'])
    out += [
        ('nothing to fold', [A, B, C], ['x'], ['o'], ['w', 'v'], [], fold),
        ('one operator to fold', [K, ('A', 'Foo', ['x', 'k'], ['o'])], ['x'], ['o'], ['w', 'v'], [], fold),
        ('a chain to fold', [K, KK, ('A', 'Foo', ['x', 'l', 'k'], ['o'])], ['x'], ['o'], ['w', 'v'], [], fold),
        ('a chain to fold and an omitted operand', [K, KK, ('A', 'Foo', ['x', '', 'l'], ['a']), ('B', 'Foo', ['a', '', 'w'], ['o'])], ['x'], ['o'], ['w', 'v'], [], fold),
        ('an operator without operands to fold', [('K', 'Constant', [], ['k']), ('A', 'Foo', ['x', 'k'], ['a']), ('B', 'Foo', ['a', 'k'], ['o'])], ['x'], ['o'], [], [], fold),
        ('two results to fold', [('K', 'Foo', ['w', 'v'], ['k', 'l']), ('KK', 'Foo', ['l'], ['m']), ('A', 'Foo', ['x', 'm', 'k'], ['o'])], ['x'], ['o'], ['w', 'v'], [], fold),
        ('a constant output', [K, KK, ('A', 'Foo', ['x', 'l'], ['o'])], ['x'], ['o', 'k'], ['w', 'v'], [], fold),
        ('constants that meet an activation late', [K, ('A', 'Foo', ['x'], ['a']), KK, ('B', 'Foo', ['a', 'l'], ['o'])], ['x'], ['o'], ['w', 'v'], [], fold),
    ]
    return out


def tree(nodes, leaf, t, memo=None, path=()):
    """the computation of tensor t; nodes: list of (identity, inputs, outputs)"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    if t in path:
        return ('cycle', t)
    ps = [n for n in nodes if t in n[2]]
    if t == '':
        r = ('omitted',)
    elif not ps:
        r = leaf(t)
    elif len(ps) > 1:
        r = ('several producers', tuple(str(n[0]) for n in ps))
    else:
        n = ps[0]
        r = (n[0], n[2].index(t), tuple(tree(nodes, leaf, x, memo, path + (t,)) for x in n[1]))
    memo[t] = r
    return r


class Loaded:
    def __init__(self, res):
        self.ok = len(res) == 1 and isinstance(res[0], list) and len(res[0]) == 8
        if not self.ok:
            return
        nodes, tens, self.prod, self.cons, self.input, self.output, self.initials, self.dynamics = res[0]
        self.ok = isinstance(nodes, list) and all(isinstance(x, list) and len(x) == 10 and isinstance(x[0], str) and isinstance(x[2], str) and isinstance(x[5], list) and isinstance(x[6], list) and
                                                  all(isinstance(y, str) for y in x[5] + x[6]) for x in nodes)
        self.ok = self.ok and isinstance(tens, list) and all(isinstance(x, list) and len(x) == 4 and isinstance(x[0], str) for x in tens)
        self.ok = self.ok and all(isinstance(x, list) and all(isinstance(y, str) for y in x) for x in (self.input, self.output, self.initials, self.dynamics))
        self.ok = self.ok and all(isinstance(d, dict) and all(isinstance(k, str) and isinstance(v, list) and all(isinstance(y, str) for y in v) for k, v in d.items()) for d in (self.prod, self.cons))
        self.nodes, self.tens = nodes, tens


def faults(w, want_tree, outs, required, forbidden, names=None, ops=None, inputs=None, ordered=True, static=None):
    """(key, text) of the first difference, or None"""
    ids = [n[1] for n in w.nodes]
    for q in required:
        if q not in ids:
            return 'lost', f'operator {q[1]} of the file is not in the graph'
    for q in ids:
        if ids.count(q) > 1:
            return 'twice', f'operator {q[1]} of the file is in the graph twice'
        if q in forbidden:
            return 'kept', f'operator {q[1]} should not be in the graph'
    for n in w.nodes:
        if not n[0]:
            return 'name', f'an operator of type {n[3]} has no name'
        if n[0] != n[2]:
            return 'name', f'operator {n[2]} is stored under the name {n[0]}'
        if names and names.get(n[1]) not in (None, n[0]):
            return 'name', f'operator {names[n[1]]} is called {n[0]}'
        if ops and n[1] in ops:
            op, dom, attrs = ops[n[1]]
            if n[3] != op or n[4] != dom:
                return 'type', f'operator {n[0]} is {n[3]} of domain {n[4]!r}, not {op} of {dom!r}'
            if isinstance(n[9], dict) and n[9] != attrs:
                return 'attributes', f'operator {n[0]} has the attributes {n[9]}, not {attrs}'
    tm = {t[0]: t for t in w.tens}

    def leaf(t):
        if t not in tm:
            return ('no tensor', t)
        return tm[t][2] if isinstance(tm[t][2], tuple) and tm[t][2][1].startswith('initializer') else ('input', t)
    nl = [(n[1], n[5], n[6]) for n in w.nodes]
    memo = {}
    for o, t in zip(outs, want_tree):
        g = tree(nl, leaf, o, memo)
        if g != t:
            return 'computation', f'output {o} is computed as {show(g)}, not {show(t)}'
    if w.output[:len(outs)] != list(outs):
        return 'outputs', f'the graph outputs are {w.output}, not {list(outs)}'
    if inputs is not None and (set(w.input) != set(inputs) or len(w.input) != len(set(w.input))):
        return 'inputs', f'the graph inputs are {w.input}, not {sorted(inputs)}'
    for k, t in tm.items() if static is not None else ():
        if k and isinstance(t[3], int) and (t[3] == STATIC) != (k in static):
            return 'type', f'tensor {k} is taken for {"a constant" if t[3] == STATIC else "an activation"}'
    wp, wc = {}, {}
    for n in w.nodes:
        for t in n[6]:
            wp.setdefault(t, set()).add(n[0])
        for t in n[5]:
            wc.setdefault(t, set()).add(n[0])
            if t not in tm:
                return 'tensor', f'operand {t!r} of {n[0]} has no tensor'
        for t in n[6]:
            if t not in tm:
                return 'tensor', f'result {t!r} of {n[0]} has no tensor'
    for k, t in tm.items():
        if t[1] != k:
            return 'tensor', f'the tensor stored as {k!r} is called {t[1]!r}'
    for what, got, want in (('producers', w.prod, wp), ('consumers', w.cons, wc)):
        for t, q in want.items():
            if t and set(got.get(t, ())) != q:
                return 'relations', f'the {what} of {t} are {got.get(t)}, not {sorted(q)}'
        for t, q in got.items():
            if t and q and t not in want:
                return 'relations', f'{t} has {what} {q}, there are none'
    for t in wc:
        if not t:
            continue
        if t in tm and isinstance(tm[t][2], tuple) and tm[t][2][1].startswith('initializer') and t not in w.initials:
            return 'constants', f'constant {t} is not listed as one'
        if t in w.initials and t in w.dynamics:
            return 'constants', f'{t} is listed as a constant and as an activation'
        if t not in w.initials and t not in w.dynamics:
            return 'constants', f'{t} is listed neither as a constant nor as an activation'
    if ordered:
        at = {n[0]: i for i, n in enumerate(w.nodes)}
        for n in w.nodes:
            for t in n[5]:
                for q in wp.get(t, ()) if t else ():
                    if at[q] >= at[n[0]]:
                        return 'order', f'{n[0]} comes before {q}, which produces its operand {t}'
    return None


def show(t):
    if isinstance(t, tuple) and len(t) == 3 and isinstance(t[0], tuple) and isinstance(t[2], tuple):
        return f'{t[0][1].split(":")[-1] if ":" in t[0][1] else t[0][1]}({", ".join(show(x) for x in t[2])})' + (f'[{t[1]}]' if t[1] else '')
    if isinstance(t, tuple) and t[:1] == ('param',):
        return t[1].split(':')[-1]
    return ' '.join(str(x) for x in t) if isinstance(t, tuple) else str(t)


SRC = L.MAIN.replace('n.shape_calc]', 'n.attr]')


def run(ctx, p, pr, g, cfg, label, where):
    try:
        w = Loaded(L.load(p, pr, g, cfg, src=SRC))
    except Endless:
        ctx.fail('load', f'{label}: loading does not end', where)
        return None
    except gs.TooLong:
        ctx.undecided(f'{label}: too long', where)
        return None
    if not w.ok:
        ctx.undecided(f'{label}: not derived', where)
        return None
    return w


def is_sorted(nodes):
    made = {x: i for i, nd in enumerate(nodes) for x in nd[3] if x}
    return all(made.get(x, -1) < i for i, nd in enumerate(nodes) for x in nd[2])


def judge(ctx, label, w, where, say, **kw):
    bad = faults(w, **kw)
    if bad:
        ctx.fail(bad[0], f'{label}: {bad[1]}', where)
    else:
        ctx.ok(label if say else None)


def check(ctx):
    p = gs.program()
    G = p.cls(GRAPH, 'Graph')
    fi = G.find_method('__init__') if G else None
    if fi is None:
        return ctx.undecided('no graph', GRAPH)
    ctx.seen(fi.where)
    ctx.rule('in the loaded graph every output is computed by the operators the file states, from the operands, constants and inputs the file states; every operator of the file is there once, under '
             'its own name where the file gives a unique one, with its type, domain and attributes; the inputs are the declared ones that are used and no constants, the outputs the declared ones; '
             'every operand and result has a tensor of its name; producers and consumers are those of the operators')
    for label, nodes, ins, outs, inits, infos, cfg in base():
        pr = L.Proto()
        g = pr.graph(nodes, ins, outs, inits, infos)
        w = run(ctx, p, pr, g, cfg, label, fi.where)
        if w is None:
            continue
        ids = [P(f'proto:{i}') for i in range(len(nodes))]
        nl = [(q, nd[2], nd[3]) for q, nd in zip(ids, nodes)]
        leaf = lambda t: P(f'initializer:{t}') if t in inits else ('input', t)
        const = set(inits) | {''}
        gone = []
        for _ in nl:
            for q, i, o in nl:
                if all(x in const for x in i):
                    const |= set(o)
                    if cfg.get('constant_folding') and not set(o) & set(outs) and q not in gone:
                        gone.append(q)
        nl2 = [n for n in nl if n[0] not in gone]
        kept = [q for q in ids if q not in gone]
        given = [nd[0] for nd in nodes]
        names = {} if cfg.get('node_rename') else {q: nd[0] for q, nd in zip(ids, nodes) if nd[0] and given.count(nd[0]) == 1}
        ops = {q: (nd[1], nd[5] if len(nd) > 5 else '', dict(nd[4]) if len(nd) > 4 else {}) for q, nd in zip(ids, nodes)}
        used = {x for q, i, o in nl2 for x in i}
        judge(ctx, label, w, fi.where, True, want_tree=[tree(nl2, leaf, o) for o in outs], outs=outs, required=kept, forbidden=gone, names=names, ops=ops,
              inputs=[x for x in ins if x in used and x not in inits], ordered=is_sorted(nodes), static=const)
    branches(ctx, p, fi)
    topk(ctx, p, fi)


# -- If

def ifs():
    """(label, nodes with branches as (nodes, outputs, constants), inputs, outputs, constants)"""
    def IF(name, cond, res, then, els):
        return (name, 'If', [cond], res, {'then_branch': then, 'else_branch': els})
    B = lambda nodes, outs, inits=(): ('branch', nodes, outs, list(inits))
    N = lambda name, i, o: (name, 'Foo', i, o)
    cond = [N('c', ['x'], ['cond'])]
    pre = [N('p', ['x', 'w'], ['a'])]
    then, els = B([N('t0', ['a'], ['tr'])], ['tr']), B([N('e0', ['a'], ['m']), N('e1', ['m', 'a'], ['er'])], ['er'])
    out = [
        ('an If', cond + pre + [IF('i', 'cond', ['r'], then, els), N('q', ['r', 'a'], ['o'])], ['x'], ['o'], ['w']),
        ('an If producing the output', cond + pre + [IF('i', 'cond', ['o'], then, els)], ['x'], ['o'], ['w']),
        ('an If used twice', cond + pre + [IF('i', 'cond', ['r'], then, els), N('q', ['r', 'r'], ['s']), N('q2', ['s', 'r'], ['o'])], ['x'], ['o'], ['w']),
        ('a condition that is an input', pre + [IF('i', 'f', ['r'], then, els), N('q', ['r'], ['o'])], ['x', 'f'], ['o'], ['w']),
        ('a condition computed by several operators', [N('c0', ['x'], ['c1']), N('c1', ['c1', 'w'], ['c2']), N('c2', ['c2'], ['cond'])] + pre + [IF('i', 'cond', ['r'], then, els), N('q', ['r'], ['o'])], ['x'], ['o'], ['w']),
        ('a condition computed from a value used elsewhere', pre + [N('c0', ['a'], ['cond']), IF('i', 'cond', ['r'], then, els), N('q', ['r'], ['o'])], ['x'], ['o'], ['w']),
        ('a condition that is an output too', cond + pre + [IF('i', 'cond', ['r'], then, els), N('q', ['r'], ['o'])], ['x'], ['o', 'cond'], ['w']),
        ('a condition that is used in the branch', cond + [IF('i', 'cond', ['r'], B([N('t0', ['cond'], ['tr'])], ['tr']), B([N('e0', ['cond'], ['er'])], ['er'])), N('q', ['r'], ['o'])], ['x'], ['o'], []),
        ('a condition produced with a result used elsewhere', [N('c', ['x'], ['cond', 'a']), IF('i', 'cond', ['r'], then, els), N('q', ['r'], ['o'])], ['x'], ['o'], []),
        ('a condition produced with a result that is an output', [N('c', ['x'], ['cond', 'z'])] + pre + [IF('i', 'cond', ['r'], then, els), N('q', ['r'], ['o'])], ['x'], ['o', 'z'], ['w']),
        ('a value before the condition that is an output', [N('c0', ['x'], ['z']), N('c', ['z'], ['cond'])] + pre + [IF('i', 'cond', ['r'], then, els), N('q', ['r'], ['o'])], ['x'], ['o', 'z'], ['w']),
        ('one condition for two Ifs', cond + pre + [IF('i', 'cond', ['r'], then, els), IF('j', 'cond', ['s'], B([N('u0', ['r'], ['us'])], ['us']), B([N('v0', ['a'], ['vs'])], ['vs'])), N('q', ['r', 's'], ['o'])], ['x'], ['o'], ['w']),
        ('several results', cond + pre + [IF('i', 'cond', ['r', 's'], B([N('t0', ['a'], ['t1']), N('t2', ['t1'], ['t3'])], ['t3', 't1']), B([N('e0', ['a'], ['e1', 'e2'])], ['e2', 'e1'])), N('q', ['r', 's'], ['o'])], ['x'], ['o'], ['w']),
        ('constants of the branch', cond + pre + [IF('i', 'cond', ['r'], B([N('t0', ['a', 'tw'], ['tr'])], ['tr'], ['tw']), B([N('e0', ['a', 'ew'], ['er'])], ['er'], ['ew'])), N('q', ['r'], ['o'])], ['x'], ['o'], ['w']),
        ('a branch using a constant of the graph', cond + pre + [IF('i', 'cond', ['r'], B([N('t0', ['a', 'w'], ['tr'])], ['tr']), B([N('e0', ['a', 'w'], ['er'])], ['er'])), N('q', ['r'], ['o'])], ['x'], ['o'], ['w']),
        ('a branch without names', cond + pre + [IF('i', 'cond', ['r'], B([N('', ['a'], ['t1']), N('', ['t1'], ['tr'])], ['tr']), B([N('', ['a'], ['er'])], ['er'])), N('', ['r'], ['o'])], ['x'], ['o'], ['w']),
        ('a branch with operator names of the graph', cond + pre + [IF('i', 'cond', ['r'], B([N('p', ['a'], ['t1']), N('q', ['t1'], ['tr'])], ['tr']), B([N('q', ['a'], ['er'])], ['er'])), N('q', ['r', 'a'], ['o'])], ['x'], ['o'], ['w']),
        ('branches with equal operator names', cond + pre + [IF('i', 'cond', ['r'], B([N('n', ['a'], ['tr'])], ['tr']), B([N('n', ['a'], ['er'])], ['er'])),
                                                IF('j', 'cond', ['s'], B([N('n', ['r'], ['us'])], ['us']), B([N('n', ['r'], ['vs'])], ['vs'])), N('q', ['s'], ['o'])], ['x'], ['o'], ['w']),
        ('branches with equal tensor names', cond + pre + [IF('i', 'cond', ['r'], B([N('n', ['a'], ['m']), N('n1', ['m', 'a'], ['br'])], ['br']), B([N('n', ['a'], ['m']), N('n1', ['m'], ['br'])], ['br'])),
                                              IF('j', 'cond', ['s'], B([N('m', ['r'], ['m']), N('m1', ['m', 'r'], ['br'])], ['br']), B([N('m', ['r'], ['m']), N('m1', ['m'], ['br'])], ['br'])), N('q', ['s'], ['o'])], ['x'], ['o'], ['w']),
        ('branches with equal constant names', cond + pre + [IF('i', 'cond', ['r'], B([N('n', ['a', 'k'], ['br'])], ['br'], ['k']), B([N('n', ['a', 'k'], ['br'])], ['br'], ['k'])),
                                                IF('j', 'cond', ['s'], B([N('m', ['r', 'k'], ['bs'])], ['bs'], ['k']), B([N('m', ['r', 'k'], ['bs'])], ['bs'], ['k'])), N('q', ['s'], ['o'])], ['x'], ['o'], ['w']),
        ('an If behind an If', cond + pre + [IF('i', 'cond', ['r'], then, els), N('d', ['r'], ['cond2']), IF('j', 'cond2', ['s'], B([N('u0', ['r'], ['us'])], ['us']), B([N('v0', ['r', 'a'], ['vs'])], ['vs'])), N('q', ['s'], ['o'])], ['x'], ['o'], ['w']),
        ('an If inside a branch', cond + pre + [IF('i', 'cond', ['r'], B([N('t0', ['a'], ['t1']), IF('ii', 'cond', ['tr'], B([N('t2', ['t1'], ['t3'])], ['t3']), B([N('t4', ['a'], ['t5'])], ['t5']))], ['tr']),
                                                B([N('e0', ['a'], ['e1']), IF('ij', 'cond', ['er'], B([N('e2', ['e1'], ['e3'])], ['e3']), B([N('e4', ['a'], ['e5'])], ['e5']))], ['er'])), N('q', ['r'], ['o'])], ['x'], ['o'], ['w']),
        ('an If inside a branch that needs a value of the condition', [N('c0', ['x'], ['z']), N('c', ['z'], ['cond'])] + pre + [
            IF('i', 'cond', ['r'], B([N('td', ['a'], ['tc']), IF('ii', 'tc', ['tr'], B([N('t2', ['z'], ['t3'])], ['t3']), B([N('t4', ['z'], ['t5'])], ['t5']))], ['tr']),
               B([N('ed', ['a'], ['ec']), IF('ij', 'ec', ['er'], B([N('e2', ['z'], ['e3'])], ['e3']), B([N('e4', ['z'], ['e5'])], ['e5']))], ['er'])), N('q', ['r'], ['o'])], ['x'], ['o'], ['w']),
        ('a result used inside its branch', cond + pre + [IF('i', 'cond', ['r', 's'], B([N('t0', ['a'], ['t1']), N('t2', ['t1', 't1'], ['t3'])], ['t1', 't3']), B([N('e0', ['a'], ['e1']), N('e2', ['e1'], ['e3'])], ['e1', 'e3'])), N('q', ['s'], ['b']), N('q1', ['r', 'b'], ['o'])], ['x'], ['o'], ['w']),
        ('an If inside a branch that captures a renamed tensor', cond + pre + [
            IF('i', 'cond', ['r'], B([N('t0', ['a', 'k'], ['m']), N('t1', ['m'], ['mc']), IF('ii', 'mc', ['tr'], B([N('t2', ['m', 'k'], ['n'])], ['n']), B([N('t4', ['k', 'm'], ['n'])], ['n']))], ['tr'], ['k']),
               B([N('e0', ['a', 'k'], ['m']), N('e1', ['m'], ['mc']), IF('ij', 'mc', ['er'], B([N('e2', ['m', 'k'], ['n'])], ['n']), B([N('e4', ['k', 'm'], ['n'])], ['n']))], ['er'], ['k'])),
            IF('j', 'cond', ['s'], B([N('t0', ['r', 'k'], ['m']), N('t1', ['m'], ['mc']), IF('ii', 'mc', ['tr'], B([N('t2', ['m', 'k'], ['n'])], ['n']), B([N('t4', ['k', 'm'], ['n'])], ['n']))], ['tr'], ['k']),
               B([N('e0', ['r', 'k'], ['m']), N('e1', ['m'], ['mc']), IF('ij', 'mc', ['er'], B([N('e2', ['m', 'k'], ['n'])], ['n']), B([N('e4', ['k', 'm'], ['n'])], ['n']))], ['er'], ['k'])),
            N('q', ['s'], ['o'])], ['x'], ['o'], ['w']),
        ('an If inside a branch that captures a result of the branch', cond + pre + [IF('i', 'cond', ['r', 's'], B([N('t0', ['a'], ['t1']), IF('ii', 'cond', ['tr'], B([N('t2', ['t1'], ['t3'])], ['t3']), B([N('t4', ['t1'], ['t5'])], ['t5']))], ['t1', 'tr']),
                                                B([N('e0', ['a'], ['e1']), IF('ij', 'cond', ['er'], B([N('e2', ['e1'], ['e3'])], ['e3']), B([N('e4', ['e1'], ['e5'])], ['e5']))], ['e1', 'er'])), N('q', ['r', 's'], ['o'])], ['x'], ['o'], ['w']),
        ('a branch tensor named like the output', cond + pre + [IF('i', 'cond', ['r'], B([N('t0', ['a'], ['o']), N('t1', ['o', 'a'], ['tr'])], ['tr']), B([N('e0', ['a'], ['o']), N('e1', ['o'], ['er'])], ['er'])), N('q', ['r'], ['o'])], ['x'], ['o'], ['w']),
        ('a branch that yields a constant', cond + pre + [IF('i', 'cond', ['r', 's'], B([N('t0', ['a', 'k'], ['tr'])], ['tr', 'k'], ['k']), B([N('e0', ['a'], ['er'])], ['k', 'er'], ['k'])), N('q', ['r', 's'], ['o'])], ['x'], ['o'], ['w']),
        ('an omitted operand inside a branch', cond + pre + [IF('i', 'cond', ['r'], B([N('t0', ['a', '', 'w'], ['tr'])], ['tr']), B([N('e0', ['a', '', 'w'], ['er'])], ['er'])), N('q', ['r'], ['o'])], ['x'], ['o'], ['w']),
    ]
    return out


def build(pr, nodes, ins, outs, inits, tag=''):
    ns = []
    for i, nd in enumerate(nodes):
        if len(nd) > 4 and nd[1] == 'If':
            at = {k: build(pr, b[1], [], b[2], b[3], f'{tag}{i}{k[0]}.') for k, b in nd[4].items()}
            ns.append(nd[:4] + (at,))
        else:
            ns.append(nd)
    return pr.graph(ns, ins, outs, inits, tag=tag)


def inline(nodes, choice, tag='', scope=None, out=None, conds=None):
    """the operators once every If is replaced by its chosen branch: [(identity, inputs, outputs)] over tensor identities (scope, name)"""
    scope = [{}] if scope is None else scope
    out = [] if out is None else out
    def look(t):
        for s in reversed(scope):
            if t in s:
                return s[t]
        return t
    for i, nd in enumerate(nodes):
        if nd[1] == 'If':
            conds += [look(x) for x in nd[2]]
            b = nd[4][choice + '_branch']
            bt = f'{tag}{i}{choice[0]}.'
            s = {k: ('constant', P(f'initializer{bt}:{k}')) for k in b[3]}
            sub = inline(b[1], choice, bt, scope + [s], out, conds)
            for r, o in zip(nd[3], b[2]):
                scope[-1][r] = sub.get(o) or s.get(o) or look(o)
        else:
            ii = [x and look(x) for x in nd[2]]
            oo = [x and (tag, x) for x in nd[3]]
            for x, y in zip(nd[3], oo):
                scope[-1][x] = y
            out.append((P(f'proto{tag}:{i}'), ii, oo, nd))
    if scope and len(scope) == 1:
        return out, look
    return scope[-1]


def only_for(nodes, serve, outs):
    """operators whose results serve only the given tensors (nodes: (identity, inputs, outputs) without the operators that were served)"""
    gone, work = [], list(serve)
    while work:
        t = work.pop(0)
        for q, i, o in nodes:
            if t and t in o and q not in gone and not any(x in outs for x in o) and not any(x in i2 for x in o if x for q2, i2, _ in nodes if q2 not in gone):
                gone.append(q)
                work += i
    return gone


def branches(ctx, p, fi):
    ctx.rule('with a fixed branch every If is replaced by the operators of that branch of that If, connected to the values they capture; operators that only decide the condition go, nothing else')
    for label, nodes, ins, outs, inits in ifs():
        for choice in ('then', 'else'):
            pr = L.Proto()
            g = build(pr, nodes, ins, outs, inits)
            lab = f'{label}, {choice} branch'
            w = run(ctx, p, pr, g, {'if_fixed_branch': choice}, lab, fi.where)
            if w is None:
                continue
            conds = []
            nl, look = inline(nodes, choice, conds=conds)
            def leaf(t):
                return t[1] if isinstance(t, tuple) and t[0] == 'constant' else P(f'initializer:{t}') if t in inits else ('input', t)
            flat = [n[:3] for n in nl]
            trees = [tree(flat, leaf, look(o)) for o in outs]
            gone = only_for(flat, conds, [look(o) for o in outs])
            ids = {n[0] for n in nl}
            judge(ctx, lab, w, fi.where, True, want_tree=trees, outs=outs, required=[n[0] for n in nl if n[0] not in gone], forbidden=gone + [n[1] for n in w.nodes if n[3] == 'If' or n[1] not in ids])


def topk(ctx, p, fi):
    ctx.rule('with a fixed k every TopK takes that constant; operators that only computed a k go, nothing else')
    N = lambda name, i, o, op='Foo': (name, op, i, o)
    cases = [
        ('k a constant', [N('t', ['x', 'k'], ['v', 'i'], 'TopK'), N('q', ['v', 'i'], ['o'])], ['x'], ['o'], ['k']),
        ('k a constant used elsewhere', [N('t', ['x', 'k'], ['v', 'i'], 'TopK'), N('q', ['v', 'k'], ['o'])], ['x'], ['o'], ['k']),
        ('k an input', [N('t', ['x', 'k'], ['v', 'i'], 'TopK'), N('q', ['v', 'i'], ['o'])], ['x', 'k'], ['o'], []),
        ('k computed', [N('a', ['x'], ['s']), N('b', ['s', 'w'], ['k']), N('t', ['x', 'k'], ['v', 'i'], 'TopK'), N('q', ['v', 'i'], ['o'])], ['x'], ['o'], ['w']),
        ('k computed from a value used elsewhere', [N('a', ['x'], ['s']), N('b', ['s', 'w'], ['k']), N('t', ['s', 'k'], ['v', 'i'], 'TopK'), N('q', ['v', 's'], ['o'])], ['x'], ['o'], ['w']),
        ('k computed and an output', [N('b', ['x', 'w'], ['k']), N('t', ['x', 'k'], ['v', 'i'], 'TopK'), N('q', ['v', 'i'], ['o'])], ['x'], ['o', 'k'], ['w']),
        ('k computed with another result', [N('b', ['x', 'w'], ['k', 's']), N('t', ['x', 'k'], ['v', 'i'], 'TopK'), N('q', ['v', 's'], ['o'])], ['x'], ['o'], ['w']),
        ('two TopK with one k', [N('b', ['x', 'w'], ['k']), N('t', ['x', 'k'], ['v', 'i'], 'TopK'), N('u', ['v', 'k'], ['v2', 'i2'], 'TopK'), N('q', ['v2', 'i'], ['o'])], ['x'], ['o'], ['w']),
        ('two TopK with their own k', [N('b', ['x', 'w'], ['k']), N('t', ['x', 'k'], ['v', 'i'], 'TopK'), N('b2', ['v', 'w'], ['k2']), N('u', ['v', 'k2'], ['v2', 'i2'], 'TopK'), N('q', ['v2', 'i'], ['o'])], ['x'], ['o'], ['w']),
        ('no TopK', [N('b', ['x', 'w'], ['o'])], ['x'], ['o'], ['w']),
    ]
    for label, nodes, ins, outs, inits in cases:
        pr = L.Proto()
        g = pr.graph(nodes, ins, outs, inits)
        w = run(ctx, p, pr, g, {'fixed_topk': 5}, label, fi.where)
        if w is None:
            continue
        ks = {n[5][1] for n in w.nodes if n[3] == 'TopK' and len(n[5]) > 1}
        if len(ks) > 1 or ks & ({x for nd in nodes for x in nd[2] + nd[3]} | set(ins)):
            ctx.fail('topk', f'{label}: the TopK operators take {sorted(ks)}, not a constant of their own', fi.where)
            continue
        k = next(iter(ks), None)
        if k is not None and k not in w.initials:
            ctx.fail('topk', f'{label}: the fixed k ({k}) is no constant of the graph', fi.where)
            continue
        nl = [(P(f'proto:{i}'), [nd[2][0], k] if nd[1] == 'TopK' else nd[2], nd[3]) for i, nd in enumerate(nodes)]
        leaf = lambda t: P(f'initializer:{t}') if t in inits else ('input', t)
        trees = [tree(nl, leaf, o) for o in outs]
        gone = only_for(nl, [nd[2][1] for nd in nodes if nd[1] == 'TopK'], outs)
        judge(ctx, label, w, fi.where, True, want_tree=trees, outs=outs, required=[n[0] for n in nl if n[0] not in gone], forbidden=gone)

"""P36: editing a graph keeps the computation of its outputs: what an edit does not name is still computed from the same operators, operands and constants."""
from .. import graphsem as gs, loading as L, terms as T
from ..absint import Endless, Obj, V
from ..probe import P, c
from .p35_load import tree

TITLE = 'Editing or cutting a graph keeps the computation of what remains'
TECHNIQUE = ('abstract interpretation of graph construction followed by the edit (all callees inlined) over an enumeration of graphs and of the operators or groups the edit is applied to; '
             'operators, operands, outputs and relations of the derived graph are expanded and compared with those of the edited description')
EXPLANATION = ('Removing an operator, a subtree or dangling operators, skipping an operator, fusing a group into one operator or into its first one, cutting a graph into three parts at given tensors '
               'and extracting the compute graph are derived from the source for patterns with several, shared, repeated, unused and omitted results and operands, constants and outputs '
               'that are also used inside, for every operator (every convex group of operators, every operator as the cut) of the pattern.')
LEVEL = 'bounded'
GRAPH = L.GRAPH
DUMP = ('[[[k, n.proto, n.name, n.op_type, n.input, n.output] for k, n in {g}.nodemap.items()], {g}.producedby, {g}.consumedby, {g}.input, {g}.output, {g}.initials, {g}.dynamics, '
        '[k for k in {g}.tensormap]]')

# (label, operators (name, operands, results), inputs, outputs, constants)
def N(name, i, o, op=None):
    op = op or 'Op' + name
    return (name, op, i.split(), o.split()) if isinstance(i, str) else (name, op, i, o)


GRAPHS = [
    ('a chain', [N('a', 'x w', 'ta'), N('b', 'ta w', 'tb'), N('c', 'tb', 'tc'), N('d', 'tc', 'o')], ['x'], ['o'], ['w']),
    ('a diamond', [N('a', 'x', 'ta'), N('b', 'ta', 'tb'), N('c', 'ta w', 'tc'), N('d', 'tb tc', 'o')], ['x'], ['o'], ['w']),
    ('a result used twice', [N('a', 'x', 'ta'), N('b', 'ta ta', 'tb'), N('c', 'tb ta', 'o')], ['x'], ['o'], []),
    ('an output used inside', [N('a', 'x', 'ta'), N('b', 'ta', 'tb'), N('c', 'tb w', 'o')], ['x'], ['o', 'tb'], ['w']),
    ('an output used inside, first', [N('a', 'x', 'ta'), N('b', 'ta w', 'tb'), N('c', 'tb ta', 'o')], ['x'], ['ta', 'o'], ['w']),
    ('several results', [N('a', 'x', 'ta tz'), N('b', 'ta', 'tb'), N('c', 'tz', 'tc'), N('d', 'tb tc', 'o')], ['x'], ['o'], []),
    ('results of which one is an output', [N('a', 'x', 'ta z'), N('b', 'ta', 'tb'), N('c', 'tb', 'o')], ['x'], ['o', 'z'], []),
    ('an unused result', [N('a', 'x', 'ta u'), N('b', 'ta', 'tb v'), N('c', 'tb', 'o')], ['x'], ['o'], []),
    ('omitted operands', [N('a', ['x', '', 'w'], ['ta']), N('b', ['ta', '', 'w'], ['tb']), N('c', ['', 'tb'], ['o'])], ['x'], ['o'], ['w']),
    ('omitted results', [N('a', ['x'], ['', 'ta']), N('b', ['ta'], ['', 'tb']), N('c', ['tb', ''], ['o', ''])], ['x'], ['o'], []),
    ('an omitted result and an omitted operand', [N('a', ['x'], ['ta', '']), N('b', ['ta', '', 'w'], ['tb']), N('c', ['tb'], ['o'])], ['x'], ['o'], ['w']),
    ('two inputs and two outputs', [N('a', 'x', 'ta'), N('b', 'y w', 'tb'), N('c', 'ta tb', 'o'), N('d', 'tb w', 'p')], ['x', 'y'], ['o', 'p'], ['w']),
    ('a constant chain', [N('a', 'x', 'ta'), N('k', 'w v', 'tk'), N('b', 'ta tk', 'tb'), N('c', 'tb v', 'o')], ['x'], ['o'], ['w', 'v']),
    ('branches that end apart', [N('a', 'x', 'ta'), N('b', 'ta', 'tb'), N('c', 'ta', 'p'), N('d', 'tb', 'td'), N('e', 'td tb', 'o')], ['x'], ['o', 'p'], []),
    ('branches of different length', [N('a', 'x', 'ta'), N('b', 'ta', 'tb'), N('c', 'tb w', 'tc'), N('d', 'tc ta', 'td'), N('e', 'td', 'o')], ['x'], ['o'], ['w']),
    ('results used together and apart', [N('a', 'x', 'ta tz'), N('c', 'ta tz', 'tc'), N('d', 'tz', 'td'), N('e', 'tc td', 'o')], ['x'], ['o'], []),
    ('several results beside the cut', [N('a', 'x', 'ta'), N('b', 'ta', 'tb'), N('f', 'ta', 'tf tg'), N('h', 'tg w', 'th'), N('e', 'tb tf th', 'o')], ['x'], ['o'], ['w']),
    ('several ends beside the cut', [N('a', 'x', 'ta'), N('b', 'ta', 'o'), N('f', 'ta', 'tf tg'), N('h', 'tg w', 'p'), N('k', 'tf', 'q')], ['x'], ['o', 'p', 'q'], ['w']),
    ('a late use of the input', [N('a', 'x', 'ta'), N('b', 'ta x', 'tb'), N('c', 'tb x', 'o')], ['x'], ['o'], []),
]


def show(t):
    if isinstance(t, tuple) and len(t) == 3 and isinstance(t[2], tuple) and isinstance(t[1], int):
        return f'{t[0]}({", ".join(show(x) for x in t[2])})' + (f'[{t[1]}]' if t[1] else '')
    return ' '.join(str(x) for x in t) if isinstance(t, tuple) else str(t)


class State:
    """a derived graph"""
    def __init__(self, d, ids):
        self.ok = isinstance(d, list) and len(d) == 8 and isinstance(d[0], list) and all(isinstance(x, list) and len(x) == 6 for x in d[0])
        if not self.ok:
            return
        self.nodes, self.prod, self.cons, self.input, self.output, self.initials, self.dynamics, self.tens = d
        strs = lambda l: isinstance(l, list) and all(isinstance(x, str) for x in l)
        self.ok = all(strs(x[4]) and strs(x[5]) and isinstance(x[0], str) and isinstance(x[2], str) for x in self.nodes) and all(strs(x) for x in d[3:])
        self.ok = self.ok and all(isinstance(m, dict) and all(isinstance(k, str) and strs(v) for k, v in m.items()) for m in (self.prod, self.cons))
        self.ids = ids

    def list(self):
        """(operator of the description, operands, results)"""
        return [(self.ids.get(n[1], n[0]), n[4], n[5]) for n in self.nodes]


def relations(s):
    """first fault of the relations of a derived graph"""
    wp, wc = {}, {}
    for n in s.nodes:
        if n[0] != n[2]:
            return f'operator {n[2]} is stored under the name {n[0]}'
        for t in n[5]:
            wp.setdefault(t, []).append(n[0])
        for t in n[4]:
            wc.setdefault(t, []).append(n[0])
    for what, got, want in (('producers', s.prod, wp), ('consumers', s.cons, wc)):
        for t, q in want.items():
            if t and set(got.get(t, ())) != set(q):
                return f'the {what} of {t} are {got.get(t)}, not {q}'
        for t, q in got.items():
            if t and q and t not in want:
                return f'{t} has {what} {q}, there are none'
    return None


def drive(p, desc, edit, dumps=('g',), cfg=(), extra=None, args=()):
    label, nodes, ins, outs, inits = desc
    pr = L.Proto()
    g = pr.graph(nodes, ins, outs, inits)
    ids = {P(f'proto:{i}'): n[0] for i, n in enumerate(nodes)}
    src = 'def main(proto, cfg):\n    g = Graph(proto, cfg)\n' + ''.join('    ' + l + '\n' for l in edit.splitlines()) + '    return [' + ', '.join(DUMP.replace('{g}', d) for d in dumps) + ']\n'
    made = [0]

    def fresh(st, tag, **fields):
        q = P(f'{tag}:{made[0]}')
        made[0] += 1
        for k, v in fields.items():
            st.over[(q, k)] = v
        return q

    def make_node(I, path, args, kw, st, fr, node):
        names = ['op_type', 'inputs', 'outputs', 'name', 'doc_string', 'domain']
        d = dict(zip(names, args))
        d.update(kw)
        q = fresh(st, 'made')
        for f, k in (('op_type', 'op_type'), ('name', 'name'), ('domain', 'domain')):
            st.over[(q, f)] = d.get(k, V(c('')))
        for f, k in (('input', 'inputs'), ('output', 'outputs')):
            items = I.known_items(d[k], st) if k in d else None
            if items is None:
                return NotImplemented
            st.over[(q, f)] = V(new_list(I, st, items, node))
        st.over[(q, 'attribute')] = V(new_list(I, st, [], node))
        return V(q)

    def make_attr(I, path, args, kw, st, fr, node):
        q = fresh(st, 'attr')
        st.over[(q, 'name')] = args[0] if args else kw.get('key')
        st.over[(q, 'value')] = args[1] if len(args) > 1 else kw.get('value')
        return V(q)
    s = {'ext:onnx.helper.make_node': make_node, 'ext:onnx.helper.make_attribute': make_attr}
    s.update(extra(pr, fresh) if extra else {})
    res = L.load(p, pr, g, cfg, src=src, extra=s)
    if len(res) != 1 or not isinstance(res[0], list) or len(res[0]) != len(dumps):
        return None
    out = [State(d, ids) for d in res[0]]
    return out if all(x.ok for x in out) else None


def new_list(I, st, items, node):
    loc = ('given', 'part', len(st.heap), 'list')
    st.heap[loc] = Obj('list', list(items), node=node)
    return ('ref', loc)


def leaf_of(desc):
    return lambda t: ('constant', t) if t in desc[4] else ('input', t)


def nodes_of(desc):
    return [(n[0], n[2], n[3]) for n in desc[1]]


def needed(nodes, outs):
    """operators an output depends on"""
    todo, out = list(outs), set()
    while todo:
        t = todo.pop()
        for n in nodes:
            if t and t in n[2] and n[0] not in out:
                out.add(n[0])
                todo += n[1]
    return out


class Judge:
    def __init__(self, ctx, p, G):
        self.ctx, self.p, self.G = ctx, p, G

    def run(self, key, desc, label, name, edit, **kw):
        fi = self.G.find_method(name)
        self.where = fi.where if fi else GRAPH
        if fi is None:
            return self.ctx.undecided(f'no {name}', GRAPH)
        self.ctx.seen(fi.where)
        self.key, self.label = key, f'{desc[0]}: {label}'
        try:
            s = drive(self.p, desc, edit, **kw)
        except Endless:
            return self.fail('does not end')
        except gs.TooLong:
            return self.ctx.undecided(f'{self.label}: too long', self.where)
        if s is None:
            self.ctx.undecided(f'{self.label}: not derived', self.where)
        return s

    def fail(self, text):
        self.ctx.fail(self.key, f'{self.label}: {text}', self.where)

    def expect(self, s, desc, nodes, outs, order=None, exact=True):
        """nodes: the operators that must be there; outs: the outputs the graph must have"""
        got = {n[0]: n for n in s.list()}
        if len(got) != len(s.nodes):
            return self.fail('an operator is there twice')
        for n in nodes:
            if n[0] not in got:
                return self.fail(f'operator {n[0]} is lost')
            if list(n[1]) != got[n[0]][1] or list(n[2]) != got[n[0]][2]:
                return self.fail(f'operator {n[0]} maps {got[n[0]][1]} to {got[n[0]][2]}, not {list(n[1])} to {list(n[2])}')
        for k in got:
            if exact and k not in {n[0] for n in nodes}:
                return self.fail(f'operator {k} should be gone')
        r = relations(s)
        if r:
            return self.fail(r)
        if s.output != list(outs):
            return self.fail(f'the graph outputs are {s.output}, not {list(outs)}')
        self.ctx.ok(self.label)


def check(ctx):
    p = gs.program()
    G = p.cls(GRAPH, 'Graph')
    if G is None:
        return ctx.undecided('no graph', GRAPH)
    J = Judge(ctx, p, G)
    remove(J)
    skip(J)
    fuse(J)
    cut(J)
    compute(J)


DANGLING = {'remove_dangling': False}


def remove(J):
    J.ctx.rule('remove_node takes away exactly the named operator (recursively: and producers whose results nobody uses), remove_subtree exactly the operator and everything computed from it, '
               'remove_dangling_nodes exactly the operators no output needs; the others keep operands and results, and the outputs that are still there stay listed')
    for desc in GRAPHS:
        nl = nodes_of(desc)
        for n in nl:
            rest = [m for m in nl if m[0] != n[0]]
            outs = [o for o in desc[3] if o not in n[2]]
            s = J.run('remove_node', desc, f'without {n[0]}', 'remove_node', f'g.remove_node({n[0]!r})')
            if s:
                J.expect(s[0], desc, rest, outs)
            s = J.run('remove_node', desc, f'without {n[0]}, recursively', 'remove_node', f'g.remove_node({n[0]!r}, recursive=True)')
            if s:
                used = {x for m in rest for x in m[1] if x} | set(desc[3])
                free = {m[0] for m in rest if not set(m[2]) & used}
                while True:
                    left = [m for m in rest if m[0] not in free]
                    used = {x for m in left for x in m[1] if x} | set(desc[3])
                    more = {m[0] for m in left if not set(m[2]) & used}
                    if not more:
                        break
                    free |= more
                gone = {n[0]} | (free - {x[0] for x in s[0].list()})
                J.expect(s[0], desc, [m for m in nl if m[0] not in gone], outs)
            after, todo = {n[0]}, list(n[2])
            while todo:
                t = todo.pop()
                for m in nl:
                    if t and t in m[1] and m[0] not in after:
                        after.add(m[0])
                        todo += m[2]
            s = J.run('remove_subtree', desc, f'without everything from {n[0]} on', 'remove_subtree', f'g.remove_subtree({n[0]!r})')
            if s:
                J.expect(s[0], desc, [m for m in nl if m[0] not in after], [o for o in desc[3] if not any(o in m[2] for m in nl if m[0] in after)])
    for desc in GRAPHS + SHAPED:
        nl = nodes_of(desc)
        for outs in [desc[3]] + [[n[2][-1]] for n in nl if n[2][-1] and n[2][-1] not in desc[3]]:
            s = J.run('dangling', desc, f'only what {" and ".join(outs)} needs', 'remove_dangling_nodes', f'g.output = {list(outs)!r}\ng.remove_dangling_nodes()', cfg=DANGLING)
            if s:
                need = needed(nl, outs)
                J.expect(s[0], desc, [m for m in nl if m[0] in need], outs)


def skip(J):
    J.ctx.rule('skip_node removes the operator and lets its users read its only activation, or leaves the graph alone; it does the former where one operand is the result of an operator '
               'and not an output; every output is still listed under its name')
    for desc in GRAPHS:
        nl = nodes_of(desc)
        leaf = leaf_of(desc)
        for n in nl:
            s = J.run('skip_node', desc, f'{n[0]} skipped', 'skip_node', f'g.skip_node({n[0]!r})')
            if not s:
                continue
            s = s[0]
            acts = [x for x in n[1] if x and x not in desc[4]]
            made = {x for m in nl for x in m[2]}
            if n[0] in [m[0] for m in s.list()]:
                if len(acts) == 1 and len(n[2]) == 1 and acts[0] in made and acts[0] not in desc[3]:
                    J.fail(f'operator {n[0]} is not skipped')
                else:
                    J.expect(s, desc, nl, desc[3])
                continue
            if len(acts) != 1 or len(n[2]) != 1:
                J.fail(f'operator {n[0]} is skipped although it has {len(acts)} activations and {len(n[2])} results')
                continue
            ref = [m for m in nl if m[0] != n[0]]
            memo = {}
            through = lambda t: tree(ref, leaf, acts[0], memo) if t == n[2][0] else leaf(t)
            want = [tree(ref, through, o) for o in desc[3]]
            got = [tree(s.list(), leaf, o) for o in desc[3]]
            bad = relations(s)
            if {m[0] for m in s.list()} != {m[0] for m in ref}:
                J.fail('other operators are gone')
            elif s.output != list(desc[3]):
                J.fail(f'the graph outputs are {s.output}, not {desc[3]}')
            elif bad:
                J.fail(bad)
            elif want != got:
                k = next(i for i in range(len(want)) if want[i] != got[i])
                J.fail(f'output {desc[3][k]} is computed as {show(got[k])}, not {show(want[k])}')
            else:
                J.ctx.ok(J.label)


def groups(nl):
    """every group of two or three operators whose fusion leaves the graph acyclic"""
    import itertools
    succ = {m[0]: {q[0] for q in nl for t in m[2] if t and t in q[1]} for m in nl}

    def reach(a):
        seen, todo = set(), [a]
        while todo:
            for b in succ[todo.pop()]:
                if b not in seen:
                    seen.add(b)
                    todo.append(b)
        return seen
    R = {m[0]: reach(m[0]) for m in nl}
    for k in (1, 2, 3):
        for gr in itertools.combinations([m[0] for m in nl], k):
            if any(R[a] & {x for b in gr if b in R[x]} for a in gr for x in R if x not in gr and x in R[a] and R[x] & set(gr)):
                continue
            if any(x not in gr and x in R[a] and R[x] & set(gr) for a in gr for x in R):
                continue
            yield gr


def fuse(J):
    J.ctx.rule('fusing a group puts one operator in its place that reads every tensor the group takes from outside and produces every result of the group that is used outside or is an output, its first operator (when it takes the place) keeping its operand positions; '
               'all other operators and all outputs stay')
    for desc in GRAPHS:
        nl = nodes_of(desc)
        for gr in groups(nl):
            inner = [m for m in nl if m[0] in gr]
            rest = [m for m in nl if m[0] not in gr]
            made = {x for m in inner for x in m[2] if x}
            reads = [x for m in inner for x in m[1] if x and x not in made]
            gives = {x for x in made if x in desc[3] or any(x in m[1] for m in rest)}
            idle = {x for x in made if not any(x in m[1] for m in nl) and x not in desc[3]}
            for name, edit, new in (('fuse_subgraph_node_names', f'g.fuse_subgraph_node_names({list(gr)!r}, "Fused", "fused")', 'fused'),
                                    ('fuse_subgraph_node_names', f'g.fuse_subgraph_node_names({list(gr)!r}, "Fused", {gr[0]!r})', gr[0]),
                                    ('fuse_postop_node_names', f'g.fuse_postop_node_names({list(gr)!r}, True)', gr[0])):
                s = J.run(name, desc, f'{" and ".join(gr)} fused', name, edit)
                if not s:
                    continue
                s = s[0]
                mine = [n for n in s.nodes if n[0] == new]
                if len(mine) != 1:
                    J.fail(f'there is no operator {new}')
                    continue
                n = mine[0]
                if n[1] in s.ids:
                    J.fail(f'{new} is still the operator it was')
                elif new == gr[0] and n[3] != 'Fused' and n[4][:len(inner[0][1])] != list(inner[0][1]):
                    J.fail(f'the operands of {new} are {n[4]}, they were {list(inner[0][1])}')
                elif (sorted(set(n[4]) - {''}) if n[3] != 'Fused' else sorted(n[4])) != sorted(set(reads)):
                    J.fail(f'the fused operator reads {n[4]}, the group {sorted(set(reads))}')
                elif not gives <= set(n[5]) or not set(n[5]) <= gives | idle or len(set(n[5])) != len(n[5]):
                    J.fail(f'the fused operator produces {n[5]}, the group {sorted(gives)}')
                elif n[3] != ('Fused' if name.endswith('graph_node_names') else inner[0][0] and desc[1][[m[0] for m in nl].index(gr[0])][1]):
                    J.fail(f'the fused operator is of type {n[3]}')
                else:
                    J.expect(s, desc, [(new, n[4], n[5])] + rest, desc[3])


def parts_summaries(pr, fresh):
    def items(I, st, v, node):
        x = I.known_items(v, st)
        return None if x is None else V(new_list(I, st, x, node))

    def nodeproto(I, f, a, kw, st, fr, node):
        me = next(iter(a[0]))
        q = fresh(st, 'part')
        for k in ('name', 'op_type', 'domain'):
            st.over[(q, k)] = I.get_attr(me, k, st, fr, node)
        for k in ('input', 'output'):
            l = items(I, st, I.get_attr(me, k, st, fr, node), node)
            if l is None:
                return NotImplemented
            st.over[(q, k)] = l
        st.over[(q, 'attribute')] = V(new_list(I, st, [], node))
        return V(q)

    def valued(kind):
        def make(I, f, a, kw, st, fr, node):
            me = next(iter(a[0]))
            q = fresh(st, kind)
            pr.kinds[q] = kind
            st.over[(q, 'name')] = I.get_attr(me, 'name', st, fr, node)
            return V(q)
        return make

    def info(I, path, a, kw, st, fr, node):
        q = fresh(st, 'ValueInfoProto')
        pr.kinds[q] = 'ValueInfoProto'
        st.over[(q, 'name')] = a[0] if a else kw['name']
        return V(q)

    def graph(I, path, a, kw, st, fr, node):
        d = dict(zip(['nodes', 'name', 'inputs', 'outputs', 'initializer', 'doc_string', 'value_info'], a))
        d.update(kw)
        q = fresh(st, 'graph')
        for f, k in (('node', 'nodes'), ('input', 'inputs'), ('output', 'outputs'), ('initializer', 'initializer'), ('value_info', 'value_info')):
            v = d.get(k)
            l = V(new_list(I, st, [], node)) if v is None or v == V(T.NONE) else items(I, st, v, node)
            if l is None:
                return NotImplemented
            st.over[(q, f)] = l
        st.over[(q, 'sparse_initializer')] = V(new_list(I, st, [], node))
        return V(q)
    return {'Node.make_nodeproto': nodeproto, 'Tensor.make_tensor_proto': valued('TensorProto'), 'Tensor.make_value_proto': valued('ValueInfoProto'),
            'ext:onnx.helper.make_graph': graph, 'ext:onnx.helper.make_tensor_value_info': info}


def cut(J):
    J.ctx.rule('cutting a graph at an operator (its activation operands to its results) gives three graphs that hold every operator exactly once; everything behind the results is in the last one and '
               'what else the operands feed in the middle one; a tensor that crosses is an output of the part producing it and an input of the part reading it, constants go with their '
               'readers, and every output of the graph is still computed the same way')
    for desc in GRAPHS:
        nl = nodes_of(desc)
        leaf = leaf_of(desc)
        for n in nl:
            acts = [x for x in n[1] if x and x not in desc[4]]
            res = [x for x in n[2] if x]
            s = J.run('get_subgraph', desc, f'cut at {n[0]}', 'get_subgraph', f'a, b, d = g.get_subgraph({acts!r}, {res!r})', dumps=('a', 'b', 'd'), extra=parts_summaries)
            if not s:
                continue
            lists = [q.list() for q in s]
            where = {}
            bad = None
            for k, l in enumerate(lists):
                for m in l:
                    if m[0] in where:
                        bad = f'operator {m[0]} is in two parts'
                    where[m[0]] = k
            lost = [m[0] for m in nl if m[0] not in where]
            if bad or lost or len(where) != len(nl):
                J.fail(bad or (f'operator {lost[0]} is in no part' if lost else 'the parts hold other operators'))
                continue

            def behind(ts):
                out, todo = set(), list(ts)
                while todo:
                    t = todo.pop()
                    for m in nl:
                        if t and t in m[1] and m[0] not in out:
                            out.add(m[0])
                            todo += m[2]
                return out
            last = behind(res)
            mid = behind(acts) - last
            want = {m[0]: 2 if m[0] in last else 1 if m[0] in mid else 0 for m in nl}
            off = [x for x in want if want[x] != where[x]]
            if off:
                J.fail(f'operator {off[0]} is in part {where[off[0]]}, not {want[off[0]]}')
                continue
            for k, q in enumerate(s):
                r = relations(q)
                made = {x for m in lists[k] for x in m[2] if x}
                for m in lists[k]:
                    orig = next(x for x in nl if x[0] == m[0])
                    if list(orig[1]) != m[1] or list(orig[2]) != m[2]:
                        r = r or f'operator {m[0]} maps {m[1]} to {m[2]}, not {list(orig[1])} to {list(orig[2])}'
                    for x in m[1]:
                        if x and x not in made and x not in q.input and x not in q.initials:
                            r = r or f'{x}, read by {m[0]}, is no input of part {k}'
                        if x in desc[4] and x not in q.initials:
                            r = r or f'constant {x} is none in part {k}'
                        if x and x not in made and x not in desc[4] and x not in desc[2] and not any(x in o.output for o in s if o is not q):
                            r = r or f'{x}, read by {m[0]} of part {k}, is an output of no other part'
                for o in desc[3]:
                    if o in made and o not in q.output:
                        r = r or f'{o} is no output of the part that produces it'
                if '' in q.input or '' in q.output:
                    r = r or f'part {k} has an input or output without a name'
                if len(set(q.input)) != len(q.input) or len(set(q.output)) != len(q.output):
                    r = r or f'part {k} lists an input or output twice'
                for x in q.input:
                    if x in made:
                        r = r or f'{x} is an input of part {k}, which produces it'
                bad = bad or r
            if bad:
                J.fail(bad)
                continue
            if [tree(sum(lists, []), leaf, o) for o in desc[3]] != [tree(nl, leaf, o) for o in desc[3]]:
                J.fail('an output is computed in another way')
            else:
                J.ctx.ok(J.label)


# operators that compute shapes: Shape and what lies between it and the shape operand of Reshape
SHAPED = [
    ('a computed shape', [N('a', 'x', 'ta'), N('s', 'ta', 'ts', 'Shape'), N('g', 'ts w', 'tg', 'Gather'), N('r', 'ta tg', 'tr', 'Reshape'), N('b', 'tr', 'o')], ['x'], ['o'], ['w']),
    ('a shape of the input', [N('s', 'x', 'ts', 'Shape'), N('g', 'ts w', 'tg', 'Gather'), N('a', 'x', 'ta'), N('r', 'ta tg', 'o', 'Reshape')], ['x'], ['o'], ['w']),
    ('a constant shape', [N('a', 'x', 'ta'), N('r', 'ta w', 'tr', 'Reshape'), N('b', 'tr', 'o')], ['x'], ['o'], ['w']),
    ('no shapes', [N('a', 'x', 'ta'), N('b', 'ta w', 'tb'), N('c', 'tb ta', 'o')], ['x'], ['o'], ['w']),
    ('an operator only its shape is taken of', [N('a', 'x', 'ta'), N('d', 'x', 'td'), N('s', 'td', 'ts', 'Shape'), N('r', 'ta ts', 'o', 'Reshape')], ['x'], ['o'], []),
    ('a chain only its shape is taken of', [N('a', 'x', 'ta'), N('c', 'ta', 'tc'), N('d', 'tc', 'td'), N('s', 'td', 'ts', 'Shape'), N('r', 'ta ts', 'o', 'Reshape')], ['x'], ['o'], []),
    ('an output its shape is taken of', [N('a', 'x', 'ta'), N('s', 'ta', 'ts', 'Shape'), N('b', 'x', 'tb'), N('r', 'tb ts', 'o', 'Reshape')], ['x'], ['o', 'ta'], []),
    ('the last output its shape is taken of', [N('e', 'x', 'te'), N('a', 'te', 'ta'), N('s', 'ta', 'ts', 'Shape'), N('b', 'x', 'tb'), N('r', 'tb ts', 'o', 'Reshape')], ['x'], ['ta', 'o'], []),
    ('a chain behind an output', [N('e', 'x', 'te'), N('a', 'te', 'ta'), N('s', 'ta', 'ts', 'Shape'), N('b', 'x', 'tb'), N('r', 'tb ts', 'o', 'Reshape')], ['x'], ['te', 'o'], []),
    ('several results of which one gives a shape', [N('a', 'x', 'ta tz'), N('s', 'tz', 'ts', 'Shape'), N('r', 'ta ts', 'o', 'Reshape')], ['x'], ['o'], []),
    ('a producer whose other result is used', [N('a', 'x', 'ta tz'), N('d', 'tz', 'td'), N('s', 'td', 'ts', 'Shape'), N('r', 'ta ts', 'o', 'Reshape')], ['x'], ['o'], []),
    ('a producer whose other result is an output', [N('a', 'x', 'p tz'), N('d', 'tz', 'td'), N('s', 'td', 'ts', 'Shape'), N('b', 'x', 'tb'), N('r', 'tb ts', 'o', 'Reshape')], ['x'], ['o', 'p'], []),
    ('two shapes', [N('a', 'x', 'ta'), N('s', 'ta', 'ts', 'Shape'), N('r', 'ta ts', 'tr', 'Reshape'), N('b', 'tr', 'tb'), N('s2', 'tb', 'tv', 'Shape'), N('r2', 'tb tv', 'o', 'Reshape')], ['x'], ['o'], []),
    ('a shape used twice', [N('a', 'x', 'ta'), N('s', 'ta', 'ts', 'Shape'), N('r', 'ta ts', 'tr', 'Reshape'), N('b', 'tr', 'tb'), N('r2', 'tb ts', 'o', 'Reshape')], ['x'], ['o'], []),
    ('a shape of several values', [N('a', 'x', 'ta'), N('s', 'ta', 'ts', 'Shape'), N('g', 'ts w', 'tg', 'Gather'), N('s2', 'x', 'tv', 'Shape'), N('h', 'tv w', 'th', 'Gather'),
                                    N('m', 'th w', 'tm', 'Mul'), N('c', 'tg tm', 'tc', 'Concat'), N('r', 'ta tc', 'o', 'Reshape')], ['x'], ['o'], ['w']),
    ('an output that is an input', [N('a', 'x', 'ta'), N('s', 'ta', 'ts', 'Shape'), N('r', 'ta ts', 'o', 'Reshape')], ['x'], ['o', 'x'], []),
    ('an output that is a constant', [N('a', 'x w', 'ta'), N('s', 'ta', 'ts', 'Shape'), N('r', 'ta ts', 'o', 'Reshape')], ['x'], ['o', 'w'], ['w']),
    ('shapes of two operators', [N('a', 'x', 'ta'), N('b', 'y', 'tb'), N('s', 'tb', 'ts', 'Shape'), N('e', 'ta ts', 'te', 'Expand'), N('s2', 'te', 'tv', 'Shape'), N('g', 'tv w', 'tg', 'Gather'),
                                  N('r', 'te tg', 'o', 'Reshape')], ['x', 'y'], ['o'], ['w']),
    ('a shape from data', [N('a', 'x', 'ta'), N('c', 'y w', 'tc'), N('r', 'ta tc', 'o', 'Reshape')], ['x', 'y'], ['o'], ['w']),
    ('an omitted operand', [N('a', ['x', '', 'w'], ['ta']), N('s', 'ta', 'ts', 'Shape'), N('r', 'ta ts', 'o', 'Reshape')], ['x'], ['o'], ['w']),
    ('omitted results', [N('a', ['x'], ['', 'ta']), N('d', ['ta', '', 'w'], ['td', '']), N('s', 'td', 'ts', 'Shape'), N('r', 'ta ts', 'o', 'Reshape')], ['x'], ['o'], ['w']),
    ('a repeated operand', [N('a', 'x', 'ta'), N('d', 'ta ta', 'td'), N('s', 'td', 'ts', 'Shape'), N('r', 'ta ts', 'o', 'Reshape')], ['x'], ['o'], []),
    ('an unused result', [N('a', 'x', 'ta u'), N('s', 'ta', 'ts', 'Shape'), N('r', 'ta ts', 'o', 'Reshape')], ['x'], ['o'], []),
]


def compute(J):
    J.ctx.rule('the compute graph holds no operator that only calculates shapes and every other operator an output needs, with its operands and results; its outputs are those of the graph, and its '
               'activations are its inputs, outputs and results')
    for desc in SHAPED:
        s = J.run('get_compute_graph', desc, 'compute graph', 'get_compute_graph', 'm = [n.name for n in g.nodemap.values() if n.shape_calc]\ncg = g.get_compute_graph()\n'
                  'cg.initials = m', dumps=('g', 'cg'))
        if not s:
            continue
        g, cg = s
        nl = nodes_of(desc)
        shape = set()
        todo = [m[2][1] for m in desc[1] if m[1] in ('Reshape', 'Expand')]
        while todo:
            t = todo.pop()
            for m in desc[1]:
                if t and t in m[3] and m[0] not in shape:
                    shape.add(m[0])
                    todo += m[2] if m[1] != 'Shape' else []
        if set(cg.initials) != shape:
            J.fail(f'the operators that calculate shapes are {sorted(shape)}, not {cg.initials}')
            continue
        need = needed([m for m in nl if m[0] not in shape], desc[3])
        got = {m[0] for m in cg.list()}
        made = {x for m in nl for x in m[2] if m[0] in shape}
        if got & shape:
            J.fail(f'{sorted(got & shape)[0]}, which calculates a shape, is in the compute graph')
            continue
        if set(cg.dynamics) - {''} != set(cg.input) | set(cg.output) | {x for m in cg.list() for x in m[2] if x}:
            J.fail(f'the activations of the compute graph are {cg.dynamics}')
            continue
        J.expect(cg, desc, [m for m in nl if m[0] in need], [o for o in desc[3] if o not in made], exact=False)
        J.label += ', the graph itself'
        J.expect(g, desc, nl, desc[3])

"""P37: whole-graph inference runs every operator once, on its own tensors and in order, from the inputs it is given."""
import math
from .. import graphsem as gs, loading as L, terms as T
from ..absint import Endless, Obj, V
from ..probe import P, c, compare, number
from . import p36_surgery as S
from .p36_surgery import N, new_list

TITLE = 'Whole-graph inference runs every operator on its own tensors'
TECHNIQUE = ('abstract interpretation of graph construction followed by whole-graph inference (all callees but the operators inlined) over an enumeration of graphs; the derived sequence of operator '
             'calls, the tensors handed over and the values handed back are compared with the description')
EXPLANATION = ('For patterns of graphs with several, shared, repeated, unused and omitted tensors, the calls shape_infer and value_infer make to their operators are derived from the source: which '
               'operators, in which order, with which tensors, by value or by shape, what the caller gets back, and which inputs are refused.')
LEVEL = 'bounded'
GRAPH = L.GRAPH
MORE = [
    ('a result every operator uses', [N('a', 'x', 'ta'), N('b', 'ta', 'tb'), N('c', 'ta tb', 'tc'), N('d', 'ta tc', 'o')], ['x'], ['o'], []),
    ('inputs and constants mixed', [N('a', 'w x v y', 'ta'), N('b', 'y ta', 'tb o'), N('c', 'v tb w', 'p')], ['y', 'x'], ['p', 'o'], ['w', 'v']),
    ('an input that is an output', [N('a', 'x', 'o')], ['x', 'y'], ['y', 'o'], []),
    ('a constant that is an output', [N('a', 'x', 'o')], ['x'], ['w', 'o'], ['w']),
    ('a used constant that is an output', [N('a', 'x w', 'o')], ['x'], ['o', 'w'], ['w']),
    ('an input both used and an output', [N('a', 'x y', 'ta'), N('b', 'ta', 'o')], ['x', 'y'], ['x', 'o'], []),
]


def npint(t):
    return int(t[1].split()[1]) if t[0] == 'param' and t[1].startswith('npint ') else None


def truth(t, st):
    if t[0] == 'cmp':
        if t[1] == '==' and [npint(x) is None and x[:2] == ('const', 'str') for x in t[2:4]] in ([True, False], [False, True]) and any(number(x, npint) is not None for x in t[2:4]):
            return False
        return compare(t, npint)
    if t[:2] == ('call', 'isinstance') and t[2][0][:2] == ('call', 'int'):
        ts = t[2][1:]
        return True if ('builtin', 'int') in ts else False if all(x[0] in ('builtin', 'ext') or x[:2] == ('const', 'str') for x in ts) else None
    return None


def name_of(st, t):
    v = st.over.get((t, 'name'))
    if v is None or len(v) != 1:
        return None
    t = next(iter(v))
    return t[2] if t[0] == 'const' else None


def only(v):
    return next(iter(v)) if v is not None and len(v) == 1 else None


class Case:
    """one graph, its inference and what was observed"""
    def __init__(self, p, desc, src, shapes=None, raising=(), cfg=(), dims=None):
        self.desc = desc
        label, nodes, ins, outs, inits = desc
        self.pr = pr = L.Proto()
        self.g = g = pr.graph(nodes, ins, outs, inits)
        shapes = shapes or {}
        self.lost = False
        pr.over.append((g, 'calls', c('')))
        self.arr = {}
        for x in list(ins) + ['nobody'] + [o for n in nodes for o in n[3] if o]:
            q = P(f'value:{x}')
            pr.kinds[q] = 'ndarray'
            self.arr[x] = q
            pr.kinds[P(f'second:{x}')] = 'ndarray'
            pr.over += [(g, 'w_' + x, P(f'second:{x}')), (P(f'second:{x}'), 'shape', [c(9), c(5)]), (P(f'second:{x}'), 'dtype', P(f'dtype:{x}')), (g, 'v_' + x, q), (q, 'shape', [c(d) for d in (shapes.get('new:' + x, (7, 5)))]), (q, 'dtype', P(f'dtype:{x}')), (P(f'dtype:{x}'), 'type', P(f'type:{x}'))]

        def record(mode):
            def f(I, f, a, kw, st, fr, node):
                names = [x.arg for x in f.node.args.args]
                d = dict(zip(names, a))
                d.update(kw)
                me = only(d[names[0]])
                parts = [mode, name_of(st, me) if me else None]
                for k in names[1:3]:
                    items = I.known_items(d[k], st)
                    ts = None if items is None else [only(x) for x in items]
                    if ts is None or None in ts:
                        self.lost = True
                        return V(T.NONE)
                    parts.append(','.join(str(name_of(st, t)) for t in ts))
                log = only(st.over.get((g, 'calls')))
                if log is None or log[0] != 'const' or None in parts:
                    self.lost = True
                    return V(T.NONE)
                st.over[(g, 'calls')] = V(c(log[2] + '|'.join(parts) + ';'))
                if parts[1] in raising:
                    return None
                if dims:
                    I_in = [self.dims(I, st, t) for t in [only(x) for x in I.known_items(d[names[1]], st)]]
                    for t, shp in zip([only(x) for x in I.known_items(d[names[2]], st)], dims[parts[1]](*I_in)):
                        for x in shp:
                            if isinstance(x, str):
                                pr.kinds[P(x)] = 'int64'
                        st.over[(t, 'shape')] = V(new_list(I, st, [V(P(x) if isinstance(x, str) else c(x)) for x in shp], node))
                elif mode == 'value':
                    for t in [only(x) for x in I.known_items(d[names[2]], st)]:
                        st.over[(t, 'numpy')] = V(self.arr.get(name_of(st, t), T.NONE))
                return V(T.NONE)
            return f

        def shape(I, f, a, kw, st, fr, node):
            t = only((list(a) + list(kw.values()))[0])
            n = name_of(st, t)
            return V(new_list(I, st, [V(c(d)) for d in shapes.get(n, (1, 4))], node))

        def zeros(I, path, a, kw, st, fr, node):
            q = P(f'zeros:{len(st.heap)}:{len(st.over)}')
            pr.kinds[q] = 'ndarray'
            st.over[(q, 'shape')] = a[0] if a else kw.get('shape')
            st.over[(q, 'dtype')] = V(P('dtype:zeros'))
            return V(q)
        def copied(I, path, a, kw, st, fr, node):
            t = only(a[0])
            if t is None or I.class_of(t) is None:
                return NotImplemented
            q = ('inst', I.class_of(t).name, 'copy', len(st.over), 0)
            I.inst_class[q] = I.class_of(t)
            for (o, f), v in list(st.over.items()):
                if o == t:
                    st.over[(q, f)] = v
            return V(q)
        def exact(how):
            def f(I, path, a, kw, st, fr, node):
                n = number(only(a[0]) or T.TOP, lambda t: None)
                return NotImplemented if n is None else V(c(how(n)))
            return f
        extra = {'ext:math.ceil': exact(math.ceil), 'ext:math.floor': exact(math.floor), 'Node.shape_infer': record('shape'), 'Node.value_infer': record('value'), 'shape_of_tensor': shape, 'type_of_tensor': lambda *a: V(P('declared')),
                 'timer.stop': lambda *a: V(c(0)), 'ext:numpy.zeros': zeros, 'ext:copy.deepcopy': copied}
        self.res = L.load(p, pr, g, cfg, src=src, extra=extra, truth=truth)

    def dims(self, I, st, t):
        items = I.known_items(st.over.get((t, 'shape'), V()), st)
        ds = None if items is None else [only(x) for x in items]
        if ds is None or any(d is None or d[0] not in ('const', 'param') for d in ds):
            self.lost = True
            return [0] * 8
        return [d[2] if d[0] == 'const' else d[1] for d in ds]

    def calls(self, log):
        return [x.split('|') for x in log.split(';') if x]


def check(ctx):
    p = gs.program()
    G = p.cls(GRAPH, 'Graph')
    if G is None:
        return ctx.undecided('no graph', GRAPH)
    order(ctx, p, G)
    refused(ctx, p, G)
    dumped(ctx, p, G)


def derive(ctx, p, fi, label, key, desc, src, **kw):
    if fi is None:
        return ctx.undecided(f'{label}: the entry point is not there', GRAPH)
    ctx.seen(fi.where)
    try:
        k = Case(p, desc, src, **kw)
    except Endless:
        return ctx.fail(key, f'{label}: does not end', fi.where)
    except gs.TooLong:
        return ctx.undecided(f'{label}: too long', fi.where)
    r = k.res[0] if len(k.res) == 1 else None
    if k.lost or not isinstance(r, list):
        return ctx.undecided(f'{label}: not derived', fi.where)
    return r, k


def shape_nodes(desc):
    shape, todo = set(), [m[2][1] for m in desc[1] if m[1] in ('Reshape', 'Expand')]
    while todo:
        t = todo.pop()
        for m in desc[1]:
            if t and t in m[3] and m[0] not in shape:
                shape.add(m[0])
                todo += m[2] if m[1] != 'Shape' else []
    return shape


def order(ctx, p, G):
    ctx.rule('shape_infer and value_infer run every operator once, after the operators it reads from, with its own operands and results in their positions; an operator is evaluated by value when a shape '
             'depends on its result (value_infer: always) and by shape otherwise; value_infer hands back the values of the outputs in their order')
    for desc, what, cfg, again in [(d, w, f, '') for d in S.GRAPHS + S.SHAPED + MORE for w in ('shape_infer', 'value_infer') for f in ({}, {'constant_folding': True})] + [
            (d, w, {}, v) for d in S.GRAPHS[:2] + MORE[:2] for w in ('shape_infer', 'value_infer') for v in ('shape_infer', 'value_infer')]:
        if not cfg or not any(set(n[2]) <= set(desc[4]) | {''} for n in desc[1]):
            fi = G.find_method(what)
            if fi is None:
                ctx.undecided(f'no {what}', GRAPH)
                continue
            label = f'{desc[0]}: {what}' + (', constants folded' if cfg else '')
            feed = '{' + ', '.join(f"'{x}': proto.v_{x}" for x in desc[2]) + ", 'nobody': proto.v_nobody}"
            first = again or what
            if again:
                label += f' after {again} of other inputs'
                again = '    proto.calls = ""\n    r = g.' + what + '({' + ', '.join(f"'{x}': proto.w_{x}" for x in desc[2]) + '})\n'
            src = (f'def main(proto, cfg):\n    g = Graph(proto, cfg)\n    r = g.{first}({feed})\n{again}'
                   '    return [proto.calls, r, [[t, g.tensormap[t].numpy, g.tensormap[t].shape, g.tensormap[t].dtype] for t in g.input], g.valid_shape, [o for o in g.output if o not in g.tensormap]]\n')
            d = derive(ctx, p, fi, label, what, desc, src, cfg=cfg)
            if d is None:
                continue
            r, k = d
            if not isinstance(r[0], str):
                ctx.undecided(f'{label}: not derived', fi.where)
                continue
            bad = judge(desc, what, k, r, bool(again))
            if bad:
                ctx.fail(what, f'{label}: {bad}', fi.where)
            else:
                ctx.ok(label)


def judge(desc, what, k, r, again):
    calls = k.calls(r[0])
    shape = shape_nodes(desc)
    have = set(desc[2]) | set(desc[4]) | {''}
    seen = set()
    byname = {n[0]: n for n in desc[1]}
    for mode, n, i, o in calls:
        if n not in byname:
            return f'runs {n}, which is no operator of the graph'
        if n in seen:
            return f'runs {n} twice'
        seen.add(n)
        d = byname[n]
        if i.split(',') != list(d[2]) or o.split(',') != list(d[3]):
            return f'hands {i} -> {o} to {n}, which reads {",".join(d[2])} and makes {",".join(d[3])}'
        if not set(d[2]) <= have:
            return f'runs {n} before what it reads'
        have |= set(d[3])
        want = 'value' if what == 'value_infer' or n in shape else 'shape'
        if mode != want:
            return f'evaluates {n} by {mode}'
    left = [n for n in byname if n not in seen]
    if left:
        return f'does not run {left[0]}'
    if r[4]:
        return f'there is no tensor for the output {r[4]}'
    if what == 'value_infer':
        if not isinstance(r[1], list) or len(r[1]) != len(desc[3]) or any(v != (P(f'second:{o}') if again and o in desc[2] else k.arr[o]) for v, o in zip(r[1], desc[3]) if o in k.arr):
            return f'hands back {r[1]} for the outputs {desc[3]}'
    elif r[3] is not True:
        return f'the shapes are marked {r[3]}'
    for t, v, s, d in r[2]:
        if v != (P(f'second:{t}') if again else k.arr[t]) or s != [9 if again else 7, 5] or d != P(f'type:{t}'):
            return f'input {t} holds {v} of shape {s} and type {d}'
    return None


CHAIN = ('a chain', [N('a', 'x y w', 'ta'), N('b', 'ta', 'tb'), N('c', 'tb', 'o')], ['x', 'y'], ['o'], ['w'])


def refused(ctx, p, G):
    ctx.rule('shape_infer refuses an input whose declared shape has an unknown size, unless the caller gives that input, and does not call the shapes valid then; it accepts every other')
    fi = G.find_method('shape_infer')
    for t in ('x', 'y'):
        for what, shape, bad in (('a named size', (1, 'n'), True), ('an unknown size', (-1, 4), True), ('a named first size', ('n', 4), True), ('known sizes', (2, 3), False), ('an empty size', (0, 3), False), ('no axes', (), False)):
            for given in (False, True):
                label = f'{t} with {what}' + (', given by the caller' if given else '')
                call = f"g.shape_infer({{'{t}': proto.v_{t}}})" if given else 'g.shape_infer()'
                src = (f"def main(proto, cfg):\n    g = Graph(proto, cfg)\n    g.valid_shape = True\n    r = 'done'\n    try:\n        {call}\n    except ValueError:\n        r = 'refused'\n"
                       '    return [r, g.valid_shape, proto.calls]\n')
                d = derive(ctx, p, fi, label, 'refused', CHAIN, src, shapes={t: shape})
                if d is None:
                    continue
                r = d[0]
                want = 'refused' if bad and not given else 'done'
                if r[0] not in ('refused', 'done') or not isinstance(r[1], bool):
                    ctx.undecided(f'{label}: not derived', fi.where)
                elif r[0] != want or r[1] is not (want == 'done') or (want == 'refused' and r[2]):
                    ctx.fail('refused', f'{label}: {r[0]}, shapes marked {"valid" if r[1] else "not valid"}', fi.where)
                else:
                    ctx.ok(label)


def dumped(ctx, p, G):
    ctx.rule('a tensor added for dumping is handed back by value_infer after the outputs, once, and one the graph does not have is not')
    fi = G.find_method('add_dump_tensors')
    desc = ('several results', [N('a', 'x', 'ta tz'), N('b', 'ta', 'tb'), N('c', 'tz tb', 'o'), N('d', 'tb', 'p')], ['x'], ['o', 'p'], [])
    for names in (['tb'], ['tz', 'ta'], ['o'], ['tb', 'tb'], ['none', 'tb'], ['p', 'ta', 'o', 'tb']):
        src = f"def main(proto, cfg):\n    g = Graph(proto, cfg)\n    g.add_dump_tensors({names!r})\n    return [g.value_infer({{'x': proto.v_x}}), g.output]\n"
        d = derive(ctx, p, fi, f'dump {names}', 'dump', desc, src)
        if d is None:
            continue
        r, k = d
        want = list(desc[3]) + [n for i, n in enumerate(names) if n not in desc[3] and n not in names[:i] and n != 'none']
        if not isinstance(r[0], list):
            ctx.undecided(f'dump {names}: not derived', fi.where)
        elif r[1] != want or r[0] != [k.arr[o] for o in want]:
            ctx.fail('dump', f'dump {names}: outputs {r[1]}, handed back {r[0]}', fi.where)
        else:
            ctx.ok(f'dump {names}')

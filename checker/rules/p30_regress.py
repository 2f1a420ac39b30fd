"""P30: the formulas shape_regress fits give the sizes inference gives, wherever sizes depend linearly on one variable each."""
from .. import graphsem as gs
from ..probe import number
from .p36_surgery import N
from .p37_whole import GRAPH, derive, npint

TITLE = 'Regressed shape formulas reproduce true shape inference'
TECHNIQUE = ('abstract interpretation of shape_regress and the shape engine (all callees but the operators inlined) over an enumeration of graphs whose sizes are exact linear functions of a variable; '
             'the sizes the derived formulas give are compared with the linear functions at sizes outside the sampled ones')
EXPLANATION = ('The descriptors and formulas of the shape engine are derived from the source for graphs whose sizes are multiples, exact fractions, sums or offsets of one variable each (several variables, '
               'operators with several operands and results, transposed and fixed sizes, sizes read from arrays) and evaluated below, between and above the sampled values. Sizes that depend on two '
               'variables at once, or on a rounding the samples do not show, are outside the claim.')
LEVEL = 'bounded'

# operators whose results' sizes are affine in those of their operands
DIMS = {
    'same': lambda x, *r: [x],
    'half': lambda x, *r: [x[:-1] + [x[-1] // 2]],
    'double': lambda x, *r: [x[:-1] + [x[-1] * 2]],
    'halfmore': lambda x, *r: [x[:-1] + [x[-1] // 2 + 3]],
    'up': lambda x, *r: [x[:-1] + [(x[-1] + 1) // 2]],
    'pad': lambda x, *r: [x[:-1] + [x[-1] + 6]],
    'trim': lambda x, *r: [x[:-1] + [x[-1] - 2]],
    'triple': lambda x, *r: [x[:-1] + [x[-1] * 3]],
    'spread': lambda x, *r: [[x[0] * 4, x[-1] + 1, x[-1]]],
    'swap': lambda x, *r: [x[::-1]],
    'join': lambda x, y, *r: [x[:-1] + [x[-1] + y[-1]]],
    'both': lambda x, *r: [x, x[:-1] + [x[-1] + 3]],
    'fixed': lambda x, *r: [[2, 5]],
    'numpy': lambda x, *r: [['npint 2', 'npint 5']],
    'first': lambda x, *r: [x[:1]],
    'scalar': lambda x, *r: [[]],
}
# operators (name is the operator's kind with a number), input descriptors, ranges
MODELS = [
    ('one size', [N('same1', 'x', 'a'), N('double1', 'a', 'o')], {'x': [3, 'h']}, {'h': (4, 64)}, ['o']),
    ('two sizes', [N('pad1', 'x', 'a'), N('swap1', 'a', 'b'), N('double1', 'b', 'o')], {'x': ['h', 'w']}, {'h': (4, 64), 'w': (8, 32)}, ['o']),
    ('sizes apart', [N('double1', 'x', 'a'), N('pad1', 'y', 'b'), N('same1', 'a', 'o'), N('swap1', 'b', 'p')], {'x': [1, 'h'], 'y': ['w', 'h']}, {'h': (4, 64), 'w': (8, 32)}, ['o', 'p']),
    ('halved', [N('half1', 'x', 'a'), N('half2', 'a', 'b'), N('double1', 'b', 'o')], {'x': ['n', 'h']}, {'n': (1, 8), 'h': (32, 256)}, ['o']),
    ('joined', [N('double1', 'x', 'a'), N('join1', 'x a', 'b'), N('join2', 'b x', 'o')], {'x': [1, 'h']}, {'h': (4, 64)}, ['o']),
    ('joined the other way', [N('double1', 'x', 'a'), N('join1', 'a x', 'b'), N('join2', 'b a', 'o')], {'x': [1, 'h']}, {'h': (4, 64)}, ['o']),
    ('joined with padding', [N('pad1', 'x', 'a'), N('join1', 'a x', 'b'), N('trim1', 'b', 'o')], {'x': ['n', 'h']}, {'h': (4, 64), 'n': (1, 9)}, ['o']),
    ('tripled and halved', [N('double1', 'x', 'a'), N('triple1', 'a', 'b'), N('half1', 'b', 'o')], {'x': ['n', 'h']}, {'h': (4, 64), 'n': (1, 9)}, ['o']),
    ('spread over axes', [N('spread1', 'x', 'a'), N('swap1', 'a', 'b'), N('double1', 'b', 'c'), N('trim1', 'a', 'o')], {'x': ['n', 'h']}, {'n': (1, 9), 'h': (6, 64)}, ['o', 'c']),
    ('one size on two axes', [N('pad1', 'x', 'a'), N('swap1', 'a', 'b'), N('pad2', 'b', 'c'), N('double1', 'x', 'o')], {'x': ['h', 'h']}, {'h': (6, 64)}, ['o', 'c']),
    ('a size of its own name', [N('double1', 'x', 'a'), N('swap1', 'y', 'b'), N('pad1', 'b', 'o')], {'x': ['n', 'seq'], 'y': ['seq', 4]}, {'seq': (6, 64), 'n': (2, 4)}, ['o', 'a']),
    ('several results', [N('both1', 'x', 'a b'), N('swap1', 'b', 'c'), N('both2', 'a', 'o p')], {'x': ['n', 'h']}, {'n': (2, 8), 'h': (4, 64)}, ['o', 'p', 'c']),
    ('fixed sizes', [N('fixed1', 'x', 'a'), N('first1', 'x', 'b'), N('scalar1', 'x', 'c'), N('same1', 'a', 'o')], {'x': ['n', 'h']}, {'n': (2, 8), 'h': (4, 64)}, ['o', 'b', 'c']),
    ('sizes read from an array', [N('numpy1', 'x', 'a'), N('double1', 'x', 'b'), N('swap1', 'a', 'o')], {'x': ['n', 'h']}, {'n': (2, 8), 'h': (4, 64)}, ['o', 'b']),
    ('three sizes', [N('double1', 'x', 'a'), N('swap1', 'y', 'b'), N('double2', 'b', 'c'), N('pad1', 'c', 'd'), N('swap2', 'a', 'o')], {'x': ['n', 'h'], 'y': ['n', 'k']},
     {'k': (2, 10), 'h': (4, 64), 'n': (3, 33)}, ['o', 'd']),
    ('formulas of three sizes', [N('double1', 'x', 'a'), N('pad1', 'a', 'b'), N('swap1', 'b', 'c'), N('triple1', 'c', 'd'), N('pad2', 'd', 'e'), N('triple2', 'y', 'o'), N('pad3', 'o', 'p')],
     {'x': ['n', 'h'], 'y': [2, 'k']}, {'h': (4, 64), 'n': (3, 33), 'k': (2, 10)}, ['e', 'p']),
    ('neighbouring sizes', [N('double1', 'x', 'a'), N('pad1', 'a', 'o')], {'x': ['n', 'h']}, {'h': (4, 5), 'n': (1, 2)}, ['o']),
    ('half and more', [N('halfmore1', 'x', 'a'), N('double1', 'a', 'o')], {'x': ['n', 'h']}, {'h': (4, 64), 'n': (1, 2)}, ['o']),
    ('rounded down', [N('half1', 'x', 'a'), N('same1', 'a', 'o')], {'x': ['n', 'seq']}, {'seq': (5, 65), 'n': (1, 2)}, ['o']),
    ('rounded up', [N('up1', 'x', 'a'), N('same1', 'a', 'o')], {'x': ['n', 'seq']}, {'seq': (5, 65), 'n': (1, 2)}, ['o']),
    ('a smallest range', [N('double1', 'x', 'a'), N('pad1', 'a', 'o')], {'x': ['n', 'h']}, {'n': (1, 3), 'h': (4, 6)}, ['o']),
]
AT = [{'seq': 9, 'h': 48, 'w': 12, 'n': 5, 'k': 7}, {'seq': 70, 'h': 128, 'w': 100, 'n': 40, 'k': 90}, {'seq': 6, 'h': 16, 'w': 9, 'n': 3, 'k': 4}]


def sizes(nodes, desc, at):
    t = {k: [at.get(d, d) if isinstance(d, str) else d for d in v] for k, v in desc.items()}
    for name, op, i, o in nodes:
        for x, s in zip(o, DIMS[name.rstrip('0123456789')](*[t[y] for y in i])):
            t[x] = s
    return t


def check(ctx):
    p = gs.program()
    G = p.cls(GRAPH, 'Graph')
    if G is None:
        return ctx.undecided('no graph', GRAPH)
    ctx.rule('where every size is an affine function of one variable, the engine shape_regress builds gives, for any values of the variables and after update_variables, the sizes inference gives; '
             'the inputs it generates have the sizes of their descriptors')
    fi = G.find_method('shape_regress')
    for label, nodes, idesc, ranges, outs in MODELS:
        desc = (label, nodes, list(idesc), outs, [])
        ts = list(idesc) + [x for n in nodes for x in n[3]]
        rows = ['    out = []']
        for at in AT:
            rows += [f'    e.update_variable({k!r}, {at[k]})' for k in ranges]
            rows += ['    e.update_variables()', f'    m = e.generate_input()', f'    out.append([[size(e, t) for t in {ts!r}], [m[t].shape for t in {list(idesc)!r}]])']
        src = f'def main(proto, cfg):\n    def size(e, t):\n        try:\n            return e.get_tensorshape(t)\n        except KeyError:\n            return None\n    g = Graph(proto, cfg)\n    e = g.shape_regress({idesc!r}, {ranges!r})\n' + '\n'.join(rows) + '\n    return out\n'
        d = derive(ctx, p, fi, label, 'regress', desc, src, dims={n[0]: DIMS[n[0].rstrip('0123456789')] for n in nodes})
        if d is None:
            continue
        for at, r in zip(AT, d[0]):
            want = sizes(nodes, idesc, at)
            if not isinstance(r, list) or len(r) != 2 or not all(isinstance(x, list) and len(x) == n for x, n in zip(r, (len(ts), len(idesc)))):
                ctx.undecided(f'{label}: not derived', fi.where)
                break
            for t, got in list(zip(ts, r[0])) + list(zip(idesc, r[1])):
                if isinstance(got, list):
                    got = [number(x, npint) if isinstance(x, tuple) else x for x in got]
                if got is None:
                    ctx.fail('regress', f'{label}: {t} has no sizes, a size is taken for a variable', fi.where)
                elif not isinstance(got, list) or not all(isinstance(x, (int, float)) for x in got):
                    ctx.undecided(f'{label}: the sizes of {t} are not derived', fi.where)
                elif got != [int(x.split()[1]) if isinstance(x, str) else x for x in want[t]]:
                    ctx.fail('regress', f'{label}: {t} has the sizes {got} for {at}, not {want[t]}', fi.where)
                else:
                    ctx.ok(f'{label}: {t} at {at}')

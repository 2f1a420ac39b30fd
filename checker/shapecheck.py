"""Comparison of inferred output dimensions with the formulas of the operator's definition, in pinned configurations."""
from . import formula as F
from . import numsem, sweep
from . import terms as T
from .opsem import tin, tout, dim
from .terms import const, is_const, cval


class Bc:
    """one dimension of a broadcast result"""

    def __init__(self, *names):
        self.names = names


def bshape(*ranks, first=0):
    """expected dims of the broadcast of inputs first.. with these ranks"""
    n = max(ranks)
    out = []
    for k in range(n):
        ops = [f'{"abcdefgh"[first + i]}{k - n + r}' for i, r in enumerate(ranks) if k - n + r >= 0]
        out.append(Bc(*ops) if len(ops) > 1 else ops[0])
    return out


class Case:
    def __init__(self, op, ranks, expect, attrs=None, values=None, nout=1, shapes=None, note='', method='shape_infer', **kw):
        self.op, self.ranks, self.expect, self.attrs, self.values, self.nout, self.shapes, self.note, self.method = \
            op, ranks, expect, attrs or {}, values or {}, nout, shapes or {}, note, method
        self.kw = kw

    def tag(self):
        a = ','.join(f'{k}={v}' for k, v in sorted(self.attrs.items()))
        v = ','.join(f'in{k}={x}' for k, x in sorted(self.values.items()))
        return f'ranks {self.ranks}' + (f' {a}' if a else ' no attributes') + (f' {v}' if v else '') + (f' {self.note}' if self.note else '')


def execute(case, method=None):
    s = sweep.sem()
    c = s.ops.get(case.op)
    if c is None:
        return None, None
    ranks = {i: r for i, r in enumerate(case.ranks) if r is not None}
    shapes = {i: [x if isinstance(x, tuple) else const(x) if isinstance(x, int) else F.parse(x) for x in sh] for i, sh in case.shapes.items()}
    for i in shapes:
        ranks.pop(i, None)
    vals = dict(case.values)
    for i, v in vals.items():
        if i not in shapes and isinstance(v, list):
            d, x = [], v
            while isinstance(x, list):
                d.append(const(len(x)))
                x = x[0] if x else None
            shapes[i] = d
            ranks.pop(i, None)
    if 'outshapes' in case.kw:
        case.kw['outshapes'] = {i: [const(x) if isinstance(x, int) else F.parse(x) for x in sh] for i, sh in case.kw['outshapes'].items()}
    r = s.S.run(c, method or case.method, nin=len(case.ranks), nout=case.nout, ranks=ranks, shapes=shapes, values=vals, attrs=case.attrs, ints=True, **case.kw)
    return c, r


def leaf_shape(case, r):
    def f(t):
        if t[0] == 'attr' and t[2] == 'numpy' and t[1] in (r.ins or ()):
            i = r.ins.index(t[1])
            v = r.before.get((t[1], 'shape'))
            if v is not None and len(v) == 1:
                items = r.I.known_items(v, r.state)
                if items is not None and all(len(x) == 1 for x in items):
                    return [next(iter(x)) for x in items]
            return None
        if t[0] == 'call' and t[1] == 'ndarray':
            d, x = [], t[2][0]
            while x[0] == 'list':
                d.append(const(len(x[1])))
                if not x[1]:
                    break
                x = x[1][0]
            return d
        return None
    return f


def alternatives(case, r, k):
    """list of dim lists the inference may store for output k, or None when some alternative is not understood; 'unset' when nothing is stored"""
    s = sweep.sem()
    if r.state is None:
        return 'never'
    ts = s.S.fact_terms(r, tout(k), 'shape')
    if ts is None:
        return 'unset'
    out = []
    lf = leaf_shape(case, r)
    for t in ts:
        t = numsem.strip_copy(t)
        if t[0] == 'call' and t[1] in ('ndarray', 'tuple', 'list') and t[2]:
            t = t[2][0]
        if t[0] == 'attr' and t[2] == 'shape' and t[1] in r.ins:
            sh = lf(T.attr(t[1], 'numpy'))
            if sh is None:
                return None
            out.append([F.canon(x) for x in sh])
            continue
        if t[0] == 'const' and isinstance(t[2], tuple):
            out.append([const(x) for x in t[2]])
            continue
        if t[0] in ('list', 'tuple'):
            out.append([F.canon(x) for x in t[1]])
            continue
        if t[0] == 'call' and t[1] == 'shapeof' and t[2]:
            sh = F.array_shape(t[2][0], lf)
            if sh is None:
                return None
            out.append([F.canon(x) for x in sh])
            continue
        return None
    return out


def accept(e, extra):
    """set of accepted canonical terms for one dimension"""
    if isinstance(e, Bc):
        ts = [F.canon(F.parse(n, **extra)) for n in e.names]
        return {F._ext('max', ts)} | set(ts), (F._ext('max', ts), set(ts))
    es = e if isinstance(e, (set, list)) else [e]
    out = set()
    for x in es:
        t = F.canon(F.parse(x, **extra))
        out |= {t, F._floor(t)}
    return out, None


def judge(case, r, k, expect, extra=None):
    """('ok'|'bad'|'undecided', message)"""
    alts = alternatives(case, r, k)
    if alts == 'never':
        return 'bad', 'inference never returns normally'
    if alts == 'unset':
        return 'bad', 'the shape is not set'
    if alts is None or not alts:
        return 'undecided', 'the shape is not a list of formulas'
    extra = extra or {}
    acc = [accept(e, extra) for e in expect]
    und = None
    for dims in alts:
        if len(dims) != len(expect):
            return 'bad', f'{len(dims)} dimensions {_show(dims)} instead of {len(expect)}'
        for i, (d, (ok, bc)) in enumerate(zip(dims, acc)):
            if d in ok or any(F.equal(d, x) for x in ok):
                continue
            if not F.decided(d):
                und = f'dimension {i} is {T.show(d)}'
                continue
            want = ' or '.join(sorted(T.show(x) for x in ok))
            return 'bad', f'dimension {i} is {T.show(d)} instead of {want}'
    if und:
        return 'undecided', und
    # broadcast dimensions given by selection: every combination must be possible
    bcs = [(i, b) for i, (_, b) in enumerate(acc) if b is not None]
    for i, (m, ts) in bcs:
        seen = {dims[i] for dims in alts}
        if m in seen or len(ts) == 1:
            continue
        if not ts <= seen:
            miss = sorted(T.show(x) for x in ts - seen)
            return 'bad', f'dimension {i} is never {", ".join(miss)}, so it is wrong when the other operand has extent 1 there'
    sel = [i for i, (m, ts) in bcs if m not in {d[i] for d in alts} and len(ts) > 1]
    if len(sel) > 1:
        i, j = sel[0], sel[1]
        pairs = {(d[i], d[j]) for d in alts}
        if len(pairs) < len({p[0] for p in pairs}) * len({p[1] for p in pairs}):
            return 'bad', f'dimensions {i} and {j} always come from the same operand ({_show(alts[0])}); broadcasting takes the larger extent per dimension'
    return 'ok', _show(alts[0])


def _show(dims):
    return '[' + ', '.join(T.show(d) for d in dims) + ']'


def run_cases(ctx, cases):
    seen = set()
    for case in cases:
        c, r = execute(case)
        if c is None:
            continue
        seen.add(case.op)
        m = c.find_method(case.method)
        ctx.seen(f'{m.cls.name}.{case.method}')
        outs = case.expect if case.nout > 1 and isinstance(case.expect[0], (list, type(None))) else [case.expect]
        for k, e in enumerate(outs):
            if e is None:
                continue
            v, msg = judge(case, r, k, e)
            w = sweep.where(c, case.method)
            what = f'{case.op} ({case.tag()})' + (f' output {k}' if case.nout > 1 else '')
            if v == 'ok':
                ctx.ok(f'{what}: {msg}')
            elif v == 'undecided':
                ctx.undecided(f'{what}: {msg}', w)
            else:
                ctx.fail(f'{case.op} {case.method} {case.tag()} out{k}', f'{what}: {msg}', w)
    ctx.count('configurations', len(cases))
    ctx.floor('operators with a configuration', len(seen), max(1, int(0.7 * len({c.op for c in cases}))))

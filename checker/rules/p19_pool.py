"""P19: the runtime memory pool never hands out memory outside itself or outside the asked tensor's block."""
import itertools

from .. import graphsem as gs, probe, runtime as R, terms as T
from ..absint import V
from ..probe import P, c, plain, tup

TITLE = 'The runtime memory pool never hands out memory outside itself'
TECHNIQUE = ('abstract interpretation of the pool on tensors that are places (buffer, first byte, byte count), element types and shapes; every view it hands out is compared '
             'with the block the plan gives the tensor, over enumerated plans, shapes, element types and histories of requests, fills and moves')
EXPLANATION = ('The pool class is interpreted on concrete plans: for every kind of requested shape (flat, exact, smaller, larger, empty, inferred, negative) the view handed out '
               'must start at the tensor\'s block in the current pool buffer, span exactly the asked elements and stay inside the block; what does not fit, and every unknown '
               'tensor, must be refused. Plans that leave the pool must be refused at construction. After moves and fills the views must come from the buffer the pool then owns.')
LEVEL = 'bounded'
POOL = 'inference.memory_pool'
PLAN = {'z': [0, 8], 'a': [8, 16], 'b': [32, 24], 'e': [56, 8]}
TOTAL = 64


def drive(p, src, args, w=None, seconds=30, **kw):
    w = w or R.Torch()
    mod = p.modules[POOL]
    fi = probe.fn(mod, src)
    s = w.summaries()
    s.update(kw.pop('more', {}))
    r = gs.run(None, fi, args, closed=R.Insts('MemoryPool'), unroll=64, strict_keys=True, exact_try=True, track_guards=False, nonnull=R.Nonnull(w), ext_hook=R.ext, item_hook=w.item,
               summaries=s, seconds=seconds, over=getattr(w, 'over', []), **kw)
    return w, r


def value(w, r):
    if r.state is None:
        return 'raises'
    x = plain(R.one(r.value) or T.TOP, r.state)
    return x


def mem(plan):
    return {c(k): [c(v[0]), c(v[1])] for k, v in plan.items()}


def place(m, buf):
    """a view as (in the current buffer, first byte, bytes, dtype, shape)"""
    return m.start, m.nbytes, m.dtype, list(m.shape)


# requests: (label, python source of the expression, tensor, asked shape or None)
def requests(e):
    """every kind of shape that can be asked for, with element size e"""
    out = []
    for t, (off, size) in PLAN.items():
        n = size // e
        shapes = [None, [], [n], [1], [0], [n + 1], [n * 4], [1, n], [n, 1], [1, 1, 1], [-1], [-1, 1], [2, -1], [-1, -4], [3, 0], [-n], [10 ** 6], [n, n], [2, 2], [1, 3]]
        seen = []
        for s in shapes:
            if s not in seen:
                seen.append(s)
                out.append((t, s))
    out += [('nobody', None), ('nobody', [1]), ('', None)]
    return out


def want(t, shape, e):
    """the view that has to be handed out, or 'raises'"""
    if t not in PLAN:
        return 'raises'
    off, size = PLAN[t]
    if shape is None:
        return 'raises' if size % e else (off, size, [size // e])
    if any(d < 0 for d in shape) or R.numel(shape) * e > size:
        return 'raises'
    return off, R.numel(shape) * e, list(shape)


def check_requests(ctx, p):
    ctx.rule('get(t, shape) is the view of exactly numel(shape) elements at the first byte of the block of t in the current pool buffer, and is refused when t is not planned, '
             'a dimension is negative or the block is too small')
    forms = [('get, shape by name', 'q.get(t, shape=s)', lambda s: True, list), ('get, shape by place', 'q.get(t, s)', lambda s: True, list),
             ('get, shape as a tuple', 'q.get(t, s)', lambda s: s is not None, tuple), ('index', 'q[t]', lambda s: s is None, list),
             ('get_batch', 'q.get_batch(t, s[0], s[1:])', lambda s: s is not None and len(s) > 1, list), ('get_batch without element shape', 'q.get_batch(t, s[0])', lambda s: s is not None and len(s) == 1, list)]
    for dt in ('float32', 'float16', 'float64', 'int8'):
        e = R.SIZES[dt]
        for t, s in requests(e):
            for label, expr, applies, kind in forms:
                if not applies(s) or dt != 'float32' and label not in ('get, shape by name', 'index'):
                    continue
                src = f'def main(mem, n, t, s):\n    q = MemoryPool(mem, n, torch.{dt}, "cpu")\n    return ({expr}, q.pool)\n'
                arg = T.NONE if s is None else tup(*[c(d) for d in s]) if kind is tuple else [c(d) for d in s]
                try:
                    w, r = drive(p, src, {'mem': mem(PLAN), 'n': c(TOTAL), 't': c(t), 's': arg})
                except gs.TooLong:
                    ctx.undecided(f'{label} of {t} {s}: too long', POOL)
                    continue
                judge(ctx, f'{label}:{dt}', f'{expr.replace("t,", repr(t) + ",").replace("[t]", f"[{t!r}]")} with shape {s} of a {dt} pool, block {PLAN.get(t)}', w, value(w, r), want(t, s, e), dt, POOL)


def judge(ctx, key, text, w, x, exp, dt, where):
    if x == 'raises':
        if exp == 'raises':
            ctx.ok(f'{text}: refused')
        else:
            ctx.fail(f'refused:{key}', f'{text} is refused although it fits', where)
        return
    m, q = (w.of(x[0]), w.of(x[1])) if isinstance(x, (list, tuple)) and len(x) == 2 and all(isinstance(y, tuple) for y in x) else (None, None)
    if m is None or q is None:
        ctx.undecided(f'{text}: {str(x)[:120]}', where)
        return
    if exp == 'raises':
        ctx.fail(f'accepted:{key}', f'{text} is handed out as bytes {m.start}..{m.start + m.nbytes} instead of being refused', where)
        return
    off, n, shape = exp
    if m.buf != q.buf:
        ctx.fail(f'buffer:{key}', f'{text} is handed out in another buffer than the pool\'s', where)
    elif m.start != q.start + off or m.nbytes != n:
        ctx.fail(f'place:{key}', f'{text} is handed out as bytes {m.start}..{m.start + m.nbytes} instead of {off}..{off + n}', where)
    elif m.dtype != dt:
        ctx.fail(f'dtype:{key}', f'{text} is handed out as {m.dtype}', where)
    elif list(m.shape) != shape:
        ctx.fail(f'shape:{key}', f'{text} is handed out with shape {list(m.shape)} instead of {shape}', where)
    else:
        ctx.ok(f'{text}: bytes {off}..{off + n}')


def check_plans(ctx, p):
    ctx.rule('a plan with a block that is empty, starts before the pool or ends after it, and a pool without bytes, are refused at construction; every other plan is accepted and the buffer '
             'has at least the planned bytes')
    plans = [({'a': [0, 8]}, 8, True), ({'a': [0, 8]}, 7, False), ({'a': [4, 8]}, 12, True), ({'a': [4, 8]}, 11, False), ({'a': [-4, 8]}, 12, False), ({'a': [0, 0]}, 12, False),
             ({'a': [0, -8]}, 12, False), ({'a': [12, 4]}, 12, False), ({'a': [0, 4], 'b': [4, 4]}, 8, True), ({'a': [0, 4], 'b': [4, 8]}, 8, False), ({'b': [4, 8], 'a': [0, 4]}, 8, False),
             ({'a': [0, 4], 'b': [-4, 4], 'd': [4, 4]}, 8, False), ({'a': [0, 4], 'b': [4, 0]}, 8, False), ({}, 8, True), ({}, 0, False), ({'a': [0, 4]}, 0, False), ({'a': [0, 4]}, -4, False),
             ({'a': [0, 8], 'b': [0, 4]}, 8, True), ({'a': [8, 8], 'b': [0, 16]}, 16, True)]
    for plan, n, good in plans:
        src = 'def main(mem, n):\n    q = MemoryPool(mem, n, torch.float32, "cpu")\n    return (q.pool, q.pool)\n'
        w, r = drive(p, src, {'mem': mem(plan), 'n': c(n)})
        x = value(w, r)
        text = f'a pool of {n} bytes with the plan {plan}'
        if x == 'raises':
            if good:
                ctx.fail(f'plan:refused:{sorted(plan.items())}:{n}', f'{text} is refused', POOL)
            else:
                ctx.ok(f'{text}: refused')
            continue
        m = w.of(x[0]) if isinstance(x, list) and x else None
        if m is None:
            ctx.undecided(f'{text}: {str(x)[:100]}', POOL)
        elif not good:
            ctx.fail(f'plan:accepted:{sorted(plan.items())}:{n}', f'{text} is accepted', POOL)
        elif m.nbytes < n or m.start != 0:
            ctx.fail('plan:buffer', f'{text} gets a buffer of {m.nbytes} bytes', POOL)
        else:
            ctx.ok(f'{text}: accepted, buffer of {m.nbytes} bytes')


# operations of a history: source with {i}, what it does
OPS = {
    'get': 'r{i} = q.get("a")',
    'get shaped': 'r{i} = q.get("b", shape=[2, 2])',
    'get smaller': 'r{i} = q.get("b", shape=[3])',
    'index': 'r{i} = q["b"]',
    'move': 'q.to("xpu")\n    r{i} = q.get("b", shape=[2, 3])',
    'move back': 'q.to("cpu")\n    r{i} = q["a"]',
    'rename': 'q = q.to("xpu")\n    r{i} = q.get("a", shape=[2, 2])',
    'zero': 'q.zero_()\n    r{i} = q.get("a", shape=[4, 1])',
    'fill': 'q.fill_tensor("b", v)\n    r{i} = q["b"]',
}
WANT = {'get': (8, 16, [4]), 'get shaped': (32, 16, [2, 2]), 'get smaller': (32, 12, [3]), 'index': (32, 24, [6]), 'move': (32, 24, [2, 3]), 'move back': (8, 16, [4]), 'rename': (8, 16, [2, 2]),
        'zero': (8, 16, [4, 1]), 'fill': (32, 24, [6])}


def check_histories(ctx, p):
    ctx.rule('after any sequence of requests, fills and moves, a requested view lies in the buffer the pool owns at that moment, at its block, with the asked shape')
    names = list(OPS)
    for n in (1, 2, 3):
        for h in itertools.product(names, repeat=n):
            if n == 3 and not (any(x.startswith('move') or x == 'rename' for x in h) and len(set(h)) > 1):
                continue
            body = '\n    '.join(OPS[x].format(i=i) + f'\n    p{i} = q.pool' for i, x in enumerate(h))
            src = 'def main(mem, n, v):\n    q = MemoryPool(mem, n, torch.float32, "cpu")\n    ' + body + '\n    return [' + ', '.join(f'(r{i}, p{i})' for i in range(n)) + ']\n'
            w = R.Torch()
            w.over = []
            v = w.given(w.over, 'given', 'float32', [2, 3])
            w, r = drive(p, src, {'mem': mem(PLAN), 'n': c(TOTAL), 'v': v}, w)
            x = value(w, r)
            text = 'after ' + ', '.join(h)
            if x == 'raises':
                ctx.fail(f'history:raises:{h}', f'{text}: a request that fits is refused', POOL)
                continue
            if not isinstance(x, list) or len(x) != n:
                ctx.undecided(f'{text}: {str(x)[:100]}', POOL)
                continue
            for i, k in enumerate(h):
                judge(ctx, f'history:{">".join(h[:i + 1])}', f'{" > ".join(h[:i + 1])}: the view', w, x[i] if isinstance(x[i], (list, tuple)) else [x[i], None], WANT[k], 'float32', POOL)


def check_fill(ctx, p):
    ctx.rule('fill_tensor writes inside the block of its tensor only, from element 0, as many elements as the value has but no more than fit; a value for an unknown tensor is refused')
    for t in ('a', 'b', 'nobody'):
        for sh in ([2], [1], [4], [6], [2, 3], [9], [2, 8], []):
            w = R.Torch()
            w.over = []
            v = w.given(w.over, 'given', 'float32', sh)
            src = 'def main(mem, n, t, v):\n    q = MemoryPool(mem, n, torch.float32, "cpu")\n    q.fill_tensor(t, v)\n    return (q.pool, q.pool)\n'
            w, r = drive(p, src, {'mem': mem(PLAN), 'n': c(TOTAL), 't': c(t), 'v': v}, w)
            x = value(w, r)
            text = f'filling {t!r} (block {PLAN.get(t)}) with {R.numel(sh)} elements'
            if x == 'raises':
                if t in PLAN and R.numel(sh) * 4 == PLAN[t][1]:
                    ctx.fail(f'fill:refused:{t}:{sh}', f'{text} is refused', POOL)
                else:
                    ctx.ok(f'{text}: refused')
                continue
            m = w.of(x[0]) if isinstance(x, list) and x else None
            if m is None or any(s is None for _, s in w.copies):
                ctx.undecided(f'{text}: {str(x)[:80]}', POOL)
                continue
            if t not in PLAN:
                ctx.fail(f'fill:unknown', f'{text} is accepted', POOL)
                continue
            inner = [d for d, _ in w.copies if d.buf == m.buf]
            bad = [d for d in inner if d.start < PLAN[t][0] or d.start + d.nbytes > sum(PLAN[t])]
            if bad:
                ctx.fail(f'fill:outside:{t}:{sh}', f'{text} writes bytes {bad[0].start}..{bad[0].start + bad[0].nbytes}', POOL)
            elif len(inner) == 1 and inner[0].start != PLAN[t][0] and len(w.copies) == 1:
                ctx.fail(f'fill:start:{t}:{sh}', f'{text} starts at byte {inner[0].start}', POOL)
            elif len(inner) != 1 or inner[0].start != PLAN[t][0]:
                ctx.undecided(f'{text}: {inner}', POOL)
            else:
                ctx.ok(f'{text}: bytes {inner[0].start}..{inner[0].start + inner[0].nbytes}')


def check_move(ctx, p):
    ctx.rule('a pool moved to another device has its buffer there')
    for dev in ('xpu', 'cuda'):
        src = f'def main(mem, n):\n    q = MemoryPool(mem, n, torch.float32, "cpu")\n    b = q.pool\n    q.to("{dev}")\n    return (b, q.pool, q.device)\n'
        w, r = drive(p, src, {'mem': mem(PLAN), 'n': c(TOTAL)})
        x = value(w, r)
        a, b = (w.of(x[0]), w.of(x[1])) if isinstance(x, list) and len(x) == 3 else (None, None)
        if a is None or b is None or isinstance(x[2], tuple):
            ctx.undecided(f'move to {dev}: {str(x)[:80]}', POOL)
        elif a.buf == b.buf or x[2] != dev:
            ctx.fail(f'move:{dev}', f'after the move to {dev} the pool says it is on {x[2]} and its buffer is {"still the old one" if a.buf == b.buf else "a new one"}', POOL)
        else:
            ctx.ok(f'move to {dev}: new buffer')


def check_len(ctx, p):
    ctx.rule('membership, length and keys are those of the plan')
    src = 'def main(mem, n):\n    q = MemoryPool(mem, n, torch.float32, "cpu")\n    return ("a" in q, "nobody" in q, len(q), list(q.keys()), q.compress_size, q.device)\n'
    w, r = drive(p, src, {'mem': mem(PLAN), 'n': c(TOTAL)})
    x = value(w, r)
    exp = [True, False, len(PLAN), list(PLAN), TOTAL, 'cpu']
    if isinstance(x, list) and len(x) == 6:
        for k, a, b in zip(('membership', 'non-membership', 'length', 'keys', 'size', 'device'), x, exp):
            if isinstance(a, tuple):
                ctx.undecided(f'{k}: {str(a)[:80]}', POOL)
            elif a != b:
                ctx.fail(f'plan:{k}', f'{k} of the pool is {a} instead of {b}', POOL)
            else:
                ctx.ok(f'{k}: {a}')
    else:
        ctx.undecided(f'queries: {str(x)[:100]}', POOL)


def check(ctx):
    p = gs.program(True)
    if POOL not in p.modules or p.cls(POOL, 'MemoryPool') is None:
        return ctx.undecided('no MemoryPool', POOL)
    cls = p.cls(POOL, 'MemoryPool')
    ctx.seen(*[f.where for f in cls.methods.values()])
    check_plans(ctx, p)
    check_requests(ctx, p)
    check_fill(ctx, p)
    check_len(ctx, p)
    check_move(ctx, p)
    check_histories(ctx, p)
    ctx.assume('the tensor library does what its documentation says: slices, view(dtype), reshape and to are modelled on byte ranges')

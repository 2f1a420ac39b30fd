"""Terms: hash-consed value graph nodes (global value numbering with algebraic normal forms).

A term is a tuple whose first element is its kind:
  ('const', typename, value)
  ('param', name)                 symbolic root (function parameter, self, ...)
  ('attr', base, name)            attribute read
  ('idx', base, index)            element read
  ('slice', lo, hi, step)         used as an index
  ('each', seq)                   an arbitrary element visited when iterating seq
  ('each_from', seq, k)           an arbitrary element of seq[k:]
  ('lv', loop, name)              value of a variable at a loop head
  ('loopidx', loop)               a loop counter
  ('map', body, seq)              list of body for each element of seq
  ('list', items) / ('tuple', items)
  ('concat', a, b)
  ('poly', ((mono, coef), ...))   mono = ((term, power), ...) sorted
  ('call', name, args, kwargs)
  ('cmp', op, a, b)
  ('top', roots)
"""
from fractions import Fraction


def const(v):
    return ('const', type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
TOP = ('top', frozenset())


def is_const(t):
    return t[0] == 'const'


def cval(t):
    return t[2]


def is_num(t):
    return t[0] == 'const' and isinstance(t[2], (int, float, Fraction)) and not isinstance(t[2], bool)


def key(t):
    return repr(t)


# ---------------------------------------------------------------- polynomials
def _to_num(v):
    if isinstance(v, float) and v == int(v) and abs(v) < 1e15:
        return int(v)
    return v


def as_poly(t):
    """dict mono -> coef"""
    if is_num(t):
        return {(): t[2]} if t[2] != 0 else {}
    if t[0] == 'poly':
        return dict(t[1])
    return {((t, 1),): 1}


def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return const(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return const(_to_num(c))
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return ('poly', tuple(sorted(((m, _to_num(c)) for m, c in p.items()), key=repr)))


def add(a, b, sign=1):
    p = as_poly(a)
    for m, c in as_poly(b).items():
        p[m] = p.get(m, 0) + sign * c
    return from_poly(p)


def neg(a):
    return from_poly({m: -c for m, c in as_poly(a).items()})


def sub(a, b):
    return add(a, b, -1)


def _mono_mul(m1, m2):
    d = {}
    for t, p in m1 + m2:
        d[t] = d.get(t, 0) + p
    return tuple(sorted(((t, p) for t, p in d.items() if p != 0), key=repr))


MAXPOLY = 64


def mul(a, b):
    pa, pb = as_poly(a), as_poly(b)
    if len(pa) * len(pb) > MAXPOLY:
        return ('call', '*', tuple(sorted((a, b), key=repr)), ())
    out = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mono_mul(m1, m2)
            out[m] = out.get(m, 0) + c1 * c2
    return from_poly(out)


def power(a, n):
    if is_const(n) and isinstance(n[2], int) and not isinstance(n[2], bool):
        if n[2] == 0:
            return const(1)
        if 0 < n[2] <= 3:
            r = a
            for _ in range(n[2] - 1):
                r = mul(r, a)
            return r
        if n[2] < 0:
            return div(const(1), power(a, const(-n[2])))
    if is_const(n) and n[2] == 0.5:
        return ('call', 'sqrt', (a,), ())
    return ('call', 'pow', (a, n), ())


def div(a, b):
    if is_num(b) and b[2] != 0:
        if is_num(a):
            v = a[2] / b[2]
            return const(_to_num(v))
        if isinstance(b[2], int):
            return from_poly({m: _frac(c, b[2]) for m, c in as_poly(a).items()})
        return from_poly({m: c / b[2] for m, c in as_poly(a).items()})
    pb = as_poly(b)
    if len(pb) == 1:
        (m, c), = pb.items()
        inv = tuple((t, -p) for t, p in m)
        out = {}
        for m1, c1 in as_poly(a).items():
            mm = _mono_mul(m1, inv)
            out[mm] = out.get(mm, 0) + _frac(c1, c)
        return from_poly(out)
    if a == b:
        return const(1)
    inv = ((b, -1),)
    out = {}
    for m1, c1 in as_poly(a).items():
        mm = _mono_mul(m1, inv)
        out[mm] = out.get(mm, 0) + c1
    return from_poly(out)


def _frac(c, d):
    if isinstance(c, (int, Fraction)) and isinstance(d, (int, Fraction)):
        f = Fraction(c) / Fraction(d)
        return int(f) if f.denominator == 1 else f
    return _to_num(c / d)


# ---------------------------------------------------------------- structure
LEAF = frozenset(['const', 'param', 'lv', 'loopidx', 'top', 'ref', 'fn', 'cls', 'mod', 'ext', 'inst', 'closure',
                  'global', 'bound', 'super', 'builtin', 'extmethod'])


def children(t):
    k = t[0]
    if k in LEAF:
        return ()
    if k == 'poly':
        return tuple(x for m, c in t[1] for x, p in m)
    if k == 'call':
        return t[2] + tuple(v for _, v in t[3])
    if k in ('list', 'tuple'):
        return t[1]
    if k == 'cmp':
        return t[2:]
    if k in ('attr', 'each_from'):
        return (t[1],)
    if k in ('map', 'idx', 'concat', 'slice', 'each'):
        return t[1:]
    return tuple(x for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], str))


def subterms(t):
    """every subterm in preorder; a subterm that is shared (the same object) comes once"""
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        stack.extend(reversed(children(x)))


BIG = 4000


def big(t):
    """more than BIG nodes when written out"""
    n, stack = 0, [t]
    while stack:
        x = stack.pop()
        n += 1
        if n > BIG:
            return True
        stack.extend(children(x))
    return False


def has_top(t):
    return any(s[0] == 'top' for s in subterms(t))


def call(name, *args, **kw):
    return ('call', name, tuple(args), tuple(sorted(kw.items())))


def attr(base, name):
    return ('attr', base, name)


def idx(base, i):
    if not isinstance(i, tuple):
        i = const(i)
    return ('idx', base, i)


def show(t, depth=0):
    """Readable rendering for reports."""
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == 'const':
        return repr(t[2])
    if k == 'param':
        return t[1]
    if k == 'global':
        return f'{t[1]}.{t[2]}'
    if k == 'attr':
        return show(t[1]) + '.' + t[2]
    if k == 'idx':
        return f'{show(t[1])}[{show(t[2])}]'
    if k == 'slice':
        def s(x):
            return '' if x == NONE else show(x)
        return f'{s(t[1])}:{s(t[2])}' + ('' if t[3] == NONE else ':' + s(t[3]))
    if k == 'each':
        return f'each({show(t[1])})'
    if k == 'each_from':
        return f'each({show(t[1])}[{t[2]}:])'
    if k == 'map':
        return f'[{show(t[1])} for each of {show(t[2])}]'
    if k in ('list', 'tuple'):
        return ('[%s]' if k == 'list' else '(%s)') % ', '.join(show(x) for x in t[1])
    if k == 'concat':
        return f'{show(t[1])} ++ {show(t[2])}'
    if k == 'poly':
        parts = []
        for m, c in t[1]:
            f = [show(x) if p == 1 else f'{show(x)}^{p}' for x, p in m]
            if c != 1 or not f:
                f = [str(c)] + f
            parts.append('*'.join(f))
        return '(' + ' + '.join(parts) + ')'
    if k == 'call':
        a = [show(x) for x in t[2]] + [f'{n}={show(v)}' for n, v in t[3]]
        return f'{t[1]}({", ".join(a)})'
    if k == 'cmp':
        return f'({show(t[2])} {t[1]} {show(t[3])})'
    if k == 'lv':
        return f'<loop value of {t[2]}>'
    if k == 'loopidx':
        return '<loop index>'
    if k == 'top':
        return '<unknown>'
    return f'<{k}>' if k != 'cls' else f'class {t[1].name}'

"""Integer size formulas: a small language for expected dimensions and costs, and a canonical form in which two formulas
that agree for all positive integer dimensions by elementary rules (rounding, max/min, flooring) become the same term."""
from fractions import Fraction

from . import terms as T
from . import numsem
from .terms import const, is_const, cval, is_num
from .opsem import dim, tin, is_dim, sign

ROUND = ('int', 'floor', 'ceil', 'floordiv', 'intdiv')


class Opaque(Exception):
    pass


# ------------------------------------------------------------------ language
class F:
    """term with arithmetic operators"""

    def __init__(self, t):
        self.t = t

    def _o(self, o):
        return o.t if isinstance(o, F) else const(o)

    def __add__(self, o): return F(T.add(self.t, self._o(o)))
    __radd__ = __add__

    def __sub__(self, o): return F(T.sub(self.t, self._o(o)))

    def __rsub__(self, o): return F(T.sub(self._o(o), self.t))

    def __mul__(self, o): return F(T.mul(self.t, self._o(o)))
    __rmul__ = __mul__

    def __truediv__(self, o): return F(T.div(self.t, self._o(o)))

    def __rtruediv__(self, o): return F(T.div(self._o(o), self.t))

    def __floordiv__(self, o): return floor(self / o)

    def __neg__(self): return F(T.neg(self.t))


def _f(x):
    return x if isinstance(x, F) else F(const(x))


def floor(x):
    return F(('call', 'floor', (_f(x).t,), ()))


def ceil(x):
    return F(('call', 'ceil', (_f(x).t,), ()))


def mx(*xs):
    return F(('call', 'pymax', tuple(_f(x).t for x in xs), ()))


def mn(*xs):
    return F(('call', 'pymin', tuple(_f(x).t for x in xs), ()))


def prod(*xs):
    r = F(const(1))
    for x in xs:
        r = r * x
    return r


NAMES = {}
for _i, _l in enumerate('abcdefgh'):
    for _k in range(6):
        NAMES[f'{_l}{_k}'] = F(dim(_i, _k))
for _k in range(6):
    NAMES[f'y{_k}'] = F(('param', f'out0.d{_k}'))
NAMES.update(floor=floor, ceil=ceil, mx=mx, mn=mn, prod=prod)


def parse(e, **extra):
    if isinstance(e, F):
        return e.t
    if isinstance(e, tuple):
        return e
    if isinstance(e, int):
        return const(e)
    v = eval(e, {'__builtins__': {}}, dict(NAMES, **extra))
    return _f(v).t


# ------------------------------------------------------------------ canonical form
def _num(c):
    if isinstance(c, float):
        f = Fraction(c).limit_denominator(4096)
        return f if abs(float(f) - c) < 1e-9 * max(1.0, abs(c)) else c
    return c


def integral(t):
    """t certainly denotes an integer"""
    if t[0] == 'const':
        return isinstance(t[2], int)
    if t[0] == 'param':
        return True
    if t[0] == 'poly':
        return all(_isint(c) and all(p > 0 and integral(x) for x, p in m) for m, c in t[1])
    if t[0] == 'call':
        if t[1] in ('floor', 'ceil', 'int', 'round', 'len'):
            return True
        if t[1] in ('pymax', 'pymin', 'floordiv', 'mod', 'maximum', 'minimum', 'max', 'min'):
            return all(integral(x) for x in t[2])
    if t[0] in ('idx', 'each', 'attr'):
        return True
    return False


def _isint(c):
    return isinstance(c, int) or (isinstance(c, Fraction) and c.denominator == 1)


def canon(t):
    t = numsem.strip_copy(t)
    if t[0] == 'const':
        if isinstance(t[2], bool):
            return const(int(t[2]))
        if isinstance(t[2], float) and t[2] == int(t[2]):
            return const(int(t[2]))
        return t
    if t[0] == 'poly':
        r = const(0)
        for m, c in t[1]:
            mm = const(_num(c))
            for x, p in m:
                g = canon(x)
                if p > 0:
                    for _ in range(p):
                        mm = T.mul(mm, g)
                else:
                    for _ in range(-p):
                        mm = T.div(mm, g)
            r = T.add(r, mm)
        p = {m: _ni(_num(c)) for m, c in T.as_poly(r).items()}
        return T.from_poly(p)
    if t[0] == 'call':
        n, a = t[1], t[2]
        if n in ('int', 'floor', 'trunc', 'fix') and len(a) == 1:
            return _floor(canon(a[0]))
        if n == 'ceil' and len(a) == 1:
            return _ceil(canon(a[0]))
        if n in ('floordiv', 'floor_divide') and len(a) == 2:
            return _floor(T.div(canon(a[0]), canon(a[1])))
        if n in ('float', 'astype', 'int64', 'int32', 'asarray', 'array', 'float64', 'float32') and a:
            return canon(a[0])
        if n == '*' and len(a) == 2:
            return T.mul(canon(a[0]), canon(a[1]))
        if n in ('pymax', 'maximum', 'pymin', 'minimum', 'max', 'min') and a and not t[3]:
            return _ext('max' if 'max' in n else 'min', [canon(x) for x in (a if len(a) > 1 or a[0][0] not in ('list', 'tuple') else a[0][1])])
        if n == 'prod' and len(a) == 1 and a[0][0] in ('list', 'tuple'):
            r = const(1)
            for x in a[0][1]:
                r = T.mul(r, canon(x))
            return r
        return ('call', n, tuple(canon(x) for x in a), t[3])
    if t[0] in ('list', 'tuple'):
        return (t[0], tuple(canon(x) for x in t[1]))
    return t


def equal(t, u):
    """two canonical formulas agree for all positive dimensions: syntactically, or after splitting every dimension below a
    rounding into quotient and residue (each residue class is compared symbolically)"""
    if t == u:
        return True
    per = {}
    for x in (t, u):
        for s in T.subterms(x):
            if s[0] == 'call' and s[1] in ('floor', 'ceil') and len(s[2]) == 1:
                dd = 1
                vs = set()
                for m, c in T.as_poly(s[2][0]).items():
                    if isinstance(c, float):
                        return False
                    dd = dd * Fraction(c).denominator // _gcd(dd, Fraction(c).denominator)
                    for v, p in m:
                        if p < 0:
                            return False
                        vs |= {w for w in T.subterms(v) if w[0] == 'param'}
                for v in vs:
                    per[v] = per.get(v, 1) * dd // _gcd(per.get(v, 1), dd)
    n = 1
    for d in per.values():
        n *= d
    if not per or n == 1 or n > 300:
        return False
    import itertools
    vs = list(per)
    for rs in itertools.product(*[range(1, per[v] + 1) for v in vs]):
        sub = {v: T.add(T.mul(const(per[v]), T.sub(v, const(1))), const(r)) for v, r in zip(vs, rs)}
        if canon(substitute(t, sub)) != canon(substitute(u, sub)):
            return False
    return True


def substitute(t, sub):
    if t in sub:
        return sub[t]
    if t[0] == 'poly':
        r = const(0)
        for m, c in t[1]:
            mm = const(c)
            for x, p in m:
                g = substitute(x, sub)
                for _ in range(abs(p)):
                    mm = T.mul(mm, g) if p > 0 else T.div(mm, g)
            r = T.add(r, mm)
        return r
    if t[0] == 'call':
        return ('call', t[1], tuple(substitute(x, sub) for x in t[2]), t[3])
    if t[0] in ('list', 'tuple'):
        return (t[0], tuple(substitute(x, sub) for x in t[1]))
    return t


def _ni(c):
    return int(c) if isinstance(c, Fraction) and c.denominator == 1 else c


def _split(t):
    """integral part and remainder of a polynomial: t = i + r, i integral"""
    i, r = {}, {}
    for m, c in T.as_poly(t).items():
        c = _num(c)
        if all(p > 0 and integral(x) for x, p in m) and isinstance(c, (int, Fraction)):
            w = c.numerator // c.denominator if isinstance(c, Fraction) else c
            if w:
                i[m] = w
            if c - w:
                r[m] = c - w
        else:
            r[m] = c
    return T.from_poly(i), T.from_poly(r)


def _denominator(t):
    """common denominator of a remainder, as a term; None if there is none by inspection"""
    d = 1
    sym = None
    for m, c in T.as_poly(t).items():
        if isinstance(c, float):
            return None
        c = Fraction(c)
        d = d * c.denominator // _gcd(d, c.denominator)
        neg = tuple((x, -p) for x, p in m if p < 0)
        if neg:
            if not all(integral(x) for x, _ in neg):
                return None
            if sym is None or set(dict(neg)) >= set(dict(sym)):
                if sym is not None and any(dict(neg)[x] < p for x, p in sym):
                    return None
                sym = neg
            elif not set(dict(neg)) <= set(dict(sym)):
                return None
    return T.from_poly({sym or (): d})


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def _floor(t):
    if integral(t):
        return t
    if is_num(t):
        import math
        return const(math.floor(t[2])) if not isinstance(t[2], Fraction) else const(t[2].numerator // t[2].denominator)
    i, r = _split(t)
    if r == const(0):
        return i
    if sign_of(r) is not None and is_num(r):
        return T.add(i, const(0))
    # a remainder which is a pure constant fraction vanishes
    p = T.as_poly(r)
    if set(p) == {()}:
        return i
    return T.add(i, ('call', 'floor', (r,), ()))


def sign_of(t):
    return sign(t)


def _ceil(t):
    if integral(t):
        return t
    i, r = _split(t)
    if r == const(0):
        return i
    d = _denominator(r)
    if d is None:
        return T.add(i, ('call', 'ceil', (r,), ()))
    # ceil(N/D) == floor((N + D - 1)/D)
    return T.add(i, _floor(T.add(r, T.sub(const(1), T.div(const(1), d)))))


def nonneg(t):
    if t[0] == 'const':
        return is_num(t) and t[2] >= 0
    if is_dim(t):
        return True
    if t[0] == 'poly':
        return all(not isinstance(c, str) and c > 0 and all(nonneg(x) for x, p in m) for m, c in t[1]) or _atleast(t, 0)
    if t[0] == 'call':
        if t[1] == 'max':
            return any(nonneg(x) for x in t[2])
        if t[1] == 'min':
            return all(nonneg(x) for x in t[2])
        if t[1] == 'floor':
            return nonneg(t[2][0])
    return False


def _ext(n, xs):
    out = []
    for x in xs:
        if x[0] == 'call' and x[1] == n and not x[3]:
            out += list(x[2])
        else:
            out.append(x)
    uniq = []
    for x in sorted(set(out), key=repr):
        uniq.append(x)
    # extents stay below 2**31: "until the end" constants never win
    if len(uniq) > 1:
        uniq = [x for x in uniq if not (is_num(x) and (x[2] >= 2 ** 31 - 1 if n == 'min' else x[2] <= -2 ** 31))] or uniq
    # drop operands dominated by another one for all positive dimensions
    keep = []
    for x in uniq:
        dom = False
        for y in uniq:
            if x is y:
                continue
            d = T.sub(y, x) if n == 'max' else T.sub(x, y)
            if nonneg(d) and (d != const(0)):
                dom = True
            elif is_num(x) and is_num(y) and d[2] > 0:
                dom = True
            elif is_num(x) and x[2] in (0, 1) and _atleast(y, x[2]) and n == 'max':
                dom = True
            elif is_num(y) and y[2] in (0, 1) and _atleast(x, y[2]) and n == 'min':
                dom = True
        if not dom:
            keep.append(x)
    if len(keep) == 1:
        return keep[0]
    return ('call', n, tuple(keep), ())


def _atleast(t, k):
    """t >= k for all positive dimensions"""
    if t[0] == 'poly':
        low = 0
        for m, c in t[1]:
            if not isinstance(c, (int, Fraction)):
                return False
            if m and not (c > 0 and all(p > 0 and _atleast(x, 1) for x, p in m)):
                return False
            low += c
        return low >= k
    if k <= 0:
        return nonneg(t)
    if t[0] == 'const':
        return is_num(t) and t[2] >= k
    if is_dim(t):
        return True
    if t[0] == 'call' and t[1] == 'max':
        return any(_atleast(x, k) for x in t[2])
    if t[0] == 'call' and t[1] == 'min':
        return all(_atleast(x, k) for x in t[2])
    return False


ALLOWED = ('floor', 'ceil', 'max', 'min', '*', 'sqrt')


def decided(t):
    """the term only uses vocabulary whose meaning the comparison understands"""
    for s in T.subterms(t):
        if s[0] == 'top':
            return False
        if s[0] == 'call' and s[1] not in ALLOWED:
            return False
        if s[0] in ('cmp', 'lv', 'loopidx', 'map', 'each_from', 'concat', 'ref', 'closure', 'global', 'ext'):
            return False
    return True


# ------------------------------------------------------------------ shapes of array expressions
EW = {'exp', 'log', 'sqrt', 'sin', 'cos', 'tan', 'tanh', 'absolute', 'floor', 'ceil', 'round', 'sign', 'arctan', 'arccos', 'arcsin', 'sinh', 'cosh', 'logical_not',
      'invert', 'astype', 'copy', 'cumsum', 'clip', 'zeros_like', 'ones_like', 'tril', 'triu', 'isnan', 'negative', 'isinf', 'erf', 'asarray', 'array', 'full_like', 'empty_like'}
EW2 = {'maximum', 'minimum', 'logical_and', 'logical_or', 'logical_xor', 'bitwise_and', 'bitwise_or', 'pow', 'mod', 'floordiv', 'where', 'power', 'fmod', 'equal', 'not_equal', 'bitwise_xor', '*',
       'less', 'greater', 'less_equal', 'greater_equal'}


def bcast(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        ds = [s[k - n + len(s)] for s in shapes if k - n + len(s) >= 0]
        out.append(_ext('max', [canon(d) for d in ds]))
    return out


def array_shape(t, shape_of):
    """dims (list of terms) of an array-valued term, or None. shape_of(term) -> dims of a leaf."""
    t = numsem.strip_copy(t)
    s = shape_of(t)
    if s is not None:
        return s
    if is_num(t) or (is_const(t) and isinstance(cval(t), bool)):
        return []
    if t[0] == 'poly':
        parts = [array_shape(x, shape_of) for m, c in t[1] for x, p in m]
        return None if any(p is None for p in parts) else bcast(parts + [[]])
    if t[0] == 'cmp':
        parts = [array_shape(x, shape_of) for x in t[2:]]
        return None if any(p is None for p in parts) else bcast(parts)
    if t[0] == 'call':
        n, a, kw = t[1], t[2], dict(t[3])
        if n in ('array', 'asarray', 'ndarray') and a and numsem.strip_copy(a[0])[0] in ('list', 'tuple'):
            d, x = [], numsem.strip_copy(a[0])
            while x[0] in ('list', 'tuple'):
                d.append(const(len(x[1])))
                if not x[1]:
                    break
                x = numsem.strip_copy(x[1][0])
            return d
        if n == 'arange' and 1 <= len(a) <= 3:
            def sc(x):
                x = numsem.strip_copy(x)
                while (x[0] == 'call' and x[1] == 'ndarray') or (x[0] == 'list' and len(x[1]) == 1):
                    x = x[2][0] if x[0] == 'call' else x[1][0]
                return canon(x)
            v = [sc(x) for x in a]
            lo, hi, st = (const(0), v[0], const(1)) if len(v) == 1 else (v[0], v[1], v[2] if len(v) > 2 else const(1))
            return [_ext('max', [const(0), canon(('call', 'ceil', (T.div(T.sub(hi, lo), st),), ()))])]
        if n in EW and a:
            return array_shape(a[0], shape_of)
        if n in EW2:
            parts = [array_shape(x, shape_of) for x in a]
            return None if any(p is None for p in parts) else bcast(parts)
        if n == 'transpose' and a:
            s = array_shape(a[0], shape_of)
            if s is None:
                return None
            ax = kw.get('axes')
            if ax is None:
                return s[::-1]
            if ax[0] in ('list', 'tuple') and all(is_const(x) for x in ax[1]):
                return [s[cval(x)] for x in ax[1]]
            return None
        if n == 'reshape' and a:
            s = array_shape(a[0], shape_of)
            sh = kw.get('shape') or (a[1] if len(a) > 1 else None)
            if s is None or sh is None:
                return None
            sh = numsem.strip_copy(sh)
            if sh[0] not in ('list', 'tuple'):
                sh = ('list', (sh,))
            vol = const(1)
            for d in s:
                vol = T.mul(vol, d)
            rest, out = const(1), []
            for d in sh[1]:
                if d != const(-1):
                    rest = T.mul(rest, canon(d))
            for d in sh[1]:
                out.append(canon(T.div(vol, rest)) if d == const(-1) else canon(d))
            return out
        if n == 'tile' and a:
            s = array_shape(a[0], shape_of)
            r = numsem.strip_copy(kw.get('reps', T.TOP))
            if r[0] == 'call' and r[1] == 'ndarray':
                r = r[2][0]
            if s is None or r[0] not in ('list', 'tuple'):
                return None
            n_ = max(len(s), len(r[1]))
            s = [const(1)] * (n_ - len(s)) + s
            rr = [const(1)] * (n_ - len(r[1])) + list(r[1])
            return [canon(T.mul(x, y)) for x, y in zip(s, rr)]
        if n in ('sum', 'mean', 'prod', 'max', 'min', 'argmax', 'argmin') and a:
            s = array_shape(a[0], shape_of)
            if s is None:
                return None
            ax = kw.get('axis')
            if ax is None:
                ax = list(range(len(s)))
            else:
                ax = numsem.strip_copy(ax)
                if ax[0] in ('list', 'tuple'):
                    if not all(is_const(x) for x in ax[1]):
                        return None
                    ax = [cval(x) for x in ax[1]]
                elif is_const(ax):
                    ax = list(cval(ax)) if isinstance(cval(ax), tuple) else [cval(ax)]
                else:
                    return None
            try:
                ax = {x % len(s) for x in ax}
            except Exception:
                return None
            keep = kw.get('keepdims', T.FALSE)
            if not is_const(keep):
                return None
            return [const(1) if k in ax else d for k, d in enumerate(s) if cval(keep) or k not in ax]
        if n == 'expand_dims' and a:
            s = array_shape(a[0], shape_of)
            ax = kw.get('axis')
            if s is None or ax is None or not is_const(ax) or not isinstance(cval(ax), int):
                return None
            k = cval(ax) % (len(s) + 1)
            return s[:k] + [const(1)] + s[k:]
        if n == 'matmul' and len(a) == 2:
            x, y = array_shape(a[0], shape_of), array_shape(a[1], shape_of)
            if x is None or y is None or len(x) < 2 or len(y) < 2:
                return None
            return (bcast([x[:-2], y[:-2]]) if len(x) > 2 or len(y) > 2 else []) + [x[-2], y[-1]]
    return None

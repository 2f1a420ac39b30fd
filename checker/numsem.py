"""Normal forms of numpy / builtin calls (what they compute, not how they are spelled)."""
from .terms import *
from . import terms as T

SIG = {
    'sum': ('a', 'axis', 'dtype', 'out', 'keepdims'),
    'mean': ('a', 'axis', 'dtype', 'out', 'keepdims'),
    'prod': ('a', 'axis', 'dtype', 'out', 'keepdims'),
    'max': ('a', 'axis', 'out', 'keepdims'),
    'min': ('a', 'axis', 'out', 'keepdims'),
    'any': ('a', 'axis', 'out', 'keepdims'),
    'all': ('a', 'axis', 'out', 'keepdims'),
    'minimum.reduce': ('a', 'axis', 'dtype', 'out', 'keepdims'),
    'maximum.reduce': ('a', 'axis', 'dtype', 'out', 'keepdims'),
    'add.reduce': ('a', 'axis', 'dtype', 'out', 'keepdims'),
    'multiply.reduce': ('a', 'axis', 'dtype', 'out', 'keepdims'),
    'take': ('a', 'indices', 'axis', 'out', 'mode'),
    'concatenate': ('a', 'axis', 'out'),
    'stack': ('a', 'axis'),
    'transpose': ('a', 'axes'),
    'squeeze': ('a', 'axis'),
    'expand_dims': ('a', 'axis'),
    'cumsum': ('a', 'axis', 'dtype', 'out'),
    'tile': ('a', 'reps'),
    'split': ('a', 'indices_or_sections', 'axis'),
    'array_split': ('a', 'indices_or_sections', 'axis'),
    'compress': ('condition', 'a', 'axis', 'out'),
    'argmax': ('a', 'axis', 'out', 'keepdims'),
    'argmin': ('a', 'axis', 'out', 'keepdims'),
    'swapaxes': ('a', 'axis1', 'axis2'),
    'tril': ('a', 'k'),
    'triu': ('a', 'k'),
    'zeros': ('shape', 'dtype'),
    'ones': ('shape', 'dtype'),
    'empty': ('shape', 'dtype'),
    'full': ('shape', 'fill_value', 'dtype'),
    'zeros_like': ('a', 'dtype'),
    'ones_like': ('a', 'dtype'),
    'full_like': ('a', 'fill_value', 'dtype'),
    'empty_like': ('a', 'dtype'),
    'astype': ('a', 'dtype'),
    'reshape': ('a', 'shape'),
    'pad': ('a', 'pad_width', 'mode'),
    'round': ('a', 'decimals', 'out'),
    'repeat': ('a', 'repeats', 'axis'),
    'broadcast_to': ('a', 'shape'),
    'array': ('a', 'dtype'),
    'asarray': ('a', 'dtype'),
    'where': ('condition', 'x', 'y'),
    'clip': ('a', 'a_min', 'a_max', 'out'),
}
ALIAS = {
    'around': 'round', 'rint': 'round', 'round_': 'round', 'abs': 'absolute', 'fabs': 'absolute', 'amax': 'max', 'amin': 'min', 'product': 'prod',
    'remainder': 'mod', 'true_divide': 'divide', 'permute_dims': 'transpose', 'concat': 'concatenate', 'atan': 'arctan',
    'add.reduce': 'sum', 'multiply.reduce': 'prod', 'maximum.reduce': 'max', 'minimum.reduce': 'min', 'pow': 'power',
    'float_power': 'power', 'ascontiguousarray': 'asarray', 'asanyarray': 'asarray',
    'acos': 'arccos', 'asin': 'arcsin', 'bitwise_not': 'invert', 'fmax': 'maximum', 'fmin': 'minimum',
}
REDUCE_DEFAULT_KEEP = ('sum', 'mean', 'prod', 'max', 'min')
COMM = ('maximum', 'minimum', 'logical_and', 'logical_or', 'logical_xor', 'equal', 'not_equal', 'bitwise_and',
        'bitwise_or', 'bitwise_xor', 'pymax', 'pymin')
ARRAY_METHODS = ('sum', 'mean', 'prod', 'max', 'min', 'any', 'all', 'transpose', 'squeeze', 'cumsum', 'astype', 'reshape',
                 'copy', 'swapaxes', 'argmax', 'argmin', 'take', 'clip', 'round', 'repeat', 'compress', 'flatten',
                 'ravel', 'tolist', 'nonzero', 'view', 'item', 'dot', 'tobytes')
# functions whose result may share memory with their first argument
VIEWS = ('transpose', 'squeeze', 'expand_dims', 'swapaxes', 'reshape', 'ravel', 'asarray', 'view', 'broadcast_to', 'split',
         'array_split', 'moveaxis', 'diagonal', 'atleast_1d', 'atleast_2d', 'frombuffer', 'real', 'T',
         'rollaxis', 'flip', 'flipud', 'fliplr')
INPLACE_FUNCS = {'copyto': 0, 'put': 0, 'place': 0, 'putmask': 0, 'fill_diagonal': 0, 'put_along_axis': 0,
                 'random.shuffle': 0}


def norm(name, args, kwargs):
    """name: bare numpy name. args: tuple of terms; kwargs: dict name->term. Returns a term."""
    name = ALIAS.get(name, name)
    kwargs = dict(kwargs)
    kwargs.pop('out', None)
    if name == 'reshape' and len(args) > 2:
        args = (args[0], ('tuple', tuple(args[1:])))
    if name in SIG:
        sig = SIG[name]
        full = dict(kwargs)
        for n, a in zip(sig, args):
            full[n] = a
        if 'a' not in full and 'x' in full and name not in ('where',):
            full['a'] = full.pop('x')
        for alt in ('arr', 'm', 'ary', 'A', 'arrays', 'object', 'input', 'array'):
            if 'a' not in full and alt in full:
                full['a'] = full.pop(alt)
        if 'min' in full:
            full['a_min'] = full.pop('min')
        if 'max' in full:
            full['a_max'] = full.pop('max')
        full.pop('out', None)
        if len(args) > len(sig):
            return ('call', name, tuple(args), tuple(sorted(kwargs.items())))
        return _norm_full(name, full)
    if name == 'numpy_call':
        return ('call', name, tuple(args), tuple(sorted(kwargs.items())))
    a = tuple(args)
    if not kwargs:
        r = _norm_pos(name, a)
        if r is not None:
            return r
    return ('call', name, a, tuple(sorted(kwargs.items())))


def _norm_pos(name, a):
    if name == 'add' and len(a) == 2:
        return T.add(*a)
    if name == 'subtract' and len(a) == 2:
        return T.sub(*a)
    if name == 'multiply' and len(a) == 2:
        return T.mul(*a)
    if name == 'divide' and len(a) == 2:
        return T.div(*a)
    if name == 'negative' and len(a) == 1:
        return T.neg(*a)
    if name == 'positive' and len(a) == 1:
        return a[0]
    if name == 'reciprocal' and len(a) == 1:
        return T.div(const(1), a[0])
    if name == 'square' and len(a) == 1:
        return T.mul(a[0], a[0])
    if name == 'power' and len(a) == 2:
        return T.power(*a)
    if name == 'floor_divide' and len(a) == 2:
        return ('call', 'floordiv', a, ())
    if name == 'less' and len(a) == 2:
        return ('cmp', '<', a[0], a[1])
    if name == 'less_equal' and len(a) == 2:
        return ('cmp', '<=', a[0], a[1])
    if name == 'greater' and len(a) == 2:
        return ('cmp', '<', a[1], a[0])
    if name == 'greater_equal' and len(a) == 2:
        return ('cmp', '<=', a[1], a[0])
    if name == 'equal' and len(a) == 2:
        return ('cmp', '==') + tuple(sorted(a, key=repr))
    if name == 'not_equal' and len(a) == 2:
        return ('cmp', '!=') + tuple(sorted(a, key=repr))
    if name == 'log1p' and len(a) == 1:
        return ('call', 'log', (T.add(const(1), a[0]),), ())
    if name == 'expm1' and len(a) == 1:
        return T.sub(('call', 'exp', a, ()), const(1))
    if name in ('maximum', 'minimum') and len(a) == 2:
        other = 'minimum' if name == 'maximum' else 'maximum'
        for x, y in (a, a[::-1]):
            if x[0] == 'call' and x[1] == other and len(x[2]) == 2 and is_num(y):
                for p, q in (x[2], x[2][::-1]):
                    if is_num(q):
                        lo, hi = (y, q) if name == 'maximum' else (q, y)
                        return ('call', 'clip', (p, lo, hi), ())
        return ('call', name, tuple(sorted(a, key=repr)), ())
    if name in COMM:
        return ('call', name, tuple(sorted(a, key=repr)), ())
    if name == 'copy' and len(a) == 1:
        return copy_of(a[0])
    if name == 'invert' and len(a) == 1:
        return ('call', 'invert', a, ())
    return None


def copy_of(t):
    if t[0] == 'call' and t[1] == 'copy':
        return t
    return ('call', 'copy', (t,), ())


def strip_copy(t):
    while t[0] == 'call' and t[1] == 'copy' and len(t[2]) == 1:
        t = t[2][0]
    return t


def _norm_full(name, f):
    drop = {k: v for k, v in f.items() if v != NONE or k in ('a_min', 'a_max')}
    if name in REDUCE_DEFAULT_KEEP and drop.get('keepdims') == FALSE:
        drop.pop('keepdims')
    if name == 'transpose' and 'axes' not in drop:
        return ('call', 'transpose', (drop['a'],) if 'a' in drop else (), ())
    if name == 'clip':
        a = drop.get('a')
        lo, hi = drop.get('a_min', NONE), drop.get('a_max', NONE)
        if a is None:
            return TOP
        if lo == NONE and hi == NONE:
            return a
        if hi == NONE:
            return _norm_pos('maximum', (a, lo))
        if lo == NONE:
            return _norm_pos('minimum', (a, hi))
        return ('call', 'clip', (a, lo, hi), ())
    if name in ('asarray', 'array') and set(drop) == {'a'}:
        if name == 'array':
            return copy_of(drop['a'])
        return drop['a']
    if name in ('tril', 'triu') and drop.get('k') == const(0):
        drop.pop('k')
    if name == 'round' and drop.get('decimals') == const(0):
        drop.pop('decimals')
    if name == 'where' and set(drop) == {'condition', 'x', 'y'}:
        return where(drop['condition'], drop['x'], drop['y'])
    pos = ()
    if 'a' in drop:
        pos = (drop.pop('a'),)
    elif 'shape' in drop:
        pos = (drop.pop('shape'),)
    if name == 'concatenate' and drop.get('axis') == const(0):
        drop.pop('axis')
    return ('call', name, pos, tuple(sorted(drop.items())))


def where(c, a, b):
    if c[0] == 'call' and c[1] in ('logical_not', 'invert') and len(c[2]) == 1:
        return where(c[2][0], b, a)
    if c[0] == 'cmp' and c[1] == '!=':
        return where(('cmp', '==', c[2], c[3]), b, a)
    if c[0] == 'cmp' and c[1] == '<=':
        return where(('cmp', '<', c[3], c[2]), b, a)
    return ('call', 'where', (c, a, b), ())

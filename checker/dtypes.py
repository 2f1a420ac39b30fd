"""Element type of a value term, as a set of labels: ('in', i), ('np', name), ('attr', name), ('npdtype', term)."""
from . import terms as T

SAME1 = {'exp', 'log', 'sqrt', 'sin', 'cos', 'tan', 'tanh', 'sinh', 'cosh', 'arctan', 'arcsin', 'arccos', 'absolute', 'ceil', 'floor', 'round', 'sign',
         'erf', 'transpose', 'reshape', 'squeeze', 'expand_dims', 'copy', 'tile', 'swapaxes', 'tril', 'triu', 'pad', 'broadcast_to',
         'repeat', 'flip', 'take', 'ravel', 'flatten', 'sum', 'prod', 'max', 'min', 'mean', 'cumsum', 'asarray', 'array', 'moveaxis', 'split', 'array_split',
         'zeros_like', 'ones_like', 'full_like', 'empty_like', 'stored', 'sumover', 'prodover', 'trunc', 'invert', 'take_along_axis', 'item', 'scalar', 'roll', 'sort', 'stack', 'concatenate'}
JOIN = {'maximum', 'minimum', 'mod', 'pow', 'power', 'matmul', 'floordiv', 'clip', 'dot', 'fmod', 'divide', 'arctan2', 'pymax', 'pymin', '*', 'add', 'einsum'}
BOOL = {'logical_and', 'logical_or', 'logical_xor', 'logical_not', 'isnan', 'isinf', 'isfinite', 'any', 'all', 'equal', 'not_equal', 'less', 'greater', 'less_equal', 'greater_equal', 'not'}
INT64 = {'argmax', 'argmin', 'nonzero', 'argsort', 'shape', 'size'}
PROMOTES = {'sum', 'prod', 'cumsum'}
FLOATS = {'mean'}
UNK = None
TENSOR_ATTRS = {'value', 'sparse_value'}


# the ONNX element type codes of the standard and the numpy types they denote
ONNX = {1: 'float32', 2: 'uint8', 3: 'int8', 4: 'uint16', 5: 'int16', 6: 'int32', 7: 'int64', 9: 'bool_', 10: 'float16', 11: 'float64', 12: 'uint32', 13: 'uint64',
        14: 'complex64', 15: 'complex128'}


def cval_int(t):
    v = T.cval(t)
    return v if isinstance(v, int) and not isinstance(v, bool) else None


def npname(t):
    """the numpy scalar type a dtype term names"""
    if t[0] == 'ext':
        n = t[1].split('.')
        if n[0] == 'numpy' and len(n) == 2:
            return {'bool': 'bool_', 'float_': 'float64', 'int_': 'int64', 'double': 'float64', 'single': 'float32', 'half': 'float16'}.get(n[1], n[1])
        return None
    if t[0] == 'builtin':
        return {'bool': 'bool_', 'int': 'int64', 'float': 'float64'}.get(t[1])
    if t[0] == 'cls':
        return None
    if T.is_const(t) and isinstance(T.cval(t), str):
        return {'bool': 'bool_'}.get(T.cval(t), T.cval(t))
    return None


def of_dtype(t):
    """labels of a term that denotes an element type"""
    n = npname(t)
    if n:
        return {('np', n)}
    if t[0] == 'attr' and t[2] == 'type':
        return of_dtype(t[1])
    if t[0] == 'attr' and t[2] == 'dtype':
        b = t[1]
        if b[0] == 'param' and b[1].startswith('in') and b[1][2:].isdigit():
            return {('in', int(b[1][2:]))}
        if b[0] == 'idx' and b[1] == ('param', 'intensors') and T.is_const(b[2]):
            return {('in', T.cval(b[2]))}
        if b == ('param', 'self'):
            return UNK
        return of_value(b)
    if t[0] == 'call':
        if t[1] == 'dtypeof':
            return of_value(t[2][0])
        if t[1] == 'npdtype':
            a = t[2][0]
            if T.is_const(a) and T.cval(a) is None:
                return set()
            if T.is_const(a) and cval_int(a) in ONNX:
                return {('np', ONNX[T.cval(a)])}
            return {('npdtype', a)}
        if t[1] in ('dtype',) and len(t[2]) == 1:
            return of_dtype(t[2][0])
    return UNK


def join(parts):
    out = set()
    for p in parts:
        if p is UNK:
            return UNK
        out |= p
    return out


def of_value(t):
    """labels; UNK when not known; empty for python scalars (which adapt to the other operand)"""
    k = t[0]
    if k == 'const':
        return set() if not isinstance(T.cval(t), (str, bytes, type(None))) else UNK
    if k == 'attr':
        if t[2] == 'numpy':
            b = t[1]
            if b[0] == 'param' and b[1].startswith('in') and b[1][2:].isdigit():
                return {('in', int(b[1][2:]))}
            if b[0] == 'param' and b[1].startswith('out'):
                return UNK
            if b[0] == 'idx' and b[1] == ('param', 'intensors') and T.is_const(b[2]):
                return {('in', T.cval(b[2]))}
            return UNK
        if t[1] == ('param', 'self'):
            return {('attr', t[2])} if t[2] in TENSOR_ATTRS else set()
        if t[2] == 'T':
            return of_value(t[1])
        return UNK
    if k == 'idx':
        return of_value(t[1])
    if k in ('each', 'each_from'):
        return of_value(t[1])
    if k == 'poly':
        return join(of_value(x) for m, c in t[1] for x, p in m)
    if k == 'cmp':
        return {('np', 'bool_')}
    if k in ('list', 'tuple'):
        return join(of_value(x) for x in t[1])
    if k == 'map':
        return of_value(t[1])
    if k == 'call':
        n, a, kw = t[1], t[2], dict(t[3])
        if 'dtype' in kw:
            return of_dtype(kw['dtype'])
        if n in ('astype', 'view'):
            return UNK
        if n in ('zeros', 'ones', 'empty', 'full'):
            return {('np', 'float64')} if n != 'full' else UNK
        if n in BOOL:
            return {('np', 'bool_')}
        if n in INT64:
            return {('np', 'int64')}
        if n == 'where' and len(a) == 3:
            return join([of_value(a[1]), of_value(a[2])])
        if n == 'arange':
            return join(of_value(x) for x in a)
        if n == 'compress':
            return of_value(kw['a'] if 'a' in kw else a[0]) if a or 'a' in kw else UNK
        if n in ('len', 'int'):
            return set()
        if n in ('array', 'asarray'):
            return of_value(a[0]) if a else UNK
        if n in PROMOTES or n in FLOATS:
            v = of_value(a[0]) if a else UNK
            if v is UNK:
                return UNK
            return {('promoted', x[1]) if x[0] == 'in' else x for x in v}
        if n == 'pow' or n == 'power':
            return join(of_value(x) for x in a)
        if n in SAME1:
            return of_value(a[0]) if a else UNK
        if n in JOIN:
            return join(of_value(x) for x in a)
    return UNK

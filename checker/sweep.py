"""The set of configurations in which every operator class is analysed, and validation of the tensor interface summaries."""
from . import cases, opsem, model
from . import terms as T
from .absint import Interp, State, Obj, V, MISSING
from .terms import attr, const

_cache = {}


class Sem:
    def __init__(self):
        self.p = model.load()
        self.S = opsem.OpSem(self.p)
        self.ops = opsem.operator_classes(self.p)


def sem():
    if 'sem' not in _cache:
        _cache['sem'] = Sem()
    return _cache['sem']


def has_value_infer(c):
    m = c.find_method('value_infer')
    return m is not None and m.cls.name != 'Node'


def methods(c, names=('shape_infer', 'value_infer')):
    for m in names:
        if m == 'value_infer' and not has_value_infer(c):
            continue
        if m == 'shape_infer':
            mm = c.find_method(m)
            if mm.cls.name == 'Node' and not has_value_infer(c):
                continue
        yield m


def modes(op):
    yield 'open', dict(closed=False)
    if op in cases.schema():
        yield 'absent', dict(closed=True, attrs=cases.symbolic_attrs(cases.required(op)))
        yield 'given', dict(closed=True, attrs=cases.symbolic_attrs(cases.attr_names(op)))


def arities(op):
    if op in cases.CUSTOM:
        return [3, 5]
    return [a if a is not None else 3 for a in cases.arities(op)]


def outputs(op):
    return [o if o else 1 for o in cases.outputs(op)]


def runs(names=('shape_infer', 'value_infer'), which=('open', 'absent', 'given')):
    s = sem()
    for op, c in s.ops.items():
        for m in methods(c, names):
            for nin in arities(op):
                for nout in outputs(op):
                    for mode, kw in modes(op):
                        if mode not in which:
                            continue
                        k = (op, m, nin, nout, mode)
                        if k not in _cache:
                            _cache[k] = s.S.run(c, m, nin=nin, nout=nout, **kw)
                        yield op, c, m, nin, nout, mode, _cache[k]


def where(c, m, node=None):
    f = c.find_method(m)
    ln = getattr(node, 'lineno', None) or f.node.lineno
    return f'onnx_tool/node.py:{ln} {f.cls.name}.{m}'


# ------------------------------------------------------------------ the tensor interface
class TensorApi:
    """What Tensor.get_shape/get_numpy/get_scalar/update_* really do, from their own bodies."""

    def __init__(self):
        s = sem()
        self.cls = s.p.cls('onnx_tool.tensor', 'Tensor')
        self.self = ('param', 'self')
        self.info = {}
        for m in ('get_shape', 'get_numpy', 'get_scalar', 'update_shape', 'update_dtype', 'update_tensor'):
            f = self.cls.find_method(m)
            if f is None:
                continue
            I = Interp(s.p, {}, lambda t: self.cls if t == self.self else None)
            I.kind_hook = lambda t: 'list' if t[0] == 'attr' and t[2] == 'shape' else None
            v, st = I.run_function(f, {}, selfatom=self.self, cls=self.cls)
            self.info[m] = (f, I, v, st)

    def mutations(self, m):
        """(kind, what) of writes a method performs on anything but its own new objects"""
        f, I, v, st = self.info[m]
        out = set()
        for e in I.events:
            if e.kind == 'setattr':
                out.add(('set', T.show(e.atom), e.how))
            elif e.kind == 'mutate' and e.atom[0] != 'ref' and e.how != 'augassign':
                out.add(('mutate', T.show(e.atom), e.how))
        return out

    def shape_is_fresh(self):
        """get_shape hands out a new list"""
        f, I, v, st = self.info['get_shape']
        if st is None or v is None:
            return None
        bad = [a for a in v if a[0] == 'attr']
        return not bad

    def stored(self, m, name):
        """atoms stored in self.<name> on return (None: not on every path)"""
        f, I, v, st = self.info[m]
        if st is None:
            return None
        x = st.over.get((self.self, name))
        if x is None or MISSING in x:
            return None
        return I.terms_of(x, st)


def tensor_api():
    if 'api' not in _cache:
        _cache['api'] = TensorApi()
    return _cache['api']

"""The buffers of the inference runtime, abstractly: every tensor the analysed source handles is a place (buffer, first byte, byte count), an element type and a
shape; slicing, reinterpreting, reshaping, moving and copying are tracked, nothing else is assumed about the tensor library."""
from . import graphsem as gs, probe, terms as T
from .absint import V, Unreachable
from .probe import P, c, plain, tup

SIZES = {'float32': 4, 'float': 4, 'float16': 2, 'half': 2, 'bfloat16': 2, 'float64': 8, 'double': 8, 'uint8': 1, 'int8': 1, 'bool': 1, 'bool_': 1, 'int16': 2, 'int32': 4, 'int64': 8, 'long': 8}


ALIAS = {'float': 'float32', 'half': 'float16', 'double': 'float64', 'long': 'int64', 'int': 'int32', 'short': 'int16'}


def dt(name):
    """an element type of the tensor library, a value that can be compared and looked up"""
    return ('const', 'torch.dtype', 'torch.' + ALIAS.get(name, name))


def ext(path):
    if path.startswith('torch.') and path[6:] in SIZES:
        return dt(path[6:])
    return None


def one(v):
    return next(iter(v)) if v is not None and len(v) == 1 else None


def numel(shape):
    n = 1
    for d in shape:
        n *= d
    return n


class Meta:
    def __init__(self, buf, start, nbytes, dtype, shape):
        self.buf, self.start, self.nbytes, self.dtype, self.shape = buf, start, nbytes, dtype, list(shape)

    def key(self):
        return self.buf, self.start, self.nbytes, self.dtype, tuple(self.shape)

    def __repr__(self):
        return f'{self.buf}[{self.start}:{self.start + self.nbytes}] {self.dtype}{self.shape}'


class Torch:
    """tensor-library calls on known places; an unknown use yields an unknown value, an impossible one fails like the library does"""

    def __init__(self):
        self.meta = {}
        self.copies = []        # (destination, source)
        self.buffers = {}       # buffer -> bytes
        self.unknown = []

    # places
    def make(self, st, buf, start, nbytes, dtype, shape):
        t = P(f'tensor#{len(self.meta)}')
        self.meta[t] = Meta(buf, start, nbytes, dtype, shape)
        st.over[(t, 'shape')] = V(tup(*[c(int(d)) for d in shape]))
        st.over[(t, 'ndim')] = V(c(len(shape)))
        st.over[(t, 'dtype')] = V(dt(dtype))
        if len(shape) == 2 and not (isinstance(buf, tuple) and buf[0] == 'transposed'):
            u = self.make(st, ('transposed', buf), start, nbytes, dtype, list(reversed(shape)))
            st.over[(t, 'T')] = V(u)
            st.over[(u, 'T')] = V(t)
        return t

    def given(self, over, name, dtype, shape):
        """a tensor the caller owns"""
        t = P(f'tensor#{len(self.meta)}')
        self.meta[t] = Meta(name, 0, numel(shape) * SIZES[dtype], dtype, shape)
        self.buffers[name] = numel(shape) * SIZES[dtype]
        over.append((t, 'shape', tup(*[c(d) for d in shape])))
        over.append((t, 'ndim', c(len(shape))))
        over.append((t, 'dtype', dt(dtype)))
        return t

    def new(self, st, name, dtype, shape):
        b = f'{name}#{len(self.buffers)}'
        n = numel(shape) * SIZES[dtype]
        self.buffers[b] = n
        return self.make(st, b, 0, n, dtype, shape)

    def of(self, a):
        return self.meta.get(a)

    # values
    @staticmethod
    def dtype(v):
        a = one(v)
        if a is None:
            return None
        if a[0] == 'ext':
            return a[1].rsplit('.', 1)[-1] if a[1].rsplit('.', 1)[-1] in SIZES else None
        if a[0] == 'const' and isinstance(a[2], str):
            return a[2].rsplit('.', 1)[-1] if a[2].rsplit('.', 1)[-1] in SIZES else None
        if a[0] == 'call' and a[1].rsplit('.', 1)[-1] == 'dtype' and a[2]:
            return Torch.dtype(V(a[2][0]))
        if a[0] == 'builtin':
            return {'float': 'float64', 'int': 'int64', 'bool': 'bool'}.get(a[1])
        return None

    @staticmethod
    def ints(args, st):
        """a shape given as one sequence or as arguments"""
        out = []
        for i, v in enumerate(args):
            a = one(v)
            if a is None:
                return None
            x = plain(a, st)
            if isinstance(x, list) and i == 0 and len(args) == 1:
                out = x
                break
            out.append(x)
        if any(not isinstance(x, int) or isinstance(x, bool) for x in out):
            return None
        return out

    def tensorish(self, h):
        """methods that apply to known places only"""
        def g(I, b, args, kw, st, fr, node):
            m = self.of(b)
            if m is None:
                return NotImplemented
            r = h(m, b, args, kw, st)
            if r is None:
                self.unknown.append(node)
                return V(('call', 'torch', (b,), ()))
            return r if isinstance(r, frozenset) else V(r)
        return g

    def m_reshape(self, m, b, args, kw, st):
        if 'shape' in kw:
            args = [kw['shape']]
        sh = self.ints(args, st)
        if sh is None:
            return None
        n = numel(m.shape)
        if sh.count(-1) == 1:
            rest = numel([d for d in sh if d != -1])
            if rest == 0 or n % rest:
                raise Unreachable()
            sh = [n // rest if d == -1 else d for d in sh]
        if any(d < 0 for d in sh) or numel(sh) != n:
            raise Unreachable()
        return self.make(st, m.buf, m.start, m.nbytes, m.dtype, sh)

    def m_view(self, m, b, args, kw, st):
        d = self.dtype(kw.get('dtype') or (args[0] if len(args) == 1 else None))
        if d is None:
            return self.m_reshape(m, b, args, kw, st) if args and 'dtype' not in kw else None
        e = SIZES[d]
        if m.start % e or not m.shape or (m.shape[-1] * SIZES[m.dtype]) % e:
            raise Unreachable()
        return self.make(st, m.buf, m.start, m.nbytes, d, m.shape[:-1] + [m.shape[-1] * SIZES[m.dtype] // e])

    def m_flatten(self, m, b, args, kw, st):
        return None if args or kw else self.make(st, m.buf, m.start, m.nbytes, m.dtype, [numel(m.shape)])

    def m_same(self, m, b, args, kw, st):
        return b

    def m_numel(self, m, b, args, kw, st):
        return c(numel(m.shape))

    def m_elsize(self, m, b, args, kw, st):
        return c(SIZES[m.dtype])

    def m_dim(self, m, b, args, kw, st):
        return c(len(m.shape))

    def m_size(self, m, b, args, kw, st):
        if not args and not kw:
            return tup(*[c(d) for d in m.shape])
        i = plain(one(args[0]) or T.TOP, st) if args else None
        if not isinstance(i, int):
            return None
        if not -len(m.shape) <= i < len(m.shape):
            raise Unreachable()
        return c(m.shape[i])

    def m_narrow(self, m, b, args, kw, st):
        x = self.ints(args, st)
        if x is None or len(x) != 3 or kw or x[0] != 0:
            return None
        if x[1] < 0 or x[2] < 0 or x[1] + x[2] > m.shape[0]:
            raise Unreachable()
        e = SIZES[m.dtype] * numel(m.shape[1:])
        return self.make(st, m.buf, m.start + x[1] * e, x[2] * e, m.dtype, [x[2]] + m.shape[1:])

    def m_to(self, m, b, args, kw, st):
        d = self.dtype(kw.get('dtype')) if 'dtype' in kw else None
        if 'dtype' in kw and d is None:
            return None
        for v in args:
            d = self.dtype(v) or d
        d = d or m.dtype
        return self.make(st, ('moved', m.buf), m.start * SIZES[d] // SIZES[m.dtype], numel(m.shape) * SIZES[d], d, m.shape)

    def m_copy(self, m, b, args, kw, st):
        src = self.of(one(args[0])) if args else None
        if src is None:
            self.copies.append((m, None))
            return b
        x, y = list(m.shape), list(src.shape)
        if len(y) > len(x) and numel(y[:len(y) - len(x)]) != 1:
            raise Unreachable()
        for i in range(1, min(len(x), len(y)) + 1):
            if y[-i] not in (1, x[-i]):
                raise Unreachable()
        self.copies.append((m, src))
        return b

    def item(self, I, b, iv, st):
        m = self.of(b)
        if m is None:
            return None
        i = one(iv)
        if i is None or not m.shape:
            return None
        n, e = m.shape[0], SIZES[m.dtype] * numel(m.shape[1:])
        if i[0] == 'slice':
            v = [plain(x, st) for x in i[1:]]
            if any(x is not None and (not isinstance(x, int) or isinstance(x, bool)) for x in v) or v[2] not in (None, 1):
                return None
            lo, hi, _ = slice(*v).indices(n)
            hi = max(lo, hi)
            return V(self.make(st, m.buf, m.start + lo * e, (hi - lo) * e, m.dtype, [hi - lo] + m.shape[1:]))
        if i[0] == 'const' and isinstance(i[2], int) and not isinstance(i[2], bool):
            k = i[2]
            if not -n <= k < n:
                raise Unreachable()
            return V(self.make(st, m.buf, m.start + (k % n) * e, e, m.dtype, m.shape[1:]))
        return None

    # functions
    def f_new(self, I, path, args, kw, st, fr, node):
        d = self.dtype(kw.get('dtype')) if 'dtype' in kw else 'float32'
        sh = self.ints([kw['size']] if 'size' in kw else args, st)
        if d is None or sh is None:
            return None
        if any(x < 0 for x in sh):
            raise Unreachable()
        return V(self.new(st, path.rsplit('.', 1)[-1], d, sh))

    def f_tensor(self, I, path, args, kw, st, fr, node):
        d = self.dtype(kw.get('dtype')) if 'dtype' in kw else None
        x = plain(one(args[0]) or T.TOP, st) if args else None
        if d is None or not isinstance(x, list):
            return None
        sh = []
        while isinstance(x, list):
            sh.append(len(x))
            x = x[0] if x else None
        return V(self.new(st, 'tensor', d, sh))

    def f_wrap(self, I, path, args, kw, st, fr, node):
        return args[0] if args and self.of(one(args[0])) is not None else None

    def f_prod(self, I, path, args, kw, st, fr, node):
        sh = self.ints(args[:1], st)
        return None if sh is None else V(c(numel(sh)))

    def f_size(self, I, path, args, kw, st, fr, node):
        sh = self.ints(args[:1], st)
        return None if sh is None else V(tup(*[c(d) for d in sh]))

    def summaries(self):
        t = self.tensorish
        s = {'.reshape': t(self.m_reshape), '.view': t(self.m_view), '.flatten': t(self.m_flatten), '.ravel': t(self.m_flatten), '.numel': t(self.m_numel), '.nelement': t(self.m_numel),
             '.element_size': t(self.m_elsize), '.dim': t(self.m_dim), '.size': t(self.m_size), '.narrow': t(self.m_narrow), '.to': t(self.m_to), '.copy_': t(self.m_copy), '.astype': t(self.m_to),
             'ext:torch.empty': self.f_new, 'ext:torch.zeros': self.f_new, 'ext:torch.tensor': self.f_tensor, 'ext:torch.from_numpy': self.f_wrap, 'ext:torch.as_tensor': self.f_wrap,
             'ext:numpy.prod': self.f_prod, 'ext:math.prod': self.f_prod, 'ext:torch.Size': self.f_size}
        for n in ('contiguous', 'detach', 'zero_', 'squeeze_', 'fill_'):
            s['.' + n] = t(self.m_same)
        return s


class Insts(set):
    """everything the analysed objects have is known"""

    def __init__(self, *names):
        self.names = names

    def __contains__(self, a):
        return a[0] == 'inst' and a[1] in self.names


class Nonnull:
    def __init__(self, w):
        self.w = w

    def __contains__(self, a):
        return a in self.w.meta or a[0] == 'param'

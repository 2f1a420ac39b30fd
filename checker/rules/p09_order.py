"""P09: nothing a user sees is ordered by hashing, by the file system or by chance."""
import ast

from .. import graphsem as gs, model

TITLE = 'Reports, graphs and files come out in the same order every run'
TECHNIQUE = ('taint analysis over the syntax tree: values whose order comes from hashing or directory listing are followed through '
             'locals, attributes, parameters and returns to order-sensitive uses')
EXPLANATION = ('Sources are sets, set operations, dictionary-view differences and directory listings. Iterating one makes lists, dictionaries and '
               'text built in the loop order-dependent; sorting removes the taint. A tainted order that reaches an attribute, a returned value of '
               'an entry point, a print or write, or a foreign call is a violation.')

SET, LST, VAL = 'set', 'list', 'val'     # unordered collection / sequence in hash order / value picked by hash order
RANK = {None: 0, VAL: 1, LST: 2, SET: 3}
SAFE_CALLS = {'len', 'sum', 'min', 'max', 'sorted', 'set', 'frozenset', 'any', 'all', 'isinstance', 'bool', 'type', 'hasattr', 'getattr', 'id', 'hash',
              'Counter'}
CARRY = {'list', 'tuple', 'iter', 'enumerate', 'reversed', 'map', 'filter', 'zip', 'dict', 'OrderedDict', 'deque', 'chain', 'array', 'asarray'}
SET_METHODS = {'union', 'difference', 'intersection', 'symmetric_difference'}
LISTING = {'listdir', 'scandir', 'iterdir', 'glob', 'iglob', 'rglob', 'walk'}
LIST_GROW = {'append', 'extend', 'insert', 'appendleft'}
PRINTS = {'print', 'write', 'writelines', 'warn', 'log', 'info', 'debug'}
SETTERS = {'add', 'discard', 'update', 'remove', 'pop', 'clear', 'difference_update', 'intersection_update'}


def join(a, b):
    return a if RANK[a] >= RANK[b] else b


def rootname(e):
    while isinstance(e, (ast.Attribute, ast.Subscript)):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def names(e):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}


class Analysis:
    def __init__(self, ctx, p, scope):
        self.ctx, self.p = ctx, p
        self.fns = {}        # id(node) -> (fi, cls)
        self.byname = {}
        self.params = {}     # (qual, param) -> kind
        self.rets = {}       # qual -> kind
        self.attrs = {}      # attribute name -> kind (any class)
        self.globals = {}    # (module, name) -> kind
        self.sens = {}       # qual -> reason (order-sensitive effect)
        self.report = False
        self.list = []
        for mn, m in sorted(p.modules.items()):
            if not scope(mn):
                continue
            for b in m.bind.values():
                if isinstance(b, model.FunctionInfo) and b.module is m:
                    self.list.append((b, None))
                elif isinstance(b, model.ClassInfo) and b.module is m:
                    self.list += [(f, b) for f in b.methods.values()]
        for fi, c in self.list:
            self.byname.setdefault(fi.name, []).append((fi, c))
        for mn, m in p.modules.items():
            if scope(mn):
                for s in m.tree.body:
                    if isinstance(s, ast.Assign):
                        k = Fn(self, None, m).kind(s.value)
                        for t in s.targets:
                            if isinstance(t, ast.Name) and k:
                                self.globals[(mn, t.id)] = k
        self.called = set()
        for fi, c in self.list:
            for x in ast.walk(fi.node):
                if isinstance(x, ast.Call):
                    f = x.func
                    nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
                    if nm and nm != fi.name:
                        self.called.add(nm)

    def fixpoint(self):
        for _ in range(6):
            before = (dict(self.params), dict(self.rets), dict(self.attrs), dict(self.sens))
            for fi, c in self.list:
                Fn(self, fi, fi.module).run()
            if before == (self.params, self.rets, self.attrs, self.sens):
                break
        self.report = True
        for fi, c in self.list:
            Fn(self, fi, fi.module).run()


class Fn:
    def __init__(self, A, fi, module):
        self.A, self.fi, self.module = A, fi, module
        self.env = {}
        self.types = {}      # local name -> 'num'|'str'|'list'|'dict'|'set'
        self.unordered = []  # stack of (loop node, loop variables, names created inside so far)
        self.iters = 0

    # ------------------------------------------------------------------ kinds
    def kind(self, e):
        if e is None:
            return None
        m = getattr(self, 'k_' + type(e).__name__, None)
        if m:
            return m(e)
        return None

    def k_Name(self, e):
        if e.id in self.env:
            return self.env[e.id]
        b = self.module.bind.get(e.id) if self.module else None
        k = self.A.globals.get((self.module.name, e.id)) if self.module else None
        if k:
            return k
        if isinstance(b, model.ModuleVar):
            return self.A.globals.get((b.module.name, b.name))
        return None

    def k_Set(self, e):
        return SET

    def k_SetComp(self, e):
        self.comp_effects(e)
        return SET

    def comp_kind(self, e):
        k = None
        for g in e.generators:
            k = join(k, self.kind(g.iter))
        return k

    def comp_effects(self, e):
        pass

    def k_ListComp(self, e):
        return LST if self.comp_kind(e) in (SET, LST) else None

    k_GeneratorExp = k_ListComp
    k_DictComp = k_ListComp

    def k_IfExp(self, e):
        return join(self.kind(e.body), self.kind(e.orelse))

    def k_BoolOp(self, e):
        k = None
        for v in e.values:
            k = join(k, self.kind(v))
        return k

    def k_NamedExpr(self, e):
        return self.kind(e.value)

    def k_Starred(self, e):
        return LST if self.kind(e.value) in (SET, LST) else None

    def k_List(self, e):
        return LST if any(isinstance(x, ast.Starred) and self.kind(x.value) in (SET, LST) for x in e.elts) or \
            any(self.kind(x) == VAL for x in e.elts) else None

    k_Tuple = k_List

    def k_BinOp(self, e):
        l, r = self.kind(e.left), self.kind(e.right)
        if isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            if SET in (l, r) or any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('keys', 'items') for x in (e.left, e.right)):
                return SET
        if isinstance(e.op, ast.Add):
            return join(l, r)
        if isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
            return VAL if r else None
        return VAL if VAL in (l, r) else None

    def k_JoinedStr(self, e):
        return VAL if any(isinstance(v, ast.FormattedValue) and self.kind(v.value) for v in e.values) else None

    def k_Subscript(self, e):
        k = self.kind(e.value)
        if k == LST:
            return LST if isinstance(e.slice, ast.Slice) else VAL
        return VAL if k == VAL else None

    def k_Attribute(self, e):
        return self.A.attrs.get(e.attr) if isinstance(e.ctx, ast.Load) else None

    def k_Call(self, e):
        f = e.func
        nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        ak = None
        for a in e.args:
            ak = join(ak, self.kind(a.value if isinstance(a, ast.Starred) else a))
        if isinstance(f, ast.Name) and nm not in self.env:
            if nm in ('set', 'frozenset'):
                return SET
            if nm in ('sorted', 'len', 'sum', 'min', 'max', 'any', 'all', 'bool', 'int', 'float'):
                return None
            if nm in CARRY:
                if nm == 'map' or nm == 'filter':
                    ak = None
                    for a in e.args[1:]:
                        ak = join(ak, self.kind(a))
                return LST if ak in (SET, LST) else ak
            if nm == 'next':
                return VAL if ak else None
            if nm in ('str', 'repr'):
                return VAL if ak else None
        if isinstance(f, ast.Attribute):
            base = self.kind(f.value)
            if nm in SET_METHODS and (base == SET or not self.has_fn(nm)):
                return SET
            if nm == 'copy' or nm == 'deepcopy':
                return base or ak
            if base == SET and nm == 'pop':
                return VAL
            if base == LST and nm in ('keys', 'values', 'items'):
                return LST
            if base == LST and nm == 'pop':
                return VAL
            if nm in ('join', 'format') and ak:
                return VAL
            if nm in LISTING and (nm != 'walk' or rootname(f.value) in ('os', 'glob')) and not self.has_fn(nm):
                return SET
            if nm == 'fromkeys':
                return LST if ak in (SET, LST) else None
            if nm in CARRY and rootname(f.value) in ('itertools', 'collections', 'numpy', 'np'):
                return LST if ak in (SET, LST) else None
            if nm in ('glob', 'iglob', 'listdir'):
                return SET
        k = None
        for g, c in self.targets(f, nm):
            k = join(k, self.A.rets.get(g.qualname))
        return k

    def has_fn(self, nm):
        return nm in self.A.byname

    def targets(self, f, nm):
        if isinstance(f, ast.Name):
            b = self.module.bind.get(nm) if self.module else None
            if isinstance(b, model.FunctionInfo):
                return [(b, None)]
            if isinstance(b, model.ClassInfo):
                m = b.find_method('__init__')
                return [(m, b)] if m else []
            return [x for x in self.A.byname.get(nm, ()) if x[1] is None]
        c = self.A.byname.get(nm, ())
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'self' and self.fi is not None and self.fi.cls is not None:
            m = self.fi.cls.find_method(nm)
            if m:
                return [(m, self.fi.cls)]
        if len(c) > 3:
            c = [x for x in c if x[0].module.name != 'onnx_tool.node']
        return c if len(c) <= 3 else []

    # ------------------------------------------------------------------ statements
    def run(self):
        a = self.fi.node.args
        pos = a.posonlyargs + a.args
        for x in pos + a.kwonlyargs:
            self.env[x.arg] = self.A.params.get((self.fi.qualname, x.arg))
        for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            self.env[x.arg] = join(self.env[x.arg], self.kind(d))
        self.block(self.fi.node.body)

    def block(self, body):
        for i, s in enumerate(body):
            self.stmt(s, body[i + 1:])

    def fail(self, key, msg, node):
        if self.A.report:
            self.A.ctx.fail(f'{key}:{self.fi.qualname}', f'{self.fi.qualname} {msg}', f'{self.fi.module.rel}:{getattr(node, "lineno", 0)} {self.fi.qualname}')

    def stmt(self, s, rest):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.block(s.body)
            return
        if isinstance(s, ast.ClassDef):
            return
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return
            self.expr(s.value)
            k = self.kind(s.value)
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                self.bindto(t, k, s.value, s)
            return
        if isinstance(s, ast.AugAssign):
            self.expr(s.value)
            k = self.kind(s.value)
            if isinstance(s.op, ast.Add):
                self.grow(s.target, s.value, s, aug=True, k=k)
            elif isinstance(s.target, ast.Name) and k == SET:
                self.env[s.target.id] = SET
            return
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.expr(s.iter)
            k = self.kind(s.iter)
            vars_ = names(s.target)
            saved = dict(self.env)
            for v in vars_:
                self.env[v] = None
            if k in (SET, LST):
                self.A.ctx.count('loops over unordered values', 1 if self.A.report else 0)
                self.unordered.append((s, set(vars_), set()))
                self.block(s.body)
                self.block(s.body)
                self.unordered.pop()
                self.breaks(s, vars_, rest)
            else:
                self.block(s.body)
                self.block(s.body)
            for n in set(self.env) | set(saved):
                self.env[n] = join(self.env.get(n), saved.get(n))
            self.block(s.orelse)
            return
        if isinstance(s, ast.While):
            self.expr(s.test)
            saved = dict(self.env)
            self.block(s.body)
            self.block(s.body)
            for n in set(self.env) | set(saved):
                self.env[n] = join(self.env.get(n), saved.get(n))
            self.block(s.orelse)
            return
        if isinstance(s, ast.If):
            self.expr(s.test)
            e0 = dict(self.env)
            self.block(s.body)
            e1 = self.env
            self.env = dict(e0)
            self.block(s.orelse)
            t1, t2 = terminates(s.body), terminates(s.orelse)
            if t1 and not t2:
                pass
            elif t2 and not t1:
                self.env = e1
            else:
                for n in set(self.env) | set(e1):
                    self.env[n] = join(self.env.get(n), e1.get(n))
            return
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.expr(i.context_expr)
            self.block(s.body)
            return
        if isinstance(s, ast.Try):
            self.block(s.body)
            for h in s.handlers:
                self.block(h.body)
            self.block(s.orelse)
            self.block(s.finalbody)
            return
        if isinstance(s, ast.Return):
            if s.value is not None:
                self.expr(s.value)
                k = self.kind(s.value)
                if k is None and self.depends(s.value):
                    k = VAL
                if k:
                    self.A.rets[self.fi.qualname] = join(self.A.rets.get(self.fi.qualname), k)
                    if k != SET and self.entry():
                        self.fail('return', 'returns something whose order or choice comes from a set', s)
            return
        if isinstance(s, ast.Expr):
            if isinstance(s.value, (ast.Yield, ast.YieldFrom)) and self.unordered:
                self.A.rets[self.fi.qualname] = LST
            # a discarded set.pop() picks nothing
            self.expr(s.value)
            return
        for x in ast.iter_child_nodes(s):
            if isinstance(x, ast.expr):
                self.expr(x)

    def entry(self):
        return not self.fi.name.startswith('_') and (self.fi.name not in self.A.called or self.fi.name in PUBLIC)

    def depends(self, e):
        ns = names(e)
        return any(ns & v for _, v, _ in self.unordered)

    def breaks(self, loop, vars_, rest):
        """a value picked by the first hit of an unordered search"""
        def has_break(body):
            for s in body:
                if isinstance(s, ast.Break):
                    return True
                if isinstance(s, (ast.For, ast.While, ast.FunctionDef)):
                    continue
                for f in ('body', 'orelse', 'finalbody'):
                    if has_break(getattr(s, f, []) or []):
                        return True
            return False
        if not has_break(loop.body):
            return
        for x in ast.walk(loop):
            if isinstance(x, ast.Assign) and names(x.value) & vars_:
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        self.env[t.id] = join(self.env.get(t.id), VAL)
        for v in vars_:
            self.env[v] = VAL

    def bindto(self, t, k, value, s):
        if isinstance(t, ast.Name):
            self.env[t.id] = k
            self.types[t.id] = self.type_of(value)
            for _, vs, made in self.unordered:
                made.add(t.id)
            if self.depends(value):
                for _, vs, made in self.unordered:
                    if names(value) & vs:
                        vs.add(t.id)
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bindto(x, VAL if k in (LST, VAL) else None, value, s)
            return
        if isinstance(t, ast.Starred):
            return self.bindto(t.value, k, value, s)
        if isinstance(t, ast.Attribute):
            if k == SET:
                self.A.attrs[t.attr] = SET
            elif k in (LST, VAL):
                self.A.attrs[t.attr] = join(self.A.attrs.get(t.attr), k)
                self.fail('store', f'stores a value in hash order in {ast.unparse(t)}', s)
            r = rootname(t)
            if self.unordered and r is not None:
                for loop, vs, made in self.unordered:
                    if r not in vs and r not in made and names(value) & vs:
                        self.sensitive(f'keeps the last of an unordered set in {ast.unparse(t)}', s)
            return
        if isinstance(t, ast.Subscript):
            self.expr(t.slice)
            if k in (LST, VAL):
                r = t.value
                if isinstance(r, ast.Name):
                    self.env[r.id] = join(self.env.get(r.id), VAL if self.env.get(r.id) is None else None)
                else:
                    self.fail('store', f'stores a value in hash order in {ast.unparse(t)}', s)
            self.grow(t.value, t.slice, s)

    def type_of(self, e):
        if isinstance(e, ast.Constant):
            return 'str' if isinstance(e.value, (str, bytes)) else 'num'
        if isinstance(e, ast.JoinedStr):
            return 'str'
        if isinstance(e, (ast.List, ast.ListComp)):
            return 'list'
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return 'dict'
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('list', 'dict', 'str', 'set', 'int', 'float', 'bytearray'):
            return {'int': 'num', 'float': 'num', 'bytearray': 'str'}.get(e.func.id, e.func.id)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('format', 'join'):
            return 'str'
        if isinstance(e, ast.BinOp):
            l, r = self.type_of(e.left), self.type_of(e.right)
            return l if l in ('str', 'list') else r
        if isinstance(e, ast.Name):
            return self.types.get(e.id)
        return None

    def sensitive(self, what, node):
        """an effect whose result depends on the order in which the enclosing unordered loop runs"""
        self.fail('effect', what, node)

    def grow(self, target, value, node, aug=False, k=None):
        """something is added to a sequence or mapping"""
        r = rootname(target)
        if not isinstance(target, ast.Name) or r in self.param_names():
            base = ast.unparse(target)
            if not (aug and self.type_of(value) not in ('str', 'list')) and self.A.attrs.get(getattr(target, 'attr', None)) != SET:
                self.A.sens.setdefault(self.fi.qualname, f'adds to {base}')
        if aug and self.type_of(value) not in ('str', 'list') and not (isinstance(target, ast.Name) and self.types.get(target.id) in ('str', 'list')):
            return
        if k in (SET, LST, VAL):
            if isinstance(target, ast.Name):
                self.env[target.id] = join(self.env.get(target.id), LST)
            elif self.kind(target) != SET:
                self.fail('store', f'adds values in hash order to {ast.unparse(target)}', node)
        for loop, vs, made in self.unordered:
            if r in made or r in vs:
                continue
            if isinstance(target, ast.Name):
                if self.env.get(target.id) == SET:
                    return
                self.env[target.id] = join(self.env.get(target.id), LST)
                if target.id in self.param_names():
                    self.A.sens.setdefault(self.fi.qualname, f'adds to {target.id}')
            elif self.kind(target) != SET:
                self.sensitive(f'adds to {ast.unparse(target)} in the order of a set', node)

    def param_names(self):
        a = self.fi.node.args
        return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}

    def expr(self, e):
        for x in ast.walk(e):
            if isinstance(x, ast.Call):
                self.call(x)
            elif isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
                if self.comp_kind(x) in (SET, LST):
                    self.A.ctx.count('loops over unordered values', 1 if self.A.report else 0)

    def call(self, e):
        f = e.func
        nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        args = [a.value if isinstance(a, ast.Starred) else a for a in e.args] + [k.value for k in e.keywords]
        kinds = [self.kind(a) for a in args]
        if nm == 'sort' and isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            self.env[f.value.id] = None
            return
        if nm == 'sorted' or nm == 'sort':
            for k in e.keywords:
                if k.arg == 'key' and isinstance(k.value, ast.Name) and k.value.id in ('id', 'hash'):
                    self.fail('sort', 'sorts by identity or hash', e)
            return
        if isinstance(f, ast.Attribute) and nm in LIST_GROW and self.kind(f.value) != SET and not self.has_fn(nm):
            k = None
            for x in kinds:
                k = join(k, x)
            if nm != 'extend' and k == SET:
                k = None
            self.grow(f.value, e, e, k=k)
            return
        if isinstance(f, ast.Attribute) and nm == 'setdefault':
            self.grow(f.value, e, e)
            return
        if isinstance(f, ast.Attribute) and nm == 'update' and self.kind(f.value) != SET and not self.has_fn(nm):
            k = None
            for x in kinds:
                k = join(k, x)
            self.grow(f.value, e, e, k=k if k != VAL else None)
            return
        tg = self.targets(f, nm)
        if tg:
            for g, c in tg:
                ps = [a.arg for a in g.node.args.posonlyargs + g.node.args.args]
                if g.cls is not None and not g.is_static() and (isinstance(f, ast.Attribute) or g.name == '__init__'):
                    ps = ps[1:]
                for i, a in enumerate(e.args):
                    if not isinstance(a, ast.Starred) and i < len(ps):
                        self.param(g, ps[i], self.kind(a))
                for k in e.keywords:
                    if k.arg:
                        self.param(g, k.arg, self.kind(k.value))
                if g.qualname in self.A.sens:
                    r = rootname(f) if isinstance(f, ast.Attribute) else None
                    # effects on an object made inside the loop stay inside
                    if not (r and any(r in made or r in vs for _, vs, made in self.unordered)):
                        self.A.sens.setdefault(self.fi.qualname, f'{g.name} {self.A.sens[g.qualname]}')
                        if self.unordered:
                            self.sensitive(f'calls {g.name}, which {self.A.sens[g.qualname]}, in the order of a set', e)
            return
        if nm in PRINTS and nm:
            self.A.sens.setdefault(self.fi.qualname, 'writes output')
            if any(k for k in kinds):
                self.fail('output', f'writes a value in hash order with {nm}()', e)
            if self.unordered:
                self.sensitive(f'writes output in the order of a set with {nm}()', e)
            return
        if isinstance(f, ast.Name) and (nm in SAFE_CALLS or nm in CARRY or nm in ('next', 'str', 'repr', 'range', 'int', 'float', 'abs', 'print')):
            return
        if isinstance(f, ast.Attribute) and (self.kind(f.value) == SET or nm in SET_METHODS or nm in SETTERS or nm in ('join', 'format', 'copy', 'deepcopy', 'fromkeys', 'issubset', 'issuperset', 'isdisjoint',
                                                                            'count', 'index', '__contains__')):
            return
        if isinstance(f, ast.Attribute) and rootname(f) in ('itertools', 'collections', 'os', 'glob'):
            return
        if any(k in (SET, LST) for k in kinds) and not (nm and self.has_fn(nm)):
            self.fail('foreign', f'hands a value in hash order to {ast.unparse(f)[:50]}', e)

    def param(self, g, name, k):
        if k:
            key = (g.qualname, name)
            self.A.params[key] = join(self.A.params.get(key), k)


def terminates(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


from .p08_isolation import PUBLIC  # noqa: E402


def check(ctx):
    ctx.rule('a loop over a set, a set-like view or a directory listing only performs effects that commute')
    ctx.rule('lists, mappings and texts built in such a loop do not reach attributes, entry-point results, printed or written output or foreign calls unless sorted')
    ctx.assume('dictionaries keep insertion order (Python 3.7+); protobuf repeated fields keep theirs')
    p = gs.program(False)
    A = Analysis(ctx, p, lambda mn: mn.startswith('onnx_tool'))
    A.fixpoint()
    for fi, c in A.list:
        ctx.seen(fi.module.rel + ':' + fi.qualname)
        if not any(f.key.endswith(':' + fi.qualname) for f in ctx.findings):
            ctx.ok()
    ctx.floor('functions analysed', len(A.list), 300)
    ctx.count('set-valued attributes', sum(k == SET for k in A.attrs.values()))

"""P10: every internal call binds, every referenced name / module member / attribute of a known class exists."""
import ast
import builtins

from .. import model
from ..model import ClassInfo, FunctionInfo, Module, External, ModuleVar

TITLE = 'Internal calls and references always bind'
EXPLANATION = ('Interprocedural name and call-binding analysis: every name load is resolved through its scopes, every '
               'attribute of an analysed module or of a receiver whose class is inferred must exist, and every call whose '
               'callee resolves inside the program is matched against the callee signature (required, surplus, unknown '
               'and repeated arguments); fixed-length tuple results are matched against their unpacking.')

TECHNIQUE = 'whole-program name resolution and call-signature binding over the syntax tree with class inference'

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__package__', '__spec__', '__loader__', '__builtins__', '__path__'}
COMMON = set()
for _t in (str, bytes, list, dict, set, tuple, int, float, bytearray, frozenset, object, type, range, memoryview):
    COMMON |= set(dir(_t))


class Scope:
    def __init__(self, node, parent, module, cls=None):
        self.node, self.parent, self.module, self.cls = node, parent, module, cls
        self.names = set()
        self.globals = set()
        self.imports = {}
        self.assigns = {}       # name -> list of (kind, expr)
        self.functions = {}
        self.classes = {}


def _collect(scope, body):
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            scope.names.add(n.name)
            scope.functions[n.name] = n
            scope.assigns.setdefault(n.name, []).append(('def', n))
            todo.extend(n.decorator_list + n.args.defaults + [d for d in n.args.kw_defaults if d])
            continue
        if isinstance(n, ast.ClassDef):
            scope.names.add(n.name)
            scope.assigns.setdefault(n.name, []).append(('class', n))
            todo.extend(n.decorator_list + n.bases)
            continue
        if isinstance(n, ast.Lambda):
            todo.extend(n.args.defaults)
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    scope.names.add(x.target.id)
                    scope.assigns.setdefault(x.target.id, []).append(('unk', None))
            continue
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            scope.globals.update(n.names)
            continue
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for nm, tgt in scope.module.import_bindings(n):
                scope.names.add(nm)
                scope.imports[nm] = tgt
                scope.assigns.setdefault(nm, []).append(('import', tgt))
            continue
        if isinstance(n, ast.ExceptHandler) and n.name:
            scope.names.add(n.name)
            scope.assigns.setdefault(n.name, []).append(('unk', None))
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    scope.assigns.setdefault(t.id, []).append(('expr', n.value))
        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
            scope.assigns.setdefault(n.target.id, []).append(('expr', n.value))
        if isinstance(n, ast.With):
            for it in n.items:
                if isinstance(it.optional_vars, ast.Name):
                    scope.assigns.setdefault(it.optional_vars.id, []).append(('unk', None))
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            scope.names.add(n.id)
            scope.assigns.setdefault(n.id, [])
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            scope.names.add(n.name)
        todo.extend(ast.iter_child_nodes(n))


class Binder:
    def __init__(self, program, ctx):
        self.p = program
        self.ctx = ctx
        self.attr_stores = {}
        self.dynamic_classes = set()
        self.ret_cache = {}
        self.inst_cache = {}
        self.index()

    # ---------------------------------------------------------------- global indexes
    def index(self):
        self.all_attr_stores = set()
        self.methods_by_name = {}
        for m in self.p.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    self.all_attr_stores.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1:
                    if isinstance(n.args[1], ast.Constant):
                        self.all_attr_stores.add(n.args[1].value)
        for c in self.p.all_classes():
            for nm, mi in c.methods.items():
                self.methods_by_name.setdefault(nm, []).append(mi)
            for n in ast.walk(c.node):
                if isinstance(n, ast.Call) and ((isinstance(n.func, ast.Name) and n.func.id == 'setattr') or (
                        isinstance(n.func, ast.Attribute) and n.func.attr == '__setattr__')):
                    a = n.args[-2] if len(n.args) >= 2 else None
                    if a is not None and not isinstance(a, ast.Constant):
                        self.dynamic_classes.add(c)
            if '__getattr__' in c.methods or '__setattr__' in c.methods or '__getattribute__' in c.methods:
                self.dynamic_classes.add(c)

    def related(self, c):
        out = set(c.mro())
        for d in self.p.all_classes():
            if c in d.mro():
                out |= set(d.mro())
        return out

    def is_dynamic(self, c):
        return any(x in self.dynamic_classes for x in self.related(c)) or c.has_external_base() or any(
            x.node.decorator_list and not self._harmless(x) for x in c.mro()) or any(x.node.keywords for x in c.mro())

    def _harmless(self, c):
        for d in c.node.decorator_list:
            t = ast.unparse(d)
            if 'register' not in t and 'dataclass' not in t:
                return False
        return True

    def is_dataclass(self, c):
        return any('dataclass' in ast.unparse(d) for x in c.mro() for d in x.node.decorator_list)

    # ---------------------------------------------------------------- types
    def type_of(self, e, scope, depth=0):
        """Static value: ClassInfo/FunctionInfo/Module/External, ('inst', C), ('bound', fn, C), or None."""
        if depth > 12 or e is None:
            return None
        if isinstance(e, ast.Name):
            return self.name_type(e.id, scope, depth)
        if isinstance(e, ast.Attribute):
            b = self.type_of(e.value, scope, depth + 1)
            if isinstance(b, Module):
                return self.p.member(b, e.attr)
            if isinstance(b, External):
                return External(b.path + '.' + e.attr)
            if isinstance(b, ClassInfo):
                m = b.find_method(e.attr)
                return ('bound', m, b) if m is not None and m.is_classmethod() else m
            if isinstance(b, tuple) and b[0] == 'inst':
                m = b[1].find_method(e.attr)
                if m is not None:
                    if m.is_property():
                        return self.return_type(m, depth + 1)
                    return m if m.is_static() else ('bound', m, b[1])
                return self.inst_attr_type(b[1], e.attr, depth + 1)
            if isinstance(b, tuple) and b[0] == 'super':
                m = b[1].find_method(e.attr, after=b[1])
                return ('bound', m, b[1]) if m is not None else None
            return None
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
                s = scope
                while s is not None and s.cls is None:
                    s = s.parent
                return ('super', s.cls) if s is not None else None
            f = self.type_of(e.func, scope, depth + 1)
            if isinstance(f, ClassInfo):
                return ('inst', f)
            if isinstance(f, FunctionInfo):
                return self.return_type(f, depth + 1)
            if isinstance(f, tuple) and f[0] == 'bound':
                return self.return_type(f[1], depth + 1)
            return None
        if isinstance(e, ast.IfExp):
            a, b = self.type_of(e.body, scope, depth + 1), self.type_of(e.orelse, scope, depth + 1)
            return a if a == b else None
        return None

    def name_type(self, name, scope, depth):
        s = scope
        while s is not None:
            if name in s.globals:
                break
            if name in s.names:
                if isinstance(s.node, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    return None
                asg = s.assigns.get(name, [])
                stores = sum(1 for n in self._own_nodes(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == name)
                ts = []
                exprs = 0
                for kind, v in asg:
                    if kind == 'expr':
                        exprs += 1
                        if isinstance(v, ast.Constant) and v.value is None:
                            continue
                        ts.append(self.type_of(v, s, depth + 1))
                    elif kind == 'import':
                        ts.append(self.p.resolve_binding(v))
                    elif kind == 'def':
                        ts.append(FunctionInfo(name, s.module, v, parent=None))
                    elif kind == 'param':
                        ts.append(v)
                    else:
                        ts.append(None)
                if stores > exprs:
                    return None
                if ts and all(t is not None and self._same(t, ts[0]) for t in ts):
                    return ts[0]
                return None
            s = s.parent
        r = scope.module.lookup(name)
        if isinstance(r, ModuleVar):
            vals = [v for v in r.values]
            if len(vals) == 1 and vals[0] is not None:
                key = (r.module.name, r.name)
                if key in self.inst_cache:
                    return self.inst_cache[key]
                self.inst_cache[key] = None
                t = self.type_of(vals[0], Scope(r.module.tree, None, r.module), depth + 1)
                self.inst_cache[key] = t
                return t
            return None
        return r

    def _same(self, a, b):
        if isinstance(a, FunctionInfo) and isinstance(b, FunctionInfo):
            return a.node is b.node
        return a == b

    def _own_nodes(self, s):
        if not hasattr(s, 'own'):
            s.own = []
            body = s.node.body if isinstance(s.node.body, list) else [s.node.body]
            todo = list(body)
            while todo:
                n = todo.pop()
                s.own.append(n)
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.SetComp,
                                  ast.DictComp, ast.GeneratorExp)):
                    continue
                todo.extend(ast.iter_child_nodes(n))
        return s.own

    def inst_attr_type(self, c, name, depth):
        key = (c, name)
        if key in self.inst_cache:
            return self.inst_cache[key]
        self.inst_cache[key] = None
        ts = []
        for k in self.related(c):
            for mi in k.methods.values():
                sc = self.fn_scope(mi)
                params = [a.arg for a in mi.node.args.args]
                if not params:
                    continue
                for n in ast.walk(mi.node):
                    tgt = []
                    if isinstance(n, ast.Assign):
                        tgt = [(t, n.value) for t in n.targets]
                    elif isinstance(n, ast.AnnAssign) and n.value is not None:
                        tgt = [(n.target, n.value)]
                    for t, v in tgt:
                        if isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name) and t.value.id == params[0]:
                            if isinstance(v, ast.Constant) and v.value is None:
                                continue
                            ts.append(self.type_of(v, sc, depth + 1))
                        elif isinstance(t, (ast.Tuple, ast.List)):
                            for x in ast.walk(t):
                                if isinstance(x, ast.Attribute) and x.attr == name:
                                    ts.append(None)
        r = ts[0] if ts and all(t is not None and self._same(t, ts[0]) for t in ts) else None
        if isinstance(r, (FunctionInfo, ClassInfo, Module)) or (isinstance(r, tuple) and r[0] != 'inst'):
            r = None
        self.inst_cache[key] = r
        return r

    def return_type(self, fi, depth):
        if fi.node in self.ret_cache:
            return self.ret_cache[fi.node]
        self.ret_cache[fi.node] = None
        if isinstance(fi.node, ast.Lambda) or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fi.node)):
            return None
        sc = self.fn_scope(fi)
        rets = [n for n in self._own_nodes(sc) if isinstance(n, ast.Return)]
        ts = []
        for r in rets:
            if r.value is None or (isinstance(r.value, ast.Constant) and r.value.value is None):
                continue
            ts.append(self.type_of(r.value, sc, depth + 1))
        r = ts[0] if ts and all(t is not None and self._same(t, ts[0]) for t in ts) else None
        if not (isinstance(r, tuple) and r[0] == 'inst'):
            r = None
        self.ret_cache[fi.node] = r
        return r

    def fn_scope(self, fi, parent=None):
        sc = Scope(fi.node, parent, fi.module, fi.cls)
        self.add_params(sc, fi.node, fi.cls, fi)
        if not isinstance(fi.node, ast.Lambda):
            _collect(sc, fi.node.body)
        return sc

    def add_params(self, sc, node, cls=None, fi=None):
        a = node.args
        params = a.posonlyargs + a.args + a.kwonlyargs
        for i, x in enumerate(params):
            sc.names.add(x.arg)
            t = None
            if i == 0 and cls is not None and fi is not None and not fi.is_static():
                t = cls if fi.is_classmethod() else ('inst', cls)
            elif x.annotation is not None:
                r = sc.module.resolve_expr(x.annotation)
                if isinstance(r, ClassInfo):
                    t = ('inst', r)
            sc.assigns.setdefault(x.arg, []).append(('param', t))
        for x in (a.vararg, a.kwarg):
            if x is not None:
                sc.names.add(x.arg)
                sc.assigns.setdefault(x.arg, []).append(('param', None))

    # ---------------------------------------------------------------- checking
    def check_module(self, m):
        top = Scope(m.tree, None, m)
        self.walk(m.tree.body, top, m.rel, in_module=True)

    def bound(self, name, scope):
        s = scope
        while s is not None:
            if name in s.names and name not in s.globals:
                return True
            s = s.parent
        if name in scope.module.bind or scope.module.lookup(name) is not None or name in BUILTINS:
            return True
        for st in scope.module.star_imports:
            if self.p.find_module(st) is None:
                return True
        s = scope
        while s is not None:
            if name in s.globals:
                return True
            s = s.parent
        return False

    def walk(self, body, scope, where, in_module=False, cls=None):
        for st in body:
            self.visit(st, scope, where, cls)

    def visit(self, n, scope, where, cls=None):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                self.visit(d, scope, where)
            fi = FunctionInfo(n.name, scope.module, n, cls=cls)
            sc = Scope(n, scope if scope.parent is not None or not isinstance(scope.node, ast.Module) else None, scope.module, cls)
            sc.parent = scope if not isinstance(scope.node, ast.Module) else None
            if isinstance(scope.node, ast.ClassDef):
                sc.parent = scope.parent
            self.add_params(sc, n, cls, fi if cls is not None else None)
            _collect(sc, n.body)
            w = f'{scope.module.rel}:{n.lineno} ' + (f'{cls.name}.' if cls else '') + n.name
            self.ctx.seen(f'{scope.module.rel} ' + (f'{cls.name}.' if cls else '') + n.name)
            self.order_check(sc, n, w)
            for s in n.body:
                self.visit(s, sc, w)
            return
        if isinstance(n, ast.ClassDef):
            for d in n.decorator_list + n.bases:
                self.visit(d, scope, where)
            ci = scope.module.bind.get(n.name) if isinstance(scope.node, ast.Module) else None
            if not isinstance(ci, ClassInfo) or ci.node is not n:
                ci = next((c for c in scope.module.all_classes if c.node is n), None) or ClassInfo(n.name, scope.module, n)
            sc = Scope(n, scope if not isinstance(scope.node, ast.Module) else None, scope.module)
            _collect(sc, n.body)
            for s in n.body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.visit(s, sc, where, cls=ci)
                else:
                    self.visit(s, sc, f'{scope.module.rel}:{n.lineno} class {n.name}')
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults:
                self.visit(d, scope, where)
            sc = Scope(n, scope, scope.module)
            self.add_params(sc, n)
            self.visit(n.body, sc, where)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            sc = Scope(n, scope, scope.module)
            for g in n.generators:
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        sc.names.add(x.id)
            for g in n.generators:
                self.visit(g.iter, sc, where)
                for c in g.ifs:
                    self.visit(c, sc, where)
            for f in ('elt', 'key', 'value'):
                if hasattr(n, f):
                    self.visit(getattr(n, f), sc, where)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            self.check_import(n, scope, where)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            self.ctx.count('name loads')
            if not self.bound(n.id, scope):
                self.ctx.fail(f'unbound-name {self._fn(where)} {n.id}', f'name {n.id!r} is not defined in any enclosing scope', self._at(where, n))
            else:
                self.ctx.ok()
            return
        if isinstance(n, ast.Attribute):
            self.check_attr(n, scope, where)
        if isinstance(n, ast.Call):
            self.check_call(n, scope, where)
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Tuple, ast.List)):
            self.check_unpack(n, scope, where)
        if isinstance(n, (ast.arg,)):
            return
        if isinstance(n, ast.AnnAssign):
            for x in (n.target, n.value):
                if x is not None:
                    self.visit(x, scope, where)
            return
        for c in ast.iter_child_nodes(n):
            self.visit(c, scope, where)

    def _fn(self, where):
        return where.split(' ', 1)[1] if ' ' in where else where

    def _at(self, where, n):
        f = where.split(':')[0]
        return f'{f}:{getattr(n, "lineno", 0)} {self._fn(where)}'

    def check_import(self, n, scope, where):
        if isinstance(n, ast.ImportFrom):
            for nm, tgt in scope.module.import_bindings(n):
                if tgt[0] == 'from':
                    m = self.p.modules.get(tgt[1]) or self.p.find_module(tgt[1])
                    if m is not None:
                        if self.p.resolve_binding(tgt) is None:
                            self.ctx.fail(f'import {self._fn(where)} {tgt[1]}.{tgt[2]}', f'{tgt[2]!r} does not exist in {tgt[1]}', self._at(where, n))
                        else:
                            self.ctx.ok()

    def check_attr(self, n, scope, where):
        b = self.type_of(n.value, scope)
        if isinstance(b, Module):
            if self.p.member(b, n.attr) is None and not any(self.p.find_module(s) is None for s in b.star_imports) \
                    and n.attr not in ('__name__', '__file__', '__version__', '__doc__') and n.attr not in self.all_attr_stores:
                self.ctx.fail(f'member {self._fn(where)} {b.name}.{n.attr}', f'module {b.name} has no member {n.attr!r}', self._at(where, n))
            else:
                self.ctx.ok()
        elif isinstance(b, tuple) and b[0] == 'inst':
            c = b[1]
            if self.is_dynamic(c) or n.attr.startswith('__') and n.attr.endswith('__'):
                return
            if any(n.attr in x.methods or n.attr in x.attrs for x in self.related(c)) or n.attr in self.all_attr_stores \
                    or any(isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == n.attr
                           for x in self.related(c) for s in x.node.body):
                self.ctx.ok()
                return
            if isinstance(n.ctx, ast.Load):
                self.ctx.fail(f'attribute {self._fn(where)} {c.name}.{self.demangle(n.attr)}', f'no object of class {c.name} has an attribute or method {n.attr!r}',
                              self._at(where, n))

    def demangle(self, a):
        return a

    def check_unpack(self, n, scope, where):
        t = n.targets[0]
        if any(isinstance(x, ast.Starred) for x in t.elts) or not isinstance(n.value, ast.Call):
            return
        f = self.type_of(n.value.func, scope)
        fi = f if isinstance(f, FunctionInfo) else f[1] if isinstance(f, tuple) and f[0] == 'bound' else None
        if fi is None or isinstance(fi.node, ast.Lambda) or (fi.cls is not None and self.overridden(fi)):
            return
        sc = self.fn_scope(fi)
        for r in [x for x in self._own_nodes(sc) if isinstance(x, ast.Return)]:
            v = r.value
            if isinstance(v, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in v.elts):
                if len(v.elts) != len(t.elts):
                    self.ctx.fail(f'unpack {self._fn(where)} {fi.qualname}',
                                  f'{fi.qualname} returns {len(v.elts)} values at line {r.lineno}, the caller takes {len(t.elts)}', self._at(where, n))
                else:
                    self.ctx.ok()

    def overridden(self, fi):
        return any(fi.cls in d.mro() and d is not fi.cls and fi.name in d.methods for d in self.p.all_classes())

    def signature_error(self, fi, call, skip_self):
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if skip_self and pos:
            pos = pos[1:]
        elif skip_self and not a.vararg:
            return f'{fi.qualname} takes no self'
        posonly = {x.arg for x in a.posonlyargs}
        star = any(isinstance(x, ast.Starred) for x in call.args)
        kwstar = any(k.arg is None for k in call.keywords)
        npos = sum(1 for x in call.args if not isinstance(x, ast.Starred))
        kws = [k.arg for k in call.keywords if k.arg is not None]
        ndef = len(a.defaults)
        required = pos[:len(pos) - ndef] if ndef else list(pos)
        if ndef > len(pos):
            required = []
        if npos > len(pos) and a.vararg is None:
            return f'takes at most {len(pos)} positional arguments, {npos} given'
        filled = set(pos[:npos])
        for k in kws:
            if k in filled:
                return f'argument {k!r} given twice'
            if k not in pos and k not in [x.arg for x in a.kwonlyargs] and a.kwarg is None or k in posonly:
                return f'has no parameter {k!r}'
            filled.add(k)
        if not star and not kwstar:
            for r in required:
                if r not in filled:
                    return f'required argument {r!r} is missing'
        if not kwstar:
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is None and x.arg not in kws:
                    return f'required keyword argument {x.arg!r} is missing'
        return None

    def _decorated(self, fi):
        return any(not (isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property')) and 'abstractmethod' not in ast.unparse(d)
                   for d in getattr(fi.node, 'decorator_list', []))

    def check_call(self, n, scope, where):
        f = self.type_of(n.func, scope)
        if isinstance(f, ClassInfo):
            init = f.find_method('__init__')
            if init is None:
                if not f.has_external_base() and not self.is_dataclass(f) and (n.args or n.keywords) and not f.find_method('__new__'):
                    self.ctx.fail(f'call {self._fn(where)} {f.name}()', f'{f.name} takes no constructor arguments', self._at(where, n))
                return
            if self.is_dataclass(f) and '__init__' not in f.methods:
                return
            self.verdict(init, n, True, where, f.name)
        elif isinstance(f, FunctionInfo):
            if self._decorated(f) and not self.registry_decorated(f):
                return
            self.verdict(f, n, False, where, f.qualname)
        elif isinstance(f, tuple) and f[0] == 'bound':
            if self._decorated(f[1]):
                return
            self.verdict(f[1], n, True, where, f[1].qualname)
            # every override that can be reached must accept the call as well
            recv = f[2]
            if not (isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name)
                    and n.func.value.func.id == 'super'):
                for d in self.p.all_classes():
                    if d is not recv and recv in d.mro() and f[1].name in d.methods and d.methods[f[1].name] is not f[1]:
                        self.verdict(d.methods[f[1].name], n, True, where, d.name + '.' + f[1].name)
        elif f is None and isinstance(n.func, ast.Attribute):
            name = n.func.attr
            cands = self.methods_by_name.get(name)
            if not cands or name in COMMON or name.startswith('__'):
                return
            b = self.type_of(n.func.value, scope)
            if isinstance(b, External):
                return
            errs = [self.signature_error(c, n, not c.is_static()) for c in cands]
            self.ctx.count('calls on receivers of unknown class')
            if all(errs):
                if name in self.EXT_METHODS:
                    return
                self.ctx.fail(f'method-call {self._fn(where)} .{name}', f'no method named {name!r} accepts this call: {errs[0]}', self._at(where, n))
            else:
                self.ctx.ok()

    EXT_METHODS = {'run', 'register', 'load', 'save', 'close', 'open', 'write', 'read', 'forward', 'predict', 'set', 'add', 'show', 'reset', 'resize', 'view',
                   'build', 'eval', 'to', 'size', 'plot', 'start', 'stop', 'process'}

    def registry_decorated(self, f):
        return all('register' in ast.unparse(d) or isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property')
                   for d in f.node.decorator_list)

    def verdict(self, fi, n, skip_self, where, label):
        self.ctx.count('resolved internal calls')
        skip = skip_self and not fi.is_static()
        err = self.signature_error(fi, n, skip)
        if err:
            self.ctx.fail(f'call {self._fn(where)} {label}: {err}', f'call of {label} cannot bind: {err}', self._at(where, n))
        else:
            self.ctx.ok(f'{self._at(where, n)} -> {fi.qualname} binds')

    def order_check(self, sc, fn, where):
        """A local read before every store that could reach it (no loop, no nested function)."""
        params = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
        params |= {a.arg for a in (fn.args.vararg, fn.args.kwarg) if a is not None}
        gen = {}

        def stores(n):
            out = set()
            todo = [n]
            while todo:
                x = todo.pop()
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    out.add(x.id)
                if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    out.add(x.name)
                    continue
                if isinstance(x, (ast.Import, ast.ImportFrom)):
                    out |= {nm for nm, _ in sc.module.import_bindings(x)}
                if isinstance(x, ast.ExceptHandler) and x.name:
                    out.add(x.name)
                if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                    out.add(x.name)
                todo.extend(ast.iter_child_nodes(x))
            return out
        local = sc.names - sc.globals - params

        def loads(n, may):
            todo = [n]
            while todo:
                x = todo.pop(0)
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp,
                                  ast.GeneratorExp)):
                    continue
                if isinstance(x, ast.NamedExpr):
                    may.add(x.target.id)
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in local and x.id not in may:
                    self.ctx.fail(f'unassigned {self._fn(where)} {x.id}', f'local variable {x.id!r} is read although no path has assigned it',
                                  self._at(where, x))
                todo.extend(ast.iter_child_nodes(x))

        def go(body, may):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    may.add(s.name)
                    continue
                if isinstance(s, (ast.If,)):
                    loads(s.test, may)
                    a, b = set(may), set(may)
                    ea, eb = go(s.body, a), go(s.orelse, b)
                    may |= (a if not ea else set()) | (b if not eb else set())
                    if ea and eb:
                        return True
                elif isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
                    inner = set(may) | stores(s)
                    if isinstance(s, ast.While):
                        loads(s.test, set(inner))
                    else:
                        loads(s.iter, may)
                    go(s.body, set(inner))
                    may |= inner
                    go(s.orelse, may)
                elif isinstance(s, ast.Try):
                    m2 = set(may)
                    go(s.body, m2)
                    allst = set(may)
                    for x in s.body:
                        allst |= stores(x)
                    for h in s.handlers:
                        m3 = set(allst)
                        if h.name:
                            m3.add(h.name)
                        go(h.body, m3)
                        m2 |= m3
                    go(s.orelse, m2)
                    may |= m2 | allst
                    go(s.finalbody, may)
                elif isinstance(s, (ast.With, ast.AsyncWith)):
                    for it in s.items:
                        loads(it.context_expr, may)
                        if it.optional_vars is not None:
                            may |= stores(it.optional_vars)
                    if go(s.body, may):
                        return True
                else:
                    if isinstance(s, ast.AugAssign):
                        if isinstance(s.target, ast.Name) and s.target.id in local and s.target.id not in may:
                            self.ctx.fail(f'unassigned {self._fn(where)} {s.target.id}', f'local variable {s.target.id!r} is read although no path has assigned it',
                                          self._at(where, s))
                    loads(s, may)
                    may |= stores(s)
                    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                        return True
            return False
        go(fn.body, set())


def check(ctx):
    ctx.rule('name loads resolve; members of analysed modules exist; attributes of inferred classes exist; resolved calls match the callee signature; '
             'tuple results match their unpacking; no local is read where no path assigned it')
    prog = model.load(inference=True)
    ctx.floor('modules', len(prog.modules), 10)
    b = Binder(prog, ctx)
    for m in prog.modules.values():
        b.check_module(m)
    ctx.floor('resolved internal calls', ctx.counts.get('resolved internal calls', 0), 200)
    ctx.assume('receivers whose class cannot be inferred are only checked against every method of that name')

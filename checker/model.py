"""Program model: parsed modules of the repository with resolved names.

Nothing of the repository is imported or executed; everything is read from source with `ast`.
"""
import ast
import os

REPO = os.environ.get('VERIF_REPO', '/repo')


class AnalysisBroken(Exception):
    """An anchor of the analysis vanished: neither 'holds' nor 'violated'."""


class FunctionInfo:
    def __init__(self, name, module, node, cls=None, parent=None):
        self.name = name
        self.module = module
        self.node = node
        self.cls = cls
        self.parent = parent
        q = name
        if cls is not None:
            q = cls.name + '.' + name
        if parent is not None:
            q = parent.qualname + '.<locals>.' + name
        self.qualname = q
        self.nested = {}

    @property
    def where(self):
        return f'{self.module.rel}:{self.node.lineno} {self.qualname}'

    def is_static(self):
        return any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in self.node.decorator_list)

    def is_classmethod(self):
        return any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in self.node.decorator_list)

    def is_property(self):
        return any(isinstance(d, ast.Name) and d.id == 'property' for d in self.node.decorator_list)

    def __repr__(self):
        return f'<fn {self.module.name}.{self.qualname}>'


class ClassInfo:
    def __init__(self, name, module, node):
        self.name = name
        self.module = module
        self.node = node
        self.methods = {}
        self.attrs = {}        # class-level assignments: name -> value node
        self.base_exprs = node.bases
        self.program = None
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[st.name] = FunctionInfo(st.name, module, st, cls=self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.attrs[st.target.id] = st.value

    def bases(self):
        out = []
        for b in self.base_exprs:
            r = self.module.resolve_expr(b)
            if isinstance(r, ClassInfo):
                out.append(r)
        return out

    def mro(self):
        out, seen = [], set()

        def lin(c):
            if c in seen:
                return
            seen.add(c)
            out.append(c)
            for b in c.bases():
                lin(b)
        lin(self)
        return out

    def find_method(self, name, after=None):
        mro = self.mro()
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro
        for c in mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def is_subclass_of(self, name):
        return any(c.name == name for c in self.mro())

    def has_external_base(self):
        for c in self.mro():
            for b in c.base_exprs:
                if not isinstance(c.module.resolve_expr(b), ClassInfo):
                    if isinstance(b, ast.Name) and b.id in ('object', 'ABC'):
                        continue
                    return True
        return False

    @property
    def where(self):
        return f'{self.module.rel}:{self.node.lineno} class {self.name}'

    def __repr__(self):
        return f'<class {self.module.name}.{self.name}>'


class External:
    """A name of a module outside the analysed program (numpy, onnx, torch, ...)."""
    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, External) and o.path == self.path

    def __hash__(self):
        return hash(self.path)

    def __repr__(self):
        return f'<ext {self.path}>'


class ModuleVar:
    def __init__(self, module, name, values):
        self.module = module
        self.name = name
        self.values = values   # list of value expression nodes assigned at module level

    def __eq__(self, o):
        return isinstance(o, ModuleVar) and (o.module, o.name) == (self.module, self.name)

    def __hash__(self):
        return hash((self.module.name, self.name))

    def __repr__(self):
        return f'<var {self.module.name}.{self.name}>'


ALIASES = {'np': 'numpy'}


class Module:
    def __init__(self, program, name, path, package):
        self.program = program
        self.name = name
        self.path = path
        self.package = package
        self.rel = os.path.relpath(path, REPO)
        with open(path, encoding='utf-8') as f:
            self.source = f.read()
        self.tree = ast.parse(self.source, path)
        self.bind = {}
        self.vars = {}
        self.all_classes = []
        self.all_functions = []
        self.star_imports = []
        self._collect(self.tree.body)

    def _collect(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FunctionInfo(st.name, self, st)
                self.bind[st.name] = fi
                self.all_functions.append(fi)
            elif isinstance(st, ast.ClassDef):
                ci = ClassInfo(st.name, self, st)
                self.bind[st.name] = ci
                self.all_classes.append(ci)
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                for n, tgt in self.import_bindings(st):
                    self.bind[n] = tgt
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            self._var(n.id, st.value if isinstance(t, ast.Name) else None)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self._var(st.target.id, st.value)
            elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                self._var(st.target.id, None)
            elif isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for fld in ('body', 'orelse', 'finalbody'):
                    self._collect(getattr(st, fld, []) or [])
                for h in getattr(st, 'handlers', []) or []:
                    self._collect(h.body)
                if isinstance(st, ast.For):
                    for n in ast.walk(st.target):
                        if isinstance(n, ast.Name):
                            self._var(n.id, None)
                if isinstance(st, ast.With):
                    for it in st.items:
                        if it.optional_vars is not None:
                            for n in ast.walk(it.optional_vars):
                                if isinstance(n, ast.Name):
                                    self._var(n.id, None)

    def _var(self, name, value):
        mv = self.vars.get(name)
        if mv is None:
            mv = self.vars[name] = ModuleVar(self, name, [])
        mv.values.append(value)
        self.bind[name] = mv

    def import_bindings(self, st):
        out = []
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    out.append((a.asname, ('module', a.name)))
                else:
                    out.append((a.name.split('.')[0], ('module', a.name.split('.')[0])))
        else:
            base = st.module or ''
            if st.level:
                pkg = self.package.split('.') if self.package else []
                up = st.level - 1
                pkg = pkg[:len(pkg) - up] if up else pkg
                base = '.'.join([p for p in pkg if p] + ([st.module] if st.module else []))
            for a in st.names:
                if a.name == '*':
                    self.star_imports.append(base)
                    m = self.program.modules.get(base)
                    continue
                out.append((a.asname or a.name, ('from', base, a.name)))
        return out

    def lookup(self, name):
        """Resolved binding of a module-level name, or None."""
        b = self.bind.get(name)
        if b is None:
            for s in self.star_imports:
                m = self.program.find_module(s)
                if m is not None:
                    r = m.lookup(name)
                    if r is not None:
                        return r
            if self.package == self.name:      # importing a submodule binds it in its package
                return self.program.modules.get(self.name + '.' + name)
            return None
        return self.program.resolve_binding(b)

    def resolve_expr(self, node):
        if isinstance(node, ast.Name):
            return self.lookup(node.id)
        if isinstance(node, ast.Attribute):
            base = self.resolve_expr(node.value)
            return self.program.member(base, node.attr)
        return None


class Program:
    def __init__(self, roots):
        """roots: list of (module name, path, package)."""
        self.modules = {}
        self.by_short = {}
        for name, path, package in roots:
            if not os.path.exists(path):
                raise AnalysisBroken(f'source file {path} is missing')
            try:
                self.modules[name] = Module(self, name, path, package)
            except SyntaxError as e:
                raise AnalysisBroken(f'{path} does not parse: {e}')
        self._fn_index = None

    def find_module(self, dotted):
        if dotted in self.modules:
            return self.modules[dotted]
        # scripts of inference/ import their siblings by bare name
        for n, m in self.modules.items():
            if m.package == '' and n.split('.')[-1] == dotted:
                return m
        return None

    def resolve_binding(self, b, depth=0):
        if depth > 10:
            return None
        if isinstance(b, tuple):
            if b[0] == 'module':
                m = self.find_module(b[1]) if b[1] in self.modules or '.' not in b[1] else self.modules.get(b[1])
                return m if m is not None else External(ALIASES.get(b[1], b[1]))
            if b[0] == 'from':
                m = self.find_module(b[1])
                if m is not None:
                    if b[2] in m.bind:
                        return self.resolve_binding(m.bind[b[2]], depth + 1)
                    sub = self.modules.get(b[1] + '.' + b[2])
                    if sub is not None:
                        return sub
                    r = m.lookup(b[2])
                    return r
                sub = self.modules.get(b[1] + '.' + b[2])
                if sub is not None:
                    return sub
                return External(b[1] + '.' + b[2])
        return b

    def member(self, base, attr):
        if isinstance(base, Module):
            r = base.lookup(attr)
            if r is None:
                sub = self.modules.get(base.name + '.' + attr)
                return sub
            return r
        if isinstance(base, External):
            return External(base.path + '.' + attr)
        if isinstance(base, ClassInfo):
            m = base.find_method(attr)
            if m is not None:
                return m
        return None

    def all_classes(self):
        for m in self.modules.values():
            yield from m.all_classes

    def functions(self):
        """Every function and method (not nested ones) of the program."""
        for m in self.modules.values():
            yield from m.all_functions
            for c in m.all_classes:
                yield from c.methods.values()

    def module(self, name):
        if name not in self.modules:
            raise AnalysisBroken(f'module {name} not found')
        return self.modules[name]

    def cls(self, modname, clsname):
        r = self.module(modname).lookup(clsname)
        if not isinstance(r, ClassInfo):
            raise AnalysisBroken(f'class {clsname} not found in {modname}')
        return r

    def fn(self, modname, fname):
        r = self.module(modname).lookup(fname)
        if not isinstance(r, FunctionInfo):
            raise AnalysisBroken(f'function {fname} not found in {modname}')
        return r

    def method(self, modname, clsname, mname):
        c = self.cls(modname, clsname)
        m = c.find_method(mname)
        if m is None:
            raise AnalysisBroken(f'method {clsname}.{mname} not found in {modname}')
        return m


PKG = 'onnx_tool'


def load(inference=False, package=True):
    roots = []
    if package:
        d = os.path.join(REPO, PKG)
        if not os.path.isdir(d):
            raise AnalysisBroken(f'{d} is missing')
        for dirpath, dirs, files in sorted(os.walk(d)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith('.py'):
                    p = os.path.join(dirpath, f)
                    rel = os.path.relpath(p, REPO)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        name = rel[:-len('.__init__')]
                        roots.append((name, p, name))
                    else:
                        roots.append((rel, p, rel.rsplit('.', 1)[0]))
    if inference:
        for f in ('memory_pool', 'infer', 'kernels'):
            roots.append(('inference.' + f, os.path.join(REPO, 'inference', f + '.py'), ''))
    if inference == 'llm':
        roots.append(('benchmark.llm_test', os.path.join(REPO, 'benchmark', 'llm_test.py'), ''))
    return Program(roots)

"""Flow-sensitive abstract interpreter over the syntax tree.

Values are finite sets of terms (value numbering with joins at merges); local containers live in an abstract heap;
callees that resolve inside the program are inlined (recursion is cut).  Nothing is executed and no path is handed to a
solver: branches are joined, loops are summarised.
"""
import ast
import builtins
import time

from . import numsem
from . import terms as T
from .model import ClassInfo, FunctionInfo, Module, External, ModuleVar
from .terms import const, NONE, TRUE, FALSE, TOP, is_const, cval, idx, attr

MAXV = 14
MAXDEPTH = 14
UNROLL = 12
BUILTINS = set(dir(builtins))


_ORDER = {}


def ordered(v):
    """the terms of a set in a fixed order (sets keep their hash, so large ones are sorted once)"""
    if len(v) < 2:
        return list(v)
    r = _ORDER.get(v)
    if r is None:
        r = _ORDER[v] = sorted(v, key=repr)
    return r


def V(*atoms):
    return frozenset(atoms)


VTOP = V(TOP)
VNONE = V(NONE)
EMPTY = frozenset()


def vjoin(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a == b:
        return a
    r = a | b
    if len(r) > MAXV:
        return frozenset([TOP]) | frozenset(x for x in r if x[0] in ('ref', 'inst'))
    return r


def too_big(t, limit=3000):
    """terms that grow with every round of nested loops carry no usable information any more"""
    n = 0
    work = [t]
    while work:
        x = work.pop()
        n += 1
        if n > limit:
            return True
        work.extend(y for y in x if isinstance(y, (tuple, frozenset)))
    return False


class Obj:
    """Local container on the abstract heap."""
    __slots__ = ('kind', 'items', 'elem', 'sym', 'keys', 'keyv', 'node', 'mut', 'setk', 'maykeys', 'factory')

    def __init__(self, kind, items=None, elem=EMPTY, sym=None, keys=None, keyv=EMPTY, node=None, mut=False, setk=None):
        self.kind = kind
        self.factory = None     # dicts: makes the value of a missing key
        self.maykeys = EMPTY    # dicts: keys that are present on some paths only
        self.setk = setk        # sets: the exact members, when all are constants
        self.items = items      # list of V or None when the length is unknown
        self.elem = elem        # join of elements
        self.sym = sym          # term describing the whole content, or None
        self.keys = keys        # dicts: {const term: V} or None
        self.keyv = keyv
        self.node = node
        self.mut = mut

    def copy(self):
        o = Obj(self.kind, list(self.items) if self.items is not None else None, self.elem, self.sym,
                dict(self.keys) if self.keys is not None else None, self.keyv, self.node, self.mut, self.setk)
        o.maykeys = self.maykeys
        o.factory = self.factory
        return o

    def all_elems(self):
        v = self.elem
        for i in self.items or ():
            v = vjoin(v, i)
        for i in (self.keys or {}).values():
            v = vjoin(v, i)
        return v

    def __eq__(self, o):
        return isinstance(o, Obj) and (self.kind, self.items, self.elem, self.sym, self.keys, self.keyv, self.setk) == \
            (o.kind, o.items, o.elem, o.sym, o.keys, o.keyv, o.setk)


def obj_join(a, b):
    if a is b or a == b:
        return a
    o = Obj(a.kind if a.kind == b.kind else 'list', node=a.node, mut=a.mut or b.mut)
    if a.items is not None and b.items is not None and len(a.items) == len(b.items):
        o.items = [vjoin(x, y) for x, y in zip(a.items, b.items)]
        o.elem = vjoin(a.elem, b.elem)
    else:
        o.items = None
        o.elem = vjoin(a.all_elems(), b.all_elems())
    if a.keys is not None and b.keys is not None:
        o.keys = {}
        for k in list(a.keys) + [k for k in b.keys if k not in a.keys]:
            o.keys[k] = vjoin(a.keys.get(k), b.keys.get(k))
        o.factory = a.factory if a.factory == b.factory else None
        o.maykeys = a.maykeys | b.maykeys | (set(a.keys) ^ set(b.keys))
    o.keyv = vjoin(a.keyv, b.keyv)
    o.sym = a.sym if a.sym == b.sym else None
    o.setk = a.setk if a.setk == b.setk else None
    return o


class State:
    __slots__ = ('env', 'heap', 'over', 'facts')

    def __init__(self, env=None, heap=None, over=None, facts=None):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.over = over if over is not None else {}
        self.facts = facts if facts is not None else {}

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.over), dict(self.facts))

    def assign(self, o):
        self.env, self.heap, self.over, self.facts = o.env, o.heap, o.over, o.facts

    def same(self, o):
        return self.env == o.env and self.heap == o.heap and self.over == o.over and self.facts == o.facts


MISSING = ('missing',)   # marks "possibly unbound" members


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    env = {}
    for k in list(a.env) + [k for k in b.env if k not in a.env]:
        x, y = a.env.get(k), b.env.get(k)
        env[k] = vjoin(x if x is not None else V(MISSING), y if y is not None else V(MISSING))
    heap = dict(a.heap)
    for k, o in b.heap.items():
        heap[k] = obj_join(heap[k], o) if k in heap else o
    over = {}
    for k in list(a.over) + [k for k in b.over if k not in a.over]:
        x, y = a.over.get(k), b.over.get(k)
        if x is not None and y is not None:
            over[k] = vjoin(x, y)
        else:
            over[k] = vjoin(x if x is not None else y, V(MISSING))
    facts = {k: vjoin(v, b.facts[k]) for k, v in a.facts.items() if k in b.facts}
    return State(env, heap, over, facts)


def join_all(states):
    r = None
    for s in states:
        r = join(r, s)
    return r


class Frame:
    def __init__(self, fn, parent=None, cls=None, selfatom=None, module=None):
        self.fn = fn
        self.module = module or fn.module
        self.parent = parent       # caller frame
        self.cls = cls             # class providing the method (for super())
        self.selfatom = selfatom
        self.returns = []
        self.loops = []            # list of dict(breaks=[], conts=[])
        self.globals = set()
        self.closure = None        # (env dict) of the enclosing function
        self.tries = []            # per active try: list collecting states
        self.site = ''


class Unreachable(Exception):
    pass


class TooLong(Exception):
    """an analysis exceeded its time budget: nothing is concluded from it"""


class Endless(TooLong):
    """a loop whose every test and branch was decided did not end within the bound"""


BUDGET = {'deadline': None}


class Event:
    __slots__ = ('kind', 'atom', 'how', 'node', 'frame', 'extra', 'stack', 'guardsets', 'keys', 'content')

    def __init__(self, kind, atom, how, node, frame, extra=None, stack=()):
        self.kind, self.atom, self.how, self.node, self.frame, self.extra, self.stack = \
            kind, atom, how, node, frame, extra, stack
        self.keys = set()      # keys of a setitem
        self.content = set()   # elements of a list/tuple/set value at the time it was stored
        self.guardsets = []   # path conditions under which it happens: tuples of ('if', value, polarity) / ('for', iterated value)

    @property
    def where(self):
        return f'{self.frame.module.rel}:{getattr(self.node, "lineno", 0)} {self.frame.fn.qualname}'


LIST_MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse'}
SET_MUT = {'add', 'discard', 'update', 'intersection_update', 'difference_update', 'symmetric_difference_update', 'remove', 'clear', 'pop'}
DICT_MUT = {'update', 'setdefault', 'popitem', 'pop', 'clear'}
ALL_MUT = LIST_MUT | SET_MUT | DICT_MUT
ARRAY_MUT = {'fill', 'itemset', 'put', 'partition', 'resize', 'setflags', 'byteswap'}


_NUM = ('float16', 'float32', 'float64', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'bool_', 'bytes_', 'str_', 'complex64', 'complex128')
# library names known to denote pairwise different values
DISTINCT = (frozenset('numpy.' + x for x in _NUM),
            frozenset('onnx.TensorProto.' + x for x in ('UNDEFINED', 'FLOAT', 'UINT8', 'INT8', 'UINT16', 'INT16', 'INT32', 'INT64', 'STRING', 'BOOL', 'FLOAT16', 'DOUBLE',
                                                        'UINT32', 'UINT64', 'COMPLEX64', 'COMPLEX128', 'BFLOAT16')))


class Interp:
    def __init__(self, program, summaries=None, typer=None, assume_nonempty=True, on_event=None, unknown_call=None,
                 no_inline=(), truth_hook=None, opaque=None, on_call=None, keep_globals=False):
        self.p = program
        self.unroll = UNROLL
        self.recursion = 0          # how often a function may be entered again while it runs
        self.cut = 0                # calls whose effects were dropped
        self.peel_while = False     # peel every loop whose condition stays decided
        self.summaries = summaries or {}
        self.typer = typer or (lambda t: None)
        self.assume_nonempty = assume_nonempty
        self.events = []
        self._seen_events = {}
        self.guards = []
        self.track_guards = False
        self.list_slices = False
        self.copied = {}        # copy.copy() of an object -> the object
        self.on_event = on_event
        self.no_inline = set(no_inline)
        self.stack = []
        self.lvroots = {}
        self.inst_class = {}
        self.closures = {}
        self.global_cache = {}
        self.truth_hook = truth_hook
        self.int_hook = None
        self.select = None
        self.open_tables = False
        self.exact_try = False
        self.set_items = False        # sets are walked in some fixed order
        self.item_hook = None
        self.setitem_hook = None
        self.binop_hook = None
        self.splits = 0         # conditions that could not be decided
        self.last_raise = None
        self.strict_keys = False      # reading a key a completely known dict lacks fails
        self.ndlists = False          # nested lists stand for arrays: tuple indices, shape, elementwise reductions
        self.tables = {}
        self.opaque = opaque or (lambda fi: False)
        self.on_call = on_call
        self.calls_inlined = 0
        self.functions_seen = set()
        self.raises = []
        self.steps = 0
        self.iterctx = []
        self.closed = set()      # atoms whose attributes are all known: anything else does not exist
        self.nonnull = set()     # atoms known not to be None
        self.kind_hook = None
        self.attr_hook = None
        self.len_hook = None
        self.ext_hook = None
        self.order_hook = None   # term -> number: ordering of symbolic quantities

    def ext_term(self, path):
        t = self.ext_hook(path) if self.ext_hook else None
        return t if t is not None else ('ext', path)

    # ------------------------------------------------------------------ events
    def contents_of(self, v, st):
        out = set()
        for a in v or ():
            if a[0] == 'ref':
                o = st.heap.get(a[1])
                if o is not None:
                    out |= set(o.elem or ())
                    for i in (o.items or []):
                        out |= set(i)
            elif a[0] in ('list', 'tuple'):
                for x in a[1]:
                    out.add(x)
            elif a[0] == 'concat':
                out |= self.contents_of(a[1:], st)
        return out

    def emit(self, kind, atom, how, node, frame, extra=None, keys=None, st=None):
        self._emit(kind, atom, how, node, frame, extra)
        e = self._last_event
        if keys:
            e.keys |= set(keys)
        if st is not None and isinstance(extra, frozenset):
            e.content |= self.contents_of(extra, st)

    def _emit(self, kind, atom, how, node, frame, extra=None):
        e = Event(kind, atom, how, node, frame, extra, tuple(f.fn.qualname for f in self.stack))
        k = (kind, atom, how, id(node), frame.fn.qualname, self.stack[0].fn.qualname if self.stack else '',
             extra if isinstance(extra, frozenset) else None)
        if k in self._seen_events:
            e = self._last_event = self._seen_events[k]
            if self.track_guards:
                g = tuple(self.guards)
                if g not in e.guardsets and len(e.guardsets) < 64:
                    e.guardsets.append(g)
            return
        self._seen_events[k] = self._last_event = e
        e.guardsets.append(tuple(self.guards))
        self.events.append(e)
        if self.on_event:
            self.on_event(e)

    # ------------------------------------------------------------------ entry points
    def run_function(self, fi, args=None, st=None, selfatom=None, cls=None, kwargs=None):
        """Analyse fi as an entry point. args: dict param -> V. Returns (value V or None if it never returns, state)."""
        st = st or State()
        args = dict(args or {})
        fr = Frame(fi, None, cls or fi.cls, selfatom)
        env = {}
        a = fi.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        if selfatom is not None and params and not fi.is_static():
            env[params[0]] = V(selfatom)
            params = params[1:]
        for p in params + [x.arg for x in a.kwonlyargs]:
            env[p] = args.get(p, V(('param', p)))
        if a.vararg:
            env[a.vararg.arg] = args.get(a.vararg.arg, V(('param', '*' + a.vararg.arg)))
        if a.kwarg:
            env[a.kwarg.arg] = args.get(a.kwarg.arg, V(('param', '**' + a.kwarg.arg)))
        st2 = State(env, st.heap, st.over, st.facts)
        return self._run(fi, fr, st2)

    def _run(self, fi, fr, st):
        self.functions_seen.add(fi.module.name + '.' + fi.qualname)
        self.stack.append(fr)
        try:
            end = self.exec_block(fi.node.body if not isinstance(fi.node, ast.Lambda) else
                                  [ast.copy_location(ast.Return(value=fi.node.body), fi.node.body)], st, fr)
        finally:
            self.stack.pop()
        rets = list(fr.returns)
        if end is not None:
            rets.append((VNONE, end, None))
        if not rets:
            return None, None
        v = None
        s = None
        for rv, rs, _ in rets:
            v = vjoin(v, rv)
            s = join(s, rs)
        self.last_returns = rets
        return v, s

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, st, fr):
        n = len(self.guards)
        try:
            return self._exec_block(stmts, st, fr)
        finally:
            del self.guards[n:]

    def push_guard(self, test, positive, st, fr):
        if not self.track_guards:
            return
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.push_guard(test.operand, not positive, st, fr)
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) == positive:
            for v in test.values:
                self.push_guard(v, positive, st, fr)
            return
        try:
            c = self.ev(test, st.copy(), fr)
        except Unreachable:
            return
        ts = self.terms_of(c, st, 16)
        self.guards.append(('if', frozenset(ts) if ts else V(TOP), positive))

    def _exec_block(self, stmts, st, fr):
        for s in stmts:
            if st is None:
                return None
            for t in fr.tries:
                t.append(st.copy())
            st = self.exec(s, st, fr)
        if st is not None:
            for t in fr.tries:
                t.append(st.copy())
        return st

    def exec(self, s, st, fr):
        self.steps += 1
        if BUDGET['deadline'] is not None and time.monotonic() > BUDGET['deadline']:
            raise TooLong(fr.fn.qualname)
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            return st
        try:
            return m(s, st, fr)
        except Unreachable as e:
            if self.exact_try:
                inner = getattr(e, 'state', None)
                self.last_raise = st if inner is None else State(st.env, inner.heap, inner.over, inner.facts)
            return None

    def x_Expr(self, s, st, fr):
        self.ev(s.value, st, fr)
        return st

    def x_Pass(self, s, st, fr):
        return st

    def x_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else VNONE
        fr.returns.append((v, st, s))
        return None

    def x_Raise(self, s, st, fr):
        if s.exc is not None:
            self.ev(s.exc, st, fr)
        self.raises.append((fr.fn.qualname, s))
        self.last_raise = st
        return None

    def x_Assert(self, s, st, fr):
        v = self.ev(s.test, st, fr)
        if self.truth(v, st) is False:
            self.last_raise = st
            return None
        return self.refine(s.test, True, st, fr)

    def x_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr, s)
        return st

    def x_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr, s)
        return st

    def x_AugAssign(self, s, st, fr):
        load = self._as_load(s.target)
        cur = self.ev(load, st, fr)
        rhs = self.ev(s.value, st, fr)
        if self.binop_hook is not None and len(cur) == 1 and len(rhs) == 1:
            v = self.binop_hook(self, self.OPN.get(type(s.op), '?'), next(iter(cur)), next(iter(rhs)), st, inplace=True)
            if v is not None:
                self.assign(s.target, v, st, fr, s, aug=True)
                return st
        # in-place effects on mutable values
        newref = set()
        for a in cur:
            if a[0] == 'ref':
                o = st.heap.get(a[1])
                if o is not None and o.kind in ('list', 'set', 'dict'):
                    how = {ast.BitOr: 'update', ast.Sub: 'difference_update', ast.BitAnd: 'intersection_update'}.get(type(s.op)) if st.heap[a[1]].kind == 'set' else None
                    self.mutate_ref(a, how or ('extend' if isinstance(s.op, ast.Add) else 'aug'), [rhs], st, fr, s)
                    newref.add(a)
                    continue
            self.emit('mutate', a, 'augassign', s, fr, rhs)
        rest = frozenset(x for x in cur if x not in newref)
        if rest or not newref:
            v = self.binop(s.op, rest or VTOP, rhs, st, fr, s)
        else:
            v = EMPTY
        v = vjoin(v, frozenset(newref)) if newref else v
        self.assign(s.target, v, st, fr, s, aug=True)
        return st

    def _as_load(self, t):
        t2 = ast.copy_location(ast.parse(ast.unparse(t), mode='eval').body, t)
        for n in ast.walk(t2):
            n.lineno, n.col_offset = t.lineno, t.col_offset
        return t2

    def x_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, st, fr)
                i = self.ev(t.slice, st, fr)
                for b in base:
                    if b[0] == 'ref':
                        self.mutate_ref(b, 'del', [i], st, fr, s)
                    else:
                        self.emit('mutate', b, 'delitem', s, fr, i)
            elif isinstance(t, ast.Attribute):
                for b in self.ev(t.value, st, fr):
                    self.emit('setattr', b, t.attr, s, fr, EMPTY)
        return st

    def x_Global(self, s, st, fr):
        fr.globals.update(s.names)
        return st

    x_Nonlocal = x_Pass

    def x_Import(self, s, st, fr):
        for n, tgt in fr.module.import_bindings(s):
            st.env[n] = self.bind_value(fr.module.program.resolve_binding(tgt))
        return st

    x_ImportFrom = x_Import

    def x_FunctionDef(self, s, st, fr):
        fi = FunctionInfo(s.name, fr.module, s, parent=fr.fn)
        cid = ('closure', id(s), fr.fn.qualname)
        self.closures[cid] = (fi, st.env, fr)
        for d in s.decorator_list:
            self.ev(d, st, fr)
        st.env[s.name] = V(cid)
        return st

    def x_ClassDef(self, s, st, fr):
        ci = ClassInfo(s.name, fr.module, s)
        st.env[s.name] = V(('cls', ci))
        return st

    def x_If(self, s, st, fr):
        c = self.ev(s.test, st, fr)
        t = self.truth(c, st)
        self.splits += t is None
        outs = []
        n = len(self.guards)
        alive = {}
        for pol, body in ((True, s.body), (False, s.orelse)):
            if t is (not pol):
                continue
            a = self.refine(s.test, pol, st.copy(), fr)
            if a is not None:
                self.push_guard(s.test, pol, st, fr) if t is None else None
                o = self.exec_block(body, a, fr)
                del self.guards[n:]
                outs.append(o)
                alive[pol] = o is not None
        if t is None and len(alive) == 2 and alive[True] != alive[False]:
            self.push_guard(s.test, alive[True], st, fr)   # what follows runs only in the surviving case
        return join_all([o for o in outs if o is not None])

    def x_With(self, s, st, fr):
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr, s)
        return self.exec_block(s.body, st, fr)

    def is_int(self, t):
        """t is certainly an int: a constant or an integer polynomial of atoms declared integral"""
        if t[0] == 'const':
            return isinstance(t[2], int) and not isinstance(t[2], bool)
        if self.int_hook is None:
            return False
        if t[0] == 'poly':
            return all(isinstance(c, int) and all(p > 0 and self.is_int(x) for x, p in m) for m, c in t[1])
        if t[0] == 'call' and t[1] in ('pymax', 'pymin', 'maximum', 'minimum', 'floordiv', 'copy', 'mod', 'pymod') and t[2]:
            return all(self.is_int(x) for x in t[2])
        if t[0] == 'call' and t[1] in ('int', 'len', 'ceil', 'floor'):
            return True
        return bool(self.int_hook(t))

    def cannot_raise(self, body, st, fr):
        """the body of a try statement is a single conversion of something already known to be an integer"""
        if len(body) != 1 or not isinstance(body[0], (ast.Return, ast.Assign)):
            return False
        v = body[0].value
        if not (isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('int', 'float') and len(v.args) == 1 and not v.keywords):
            return False
        if self.lookup(v.func.id, st, fr) != V(('builtin', v.func.id)) or not isinstance(v.args[0], ast.Name):
            return False
        x = self.ev(v.args[0], st, fr)
        return bool(x) and all(self.is_int(numsem.strip_copy(self.as_term(a, st))) for a in x)

    def try_exactly(self, s, st, fr):
        """every failure is decided: a handler runs, in the state of the failure, when the body fails and only then"""
        nret = len(fr.returns)
        self.last_raise = None
        body = self.exec_block(s.body, st, fr)
        failed, self.last_raise = self.last_raise, None
        if body is not None and s.orelse:
            body = self.exec_block(s.orelse, body, fr)
        outs = [body]
        if failed is not None and s.handlers:
            hs = failed.copy()
            h = s.handlers[0]
            if h.name:
                hs.env[h.name] = V(('call', 'exception', (), ()))
            outs.append(self.exec_block(h.body, hs, fr))
        elif failed is not None:
            self.last_raise = failed
        out = join_all([o for o in outs if o is not None])
        if s.finalbody:
            for i in range(nret, len(fr.returns)):
                v, rs, n = fr.returns[i]
                fr.returns[i] = (v, self.exec_block(s.finalbody, rs, fr) or rs, n)
            if out is not None:
                out = self.exec_block(s.finalbody, out, fr)
            elif self.last_raise is not None:
                self.last_raise = self.exec_block(s.finalbody, self.last_raise, fr)
        return out

    def x_Try(self, s, st, fr):
        if self.exact_try:
            return self.try_exactly(s, st, fr)
        seen = []
        if not s.finalbody and not s.orelse and self.cannot_raise(s.body, st, fr):
            return self.exec_block(s.body, st, fr)
        fr.tries.append(seen)
        st0 = st.copy()
        body = self.exec_block(s.body, st, fr)
        fr.tries.pop()
        if body is not None:
            body = self.exec_block(s.orelse, body, fr)
        outs = [body] if body is not None else []
        hin = join_all([st0] + seen)
        for h in s.handlers:
            hs = hin.copy()
            if h.name:
                hs.env[h.name] = V(('call', 'exception', (), ()))
            r = self.exec_block(h.body, hs, fr)
            if r is not None:
                outs.append(r)
        out = join_all(outs)
        if s.finalbody:
            if out is None:
                self.exec_block(s.finalbody, hin.copy(), fr)
                return None
            out = self.exec_block(s.finalbody, out, fr)
        return out

    def assigned_names(self, body):
        out = set()
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    out.add(n.name)
        return out

    def x_For(self, s, st, fr):
        itv = self.ev(s.iter, st, fr)
        items = self.known_items(itv, st)
        if items is not None and len(items) <= self.unroll:
            out_breaks = []
            cur = st
            live = self.live_list(s.iter, itv, st, fr)
            k = -1
            while cur is not None:
                k += 1
                if live is not None:
                    # a list is read as it is now, not as it was when the loop began
                    o = cur.heap.get(live[0])
                    if o is None or o.items is None or k >= self.unroll * 2:
                        live = None
                    else:
                        if k >= len(o.items):
                            break
                        v = o.items[k]
                        if live[1]:
                            v = V(('tuple', (const(k), next(iter(v))))) if len(v) == 1 else VTOP
                if live is None:
                    if k >= len(items):
                        break
                    v = items[k]
                ctl = {'breaks': [], 'conts': []}
                fr.loops.append(ctl)
                self.iterctx.append(k)
                self.assign(s.target, v, cur, fr, s)
                cur = self.exec_block(s.body, cur, fr)
                self.iterctx.pop()
                fr.loops.pop()
                cur = join_all([cur] + ctl['conts'])
                out_breaks += ctl['breaks']
            if cur is not None and s.orelse:
                cur = self.exec_block(s.orelse, cur, fr)
            return join_all([cur] + out_breaks)
        elem = self.iter_elem(itv, s, st, fr)
        self.splits += 1
        return self.loop(s, st, fr, lambda x: self.assign(s.target, elem, x, fr, s), elem, itv)

    def live_list(self, e, itv, st, fr):
        """(heap location, enumerated) of the list object a loop walks over"""
        enum = False
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'enumerate' and len(e.args) == 1 and not e.keywords and 'enumerate' not in st.env:
            e, enum = e.args[0], True
            if not isinstance(e, (ast.Name, ast.Attribute)):
                return None
            itv = self.ev(e, st, fr)
        if len(itv) == 1 and isinstance(e, (ast.Name, ast.Attribute)):
            a, = itv
            o = st.heap.get(a[1]) if a[0] == 'ref' else None
            if o is not None and o.kind == 'list' and o.items is not None and not o.elem:
                return a[1], enum
        return None

    def order(self, v, st):
        """a number or string that orders this value among its kind, or None"""
        if len(v) != 1:
            return None
        a, = v
        t = numsem.strip_copy(self.as_term(a, st))
        if is_const(t) and isinstance(cval(t), (int, float, str)):
            return cval(t)
        if t[0] in ('tuple', 'list'):
            r = tuple(self.order(V(x), st) for x in t[1])
            return None if None in r else r
        return self.order_hook(t) if self.order_hook is not None else None

    def ordered(self, items, kwargs, st, fr, node):
        """the items in sorted order when every key is known"""
        key, rev = kwargs.get('key'), kwargs.get('reverse')
        if set(kwargs) - {'key', 'reverse'} or items is None:
            return None
        r = self.truth(rev, st) if rev is not None else False
        if r is None or any(len(i) != 1 for i in items):
            return None
        ks = []
        for i in items:
            k = i
            if key is not None and key != VNONE:
                if len(key) != 1:
                    return None
                k = self.call_value(next(iter(key)), [i], {}, st, fr, node)
            k = self.order(k, st)
            if k is None:
                return None
            ks.append(k)
        try:
            return [items[i] for i in sorted(range(len(items)), key=lambda i: ks[i], reverse=r)]
        except TypeError:
            return None

    def x_While(self, s, st, fr):
        t = self.truth(self.ev(s.test, st.copy(), fr), st)
        if t is False:
            return self.exec_block(s.orelse, st, fr) if s.orelse else st

        peel = isinstance(s.test, ast.Compare) and self.counted(s) or self.peel_while
        self.splits += t is None or not peel
        outs = []
        if t is True and peel:
            # a counting loop: peeled while the condition is decided
            for k in range((4 if self.peel_while else 2) * self.unroll):
                ctl = {'breaks': [], 'conts': []}
                fr.loops.append(ctl)
                self.iterctx.append(k)
                self.ev(s.test, st, fr)
                st = self.exec_block(s.body, st, fr)
                self.iterctx.pop()
                fr.loops.pop()
                st = join_all([st] + ctl['conts'])
                outs += ctl['breaks']
                if st is None:
                    return join_all(outs)
                t = self.truth(self.ev(s.test, st.copy(), fr), st)
                if t is not True:
                    break
            if t is True and self.peel_while and not self.splits and not self.cut:
                raise Endless(f'{fr.fn.qualname}: the loop at line {s.lineno}')
            if t is False:
                st = self.exec_block(s.orelse, st, fr) if s.orelse else st
                return join_all([st] + outs)

        def bind(x):
            self.ev(s.test, x, fr)
        return join_all(outs + [self.loop(s, st, fr, bind, None, None, always=isinstance(s.test, ast.Constant) and bool(s.test.value))])

    @staticmethod
    def counted(s):
        """the body steps a variable of the condition by a constant"""
        names = {x.id for x in ast.walk(s.test) if isinstance(x, ast.Name)}
        return any(isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id in names and isinstance(x.value, ast.Constant) for x in ast.walk(s))

    def loop(self, s, st, fr, bind, elem, itv, always=False):
        iswhile = isinstance(s, ast.While)
        names = self.assigned_names(s.body)
        if isinstance(s, ast.For):
            names -= {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        loopid = (fr.module.name, s.lineno, s.col_offset)
        init = {}
        for n in sorted(names):
            if n in st.env:
                v = st.env[n]
                if not any(a[0] in ('ref', 'inst', 'fn', 'closure', 'cls') for a in v):
                    init[n] = v
        entry = st.copy()
        head = st.copy()
        for n in init:
            lv = ('lv', loopid, n)
            self.lvroots[lv] = vjoin(self.lvroots.get(lv), init[n])
            head.env[n] = V(lv)
        final = None
        for rnd in range(3):
            ctl = {'breaks': [], 'conts': []}
            fr.loops.append(ctl)
            cur = head.copy()
            ng = len(self.guards)
            bind(cur)
            if self.track_guards:
                if iswhile:
                    self.push_guard(s.test, True, cur, fr)
                else:
                    self.guards.append(('for', itv, elem))
            if iswhile:
                cur = self.refine(s.test, True, cur, fr)
            if cur is not None:
                cur = self.exec_block(s.body, cur, fr)
            del self.guards[ng:]
            fr.loops.pop()
            cur = join_all([cur] + ctl['conts'])
            if cur is not None:
                for n in init:
                    lv = ('lv', loopid, n)
                    self.lvroots[lv] = vjoin(self.lvroots.get(lv), frozenset(
                        a for a in cur.env.get(n, EMPTY) if a != lv and not self._mentions(a, lv)))
            nxt = join(head, cur)
            for n in init:
                nxt.env[n] = V(('lv', loopid, n))
            # heap/other variables reach a fixpoint through joins
            stable = nxt.same(head)
            head = nxt
            final = (cur, ctl)
            if stable:
                break
        cur, ctl = final
        # promote "append once per iteration to an empty list" to a map
        if cur is not None and itv is not None:
            for loc, o in cur.heap.items():
                e = entry.heap.get(loc)
                if e is not None and e.kind == 'list' and e.items == [] and not ctl['breaks'] and not e.elem:
                    first = self._first_pass.get((id(s), loc)) if hasattr(self, '_first_pass') else None
        zero = entry
        outs = []
        if not always:
            if cur is not None:
                after = join(zero, cur)
                if self.assume_nonempty and not iswhile:
                    after.facts = dict(cur.facts)
                    for k, v in entry.facts.items():
                        if k in after.facts:
                            after.facts[k] = vjoin(after.facts[k], v) if False else after.facts[k]
                self.finish_loop_vars(after, entry, cur, init, loopid, itv)
                self.finish_loop_lists(after, entry, cur, s, itv, st, fr)
            else:
                after = zero
            if iswhile:
                after = self.refine(s.test, False, after, fr)
            if after is not None and s.orelse:
                after = self.exec_block(s.orelse, after, fr)
            if after is not None:
                outs.append(after)
        for b in ctl['breaks']:
            for n in init:
                lv = ('lv', loopid, n)
                b.env[n] = self._resolve_lv(b.env.get(n, EMPTY), lv, init[n])
            outs.append(b)
        return join_all(outs)

    def _mentions(self, a, lv):
        return any(x == lv for x in T.subterms(a))

    def _resolve_lv(self, v, lv, initv):
        out = set()
        for a in v:
            if a == lv:
                out |= initv
            elif self._mentions(a, lv):
                out.add(('top', frozenset()))
            else:
                out.add(a)
        return frozenset(out)

    def finish_loop_vars(self, after, entry, cur, init, loopid, itv):
        for n, v0 in init.items():
            lv = ('lv', loopid, n)
            res = set(v0)
            for a in cur.env.get(n, EMPTY):
                if a == lv or a == MISSING:
                    continue
                if not self._mentions(a, lv):
                    res.add(a)
                    if self.assume_nonempty and itv is not None and lv not in cur.env.get(n, EMPTY):
                        pass
                    continue
                acc = self._accumulate(a, lv)
                for i in v0:
                    if acc is None:
                        res.add(TOP)
                    elif acc[0] == 'sum':
                        res.add(T.add(i, ('call', 'sumover', (acc[1],), ())) if i[0] not in ('ref', 'inst') else TOP)
                    elif acc[0] == 'prod':
                        res.add(T.mul(i, ('call', 'prodover', (acc[1],), ())))
                    elif acc[0] == 'fold':
                        res.add(('call', 'fold:' + acc[1], (i,) + acc[2], acc[3]))
                    else:
                        res.add(TOP)
            # a loop assumed to run at least once overwrites the initial value when no iteration keeps it
            body_v = cur.env.get(n, EMPTY)
            if self.assume_nonempty and itv is not None and lv not in body_v and MISSING not in body_v \
                    and not any(self._mentions(a, lv) for a in body_v):
                res = set(body_v)
            elif self.assume_nonempty and itv is not None and lv not in body_v and all(
                    self._mentions(a, lv) for a in body_v):
                res -= set(v0) - {x for x in res if x not in v0}
                res = {x for x in res if x not in v0} or res
            after.env[n] = frozenset(res) if len(res) <= MAXV else VTOP

    def _accumulate(self, a, lv):
        p = T.as_poly(a)
        mono = ((lv, 1),)
        if p.get(mono) == 1:
            rest = T.from_poly({m: c for m, c in p.items() if m != mono})
            if not self._mentions(rest, lv):
                return ('sum', rest)
            return None
        if len(p) == 1:
            (m, c), = p.items()
            if (lv, 1) in m:
                rest = T.from_poly({tuple(x for x in m if x != (lv, 1)): c})
                if not self._mentions(rest, lv):
                    return ('prod', rest)
                return None
        if a[0] == 'call' and lv in a[2] and not a[3]:
            others = tuple(x for x in a[2] if x != lv)
            if not any(self._mentions(x, lv) for x in others) and len(others) == len(a[2]) - 1:
                return ('fold', a[1], others, ())
        return None

    def finish_loop_lists(self, after, entry, cur, s, itv, st, fr):
        # a list empty at entry to which exactly one value is appended per iteration is a map
        for loc, e in entry.heap.items():
            if e.kind != 'list' or e.items != [] or e.elem:
                continue
            o = after.heap.get(loc)
            if o is None or o.items is not None:
                continue
            n_app = self._unconditional_appends(s, loc, entry)
            seqs = [a for a in itv if a[0] not in ('ref', 'inst')] if itv else []
            if n_app and len(o.elem) == 1 and len(seqs) == 1 and len(itv) == 1:
                el, = o.elem
                if el[0] not in ('ref', 'inst', 'closure', 'fn'):
                    o2 = o.copy()
                    o2.sym = ('map', el, self.iter_source(seqs[0]))
                    after.heap[loc] = o2

    def iter_source(self, t):
        return t

    def _unconditional_appends(self, s, loc, entry):
        names = {n for n, v in entry.env.items() if v == V(('ref', loc))}
        top = 0
        for b in s.body:
            for n in ast.walk(b):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                        and n.func.value.id in names and n.func.attr in LIST_MUT:
                    if n.func.attr == 'append' and isinstance(b, ast.Expr) and b.value is n:
                        top += 1
                    else:
                        return False
                if isinstance(n, (ast.Continue, ast.Break)):
                    return False
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id in names:
                    return False
        return top == 1

    def x_Break(self, s, st, fr):
        if fr.loops:
            fr.loops[-1]['breaks'].append(st)
        return None

    def x_Continue(self, s, st, fr):
        if fr.loops:
            fr.loops[-1]['conts'].append(st)
        return None

    # ------------------------------------------------------------------ assignment
    def bounded(self, v):
        """the value, with terms that outgrew every use (chains of loop-carried lookups) given up"""
        if isinstance(v, frozenset) and any(T.big(a) for a in v):
            return frozenset(('top', frozenset()) if T.big(a) else a for a in v)
        return v

    def assign(self, t, v, st, fr, node, aug=False):
        if isinstance(t, ast.Name):
            if t.id in fr.globals:
                self.emit('mutate', ('global', fr.module.name, t.id), 'rebind', node, fr, v)
                return
            st.env[t.id] = self.bounded(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, fr, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, V(self.new_ref(st, Obj('list', None, v, node=node), node)), st, fr, node)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st, fr)
            for b in base:
                self.set_attr(b, t.attr, v, st, fr, node, weak=len(base) > 1)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st, fr)
            i = self.ev(t.slice, st, fr)
            for b in base:
                self.set_item(b, i, v, st, fr, node, weak=len(base) > 1, aug=aug)

    def unpack(self, elts, v, st, fr, node):
        n = len(elts)
        star = any(isinstance(e, ast.Starred) for e in elts)
        for k, e in enumerate(elts):
            out = EMPTY
            for a in v:
                items = self.known_items(V(a), st)
                if items is not None and not star and len(items) == n:
                    out = vjoin(out, items[k])
                elif a[0] == 'ref':
                    o = st.heap.get(a[1])
                    out = vjoin(out, o.all_elems() if o else VTOP)
                else:
                    for x in self.expand(a):
                        out = vjoin(out, self.get_item(x, V(const(k)), st, fr, node))
            if isinstance(e, ast.Starred):
                e = e.value
            self.assign(e, out or VTOP, st, fr, node)

    def set_attr(self, b, name, v, st, fr, node, weak=False):
        self.emit('setattr', b, name, node, fr, v, None, st)
        for x in self.expand(b):
            k = (x, name)
            if weak:
                st.over[k] = vjoin(st.over.get(k, V(MISSING)), v)
            else:
                st.over[k] = v

    def set_item(self, b, i, v, st, fr, node, weak=False, aug=False):
        if self.setitem_hook is not None and self.setitem_hook(self, b, i, v, st) is not None:
            return
        if b[0] == 'inst':
            cl = self.class_of(b)
            md = cl.find_method('__setitem__') if cl is not None else None
            if md is not None:
                self.call_value(('bound', b, md), [i, v], {}, st, fr, node)
                return
        if self.ndlists and b[0] == 'ref':
            pr = self.nd_parts(i, st)
            o = st.heap.get(b[1])
            if pr and o is not None and o.kind == 'list' and all(is_const(x) for x in pr):
                t = self.nd_get(V(b), pr[:-1], st, fr, node)
                if len(t) == 1 and next(iter(t))[0] == 'ref':
                    self.set_item(next(iter(t)), V(pr[-1]), v, st, fr, node, weak, aug)
                    return
        if b[0] == 'ref':
            o = st.heap.get(b[1])
            if o is None:
                return
            self.emit('mutate', b, 'setitem', node, fr, v, i, st)
            o = o.copy()
            o.sym = None
            o.mut = True
            ci = next(iter(i)) if len(i) == 1 else None
            if o.kind == 'dict':
                o.keyv = vjoin(o.keyv, i)
                if ci is not None and is_const(ci) and o.keys is not None:
                    o.keys[ci] = v if not weak else vjoin(o.keys.get(ci), v)
                else:
                    o.elem = vjoin(o.elem, v)
            elif o.kind == 'list' and any(x[0] == 'slice' or not is_const(x) and x[0] != 'each' for x in i) and (o.items is not None or any(x[0] == 'slice' for x in i)):
                new = None
                if ci is not None and ci[0] == 'slice' and o.items is not None and not o.elem and not weak and all(is_const(x) and (cval(x) is None or isinstance(cval(x), int)) for x in ci[1:]):
                    new = self.known_items(v, st)
                if new is not None and cval(ci[3]) in (None, 1):
                    items = list(o.items)
                    items[cval(ci[1]):cval(ci[2])] = new
                    o.items = items
                elif any(x[0] == 'slice' for x in i):
                    e = self.iter_elem(v, node, st, fr)
                    o.elem = vjoin(o.elem, vjoin(o.all_elems(), e))
                    o.items = None
                else:
                    o.items = [vjoin(x, v) for x in o.items]
                    o.elem = vjoin(o.elem, v)
            elif o.items is not None and ci is not None and is_const(ci) and isinstance(cval(ci), int) \
                    and -len(o.items) <= cval(ci) < len(o.items):
                o.items[cval(ci)] = v
            else:
                if o.items is not None:
                    o.items = [vjoin(x, v) for x in o.items]
                    o.elem = vjoin(o.elem, v)
                else:
                    o.elem = vjoin(o.elem, v)
            st.heap[b[1]] = o
        else:
            self.emit('mutate', b, 'setitem', node, fr, v, i, st)
            i = frozenset(self.made_index(x, st) for x in i)
            for x in self.expand(b):
                k = (x, '[]')
                st.over[k] = vjoin(st.over.get(k), frozenset(
                    ('tuple', (ii, vv)) for ii in i for vv in v) if len(i) * len(v) <= MAXV else VTOP)

    def made_index(self, a, st):
        """a tuple made from an array element is the index it stands for"""
        o = st.heap.get(a[1]) if a[0] == 'ref' else None
        if o is None or o.kind != 'tuple' or o.items is not None or o.sym is None or T.has_top(o.sym) or numsem.strip_copy(o.sym)[0] in ('tuple', 'concat'):
            return a
        return ('call', 'tuple', (numsem.strip_copy(o.sym),), ())

    # ------------------------------------------------------------------ containers
    def new_ref(self, st, obj, node):
        ctx = '/'.join(f'{f.fn.qualname}@{f.site}' for f in (self.stack if self.recursion else self.stack[-4:]))
        loc = (ctx, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), obj.kind) + ((tuple(self.iterctx),) if self.iterctx else ())
        if self.track_guards and loc in st.heap:
            self.retire(st, loc)
        st.heap[loc] = obj
        return ('ref', loc)

    def retire(self, st, loc):
        """recency: values still holding the object this site created earlier keep seeing that one"""
        old = loc + ('old',)
        a, b = ('ref', loc), ('ref', old)

        def ren(v):
            return frozenset(b if x == a else x for x in v) if a in v else v
        prev = st.heap[loc].copy()
        st.heap[old] = obj_join(st.heap[old], prev) if old in st.heap else prev
        for k, v in list(st.env.items()):
            if isinstance(v, frozenset) and a in v:
                st.env[k] = ren(v)
        for k, v in list(st.over.items()):
            if isinstance(v, frozenset) and a in v:
                st.over[k] = ren(v)
        for k, v in list(self.lvroots.items()):
            if v and a in v:
                self.lvroots[k] = v | {b}
        for k, o in list(st.heap.items()):
            if k == loc:
                continue
            if a in o.elem or a in o.keyv or any(a in i for i in o.items or ()) or any(a in i for i in (o.keys or {}).values()):
                o = o.copy()
                o.elem, o.keyv = ren(o.elem), ren(o.keyv)
                if o.items is not None:
                    o.items = [ren(i) for i in o.items]
                if o.keys is not None:
                    o.keys = {x: ren(i) for x, i in o.keys.items()}
                st.heap[k] = o

    def known_items(self, v, st):
        if len(v) != 1:
            if not v or len(v) > 6:
                return None
            all_ = [self.known_items(V(a), st) for a in v]
            if any(x is None for x in all_) or len({len(x) for x in all_}) != 1:
                return None
            return [frozenset().union(*xs) for xs in zip(*all_)]
        a, = v
        if a[0] == 'ref':
            o = st.heap.get(a[1])
            if o is not None and o.kind in ('list', 'tuple') and o.items is not None:
                return list(o.items)
            if o is not None and o.kind == 'dict' and o.keys is not None and not o.elem:
                return [V(k) for k in o.keys]
            if o is not None and o.kind == 'set' and o.setk is not None and self.set_items:
                return [V(k) for k in sorted(o.setk, key=repr)]
            return None
        if a[0] in ('list', 'tuple'):
            return [V(x) for x in a[1]]
        if a[0] == 'const' and isinstance(a[2], str) and len(a[2]) <= 32:
            return [V(const(x)) for x in a[2]]
        if a[0] == 'const' and isinstance(a[2], tuple):
            return [V(const(x)) for x in a[2]]
        if a[0] == 'call' and a[1] == 'range' and all(is_const(x) and isinstance(cval(x), int) for x in a[2]):
            try:
                r = range(*[cval(x) for x in a[2]])
            except Exception:
                return None
            if len(r) <= self.unroll:
                return [V(const(x)) for x in r]
        if a[0] == 'call' and a[1] == 'copy':
            return self.known_items(V(a[2][0]), st)
        if a[0] == 'call' and a[1] == 'ndarray':
            return self.known_items(V(a[2][0]), st)
        if a[0] == 'each' and a[1][0] == 'call' and a[1][1] == 'ndindex':
            ar = a[1][2]
            if len(ar) == 1:
                inner = self.known_items(V(ar[0]), st)
                n = len(inner) if inner is not None else 1 if ar[0][0] in ('idx', 'poly') else None
            else:
                n = len(ar)
            if n is not None and n <= self.unroll:
                return [V(idx(a, const(i))) for i in range(n)]
        if a[0] == 'call' and a[1] in ('split', 'array_split') and len(a[2]) == 1:
            sec = dict(a[3]).get('indices_or_sections')
            if sec is not None:
                inner = self.known_items(V(sec), st)
                if inner is not None:
                    return [V(idx(a, const(i))) for i in range(len(inner) + 1)]
                if is_const(sec) and isinstance(cval(sec), int) and 0 < cval(sec) <= self.unroll:
                    return [V(idx(a, const(i))) for i in range(cval(sec))]
        if a[0] == 'call' and a[1] == 'enumerate' and a[2]:
            inner = self.known_items(V(a[2][0]), st)
            if inner is not None and all(len(x) == 1 for x in inner):
                return [V(('tuple', (const(i), next(iter(x))))) for i, x in enumerate(inner)]
        if a[0] == 'call' and a[1] in ('zip',):
            inner = [self.known_items(V(x), st) for x in a[2]]
            if inner and all(x is not None for x in inner):
                n = min(len(x) for x in inner)
                if all(len(y) == 1 for x in inner for y in x):
                    return [V(('tuple', tuple(next(iter(x[i])) for x in inner))) for i in range(n)]
        return None

    def known_kwargs(self, v, st):
        if len(v) != 1:
            return None
        a, = v
        if a[0] != 'ref':
            return None
        o = st.heap.get(a[1])
        if o is None or o.kind != 'dict' or o.keys is None or o.elem or any(k[0] != 'const' or not isinstance(k[2], str) for k in o.keys):
            return None
        if o.keyv and not o.keyv <= frozenset(o.keys):
            return None
        return {k[2]: v for k, v in o.keys.items()}

    def iter_elem(self, v, node, st, fr):
        out = EMPTY
        empty = False
        for a in v:
            for x in self.expand(a):
                if x[0] == 'ref':
                    o = st.heap.get(x[1])
                    if o is not None and o.kind in ('list', 'set') and not o.all_elems() and o.items is not None and o.sym is None:
                        empty = True      # iterating an empty container yields nothing
                        continue
                out = vjoin(out, self.elem_of(x, node, st, fr))
        if not out and empty:
            return V(('call', 'elem', (TOP,), ()))
        return out or VTOP

    def elem_of(self, a, node, st, fr):
        if a[0] == 'ref':
            o = st.heap.get(a[1])
            if o is None:
                return VTOP
            if o.kind == 'dict':
                return o.keyv or frozenset(o.keys or ()) or V(('call', 'elem', (TOP,), ()))
            return o.all_elems() or V(('call', 'elem', (TOP,), ()))
        if a[0] == 'call' and not a[3]:
            n, ar = a[1], a[2]
            if n == 'range':
                return V(('loopidx', self._range_key(ar), ar))
            if n == 'enumerate' and ar:
                e = self.elem_of(ar[0], node, st, fr)
                start = ar[1] if len(ar) > 1 else const(0)
                li = T.add(('loopidx', self._range_key((('call', 'len', (ar[0],), ()),)), (('call', 'len', (numsem.strip_copy(ar[0]),), ()),)), start)
                return frozenset(('tuple', (li, x)) for x in e)
            if n == 'zip':
                es = [self.elem_of(x, node, st, fr) for x in ar]
                if all(len(e) == 1 for e in es):
                    return V(('tuple', tuple(next(iter(e)) for e in es)))
                return V(self.new_ref(st, Obj('tuple', es, node=node), node))
            if n == 'ndindex':
                return V(('each', a))
            if n in ('keys', 'list', 'tuple', 'sorted', 'copy', 'set', 'reversed', 'deepcopy', 'iter') and ar:
                if n == 'set':
                    return V(('each', ar[0])) if ar[0][0] != 'ref' else self.elem_of(ar[0], node, st, fr)
                return self.elem_of(ar[0], node, st, fr)
            if n == 'items' and ar:
                return V(('tuple', (('each', ar[0]), idx(ar[0], ('each', ar[0])))))
            if n == 'values' and ar:
                return V(idx(ar[0], ('each', ar[0])))
        if a[0] == 'idx' and a[2][0] == 'slice':
            lo, hi, step = a[2][1:]
            if hi == NONE and step == NONE and is_const(lo):
                if lo == NONE or cval(lo) == 0:
                    return V(('each', a[1]))
                return V(('each_from', a[1], cval(lo)))
        if a[0] in ('list', 'tuple'):
            return frozenset(a[1]) or VTOP
        if a[0] == 'map':
            return V(a[1])
        if a[0] == 'top':
            return VTOP
        return V(('each', a))

    def _range_key(self, ar):
        return 'r'

    def expand(self, a):
        """Replace a loop-head value by what it can be at entry/after an iteration (for alias questions)."""
        if a[0] == 'lv':
            seen = set()
            work = [a]
            out = set()
            while work:
                x = work.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x[0] == 'lv':
                    work.extend(self.lvroots.get(x, ()))
                else:
                    out.add(x)
            return frozenset(out) or V(TOP)
        return (a,)

    # ------------------------------------------------------------------ truth
    def truth(self, v, st):
        r = None
        for a in v:
            t = self.truth1(a, st)
            if t is None:
                return None
            if r is None:
                r = t
            elif r != t:
                return None
        return r

    def truth1(self, a, st):
        if self.truth_hook:
            t = self.truth_hook(a, st)
            if t is not None:
                return t
        if a[0] == 'const':
            return bool(a[2])
        if a[0] == 'ref':
            o = st.heap.get(a[1])
            if o is not None and o.kind == 'set' and o.setk is not None:
                return len(o.setk) > 0
            if o is not None and o.items is not None and not o.elem and o.kind in ('list', 'tuple'):
                return len(o.items) > 0
            if o is not None and o.kind == 'dict' and o.keys is not None and self.strict_keys:
                if any(k not in o.maykeys for k in o.keys):
                    return True
                if not o.keys and not o.elem and not o.keyv:
                    return False
            return None
        if a[0] in ('fn', 'cls', 'mod', 'inst', 'closure', 'bound'):
            return True
        if a[0] in ('list', 'tuple'):
            return len(a[1]) > 0
        if a[0] == 'call' and a[1] == 'not':
            t = self.truth1(a[2][0], st)
            return None if t is None else not t
        return None

    def refine(self, test, positive, st, fr):
        """Narrow simple tests: `x is None`, `x is not None`, `x`, `not x`, isinstance-free. Returns st or None."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, not positive, st, fr)
        if isinstance(test, ast.BoolOp):
            if (isinstance(test.op, ast.And) and positive) or (isinstance(test.op, ast.Or) and not positive):
                for v in test.values:
                    if st is None:
                        return None
                    st = self.refine(v, positive, st, fr)
            return st
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) \
                and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None \
                and isinstance(test.left, ast.Attribute) and isinstance(test.left.value, ast.Name) and test.left.value.id in st.env:
            bases = st.env[test.left.value.id]
            if len(bases) == 1:
                b, = bases
                v = st.over.get((b, test.left.attr))
                if v is not None and MISSING not in v and not (isinstance(test.ops[0], (ast.Is, ast.Eq)) == positive):
                    nv = frozenset(a for a in v if a != NONE)
                    if nv:
                        st.over[(b, test.left.attr)] = nv
                    elif v:
                        return None
            return st
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) \
                and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None \
                and isinstance(test.left, ast.Name) and test.left.id in st.env:
            want_none = isinstance(test.ops[0], (ast.Is, ast.Eq)) == positive
            v = st.env[test.left.id]
            if not want_none:
                nv = frozenset(a for a in v if a != NONE)
                if nv:
                    st.env[test.left.id] = nv
                elif v:
                    return None
            return st
        if isinstance(test, ast.Name) and test.id in st.env:
            v = st.env[test.id]
            if positive:
                nv = frozenset(a for a in v if self.truth1(a, st) is not False)
            else:
                nv = frozenset(a for a in v if self.truth1(a, st) is not True)
            if nv:
                st.env[test.id] = nv
        return st

    # ------------------------------------------------------------------ expressions
    def ev(self, n, st, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.expr):
                    self.ev(c, st, fr)
            return VTOP
        return m(n, st, fr)

    def e_Constant(self, n, st, fr):
        return V(const(n.value))

    def e_Name(self, n, st, fr):
        return self.lookup(n.id, st, fr)

    def lookup(self, name, st, fr):
        if name in st.env and name not in fr.globals:
            v = frozenset(a for a in st.env[name] if a != MISSING)
            return v or VTOP
        c = fr.closure
        while c is not None:
            env, c2 = c
            if name in env:
                return frozenset(a for a in env[name] if a != MISSING) or VTOP
            c = c2
        b = fr.module.lookup(name)
        if b is not None:
            if self.open_tables and isinstance(b, ModuleVar):
                v = self.table(b, st)
                if v is not None:
                    return v
            return self.bind_value(b)
        if name in ('True', 'False', 'None'):
            return V(const({'True': True, 'False': False, 'None': None}[name]))
        if name in BUILTINS:
            return V(('builtin', name))
        return VTOP

    def table(self, mv, st):
        """a module-level literal collection, opened (nothing of the program changes it: P08)"""
        k = (mv.module.name, mv.name)
        if k not in self.tables:
            self.tables[k] = None
            if len(mv.values) == 1 and isinstance(mv.values[0], (ast.Dict, ast.List, ast.Tuple, ast.Set)):
                fr = Frame(FunctionInfo('<module>', mv.module, ast.parse('def _m(): pass').body[0]))
                s0 = State()
                try:
                    v = self.ev(mv.values[0], s0, fr)
                    if not self.extend_table(mv, v, s0, fr):
                        return None
                    self.tables[k] = (v, s0.heap)
                except Unreachable:
                    pass
        if self.tables[k] is None:
            return None
        v, heap = self.tables[k]
        for loc, o in heap.items():
            if loc not in st.heap:
                st.heap[loc] = o
        return v

    def extend_table(self, mv, v, s0, fr):
        """module-level statements that add entries to the collection"""
        for x in mv.module.tree.body:
            if isinstance(x, ast.Assign) and any(isinstance(y, ast.Subscript) and isinstance(y.value, ast.Name) and y.value.id == mv.name for y in x.targets) \
                    or isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and isinstance(x.value.func.value, ast.Name) \
                    and x.value.func.value.id == mv.name:
                s0.env[mv.name] = v
                try:
                    self.exec_block([x], s0, fr)
                except Unreachable:
                    return False
                finally:
                    s0.env.pop(mv.name, None)
        return True

    def bind_value(self, b):
        if isinstance(b, FunctionInfo):
            return V(('fn', b))
        if isinstance(b, ClassInfo):
            return V(('cls', b))
        if isinstance(b, Module):
            return V(('mod', b))
        if isinstance(b, External):
            return V(self.ext_term(b.path))
        if isinstance(b, ModuleVar):
            return self.module_var(b)
        return VTOP

    def module_var(self, mv):
        k = (mv.module.name, mv.name)
        if k in self.global_cache:
            return self.global_cache[k]
        g = V(('global', mv.module.name, mv.name))
        self.global_cache[k] = g
        if len(mv.values) == 1 and mv.values[0] is not None:
            val = mv.values[0]
            if self.is_scalar_expr(val):
                fr = Frame(FunctionInfo('<module>', mv.module, ast.parse('def _m(): pass').body[0]))
                v = self.ev(val, State(), fr)
                if all(is_const(a) for a in v):
                    self.global_cache[k] = v
                    return v
            r = mv.module.resolve_expr(val) if isinstance(val, (ast.Name, ast.Attribute)) else None
            if isinstance(r, (FunctionInfo, ClassInfo, External)):
                self.global_cache[k] = self.bind_value(r)
                return self.global_cache[k]
        return g

    def is_scalar_expr(self, n):
        if isinstance(n, ast.Constant):
            return True
        if isinstance(n, ast.Name):
            return True
        if isinstance(n, ast.BinOp):
            return self.is_scalar_expr(n.left) and self.is_scalar_expr(n.right)
        if isinstance(n, ast.UnaryOp):
            return self.is_scalar_expr(n.operand)
        return False

    def e_Tuple(self, n, st, fr):
        return self._seq(n, 'tuple', st, fr)

    def e_List(self, n, st, fr):
        return self._seq(n, 'list', st, fr)

    def spliced(self, parts, kind, st):
        sym = None
        for star, v in parts:
            if len(v) != 1:
                return None
            t = numsem.strip_copy(self.as_term(next(iter(v)), st))
            if t[0] == 'top' or T.has_top(t):
                return None
            t = ('call', 'tuple', (t,), ()) if star else (kind, (t,))
            sym = t if sym is None else (kind, sym[1] + t[1]) if sym[0] == t[0] == kind else ('concat', sym, t)
        return sym

    def _seq(self, n, kind, st, fr):
        items = []
        unknown = EMPTY
        parts = []  # (spliced, value)
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st, fr)
                k = self.known_items(v, st)
                if k is not None and unknown == EMPTY:
                    items.extend(k)
                    parts += [(False, x) for x in k]
                else:
                    parts.append((True, v))
                    unknown = vjoin(unknown, self.iter_elem(v, e, st, fr))
            else:
                items.append(self.ev(e, st, fr))
                parts.append((False, items[-1]))
        if unknown:
            allv = unknown
            for i in items:
                allv = vjoin(allv, i)
            return V(self.new_ref(st, Obj(kind, None, allv, sym=self.spliced(parts, kind, st), node=n), n))
        return V(self.new_ref(st, Obj(kind, items, node=n), n))

    def e_Set(self, n, st, fr):
        v = EMPTY
        for e in n.elts:
            v = vjoin(v, self.ev(e, st, fr))
        return V(self.new_ref(st, Obj('set', None, v, node=n, setk=None if any(isinstance(e, ast.Starred) for e in n.elts) else
                                      self.members([self.ev(e, st, fr) for e in n.elts if isinstance(e, ast.Constant)]) if all(isinstance(e, ast.Constant) for e in n.elts)
                                      else None), n))

    def members(self, vals):
        """exact members of a set built from these values"""
        if vals is not None and all(len(v) == 1 and is_const(next(iter(v))) for v in vals):
            return frozenset(next(iter(v)) for v in vals)
        return None

    def set_of(self, v, st):
        """exact members of a set value, or of the set made from a known sequence"""
        if len(v) == 1:
            a, = v
            if a[0] == 'ref' and st.heap.get(a[1]) is not None and st.heap[a[1]].kind == 'set':
                return st.heap[a[1]].setk
        k = self.known_items(v, st)
        return self.members(k) if k is not None else None

    def e_Dict(self, n, st, fr):
        keys, elem, keyv = {}, EMPTY, EMPTY
        for k, v in zip(n.keys, n.values):
            vv = self.ev(v, st, fr)
            if k is None:
                for a in vv:
                    if a[0] == 'ref' and st.heap.get(a[1]) is not None:
                        o = st.heap[a[1]]
                        keys.update(o.keys or {})
                        elem = vjoin(elem, o.elem)
                        keyv = vjoin(keyv, o.keyv)
                    else:
                        elem = vjoin(elem, V(('each', a)))
                continue
            kv = self.ev(k, st, fr)
            keyv = vjoin(keyv, kv)
            if len(kv) == 1 and is_const(next(iter(kv))):
                keys[next(iter(kv))] = vv
            else:
                elem = vjoin(elem, vv)
        return V(self.new_ref(st, Obj('dict', None, elem, keys=keys, keyv=keyv, node=n), n))

    def comp(self, n, st, fr, kind):
        gens = n.generators
        r = self.comp_unroll(n, st, fr, kind)
        if r is not None:
            return r
        st2 = State(dict(st.env), st.heap, st.over, st.facts)
        seq = None
        single = len(gens) == 1
        filtered = False
        ng = len(self.guards)
        for gi, g in enumerate(gens):
            itv = self.ev(g.iter, st2, fr)
            if single and len(itv) == 1:
                seq = next(iter(itv))
            self.assign(g.target, self.iter_elem(itv, n, st2, fr), st2, fr, n)
            for c in g.ifs:
                filtered = True
                self.ev(c, st2, fr)
                r = self.refine(c, True, st2, fr)
                self.push_guard(c, True, st2, fr)
            if self.track_guards:
                self.guards.append(('for', itv, None))
        st.heap, st.over, st.facts = st2.heap, st2.over, st2.facts
        if kind == 'dict':
            kv = self.ev(n.key, st2, fr)
            vv = self.ev(n.value, st2, fr)
            del self.guards[ng:]
            return V(self.new_ref(st, Obj('dict', None, vv, keys={}, keyv=kv, node=n), n))
        ev = self.ev(n.elt, st2, fr)
        if self.track_guards:
            self.emit('comp', ('compre', getattr(n, 'lineno', 0), getattr(n, 'col_offset', 0)), kind, n, fr, ev)
        del self.guards[ng:]
        st.heap, st.over, st.facts = st2.heap, st2.over, st2.facts
        o = Obj('set' if kind == 'set' else 'list', None, ev, node=n)
        if len(ev) == 1 and seq is not None and seq[0] not in ('ref',) and kind != 'set':
            e, = ev
            if e[0] not in ('ref', 'inst', 'closure'):
                if filtered:
                    conds = []
                    for c in gens[0].ifs:
                        cv = self.ev(c, st2.copy(), fr)
                        conds.append(next(iter(cv)) if len(cv) == 1 else TOP)
                    o.sym = ('call', 'filtermap', (e, seq) + tuple(conds), ())
                elif e == ('each', seq):
                    o.sym = numsem.copy_of(seq)
                else:
                    o.sym = ('map', e, seq)
        return V(self.new_ref(st, o, n))

    def comp_unroll(self, n, st, fr, kind):
        """evaluate element by element when every iterable has known items and every condition is decided; else None"""
        st2 = State(dict(st.env), st.heap, st.over, st.facts)
        first = self.known_items_of(n.generators[0].iter, st2.copy(), fr)
        if first is None or len(first) > self.unroll:
            return None
        st2 = st.copy()
        out = []

        def rec(gi):
            if gi == len(n.generators):
                if kind == 'dict':
                    kv = self.ev(n.key, st2, fr)
                    out.append((kv, self.ev(n.value, st2, fr)))
                else:
                    out.append(self.ev(n.elt, st2, fr))
                return len(out) <= 4 * self.unroll
            g = n.generators[gi]
            items = self.known_items(self.ev(g.iter, st2, fr), st2)
            if items is None or len(items) > self.unroll:
                return False
            for i, x in enumerate(items):
                self.iterctx.append(i)
                try:
                    self.assign(g.target, x, st2, fr, n)
                    keep = True
                    for c in g.ifs:
                        t = self.truth(self.ev(c, st2, fr), st2)
                        if t is None:
                            return False
                        if not t:
                            keep = False
                            break
                    if keep and not rec(gi + 1):
                        return False
                finally:
                    self.iterctx.pop()
            return True
        if not rec(0):
            return None
        if kind == 'dict' and not all(len(k) == 1 and is_const(next(iter(k))) for k, _ in out):
            return None
        st.heap, st.over, st.facts = st2.heap, st2.over, st2.facts
        if kind == 'dict':
            return V(self.new_ref(st, Obj('dict', None, EMPTY, keys={next(iter(k)): v for k, v in out}, node=n), n))
        if kind == 'set':
            return V(self.new_ref(st, Obj('set', None, frozenset().union(*out), node=n, setk=self.members(out)), n))
        return V(self.new_ref(st, Obj('list', out, EMPTY, node=n), n))

    def known_items_of(self, e, st, fr):
        return self.known_items(self.ev(e, st, fr), st)

    def e_ListComp(self, n, st, fr):
        return self.comp(n, st, fr, 'list')

    def e_GeneratorExp(self, n, st, fr):
        return self.comp(n, st, fr, 'gen')

    def e_SetComp(self, n, st, fr):
        return self.comp(n, st, fr, 'set')

    def e_DictComp(self, n, st, fr):
        return self.comp(n, st, fr, 'dict')

    def e_Lambda(self, n, st, fr):
        fi = FunctionInfo('<lambda>', fr.module, n, parent=fr.fn)
        cid = ('closure', id(n), fr.fn.qualname)
        self.closures[cid] = (fi, st.env, fr)
        return V(cid)

    def e_IfExp(self, n, st, fr):
        c = self.truth(self.ev(n.test, st, fr), st)
        if c is True:
            return self.ev(n.body, st, fr)
        if c is False:
            return self.ev(n.orelse, st, fr)
        self.splits += 1
        a = self.refine(n.test, True, st.copy(), fr)
        b = self.refine(n.test, False, st.copy(), fr)
        va = vb = None
        if a is not None:
            try:
                va = self.ev(n.body, a, fr)
            except Unreachable:
                a = None
        if b is not None:
            try:
                vb = self.ev(n.orelse, b, fr)
            except Unreachable:
                b = None
        j = join(a, b)
        if j is None:
            raise Unreachable()
        env = st.env
        st.assign(j)
        st.env = env
        if self.select is not None and va is not None and vb is not None and a is not None and b is not None:
            r = self.select(self.ev(n.test, st.copy(), fr), va, vb)
            if r is not None:
                return r
        return vjoin(va if a is not None else None, vb if b is not None else None)

    def e_NamedExpr(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        self.assign(n.target, v, st, fr, n)
        return v

    def e_BoolOp(self, n, st, fr):
        out = EMPTY
        isand = isinstance(n.op, ast.And)
        vals = []
        cur = st
        for i, e in enumerate(n.values):
            v = self.ev(e, cur, fr)
            t = self.truth(v, cur)
            vals.append((v, t))
            if isand and t is False:
                return v if len(vals) == 1 or all(x[1] is True for x in vals[:-1]) else frozenset().union(
                    *[x[0] for x in vals if x[1] is not True])
            if not isand and t is True:
                break
        known = [t for _, t in vals]
        if isand and all(t is True for t in known):
            return vals[-1][0]
        if not isand and all(t is False for t in known):
            return vals[-1][0]
        if not isand and known[-1] is True and all(t is False for t in known[:-1]):
            return vals[-1][0]
        # value may be any operand; for boolean use keep a symbolic and/or
        parts = []
        for v, t in vals:
            if (isand and t is True) or (not isand and t is False):
                continue
            if len(v) == 1:
                parts.append(next(iter(v)))
            else:
                parts = None
                break
        res = frozenset().union(*[v for v, t in vals if not ((isand and t is True) or (not isand and t is False))])
        booly = parts is not None and all(p[0] == 'cmp' or (p[0] == 'call' and p[1] in (
            'not', 'and', 'or', 'in', 'isinstance', 'hasattr', 'is')) for p in parts)
        if booly:
            if len(parts) == 1:
                return V(parts[0])
            return V(('call', 'and' if isand else 'or', tuple(parts), ()))
        return res if len(res) <= MAXV else VTOP

    def e_UnaryOp(self, n, st, fr):
        v = self.ev(n.operand, st, fr)
        out = set()
        for a in v:
            raw, a = a, self.as_term(a, st)
            if isinstance(n.op, ast.Not):
                t = self.truth1(raw, st) if raw[0] == 'ref' else None
                if t is None:
                    t = self.truth1(a, st)
                out.add(const(not t) if t is not None else ('call', 'not', (a,), ()))
            elif isinstance(n.op, ast.USub) and self.binop_hook is not None and self.binop_hook(self, '*', raw, const(-1), st) is not None:
                out |= self.binop_hook(self, '*', raw, const(-1), st)
            elif isinstance(n.op, ast.USub):
                out.add(T.neg(a) if a[0] != 'top' else TOP)
            elif isinstance(n.op, ast.Invert):
                out.add(('call', 'invert', (a,), ()))
            else:
                out.add(a)
        return frozenset(out)

    def as_term(self, a, st, depth=0):
        if a[0] == 'ref':
            o = st.heap.get(a[1])
            if o is None or depth > 4:
                return TOP
            if o.sym is not None:
                return o.sym
            if o.items is not None and o.kind in ('list', 'tuple') and not o.elem:
                ts = []
                for i in o.items:
                    if len(i) != 1:
                        return ('top', frozenset())
                    ts.append(self.as_term(next(iter(i)), st, depth + 1))
                return (o.kind, tuple(ts))
            return TOP
        k = (a, '[]')
        if k in st.over:
            w = st.over[k]
            return ('call', 'stored', (a,) + tuple(ordered(w)), ())
        return a

    def terms_of(self, v, st, limit=24):
        """All terms a value may be; list items that are sets are expanded up to a limit."""
        out = set()
        for a in v:
            for t in self._terms1(a, st, limit, 0):
                out.add(t)
        return out

    def _terms1(self, a, st, limit, depth):
        if a[0] == 'ref':
            o = st.heap.get(a[1])
            if o is None or depth > 4:
                return [TOP]
            if o.sym is not None:
                return [o.sym]
            if o.items is not None and o.kind in ('list', 'tuple') and not o.elem:
                acc = [()]
                for i in o.items:
                    opts = []
                    for x in i:
                        opts += self._terms1(x, st, limit, depth + 1)
                    acc = [p + (q,) for p in acc for q in opts]
                    if len(acc) > limit:
                        return [TOP]
                return [(o.kind, p) for p in acc]
            return [TOP]
        return [self.as_term(a, st)]

    OPN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
           ast.MatMult: '@', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}

    def e_BinOp(self, n, st, fr):
        a = self.ev(n.left, st, fr)
        b = self.ev(n.right, st, fr)
        return self.binop(n.op, a, b, st, fr, n)

    def is_seq(self, a, st):
        if a[0] == 'ref':
            o = st.heap.get(a[1])
            return o is not None and o.kind in ('list', 'tuple')
        if a[0] in ('list', 'tuple', 'map', 'concat'):
            return True
        if a[0] == 'call' and a[1] in ('list', 'tuple', 'repeatlist', 'sorted', 'filtermap'):
            return True
        if a[0] == 'call' and a[1] == 'copy' and a[2]:
            return self.kind_of(a[2][0]) == 'list'
        return self.kind_of(a) == 'list'

    def kind_of(self, t):
        """'array' | 'list' | 'scalar' | None"""
        t = numsem.strip_copy(t)
        k = self.kind_hook(t) if self.kind_hook else None
        if k:
            return k
        if t[0] == 'attr' and t[2] == 'shape':
            return 'list'
        if t[0] == 'attr' and t[2] == 'numpy':
            return 'array'
        if t[0] == 'idx' and t[2][0] == 'slice':
            return self.kind_of(t[1])
        if t[0] == 'call' and t[1] in ('tolist',):
            return 'list'
        if t[0] == 'call' and t[1] in numsem.VIEWS and t[2]:
            return 'array'
        if t[0] == 'const':
            return 'scalar'
        return None

    def binop(self, op, va, vb, st, fr, node):
        out = set()
        o = self.OPN.get(type(op), '?')
        if len(va) * len(vb) > 40:
            return VTOP
        k = 0
        for a in ordered(va):
            for b in ordered(vb):
                out |= self.binop1(o, a, b, st, fr, node if k == 0 and not isinstance(getattr(node, 'left', None), ast.BinOp) else _pos(node, k))
                k += 1
        return frozenset(out) if len(out) <= MAXV else VTOP

    def binop1(self, o, a, b, st, fr, node):
        if self.binop_hook is not None:
            v = self.binop_hook(self, o, a, b, st)
            if v is not None:
                return v
        if o == '+' and (self.is_seq(a, st) or self.is_seq(b, st)):
            ia, ib = self.known_items(V(a), st), self.known_items(V(b), st)
            kind = 'tuple' if (a[0] == 'tuple' or (a[0] == 'ref' and st.heap.get(a[1]) and st.heap[a[1]].kind == 'tuple')) else 'list'
            if ia is not None and ib is not None:
                return {self.new_ref(st, Obj(kind, ia + ib, node=node), node)}
            ta, tb = self.as_term(a, st), self.as_term(b, st)
            ea = self.iter_elem(V(a), node, st, fr)
            eb = self.iter_elem(V(b), node, st, fr)
            sym = ('concat', numsem.strip_copy(ta), numsem.strip_copy(tb))
            if ta[0] == 'top' or tb[0] == 'top':
                sym = None
            return {self.new_ref(st, Obj(kind, None, vjoin(ea, eb), sym=sym, node=node), node)}
        if o == '*' and (self.is_seq(a, st) or self.is_seq(b, st)):
            s, n = (a, b) if self.is_seq(a, st) else (b, a)
            items = self.known_items(V(s), st)
            if items is not None and is_const(n) and isinstance(cval(n), int) and len(items) * max(cval(n), 0) <= 64:
                return {self.new_ref(st, Obj('list', items * cval(n), node=node), node)}
            ts = self.as_term(s, st)
            return {self.new_ref(st, Obj('list', None, self.iter_elem(V(s), node, st, fr),
                                         sym=('call', 'repeatlist', (ts, self.as_term(n, st)), ()), node=node), node)}
        if a[0] == 'ref' and st.heap.get(a[1]) and st.heap[a[1]].kind == 'set' and o in '|&-^':
            e = st.heap[a[1]].elem
            if b[0] == 'ref' and st.heap.get(b[1]):
                e = vjoin(e, st.heap[b[1]].all_elems())
            x, y = self.set_of(V(a), st), self.set_of(V(b), st)
            sk = None if x is None or y is None else x | y if o == '|' else x & y if o == '&' else x - y if o == '-' else x ^ y
            return {self.new_ref(st, Obj('set', None, e if sk is None else sk, node=node, setk=sk), node)}
        ta, tb = self.as_term(a, st), self.as_term(b, st)
        if ta[0] == 'top' or tb[0] == 'top':
            return {('top', frozenset())}
        if too_big(ta) or too_big(tb):
            return {('top', frozenset())}
        ta, tb = numsem.strip_copy(ta), numsem.strip_copy(tb)
        if is_const(ta) and is_const(tb):
            try:
                x, y = cval(ta), cval(tb)
                r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y, '//': lambda: x // y,
                     '%': lambda: x % y, '**': lambda: x ** y, '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y,
                     '<<': lambda: x << y, '>>': lambda: x >> y}[o]()
                if isinstance(r, (int, float, str, bytes)) and (not isinstance(r, (str, bytes)) or len(r) < 500):
                    return {const(r)}
            except Exception:
                pass
        if o == '+':
            if ta[0] == 'const' and isinstance(ta[2], (str, bytes)) or tb[0] == 'const' and isinstance(tb[2], (str, bytes)) \
                    or ta[0] == 'call' and ta[1] in ('strcat', 'str', 'format') or tb[0] == 'call' and tb[1] in ('strcat', 'str', 'format'):
                parts = []
                for t in (ta, tb):
                    parts += list(t[2]) if t[0] == 'call' and t[1] == 'strcat' else [t]
                return {('call', 'strcat', tuple(parts), ())}
            return {T.add(ta, tb)}
        if o == '-':
            return {T.sub(ta, tb)}
        if o == '*':
            return {T.mul(ta, tb)}
        if o == '/':
            return {T.div(ta, tb)}
        if o == '**':
            return {T.power(ta, tb)}
        if o == '//':
            if is_const(tb) and isinstance(cval(tb), int) and cval(tb) > 0 and self.is_int(ta) and ta[0] == 'poly' and \
                    all(isinstance(c, int) and c % cval(tb) == 0 and all(p > 0 and self.is_int(x) for x, p in m) for m, c in T.as_poly(ta).items()):
                return {T.from_poly({m: c // cval(tb) for m, c in T.as_poly(ta).items()})}
            return {('call', 'floordiv', (ta, tb), ())}
        if o == '%':
            if ta[0] == 'const' and isinstance(ta[2], str):
                return {('call', 'format', (ta, tb), ())}
            if is_const(tb) and isinstance(cval(tb), int) and cval(tb) > 0 and self.is_int(ta) and ta[0] == 'poly' and \
                    all(isinstance(c, int) and c % cval(tb) == 0 and all(p > 0 and self.is_int(x) for x, p in m) for m, c in T.as_poly(ta).items()):
                return {const(0)}
            return {('call', 'mod', (ta, tb), ())}
        if o == '@':
            return {('call', 'matmul', (ta, tb), ())}
        if o in '&|^':
            return {('call', {'&': 'bitwise_and', '|': 'bitwise_or', '^': 'bitwise_xor'}[o], tuple(sorted((ta, tb), key=repr)), ())}
        return {('call', o, (ta, tb), ())}

    def e_Compare(self, n, st, fr):
        left = self.ev(n.left, st, fr)
        res = None
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, st, fr)
            r = self.compare(op, left, right, st, fr, n)
            if res is None:
                res = r
            else:
                ta, tb = self.truth(res, st), self.truth(r, st)
                if ta is False or tb is False:
                    res = V(FALSE)
                elif ta is True:
                    res = r
                elif tb is True:
                    pass
                elif len(res) == 1 and len(r) == 1:
                    res = V(('call', 'and', (next(iter(res)), next(iter(r))), ()))
                else:
                    res = VTOP
            left = right
        return res

    def compare(self, op, va, vb, st, fr, node):
        out = set()
        if len(va) * len(vb) > 40:
            return VTOP
        for a in va:
            for b in vb:
                if b[0] == 'inst' and isinstance(op, (ast.In, ast.NotIn)):
                    cl = self.class_of(b)
                    md = cl.find_method('__contains__') if cl is not None else None
                    if md is not None:
                        r = self.call_value(('bound', b, md), [V(a)], {}, st, fr, node)
                        t = self.truth(r, st)
                        out |= r if isinstance(op, ast.In) else {const(not t) if t is not None else ('call', 'not', (x,), ()) for x in r}
                        continue
                if self.binop_hook is not None and isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)):
                    r = self.binop_hook(self, {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}[type(op)], a, b, st)
                    if r is not None:
                        out |= r
                        continue
                out.add(self.compare1(op, a, b, st))
        return frozenset(out) if len(out) <= MAXV else VTOP

    NEVER_NONE = ('fn', 'cls', 'mod', 'ref', 'inst', 'closure', 'bound', 'list', 'tuple', 'poly', 'map', 'concat', 'cmp')

    def compare1(self, op, a, b, st):
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            pos = isinstance(op, (ast.Is, ast.Eq))
            if is_const(a) and is_const(b):
                return const((cval(a) == cval(b) and type(cval(a)) == type(cval(b)) or (T.is_num(a) and T.is_num(b) and cval(a) == cval(b))) == pos)
            for x, y in ((a, b), (b, a)):
                if x[0] == 'cls' and y[0] == 'cls':
                    return const((x[1] is y[1]) == pos)
                if x == NONE and (y[0] in self.NEVER_NONE or (y[0] == 'const' and y != NONE) or y in self.nonnull or (y[0] == 'call' and y[1] == 'ndarray')
                                  or (y[0] != 'ref' and self.is_int(y))):
                    return const(not pos)
            ta, tb = self.as_term(a, st), self.as_term(b, st)
            if a[0] in ('ext', 'fn') and a == b:
                return const(pos)
            if a[0] == 'ext' and b[0] == 'ext' and any(a[1] in D and b[1] in D for D in DISTINCT):
                return const(not pos)
            if ta[0] == 'top' or tb[0] == 'top':
                return TOP
            if self.known_len(ta) is not None and is_const(tb):
                return const((self.known_len(ta) == cval(tb)) == pos)
            o = '==' if pos else '!='
            if ta[0] == tb[0] and ta[0] in ('tuple', 'list'):
                la, lb = self.known_items(V(a), st), self.known_items(V(b), st)
                if la is not None and lb is not None and all(len(i) == 1 and is_const(next(iter(i))) for i in la + lb):
                    return const(([cval(next(iter(i))) for i in la] == [cval(next(iter(i))) for i in lb]) == pos)
            x, y = numsem.strip_copy(ta), numsem.strip_copy(tb)
            if x != y:
                x, y = ordered(frozenset((x, y)))
            return ('cmp', o, x, y)
        if isinstance(op, (ast.In, ast.NotIn)):
            items = self.known_items(V(b), st)
            pos = isinstance(op, ast.In)
            if b[0] == 'ref' and st.heap.get(b[1]) is not None and st.heap[b[1]].kind == 'set' and st.heap[b[1]].setk is not None and is_const(a):
                return const((a in st.heap[b[1]].setk) == pos)
            if is_const(b) and isinstance(cval(b), (str, bytes)):
                if is_const(a) and type(cval(a)) is type(cval(b)):
                    return const((cval(a) in cval(b)) == pos)
                items = None
            if items is not None and is_const(a) and all(len(i) == 1 and is_const(next(iter(i))) for i in items):
                return const((a in [next(iter(i)) for i in items]) == pos)
            if items is not None and all(len(i) == 1 for i in items):
                ta = numsem.strip_copy(self.as_term(a, st))
                eqs = [self.truth(V(self.compare1(ast.Eq(), ta, next(iter(i)), st)), st) for i in items]
                if any(e is True for e in eqs):
                    return const(pos)
                if all(e is False for e in eqs):
                    return const(not pos)
            t = ('call', 'in', (self.as_term(a, st), self.as_term(b, st) if b[0] != 'ref' or st.heap.get(b[1]) is None or
                                self.as_term(b, st)[0] != 'top' else b), ())
            return t if pos else ('call', 'not', (t,), ())
        o = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}.get(type(op))
        ta, tb = numsem.strip_copy(self.as_term(a, st)), numsem.strip_copy(self.as_term(b, st))
        if is_const(ta) and is_const(tb):
            try:
                x, y = cval(ta), cval(tb)
                return const({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[o])
            except Exception:
                return TOP
        if ta[0] == 'top' or tb[0] == 'top':
            return TOP
        if o == '>':
            return ('cmp', '<', tb, ta)
        if o == '>=':
            return ('cmp', '<=', tb, ta)
        return ('cmp', o, ta, tb)

    def known_len(self, t):
        return self.len_hook(t) if self.len_hook is not None else None

    def e_JoinedStr(self, n, st, fr):
        parts = []
        for x in n.values:
            if isinstance(x, ast.Constant):
                parts.append(const(x.value))
            else:
                v = self.ev(x.value, st, fr)
                parts.append(self.as_term(next(iter(v)), st) if len(v) == 1 else TOP)
        if all(is_const(p) for p in parts):
            return V(const(''.join(str(cval(p)) for p in parts)))
        return V(('call', 'strcat', tuple(parts), ()))

    def e_FormattedValue(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def e_Starred(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def e_Slice(self, n, st, fr):
        parts = []
        for x in (n.lower, n.upper, n.step):
            if x is None:
                parts.append([NONE])
            else:
                v = self.ev(x, st, fr)
                parts.append([numsem.strip_copy(self.as_term(a, st)) for a in v])
        out = set()
        for a in parts[0]:
            for b in parts[1]:
                for c in parts[2]:
                    if a == const(0) and (c == NONE or (is_const(c) and isinstance(cval(c), int) and cval(c) > 0)):
                        a = NONE
                    if c == const(1):
                        c = NONE
                    out.add(('slice', a, b, c))
        return frozenset(out) if len(out) <= MAXV else VTOP

    # ------------------------------------------------------------------ attribute / item
    def class_of(self, a):
        if a[0] == 'inst':
            return self.inst_class.get(a)
        if a[0] in ('ref', 'const'):
            return None
        return self.typer(a)

    def e_Attribute(self, n, st, fr):
        base = self.ev(n.value, st, fr)
        out = EMPTY
        for b in base:
            for x in self.expand(b):
                out = vjoin(out, self.get_attr(x, n.attr, st, fr, n))
        return out or VTOP

    def get_attr(self, b, name, st, fr, node):
        k = b[0]
        if k == 'mod':
            r = self.p.member(b[1], name)
            return self.bind_value(r) if r is not None else VTOP
        if k == 'ext':
            return V(self.ext_term(b[1] + '.' + name))
        if k == 'const' and b[2] is None:
            return EMPTY
        if (b, name) in st.over:
            v = st.over[(b, name)]
            if MISSING in v:
                rest = frozenset(x for x in v if x != MISSING)
                return vjoin(rest, self.get_attr_default(b, name, st, fr, node))
            return v
        return self.get_attr_default(b, name, st, fr, node)

    def get_attr_default(self, b, name, st, fr, node):
        k = b[0]
        if self.ndlists and k == 'ref' and name in ('shape', 'ndim', 'size'):
            sh = self.nd_shape(b, st)
            if sh is not None:
                if name == 'shape':
                    return V(('tuple', tuple(const(x) for x in sh)))
                r = 1
                for x in sh:
                    r *= x
                return V(const(len(sh) if name == 'ndim' else r))
        if k == 'call' and b[1] == 'ndarray':
            lit = b[2][0]
            dims = []
            while isinstance(lit, tuple) and lit[0] == 'list':
                dims.append(const(len(lit[1])))
                lit = lit[1][0] if lit[1] else None
            if name == 'shape':
                return V(('tuple', tuple(dims)))
            if name == 'ndim':
                return V(const(len(dims)))
            if name == 'dtype' and b[2][0][1] and all(self.is_int(x) for x in b[2][0][1]):
                return V(('ext', 'numpy.int64'))
            if name == 'size':
                r = const(1)
                for x in dims:
                    r = T.mul(r, x)
                return V(r)
        if self.attr_hook is not None:
            r = self.attr_hook(self, b, name, st, fr, node)
            if r is not None:
                return r
        if k == 'super':
            _, cls, selfatom = b
            c = self.class_of(selfatom) or cls
            m = None
            mro = c.mro()
            if cls in mro:
                for x in mro[mro.index(cls) + 1:]:
                    if name in x.methods:
                        m = x.methods[name]
                        break
            if m is not None:
                return V(('bound', selfatom, m))
            return V(('extmethod', selfatom, 'super.' + name))
        if k == 'cls':
            if name == '__name__':
                return V(const(b[1].name))
            m = b[1].find_method(name)
            if m is not None:
                if m.is_classmethod():
                    return V(('bound', b, m))
                return V(('fn', m))
            ca = b[1].find_attr(name)
            if ca is not None:
                return self.class_attr(ca)
            return V(('attr', b, name))
        c = self.class_of(b)
        if c is not None:
            if name == '__class__':
                return V(('cls', c)) if self.exact_class(b) else V(('attr', b, name))
            m = c.find_method(name)
            if m is not None:
                if m.is_property():
                    return self.call_function(m, [V(b)], {}, st, fr, node, selfatom=b)
                if m.is_static():
                    return V(('fn', m))
                return V(('bound', b, m))
            ca = c.find_attr(name)
            if ca is not None:
                return self.class_attr(ca)
            if b in self.closed and not (name.startswith('__') and name.endswith('__')):
                self.emit('missing_attr', b, name, node, fr)
                raise Unreachable()
            if k == 'inst' and b in self.copied:
                return self.get_attr(self.copied[b], name, st, fr, node)
            return V(('attr', b, name))
        if k == 'ref':
            return V(('extmethod', b, name))
        if k == 'top':
            return VTOP
        return V(('attr', b, name))

    def exact_class(self, b):
        return True

    def class_attr(self, ca):
        owner, val = ca
        if isinstance(val, ast.Constant):
            return V(const(val.value))
        if self.is_scalar_expr(val):
            fr = Frame(FunctionInfo('<class>', owner.module, ast.parse('def _m(): pass').body[0]))
            v = self.ev(val, State(), fr)
            if all(is_const(a) for a in v):
                return v
        for n in owner.attrs:
            if owner.attrs[n] is val:
                return V(('global', owner.module.name, owner.name + '.' + n))
        return VTOP

    def e_Subscript(self, n, st, fr):
        base = self.ev(n.value, st, fr)
        i = self.ev(n.slice, st, fr)
        out = EMPTY
        oob = False
        for b in base:
            for x in self.expand(b):
                if self.out_of_range(x, i, st):
                    oob = True
                    continue
                out = vjoin(out, self.get_item(x, i, st, fr, n))
        if oob and not out:
            raise Unreachable()
        return out or VTOP

    def out_of_range(self, x, iv, st):
        """indexing x with every one of these values raises IndexError"""
        ks = [cval(i) if is_const(i) else None for i in iv]
        if not ks or not all(isinstance(k, int) and not isinstance(k, bool) for k in ks):
            return False
        if x[0] == 'ref':
            o = st.heap.get(x[1])
            if o is None or o.kind == 'dict' or o.items is None or o.elem:
                return False
            n = len(o.items)
        elif (x, '[]') in st.over:
            return False
        elif x[0] == 'const' and isinstance(x[2], tuple):
            n = len(x[2])
        elif x[0] in ('list', 'tuple'):
            n = len(x[1])
        elif x[0] == 'call' and x[1] == 'ndarray' and x[2][0][0] == 'list':
            n = len(x[2][0][1])
        else:
            return False
        return all(not -n <= k < n for k in ks)

    def nd_parts(self, iv, st):
        """the components of a tuple index, when all are integers or constant slices"""
        if len(iv) != 1:
            return None
        x = next(iter(iv))
        k = None
        if x[0] == 'tuple':
            k = list(x[1])
        elif x[0] == 'const' and isinstance(x[2], tuple):
            k = [const(y) for y in x[2]]
        elif x[0] == 'ref':
            o = st.heap.get(x[1])
            if o is not None and o.kind == 'tuple' and o.items is not None and all(len(y) == 1 for y in o.items):
                k = [next(iter(y)) for y in o.items]
        if k is None:
            return None
        k = [z for y in k for z in (y[1] if y[0] == 'tuple' else [const(w) for w in y[2]] if y[0] == 'const' and isinstance(y[2], tuple) else [y])]
        for y in k:
            if not (is_const(y) and isinstance(cval(y), int) or y[0] == 'slice' and all(is_const(z) for z in y[1:])):
                return None
        return k

    def nd_get(self, v, parts, st, fr, node):
        if not parts or len(v) != 1:
            return v
        b, = v
        if b[0] != 'ref':
            return self.get_item(b, V(('tuple', tuple(parts))), st, fr, node)
        o = st.heap.get(b[1])
        if is_const(parts[0]) and o is not None and o.items is not None and not o.elem and not -len(o.items) <= cval(parts[0]) < len(o.items):
            return V(('param', 'beyond'))
        r = self.get_item(b, V(parts[0]), st, fr, node)
        if parts[0][0] == 'slice' and len(parts) > 1:
            k = self.known_items(r, st)
            if k is None:
                return VTOP
            return V(self.new_ref(st, Obj('list', [self.nd_get(x, parts[1:], st, fr, node) for x in k], node=node), node))
        return self.nd_get(r, parts[1:], st, fr, node)

    def nd_shape(self, b, st):
        dims = []
        while b[0] == 'ref':
            o = st.heap.get(b[1])
            if o is None or o.items is None or o.elem:
                return None
            dims.append(len(o.items))
            if not o.items:
                break
            if len(o.items[0]) != 1:
                return None
            b, = o.items[0]
        return dims

    def get_item(self, b, iv, st, fr, node):
        if self.item_hook is not None:
            r = self.item_hook(self, b, iv, st)
            if r is not None:
                return r
        if self.ndlists and b[0] == 'ref':
            pr = self.nd_parts(iv, st)
            o = st.heap.get(b[1])
            if pr is not None and o is not None and o.kind == 'list':
                return self.nd_get(V(b), pr, st, fr, node)
        if b[0] == 'inst':
            cl = self.class_of(b)
            md = cl.find_method('__getitem__') if cl is not None else None
            if md is not None:
                return self.call_value(('bound', b, md), [iv], {}, st, fr, node)
        if is_const(b) and isinstance(cval(b), (str, bytes)) and len(iv) == 1:
            x = next(iter(iv))
            try:
                if is_const(x) and isinstance(cval(x), int):
                    return V(const(cval(b)[cval(x)]))
                if x[0] == 'slice' and all(is_const(y) for y in x[1:]):
                    return V(const(cval(b)[slice(*[cval(y) for y in x[1:]])]))
            except IndexError:
                raise Unreachable()
        if b[0] == 'ref':
            o = st.heap.get(b[1])
            if o is None:
                return VTOP
            if o.kind == 'dict':
                out = o.elem
                if len(iv) == 1 and is_const(next(iter(iv))) and o.keys is not None:
                    k = next(iter(iv))
                    if k in o.keys:
                        return o.keys[k] if not o.elem else vjoin(o.keys[k], o.elem)
                    if o.factory is not None and not out and not o.keyv - frozenset(o.keys) and not o.maykeys and all(is_const(x) for x in o.keys):
                        v = EMPTY
                        for f in o.factory:
                            v = vjoin(v, self.call_value(f, [], {}, st, fr, node))
                        o = st.heap[b[1]].copy()
                        o.keys[k] = v
                        o.keyv = vjoin(o.keyv, V(k))
                        st.heap[b[1]] = o
                        return v
                    if self.strict_keys and not out and not o.keyv - frozenset(o.keys) and not o.maykeys and all(is_const(x) for x in o.keys):
                        raise Unreachable()         # KeyError
                    return out or VTOP
                if self.strict_keys and self.truth_hook and len(iv) == 1 and o.keys and not out and not o.keyv - frozenset(o.keys) and not o.maykeys and all(
                        self.truth_hook(('cmp', '==', next(iter(iv)), x), st) is False for x in o.keys):
                    raise Unreachable()         # KeyError
                return vjoin(out, frozenset().union(*o.keys.values()) if o.keys else None) or VTOP
            out = EMPTY
            for ik, i in enumerate(ordered(iv)):
                if ik:
                    node = _pos(node, ik)
                if o.items is not None:
                    if is_const(i) and isinstance(cval(i), int) and not isinstance(cval(i), bool) and not o.elem:
                        if -len(o.items) <= cval(i) < len(o.items):
                            out = vjoin(out, o.items[cval(i)])
                        continue
                    if i[0] == 'slice' and all(is_const(x) for x in i[1:]) and not o.elem:
                        try:
                            out = vjoin(out, V(self.new_ref(st, Obj(o.kind, o.items[slice(*[cval(x) for x in i[1:]])], node=node), node)))
                            continue
                        except Exception:
                            pass
                if i[0] == 'slice':
                    sym = None
                    if o.sym is not None:
                        sym = numsem.copy_of(self.index_term(numsem.strip_copy(o.sym), i))
                    out = vjoin(out, V(self.new_ref(st, Obj(o.kind, None, o.all_elems(), sym=sym, node=node), node)))
                elif o.sym is not None and o.items is None:
                    out = vjoin(out, V(self.index_term(numsem.strip_copy(o.sym), numsem.strip_copy(self.as_term(i, st)))))
                else:
                    out = vjoin(out, o.all_elems())
            return out or VTOP
        out = set()
        for i in iv:
            t = self.made_index(i, st)
            t = t if t is not i else numsem.strip_copy(self.as_term(i, st))
            if t[0] == 'top':
                t = ('call', 'anyindex', (), ())
            base = b
            if (b, '[]') in st.over:
                base = self.as_term(b, st)
            out.add(self.index_term(base, t))
        return frozenset(out) if len(out) <= MAXV else VTOP

    def index_term(self, b, i):
        if b[0] == 'top':
            return TOP
        fresh = b[0] == 'call' and b[1] == 'copy'
        core = numsem.strip_copy(b)
        if core[0] in ('list', 'tuple') and is_const(i) and isinstance(cval(i), int):
            if -len(core[1]) <= cval(i) < len(core[1]):
                return core[1][cval(i)]
        if core[0] in ('list', 'tuple') and i[0] == 'slice' and all(is_const(x) for x in i[1:]):
            return (core[0], core[1][slice(*[cval(x) for x in i[1:]])])
        if core[0] == 'call' and core[1] == 'ndarray':
            lit = core[2][0]
            if is_const(i) and isinstance(cval(i), int) and -len(lit[1]) <= cval(i) < len(lit[1]):
                x = lit[1][cval(i)]
                return ('call', 'ndarray', (x,), ()) if x[0] == 'list' else x
            if i[0] == 'slice' and all(is_const(x) for x in i[1:]):
                return ('call', 'ndarray', (('list', lit[1][slice(*[cval(x) for x in i[1:]])]),), ())
        if core[0] == 'const' and isinstance(core[2], tuple) and is_const(i) and isinstance(cval(i), int):
            if -len(core[2]) <= cval(i) < len(core[2]):
                return const(core[2][cval(i)])
        if core[0] == 'map' and i[0] != 'slice':
            r = self.subst_each(core[1], core[2], i)
            if r is not None:
                return r
        if core[0] == 'concat' and is_const(i) and isinstance(cval(i), int) and cval(i) >= 0:
            n = self.static_len(core[1])
            if n is not None:
                return self.index_term(core[1], i) if cval(i) < n else self.index_term(core[2], const(cval(i) - n))
        if core[0] == 'idx' and core[2][0] == 'slice' and is_const(i) and isinstance(cval(i), int) and cval(i) >= 0 \
                and core[2][3] == NONE and (core[2][1] == NONE or (is_const(core[2][1]) and cval(core[2][1]) >= 0)):
            lo = 0 if core[2][1] == NONE else cval(core[2][1])
            return self.index_term(core[1], const(lo + cval(i)))
        # loop counters running over the whole sequence denote "each element"
        p = T.as_poly(i)
        li = [m[0][0] for m in p if len(m) == 1 and m[0][0][0] == 'loopidx' and m[0][1] == 1]
        if len(li) == 1 and p.get(((li[0], 1),)) == 1 and set(p) <= {((li[0], 1),), ()}:
            off = p.get((), 0)
            rng = li[0][2]
            lo, hi = (const(0), rng[0]) if len(rng) == 1 else (rng[0], rng[1])
            lenb = ('call', 'len', (core,), ())
            extra = T.sub(hi, lenb)
            if T.is_num(lo) and T.is_num(extra) and len(rng) <= 2 and isinstance(off, int):
                if cval(extra) + off == 0:
                    k = cval(lo) + off
                    if k == 0:
                        return ('each', core)
                    if k > 0:
                        return ('each_from', core, k)
        r = ('idx', core, i)
        if i[0] == 'slice':
            if i == ('slice', NONE, NONE, NONE):
                r = core
            if self.kind_of(core) == 'list' or fresh or (self.list_slices and i == ('slice', NONE, NONE, NONE)):
                return numsem.copy_of(r)
        return r

    def static_len(self, t):
        t = numsem.strip_copy(t)
        if t[0] in ('list', 'tuple'):
            return len(t[1])
        if t[0] == 'idx' and t[2][0] == 'slice' and t[2][3] == NONE and is_const(t[2][2]) and t[2][2] != NONE:
            lo = 0 if t[2][1] == NONE else (cval(t[2][1]) if is_const(t[2][1]) else None)
            hi = cval(t[2][2])
            if lo is not None and lo >= 0 and hi >= lo:
                return hi - lo
        if t[0] == 'concat':
            a, b = self.static_len(t[1]), self.static_len(t[2])
            if a is not None and b is not None:
                return a + b
        return None

    def subst_each(self, body, seq, i):
        target = ('each', seq)
        repl = self.index_term(seq, i)

        def go(t):
            if t == target:
                return repl
            if t[0] in T.LEAF:
                return t
            if t[0] == 'poly':
                r = const(0)
                for m, c in t[1]:
                    mm = const(c)
                    for x, pw in m:
                        g = go(x)
                        for _ in range(abs(pw)):
                            mm = T.mul(mm, g) if pw > 0 else T.div(mm, g)
                    r = T.add(r, mm)
                return r
            if t[0] == 'call':
                return ('call', t[1], tuple(go(x) for x in t[2]), tuple((k, go(v)) for k, v in t[3]))
            if t[0] in ('list', 'tuple'):
                return (t[0], tuple(go(x) for x in t[1]))
            return tuple(go(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t)
        return go(body)

    # ------------------------------------------------------------------ calls
    def e_Await(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def e_Yield(self, n, st, fr):
        if n.value is not None:
            self.ev(n.value, st, fr)
        return VTOP

    def e_Call(self, n, st, fr):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and 'super' not in st.env:
            cls = fr.cls
            if cls is not None:
                selfatom = fr.selfatom
                if selfatom is not None:
                    return V(('super', cls, selfatom))
            return VTOP
        funcs = self.ev(n.func, st, fr)
        args, star = [], EMPTY
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                k = self.known_items(v, st)
                if k is not None:
                    args.extend(k)
                else:
                    star = vjoin(star, self.iter_elem(v, a, st, fr))
            else:
                args.append(self.ev(a, st, fr))
        kwargs = {}
        kwstar = EMPTY
        for k in n.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                known = self.known_kwargs(v, st)
                if known is not None:
                    for kk, vv in known.items():
                        kwargs.setdefault(kk, vv)
                else:
                    kwstar = vjoin(kwstar, v)
            else:
                kwargs[k.arg] = v
        out = None
        multi = len(funcs) > 1
        if self.on_call:
            self.on_call(self, n, funcs, args, kwargs, st, fr)
        base_state = st.copy() if multi else None
        results = []
        for f in funcs:
            cur = base_state.copy() if multi else st
            try:
                v = self.call_value(f, args, kwargs, cur, fr, n, star, kwstar)
            except Unreachable:
                if not multi:
                    raise
                continue
            out = vjoin(out, v)
            results.append(cur)
        if multi:
            j = join_all(results)
            if j is None:
                raise Unreachable()
            env = st.env
            st.assign(j)
        if out is None:
            return VTOP
        return out

    def call_value(self, f, args, kwargs, st, fr, node, star=EMPTY, kwstar=EMPTY):
        k = f[0]
        if k == 'fn':
            return self.call_function(f[1], args, kwargs, st, fr, node, star=star, kwstar=kwstar)
        if k == 'bound':
            m = f[2]
            return self.call_function(m, [V(f[1])] + args, kwargs, st, fr, node,
                                      selfatom=f[1] if f[1][0] != 'cls' else None, star=star, kwstar=kwstar)
        if k == 'closure':
            fi, env, dfr = self.closures[f]
            return self.call_function(fi, args, kwargs, st, fr, node, closure=self._closure_chain(f, st, fr), selfatom=dfr.selfatom,
                                      cls=dfr.cls, star=star, kwstar=kwstar)
        if k == 'cls':
            return self.construct(f[1], args, kwargs, st, fr, node, star, kwstar)
        if k == 'builtin':
            return self.call_builtin(f[1], args, kwargs, st, fr, node, star)
        if k == 'ext':
            self.cur_star, self.cur_kwstar = star, kwstar
            return self.call_ext(f[1], args, kwargs, st, fr, node)
        if k == 'extmethod':
            if f[2].startswith('super.'):
                return VNONE
            return self.call_container_method(f[1], f[2], args, kwargs, st, fr, node)
        if k == 'attr':
            return self.call_method_on_term(f[1], f[2], args, kwargs, st, fr, node)
        if k == 'inst':
            c = self.inst_class.get(f)
            m = c.find_method('__call__') if c else None
            if m:
                return self.call_function(m, [V(f)] + args, kwargs, st, fr, node, selfatom=f)
        self.escape(args, kwargs, st, fr, node, f)
        return V(('call', 'apply', (f,) + tuple(self.one(a, st) for a in args), ())) if f[0] != 'top' else VTOP

    def _closure_chain(self, f, st, fr):
        fi, env, dfr = self.closures[f]
        # when the defining frame is the calling frame use the current environment
        cur = st.env if dfr is fr else env
        return (cur, dfr.closure)

    def escape(self, args, kwargs, st, fr, node, f):
        for a in list(args) + list(kwargs.values()):
            for x in a:
                self.emit('escape', x, 'arg', node, fr, V(f))

    def one(self, v, st):
        if len(v) == 1:
            return self.as_term(next(iter(v)), st)
        return TOP

    def call_function(self, fi, args, kwargs, st, fr, node, selfatom=None, closure=None, cls=None, star=EMPTY, kwstar=EMPTY):
        key = (fi.cls.name + '.' if fi.cls else '') + fi.name
        h = self.summaries.get(key)
        if h is not None:
            r = h(self, fi, args, kwargs, st, fr, node)
            if r is not NotImplemented:
                return r
        nested = sum(f.fn.node is fi.node for f in self.stack)
        if nested > self.recursion or len(self.stack) > MAXDEPTH + self.recursion or self.opaque(fi):
            self.cut += not self.opaque(fi)
            if self.track_guards and not self.opaque(fi):
                self.emit('recurse', ('fnname', key), fi.name, node, fr, frozenset().union(*args, *kwargs.values()))
            self.escape(args, kwargs, st, fr, node, ('fn', fi))
            if self.opaque(fi):
                names = [a.arg for a in fi.node.args.posonlyargs + fi.node.args.args]
                pairs = [(names[i], x) for i, v in enumerate(args) if i < len(names) for x in v]
                pairs += [(k, x) for k, v in kwargs.items() for x in v]
                self.emit('opaquecall', ('fnname', key), fi, node, fr, frozenset(pairs))
            return V(('call', key, tuple(self.one(a, st) for a in args), ())) if self.opaque(fi) else VTOP
        self.calls_inlined += 1
        env = self.bind_args(fi, args, kwargs, st, fr, star, kwstar)
        nfr = Frame(fi, fr, cls or fi.cls, selfatom)
        if selfatom is None and fi.cls is not None and args and not fi.is_static():
            a0 = args[0]
            if len(a0) == 1:
                nfr.selfatom = next(iter(a0))
        nfr.closure = closure
        nfr.site = f"{getattr(node, 'lineno', 0)}.{getattr(node, 'col_offset', 0)}"
        inner = State(env, st.heap, st.over, st.facts)
        v, out = self._run(fi, nfr, inner)
        if out is None:
            e = Unreachable()
            e.state = self.last_raise if self.exact_try else None
            raise e
        st.heap, st.over, st.facts = out.heap, out.over, out.facts
        return v

    def bind_args(self, fi, args, kwargs, st, fr, star, kwstar):
        a = fi.node.args
        env = {}
        params = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kwargs)
        rest = list(args)
        for i, p in enumerate(params):
            if i < len(args):
                env[p] = args[i]
            elif p in kw:
                env[p] = kw.pop(p)
        extra = list(args[len(params):])
        defaults = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kw:
                env[x.arg] = kw.pop(x.arg)
            elif d is not None:
                defaults[x.arg] = d
        for p in params + [x.arg for x in a.kwonlyargs]:
            if p not in env:
                v = EMPTY
                if star:
                    v = vjoin(v, star)
                if kwstar:
                    for s in kwstar:
                        v = vjoin(v, self.get_item(s, V(const(p)), st, fr, fi.node))
                if p in defaults:
                    v = vjoin(v, self.default_value(fi, p, defaults[p], st))
                env[p] = v or VTOP
        if a.vararg:
            env[a.vararg.arg] = V(self.new_ref(st, Obj('tuple', extra if not star else None, star, node=fi.node), fi.node))
        if a.kwarg:
            keys = {const(k): v for k, v in kw.items()}
            env[a.kwarg.arg] = V(self.new_ref(st, Obj('dict', None, EMPTY, keys=keys, keyv=frozenset(keys), node=fi.node), fi.node))
            if kwstar:
                env[a.kwarg.arg] = vjoin(env[a.kwarg.arg], kwstar)
        return env

    def default_value(self, fi, p, d, st=None):
        if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or isinstance(d, ast.Call):
            if isinstance(d, ast.Call):
                return V(('global', fi.module.name, f'<default {fi.qualname}.{p}>'))
            return V(('global', fi.module.name, f'<default {fi.qualname}.{p}>'))
        f = Frame(FunctionInfo('<default>', fi.module, ast.parse('def _m(): pass').body[0]))
        return self.ev(d, st if isinstance(d, ast.Tuple) and st is not None else State(), f)

    def construct(self, ci, args, kwargs, st, fr, node, star=EMPTY, kwstar=EMPTY):
        h = self.summaries.get(ci.name + '.<new>')
        if h is not None:
            r = h(self, ci, args, kwargs, st, fr, node)
            if r is not NotImplemented:
                return r
        ctx = '/'.join(f'{f.fn.qualname}@{f.site}' for f in self.stack) if self.recursion else '/'.join(f.fn.qualname for f in self.stack[-4:])
        a = ('inst', ci.name, ctx, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)) + ((tuple(self.iterctx),) if self.iterctx else ())
        self.inst_class[a] = ci
        for k in [k for k in st.over if k[0] == a]:
            del st.over[k]
        m = ci.find_method('__init__')
        if m is not None:
            self.call_function(m, [V(a)] + args, kwargs, st, fr, node, selfatom=a, star=star, kwstar=kwstar)
        return V(a)

    # -- containers
    def mutate_ref(self, a, how, args, st, fr, node):
        o = st.heap.get(a[1])
        if o is None:
            return VTOP
        self.emit('mutate', a, how, node, fr, args[how in ('insert', 'setdefault') and len(args) > 1] if args else EMPTY, args[0] if how == 'setdefault' and args else None, st)
        o = o.copy()
        o.mut = True
        if o.kind == 'set':
            sk, o.setk = o.setk, None
            if sk is not None and args:
                y = self.members(args[:1]) if how in ('add', 'discard', 'remove') else self.set_of(args[0], st) if len(args) == 1 else None
                if y is not None and how in ('add', 'update'):
                    o.setk = sk | y
                elif y is not None and how in ('discard', 'remove', 'difference_update'):
                    o.setk = sk - y
                elif y is not None and how == 'intersection_update':
                    o.setk = sk & y
            elif how == 'clear':
                o.setk = frozenset()
        ret = VNONE
        if how == 'append':
            if o.items is not None:
                o.items.append(args[0])
            else:
                o.elem = vjoin(o.elem, args[0])
            if o.sym is not None:
                t = self.one(args[0], st)
                o.sym = ('concat', numsem.strip_copy(o.sym), ('list', (t,))) if t[0] != 'top' and not T.has_top(t) else None
        elif how == 'insert':
            v = args[1] if len(args) > 1 else VTOP
            ci = next(iter(args[0])) if len(args[0]) == 1 else None
            if o.items is not None and ci is not None and is_const(ci) and isinstance(cval(ci), int):
                o.items.insert(cval(ci), v)
                o.sym = None
            else:
                base = numsem.strip_copy(self.as_term(a, st))
                t = self.one(v, st)
                i = self.one(args[0], st)
                o.elem = vjoin(o.all_elems(), v)
                o.items = None
                o.sym = ('call', 'insert', (base, i, t), ()) if not (T.has_top(base) or T.has_top(t) or T.has_top(i)) else None
        elif how in ('extend', 'aug'):
            v = args[0]
            k = self.known_items(v, st)
            if k is None and len(v) == 1 and is_const(next(iter(v))) and isinstance(cval(next(iter(v))), bytes):
                k = [v]     # a byte buffer: the run of bytes is kept as one item
            if o.kind == 'list' and o.items is not None and k is not None:
                o.items.extend(k)
                o.sym = None
            else:
                base = self.as_term(a, st)
                add = self.one(v, st)
                e = self.iter_elem(v, node, st, fr)
                if o.kind == 'set' or o.kind == 'list':
                    o.elem = vjoin(o.all_elems(), e)
                    o.items = None
                    if o.kind == 'list' and not T.has_top(base) and not T.has_top(add):
                        if base == ('list', ()):
                            o.sym = numsem.copy_of(numsem.strip_copy(add))
                        else:
                            o.sym = ('concat', numsem.strip_copy(base), numsem.strip_copy(add))
                    else:
                        o.sym = None
        elif how == 'pop':
            o.sym = None
            ci = next(iter(args[0])) if args and len(args[0]) == 1 else None
            if o.kind == 'dict':
                ret = self.get_item(a, args[0] if args else VTOP, st, fr, node)
                if ci is not None and o.keys is not None and ci in o.keys:
                    o.keys.pop(ci)
            else:
                ret = o.all_elems() or VTOP
                if o.items is not None and (not args or (ci is not None and is_const(ci) and isinstance(cval(ci), int))):
                    try:
                        ret = o.items.pop(*([cval(ci)] if args else []))
                    except Exception:
                        pass
                elif o.items is not None:
                    o.elem, o.items = o.all_elems(), None
        elif how in ('clear',):
            o.items, o.elem, o.sym = ([] if o.kind == 'list' else None), EMPTY, None
            o.keys = {} if o.kind == 'dict' else o.keys
        elif how in ('add',):
            o.elem = vjoin(o.elem, args[0])
        elif how == 'update':
            o.sym = None
            for x in args[:1]:
                for y in x:
                    if y[0] == 'ref' and st.heap.get(y[1]) is not None:
                        src = st.heap[y[1]]
                        if o.kind == 'dict' and src.kind == 'dict':
                            for kk, vv in (src.keys or {}).items():
                                o.keys = o.keys if o.keys is not None else {}
                                o.keys[kk] = vv
                            o.elem = vjoin(o.elem, src.elem)
                            o.keyv = vjoin(o.keyv, src.keyv)
                        else:
                            o.elem = vjoin(o.elem, src.all_elems())
                    else:
                        o.elem = vjoin(o.elem, V(('each', y)) if o.kind == 'set' else V(idx(y, ('each', y))))
                        o.keyv = vjoin(o.keyv, V(('each', y)))
        elif how == 'setdefault':
            k = args[0]
            d = args[1] if len(args) > 1 else VNONE
            o.keyv = vjoin(o.keyv, k)
            ck = next(iter(k)) if len(k) == 1 else None
            if ck is not None and is_const(ck) and o.keys is not None and ck in o.keys and ck not in o.maykeys and not o.elem:
                ret = o.keys[ck]
            elif ck is not None and is_const(ck) and o.keys is not None:
                o.keys[ck] = vjoin(o.keys.get(ck), d)
                ret = o.keys[ck]
            else:
                o.elem = vjoin(o.elem, d)
                ret = o.all_elems()
        elif how in ('sort', 'reverse', 'remove', 'discard', 'del', 'delitem', 'popitem'):
            if how == 'remove' or how == 'del':
                x = self.members(args[:1]) if how == 'remove' and args else None
                ks = [self.members([i]) for i in o.items] if o.items is not None else []
                if x is not None and o.items is not None and not o.elem and all(k is not None for k in ks):
                    if x in ks:
                        o.items.pop(ks.index(x))
                elif how == 'del' and o.kind == 'dict' and o.keys is not None and args and len(args[0]) == 1 and next(iter(args[0])) in o.keys:
                    o.keys.pop(next(iter(args[0])))
                elif how == 'del' and o.kind == 'list' and o.items is not None and not o.elem and args and len(args[0]) == 1 and self._del_items(o.items, next(iter(args[0]))):
                    pass
                else:
                    o.elem, o.items = o.all_elems(), None
            elif how == 'reverse' and o.items is not None:
                o.items = o.items[::-1]
            elif how == 'sort':
                o.elem, o.items = o.all_elems(), None
            o.sym = None
        st.heap[a[1]] = o
        return ret

    def _del_items(self, items, i):
        try:
            if is_const(i) and isinstance(cval(i), int):
                del items[cval(i)]
                return True
            if i[0] == 'slice' and all(is_const(x) and (cval(x) is None or isinstance(cval(x), int)) for x in i[1:]):
                del items[slice(*[cval(x) for x in i[1:]])]
                return True
        except (IndexError, ValueError):
            pass
        return False

    def call_container_method(self, a, name, args, kwargs, st, fr, node):
        h = self.summaries.get('[].' + name)
        if h is not None:
            r = h(self, a, args, kwargs, st, fr, node)
            if r is not NotImplemented:
                return r
        o = st.heap.get(a[1])
        if o is None:
            return VTOP
        if name in ('popleft', 'appendleft', 'extendleft') and o.kind == 'list':
            if name == 'popleft':
                return self.call_container_method(a, 'pop', [V(const(0))], {}, st, fr, node)
            if name == 'appendleft' and args:
                return self.call_container_method(a, 'insert', [V(const(0)), args[0]], {}, st, fr, node)
            ks = self.known_items(args[0], st) if args else None
            for x in ks if ks is not None else [V(('each', y)) for y in (args[0] if args else ())]:
                self.call_container_method(a, 'insert', [V(const(0)) if ks is not None else VTOP, x], {}, st, fr, node)
            return VNONE
        if name in ALL_MUT:
            new = self.ordered(o.items, kwargs, st, fr, node) if name == 'sort' and not o.elem and not args else None
            r = self.mutate_ref(a, name, args, st, fr, node)
            if new is not None:
                o = st.heap[a[1]].copy()
                o.items, o.elem = new, EMPTY
                st.heap[a[1]] = o
            return r
        if name == '__contains__' and len(args) == 1:
            return self.compare(ast.In(), args[0], V(a), st, fr, node)
        if name in ('__getitem__', '__setitem__') and len(args) == (1 if name == '__getitem__' else 2):
            if name == '__getitem__':
                return self.get_item(a, args[0], st, fr, node)
            self.set_item(a, args[0], args[1], st, fr, node)
            return VNONE
        if name == 'keys':
            if o.keys is not None and not o.elem:
                return V(self.new_ref(st, Obj('list', [V(k) for k in o.keys], node=node), node))
            return V(self.new_ref(st, Obj('list', None, vjoin(o.keyv, frozenset(o.keys or ())), node=node), node))
        if name == 'values':
            if o.keys is not None and not o.elem:
                return V(self.new_ref(st, Obj('list', list(o.keys.values()), node=node), node))
            return V(self.new_ref(st, Obj('list', None, o.all_elems(), node=node), node))
        if name == 'items':
            pr = []
            for k, v in (o.keys or {}).items():
                pr.append(V(self.new_ref(st, Obj('tuple', [V(k), v], node=node), _pos(node, len(pr)))))
            if o.keys is not None and not o.elem:
                return V(self.new_ref(st, Obj('list', pr, node=node), node))
            e = V(self.new_ref(st, Obj('tuple', [o.keyv, o.all_elems()], node=node), _pos(node, 99)))
            return V(self.new_ref(st, Obj('list', None, e, node=node), node))
        if name == 'get':
            try:
                v = self.get_item(a, args[0], st, fr, node) if args else VTOP
            except Unreachable:
                v = VTOP
            k = next(iter(args[0])) if args and len(args[0]) == 1 else None
            if k is not None and is_const(k) and o.keys is not None and k in o.keys:
                return v
            return vjoin(v if v != VTOP or o.elem else None, args[1] if len(args) > 1 else VNONE)
        if name == 'copy':
            return V(self.new_ref(st, o.copy(), node))
        if name in ('index', 'count') and len(args) == 1 and len(args[0]) == 1:
            items, x = self.known_items(V(a), st), next(iter(args[0]))
            if items is not None and is_const(x) and all(len(i) == 1 and is_const(next(iter(i))) for i in items):
                vals = [next(iter(i)) for i in items]
                if name == 'count':
                    return V(const(vals.count(x)))
                if x in vals:
                    return V(const(vals.index(x)))
        if name == 'index':
            return V(('call', 'listindex', (self.as_term(a, st), self.one(args[0], st) if args else TOP), ()))
        if name in ('union', 'difference', 'intersection', 'symmetric_difference'):
            e = o.elem
            for x in args:
                e = vjoin(e, self.iter_elem(x, node, st, fr)) if name in ('union', 'symmetric_difference') else e
            sk = o.setk if o.kind == 'set' else None
            for x in args:
                y = self.set_of(x, st)
                sk = None if sk is None or y is None else sk | y if name == 'union' else sk & y if name == 'intersection' else sk - y if name == 'difference' else sk ^ y
            return V(self.new_ref(st, Obj('set', None, e if sk is None else sk, node=node, setk=sk), node))
        if name == 'count':
            return V(('call', 'count', (self.as_term(a, st),), ()))
        return VTOP

    # -- methods on symbolic terms
    def call_method_on_term(self, b, name, args, kwargs, st, fr, node):
        if b == ('builtin', 'dict') and name == 'fromkeys' and 1 <= len(args) <= 2 and not kwargs:
            ks = self.known_items(args[0], st)
            if ks is not None and all(len(k) == 1 and (is_const(next(iter(k))) or next(iter(k))[0] == 'param' and self.set_items) for k in ks):
                ks = [next(iter(k)) for k in ks]
                if all(is_const(k) for k in ks) or len(set(ks)) <= 1:
                    keys = {k: args[1] if len(args) > 1 else VNONE for k in ks}
                    return V(self.new_ref(st, Obj('dict', keys=keys, keyv=frozenset(keys), node=node), node))
        h = self.summaries.get('.' + name)
        if h is not None:
            r = h(self, b, args, kwargs, st, fr, node)
            if r is not NotImplemented:
                return r
        h = self.summaries.get('.*')
        if h is not None:
            r = h(self, b, name, args, kwargs, st, fr, node)
            if r is not NotImplemented:
                return r
        if name == '__setattr__' and b[0] == 'inst' and len(args) == 2:
            return self.call_builtin('setattr', [V(b)] + list(args), {}, st, fr, node)
        if name == '__getattribute__' and len(args) == 1 and len(args[0]) == 1 and is_const(next(iter(args[0]))) and isinstance(cval(next(iter(args[0]))), str):
            return self.get_attr(b, cval(next(iter(args[0]))), st, fr, node)
        if name in ALL_MUT and not self.array_like(b):
            if not (name in ('pop', 'remove', 'update', 'add', 'clear', 'sort', 'insert', 'extend', 'append', 'reverse', 'discard',
                             'setdefault', 'popitem') and b[0] == 'const'):
                self.emit('mutate', b, name, node, fr, args[name in ('insert', 'setdefault') and len(args) > 1] if args else EMPTY, args[0] if name == 'setdefault' and args else None, st)
            if name in ('pop', 'setdefault', 'popitem'):
                return self.get_item(b, args[0] if args else VTOP, st, fr, node)
            return VNONE
        if name in ('sort', 'fill', 'put', 'partition', 'resize', 'itemset', 'byteswap') and self.array_like(b):
            self.emit('mutate', b, name, node, fr, args[name in ('insert', 'setdefault') and len(args) > 1] if args else EMPTY, args[0] if name == 'setdefault' and args else None, st)
            if name == 'fill':
                st.over[(b, '[]')] = V(('tuple', (('slice', NONE, NONE, NONE), self.one(args[0], st) if args else TOP)))
            return VNONE
        if name in ('fill', 'itemset') and not self.array_like(b):
            self.emit('mutate', b, name, node, fr, args[name in ('insert', 'setdefault') and len(args) > 1] if args else EMPTY, args[0] if name == 'setdefault' and args else None, st)
            st.over[(b, '[]')] = V(('tuple', (('slice', NONE, NONE, NONE), self.one(args[0], st) if args else TOP)))
            return VNONE
        if b[0] == 'call' and b[1] == 'ndarray':
            lit = b[2][0]
            if name == 'tolist' and not args:
                if all(x[0] != 'list' for x in lit[1]):
                    return V(self.new_ref(st, Obj('list', [V(x) for x in lit[1]], node=node), node))
                return V(lit)
            if name in ('copy', 'ravel', 'flatten') and not args and all(x[0] != 'list' for x in lit[1]):
                return V(b)
            if name == 'astype' and not args and set(kwargs) == {'dtype'}:
                args, kwargs = [kwargs['dtype']], {}
            if name == 'astype' and args and all(self.is_int(x) for x in lit[1]) and len(args[0]) == 1:
                d = next(iter(args[0]))
                if d in (('ext', 'numpy.int64'), ('ext', 'numpy.int32'), ('builtin', 'int')):
                    return V(b)
            if name == 'item' and not args and len(lit[1]) == 1:
                return V(lit[1][0])
        base = self.as_term(b, st)
        if name in ('keys', 'values', 'items') and not args:
            return V(('call', name, (base,), ()))
        if name == 'get' and args:
            v = self.get_item(b, args[0], st, fr, node)
            return vjoin(v, args[1] if len(args) > 1 else VNONE)
        if name == 'copy' and not args:
            return V(numsem.copy_of(numsem.strip_copy(base)))
        if name in numsem.ARRAY_METHODS:
            return self.numpy_call(name, [V(base)] + args, kwargs, st, fr, node)
        if name == 'join' and b[0] == 'const':
            v = args[0] if args else VTOP
            return V(('call', 'join', (b, self.one(v, st)), ()))
        if b[0] == 'const' and isinstance(b[2], str) and name in ('startswith', 'endswith') and len(args) == 1:
            k = self.known_items(args[0], st)
            if k is not None and all(len(x) == 1 and is_const(next(iter(x))) and isinstance(cval(next(iter(x))), str) for x in k):
                return V(const(getattr(b[2], name)(tuple(cval(next(iter(x))) for x in k))))
        if b[0] == 'const' and isinstance(b[2], (str, bytes)) and all(len(a) == 1 and is_const(next(iter(a))) for a in args):
            try:
                r = getattr(b[2], name)(*[cval(next(iter(a))) for a in args])
                if isinstance(r, (str, bytes, int, bool)):
                    return V(const(r))
                if isinstance(r, list) and len(r) < 40:
                    return V(self.new_ref(st, Obj('list', [V(const(x)) for x in r], node=node), node))
            except Exception:
                pass
        for a in list(args) + list(kwargs.values()):
            for x in a:
                self.emit('escape', x, 'method ' + name, node, fr, V(b))
        self.emit('methodcall', b, name, node, fr, frozenset([(i, x) for i, a in enumerate(args) for x in a] + [(k, x) for k, a in kwargs.items() for x in a]))
        ts = tuple(numsem.strip_copy(self.one(a, st)) for a in args)
        return V(('call', '.' + name, (numsem.strip_copy(base),) + ts,
                  tuple(sorted((k, self.one(v, st)) for k, v in kwargs.items()))))

    def array_like(self, b):
        return self.kind_of(b) == 'array' or (b[0] == 'call' and b[1] in ('zeros', 'ones', 'empty', 'zeros_like', 'full',
                                              'ones_like', 'array', 'asarray', 'astype', 'copy', 'empty_like'))

    # -- builtins
    def call_builtin(self, name, args, kwargs, st, fr, node, star=EMPTY):
        a0 = args[0] if args else EMPTY
        h = self.summaries.get('builtin:' + name)
        if h is not None:
            r = h(self, name, args, kwargs, st, fr, node)
            if r is not NotImplemented:
                return r
        if name == 'len' and args:
            out = set()
            for a in a0:
                if a[0] == 'inst' and self.class_of(a) is not None and self.class_of(a).find_method('__len__') is not None:
                    out |= self.call_value(('bound', a, self.class_of(a).find_method('__len__')), [], {}, st, fr, node)
                    continue
                k = self.known_items(V(a), st)
                if k is None and a[0] == 'ref' and st.heap.get(a[1]) is not None and st.heap[a[1]].kind == 'set':
                    k = st.heap[a[1]].setk
                if k is not None:
                    out.add(const(len(k)))
                else:
                    t = numsem.strip_copy(self.as_term(a, st))
                    if t[0] == 'top' and a[0] == 'ref':
                        t = a
                    n = self.static_len(t) if t[0] not in ('top', 'ref') else None
                    kl = self.known_len(('call', 'len', (t,), ()))
                    out.add(const(n) if n is not None else const(kl) if kl is not None else ('call', 'len', (t,), ()))
            return frozenset(out)
        if name in ('list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed', 'iter'):
            kind = {'tuple': 'tuple', 'set': 'set', 'frozenset': 'set'}.get(name, 'list')
            if not args:
                return V(self.new_ref(st, Obj(kind, [] if kind != 'set' else None, node=node, setk=frozenset() if kind == 'set' else None), node))
            k = self.known_items(a0, st)
            if kind == 'set' and self.set_of(a0, st) is not None:
                sk = self.set_of(a0, st)
                return V(self.new_ref(st, Obj('set', None, sk, node=node, setk=sk), node))
            if k is not None and kind != 'set' and name in ('list', 'tuple', 'iter'):
                return V(self.new_ref(st, Obj(kind, k, node=node), node))
            if k is not None and name == 'sorted':
                new = self.ordered(k, kwargs, st, fr, node)
                if new is not None:
                    return V(self.new_ref(st, Obj(kind, new, node=node), node))
            if k is not None and name == 'reversed':
                return V(self.new_ref(st, Obj(kind, k[::-1], node=node), node))
            e = self.iter_elem(a0, node, st, fr)
            o = Obj(kind, None, e, node=node)
            if len(a0) == 1 and kind != 'set':
                t = self.as_term(next(iter(a0)), st)
                if t[0] != 'top':
                    if name in ('list', 'tuple', 'iter'):
                        o.sym = numsem.copy_of(numsem.strip_copy(t))
                    else:
                        o.sym = ('call', name, (numsem.strip_copy(t),), ())
            return V(self.new_ref(st, o, node))
        if name == 'dict':
            keys = {const(k): v for k, v in kwargs.items()}
            o = Obj('dict', None, EMPTY, keys=keys, keyv=frozenset(keys), node=node)
            for a in a0:
                if a[0] == 'ref' and st.heap.get(a[1]) is not None and st.heap[a[1]].kind == 'dict':
                    src = st.heap[a[1]]
                    o.keys.update(src.keys or {})
                    o.elem = vjoin(o.elem, src.elem)
                    o.keyv = vjoin(o.keyv, src.keyv)
                else:
                    o.elem = vjoin(o.elem, V(idx(a, ('each', a))))
                    o.keyv = vjoin(o.keyv, V(('each', a)))
            return V(self.new_ref(st, o, node))
        if name in ('range', 'enumerate', 'zip'):
            out = set()
            combos = self.product([[numsem.strip_copy(self.as_term(x, st)) if self.as_term(x, st)[0] != 'top' else x for x in v] for v in args])
            if combos is None:
                return VTOP
            for c in combos:
                if name == 'range' and len(c) == 2 and c[0] == const(0):
                    c = c[1:]
                out.add(('call', name, tuple(c), ()))
            return frozenset(out)
        if name in ('int', 'float', 'bool', 'str', 'abs', 'round', 'bytes'):
            out = set()
            for a in a0:
                t = numsem.strip_copy(self.as_term(a, st))
                if is_const(t):
                    try:
                        f = {'int': int, 'float': float, 'bool': bool, 'str': str, 'abs': abs, 'round': round, 'bytes': bytes}[name]
                        out.add(const(f(cval(t))))
                        continue
                    except Exception:
                        pass
                if name == 'int' and self.is_int(t):
                    out.add(t)
                elif name == 'abs':
                    out.add(('call', 'absolute', (t,), ()))
                elif name == 'round':
                    out.add(('call', 'pyround', (t,) + tuple(self.one(x, st) for x in args[1:]), ()))
                else:
                    out.add(('call', name, (t,), ()))
            return frozenset(out) or V(const({'int': 0, 'str': '', 'float': 0.0, 'bool': False}.get(name, 0)))
        if name in ('min', 'max'):
            if len(args) == 1:
                k = self.known_items(a0, st)
                if k is None:
                    return V(('call', 'py' + name, (self.one(a0, st),), ()))
                args = k
            if not args:
                return V(('call', 'py' + name, (), ()))
            combos = self.product([[numsem.strip_copy(self.as_term(x, st)) for x in v] for v in args])
            if combos is None:
                return VTOP
            out = set()
            for c in combos:
                if all(T.is_num(x) for x in c):
                    out.add(const((min if name == 'min' else max)(cval(x) for x in c)))
                else:
                    out.add(('call', 'py' + name, tuple(sorted(c, key=repr)), ()))
            return frozenset(out)
        if name == 'sum':
            t = self.one(a0, st)
            k = self.known_items(a0, st)
            if k is not None and all(len(x) == 1 for x in k):
                r = const(0)
                for x in k:
                    r = T.add(r, numsem.strip_copy(self.as_term(next(iter(x)), st)))
                return V(r)
            if t[0] == 'map':
                return V(T.add(('call', 'sumover', (t[1],), ()), const(0)))
            return V(('call', 'pysum', (numsem.strip_copy(t),), ()))
        if name == 'isinstance' and len(args) == 2:
            return self.isinstance_(a0, args[1], st)
        if name == 'hasattr' and len(args) == 2:
            out = set()
            for a in a0:
                n = next(iter(args[1])) if len(args[1]) == 1 else None
                if n is not None and is_const(n):
                    v = st.over.get((a, cval(n)))
                    c = self.class_of(a)
                    if v is not None and MISSING not in v:
                        out.add(TRUE)
                        continue
                    if c is not None and (c.find_method(cval(n)) or c.find_attr(cval(n))):
                        out.add(TRUE)
                        continue
                    if a in self.closed:
                        if v is None:
                            out.add(FALSE)
                            continue
                        out.add(TOP)
                        continue
                    out.add(('call', 'hasattr', (a, n), ()))
                else:
                    out.add(TOP)
            return frozenset(out)
        if name == 'getattr' and len(args) >= 2:
            out = EMPTY
            for a in a0:
                for n in args[1]:
                    if is_const(n) and isinstance(cval(n), str):
                        if len(args) > 2 and (a, cval(n)) in st.over and MISSING not in st.over[(a, cval(n))] and a not in self.closed:
                            out = vjoin(out, self.get_attr(a, cval(n), st, fr, node))
                            if len(a0) == 1 and len(args[1]) == 1:
                                return out
                            continue
                        if len(args) > 2 and a in self.closed:
                            try:
                                out = vjoin(out, self.get_attr(a, cval(n), st, fr, node))
                                if MISSING not in st.over.get((a, cval(n)), EMPTY):
                                    return out
                            except Unreachable:
                                pass
                            continue
                        out = vjoin(out, self.get_attr(a, cval(n), st, fr, node))
                    else:
                        out = vjoin(out, V(('call', 'getattr', (a, n), ())))
            if len(args) > 2:
                self.emit('getattr_default', next(iter(a0)) if a0 else TOP, '', node, fr, args[1] | args[2])
                out = vjoin(out, args[2])
            return out
        if name == 'setattr' and len(args) == 3:
            for a in a0:
                for n in args[1]:
                    if is_const(n):
                        self.set_attr(a, cval(n), args[2], st, fr, node, weak=len(a0) > 1 or len(args[1]) > 1)
                    else:
                        self.emit('setattr', a, '*', node, fr, args[2])
            return VNONE
        if name == 'type' and len(args) == 1:
            out = set()
            for a in a0:
                c = self.class_of(a)
                out.add(('cls', c) if c is not None else ('call', 'type', (self.as_term(a, st),), ()))
            return frozenset(out)
        if name == 'map' and len(args) == 2:
            items = self.known_items(args[1], st)
            if items is not None and len(items) <= self.unroll and len(a0) == 1:
                return V(self.new_ref(st, Obj('list', [self.call_value(next(iter(a0)), [x], {}, st, fr, node) for x in items], node=node), node))
            e = self.iter_elem(args[1], node, st, fr)
            r = EMPTY
            for f in a0:
                r = vjoin(r, self.call_value(f, [e], {}, st, fr, node))
            o = Obj('list', None, r, node=node)
            if len(r) == 1 and len(args[1]) == 1 and next(iter(args[1]))[0] != 'ref':
                o.sym = ('map', next(iter(r)), next(iter(args[1])))
            return V(self.new_ref(st, o, node))
        if name == 'filter' and len(args) == 2:
            return V(self.new_ref(st, Obj('list', None, self.iter_elem(args[1], node, st, fr), node=node), node))
        if name == 'next' and args:
            if isinstance(node, ast.Call) and node.args and isinstance(node.args[0], ast.Call) and isinstance(node.args[0].func, ast.Name) and node.args[0].func.id == 'iter':
                items = self.known_items(a0, st)        # the first of a fresh iterator
                if items:
                    return items[0]
            return self.iter_elem(a0, node, st, fr)
        if name in ('print', 'open', 'id', 'repr', 'exec', 'eval', 'input', 'exit', 'any', 'all', 'hash', 'callable', 'issubclass',
                    'ord', 'chr', 'bytearray', 'vars', 'dir', 'divmod', 'pow', 'slice', 'format', 'object', 'memoryview', '__import__'):
            if name == '__import__' and args and len(a0) == 1 and is_const(next(iter(a0))):
                return V(('ext', cval(next(iter(a0)))))
            if name in ('any', 'all') and len(args) == 1:
                k = self.known_items(a0, st)
                if k is not None:
                    ts = [self.truth(x, st) for x in k]
                    if name == 'any' and True in ts or name == 'all' and False in ts:
                        return V(const(name == 'any'))
                    if None not in ts:
                        return V(const(name == 'all'))
            self.emit('builtin', ('builtin', name), name, node, fr, None)
            if name == 'pow' and len(args) == 2:
                return self.binop(ast.Pow(), args[0], args[1], st, fr, node)
            return V(('call', name, tuple(self.one(a, st) for a in args), ()))
        if name and name[0].isupper():
            return V(('call', name, (), ()))
        return VTOP

    def isinstance_(self, va, vc, st):
        out = set()
        for a in va:
            c = self.class_of(a)
            res = None
            cl = []
            for x in vc:
                k = self.known_items(V(x), st)
                cl += [y for i in k for y in i] if k is not None else [x]
            if c is not None and all(x[0] in ('cls', 'builtin', 'ext') for x in cl):
                pc = [x[1] for x in cl if x[0] == 'cls']
                if any(q in c.mro() for q in pc):
                    res = TRUE
                elif not c.has_external_base():
                    res = FALSE
            elif a[0] == 'const':
                names = [x[1] for x in cl if x[0] == 'builtin']
                ty = type(a[2]).__name__
                if ty in names:
                    res = TRUE
                elif all(x[0] in ('builtin', 'ext', 'cls') for x in cl) and not any(x[0] == 'ext' and 'numbers' in x[1] for x in cl):
                    res = FALSE if not (ty == 'bool' and 'int' in names) else TRUE
            elif a[0] == 'call' and a[1] == 'ndarray' and all(x[0] in ('builtin', 'ext', 'cls') for x in cl):
                res = const(any(x[0] == 'ext' and x[1] in ('numpy.ndarray', 'collections.abc.Iterable') for x in cl))
            elif a[0] != 'ref' and self.is_int(numsem.strip_copy(a)) and all(x[0] in ('builtin', 'ext', 'cls') for x in cl):
                res = const('int' in [x[1] for x in cl if x[0] == 'builtin'] or any(x[0] == 'ext' and 'numbers' in x[1] for x in cl))
            elif a[0] in ('tuple', 'list') and all(x[0] in ('builtin', 'ext', 'cls') for x in cl) and not any(x[0] == 'ext' and x[1].startswith(('collections', 'typing')) for x in cl):
                res = const(a[0] in [x[1] for x in cl if x[0] == 'builtin'])
            elif a[0] == 'ref':
                o = st.heap.get(a[1])
                names = [x[1] for x in cl if x[0] == 'builtin']
                if o is not None:
                    res = TRUE if o.kind in names else (FALSE if all(x[0] in ('builtin', 'ext', 'cls') for x in cl) else None)
            if res is None:
                ty = tuple(sorted((x if x[0] != 'cls' else ('const', 'str', x[1].name) for x in cl), key=repr))
                res = ('call', 'isinstance', (self.as_term(a, st),) + ty, ())
            out.add(res)
        return frozenset(out)

    def product(self, lists, limit=24):
        acc = [()]
        for l in lists:
            acc = [p + (x,) for p in acc for x in l]
            if len(acc) > limit:
                return None
        return acc

    # -- external functions
    def std_container(self, path, args, kwargs, st, fr, node):
        if path == 'collections.deque' and len(args) <= 1 and not kwargs:
            return self.call_builtin('list', args, {}, st, fr, node)
        if path == 'collections.OrderedDict':
            return self.call_builtin('dict', args, kwargs, st, fr, node)
        if path == 'collections.defaultdict' and len(args) <= 2 and self.strict_keys:
            r = self.call_builtin('dict', args[1:], kwargs, st, fr, node)
            for x in r:
                if args and x[0] == 'ref' and not any(f == NONE for f in args[0]):
                    o = st.heap[x[1]].copy()
                    o.factory = args[0]
                    st.heap[x[1]] = o
            return r
        if path in ('itertools.chain', 'itertools.chain.from_iterable') and not kwargs:
            if path.endswith('from_iterable'):
                args = self.known_items(args[0], st) if len(args) == 1 else None
            ks = [self.known_items(x, st) for x in args] if args is not None else [None]
            if all(k is not None for k in ks):
                return V(self.new_ref(st, Obj('list', [i for k in ks for i in k], node=node), node))
        return None

    def call_ext(self, path, args, kwargs, st, fr, node):
        h = self.summaries.get('ext:' + path)
        if h is not None:
            r = h(self, path, args, kwargs, st, fr, node)
            if r is not NotImplemented:
                return r
        h = self.summaries.get('ext:*')
        if h is not None:
            r = h(self, path, args, kwargs, st, fr, node)
            if r is not NotImplemented:
                return r
        if path.startswith('numpy.'):
            return self.numpy_call(path[6:], args, kwargs, st, fr, node)
        if path.startswith(('collections.', 'itertools.')):
            r = self.std_container(path, args, kwargs, st, fr, node)
            if r is not None:
                return r
        if path.startswith('operator.') and len(args) == 2 and not kwargs:
            o = {'le': ast.LtE, 'lt': ast.Lt, 'ge': ast.GtE, 'gt': ast.Gt, 'eq': ast.Eq, 'ne': ast.NotEq}.get(path[9:])
            if o is not None:
                return self.compare(o(), args[0], args[1], st, fr, node)
            b = {'add': ast.Add, 'sub': ast.Sub, 'mul': ast.Mult, 'truediv': ast.Div, 'floordiv': ast.FloorDiv, 'mod': ast.Mod, 'pow': ast.Pow}.get(path[9:])
            if b is not None:
                return self.binop(b(), args[0], args[1], st, fr, node)
            if path == 'operator.getitem' and len(args[0]) == 1:
                return self.get_item(next(iter(args[0])), args[1], st, fr, node)
        if path in ('os.path.basename', 'os.path.normpath', 'os.path.dirname', 're.sub', 're.escape') and args and not kwargs \
                and all(len(a) == 1 and all(x[0] == 'const' and isinstance(x[2], str) for x in a) for a in args):
            import posixpath
            import re
            vals = [next(iter(a))[2] for a in args]
            try:
                return V(T.const(re.sub(*vals) if path == 're.sub' else re.escape(*vals) if path == 're.escape' else getattr(posixpath, path[8:])(*vals)))
            except (re.error, TypeError):
                pass
        if path in ('copy.deepcopy',):
            out = set()
            for a in (args[0] if args else ()):
                if a[0] == 'ref':
                    o = st.heap.get(a[1])
                    out.add(self.new_ref(st, o.copy(), node) if o is not None else TOP)
                else:
                    out.add(('call', 'deepcopy', (self.as_term(a, st),), ()))
            return frozenset(out)
        if path == 'copy.copy':
            out = set()
            for a in (args[0] if args else ()):
                if a[0] == 'ref':
                    o = st.heap.get(a[1])
                    out.add(self.new_ref(st, o.copy(), node) if o is not None else TOP)
                else:
                    out.add(self.shallow_copy(a, st, node))
            return frozenset(out)
        if path.startswith('math.'):
            name = path[5:]
            if name in ('ceil', 'floor', 'sqrt', 'exp', 'log', 'erf', 'log2', 'tanh', 'prod', 'trunc'):
                return self.numpy_call(name, args, kwargs, st, fr, node)
        if path in ('warnings.warn',):
            return VNONE
        if path.startswith('sys.exit') or path in ('os._exit',):
            raise Unreachable()
        for a in list(args) + list(kwargs.values()):
            for x in a:
                self.emit('escape', x, path, node, fr, None)
        return V(('call', path, tuple(numsem.strip_copy(self.one(a, st)) for a in args),
                  tuple(sorted((k, self.one(v, st)) for k, v in kwargs.items()))))

    def shallow_copy(self, a, st, node):
        c = self.class_of(a)
        if c is None:
            return ('call', 'copy', (self.as_term(a, st),), ())
        n = ('inst', c.name, 'copy.copy', getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)) + ((tuple(self.iterctx),) if self.iterctx else ())
        if self.iterctx and n != a:
            for k in [k for k in st.over if k[0] == n]:
                del st.over[k]
        self.inst_class[n] = c
        self.copied[n] = a
        for (b, f), v in list(st.over.items()):
            if b == a:
                st.over[(n, f)] = v
        return n

    def numpy_call(self, name, args, kwargs, st, fr, node):
        if name in numsem.INPLACE_FUNCS and args:
            for a in args[numsem.INPLACE_FUNCS[name]]:
                self.emit('mutate', a, 'numpy.' + name, node, fr, EMPTY)
                if a[0] != 'ref':
                    st.over[(a, '[]')] = VTOP
            return VNONE
        if 'out' in kwargs:
            for a in kwargs['out']:
                if a != NONE:
                    self.emit('mutate', a, 'out=', node, fr, EMPTY)
        elif name in numsem.SIG and 'out' in numsem.SIG[name] and len(args) > numsem.SIG[name].index('out'):
            for a in args[numsem.SIG[name].index('out')]:
                if a != NONE:
                    self.emit('mutate', a, 'out=', node, fr, EMPTY)
        elif name in ('add', 'subtract', 'multiply', 'divide', 'maximum', 'minimum', 'exp', 'log', 'sqrt', 'power', 'less', 'greater',
                      'equal', 'negative', 'abs', 'absolute', 'ceil', 'floor', 'logical_not', 'matmul', 'tanh', 'sin', 'cos'):
            nin = 1 if name in ('exp', 'log', 'sqrt', 'negative', 'abs', 'absolute', 'ceil', 'floor', 'logical_not', 'tanh', 'sin', 'cos') else 2
            if len(args) > nin:
                for a in args[nin]:
                    self.emit('mutate', a, 'out=', node, fr, EMPTY)
        alts = []
        for v in args:
            alts.append(self.arg_terms(v, st))
        keys = sorted(k for k in kwargs if k != 'out')
        for k in keys:
            alts.append(self.arg_terms(kwargs[k], st))
        combos = self.product(alts)
        if combos is None:
            return VTOP
        out = set()
        for c in combos:
            pa = tuple(c[:len(args)])
            kw = dict(zip(keys, c[len(args):]))
            out.add(numsem.norm(name, pa, kw))
        if name in ('dtype', 'shape') and not args:
            return VTOP
        return frozenset(out) if len(out) <= MAXV else VTOP

    def arg_terms(self, v, st):
        out = []
        for a in v:
            for x in (a,):
                t = self.as_term(x, st)
                out.append(numsem.strip_copy(t) if t[0] != 'top' else (x if x[0] in ('ref',) else t))
        return out or [TOP]


def _pos(node, k):
    class P:
        pass
    p = P()
    p.lineno = getattr(node, 'lineno', 0)
    p.col_offset = getattr(node, 'col_offset', 0) * 1000 + k + 1 + (getattr(node, 'end_lineno', 0) * 1000 + getattr(node, 'end_col_offset', 0)) * 10 ** 6
    return p

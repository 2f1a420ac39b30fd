"""Guarded effect summaries of methods: every attribute write, container change and hand-over a method can perform (its helpers
inlined), each with the conditions and loops under which it happens."""
import time
from . import model, terms as T
from . import absint
from .absint import Interp, State, Obj, V, TooLong
from .terms import const

_cache = {}
SELF = ('param', 'self')


def program(inference=False):
    k = ('p', inference)
    if k not in _cache:
        _cache[k] = model.load(inference=inference)
    return _cache[k]


class Run:
    def __init__(self, I, fi, value, state):
        self.I, self.fi, self.value, self.state = I, fi, value, state
        self.events = I.events

    def of(self, *kinds):
        return [e for e in self.events if e.kind in kinds]

    def contents(self, atoms, depth=0, seen=None):
        """terms reachable inside values: elements of lists/sets/dicts created by the method"""
        out = set()
        seen = seen if seen is not None else set()
        for a in atoms or ():
            if a in seen:
                continue
            seen.add(a)
            if a[0] == 'ref':
                o = (self.state.heap if self.state else {}).get(a[1])
                if o is None or depth > 6:
                    continue
                vs = set(o.elem or ())
                for i in (o.items or []):
                    vs |= set(i)
                for v in (o.keys or {}).values():
                    vs |= set(v)
                vs |= set(o.keyv or ())
                out |= self.contents(vs, depth + 1, seen)
            else:
                out.add(a)
        return out


def run(cls, name, args=None, over=None, opaque=None, inference=False, typer=None, selfatom=SELF, seconds=None, **kw):
    """over: list of (atom, attribute name, value) where value is a term, or a list of terms (a list object)"""
    p = program(inference)
    fi = cls.find_method(name) if cls is not None else name
    I = Interp(p, {}, typer or (lambda t: cls if t == selfatom else None), opaque=opaque)
    I.open_tables = True
    I.track_guards = True
    I.list_slices = True
    I.cuts = False              # the caller copes with recursive calls whose effects are dropped
    I.recursion = 0 if kw.get('track_guards', True) else 32
    for k, v in kw.items():
        setattr(I, k, v)
    st = State()
    for atom, an, val in over or ():
        st.over[(atom, an)] = V(container(I, st, fi, val))
    args = {k: V(container(I, st, fi, v)) if isinstance(v, (list, dict, tuple)) else v for k, v in (args or {}).items()}
    old = absint.BUDGET['deadline']
    if seconds is not None:
        absint.BUDGET['deadline'] = min(time.monotonic() + seconds, old or float('inf'))
    try:
        v, s = I.run_function(fi, args or {}, st=st, selfatom=selfatom if cls is not None else None, cls=cls)
    finally:
        absint.BUDGET['deadline'] = old
    if I.cut and not I.cuts:
        raise TooLong('a recursion')
    return Run(I, fi, v, s)


def run_cut(*args, **kw):
    """for analyses that treat a dropped recursive call as an event of its own"""
    return run(*args, cuts=True, **kw)


def container(I, st, fi, val):
    """python lists/dicts of terms become list/dict objects of the abstract heap"""
    if isinstance(val, list):
        o = Obj('list', [V(container(I, st, fi, x)) for x in val], node=None)
    elif isinstance(val, dict):
        o = Obj('dict', None, node=None)
        o.keys = {k: V(container(I, st, fi, v)) for k, v in val.items()}
    else:
        return val
    loc = ('given', sum(1 for k in st.heap if k[0] == 'given'), 0, o.kind)
    st.heap[loc] = o
    return ('ref', loc)


def conds(guards):
    """('if', terms, polarity) entries"""
    return [g for g in guards if g[0] == 'if']


def fors(guards):
    return [g for g in guards if g[0] == 'for']


def subs(t):
    return set(T.subterms(t))


def showg(g):
    out = []
    for x in g:
        if x[0] == 'for':
            out.append('for ' + '|'.join(sorted(T.show(t)[:60] for t in (x[1] or []))))
        else:
            out.append(('' if x[2] else 'not ') + '|'.join(sorted(T.show(t)[:80] for t in x[1])))
    return ' && '.join(out)


_norm = {}


def norm(t):
    """the term without write history and copies: what the location is called, whatever has been stored since"""
    if not isinstance(t, tuple):
        return t
    r = _norm.get(t)
    if r is None:
        if t[:1] == ('call',) and len(t) == 4 and t[1] in ('stored', 'copy', 'keys') and t[2]:
            r = norm(t[2][0])
        else:
            r = tuple(norm(x) for x in t)
        if len(_norm) > 200000:
            _norm.clear()
        _norm[t] = r
    return r


def normg(g):
    """a path condition as a set of (kind, terms, polarity), double negation removed"""
    out = set()
    for x in g:
        if x[0] == 'for':
            out.add(('for', frozenset(norm(t) for t in (x[1] or ())), None))
            continue
        ts, pol = frozenset(norm(t) for t in x[1]), x[2]
        while ts and all(t[:2] == ('call', 'not') for t in ts):
            ts, pol = frozenset(t[2][0] for t in ts), not pol
        if ts and all(t[0] == 'cmp' and t[1] == '!=' for t in ts):
            ts, pol = frozenset(('cmp', '==') + t[2:] for t in ts), not pol
        out.add(('if', ts, pol))
    return out

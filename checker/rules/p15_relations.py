"""P15: graph edits keep the producer/consumer relations, the links and the tensor table consistent."""
import ast
from .. import graphsem as gs, model, terms as T

TITLE = 'Graph edits keep connectivity consistent'
TECHNIQUE = ('guarded effect analysis of every function that edits a graph: each removal, addition or rewiring of an operator is paired with the relation '
             'updates made under the same conditions')
EXPLANATION = ('Every function touching nodemap/producedby/consumedby is reduced to guarded effects. Each node removal must take the node out of the producer entry of '
               'each of its outputs and the consumer entry of each of its inputs; each addition or rewiring must enter it; whole entries are dropped only when '
               'empty or wholly moved; entries are lists of names, links are nodes; new tensor names are registered.')

MODULES = ('onnx_tool.graph', 'onnx_tool.fusion', 'onnx_tool.quantization', 'onnx_tool')
OUTSIDE = ('onnx_tool.tensor', 'onnx_tool.node', 'onnx_tool.utils', 'onnx_tool.serialization')   # hold no relations
REL = {'input': 'consumedby', 'output': 'producedby'}
FIELDS = {'nodemap', 'producedby', 'consumedby', 'prevnodes', 'nextnodes'}


def fields_of(fi):
    return {n.attr for n in ast.walk(fi.node) if isinstance(n, ast.Attribute)} & FIELDS


def show(ts):
    ts = [ts] if isinstance(ts, tuple) else list(ts)
    return '|'.join(sorted(T.show(t)[:90] for t in ts))[:200]


def sliced(ks):
    return any(k[0] == 'slice' for k in ks)


def listed(val, content):
    """elements of a list value, also when the list itself is only known by name"""
    return set(content) | {('each', v) for v in val if v[0] not in ('ref', 'list', 'tuple', 'top', 'const')}


class Ops:
    """the relation-relevant effects of one function"""

    def __init__(self, r):
        self.r = r
        self.rel, self.nm, self.io, self.links, self.resets, self.registered, self.calls = [], [], [], [], [], set(), []
        refs = {}   # list object -> (node atom, 'input'|'output') it became
        for e in r.events:
            if e.kind == 'setattr' and e.how in ('input', 'output', 'prevnodes', 'nextnodes') and isinstance(e.extra, frozenset):
                for a in e.extra:
                    if a[0] == 'ref':
                        refs[a] = (gs.norm(e.atom), e.how)
        relrefs, entries = {}, {}   # dict objects that became a relation; list objects that became an entry of one
        for e in r.events:
            if e.kind == 'setattr' and e.how in ('producedby', 'consumedby') and isinstance(e.extra, frozenset):
                for a in e.extra:
                    if a[0] == 'ref':
                        relrefs[a] = T.attr(gs.norm(e.atom), e.how)
        for e in r.events:
            if e.kind == 'mutate' and e.how in ('setitem', 'setdefault') and isinstance(e.extra, frozenset):
                a = relrefs.get(e.atom, gs.norm(e.atom))
                if a[0] == 'attr' and a[2] in ('producedby', 'consumedby'):
                    for v in e.extra:
                        if v[0] == 'ref':
                            for k in e.keys:
                                entries.setdefault(v, set()).add(T.idx(a, gs.norm(k)))
        for e in r.events:
            if e.kind == 'opaquecall':
                self.calls.append(e)
            if e.kind not in ('mutate', 'setattr'):
                continue
            val = {gs.norm(a) for a in e.extra} if isinstance(e.extra, frozenset) else set()
            content = {gs.norm(a) for a in e.content}
            gsets = [gs.normg(g) for g in e.guardsets]
            a = relrefs.get(e.atom, gs.norm(e.atom))
            if e.atom in entries:
                op = {'append': 'add', 'extend': 'addall', 'insert': 'add', 'remove': 'remove'}.get(e.how, e.how)
                for ent in entries[e.atom]:
                    self.rel.append((ent[1][2], op, {ent[2]}, val, content, gsets, e))
                continue
            if e.kind == 'setattr':
                if e.how in ('producedby', 'consumedby', 'nodemap'):
                    self.resets.append((e.how, a, val, content, gsets, e))
                elif e.how in ('input', 'output'):
                    self.io.append((a, e.how, 'assign', val, content, set(), gsets, e))
                elif e.how in ('prevnodes', 'nextnodes'):
                    self.links.append((a, e.how, listed(val, content), gsets, e))
                continue
            if a in refs:
                node, what = refs[a]
                if what in ('input', 'output'):
                    self.io.append((node, what, e.how, val, content, {gs.norm(k) for k in e.keys}, gsets, e))
                else:
                    self.links.append((node, what, val if e.how == 'append' else listed(val, content), gsets, e))
                continue
            if a[0] == 'attr' and a[2] in ('producedby', 'consumedby'):
                if e.how == 'setitem':
                    self.rel.append((a[2], 'assign', {gs.norm(k) for k in e.keys}, val, content, gsets, e))
                elif e.how in ('pop', 'delitem'):
                    self.rel.append((a[2], 'drop', val, set(), set(), gsets, e))
                elif e.how == 'setdefault':
                    self.rel.append((a[2], 'default', {gs.norm(k) for k in e.keys}, set(), set(), gsets, e))
                elif e.how == 'clear':
                    self.resets.append((a[2], a[1], set(), set(), gsets, e))
            elif a[0] == 'idx' and a[1][0] == 'attr' and a[1][2] in ('producedby', 'consumedby'):
                op = {'append': 'add', 'extend': 'addall', 'insert': 'add', 'remove': 'remove'}.get(e.how, e.how)
                self.rel.append((a[1][2], op, {a[2]}, val, content, gsets, e))
            elif a[0] == 'attr' and a[2] == 'nodemap':
                if e.how in ('pop', 'delitem'):
                    self.nm.append(('remove', a[1], val, set(), gsets, e))
                elif e.how == 'setitem':
                    self.nm.append(('add', a[1], {gs.norm(k) for k in e.keys}, val, gsets, e))
            elif a[0] == 'attr' and a[2] in ('input', 'output'):
                self.io.append((a[1], a[2], e.how, val, content, {gs.norm(k) for k in e.keys}, gsets, e))
            elif a[0] == 'attr' and a[2] in ('prevnodes', 'nextnodes'):
                self.links.append((a[1], a[2], val if e.how == 'append' else listed(val, content), gsets, e))
            elif a[0] == 'attr' and a[2] == 'tensormap' and e.how == 'setitem':
                self.registered |= {gs.norm(k) for k in e.keys}


def rebuilt(ops, which):
    return ops.trust and any(w == which and any(not conds(g) for g in gsets) for w, a, v, c, gsets, e in ops.resets) or \
        ops.trust and any(e.how is not None and getattr(e.how, 'name', '') in ('update_tensor_relations', '__update_consumer_producer__') for e in ops.calls)


def conds(g):
    return {x for x in g if x[0] == 'if'}


def benign(x, tset, names, removing):
    """a condition that only asks whether there is anything to do: an omitted (empty) tensor name, or, for removals, whether the tensor has an entry
    and the name is in it"""
    ts = x[1]
    for t in ts:
        if T.is_const(t):
            continue
        if removing:
            if t[:2] == ('call', 'in') and x[2] and relation_term(t[2][1]) and (t[2][0] in tset or t[2][0] in names):
                continue
            if t[:2] == ('call', 'in') and x[2] and t[2][0] in tset and t[2][1][0] == 'attr' and t[2][1][2] == 'tensormap':
                continue
            if t[0] == 'cmp' and t[1] == '==' and not x[2] and T.NONE in t[2:] and any(relation_term(y) for y in t[2:]):
                continue
            if relation_term(t) and x[2]:
                continue
            if t[:2] == ('call', 'in') and not x[2] and t[2][0] in tset and t[2][1][0] == 'attr' and t[2][1][2] == 'consumedby' and False:
                continue
        if t[0] == 'cmp' and t[1] == '==' and not x[2]:
            a, b = t[2], t[3]
            if (a in tset and b == T.const('')) or (b in tset and a == T.const('')):
                continue
            if any(y[:2] == ('call', 'len') and y[2][0] in tset for y in (a, b)) and T.const(0) in (a, b):
                continue
        if t[0] == 'cmp' and t[1] in ('<', '<=') and x[2] and any(y[:2] == ('call', 'len') and y[2][0] in tset for y in t[2:]):
            continue
        if t in tset and x[2]:
            continue
        return False
    return True


def relation_term(t):
    return (t[0] == 'attr' and t[2] in REL.values()) or (t[0] == 'idx' and t[1][0] == 'attr' and t[1][2] in REL.values())


def covered(cands, base_g, tset, names, removing=False):
    """is one of the candidate effects performed whenever the base effect is (conditions beyond the base's being benign, or exhaustive)?"""
    extras = []
    for gsets in cands:
        for g in gsets:
            for b in base_g:
                ex = frozenset(x for x in conds(g) - conds(b) if not benign(x, tset, names, removing))
                if not ex:
                    return True
                extras.append(ex)
    for i, a in enumerate(extras):
        for b in extras[i + 1:]:
            if any(('if', x[1], not x[2]) in b for x in a):
                return True
    return False


def node_atoms(G, K):
    return {T.idx(T.attr(G, 'nodemap'), k) for k in K}


def of_node(t, N, field):
    """each tensor of a field of node N, or a fixed position of it"""
    return any(t == ('each', T.attr(n, field)) or (t[0] == 'idx' and t[1] == T.attr(n, field)) for n in N)


def nodelike(a, r):
    if a[0] == 'idx' and a[1][0] == 'attr' and a[1][2] == 'nodemap':
        return True
    if a[0] == 'inst':
        ci = r.I.inst_class.get(a)
        return ci is not None and any(c.name == 'Node' for c in ci.mro())
    if a[0] == 'each' and a[1][0] == 'attr' and a[1][2] in ('prevnodes', 'nextnodes'):
        return True
    return a[0] == 'call' and isinstance(a[1], str) and a[1].split('.')[-1] == 'create_node'


def namelike(a, keys):
    if a in keys or (a[0] == 'const' and a[1] == 'str'):
        return True
    if a[0] == 'attr' and a[2] == 'name':
        return True
    if a[0] == 'each' and a[1][0] == 'attr' and a[1][2] == 'nodemap':
        return True
    if a[0] in ('each', 'idx') and a[1][0] == 'idx' and a[1][1][0] == 'attr' and a[1][1][2] in ('producedby', 'consumedby'):
        return True
    return a[:2] == ('call', 'strcat')


def analyse(fi, p, opaque):
    typer = None
    args = [a.arg for a in fi.node.args.args]
    G = p.cls('onnx_tool.graph', 'Graph')
    if fi.cls is not None:
        typer = None if fi.cls is G else (lambda t: fi.cls if t == gs.SELF else None)
        if fi.cls is not G:
            gp = {('param', a) for a in args if a in ('graph', 'g')}
            typer = lambda t: fi.cls if t == gs.SELF else (G if t in gp else None)
    else:
        gp = {('param', a) for a in args if a in ('graph', 'g')}
        typer = lambda t: G if t in gp else None
    kw = {'typer': typer} if typer else {}
    return gs.run_cut(fi.cls, fi.name if fi.cls else fi, opaque=lambda f: f.node is not fi.node and (f.module.name in OUTSIDE or any(f.node is o.node for o in opaque)), seconds=60, **kw)


def check_fn(ctx, fi, r, emit, trust=True):
    """emit(kind, key, text, where)"""
    ops = Ops(r)
    ops.trust = trust   # whether rebuilding the relations afterwards counts
    keys = set()
    for op, G, K, V, gsets, e in ops.nm:
        keys |= K
    n = 0
    # an entry taken out and put back under the same name only changes its place
    back = {}
    for op, G, K, V, gsets, e in ops.nm:
        if op == 'add' and V and V <= {T.idx(T.attr(G, 'nodemap'), k) for k in K}:
            back.setdefault((G, frozenset(K)), set()).update(frozenset(conds(g)) for g in gsets)
    moved = {id(t) for t in ops.nm if t[0] == 'remove' and {frozenset(conds(g)) for g in t[4]} <= back.get((t[1], frozenset(t[2])), set())}
    # removals
    for entry in ops.nm:
        op, G, K, V, gsets, e = entry
        if id(entry) in moved:
            continue
        if op == 'remove':
            for k in sorted(K, key=repr):
                if k[0] == 'top':
                    n += 1
                    emit('undecided', None, 'which operator is removed is not known', e.where)
                    continue
                N = node_atoms(G, {k})
                names = {k} | {T.attr(x, 'name') for x in N}
                for field, rel in REL.items():
                    n += 1
                    if rebuilt(ops, rel):
                        emit('ok', None, f'removal of {show(k)}: {rel} is rebuilt', e.where)
                        continue
                    cands = [g for rl, o, ts, v, c, g, ev in ops.rel if rl == rel and ts and (o in ('drop', 'assign') and all(of_node(t, N, field) for t in ts)
                                                                  or o == 'remove' and v & names and any(of_node(t, N, field) for t in ts))]
                    tset = {('each', T.attr(x, field)) for x in N} | {t for rl, o, ts, v, c, g, ev in ops.rel for t in ts if of_node(t, N, field)}
                    if cands and covered(cands, gsets, tset, names, True):
                        emit('ok', None, f'removal of {show(k)} takes it out of {rel}', e.where)
                    else:
                        emit('fail', f'remove:{rel}', f'an operator is removed from nodemap without being taken out of {rel} of each of its {field}s'
                             + (' (only under additional conditions)' if cands else ''), e.where)
        else:
            N = {v for v in V if not (v[0] == 'idx' and v[1][0] == 'attr' and v[1][2] == 'nodemap')}
            if N != V or not N or any(x in r.I.copied for x in N):
                continue
            names = K | {T.attr(x, 'name') for x in N} | {a for ev in r.events if ev.kind == 'setattr' and ev.how == 'name' and gs.norm(ev.atom) in N and isinstance(ev.extra, frozenset)
                                                         for a in map(gs.norm, ev.extra)}
            for field, rel in REL.items():
                n += 1
                if rebuilt(ops, rel):
                    emit('ok', None, f'addition of {show(K)}: {rel} is rebuilt', e.where)
                    continue
                elems = set()
                for a, what, how, val, content, ks, g, ev in ops.io:
                    if a in N and what == field:
                        elems |= listed(val, content) if how in ('assign', 'extend') or sliced(ks) else (val if how in ('append', 'insert', 'setitem') else set())
                elems = {x for x in elems if x[0] != 'top'}
                adds = [(ts, v, c, g, o) for rl, o, ts, v, c, g, ev in ops.rel if rl == rel and o in ('add', 'assign', 'addall')]
                if not elems:
                    # nothing known about its tensors: some entry must at least name it
                    if any((v | c) & names for ts, v, c, g, o in adds):
                        emit('ok', None, f'addition of {show(K)} enters it into {rel}', e.where)
                    else:
                        emit('undecided', None, f'tensors of the operator added as {show(K)} unknown', e.where)
                    continue
                for x in sorted(elems, key=repr):
                    good = [g for ts, v, c, g, o in adds if x in ts and (v if o == 'add' else c) & names]
                    if good and covered(good, gsets, elems, names):
                        emit('ok', None, f'addition of {show(K)} enters it into {rel} of {show(x)}', e.where)
                    else:
                        emit('fail', f'add:{rel}', f'an operator is added to nodemap without being entered into {rel} of each of its {field}s'
                             + (' (only under additional conditions)' if good else ''), e.where)
    # rewiring of operators of the graph
    for a, field, how, val, content, ks, gsets, e in ops.io:
        if not (a[0] == 'idx' and a[1][0] == 'attr' and a[1][2] == 'nodemap'):
            continue
        rel = REL[field]
        names = {a[2], T.attr(a, 'name')}
        if rebuilt(ops, rel):
            continue
        if how in ('setitem', 'append', 'insert', 'assign', 'extend'):
            new = listed(val, content) if how in ('assign', 'extend') or sliced(ks) else val
            for x in sorted(new, key=repr):
                if x[0] == 'top':
                    continue
                n += 1
                good = [g for rl, o, ts, v, c, g, ev in ops.rel if rl == rel and x in ts and
                        ((o in ('add',) and v & names) or (o in ('assign', 'addall') and (c & names or any(s[0] == 'idx' and s[1] == T.attr(gs_graph(a), rel) for s in v))))]
                if good and (covered(good, gsets, {x}, names) or len(val) > 1 and len(new) > 1):
                    emit('ok', None, f'{field} {show(x)} of {show(a)}: entered into {rel}', e.where)
                else:
                    emit('fail', f'rewire:{rel}', f'an operator\'s {field} is changed without entering the operator into {rel} of the new tensor', e.where)
        if how in ('setitem', 'remove', 'pop', 'assign', 'delitem'):
            n += 1
            good = [g for rl, o, ts, v, c, g, ev in ops.rel if rl == rel and
                    ((o == 'remove' and v & names) or (o == 'drop' and (any(a[2] in (('each', T.idx(T.attr(gs_graph(a), rel), t)),) for t in ts) or
                                                                        any(of_node(t, {a}, field) for t in ts) or any(t in val for t in ts))))]
            if good:
                emit('ok', None, f'old {field} of {show(a)}: taken out of {rel}', e.where)
            else:
                emit('fail', f'unwire:{rel}', f'an operator\'s {field} is replaced without taking the operator out of {rel} of the old tensor', e.where)
    # whole entries
    moved_nodes = {a for a, field, how, val, content, ks, g, e in ops.io if field == 'output' and how in ('setitem', 'assign')}
    removed = {x for op, G, K, V, g, e in ops.nm if op == 'remove' for x in node_atoms(G, K)}
    for rel, op, ts, v, c, gsets, e in ops.rel:
        if op == 'drop':
            n += 1
            bad = []
            for t in ts:
                base = gs.norm(e.atom)
                entry = T.idx(base, t)
                okay = all(any(entry in set(T.subterms(s)) or 'any' == s[1] if s[0] == 'call' else entry in set(T.subterms(s)) for x in conds(g) for s in x[1]) for g in gsets)
                okay = okay or any(('for' == x[0] and entry in x[1]) for ev in r.events for g in ev.guardsets for x in gs.normg(g))
                if rel == 'producedby':
                    okay = okay or any(of_node(t, {m}, 'output') for m in moved_nodes | removed)
                    okay = okay or any(rl == rel and o == 'assign' and entry in vv for rl, o, tt, vv, cc, gg, ee in ops.rel)
                else:
                    okay = okay or any(any(entry in set(T.subterms(s)) for s in x[1]) for g in gsets for x in conds(g))
                if not okay and not any(w in ('nodemap', rel) for w, *_ in ops.resets):
                    bad.append(t)
            if bad and len(bad) == len(ts):
                emit('fail', f'drop:{rel}', f'the whole {rel} entry of a tensor is dropped although other operators may still be listed in it', e.where)
            else:
                emit('ok', None, f'{rel} entry dropped only when empty or moved', e.where)
        if op == 'assign' and rel == 'consumedby':
            n += 1
            base = gs.norm(e.atom)
            fresh = all(any(t[:2] == ('call', 'in') and t[2][0] in ts and t[2][1] == base and not x[2] for x in conds(g) for t in x[1]) for g in gsets)
            fresh = fresh or all(any(s == T.idx(base, t) for s in v) for t in ts) or all(t in ops.registered or T.is_const(t) or t[:2] == ('call', 'strcat') for t in ts)
            fresh = fresh or any(s[:1] == ('idx',) and s[1] == base for x in v for s in T.subterms(x))
            old = {('each', T.idx(base, t)) for t in ts}
            fresh = fresh or (old <= c and c != old)
            if any(w == 'consumedby' for w, *_ in ops.resets):
                fresh = True
            if fresh:
                emit('ok', None, f'new {rel} entry of {show(ts)}', e.where)
            else:
                emit('fail', f'overwrite:{rel}', f'the {rel} entry of {show(ts)} is overwritten although other operators may be listed in it', e.where)
        if op in ('add', 'addall', 'assign'):
            n += 1
            items = v if op == 'add' else c
            nodes = [x for x in items if nodelike(x, r)]
            if nodes:
                emit('fail', f'kind:{rel}', f'{rel} receives operator objects ({show(nodes)}) instead of operator names', e.where)
            elif op in ('assign', 'addall') and any(namelike(x, keys) and x[0] != 'idx' for x in v):
                emit('fail', f'list:{rel}', f'{rel} receives a bare name ({show(v)}) instead of a list of names', e.where)
            else:
                emit('ok', None, f'{rel} holds lists of names', e.where)
    for a, what, items, gsets, e in ops.links:
        n += 1
        bad = [x for x in items if namelike(x, keys) and not nodelike(x, r)]
        if bad:
            emit('fail', f'kind:{what}', f'{what} receives names ({show(bad)}) instead of operators', e.where)
        else:
            emit('ok', None, f'{what} holds operators', e.where)
    # relations rebuilt from scratch
    for w, a, val, content, gsets, e in ops.resets:
        if w == 'nodemap' or fi.name == '__init__' or a[0] == 'inst' or a in r.I.copied:
            continue
        if any(x[0] == 'idx' or x[0] == 'attr' for x in val):
            continue
        field = 'input' if w == 'consumedby' else 'output'
        node = T.idx(T.attr(a, 'nodemap'), ('each', T.attr(a, 'nodemap')))
        names = {node[2], T.attr(node, 'name')}
        x = ('each', T.attr(node, field))
        n += 1
        good = [g for rl, o, ts, v, c, g, ev in ops.rel if rl == w and x in ts and ((o == 'add' and v & names) or (o == 'assign' and c & names))]
        # lists held by a local dict that becomes the relation are not followed
        if good and covered(good, gsets, {x}, names):
            emit('ok', None, f'{w} rebuilt from every operator of the graph', e.where)
        elif not ops.rel:
            emit('undecided', None, f'{w} rebuilt in a form not followed', e.where)
        else:
            emit('fail', f'rebuild:{w}', f'{w} is rebuilt without entering every operator under each of its {field}s', e.where)
    # tensors written into operators are registered
    for a, field, how, val, content, ks, gsets, e in ops.io:
        new = content if how in ('assign', 'extend') or sliced(ks) else (val if how in ('setitem', 'append', 'insert') else set())
        for x in sorted(new, key=repr):
            if known_tensor(x):
                continue
            if not (T.is_const(x) or x[:2] == ('call', 'strcat')):
                continue
            n += 1
            if x in ops.registered or any(x in {gs.norm(q) for pr, q in (ev.extra or ())} for ev in ops.calls if isinstance(ev.extra, frozenset)
                                          and getattr(ev.how, 'name', '').startswith('add_')):
                emit('ok', None, f'tensor {show(x)} is registered', e.where)
            else:
                emit('fail', 'register', f'an operator refers to the new tensor {show(x)}, which is not registered with the graph', e.where)
    return n


def known_tensor(x):
    return any(s[0] == 'attr' and s[2] in ('input', 'output') for s in T.subterms(x)) and x[0] in ('each', 'idx')


def gs_graph(node):
    return node[1][1]


def check(ctx):
    p = gs.program()
    fns = []
    for fi in p.functions():
        if fi.module.name in MODULES and fields_of(fi) & {'nodemap', 'producedby', 'consumedby', 'prevnodes', 'nextnodes'}:
            fns.append(fi)
    Gc = p.cls('onnx_tool.graph', 'Graph')
    mutators = []
    ctx.rule('every removal, addition and rewiring of an operator updates the relations of exactly the tensors concerned')
    editors = [f for f in fns if edits_nodemap(f) or f.name == '__init__' or not touches(f) or not f.name.startswith('_')]   # functions with their own contract, or without effect on the relations
    edits = 0
    res = {}
    for fi in sorted(fns, key=lambda f: f.qualname):
        res[fi] = judge(ctx, fi, p, editors)
    for fi in sorted(fns, key=lambda f: f.qualname):
        if res[fi]:
            edits += 1
            ctx.seen(fi.where)
        done = set()
        for kind, key, text, where in res[fi]:
            if kind == 'ok':
                ctx.ok(f'{fi.qualname}: {text}')
            elif kind == 'undecided':
                ctx.undecided(f'{fi.qualname}: {text}', where)
            elif key not in done:
                done.add(key)
                if fi.name.startswith('_') and completed_by_callers(ctx, fi, p, editors, key):
                    ctx.ok(f'{fi.qualname}: {text}: completed by every caller')
                else:
                    ctx.fail(f'{fi.qualname}:{key}', f'{fi.qualname}: {text}', where)
    ctx.floor('functions that edit a graph', edits, 8)


def edits_nodemap(fi):
    def nm(n):
        return isinstance(n, ast.Attribute) and n.attr == 'nodemap'
    for n in ast.walk(fi.node):
        if isinstance(n, (ast.Assign, ast.Delete)) and any(nm(t) or isinstance(t, ast.Subscript) and nm(t.value) for t in n.targets):
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('pop', 'clear', 'setdefault', 'update') and nm(n.func.value):
            return True
        if isinstance(n, (ast.Assign, ast.AugAssign)) and any(isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and t.value.attr in REL
                                                              for t in (n.targets if isinstance(n, ast.Assign) else [n.target])):
            return True
    return fi.name in ('__update_consumer_producer__', 'update_tensor_relations')


def touches(fi):
    return bool(fields_of(fi) & {'producedby', 'consumedby', 'prevnodes', 'nextnodes'}) and any(
        isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend', 'insert', 'remove', 'pop', 'setdefault', 'clear')
        or isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) for n in ast.walk(fi.node))


def judge(ctx, fi, p, opaque, trust=True):
    out = []
    try:
        check_fn(ctx, fi, analyse(fi, p, opaque), lambda *a: out.append(a), trust)
    except gs.TooLong:
        return [('undecided', None, 'too many cases to follow', fi.where)]
    return out


def completed_by_callers(ctx, fi, p, fns, key):
    """a private helper may leave its part of the edit to the functions that call it"""
    callers = [f for f in p.functions() if f.module.name in MODULES and f is not fi and f.name != '__init__' and any(isinstance(n, ast.Attribute) and n.attr == fi.name or isinstance(n, ast.Name) and n.id == fi.name
                                                     for n in ast.walk(f.node))]
    if not callers:
        return False
    for c in callers:
        if any(kind == 'fail' and k == key for kind, k, _, _ in judge(ctx, c, p, [f for f in fns if f is not fi], False)):
            return False
    return True

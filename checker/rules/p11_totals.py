"""P11: totals are the sum of what is stored on the operators."""
import ast

from .. import graphsem as gs, model, terms as T
from ..absint import V
from ..terms import const, is_const, cval

TITLE = 'Profile totals are exactly the sum of the per-operator figures'
TECHNIQUE = ('abstract interpretation with value numbering: the value added to each total, its loop and its path conditions are compared with those of the '
             'figure stored on the operator; report rows are compared column by column')
EXPLANATION = ('Graph.profile, Graph.print_node_map, Builder.profile and Builder.print_profile are interpreted with their helpers inlined. For every total the accumulation '
               'sites are found; each must run exactly once per covered operator, under the conditions of the figure it sums, add the same value, start from zero, and '
               'the cover must be all operators whose type is not excluded.')

NODEMAP = T.attr(gs.SELF, 'nodemap')


def parents(fn):
    out = {}
    for n in ast.walk(fn):
        for c in ast.iter_child_nodes(n):
            out[c] = n
    return out


def ancestors(n, par):
    while n in par:
        n = par[n]
        yield n


def is_zero(e):
    if isinstance(e, ast.Constant):
        return isinstance(e.value, (int, float)) and not isinstance(e.value, bool) and e.value == 0
    if isinstance(e, (ast.List, ast.Tuple)):
        return bool(e.elts) and all(is_zero(x) for x in e.elts)
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
        return is_zero(e.left)
    return False


class Sums:
    """accumulation sites of one interpreted function"""

    def __init__(self, ctx, run, label, nodemap):
        self.ctx, self.run, self.label, self.nodemap = ctx, run, label, nodemap
        self.nodeatom = T.idx(nodemap, ('each', nodemap))
        self.sites = {}      # AugAssign node -> [values, guardsets, event]
        self.fns = {id(run.fi.node): run.fi}
        for e in run.events:
            self.fns.setdefault(id(e.frame.fn.node), e.frame.fn)
            if e.kind == 'mutate' and e.how == 'augassign' and isinstance(e.node, ast.AugAssign):
                s = self.sites.setdefault(e.node, [set(), set(), e])
                s[0] |= set(e.extra or ())
                s[1] |= {tuple(map(freeze, g)) for g in e.guardsets}
        for e in run.events:
            if e.kind == 'setattr' and isinstance(e.node, ast.AugAssign) and e.node not in self.sites:
                self.sites[e.node] = [set(e.extra or ()), {tuple(map(freeze, g)) for g in e.guardsets}, e]

    def targets(self, name, index):
        """texts of the places that end up in self.<name> (element index when it is a list), and whether the total is set in another way"""
        base = 'self.' + name
        texts, other = set(), False
        todo = [(base, index)]
        done = set()
        while todo:
            t, i = todo.pop()
            if (t, i) in done:
                continue
            done.add((t, i))
            texts.add(t if i is None else f'{t}[{i}]')
            for fi in self.fns.values():
                for s in ast.walk(fi.node):
                    if not isinstance(s, ast.Assign):
                        continue
                    for tg in s.targets:
                        v = s.value
                        if i is not None and ast.unparse(tg) == f'{t}[{i}]' and not is_zero(v):
                            other = True
                        if ast.unparse(tg) != t:
                            continue
                        if is_zero(v):
                            continue
                        if isinstance(v, ast.Name):
                            todo.append((v.id, i))
                        elif isinstance(v, (ast.List, ast.Tuple)) and i is not None and i < len(v.elts) and isinstance(v.elts[i], ast.Name):
                            todo.append((v.elts[i].id, None))
                        elif isinstance(v, (ast.List, ast.Tuple)) and i is not None and i < len(v.elts) and is_zero(v.elts[i]):
                            continue
                        else:
                            other = True
        return texts, other, {b for b, _ in done}

    def check(self, name, index, stored, stored_guards, what, where, cover=True, value_ok=None):
        ctx = self.ctx
        texts, other, bases = self.targets(name, index)
        sites = [(n, s) for n, s in self.sites.items() if ast.unparse(n.target) in texts]
        key = f'{self.label}:{what}'
        for e in self.run.events:
            if e.kind in ('setattr', 'mutate') and isinstance(e.node, ast.Assign) and any(ast.unparse(t) in (f'self.{name}', f'self.{name}[{index}]') for t in e.node.targets) and not is_zero(e.node.value):
                if any(x[0] == 'for' and any(is_nodemap(t, self.nodemap) for t in x[1] or ()) for g in e.guardsets for x in g) and \
                        not ({ast.unparse(x) for x in ast.walk(e.node.value)} & {f'self.{name}', f'self.{name}[{index}]'}):
                    ctx.fail(f'overwritten:{key}', f'{self.label}: the {what} total is overwritten by each operator instead of accumulated', e.where)
                    return
        if not sites:
            if other:
                ctx.undecided(f'{what} total is not accumulated in a recognised form', where)
            elif self.assigned(bases):
                ctx.fail(f'lost:{key}', f'{self.label}: the {what} total never receives the figures of the operators', where)
            else:
                ctx.undecided(f'{what} total not found', where)
            return
        # reset
        reset = False
        for fi in self.fns.values():
            par = parents(fi.node)
            loops = {a for n, s in sites for a in ancestors(n, par)}
            for s in ast.walk(fi.node):
                if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and \
                        any(ast.unparse(t) in bases | texts for t in (s.targets if isinstance(s, ast.Assign) else [s.target])) and \
                        (is_zero(s.value) or isinstance(s.value, (ast.List, ast.Tuple)) and index is not None and index < len(s.value.elts) and is_zero(s.value.elts[index])):
                    anc = list(ancestors(s, par))
                    bad = [a for a in anc if isinstance(a, (ast.If, ast.While, ast.For, ast.ExceptHandler)) and a not in loops]
                    inloop = [a for a in anc if isinstance(a, (ast.For, ast.While))]
                    if not bad and not inloop and all(s.lineno < n.lineno or not in_function(n, fi.node) for n, _ in sites):
                        reset = True
                    elif inloop:
                        ctx.fail(f'reset-in-loop:{key}', f'{self.label}: the {what} total is set back to zero inside the loop over the operators', where)
                        return
        if not reset:
            if other:
                ctx.undecided(f'{what} total: start value not recognised', where)
            else:
                ctx.fail(f'reset:{key}', f'{self.label}: the {what} total does not start from zero on every profiling', where)
            return
        for n, s in sites:
            w = s[2].where
            if not isinstance(n.op, ast.Add):
                ctx.fail(f'op:{key}', f'{self.label}: the {what} total is not a sum ({type(n.op).__name__})', w)
                return
        plain = [x for x in sites]
        if len(plain) > 1:
            gsets = [x[1][1] for x in plain]
            if all(not any(g[0] == 'if' for g in suffix(gg, self)) for gs_ in gsets for gg in gs_):
                ctx.fail(f'twice:{key}', f'{self.label}: every operator is added to the {what} total at {len(plain)} places', plain[1][1][2].where)
                return
            if any(a & b for i, a in enumerate(gsets) for b in gsets[i + 1:]):
                ctx.fail(f'twice:{key}', f'{self.label}: an operator is added to the {what} total at two places under the same conditions', plain[1][1][2].where)
                return
            ctx.undecided(f'{what} total accumulated at {len(plain)} places', where)
            return
        n, (vals, guards, ev) = plain[0]
        for g in guards:
            fors = [x for x in g if x[0] == 'for']
            if not fors:
                ctx.fail(f'loop:{key}', f'{self.label}: the {what} figure is added outside the loop over the operators', ev.where)
                return
            if len(fors) > 1:
                ctx.fail(f'nested:{key}', f'{self.label}: the {what} figure is added inside a nested loop, more than once per operator', ev.where)
                return
            if stored_guards is not None:
                sg = {tuple(x for x in suffix(tuple(map(freeze, y)), self)) for y in stored_guards}
                mine = suffix(g, self)
                if mine not in sg:
                    extra = [x for x in mine if x[0] == 'if' and not any(x in y for y in sg)]
                    if extra:
                        ctx.fail(f'skipped:{key}', f'{self.label}: an operator is counted in the {what} total only if {gs.showg(extra)[:120]}', ev.where)
                        return
                    missing = [x for y in sg for x in y if x[0] == 'if' and x not in mine]
                    if missing:
                        ctx.undecided(f'{what}: figure stored under more conditions than it is added', ev.where)
                        return
        if stored is not None:
            if any('top' == x[0] for t in vals | set(stored) for x in T.subterms(t)) and frozenset(vals) != frozenset(stored):
                a = {T.show(t) for t in vals}
                b = {T.show(t) for t in stored}
                if not (a & b):
                    ctx.undecided(f'{what}: values not comparable', ev.where)
                    return
            elif not (set(vals) & set(stored)) or set(vals) - set(stored):
                d = sorted(T.show(t)[:60] for t in set(vals) - set(stored))
                if value_ok and all(value_ok(t) for t in set(vals) - set(stored)):
                    pass
                else:
                    ctx.fail(f'value:{key}', f'{self.label}: adds {", ".join(d)[:140]} to the {what} total while {", ".join(sorted(T.show(t)[:60] for t in stored))[:100]} is stored on the operator', ev.where)
                    return
        if cover:
            for g in guards:
                msg = cover_problem(self.run, g, self)
                if msg:
                    if msg[0] == '?':
                        ctx.undecided(f'{what}: {msg[1:]}', ev.where)
                    else:
                        ctx.fail(f'cover:{key}', f'{self.label}: {msg}', ev.where)
                    return
        ctx.ok(f'{self.label}: {what} total = sum of stored figures')

    def assigned(self, bases):
        return any(isinstance(s, ast.Assign) and any(ast.unparse(t) in bases for t in s.targets) for fi in self.fns.values() for s in ast.walk(fi.node))


def in_function(n, fn):
    return any(x is n for x in ast.walk(fn))


def freeze(g):
    return (g[0],) + tuple(frozenset(x) if isinstance(x, (set, frozenset)) else x for x in g[1:])


def suffix(g, s):
    """conditions inside the loop over the operators"""
    for i, x in enumerate(g):
        if x[0] == 'for':
            return tuple(y for y in g[i + 1:])
    return ()


def is_nodemap(t, nm):
    while t[0] == 'call' and t[1] in ('keys', 'values', 'items', 'list', 'tuple', 'copy', '.keys', '.values', '.items', 'iter', 'sorted', 'enumerate') and t[2]:
        t = t[2][0]
    return t == nm


def cover_problem(run, g, s, exclude='exclude_ops'):
    """the loop runs over every operator whose type is not excluded"""
    itv = next(x for x in g if x[0] == 'for')[1] or ()
    ifs = [x for x in suffix(g, s) if x[0] == 'if']
    for t in itv:
        if is_nodemap(t, s.nodemap):
            continue
        if t[0] == 'ref':
            o = run.state.heap.get(t[1])
            comps = [e for e in run.events if e.kind == 'comp' and o is not None and e.node is o.node]
            if not comps:
                return f'?loop source {T.show(t)}'
            for e in comps:
                if e.extra and not all(x == ('each', s.nodemap) or x == s.nodeatom for x in e.extra):
                    return '?comprehension over something else'
                for gg in e.guardsets:
                    cut = [x for x in gg if x[0] == 'if' and not is_prefix(x, g)]
                    for x in cut:
                        m = cond_problem(x, s, exclude)
                        if m:
                            return m
            continue
        return f'?loop source {T.show(t)[:60]}'
    for x in ifs:
        m = cond_problem(x, s, exclude)
        if m:
            return m
    return None


def is_prefix(x, g):
    for y in g:
        if y[0] == 'for':
            return False
        if freeze(y) == freeze(x):
            return True
    return False


def cond_problem(x, s, exclude):
    optype = T.attr(s.nodeatom, 'op_type')
    ex = ('param', exclude)
    for t in x[1]:
        if is_const(t):
            continue
        sub = set(T.subterms(t))
        if t == ex or (ex in sub and not any(y == s.nodeatom or y == ('each', s.nodemap) for y in sub)):
            continue
        if ex in sub and optype in sub:
            pos = x[2]
            neg = t[0] == 'call' and t[1] == 'not'
            if (t[0] in ('call',) and t[1] == 'not') != (not pos):
                if neg and pos:
                    continue
            if not pos and not neg:
                continue
            if pos and not neg:
                return 'only the excluded operator types are covered'
            continue
        if ex in sub:
            return f'an operator is excluded by {T.show(t)[:80]} instead of its type'
        return f'an operator is left out depending on {T.show(t)[:80]}'
    return None


def figure(run, node, name):
    vals, guards, where = set(), [], ''
    for e in run.events:
        if e.kind == 'setattr' and e.atom == node and e.how == name:
            vals |= set(e.extra or ())
            guards += e.guardsets
            where = e.where
    return (vals or None), guards, where


def check_profile(ctx, p):
    G = p.cls('onnx_tool.graph', 'Graph')
    for label, args in (('all', {'exclude_ops': V(T.NONE)}), ('excluding', {})):
        r = gs.run(G, 'profile', args)
        ctx.seen('onnx_tool/graph.py:Graph.profile (%s)' % label)
        s = Sums(ctx, r, 'Graph.profile', NODEMAP)
        anchors = 0
        for name, index in (('macs', 0), ('params', None), ('memory', None)):
            stored, guards, where = figure(r, s.nodeatom, name)
            if stored is None:
                ctx.undecided(f'operators receive no {name} figure in a recognised form', r.fi.where)
                continue
            anchors += 1
            s.check(name, index, stored, guards, name, where)
        ctx.count('stored figures', anchors)
        # the figures come from the operator's own profile, in its documented order
        for name, i in (('macs', 0), ('io_params', 1), ('static_params', 2)):
            stored, guards, where = figure(r, s.nodeatom, name)
            for t in stored or ():
                idxs = {cval(x[2]) for x in T.subterms(t) if x[0] == 'idx' and x[1][0] == 'call' and x[1][1] == '.profile' and is_const(x[2])}
                if idxs and idxs != {i}:
                    ctx.fail(f'figure:Graph.profile:{name}', f'Graph.profile stores result {sorted(idxs)} of the operator as its {name} figure; that is result {i}', where)
                elif idxs:
                    ctx.ok()
        dedup(ctx, r, s)
        # profiled means profiled
        done = [e for e in r.events if e.kind == 'setattr' and e.atom == gs.SELF and e.how == 'valid_profile']
        for e in done:
            if T.TRUE in (e.extra or ()) and any(x[0] == 'for' for g in e.guardsets for x in g):
                ctx.fail('valid:Graph.profile', 'the graph is declared profiled inside the loop', e.where)


def dedup(ctx, r, s):
    inits = T.attr(gs.SELF, 'initials')
    texts, other, bases = s.targets('dedup_params', None)
    sites = [(n, x) for n, x in s.sites.items() if ast.unparse(n.target) in texts]
    if len(sites) != 1:
        if len(sites) > 1:
            ctx.fail('twice:Graph.profile:dedup_params', 'a weight is added to the shared-once total at several places', sites[1][1][2].where)
        else:
            ctx.undecided('shared-once total not accumulated in a recognised form', r.fi.where)
        return
    each = ('each', inits)
    cons = T.idx(T.attr(gs.SELF, 'consumedby'), each)
    n, (vals, guards, ev) = sites[0]
    for g in guards:
        fors = [x for x in g if x[0] == 'for']
        if len(fors) != 1:
            ctx.fail('nested:Graph.profile:dedup_params', 'a weight is added to the shared-once total once per element of an inner loop (for instance per consumer)', ev.where)
            return
        if not all(strip(t) == inits for t in fors[0][1] or ()):
            ctx.undecided('shared-once total does not loop over the initializers', ev.where)
            return
        ifs = [x for x in suffix(g, s) if x[0] == 'if']
        consumer = False
        for x in ifs:
            for t in x[1]:
                sub = set(T.subterms(t))
                if is_const(t):
                    continue
                if T.attr(gs.SELF, 'consumedby') in sub:
                    consumer = True
                    bad = multi(t, cons, x[2])
                    if bad:
                        ctx.fail('dedup:Graph.profile', f'the shared-once total leaves out weights depending on how many consumers they have ({T.show(t)[:60]})', ev.where)
                        return
                else:
                    ctx.fail('dedup-skip:Graph.profile', f'the shared-once total leaves out a weight depending on {T.show(t)[:80]}', ev.where)
                    return
        if not consumer:
            ctx.fail('dedup-unused:Graph.profile', 'the shared-once total counts weights no operator consumes', ev.where)
            return
    tens = T.idx(T.attr(gs.SELF, 'tensormap'), each)
    if not all(tens in set(T.subterms(t)) for t in vals if t[0] != 'top'):
        ctx.fail('dedup-value:Graph.profile', 'the shared-once total does not add the size of the weight itself', ev.where)
        return
    ctx.ok('Graph.profile: shared-once total')


def strip(t):
    while t[0] == 'call' and t[1] in ('list', 'tuple', 'copy', 'sorted', 'set', 'keys') and t[2]:
        t = t[2][0]
    return t


def multi(t, cons, pol):
    """a bound on the number of consumers other than 'at least one'"""
    for x in T.subterms(t):
        if x[0] == 'cmp' and any(y == ('call', 'len', (cons,), ()) for y in x):
            cs = [cval(y) for y in x if isinstance(y, tuple) and y and y[0] == 'const']
            if len(cs) == 1 and isinstance(cs[0], int):
                return not ((x[1] in ('<', '!=') and cs[0] == 0) or (x[1] == '<=' and cs[0] == 1))
    return False


# ------------------------------------------------------------------------------------------ printed tables
COLS = {'Memory': ('memory', 'memory'), 'Params': ('params', 'params'), 'MPercent': ('memory', 'memory'), 'PPercent': ('params', 'params'),
        'FPercent': ('macs', 'macs'), 'InShape': ('inshape', None), 'OutShape': ('outshape', None), 'Type': ('op_type', None),
        'Sparse Pattern': ('sparsity', None), 'Sparse Block Ratio': ('sparsity', None), 'Sparse Ratio': ('sparsity', None)}
FIGS = {'macs', 'memory', 'params', 'inshape', 'outshape', 'op_type', 'sparsity', 'io_params', 'static_params', 'dedup_params'}


def items_of(run, atom):
    if atom[0] == 'ref':
        o = run.state.heap.get(atom[1])
        return o.items if o is not None else None
    return None


def attrs_on(terms, obj):
    return {x[2] for t in terms for x in T.subterms(t) if x[0] == 'attr' and x[1] == obj and x[2] in FIGS}


def check_print(ctx, p):
    G = p.cls('onnx_tool.graph', 'Graph')
    for sparse in (False, True):
        for metric in ('MACs', 'FLOPs'):
            r = gs.run(G, 'print_node_map', {'f': V(T.NONE), 'metric': V(const(metric)), 'exclude_ops': V(T.NONE)},
                       over=[(gs.SELF, 'sparse_model', T.TRUE if sparse else T.FALSE)])
            ctx.seen('onnx_tool/graph.py:Graph.print_node_map (%s, sparse=%s)' % (metric, sparse))
            tab = [e for e in r.events if e.kind == 'escape' and 'tabulate' in str(e.how)]
            refs = [e.atom for e in tab if e.atom[0] == 'ref']
            header, table = None, None
            for a in refs:
                it = items_of(r, a)
                if it and all(len(x) == 1 and is_const(next(iter(x))) and isinstance(cval(next(iter(x))), str) for x in it):
                    header = [cval(next(iter(x))) for x in it]
                else:
                    table = a
            if header is None or table is None:
                ctx.undecided('report table not recognised', r.fi.where)
                continue
            nm = NODEMAP
            node = T.idx(nm, ('each', nm))
            rows = [e for e in r.events if e.kind == 'mutate' and e.how == 'append' and e.atom == table]
            seen = {'node': 0, 'total': 0}
            for e in rows:
                for a in e.extra or ():
                    it = items_of(r, a)
                    if it is None:
                        ctx.undecided('row not recognised', e.where)
                        continue
                    infor = any(x[0] == 'for' for g in e.guardsets for x in g)
                    first = {cval(x) for x in it[0] if is_const(x)} if it else set()
                    if len(it) != len(header):
                        ctx.fail(f'columns:{"node" if infor else sorted(map(str, first))}', f'Graph.print_node_map: a row has {len(it)} cells under {len(header)} headings', e.where)
                        continue
                    if infor:
                        seen['node'] += 1
                        node_row(ctx, e, it, header, node, metric)
                        S = Sums.__new__(Sums)
                        S.nodemap, S.nodeatom = nm, node
                        for g in e.guardsets:
                            fs = [x for x in g if x[0] == 'for']
                            if len(fs) > 1:
                                ctx.fail('rows:nested', 'Graph.print_node_map writes the row of an operator once per element of an inner loop', e.where)
                            m = cover_problem(r, g, S)
                            if m and m[0] != '?':
                                ctx.fail('rows:cover', f'Graph.print_node_map: {m}', e.where)
                    elif 'Total' in first:
                        seen['total'] += 1
                        total_row(ctx, e, it, header, metric)
                    else:
                        dedup_row(ctx, e, it, header)
            for k, n in seen.items():
                if n == 0:
                    ctx.undecided(f'no {k} row recognised', r.fi.where)
                elif n > 1:
                    ctx.fail(f'rows:{k}', f'Graph.print_node_map writes {n} {k} rows', r.fi.where)
    # the same with exclusions: rows cover what profile covered
    r = gs.run(G, 'print_node_map', {'f': V(T.NONE), 'metric': V(const('MACs'))}, over=[(gs.SELF, 'sparse_model', T.FALSE)])
    S = Sums.__new__(Sums)
    S.nodemap, S.nodeatom = NODEMAP, T.idx(NODEMAP, ('each', NODEMAP))
    n = 0
    for e in r.events:
        if e.kind == 'mutate' and e.how == 'append' and any(x[0] == 'for' for g in e.guardsets for x in g) and \
                any(S.nodeatom in set(T.subterms(t)) for a in e.extra or () for i in (items_of(r, a) or ()) for t in i):
            for g in e.guardsets:
                n += 1
                m = cover_problem(r, g, S)
                if m and m[0] != '?':
                    ctx.fail('rows:cover', f'Graph.print_node_map: {m}', e.where)
                elif m:
                    ctx.undecided('print_node_map: ' + m[1:], e.where)
                else:
                    ctx.ok()
    if not n:
        ctx.undecided('rows with exclusions not recognised', r.fi.where)


def node_row(ctx, e, it, header, node, metric):
    for h, cell in zip(header, it):
        key = f'cell:{h.split("_")[0]}'
        if h == 'Name':
            if not all(t == ('each', node[1]) or node in set(T.subterms(t)) for t in cell):
                ctx.fail(key, f'Graph.print_node_map: the Name column does not hold the operator name', e.where)
            continue
        want = COLS.get(h, ('macs', 'macs') if h.startswith('Forward') else None)
        if want is None:
            continue
        got = attrs_on(cell, node)
        if got != {want[0]}:
            if any(t[0] == 'top' for t in cell):
                ctx.undecided(f'{h} cell', e.where)
                continue
            ctx.fail(key, f'Graph.print_node_map: the {h} column shows {sorted(got) or "no figure"} of the operator', e.where)
            continue
        if h.endswith('Percent'):
            tot = attrs_on(cell, gs.SELF)
            if tot != {want[1]}:
                ctx.fail(key, f'Graph.print_node_map: the {h} column relates the operator\'s {want[0]} to the total {sorted(tot)}', e.where)
                continue
        if h.startswith('Forward') and not factor_ok(cell, node, metric):
            ctx.fail(key, f'Graph.print_node_map: the {h} column is not {"2 x " if metric == "FLOPs" else ""}the operator\'s MACs', e.where)
            continue
        if h in ('Memory', 'Params') and not factor_ok(cell, node, 'MACs', want[0]):
            ctx.fail(key, f'Graph.print_node_map: the {h} column does not show the stored {want[0]}', e.where)
            continue
        ctx.ok()


def factor_ok(cell, obj, metric, name='macs'):
    want = 2 if metric == 'FLOPs' else 1
    for t in cell:
        arg = t
        k = 1
        while True:
            if arg[0] == 'call' and arg[1] in ('.format', 'format', 'str') and arg[2]:
                arg = arg[2][-1]
            elif arg[0] == 'call' and arg[1] in ('int', 'pyround', 'round', 'float') and arg[2]:
                arg = arg[2][0]
            elif arg[0] == 'poly':
                ms = [(m, c) for m, c in poly(arg) if m and any(attrs_on([x], obj) for x in m)]
                if len(ms) != 1:
                    return False
                m, c = ms[0]
                k *= c
                if len(m) != 1:
                    return False
                arg = m[0]
            elif arg[0] == 'idx':
                arg = arg[1]
            else:
                break
        if not (arg[0] == 'attr' and arg[1] == obj and arg[2] == name):
            return False
        if k != want:
            return False
    return True


def poly(t):
    """[(tuple of factors, coefficient)]"""
    out = []
    for m, c in T.as_poly(t).items():
        fs = []
        for f, e in m:
            fs += [f] * e if isinstance(e, int) and e > 0 else [('call', 'inv', (f,), ())]
        out.append((tuple(fs), c))
    return out


def total_row(ctx, e, it, header, metric):
    for h, cell in zip(header, it):
        name = 'macs' if h.startswith('Forward') else {'Memory': 'memory', 'Params': 'params'}.get(h)
        got = attrs_on(cell, gs.SELF)
        if name is None:
            if got:
                ctx.fail(f'total:{h}', f'Graph.print_node_map: the Total row shows {sorted(got)} under {h}', e.where)
            continue
        if got != {name}:
            ctx.fail(f'total:{h.split("_")[0]}', f'Graph.print_node_map: the Total row shows {sorted(got) or "no total"} under {h}', e.where)
        elif not factor_ok(cell, gs.SELF, metric if name == 'macs' else 'MACs', name):
            ctx.fail(f'total:{h.split("_")[0]}', f'Graph.print_node_map: the {h} total printed is not the stored total{" doubled" if metric == "FLOPs" and name == "macs" else ""}', e.where)
        else:
            ctx.ok()


def dedup_row(ctx, e, it, header):
    for h, cell in zip(header, it):
        got = attrs_on(cell, gs.SELF)
        if got and (h != 'Params' or got != {'dedup_params'}):
            ctx.fail(f'dedup-row:{h}', f'Graph.print_node_map: the shared-once row shows {sorted(got)} under {h}', e.where)
        elif got:
            ctx.ok()


# ------------------------------------------------------------------------------------------ language-model report
def check_builder(ctx, p):
    B = p.cls('onnx_tool.llm', 'Builder') if 'onnx_tool.llm' in p.modules else None
    if B is None or B.find_method('profile') is None:
        ctx.undecided('Builder.profile not found')
        return
    for dev in (False, True):
        args = {'Config': V(('param', 'Config'))}
        if not dev:
            args['Device'] = V(T.NONE)
        r = gs.run(B, 'profile', args, opaque=lambda fi: fi.name == 'profile', nonnull={('param', 'Config'), ('param', 'Device')})
        ctx.seen('onnx_tool/llm.py:Builder.profile (device=%s)' % dev)
        nm = T.attr(T.attr(gs.SELF, 'graph'), 'nodemap')
        s = Sums(ctx, r, 'Builder.profile', nm)
        ev = [e for e in r.events if e.kind == 'setattr' and e.atom == s.nodeatom and e.how == 'llm_profile']
        if not ev:
            ctx.undecided('operators receive no language-model figures in a recognised form', r.fi.where)
            continue
        figs = {}
        for e in ev:
            for a in e.extra or ():
                o = r.state.heap.get(a[1]) if a[0] == 'ref' else None
                for k, v in ((o.keys or {}).items() if o is not None else ()):
                    figs.setdefault(cval(k), set()).update(v)
        for name, index in (('FLOPs', 0), ('Memory', 1)):
            if name in figs:
                s.check('llm_profile', index, figs[name], ev[0].guardsets, name, ev[0].where)
        memories(ctx, r, s)


def memories(ctx, r, s):
    """each operator's weight memory goes into exactly one class and the last entry is the sum of the classes"""
    for e in r.events:
        if e.kind == 'setattr' and e.atom == gs.SELF and e.how == 'context_mem' and isinstance(e.node, ast.Assign) and isinstance(e.node.value, ast.List):
            el = e.node.value.elts
            if len(el) < 2 or not all(isinstance(x, ast.Name) for x in el[:-1]):
                continue
            got = addends(el[-1])
            if got is None:
                continue
            if sorted(got) != sorted(x.id for x in el[:-1]):
                ctx.fail('sum:Builder.profile:context_mem', 'Builder.profile: the last memory entry is not the sum of the classes before it', e.where)
            else:
                ctx.ok()


def addends(e):
    if isinstance(e, ast.Name):
        return [e.id]
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = addends(e.left), addends(e.right)
        return a + b if a is not None and b is not None else None
    return None


def check(ctx):
    ctx.rule('each total starts at zero, then receives exactly once per covered operator the value stored on that operator')
    ctx.rule('covered operators are all operators whose type is not excluded, in profile and in the report alike')
    ctx.rule('each report column shows the operator figure its heading names; the Total row shows the totals; the shared-once row counts each consumed weight once')
    p = gs.program()
    check_profile(ctx, p)
    check_print(ctx, p)
    check_builder(ctx, p)
    ctx.floor('obligations', ctx.obligations, 20)

"""P24: exported tensor files stay inside the folder the caller named."""
import ast

from .. import graphsem as gs, model, probe, terms as T
from ..absint import V
from ..probe import P, c

TITLE = 'Exported tensor files stay inside the chosen folder'
TECHNIQUE = ('taint analysis from tensor names to file sinks, with the string operations on the way evaluated statically for every combination of separators a '
             'name can contain')
EXPLANATION = ('Every function that opens or writes a file is found. Where the path is computed from a tensor, node or model-internal name, the operations '
               'between the name and the sink are evaluated for names with either, both, leading and repeated separators: what is joined to the folder must '
               'contain neither, and the data written must be that tensor\'s own.')

HOSTILE = ['plain', 'a/b', 'a\\b', 'a/b\\c', 'a\\b/c', '/abs', '\\abs', '../../x', '..\\..\\x', 'a//b\\\\c/d', 'a/b/', '/', 'x/..\\y', '..']
SINKS = ('numpy.save', 'numpy.savez', 'numpy.savetxt', 'numpy.savez_compressed', 'io.open', 'os.open', 'onnx.save', 'onnx.save_model', 'onnx.save_tensor', 'os.mkdir',
         'os.makedirs')


def leaves(t):
    """constant strings inside a path term"""
    return [s[2] for s in T.subterms(t) if s[0] == 'const' and isinstance(s[2], str)]


def analyse(p, fi, G, name, by_name):
    """run the exporter on a model holding one tensor of that name; returns (path terms, data terms)"""
    out = []

    def sink(kind):
        def h(I, path, args, kwargs, st, fr, node):
            pos = 0
            file = kwargs.get('file', kwargs.get('fname', args[pos] if args else frozenset()))
            data = kwargs.get('arr', kwargs.get('X', args[1] if len(args) > 1 else frozenset()))
            out.append((kind, [I.as_term(a, st) for a in file], [I.as_term(a, st) for a in data], f'{fr.fn.where}'))
            return V(('call', 'opened', tuple(I.as_term(a, st) for a in list(file)[:1]), ()))
        return h
    summ = {'ext:' + s: sink(s) for s in SINKS}
    summ['builtin:open'] = sink('open')
    summ['.tofile'] = lambda I, b, args, kwargs, st, fr, node: (out.append(('tofile', [I.as_term(a, st) for a in (args[0] if args else ())], [I.as_term(b, st)], fr.fn.where)), V(T.NONE))[1]
    MODEL, GR, TEN = P('model'), P('graph'), P('tensor')
    summ['loadmodel'] = lambda *a: V(MODEL)
    args = [a.arg for a in fi.node.args.args]
    a = {}
    if 'savefolder' in args:
        a['savefolder'] = P('folder')
    names = next((x for x in args if 'name' in x), None)
    if names:
        a[names] = [c(name)] if by_name else T.NONE
    over = [(MODEL, 'graph', GR), (GR, 'initials', [c(name)]), (GR, 'tensormap', {c(name): TEN})]
    r = gs.run(None, fi, args=a, over=over, summaries=summ, seconds=30, typer=lambda t: G if t == GR else None)
    return out, r


def check(ctx):
    p = gs.program()
    G = p.cls('onnx_tool.graph', 'Graph')
    ctx.rule('whatever a tensor is called, the part of the path that comes after the folder contains no / and no \\, and is the name with each separator replaced')
    targets = []
    for f in p.functions():
        if f.module.name.startswith('onnx_tool') and f.cls is None and '.' not in f.qualname:
            txt = {x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute)} | {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name)}
            if 'numpy' in txt and ({'initials', 'tensormap'} & txt) and ({'save', 'open', 'tofile', 'savez', 'savetxt', 'save_tensor'} & txt):
                targets.append(f)
    exported = 0
    for fi in targets:
        ctx.seen(fi.where)
        for by_name in (False, True):
            for name in HOSTILE:
                try:
                    out, r = analyse(p, fi, G, name, by_name)
                except gs.TooLong:
                    ctx.undecided(f'{name!r}: not reduced', fi.where)
                    continue
                label = f'{fi.name} of a tensor called {name!r} ({"named by the caller" if by_name else "all tensors"})'
                files = [(k, pt, dt, w) for k, pt, dt, w in out if k not in ('os.makedirs', 'os.mkdir')]
                for k, pt, dt, w in out:
                    if k in ('os.makedirs', 'os.mkdir') and any(any(ch in s for ch in '/\\') for t in pt for s in leaves(t) if s not in ('./', '.')):
                        ctx.fail(f'mkdir:{fi.name}', f'{label} creates a directory named after the tensor: {[T.show(t) for t in pt][:2]}', fi.where)
                if not files:
                    if any(e.kind == 'escape' for e in r.events):
                        ctx.undecided(f'{label}: no file sink reached', fi.where)
                    else:
                        ctx.fail(f'missing:{fi.name}:{"named" if by_name else "all"}', f'{label} writes no file', fi.where)
                    continue
                exported += 1
                for k, pt, dt, w in files:
                    for t in pt:
                        if t[0] == 'call' and t[1] == 'opened':
                            continue     # written through a file opened before, judged there
                        if t[0] == 'param':
                            continue     # the caller's own file name
                        parts = None
                        if t[0] == 'call' and t[1] in ('os.path.join', 'join') or t[0] == 'call' and str(t[1]).endswith('path.join'):
                            parts = list(t[2][1:])
                        elif t[0] == 'call' and t[1] == 'strcat':
                            parts = [x for x in t[2] if x[0] != 'param']
                        elif t[0] == 'const':
                            parts = [t]
                        if parts is None or not all(x[0] == 'const' and isinstance(x[2], str) for x in parts):
                            ctx.undecided(f'{label}: path {T.show(t)[:100]} not reduced', fi.where)
                            continue
                        text = ''.join(x[2] for x in parts)
                        if t[0] == 'call' and t[1] == 'strcat' or t[0] == 'const':
                            text = (text[1:] if text[:1] == '.' and text[1:2] == '/' else text).lstrip('/') or text
                        if any(ch in text for ch in '/\\'):
                            kind = 'both' if '/' in name and '\\' in name else 'slash' if '/' in name else 'backslash'
                            ctx.fail(f'separator:{fi.name}:{"named" if by_name else "all"}:{kind}', f'{label} writes to {text!r} below the folder', fi.where)
                        elif len(text) < len(name):
                            ctx.undecided(f'{label}: file {text!r} drops part of the name', fi.where)
                        else:
                            ctx.ok(f'{name!r} -> {text!r}' if by_name else None)
                    for d in dt:
                        leaf = {s for s in T.subterms(d) if s[0] == 'attr' and s[2] == 'numpy'}
                        if k == 'numpy.save' and leaf and T.attr(P('tensor'), 'numpy') not in leaf:
                            ctx.fail(f'data:{fi.name}', f'{label} writes {T.show(d)[:120]}', fi.where)
        # a name that is not a tensor of the model exports nothing
    if not targets:
        ctx.undecided('no exporter of tensors to files found', 'onnx_tool')
    ctx.count('exporters', len(targets))
    ctx.count('names evaluated', exported)
    ctx.assume('the folder itself is the caller\'s own choice and is not judged')

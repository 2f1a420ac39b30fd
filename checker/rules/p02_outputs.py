"""P02: after a normal return every output has a shape and an element type."""
from .. import cases, sweep
from .. import terms as T
from ..opsem import tout

TITLE = 'A successful inference leaves every output with a shape and an element type'
TECHNIQUE = 'must-assign (definite assignment) analysis over all normally-returning paths of every operator\'s inference methods'
EXPLANATION = ('For every operator class and every number of inputs/outputs the standard allows, shape_infer and value_infer are abstractly interpreted with helpers inlined; at '
               'every normal return the facts "shape of output k was set" and "element type of output k was set" must hold. Configurations: attributes unknown, all optional '
               'attributes absent, all attributes given.')


def check(ctx):
    ctx.rule('on every path returning normally update_shape and update_dtype (or update_tensor) was applied to each output the model asks for')
    api = sweep.tensor_api()
    # the writers really store what they are given
    p = lambda m: [a.arg for a in api.info[m][0].node.args.args][1]
    for m, name in (('update_shape', 'shape'), ('update_dtype', 'dtype')):
        if m in api.info:
            st = api.stored(m, name)
            w = f'onnx_tool/tensor.py:{api.info[m][0].node.lineno} Tensor.{m}'
            if st is None:
                ctx.fail(f'tensor {m}', f'Tensor.{m} does not store the {name} on every path', w)
            elif all(('param', p(m)) in list(T.subterms(t)) or t[0] == 'top' for t in st):
                ctx.ok(f'Tensor.{m} stores its argument')
            else:
                ctx.fail(f'tensor {m}', f'Tensor.{m} stores {[T.show(t) for t in st]} instead of its argument', w)
    if 'update_tensor' in api.info:
        for name in ('shape', 'dtype', 'numpy'):
            st = api.stored('update_tensor', name)
            w = f'onnx_tool/tensor.py:{api.info["update_tensor"][0].node.lineno} Tensor.update_tensor'
            if st is None:
                ctx.fail(f'tensor update_tensor {name}', f'Tensor.update_tensor does not set .{name} on every path', w)
            elif all(('param', p('update_tensor')) in list(T.subterms(t)) or T.has_top(t) for t in st):
                ctx.ok(f'Tensor.update_tensor sets {name}')
            else:
                ctx.fail(f'tensor update_tensor {name}', f'Tensor.update_tensor sets .{name} to {[T.show(t) for t in st]}, not from the data', w)
    classes = set()
    n = 0
    for op, c, m, nin, nout, mode, r in sweep.runs():
        n += 1
        classes.add(c.name)
        ctx.seen(f'{c.name}.{m}')
        if r.state is None:
            ctx.ok(f'{op}.{m} nin={nin} {mode}: never returns normally')
            continue
        for k in range(nout):
            o = tout(k)
            for kind in ('shape', 'dtype'):
                f = r.state.facts.get((o, kind)) if (o, kind) in r.state.facts else None
                if f is not None:
                    ctx.ok()
                    continue
                # outputs addressed by position in a loop, or through an alias set, are not decided
                weak = [x for x in r.facts_log if x[1] != o and x[1][0] != 'param'] or _loop_written(r, o)
                if op not in cases.schema() and k > 0:
                    continue
                if weak:
                    ctx.undecided(f'{op}.{m}: outputs set in a loop over the outputs', sweep.where(c, m))
                    continue
                # a raw attribute store counts as well
                if (o, kind) in r.state.over and _not_missing(r.state.over[(o, kind)]):
                    ctx.ok()
                    continue
                ctx.fail(f'{c.find_method(m).cls.name}.{m} {op} out{k} {kind}',
                         f'{op}.{m} with {nin} inputs, {nout} outputs ({_mode(mode)}) can return without setting the {"element type" if kind == "dtype" else kind} of output {k}',
                         sweep.where(c, m))
    ctx.floor('operator classes analysed', len(classes), 60)
    ctx.count('configurations interpreted', n)


def _not_missing(v):
    from ..absint import MISSING
    return MISSING not in v


def _loop_written(r, o):
    """the output is written somewhere at a position that was not a single constant (several atoms share the call site)"""
    sites = {}
    for kind, b, val, ts, node, fr in r.facts_log:
        sites.setdefault((id(node), kind), set()).add(b)
    return any(len(v) > 1 and o in v for v in sites.values())


def _mode(m):
    return {'open': 'attributes unknown', 'absent': 'optional attributes absent', 'given': 'all attributes given'}[m]

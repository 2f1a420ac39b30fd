"""Model files on the abstract heap: graph descriptions as the ONNX library presents them, with operators, initializers and branches under known names, and the graph
object the analysed source builds from them."""
from . import graphsem as gs, terms as T
from .absint import V
from .probe import P, c, fn, results

GRAPH = 'onnx_tool.graph'

MAIN = '''
def main(proto, cfg):
    g = Graph(proto, cfg)
    return [[[k, n.proto, n.name, n.op_type, n.domain, n.input, n.output, [m.proto for m in n.prevnodes], [m.proto for m in n.nextnodes], n.shape_calc] for k, n in g.nodemap.items()],
            [[k, t.name, t.proto, t.type] for k, t in g.tensormap.items()], g.producedby, g.consumedby, g.input, g.output, g.initials, g.dynamics]
'''


class NonNull:
    def __contains__(self, t):
        return t[0] in ('param', 'inst')


class Closed:
    def __contains__(self, t):
        return t[0] == 'inst'


class Proto:
    """the heap entries of a graph description"""
    def __init__(self):
        self.over, self.n, self.kinds = [], 0, {}

    def graph(self, nodes, ins, outs, inits=(), infos=(), tag=''):
        """nodes: (name, type, inputs, outputs[, attributes[, domain]])"""
        g = P(f'graph{tag}')
        ns = []
        for i, nd in enumerate(nodes):
            name, op, ii, oo = nd[:4]
            attrs = nd[4] if len(nd) > 4 else {}
            q = P(f'proto{tag}:{i}')
            ns.append(q)
            self.over += [(q, 'name', c(name)), (q, 'op_type', c(op)), (q, 'input', [c(x) for x in ii]), (q, 'output', [c(x) for x in oo]),
                          (q, 'domain', c(nd[5] if len(nd) > 5 else ''))]
            al = []
            for k, v in attrs.items():
                a = P(f'attr{tag}:{i}:{k}')
                self.over += [(a, 'name', c(k)), (a, 'value', v)]
                al.append(a)
            self.over.append((q, 'attribute', al))
        lists = {'node': ns}
        for fld, kind, names in (('initializer', 'TensorProto', inits), ('input', 'ValueInfoProto', ins), ('output', 'ValueInfoProto', outs), ('value_info', 'ValueInfoProto', infos)):
            lists[fld] = []
            for x in names:
                q = P(f'{fld}{tag}:{x}')
                self.kinds[q] = kind
                self.over.append((q, 'name', c(x)))
                lists[fld].append(q)
        for k, v in lists.items():
            self.over.append((g, k, v))
        self.over.append((g, 'sparse_initializer', []))
        return g


DEFAULT = {'constant_folding': False, 'node_rename': False, 'if_fixed_branch': None, 'fixed_topk': 0, 'verbose': False, 'remove_dangling': True}


def load(p, pr, g, cfg=(), src=MAIN, extra=None, seconds=30, truth=None, **kw):
    G = p.cls(GRAPH, 'Graph')
    cf = P('cfg')
    conf = dict(DEFAULT, **dict(cfg))
    over = pr.over + [(cf, k, T.NONE if v is None else c(v)) for k, v in conf.items()]

    def kind(t, st):
        if t[:2] == ('call', 'isinstance') and t[2][0] in pr.kinds:
            ts = t[2][1:]
            if all(x[0] in ('ext', 'builtin') or x[:2] == ('const', 'str') for x in ts):
                return pr.kinds[t[2][0]] in [x[1].split('.')[-1] for x in ts if x[0] == 'ext']
        return truth(t, st) if truth else None

    def attr_value(I, path, args, kwargs, st, fr, node):
        a = next(iter(args[0])) if args and len(args[0]) == 1 else None
        v = st.over.get((a, 'value')) if a else None
        return v if v is not None else NotImplemented
    NC = p.cls('onnx_tool.node', 'Node')
    s = {'create_node': lambda I, f, a, kw, st, fr, node: I.construct(NC, a or list(kw.values()), {}, st, fr, node), 'ext:onnx.helper.get_attribute_value': attr_value,
         'get_attribute_data': lambda I, f, a, k, st, fr, node: attr_value(I, '', a, k, st, fr, node),
         'Tensor.sparsity_search': sparse, 'Node.value_infer': lambda *a: V(T.NONE), 'timer.stop': lambda *a: V(T.NONE)}
    TC = p.cls('onnx_tool.tensor', 'Tensor')

    def data_tensor(I, f, a, kw, st, fr, node):
        d = dict(zip([x.arg for x in f.node.args.args], a))
        d.update(kw)
        v = I.construct(TC, [d['name']], {}, st, fr, node)
        t = next(iter(v))
        st.over[(t, 'numpy')] = d['ndarray']
        st.over[(t, 'type')] = V(c(0))
        return v
    s['create_initial_Tensor'] = data_tensor
    s.update(extra or {})
    return results(gs.run(None, fn(G.module, src.strip()), args={'proto': g, 'cfg': cf}, over=over, seconds=seconds, unroll=64, strict_keys=True, exact_try=True,
                          set_items=True, peel_while=True, track_guards=False, truth_hook=kind, nonnull=NonNull(), closed=Closed(), summaries=s, **kw))


def sparse(I, f, a, kw, st, fr, node):
    me = next(iter(a[0]))
    st.over[(me, 'sparsity')] = V(T.NONE)
    return V(T.NONE)

"""P23: language-model graphs built from a configuration are the architecture the configuration describes, completely registered."""
import ast
import itertools
import math

from .. import graphsem as gs, probe, terms as T
from ..absint import V
from ..probe import P, c, plain

TITLE = 'Built language-model graphs are completely registered'
TECHNIQUE = ('abstract interpretation of the builder for every architecture, shipped configuration and option: the graph it builds is derived completely from the source and compared, '
             'operator by operator, with an independent description of the architecture; registration obligations on the derived graph')
EXPLANATION = ('Every create_tensor/add_initial/create_node the builder performs and every registration is derived for small dimensions; operators, operand wiring, weight names and '
               'shapes, attributes, activation shapes and the rotary tables are compared with an architecture description kept in the checker.')
LEVEL = 'bounded'
LLM = 'onnx_tool.llm'

# flags of the supported architectures (.github/skills/llm-model-support/SKILL.md and the published models)
BASE = {'mlp_gate': True, 'norm_scale': True, 'norm_bias': False, 'fuse_qkv': False, 'qkv_bias': False, 'o_bias': False, 'mlp_bias': False, 'lm_head_bias': False}
ARCH = {
    'LlamaForCausalLM': {},
    'Qwen2ForCausalLM': {'qkv_bias': True},
    'Qwen3ForCausalLM': {'qkv_bias': True, 'qk_norm': True},
    'Qwen3_5ForConditionalGeneration': {'qk_norm': True, 'qkv_gated': True},
    'Qwen3_5MoeForCausalLM': {'qk_norm': True, 'qkv_gated': True, 'is_moe': True},
    'DeepSeekV4ForCausalLM': {'is_moe': True, 'is_mla': True, 'no_shared_gate': True},
    'MiniMaxM2ForCausalLM': {'qk_norm': True, 'is_moe': True, 'no_shared_expert': True},
    'Phi3ForCausalLM': {'mlp_gate': False, 'fuse_qkv': True},
    'PhiForCausalLM': {'mlp_gate': False, 'norm_bias': True, 'qkv_bias': True, 'o_bias': True, 'lm_head_bias': True},
    'Phi3SmallForCausalLM': {'mlp_gate': False, 'fuse_qkv': True},
    'GPTJForCausalLM': {'mlp_gate': False, 'norm_bias': True},
    'GPT2LMHeadModel': {'mlp_gate': False, 'norm_bias': True, 'fuse_qkv': True, 'qkv_bias': True, 'o_bias': True, 'mlp_bias': True, 'qk_rope': False, 'pos_embedding': True},
}
ACT = {'silu': 'Silu', 'gelu_new': 'Gelu', 'gegelu': 'GeGelu'}
DEFAULT_MAP = {
    'embedding': {'embed': 'model.embed_tokens'}, 'layer_prefix': 'model.layers.',
    'attention': {'input_norm': 'input_layernorm', 'qkv': 'self_attn.qkv_proj', 'q': 'self_attn.q_proj', 'k': 'self_attn.k_proj', 'v': 'self_attn.v_proj', 'o': 'self_attn.o_proj',
                  'output_norm': 'post_attention_layernorm'},
    'mlp': {'input_norm': 'post_attention_layernorm', 'gate': 'mlp.gate_proj', 'up': 'mlp.up_proj', 'down': 'mlp.down_proj', 'gate_up': 'mlp.gate_up_proj',
            'output_norm': 'post_feedforward_layernorm'},
    'lm_head': {'input_norm': 'model.norm', 'lm': 'lm_head'},
}
OWN_MAP = {
    'embedding': {'embed': 'wte', 'pos': 'wpe'}, 'layer_prefix': 'h.',
    'attention': {'input_norm': 'ln_1', 'qkv': 'attn.qkv', 'q': 'attn.q', 'k': 'attn.k', 'v': 'attn.v', 'o': 'attn.o', 'output_norm': 'ln_1_out'},
    'mlp': {'input_norm': 'ln_2', 'gate': 'mlp.g', 'up': 'mlp.u', 'down': 'mlp.d', 'gate_up': 'mlp.gu', 'output_norm': 'ln_2_out'},
    'lm_head': {'input_norm': 'ln_f', 'lm': 'head'},
}
ALIASES = {'ff_intermediate_size': 'intermediate_size', 'layer_norm_epsilon': 'layer_norm_eps', 'n_embd': 'hidden_size', 'n_head': 'num_attention_heads', 'n_layer': 'num_hidden_layers',
           'n_inner': 'intermediate_size', 'activation_function': 'hidden_act', 'num_local_experts': 'num_experts', '_name_or_path': 'name'}


def settings(cfg):
    """the configuration under the names the builder documents"""
    s = {}
    for k, v in cfg.items():
        n = ALIASES.get(k, k)
        if k == '_name_or_path' and 'name' in s:
            n = k
        if k == 'n_head':
            s['num_key_value_heads'] = v
        if k == 'n_inner' and v is None:
            v = 4 * cfg['n_embd']
        s[n] = v
    if s['architectures'][0] == 'GPT2LMHeadModel':
        s.setdefault('intermediate_size', 4 * s['hidden_size'])
        s.setdefault('n_positions', 1024)
    s.setdefault('model_type', '')
    return s


def freeze(v):
    if isinstance(v, dict):
        return tuple(sorted((k, freeze(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return tuple(freeze(x) for x in v)
    return v


class Sigs:
    """structure of a graph as nested operator signatures, interned"""

    def __init__(self):
        self.ids = {}

    def of(self, op, ins, attrs, shape):
        if op in ('Add', 'Mul'):
            ins = tuple(sorted(ins, key=repr))
        return self.ids.setdefault((op, tuple(ins), attrs, shape), len(self.ids))


class Spec:
    """the architecture a configuration describes"""

    def __init__(self, sigs, s, flags, wm, batch, seq):
        self.sigs, self.s, self.f, self.wm, self.b, self.q = sigs, s, flags, wm, batch, seq
        self.ops, self.inputs, self.weights = [], {'ids': [batch, seq]}, {}
        self.head = s.get('head_dim', s['hidden_size'] // s['num_attention_heads'])

    def op(self, label, kind, ins, shape, attrs=None):
        i = self.sigs.of(kind, [x[0] for x in ins], freeze(attrs or {}), tuple(shape))
        self.ops.append((i, label, kind))
        return (('a', i), list(shape))

    def w(self, name, shape):
        self.weights[name] = list(shape)
        return (('w', name, tuple(shape)), list(shape))

    def k(self, *vals):
        return (('k', vals), None)

    def norm_attrs(self):
        s = self.s
        return {'epsilon': s['rms_norm_eps'], 'type': 'rms'} if 'rms_norm_eps' in s else {'epsilon': s['layer_norm_eps']}

    def norm(self, x, name):
        h = self.s['hidden_size']
        ins = [x]
        if self.f['norm_scale']:
            ins.append(self.w(name + '.weight', [h]))
            if self.f['norm_bias']:
                ins.append(self.w(name + '.bias', [h]))
        return self.op(name, 'LayerNormalization', ins, x[1], self.norm_attrs())

    def mm(self, x, fin, fout, bias, name):
        ins = [x, self.w(name + '.weight', [fin, fout])]
        if bias:
            ins.append(self.w(name + '.bias', [fout]))
        return self.op(name, 'MatMul', ins, x[1][:-1] + [fout])

    def act(self, x, a, name):
        return self.op(name, ACT[a], [x], x[1])

    def cut(self, x, axis, off, size, name):
        sh = list(x[1])
        sh[axis] = size
        return self.op(name, 'Slice', [x, self.k(off), self.k(off + size), self.k(axis), self.k(1)], sh)

    def rope(self, x, name):
        s = self.s
        mp, rd = s.get('max_position_embeddings', 4096), s.get('rotary_dim', self.head)
        self.inputs['position'] = [self.b, self.q]
        cs = [(('t', t, mp, rd, float(s.get('rope_theta', 10000.0))), None) for t in ('cos', 'sin')]
        return self.op(name, 'Rope', [x] + cs + [(('in', 'position'), None)], x[1])

    def build(self):
        s, f, wm, h = self.s, self.f, self.wm, self.s['hidden_size']
        ids = (('in', 'ids'), [self.b, self.q])
        cur = self.op('embedding', 'Gather', [self.w(wm['embedding']['embed'] + '.weight', [s['vocab_size'], h]), ids], [self.b, self.q, h], {'axis': 0})
        if f.get('pos_embedding'):
            self.inputs['position'] = [self.b, self.q]
            pos = self.op('position embedding', 'Gather', [self.w(wm['embedding']['pos'] + '.weight', [s['n_positions'], h]), (('in', 'position'), None)], [self.b, self.q, h], {'axis': 0})
            cur = self.op('position addition', 'Add', [pos, cur], cur[1])
        lt = s.get('layer_types')
        for i in range(s['num_hidden_layers']):
            p = wm['layer_prefix'] + str(i) + '.'
            A, M = wm['attention'], wm['mlp']
            x = self.norm(cur, p + A['input_norm'])
            if lt is not None and i < len(lt) and lt[i] == 'linear_attention':
                x = self.gdn(x, p, A)
            elif f.get('is_mla'):
                x = self.mla(x, p)
            else:
                x = self.attention(x, p, A, i)
            if f.get('post_attn_norm'):
                x = self.norm(x, p + A['output_norm'])
            cur = self.op(p + 'attention addition', 'Add', [cur, x], cur[1])
            x = self.norm(cur, p + M['input_norm'])
            x = self.moe(x, p) if f.get('is_moe') else self.mlp(x, p, M)
            if f.get('post_mlp_norm'):
                x = self.norm(x, p + M['output_norm'])
            cur = self.op(p + 'mlp addition', 'Add', [cur, x], cur[1])
        cur = self.norm(cur, wm['lm_head']['input_norm'])
        cur = self.mm(cur, h, s['vocab_size'], f['lm_head_bias'], wm['lm_head']['lm'])
        if s.get('final_logit_softcapping') is not None:
            cur = self.op('final soft capping', 'LogitSoftCapping', [cur, self.k(s['final_logit_softcapping'])], cur[1])
        self.out = cur
        return self

    def attention(self, x, p, A, i):
        s, f, h, d = self.s, self.f, self.s['hidden_size'], self.head
        nh, nk = s['num_attention_heads'], s['num_key_value_heads']
        qo, ko = nh * d, nk * d
        gate = None
        b = f['qkv_bias']
        if f.get('qkv_gated'):
            qq = self.mm(x, h, 2 * qo, b, p + A['q'])
            k, v = self.mm(x, h, ko, b, p + A['k']), self.mm(x, h, ko, b, p + A['v'])
            q, gate = self.cut(qq, 2, 0, qo, p + 'q slice'), self.cut(qq, 2, qo, qo, p + 'gate slice')
        elif f['fuse_qkv']:
            a = self.mm(x, h, qo + 2 * ko, b, p + A['qkv'])
            q, k, v = self.cut(a, 2, 0, qo, p + 'q slice'), self.cut(a, 2, qo, ko, p + 'k slice'), self.cut(a, 2, qo + ko, ko, p + 'v slice')
        else:
            q, k, v = self.mm(x, h, qo, b, p + A['q']), self.mm(x, h, ko, b, p + A['k']), self.mm(x, h, ko, b, p + A['v'])
        if f.get('qk_norm'):
            q, k = self.headnorm(q, p + 'self_attn.q_norm'), self.headnorm(k, p + 'self_attn.k_norm')
        if f.get('qk_rope', True):
            q, k = self.rope(q, p + 'query rotation'), self.rope(k, p + 'key rotation')
        at = {'head_num': nh, 'head_size': d, 'kv_head_num': nk, 'layer_i': i}
        if s.get('attn_logit_softcapping') is not None:
            at['attn_logit_softcapping'] = s['attn_logit_softcapping']
        x = self.op(p + 'attention', 'SDPA', [q, k, v], [self.b, self.q, qo], at)
        if gate is not None:
            x = self.op(p + 'attention gating', 'Mul', [x, self.act(gate, 'silu', p + 'gate activation')], x[1])
        return self.mm(x, qo, h, f['o_bias'], p + A['o'])

    def headnorm(self, x, name):
        return self.op(name, 'LayerNormalization', [x, self.w(name + '.weight', [self.head])], x[1], {'epsilon': self.s['rms_norm_eps'], 'type': 'rms'})

    def mlp(self, x, p, M):
        s, h, b = self.s, self.s['hidden_size'], self.f['mlp_bias']
        n = s['intermediate_size']
        if s['model_type'] in ('phi3', 'phi3small'):
            y = self.mm(x, h, 2 * n, b, p + M['gate_up'])
            y = self.op(p + 'activation', ACT['gegelu'], [y], y[1][:-1] + [n])
        else:
            y = self.mm(x, h, n, b, p + M['up'])
            if self.f['mlp_gate']:
                g = self.mm(x, h, n, b, p + M['gate'])
                y = self.op(p + 'gating', 'Mul', [y, self.act(g, s['hidden_act'], p + 'activation')], y[1])
            else:
                y = self.act(y, s['hidden_act'], p + 'activation')
        return self.mm(y, n, h, b, p + M['down'])

    def moe(self, x, p):
        s, f, h = self.s, self.f, self.s['hidden_size']
        e, k = s.get('num_experts', 256), s.get('num_experts_per_tok', 8)
        n = s.get('moe_intermediate_size', s['intermediate_size'])
        sn = s.get('shared_expert_intermediate_size', n)
        ng, ne = f.get('no_shared_gate', False), f.get('no_shared_expert', False)
        ins = [x, self.w(p + 'moe.router.weight', [h, e]), self.w(p + 'moe.experts.gate.weight', [e, n, h]), self.w(p + 'moe.experts.up.weight', [e, n, h]),
               self.w(p + 'moe.experts.down.weight', [e, h, n])]
        if not ne:
            ins += [self.w(p + 'moe.shared.gate.weight', [sn, h]), self.w(p + 'moe.shared.up.weight', [sn, h]), self.w(p + 'moe.shared.down.weight', [h, sn])]
            if not ng:
                ins.append(self.w(p + 'moe.shared_gate.weight', [h]))
        return self.op(p + 'mixture of experts', 'MoE', ins, [self.b, self.q, h], {
            'hidden_size': h, 'moe_intermediate_size': n, 'shared_expert_intermediate_size': sn, 'num_experts': e, 'num_experts_per_tok': k, 'no_shared_gate': ng, 'no_shared_expert': ne})

    def mla(self, x, p):
        s, h, d, nh = self.s, self.s['hidden_size'], self.head, self.s['num_attention_heads']
        g = lambda k, v: s.get(k, v)
        ql, ol, og = g('q_lora_rank', 1024), g('o_lora_rank', 1024), g('o_groups', 8)
        ins = [x, self.w(p + 'wq_a.weight', [ql, h]), self.w(p + 'q_norm.weight', [ql]), self.w(p + 'wq_b.weight', [nh * d, ql]), self.w(p + 'wkv.weight', [d, h]),
               self.w(p + 'kv_norm.weight', [d]), self.w(p + 'wo_a.weight', [og * ol, nh * d // og]), self.w(p + 'wo_b.weight', [h, og * ol])]
        return self.op(p + 'latent attention', 'MLA', ins, [self.b, self.q, h], {
            'dim': h, 'n_heads': nh, 'head_dim': d, 'q_lora_rank': ql, 'o_lora_rank': ol, 'o_groups': og, 'rope_head_dim': g('rope_head_dim', 64), 'window_size': g('window_size', 128),
            'compress_ratio': g('compress_ratio', 0), 'index_n_heads': g('index_n_heads', 64), 'index_head_dim': g('index_head_dim', 128), 'index_topk': g('index_topk', 512)})

    def gdn(self, x, p, A):
        s, h = self.s, self.s['hidden_size']
        nq, nv = s.get('linear_num_key_heads', s['num_key_value_heads']), s.get('linear_num_value_heads', 2 * s['num_key_value_heads'])
        dq, dv = s.get('linear_key_head_dim', self.head), s.get('linear_value_head_dim', self.head)
        b = self.f['qkv_bias']
        q, k, v = self.mm(x, h, nq * dq, b, p + A['q']), self.mm(x, h, nq * dq, b, p + A['k']), self.mm(x, h, nv * dv, b, p + A['v'])
        q, k = self.headnorm(q, p + 'self_attn.q_norm'), self.headnorm(k, p + 'self_attn.k_norm')
        return self.op(p + 'linear attention', 'GDN', [q, k, v], [self.b, self.q, h], {
            'hidden_size': h, 'num_q_heads': nq, 'num_v_heads': nv, 'qk_head_dim': dq, 'v_head_dim': dv, 'conv_kernel': s.get('linear_conv_kernel_dim', 4), 'o_bias': self.f['o_bias']})


class Vision(Spec):
    def __init__(self, sigs, s, chw):
        self.sigs, self.s, self.b = sigs, s, 1
        self.ops, self.inputs, self.weights = [], {'pixel_values': [1] + list(chw)}, {}
        self.chw = chw

    def mm(self, x, fin, fout, name):
        return Spec.mm(self, x, fin, fout, True, name)

    def ln(self, x, n, name):
        return self.op(name, 'LayerNormalization', [x, self.w(name + '.weight', [n]), self.w(name + '.bias', [n])], x[1], {'epsilon': 1e-6})

    def build(self):
        s = self.s
        g = lambda k, v: s.get(k, v)
        h, nl, nh, ps = g('vision_hidden_size', 1024), g('vision_num_layers', 24), g('vision_num_heads', 16), g('vision_patch_size', 14)
        n, d = g('vision_intermediate_size', 4 * h), g('vision_head_dim', h // nh)
        ch, ih, iw = self.chw
        ph, pw = (ih - ps) // ps + 1, (iw - ps) // ps + 1
        N = ph * pw
        x = self.op('patch embedding', 'Conv', [(('in', 'pixel_values'), None), self.w('vision.patch_embed.weight', [h, ch, ps, ps])], [1, h, ph, pw],
                    {'kernel_shape': [ps, ps], 'strides': [ps, ps], 'pads': [0] * 4, 'group': 1})
        x = self.op('patch reshape', 'Reshape', [x, self.k(1, N, h)], [1, N, h])
        x = self.op('position addition', 'Add', [x, self.w('vision.pos_embed', [1, N, h])], [1, N, h])
        for i in range(nl):
            p = f'vision.blocks.{i}'
            y = self.ln(x, h, p + '.ln1')
            y = self.mm(y, h, 3 * nh * d, p + '.attn.qkv')
            q, k, v = [self.cut(y, 2, j * nh * d, nh * d, p + f' slice {j}') for j in range(3)]
            y = self.op(p + ' attention', 'SDPA', [q, k, v], [1, N, nh * d], {'head_num': nh, 'head_size': d, 'kv_head_num': nh})
            y = self.mm(y, nh * d, h, p + '.attn.o')
            x = self.op(p + ' attention addition', 'Add', [x, y], x[1])
            y = self.ln(x, h, p + '.ln2')
            y = self.mm(y, h, n, p + '.mlp.fc1')
            y = self.act(y, 'gelu_new', p + ' activation')
            y = self.mm(y, n, h, p + '.mlp.fc2')
            x = self.op(p + ' mlp addition', 'Add', [x, y], x[1])
        x = self.ln(x, h, 'vision.post_ln')
        pd = g('projector_hidden_dim', s['hidden_size'])
        if g('projector_type', 'mlp') == 'mlp':
            x = self.mm(x, h, pd, 'vision.projector.fc1')
            x = self.act(x, 'gelu_new', 'projector activation')
            x = self.mm(x, pd, s['hidden_size'], 'vision.projector.fc2')
        else:
            x = self.mm(x, h, s['hidden_size'], 'vision.projector')
        self.out = x
        return self


# ---- evaluation of derived table formulas -------------------------------------------------------------------------------------------------

def bcast(f, xs):
    n = max(len(x[0]) for x in xs)
    shs = [[1] * (n - len(x[0])) + list(x[0]) for x in xs]
    out = [max(d) for d in zip(*shs)]
    if any(a not in (1, b) for sh in shs for a, b in zip(sh, out)):
        raise ValueError
    res = []
    for idx in itertools.product(*[range(d) for d in out]):
        v = []
        for x, sh in zip(xs, shs):
            k = 0
            for i, d in zip(idx, sh):
                k = k * d + (i if d > 1 else 0)
            v.append(x[1][k])
        res.append(f(*v))
    return out, res


def nd(t, st):
    """(shape, flat values) of a derived array formula; None when it is not one"""
    try:
        return nd_(t, st)
    except (ValueError, TypeError, OverflowError, ZeroDivisionError, IndexError, KeyError):
        return None


def nd_(t, st):
    k = t[0]
    if k == 'const':
        if isinstance(t[2], (int, float)):
            return [], [t[2]]
        raise ValueError
    if k in ('ref', 'tuple', 'list'):
        v = plain(t, st)
        sh = []
        x = v
        while isinstance(x, list):
            sh.append(len(x))
            x = x[0]
        fl = []

        def walk(x):
            for y in x:
                walk(y) if isinstance(y, list) else fl.append(y)
        walk(v)
        out = []
        for y in fl:
            if isinstance(y, tuple):
                a = nd_(y, st)
                if a[0]:
                    raise ValueError
                y = a[1][0]
            out.append(y)
        return sh, out
    if k == 'poly':
        tot = ([], [0])
        for mono, q in t[1]:
            m = ([], [float(q) if q != int(q) else int(q)])
            for a, e in mono:
                x = nd_(a, st)
                m = bcast(lambda u, v: u * v ** e, [m, x])
            tot = bcast(lambda u, v: u + v, [tot, m])
        return tot
    if k == 'idx':
        x, i = nd_(t[1], st), t[2]
        d, sh = list(x[0]), []
        for y in (i[1] if i[0] == 'tuple' else (i,)):
            if y == T.NONE or y[0] == 'ext' and y[1] == 'numpy.newaxis':
                sh.append(1)
            elif y == ('slice', T.NONE, T.NONE, T.NONE):
                sh.append(d.pop(0))
            else:
                raise ValueError
        return sh + d, x[1]
    if k != 'call':
        raise ValueError
    n, args, kw = t[1].rsplit('.', 1)[-1], t[2], dict(t[3]) if len(t) > 3 else {}
    if n in ('astype', 'copy', 'array', 'asarray', 'ndarray', 'asfloat', 'float32', 'int64', 'ascontiguousarray'):
        return nd_(args[0], st)
    if n == 'arange':
        v = [nd_(a, st)[1][0] for a in args]
        if not all(isinstance(x, int) or x == int(x) for x in v):
            raise ValueError
        r = list(range(*[int(x) for x in v]))
        return [len(r)], r
    if n == 'reshape':
        x = nd_(args[0], st)
        d = []
        for a in args[1:] + tuple(v for k, v in kw.items() if k in ('shape', 'newshape')):
            d += nd_(a, st)[1]
        if not d and x[1] and len(x[1]) > 1:
            raise ValueError
        d = [int(y) for y in d]
        if -1 in d:
            r = len(x[1])
            for y in d:
                if y != -1:
                    r //= y
            d = [r if y == -1 else y for y in d]
        return d, x[1]
    if n in ('cos', 'sin', 'exp', 'sqrt', 'log') and len(args) == 1:
        x = nd_(args[0], st)
        return x[0], [getattr(math, n)(y) for y in x[1]]
    xs = [nd_(a, st) for a in args]
    two = {'pow': lambda a, b: a ** b, 'power': lambda a, b: a ** b, 'mul': lambda a, b: a * b, 'multiply': lambda a, b: a * b, 'truediv': lambda a, b: a / b, 'divide': lambda a, b: a / b,
           'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'subtract': lambda a, b: a - b, 'floordiv': lambda a, b: a // b}
    if n in two and len(xs) == 2:
        return bcast(two[n], xs)
    if n == 'outer' and len(xs) == 2:
        return [len(xs[0][1]), len(xs[1][1])], [a * b for a in xs[0][1] for b in xs[1][1]]
    raise ValueError


# ---- the derived graph ----------------------------------------------------------------------------------------------------------------------

def one(v):
    return next(iter(v)) if v is not None and len(v) == 1 else None


class Closed(set):
    """everything a builder object has is known"""

    def __contains__(self, a):
        return a[0] == 'inst' and a[1] == 'Builder'


class Made:
    def __init__(self, *maps):
        self.maps = maps

    def __contains__(self, a):
        return any(a in m for m in self.maps)


class Built:
    pass


def term(v):
    if isinstance(v, dict):
        return {c(k): term(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [term(x) for x in v]
    return c(v) if v is not None else T.NONE


def derive(p, src, args, seconds=30):
    mod = p.modules[LLM]
    tens, nodes, graphs = {}, {}, []

    def new_tensor(I, f, a, kw, st, fr, node):
        d = dict(zip([x.arg for x in f.node.args.args], a))
        d.update(kw)
        n = plain(one(d['name']), st)
        t = P(f'tensor:{n}#{len(tens)}')
        tens[t] = n
        for k in ('name', 'shape', 'dtype', 'type'):
            st.over[(t, k)] = d[k]
        st.over[(t, 'numpy')] = V(T.NONE)
        return V(t)

    def new_data(kind):
        def h(I, f, a, kw, st, fr, node):
            d = dict(zip([x.arg for x in f.node.args.args], a))
            d.update(kw)
            n = plain(one(d['name']), st)
            t = P(f'tensor:{n}#{len(tens)}')
            tens[t] = n
            st.over[(t, 'name')] = d['name']
            st.over[(t, 'numpy')] = d['ndarray']
            st.over[(t, 'type')] = V(P(kind))
            return V(t)
        return h

    def new_node(I, f, a, kw, st, fr, node):
        i = one(a[0] if a else next(iter(kw.values())))
        g = lambda k: one(st.over.get((i, k)))
        t = P(f'node:{plain(g("name"), st) if g("name") else "?"}#{len(nodes)}')
        nodes[t] = (plain(g('name'), st) if g('name') else None, plain(g('op_type'), st) if g('op_type') else None, g('attribute'))
        for k in ('name', 'op_type'):
            st.over[(t, k)] = st.over[(i, k)]
        st.over[(t, 'input')] = V(gs.container(I, st, f, []))
        st.over[(t, 'output')] = V(gs.container(I, st, f, []))
        return V(t)

    def new_graph(I, f, a, kw, st, fr, node):
        g = one(a[0])
        graphs.append(g)
        for k in ('initials', 'input', 'output', 'dynamics'):
            st.over[(g, k)] = V(gs.container(I, st, f, []))
        for k in ('tensormap', 'nodemap', 'consumedby', 'producedby'):
            st.over[(g, k)] = V(gs.container(I, st, f, {}))
        return V(T.NONE)

    def isnd(t, st):
        if t[:2] == ('call', 'isinstance') and any(x[0] == 'ext' and x[1] == 'numpy.ndarray' for x in t[2][1:]):
            x = t[2][0]
            return True if x[0] in ('call', 'poly') else None
        return None
    tc = p.cls('onnx_tool.tensor', 'Tensor')
    r = gs.run(None, probe.fn(mod, src), args, seconds=seconds, typer=lambda t: tc if t in tens else None, closed=Closed(), unroll=512, strict_keys=True, nonnull=Made(tens, nodes), truth_hook=isnd, summaries={
        'create_tensor': new_tensor, 'create_initial_Tensor': new_data('static data'), 'create_dynamic_Tensor': new_data('dynamic data'), 'create_node': new_node,
        'Graph.__init__': new_graph, 'ModelConfig.__init__': lambda *a, **k: V(T.NONE)})
    b = Built()
    b.r, b.st, b.created, b.cnodes = r, r.state, tens, nodes
    b.ok = r.state is not None
    if not b.ok:
        return b
    b.obj = one(r.value)
    g = one(r.state.over.get((b.obj, 'graph'))) if b.obj else None
    b.g = g
    get = lambda a, k: plain(one(r.state.over.get((a, k))), r.state) if one(r.state.over.get((a, k))) is not None else None
    b.get = get
    for k in ('input', 'output', 'initials', 'tensormap', 'nodemap'):
        setattr(b, k, get(g, k) if g is not None else None)
    b.known = all(isinstance(getattr(b, k), t) for k, t in (('input', list), ('output', list), ('initials', list), ('tensormap', dict), ('nodemap', dict)))
    return b


def registered(b):
    """first registration obligation the derived graph breaks"""
    for t, n in b.created.items():
        if not isinstance(n, str):
            return None, f'a tensor name is not derived'
        if b.tensormap.get(n) != t:
            if n in b.tensormap:
                return f'two tensors are called {n}: the first is lost', None
            return f'tensor {n} is created but not registered in tensormap', None
    for n, t in b.tensormap.items():
        if b.created.get(t) != n:
            return f'tensormap has {b.created.get(t, t)} under the name {n}', None
    for t, (n, o, _) in b.cnodes.items():
        if not isinstance(n, str) or not isinstance(o, str):
            return None, 'an operator name is not derived'
        if b.nodemap.get(n) != t:
            if n in b.nodemap:
                return f'two operators are called {n}: the first is lost', None
            return f'operator {n} is created but not registered in nodemap', None
    for n, t in b.nodemap.items():
        if b.cnodes.get(t, (None,))[0] != n:
            return f'nodemap has {b.cnodes.get(t, (t,))[0]} under the name {n}', None
    for what in ('initials', 'input', 'output'):
        l = getattr(b, what)
        for n in l:
            if not isinstance(n, str):
                return None, f'{what} not derived'
            if l.count(n) > 1:
                return f'{n} is listed {l.count(n)} times in {what}', None
            if n not in b.tensormap:
                return f'{n} is listed in {what} but is no registered tensor', None
    made, used = {}, set()
    for n, t in b.nodemap.items():
        ins, outs = b.get(t, 'input'), b.get(t, 'output')
        if not isinstance(ins, list) or not isinstance(outs, list) or any(not isinstance(x, str) for x in ins + outs):
            return None, f'operands of {n} not derived'
        if not outs:
            return f'operator {n} has no output', None
        for x in ins:
            used.add(x)
            if x not in b.tensormap:
                return f'operator {n} reads {x}, which is no registered tensor', None
            if x not in b.initials and x not in b.input and x not in made:
                return f'operator {n} reads {x}, which no earlier operator produces and which is neither an initializer nor an input', None
        for x in outs:
            if x in made:
                return f'{x} is produced by {made[x]} and {n}', None
            if x in b.initials or x in b.input:
                return f'{x} is produced by {n} and is an initializer or input', None
            if x not in b.tensormap:
                return f'operator {n} writes {x}, which is no registered tensor', None
            made[x] = n
    for n in b.tensormap:
        if n not in made and n not in b.initials and n not in b.input:
            return f'tensor {n} is neither produced, nor an initializer, nor an input', None
        if n in b.initials and n not in used:
            return f'no operator uses the weight {n}', None
    for n in b.output:
        if n not in made:
            return f'no operator produces the output {n}', None
    return None, None


def table(b, t, spec_tables):
    """signature of a rotary table with derived contents"""
    vals = b.st.over.get((t, 'numpy')) or ()
    for a in vals:
        x = nd(a, b.st)
        if x is None:
            return None
        for sig in spec_tables:
            _, fn, mp, rd, theta = sig
            want = [getattr(math, fn)(q * theta ** (-2 * i / rd)) for q in range(mp) for i in range(rd // 2)]
            if list(x[0]) == [1, 1, mp, rd // 2] and all(abs(u - v) < 1e-4 for u, v in zip(x[1], want)) and len(want) == len(x[1]):
                return sig
    return ('table', 'other contents')


def compare(b, spec):
    """(message, undecided) for the first difference between the derived graph and the description"""
    sigs, get = spec.sigs, b.get
    act, tables = {}, {x for (_, ins, _, _) in sigs.ids for x in ins if x[0] == 't'}
    actual = {}
    rope = {}

    def sig(n):
        if n in act:
            return ('a', act[n])
        t = b.tensormap[n]
        if n in b.input:
            return ('in', n)
        v = b.st.over.get((t, 'numpy'))
        if v and one(v) != T.NONE:
            x = nd(one(v), b.st) if one(v) else None
            if x is not None and len(x[1]) <= 4 and len(x[0]) < 4:
                return ('k', tuple(int(y) if y == int(y) else y for y in x[1]))
            if n not in rope:
                rope[n] = table(b, t, tables)
            return rope[n]
        sh = get(t, 'shape')
        if not isinstance(sh, list) or any(not isinstance(x, int) for x in sh):
            return None
        return ('w', n, tuple(sh))
    keys = {}
    for op, ins, attrs, sh in sigs.ids:
        keys.setdefault(op, set()).update(k for k, _ in attrs)
    for n, t in b.nodemap.items():
        _, op, at = b.cnodes[t]
        ins = [sig(x) for x in get(t, 'input')]
        if None in ins:
            return None, f'{n}: operand {get(t, "input")[ins.index(None)]} not derived'
        at = plain(at, b.st) if at is not None else {}
        if not isinstance(at, dict):
            return None, f'{n}: attributes not derived'
        at = {k: v for k, v in at.items() if k in keys.get(op, ())}
        if any(isinstance(v, tuple) for v in at.values()):
            return None, f'{n}: attributes not derived'
        o = get(t, 'output')[0]
        sh = get(b.tensormap[o], 'shape')
        if not isinstance(sh, list) or any(not isinstance(x, int) for x in sh):
            return None, f'{n}: shape of the output not derived'
        i = sigs.of(op, ins, freeze(at), tuple(sh))
        act[o] = i
        actual.setdefault(i, []).append(n)
    want = {}
    for i, label, kind in spec.ops:
        want.setdefault(i, []).append((label, kind))
    rev = {i: k for k, i in sigs.ids.items()}
    for i, label, kind in spec.ops:
        if len(actual.get(i, ())) != len(want[i]):
            if len(actual.get(i, ())) > len(want[i]):
                return f'the {kind} operator of {label} appears {len(actual[i])} times', None
            near = difference(rev, i, [j for j in actual if j not in want], b, actual)
            return f'there is no {kind} operator for {label} reading {show(rev[i][1])} with {dict(rev[i][2])} and giving {list(rev[i][3])}{near}', None
    for i, l in actual.items():
        if i not in want:
            return f'operator {l[0]} ({rev[i][0]}) reading {show(rev[i][1])} does not belong to the architecture', None
    if sorted(b.input) != sorted(spec.inputs):
        return f'the graph inputs are {b.input}, not {sorted(spec.inputs)}', None
    for n, sh in spec.inputs.items():
        s = get(b.tensormap[n], 'shape')
        if isinstance(s, list) and s != sh:
            return f'input {n} has shape {s}, not {sh}', None
        d = one(b.st.over.get((b.tensormap[n], 'dtype')))
        w = 'numpy.float32' if n == 'pixel_values' else 'numpy.int64'
        if d is not None and d[0] == 'ext' and d[1] != w:
            return f'input {n} has element type {d[1]}, not {w}', None
    if [act.get(x) for x in b.output] != [spec.out[0][1]]:
        return f'the graph outputs are {b.output}, not the result of {spec.ops[-1][1]}', None
    types = {}
    for n, t in b.tensormap.items():
        y = one(b.st.over.get((t, 'type')))
        if y is not None and y[0] == 'const':
            types.setdefault(n in b.initials, set()).add(y[2])
    if len(types.get(True, ())) > 1 or len(types.get(False, ())) > 1 or types.get(True, 0) == types.get(False, 1):
        return 'weights and activations are not told apart by their tensor type', None
    return None, None


def show(ins):
    return '[' + ', '.join(x[1] + str(list(x[2])) if x[0] == 'w' else str(x[1]) if x[0] == 'in' else f'constant {list(x[1])}' if x[0] == 'k' else f'{x[1]} table' if x[0] == 't' else 'an activation'
                           for x in ins) + ']'


def difference(rev, i, extra, b, actual):
    """the unexpected operator most like the missing one"""
    op, ins, at, sh = rev[i]
    best = None
    for j in extra:
        o2, i2, a2, s2 = rev[j]
        score = (o2 == op) * 2 + sum(x in i2 for x in ins if x[0] == 'w') * 3 + (s2 == sh) + (a2 == at) + sum(x in i2 for x in ins)
        if o2 == op and (best is None or score > best[0]):
            best = (score, j)
    if best is None:
        return ''
    o2, i2, a2, s2 = rev[best[1]]
    return f'; {actual[best[1]][0]} reads {show(i2)} with {dict(a2)} and gives {list(s2)}'


SMALL = {'hidden_size': 24, 'num_hidden_layers': 2, 'num_attention_heads': 4, 'num_key_value_heads': 2, 'intermediate_size': 50, 'hidden_act': 'silu', 'rms_norm_eps': 1e-5, 'vocab_size': 99,
         'max_position_embeddings': 3}


def variants():
    for a in ARCH:
        cfg = dict(SMALL, architectures=[a], name='m')
        if a == 'GPT2LMHeadModel':
            cfg = {'architectures': [a], 'n_embd': 24, 'n_layer': 2, 'n_head': 4, 'activation_function': 'gelu_new', 'layer_norm_epsilon': 1e-5, 'vocab_size': 99, 'n_positions': 9}
        if a.startswith('Phi3'):
            cfg['model_type'] = 'phi3' if a == 'Phi3ForCausalLM' else 'phi3small'
            cfg['hidden_act'] = 'gegelu'
        if 'is_moe' in ARCH[a]:
            cfg.update(num_experts=6, num_experts_per_tok=2, moe_intermediate_size=18, shared_expert_intermediate_size=14)
        yield a, cfg, OWN_MAP
        if a == 'LlamaForCausalLM':
            yield a + ', default weight names', cfg, None
            yield a + ', head size, rotary theta and size, soft capping', dict(cfg, head_dim=10, rope_theta=77.0, rotary_dim=4, final_logit_softcapping=30.0, attn_logit_softcapping=50.0), OWN_MAP
            yield a + ', attention and mlp bias', dict(cfg, attention_bias=True, mlp_bias=True), OWN_MAP
            yield 'unknown architecture', dict(cfg, architectures=['SomethingElse']), OWN_MAP
            yield a + ', other spellings', {('ff_intermediate_size' if k == 'intermediate_size' else 'layer_norm_epsilon' if k == 'rms_norm_eps' else k): v for k, v in cfg.items()}, OWN_MAP
        if a == 'Qwen3ForCausalLM':
            yield a + ', default weight names', cfg, None
            yield a + ', no attention bias', dict(cfg, attention_bias=False), OWN_MAP
        if a == 'GPT2LMHeadModel':
            yield a + ', default weight names', cfg, None
            yield a + ', inner size', dict(cfg, n_inner=30), OWN_MAP
            yield a + ', inner size None', dict(cfg, n_inner=None), OWN_MAP
        if a == 'Qwen3_5ForConditionalGeneration':
            lin = dict(layer_types=['linear_attention', 'full_attention'], head_dim=10)
            yield a + ', hybrid layers', dict(cfg, **lin), OWN_MAP
            yield a + ', hybrid layers, linear last', dict(cfg, **dict(lin, layer_types=['full_attention', 'linear_attention'])), OWN_MAP
            yield a + ', hybrid layers with own sizes', dict(cfg, linear_num_key_heads=3, linear_num_value_heads=5, linear_key_head_dim=7, linear_value_head_dim=6, linear_conv_kernel_dim=3, **lin), OWN_MAP
        if a == 'Qwen3_5MoeForCausalLM':
            yield a + ', hybrid layers', dict(cfg, layer_types=['linear_attention', 'full_attention']), OWN_MAP
            yield a + ', sizes defaulted', {k: v for k, v in cfg.items() if k not in ('num_experts', 'num_experts_per_tok', 'moe_intermediate_size', 'shared_expert_intermediate_size')}, OWN_MAP
        if a == 'MiniMaxM2ForCausalLM':
            yield a + ', other spellings', {('num_local_experts' if k == 'num_experts' else k): v for k, v in cfg.items()}, OWN_MAP
        if a == 'DeepSeekV4ForCausalLM':
            yield a + ', own sizes', dict(cfg, head_dim=10, q_lora_rank=5, o_lora_rank=3, o_groups=2, rope_head_dim=4, window_size=9, compress_ratio=4, index_n_heads=2, index_head_dim=3, index_topk=7), OWN_MAP


OWN = [('norms without scale', {'norm_scale': False}), ('norms after attention and mlp', {'post_attn_norm': True, 'post_mlp_norm': True, 'norm_bias': True}), ('output projection bias', {'o_bias': True}),
       ('head bias', {'lm_head_bias': True}), ('fused projections with bias', {'fuse_qkv': True, 'qkv_bias': True}), ('no rotation', {'qk_rope': False}), ('mlp bias', {'mlp_bias': True}),
       ('norm after attention, experts', {'post_attn_norm': True, 'is_moe': True, 'post_mlp_norm': True}),
       ('norms after latent attention and mlp', {'is_mla': True, 'post_attn_norm': True, 'post_mlp_norm': True})]


def flags_of(s, base=None):
    f = dict(BASE, **(base if base is not None else ARCH.get(s['architectures'][0], {})))
    if 'mlp_bias' in s:
        f['mlp_bias'] = s['mlp_bias']
    if 'attention_bias' in s:
        f['qkv_bias'] = f['o_bias'] = s['attention_bias']
    return f


DRIVER = 'def driver(cfg, wm):\n    b = Builder(**cfg)\n    b.build_graph([2, 7], wm)\n    return b\n'


def judge(ctx, key, lab, b, mkspec, where):
    if not b.ok:
        ctx.fail(key, f'{lab}: building the graph fails', where)
        return None
    if not b.known:
        ctx.undecided(f'{lab}: {[k for k in ("input", "output", "initials", "tensormap", "nodemap") if not isinstance(getattr(b, k), (list, dict))]} not derived', where)
        return None
    msg, und = registered(b)
    if msg:
        ctx.fail(key, f'{lab}: {msg}', where)
        return None
    if und:
        ctx.undecided(f'{lab}: {und}', where)
        return None
    spec = mkspec()
    msg, und = compare(b, spec)
    if msg:
        ctx.fail(key, f'{lab}: {msg}', where)
        return None
    if und:
        ctx.undecided(f'{lab}: {und}', where)
        return None
    ctx.ok(key)
    return spec


def check_builds(ctx, p, B):
    ctx.rule('for every architecture and option the builder creates exactly the operators the architecture consists of, wired, shaped and attributed as described, every weight under the '
             'name the weight map gives it; everything created is registered once under its own name and every operand exists before it is used')
    where = B.find_method('build_graph').where
    ctx.seen(where)
    built = 0
    for lab, cfg, wm in variants():
        s = settings(cfg)
        try:
            b = derive(p, DRIVER, {'cfg': term(cfg), 'wm': term(wm)})
        except gs.TooLong:
            ctx.undecided(f'{lab}: not reduced', where)
            continue
        m = wm or dict(DEFAULT_MAP, embedding=dict(DEFAULT_MAP['embedding'], pos='model.embed_positions'))
        if judge(ctx, f'build:{lab}', lab, b, lambda: Spec(Sigs(), s, flags_of(s), m, 2, 7).build(), where):
            built += 1
    for lab, fl in OWN:
        cfg = dict(SMALL, architectures=['Own'])
        s = settings(cfg)
        f = dict(BASE, **fl)
        try:
            b = derive(p, DRIVER.replace('    b = ', '    ArchMap["Own"] = fl\n    b = ').replace('wm):', 'wm, fl):', 1), {'cfg': term(cfg), 'wm': term(OWN_MAP), 'fl': term(f)})
        except gs.TooLong:
            ctx.undecided(f'{lab}: not reduced', where)
            continue
        if judge(ctx, f'build:own architecture, {lab}', f'own architecture, {lab}', b, lambda: Spec(Sigs(), s, f, OWN_MAP, 2, 7).build(), where):
            built += 1
    ctx.count('graphs derived', built)


def check_configs(ctx, p, B):
    ctx.rule('every shipped configuration names an activation and has every entry the builder reads, so that its graph is built as its architecture describes')
    mod = p.modules.get('onnx_tool.model_configs')
    if mod is None:
        return
    n = 0
    for st in mod.tree.body:
        if not (isinstance(st, ast.Assign) and isinstance(st.value, ast.Dict) and isinstance(st.targets[0], ast.Name)):
            continue
        name = st.targets[0].id
        cfg = literal(st.value)
        if not isinstance(cfg, dict) or 'architectures' not in cfg:
            continue
        where = f'onnx_tool/model_configs.py:{st.lineno} {name}'
        ctx.seen(where)
        n += 1
        for k in ('num_hidden_layers', 'n_layer'):
            if k in cfg:
                cfg[k] = 2
        if 'max_position_embeddings' in cfg:
            cfg['max_position_embeddings'] = 3
        try:
            s = settings(cfg)
            mk = lambda: Spec(Sigs(), s, flags_of(s), OWN_MAP, 2, 7).build()
            mk()
        except KeyError as e:
            ctx.fail(f'config:{name}', f'configuration {name} has no entry for {e.args[0]}', where)
            continue
        try:
            b = derive(p, DRIVER, {'cfg': term(cfg), 'wm': term(OWN_MAP)})
        except gs.TooLong:
            ctx.undecided(f'{name}: not reduced', where)
            continue
        judge(ctx, f'config:{name}', f'configuration {name}', b, mk, where)
    ctx.count('shipped configurations', n)


def literal(e):
    if isinstance(e, ast.Name):
        return {'true': True, 'false': False, 'null': None}.get(e.id, ('?', e.id))
    if isinstance(e, ast.Dict):
        return {literal(k) if k is not None else None: literal(v) for k, v in zip(e.keys, e.values)}
    if isinstance(e, (ast.List, ast.Tuple)):
        return [literal(x) for x in e.elts]
    try:
        return ast.literal_eval(e)
    except ValueError:
        return ('?',)


def check_kv(ctx, p, B):
    ctx.rule('a key/value cache has room for the keys and values of every layer, and it and the past length become inputs of the graph and of every attention operator')
    m = B.find_method('add_kv_cache')
    if m is None:
        return
    ctx.seen(m.where)
    src = 'def driver(cfg, wm):\n    b = Builder(**cfg)\n    b.build_graph([2, 7], wm)\n    b.add_kv_cache(40, 11)\n    b.set_past_kv_length(5)\n    return b\n'
    for a, extra in (('LlamaForCausalLM', {}), ('LlamaForCausalLM', {'head_dim': 10}), ('DeepSeekV4ForCausalLM', {'head_dim': 10}),
                     ('Qwen3_5ForConditionalGeneration', {'layer_types': ['linear_attention', 'full_attention']})):
        cfg = dict(SMALL, architectures=[a], **extra)
        lab = f'{a} {extra or ""}'.strip()
        key = f'cache:{lab}'
        s = settings(cfg)
        try:
            b = derive(p, src, {'cfg': term(cfg), 'wm': term(OWN_MAP)})
        except gs.TooLong:
            continue
        if not b.ok:
            ctx.fail(key, f'{lab}: adding a key/value cache fails', m.where)
            continue
        if not b.known:
            ctx.undecided(lab, m.where)
            continue
        spec = Spec(Sigs(), s, flags_of(s), OWN_MAP, 2, 7).build()
        kv = spec.head if 'is_mla' in ARCH[a] else spec.head * s['num_key_value_heads']
        msg = None
        want = sorted(list(spec.inputs) + ['n_past', 'kv_cache'])
        if sorted(b.input) != want:
            msg = f'the graph inputs are {b.input}, not {want}'
        elif any(x not in b.tensormap for x in want):
            msg = f'an input is not registered: {sorted(set(want) - set(b.tensormap))}'
        else:
            sh = b.get(b.tensormap['kv_cache'], 'shape')
            if isinstance(sh, list) and all(isinstance(x, int) for x in sh) and sh != [2, 4, 40, kv]:
                msg = f'the cache has shape {sh}, not {[2, 4, 40, kv]}'
            k = b.get(b.obj, 'kv_params')
            if isinstance(k, int) and k != 2 * (7 + 11) * kv * 2 * 2:
                msg = f'the cache is said to take {k} values, not {2 * (7 + 11) * kv * 2 * 2}'
            v = one(b.st.over.get((b.tensormap['n_past'], 'numpy')))
            x = nd(v, b.st) if v else None
            if x is not None and x[1] != [5]:
                msg = f'the past length is {x[1]} after it was set to 5'
            for n, t in b.nodemap.items():
                ins = b.get(t, 'input')
                if isinstance(ins, list) and (b.cnodes[t][1] == 'SDPA' and ins[3:] != ['n_past', 'kv_cache'] or b.cnodes[t][1] != 'SDPA' and ('n_past' in ins or 'kv_cache' in ins)):
                    msg = f'operator {n} ({b.cnodes[t][1]}) reads {ins}'
        if msg:
            ctx.fail(key, f'{lab}: {msg}', m.where)
        else:
            ctx.ok(key)


def check_vision(ctx, p, B):
    ctx.rule('the vision encoder consists of patch embedding, position embedding, transformer blocks, final norm and projector, wired and shaped as described')
    m = B.find_method('build_vision_graph')
    if m is None:
        return
    ctx.seen(m.where)
    src = 'def driver(cfg):\n    b = Builder(**cfg)\n    b.build_vision_graph([3, 29, 44])\n    return b\n'
    base = dict(SMALL, architectures=['Qwen3_5ForConditionalGeneration'], vision_num_layers=2)
    for lab, extra in (('defaults', {}), ('own sizes', dict(vision_hidden_size=12, vision_num_heads=3, vision_intermediate_size=17, vision_patch_size=5, projector_hidden_dim=13)),
                       ('head size and linear projector', dict(vision_hidden_size=12, vision_num_heads=3, vision_head_dim=5, projector_type='linear'))):
        cfg = dict(base, **extra)
        try:
            b = derive(p, src, {'cfg': term(cfg)})
        except gs.TooLong:
            continue
        judge(ctx, f'vision:{lab}', f'vision encoder, {lab}', b, lambda: Vision(Sigs(), settings(cfg), (3, 29, 44)).build(), m.where)


def check_devices(ctx, p):
    ctx.rule('every device has the entries latency estimation reads without a default')
    mod = p.modules.get('onnx_tool.device')
    if mod is None:
        return
    for st in mod.tree.body:
        if isinstance(st, ast.Assign) and isinstance(st.value, ast.Dict):
            tab = literal(st.value)
            for k, v in tab.items():
                if not isinstance(v, dict) or any(isinstance(x, tuple) for x in v.values()):
                    continue
                ctx.seen(f'onnx_tool/device.py:{k}')
                bad = [x for x in ('FP32', 'Bandwidth') if not isinstance(v.get(x), (int, float)) or v[x] <= 0]
                if bad:
                    ctx.fail(f'device:{k}', f'device {k} has no {" and ".join(bad)}', f'onnx_tool/device.py:{st.lineno} {st.targets[0].id}')
                elif v.get('Number', 1) > 1 and not v.get('LinkBandwidth'):
                    ctx.fail(f'device:{k}:link', f'device {k} consists of {v["Number"]} units without a link bandwidth', f'onnx_tool/device.py:{st.lineno} {st.targets[0].id}')
                else:
                    ctx.ok(f'device:{k}')


def check(ctx):
    p = gs.program()
    B = p.cls(LLM, 'Builder') if LLM in p.modules else None
    if B is None:
        ctx.undecided('Builder not found')
        return
    check_builds(ctx, p, B)
    check_configs(ctx, p, B)
    check_kv(ctx, p, B)
    check_vision(ctx, p, B)
    check_devices(ctx, p)

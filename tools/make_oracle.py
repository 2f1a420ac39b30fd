"""Freezes what onnx.defs says about every operator into oracle/onnx_schema.json (run once with /opt/venv/bin/python)."""
import json, os
import onnx
from onnx import defs, helper, AttributeProto
out = {}
for s in defs.get_all_schemas_with_history():
    if s.domain not in ('', 'ai.onnx'):
        continue
    def a(x):
        d = {'type': x.type.name if hasattr(x.type, 'name') else str(x.type), 'required': x.required}
        dv = x.default_value
        if dv is not None and dv.type != AttributeProto.UNDEFINED and dv.name:
            v = helper.get_attribute_value(dv)
            if isinstance(v, bytes):
                v = v.decode()
            elif isinstance(v, (list, tuple)):
                v = [q.decode() if isinstance(q, bytes) else q for q in v]
            elif not isinstance(v, (int, float, str)):
                v = str(v)
            d['default'] = v
        return d
    tc = {t.type_param_str: sorted(t.allowed_type_strs) for t in s.type_constraints}
    def io(x):
        return {'name': x.name, 'type': x.type_str, 'option': x.option.name if hasattr(x.option, 'name') else str(x.option)}
    e = {'since': s.since_version, 'deprecated': s.deprecated, 'min_in': s.min_input, 'max_in': s.max_input, 'min_out': s.min_output, 'max_out': s.max_output,
         'attrs': {k: a(v) for k, v in s.attributes.items()}, 'inputs': [io(x) for x in s.inputs], 'outputs': [io(x) for x in s.outputs],
         'types': {k: v for k, v in tc.items()}}
    out.setdefault(s.name, []).append(e)
for k in out:
    out[k].sort(key=lambda e: e['since'])
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'oracle')
os.makedirs(p, exist_ok=True)
json.dump(out, open(os.path.join(p, 'onnx_schema.json'), 'w'), indent=0, sort_keys=True)
print(len(out), onnx.__version__)

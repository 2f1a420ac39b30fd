"""Regenerates MANIFEST.json from the rule modules and the properties file."""
import importlib
import json
import os
import pkgutil
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checker import rules  # noqa: E402

NA = {
    'P31': 'A numeric error bound over all weight values and floating-point rounding; no dataflow or syntactic rule bounds it. Clip ranges, code width and structure are decided in P27.',
    'P32': 'Numerical equivalence with an external runtime over all inputs; only execution or numerical analysis could decide it. The structural obligations of kernels and engine are P20 and P21.',
}


def main():
    mods = {}
    for m in pkgutil.iter_modules(rules.__path__):
        if m.name[0] == 'p' and m.name[1:3].isdigit():
            mods[m.name.split('_')[0].upper()] = importlib.import_module('checker.rules.' + m.name)
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in mods:
            mod = mods[i]
            checks.append({
                'property': i,
                'quick_cmd': f'./check {i}',
                'thorough_cmd': f'VERIF_TIER=thorough ./check {i}',
                'technique': getattr(mod, 'TECHNIQUE', 'static analysis of the source'),
                'level': getattr(mod, 'LEVEL', 'other'),
                'level_note': getattr(mod, 'NOTE', mod.EXPLANATION),
            })
        else:
            na.append({'property': i, 'reason': NA.get(i, 'No sound check has been built for this property yet.')})
    man = {
        'version': 1,
        'setup_cmd': 'true',
        'checks': checks,
        'not_applicable': na,
        'notes': 'All checks are static analyses of /repo\'s source (python3 standard library only); nothing of /repo is imported or run. '
                 'oracle/onnx_schema.json is a frozen extract of onnx.defs made with tools/make_oracle.py.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks,', len(na), 'not applicable')


main()

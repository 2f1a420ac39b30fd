"""Configurations under which operator classes are analysed."""
import json
import os

from .report import HERE
from .terms import const, attr
from .opsem import SELF

_schema = None
BIG = 1000


def schema():
    global _schema
    if _schema is None:
        _schema = json.load(open(os.path.join(HERE, 'oracle', 'onnx_schema.json')))
    return _schema


WINDOW = {'Conv': 1, 'ConvTranspose': 1, 'ConvInteger': 1, 'QLinearConv': 3, 'MaxPool': None, 'AveragePool': None, 'LpPool': None}
CUSTOM = {'SDPA': (4, 1), 'GQA': (4, 1), 'MQA': (4, 1)}


def latest(op):
    s = schema().get(op)
    return s[-1] if s else None


def arities(op):
    h = schema().get(op)
    if not h:
        return [None]
    lo = min(e['min_in'] for e in h)
    hi = max(e['max_in'] for e in h)
    if hi > 20:
        return sorted({max(lo, 1), max(lo, 2), 3}) if max(lo, 1) <= 3 else [lo]
    return list(range(lo, hi + 1))


def outputs(op):
    h = schema().get(op)
    if not h:
        return [None]
    lo = min(e['min_out'] for e in h)
    hi = max(e['max_out'] for e in h)
    if hi > 20:
        return [max(lo, 1), 2, 3]
    return list(range(max(lo, 1), hi + 1))


def attr_names(op):
    h = schema().get(op) or []
    out = {}
    for e in h:
        for k, v in e['attrs'].items():
            out[k] = v
    return out


def required(op):
    e = latest(op)
    return {k: v for k, v in e['attrs'].items() if v['required']} if e else {}


def symbolic_attrs(names):
    return {k: frozenset([attr(SELF, k)]) for k in names}

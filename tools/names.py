#!/usr/bin/env python3
"""Rewrite rucsa/names.json from the current /repo (see rucsa/names.py); run only when the checks themselves move on."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rucsa import names
names._BASE = {'functions': {}, 'records': {}, 'enums': {}}
from rucsa.program import Program
P = Program()
rec, en = {}, {}
for m in P.modules.values():
    d = P.di(m)
    for k, v in d.records.items():
        if not k.startswith('_') and not k.startswith('__'):
            rec.setdefault(k, {n: list(x) for n, x in v.items()})
    for k, v in d.enums.items():
        en.setdefault(k, v)
json.dump({'functions': names.prints(P.modules), 'records': rec, 'enums': en}, open(names.PATH, 'w'), indent=0, sort_keys=True)

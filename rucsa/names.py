"""Names the checks refer to, kept stable across renamings.

rucsa/names.json records, for the tree the checks were written against, a fingerprint of every function (signature,
callees, callers, instruction mix) and the layout of every record and enumeration.  When a function of that list is
missing from the current tree and a new function with the same signature resembles it, the new function is given the
old name inside the analyser; the code judged is always the current one.
"""
import json
import os
from collections import Counter
from difflib import SequenceMatcher

from . import llvm

PATH = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'names.json')
_BASE = None


def base():
    global _BASE
    if _BASE is None:
        try:
            with open(PATH) as f:
                _BASE = json.load(f)
        except OSError:
            _BASE = {'functions': {}, 'records': {}, 'enums': {}}
    return _BASE


def signature(f):
    return '%s(%s)%s' % (f.ret_ty, ','.join(str(f.param_ty(k)) for k in range(f.nparams)), '...' if f.vararg else '')


def prints(modules):
    """{path: {name: fingerprint}}"""
    out, callers = {}, {}
    for p, m in modules.items():
        out[p] = {}
        for f in m.functions.values():
            if f.decl:
                continue
            ops, cal = Counter(), Counter()
            for i in f.instrs():
                ops[i.op] += 1
                if i.op == 'call' and isinstance(i.x, str):
                    cal[i.x] += 1
                    callers.setdefault(i.x, Counter())[f.name] += 1
            out[p][f.name] = dict(sig=signature(f), ops=dict(sorted(ops.items())), calls=dict(sorted(cal.items())))
    for p in out:
        for n, d in out[p].items():
            d['callers'] = dict(sorted(callers.get(n, {}).items()))
    return out


def near(a, b):
    a, b = Counter(a), Counter(b)
    u = sum((a | b).values())
    return 1.0 if not u else sum((a & b).values()) / u


def score(a, b):
    return near(a['ops'], b['ops']) + near(a['calls'], b['calls']) + near(a['callers'], b['callers'])


def resolve(modules):
    """Give renamed functions their recorded names; returns [(path, new, old)]."""
    known = base()['functions']
    every = {n for d in known.values() for n in d}
    out = []
    for limit in (2.2, 2.0, 2.0, 1.7, 1.7, 1.4, 1.4, 1.1):
        outer = {f.name for q, m in modules.items() for f in m.functions.values()
                 if not f.decl and not f.static and f.name not in known.get(q, {})}

        def there(p, n):
            f = modules[p].functions.get(n)
            return f is not None and not f.decl or n in outer

        lost = [(p, n) for p, d in known.items() if p in modules for n in d if not there(p, n)]
        if not lost:
            break
        cur = prints(modules)
        pairs = []
        for p, n in lost:
            a = known[p][n]
            for q in cur:
                for k, b in cur[q].items():
                    if k not in every and b['sig'] == a['sig']:
                        s = score(a, b) + (0.2 if q == p else 0) + 0.3 * SequenceMatcher(None, n, k).ratio()
                        if s >= limit:
                            pairs.append((s, p, n, q, k))
        pairs.sort(key=lambda x: (-x[0],) + x[1:])
        done, used = set(), set()
        for s, p, n, q, k in pairs:
            if (p, n) in done or (q, k) in used:
                continue
            done.add((p, n))
            used.add((q, k))
            out.append((q, k, n))
            loc = modules[q].functions[k].static
            for path, m in modules.items():
                f = m.functions.get(k)
                if f is None or (loc and path != q) or (not loc and f.static):
                    continue
                f.rename(n)
                del m.functions[k]
                m.functions[n] = f
        if done:
            for m in modules.values():
                for g in m.functions.values():
                    g.forget()
    return out


def record(rec, name, members):
    """The current name of a record member that was called `name`."""
    old = base()['records'].get(rec, {})
    if name in old and len(old) == len(members):
        new = [k for k, v in members.items() if k not in old and list(v) == list(old[name])]
        if len(new) == 1:
            return new[0]
    return None


def enumerator(name, enums):
    """The value of an enumerator that was called `name`."""
    for e, vals in base()['enums'].items():
        if name in vals and e in enums and name not in enums[e] and len(enums[e]) == len(vals):
            if any(k not in vals and v == vals[name] for k, v in enums[e].items()):
                return vals[name]
    return None

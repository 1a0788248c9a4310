"""Obligations, known findings, evidence, exit codes."""
import json
import os
import sys
import time
import traceback

from .program import AnalysisError, Program, REPO
from . import absint
from .absint import Interp, Policy, show

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_PROG = {}


def program(**kw):
    key = repr(sorted(kw.items()))
    if key not in _PROG:
        _PROG[key] = Program(**kw)
    return _PROG[key]


class Ctx:
    def __init__(self, pid, tier='quick'):
        self.pid = pid
        self.tier = tier
        self.obligations = []      # (rule, key, ok, where, msg)
        self.counts = {}
        self.samples = []
        self.rules = {}
        self.assumptions = []
        self._prog = None

    @property
    def prog(self):
        if self._prog is None:
            self._prog = program()
        return self._prog

    def rule(self, name, text):
        self.rules[name] = text

    def ob(self, rule, key, ok, where, msg=''):
        self.obligations.append((rule, str(key), bool(ok), str(where), str(msg)))
        if ok and len(self.samples) < 12 and (len(self.obligations) % 7 == 1):
            self.samples.append('%s: %s @ %s' % (rule, key, where))
        return ok

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, cond, msg):
        if not cond:
            raise AnalysisError(msg)

    def minimum(self, rule, n):
        got = sum(1 for o in self.obligations if o[0] == rule)
        if got < n:
            raise AnalysisError('rule %s matched %d instances, expected at least %d: the analysis lost its subject'
                                % (rule, got, n))

    # ---- exploration helpers ------------------------------------------------
    def paths(self, fn, pol, **kw):
        it = Interp(self.prog, pol)
        r = it.run(fn, **kw)
        self.count('functions_analysed')
        self.count('partitions', len(r))
        self.count('ir_steps', it.steps)
        return r

    def returns(self, fn, args, pol=None):
        """Set of values the function may return for the given (constant) arguments."""
        pol = pol or Policy()
        return {p.ret for p in self.paths(fn, pol, args=args) if p.kind == 'ret'}


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def main(argv, registry):
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    ctx = Ctx(pid, tier)
    fnc = registry[pid]
    from .props import PROPS
    meta = {'level': 'other', 'explain': ''}
    for q in PROPS:
        if q['id'] == pid:
            meta['explain'] = q['technique'] + '. ' + q['note']
            meta['assumptions'] = q.get('assume', [])
    try:
        fnc(ctx)
        if not ctx.obligations:
            raise AnalysisError('no obligation was generated')
    except AnalysisError as e:
        bad = [o for o in ctx.obligations if not o[2]]
        sys.stderr.write('ANALYSIS-ERROR property=%s %s\n' % (pid, e))
        if not bad:
            return 2
        err = str(e)
    except Exception:
        traceback.print_exc()
        return 3
    else:
        err = None
    known = [k for k in load_known() if k['property'] == pid and k.get('status', 'known') == 'known']
    bad = [o for o in ctx.obligations if not o[2]]
    reported, used = [], []
    for o in bad:
        ident = o[0] + '|' + o[1]
        k = next((k for k in known if k['key'] == ident), None)
        if k is not None:
            if k not in used:
                used.append(k)
                print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        else:
            reported.append(o)
    if err and not reported:
        return 2
    rep = os.path.join(HERE, 'evidence', pid + '.violation.txt')
    os.makedirs(os.path.dirname(rep), exist_ok=True)
    if reported:
        with open(rep, 'w') as f:
            f.write('property %s: %d violated obligation(s)\n' % (pid, len(reported)))
            for rule, key, _, where, msg in reported:
                f.write('\nrule:  %s\n       %s\nsite:  %s\nkey:   %s|%s\nfound: %s\n'
                        % (rule, ctx.rules.get(rule, ''), where, rule, key, msg))
            f.write('\nreplay: cd /verif && python3 check.py %s\n' % pid)
    elif os.path.exists(rep):
        os.remove(rep)
    cov = {
        'explanation': meta['explain'],
        'obligations': len(ctx.obligations),
        'discharged': sum(1 for o in ctx.obligations if o[2]),
        'known_findings_matched': len(used),
        'rules': ctx.rules,
        'per_rule': {r: sum(1 for o in ctx.obligations if o[0] == r) for r in sorted({o[0] for o in ctx.obligations})},
        'samples': ctx.samples,
        'translation_units': len(ctx.prog.modules),
        'exhaustive': True,
    }
    cov.update(ctx.counts)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': meta['level'], 'coverage': cov,
          'assumptions': ctx.assumptions + meta.get('assumptions', []), 'wall_s': round(time.time() - t0, 3),
          'violations': len(reported)}
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for rule, key, _, where, msg in reported[:40]:
        print('%s: [%s] %s: %s' % (where, rule, key, msg))
    if reported:
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    print('OK property=%s obligations=%d' % (pid, len(ctx.obligations)))
    return 0

"""D01: a run with a reported error fails and produces no code; a run without one succeeds."""
from ..absint import Policy, mkptr, split, base_of, show, is_c, summaries
from ..program import AnalysisError

COMP = ('comp-reported',)
SAID = ('said',)


# --- macro processor ------------------------------------------------------------------------------------------------

class FlagPol(Policy):
    """A function of the macro parser; calls may report, in which case they leave the error mark behind."""
    max_states = 12000
    cut_after = 40
    joins = True

    def __init__(self, ctx, was, rec, mac):
        self.was, self.rec, self.mac = was, rec, mac
        self.S = summaries(ctx.prog)
        self.wtag = ctx.prog.tag(ctx.prog.module('macro/parser.c'), 'parser', 'was_error')
        self.rtag = ctx.prog.tag(ctx.prog.module('macro/parser.c'), 'parser', 'is_recovery_disabled')
        self.stable = frozenset([was, rec, mac, (COMP, 0, ()), (SAID, 0, ())])

    def cut_back(self, fn):
        return 'always'

    def decide(self, it, st, name, args, fn):
        m = st.mem
        if name in ('macro_verror', 'macro_error', 'macro_system_error'):
            m[(SAID, 0, ())] = (1, 8)
            return 'event'
        if fn is None:
            return 'opaque'
        if fn.mod.path.endswith('macro/computer.c'):
            if name == 'computer_create':
                m[(COMP, 0, ())] = (0, 8)
                return 'opaque'
            if reports(it.prog, fn):
                m[(COMP, 0, ())] = (1, 8)       # it may have reported: the computer knows
            return 'event' if name == 'computer_clear' else 'opaque'
        if self.wtag in self.S.mod[fn]:
            if self.wtag in self.S.direct_mod(fn) and fn.name == 'parser_error':
                return 'inline'
            return 'event'
        return 'opaque'

    def effect(self, it, st, name, args, t):
        fn = it.prog.fn(name, st.frames[-1].fn.mod)
        if fn is None:
            return None
        m = st.mem
        if fn.mod.path.endswith('macro/computer.c'):
            may = m.get((COMP, 0, ()), (0, 8))[0]
            m[(COMP, 0, ())] = (0, 8)
            st.facts.eq[t] = 0
            if not may:
                return None

            def f(s):
                s.facts.eq[t] = -1
                s.mem[(SAID, 0, ())] = (1, 8)
            return [f]
        if self.wtag not in self.S.mod[fn]:
            return None
        w, r = m.get(self.was, (None,))[0], m.get(self.rec, (None,))[0]
        if w == 1:
            if r != 1:
                m[(SAID, 0, ())] = (1, 8)
            return None

        def g(s):
            s.mem[self.was] = (1, 1)
            s.mem[(SAID, 0, ())] = (1, 8)
        return [g]


class StartPol(Policy):
    def decide(self, it, st, name, args, fn):
        return 'event' if name == 'parse_block' else 'opaque'


def check_ends(ctx):
    """The macro parser begins without the mark and tells it at the end of every text."""
    P = ctx.prog
    m = P.module('macro/parser.c')
    was = P.field(m, 'parser', 'was_error')
    f = P.need('parser_create', m)
    bad = '' if f.sret else 'no result'
    for p in ctx.paths(f, StartPol()):
        v = [c for k, c in p.state.mem.items() if k[1] == was and k[0] == ('arg', 0)]
        if p.kind == 'ret' and not (v and v[0][0] == 0) and not invalid(p):
            bad = 'it begins with an error'
    ctx.ob('mark', 'parser_create', not bad, '%s (parser_create)' % m.path, bad)
    f = P.need('parser_preprocess')
    for w in (0, 1):
        cell = (('arg', 0), was, ())
        pol = StartPol()
        pol.stable = frozenset([cell])
        bad, n = '', 0
        for p in ctx.paths(f, pol, mem={cell: (w, 1)}, nonnull=[0, 1]):
            if p.kind != 'ret':
                continue
            n += 1
            k = len([e for e in p.events if e.name == 'parse_block'])
            if not k and truthy(p, p.ret) != 1 or k and truthy(p, p.ret) != w:
                bad = 'the mark is %d, the result is %s' % (w, show(p.ret)[:60])
        ctx.ob('mark', 'parser_preprocess %d' % w, not bad and n, '%s (parser_preprocess)' % m.path, bad or 'no way through')


def invalid(p):
    return any(isinstance(t, tuple) and t[0] == 'call' and t[1].endswith('_is_correct') and truthy(p, t) == 0 for t in list(p.facts.eq))


def reports(P, fn, names=('macro_verror', 'macro_error'), seen=None):
    """fn may reach a reporter."""
    seen = seen if seen is not None else set()
    if fn in seen:
        return False
    seen.add(fn)
    for i in fn.instrs():
        if i.op == 'call' and isinstance(i.x, str):
            if i.x in names:
                return True
            g = P.fn(i.x, fn.mod)
            if g is not None and reports(P, g, names, seen):
                return True
    return False


def truthy(p, v):
    """1, 0, or None when the path does not tell."""
    v = p.facts.eq.get(v, v)
    if is_c(v):
        return int(v != 0)
    if isinstance(v, tuple) and v[0] == 'not':
        t = truthy(p, v[1])
        return None if t is None else 1 - t
    if isinstance(v, tuple) and v[0] == 'cast' and v[1] in ('zext', 'sext', 'trunc'):
        return truthy(p, v[4])
    if isinstance(v, tuple) and v[0] == 'cmp' and v[1] == 'eq' and v[3] == 0:
        t = truthy(p, v[2])
        return None if t is None else 1 - t
    if 0 in p.facts.ne.get(v, ()):
        return 1
    return None


def check_marks(ctx):
    """Every function that touches the error mark keeps it once an error was said."""
    P = ctx.prog
    m = P.module('macro/parser.c')
    S = summaries(P)
    wo, ro = P.field(m, 'parser', 'was_error'), P.field(m, 'parser', 'is_recovery_disabled')
    mo = P.field(m, 'parser', 'is_macro_processed')
    was, rec, mac = [(('arg', 0), o, ()) for o in (wo, ro, mo)]
    wtag = P.tag(m, 'parser', 'was_error')
    n = 0
    for f in sorted(m.functions.values(), key=lambda f: f.name):
        if f.decl or not f.nparams or f.sret:
            continue
        if not (wtag in S.direct_mod(f)):
            continue
        for w0 in (0, 1):
            for r0, m0 in ((0, 0), (0, 1), (1, 0), (1, 1)):
                pol = FlagPol(ctx, was, rec, mac)
                mem = {was: (w0, 1), rec: (r0, 1), mac: (m0, 1), (SAID, 0, ()): (0, 8), (COMP, 0, ()): (0, 8)}
                bad = ''
                k = 0
                try:
                    ps = ctx.paths(f, pol, mem=dict(mem), nonnull=[0])
                except AnalysisError:
                    pol.cut_after = 1
                    ps = ctx.paths(f, pol, mem=dict(mem), nonnull=[0])
                for p in ps:
                    if p.kind not in ('ret', 'cut'):
                        continue
                    k += 1
                    if p.kind == 'cut':
                        continue
                    end, said = p.state.mem[was][0], p.state.mem[(SAID, 0, ())][0]
                    t = truthy(p, end)
                    if f.name == 'parser_disable_recovery':
                        continue
                    if (said or w0) and t != 1:
                        # an error during a search that is over is kept by what is returned: the mark was put aside
                        bad = 'an error %s, but the mark is %s at the end (line %s)' % (
                            'is reported' if said else 'was marked before', show(end)[:60], p.line)
                    if not said and not w0 and t == 1 and not any(e.name.startswith('macro_') for e in p.events):
                        bad = 'the mark is set without an error (line %s)' % p.line
                    if p.state.mem[(COMP, 0, ())][0]:
                        bad = 'an error of an expression is forgotten (line %s)' % p.line
                    if truthy(p, p.state.mem[mac][0]) != m0:
                        bad = 'the macro mode is left changed (line %s)' % p.line
                    if p.state.mem[rec][0] != r0:
                        bad = 'messages stay %s' % ('off' if r0 == 0 else 'on')
                n += 1
                ctx.ob('mark', '%s %d%d%d' % (f.name, w0, r0, m0), not bad and k, '%s (%s)' % (m.path, f.name), bad or 'no way through')
    return n


# --- results handed on -----------------------------------------------------------------------------------------------

class ResPol(Policy):
    """A function that turns the results of others into its own."""
    joins = False
    max_states = 20000

    def __init__(self, names, keep=()):
        self.names, self.keep = names, keep

    def cut_back(self, fn):
        return 'always'

    def decide(self, it, st, name, args, fn):
        if name in self.names or name == '*indirect*':
            return 'event'
        if name in self.keep or fn is None:
            return 'opaque'
        root = st.frames[0].fn
        if fn.mod is root.mod and fn.static and not fn.loops and not fn.sret:
            return 'inline'
        return 'opaque'


# what tells a failure: 'z' a zero result, 'n' any other
TELLS = {'parse': 'n', 'sx_is_correct': 'z', 'macro': 'z', 'macro_to_file': 'n', 'compile_from_io': 'n', 'compile_from_ws': 'n',
         'compile': 'n', 'compile_to_vm': 'n', 'compile_to_llvm': 'n', 'compile_to_mips': 'n', 'macro_form_io': 'n', 'ws_parse': 'n',
         'parser_preprocess': 'n', '*indirect*': 'n', 'print_table': 'n', 'out_extract_buffer': 'z'}
INPUT = {'ws_is_correct': 'z', 'ws_get_files_num': 'z', 'in_is_correct': 'z', 'out_is_correct': 'z', 'out_set_file': 'n', 'out_set_buffer': 'n',
         'parser_is_correct': 'z', 'item_check_var': 'z', 'in_set_buffer': 'n', 'in_set_file': 'n'}


def parts(t):
    """Terms combined by or / choice of a boolean into t."""
    if isinstance(t, tuple):
        if t[0] == 'op' and t[1] == 'or':
            return parts(t[3]) + parts(t[4])
        if t[0] == 'cast' and t[1] in ('zext', 'sext', 'trunc'):
            return parts(t[4])
        if t[0] == 'not' and isinstance(t[1], tuple) and t[1][0] == 'cmp' and t[1][1] == 'eq' and t[1][3] == 0:
            return parts(t[1][2])
    return [t]


def or_of(p, t):
    """1, 0 or None for a combination."""
    v = truthy(p, t)
    if v is not None:
        return v
    vs = [truthy(p, x) for x in parts(t)]
    if 1 in vs:
        return 1
    if all(v == 0 for v in vs):
        return 0
    return None


def handed_on(ctx, fn, inner, success='n', names=None, rounds=2):
    """fn fails exactly when one of the inner results (or an input) tells a failure."""
    names = set(names or ()) | set(inner)
    pol = ResPol(names)
    pol.cut_after = rounds
    where = '%s (%s)' % (fn.mod.path, fn.name)
    bad, n, called = '', 0, set()
    for p in ctx.paths(fn, pol):
        if p.kind != 'ret':
            continue
        n += 1
        fails, open_ = [], []
        for e in p.events:
            if e.name in inner:
                called.add(e.name)
                t = truthy(p, e.res)
                fail = TELLS[e.name] == 'n'
                if t is None:
                    open_.append(e)
                elif t == int(fail):
                    fails.append(e)
        r = p.ret
        rt = or_of(p, r)
        ps = parts(r)
        good = (rt == 0) if success == 'n' else (rt == 1)
        failed = (rt == 1) if success == 'n' else (rt == 0)
        for e in open_:
            if e.res in ps and (TELLS[e.name] == 'n') == (success == 'n'):
                continue        # handed on as it is
            if failed:
                continue
            bad = 'the result of %s is not looked at (line %s)' % (e.name, p.line)
        if fails and not failed:
            bad = '%s failed, but the result is a success (line %s)' % (fails[0].name, p.line)
        if not fails and failed and not troubled(p) and not any(e.res in ps for e in open_):
            bad = 'the result is a failure although nothing failed (line %s)' % p.line
        if not fails and rt is None and not all(any(x == e.res for e in open_) for x in ps if not is_c(x) and truthy(p, x) is None):
            bad = 'the result is something else: %s (line %s)' % (show(r)[:80], p.line)
        later = stages(p)
        if later:
            bad = later
    if not n:
        bad = 'no way through'
    missing = [x for x in inner if x not in called]
    if not bad and missing:
        bad = '%s is never asked' % missing[0]
    ctx.ob('status', fn.name, not bad, where, bad)


ORDER = ['parse', 'sx_is_correct', '*indirect*']


def stages(p):
    """Code is generated only from a text that was parsed without errors, and checked unless only one file is compiled."""
    ev = [e for e in p.events if e.name in ORDER]
    if not any(e.name == 'parse' for e in ev):
        return 'code is generated from a text that was not parsed' if any(e.name == '*indirect*' for e in ev) else ''
    for k, e in enumerate(ev):
        if e.name != '*indirect*':
            continue
        before = ev[:k]
        if not any(x.name == 'parse' and truthy(p, x.res) == 0 for x in before):
            return 'code is generated although parsing failed'
        if not any(x.name == 'sx_is_correct' and truthy(p, x.res) == 1 for x in before) and not flagged(p):
            return 'code is generated although the program is not complete'
    return ''


def flagged(p):
    return any(isinstance(t, tuple) and t[:2] == ('call', 'ws_has_flag') and truthy(p, t) == 1 for t in list(p.facts.eq) + list(p.facts.ne))


def troubled(p):
    """The inputs of the function were no good."""
    for t in list(p.facts.eq) + list(p.facts.ne):
        if isinstance(t, tuple) and t[0] == 'call' and t[1] in INPUT:
            v = truthy(p, t)
            if v is not None and v == int(INPUT[t[1]] == 'n'):
                return True
        if isinstance(t, tuple) and t[0] == 'arg' and p.facts.eq.get(t) == 0:
            return True
    return False


# --- errors counted --------------------------------------------------------------------------------------------------

class CountPol(Policy):
    """The error counter of a syntax structure; what may report may raise it."""
    joins = True
    cut_after = 40
    max_states = 20000

    def __init__(self, ctx, cell, reporters, inl=()):
        self.cell, self.inl, self.reporters = cell, inl, reporters
        self.S = summaries(ctx.prog)
        self.stable = frozenset([cell, (SAID, 0, ())])

    def cut_back(self, fn):
        return 'always'

    def decide(self, it, st, name, args, fn):
        if name in self.reporters or fn is not None and fn in self.reporters or name in ('enc_export', 'print_table'):
            return 'event'
        if name in self.inl:
            return 'inline'
        return 'opaque'

    def keeps(self, st, key):
        # the generators never change which structure they work on (checked: 'kept')
        return st.mem[key][0] == mkptr(self.cell[0], 0)

    def effect(self, it, st, name, args, t):
        fn = it.prog.fn(name, st.frames[-1].fn.mod)
        if fn not in self.reporters or st.mem[self.cell][0] != 0:
            return None

        def g(s):
            s.mem[self.cell] = (1, 8)
        return [g]


def check_counts(ctx):
    """Functions that start from a clean counter end with a failure exactly when it was raised."""
    P = ctx.prog
    S = summaries(P)
    m = P.module('compiler/syntax.c')
    off = P.field(m, 'syntax', 'rprt') + P.field(P.module('compiler/reporter.c'), 'reporter', 'errors')
    rtag = P.tag(P.module('compiler/reporter.c'), 'reporter', 'errors')
    raising = {f for f in S.mod if rtag in S.mod[f]}
    ctx.count('functions_that_may_report', len(raising))
    for nm, path in (('report_error', 'compiler/reporter.c'), ('encoder_error', 'compiler/llvmgen.c')):
        f = P.need(nm, P.module(path))
        ctx.ob('counted', nm, rtag in S.direct_mod(f), '%s (%s)' % (f.mod.path, nm), 'the errors it reports are not counted')
    for name, sx in (('parse', 0), ('encode_to_vm', 1), ('emit_translation_unit', 'compiler/llvmgen.c'), ('emit_translation_unit', 'compiler/mipsgen.c')):
        f = P.need(name, P.module(sx) if isinstance(sx, str) else None)
        mem, inl = {}, ('enc_create', 'reporter_get_errors_number')
        cell = (('arg', sx), off, ())
        if isinstance(sx, str):
            rec = 'information' if 'llvm' in sx else 'encoder'
            cell = (('arg', 5), off, ())
            mem[(('arg', 0), P.field(f.mod, rec, 'sx'), ())] = (mkptr(('arg', 5), 0), 8)
            sx = 0
        reps = {g for g in raising if g.name not in inl and g is not f}
        bad, n = '', 0
        for e0 in (0, 1):
            if name == 'parse' and e0:
                continue
            pol = CountPol(ctx, cell, reps, inl)
            pol.stable |= set(mem)
            for p in ctx.paths(f, pol, mem=mem | {cell: (e0, 8)}, nonnull=[0, sx]):
                if p.kind != 'ret':
                    continue
                n += 1
                end = p.state.mem[cell][0]
                exp = [e for e in p.events if e.name == 'enc_export']
                r = truthy(p, p.ret)
                if end:
                    if r != 1:
                        bad = 'errors were reported, but the result is %s (line %s)' % (show(p.ret)[:60], p.line)
                    if exp:
                        bad = 'codes are written although errors were reported (line %s)' % p.line
                elif name == 'encode_to_vm' and not troubled(p) and (len(exp) != 1 or (exp[0].res not in parts(p.ret))):
                    bad = 'the codes are not written, or how that went is not looked at (line %s)' % p.line
                elif r != 0 and not troubled(p) and not exp:
                    bad = 'nothing was reported, but the result is %s (line %s)' % (show(p.ret)[:60], p.line)
        ctx.ob('counted', f.mod.path.split('/')[-1] + ' ' + name, not bad and n, '%s (%s)' % (f.mod.path, name), bad or 'no way through')
    for name, path in (('encode_to_llvm', 'compiler/llvmgen.c'), ('encode_to_mips', 'compiler/mipsgen.c')):
        f = P.need(name, P.module(path))
        unit = P.need('emit_translation_unit', f.mod)
        pol = ResPol({g.name for g in raising} | {'emit_translation_unit'})
        bad, n = '', 0
        for p in ctx.paths(f, pol, nonnull=[1]):
            if p.kind != 'ret' or troubled(p):
                continue
            n += 1
            k = [j for j, e in enumerate(p.events) if e.name == unit.name]
            if len(k) != 1 or k[0] != len(p.events) - 1:
                bad = 'the unit is not generated once, or something may be reported after it (line %s)' % p.line
            elif p.events[k[0]].res not in parts(p.ret):
                bad = 'how the generation went is not looked at (line %s)' % p.line
        ctx.ob('counted', name, not bad and n, '%s (%s)' % (f.mod.path, name), bad or 'no way through')
    for path, rec in (('compiler/llvmgen.c', 'information'), ('compiler/mipsgen.c', 'encoder'), ('compiler/codegen.c', 'encoder')):
        mod = P.module(path)
        tag = P.tag(mod, rec, 'sx')
        who = [f.name for f in mod.functions.values() if not f.decl and tag in S.direct_mod(f) and not f.name.startswith('encode_to') and not f.sret]
        ctx.ob('counted', 'kept ' + path, not who, path, 'the structure is replaced in ' + ', '.join(who))
    # who writes the counter
    for f in sorted(raising, key=lambda f: (f.mod.path, f.name)):
        if rtag not in S.direct_mod(f):
            continue
        bad, n = '', 0
        for p in ctx.paths(f, WritePol(rtag), nonnull=[0]):
            if p.kind != 'ret':
                continue
            n += 1
            seen = p.state.user or ()
            if f.sret or f.name == 'reporter_create':
                if seen != (0,):
                    bad = 'counting does not begin at zero'
                continue
            said = [e for e in p.events if e.name in ('verror', 'system_error', 'error')]
            if any(v != 'up' for v in seen):
                bad = 'the counter is set to %s' % show([v for v in seen if v != 'up'][0])[:60]
            elif len(seen) != len(said):
                bad = '%d errors are reported, %d counted (line %s)' % (len(said), len(seen), p.line)
        ctx.ob('counted', 'writes ' + f.name, not bad and n, '%s (%s)' % (f.mod.path, f.name), bad or 'no way through')


class WritePol(Policy):
    joins = False

    def __init__(self, tag):
        self.tag = tag

    def cut_back(self, fn):
        return True

    def decide(self, it, st, name, args, fn):
        return 'event' if name in ('verror', 'vwarning', 'system_error', 'error') else 'opaque'

    def on_store(self, it, st, addr, val, ty, ins):
        if it.tag_of(st.frames[-1], ins.ops[1]) == self.tag:
            old = it.load(st, addr, ty, self.tag)
            up = isinstance(val, tuple) and val[0] == 'op' and val[1] == 'add' and (val[3], val[4]) in ((old, 1), (1, old))
            st.user = (st.user or ()) + ('up' if up else val,)


class SitePol(Policy):
    """Where an error is reported past the counter."""
    joins = False
    cut_after = 1
    max_states = 40000

    def __init__(self, tag, quiet, watch):
        self.tag, self.quiet, self.watch = tag, quiet, watch

    def cut_back(self, fn):
        return 'always'

    def decide(self, it, st, name, args, fn):
        if name in self.watch:
            if is_c(args[self.watch[name]]) and args[self.watch[name]] not in self.quiet:
                st.user = ('said', args[self.watch[name]], False)
                return 'event'
            return 'opaque'
        return 'opaque'

    def on_store(self, it, st, addr, val, ty, ins):
        if st.user and st.user[0] == 'said' and it.tag_of(st.frames[-1], ins.ops[1]) == self.tag:
            st.user = ('said', st.user[1], True)


def check_sites(ctx):
    """An error reported past the counter raises it, or makes the function fail."""
    P = ctx.prog
    rtag = P.tag(P.module('compiler/reporter.c'), 'reporter', 'errors')
    m = P.module('compiler/errors.c')
    quiet = {P.ev(m, 'node_unexpected')}
    names = {v: k for k, v in P.enum(m, 'err_t').items()}
    fails = {'sx_is_correct': 0, 'print_table': 1}
    for mod in P.modules.values():
        if '/compiler/' not in mod.path or mod is m:
            continue
        for f in sorted(mod.functions.values(), key=lambda f: f.name):
            if f.decl or not any(i.op == 'call' and i.x in ('system_error', 'error') for i in f.instrs()):
                continue
            if all(i.ops[0] in quiet for i in f.instrs() if i.op == 'call' and i.x == 'system_error') and \
                    not any(i.op == 'call' and i.x == 'error' for i in f.instrs()):
                continue
            bad, n = '', 0
            if rtag in summaries(P).direct_mod(f):
                continue            # it counts what it reports, see above
            for p in ctx.paths(f, SitePol(rtag, quiet, {'system_error': 0, 'error': 1})):
                if p.kind not in ('ret', 'back') or not p.state.user:
                    continue
                n += 1
                _, code, counted = p.state.user
                if counted:
                    continue
                r = truthy(p, p.ret) if p.ret is not None else None
                if f.name in fails and r == fails[f.name]:
                    continue
                bad = '%s is reported (line %s), but neither counted nor returned as a failure' % (names.get(code, code), p.line)
            ctx.ob('counted', 'site ' + f.name, not bad, '%s (%s)' % (f.mod.path, f.name), bad)


class WholePol(Policy):
    cut_after = 4

    def __init__(self, ref):
        self.stable = frozenset([ref])

    def cut_back(self, fn):
        return 'always'

    def decide(self, it, st, name, args, fn):
        if name in ('vector_get', 'system_error'):
            return 'event'
        return 'inline' if name == 'reporter_get_errors_number' else 'opaque'


def check_whole(ctx):
    """A program is complete exactly when main is there and no declaration is left without its definition."""
    P = ctx.prog
    f = P.need('sx_is_correct')
    m = f.mod
    codes = P.enum(P.module('compiler/errors.c'), 'err_t')
    err = P.field(m, 'syntax', 'rprt') + P.field(P.module('compiler/reporter.c'), 'reporter', 'errors')
    ref, pre = (('arg', 0), P.field(m, 'syntax', 'ref_main'), ()), mkptr(('arg', 0), P.field(m, 'syntax', 'predef'))
    bad, longest = '', 0
    for r in (0, 4):
        for p in ctx.paths(f, WholePol(ref), mem={ref: (r, 8), (('arg', 0), err, ()): (0, 8)}, nonnull=[0]):
            if p.kind != 'ret':
                continue
            left, done = [], False
            gets = [e for e in p.events if e.name == 'vector_get' and e.extra[0] == pre]
            n = len({e.extra[1] for e in gets})
            if {e.extra[1] for e in gets} != set(range(n)):
                bad = 'not every declaration is looked at (line %s)' % p.line
            longest = max(n, longest)
            for k, v in list(p.facts.eq.items()):
                # the end of the list: index n is not below its size
                if isinstance(k, tuple) and k[0] == 'cmp' and 'vector_size' in repr(k) and n in (k[2], k[3]):
                    done |= (k[1] in ('ult', 'slt') and k[2] == n and v == 0) or (k[1] in ('ugt', 'sgt') and k[3] == n and v == 0) \
                        or (k[1] == 'eq' and v == 1) or (k[1] in ('ule', 'sle') and k[3] == n and v == 1) or (k[1] in ('uge', 'sge') and k[2] == n and v == 1)
            done |= any(v == n and 'vector_size' in repr(k) for k, v in p.facts.eq.items())
            left = {e.extra[1] for e in gets if truthy(p, e.res) == 1}
            said = [e.extra[0] for e in p.events if e.name == 'system_error']
            t = truthy(p, p.ret)
            fine = r != 0 and not left
            if t != int(fine):
                bad = 'main %s, %d declarations left: the program is %s' % ('there' if r else 'missing', len(left), 'accepted' if t else 'refused')
            elif (codes['no_main_in_program'] in said) != (r == 0) or said.count(codes['predef_but_notdef']) != len(left):
                bad = 'what is missing is not reported (line %s)' % p.line
            elif not done and t:
                bad = 'not every declaration is looked at (line %s)' % p.line
    ctx.ob('whole', 'sx_is_correct', not bad and longest >= 2, '%s (sx_is_correct)' % m.path, bad or 'the list of declarations is not walked')


def check_status(ctx):
    ctx.rule('whole', 'a program is complete exactly when main is there and no declaration is left without its definition')
    ctx.rule('mark', 'the macro processor remembers every error it reports, and marks none it does not report')
    ctx.rule('counted', 'every error of the compiler is counted, and a raised counter is a failure without code')
    ctx.rule('status', 'a step fails exactly when one of the steps it consists of failed')
    P = ctx.prog
    check_marks(ctx)
    check_ends(ctx)
    check_counts(ctx)
    check_sites(ctx)
    check_whole(ctx)
    comp, mac = P.module('compiler/compiler.c'), P.module('macro/macro.c')
    handed_on(ctx, P.need('compile_from_io', comp), ('parse', 'sx_is_correct', '*indirect*'))
    handed_on(ctx, P.need('compile_from_ws', comp), ('macro', 'macro_to_file', 'compile_from_io'))
    for k in ('vm', 'llvm', 'mips'):
        handed_on(ctx, P.need('compile_to_' + k), ('compile_from_ws',))
        handed_on(ctx, P.need('auto_compile_to_' + k), ('compile_to_' + k,))
        handed_on(ctx, P.need('no_macro_compile_to_' + k), ('compile_from_io',))
    handed_on(ctx, P.need('compile'), ('compile_to_vm', 'compile_to_llvm', 'compile_to_mips'))
    handed_on(ctx, P.need('auto_compile'), ('compile',))
    handed_on(ctx, P.need('main', P.module('src/main.c')), ('compile',))
    handed_on(ctx, P.need('macro_form_io', mac), ('ws_parse', 'parser_preprocess'), rounds=3)
    handed_on(ctx, P.need('macro_to_file'), ('macro_form_io',))
    handed_on(ctx, P.need('macro'), ('macro_form_io', 'out_extract_buffer'), success='z')
    handed_on(ctx, P.need('enc_export', P.module('compiler/codegen.c')), ('print_table',))

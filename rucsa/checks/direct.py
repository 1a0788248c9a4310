"""P02 preprocessor directives: exactly one branch of a conditional, loops, nesting of skipped blocks, spellings."""
from ..absint import Policy, is_c, show, split
from ..program import AnalysisError

FILE = 'libs/macro/parser.c'
OUT, POS = (('outs',), 0, ()), (('pos',), 0, ())
COND = ('IF', 'IFDEF', 'IFNDEF', 'ELIF')
WORDS = [('include', 'подключить', 'INCLUDE'), ('line', 'строка', 'LINE'), ('define', 'определить', 'DEFINE'), ('set', 'переопределить', 'SET'),
         ('undef', 'разопределить', 'UNDEF'), ('macro', 'макро', 'MACRO'), ('endm', 'конецм', 'ENDM'), ('ifdef', 'еслибыл', 'IFDEF'),
         ('ifndef', 'еслинебыл', 'IFNDEF'), ('if', 'если', 'IF'), ('elif', 'инесли', 'ELIF'), ('else', 'иначе', 'ELSE'),
         ('endif', 'конецесли', 'ENDIF'), ('eval', 'вычислить', 'EVAL'), ('while', 'пока', 'WHILE'), ('endw', 'конецп', 'ENDW')]


class KW:
    def __init__(self, ctx):
        P = ctx.prog
        self.ctx, self.P = ctx, P
        self.mod = P.need('parser_preprocess').mod
        self.v = {n[3:]: v for n, v in P.enum(self.mod, 'KEYWORD').items() if n.startswith('KW_')}
        self.non = P.ev(self.mod, 'NON_KEYWORD')
        self.err = P.ev(self.mod, 'ERROR_KEYWORD')
        self.n = {v: k for k, v in self.v.items()}
        self.n[self.non] = 'NON'
        self.n[self.err] = 'ERROR'
        self.e = P.enum(self.mod, 'ERROR')
        self.ef = {v: k for k, v in self.e.items()}
        f = lambda n: P.field(self.mod, 'parser', n)
        self.io, self.stg, self.loc, self.prev, self.inc, self.call = (f(n) for n in ('io', 'stg', 'loc', 'prev', 'include', 'call'))
        self.flags = {n: f(n) for n in ('is_recovery_disabled', 'is_line_required', 'is_macro_processed', 'was_error')}

    def follows(self, b):
        """What may end a block opened by b."""
        if b in COND:
            return ['ELIF', 'ELSE', 'ENDIF', 'NON']
        return {'ELSE': ['ENDIF', 'NON'], 'WHILE': ['ENDW', 'NON'], 'MACRO': ['ENDM', 'NON']}.get(b, ['NON'])


EV = {'parse_expression', 'parse_block', 'skip_block', 'skip_directive', 'parse_extra', 'parse_name', 'parser_error', 'parser_warning',
      'storage_search', 'storage_add_by_io', 'storage_set_by_index', 'storage_set_args_by_index', 'storage_remove_by_index', 'parse_args',
      'parse_content', 'skip_until', 'skip_lines', 'uni_scan_char', 'linker_search_internal', 'linker_search_external', 'linker_add_header',
      'parser_preprocess', 'parse_until', 'uni_printf', 'uni_print_char', 'skip_string', 'parse_directive', 'skip_macro', 'uni_unscan_char',
      'loc_update_begin', 'skip_expression'}
READS = {'parse_expression', 'parse_block', 'skip_block', 'skip_directive', 'storage_search', 'storage_add_by_io', 'parse_args',
         'parse_content', 'skip_until', 'skip_lines', 'uni_scan_char', 'parse_until', 'skip_string', 'parse_directive', 'skip_macro', 'parse_name',
         'skip_expression'}


class DirPol(Policy):
    """One directive: what is read, processed, skipped, stored and reported; results are split into all cases."""
    max_states = 60000
    cut_after = 10
    blocks = 4

    def cut_back(self, fn):
        return 'always'

    def __init__(self, k, root, kw=None, begin=None, want=()):
        self.k, self.root, self.kw = k, root, kw
        self.prs = ('arg', 0)
        c = lambda o: (self.prs, o, ())
        self.iocell = c(k.io)
        self.stable = frozenset([OUT, POS, c(k.io), c(k.stg), c(k.loc), c(k.prev), c(k.inc), c(k.call), c(k.flags['is_macro_processed'])])

    def rec_event(self, name):
        return True

    def outof(self, st, io):
        for a, v in st.mem[OUT][0]:
            if a == io:
                return v
        return ('out', io)

    def setout(self, st, io, v):
        st.mem[OUT] = (tuple((a, w) for a, w in st.mem[OUT][0] if a != io) + ((io, v),), 8)

    def decide(self, it, st, name, args, fn):
        if name == 'out_swap':
            if args[0] != 0 and args[1] != 0:
                a, b = self.outof(st, args[0]), self.outof(st, args[1])
                self.setout(st, args[0], b)
                self.setout(st, args[1], a)
            return ('value', 0)
        if name == 'io_create':
            self.setout(st, args[0], None) if args else None
            return 'opaque'
        if name == 'out_set_buffer':
            self.setout(st, args[0], ('buffer', args[0]))
            return ('value', 0)
        if name == 'out_clear':
            self.setout(st, args[0], None)
            return ('value', 0)
        if name == 'out_extract_buffer':
            v = self.outof(st, args[0])
            self.setout(st, args[0], None)
            return ('value', ('text', v) if v is not None else 0)
        if name == 'out_is_correct':
            return ('value', 1 if self.outof(st, args[0]) is not None else 0)
        if name == 'in_get_position':
            return ('value', st.mem[POS][0])
        if name == 'in_set_position':
            st.mem[POS] = (args[1], 8)
            return ('value', 0)
        if name == 'parse_directive' and any(e.name == name for e in st.events):
            return 'cut'
        if name in ('parse_block', 'skip_block') and len(st.frames) >= 1:
            if sum(1 for e in st.events if e.name in ('parse_block', 'skip_block')) >= self.blocks:
                return 'cut'
            return 'event'
        if name in EV:
            return 'event'
        if fn is None or fn.mod is not self.k.mod or name == 'parse_location':
            return 'opaque'
        return 'inline'

    def capture(self, it, st, name, args):
        io = st.mem.get(self.iocell)
        io = io[0] if io else None
        stg = st.mem.get((self.prs, self.k.stg, ()))
        return dict(out=self.outof(st, io), pos=st.mem[POS][0], io=io, stg=stg[0] if stg else None,
                    flags={n: st.mem.get((self.prs, o, ())) for n, o in self.k.flags.items()})

    def effect(self, it, st, name, args, t):
        k = self.k
        if name in READS:
            st.mem[POS] = (('after', len(st.events)), 8)
        if name in ('parse_block', 'skip_block'):
            b = k.n.get(args[1] if is_c(args[1]) else st.facts.eq.get(args[1]))
            vals = [k.v.get(x, k.non) for x in k.follows(b)]
        elif name == 'parse_directive':
            vals = [self.kw] if self.kw is not None else list(k.v.values()) + [k.non, k.err]
        elif name == 'parse_name':
            vals = [0, 1]
        else:
            return None
        st.facts.eq[t] = vals[0]
        return [lambda s, v=v: s.facts.eq.__setitem__(t, v) for v in vals[1:]]

    def assume(self, it, st, t):
        return None


def case(p, t):
    """The value of a term on the path, as far as it is known."""
    return t if is_c(t) else p.facts.eq.get(t)


def zero(p, t):
    if is_c(t):
        return t == 0
    if p.facts.eq.get(t) is not None:
        return p.facts.eq[t] == 0
    if 0 in p.facts.ne.get(t, ()):
        return False
    for c, v in p.facts.log:
        if isinstance(c, tuple) and c[0] == 'cmp' and t in c[2:4] and 0 in c[2:4] and c[1] in ('eq', 'ne'):
            return bool(v) == (c[1] == 'eq')
    return None


def missing(p, t):
    """The name looked up is not defined (the index is the greatest number)."""
    m = -1
    for s in (t,):
        if s in p.facts.eq:
            return p.facts.eq[s] in (-1, (1 << 64) - 1)
        if any(x in (-1, (1 << 64) - 1) for x in p.facts.ne.get(s, ())):
            return False
    return None


class Walk:
    """The sequence of steps of one directive."""
    def __init__(self, k, p):
        self.k, self.p = k, p
        self.ev = [e for e in p.events if e.name not in ('parse_extra', 'parser_warning', 'uni_printf', 'loc_update_begin', 'uni_print_char')]
        self.i = 0

    def next(self):
        e = self.ev[self.i] if self.i < len(self.ev) else None
        self.i += 1
        return e

    def peek(self):
        return self.ev[self.i] if self.i < len(self.ev) else None


REAL = ('real',)


def conditional(k, p, kw, cut):
    """What is wrong with the path through #if / #ifdef / #ifndef, None if nothing is."""
    w = Walk(k, p)
    w.next()    # the directive itself
    taken = False
    state = kw
    if kw != 'IF':
        e = w.next()
        if e is None or e.name != 'parse_name':
            return 'the name is not read'
        if case(p, e.res):
            e = w.next()
            if e is None or e.name != 'storage_search':
                return 'the name is not looked up'
            miss = missing(p, e.res)
            if e.cap['stg'] != e.args[0]:
                return 'the name is looked up in another table'
        else:
            miss = None
            taken = True
        choose = None if taken else (not miss if kw == 'IFDEF' else miss) if miss is not None else 'any'
    else:
        choose = 'expr'
    while True:
        if choose == 'expr':
            e = w.next()
            if e is None:
                return None if cut else 'the condition is not evaluated'
            if e.name != 'parse_expression':
                return 'the condition is not evaluated but %s is called' % e.name
            z = zero(p, e.res)
            choose = 'any' if z is None else not z
        # the rest of the line goes, then the block
        e = w.next()
        if e is None and cut:
            return None
        if e is None or e.name not in ('skip_directive', 'skip_expression'):
            return 'the rest of the line of #%s is not skipped' % state.lower()
        e = w.next()
        if e is None:
            return None if cut else 'the block of #%s is left out' % state.lower()
        if e.name not in ('parse_block', 'skip_block'):
            return '%s instead of the block of #%s' % (e.name, state.lower())
        b = k.n.get(case(p, e.args[1]))
        if not (b == state or b in COND and state in COND):
            return 'the block of #%s is read as that of #%s' % (state.lower(), str(b).lower())
        if e.name == 'parse_block':
            if choose is None or choose is False or taken:
                return 'the block of #%s is processed%s' % (state.lower(), ' although another one has been' if taken else ' although it is not chosen')
            if choose == 'any':
                return 'whether the block of #%s is processed does not depend on its condition' % state.lower()
            if e.cap['out'] != REAL:
                return 'the block of #%s is processed without its output' % state.lower()
            taken = True
        else:
            if choose is True and not taken:
                return 'the block of #%s is skipped although it is chosen' % state.lower()
            if choose == 'any' and not taken:
                return 'whether the block of #%s is processed does not depend on its condition' % state.lower()
            if e.cap['out'] is not None:
                return 'the skipped block of #%s has an output' % state.lower()
        r = k.n.get(case(p, e.res))
        if r in ('ELIF', 'ELSE'):
            state = r
            choose = None if taken else 'expr' if r == 'ELIF' else True
            continue
        rest = w.ev[w.i:]
        if cut and not rest:
            return None
        errs = [x for x in rest if x.name == 'parser_error']
        if r == 'NON':
            return None if errs and errs[0].args[2] == k.e['DIRECTIVE_UNTERMINATED'] else 'a block without an end is not reported'
        if errs:
            return 'a complete conditional is reported as an error'
        return ending(p, rest, e)


def ending(p, rest, e):
    if [x.name for x in rest if x.name != 'skip_expression'] != ['skip_directive']:
        return 'the line behind the block is not skipped: %s' % [x.name for x in rest]
    d = [x for x in rest if x.name == 'skip_directive'][0]
    if d.cap['out'] != REAL:
        return 'the output is not given back'
    return None


def loop(k, p, cut):
    w = Walk(k, p)
    w.next()
    e = w.next()
    if e is None or e.name != 'parse_expression':
        return 'the condition is not evaluated'
    start = e.cap['pos']
    first = True
    last = None
    while True:
        z = zero(p, e.res)
        if z is None:
            return 'the condition does not decide'
        if z and not first:
            break
        e = w.next()
        if e is None or e.name not in ('skip_directive', 'skip_expression'):
            return 'the rest of the line of #while is not skipped'
        e = w.next()
        if e is None:
            return None if cut else 'the block is left out'
        if e.name not in ('parse_block', 'skip_block') or k.n.get(case(p, e.args[1])) != 'WHILE':
            return '%s instead of the block of the loop' % e.name
        if (e.name == 'skip_block') != z:
            return 'the block is %s although the condition is %s' % (('skipped', 'true') if z is False else ('processed', 'false'))
        if e.name == 'parse_block' and e.cap['out'] != REAL:
            return 'the block is processed without its output'
        if e.name == 'skip_block' and e.cap['out'] is not None:
            return 'the skipped block has an output'
        last = e
        r = k.n.get(case(p, e.res))
        if r != 'ENDW':
            rest = [x for x in w.ev[w.i:] if x.name == 'parser_error']
            return None if rest and rest[0].args[2] == k.e['DIRECTIVE_UNTERMINATED'] else 'a loop without an end is not reported'
        if z:
            return ending(p, w.ev[w.i:], e)
        e = w.next()
        if e is None and cut:
            return None
        if e is not None and e.name == 'parser_error' and e.args[2] == k.e['ITERATION_MAX']:
            return 'the limit of iterations is reached after %d' % sum(1 for x in p.events if x.name == 'parse_block')
        if e is not None and e.name == 'skip_directive' and not (z is False and failed(k, p)):
            return 'the loop ends although its condition has not been evaluated'
        if e is not None and e.name == 'skip_directive':
            return None if e.cap['pos'] == ('after', p.events.index(last) + 1) else 'reading goes on at another place than behind the loop'
        if e is None or e.name != 'parse_expression':
            return 'the condition is not evaluated again'
        if e.cap['pos'] != start:
            return 'the condition is not read where it stands'
        first = False
    rest = [x for x in w.ev[w.i:] if x.name != 'skip_expression']
    if [x.name for x in rest] != ['skip_directive']:
        return 'the line behind the loop is not skipped: %s' % [x.name for x in rest]
    if rest[0].cap['out'] != REAL:
        return 'the output is not given back'
    if rest[0].cap['pos'] != ('after', p.events.index(last) + 1):
        return 'reading goes on at another place than behind the loop'
    return None


def failed(k, p):
    """The path has seen the error flag raised."""
    o = k.flags['was_error']
    return any(v and 'was' and repr(('ptr', ('arg', 0), o, ())) in repr(c) for c, v in p.facts.log)


def run(ctx, k, fname, kw, args, mem=(), **kws):
    fn = ctx.prog.need(fname, k.mod)
    pol = DirPol(k, fname, kw)
    for n, v in kws.items():
        setattr(pol, n, v)
    m = {OUT: (((('io',), REAL),), 8), POS: (('start',), 8), (('arg', 0), k.io, ()): (('io',), 8), (('arg', 0), k.stg, ()): (('stg',), 8)}
    m.update(mem)
    return [p for p in ctx.paths(fn, pol, mem=m, args=args, nonnull=[0]) if p.kind in ('ret', 'cut')]


def check_directives(ctx):
    ctx.rule('branch', 'of a conditional exactly the first block whose condition holds, or else that of #else, is processed; the others '
                       'are skipped without output')
    ctx.rule('loop', 'the block of #while is processed as long as its condition, evaluated anew each time, is not zero')
    ctx.rule('end', 'a block is ended by the directives that belong to it; others, and a missing end, are reported')
    ctx.rule('nested', 'in a skipped block every directive that opens a block is skipped up to its own end')
    ctx.rule('dispatch', 'a directive is handled as the one it names')
    ctx.rule('spelling', 'every directive has its English and Russian names in lower and upper case')
    k = KW(ctx)
    P = ctx.prog
    for kw in ('IF', 'IFDEF', 'IFNDEF', 'WHILE'):
        ps = run(ctx, k, 'parse_block', k.v[kw], {1: k.non})
        ctx.need(len(ps) > 4, 'no path through #%s' % kw)
        seen = {}
        for p in ps:
            # the walk of parse_block goes on with the next line, or ends with the text
            if not p.events or p.events[0].name != 'parse_directive':
                continue
            cut = p.kind == 'cut' and not (isinstance(p.ret, tuple) and p.ret[:2] == ('at', 'parse_directive'))
            bad = conditional(k, p, kw, cut) if kw != 'WHILE' else loop(k, p, cut)
            key = ' '.join(filter(None, (word(k, p, e) for e in p.events[1:])))
            seen[key] = seen.get(key) or bad
        for key, bad in sorted(seen.items()):
            ctx.ob('loop' if kw == 'WHILE' else 'branch', '#%s: %s' % (kw.lower(), key), bad is None, FILE + ' (parse_block)', bad or '')
    check_next(ctx, k)
    check_skip(ctx, k)
    check_words(ctx, k)
    check_dispatch(ctx, k)
    ctx.minimum('branch', 60)
    ctx.minimum('loop', 5)


def word(k, p, e):
    if e.name in ('parse_block', 'skip_block'):
        return '%s(%s)=%s' % (e.name[:-6], k.n.get(case(p, e.args[1])), k.n.get(case(p, e.res)))
    if e.name == 'parse_expression':
        return 'condition=%s' % {True: '0', False: '1', None: '?'}[zero(p, e.res)]
    if e.name == 'parse_name':
        return 'name' if case(p, e.res) else 'no name'
    if e.name == 'storage_search':
        return {True: 'undefined', False: 'defined', None: 'any'}[missing(p, e.res)]
    if e.name == 'parser_error':
        return 'error'
    if e.name == 'skip_directive':
        return ''
    return None


def check_next(ctx, k):
    """Which directives end a block: asked of the reader of processed and of skipped blocks."""
    opens = ['IFDEF', 'IFNDEF', 'IF', 'ELIF', 'ELSE', 'WHILE', 'MACRO', None]
    ends = ['ELIF', 'ELSE', 'ENDIF', 'ENDW', 'ENDM']
    for fname in ('parse_block', 'skip_block'):
        for b in opens:
            if fname == 'skip_block' and b is None or fname == 'parse_block' and b == 'MACRO':
                continue
            for n in ends:
                ps = run(ctx, k, fname, k.v[n], {1: k.v.get(b, k.non)})
                want = n in k.follows(b)
                bad = None
                for p in ps:
                    errs = [e for e in p.events if e.name == 'parser_error']
                    ended = p.kind == 'ret' and case(p, p.ret) == k.v[n]
                    if want and (errs or not ended):
                        bad = 'does not end the block'
                    elif not want and (ended or not errs):
                        bad = 'is not reported'
                    elif not want and not any(e.name == 'skip_directive' for e in p.events):
                        bad = 'is not left behind'
                ctx.ob('end', '%s #%s in #%s' % (fname[:-6], n.lower(), str(b).lower()), ps and bad is None, '%s (%s)' % (FILE, fname), bad or '')


def check_skip(ctx, k):
    mp = (('arg', 0), k.flags['is_macro_processed'], ())
    for b in ('IF', 'ELSE', 'WHILE', 'MACRO'):
        for n in list(k.v) + ['NON', 'ERROR']:
            if n in ('ELIF', 'ELSE', 'ENDIF', 'ENDW', 'ENDM'):
                continue
            for macro in (0, 1):
                v = k.v.get(n, k.non if n == 'NON' else k.err)
                ps = run(ctx, k, 'skip_block', v, {1: k.v[b]}, mem={mp: (macro, 1)})
                bad = None
                for p in ps:
                    bad = bad or skipped(k, p, n, b, macro)
                ctx.ob('nested', '#%s in a skipped #%s%s' % (n.lower(), b.lower(), ' of a macro' if macro else ''), ps and bad is None,
                       FILE + ' (skip_block)', bad or '')


def skipped(k, p, n, b, macro):
    ev = [e for e in p.events if e.name in ('skip_block', 'skip_directive', 'skip_macro', 'parser_error', 'parse_block', 'parse_until', 'parse_expression',
                                            'storage_set_by_index', 'storage_add_by_io', 'storage_remove_by_index', 'parser_preprocess')]
    cut = p.kind == 'cut' and not (isinstance(p.ret, tuple) and p.ret[:2] == ('at', 'parse_directive'))
    for e in ev:
        if e.name not in ('skip_block', 'skip_directive', 'skip_macro', 'parser_error'):
            return '%s while skipping' % e.name
    opener = n in ('IF', 'IFDEF', 'IFNDEF', 'WHILE', 'MACRO')
    state = n
    i = 0
    while True:
        if i >= len(ev):
            return None if cut else 'the line is not skipped'
        if ev[i].name not in ('skip_directive', 'skip_macro'):
            return 'the line of #%s is not skipped' % state.lower()
        i += 1
        if not opener:
            return None if i == len(ev) else 'more than its line is skipped'
        if i >= len(ev):
            return None if cut else 'the block of #%s is not skipped to its end' % state.lower()
        e = ev[i]
        i += 1
        if e.name != 'skip_block' or not (k.n.get(case(p, e.args[1])) == state or k.n.get(case(p, e.args[1])) in COND and state in COND):
            return 'the block of #%s is not skipped to its end' % state.lower()
        r = k.n.get(case(p, e.res))
        if r == 'NON':
            return None if cut or any(x.name == 'parser_error' for x in ev[i:]) else 'a block without an end is not reported'
        if r in ('ENDIF', 'ENDW', 'ENDM'):
            rest = [x.name for x in ev[i:]]
            return None if rest in (['skip_directive'], ['skip_macro']) or cut and not rest else 'the line of its end is not skipped'
        state = r


ACTS = {'parse_block', 'skip_block', 'parse_until', 'parse_expression', 'storage_set_by_index', 'storage_add_by_io', 'storage_remove_by_index',
        'parser_preprocess', 'parse_name', 'storage_search'}


def check_dispatch(ctx, k):
    """Lines that are no directives are text; #line is left out; #eval prints the value of its expression."""
    for n, v in (('NON', k.non), ('ERROR', k.err), ('LINE', k.v['LINE']), ('EVAL', k.v['EVAL'])):
        ps = run(ctx, k, 'parse_block', v, {1: k.non})
        bad = None
        for p in ps:
            acts = [e for e in p.events if e.name in ACTS]
            names = [e.name for e in acts]
            last = [e for e in p.events if e.name in ('parse_until', 'skip_directive')]
            if n in ('NON', 'ERROR'):
                if names != ['parse_until'] or acts[0].cap['out'] != REAL:
                    bad = 'the line is not copied as text: %s' % names
            elif n == 'LINE':
                if names or len(last) != 1:
                    bad = 'the line is not left out: %s' % names
            else:
                pr = [e for e in p.events if e.name == 'uni_printf']
                if names != ['parse_expression'] or len(pr) != 1 or pr[0].cap['out'] != REAL or pr[0].args[2:] != (acts[0].res,) or len(last) != 1:
                    bad = 'the value of the expression is not what is printed'
        ctx.ob('dispatch', {'NON': 'text', 'ERROR': 'a line with a reported directive'}.get(n, '#' + n.lower()), ps and bad is None,
               FILE + ' (parse_block)', bad or '')


def check_words(ctx, k):
    from .lex import tables
    P = ctx.prog
    fn = P.need('kw_add')
    pol = WordsPol()
    ps = [p for p in ctx.paths(fn, pol, nonnull=[0]) if p.kind == 'ret']
    best = max(ps, key=lambda p: len(p.events)) if ps else None
    ctx.need(best is not None, 'the table of directives is not built')
    first = {}
    for e in best.events:
        if e.name in ('map_add_by_utf8', 'map_add') and e.cap is not None:
            first.setdefault(e.cap, e)
    for eng, rus, kw in WORDS:
        for s in (eng, eng.upper(), rus, rus.upper()):
            e = first.get('#' + s)
            ctx.ob('spelling', '#' + s, e is not None and e.args[2] == k.v[kw], e.where() if e else 'libs/macro/keywords.c (kw_add)',
                   'is %s' % (k.n.get(e.args[2]) if e else 'no directive'))
    ctx.ob('spelling', 'no others', len(first) == 4 * len(WORDS), 'libs/macro/keywords.c (kw_add)', '%d spellings' % len(first))


class WordsPol(Policy):
    events = frozenset(['map_add_by_utf8', 'map_add'])
    opaque = frozenset(['map_is_correct'])
    unroll = 2000

    def capture(self, it, st, name, args):
        from .lex import read_wide
        return read_wide(it, st, args[1]) if name == 'map_add_by_utf8' else read_wide(it, st, args[1], 8)

    def assume(self, it, st, t):
        if t[1] == 'map_is_correct':
            return 1
        if t[1] in ('map_add_by_utf8', 'map_add'):
            return 7

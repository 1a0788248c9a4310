"""F08 identifiers: what a name stands for, scopes, repeated declarations, type names."""
from ..absint import Interp, Policy, base_of, is_c, mkptr, show, split, uns
from ..program import AnalysisError
from .parse import K
from .stmt import WordPol, broken_part, is_error
from .types import Table

FILE = 'libs/compiler/syntax.c'
MAX = (1 << 63) - 1         # item that stands for "nothing"
FREE = MAX - 1              # previous meaning: none
VEC = ('ids',)
REF = ('refs',)


class IdPol(Policy):
    """The table of identifiers is a row of cells that starts with `size` items, the meaning of a spelling one cell per
    index; all else is inline or opaque."""
    max_states = 20000
    cut_after = 3
    unroll = 60

    lg = None

    def __init__(self, ids, size, pred):
        self.ids, self.size, self.pred = ids, size, pred
        self.stable = frozenset()
        self.at = []

    def keeps(self, st, key):
        return key[0] == ('arg', 0) or key[0] in (VEC, REF, ('n',), ('pos',)) or isinstance(key[0], tuple) and key[0] and key[0][0] == 'rf'

    def cut_back(self, fn):
        return 'always'

    def place(self, it, a, k=0):
        """An index of the table as (symbolic part, offset)."""
        c, t = Interp._lin(a) if not is_c(a) else (a, 0)
        return t, c + k

    def cell(self, it, a):
        t, c = self.place(it, a)
        return (VEC, c, ((t, 1),) if t != 0 else ())

    def grown(self, st):
        return st.mem.get((('n',), 0, ()), (0, 8))[0]

    def decide(self, it, st, name, args, fn):
        m = st.mem
        if name.startswith('vector_') and args and args[0] == self.ids:
            n = self.grown(st)
            if name == 'vector_size':
                return ('value', it.arith('add', I64, self.size, n) if n else self.size)
            if name == 'vector_add':
                i = it.arith('add', I64, self.size, n) if n else self.size
                m[self.cell(it, i)] = (args[1], 8)
                m[(('n',), 0, ())] = (n + 1, 8)
                return ('value', i)
            if name == 'vector_increase' and is_c(args[1]):
                for k in range(args[1]):
                    i = it.arith('add', I64, self.size, n + k) if n + k else self.size
                    m[self.cell(it, i)] = (0, 8)
                m[(('n',), 0, ())] = (n + args[1], 8)
                return ('value', 0)
            if name == 'vector_set':
                m[self.cell(it, args[1])] = (args[2], 8)
                return ('value', 0)
            if name == 'vector_get':
                k = self.cell(it, args[1])
                if k not in m:
                    m[k] = (('id', k), 8)
                return ('value', m[k][0])
            raise AnalysisError('identifiers used with %s' % name)
        if name == 'map_get_by_index':
            k = (('rf', args[1]), 0, ())
            if k not in m:
                m[k] = (('ref', args[1]), 8)
            return ('value', m[k][0])
        if name == 'map_set_by_index':
            m[(('rf', args[1]), 0, ())] = (args[2], 8)
            return ('value', 0)
        if name == 'type_size':
            st.facts.rng.setdefault(('size', args[-1]), (0, 1 << 40))
            return ('value', ('size', args[-1]) if self.size == ('N',) and m.get((('arg', 0), self.lg, ()), (0,))[0] != -1 else 2)
        if name.startswith('vector_') and args and args[0] == self.pred:
            return 'event'
        if name.startswith(('vector_', 'map_')) or fn is None:
            return 'opaque'
        return 'inline'


class Ty:
    def __init__(self, w):
        self.kind, self.width, self.size = 'int', w, w // 8

    def __repr__(self):
        return 'i%d' % self.width


I64 = Ty(64)


def fact(p, t):
    return t if is_c(t) else p.facts.eq.get(t)


class Scopes:
    def __init__(self, ctx):
        P = self.P = ctx.prog
        self.ctx = ctx
        m = self.m = P.module('compiler/syntax.c')
        g = lambda n: P.field(m, 'syntax', n)
        self.off = {n: g(n) for n in ('identifiers', 'predef', 'cur_id', 'displ', 'max_displ', 'max_displg', 'lg', 'ref_main')}
        self.sx = ('arg', 0)
        self.ids = mkptr(self.sx, self.off['identifiers'])
        self.pred = mkptr(self.sx, self.off['predef'])

    def mem(self, **v):
        return {(self.sx, self.off[k], ()): (x, 8 if k != 'lg' else self.lgsize()) for k, x in v.items()}

    def lgsize(self):
        return 8

    def get(self, p, n):
        c = p.state.mem.get((self.sx, self.off[n], ()))
        return c[0] if c else None

    def marker(self):
        """What tells a type from other things."""
        fn = self.P.need('ident_is_type_specifier', self.m)
        d = ('D',)

        class Pol(Policy):
            def decide(s, it, st, name, args, f):
                return ('value', d) if name == 'ident_get_displ' else 'inline' if f is not None else 'opaque'
        yes = set()
        for p in self.ctx.paths(fn, Pol(), nonnull=[0]):
            r = p.ret
            if p.kind != 'ret':
                continue
            if is_c(r):
                if r & 1:
                    yes.add(p.facts.eq.get(d, 'a range'))
                continue
            if isinstance(r, tuple) and r[0] == 'cmp' and r[1] == 'eq' and r[2] == d and is_c(r[3]):
                yes.add(r[3])
            else:
                yes.add(show(r))
        return yes


ROOM = 1 << 40      # no number of functions, displacement or 32-bit enumerator is as large


def check_scope(ctx):
    ctx.rule('types', 'a name is a type name exactly when it was declared as one: the mark of type names is no possible '
                      'place, function number or enumerator value')
    ctx.rule('record', 'a declaration makes a record with the spelling, the type, the place and the previous meaning, and '
                       'the spelling stands for it from then on')
    ctx.rule('repeated', 'a second declaration in the same scope is refused unless it defines a function that was only '
                         'declared, one in an inner scope is not; a second main is refused')
    ctx.rule('side', 'variables of functions get positive places, variables of the file negative ones: that is how the code '
                     'generators tell them apart')
    ctx.rule('leave', 'the end of a scope gives every spelling declared in it its previous meaning and restores the '
                      'place counter, the level and the start of the surrounding scope')
    ctx.rule('enter', 'a new scope starts behind all records there are')
    ctx.rule('nest', 'functions, blocks and for statements open a scope of their own before their parts and close that '
                     'one after them')
    ctx.rule('said', 'every refused declaration is reported, and only a refused one')
    ctx.rule('use', 'a name in an expression is the record its spelling stands for, an enumerator its value; one without '
                    'a meaning is reported')
    ctx.rule('owed', 'a function that is only declared is owed until its definition; main and every owed function are '
                     'asked for at the end')
    s = Scopes(ctx)
    marks = s.marker()
    where = '%s (ident_is_type_specifier)' % FILE
    ok = len(marks) == 1 and all(is_c(x) and not -ROOM <= x <= ROOM and x != MAX for x in marks)
    ctx.ob('types', 'mark', ok, where, 'names with the mark %s are taken for types' % ', '.join(map(str, marks)))
    mark = next(iter(marks)) if ok else None
    if mark is not None:
        kinds(ctx, s, mark)
        declare(ctx, s, mark)
        uses(ctx, s, mark)
    local(ctx, s)
    leave(ctx, s)
    enter(ctx, s)
    start(ctx, s)
    nest(ctx, s)
    said(ctx, s)
    owed(ctx, s)
    owed_many(ctx)


def case(ctx, s, ref, kind, fd, mem, more=()):
    """Final paths of a declaration."""
    fn = s.P.need('ident_add', s.m)
    pol = IdPol(s.ids, ('N',), s.pred)
    pol.lg = s.off['lg']
    m = dict(mem)
    m[(('rf', ('arg', 1)), 0, ())] = (ref, 8)
    args = {2: kind, 4: fd}
    rng = {('N',): (6, 1 << 40), ('C',): (2, 1 << 40), ('R',): (4, 1 << 40), ('K',): (2, ROOM), ('arg', 1): (1, 1 << 40), ('D',): (1, 1 << 40), ('H',): (1, 1 << 40)}

    class F(IdPol):
        pass
    it = Interp(ctx.prog, pol)
    # facts about the terms are added by hand: run() takes equalities only
    orig = it._frame
    def frame(f, a, c, st):
        for t, r in rng.items():
            st.facts.rng.setdefault(t, r)
            st.facts.ne.setdefault(t, frozenset())
        return orig(f, a, c, st)
    it._frame = frame
    r = it.run(fn, args=args, mem=m, nonnull=[0])
    ctx.count('functions_analysed')
    ctx.count('partitions', len(r))
    ctx.count('ir_steps', it.steps)
    return [p for p in r if p.kind in ('ret', 'cut')]


def rec(p, k):
    c = p.state.mem.get((VEC, k, ((('N',), 1),)))
    return c[0] if c else None


def same(p, a, b):
    return a == b or fact(p, a) is not None and fact(p, a) == fact(p, b)


def declare(ctx, s, mark):
    where = '%s (ident_add)' % FILE
    N, C, R, K = ('N',), ('C',), ('R',), ('K',)
    kinds = [('variable', 0, 3), ('variable in a function', 0, 1), ('type', mark, 0), ('type in a function', mark, 1),
             ('type in a declaration', mark, 3), ('function definition', K, 1), ('function declaration', K, 2),
             ('function parameter', -1, 1)]
    refs = [('free', MAX), ('outer', R), ('inner', R), ('main', 0)]
    for kn, kind, fd in kinds:
        for rn, ref in refs:
            for lg in ((1, -1) if kind == 0 else (1,)):
                if rn == 'main' and kn not in ('function definition', 'function declaration'):
                    continue
                mem = s.mem(cur_id=C, displ=('D',) if lg > 0 else FIRST, max_displ=('H',), lg=lg, ref_main=('M',))
                done = case(ctx, s, ref, kind, fd, mem)
                n = 0
                for p in done:
                    if p.kind == 'cut' and p.ret[0] == 'at':
                        continue
                    inner = None
                    for t, v in p.facts.log:
                        if isinstance(t, tuple) and t[0] == 'cmp' and t[1] == 'ult' and t[2:] == (R, C):
                            inner = not v
                        if isinstance(t, tuple) and t[0] == 'cmp' and t[1] == 'ult' and t[2:] == (C, R) and v:
                            inner = True
                    if rn == 'outer' and inner or rn == 'inner' and not inner and inner is not None:
                        continue
                    n += 1
                    key = '%s over %s%s' % (kn, rn, ' level %d' % lg if kind == 0 else '')
                    bad = judge(s, p, kn, kind, fd, rn, ref, lg, inner)
                    what = bad[1] if bad else ''
                    for r in ('record', 'repeated', 'side') if not bad else (bad[0],):
                        ctx.ob(r, key, not bad, where, what)
                if not n:
                    raise AnalysisError('no way through ident_add for %s over %s' % (kn, rn))


def judge(s, p, kn, kind, fd, rn, ref, lg, inner):
    N, M = ('N',), ('M',)
    ret = fact(p, p.ret) if fact(p, p.ret) is not None else p.ret
    refused = ret in (-1, -2)
    now = p.state.mem[(('rf', ('arg', 1)), 0, ())][0]
    if rn == 'main':
        had = p.facts.eq.get(M)
        none = had == 0
        if not none and not refused:
            if had is None and not any(t == ('cmp', 'eq', M, 0) for t, v in p.facts.log):
                return 'repeated', 'a second main is not looked for'
            return 'repeated', 'a second main is accepted'
        if none and refused:
            return 'repeated', 'the first main is refused'
        if refused:
            return None if ret == -1 else ('repeated', 'a second main is taken for another name')
        if now != 0:
            return 'record', 'main stops being known as main'
        if s.get(p, 'ref_main') != N:
            return 'record', 'the record of main is kept as %s' % show(s.get(p, 'ref_main'))
    else:
        if s.get(p, 'ref_main') not in (None, M):
            return 'record', 'the record of main becomes %s' % show(s.get(p, 'ref_main'))
        proto = None
        if rn == 'inner':
            r = ('id', (VEC, 1, ((('R',), 1),)))
            lt = [v for t, v in p.facts.log if t == ('cmp', 'slt', 0, r)]
            eq0 = p.facts.eq.get(r)
            if lt:
                proto = not lt[-1]
            elif eq0 is not None:
                proto = eq0 <= 0
            want = not (fd == 1 and kn == 'function definition' and proto)
            if fd == 1 and kn != 'function definition' and proto:
                return None         # a function declared inside a function: not a declaration of the language
            if want and not refused:
                return 'repeated', 'a second declaration in the scope is accepted' + ('' if fd != 1 else ' over a definition')
            if not want and refused:
                return 'repeated', 'the definition of a declared function is refused'
        elif refused:
            return 'repeated', 'a declaration is refused though the name is %s' % ('free' if rn == 'free' else 'of an outer scope')
        if refused:
            return None if ret == -2 else ('repeated', 'a repeated declaration is taken for a second main')
        if not same(p, now, N):
            return 'record', 'the spelling stands for %s afterwards' % show(now)
    if ret != N:
        return 'record', 'gives %s instead of the new record' % show(ret)
    got = [rec(p, k) for k in range(4)]
    want = [FREE if rn == 'free' else ref, ('arg', 1), ('arg', 3), None]
    if kn == 'function declaration':
        want[1] = ('op', 'sub', 'i64', 0, ('arg', 1))
    D = FIRST if lg < 0 else ('D',)
    if kind == 0:
        want[3] = got[3]
    elif kn == 'function parameter':
        want[3] = got[3] if got[3] in (('op', 'sub', 'i64', 0, D), ('op', 'mul', 'i64', D, -1)) else ('op', 'sub', 'i64', 0, D)
    else:
        want[3] = kind
    for k, nm in enumerate(('previous meaning', 'spelling', 'type', 'place')):
        if got[k] != want[k]:
            return 'record', 'the %s in the record is %s' % (nm, show(got[k]))
    d = s.get(p, 'displ')
    if kind == 0:
        # the sign of the place tells variables of functions from the others
        pos = [sign(p, x) for x in (got[3], d)]
        if pos != [lg > 0] * 2:
            return 'side', 'a variable of %s gets the place %s, the next one %s' % ('a function' if lg > 0 else 'the file', show(got[3]), show(d))
    elif d != D and sign(p, d) is not True:
        return 'side', 'after a %s the next place is %s' % (kn, show(d))
    ev = [e for e in p.events if e.name == 'vector_add']
    if kn == 'function declaration':
        if not any(e.args[1] == ('arg', 1) for e in ev):
            return 'owed', 'the declared function is not put down as owed'
    elif ev:
        return 'owed', 'a %s is put down as owed' % kn
    return None


def local(ctx, s):
    fn = s.P.need('ident_is_local', s.m)
    for v, want in ((3, 1), (4, 1), (1 << 20, 1), (-3, 0), (-4, 0), (-1 << 20, 0)):
        class Pol(Policy):
            def decide(self, it, st, name, args, f):
                return ('value', v) if name == 'ident_get_displ' else 'inline' if f is not None else 'opaque'
        got = {p.ret for p in ctx.paths(fn, Pol(), nonnull=[0]) if p.kind == 'ret'}
        ctx.ob('side', 'place %d' % v, {g & 1 if is_c(g) else g for g in got} == {want}, '%s (ident_is_local)' % FILE,
               'a variable at %d is %s variable of a function' % (v, 'no' if want else 'a'))


FIRST = -3 - (1 << 20)      # a place of a variable of the file


def sign(p, t):
    """True: positive, False: not, None: unknown."""
    if is_c(t):
        return t > 0
    r = Interp._rng(p.facts, t)
    return True if r and 0 < r[0] and r[1] < 1 << 63 else None


def leave(ctx, s):
    hand = handle(ctx, s)
    for f in ('cur_id', 'lg'):
        ctx.ob('enter', 'kept ' + f, f in hand, '%s (scope_block_enter)' % FILE, 'the %s of the surrounding scope is not kept' % f)
    for name in ('scope_block_exit', 'scope_func_exit'):
        fn = s.P.need(name, s.m)
        where = '%s (%s)' % (FILE, name)
        for recs in (0, 1, 3):
            start = 406
            size = start + 4 * recs
            pol = IdPol(s.ids, size, s.pred)
            m = s.mem(cur_id=start, displ=('D',), max_displ=('H',), lg=1)
            for k in range(recs):
                m[(VEC, start + 4 * k, ())] = (('P', k), 8)
                m[(VEC, start + 4 * k + 1, ())] = (('S', k if k < 2 else 0), 8)
                m[(('rf', ('S', k)), 0, ())] = (start + 4 * k, 8)
            if name == 'scope_block_exit':
                for f, o in hand.items():
                    m[(('arg', 1), o, ())] = (('hand', f), 8)
            # the third record repeats the spelling of the first
            ps = [p for p in ctx.paths(fn, pol, mem=m, nonnull=[0]) if p.kind == 'ret']
            n = 0
            for p in ps:
                if p.ret == -1 and name == 'scope_block_exit' and any(
                        (t[0] == 'cmp' and MAX in t[2:]) and v for t, v in p.facts.log if isinstance(t, tuple)):
                    continue        # no scope was entered
                n += 1
                bad = ''
                for k in range(min(recs, 2)):
                    now = p.state.mem[(('rf', ('S', k)), 0, ())][0]
                    want = MAX if p.facts.eq.get(('P', k)) == FREE else ('P', k)
                    if not same(p, now, want):
                        bad = 'record %d of %d: the spelling stands for %s' % (k, recs, show(now))
                cells = {(k[0]) for k in p.state.mem if isinstance(k[0], tuple) and k[0] and k[0][0] == 'rf'}
                if len(cells) > 3:
                    bad = 'other spellings are touched'
                if name == 'scope_block_exit':
                    want = {f: ('hand', f) for f in ('cur_id', 'displ', 'lg')}
                else:
                    want = {'displ': ('arg', 1)}
                    if not (is_c(s.get(p, 'cur_id')) and s.get(p, 'cur_id') == first_record(ctx, s)):
                        bad = bad or 'the file scope starts at %s' % show(s.get(p, 'cur_id'))
                    if s.get(p, 'lg') != -1:
                        bad = bad or 'the level is %s' % show(s.get(p, 'lg'))
                for f, w in want.items():
                    if s.get(p, f) != w and not (f == 'displ' and s.get(p, f) == ('D',) and name == 'scope_block_exit'):
                        bad = bad or '%s becomes %s' % (f, show(s.get(p, f)))
                ctx.ob('leave', '%s %d' % (name, recs), not bad, where, bad)
            if not n:
                raise AnalysisError('no way through %s' % name)


_first = {}


def first_record(ctx, s):
    """Size of the table of identifiers before anything is declared."""
    if s.P not in _first:
        fn = s.P.need('sx_create', s.m)

        class Pol(Policy):
            def decide(self, it, st, name, args, f):
                return 'event' if name.startswith('vector_') else 'opaque'
        got = set()
        for p in ctx.paths(fn, Pol()):
            base = [a for a in p.events if a.name == 'vector_increase']
            for e in base:
                b, o, d = split(e.extra[0])
                if o == s.off['identifiers'] and is_c(e.args[1]):
                    got.add(e.args[1])
        if len(got) != 1:
            raise AnalysisError('the identifiers of an empty table are %s' % got)
        _first[s.P] = next(iter(got))
    return _first[s.P]


def handle(ctx, s):
    """Where scope_block_enter leaves what it keeps for the exit: member of the syntax -> offset in the handle."""
    fn = s.P.need('scope_block_enter', s.m)
    sx = ('arg', 1)
    out = {}
    pol = IdPol(mkptr(sx, s.off['identifiers']), ('N',), None)
    m = {(sx, s.off[k], ()): (v, 8) for k, v in (('cur_id', ('C',)), ('displ', ('D',)), ('lg', ('L',)))}
    for p in ctx.paths(fn, pol, mem=m, nonnull=[0, 1]):
        if p.kind == 'ret':
            for k, v in (('cur_id', ('C',)), ('displ', ('D',)), ('lg', ('L',))):
                at = {c[1] for c, x in p.state.mem.items() if c[0] == ('arg', 0) and x[0] == v}
                if len(at) == 1:
                    out[k] = at.pop()
                c = p.state.mem.get((sx, s.off[k], ()))
                if k == 'cur_id':
                    ctx.ob('enter', 'scope_block_enter', c and c[0] == ('N',), '%s (scope_block_enter)' % FILE,
                           'the scope starts at %s' % show(c and c[0]))
                else:
                    ctx.ob('enter', 'scope_block_enter keeps ' + k, c and c[0] == v, '%s (scope_block_enter)' % FILE,
                           '%s becomes %s' % (k, show(c and c[0])))
    return out


def enter(ctx, s):
    for name in ('scope_func_enter',):
        fn = s.P.need(name, s.m)
        where = '%s (%s)' % (FILE, name)
        pol = IdPol(s.ids, ('N',), s.pred)
        m = s.mem(cur_id=('C',), displ=('D',), max_displ=('H',), lg=-1)
        bad, n = '', 0
        for p in ctx.paths(fn, pol, mem=m, nonnull=[0]):
            if p.kind != 'ret':
                continue
            n += 1
            if s.get(p, 'cur_id') != ('N',):
                bad = 'the scope starts at %s' % show(s.get(p, 'cur_id'))
            if name == 'scope_func_enter':
                if p.ret != ('D',):
                    bad = bad or 'the place counter handed back is %s' % show(p.ret)
                if s.get(p, 'lg') != 1 or sign(p, s.get(p, 'displ')) is not True:
                    bad = bad or 'places of a function start at %s' % show(s.get(p, 'displ'))
        ctx.ob('enter', name, not bad and n, where, bad or 'no way through')


def start(ctx, s):
    T = Table(ctx)
    get = lambda n: (T.w.mem.get((T.sx, s.off[n], ())) or (None,))[0]
    minus = lambda v: isinstance(v, int) and v < 0
    vec = lambda n: T.w.call('vector_size', mkptr(T.sx, s.off[n]), mod=T.vm)
    for n, ok, want in (('lg', lambda v: v == -1, 'the level of the file'), ('displ', minus, 'a place of the file'), ('ref_main', lambda v: v == 0, 'no main')):
        ctx.ob('enter', 'start ' + n, ok(get(n)), '%s (sx_create)' % FILE, 'begins with %s, not with %s' % (show(get(n)), want))
    ctx.ob('enter', 'start owed', vec('predef') == 0, '%s (sx_create)' % FILE, 'functions are owed at the start')
    ctx.ob('enter', 'start scope', isinstance(get('cur_id'), int) and get('cur_id') <= vec('identifiers'), '%s (sx_create)' % FILE, 'the scope of the file starts at %s' % show(get('cur_id')))


class NestPol(WordPol):
    """The first grammar function after each word is as it comes; scopes and declared names are events."""
    def __init__(self, k, **kw):
        WordPol.__init__(self, k, **kw)

    def decide(self, it, st, name, args, fn):
        if name in PARTS or name == 'ident_add':
            if any(e.name == 'report_error' for e in st.events):
                return 'cut'
            return 'event'
        return WordPol.decide(self, it, st, name, args, fn)


PARTS = {'parse_statement', 'parse_declaration', 'parse_expression', 'parse_init_declarator', 'parse_compound_statement_body',
         'parse_type_specifier', 'parse_assignment_expression', 'parse_initializer', 'parse_condition',
         'parse_compound_statement'}
OPENS = {'scope_block_enter', 'scope_func_enter'}
ENDS = {'scope_block_exit': 'scope_block_enter', 'scope_func_exit': 'scope_func_enter'}


def nest(ctx, s):
    """A scope of their own around the parts of blocks, for statements and functions; nowhere else."""
    k = K(ctx)
    m = k.m
    P = ctx.prog
    own = {'parse_compound_statement': ('scope_block_enter', 'L_BRACE', {'parse_compound_statement_body', 'parse_statement', 'parse_declaration'}),
           'parse_for_statement': ('scope_block_enter', 'FOR', None),
           'parse_function_definition': ('scope_func_enter', None, None)}
    for f in sorted(m.functions.values() if hasattr(m.functions, 'values') else m.functions, key=lambda f: f.name):
        if f.name in own:
            continue
        for c in calls(f):
            if c in OPENS or c in ENDS:
                up = [g.name for g in m.functions.values() if f.name in set(calls(g))]
                if not set(up) <= set(own):
                    ctx.ob('nest', f.name, False, '%s (%s)' % (m.path, f.name), 'it calls %s' % c)
    for name, (opener, first, parts) in sorted(own.items()):
        fn = P.need(name, m)
        pol = NestPol(k, extra={'scope_func_enter', 'scope_func_exit'})
        pol.cut_after = 2
        mem = {(('arg', 0), k.cur, ()): (k.t(first), 4)} if first else {}
        n = 0
        for p in ctx.paths(fn, pol, mem=mem, nonnull=range(fn.nparams)):
            if p.kind != 'ret' or is_error(p) or broken_part(p):
                continue
            ev = p.events
            ops = [e for e in ev if e.name in OPENS]
            cl = [e for e in ev if e.name in ENDS]
            body = [e for e in ev if e.name in PARTS or e.name == 'ident_add']
            if name == 'parse_function_definition' and not body and not ops:
                continue        # refused before
            n += 1
            bad = ''
            if len(ops) != 1 or ops[0].name != opener:
                bad = 'opens %d scopes' % len(ops)
            elif len(cl) != 1 or ENDS[cl[0].name] != opener:
                bad = 'closes %d scopes' % len(cl)
            elif not handed(cl[0].args[1], ops[0]):
                bad = 'closes another scope: %s' % show(cl[0].args[1])
            elif body and not ev.index(ops[0]) < ev.index(body[0]):
                bad = '%s before the scope begins' % body[0].name
            elif body and not ev.index(body[-1]) < ev.index(cl[0]):
                bad = '%s after the scope ends' % body[-1].name
            ctx.ob('nest', name, not bad, ev[-1].where() if ev else m.path, bad)
        if not n:
            raise AnalysisError('no way through %s' % name)


def handed(a, e):
    """The handle is the one the event gave."""
    if a == e.res:
        return True
    x = a[1] if isinstance(a, tuple) and a[0] == 'obj' else None
    return isinstance(x, tuple) and x[:2] == ('call', e.name) and x[3:] == e.res[3:]


def calls(f):
    out = []
    for b in f.blocks:
        for i in b.instrs:
            if i.op == 'call' and isinstance(i.x, str):
                out.append(i.x.split('@')[-1] if False else i.x)
    return out


class SaidPol(Policy):
    """A caller of ident_add; all but the reporting of errors is unknown."""
    max_states = 20000
    cut_after = 1
    joins = False

    def __init__(self, mod, root, inl=frozenset()):
        self.mod, self.root, self.inl = mod, root, inl

    def cut_back(self, fn):
        return 'always'

    def decide(self, it, st, name, args, fn):
        if name in ('ident_add', 'report_error'):
            return 'event'
        if name in self.inl:
            return 'inline'
        if fn is not None and fn.mod is self.mod and name.endswith('error') and not name.startswith('build_'):
            return 'inline'
        return 'opaque'

    def effect(self, it, st, name, args, t):
        if name != 'ident_add':
            return None
        st.facts.rng[t] = (4, 1 << 40)

        def g(v):
            def f(s):
                s.facts.rng.pop(t, None)
                s.facts.eq[t] = v
            return f
        return [g(-1), g(-2)]


def kinds(ctx, s, mark):
    """Kinds given as constants: variable, function as a parameter, type name."""
    P = ctx.prog
    at = {('ident_add', 2)}
    done = set()
    n = 0
    while at - done:
        callee, k = (at - done).pop()
        done.add((callee, k))
        for m in P.modules.values():
            for f in m.functions.values():
                for b in f.blocks:
                    for i in b.instrs:
                        if i.op != 'call' or i.x != callee:
                            continue
                        o = i.ops[k]
                        if isinstance(o, int):
                            n += 1
                            ctx.ob('types', '%s kind %s' % (f.name, {mark: 'type'}.get(o, o)), o in (0, -1, mark) or f.name.startswith('builtin'),
                                   '%s:%s (%s)' % (f.file, i.line, f.name), 'a declaration of the kind %s' % o)
                        elif isinstance(o, tuple) and o[0] == 'a':
                            at.add((f.name, o[1]))
    if n < 4:
        raise AnalysisError('declarations of types and variables were not found (%d)' % n)


def said(ctx, s):
    P = ctx.prog
    codes = {}
    mods = [m for m in P.modules.values() if '/compiler/' in '/' + m.path and m is not s.m]
    todo = [(f, frozenset()) for m in mods for f in m.functions.values() if 'ident_add' in calls(f) and not f.name.startswith('builtin')]
    seen = set()
    while todo:
        f, inl = todo.pop()
        if (f, inl) in seen:
            continue
        seen.add((f, inl))
        where = '%s (%s)' % (f.mod.path, f.name)
        ps = ctx.paths(f, SaidPol(f.mod, f.name, inl), nonnull=range(f.nparams))
        got = [(p, e, [x for x in p.events[n + 1:] if x.name == 'report_error']) for p in ps if p.kind == 'ret'
               for n, e in enumerate(p.events) if e.name == 'ident_add']
        if not got:
            if not inl:
                raise AnalysisError('%s: no way to its declaration' % where)
            continue
        if len(inl) < 3 and not any(after for p, e, after in got) and all(p.ret == e.res or fact(p, p.ret) is not None and
                                                                          fact(p, p.ret) == fact(p, e.res) for p, e, after in got):
            # it hands the answer on: its callers have to look at it
            for m in mods:
                todo += [(g, inl | {f.name}) for g in m.functions.values() if f.name in calls(g)]
            continue
        for p, e, after in got:
            v = p.facts.eq.get(e.res)
            if v == -2:
                ctx.ob('said', '%s repeated' % f.name, len(after) >= 1, e.where(), 'a repeated declaration is not reported')
                codes.setdefault('repeated', set()).update(tuple(a for a in x.args if is_c(a)) for x in after[:1])
            elif v == -1 and f.name != 'build_struct_declaration':
                ctx.ob('said', '%s main' % f.name, len(after) >= 1, e.where(), 'a second main is not reported')
                codes.setdefault('main', set()).update(tuple(a for a in x.args if is_c(a)) for x in after[:1])
            elif v is None:
                ctx.ob('said', '%s accepted' % f.name, not after, e.where(), 'an accepted declaration is reported')
    err = P.enum(P.module('compiler/parser.c'), 'err_t')
    for k, w in (('repeated', 'repeated_decl'), ('main', 'redefinition_of_main')):
        ctx.ob('said', 'message of ' + k, codes.get(k) and all(err[w] in c for c in codes[k]), 'libs/compiler', 'reported as %s' % sorted(codes.get(k, ())))


def owed(ctx, s):
    where = '%s (sx_is_correct)' % FILE
    fn = s.P.need('sx_is_correct', s.m)
    size = ('n',)

    class Pol(Policy):
        cut_after = 3
        stable = frozenset()

        def keeps(self, st, key):
            return key[0] == ('arg', 0)

        def cut_back(self, f):
            return 'always'

        def decide(self, it, st, name, args, f):
            if name == 'reporter_get_errors_number':
                return ('value', 0)
            if name == 'vector_size' and args[0] == s.pred:
                return ('value', size)
            if name == 'vector_get' and args[0] == s.pred:
                st.events.append(Ask(args[1], st.facts))
                return ('value', ('owed', args[1]))
            if f is not None and (name == 'system_error' or name.endswith('system_error')) or name == 'report_error':
                return 'event'
            return 'opaque' if f is None or f.mod is not s.m else 'inline'
    n = 0
    for p in ctx.paths(fn, Pol(), mem=s.mem(ref_main=('M',)), nonnull=[0]):
        if p.kind != 'ret':
            continue
        n += 1
        asked = {e.args[0] for e in p.events if e.name == 'ask'}
        lack = [a for a in asked if p.facts.eq.get(('owed', a)) != 0]
        errs = [e for e in p.events if e.name != 'ask']
        main = p.facts.eq.get(('M',))
        r = p.ret if is_c(p.ret) else fact(p, p.ret)
        bad = ''
        want = len(lack) + (main == 0)
        if not is_c(r):
            bad = 'the answer is %s' % show(p.ret)
        elif main != 0 and not any(t == ('cmp', 'eq', ('M',), 0) for t, v in p.facts.log):
            bad = 'main is not asked for'
        elif bool(r & 1) != (want == 0):
            bad = 'the answer is %s with %d functions missing' % ('yes' if r & 1 else 'no', want)
        elif len(errs) != want:
            bad = '%d reports about %d functions missing' % (len(errs), want)
        elif asked != set(range(len(asked))):
            bad = 'entries %s are looked at' % sorted(map(show, asked))
        else:
            k = len(asked)
            end = [v for t, v in p.facts.log if t in (('cmp', 'ult', k, size), ('cmp', 'eq', size, 0) if k == 0 else None,
                                                      ('cmp', 'eq', size, k))]
            low = p.facts.rng.get(size, (0, 1 << 64))
            if not end and low[1] > k and p.facts.eq.get(size) != k:
                bad = 'the search ends after %d entries' % k
        ctx.ob('owed', 'main %s, %d of %d' % (main, len(lack), len(asked)), not bad, where, bad)
    if not n:
        raise AnalysisError('no way through sx_is_correct')
    # a definition pays, nothing else does
    where = '%s (ident_add)' % FILE
    f = s.P.need('ident_add', s.m)
    pol = IdPol(s.ids, ('N',), s.pred)
    ps = []
    for kind, fd in ((('K',), 1), (('K',), 2), (0, 3)):
        ps += [(fd, p) for p in case(ctx, s, MAX, kind, fd, s.mem(cur_id=('C',), displ=('D',), max_displ=('H',), lg=1, ref_main=('M',)))]
    for fd, p in ps:
        gets = [e for e in p.events if e.name == 'vector_get']
        sets = [e for e in p.events if e.name == 'vector_set']
        bad = ''
        for e in gets:
            same_ = [v for t, v in p.facts.log if isinstance(t, tuple) and t[:2] == ('cmp', 'eq') and set(t[2:]) == {e.res, ('arg', 1)}]
            hit = bool(same_ and same_[-1]) or p.facts.eq.get(e.res) == ('arg', 1)
            paid = [x for x in sets if x.args[1] == e.args[1] and x.args[2] == 0]
            if not same_ and not hit:
                if p.kind == 'ret':
                    bad = 'an entry is not compared with the spelling'
            elif hit != bool(paid):
                bad = 'the entry of the spelling stays owed' if hit else 'another entry is paid'
        if sets and fd != 1:
            bad = 'a declaration pays'
        if len(sets) > len(gets):
            bad = 'entries are changed without a look'
        if fd == 1 and p.kind == 'ret' and not any(isinstance(t, tuple) and 'vector_size' in repr(t) for t, v in p.facts.log):
            bad = 'the owed functions are not looked through'
        if fd == 1 and p.kind == 'ret' and not bad:
            seen = {e.args[1] for e in gets}
            ends = [c for c, v in p.facts.log if isinstance(c, tuple) and c[0] == 'cmp' and 'vector_size' in repr(c) and (
                not v and c[1] == 'ult' and c[2] == len(seen) or v and c[1] == 'eq' and len(seen) in c[2:])]
            if not ends and not sets or seen != set(range(len(seen))):
                bad = 'the search stops at entry %d' % len(seen)
        ctx.ob('owed', 'definition %d, %d entries' % (fd, len(gets)), not bad, where, bad)


def owed_many(ctx):
    """Long lists of declared functions: exactly those without a definition are reported."""
    T = Table(ctx)
    w, st = T.w, T.w.stubs
    del st['ident_add']
    ref, said = {10: 0}, []
    val = lambda v: ('value', v)
    st['repr_get_reference'] = lambda it, s, a: val(ref.get(a[1], (1 << 63) - 1))
    st['repr_set_reference'] = lambda it, s, a: (ref.__setitem__(a[1], a[2]), val(0))[1]
    st['repr_get_name'] = lambda it, s, a: val(('name', a[1]))
    st['reporter_get_errors_number'] = lambda it, s, a: val(0)

    def report(it, s, a):
        said.append(tuple(x[1] for x in a[1:] if isinstance(x, tuple) and x[0] == 'name'))
        return val(0)
    st['system_error'] = report
    start, ft = (dict(w.mem), dict(ref)), T.add([T.c['FUNCTION'], T.c['INTEGER'], 0])
    f = ctx.prog.need('sx_is_correct', T.m)
    where = '%s:%s (%s)' % (FILE, f.line, f.name)
    base = dict(w.mem)
    for n in (1, 2, 7, 12):
        for defined in [set()] + [{k} for k in range(n)] + [set(range(n)) - {k} for k in range(n)] + [set(range(n)), set(range(0, n, 2)), set(range(n // 2))]:
            for main in (1, 0):
                w.mem = dict(base)
                ref.clear()
                ref[10] = 0
                del said[:]
                for k in range(n):
                    w.call('ident_add', T.sx, 100 + 4 * k, 5 + k, ft, 2)
                for k in sorted(defined, reverse=n % 2):
                    w.call('ident_add', T.sx, 100 + 4 * k, 5 + k, ft, 1)
                if main:
                    w.call('ident_add', T.sx, 10, 50, ft, 1)
                got = w.call('sx_is_correct', T.sx)
                lack = sorted(set(range(n)) - defined)
                names = sorted(x[0] for x in said if x)
                bad = ''
                if not isinstance(got, int):
                    bad = 'the answer is %s' % show(got)
                elif bool(got & 1) != (not lack and bool(main)):
                    bad = 'the answer is %s' % ('yes' if got & 1 else 'no')
                elif len(said) != len(lack) + (not main):
                    bad = '%d reports are made' % len(said)
                elif names != [100 + 4 * k for k in lack]:
                    bad = 'reported are %s' % names
                ctx.ob('owed', '%d declared, %s defined%s' % (n, sorted(defined), '' if main else ', no main'), not bad, where,
                       '%d functions lack a definition%s: %s' % (len(lack), '' if main else ', and so does main', bad))


class Ask:
    """The list of owed functions is read at an index."""
    name, kind = 'ask', 'call'

    def __init__(self, i, facts):
        self.args, self.res, self.facts = (i,), ('owed', i), facts


def uses(ctx, s, mark):
    P = ctx.prog
    m = P.module('compiler/builder.c')
    fn = P.need('build_identifier_expression', m)
    where = '%s (%s)' % (m.path, fn.name)
    ref = ('ref',)

    class Pol(Policy):
        def keeps(self, st, key):
            return key[0] == ('asked',)

        def decide(self, it, st, name, args, f):
            if name == 'repr_get_reference':
                st.mem[(('asked',), 0, ())] = (args[1], 8)
                return ('value', ref)
            if name in ('ident_get_type', 'ident_get_displ'):
                return ('value', (name, args[1]))
            if name in ('report_error', 'expression_identifier', 'expression_integer_literal') or name == 'node_broken':
                return 'event'
            if f is None or f.mod is not m or name == 'type_is_enum_field':
                return 'opaque'
            return 'inline'
    n = {'no': 0, 'id': 0, 'enum': 0}
    sh = 1 if fn.sret else 0
    for p in ctx.paths(fn, Pol(), nonnull=[sh]):
        if p.kind != 'ret':
            continue
        none = p.facts.eq.get(ref) == MAX
        err = [e for e in p.events if e.name == 'report_error']
        ids = [e for e in p.events if e.name == 'expression_identifier']
        lit = [e for e in p.events if e.name == 'expression_integer_literal']
        bad = ''
        a = p.state.mem.get((('asked',), 0, ()))
        if not a or a[0] != ('arg', 1 + sh):
            bad = 'the meaning of %s is asked for' % (show(a[0]) if a else 'nothing')
        elif none:
            n['no'] += 1
            if not err or ids or lit:
                bad = 'a name without a meaning passes'
        elif err:
            bad = 'a declared name is reported'
        elif len(ids) == 1 and not lit:
            n['id'] += 1
            if ref not in ids[0].args or ('ident_get_type', ref) not in ids[0].args:
                bad = 'the name stands for %s' % ', '.join(show(x) for x in ids[0].args[1:4])
        elif len(lit) == 1 and not ids:
            n['enum'] += 1
            if ('ident_get_displ', ref) not in lit[0].args:
                bad = 'the enumerator stands for %s' % ', '.join(show(x) for x in lit[0].args[1:4])
        else:
            bad = 'nothing is built'
        ctx.ob('use', 'name', not bad, where, bad)
    for k, v in n.items():
        if not v:
            raise AnalysisError('no name of kind %s in build_identifier_expression' % k)

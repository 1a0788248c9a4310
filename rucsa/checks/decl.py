"""F14 declarations: grammar, types of specifiers, parts of the declared things, functions."""
import re
from ..absint import is_c, mkptr, show, split
from ..program import AnalysisError
from . import made
from .parse import K, is_res, ret_is, _ld
from .stmt import WordPol, is_error, broken_part, false_alarm

FILE = 'libs/compiler/parser.c'
NONTERM = {'parse_type_specifier', 'parse_struct_declaration', 'parse_enum_declaration_list', 'parse_member_declaration',
           'parse_init_declarator', 'parse_initializer', 'parse_expression', 'parse_constant_expression',
           'parse_compound_statement_body', 'parse_function_declarator', 'parse_function_declaration',
           'parse_function_definition', 'parse_external_definition', 'parse_declaration'}
KEEP = {'node_vector_add', 'type_const', 'type_pointer', 'type_array', 'type_add', 'type_enum_add_fields', 'ident_add',
        'ident_set_displ', 'ident_get_type', 'ident_is_type_specifier', 'repr_get_reference', 'type_is_const', 'type_is_void',
        'func_add', 'func_set', 'func_get', 'func_reserve', 'node_add_child', 'node_add_arg', 'node_set_arg', 'node_swap',
        'node_copy', 'scope_func_enter', 'scope_func_exit', 'declaration_struct_get_type', 'expression_literal_get_integer',
        'type_string', 'type_is_pointer'}


class Ty:
    def __init__(self, w):
        self.kind, self.width, self.size = 'int', w, w // 8


I32, I64 = Ty(32), Ty(64)


class DeclPol(WordPol):
    readonly = {'node_vector_add': (1,), 'build_declarator': (5, 6), 'build_member_declaration': (5,)}

    def __init__(self, k, name_off, toks=(), rounds=1, mem_of=(), extra=()):
        WordPol.__init__(self, k, toks, nonterm=NONTERM, extra=KEEP | set(extra))
        self.name_off = name_off
        self.cut_after = rounds

    def readonly_arg(self, name, n):
        return n in self.readonly.get(name, ())

    def decide(self, it, st, name, args, fn):
        if name == 'node_is_correct':
            x = it.snapshot(st, args[0])
            if isinstance(x, tuple) and x[0] == 'obj' and isinstance(x[1], tuple) and x[1][:2] == ('call', 'node_broken'):
                return ('value', 0)
        d = WordPol.decide(self, it, st, name, args, fn)
        if d == 'event' and any(e.name == 'report_error' for e in st.events):
            return 'cut'        # what follows a diagnostic is another matter
        return d

    def capture(self, it, st, name, args):
        if name == 'lex':
            v = it.load(st, mkptr(self.cell[0], self.cell[1]), I32)
            n = it.load(st, mkptr(self.cell[0], self.name_off), I64)
            return (v if is_c(v) else st.facts.eq.get(v), n)
        if name in ('type_add', 'type_enum_add_fields'):
            out = []
            for j in range(12):
                b, o, d = split(args[1])
                c = st.mem.get((b, o + 8 * j, d))
                out.append(c[0] if c else None)
            return out
        if name in ('report_error', 'parse_function_definition'):
            return self.token(st)
        if name == 'ident_add':
            return st.mem.get(self.fdef)
        return None


class D:
    """One path as words with their events."""
    def __init__(self, ck, p):
        self.p = p
        self.ev = p.events
        self.w = []
        self.we = []
        for e in p.events:
            if e.name == 'lex':
                t = e.cap[0]
                self.w.append(ck.k.names[t][3:] if is_c(t) and t in ck.k.names else '?')
                self.we.append(e)
            elif e.name in NONTERM:
                self.w.append(e.name[6:])
                self.we.append(e)

    def all(self, name):
        return [e for e in self.ev if e.name == name]

    def one(self, name):
        r = self.all(name)
        return r[0] if len(r) == 1 else None

    @property
    def text(self):
        return ' '.join(self.w)

    def at(self, sym, n=0):
        """n-th occurrence of a symbol."""
        r = [e for s, e in zip(self.w, self.we) if s == sym]
        return r[n] if n < len(r) else None

    def where(self):
        return self.ev[-1].where() if self.ev else FILE

    def shown(self):
        return '%s; calls %s' % (self.text, ' '.join('%s(%s)' % (e.name, ', '.join(show(a)[:60] for a in e.args[1:8]))
                                                     for e in self.ev if e.name not in NONTERM and e.name != 'lex')[:300])


class Check:
    def __init__(self, ctx):
        self.ctx = ctx
        self.k = K(ctx)
        P = self.P = ctx.prog
        m = self.k.m
        self.fdef = (('arg', 0), P.field(m, 'parser', 'func_def'), ())
        self.wtd = (('arg', 0), P.field(m, 'parser', 'was_type_def'), ())
        self.name_off = self.k.tk + self._ident_off()
        self.none = (1 << 63) - 1
        T = P.enum(m, 'type_t')
        self.T = {n[5:]: v for n, v in T.items()}
        for n in ('VOID', 'BOOLEAN', 'CHARACTER', 'INTEGER', 'FLOATING', 'FILE', 'UNDEFINED', 'FUNCTION', 'ENUM'):
            if n not in self.T:
                raise AnalysisError('no TYPE_' + n)

    def _ident_off(self):
        from ..absint import Policy
        for p in self.ctx.paths(self.P.need('token_get_ident_name', self.k.m), Policy(), nonnull=[0]):
            a = _ld(p.ret) if p.kind == 'ret' else None
            if a is not None:
                return split(a)[1]
        raise AnalysisError('token_get_ident_name does not return a token member')

    def run(self, fname, first=None, toks=(), rounds=1, args=None, mem=None, nonnull=None, extra=(), tune=None):
        fn = self.P.need(fname, self.k.m)
        pol = DeclPol(self.k, self.name_off, [None if t is None else self.k.t(t) for t in toks], rounds, extra=extra)
        pol.fdef = self.fdef
        if tune:
            tune(pol)
        m = dict(mem or {})
        if first is not None:
            m[(('arg', 0), self.k.cur, ())] = (self.k.t(first), 4)
        a = dict(args or {})
        nn = [0] if nonnull is None else nonnull
        return [D(self, p) for p in self.ctx.paths(fn, pol, mem=m, args=a, nonnull=nn)]

    def next_is(self, d, tok):
        """The token that follows the path is known to be tok."""
        c = d.p.state.mem.get((('arg', 0), self.k.cur, ()))
        return c is not None and (c[0] == self.k.t(tok) or d.p.facts.eq.get(c[0]) == self.k.t(tok))

    def next_not(self, d, tok):
        c = d.p.state.mem.get((('arg', 0), self.k.cur, ()))
        return c is not None and (is_c(c[0]) and c[0] != self.k.t(tok) or self.k.t(tok) in d.p.facts.ne.get(c[0], ()))


def same(a, b):
    return strip(a) == strip(b)


def strip(t):
    while isinstance(t, tuple) and t and t[0] in ('cast', 'part'):
        t = t[4] if t[0] == 'cast' else t[1]
    return t


def good(d):
    return d.p.kind in ('ret', 'back') and not is_error(d.p) and not broken_part(d.p)


def truth(d, name, arg=None):
    """What the path has found the predicate `name` to say (of arg): True, False or None."""
    r = None
    for t, f in d.p.facts.log:
        neg = False
        while isinstance(t, tuple) and t[0] in ('not', 'cmp'):
            if t[0] == 'not':
                t, neg = t[1], not neg
            elif t[1] in ('eq', 'ne') and t[3] == 0:
                neg ^= t[1] == 'eq'
                t = t[2]
            else:
                break
            t = strip(t)
        t = strip(t)
        if isinstance(t, tuple) and t[0] == 'call' and t[1] == name and (arg is None or any(same(arg, a) for a in t[2])):
            r = bool(f) != neg
    return r


SIMPLE = {'VOID': 'VOID', 'BOOL': 'BOOLEAN', 'CHAR': 'CHARACTER', 'INT': 'INTEGER', 'LONG': 'INTEGER', 'FLOAT': 'FLOATING',
          'DOUBLE': 'FLOATING', 'FILE': 'FILE'}


def check_decl(ctx):
    ctx.rule('specifier', 'a type specifier is made of the words of the grammar and denotes its type')
    ctx.rule('declarator', 'a declarator keeps its type, name, pointer marks, bounds and initialiser')
    ctx.rule('declaration', 'a declaration keeps its declarators in order')
    ctx.rule('struct', 'a structure declaration keeps its members in order')
    ctx.rule('enum', 'an enumeration declares its constants with consecutive or given values')
    ctx.rule('parameter', 'a function type has the return type and the parameter types that are written')
    ctx.rule('function', 'a function definition declares its parameters in a scope of their own and keeps its body')
    ctx.rule('prototype', 'a definition and its prototype have the same type; main has one of its forms')
    ctx.rule('external', 'a file scope declaration keeps its declarators in order')
    c = Check(ctx)
    specifier(ctx, c)
    declarator(ctx, c)
    declaration(ctx, c)
    structure(ctx, c)
    enumeration(ctx, c)
    parameters(ctx, c)
    functions(ctx, c)
    external(ctx, c)
    made.check_made(ctx)


def seqs(*parts):
    """All words of a sequence of alternatives, each alternative a string of symbols."""
    out = [()]
    for alts in parts:
        out = [a + tuple(b.split()) for a in out for b in alts]
    return out


def no_alarm(ctx, c, rule, what, d, words, excuse=lambda d: False):
    if d.p.kind in ('ret', 'cut') and is_error(d.p) and not broken_part(d.p):
        v = false_alarm(c.k, d.p, words, NONTERM)
        again = any(d.p.facts.eq.get(a.res) in (-1, -2) for a in d.all('ident_add'))     # declared before: F08
        ctx.ob(rule, '%s: error after %s' % (what, d.text), v is None or again or excuse(d), d.where(),
               'reported although %s follows the grammar' % ' '.join(v or ()))


def words_of(n):
    return {n} if n in SIMPLE or n == 'IDENTIFIER' else {'CONST type_specifier'} if n == 'CONST' else \
        {'STRUCT struct_declaration', 'STRUCT IDENTIFIER struct_declaration', 'STRUCT IDENTIFIER'} if n == 'STRUCT' else \
        {'ENUM enum_declaration_list', 'ENUM IDENTIFIER enum_declaration_list', 'ENUM IDENTIFIER'} if n == 'ENUM' else \
        {'TYPEDEF type_specifier STAR IDENTIFIER', 'TYPEDEF type_specifier IDENTIFIER'} if n == 'TYPEDEF' else set()


def specifier(ctx, c):
    fn = 'parse_type_specifier'
    R = 'specifier'
    seen = set()
    k = c.k

    def name_of(d, n=0):
        e = d.at('IDENTIFIER', n)
        return e.cap[1] if e is not None else None

    def named(d, obj):
        """The result is the type of the identifier found under the word's name."""
        r, g = d.one('repr_get_reference'), d.one('ident_get_type')
        return r and g and same(r.args[1], name_of(d)) and same(g.args[1], r.res) and same(d.p.ret, g.res)
    for t in sorted(set(k.tok.values())):
        n = k.names[t][3:]
        ok_paths = set()
        for d in c.run(fn, n, rounds=1, nonnull=[0]):
            if d.p.kind not in ('ret', 'cut'):
                ctx.ob(R, n + ' repeats', False, d.where(), d.text)
                continue
            if is_error(d.p):
                spec = d.at('type_specifier')
                r = d.one('repr_get_reference')
                unknown = r is not None and d.p.facts.eq.get(r.res) is not None and d.p.facts.eq[r.res] == c.none
                no_alarm(ctx, c, R, n, d, [tuple(x.split()) for x in words_of(n)],
                         lambda d: n == 'CONST' and truth(d, 'type_is_const', spec.res) is True or
                         n == 'IDENTIFIER' and (unknown or truth(d, 'ident_is_type_specifier', r.res) is False) or
                         n in ('STRUCT', 'ENUM') and unknown or
                         n == 'TYPEDEF' and c.next_not(d, 'SEMICOLON') and d.text.endswith('IDENTIFIER'))
                continue
            undef = d.p.ret == c.T['UNDEFINED']
            spec = d.at('type_specifier')
            if spec is not None and (same(d.p.ret, spec.res) or undef) and d.p.facts.eq.get(spec.res) == c.T['UNDEFINED']:
                continue        # the inner specifier is undefined: reported there
            if spec is not None and undef and truth(d, 'type_is_undefined', spec.res):
                continue
            w = d.text
            ok, why = False, 'is not a type specifier'
            if n in SIMPLE:
                ok, why = w == n and d.p.ret == c.T[SIMPLE[n]], '%s denotes type %s' % (n, show(d.p.ret))
            elif n == 'CONST' and w == 'CONST type_specifier':
                q = d.one('type_const')
                ok = q and same(q.args[1], spec.res) and same(d.p.ret, q.res) and truth(d, 'type_is_const', spec.res) is False
                why = 'const of a type is %s' % show(d.p.ret)
            elif n == 'IDENTIFIER' and w == n:
                r = d.one('repr_get_reference')
                ok = named(d, r) and truth(d, 'ident_is_type_specifier', r.res) is True
                why = 'a type name denotes %s' % show(d.p.ret)
            elif n in ('STRUCT', 'ENUM'):
                body = 'struct_declaration' if n == 'STRUCT' else 'enum_declaration_list'
                b = d.at(body)
                if w == '%s %s' % (n, body):
                    ok = same(d.p.ret, b.res) and (n == 'ENUM' or -1 in b.args[1:])
                elif w == '%s IDENTIFIER %s' % (n, body):
                    a = d.one('ident_add')
                    if n == 'STRUCT':
                        ok = same(d.p.ret, b.res) and any(same(x, name_of(d)) for x in b.args[1:])
                    else:
                        g = d.one('ident_get_type')
                        ok = a and same(a.args[1], name_of(d)) and is_c(a.args[2]) and a.args[2] >= 1000 and same(a.args[3], b.res) and \
                            g and same(g.args[1], a.res) and same(d.p.ret, g.res)
                elif w == n + ' IDENTIFIER':
                    ok = named(d, None) and c.next_not(d, 'L_BRACE')
                if n == 'ENUM' and b is not None:
                    f = d.p.state.mem.get(c.wtd)
                    ok = ok and f is not None and is_c(f[0]) and f[0] != 0
                why = '%s denotes %s' % (w, show(d.p.ret))
            elif n == 'TYPEDEF':
                a, ptr = d.one('ident_add'), d.one('type_pointer')
                want = spec.res if spec is not None else None
                ok = True
                if w == 'TYPEDEF type_specifier STAR IDENTIFIER':
                    ok = ptr is not None and same(ptr.args[1], want)
                    want = ptr.res if ptr is not None else None
                elif w != 'TYPEDEF type_specifier IDENTIFIER' or ptr is not None:
                    ok = False
                f = d.p.state.mem.get(c.wtd)
                ok = ok and a and same(a.args[1], name_of(d)) and is_c(a.args[2]) and a.args[2] >= 1000 and same(a.args[3], want) and \
                    same(d.p.ret, want) and c.next_is(d, 'SEMICOLON') and f is not None and is_c(f[0]) and f[0] != 0
                why = 'the defined name denotes another type: ' + d.shown()
            ok_paths.add(w)
            ctx.ob(R, w, ok, d.where(), why)
        want = words_of(n)
        for w in want:
            ctx.ob(R, w + ' accepted', w in ok_paths, FILE, 'is not accepted')
        seen |= ok_paths
        if not want:
            ctx.ob(R, 'no type at ' + n, not ok_paths, FILE, 'is accepted as a type')


def vec_ok(d, adds, items, holder):
    """Items are added to one vector, in order, which is the one given to the builder."""
    return len(adds) == len(items) and all(is_res(a.args[1], i) for a, i in zip(adds, items)) and \
        len({repr(a.extra[0]) for a in adds}) <= 1 and (holder is None or not adds or repr(adds[0].extra[0]) == repr(holder))


def declarator(ctx, c):
    """Declarators of variables and of members."""
    R = 'declarator'
    for fn, build, var in (('parse_init_declarator', 'build_declarator', True), ('parse_member_declaration', 'build_member_declaration', False)):
        what = 'variable' if var else 'member'
        pre = '' if var else 'type_specifier '
        rx = re.compile('^' + pre + r'(STAR (CONST )?)?IDENTIFIER((?: L_SQUARE (?:expression )?R_SQUARE)*)' +
                        (r'( EQUAL initializer)?$' if var else r'( SEMICOLON)$'))
        rb = re.compile('^' + pre + r'(STAR (CONST )?)?IDENTIFIER((?: L_SQUARE (?:expression )?R_SQUARE)*)$')
        seen = set()
        bnd = ['', 'L_SQUARE expression R_SQUARE'] + (['L_SQUARE R_SQUARE'] if var else [])
        lang = seqs([pre], ['', 'STAR', 'STAR CONST'], ['IDENTIFIER'], bnd, bnd, bnd, ['', 'EQUAL initializer'] if var else ['SEMICOLON'])
        for d in c.run(fn, rounds=1):
            no_alarm(ctx, c, R, what, d, lang)
            if not good(d):
                continue
            w = d.text
            m = (rb if d.p.kind == 'back' else rx).match(w)
            if not var and 'L_SQUARE R_SQUARE' in w:
                m = None
            ctx.ob(R, '%s: %s %s' % (what, w, d.p.kind), m, d.where(), 'accepted: ' + w)
            if not m:
                continue
            items = [e for e in d.ev if e.name == 'parse_expression' or e.name == 'build_empty_bound_expression']
            adds = d.all('node_vector_add')
            b = d.one(build)
            if d.p.kind == 'back':
                ctx.ob(R, '%s bounds: %s' % (what, w), vec_ok(d, adds, items, None) and len(items) == w.count('L_SQUARE'), d.where(),
                       'a bound is lost or moved: ' + d.shown())
                continue
            seen.add(w)
            ok = b is not None and ret_is(d.p, b) and vec_ok(d, adds, items, b.extra[5] if b else None) and \
                len(items) == w.count('L_SQUARE')
            ctx.ob(R, '%s node: %s' % (what, w), ok, d.where(), 'a bound or the declarator itself is lost: ' + d.shown())
            if not ok:
                continue
            star, const = bool(m.group(1)), bool(m.group(2))
            typ = ('arg', 1) if var else d.at('type_specifier').res
            ctx.ob(R, '%s parts: %s' % (what, w), same(b.args[1], typ) and same(b.args[2], d.at('IDENTIFIER').cap[1]) and
                   b.args[3] in (int(star), star) and b.args[4] in (int(const), const) and
                   (not var or (is_res(b.args[6], d.at('initializer')) if m.group(4) else b.args[6] in (0, ('null',)))), d.where(),
                   'built of the wrong parts: ' + d.shown())
            if not m.group(3):
                ctx.ob(R, '%s end: %s' % (what, w), var and m.group(4) or c.next_not(d, 'L_SQUARE') or w.endswith('SEMICOLON'), d.where(), 'a bound is not read')
            if var and not m.group(4):
                ctx.ob(R, '%s end =: %s' % (what, w), c.next_not(d, 'EQUAL'), d.where(), 'an initialiser is not read')
        for s in ('', 'STAR ', 'STAR CONST '):
            for bd in ('', ' L_SQUARE expression R_SQUARE') + ((' L_SQUARE R_SQUARE',) if var else ()):
                for e in ('', ' EQUAL initializer') if var else (' SEMICOLON',):
                    w = pre + s + 'IDENTIFIER' + bd + e
                    ctx.ob(R, '%s accepted: %s' % (what, w), w in seen, FILE, 'is not accepted')


def declaration(ctx, c):
    R = 'declaration'
    rx = re.compile(r'^type_specifier( init_declarator( COMMA init_declarator)*)? SEMICOLON$')
    rb = re.compile(r'^type_specifier init_declarator( COMMA init_declarator)* COMMA$')
    seen = set()
    lang = seqs(['type_specifier'], ['', 'init_declarator', 'init_declarator COMMA init_declarator',
                                     'init_declarator COMMA init_declarator COMMA init_declarator'], ['SEMICOLON'])
    for d in c.run('parse_declaration', rounds=1):
        no_alarm(ctx, c, R, 'declaration', d, lang)
        if not good(d):
            continue
        w = d.text
        back = d.p.kind == 'back'
        ok = (rb if back else rx).match(w)
        ctx.ob(R, w + ' ' + d.p.kind, ok, d.where(), 'accepted: ' + w)
        if not ok:
            continue
        items = d.all('parse_init_declarator')
        b, e0 = d.one('build_declaration'), d.one('build_empty_declaration')
        t = d.at('type_specifier')
        ok = vec_ok(d, d.all('node_vector_add'), items, None if back or not b else b.extra[2]) and all(same(i.args[1], t.res) for i in items)
        ctx.ob(R, 'items: ' + w, ok, d.where(), 'a declarator is lost, moved or of another type: ' + d.shown())
        if not back:
            seen.add(w)
            ctx.ob(R, 'node: ' + w, b and e0 and ret_is(d.p, b) and is_res(b.args[1], e0) and is_res(t.args[1], e0), d.where(),
                   'the declaration is not what is built: ' + d.shown())
    for w in ('type_specifier SEMICOLON', 'type_specifier init_declarator SEMICOLON',
              'type_specifier init_declarator COMMA init_declarator SEMICOLON'):
        ctx.ob(R, 'accepted: ' + w, w in seen, FILE, 'is not accepted')


def structure(ctx, c):
    R = 'struct'
    seen = set()
    mem = ['', 'member_declaration']
    for d in c.run('parse_struct_declaration', 'L_BRACE', rounds=1):
        no_alarm(ctx, c, R, 'struct', d, seqs(['L_BRACE'], mem, mem, mem, ['R_BRACE']))
        if not good(d):
            continue
        w = d.text
        back = d.p.kind == 'back'
        ok = re.match(r'^L_BRACE( member_declaration)*( R_BRACE)?$', w) and back != w.endswith('R_BRACE')
        ctx.ob(R, w + ' ' + d.p.kind, ok, d.where(), 'accepted: ' + w)
        if not ok:
            continue
        items = d.all('parse_member_declaration')
        b, e0 = d.one('build_struct_declaration'), d.one('build_empty_struct_declaration')
        ok = e0 and vec_ok(d, d.all('node_vector_add'), items, None if back or not b else b.extra[2]) and \
            all(is_res(i.args[1], e0) for i in items)
        ctx.ob(R, 'members: ' + w, ok, d.where(), 'a member is lost or moved: ' + d.shown())
        if back:
            continue
        seen.add(w)
        fn = c.P.need('parse_struct_declaration', c.k.m)
        nm = [('arg', j) for j in range(1, fn.nparams)]
        g, ch, sw = d.one('declaration_struct_get_type'), d.one('node_add_child'), d.one('node_swap')
        ok = b and is_res(b.args[1], e0) and any(a in nm for a in e0.args[1:2]) and g and is_res(g.args[0], b) and same(d.p.ret, g.res)
        ctx.ob(R, 'type: ' + w, ok, d.where(), 'the type is not that of the declaration built: ' + d.shown())
        ok = ch and ch.args[0] in nm and sw and {0, 1} == {j for j in range(2) if is_res(sw.args[j], b) or is_res(sw.args[j], ch)}
        ctx.ob(R, 'tree: ' + w, ok, d.where(), 'the declaration does not enter the tree: ' + d.shown())
        f = d.p.state.mem.get(c.wtd)
        ctx.ob(R, 'defines a type: ' + w, True if f is None else not is_c(f[0]) or f[0] != 0, d.where(), 'not marked as a type definition')
    for w in ('L_BRACE R_BRACE', 'L_BRACE member_declaration R_BRACE'):
        ctx.ob(R, 'accepted: ' + w, w in seen, FILE, 'is not accepted')
    ctx.minimum(R, 10)


def plus1(t):
    if is_c(t):
        return t + 1
    return ('+1', strip(t))


def is_val(t, want):
    """t is the value `want` (a constant, a term, or ('+1', term))."""
    t = strip(t)
    n = 0
    while isinstance(t, tuple) and t[0] == 'op' and t[1] in ('add', 'sub') and is_c(t[4]):
        n += t[4] if t[1] == 'add' else -t[4]
        t = strip(t[3])
    while isinstance(want, tuple) and want[0] == '+1':
        n -= 1
        want = want[1]
    if is_c(t) and is_c(want):
        return t + n == want
    return n == 0 and t == strip(want)


def enumeration(ctx, c):
    R = 'enum'
    fn = 'parse_enum_declaration_list'
    item = ['IDENTIFIER', 'IDENTIFIER EQUAL constant_expression']
    sep = [''] + ['COMMA ' + i for i in item]
    lang = seqs(['L_BRACE'], item, sep, sep, sep, ['R_BRACE', 'COMMA R_BRACE'])
    seen = set()
    rx = re.compile(r'^L_BRACE I( COMMA I)*( COMMA)?( R_BRACE)?$')
    for d in c.run(fn, 'L_BRACE', rounds=2, extra={'expression_get_type'}):
        gt, lit = d.all('expression_get_type'), d.all('expression_literal_get_integer')

        def nonint(d):
            return any(d.p.facts.eq.get(x.res) == (1 << 31) - 1 or d.p.facts.eq.get(strip(x.res)) == (1 << 31) - 1 for x in lit) or \
                any(c.T['INTEGER'] in d.p.facts.ne.get(x.res, ()) and
                    any((p == 'eq') != v and 'type_add' in repr(o) for p, o, v in tests(d, x.res)) for x in gt)
        no_alarm(ctx, c, R, 'enum', d, lang, nonint)
        if not good(d):
            continue
        w = d.text
        m = rx.match(w.replace('IDENTIFIER EQUAL constant_expression', 'I').replace('IDENTIFIER', 'I'))
        ok = m and (d.p.kind == 'back') != bool(m.group(3)) and (m.group(2) or d.p.kind == 'ret')
        ctx.ob(R, w + ' ' + d.p.kind, ok, d.where(), 'accepted: ' + w)
        if not ok:
            continue
        ids = [e for s, e in zip(d.w, d.we) if s == 'IDENTIFIER']
        ces = dict()
        n = -1
        for s, e in zip(d.w, d.we):
            if s == 'IDENTIFIER':
                n += 1
            elif s == 'constant_expression':
                ces[n] = e
        adds, sets = d.all('ident_add'), d.all('ident_set_displ')
        ty = d.one('type_add')
        ok = ty is not None and len(ids) == len(adds) == len(sets) and ty.cap[0] == c.T['ENUM'] and ty.args[2] == 1
        ctx.ob(R, 'constants: ' + w, ok, d.where(), 'a constant is not declared: ' + d.shown())
        if not ok:
            continue
        prev = None
        lits = iter(lit)
        for n, (i, a, s) in enumerate(zip(ids, adds, sets)):
            ctx.ob(R, 'constant %d: %s' % (n, w), same(a.args[1], i.cap[1]) and a.args[2] == 0 and same(s.args[1], a.res) and
                   is_neg(a.args[3], ty.res), a.where(), 'the constant is declared as %s' % show(a.args))
            if n in ces:
                x = next(lits, None)
                ok = x is not None and d.ev.index(x) > d.ev.index(ces[n]) and is_res(x.args[0], ces[n]) and is_val(s.args[2], x.res)
                g = [q for q in gt if is_res(q.args[0], ces[n])]
                ok = ok and any(d.p.facts.eq.get(q.res) == c.T['INTEGER'] or equal_to(d, q.res, ty.res) for q in g)
                prev = x.res if x is not None else None
            else:
                want = 0 if prev is None else plus1(prev)
                ok = is_val(s.args[2], want)
                prev = want
            ctx.ob(R, 'value %d: %s' % (n, w), ok, s.where(), 'its value is %s' % show(s.args[2]))
        if d.p.kind == 'ret':
            seen.add(w)
            ctx.ob(R, 'type: ' + w, same(d.p.ret, ty.res), d.where(), 'the enumeration has type ' + show(d.p.ret))
    for w in ('L_BRACE IDENTIFIER R_BRACE', 'L_BRACE IDENTIFIER EQUAL constant_expression R_BRACE', 'L_BRACE IDENTIFIER COMMA IDENTIFIER R_BRACE',
              'L_BRACE IDENTIFIER EQUAL constant_expression COMMA IDENTIFIER R_BRACE'):
        ctx.ob(R, 'accepted: ' + w, w in seen, FILE, 'is not accepted')


def is_neg(t, x):
    t = strip(t)
    return isinstance(t, tuple) and t[0] == 'op' and t[1] == 'sub' and t[3] == 0 and same(t[4], x)


def equal_to(d, a, b):
    for t, f in d.p.facts.log:
        if isinstance(t, tuple) and t[0] == 'cmp' and t[1] in ('eq', 'ne') and {repr(strip(t[2])), repr(strip(t[3]))} == {repr(strip(a)), repr(strip(b))}:
            return bool(f) == (t[1] == 'eq')
    return False


PARAM = re.compile(r'^type_specifier( STAR( CONST)?)?( IDENTIFIER)?(?:((?: L_SQUARE R_SQUARE)+)|( L_PAREN STAR( IDENTIFIER)? R_PAREN L_PAREN function_declarator))?$')


def parameters(ctx, c):
    R = 'parameter'
    fn = c.P.need('parse_function_declarator', c.k.m)
    plain = ['type_specifier ' + s + i + b for s in ('', 'STAR ', 'STAR CONST ') for i in ('', 'IDENTIFIER ')
             for b in ('', 'L_SQUARE R_SQUARE', 'L_SQUARE R_SQUARE L_SQUARE R_SQUARE')]
    func = ['type_specifier L_PAREN STAR %sR_PAREN L_PAREN function_declarator' % i for i in ('', 'IDENTIFIER ')]
    one = plain + func
    named = [x for x in one if 'IDENTIFIER' in x]
    bare = [x for x in one if 'IDENTIFIER' not in x]
    for level, mode, groups in ((1, 3, (named, bare)), (0, 2, (bare,))):
        lang = [('R_PAREN',)]
        for g in groups:
            lang += seqs(g, ['R_PAREN']) + seqs(g, ['COMMA'], g, ['R_PAREN']) + seqs(g, ['COMMA'], g[:1] + g[-1:], ['COMMA'], g[:1] + g[-1:], ['R_PAREN'])
        seen = set()
        for d in c.run('parse_function_declarator', rounds=1, args={1: level, 2: mode}):
            w = d.text
            spec = d.all('parse_type_specifier')
            no_alarm(ctx, c, R, 'parameters', d, lang,
                     lambda d: any(void(d, e) for e in spec + d.all('type_pointer') + d.all('type_const') + d.all('type_array')) or
                     truth(d, 'type_is_pointer') is True)
            if not good(d):
                continue
            back = d.p.kind == 'back'
            if back and not w.endswith('COMMA'):
                continue        # within the brackets of an array
            parts = [x.strip() for x in w[:-7].split('COMMA')] if w.endswith('R_PAREN') and not back else [x.strip() for x in w.split('COMMA')]
            if back and parts and not parts[-1]:
                parts.pop()
            if w == 'R_PAREN':
                parts = []
            ms = [PARAM.match(x) for x in parts]
            names = ['IDENTIFIER' in x for x in parts]
            ok = all(ms) and (len(set(names)) < 2) and (not any(names) or level == 1) and not any(m.group(1) and m.group(5) or m.group(3) and m.group(6) for m in ms)
            ctx.ob(R, 'level %d: %s %s' % (level, w, d.p.kind), ok or back and all(ms) and not level, d.where(), 'accepted: ' + w)
            if not ok:
                continue
            # the events of each parameter
            at = [d.ev.index(e) for e in spec] + [len(d.ev)]
            types = []
            good_ = True
            for j, m in enumerate(ms):
                evs = d.ev[at[j]:at[j + 1]]
                t = spec[j].res
                get = lambda n: [e for e in evs if e.name == n]
                if m.group(1):
                    q = get('type_pointer')
                    good_ &= len(q) == 1 and same(q[0].args[1], t)
                    t = q[0].res if q else None
                if m.group(2):
                    q = get('type_const')
                    good_ &= len(q) == 1 and same(q[0].args[1], t)
                    t = q[0].res if q else None
                if not m.group(5):
                    good_ &= void(d, None, t) is False
                for q in get('type_array'):
                    good_ &= same(q.args[1], t)
                    t = q.res
                good_ &= len(get('type_array')) == (m.group(4) or '').count('L_SQUARE')
                if m.group(5):
                    q = get('parse_function_declarator')
                    good_ &= len(q) == 1 and q[0].args[1:] == (0, 2, t)
                    t = q[0].res if q else None
                ids = [e for e in evs if e.name == 'lex' and is_c(e.cap[0]) and e.cap[0] == c.k.t('IDENTIFIER')]
                fa = get('func_add')
                good_ &= len(ids) == len(fa) and len(fa) < 2
                if fa and ids:
                    n = ids[0].cap[1]
                    good_ &= is_neg(fa[0].args[1], n) if m.group(6) else same(fa[0].args[1], n)
                types.append(t)
            ctx.ob(R, 'level %d types: %s' % (level, w), good_, d.where(), 'a parameter has another type or name: ' + d.shown())
            if back:
                continue
            seen.add(w)
            ta = d.one('type_add')
            ok = ta is not None and same(d.p.ret, ta.res) and ta.args[2] == 3 + len(types) and ta.cap[0] == c.T['FUNCTION'] and \
                same(ta.cap[1], ('arg', 3)) and ta.cap[2] == len(types) and all(same(a, b) for a, b in zip(ta.cap[3:], types))
            ctx.ob(R, 'level %d record: %s' % (level, w), ok, d.where(), 'the function type is %s' % (ta and [show(x) for x in ta.cap[:6] if x is not None]))
            f = d.p.state.mem.get(c.fdef)
            want = 0 if not parts else 1 if any(names) else 2
            ctx.ob(R, 'level %d form: %s' % (level, w), f is not None and f[0] == want, d.where(),
                   'is taken for form %s, not %d' % (f and show(f[0]), want))
        for g in groups:
            for x in g + [g[0] + ' COMMA ' + g[-1]]:
                x = ' '.join((x + ' R_PAREN').split())
                if x.count('L_SQUARE') < 2 and not (level == 0 and 'STAR L_SQUARE' in x):
                    ctx.ob(R, 'level %d accepted: %s' % (level, x), x in seen, FILE, 'is not accepted')
        ctx.ob(R, 'level %d accepted: R_PAREN' % level, 'R_PAREN' in seen, FILE, 'is not accepted')


def void(d, e, t=None):
    return truth(d, 'type_is_void', t if e is None else e.res)


def eq_known(d, t):
    t = strip(t)
    for x, v in d.p.facts.eq.items():
        if strip(x) == t:
            return v
    return None


def ne_known(d, t):
    t = strip(t)
    out = set()
    for x, v in d.p.facts.ne.items():
        if strip(x) == t:
            out |= set(v)
    return out


def tests(d, t):
    """Facts of the path that compare the term t: (predicate, other, truth)."""
    t = repr(strip(t))
    for f, v in d.p.facts.log:
        if isinstance(f, tuple) and f[0] == 'cmp':
            a, b = strip(f[2]), strip(f[3])
            if repr(a) == t:
                yield f[1], b, bool(v)
            elif repr(b) == t:
                yield {'slt': 'sgt', 'sgt': 'slt', 'ult': 'ugt', 'ugt': 'ult'}.get(f[1], f[1]), a, bool(v)


def calls_in(d, name):
    """Call terms of a pure function the path has tested."""
    out = []

    def walk(t):
        if isinstance(t, tuple):
            if t and t[0] == 'call' and t[1] == name and t not in out:
                out.append(t)
            for x in t:
                walk(x)
    for f, _ in d.p.facts.log:
        walk(f)
    return out


def functions(ctx, c):
    R = 'prototype'
    fn = c.P.need('parse_function_declaration', c.k.m)
    main = c.P.enum(c.k.m, 'token_t')['TK_MAIN']
    seen = set()
    for d in c.run('parse_function_declaration', 'IDENTIFIER', rounds=0, args={}):
        if d.p.kind == 'cut' and not is_error(d.p):
            continue
        typ = ('arg', 2)
        decl = d.one('parse_function_declarator')
        const = truth(d, 'type_is_const', typ)
        ref = [r for r in d.all('repr_get_reference')]
        cls = calls_in(d, 'type_get_class')
        amount = calls_in(d, 'type_function_get_parameter_amount')
        ptype = calls_in(d, 'type_function_get_parameter_type')
        add = d.one('ident_add')
        is_main = ref and eq_known(d, ref[0].res) == main
        df = d.one('parse_function_definition')
        brace = df.cap[0] == c.k.t('L_BRACE') if df else c.next_is(d, 'L_BRACE')
        cell = d.p.state.mem.get(c.fdef)
        # what is wrong with the declaration, according to what the path has found out
        wrong = set()
        if const:
            wrong.add('const')
        if is_main:
            ok_cls = any(eq_known(d, t) in (c.T['INTEGER'], c.T['VOID']) for t in cls)
            if not ok_cls and any({c.T['INTEGER'], c.T['VOID']} <= ne_known(d, t) for t in cls):
                wrong.add('return type of main')
            if any((p, o, v) in (('ugt', 1, True), ('ult', 2, False)) for t in amount for p, o, v in tests(d, t)):
                wrong.add('parameters of main')
            if any(eq_known(d, t) == 1 for t in amount) and ptype and any((p == 'eq') != v for t in ptype for p, o, v in tests(d, t)):
                wrong.add('parameter type of main')
        again = bool(add) and eq_known(d, add.res) in (-1, -2)
        if is_error(d.p):
            k = [e for e in d.ev if e.name == 'report_error'][0]
            # the form of the declarator, as the parser of declarators left it
            form, not_form = None, set()
            for f, v in d.p.facts.eq.items():
                if _ld(f) is not None and split(_ld(f)) == c.fdef:
                    form = v
            for f, v in d.p.facts.ne.items():
                if _ld(f) is not None and split(_ld(f)) == c.fdef:
                    not_form |= set(v)
            other = form not in (0, 1, None) or {0, 1} <= not_form
            no_def = other or form == 0 and not brace or form is None and 1 in not_form and not brace
            why = wrong or again or is_main and no_def or brace and other or not brace and form == 1
            ctx.ob(R, 'diagnostic %s' % (sorted(wrong) or 'form'), why, k.where(), 'a correct declaration is reported')
            continue
        if d.p.kind != 'ret':
            continue
        w = d.text
        ok = decl is not None and add is not None and any(same(a, typ) for a in decl.args[1:]) and 1 in decl.args[1:] and 3 in decl.args[1:]
        ctx.ob(R, 'declared: ' + w, ok, d.where(), 'the function is not declared as written: ' + d.shown())
        if not ok:
            continue
        num = d.one('func_reserve')
        first = [e for e in d.we if e.name == 'lex'][0]
        ctx.ob(R, 'name and type: ' + w, same(add.args[1], first.cap[1]) and num and same(add.args[2], num.res) and same(add.args[3], decl.res) and
               d.ev.index(num) < d.ev.index(decl) < d.ev.index(add), add.where(), 'declared as %s' % show(add.args))
        form = add.cap[0] if add.cap else None
        form = form if is_c(form) else d.p.facts.eq.get(form, form)
        ctx.ob(R, 'body: ' + w, bool(df) == brace and (df is None or any(same(a, add.res) for a in df.args[1:]) and ('arg', 1) in df.args) and
               (form == 1 if df else True), d.where(), 'form %s: %s' % (show(form), 'a body is read' if df else 'no body is read'))
        if not df:
            nb = c.next_not(d, 'L_BRACE')
            n1 = form in (0, 2) or 1 in d.p.facts.ne.get(form, ())
            ctx.ob(R, 'no body: ' + w, nb and n1, d.where(), 'a definition without body is accepted')
        ctx.ob(R, 'result: ' + w, const is False and not wrong, d.where(), 'accepted although: ' + ', '.join(sorted(wrong)))
        if is_main:
            okc = any(eq_known(d, t) in (c.T['INTEGER'], c.T['VOID']) for t in cls)
            n = [eq_known(d, t) for t in amount]
            few = any((p, o, v) in (('ugt', 1, False), ('ult', 2, True)) for t in amount for p, o, v in tests(d, t)) or 1 in n or 0 in n
            okp = 1 not in n and any(1 in ne_known(d, t) for t in amount) or 0 in n or \
                any((p == 'eq') == v and isinstance(o, tuple) and o[0] == 'call' and o[1] == 'type_array' and 'type_string' in repr(o)
                    for t in ptype for p, o, v in tests(d, t))
            ctx.ob(R, 'main: ' + w, okc and few and okp and form == 1, d.where(), 'main is accepted in another form')
            seen.add('main%s' % (1 in n))
        else:
            ctx.ob(R, 'other: ' + w, ref and main in ne_known(d, ref[0].res), d.where(), 'main is not told from other functions')
            seen.add('def' if df else 'proto')
    for x in ('mainTrue', 'mainFalse', 'def', 'proto'):
        ctx.ob(R, 'accepted: ' + x, x in seen, FILE, 'is not accepted')
    definition(ctx, c)


def definition(ctx, c):
    R = 'function'
    P, k = c.P, c.k
    bcell = (('arg', 0), k.bld + P.field(k.m, 'builder', 'func_type'), ())
    wret = (('arg', 0), P.field(k.m, 'parser', 'was_return'), ())
    DEF, VAR = P.ev(k.m, 'OP_FUNC_DEF'), P.ev(k.m, 'OP_DECL_VAR')
    seen = set()

    def cap(pol):
        old = pol.capture

        def f(it, st, name, args):
            if name == 'parse_compound_statement_body':
                return (st.mem.get(bcell), st.mem.get(wret))
            return old(it, st, name, args)
        pol.capture = f
    for d in c.run('parse_function_definition', rounds=1, nonnull=[0, 1], tune=cap, extra={'node_save'}):
        if d.p.kind == 'back' or eq_known(d, ('arg', 2)) == -1:
            continue
        if d.p.kind == 'cut' and not is_error(d.p):
            continue
        typ = [e for e in d.all('ident_get_type') if e.args[1] == ('arg', 2)]
        ret = calls_in(d, 'type_function_get_return_type')
        void_ret = any(eq_known(d, t) == c.T['VOID'] for t in ret)
        body = d.one('parse_compound_statement_body')
        again = any(eq_known(d, a.res) in (-1, -2) for a in d.all('ident_add'))
        # the prototype, when there is one
        ptype = [e for e in d.all('ident_get_type') if e.args[1] != ('arg', 2)]
        if is_error(d.p):
            differ = typ and any((p == 'eq') != v for e in ptype for p, o, v in tests(d, e.res) if same(o, typ[0].res)) or \
                typ and any((p == 'eq') != v for e in typ for p, o, v in tests(d, e.res) if any(same(o, q.res) for q in ptype))
            e0 = [e for e in d.ev if e.name == 'report_error'][0]
            noret = body is not None and not void_ret and ret and d.ev.index(body) < d.ev.index(e0) and \
                not any(v for f, v in d.p.facts.log if repr(wret[1]) in repr(f) and f[0] != 'cmp')
            ctx.ob(R, 'diagnostic ' + ('prototype' if differ else 'return' if noret else '?'), differ or noret or again, e0.where(),
                   'a correct definition is reported')
            if differ or noret:
                seen.add('prototype error' if differ else 'return error')
            continue
        w = ' '.join(e.name for e in d.ev if e.name in ('ident_add', 'node_add_child', 'node_swap')) or 'nothing'
        ok = typ and body is not None and d.one('scope_func_enter') is not None and d.one('scope_func_exit') is not None
        ctx.ob(R, 'body: ' + w, ok, d.where(), 'the body is not parsed in the scope of the function: ' + d.shown())
        if not ok:
            continue
        t0 = typ[0].res
        adds = d.all('ident_add')
        kids = d.all('node_add_child')
        enter, leave = d.one('scope_func_enter'), d.one('scope_func_exit')
        ix = d.ev.index
        # scope
        ok = all(ix(enter) < ix(a) < ix(body) for a in adds) and ix(enter) < ix(body) < ix(leave) and same(leave.args[1], enter.res)
        sa = d.one('node_set_arg')
        ctx.ob(R, 'scope: ' + w, ok and sa and is_res(sa.args[0], kids[0]) and sa.args[1] == 1 and same(sa.args[2], leave.res), d.where(),
               'the scope of the function is not closed, or its size not kept')
        # parameters
        n_ok = any(True for t in calls_in(d, 'type_function_get_parameter_amount') if same(t[2][1], t0))
        pars = [q for q in kids if q.args[1] == VAR]
        ok = n_ok and len(pars) == len(adds)
        why = 'a parameter is lost'
        for j, (a, q) in enumerate(zip(adds, pars)):
            fg = [e for e in d.all('func_get') if ix(e) < ix(a)]
            x = fg[-1] if fg else None
            pt = strip(a.args[3])
            good_ = x is not None and is_off(x.args[1], 'ident_get_displ', j + 1) and pt[0] == 'call' and \
                pt[1] == 'type_function_get_parameter_type' and same(pt[2][1], t0) and pt[2][2] == j and 'abs' in repr(a.args[1])[:40] and \
                repr(strip(x.res)) in repr(a.args[1])
            pos = [(o == 0) and v for p, o, v in tests(d, x.res) if p == 'sgt'] if x else []
            good_ = good_ and bool(pos) and a.args[2] == (0 if pos[-1] else -1)
            na = [e for e in d.all('node_add_arg') if is_res(e.args[0], q)]
            dims = sum(1 for f, v in d.p.facts.log if v and f[0] == 'call' and f[1] == 'type_is_array' and arr_of(f[2][1], pt))
            good_ = good_ and [e.args[1] for e in na[1:]] == [dims, 0] and same(na[0].args[1], a.res) and is_res(q.args[0], kids[0])
            if not good_:
                ok, why = False, 'parameter %d: %s' % (j, d.shown())
        ctx.ob(R, 'parameters: ' + w, ok, d.where(), why)
        # the node
        na = [e for e in d.all('node_add_arg') if is_res(e.args[0], kids[0])]
        nop = kids[-1]
        sw = d.one('node_swap')
        ok = kids[0].args[0] == ('arg', 1) and kids[0].args[1] == DEF and [e.args[1] for e in na] == [('arg', 2), 0] and \
            is_res(nop.args[0], kids[0]) and nop not in pars and nop is not kids[0] and sw and \
            any(is_res(sw.args[j], body) and is_res(sw.args[1 - j], nop) for j in range(2)) and all(ix(q) < ix(nop) for q in pars)
        ctx.ob(R, 'node: ' + w, ok, d.where(), 'the definition is not built of its parameters and body: ' + d.shown())
        fs, sv, cp = d.one('func_set'), d.one('node_save'), d.one('node_copy')
        ok = fs and sv and is_res(sv.args[0], kids[0]) and same(fs.args[2], sv.res) and is_off(fs.args[1], 'ident_get_displ', 0) and \
            cp and is_res(cp.args[1], kids[0]) and ix(cp) < ix(body)
        ctx.ob(R, 'link: ' + w, ok, d.where(), 'the function table does not lead to the definition')
        # returns
        ft, wr = body.cap
        ctx.ob(R, 'type in body: ' + w, ft is not None and same(ft[0], t0) and wr is not None and wr[0] in (0, False), body.where(),
               'the body is not checked against the type of this function')
        wtrue = any(v for f, v in d.p.facts.log if repr(wret[1]) in repr(f) and f[0] != 'cmp')
        ctx.ob(R, 'return: ' + w, void_ret or wtrue, d.where(), 'a function with a result and without return is accepted')
        # prototype
        sd = d.all('ident_set_displ')
        if ptype:
            pv = strip(ptype[0].args[1])
            eq = any((p == 'eq') == v for e in ptype for p, o, v in tests(d, e.res) if same(o, t0))
            ok = eq and pv[0] == 'call' and pv[1] == 'ident_get_prev' and same(pv[2][1], ('arg', 2)) and len(sd) == 1 and \
                same(sd[0].args[1], pv) and is_off(sd[0].args[2], 'ident_get_displ', 0)
            seen.add('prototype')
        else:
            pv = calls_in(d, 'ident_get_prev')
            lim = (1 << 63) - 2
            ok = not sd and (any(eq_known(d, t) in (lim, 0, 1) for t in pv) or
                             any((p, o, v) in (('ugt', 1, False), ('ult', 2, True)) for t in pv for p, o, v in tests(d, t)))
            seen.add('first')
        ctx.ob(R, 'prototype: ' + w, ok, d.where(), 'the prototype is not compared and completed: ' + d.shown())
    for x in ('prototype', 'first', 'prototype error', 'return error'):
        ctx.ob(R, 'case ' + x, x in seen, FILE, 'is not found')


def is_off(t, name, n):
    """t is name(arg2) + n."""
    t = strip(t)
    m = 0
    while isinstance(t, tuple) and t[0] == 'op' and t[1] == 'add' and is_c(t[4]):
        m += t[4]
        t = strip(t[3])
    return m == n and isinstance(t, tuple) and t[0] == 'call' and t[1] == name and any(same(a, ('arg', 2)) for a in t[2])


def arr_of(t, pt):
    t = strip(t)
    while isinstance(t, tuple) and t[0] == 'call' and t[1] == 'type_array_get_element_type':
        t = strip(t[2][1])
    return t == pt


def external(ctx, c):
    R = 'external'
    D1 = ['init_declarator', 'STAR init_declarator', 'function_declaration', 'STAR function_declaration']
    lang = seqs(['type_specifier'], D1, [''] + ['COMMA ' + x for x in D1], ['SEMICOLON']) + [('type_specifier', 'SEMICOLON')]
    one = '(STAR )?(init_declarator|function_declaration)'
    rx = re.compile('^type_specifier %s( COMMA %s)*( COMMA| SEMICOLON)?$' % (one, one))
    seen = set()
    for d in c.run('parse_external_definition', rounds=1, nonnull=[0, 1]):
        spec = d.at('type_specifier')
        no_alarm(ctx, c, R, 'file scope', d, [x for x in lang if len(x) > 2])
        if not good(d):
            continue
        w = d.text
        fdef = d.p.state.mem.get(c.fdef)
        if w == 'type_specifier SEMICOLON':
            f = [v for t, v in d.p.facts.log if repr(c.wtd[1]) in repr(t)]
            ctx.ob(R, w, f and f[-1], d.where(), 'a type without declarator is accepted')
            seen.add(w)
            continue
        m = rx.match(w)
        back = d.p.kind == 'back'
        ok = m and back == w.endswith('COMMA')
        if ok and not back and not w.endswith('SEMICOLON'):
            fd = fdef[0] if fdef else None
            ok = fd is not None and (fd == 1 or d.p.facts.eq.get(fd) == 1)
        ctx.ob(R, w + ' ' + d.p.kind, ok, d.where(), 'accepted: ' + w)
        if not ok:
            continue
        items = [(s, e) for s, e in zip(d.w, d.we) if s in ('init_declarator', 'function_declaration')]
        stars = [d.w[j - 1] == 'STAR' for j, s in enumerate(d.w) if s in ('init_declarator', 'function_declaration')]
        inits = [e for s, e in items if s == 'init_declarator']
        kids, sws = d.all('node_add_child'), d.all('node_swap')
        ok = len(kids) == len(sws) == len(inits) and all(q.args[0] == ('arg', 1) for q in kids) and \
            all(any(is_res(s.args[j], i) and is_res(s.args[1 - j], q) for j in range(2)) for s, i, q in zip(sws, inits, kids))
        ctx.ob(R, 'items: ' + w, ok, d.where(), 'a variable does not enter the tree in its place: ' + d.shown())
        ptrs = d.all('type_pointer')
        peeks = d.all('peek')
        pi = iter(ptrs)
        for n, ((s, e), st) in enumerate(zip(items, stars)):
            t = spec.res
            if st:
                q = next(pi, None)
                ok = q is not None and same(q.args[1], t)
                t = q.res if q else None
            else:
                ok = True
            ok = ok and any(same(a, t) for a in e.args[1:]) and n < len(peeks)
            lp = n < len(peeks) and eq_known(d, peeks[n].res) == c.k.t('L_PAREN')
            ok = ok and (lp if s == 'function_declaration' else n < len(peeks) and c.k.t('L_PAREN') in ne_known(d, peeks[n].res))
            if s == 'function_declaration':
                ok = ok and any(a == ('arg', 1) for a in e.args)
            elif not back and not is_error(d.p):
                ok = ok and truth(d, 'type_is_void', spec.res) is False
            ctx.ob(R, '%s item %d' % (w, n), ok, e.where(), 'the declarator is taken for %s of type %s' % (s, show(e.args)))
        if not back:
            seen.add(w)
    for x in ['type_specifier SEMICOLON', 'type_specifier function_declaration'] + ['type_specifier %s SEMICOLON' % x for x in D1] + \
            ['type_specifier init_declarator COMMA %s SEMICOLON' % x for x in D1]:
        ctx.ob(R, 'accepted: ' + x, x in seen, FILE, 'is not accepted')

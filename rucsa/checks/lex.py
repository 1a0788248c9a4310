"""F01 F02 F10: lexical tables."""
from ..absint import Policy, mkptr, read_wide, show, is_c
from ..program import AnalysisError

PUNCT = {
    '?': 'QUESTION', '[': 'L_SQUARE', ']': 'R_SQUARE', '(': 'L_PAREN', ')': 'R_PAREN', '{': 'L_BRACE', '}': 'R_BRACE',
    '~': 'TILDE', ':': 'COLON', ';': 'SEMICOLON', ',': 'COMMA', '.': 'PERIOD', '*': 'STAR', '*=': 'STAR_EQUAL',
    '!': 'EXCLAIM', '!=': 'EXCLAIM_EQUAL', '%': 'PERCENT', '%=': 'PERCENT_EQUAL', '^': 'CARET', '^=': 'CARET_EQUAL',
    '=': 'EQUAL', '==': 'EQUAL_EQUAL', '+': 'PLUS', '+=': 'PLUS_EQUAL', '++': 'PLUS_PLUS', '|': 'PIPE',
    '|=': 'PIPE_EQUAL', '||': 'PIPE_PIPE', '&': 'AMP', '&=': 'AMP_EQUAL', '&&': 'AMP_AMP', '-': 'MINUS',
    '-=': 'MINUS_EQUAL', '--': 'MINUS_MINUS', '->': 'ARROW', '<': 'LESS', '<<': 'LESS_LESS', '<<=': 'LESS_LESS_EQUAL',
    '<=': 'LESS_EQUAL', '>': 'GREATER', '>>': 'GREATER_GREATER', '>>=': 'GREATER_GREATER_EQUAL',
    '>=': 'GREATER_EQUAL', '/': 'SLASH', '/=': 'SLASH_EQUAL',
}
COMMENT = ('//', '/*')


class LexPol(Policy):
    """One generic iteration of every loop; the character source is the only thing left symbolic."""
    events = {'uni_scan_char', 'uni_unscan_char', 'in_set_position', 'token_punctuator', 'token_eof', 'report_error',
              'token_identifier', 'token_keyword', 'token_int_literal', 'token_float_literal', 'token_char_literal',
              'token_string_literal', 'vector_add', 'string_add', 'warning', 'repr_reserve', 'vector_resize'}
    opaque = {'in_get_position', 'repr_get_reference', 'pow'}
    record_back = True
    unroll_forked = 0

    def cut_back(self, fn):
        return True

    def decide(self, it, st, name, args, fn):
        if name in self.events:
            return 'event'
        if fn is None or name in self.opaque:
            return 'opaque'
        return 'inline'


def lex_paths(ctx, c, pol=None, root='lex'):
    P = ctx.prog
    fn = P.need(root)
    m = P.module('compiler/lexer.c')
    off = P.field(m, 'lexer', 'character')
    lx = 1 if fn.sret else 0
    mem = {(('arg', lx), off, ()): (c, 4)}
    pol = pol or LexPol()
    return ctx.paths(fn, pol, mem=mem, nonnull=[lx]), ('arg', lx), off


def consumed(p):
    """Characters consumed before the first token event: list of scan result terms, current character last."""
    scans = []
    pos = []
    for e in p.events:
        if e.name == 'uni_scan_char':
            scans.append(e)
        elif e.name == 'in_set_position':
            if scans:
                scans.pop()
        elif e.name.startswith('token_'):
            return scans, e
    return scans, None


def check_punct(ctx):
    ctx.rule('spelling', 'every path of the scanner that starts at a punctuation character yields exactly the token of '
                         'the longest spelling its tested characters form')
    ctx.rule('munch', 'a shorter token is returned only after every character that would extend it was excluded')
    ctx.rule('consume', 'a token leaves the scanner at the first character behind its spelling')
    ctx.rule('complete', 'every spelling of the language is produced by some path')
    P = ctx.prog
    m = P.module('compiler/lexer.c')
    tk = {v: k for k, v in P.enum(m, 'token_t').items()}
    seen = {}
    firsts = sorted({s[0] for s in PUNCT})
    for c in firsts:
        paths, lx, off = lex_paths(ctx, ord(c))
        for p in paths:
            if p.kind not in ('ret', 'back'):
                continue
            scans, tok = consumed(p)
            # constraints on the scanned characters
            eq, ne = [], []
            for s in scans:
                v = p.facts.eq.get(s.res)
                eq.append(chr(v) if is_c(v) and 0 <= v < 0x110000 else None)
                ne.append({chr(x) for x in p.facts.ne.get(s.res, ()) if 0 <= x < 0x110000})
            pre = c
            for k, ch in enumerate(eq):
                if ch is None or not any(s.startswith(pre + ch) for s in list(PUNCT) + list(COMMENT)):
                    break
                pre += ch
            if tok is None:
                continue
            if tok.name == 'token_punctuator':
                where = tok.where()
                kind = tok.args[-1]
                name = tk.get(kind, show(kind))
                n = len(scans)
                # spelling: first char + all scanned but the last (which is the new current character)
                sp = c
                ok = True
                for k in range(n - 1):
                    if eq[k] is None:
                        ok = False
                    else:
                        sp += eq[k]
                if n and eq[n - 1] is not None:
                    # last scanned char known: fine unless it extends the spelling
                    ext = {eq[n - 1]}
                else:
                    ext = None
                if any(sp.startswith(x) for x in COMMENT):
                    continue
                if not ok:
                    ctx.ob('consume', '%s..%s' % (c, name), False, where,
                           'a character is consumed without having been tested')
                    continue
                want = PUNCT.get(sp)
                ctx.ob('spelling', repr(sp) + '->' + name.replace('TK_', ''), want is not None and name == 'TK_' + want, where,
                       'spelling %r is returned as %s, expected %s' % (sp, name, want and 'TK_' + want))
                exts = {s[len(sp)] for s in list(PUNCT) + list(COMMENT) if len(s) > len(sp) and s.startswith(sp)}
                if n == 0:
                    ctx.ob('consume', sp, False, where, 'the token is returned without consuming its first character')
                    continue
                miss = (exts & ext) if ext is not None else (exts - ne[n - 1])
                ctx.ob('munch', sp, not miss, where,
                       '%r is returned although the next character may be %s' % (sp, sorted(miss)))
                cur = p.state.mem.get((lx, off, ()))
                ctx.ob('consume', sp, cur is not None and cur[0] == scans[n - 1].res, where,
                       'after %r the current character is %s, expected the character behind the token'
                       % (sp, show(cur[0]) if cur else 'unknown'))
                seen.setdefault(sp, where)
            elif tok.name in ('token_int_literal', 'token_float_literal') and c == '.':
                pass
            elif c == '.' or pre in COMMENT:
                pass
            elif tok.name == 'token_eof' or tok.name.startswith('token_'):
                # a later iteration (after a comment or a rejected character); only a comment may come first
                ctx.ob('spelling', repr(pre) + ' skipped', any(pre.startswith(x) for x in COMMENT), tok.where(),
                       'input starting with %r is skipped and %s is returned' % (pre, tok.name))
    for s in PUNCT:
        ctx.ob('complete', s, s in seen, seen.get(s, 'libs/compiler/lexer.c (lex)'), 'no path returns a token for %r' % s)
    ctx.minimum('spelling', 40)
    # everything else that is not a letter, digit, quote, whitespace or end of input is diagnosed
    ctx.rule('reject', 'a character no token starts with is reported as an error, and every error is reported')
    from ..absint import uns
    for c in list(range(1, 32)) + [ord('$'), ord('@'), ord('\\'), ord('`'), 127, 0x2192]:
        if c in (9, 10, 13):
            continue
        paths, lx, off = lex_paths(ctx, c)
        bad = [p for p in paths if p.kind in ('ret', 'back') and not any(e.name == 'report_error' for e in p.events)]
        ctx.ob('reject', 'U+%04X' % c, not bad, 'libs/compiler/lexer.c (lex)',
               'character U+%04X is accepted without a diagnostic' % c)
    ctx.minimum('reject', 30)


KEYWORDS = [
    ('main', 'главная', 'TK_MAIN'), ('char', 'литера', 'TK_CHAR'), ('double', 'двойной', 'TK_DOUBLE'),
    ('float', 'вещ', 'TK_FLOAT'), ('int', 'цел', 'TK_INT'), ('long', 'длин', 'TK_LONG'),
    ('struct', 'структура', 'TK_STRUCT'), ('enum', 'перечисление', 'TK_ENUM'), ('void', 'пусто', 'TK_VOID'),
    ('file', 'файл', 'TK_FILE'), ('typedef', 'типопр', 'TK_TYPEDEF'), ('if', 'если', 'TK_IF'),
    ('else', 'иначе', 'TK_ELSE'), ('do', 'цикл', 'TK_DO'), ('while', 'пока', 'TK_WHILE'), ('for', 'для', 'TK_FOR'),
    ('switch', 'выбор', 'TK_SWITCH'), ('case', 'случай', 'TK_CASE'), ('default', 'умолчание', 'TK_DEFAULT'),
    ('break', 'выход', 'TK_BREAK'), ('continue', 'продолжить', 'TK_CONTINUE'), ('return', 'возврат', 'TK_RETURN'),
    ('null', 'ничто', 'TK_NULL'), ('abs', 'абс', 'TK_ABS'), ('upb', 'кол_во', 'TK_UPB'), ('bool', 'булево', 'TK_BOOL'),
    ('true', 'истина', 'TK_TRUE'), ('false', 'ложь', 'TK_FALSE'), ('const', 'конст', 'TK_CONST'),
    ('#line', '#строка', 'TK_LINE'),
]


class TabPol(Policy):
    max_rec = 2
    events = {'map_add_by_utf8', 'map_add', 'map_add_by_io', 'map_set', 'map_set_by_utf8', 'map_set_by_index', 'ident_add',
              'type_add'}
    opaque = {'vector_create', 'map_create', 'strings_create', 'reporter_create', 'vector_increase', 'vector_add',
              'map_reserve', 'repr_set_reference'}

    def decide(self, it, st, name, args, fn):
        if name in self.events:
            return 'event'
        if fn is None or name in self.opaque:
            return 'opaque'
        return 'inline'

    def capture(self, it, st, name, args):
        if name == 'map_add_by_utf8':
            return read_wide(it, st, args[1])
        if name in ('map_add',):
            return read_wide(it, st, args[1], 8)
        if name == 'type_add':
            n = args[2]
            if not is_c(n):
                return None

            class T:
                kind, width, size = 'int', 64, 8
            return tuple(it.load(st, mkptr(args[1], 8 * k), T) for k in range(n))


def tables(ctx):
    P = ctx.prog
    paths = [p for p in ctx.paths(P.need('sx_create'), TabPol()) if p.kind == 'ret']
    if len(paths) != 1:
        raise AnalysisError('sx_create: %d return partitions' % len(paths))
    return paths[0].events


def check_keywords(ctx):
    ctx.rule('keyword', 'each documented spelling (English/Russian, lower/upper case) is registered first with the '
                        'keyword token documented for it')
    ctx.rule('foreign', 'no other spelling is registered as a keyword')
    P = ctx.prog
    m = P.module('compiler/syntax.c')
    tkn = P.enum(P.module('compiler/lexer.c'), 'token_t')
    tk = {v: k for k, v in tkn.items()}
    first = {}
    for e in tables(ctx):
        if e.name in ('map_add_by_utf8', 'map_add'):
            if e.cap is None:
                raise AnalysisError('%s: spelling is not a constant' % e.where())
            first.setdefault(e.cap, e)
    spell = {}
    for eng, rus, t in KEYWORDS:
        for s in (eng, eng.upper(), rus, rus.upper()):
            spell[s] = t
    for s, t in spell.items():
        e = first.get(s)
        v = e.args[2] if e is not None else None
        ctx.ob('keyword', s, e is not None and v == tkn[t], e.where() if e else 'libs/compiler/syntax.c (sx_create)',
               'spelling %r denotes %s, expected %s' % (s, tk.get(v, 'nothing' if e is None else show(v)), t))
    for s, e in first.items():
        v = e.args[2]
        if is_c(v) and v <= 0 and s not in spell:
            ctx.ob('foreign', s, False, e.where(), 'identifier %r is reserved as %s' % (s, tk.get(v, v)))
    ctx.minimum('keyword', 110)
    # how the lexer uses the table: negative reference = keyword of that kind, everything else is an identifier
    ctx.rule('dispatch', 'a word is returned as the keyword its table entry holds when that entry is negative, as an '
                         'identifier otherwise')
    n = 0
    for c in (ord('a'), 0x0430, ord('_'), ord('#')):
        for p in lex_paths(ctx, c)[0]:
            if p.kind != 'ret':
                continue
            toks = [e for e in p.events if e.name in ('token_keyword', 'token_identifier')]
            if not toks:
                continue
            e = toks[0]
            n += 1
            refs = [t for t in p.facts.eq if isinstance(t, tuple) and t[0] == 'cmp' and 'repr_get_reference' in repr(t)]
            neg = None
            for cnd, v in p.facts.log:
                if isinstance(cnd, tuple) and cnd[0] == 'cmp' and cnd[1] == 'slt' and cnd[3] == 0 and \
                        isinstance(cnd[2], tuple) and cnd[2][0] == 'call' and cnd[2][1] == 'repr_get_reference':
                    neg = bool(v)
                    ref = cnd[2]
                elif isinstance(cnd, tuple) and cnd[0] == 'cmp' and cnd[1] == 'slt' and cnd[2] == -1 and \
                        isinstance(cnd[3], tuple) and cnd[3][0] == 'call' and cnd[3][1] == 'repr_get_reference':
                    neg = not v
                    ref = cnd[3]
            if neg is None:
                ctx.ob('dispatch', e.name, False, e.where(), 'the word class does not depend on the sign of the table entry')
                continue
            if e.name == 'token_keyword':
                ok = neg and 'repr_get_reference' in repr(e.args[-1])
            else:
                ok = not neg and isinstance(e.args[-1], tuple) and e.args[-1][1] == 'repr_reserve'
            ctx.ob('dispatch', '%s for U+%04X' % (e.name, c), ok, e.where(),
                   '%s is returned with %s when the table entry is %s' % (e.name, show(e.args[-1]),
                                                                          'negative' if neg else 'not negative'))
    ctx.minimum('dispatch', 4)


V, I, F, B = 'void', 'int', 'float', 'bool'
S = ('array', 'char')
FP = ('pointer', 'file')
BUILTINS = [
    ('assert', 'проверить', V, [B, S], 'BI_ASSERT'),
    ('asin', 'асин', F, [F], 'BI_ASIN'), ('cos', 'кос', F, [F], 'BI_COS'), ('sin', 'син', F, [F], 'BI_SIN'),
    ('exp', 'эксп', F, [F], 'BI_EXP'), ('log', 'лог', F, [F], 'BI_LOG'), ('log10', 'лог10', F, [F], 'BI_LOG10'),
    ('sqrt', 'квкор', F, [F], 'BI_SQRT'), ('rand', 'случ', F, [], 'BI_RAND'), ('round', 'округл', I, [F], 'BI_ROUND'),
    ('strncpy', 'копир_н_симв', S, [S, I], 'BI_STRNCPY'), ('strcat', 'конкат_строки', S, [S, S], 'BI_STRCAT'),
    ('strcmp', 'сравн_строк', I, [S, S], 'BI_STRCMP'), ('strncmp', 'сравн_н_симв', I, [S, S, I], 'BI_STRNCMP'),
    ('strstr', 'нач_подстрок', I, [S, S], 'BI_STRSTR'),
    ('send_int_to_robot', 'послать_цел_на_робот', V, [I, ('array', I)], 'BI_ROBOT_SEND_INT'),
    ('send_float_to_robot', 'послать_вещ_на_робот', V, [I, ('array', F)], 'BI_ROBOT_SEND_FLOAT'),
    ('send_string_to_robot', 'послать_строку_на_робот', V, [I, S], 'BI_ROBOT_SEND_STRING'),
    ('receive_int_from_robot', 'получить_цел_от_робота', I, [I], 'BI_ROBOT_RECEIVE_INT'),
    ('receive_float_from_robot', 'получить_вещ_от_робота', F, [I], 'BI_ROBOT_RECEIVE_FLOAT'),
    ('receive_string_from_robot', 'получить_строку_от_робота', V, [I], 'BI_ROBOT_RECEIVE_STRING'),
    ('t_create', 'н_создать', I, [('func', ('pointer', V), (('pointer', V),))], 'BI_T_CREATE'),
    ('t_getnum', 'н_номер_нити', I, [], 'BI_T_GETNUM'), ('t_sleep', 'н_спать', V, [I], 'BI_T_SLEEP'),
    ('t_join', 'н_присоед', V, [I], 'BI_T_JOIN'), ('t_exit', 'н_конец', V, [], 'BI_T_EXIT'),
    ('t_init', 'н_начать', V, [], 'BI_T_INIT'), ('t_destroy', 'н_закончить', V, [], 'BI_T_DESTROY'),
    ('t_sem_create', 'н_создать_сем', I, [I], 'BI_SEM_CREATE'), ('t_sem_wait', 'н_вниз_сем', V, [I], 'BI_SEM_WAIT'),
    ('t_sem_post', 'н_вверх_сем', V, [I], 'BI_SEM_POST'),
    ('t_msg_send', 'н_послать', V, ['msg'], 'BI_MSG_SEND'), ('t_msg_receive', 'н_получить', 'msg', [], 'BI_MSG_RECEIVE'),
    ('fopen', 'фоткрыть', FP, [S, S], 'BI_FOPEN'), ('fgetc', 'фчитать_символ', I, [FP], 'BI_FGETC'),
    ('fputc', 'фписать_символ', I, [I, FP], 'BI_FPUTC'), ('fclose', 'фзакрыть', I, [FP], 'BI_FCLOSE'),
    ('exit', 'выход', V, [I], 'BI_EXIT'), ('printf', 'печатьф', I, [S, '...'], 'BI_PRINTF'),
    ('print', 'печать', V, ['...'], 'BI_PRINT'), ('printid', 'печатьид', V, ['...'], 'BI_PRINTID'),
    ('getid', 'читатьид', V, ['...'], 'BI_GETID'),
]


def check_builtins(ctx):
    ctx.rule('id', 'the k-th registered identifier is the built-in whose number the back ends use for it')
    ctx.rule('signature', 'the registered result and parameter types are the documented ones')
    ctx.rule('spelling', 'all four spellings are registered, first, and refer to the built-in')
    ctx.rule('no-extra', 'nothing else is registered ahead of user code')
    P = ctx.prog
    m = P.module('compiler/syntax.c')
    ev = tables(ctx)
    ty = {P.ev(m, n): s for n, s in (('TYPE_VOID', V), ('TYPE_INTEGER', I), ('TYPE_FLOATING', F), ('TYPE_BOOLEAN', B),
                                     ('TYPE_CHARACTER', 'char'), ('TYPE_FILE', 'file'), ('TYPE_MSG_INFO', 'msg'),
                                     ('TYPE_VARARG', '...'))}
    ctor = {P.ev(m, n): n for n in ('TYPE_ARRAY', 'TYPE_POINTER', 'TYPE_FUNCTION', 'TYPE_CONST')}
    recs = {}

    def dec(t):
        if is_c(t):
            return ty.get(t, t)
        r = recs.get(t)
        if r is None:
            return show(t)
        k = ctor.get(r[0])
        if k == 'TYPE_ARRAY':
            return ('array', dec(r[1]))
        if k == 'TYPE_POINTER':
            return ('pointer', dec(r[1]))
        if k == 'TYPE_FUNCTION':
            if not is_c(r[2]) or len(r) != 3 + r[2]:
                return ('bad function record', r)
            return ('func', dec(r[1]), tuple(dec(x) for x in r[3:]))
        return ('?', r)

    first = {}
    idents = []
    for e in ev:
        if e.name == 'type_add':
            if e.cap is None:
                raise AnalysisError('%s: type record of unknown length' % e.where())
            recs[e.res] = e.cap
        elif e.name in ('map_add_by_utf8', 'map_add'):
            if e.cap is None:
                raise AnalysisError('%s: spelling is not a constant' % e.where())
            first.setdefault(e.cap, e)
        elif e.name == 'ident_add':
            idents.append(e)
    base, step = ident_numbering(ctx)
    for k, (eng, rus, ret, par, bi) in enumerate(BUILTINS):
        want = P.ev(m, bi)
        f = first.get(eng)
        me = [(n, e) for n, e in enumerate(idents) if f is not None and e.args[1] == f.res]
        if not me:
            ctx.ob('id', eng, False, 'libs/compiler/syntax.c (sx_create)', 'built-in %s is not registered' % eng)
            continue
        n, e = me[0]
        ctx.ob('id', eng, base + step * n == want, e.where(),
               'identifier number of %s is %d, the back ends use %d (%s)' % (eng, base + step * n, want, bi))
        got = dec(e.args[3])
        exp = ('func', ret, tuple(par))
        ctx.ob('signature', eng, got == exp, e.where(), '%s is registered as %s, documented %s' % (eng, got, exp))
        for s in (eng.upper(), rus, rus.upper()):
            g = first.get(s)
            ctx.ob('spelling', '%s as %s' % (s, eng), g is not None and g.args[2] == e.res,
                   g.where() if g else e.where(),
                   'spelling %r denotes %s, expected %s' % (s, show(g.args[2])[:60] if g else 'nothing', eng))
        ctx.ob('spelling', eng, f.args[2] == (1 << 63) - 1, f.where(), 'own entry of %s already refers elsewhere' % eng)
    ctx.ob('no-extra', 'count', len(idents) == len(BUILTINS) and base + step * len(idents) == P.ev(m, 'BEGIN_USER_FUNC'),
           'libs/compiler/syntax.c (sx_create)', '%d identifiers precede user code, user functions start at %d'
           % (len(idents), P.ev(m, 'BEGIN_USER_FUNC')))
    ctx.minimum('signature', 40)


def ident_numbering(ctx):
    """First identifier number and step, from the allocations sx_create and ident_add make."""
    P = ctx.prog

    class Pol(Policy):
        def decide(self, it, st, name, args, fn):
            if name in ('vector_increase', 'vector_add', 'vector_create', 'vector_size'):
                return 'event'
            if fn is None or name in ('map_create', 'strings_create', 'reporter_create', 'map_reserve', 'map_add_by_utf8',
                                      'ident_add', 'type_add'):
                return 'opaque'
            return 'inline'
    m = P.module('compiler/syntax.c')
    off = P.field(m, 'syntax', 'identifiers')
    f = P.need('sx_create')
    sx = ('arg', 0)
    base = 0
    for p in ctx.paths(f, Pol()):
        base = 0
        for e in p.events:
            if e.extra[0] == mkptr(sx, off):
                base += e.args[1] if e.name == 'vector_increase' else 1 if e.name == 'vector_add' else 0
    g = P.need('ident_add')
    steps = set()

    class Pol2(Pol):
        def decide(self, it, st, name, args, fn):
            if name in ('vector_increase', 'vector_add', 'vector_set'):
                return 'event'
            return 'inline' if fn is not None and name.startswith('ident_') else 'opaque'
    for p in ctx.paths(g, Pol2()):
        if p.kind != 'ret':
            continue
        n = 0
        for e in p.events:
            if e.extra[0] == mkptr(('arg', 0), off):
                n += e.args[1] if e.name == 'vector_increase' else 1 if e.name == 'vector_add' else 0
        steps.add(n)
    if len(steps) != 1 or not is_c(base):
        raise AnalysisError('identifier numbering is not uniform: %r %r' % (base, steps))
    return base, steps.pop()

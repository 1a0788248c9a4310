"""F04 expression grammar, F07 statement grammar and context rules."""
from ..absint import Policy, mkptr, show, is_c, split
from ..program import AnalysisError

GRAMMAR = {'parse_primary_expression', 'parse_initializer_list', 'parse_postfix_expression', 'parse_unary_expression',
           'parse_RHS_of_binary_expression', 'parse_assignment_expression', 'parse_expression',
           'parse_constant_expression', 'parse_initializer', 'parse_condition', 'parse_type_specifier',
           'parse_init_declarator', 'parse_declaration', 'parse_case_statement', 'parse_default_statement',
           'parse_compound_statement_body', 'parse_compound_statement', 'parse_expression_statement',
           'parse_if_statement', 'parse_switch_statement', 'parse_while_statement', 'parse_do_statement',
           'parse_for_statement', 'parse_continue_statement', 'parse_break_statement', 'parse_return_statement',
           'parse_statement', 'parse_function_definition', 'parse_function_declaration', 'parse_external_definition'}


class TokPol(Policy):
    """Grammar functions and builder calls are events; `toks` is the case of the split over the token kinds that become
    current after each of them (None: any)."""
    unroll_forked = 0
    record_back = True
    max_states = 4000
    opaque_fns = {'token_get_location', 'node_broken', 'skip_until', 'in_get_position', 'node_vector_create',
                  'node_vector_clear', 'statement_fields', 'node_get_location'}

    def __init__(self, K, toks=(), extra=(), inline=()):
        self.K = K
        self.toks = toks
        self.ev = set(extra)
        self.inl = set(inline)

    def cut_back(self, fn):
        return 'always'

    def keeps(self, st, key):
        # a list of nodes and the parser have no memory in common
        return key[0] == ('arg', self.K.prs) and bool(st.events) and st.events[-1].name == 'node_vector_add'

    def decide(self, it, st, name, args, fn):
        if name in self.inl:
            return 'inline'
        if name in ('lex', 'peek', 'report_error', 'skip_until') or name in self.ev:
            return 'event'
        if name in GRAMMAR or name.startswith('build_') and fn is not None:
            return 'event'
        if fn is None or name in self.opaque_fns:
            return 'opaque'
        return 'inline'

    def advance(self, name):
        return name == 'lex' or name in GRAMMAR

    def effect(self, it, st, name, args, term):
        if not self.advance(name):
            return
        n = sum(1 for e in st.events if self.advance(e.name)) - 1
        k = self.toks[n] if n < len(self.toks) else None
        if k is None:
            return
        if name == 'lex':
            b, o, d = split(args[0])
            st.mem[(b, o + self.K.kind, d)] = (k, 4)
        else:
            st.mem[(('arg', self.K.prs), self.K.cur, ())] = (k, 4)


class K:
    """Layout facts the grammar checks need."""
    def __init__(self, ctx):
        P = self.P = ctx.prog
        self.m = P.module('compiler/parser.c')
        self.kind = P.field(self.m, 'token', 'kind')
        self.tk = P.field(self.m, 'parser', 'tk')
        self.cur = self.tk + self.kind
        self.bld = P.field(self.m, 'parser', 'bld')
        self.prs = 0
        self.tok = P.enum(self.m, 'token_t')
        self.names = {v: k for k, v in self.tok.items()}
        self.bin = P.enum(self.m, 'binary_t')
        self.un = P.enum(self.m, 'unary_t')

    def t(self, n):
        return self.tok['TK_' + n]

    def run(self, ctx, fname, first, toks=(), args=None, extra=(), mem=None, inline=()):
        fn = self.P.need(fname, self.m)
        self.prs = 1 if fn.sret else 0
        m = {(('arg', self.prs), self.cur, ()): (first, 4)} if first is not None else {}
        m.update(mem or {})
        nn = [k for k in range(fn.nparams)]
        return ctx.paths(fn, TokPol(self, toks, extra, inline), mem=m, args=args or {}, nonnull=nn)


def steps(p):
    return [e for e in p.events if e.name not in ('peek',)]


def names(p):
    return [e.name for e in p.events]


LEVELS = [
    ['COMMA'],
    ['EQUAL', 'STAR_EQUAL', 'SLASH_EQUAL', 'PERCENT_EQUAL', 'PLUS_EQUAL', 'MINUS_EQUAL', 'LESS_LESS_EQUAL',
     'GREATER_GREATER_EQUAL', 'AMP_EQUAL', 'CARET_EQUAL', 'PIPE_EQUAL'],
    ['QUESTION'], ['PIPE_PIPE'], ['AMP_AMP'], ['PIPE'], ['CARET'], ['AMP'], ['EQUAL_EQUAL', 'EXCLAIM_EQUAL'],
    ['LESS', 'GREATER', 'LESS_EQUAL', 'GREATER_EQUAL'], ['LESS_LESS', 'GREATER_GREATER'], ['PLUS', 'MINUS'],
    ['STAR', 'SLASH', 'PERCENT'],
]
RIGHT = {1, 2}
BINARY = {
    'COMMA': 'COMMA', 'EQUAL': 'ASSIGN', 'STAR_EQUAL': 'MUL_ASSIGN', 'SLASH_EQUAL': 'DIV_ASSIGN',
    'PERCENT_EQUAL': 'REM_ASSIGN', 'PLUS_EQUAL': 'ADD_ASSIGN', 'MINUS_EQUAL': 'SUB_ASSIGN',
    'LESS_LESS_EQUAL': 'SHL_ASSIGN', 'GREATER_GREATER_EQUAL': 'SHR_ASSIGN', 'AMP_EQUAL': 'AND_ASSIGN',
    'CARET_EQUAL': 'XOR_ASSIGN', 'PIPE_EQUAL': 'OR_ASSIGN', 'PIPE_PIPE': 'LOG_OR', 'AMP_AMP': 'LOG_AND', 'PIPE': 'OR',
    'CARET': 'XOR', 'AMP': 'AND', 'EQUAL_EQUAL': 'EQ', 'EXCLAIM_EQUAL': 'NE', 'LESS': 'LT', 'GREATER': 'GT',
    'LESS_EQUAL': 'LE', 'GREATER_EQUAL': 'GE', 'LESS_LESS': 'SHL', 'GREATER_GREATER': 'SHR', 'PLUS': 'ADD',
    'MINUS': 'SUB', 'STAR': 'MUL', 'SLASH': 'DIV', 'PERCENT': 'REM',
}
UNARY = {'PLUS_PLUS': 'PREINC', 'MINUS_MINUS': 'PREDEC', 'AMP': 'ADDRESS', 'STAR': 'INDIRECTION', 'MINUS': 'MINUS',
         'TILDE': 'NOT', 'EXCLAIM': 'LOGNOT', 'ABS': 'ABS', 'UPB': 'UPB'}


def val(e):
    """Snapshot of a node passed by address that holds the result of event e."""
    return ('obj', e.res)


def is_res(a, e):
    if a == e.res or a == ('obj', e.res):
        return True
    return isinstance(a, tuple) and a[0] == 'obj' and a[1] == ('call', e.name, e.args, e.res[3])


def ret_is(p, e):
    """The path returns the node produced by event e."""
    r = p.ret
    if r == e.res:
        return True
    if isinstance(r, tuple) and r[0] == 'agg':
        return all(x == ('ext', e.res, n) or x == ('fld', e.res, 8 * n) for n, x in enumerate(r[1]))
    return False


def cell_is(p, key, e):
    b, o, d = key
    for n in range(2):
        c = p.state.mem.get((b, o + 8 * n, d))
        if c is None or c[0] not in (('ext', e.res, n), ('fld', e.res, 8 * n)):
            return False
    return True


def check_expr(ctx):
    ctx.rule('accept', 'with a given lower bound the operator loop takes exactly the operators of the levels the '
                       'grammar allows there, and no other token')
    ctx.rule('climb', 'after "operand op1 operand" an op2 belongs to the right operand exactly when it binds tighter, '
                      'or equally and the level groups right to left')
    ctx.rule('node', 'the node built for an operator token is that operator applied to its own operands, left first')
    ctx.rule('operand', 'exactly the operator token is consumed before its operand is parsed')
    ctx.rule('entry', 'expression, assignment-expression and constant-expression start the loop at their own level')
    ctx.rule('unary', 'prefix and postfix operator tokens denote the operators of the language')
    ctx.rule('primary', 'every primary token builds its own literal or name node from its own value')
    ctx.rule('initializer', 'an initializer is an assignment expression or a braced list, each element of which is kept once')
    ctx.rule('missing', 'a construct whose closing or separating token is another one draws a diagnostic')
    k = K(ctx)
    R = 'parse_RHS_of_binary_expression'
    where = 'libs/compiler/parser.c (%s)' % R
    level = {k.t(n): i for i, l in enumerate(LEVELS) for n in l}
    right = {o: {q for q in level if level[q] > level[o] or level[q] == level[o] and level[o] in RIGHT} for o in level}
    # entries
    ent = {}
    for fn, want, first in (('parse_assignment_expression', 1, 'parse_unary_expression'),
                            ('parse_expression', 0, None), ('parse_constant_expression', 2, 'parse_unary_expression')):
        for p in k.run(ctx, fn, None):
            if p.kind != 'ret':
                continue
            ev = steps(p)
            rs = [e for e in ev if e.name == R]
            ok = len(rs) >= 1 and ev.index(rs[0]) == 1 and len(rs) == 1 and ev[0].name in \
                ('parse_unary_expression', 'parse_assignment_expression')
            if not ok:
                ctx.ob('entry', fn, False, 'libs/compiler/parser.c (%s)' % fn, 'does: ' + ' '.join(e.name for e in ev))
                continue
            r = rs[0]
            ctx.ob('entry', fn + ' operand', is_res(r.args[1], ev[0]), r.where(),
                   'the operator loop does not start from the operand just parsed: %s' % show(r.args[1]))
            last = r
            if fn == 'parse_constant_expression':
                ctx.ob('entry', fn + ' constant', len(ev) == 3 and ev[2].name == 'build_constant_expression'
                       and is_res(ev[2].args[1], r) and ret_is(p, ev[2]), r.where(), 'result is not the folded expression')
                last = ev[-1]
            ctx.ob('entry', fn + ' result', ret_is(p, last), r.where(), 'returns %s' % show(p.ret))
            ctx.need(is_c(r.args[2]), '%s: lower bound of the operator loop is not a constant' % r.where())
            ent[fn] = (r.args[2], {o for o in level if level[o] >= want}, ev[0].name, r)
    ctx.minimum('entry', 6)
    todo = [(m, s, fn) for fn, (m, s, _, _) in ent.items()]
    done = {}
    kinds = sorted(set(k.tok.values()))
    while todo:
        m, S, why = todo.pop()
        if (m, frozenset(S)) in done:
            continue
        done[(m, frozenset(S))] = why
        for t in kinds:
            ps = [p for p in k.run(ctx, R, t, args={2: m}) if p.kind in ('ret', 'back')]
            took = {bool(p.events) for p in ps}
            ctx.ob('accept', '%s at %s' % (k.names[t][3:], why), took == {t in S}, where,
                   'in %s the operator loop %s %s' % (why, 'takes' if True in took else 'stops at', k.names[t]))
            if t not in S or took != {True}:
                for p in ps:
                    if p.kind == 'ret' and not p.events:
                        r = p.ret
                        ok = isinstance(r, tuple) and r[0] == 'agg' and all(
                            isinstance(x, tuple) and x[0] == 'ld' and split(x[1])[0] == ('arg', 1) and split(x[1])[1] == 8 * n
                            for n, x in enumerate(r[1]))
                        if not ok:
                            ctx.ob('node', 'stop at %s' % k.names[t], False, where, 'returns %s instead of its operand' % show(r))
                continue
            # t is an operator allowed here; split over the token behind its operand
            tern = k.names[t] == 'TK_QUESTION'
            ok0 = True
            rset = {}
            for q in kinds:
                if tern:
                    toks = [k.t('IDENTIFIER'), k.t('COLON'), k.t('IDENTIFIER'), q, k.t('SEMICOLON')]
                else:
                    toks = [k.t('IDENTIFIER'), q, k.t('SEMICOLON')]
                if t == min(S) or q in level or q == k.t('SEMICOLON'):
                    pass
                else:
                    continue
                for p in k.run(ctx, R, t, toks, args={2: m}):
                    if p.kind not in ('ret', 'back'):
                        continue
                    ev = steps(p)
                    nm = [e.name for e in ev]
                    nn = 1 + (2 if tern else 0)
                    pre = ['lex', 'parse_initializer', 'lex'] if tern else ['lex']
                    alt = ['lex', 'parse_expression', 'lex'] if tern else pre
                    if nm[:nn] not in (pre, alt) or len(nm) <= nn + 1 or nm[nn] != 'parse_unary_expression':
                        ctx.ob('operand', '%s %s' % (k.names[t], k.names[q]), False, where, 'does: ' + ' '.join(nm))
                        ok0 = False
                        continue
                    opnd = ev[nn]
                    rec = ev[nn + 1].name == R
                    ctx.ob('climb', '%s then %s at %s' % (k.names[t][3:], k.names[q][3:], why), rec == (q in right[t]),
                           ev[nn + 1].where(), 'a %s b %s c: the second operator %s the right operand of the first'
                           % (k.names[t], k.names[q], 'joins' if rec else 'does not join'))
                    rhs = ev[nn + 1] if rec else opnd
                    if rec:
                        r = ev[nn + 1]
                        if not is_c(r.args[2]):
                            raise AnalysisError('%s: lower bound is not a constant' % r.where())
                        rset[r.args[2]] = r
                        ctx.ob('node', '%s/%s recursion operand' % (k.names[t], k.names[q]), is_res(r.args[1], opnd),
                               r.where(), 'the nested loop starts from %s' % show(r.args[1]))
                    b = ev[nn + (2 if rec else 1)] if len(ev) > nn + (2 if rec else 1) else None
                    ctx.need(b is not None, '%s: no node is built for %s' % (where, k.names[t]))
                    lhs_ok = split(b.args[1])[:2] == (('arg', 1), 0)
                    if tern:
                        ctx.ob('node', '? : before %s' % k.names[q], b.name == 'build_ternary_expression' and lhs_ok and
                               is_res(b.args[2], ev[1]) and is_res(b.args[3], rhs), b.where(),
                               'built: %s(%s)' % (b.name, ', '.join(show(a) for a in b.args[:4])))
                    else:
                        want = k.bin['BIN_' + BINARY[k.names[t][3:]]]
                        ctx.ob('node', '%s before %s' % (k.names[t], k.names[q]), b.name == 'build_binary_expression' and
                               lhs_ok and is_res(b.args[2], rhs) and b.args[3] == want, b.where(),
                               'built: %s(%s), expected operator %d' % (b.name, ', '.join(show(a) for a in b.args[:4]), want))
                    # the result becomes the left operand of the next round / the result
                    if p.kind == 'ret':
                        ok = ret_is(p, b) if ev[-1] is b else True
                    else:
                        ok = cell_is(p, (('arg', 1), 0, ()), b) if ev[-1] is b else True
                    ctx.ob('node', '%s before %s result' % (k.names[t], k.names[q]), ok, b.where(),
                           'the node built is not what the expression becomes')
            for mm, r in rset.items():
                if (mm, frozenset(right[t])) not in done:
                    todo.append((mm, frozenset(right[t]), 'right operand of ' + k.names[t][3:]))
    ctx.minimum('climb', 900)
    ctx.minimum('node', 900)
    _brace_operand(ctx, k, ent, R, where)
    for fn, (m, S, _, _) in ent.items():
        if k.t('QUESTION') in S:
            for q in kinds:
                if q == k.t('COLON'):
                    continue
                for p in k.run(ctx, R, k.t('QUESTION'), [k.t('IDENTIFIER'), q, k.t('SEMICOLON')], args={2: m}):
                    if p.kind in ('ret', 'back'):
                        ctx.ob('missing', '? a %s in %s' % (k.names[q][3:], fn), 'report_error' in names(p), where,
                               'a conditional expression without : draws no diagnostic')
    _initializers(ctx, k, kinds)
    _unary(ctx, k, kinds)
    _postfix(ctx, k, kinds)
    _primary(ctx, k, kinds)


def _brace_operand(ctx, k, ent, R, where):
    m = ent['parse_assignment_expression'][0]
    for t in ('EQUAL',):
        for p in k.run(ctx, R, k.t(t), [k.t('L_BRACE'), k.t('SEMICOLON')], args={2: m}):
            if p.kind in ('ret', 'back'):
                nm = names(p)
                ctx.ob('operand', t + ' {', nm[:2] == ['lex', 'parse_initializer'], where, 'does: ' + ' '.join(nm))


def _initializers(ctx, k, kinds):
    fn = 'parse_initializer'
    where = 'libs/compiler/parser.c (%s)' % fn
    I, S, LB, RB = k.t('IDENTIFIER'), k.t('SEMICOLON'), k.t('L_BRACE'), k.t('R_BRACE')

    def does(p):
        return 'does: ' + ' '.join(names(p))
    for t in kinds:
        if t != LB:
            for p in k.run(ctx, fn, t, [S]):
                if p.kind == 'ret':
                    ev = steps(p)
                    ctx.ob('initializer', k.names[t][3:], names(p) == ['parse_assignment_expression'] and ret_is(p, ev[0]),
                           where, does(p))
    for p in k.run(ctx, fn, LB, [RB, S]):
        if p.kind == 'ret':
            ctx.ob('initializer', '{ }', 'report_error' in names(p), where, 'an empty list draws no diagnostic')
    for q in kinds:
        for p in k.run(ctx, fn, LB, [I, q, S]):
            if p.kind != 'ret':
                continue
            ev = [e for e in steps(p)]
            if q == RB:
                ok = names(p) == ['lex', 'parse_initializer_list', 'lex', 'build_initializer'] and \
                    'parse_initializer_list' in repr(ev[3].args[1]) and ret_is(p, ev[3])
                ctx.ob('initializer', '{ list }', ok, where, does(p))
            else:
                ctx.ob('missing', '{ list %s' % k.names[q][3:], 'report_error' in names(p), where,
                       'an unclosed list draws no diagnostic')
    fn = 'parse_initializer_list'
    where = 'libs/compiler/parser.c (%s)' % fn
    for q in kinds:
        n = 0
        for p in k.run(ctx, fn, I, [q, I, S], extra=('node_vector_add',)):
            if p.kind not in ('ret', 'back'):
                continue
            n += 1
            ev, nm = steps(p), names(p)
            adds = [e for e in ev if e.name == 'node_vector_add']
            inits = [e for e in ev if e.name == 'parse_initializer']
            ok = len(adds) == len(inits) >= 1 and all(is_res(a.args[1], i) for a, i in zip(adds, inits)) and \
                len({repr(a.extra[0]) for a in adds}) == 1
            if q == k.t('COMMA'):
                ok = ok and 'lex' in nm and (p.kind == 'back' or len(inits) == 2) and nm.index('lex') > nm.index('parse_initializer')
            else:
                ok = ok and p.kind == 'ret' and 'lex' not in nm and len(inits) == 1
            ctx.ob('initializer', 'list before ' + k.names[q][3:], ok, where, does(p))
        ctx.need(n, '%s: no partition' % where)


def _unary(ctx, k, kinds):
    fn = 'parse_unary_expression'
    where = 'libs/compiler/parser.c (%s)' % fn
    for t in kinds:
        n = k.names[t][3:]
        for p in k.run(ctx, fn, t):
            if p.kind != 'ret':
                continue
            ev = steps(p)
            nm = [e.name for e in ev]
            if n in UNARY:
                ok = nm == ['lex', fn, 'build_unary_expression'] and is_res(ev[2].args[1], ev[1]) and \
                    ev[2].args[2] == k.un['UN_' + UNARY[n]] and ret_is(p, ev[2])
            else:
                ok = nm == ['parse_postfix_expression'] and ret_is(p, ev[0])
            ctx.ob('unary', 'prefix ' + n, ok, ev[-1].where() if ev else where,
                   'does: ' + ' '.join('%s(%s)' % (e.name, ','.join(show(a) for a in e.args[1:4])) for e in ev))
    ctx.minimum('unary', len(kinds))


def _postfix(ctx, k, kinds):
    fn = 'parse_postfix_expression'
    where = 'libs/compiler/parser.c (%s)' % fn
    I = k.t('IDENTIFIER')
    S = k.t('SEMICOLON')

    def one(title, toks, want, arg=None, first=I):
        ps = [p for p in k.run(ctx, fn, first, toks) if p.kind in ('ret', 'back')]
        ctx.need(ps, '%s: no partition for %s' % (where, title))
        for p in ps:
            ev = steps(p)
            nm = [e.name for e in ev]
            ok = nm == want and (arg is None or arg(ev, p))
            ctx.ob('unary', 'postfix ' + title, ok, ev[-1].where() if ev else where,
                   'does: ' + ' '.join('%s(%s)' % (e.name, ','.join(show(a) for a in e.args[1:4])) for e in ev))
    prim = 'parse_primary_expression'
    taken = {'L_SQUARE', 'L_PAREN', 'PERIOD', 'ARROW', 'PLUS_PLUS', 'MINUS_MINUS'}
    for t in kinds:
        n = k.names[t][3:]
        if n not in taken:
            one('none before ' + n, [t], [prim], lambda ev, p: p.kind == 'ret' and ret_is(p, ev[0]))
    done = lambda ev, p: p.kind == 'back' or ret_is(p, ev[-1])
    one('[ ]', [k.t('L_SQUARE'), I, k.t('R_SQUARE'), S], [prim, 'lex', 'parse_expression', 'lex', 'build_subscript_expression'],
        lambda ev, p: is_res(ev[4].args[1], ev[0]) and is_res(ev[4].args[2], ev[2]) and done(ev, p))
    one('( )', [k.t('L_PAREN'), k.t('R_PAREN'), S], [prim, 'lex', 'lex', 'build_call_expression'],
        lambda ev, p: is_res(ev[3].args[1], ev[0]) and ev[3].args[2] in (0, ('null',)) and done(ev, p))
    one('( a )', [k.t('L_PAREN'), I, k.t('R_PAREN'), S],
        [prim, 'lex', 'parse_initializer_list', 'lex', 'build_call_expression'],
        lambda ev, p: is_res(ev[4].args[1], ev[0]) and 'parse_initializer_list' in repr(ev[4].args[2]) and done(ev, p))
    for n, arrow in (('PERIOD', 0), ('ARROW', 1)):
        one(n, [k.t(n), I, S], [prim, 'lex', 'lex', 'build_member_expression'],
            lambda ev, p: is_res(ev[3].args[1], ev[0]) and ev[3].args[3] in (arrow, bool(arrow)) and done(ev, p))
    for n, u in (('PLUS_PLUS', 'UN_POSTINC'), ('MINUS_MINUS', 'UN_POSTDEC')):
        one(n, [k.t(n), S], [prim, 'lex', 'build_unary_expression'],
            lambda ev, p: is_res(ev[2].args[1], ev[0]) and ev[2].args[2] == k.un[u] and done(ev, p))
    # a missing closing bracket or member name is an error
    for n, toks, right in (('[', [k.t('L_SQUARE'), I], 'R_SQUARE'), ('( a', [k.t('L_PAREN'), I], 'R_PAREN'),
                           ('.', [k.t('PERIOD')], 'IDENTIFIER'), ('->', [k.t('ARROW')], 'IDENTIFIER')):
        for q in kinds:
            if q == k.t(right):
                continue
            for p in k.run(ctx, fn, I, toks + [q, S]):
                if p.kind in ('ret', 'back'):
                    ctx.ob('missing', 'postfix %s %s' % (n, k.names[q][3:]), 'report_error' in names(p), where, 'no diagnostic')


def _primary(ctx, k, kinds):
    fn = 'parse_primary_expression'
    where = 'libs/compiler/parser.c (%s)' % fn
    P = ctx.prog
    S = k.t('SEMICOLON')

    def tokfield(getter):
        """Offset and size of the token member an accessor returns."""
        f = P.need(getter, k.m)
        for p in ctx.paths(f, Policy(), nonnull=[0]):
            if p.kind == 'ret' and isinstance(p.ret, tuple) and 'ld' in repr(p.ret)[:40]:
                return p.ret
        raise AnalysisError('%s does not return a token member' % getter)
    want = {'IDENTIFIER': ('build_identifier_expression', 'token_get_ident_name'),
            'CHAR_LITERAL': ('build_character_literal_expression', 'token_get_char_value'),
            'INT_LITERAL': ('build_integer_literal_expression', 'token_get_int_value'),
            'FLOAT_LITERAL': ('build_floating_literal_expression', 'token_get_float_value'),
            'STRING_LITERAL': ('build_string_literal_expression', 'token_get_string_num'),
            'NULL': ('build_null_literal_expression', None),
            'TRUE': ('build_boolean_literal_expression', 1), 'FALSE': ('build_boolean_literal_expression', 0)}
    for t in kinds:
        n = k.names[t][3:]
        if n == 'L_PAREN':
            continue
        ps = [p for p in k.run(ctx, fn, t, [S]) if p.kind == 'ret']
        for p in ps:
            ev = steps(p)
            nm = [e.name for e in ev]
            if n in want:
                b, g = want[n]
                ok = nm == ['lex', b] and ret_is(p, ev[1])
                if ok and isinstance(g, str):
                    o = split(_ld(tokfield(g)))[1]
                    a = ev[1].args[1]
                    x = _ld(a)
                    ok = x is not None and split(x)[0] == ('arg', 0) and split(x)[1] == k.tk + o and \
                        _epoch(a) in (0, None)
                elif ok and g is not None:
                    ok = ev[1].args[1] in (g, bool(g))
            else:
                ok = 'report_error' in nm and not any(x.startswith('build_') for x in nm)
            ctx.ob('primary', n, ok, ev[-1].where() if ev else where,
                   'does: ' + ' '.join('%s(%s)' % (e.name, ','.join(show(a) for a in e.args[1:3])) for e in ev))
    for p in k.run(ctx, fn, k.t('L_PAREN'), [k.t('IDENTIFIER'), k.t('R_PAREN'), S]):
        if p.kind == 'ret':
            ev = steps(p)
            ctx.ob('primary', '( expression )', [e.name for e in ev] == ['lex', 'parse_expression', 'lex'] and ret_is(p, ev[1]),
                   where, 'does: ' + ' '.join(names(p)))
    for p in k.run(ctx, fn, k.t('L_PAREN'), [k.t('IDENTIFIER'), S, S]):
        if p.kind == 'ret':
            ctx.ob('primary', '( unclosed', 'report_error' in names(p), where, 'no diagnostic')
    ctx.minimum('primary', len(kinds))


def _ld(t):
    while isinstance(t, tuple) and t and t[0] in ('cast', 'part', 'op'):
        t = t[4] if t[0] == 'cast' else t[1]
    if isinstance(t, tuple) and t and t[0] == 'ld':
        return t[1]
    return None


def _epoch(t):
    while isinstance(t, tuple) and t and t[0] in ('cast', 'part', 'op'):
        t = t[4] if t[0] == 'cast' else t[1]
    return t[2] if isinstance(t, tuple) and t[0] == 'ld' else None

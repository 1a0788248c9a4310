"""F07 statements: grammar, context of break/continue/case/default/return, parts of the built nodes."""
from ..absint import is_c, split
from ..program import AnalysisError
from .parse import K, TokPol, is_res, ret_is

NONTERM = {'parse_statement', 'parse_expression', 'parse_constant_expression', 'parse_declaration', 'parse_initializer',
           'parse_type_specifier', 'parse_init_declarator', 'parse_assignment_expression'}
TYPES = ['VOID', 'BOOL', 'CHAR', 'INT', 'LONG', 'FLOAT', 'DOUBLE', 'STRUCT', 'ENUM', 'FILE', 'TYPEDEF', 'CONST']
FILE = 'libs/compiler/parser.c'


class WordPol(TokPol):
    """Every path of a production: nonterminals, consumed tokens, diagnostics and built nodes are events; the rest is inline."""
    max_states = 20000
    cut_after = 1
    vectors = {'node_vector_add', 'scope_block_enter', 'scope_block_exit'}

    def __init__(self, k, toks=(), nonterm=NONTERM, flags=(), prs=0, extra=()):
        TokPol.__init__(self, k, toks)
        self.nonterm = nonterm
        self.prs = prs
        self.cell = (('arg', prs), k.cur, ())
        self.stable = frozenset(flags) | {self.cell}
        self.flags = flags
        self.more = set(extra)

    def advance(self, name):
        return name == 'lex' or name in self.nonterm

    def decide(self, it, st, name, args, fn):
        if name in ('lex', 'peek', 'report_error', 'skip_until') or name in self.nonterm or name in self.vectors or name in self.more:
            return 'event'
        if name.startswith('build_') and fn is not None and fn.mod is not self.K.m:
            return 'event'
        if fn is None or name in self.opaque_fns or fn.mod is not self.K.m and not name.startswith('token_'):
            return 'opaque'
        return 'inline'

    def rec_event(self, name):
        return True

    def effect(self, it, st, name, args, term):
        if name != 'lex' and self.advance(name) or name == 'skip_until':
            st.mem.pop(self.cell, None)
        return TokPol.effect(self, it, st, name, args, term)

    def capture(self, it, st, name, args):
        if name == 'lex':
            c = st.mem.get(self.cell)
            v = c[0] if c else ('ld', ('ptr', self.cell[0], self.cell[1], ()), 0)
            return v if is_c(v) else st.facts.eq.get(v)
        if name == 'report_error':
            return self.token(st)
        return {f: st.mem.get(f) for f in self.flags}

    def token(self, st):
        """What is known of the current token: (kind or None, kinds it is not)."""
        c = st.mem.get(self.cell)
        v = c[0] if c else ('ld', ('ptr', self.cell[0], self.cell[1], ()), 0)
        if is_c(v):
            return v, frozenset()
        return st.facts.eq.get(v), frozenset(st.facts.ne.get(v, ()))


def word(k, p, nonterm=NONTERM):
    """Tokens and nonterminals of the path, None for a consumed token of unknown kind."""
    out = []
    for e in p.events:
        if e.name == 'lex':
            out.append(k.names[e.cap][3:] if is_c(e.cap) and e.cap in k.names else '?')
        elif e.name in nonterm:
            out.append(e.name[6:])
    return tuple(out)


def is_error(p):
    return any(e.name == 'report_error' for e in p.events)


def broken_part(p):
    """The path has found a part to be broken."""
    return any(f == 0 and isinstance(t, tuple) and t[0] == 'call' and t[1] == 'node_is_correct' for t, f in p.facts.log) or \
        any('node_is_correct' in repr(t) for t, f in p.facts.log if not f)


def false_alarm(k, p, words, nonterm=NONTERM):
    """The first diagnostic of the path comes although what was read so far, with the token it stands at, follows one of
    the words: the word, or None."""
    w = []
    for e in p.events:
        if e.name == 'report_error':
            break
        if e.name == 'lex':
            c = e.cap[0] if isinstance(e.cap, tuple) else e.cap
            w.append(k.names[c][3:] if is_c(c) and c in k.names else '?')
        elif e.name in nonterm:
            w.append(e.name[6:])
    else:
        return None
    w = tuple(w)
    kind, ne = e.cap
    for v in words:
        if len(v) <= len(w) or v[:len(w)] != w:
            continue
        t = v[len(w)]
        if t != t.upper():
            continue
        n = k.t(t)
        if kind == n or kind is None and n not in ne:
            return v
    if w in words:
        return w
    return None


class S:
    """One statement form: words it is made of, the node it builds and where its parts come from."""
    def __init__(self, first, words, build, roles, ctxt=None, body=None):
        self.first, self.words, self.build, self.roles, self.ctxt, self.body = first, words, build, roles, ctxt, body


E = 'expression'
ST = 'statement'
COND = ('L_PAREN', E, 'R_PAREN')


def forms():
    """first token -> {word: (builder, roles)}; a role is the index of the symbol in the word, None for an absent part."""
    out = {}
    out['IF'] = {('IF',) + COND + (ST,): ('build_if_statement', [2, 4, None]),
                 ('IF',) + COND + (ST, 'ELSE', ST): ('build_if_statement', [2, 4, 6])}
    out['SWITCH'] = {('SWITCH',) + COND + (ST,): ('build_switch_statement', [2, 4])}
    out['WHILE'] = {('WHILE',) + COND + (ST,): ('build_while_statement', [2, 4])}
    out['DO'] = {('DO', ST, 'WHILE') + COND + ('SEMICOLON',): ('build_do_statement', [1, 4])}
    f = {}
    for init in ((), (E, 'SEMICOLON'), ('declaration',)):
        for cond in ((), (E,)):
            for inc in ((), (E,)):
                w = ('FOR', 'L_PAREN')
                r = []
                r.append(len(w) if init else None)
                w += init or ('SEMICOLON',)
                r.append(len(w) if cond else None)
                w += cond + ('SEMICOLON',)
                r.append(len(w) if inc else None)
                w += inc + ('R_PAREN',)
                r.append(len(w))
                f[w + (ST,)] = ('build_for_statement', r)
    out['FOR'] = f
    out['CONTINUE'] = {('CONTINUE', 'SEMICOLON'): ('build_continue_statement', [])}
    out['BREAK'] = {('BREAK', 'SEMICOLON'): ('build_break_statement', [])}
    out['RETURN'] = {('RETURN', 'SEMICOLON'): ('build_return_statement', [None]),
                     ('RETURN', E, 'SEMICOLON'): ('build_return_statement', [1])}
    out['CASE'] = {('CASE', 'constant_expression', 'COLON', ST): ('build_case_statement', [1, 3])}
    out['DEFAULT'] = {('DEFAULT', 'COLON', ST): ('build_default_statement', [2])}
    out['SEMICOLON'] = {('SEMICOLON',): ('build_null_statement', [])}
    return out


NEEDS = {'CONTINUE': lambda l, s: l, 'BREAK': lambda l, s: l or s, 'CASE': lambda l, s: s, 'DEFAULT': lambda l, s: s}
BODY = {'WHILE': 'loop', 'DO': 'loop', 'FOR': 'loop', 'SWITCH': 'switch'}


def check_stmt(ctx):
    ctx.rule('grammar', 'a statement accepted without a diagnostic has exactly the parts and tokens of the grammar')
    ctx.rule('complete', 'every form of the grammar is accepted')
    ctx.rule('node', 'the node built is that of the statement, with its parts in their places, and is what the statement becomes')
    ctx.rule('context', 'break, continue, case and default are accepted exactly inside the statements that admit them')
    ctx.rule('body', 'the body of a loop or switch is parsed as such, and the context outside it is what it was before')
    ctx.rule('block', 'a block is a sequence of declarations and statements in order, in a scope of its own')
    ctx.rule('choice', 'what begins with a type is a declaration, everything else is a statement')
    k = K(ctx)
    P = ctx.prog
    names = {n: P.field(k.m, 'parser', n) for n in ('is_in_loop', 'is_in_switch', 'was_return')}
    cell = {n: (('arg', 0), o, ()) for n, o in names.items()}
    flags = (cell['is_in_loop'], cell['is_in_switch'])
    F = forms()
    kinds = sorted(set(k.tok.values()))

    def run(first, l=None, s=None, toks=()):
        m = {(('arg', 0), k.cur, ()): (k.t(first), 4)}
        m.update((c, (('ld', ('ptr', c[0], c[1], ()), 0), 1)) for c in flags)
        if l is not None:
            m[cell['is_in_loop']] = (l, 1)
        if s is not None:
            m[cell['is_in_switch']] = (s, 1)
        fn = P.need('parse_statement', k.m)
        return ctx.paths(fn, WordPol(k, toks, flags=flags), mem=m, nonnull=[0])

    def strip(t):
        while isinstance(t, tuple) and t and t[0] in ('cast', 'op', 'part', 'not'):
            t = t[4] if t[0] == 'cast' else t[3] if t[0] == 'op' else t[1]
        return t

    def old(t, init):
        t = strip(t)
        return isinstance(t, tuple) and t[0] == 'ld' and split(t[1]) == init and t[2] == 0

    def flag(c, init, log):
        """A flag cell as 0, 1 or 'same' as when the statement began."""
        if c is None:
            return 'same'
        v = c[0]
        if not is_c(v):
            return 'same' if old(v, init) else '?'
        for t, f in log:        # the path may have established what it was
            neg = False
            if t[0] == 'cmp' and t[1] in ('eq', 'ne') and is_c(t[3]):
                neg = (t[1] == 'eq') == (t[3] == 0)
                t = t[2]
            if old(t, init):
                return 'same' if (v & 1) == int(bool(f) != neg) else v & 1
        return v & 1

    def known(log, n):
        """The path has found the flag to be set when the statement began."""
        return flag((1, 1), cell[n], log) == 'same'

    for first, words in F.items():
        seen = set()
        for p in run(first, *((1, 1) if first in NEEDS else ())):
            if p.kind != 'ret':
                if p.kind == 'back':
                    ctx.ob('grammar', first + ' repeats', False, FILE, 'a part of the statement is repeated')
                continue
            w = word(k, p)
            where = p.events[-1].where() if p.events else FILE
            restored = [n for n in ('is_in_loop', 'is_in_switch')
                        if flag(p.state.mem.get(cell[n]), cell[n], p.facts.log) not in (('same', 1) if first in NEEDS else ('same',))]
            ctx.ob('body', first + ' leaves the context', not restored, where, '%s is not what it was before: %s' % (first, ', '.join(restored)))
            for e in p.events:
                if e.name == 'parse_statement':
                    l, s = (flag(e.cap[cell[n]], cell[n], e.facts) for n in ('is_in_loop', 'is_in_switch'))
                    same = ('same', 1) if first in NEEDS else ('same',)
                    want = BODY.get(first)
                    on = (1,) if first not in NEEDS else (1, 'same')
                    ok = (l in on or known(e.facts, 'is_in_loop') if want == 'loop' else l in same) and \
                        (s in on or known(e.facts, 'is_in_switch') if want == 'switch' else s in same)
                    ctx.ob('body', '%s body' % first, ok, e.where(), 'the nested statement is parsed with loop=%s switch=%s' % (l, s))
            if is_error(p) and not broken_part(p):
                v = false_alarm(k, p, words)
                ctx.ob('complete', '%s: error after %s' % (first, ' '.join(w)), v is None, where, 'reported although %s follows the grammar' % ' '.join(v or ()))
            if is_error(p) or broken_part(p):
                continue
            seen.add(w)
            ctx.ob('grammar', '%s: %s' % (first, ' '.join(w)), w in words, where, 'accepted: ' + ' '.join(w))
            if w not in words:
                continue
            b, roles = words[w]
            bs = [e for e in p.events if e.name == b]
            ok = len(bs) == 1 and ret_is(p, bs[0]) and parts(p, bs[0], roles, w)
            ctx.ob('node', ' '.join(w), ok, where, 'builds: ' + shown(p))
            if first == 'RETURN':
                c = p.state.mem.get(cell['was_return'])
                ctx.ob('node', ' '.join(w) + ' is remembered', c is not None and is_c(c[0]) and c[0] & 1, where, 'the function is not marked as returning')
            # a longer form must have been excluded by the next token
            for w2 in words:
                if len(w2) > len(w) and w2[:len(w)] == w:
                    t = p.state.mem.get((('arg', 0), k.cur, ()))
                    nx = k.t(w2[len(w)])
                    out = t is not None and (nx in p.facts.ne.get(t[0], ()) or is_c(t[0]) and t[0] != nx)
                    ctx.ob('grammar', '%s | %s' % (' '.join(w), w2[len(w)]), out, where, 'ends although %s may follow' % w2[len(w)])
        for w in words:
            ctx.ob('complete', ' '.join(w), w in seen, FILE + ' (parse_statement)', 'is not accepted')
    # context
    for first, need in NEEDS.items():
        for l in (0, 1):
            for s in (0, 1):
                ps = [p for p in run(first, l, s) if p.kind == 'ret']
                acc = {bool(any(e.name == b for b in {q[0] for q in F[first].values()})) for p in ps for e in p.events
                       if e.name.startswith('build_') and not is_error(p)}
                err = {is_error(p) for p in ps}
                ok = acc == {True} if need(l, s) else not acc and err == {True}
                ctx.ob('context', '%s with loop=%d switch=%d' % (first, l, s), ok, ps[-1].events[-1].where() if ps and ps[-1].events else FILE,
                       '%s is %saccepted' % (first, '' if acc else 'not '))
    ctx.minimum('context', 16)
    # expression statements: every token that begins no other statement
    other = set(F) | {'L_BRACE'}
    for t in kinds:
        n = k.names[t][3:]
        if n in other:
            continue
        ok = False
        for p in run(n):
            if p.kind != 'ret':
                continue
            w = word(k, p)
            if is_error(p) or broken_part(p):
                continue
            e = [x for x in p.events if x.name == 'parse_expression']
            good = w == (E, 'SEMICOLON') and ret_is(p, e[0])
            ok = ok or good
            if not good:
                ctx.ob('grammar', 'expression statement at ' + n, False, FILE, 'accepted: ' + ' '.join(w))
        ctx.ob('complete', 'expression statement at ' + n, ok, FILE + ' (parse_statement)', 'is not accepted')
    # blocks
    block(ctx, k, run, kinds)


def block(ctx, k, run, kinds):
    words = {}
    for p in run('L_BRACE'):
        w = word(k, p)
        where = p.events[-1].where()
        sc = [e for e in p.events if e.name.startswith('scope_block')]
        if p.kind == 'ret':
            ok = len(sc) == 2 and sc[0] is p.events[0] and sc[1] is p.events[-1] and sc[0].name.endswith('enter') and \
                sc[1].name.endswith('exit') and uses(sc[1].args, sc[0])
            ctx.ob('block', 'scope around ' + (' '.join(w[:2]) or 'block'), ok, where, 'the block is not parsed in a scope of its own')
        if is_error(p) or broken_part(p):
            continue
        items = [e for e in p.events if e.name in NONTERM]
        adds = [e for e in p.events if e.name == 'node_vector_add']
        ok = len(adds) == len(items) and all(is_res(a.args[1], i) for a, i in zip(adds, items)) and \
            len({repr(a.extra[0]) for a in adds}) <= 1
        ctx.ob('block', ' '.join(w) + ' ' + p.kind, ok, where, 'an item of the block is lost or moved')
        mid = w[1:-1] if p.kind == 'ret' else w[1:]
        ok = w[:1] == ('L_BRACE',) and all(x in (ST, 'declaration') for x in mid) and (p.kind == 'back' or w[-1] == 'R_BRACE')
        ctx.ob('grammar', 'block ' + ' '.join(w), ok, where, 'accepted: ' + ' '.join(w))
        if p.kind == 'ret':
            words[w] = True
            b = [e for e in p.events if e.name == 'build_compound_statement']
            ok = len(b) == 1 and ret_is(p, b[0]) and (not adds or repr(b[0].extra[1]) == repr(adds[0].extra[0]))
            ctx.ob('node', 'block ' + ' '.join(w), ok, where, 'builds: ' + shown(p))
    for mid in ((), (ST,), ('declaration',)):
        w = ('L_BRACE',) + mid + ('R_BRACE',)
        ctx.ob('complete', ' '.join(w), w in words, FILE, 'is not accepted')
    for root, pre in (('L_BRACE', []), ('FOR', ['L_PAREN'])):
        for t in kinds:
            n = k.names[t][3:]
            if n in ('R_BRACE', 'EOF') and root == 'L_BRACE' or n == 'SEMICOLON' and root == 'FOR':
                continue
            got = set()
            for p in run(root, toks=[k.t(q) for q in pre] + [t]):
                it = [e for e in p.events if e.name in NONTERM]
                if not it:
                    got.add('nothing')
                    continue
                d = it[0].name == 'parse_declaration'
                if n == 'IDENTIFIER':
                    typ = [f for q, f in it[0].facts if 'ident_is_type_specifier' in repr(q)]
                    known = [f for q, f in it[0].facts if 'repr_get_reference' in repr(q)]
                    got.add('wrong' if d != bool(typ and typ[-1]) and (typ or not known) or d and not typ else 'ok')
                else:
                    got.add('ok' if d == (n in TYPES) else 'wrong')
            ctx.ob('choice', '%s after %s' % (n, root), got == {'ok'}, FILE, '%s is not read as a %s' % (n, 'declaration' if n in TYPES else 'statement'))
    ctx.minimum('choice', 150)


def parts(p, b, roles, w):
    """The arguments of the built node are the results of the symbols of the word."""
    evs = [e for e in p.events if e.name == 'lex' or e.name in NONTERM]
    for n, r in enumerate(roles):
        a = b.args[1 + n]
        if r is None:
            if a not in (0, ('null',)):
                return False
            continue
        e = evs[r]
        if is_res(a, e):
            continue
        c = [x for x in p.events if x.name == 'build_condition' and is_res(a, x) and is_res(x.args[1], e)]
        if not c:
            return False
    return True


def uses(args, e):
    return any(repr(e.res[3]) in repr(a) for a in args)


def shown(p):
    from ..absint import show
    return ' '.join('%s(%s)' % (e.name, ', '.join(show(a) for a in e.args[1:5])) for e in p.events if e.name.startswith('build_'))[:600]

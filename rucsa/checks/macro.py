"""P01 preprocessor expressions: tokens, precedence, values of the operators, reported errors."""
from ..absint import Interp, Policy, is_c, split

NUMS, OPS = ('numbers',), ('operators',)
BINARY = [('TK_MULT', '*', 10), ('TK_DIV', '/', 10), ('TK_MOD', '%', 10), ('TK_ADD', '+', 9), ('TK_SUB', '-', 9),
          ('TK_L_SHIFT', '<<', 8), ('TK_R_SHIFT', '>>', 8), ('TK_LESS', '<', 7), ('TK_GREATER', '>', 7), ('TK_LESS_EQ', '<=', 7),
          ('TK_GREATER_EQ', '>=', 7), ('TK_EQ', '==', 6), ('TK_NOT_EQ', '!=', 6), ('TK_BIT_AND', '&', 5), ('TK_XOR', '^', 4),
          ('TK_BIT_OR', '|', 3), ('TK_AND', '&&', 2), ('TK_OR', '||', 1)]
UNARY = [('TK_COMPL', '~'), ('TK_NOT', '!'), ('TK_SUB', '-'), ('TK_ADD', '+')]
ARITH = {'*': 'mul', '+': 'add', '-': 'sub', '<<': 'shl', '>>': 'ashr', '&': 'and', '^': 'xor', '|': 'or'}
REL = {'<': 'slt', '>': 'sgt', '<=': 'sle', '>=': 'sge', '==': 'eq', '!=': 'ne'}
FILE = 'libs/macro/computer.c'


class CompPol(Policy):
    """The two stacks of the evaluator are sequences of terms."""
    max_rec = 14
    max_depth = 60
    unroll_forked = 20

    def __init__(self, m):
        self.m = m
        self.stable = frozenset([(NUMS, 0, ()), (OPS, 0, ()), (('arg', 0), m.was, ())])

    def which(self, a):
        b, o, d = split(a)
        if b == ('arg', 0) and not d:
            return {self.m.num: NUMS, self.m.ops: OPS}.get(o)

    def rec_event(self, name):
        return True

    def decide(self, it, st, name, args, fn):
        if name.startswith(('stack_', 'vector_')) and args:
            w = self.which(args[0])
            if w is not None:
                c = (w, 0, ())
                v = st.mem[c][0]
                if name in ('stack_push', 'vector_add'):
                    st.mem[c] = (v + (args[1],), 8)
                    return ('value', 0 if name == 'stack_push' else len(v))
                if name in ('stack_pop', 'vector_remove'):
                    st.mem[c] = (v[:-1], 8)
                    return ('value', v[-1] if v else self.m.none)
                if name == 'stack_peek':
                    return ('value', v[-1] if v else self.m.none)
                if name in ('stack_size', 'vector_size'):
                    return ('value', len(v))
                if name in ('stack_is_correct', 'vector_is_correct'):
                    return ('value', 1)
                if name in ('stack_clear', 'stack_reset', 'vector_clear'):
                    st.mem[c] = ((), 8)
                    return ('value', 0)
        if name in ('macro_verror', 'macro_error'):
            return 'event'
        if name == 'loc_is_correct':
            return ('value', 1)
        if fn is None or fn.mod is not self.m.mod:
            return 'opaque'
        return 'inline'


class W64:
    kind, width, size = 'int', 64, 8

    def __repr__(self):
        return 'i64'


class M:
    def __init__(self, ctx):
        P = ctx.prog
        self.ctx, self.P = ctx, P
        self.push = P.need('computer_push_token')
        self.mod = self.push.mod
        f = lambda n: P.field(self.mod, 'computer', n)
        self.num, self.ops, self.was = f('numbers'), f('operators'), f('was_number')
        self.none = (1 << 63) - 1
        self.tk = P.enum(self.mod, 'TOKEN')

    def run(self, fname, args, nums, ops, was):
        fn = self.P.need(fname, self.mod)
        mem = {(NUMS, 0, ()): (tuple(nums), 8), (OPS, 0, ()): (tuple(ops), 8), (('arg', 0), self.was, ()): (was, 1)}
        ps = self.ctx.paths(fn, CompPol(self), mem=mem, args=args, nonnull=[0])
        return [R(self, p) for p in ps if p.kind == 'ret']

    def token(self, tk, nums, ops, was, pos='p'):
        return self.run('computer_push_token', {1: (pos,), 2: self.tk[tk]}, nums, ops, was)

    def number(self, v, nums, ops, was):
        return self.run('computer_push_number', {1: ('p',), 2: v}, nums, ops, was)


class R:
    """One outcome."""
    def __init__(self, m, p):
        self.p = p
        self.nums = p.state.mem[NUMS, 0, ()][0]
        self.ops = p.state.mem[OPS, 0, ()][0]
        w = p.state.mem.get((('arg', 0), m.was, ()))
        self.was = w[0] if w else None
        self.err = [e for e in p.events]
        self.ret = p.ret

    def __repr__(self):
        from ..absint import show
        return 'numbers [%s], operators [%s]%s' % (', '.join(show(v)[:60] for v in self.nums), ', '.join(show(v)[:30] for v in self.ops),
                                                   ', diagnostic' if self.err else '')


def same(it, st, got, op, a, b):
    """got is the value of a op b on the path (the operators of C on 64-bit integers); 'zero' for an undefined division."""
    truth = it.truth
    if op in ARITH:
        return got == it.arith(ARITH[op], W64(), a, b)
    if op in ('/', '%'):
        if truth(st, it.cmp('eq', b, 0, 64)) != 0:
            return False
        if truth(st, it.cmp('eq', b, -1, 64)):
            return got == 0 if op == '%' else got in (it.arith('sub', W64(), 0, a), it.arith('mul', W64(), a, -1))
        return got == it.arith('sdiv' if op == '/' else 'srem', W64(), a, b)
    if op in REL:
        c = it.cmp(REL[op], a, b, 64)
        t = truth(st, c)
        return got == t if t is not None else got == ('cast', 'zext', 1, 64, c)
    x, y = (truth(st, it.cmp('ne', v, 0, 64)) for v in (a, b))
    if op == '&&':
        t = 0 if x == 0 or y == 0 else 1 if x == 1 and y == 1 else None
    else:
        t = 1 if x == 1 or y == 1 else 0 if x == 0 and y == 0 else None
    return t is not None and got == t


def check_if(ctx):
    ctx.rule('operator', 'a binary operator has the value it has in C for 64-bit integers; division by zero is reported')
    ctx.rule('unary', 'a unary operator applies to the number or bracket that follows, the one read last first')
    ctx.rule('precedence', 'an operator takes its operands before one that binds weaker or as strong to its right')
    ctx.rule('bracket', 'a closing bracket completes the operators since its opening one')
    ctx.rule('malformed', 'an operand or operator that does not fit is reported')
    ctx.rule('token', 'the operators are recognised by their longest spelling, anything else is reported')
    m = M(ctx)
    it = Interp(ctx.prog, CompPol(m))
    prec = {t: p for t, _, p in BINARY}
    sp = {t: s for t, s, _ in BINARY}
    where = lambda f: '%s (%s)' % (FILE, f)
    # how an operator waits on the stack
    rep = {}
    for t, s, _ in BINARY + [('TK_L_BOUND', '(', 0)]:
        rs = m.token(t, (), (), 0) if s == '(' else m.token(t, (('a',),), (), 1)
        ok = len(rs) == 1 and not rs[0].err and rs[0].ops and rs[0].was == 0
        ctx.ob('precedence', 'the first %s of an expression waits for its operand' % s, ok, where('computer_push_token'), repr(rs))
        rep[t] = rs[0].ops if ok else (('p',), m.tk[t])
    urep = {}
    for t, s in UNARY:
        rs = m.token(t, (), (), 0)
        ok = len(rs) == 1 and not rs[0].err and rs[0].ops and rs[0].was == 0 and not rs[0].nums
        ctx.ob('unary', 'a leading %s waits for its operand' % s, ok, where('computer_push_token'), repr(rs))
        urep[t] = rs[0].ops if ok else (('p',), m.tk[t])
    a, b, c, n = ('a',), ('b',), ('c',), ('n',)

    def unary(st, got, us, v):
        """got is the value of the unary operators us (outermost first) on v."""
        for s in us[::-1]:
            if s == '~':
                v = it.arith('xor', W64(), v, -1)
            elif s == '-':
                v = it.arith('sub', W64(), 0, v)
            elif s == '!':
                q = it.cmp('eq', v, 0, 64)
                t = it.truth(st, q)
                v = t if t is not None else ('cast', 'zext', 1, 64, q)
        return got == v
    # numbers
    for base in [()] + [rep[t] for t, _, _ in BINARY] + [rep['TK_L_BOUND']]:
        below = next((sp[t] for t in prec if rep[t] == base), '(' if base else '')
        for us in [()] + [(u,) for u in UNARY] + [(u, v) for u in UNARY for v in UNARY]:
            ops = base
            for t, s in us:
                ops += urep[t]
            rs = m.number(n, (a,), ops, 0)
            ok = rs and all(not r.err and r.ret == 0 and r.ops == base and len(r.nums) == 2 and r.nums[0] == a and r.was == 1
                            and unary(r.p.state, r.nums[1], [s for _, s in us], n) for r in rs)
            ctx.ob('unary', '%s%sn' % (below + ' ' if below else '', ' '.join(s for _, s in us)), ok, where('computer_push_number'), repr(rs)[:300])
    # binary operators, alone
    for t, s, _ in BINARY:
        rs = m.run('computer_pop_result', {}, (a, b), rep[t], 1)
        bad = None
        zero = False
        for r in rs:
            z = it.truth(r.p.state, it.cmp('eq', b, 0, 64)) == 1
            if s in ('/', '%') and z:
                zero = True
                if not r.err:
                    bad = 'division by zero is not reported'
            elif r.err or not same(it, r.p.state, r.ret, s, a, b) or r.ops:
                bad = 'gives %r' % (r.p.ret,)
        if s in ('/', '%') and not zero and bad is None:
            bad = 'division by zero is not reported'
        ctx.ob('operator', 'a %s b' % s, rs and bad is None, where('computer_pop_result'), str(bad)[:300])
    # two operators
    for t1, s1, p1 in BINARY:
        for t2, s2, p2 in BINARY:
            rs = m.token(t2, (a, b), rep[t1], 1)
            bad = None
            for r in rs:
                z = s1 in ('/', '%') and it.truth(r.p.state, it.cmp('eq', b, 0, 64)) == 1
                if z:
                    if not r.err:
                        bad = 'division by zero is not reported'
                    continue
                if r.err or r.ret != 0 or r.was != 0:
                    bad = repr(r)
                elif p1 >= p2:
                    if r.ops != rep[t2] or len(r.nums) != 1 or not same(it, r.p.state, r.nums[0], s1, a, b):
                        bad = repr(r)
                elif r.ops != rep[t1] + rep[t2] or r.nums != (a, b):
                    bad = repr(r)
            ctx.ob('precedence', 'a %s b %s c' % (s1, s2), rs and bad is None, where('computer_push_token'), bad or '')
    # three: the one below is looked at again
    low = {}
    for t, s, p in BINARY:
        low.setdefault(p, (t, s))
    for p0, (t0, s0) in sorted(low.items()):
        for p1, (t1, s1) in sorted(low.items()):
            if p0 >= p1:
                continue
            for t2, s2, p2 in BINARY:
                for br in (False, True):
                    base = rep['TK_L_BOUND'] if br else ()
                    rs = m.token(t2, (a, b, c), base + rep[t0] + rep[t1], 1)
                    bad = None
                    for r in rs:
                        if s1 in ('/', '%') and r.err:
                            continue
                        nums, ops = [a, b, c], base + rep[t0] + rep[t1]
                        ok = not r.err and r.ret == 0
                        if p1 >= p2:
                            ops = base + rep[t0]
                            k = 2 if p0 < p2 else 1
                            if p0 >= p2:
                                ops = base
                            v = r.nums[-1] if r.nums else None
                            ok = ok and len(r.nums) == k and (k == 1 or r.nums[0] == a)
                            if ok:
                                w = value(it, r.p.state, s1, b, c)
                                ok = same(it, r.p.state, v, s1, b, c) if k == 2 else w is not None and same(it, r.p.state, v, s0, a, w)
                        else:
                            ok = ok and r.nums == (a, b, c)
                        if not ok or r.ops != ops + rep[t2]:
                            bad = repr(r)
                    ctx.ob('precedence', '%sa %s b %s c %s d' % ('( ' * br, s0, s1, s2), rs and bad is None, where('computer_push_token'), bad or '')
    # brackets
    B = rep['TK_L_BOUND']
    for us in [()] + [(u,) for u in UNARY] + [(u, v) for u in UNARY for v in UNARY]:
        for below in [()] + [rep[t] for _, (t, _) in sorted(low.items())] + [B]:
            ops = below
            for t, _ in us:
                ops += urep[t]
            bn = next((sp[t] for t in prec if rep[t] == below), '(' if below else '')
            rs = m.token('TK_R_BOUND', (a, b), ops + B, 1)
            ok = rs and all(not r.err and r.ret == 0 and r.ops == below and len(r.nums) == 2 and r.nums[0] == a and r.was == 1
                            and unary(r.p.state, r.nums[1], [s for _, s in us], b) for r in rs)
            ctx.ob('bracket', 'a %s %s( b )' % (bn, ' '.join(s for _, s in us)), ok, where('computer_push_token'), repr(rs)[:300])
    for t, s, _ in BINARY:
        rs = m.token('TK_R_BOUND', (a, b), B + rep[t], 1)
        bad = None
        for r in rs:
            if s in ('/', '%') and it.truth(r.p.state, it.cmp('eq', b, 0, 64)) == 1:
                continue
            if r.err or r.ret != 0 or r.ops or r.was != 1 or len(r.nums) != 1 or not same(it, r.p.state, r.nums[0], s, a, b):
                bad = repr(r)
        ctx.ob('bracket', '( a %s b )' % s, rs and bad is None, where('computer_push_token'), bad or '')
    # what does not fit
    def err(key, rs, fname):
        ctx.ob('malformed', key, rs and all(r.err for r in rs), where(fname), 'accepted: %r' % rs)
    for below, nb in [((), '')] + [(rep[t], sp[t]) for t in prec] + [(B, '(')] + [(urep[t], s) for t, s in UNARY]:
        for t, s, _ in BINARY:
            if s not in '+-':
                err('%s %s without a left operand' % (nb, s), m.token(t, (a,) if nb in sp.values() else (), below, 0), 'computer_push_token')
        err('%s ) without an operand' % nb, m.token('TK_R_BOUND', (a,) if below and nb != '(' else (), below, 0), 'computer_push_token')
        if below:
            err('%s at the end' % nb, m.run('computer_pop_result', {}, (a,), below, 0), 'computer_pop_result')
    err('nothing', m.run('computer_pop_result', {}, (), (), 0), 'computer_pop_result')
    for below, nb in [((), '')] + [(rep[t], sp[t]) for t in prec] + [(B, '(')]:
        for t, s in [('TK_COMPL', '~'), ('TK_NOT', '!'), ('TK_L_BOUND', '(')]:
            err('%s b %s' % (nb, s), m.token(t, (a, b), below, 1), 'computer_push_token')
        err('%s b n' % nb, m.number(n, (a, b), below, 1), 'computer_push_number')
    for t in prec:
        err('b %s c )' % sp[t], m.token('TK_R_BOUND', (a, b), rep[t], 1), 'computer_push_token')
        err('( a %s b' % sp[t], m.run('computer_pop_result', {}, (a, b), B + rep[t], 1), 'computer_pop_result')
    err('b )', m.token('TK_R_BOUND', (a,), (), 1), 'computer_push_token')
    err('( b', m.run('computer_pop_result', {}, (a,), B, 1), 'computer_pop_result')
    rs = m.run('computer_pop_result', {}, (n,), (), 1)
    ctx.ob('operator', 'n', rs and all(not r.err and r.ret == n for r in rs), where('computer_pop_result'), repr(rs))
    rs = m.run('computer_push_const', {1: ('p',), 2: 65}, (a,), rep['TK_ADD'], 0)
    ctx.ob('operator', 'a character', rs and all(not r.err and r.nums == (a, 65) for r in rs), where('computer_push_const'), repr(rs))
    check_tokens(ctx, m)


def value(it, st, op, a, b):
    if op in ARITH:
        return it.arith(ARITH[op], W64(), a, b)
    if op in ('/', '%'):
        if it.truth(st, it.cmp('eq', b, -1, 64)) == 1:
            return None if op == '/' else 0
        return it.arith('sdiv' if op == '/' else 'srem', W64(), a, b)
    if op in REL:
        c = it.cmp(REL[op], a, b, 64)
        t = it.truth(st, c)
        return t if t is not None else ('cast', 'zext', 1, 64, c)
    for v in (0, 1):
        if same(it, st, v, op, a, b):
            return v


class ScanPol(Policy):
    """The text that follows is known: characters with or without blanks before them."""
    at = (('at',), 0, ())

    def __init__(self, mod, text, flags=()):
        self.mod, self.text = mod, text
        self.stable = frozenset(flags) | {self.at}

    def rec_event(self, name):
        return True

    def decide(self, it, st, name, args, fn):
        i, skipped = st.mem[self.at][0]
        if name == 'uni_scan_char':
            ch, gap = self.text[i]
            if gap and not skipped:
                return ('value', 32)
            st.mem[self.at] = ((i + 1, False), 8)
            return ('value', ch)
        if name in ('skip_until', 'skip_lines'):
            ch, gap = self.text[i]
            st.mem[self.at] = ((i, gap), 8)
            return ('value', ch)
        if name == 'in_get_position':
            return ('value', 2 * i + (1 if skipped else 0))
        if name == 'uni_unscan_char':
            st.mem[self.at] = ((i - 1, False), 8)
            return ('value', 0)
        if name in ('computer_push_token', 'macro_verror', 'macro_error'):
            return 'event'
        if name in ('in_is_file', 'loc_copy') or fn is None or fn.mod is not self.mod:
            return 'opaque'
        return 'inline'


SPELL = {s: t for t, s, _ in BINARY}
SPELL.update({'(': 'TK_L_BOUND', ')': 'TK_R_BOUND', '~': 'TK_COMPL', '!': 'TK_NOT'})
WRONG = {x + '=' for x in ('*', '/', '%', '^', '&', '|', '+', '-', '<<', '>>', '')} | {'++', '--'}


def check_tokens(ctx, m):
    P = ctx.prog
    f = P.need('parse_token', P.need('parser_preprocess').mod)
    rec = (('arg', 0), P.field(f.mod, 'parser', 'is_recovery_disabled'), ())
    chars = [c for c in range(33, 127)]
    follow = [ord(c) for c in '=<>&|+-!(a1.'] + [10, -1]
    for c in chars:
        if chr(c).isalnum() or chr(c) in '_#\'".':
            continue
        for n in follow:
            for gap in (False, True):
                for third in ([61, 97] if chr(c) in '<>' and n == c else [97]):
                    text = [(c, False), (n, gap), (third, False), (97, False), (97, False)]
                    two = chr(c) + (chr(n) if n > 32 and not gap else ' ')
                    three = two + chr(third)
                    if two in WRONG or three in WRONG or (chr(c) not in SPELL and two not in SPELL) or chr(c) == '=' and two not in SPELL:
                        want, size = None, 0
                    else:
                        size = 2 if two in SPELL else 1
                        want = m.tk[SPELL[two[:size]]]
                    ps = ctx.paths(f, ScanPol(f.mod, text, [rec]), mem={ScanPol.at: ((0, False), 8), rec: (0, 1)}, nonnull=[0, 1])
                    bad = None
                    for p in ps:
                        if p.kind != 'ret':
                            continue
                        push = [e for e in p.events if e.name == 'computer_push_token']
                        errs = [e for e in p.events if e.name != 'computer_push_token']
                        i = p.state.mem[ScanPol.at][0][0]
                        if want is None:
                            if push or not errs or p.ret != 0:
                                bad = 'not reported'
                        elif errs or len(push) != 1 or push[0].args[2] != want or push[0].args[0] != ('arg', 1) or push[0].args[1] != ('arg', 2):
                            bad = 'taken as %s' % (push[0].args[2] if push else 'an error')
                        elif i != size:
                            bad = '%d characters are consumed' % i
                    ctx.ob('token', repr((chr(c) + (' ' if gap else '') + (chr(n) if n > 32 else 'end of line' if n == 10 else 'end')
                                          + (chr(third) if len(three) and third == 61 else ''))),
                           ps and bad is None, 'libs/macro/parser.c (parse_token)', bad or '')

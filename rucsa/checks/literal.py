"""F03 comments and literals: the scanner on texts of character classes."""
import itertools
import random

from ..absint import Policy, is_c, show, uns
from ..program import AnalysisError

EOF = 0xffffffff
TEXT, POS = (('txt',), 0, ()), (('at',), 0, ())
FILE = 'libs/compiler/lexer.c'
D, H, N, O = 'digit', 'hex', 'nonzero', 'other'
SYM = {D: '0123456789', N: '123456789', H: 'abcdABCDfF', O: '@$`'}
RNG = {D: (0, 9), N: (1, 9), H: (10, 15)}


class ScanPol(Policy):
    """A text of classes, chosen as it is read; a read position may be saved and restored."""
    max_states = 60000
    cut_after = 14

    def __init__(self, off, alphabet, chars):
        self.off, self.alphabet, self.chars = off, alphabet, chars
        self.stable = frozenset([TEXT, POS, (('arg', 1), off, ()), (('arg', 0), off, ())])

    def cut_back(self, fn):
        return 'always'

    def rec_event(self, name):
        return True

    def letters(self, n):
        if not isinstance(self.alphabet[0], (tuple, list)):
            return self.alphabet
        return self.alphabet[min(n - 1, len(self.alphabet) - 1)]

    def cls(self, st, v):
        v = st.facts.eq.get(v, v)
        if is_c(v):
            return v
        for t, c in st.mem[TEXT][0]:
            if t == v:
                return c

    def decide(self, it, st, name, args, fn):
        m = st.mem
        if name == 'uni_scan_char':
            at, txt = m[POS][0], m[TEXT][0]
            if at < len(txt):
                m[POS] = (at + 1, 8)
                t, c = txt[at]
                return ('value', c if is_c(c) else t)
            if txt and txt[-1][1] == -1:
                return ('value', -1)
            if len(txt) >= self.chars:
                return 'cut'
            return 'event'
        if name == 'in_get_position':
            return ('value', m[POS][0])
        if name == 'in_set_position':
            if not is_c(args[1]):
                return 'cut'
            m[POS] = (args[1], 8)
            return ('value', 0)
        if name == 'uni_unscan_char':
            m[POS] = (m[POS][0] - 1, 8)
            return ('value', 0)
        if name in ('utf8_is_digit', 'utf8_is_hexa_digit', 'utf8_is_power', 'utf8_is_letter'):
            c = self.cls(st, args[0])
            if isinstance(c, str):
                return ('value', int({'utf8_is_digit': c in (D, N), 'utf8_is_hexa_digit': c in (D, N, H),
                                      'utf8_is_power': False, 'utf8_is_letter': c == H}[name]))
            return 'inline' if c is not None else 'opaque'
        if name == 'utf8_to_number':
            c = self.cls(st, args[0])
            if c in RNG:
                t = ('num', args[0])
                st.facts.rng[t] = RNG[c]
                return ('value', t)
            return 'inline'
        if name.startswith('token_') and not name.startswith(('token_is', 'token_get')):
            return 'event'
        if name in ('report_error', 'warning', 'report_warning', 'vector_add', 'vector_resize', 'string_add', 'repr_reserve'):
            return 'event'
        if fn is None or name in ('pow', 'repr_get_reference'):
            return 'opaque'
        if fn.mod.path.endswith('compiler/lexer.c') or fn.mod.path.endswith('token.c') or fn.mod.path.endswith('utf8.c'):
            return 'inline'
        return 'opaque'

    def effect(self, it, st, name, args, t):
        if name != 'uni_scan_char':
            return None

        def app(s, c):
            s.mem[TEXT] = (s.mem[TEXT][0] + ((t, c),), 8)
            s.mem[POS] = (s.mem[POS][0] + 1, 8)
            if isinstance(c, str):
                s.facts.ne[t] = frozenset(list(range(33, 48)) + [32, 9, 10, 13, -1, 0] + list(range(58, 64)) +
                                          ([] if c == O else [64]) + list(range(91, 96)) + [123, 124, 125, 126] +
                                          ([48] if c in (N,) else []) +
                                          (list(range(48, 58)) + [ord(x) for x in 'xXoOdDbBntNT'] + [0x43d, 0x442] if c == O else
                                           list(range(48, 58)) + [ord(x) for x in 'xXoO'] if c == H else
                                           [ord(x) for x in 'xXdDoObBeEnt']))
            else:
                s.facts.eq[t] = c
        n = len(st.mem[TEXT][0])
        cs = self.letters(n)
        first, at = st.mem[TEXT][0], st.mem[POS][0]
        app(st, cs[0])

        def alt(c):
            def f(s):
                s.mem[TEXT], s.mem[POS] = (first, 8), (at, 8)
                s.facts.eq.pop(t, None)
                s.facts.ne.pop(t, None)
                app(s, c)
            return f
        return [alt(c) for c in cs[1:]]


class Unknown(Exception):
    pass


def value(t, env):
    """The number a term stands for, with env giving the characters; double arithmetic as the machine does it."""
    if is_c(t):
        return t
    if t in env:
        return env[t]
    if not isinstance(t, tuple):
        raise Unknown(t)
    if t[0] == 'f':
        return t[1]
    if t[0] == 'num':
        return int(chr(value(t[1], env)), 16)
    if t[0] == 'not':
        return 0 if value(t[1], env) else 1
    if t[0] == 'cast':
        _, o, fw, tw, a = t
        v = value(a, env)
        if o == 'zext':
            return uns(v, fw)
        if o == 'trunc':
            v &= (1 << tw) - 1
            return v - (1 << tw) if v >> (tw - 1) and tw > 1 else v
        if o == 'sext':
            return v if fw > 1 else -v
        if o == 'uitofp':
            return float(uns(v, fw))
        if o == 'sitofp':
            return float(v)
        raise Unknown(t)
    if t[0] == 'op':
        a, b = value(t[3], env), value(t[4], env)
        M = 1 << 64
        w = int(t[2][1:]) if t[2][:1] == 'i' and t[2][1:].isdigit() else 64
        f = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'fadd': lambda: a + b, 'fsub': lambda: a - b,
             'fmul': lambda: a * b, 'fdiv': lambda: a / b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b,
             'shl': lambda: a << b, 'udiv': lambda: uns(a) // uns(b), 'urem': lambda: uns(a) % uns(b)}.get(t[1])
        if f is None:
            raise Unknown(t)
        r = f()
        if t[1][0] != 'f':
            r &= (1 << w) - 1
            if r >> (w - 1):
                r -= 1 << w
        return r
    if t[0] == 'cmp':
        a, b = value(t[2], env), value(t[3], env)
        return int({'eq': a == b, 'ne': a != b, 'ult': isinstance(a, int) and uns(a) < uns(b), 'slt': a < b}.get(t[1], None))
    if t[0] == 'call' and t[1] == 'pow':
        return float(value(t[2][0], env)) ** float(value(t[2][1], env))
    if t[0] == 'call' and t[1].startswith('llvm.fmuladd'):
        a = [value(x, env) for x in t[2]]
        return a[0] * a[1] + a[2]
    if t[0] == 'fneg':
        return -value(t[1], env)
    raise Unknown(t)


# --- the language -------------------------------------------------------------------------------------------------

ESC = {ord('n'): 10, 0x43d: 10, ord('t'): 9, 0x442: 9, ord('0'): 0, ord('\\'): ord('\\'), ord("'"): ord("'"), ord('"'): ord('"')}


class More(Exception):
    """The text is too short to tell."""


class Text:
    def __init__(self, cs):
        self.cs, self.i, self.errors, self.warnings = cs, 0, [], 0

    def cur(self):
        if self.i >= len(self.cs):
            if self.cs and self.cs[-1] == -1:
                return -1
            raise More
        return self.cs[self.i]

    def next(self):
        if self.cur() != -1:
            self.i += 1
        return self.cur()

    def err(self, e):
        self.errors.append(e)


def ch(c):
    return chr(c) if c > 0 else ''


def element(t):
    c = t.cur()
    if c != ord('\\'):
        return c
    c = t.next()
    if c not in ESC:
        t.err('unknown_escape_sequence')
        return c
    return ESC[c]


def model(t):
    """(kind, value): what the language makes of the next token of t."""
    while True:
        while ch(t.cur()) and ch(t.cur()) in ' \t\r\n':
            t.next()
        c = t.cur()
        if c == -1:
            return 'eof', None
        if ch(c) == '/':
            t.next()
            if ch(t.cur()) == '/':
                t.next()
                while t.cur() not in (10, -1):
                    t.next()
                continue
            if ch(t.cur()) == '*':
                t.next()
                star = False
                while True:
                    c = t.cur()
                    if c == -1:
                        t.err('unterminated_block_comment')
                        break
                    t.next()
                    if star and ch(c) == '/':
                        break
                    star = ch(c) == '*'
                continue
            if ch(t.cur()) == '=':
                t.next()
                return 'punctuator', 'TK_SLASH_EQUAL'
            return 'punctuator', 'TK_SLASH'
        if ch(c) == '*':
            if ch(t.next()) == '=':
                t.next()
                return 'punctuator', 'TK_STAR_EQUAL'
            return 'punctuator', 'TK_STAR'
        if ch(c) == ';':
            t.next()
            return 'punctuator', 'TK_SEMICOLON'
        if ch(c) == '"':
            out = []
            while ch(t.cur()) == '"':
                t.next()
                while t.cur() not in (ord('"'), 10, -1):
                    out.append(element(t))
                    t.next()
                if t.cur() == ord('"'):
                    t.next()
                else:
                    t.err('missing_terminating_quote_char')
                while ch(t.cur()) and ch(t.cur()) in ' \t\r\n':
                    t.next()
            return 'string', out
        if ch(c) == "'":
            if ch(t.next()) == "'":
                t.err('empty_character_literal')
                t.next()
                return 'char', 0
            v = element(t)
            if ch(t.next()) == "'":
                t.next()
            else:
                t.err('missing_terminating_apost_char')
            return 'char', v
        if ch(c) == '.':
            nxt = t.cs[t.i + 1] if t.i + 1 < len(t.cs) else None
            if nxt is None:
                raise More
            if not ('0' <= ch(nxt) <= '9'):
                t.next()
                return 'punctuator', 'TK_PERIOD'
            return number(t)
        if ch(c) and ch(c) in '0123456789':
            return number(t)
        if ch(c).isalpha() or ch(c) in ('_', '#'):
            raise More
        t.err('bad_character')
        t.next()


HEX = '0123456789abcdef'


def number(t):
    base, mark = 10, False
    if ch(t.cur()) == '0':
        t.next()
        b = {'x': 16, 'd': 10, 'o': 8, 'b': 2}.get(ch(t.cur()).lower())
        if b:
            base, mark = b, True
            t.next()
    v, digits = 0, 0
    while True:
        c = ch(t.cur()).lower()
        if not c or c not in HEX or len(c) != 1 or (not mark and c == 'e'):
            break
        if int(c, 16) >= base:
            t.err('digit_of_another_base')
            while ch(t.cur()) and ch(t.cur()).lower() in HEX:
                t.next()
            return 'int', None
        v = v * base + int(c, 16)
        t.next()
    real = False
    frac, k = 0, 0
    if ch(t.cur()) == '.' and not mark:
        real = True
        while ch(t.next()) and ch(t.cur()) in '0123456789':
            frac = frac * 10 + int(ch(t.cur()))
            k += 1
    power, sign = 0, 1
    if ch(t.cur()) and ch(t.cur()) in 'eE\u0435\u0415' and not mark:
        t.next()
        if ch(t.cur()) == '-':
            sign, real = -1, True
            t.next()
        elif ch(t.cur()) == '+':
            t.next()
        if not (ch(t.cur()) and ch(t.cur()) in '0123456789'):
            t.err('exponent_has_no_digits')
            while ch(t.cur()).isalpha() or ch(t.cur()) == '_' or (ch(t.cur()) and ch(t.cur()) in '0123456789+-'):
                t.next()
            return 'float', None
        while ch(t.cur()) and ch(t.cur()) in '0123456789':
            power = power * 10 + int(ch(t.cur()))
            t.next()
    if not real:
        n = v * 10 ** power
        return 'float' if n >= 1 << 64 else 'number' if n >= 1 << 60 else 'int', n
    x = (v * 10 ** k + frac)
    p = sign * power - k
    return 'float', float(x * 10 ** p) if p >= 0 else x / 10 ** -p


# --- comparison ---------------------------------------------------------------------------------------------------

def spelled(cs):
    return ''.join({10: '\\n', -1: '<end>', D: '9', N: '1', H: 'f', O: '?'}.get(c, chr(c) if is_c(c) and c >= 0 else '?') for c in cs)


class Scan:
    def __init__(self, ctx):
        self.ctx = ctx
        P = ctx.prog
        self.m = P.module('compiler/lexer.c')
        self.off = P.field(self.m, 'lexer', 'character')
        self.sx = P.field(self.m, 'lexer', 'sx')
        self.tk = {v: k for k, v in P.enum(self.m, 'token_t').items()}
        self.err = {v: k for k, v in P.enum(self.m, 'err_t').items()}
        self.wrn = P.ev(self.m, 'too_long_int')
        self.fn = P.need('lex')
        self.lx = 1 if self.fn.sret else 0

    def paths(self, first, alphabet, chars, rounds=14):
        """Paths of the scanner standing at `first`."""
        pol = ScanPol(self.off, alphabet, chars)
        pol.cut_after = rounds
        c = first if is_c(first) else ('c0',)
        mem = {TEXT: (((('c0',), first),), 8), POS: (1, 8), (('arg', self.lx), self.off, ()): (c, 4)}
        facts = None
        return [p for p in self.ctx.paths(self.fn, pol, mem=mem, nonnull=[self.lx]) if p.kind in ('ret', 'cut')]

    def check(self, rule, first, alphabet, chars, rounds=14):
        rnd = random.Random(7)
        n = 0
        for p in self.paths(first, alphabet, chars, rounds):
            txt = p.state.mem[TEXT][0]
            bad, hit, done = None, False, 0
            syms = [i for i, (t, c) in enumerate(txt) if isinstance(c, str)]
            for k in range(400 if syms else 1):
                cs, env = [], {}
                for t, c in txt:
                    v = ord(rnd.choice(SYM[c])) if isinstance(c, str) else c
                    cs.append(v)
                    env[t] = v
                try:
                    if not all(bool(value(f, env)) == bool(v) for f, v in p.state.facts.log if self.known(f, env)):
                        continue
                except OverflowError:
                    continue
                hit = True
                bad = self.row(p, cs, env)
                done += 1
                if bad or done >= 2:
                    break
            if not hit and syms:
                continue        # no text takes this path
            n += 1
            self.ctx.ob(rule, spelled([c for _, c in txt]) + (' #%d' % n), bad is None, FILE + ' (lex)', bad or '')
        return n

    def known(self, f, env):
        try:
            value(f, env)
            return True
        except Unknown:
            return False

    def row(self, p, cs, env):
        t = Text(cs)
        ended = p.kind == 'ret'
        want = None
        try:
            want = model(t)
            t.cur()
        except More:
            pass
        errs = [self.errname(e) for e in p.events if e.name == 'report_error']
        said = ''.join(ch(c) or '<end>' for c in cs)
        if not ended:
            if errs[:len(t.errors)] != t.errors[:len(errs)]:
                return '%r: reports %s' % (said, errs)
            if want is not None and t.i < len(cs) - 1:
                return '%r: the token ends before the last character read' % said
            return None
        if want is None:
            return '%r: a token ends too early' % said
        if errs != t.errors:
            return '%r: reports %s instead of %s' % (said, errs, t.errors)
        toks = [e for e in p.events if e.name.startswith('token_')]
        if len(toks) != 1:
            return '%r: %d tokens' % (said, len(toks))
        e = toks[0]
        kind = {'token_eof': 'eof', 'token_punctuator': 'punctuator', 'token_string_literal': 'string', 'token_char_literal': 'char',
                'token_int_literal': 'int', 'token_float_literal': 'float'}.get(e.name, e.name)
        if kind != want[0] and not (want[0] == 'number' and kind in ('int', 'float')):
            return '%r: a token of kind %s instead of %s' % (said, kind, want[0])
        at = p.state.mem[POS][0] - 1
        if cs[min(at, len(cs) - 1)] != t.cur() or cs[-1] != -1 and at != t.i:
            return '%r: scanning goes on at character %d instead of %d' % (said, at, t.i)
        if want[1] is None or t.errors:
            return None
        if kind == 'punctuator':
            got = self.tk.get(e.args[-1])
            return None if got == want[1] else '%r: taken for %s' % (said, got)
        if kind == 'string':
            adds = [x for x in p.events if x.name == 'vector_add']
            strs = [x for x in p.events if x.name == 'string_add']
            got = [self.val(x.args[1], env) for x in adds]
            order = [x.name for x in p.events if x.name in ('vector_add', 'string_add', 'vector_resize')]
            if got != want[1]:
                return '%r: its characters are %s' % (said, got)
            if len(strs) != 1 or e.args[-1] != strs[0].res or order[-2:] != ['string_add', 'vector_resize'] or \
                    [x for x in p.events if x.name == 'vector_resize'][-1].args[1] != 0 or strs[0].args[1] != adds[0].args[0] if adds else False:
                return '%r: the string is not kept' % said
            return None
        if kind == 'char':
            got = self.val(e.args[-1], env)
            return None if got == want[1] else '%r: its value is %s' % (said, got)
        got = self.val(e.args[-1], env)
        if got is None:
            return '%r: its value is not known: %s' % (said, show(e.args[-1])[:150])
        if kind == 'int':
            return None if uns(got) == want[1] & ((1 << 64) - 1) and (want[0] == 'int' or want[1] < 1 << 64) else '%r: its value is %d' % (said, uns(got))
        w = float(want[1])
        return None if abs(got - w) <= 1e-9 * abs(w) else '%r: its value is %r' % (said, got)

    def val(self, t, env):
        try:
            return value(t, env)
        except Unknown:
            return None

    def errname(self, e):
        """The error is the argument behind the place it is reported at."""
        return self.err.get(e.args[4], '?') if len(e.args) > 4 else '?'


def check_literals(ctx):
    ctx.rule('comment', 'a comment ends at the first */ or at the end of the line, whatever it contains; an open one is reported')
    ctx.rule('string', 'neighbouring strings are one, with the characters between their quotes; an open one is reported')
    ctx.rule('escape', 'an escape sequence stands for its character, any other is reported')
    ctx.rule('char', 'a character literal has the value of its character; empty and open ones are reported')
    ctx.rule('base', 'the digits behind a base prefix count in that base; digits of another base are reported')
    ctx.rule('number', 'digits, fraction and exponent give the value of the number and its kind; an empty exponent is reported')
    ctx.rule('point', 'a point begins a number only in front of a digit')
    ctx.rule('long', 'numbers that do not fit an integer are floating and keep their value')
    ctx.rule('digits', 'the digit classes and digit values are those of the language')
    ctx.rule('token', 'a token gives back the kind and value it was made with')
    s = Scan(ctx)
    o = [ord(x) for x in '.;']
    semi = (ord(';'),)
    s.check('comment', ord('/'), [ord(x) for x in '/*;\n\r'] + [O, -1], 6)
    s.check('string', ord('"'), [ord(x) for x in '"\\ \n'] + [O, -1], 6)
    s.check('escape', ord('"'), [(ord('\\'),), [ord(x) for x in 'nt0"\'\\'] + [0x43d, 0x442, O, -1], (O, ord('"')), semi], 5)
    s.check('char', ord("'"), [ord(x) for x in "'\\nt0\"\n"] + [0x43d, 0x442, O, -1], 4)
    s.check('base', ord('0'), [[ord(x) for x in 'xXdDoObB.e'] + [D, O, -1], [D, H, ord('e'), 0x435] + o, [D, H, ord('E')] + o, [D, ord(';')], semi], 6)
    s.check('number', ord('7'), [D, ord('.'), ord('e'), ord('-'), ord('+'), ord(';')], 5)
    s.check('number', ord('1'), [(D,), (ord('.'), ord('E'), 0x435, 0x415), [D, ord('-'), ord('e')], [D, ord('e')], [D, ord('-'), ord(';')], semi], 7)
    s.check('point', ord('.'), [D, ord('.'), ord('e'), ord('-'), ord(';'), -1], 5)
    s.check('long', ord('7'), [[D, ord('e')], (ord('e'), ord('1'), ord('2')), [D, ord('1'), ord('2'), ord(';')], (ord(';'),)], 5, 50)
    for first in '17':
        s.check('long', ord(first), [[D, ord(';')]] * 20 + [[D, ord('.'), ord('e')], [D, ord('.'), ord('e'), ord(';')], [D, ord(';')], semi], 25, 90)
    for b, cs, n in (('x', [H], 18), ('o', [D], 26), ('b', [D], 70), ('d', [D], 24)):
        s.check('long', ord('0'), [(ord(b),), (ord('1') if b == 'o' else ord('1') if b == 'b' else ord('f') if b == 'x' else ord('9'),)] +
                [([ord('7')] if b == 'o' else [ord('1')] if b == 'b' else cs) + [ord(';')]] * n + [semi], n + 4, 90)


    check_digits(ctx)
    check_tokens(ctx, s)


def check_digits(ctx):
    """The character predicates, tabulated over the basic and Cyrillic letters; nothing beyond them counts."""
    want = {'utf8_is_digit': lambda c: '0' <= c <= '9', 'utf8_is_hexa_digit': lambda c: c in '0123456789abcdefABCDEF',
            'utf8_is_power': lambda c: c in 'eE\u0435\u0415', 'utf8_to_number': lambda c: int(c, 16) if c in '0123456789abcdefABCDEF' else None}
    for name, w in want.items():
        fn = ctx.prog.need(name)
        for c in range(1, 0x500):
            v = w(chr(c))
            if v is None:
                continue
            got = ctx.returns(fn, {0: c})
            ctx.ob('digits', '%s(%#x)' % (name, c), got == {int(v)}, 'libs/utils/utf8.c (%s)' % name, 'U+%04X gives %s' % (c, got))
        if name != 'utf8_to_number':
            for p in ctx.paths(fn, Policy()):
                if p.kind != 'ret' or p.ret == 0:
                    continue
                top = max([uns(x, 32) for x in consts(p.state.facts.log)] + [0])
                ctx.ob('digits', '%s beyond' % name, top < 0x500, 'libs/utils/utf8.c (%s)' % name, 'it also holds at U+%04X' % top)


def consts(x):
    if is_c(x):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from consts(y)


def check_tokens(ctx, s):
    P = ctx.prog
    k = {v: n for n, v in s.tk.items()}
    made = {'token_identifier': ('TK_IDENTIFIER', 'token_get_ident_name'), 'token_char_literal': ('TK_CHAR_LITERAL', 'token_get_char_value'),
            'token_int_literal': ('TK_INT_LITERAL', 'token_get_int_value'), 'token_float_literal': ('TK_FLOAT_LITERAL', 'token_get_float_value'),
            'token_string_literal': ('TK_STRING_LITERAL', 'token_get_string_num'), 'token_keyword': (None, None), 'token_punctuator': (None, None),
            'token_eof': ('TK_EOF', None)}
    for name, (kind, getter) in made.items():
        f = P.need(name)
        for p in ctx.paths(f, Policy()):
            if p.kind != 'ret':
                continue
            val = ('arg', f.nparams - 1)

            def read(g, *more):
                fn = P.need(g)
                args = {0: ('arg', 0)}
                args.update({i + 1: x for i, x in enumerate(more)})
                return [q.ret for q in ctx.paths(fn, Policy(), args=args, mem=p.state.mem) if q.kind == 'ret']
            w = k[kind] if kind else val
            got = read('token_get_kind')
            ctx.ob('token', name + ' kind', got == [w], 'libs/compiler/token.c', 'the kind reads back as %s' % [show(x) for x in got])
            if kind:
                for q in (kind, 'TK_SEMICOLON'):
                    for g, t in (('token_is', q == kind), ('token_is_not', q != kind)):
                        got = read(g, k[q])
                        ctx.ob('token', '%s %s %s' % (name, g, q), got == [int(t)], 'libs/compiler/token.c', '%s gives %s' % (g, got))
            if getter:
                got = read(getter)
                ctx.ob('token', name + ' value', got == [val], 'libs/compiler/token.c', 'the value reads back as %s' % [show(x) for x in got])
            if f.nparams > 1:
                got = read('token_get_location')
                ctx.ob('token', name + ' place', got == [('agg', (('arg', 1), ('arg', 2)))], 'libs/compiler/token.c', 'the place reads back as %s' % [show(x) for x in got])

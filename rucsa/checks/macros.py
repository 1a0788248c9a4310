"""P04 macros: definitions, calls, arguments, text copied unchanged."""
from ..absint import Policy, is_c, show, split
from ..program import AnalysisError
from .direct import FILE, KW, OUT, POS, REAL, case, missing
from ..absint import read_wide as _rw

NEXT, CLS, STR, INB = (('next',), 0, ()), (('cls',), 0, ()), (('strs',), 0, ()), (('inb',), 0, ())
EOF, NL = -1, 10
L, O = 'letter', 'other'
MAXI = -1


def read_wide(it, st, p, w):
    s = _rw(it, st, p, w)
    return s.decode('utf-8', 'replace') if isinstance(s, bytes) else s


class TextPol(Policy):
    """The text is a sequence of character classes, chosen as it is read; output buffers collect what is printed."""
    max_states = 60000
    cut_after = 30
    chars = 4
    calls = frozenset()         # functions that are events with split results: name -> values
    classes = (10, EOF, L, O)
    results = {}
    script = ()                 # the characters the text starts with
    inline_mods = ()

    def __init__(self, k, classes=None, chars=None, calls=(), results=None, gaps=True):
        self.k = k
        self.calls = frozenset(calls)
        self.results = results or {}
        self.classes = classes or self.classes
        self.chars = chars or self.chars
        self.gaps = gaps
        self.prs = ('arg', 0)
        c = lambda o: (self.prs, o, ())
        self.iocell = c(k.io)
        self.stable = frozenset([OUT, POS, NEXT, CLS, STR, INB] + [c(o) for o in (k.io, k.stg, k.loc, k.prev, k.inc, k.call)] +
                                [c(o) for o in k.flags.values()])

    def cut_back(self, fn):
        return 'always'

    def rec_event(self, name):
        return True

    # --- output ---
    def outof(self, st, io):
        for a, v in st.mem[OUT][0]:
            if a == io:
                return v
        return ('of', io)

    def setout(self, st, io, v):
        st.mem[OUT] = (tuple((a, w) for a, w in st.mem[OUT][0] if a != io) + ((io, v),), 8)

    def put(self, st, io, pieces):
        o = self.outof(st, io)
        if o is None:
            return
        self.setout(st, io, o + tuple(pieces))

    def text(self, it, st, p):
        """A string argument as pieces."""
        if isinstance(p, tuple) and p[0] == 'text':
            return p[1]
        for a, v in st.mem[STR][0]:
            if a == p:
                return v
        try:
            s = read_wide(it, st, p, 8)
        except Exception:
            s = None
        if s is not None:
            return (s,) if s else ()
        return (p,)

    def fmt(self, it, st, f, args):
        s = read_wide(it, st, f, 8)
        if s is None:
            return (('printf', f),)
        out, i, n = [], 0, 0
        lit = ''
        while i < len(s):
            if s[i] == '%':
                if s[i + 1] == '%':
                    lit += '%'
                    i += 2
                    continue
                j = i + 1
                while s[j] not in 'diuxcsp':
                    j += 1
                if lit:
                    out.append(lit)
                    lit = ''
                a = args[n]
                n += 1
                if s[j] == 's':
                    out.extend(self.text(it, st, a))
                else:
                    out.append(str(a) if is_c(a) else ('num', a))
                i = j + 1
            else:
                lit += s[i]
                i += 1
        if lit:
            out.append(lit)
        return tuple(out)

    # --- calls ---
    def decide(self, it, st, name, args, fn):
        m = st.mem
        if name == 'out_swap':
            if args[0] != 0 and args[1] != 0:
                a, b = self.outof(st, args[0]), self.outof(st, args[1])
                self.setout(st, args[0], b)
                self.setout(st, args[1], a)
            return ('value', 0)
        if name == 'io_create':
            self.setout(st, args[0], None)
            return 'opaque'
        if name == 'out_set_buffer':
            self.setout(st, args[0], ('#',))
            return ('value', 0)
        if name == 'out_clear':
            self.setout(st, args[0], None)
            return ('value', 0)
        if name == 'out_extract_buffer':
            v = self.outof(st, args[0])
            self.setout(st, args[0], None)
            if v is None:
                return ('value', 0)
            t = ('text', v[1:])
            st.facts.ne[t] = frozenset([0])
            return ('value', t)
        if name == 'out_is_correct':
            return ('value', 1 if self.outof(st, args[0]) is not None else 0)
        if name in ('in_is_file', 'in_is_correct', 'parser_is_correct'):
            return ('value', 1) if name != 'in_is_file' else 'opaque'
        if name == 'in_set_buffer':
            m[INB] = (tuple((a, w) for a, w in m[INB][0] if a != args[0]) + ((args[0], args[1]),), 8)
            return ('value', 0)
        if name == 'in_clear':
            return ('value', 0)
        if name == 'in_get_position':
            return ('value', m[POS][0])
        if name == 'in_set_position':
            m[POS] = (args[1], 8)
            m[NEXT] = (None, 8)
            return ('value', 0)
        if name == 'utf8_is_letter' and args:
            c = self.cls(st, args[0])
            if c is not None:
                return ('value', 1 if c == L else 0)
        if name in ('uni_print_char', 'uni_printf'):
            if name == 'uni_print_char':
                p = (args[1] if not is_c(args[1]) else chr(args[1]),)
            else:
                p = self.fmt(it, st, args[1], args[2:])
            self.put(st, args[0], p)
            return ('value', 1)
        if name == 'sprintf':
            m[STR] = (tuple((a, w) for a, w in m[STR][0] if a != args[0]) + ((args[0], self.fmt(it, st, args[1], args[2:])),), 8)
            return ('value', 1)
        if name == 'uni_unscan_char':
            m[NEXT] = (args[1], 8)
            m[POS] = (self.back(m[POS][0]), 8)
            return ('value', 0)
        if name == 'uni_scan_char' and m[NEXT][0] is not None:
            v = m[NEXT][0]
            m[NEXT] = (None, 8)
            m[POS] = (self.ahead(m[POS][0]), 8)
            return ('value', v)
        if name in ('uni_scan_char', 'skip_until', 'skip_lines'):
            if name != 'uni_scan_char' and m[NEXT][0] is not None and name not in self.calls:
                c = m[NEXT][0]
                if not (is_c(c) and c in (32, 9)):
                    return ('value', c)
            if sum(1 for e in st.events if e.name in ('uni_scan_char', 'skip_until', 'skip_lines')) >= self.chars:
                return 'cut'
            return 'event'
        if name in self.calls or name in ('parser_error', 'parser_warning'):
            return 'event'
        if name == 'kw_is_correct':
            v = args[0]
            while isinstance(v, tuple) and v[0] == 'cast':
                v = v[4]
            v = st.facts.eq.get(v, v)
            if is_c(v) or v in st.facts.ne:
                return ('value', 1 if v in self.k.n and v not in (self.k.non, self.k.err) else 0)
        if fn is None or fn.mod is not self.k.mod or name in ('parse_location', 'skip_directive', 'loc_copy'):
            return 'opaque'
        return 'inline'

    def ahead(self, p, n=1):
        return p + n if is_c(p) else p

    def back(self, p):
        return p - 1 if is_c(p) else p

    def cls(self, st, v):
        v = st.facts.eq.get(v, v)
        if is_c(v):
            return L if 0 < v < 0x110000 and chr(v).isalpha() or v == 95 else O
        for t, c in st.mem[CLS][0]:
            if t == v:
                return c

    def capture(self, it, st, name, args):
        return dict(out=self.outof(st, st.mem[self.iocell][0]), pos=st.mem[POS][0], io=st.mem[self.iocell][0], stg=st.mem.get((self.prs, self.k.stg, ())),
                    call=st.mem.get((self.prs, self.k.call, ())), inb=st.mem[INB][0], txt=tuple(self.text(it, st, a) for a in args))

    def effect(self, it, st, name, args, t):
        m = st.mem
        k = self.k
        if name in ('uni_scan_char', 'skip_until', 'skip_lines'):
            peek = name != 'uni_scan_char'
            alts = []
            n = sum(1 for e in st.events if e.name in ('uni_scan_char', 'skip_until', 'skip_lines')) - 1
            for c in (self.script[n:n + 1] or self.classes):
                for gap in ((0, 1) if peek and self.gaps else (0,)):
                    alts.append((c, gap))

            def app(s, a):
                c, gap = a
                e = s.events[-1]
                import copy
                e2 = copy.copy(e)
                e2.cap = dict(e.cap, cls=c, gap=gap)
                s.events = list(s.events[:-1]) + [e2]
                if c in (L, O):
                    s.mem[CLS] = (s.mem[CLS][0] + ((t, c),), 8)
                    s.facts.eq.pop(t, None)
                    s.facts.ne[t] = frozenset([x for x in self.classes if x not in (L, O)] + [0, 13, 32, 9, 10, -1] + [ord(x) for x in '\\,()"#' + "'"])
                else:
                    s.facts.eq[t] = c
                if gap:
                    s.mem[POS] = (self.ahead(s.mem[POS][0], 2), 8)
                if peek:
                    s.mem[NEXT] = (t, 8)
                else:
                    s.mem[POS] = (self.ahead(s.mem[POS][0]), 8)
            first = st.copy()
            app(st, alts[0])
            out = []
            for a in alts[1:]:
                def f(s, a=a):
                    s.mem[CLS], s.mem[POS], s.mem[NEXT] = first.mem[CLS], first.mem[POS], first.mem[NEXT]
                    s.facts.ne.pop(t, None)
                    app(s, a)
                out.append(f)
            return out
        if name in ('storage_search', 'storage_add_by_io'):
            m[NEXT] = (None, 8)
            m[POS] = (self.ahead(m[POS][0]), 8)
        if name in ('skip_string',):
            m[NEXT] = (None, 8)
            self.put(st, m[self.iocell][0], (('string', t),))
        r = self.results.get(name)
        if r is None:
            return None
        vals = r(self, st, args) if callable(r) else r
        if name == 'parser_preprocess':
            return None

        def setv(s, v):
            s.facts.eq.pop(t, None)
            s.facts.ne.pop(t, None)
            if isinstance(v, tuple) and v[0] == 'not':
                s.facts.ne[t] = frozenset(v[1:])
            else:
                s.facts.eq[t] = v
        setv(st, vals[0])
        return [lambda s, v=v: setv(s, v) for v in vals[1:]]


def run(ctx, k, fname, pol, args=None, mem=(), io=('io',), out=REAL):
    fn = ctx.prog.need(fname, k.mod)
    m = {OUT: (((io, out),), 8), POS: (1000, 8), NEXT: (None, 8), CLS: ((), 8), STR: ((), 8), INB: ((), 8),
         (('arg', 0), k.io, ()): (io, 8), (('arg', 0), k.stg, ()): (('stg',), 8), (('arg', 0), k.loc, ()): (('loc',), 8)}
    m.update(mem)
    return [p for p in ctx.paths(fn, pol, mem=m, args=args or {}, nonnull=[0]) if p.kind in ('ret', 'cut')]


def content(p, io=('io',)):
    for a, v in p.state.mem[OUT][0]:
        if a == io:
            return v


def squash(ps):
    """Pieces with neighbouring literals joined."""
    out = []
    for x in ps:
        if isinstance(x, str):
            if out and isinstance(out[-1], str):
                out[-1] += x
                continue
        out.append(x)
    return tuple(out)


def errors(k, p):
    return [k.ef.get(e.args[2], e.args[2]) for e in p.events if e.name == 'parser_error']


def chars(p):
    """What has been read: (class, gap, term)."""
    return [(e.cap['cls'], e.cap['gap'], e.res) for e in p.events if e.name in ('uni_scan_char', 'skip_until', 'skip_lines')]


def shown(cs):
    return ''.join((' ' if g else '') + {10: '\\n', EOF: '<end>', L: 'x', O: '?'}.get(c, chr(c) if is_c(c) and 0 < c < 128 else '?') for c, g, _ in cs)


def res(p, t):
    """The value of a term with what the path knows of its parts."""
    t = case(p, t) if case(p, t) is not None else t
    if isinstance(t, tuple) and t[0] == 'cmp' and t[1] in ('eq', 'ne'):
        a, b = res(p, t[2]), res(p, t[3])
        if is_c(a) and is_c(b):
            return int((a == b) == (t[1] == 'eq'))
    if isinstance(t, tuple) and t[0] == 'cast':
        return res(p, t[4])
    return t


class Report:
    def __init__(self, ctx, rule, where):
        self.ctx, self.rule, self.where, self.seen = ctx, rule, where, {}

    def add(self, key, bad):
        self.seen[key] = self.seen.get(key) or bad

    def done(self, least=1):
        for key, bad in sorted(self.seen.items()):
            self.ctx.ob(self.rule, key, bad is None, self.where, (bad or '')[:300])
        self.ctx.need(len(self.seen) >= least, '%s: only %d cases of %s found' % (self.where, len(self.seen), self.rule))


def check_macros(ctx):
    ctx.rule('define', '#define and #macro give a name the value that follows, #set changes it, #undef removes it; a broken definition leaves none')
    ctx.rule('params', 'the parameters of a definition are the names between its brackets, in order')
    ctx.rule('value', 'the value of a macro is the text of its line with one blank for blanks, parameters and operators marked')
    ctx.rule('arguments', 'the arguments of a call are the texts between the commas outside brackets and strings')
    ctx.rule('call', 'a call is replaced by the value of its macro with the arguments put in; a wrong number of arguments is reported')
    ctx.rule('text', 'all other text, strings included, is copied unchanged; names that are no macros too')
    k = KW(ctx)
    check_until(ctx, k)
    check_string(ctx, k)
    check_identifier(ctx, k)
    check_replacement(ctx, k)
    check_brackets(ctx, k)
    check_params(ctx, k)
    check_content(ctx, k)
    check_values(ctx, k)
    check_observation(ctx, k)
    check_define(ctx, k)


CLOSED = {'skip_string': lambda pol, st, args: [st.facts.eq.get(args[1], args[1]), ('not', st.facts.eq.get(args[1], args[1]))]}


def check_until(ctx, k):
    pol = TextPol(k, classes=(10, EOF, ord('#'), ord('"'), ord("'"), L, O), chars=3, calls=('parse_identifier', 'skip_string'), gaps=False)
    r = Report(ctx, 'text', FILE + ' (parse_until)')
    for p in run(ctx, k, 'parse_until', pol):
        cs = chars(p)
        want = ()
        bad = None
        calls = [e for e in p.events if e.name in ('parse_identifier', 'skip_string')]
        i = 0
        for c, _, t in cs:
            if c == L:
                if i >= len(calls) or calls[i].name != 'parse_identifier':
                    bad = 'a name is not looked up'
                i += 1
            elif c in (ord('"'), ord("'")):
                if i >= len(calls) or calls[i].name != 'skip_string' or calls[i].args[1] != t:
                    bad = 'a string is not copied as such'
                    break
                want += (t, ('string', calls[i].res), calls[i].res)
                i += 1
            else:
                want += (t,)
        if bad is None and i != len(calls):
            bad = 'a name or string that is none'
        got = content(p)[1:]
        if cs and cs[-1][0] == EOF:
            want = want[:-1]
            got = tuple(x for x in got if x not in ('\n', cs[-1][2]))
        if p.kind == 'ret' and not (cs and cs[-1][0] in (10, EOF)) or any(c in (10, EOF) for c, _, _ in cs[:-1]):
            bad = bad or 'the line does not end where it ends'
        if bad is None and got != want:
            bad = 'copied as %s' % show(got)
        r.add(shown(cs), bad)
    r.done(20)


def check_string(ctx, k):
    q = ord('"')
    pol = TextPol(k, classes=(10, EOF, q, ord('\\'), O), chars=5)
    r = Report(ctx, 'text', FILE + ' (skip_string)')
    for p in run(ctx, k, 'skip_string', pol, args={1: q}):
        cs = chars(p)
        bad = None
        # the opening quote is read again for its place
        want, esc, end = (), False, None
        for n, (c, _, t) in enumerate(cs):
            if end is not None:
                bad = 'reading goes on behind the string'
                break
            if c == q and not esc:
                end = t
            elif c == EOF or c == 10 and not esc:
                end = 'error'
            else:
                want += (t,)
                esc = not esc and c == ord('\\')
        errs = errors(k, p)
        if bad is None and p.kind == 'ret':
            if end is None:
                bad = 'the string ends inside'
            elif end == 'error' and errs != ['STRING_UNTERMINATED']:
                bad = 'a string without an end is not reported'
            elif end != 'error' and (errs or p.ret != end):
                bad = 'a complete string is reported'
        got = content(p)[1:]
        if bad is None and got != want and not (p.kind == 'cut' and got == want[:len(got)]):
            bad = 'copied as %s' % show(got)
        r.add('"' + shown(cs), bad)
    r.done(20)


def check_identifier(ctx, k):
    pol = TextPol(k, classes=(10, EOF, O), chars=1, calls=('storage_search', 'parse_replacement'),
                  results={'storage_search': [MAXI, ('not', MAXI)], 'parse_replacement': [0, 1]})
    r = Report(ctx, 'call', FILE + ' (parse_identifier)')
    for depth in (0, 255, 256):
        for p in run(ctx, k, 'parse_identifier', pol, mem={(('arg', 0), k.call, ()): (depth, 8)}):
            s = [e for e in p.events if e.name == 'storage_search']
            rep = [e for e in p.events if e.name == 'parse_replacement']
            bad = None
            if len(s) != 1 or s[0].args[0] != ('stg',) or s[0].args[1] != ('io',):
                bad = 'the name is not looked up'
            else:
                miss = missing(p, s[0].res)
                out = content(p)[1:]
                last = [x for x in out if isinstance(x, tuple) and x[0] == 'call' and x[1] == 'storage_last_read']
                if miss:
                    if rep or errors(k, p) or len(last) != 1 or len(out) != 1:
                        bad = 'a name that is no macro is not copied: %s' % show(out)
                elif len(rep) != 1 or rep[0].args[1] != s[0].res or last:
                    bad = 'the call is not replaced'
                else:
                    a, b = rep[0].cap['call'], p.state.mem.get((('arg', 0), k.call, ()))
                    if p.kind == 'ret' and (a is None or b is None or a[0] != depth + 1 or b[0] != depth):
                        bad = 'the depth of calls is not kept'
            r.add('depth %d, %s' % (depth, 'no macro' if s and missing(p, s[0].res) else 'macro'), bad)
    r.done(4)


def check_replacement(ctx, k):
    par, kon = ord('('), ord(')')
    for args in (0, 1, 2):
        pol = TextPol(k, classes=(par, kon, EOF, O), chars=4, gaps=True, calls=('parse_brackets', 'parse_observation', 'parser_preprocess',
                      'storage_get_args_by_index', 'storage_get_by_index', 'storage_clear'),
                      results={'storage_get_args_by_index': [args], 'parse_brackets': [0, 1, 2, 3, MAXI]})
        r = Report(ctx, 'call', FILE + ' (parse_replacement)')
        for p in run(ctx, k, 'parse_replacement', pol):
            cs = chars(p)
            if p.kind != 'ret':
                continue
            ev = {n: [e for e in p.events if e.name == n] for n in pol.calls}
            errs = errors(k, p)
            pos = p.state.mem[POS][0]
            bad = None
            w = [c for c, _, _ in cs]
            g = ev['storage_get_args_by_index']
            if not g or g[0].args != (('stg',), ('arg', 1)):
                bad = 'the number of parameters is not that of the macro'
            elif args == 0:
                pp = ev['parser_preprocess']
                val = [e for e in ev['storage_get_by_index'] if e.args == (('stg',), ('arg', 1))]
                src = dict(pp[0].cap['inb']).get(pp[0].extra[1]) if len(pp) == 1 else None
                if len(pp) != 1 or not val or src != val[-1].res or errs or res(p, p.ret) != 1:
                    bad = 'the value is not put in its place'
                elif pp[0].cap['out'] != REAL or pp[0].cap['io'] != ('io',):
                    bad = 'the value goes elsewhere'
                elif w[:2] == [par, kon]:
                    n = 1000 + 2 + 2 * sum(gp for _, gp, _ in cs[:2])
                    if pos != n:
                        bad = 'the brackets are not consumed'
                elif pos != 1000:
                    bad = 'what follows the name is lost'
            else:
                br = ev['parse_brackets']
                ob = ev['parse_observation']
                if w[:1] != [par]:
                    if not errs or res(p, p.ret) != 0 or br or ob or pos != 1000:
                        bad = 'a call without arguments is not reported'
                elif len(br) != 1 or br[0].args[1] != ('arg', 1):
                    bad = 'the arguments are not read'
                else:
                    n = p.facts.eq.get(br[0].res)
                    if n == args:
                        if errs or len(ob) != 1 or ob[0].args[1] != ('arg', 1) or res(p, p.ret) != 1 or ob[0].extra[2] != br[0].extra[2]:
                            bad = 'the value is not put in its place'
                    elif ob or res(p, p.ret) != 0 or n != MAXI and n != -1 and not errs:
                        bad = '%s arguments for %d parameters are not reported' % (n, args)
            r.add('%d parameters, %s%s' % (args, shown(cs), ', %s arguments' % p.facts.eq.get(ev['parse_brackets'][0].res) if ev['parse_brackets'] else ''), bad)
        r.done(4)


def check_brackets(ctx, k):
    q = ord('"')
    pol = TextPol(k, classes=(ord(','), ord('('), ord(')'), q, ord("'"), EOF, O), chars=4, calls=('skip_string', 'parse_values'), results=CLOSED, gaps=False)
    pol2 = TextPol(k, classes=(ord(','), ord('('), ord(')'), O), chars=6, calls=('skip_string', 'parse_values'), results=CLOSED, gaps=False)
    pol3 = TextPol(k, classes=(ord(','), ord(')'), O), chars=4, calls=('skip_string', 'parse_values'), results=CLOSED, gaps=True)
    r = Report(ctx, 'arguments', FILE + ' (parse_brackets)')
    for pl in (pol, pol2, pol3):
        for p in run(ctx, k, 'parse_brackets', pl, mem={NEXT: (40, 8)}):
            cs = [(e.cap['cls'], e.cap['gap'], e.res) for e in p.events if e.name in ('skip_lines', 'skip_until', 'uni_scan_char')]
            strs = [e for e in p.events if e.name == 'skip_string']
            vals, cur, depth, bad, broken, end, first = [], (), 0, None, False, False, True
            si = 0
            for c, gap, t in cs:
                if end:
                    bad = 'reading goes on behind the call'
                    break
                if c == EOF:
                    broken = end = True
                elif depth == 0 and c in (ord(','), ord(')')):
                    if not broken:
                        vals.append(cur)
                    cur, first = (), True
                    end = c == ord(')')
                else:
                    if gap and not first:
                        cur += (' ',)
                    cur += (t,)
                    if c in (q, ord("'")):
                        if si >= len(strs) or strs[si].args[1] != t:
                            bad = bad or 'a string is not copied as such'
                            break
                        cur += (('string', strs[si].res), t)
                        if p.facts.eq.get(strs[si].res) != c:
                            broken = True
                        si += 1
                    depth += 1 if c == ord('(') else -1 if c == ord(')') else 0
                    first = False
            got = [e for e in p.events if e.name == 'parse_values']
            if bad is None:
                for n, e in enumerate(got):
                    if n >= len(vals) or e.args[1] != ('arg', 1) or e.args[2] != ('arg', 2) or e.args[4] != n:
                        bad = 'argument %d is not one' % n
                    elif e.extra[3] != ('text', vals[n]) :
                        bad = 'argument %d is %s' % (n, show(e.extra[3]))
                if bad is None and p.kind == 'ret' and not broken and (len(got) != len(vals) or p.ret != len(vals)):
                    bad = '%d arguments instead of %d' % (len(got), len(vals))
                if bad is None and p.kind == 'ret' and not end:
                    bad = 'the call ends too early'
                if bad is None and p.kind == 'ret' and broken and case(p, p.ret) not in (MAXI, -1):
                    bad = 'a call without an end is accepted'
                if bad is None and p.kind == 'ret' and content(p) != REAL:
                    bad = 'the output is not given back'
            r.add('(' + shown(cs) + (' broken string' if broken and si else ''), bad)
    r.done(100)


def check_params(ctx, k):
    par = ord('(')
    pol = TextPol(k, classes=(par, ord(')'), ord(','), 10, EOF, L, O), chars=6, calls=('storage_add_by_io', 'storage_set_by_index'),
                  results={'storage_add_by_io': [MAXI, ('not', MAXI)]}, gaps=False)
    pol2 = TextPol(k, classes=(par, ord(')'), O), chars=3, gaps=True)
    # a list as long as is written: its ninth parameter and what follows
    pol3 = TextPol(k, classes=(par, ord(')'), ord(','), EOF, L, O), chars=21, calls=('storage_add_by_io', 'storage_set_by_index'),
                   results={'storage_add_by_io': [MAXI, ('not', MAXI)]}, gaps=False)
    pol3.script = (par,) + (L, ord(',')) * 9
    r = Report(ctx, 'params', FILE + ' (parse_args)')
    for pl in (pol, pol2, pol3):
        for p in run(ctx, k, 'parse_args', pl):
            cs = chars(p)
            adds = [e for e in p.events if e.name == 'storage_add_by_io']
            sets = [e for e in p.events if e.name == 'storage_set_by_index']
            bad, n, err, end, state = None, 0, False, None, 'open'
            for c, gap, t in cs:
                if err or end is not None:
                    bad = 'reading goes on'
                    break
                if state == 'open':
                    if c != par or gap:
                        end = 0
                    state = 'name'
                elif state == 'name' and c == L:
                    if n >= len(adds) or adds[n].args[0] != ('arg', 1):
                        bad = 'the parameter is not kept'
                        break
                    if missing(p, adds[n].res):
                        err = True
                    elif n < len(sets):
                        e = sets[n]
                        if e.args[0] != ('arg', 1) or e.args[1] != adds[n].res or squash(e.cap['txt'][2]) != squash((('num', ('arg', 2)), '_', str(n))):
                            bad = 'parameter %d is kept as %s' % (n, show(e.cap['txt'][2]))
                    elif p.kind == 'ret':
                        bad = 'the parameter is not kept'
                    n += 1
                    state = 'sep'
                elif c == ord(')') and (state == 'sep' or n == 0):
                    end = n
                elif c == ord(')'):
                    end = n     # a comma before the bracket is let pass
                elif state == 'sep' and c == ord(','):
                    state = 'name'
                else:
                    err = True
            if bad is None and p.kind == 'ret':
                if err and (not errors(k, p) or case(p, p.ret) not in (MAXI, -1)):
                    bad = 'a broken list of parameters is not reported'
                elif not err and (end is None or errors(k, p) or p.ret != end):
                    bad = 'gives %s parameters' % show(p.ret)
                elif not err and len(sets) != n:
                    bad = '%d parameters are kept' % len(sets)
            r.add(shown(cs) + (' twice' if adds and missing(p, adds[-1].res) else ''), bad)
    r.done(40)


def check_content(ctx, k):
    q, h = ord('"'), ord('#')
    calls = ('storage_search', 'storage_get_by_index', 'skip_string', 'parse_expression', 'storage_get_index')
    res = dict(CLOSED, storage_get_by_index=[0, ('not', 0)], storage_get_index=[k.v['EVAL'], ('not', k.v['EVAL'])])
    pols = [TextPol(k, classes=(10, q, ord("'"), h, L, O), chars=4, calls=calls, results=res, gaps=False),
            TextPol(k, classes=(10, EOF, h, L, O), chars=3, calls=calls, results=res, gaps=True)]
    r = Report(ctx, 'value', FILE + ' (parse_content)')
    for pl in pols:
        for p in run(ctx, k, 'parse_content', pl):
            bad = value_of(k, p)
            ev = ''.join({'storage_get_by_index': 'p' if case(p, e.res) != 0 else '-', 'skip_string': 's'}.get(e.name, '') for e in p.events)
            r.add(shown(chars(p)) + ' ' + ev, bad)
    r.done(60)


def is_last(x, stg):
    return isinstance(x, tuple) and x[0] == 'call' and x[1] == 'storage_last_read' and x[2][0] == stg


def value_of(k, p):
    """The path of reading the value of a macro, against what the value is."""
    ev = list(p.events)
    i = [0]
    want = ()

    def nxt(*names):
        while i[0] < len(ev):
            e = ev[i[0]]
            i[0] += 1
            if e.name in ('parser_error', 'parser_warning') and e.name not in names:
                continue
            return e
        return None

    def param():
        e = nxt()
        if e is None:
            return None, None
        if e.name != 'storage_search' or e.args[0] != ('arg', 1):
            return e, 'the name is not looked up among the parameters'
        g = nxt()
        if g is None:
            return None, None
        if g.name != 'storage_get_by_index' or g.args != (('arg', 1), e.res):
            return g, 'the name is not looked up among the parameters'
        return g, None
    first = True
    err = False
    ended = False
    while True:
        e = nxt()
        if e is None:
            break
        if e.name not in ('skip_until', 'uni_scan_char'):
            return '%s is called' % e.name
        c, gap = e.cap['cls'], e.cap['gap']
        if c in (10, EOF):
            ended = True
            break
        sp = (' ',) if gap and not first else ()
        first = False
        if c == L:
            g, b = param()
            if b or g is None:
                return b
            want += sp + (('?last',) if case(p, g.res) == 0 else ('__ARG_', g.res))
        elif c in (ord('"'), ord("'")):
            s = nxt()
            if s is None:
                break
            if s.name != 'skip_string' or s.args[1] != e.res:
                return 'a string is not copied as such'
            if case(p, s.res) != c:
                err = True
                break
            want += sp + (e.res, ('string', s.res), e.res)
        elif c == ord('#'):
            e2 = nxt()
            if e2 is None:
                break
            if e2.name != 'uni_scan_char':
                return 'the operator is not read'
            if e2.cap['cls'] == ord('#'):
                e3 = nxt()
                if e3 is None:
                    break
                if e3.name != 'skip_until':
                    return 'blanks behind ## are not skipped'
                if e3.cap['cls'] in (10, EOF):
                    err = True
                    break
                g, b = param()
                if b or g is None:
                    return b
                if case(p, g.res) == 0:
                    err = True
                    break
                want += ('#__TKP_', g.res)
            else:
                g, b = param()
                if b or g is None:
                    return b
                if case(p, g.res) != 0:
                    want += sp + ('__STR_', g.res)
                else:
                    x = nxt()
                    if x is None:
                        break
                    if x.name != 'storage_get_index':
                        return '# before a name that is no parameter'
                    if case(p, x.res) != k.v['EVAL']:
                        err = True
                        break
                    v = nxt()
                    if v is None:
                        break
                    if v.name != 'parse_expression':
                        return 'the expression of #eval is not evaluated'
                    want += sp + (('num', v.res),)
        else:
            want += sp + (e.res,)
    if p.kind != 'ret':
        return None
    if content(p) != REAL:
        return 'the output is not given back'
    errs = errors(k, p)
    if err:
        return None if case(p, p.ret) == 0 and (errs or any(e.name == 'skip_string' for e in ev)) else 'a broken value is accepted'
    if not ended:
        return 'the value ends too early'
    if errs:
        return 'a correct value is reported: %s' % errs
    got = p.ret[1] if isinstance(p.ret, tuple) and p.ret[0] == 'text' else None
    if got is None:
        return 'no value'
    got, want = squash(tuple('?last' if is_last(x, ('arg', 1)) else x for x in got)), squash(want)
    return None if got == want else 'is %s, not %s' % (show(got), show(want))


def check_values(ctx, k):
    q, b = ord('"'), ord('\\')
    pol = TextPol(k, classes=(EOF, q, b, O), chars=4, calls=('parser_preprocess', 'storage_add', 'storage_set_by_index'), gaps=False)
    r = Report(ctx, 'call', FILE + ' (parse_values)')
    for p in run(ctx, k, 'parse_values', pol, args={3: ('value',)}):
        if p.kind != 'ret':
            continue
        cs = chars(p)
        bad = None
        keys = {}
        for e in p.events:
            if e.name == 'storage_add':
                keys[e.res] = squash(e.cap['txt'][1])
        val = {}
        for e in p.events:
            if e.name == 'storage_set_by_index':
                if e.args[0] != ('arg', 2) or e.args[1] not in keys:
                    bad = 'a value is put elsewhere'
                else:
                    val[keys[e.args[1]]] = e.extra[2] if len(e.extra) > 2 else e.args[2]
        ident = lambda pre: squash((pre, ('num', ('arg', 1)), '_', ('num', ('arg', 4))))
        pp = [e for e in p.events if e.name == 'parser_preprocess']
        if bad is None:
            if val.get(ident('#__TKP_')) != ('value',):
                bad = 'pasting uses %s' % show(val.get(ident('#__TKP_')))
            elif len(pp) != 1 or dict(pp[0].cap['inb']).get(pp[0].extra[1]) != ('value',):
                bad = 'the argument is not preprocessed'
            elif pp[0].cap['out'] != ('#',) or val.get(ident('__ARG_')) is None or val[ident('__ARG_')] != ('text', ()):
                bad = 'a parameter stands for %s' % show(val.get(ident('__ARG_')))
            else:
                s = val.get(ident('__STR_'))
                if not (isinstance(s, tuple) and s[0] == 'text'):
                    bad = 'no string is made'
                else:
                    bad = quoted(s[1], cs)
        r.add('the argument ' + shown(cs), bad)
    r.done(8)


def quoted(s, cs):
    """The string made of the argument: in quotes, with every quote inside escaped, and every other character kept."""
    if not s or not isinstance(s[0], str) or s[0][0] != '"' or not isinstance(s[-1], str) or s[-1][-1] != '"':
        return 'is not put in quotes'
    flat = []
    for x in s:
        flat.extend(x if isinstance(x, str) else [x])
    flat = flat[1:-1]
    byterm = {t: c for c, _, t in cs}
    esc = False
    out = []
    for x in flat:
        c = x if isinstance(x, str) else {ord('"'): '"', ord('\\'): '\\'}.get(byterm.get(x))
        if c == '"' and not esc:
            return 'a quote inside ends the string: %s' % show(tuple(flat))
        esc = not esc and c == '\\'
        if not isinstance(x, str):
            out.append(x)
    kept = [t for c, _, t in cs if c not in (EOF, ord('\\'))]
    if [t for t in out if byterm.get(t) not in (ord('\\'), EOF)] != kept:
        return 'characters are lost or added'
    if esc:
        return 'a backslash escapes the closing quote'
    return None


def check_observation(ctx, k):
    q, h = ord('"'), ord('#')
    pol = TextPol(k, classes=(EOF, q, ord("'"), h, L, O), chars=3, gaps=False, calls=('parser_preprocess', 'storage_search', 'storage_get_by_index', 'skip_string'),
                  results=dict(CLOSED, storage_search=[k.v['DEFINE'], MAXI, ('not', MAXI, *k.v.values())],
                               storage_get_by_index=lambda pol, st, args: [('not', 0)] if args[0] == ('stg',) else [0, ('not', 0)]))
    r = Report(ctx, 'call', FILE + ' (parse_observation)')
    for p in run(ctx, k, 'parse_observation', pol):
        if p.kind != 'ret':
            continue
        ev = p.events
        bad = None
        g = [e for e in ev if e.name == 'storage_get_by_index' and e.args == (('stg',), ('arg', 1))]
        pp = [e for e in ev if e.name == 'parser_preprocess']
        if not g or len(pp) != 1:
            bad = 'the value is not put in its place'
        else:
            want = ()
            i = 0
            rest = [e for e in ev if e not in g and e not in pp]
            while i < len(rest):
                e = rest[i]
                i += 1
                if e.name != 'skip_until':
                    bad = '%s is called' % e.name
                    break
                if e.cap['io'] == ('io',) or dict(e.cap['inb']).get(e.cap['io']) != g[0].res:
                    bad = 'something else than the value of the macro is read'
                    break
                c = e.cap['cls']
                if c == EOF:
                    break
                if c in (L, h):
                    s = rest[i] if i < len(rest) else None
                    if s is None or s.name != 'storage_search' or s.args[0] != ('arg', 2):
                        bad = 'the parameter is not looked up among the arguments'
                        break
                    i += 1
                    v = None
                    while i < len(rest) and rest[i].name == 'storage_get_by_index':
                        if rest[i].args == (('arg', 2), s.res):
                            v = rest[i]
                        i += 1
                    x = case(p, s.res)
                    if x is not None:
                        want += ('?last',)
                    elif v is None:
                        bad = 'the argument is not put in'
                        break
                    elif case(p, v.res) != 0:
                        want += (v.res,)
                elif c in (q, ord("'")):
                    s = rest[i] if i < len(rest) else None
                    if s is None or s.name != 'skip_string' or s.args[1] != e.res:
                        bad = 'a string is not copied as such'
                        break
                    i += 1
                    want += (e.res, ('string', s.res), s.res)
                else:
                    want += (e.res,)
            if bad is None:
                src = dict(pp[0].cap['inb']).get(pp[0].extra[1])
                got = src[1] if isinstance(src, tuple) and src[0] == 'text' else None
                got = got and tuple('?last' if is_last(x, ('arg', 2)) else x for x in got)
                if (got or ()) != want:
                    bad = 'is replaced by %s' % show(got)
                elif pp[0].cap['out'] != REAL or pp[0].cap['io'] != ('io',):
                    bad = 'the replacement goes elsewhere'
        if bad is None and p.state.mem[(('arg', 0), k.io, ())][0] != ('io',):
            bad = 'reading does not go on behind the call'
        r.add('a value ' + shown(chars(p)), bad)
    r.done(10)


def check_define(ctx, k):
    calls = ('parse_directive', 'parse_name', 'storage_add_by_io', 'storage_search', 'parse_args', 'parse_content', 'storage_set_args_by_index',
             'storage_set_by_index', 'storage_remove_by_index', 'skip_block', 'parse_extra', 'skip_directive')
    for kw in ('DEFINE', 'SET', 'UNDEF', 'MACRO'):
        res = {'parse_directive': [k.v[kw]], 'parse_name': [0, 1], 'storage_add_by_io': [MAXI, ('not', MAXI)], 'storage_search': [MAXI, ('not', MAXI)],
               'parse_args': [0, 2, MAXI], 'parse_content': [0, ('not', 0)], 'skip_block': [k.v['ENDM'], k.non]}
        pol = DefPol(k, classes=(ord('#'), O), chars=4, calls=calls, results=res, gaps=False)
        r = Report(ctx, 'define', FILE + ' (parse_block)')
        for p in run(ctx, k, 'parse_block', pol, args={1: k.non}):
            if p.kind == 'cut' and not (isinstance(p.ret, tuple) and p.ret[:2] == ('at', 'parse_directive')):
                continue
            bad, key = definition(k, p, kw)
            if key is not None:
                r.add('#%s: %s' % (kw.lower(), key), bad)
        r.done(2 if kw == 'UNDEF' else 6)


class DefPol(TextPol):
    def decide(self, it, st, name, args, fn):
        if name == 'parse_directive' and any(e.name == name for e in st.events):
            return 'cut'
        if name == 'skip_directive':
            return 'event'
        return TextPol.decide(self, it, st, name, args, fn)


def definition(k, p, kw):
    ev = [e for e in p.events if e.name.startswith(('storage_', 'parse_', 'skip_block')) and e.name not in ('parse_extra', 'parse_directive')]
    name = {e.name: e for e in ev}
    ok = case(p, name['parse_name'].res) if 'parse_name' in name else None
    eff = [e for e in ev if e.name in ('storage_set_by_index', 'storage_set_args_by_index', 'storage_remove_by_index')]
    if ok is None:
        return 'the name is not checked', 'name'
    add, look = name.get('storage_add_by_io'), name.get('storage_search')
    if not ok:
        bad = [e for e in eff if not (e.name == 'storage_remove_by_index' and case(p, e.args[1]) in (MAXI, -1))]
        return ('something is defined without a name' if bad or add else None), 'no name'
    stg = [e for e in (add, look) if e is not None and e.args[0] != ('stg',)]
    if stg:
        return 'another table is used', 'table'
    if kw == 'UNDEF':
        if add or look is None or len(eff) != 1 or eff[0].name != 'storage_remove_by_index' or eff[0].args != (('stg',), look.res):
            return 'the name is not removed', 'name'
        return None, 'name'
    one, two = (add, look) if kw != 'SET' else (look, add)
    if one is None:
        return 'the name is not entered', 'name'
    idx = one.res
    key = 'new' if kw != 'SET' else 'defined'
    if missing(p, one.res):
        key = 'redefined' if kw != 'SET' else 'not defined'
        if two is None or ev.index(two) < ev.index(one):
            return 'the name is not found', key
        idx = two.res
        if missing(p, idx):
            return None, None
    elif two is not None:
        return 'the name is entered or looked up twice', key
    a = name.get('parse_args')
    if a is None or a.args[2] != idx:
        return 'the parameters are not read', key
    n = case(p, a.res)
    if n in (MAXI, -1):
        fails = True
        key += ', broken parameters'
    else:
        key += ', %s parameters' % n
        fails = None
    errs = errors(k, p)
    if kw == 'MACRO':
        sb = name.get('skip_block')
        if sb is None or case(p, sb.args[1]) != k.v['MACRO']:
            return 'the lines of the macro are not read', key
        key += ', ' + ('complete' if case(p, sb.res) == k.v['ENDM'] else 'no end')
        if case(p, sb.res) != k.v['ENDM'] and not errs:
            return 'a macro without an end is not reported', key
        if sb.cap['out'] != (None if fails else ('#',)):
            return 'the lines of the macro go elsewhere', key
        val = ('text', ())
        if case(p, sb.res) != k.v['ENDM']:
            return None, key
    else:
        c = name.get('parse_content')
        if fails is None and c is None:
            # ## at the beginning
            if not errs:
                return 'the value is not read', key
            fails = True
            key += ', ## first'
        elif fails is None:
            val = c.res
            if case(p, c.res) == 0:
                fails = True
                key += ', broken value'
    for e in eff:
        if e.args[0] != ('stg',):
            return 'another table is changed', key
    if fails:
        if not any(e.name == 'storage_remove_by_index' and e.args[1] == idx for e in eff) or any(e.name == 'storage_set_by_index' for e in eff):
            return 'a broken definition leaves a macro', key
        return None, key
    s = [e for e in eff if e.name == 'storage_set_by_index']
    g = [e for e in eff if e.name == 'storage_set_args_by_index']
    if len(s) != 1 or s[0].args[1] != idx or s[0].extra[2] != val:
        return 'the value is not what the macro stands for: %s' % (show(s[0].extra) if s else 'none'), key
    if len(g) != 1 or g[0].args[1] != idx or case(p, g[0].args[2]) != n:
        return 'the number of parameters is not kept', key
    if any(e.name == 'storage_remove_by_index' for e in eff):
        return 'the macro is removed', key
    return None, key

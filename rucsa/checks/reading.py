"""P03 the preprocessor ends: loops consume text, recursion is bounded by depth counters or consumed text."""
from ..absint import Policy, is_c, split
from ..program import AnalysisError
from .progress import callees, close, readers

FILE = 'libs/macro/parser.c'
POS, OWN = (('read',), 0, ()), (('own',), 0, ())
ZERO = {POS: (0, 8), OWN: (0, 8)}
CALL, INC = (('depth', 'call'), 0, ()), (('depth', 'include'), 0, ())
EOF = -1
END = 1 << 40
SAY = {'parser_error', 'parser_warning'}


class EndPol(Policy):
    """Every text is at its end: reading gives EOF, putting EOF back changes nothing, the position is that of the end."""
    unroll = 40
    unroll_forked = 2
    record_back = True
    cut_after = 2
    max_states = 30000
    max_depth = 14

    def __init__(self, fn, ends):
        self.fn, self.ends = fn, ends

    def cut_back(self, fn):
        return 'always' if fn is self.fn else False

    def rec_event(self, name):
        return False

    def midway(self, ins):
        return END if ins.op == 'call' and ins.x == 'in_get_position' else None

    def decide(self, it, st, name, args, fn):
        if name == 'uni_scan_char':
            return ('value', EOF)
        if name == 'in_get_position':
            return ('value', END)
        if fn is not None and fn.mod is self.fn.mod and len(self.ends.get(name, ())) == 1:
            return ('value', min(self.ends[name]))
        if fn is not None and name not in SAY and fn.mod is self.fn.mod and not fn.vararg:
            return 'inline'
        if fn is not None and args and all(fn.param_ty(q).kind == 'int' for q in range(fn.nparams)) and it.summ.readonly(fn):
            return 'inline'
        return 'opaque'


class MorePol(Policy):
    """The text goes on: reading gives a character. Counts the characters consumed, from below."""
    unroll = 40
    max_states = 30000
    max_depth = 14
    record_back = True

    def __init__(self, fn, summ, ends, rec=(), depth=()):
        self.fn, self.summ, self.ends, self.rec, self.depth = fn, summ, ends, rec, depth
        self.stable = self.monotone = frozenset([POS, OWN, LAST, NAME]) | frozenset(depth)

    def rec_event(self, name):
        return False

    def add(self, st, n, io=None):
        c = self.cell(st, io)
        if c is not None:
            st.mem[c] = (st.mem[c][0] + n, 8)

    def cell(self, st, io):
        """Where the position in a text is kept: one for all texts that come from outside, one for those of the function itself."""
        b = split(io)[0] if io is not None else None
        if isinstance(b, tuple) and b[0] == 'al':
            return OWN if len(st.frames) == 1 else None
        return POS

    def decide(self, it, st, name, args, fn):
        if name == 'uni_scan_char':
            self.add(st, 1, args[0])
            st.uid += 1
            t = ('char', st.uid)
            st.facts.ne[t] = frozenset({EOF})
            return ('value', t)
        if name == 'uni_unscan_char':
            self.add(st, -1, args[0])
            return ('value', 0)
        if name == 'in_get_position':
            c = self.cell(st, args[0])
            return ('value', END + st.mem[c][0]) if c is not None else 'opaque'
        if name == 'in_set_position':
            c = self.cell(st, args[0])
            if c is not None:
                st.mem[c] = (args[1] - END if is_c(args[1]) and abs(args[1] - END) < 1000000 else -1000000, 8)
            return ('value', 0)
        if name == 'uni_scanf':
            self.add(st, 1, args[0])
            return 'opaque'
        if name in ('storage_search', 'storage_add_by_io'):
            st.mem[LAST] = st.mem[POS]
            if st.mem.pop(NAME, None) or at_name(st):
                self.add(st, 1, args[0])
            return 'opaque'
        if name == 'uni_unscan':
            b, o, d = split(args[1])
            last = st.mem.get(LAST)
            back = is_call(b, 'storage_last_read') and last is not None and not d
            st.mem[POS] = (min(st.mem[POS][0], last[0] + o) if back else -1000000, 8)
            return ('value', 0)
        if fn is not None and fn.mod is self.fn.mod and ((name, False) in self.summ or name in self.rec) and (fn is not self.fn or len(st.frames) > 1 or name in self.rec):
            return 'event'
        if fn is not None and name not in SAY and fn.mod is self.fn.mod and not fn.vararg:
            return 'inline'
        return 'opaque'

    def capture(self, it, st, name, args):
        return st.mem[POS][0], tuple(st.mem.get(c, (None,))[0] for c in self.depth)

    def assume(self, it, st, term):
        """What returns the end of the text there returns a character here."""
        if term[0] == 'call' and self.ends.get(term[1]) == {EOF} and it.prog.fn(term[1], self.fn.mod).ret_ty.width == 32:
            st.facts.ne[term] = st.facts.ne.get(term, frozenset()) | {EOF}

    def effect(self, it, st, name, args, term):
        self.add(st, self.summ[name, bool(st.mem.pop(NAME, None) or at_name(st))])


NAME = (('name',), 0, ())
LAST = (('last',), 0, ())


def is_call(t, name):
    return isinstance(t, tuple) and t and t[0] == 'call' and t[1] == name


def at_name(st):
    """The partition has found a letter or # to follow."""
    for c, v in st.facts.log:
        if v and is_call(c, 'utf8_is_letter') or isinstance(c, tuple) and c[0] == 'cmp' and is_call(c[2], 'utf8_is_letter'):
            return True
        if v and isinstance(c, tuple) and c[0] == 'cmp' and c[1] == 'eq' and c[3] == 35:
            return True
    return any(v == 35 for v in st.facts.eq.values())


def order(graph, names):
    """Callees first."""
    out, seen = [], set()

    def visit(n):
        if n in seen:
            return
        seen.add(n)
        for c in sorted(graph[n]):
            if c in names:
                visit(c)
        out.append(n)
    for n in sorted(names):
        visit(n)
    return out


def check_reading(ctx):
    ctx.rule('end', 'a loop that reads text does not go on at the end of the text')
    ctx.rule('progress', 'a loop that reads text consumes some of it in every round, or counts its rounds up to a limit')
    ctx.rule('recursion', 'a function that comes back to itself has consumed text, or counted the nesting of macro calls or included files '
             'up to a limit; a new text is only taken up with such a count')
    ctx.rule('depth', 'the count of nested macro calls and included files is what it was when a function returns')
    P = ctx.prog
    fns, R = readers(P)
    mod = P.need('parser_preprocess').mod
    names = {k[1] for k in R if k[0] == mod.path} - SAY
    graph = {n: callees(fns[mod.path, n]) & names for n in names}
    rec = {n for n in names if n in reach_from(graph, graph[n])}
    ends = {}
    for n in order(graph, names):
        f = fns[mod.path, n]
        if f.loops:
            rs = {p.ret for p in ctx.paths(f, EndPol(f, ends), nonnull=list(range(f.nparams))) if p.kind == 'ret'}
            if all(is_c(r) for r in rs):
                ends[n] = rs
    summ = {(n, q): 0 for n in rec for q in (False, True)}
    todo = [n for n in order(graph, names) if fns[mod.path, n].loops or n in rec]
    for n in [n for n in todo if n not in rec] + [n for n in todo if n in rec]:
        f = fns[mod.path, n]
        for q in (False, True):
            summ[n, q] = least(ctx, f, summ, ends, q)
    for n in sorted(names):
        check_loops(ctx, fns[mod.path, n], names, summ, ends, rec)
    for m in ('map.c', 'uniscanner.c'):
        for key in sorted(R):
            if key[0].endswith('/' + m):
                check_loops(ctx, fns[key], {k[1] for k in R if k[0] == key[0]}, {}, {}, set())
    check_recursion(ctx, fns, mod, graph, rec, summ, ends)
    ctx.minimum('progress', 15)


def check_loops(ctx, f, names, summ, ends, rec):
    n = f.name
    for h in sorted(f.loops):
        sites = [(b, q) for b in f.blocks if b.idx in f.loops[h] for q, i in enumerate(b.instrs)
                 if i.op == 'call' and (i.x == 'uni_scan_char' or i.x in names)]
        if not sites:
            continue
        line = next((i.line for b in f.blocks if b.idx == h for i in b.instrs if i.line), f.line)
        bad = None
        for s in sites:
            for p in ctx.paths(f, EndPol(f, ends), start=s, nonnull=list(range(f.nparams))):
                if p.kind == 'back' and p.state.frames[-1].fn is f:
                    bad = p.line
        ctx.count('reading_call_sites', len(sites))
        ctx.ob('end', '%s: loop %d' % (n, sorted(f.loops).index(h)), bad is None, '%s:%d (%s)' % (f.mod.path, bad or line, n),
               'the loop goes on at the end of the text')
        b = next(b for b in f.blocks if b.idx == h)
        pc = next(q for q, i in enumerate(b.instrs) if i.op != 'phi')
        pol = MorePol(f, summ, ends, rec)
        pol.cut_header = (f, h)
        pol.eager = lambda fn: True
        bad = None
        for p in ctx.paths(f, pol, mem=ZERO, start=(b, pc), nonnull=list(range(f.nparams))):
            if p.kind == 'back' and p.ret[1] == h and max(p.state.mem[POS][0], p.state.mem[OWN][0]) < 1 and not counted(f, b, p):
                bad = p
        ctx.ob('progress', '%s: loop %d' % (n, sorted(f.loops).index(h)), bad is None,
               '%s:%d (%s)' % (f.mod.path, bad.line if bad else line, n), 'a round of the loop consumes nothing')


def least(ctx, f, summ, ends, name):
    """Characters f consumes at least, when the text goes on."""
    for eager in (False, True):
        pol = MorePol(f, summ, ends)
        pol.max_states = 8000
        pol.eager = lambda fn: eager
        try:
            ps = ctx.paths(f, pol, mem={**ZERO, **({NAME: (1, 1)} if name else {})}, nonnull=list(range(f.nparams)))
        except AnalysisError:
            continue
        return min([p.state.mem[POS][0] for p in ps if p.kind == 'ret'] or [0])
    return 0


def counted(f, b, p):
    """A register of the loop grew by one and has been found to be below a constant."""
    fr = p.state.frames[-1]
    for i in b.instrs:
        if i.op != 'phi' or fr.prev is None or fr.prev.idx not in i.x:
            continue
        o = i.x[fr.prev.idx]
        v = fr.env.get(o[1]) if isinstance(o, tuple) and o[0] == 'l' else None
        if isinstance(v, tuple) and v[0] == 'op' and v[1] == 'add' and v[3] == fr.env.get(i.name) and v[4] == 1 and below(p.facts.log, v):
            return True
    return False


def below(log, t):
    """The term is below a constant."""
    for c, v in log:
        if isinstance(c, tuple) and c[0] == 'cmp' and c[1] in ('ult', 'slt'):
            if v and c[2] == t and is_c(c[3]) or not v and c[3] == t and is_c(c[2]):
                return True
    return False


def reach_from(graph, start):
    s, todo = set(), list(start)
    while todo:
        n = todo.pop()
        if n not in s:
            s.add(n)
            todo += graph.get(n, ())
    return s


def check_recursion(ctx, fns, mod, graph, rec, summ, ends):
    P = ctx.prog
    depth = [(('arg', 0), P.field(mod, 'parser', m), ()) for m in ('call', 'include')]
    start = {c: (('depth', n), 8) for n, c in enumerate(depth)}

    def bound(e, counts):
        return any(v == ('op', 'add', 'i64', ('depth', k), 1) and below(e.facts, ('depth', k)) for k, v in enumerate(counts))
    edges = {}                    # (f, g) -> kinds of ways from f to a call of g
    for n in sorted(rec):
        f = fns[mod.path, n]
        pol = MorePol(f, summ, ends, rec, depth)
        pol.eager = lambda fn: True
        ps = ctx.paths(f, pol, mem={**ZERO, **start}, nonnull=list(range(f.nparams)))
        for p in ps:
            for e in p.events:
                if e.name in rec:
                    edges.setdefault((n, e.name), set()).add('bound' if bound(e, e.cap[1]) else 'read' if e.cap[0] >= 1 else 'free')
        bad = [p for p in ps if p.kind == 'ret' and any(p.state.mem[c][0] != v[0] for c, v in start.items())]
        ctx.ob('depth', n, not bad and any(p.kind == 'ret' for p in ps), '%s:%d (%s)' % (FILE, bad[0].line if bad else f.line, n),
               'a count of nesting is not restored')
        pol = EndPol(f, {})
        pol.decide = lambda it, st, name, args, fn, pol=pol, f=f: 'event' if name in rec and fn is not None and fn.mod is mod \
            else EndPol.decide(pol, it, st, name, args, fn)
        pol.capture = lambda it, st, name, args: tuple(st.mem.get(c, (None,))[0] for c in depth)
        pol.stable = frozenset(depth)
        for p in ctx.paths(f, pol, nonnull=list(range(f.nparams)), mem=start):
            for e in p.events:
                if e.name in rec:
                    edges.setdefault((n, e.name), set()).add('bound' if bound(e, e.cap) else 'end')
    for n in sorted(rec):
        for g in sorted({b for a, b in edges if a == n}):
            kinds = edges[n, g]
            # back to n from g
            free = {k: {b for (a, b), v in edges.items() if a == k and ('free' in v or 'end' in v)} for k in rec}
            text = {k: {b for (a, b), v in edges.items() if a == k and v - {'bound'}} for k in rec}
            bad = None
            if kinds & {'free', 'end'} and n in reach_from(free, [g]):
                bad = 'comes back to itself without consuming text'
            elif g == 'parser_preprocess' and kinds - {'bound'} and n in reach_from(text, [g]):
                bad = 'takes up another text without a limit on the nesting'
            ctx.ob('recursion', '%s to %s' % (n, g), bad is None, '%s:%d (%s)' % (FILE, fns[mod.path, n].line, n), bad or '')

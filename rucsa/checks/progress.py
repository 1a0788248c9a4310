"""F13 termination of the parser: every loop and every recursion consumes a token or ends."""
from ..absint import Policy, is_c, mkptr, split
from ..program import AnalysisError
from .parse import K, TokPol


def callees(fn):
    return {i.x for b in fn.blocks for i in b.instrs if i.op == 'call' and isinstance(i.x, str)}


def reach(graph, goal):
    """Functions from which goal is reachable."""
    s = {goal}
    while True:
        n = {f for f, cs in graph.items() if f not in s and cs & s}
        if not n:
            return s
        s |= n


ANY = ('any',)


class ProgPol(TokPol):
    """Partitions on which no token has been consumed (tok None: whichever token it is).  At the end of the text the token
    stays the same."""
    unroll_forked = 0
    max_states = 6000
    opaque_fns = TokPol.opaque_fns - {'node_broken'}

    def __init__(self, k, tok, grammar, notproof, reach_lex, prs=0):
        TokPol.__init__(self, k)
        self.tok, self.grammar, self.N, self.rl = tok, grammar, notproof, reach_lex
        self.cell = (('arg', prs), k.cur, ())
        self.stable = frozenset([self.cell])
        self.result = None

    def readonly_arg(self, name, n):
        return isinstance(self.result, tuple) and self.result[:2] == ('copy', n)

    def summary(self, name, args, fn):
        return self.N.get((name, consts(fn, args), self.tok))

    def decide(self, it, st, name, args, fn):
        if name == 'lex':
            return 'event' if self.tok in (None, self.K.t('EOF')) else 'cut'
        if name in self.grammar:
            self.result = self.summary(name, args, fn)
            return 'event' if self.result is not None else 'cut'
        if name in self.rl or name in ('node_broken', 'node_load', 'node_is_correct'):
            return 'inline'
        if fn is not None and it.summ.readonly(fn) and args and all(is_c(a) or split(a)[0] == self.cell[0] for a in args):
            return 'inline'
        return 'opaque'

    def effect(self, it, st, name, args, term):
        t = self.K.t('EOF') if name == 'lex' else self.tok      # a token consumed without progress
        put(st, self.cell, t)
        if name == 'lex':
            b, o, d = split(args[0])
            put(st, (b, o + self.K.kind, d), t)
            self.result = None
        elif isinstance(self.result, tuple) and self.result[0] == 'copy':
            n = self.result[1]
            self.result = ('agg', tuple(it.load(st, mkptr(args[n], o), Word) for o in self.result[2]))

    def assume(self, it, st, term):
        r, self.result = self.result, None
        return r if r is not None and r != ANY and isinstance(term, tuple) and term[0] == 'call' and term[1] in self.grammar else None


class Word:
    kind, width, size = 'int', 64, 8


def put(st, cell, tok):
    if tok is None:
        st.mem.pop(cell, None)
    else:
        st.mem[cell] = (tok, 4)


class LoopPol(ProgPol):
    """Reach a token consumption anywhere in the function, in any state; from there on as ProgPol: a loop that is passed twice
    goes round without consuming."""
    armed = (('armed',), 0, ())

    def __init__(self, k, tok, grammar, notproof, reach_lex, fn, site, prs=0):
        ProgPol.__init__(self, k, tok, grammar, notproof, reach_lex, prs)
        self.fn, self.site = fn, site
        self.stable = frozenset([self.cell, self.armed])

    def eager(self, fn):
        return fn is self.fn

    def widen_loop(self, st, fr, header):
        return self.armed not in st.mem

    def go_round(self, st, fr, header):
        return self.armed in st.mem

    def decide(self, it, st, name, args, fn):
        if self.armed not in st.mem:
            f = st.frames[0]
            if len(st.frames) == 1 and (f.bb, f.pc) != self.site:
                return 'cut'
            self.result = None
            return 'event' if name == 'lex' or name in self.grammar else \
                'inline' if name in self.rl or name in ('node_broken', 'node_load', 'node_is_correct') else 'opaque'
        return ProgPol.decide(self, it, st, name, args, fn)

    def effect(self, it, st, name, args, term):
        if self.armed in st.mem:
            ProgPol.effect(self, it, st, name, args, term)
            return

        def arm(s, tok, flag):
            put(s, self.cell, tok)
            if name == 'lex':
                b, o, d = split(args[0])
                put(s, (b, o + self.K.kind, d), tok)
            if flag:
                s.mem[self.armed] = (1, 4)
        if len(st.frames) == 1:
            arm(st, self.tok, True)
            return None
        arm(st, None, False)
        return [lambda s: arm(s, self.tok, True)]


def consts(fn, args):
    return tuple((n, a) for n, a in enumerate(args) if intparam(fn, n) and is_c(a))


def check_parser(ctx):
    ctx.rule('loop', 'a loop of the parser that goes round has consumed a token, so it ends at the end of the text')
    ctx.rule('recursion', 'a grammar function does not reach itself again without consuming a token')
    k = K(ctx)
    P = ctx.prog
    fns = {f.name: f for f in k.m.functions.values() if not f.decl}
    graph = {n: callees(f) & (set(fns) | {'lex'}) for n, f in fns.items()}
    rl = reach(graph, 'lex') - {'lex'}
    ctx.need('parse' in rl, 'the parser does not reach the scanner')
    rec = {n for n in rl if n in reach({m: c for m, c in graph.items()}, n) and any(n in reach_from(graph, c) for c in graph[n])}
    loops = {n for n in rl if fns[n].loops}
    grammar = {n for n in rl if n in rec or n in loops or graph[n] & rec and n not in ('parse',)}
    grammar = {n for n in grammar if fns[n].nparams and n != 'parse'}
    # keep helpers that only wrap lex in line
    names = {}
    for t in k.tok.values():
        names.setdefault(t, k.names[t])
    toks = sorted(set(k.tok.values()))
    keys = {}                      # (function, constants) -> tokens wanted
    todo = sorted(variants(ctx, k, fns, grammar, rl))
    edges = {}
    N = {}
    entry = {}                     # loops that go round before anything is consumed
    work = [(n, c, t) for n, c in todo for t in toks]
    known = set(work)
    rounds = 0
    while work:
        rounds += 1
        again = []
        newN = {}
        for key in work:
            n, c, t = key
            fn = fns[n]
            pol = ProgPol(k, t, grammar, N, rl, int(fn.sret))
            ps = ctx.paths(fn, pol, mem={pol.cell: (t, 4)}, args=dict(c), nonnull=[int(fn.sret)])
            deps = set()
            for p in ps:
                for e in p.events:
                    if e.name in grammar:
                        deps.add((e.name, consts(fns[e.name], e.extra), t))
                if p.kind == 'cut' and p.ret[1] in grammar:
                    deps.add((p.ret[1], consts(fns[p.ret[1]], p.ret[2]), t))
                if p.kind == 'ret':
                    r = result(fn, p)
                    newN[key] = r if key not in newN else join(newN[key], r)
                if p.kind == 'back' and goes_round(p, rl):
                    entry.setdefault(key, []).append(p.line)
            edges[key] = deps
            for d in deps:
                if d not in known:
                    known.add(d)
                    again.append(d)
        changed = set()
        for key, r in newN.items():
            r = r if key not in N else join(N[key], r)
            if N.get(key) != r:
                N[key] = r
                changed.add(key)
        if changed:
            # those that may call one of them
            again += [q for q in known if q in edges and edges[q] & changed]
        work = sorted(set(again))
        if rounds > 60:
            raise AnalysisError('progress summaries do not settle')
    # loops
    whole = {}
    for (n, c, t), r in N.items():
        whole[n, c, None] = r if (n, c, None) not in whole else join(whole[n, c, None], r)
    nloops = nsites = 0
    for n, c in sorted({q[:2] for q in known}):
        fn = fns[n]
        if not any(consuming(fn, h, rl) for h in fn.loops):
            continue
        nloops += 1
        a = int(fn.sret)
        sites = [(b, q) for b in fn.blocks for q, i in enumerate(b.instrs)
                 if i.op == 'call' and (i.x == 'lex' or i.x in rl)]
        nsites += len(sites)

        def rounds_of(t, S):
            return sorted({p.line for site in sites
                           for p in ctx.paths(fn, LoopPol(k, t, grammar, S, rl, fn, site, a), args=dict(c), nonnull=[a], start=site)
                           if p.kind == 'back' and LoopPol.armed in p.state.mem and goes_round(p, rl)})
        some = rounds_of(None, whole)
        for t in toks:
            b = (rounds_of(t, N) if some else []) + entry.get((n, c, t), [])
            ctx.ob('loop', '%s%s at %s' % (n, ''.join(' %s' % v for _, v in c), names[t][3:]), not b,
                   'libs/compiler/parser.c' + (':%d (%s)' % (b[0], n) if b else ' (%s)' % n),
                   'a loop goes round without consuming %s' % names[t] if b else '')
    ctx.count('consuming_call_sites', nsites)
    ctx.need(nloops >= 8, 'the loops of the parser were not found')
    # recursion
    color = {}
    for key in sorted(known):
        cyc = cycle(edges, key)
        ctx.ob('recursion', '%s%s at %s' % (key[0], ''.join(' %s' % v for _, v in key[1]), names[key[2]][3:]), cyc is None,
               'libs/compiler/parser.c (%s)' % key[0], 'reaches itself at the same token: ' + ' -> '.join(q[0] for q in cyc or ()))
    ctx.minimum('loop', 1000)


def result(fn, p):
    """What a path that consumes nothing returns: a constant (aggregate), ('copy', n) of what the n-th parameter points to, or ANY."""
    if const(p.ret):
        return p.ret
    if isinstance(p.ret, tuple) and p.ret[0] == 'agg':
        for n in range(fn.nparams):
            if all(isinstance(v, tuple) and v[0] == 'ld' and split(v[1])[0] == ('arg', n) and v[2] == 0 for v in p.ret[1]):
                return ('copy', n, tuple(split(v[1])[1] for v in p.ret[1]))
    return ANY


def const(v):
    return is_c(v) or isinstance(v, tuple) and v[0] == 'agg' and all(const(q) for q in v[1])


def join(a, b):
    return a if a == b else ANY


def consuming(fn, h, rl):
    return any(i.op == 'call' and isinstance(i.x, str) and (i.x in rl or i.x == 'lex')
               for b in fn.blocks if b.idx in fn.loops[h] for i in b.instrs)


def goes_round(p, rl):
    return consuming(p.state.frames[-1].fn, p.ret[1], rl)


class AnyPol(TokPol):
    """Every token may follow; used to find the constants grammar functions are called with."""
    max_states = 20000

    def __init__(self, k, grammar, rl, prs):
        TokPol.__init__(self, k)
        self.prs = prs
        self.grammar, self.rl = grammar, rl

    def decide(self, it, st, name, args, fn):
        if name == 'lex' or name in self.grammar:
            return 'event'
        if name in self.rl or fn is not None and it.summ.readonly(fn) and args and all(is_c(a) or split(a)[0] == ('arg', self.prs) for a in args):
            return 'inline'
        return 'opaque'

    def effect(self, it, st, name, args, term):
        pass


def variants(ctx, k, fns, grammar, rl):
    """(function, constant arguments) of every call of a grammar function."""
    out = set()
    todo = [n for n in grammar if not any(n in callees(f) and f.name in rl for f in fns.values() if f.name in grammar)]
    todo = [(n, ()) for n in todo]
    cs = set()
    while todo:
        key = todo.pop()
        if key in out:
            continue
        out.add(key)
        n, c = key
        for m in [n] + sorted(reach_from({x: callees(fns[x]) & rl - grammar for x in rl}, n) - {n}):
            for b in fns[m].blocks:
                for i in b.instrs:
                    if i.op != 'call' or i.x not in grammar:
                        continue
                    a = [o if is_c(o) else None for o in i.ops]
                    g = fns[i.x]
                    if all(v is not None for q, v in enumerate(a) if intparam(g, q)):
                        todo.append((i.x, tuple((q, v) for q, v in enumerate(a) if intparam(g, q))))
                    else:
                        cs.add((n, c, i.x))
        for _, _, g in [q for q in cs if q[:2] == key]:
            a = int(fns[n].sret)
            for t in sorted(set(k.tok.values())):
                for e in [e for p in ctx.paths(fns[n], AnyPol(k, grammar, rl, a), mem={(('arg', a), k.cur, ()): (t, 4)}, args=dict(c),
                                               nonnull=[a]) for e in p.events]:
                    if e.name == g:
                        todo.append((g, tuple((q, v) for q, v in enumerate(e.extra) if intparam(fns[g], q) and is_c(v))))
    return out


def intparam(fn, q):
    return fn.param_ty(q).kind == 'int' and fn.param_ty(q).width <= 32


def reach_from(graph, n):
    s, todo = set(), [n]
    while todo:
        f = todo.pop()
        if f in s:
            continue
        s.add(f)
        todo += graph.get(f, ())
    return s


def cycle(edges, key):
    """A path from key back to key, or None."""
    prev = {}
    todo = [key]
    while todo:
        q = todo.pop()
        for d in edges.get(q, ()):
            if d == key:
                path = [key, q]
                while q != key:
                    q = prev[q]
                    path.append(q)
                return path[::-1]
            if d not in prev:
                prev[d] = q
                todo.append(d)
    return None


class EofPol(Policy):
    """The input is at its end: reading gives EOF, putting EOF back changes nothing."""
    unroll = 40
    cut_after = 1
    unroll_forked = 0
    record_back = True
    max_states = 30000
    max_depth = 12

    def __init__(self, readers, fn, eof):
        self.readers, self.fn, self.eof = readers, fn, eof

    def cut_back(self, fn):
        return 'always' if fn is self.fn else False

    def rec_event(self, name):
        return False

    def decide(self, it, st, name, args, fn):
        if name == 'uni_scan_char':
            return ('value', self.eof)
        if fn is not None and (args and all(fn.param_ty(q).kind == 'int' for q in range(fn.nparams)) and it.summ.readonly(fn)
                               or name.startswith('token_')):
            return 'inline'
        if fn is not None and (fn.mod.path, fn.name) in self.readers and not fn.vararg and \
                ('locator' not in fn.mod.path or 'locator' in self.fn.mod.path):
            return 'inline'
        return 'opaque'


def readers(prog):
    """Functions (module, name) that may read a character of the input."""
    fns = {(m.path, f.name): f for m in prog.modules.values() for f in m.functions.values() if not f.decl}
    return fns, close(prog, fns, 'uni_scan_char')


def close(prog, fns, goal):
    """Functions from which a call of goal is reachable."""
    callers = {}
    for key, f in fns.items():
        for n in callees(f):
            g = prog.fn(n, f.mod)
            callers.setdefault((g.mod.path, g.name) if g is not None and not g.decl else n, set()).add(key)
    out = set()
    todo = [goal] + [q for q in fns if q[1] == goal]
    while todo:
        for q in callers.get(todo.pop(), ()):
            if q not in out:
                out.add(q)
                todo.append(q)
    return out


class WordPol(EofPol):
    """Functions of other modules that read a whole word are events."""
    def __init__(self, readers, fn, eof, words):
        EofPol.__init__(self, readers, fn, eof)
        self.words = words

    def decide(self, it, st, name, args, fn):
        if name in self.words:
            return 'event'
        return EofPol.decide(self, it, st, name, args, fn)


def check_scanner(ctx):
    ctx.rule('scan', 'a loop of the scanner that goes round reads a character, and does not go round at the end of the text')
    ctx.rule('token', 'every token but the one for the end of the text has consumed a character')
    k = K(ctx)
    P = ctx.prog
    fns, R = readers(P)
    mod = P.need('lex').mod.path
    n = 0
    for key in sorted(R):
        f = fns[key]
        if key[0] != mod or not f.loops:
            continue
        n += 1
        ps = ctx.paths(f, EofPol(R, f, -1), nonnull=list(range(f.nparams)))
        back = sorted({p.line for p in ps if p.kind == 'back' and p.state.frames[-1].fn is f})
        ctx.ob('scan', '%s: %d loops' % (f.name, len(f.loops)), not back and any(p.kind == 'ret' for p in ps),
               mod + (':%d' % back[0] if back else ' (%s)' % f.name), 'a loop repeats at the end of the text without consuming anything')
    ctx.need(n >= 3, 'the scanning loops were not found')
    f = P.need('lex')
    a = int(f.sret)
    ch = (('arg', a), P.field(f.mod, 'lexer', 'character'), ())
    words = {key[1] for key in R if key[0] != mod and not fns[key].vararg and not key[1].startswith('uni_')}
    for c in list(range(128)) + [0x430]:
        bad = []
        n = 0
        for p in ctx.paths(f, WordPol(R, f, -1, words), mem={ch: (c, 4)}, nonnull=list(range(f.nparams))):
            if p.kind != 'ret':
                continue
            n += 1
            v = p.state.mem.get(ch)
            if not p.events and not (v is not None and v[0] == -1):
                bad.append(p.line)
        ctx.ob('token', 'a token beginning with %s' % (repr(chr(c))), n and not bad, mod + (':%d' % bad[0] if bad else ' (lex)'),
               'the token is produced without consuming a character')
    ctx.minimum('token', 100)


def check_progress(ctx):
    check_parser(ctx)
    check_scanner(ctx)

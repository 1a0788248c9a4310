"""D02: a reported diagnostic is delivered, with a message of its own and the arguments that message takes."""
import re
from ..absint import Policy, mkptr, split, base_of, show, is_c
from ..program import AnalysisError

SLOT = ('va',)
FILES = ('compiler/errors.c', 'macro/error.c')
SINKS = {'get_error': 'error', 'get_warning': 'warning'}


class MsgPol(Policy):
    """One message: the arguments it takes off the list, and the pieces written into the buffer."""
    def __init__(self, mod, va, msg):
        self.mod, self.va, self.msg = mod, va, msg
        self.taken = {}
        self.stable = frozenset([(va, 0, ()), (va, 4, ()), (va, 8, ()), (va, 16, ())])

    def cut_back(self, fn):
        return True

    def decide(self, it, st, name, args, fn):
        if fn is not None and fn.mod is self.mod and not any(b for b in fn.loops):
            return 'inline'
        return 'event'

    def on_load(self, it, st, addr, ty):
        b, o, d = split(addr)
        if b == SLOT:
            self.taken.setdefault(o if not d else None, set()).add(repr(ty))

    def capture(self, it, st, name, args):
        fr = st.frames[-1]
        ins = fr.bb.instrs[fr.pc]
        return [repr(t) for t in ins.atys]


def cstr(P, t):
    """The text a pointer points to, when it is a constant of the program."""
    if isinstance(t, tuple) and t[0] == 'obj' and False:
        return None
    b, o, d = split(t) if not is_c(t) else (None, None, None)
    if isinstance(b, tuple) and b[0] == 'g' and is_c(o) and not d:
        v = P.global_init(b[1])[0]
        if isinstance(v, tuple) and v[0] == 'str':
            return v[1][o:].split(b'\0')[0].decode('utf-8', 'replace')
    return None


SPEC = re.compile(r'%(?:%|[-+ #0]*[0-9]*(?:\.[0-9]+)?(hh|h|ll|l|z|j|t|L)?([a-zA-Z]))')


def wants(fmt):
    out = []
    for m in SPEC.finditer(fmt):
        c = m.group(2)
        if c is None:
            continue
        if c in 'sp':
            out.append('ptr')
        elif c in 'diouxXc':
            out.append('i64' if m.group(1) in ('l', 'll', 'z', 'j', 't') else 'i32')
        else:
            out.append('double')
    return out


class Messages:
    """What each code's message is made of."""
    def __init__(self, ctx, mod, name, enum):
        self.ctx, self.mod, self.name = ctx, mod, name
        P = ctx.prog
        self.fn = P.need(name, mod)
        self.codes = P.enum(mod, enum)
        self.sig, self.text, self.bad, self.keys = {}, {}, {}, {}
        other = self.run(-7)
        self.other = {self.key(p) for p in other[0]}
        for e, v in sorted(self.codes.items(), key=lambda x: x[1]):
            self.one(e, v)

    def run(self, code):
        va, msg = ('arg', 2), ('arg', 1)
        pol = MsgPol(self.mod, va, msg)
        mem = {(va, 0, ()): (0, 4), (va, 4, ()): (48, 4), (va, 8, ()): (('ovf',), 8), (va, 16, ()): (SLOT, 8)}
        ps = self.ctx.paths(self.fn, pol, args={0: code}, mem=mem, nonnull=[1, 2])
        return [p for p in ps if p.kind in ('ret', 'cut')], pol.taken

    def pieces(self, p):
        """Writes into the message: (event, does it start the message, format)."""
        out = []
        for e in p.events:
            for k, a in enumerate(e.args):
                b, o, d = split(a) if not is_c(a) else (None, 0, ())
                if b == ('arg', 1):
                    fmt = cstr(self.ctx.prog, e.args[1]) if e.name in ('sprintf', 'strcpy', 'strcat') and len(e.args) > 1 else None
                    out.append((e, o == 0 and not d, fmt))
                    break
        return out

    def key(self, p):
        return tuple(f if f is not None else e.name for e, s, f in self.pieces(p))

    def one(self, e, v):
        ctx = self.ctx
        where = '%s (%s)' % (self.mod.path, self.name)
        ps, taken = self.run(v)
        bad = None
        keys = set()
        for p in ps:
            pc = self.pieces(p)
            keys.add(self.key(p))
            if not pc or not pc[0][1]:
                bad = 'no message is written'
                continue
            again = [x for x in pc[1:] if x[1] and x[0].name in ('sprintf', 'strcpy')]
            if again:
                bad = 'the message %r is overwritten by %r' % (pc[0][2], again[0][2])
            for ev, _, fmt in pc:
                if ev.name != 'sprintf' or fmt is None:
                    continue
                w, g = wants(fmt), ev.cap[2:]
                if len(w) > len(g) or any(a != b for a, b in zip(w, g)):
                    bad = '%r formats %s but is given %s' % (fmt, w, g)
        if not bad and keys & self.other:
            bad = 'there is no message for it'
        if not ps:
            bad = 'no way through'
        offs = sorted(taken, key=lambda x: -1 if x is None else x)
        types = []
        for k, o in enumerate(offs):
            if o != 8 * k or len(taken[o]) != 1:
                types = None
                break
            types.append(next(iter(taken[o])))
        self.sig[v] = types
        self.bad[v] = (e, bad, where)
        self.keys[v] = keys

    def judge(self, used):
        """The codes reported somewhere have messages of their own."""
        ctx = self.ctx
        for v in sorted(used & set(self.bad)):
            e, bad, where = self.bad[v]
            keys = self.keys[v]
            ctx.ob('message', '%s %s' % (self.mod.path.split('/')[-2], e), bad is None, where, '%s: %s' % (e, bad))
            if bad:
                continue
            for k in keys:
                o = self.text.setdefault(k, e)
                ctx.ob('own', '%s %s' % (self.mod.path.split('/')[-2], e), o == e or self.codes[o] == v, where, '%s has the message of %s: %s' % (e, o, k[:1]))


# --- who reports ----------------------------------------------------------------------------------------------------

class Rep:
    """A function that reports: where its code comes in, and how the arguments follow."""
    def __init__(self, kind, msgs, code, how, n):
        self.kind, self.msgs, self.code, self.how, self.n = kind, msgs, code, how, n


def reporters(ctx, roots):
    """roots: {function: Rep}; closed over functions that hand a code of their own on."""
    P = ctx.prog
    known = dict(roots)
    fns = [f for m in P.modules.values() for f in m.functions.values() if not f.decl]
    while True:
        new = {}
        for f in fns:
            if f in known:
                continue
            for i in f.instrs():
                if i.op != 'call' or not isinstance(i.x, str):
                    continue
                g = P.fn(i.x, f.mod)
                r = known.get(g)
                if r is None or len(i.ops) <= r.code:
                    continue
                c = i.ops[r.code]
                if not (isinstance(c, tuple) and c[0] == 'a'):
                    continue
                if r.how == 'va':
                    v = i.ops[r.n]
                    if isinstance(v, tuple) and v[0] == 'a':
                        new[f] = Rep(r.kind, r.msgs, c[1], 'va', v[1])
                    else:
                        new[f] = Rep(r.kind, r.msgs, c[1], 'list', f.nparams)
                elif r.how == 'list':
                    new[f] = Rep(r.kind, r.msgs, c[1], 'fixed', tuple(repr(t) for t in i.atys[r.n:]))
                else:
                    new[f] = Rep(r.kind, r.msgs, c[1], 'fixed', r.n)
        if not new:
            return known
        known.update(new)


def leaves(f, op, depth=0, seen=None):
    """The constants an operand may be; None among them: something else."""
    seen = set() if seen is None else seen
    if is_c(op):
        return {op}
    if isinstance(op, tuple) and op[0] == 'l':
        if op[1] in seen:
            return set()
        seen.add(op[1])
        ins = next((i for i in f.instrs() if i.name == op[1]), None)
        if ins is not None and ins.op == 'phi':
            return set().union(*[leaves(f, o, depth, seen) for o in ins.x.values()])
        if ins is not None and ins.op == 'select':
            return leaves(f, ins.ops[1], depth, seen) | leaves(f, ins.ops[2], depth, seen)
    return {None}


def check_sites(ctx, known):
    P = ctx.prog
    n, used = 0, {}
    for m in P.modules.values():
        for f in m.functions.values():
            if f.decl:
                continue
            for i in f.instrs():
                if i.op != 'call' or not isinstance(i.x, str):
                    continue
                r = known.get(P.fn(i.x, f.mod))
                if r is None or r.how == 'va' or len(i.ops) <= r.code:
                    continue
                code = i.ops[r.code]
                if isinstance(code, tuple) and code[0] == 'a' and f in known:
                    continue
                given = list(r.n) if r.how == 'fixed' else [repr(t) for t in i.atys[r.n:]]
                for c in sorted(leaves(f, code), key=str):
                    if c is None:
                        ctx.count('sites_with_computed_codes')
                        continue
                    used.setdefault(r.msgs, set()).add(c)
                    names = [k for k, v in r.msgs.codes.items() if v == c]
                    e = names[0] if names else str(c)
                    if not names:
                        ctx.ob('arguments', '%s %s %s' % (f.mod.path, f.name, c), False, '%s:%s (%s)' % (f.file, i.line, f.name),
                               'reports %s, which is no code of its kind' % c)
                        continue
                    sig = r.msgs.sig.get(c)
                    if sig is None:
                        continue
                    n += 1
                    ok = given[:len(sig)] == sig
                    ctx.ob('arguments', '%s %s %s #%d' % (f.mod.path, f.name, e, n), ok, '%s:%s (%s)' % (f.file, i.line, f.name),
                           'reports %s with the arguments (%s); its message takes (%s)' % (e, ', '.join(given), ', '.join(sig)))
    return used


# --- delivery -------------------------------------------------------------------------------------------------------

class DelPol(Policy):
    """A reporter, down to the sink."""
    max_depth = 12

    def __init__(self, known, sinks):
        self.known, self.sinks, self.taken = known, sinks, False

    def cut_back(self, fn):
        return True

    def on_store(self, it, st, addr, val, ty, ins):
        t = it.tag_of(st.frames[-1], ins.ops[1])
        if isinstance(t, tuple) and '__va_list_tag' in str(t[0]):
            self.taken = True

    def decide(self, it, st, name, args, fn):
        if fn in self.sinks or name.startswith('log_') or name in ('in_set_position', 'va_end', 'llvm.va_start', 'llvm.va_end', 'llvm.va_start.p0', 'llvm.va_end.p0'):
            return 'event'
        if name in ('in_get_position', 'in_is_file'):
            return 'opaque'
        if fn is not None and (fn in self.known or fn.mod.path.endswith(FILES) or fn.mod in self.mods):
            return 'inline'
        return 'opaque'


class CondPol(Policy):
    """When a reporter stays silent: with recovery switched off, once there was an error."""
    max_depth = 12

    def __init__(self, known, sinks, cells):
        self.known, self.sinks, self.stable = known, sinks, frozenset(cells)

    def cut_back(self, fn):
        return True

    def decide(self, it, st, name, args, fn):
        if fn in self.sinks or name.startswith('log_'):
            return 'event'
        if fn is not None and (fn in self.known or fn.mod.path.endswith(FILES)):
            return 'inline'
        return 'opaque'


def check_silence(ctx, known, roots):
    P = ctx.prog
    rm, pm = P.module('compiler/reporter.c'), P.module('macro/parser.c')
    n = 0
    for mod, names, rec, sw, er in ((rm, ('report_error', 'report_warning'), 'reporter', 'is_recovery_disabled', 'errors'),
                                    (pm, ('parser_error', 'parser_warning'), 'parser', 'is_recovery_disabled', 'was_error')):
        so, eo = P.field(mod, rec, sw), P.field(mod, rec, er)
        for nm in names:
            f = P.need(nm, mod)
            for s0 in (0, 1):
                for e0 in (0, 1):
                    mem = {(('arg', 0), so, ()): (s0, 1), (('arg', 0), eo, ()): (e0, 8 if rec == 'reporter' else 1)}
                    bad, k = '', 0
                    for p in ctx.paths(f, CondPol(known, set(roots), mem), mem=dict(mem), nonnull=[0]):
                        if p.kind not in ('ret', 'cut'):
                            continue
                        k += 1
                        said = any(e.name.startswith('log_') for e in p.events)
                        if said != (not (s0 and e0)) and not (s0 and nm.endswith('warning')):
                            bad = 'a report is %s with messages %s and %s error before (line %s)' % (
                                'shown' if said else 'kept back', 'stopped' if s0 else 'wanted', 'an' if e0 else 'no', p.line)
                    n += 1
                    ctx.ob('silent', '%s %d%d' % (nm, s0, e0), not bad and k, '%s (%s)' % (mod.path, nm), bad or 'no way through')
    return n


def check_names(ctx, known, roots):
    """Whatever takes a code reports it, and as what it is."""
    P = ctx.prog
    enums = {}
    for r in roots.values():
        enums[frozenset(r.msgs.codes.items())] = r
    for m in P.modules.values():
        di = P.di(m)
        for f in sorted(m.functions.values(), key=lambda f: f.name):
            if f.decl or f in roots:
                continue
            for n, t in sorted(di.params.get(f.name, {}).items()):
                r = enums.get(frozenset(di.enums.get(t, {}).items())) if t else None
                if r is None:
                    continue
                k = known.get(f)
                ok = k is not None and k.msgs is r.msgs
                ctx.ob('delivered', 'as ' + f.name, ok, '%s (%s)' % (m.path, f.name),
                       'it takes %s codes, but %s' % (t, 'does not report them' if k is None else 'reports them as something else'))


def begins(t):
    """The position is not the end of a token."""
    return not (isinstance(t, tuple) and 'token_get_location' in repr(t) and not show(t).endswith('.0'))


def place(p, log):
    """With its line where the place is known, by the log without lines where it is not."""
    for t, v in p.facts.eq.items():
        if t[0] == 'call' and t[1] == 'loc_is_correct':
            return log.name.startswith('log_auto' if v else 'log_system')
    return log.name.startswith('log_system')


def check_delivery(ctx, known, roots):
    P = ctx.prog
    sinks = set(roots)
    for f, r in sorted(known.items(), key=lambda x: (x[0].mod.path, x[0].name)):
        if f in sinks or r.how == 'fixed':
            continue
        pol = DelPol(known, sinks)
        pol.mods = {f.mod}
        where = '%s (%s)' % (f.mod.path, f.name)
        ok, why, n = True, '', 0
        loud = 0
        for p in ctx.paths(f, pol, nonnull=[0]):
            if p.kind not in ('ret', 'cut'):
                continue
            n += 1
            got = [e for e in p.events if P.fn(e.name, e.fn.mod) in sinks]
            logs = [e for e in p.events if e.name.startswith('log_')]
            if not got and not logs:
                if not any(True for _ in p.facts.log):
                    ok, why = False, 'nothing is reported'
                continue
            loud += 1
            if len(got) != 1 or len(logs) != 1:
                ok, why = False, 'the message is made %d times and delivered %d times' % (len(got), len(logs))
                continue
            g, l = got[0], logs[0]
            if P.fn(g.name, g.fn.mod) not in r.msgs.peers or roots[P.fn(g.name, g.fn.mod)].kind != r.kind:
                ok, why = False, 'the message comes from %s' % g.name
            if g.args[0] != ('arg', r.code):
                ok, why = False, 'the message is that of %s' % show(g.args[0])[:80]
            if r.how == 'va' and (g.args[2] != ('arg', r.n) or pol.taken):
                ok, why = False, 'its arguments are not handed on'
            if r.how == 'list':
                st = [e for e in p.events if e.name.startswith('llvm.va_start')]
                if len(st) != 1 or base_of(st[0].orig[0] if hasattr(st[0], 'orig') else st[0].extra[0]) != base_of(g.extra[2]):
                    ok, why = False, 'its arguments are not handed on'
                elif pol.taken:
                    ok, why = False, 'arguments are taken off the list before the message is made'
                elif p.events.index(st[0]) > p.events.index(g) or any(e.name.startswith('llvm.va_end') for e in p.events[:p.events.index(g)]):
                    ok, why = False, 'its arguments are not open while the message is made'
            if not l.name.endswith(r.kind):
                ok, why = False, 'an %s is delivered by %s' % (r.kind, l.name)
            if base_of(l.extra[1]) != base_of(g.extra[1]) or p.events.index(l) < p.events.index(g):
                ok, why = False, 'what is delivered is not the message'
            if P.fn(g.name, g.fn.mod).mod.path.endswith('compiler/errors.c') and not place(p, l):
                ok, why = False, 'the line shown with it is not the one of its place'
            moves = [e for e in p.events if e.name == 'in_set_position']
            before = [e for e in moves if p.events.index(e) < p.events.index(g)]
            if moves and len(moves) == 1:
                ok, why = False, 'the text position is moved and not put back'
            pos = [k for k, t in P.di(f.mod).params.get(f.name, {}).items() if t == 'location' and k < r.code]
            if '/compiler/' in f.mod.path and (moves and len(before) != 1 or before and not (before[0].extra[1] == ('arg', pos[0]) if pos else begins(before[0].extra[1]))):
                ok, why = False, 'it is shown at another place than the one given'
        if ok and not loud:
            ok, why = False, 'nothing is ever reported'
        ctx.ob('delivered', f.name, ok, where, why)


def check_diag(ctx):
    ctx.rule('message', 'every code has a message, written once, whose format directives match what they are given')
    ctx.rule('own', 'no two codes share a message')
    ctx.rule('arguments', 'where a code is reported, the arguments its message takes are given, of the types it takes')
    ctx.rule('delivered', 'a reporter makes the message of the code it is given from its arguments and delivers it once, with its severity')
    ctx.rule('silent', 'errors are held back exactly when messages were to end with the first one and there was one; warnings only when that was asked for')
    ctx.rule('logged', 'the log hands every one-line message once to the sink of its severity, which prints it')
    P = ctx.prog
    roots = {}
    for suf in FILES:
        m = P.module(suf)
        peers = set()
        for fn, kind in SINKS.items():
            enum = 'warning_t' if kind == 'warning' else 'err_t' if suf.startswith('compiler') else 'error_t'
            ms = Messages(ctx, m, fn, enum)
            ms.peers = peers
            peers.add(ms.fn)
            roots[ms.fn] = Rep(kind, ms, 0, 'va', 2)
    known = reporters(ctx, roots)
    used = check_sites(ctx, known)
    for r in roots.values():
        r.msgs.judge(used.get(r.msgs, set()))
    check_delivery(ctx, known, roots)
    check_names(ctx, known, roots)
    check_silence(ctx, known, roots)
    check_log(ctx)


# --- the log --------------------------------------------------------------------------------------------------------

class LogPol(Policy):
    def cut_back(self, fn):
        return True

    def decide(self, it, st, name, args, fn):
        if name == '*indirect*' or name in ('sprintf', 'fprintf', 'snprintf', 'strchr') or fn is None:
            return 'event'
        if fn.mod.path.endswith('utils/logger.c') and not fn.loops:
            return 'inline'
        return 'event'


def calls_in(x):
    if isinstance(x, tuple):
        if x and x[0] == 'call':
            yield x
        for y in x:
            yield from calls_in(y)


def refused(p):
    """The path is one for a message that is no message: no text, or more than one line."""
    for k in range(4):
        if p.facts.eq.get(('arg', k)) == 0:
            return True
    for t, n in p.facts.ne.items():
        if t[:2] == ('call', 'strchr') and 0 in n:
            return True
    return any(c[1] not in ('strchr',) and not c[1].startswith('loc_') for t in list(p.facts.eq) + list(p.facts.ne) for c in calls_in(t))


def writer(ctx, fn, cache):
    """fn(buffer, msg, ...) leaves in the buffer a text beginning with the message."""
    if fn not in cache:
        ok = fn is not None
        for p in ctx.paths(fn, LogPol()) if fn is not None else ():
            if p.kind not in ('ret', 'cut'):
                continue
            w = [e for e in p.events if e.extra and base_of(e.extra[0]) == ('arg', 0)]
            at = [split(e.extra[0])[1:] for e in w]
            fmt = cstr(ctx.prog, w[0].extra[1]) if w and w[0].name == 'sprintf' else None
            if not w or at[0] != (0, ()) or (0, ()) in at[1:] or fmt is None or not fmt.startswith('%s') or w[0].extra[2] != ('arg', 1):
                ok = False
        cache[fn] = ok
    return cache[fn]


def check_log(ctx):
    """What a log function hands to the sink of its severity: the message, or a text that begins with it."""
    P = ctx.prog
    m = P.module('utils/logger.c')
    cache = {}
    for kind in ('error', 'warning'):
        setter = P.need('set_%s_log' % kind, m)
        cells = set()
        for p in ctx.paths(setter, LogPol()):
            if p.kind == 'ret':
                cells |= {k for k, v in p.state.mem.items() if v[0] == ('arg', 0) and isinstance(k[0], tuple) and k[0][0] == 'g'}
        ctx.ob('logged', 'set_%s_log' % kind, len(cells) == 1, 'libs/utils/logger.c (set_%s_log)' % kind, 'the sink is kept in %d places' % len(cells))
        if len(cells) != 1:
            continue
        cell = cells.pop()
        for name in ('log_auto_' + kind, 'log_system_' + kind, 'log_' + kind):
            f = P.need(name, m)
            ok, why, good = True, '', 0
            for p in ctx.paths(f, LogPol(), nonnull=[0]):
                if p.kind != 'ret':
                    continue
                outs = [e for e in p.events if e.name == '*indirect*']
                msg = [e for e in outs if says(ctx, p, e, m, cache)]
                if len(msg) == 1 and len(outs) == 1:
                    good += 1
                    c = msg[0].extra[0]
                    if not (isinstance(c, tuple) and c[0] == 'ld' and split(c[1]) == cell):
                        ok, why = False, 'the message goes to the sink of another severity'
                elif len(outs) > 1:
                    ok, why = False, 'the sink is called %d times' % len(outs)
                elif not refused(p):
                    ok, why = False, 'the message does not reach the sink'
            if ok and not good:
                ok, why = False, 'no message ever reaches the sink'
            ctx.ob('logged', name, ok, 'libs/utils/logger.c (%s)' % name, why)
        d = P.module('utils/logger.c').ginit(cell[0][1].split('@')[-1])[0]
        g = P.fn(d[1], m) if isinstance(d, tuple) and d[0] == 'fn' else None
        if not ctx.ob('logged', 'default ' + kind, g is not None, 'libs/utils/logger.c', 'there is no default sink'):
            continue
        ok, why, words = True, '', set()
        for p in ctx.paths(g, LogPol()):
            if p.kind != 'ret':
                continue
            prints = [e for e in p.events if e.name == 'fprintf']
            if not any(('arg', 1) in e.extra for e in p.events):
                ok, why = False, 'the message is not printed'
            outs = [e for e in p.events if ('arg', 1) in e.extra]
            if outs and not whole(ctx, P.fn(outs[0].name, m), outs[0].extra.index(('arg', 1))):
                ok, why = False, 'not the whole message is printed, or its line is not ended'
            if not any(('arg', 0) in e.extra for e in prints):
                ok, why = False, 'the tag is not printed'
            words |= {cstr(P, a) for e in prints for a in e.extra[2:]}
        want = {'error': 'ошибка', 'warning': 'предупреждение'}
        if ok and (want[kind] not in words or {w for k, w in want.items() if k != kind} & words):
            ok, why = False, 'the severity printed is %s' % sorted(map(str, words))
        ctx.ob('logged', 'sink ' + kind, ok, 'libs/utils/logger.c (%s)' % g.name, why)


class LinePol(Policy):
    cut_after = 2
    max_states = 20000

    def cut_back(self, fn):
        return 'always'

    def decide(self, it, st, name, args, fn):
        if name in ('fprintf', 'fputc', 'fputs', 'putc'):
            return 'event'
        return 'opaque'


def whole(ctx, fn, n):
    """The function prints every character of its n-th argument in order and ends the line."""
    P = ctx.prog
    if fn is None:
        return True
    for p in ctx.paths(fn, LinePol()):
        if p.kind != 'ret':
            continue
        upto, ended = 0, False
        for e in p.events:
            if e.name != 'fprintf':
                continue
            fmt = cstr(P, e.extra[1])
            a = e.extra[2] if len(e.extra) > 2 else None
            if fmt == '\n':
                ended = True
            elif fmt and '%s' in fmt and a is not None and not is_c(a) and split(a)[0] == ('arg', n):
                b, o, d = split(a)
                if not d and o != upto:
                    return False
                ended, upto = fmt.endswith('\n'), None
                break
            elif fmt == '%c' and a is not None and isinstance(a, tuple):
                s = repr(a)
                k = at(a, n)
                if k is not None:
                    if k != upto:
                        return False
                    upto += 1
        if not ended:
            return False
        if upto is not None and not any(at(t, n) == upto and v == 0 for t, v in p.facts.eq.items()):
            return False
    return True


def at(t, n):
    """The index of the character of argument n a term is."""
    while isinstance(t, tuple) and t[0] == 'cast':
        t = t[4]
    if isinstance(t, tuple) and t[0] == 'ld':
        b, o, d = split(t[1])
        if b == ('arg', n) and not d:
            return o
    return None


def says(ctx, p, out, m, cache):
    t = out.extra[2] if len(out.extra) > 2 else None
    if t == ('arg', 1):
        return True
    for e in p.events[:p.events.index(out)]:
        if len(e.extra) > 1 and e.extra[0] == t and e.extra[1] == ('arg', 1) and e.name != 'sprintf':
            return writer(ctx, ctx.prog.fn(e.name, m), cache)
        if e.name == 'sprintf' and e.extra[0] == t and ('arg', 1) in e.extra:
            return True
    return False

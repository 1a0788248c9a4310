"""Trace-partitioned abstract interpretation over SSA.

Values are value-numbered terms; conditional branches whose condition is not decided by the facts already known on a
trace partition split the partition.  Loops are cut by widening: on the first undecided back edge every value the loop
can change is replaced by an unconstrained loop value, the second arrival is subsumed.  No constraint solver is used and
nothing of the program is executed: facts are equalities, exclusions and constant ranges of terms.

Terms
  int                     integer / null constant
  ('f', x)                floating constant
  ('arg', i)              i-th parameter of the analysed root function
  ('g', name) ('fn', n)   address of a global / function
  ('al', uid)             address of a local object
  ('ptr', base, off, dyn) address: base + off + sum(term*scale for dyn)
  ('ld', addr, ep)        content of memory nobody wrote on this partition
  ('call', f, args, ep)   result of a call that was not inlined
  ('ext', t, i)           member i of a struct-valued call
  ('fld', t, off)         bytes at off of a struct value returned through memory
  ('agg', (..))           struct value
  ('op', o, ty, a, b)     arithmetic;   ('cast', o, from, to, a)
  ('cmp', p, a, b)        p in eq ult slt / foeq...;   ('not', c)
  ('lv', ..)              widened loop value
  ('obj', ((off, v)..))   snapshot of a local object passed by address
"""
from .program import AnalysisError

NEG = {'ne': 'eq', 'uge': 'ult', 'sge': 'slt'}

LIBC_PURE = {'strlen', 'strcmp', 'strncmp', 'strchr', 'strstr', 'strrchr', 'memcmp', 'isdigit', 'isalpha', 'isspace',
             'tolower', 'toupper', 'abs', 'labs', 'fabs', 'pow', 'floor', 'ceil', 'strtol', 'atoi', '__ctype_b_loc',
             'llvm.fabs.f64', 'llvm.abs.i64', 'llvm.abs.i32', 'llvm.floor.f64', 'llvm.fmuladd.f64', 'feof', 'fileno',
             'strtod', 'ftell', 'llvm.umin.i64', 'llvm.umax.i64', 'llvm.is.constant.i64'}
NORETURN = {'abort', 'exit', '__assert_fail', '_exit'}


def is_c(t):
    return isinstance(t, int)


def sgn(v, w):
    if w >= 64:
        v &= (1 << w) - 1
        return v - (1 << w) if v >> (w - 1) else v
    v &= (1 << w) - 1
    if w == 1:
        return v
    return v - (1 << w) if v >> (w - 1) else v


def uns(v, w=64):
    return v & ((1 << w) - 1)


def mkptr(base, off, dyn=()):
    if isinstance(base, tuple) and base[0] == 'ptr':
        return mkptr(base[1], base[2] + off, tuple(sorted(base[3] + tuple(dyn), key=repr)))
    if is_c(base):
        if not dyn:
            return base + off
    if off == 0 and not dyn:
        return base
    return ('ptr', base, off, tuple(dyn))


def split(addr):
    if isinstance(addr, tuple) and addr[0] == 'ptr':
        return addr[1], addr[2], addr[3]
    return addr, 0, ()


def base_of(addr):
    return split(addr)[0]


class Facts:
    """Equalities, exclusions and unsigned/signed constant ranges per term; copied on split."""
    __slots__ = ('eq', 'ne', 'rng', 'log')

    def __init__(self):
        self.eq = {}
        self.ne = {}
        self.rng = {}
        self.log = ()

    def copy(self):
        f = Facts()
        f.eq = dict(self.eq)
        f.ne = dict(self.ne)
        f.rng = dict(self.rng)
        f.log = self.log
        return f


class Event:
    __slots__ = ('kind', 'name', 'args', 'res', 'line', 'fn', 'stack', 'facts', 'extra', 'cap', 'st')

    def __init__(self, kind, name, args, res, line, fn, stack, facts, extra=None):
        self.kind, self.name, self.args, self.res = kind, name, args, res
        self.line, self.fn, self.stack, self.facts, self.extra = line, fn, stack, facts, extra
        self.cap = None

    def where(self):
        return '%s:%s (%s)' % (self.fn.file, self.line, self.fn.name)

    def __repr__(self):
        return '%s%r' % (self.name, self.args)


class Frame:
    __slots__ = ('fn', 'env', 'args', 'call', 'bb', 'prev', 'pc', 'loops', 'uid')

    def copy(self):
        f = Frame()
        f.fn, f.args, f.call, f.bb, f.prev, f.pc, f.uid = self.fn, self.args, self.call, self.bb, self.prev, self.pc, self.uid
        f.env = dict(self.env)
        f.loops = dict(self.loops)
        return f


class State:
    __slots__ = ('frames', 'mem', 'deflt', 'tags', 'epoch', 'facts', 'events', 'user', 'uid')

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.deflt = dict(self.deflt)
        s.tags = dict(self.tags)
        s.epoch = dict(self.epoch)
        s.facts = self.facts.copy()
        s.events = list(self.events)
        s.user = self.user.copy() if hasattr(self.user, 'copy') else self.user
        s.uid = self.uid
        return s


class Path:
    __slots__ = ('events', 'facts', 'ret', 'state', 'kind', 'line')


class Policy:
    """How calls are treated. decide() returns one of 'event' 'inline' 'opaque' or ('value', term)."""
    events = frozenset()
    opaque = frozenset()
    joins = False           # follow states that agree at a join of the root function only once
    max_depth = 24
    max_rec = 0
    max_states = 20000
    max_steps = 3000000
    unroll = 600
    unroll_forked = 1
    unroll_counted = 300
    counted_forks = 0       # iterations of a loop with a known bound and undecided branches inside
    record_facts = True
    record_back = False
    cut_after = 0           # with cut_back 'always': rounds followed before the cut

    stable = frozenset()    # cells no call changes
    monotone = frozenset()  # cells whose value is a lower bound that a loop keeps
    cut_header = None       # (function, header): a partition ends when it comes back to this loop of the root

    def midway(self, ins):
        """What a register holds when the analysis starts in the middle of a function (None: anything)."""
        return None

    def eager(self, fn):
        """Widen loops of fn on entry (one generic iteration) instead of after the first concrete one."""
        return False

    def widen_loop(self, st, fr, header):
        """With eager: widen at this arrival."""
        return True

    def go_round(self, st, fr, header):
        """With eager: follow the loop round once more, as it is."""
        return False

    def cut_back(self, fn):
        """End the partition at the first data-dependent back edge (what follows is the same loop again)."""
        return False

    def decide(self, interp, state, name, args, fn):
        if name in self.events:
            return 'event'
        if name in self.opaque or fn is None:
            return 'opaque'
        return 'inline'

    def assume(self, interp, state, term):
        """Constant for a call term (specialisation), or None."""
        return None

    def readonly_arg(self, name, n):
        """The callee takes its n-th argument as a pointer to const."""
        return False

    def rec_limit(self, fn):
        return self.max_rec

    def capture(self, interp, state, name, args):
        """Extra data to keep with an event (memory at the call)."""
        return None

    def keeps(self, st, key):
        """A cell that calls do not change (further ones beside `stable`)."""
        return False

    def on_store(self, interp, state, addr, val, ty, ins):
        pass

    def on_load(self, interp, state, addr, ty):
        pass

    def effect(self, interp, state, name, args, term):
        """Memory effect of an event (a case of the case split over what the callee leaves behind); may return further
        cases, as functions that change a copy of the state."""


class Summaries:
    """Transitive MOD / REF sets: record members (struct, index) that a function may write / read; '*' = other memory."""

    def __init__(self, prog):
        self.prog = prog
        self.direct = {}
        self.mod = {}
        self.ref = {}
        self.calls = {}
        for m in prog.modules.values():
            for f in m.functions.values():
                if not f.decl:
                    self._scan(f)
        ch = True
        while ch:
            ch = False
            for f in self.mod:
                for c in self.calls[f]:
                    if c not in self.mod:
                        continue
                    if not self.mod[c] <= self.mod[f]:
                        self.mod[f] |= self.mod[c]
                        ch = True
                    if not self.ref[c] <= self.ref[f]:
                        self.ref[f] |= self.ref[c]
                        ch = True

    def _scan(self, f):
        mod, ref, calls = set(), set(), set()
        src = {}
        for i in f.instrs():
            src[i.name] = i

        def tag(op, depth=0):
            if depth > 30:
                return '*'
            if isinstance(op, tuple):
                if op[0] == 'l':
                    i = src.get(op[1])
                    if i is None:
                        return '*'
                    if i.op == 'alloca':
                        return None
                    if i.op == 'gep':
                        b = tag(i.ops[0], depth + 1)
                        if b is None:
                            return None
                        if i.x.kind == 'struct' and len(i.ops) >= 3 and is_c(i.ops[2]) and i.x.name:
                            t = i.x
                            k = i.ops[2]
                            for nx in i.ops[3:]:
                                e = t.elems[k]
                                if e.kind == 'struct' and e.name and is_c(nx):
                                    t, k = e, nx
                                else:
                                    break
                            return (t.name, k)
                        if isinstance(b, tuple):
                            return b if b[0] != 'g' else b
                        return '*'
                    if i.op == 'phi' or i.op == 'select':
                        return '*'
                    return '*'
                if op[0] == 'g':
                    return ('g', op[1])
                if op[0] == 'ce' and op[1] == 'gep':
                    return tag(op[3][0], depth + 1)
            return '*'

        for i in f.instrs():
            if i.op == 'store':
                t = tag(i.ops[1])
                if t is not None:
                    mod.add(t)
            elif i.op == 'load':
                t = tag(i.ops[0])
                if t is not None:
                    ref.add(t)
            elif i.op == 'call':
                if isinstance(i.x, str):
                    g = self.prog.fn(i.x, f.mod)
                    if g is not None:
                        calls.add(g)
                    elif i.x.startswith('llvm.memcpy') or i.x.startswith('llvm.memmove'):
                        t = tag(i.ops[0])
                        if t is not None:
                            mod.add('*' if t == '*' else t)
                        t = tag(i.ops[1])
                        if t is not None:
                            ref.add(t)
                    elif i.x.startswith('llvm.memset'):
                        t = tag(i.ops[0])
                        if t is not None:
                            mod.add(t)
                    elif i.x in LIBC_PURE or i.x.startswith('llvm.va_') or i.x in NORETURN:
                        ref.add('*')
                    elif i.x in ('malloc', 'calloc', 'realloc', 'free'):
                        mod.add('heap')
                    else:
                        mod.add('*')
                        mod.add('io')
                        ref.add('*')
                else:
                    mod.add('*')
                    mod.add('icall')
                    ref.add('*')
        self.mod[f], self.ref[f], self.calls[f] = mod, ref, calls
        self.direct[f] = set(mod)

    def direct_mod(self, f):
        """What f itself writes, without its callees."""
        return self.direct[f]

    def readonly(self, f):
        return not self.mod[f]

    _NOCAP = {'strlen': '', 'strcmp': '', 'strncmp': '', 'memcmp': '', 'strchr': 'c', 'strstr': 'c', 'strrchr': 'c',
              'printf': '', 'puts': '', 'atoi': '', 'strcpy': 'w', 'strcat': 'w', 'strncpy': 'w', 'sprintf': 'w',
              'snprintf': 'w', 'fprintf': '', 'fopen': '', 'fputs': '', 'vsprintf': 'w', 'vprintf': ''}

    def param(self, f, k):
        """'w' if memory reached from parameter k may be written, 'c' if the address may be kept."""
        if not hasattr(self, '_par'):
            self._par, self._loc = {}, {}
        key = (f, k)
        if key not in self._par:
            seen, todo, out = {key}, [key], set()
            while todo:
                x = todo.pop()
                if x not in self._loc:
                    self._loc[x] = self._param_local(*x)
                o, edges = self._loc[x]
                out |= o
                for e in edges:
                    if e not in seen:
                        seen.add(e)
                        todo.append(e)
            self._par[key] = ''.join(sorted(out))
        return self._par[key]

    def _param_local(self, f, k):
        """What f itself does with parameter k, and the parameters of others it hands it to."""
        edges = set()
        der = {('a', k)}
        slots = set()
        out = set()
        ch = True
        while ch:
            ch = False
            for i in f.instrs():
                for n, o in enumerate(i.ops):
                    if o not in der:
                        continue
                    if i.op in ('gep', 'phi', 'select', 'bitcast', 'freeze'):
                        if ('l', i.name) not in der:
                            der.add(('l', i.name))
                            ch = True
                    elif i.op == 'store':
                        if n == 1:
                            out.add('w')
                        else:
                            out.add('c')
                    elif i.op == 'call':
                        if isinstance(i.x, str):
                            g = self.prog.fn(i.x, f.mod)
                            if g is not None:
                                if n < g.nparams:
                                    edges.add((g, n))
                                else:
                                    out |= {'w', 'c'}
                            elif i.x.startswith('llvm.memcpy') or i.x.startswith('llvm.memmove'):
                                if n == 0:
                                    out.add('w')
                            elif i.x.startswith('llvm.memset'):
                                out.add('w')
                            elif i.x.startswith('llvm.lifetime') or i.x.startswith('llvm.dbg') \
                                    or i.x.startswith('llvm.va_'):
                                pass
                            elif i.x in self._NOCAP:
                                x = self._NOCAP[i.x]
                                if 'w' in x and n == 0:
                                    out.add('w')
                                if 'c' in x:
                                    out.add('c')
                            else:
                                out |= {'w', 'c'}
                        else:
                            out |= {'w', 'c'}
                    elif i.op in ('ret', 'ptrtoint', 'insertvalue'):
                        out.add('c')
                if i.op == 'phi' and ('l', i.name) not in der and any(v in der for v in i.x.values()):
                    der.add(('l', i.name))
                    ch = True
        return out, edges


def summaries(prog):
    if prog._summ is None:
        prog._summ = Summaries(prog)
    return prog._summ


class Interp:
    def __init__(self, prog, policy):
        self.prog = prog
        self.pol = policy
        self.summ = summaries(prog)
        self.steps = 0
        self.nstates = 0
        self.cuts = 0
        self._uid = 0

    # ---- entry -----------------------------------------------------------
    def run(self, fn, args=None, mem=None, facts=None, user=None, deflt=None, nonnull=(), tags=None, start=None):
        self.root = fn
        self.joined, self._liveness = set(), {}
        st = State()
        st.mem, st.deflt, st.tags, st.epoch, st.facts, st.events = {}, {}, {}, {}, Facts(), []
        st.user = user
        st.uid = 0
        if mem:
            st.mem.update(mem)
        if tags:
            st.tags.update(tags)
        if deflt:
            st.deflt.update(deflt)
        if facts:
            for t, v in facts.items():
                st.facts.eq[t] = v
        for k in nonnull:
            st.facts.ne[('arg', k)] = frozenset({0})
        st.facts.ne[('sx',)] = frozenset({0})
        a = [('arg', k) for k in range(fn.nparams)]
        if args:
            for k, v in args.items():
                a[k] = v
        st.frames = [self._frame(fn, a, None, st)]
        if start:
            self._midway(st, st.frames[0], *start)
        self.results = []
        work = [st]
        while work:
            s = work.pop()
            try:
                self._run_state(s, work)
            except RecursionError:
                raise AnalysisError('term too deep in %s' % fn.name)
            if self.steps > self.pol.max_steps or self.nstates > self.pol.max_states or len(work) > 4000:
                raise AnalysisError('state budget exceeded analysing %s (%d steps, %d partitions)'
                                    % (fn.name, self.steps, self.nstates))
        return self.results

    def _midway(self, st, fr, bb, pc):
        """Start at an instruction: registers that are not addresses hold anything."""
        for b in fr.fn.blocks:
            for i in b.instrs:
                if not i.name:
                    continue
                if i.op in ('alloca', 'gep') and all(o[0] != 'l' or o[1] in fr.env for o in i.ops if isinstance(o, tuple)):
                    self._simple(st, fr, i)
                else:
                    st.uid += 1
                    v = self.pol.midway(i)
                    fr.env[i.name] = ('lv', fr.fn.name, i.name, st.uid) if v is None else v
        fr.bb, fr.pc = bb, pc
        fr.loops = {h: (0, 0, 'w', False) for h, body in fr.fn.loops.items() if bb.idx in body}

    def _frame(self, fn, args, call, st):
        f = Frame()
        f.fn, f.args, f.call = fn, args, call
        f.env, f.loops = {}, {}
        f.bb, f.prev, f.pc = fn.blocks[0], None, 0
        st.uid += 1
        f.uid = st.uid
        return f

    # ---- operand evaluation -------------------------------------------------
    def val(self, st, fr, op):
        if isinstance(op, int):
            return op
        k = op[0]
        if k == 'l':
            return fr.env.get(op[1], ('undef',))
        if k == 'a':
            return fr.args[op[1]]
        if k in ('f', 'g', 'fn', 'undef', 'zero'):
            return op
        if k == 'ce':
            return self.constexpr(op)
        return op

    def constexpr(self, op):
        _, o, ty, ops = op
        vs = [self.constexpr(x) if isinstance(x, tuple) and x[0] == 'ce' else x for x in ops]
        if o == 'gep':
            return self.gep(ty, vs[0], vs[1:])
        if o in ('bitcast', 'inttoptr', 'ptrtoint'):
            return vs[0]
        return ('ceop', o, tuple(vs))

    def gep(self, ty, base, idx):
        off = 0
        dyn = []
        cur = ty
        for n, ix in enumerate(idx):
            if n == 0:
                sz = ty.size
                nxt = ty
            elif cur.kind == 'struct':
                off += cur.offsets[ix]
                cur = cur.elems[ix]
                continue
            elif cur.kind in ('array', 'vec'):
                nxt = cur.elem
                sz = nxt.size
            else:
                raise AnalysisError('gep over ' + repr(cur))
            if is_c(ix):
                off += ix * sz
            else:
                c, rest = self._lin(ix)
                off += c * sz
                if rest is not None:
                    dyn.append((rest, sz))
            cur = nxt
        return mkptr(base, off, tuple(dyn))

    @staticmethod
    def _lin(t):
        if isinstance(t, tuple) and t[0] == 'op' and t[1] == 'add' and is_c(t[4]):
            return t[4], t[3]
        if isinstance(t, tuple) and t[0] == 'op' and t[1] == 'sub' and is_c(t[4]):
            return -t[4], t[3]
        return 0, t

    # ---- facts ---------------------------------------------------------------
    def truth(self, st, c):
        """1/0/None."""
        if is_c(c):
            return 1 if c else 0
        if isinstance(c, tuple) and c[0] == 'not':
            r = self.truth(st, c[1])
            return None if r is None else 1 - r
        F = st.facts
        if c in F.eq:
            return 1 if F.eq[c] else 0
        if isinstance(c, tuple) and c[0] == 'cmp':
            _, p, a, b = c
            ea = F.eq.get(a, a) if not is_c(a) else a
            eb = F.eq.get(b, b) if not is_c(b) else b
            if is_c(ea) and is_c(eb):
                return self._cmpc(p, ea, eb)
            if ea == eb and p in ('eq', 'ult', 'slt'):
                return 1 if p == 'eq' else 0
            if p == 'eq':
                x, y = (ea, eb) if is_c(eb) else (eb, ea)
                if is_c(y):
                    if y in F.ne.get(x, ()):
                        return 0
                    r = F.rng.get(x)
                    if r and not (r[0] <= uns(y) <= r[1]):
                        return 0
                    if r and r[0] == r[1] == uns(y):
                        return 1
                    if y == 0 and isinstance(x, tuple) and x[0] in ('al', 'g', 'fn', 'heap'):
                        return 0
                    if y == 0 and isinstance(x, tuple) and x[0] == 'ptr' and base_of(x)[0] in ('al', 'g', 'heap'):
                        return 0
                elif isinstance(ea, tuple) and isinstance(eb, tuple) and ea[0] == 'al' and eb[0] in ('al', 'g') and ea != eb:
                    return 0
            elif p == 'ult':
                ra, rb = self._rng(F, ea), self._rng(F, eb)
                if ra and rb:
                    if ra[1] < rb[0]:
                        return 1
                    if ra[0] >= rb[1]:
                        return 0
            elif p == 'slt':
                ra, rb = self._rng(F, ea), self._rng(F, eb)
                M = (1 << 63) - 1
                if ra and rb and ra[1] <= M and rb[1] <= M:
                    if ra[1] < rb[0]:
                        return 1
                    if ra[0] >= rb[1]:
                        return 0
                if ra and is_c(eb) and ra[1] <= M and eb < 0:
                    return 0
        return None

    @staticmethod
    def _rng(F, t):
        if is_c(t):
            return (uns(t), uns(t))
        r = F.rng.get(t)
        if r:
            return r
        if isinstance(t, tuple) and t[0] == 'cast' and t[1] == 'zext' and isinstance(t[2], int):
            r = Interp._rng(F, t[4])
            return r if r and r[1] < (1 << t[2]) else (0, (1 << t[2]) - 1)
        if isinstance(t, tuple) and t[0] == 'op' and t[1] in ('add', 'mul') and t[2] == 'i64':
            a, b = Interp._rng(F, t[3]), Interp._rng(F, t[4])
            if a and b:
                lo, hi = (a[0] + b[0], a[1] + b[1]) if t[1] == 'add' else (a[0] * b[0], a[1] * b[1])
                if hi < (1 << 64):
                    return (lo, hi)
        return None

    @staticmethod
    def _cmpc(p, a, b):
        if p == 'eq':
            return int(a == b)
        if p == 'ult':
            return int(uns(a) < uns(b))
        if p == 'slt':
            return int(a < b)
        return None

    def add_fact(self, st, c, v):
        """Record that boolean term c has truth v."""
        if is_c(c):
            return
        while isinstance(c, tuple) and c[0] == 'not':
            c, v = c[1], 1 - v
        F = st.facts
        F.eq[c] = v
        if self.pol.record_facts:
            F.log = F.log + ((c, v),)
        if isinstance(c, tuple) and c[0] == 'cmp':
            _, p, a, b = c
            if p == 'eq':
                if is_c(a):
                    a, b = b, a
                if is_c(b):
                    if v:
                        F.eq[a] = b
                    else:
                        F.ne[a] = F.ne.get(a, frozenset()) | {b}
                        r = F.rng.get(a)
                        if r and uns(b) == r[0]:
                            F.rng[a] = (r[0] + 1, r[1])
                        elif r and uns(b) == r[1]:
                            F.rng[a] = (r[0], r[1] - 1)
                    if a != 0 and isinstance(a, tuple) and a[0] == 'cast' and a[1] in ('zext', 'sext'):
                        if v:
                            F.eq[a[4]] = b
            elif p in ('ult', 'slt'):
                FULL = (0, (1 << 64) - 1)
                if p == 'slt':
                    # only useful as unsigned range when both known non-negative
                    def nonneg(t):
                        if is_c(t):
                            return t >= 0
                        r = self._rng(F, t)
                        return bool(r) and r[1] < (1 << 63)
                    if is_c(b) and b >= 0 and not v:      # a >= b >= 0
                        r = F.rng.get(a, FULL)
                        F.rng[a] = (max(r[0], b), min(r[1], (1 << 63) - 1))
                        return
                    if is_c(a) and a >= -1 and v:         # b > a >= -1
                        r = F.rng.get(b, FULL)
                        F.rng[b] = (max(r[0], a + 1), min(r[1], (1 << 63) - 1))
                        return
                    if is_c(b) and nonneg(a) and v:
                        r = F.rng.get(a, FULL)
                        F.rng[a] = (r[0], min(r[1], max(b - 1, 0)))
                    elif is_c(a) and nonneg(b) and not v:   # b <= a
                        r = F.rng.get(b, FULL)
                        F.rng[b] = (r[0], min(r[1], a))
                    return
                if is_c(b):
                    r = F.rng.get(a, FULL)
                    ub = uns(b)
                    F.rng[a] = (r[0], min(r[1], ub - 1)) if v else (max(r[0], ub), r[1])
                elif is_c(a):
                    r = F.rng.get(b, FULL)
                    ua = uns(a)
                    F.rng[b] = (max(r[0], ua + 1), r[1]) if v else (r[0], min(r[1], ua))

    # ---- comparisons / arithmetic -------------------------------------------
    def cmp(self, p, a, b, w):
        if p in ('ne', 'uge', 'sge'):
            return self.neg(self.cmp(NEG[p], a, b, w))
        if p in ('ugt', 'sgt'):
            return self.cmp('ult' if p == 'ugt' else 'slt', b, a, w)
        if p in ('ule', 'sle'):
            return self.neg(self.cmp('ult' if p == 'ule' else 'slt', b, a, w))
        if is_c(a) and is_c(b):
            return self._cmpc(p, a, b)
        if p == 'eq':
            if a == b:
                return 1
            if is_c(a):
                a, b = b, a
            if is_c(b) and isinstance(a, tuple):
                if a[0] == 'pos':
                    return 0
                if a[0] == 'cast' and a[1] == 'zext' and a[2] == 1:
                    inner = a[4]
                    if b == 0:
                        return self.neg(inner)
                    if b == 1:
                        return inner
                    return 0
                if a[0] == 'cast' and a[1] == 'trunc' and a[3] == 1:
                    pass
                if a[0] in ('cmp', 'not') and w == 1:
                    return a if b else self.neg(a)
                if a[0] == 'cast' and a[1] == 'zext' and is_c(b) and b >= 0 and isinstance(a[2], int) and b < (1 << (a[2] - 1)):
                    return self.cmp('eq', a[4], b, a[2])
                if a[0] == 'cast' and a[1] == 'sext' and isinstance(a[2], int) and -(1 << (a[2] - 1)) <= b < (1 << (a[2] - 1)):
                    return self.cmp('eq', a[4], b, a[2])
                if a[0] == 'op' and a[1] == 'add' and is_c(a[4]):
                    return self.cmp('eq', a[3], sgn(b - a[4], w), w)
                if a[0] == 'op' and a[1] == 'sub' and is_c(a[4]):
                    return self.cmp('eq', a[3], sgn(b + a[4], w), w)
                if b == 0 and (a[0] in ('al', 'g', 'fn', 'heap') or (a[0] == 'ptr' and base_of(a)[0] in ('al', 'g', 'heap'))):
                    return 0
            elif repr(b) < repr(a):
                a, b = b, a
        elif a == b:
            return 0
        elif p == 'ult' and is_c(b) and uns(b, w or 64) == 0:
            return 0
        elif p == 'ult' and is_c(b) and b == 1:
            return self.cmp('eq', a, 0, w)
        elif p == 'ult' and is_c(a) and a == 0:
            return self.neg(self.cmp('eq', b, 0, w))
        if p in ('ult', 'slt'):
            # compare through widening casts with constants
            for x, y, flip in ((a, b, False), (b, a, True)):
                if is_c(y) and isinstance(x, tuple) and x[0] == 'cast' and x[1] == 'zext' and isinstance(x[2], int) \
                        and x[2] > 1 and 0 <= y < (1 << (x[2] - 1)):
                    return self.cmp('ult', y if flip else x[4], x[4] if flip else y, x[2])
        return ('cmp', p, a, b)

    def neg(self, c):
        if is_c(c):
            return 0 if c else 1
        if isinstance(c, tuple) and c[0] == 'not':
            return c[1]
        return ('not', c)

    def arith(self, o, ty, a, b):
        w = ty.width if ty.kind == 'int' else None
        if w and is_c(a) and is_c(b):
            ua, ub = uns(a, w), uns(b, w)
            try:
                r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: ua & ub,
                     'or': lambda: ua | ub, 'xor': lambda: ua ^ ub,
                     'shl': lambda: ua << ub if ub < w else None,
                     'lshr': lambda: ua >> ub if ub < w else None,
                     'ashr': lambda: a >> ub if ub < w else None,
                     'udiv': lambda: ua // ub if ub else None, 'urem': lambda: ua % ub if ub else None,
                     'sdiv': lambda: int(abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1) if b else None,
                     'srem': lambda: (abs(a) % abs(b)) * (-1 if a < 0 else 1) if b else None}[o]()
                if r is not None:
                    return sgn(r, w)
            except KeyError:
                pass
            return ('op', o, repr(ty), a, b)
        if w == 1 and o == 'xor':
            if is_c(b):
                return self.neg(a) if b & 1 else a
            if is_c(a):
                return self.neg(b) if a & 1 else b
        if o in ('add', 'mul', 'and', 'or', 'xor', 'fadd', 'fmul') and is_c(a) and not is_c(b):
            a, b = b, a
        if o == 'add' and isinstance(b, tuple) and b[0] == 'op' and b[1] == 'sub' and b[3] == 0 and b[2] == repr(ty):
            return self.arith('sub', ty, a, b[4])
        if o in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr') and b == 0:
            return a
        if o == 'mul' and b == 1:
            return a
        if o == 'and' and b == 0:
            return 0
        if o == 'mul' and b == 0:
            return 0
        if o == 'and' and b == -1:
            return a
        if o == 'sub' and a == b and is_c(0) and w:
            return 0
        if o == 'sub' and is_c(b) and w:
            return self.arith('add', ty, a, sgn(-b, w))
        if o == 'add' and is_c(b) and isinstance(a, tuple) and a[0] == 'op' and a[1] == 'add' and is_c(a[4]):
            return self.arith('add', ty, a[3], sgn(a[4] + b, w))
        if o == 'shl' and is_c(b) and w and 0 < b < w:
            return self.arith('mul', ty, a, sgn(1 << b, w))
        if o in ('mul', 'and', 'or', 'xor', 'add', 'fadd', 'fmul') and not is_c(b) and repr(b) < repr(a):
            a, b = b, a
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'f' and b[0] == 'f':
            try:
                x, y = a[1], b[1]
                return ('f', {'fadd': x + y, 'fsub': x - y, 'fmul': x * y}[o])
            except KeyError:
                pass
        # i1 and/or with constants
        if w == 1:
            if o == 'and' and b == 1:
                return a
            if o == 'or' and is_c(b) and b:
                return 1
        return ('op', o, repr(ty), a, b)

    def cast(self, o, src, dst, a):
        fw = src.width if src.kind == 'int' else src.kind
        tw = dst.width if dst.kind == 'int' else dst.kind
        if is_c(a):
            if o == 'zext':
                return sgn(uns(a, fw), tw) if tw else uns(a, fw)
            if o == 'sext':
                return -a if fw == 1 and a else a
            if o == 'trunc':
                return sgn(a, tw)
            if o in ('ptrtoint', 'inttoptr', 'bitcast'):
                return a
            if o in ('sitofp',):
                return ('f', float(a))
            if o in ('uitofp',):
                return ('f', float(uns(a, fw)))
        if o in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            return a
        if isinstance(a, tuple) and a[0] == 'cast':
            _, o2, f2, t2, b = a
            if o == 'trunc' and o2 in ('zext', 'sext'):
                if f2 == tw:
                    return b
                if isinstance(f2, int) and f2 < tw:
                    return ('cast', o2, f2, tw, b)
                if isinstance(f2, int) and f2 > tw:
                    return ('cast', 'trunc', f2, tw, b)
            if o == o2 and o in ('zext', 'sext', 'trunc'):
                return ('cast', o, f2, tw, b)
            if o == 'sext' and o2 == 'zext':
                return ('cast', 'zext', f2, tw, b)
        if o == 'trunc' and isinstance(a, tuple) and a[0] == 'op' and a[1] in ('add', 'mul', 'and', 'or', 'xor') and is_c(a[4]) \
                and tw != 1 and False:
            pass
        return ('cast', o, fw, tw, a)

    # ---- memory ---------------------------------------------------------------
    def load(self, st, addr, ty, tag=None):
        if ty.kind == 'struct':
            return ('agg', tuple(self.load(st, mkptr(addr, o), e) for o, e in zip(ty.offsets, ty.elems)))
        if isinstance(addr, tuple) and addr[0] == 'undef':
            return ('undef',)
        k = split(addr)
        c = st.mem.get(k)
        if c is not None:
            v, sz = c
            if sz == ty.size:
                return v
            if is_c(v) and ty.kind == 'int' and ty.size < sz:
                return sgn(v, ty.width)
            if v == ('zero',) or v == 0:
                return 0
            return ('part', v, ty.size)
        base, off, dyn = k
        # containing cell?
        if base in st.deflt:
            d = st.deflt[base]
            if d == ('zero',):
                return 0 if ty.kind != 'double' else ('f', 0.0)
            if d[0] == 'objof':
                return self.load(st, mkptr(d[1], off - d[2], dyn), ty)
            if not dyn:
                return ('fld', d, off)
            return ('fldx', d, off, dyn)
        if isinstance(base, tuple) and base[0] == 'g':
            v = self.gload(base[1], off, dyn, ty)
            if v is not None:
                return v
        if isinstance(base, tuple) and base[0] == 'al' and not st.tags.get(('esc', base)) \
                and not st.tags.get(('wr', base)):
            return ('undef', addr)
        t = st.tags.get(k)
        v = ('ld', addr, self.ep(st, t if t else tag, base))
        if isinstance(v, tuple) and ty.kind == 'int' and ty.width < 64 and False:
            pass
        st.mem[k] = (v, ty.size)
        if tag and k not in st.tags:
            st.tags[k] = tag
        return v

    def ep(self, st, tag, base):
        if isinstance(base, tuple) and base[0] == 'al':
            return ('l', st.epoch.get(('al', base), 0))
        return st.epoch.get(tag or '*', 0)

    def gload(self, gname, off, dyn, ty):
        init, const, gty = self.prog.global_init(gname)
        if init is None or dyn or not const:
            return None
        v = init
        t = gty
        while True:
            if v == ('zero',) or v == 0:
                return 0 if ty.kind != 'double' else ('f', 0.0)
            if isinstance(v, tuple) and v[0] == 'str':
                if 0 <= off < len(v[1]) and ty.kind == 'int':
                    n = int.from_bytes(v[1][off:off + ty.size], 'little')
                    return sgn(n, ty.width)
                return None
            if isinstance(v, tuple) and v[0] == 'agg':
                if t.kind == 'struct':
                    for k in range(len(t.elems) - 1, -1, -1):
                        if t.offsets[k] <= off:
                            off -= t.offsets[k]
                            v, t = v[1][k], t.elems[k]
                            break
                    continue
                n = off // t.elem.size
                if n >= len(v[1]):
                    return None
                off -= n * t.elem.size
                v, t = v[1][n], t.elem
                continue
            if off:
                return None
            if isinstance(v, tuple) and v[0] == 'ce':
                return self.constexpr(v)
            return v

    def store(self, st, addr, val, ty, tag=None):
        if isinstance(val, tuple) and val[0] == 'agg' and ty.kind == 'struct':
            for o, e, v in zip(ty.offsets, ty.elems, val[1]):
                self.store(st, mkptr(addr, o), v, e)
            return
        if ty.kind == 'struct':
            for n, (o, e) in enumerate(zip(ty.offsets, ty.elems)):
                self.store(st, mkptr(addr, o), ('ext', val, n), e)
            return
        k = split(addr)
        base, off, dyn = k
        self.kill(st, base, off, ty.size, dyn)
        st.mem[k] = (val, ty.size)
        if tag:
            st.tags[k] = tag
        if not (isinstance(base, tuple) and base[0] == 'al'):
            t = tag or '*'
            st.epoch[t] = st.epoch.get(t, 0) + 1
        else:
            # a pointer to a local stored elsewhere escapes
            pass
        if isinstance(val, tuple) and val[0] in ('al', 'ptr'):
            b = base_of(val)
            if isinstance(b, tuple) and b[0] == 'al' and not (isinstance(base, tuple) and base[0] == 'al'):
                st.tags[('esc', b)] = True

    def kill(self, st, base, off, size, dyn):
        dead = []
        for k, (v, sz) in st.mem.items():
            if k[0] != base:
                continue
            if k[2] != dyn:
                if dyn or k[2]:
                    dead.append(k)
                continue
            if k[1] < off + size and off < k[1] + sz and not (k[1] == off and sz == size):
                dead.append(k)
        for k in dead:
            del st.mem[k]

    def memcpy(self, st, dst, src, n):
        db, do, dd = split(dst)
        sb, so, sd = split(src)
        if not is_c(n):
            for k in [k for k in st.mem if k[0] == db]:
                del st.mem[k]
            st.deflt.pop(db, None)
            st.tags[('esc', db)] = True
            return
        cells = [(k, v) for k, v in st.mem.items() if k[0] == sb and k[2] == sd and so <= k[1] < so + n]
        for k in [k for k in st.mem if k[0] == db and k[2] == dd and do <= k[1] < do + n]:
            del st.mem[k]
        for (b, o, d), (v, sz) in cells:
            st.mem[(db, do + o - so, dd)] = (v, sz)
            t = st.tags.get((b, o, d))
            if t:
                st.tags[(db, do + o - so, dd)] = t
        if isinstance(db, tuple) and db[0] == 'al':
            if sb in st.deflt and do == 0 and so == 0:
                st.deflt[db] = st.deflt[sb]
            elif do == 0 and so == 0 and isinstance(sb, tuple) and sb[0] == 'g' and self.prog.global_init(sb[1])[1]:
                st.deflt[db] = ('objof', src, 0)
            elif not (isinstance(sb, tuple) and sb[0] == 'al'):
                st.deflt[db] = ('mem', src, st.epoch.get('*', 0))
            elif do == 0:
                st.tags[('esc', db)] = st.tags.get(('esc', sb), False)
        else:
            st.epoch['*'] = st.epoch.get('*', 0) + 1
            st.epoch[('memcpy', db)] = st.epoch.get(('memcpy', db), 0) + 1

    def snapshot(self, st, v):
        """Describe the content of a local object passed by address."""
        b, off, dyn = split(v)
        if not (isinstance(b, tuple) and b[0] == 'al') or dyn:
            return v
        cells = sorted((k[1] - off, c[0]) for k, c in st.mem.items() if k[0] == b and not k[2]) \
            if all(isinstance(k[1], int) for k in st.mem if k[0] == b) else []
        if b in st.deflt and st.deflt[b] != ('zero',):
            if not cells:
                return ('obj', st.deflt[b])
        if not cells or len(cells) > 12:
            return v
        return ('obj', compress(tuple(cells)))

    def havoc(self, st, fn, args):
        """Effects of a call that is not inlined."""
        if fn is not None:
            mod = self.summ.mod[fn]
            if not mod:
                return
            anyp = '*' in mod
            dead = []
            bases = set()
            wr = set()
            for n, a in enumerate(args):
                if isinstance(a, tuple):
                    b = base_of(a)
                    if isinstance(b, tuple) and b[0] == 'al' and self.pol.readonly_arg(fn.name, n):
                        continue
                    if isinstance(b, tuple) and b[0] == 'al' and n < fn.nparams:
                        pr = self.summ.param(fn, n)
                        if 'w' in pr:
                            wr.add(b)
                        if 'c' not in pr:
                            continue
                    bases.add(b)
            for k in st.mem:
                b = k[0]
                t = st.tags.get(k)
                if isinstance(b, tuple) and b[0] == 'al' and b in wr and b not in bases:
                    if t is None or t in mod or anyp:
                        dead.append(k)
                elif isinstance(b, tuple) and b[0] == 'al':
                    if b not in bases and not st.tags.get(('esc', b)):
                        continue
                    if t is None or t in mod or anyp:
                        dead.append(k)
                elif isinstance(b, tuple) and b[0] == 'g':
                    if ('g', b[1]) in mod or (t and t in mod) or (anyp and t is None):
                        dead.append(k)
                else:
                    if (t in mod) or (t is None and anyp):
                        dead.append(k)
            for t in mod:
                st.epoch[t] = st.epoch.get(t, 0) + 1
        else:
            bases = {base_of(a) for a in args if isinstance(a, tuple)}
            dead = [k for k in st.mem if k[0] in bases and not (isinstance(k[0], tuple) and k[0][0] == 'g' and self.prog.global_init(k[0][1])[1])]
            st.epoch['*'] = st.epoch.get('*', 0) + 1
        for k in dead:
            if k not in self.pol.stable and not self.pol.keeps(st, k):
                del st.mem[k]
        for b in bases:
            if isinstance(b, tuple) and b[0] == 'al':
                st.tags[('esc', b)] = True
                st.epoch[('al', b)] = st.epoch.get(('al', b), 0) + 1
                if b in st.deflt:
                    del st.deflt[b]
        if fn is not None:
            for b in wr - bases:
                st.epoch[('al', b)] = st.epoch.get(('al', b), 0) + 1
                st.tags[('wr', b)] = True
                st.deflt.pop(b, None)

    # ---- main loop ---------------------------------------------------------------
    def finish(self, st, kind, ret, line):
        p = Path()
        p.events, p.facts, p.ret, p.state, p.kind, p.line = st.events, st.facts, ret, st, kind, line
        self.results.append(p)

    def tag_of(self, fr, op):
        """(struct, member) designated by an address operand."""
        if isinstance(op, tuple) and op[0] == 'l':
            t = fr.env.get(('t', op[1]))
            return t
        return None

    def _run_state(self, st, work):
        self.nstates += 1
        while True:
            fr = st.frames[-1]
            bb = fr.bb
            if fr.pc == 0:
                if not self._enter_block(st, fr, bb):
                    self.cuts += 1
                    return
            ins = bb.instrs[fr.pc]
            self.steps += 1
            if self.steps > self.pol.max_steps:
                return
            op = ins.op
            if op == 'phi':
                fr.pc += 1
                continue
            if op == 'ret':
                rv = self.val(st, fr, ins.ops[0]) if ins.ops else None
                if len(st.frames) == 1:
                    self.finish(st, 'ret', rv, ins.line)
                    return
                st.frames.pop()
                up = st.frames[-1]
                ci = fr.call
                if rv is not None:
                    up.env[ci.name] = rv
                up.pc += 1
                continue
            if op == 'br':
                if not ins.ops:
                    self._goto(st, fr, ins.x[0])
                    continue
                c = self.val(st, fr, ins.ops[0])
                t = self.truth(st, c)
                if t is not None:
                    self._goto(st, fr, ins.x[0] if t else ins.x[1])
                    continue
                self._mark_fork(st, fr, bb, ins.x)
                s2 = st.copy()
                self.add_fact(st, c, 1)
                self.add_fact(s2, c, 0)
                self._goto(s2, s2.frames[-1], ins.x[1])
                work.append(s2)
                self._goto(st, fr, ins.x[0])
                continue
            if op == 'switch':
                v = self.val(st, fr, ins.ops[0])
                if not is_c(v):
                    v = st.facts.eq.get(v, v)
                dflt, cases = ins.x
                if is_c(v):
                    for cv, tgt in cases:
                        if cv == v:
                            self._goto(st, fr, tgt)
                            break
                    else:
                        self._goto(st, fr, dflt)
                    continue
                self._mark_fork(st, fr, bb, bb.succs)
                ex = st.facts.ne.get(v, ())
                rng = self._rng(st.facts, v)
                for cv, tgt in cases:
                    if cv in ex or (rng and not (rng[0] <= uns(cv) <= rng[1])):
                        continue
                    s2 = st.copy()
                    self.add_fact(s2, self.cmp('eq', v, cv, 64), 1)
                    self._goto(s2, s2.frames[-1], tgt)
                    work.append(s2)
                for cv, tgt in cases:
                    self.add_fact(st, self.cmp('eq', v, cv, 64), 0)
                self._goto(st, fr, dflt)
                continue
            if op == 'unreachable':
                self.finish(st, 'unreachable', None, ins.line)
                return
            if op == 'call':
                r = self._call(st, fr, ins, work)
                if r == 'stop':
                    return
                continue
            if op == 'select':
                c = self.val(st, fr, ins.ops[0])
                t = self.truth(st, c)
                if t is None:
                    self._mark_fork(st, fr, bb, ())
                    s2 = st.copy()
                    self.add_fact(st, c, 1)
                    self.add_fact(s2, c, 0)
                    f2 = s2.frames[-1]
                    f2.env[ins.name] = self.val(s2, f2, ins.ops[2])
                    f2.pc += 1
                    work.append(s2)
                    fr.env[ins.name] = self.val(st, fr, ins.ops[1])
                else:
                    fr.env[ins.name] = self.val(st, fr, ins.ops[1] if t else ins.ops[2])
                fr.pc += 1
                continue
            self._simple(st, fr, ins)
            fr.pc += 1

    def _simple(self, st, fr, ins):
        op = ins.op
        if op == 'alloca':
            fr.env[ins.name] = ('al', (fr.uid, ins.name))
            return
        if op == 'load':
            a = self.val(st, fr, ins.ops[0])
            fr.env[ins.name] = self.load(st, a, ins.ty, self.tag_of(fr, ins.ops[0]))
            self.pol.on_load(self, st, a, ins.ty)
            return
        if op == 'store':
            v = self.val(st, fr, ins.ops[0])
            a = self.val(st, fr, ins.ops[1])
            self.pol.on_store(self, st, a, v, ins.x, ins)
            self.store(st, a, v, ins.x, self.tag_of(fr, ins.ops[1]))
            return
        if op == 'gep':
            base = self.val(st, fr, ins.ops[0])
            idx = [self.val(st, fr, o) for o in ins.ops[1:]]
            fr.env[ins.name] = self.gep(ins.x, base, idx)
            t = ins.x
            if t.kind == 'struct' and t.name and len(idx) >= 2:
                k = idx[1]
                for nx in idx[2:]:
                    e = t.elems[k]
                    if e.kind == 'struct' and e.name and is_c(nx):
                        t, k = e, nx
                    else:
                        break
                fr.env[('t', ins.name)] = (t.name, k)
            elif isinstance(ins.ops[0], tuple) and ins.ops[0][0] == 'l':
                tt = fr.env.get(('t', ins.ops[0][1]))
                if tt:
                    fr.env[('t', ins.name)] = tt
            return
        if op == 'icmp':
            a, b = self.val(st, fr, ins.ops[0]), self.val(st, fr, ins.ops[1])
            r = fr.env[ins.name] = self.cmp(ins.x, a, b, 64)
            if is_c(r) and fr.loops:
                h = self.counters(fr.fn).get(ins.name)
                if h is not None and h in fr.loops:
                    n, forked, snap, cnt = fr.loops[h]
                    fr.loops[h] = (n, forked, snap, True)
            return
        if op == 'fcmp':
            a, b = self.val(st, fr, ins.ops[0]), self.val(st, fr, ins.ops[1])
            fr.env[ins.name] = ('cmp', 'f' + ins.x, a, b)
            return
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = self.val(st, fr, ins.ops[0]), self.val(st, fr, ins.ops[1])
            fr.env[ins.name] = self.arith(op, ins.ty, a, b)
            return
        if op == 'fneg':
            a = self.val(st, fr, ins.ops[0])
            fr.env[ins.name] = ('f', -a[1]) if isinstance(a, tuple) and a[0] == 'f' else ('op', 'fneg', 'double', a, 0)
            return
        if op in ('trunc', 'zext', 'sext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'bitcast', 'ptrtoint', 'inttoptr',
                  'fpext', 'fptrunc'):
            a = self.val(st, fr, ins.ops[0])
            fr.env[ins.name] = self.cast(op, ins.x, ins.ty, a)
            return
        if op == 'freeze':
            fr.env[ins.name] = self.val(st, fr, ins.ops[0])
            return
        if op == 'extractvalue':
            a = self.val(st, fr, ins.ops[0])
            for k in ins.x:
                if isinstance(a, tuple) and a[0] == 'agg':
                    a = a[1][k]
                else:
                    a = ('ext', a, k)
            fr.env[ins.name] = a
            return
        if op == 'insertvalue':
            a = self.val(st, fr, ins.ops[0])
            v = self.val(st, fr, ins.ops[1])
            n = len(ins.ty.elems)
            els = list(a[1]) if isinstance(a, tuple) and a[0] == 'agg' else [('undef',)] * n
            els[ins.x[0]] = v
            fr.env[ins.name] = ('agg', tuple(els))
            return
        fr.env[ins.name] = ('unk', op, ins.name)

    _cnt = {}

    def counters(self, fn):
        """icmp name -> header of the loop whose induction variable (a header phi stepped by a constant) it tests."""
        r = self._cnt.get(fn)
        if r is not None:
            return r
        r = {}
        src = {i.name: i for i in fn.instrs()}
        ind = {}
        for h, body in fn.loops.items():
            for i in fn.blocks[h].instrs:
                if i.op != 'phi':
                    continue
                for p, v in i.x.items():
                    if p in body and isinstance(v, tuple) and v[0] == 'l':
                        d = src.get(v[1])
                        if d is not None and d.op in ('add', 'sub', 'gep') and ('l', i.name) in d.ops:
                            ind[i.name] = h
        def trace(o, depth=0):
            if isinstance(o, tuple) and o[0] == 'l' and depth < 6:
                if o[1] in ind:
                    return ind[o[1]]
                d = src.get(o[1])
                if d is not None and d.op in ('zext', 'sext', 'trunc', 'add', 'sub', 'mul'):
                    for q in d.ops:
                        t = trace(q, depth + 1)
                        if t is not None:
                            return t
            return None
        for i in fn.instrs():
            if i.op == 'icmp':
                for o in i.ops:
                    t = trace(o)
                    if t is not None:
                        r[i.name] = t
        self._cnt[fn] = r
        return r

    def _goto(self, st, fr, bb):
        fr.prev = fr.bb
        fr.bb = bb
        fr.pc = 0

    def _mark_fork(self, st, fr, bb, succs):
        """An undecided branch: loops it can leave are widened at their next back edge, enclosing ones soon."""
        for f in st.frames:
            for h, (n, forked, snap, cnt) in list(f.loops.items()):
                if forked == 2:
                    continue
                body = f.fn.loops[h]
                if f is fr and any(s.idx not in body for s in succs):
                    f.loops[h] = (n, 2, snap, cnt)
                else:
                    f.loops[h] = (n, 1, snap, cnt)

    def _enter_block(self, st, fr, bb):
        phis = [i for i in bb.instrs if i.op == 'phi']
        newv = {}
        if phis:
            p = fr.prev.idx
            for i in phis:
                newv[i.name] = self.val(st, fr, i.x[p])
        loops = fr.fn.loops
        # leaving loops resets their counters
        if fr.loops:
            for h in [h for h in fr.loops if bb.idx not in loops[h]]:
                del fr.loops[h]
        if bb.idx in loops:
            body = loops[bb.idx]
            back = fr.prev is not None and fr.prev.idx in body and bb.idx in fr.loops
            if not back:
                if self.pol.eager(fr.fn) and self.pol.widen_loop(st, fr, bb.idx):
                    fr.loops[bb.idx] = (0, 0, 'w', False)
                    # which phis vary around the loop
                    for i in phis:
                        if any(i.x[q.idx] != ('l', i.name) for q in bb.preds if q.idx in body and q.idx in i.x):
                            st.uid += 1
                            newv[i.name] = ('lv', fr.fn.name, i.name, st.uid)
                    self._widen_mem(st, fr, body)
                else:
                    fr.loops[bb.idx] = (0, 0, None, False)
            elif self.pol.cut_header == (fr.fn, bb.idx) and len(st.frames) == 1:
                self.finish(st, 'back', ('loop', bb.idx), bb.instrs[-1].line)
                return False
            elif fr.loops[bb.idx][2] == 'w' and self.pol.eager(fr.fn) and self.pol.go_round(st, fr, bb.idx):
                fr.loops[bb.idx] = (0, 0, None, False)
            elif fr.loops[bb.idx][2] == 'w' and self.pol.eager(fr.fn):
                if self.pol.record_back:
                    self.finish(st, 'back', ('loop', bb.idx), bb.instrs[-1].line)
                return False
            else:
                n, forked, snap, cnt = fr.loops[bb.idx]
                if n < self.pol.cut_after and self.pol.cut_back(fr.fn) == 'always':
                    fr.loops[bb.idx] = (n + 1, 0, snap, False)
                elif not cnt and self.pol.cut_back(fr.fn) == 'always':
                    if self.pol.record_back:
                        self.finish(st, 'back', ('loop', bb.idx), bb.instrs[-1].line)
                    return False
                elif (forked == 0 and n < self.pol.unroll) or (forked == 1 and n < max(self.pol.unroll_forked, self.pol.counted_forks if cnt else 0)) \
                        or (cnt and snap != 'w' and forked == 2 and n < self.pol.unroll_counted):
                    fr.loops[bb.idx] = (n + 1, 0 if cnt and forked == 2 else forked, snap, False)
                elif self.pol.cut_back(fr.fn):
                    if self.pol.record_back:
                        self.finish(st, 'back', ('loop', bb.idx), bb.instrs[-1].line)
                    return False
                elif snap == 'w':
                    return False
                else:
                    # widen: everything the loop can change becomes an unconstrained loop value
                    fr.loops[bb.idx] = (n + 1, 0, 'w', False)
                    for i in phis:
                        old = fr.env.get(i.name)
                        if old != newv[i.name]:
                            st.uid += 1
                            newv[i.name] = ('lv', fr.fn.name, i.name, st.uid)
                    self._widen_mem(st, fr, body)
        for k, v in newv.items():
            fr.env[k] = v
        if self.pol.joins and len(bb.preds) > 1 and len(st.frames) == 1:
            key = self._join_key(st, fr, bb)
            if key in self.joined:
                return False
            self.joined.add(key)
        return True

    def _join_key(self, st, fr, bb):
        """What distinguishes the states that meet at a block: the constants known of live registers and of memory."""
        F = st.facts

        def known(v):
            if is_c(v) or isinstance(v, tuple) and v[:1] in (('g',), ('fn',), ('al',)):
                return v
            e = F.eq.get(v)
            if e is not None and is_c(e):
                return e
            n = F.ne.get(v)
            return ('ne', n) if n else None
        regs = []
        for k in self._live(fr.fn)[bb.idx]:
            if k in fr.env:
                x = known(fr.env[k])
                if x is not None:
                    regs.append((k, x))
        cells = []
        for k, c in st.mem.items():
            x = known(c[0])
            if x is not None:
                cells.append((repr(k), x))
        return (bb.idx, tuple(sorted(regs, key=repr)), tuple(sorted(cells, key=repr)))

    def _live(self, fn):
        """Registers that may still be used once a block is entered."""
        r = self._liveness.get(fn)
        if r is not None:
            return r
        use, dfn, live = {}, {}, {}
        for b in fn.blocks:
            u, d = set(), set()
            for i in b.instrs:
                if i.op == 'phi':
                    d.add(i.name)
                    continue
                ops = list(i.ops)
                if i.op == 'call' and not isinstance(i.x, str):
                    ops.append(i.x)
                for o in ops:
                    if isinstance(o, tuple) and o[0] == 'l' and o[1] not in d:
                        u.add(o[1])
                d.add(i.name)
            use[b.idx], dfn[b.idx], live[b.idx] = u, d, set(u)
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.blocks):
                new = set(use[b.idx])
                for s in b.succs:
                    new |= live[s.idx] - dfn[b.idx]
                    for i in s.instrs:
                        if i.op == 'phi':
                            o = i.x.get(b.idx)
                            if isinstance(o, tuple) and o[0] == 'l' and o[1] not in dfn[b.idx]:
                                new.add(o[1])
                new |= {i.name for i in b.instrs if i.op == 'phi'}
                if new - live[b.idx]:
                    live[b.idx] |= new
                    ch = True
        self._liveness[fn] = live
        return live

    def _widen_mem(self, st, fr, body):
        mods = set()
        locs = set()
        for b in fr.fn.blocks:
            if b.idx not in body:
                continue
            for i in b.instrs:
                if i.op == 'store':
                    a = self.val(st, fr, i.ops[1])
                    locs.add(split(a)[0])
                    t = self.tag_of(fr, i.ops[1])
                    if t:
                        mods.add(t)
                elif i.op == 'call':
                    if isinstance(i.x, str):
                        g = self.prog.fn(i.x, fr.fn.mod)
                        if g is not None:
                            mods |= self.summ.mod[g]
                    if not (isinstance(i.x, str) and (i.x in LIBC_PURE)):
                        for o in i.ops:
                            a = self.val(st, fr, o)
                            if isinstance(a, tuple):
                                b0 = base_of(a)
                                if isinstance(b0, tuple) and b0[0] == 'al':
                                    locs.add(b0)
        st.uid += 1
        n = st.uid
        for k in list(st.mem):
            b = k[0]
            if k in self.pol.monotone:
                continue
            t = st.tags.get(k)
            if b in locs or (t in mods) or (t is None and '*' in mods and not (isinstance(b, tuple) and b[0] == 'al')):
                v, sz = st.mem[k]
                st.mem[k] = (('lv', 'mem', k, n), sz)
        for b in locs:
            if isinstance(b, tuple) and b[0] == 'al':
                st.deflt.pop(b, None)
                st.tags[('esc', b)] = True
                st.epoch[('al', b)] = st.epoch.get(('al', b), 0) + 1
        for t in mods:
            st.epoch[t] = st.epoch.get(t, 0) + 1
        st.epoch['*'] = st.epoch.get('*', 0) + 1

    # ---- calls -----------------------------------------------------------------
    def _call(self, st, fr, ins, work):
        args = [self.val(st, fr, o) for o in ins.ops]
        name = ins.x
        if not isinstance(name, str):
            cv = self.val(st, fr, name)
            if isinstance(cv, tuple) and cv[0] == 'fn':
                name = cv[1]
            else:
                name = '*indirect*'
                args = [cv] + args
        fn = self.prog.fn(name, fr.fn.mod)
        # intrinsics
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove') or name in ('memcpy', 'memmove'):
            self.memcpy(st, args[0], args[1], args[2])
            fr.env[ins.name] = args[0]
            fr.pc += 1
            return
        if name.startswith('llvm.memset') or name == 'memset':
            b, o, d = split(args[0])
            if is_c(args[2]) and is_c(o) and not (isinstance(b, tuple) and b[0] == 'al'):
                self.kill(st, b, o, args[2], d)
                if args[1] == 0 and args[2] == 4 and d == ():
                    st.mem[(b, o, ())] = (0, 4)
                elif args[1] == 0 and args[2] % 8 == 0 and 0 < args[2] <= 2048 and d == ():
                    for j in range(0, args[2], 8):
                        st.mem[(b, o + j, ())] = (0, 8)
            else:
                for k in [k for k in st.mem if k[0] == b]:
                    del st.mem[k]
            if args[1] == 0 and isinstance(b, tuple) and b[0] == 'al':
                st.deflt[b] = ('zero',)
            fr.env[ins.name] = args[0]
            fr.pc += 1
            return
        if name.startswith('llvm.stacksave') or name.startswith('llvm.stackrestore'):
            fr.env[ins.name] = ('unk', name, 0)
            fr.pc += 1
            return
        d = self.pol.decide(self, st, name, args, fn)
        if isinstance(d, tuple) and d[0] == 'value':
            fr.env[ins.name] = d[1]
            fr.pc += 1
            return
        if d == 'inline':
            if fn is None:
                d = 'opaque'
            elif sum(1 for f in st.frames if f.fn is fn) > self.pol.rec_limit(fn) or len(st.frames) >= self.pol.max_depth:
                d = 'event' if self.pol.rec_event(name) else 'opaque'
        if d == 'cut':
            self.finish(st, 'cut', ('at', name, tuple(args)), ins.line)
            return 'stop'
        if d == 'inline':
            st.frames.append(self._frame(fn, args, ins, st))
            if len(args) < fn.nparams:
                args += [('undef',)] * (fn.nparams - len(args))
            if len(args) > fn.nparams:
                st.frames[-1].args = args
            return
        shown = tuple(self.snapshot(st, a) for a in args)
        ro = (fn is not None and self.summ.readonly(fn)) or name in LIBC_PURE
        if d == 'event' or not ro:
            n = len(st.events)
            st.uid += 1
            sret = fn is not None and fn.sret
            if ro:
                t = ('call', name, shown, self._eps(st, fn))
            else:
                t = ('call', name, shown, ('#', st.uid))
            if d == 'event':
                st.events.append(Event('call', name, shown, t, ins.line, fr.fn,
                                       tuple(f.fn.name for f in st.frames), st.facts.log, args))
                st.events[-1].cap = self.pol.capture(self, st, name, args)
        else:
            t = ('call', name, shown, self._eps(st, fn))
            sret = fn is not None and fn.sret
        if name in NORETURN:
            self.finish(st, 'noreturn', None, ins.line)
            return 'stop'
        self.havoc(st, fn, args) if not ro else None
        if sret:
            b, o, dd = split(args[0])
            for k in [k for k in st.mem if k[0] == b]:
                del st.mem[k]
            st.deflt[b] = ('call', name, shown[1:], t[3])
        alts = None
        if d == 'event':
            alts = self.pol.effect(self, st, name, args, t)
        a = self.pol.assume(self, st, t)
        fr.env[ins.name] = t if a is None else a
        fr.pc += 1
        for f in alts or ():
            s2 = st.copy()
            f(s2)
            work.append(s2)

    def _eps(self, st, fn):
        if fn is None:
            return st.epoch.get('*', 0)
        e = []
        for t in self.summ.ref[fn]:
            v = st.epoch.get(t, 0)
            if v:
                e.append((repr(t), v))
        return tuple(sorted(e))


def compress(cells):
    """Collapse member-wise copies of one struct value back to the value."""
    if cells and cells[0][0] == 0:
        v0 = cells[0][1]
        if isinstance(v0, tuple) and v0[0] == 'ext' and v0[2] == 0:
            src = v0[1]
            if all(isinstance(v, tuple) and v[0] == 'ext' and v[1] == src and v[2] == n for n, (o, v) in enumerate(cells)):
                return src
    return cells


Policy.rec_event = lambda self, name: True


def show(t, depth=0):
    """Human-readable term."""
    if not isinstance(t, tuple) or not t:
        return repr(t) if not isinstance(t, int) else str(t)
    if depth > 12:
        return '…'
    k = t[0]
    s = lambda x: show(x, depth + 1)
    if k == 'f':
        return repr(t[1])
    if k == 'arg':
        return 'arg%d' % t[1]
    if k in ('g', 'fn'):
        return '&' + t[1].split('@')[-1]
    if k == 'al':
        return 'local%s' % (t[1][1],)
    if k == 'ptr':
        return '(%s+%d%s)' % (s(t[1]), t[2], ''.join('+%s*%d' % (s(a), b) for a, b in t[3]))
    if k == 'ld':
        return '*%s' % s(t[1])
    if k == 'call':
        return '%s(%s)' % (t[1], ', '.join(s(a) for a in t[2]))
    if k == 'ext':
        return '%s.%d' % (s(t[1]), t[2])
    if k == 'fld':
        return '%s.@%d' % (s(t[1]), t[2])
    if k == 'agg':
        return '{%s}' % ', '.join(s(a) for a in t[1])
    if k == 'op':
        return '(%s %s %s)' % (s(t[3]), t[1], s(t[4]))
    if k == 'cast':
        return '%s%s(%s)' % (t[1], t[3], s(t[4]))
    if k == 'cmp':
        return '(%s %s %s)' % (s(t[2]), t[1], s(t[3]))
    if k == 'not':
        return '!%s' % s(t[1])
    if k == 'obj':
        x = t[1]
        if x and isinstance(x[0], tuple) and isinstance(x[0][0], int):
            return '&{%s}' % ', '.join('%s:%s' % (a, s(b)) for a, b in x)
        return '&%s' % s(x)
    if k == 'lv':
        return 'loop<%s>' % (t[2],)
    return repr(t)[:80]


def read_wide(interp, st, ptr, width=32, limit=300):
    """Constant zero-terminated character array at ptr as str, or None."""
    class T:
        pass
    t = T()
    t.kind, t.width, t.size = 'int', width, width // 8
    out = []
    for k in range(limit):
        v = interp.load(st, mkptr(ptr, k * (width // 8)), t)
        if not is_c(v):
            return None
        if v == 0:
            return ''.join(chr(uns(c, width)) for c in out) if width == 32 else bytes(uns(c, 8) for c in out)
        out.append(v)
    return None

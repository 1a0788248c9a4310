"""L01 L02: shapes of the LLVM code the compiler prints."""
import re
from ..absint import Event, read_wide, show, is_c, split
from ..model import Types, NodePol, getter
from ..program import AnalysisError

SUBS = {'emit_expression': 'E', 'emit_statement': 'S', 'emit_declaration': 'D'}
OPAQUE = ('hash_', 'ident_', 'string_', 'strings_', 'utf8_', 'repr_')
CELLS = ('register_num', 'label_num', 'answer_reg', 'answer_const', 'answer_const_double', 'answer_const_bool', 'answer_kind',
         'answer_string', 'variable_location', 'label_true', 'label_false', 'label_break', 'label_continue', 'label_switch',
         'request_reg', 'block_num', 'is_main', 'was_dynamic', 'is_call', 'func_ref', 'label_current', 'return_type')
NEEDS = {'was_abs': 'call i32 @abs(', 'was_fabs': '@llvm.fabs.f64(', 'was_stack_functions': '@llvm.stack', 'was_file': '%struct._IO_FILE'}
KEEP = ('label_true', 'label_false', 'label_break', 'label_continue', 'label_switch', 'is_main', 'request_reg', 'return_type')
SC = 'statement_get_class'
DIRECT = re.compile(r'emit_\w+_expression')
FMT = re.compile(r'%%|%([-+ #0]*)(\d*)(\.\d+)?(hh|h|ll|l|z|j|t)?([diuoxXcsfeEgG])')


class LlPol(NodePol):
    unroll_forked = 0
    record_back = True
    counted_forks = 4

    def __init__(self, G, spec, inline=(), events=(), kinds=(), cut=True):
        super().__init__(G.T, spec)
        self.G = G
        self.inl = set(inline)
        self.evs = set(events)
        self.kinds = kinds
        self.cut = cut
        self.stable = frozenset((('arg', 0), G.off[n], ()) for n in KEEP + ('sx',) + tuple(NEEDS)) | {(('sx',), G.P.field(G.m, 'syntax', 'ref_main'), ())}

    def cut_back(self, fn):
        return self.cut

    def readonly_arg(self, name, n):
        return n >= 1

    def rec_limit(self, fn):
        return 3 if fn.name.startswith('type_') or fn.name == 'emit_one_dimension_subscript' else 0

    def assume(self, it, st, t):
        if t[1] == 'hash_get' and len(t[2]) > 2 and is_c(t[2][2]) and ('hash_get', t[2][2]) in self.spec:
            return self.spec[('hash_get', t[2][2])]
        if t[1] == 'ident_get_type':
            x = t[2][1]
            k = ('ident_get_type', x if is_c(x) else getter(x))
            if k in self.spec:
                return self.spec[k]
        return super().assume(it, st, t)

    def subs(self, st):
        return sum(1 for e in st.events if e.cap and e.cap[0] == 'sub')

    def special(self, it, st, name, args, fn):
        G = self.G
        if name == 'uni_printf':
            f = read_wide(it, st, args[1], 8, 4000)
            if f is None:
                raise AnalysisError('format of uni_printf is not a constant in %s' % st.frames[-1].fn.name)
            fr = st.frames[-1]
            e = Event('call', name, tuple(args), ('print',), 0, fr.fn, tuple(x.fn.name for x in st.frames), st.facts.log, args)
            e.cap = ('p', self.pieces(it, st, f.decode('utf8'), args[2:]))
            e.line = fr.bb.instrs[fr.pc].line if hasattr(fr.bb, 'instrs') and fr.pc < len(fr.bb.instrs) else 0
            st.events.append(e)
            return ('value', 0)
        if name in self.inl:
            return 'inline'
        if name == 'func_name_to_io':
            fr = st.frames[-1]
            e = Event('call', name, tuple(args), ('print',), 0, fr.fn, tuple(x.fn.name for x in st.frames), st.facts.log, args)
            e.cap = ('p', [('t', ('fname', args[1]), 's')])
            st.events.append(e)
            return ('value', 0)
        if self.sub(it, st, name, args) or name in self.evs or name == 'report_error' or name == 'system_error':
            return 'event'
        if name.startswith(OPAQUE) and not (fn is not None and fn.static and fn.mod is self.G.m):
            return 'opaque'
        return None

    def sub(self, it, st, name, args):
        if name in SUBS:
            return SUBS[name]
        if DIRECT.fullmatch(name) and len(args) > 1 and getter(it.snapshot(st, args[1])) not in ('nd1', None):
            return 'E'
        return None

    def pieces(self, it, st, f, args):
        out, k, p = [], 0, 0
        for m in FMT.finditer(f):
            out.append(f[p:m.start()])
            p = m.end()
            if m.group(0) == '%%':
                out.append('%')
                continue
            if k >= len(args):
                raise AnalysisError('too few arguments for format %r' % f)
            a = args[k]
            k += 1
            if m.group(5) == 's':
                s = read_wide(it, st, a, 8)
                out.append(s.decode() if s is not None else ('t', a, 's'))
            elif is_c(a):
                out.append(chr(a & 255) if m.group(5) == 'c' else str(a) if m.group(5) in 'diu' else
                           ('%' + (m.group(1) or '') + (m.group(2) or '') + m.group(5)) % a)
            elif isinstance(a, tuple) and a[0] == 'f' and m.group(5) in 'feEgG':
                out.append('%r' % a[1])
            else:
                out.append(('t', a, m.group(0)[1:]))
        out.append(f[p:])
        return [x for x in out if x != '']

    def capture(self, it, st, name, args):
        sub = self.sub(it, st, name, args)
        if sub or name in self.evs:
            o = self.G.off
            ctx = {n: st.mem.get((('arg', 0), o[n], ()), (None,))[0] for n in CELLS}
            if sub:
                return ('sub', sub, getter(it.snapshot(st, args[1])), ctx)
            return ('ev', name, args[1:], ctx, tuple(getter(it.snapshot(st, a)) for a in args[1:]))
        return None

    def effect(self, it, st, name, args, term):
        G = self.G
        sub = self.sub(it, st, name, args)
        if sub or name in self.evs:
            k = self.subs(st)
            if name in self.evs:
                k = 'e%d' % sum(1 for e in st.events if e.cap and e.cap[0] == 'ev')
            put = {'register_num': ('reg', k), 'label_num': ('labn', k), 'answer_reg': ('areg', k), 'answer_const': ('aconst', k),
                   'answer_const_double': ('adbl', k), 'answer_const_bool': ('abool', k), 'answer_string': ('astr', k),
                   'variable_location': ('vloc', k), 'label_current': ('cur', k)}
            if sub == 'E':
                n = k - 1
                kind = self.kinds[n] if n < len(self.kinds) else None
                put['answer_kind'] = self.G.ans[kind] if kind else ('akind', k)
            else:
                put['answer_kind'] = ('akind', k)
            if len(args) > 1 and 'statement_case_get_expression' in (getter(it.snapshot(st, args[1])) or ''):
                old = st.events[-1].cap[3]            # a literal: only the constant changes (L01 literal obligations)
                put = {n: put[n] if n in ('answer_const', 'answer_kind') else old[n] for n in put}
            for n, v in put.items():
                G.put(st, n, v)
            if sub == 'S' and 'was_dynamic' in self.spec:
                G.put(st, 'was_dynamic', self.spec['was_dynamic'])
            if name == 'emit_statement':
                g = getter(it.snapshot(st, args[1]))
                if self.spec.get((SC, g)) in self.G.labelled:
                    old = st.mem[G.key('label_switch')][0]
                    G.put(st, 'label_switch', it.arith('add', G.I64, old, -1))


class Gen:
    policy = None

    def __init__(self, ctx):
        P = self.P = ctx.prog
        self.c = ctx
        self.m = P.module('compiler/llvmgen.c')
        self.T = Types(P, self.m)
        names = CELLS + ('sx', 'arrays') + tuple(NEEDS)
        self.off = {n: P.field(self.m, 'information', n) for n in names}
        rec = P.di(self.m).records['information']
        self.size = {n: rec[n][1] for n in names}
        self.ans = P.enum(self.m, 'answer_t')
        self.loc = P.enum(self.m, 'location_t')
        self.locn = {v: k for k, v in self.loc.items()}
        self.expr = P.enum(self.m, 'expression_t')
        self.stmt = P.enum(self.m, 'statement_t')
        self.labelled = {self.stmt['STMT_CASE'], self.stmt['STMT_DEFAULT']}
        self.un = P.enum(self.m, 'unary_t')
        self.bin = P.enum(self.m, 'binary_t')
        self.tags = {(('arg', 0), self.off[n], ()): P.tag(self.m, 'information', n) for n in names}

    def key(self, n):
        return (('arg', 0), self.off[n], ())

    WIDTH = {'register_num': 8, 'label_num': 8, 'answer_reg': 8, 'answer_const': 8, 'answer_const_double': 8, 'answer_const_bool': 1,
             'answer_kind': 4, 'answer_string': 8, 'variable_location': 4, 'label_true': 8, 'label_false': 8, 'label_break': 8,
             'label_continue': 8, 'label_switch': 8, 'request_reg': 8, 'block_num': 8, 'is_main': 1, 'was_dynamic': 1,
             'is_call': 1, 'func_ref': 8, 'label_current': 8, 'return_type': 8}

    class I64:
        kind, width, size = 'int', 64, 8

    def put(self, st, n, v):
        st.mem[self.key(n)] = (v, self.WIDTH[n])

    def run(self, fname, spec, inline=(), events=(), kinds=(), init=None, cut=True, args=None, more=None):
        fn = self.P.need(fname, self.m)
        mem = {self.key('sx'): (('sx',), 8)}
        base = {'register_num': ('reg', 0), 'label_num': ('labn', 0), 'label_true': ('ctx', 'true'), 'label_false': ('ctx', 'false'),
                'label_break': ('ctx', 'break'), 'label_continue': ('ctx', 'continue'), 'label_switch': ('ctx', 'switch'),
                'answer_reg': ('areg', 0), 'answer_const': ('aconst', 0), 'answer_const_double': ('adbl', 0), 'is_call': 0,
                'answer_const_bool': ('abool', 0), 'request_reg': ('ctx', 'request'), 'is_main': 0, 'was_dynamic': 0,
                'variable_location': ('vloc', 0), 'label_current': ('cur', 0), 'return_type': ('ctx', 'return')}
        base.update({n: 0 for n in NEEDS})
        base.update(init or {})
        for n, v in base.items():
            mem[self.key(n)] = (v, self.WIDTH.get(n, 1))
        mem.update(more or {})
        tags = dict(self.tags)
        del tags[self.key('sx')], tags[self.key('arrays')]
        pol = (self.policy or LlPol)(self, spec, inline, events, kinds, cut)
        facts = {}
        ps = self.c.paths(fn, pol, mem=mem, tags=tags, nonnull=[0, 1][:fn.nparams], args=args)
        return [p for p in ps if p.kind in ('ret', 'back')], 'libs/compiler/llvmgen.c (%s)' % fname

    # ---- rendering -----------------------------------------------------------
    NM = {'reg': 'R', 'labn': 'L', 'areg': 'A', 'aconst': 'C', 'adbl': 'D', 'abool': 'B', 'astr': 'S', 'cur': 'U', 'bn': 'BN'}

    def t(self, v):
        while isinstance(v, tuple) and v[0] == 'cast' and v[1] in ('sext', 'zext', 'trunc'):
            v = v[4]
        if is_c(v):
            return str(v)
        if isinstance(v, tuple) and v[0] == 'op' and v[1] == 'add' and is_c(v[4]):
            return '%s%+d' % (self.t(v[3]), v[4])
        if isinstance(v, tuple) and v[0] in self.NM:
            return '%s%s' % (self.NM[v[0]], v[1])
        if isinstance(v, tuple) and v[0] == 'ctx':
            return '#' + v[1]
        if isinstance(v, tuple) and v[0] == 'fname':
            return 'name(%s)' % self.t(v[1])
        if isinstance(v, tuple) and v[0] == 'call' and v[1] == 'hash_get' and is_c(v[2][2]):
            return 'dim%d' % v[2][2]
        if isinstance(v, tuple) and v[0] == 'call' and v[1] == 'strings_length':
            return 'length'
        if isinstance(v, tuple) and v[0] == 'call':
            g = getter(v)
            if g:
                return g
        return show(v)

    show_switch = False

    def text(self, p):
        out = []
        for e in p.events:
            c = e.cap
            if not c:
                continue
            if c[0] == 'p':
                for x in c[1]:
                    out.append(x if isinstance(x, str) else '{%s}' % self.t(x[1]))
            elif c[0] == 'sub':
                v = c[3]['variable_location']
                v = ('M' if v == self.loc['LMEM'] else 'L' if v == self.loc['LLOGIC'] else 'V') if is_c(v) else '*'
                if 'statement_case_get_expression' in c[2]:
                    v = '*'
                if c[1] == 'E' and v == 'L':
                    v += ':{%s}:{%s}' % (self.t(c[3]['label_true']), self.t(c[3]['label_false']))
                if c[1] == 'S':
                    v = '{%s}:{%s}' % (self.t(c[3]['label_break']), self.t(c[3]['label_continue']))
                    if self.show_switch:
                        v += ':{%s}' % self.t(c[3]['label_switch'])
                out.append('<%s:%s:%s>' % (c[1], c[2], v))
            elif c[0] == 'ev' and c[1] == 'check_type_and_branch':
                k = c[3]['answer_kind']
                out.append('<branch %s:{%s}:{%s}>' % (c[4][0], self.t(c[3]['label_true']), self.t(c[3]['label_false'])))
            elif c[0] == 'ev':
                out.append('<%s>' % c[1])
        return re.sub(r'[ \t]+', ' ', ''.join(out)).replace(' ,', ',').replace('\n ', '\n').strip()

    def final(self, p, n):
        v = p.state.mem.get(self.key(n), (None,))[0]
        return self.t(v) if v is not None else None


GT, GC = 'expression_get_type', 'expression_get_class'
LLT = {'int': 'i32', 'char': 'i8', 'bool': 'i1', 'float': 'double', 'int*': 'i32*', 'enum': 'i32', 'int[]': 'i32*', 'float*': 'double*',
       'int**': 'i32**', 'void': 'void'}
INT = {'ADD': 'add nsw', 'SUB': 'sub nsw', 'MUL': 'mul nsw', 'DIV': 'sdiv', 'REM': 'srem', 'SHL': 'shl', 'SHR': 'ashr', 'AND': 'and',
       'XOR': 'xor', 'OR': 'or'}
FLT = {'ADD': 'fadd', 'SUB': 'fsub', 'MUL': 'fmul', 'DIV': 'fdiv'}
CMPI = {'LT': 'icmp slt', 'GT': 'icmp sgt', 'LE': 'icmp sle', 'GE': 'icmp sge', 'EQ': 'icmp eq', 'NE': 'icmp ne'}
CMPF = {'LT': ('fcmp olt',), 'GT': ('fcmp ogt',), 'LE': ('fcmp ole',), 'GE': ('fcmp oge',), 'EQ': ('fcmp oeq',),
        'NE': ('fcmp one', 'fcmp une')}
L, R = 'expression_binary_get_LHS', 'expression_binary_get_RHS'
AL, AR = 'expression_assignment_get_LHS', 'expression_assignment_get_RHS'
O = 'expression_unary_get_operand'


LAB = re.compile(r'\{@(\w+)\}')


def match(got, exp):
    """Match printed text against a template whose {@x} stand for pairwise different labels."""
    got, exp = got.replace('> ', '>'), exp.replace('> ', '>')
    if '{@' not in exp:
        return {} if got == exp else None
    out, pos, seen = [], 0, set()
    for m in LAB.finditer(exp):
        out.append(re.escape(exp[pos:m.start()]))
        n = m.group(1)
        out.append('(?P=%s)' % n if n in seen else r'(?P<%s>\{[^{}]*\})' % n)
        seen.add(n)
        pos = m.end()
    out.append(re.escape(exp[pos:]))
    m = re.fullmatch(''.join(out), got, re.S)
    if not m or len(set(m.groupdict().values())) != len(seen):
        return None
    return {k: v[1:-1] for k, v in m.groupdict().items()}


def local_truth(p, what):
    """Whether the path assumes the named object local: 'local', 'global' or None."""
    for c, t in p.facts.log:
        if 'ident_is_local' in repr(c) and what in repr(c):
            return 'local' if t else 'global'
    return None


class L01:
    def __init__(self, ctx):
        self.ctx = ctx
        self.G = Gen(ctx)
        self.T = self.G.T.id
        self.tagid = self.G.P.ev(self.G.m, 'OP_IDENTIFIER')
        self.tagsl = self.G.P.ev(self.G.m, 'OP_SLICE')

    def base(self, cls, ty, more=None):
        d = {(GC, 'nd1'): self.G.expr['EXPR_' + cls], (GT, 'nd1'): self.T[ty]}
        d.update(more or {})
        return d

    def expect(self, title, spec, text, fin, kinds=(), root='emit_expression', rule='template', **kw):
        """text: expected print (or function of the path, or list of alternatives); fin: expected final cells."""
        ps, where = self.G.run(root, spec, kinds=kinds, **kw)
        self.ctx.need(ps, '%s: no partition for %s' % (where, title))
        for p in ps:
            tx = text(p) if callable(text) else text
            if tx is None:
                continue
            tx = tx if isinstance(tx, (list, tuple)) else [tx]
            got = self.G.text(p)
            okk, lab = False, {}
            for t in tx:
                lab = match(got, t)
                if lab is not None:
                    okk = True
                    break
            lab = lab or {}
            why = self.fresh(p, lab) if okk else ''
            okk = okk and not why
            fi = fin(p) if callable(fin) else fin
            bad = {n: self.G.final(p, n) for n, v in fi.items() if self.G.final(p, n) not in (v if isinstance(v, tuple) else (v,))}
            if why:
                bad['labels'] = why
            bad.update({n: self.G.final(p, n) for n, x in NEEDS.items() if x in got and self.G.final(p, n) != '1'})
            self.ctx.ob(rule, title, okk and not bad, (p.events[-1].where() if p.events else where),
                        '%s prints: %s%s; expected: %s' % (title, got.replace('\n', ' / '), (' and leaves ' + repr(bad)) if bad else '',
                                                           ' or '.join(x.replace('\n', ' / ') for x in tx)))

    def fresh(self, p, lab):
        """Every label of this construct was allotted by it: below the counter at the next nested emission and at exit."""
        lim = {}
        for e in p.events:
            if e.cap and e.cap[0] in ('sub', 'ev'):
                self._lim(lim, self.G.t(e.cap[3]['label_num']))
        self._lim(lim, self.G.final(p, 'label_num'))
        for n, v in lab.items():
            m = re.fullmatch(r'(L\w+?)(?:\+(\d+))?', v)
            if not m:
                return '%s is not a label of its own' % v
            if int(m.group(2) or 0) >= lim.get(m.group(1), 0):
                return 'label %s is not reserved' % v
        return ''

    @staticmethod
    def _lim(lim, t):
        m = re.fullmatch(r'(L\w+?)(?:\+(\d+))?', t or '')
        if m:
            k = m.group(1)
            v = int(m.group(2) or 0)
            lim[k] = max(lim.get(k, 0), v)

    def val(self, kind, k, ty):
        if kind in ('AREG', 'ALOGIC'):
            return '%%.{A%d}' % k
        if kind == 'ANULL':
            return 'null'
        return '{D%d}' % k if ty == 'float' else '{C%d}' % k if ty in ('int', 'char', 'enum') else '{B%d}' % k

    def done(self, reg, kind, k, extra=0):
        return {'answer_reg': reg, 'answer_kind': str(self.G.ans[kind]), 'register_num': 'R%d+%d' % (k, 1 + extra),
                'label_true': '#true', 'label_false': '#false'}


def boolsel(p, k, txt):
    return None


def check_expr(ctx):
    ctx.rule('template', 'the printed instructions are those of the operator and operand type, on the operands in source order, and the '
                         'answer handed on is the register that holds the value')
    X = L01(ctx)
    G, T = X.G, X.T
    A = str
    # binary operators
    sub2 = '<E:%s:V><E:%s:V>' % (L, R)
    for op in list(INT) + list(CMPI):
        cmpo = op in CMPI
        tys = ['int', 'char'] + (['float'] if cmpo or op in FLT else []) + (['bool', 'int*'] if op in ('EQ', 'NE') else [])
        for ty in tys:
            kk = [('AREG', 'AREG'), ('AREG', 'ACONST'), ('ACONST', 'AREG')]
            if ty == 'bool':
                kk = [('AREG', 'AREG'), ('ALOGIC', 'AREG'), ('AREG', 'ALOGIC')]
            if ty == 'int*':
                kk = [('AREG', 'AREG'), ('AREG', 'ANULL'), ('ANULL', 'AREG')]
            for kinds in kk:
                spec = X.base('BINARY', 'bool' if cmpo else ty, {
                    'expression_binary_get_operator': G.bin['BIN_' + op], (GT, L): T[ty], (GT, R): T[ty]})
                ops = (CMPF[op] if ty == 'float' else (CMPI[op],)) if cmpo else ((FLT[op],) if ty == 'float' else (INT[op],))
                tx = [sub2 + ' %%.{R2} = %s %s %s, %s' % (o, LLT[ty], X.val(kinds[0], 1, ty), X.val(kinds[1], 2, ty)) for o in ops]
                fin = X.done('R2', 'ALOGIC' if cmpo else 'AREG', 2)
                if ty == 'char' and not cmpo:
                    tx = [t + '\n%.{R2+1} = zext i8 %.{R2} to i32' for t in tx]
                    fin = X.done('R2+1', 'AREG', 2, 1)
                if cmpo:
                    fin['answer_kind'] = (str(G.ans['ALOGIC']), str(G.ans['AREG']))
                X.expect('%s %s (%s,%s)' % (ty, op, *kinds), spec, tx, fin, kinds)
    for op in list(INT) + list(CMPI):
        cmpo = op in CMPI
        for a, b in (('char', 'int'), ('int', 'char')):
            for kinds in (('AREG', 'AREG'), ('AREG', 'ACONST'), ('ACONST', 'AREG')):
                spec = X.base('BINARY', 'bool' if cmpo else 'int', {
                    'expression_binary_get_operator': G.bin['BIN_' + op], (GT, L): T[a], (GT, R): T[b]})
                n = 0 if a == 'char' else 1
                v = [X.val(kinds[0], 1, 'int'), X.val(kinds[1], 2, 'int')]
                pre, k = '', 'R2'
                if kinds[n] == 'AREG':
                    pre, v[n], k = '%%.{R2} = zext i8 %s to i32\n' % v[n], '%.{R2}', 'R2+1'
                tx = sub2 + ' ' + pre + '%%.{%s} = %s i32 %s, %s' % (k, (CMPI if cmpo else INT)[op], *v)
                fin = X.done(k, 'AREG', 2, 1 if pre else 0)
                if cmpo:
                    fin['answer_kind'] = (str(G.ans['ALOGIC']), str(G.ans['AREG']))
                X.expect('%s %s %s (%s,%s)' % (a, op, b, *kinds), spec, tx, fin, kinds)
    # comma
    for loc, m in (('LFREE', 'V'), ('LLOGIC', 'L:{#true}:{#false}')):
        X.expect('comma', X.base('BINARY', 'int', {'expression_binary_get_operator': G.bin['BIN_COMMA']}),
                 ['<E:%s:V><E:%s:%s>' % (L, R, m)] + (['<E:%s:*><E:%s:*>' % (L, R)] if m == 'V' else []),
                 {'answer_reg': 'A2', 'answer_kind': str(G.ans['AREG'])}, ('AREG', 'AREG'), init={'variable_location': G.loc[loc]})
    # assignment
    idt = 'expression_identifier_get_id(%s)'
    for op in ['', ] + list(INT):
        for ty, rt in [(x, x) for x in ['int', 'char'] + (['float'] if not op or op in FLT else []) + ([] if op else ['bool', 'int*'])] + \
                ([('int', 'char'), ('char', 'int')] if not op else []):
            for simple in (True, False):
                for k in ['AREG', 'ACONST'] + (['ALOGIC'] if ty == 'bool' and not op else []) + (['ANULL', 'AMEM'] if ty == 'int*' else []):
                    if ty == 'int*' and k == 'ACONST':
                        continue
                    n = 1 if simple else 2
                    conv = rt != ty and k == 'AREG'
                    spec = X.base('ASSIGNMENT', ty, {
                        (GT, AL): T[ty], (GT, AR): T[rt], 'expression_assignment_get_operator': G.bin['BIN_%sASSIGN' % (op + '_' if op else '')],
                        'node_get_type': X.tagid if simple else X.tagsl, (GC, AR): G.expr['EXPR_CALL']})

                    def tx(p):
                        pl = '{%s}' % (idt % AL)
                        at = '%%.{A1}' if not simple else ('%var.' if local_truth(p, AL) == 'local' else '@var.') + pl
                        at = at.replace('%%', '%')
                        s = '' if simple else '<E:%s:M>' % AL
                        s += '<E:%s:V> ' % AR
                        lt = LLT[ty]
                        if not op:
                            v = const_truth(p, 'abool', n) if ty == 'bool' and k == 'ACONST' else X.val(k, n, ty)
                            if conv:
                                s += '%%.{R%d} = %s %%.{A%d} to %s\n' % (n, 'zext i8' if rt == 'char' else 'trunc i32', n, lt)
                                v = '%%.{R%d}' % n
                            if k == 'AMEM':
                                v = ('%var.' if local_truth(p, "('areg', %d)" % n) == 'local' else '@var.') + '{A%d}' % n
                            return s + 'store %s %s, %s* %s, align 4' % (lt, v, lt, at)
                        o = FLT[op] if ty == 'float' else INT[op]
                        return s + '%%.{R%d} = load %s, %s* %s, align 4\n%%.{R%d+1} = %s %s %%.{R%d}, %s\nstore %s %%.{R%d+1}, %s* %s, align 4' \
                            % (n, lt, lt, at, n, o, lt, n, X.val(k, n, ty), lt, n, lt, at)
                    fin = {'register_num': 'R%d' % n + ('+2' if op else '+1' if conv else ''), 'label_true': '#true'}
                    if op or k in ('AREG', 'ALOGIC'):
                        fin.update({'answer_kind': str(G.ans['AREG']), 'answer_reg': 'R%d+1' % n if op else 'R%d' % n if conv else 'A%d' % n})
                    X.expect('%s %sASSIGN %s %s' % (ty, op, 'name' if simple else 'designator', k), spec, tx, fin,
                             (k,) if simple else ('AREG', k))
    # increment and decrement
    for op in ('PREINC', 'PREDEC', 'POSTINC', 'POSTDEC'):
        for ty in ('int', 'char', 'float'):
            for simple in (True, False):
                n = 0 if simple else 1
                spec = X.base('UNARY', ty, {(GT, O): T[ty], 'expression_unary_get_operator': G.un['UN_' + op],
                                            'node_get_type': X.tagid if simple else X.tagsl})

                def tx(p):
                    at = '%.{A1}' if not simple else ('%var.' if local_truth(p, O) == 'local' else '@var.') + '{%s}' % (idt % O)
                    lt = LLT[ty]
                    o = (FLT if ty == 'float' else INT)['ADD' if op.endswith('INC') else 'SUB']
                    one = '1.0' if ty == 'float' else '1'
                    return ('' if simple else '<E:%s:M> ' % O) + '%%.{R%d} = load %s, %s* %s, align 4\n%%.{R%d+1} = %s %s %%.{R%d}, %s\n' \
                        'store %s %%.{R%d+1}, %s* %s, align 4' % (n, lt, lt, at, n, o, lt, n, one, lt, n, lt, at)
                X.expect('%s %s %s' % (op, ty, 'name' if simple else 'designator'), spec, tx,
                         X.done('R%d%s' % (n, '+1' if op.startswith('PRE') else ''), 'AREG', n, 1), ('AREG',))
    # other unary operators
    for op, ty, ins in (('MINUS', 'int', 'sub nsw i32 0, %.{A1}'), ('MINUS', 'float', ('fsub double 0, %.{A1}', 'fsub double 0.0, %.{A1}',
                        'fsub double -0.0, %.{A1}', 'fneg double %.{A1}')), ('NOT', 'int', 'xor i32 %.{A1}, -1'),
                        ('ABS', 'int', 'call i32 @abs(i32 %.{A1})'), ('ABS', 'float', 'call double @llvm.fabs.f64(double %.{A1})')):
        ins = ins if isinstance(ins, tuple) else (ins,)
        X.expect('%s %s' % (op, ty), X.base('UNARY', ty, {(GT, O): T[ty], 'expression_unary_get_operator': G.un['UN_' + op]}),
                 ['<E:%s:V> %%.{R1} = %s' % (O, i) for i in ins], X.done('R1', 'AREG', 1), ('AREG',))
    for ty, k, ins in (('int', 'AREG', 'icmp eq i32 %.{A1}, 0'), ('bool', 'AREG', 'xor i1 %.{A1}, true'), ('bool', 'ALOGIC', 'xor i1 %.{A1}, true'),
                       ('float', 'AREG', 'fcmp oeq double %.{A1}, 0'), ('int*', 'AREG', 'icmp eq i32* %.{A1}, null')):
        X.expect('LOGNOT %s %s' % (ty, k), X.base('UNARY', 'bool', {(GT, O): T[ty], (GC, O): G.expr['EXPR_IDENTIFIER'],
                 'expression_unary_get_operator': G.un['UN_LOGNOT']}),
                 ['<E:%s:V> %%.{R1} = %s' % (O, i) for i in (ins, ins + '.0')], X.done('R1', 'AREG', 1), (k,))
    # names and literals
    NAME = 'expression_identifier_get_id'
    for ty in ('int', 'char', 'bool', 'float', 'int*', 'enum'):
        X.expect('name %s' % ty, X.base('IDENTIFIER', ty), lambda p: '%%.{R0} = load %s, %s* %svar.{%s}, align 4' % (
            LLT[ty], LLT[ty], '%' if local_truth(p, 'nd') == 'local' or local_truth(p, 'arg') == 'local' else '@', NAME),
            X.done('R0', 'AREG', 0), init={'variable_location': G.loc['LFREE']})
    X.expect('name int* read through', X.base('IDENTIFIER', 'int*'), lambda p: '%%.{R0} = load i32*, i32** %svar.{%s}, align 4\n'
             '%%.{R0+1} = load i32, i32* %%.{R0}, align 4' % ('%' if local_truth(p, 'arg') == 'local' else '@', NAME),
             X.done('R0+1', 'AREG', 0, 1), init={'variable_location': G.loc['LMEM']})
    for ty, cell, get in (('int', 'answer_const', 'expression_literal_get_integer'), ('bool', 'answer_const_bool', 'expression_literal_get_boolean'),
                          ('float', 'answer_const_double', 'expression_literal_get_floating'), ('enum', 'answer_const', 'expression_literal_get_integer'),
                          ('char', 'answer_const', ('expression_literal_get_integer', 'expression_literal_get_character'))):
        X.expect('literal %s' % ty, X.base('LITERAL', ty), '', {'answer_kind': str(G.ans['ACONST']), cell: get, 'register_num': 'R0'},
                 init={'variable_location': G.loc['LFREE']})
    X.expect('literal null', X.base('LITERAL', 'null'), '', {'answer_kind': str(G.ans['ANULL']), 'register_num': 'R0'})
    X.expect('literal string', X.base('LITERAL', 'char[]'), '', {'answer_kind': str(G.ans['ASTR']), 'register_num': 'R0',
                                                                  'answer_string': 'expression_literal_get_string'})
    CO = 'expression_cast_get_operand'
    for a in ('int', 'char'):
        X.expect('conversion %s to float' % a, X.base('CAST', 'float', {'expression_cast_get_source_type': T[a], (GT, CO): T[a]}),
                 '<E:%s:*> %%.{R1} = sitofp %s %%.{A1} to double' % (CO, LLT[a]), X.done('R1', 'AREG', 1), ('AREG',))
    # conversion of an answer into a branch
    for ty, ins in (('int', 'icmp ne i32 %.{A0}, 0'), ('bool', 'icmp ne i1 %.{A0}, false'), ('float', 'fcmp one double %.{A0}, 0'),
                    ('int*', 'icmp ne i32* %.{A0}, null')):
        alts = [ins] + [ins + '.0', ins.replace('one', 'une')] if ty == 'float' else [ins]
        X.expect('branch on %s value' % ty, {}, ['%%.{R0} = %s\nbr i1 %%.{R0}, label %%label{#true}, label %%label{#false}' % i for i in alts],
                 {'register_num': 'R0+1'}, root='check_type_and_branch', init={'answer_kind': G.ans['AREG'], 'variable_location': G.loc['LFREE']}, args={1: T[ty]})
    X.expect('branch on comparison', {}, 'br i1 %.{A0}, label %label{#true}, label %label{#false}', {'register_num': 'R0'},
             root='check_type_and_branch', init={'answer_kind': G.ans['ALOGIC'], 'variable_location': G.loc['LFREE']}, args={1: T['bool']})
    for ty, c in (('int', 'aconst'), ('bool', 'abool'), ('float', 'adbl')):
        def br(p):
            for cnd, t in p.facts.log:
                if c in repr(cnd):
                    r = repr(cnd)
                    nz = t if not (isinstance(cnd, tuple) and cnd[0] == 'cmp' and cnd[1] in ('eq', 'oeq', 'ueq')) else not t
                    return 'br label %%label{#%s}' % ('true' if nz else 'false')
            return 'no branch on the constant'
        X.expect('branch on %s constant' % ty, {}, br, {'register_num': 'R0'}, root='check_type_and_branch',
                 init={'answer_kind': G.ans['ACONST'], 'variable_location': G.loc['LFREE']}, args={1: T[ty]})
    _logic(ctx, X)
    _designators(ctx, X)
    _calls(ctx, X)


def _logic(ctx, X):
    """Logical operators and the conditional operator: labels, order, and the place the value comes from."""
    G, T = X.G, X.T
    ev = {'check_type_and_branch'}
    B = '<branch expression_get_type(%s):{%s}:{%s}>'
    E = '<E:%s:L:{%s}:{%s}>'
    for op in ('LOG_OR', 'LOG_AND'):
        spec = X.base('BINARY', 'bool', {'expression_binary_get_operator': G.bin['BIN_' + op]})

        def body(t, f):
            a = (t, '@n') if op == 'LOG_OR' else ('@n', f)
            return E % (L, *a) + B % (L, *a) + ' label{@n}:\n' + E % (R, t, f) + B % (R, t, f)
        X.expect('%s in a condition' % op, spec, body('#true', '#false'), {'answer_kind': str(G.ans['ABRANCH']), 'label_true': '#true',
                 'label_false': '#false'}, init={'variable_location': G.loc['LLOGIC']}, events=ev)
        phi = ['%.{Re2} = phi i1 [ true, %label{@t} ], [ false, %label{@f} ]', '%.{Re2} = phi i1 [ false, %label{@f} ], [ true, %label{@t} ]']
        tails = ['label{@%s}:\n br label %%label{@e}\nlabel{@%s}:\n br label %%label{@e}\nlabel{@e}:\n' % x for x in (('t', 'f'), ('f', 't'))]
        X.expect('%s as a value' % op, spec, [norm(body('@t', '@f') + ' ' + a + b) for a in tails for b in phi],
                 {'answer_kind': str(G.ans['AREG']), 'answer_reg': 'Re2', 'register_num': 'Re2+1', 'label_true': '#true',
                  'label_false': '#false'}, init={'variable_location': G.loc['LFREE']}, events=ev)
    for inner in ('LOG_OR', 'LOG_AND'):
        spec = X.base('UNARY', 'bool', {(GT, O): T['bool'], 'expression_unary_get_operator': G.un['UN_LOGNOT'],
                                        (GC, O): G.expr['EXPR_BINARY'], 'expression_binary_get_operator': G.bin['BIN_' + inner]})
        X.expect('negation of %s in a condition' % inner, spec, [E % (O, '#false', '#true')], {'label_true': '#true', 'label_false': '#false'},
                 init={'variable_location': G.loc['LLOGIC']})
        X.expect('negation of %s as a value' % inner, spec, '<E:%s:V> %%.{R1} = xor i1 %%.{A1}, true' % O,
                 X.done('R1', 'AREG', 1), ('AREG',), init={'variable_location': G.loc['LFREE']})
    tc, tl, tr = ('expression_ternary_get_' + x for x in ('condition', 'LHS', 'RHS'))
    for ty in ('int', 'float', 'bool', 'int*', 'char'):
        for a, b in (('AREG', 'AREG'), ('ACONST', 'AREG'), ('AREG', 'ACONST')) + ((('ALOGIC', 'AREG'), ('AREG', 'ALOGIC')) if ty == 'bool' else
                                                                                 (('ANULL', 'AREG'), ('AREG', 'ANULL')) if ty == 'int*' else ()):
            if ty == 'int*' and 'ACONST' in (a, b):
                continue

            def val(kind, k):
                if kind == 'ACONST' and ty == 'bool':
                    return None
                return X.val(kind, k, ty)
            spec = X.base('TERNARY', ty, {(GT, tl): T[ty], (GT, tr): T[ty]})

            def tx(p, a=a, b=b):
                va, vb = X.val(a, 2, ty), X.val(b, 3, ty)
                if ty == 'bool':
                    va = const_truth(p, 'abool', 2) or va
                    vb = const_truth(p, 'abool', 3) or vb
                pre = '<E:%s:L:{@t}:{@f}>' % tc + B % (tc, '@t', '@f') + ' label{@t}:\n<E:%s:V> br label %%label{@e}\nlabel{@f}:\n' \
                    '<E:%s:V> br label %%label{@e}\nlabel{@e}:\n' % (tl, tr)
                return [norm(pre + '%%.{R3} = phi %s [ %s, %%label{U2} ], [ %s, %%label{U3} ]' % (LLT[ty], va, vb))]
            X.expect('?: %s (%s,%s)' % (ty, a, b), spec, tx, X.done('R3', 'AREG', 3), ('AREG', a, b), events=ev)
    # a converted arm
    spec = X.base('TERNARY', 'int', {(GT, tl): T['char'], (GT, tr): T['int']})
    pre = '<E:%s:L:{@t}:{@f}>' % tc + B % (tc, '@t', '@f') + ' label{@t}:\n<E:%s:V> %%.{R2} = zext i8 %%.{A2} to i32\nbr label %%label{@e}\n' \
        'label{@f}:\n<E:%s:V> br label %%label{@e}\nlabel{@e}:\n' % (tl, tr)
    X.expect('?: int of char', spec, norm(pre + '%.{R3} = phi i32 [ %.{R2}, %label{U2} ], [ %.{A3}, %label{U3} ]'),
             X.done('R3', 'AREG', 3), ('AREG', 'AREG', 'AREG'), events=ev)


def const_truth(p, kind, k):
    """The value of a boolean constant on this path, if the path tested it."""
    for c, t in p.facts.log:
        if "('%s', %d)" % (kind, k) in repr(c):
            z = isinstance(c, tuple) and c[0] == 'cmp' and c[1] == 'eq' and 0 in c[2:]
            return 'true' if bool(t) != z else 'false'
    return None


def norm(t):
    return re.sub(r'[ \t]+', ' ', t).replace(' ,', ',').replace('\n ', '\n').replace('> <', '><').strip()


def plus(r, n):
    m = re.fullmatch(r'(\w+)(?:\+(\d+))?', r)
    k = int(m.group(2) or 0) + n
    return m.group(1) + ('+%d' % k if k else '')


def _designators(ctx, X):
    G, T = X.G, X.T
    NAME = 'expression_identifier_get_id'
    I = lambda ty, more: X.base('UNARY', ty, dict(more, **{(GT, O): T['int']}))
    ad = {'expression_unary_get_operator': G.un['UN_ADDRESS']}
    X.expect('& name', X.base('UNARY', 'int*', {**ad, 'node_get_type': X.tagid, (GT, O): T['int']}), '',
             {'answer_kind': str(G.ans['AMEM']), 'answer_reg': '%s(%s)' % (NAME, O), 'register_num': 'R0'})
    X.expect('& designator', X.base('UNARY', 'int*', {**ad, 'node_get_type': X.tagsl, (GT, O): T['int']}), '<E:%s:M>' % O,
             {'answer_reg': 'A1', 'register_num': 'R1'}, ('AREG',))
    ind = {'expression_unary_get_operator': G.un['UN_INDIRECTION']}
    X.expect('* value', X.base('UNARY', 'int', ind), '<E:%s:M>' % O, {'answer_reg': 'A1', 'register_num': 'R1'}, ('AREG',),
             init={'variable_location': G.loc['LFREE']})
    X.expect('* as a place', X.base('UNARY', 'int', ind), '<E:%s:V>' % O, {'answer_reg': 'A1', 'register_num': 'R1'}, ('AREG',),
             init={'variable_location': G.loc['LMEM']})
    # members
    mb, mi = 'expression_member_get_base', 'expression_member_get_member_index'
    S, S2 = T['struct'], T['struct2']
    gep = '%%.{%s} = getelementptr inbounds %%struct_opt.%d, %%struct_opt.%d* %s, i32 0, i32 {%s}'
    for ty in ('int', 'float'):
        for loc in ('LFREE', 'LMEM'):
            for bt, title in ((S, '.'), (T['struct*'], '->')):
                spec = X.base('MEMBER', ty, {(GT, mb): bt, (GC, mb): G.expr['EXPR_IDENTIFIER'], 'node_get_type': X.tagid})

                def tx(p):
                    w = '%' if local_truth(p, mb) == 'local' else '@'
                    v = '%svar.{%s(%s)}' % (w, NAME, mb)
                    out, n = [], 'R0'
                    if title == '->':
                        out.append('%%.{R0} = load %%struct_opt.%d*, %%struct_opt.%d** %s, align 4' % (S, S, v))
                        v, n = '%.{R0}', 'R0+1'
                    out.append(gep % (n, S, S, v, mi))
                    if loc != 'LMEM':
                        out.append('%%.{%s} = load %s, %s* %%.{%s}, align 4' % (plus(n, 1), LLT[ty], LLT[ty], n))
                    return norm('\n'.join(out))
                d = (1 if title == '->' else 0) + (1 if loc != 'LMEM' else 0)
                X.expect('%s member %s %s' % (title, ty, loc), spec, tx, {'answer_reg': plus('R0', d), 'register_num': plus('R0', d + 1),
                         'answer_kind': str(G.ans['AREG'])}, init={'variable_location': G.loc[loc]})
    # a member of a computed structure
    for base in ('MEMBER', 'SUBSCRIPT'):
        for loc in ('LFREE', 'LMEM'):
            spec = X.base('MEMBER', 'int', {(GT, mb): S, (GC, mb): G.expr['EXPR_' + base], 'node_get_type': X.tagsl})
            t = '<E:%s:M> ' % mb + gep % ('R1', S, S, '%.{R1-1}', mi)
            if loc != 'LMEM':
                t += '\n%.{R1+1} = load i32, i32* %.{R1}, align 4'
            d = 0 if loc == 'LMEM' else 1
            X.expect('member of %s %s' % (base, loc), spec, norm(t), {'answer_reg': plus('R1', d), 'register_num': plus('R1', d + 1),
                     'answer_kind': str(G.ans['AREG'])}, ('AREG',), init={'variable_location': G.loc[loc]})
    spec = X.base('MEMBER', 'int', {(GT, mb): S, (GC, mb): G.expr['EXPR_CALL'], 'node_get_type': X.tagsl})
    X.expect('member of CALL', spec, norm('<E:%s:M> %%.{R1} = extractvalue %%struct_opt.%d %%.{R1-1}, {%s}' % (mb, S, mi)),
             {'answer_reg': 'R1', 'register_num': 'R1+1'}, ('AREG',), init={'variable_location': G.loc['LFREE']})


    # subscripts and arrays as values
    sb, si = 'expression_subscript_get_base', 'expression_subscript_get_index'
    for ty, at in (('int', 'int[]'), ('float', 'float[]'), ('char', 'char[]')):
        for static in (1, 0):
            for k in ('AREG', 'ACONST'):
                for loc in ('LFREE', 'LMEM'):
                    spec = X.base('SUBSCRIPT', ty, {(GC, sb): G.expr['EXPR_IDENTIFIER'], ('node_get_type', 'nd1'): X.tagsl,
                                                    ('node_get_type', sb): X.tagid, 'hash_get_amount': 2, ('hash_get', 0): static,
                                                    'ident_get_type': T[at]})

                    def tx(p):
                        o = '%s(%s)' % (NAME, sb)
                        w = '%' if local_truth(p, sb) == 'local' else '@'
                        i = X.val(k, 1, 'int')
                        lt = LLT[ty]
                        t = '<E:%s:V> ' % si
                        if static:
                            t += '%%.{R1} = getelementptr inbounds [{dim1} x %s], [{dim1} x %s]* %sarr.{%s}, i32 0, i32 %s' % (lt, lt, w, o, i)
                        else:
                            t += '%%.{R1} = getelementptr inbounds %s, %s* %%dynarr.{%s}, i32 %s' % (lt, lt, o, i)
                        if loc != 'LMEM':
                            t += '\n%%.{R1+1} = load %s, %s* %%.{R1}, align 4' % (lt, lt)
                        return norm(t)
                    d = 0 if loc == 'LMEM' else 1
                    X.expect('[ ] %s %s %s %s' % (ty, 'static' if static else 'dynamic', k, loc), spec, tx,
                             {'answer_reg': plus('R1', d), 'register_num': plus('R1', d + 1), 'answer_kind': str(G.ans['AREG'])}, (k,),
                             init={'variable_location': G.loc[loc]})
    s2 = '%s(%s)' % (sb, sb)
    spec = X.base('SUBSCRIPT', 'int', {(GC, sb): G.expr['EXPR_SUBSCRIPT'], (GC, s2): G.expr['EXPR_IDENTIFIER'], ('node_get_type', 'nd1'): X.tagsl,
                                       ('node_get_type', sb): X.tagsl, ('node_get_type', s2): X.tagid, 'hash_get_amount': 3,
                                       ('hash_get', 0): 1, 'ident_get_type': T['int[][]']})

    def tx2(p):
        w = '%' if local_truth(p, sb) == 'local' else '@'
        row, line = '[{dim2} x i32]', '[{dim1} x [{dim2} x i32]]'
        return norm('<E:%s(%s):V> %%.{R1} = getelementptr inbounds %s, %s* %sarr.{%s(%s)}, i32 0, i32 %%.{A1}\n'
                    '<E:%s:V> %%.{R2} = getelementptr inbounds %s, %s* %%.{R2-1}, i32 0, i32 %%.{A2}\n'
                    '%%.{R2+1} = load i32, i32* %%.{R2}, align 4' % (si, sb, line, line, w, NAME, s2, si, row, row)).replace('\n<', '\n <') \
            .replace('{R2-1}', '{R1}')
    X.expect('[ ][ ] static', spec, lambda p: [tx2(p), tx2(p).replace('\n <', '\n<')], {'answer_reg': 'R2+1', 'register_num': 'R2+2'},
             ('AREG', 'AREG'), init={'variable_location': G.loc['LFREE']})
    for static in (1, 0):
        spec = X.base('IDENTIFIER', 'int[]', {'hash_get_amount': 2, ('hash_get', 0): static})
        X.expect('array name %s' % ('static' if static else 'dynamic'), spec, lambda p: norm(
            '%%.{R0} = getelementptr inbounds [{dim1} x i32], [{dim1} x i32]* %sarr.{%s}, i32 0, i32 0' % (
                '%' if local_truth(p, 'arg') == 'local' else '@', NAME) if static else
            '%%.{R0} = getelementptr inbounds i32, i32* %%dynarr.{%s}, i32 0' % NAME), X.done('R0', 'AREG', 0),
            init={'variable_location': G.loc['LFREE']})


def _calls(ctx, X):
    G, T = X.G, X.T
    cc, ca = 'expression_call_get_callee', 'expression_call_get_argument[%d]'
    user = 1000000
    P = ctx.prog

    def call(title, fid, res, pars, args, kinds, want):
        ft = G.T.add('f%d' % len(G.T.tab), 'FUNCTION', T[res], len(pars), *[T[x] for x in pars])
        spec = X.base('CALL', res, {(GT, cc): ft, 'expression_call_get_arguments_amount': len(args),
                                    ('expression_identifier_get_id', cc): fid})
        for n, a in enumerate(args):
            spec[(GT, ca % n)] = T[a]
        es = ''.join('<E:%s:V>' % (ca % n) for n in range(len(args)))
        lt = '%s (%s)' % (LLTX(res), ', '.join(LLTX(x) for x in pars))

        def tx(p):
            locs = {bool(t) for c, t in p.facts.log if 'ident_is_local' in repr(c) and repr(fid) in repr(c)}
            if len(locs) != 1 or p.kind != 'ret':      # one object is asked about twice; the table does not change in between
                return None
            seen.append(p)
            k = len(args)
            w = want(p) if callable(want) else want
            pre, nm = es, '@{name(%d)}' % fid
            if locs == {False}:
                pre = '%%.{R0} = load %s*, %s** %%var.%d, align 4\n' % (lt, lt, fid) + es
                nm = '%.{R0}'
            for n, x in enumerate(args):
                t = const_truth(p, 'abool', n + 1)
                if t:
                    w = w.replace('{B%d}' % (n + 1), t)
            c = 'call %s %s(%s)' % (lt, nm, w)
            if res != 'void':
                c = '%%.{%s} = ' % ('R%d' % k if k or locs == {True} else 'R0+1') + c
            return [norm(pre + ' ' + c), norm(pre.replace('\n', '\n ') + ' ' + c), norm(pre + c)]
        seen = []
        fin = lambda p: {'answer_kind': str(G.ans['AREG'])} if res != 'void' else {}
        X.expect('call ' + title, spec, tx, fin, kinds, init={'variable_location': G.loc['LFREE']}, cut=True)
        ctx.need(seen, 'no complete partition for call ' + title)
    call('without arguments', user, 'int', (), (), (), '')
    call('of a void function', user, 'void', (), (), (), '')
    for ty in ('int', 'float', 'bool', 'char', 'int*', 'int[]'):
        for k in ('AREG', 'ACONST', 'ALOGIC', 'ANULL', 'AMEM'):
            if k == 'ALOGIC' and ty != 'bool' or k in ('ANULL', 'AMEM') and ty != 'int*' or k == 'ACONST' and ty in ('int*', 'int[]'):
                continue

            def want(p):
                v = X.val(k, 1, ty)
                if k == 'AMEM':
                    v = ('%var.' if any(t and 'ident_is_local' in repr(c) and 'areg' in repr(c) for c, t in p.facts.log) else '@var.') + '{A1}'
                return '%s %s' % (LLTX(ty), v)
            call('%s %s' % (ty, k), user, 'int', (ty,), (ty,), (k,), want)
    call('two arguments', user, 'float', ('int', 'float'), ('int', 'float'), ('AREG', 'ACONST'), 'i32 %.{A1}, double {D2}')
    call('string', user, 'int', ('char[]',), ('char[]',), ('ASTR',),
         'i8* getelementptr inbounds ([{length+1} x i8], [{length+1} x i8]* @.str{S1}, i32 0, i32 0)')
    call('three arguments', user, 'void', ('int', 'bool', 'char'), ('int', 'bool', 'char'), ('ACONST', 'AREG', 'ACONST'),
         'i32 {C1}, i1 %.{A2}, i8 {C3}')
    many = ('int', 'float', 'bool', 'char', 'int*', 'int[]', 'float', 'int', 'char', 'float', 'int*')
    call('eleven arguments', user, 'int', many, many, ('AREG',) * len(many), ', '.join('%s %%.{A%d}' % (LLTX(x), n + 1) for n, x in enumerate(many)))


def LLTX(ty):
    return {'vararg': '...', 'char[]': 'i8*', 'float[]': 'double*'}.get(ty) or LLT[ty]


def check_stmt(ctx):
    ctx.rule('template', 'the printed blocks, branches and nested code of each statement follow its meaning, nested code sees the right '
                         'targets, and the context is restored')
    X = L01(ctx)
    G, T = X.G, X.T
    G.show_switch = True
    KEPT = {'label_true': '#true', 'label_false': '#false', 'label_break': '#break', 'label_continue': '#continue',
            'label_switch': '#switch', 'is_main': '0', 'return_type': '#return'}
    ev = {'check_type_and_branch'}

    def stmt(title, cls, spec, text, fin=None, kinds=(), **kw):
        sp = {(SC, 'nd1'): G.stmt['STMT_' + cls]}
        sp.update(spec)
        text = [text] if isinstance(text, str) else text
        X.expect(title, sp, text if callable(text) else [norm(t) for t in text], {**KEPT, **(fin or {})}, kinds, root='emit_statement',
                 events=ev, **kw)

    def cond(g, t, f):
        return '<E:%s:L:{%s}:{%s}><branch expression_get_type(%s):{%s}:{%s}> ' % (g, t, f, g, t, f)

    def S(g, b='#break', c='#continue', sw='#switch'):
        return '<S:%s:{%s}:{%s}:{%s}> ' % (g, b, c, sw)

    def br(x):
        return 'br label %%label{%s}\n' % x

    def lab(x):
        return 'label{%s}:\n' % x
    # if
    c, t, e = ('statement_if_get_' + x for x in ('condition', 'then_substmt', 'else_substmt'))
    for has in (0, 1):
        stmt('if with else' if has else 'if', 'IF', {'statement_if_has_else_substmt': has},
             [cond(c, '@t', '@f') + lab('@t') + S(t) + br('@e') + lab('@f') + (S(e) if has else '') + br('@e') + lab('@e')] +
             ([] if has else [cond(c, '@t', '@e') + lab('@t') + S(t) + br('@e') + lab('@e')]))
    # while and do
    c, b = ('statement_while_get_' + x for x in ('condition', 'body'))
    stmt('while', 'WHILE', {}, br('@c') + lab('@c') + cond(c, '@b', '@e') + lab('@b') + S(b, '@e', '@c') + br('@c') + lab('@e'))
    c, b = ('statement_do_get_' + x for x in ('condition', 'body'))
    stmt('do', 'DO', {}, br('@b') + lab('@b') + S(b, '@e', '@c') + br('@c') + lab('@c') + cond(c, '@b', '@e') + lab('@e'))
    # for
    i, c, n, b = ('statement_for_get_' + x for x in ('inition', 'condition', 'increment', 'body'))
    for hi in (0, 1):
        for hc in (0, 1):
            for hn in (0, 1):
                back = '@c' if hc else '@b'
                pre = (S(i, '*', '*') if hi else '') + (br('@c') + lab('@c') + cond(c, '@b', '@e') if hc else br('@b'))
                inc = lab('@i') + ('<E:%s:V> ' % n if hn else '') + br(back)
                bod = lab('@b') + S(b, '@e', '@i') + br('@i')
                alts = [pre + inc + bod + lab('@e'), pre + bod + inc + lab('@e')]
                # what targets the initialisation sees does not matter: it holds no break or continue
                alts = [a.replace('{*}:{*}', '{%s}:{%s}' % z) for a in alts for z in (('@e', '@i'), ('#break', '#continue'))]
                stmt('for (%s; %s; %s)' % ('init' if hi else '', 'cond' if hc else '', 'incr' if hn else ''), 'FOR',
                     {'statement_for_has_inition': hi, 'statement_for_has_condition': hc, 'statement_for_has_increment': hn}, alts)
    # jumps and simple statements
    stmt('break', 'BREAK', {}, br('#break'))
    stmt('continue', 'CONTINUE', {}, br('#continue'))
    stmt('empty statement', 'NULL', {}, '')
    stmt('expression statement', 'EXPR', {}, '<E:nd1:V>')
    for cls in ('CASE', 'DEFAULT'):
        stmt(cls.lower(), cls, {}, br('#switch') + lab('#switch') + S('statement_%s_get_substmt' % cls.lower(), sw='#switch-1'),
             {'label_switch': '#switch-1'})
    for n in (1, 2, 11):
        stmt('%d declarations' % n, 'DECL', {'statement_declaration_get_size': n}, ''.join('<D:statement_declaration_get_declarator[%d]:*>' % k
                                                                                           for k in range(n)), cut=False)
    # compound
    _compound(ctx, X, stmt, S, br, lab)
    _switch(ctx, X, stmt, S, br, lab)
    _return(ctx, X, stmt)
    _variables(ctx, X)
    _functions(ctx, X)


def _compound(ctx, X, stmt, S, br, lab):
    G = X.G
    g = 'statement_compound_get_substmt[%d]'
    for n in (0, 1, 2, 3, 11):
        for last in ('EXPR', 'CASE', 'DEFAULT'):
            if n == 0 and last != 'EXPR':
                continue
            spec = {'statement_compound_get_size': n}
            for k in range(n):
                spec[(SC, g % k)] = G.stmt['STMT_EXPR']
            if n:
                spec[(SC, g % (n - 1))] = G.stmt['STMT_' + last]
            save = '%dyn.{BN0} = alloca i8*, align 4\n%.{R0} = call i8* @llvm.stacksave()\nstore i8* %.{R0}, i8** %dyn.{BN0}, align 4\n'
            r = 'R%d' % n if n else 'R0+1'
            load = '%%.{%s} = load i8*, i8** %%dyn.{BN0}, align 4\ncall void @llvm.stackrestore(i8* %%.{%s})\n' % (r, r)
            body = ''.join(S(g % k) for k in range(n))
            sw = {}
            if last != 'EXPR':
                load += br('#switch-1')
                sw = {'label_switch': '#switch-1'}
            stmt('block of %d ending in %s' % (n, last), 'COMPOUND', spec, [save + body + load] + ([save] if not n else []), sw,
                 init={'block_num': ('bn', 0)}, cut=False)


def _switch(ctx, X, stmt, S, br, lab):
    G, T = X.G, X.T
    c, b = ('statement_switch_get_' + x for x in ('condition', 'body'))
    g = 'statement_compound_get_substmt(%s)[%%d]' % b
    for shape in ('', 'C', 'D', 'CC', 'CD', 'DC', 'CSD', 'SC', 'CCD', 'CDC', 'CSCSD', 'DCSC', 'CSCCSCSDCCSCSC'):
        for ty in ('int', 'char'):
            for k in ('AREG', 'ACONST'):
                spec = {(GT, c): T[ty], (SC, b): G.stmt['STMT_COMPOUND'], 'statement_compound_get_size': len(shape)}
                cases, lb, dflt, body, ex = [], {}, '@e', '', ''
                nl = sum(1 for x in shape if x != 'S')
                seen = 0
                for n, x in enumerate(shape):
                    spec[(SC, g % n)] = G.stmt['STMT_' + {'C': 'CASE', 'D': 'DEFAULT', 'S': 'EXPR'}[x]]
                    if x != 'S':
                        body += S(g % n, '@e', sw='@l%d' % seen)
                        if x == 'C':
                            cases.append('%s {C%d}, label %%label{@l%d}' % (LLT[ty], len(cases) + 2, seen))
                            ex += '<E:statement_case_get_expression(%s):*>' % (g % n)
                        else:
                            dflt = '@l%d' % seen
                        seen += 1
                    else:
                        body += S(g % n, '@e', sw='@l%d' % seen if seen < nl else '@e')
                if shape and shape[-1] != 'S':
                    body += br('@e')
                v = '{C1}' if k == 'ACONST' else '%.{A1}'
                t = '<E:%s:V>' % c + ex + ' switch %s %s, label %%label{%s} [\n' % (LLT[ty], v, dflt) + \
                    ''.join(x + '\n' for x in cases) + ']\n' + body + br('@e') + lab('@e')

                def tx(p, t=t):
                    return [norm(t), norm(t.replace(']\n<', ']\n <'))]
                stmt('switch {%s} of %s %s' % (shape, ty, k), 'SWITCH', spec, [t], {}, (k,) + ('ACONST',) * len(cases), cut=False,
                     init={'block_num': ('bn', 0)})


def _return(ctx, X, stmt):
    G, T = X.G, X.T
    g = 'statement_return_get_expression'
    load = '%.{R0} = load i8*, i8** %dyn.-1, align 4\ncall void @llvm.stackrestore(i8* %.{R0})\n'
    for dyn in (0, 1):
        pre = load if dyn else ''
        for main in (0, 1):
            init = {'was_dynamic': dyn, 'is_main': main}
            fin = {'is_main': str(main)}
            stmt('return%s%s' % (' from main' if main else '', ' after a dynamic array' if dyn else ''), 'RETURN',
                 {'statement_return_has_expression': 0}, pre + ('ret i32 0' if main else 'ret void'), fin, init=init)
            for ty, kinds in (('int', ('AREG', 'ACONST')), ('char', ('AREG', 'ACONST')), ('float', ('AREG', 'ACONST')), ('int*', ('AREG',)),
                              ('bool', ('AREG', 'ACONST', 'ALOGIC'))):
                for k in kinds:
                    for rt in (('int', 'char') if ty in ('int', 'char') else (ty,)):
                        if main and rt != 'int':
                            continue

                        def tx(p):
                            v = const_truth(p, 'abool', 1) if ty == 'bool' and k == 'ACONST' else X.val(k, 1, ty)
                            e, cv = '<E:%s:V> ' % g, ''
                            if ty != rt and k == 'AREG':
                                cv = '%%.{R1} = %s\n' % ('zext i8 %.{A1} to i32' if ty == 'char' else 'trunc i32 %.{A1} to i8')
                                v = '%.{R1}'
                            r = 'ret %s %s' % (LLT[rt], v)
                            late = load.replace('R0', 'R1+1' if cv else 'R1')
                            return [norm(pre + e + cv + r)] + ([norm(e + cv + late + r)] if dyn else [])
                        stmt('return of %s %s as %s%s%s' % (ty, k, rt, ' from main' if main else '', ' after a dynamic array' if dyn else ''),
                             'RETURN', {'statement_return_has_expression': 1, (GT, g): T[ty]}, tx, {**fin, 'return_type': str(T[rt])},
                             (k,), init={**init, 'return_type': T[rt]})


def _variables(ctx, X):
    """Scalar declarations: the storage, its initial value, and the initialiser evaluated once."""
    G, T = X.G, X.T
    D = 'declaration_variable_'
    V, I = D + 'get_id', D + 'get_initializer'
    for loc in (1, 0):
        for ty in ('int', 'char', 'bool', 'float', 'int*', 'struct'):
            lt = LLT.get(ty) or '%%struct_opt.%d' % T[ty]
            spec = {'declaration_get_class': G.P.enum(G.m, 'declaration_t')['DECL_VAR'], D + 'has_initializer': 0, 'ident_get_type': T[ty]}
            zero = {'int': '0', 'char': '0', 'bool': 'false', 'float': '0.0', 'int*': 'null', 'struct': 'zeroinitializer'}[ty]
            if loc:
                al = '%%var.{%s} = alloca %s, align 4\n' % (V, lt)
                st = 'store %s ZZ, %s* %%var.{%s}, align 4' % (lt, lt, V)
                tx = [al + st.replace('ZZ', z) for z in ((zero, '0.0') if ty == 'float' else (zero,))] + ([al] if ty in ('int*', 'struct') else [])
            else:
                tx = ['@var.{%s} = %sglobal %s %s, align 4' % (V, c, lt, zero) for c in ('common ', '')]
            X.expect('%s %s' % ('local' if loc else 'global', ty), spec, [norm(t) for t in tx], {}, root='emit_declaration', args={2: loc})
            if ty == 'struct':
                continue
            srcs = ('int', 'char') if ty in ('int', 'char') else (ty,)
            for src in srcs:
                for k in ('AREG', 'ACONST', 'ALOGIC', 'ANULL', 'AMEM'):
                    if not loc and k not in ('ACONST', 'ANULL') or k in ('ANULL', 'AMEM') and ty != 'int*' or k == 'ALOGIC' and ty != 'bool' \
                            or k == 'ACONST' and ty == 'int*':
                        continue
                    sp = dict(spec)
                    sp.update({D + 'has_initializer': 1, (GT, I): T[src]})

                    def tx(p):
                        v = X.val(k, 1, ty)
                        if ty == 'bool' and k == 'ACONST':
                            v = const_truth(p, 'abool', 1)
                        if not loc:
                            return [norm('@var.{%s} = <E:%s:V>%sglobal %s %s, align 4' % (V, I, c, lt, v)) for c in ('', ' ')]
                        if k == 'AMEM':
                            v = ('%var.' if local_truth(p, "('areg', 1)") == 'local' else '@var.') + '{A1}'
                        cv = ''
                        if src != ty and k == 'AREG':
                            cv = '%%.{R1} = %s\n' % ('zext i8 %.{A1} to i32' if src == 'char' else 'trunc i32 %.{A1} to i8')
                            v = '%.{R1}'
                        return norm('%%var.{%s} = alloca %s, align 4\n<E:%s:V> ' % (V, lt, I) + cv +
                                    'store %s %s, %s* %%var.{%s}, align 4' % (lt, v, lt, V))
                    X.expect('%s %s initialised with %s %s' % ('local' if loc else 'global', ty, src, k), sp, tx, {}, (k,),
                             root='emit_declaration', args={2: loc})


def _functions(ctx, X):
    """Function definitions: header, parameters copied to their variables, body, and a final return."""
    G, T = X.G, X.T
    F, B = 'declaration_function_get_', 'declaration_function_get_body'
    main = G.P.field(G.m, 'syntax', 'ref_main')
    g = 'statement_compound_get_substmt(%s)[%%d]' % B
    for is_main in (0, 1):
        for res in (('int',) if is_main else ('int', 'void', 'float', 'bool', 'char', 'int*')):
            for pars in ((),) if is_main else ((), ('int',), ('float', 'char'), ('int[]', 'bool', 'int*'),
                                                          ('int', 'float', 'char', 'int*', 'bool', 'int[]', 'float', 'int', 'char')):
                for dyn in (0, 1) if res == 'void' else (0,):
                    ft = G.T.add('fd%d' % len(G.T.tab), 'FUNCTION', T[res], len(pars), *[T[x] for x in pars])
                    spec = {'declaration_get_class': G.P.enum(G.m, 'declaration_t')['DECL_FUNC'], F + 'id': 5000, ('ident_get_type', 5000): ft,
                            'statement_compound_get_size': 2, SC: G.stmt['STMT_EXPR'], 'was_dynamic': dyn}
                    for n, x in enumerate(pars):
                        spec[('ident_get_type', F + 'parameter[%d]' % n)] = T[x]
                    t = 'define %s @%s(%s) {\n' % (LLTX(res), 'main' if is_main else '{name(5000)}', ', '.join(LLTX(x) for x in pars))
                    for n, x in enumerate(pars):
                        v, lt = '%%var.{%sparameter[%d]}' % (F, n), LLTX(x)
                        t += '%s = alloca %s, align 4\nstore %s %%%d, %s* %s, align 4\n' % (v, lt, lt, n, lt, v)
                        if x.endswith('[]'):
                            t += '%s = load %s, %s* %s, align 4\n' % (v.replace('%var', '%dynarr'), lt, lt, v)
                    if is_main:
                        t += '<global_initialization>'
                    t += ''.join('<S:%s:{#break}:{#continue}:{#switch}>' % (g % n) for n in range(2))
                    tails = ['ret void\n' if res == 'void' else 'ret i32 0\n' if is_main else '']
                    seen = []

                    def tx(p, t=t, tails=tails, dyn=dyn):
                        if p.kind != 'ret':
                            return None
                        seen.append(p)
                        ld = '%.{R2} = load i8*, i8** %dyn.-1, align 4\ncall void @llvm.stackrestore(i8* %.{R2})\n'
                        return [norm(t + y + x + 'unreachable\n}') for x in tails for y in (ld if dyn else '',)]

                    def fin(p):
                        d = {'is_main': '0'}
                        return d
                    X.expect('function %s(%s)%s' % (res, ','.join(pars), ' main' if is_main else ''), spec, tx, fin, (), root='emit_declaration',
                             args={2: 0}, more={(('sx',), main, ()): (5000 if is_main else 77, 8)}, cut=False, events={'global_initialization'})
                    ctx.need(seen, 'no complete partition for a function definition')

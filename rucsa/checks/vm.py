"""V01 V02 V04: code templates of the virtual machine encoder."""
import json
import os
from ..absint import Policy, mkptr, show, is_c, split, base_of
from ..model import Types, NodePol, getter
from ..program import AnalysisError
from . import vmcalls

SUBS = {'emit_expression': 'E', 'emit_void_expression': 'X', 'emit_lvalue': 'LV', 'emit_statement': 'S',
        'emit_declaration': 'D'}
CHAINS = {'addr_end_break', 'addr_end_condition', 'addr_begin_condition'}
OPAQUE = {'displacements_get', 'functions_get', 'string_get', 'string_length', 'ident_get_type', 'ident_get_prev', 'ident_get_repr',
          'compress_ident', 'utf8_convert', 'utf8_symbol_size', 'repr_get_name', 'displacements_add', 'functions_add',
          'proc_get', 'proc_set', 'ident_set_repr'}


def pos(k, off):
    b = ('pos', k)
    return b if off == 0 else ('op', 'add', 'i64', b, off)


def unpos(t):
    if isinstance(t, tuple):
        if t[0] == 'cast' and t[1] in ('trunc', 'zext', 'sext'):
            return unpos(t[4])
        if t[0] == 'pos':
            return t[1], 0
        if t[0] == 'op' and t[1] == 'add' and isinstance(t[3], tuple) and t[3][0] == 'pos' and is_c(t[4]):
            return t[3][1], t[4]
    return None


MANY = 17        # a count that no fixed small bound reaches


def wide_struct(T, V):
    """A structure of 20 members; the list of (type name, words)."""
    members = [('int', 1), ('float', 2), ('struct', 4), ('int*', 1), ('char', 1)] * 4
    if 'wide' not in T:
        words = []
        for k, (t, n) in enumerate(members):
            words += [T[t], 40 + k]
        V.T.add('wide', 'STRUCTURE', sum(n for t, n in members), 2 * len(members), *words)
        V.T.add('wide*', 'POINTER', T['wide'])
    return [(t, n) for t, n in members]


class VmPol(NodePol):
    def rec_limit(self, fn):
        return 3 if fn.name.startswith('type_') or self.V.rec else 0

    def __init__(self, V, spec=None, inline=(), extra=(), cut=True):
        super().__init__(V.T, spec)
        self.V = V
        self.inl = set(inline)
        self.stable = frozenset({(('arg', 0), V.sxo, ())})
        self.extra = set(extra)
        self.cut = cut

    def cut_back(self, fn):
        return self.cut

    def readonly_arg(self, name, n):
        return n >= 1 and (name in SUBS or name in ('emit_argument',))

    def ismem(self, a):
        return split(a) == (('arg', 0), self.V.mem, ())

    def here(self, st, skip=0):
        k = o = 0
        ev = st.events[:len(st.events) - skip]
        for e in ev:
            if e.cap and e.cap[0] == 'sub':
                k, o = k + 1, 0
            elif e.cap and e.cap[0] == 'w':
                o += e.cap[1]
        return pos(k, o)

    def special(self, it, st, name, args, fn):
        if name.startswith('vector_') and args and self.ismem(args[0]):
            if name == 'vector_size':
                return ('value', self.here(st))
            if name == 'vector_get':
                u = unpos(args[1])
                v = None
                if u is not None:
                    v = words(st.events)[1].get(u)
                return ('value', v if v is not None else ('memget', args[1]))
            return 'event'
        if name == 'vector_get' and args and base_of(args[0]) == ('arg', 0):
            return 'opaque'
        if name in self.inl:
            return 'inline'
        if name in SUBS or name in CHAINS or name in ('mem_add_double', 'report_error', 'system_error') or name in self.extra:
            return 'event'
        if name in OPAQUE:
            return 'opaque'
        return None

    def capture(self, it, st, name, args):
        ctxv = tuple(st.mem.get((('arg', 0), o, ()), (None,))[0] for o in self.V.ctx)
        if name in ('vector_add',) and self.ismem(args[0]):
            return ('w', 1, args[1])
        if name == 'vector_increase' and self.ismem(args[0]):
            if not is_c(args[1]):
                return ('sub', '?', None, ctxv)
            return ('w', args[1], 0)
        if name == 'vector_set' and self.ismem(args[0]):
            return ('set', args[1], args[2])
        if name in SUBS:
            return ('sub', SUBS[name], getter(it.snapshot(st, args[-1])), ctxv)
        if name == 'mem_add_double':
            return ('sub', 'DBL', args[1], ctxv)
        if name in CHAINS:
            return ('chain', name, args[1:], ctxv)
        return None

    def effect(self, it, st, name, args, term):
        k = self.spec.get('lvkind')
        if name == 'emit_lvalue' and k is not None:
            b, o, d = split(args[0])
            st.mem[(b, o + self.V.koff, d)] = (k, 4)

    def assume(self, it, st, t):
        if t[1] == 'vector_add' and self.ismem(t[2][0]):
            return self.here(st, 1)
        return super().assume(it, st, t)


def words(events):
    """(stream, words) with all patches applied; stream holds ('w',pos) and the other captures in order."""
    k = o = 0
    stream, w, ext = [], {}, []
    for e in events:
        c = e.cap
        if not c:
            continue
        if c[0] == 'sub':
            stream.append(('sub', (k, o), c, e))
            k, o = k + 1, 0
        elif c[0] == 'w':
            for n in range(c[1]):
                w[(k, o)] = c[2]
                stream.append(('w', (k, o), e))
                o += 1
        elif c[0] == 'set':
            u = unpos(c[1])
            if u is not None and u in w:
                w[u] = c[2]
            else:
                ext.append((c[1], c[2], (k, o)))
        elif c[0] == 'chain':
            stream.append(('chain', (k, o), c, e))
    return stream, w, ext, (k, o)


class Vm:
    def __init__(self, ctx):
        P = self.P = ctx.prog
        self.ctxo = ctx
        self.m = P.module('compiler/codegen.c')
        self.mem = P.field(self.m, 'encoder', 'memory')
        self.sxo = P.field(self.m, 'encoder', 'sx')
        self.fld = {n: P.field(self.m, 'encoder', n) for n in ('addr_cond', 'addr_case', 'addr_break', 'displ', 'curr_func', 'max_local_displ', 'max_global_displ')}
        self.ctx = tuple(self.fld[n] for n in ('addr_break', 'addr_cond', 'addr_case', 'displ', 'curr_func'))
        self.isz = 8
        self.rec = False            # follow recursion of helpers
        self.T = Types(P, self.m)
        self.ic = P.enum(self.m, 'instruction_t')
        self.icn = {}
        for k, v in self.ic.items():
            if not k.startswith('M'):
                self.icn.setdefault(v, k)
        self.kinds = P.enum(self.m, 'operand_t')
        self.koff = P.field(self.m, 'lvalue', 'kind')
        self.doff = P.field(self.m, 'lvalue', 'displ')
        self.expr = P.enum(self.m, 'expression_t')
        self.stmt = P.enum(self.m, 'statement_t')
        self.un = P.enum(self.m, 'unary_t')
        self.bin = P.enum(self.m, 'binary_t')

    def run(self, fname, spec, inline=(), extra=(), cut=True, **kw):
        fn = self.P.need(fname, self.m)
        kw.setdefault('mem', {})[(('arg', 0), self.sxo, ())] = (('sx',), 8)
        kw['tags'] = {(('arg', 0), o, ()): self.P.tag(self.m, 'encoder', n) for n, o in self.fld.items()}
        if fname == 'emit_lvalue' and fn.nparams == 3:     # the result is returned through a pointer
            kw['args'] = {0: ('sret',), 1: ('arg', 0), 2: ('arg', 1)}
        ps = self.ctxo.paths(fn, VmPol(self, spec, inline, extra, cut), nonnull=[0, 1][:fn.nparams], **kw)
        return [p for p in ps if p.kind in ('ret', 'back')], 'libs/compiler/codegen.c (%s)' % fname

    def render(self, p):
        stream, w, ext, end = words(p.events)
        out = []
        for s in stream:
            if s[0] == 'w':
                v = w[s[1]]
                out.append(self.icn.get(v, str(v)) if is_c(v) else self.sh(v))
            elif s[0] == 'sub':
                out.append('%s<%s>' % (s[2][1], s[2][2] if isinstance(s[2][2], str) else show(s[2][2])))
            else:
                out.append('{%s}' % s[2][1])
        for a, v, at in ext:
            out.append('[patch %s := %s]' % (self.sh(a), self.sh(v)))
        return ' '.join(out)

    def sh(self, v):
        u = unpos(v)
        return '@%d+%d' % u if u else show(v)[:60]

    def labels(self, want):
        k = o = 0
        labels = {}
        for x in want:
            if isinstance(x, tuple) and x[0] == 'lab':
                labels[x[1]] = (k, o)
            elif isinstance(x, tuple) and x[0] == 'sub':
                k, o = k + 1, 0
            else:
                o += 1
        return labels

    def match(self, p, want):
        """want: list of 'IC_x' | int | ('sub',kind,child) | ('lab',name) | ('to',name) | ('v',predicate, text)."""
        stream, w, ext, end = words(p.events)
        labels = self.labels(want)
        items = [s for s in stream if s[0] != 'chain']
        exp = [x for x in want if not (isinstance(x, tuple) and x[0] == 'lab')]
        if len(items) != len(exp):
            return False
        for s, x in zip(items, exp):
            if isinstance(x, tuple) and x[0] == 'sub':
                if s[0] != 'sub' or s[2][1] != x[1] or (x[2] is not None and s[2][2] != x[2]):
                    return False
                continue
            if s[0] != 'w':
                return False
            v = w[s[1]]
            if isinstance(x, str):
                if v != self.ic[x]:
                    return False
            elif isinstance(x, int):
                if v != x:
                    return False
            elif x[0] == 'to':
                if unpos(v) != labels[x[1]] and not self.chained(stream, s[1], labels[x[1]], w):
                    return False
            elif x[0] == 'v':
                if not x[1](v):
                    return False
        return True

    def chained(self, stream, p, target, w):
        """The word at p ends the break chain that is resolved to target."""
        if w[p] != 0:
            return False
        heads = [unpos(s[2][3][0]) for s in stream if s[0] == 'sub' and s[1] > p and s[2][1] == 'S']
        ends = [s[1] for s in stream if s[0] == 'chain' and s[2][1] == 'addr_end_break']
        return heads[:1] == [p] and ends == [target]


def callee(v, name, arg=None):
    while isinstance(v, tuple) and v[0] == 'cast':
        v = v[4]
    return isinstance(v, tuple) and v[0] == 'call' and v[1] == name and (arg is None or arg in repr(v[2]))


ARITH = {'MUL': 1, 'DIV': 1, 'REM': 0, 'ADD': 1, 'SUB': 1, 'SHL': 0, 'SHR': 0, 'LT': 1, 'GT': 1, 'LE': 1, 'GE': 1, 'EQ': 1,
         'NE': 1, 'AND': 0, 'XOR': 0, 'OR': 0}
ASSIGN = {'': 1, 'MUL_': 1, 'DIV_': 1, 'REM_': 0, 'ADD_': 1, 'SUB_': 1, 'SHL_': 0, 'SHR_': 0, 'AND_': 0, 'XOR_': 0, 'OR_': 0}


def check_expr(ctx):
    ctx.rule('template', 'the instruction sequence emitted for the construct is the one the machine defines for it, with its '
                         'operands in source order and its jumps bound to the right places')
    V = Vm(ctx)
    T = V.T.id
    GT, GC, LVV = 'expression_get_type', 'expression_get_class', 'expression_is_lvalue'

    def expect(title, spec, want, root='emit_expression', inline=(), kinds=None, extra=()):
        ps, where = V.run(root, spec, inline, extra)
        ctx.need(ps, '%s: no partition for %s' % (where, title))
        for p in ps:
            w = want(p) if callable(want) else want
            if w is None:
                continue
            ctx.ob('template', title, V.match(p, w), (p.events[-1].where() if p.events else where),
                   '%s emits: %s' % (title, V.render(p)))

    def base(cls, ty, **kw):
        s = {(GC, 'nd1'): V.expr['EXPR_' + cls], (LVV, 'nd1'): 0, (GT, 'nd1'): T[ty]}
        s.update(kw.get('more', {}))
        return s

    def expect_lv(title, spec, want, **kw):
        for n, v in V.kinds.items():
            sp = dict(spec)
            sp['lvkind'] = v
            expect('%s, %s designator' % (title, n.lower()), sp, lambda p, n=n: want(p, n), **kw)
    DOFF = V.doff

    def displ(v):
        return isinstance(v, tuple) and v[0] == 'fld' and 'emit_lvalue' in repr(v) and v[2] == DOFF
    DISP = ('v', displ, 'displacement of the designator')
    L, R = 'expression_binary_get_LHS', 'expression_binary_get_RHS'
    # binary operators
    for op, fl in ARITH.items():
        for ty in ('int', 'float') if fl else ('int',):
            more = {'expression_binary_get_operator': V.bin['BIN_' + op], (GT, L): T[ty], (GT, R): T[ty]}
            rt = 'int' if op in ('LT', 'GT', 'LE', 'GE', 'EQ', 'NE') else ty
            expect('%s %s' % (ty, op), base('BINARY', rt, more=more),
                   [('sub', 'E', L), ('sub', 'E', R), 'IC_' + op + ('_R' if ty == 'float' else '')])
    for op, br in (('LOG_AND', 'IC_BE0'), ('LOG_OR', 'IC_BNE0')):
        more = {'expression_binary_get_operator': V.bin['BIN_' + op], (GT, L): T['bool'], (GT, R): T['bool']}
        expect(op, base('BINARY', 'bool', more=more),
               [('sub', 'E', L), 'IC_DUPLICATE', br, ('to', 'end'), ('sub', 'E', R), 'IC_' + op, ('lab', 'end')])
    more = {'expression_binary_get_operator': V.bin['BIN_COMMA'], (GT, L): T['int'], (GT, R): T['int']}
    expect('comma', base('BINARY', 'int', more=more), [('sub', 'X', L), ('sub', 'E', R)])
    # ternary
    C, TL, TR = ('expression_ternary_get_' + x for x in ('condition', 'LHS', 'RHS'))
    expect('conditional', base('TERNARY', 'int'),
           [('sub', 'E', C), 'IC_BE0', ('to', 'else'), ('sub', 'E', TL), 'IC_B', ('to', 'end'), ('lab', 'else'), ('sub', 'E', TR),
            ('lab', 'end')])
    # unary
    O = 'expression_unary_get_operand'
    G = 'expression_unary_get_operator'
    for op, ty, ic in (('MINUS', 'int', 'IC_UNMINUS'), ('MINUS', 'float', 'IC_UNMINUS_R'), ('NOT', 'int', 'IC_NOT'),
                       ('LOGNOT', 'bool', 'IC_LOG_NOT'), ('ABS', 'int', 'IC_ABSI'), ('ABS', 'float', 'IC_ABS')):
        expect('unary %s %s' % (op, ty), base('UNARY', ty, more={G: V.un['UN_' + op], (GT, O): T[ty]}), [('sub', 'E', O), ic])
    expect('upb', base('UNARY', 'int', more={G: V.un['UN_UPB'], (GT, O): T['int[]']}),
           ['IC_LI', 0, ('sub', 'E', O), 'IC_UPB'])
    def addr(p, k):
        return [('sub', 'LV', O), 'IC_LA', DISP] if k == 'VARIABLE' else [('sub', 'LV', O)] if k == 'ADDRESS' else ['IC_NOP']
    expect_lv('address-of', base('UNARY', 'int*', more={G: V.un['UN_ADDRESS'], (GT, O): T['int']}), addr)
    for op, ic in (('POSTINC', 'POST_INC'), ('POSTDEC', 'POST_DEC'), ('PREINC', 'PRE_INC'), ('PREDEC', 'PRE_DEC')):
        for ty in ('int', 'float', 'char'):
            def inc(p, k):
                r = '_R' if ty == 'float' else ''
                if k == 'VARIABLE':
                    return [('sub', 'LV', O), 'IC_' + ic + r, DISP]
                return [('sub', 'LV', O), 'IC_' + ic + '_AT' + r]
            expect_lv('%s %s' % (op, ty), base('UNARY', ty, more={G: V.un['UN_' + op], (GT, O): T[ty]}), inc)
    # assignment
    AL, AR = 'expression_assignment_get_LHS', 'expression_assignment_get_RHS'
    for op, fl in ASSIGN.items():
        for ty in ('int', 'float') if fl else ('int',):
            more = {'expression_assignment_get_operator': V.bin['BIN_' + op + 'ASSIGN'], (GT, AL): T[ty], (GT, AR): T[ty]}
            def asg(p, k):
                r = '_R' if ty == 'float' else ''
                if k == 'VARIABLE':
                    return [('sub', 'LV', AL), ('sub', 'E', AR), 'IC_' + op + 'ASSIGN' + r, DISP]
                return [('sub', 'LV', AL), ('sub', 'E', AR), 'IC_' + op + 'ASSIGN_AT' + r]
            expect_lv('%s %sASSIGN' % (ty, op), base('ASSIGNMENT', ty, more=more), asg)
    more = {'expression_assignment_get_operator': V.bin['BIN_ASSIGN'], (GT, AL): T['struct'], (GT, AR): T['struct']}
    expect_lv('struct assignment', base('ASSIGNMENT', 'struct', more=more),
           lambda p, k: [('sub', 'LV', AL), ('sub', 'E', AR), 'IC_COPY0ST_ASSIGN', DISP, 4] if k == 'VARIABLE' else
           [('sub', 'LV', AL), ('sub', 'E', AR), 'IC_COPY1ST_ASSIGN', 4])
    # literals
    expect('literal null', base('LITERAL', 'null'), ['IC_LI', 0])
    for val in (0, 1):
        expect('literal bool %d' % val, base('LITERAL', 'bool', more={'expression_literal_get_boolean': val}), ['IC_LI', val])
    expect('literal char', base('LITERAL', 'char'), ['IC_LI', ('v', lambda v: callee(v, 'expression_literal_get_character'), '')])
    expect('literal int', base('LITERAL', 'int'), ['IC_LI', ('v', lambda v: callee(v, 'expression_literal_get_integer'), '')])
    expect('literal enum', base('LITERAL', 'enum'), ['IC_LI', ('v', lambda v: callee(v, 'expression_literal_get_integer'), '')])
    ps, where = V.run('emit_expression', base('LITERAL', 'float'))
    for p in ps:
        st, w, ext, end = words(p.events)
        okk = len(st) == 2 and st[0][0] == 'w' and w[st[0][1]] == V.ic['IC_LID'] and st[1][0] == 'sub' and st[1][2][1] == 'DBL' \
            and callee(st[1][2][2], 'expression_literal_get_floating')
        ctx.ob('template', 'literal float', okk, where, 'emits: ' + V.render(p))
    # conversions
    CO = 'expression_cast_get_operand'
    for a, b, wd in (('int', 'float', 1), ('char', 'float', 1), ('int', 'char', 0), ('char', 'int', 0), ('float', 'float', 0),
                     ('int', 'bool', 0), ('enum', 'float', 1)):
        expect('cast %s to %s' % (a, b), base('CAST', b, more={(GT, CO): T[a]}), [('sub', 'E', CO)] + ['IC_WIDEN'] * wd)
    # member of an rvalue structure: {int, float, int}: displacements 0 1 3
    MB = 'expression_member_get_base'
    for idx, (d, ty, sz) in enumerate(((0, 'int', 1), (1, 'float', 2), (3, 'int', 1))):
        expect('member %d of rvalue' % idx, base('MEMBER', ty, more={(GT, MB): T['struct'], 'expression_member_get_member_index': idx}),
               [('sub', 'E', MB), 'IC_COPYST', d, sz, 4])
    # initializers
    SI = 'expression_initializer_get_subexpr'
    for ty in ('int[]', 'struct'):
        for n in (0, 1, 2, MANY):
            expect('initializer ' + ty, base('INITIALIZER', ty, more={'expression_initializer_get_size': n}),
                   (['IC_BEG_INIT', n] if ty == 'int[]' else []) + [('sub', 'E', SI + '[%d]' % k) for k in range(n)])
    wide = wide_struct(T, V)
    at = 0
    for idx, (ty, sz) in enumerate(wide):
        if idx in (0, 5, MANY, len(wide) - 1):
            total = sum(x[1] for x in wide)
            expect('member %d of a wide rvalue' % idx, base('MEMBER', ty, more={(GT, MB): T['wide'], 'expression_member_get_member_index': idx}),
                   [('sub', 'E', MB), 'IC_COPYST', at, sz, total])
            more = {(GT, MB): T['wide*'], 'expression_member_get_member_index': idx, 'expression_member_is_arrow': 1}
            expect('load -> member %d of a wide structure' % idx,
                   {(GC, 'nd1'): V.expr['EXPR_MEMBER'], (GT, 'nd1'): T[ty], (LVV, 'nd1'): 1, **more},
                   [('sub', 'E', MB), 'IC_SELECT', at] + (['IC_COPY1ST', 4] if ty == 'struct' else ['IC_LATD' if ty == 'float' else 'IC_LAT']), inline=('emit_lvalue',))
        at += sz
    # lvalues and loads
    DG = ('v', lambda v: callee(v, 'displacements_get') and 'expression_identifier_get_id' in repr(v), 'displacement of the name')

    def lv(cls, ty, **kw):
        s = base(cls, ty, **kw)
        s[(LVV, 'nd1')] = 1
        return s
    for ty, want in (('int', ['IC_LOAD', DG]), ('float', ['IC_LOADD', DG]), ('char', ['IC_LOAD', DG]), ('int*', ['IC_LOAD', DG]),
                     ('int[]', ['IC_LOAD', DG]), ('struct', ['IC_COPY0ST', DG, 4]), ('const int', ['IC_LOAD', DG]),
                     ('const float', ['IC_LOADD', DG]), ('bool', ['IC_LOAD', DG])):
        expect('load name %s' % ty, lv('IDENTIFIER', ty, more={'ident_get_type': T[ty]}), want, inline=('emit_lvalue',))
    SB, SX = 'expression_subscript_get_base', 'expression_subscript_get_index'
    for ty, arr, want in (('int', 'int[]', [1, 'IC_LAT']), ('float', 'float[]', [2, 'IC_LATD']), ('struct', 'int[]', [4, 'IC_COPY1ST', 4]),
                          ('int[]', 'int[][]', [1, 'IC_LAT']), ('char', 'char[]', [1, 'IC_LAT']), ('bool', 'int[]', [1, 'IC_LAT']),
                          ('int*', 'int[]', [1, 'IC_LAT']), ('file', 'int[]', [1, 'IC_LAT'])):
        expect('load element %s' % ty, lv('SUBSCRIPT', ty, more={(GT, SB): T[arr]}),
               [('sub', 'E', SB), ('sub', 'E', SX), 'IC_SLICE'] + want, inline=('emit_lvalue',))
    loads = {'int': ['IC_LAT'], 'float': ['IC_LATD']}
    for idx, (d, ty) in enumerate(((0, 'int'), (1, 'float'), (3, 'int'))):
        more = {(GT, MB): T['struct*'], 'expression_member_get_member_index': idx, 'expression_member_is_arrow': 1}
        expect('load -> member %d' % idx, lv('MEMBER', ty, more=more), [('sub', 'E', MB), 'IC_SELECT', d] + loads[ty],
               inline=('emit_lvalue',))
        more = {(GT, MB): T['struct'], 'expression_member_get_member_index': idx, 'expression_member_is_arrow': 0}
        def mem(p, k):
            if k == 'ADDRESS':
                return [('sub', 'LV', MB), 'IC_SELECT', d] + loads[ty]

            def dd(v):
                # displ + d for positive displacements (locals), displ - d for globals
                b, o = (v[3], v[4]) if isinstance(v, tuple) and v[0] == 'op' and v[1] == 'add' and is_c(v[4]) else (v, 0)
                if not displ(b):
                    return False
                sgnpos = None
                for c, t in p.facts.log:
                    if isinstance(c, tuple) and c[0] == 'cmp' and c[1] == 'slt' and c[2] == 0 and displ(c[3]):
                        sgnpos = bool(t)
                    elif isinstance(c, tuple) and c[0] == 'cmp' and c[1] == 'slt' and c[3] == 1 and displ(c[2]):
                        sgnpos = not t
                    elif isinstance(c, tuple) and c[0] == 'cmp' and c[1] == 'slt' and c[3] == 0 and displ(c[2]):
                        sgnpos = not t
                if sgnpos is None:
                    return o == 0 and d == 0
                return o == (d if sgnpos else -d)
            return [('sub', 'LV', MB), 'IC_LOADD' if ty == 'float' else 'IC_LOAD', ('v', dd, 'member displacement')]
        expect_lv('load . member %d' % idx, lv('MEMBER', ty, more=more), mem, inline=('emit_lvalue',))
    for ty, pt in (('int', 'int*'), ('float', 'float*'), ('bool', 'int*'), ('int*', 'int**')):
        expect('load *pointer ' + ty, lv('UNARY', ty, more={G: V.un['UN_INDIRECTION'], (GT, O): T[pt]}),
               [('sub', 'E', O), 'IC_LATD' if ty == 'float' else 'IC_LAT'], inline=('emit_lvalue',))
    # designators behind an address: a pointer is not read through, an array is its first word
    for ty, tail in (('int', []), ('int*', []), ('bool', []), ('int[]', ['IC_LAT'])):
        expect('element designator %s' % ty, lv('SUBSCRIPT', ty, more={(GT, SB): T['int[][]']}),
               [('sub', 'E', SB), ('sub', 'E', SX), 'IC_SLICE', 1] + tail, root='emit_lvalue')
        more = {(GT, MB): T['struct*'], 'expression_member_get_member_index': 1, 'expression_member_is_arrow': 1}
        expect('-> designator %s' % ty, lv('MEMBER', ty, more=more), [('sub', 'E', MB), 'IC_SELECT', 1] + tail, root='emit_lvalue')
    expect('* designator', lv('UNARY', 'int', more={G: V.un['UN_INDIRECTION'], (GT, O): T['int*']}), [('sub', 'E', O)],
           root='emit_lvalue')
    # calls
    AG = 'expression_call_get_argument'
    CID = 'expression_identifier_get_id'
    user = ctx.prog.ev(V.m, 'BEGIN_USER_FUNC')
    more = {CID: user + 4, 'expression_call_get_arguments_amount': 2, GT: T['int'], GC: V.expr['EXPR_BINARY']}
    s = base('CALL', 'int', more=more)
    expect('call of a user function', s,
           ['IC_CALL1', ('sub', 'E', AG + '[0]'), ('sub', 'E', AG + '[1]'), 'IC_CALL2',
            ('v', lambda v: callee(v, 'functions_get') and v[2][1] == user + 4, 'function number')])
    ctx.minimum('template', 100)
    ctx.rule('abi', 'every instruction has the code number that the virtual machine executes')
    with open(os.path.join(os.path.dirname(__file__), '..', 'vm_abi.json')) as f:
        abi = json.load(f)
    for n, v in sorted(abi.items()):
        ctx.ob('abi', n, V.ic.get(n) == v, 'libs/compiler/instructions.h', '%s is %s instead of %d' % (n, V.ic.get(n), v))
    check_void(ctx, V, base, GC, GT, LVV)


def check_void(ctx, V, base, GC, GT, LVV):
    """Value-dropping variants."""
    ctx.rule('void', 'an assignment, increment or decrement whose value is not used is emitted in the variant that leaves no '
                     'value behind')
    P = ctx.prog
    f = P.need('instruction_to_void_ver')
    names = []
    for op, fl in ASSIGN.items():
        for r in ('', '_R') if fl else ('',):
            for at in ('', '_AT'):
                names.append('IC_%sASSIGN%s%s' % (op, at, r))
    for op in ('POST_INC', 'POST_DEC', 'PRE_INC', 'PRE_DEC'):
        for r in ('', '_R'):
            for at in ('', '_AT'):
                names.append('IC_%s%s%s' % (op, at, r))
    for n in names:
        got = ctx.returns(f, {0: V.ic[n]})
        ctx.ob('void', n, got == {V.ic[n + '_V']}, 'libs/compiler/instructions.c (instruction_to_void_ver)',
               'unused value of %s is emitted as %s' % (n, [V.icn.get(x, x) for x in got]))
    used = set(names)
    for n, v in V.ic.items():
        if n.startswith('IC_') and n not in used:
            got = ctx.returns(f, {0: v})
            ctx.ob('void', n, got == {v}, 'libs/compiler/instructions.c (instruction_to_void_ver)',
                   '%s is changed to %s when its value is not used' % (n, [V.icn.get(x, x) for x in got]))
    # emit_void_expression: the expression is emitted, then exactly its last instruction is replaced by the void variant
    ps, where = V.run('emit_void_expression', {(LVV, 'nd1'): 0}, extra=())
    for p in ps:
        stream, w, ext, end = words(p.events)
        subs = [s for s in stream if s[0] == 'sub']
        ok = len(stream) == 1 and subs and subs[0][2][1:3] == ('E', 'nd1') and len(ext) == 1
        msg = V.render(p)
        if ok:
            # the last word is either the instruction itself or its operand (operands are below the instruction codes)
            at, val, _ = ext[0]
            last = ('memget', pos(1, -1))
            small = None
            for c, t in p.facts.log:
                if isinstance(c, tuple) and c[0] == 'cmp' and c[1] == 'slt' and c[2] == last and c[3] in (9000, 9001):
                    small = bool(t)
                elif isinstance(c, tuple) and c[0] == 'cmp' and c[1] == 'slt' and c[3] == last and c[2] in (8999, 9000):
                    small = not t
            u = unpos(at)
            ok = small is not None and u == ((1, -2) if small else (1, -1))
        ctx.ob('template', 'void expression', ok, where, 'does: ' + msg)
    ps, where = V.run('emit_void_expression', {(LVV, 'nd1'): 1})
    for p in ps:
        ctx.ob('template', 'void lvalue', V.match(p, [('sub', 'LV', 'nd1')]), where, 'does: ' + V.render(p))
    ctx.minimum('void', 40)


def check_stmt(ctx):
    ctx.rule('flow', 'the instruction sequence emitted for the statement contains its parts in order and its jumps are bound to the '
                     'places the language prescribes')
    ctx.rule('context', 'while a body is emitted the break/continue/case chains belong to the innermost construct, they are closed at '
                        'its end, and the chains of the enclosing construct are restored')
    V = Vm(ctx)
    T = V.T.id
    GC = 'statement_get_class'
    names = ('addr_break', 'addr_cond', 'addr_case', 'displ', 'curr_func')
    init = {n: ('init', n) for n in names}
    ENTRY = {init[n] for n in names}

    def memo():
        return {(('arg', 0), V.fld[n], ()): (init[n], 8) for n in names}

    def final(p, n):
        c = p.state.mem.get((('arg', 0), V.fld[n], ()))
        return c[0] if c else ('unread',)

    def stmt(title, cls, want, more=None, body=None, restored=('addr_break', 'addr_cond', 'addr_case', 'displ'), root='emit_statement',
             chains=(), nd=None):
        spec = {(GC, 'nd1'): V.stmt['STMT_' + cls]} if cls else {}
        spec.update(more or {})
        ps, where = V.run(root, spec, mem=memo())
        ctx.need(ps, '%s: no partition for %s' % (where, title))
        for p in ps:
            at = p.events[-1].where() if p.events else where
            ctx.ob('flow', title, V.match(p, want), at, '%s emits: %s' % (title, V.render(p)))
            for n in restored:
                v = final(p, n)
                # a cell that was left to sub-emissions keeps their (balanced) effect
                touched = any(s[0] == 'sub' for s in words(p.events)[0])
                ok = v == init[n] or (v == ('unread',) or (isinstance(v, tuple) and v[0] == 'ld')) and touched and n not in chains
                if not ok and v[0] == 'ld' and body and title.startswith('for(i'):
                    # read after the initialisation, before the body
                    stm = words(p.events)[0]
                    b = [k for k, s in enumerate(stm) if s[0] == 'sub' and s[2][2] == body[0]]
                    later = {s[2][3][names.index(n)] for s in stm[b[0] + 1:] if s[0] in ('sub', 'chain')} if b else {v}
                    ok = v not in later
                ctx.ob('context', '%s restores %s' % (title, n), ok, at, '%s leaves %s as %s' % (title, n, show(v)))
            if body:
                stream = words(p.events)[0]
                subs = [s for s in stream if s[0] == 'sub' and s[2][2] == body[0]]
                ctx.ob('context', '%s body' % title, len(subs) == 1, at, 'the body is emitted %d times' % len(subs))
                for s in subs:
                    for n, okf in body[1].items():
                        v = s[2][3][names.index(n)]
                        ctx.ob('context', '%s body %s' % (title, n), okf(v, s, stream, words(p.events)[1]), at,
                               'the body of %s is emitted with %s = %s' % (title, n, V.sh(v)))
                # closing
                ch = {}
                for s in stream:
                    if s[0] == 'chain':
                        ch.setdefault(s[2][1], []).append(s)
                for name, (cell, lab) in body[2].items():
                    got = ch.get(name, [])
                    k = V.labels(want)[lab]
                    ok = len(got) == 1 and got[0][1] == k
                    ctx.ob('context', '%s closes %s' % (title, cell), ok, at,
                           'chain %s is closed at %s instead of %s' % (cell, [g[1] for g in got], k))
                    for g in got:
                        v = g[2][3][names.index(cell)]
                        ctx.ob('context', '%s closes its own %s' % (title, cell), v is not None and not is_c(v) and v not in ENTRY or v is None,
                               at, 'chain %s of %s is closed with head %s' % (cell, title, V.sh(v) if v is not None else '?'))
                for name in ch:
                    ctx.ob('context', '%s closing calls' % title, name in body[2], at, 'unexpected %s' % name)

    def zero(v, s, stream, w):
        return v == 0

    def zero_or_reserved(v, s, stream, w):
        u = unpos(v)
        return v == 0 or (u is not None and u in w)

    def same(n):
        return lambda v, s, stream, w: v == init[n] or v is None or (isinstance(v, tuple) and v[0] == 'ld')

    def top(v, s, stream, w):
        return unpos(v) == (0, 0)
    g = 'statement_if_'
    stmt('if', 'IF', [('sub', 'E', g + 'get_condition'), 'IC_BE0', ('to', 'end'), ('sub', 'S', g + 'get_then_substmt'), ('lab', 'end')],
         {g + 'has_else_substmt': 0})
    stmt('if-else', 'IF', [('sub', 'E', g + 'get_condition'), 'IC_BE0', ('to', 'else'), ('sub', 'S', g + 'get_then_substmt'), 'IC_B',
                           ('to', 'end'), ('lab', 'else'), ('sub', 'S', g + 'get_else_substmt'), ('lab', 'end')],
         {g + 'has_else_substmt': 1})
    g = 'statement_while_'
    stmt('while', 'WHILE', [('lab', 'top'), ('sub', 'E', g + 'get_condition'), 'IC_BE0', ('to', 'end'), ('sub', 'S', g + 'get_body'), ('lab', 'after'),
                            'IC_B', ('to', 'top'), ('lab', 'end')],
         body=(g + 'get_body', {'addr_break': zero_or_reserved, 'addr_cond': top, 'addr_case': same('addr_case')},
               {'addr_begin_condition': ('addr_cond', 'after'), 'addr_end_break': ('addr_break', 'end')}), chains=('addr_break', 'addr_cond'))
    g = 'statement_do_'
    stmt('do', 'DO', [('lab', 'top'), ('sub', 'S', g + 'get_body'), ('lab', 'cond'), ('sub', 'E', g + 'get_condition'), 'IC_BNE0', ('to', 'top'),
                      ('lab', 'end')],
         body=(g + 'get_body', {'addr_break': zero, 'addr_cond': zero, 'addr_case': same('addr_case')},
               {'addr_end_condition': ('addr_cond', 'cond'), 'addr_end_break': ('addr_break', 'end')}), chains=('addr_break', 'addr_cond'))
    g = 'statement_for_'
    for i in (0, 1):
        for c in (0, 1):
            for n in (0, 1):
                w = ([('sub', 'S', g + 'get_inition')] if i else []) + [('lab', 'top')]
                w += [('sub', 'E', g + 'get_condition'), 'IC_BE0', ('to', 'end')] if c else []
                w += [('sub', 'S', g + 'get_body'), ('lab', 'cont')]
                w += [('sub', 'X', g + 'get_increment')] if n else []
                w += ['IC_B', ('to', 'top'), ('lab', 'end')]
                stmt('for(%s;%s;%s)' % ('i' * i, 'c' * c, 'n' * n), 'FOR', w,
                     {g + 'has_inition': i, g + 'has_condition': c, g + 'has_increment': n},
                     body=(g + 'get_body', {'addr_break': zero_or_reserved, 'addr_cond': zero, 'addr_case': same('addr_case')},
                           {'addr_end_condition': ('addr_cond', 'cont'), 'addr_end_break': ('addr_break', 'end')}),
                     chains=('addr_break', 'addr_cond', 'displ'))
    g = 'statement_switch_'
    # the last unmatched case label falls out of the switch
    ps, where = V.run('emit_statement', {(GC, 'nd1'): V.stmt['STMT_SWITCH']}, mem=memo())
    ctx.need(ps, 'no partition for switch')
    for p in ps:
        at = p.events[-1].where()
        stream, w, ext, end = words(p.events)
        ctx.ob('flow', 'switch', V.match(p, [('sub', 'E', g + 'get_condition'), ('sub', 'S', g + 'get_body')]), at, 'switch emits: ' + V.render(p))
        subs = [s for s in stream if s[0] == 'sub' and s[2][2] == g + 'get_body']
        for s in subs:
            c = dict(zip(names, s[2][3]))
            ctx.ob('context', 'switch body', c['addr_break'] == 0 and c['addr_case'] == 0, at,
                   'the switch body is emitted with break chain %s, case chain %s' % (V.sh(c['addr_break']), V.sh(c['addr_case'])))
            ctx.ob('context', 'switch body continue', same('addr_cond')(c['addr_cond'], 0, 0, 0), at, 'continue chain is ' + V.sh(c['addr_cond']))
        ch = [s for s in stream if s[0] == 'chain']
        ctx.ob('context', 'switch closes break', [s[2][1] for s in ch] == ['addr_end_break'] and ch[0][1] == end, at, 'closing calls: %s' % [s[2][1] for s in ch])
        for s in ch:
            v = s[2][3][0]
            ctx.ob('context', 'switch closes its own breaks', v is None or not is_c(v) and v not in ENTRY, at, 'break chain closed with head ' + V.sh(v))
        # pending case: if one is open, it is bound to the end
        bound = [x for x in ext if isinstance(x[0], tuple) and x[0][0] == 'ld']
        opened = None
        for c, t in p.facts.log:
            if isinstance(c, tuple) and c[0] == 'cmp' and any(isinstance(x, tuple) and x[0] == 'ld' and split(x[1])[1] == V.fld['addr_case'] for x in c[2:]):
                opened = (c[1] == 'eq') != bool(t) if c[1] in ('eq', 'ne') else bool(t)
                if c[1] == 'ne':
                    opened = bool(t)
        cells = [split(x[0][1])[1] for x in bound]
        if opened is False:
            ctx.ob('flow', 'switch without open case', not ext, at, 'emits ' + V.render(p))
        else:
            ctx.ob('flow', 'switch with open case', len(ext) == 1 and cells == [V.fld['addr_case']] and unpos(ext[0][1]) == end, at, 'emits ' + V.render(p))
        for n in ('addr_break', 'addr_case'):
            ctx.ob('context', 'switch restores ' + n, final(p, n) == init[n], at, '%s is left as %s' % (n, show(final(p, n))))
    # labels
    for cls, g in (('CASE', 'statement_case_'), ('DEFAULT', 'statement_default_')):
        for op in (0, 1):
            m = memo()
            m[(('arg', 0), V.fld['addr_case'], ())] = (('init', 'addr_case') if op else 0, 8)
            ps, where = V.run('emit_statement', {(GC, 'nd1'): V.stmt['STMT_' + cls]}, mem=m)
            for p in ps:
                if op and p.facts.eq.get(('init', 'addr_case')) == 0:
                    continue
                at = p.events[-1].where() if p.events else where
                stream, w, ext, end = words(p.events)
                want = [('sub', 'S', g + 'get_substmt')]
                if cls == 'CASE':
                    want = ['IC_DUPLICATE', ('sub', 'E', g + 'get_expression'), 'IC_EQ', 'IC_BE0', ('v', lambda v: v == 0, ''), ('sub', 'S', g + 'get_substmt')]
                ctx.ob('flow', cls.lower(), V.match(p, want), at, '%s emits: %s' % (cls.lower(), V.render(p)))
                if op:
                    ok = len(ext) == 1 and ext[0][0] == init['addr_case'] and unpos(ext[0][1]) == (0, 0)
                    ctx.ob('flow', cls.lower() + ' binds the label before it', ok, at, 'emits ' + V.render(p))
                else:
                    ctx.ob('flow', cls.lower() + ' first', not ext, at, 'emits ' + V.render(p))
                s = [s for s in stream if s[0] == 'sub' and s[2][1] == 'S']
                c = dict(zip(names, s[0][2][3])) if s else {}
                exp = (1, 2) if cls == 'CASE' else None
                got = c.get('addr_case')
                ctx.ob('context', cls.lower() + ' chain', unpos(got) == exp if exp else got == 0, at, 'case chain inside is ' + V.sh(got))
    # jumps
    for cls, n in (('BREAK', 'addr_break'), ('CONTINUE', 'addr_cond')):
        ps, where = V.run('emit_statement', {(GC, 'nd1'): V.stmt['STMT_' + cls]}, mem=memo())
        for p in ps:
            at = p.events[-1].where() if p.events else where
            ctx.ob('flow', cls.lower(), V.match(p, ['IC_B', ('v', lambda v: strip(v) == init[n], '')]), at, 'emits ' + V.render(p))
            ctx.ob('context', cls.lower() + ' enters its chain', unpos(final(p, n)) == (0, 1), at, '%s becomes %s' % (n, V.sh(final(p, n))))
            for o in ('addr_break', 'addr_cond', 'addr_case'):
                if o != n:
                    ctx.ob('context', cls.lower() + ' leaves ' + o, final(p, o) == init[o], at, '%s becomes %s' % (o, V.sh(final(p, o))))
    g = 'statement_return_'
    for ty, sz in (('int', 1), ('float', 2), ('struct', 4), ('int*', 1), ('bool', 1)):
        stmt('return ' + ty, 'RETURN', [('sub', 'E', g + 'get_expression'), 'IC_RETURN_VAL', sz],
             {g + 'has_expression': 1, 'expression_get_type': T[ty]})
    stmt('return', 'RETURN', ['IC_RETURN_VOID'], {g + 'has_expression': 0})
    stmt('empty', 'NULL', [])
    stmt('expression', 'EXPR', [('sub', 'X', 'nd1')])
    for n in (0, 1, 3, MANY):
        stmt('%d declarations' % n, 'DECL', [('sub', 'D', 'statement_declaration_get_declarator[%d]' % k) for k in range(n)],
             {'statement_declaration_get_size': n})
        stmt('compound of %d' % n, 'COMPOUND', [('sub', 'S', 'statement_compound_get_substmt[%d]' % k) for k in range(n)],
             {'statement_compound_get_size': n}, chains=('displ',))
    check_chain(ctx, V, memo, init, final)
    check_decl(ctx, V, memo, init, final)
    ctx.minimum('flow', 30)


def strip(v):
    while isinstance(v, tuple) and v[0] == 'cast':
        v = v[4]
    return v


def check_chain(ctx, V, memo, init, final):
    """The helpers that close a chain of pending jumps."""
    ctx.rule('chain', 'closing a chain patches every pending jump of the chain to the place it is closed at, and stops at its end')
    for fname, cell, stop in (('addr_end_break', 'addr_break', 0), ('addr_end_condition', 'addr_cond', 0),
                              ('addr_begin_condition', 'addr_cond', ('arg', 1))):
        ps, where = V.run(fname, {}, mem=memo(), cut='always', inline=(fname,))
        kinds = {p.kind for p in ps}
        ctx.ob('chain', fname + ' shape', kinds == {'ret', 'back'}, where, 'the chain is not walked (%s)' % sorted(kinds))
        for p in ps:
            stream, w, ext, end = words(p.events)
            eqs = p.facts.eq.get(init[cell]) == stop or any(
                isinstance(c, tuple) and c[0] == 'cmp' and c[1] == 'eq' and set(c[2:4]) == {init[cell], stop} and t
                or isinstance(c, tuple) and c[0] == 'cmp' and c[1] == 'ne' and set(c[2:4]) == {init[cell], stop} and not t
                for c, t in p.facts.log)
            if p.kind == 'ret':
                ctx.ob('chain', fname + ' end', eqs and not ext and not stream, where,
                       'returns without reaching the end of the chain, or after: ' + V.render(p))
            else:
                tgt = ext and (unpos(ext[0][1]) == (0, 0) if stop == 0 else strip(ext[0][1]) == stop)
                ctx.ob('chain', fname + ' step', len(ext) == 1 and strip(ext[0][0]) == init[cell] and tgt and not stream, where,
                       'patches: ' + V.render(p))
                nx = strip(final(p, cell))
                ctx.ob('chain', fname + ' next', isinstance(nx, tuple) and nx[0] == 'memget' and strip(nx[1]) == init[cell], where,
                       'goes on at ' + show(nx))


def check_decl(ctx, V, memo, init, final):
    ctx.rule('declaration', 'the code emitted for a declaration initialises the declared object at its own displacement')
    T = V.T.id
    P = ctx.prog
    DC = 'declaration_get_class'
    decl = P.enum(V.m, 'declaration_t')
    IMAX = 0x7fffffffffffffff

    def disp(v):
        return callee(v, 'displacements_add') and 'declaration_variable_get_id' in repr(v)
    D = ('v', disp, 'displacement')

    def iniproc(v):
        return callee(v, 'proc_get')
    I = ('v', iniproc, '')

    def expect(title, spec, want, root='emit_declaration', rule='declaration', post=None):
        ps, where = V.run(root, spec, mem=memo())
        ps = [p for p in ps if p.kind == 'ret']
        ctx.need(ps, '%s: no partition' % title)
        for p in ps:
            at = p.events[-1].where() if p.events else where
            w = want(p) if callable(want) else want
            if w is not None:
                ctx.ob(rule, title, V.match(p, w), at, '%s emits: %s' % (title, V.render(p)))
            if post:
                post(p, at)
    g = 'declaration_variable_'
    for ty, st in (('int', ['IC_ASSIGN_V', D]), ('char', ['IC_ASSIGN_V', D]), ('bool', ['IC_ASSIGN_V', D]), ('int*', ['IC_ASSIGN_V', D]),
                   ('float', ['IC_ASSIGN_R_V', D]), ('const int', ['IC_ASSIGN_V', D]), ('const float', ['IC_ASSIGN_R_V', D]),
                   ('struct', ['IC_COPY0ST_ASSIGN', D, 4]), ('const struct', ['IC_COPY0ST_ASSIGN', D, 4])):
        for hasinit in (0, 1):
            for proc in ((0, 77) if 'struct' in ty else (0,)):
                w = (['IC_STRUCT_WITH_ARR', D, 77] if proc else []) + ([('sub', 'E', g + 'get_initializer')] + st if hasinit else [])
                expect('variable %s%s%s' % (ty, ' = e' if hasinit else '', ' with arrays' if proc else ''),
                       {(DC, 'nd1'): decl['DECL_VAR'], 'ident_get_type': T[ty], g + 'has_initializer': hasinit, 'proc_get': proc,
                        ('expression_get_type', g + 'get_initializer'): T[ty]}, w)
    EC = 'expression_get_class'
    for ty, dims, ln in (('int[]', 1, 1), ('float[]', 1, 2), ('int[][]', 2, 1), ('const char[]', 1, 1)):
        for hasinit in (0, 1):
            spec = {(DC, 'nd1'): decl['DECL_VAR'], 'ident_get_type': T[ty], g + 'has_initializer': hasinit, 'proc_get': 0,
                    EC: V.expr['EXPR_BINARY'], 'expression_get_type': T[ty]}
            w = [('sub', 'E', g + 'get_bound[%d]' % k) for k in range(dims)]
            w += ['IC_DEFARR', dims - 1 if hasinit else dims, ln, D, 0, 1, hasinit, 0]
            if hasinit:
                w += [('sub', 'E', g + 'get_initializer'), 'IC_ARR_INIT', dims, ln, D, 1]
            expect('array %s%s' % (ty, ' = e' if hasinit else ''), spec, w)
    # functions
    g = 'declaration_function_'
    MX = P.field(V.m, 'encoder', 'max_local_displ')

    def fpost(p, at, n):
        ctx.ob('declaration', 'function leaves no current function', final(p, 'curr_func') == 0, at, 'curr_func is ' + show(final(p, 'curr_func')))
        adds = [e for e in p.events if e.name == 'functions_add']
        ok = len(adds) == 1 and unpos(adds[0].args[2]) == (0, 0) and callee(adds[0].args[1], g + 'get_id')
        ctx.ob('declaration', 'function entry', ok, at, 'the function is entered in the table with %s' % [show(e.args) for e in adds])
        ad = [e for e in p.events if e.name == 'displacements_add']
        ok = all(callee(e.args[1], g + 'get_parameter') and e.args[1][2][1] == k for k, e in enumerate(ad)) and len(ad) == n
        ctx.ob('declaration', 'parameters are laid out in order', ok, at, 'parameters: %s' % [show(e.args[1]) for e in ad])
        # no displacement restart after the parameters and before the body
        k = [n for n, e in enumerate(p.events) if e.name == 'displacements_add']
        b = [n for n, e in enumerate(p.events) if e.name == 'emit_statement']
        ctx.ob('declaration', 'parameters precede the body', bool(b) and (not k or max(k) < b[0]), at, '')

    def mx(v):
        v = strip(v)
        return isinstance(v, tuple) and v[0] == 'ld' and split(v[1])[1] == MX
    for n in (0, 1, 3, MANY):
        ps, where = V.run('emit_declaration', {(DC, 'nd1'): decl['DECL_FUNC'], g + 'get_parameters_amount': n}, mem=memo(),
                          extra=('functions_add', 'displacements_add'))
        for p in ps:
            at = p.events[-1].where()
            ctx.ob('declaration', 'function', V.match(p, ['IC_FUNC_BEG', ('v', mx, ''), ('to', 'end'), ('sub', 'S', g + 'get_body'), 'IC_RETURN_VOID',
                                                          ('lab', 'end')]), at, 'function emits: ' + V.render(p))
            fpost(p, at, n)
    # the program: declarations in order, then the call of main
    ref = P.field(V.m, 'syntax', 'ref_main')
    for n in (1, 2, MANY):
        ps, where = V.run('emit_translation_unit', {'translation_unit_get_size': n}, mem=memo())
        for p in ps:
            ctx.ob('declaration', 'program', V.match(p, [('sub', 'D', 'translation_unit_get_declaration[%d]' % k) for k in range(n)] + [
                'IC_CALL1', 'IC_CALL2', ('v', lambda v: callee(v, 'displacements_get') and any(
                    isinstance(x, tuple) and x[0] == 'ld' and split(x[1])[1] == ref for x in v[2]), ''), 'IC_STOP']),
                where, 'program emits: ' + V.render(p))
    # structure constructor
    g = 'declaration_struct_'
    V.T.add('struct[]', 'STRUCTURE', 3, 4, T['float'], 11, T['int[]'], 12) if 'struct[]' not in T else None
    spec = {(DC, 'nd1'): decl['DECL_STRUCT'], g + 'get_type': T['struct'], g + 'get_size': 3}
    expect('structure without arrays', spec, [])
    spec = {(DC, 'nd1'): decl['DECL_STRUCT'], g + 'get_type': T['struct[]'], g + 'get_size': 2, DC: decl['DECL_MEMBER'], 'proc_get': 0,
            ('declaration_member_get_type', g + 'get_member[0]'): T['float'], ('declaration_member_get_type', g + 'get_member[1]'): T['int[]'],
            'declaration_member_get_bounds_amount': 1}
    ps, where = V.run('emit_declaration', spec, mem=memo(), extra=('proc_set',))
    for p in ps:
        at = p.events[-1].where()
        B = 'declaration_member_get_bound(%s)[0]' % (g + 'get_member[1]')
        ctx.ob('declaration', 'structure with arrays',
               V.match(p, ['IC_B', ('to', 'end'), ('sub', 'E', B), 'IC_DEFARR', 1, 1, 2, 0, 1, 0, 1, 'IC_STOP', ('lab', 'end')]), at,
               'emits: ' + V.render(p))
        ps_ = [e for e in p.events if e.name == 'proc_set']
        ok = len(ps_) == 1 and ps_[0].args[1] == T['struct[]'] and unpos(ps_[0].args[2]) == (0, 2)
        ctx.ob('declaration', 'structure constructor entry', ok, at, 'constructor entered as %s' % [show(e.args) for e in ps_])
    # many members, several bounds, arrays of structures with arrays, a structure declared among the members
    MT = 'declaration_member_get_type'
    BA = 'declaration_member_get_bounds_amount'
    GM = g + 'get_member[%d]'
    for pre in (0, 5, MANY):
        for proc in (0, 77, IMAX):
            ms = ['float'] * pre + ['int[]', 'nested', 'int[][]', 'struct[][]', 'int', 'float[]']
            V.T.add('struct[][]', 'ARRAY', T['struct']) if 'struct[][]' not in T else None
            name = 'members%d' % pre
            if name not in T:
                words = []
                for k, t in enumerate(ms):
                    words += [T[t], 60 + k] if t != 'nested' else []
                V.T.add(name, 'STRUCTURE', 2 * pre + 5, len(words), *words)
            spec = {(DC, 'nd1'): decl['DECL_STRUCT'], g + 'get_type': T[name], g + 'get_size': len(ms), DC: decl['DECL_MEMBER'],
                    'proc_get': proc}
            w, at = ['IC_B', ('to', 'end')], 0
            for k, t in enumerate(ms):
                if t == 'nested':
                    spec[(DC, GM % k)] = decl['DECL_STRUCT']
                    w.append(('sub', 'D', GM % k))
                    continue
                spec[(MT, GM % k)] = T[t]
                dims = {'int[]': 1, 'int[][]': 2, 'struct[][]': 1, 'float[]': 1}.get(t, 0)
                spec[(BA, GM % k)] = dims
                w += [('sub', 'E', 'declaration_member_get_bound(%s)[%d]' % (GM % k, j)) for j in range(dims)]
                if dims:
                    w += ['IC_DEFARR', dims, {'float[]': 2, 'struct[][]': 4}.get(t, 1), at, 77 if proc == 77 else 0, 1, 0, 1]
                at += 2 if t == 'float' else 1
            expect('structure with %d members' % len(ms), spec, w + ['IC_STOP', ('lab', 'end')])
    ty = 'int[][]'
    for dims in range(3, 12):
        V.T.add('deep%d' % dims, 'ARRAY', T[ty])
        ty = 'deep%d' % dims
        if dims not in (3, 11):
            continue
        spec = {(DC, 'nd1'): decl['DECL_STRUCT'], g + 'get_type': V.T.add('of ' + ty, 'STRUCTURE', 1, 2, T[ty], 60), g + 'get_size': 1,
                DC: decl['DECL_MEMBER'], 'proc_get': 0, MT: T[ty], BA: dims}
        V.rec = True
        expect('member of %d dimensions' % dims, spec, ['IC_B', ('to', 'end')] + [
            ('sub', 'E', 'declaration_member_get_bound(%s)[%d]' % (GM % 0, j)) for j in range(dims)] + ['IC_DEFARR', dims, 1, 0, 0, 1, 0, 1, 'IC_STOP', ('lab', 'end')])
        V.rec = False
    # arrays: the structures of an array are initialised by their constructor; strings and empty bounds are marked
    V.rec = True
    g = 'declaration_variable_'
    EMPTY = V.expr['EXPR_EMPTY_BOUND']
    for proc in (0, 77, IMAX):
        expect('array of structures', {(DC, 'nd1'): decl['DECL_VAR'], 'ident_get_type': T['struct[][]'], g + 'has_initializer': 0, 'proc_get': proc,
                                       EC: V.expr['EXPR_BINARY'], 'expression_get_type': T['struct[][]']},
               [('sub', 'E', g + 'get_bound[0]'), 'IC_DEFARR', 1, 4, D, 77 if proc == 77 else 0, 1, 0, 0])
    INI = g + 'get_initializer'
    SUB = 'expression_initializer_get_subexpr(%s)[%d]'
    LIT, LST, BIN = (V.expr['EXPR_' + x] for x in ('LITERAL', 'INITIALIZER', 'BINARY'))
    ET = 'expression_get_type'
    V.T.add('char[][]', 'ARRAY', T['char[]']) if 'char[][]' not in T else None
    for empty in (0, 1):
        for n in (0, 1, 3, MANY):
            for bad in (None, 'last', 'first'):
                if n == 0 and bad or n == 1 and bad == 'first':
                    continue
                for how in ((LIT, 'int'), (BIN, 'char[]')) if bad else ((None, None),):
                    spec = {(DC, 'nd1'): decl['DECL_VAR'], 'ident_get_type': T['char[][]'] if n else T['char[]'], g + 'has_initializer': 1, 'proc_get': 0,
                            EC: BIN, (EC, INI): LST if n else LIT, (ET, INI): T['char[][]'] if n else T['char[]'],
                            ('expression_initializer_get_size', INI): n}
                    for k in range(n):
                        spec[(EC, SUB % (INI, k))] = LIT
                        spec[(ET, SUB % (INI, k))] = T['char[]']
                    if bad:
                        k = n - 1 if bad == 'last' else 0
                        spec[(EC, SUB % (INI, k))] = how[0]
                        spec[(ET, SUB % (INI, k))] = T[how[1]]
                    dims = 2 if n else 1
                    last = g + 'get_bound[%d]' % (dims - 1)
                    if empty:
                        spec[(EC, last)] = EMPTY
                    u = (0 if empty else 1) + (0 if bad else 2)
                    w = [('sub', 'E', g + 'get_bound[%d]' % k) for k in range(dims - empty)]
                    w += ['IC_DEFARR', dims - 1, 1, D, 0, u, 1, 0, ('sub', 'E', INI), 'IC_ARR_INIT', dims, 1, D, u]
                    expect('array of strings', spec, w)
    V.rec = False
    # displacements
    fn = P.need('displacements_add', V.m)
    off = {n: P.field(V.m, 'encoder', n) for n in ('displ', 'max_local_displ', 'max_global_displ', 'curr_func')}
    for loc in (0, 1):
        for ty, sz, hi in [(t, z, h) for t, z in (('int', 1), ('float', 2), ('struct', 4), ('func', 1), ('int[]', 1)) for h in (10, 11, 50)]:
            m = {(('arg', 0), off['displ'], ()): (10, V.isz), (('arg', 0), off['max_local_displ'], ()): (hi, V.isz),
                 (('arg', 0), off['max_global_displ'], ()): (20, V.isz),
                 (('arg', 0), off['curr_func'], ()): (('fn',) if loc else 0, 8)}
            fs = {}
            ps, where = V.run('displacements_add', {'ident_get_type': T[ty]}, mem=m, extra=('vector_set',), inline=('displacements_add',))
            for p in ps:
                if loc and p.facts.eq.get(('fn',)) == 0:
                    continue
                c = {n: p.state.mem.get((('arg', 0), off[n], ()), (None,))[0] for n in off}
                want = ((-10 if ty == 'func' else 10), 10 + sz, max(10 + sz, hi), 20) if loc else (-20, 10, hi, 20 + sz)
                got = (p.ret, c['displ'], c['max_local_displ'], c['max_global_displ'])
                ctx.ob('declaration', 'place of a %s %s' % ('local' if loc else 'global', ty), got == want, where,
                       '(place, next local, local area, global area) = %s instead of %s' % (got, want))
                sets = [e for e in p.events if e.name == 'vector_set']
                ctx.ob('declaration', 'place recorded', len(sets) == 1 and sets[0].args[1:] == [('arg', 1), want[0]] or
                       len(sets) == 1 and tuple(sets[0].args[1:]) == (('arg', 1), want[0]), where, 'recorded: %s' % sets)
    ctx.minimum('declaration', 40)


BUILTIN_IC = {'T_JOIN': 'JOIN', 'T_SLEEP': 'SLEEP', 'T_CREATE': 'CREATE', 'T_INIT': 'INIT', 'T_DESTROY': 'DESTROY', 'T_EXIT': 'EXIT',
              'T_GETNUM': 'GETNUM'}
BUILTINS = ('SQRT EXP SIN COS LOG LOG10 ASIN RAND ROUND STRNCPY STRCAT STRCMP STRNCMP STRSTR ASSERT MSG_SEND MSG_RECEIVE T_JOIN T_SLEEP '
            'SEM_CREATE SEM_WAIT SEM_POST T_CREATE T_INIT T_DESTROY T_EXIT T_GETNUM ROBOT_SEND_INT ROBOT_SEND_FLOAT ROBOT_SEND_STRING '
            'ROBOT_RECEIVE_INT ROBOT_RECEIVE_FLOAT ROBOT_RECEIVE_STRING FOPEN FGETC FPUTC FCLOSE STRCPY STRNCAT STRLEN EXIT').split()


def check_calls(ctx):
    ctx.rule('builtin', 'a call of a built-in function evaluates its arguments in order and ends in the instruction of that function')
    ctx.rule('call', 'a call reaches the function it names: by its table number, by a patched reference when the definition follows, '
                     'or through the parameter that holds it')
    V = Vm(ctx)
    T = V.T.id
    P = ctx.prog
    GT, GC, LVV = 'expression_get_type', 'expression_get_class', 'expression_is_lvalue'
    CID, AG = 'expression_identifier_get_id', 'expression_call_get_argument'
    bi = P.enum(V.m, 'builtin_t')

    def calls(ident, n, types='int', more=None, **kw):
        spec = {(GC, 'nd1'): V.expr['EXPR_CALL'], (LVV, 'nd1'): 0, (GT, 'nd1'): T['int'],
                (CID, 'expression_call_get_callee'): ident, 'expression_call_get_arguments_amount': n, GC: V.expr['EXPR_BINARY']}
        for k in range(n):
            spec[(GT, AG + '[%d]' % k)] = T[types if isinstance(types, str) else types[k]]
        spec.update(more or {})
        return V.run('emit_expression', spec, **kw)
    have = {n[3:] for n in bi}
    for n in BUILTINS:
        if n not in have:
            continue
        ic = 'IC_' + BUILTIN_IC.get(n, n)
        for argc in (0, 1, 2, 3) + ((MANY,) if n in ('SQRT', 'STRCPY') else ()):
            ps, where = calls(bi['BI_' + n], argc)
            for p in ps:
                want = [('sub', 'E', AG + '[%d]' % k) for k in range(argc)] + [ic if ic in V.ic else ('v', lambda v: False, '')]
                ctx.ob('builtin', n.lower(), V.match(p, want), where, 'a call of %s emits: %s' % (n.lower(), V.render(p)))
    A = [('sub', 'E', AG + '[%d]' % k) for k in range(MANY)]
    for argc, ty, size in ((1, ('char[]',), 0), (2, ('char[]', 'int'), 1), (3, ('char[]', 'float', 'int'), 3), (3, ('char[]', 'float', 'float'), 4),
                           (MANY, ('char[]',) + ('float', 'int', 'char', 'int*') * 4, 20)):
        ps, where = calls(bi['BI_PRINTF'], argc, ty)
        for p in ps:
            ctx.ob('builtin', 'printf', V.match(p, A[1:argc] + A[:1] + ['IC_PRINTF', size]), where, 'printf with %d arguments emits: %s' % (argc, V.render(p)))
    for argc in (0, 1, 3, MANY):
        for ty, tv in (('int', T['int']), ('float', T['float']), ('struct', T['struct']), ('const int', T['int'])):
            ps, where = calls(bi['BI_PRINT'], argc, ty)
            for p in ps:
                w = []
                for k in range(argc):
                    w += [A[k], 'IC_PRINT', tv]
                ctx.ob('builtin', 'print', V.match(p, w), where, 'print of %d %s emits: %s' % (argc, ty, V.render(p)))
    for n in ('PRINTID', 'GETID'):
        for argc in (0, 1, 2, MANY):
            ps, where = calls(bi['BI_' + n], argc, extra=('compress_ident',))
            for p in ps:
                seq = [(e.name, e.args) for e in p.events if e.name in ('vector_add', 'compress_ident')]
                ok = len(seq) == 2 * argc and all(x[0] == 'vector_add' and x[1][1] == V.ic['IC_' + n] for x in seq[::2]) \
                    and all(x[0] == 'compress_ident' and callee(x[1][1], CID) for x in seq[1::2]) \
                    and len({repr(x[1][1]) for x in seq[1::2]}) == argc
                ctx.ob('builtin', n.lower(), ok, where, '%s of %d names emits: %s' % (n.lower(), argc, str(seq)[:400]))
    # user functions
    user = P.ev(V.m, 'BEGIN_USER_FUNC')
    for argc in (0, 1, 2, 3, MANY):
        for u in (user, user + 4, user + 400):
            ps, where = calls(u, argc)
            for p in ps:
                w = ['IC_CALL1'] + A[:argc] + ['IC_CALL2', ('v', lambda v: callee(v, 'functions_get') and v[2][1] == u, 'function number')]
                ctx.ob('call', 'user function', V.match(p, w), where, 'a call emits: ' + V.render(p))
    # a function passed as an argument: by number, or out of the parameter that holds it
    spec = {(GT, 'nd1'): T['func'], (GC, 'nd1'): V.expr['EXPR_IDENTIFIER']}
    ps, where = V.run('emit_argument', spec)
    for p in ps:
        stream, w, ext, end = words(p.events)
        ws = [w[s[1]] for s in stream if s[0] == 'w']
        ok = len(ws) == 2 and len(stream) == 2 and ws[0] in (V.ic['IC_LI'], V.ic['IC_LOAD']) and 'displacements_get' in repr(ws[1])
        neg = None
        for c, t in p.facts.log:
            if isinstance(c, tuple) and c[0] == 'cmp' and c[1] == 'slt' and callee(c[2], 'displacements_get') and c[3] == 0:
                neg = bool(t)
            elif isinstance(c, tuple) and c[0] == 'cmp' and c[1] == 'slt' and callee(c[3], 'displacements_get') and c[2] == -1:
                neg = not t
        if ok and neg is not None:
            ok = (ws[0] == V.ic['IC_LOAD']) == neg
        ctx.ob('call', 'function as argument', ok, where, 'emits: ' + V.render(p))
    for ty in ('int', 'float', 'struct', 'int[]', 'int*'):
        spec = {(GT, 'nd1'): T[ty], (GC, 'nd1'): V.expr['EXPR_BINARY']}
        ps, where = V.run('emit_argument', spec)
        for p in ps:
            ctx.ob('call', 'argument ' + ty, V.match(p, [('sub', 'E', 'nd1')]), where, 'emits: ' + V.render(p))
    SI = 'expression_initializer_get_subexpr'
    for ty, n in (('int', 1), ('float', 1), ('int', 2), ('float', 2), ('int', MANY), ('float', MANY)):
        spec = {(GT, 'nd1'): T[ty + '[]'], (GC, 'nd1'): V.expr['EXPR_INITIALIZER'], GT: T[ty], GC: V.expr['EXPR_LITERAL'],
                'expression_initializer_get_size': n}
        ps, where = V.run('emit_argument', spec)
        for p in ps:
            if ty == 'int':
                w = ['IC_LI', ('to', 'data'), 'IC_B', ('to', 'end'), n, ('lab', 'data')] + \
                    [('v', lambda v, k=k: callee(v, 'expression_literal_get_integer') and getter(v[2][0]) == SI + '[%d]' % k, '') for k in range(n)] + \
                    [('lab', 'end')]
            else:
                w = ['IC_LI', ('to', 'data'), 'IC_B', ('to', 'end'), n, ('lab', 'data')] + [('sub', 'DBL', None)] * n + [('lab', 'end')]
            ctx.ob('call', 'array argument of ' + ty, V.match(p, w), where, 'emits: ' + V.render(p))
        spec[GC] = V.expr['EXPR_BINARY']
        ps, where = V.run('emit_argument', spec)
        for p in ps:
            ctx.ob('call', 'non-constant array argument is refused', any(e.name == 'report_error' for e in p.events), where, 'emits: ' + V.render(p))
    # string literal: address of its characters, jump over them, length in front
    spec = {(GC, 'nd1'): V.expr['EXPR_LITERAL'], (LVV, 'nd1'): 0, (GT, 'nd1'): T['char[]']}
    ps, where = V.run('emit_expression', spec)
    one = 0
    for p in ps:
        if p.kind == 'ret':
            ctx.ob('call', 'string', V.match(p, ['IC_LI', ('to', 'data'), 'IC_B', ('to', 'end'), 0, ('lab', 'data'), ('lab', 'end')]) or 'utf8_convert' in V.render(p),
                   where, 'an empty string emits: ' + V.render(p))
        else:
            one += 1
            ctx.ob('call', 'string character', 'utf8_convert' in V.render(p), where, 'a character emits: ' + V.render(p))
    # references to functions: table number, patch list
    DO = P.field(V.m, 'encoder', 'displacements')
    FO = P.field(V.m, 'encoder', 'functions')
    m = {(('arg', 0), V.fld['curr_func'], ()): (0, 8)}
    ps, where = V.run('functions_get', {}, mem=m, inline=('functions_get',), extra=('vector_set',))
    for p in ps:
        if p.kind != 'ret':
            continue
        sets = [e for e in p.events if e.name == 'vector_set']
        rd = [x for x in walk(p.ret) if isinstance(x, tuple) and x[:2] == ('call', 'vector_get')]
        ok = bool(rd) and all(split(r[2][0])[1] == DO and r[2][1] == ('arg', 1) for r in rd)
        ctx.ob('call', 'function reference', ok, where, 'returns ' + show(p.ret))
        sign = sgn_of(p, lambda x: callee(x, 'vector_get'))
        if sign == 'pos':
            ctx.ob('call', 'defined function', not sets, where, 'a reference to a defined function changes the table: %s' % sets)
        elif sign == 'nonpos':
            v = sets[0].args[2] if len(sets) == 1 else None
            okv = len(sets) == 1 and split(sets[0].args[0])[1] == DO and sets[0].args[1] == ('arg', 1) and 'pos' in repr(v)
            ctx.ob('call', 'forward reference is recorded', okv, where, 'records %s' % sets)
    ps, where = V.run('functions_add', {}, inline=('functions_add',), extra=('vector_add', 'vector_set'))
    for p in ps:
        adds = [e for e in p.events if e.name == 'vector_add' and split(e.args[0])[1] == FO]
        ok = len(adds) == 1 and strip(adds[0].args[1]) == ('arg', 2)
        ctx.ob('call', 'definition gets a number', ok, where, 'table entries: %s' % adds)
        sets = [e for e in p.events if e.name == 'vector_set' and split(e.args[0])[1] == DO]
        ok = len(sets) >= 1 and sets[0].args[1] == ('arg', 1) and adds and strip(sets[0].args[2]) == adds[0].res
        ctx.ob('call', 'definition records its number', ok, where, 'recorded: %s' % sets)
        stream, w, ext, end = words(p.events)
        for at, v, _ in ext:
            ctx.ob('call', 'definition patches the calls before it', bool(adds) and strip(v) == adds[0].res and
                   ('displacements_get' in repr(at) and 'ident_get_prev' in repr(at) or 'memget' in repr(at)), where, 'patches ' + V.render(p))
    vmcalls.check(ctx)
    ctx.minimum('builtin', 40)
    ctx.minimum('call', 20)


def walk(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            yield from walk(x)


def sgn_of(p, pred):
    for c, t in p.facts.log:
        if not (isinstance(c, tuple) and c[0] == 'cmp' and c[1] in ('slt', 'sle')):
            continue
        a, b = c[2], c[3]
        if pred(a) and is_c(b):
            up = b - 1 if c[1] == 'slt' else b         # a <= up
            if up == 0:
                return 'nonpos' if t else 'pos'
        if pred(b) and is_c(a):
            lo = a + 1 if c[1] == 'slt' else a         # b >= lo
            if lo == 1:
                return 'pos' if t else 'nonpos'
    return None

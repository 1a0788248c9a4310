"""F05 operator type rules, F06 constant folding, F12 types of statements, initialisers and calls: the tree builder."""
from ..absint import is_c, split, mkptr, show
from ..model import Types, NodePol, getter
from ..program import AnalysisError

CTORS = ('expression_', 'statement_', 'declaration_')
LITS = {'build_boolean_literal_expression': 'bool', 'build_character_literal_expression': 'char',
        'build_integer_literal_expression': 'int', 'build_floating_literal_expression': 'float'}


class B:
    """Names, layouts and representative types."""

    def __init__(self, ctx):
        P = self.P = ctx.prog
        m = self.m = P.module('compiler/builder.c')
        T = self.T = Types(P, m)
        c = T.c
        T.add('const bool', 'CONST', c['BOOLEAN'])
        T.id['const char'] = T.id['const char']
        T.add('enum2', 'ENUM', 2, 23, 24)
        T.add('const enum', 'CONST', T.id['enum'])
        T.add('bool*', 'POINTER', c['BOOLEAN'])
        T.add('char*', 'POINTER', c['CHARACTER'])
        T.add('void*', 'POINTER', c['VOID'])
        T.add('file*', 'POINTER', c['FILE'])
        T.add('const int[]', 'ARRAY', T.id['const int'])
        T.add('bool[]', 'ARRAY', c['BOOLEAN'])
        T.add('int*[]', 'ARRAY', T.id['int*'])
        T.add('const struct2', 'CONST', T.id['struct2'])
        T.add('struct2*', 'POINTER', T.id['struct2'])
        T.add('struct[]', 'ARRAY', T.id['struct'])
        T.add('int[]*', 'POINTER', T.id['int[]'])
        T.add('const (const int*)', 'CONST', T.id['const int*'])
        # struct {const int; int*;}, struct { struct; int[] }
        T.add('struct3', 'STRUCTURE', 2, 4, T.id['const int'], 11, T.id['int*'], 12)
        T.add('struct4', 'STRUCTURE', 5, 4, T.id['struct'], 11, T.id['int[]'], 12)
        T.add('const struct3', 'CONST', T.id['struct3'])
        T.add('func0', 'FUNCTION', c['VOID'], 0)
        T.add('funcp', 'FUNCTION', T.id['int*'], 3, T.id['int*'], T.id['const int*'], T.id['struct'])
        T.add('funca', 'FUNCTION', c['BOOLEAN'], 1, T.id['int[]'])
        # a function of ten parameters and a structure of nine members: a list is checked to its end, however long
        T.add('funcw', 'FUNCTION', c['INTEGER'], 10, *([c['INTEGER'], c['FLOATING']] * 5))
        T.add('structw', 'STRUCTURE', 19, 18, *[x for k in range(9) for x in ((c['FLOATING'], c['INTEGER'])[k % 2], 51 + k)])
        T.add('structw*', 'POINTER', T.id['structw'])
        for k in range(3, 10):
            if 'int' + '[]' * k not in T.id:
                T.add('int' + '[]' * k, 'ARRAY', T.id['int' + '[]' * (k - 1)])
        self.un = P.enum(m, 'unary_t')
        self.bin = P.enum(m, 'binary_t')
        self.cat = P.enum(m, 'category_t')
        self.cls = P.enum(m, 'expression_t')
        self.err = P.enum(m, 'err_t')
        self.errname = {v: k for k, v in self.err.items()}
        self.warn = P.enum(m, 'warning_t')
        self.warnname = {v: k for k, v in self.warn.items()}
        self.sx = P.field(m, 'builder', 'sx')
        self.ctxt = P.field(m, 'builder', 'context')
        self.ftype = P.field(m, 'builder', 'func_type')
        self.L, self.R = self.cat['LVALUE'], self.cat['RVALUE']

    # ---- the language's type categories, by name ---------------------------
    def kind(self, n):
        t = self.T.id[n]
        return self.T.c and (self.T.tab.get(t) if t > 0 else t)

    def isconst(self, n):
        return self.kind(n) == self.T.c['CONST']

    def unq(self, n):
        return self.T.name[self.T.tab[self.T.id[n] + 1]] if self.isconst(n) else n

    def elem(self, n):
        return self.T.name[self.T.tab[self.T.id[self.unq(n)] + 1]]

    def integer(self, n):
        return self.unq(n) in ('char', 'int', 'enum', 'enum2')

    def floating(self, n):
        return self.unq(n) == 'float'

    def arithmetic(self, n):
        return self.integer(n) or self.floating(n)

    def isk(self, n, k):
        return self.kind(self.unq(n)) == self.T.c[k]

    def pointer(self, n):
        return self.isk(n, 'POINTER')

    def array(self, n):
        return self.isk(n, 'ARRAY')

    def structure(self, n):
        return self.isk(n, 'STRUCTURE')

    def scalar(self, n):
        return self.unq(n) == 'bool' or self.integer(n) or self.pointer(n) or n == 'null'

    def members(self, n):
        t = self.T.id[self.unq(n)]
        k = self.T.tab[t + 2] // 2
        return [(self.T.name[self.T.tab[t + 3 + 2 * j]], self.T.tab[t + 4 + 2 * j]) for j in range(k)]

    def params(self, n):
        t = self.T.id[n]
        return [self.T.name[self.T.tab[t + 3 + j]] for j in range(self.T.tab[t + 2])]

    def ret(self, n):
        return self.T.name[self.T.tab[self.T.id[n] + 1]]

    def assignable(self, to, frm):
        """(accepted, needs conversion) for a value of type frm stored into an object of type to, constness of the object aside;
        None where the reference is silent."""
        t, f = self.unq(to), self.unq(frm)
        if t == 'float' and self.integer(f):
            return True, True
        if t == f:
            return True, False
        if self.pointer(t) and f == 'null':
            return True, False
        if self.integer(t) and self.integer(f):
            return (None, False) if t.startswith('enum') else (True, False)
        if self.pointer(t) and self.pointer(f):
            te, fe = self.elem(t), self.elem(f)
            return (self.isconst(te) and not self.isconst(fe) and self.unq(te) == fe), False
        return False, False

    def compatible(self, a, b):
        return self.unq(a) == self.unq(b)


class BPol(NodePol):
    """Nodes are values: a node is identified by its index word.  `nodes` maps a node number to its attributes."""
    record_back = True
    unroll_forked = 0
    counted_forks = 24
    max_states = 9000

    def __init__(self, G, nodes, extra=None, events=(), inline=(), vecs=None):
        super().__init__(G.T, {})
        self.G = G
        self.nodes = nodes
        self.extra = extra or {}
        self.evs = set(events)
        self.inl = set(inline)
        self.vecs = vecs or {}

    def ident(self, it, st, addr):
        if not isinstance(addr, tuple):
            return None
        b, o, d = split(addr)
        if d:
            return None
        c = st.mem.get((b, o + 8, ()))
        v = c[0] if c else None
        if v is None and b in st.deflt:
            v = ('ext', st.deflt[b], 1)
        return self.word(v)

    def word(self, v):
        if isinstance(v, tuple) and v and v[0] == 'Ni':
            return v[1]
        if isinstance(v, tuple) and v and v[0] == 'ext' and v[2] == 1 and isinstance(v[1], tuple) and v[1][0] == 'call':
            return ('new',) + v[1][1:2] + (v[1][3],)
        if isinstance(v, tuple) and v[0] == 'fld' and v[2] == 8 and v[1][0] == 'call':
            return ('new',) + v[1][1:2] + (v[1][3],)
        return None

    def attr(self, st, n, what):
        if n in self.nodes:
            return self.nodes[n].get(what)
        for e in reversed(st.events):
            if e.cap and e.cap[0] == 'new' and e.cap[1] == n:
                return e.cap[2].get(what)
        return None

    def special(self, it, st, name, args, fn):
        G = self.G
        if name in self.inl:
            return 'inline'
        n = self.ident(it, st, args[0]) if args else None
        if name == 'node_is_correct' and n is not None:
            v = self.attr(st, n, 'ok')
            return ('value', 1 if v is None else v)
        if n is not None and name.startswith('expression_'):
            what = {'expression_get_type': 'type', 'expression_get_class': 'class', 'expression_is_lvalue': 'lvalue',
                    'expression_literal_get_integer': 'int', 'expression_literal_get_boolean': 'bool',
                    'expression_literal_get_character': 'char', 'expression_literal_get_floating': 'float',
                    'expression_identifier_get_id': 'id', 'expression_literal_get_string': 'string',
                    'expression_initializer_get_size': 'size', 'declaration_member_get_type': 'mtype'}.get(name)
            if what:
                v = self.attr(st, n, what)
                if v is None:
                    return 'opaque'
                return ('value', v)
            if name == 'expression_initializer_get_subexpr' and is_c(args[-1]):
                s = self.attr(st, n, 'sub')
                if s is not None and args[-1] < len(s):
                    return ('value', ('agg', (('Nt', s[args[-1]]), ('Ni', s[args[-1]]))))
        if name in ('node_vector_size', 'node_vector_get', 'node_vector_is_correct'):
            b = args[0]
            v = self.vecs.get(b)
            if v is not None or b == 0:
                if name == 'node_vector_size':
                    return ('value', len(v) if v is not None else -1)
                if name == 'node_vector_is_correct':
                    return ('value', 1 if v is not None else 0)
                if v is not None and is_c(args[1]) and args[1] < len(v):
                    # what a node_vector_set on this partition left there
                    for e in reversed(st.events):
                        if e.name == 'node_vector_set' and e.extra[0] == b and e.extra[1] == args[1] and e.cap:
                            w = e.cap[2]
                            if w is not None:
                                return ('value', ('agg', (('Nt', w), ('Ni', w))))
                    return ('value', ('agg', (('Nt', v[args[1]]), ('Ni', v[args[1]]))))
        if name == 'node_vector_set':
            return 'event'
        if name in self.extra:
            v = self.extra[name]
            v = v(it, st, args) if callable(v) else v
            if v is not None:
                return v if isinstance(v, tuple) and v and v[0] == 'value' or isinstance(v, str) else ('value', v)
        if name in ('type_pointer', 'type_const', 'type_array') and len(args) > 1 and is_c(args[1]):
            k = {'type_pointer': 'POINTER', 'type_const': 'CONST', 'type_array': 'ARRAY'}[name]
            for t, nm in G.T.name.items():
                if t > 0 and G.T.tab.get(t) == G.T.c[k] and G.T.tab.get(t + 1) == args[1]:
                    return ('value', t)
            return ('value', ('type', name, args[1]))
        if name == 'type_string':
            return ('value', G.T.id['char[]'])
        if name == 'build_cast_expression':
            if is_c(args[0]) and self.attr(st, self.ident(it, st, args[1]), 'type') == args[0]:
                return 'inline'
            return 'event'
        if name in LITS or name in ('report_error', 'report_warning') or name in self.evs:
            return 'event'
        if name.startswith(CTORS) and '_get_' not in name and '_is_' not in name:
            return 'event'
        if name.startswith(('node_get_location', 'node_remove', 'string_get', 'repr_get_name', 'ident_', 'node_broken')):
            return 'opaque' if name != 'node_broken' else ('value', ('agg', (0, ('broken',))))
        return None

    def capture(self, it, st, name, args):
        ids = tuple(self.ident(it, st, a) for a in args)
        if name == 'build_cast_expression':
            src = ids[1]
            lit = self.attr(st, src, 'class') == self.G.cls['EXPR_LITERAL']
            at = {'type': args[0], 'ok': 1, 'lvalue': 0, 'cast': src,
                  'class': self.G.cls['EXPR_LITERAL'] if lit else self.G.cls['EXPR_CAST'],
                  'float': ('tofloat', self.attr(st, src, 'int')) if lit else None}
            return ('new', ('new', name, ('#', st.uid)), at, ids)
        if name == 'node_vector_set':
            return ('set', args[1], self.ident(it, st, args[2]))
        return ('ids', None, {}, ids)


def run(ctx, G, fname, nodes, args=None, extra=None, vecs=None, argnodes=(1,), mem=None, events=(), inline=(), facts=None,
        rec=None):
    """Explore fname with node parameter k standing for node number k."""
    fn = G.P.need(fname, G.m)
    m = {(('arg', 0), G.sx, ()): (('sx',), 8)}
    for k in argnodes:
        m[(('arg', k), 0, ())] = (('Nt', k), 8)
        m[(('arg', k), 8, ())] = (('Ni', k), 8)
    m.update(mem or {})
    pol = BPol(G, nodes, extra, events, inline, vecs)
    pol.stable = frozenset(m)       # reporting and building other nodes leaves the operands' handles alone
    if rec:
        pol.rec_limit = lambda f: rec if f.name in ('check_assignment_operands',) or f.name.startswith('type_') else 0
    ps = ctx.paths(fn, pol, args=args or {}, mem=m, nonnull=list(range(fn.nparams)), facts=facts)
    return fn, [p for p in ps if p.kind == 'ret'], pol


class Out:
    """What one partition of a builder does: errors and warnings reported, and the construct returned."""

    def __init__(self, G, p):
        self.p = p
        self.errs = [G.errname.get(e.args[4], '?') if is_c(e.args[4]) else '?' for e in p.events if e.name == 'report_error']
        self.warns = [G.warnname.get(e.args[4], '?') if is_c(e.args[4]) else '?' for e in p.events if e.name == 'report_warning']
        self.ev = None
        self.node = None
        r = p.ret
        if isinstance(r, tuple) and r and r[0] == 'agg' and len(r[1]) == 2:
            w = r[1][1]
            if w == ('broken',):
                self.node = 'broken'
            elif isinstance(w, tuple) and w[0] == 'Ni':
                self.node = w[1]
            else:
                r = w[1] if isinstance(w, tuple) and w[0] == 'ext' else None
        for e in p.events:
            if r is not None and (e.res == r):
                self.ev = e
        self.where = p.events[-1].where() if p.events else '%s:%s' % ('', p.line)

    @property
    def rejected(self):
        return bool(self.errs)

    def __str__(self):
        s = []
        if self.errs:
            s.append('reports ' + ', '.join(self.errs))
        if self.warns:
            s.append('warns ' + ', '.join(self.warns))
        if self.ev is not None:
            s.append('builds %s(%s)' % (self.ev.name, ', '.join(show(a) for a in self.ev.args)))
        else:
            s.append('returns %s' % (self.node,))
        return '; '.join(s)


def operand(G, out, e, k, n):
    """Where argument k of event e comes from: (node number, converted to)."""
    i = e.cap[3][k]
    if i == n:
        return 'plain'
    if isinstance(i, tuple) and i[0] == 'new':
        for f in out.p.events:
            if f.name == 'build_cast_expression' and f.cap[1] == i and f.cap[3][1] == n:
                return ('cast', f.args[0])
    return None


def scal_types(G):
    return ['bool', 'char', 'int', 'float', 'enum', 'enum2', 'int*', 'const int*', 'float*', 'int**', 'void*', 'struct*', 'file*',
            'null', 'const bool', 'const char', 'const int', 'const float', 'const enum', 'const (int*)', 'const (const int*)',
            'struct', 'struct2', 'const struct', 'int[]', 'char[]', 'int[][]', 'const int[]', 'void', 'func', 'func0', 'file']


REP = ['bool', 'char', 'int', 'float', 'enum', 'int*', 'null', 'const int', 'const float', 'const bool', 'struct', 'int[]', 'void',
       'func']

ARITH = ('MUL', 'DIV', 'ADD', 'SUB')
INTS = ('REM', 'SHL', 'SHR', 'AND', 'XOR', 'OR')
REL = ('LT', 'GT', 'LE', 'GE')
EQ = ('EQ', 'NE')
LOG = ('LOG_AND', 'LOG_OR')


def nd(G, t, lv=0, cls='EXPR_IDENTIFIER', **kw):
    d = {'type': G.T.id[t], 'lvalue': lv, 'class': G.cls[cls], 'ok': 1, 'id': 100}
    d.update(kw)
    return d


def tname(G, t):
    return G.T.name.get(t, show(t)) if is_c(t) else show(t)


def convs(G, out, e, ks, ns, types, to):
    """Every integer operand is converted to `to` (None: no conversion), every other one is taken as it is."""
    for k, n, t in zip(ks, ns, types):
        o = operand(G, out, e, k, n)
        want_cast = to is not None and G.integer(t)
        if o is None:
            return 'operand %d of the result is not operand %d of the source' % (k, n)
        if want_cast and o != ('cast', G.T.id[to]):
            return 'integer operand %d is not converted to %s' % (n, to)
        if not want_cast and o != 'plain':
            return 'operand %d is converted to %s although it needs no conversion' % (n, tname(G, o[1]))
    return None


def unary_want(G, op, t, lv):
    """(accepted, result type, category) from the language reference."""
    if op in ('POSTINC', 'POSTDEC', 'PREINC', 'PREDEC'):
        return lv and G.arithmetic(t) and not G.isconst(t), t, 'RVALUE'
    if op == 'ADDRESS':
        return bool(lv), ('ptr', t), 'RVALUE'
    if op == 'INDIRECTION':
        return G.pointer(t), ('elem', t), 'LVALUE'
    if op in ('ABS', 'MINUS'):
        return G.arithmetic(t), t, 'RVALUE'
    if op == 'NOT':
        return G.integer(t), 'int', 'RVALUE'
    if op == 'LOGNOT':
        return G.scalar(t), 'bool', 'RVALUE'
    if op == 'UPB':
        return G.array(t), 'int', 'RVALUE'
    return None


def check_types(ctx):
    G = B(ctx)
    unary(ctx, G)
    binary(ctx, G)
    ternary(ctx, G)
    postfix(ctx, G)
    casts(ctx, G)
    from . import made      # it builds on this module
    made.literals(ctx, G)


def verdict(ctx, G, rule, key, fn, ps, want, check):
    """want True: accepted on every partition and check(out) says None; False: an error on every partition."""
    if want is None:
        return
    bad, where = None, '%s:%s (%s)' % (fn.file, fn.line, fn.name)
    if not ps:
        bad = 'no partition returns'
    for p in ps:
        o = Out(G, p)
        if want and o.errs:
            bad = 'accepted by the language, but the compiler ' + str(o)
        elif not want and not o.errs:
            bad = 'an error by the language, but the compiler ' + str(o)
        elif want:
            m = check(o)
            if m:
                bad = '%s: %s' % (m, o)
        elif o.node != 'broken' and o.ev is not None and o.ev.name.startswith(('expression_', 'statement_')):
            pass
        if bad:
            if o.ev is not None:
                where = o.ev.where()
            elif p.events:
                where = p.events[-1].where()
            break
    ctx.ob(rule, key, bad is None, where, bad or '')


def unary(ctx, G):
    ctx.rule('unary operator', 'an operand the reference admits gives the operator node of the documented type and category, any '
                               'other operand gives an error')
    for op in ('POSTINC', 'POSTDEC', 'PREINC', 'PREDEC', 'ADDRESS', 'INDIRECTION', 'MINUS', 'NOT', 'LOGNOT', 'ABS', 'UPB'):
        for t in scal_types(G):
            for lv in (0, 1):
                if op in ('MINUS', 'NOT', 'LOGNOT', 'ABS', 'UPB', 'INDIRECTION') and not lv:
                    continue
                want, ty, cat = unary_want(G, op, t, lv)
                fn, ps, pol = run(ctx, G, 'build_unary_expression', {1: nd(G, t, lv)}, args={2: G.un['UN_' + op]})

                def chk(o):
                    e = o.ev
                    if e is None or e.name != 'expression_unary':
                        return 'no unary operator node'
                    if isinstance(ty, tuple):
                        w = G.T.id.get(t + '*') if ty[0] == 'ptr' else G.T.id[G.elem(t)]
                        if w is None:
                            w = next((i for i, n in G.T.name.items() if i > 0 and G.T.tab.get(i) == G.T.c['POINTER']
                                      and G.T.tab[i + 1] == G.T.id[t]), ('type', 'type_pointer', G.T.id[t]))
                    else:
                        w = G.T.id[ty]
                    if e.args[0] != w and not (is_c(e.args[0]) and op != 'ADDRESS' and op != 'INDIRECTION'
                                               and tname(G, e.args[0]) == G.unq(ty)):
                        return 'the result has type %s instead of %s' % (tname(G, e.args[0]), tname(G, w))
                    if e.args[1] != G.cat[cat]:
                        return 'the result is not of category ' + cat
                    if e.args[3] != G.un['UN_' + op]:
                        return 'another operator is built'
                    if operand(G, o, e, 2, 1) != 'plain':
                        return 'another operand is used'
                verdict(ctx, G, 'unary operator', '%s %s%s' % (op, t, ' lvalue' if lv else ''), fn, ps, bool(want), chk)


def arith_to(G, a, b):
    return 'float' if G.floating(a) or G.floating(b) else None


def binary_want(G, op, a, b):
    """(accepted, result type, conversion)"""
    if op in INTS:
        return G.integer(a) and G.integer(b), 'int', None
    if op in ARITH:
        return G.arithmetic(a) and G.arithmetic(b), arith_to(G, a, b) or 'int', arith_to(G, a, b)
    if op in REL:
        return G.arithmetic(a) and G.arithmetic(b), 'bool', arith_to(G, a, b)
    if op in EQ:
        if G.arithmetic(a) and G.arithmetic(b):
            return True, 'bool', arith_to(G, a, b)
        ok = G.compatible(a, b) or G.pointer(a) and b == 'null' or a == 'null' and G.pointer(b)
        return ok, 'bool', None
    if op in LOG:
        return G.scalar(a) and G.scalar(b), 'bool', None
    if op == 'COMMA':
        return True, b, None
    raise AnalysisError(op)


def binary(ctx, G):
    ctx.rule('binary operator', 'operands the reference admits give the operator node of the documented type with integer operands '
                                'converted where the other one is floating, any other operands give an error')
    ctx.rule('assignment', 'an assignment is accepted for a modifiable lvalue and an admissible right operand only, has the type of '
                           'its left operand and converts an integer stored into a floating object')
    full = scal_types(G)
    for op in ARITH + INTS + REL + EQ + LOG + ('COMMA',):
        ts = full if op in EQ else REP
        for a in ts:
            for b in ts:
                want, ty, to = binary_want(G, op, a, b)
                fn, ps, pol = run(ctx, G, 'build_binary_expression', {1: nd(G, a, 1), 2: nd(G, b, 1)},
                                  args={3: G.bin['BIN_' + op]}, argnodes=(1, 2))

                def chk(o):
                    e = o.ev
                    if e is None or e.name != 'expression_binary':
                        return 'no binary operator node'
                    if e.args[0] != G.T.id[ty]:
                        return 'the result has type %s instead of %s' % (tname(G, e.args[0]), ty)
                    if e.args[3] != G.bin['BIN_' + op]:
                        return 'another operator is built'
                    return convs(G, o, e, (1, 2), (1, 2), (a, b), to)
                verdict(ctx, G, 'binary operator', '%s %s, %s' % (op, a, b), fn, ps, bool(want), chk)
    for op in ('',) + ARITH + INTS:
        code = G.bin['BIN_%sASSIGN' % (op + '_' if op else '')]
        for a in (full if not op else REP):
            for b in (full if not op else REP):
                for lv in ((1, 0) if a == b or b == 'int' else (1,)):
                    ok, conv = G.assignable(a, b)
                    if op and ok is not False:
                        w2 = binary_want(G, op, a, b)[0]
                        ok = None if ok is None and w2 else bool(w2)
                        if a.endswith('enum') and w2:
                            ok = None
                    if not lv or G.isconst(a):
                        ok = False
                    fn, ps, pol = run(ctx, G, 'build_binary_expression', {1: nd(G, a, lv), 2: nd(G, b, 1)},
                                      args={3: code}, argnodes=(1, 2))

                    def chk(o):
                        e = o.ev
                        if e is None or e.name != 'expression_assignment':
                            return 'no assignment node'
                        if e.args[0] != G.T.id[a]:
                            return 'the result has type %s instead of %s' % (tname(G, e.args[0]), a)
                        if e.args[3] != code:
                            return 'another operator is built'
                        return convs(G, o, e, (2,), (2,), (b,), 'float' if conv else None) or \
                            convs(G, o, e, (1,), (1,), (a,), None)
                    verdict(ctx, G, 'assignment', '%s= %s, %s%s' % (op, a, b, '' if lv else ' not lvalue'), fn, ps, ok, chk)


def ternary(ctx, G):
    ctx.rule('conditional operator', 'the first operand is scalar, the other two are arithmetic, of compatible types or a pointer and '
                                     'null; the result has their common type')
    full = scal_types(G)
    cases = [(c, 'int', 'int') for c in full] + [('int', a, b) for a in full for b in full]
    for c, a, b in cases:
        ok = G.scalar(c)
        to = None
        if G.arithmetic(a) and G.arithmetic(b):
            to = arith_to(G, a, b)
            ty = [to or 'int']
        elif G.pointer(a) and b == 'null':
            ty = [a, G.unq(a)]
        elif a == 'null' and G.pointer(b):
            ty = [b, G.unq(b)]
        elif G.compatible(a, b):
            ty = [a, b, G.unq(a)]
        else:
            ok = False
        fn, ps, pol = run(ctx, G, 'build_ternary_expression', {1: nd(G, c, 1), 2: nd(G, a, 1), 3: nd(G, b, 1)}, argnodes=(1, 2, 3))

        def chk(o):
            e = o.ev
            if e is None or e.name != 'expression_ternary':
                return 'no conditional operator node'
            if e.args[0] not in [G.T.id[x] for x in ty]:
                return 'the result has type %s instead of %s' % (tname(G, e.args[0]), ty[0])
            return convs(G, o, e, (1,), (1,), (c,), None) or convs(G, o, e, (2, 3), (2, 3), (a, b), to)
        verdict(ctx, G, 'conditional operator', '%s ? %s : %s' % (c, a, b), fn, ps, bool(ok), chk)
    for k in (2, 3):
        n = {1: nd(G, 'int'), 2: nd(G, 'int'), 3: nd(G, 'int')}
        n[k] = nd(G, 'void', 0, 'EXPR_INITIALIZER', size=1)
        fn, ps, pol = run(ctx, G, 'build_ternary_expression', n, argnodes=(1, 2, 3))
        verdict(ctx, G, 'conditional operator', 'initialiser list as operand %d' % k, fn, ps, False, None)


def postfix(ctx, G):
    ctx.rule('subscript', 'the base is an array, the index an integer, the result an lvalue of the element type')
    ctx.rule('member selection', 'the base is a structure (.) or a pointer to one (->), the member exists, the result has its type and is '
                                 'const if the structure is; . keeps the category of the base, -> gives an lvalue')
    ctx.rule('call', 'the callee is a function, the arguments agree with its parameters in number and type, the result has the '
                     'documented type')
    full = scal_types(G)
    for a in full:
        for b in (full if a == 'int[]' else ('int', 'char', 'float')):
            ok = G.array(a) and G.integer(b)
            fn, ps, pol = run(ctx, G, 'build_subscript_expression', {1: nd(G, a, 1), 2: nd(G, b, 1)}, argnodes=(1, 2))

            def chk(o):
                e = o.ev
                if e is None or e.name != 'expression_subscript':
                    return 'no subscript node'
                if e.args[0] != G.T.id[G.elem(a)]:
                    return 'the result has type %s instead of %s' % (tname(G, e.args[0]), G.elem(a))
                return convs(G, o, e, (1, 2), (1, 2), (a, b), None)
            verdict(ctx, G, 'subscript', '%s [%s]' % (a, b), fn, ps, ok, chk)
    for a in full + ['struct3', 'struct4', 'const struct2', 'const struct3', 'struct2*', 'const struct*',
                     'structw', 'structw*']:
        for arrow in (0, 1):
            st = None
            if not arrow and G.structure(a):
                st = a
            if arrow and G.pointer(a) and G.structure(G.elem(a)):
                st = G.elem(a)
            mem = G.members(st) if st else [('int', 11)]
            for j, (mt, name) in list(enumerate(mem)) + [(None, ('int', 99))]:
                for lv in ((0, 1) if st and not arrow else (1,)):
                    ok = st is not None and j is not None
                    fn, ps, pol = run(ctx, G, 'build_member_expression', {1: nd(G, a, lv)}, args={2: name, 3: arrow})

                    def chk(o):
                        e = o.ev
                        if e is None or e.name != 'expression_member':
                            return 'no member node'
                        w = G.T.id[mt]
                        if G.isconst(st) and not G.isconst(mt):
                            w = G.T.id.get('const ' + mt, ('type', 'type_const', w))
                            if mt == 'int*':
                                w = G.T.id['const (int*)']
                        if e.args[0] != w:
                            return 'the result has type %s instead of %s' % (tname(G, e.args[0]), tname(G, w))
                        if e.args[1] != (G.L if arrow or lv else G.R):
                            return 'the result has the wrong category'
                        if e.args[2] != j:
                            return 'another member is selected'
                        if e.args[3] != arrow:
                            return 'the other selection operator is built'
                        if operand(G, o, e, 4, 1) != 'plain':
                            return 'another base is used'
                    verdict(ctx, G, 'member selection', '%s%s%s%s' % (a, '->' if arrow else '.', j if j is not None else 'unknown',
                                                                     ' lvalue' if lv else ''), fn, ps, ok, chk)
    calls(ctx, G, full)


def calls(ctx, G, full):
    V = ('vec',)
    cases = []
    W = ['int', 'float'] * 5
    cases += [('funcw', x) for x in (W, W[:-1], W + ['int'], ['int'] * 10, W[:8] + ['char', 'float'], W[:8] + ['float', 'float'],
                                     W[:9] + ['struct'], W[:6] + ['null'] + W[7:], W[:9] + ['int'])]
    for f in full + ['funcp', 'funca']:
        if not G.isk(f, 'FUNCTION'):
            cases.append((f, ['int']))
            continue
        pr = G.params(f)
        cases.append((f, pr))
        cases.append((f, pr + ['int']))
        if pr:
            cases.append((f, pr[:-1]))
        for k in range(len(pr)):
            for t in (full if len(pr) < 3 else REP + ['const int*', 'const (int*)', 'float*', 'const struct', 'struct2']):
                cases.append((f, pr[:k] + [t] + pr[k + 1:]))
    seen = set()
    for f, at in cases:
        if (f, tuple(at)) in seen:
            continue
        seen.add((f, tuple(at)))
        ok, conv = G.isk(f, 'FUNCTION'), []
        if ok:
            pr = G.params(f)
            ok = len(pr) == len(at)
            for p, a in zip(pr, at):
                x, c = G.assignable(p, a)
                conv.append(c)
                ok = ok and x
        nodes = {1: nd(G, f, 0)}
        for k, a in enumerate(at):
            nodes[10 + k] = nd(G, a, 1)
        for empty in ((False, True) if not at else (False,)):
            vec = 0 if empty else ('arg', 2)
            fn, ps, pol = run(ctx, G, 'build_call_expression', nodes, vecs={vec: [10 + k for k in range(len(at))]},
                              args={2: 0} if empty else {})

            def chk(o):
                e = o.ev
                if e is None or e.name != 'expression_call':
                    return 'no call node'
                if e.args[0] != G.T.id[G.ret(f)]:
                    return 'the result has type %s instead of %s' % (tname(G, e.args[0]), G.ret(f))
                if e.cap[3][1] != 1 or e.args[2] != vec:
                    return 'another function or another argument list is used'
                last = {}
                for x in o.p.events:
                    if x.name == 'node_vector_set' and x.extra[0] == vec:
                        last[x.cap[1]] = x.cap[2]
                for k, c in enumerate(conv):
                    w = last.get(k, 10 + k)
                    if c:
                        src = [x for x in o.p.events if x.name == 'build_cast_expression' and x.cap[1] == w and x.cap[3][1] == 10 + k
                               and x.args[0] == G.T.id['float']]
                        if not src:
                            return 'integer argument %d is not converted to its floating parameter' % k
                    elif w != 10 + k:
                        return 'argument %d is replaced' % k
            verdict(ctx, G, 'call', '%s (%s)%s' % (f, ', '.join(at), ' no list' if empty else ''), fn, ps, ok, chk)


def casts(ctx, G):
    ctx.rule('conversion', 'a value of the target type is left as it is, another one becomes a conversion of that value, and a constant the '
                           'floating constant of the same value')
    for t in ('float', 'int', 'char'):
        for frm in ('float', 'int', 'char', 'enum', 'const int'):
            fn = G.P.need('build_cast_expression', G.m)
            pol = BPol(G, {1: nd(G, frm, 1)})
            ps = [p for p in ctx.paths(fn, pol, args={0: G.T.id[t]}, mem={(('arg', 1), 0, ()): (('Nt', 1), 8),
                                                                         (('arg', 1), 8, ()): (('Ni', 1), 8)}, nonnull=[1])
                  if p.kind == 'ret']

            def chk(o):
                if t == frm:
                    return None if o.node == 1 else 'the value is not left as it is'
                e = o.ev
                if e is None or e.name != 'expression_cast':
                    return 'no conversion node'
                if e.args[0] != G.T.id[t] or e.args[1] != G.T.id[frm]:
                    return 'the conversion is from %s to %s' % (tname(G, e.args[1]), tname(G, e.args[0]))
                if operand(G, o, e, 2, 1) != 'plain':
                    return 'another value is converted'
            verdict(ctx, G, 'conversion', '%s from %s' % (t, frm), fn, ps, True, chk)


# ---- F06 --------------------------------------------------------------------------------------------------------------
ORD = (-1, 0, 1)


def rel_eval(t, case):
    """Truth of a comparison term in one case of the operands' relation: case = {'ab': -1|0|1, 'a0': bool, 'b0': bool, 'sg': sign}."""
    if t in (0, 1):
        return bool(t)
    if not isinstance(t, tuple):
        return None
    if t[0] == 'not':
        v = rel_eval(t[1], case)
        return None if v is None else not v
    if t[0] == 'cast' and t[1] in ('zext', 'trunc', 'sext'):
        return rel_eval(t[4], case)
    if t[0] in ('lit', 'flit'):
        return not case['z%d' % t[1]] if 'z%d' % t[1] in case else None
    if t[0] == 'op' and t[1] in ('and', 'or', 'xor') and t[2] in ('i1', 'i8', 'i32', 'i64'):
        a, b = rel_eval(t[3], case), rel_eval(t[4], case)
        if a is None or b is None:
            return None
        return a and b if t[1] == 'and' else a or b if t[1] == 'or' else a != b
    if t[0] != 'cmp':
        return None
    p, x, y = t[1], t[2], t[3]
    if p.startswith('f'):
        p = p[2:]
        z = ('f', 0.0)
    else:
        z = 0

    def rank(v):
        return isinstance(v, tuple) and v[0] in ('lit', 'flit') and v[1]
    r = None
    if rank(x) and rank(y) and x != y and 'ab' in case:
        r = case['ab'] if rank(x) == 1 else -case['ab']
    elif rank(x) and rank(y) and x == y:
        r = 0
    elif rank(x) and (y == z or y == 0) and 'sg' in case:
        r = case['sg']
    elif rank(y) and (x == z or x == 0) and 'sg' in case:
        r = -case['sg']
    elif p in ('eq', 'ne') and (rank(x) and y in (0, z) or rank(y) and x in (0, z)):
        k = 'z%d' % (rank(x) or rank(y))
        if k not in case:
            return None
        return case[k] == (p == 'eq')
    if r is None:
        return None
    return {'eq': r == 0, 'ne': r != 0, 'slt': r < 0, 'sgt': r > 0, 'sle': r <= 0, 'sge': r >= 0, 'lt': r < 0, 'gt': r > 0,
            'le': r <= 0, 'ge': r >= 0}.get(p)


def consistent(p, case):
    for c, v in p.facts.log:
        e = rel_eval(c, case)
        if e is not None and e != bool(v):
            return False
    return True


INTOP = {'MUL': 'mul', 'ADD': 'add', 'SUB': 'sub', 'DIV': 'sdiv', 'REM': 'srem', 'SHL': 'shl', 'SHR': 'ashr', 'AND': 'and', 'XOR': 'xor',
         'OR': 'or'}
FLTOP = {'MUL': 'fmul', 'ADD': 'fadd', 'SUB': 'fsub', 'DIV': 'fdiv'}
COMM = ('mul', 'add', 'and', 'xor', 'or', 'fmul', 'fadd')
RELF = {'LT': lambda r: r < 0, 'GT': lambda r: r > 0, 'LE': lambda r: r <= 0, 'GE': lambda r: r >= 0, 'EQ': lambda r: r == 0,
        'NE': lambda r: r != 0}


def lit(G, t, k):
    n = 'lit'
    d = nd(G, t, 0, 'EXPR_LITERAL', int=(n, k), bool=(n, k), char=(n, k), float=('flit', k))
    if t == 'float':
        d['int'] = d['bool'] = d['char'] = ('junk', k)
    elif t in ('null', 'char[]'):
        d['int'] = d['bool'] = d['char'] = ('junk', k)
        d['float'] = ('junk', k)
    else:
        d['float'] = ('junk', k)
    return d


class FoldPol(BPol):
    def attr(self, st, n, what):
        if what in ('int', 'bool', 'char', 'float', 'type', 'class') and any(e.name == 'node_remove' and e.cap and e.cap[3][0] == n
                                                                              for e in st.events):
            return ('removed', n)
        return super().attr(st, n, what)


def foldrun(ctx, G, fname, nodes, args, argnodes=(1,)):
    fn = G.P.need(fname, G.m)
    m = {(('arg', 0), G.sx, ()): (('sx',), 8)}
    for k in argnodes:
        m[(('arg', k), 0, ())] = (('Nt', k), 8)
        m[(('arg', k), 8, ())] = (('Ni', k), 8)
    pol = FoldPol(G, nodes, extra={'node_remove': lambda it, st, a: 'event'})
    pol.stable = frozenset(m)
    ps = ctx.paths(fn, pol, args=args, mem=m, nonnull=list(range(fn.nparams)))
    return fn, [p for p in ps if p.kind == 'ret']


def removed(o, n):
    """Times source node n is taken out of the tree, counting the removal of the constant it was converted to."""
    k = 0
    for e in o.p.events:
        if e.name == 'node_remove':
            i = e.cap[3][0]
            if i == n:
                k += 1
            elif isinstance(i, tuple):
                k += sum(1 for f in o.p.events if f.name == 'build_cast_expression' and f.cap[1] == i and f.cap[3][1] == n)
    return k


def check_fold(ctx):
    G = B(ctx)
    ctx.rule('constant operator', 'an operator with constant operands becomes the constant of its value, the operands leave the tree once')
    ctx.rule('undefined division', 'a constant division whose quotient does not exist is not carried out by the compiler')
    ctx.rule('constant conversion', 'an integer constant converted to a floating one is the floating constant of the same value')
    ctx.rule('enumeration constant', 'the name of an enumeration constant stands for the integer constant of its number and type')
    ctx.rule('constant expression', 'only a constant is accepted where a constant expression is required')
    ints = ('int', 'char', 'enum')
    for op in ARITH + INTS + REL + EQ + LOG:
        pairs = [(a, b) for a in ints for b in ints]
        if op in ARITH + REL + EQ:
            pairs += [('float', 'float'), ('int', 'float'), ('float', 'char'), ('enum', 'float')]
        if op in EQ:
            pairs += [('bool', 'bool'), ('null', 'null'), ('char[]', 'char[]')]
        if op in LOG:
            pairs += [('bool', 'bool'), ('bool', 'int'), ('char', 'bool'), ('bool', 'null'), ('null', 'bool'), ('int', 'null'),
                      ('null', 'null')]
        for a, b in pairs:
            fold2(ctx, G, op, a, b)
    for op in ('MINUS', 'NOT', 'LOGNOT', 'ABS'):
        for a in ints + (('float',) if op in ('MINUS', 'ABS') else ()) + (('bool', 'null') if op == 'LOGNOT' else ()):
            fold1(ctx, G, op, a)
    # a constant only folds with a constant
    for op in ('ADD', 'EQ', 'LOG_AND'):
        for k in (1, 2):
            n = {1: lit(G, 'int', 1), 2: lit(G, 'int', 2)}
            n[k] = nd(G, 'int', 1)
            fn, ps = foldrun(ctx, G, 'build_binary_expression', n, {3: G.bin['BIN_' + op]}, (1, 2))
            ok = all(Out(G, p).ev is not None and Out(G, p).ev.name == 'expression_binary' and not any(e.name == 'node_remove' for e in p.events)
                     for p in ps)
            ctx.ob('constant operator', '%s with a variable operand %d' % (op, k), ok, '%s:%s' % (fn.file, fn.line),
                   'an operator with a variable operand does not stay in the tree')
    castlit(ctx, G)
    enums(ctx, G)


def fold2(ctx, G, op, a, b):
    fn, ps = foldrun(ctx, G, 'build_binary_expression', {1: lit(G, a, 1), 2: lit(G, b, 2)}, {3: G.bin['BIN_' + op]}, (1, 2))
    flt = 'float' in (a, b)
    odd = a in ('null', 'char[]') or b in ('null', 'char[]')
    bad, bad2, where = None, None, '%s:%s (%s)' % (fn.file, fn.line, fn.name)

    def opd(t, k, src):
        """t denotes the floating value of operand k of type src."""
        return t == ('flit', k) if src == 'float' else t == ('tofloat', ('lit', k))
    for p in ps:
        o = Out(G, p)
        e = o.ev
        if e is None or o.errs:
            bad = str(o)
            continue
        where = e.where()
        if e.name == 'expression_binary':
            if any(x.name == 'node_remove' for x in p.events):
                bad = 'the operator stays but an operand leaves the tree'
            div0 = op in ('DIV', 'REM') and not flt and any(c[0] == 'cmp' and c[1] == 'eq' and c[2] == ('lit', 2) and c[3] in (0, -1) and v
                                                            for c, v in p.facts.log if isinstance(c, tuple))
            if not odd and not div0:
                bad = 'the operator stays although both operands are constant'
            continue
        if e.name not in LITS:
            bad = str(o)
            continue
        if removed(o, 1) != 1 or removed(o, 2) != 1:
            bad = 'the operands leave the tree %d and %d times' % (removed(o, 1), removed(o, 2))
        v = e.args[1]
        want = 'bool' if op in REL + EQ + LOG else 'float' if flt else 'int'
        if LITS[e.name] != want:
            bad = 'a constant of type %s instead of %s' % (LITS[e.name], want)
        elif op in ARITH + INTS:
            oc = (FLTOP if flt else INTOP)[op]
            good = isinstance(v, tuple) and v[0] == 'op' and v[1] == oc and (flt or v[2] == 'i64')
            if good:
                x, y = v[3], v[4]
                if flt:
                    good = opd(x, 1, a) and opd(y, 2, b) or oc in COMM and opd(y, 1, a) and opd(x, 2, b)
                else:
                    good = (x, y) == (('lit', 1), ('lit', 2)) or oc in COMM and (y, x) == (('lit', 1), ('lit', 2))
            if not good:
                bad = 'the value is %s' % show(v)
            if op in ('DIV', 'REM') and not flt:
                f = p.facts
                z = any(isinstance(c, tuple) and c[0] == 'cmp' and c[1] == 'eq' and c[2:] == (('lit', 2), 0) and not w for c, w in f.log)
                m1 = any(isinstance(c, tuple) and c[0] == 'cmp' and c[1] == 'eq' and not w and
                         (c[2:] == (('lit', 2), -1) or c[2] == ('lit', 1) and c[3] == -(1 << 63)) for c, w in f.log)
                if not z:
                    bad2 = 'the division is carried out without excluding a zero divisor'
                elif not m1:
                    bad2 = 'the division is carried out without excluding the least number divided by -1'
        elif op in REL + EQ:
            for r in ORD:
                case = {'ab': r}
                w = v
                if flt:
                    sub = {('tofloat', ('lit', 1)): ('flit', 1), ('tofloat', ('lit', 2)): ('flit', 2)}

                    def rep(t):
                        return sub.get(t, t) if not (isinstance(t, tuple) and t[0] in ('cmp', 'not', 'cast')) else tuple(rep(x) for x in t)
                    w = rep(v)
                if not consistent(p, case):
                    continue
                t = rel_eval(w, case)
                if t is None or t != RELF[op](r):
                    bad = 'with the left operand %s the right one the value is %s' % ({-1: 'below', 0: 'equal to', 1: 'above'}[r], show(v))
        else:
            for z1 in (True, False):
                for z2 in (True, False):
                    case = {'z1': z1, 'z2': z2}
                    if a == 'null' and not z1 or b == 'null' and not z2 or not consistent(p, case):
                        continue
                    t = rel_eval(v, case)
                    w = (not z1 and not z2) if op == 'LOG_AND' else (not z1 or not z2)
                    if t is None or t != w:
                        bad = 'the value is %s' % show(v)
    if not ps:
        bad = 'no partition returns'
    ctx.ob('constant operator', '%s %s, %s' % (op, a, b), bad is None, where, bad or '')
    if op in ('DIV', 'REM') and not flt:
        ctx.ob('undefined division', '%s %s, %s' % (op, a, b), bad2 is None, where, bad2 or '')


def fold1(ctx, G, op, a):
    fn, ps = foldrun(ctx, G, 'build_unary_expression', {1: lit(G, a, 1)}, {2: G.un['UN_' + op]})
    bad, where = None, '%s:%s (%s)' % (fn.file, fn.line, fn.name)
    for p in ps:
        o = Out(G, p)
        e = o.ev
        if e is None or o.errs or e.name not in LITS:
            bad = str(o)
            continue
        where = e.where()
        if removed(o, 1) != 1:
            bad = 'the operand leaves the tree %d times' % removed(o, 1)
        v = e.args[1]
        want = 'bool' if op == 'LOGNOT' else 'float' if a == 'float' else 'int'
        if LITS[e.name] != want and not (want == 'int' and LITS[e.name] == a):
            bad = 'a constant of type %s instead of %s' % (LITS[e.name], want)
        L = ('flit', 1) if a == 'float' else ('lit', 1)
        neg = [('op', 'sub', 'i64', 0, L), ('op', 'fneg', 'double', L, 0), ('op', 'mul', 'i64', L, -1)]
        if op == 'MINUS':
            good = v in neg
        elif op == 'NOT':
            good = v in (('op', 'xor', 'i64', L, -1), ('op', 'xor', 'i64', -1, L), ('op', 'sub', 'i64', -1, L))
        elif op == 'ABS':
            good = True
            for sg in ORD:
                if consistent(p, {'sg': sg}):
                    fabs = isinstance(v, tuple) and v[0] == 'call' and v[1] in ('llvm.fabs.f64', 'fabs', 'llvm.abs.i64') and L in v[2]
                    good = good and (fabs or v == L and sg >= 0 or v in neg and sg <= 0)
        else:
            good = True
            for z in (True, False):
                if a == 'null' and not z or not consistent(p, {'z1': z}):
                    continue
                good = good and rel_eval(v, {'z1': z}) == z
        if not good:
            bad = 'the value is %s' % show(v)
    if not ps:
        bad = 'no partition returns'
    ctx.ob('constant operator', '%s %s' % (op, a), bad is None, where, bad or '')


def castlit(ctx, G):
    """The constant made by a conversion is laid out as expression_floating_literal lays one out."""
    P = G.P
    ast = P.module('compiler/AST.c')
    fl = P.need('expression_floating_literal', ast)

    class AddPol(NodePol):
        def special(self, it, st, name, args, fn):
            if name.startswith('node_') and name not in ('node_broken',):
                return 'event'
            return None
    lay = []
    for p in ctx.paths(fl, AddPol(G.T, {}), nonnull=list(range(fl.nparams))):
        if p.kind == 'ret':
            lay.append([(e.name, e.args[1]) for e in p.events if e.name.startswith('node_add_arg')])
            kinds = [e.args[1] for e in p.events if e.name == 'node_create']
    ctx.need(len(lay) == 1 and kinds, 'layout of floating constants was not found')
    fn = P.need('build_cast_expression', G.m)
    pol = FoldPol(G, {1: lit(G, 'int', 1)}, extra={n: (lambda it, st, a: 'event') for n in
                                                   ('node_remove', 'node_insert', 'node_set_arg', 'node_set_arg_double')})
    m = {(('arg', 1), 0, ()): (('Nt', 1), 8), (('arg', 1), 8, ()): (('Ni', 1), 8)}
    pol.stable = frozenset(m)
    ps = [p for p in ctx.paths(fn, pol, args={0: G.T.id['float']}, mem=m, nonnull=[1]) if p.kind == 'ret']
    bad, where = None, '%s:%s (%s)' % (fn.file, fn.line, fn.name)
    DW = 1      # words of a double in a table of 64-bit items
    for p in ps:
        ins = [e for e in p.events if e.name == 'node_insert']
        if len(ins) != 1 or ins[0].cap[3][0] != 1:
            # built by the constructor of floating constants itself
            mk = [e for e in p.events if e.name in ('expression_floating_literal', 'build_floating_literal_expression')]
            if len(mk) != 1:
                bad = 'no floating constant is made'
            continue
        where = ins[0].where()
        if ins[0].args[1] != kinds[0]:
            bad = 'the new node is not a constant'
        at, pos = {}, 0
        for n, v in lay[0]:
            at[pos] = (n, v)
            pos += DW if n.endswith('double') else 1
        if ins[0].args[2] != pos:
            bad = 'the node has room for %s words instead of %d' % (show(ins[0].args[2]), pos)
        got = {e.args[1]: e for e in p.events if e.name.startswith('node_set_arg')}
        for k, (n, v) in at.items():
            e = got.get(k)
            if e is None:
                bad = 'word %d of the constant is not set' % k
            elif n.endswith('double') != e.name.endswith('double'):
                bad = 'word %d of the constant is set by %s' % (k, e.name)
            elif n.endswith('double'):
                if e.args[2] != ('cast', 'sitofp', 64, 64, ('lit', 1)) and not (
                        isinstance(e.args[2], tuple) and e.args[2][0] == 'cast' and e.args[2][1] == 'sitofp' and e.args[2][-1] == ('lit', 1)):
                    bad = 'the value is ' + show(e.args[2])
            elif k == 0 and e.args[2] != G.T.id['float']:
                bad = 'the constant is not of floating type'
            elif k == 1 and e.args[2] != G.R:
                bad = 'the constant is not of category RVALUE'
        if set(got) - set(at):
            bad = 'words %s of the constant are set' % sorted(set(got) - set(at))
        if [e.cap[3][0] for e in p.events if e.name == 'node_remove'] != [1]:
            bad = 'the integer constant does not leave the tree'
    ctx.ob('constant conversion', 'float from a constant', bad is None and bool(ps), where, bad or '')


def enums(ctx, G):
    fn = G.P.need('build_identifier_expression', G.m)
    for t in ('int', 'enum', 'efield', 'undeclared'):
        ex = {'repr_get_reference': ('value', 500), 'ident_get_type': ('value', G.T.id['int']), 'ident_get_displ': ('value', ('num',))}
        if t == 'enum':
            ex['ident_get_type'] = ('value', G.T.id['enum'])
        if t == 'efield':
            ex['ident_get_type'] = ('value', -G.T.id['enum'])
        if t == 'undeclared':
            ex['repr_get_reference'] = ('value', (1 << 63) - 1)
        pol = BPol(G, {}, ex)
        m = {(('arg', 0), G.sx, ()): (('sx',), 8)}
        pol.stable = frozenset(m)
        ps = [p for p in ctx.paths(fn, pol, mem=m, nonnull=[0]) if p.kind == 'ret']

        def chk(o):
            e = o.ev
            if t == 'efield':
                if e is None or e.name != 'expression_integer_literal' or e.args[1] != G.T.id['enum'] or e.args[2] != ('num',):
                    return 'not the constant of the enumeration'
            elif e is None or e.name != 'expression_identifier' or e.args[1] != ex['ident_get_type'][1] or e.args[2] != 500:
                return 'not the declared object'
        verdict(ctx, G, 'enumeration constant', t, fn, ps, t != 'undeclared', chk)
    for cls in ('EXPR_IDENTIFIER', 'EXPR_LITERAL', 'EXPR_CALL', 'EXPR_BINARY', 'EXPR_SUBSCRIPT', 'EXPR_UNARY', 'EXPR_ASSIGNMENT',
                'EXPR_TERNARY', 'EXPR_INITIALIZER'):
        fn, ps, pol = run(ctx, G, 'build_constant_expression', {1: nd(G, 'int', 0, cls)})
        verdict(ctx, G, 'constant expression', cls, fn, ps, cls == 'EXPR_LITERAL', lambda o: None if o.node == 1 else 'another expression')


# ---- F12 --------------------------------------------------------------------------------------------------------------
def check_typing(ctx):
    G = B(ctx)
    ctx.rule('initialisation', 'a value is accepted where the reference admits its type for the object, a list of values where there is one '
                               'value for every member or element; integers stored into floating objects are converted')
    ctx.rule('condition', 'the controlling expression is scalar (if, while, do, for) or integer (switch, case) and the statement keeps its parts')
    ctx.rule('return', 'a value is returned exactly where the function has a result type that admits it')
    ctx.rule('declaration', 'an object has the declared type, its bounds are integer, it is not void, it is initialised where it must be')
    ctx.rule('formatted output', 'the format consists of the documented specifiers and the arguments agree with them in number and type')
    ctx.rule('print', 'print takes values that are not pointers, printid and getid take names of objects')
    inits(ctx, G)
    lists(ctx, G)
    stmts(ctx, G)
    blocks(ctx, G)
    returns(ctx, G)
    decls(ctx, G)
    printf(ctx, G)
    prints(ctx, G)


def accepted(G, p):
    o = Out(G, p)
    return o


def inits(ctx, G):
    full = scal_types(G)
    for a in full:
        if a in ('void', 'null', 'func', 'func0'):
            continue
        for b in full:
            for decl in (1, 0):
                ok, conv = G.assignable(a, b)
                if not decl and G.isconst(a):
                    ok = False
                if ok is None:
                    continue
                fn, ps, pol = run(ctx, G, 'check_assignment_operands', {2: nd(G, b, 1)}, args={1: G.T.id[a], 3: decl}, argnodes=(2,), rec=3)
                assigned(ctx, G, '%s %s %s' % (a, 'initialised with' if decl else 'assigned', b), fn, ps, ok, {2: conv})


def assigned(ctx, G, key, fn, ps, ok, conv, rule='initialisation', ty=None):
    bad, where = None, '%s:%s (%s)' % (fn.file, fn.line, fn.name)
    if not ps:
        bad = 'no partition returns'
    for p in ps:
        o = Out(G, p)
        r = p.ret
        if p.events:
            where = p.events[-1].where()
        if ok and (o.errs or r != 1):
            bad = 'admitted by the language, but the compiler %s, result %s' % (o, show(r))
        elif not ok and (not o.errs or r != 0):
            bad = 'an error by the language, but the compiler %s, result %s' % (o, show(r))
        elif ok:
            for n, c in conv.items():
                cs = [e for e in p.events if e.name == 'build_cast_expression' and e.cap[3][1] == n]
                if c and (len(cs) != 1 or cs[0].args[0] != G.T.id['float']):
                    bad = 'value %s is not converted to float' % n
                if not c and cs:
                    bad = 'value %s is converted to %s' % (n, tname(G, cs[0].args[0]))
            if ty is not None:
                st = {e.cap[3][0]: e.args[1] for e in p.events if e.name == 'expression_initializer_set_type'}
                for n, t in ty.items():
                    if st.get(n) != G.T.id[t]:
                        bad = 'the list is given the type %s instead of %s' % (tname(G, st.get(n)), t)
        if bad:
            break
    ctx.ob(rule, key, bad is None, where, bad or '')


def lists(ctx, G):
    def flat(t, shape, nodes, num):
        """Build an initialiser of the given shape for type t: (verdict, conversions, list types)."""
        n = num[0]
        num[0] += 1
        if isinstance(shape, str):
            nodes[n] = nd(G, shape, 1)
            ok, c = G.assignable(t, shape)
            return n, bool(ok), {n: c}, {}
        u = G.unq(t)
        nodes[n] = nd(G, 'undef', 0, 'EXPR_INITIALIZER', size=len(shape), sub=[])
        ok = True
        if G.structure(u):
            ms = [m for m, _ in G.members(u)]
            ok = len(ms) == len(shape)
            ms += ['int'] * len(shape)
        elif G.array(u):
            ms = [G.elem(u)] * len(shape)
        else:
            ok, ms = False, ['int'] * len(shape)
        conv, ty = {}, {n: u}
        for m, s in zip(ms, shape):
            k, o, c, y = flat(m, s, nodes, num)
            nodes[n]['sub'].append(k)
            conv.update(c)
            ty.update(y)
            ok = ok and o
        return n, ok, conv, ty
    I, F = 'int', 'float'
    W = [F, I] * 4 + [F]
    shapes = {'structw': [W, W[:-1], W + [I], W[:8] + ['struct'], [I] * 9, W[:7] + ['null', F], W[:7] + [F, F]],
              'struct': [[I, F, I], [I, I, I], [I, F], [I, F, I, I], [F, F, I], [I, F, 'struct'], [I, 'null', I], [[I], F, I], [I, F, F],
                         ['char', 'char', 'char']],
              'struct2': [[I, I], [I], [I, F], [I, I, I]],
              'struct3': [[I, 'int*'], [I, 'null'], [I, I], [I, 'const int*']],
              'struct4': [[[I, F, I], [I, I]], ['struct', 'int[]'], [[I, F], [I]], [[I, F, I], I], [[I, I, I], [I, F]], [[I, I, F], [I]]],
              'const struct': [[I, F, I], [I, I, F], [I]],
              'int[]': [[I] * 10, [I] * 9 + [F], [I] * 8 + [F, I], [I], [I, I, I], [I, F], [F, I], ['null'], [[I]], ['char', I]],
              'float[]': [[F] * 9 + [I], [F] * 8 + [I, 'null'], [F, I], [I, F, I], [F, 'struct'], ['bool']],
              'char[]': [['char', 'char'], ['char', F]],
              'bool[]': [['bool'], ['bool', I]],
              'int*[]': [['int*', 'null'], ['int*', I], ['const int*']],
              'int[][]': [[[I, I], [I]], ['int[]', [I]], [[I], I], [[I], [F]], [[[I]]]],
              'const int[]': [[I, I], [F]],
              'struct[]': [['struct'] * 7 + [[I, I, I]], ['struct'] * 7 + [[I, F]], [[I, F, I], 'struct'], [[I, F]], [I], [[I, I, I], [I, I]]],
              'int': [[I], [I, I]], 'float': [[F], [I]], 'int*': [['null'], ['int*']], 'bool': [['bool']], 'const int': [[I]],
              'enum': [['enum']]}
    for t, ss in shapes.items():
        for s in ss:
            nodes = {}
            num = [2]
            n, ok, conv, ty = flat(t, s, nodes, num)
            for decl in (1, 0):
                good = ok and (decl or not has_const(G, t, s))
                fn, ps, pol = run(ctx, G, 'check_assignment_operands', nodes, args={1: G.T.id[t], 3: decl}, argnodes=(2,), rec=4)
                assigned(ctx, G, '%s %s %s' % (t, 'initialised with' if decl else 'assigned', shp(s)), fn, ps, good, conv, ty=ty)


def has_const(G, t, s):
    """An object of type t, or a part of it that the list names, is const."""
    if G.isconst(t):
        return True
    if isinstance(s, str):
        return False
    if G.structure(t):
        return any(has_const(G, m, x) for (m, _), x in zip(G.members(t), s))
    if G.array(t):
        return any(has_const(G, G.elem(t), x) for x in s)
    return False


def shp(s):
    return s if isinstance(s, str) else '{' + ', '.join(shp(x) for x in s) + '}'


def stmts(ctx, G):
    full = scal_types(G)
    sc = G.scalar
    # function, node arguments by role, constructor, roles in constructor order
    forms = [('build_if_statement', {1: 'cond', 2: 'then', 3: 'else'}, 'statement_if', ['cond', 'then', 'else'], sc),
             ('build_while_statement', {1: 'cond', 2: 'body'}, 'statement_while', ['cond', 'body'], sc),
             ('build_do_statement', {1: 'body', 2: 'cond'}, 'statement_do', ['body', 'cond'], sc),
             ('build_for_statement', {1: 'init', 2: 'cond', 3: 'incr', 4: 'body'}, 'statement_for', ['init', 'cond', 'incr', 'body'], sc),
             ('build_switch_statement', {1: 'cond', 2: 'body'}, 'statement_switch', ['cond', 'body'], G.integer),
             ('build_case_statement', {1: 'cond', 2: 'body'}, 'statement_case', ['cond', 'body'], G.integer)]
    for fname, roles, ctor, order, test in forms:
        cases = [(t, ()) for t in full]
        if fname == 'build_if_statement':
            cases += [('int', ('else',)), ('float', ('else',))]
        if fname == 'build_for_statement':
            cases += [('int', x) for x in (('init',), ('cond',), ('incr',), ('init', 'cond', 'incr'))] + [('float', ('init', 'incr'))]
        num = {r: k for k, r in roles.items()}
        for t, absent in cases:
            nodes = {k: nd(G, t if r == 'cond' else 'void', 1) for k, r in roles.items()}
            args = {k: 0 for k, r in roles.items() if r in absent}
            ok = test(t) or 'cond' in absent
            fn, ps, pol = run(ctx, G, fname, nodes, args=args, argnodes=tuple(k for k in roles if k not in args))

            def chk(o):
                e = o.ev
                if e is None or e.name != ctor:
                    return 'no ' + ctor
                for j, r in enumerate(order):
                    if r in absent:
                        if e.args[j] != 0:
                            return 'the absent part (%s) is not absent' % r
                    elif e.cap[3][j] != num[r]:
                        return 'part %d is not the %s of the source' % (j + 1, r)
            verdict(ctx, G, 'condition', '%s %s%s' % (fname[6:-10], t, ' without ' + ', '.join(absent) if absent else ''), fn, ps, ok, chk)
            if t == 'int':
                for k, r in roles.items():
                    if r in absent:
                        continue
                    n2 = {x: dict(y) for x, y in nodes.items()}
                    n2[k]['ok'] = 0
                    fn, ps, pol = run(ctx, G, fname, n2, args=args, argnodes=tuple(x for x in roles if x not in args))
                    good = bool(ps) and all(Out(G, p).node == 'broken' for p in ps)
                    ctx.ob('condition', '%s with a broken %s%s' % (fname[6:-10], r, ' without ' + ', '.join(absent) if absent else ''), good,
                           '%s:%s (%s)' % (fn.file, fn.line, fn.name), 'a statement is built from a part that was not accepted')


def blocks(ctx, G):
    fn = G.P.need('build_compound_statement', G.m)
    V, where = ('arg', 1), '%s:%s (%s)' % (fn.file, fn.line, fn.name)
    for n, bad in [(n, None) for n in (0, 1, 2, 3, 12, None)] + [(n, k) for n in (1, 2, 3, 12) for k in range(n)]:
        nodes = {10 + k: nd(G, 'void', 0, ok=0 if k == bad else 1) for k in range(n or 0)}
        fn, ps, pol = run(ctx, G, 'build_compound_statement', nodes, args={1: 0} if n is None else {}, argnodes=(),
                          vecs={} if n is None else {V: [10 + k for k in range(n)]})
        no = None if ps else 'no way through'
        for p in ps:
            o = Out(G, p)
            if bad is not None:
                if o.node != 'broken':
                    no = 'a block is built although its statement %d was not accepted' % bad
            elif o.ev is None or o.ev.name != 'statement_compound' or o.ev.args[1] != (0 if n is None else V) or o.errs:
                no = 'the compiler %s instead of building the block of its statements' % o
        ctx.ob('condition', 'block of %s statements%s' % (n, ', %d refused' % bad if bad is not None else ''), no is None, where, no or '')


def returns(ctx, G):
    full = scal_types(G)
    for rt in ('void', 'bool', 'char', 'int', 'float', 'int*', 'const int*', 'struct', 'int[]', 'struct*', 'enum'):
        ft = G.T.id.get('fn:' + rt) or G.T.add('fn:' + rt, 'FUNCTION', G.T.id[rt], 0)
        for e in [None] + full:
            if rt == 'void':
                ok, conv = e is None, False
            elif e is None:
                ok, conv = False, False
            else:
                ok, conv = G.assignable(rt, e)
            fn, ps, pol = run(ctx, G, 'build_return_statement', {1: nd(G, e or 'int', 1)}, args={} if e else {1: 0},
                              argnodes=(1,) if e else (), mem={(('arg', 0), G.ftype, ()): (ft, 8)}, rec=3)

            def chk(o):
                v = o.ev
                if v is None or v.name != 'statement_return':
                    return 'no return statement'
                if e is None:
                    return None if v.args[1] == 0 else 'a value is returned'
                w = operand(G, o, v, 1, 1)
                if w != (('cast', G.T.id['float']) if conv else 'plain'):
                    return 'the value returned is not the %svalue of the source' % ('converted ' if conv else '')
            verdict(ctx, G, 'return', '%s in a function returning %s' % (e or 'nothing', rt), fn, ps, ok, chk)


def decls(ctx, G):
    MAX = (1 << 64) - 1
    V = ('arg', 5)
    base = dict(type='int', star=0, const=0, bounds=[], init=None, id=700)
    cases = []

    def c(**kw):
        d = dict(base)
        d.update(kw)
        cases.append(d)
    for t in ('bool', 'char', 'int', 'float', 'enum', 'file', 'const int'):
        c(type=t)
        for i in ('int', 'float', 'bool', 'null', 'struct', 'char'):
            c(type=t, init=i)
    c(type='void')
    c(type='void', init='int')
    for t in ('int', 'float', 'struct', 'const int', 'char'):
        c(type=t, star=1)
        for i in ('null', 'int', 'int*', 'float*', 'const int*', 'struct*'):
            c(type=t, star=1, init=i)
    c(type='int', const=1)
    c(type='int', const=1, init='int')
    c(type='int', const=1, init='float')
    c(type='float', const=1, init='int')
    c(type='int', const=1, star=1, init='null')
    c(type='int', const=1, star=1, init='int*')
    c(type='int', const=1, star=1)
    c(type='int', bounds=['int'])
    c(type='int', bounds=['char'])
    c(type='int', bounds=['float'])
    c(type='int', bounds=['bool'])
    c(type='int', bounds=['int', 'int'])
    c(type='int', bounds=['int', 'float'])
    c(type='int', bounds=['float', 'int'])
    c(type='int', bounds=['int'], init='int[]')
    c(type='int', bounds=['int'], init='int')
    c(type='int', bounds=['int', 'int'], init='int[][]')
    c(type='int', bounds=['int', 'int'], init='int[]')
    c(type='int', bounds=['int'] * 9)
    c(type='int', bounds=['int'] * 8 + ['float'])
    c(type='int', bounds=['int'] * 7 + ['float', 'int'])
    c(type='int', bounds=['int'] * 8 + ['empty'])
    c(type='int', bounds=['empty'])
    c(type='int', bounds=['empty'], init='int[]')
    c(type='int', bounds=['empty', 'empty'])
    c(type='int', bounds=['int', 'empty'])
    c(type='int', bounds=['empty', 'int'])
    c(type='const int', bounds=['int'])
    c(type='const int', bounds=['int'], init='const int[]')
    c(type='struct')
    c(type='struct', init='struct')
    c(type='struct', init='struct2')
    c(type='struct2')
    c(type='struct3')
    c(type='struct3', init='struct3')
    c(type='const struct')
    c(type='struct', bounds=['int'])
    c(type='int', id=MAX)
    c(type='int', id=MAX - 1)
    c(type='int', id=MAX, init='int')
    for d in cases:
        decl1(ctx, G, d, V)


def decl1(ctx, G, d, V):
    fn = G.P.need('build_declarator', G.m)
    t = d['type']
    ok = t != 'void'
    vt = G.T.id[t]

    def derive(k, x):
        for i, nm in G.T.name.items():
            if i > 0 and G.T.tab.get(i) == G.T.c[k] and G.T.tab.get(i + 1) == x:
                return i
        return ('type', 'type_' + k.lower(), x)
    if d['star']:
        vt = derive('POINTER', vt)
    if d['const']:
        vt = derive('CONST', vt)
    nodes = {6: nd(G, d['init'] or 'int', 1)}
    for k, b in enumerate(d['bounds']):
        vt = derive('ARRAY', vt)
        if b == 'empty':
            nodes[20 + k] = nd(G, 'int', 0, 'EXPR_EMPTY_BOUND')
        else:
            nodes[20 + k] = nd(G, b, 1)
            ok = ok and G.integer(b)
    name = G.T.name.get(vt)
    if name is None:
        raise AnalysisError('type of declaration %s is not modelled' % d)
    conv = False
    if d['init']:
        a, conv = G.assignable(name, d['init'])
        if a is None:
            return
        ok = ok and a
    else:
        ok = ok and 'empty' not in d['bounds'] and not needs_init(G, name)
    ok = ok and d['id'] == 700
    args = {1: G.T.id[t], 2: 33, 3: d['star'], 4: d['const'], 5: V}
    if not d['init']:
        args[6] = 0
    fn, ps, pol = run(ctx, G, 'build_declarator', nodes, args=args, argnodes=(6,) if d['init'] else (),
                      vecs={V: [20 + k for k in range(len(d['bounds']))]}, rec=max(3, len(d['bounds']) + 2),
                      extra={'ident_add': lambda it, st, a: 'event'}, facts=None)
    key = '%s%s%s%s%s%s' % ('const ' if d['const'] else '', t, '*' if d['star'] else '', ''.join('[%s]' % b for b in d['bounds']),
                            ' = ' + d['init'] if d['init'] else '', {700: ''}.get(d['id'], ' name taken'))
    bad, where = None, '%s:%s (%s)' % (fn.file, fn.line, fn.name)
    # the identifier table's answer is a case of the split
    sel = []
    for p in ps:
        ia = [e for e in p.events if e.name == 'ident_add']
        if len(ia) != 1:
            bad = 'the name is entered %d times' % len(ia)
            break
        r = ia[0].res
        eq = {c[3]: bool(v) for c, v in p.facts.log if isinstance(c, tuple) and c[0] == 'cmp' and c[1] == 'eq' and c[2] == r}
        taken = [x for x, v in eq.items() if v]
        isd = {700: not taken}.get(d['id'], bool(taken) and taken[0] & ((1 << 64) - 1) == d['id'])
        if isd:
            sel.append((p, ia[0]))
    if bad is None and not sel:
        bad = 'no partition for this answer of the identifier table'
    for p, ia in sel:
        o = Out(G, p)
        where = ia.where()
        if ia.args[1] != 33 or ia.args[3] != vt:
            bad = 'name %s is entered with type %s instead of %s' % (show(ia.args[1]), tname(G, ia.args[3]), tname(G, vt))
        elif ok and o.errs or not ok and not o.errs:
            bad = '%s by the language, but the compiler %s' % ('correct' if ok else 'an error', o)
        elif ok:
            e = o.ev
            if e is None or e.name != 'declaration_variable' or e.args[1] != ia.res:
                bad = 'the declaration built is not that of the name entered: %s' % o
            elif e.args[2] != V:
                bad = 'the bounds are not those of the source'
            elif d['init']:
                w = operand(G, o, e, 3, 6)
                if w != (('cast', G.T.id['float']) if conv else 'plain'):
                    bad = 'the initial value is not the %svalue of the source' % ('converted ' if conv else '')
            elif e.args[3] != 0:
                bad = 'an initial value appears'
        if bad:
            break
    ctx.ob('declaration', key, bad is None, where, bad or '')


def needs_init(G, t):
    if G.isconst(t):
        return True
    if G.structure(t):
        return any(needs_init(G, m) for m, _ in G.members(t))
    if G.array(t):
        return needs_init(G, G.elem(t))
    return False


SPEC = {'i': 'int', 'ц': 'int', 'c': 'int', 'л': 'int', 'f': 'float', 'в': 'float', 's': 'char[]', 'с': 'char[]'}


def printf(ctx, G):
    fn = G.P.need('build_call_expression', G.m)
    BI = G.P.ev(G.m, 'BI_PRINTF')
    ft = G.T.id.get('fn:printf') or G.T.add('fn:printf', 'FUNCTION', G.T.c['INTEGER'], 2, G.T.id['char[]'], G.T.c['VARARG'])
    some = ['int', 'char', 'float', 'bool', 'char[]', 'int*', 'struct', 'enum', 'const int', 'const float', 'int[]', 'null', 'const char']
    cases = []
    for s in SPEC:
        for t in some:
            cases.append(('%' + s, [t]))
        cases.append(('%' + s, []))
        cases.append(('x%%%sy' % s, ['int', 'int']))
    for a in SPEC:
        for b in SPEC:
            cases.append(('%' + a + ' %' + b, [SPEC[a], SPEC[b]]))
            if SPEC[a] != SPEC[b]:
                cases.append(('%' + a + '%' + b, [SPEC[b], SPEC[a]]))
    cases += [('', []), ('abc', []), ('abc', ['int']), ('%%', []), ('%%', ['int']), ('%%%i', ['int']), ('100%% %f %%', ['float']), ('%', []),
              ('abc%', []), ('abc%', ['int']), ('дом %i', ['int']), ('%i дом %с', ['int', 'char[]']), ('%i' * 19, ['int'] * 18),
              ('%i' * 12, ['int'] * 12), ('%i' * 12, ['int'] * 11 + ['float']), ('%i' * 10 + '%s%f', ['int'] * 10 + ['char[]', 'int']),
              ('%i' * 9 + '%s', ['int'] * 10), ('%i' * 8 + '%f%i', ['int'] * 8 + ['float', 'struct'])]
    for ch in [chr(x) for x in range(33, 127)] + ['ж', 'я', 'Ц', 'д', 'и', 'ф', 'о']:
        if ch not in SPEC and ch != '%':
            cases.append(('%' + ch, ['int']))
            cases.append(('%' + ch, []))
    for f, ts in cases:
        want, conv = fmt(G, f, ts)
        raw = f.encode('utf8') + b'\0'
        # the text may be read byte by byte or symbol by symbol
        m = {(('al', 'str'), k, ()): (x if x < 128 else x - 256, 1) for k, x in enumerate(raw + b'\0' * 4)}
        nodes = {1: nd(G, 'fn:printf', 0, id=BI), 10: nd(G, 'char[]', 0, 'EXPR_LITERAL', string=5)}
        for k, t in enumerate(ts):
            nodes[11 + k] = nd(G, t, 1)
        fn, ps, pol = run(ctx, G, 'build_call_expression', nodes, vecs={('arg', 2): [10 + k for k in range(1 + len(ts))]}, rec=3,
                          extra={'string_get': lambda it, st, a: ('value', ('al', 'str')) if a[1] == 5 else None}, mem=m)

        def chk(o):
            e = o.ev
            if e is None or e.name != 'expression_call' or e.cap[3][1] != 1 or e.args[2] != ('arg', 2):
                return 'no call of printf'
            if e.args[0] != G.T.id['int']:
                return 'the result is of type ' + tname(G, e.args[0])
            last = {}
            for x in o.p.events:
                if x.name == 'node_vector_set':
                    last[x.cap[1]] = x.cap[2]
            for k, c in conv.items():
                w = last.get(k, 10 + k)
                if c:
                    if not [x for x in o.p.events if x.name == 'build_cast_expression' and x.cap[1] == w and x.cap[3][1] == 10 + k]:
                        return 'argument %d is not converted' % k
                elif w != 10 + k:
                    return 'argument %d is replaced' % k
        verdict(ctx, G, 'formatted output', '"%s" with (%s)' % (f, ', '.join(ts)), fn, ps, want, chk)
    for t, cls in (('char[]', 'EXPR_IDENTIFIER'), ('int', 'EXPR_LITERAL'), ('int[]', 'EXPR_LITERAL')):
        fn, ps, pol = run(ctx, G, 'build_call_expression', {1: nd(G, 'fn:printf', 0, id=BI), 10: nd(G, t, 0, cls, string=5)},
                          vecs={('arg', 2): [10]}, rec=3)
        verdict(ctx, G, 'formatted output', 'format of type %s (%s)' % (t, cls), fn, ps, False, None)
    fn, ps, pol = run(ctx, G, 'build_call_expression', {1: nd(G, 'fn:printf', 0, id=BI)}, args={2: 0}, vecs={}, rec=3)
    verdict(ctx, G, 'formatted output', 'no arguments', fn, ps, False, None)


def fmt(G, f, ts):
    need, k = [], 0
    while k < len(f):
        if f[k] == '%':
            k += 1
            if k == len(f):
                return False, {}
            if f[k] != '%':
                if f[k] not in SPEC:
                    return False, {}
                need.append(SPEC[f[k]])
        k += 1
    if len(need) != len(ts):
        return False, {}
    ok, conv = True, {}
    for k, (a, b) in enumerate(zip(need, ts)):
        x, c = G.assignable(a, b)
        ok = ok and bool(x)
        conv[k + 1] = c
    return ok, conv


def prints(ctx, G):
    full = scal_types(G)
    P = G.P
    ft = G.T.id.get('fn:print') or G.T.add('fn:print', 'FUNCTION', G.T.c['VOID'], 1, G.T.c['VARARG'])
    V = ('arg', 2)

    def chk(o):
        e = o.ev
        if e is None or e.name != 'expression_call' or e.cap[3][1] != 1 or e.args[2] != V:
            return 'no call'
        if e.args[0] != G.T.id['void']:
            return 'the result is of type ' + tname(G, e.args[0])
    for name in ('BI_PRINT', 'BI_PRINTID', 'BI_GETID'):
        cal = nd(G, 'fn:print', 0, id=P.ev(G.m, name))
        cases = []
        if name == 'BI_PRINT':
            for t in full:
                if t in ('void', 'func', 'func0', 'null', 'file'):
                    continue
                cases.append(([(t, 'EXPR_IDENTIFIER')], not G.pointer(t)))
                cases.append(([('int', 'EXPR_BINARY'), (t, 'EXPR_CALL')], not G.pointer(t)))
                cases.append(([(t, 'EXPR_CALL'), ('int', 'EXPR_BINARY'), ('int', 'EXPR_LITERAL')], not G.pointer(t)))
            for t in ('int', 'int*', 'struct'):
                for k in (6, 9, 10):
                    cases.append(([('int', 'EXPR_BINARY')] * k + [(t, 'EXPR_IDENTIFIER')] + [('int', 'EXPR_LITERAL')] * (10 - k),
                                  not G.pointer(t)))
        else:
            for c1 in ('EXPR_IDENTIFIER', 'EXPR_LITERAL', 'EXPR_CALL', 'EXPR_SUBSCRIPT', 'EXPR_MEMBER', 'EXPR_BINARY'):
                good = c1 == 'EXPR_IDENTIFIER'
                cases.append(([('int', c1)], good))
                cases.append(([('int', 'EXPR_IDENTIFIER'), ('float', c1)], good))
                cases.append(([('int', c1), ('int', 'EXPR_IDENTIFIER'), ('float', 'EXPR_IDENTIFIER')], good))
                for k in (7, 9):
                    cases.append(([('int', 'EXPR_IDENTIFIER')] * k + [('int', c1)] + [('int', 'EXPR_IDENTIFIER')] * (9 - k), good))
        for xs, ok in cases:
            nodes = {1: cal}
            for k, (t, c1) in enumerate(xs):
                nodes[10 + k] = nd(G, t, 1, c1)
            fn, ps, pol = run(ctx, G, 'build_call_expression', nodes, vecs={V: [10 + k for k in range(len(xs))]}, rec=3)
            verdict(ctx, G, 'print', '%s(%s)' % (name[3:].lower(), ', '.join('%s %s' % x for x in xs)), fn, ps, ok, chk)
        for vecs, args in (({V: []}, {}), ({}, {2: 0})):
            fn, ps, pol = run(ctx, G, 'build_call_expression', {1: cal}, vecs=vecs, args=args, rec=3)
            verdict(ctx, G, 'print', '%s()%s' % (name[3:].lower(), ' no list' if args else ''), fn, ps, False, None)

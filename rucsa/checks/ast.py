"""F09 the syntax tree: what a construct was made of is what is read back from it.

The tree is a row of items in memory the analysis models cell by cell: indices are known, what the cells hold is
symbolic.  Every maker of a construct is interpreted on trees of all the shapes the code distinguishes, then every reader
of that construct on the memory it left."""
from ..absint import Interp, Policy, is_c, show
from ..program import AnalysisError

MAX = (1 << 63) - 1
BROKEN = ('agg', (0, -1))


class Pol(Policy):
    max_depth = 40
    max_rec = 4
    unroll = 400
    unroll_counted = 400
    record_facts = False

    def __init__(self, world):
        self.w = world

    def decide(self, it, st, name, args, f):
        if name in ('malloc', 'realloc', 'calloc'):
            if name == 'realloc' and args[0] != 0:
                return ('value', args[0])
            p = self.w.fresh()
            st.facts.eq[('cmp', 'eq', p, 0)] = 0
            return ('value', p)
        if name == 'free':
            return ('value', 0)
        if name == 'item_store_double':
            st.mem[Interp_key(args[1])] = (args[0], 8)
            return ('value', 1)
        if name == 'item_restore_double':
            c = st.mem.get(Interp_key(args[0]))
            return ('value', c[0] if c else ('nothing', args[0]))
        if f is None:
            s = self.w.stubs.get(name)
            return s(it, st, args) if s is not None else 'opaque'
        return self.w.special(it, st, name, args, f)


def Interp_key(addr):
    from ..absint import split
    return split(addr)


class World:
    """A tree in modelled memory; calls run one function of the source on it."""

    def __init__(self, ctx, base=None):
        self.ctx, self.P = ctx, ctx.prog
        self.mod = self.P.module('compiler/AST.c')
        self.n = 0
        self.syms = 0
        self.mem = {}
        self.nonnull = set()
        self.stubs = {}
        if base is not None:
            self.n, self.syms, self.mem, self.nonnull = base.n, base.syms, dict(base.mem), set(base.nonnull)

    def fresh(self):
        self.n += 1
        p = ('heap', self.n)
        self.nonnull.add(p)
        return p

    def sym(self, what):
        self.syms += 1
        return ('sym', what, self.syms)

    def special(self, it, st, name, args, f):
        s = self.stubs.get(name)
        if s is not None:
            return s(it, st, args)
        return 'inline'

    def call(self, name, *args, mod=None, many=False):
        fn = self.P.need(name, mod or self.mod)
        flat = []
        sh = 1 if fn.sret else 0
        for a in args:
            if isinstance(a, Node):
                flat.append(self.ptr(a))
            elif isinstance(a, list):       # a small structure: in two registers, or in memory when those are used up
                if len(flat) + sh < fn.nparams and fn.byval[len(flat) + sh]:
                    p = self.fresh()
                    self.mem.update({(p, 8 * i, ()): (x, 8) for i, x in enumerate(a)})
                    flat.append(p)
                else:
                    flat.extend(a)
            else:
                flat.append(a)
        res = None
        if fn.sret:
            res = self.fresh()
            flat.insert(0, res)
        if len(flat) != fn.nparams:
            raise AnalysisError('%s takes %d values, %d were prepared' % (name, fn.nparams, len(flat)))
        it = Interp(self.P, Pol(self))
        facts = {('cmp', 'eq', p, 0): 0 for p in self.nonnull}
        r = it.run(fn, args=dict(enumerate(flat)), mem=self.mem, facts=facts)
        self.ctx.count('functions_analysed')
        self.ctx.count('ir_steps', it.steps)
        r = [p for p in r if p.kind == 'ret']
        if len(r) != 1 and not many:
            return ('split', len(r))
        if not r:
            return ('nothing',)
        self.mem = {k: v for k, v in r[0].state.mem.items()
                    if isinstance(k[0], tuple) and k[0][0] == 'heap'}
        if fn.sret:
            return res
        return r[0].ret

    def ptr(self, nd):
        p = self.fresh()
        self.mem[(p, 0, ())] = (nd.v[1][0], 8)
        self.mem[(p, 8, ())] = (nd.v[1][1], 8)
        return p

    def root(self):
        self.tree = self.call('vector_create', 64, mod=self.P.module('utils/vector.c'))
        v = self.call('node_get_root', self.tree)
        self.top = Node(v, MAX, [])
        return self.top

    def add(self, parent, kind, nargs=1, hint='x'):
        """A node made the way the parser makes one; `kind` is an operation."""
        v = self.call('node_add_child', parent, kind)
        nd = Node(v, kind, [self.sym(hint) for _ in range(nargs)])
        for a in nd.args:
            self.call('node_add_arg', nd, a)
        parent.children.append(nd)
        nd.parent = parent
        return nd

    def vec(self, nodes):
        p = self.call('node_vector_create', mod=self.P.module('utils/node_vector.c'))
        for n in nodes:
            self.call('node_vector_add', p, n)
        return p


class Node:
    def __init__(self, v, kind, args):
        self.v, self.kind, self.args, self.children, self.parent = v, kind, args, [], None


def good(v):
    return isinstance(v, tuple) and v[0] == 'agg' and is_c(v[1][1]) and v[1][0] != 0


def same(a, b):
    if isinstance(b, Node):
        b = b.v
    return a == b


def name_of(v):
    if isinstance(v, Node):
        v = v.v
    if isinstance(v, tuple) and v and v[0] == 'agg' and len(v[1]) == 2:
        return 'node %s' % show(v[1][1]) if v != BROKEN else 'no node'
    if isinstance(v, tuple) and v and v[0] == 'sym':
        return v[1]
    return show(v) if v is not None else 'nothing'


def whole(w, nd, new, errs, path='tree'):
    """The tree below nd is the expected one."""
    k = w.call('node_get_type', nd)
    if nd.kind is not None and k != nd.kind:
        errs.append('%s changes its kind to %s' % (path, name_of(k)))
    if nd is not new and nd.args is not None:
        n = w.call('node_get_argc', nd)
        if n != len(nd.args):
            errs.append('%s has %s attributes, not %d' % (path, name_of(n), len(nd.args)))
        else:
            for i, a in enumerate(nd.args):
                g = w.call('node_get_arg', nd, i)
                if g != a:
                    errs.append('attribute %d of %s becomes %s' % (i, path, name_of(g)))
    n = w.call('node_get_amount', nd)
    if n != len(nd.children):
        errs.append('%s has %s parts, not %d' % (path, name_of(n), len(nd.children)))
        return
    for i, c in enumerate(nd.children):
        g = w.call('node_get_child', nd, i)
        if not same(g, c):
            errs.append('part %d of %s is %s' % (i, path, name_of(g)))
            return
        g = w.call('node_get_parent', c)
        if not same(g, nd):
            errs.append('part %d of %s belongs to %s' % (i, path, name_of(g)))
        whole(w, c, new, errs, '%s/%d' % (path, i))


class Shape:
    """What stands around the operands of a construct, and how many parts each operand has."""

    def __init__(self, before, after, kids, order):
        self.before, self.after, self.kids, self.order = before, after, kids, order

    def __str__(self):
        return '%d before, %d after, parts %d%s' % (self.before, self.after, self.kids,
                                                    ', in reverse' if self.order else '')


def scenario(ctx, sh, nops, OP):
    w = World(ctx)
    top = w.root()
    c = w.add(top, OP['OP_BLOCK'], 2, 'block')
    leaf, inner = OP['OP_IDENTIFIER'], OP['OP_UNARY']
    for i in range(sh.before):
        b = w.add(c, inner, 1, 'before')
        w.add(b, leaf, 1, 'before')
    ops = []
    for i in range(nops):
        k = (sh.kids + i) % 3
        o = w.add(c, leaf if k == 0 else inner, 2, 'operand %d' % i)
        for j in range(k):
            x = w.add(o, leaf, 1, 'part of operand')
            if j == 1:
                w.add(x, leaf, 1, 'deep part')
        ops.append(o)
    for i in range(sh.after):
        w.add(c, leaf, 1, 'after')
    if sh.order:
        ops.reverse()
    return w, c, ops


SHAPES = [Shape(b, a, k, o) for b in (0, 1) for a in (0, 1) for k in (0, 1, 2) for o in (0,)] + [Shape(1, 1, 1, 1), Shape(0, 0, 2, 1)]

# maker: parameters ('ctx' the surrounding construct, a number an operand, '[i..]' a list of operands, '-' left out,
# '~' a construct that could not be built, 'loc' the place, anything else a value), how many operands, readers
EXPR = [('node_get_location', [], 'loc')]


def T(cls, *more, lv=None):
    out = [('expression_get_class', [], ('E', cls)), ('expression_get_type', [], 'type')]
    if lv is not None:
        out.append(('expression_is_lvalue', [], lv))
    return out + [('node_get_location', [], 'loc')] + list(more)


def S(cls, *more):
    return [('statement_get_class', [], ('E', cls)), ('node_get_location', [], 'loc')] + list(more)


def D(cls, *more):
    return [('declaration_get_class', [], ('E', cls)), ('node_get_location', [], 'loc')] + list(more)


def cases():
    yield 'identifier', 0, 'expression_identifier', ['ctx', 'type', 'id', 'loc'], [], \
        T('EXPR_IDENTIFIER', ('expression_identifier_get_id', [], 'id'), lv=1)
    yield 'null literal', 0, 'expression_null_literal', ['ctx', 'type', 'loc'], [], T('EXPR_LITERAL', lv=0)
    for b in (0, 1):
        yield 'boolean literal', 0, 'expression_boolean_literal', ['ctx', 'type', ('V', b), 'loc'], [], \
            T('EXPR_LITERAL', ('expression_literal_get_boolean', [], b), lv=0)
    for k in ('character', 'integer', 'floating', 'string'):
        yield k + ' literal', 0, 'expression_%s_literal' % k, ['ctx', 'type', 'value', 'loc'], [], \
            T('EXPR_LITERAL', ('expression_literal_get_' + k, [], 'value'), lv=0)
    yield 'empty bound', 0, 'expression_empty_bound', ['ctx', 'loc'], [], \
        [('expression_get_class', [], ('E', 'EXPR_EMPTY_BOUND')), ('node_get_location', [], 'loc')]
    yield 'subscript', 2, 'expression_subscript', ['type', 0, 1, 'loc'], [0, 1], \
        T('EXPR_SUBSCRIPT', ('expression_subscript_get_base', [], '0'), ('expression_subscript_get_index', [], '1'), lv=1)
    for n in (0, 1, 2, 3, 9):
        yield 'call with %d arguments' % n, 1 + n, 'expression_call', ['type', 0, '[1..]' if n else '-', 'loc'], \
            list(range(n + 1)), \
            T('EXPR_CALL', ('expression_call_get_callee', [], '0'), ('expression_call_get_arguments_amount', [], n),
              *[('expression_call_get_argument', [i], str(i + 1)) for i in range(n)], lv=0)
    yield 'call with an empty list', 1, 'expression_call', ['type', 0, '[1..]', 'loc'], [0], \
        T('EXPR_CALL', ('expression_call_get_callee', [], '0'), ('expression_call_get_arguments_amount', [], 0), lv=0)
    for ctg, lv in (('LVALUE', 1), ('RVALUE', 0)):
        for arrow in (0, 1):
            yield 'member', 1, 'expression_member', ['type', ('E', ctg), 'index', ('V', arrow), 0, 'loc'], [0], \
                T('EXPR_MEMBER', ('expression_member_get_base', [], '0'),
                  ('expression_member_get_member_index', [], 'index'), ('expression_member_is_arrow', [], arrow), lv=lv)
        yield 'unary', 1, 'expression_unary', ['type', ('E', ctg), 0, 'op', 'loc'], [0], \
            T('EXPR_UNARY', ('expression_unary_get_operand', [], '0'), ('expression_unary_get_operator', [], 'op'), lv=lv)
    yield 'cast', 1, 'expression_cast', ['type', 'source', 0, 'loc'], [0], \
        T('EXPR_CAST', ('expression_cast_get_operand', [], '0'), ('expression_cast_get_source_type', [], 'source'), lv=0)
    for k in ('binary', 'assignment'):
        yield k, 2, 'expression_' + k, ['type', 0, 1, 'op', 'loc'], [0, 1], \
            T('EXPR_' + k.upper(), ('expression_%s_get_LHS' % k, [], '0'), ('expression_%s_get_RHS' % k, [], '1'),
              ('expression_%s_get_operator' % k, [], 'op'), lv=0)
    yield 'ternary', 3, 'expression_ternary', ['type', 0, 1, 2, 'loc'], [0, 1, 2], \
        T('EXPR_TERNARY', ('expression_ternary_get_condition', [], '0'), ('expression_ternary_get_LHS', [], '1'),
          ('expression_ternary_get_RHS', [], '2'), lv=0)
    for n in (1, 2, 3, 9):
        yield 'initializer list of %d' % n, n, 'expression_initializer', ['[0..]', 'loc'], list(range(n)), \
            [('!', 'expression_initializer_set_type', ['type'])] + \
            T('EXPR_INITIALIZER', ('expression_initializer_get_size', [], n),
              *[('expression_initializer_get_subexpr', [i], str(i)) for i in range(n)])

    yield 'case', 2, 'statement_case', [0, 1, 'loc'], [0, 1], \
        S('STMT_CASE', ('statement_case_get_expression', [], '0'), ('statement_case_get_substmt', [], '1'))
    yield 'default', 1, 'statement_default', [0, 'loc'], [0], S('STMT_DEFAULT', ('statement_default_get_substmt', [], '0'))
    for n in (0, 1, 2, 3, 9):
        yield 'compound of %d' % n, n, 'statement_compound', ['ctx', '[0..]' if n else '-', 'loc'], list(range(n)), \
            S('STMT_COMPOUND', ('statement_compound_get_size', [], n),
              *[('statement_compound_get_substmt', [i], str(i)) for i in range(n)])
    yield 'null statement', 0, 'statement_null', ['ctx', 'loc'], [], S('STMT_NULL')
    for w in ('-', '~'):
        yield 'if', 2, 'statement_if', [0, 1, w, 'loc'], [0, 1], \
            S('STMT_IF', ('statement_if_get_condition', [], '0'), ('statement_if_get_then_substmt', [], '1'),
              ('statement_if_has_else_substmt', [], 0))
    yield 'if else', 3, 'statement_if', [0, 1, 2, 'loc'], [0, 1, 2], \
        S('STMT_IF', ('statement_if_get_condition', [], '0'), ('statement_if_get_then_substmt', [], '1'),
          ('statement_if_has_else_substmt', [], 1), ('statement_if_get_else_substmt', [], '2'))
    for k in ('switch', 'while'):
        yield k, 2, 'statement_' + k, [0, 1, 'loc'], [0, 1], \
            S('STMT_' + k.upper(), ('statement_%s_get_condition' % k, [], '0'), ('statement_%s_get_body' % k, [], '1'))
    yield 'do', 2, 'statement_do', [0, 1, 'loc'], [0, 1], \
        S('STMT_DO', ('statement_do_get_condition', [], '1'), ('statement_do_get_body', [], '0'))
    for m in range(8):
        for absent in ('-', '~'):
            parts, n, rd, kids = [], 0, [], []
            for i, k in enumerate(('inition', 'condition', 'increment')):
                if m >> i & 1:
                    parts.append(n)
                    rd += [('statement_for_has_' + k, [], 1), ('statement_for_get_' + k, [], str(n))]
                    kids.append(n)
                    n += 1
                else:
                    parts.append(absent)
                    rd.append(('statement_for_has_' + k, [], 0))
            yield 'for' + ''.join(' ' + k for i, k in enumerate(('init', 'cond', 'incr')) if m >> i & 1), n + 1, \
                'statement_for', parts + [n, 'loc'], kids + [n], \
                S('STMT_FOR', ('statement_for_get_body', [], str(n)), *rd)
            if m == 7:
                break
    for k in ('continue', 'break'):
        yield k, 0, 'statement_' + k, ['ctx', 'loc'], [], S('STMT_' + k.upper())
    for w in ('-', '~'):
        yield 'return', 0, 'statement_return', ['ctx', w, 'loc'], [], \
            S('STMT_RETURN', ('statement_return_has_expression', [], 0))
    yield 'return with a value', 1, 'statement_return', ['ctx', 0, 'loc'], [0], \
        S('STMT_RETURN', ('statement_return_has_expression', [], 1), ('statement_return_get_expression', [], '0'))
    for n in (0, 1, 2, 3, 9):
        yield 'declaration of %d' % n, n, 'statement_declaration', ['ctx'], list(range(n)), \
            [('!', 'statement_declaration_add_declarator', [str(i)]) for i in range(n)] + \
            [('!', 'statement_declaration_set_location', ['loc'])] + \
            S('STMT_DECL', ('statement_declaration_get_size', [], n),
              *[('statement_declaration_get_declarator', [i], str(i)) for i in range(n)])
    for n in (0, 1, 2, 3, 9):
        yield 'member declaration, %d bounds' % n, n, 'declaration_member', \
            ['ctx', 'type', 'name', '[0..]' if n else '-', 'loc'], list(range(n)), \
            D('DECL_MEMBER', ('declaration_member_get_name', [], 'name'), ('declaration_member_get_type', [], 'type'),
              ('declaration_member_get_bounds_amount', [], n),
              *[('declaration_member_get_bound', [i], str(i)) for i in range(n)])
    for n in (0, 1, 2, 3, 9):
        yield 'struct of %d' % n, n, 'declaration_struct', ['ctx', 'name', ['there', 'there']], list(range(n)), \
            [('!', 'declaration_struct_add_declarator', [str(i)]) for i in range(n)] + \
            [('!', 'declaration_struct_set_type', ['type']), ('!', 'declaration_struct_set_location', ['loc'])] + \
            D('DECL_STRUCT', ('declaration_struct_get_name', [], 'name'), ('declaration_struct_get_type', [], 'type'),
              ('declaration_struct_get_size', [], n),
              *[('declaration_struct_get_member', [i], str(i)) for i in range(n)])
    for n in (0, 1, 2, 8):
        for init in (0, 1):
            yield 'variable, %d bounds%s' % (n, ', initialised' if init else ''), n + init, 'declaration_variable', \
                ['ctx', 'id', '[0..%d]' % n if n else '-', n if init else '-', 'loc'], list(range(n + init)), \
                D('DECL_VAR', ('declaration_variable_get_id', [], 'id'),
                  ('declaration_variable_has_initializer', [], init), ('declaration_variable_get_bounds_amount', [], n),
                  *[('declaration_variable_get_bound', [i], str(i)) for i in range(n)],
                  *([('declaration_variable_get_initializer', [], str(n))] if init else []))


def build(w, c, ops, params, sy):
    """Parameters of a maker: values, nodes, lists."""
    out = []
    for x in params:
        if isinstance(x, list):
            out.append([sy.setdefault(y, w.sym(y)) for y in x])
        elif isinstance(x, tuple):
            out.append(x[1] if x[0] == 'V' else w.P.ev(w.mod, x[1]))
        elif x == 'ctx':
            out.append(c)
        elif x == '-':
            out.append(0)
        elif x == '~':
            out.append(Node(BROKEN, None, None))
        elif x == 'loc':
            out.append([sy.setdefault('begin', w.sym('begin')), sy.setdefault('end', w.sym('end'))])
        elif isinstance(x, str) and x.startswith('['):
            a, b = x[1:-1].split('..')
            out.append(w.vec(ops[int(a):int(b) if b else len(ops)]))
        elif isinstance(x, int) or x.isdigit():
            out.append(ops[int(x)])
        else:
            out.append(sy.setdefault(x, w.sym(x)))
    return out


def run_case(ctx, sh, label, nops, maker, params, kids, readers, OP):
    w, c, ops = scenario(ctx, sh, nops, OP)
    P, m = ctx.prog, w.mod
    fn = P.need(maker, m)
    sy = {}
    v = w.call(maker, *build(w, c, ops, params, sy))
    errs = []
    if not good(v):
        return ['%s gives %s' % (maker, name_of(v))], fn
    new = Node(v, None, None)
    for r in readers:
        if r[0] == '!':
            x = w.call(r[1], new, *build(w, c, ops, r[2], sy))
            if isinstance(x, tuple) and x and x[0] == 'split':
                errs.append('%s depends on what is stored' % r[1])
    # the tree expected now
    taken = [ops[k] for k in kids]
    rest = [x for x in c.children if x not in taken]
    n = w.call('node_get_amount', c)
    if n != len(rest) + 1:
        errs.append('the surrounding construct has %s parts, not %d' % (name_of(n), len(rest) + 1))
        return errs, fn
    got = [w.call('node_get_child', c, i) for i in range(n)]
    if got.count(v) != 1:
        errs.append('the surrounding construct holds the new one %d times' % got.count(v))
        return errs, fn
    at = got.index(v)
    if [g for g in got if g != v] != [x.v for x in rest]:
        errs.append('the constructs around it are no longer the same')
        return errs, fn
    c.children = rest[:at] + [new] + rest[at:]
    # how a construct keeps its parts is its own business: its readers tell them apart
    inside = [w.call('node_get_child', new, i) for i in range(len(taken))]
    new.children = sorted(taken, key=lambda x: inside.index(x.v) if x.v in inside else -1)
    whole(w, w.top, new, errs)
    par = w.call('node_get_parent', new)
    if par != c.v:
        errs.append('its parent is %s' % name_of(par))
    for r in readers:
        if r[0] == '!':
            continue
        g = w.call(r[0], new, *r[1])
        e = r[2]
        if e == 'loc':
            e = ('agg', (sy['begin'], sy['end']))
        elif isinstance(e, tuple):
            e = P.ev(m, e[1])
        elif isinstance(e, str) and e.isdigit():
            e = ops[int(e)].v
        elif isinstance(e, str):
            e = sy[e]
        if g != e:
            errs.append('%s gives %s instead of %s' % (r[0], name_of(g), name_of(e)))
    return errs, fn


ELSEWHERE = ('parser_error', 'skip_until', 'try_consume_token', 'token_consume', 'expect_and_consume')


def functions(ctx, OP):
    """A function definition as the parser leaves it: its name, parameters and body by their readers."""
    P = ctx.prog
    m = P.module('compiler/AST.c')
    pm = P.module('compiler/parser.c')
    fn = P.need('parse_function_definition', pm)
    tree_files = ('compiler/AST.c', 'utils/tree.c', 'utils/vector.c', 'utils/node_vector.c')
    where = '%s (%s)' % (pm.path, fn.name)
    for n in (0, 1, 2, 3, 9):
        for inside in (0, 1, 2):
            for before in (0, 1):
                w = World(ctx)
                top = w.root()
                for _ in range(before):
                    w.add(w.add(top, OP['OP_BLOCK'], 2, 'before'), OP['OP_IDENTIFIER'], 1, 'before')
                made = {}
                ids = [('sym', 'parameter', i) for i in range(n)]
                count = (('identifiers made',), 0, ())

                def ident(it, st, args, ids=ids, count=count):
                    k = st.mem.get(count, (0, 8))[0]
                    st.mem[count] = (k + 1, 8)
                    return ('value', ids[k] if k < len(ids) else ('sym', 'one too many', k))

                def body(it, st, args, w=w, made=made, inside=inside):
                    # the context is the function just made: the last construct of the tree
                    del w.special
                    keep, w.mem = w.mem, {k: v for k, v in st.mem.items() if isinstance(k[0], tuple) and k[0][0] == 'heap'}
                    k = w.call('node_get_amount', top)
                    f = w.call('node_get_child', top, k - 1) if is_c(k) else None
                    made['fn'] = f
                    b = w.call('statement_compound', Node(f, None, None), 0, [('sym', 'b', 0), ('sym', 'e', 0)])
                    made['body'] = Node(b, None, None)
                    for i in range(inside):
                        w.call('statement_null', made['body'], [('sym', 'x', i), ('sym', 'y', i)])
                    for k in [k for k in st.mem if isinstance(k[0], tuple) and k[0][0] == 'heap']:
                        del st.mem[k]
                    st.mem.update(w.mem)
                    for p in w.nonnull:
                        st.facts.eq[('cmp', 'eq', p, 0)] = 0
                    w.mem, w.special = keep, other
                    return ('value', b)

                def other(it, st, name, args, f, n=n, ident=ident, body=body):
                    if name == 'to_identab':
                        return ident(it, st, args)
                    if name == 'parse_compound_statement_body':
                        return body(it, st, args)
                    if name == 'type_function_get_parameter_amount':
                        return ('value', n)
                    if name == 'func_get':
                        return ('value', 7)
                    if name == 'ident_get_prev' or name == 'type_is_array':
                        return ('value', 0)
                    if f.mod.path.endswith(tree_files):
                        return 'inline'
                    if f.mod is pm and name not in ELSEWHERE:
                        return 'inline'             # helpers of the parser itself
                    return ('value', ('sym', name, 0))
                w.special = other
                prs = w.fresh()
                it = Interp(P, Pol(w))
                fid = ('sym', 'function', 0)
                facts = {('cmp', 'eq', q, 0): 0 for q in w.nonnull}
                facts[('cmp', 'eq', fid, -1)] = 0
                ptr = w.ptr(top)
                facts[('cmp', 'eq', ptr, 0)] = 0
                r = [p for p in it.run(fn, args={0: prs, 1: ptr, 2: fid}, mem=w.mem, facts=facts) if p.kind == 'ret']
                ctx.count('ir_steps', it.steps)
                errs = []
                if not r or 'body' not in made:
                    raise AnalysisError('no function definition comes out of %s' % fn.name)
                vars(w).pop('special', None)
                for p in r:
                    w.mem = {k: v for k, v in p.state.mem.items() if isinstance(k[0], tuple) and k[0][0] == 'heap'}
                    k = w.call('node_get_amount', top)
                    if k != before + 1:
                        errs.append('the program has %s parts, not %d' % (name_of(k), before + 1))
                        break
                    f = Node(w.call('translation_unit_get_declaration', top, before), None, None)
                    want = [('declaration_get_class', (), P.ev(m, 'DECL_FUNC')), ('declaration_function_get_id', (), fid),
                            ('declaration_function_get_parameters_amount', (), n),
                            ('declaration_function_get_body', (), made['body'].v)]
                    want += [('declaration_function_get_parameter', (i,), x) for i, x in enumerate(ids[:n])]
                    for g, a, e in want:
                        v = w.call(g, f, *a)
                        if v != e:
                            errs.append('%s gives %s instead of %s' % (g, name_of(v), name_of(e)))
                    v = w.call('statement_compound_get_size', made['body'])
                    if v != inside:
                        errs.append('the body has %s statements, not %d' % (name_of(v), inside))
                    if before:
                        whole(w, top.children[0], None, errs, 'what stands before')
                    v = w.call('translation_unit_get_size', top)
                    if v != before + 1:
                        errs.append('the program has %s parts' % name_of(v))
                ctx.ob('kept', 'function of %d parameters, %d statements, %d before' % (n, inside, before), not errs,
                       where, '; '.join(errs[:3]))


def check_ast(ctx):
    P = ctx.prog
    m = P.module('compiler/AST.c')
    OP = {k: P.ev(m, k) for k in ('OP_BLOCK', 'OP_IDENTIFIER', 'OP_UNARY', 'OP_NOP')}
    ctx.rule('kept', 'a construct made of given parts and values reads back as that: its kind, type, place and values by '
                     'the readers of its class, its parts in order, absent ones as absent')
    for label, nops, maker, params, kids, readers in cases():
        for sh in SHAPES:
            if nops == 0 and (sh.kids or sh.order or sh.before != sh.after and sh.after):
                continue
            if nops < 2 and sh.order:
                continue
            errs, fn = run_case(ctx, sh, label, nops, maker, params, kids, readers, OP)
            ctx.ob('kept', '%s: %s' % (label, sh), not errs, '%s (%s)' % (m.path, fn.name), '; '.join(errs[:3]))
            ctx.count('shapes')
    functions(ctx, OP)
    ctx.minimum('kept', 500)

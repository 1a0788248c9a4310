"""F11 types: the table of types gives back what a type was made of, and one number for types made alike."""
from ..absint import show
from ..program import AnalysisError
from .ast import World

FILE = 'libs/compiler/syntax.c'
NONE = (1 << 63) - 1


class Table:
    """The table as it is at the start of a compilation, in modelled memory."""

    def __init__(self, ctx):
        w = self.w = World(ctx)
        P = self.P = w.P
        self.m = w.mod = P.module('compiler/syntax.c')
        self.vm = P.module('utils/vector.c')
        self.reprs = 1000
        self.own = []
        const = lambda v: (lambda it, s, a: ('value', v))

        def fresh_repr(it, s, a):
            self.reprs += 10
            return ('value', self.reprs)
        st = w.stubs
        def own_repr(it, s, a):
            self.own.append(fresh_repr(it, s, a)[1])
            return ('value', self.reprs)
        st['map_reserve'] = own_repr
        for n in ('map_add_by_utf8', 'map_reserve_by_utf8', 'map_add'):
            st[n] = fresh_repr
        for n in ('ident_add', 'map_create', 'strings_create', 'reporter_create', 'repr_add_keyword', 'map_set'):
            st[n] = const(0)
        st['utf8_to_upper'] = lambda it, s, a: ('value', a[0])
        st['repr_init'] = const(0)
        st['builtin_add'] = const(0)
        self.sx = w.call('sx_create', w.fresh(), w.fresh())
        if not (isinstance(self.sx, tuple) and self.sx[0] == 'heap'):
            raise AnalysisError('the start of the table is not determined: %s' % show(self.sx))
        T = P.enum(self.m, 'TYPE')
        self.c = {k[5:]: v for k, v in T.items()}

    def add(self, words):
        w = self.w
        p = w.fresh()
        w.mem.update({(p, 8 * i, ()): (x, 8) for i, x in enumerate(words)})
        return w.call('type_add', self.sx, p, len(words))

    def vec(self, items):
        w = self.w
        p = w.call('vector_create', 4, mod=self.vm)
        for x in items:
            w.call('vector_add', p, x, mod=self.vm)
        return p

    def make(self, d, ids):
        """The number of the type described by d; its parts have numbers already."""
        w, k = self.w, d[0]
        if k == 'ptr':
            return w.call('type_pointer', self.sx, ids[d[1]])
        if k == 'array':
            return w.call('type_array', self.sx, ids[d[1]])
        if k == 'const':
            return w.call('type_const', self.sx, ids[d[1]])
        if k == 'struct':
            return w.call('type_structure', self.sx, self.vec([ids[t] for t, n in d[1:]]), self.vec([n for t, n in d[1:]]))
        if k == 'fn':
            return self.add([self.c['FUNCTION'], ids[d[1]], len(d) - 2] + [ids[t] for t in d[2:]])
        if k == 'enum':
            r = self.add([self.c['ENUM']])
            p = w.fresh()
            words = [0, 2 * len(d[2:])] + [x for v, n in d[2:] for x in (v, n)]
            w.mem.update({(p, 8 * i, ()): (x, 8) for i, x in enumerate(words)})
            w.call('type_enum_add_fields', self.sx, p, len(words))
            return r
        if k == 'constant':         # the type of the constants of an enumeration
            return -ids[d[1]]
        raise KeyError(d)


BASIC = ['VOID', 'BOOLEAN', 'FLOATING', 'CHARACTER', 'INTEGER', 'FILE', 'NULL_POINTER', 'UNDEFINED', 'VARARG']
I, C, F, B, V = (('INTEGER',), ('CHARACTER',), ('FLOATING',), ('BOOLEAN',), ('VOID',))


def family():
    """Types of every kind, for every kind some that differ in one part only."""
    out = []
    S = lambda *m: ('struct',) + m
    a, b, c, d = 5001, 5002, 5003, 5004
    e1, e2, e3 = ('enum', 1, (0, 6001), (1, 6002)), ('enum', 2, (0, 6003), (1, 6004)), ('enum', 3, (7, 6005))
    cr, cf = ('const', I), ('const', F)
    s1, s2 = S((I, a)), S((I, a), (I, b))
    level = [('ptr', I), ('ptr', C), ('array', I), ('array', C), e1, cr, cf, ('const', C), ('const', B), ('array', F), ('ptr', V), ('ptr', ('FILE',)),
             S(), s1, S((I, b)), S((C, a)), S((F, a)), s2, S((I, b), (I, a)), S((I, a), (I, c)), S((I, a), (C, b)), S((F, a), (I, b)),
             S((I, a), (I, b), (I, c)), S((I, a), (I, b), (F, c)), e2, S((I, a), (I, b), (I, c), (I, d)), S((cr, a)), S((cr, a), (cf, b)),
             ('fn', V), ('fn', I), ('fn', F), ('fn', V, I), ('fn', I, I), ('fn', I, F), ('fn', I, I, I), ('fn', I, I, F), ('fn', I, F, I),
             ('fn', I, I, I, I), ('fn', I, I, I, C), ('fn', I, I, I, I, I)]
    out += level
    p, ar = ('ptr', I), ('array', I)
    out += [('constant', e1), ('constant', e2), ('ptr', p), ('ptr', ar), ('array', p), ('array', ar), ('array', ('array', C)), ('array', ('array', ar)),
            ('ptr', s1), ('ptr', s2), ('array', s1), ('array', s2), ('const', p), ('const', ar), ('const', s1), ('const', s2), ('const', e1), e3,
            ('const', ('array', C)), ('array', cr), ('ptr', cr), S((p, a), (ar, b)), S((s1, a)), S((s2, a)), S((s2, a), (F, b)), S((ar, a)), S((F, a), (s2, b), (F, c)),
            ('fn', p, p, ar), ('fn', s1, s1, s2), ('fn', V, ('fn', I, I)), ('fn', V, ('array', C)), ('ptr', ('fn', I, I)), ('array', e1), ('ptr', e2), S((e1, a), (e2, b)),
            ('constant', e3)]
    many = ('enum', 4) + tuple((v, 6010 + v) for v in range(12))
    out += [many, ('constant', many), ('array', many), S((many, a), (I, b))]
    out += [('const', ('ptr', s1)), ('const', ('ptr', p)), ('ptr', ('const', s1)), ('ptr', ('const', p)), ('array', ('const', s1)), S((('const', s1), a)),
            S((('array', cr), a)), ('const', ('array', ar)), ('const', ('array', s1)), ('const', S((s2, a))), ('ptr', ('array', s1)), ('array', ('ptr', s1)),
            ('const', ('array', ('array', C))), ('fn', ('const', s1), ('const', p)), S((I, a), (S((cr, a)), b)), ('array', S((cr, a)))]
    for n in (5, 7, 12, 20, 33, 48):                # long ones, differing in one place far from the start
        m = [(I, a + k) for k in range(n)]
        out += [S(*m), S(*m[:-1], (cr, a + n - 1)), S(*m[:-1], (F, a + n - 1)), S(*m[:-1], (I, a + n)), S(*m[:n // 2], (cf, a + n // 2), *m[n // 2 + 1:]),
                ('fn', I) + (I,) * n, ('fn', I) + (I,) * (n - 1) + (F,), ('fn', I) + (I,) * (n // 2) + (F,) + (I,) * (n - n // 2 - 1)]
    return out


class Model:
    """What the language says about a type."""

    def __init__(self, d):
        self.d = d
        self.k = d[0]
        self.un = d[1] if d[0] == 'const' else d          # without const
        self.uk = self.un[0]

    def size(self, d=None):
        d = d or self.d
        if d[0] == 'const':
            return self.size(d[1])
        if d[0] == 'struct':
            return sum(self.size(t) for t, n in d[1:])
        return 2 if d[0] == 'FLOATING' else 1

    def needs(self, d=None):
        d = d or self.d
        if d[0] == 'const':
            return True
        if d[0] == 'struct':
            return any(self.needs(t) for t, n in d[1:])
        return d[0] == 'array' and self.needs(d[1])

    def integer(self):
        return self.uk in ('INTEGER', 'CHARACTER', 'enum', 'constant')

    def answers(self, T, ids):
        """(reader, arguments after the type, expected answer)"""
        u, uk = self.un, self.uk
        yes = lambda x: 1 if x else 0
        void_only = {'type_is_void': self.k == 'VOID', 'type_is_null_pointer': self.k == 'NULL_POINTER', 'type_is_undefined': self.k == 'UNDEFINED'}
        for n, x in void_only.items():
            yield n, (), yes(x)
        for n, x in {'type_is_boolean': uk == 'BOOLEAN', 'type_is_integer': self.integer(), 'type_is_floating': uk == 'FLOATING',
                     'type_is_arithmetic': self.integer() or uk == 'FLOATING', 'type_is_const': self.k == 'const', 'type_is_array': uk == 'array',
                     'type_is_structure': uk == 'struct', 'type_is_enum': uk == 'enum', 'type_is_enum_field': self.k == 'constant',
                     'type_is_function': self.k == 'fn', 'type_is_pointer': uk == 'ptr',
                     'type_is_scalar': self.integer() or uk in ('BOOLEAN', 'ptr') or self.k == 'NULL_POINTER',
                     'type_is_aggregate': uk in ('array', 'struct'), 'type_is_string': uk == 'array' and u[1] == C,
                     'type_is_struct_pointer': uk == 'ptr' and (u[1][0] == 'struct' or u[1][0] == 'const' and u[1][1][0] == 'struct'),
                     'type_is_file': uk == 'FILE', 'type_requires_initialization': self.needs()}.items():
            yield n, (), yes(x)
        yield 'type_size', (), self.size()
        kinds = {'ptr': 'POINTER', 'array': 'ARRAY', 'struct': 'STRUCTURE', 'fn': 'FUNCTION', 'enum': 'ENUM', 'const': 'CONST'}
        if self.k in kinds:
            yield 'type_get_class', (), T.c[kinds[self.k]]
        elif self.k in T.c:
            yield 'type_get_class', (), T.c[self.k]
        if self.k == 'const':
            yield 'type_const_get_unqualified_type', (), ids[u]
        if uk == 'array':
            yield 'type_array_get_element_type', (), ids[u[1]]
        if uk == 'ptr':
            yield 'type_pointer_get_element_type', (), ids[u[1]]
        if uk == 'struct':
            yield 'type_structure_get_member_amount', (), len(u) - 1
            for i, (t, n) in enumerate(u[1:]):
                yield 'type_structure_get_member_type', (i,), ids[t]
                yield 'type_structure_get_member_name', (i,), n
        if self.k == 'fn':
            yield 'type_function_get_return_type', (), ids[u[1]]
            yield 'type_function_get_parameter_amount', (), len(u) - 2
            for i, t in enumerate(u[2:]):
                yield 'type_function_get_parameter_type', (i,), ids[t]
        if self.k == 'constant':
            yield 'get_enum_field_type', (), ids[u[1]]


def spell(d):
    k = d[0]
    if k == 'ptr':
        return spell(d[1]) + '*'
    if k == 'array':
        return spell(d[1]) + '[]'
    if k == 'const':
        return 'const(%s)' % spell(d[1])
    if k == 'struct':
        return 'struct{%s}' % ' '.join('%s %s;' % (spell(t), chr(97 + n - 5001) if n > 5000 else n) for t, n in d[1:])
    if k == 'fn':
        return '%s(%s)' % (spell(d[1]), ','.join(spell(t) for t in d[2:]))
    if k == 'enum':
        return 'enum%d' % d[1]
    if k == 'constant':
        return 'constant of ' + spell(d[1])
    return k.lower()


def check_types(ctx):
    ctx.rule('same', 'types made alike are one type, types that differ in any part are different ones')
    ctx.rule('kept', 'a type has the class, size and parts it was made with, and needs an initial value exactly when it holds a const part')
    T = Table(ctx)
    w = T.w
    ids = {(b,): T.c[b] for b in BASIC}
    fam = family()
    msg = ('struct',) + tuple((I, n) for n in T.own)
    ids[msg] = T.c['MSG_INFO']
    ctx.ob('kept', 'a message has two members', len(T.own) == 2, FILE + ' (sx_create)', 'its members have the names %s' % T.own)
    fn = ctx.prog.need('type_add', T.m)
    where = '%s:%s (%s)' % (fn.file, fn.line, fn.name)

    def place(name):
        f = ctx.prog.need(name, T.m)
        return '%s:%s (%s)' % (f.file, f.line, f.name)
    for d in fam:
        if d in ids:
            continue
        n = T.make(d, ids)
        if not isinstance(n, int):
            ctx.ob('same', spell(d), False, where, 'its number is not determined: %s' % show(n))
            return
        old = [x for x, i in ids.items() if i == n]
        basic = d[0] != 'constant' and n <= 0
        ctx.ob('same', spell(d), not old and not basic and n != NONE, where,
               'gets the number of %s' % spell(old[0]) if old else 'gets the number %s' % n)
        if old or basic:
            return
        ids[d] = n
    # made again, in another order
    for d in reversed(fam):
        if d[0] in ('enum', 'constant'):
            continue
        n = T.make(d, ids)
        ctx.ob('same', spell(d) + ' again', n == ids[d], where, 'gets the number %s instead of %s' % (show(n), ids[d]))
    n = w.call('type_string', T.sx)
    ctx.ob('same', 'the type of string literals', n == ids[('array', C)], place('type_string'), 'is number %s, not char[]' % show(n))
    mem = dict(w.mem)
    for d, i in ids.items():
        for name, more, want in Model(d).answers(T, ids):
            f = ctx.prog.need(name, T.m)
            w.mem = dict(mem)
            got = w.call(name, *([T.sx] * (f.nparams - 1 - len(more))), i, *more)
            ok = got == want or isinstance(got, int) and isinstance(want, int) and (got - want) % (1 << 32) == 0 and name == 'type_get_class'
            ctx.ob('kept', '%s of %s%s' % (name, spell(d), ' %d' % more[0] if more else ''), ok, place(name), '%s of %s is %s instead of %s' % (
                name, spell(d), show(got), show(want)))
    ctx.minimum('same', 100)
    ctx.minimum('kept', 1500)

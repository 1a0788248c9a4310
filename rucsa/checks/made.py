"""F14 members, structures and declarations as they are built; F05 literals as they are built."""
from ..absint import show, split
from .build import B, Out, nd, run, tname

V = ('vec',)


def derive(G, k, x):
    for i in G.T.name:
        if i > 0 and G.T.tab.get(i) == G.T.c[k] and G.T.tab.get(i + 1) == x:
            return i
    return ('type', 'type_' + k.lower(), x)


def TYPES(G):
    return {'type_' + k.lower(): (lambda it, st, a, k=k: ('value', derive(G, k, a[1]))) for k in ('POINTER', 'CONST', 'ARRAY')}


def index(st, addr):
    b, o, d = split(addr)
    c = st.mem.get((b, o + 8, ()))
    return c[0][1] if c and isinstance(c[0], tuple) and c[0][0] == 'Ni' else None


def members(ctx, G):
    fn = G.P.need('build_member_declaration', G.m)
    where = '%s:%s (%s)' % (fn.file, fn.line, fn.name)
    shapes = [[], ['int'], ['empty'], ['char'], ['int', 'int'], ['empty', 'int'], ['float'], ['bool'], ['int*'], ['int', 'float'], ['float', 'int'],
              ['struct'], ['int', 'int', 'int'], ['int'] * 8, ['int'] * 7 + ['float'], ['int'] * 6 + ['float', 'int'], ['empty'] * 7 + ['int']]
    for t in ('int', 'char', 'float', 'bool', 'struct', 'enum', 'void'):
        for star in (0, 1):
            for const in (0, 1):
                for bounds in shapes if t in ('int', 'struct') else shapes[:4]:
                    if t == 'void' and star:        # refused, see DESIGN.md
                        continue
                    ok, vt = t != 'void', G.T.id[t]
                    if star:
                        vt = derive(G, 'POINTER', vt)
                    if const:
                        vt = derive(G, 'CONST', vt)
                    nodes = {}
                    for k, b in enumerate(bounds):
                        vt = derive(G, 'ARRAY', vt)
                        nodes[20 + k] = nd(G, 'int', 0, 'EXPR_EMPTY_BOUND') if b == 'empty' else nd(G, b, 1)
                        ok = ok and (b == 'empty' or G.integer(b))
                    key = 'member %s%s%s%s' % ('const ' if const else '', t, '*' if star else '', ''.join('[%s]' % b for b in bounds))
                    fn, ps, pol = run(ctx, G, 'build_member_declaration', nodes, args={1: G.T.id[t], 2: 33, 3: star, 4: const, 5: V}, argnodes=(),
                                      vecs={V: [20 + k for k in range(len(bounds))]}, rec=max(3, len(bounds) + 2), extra=TYPES(G))
                    bad = None if ps else 'no way through'
                    for p in ps:
                        o = Out(G, p)
                        if bool(o.errs) == ok:
                            bad = '%s by the language, but the compiler %s' % ('correct' if ok else 'an error', o)
                        elif ok:
                            e = o.ev
                            if e is None or e.name != 'declaration_member':
                                bad = 'the compiler %s' % o
                            elif e.args[1] != vt:
                                bad = 'the member has the type %s instead of %s' % (tname(G, e.args[1]), tname(G, vt))
                            elif e.args[2] != 33 or e.extra[3] != V:
                                bad = 'name or bounds are not those of the source: %s' % o
                    ctx.ob('declarator', key, bad is None, where, bad or '')


def structs(ctx, G):
    fn = G.P.need('build_struct_declaration', G.m)
    where = '%s:%s (%s)' % (fn.file, fn.line, fn.name)
    SPEC = (1 << 63) - 3        # the place that marks type names
    for n, broken in ((1, ()), (2, ()), (3, ()), (3, (1,)), (2, (0,)), (12, ()), (12, (11,)), (12, (8, 10)), (12, (10,))):
        nodes = {20 + i: nd(G, 'int', 0, ok=0 if i in broken else 1) for i in range(n)}
        good = [20 + i for i in range(n) if i not in broken]
        val = lambda base: (lambda it, st, a: ('value', base + (index(st, a[0]) or 900)))
        extra = {'declaration_member_get_type': val(7000), 'declaration_member_get_name': val(8000), 'declaration_struct_get_name': 55,
                 'vector_add': 'event', 'type_structure': 'event', 'ident_add': lambda it, st, a: 'event', 'vector_clear': 'opaque', 'vector_create': 'opaque',
                 'declaration_struct_add_declarator': 'event', 'declaration_struct_set_type': 'event', 'declaration_struct_set_location': 'event'}
        fn, ps, pol = run(ctx, G, 'build_struct_declaration', nodes, args={2: V}, argnodes=(1,), vecs={V: list(range(20, 20 + n))}, extra=extra)
        bad = None if ps else 'no way through'
        for p in ps:
            ev = lambda x: [e for e in p.events if e.name == x]
            ts, ia, st = ev('type_structure'), ev('ident_add'), ev('declaration_struct_set_type')
            if len(ts) != 1 or len(ia) != 1 or len(st) != 1:
                bad = 'the type is made %d times, entered %d times and kept %d times' % (len(ts), len(ia), len(st))
                break
            into = lambda v: [e.args[1] for e in ev('vector_add') if e.extra[0] == v]
            types, names = into(ts[0].extra[1]), into(ts[0].extra[2])
            kept = [e.cap[3][1] for e in ev('declaration_struct_add_declarator')]
            taken = any(isinstance(c, tuple) and c[0] == 'cmp' and c[1] == 'eq' and c[2] == ia[0].res and v for c, v in p.facts.log)
            o = Out(G, p)
            if types != [7000 + i for i in good] or names != [8000 + i for i in good]:
                bad = 'the members are of types %s and names %s' % (types, names)
            elif kept != good:
                bad = 'the declaration keeps the members %s of %s' % (kept, good)
            elif ia[0].args[1] != 55 or ia[0].args[2] != SPEC or ia[0].args[3] != ts[0].res:
                bad = 'the structure is entered as %s' % ', '.join(show(x) for x in ia[0].args[1:])
            elif st[0].args[1] != ts[0].res:
                bad = 'the declaration has the type %s' % show(st[0].args[1])
            elif bool(o.errs) != taken:
                bad = 'the compiler %s though the name is %s' % (o, 'taken' if taken else 'new')
            if bad:
                break
        ctx.ob('struct', 'structure of %d members%s' % (n, ', %s refused' % (broken,) if broken else ''), bad is None, where, bad or '')


def groups(ctx, G):
    fn = G.P.need('build_declaration', G.m)
    where = '%s:%s (%s)' % (fn.file, fn.line, fn.name)
    for n in (0, 1, 2, 3, 11):
        for before in (0, 1, 2):
            nodes = {20 + i: nd(G, 'int', 0) for i in range(n)}
            fn, ps, pol = run(ctx, G, 'build_declaration', nodes, args={2: V}, argnodes=(1,), vecs={V: list(range(20, 20 + n))},
                              extra={'statement_declaration_get_size': before, 'statement_declaration_add_declarator': 'event'})
            bad = None if ps else 'no way through'
            for p in ps:
                o = Out(G, p)
                kept = [e.cap[3][1] for e in p.events if e.name == 'statement_declaration_add_declarator']
                if bool(o.errs) != (n == 0 and before == 0):
                    bad = '%d declarators after %d declarations: the compiler %s' % (n, before, o)
                elif kept != list(range(20, 20 + n)):
                    bad = 'the declaration keeps %s' % kept
            ctx.ob('declaration', '%d declarators, %d types declared in the specifier' % (n, before), bad is None, where, bad or '')


def check_made(ctx):
    G = B(ctx)
    members(ctx, G)
    structs(ctx, G)
    groups(ctx, G)


def literals(ctx, G):
    ctx.rule('literal', 'a literal has its type and value')
    val = ('lit', 1)
    for name, t, maker in (('build_boolean_literal_expression', 'bool', 'expression_boolean_literal'), ('build_character_literal_expression', 'char', 'expression_character_literal'),
                           ('build_integer_literal_expression', 'int', 'expression_integer_literal'), ('build_floating_literal_expression', 'float', 'expression_floating_literal'),
                           ('build_string_literal_expression', 'char[]', 'expression_string_literal'), ('build_null_literal_expression', 'null', 'expression_null_literal')):
        fn = G.P.need(name, G.m)
        null = t == 'null'
        fn, ps, pol = run(ctx, G, name, {}, args={} if null else {1: val}, argnodes=())
        bad = None if ps else 'no way through'
        for p in ps:
            o = Out(G, p)
            e = o.ev
            if o.errs or e is None or e.name != maker:
                bad = 'the compiler %s' % o
            elif e.args[1] != G.T.id[t]:
                bad = 'the literal has the type %s' % tname(G, e.args[1])
            elif not null and strip(e.args[2]) != val:
                bad = 'the literal has the value %s' % show(e.args[2])
        ctx.ob('literal', name, bad is None, '%s:%s (%s)' % (fn.file, fn.line, fn.name), bad or '')


def strip(v):
    while isinstance(v, tuple) and v[0] == 'cast':
        v = v[4]
    return v

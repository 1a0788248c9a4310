"""L03: arrays and structures with initialisers, string constants and library declarations in the LLVM code."""
import re
from .llvmir import L01, LlPol, GC, GT, LLT, NEEDS, norm, LLTX, plus
from ..absint import Event, is_c, split
from ..model import BASE, getter

ID = 5000
D = 'declaration_variable_'


class HashPol(LlPol):
    """The table of arrays is an exact map from a variable to its numbers."""
    strings = ()

    def rec_limit(self, fn):
        return 4

    def keeps(self, st, k):
        return isinstance(k[0], tuple) and k[0] and k[0][0] in ('hash', 'chars') or super().keeps(st, k)

    def special(self, it, st, name, args, fn):
        if name.startswith('hash_') and len(args) > 1:
            return self.table(it, st, name[5:], args)
        if name == 'encoder_error':
            fr = st.frames[-1]
            e = Event('call', name, tuple(args), ('print',), 0, fr.fn, tuple(x.fn.name for x in st.frames), st.facts.log, args)
            e.cap = ('p', ['<refused>'])
            st.events.append(e)
            return ('value', 0)
        if name == 'string_get' and self.strings:
            return ('value', ('chars', args[1]))
        if name == 'strings_length' and self.strings:
            return ('value', len(self.strings[args[1]]) if args[1] < len(self.strings) else 0)
        if name == 'strings_amount' and self.strings:
            return ('value', len(self.strings))
        if name == 'vector_size' and 'types' in self.spec:
            return ('value', self.spec['types'])
        return super().special(it, st, name, args, fn)

    def table(self, it, st, f, a):
        key = a[1][1] if isinstance(a[1], tuple) and a[1][0] == 'hix' else a[1]
        cell = lambda n: (('hash', key), n, ())
        f = f.replace('_by_index', '')
        if f == 'add':
            st.mem[cell('n')] = (a[2], 8)
            return ('value', ('hix', key))
        if f == 'get_index':
            return ('value', ('hix', key))
        if f == 'get_key':
            return ('value', key)
        if f == 'get_amount':
            return ('value', st.mem.get(cell('n'), (self.spec.get('hash_get_amount'),))[0])
        if f == 'set':
            st.mem[cell(a[2])] = (a[3], 8)
            return ('value', 0)
        if f == 'get':
            return ('value', st.mem.get(cell(a[2]), (('unset', a[2]),))[0])
        return None


def check_arrays(ctx):
    from . import llvmir
    ctx.rule('template', 'the storage printed for an array has its bounds, every element of an initialiser is stored at its own place, and '
                         'unusable bounds are refused')
    X = L01(ctx)
    X.G.policy = HashPol
    X.G.show_switch = False
    _bounds(ctx, X)
    _lists(ctx, X)
    _structs(ctx, X)
    _sizes(ctx, X)
    ctx.rule('string', 'the bytes of a string constant, decoded by LLVM rules, are the bytes of the string and a final zero')
    _strings(ctx, X)
    ctx.rule('declare', 'a library function used is declared with its types, one not used is not, and structures are declared member by member')
    _library(ctx, X)


def arr(dims, lt):
    return ''.join('[%s x ' % d for d in dims) + lt + ']' * len(dims)


def _type(X, el, dims):
    t = X.T[el]
    for _ in range(dims):
        t = X.G.T.add('arr%d' % len(X.G.T.tab), 'ARRAY', t)
    return t


def _spec(X, el, dims, init=0):
    return {'declaration_get_class': X.G.P.enum(X.G.m, 'declaration_t')['DECL_VAR'], D + 'has_initializer': init, D + 'get_id': ID,
            ('ident_get_type', ID): _type(X, el, dims), D + 'get_bounds_amount': 0 if init else dims}


def _bounds(ctx, X):
    B = '<E:' + D + 'get_bound[%d]:V>'
    for el in ('int', 'float', 'char', 'bool', 'int*', 'struct'):
        lt = LLT.get(el) or '%%struct_opt.%d' % X.T[el]
        for dims in (1, 2, 3):
            for loc in (1, 0):
                pre = ''.join(B % k for k in range(dims))
                want = arr(['{C%d}' % (k + 1) for k in range(dims)], lt)
                t = pre + (' %%arr.%d = alloca %s, align 4' % (ID, want) if loc else '@arr.%d = common global %s zeroinitializer, align 4' % (ID, want))
                X.expect('%s %s array of %d' % ('local' if loc else 'global', el, dims), _spec(X, el, dims), [norm(t), norm(t.replace(' %', '%', 1)),
                         norm(t.replace('common ', ''))], {'was_dynamic': '0'}, ('ACONST',) * dims, root='emit_declaration', args={2: loc}, cut=False)
            for was in (0, 1):
                t = ''.join(B % k for k in range(dims))
                n = 'R%d' % dims
                d = 0
                if not was:
                    t += ' %%dyn.-1 = alloca i8*, align 4\n%%.{%s} = call i8* @llvm.stacksave()\nstore i8* %%.{%s}, i8** %%dyn.-1, align 4\n' % (n, n)
                    d = 1
                tot = 'A1'
                for k in range(2, dims + 1):
                    t += ' %%.{%s} = mul nuw i32 %%.{%s}, %%.{A%d}\n' % (plus(n, d), tot, k)
                    tot = plus(n, d)
                    d += 1
                t += ' %%dynarr.%d = alloca %s, i32 %%.{%s}, align 4' % (ID, lt, tot)
                X.expect('%s array of %d computed bounds%s' % (el, dims, ' after another' if was else ''), _spec(X, el, dims),
                         [norm(t)], {'was_dynamic': '1', 'register_num': plus(n, d)}, ('AREG',) * dims, root='emit_declaration', args={2: 1},
                         cut=False, init={'was_dynamic': was})
    for a, b in (('AREG', 'ACONST'), ('ACONST', 'AREG')):
        ps, where = X.G.run('emit_declaration', _spec(X, 'int', 2), kinds=(a, b), args={2: 1}, cut=False)
        for p in ps:
            ctx.ob('template', 'bounds %s and %s' % (a, b), '<refused>' in X.G.text(p), p.events[-1].where() if p.events else where,
                   'an array with one constant and one computed bound is not refused')


def _lists(ctx, X):
    G, T = X.G, X.T
    I = D + 'get_initializer'
    sub = 'expression_initializer_get_subexpr'
    tag, lit = G.P.ev(G.m, 'OP_INITIALIZER'), G.P.ev(G.m, 'OP_LITERAL')
    for el in ('int', 'float', 'char'):
        lt = LLT[el]
        for shape in ((1,), (2,), (3,), (2, 2), (1, 3), (3, 2), (2, 1, 2), (9,), (8, 1), (1, 8)):
            for k in ('AREG', 'ACONST'):
                for loc in (1, 0):
                    if not loc and k == 'AREG':
                        continue
                    dims = len(shape)
                    spec = _spec(X, el, dims, 1)
                    lo = {}
                    nodes(spec, I, shape, tag, lit, el, T, sub, spec[('ident_get_type', ID)], G)
                    for c in ('ident_is_local',):
                        spec[c] = loc
                    body, st = [], {'n': 0, 'r': 'R0', 'k': 0}
                    _walk(body, st, I, shape, 0, shape, lt, '%' if loc else '@', None, k, el, sub, X)
                    if loc:
                        want = ['%%arr.%d = alloca %s, align 4\n' % (ID, arr(shape, lt)) + ''.join(body)]
                        X.expect('local %s list %s of %s' % (el, 'x'.join(map(str, shape)), k), spec, [norm(w).replace('\n', '\n') for w in want],
                                 {'register_num': st['r']}, (k,) * st['k'], root='emit_declaration', args={2: 1}, cut=False)
                    else:
                        X.expect('global %s list %s storage' % (el, 'x'.join(map(str, shape))), spec,
                                 ['@arr.%d = %sglobal %s zeroinitializer, align 4' % (ID, c, arr(shape, lt)) for c in ('common ', '')], {}, (),
                                 root='emit_declaration', args={2: 0}, cut=False)
                        g = 'translation_unit_get_declaration'
                        # its elements are stored when main starts
                        body, st = [], {'n': 0, 'r': 'R0', 'k': 0}
                        _walk(body, st, I + '(declaration)', shape, 0, shape, lt, '@', None, k, el, sub, X)
                        spec2 = _spec(X, el, dims, 1)
                        top = '%s(%s(%s)[0])' % (I, g, 'node_get_root')
                        _global(ctx, X, spec2, shape, el, k)


def nodes(spec, g, shape, tag, lit, el, T, sub, at, G):
    spec[('node_get_type', g)] = tag if shape else lit
    spec[(GC, g)] = G.expr['EXPR_INITIALIZER'] if shape else G.expr['EXPR_LITERAL']
    if shape:
        spec[(GT, g)] = at
        spec[('expression_initializer_get_size', g)] = shape[0]
        inner = G.T.tab[at + 1]
        for k in range(shape[0]):
            nodes(spec, '%s(%s)[%d]' % (sub, g, k), shape[1:], tag, lit, el, T, sub, inner, G)
    else:
        spec[(GT, g)] = T[el]


def _walk(out, st, g, shape, depth, full, lt, sig, prev, kind, el, sub, X):
    """The stores of an initialiser list in order; sub-registers follow the counter."""
    rows = full[depth:]
    for i in range(shape[0]):
        here = st['r']
        base = '%sarr.%d' % (sig, ID) if depth == 0 else '%%.{%s}' % prev
        out.append('%%.{%s} = getelementptr inbounds %s, %s* %s, i32 0, i32 %d\n' % (here, arr(rows, lt), arr(rows, lt), base, i))
        st['r'] = plus(here, 1)
        e = '%s(%s)[%d]' % (sub, g, i)
        if len(shape) > 1:
            _walk(out, st, e, shape[1:], depth + 1, full, lt, sig, here, kind, el, sub, X)
        else:
            st['k'] += 1
            out.append('<E:%s:V> store %s %s, %s* %%.{%s}, align 4\n' % (e, lt, X.val(kind, st['k'], el), lt, here))
            st['r'] = 'R%d' % st['k']


def _global(ctx, X, spec, shape, el, k):
    G, T = X.G, X.T
    tag, lit = G.P.ev(G.m, 'OP_INITIALIZER'), G.P.ev(G.m, 'OP_LITERAL')
    sub = 'expression_initializer_get_subexpr'
    tu = 'translation_unit_get_declaration'
    root = 'node_get_root(None)'
    decl = '%s(%s)[%%d]' % (tu, root) if root else tu + '[%d]'
    dv, df = (G.P.enum(G.m, 'declaration_t')[x] for x in ('DECL_VAR', 'DECL_FUNC'))
    at = 9 if shape == (2,) else 1
    s = {'translation_unit_get_size': at + 2, ('declaration_get_class', decl % at): dv,
         ('declaration_get_class', decl % (at + 1)): dv, (D + 'get_id', decl % at): ID, (D + 'get_id', decl % (at + 1)): ID + 7,
         (D + 'has_initializer', decl % at): 1, (D + 'has_initializer', decl % (at + 1)): 0,
         **{('declaration_get_class', decl % n): df for n in range(at)},
         ('ident_get_type', ID): spec[('ident_get_type', ID)], ('ident_get_type', ID + 7): T['int[]'], 'hash_get_amount': len(shape) + 1,
         'ident_is_local': 0}
    I = '%sget_initializer(%s)' % (D, decl % at)
    nodes(s, I, shape, tag, lit, el, T, sub, s[('ident_get_type', ID)], G)
    body, st = [], {'r': 'R0', 'k': 0}
    lt = LLT[el]
    _walk(body, st, I, shape, 0, shape, lt, '@', None, k, el, sub, X)
    mem = {(('hash', ID), 0, ()): (1, 8), (('hash', ID), 'n', ()): (len(shape) + 1, 8)}
    for n, d in enumerate(shape):
        mem[(('hash', ID), n + 1, ())] = (d, 8)
    X.expect('global %s list %s when main starts' % (el, 'x'.join(map(str, shape))), s, norm(''.join(body)), {}, (k,) * st['k'],
             root='global_initialization', more=mem, cut=False)


def _sizes(ctx, X):
    """upb of one dimension, subscripts of a string constant, and array parameters in the table of arrays."""
    G, T = X.G, X.T
    O = 'expression_unary_get_operand'
    for static in (1, 0):
        spec = X.base('UNARY', 'int', {'expression_unary_get_operator': G.un['UN_UPB'], (GT, O): T['int[]'],
                                       'node_get_type': X.tagid, ('expression_identifier_get_id', O): ID})
        mem = {(('hash', ID), 'n', ()): (2, 8), (('hash', ID), 0, ()): (static, 8), (('hash', ID), 1, ()): (9, 8)}
        X.expect('upb of a %s array' % ('static' if static else 'dynamic'), spec, ['%.{R0} = add nsw i32 0, 9'] if static else [''],
                 {'answer_reg': 'R0' if static else '9', 'register_num': 'R0+1' if static else 'R0', 'answer_kind': str(G.ans['AREG'])},
                 more=mem, cut=False)
    b, i = 'expression_subscript_get_base', 'expression_subscript_get_index'
    text = b'xyz'

    class Pol(HashPol):
        strings = (text,)

        def effect(self, it, st, name, args, term):
            super().effect(it, st, name, args, term)
            n = self.subs(st)
            if n == 1:
                G.put(st, 'answer_string', 0)
            elif n == 2:
                G.put(st, 'answer_const', self.spec['at'])
    G.policy = Pol
    more = {(('chars', 0), k, ()): (c, 1) for k, c in enumerate(text + b'\0')}
    for at in range(-1, 5):
        spec = X.base('SUBSCRIPT', 'char', {(GC, b): G.expr['EXPR_LITERAL'], 'node_get_type': X.tagsl, 'at': at})
        ok = 0 <= at < len(text)
        X.expect('string constant at %d' % at, spec, '<E:%s:*><E:%s:*>' % (b, i) if ok else ['<E:%s:*><E:%s:*> call void @exit(i32 1)' % (b, i)],
                 {'answer_const': str(text[at]), 'answer_kind': str(G.ans['ACONST'])} if ok else {}, ('ASTR', 'ACONST'), more=more,
                 init={'variable_location': ('vloc', 0)}, cut=False, rule='string')
    G.policy = HashPol
    F = 'declaration_function_get_'
    main = G.P.field(G.m, 'syntax', 'ref_main')
    for pars in (('int[]',), ('int', 'float[]', 'char[]'), ('int[][]', 'int')):
        ft = G.T.add('pf%d' % len(G.T.tab), 'FUNCTION', T['void'], len(pars), *[T[x] for x in pars])
        spec = {'declaration_get_class': G.P.enum(G.m, 'declaration_t')['DECL_FUNC'], F + 'id': 5100, ('ident_get_type', 5100): ft,
                'statement_compound_get_size': 2, 'statement_get_class': G.stmt['STMT_EXPR'], 'was_dynamic': 0}
        for n, x in enumerate(pars):
            spec[('ident_get_type', F + 'parameter[%d]' % n)] = T[x]
        ps, where = G.run('emit_declaration', spec, more={(('sx',), main, ()): (77, 8)}, args={2: 0}, cut=False)
        ctx.need(ps, 'no path through a function with array parameters')
        for p in ps:
            got = {n: [None, None] for n in range(len(pars))}
            for k, v in p.state.mem.items():
                m = re.fullmatch(F + r'parameter\[(\d+)\]', getter(k[0][1]) or '') if isinstance(k[0], tuple) and k[0][0] == 'hash' else None
                if m and k[1] in ('n', 0):
                    got[int(m.group(1))][k[1] == 0] = v[0]
            got = {n: tuple(v) for n, v in got.items()}
            want = {n: (1 + x.count('[]'), 0) if '[]' in x else (None, None) for n, x in enumerate(pars)}
            ctx.ob('template', 'array parameters %s' % ' '.join(pars), got == want, p.events[-1].where() if p.events else where,
                   'parameters are entered as %s, not %s' % (got, want))


def _initial(ctx, X):
    """Each part of the module is printed once, and the first declaration meets a clean start."""
    G, T = X.G, X.T
    offs = {n: G.P.field(G.m, 'information', n) for n in tuple(NEEDS) + ('was_dynamic', 'is_main', 'is_call', 'register_num', 'label_num')}
    wf, first, pf = G.P.field(G.m, 'information', 'was_function'), G.P.ev(G.m, 'BEGIN_USER_FUNC'), G.P.ev(G.m, 'BI_PRINTF')
    tab = {k: 0 for k in range(20)}
    tab.update({20: 0, 21: G.T.c['STRUCTURE'], 22: 1, 23: 2, 24: T['int'], 25: 30})

    class Pol(HashPol):
        strings = (b'text',)

        def special(self, it, st, name, args, fn):
            if name == 'vector_get' and is_c(args[1]) and args[1] in tab:
                return ('value', tab[args[1]])
            return 'opaque' if name == 'hash_create' else ('value', 1) if name == 'ws_is_correct' else super().special(it, st, name, args, fn)

        def capture(self, it, st, name, args):
            if self.sub(it, st, name, args) == 'D':
                b, o, _ = split(args[0])
                get = lambda k: st.mem.get((b, o + k, ()), (None,))[0]
                return ('start', {n: get(o2) for n, o2 in offs.items()}, [get(wf + k) for k in range(first)])
            return super().capture(it, st, name, args)

        def effect(self, it, st, name, args, term):
            if self.sub(it, st, name, args) == 'D':      # what was found is recorded; go on from a clear table
                b, o, _ = split(args[0])
                for k in range(first):
                    if not is_c(st.mem.get((b, o + wf + k, ()), (None,))[0]):
                        st.mem[(b, o + wf + k, ())] = (0, 1)

        def keeps(self, st, k):
            return True
    G.policy = Pol
    more = {(('chars', 0), k, ()): (c, 1) for k, c in enumerate(b'text\0')}
    for b in (('sx',), ('arg', 1)):
        more[(b, G.P.field(G.m, 'syntax', 'start_type'), ())] = (20, 8)
    ps, where = G.run('encode_to_llvm', {'types': len(tab), 'translation_unit_get_size': 1, ('ident_get_type', pf): T['func']}, more=more, cut=False)
    ps = [p for p in ps if p.events]
    ctx.need(ps, 'no path through the whole module')
    want = ('target triple = ', '%struct_opt.21 = type', '@.str0 = ', 'define void @assert(', 'declare i32 @{name(%d)}(i32, double)' % pf)
    for p in ps:
        t = G.text(p)
        bad = [w for w in want if t.count(w) != 1]
        starts = [e.cap for e in p.events if e.cap and e.cap[0] == 'start']
        ctx.ob('declare', 'parts of a module', not bad and len(starts) == 1, where, 'printed never or twice: %s; declarations: %d' % (bad, len(starts)))
        for _, cells, used in starts:
            low = [n for n, v in cells.items() if not is_c(v) or v < 0 or v > 0 and n not in ('register_num', 'label_num')]
            ctx.ob('declare', 'start of a module', not low and not set(used[:pf] + used[pf + 1:]) - {0}, where,
                   'not clear at the start: %s' % (low or 'the functions used'))
    G.policy = HashPol


def _structs(ctx, X):
    G, T = X.G, X.T
    I, sub = D + 'get_initializer', 'expression_initializer_get_subexpr'
    tag = G.P.ev(G.m, 'OP_INITIALIZER')
    nine = ('int', 'float', 'int') * 3
    wide = G.T.add('nine', 'STRUCTURE', 12, 18, *[y for n, x in enumerate(nine) for y in (T[x], 70 + n)])
    T = G.T.id
    for S, mem, kinds in ((T['struct'], nine[:3], ('ACONST',) * 3), (T['struct'], nine[:3], ('AREG',) * 3),
                          (T['struct'], nine[:3], ('ACONST', 'AREG', 'ACONST')), (wide, nine, ('AREG',) * 9), (wide, nine, ('ACONST',) * 9)):
        for loc in (1, 0):
            if not loc and 'AREG' in kinds:
                continue
            spec = {'declaration_get_class': G.P.enum(G.m, 'declaration_t')['DECL_VAR'], D + 'has_initializer': 1, D + 'get_id': ID,
                    ('ident_get_type', ID): S, (GC, I): G.expr['EXPR_INITIALIZER'], (GT, I): S, ('node_get_type', I): tag,
                    'expression_initializer_get_size': len(mem), 'ident_is_local': loc}
            for n, x in enumerate(mem):
                spec[(GT, '%s(%s)[%d]' % (sub, I, n))] = T[x]
            if loc:
                t = '%%var.%d = alloca %%struct_opt.%d, align 4\n' % (ID, S)
                for n, x in enumerate(mem):
                    t += '%%.{R%d} = getelementptr inbounds %%struct_opt.%d, %%struct_opt.%d* %%var.%d, i32 0, i32 %d\n' % (n, S, S, ID, n)
                    t += '<E:%s(%s)[%d]:V> store %s %s, %s* %%.{R%d}, align 4\n' % (sub, I, n, LLT[x], X.val(kinds[n], n + 1, x), LLT[x], n)
                alts = [t]
            else:
                es = ['<E:%s(%s)[%d]:V>' % (sub, I, n) for n in range(len(mem))]
                vs = ['%s %s' % (LLT[x], X.val('ACONST', n + 1, x)) for n, x in enumerate(mem)]
                t = '@var.%d = global %%struct_opt.%d { ' % (ID, S)
                alts = [t + ''.join(es[n] + (', ' if n else '') + vs[n] for n in range(len(mem))) + ' }, align 4']
            alts += [re.sub(r'(\[[1-8]\]):V', r'\1:*', a) for a in alts]
            X.expect('%s structure list of %s' % ('local' if loc else 'global', ' '.join(kinds)), spec, [norm(a) for a in alts], {}, kinds,
                     root='emit_declaration', args={2: loc}, cut=False)


def _strings(ctx, X):
    G, T = X.G, X.T
    P = HashPol
    strs = [bytes(range(256)), b'', b'a"b\\c\nd', b'%s %d', b'\\0A\\22', bytes(range(255, -1, -1)), 'я'.encode()]
    mem = {}
    for n, s in enumerate(strs):
        for k, b in enumerate(s + b'\0'):
            mem[(('chars', n), k, ())] = (b, 1)

    class Pol(HashPol):
        strings = strs
    G.policy = Pol
    ps, where = G.run('strings_declaration', {}, more=mem, cut=False)
    ctx.need(ps, 'no path through the declarations of strings')
    for p in ps:
        raw = b''.join((x.encode('latin1') if isinstance(x, str) else b'<?>') for e in p.events if e.cap and e.cap[0] == 'p' for x in e.cap[1])
        got = {}
        for m in re.finditer(rb'@\.str(\d+) = private unnamed_addr constant \[(\d+) x i8\] c"([^"]*)"', raw):
            got[int(m.group(1))] = (int(m.group(2)), re.sub(rb'\\([0-9A-Fa-f]{2}|\\)', lambda k: b'\\' if k.group(1) == b'\\' else bytes([int(k.group(1), 16)]),
                                                            m.group(3)))
        ctx.ob('string', 'all strings', sorted(got) == list(range(len(strs))), where, 'strings %s are declared of %d' % (sorted(got), len(strs)))
        for n, s in enumerate(strs):
            g = got.get(n)
            ctx.ob('string', 'string constant %d' % n, g == (len(s) + 1, s + b'\0'), p.events[-1].where() if p.events else where,
                   'the string %r is declared as %r' % (s[:40], g))
        rest = re.sub(rb'@\.str(\d+) = private unnamed_addr constant \[(\d+) x i8\] c"([^"]*)", align 1\n', b'', raw).strip()
        ctx.ob('string', 'nothing else', not rest, where, 'the declarations of strings also print %r' % rest[:80])
    # a character array set from a string
    I = D + 'get_initializer'
    for n, s in enumerate(strs[2:4] + strs[6:], 2):
        n = n if n < 4 else 6
        spec = {'declaration_get_class': G.P.enum(G.m, 'declaration_t')['DECL_VAR'], D + 'has_initializer': 1, D + 'get_id': ID,
                ('ident_get_type', ID): T['char[]'], D + 'get_bounds_amount': 0, (GC, I): G.expr['EXPR_LITERAL'], (GT, I): T['char[]'],
                'expression_literal_get_string': n, 'ident_is_local': 1}
        N = len(s) + 1
        t = '%%arr.%d = alloca [%d x i8], align 4\n' % (ID, N)
        alt = t
        for k, b in enumerate(s + b'\0'):
            ge = '%%.{%s} = getelementptr inbounds [%d x i8], [%d x i8]* %%arr.%d, i32 0, i32 %d\n' % (plus('R0', k), N, N, ID, k)
            t += ge + 'store i8 %d, i8* %%.{%s}, align 4\n' % (b - 256 if b > 127 else b, plus('R0', k))
            alt += ge + 'store i8 %d, i8* %%.{%s}, align 4\n' % (b, plus('R0', k))
        X.expect('array set from %r' % s, spec, [norm(t), norm(alt)], {'register_num': plus('R0', N)}, (), rule='string',
                 root='emit_declaration', args={2: 1}, cut=False, more=mem)
    G.policy = HashPol


def _library(ctx, X):
    G, T = X.G, X.T
    P = G.P
    first = P.ev(G.m, 'BEGIN_USER_FUNC')
    bi = {n: P.ev(G.m, n) for n in ('BI_ASSERT', 'BI_PRINT', 'BI_PRINTID', 'BI_GETID', 'BI_ROUND')}
    own = {bi[n] for n in ('BI_ASSERT', 'BI_PRINT', 'BI_PRINTID', 'BI_GETID')}
    sig = [('int', ()), ('void', ('int',)), ('float', ('float', 'float')), ('char', ('char', 'int*', 'int[]')), ('bool', ('bool',)), ('int', ('(char[])*', 'int')),
           ('int', ('int', 'char', 'float', 'bool', 'int*', 'int[]', 'float', 'char', 'int'))]
    pc = G.T.add('(char[])*', 'POINTER', T['char[]'])
    T = G.T.id
    ft = [G.T.add('lib%d' % k, 'FUNCTION', T[r], len(a), *[T[x] for x in a]) for k, (r, a) in enumerate(sig)]
    off = P.field(G.m, 'information', 'was_function')
    lx = lambda x: 'i8*' if x == '(char[])*' else LLTX(x)
    for used in (lambda i: 1, lambda i: 0, lambda i: i % 2, lambda i: i % 3 == 0):
        spec = {('ident_get_type', i): ft[i % len(ft)] for i in range(first)}
        mem = {(('arg', 0), off + i, ()): (used(i), 1) for i in range(first)}
        want = []
        for i in range(first):
            if i in own or not used(i):
                continue
            r, a = sig[i % len(sig)]
            h = 'double @llvm.round.f64' if i == bi['BI_ROUND'] else '%s @{name(%d)}' % (LLT[r], i)
            want.append('declare %s(%s)\n' % (h, ', '.join(lx(x) for x in a)))
        ps, where = G.run('builin_functions_declaration', spec, more=mem, cut=False)
        ctx.need(ps, 'no path through the declarations of library functions')
        for p in ps:
            got = sorted(x for x in G.text(p).split('\n') if x)
            exp = sorted(x.strip() for x in want)
            ctx.ob('declare', 'library functions', got == exp, p.events[-1].where() if p.events else where,
                   'declared but not due: %s; due but not declared: %s' % (sorted(set(got) - set(exp))[:3], sorted(set(exp) - set(got))[:3]))
    _used(ctx, X)
    _named(ctx, X, first)
    _struct_types(ctx, X)
    _unit(ctx, X)
    _initial(ctx, X)
    _runtime(ctx, X)


def _used(ctx, X):
    """A call of a library function records that function and no other."""
    G, T = X.G, X.T
    first = G.P.ev(G.m, 'BEGIN_USER_FUNC')
    off = G.P.field(G.m, 'information', 'was_function')
    cc = 'expression_call_get_callee'
    fts = [T['func']] + [G.T.add('use%d' % k, 'FUNCTION', T[r], 0) for k, r in enumerate(('void', 'int', 'float'))]
    for fid in range(first):
        spec = {(GC, 'nd1'): G.expr['EXPR_CALL'], (GT, 'nd1'): T['int'], (GT, cc): fts[2], 'expression_call_get_arguments_amount': 0,
                ('expression_identifier_get_id', cc): fid, 'ident_is_local': 1}
        mem = {(('arg', 0), off + i, ()): (0, 1) for i in range(first)}
        ps, where = G.run('emit_expression', spec, more=mem, init={'variable_location': G.loc['LFREE']}, cut=False)
        ctx.need(ps, 'no path through a call of library function %d' % fid)
        for p in ps:
            got = [i for i in range(first) if p.state.mem.get((('arg', 0), off + i, ()), (0,))[0] not in (0,)]
            if not p.events:
                continue
            ctx.ob('declare', 'use of library function %d' % fid, got == [fid] or '<refused>' in G.text(p), p.events[-1].where() if p.events else where,
                   'a call of library function %d records the use of %s' % (fid, got))


def _named(ctx, X, first):
    """Library functions keep their names; the names of the program's functions are transliterated."""
    for fid in (0, 1, first - 1, first, first + 1, 5000):
        ps, where = X.G.run('func_name_to_io', {}, args={1: fid}, cut=False)
        ctx.need(ps, 'no path through printing a function name')
        for p in ps:
            got = ' '.join(repr(x) for e in p.events if e.cap and e.cap[0] == 'p' for x in e.cap[1])
            own = 'ident_get_spelling' in got
            ctx.ob('declare', 'name of function %d' % fid, own == (fid < first) and got.count("'s'") == 1, p.events[-1].where() if p.events else where,
                   'function %d is printed as %s' % (fid, 'spelled' if own else 'transliterated'))


def _struct_types(ctx, X):
    """Structures of the types table: one declaration each, members in order."""
    G, T = X.G, X.T
    LX = lambda x: LLT.get(x) or '%%struct_opt.%d' % x
    for lay in ([], [(3, 'int', 'float', 'int')], [(1, 'char')], [(3, 'int', 'float', 'int'), 'enum', (4, 'bool', 'int*', 21, 'float'), (1, 'char')],
                [(2, 'char', 'int'), 'looks', (2, 'int', 'float'), 'looks', 'array', (1, 'float')],
                ['enum', (2, 'char', 'int'), 'enum', 'array', (1, 26)], [(12,) + ('int', 'float', 'char') * 4, (1, 'char')]):
        tab, want, last, named = {k: 0 for k in range(20)}, [], 0, 500
        for x in lay:
            tab[len(tab)] = last
            last = len(tab) - 1
            if x == 'enum':
                row = [G.T.c['ENUM'], 2, 21, 22]
            elif x == 'array':
                row = [G.T.c['ARRAY'], T['int']]
            elif x == 'looks':       # a reference that has the number of the word for structures; so does the name of the next member
                row, named = [G.T.c['ARRAY'], G.T.c['STRUCTURE']], G.T.c['STRUCTURE']
            else:
                want.append('%%struct_opt.%d = type { %s }' % (len(tab), ', '.join(LX(m) for m in x[1:])))
                row = [G.T.c['STRUCTURE'], x[0], 2 * (len(x) - 1)]
                for k, m in enumerate(x[1:]):
                    row += [T.get(m, m), named + k if named == 500 else named]
            for v in row:
                tab[len(tab)] = v

        class Pol(HashPol):
            def special(self, it, st, name, args, fn):
                if name == 'vector_get' and is_c(args[1]) and (args[1] in tab or len(tab) <= args[1] < BASE):
                    return ('value', tab.get(args[1], 0))
                return super().special(it, st, name, args, fn)
        G.policy = Pol
        ps, where = G.run('structs_declaration', {'types': len(tab)}, cut=False,
                          more={(('sx',), G.P.field(G.m, 'syntax', 'start_type'), ()): (last, 8)})
        ctx.need(ps, 'no path through the declarations of structures')
        for p in ps:
            got = [x.strip() for x in G.text(p).split('\n') if x.strip()]
            ctx.ob('declare', 'structures', got == want, p.events[-1].where() if p.events else where,
                   'structures are declared as %s, not %s' % (got, want))
    G.policy = HashPol




PARTS = {'was_stack_functions': ('declare i8* @llvm.stacksave()', 'declare void @llvm.stackrestore(i8*)'), 'was_abs': ('declare i32 @abs(i32)',),
         'was_fabs': ('declare double @llvm.fabs.f64(double)',), 'was_file': ('%struct._IO_FILE = type', '%struct._IO_marker = type')}


def _unit(ctx, X):
    """Every declaration of the program is emitted in order, and what the code relies on is declared."""
    g = 'translation_unit_get_declaration[%d]'
    for bits in range(1 << len(NEEDS)):
        init = {n: bits >> k & 1 for k, n in enumerate(sorted(NEEDS))}
        n = (0, 1, 3, 11)[bits % 4]
        ps, where = X.G.run('emit_translation_unit', {'translation_unit_get_size': n}, init=init, cut=False)
        ctx.need(ps, 'no path through the whole program')
        for p in ps:
            got = X.G.text(p)
            sub = re.findall(r'<D:([^>]*?):[^:>]*>', got)
            bad = [x for f, xs in PARTS.items() for x in xs if got.count(x) != init[f]]
            ctx.ob('declare', 'program with %s' % [f for f in init if init[f]], not bad and sub == [g % k for k in range(n)],
                   p.events[-1].where() if p.events else where, 'of %d declarations %s are emitted; missing or unneeded: %s' % (n, sub, bad))


def _runtime(ctx, X):
    """The library functions written by hand: assert ends the program on a false condition and only then."""
    G = X.G
    off = G.P.field(G.m, 'information', 'was_function')
    pf = G.P.ev(G.m, 'BI_PRINTF')
    ps, where = G.run('runtime', {}, more={(('arg', 0), off + pf, ()): (0, 1)}, cut=False)
    ctx.need(ps, 'no path through the hand-written library')
    for p in ps:
        t = G.text(p)
        fs = dict(re.findall(r'define void @(\w+)\(([^{]*\) \{\n.*?)\n\}', t, re.S))
        why = runtime_assert(fs.get('assert', ''))
        ctx.ob('declare', 'assert', not why, p.events[0].where() if p.events else where, 'the hand-written assert %s' % why)
        for n in ('print', 'printid', 'getid'):
            ctx.ob('declare', n, 'ret void' in fs.get(n, ''), where, 'the hand-written %s is missing' % n)
        ctx.ob('declare', 'what the library calls', p.state.mem.get((('arg', 0), off + pf, ()), (0,))[0] == 1 and
               'declare void @exit(i32)' in t and re.search(r'@\.str = .*constant \[3 x i8\] c"%s\\00"', t) is not None, where,
               'printf, exit or its format is not declared')


def runtime_assert(body):
    """Why the text is not an assertion: follow the values and the two ways out."""
    val, slot, blocks, cur = {'%0': 'cond', '%1': 'message'}, {}, {'entry': []}, 'entry'
    for line in body.split('\n')[1:]:
        line = line.strip()
        m = re.match(r'(?:; <label>:)?(\d+):', line)
        if m:
            cur = '%' + m.group(1)
            blocks[cur] = []
            continue
        line = line.split(';')[0].strip()
        if line:
            blocks[cur].append(line)
    ends = {}
    for b, ls in blocks.items():
        did = []
        for l in ls:
            m = re.match(r'store \S+ (%\d+), \S+ (%\d+)', l)
            if m:
                slot[m.group(2)] = val.get(m.group(1))
            m = re.match(r'(%\d+) = load \S+, \S+ (%\d+)', l)
            if m:
                val[m.group(1)] = slot.get(m.group(2))
            m = re.match(r'br i1 (%\d+), label (%\d+), label (%\d+)', l)
            if m:
                did.append(('br', val.get(m.group(1)), m.group(2), m.group(3)))
            m = re.search(r'call i32 .*@printf\(i8\* getelementptr .*@\.str, i32 0, i32 0\), i8\* (%\d+)\)', l)
            if m:
                did.append(('print', val.get(m.group(1))))
            m = re.match(r'call void @exit\(i32 (\d+)\)', l)
            if m:
                did.append(('exit', m.group(1) != '0'))
            if l in ('ret void', 'unreachable'):
                did.append((l,))
        ends[b] = did
    br = ends['entry'][-1] if ends['entry'] else ()
    if len(br) != 4 or br[1] != 'cond' or br[2] == br[3]:
        return 'does not test its condition'
    if ends.get(br[2]) != [('ret void',)]:
        return 'does not go on when the condition is true'
    bad = ends.get(br[3], [])
    if ('print', 'message') not in bad or ('exit', True) not in bad or bad.index(('print', 'message')) > bad.index(('exit', True)):
        return 'does not print its message and stop when the condition is false'
    return ''

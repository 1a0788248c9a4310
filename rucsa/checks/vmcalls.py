"""V04 calls before and after the definition: the encoder's tables on modelled memory, histories of calls and definitions."""
from ..absint import mkptr, show
from ..program import AnalysisError
from .ast import World


class Enc:
    def __init__(self, ctx, prevs, room):
        w = self.w = World(ctx)
        P = self.P = w.P
        self.m = P.module('compiler/codegen.c')
        vm = P.module('utils/vector.c')
        self.sx, self.node = w.fresh(), None
        f = lambda n: P.field(self.m, 'syntax', n)
        for name in ('identifiers', 'types'):
            cells = self.vector(vm, self.sx, f(name), room)
            w.mem.update(cells)
        st = w.stubs
        const = lambda v: (lambda it, s, a: ('value', v))
        st['item_get_status'] = const(0)
        st['ident_get_prev'] = lambda it, s, a: ('value', prevs.get(a[1], (1 << 63) - 2))
        st['ident_get_type'] = const(-5)
        st['type_size'] = const(1)
        st['type_is_function'] = const(1)
        nothing = const(('agg', (w.fresh(), 1)))
        for n in ('expression_call_get_callee', 'declaration_function_get_body', 'expression_call_get_argument'):
            st[n] = nothing
        st['expression_call_get_arguments_amount'] = const(0)
        st['expression_identifier_get_id'] = lambda it, s, a: ('value', self.node)
        st['declaration_function_get_id'] = lambda it, s, a: ('value', self.node)
        self.params = []
        st['declaration_function_get_parameters_amount'] = lambda it, s, a: ('value', len(self.params))
        st['declaration_function_get_parameter'] = lambda it, s, a: ('value', self.params[a[1]])
        st['emit_statement'] = const(0)
        ws = w.fresh()
        self.enc = w.call('enc_create', ws, self.sx, mod=self.m)
        self.base = self.size()

    def vector(self, vm, base, off, n):
        w = self.w
        p = w.call('vector_create', n, mod=vm)
        if not (isinstance(p, tuple) and p[0] == 'heap'):
            raise AnalysisError('vector_create gave %s' % show(p))
        w.call('vector_increase', p, n, mod=vm)
        return {(base, off + k[1], k[2]): v for k, v in w.mem.items() if k[0] == p}

    def vec(self, name):
        return mkptr(self.enc, self.P.field(self.m, 'encoder', name))

    def size(self):
        return self.w.call('vector_size', self.vec('memory'), mod=self.P.module('utils/vector.c'))

    def word(self, i):
        return self.w.call('vector_get', self.vec('memory'), i, mod=self.P.module('utils/vector.c'))

    def call(self, ident):
        self.node = ident
        self.w.call('emit_call_expression', self.enc, self.w.fresh(), mod=self.m)
        return self.size() - 1          # the word that names the function is the last one

    def define(self, ident):
        self.node, self.params = ident, []
        at = self.size()
        self.w.call('emit_function_definition', self.enc, self.w.fresh(), mod=self.m)
        return at

    def inside(self, param, place):
        """The function being emitted has one parameter, a function, at `place`."""
        self.params = [param + 1000 + k for k in range(9)] + [param]      # it is the last of ten
        self.w.mem[(self.enc, self.P.field(self.m, 'encoder', 'curr_func'), ())] = (self.w.fresh(), 8)
        self.w.call('vector_set', self.vec('displacements'), param, place, mod=self.P.module('utils/vector.c'))


def check(ctx):
    ctx.rule('history', 'whatever calls and definitions came before, a call names the number of its function once that is defined, and '
                        'no other word of the code changes')
    P = ctx.prog
    m = P.module('compiler/codegen.c')
    fn = P.need('emit_call_expression', m)
    where = '%s:%s (%s)' % (fn.file, fn.line, fn.name)
    # two functions a and b; a is declared first (id A0) and defined later (id A1), b likewise
    first = P.ev(m, 'BEGIN_USER_FUNC')
    A0, A1, B0, B1, F = range(first, first + 20, 4)
    room = first + 24
    histories = ['A', 'AB', 'aA', 'aaA', 'aaaA', 'abAB', 'abBA', 'aabAB', 'babaBA', 'aAbB', 'bAaaB', 'abaAbB', 'BaA', 'aBA', 'paA', 'apaA', 'paapbABp']
    for h in histories:
        e = Enc(ctx, {A1: A0, B1: B0}, room)
        places = {'a': [], 'b': []}
        start = {}
        bad = None
        done = set()
        for c in h:
            if c == 'p':
                e.inside(F, -7)
                two = [e.word(e.call(F)) for _ in range(2)]
                if two != [-7, -7]:
                    bad = 'a call of the parameter at place -7 names %s' % [show(x) for x in two]
            elif c == 'A' or c == 'B':
                f = c.lower()
                start[f] = e.define({'a': A1, 'b': B1}[f])
                done.add(f)
                places[f].append(e.call({'a': A1, 'b': B1}[f]))
            else:
                if c in done:
                    continue
                places[c].append(e.call({'a': A0, 'b': B0}[c]))
        n = e.size()
        if not isinstance(n, int):
            raise AnalysisError('size of the code: %s' % show(n))
        num = {}
        funs = e.vec('functions')
        for f in sorted(done) if bad is None else ():
            ws = [e.word(p) for p in places[f]]
            if len(set(map(str, ws))) != 1 or not isinstance(ws[0], int) or ws[0] <= 0:
                bad = 'calls of %s name %s' % (f, [show(x) for x in ws])
                break
            num[f] = ws[0]
            at = e.w.call('vector_get', funs, ws[0], mod=P.module('utils/vector.c'))
            if at != start[f]:
                bad = 'function %s begins at %s, its entry says %s' % (f, start[f], show(at))
                break
        if bad is None and len(set(num.values())) != len(num):
            bad = 'two functions have one number: %s' % num
        if bad is None:
            for i in range(4):
                if e.word(i) != 0:
                    bad = 'word %d in front of the code becomes %s' % (i, show(e.word(i)))
        ctx.ob('history', h, bad is None, where, bad or '')
    ctx.minimum('history', 10)

"""Shared abstractions of the compiler's data: a types table with one type of every shape, AST getters, code positions."""
from .absint import Policy, split, mkptr, is_c
from .program import AnalysisError

BASE = 100000


class Types:
    """One concrete type of every shape, served to the code under analysis through reads of the types table."""

    def __init__(self, prog, mod):
        self.off = prog.field(mod, 'syntax', 'types')
        c = {n: prog.ev(mod, 'TYPE_' + n) for n in
             ('VOID', 'BOOLEAN', 'CHARACTER', 'INTEGER', 'FLOATING', 'FILE', 'STRUCTURE', 'ARRAY', 'POINTER', 'FUNCTION',
              'CONST', 'ENUM', 'NULL_POINTER', 'UNDEFINED', 'VARARG')}
        self.c = c
        self.tab = {}
        self.n = BASE
        self.name = {}
        self.id = {}
        for k, n in (('void', 'VOID'), ('bool', 'BOOLEAN'), ('char', 'CHARACTER'), ('int', 'INTEGER'), ('float', 'FLOATING'),
                     ('file', 'FILE'), ('null', 'NULL_POINTER'), ('undef', 'UNDEFINED'), ('vararg', 'VARARG')):
            self._reg(k, c[n])
        self.add('int*', 'POINTER', c['INTEGER'])
        self.add('float*', 'POINTER', c['FLOATING'])
        self.add('int[]', 'ARRAY', c['INTEGER'])
        self.add('float[]', 'ARRAY', c['FLOATING'])
        self.add('char[]', 'ARRAY', c['CHARACTER'])
        self.add('int[][]', 'ARRAY', self.id['int[]'])
        self.add('const int', 'CONST', c['INTEGER'])
        self.add('const float', 'CONST', c['FLOATING'])
        # struct {int, float, int}: STRUCTURE, size, 2*members, type, name, ...
        self.add('struct', 'STRUCTURE', 4, 6, c['INTEGER'], 11, c['FLOATING'], 12, c['INTEGER'], 13)
        self.add('struct2', 'STRUCTURE', 2, 4, c['INTEGER'], 11, c['INTEGER'], 12)
        self.add('struct*', 'POINTER', self.id['struct'])
        self.add('const struct', 'CONST', self.id['struct'])
        self.add('const struct*', 'POINTER', self.id['const struct'])
        self.add('const int*', 'POINTER', self.id['const int'])
        self.add('int**', 'POINTER', self.id['int*'])
        self.add('const (int*)', 'CONST', self.id['int*'])
        self.add('const char[]', 'ARRAY', self._new('const char', 'CONST', c['CHARACTER']))
        self.add('func', 'FUNCTION', c['INTEGER'], 2, c['INTEGER'], c['FLOATING'])
        self.add('func*', 'POINTER', self.id['func'])
        self.add('enum', 'ENUM', 2, 21, 22)

    def _reg(self, name, v):
        self.id[name] = v
        self.name[v] = name

    def _new(self, name, kind, *rest):
        return self.add(name, kind, *rest)

    def add(self, name, kind, *rest):
        i = self.n
        for k, v in enumerate((self.c[kind],) + rest):
            self.tab[i + k] = v
        self.n += len(rest) + 3
        self._reg(name, i)
        return i

    def serve(self, name, args):
        """Value of a read of the types table, or None."""
        if name == 'vector_get' and len(args) > 1 and is_c(args[1]) and args[1] >= BASE and args[1] in self.tab \
                and split(args[0])[1] == self.off:
            return self.tab[args[1]]
        if name == 'vector_get' and len(args) > 1 and is_c(args[1]) and 0 <= args[1] < 20 and split(args[0])[1] == self.off:
            return 0        # the predeclared head of the table holds no enumeration
        return None


def getter(t):
    """('nd',) for the node parameter itself, else the chain of getters that produced the node."""
    if t == ('arg', 1) or t == ('arg', 2):
        return 'nd%d' % t[1]
    if isinstance(t, tuple) and t:
        if t[0] == 'obj':
            return getter(t[1])
        if t[0] == 'agg':
            b = {getter(x[1]) for x in t[1] if isinstance(x, tuple) and x[0] in ('ext', 'fld')}
            return b.pop() if len(b) == 1 else None
        if t[0] == 'call':
            a = t[2]
            k = [x for x in a]
            g = getter(k[0]) if k else None
            sub = '' if len(k) < 2 else '[%s]' % ','.join(str(x) if is_c(x) else '*' for x in k[1:])
            if g in ('nd0', 'nd1', 'nd2'):
                return t[1] + sub
            return '%s(%s)%s' % (t[1], g, sub)
    return None


class NodePol(Policy):
    """AST accessors are uninterpreted, except for the cases given in `spec`: {(getter, child): value}."""
    unroll_forked = 0
    record_back = True
    max_states = 6000

    PURE = ('expression_', 'statement_', 'declaration_', 'node_', 'translation_unit_')

    def __init__(self, types, spec=None):
        self.T = types
        self.spec = spec or {}
        self.rec = {}

    def rec_limit(self, fn):
        return 3 if fn.name.startswith('type_') else 0

    def decide(self, it, st, name, args, fn):
        v = self.T.serve(name, args) if self.T is not None else None
        if v is not None:
            return ('value', v)
        r = self.special(it, st, name, args, fn)
        if r is not None:
            return r
        if fn is None:
            return 'opaque'
        if name.startswith(self.PURE):
            return 'opaque'
        return 'inline'

    def special(self, it, st, name, args, fn):
        return None

    def assume(self, it, st, t):
        if not self.spec:
            return None
        args = [a for a in t[2]]
        g = getter(args[0]) if args else None
        key = (t[1], g)
        if key in self.spec:
            return self.spec[key]
        return self.spec.get(t[1])

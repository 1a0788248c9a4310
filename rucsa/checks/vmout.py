"""V05 the module of the virtual machine: the tables it is printed from, the words a real constant becomes, the names it keeps."""
import re
import struct
from ..absint import is_c, mkptr, show, split
from ..program import AnalysisError
from .ast import World
from .diag import cstr
from .vmcalls import Enc

MAX = (1 << 63) - 1
RANGE = {'int8': (-(1 << 7), (1 << 7) - 1), 'int16': (-(1 << 15), (1 << 15) - 1), 'int32': (-(1 << 31), (1 << 31) - 1),
         'int64': (-(1 << 63), (1 << 63) - 1), 'uint8': (0, (1 << 8) - 1), 'uint16': (0, (1 << 16) - 1), 'uint32': (0, (1 << 32) - 1),
         'uint64': (0, MAX)}
WORDS = {'8': 8, '16': 4, '32': 2, '64': 1}


class Endless(Exception):
    pass


def bits(n):
    return int(re.search(r'\d+', n).group())


def sg(v, n=64):
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v


def where_of(P, name, m):
    fn = P.need(name, m)
    return '%s:%s (%s)' % (fn.file, fn.line, fn.name)


def check(ctx):
    P = ctx.prog
    ctx.rule('module', 'the module is the sizes of the five tables and the global area, then every word of every table in order')
    ctx.rule('refused', 'a word that the chosen width cannot hold ends the export with an error')
    ctx.rule('width', 'a number is split into words of the chosen width, each in its range, that give the number back')
    ctx.rule('name', 'every name shown by printid or read by getid is kept once, with its characters, type and place')
    ctx.rule('target', 'the width of the words is the one asked for')
    m = P.module('compiler/codegen.c')
    vm = P.module('utils/vector.c')
    im = P.module('utils/item.c')
    status = P.enum(m, 'ITEM_STATUS')
    widths(ctx, P, im, status)
    export(ctx, P, m, vm, status)
    doubles(ctx, P, m)
    names(ctx, P, m, vm)
    target(ctx, P, im, status)
    ctx.minimum('module', 5)
    ctx.minimum('refused', 10)
    ctx.minimum('width', 400)
    ctx.minimum('name', 4)
    ctx.minimum('target', 10)


def widths(ctx, P, im, status):
    w = World(ctx)
    at = where_of(P, 'item_store_int64_for_target', im)
    vals = [0, -1, 1, MAX, -MAX - 1, 0x0123456789abcdef, sg(0xfedcba9876543210), 0x00ff00ff00ff00ff, sg(0xff00ff00ff00ff00), 0x7f807f807f807f80]
    vals += [sg(1 << k) for k in range(64)]
    for n, (lo, hi) in RANGE.items():
        s = status['item_' + n]
        got = (w.call('item_get_min', s, mod=im), w.call('item_get_max', s, mod=im))
        ctx.ob('width', 'range of ' + n, got == (lo, hi), where_of(P, 'item_get_min', im), 'the range of %s is %s' % (n, show(got)))
        for v in (lo - 1, lo, 0, hi, hi + 1):
            if abs(v) > MAX:
                continue
            r = w.call('item_check_var', s, v, mod=im)
            ctx.ob('refused', 'word %d in %s' % (v, n), r == int(lo <= v <= hi), where_of(P, 'item_check_var', im), '%d fits %s: %s' % (v, n, show(r)))
        b = bits(n)
        k = 64 // b
        for v in vals:
            p = w.fresh()
            r = w.call('item_store_int64_for_target', s, v, p, mod=im)
            ws = [w.mem.get((p, 8 * i, ()), (None,))[0] for i in range(k)]
            want = [(v >> (b * i)) & ((1 << b) - 1) for i in range(k)]
            if not n.startswith('u'):
                want = [sg(x, b) for x in want]
            ok = r == k and [sg(x) if is_c(x) else x for x in ws] == [sg(x) for x in want] and not any(q[0] == p and q[1] >= 8 * k for q in w.mem)
            ctx.ob('width', 'store in ' + n, ok, at, 'the number %d in words of %s is %s' % (v, n, [show(x) for x in ws]))
            w.mem = {q: c for q, c in w.mem.items() if q[0] != p}
            w.mem.update({(p, 8 * i, ()): (sg(x), 8) for i, x in enumerate(want)})
            r = w.call('item_restore_int64_for_target', s, p, mod=im)
            ctx.ob('width', 'restore from ' + n, is_c(r) and sg(r) == v, where_of(P, 'item_restore_int64_for_target', im),
                   'the words %s of %s give %s' % (want, n, show(r)))


def printed(w, out):
    P = w.P

    def text(v):
        s = cstr(P, v)
        if s is None:
            raise AnalysisError('format of the module is not a constant: %s' % show(v))
        return s

    def pf(it, st, a):
        f = text(a[1])
        rest = list(a[2:])
        res = ''
        for part in re.split(r'(%[-+ #0-9.]*(?:hh|h|ll|l|z|j|t)?[diucs%])', f):
            if part[:1] != '%':
                res += part
            elif part == '%%':
                res += '%'
            else:
                if not rest:
                    res += '<missing>'
                    continue
                v = rest.pop(0)
                if part[-1] in 'di' and is_c(v):
                    v = sg(v, 32 if part == '%d' or part == '%i' else 64)
                    res += part.replace('z', '').replace('l', '').replace('j', '').replace('t', '') % v
                elif part[-1] == 'u' and is_c(v):
                    res += str(v & ((1 << 64) - 1))
                elif part[-1] == 'c' and is_c(v):
                    res += chr(v)
                elif part[-1] == 's':
                    res += text(v)
                else:
                    res += '<%s>' % show(v)
        if rest:
            res += '<left %s>' % show(rest)
        out.append(res)
        return ('value', len(res))
    w.stubs['uni_printf'] = pf
    w.stubs['uni_print_char'] = lambda it, st, a: (out.append(chr(a[1]) if is_c(a[1]) else '<%s>' % show(a[1])), ('value', 0))[1]


def export(ctx, P, m, vm, status):
    at = where_of(P, 'enc_export', m)
    TO = P.field(m, 'encoder', 'target')
    GO = P.field(m, 'encoder', 'max_global_displ')
    SO = P.field(m, 'syntax', 'types')
    NAMES = ('memory', 'functions', 'identifiers', 'representations')
    for sizes in ((0, 0, 0, 0, 0), (1, 1, 1, 1, 1), (5, 0, 3, 2, 9), (0, 7, 0, 1, 0), (300, 41, 17, 60, 90)):
        e = Enc(ctx, {}, 4)
        w = e.w
        out = []
        printed(w, out)
        tabs = []
        k = 0
        for n, size in zip(NAMES + ('types',), sizes):
            v = e.vec(n) if n != 'types' else mkptr(e.sx, SO)
            have = w.call('vector_size', v, mod=vm)
            row = [w.call('vector_get', v, i, mod=vm) for i in range(have)]
            for i in range(size):
                k += 1
                x = (1, -1)[k % 2] * (1000 * len(tabs) + 7 * i + k % 3)
                w.call('vector_add', v, x, mod=vm)
                row.append(x)
            tabs.append(row)
        w.mem[(e.enc, TO, ())] = (status['item_int32'], 4)
        w.mem[(e.enc, GO, ())] = (77, 8)
        r = w.call('enc_export', e.enc, mod=m)
        want = ['#!/usr/bin/ruc-vm', ' '.join(str(len(t)) for t in tabs) + ' 77 0'] + [' '.join(map(str, t)) for t in tabs]
        got = [x.rstrip(' ') for x in ''.join(out).split('\n')]
        ok = r == 0 and got == want + ['']
        bad = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), -1)
        ctx.ob('module', 'tables of %s words' % (sizes,), ok, at, 'returns %s; line %d is "%s" instead of "%s"' % (
            show(r), bad, (got + [''])[bad][:150], want[bad][:150]))
    # one word out of range, at the end of each table in turn
    for t in range(5):
        for x in (1 << 31, -(1 << 31) - 1):
            e = Enc(ctx, {}, 4)
            w = e.w
            out = []
            printed(w, out)
            said = []
            w.stubs['system_error'] = lambda it, st, a: (said.append(a[0]), ('value', 0))[1]
            for k, n in enumerate(NAMES + ('types',)):
                v = e.vec(n) if n != 'types' else mkptr(e.sx, SO)
                w.call('vector_add', v, 5, mod=vm)
                if k == t:
                    w.call('vector_add', v, x, mod=vm)
            w.mem[(e.enc, TO, ())] = (status['item_int32'], 4)
            w.mem[(e.enc, GO, ())] = (77, 8)
            r = w.call('enc_export', e.enc, mod=m)
            ctx.ob('refused', 'word %d at the end of table %d' % (x, t), is_c(r) and r != 0 and said and str(x) not in ''.join(out).split(), at,
                   'returns %s with %d messages' % (show(r), len(said)))


def doubles(ctx, P, m):
    try:
        at = where_of(P, 'mem_add_double', m)
    except AnalysisError:
        return          # written where it is used
    im = P.module('utils/item.c')
    w = World(ctx)
    val, seen = w.sym('value'), []
    w.stubs['item_store_int64_for_target'] = lambda it, st, a: (seen.append(tuple(a)), ('value', 5))[1]
    p = w.fresh()
    r = w.call('item_store_double_for_target', 3, val, p, mod=im)
    ctx.ob('width', 'bits of a real', r == 5 and seen == [(3, val, p)], where_of(P, 'item_store_double_for_target', im),
           'a real is stored as %s, %s words' % (show(seen), show(r)))
    for v in (4607182418800017408, -4613937818241073152, 0x400921fb54442d18, 1, 0):
        w.stubs['item_restore_int64_for_target'] = lambda it, st, a, v=v: ('value', v)
        r = w.call('item_restore_double_for_target', 3, p, mod=im)
        f = struct.unpack('<d', struct.pack('<q', v))[0]
        ctx.ob('width', 'real from bits', r == v or r == ('f', f), where_of(P, 'item_restore_double_for_target', im), 'the bits of %r give %s' % (f, show(r)))
    for n in (1, 2, 4, 8):
        e = Enc(ctx, {}, 4)
        w = e.w
        val = w.sym('value')

        def store(it, st, a):
            for i in range(n):
                b, o, s = split(mkptr(a[2], 8 * i))
                st.mem[(b, o, s)] = (('word', a[1], i), 8)
            return ('value', n)
        w.stubs['item_store_double_for_target'] = store
        before = e.size()
        w.call('mem_add_double', e.enc, val, mod=m)
        got = [e.word(before + i) for i in range(n)] if e.size() == before + n else e.size()
        ctx.ob('width', 'real constant of %d words' % n, got == [('word', val, i) for i in range(n)], at, 'the code gets %s' % show(got))


def names(ctx, P, m, vm):
    at = where_of(P, 'compress_ident', m)
    NAMES = {4: ('a', 3, -5), 8: ('длинное_имя', 10, -9), 12: ('name17', 21, -5), 16: ('ж', -30, -1)}
    for order in ((4,), (4, 8), (8, 4, 12), (4, 4), (4, 8, 4), (8, 8, 4, 16, 8, 12, 16, 4)):
        e = Enc(ctx, {}, 40)
        w = e.w
        repr_of = {k: 100 + k for k in NAMES}
        w.stubs['ident_get_type'] = lambda it, st, a: ('value', NAMES[a[1]][2])
        w.stubs['ident_get_repr'] = lambda it, st, a: ('value', repr_of[a[1]])
        w.stubs['ident_set_repr'] = lambda it, st, a: (repr_of.__setitem__(a[1], a[2]), ('value', 0))[1]
        w.stubs['type_is_const'] = lambda it, st, a: ('value', 0)
        buf = {}
        for k, (s, d, t) in NAMES.items():
            p = w.fresh()
            for i, c in enumerate(s.encode() + b'\0'):
                w.mem[(p, i, ())] = (sg(c, 8), 1)
            buf[100 + k] = p
            w.call('vector_set', e.vec('displacements'), k, d, mod=vm)
        w.stubs['repr_get_name'] = lambda it, st, a: ('value', buf.get(a[1], ('no name', a[1])))
        refs = {}
        bad = None
        ids, rp = e.vec('identifiers'), e.vec('representations')
        size = lambda v: w.call('vector_size', v, mod=vm)
        get = lambda v, i: w.call('vector_get', v, i, mod=vm)
        i0, r0 = size(ids), size(rp)
        first = []
        for k in order:
            n = e.size()
            w.call('compress_ident', e.enc, k, mod=m)
            if e.size() != n + 1:
                bad = '%s words instead of one' % show(e.size())
                break
            ref = e.word(n)
            if k in refs and refs[k] != ref:
                bad = 'the name %s is %s and then %s' % (NAMES[k][0], show(refs[k]), show(ref))
                break
            if k not in refs:
                first.append(k)
            refs[k] = ref
        if bad is None:
            if len(set(refs.values())) != len(refs):
                bad = 'two names have one number: %s' % show(refs)
            elif size(ids) != i0 + 3 * len(first):
                bad = '%s words describe %d names' % (show(size(ids)), len(first))
        if bad is None:
            want, start = [], []
            for j, k in enumerate(first):
                start.append(r0 + len(want))
                want += [ord(c) for c in NAMES[k][0]] + [0]
            got = [get(rp, r0 + i) for i in range(len(want))] if size(rp) == r0 + len(want) else size(rp)
            if got != want:
                bad = 'the characters kept are %s instead of %s' % (show(got), want)
            for j, k in enumerate(first):
                row = [get(ids, i0 + 3 * j + i) for i in range(3)]
                if row != [start[j] - 2, NAMES[k][2], NAMES[k][1]] or refs[k] != i0 + 3 * j - 1:
                    bad = bad or 'the name %s has number %s and record %s' % (NAMES[k][0], show(refs[k]), show(row))
        ctx.ob('name', 'names %s' % (order,), bad is None, at, bad or '')


def target(ctx, P, im, status):
    at = where_of(P, 'item_get_status', im)
    flags = {'-' + n.replace('uint', 'u').replace('int', 'i'): n for n in RANGE}
    default = 'int32'
    sets = [()] + [(f,) for f in flags] + [('-O', f, '-o') for f in flags] + [('-Wno',), ('-i',), ('-i3',), ('-i320',), ('-u',), ('i32',)]
    both = [(a, b) for a in flags for b in flags if a <= b][:12]
    for fs in sets + both:
        w = World(ctx)
        ptrs = []
        for s in fs:
            p = w.fresh()
            for i, c in enumerate(s.encode() + b'\0'):
                w.mem[(p, i, ())] = (c, 1)
            ptrs.append((p, s))
        known = dict(ptrs)

        def flag(it, st, a, ptrs=ptrs):
            if not is_c(a[1]):
                raise Endless()
            if a[1] > len(ptrs):
                raise Endless()         # behind the end of the list
            return ('value', ptrs[a[1]][0] if a[1] < len(ptrs) else 0)
        w.stubs['ws_is_correct'] = lambda it, st, a: ('value', 1)
        w.stubs['ws_get_flag'] = flag

        def cmp(it, st, a):
            x, y = (known[v] if v in known else cstr(P, v) for v in a[:2])
            if x is None or y is None:
                raise AnalysisError('comparison of flags: %s' % show(a))
            return ('value', 0 if x == y else 1 if x > y else -1)
        w.stubs['strcmp'] = cmp
        try:
            r = w.call('item_get_status', w.fresh(), mod=im)
        except Endless:
            r = ('flags are read behind the last one',)
        asked = [flags[f] for f in fs if f in flags]
        want = status['item_error'] if len(asked) > 1 else status['item_' + (asked[0] if asked else default)]
        ctx.ob('target', 'flags %s' % ' '.join(fs), r == want, at, 'the flags "%s" choose %s instead of %d' % (' '.join(fs), show(r), want))

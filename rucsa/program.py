"""Load /repo's built translation units as LLVM IR (never executed) plus their debug-info enums and records."""
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

from . import llvm, names

REPO = os.environ.get('RUC_REPO', '/repo')


class AnalysisError(Exception):
    """The analysis could not be carried out (exit code 2): neither a pass nor a violation."""


def sources(repo=None):
    repo = repo or REPO
    out = []
    for lib in ('utils', 'macro', 'compiler'):
        base = os.path.join(repo, 'libs', lib)
        for d, _, fs in sorted(os.walk(base)):
            out += [os.path.join(d, f) for f in sorted(fs) if f.endswith('.c')]
    out += [os.path.join(repo, 'src', f) for f in sorted(os.listdir(os.path.join(repo, 'src'))) if f.endswith('.c')]
    return out


def include_dirs(repo=None):
    repo = repo or REPO
    out = []
    for lib in ('utils', 'macro', 'compiler'):
        for d, _, fs in sorted(os.walk(os.path.join(repo, 'libs', lib))):
            if any(f.endswith('.h') for f in fs):
                out.append(d)
    return out


class DebugInfo:
    """Enumerators and record members, read from DWARF metadata."""

    def __init__(self, text):
        self.enumerators = {}
        self.enums = {}
        self.records = {}
        nodes = {}
        for m in re.finditer(r'^!(\d+) = (?:distinct )?(.*)$', text, re.M):
            nodes[m.group(1)] = m.group(2)
        typedefs = {}

        def lst(ref):
            b = nodes.get(ref, '')
            m = re.match(r'!\{(.*)\}$', b)
            return re.findall(r'!(\d+)', m.group(1)) if m else []

        comp = {}
        for k, b in nodes.items():
            if b.startswith('!DICompositeType('):
                tag = re.search(r'tag: (\w+)', b).group(1)
                nm = re.search(r'name: "([^"]*)"', b)
                el = re.search(r'elements: !(\d+)', b)
                comp[k] = (tag, nm.group(1) if nm else None, el.group(1) if el else None)
            elif b.startswith('!DIDerivedType(') and 'DW_TAG_typedef' in b:
                nm = re.search(r'name: "([^"]*)"', b)
                bt = re.search(r'baseType: !(\d+)', b)
                if nm and bt:
                    typedefs.setdefault(bt.group(1), nm.group(1))
        # the declared types of parameters: {function: {number: name}}
        self.params = {}
        subs = {}
        for k, b in nodes.items():
            if b.startswith('!DISubprogram('):
                nm = re.search(r'name: "([^"]*)"', b)
                if nm:
                    subs[k] = nm.group(1)

        def tname(ref):
            for _ in range(8):
                b = nodes.get(ref, '')
                m = re.search(r'name: "([^"]*)"', b)
                if m and ('DW_TAG_typedef' in b or b.startswith('!DICompositeType(')):
                    return m.group(1)
                m = re.search(r'baseType: !(\d+)', b)
                if not m or 'DW_TAG_const_type' not in b:
                    return None
                ref = m.group(1)
            return None
        for k, b in nodes.items():
            if b.startswith('!DILocalVariable('):
                a, sc, ty = (re.search(x, b) for x in (r'arg: (\d+)', r'scope: !(\d+)', r'type: !(\d+)'))
                if a and sc and ty and sc.group(1) in subs:
                    self.params.setdefault(subs[sc.group(1)], {})[int(a.group(1)) - 1] = tname(ty.group(1))
        for k, (tag, nm, el) in comp.items():
            names = [n for n in (nm, typedefs.get(k)) if n]
            if tag == 'DW_TAG_enumeration_type' and el:
                vals = {}
                for e in lst(el):
                    m = re.match(r'!DIEnumerator\(name: "([^"]*)", value: (-?\d+)', nodes[e])
                    if m:
                        vals[m.group(1)] = int(m.group(2))
                self.enumerators.update(vals)
                for n in names:
                    self.enums[n] = vals
            elif tag == 'DW_TAG_structure_type' and el:
                mem = {}
                for e in lst(el):
                    b = nodes[e]
                    m = re.search(r'name: "([^"]*)"', b)
                    off = re.search(r'offset: (\d+)', b)
                    sz = re.search(r'size: (\d+)', b)
                    if m and 'DW_TAG_member' in b:
                        mem[m.group(1)] = (int(off.group(1)) // 8 if off else 0, int(sz.group(1)) // 8 if sz else 0)
                for n in names:
                    self.records[n] = mem


class Program:
    def __init__(self, repo=None, passes='sroa', extra=None, only=None, ndebug=True):
        self.repo = repo or REPO
        self.tmp = tempfile.mkdtemp(prefix='rucsa.')
        try:
            srcs = [s for s in sources(self.repo) if only is None or only(s)]
            if extra:
                srcs = srcs + list(extra)
            if not srcs:
                raise AnalysisError('no translation units found under ' + self.repo)
            inc = ['-I' + d for d in include_dirs(self.repo)]
            flags = ['-std=c11', '-D_POSIX_C_SOURCE=200112L', '-DTESTING_EXIT_CODE=64', '-w',
                     '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fstandalone-debug',
                     '-fno-eliminate-unused-debug-types', '-emit-llvm', '-c'] + (['-DNDEBUG'] if ndebug else [])

            def one(k):
                out = os.path.join(self.tmp, '%d.bc' % k)
                r = subprocess.run(['clang-18'] + flags + inc + [srcs[k], '-o', out], capture_output=True, text=True)
                if r.returncode:
                    raise AnalysisError('clang failed on %s:\n%s' % (srcs[k], r.stderr[:2000]))
                return out

            with ThreadPoolExecutor(8) as ex:
                outs = list(ex.map(one, range(len(srcs))))
            self.modules = {}
            for s, o in zip(srcs, outs):
                rel = os.path.relpath(s, self.repo) if s.startswith(self.repo) else s
                self.modules[rel] = llvm.Module(rel, o, llvm.L.LLVMContextCreate(), passes)   # (a context of its own keeps struct names as they are)
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)
        self.renamed = names.resolve(self.modules) if only is None and not extra else []
        self.externs = {}
        for m in self.modules.values():
            for f in m.functions.values():
                if not f.decl and not f.static and f.linkage != 1:
                    self.externs[f.name] = f
        for m in self.modules.values():
            for f in m.functions.values():
                if not f.decl and not f.static and f.name not in self.externs:
                    self.externs[f.name] = f
        self._di = {}
        self._tch = {}
        self._summ = None

    def module(self, suffix):
        c = [m for p, m in self.modules.items() if p.endswith(suffix)]
        if len(c) != 1:
            raise AnalysisError('translation unit %s: %d found' % (suffix, len(c)))
        return c[0]

    def di(self, mod):
        if mod.path not in self._di:
            self._di[mod.path] = DebugInfo(mod.text())
        return self._di[mod.path]

    def fn(self, name, mod=None):
        """Resolve a function name seen from module mod."""
        if mod is not None:
            f = mod.functions.get(name)
            if f is not None and not f.decl:
                return f
        return self.externs.get(name)

    def need(self, name, mod=None):
        f = self.fn(name, mod)
        if f is None:
            raise AnalysisError('anchor function %s not found%s' % (name, ' in ' + mod.path if mod else ''))
        return f

    def enum(self, mod, name):
        e = self.di(mod).enums.get(name)
        if not e:
            for m in self.modules.values():
                e = self.di(m).enums.get(name)
                if e:
                    break
        if not e:
            raise AnalysisError('enum %s not found in debug info of %s' % (name, mod.path))
        return e

    def ev(self, mod, name):
        v = self.di(mod).enumerators.get(name)
        if v is None:
            for m in self.modules.values():
                v = self.di(m).enumerators.get(name)
                if v is not None:
                    break
        if v is None:
            v = names.enumerator(name, self.di(mod).enums)
        if v is None:
            raise AnalysisError('enumerator %s not found in debug info of %s' % (name, mod.path))
        return v

    def field(self, mod, rec, name):
        r = self.di(mod).records.get(rec)
        if r and name not in r:
            name = names.record(rec, name, r) or name
        if not r or name not in r:
            raise AnalysisError('record member %s.%s not found in debug info of %s' % (rec, name, mod.path))
        return r[name][0]

    def tag(self, mod, rec, name):
        """The (struct, member index) tag under which the analyser tracks writes to rec.name."""
        off = self.field(mod, rec, name)
        r = self.di(mod).records[rec]
        offs = sorted({v[0] for v in r.values()})
        return (self.struct_name(mod, rec), offs.index(off))

    def struct_name(self, mod, rec):
        """The name rec goes by in mod (records of the same name elsewhere make it differ)."""
        pat = re.compile(r'struct\.%s(\.\d+)?$' % re.escape(rec))
        seen = set()
        for f in mod.functions.values():
            if not f.decl:
                for i in f.instrs():
                    if i.op == 'gep' and i.x.kind == 'struct' and i.x.name and pat.match(i.x.name):
                        seen.add(i.x.name)
        return min(seen) if len(seen) == 1 else 'struct.' + rec

    # -- global initialisers -------------------------------------------------
    def _touched(self, m):
        """Globals of m that something other than a load or an address computation used for loads may reach."""
        if m.path in self._tch:
            return self._tch[m.path]
        bad = set()

        def gl(o):
            while isinstance(o, tuple) and o and o[0] == 'ce':
                o = o[3][0] if o[3] else None
            return o[1] if isinstance(o, tuple) and o and o[0] == 'g' else None

        for f in m.functions.values():
            if f.decl:
                continue
            der = {}
            for i in f.instrs():
                for k, o in enumerate(i.ops):
                    g = gl(o)
                    if g is None and isinstance(o, tuple) and o[0] == 'l':
                        g = der.get(o[1])
                    if g is None:
                        continue
                    if i.op == 'gep' and k == 0:
                        der[i.name] = g
                    elif i.op in ('load', 'icmp'):
                        pass
                    elif i.op == 'call' and isinstance(i.x, str) and \
                            (i.x.startswith('llvm.memcpy') and k == 1 or i.x in ('strlen', 'strcmp', 'strncmp', 'memcmp')):
                        pass
                    else:
                        bad.add(g)
                if i.op == 'phi':
                    for o in i.x.values():
                        g = gl(o) or (der.get(o[1]) if isinstance(o, tuple) and o[0] == 'l' else None)
                        if g is not None:
                            bad.add(g)
        self._tch[m.path] = bad
        return bad

    def global_init(self, gname):
        r = self._global_init(gname)
        if r[0] is not None and not r[1] and '@' in gname:
            m = self.modules.get(gname.split('@', 1)[0])
            if m is not None and gname not in self._touched(m):
                return (r[0], True, r[2])
        return r

    def _global_init(self, gname):
        if '@' in gname:
            f, n = gname.split('@', 1)
            for m in self.modules.values():
                if m.path == f and n in m.globals:
                    r = m.ginit(n)
                    if r[0] is not None:
                        return r
            return (None, False, None)
        for m in self.modules.values():
            if gname in m.globals:
                r = m.ginit(gname)
                if r[0] is not None:
                    return r
        return (None, False, None)

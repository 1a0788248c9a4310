"""Minimal ctypes view of LLVM 18's C API: enough to read bitcode modules as Python objects.

Nothing of the analysed program is ever executed: modules are parsed and walked."""
import ctypes as C
import glob
import os

_CANDIDATES = ['/usr/lib/llvm-18/lib/libLLVM-18.so', '/usr/lib/llvm-18/lib/libLLVM.so.1',
               '/usr/lib/x86_64-linux-gnu/libLLVM-18.so.1', '/usr/lib/x86_64-linux-gnu/libLLVM.so.18.1']


def _load():
    for p in _CANDIDATES + sorted(glob.glob('/usr/lib/*/libLLVM*18*.so*')):
        if os.path.exists(p):
            return C.CDLL(p)
    raise RuntimeError('libLLVM-18 not found')


L = _load()
P = C.c_void_p
_sig = {
    'LLVMContextCreate': (P, []),
    'LLVMCreateMemoryBufferWithContentsOfFile': (C.c_int, [C.c_char_p, C.POINTER(P), C.POINTER(P)]),
    'LLVMParseBitcodeInContext2': (C.c_int, [P, P, C.POINTER(P)]),
    'LLVMGetFirstFunction': (P, [P]), 'LLVMGetNextFunction': (P, [P]),
    'LLVMGetFirstGlobal': (P, [P]), 'LLVMGetNextGlobal': (P, [P]),
    'LLVMGetValueName2': (C.c_char_p, [P, C.POINTER(C.c_size_t)]),
    'LLVMSetValueName2': (None, [P, C.c_char_p, C.c_size_t]),
    'LLVMIsDeclaration': (C.c_int, [P]), 'LLVMGetLinkage': (C.c_int, [P]),
    'LLVMGetFirstBasicBlock': (P, [P]), 'LLVMGetNextBasicBlock': (P, [P]),
    'LLVMGetFirstInstruction': (P, [P]), 'LLVMGetNextInstruction': (P, [P]),
    'LLVMGetInstructionOpcode': (C.c_int, [P]), 'LLVMGetConstOpcode': (C.c_int, [P]),
    'LLVMGetNumOperands': (C.c_int, [P]), 'LLVMGetOperand': (P, [P, C.c_uint]),
    'LLVMCountParams': (C.c_uint, [P]), 'LLVMGetParam': (P, [P, C.c_uint]),
    'LLVMTypeOf': (P, [P]), 'LLVMGetTypeKind': (C.c_int, [P]), 'LLVMGetIntTypeWidth': (C.c_uint, [P]),
    'LLVMGetStructName': (C.c_char_p, [P]), 'LLVMCountStructElementTypes': (C.c_uint, [P]),
    'LLVMStructGetTypeAtIndex': (P, [P, C.c_uint]), 'LLVMGetElementType': (P, [P]),
    'LLVMGetArrayLength2': (C.c_uint64, [P]),
    'LLVMGetICmpPredicate': (C.c_int, [P]), 'LLVMGetFCmpPredicate': (C.c_int, [P]),
    'LLVMGetCalledValue': (P, [P]), 'LLVMGetNumArgOperands': (C.c_uint, [P]),
    'LLVMGetAllocatedType': (P, [P]), 'LLVMGetGEPSourceElementType': (P, [P]),
    'LLVMGetNumIndices': (C.c_uint, [P]), 'LLVMGetIndices': (C.POINTER(C.c_uint), [P]),
    'LLVMCountIncoming': (C.c_uint, [P]), 'LLVMGetIncomingValue': (P, [P, C.c_uint]),
    'LLVMGetIncomingBlock': (P, [P, C.c_uint]),
    'LLVMGetNumSuccessors': (C.c_uint, [P]), 'LLVMGetSuccessor': (P, [P, C.c_uint]),
    'LLVMIsConditional': (C.c_int, [P]), 'LLVMGetCondition': (P, [P]),
    'LLVMGetSwitchDefaultDest': (P, [P]),
    'LLVMGetValueKind': (C.c_int, [P]),
    'LLVMConstIntGetSExtValue': (C.c_longlong, [P]), 'LLVMConstIntGetZExtValue': (C.c_ulonglong, [P]),
    'LLVMConstRealGetDouble': (C.c_double, [P, C.POINTER(C.c_int)]),
    'LLVMIsConstantString': (C.c_int, [P]), 'LLVMGetAsString': (P, [P, C.POINTER(C.c_size_t)]),
    'LLVMGetElementAsConstant': (P, [P, C.c_uint]),
    'LLVMGetInitializer': (P, [P]), 'LLVMIsGlobalConstant': (C.c_int, [P]),
    'LLVMGlobalGetValueType': (P, [P]),
    'LLVMGetDebugLocLine': (C.c_uint, [P]),
    'LLVMGetModuleDataLayout': (P, [P]), 'LLVMOffsetOfElement': (C.c_ulonglong, [P, P, C.c_uint]),
    'LLVMABISizeOfType': (C.c_ulonglong, [P, P]), 'LLVMStoreSizeOfType': (C.c_ulonglong, [P, P]),
    'LLVMPrintModuleToString': (P, [P]), 'LLVMDisposeMessage': (None, [P]),
    'LLVMPrintTypeToString': (P, [P]),
    'LLVMIsFunctionVarArg': (C.c_int, [P]),
    'LLVMGetReturnType': (P, [P]), 'LLVMTypeIsSized': (C.c_int, [P]),
    'LLVMGetEnumAttributeKindForName': (C.c_uint, [C.c_char_p, C.c_size_t]),
    'LLVMGetEnumAttributeAtIndex': (P, [P, C.c_uint, C.c_uint]),
    'LLVMGetTypeAttributeValue': (P, [P]),
    'LLVMRunPasses': (P, [P, C.c_char_p, P, P]), 'LLVMCreatePassBuilderOptions': (P, []),
    'LLVMGetErrorMessage': (P, [P]),
    'LLVMGetIntrinsicID': (C.c_uint, [P]),
    'LLVMGetFirstUse': (P, [P]), 'LLVMGetNextUse': (P, [P]), 'LLVMGetUser': (P, [P]),
    'LLVMBasicBlockAsValue': (P, [P]), 'LLVMValueAsBasicBlock': (P, [P]),
}
for _n, (_r, _a) in _sig.items():
    _f = getattr(L, _n)
    _f.restype = _r
    _f.argtypes = _a

OPCODES = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 66: 'fneg',
           8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv',
           17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor',
           26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui',
           34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr',
           41: 'bitcast', 60: 'addrspacecast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select',
           49: 'va_arg', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue',
           54: 'insertvalue', 68: 'freeze'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq',
        10: 'ugt', 11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}
# LLVMValueKind
VK = {0: 'arg', 1: 'bb', 5: 'func', 6: 'alias', 8: 'global', 10: 'constexpr', 11: 'carray', 12: 'cstruct', 13: 'cvec',
      14: 'undef', 15: 'zeroinit', 16: 'darray', 17: 'dvec', 18: 'cint', 19: 'cfp', 20: 'null', 21: 'none',
      22: 'metadata', 23: 'asm', 24: 'inst', 25: 'poison'}
TK = {0: 'void', 1: 'half', 2: 'float', 3: 'double', 4: 'x86_fp80', 5: 'fp128', 7: 'label', 8: 'int', 9: 'func',
      10: 'struct', 11: 'array', 12: 'ptr', 13: 'vec', 14: 'metadata'}

SRET = L.LLVMGetEnumAttributeKindForName(b'sret', 4)
BYVAL = L.LLVMGetEnumAttributeKindForName(b'byval', 5)


def vname(v):
    n = C.c_size_t()
    s = L.LLVMGetValueName2(v, C.byref(n))
    return (s or b'').decode('utf8', 'replace')


class Type:
    __slots__ = ('ref', 'kind', 'width', 'name', 'elems', 'elem', 'count', 'size', 'offsets')

    def __repr__(self):
        if self.kind == 'int':
            return 'i%d' % self.width
        if self.kind == 'struct':
            return '%' + (self.name or '{' + ', '.join(map(repr, self.elems)) + '}')
        if self.kind == 'array':
            return '[%d x %r]' % (self.count, self.elem)
        return self.kind


class Instr:
    __slots__ = ('op', 'ops', 'ty', 'name', 'line', 'x', 'bb', 'idx', 'atys')

    def __repr__(self):
        return '%s=%s %s %s L%s' % (self.name, self.op, self.ops, self.x, self.line)


class Block:
    __slots__ = ('name', 'instrs', 'succs', 'preds', 'fn', 'idx')

    def __repr__(self):
        return 'bb%d' % self.idx


class Function:
    def __init__(self, mod, ref):
        self.mod = mod
        self.ref = ref
        self.name = vname(ref)
        self.decl = bool(L.LLVMIsDeclaration(ref))
        self.linkage = L.LLVMGetLinkage(ref)
        self.static = self.linkage in (8, 9)
        self.nparams = L.LLVMCountParams(ref)
        self._blocks = None
        self._loops = None
        self._fnty = L.LLVMGlobalGetValueType(ref)
        self.sret = self.nparams > 0 and bool(L.LLVMGetEnumAttributeAtIndex(ref, 1, SRET))
        self.byval = [bool(L.LLVMGetEnumAttributeAtIndex(ref, k + 1, BYVAL)) for k in range(self.nparams)]
        self.vararg = bool(L.LLVMIsFunctionVarArg(self._fnty))

    def rename(self, name):
        b = name.encode()
        L.LLVMSetValueName2(self.ref, b, len(b))
        self.name = vname(self.ref)

    def forget(self):
        self._blocks = None
        self._loops = None

    @property
    def ret_ty(self):
        return self.mod.type(L.LLVMGetReturnType(self._fnty))

    def param_ty(self, k):
        return self.mod.type(L.LLVMTypeOf(L.LLVMGetParam(self.ref, k)))

    @property
    def file(self):
        return self.mod.path

    @property
    def blocks(self):
        if self._blocks is None:
            self._build()
        return self._blocks

    @property
    def line(self):
        for b in self.blocks:
            for i in b.instrs:
                if i.line:
                    return i.line
        return 0

    def instrs(self):
        for b in self.blocks:
            yield from b.instrs

    def __repr__(self):
        return '<%s:%s>' % (os.path.basename(self.mod.path), self.name)

    def _build(self):
        mod = self.mod
        refs = []
        b = L.LLVMGetFirstBasicBlock(self.ref)
        while b:
            refs.append(b)
            b = L.LLVMGetNextBasicBlock(b)
        bbs = {}
        blocks = []
        for k, r in enumerate(refs):
            bb = Block()
            bb.idx = k
            bb.name = 'bb%d' % k
            bb.instrs = []
            bb.succs = []
            bb.preds = []
            bb.fn = self
            bbs[r] = bb
            bbs[L.LLVMBasicBlockAsValue(r)] = bb
            blocks.append(bb)
        self._bbs = bbs
        local = {}
        for k in range(self.nparams):
            local[L.LLVMGetParam(self.ref, k)] = ('a', k)
        order = []
        n = 0
        for r in refs:
            i = L.LLVMGetFirstInstruction(r)
            while i:
                local[i] = ('l', n)
                order.append((r, i, n))
                n += 1
                i = L.LLVMGetNextInstruction(i)
        self.ninstr = n
        opnd = lambda v: mod.operand(v, local)
        for r, i, k in order:
            op = OPCODES.get(L.LLVMGetInstructionOpcode(i), '?%d' % L.LLVMGetInstructionOpcode(i))
            ins = Instr()
            ins.op = op
            ins.name = k
            ins.idx = k
            ins.bb = bbs[r]
            ins.line = L.LLVMGetDebugLocLine(i)
            ins.x = None
            ins.ty = mod.type(L.LLVMTypeOf(i))
            if op == 'call':
                cv = L.LLVMGetCalledValue(i)
                na = L.LLVMGetNumArgOperands(i)
                if L.LLVMGetValueKind(cv) == 5:
                    nm = vname(cv)
                    if nm.startswith('llvm.dbg') or nm.startswith('llvm.lifetime') or nm.startswith('llvm.assume') \
                            or nm.startswith('llvm.experimental.noalias'):
                        continue
                    ins.x = nm
                else:
                    ins.x = opnd(cv)
                ins.ops = [opnd(L.LLVMGetOperand(i, j)) for j in range(na)]
                ins.atys = [mod.type(L.LLVMTypeOf(L.LLVMGetOperand(i, j))) for j in range(na)]
            elif op == 'phi':
                ins.ops = []
                ins.x = {}
                for j in range(L.LLVMCountIncoming(i)):
                    ins.x[bbs[L.LLVMGetIncomingBlock(i, j)].idx] = opnd(L.LLVMGetIncomingValue(i, j))
            elif op == 'br':
                if L.LLVMIsConditional(i):
                    ins.ops = [opnd(L.LLVMGetCondition(i))]
                else:
                    ins.ops = []
                ins.x = [bbs[L.LLVMGetSuccessor(i, j)] for j in range(L.LLVMGetNumSuccessors(i))]
            elif op == 'switch':
                nops = L.LLVMGetNumOperands(i)
                ins.ops = [opnd(L.LLVMGetOperand(i, 0))]
                cases = []
                for j in range(2, nops, 2):
                    cases.append((opnd(L.LLVMGetOperand(i, j)), bbs[L.LLVMGetOperand(i, j + 1)]))
                ins.x = (bbs[L.LLVMGetSwitchDefaultDest(i)], cases)
            else:
                ins.ops = [opnd(L.LLVMGetOperand(i, j)) for j in range(L.LLVMGetNumOperands(i))]
                if op == 'icmp':
                    ins.x = ICMP[L.LLVMGetICmpPredicate(i)]
                elif op == 'fcmp':
                    ins.x = FCMP[L.LLVMGetFCmpPredicate(i)]
                elif op == 'alloca':
                    ins.x = mod.type(L.LLVMGetAllocatedType(i))
                elif op == 'gep':
                    ins.x = mod.type(L.LLVMGetGEPSourceElementType(i))
                elif op in ('extractvalue', 'insertvalue'):
                    p = L.LLVMGetIndices(i)
                    ins.x = tuple(p[j] for j in range(L.LLVMGetNumIndices(i)))
                elif op == 'store':
                    ins.x = mod.type(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                elif op in ('trunc', 'zext', 'sext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'bitcast', 'ptrtoint',
                            'inttoptr', 'fpext', 'fptrunc'):
                    ins.x = mod.type(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
            bbs[r].instrs.append(ins)
        for bb in blocks:
            t = bb.instrs[-1]
            if t.op == 'br':
                bb.succs = list(t.x)
            elif t.op == 'switch':
                bb.succs = [t.x[0]] + [c[1] for c in t.x[1]]
            for s in bb.succs:
                if bb not in s.preds:
                    s.preds.append(bb)
        self._blocks = blocks

    # natural loops: header idx -> set of block idx
    @property
    def loops(self):
        if self._loops is None:
            bl = self.blocks
            n = len(bl)
            # iterative dominators
            order, seen = [], set()
            st = [(bl[0], iter(bl[0].succs))]
            seen.add(0)
            while st:
                b, it = st[-1]
                for s in it:
                    if s.idx not in seen:
                        seen.add(s.idx)
                        st.append((s, iter(s.succs)))
                        break
                else:
                    order.append(b.idx)
                    st.pop()
            rpo = order[::-1]
            full = set(rpo)
            dom = {b: full for b in rpo}
            dom[0] = {0}
            ch = True
            while ch:
                ch = False
                for b in rpo:
                    if b == 0:
                        continue
                    ps = [dom[p.idx] for p in bl[b].preds if p.idx in dom]
                    nd = set.intersection(*ps) | {b} if ps else {b}
                    if nd != dom[b]:
                        dom[b] = nd
                        ch = True
            loops = {}
            for b in rpo:
                for s in bl[b].succs:
                    if s.idx in dom[b]:
                        body = loops.setdefault(s.idx, {s.idx})
                        stack = [b]
                        while stack:
                            x = stack.pop()
                            if x in body:
                                continue
                            body.add(x)
                            stack.extend(p.idx for p in bl[x].preds if p.idx in full)
            self._loops = loops
            self.dom = dom
        return self._loops


class Module:
    def __init__(self, path, bc, ctx, passes):
        self.path = path
        buf, err, m = P(), P(), P()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(bc.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError('cannot read ' + bc)
        if L.LLVMParseBitcodeInContext2(ctx, buf, C.byref(m)):
            raise RuntimeError('cannot parse ' + bc)
        self.ref = m
        if passes:
            e = L.LLVMRunPasses(m, passes.encode(), None, L.LLVMCreatePassBuilderOptions())
            if e:
                raise RuntimeError('pass pipeline failed')
        self.td = L.LLVMGetModuleDataLayout(m)
        self._types = {}
        self.functions = {}
        f = L.LLVMGetFirstFunction(m)
        while f:
            fn = Function(self, f)
            self.functions[fn.name] = fn
            f = L.LLVMGetNextFunction(f)
        self.globals = {}
        g = L.LLVMGetFirstGlobal(m)
        while g:
            self.globals[vname(g)] = g
            g = L.LLVMGetNextGlobal(g)
        self._ginit = {}

    def text(self):
        p = L.LLVMPrintModuleToString(self.ref)
        s = C.string_at(p).decode('utf8', 'replace')
        L.LLVMDisposeMessage(p)
        return s

    def type(self, ref):
        t = self._types.get(ref)
        if t is not None:
            return t
        t = Type()
        self._types[ref] = t
        t.ref = ref
        t.kind = TK.get(L.LLVMGetTypeKind(ref), '?')
        t.width = t.name = t.elems = t.elem = t.count = t.offsets = None
        t.size = 0
        if t.kind == 'int':
            t.width = L.LLVMGetIntTypeWidth(ref)
        elif t.kind == 'struct':
            n = L.LLVMGetStructName(ref)
            t.name = n.decode() if n else None
            c = L.LLVMCountStructElementTypes(ref)
            t.elems = [self.type(L.LLVMStructGetTypeAtIndex(ref, k)) for k in range(c)]
        elif t.kind == 'array':
            t.elem = self.type(L.LLVMGetElementType(ref))
            t.count = L.LLVMGetArrayLength2(ref)
        if t.kind in ('int', 'double', 'float', 'ptr', 'x86_fp80') or \
                (t.kind in ('struct', 'array')):
            if L.LLVMTypeIsSized(ref):
                t.size = L.LLVMABISizeOfType(self.td, ref)
        if t.kind == 'struct' and t.size:
            t.offsets = [L.LLVMOffsetOfElement(self.td, ref, k) for k in range(len(t.elems))]
        elif t.kind == 'struct':
            t.offsets = [0] * len(t.elems)
        return t

    # operands: int | float | ('s', bytes) ...
    def operand(self, v, local):
        r = local.get(v)
        if r is not None:
            return r
        return self.constant(v)

    def constant(self, v):
        k = VK.get(L.LLVMGetValueKind(v), '?')
        if k == 'cint':
            w = L.LLVMGetIntTypeWidth(L.LLVMTypeOf(v))
            if w > 64:
                return ('undef',)
            return L.LLVMConstIntGetSExtValue(v) if w > 1 else L.LLVMConstIntGetZExtValue(v)
        if k == 'cfp':
            lost = C.c_int()
            return ('f', L.LLVMConstRealGetDouble(v, C.byref(lost)))
        if k == 'null':
            return 0
        if k == 'func':
            return ('fn', vname(v))
        if k in ('global', 'alias'):
            return ('g', self.gname(vname(v)))
        if k in ('undef', 'poison'):
            return ('undef',)
        if k == 'zeroinit':
            return ('zero',)
        if k == 'constexpr':
            op = OPCODES.get(L.LLVMGetConstOpcode(v), '?')
            ops = [self.constant(L.LLVMGetOperand(v, j)) for j in range(L.LLVMGetNumOperands(v))]
            if op == 'gep':
                return ('ce', op, self.type(L.LLVMGetGEPSourceElementType(v)), ops)
            return ('ce', op, None, ops)
        if k in ('carray', 'cstruct', 'cvec'):
            return ('agg', tuple(self.constant(L.LLVMGetOperand(v, j)) for j in range(L.LLVMGetNumOperands(v))))
        if k in ('darray', 'dvec'):
            t = self.type(L.LLVMTypeOf(v))
            if L.LLVMIsConstantString(v):
                n = C.c_size_t()
                p = L.LLVMGetAsString(v, C.byref(n))
                return ('str', C.string_at(p, n.value))
            return ('agg', tuple(self.constant(L.LLVMGetElementAsConstant(v, j)) for j in range(t.count)))
        return ('?', k)

    def gname(self, n):
        # private/internal globals are module-local: qualify them
        ref = self.globals.get(n)
        if ref is not None and L.LLVMGetLinkage(ref) in (8, 9):
            return self.path + '@' + n
        return n

    def ginit(self, n):
        if n not in self._ginit:
            ref = self.globals.get(n)
            init = L.LLVMGetInitializer(ref) if ref else None
            self._ginit[n] = (self.constant(init) if init else None,
                              bool(L.LLVMIsGlobalConstant(ref)) if ref else False,
                              self.type(L.LLVMGlobalGetValueType(ref)) if ref else None)
        return self._ginit[n]

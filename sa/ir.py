"""LLVM-IR front end: compiles /repo's current sources with clang and loads the
module through the LLVM C API (ctypes).  Nothing is executed."""
import ctypes, ctypes.util, os, re, subprocess, sys, tempfile, shutil

LLVM_BIN = '/usr/lib/llvm-18/bin'
_libnames = ['/usr/lib/llvm-18/lib/libLLVM-18.so', '/usr/lib/llvm-18/lib/libLLVM.so.18.1',
             'libLLVM-18.so', 'libLLVM.so.18.1']
_L = None


def L():
    global _L
    if _L is None:
        for n in _libnames:
            try:
                _L = ctypes.CDLL(n)
                break
            except OSError:
                continue
        if _L is None:
            raise RuntimeError('libLLVM-18 not found')
        _setup(_L)
    return _L


P = ctypes.c_void_p


def _setup(l):
    def d(name, res, *args):
        f = getattr(l, name)
        f.restype = res
        f.argtypes = list(args)
    cs, ci, cu, cul = ctypes.c_char_p, ctypes.c_int, ctypes.c_uint, ctypes.c_ulonglong
    d('LLVMContextCreate', P)
    d('LLVMCreateMemoryBufferWithContentsOfFile', ci, cs, ctypes.POINTER(P), ctypes.POINTER(cs))
    d('LLVMParseIRInContext', ci, P, P, ctypes.POINTER(P), ctypes.POINTER(cs))
    for n in ('LLVMGetFirstFunction', 'LLVMGetNextFunction', 'LLVMGetFirstGlobal', 'LLVMGetNextGlobal',
              'LLVMGetFirstBasicBlock', 'LLVMGetNextBasicBlock', 'LLVMGetFirstInstruction',
              'LLVMGetNextInstruction', 'LLVMGetInitializer', 'LLVMTypeOf', 'LLVMGetElementType',
              'LLVMGetGEPSourceElementType', 'LLVMGetAllocatedType', 'LLVMGetCalledValue',
              'LLVMGlobalGetValueType', 'LLVMGetFirstParam', 'LLVMGetNextParam', 'LLVMGetModuleDataLayout',
              'LLVMGetNormalDest', 'LLVMGetUnwindDest', 'LLVMGetSwitchDefaultDest', 'LLVMBasicBlockAsValue',
              'LLVMGetCondition', 'LLVMGetReturnType', 'LLVMGetFirstGlobalAlias', 'LLVMGetNextGlobalAlias',
              'LLVMAliasGetAliasee', 'LLVMGetBasicBlockTerminator', 'LLVMGetPersonalityFn'):
        d(n, P, P)
    for n in ('LLVMGetOperand', 'LLVMGetIncomingValue', 'LLVMGetIncomingBlock', 'LLVMGetSuccessor',
              'LLVMGetAggregateElement', 'LLVMStructGetTypeAtIndex'):
        d(n, P, P, cu)
    for n in ('LLVMGetNumOperands', 'LLVMGetInstructionOpcode', 'LLVMGetICmpPredicate', 'LLVMIsDeclaration',
              'LLVMGetLinkage', 'LLVMIsGlobalConstant', 'LLVMGetTypeKind', 'LLVMGetConstOpcode',
              'LLVMIsConditional', 'LLVMIsConstantString', 'LLVMIsNull', 'LLVMIsUndef', 'LLVMIsPoison',
              'LLVMGetValueKind', 'LLVMHasPersonalityFn', 'LLVMGetVolatile'):
        d(n, ci, P)
    for n in ('LLVMCountIncoming', 'LLVMGetNumSuccessors', 'LLVMGetIntTypeWidth', 'LLVMGetDebugLocLine',
              'LLVMGetNumArgOperands', 'LLVMGetNumIndices', 'LLVMCountStructElementTypes', 'LLVMCountParams',
              'LLVMGetArrayLength', 'LLVMGetVectorSize'):
        d(n, cu, P)
    d('LLVMIsFunctionVarArg', ci, P)
    d('LLVMGetIndices', ctypes.POINTER(cu), P)
    d('LLVMGetValueName2', cs, P, ctypes.POINTER(ctypes.c_size_t))
    d('LLVMGetDebugLocFilename', cs, P, ctypes.POINTER(cu))
    d('LLVMGetStructName', cs, P)
    d('LLVMConstIntGetZExtValue', cul, P)
    d('LLVMConstIntGetSExtValue', ctypes.c_longlong, P)
    d('LLVMABISizeOfType', cul, P, P)
    d('LLVMOffsetOfElement', cul, P, P, cu)
    d('LLVMGetAsString', ctypes.POINTER(ctypes.c_char), P, ctypes.POINTER(ctypes.c_size_t))
    d('LLVMGetCalledFunctionType', P, P)
    d('LLVMPrintValueToString', ctypes.c_void_p, P)
    d('LLVMPrintTypeToString', ctypes.c_void_p, P)
    d('LLVMGetEnumAttributeKindForName', cu, cs, ctypes.c_size_t)
    d('LLVMGetEnumAttributeAtIndex', P, P, cu, cu)


OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 66: 'fneg', 8: 'add', 9: 'fadd',
       10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem',
       19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load',
       28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp',
       36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 42: 'icmp',
       43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 49: 'va_arg', 50: 'extractelement', 51: 'insertelement',
       52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 68: 'freeze', 55: 'fence', 56: 'cmpxchg',
       57: 'atomicrmw', 58: 'resume', 59: 'landingpad', 60: 'addrspacecast'}
PRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}


class Inst:
    __slots__ = ('op', 'ops', 'bits', 'isptr', 'size', 'id', 'name', 'file', 'line', 'x', 'block', 'idx', 'void')

    def loc(self):
        return '%s:%d' % (os.path.basename(self.file or '?'), self.line)

    def __repr__(self):
        return '<%s %s @%s>' % (self.op, self.name or self.id, self.loc())


class Block:
    __slots__ = ('name', 'insts', 'succs', 'preds', 'idx', 'fn')


class Function:
    __slots__ = ('name', 'params', 'blocks', 'linkage', 'decl', 'vararg', 'retbits', 'retptr', 'noreturn', 'rpo',
                 'loops', 'wto', 'live_in', 'di', 'module', 'file', 'line')


class Global:
    __slots__ = ('name', 'const', 'size', 'init', 'decl', 'linkage', 'cells', 'string')


def _cstr(b):
    return b.decode('utf-8', 'replace') if b else ''


class Module:
    def __init__(self, path):
        l = L()
        self.path = path
        self.ctx = l.LLVMContextCreate()
        buf = P()
        msg = ctypes.c_char_p()
        if l.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), ctypes.byref(buf), ctypes.byref(msg)):
            raise RuntimeError('cannot read %s: %s' % (path, msg.value))
        mod = P()
        if l.LLVMParseIRInContext(self.ctx, buf, ctypes.byref(mod), ctypes.byref(msg)):
            raise RuntimeError('cannot parse %s: %s' % (path, msg.value))
        self.mod = mod
        self.td = l.LLVMGetModuleDataLayout(mod)
        self.functions = {}
        self.globals = {}
        self.aliases = {}
        self._nr = l.LLVMGetEnumAttributeKindForName(b'noreturn', 8)
        self.di = DI(open(path, errors='replace').read())
        g = l.LLVMGetFirstGlobal(mod)
        gl = []
        while g:
            gl.append(g)
            g = l.LLVMGetNextGlobal(g)
        self._gnames = {}
        for i, g in enumerate(gl):
            n = self.vname(g) or '.anon%d' % i
            self._gnames[g] = n
        f = l.LLVMGetFirstFunction(mod)
        fl = []
        while f:
            fl.append(f)
            self._gnames[f] = self.vname(f)
            f = l.LLVMGetNextFunction(f)
        a = l.LLVMGetFirstGlobalAlias(mod)
        while a:
            self._gnames[a] = self.vname(a)
            tgt = l.LLVMAliasGetAliasee(a)
            self.aliases[self.vname(a)] = self._gnames.get(tgt)
            a = l.LLVMGetNextGlobalAlias(a)
        for g in gl:
            self._load_global(g)
        for f in fl:
            self._load_function(f)

    def vname(self, v):
        l = L()
        n = ctypes.c_size_t()
        return _cstr(l.LLVMGetValueName2(v, ctypes.byref(n)))

    # ---- types
    def tinfo(self, ty):
        """(bits, isptr, size)"""
        l = L()
        k = l.LLVMGetTypeKind(ty)
        if k == 8:  # int
            w = l.LLVMGetIntTypeWidth(ty)
            return (w, False, (w + 7) // 8)
        if k == 12:
            return (64, True, 8)
        if k == 0:
            return (0, False, 0)
        if k in (10, 11, 13):
            return (0, False, int(l.LLVMABISizeOfType(self.td, ty)))
        if k in (7, 9, 14, 16):
            return (0, False, 0)
        try:
            return (0, False, int(l.LLVMABISizeOfType(self.td, ty)))
        except Exception:
            return (0, False, 0)

    # ---- constants
    def const(self, v):
        l = L()
        ty = l.LLVMTypeOf(v)
        k = l.LLVMGetValueKind(v)
        # value kinds: 0 Argument 1 BB 5 Function 6 Alias 8 GlobalVariable 10 ConstantExpr 17 Undef 18 ConstAggZero
        # 19 ConstDataArray 21 ConstInt 22 FP 23 NullPtr
        tk = l.LLVMGetTypeKind(ty)
        if tk == 14 or k in (1, 21, 22, 23):
            return ('undef',)
        if v in self._gnames:
            n = self._gnames[v]
            return ('g', n, 0)
        if k == 18:
            w = l.LLVMGetIntTypeWidth(ty)
            if w <= 64:
                return ('c', l.LLVMConstIntGetSExtValue(v), w)
            return ('undef',)
        if k in (14, 25):
            return ('undef',)
        if k == 20:
            return ('c', 0, 64)
        if k != 10:
            return ('undef',)
        op = OPC.get(l.LLVMGetConstOpcode(v))
        if op == 'gep':
            base = self.const(l.LLVMGetOperand(v, 0))
            off = self._gep_const(v)
            if base[0] == 'g' and off is not None:
                return ('g', base[1], base[2] + off)
            if base[0] == 'c' and off is not None:
                return ('c', base[1] + off, 64)
            return ('undef',)
        if op in ('ptrtoint', 'inttoptr', 'bitcast'):
            return self.const(l.LLVMGetOperand(v, 0))
        return ('undef',)

    def _gep_const(self, v):
        steps = self._gep_steps(v)
        off = 0
        for kind, a, b in steps:
            if kind == 'c':
                off += a
            else:
                c = self.const(a)
                if c[0] != 'c':
                    return None
                off += c[1] * b
        return off

    def _gep_steps(self, v):
        """list of ('c', off, _) or ('v', valueptr, scale)"""
        l = L()
        ty = l.LLVMGetGEPSourceElementType(v)
        n = l.LLVMGetNumOperands(v)
        out = []
        for i in range(1, n):
            ix = l.LLVMGetOperand(v, i)
            if i == 1:
                out.append(('v', ix, int(l.LLVMABISizeOfType(self.td, ty))))
                continue
            k = l.LLVMGetTypeKind(ty)
            if k == 10:
                c = l.LLVMConstIntGetZExtValue(ix)
                out.append(('c', int(l.LLVMOffsetOfElement(self.td, ty, c)), 0))
                ty = l.LLVMStructGetTypeAtIndex(ty, c)
            else:
                ty = l.LLVMGetElementType(ty)
                out.append(('v', ix, int(l.LLVMABISizeOfType(self.td, ty))))
        return out

    def _load_global(self, g):
        l = L()
        G = Global()
        G.name = self._gnames[g]
        G.const = bool(l.LLVMIsGlobalConstant(g))
        G.decl = bool(l.LLVMIsDeclaration(g))
        G.linkage = l.LLVMGetLinkage(g)
        ty = l.LLVMGlobalGetValueType(g)
        G.size = int(l.LLVMABISizeOfType(self.td, ty)) if l.LLVMGetTypeKind(ty) not in (9,) else 0
        G.cells = {}
        G.string = None
        if not G.decl:
            init = l.LLVMGetInitializer(g)
            if init:
                self._flatten(init, ty, 0, G.cells, G)
        self.globals[G.name] = G

    def _flatten(self, v, ty, off, cells, G, depth=0):
        l = L()
        k = l.LLVMGetTypeKind(ty)
        if k == 8:
            c = self.const(v)
            cells[off] = ((l.LLVMGetIntTypeWidth(ty) + 7) // 8, c)
        elif k == 12:
            cells[off] = (8, self.const(v))
        elif k == 10:
            n = l.LLVMCountStructElementTypes(ty)
            for i in range(n):
                et = l.LLVMStructGetTypeAtIndex(ty, i)
                ev = l.LLVMGetAggregateElement(v, i)
                if ev:
                    self._flatten(ev, et, off + int(l.LLVMOffsetOfElement(self.td, ty, i)), cells, G, depth + 1)
        elif k == 11:
            n = l.LLVMGetArrayLength(ty)
            et = l.LLVMGetElementType(ty)
            es = int(l.LLVMABISizeOfType(self.td, et))
            if l.LLVMGetValueKind(v) == 16 and l.LLVMIsConstantString(v):
                ln = ctypes.c_size_t()
                p = l.LLVMGetAsString(v, ctypes.byref(ln))
                s = ctypes.string_at(p, ln.value)
                if depth == 0:
                    G.string = s
                cells[off] = (len(s), ('s', s))
                return
            if n > 4096 or (es == 1 and l.LLVMIsNull(v)):
                return
            for i in range(n):
                ev = l.LLVMGetAggregateElement(v, i)
                if ev:
                    self._flatten(ev, et, off + i * es, cells, G, depth + 1)

    def _load_function(self, f):
        l = L()
        F = Function()
        F.module = self
        F.name = self._gnames[f]
        F.linkage = l.LLVMGetLinkage(f)
        F.decl = bool(l.LLVMIsDeclaration(f))
        fty = l.LLVMGlobalGetValueType(f)
        F.vararg = bool(l.LLVMIsFunctionVarArg(fty))
        F.retbits, F.retptr, _ = self.tinfo(l.LLVMGetReturnType(fty))
        F.noreturn = bool(l.LLVMGetEnumAttributeAtIndex(f, 0xFFFFFFFF, self._nr))
        F.params = []
        F.blocks = []
        F.di = self.di.subprogram(F.name)
        F.file = F.di.get('file') if F.di else None
        F.line = int(F.di.get('line', 0)) if F.di else 0
        vid = {}
        p = l.LLVMGetFirstParam(f)
        i = 0
        while p:
            b, isp, _ = self.tinfo(l.LLVMTypeOf(p))
            vid[p] = ('a', i)
            F.params.append((self.vname(p), b, isp))
            p = l.LLVMGetNextParam(p)
            i += 1
        self.functions[F.name] = F
        if F.decl:
            return
        bbs = []
        bb = l.LLVMGetFirstBasicBlock(f)
        bidx = {}
        while bb:
            bidx[l.LLVMBasicBlockAsValue(bb)] = len(bbs)
            bidx[bb] = len(bbs)
            bbs.append(bb)
            bb = l.LLVMGetNextBasicBlock(bb)
        n = 0
        raw = []
        for bi, bb in enumerate(bbs):
            B = Block()
            B.idx = bi
            B.fn = F
            B.name = self.vname(l.LLVMBasicBlockAsValue(bb)) or str(bi)
            B.insts = []
            B.preds = []
            B.succs = []
            F.blocks.append(B)
            ins = l.LLVMGetFirstInstruction(bb)
            while ins:
                I = Inst()
                I.id = n
                vid[ins] = ('v', n)
                n += 1
                I.op = OPC.get(l.LLVMGetInstructionOpcode(ins), '?')
                I.block = B
                I.idx = len(B.insts)
                I.name = self.vname(ins)
                I.line = l.LLVMGetDebugLocLine(ins)
                ln = ctypes.c_uint()
                I.file = _cstr(l.LLVMGetDebugLocFilename(ins, ctypes.byref(ln)))[:]
                ty = l.LLVMTypeOf(ins)
                I.bits, I.isptr, I.size = self.tinfo(ty)
                I.void = l.LLVMGetTypeKind(ty) == 0
                I.x = None
                raw.append((I, ins))
                B.insts.append(I)
                ins = l.LLVMGetNextInstruction(ins)
        for I, ins in raw:
            def opr(v):
                r = vid.get(v)
                if r is not None:
                    return r
                return self.const(v)
            if I.op == 'phi':
                I.ops = []
                I.x = []
                for k in range(l.LLVMCountIncoming(ins)):
                    I.x.append((bidx[l.LLVMGetIncomingBlock(ins, k)], opr(l.LLVMGetIncomingValue(ins, k))))
            elif I.op == 'br':
                ns = l.LLVMGetNumSuccessors(ins)
                I.x = [bidx[l.LLVMGetSuccessor(ins, k)] for k in range(ns)]
                I.ops = [opr(l.LLVMGetCondition(ins))] if ns == 2 else []
            elif I.op == 'switch':
                no = l.LLVMGetNumOperands(ins)
                I.ops = [opr(l.LLVMGetOperand(ins, 0))]
                dflt = bidx[l.LLVMGetOperand(ins, 1)]
                cases = []
                for k in range(2, no, 2):
                    cases.append((self.const(l.LLVMGetOperand(ins, k))[1], bidx[l.LLVMGetOperand(ins, k + 1)]))
                w = self.tinfo(l.LLVMTypeOf(l.LLVMGetOperand(ins, 0)))[0]
                I.x = (dflt, cases, w)
            elif I.op in ('call', 'invoke'):
                callee = l.LLVMGetCalledValue(ins)
                na = l.LLVMGetNumArgOperands(ins)
                I.ops = [opr(l.LLVMGetOperand(ins, k)) for k in range(na)]
                cn = self._gnames.get(callee)
                if cn in self.aliases and self.aliases[cn]:
                    cn = self.aliases[cn]
                argt = []
                for k in range(na):
                    argt.append(self.tinfo(l.LLVMTypeOf(l.LLVMGetOperand(ins, k))))
                I.x = {'callee': cn, 'fp': None if cn else opr(callee), 'argt': argt}
                if I.op == 'invoke':
                    I.x['normal'] = bidx[l.LLVMGetNormalDest(ins)]
                    I.x['unwind'] = bidx[l.LLVMGetUnwindDest(ins)]
                I.x['noreturn'] = bool(self._has_nr(ins))
            elif I.op == 'gep':
                steps = []
                for kind, a, b in self._gep_steps(ins):
                    if kind == 'c':
                        steps.append(('c', a, 0))
                    else:
                        o = opr(a)
                        if o[0] == 'c':
                            steps.append(('c', o[1] * b, 0))
                        else:
                            wb = self.tinfo(l.LLVMTypeOf(a))[0]
                            steps.append(('v', o, b, wb))
                I.ops = [opr(l.LLVMGetOperand(ins, 0))] + [s[1] for s in steps if s[0] == 'v']
                I.x = steps
            elif I.op == 'icmp':
                I.ops = [opr(l.LLVMGetOperand(ins, 0)), opr(l.LLVMGetOperand(ins, 1))]
                I.x = (PRED[l.LLVMGetICmpPredicate(ins)], self.tinfo(l.LLVMTypeOf(l.LLVMGetOperand(ins, 0)))[0])
            elif I.op == 'alloca':
                I.ops = []
                I.x = int(l.LLVMABISizeOfType(self.td, l.LLVMGetAllocatedType(ins)))
                c = opr(l.LLVMGetOperand(ins, 0))
                if c[0] == 'c':
                    I.x *= c[1]
                else:
                    I.x = None
            elif I.op == 'extractvalue':
                I.ops = [opr(l.LLVMGetOperand(ins, 0))]
                ni = l.LLVMGetNumIndices(ins)
                ix = l.LLVMGetIndices(ins)
                I.x = [ix[k] for k in range(ni)]
            elif I.op == 'insertvalue':
                I.ops = [opr(l.LLVMGetOperand(ins, 0)), opr(l.LLVMGetOperand(ins, 1))]
                ni = l.LLVMGetNumIndices(ins)
                ix = l.LLVMGetIndices(ins)
                I.x = [ix[k] for k in range(ni)]
            else:
                no = l.LLVMGetNumOperands(ins)
                I.ops = [opr(l.LLVMGetOperand(ins, k)) for k in range(no)]
                if I.op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast'):
                    I.x = self.tinfo(l.LLVMTypeOf(l.LLVMGetOperand(ins, 0)))[0]
                elif I.op == 'store':
                    I.bits, I.isptr, I.size = self.tinfo(l.LLVMTypeOf(l.LLVMGetOperand(ins, 0)))
                    I.x = bool(l.LLVMGetVolatile(ins))
                elif I.op == 'load':
                    I.x = bool(l.LLVMGetVolatile(ins))
        for B in F.blocks:
            B.insts = [I for I in B.insts if not (I.op == 'call' and (I.x['callee'] or '').startswith(
                ('llvm.dbg.', 'llvm.lifetime.')))]
            for k, I in enumerate(B.insts):
                I.idx = k
            t = B.insts[-1]
            if t.op == 'br':
                s = list(t.x)
            elif t.op == 'switch':
                s = [t.x[0]] + [c[1] for c in t.x[1]]
            elif t.op == 'invoke':
                s = [t.x['normal'], t.x['unwind']]
            else:
                s = []
            seen = []
            for k in s:
                if k not in seen:
                    seen.append(k)
            B.succs = seen
        for B in F.blocks:
            for s in B.succs:
                F.blocks[s].preds.append(B.idx)
        _cfg(F)

    def _has_nr(self, ins):
        l = L()
        try:
            l.LLVMGetCallSiteEnumAttribute.restype = P
            l.LLVMGetCallSiteEnumAttribute.argtypes = [P, ctypes.c_uint, ctypes.c_uint]
            return l.LLVMGetCallSiteEnumAttribute(ins, 0xFFFFFFFF, self._nr)
        except Exception:
            return None


def _cfg(F):
    """reverse postorder, natural loops / weak topological order, liveness."""
    n = len(F.blocks)
    # WTO (Bourdoncle)
    order = []
    seen = [0] * n
    post = []

    def dfs(r):
        st = [(r, iter(F.blocks[r].succs))]
        seen[r] = 1
        while st:
            u, it = st[-1]
            for v in it:
                if not seen[v]:
                    seen[v] = 1
                    st.append((v, iter(F.blocks[v].succs)))
                    break
            else:
                post.append(u)
                st.pop()
    dfs(0)
    F.rpo = post[::-1]
    dfn = [0] * n
    num = [0]
    stack = []
    sys.setrecursionlimit(20000)

    def component(v):
        part = []
        for s in F.blocks[v].succs:
            if dfn[s] == 0:
                visit(s, part)
        part.reverse()
        return ('loop', v, part)

    def visit(v, part):
        stack.append(v)
        num[0] += 1
        dfn[v] = num[0]
        head = dfn[v]
        loop = False
        for s in F.blocks[v].succs:
            m = visit(s, part) if dfn[s] == 0 else dfn[s]
            if m <= head:
                head = m
                loop = True
        if head == dfn[v]:
            dfn[v] = 1 << 60
            e = stack.pop()
            if loop:
                while e != v:
                    dfn[e] = 0
                    e = stack.pop()
                part.append(component(v))
            else:
                part.append(v)
        return head
    # NB: partition is built in reverse
    part = []
    visit(0, part)
    part.reverse()
    F.wto = part
    # liveness
    use = [set() for _ in range(n)]
    dfs_ = [set() for _ in range(n)]
    phi_use = [set() for _ in range(n)]  # uses at end of pred
    phidef = [set() for _ in range(n)]
    for B in F.blocks:
        for I in B.insts:
            if I.op == 'phi':
                for p, o in I.x:
                    if o[0] in 'va' and len(o) == 2:
                        phi_use[p].add(o)
                phidef[B.idx].add(('v', I.id))
                dfs_[B.idx].add(('v', I.id))
                continue
            ops = list(I.ops)
            if I.op in ('call', 'invoke') and I.x['fp']:
                ops.append(I.x['fp'])
            for o in ops:
                if o[0] in 'va' and len(o) == 2 and o not in dfs_[B.idx]:
                    use[B.idx].add(o)
            dfs_[B.idx].add(('v', I.id))
    live_in = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for b in F.rpo[::-1]:
            out = set(phi_use[b])
            for s in F.blocks[b].succs:
                out |= (live_in[s] - phidef[s])
            # phi defs live into their own block are considered live_in for the block body
            new = use[b] | (out - dfs_[b]) | phidef[b]
            if new != live_in[b]:
                live_in[b] = new
                ch = True
    F.live_in = live_in


class DI:
    """the debug-info metadata we need, parsed from the textual module"""
    _line = re.compile(r'^!(\d+) = (?:distinct )?!(DI\w+)\((.*)\)\s*$')
    _tuple = re.compile(r'^!(\d+) = (?:distinct )?!\{(.*)\}\s*$')

    def __init__(self, text):
        self.n = {}
        self.t = {}
        for line in text.splitlines():
            if not line.startswith('!'):
                continue
            m = self._line.match(line)
            if m:
                self.n[int(m.group(1))] = (m.group(2), self._fields(m.group(3)))
                continue
            m = self._tuple.match(line)
            if m:
                self.t[int(m.group(1))] = [int(x[1:]) if re.match(r'^!\d+$', x) else None
                                           for x in [y.strip() for y in m.group(2).split(',')]]
        self.sub = {}
        self.var = {}
        for i, (k, f) in self.n.items():
            if k == 'DISubprogram' and 'unit' in f:
                self.sub[f.get('linkageName') or f.get('name')] = i
        self.args = {}
        for i, (k, f) in self.n.items():
            if k == 'DILocalVariable' and 'arg' in f:
                self.args.setdefault(self.ref(f['scope']), {})[int(f['arg'])] = (f.get('name'), self.ref(f.get('type')))
            if k == 'DIGlobalVariable':
                self.var[f.get('linkageName') or f.get('name')] = self.ref(f.get('type'))

    @staticmethod
    def _fields(s):
        out = {}
        i = 0
        while i < len(s):
            m = re.compile(r'\s*(\w+): ').match(s, i)
            if not m:
                break
            i = m.end()
            if s[i] == '"':
                j = s.index('"', i + 1)
                out[m.group(1)] = s[i + 1:j]
                i = j + 1
            else:
                j = i
                d = 0
                while j < len(s) and (s[j] != ',' or d):
                    if s[j] == '(':
                        d += 1
                    if s[j] == ')':
                        d -= 1
                    j += 1
                out[m.group(1)] = s[i:j].strip()
                i = j
            while i < len(s) and s[i] in ', ':
                i += 1
        return out

    @staticmethod
    def ref(x):
        if x and x.startswith('!') and x[1:].isdigit():
            return int(x[1:])
        return None

    def subprogram(self, name):
        i = self.sub.get(name)
        if i is None:
            return None
        f = dict(self.n[i][1])
        fr = self.ref(f.get('file'))
        f['file'] = self.n[fr][1].get('filename') if fr in self.n else None
        f['args'] = self.args.get(i, {})
        return f

    def strip(self, t):
        while t is not None and t in self.n:
            k, f = self.n[t]
            if k == 'DIDerivedType' and f.get('tag') in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type',
                                                        'DW_TAG_member'):
                t = self.ref(f.get('baseType'))
            else:
                return t
        return t

    def kind(self, t):
        """('int', bits, signed) | ('ptr', pointee) | ('enum', name) | ('struct', id) | ('array', elem, count)"""
        t = self.strip(t)
        if t is None:
            return ('void',)
        k, f = self.n[t]
        if k == 'DIBasicType':
            e = f.get('encoding', '')
            return ('int', int(f.get('size', 0)), e in ('DW_ATE_signed', 'DW_ATE_signed_char'))
        if k == 'DIDerivedType':
            if f.get('tag') in ('DW_TAG_pointer_type', 'DW_TAG_reference_type'):
                return ('ptr', self.ref(f.get('baseType')))
            return ('?',)
        if k == 'DICompositeType':
            tag = f.get('tag')
            if tag == 'DW_TAG_enumeration_type':
                return ('int', int(f.get('size', 32)), False)
            if tag in ('DW_TAG_structure_type', 'DW_TAG_class_type'):
                return ('struct', t)
            if tag == 'DW_TAG_array_type':
                return ('array', self.ref(f.get('baseType')), int(f.get('size', 0)))
        return ('?',)

    def type_name(self, t):
        t = self.strip(t)
        return self.n[t][1].get('name') if t in self.n else None

    def struct_members(self, t):
        """{name: (byteoff, bytesize, type)} flattened one level; nested structs get dotted names"""
        t = self.strip(t)
        out = {}
        k, f = self.n[t]
        el = self.ref(f.get('elements'))
        for m in self.t.get(el, []):
            if m is None or m not in self.n:
                continue
            mk, mf = self.n[m]
            if mk != 'DIDerivedType' or mf.get('tag') != 'DW_TAG_member':
                continue
            off = int(mf.get('offset', 0)) // 8
            sz = int(mf.get('size', 0)) // 8
            ty = self.ref(mf.get('baseType'))
            out[mf.get('name')] = (off, sz, ty)
            kk = self.kind(ty)
            if kk[0] == 'struct':
                for n2, (o2, s2, t2) in self.struct_members(kk[1]).items():
                    out[mf.get('name') + '.' + n2] = (off + o2, s2, t2)
        return out

    def struct_by_name(self, name):
        for i, (k, f) in self.n.items():
            if k == 'DICompositeType' and f.get('name') == name and 'elements' in f and 'DIFlagFwdDecl' not in f.get('flags', ''):
                return i
        return None

    def enum(self, name):
        for i, (k, f) in self.n.items():
            if k == 'DICompositeType' and f.get('tag') == 'DW_TAG_enumeration_type' and f.get('name') == name:
                out = {}
                for m in self.t.get(self.ref(f.get('elements')), []):
                    mk, mf = self.n[m]
                    out[mf.get('name')] = int(mf.get('value', 0))
                return out
        return None

"""C13: builders infer the result type the SPIR-V specification prescribes and refuse operand types it does not allow.

Operand types range over a finite domain of canonical types.  Every builder is propagated through its real code (getType, the Type
predicates, makeOp, result type inference and operand validation included) for every combination and compared with the rule below, written
from the instruction descriptions of the specification."""
import itertools, multiprocessing, os
from sa.absint import State, ZERO
from sa.facts import AnalysisError
from sa.types import Types
from sa.world import INSTR

ME = ('obj', 'me')


class Maybe:
    """allowed by the specification, but refusing it is the library's choice; if it is built the type must be this"""
    def __init__(self, t): self.t = t


class Rules:
    def __init__(self, T):
        self.T = T
        self.B = T.bool(); self.U = T.uint(); self.F = T.flt(); self.V = T.void()

    # ---- shape of terms
    def k(self, t): return self.T.opn[t[0]]
    def isint(self, t): return self.k(t) == 'OpTypeInt'
    def isflt(self, t): return self.k(t) == 'OpTypeFloat'
    def isbool(self, t): return self.k(t) == 'OpTypeBool'
    def isvec(self, t): return self.k(t) == 'OpTypeVector'
    def ismat(self, t): return self.k(t) == 'OpTypeMatrix'
    def isptr(self, t): return self.k(t) == 'OpTypePointer'
    def isstruct(self, t): return self.k(t) == 'OpTypeStruct'
    def comp(self, t): return t[10][0] if self.isvec(t) else t
    def n(self, t): return t[1] if self.isvec(t) else 0
    def sc(self, t): return self.isint(t) or self.isflt(t) or self.isbool(t)
    def sv(self, t): return self.sc(t) or (self.isvec(t) and self.sc(t[10][0]))
    def svint(self, t): return self.sv(t) and self.isint(self.comp(t))
    def svflt(self, t): return self.sv(t) and self.isflt(self.comp(t))
    def svbool(self, t): return self.sv(t) and self.isbool(self.comp(t))
    def like(self, t, c): return self.T.vec(t[1], c) if self.isvec(t) else c
    def signed(self, t): return self.like(t, self.T.int(self.comp(t)[1], 1))
    def boolof(self, t): return self.like(t, self.B)
    def shape(self, a, b): return self.n(a) == self.n(b) and self.comp(a)[1] == self.comp(b)[1]
    def composite(self, t): return self.k(t) in ('OpTypeVector', 'OpTypeMatrix', 'OpTypeStruct', 'OpTypeArray')

    def path(self, t, idx):
        for i in idx:
            if self.isstruct(t):
                if i >= len(t[10]): return None
                t = t[10][i]
            elif self.k(t) in ('OpTypeVector', 'OpTypeMatrix', 'OpTypeArray', 'OpTypeRuntimeArray'):
                t = t[10][0]
            else:
                return None
        return t

    # ---- rules
    def un(self, pred, res):
        return lambda a: res(a) if pred(a) else None

    def same_float(self, res):
        return lambda a, b: res(a) if a == b and self.svflt(a) else None

    def int_any(self, res):
        return lambda a, b: res(a) if self.svint(a) and self.svint(b) and self.shape(a, b) else None

    def uint_same(self, res):
        return lambda a, b: res(a) if a == b and self.svint(a) and not self.comp(a)[2] else None

    def bool_same(self, res):
        return lambda a, b: res(a) if a == b and self.svbool(a) else None

    def shift(self, a, b):
        if not (self.svint(a) and self.svint(b) and self.n(a) == self.n(b)): return None
        return a if self.shape(a, b) else Maybe(a)

    def table(self):
        T = self.T; I = lambda a: a
        R = {}
        def put(names, rule, doms):
            for x in names.split():
                R[x] = (rule, doms)
        V = ['v']; VV = ['v', 'v']
        put('opFNegate opDPdx opDPdy opFwidth opDPdxFine opDPdyFine opFwidthFine opDPdxCoarse opDPdyCoarse', self.un(self.svflt, I), V)
        put('opIsNan opIsInf opIsFinite opIsNormal opSignBitSet', self.un(self.svflt, self.boolof), V)
        put('opSNegate', lambda a: (self.signed(a) if self.comp(a)[2] else Maybe(self.signed(a))) if self.svint(a) else None, V)
        put('opNot opBitReverse opBitCount', self.un(self.svint, I), V)
        put('opLogicalNot', self.un(self.svbool, I), V)
        put('opSatConvertSToU', lambda a: (a if self.comp(a)[2] else Maybe(a)) if self.svint(a) else None, V)
        put('opSatConvertUToS', lambda a: (a if not self.comp(a)[2] else Maybe(a)) if self.svint(a) else None, V)
        put('opQuantizeToF16', self.un(lambda a: self.svflt(a) and self.comp(a)[1] == 32, I), V)
        put('opFAdd opFSub opFMul opFDiv opFRem opFMod', self.same_float(I), VV)
        put('opIAdd opISub opIMul opBitwiseOr opBitwiseXor opBitwiseAnd', self.int_any(I), VV)
        put('opShiftRightLogical opShiftRightArithmetic opShiftLeftLogical', self.shift, VV)
        put('opUDiv opUMod', self.uint_same(I), VV)
        put('opSDiv opSRem opSMod', self.int_any(self.signed), VV)
        put('opIAddCarry opISubBorrow opUMulExtended', self.uint_same(lambda a: T.struct(a, a)), VV)
        put('OpSMulExtended', lambda a, b: (T.struct(a, a) if self.comp(a)[2] else Maybe(T.struct(a, a))) if a == b and self.svint(a) else None, VV)
        put('opFOrdEqual opFUnordEqual opFOrdNotEqual opFUnordNotEqual opFOrdLessThan opFUnordLessThan opFOrdGreaterThan opFUnordGreaterThan '
            'opFOrdLessThanEqual opFUnordLessThanEqual opFOrdGreaterThanEqual opFUnordGreaterThanEqual opOrdered opUnordered', self.same_float(self.boolof), VV)
        put('opIEqual opINotEqual opUGreaterThan opUGreaterThanEqual opSGreaterThan opSGreaterThanEqual opULessThan opULessThanEqual opSLessThan opSLessThanEqual', self.int_any(self.boolof), VV)
        put('opLogicalEqual opLogicalNotEqual opLogicalOr opLogicalAnd', self.bool_same(I), VV)
        put('opAny opAll', self.un(lambda a: self.isvec(a) and self.isbool(a[10][0]), lambda a: self.B), V)
        put('opPtrEqual opPtrNotEqual', lambda a, b: self.B if a == b and self.isptr(a) else None, VV)
        fv = lambda a: self.isvec(a) and self.isflt(a[10][0])
        fm = lambda a: self.ismat(a)
        put('opDot', lambda a, b: a[10][0] if a == b and fv(a) else None, VV)
        put('opOuterProduct', lambda a, b: T.mk('OpTypeMatrix', b[1], subs=(a,)) if fv(a) and fv(b) and a[10] == b[10] else None, VV)
        put('opVectorTimesScalar', lambda a, b: a if fv(a) and b == a[10][0] else None, VV)
        put('opMatrixTimesScalar', lambda a, b: a if fm(a) and b == a[10][0][10][0] else None, VV)
        put('opVectorTimesMatrix', lambda a, b: T.vec(b[1], a[10][0]) if fv(a) and fm(b) and b[10][0] == a else None, VV)
        put('opMatrixTimesVector', lambda a, b: a[10][0] if fm(a) and fv(b) and b == T.vec(a[1], a[10][0][10][0]) else None, VV)
        put('opMatrixTimesMatrix', lambda a, b: T.mk('OpTypeMatrix', b[1], subs=(a[10][0],)) if fm(a) and fm(b) and b[10][0] == T.vec(a[1], a[10][0][10][0]) else None, VV)
        put('opTranspose', lambda a: T.mat(a[10][0][1], a[1], a[10][0][10][0]) if fm(a) else None, V)
        put('opVectorExtractDynamic', lambda a, i: a[10][0] if self.isvec(a) and self.isint(i) else None, VV)
        put('opVectorInsertDynamic', lambda a, c, i: a if self.isvec(a) and c == a[10][0] and self.isint(i) else None, ['v', 's', 's'])
        put('opCopyObject', lambda a: a, V)
        put('opSelect', self.select, ['s', 's', 's'])
        put('opConvertFToU', self.un(self.svflt, lambda a: self.like(a, T.uint(self.comp(a)[1]))), V)
        put('opConvertFToS', self.un(self.svflt, lambda a: self.like(a, T.int(self.comp(a)[1]))), V)
        put('opConvertSToF', lambda a: self._tof(a, 1), V)
        put('opConvertUToF', lambda a: self._tof(a, 0), V)
        widths = [16, 32, 64]
        put('opUConvert', lambda a, w: self._conv(a, w, 0), ['v', widths])
        put('opSConvert', lambda a, w: self._conv(a, w, 1), ['v', widths])
        put('opFConvert', lambda a, w: self.like(a, T.flt(w)) if self.svflt(a) and self.comp(a)[1] != w else None, ['v', widths])
        phys = lambda a: self.isptr(a) and a[3] == T.sc['PhysicalStorageBuffer']
        put('opConvertPtrToU', lambda a, w: T.uint(w) if phys(a) else None, ['v', widths])
        put('opConvertUToPtr', lambda r, a: (r if not a[2] else Maybe(r)) if phys(r) and self.isint(a) else None, ['t', 'v'])
        put('opBitcast', self.bitcast, ['t', 'v'])
        put('opSizeOf', self.un(self.isptr, lambda a: self.U), V)
        put('opUndef', lambda a: a, ['t'])
        put('opSampledImage', lambda i, s: T.simage(i) if self.k(i) == 'OpTypeImage' and self.k(s) == 'OpTypeSampler' and i[7] != T.acc['Storage'] and i[4] != T.dim['SubpassData'] else None, ['iv', 'iv'])
        put('opImage', lambda a: a[10][0] if self.k(a) == 'OpTypeSampledImage' else None, ['iv'])
        img = lambda a: self.k(a) == 'OpTypeImage'
        d4 = [T.dim[x] for x in ('Dim1D', 'Dim2D', 'Dim3D', 'Cube')]
        put('opImageQueryFormat opImageQueryOrder', lambda a: self.U if img(a) and a[8] == T.fmt['Unknown'] else (Maybe(self.U) if img(a) else None), ['iv'])
        put('opImageQueryLevels', lambda a: self.U if img(a) and a[4] in d4 else None, ['iv'])
        put('opImageQuerySamples', lambda a: self.U if img(a) and a[4] == T.dim['Dim2D'] and a[6] else None, ['iv'])
        put('opImageQuerySizeLod', lambda a, l: (self.size(a) if not l[2] else Maybe(self.size(a))) if img(a) and a[4] in d4 and not a[6] and self.isint(l) else None, ['iv', 's'])
        put('opImageQuerySize', lambda a: self.size(a) if img(a) and (a[4] == T.dim['Rect'] or (a[4] in d4 and (a[6] or a[7] != T.acc['Sampled']))) else (Maybe(self.size(a)) if img(a) and a[4] == T.dim['Buffer'] else None), ['iv'])
        put('opImageQueryLod', lambda s, c: self.sampled(s, c, T.vec(2, self.F), ints=True), ['si', 'co'])
        put('opBitFieldInsert', lambda b, i, o, c: b if b == i and self.svint(b) and self.isint(o) and self.isint(c) else None, ['s', 's', 's', 's'])
        put('opBitFieldSExtract opBitFieldUExtract', lambda b, o, c: b if self.svint(b) and self.isint(o) and self.isint(c) else None, ['s', 's', 's'])
        put('opLoad', lambda p: p[10][0] if self.isptr(p) else None, ['v'])
        put('opStore', lambda p, x: 'built' if self.isptr(p) and p[10][0] == x else None, VV)
        put('opCopyMemory', self.copymem, VV)
        idx = [0, 1, 2]
        put('opAccessChain/1 opAccessChain/1L', lambda p, *i: self.chain(p, i), ['p', idx])
        put('opAccessChain/2 opAccessChain/2L', lambda p, *i: self.chain(p, i), ['p', idx, idx])
        put('opAccessChain/0 opAccessChain/0L', lambda p: self.chain(p, ()), ['p'])
        put('opCompositeExtract/1 opCompositeExtractDynamic/1L', lambda c, *i: self.path(c, i) if self.composite(c) else None, ['c', idx])
        put('opCompositeExtract/2 opCompositeExtractDynamic/2L', lambda c, *i: self.path(c, i) if self.composite(c) else None, ['c', idx, idx])
        put('opCompositeInsert/1', lambda c, x, *i: c if self.composite(c) and self.path(c, i) == x else None, ['c', 's', idx])
        put('opCompositeInsert/2', lambda c, x, *i: c if self.composite(c) and self.path(c, i) == x else None, ['c', 's', idx, idx])
        put('opVectorShuffle/2 opVectorShuffle/3', lambda a, b, *i: T.vec(len(i), a[10][0]) if self.isvec(a) and self.isvec(b) and a[10] == b[10] else None, ['v', 'v', [0], [1], [0]])
        put('opCompositeConstruct', lambda r, a: r if self.composite(r) else None, ['t', 's'])
        put('opArrayLength', lambda p, i: self.U if self.isptr(p) and self.isstruct(p[10][0]) and p[10][0][10] and self.k(p[10][0][10][-1]) == 'OpTypeRuntimeArray' else None, ['p', [1]])
        # images: sampled image, coordinate, [dref/component]
        v4 = lambda s: T.vec(4, self.texel(s))
        tx = self.texel
        put('opImageSampleImplictLod', lambda s, c: self.sampled(s, c, v4, ints=False), ['si', 'co', ['mask:']])
        put('opImageSampleProjImplictLod', lambda s, c: self.sampled(s, c, v4, ints=False, proj=1), ['si', 'co', ['mask:']])
        put('opImageSampleExplicitLodLevel', lambda s, c, l: self.sampled(s, c, v4, ints=True), ['si', 'co', [self.F], ['mask:']])
        put('opImageSampleProjExplicitLodLevel', lambda s, c, l: self.sampled(s, c, v4, ints=False, proj=1), ['si', 'co', [self.F], ['mask:']])
        put('opImageSampleDrefImplictLod', lambda s, c, d: self.sampled(s, c, tx, ints=False, dref=d), ['si', 'co', 'dr', ['mask:']])
        put('opImageSampleProjDrefImplictLod', lambda s, c, d: self.sampled(s, c, tx, ints=False, proj=1, dref=d), ['si', 'co', 'dr', ['mask:']])
        put('opImageSampleDrefExplicitLodLevel', lambda s, c, d, l: self.sampled(s, c, tx, ints=False, dref=d), ['si', 'co', 'dr', [self.F], ['mask:']])
        put('opImageSampleProjDrefExplicitLodLevel', lambda s, c, d, l: self.sampled(s, c, tx, ints=False, proj=1, dref=d), ['si', 'co', 'dr', [self.F], ['mask:']])
        put('opImageGather', lambda s, c, d: self.sampled(s, c, v4, ints=False, compo=d, gather=1), ['si', 'co', 'dr', ['mask:']])
        put('opImageDrefGather', lambda s, c, d: self.sampled(s, c, v4, ints=False, dref=d, gather=1), ['si', 'co', 'dr', ['mask:']])
        put('opImageFetch', self.fetch, ['iv', 'co', ['mask:']])
        put('opImageRead', self.imread, ['iv', 'co', ['mask:']])
        put('opImageWrite', self.imwrite, ['iv', 'co', 'tex', ['mask:']])
        # with image operands: the operands given after the mask do not change the result type
        i2 = [T.vec(2, T.int())]; f2 = [T.vec(2, self.F)]; fl = [self.F]; it = [T.int()]
        big = [T.vec(2, self.F), T.vec(3, self.F), T.vec(4, self.F)]
        put('opImageSampleImplictLod/m1', lambda s, c, o: self.sampled(s, c, v4, ints=False), ['si2', big, ['mask:Bias', 'mask:MinLod'], fl])
        put('opImageSampleImplictLod/m2', lambda s, c, o: self.sampled(s, c, v4, ints=False), ['si2', big, ['mask:Offset', 'mask:ConstOffset'], i2])
        put('opImageSampleExplicitLodLevel/m1', lambda s, c, l, o: self.sampled(s, c, v4, ints=True), ['si2', big, fl, ['mask:Offset', 'mask:MinLod'], i2])
        put('opImageSampleExplicitLodGrad/m1', lambda s, c, g, h: self.sampled(s, c, v4, ints=True), ['si2', big, f2, ['mask:'], f2])
        put('opImageSampleExplicitLodGrad/m2', lambda s, c, g: self.sampled(s, c, v4, ints=True), ['si2', big, f2, ['mask:']])
        put('opImageSampleProjExplicitLodGrad/m1', lambda s, c, g, h: self.sampled(s, c, v4, ints=False, proj=1), ['si2', big, f2, ['mask:'], f2])
        put('opImageSampleDrefImplictLod/m1', lambda s, c, d, o: self.sampled(s, c, tx, ints=False, dref=d), ['si2', big, 'dr', ['mask:Bias', 'mask:Offset'], i2])
        put('opImageSampleDrefExplicitLodGrad/m1', lambda s, c, d, g, h: self.sampled(s, c, tx, ints=False, dref=d), ['si2', big, 'dr', f2, ['mask:'], f2])
        put('opImageSampleProjDrefExplicitLodGrad/m1', lambda s, c, d, g, h: self.sampled(s, c, tx, ints=False, proj=1, dref=d), ['si2', big, 'dr', f2, ['mask:'], f2])
        put('opImageGather/m1', lambda s, c, d, o: self.sampled(s, c, v4, ints=False, compo=d, gather=1), ['si2', big, 'dr', ['mask:Offset', 'mask:ConstOffset'], i2])
        put('opImageDrefGather/m1', lambda s, c, d, o: self.sampled(s, c, v4, ints=False, dref=d, gather=1), ['si2', big, 'dr', ['mask:Offset'], i2])
        put('opImageFetch/m1', lambda i, c, o: self.fetch(i, c), ['iv', 'co', ['mask:Lod', 'mask:Sample'], it])
        put('opImageRead/m1', lambda i, c, o: self.imread(i, c), ['iv', 'co', ['mask:Sample'], it])
        put('opImageWrite/m1', lambda i, c, x, o: self.imwrite(i, c, x), ['iv', 'co', [T.vec(4, self.F)], ['mask:Sample'], it])
        return R

    def _tof(self, a, s):
        if not self.svint(a): return None
        r = self.like(a, self.T.flt(self.comp(a)[1]))
        return r if self.comp(a)[2] == s else Maybe(r)

    def _conv(self, a, w, s):
        if not self.svint(a) or self.comp(a)[1] == w: return None
        return self.like(a, self.T.int(w, s)) if self.comp(a)[2] == s else Maybe(self.like(a, self.T.int(w, s)))

    def select(self, c, a, b):
        if a != b: return None
        ok = self.sc(a) or self.isptr(a) or self.composite(a)
        if self.isbool(c): return a if ok else None
        if self.isvec(c) and self.isbool(c[10][0]) and self.isvec(a) and a[1] == c[1]: return a
        return None

    def bits(self, t):
        if not self.sv(t) or self.isbool(self.comp(t)): return 0
        return self.comp(t)[1] * (self.n(t) or 1)

    def bitcast(self, r, a):
        if r == a: return None
        if self.isptr(r) and self.isptr(a): return r
        if self.bits(r) and self.bits(r) == self.bits(a): return r
        if (self.isptr(r) and self.bits(a)) or (self.isptr(a) and self.bits(r)): return Maybe(r)
        return None

    def has_rt(self, t):
        return self.k(t) == 'OpTypeRuntimeArray' or any(self.has_rt(x) for x in t[10])

    def copymem(self, a, b):
        if not (self.isptr(a) and self.isptr(b)): return None
        if a[10] != b[10] or self.k(a[10][0]) == 'OpTypeVoid' or self.has_rt(a[10][0]): return None
        return 'built'

    def chain(self, p, idx):
        if not self.isptr(p): return None
        t = self.path(p[10][0], idx)
        return None if t is None else self.T.mk('OpTypePointer', subs=(t,))[:3] + (p[3],) + self.T.mk('OpTypePointer', subs=(t,))[4:]

    def dims(self, i):
        d = self.T.dim
        n = {d['Dim1D']: 1, d['Buffer']: 1, d['Dim2D']: 2, d['Cube']: 2, d['Rect']: 2, d['SubpassData']: 2, d['Dim3D']: 3}.get(i[4], 0)
        return n + (1 if i[5] else 0) if n else 0

    def cdims(self, i):
        # coordinates of a cube are a direction; the library asks for the two dimensions it has otherwise
        return self.dims(i)

    def size(self, i):
        n = self.dims(i)
        return self.U if n == 1 else self.T.vec(n, self.U)

    def texel(self, s):
        t = s[10][0] if self.k(s) == 'OpTypeImage' else s[10][0][10][0]
        return self.F if self.k(t) == 'OpTypeVoid' else t

    def coord(self, i, c, proj):
        """None: wrong, Maybe, True"""
        if not self.sv(c) or self.isbool(self.comp(c)): return None
        need = self.dims(i) + proj
        have = self.n(c) or 1
        if not self.dims(i) or have < need: return None
        if i[4] == self.T.dim['Cube'] and have < need + 1: return Maybe(None)
        return True

    def sampled(self, s, c, res, ints, proj=0, dref=None, compo=None, gather=0):
        T = self.T
        if self.k(s) != 'OpTypeSampledImage': return None
        i = s[10][0]
        ok = self.coord(i, c, proj)
        if ok is None: return None
        if self.isint(self.comp(c)) and not ints: return None
        if dref is not None and dref != self.F: return None
        if compo is not None and not (self.isint(compo) and compo[1] == 32): return None
        if gather and i[4] not in (T.dim['Dim2D'], T.dim['Cube'], T.dim['Rect']): return None
        r = res(s) if callable(res) else res
        # rules of the specification the library leaves to the caller
        if i[6] or i[4] in (T.dim['Buffer'], T.dim['SubpassData']) or (proj and (i[5] or i[4] == T.dim['Cube'])) or i[7] == T.acc['Storage']:
            return Maybe(r)
        if compo is not None and compo[2] == 0:
            return Maybe(r)
        return r if ok is True else Maybe(r)

    def fetch(self, i, c):
        T = self.T
        if self.k(i) != 'OpTypeImage' or i[7] != T.acc['Sampled'] or i[4] == T.dim['Cube']: return None
        if self.coord(i, c, 0) is None or not self.isint(self.comp(c)): return None
        r = T.vec(4, self.texel(i))
        return Maybe(r) if i[4] == T.dim['SubpassData'] else r

    def imread(self, i, c):
        T = self.T
        if self.k(i) != 'OpTypeImage' or i[7] == T.acc['Sampled']: return None
        ok = self.coord(i, c, 0)
        if ok is None or not self.isint(self.comp(c)): return None
        ch = {'Unknown': 4, 'R32f': 1, 'Rg32f': 2, 'Rgba32f': 4}[[k for k, v in T.fmt.items() if v == i[8]][0]]
        t = self.texel(i)
        r = t if ch == 1 else T.vec(ch if self.k(i[10][0]) != 'OpTypeVoid' else 4, t)
        return r if ok is True else Maybe(r)

    def imwrite(self, i, c, x):
        T = self.T
        if self.k(i) != 'OpTypeImage' or i[7] == T.acc['Sampled'] or i[4] == T.dim['SubpassData']: return None
        ok = self.coord(i, c, 0)
        if ok is None or not self.isint(self.comp(c)): return None
        void = self.k(i[10][0]) == 'OpTypeVoid'
        if not self.sv(x) or self.isbool(self.comp(x)) or (not void and self.comp(x) != i[10][0]): return None
        return 'built' if ok is True and not void else Maybe('built')


def domains(T, tier):
    B = T.bool(); I = T.int(); U = T.uint(); F = T.flt(); D = T.flt(64); H = T.flt(16); L = T.int(64); v = T.vec
    im = T.image(F, 'Dim2D', access='Sampled')
    st = T.struct(F, I)
    val = [B, I, U, F, D, L, v(2, F), v(3, F), v(3, I), v(3, U), v(2, B), v(3, D), T.mat(2, 3, F), T.mat(3, 2, F), st, T.ptr('Function', F), T.ptr('Uniform', F), T.ptr('PhysicalStorageBuffer', I), T.array(4, F), im, T.simage(im), T.void()]
    val += [H, T.uint(64), v(4, F), v(2, I), v(3, B), T.mat(3, 3, F), T.mat(2, 3, D), T.ptr('Function', st), T.rtarray(F), T.mk('OpTypeSampler')]
    small = [B, I, U, F, L, v(2, F), v(2, B), v(3, I), st, T.ptr('Function', F)]
    if tier == 'thorough':
        val += [T.uint(16), T.int(8), v(4, L), v(4, H), v(2, T.uint(64)), T.mat(4, 4, F), T.mat(3, 2, D), T.ptr('StorageBuffer', T.rtarray(F)), T.ptr('Uniform', v(2, F)), T.struct(), T.array(3, v(2, F)), T.array(4, I), T.fn(T.void())]
        small += [H, D, v(3, F), v(3, B), T.mat(2, 3, F), T.array(4, F)]
    imgs = []
    for d in ('Dim1D', 'Dim2D', 'Dim3D', 'Cube', 'Rect', 'Buffer', 'SubpassData'):
        for arr in (0, 1):
            for ms in (0, 1):
                imgs.append(T.image(F, d, array=arr, ms=ms, access='Sampled'))
                imgs.append(T.image(F, d, array=arr, ms=ms, access='Storage', fmt='R32f' if arr else 'Unknown'))
    imgs += [T.image(I, 'Dim2D', access='Sampled'), T.image(T.void(), 'Dim2D', access='Unknown'), T.image(U, 'Dim1D', access='Storage', fmt='Rg32f'), T.image(F, 'Dim2D', access='Storage', fmt='Rgba32f')]
    si = [T.simage(i) for i in imgs if i[7] != T.acc['Storage']]
    comps = [st, T.struct(v(2, F), T.struct(I, U)), T.array(4, v(2, U)), T.mat(2, 3, F), v(3, F), T.rtarray(I), F, T.struct()]
    ptrs = [T.ptr('Uniform', x) for x in comps] + [T.ptr('Function', v(3, F)), T.ptr('StorageBuffer', T.struct(F, T.rtarray(I))), F, v(2, F)]
    co = [B, F, I, v(2, F), v(3, F), v(4, F), v(2, I), v(3, U), st]
    return {'v': val, 't': val, 's': small, 'iv': imgs + [si[0], F, T.mk('OpTypeSampler')], 'si': si + [imgs[0], F], 'co': co, 'dr': [F, I, U, D, v(2, F)],
            'si2': [x for x in si if x[10][0][4] in (T.dim['Dim2D'], T.dim['Cube'], T.dim['Dim3D'])] + [imgs[0]], 'p': ptrs, 'c': comps, 'tex': [F, v(4, F), v(2, F), I, B, v(4, I)]}


def find(fx, spec):
    """overload of a builder by the kinds of its parameters: name or name/number of indices[L]"""
    name, _, arity = spec.partition('/')
    if arity.startswith('m'):
        arity = ''
    lst = arity.endswith('L')
    arity = arity.rstrip('L')
    out = []
    for f in fx.by_cls.get(INSTR, []):
        if f.name != name or f.body is None:
            continue
        k = ''.join('p' if f.tu.types[p['t']].replace(' ', '') == 'spvgentwo::Instruction*' else 'L' if 'List<' in f.tu.types[p['t']] else 'u' if f.tu.types[p['t']] == 'unsigned int' else 'm' if 'Flag<' in f.tu.types[p['t']] else '?' for p in f.params)
        out.append((k, f))
    return out, lst, (int(arity) if arity else None)


def want_kinds(doms, lst, arity, name):
    k = ''
    n = arity
    for d in doms:
        if isinstance(d, list) and d and isinstance(d[0], int):
            if lst or (n is not None and n <= 0):
                continue
            k += 'u'
            if n is not None: n -= 1
        elif isinstance(d, list) and d and isinstance(d[0], str):
            k += 'm'
        else:
            k += 'p'
    return k + ('L' if lst else '')


class Runner:
    def __init__(self, fx, tier):
        self.fx = fx
        self.W = Types(fx)
        self.T = self.W.T
        self.R = Rules(self.T)
        self.table = self.R.table()
        self.dom = domains(self.T, tier)
        self.masks = {x[0]: x[1] for x in fx.enums['spvgentwo::spv::ImageOperandsMask']['v']}

    def call(self, fn, kinds, terms, lst):
        """outcomes of one builder for operand types: set of ('refuse',) / ('built', opcode, result type)"""
        W = self.W; T = self.T
        st = State()
        W._instr(st, ME, T.op['OpNop'], [], 'me')
        args = []
        ints = [t for t in terms if isinstance(t, int)]
        k = 0
        for i, (kd, t) in enumerate(zip(kinds, [x for x in terms if not (lst and isinstance(x, int))])):
            if isinstance(t, str):
                st.mem[('f', ('tmp', 'flag'), self.flagfield)] = ('i', self.mask(t))
                args.append(('o', ('tmp', 'flag')))
            elif isinstance(t, int):
                args.append(('i', t))
            elif kd == 't':
                args.append(('p', W.need(st, t)))
            else:
                args.append(('p', W.value(st, 'a%d' % i, t)))
        if lst:
            from sa import shape
            for l, x in zip(shape.mklist(st, ('obj', 'idxlist'), ['ix%d' % j for j in range(len(ints))]), ints):
                st.mem[l] = ('i', x)
            args.append(('ref', ('obj', 'idxlist')))
        # optional trailing parameters get their declared default: masks are None
        for p in fn.params[len(args):]:
            if 'Flag<' in fn.tu.types[p['t']]:
                l = ('tmp', 'flag%d' % len(args))
                st.mem[('f', l, self.flagfield)] = ('i', 0)
                args.append(('o', l))
            else:
                raise AnalysisError('%s: parameter %s is not understood' % (fn.q, p.get('n')))
        out = set()
        crash = None
        for s, v in W.ip.run(fn, this=('p', ME), args=args, st=st):
            crash = crash or next((e for e in s.events() if e[0] == 'nullderef'), None)
            op = W.ip.load(s, ('f', ME, W.ops.opfield))
            if v == W.ip.err or (fn.ret == 'void' and op == ('i', T.op['OpNop'])):
                out.add(('refuse',)); continue
            p = W.ip.load(s, ('f', ME, 'm_pBegin'))
            first = W.ops.read(s, ('f', p[1], 'm_data')) if p[0] == 'p' else None
            rt = 'built'
            if fn.ret != 'void' and op != ('i', T.op['OpImageWrite']):
                rt = None
                if first is not None and first[0] == 'instr':
                    rt = 'the error instruction' if first[1] == W.ip.err else W.term_of_instr(first[1])
            out.add(('built', T.opn.get(op[1], op[1]) if op[0] == 'i' else '?', rt))
        if not out:
            out.add(('none',))
        return out

    def mask(self, t):
        v = 0
        for n in t[5:].split('|'):
            if n: v |= self.masks[n]
        return v

    def show(self, t):
        return 'index %d' % t if isinstance(t, int) else t if isinstance(t, str) else self.T.show(t)

    def judge(self, spec):
        """(number of combinations, built, refused, problems, location) for one builder"""
        rule, doms = self.table[spec]
        cands, lst, arity = find(self.fx, spec)
        want = want_kinds(doms, lst, arity, spec)
        fns = [f for k, f in cands if k == want] or [f for k, f in cands if k.startswith(want) and set(k[len(want):]) <= {'m'}]
        if not fns:
            raise AnalysisError('builder %s with parameters %s not found (has %s)' % (spec, want, [k for k, f in cands]))
        fn = fns[0]
        sets = [self.dom[d] if isinstance(d, str) else d for d in doms]
        kinds = [d if isinstance(d, str) else 'x' for d in doms]
        if arity is not None:
            cut = len([d for d in doms if not (isinstance(d, list) and isinstance(d[0], int))]) + arity
            sets = sets[:cut]; kinds = kinds[:cut]
        n = built = refused = 0
        bad = []
        for ts in itertools.product(*sets):
            n += 1
            exp = rule(*[t for t in ts if not isinstance(t, str)])
            got = self.call(fn, kinds, ts, lst)
            for o in got:
                msg = None
                if o[0] == 'none':
                    msg = 'no path returns (a null pointer is dereferenced)'
                elif o[0] == 'refuse':
                    refused += 1
                    if exp is not None and not isinstance(exp, Maybe):
                        msg = 'refuses them, although the result would be %s' % self.show(exp)
                else:
                    built += 1
                    e = exp.t if isinstance(exp, Maybe) else exp
                    if exp is None:
                        msg = 'builds %s with result type %s, although the operand types are not allowed' % (o[1], self.show(o[2]))
                    elif o[2] != e:
                        msg = 'builds %s with result type %s, the specification gives %s' % (o[1], self.show(o[2]), self.show(e))
                if msg:
                    bad.append('%s on (%s) %s' % (spec.split('/')[0], ', '.join(self.show(t) for t in ts if t != 'mask:'), msg))
        return spec, n, built, refused, bad, fn.loc(), fn.name


_R = None


def _work(spec):
    try:
        return _R.judge(spec)
    except AnalysisError as e:
        return spec, str(e)


def flagfield(fx):
    for q, r in fx.records.items():
        if q.startswith('spvgentwo::Flag<'):
            f = [x['n'] for x in r['fields']]
            if len(f) == 1:
                return f[0]
    raise AnalysisError('the single member of Flag<> is not found')


def validation(fx, rep):
    """ITypeInferenceAndVailation::validateOperands, followed for every opcode: complete instructions pass, those with a missing or unusable operand are refused"""
    from sa import spec
    from sa.live import Live
    from sa.types import MOD
    L = Live(fx)
    f = L.fn('spvgentwo::ITypeInferenceAndVailation', 'validateOperands', 1)
    st, M = L.module()
    err = L.call(st, M, next((g for g in fx.by_cls[MOD] if g.name == 'getErrorInstr' and g.body is not None and not g.d.get('const')), None) or L.fn(MOD, 'getErrorInstr', 0))
    if err is None or err[1][0] != 'p':
        raise AnalysisError('the error instruction is not found')
    st, err = err
    st, v = L.call(st, M, L.fn(MOD, 'addFunction', 0))
    st, v = L.call(st, v[1], L.fn('spvgentwo::Function', 'addBasicBlock', 1), ZERO)
    B = v[1]
    add = L.fn('spvgentwo::BasicBlock', 'addInstruction', 0)
    made = {}
    for nm, op, ops in (('type', 'OpTypeFloat', [('id', ('i', 1)), ('lit', ('i', 32))]), ('value', 'OpUndef', None), ('other', 'OpLabel', [('id', ('i', 3))]), ('self', 'OpNop', [])):
        st, v = L.call(st, B, add)
        made[nm] = v[1]
        if ops is None:
            ops = [('instr', ('p', made['type'])), ('id', ('i', 2))]
        st = L.set_instr(st, v[1], op, ops, 'val' + nm)
    I = made['self']
    core = spec.core()
    images = {o for o in core.insts if o.startswith('OpImage')}
    T = ('instr', ('p', made['type'])); V = ('instr', ('p', made['value'])); ID = ('id', ('i', 9)); LIT = ('lit', ('i', 0))
    n = 0
    for op, d in sorted(core.insts.items()):
        if op not in L.T.op or op in images or op == 'OpNop':
            continue
        kinds = [o['kind'] for o in d.get('operands', [])]
        rt, ri = 'IdResultType' in kinds, 'IdResult' in kinds
        head = ([T] if rt else []) + ([ID] if ri else [])
        cases = [('complete', head + [V, LIT, V], 1), ('alone', head, 1), ('a null operand', head + [V, ('instr', ZERO)], 0), ('an error operand', head + [('instr', err), V], 0), ('an error operand at the end', head + [LIT, V, ('instr', err)], 0),
                 ('a branch to nowhere', head + [V, ('block', ZERO)], 0), ('a branch', head + [V, ('block', ('p', B))], 1)]
        if rt:
            cases += [('no operands', [], 0), ('an error as result type', [('instr', err)] + head[1:] + [V], 0), ('a null result type', [('instr', ZERO)] + head[1:] + [V], 0), ('a value as result type', [V] + head[1:] + [V], 0), ('a label as result type', [('instr', ('p', made['other']))] + head[1:], 0)]
        if ri:
            cases += [('no result id', head[:-1], 0), ('an operand for the result id', head[:-1] + [V, V], 0)]
        for what, ops, want in cases:
            s = L.set_instr(st.fork(), I, op, ops, 'valx')
            r = L.call(s, ('obj', 'tiv'), f, ('ref', I))
            n += 1
            rep.check(r is not None and r[1] == ('i', want), 'validateOperands:%s' % what.replace(' ', '-'), f.loc(), 'validateOperands %s %s with %s' % ('does not return for' if r is None else 'refuses' if want else 'accepts', op, what))
    rep.rule('validateOperands: result type, result id and every operand have to be there and usable; what is complete passes')
    rep.count('instructions validated', n)
    rep.need('instructions validated', n, 3000)


def check(fx, rep):
    global _R
    _R = Runner(fx, rep.tier)
    _R.flagfield = flagfield(fx)
    specs = list(_R.table)
    with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
        res = pool.map(_work, specs, chunksize=1)
    validation(fx, rep)
    rep.rule('result-type: the built instruction has the result type the instruction description prescribes for the operand types')
    rep.rule('operand-types: operand types the description does not allow are refused, the others are built')
    tot = b = r = 0
    for x in res:
        if len(x) == 2:
            raise AnalysisError(x[1])
        spec, n, built, refused, bad, loc, name = x
        tot += n; b += built; r += refused
        for _ in range(n - len(bad)):
            rep.ok()
        if built == 0:
            bad = bad or ['%s is never built for any operand types' % spec]
        for i, m in enumerate(bad[:3]):
            rep.bad('%s#%d' % (spec, i), loc, m + (' (and %d more combinations)' % (len(bad) - 3) if len(bad) > 3 and i == 2 else ''))
        rep.sample('%s: %d operand type combinations, %d built, %d refused' % (spec, n, built, refused))
    rep.count('builders judged', len(specs))
    rep.count('operand type combinations', tot)
    rep.count('combinations built', b)
    rep.need('builders judged', len(specs), 100)

"""C12: types and constants are told apart exactly by what they are.

Equality, hashes, predicates, queries, setters, constructors and wrappers of Type and Constant are propagated over the finite domain of C07
and compared with the terms."""
import itertools, multiprocessing, os, re
from checks import c07
from sa import shape
from sa.absint import ZERO, VOID
from sa.constants import ModTypes, CONST
from sa.facts import AnalysisError
from sa.types import TYPE

FNV0 = 0xcbf29ce484222325; FNVP = 0x100000001b3; M64 = (1 << 64) - 1


def fnv(bs, h=FNV0):
    for b in bs:
        h = ((h ^ b) * FNVP) & M64
    return h


class World:
    def __init__(self, fx, tier):
        self.fx = fx; self.tier = tier
        self.W = W = ModTypes(fx); W.ip.raw = 'all'
        self.T = T = W.T
        self.dom = c07.domain(T, c07.Decode(W))
        i32, u32, f32 = T.int(), T.uint(), T.flt()
        # bracketing: the same flattened sequence of constituents nested differently, and attributes on both sides of a nesting
        S = T.struct
        more = [S(f32, f32, f32), S(S(f32, f32), f32), S(f32, S(f32, f32)), S(S(f32), f32, f32), S(f32, f32, S(f32)), S(S(f32, f32, f32)), S(S(f32), S(f32), f32), S(S(), f32), S(f32, S()), S(S(S())), S(S(), S()), S(S()),
                T.ptr('Uniform', S(f32)), S(T.ptr('Uniform', f32)), S(T.ptr('Function', f32)), T.array(2, S(f32)), S(T.array(2, f32)), T.array(3, T.array(2, f32)), T.array(2, T.array(3, f32)),
                T.vec(2, i32), T.mat(2, 3, T.flt(16)), T.mat(3, 2, T.flt(16)), S(i32, u32), S(u32, i32), T.fn(S(f32), f32), T.fn(S(f32, f32)), T.rtarray(S(f32, i32)),
                T.mat(2, 2, T.flt(64)), T.vec(4, T.flt(64)), T.vec(3, T.int(64)), T.mat(2, 3, u32), T.mat(2, 3, i32), T.vec(3, T.int(16)), T.vec(4, T.uint(8)),
                T.ptr('Function', T.mat(4, 4, f32)), T.ptr('Uniform', T.mat(4, 4, f32)), T.fptr('Uniform', f32)]
        for t in more:
            if t not in self.dom:
                self.dom.append(t)
        self.consts = self.const_domain()

    def const_domain(self):
        T = self.T
        f32, i32, u32, b = T.flt(), T.int(), T.uint(), T.bool()
        sc = lambda t, *w: ('OpConstant', t, tuple(('i', x) for x in w), ())
        comp = lambda t, *c: ('OpConstantComposite', t, (), c)
        A, B = sc(f32, 0x3f800000), sc(f32, 0x40000000)
        v2 = T.vec(2, f32); V, U = comp(v2, A, B), comp(v2, B, A)
        spec = lambda c: (c[0].replace('OpConstant', 'OpSpecConstant'),) + c[1:]
        S = T.struct
        C = [sc(t, w) for t in (f32, i32, u32, T.int(8), T.uint(16)) for w in (0, 1, 2, 0x100, 0x10000, 0x1000000, 0x80000000)]
        C += [sc(t, a, c) for t in (T.int(64), T.uint(64), T.flt(64)) for a, c in ((0, 0), (1, 0), (0, 1), (1, 1), (0xffffffff, 0))]
        C += [('OpConstantTrue', b, (('i', 1),), ()), ('OpConstantFalse', b, (('i', 0),), ())]
        C += [V, U, comp(v2, A, A), comp(v2, B, B), comp(T.vec(3, f32), A, B, A), comp(T.vec(3, f32), A, A, B)]
        C += [comp(T.array(2, v2), V, U), comp(T.array(2, v2), U, V), comp(T.array(2, f32), A, B), comp(S(f32, f32), A, B)]
        C += [comp(S(v2, f32), V, A), comp(S(f32, v2), A, U), comp(S(S(f32, f32), f32), comp(S(f32, f32), A, B), A), comp(S(f32, S(f32, f32)), A, comp(S(f32, f32), B, A))]
        # constituents that differ only in where the inner composite or the data ends
        C += [comp(S(), comp(S(), comp(S())), ), comp(S(), comp(S()), comp(S())), comp(S(), comp(S(), comp(S()), comp(S()))), comp(S(), comp(S(), comp(S(), comp(S())))), comp(S(), comp(S(), comp(S())), comp(S())), comp(S(), comp(S()), comp(S(), comp(S())))]
        C += [('OpConstantNull', t, (), ()) for t in (f32, i32, v2, S(f32, i32), S(i32, f32), T.array(4, f32), T.ptr('Function', f32), T.ptr('Uniform', f32))]
        C += [('OpConstantSampler', T.mk('OpTypeSampler'), tuple(('i', x) for x in p), ()) for p in ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1))]
        C += [spec(c) for c in C if c[0] in ('OpConstant', 'OpConstantTrue', 'OpConstantFalse', 'OpConstantComposite')][::3]
        out = []
        for c in C:
            if c not in out:
                out.append(c)
        return out

    # ------------------------------------------------------------------ running
    def type_at(self, st, t, name):
        L = ('obj', name); self.W.put_at(st, L, t, name)
        return L

    def call(self, fn, this, args, st):
        return self.W.one(fn, st, args, fn.q, this=('p', this))

    def val(self, s, v):
        v = self.W.ip.resolve(s, v)
        if v[0] == 's' and v[1][0] == 'nz':
            t = self.W.ip.truth(s, v[1][1])
            v = v if t is None else ('i', int(t))
        if v[0] != 'i':
            raise AnalysisError('result is not concrete: %s' % (v,))
        return v[1]

    def methods(self, cls, name, pred=lambda f: True):
        fs = [f for f in self.fx.by_cls[cls] if f.name == name and pred(f)]
        if not fs:
            raise AnalysisError('%s::%s not found' % (cls, name))
        return fs

    def ptypes(self, f):
        return [f.tu.types[p['t']].replace('spvgentwo::', '') for p in f.params]

    def hash_fn(self, ta):
        f = [f for f in self.fx.fns.values() if f.q == 'spvgentwo::hash' and f.d.get('ta') == [ta]]
        if len(f) != 1:
            raise AnalysisError('spvgentwo::hash<%s> not found' % ta)
        return f[0]

    def hashed(self, ta, st, arg):
        f = self.hash_fn(ta)
        r = self.W.one(f, st, [arg], f.q, this=ZERO)
        if r is None:
            raise AnalysisError('hash<%s> has no result' % ta)
        s, v = r
        L = v[1]
        rec = self.fx.records['spvgentwo::Hash64']
        x = self.W.ip.load(s, ('f', L, rec['fields'][0]['n']))
        if x[0] != 'i':
            raise AnalysisError('hash<%s> is not concrete' % ta)
        return x[1] & M64

    # ------------------------------------------------------------------ equality and hashes (one worker per left operand)
    def eq_row(self, i):
        T = self.T; bad = []; n = 0
        a = self.dom[i]
        eq = [f for f in self.methods(TYPE, 'operator==') if 'Type' in self.ptypes(f)[0]]
        ne = [f for f in self.methods(TYPE, 'operator!=') if 'Type' in self.ptypes(f)[0]]
        for b in self.dom:
            for f, want in ((eq[0], a == b), (ne[0], a != b)):
                if self.tier == 'quick' and f is ne[0] and a[0] != b[0]:
                    continue
                st = self.W.fresh(); A = self.type_at(st, a, 'A'); B = self.type_at(st, b, 'B')
                r = self.call(f, A, [('ref', B)], st); n += 1
                if r is None or self.val(*r) != int(want):
                    bad.append((f.name, f.loc(), '%s for (%s, %s) %s' % (f.name, T.show(a), T.show(b), 'does not return' if r is None else 'is %d' % self.val(*r))))
        return n, bad

    def hash_of(self, i):
        st = self.W.fresh()
        if i < len(self.dom):
            return self.hashed(TYPE, st, ('ref', self.type_at(st, self.dom[i], 'A')))
        L = ('obj', 'C'); self.W.put_const(st, L, self.consts[i - len(self.dom)], 'c')
        return self.hashed(CONST, st, ('ref', L))


# ---------------------------------------------------------------------- oracles of the predicates over terms
def oracles(T):
    n = lambda t: T.opn[t[0]][6:]
    sub = lambda t, i=0: t[10][i]
    isI = lambda t: n(t) == 'Int'
    isF = lambda t: n(t) == 'Float'
    isB = lambda t: n(t) == 'Bool'
    num = lambda t: isI(t) or isF(t)
    scal = lambda t: num(t) or isB(t)
    isV = lambda t: n(t) == 'Vector'
    isM = lambda t: n(t) == 'Matrix'

    def base(t):
        while t[10]:
            t = t[10][0]
        return t
    signed = lambda t: isI(base(t)) and bool(base(t)[2])

    def sign(t, s):
        """Any: every type; Signed: a signed integer base; Unsigned: an unsigned integer base, undecided (None) for a base without sign"""
        if s == T.sign['Any']:
            return True
        if s == T.sign['Signed']:
            return signed(t)
        return not signed(t) if isI(base(t)) else None

    def both(*xs):
        """conjunction where None is undecided"""
        if any(x is False for x in xs):
            return False
        return None if any(x is None for x in xs) else True

    def either(a, b):
        if a or b:
            return True
        return None if a is None or b is None else False
    vecOf = lambda t, p, l, w, s: both(isV(t), *( [p(sub(t)), l == 0 or t[1] == l, w == 0 or (scal(sub(t)) and sub(t)[1] == w), sign(sub(t), s)] if isV(t) else []))
    op = lambda o: (lambda t: t[0] == o)
    O = {}
    names = {'isVoid': 'Void', 'isBool': 'Bool', 'isStruct': 'Struct', 'isArray': 'Array', 'isRuntimeArray': 'RuntimeArray', 'isImage': 'Image', 'isSampler': 'Sampler', 'isSampledImage': 'SampledImage', 'isVector': 'Vector', 'isMatrix': 'Matrix',
             'isOpaque': 'Opaque', 'isFunction': 'Function', 'isEvent': 'Event', 'isDeviceEvent': 'DeviceEvent', 'isReservedId': 'ReserveId', 'isPipe': 'Pipe', 'isPipeStorage': 'PipeStorage', 'isQueue': 'Queue', 'isRayQueryKHR': 'RayQueryKHR',
             'isAccelerationStructure': 'AccelerationStructureKHR', 'isPointer': 'Pointer', 'isForwardPointer': 'ForwardPointer'}
    for k, v in names.items():
        O[k, 0] = lambda t, v=v: n(t) == v
    for k in ('isPointer', 'isForwardPointer'):
        O[k, 1] = lambda t, sc, v=names[k]: n(t) == v and t[3] == sc
    O['isInt', 2] = lambda t, w, s: both(isI(t), w == 0 or t[1] == w, sign(t, s) if isI(t) else True)
    O['isUInt', 1] = lambda t, w: isI(t) and (w == 0 or t[1] == w) and not t[2]
    O['isSInt', 1] = lambda t, w: isI(t) and (w == 0 or t[1] == w) and bool(t[2])
    for w in (8, 16, 32, 64):
        O['isI%d' % w, 0] = lambda t, w=w: isI(t) and t[1] == w
        O['isU%d' % w, 0] = lambda t, w=w: isI(t) and t[1] == w and not t[2]
        O['isS%d' % w, 0] = lambda t, w=w: isI(t) and t[1] == w and bool(t[2])
        O['isF%d' % w, 0] = lambda t, w=w: isF(t) and t[1] == w
    O['isFloat', 1] = lambda t, w: isF(t) and (w == 0 or t[1] == w)
    O['isNumerial', 0] = num
    O['isScalar', 0] = scal
    O['isAggregate', 0] = lambda t: n(t) in ('Struct', 'Array')
    O['isComposite', 0] = lambda t: n(t) in ('Struct', 'Array', 'Vector', 'Matrix')
    O['hasSign', 1] = sign
    O['isSigned', 0] = signed
    O['isUnsigned', 0] = lambda t: isI(base(t)) and not base(t)[2]
    O['isVectorOf', 4] = lambda t, o, l, w, s: vecOf(t, op(o), l, w, s)
    O['isVectorOfLength', 3] = lambda t, l, w, s: vecOf(t, lambda x: True, l, w, s)
    O['isVectorOfInt', 3] = lambda t, l, w, s: vecOf(t, isI, l, w, s)
    O['isVectorOfSInt', 2] = lambda t, l, w: vecOf(t, isI, l, w, T.sign['Signed'])
    O['isVectorOfUInt', 2] = lambda t, l, w: vecOf(t, isI, l, w, T.sign['Unsigned'])
    O['isVectorOfFloat', 2] = lambda t, l, w: vecOf(t, isF, l, w, T.sign['Any'])
    O['isVectorOfBool', 1] = lambda t, l: vecOf(t, isB, l, 0, T.sign['Any'])
    # the component width says something about scalars only
    O['isScalarOrVectorOf', 4] = lambda t, o, l, w, s: either(both(t[0] == o, w == 0 or (t[1] == w if scal(t) else None), sign(t, s)), vecOf(t, op(o), l, w, s))
    O['isNumericalScalarOrVector', 3] = lambda t, l, w, s: either(both(num(t), w == 0 or t[1] == w, sign(t, s)), vecOf(t, num, l, w, s))
    cw = lambda a, b: base(a)[1] == base(b)[1]
    O['hasSameVectorLength', 1] = lambda t, u: isV(t) and isV(u) and t[1] == u[1]
    O['hasSameVectorLength', 2] = lambda t, u, o: isV(t) and isV(u) and t[1] == u[1] and sub(t)[0] == o and sub(u)[0] == o
    O['isScalarOrVectorOfSameLength', 2] = lambda t, u, w: (not w or cw(t, u)) and ((isV(t) and isV(u) and t[1] == u[1]) or (scal(t) and scal(u)))
    O['isScalarOrVectorOfSameLength', 3] = lambda t, o, u, w: (not w or cw(t, u)) and ((isV(t) and isV(u) and t[1] == u[1] and sub(t)[0] == o and sub(u)[0] == o) or (scal(t) and scal(u) and t[0] == o and u[0] == o))
    O['hasSameComponentWidth', 1] = lambda t, u: num(base(t)) and num(base(u)) and cw(t, u)
    matOf = lambda t, p, c, r, w, s: both(isM(t), *([p(base(t)), c == 0 or t[1] == c, r == 0 or sub(t)[1] == r, w == 0 or base(t)[1] == w, sign(t, s)] if isM(t) else []))
    O['isMatrixOf', 5] = lambda t, o, c, r, w, s: matOf(t, op(o), c, r, w, s)
    O['isMatrixOfFloat', 3] = lambda t, c, r, w: matOf(t, isF, c, r, w, T.sign['Any'])
    O['isMatrixOfInt', 4] = lambda t, c, r, w, s: matOf(t, isI, c, r, w, s)
    O['isSqareMatrix', 0] = lambda t: isM(t) and t[1] == sub(t)[1]
    O['isSqareMatrixOf', 1] = lambda t, o: isM(t) and t[1] == sub(t)[1] and base(t)[0] == o
    O['isBaseTypeOf', 1] = lambda t, o: base(t)[0] == o
    O['hasSameBase', 2] = lambda t, u, only: base(t)[0] == base(u)[0] if only else base(t) == base(u)

    def contains(t, p):
        return p(t) or any(contains(x, p) for x in t[10])
    O['containsType', 'Op'] = lambda t, o: contains(t, lambda x: x[0] == o)
    O['containsType', 'Type'] = lambda t, u: contains(t, lambda x: x == u)
    N = {'getScalarOrVectorLength': lambda t: 1 if scal(t) else t[1] if isV(t) else 0, 'getMatrixRowCount': lambda t: sub(t)[1] if isM(t) else 0, 'getBaseTypeOp': lambda t: base(t)[0],
         'getType': lambda t: t[0], 'getIntWidth': lambda t: t[1], 'getFloatWidth': lambda t: t[1], 'getImageDepth': lambda t: t[1], 'getVectorComponentCount': lambda t: t[1], 'getMatrixColumnCount': lambda t: t[1], 'getArrayLength': lambda t: t[1],
         'getIntSign': lambda t: t[2], 'getStorageClass': lambda t: t[3], 'getImageDimension': lambda t: t[4], 'getImageArray': lambda t: t[5], 'getImageMultiSampled': lambda t: t[6], 'getImageSamplerAccess': lambda t: t[7],
         'getImageFormat': lambda t: t[8], 'getAccessQualifier': lambda t: t[9]}
    for k, v in N.items():
        O[k, 0] = v
    return O, base


def values(T, ps):
    """argument domain by parameter type"""
    out = []
    for i, p in enumerate(ps):
        p = p.replace('const ', '').strip()
        if p == 'spv::Op':
            out.append([T.op[x] for x in ('OpTypeFloat', 'OpTypeInt', 'OpTypeBool', 'OpTypeVector', 'OpTypeStruct')])
        elif p == 'Sign':
            out.append([T.sign[x] for x in T.sign if x in ('Any', 'Signed', 'Unsigned')])
        elif p == 'spv::StorageClass':
            out.append([T.sc['Uniform'], T.sc['Function'], T.sc['Generic']])
        elif p == 'bool':
            out.append([0, 1])
        elif p == 'unsigned int':
            out.append([0, 2, 3, 4, 16, 32, 64] if len(ps) < 4 else [0, 2, 3, 32])
        elif p == 'Type &':
            out.append('type')
        else:
            return None
    return out


_C = None


class Check:
    def __init__(self, fx, rep):
        self.fx = fx; self.rep = rep
        self.X = World(fx, rep.tier); self.W = self.X.W; self.T = self.X.T

    show = c07.Check.show

    # -------------------------------------------------------------- equality, hashes
    def equality(self, pool):
        rep, X, T = self.rep, self.X, self.T
        tot = 0
        for n, bad in pool.map(_row, range(len(X.dom)), chunksize=4):
            tot += n; rep.ok(n - len(bad))
            for name, loc, m in bad[:2]:
                rep.bad('equality/%s/%s' % (name, m), loc, m)
        rep.count('comparisons of types', tot)
        h = pool.map(_hash, range(len(X.dom) + len(X.consts)), chunksize=4)
        loc = {TYPE: self.hashloc(TYPE), CONST: self.hashloc(CONST)}
        for what, cls, objs, hs in (('type', TYPE, X.dom, h[:len(X.dom)]), ('constant', CONST, X.consts, h[len(X.dom):])):
            seen = {}
            sh = (lambda t: T.show(t)) if cls == TYPE else (lambda c: self.show(("const", c)))
            for o, x in zip(objs, hs):
                if isinstance(x, str):
                    raise AnalysisError(x)
                p = seen.setdefault(x, o)
                rep.check(p == o, 'hash/%s/%s' % (what, sh(o)), loc[cls], 'the %ss %s and %s have the same hash, the module maps, which compare hashes, take one for the other' % (what, sh(o), sh(p)))
            rep.count('%ss hashed' % what, len(objs))
        # the hash of a copy, and of an equal object built elsewhere with another allocator, is the same
        for t in X.dom[::7]:
            st = self.W.fresh(); L = X.type_at(st, t, 'elsewhere')
            st.mem[('f', ('f', L, self.W.sub), 'm_pAllocator')] = ('p', ('obj', 'alloc2')); st.facts[('nz', ('p', ('obj', 'alloc2')))] = True
            rep.check(X.hashed(TYPE, st, ('ref', L)) == h[X.dom.index(t)], 'hash/copy/' + T.show(t), loc[TYPE], 'the hash of %s depends on something else than the type' % T.show(t))

    def hashloc(self, cls):
        f = self.fx.by_cls.get('spvgentwo::Hasher<%s>' % cls)
        if not f:
            raise AnalysisError('Hasher<%s> not found' % cls)
        return f[0].loc()

    def bytes(self):
        """FNV-1a over strings, words, enums and strings of both kinds"""
        rep, X, W = self.rep, self.X, self.W
        fx = self.fx
        strs = ['', 'a', 'b', 'ab', 'ba', 'GLSL.std.450', 'main', 'x' * 33, '\xe4\xff\x80']
        for s in strs:
            want = fnv(s.encode('latin-1'))
            f = X.hash_fn('const char *')
            st = W.fresh(); L = ('obj', 'p'); st.mem[L] = ('p', ('strl', s)) if s else ('p', ('strl', ''))
            got = X.hashed('const char *', st, ('ref', L))
            rep.check(got == want, 'fnv/cstr/%r' % s, f.loc(), 'the hash of the characters %r is not their FNV-1a hash' % s)
            st = W.fresh(); L = ('obj', 'str'); B = ('new', 'chars')
            flds = self.string_fields()
            bs = s.encode('latin-1') + b'\0'
            for i, c in enumerate(bs):
                st.mem[W.ip.idx(B, ('i', i))] = ('i', c - 256 if c > 127 else c)
            st.mem[('f', L, flds[0])] = ('p', B); st.mem[('f', L, flds[1])] = ('i', len(bs)); st.mem[('f', L, flds[2])] = ('i', len(bs))
            got = X.hashed('spvgentwo::String', st, ('ref', L))
            rep.check(got == want, 'fnv/String/%r' % s, X.hash_fn('spvgentwo::String').loc(), 'the hash of the String %r differs from that of the same characters' % s)
        for v in (0, 1, 0x80, 0xff, 0x100, 0x12345678, 0x80000000, 0xffffffff):
            st = W.fresh(); L = ('obj', 'u'); st.mem[L] = ('i', v)
            rep.check(X.hashed('unsigned int', st, ('ref', L)) == fnv(v.to_bytes(4, 'little')), 'fnv/word/%x' % v, X.hash_fn('unsigned int').loc(), 'the hash of the word %#x is not the FNV-1a hash of its bytes' % v)
        add = fx.method('spvgentwo::FNV1aHasher', 'add')
        hf = [f['n'] for f in fx.records['spvgentwo::FNV1aHasher']['fields']][0]; vf = fx.records['spvgentwo::Hash64']['fields'][0]['n']
        for bs in (b'', b'\0', b'\1\2\3', bytes(range(250, 256)) + b'\0\0'):
            st = W.fresh(); H = ('obj', 'hasher'); st.mem[('f', ('f', H, hf), vf)] = ('i', FNV0)
            B = ('new', 'raw')
            for i, c in enumerate(bs):
                st.mem[W.ip.idx(B, ('i', i))] = ('i', c - 256 if c > 127 else c)
            r = W.one(add, st, [('p', B), ('i', len(bs))], 'add', this=('p', H))
            got = None if r is None else W.ip.load(r[0], ('f', ('f', H, hf), vf))
            rep.check(got is not None and got[0] == 'i' and got[1] & M64 == fnv(bs), 'fnv/add/%r' % bs, add.loc(), 'FNV1aHasher::add does not hash exactly the bytes %r' % bs)
        rep.count('byte sequences hashed', 2 * len(strs) + 12)
        # two words make one key
        two = [f for f in fx.by_cls['spvgentwo::Hash64'] if f.name == 'Hash64' and len(f.params) == 2]
        if not two:
            raise AnalysisError('Hash64(low, high) not found')
        for lo, hi in ((0, 0), (1, 0), (0, 1), (0x80000000, 0), (0, 0x80000000), (0xffffffff, 7), (7, 0xffffffff)):
            st = W.fresh(); L = ('obj', 'h64')
            r = W.one(two[0], st, [('i', lo), ('i', hi)], 'Hash64', this=('p', L))
            got = W.ip.load(r[0], ('f', L, vf)) if r else None
            rep.check(got is not None and got[0] == 'i' and got[1] & M64 == (lo | hi << 32), 'hash64/%x/%x' % (lo, hi), two[0].loc(), 'Hash64(%#x, %#x) is not the two words side by side' % (lo, hi))

    def string_fields(self):
        from sa.constants import field_of
        fx = self.fx
        V = [b for b in fx.records['spvgentwo::String']['bases']]
        cls = 'spvgentwo::Vector<char>'
        n = lambda a: field_of(fx, cls, a)
        cap = [f['n'] for f in fx.records[cls]['fields'] if f['n'] not in (n('data'), n('size'))]
        cap = [c for c in cap if 'lloc' not in c]
        return n('data'), n('size'), cap[0]

    # -------------------------------------------------------------- predicates
    def predicates(self, pool):
        rep, X = self.rep, self.X
        O, _ = oracles(self.T)
        jobs = []
        known = 0; unknown = []
        for f in self.fx.by_cls[TYPE]:
            if not f.d.get('const') or f.name in ('operator==', 'operator!='):
                continue
            key = (f.name, len(f.params)); ps = X.ptypes(f)
            if f.name == 'containsType':
                key = (f.name, 'Op' if 'Op' in ps[0] else 'Type')
            if key in O and values(self.T, ps) is not None:
                jobs.append((f.id, key)); known += 1
            else:
                unknown.append(f.name)
        res = pool.map(_pred, jobs, chunksize=1)
        tot = 0
        for (fid, key), r in zip(jobs, res):
            if isinstance(r, str):
                raise AnalysisError(r)
            n, bad = r
            tot += n; rep.ok(n - len(bad))
            f = self.fx.fns[fid]
            for m in bad[:3]:
                rep.bad('predicate/%s/%s' % (f.name, m), f.loc(), m)
        rep.count('predicates and queries', known); rep.count('evaluations of predicates and queries', tot)
        rep.need('predicates and queries', known, 90)
        rep.sample('queries without an oracle here (judged elsewhere or trivially forwarded): %s' % sorted(set(unknown)))

    def run_pred(self, fid, key):
        X, T, W = self.X, self.T, self.W
        O, _ = oracles(T)
        f = self.fx.fns[fid]; orc = O[key]
        vals = values(T, X.ptypes(f))
        n = skip = 0; bad = []
        small = X.dom if self.rep.tier == 'thorough' else [t for i, t in enumerate(X.dom) if i < 60 or i % 5 == 0]
        other = small if 'type' in vals else []
        rng = [small[::1 if self.rep.tier == 'thorough' else 2] if v == 'type' else v for v in vals]
        size = 1
        for v in rng:
            size *= len(v)
        # types that can satisfy the predicate at all get all arguments, the others a few
        for t in small:
            combos = itertools.product(*rng)
            opn = T.opn[t[0]]
            if size > 60 and opn not in ('OpTypeInt', 'OpTypeFloat', 'OpTypeBool', 'OpTypeVector', 'OpTypeMatrix') and 'type' not in vals:
                combos = list(combos)[::17]
            for args in combos:
                if len(args) > 1 and 'type' in vals and opn not in ('OpTypeInt', 'OpTypeFloat', 'OpTypeBool', 'OpTypeVector', 'OpTypeMatrix', 'OpTypeStruct'):
                    skip += 1
                    if skip % 5:
                        continue
                want = orc(t, *args)
                if want is None:
                    continue
                st = W.fresh(); A = X.type_at(st, t, 'A'); a = []
                for k, v in zip(vals, args):
                    a.append(('ref', X.type_at(st, v, 'B')) if k == 'type' else ('i', v))
                r = X.call(f, A, a, st); n += 1
                got = None if r is None else X.val(*r)
                if got is None or (got != want if isinstance(want, int) and not isinstance(want, bool) else bool(got) != want):
                    bad.append('%s.%s(%s) %s instead of %s' % (T.show(t), f.name, ', '.join(T.show(v) if isinstance(v, tuple) else str(v) for v in args), 'does not return' if got is None else 'is %s' % got, int(want)))
        return n, bad

    # -------------------------------------------------------------- subtypes
    def queries(self):
        rep, X, T, W = self.rep, self.X, self.T, self.W
        O, base = oracles(T)
        for f in X.methods(TYPE, 'getBaseType'):
            for t in X.dom[::3]:
                st = W.fresh(); A = X.type_at(st, t, 'A')
                r = X.call(f, A, [], st)
                g = W.read(r[0], r[1][1]) if r else None
                rep.check(g == base(t), 'getBaseType/' + T.show(t), f.loc(), 'getBaseType of %s is %s' % (T.show(t), T.show(g)))
        for nm, i in (('front', 0), ('back', -1)):
            for f in X.methods(TYPE, nm):
                for t in X.dom:
                    if t[10]:
                        st = W.fresh(); A = X.type_at(st, t, 'A'); r = X.call(f, A, [], st)
                        g = W.read(r[0], r[1][1]) if r else None
                        rep.check(g == t[10][i], '%s/%s' % (nm, T.show(t)), f.loc(), '%s of %s is %s' % (nm, T.show(t), T.show(g)))

        def sub(t, path):
            """None: no such subtype; 'any': the documentation leaves it open"""
            for i in path:
                n = T.opn[t[0]]
                if not t[10]:
                    return None
                if n == 'OpTypeStruct':
                    if i >= len(t[10]):
                        return None
                    t = t[10][i]
                elif len(t[10]) == 1:
                    if n in ('OpTypeVector', 'OpTypeMatrix', 'OpTypeArray') and i >= t[1]:
                        return 'any'
                    t = t[10][0]
                else:
                    if i >= len(t[10]):
                        return 'any'
                    t = t[10][i]
            return t
        n = 0
        LT = 'spvgentwo::List<unsigned int>'
        for f in X.methods(TYPE, 'getSubType'):
            ps = X.ptypes(f)
            lst = 'List' in ps[0]
            for t in X.dom:
                paths = [p for k in ((1, 2, 3) if lst else (len(ps),)) for p in itertools.product((0, 1, 2, 5), repeat=k)]
                if not t[10]:
                    paths = paths[::7]
                for p in paths:
                    want = sub(t, p)
                    if want == 'any':
                        continue
                    st = W.fresh(); A = X.type_at(st, t, 'A')
                    if lst:
                        L = ('obj', 'path')
                        for l, v in zip(shape.mklist(st, L, ['pi%d' % i for i in range(len(p))]), p):
                            st.mem[l] = ('i', v)
                        a = [('ref', L)]
                    else:
                        a = [('i', v) for v in p]
                    r = X.call(f, A, a, st); n += 1
                    g = self.iter_type(r)
                    rep.check(g == want, 'getSubType/%s/%s/%d' % (T.show(t), p, lst), f.loc(), 'getSubType(%s) of %s %s' % (', '.join(map(str, p)), T.show(t), 'dereferences null' if g == 'null' else 'is %s instead of %s' % (T.show(g) if g else 'nothing', T.show(want) if want else 'nothing')))
        rep.count('subtype paths', n)
        rep.need('subtype paths', n, 500)

    def iter_type(self, r):
        if r is None:
            return 'null'
        s, v = r
        ip = self.W.ip
        L = v[1]
        rec = [k for k in s.mem.below(L) if s.mem[k][0] in ('p', 'i')] if L not in s.mem else [L]
        if len(rec) != 1:
            raise AnalysisError('iterator is not a single pointer')
        p = s.mem[rec[0]]
        if p == ZERO:
            return None
        return self.W.read(s, ('f', p[1], 'm_data'))

    def strings(self):
        rep, X, T, W = self.rep, self.X, self.T, self.W
        f = X.methods(TYPE, 'getString')[0]
        O, base = oracles(T)

        def sname(t):
            n = T.opn[t[0]]
            if n == 'OpTypeBool':
                return 'bool'
            if n == 'OpTypeInt' and t[1] in (8, 16, 32, 64):
                return ('int%d' if t[2] else 'uint%d') % t[1]
            return {16: 'half', 32: 'float', 64: 'double'}.get(t[1]) if n == 'OpTypeFloat' else None
        fixed = {'Void': 'void', 'Array': 'array', 'RuntimeArray': 'runtime_array', 'Struct': 'struct', 'Image': 'image', 'SampledImage': 'sampled_image', 'Sampler': 'sampler', 'Pointer': 'pointer', 'ForwardPointer': 'forward_pointer', 'Function': 'function',
                 'Event': 'event', 'DeviceEvent': 'device_event', 'Queue': 'queue', 'Pipe': 'pipe', 'PipeStorage': 'pipe_storage', 'RayQueryKHR': 'ray_query_khr', 'AccelerationStructureKHR': 'acceleration_structure_khr'}
        dom = list(X.dom)
        for b in [T.bool()] + [T.int(w, s) for w in (8, 16, 32, 64) for s in (0, 1)] + [T.flt(w) for w in (16, 32, 64)]:
            dom += [T.vec(k, b) for k in (2, 3, 4)] + [T.mat(c, r, b) for c in (2, 3, 4) for r in (2, 3, 4)]
        seen = {}
        for t in dom:
            n = T.opn[t[0]]
            want = fixed.get(n[6:]) or sname(t)
            if n == 'OpTypeVector' and t[1] in (2, 3, 4) and sname(t[10][0]):
                want = '%s_%d' % (sname(t[10][0]), t[1])
            if n == 'OpTypeMatrix' and sname(base(t)):
                want = '%s_%dx%d' % (sname(base(t)), t[1], t[10][0][1])
            if want is None:
                continue
            st = W.fresh(); A = X.type_at(st, t, 'A')
            r = X.call(f, A, [], st)
            v = r[1] if r else None
            got = v[1] if v and v[0] == 'str' else v[1][1] if v and v[0] == 'p' and v[1][0] == 'strl' else None
            rep.check(got == want, 'getString/' + T.show(t), f.loc(), 'getString of %s is %r instead of %r' % (T.show(t), got, want))
            rep.count('type names')

    # -------------------------------------------------------------- mutators
    def dirty(self):
        T = self.T
        t = list(T.image(T.struct(T.int(), T.flt()), dim='Cube', depth=7, array=1, ms=1, access='Storage' if 'Storage' in T.acc else 'Unknown', fmt='R32ui', qual='WriteOnly'))
        t[2] = 1; t[3] = T.sc['Uniform']
        return tuple(t)

    def mutators(self):
        rep, X, T, W = self.rep, self.X, self.T, self.W
        G = self.G = 'spvgentwo::'
        f32, i32 = T.flt(), T.int()
        E = T.vec(3, f32)
        img = T.image(f32, dim='Cube', depth=2, array=1, ms=1, access='Sampled' if 'Sampled' in T.acc else 'Unknown', fmt='R32ui', qual='ReadOnly')
        n = [0]

        def go(f, start, args, want, ret=None, key=''):
            """run on a type with every attribute set; want: term afterwards"""
            st = W.fresh(); A = X.type_at(st, start, 'A'); al = ('f', ('f', A, W.sub), 'm_pAllocator')
            a = [x(st) if callable(x) else ('i', x) for x in args]
            r = X.call(f, A, a, st); n[0] += 1
            k = 'mutator/%s/%d%s' % (f.name, len(f.params), key)
            if not rep.check(r is not None, k, f.loc(), '%s does not return' % f.name):
                return
            s, v = r
            g = W.read(s, A)
            rep.check(g == want, k + '/type', f.loc(), '%s on %s leaves %s instead of %s' % (f.name + key, T.show(start), T.show(g), T.show(want)))
            if ret is not None:
                # what the returned reference denotes: this type itself, or the subtype it promises
                ok = v[0] in ('ref', 'p', 'o') and (v[1] == A) == (ret == 'this')
                if ret == 'last':
                    p = W.ip.load(s, ('f', ('f', A, W.sub), 'm_pLast'))
                    ok = v[0] in ('ref', 'p', 'o') and p[0] == 'p' and v[1] == ('f', p[1], 'm_data')
                rep.check(ok, k + '/result', f.loc(), '%s returns %s' % (f.name + key, 'another type than itself' if ret == 'this' else 'another type than the new subtype'))
            rep.check(W.ip.load(s, al) == W.alloc, k + '/alloc', f.loc(), '%s loses the allocator' % f.name)
        ref = lambda t, name='E': (lambda st: ('p', X.type_at(st, t, name)))
        nul = lambda st: ZERO
        D = self.dirty()
        m = lambda name, np=None, pred=lambda f: True: [f for f in X.methods(TYPE, name, lambda f: (np is None or len(f.params) == np) and pred(f))]
        one = lambda *a: m(*a)[0]
        for name, t in (('Void', T.void()), ('Bool', T.bool()), ('Double', T.flt(64)), ('Function', T.mk('OpTypeFunction')), ('Sampler', T.mk('OpTypeSampler')), ('Event', T.mk('OpTypeEvent')), ('DeviceEvent', T.mk('OpTypeDeviceEvent')), ('ReserveId', T.mk('OpTypeReserveId')),
                        ('Queue', T.mk('OpTypeQueue')), ('Pipe', T.mk('OpTypePipe')), ('PipeStorage', T.mk('OpTypePipeStorage')), ('NamedBarrier', T.mk('OpTypeNamedBarrier')), ('RayQueryKHR', T.mk('OpTypeRayQueryKHR')), ('AccelerationStructureKHR', T.mk('OpTypeAccelerationStructureKHR'))):
            go(one(name, 0), D, [], t, 'this')
        for w in (8, 16, 32, 64):
            for s in (0, 1):
                go(one('Int', 2), D, [w, s], T.int(w, s), 'this', '(%d, %d)' % (w, s))
                go(one('Scalar', 3), D, [T.op['OpTypeInt'], w, s], T.int(w, s), 'this', '(Int, %d, %d)' % (w, s))
            go(one('UInt', 1), D, [w], T.uint(w), 'this'); go(one('Float', 1), D, [w], T.flt(w), 'this')
            go(one('Scalar', 3), D, [T.op['OpTypeFloat'], w, 0], T.flt(w), 'this', '(Float, %d)' % w)
        go(one('reset', 0), D, [], T.void())
        pa = lambda t: T.struct(t, E)
        for sub_, a in (((), nul), ((E,), ref(E))):
            k = '(%s)' % ('element' if sub_ else 'no element')
            for x in (0, 1, 7, 70000):
                go(one('Vector', 2), D, [x, a], T.mk('OpTypeVector', x, subs=sub_), 'this', k); go(one('Matrix', 2), D, [x, a], T.mk('OpTypeMatrix', x, subs=sub_), 'this', k)
                go(one('Array', 2), D, [x, a], T.mk('OpTypeArray', x, subs=sub_), 'this', k)
            for s in ('Uniform', 'Function', 'Input'):
                go(one('Pointer', 2), D, [T.sc[s], a], T.mk('OpTypePointer', sc=s, subs=sub_), 'this', k); go(one('ForwardPointer', 2), D, [T.sc[s], a], T.mk('OpTypeForwardPointer', sc=s, subs=sub_), 'this', k)
            for st_ in m('Struct', 1, lambda f: '*' in X.ptypes(f)[0]):
                go(st_, D, [a], T.mk('OpTypeStruct', subs=sub_), 'this', k)
            go(one('RuntimeArray', 1), D, [a], T.mk('OpTypeRuntimeArray', subs=sub_), 'this', k)
            for f in m('SampledImage', 1, lambda f: '*' in X.ptypes(f)[0]):
                go(f, D, [a], T.mk('OpTypeSampledImage', subs=sub_), 'this', k)
            B = T.struct(i32)
            new = sub_ or (T.void(),)
            go(one('Member', 1), B, [a], T.struct(i32, *new), 'last', k); go(one('MemberM', 1), B, [a], T.struct(i32, *new), 'this', k)
            go(one('VectorM', 2), B, [3, a], T.struct(i32, T.mk('OpTypeVector', 3, subs=sub_)), 'this', k)
            go(one('ArrayM', 2), B, [5, a], T.struct(i32, T.mk('OpTypeArray', 5, subs=sub_)), 'this', k); go(one('RuntimeArrayM', 1), B, [a], T.struct(i32, T.mk('OpTypeRuntimeArray', subs=sub_)), 'this', k)
            go(one('Matrix', 3), D, [3, 4, a], T.mk('OpTypeMatrix', 3, subs=(T.mk('OpTypeVector', 4, subs=sub_),)), 'this', k)
        B = T.struct(i32)
        go(one('VoidM', 0), B, [], T.struct(i32, T.void()), 'this'); go(one('BoolM', 0), B, [], T.struct(i32, T.bool()), 'this'); go(one('DoubleM', 0), B, [], T.struct(i32, T.flt(64)), 'this')
        go(one('IntM', 2), B, [16, 0], T.struct(i32, T.int(16, 0)), 'this'); go(one('IntM', 2), B, [64, 1], T.struct(i32, T.int(64, 1)), 'this'); go(one('UIntM', 1), B, [16], T.struct(i32, T.uint(16)), 'this'); go(one('FloatM', 1), B, [16], T.struct(i32, T.flt(16)), 'this')
        go(one('VectorElement', 1), D, [3], T.mk('OpTypeVector', 3, subs=(T.void(),)), 'last'); go(one('ArrayElement', 1), D, [3], T.mk('OpTypeArray', 3, subs=(T.void(),)), 'last')
        go(one('RuntimeArrayElement', 0), D, [], T.mk('OpTypeRuntimeArray', subs=(T.void(),)), 'last'); go(one('MatrixColumn', 1), D, [3], T.mk('OpTypeMatrix', 3, subs=(T.mk('OpTypeVector', 0),)), 'last')
        # description structs
        q = {f.name: f for f in self.fx.by_cls[TYPE]}
        dyn = self.dyn
        for f in m('Scalar', 1):
            for t in (i32, T.uint(16), T.flt(64)):
                go(f, D, [dyn('dyn_scalar_t', t)], t, 'this', ' of a description')
        for f in m('Vector', 1):
            for t in (T.vec(3, i32), T.vec(2, T.flt(64))):
                go(f, D, [dyn('dyn_vector_t', t)], t, 'this', ' of a description')
        for f in m('Matrix', 1):
            for t in (T.mat(3, 2, f32), T.mat(2, 4, T.flt(64))):
                go(f, D, [dyn('dyn_matrix_t', t)], t, 'this', ' of a description')
        for f in m('Image', 1):
            for t in (T.image(f32), img):
                go(f, D, [dyn('dyn_image_t', t)], t, 'this', ' of a description')
        for f in m('Image', 8):
            for t in (T.image(f32), img, T.image(T.uint(), dim='Buffer', depth=0, array=1), T.image(i32, ms=1, depth=1)):
                go(f, D, [dyn('dyn_scalar_t', t[10][0]), t[4], t[1], t[5], t[6], t[7], t[8], t[9]], t, 'this', ' of single properties')
        for f in m('SampledImage', 1, lambda f: 'dyn_image_t' in X.ptypes(f)[0]):
            go(f, D, [dyn('dyn_image_t', img)], T.simage(img), 'this', ' of a description')
        # setters: exactly one attribute
        for i, (name, vs) in {1: ('setIntWidth', (8, 70000)), 2: ('setIntSign', (0, 1)), 3: ('setStorageClass', (0, 5)), 4: ('setImageDimension', (0, 3)), 5: ('setImageArray', (0, 1)), 6: ('setImageMultiSampled', (0, 1)), 7: ('setImageSamplerAccess', (0, 1, 2)),
                              8: ('setImageFormat', (0, 33)), 9: ('setAccessQualifier', (0, 2))}.items():
            for nm in (name,) if i != 1 else ('setIntWidth', 'setFloatWidth', 'setImageDepth', 'setVectorComponentCount', 'setMatrixColumnCount', 'setArrayLength'):
                for f in m(nm, 1):
                    for v in vs:
                        go(f, D, [v], D[:i] + (v,) + D[i + 1:], None, '(%d)' % v)
        for f in m('setType', 1):
            go(f, D, [T.op['OpTypeInt']], (T.op['OpTypeInt'],) + D[1:], None, '(OpTypeInt)')
            go(f, D, [T.op['OpIAdd']], D, None, '(OpIAdd)')
        for f in m('setSign', 1):
            go(f, T.vec(3, T.int(32, 0)), [1], T.vec(3, T.int(32, 1)), None, '(true)'); go(f, T.vec(3, T.int(32, 1)), [0], T.vec(3, T.int(32, 0)), None, '(false)'); go(f, T.int(32, 1), [0], T.int(32, 0), None, '(false)')
        rep.count('mutators run', n[0])

    def dyn(self, cls, t):
        """description struct of the public interface holding the attributes of t"""
        def put(st, L, cls, t):
            F = [f['n'] for f in self.fx.records['spvgentwo::' + cls]['fields']]
            V = {'dyn_scalar_t': [t[0], t[1], t[2]], 'dyn_vector_t': [('dyn_scalar_t', t[10] and t[10][0]), t[1]], 'dyn_matrix_t': [('dyn_vector_t', t[10] and t[10][0]), t[1]],
                 'dyn_image_t': [('dyn_scalar_t', t[10] and t[10][0]), t[4], t[1], t[5], t[6], t[7], t[8], t[9]]}[cls]
            for n, v in zip(F, V):
                if isinstance(v, tuple):
                    put(st, ('f', L, n), v[0], v[1])
                else:
                    st.mem[('f', L, n)] = ('i', v)

        def mk(st):
            L = ('obj', 'dyn%d' % st.fresh()); put(st, L, cls, t)
            return ('ref', L)
        return mk

    def formats(self):
        rep, X, T, W = self.rep, self.X, self.T, self.W
        f = X.methods(TYPE, 'fromImageFormat')[0]
        for name, v in T.fmt.items():
            if name == 'Max':
                continue
            mt = re.fullmatch(r'(Rgba|Rg|R)(8|16|32|64)(f|i|ui|Snorm|)', name)
            for nf in (0, 1):
                if mt:
                    ch = len(mt.group(1)); bits = int(mt.group(2)); k = mt.group(3)
                    el = [T.flt(bits)] if k == 'f' else [T.int(bits, 1)] if k == 'i' else [T.int(bits, 0)] if k == 'ui' else [T.flt(bits)] if nf else [T.int(bits, 1)] if k == 'Snorm' else [T.int(bits, 0), T.int(bits, 1)]
                    want = [e if ch == 1 else T.vec(ch, e) for e in el]
                else:
                    want = [T.void()]
                st = W.fresh(); A = X.type_at(st, self.dirty(), 'A')
                r = X.call(f, A, [('i', v), ('i', nf)], st)
                g = W.read(r[0], A) if r else None
                rep.check(g in want, 'fromImageFormat/%s/%d' % (name, nf), f.loc(), 'fromImageFormat(%s, %s) is %s instead of %s' % (name, bool(nf), T.show(g), T.show(want[0])))
                rep.count('image formats')

    def wraps(self):
        rep, X, T, W = self.rep, self.X, self.T, self.W
        dom = [T.flt(), T.vec(3, T.flt()), T.struct(T.int(), T.flt()), T.image(T.flt(), array=1), T.mk('OpTypeStruct')]
        n = 0
        for name, args, mk in (('wrap', [T.op['OpTypeRuntimeArray']], lambda t: T.rtarray(t)), ('wrap', [T.op['OpTypeSampledImage']], lambda t: T.simage(t)), ('moveWrap', [T.op['OpTypeStruct']], lambda t: T.struct(t)),
                               ('wrapPointer', [T.sc['Uniform']], lambda t: T.ptr('Uniform', t)), ('wrapPointer', [T.sc['Function']], lambda t: T.ptr('Function', t)), ('wrapVector', [3], lambda t: T.vec(3, t)), ('wrapMatrix', [4], lambda t: T.mk('OpTypeMatrix', 4, subs=(t,))),
                               ('wrapArray', [9], lambda t: T.array(9, t)), ('wrapStruct', [], lambda t: T.struct(t)), ('New', [], lambda t: T.void())):
            f = X.methods(TYPE, name)[0]
            for t in dom:
                st = W.fresh(); A = X.type_at(st, t, 'A')
                r = X.call(f, A, [('i', a) for a in args], st); n += 1
                g = W.read(r[0], r[1][1]) if r else None
                rep.check(g == mk(t), 'wrap/%s/%s' % (name, T.show(t)), f.loc(), '%s of %s is %s' % (name, T.show(t), T.show(g)))
                if r and name != 'moveWrap':
                    rep.check(W.read(r[0], A) == t, 'wrap/%s/%s/source' % (name, T.show(t)), f.loc(), '%s changes the type it is called on' % name)
                if r:
                    al = W.ip.load(r[0], ('f', ('f', r[1][1], W.sub), 'm_pAllocator'))
                    rep.check(al == W.alloc, 'wrap/%s/alloc' % name, f.loc(), '%s does not pass on the allocator' % name)
        rep.count('wrappings', n)

    # -------------------------------------------------------------- copies
    def copies(self):
        rep, X, T, W = self.rep, self.X, self.T, self.W
        n = 0
        D = self.dirty()
        tdom = X.dom[::4] + [D]
        for cls, dom, put, read, sh in ((TYPE, tdom, W.put_at, W.read, T.show), (CONST, X.consts[::3], W.put_const, W.read_const, lambda c: self.show(('const', c)))):
            short = cls.split('::')[-1]
            fs = [f for f in self.fx.by_cls[cls] if (f.name == 'operator=' or f.d.get('ctor')) and len(f.params) == 1 and cls in f.tu.types[f.params[0]['t']]]
            rep.need('copy and move operations of ' + short, len(fs), 4)
            for f in fs:
                move = '&&' in f.tu.types[f.params[0]['t']]
                asg = f.name == 'operator='
                what = '%s %s of %s' % ('move' if move else 'copy', 'assignment' if asg else 'construction', short)
                for x in dom:
                    old = [None] if not asg else [D, T.void()] if cls == TYPE else [X.consts[0], X.consts[45]]
                    for o in old:
                        st = W.fresh(); S = ('obj', 'S'); put(st, S, x, 'S'); A = ('obj', 'A')
                        if o is not None:
                            put(st, A, o, 'A')
                        r = X.call(f, A, [('ref', S)], st); n += 1
                        k = 'copy/%s/%s' % (what, sh(x))
                        if not rep.check(r is not None, k, f.loc(), '%s does not return for %s' % (what, sh(x))):
                            continue
                        g = read(r[0], A)
                        rep.check(g == x, k, f.loc(), '%s of %s gives %s' % (what, sh(x), sh(g) if g else g))
                        if not move:
                            rep.check(read(r[0], S) == x, k + '/source', f.loc(), '%s changes its source %s' % (what, sh(x)))
                if asg:
                    for x in dom[:8]:
                        st = W.fresh(); A = ('obj', 'A'); put(st, A, x, 'A')
                        r = X.call(f, A, [('ref', A)], st); n += 1
                        rep.check(r is not None and read(r[0], A) == x, 'copy/self/%s/%s' % (what, sh(x)), f.loc(), '%s to itself changes %s' % (what, sh(x)))
        rep.count('copies and moves', n)
        # constants
        f = self.fx.method(CONST, 'reset')
        for c in X.consts[::5]:
            st = W.fresh(); A = ('obj', 'A'); W.put_const(st, A, c, 'A')
            r = X.call(f, A, [], st)
            rep.check(r is not None and W.read_const(r[0], A) == ('OpConstantNull', T.void(), (), ()), 'reset/' + self.show(('const', c)), f.loc(), 'Constant::reset leaves parts of the constant behind')
        f = self.fx.method(CONST, 'Component')
        c = [c for c in X.consts if c[3]][0]
        st = W.fresh(); A = ('obj', 'A'); W.put_const(st, A, c, 'A')
        r = X.call(f, A, [], st)
        g = W.read_const(r[0], A) if r else None
        rep.check(g is not None and g[:3] == c[:3] and g[3] == c[3] + (('OpConstantNull', T.void(), (), ()),), 'Component', f.loc(), 'Constant::Component does not add one new constituent at the end')
        if g is not None:
            rep.check(W.read_const(r[0], r[1][1]) == ('OpConstantNull', T.void(), (), ()) and r[1][1] != A, 'Component/result', f.loc(), 'Constant::Component does not return the new constituent')


def _row(i):
    try:
        return _C.X.eq_row(i)
    except AnalysisError as e:
        return 1, [('operator==', '', str(e))]


def _hash(i):
    try:
        return _C.X.hash_of(i)
    except AnalysisError as e:
        return str(e)


def _pred(j):
    try:
        return _C.run_pred(*j)
    except AnalysisError as e:
        return str(e)


def check(fx, rep):
    global _C
    rep.rule('equality: Type::operator== / != over all pairs of the domain agree with equality of the terms')
    rep.rule('hash: distinct types / constants of the domain (nestings and bracketings included) have distinct hashes, a hash depends on the term alone; the hasher is FNV-1a over exactly the bytes given')
    rep.rule('predicates and queries: the answer is the one the name and arguments define over the term')
    rep.rule('mutators, wrappers, copies: the term afterwards is the one asked for, whatever the object held before')
    _C = Check(fx, rep)
    with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
        _C.equality(pool); _C.predicates(pool)
    _C.bytes(); _C.queries(); _C.strings(); _C.mutators(); _C.formats(); _C.wraps(); _C.copies()
    rep.sample('types: %s' % ', '.join(_C.T.show(t) for t in _C.X.dom[::5]))

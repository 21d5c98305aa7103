"""Canonical SPIR-V types in the abstract heap.

A type is a term (a tuple); Types puts the corresponding spvgentwo::Type object, its type instruction and values of that type into an
abstract state and reads Type objects the analysed code produces back as terms.  The members are found through the class's own accessors.
The domain is finite, so a function of types is decided by propagating every combination of terms through it."""
from . import shape
from .absint import Interp, State, ZERO, VOID
from .facts import AnalysisError, Undetermined
from .world import Ops, INSTR, OPND, find_field

TYPE = 'spvgentwo::Type'
MOD = 'spvgentwo::Module'
TIV = 'spvgentwo::ITypeInferenceAndVailation'
S = 'spvgentwo::spv::'
ATTRS = ['getType', 'getIntWidth', 'getIntSign', 'getStorageClass', 'getImageDimension', 'getImageArray', 'getImageMultiSampled', 'getImageSamplerAccess', 'getImageFormat', 'getAccessQualifier']


class Terms:
    """constructors of terms and their display"""
    def __init__(self, fx):
        self.op = {x[0]: x[1] for x in fx.enums[S + 'Op']['v']}
        self.opn = {}
        for x in fx.enums[S + 'Op']['v']:
            self.opn.setdefault(x[1], x[0])
        e = lambda q: {x[0]: x[1] for x in fx.enums[q]['v']}
        self.sc = e(S + 'StorageClass'); self.dim = e(S + 'Dim'); self.fmt = e(S + 'ImageFormat'); self.aq = e(S + 'AccessQualifier'); self.acc = e('spvgentwo::SamplerImageAccess')
        self.sign = e('spvgentwo::Sign')
        self.DEF = (None, 0, 0, self.sc['Generic'], self.dim['Max'], 0, 0, self.acc['Unknown'], self.fmt['Unknown'], self.aq['Max'], ())

    def mk(self, op, width=0, sign=0, sc=None, subs=(), **k):
        d = list(self.DEF)
        d[0] = self.op[op] if isinstance(op, str) else op
        d[1] = width; d[2] = int(sign)
        if sc is not None:
            d[3] = self.sc[sc]
        for n, i in (('dim', 4), ('array', 5), ('ms', 6), ('access', 7), ('format', 8), ('qual', 9)):
            if n in k:
                d[i] = int(k[n])
        d[10] = tuple(subs)
        return tuple(d)

    def void(self): return self.mk('OpTypeVoid')
    def bool(self): return self.mk('OpTypeBool')
    def int(self, w=32, s=1): return self.mk('OpTypeInt', w, s)
    def uint(self, w=32): return self.mk('OpTypeInt', w, 0)
    def flt(self, w=32): return self.mk('OpTypeFloat', w)
    def vec(self, n, t): return self.mk('OpTypeVector', n, subs=(t,))
    def mat(self, cols, rows, t): return self.mk('OpTypeMatrix', cols, subs=(self.vec(rows, t),))
    def ptr(self, sc, t): return self.mk('OpTypePointer', sc=sc, subs=(t,))
    def fptr(self, sc, t): return self.mk('OpTypeForwardPointer', sc=sc, subs=(t,))
    def struct(self, *t): return self.mk('OpTypeStruct', subs=t)
    def array(self, n, t): return self.mk('OpTypeArray', n, subs=(t,))
    def rtarray(self, t): return self.mk('OpTypeRuntimeArray', subs=(t,))
    def fn(self, r, *p): return self.mk('OpTypeFunction', subs=(r,) + p)
    def image(self, t, dim='Dim2D', depth=1, array=0, ms=0, access='Unknown', fmt='Unknown', qual='Max'):
        return self.mk('OpTypeImage', depth, subs=(t,), dim=self.dim[dim], array=array, ms=ms, access=self.acc[access], format=self.fmt[fmt], qual=self.aq[qual])
    def simage(self, i): return self.mk('OpTypeSampledImage', subs=(i,))

    def show(self, t):
        if t is None:
            return 'none'
        n = self.opn.get(t[0], str(t[0]))[6:]
        sub = [self.show(x) for x in t[10]]
        if n == 'Int':
            return ('i' if t[2] else 'u') + str(t[1])
        if n == 'Float':
            return 'f%d%s' % (t[1], '(signed)' if t[2] else '')
        if n == 'Vector':
            return 'vec%d<%s>' % (t[1], ','.join(sub))
        if n == 'Matrix':
            return 'mat%d<%s>' % (t[1], ','.join(sub))
        extra = [str(t[1])] if t[1] else []
        if n in ('Pointer', 'ForwardPointer'):
            extra.append(str(t[3]))
        if n == 'Image':
            extra += [str(x) for x in t[4:10]]
        return n.lower() + ('(%s)' % ','.join(extra) if extra else '') + ('<%s>' % ','.join(sub) if sub else '')


class Types:
    def __init__(self, fx, ip=None):
        self.fx = fx
        self.T = Terms(fx)
        self.ops = Ops(fx)
        self.ip = ip or TypeInterp(fx, self)
        p = Interp(fx)
        self.f = []
        for a in ATTRS:
            n = None
            for s, v in p.run(fx.method(TYPE, a, lambda f: not f.params)):
                n = n or find_field(v)
            if n is None:
                raise AnalysisError('member behind Type::%s not found' % a)
            self.f.append(n)
        self.sub = None
        for s, v in p.run(fx.method(TYPE, 'getSubTypes', lambda f: not f.params and f.d.get('const'))):
            self.sub = find_field(v)
        if self.sub is None:
            raise AnalysisError('member behind Type::getSubTypes not found')
        self.alloc = ('s', ('allocator',))
        self.ids = {}

    def key(self, t):
        return self.ids.setdefault(t, len(self.ids) + 1)

    def loc(self, t):
        return ('obj', 'Ty%d' % self.key(t))

    def iloc(self, t):
        return ('obj', 'TI%d' % self.key(t))

    # -------------------------------------------------- writing
    def put_at(self, st, loc, t, name):
        """Type object for the term at loc"""
        for n, v in zip(self.f, t[:10]):
            st.mem[('f', loc, n)] = ('i', v)
        sl = ('f', loc, self.sub)
        names = ['%s.%d' % (name, i) for i in range(len(t[10]))]
        locs = shape.mklist(st, sl, names)
        st.mem[('f', sl, 'm_pAllocator')] = self.alloc
        for l, x, nm in zip(locs, t[10], names):
            self.put_at(st, l, x, nm)

    def need(self, st, t):
        """the type's object and its type instruction, as the module would hold them; returns the instruction location"""
        I = self.iloc(t)
        if ('f', I, self.ops.opfield) in st.mem:
            return I
        self.put_at(st, self.loc(t), t, 'ty%d' % self.key(t))
        T = self.T
        ops = [('id', ('i', 1000 + self.key(t)))]
        n = T.opn[t[0]]
        subs = [('instr', ('p', self.need(st, x))) for x in t[10]]
        lit = lambda v: ('lit', ('i', v))
        if n == 'OpTypeInt':
            ops += [lit(t[1]), lit(t[2])]
        elif n == 'OpTypeFloat':
            ops += [lit(t[1])]
        elif n in ('OpTypeVector', 'OpTypeMatrix'):
            ops += subs + [lit(t[1])]
        elif n == 'OpTypePointer':
            ops += [lit(t[3])] + subs
        elif n == 'OpTypeForwardPointer':
            ops = subs + [lit(t[3])]
        elif n == 'OpTypeArray':
            ops += subs + [('instr', ('p', self.const_loc(st, t[1])))]
        elif n == 'OpTypeImage':
            ops += subs + [lit(x) for x in (t[4], t[1], t[5], t[6], t[7], t[8])] + ([lit(t[9])] if t[9] != T.aq['Max'] else [])
        else:
            ops += subs
        # Ops.put runs the operand constructors on st; run() keeps st when there is a single path
        self._instr(st, I, t[0], ops, 'ti%d' % self.key(t))
        return I

    def _instr(self, st, I, op, ops, name):
        s, locs = self.ops.instr(st, I, op, ops, name)
        if s is not st:
            st.mem = s.mem
        return locs

    def const_loc(self, st, v):
        I = ('obj', 'Const%d' % v)
        if ('f', I, self.ops.opfield) not in st.mem:
            u = self.need(st, self.T.uint())
            self._instr(st, I, self.T.op['OpConstant'], [('instr', ('p', u)), ('id', ('i', 5000 + v)), ('lit', ('i', v))], 'const%d' % v)
        return I

    def value(self, st, name, t, op='OpUndef', ops=()):
        """an instruction with result type t; returns its location"""
        I = ('obj', name)
        ti = self.need(st, t)
        self._instr(st, I, self.T.op[op], [('instr', ('p', ti)), ('id', ('i', 9000 + len(name)))] + list(ops), 'v:' + name)
        return I

    # -------------------------------------------------- reading
    def read(self, st, loc, depth=0):
        """term of the Type object at loc, None if it is not known"""
        out = []
        for n in self.f:
            v = self.ip.load(st, ('f', loc, n))
            if v[0] != 'i':
                return None
            out.append(v[1])
        subs = []
        p = self.ip.load(st, ('f', ('f', loc, self.sub), 'm_pBegin'))
        k = 0
        while p != ZERO:
            if p[0] != 'p' or k > 16 or depth > 8:
                return None
            x = self.read(st, ('f', p[1], 'm_data'), depth + 1)
            if x is None:
                return None
            subs.append(x)
            p = self.ip.load(st, ('f', p[1], 'm_pNext')); k += 1
        out.append(tuple(subs))
        return tuple(out)

    def term_of_instr(self, v):
        """term of the type instruction a pointer refers to"""
        if v[0] == 'p' and v[1][0] == 'obj' and v[1][1].startswith('TI'):
            k = int(v[1][1][2:])
            for t, i in self.ids.items():
                if i == k:
                    return t
        return None


class TypeInterp(Interp):
    """module lookups and additions of types answered from the term domain"""
    max_recursion = 14
    max_depth = 60
    distinct_objs = True

    def __init__(self, fx, types=None):
        super().__init__(fx)
        self.types = types
        self.budget = 30000000
        self.module = ('p', ('obj', 'module'))
        self.err = ('p', ('obj', 'errinstr'))
        self.tiv = ('p', ('obj', 'tiv'))

    def inline(self, fn, fr):
        return not (fn.cls or '').startswith('spvgentwo::Grammar')

    def run(self, fn, this=None, args=None, st=None):
        if fn.cls != OPND:
            self.steps = 0
        return super().run(fn, this, args, st)

    def model(self, st, fr, n, fn, obj, args):
        nm = n.get('n'); c = n.get('c') or ''
        T = self.types
        if c == MOD:
            if nm == 'addType':
                t = T.read(st, args[0][1])
                if t is None:
                    raise Undetermined('type handed to Module::addType is not concrete')
                I = T.need(st, t)
                st.emit('addType', t)
                return [(st, ('p', I))]
            if nm == 'getTypeInfo':
                t = T.term_of_instr(args[0])
                return [(st, ZERO if t is None else ('p', T.loc(t)))]
            if nm == 'getErrorInstr':
                return [(st, self.err)]
            if nm == 'getAllocator':
                return [(st, T.alloc)]
            if nm in ('logError', 'logWarning', 'logInfo', 'logFatal', 'logDebug', 'log'):
                st.emit('log', nm)
                if self.ty(fr, n) == 'bool':
                    return [(st, args[0])]
                return [(st, VOID)]
            if nm == 'constant' and args:
                v = args[0]
                if v[0] in ('ref', 'o'):
                    v = self.load(st, v[1])
                if v[0] == 'i':
                    return [(st, ('p', T.const_loc(st, v[1])))]
                return [(st, ('s', ('const', v)))]
            if nm == 'getTypeInferenceAndVailation':
                return [(st, self.tiv)]
        if c == TIV and fn is not None and n.get('v'):
            # the default implementation of the interface, the one a module uses unless it is given another
            return self.invoke(st, fr, fn, obj, args, n)
        if c == INSTR and nm == 'getModule':
            return [(st, self.module)]
        if c == INSTR and nm == 'error':
            return [(st, self.err)]
        if nm == 'allocate' and c.endswith('Allocator'):
            return [(st, ('p', ('new', 'heap%d' % st.fresh())))]
        if nm == 'deallocate' and c.endswith('Allocator'):
            return [(st, VOID)]
        return None

"""Types and constants as a module keeps them: the module's own addType / addConstant / reconstructTypeAndConstantInfo code over a heap in
which the lookup maps are exact dictionaries (a Type or Constant key is the term it denotes, an instruction key its location)."""
from . import shape
from .absint import Interp, State, ZERO, VOID
from .facts import AnalysisError, Undetermined
from .types import Types, TypeInterp, TYPE, MOD
from .world import INSTR, OPND, find_field

CONST = 'spvgentwo::Constant'
HM = 'spvgentwo::HashMap<'


def field_of(fx, cls, name, pred=lambda f: True):
    """member a parameterless accessor of cls gives out"""
    for f in fx.by_cls[cls]:
        if f.name == name and not f.params and pred(f):
            for s, v in Interp(fx).run(f):
                r = find_field(v)
                if r:
                    return r
    raise AnalysisError('member behind %s::%s not found' % (cls, name))


class ModInterp(TypeInterp):
    bytes = True
    raw = True
    max_depth = 120

    def inline(self, fn, fr):
        return not (fn.cls or '').startswith('spvgentwo::Grammar')

    def keyof(self, st, cls, a):
        if cls.startswith(HM + 'spvgentwo::Type,'):
            t = self.types.read(st, a[1])
            if t is None:
                raise Undetermined('type used as a key is not concrete')
            return ('T', t)
        if cls.startswith(HM + 'spvgentwo::Constant,'):
            return ('C', self.types.read_const(st, a[1]))
        return ('P', self.load(st, a[1]) if a[0] == 'ref' else a)

    def model(self, st, fr, n, fn, obj, args):
        nm = n.get('n'); c = n.get('c') or ''
        T = self.types
        if c.startswith(HM) and obj is not None and obj[0] in ('p', 'o', 'ref'):
            M = obj[1]
            if nm == 'emplaceUnique' or nm == 'emplace':
                k = self.keyof(st, c, args[0])
                slot = ('f', M, ('key', k))
                if slot not in st.mem:
                    node = ('new', 'hn%d' % st.fresh())
                    kl = shape.key_of(node)
                    if k[0] == 'T':
                        T.put_at(st, kl, k[1], 'key%d' % st.fresh())
                    elif k[0] == 'C':
                        T.put_const(st, kl, k[1], 'key%d' % st.fresh())
                    else:
                        st.mem[kl] = k[1]
                    v = args[1]
                    if v[0] == 'ref':
                        v = self.load(st, v[1])
                    st.mem[shape.value_of(node)] = v
                    st.mem[slot] = ('p', node)
                return [(st, ('ref', st.mem[slot][1]))]
            if nm == 'get':
                k = self.keyof(st, c, args[0])
                v = st.mem.get(('f', M, ('key', k)))
                return [(st, ZERO if v is None else ('p', shape.value_of(v[1])))]
            if nm == 'clear':
                for k in [k for k in st.mem.below(M) if len(k) > 2 and isinstance(k[2], tuple) and k[2][0] == 'key']:
                    del st.mem[k]
                st.emit('clear', M)
                return [(st, VOID)]
            if nm in ('erase', 'find', 'begin', 'end', 'operator[]', 'getRange', 'count', 'empty'):
                raise AnalysisError('HashMap::%s is not followed by this check' % nm)
        if c == MOD:
            if nm in ('logError', 'logWarning', 'logInfo', 'logFatal', 'logDebug', 'log'):
                st.emit('log', nm)
                if self.ty(fr, n) == 'bool':
                    return [(st, args[0])]
                return [(st, VOID)]
            if nm == 'addName':
                st.emit('name', args[0], args[1])
                return [(st, VOID)]
            if nm == 'getAllocator':
                return [(st, T.alloc)]
        if c == INSTR:
            if nm == 'getModule':
                return [(st, self.module)]
            if nm == 'validateOperands':
                return [(st, ('i', 1))]
        if nm == 'allocate' and c.endswith('Allocator'):
            return [(st, ('p', ('new', 'heap%d' % st.fresh())))]
        if nm == 'deallocate' and c.endswith('Allocator'):
            return [(st, VOID)]
        return None


class ModTypes(Types):
    """terms of constants: (opcode name, type term, data words, component terms)"""
    def __init__(self, fx):
        super().__init__(fx, ModInterp(fx))
        self.ip.types = self
        self.alloc = ('p', ('obj', 'alloc'))
        self.M = self.ip.module[1]
        nc = lambda f: not f.d.get('const') or True
        self.cop = field_of(fx, CONST, 'getOperation'); self.cty = field_of(fx, CONST, 'getType')
        self.cdata = field_of(fx, CONST, 'getData'); self.ccomp = field_of(fx, CONST, 'getComponents')
        self.flist = field_of(fx, MOD, 'getTypesAndConstants')
        self.secs = {n: field_of(fx, MOD, n) for n in ('getTypesAndConstants', 'getFunctions', 'getEntryPoints', 'getGlobalVariables', 'getUndefs')}
        self.addType = fx.method(MOD, 'addType'); self.addConstant = fx.method(MOD, 'addConstant')
        self.getTypeInfo = fx.method(MOD, 'getTypeInfo'); self.getConstantInfo = fx.method(MOD, 'getConstantInfo')
        self.getTypeInstr = fx.method(MOD, 'getTypeInstr')
        self.reconstruct = fx.method(MOD, 'reconstructTypeAndConstantInfo')
        self.alloc_fields = None

    def fresh(self):
        st = State()
        for f in self.secs.values():
            shape.mklist(st, ('f', self.M, f), [])
            st.mem[('f', ('f', self.M, f), 'm_pAllocator')] = self.alloc
        st.mem[('f', self.M, 'm_pAllocator')] = self.alloc
        st.facts[('nz', self.alloc)] = True
        return st

    # ------------------------------------------------ constants
    def put_const(self, st, loc, c, name):
        op, t, data, comps = c
        st.mem[('f', loc, self.cop)] = ('i', self.T.op[op])
        self.put_at(st, ('f', loc, self.cty), t, name + '.t')
        dl = ('f', loc, self.cdata)
        B = ('new', name + '.d')
        st.mem[('f', dl, 'm_pData')] = ('p', B) if data else ZERO
        st.mem[('f', dl, 'm_elements')] = ('i', len(data)); st.mem[('f', dl, 'm_capacity')] = ('i', len(data))
        st.mem[('f', dl, 'm_pAllocator')] = self.alloc
        for i, w in enumerate(data):
            st.mem[self.ip.idx(B, ('i', i))] = w if isinstance(w, tuple) else ('i', w)
        cl = ('f', loc, self.ccomp)
        names = ['%s.c%d' % (name, i) for i in range(len(comps))]
        ls = shape.mklist(st, cl, names)
        st.mem[('f', cl, 'm_pAllocator')] = self.alloc
        for l, x, n in zip(ls, comps, names):
            self.put_const(st, l, x, n)

    def read_const(self, st, loc, depth=0):
        v = self.ip.load(st, ('f', loc, self.cop))
        t = self.read(st, ('f', loc, self.cty))
        if v[0] != 'i' or t is None or depth > 6:
            raise Undetermined('constant is not concrete: %s %s' % (v, t))
        dl = ('f', loc, self.cdata)
        n = self.ip.load(st, ('f', dl, 'm_elements'))
        if n[0] != 'i':
            raise Undetermined('number of data words of a constant is not concrete')
        p = self.ip.load(st, ('f', dl, 'm_pData'))
        data = tuple(self.ip.load(st, self.ip.idx(p[1], ('i', i))) for i in range(n[1]))
        comps = []
        p = self.ip.load(st, ('f', ('f', loc, self.ccomp), 'm_pBegin'))
        while p != ZERO:
            if p[0] != 'p' or len(comps) > 16:
                raise Undetermined('component list is not concrete')
            comps.append(self.read_const(st, ('f', p[1], 'm_data'), depth + 1))
            p = self.ip.load(st, ('f', p[1], 'm_pNext'))
        return (self.T.opn[v[1]], t, data, tuple(comps))

    # ------------------------------------------------ the module's list of types and constants
    def listed(self, st):
        """[(location, opcode name, [(kind, value)])] of m_TypesAndConstants in order"""
        out = []
        p = self.ip.load(st, ('f', ('f', self.M, self.flist), 'm_pBegin'))
        while p != ZERO:
            if p[0] != 'p' or len(out) > 4000:
                raise Undetermined('list of types and constants is not concrete')
            L = ('f', p[1], 'm_data')
            out.append((L,) + self.instr_at(st, L))
            p = self.ip.load(st, ('f', p[1], 'm_pNext'))
        return out

    def instr_at(self, st, L):
        op = self.ip.load(st, ('f', L, self.ops.opfield))
        ops = []
        q = self.ip.load(st, ('f', L, 'm_pBegin'))
        while q != ZERO:
            if q[0] != 'p' or len(ops) > 64:
                raise Undetermined('operand list is not concrete')
            ops.append(self.ops.read(st, ('f', q[1], 'm_data')))
            q = self.ip.load(st, ('f', q[1], 'm_pNext'))
        return (self.T.opn.get(op[1], str(op)) if op[0] == 'i' else str(op), ops)

    def one(self, fn, st, args=(), what='', this=None):
        """the single completed path of a concrete run, None if there is none (the path dereferenced null)"""
        r = self.ip.run(fn, this=this or self.ip.module, args=list(args), st=st)
        if len(r) > 1:
            raise Undetermined('%s: %d paths for concrete input' % (what or fn.q, len(r)))
        return r[0] if r else None

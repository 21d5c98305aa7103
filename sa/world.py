"""Concrete operand lists in canonical heap shapes, set up and read back through the project's own constructors and accessors
(so a check does not depend on how an operand stores its payload)."""
from . import shape
from .absint import Interp, State, ZERO, VOID
from .facts import AnalysisError, Undetermined

OPND = 'spvgentwo::Operand'
INSTR = 'spvgentwo::Instruction'


class Ops:
    """operands of instructions in an abstract state"""
    def __init__(self, fx):
        self.fx = fx
        self.ip = Interp(fx)
        self.ctor = {}
        self.memo = {}
        for f in fx.by_cls[OPND]:
            if f.d.get('ctor') and len(f.params) == 1:
                t = f.tu.types[f.params[0]['t']]
                k = {'spvgentwo::BasicBlock *': 'block', 'spvgentwo::Instruction *': 'instr', 'spvgentwo::literal_t': 'lit', 'spvgentwo::spv::Id': 'id'}.get(t)
                if k:
                    self.ctor[k] = f
        if len(self.ctor) != 4:
            raise AnalysisError('operand constructors found: %s' % sorted(self.ctor))
        self.get = {k: fx.method(OPND, n) for k, n in
                    {'block': 'getBranchTarget', 'instr': 'getInstruction', 'lit': 'getLiteral', 'id': 'getId'}.items()}
        self.isf = {k: fx.method(OPND, n) for k, n in {'block': 'isBranchTarget', 'instr': 'isInstruction', 'lit': 'isLiteral', 'id': 'isId'}.items()}
        self.opfield = None
        for s, v in self.ip.run(fx.method(INSTR, 'getOperation', lambda f: not f.params)):
            self.opfield = find_field(v)
        if self.opfield is None:
            raise AnalysisError('opcode member not found')
        # how a literal is stored inside literal_t
        self.litname = fx.records['spvgentwo::literal_t']['fields'][0]['n']

    def put(self, st, loc, kind, val):
        """st' with the operand at loc holding val of this kind"""
        if kind == 'lit':
            t = ('new', 'lit%d' % st.fresh())
            st.mem[('f', t, self.litname)] = val
            arg = ('ref', t) if self.ctor[kind].params[0].get('r') else ('o', t)
        else:
            arg = val
        self.ip.steps = 0
        r = self.ip.run(self.ctor[kind], this=('p', loc), args=[arg], st=st)
        if len(r) != 1:
            raise Undetermined('operand constructor has %d paths' % len(r))
        return r[0][0]

    def read(self, st, loc):
        """(kind, value) of the operand at loc"""
        # only the operand's own members decide: identical contents are read once
        key = []
        for k in st.mem.below(loc):
            path = []; l = k
            while l != loc:
                path.append(l[0]); path.append(l[2]); l = l[1]
            v = st.mem[k]
            if v[0] == 'copyof' and len(st.mem.below(k)) > 1:
                continue        # its members are known by themselves
            if v[0] not in ('i', 'p', 's', 'f', 'ref'):
                key = None
                break
            key.append((tuple(path), v))
        if key:
            key = frozenset(key)
            if key not in self.memo:
                s = State(); s.n = st.n
                for k in st.mem.below(loc):
                    s.mem[k] = st.mem[k]
                self.memo[key] = self.read_(s, loc)
            return self.memo[key]
        return self.read_(st, loc)

    def read_(self, st, loc):
        self.ip.steps = 0
        for k in ('instr', 'block', 'lit', 'id'):
            r = self.ip.run(self.isf[k], this=('p', loc), args=[], st=st.fork())
            if len(r) == 1 and r[0][1] == ('i', 1):
                s, v = self.ip.run(self.get[k], this=('p', loc), args=[], st=st.fork())[0]
                if v[0] in ('o', 'ref'):
                    v = self.ip.load(s, ('f', v[1], self.litname)) if k == 'lit' else self.ip.load(s, v[1])
                return k, v
        return None, None

    def instr(self, st, I, op, ops, name):
        """instruction at I: opcode and operands [(kind, value)]; returns (state, operand locations)"""
        st.mem[('f', I, self.opfield)] = ('i', op)
        locs = shape.mklist(st, I, ['%s.%d' % (name, i) for i in range(len(ops))])
        for l, (k, v) in zip(locs, ops):
            st = self.put(st, l, k, v)
        return st, locs


def find_field(v):
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 'f' and v[1] == ('obj', 'this'):
            return v[2]
        for x in v:
            r = find_field(x)
            if r:
                return r
    return None

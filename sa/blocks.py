"""Basic blocks and functions in the abstract heap, on top of the canonical types: instructions are created by the project's own code
(BasicBlock::addInstruction, List::emplace_back, the Instruction constructors) and read back from the block's list."""
from . import shape
from .absint import State, ZERO, VOID
from .facts import AnalysisError, Undetermined
from .types import Types, TypeInterp
from .world import INSTR

BB = 'spvgentwo::BasicBlock'
FUNC = 'spvgentwo::Function'


class BlockInterp(TypeInterp):
    max_depth = 80
    bytes = True

    def model(self, st, fr, n, fn, obj, args):
        nm = n.get('n'); c = n.get('c') or ''
        T = self.types
        if c in (BB, FUNC):
            if nm == 'getModule':
                return [(st, self.module)]
            if nm == 'getAllocator':
                return [(st, T.alloc)]
        if c == 'spvgentwo::Module':
            if nm == 'constant' and args:
                v = args[0]
                if v[0] in ('ref', 'o'):
                    v = self.load(st, v[1])
                if v[0] == 'f':
                    t = fn.tu.types[fn.params[0]['t']] if fn is not None else ''
                    w = 64 if 'double' in t else 32
                    return [(st, ('p', T.fconst(st, v[1], w)))]
            if nm in ('addName', 'addMemberName'):
                st.emit('name', args[0] if args else None)
                return [(st, VOID)]
        return super().model(st, fr, n, fn, obj, args)


class Blocks(Types):
    def __init__(self, fx):
        self.fx = fx
        super().__init__(fx, BlockInterp(fx))
        self.ip.types = self
        self.setparent = fx.method(INSTR, 'setParent', lambda f: 'BasicBlock' in f.tu.types[f.params[0]['t']])
        self.optab = self.T.op

    def fconst(self, st, v, w):
        I = ('obj', 'FConst%s_%d' % (v, w))
        if ('f', I, self.ops.opfield) not in st.mem:
            u = self.need(st, self.T.flt(w))
            self._instr(st, I, self.T.op['OpConstant'], [('instr', ('p', u)), ('id', ('i', 7000)), ('lit', ('i', 1))], 'fc%s_%d' % (v, w))
        return I

    def block(self, st, name, instrs):
        """basic block object holding one instruction per name; returns (block, locations of the instructions)"""
        b = ('obj', name)
        locs = shape.mklist(st, b, ['%s:%s' % (name, x) for x in instrs])
        for l in locs:
            shape.mklist(st, l, [])
            st.mem[('f', l, self.ops.opfield)] = ('i', self.T.op['OpNop'])
            s = self.own(st, l, b)
            if s is not st:
                st.mem = s.mem
        return b, locs

    def own(self, st, loc, b):
        """loc's parent becomes the block"""
        for x in ('pBasicBlock', 'pFunction', 'pModule'):
            st.mem[('f', ('f', loc, 'm_parent'), x)] = ZERO
        st.mem[('f', loc, 'm_pAllocator')] = ZERO
        r = self.ip.run(self.setparent, this=('p', loc), args=[('p', b)], st=st)
        if len(r) != 1:
            raise Undetermined('setParent(BasicBlock) has %d paths' % len(r))
        return r[0][0]

    def fill(self, st, loc, op, ops, name):
        """opcode and operands for an instruction already in a block"""
        self._instr(st, loc, self.T.op[op], ops, name)

    def listed(self, st, L):
        """element locations of the list at L"""
        out = []
        p = self.ip.load(st, ('f', L, 'm_pBegin'))
        while p != ZERO:
            if p[0] != 'p' or len(out) > 64:
                raise Undetermined('list at %r is not concrete' % (L,))
            out.append(('f', p[1], 'm_data'))
            p = self.ip.load(st, ('f', p[1], 'm_pNext'))
        return out

    def instr_at(self, st, loc):
        """(opcode name, [(kind, value)])"""
        op = self.ip.load(st, ('f', loc, self.ops.opfield))
        return (self.T.opn.get(op[1], '?') if op[0] == 'i' else '?'), [self.ops.read(st, o) for o in self.listed(st, loc)]

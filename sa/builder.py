"""Interpretation of the instruction builders: for every path through a builder, which opcode is set and which operands
are appended, in which order, and where each one comes from."""
from .absint import Interp, State, I, ZERO, VOID, is_class_type
from .facts import AnalysisError

INSTR = 'spvgentwo::Instruction'

# accessors / predicates with no effect on the instruction under construction; their results are named by origin
PURE = {'getModule', 'getFunction', 'getBasicBlock', 'getType', 'getConstant', 'getResultTypeInstr', 'getResultId', 'getName', 'isType', 'isTerminator',
        'isConstant', 'isSpecConstant', 'isSpecOrConstant', 'hasResult', 'hasResultType', 'hasResultAndType', 'getStorageClass', 'getOperation', 'error',
        'isErrorInstr', 'checkImageCoordinateType', 'validateOperands', 'getResultTypeOperand', 'getResultIdOperand', 'getFirstActualOperand'}


class BuilderInterp(Interp):
    max_recursion = 12

    def __init__(self, fx):
        super().__init__(fx)
        self.budget = 3000000

    def inline(self, fn, fr):
        c = fn.cls or ''
        if fn.d.get('lam') or 'lambda@' in c:
            return True
        if c == INSTR:
            return fn.name not in PURE
        if c.startswith('spvgentwo::Flag<') or c == 'spvgentwo::literal_t' or c == 'spvgentwo::Operand':
            return True
        if c == 'spvgentwo::Operand':
            return True
        if not c and not fn.d.get('st'):
            return fn.q.startswith('spvgentwo::') and fn.name not in ('getTypeFromOp',) or '(anonymous' in fn.q or fn.file.endswith('stdreplacement.h')
        if c == 'spvgentwo::GLSL450Instruction' or fn.q.startswith('spvgentwo::ext::GLSL'):
            return True
        return False

    def is_self(self, st, obj):
        return obj is not None

    def model(self, st, fr, n, fn, obj, args):
        q = n.get('q') or ((n.get('c') or '') + '::' + n.get('n', ''))
        nm = n.get('n')
        c = n.get('c') or ''
        if fn is not None and fn.file.endswith('stdreplacement.h') and nm in ('move', 'forward') and len(args) == 1:
            a = args[0]
            return [(st, ('p', a[1]) if a[0] == 'ref' and a[1][0] != '*' else a[1][1] if a[0] == 'ref' else a)]
        if nm == 'reset' and c == INSTR and not args:
            st.emit('reset', obj)
            return [(st, VOID)]
        if nm in ('emplace_back', 'emplace_back_entry') and obj is not None and len(args) == 1 and ('Operand' in c):
            st.emit('operand', obj, self.operand_value(st, args[0]), self.kind(self.ty(fr, n['a'][0])))
            return [(st, ('s', ('ld', ('newop', st.fresh()))))]
        if nm == 'clear' and obj is not None and 'Operand' in c:
            st.emit('clear', obj)
            return [(st, VOID)]
        if nm in ('emplace_front', 'insert_before', 'insert_after', 'emplace_before', 'emplace_after', 'pop_back', 'pop_front', 'erase', 'remove',
                  'append_entry', 'prepend_entry', 'insert') and obj is not None and 'Operand' in c:
            st.emit('listop', nm, obj, tuple(self.operand_value(st, a) for a in args))
            return None
        if nm == 'appendLiteralsToContainer' and args and self.container_is_instr(fr, n):
            tgt = args[0]
            st.emit('literals', self.loc_ptr(tgt[1]) if tgt[0] == 'ref' else tgt, tuple(self.operand_value(st, a) for a in args[1:]))
            return [(st, VOID)]
        if nm == 'inferResultTypeOperand' and c == INSTR:
            st.emit('infer', obj)
            return [(st, ('s', ('inferred', st.fresh())))]
        if nm == 'validateOperands' and c == INSTR:
            st.emit('validate', obj)
            return [(st, ('s', ('validated', st.fresh())))]
        if nm == 'error' and c == INSTR:
            return [(st, ('s', ('error',)))]
        if nm in ('logError', 'logWarning', 'logInfo', 'logFatal', 'logDebug', 'log'):
            st.emit('log', nm)
            return [(st, VOID)]
        if nm == 'getModule':
            return [(st, ('s', ('module',)))]
        if c.endswith('List<spvgentwo::Instruction>') and nm.startswith('emplace_'):
            v = ('s', ('newinstr', st.fresh()))
            st.facts[('nz', v)] = True
            return [(st, ('ref', ('*', v)))]
        if c == 'spvgentwo::Module' and nm.startswith('add') and nm.endswith('Instr'):
            v = ('s', ('newinstr', st.fresh()))
            st.facts[('nz', v)] = True
            return [(st, v)]
        if nm == 'getErrorInstr':
            return [(st, ('s', ('error',)))]
        return None

    @staticmethod
    def kind(t):
        t = t.replace('const ', '').rstrip('& ').replace(' *const', ' *')
        if t.endswith('Instruction *'):
            return 'instr'
        if t.endswith('BasicBlock *'):
            return 'block'
        if t.endswith('spv::Id'):
            return 'id'
        if t.endswith('literal_t') or t in ('unsigned int', 'int'):
            return 'lit'
        return t

    def container_is_instr(self, fr, n):
        t = self.ty(fr, n['a'][0])
        return 'Instruction' in t or 'List<spvgentwo::Operand>' in t

    def operand_value(self, st, a):
        v = self.strip(st, a)
        return v

    def strip(self, st, a):
        """value of an operand argument: constant / origin symbol; looks through literal_t, Flag and Id wrappers"""
        for _ in range(8):
            if a[0] in ('ref', 'o'):
                l = a[1]
                if ('f', l, 'value') in st.mem:
                    a = st.mem[('f', l, 'value')]; continue
                if ('f', l, 'mask') in st.mem:
                    a = st.mem[('f', l, 'mask')]; continue
                v = st.mem.get(l)
                if v is not None and v[0] == 'ref':
                    a = v; continue
                if v is not None and v[0] == 'copyof':
                    a = ('ref', v[1]); continue
                if v is not None and v[0] not in ('havoc', 'zeroed'):
                    a = v; continue
                if l[0] == 'g':
                    x = self.gconst(l[1])
                    if x is not None:
                        return x
                if l[0] == 'obj':
                    return ('s', ('param', l[1]))
                if l[0] == '*':
                    return ('s', ('at', l[1]))
                if v is not None and v[0] == 'havoc':
                    return ('s', v[1])
                return ('p', l)
            if a[0] == 's' and a[1][0] == 'ld':
                l = a[1][1]
                while l[0] in ('f', 'idx') and l[2] in ('m_value', 'value', 'mask', 'm_mask'):
                    l = l[1]
                if l[0] == 'obj':
                    return ('s', ('param', l[1]))
            return a
        return a

    def on_store(self, st, fr, loc, val, node):
        if loc[0] == 'f' and loc[2] == 'm_Operation':
            st.emit('setop', loc[1], val)

    def param_value(self, st, fn, p):
        return super().param_value(st, fn, p)


def arg_list(ip, st, fn):
    """symbolic arguments; pack elements with the same name are numbered"""
    cnt = {}
    args = []
    for p in fn.params:
        k = cnt.get(p['n'], 0); cnt[p['n']] = k + 1
    seen = {}
    for p in fn.params:
        nm = p['n']
        if cnt[nm] > 1:
            k = seen.get(nm, 0); seen[nm] = k + 1
            nm = '%s#%d' % (nm, k)
        args.append(ip.param_value(st, fn, dict(p, n=nm)))
    return args


def paths(ip, fn):
    """list of (op, operands, events, value, state) per path, for the instruction the builder is called on"""
    st = State()
    res = []
    for s, v in ip.run(fn, args=arg_list(ip, st, fn), st=st):
        evs = s.events()
        me = ('p', ('obj', 'this'))
        op = None; ops = []; touched = False; dirty = False; inf = None
        for e in evs:
            if e[0] == 'reset' and e[1] == me:
                op = ('i', 0); ops = []; touched = True; dirty = False
            elif e[0] == 'clear' and e[1] == me:
                ops = []; touched = True
            elif e[0] == 'setop' and e[1] == me[1]:
                op = e[2]; touched = True
            elif e[0] == 'operand' and e[1] == me:
                ops.append((e[3], e[2])); touched = True
            elif e[0] == 'literals' and e[1] == me:
                ops += [('lit', x) for x in e[2]]; touched = True
            elif e[0] == 'listop' and e[2] == me:
                ops.append(('listop', e[1], e[3])); touched = True
        res.append((op, ops, evs, v, s, touched))
    return res

"""C26: moved and reset objects.  Modules, functions, blocks and instructions are built through the project's reader, moved (constructor and assignment, into fresh and
into loaded targets) and reset; what a caller sees before and after is compared: contents, addresses, parents, header, lookups and the words written."""
from sa.absint import State, VOID, ZERO
from sa.binary import Binaries, BinInterp, FUNC, BB, EP
from sa.facts import AnalysisError
from sa.live import Live
from sa.report import parallel
from sa.types import MOD, Types

IW = 'spvgentwo::IWriter'
INSTR = 'spvgentwo::Instruction'
OPERAND = 'spvgentwo::Operand'
SECTIONS = ('getCapabilities', 'getExtensions', 'getExtInstrImports', 'getExecutionModes', 'getSourceStrings', 'getNames', 'getModulesProcessed', 'getDecorations', 'getTypesAndConstants',
            'getGlobalVariables', 'getUndefs', 'getLines')
MAPS = SECTIONS[:3]
HEAD = '''OpCapability Shader
OpCapability Linkage
OpExtension "SPV_KHR_b"
%ei = OpExtInstImport "GLSL.std.450"
OpMemoryModel Logical GLSL450
'''
VOIDS = '''%void = OpTypeVoid
%fv = OpTypeFunction %void
'''
FULL = HEAD + '''OpEntryPoint GLCompute %m "main"
OpEntryPoint Vertex %w "a longer name of an entry point" %vi %vo
OpExecutionMode %m LocalSize 8 4 1
OpExecutionMode %w SubgroupSize 4
%s1 = OpString "file.comp"
OpSourceExtension "GL_EXT"
OpSource GLSL 450 %s1 "void main() {}"
OpName %m "main"
OpName %S "S"
OpMemberName %S 0 "first"
OpMemberName %S 1 "second"
OpName %vi "in"
OpName %h "helper"
OpName %h_p "parameter"
OpModuleProcessed "processed by"
OpDecorate %S Block
OpMemberDecorate %S 1 Offset 16
OpDecorate %vi Location 0
OpDecorate %vo BuiltIn Position
''' + VOIDS + '''%float = OpTypeFloat 32
%uint = OpTypeInt 32 0
%bool = OpTypeBool
%k = OpConstant %uint 8
%v4 = OpTypeVector %float 4
%arr = OpTypeArray %v4 %k
%pi = OpTypePointer Input %v4
%vi = OpVariable %pi Input
OpLine %s1 1 2
%S = OpTypeStruct %v4 %uint
%po = OpTypePointer Output %v4
OpNoLine
%vo = OpVariable %po Output
%u = OpUndef %float
%z = OpConstantNull %S
%t = OpConstantTrue %bool
%ff = OpTypeFunction %float %float %uint
%d = OpFunction %float None %ff
%d_p = OpFunctionParameter %float
%d_q = OpFunctionParameter %uint
OpFunctionEnd
%h = OpFunction %float Inline %ff
%h_p = OpFunctionParameter %float
%h_q = OpFunctionParameter %uint
%h_l = OpLabel
OpSelectionMerge %h_e None
OpBranchConditional %t %h_a %h_e
%h_a = OpLabel
%h_x = OpFAdd %float %h_p %h_p
OpBranch %h_e
%h_e = OpLabel
%h_y = OpPhi %float %h_p %h_l %h_x %h_a
OpReturnValue %h_y
OpFunctionEnd
%m = OpFunction %void None %fv
%m_l = OpLabel
%m_x = OpFunctionCall %float %h %u %k
OpReturn
OpFunctionEnd
%w = OpFunction %void None %fv
%w_l = OpLabel
%w_x = OpLoad %v4 %vi
OpStore %vo %w_x
OpReturn
OpFunctionEnd
'''
OTHER = '''OpCapability Kernel
OpCapability Addresses
OpCapability Int64
OpExtension "SPV_other"
%ei = OpExtInstImport "OpenCL.std"
OpMemoryModel Physical64 OpenCL
OpEntryPoint Kernel %oe "kernel"
OpExecutionMode %oe VecTypeHint 1
%st = OpString "other.cl"
OpName %oe "kernel"
OpName %o "other"
OpModuleProcessed "other"
OpDecorate %ov Constant
''' + VOIDS + '''%long = OpTypeInt 64 0
%one = OpConstantNull %long
%pl = OpTypePointer CrossWorkgroup %long
%ov = OpVariable %pl CrossWorkgroup %one
%u = OpUndef %long
OpNoLine
%fl = OpTypeFunction %long %long
%o = OpFunction %long None %fl
%o_p = OpFunctionParameter %long
%o_l = OpLabel
%o_a = OpIAdd %long %o_p %one
OpReturnValue %o_a
OpFunctionEnd
%oe = OpFunction %void None %fv
%oe_l = OpLabel
OpReturn
OpFunctionEnd
'''
SMALL = HEAD + VOIDS + '''%m = OpFunction %void None %fv
%m_l = OpLabel
OpReturn
OpFunctionEnd
'''


class Moves:
    def __init__(self, fx, rep):
        self.fx = fx; self.rep = rep
        self.ip = BinInterp(fx); self.ip.max_recursion = 4
        self.B = Binaries(fx, self.ip); self.L = self.B.L
        self.out = []
        self.ip.contracts[(IW, 'put')] = self.put
        f = self.L.fn
        self.write = f(MOD, 'write', 1)
        self.types = Types(fx, self.ip)

    def put(self, st, fr, n, fn, obj, args):
        self.out.append(self.ip.num(st, args[0]))
        return [(st, ('i', 1))]

    # -------------------------------------------------------------------------------------------- members
    def special(self, cls, what, *types):
        """the constructor or assignment taking these parameters"""
        c = [f for f in self.fx.by_cls.get(cls, []) if f.body is not None and (f.d.get('ctor') if what == 'ctor' else f.name == 'operator=') and len(f.params) == len(types) and not f.d.get('ta')
             and all(self.norm(f.tu.types[p['t']]) == t for t, p in zip(types, f.params))]
        if len({f.id for f in c}) != 1:
            raise AnalysisError('%s of %s from %s: %d candidates' % (what, cls, ', '.join(types), len(c)))
        return c[0]

    def norm(self, t):
        return t.replace('class ', '').replace('struct ', '').replace(' ', '')

    def mv(self, cls):
        return cls + '&&'

    def load(self, st, text, name, gen=0x12340007, schema=0, version=0x10300):
        r = self.B.load(st, text, name, version)
        if r is None:
            raise AnalysisError('module %s is not taken in' % name)
        st, M = r
        for setter, v in (('setSpvGenerator', gen), ('setSpvSchema', schema)):
            st = self.L.call(st, M, self.L.fn(MOD, setter, 1), ('i', v))[0]
        return st, M

    def get(self, st, obj, cls, name, *args):
        r = self.L.call(st.fork(), obj, self.L.fn(cls, name, len(args)), *args)
        return None if r is None else r[1]

    def words(self, st, M):
        self.out = []
        w = self.L.call(st.fork(), M, self.write, ('ref', ('obj', 'writer')))
        return None if w is None or w[1] != ('i', 1) else list(self.out)

    def header(self, st, M):
        return [(g, self.get(st, M, MOD, g)) for g in ('getSpvVersion', 'getSpvGenerator', 'getSpvBound', 'getSpvSchema', 'getAllocator', 'getLogger', 'getTypeInferenceAndVailation')]

    def kids(self, st, f):
        """blocks and instructions of a function, the members in place by role"""
        L = self.L
        out = [('opfunction', L.sec(f, 'getFunction', FUNC))] + [('param', x) for x in L.list(st, L.sec(f, 'getParameters', FUNC))]
        for b in L.list(st, f):
            out += [('block', b), ('label', L.sec(b, 'getLabel', BB))] + [('body', x) for x in L.list(st, b)]
        return out + [('end', L.sec(f, 'getFunctionEnd', FUNC))]

    def where(self, st, M):
        """address of every instruction that is an element of a container, in order; the memory model is part of the module"""
        return [(s, f, l) for s, f, l in self.B.insts(st, M) if s != 'getMemoryModel']

    def answers(self, st, M, insts):
        """what the module says about its instructions"""
        L = self.L; out = []
        for s, f, l in insts:
            p = ('p', l)
            nm = self.get(st, M, MOD, 'getName', p, ('i', 0xffffffff))
            out.append(('getName', l, None if nm is None else self.L.cstr(st, nm) if nm != ZERO else ''))
            if s == 'getTypesAndConstants':
                t = self.get(st, M, MOD, 'getTypeInfo', p); c = self.get(st, M, MOD, 'getConstantInfo', p)
                out += [('getTypeInfo', l, t), ('getConstantInfo', l, c)]
                if t is not None and t[0] == 'p':
                    out.append(('getTypeInstr', l, self.get(st, M, MOD, 'getTypeInstr', ('ref', t[1]))))
            if nm is not None and nm != ZERO:
                out.append(('getInstructionByName', l, self.get(st, M, MOD, 'getInstructionByName', nm)))
        for x in ('Kernel', 'Shader', 'Linkage', 'Int64'):
            out.append(('checkCapability', x, self.get(st, M, MOD, 'checkCapability', ('i', self.cap(x)))))
        for x in ('GLSL.std.450', 'OpenCL.std'):
            out.append(('getExtensionInstructionImport', x, self.get(st, M, MOD, 'getExtensionInstructionImport', ('str', x))))
        return out

    def cap(self, n):
        return [v for name, v in ((x[0], x[1]) for x in self.fx.enums['spvgentwo::spv::Capability']['v']) if name == n][0]

    def parents(self, st, M, key, loc, what):
        """every instruction names the block, function and module it is in"""
        rep = self.rep; L = self.L

        def ask(l, cls, name, want, who):
            v = self.get(st, l, cls, name)
            rep.check(v == want, '%s:%s' % (key, name), loc, '%s: %s of %s does not name the %s it is in now' % (what, name, who, 'module' if name == 'getModule' else 'function' if name == 'getFunction' else 'block'))
        m = ('p', M)
        for s, f, l in self.B.insts(st, M):
            ask(l, INSTR, 'getModule', m, '%s in %s' % (L.instr(st, l)[0], s))
        for a in ('getFunctions', 'getEntryPoints'):
            for f in L.list(st, L.sec(M, a)):
                self.inside(st, f, m, key, loc, what)
        rep.count('parents', 1)

    def inside(self, st, f, m, key, loc, what):
        rep = self.rep; L = self.L

        def ask(l, cls, name, want, who):
            v = self.get(st, l, cls, name)
            rep.check(v == want, '%s:%s' % (key, name), loc, '%s: %s of %s does not name what it is in now' % (what, name, who))
        ask(f, FUNC, 'getModule', m, 'a function')
        blk = None
        for k, x in self.kids(st, f):
            if k == 'block':
                blk = x
                ask(x, BB, 'getFunction', ('p', f), 'a block'); ask(x, BB, 'getModule', m, 'a block')
                continue
            ask(x, INSTR, 'getFunction', ('p', f), '%s (%s)' % (k, L.instr(st, x)[0])); ask(x, INSTR, 'getModule', m, '%s (%s)' % (k, L.instr(st, x)[0]))
            if k in ('label', 'body'):
                ask(x, INSTR, 'getBasicBlock', ('p', blk), '%s (%s)' % (k, L.instr(st, x)[0]))

    def empty(self, st, M, key, loc, what):
        for a in SECTIONS + ('getFunctions', 'getEntryPoints'):
            l = self.L.map(st, self.L.sec(M, a)) if a in MAPS else self.L.list(st, self.L.sec(M, a))
            self.rep.check(not l, key + ':' + a, loc, '%s: %d elements are left behind in %s' % (what, len(l), a))

    def owned(self, st, M, l):
        return any(True for s, f, x in self.B.insts(st, M) if x == l)

    # -------------------------------------------------------------------------------------------- modules
    def modules(self, i, n):
        rep = self.rep
        ctor = self.special(MOD, 'ctor', self.mv(MOD)); asg = self.special(MOD, 'operator=', self.mv(MOD))
        cases = [(a, b) for a in ('full', 'other', 'small', 'fresh') for b in ('new', 'fresh', 'full', 'other', 'small', 'self')]
        T = {'full': FULL, 'other': OTHER, 'small': SMALL}
        for src, dst in cases[i::n]:
            what = 'a module (%s) moved to %s' % (src, {'new': 'a new one', 'fresh': 'an empty one', 'self': 'itself'}.get(dst, 'one with contents (%s)' % dst))
            st = State()
            if src == 'fresh':
                st, A = self.L.module(st, 'A')
            else:
                st, A = self.load(st, T[src], 'A', schema=7)
            if dst == 'fresh':
                st, D = self.L.module(st, 'D')
            elif dst in T:
                st, D = self.load(st, T[dst], 'D', gen=0x99, schema=3, version=0x10100)
            else:
                D = ('obj', 'D')
            w0 = self.words(st, A); h0 = self.header(st, A); i0 = self.where(st, A); a0 = self.answers(st, A, i0)
            c0 = [self.L.instr(st, l) for s, f, l in self.B.insts(st, A)]
            if w0 is None:
                raise AnalysisError('module %s is not written' % src)
            f = ctor if dst == 'new' else asg
            loc = f.loc(); key = 'module:%s:%s' % (src, dst)
            if dst == 'self':
                D = A
            r = self.L.call(st, D, f, ('ref', A))
            if r is None:
                rep.bad(key + ':null', loc, '%s: null is dereferenced' % what)
                continue
            st = r[0]
            if f is asg:
                rep.check(r[1][0] in ('ref', 'p') and r[1][1] == D, key + ':this', loc, '%s: the assignment does not answer with the target' % what)
            h1 = self.header(st, D)
            for (g, x), (_, y) in zip(h0, h1):
                rep.check(x == y, '%s:%s' % (key, g), loc, '%s: %s was %s and is %s' % (what, g, x, y))
            i1 = self.where(st, D)
            rep.check(i0 == i1, key + ':contents', loc, '%s: %s' % (what, self.differ(st, i0, i1)))
            c1 = [self.L.instr(st, l) for s, f_, l in self.B.insts(st, D)]
            rep.check(c0 == c1, key + ':instructions', loc, '%s: an instruction has another operation or other operands afterwards: %s' % (what, [(x[0], y[0]) for x, y in zip(c0, c1) if x != y][:2]))
            if i0 == i1:
                for x, y in zip(a0, self.answers(st, D, i1)):
                    rep.check(x == y, '%s:%s' % (key, x[0]), loc, '%s: %s of %s answers differently' % (what, x[0], self.L.instr(st, x[1])[0] if isinstance(x[1], tuple) else x[1]))
                self.parents(st, D, key, loc, what)
            w1 = self.words(st, D)
            rep.check(w0 == w1, key + ':words', loc, '%s: %s' % (what, 'it cannot be written any more' if w1 is None else 'other words are written than before'))
            if dst != 'self':
                self.empty(st, A, key + ':source', loc, what)
            rep.count('instructions moved', len(i0))
            rep.sample('%s: %d instructions' % (what, len(i0)))

    def differ(self, st, a, b):
        for x, y in zip(a, b):
            if x != y:
                return 'in %s %s stands where %s was' % (x[0], self.L.instr(st, y[2])[0], self.L.instr(st, x[2])[0])
        return '%d instructions where there were %d' % (len(b), len(a))

    def resets(self):
        rep = self.rep
        reset = self.L.fn(MOD, 'reset', 0); loc = reset.loc()
        C = ('List<', 'HashMap<')
        conts = [f for f in self.fx.records[MOD]['fields'] if any(c in self.type(f['t']) for c in C)]
        rep.need('containers of a module', len(conts), 15)
        for src, t in (('full', FULL), ('other', OTHER), ('small', SMALL), ('fresh', None), ('twice', FULL)):
            what = 'a module (%s) after reset' % src
            key = 'reset:' + src
            st = State()
            st, A = self.load(st, t, 'A', schema=9) if t else self.L.module(st, 'A')
            if src == 'twice':
                st = self.L.call(st, A, reset)[0]
            st, N = self.L.module(st, 'N')
            own = self.header(st, A)[4:]
            r = self.L.call(st, A, reset)
            if r is None:
                rep.bad(key + ':null', loc, '%s: null is dereferenced' % what)
                continue
            st = r[0]
            for f in conts:
                x = ('f', A, f['n'])
                n = len(self.L.map(st, x)) if 'HashMap<' in self.type(f['t']) else len(self.L.list(st, x))
                rep.check(n == 0, '%s:%s' % (key, f['n']), loc, '%s: %s still has %d elements' % (what, f['n'], n))
            for (g, x), (_, y) in list(zip(self.header(st, A), self.header(st, N)))[:4]:
                rep.check(x == y, '%s:%s' % (key, g), loc, '%s: %s is %s, in a new module it is %s' % (what, g, x, y))
            rep.check(self.header(st, A)[4:] == own, key + ':services', loc, '%s: it has another allocator, logger or validation' % what)
            m = [self.L.instr(st, self.L.sec(x, 'getMemoryModel')) for x in (A, N)]
            rep.check(m[0] == m[1], key + ':memory model', loc, '%s: the memory model is %s, in a new module %s' % (what, m[0], m[1]))
            w = [self.words(st, x) for x in (A, N)]
            rep.check(w[0] == w[1], key + ':words', loc, '%s: other words are written than for a new module' % what)
            # taken in again, it is the module it would have been anew
            for again, t2 in (('full', FULL), ('other', OTHER)):
                s2 = st.fork()
                words, ids = self.B.asm.assemble(t2, 0x10300)
                got = []
                for X in (A, N):
                    s2.mem[('obj', '#at')] = ZERO
                    self.ip.words = words
                    r = self.L.call(s2, X, self.L.fn(MOD, 'readAndInit', 2), ('ref', ('obj', 'reader')), ('ref', self.B.gram))
                    if r is None or r[1] != ('i', 1):
                        got.append(None)
                        continue
                    s2 = r[0]
                    got.append((self.words(s2, X), [x[1] for x in self.header(s2, X)[:4]], [(x[0], x[2] if x[0] == 'getName' else x[2] not in (None, ZERO)) for x in self.answers(s2, X, self.where(s2, X))]))
                rep.check(got[1] is not None and got[0] == got[1], '%s:read again:%s' % (key, again), loc, '%s: reading a module (%s) into it %s' % (what, again, 'fails' if got[0] is None else 'gives another module than reading it into a new one'))
                rep.count('read again')
            rep.sample(what)

    def type(self, t):
        return t if isinstance(t, str) else self.fx.records[MOD]['_tu'].types[t]

    # -------------------------------------------------------------------------------------------- functions
    def functions(self):
        rep = self.rep; L = self.L
        ctor = self.special(FUNC, 'ctor', MOD + '*', self.mv(FUNC)); asg = self.special(FUNC, 'operator=', self.mv(FUNC)); plain = self.special(FUNC, 'ctor', MOD + '*')
        for src in ('h', 'd', 'm', 'w', 'empty'):
            for dst in ('new', 'new here', 'fresh', 'fresh here', 'h', 'd', 'o', 'm here', 'self'):
                what = 'a function (%s) moved to %s' % (src, {'new': 'a new one of another module', 'new here': 'a new one of its module', 'fresh': 'an empty one of another module', 'fresh here': 'an empty one of its module', 'self': 'itself', 'm here': 'another one of its module'}.get(dst, 'one with contents (%s)' % dst))
                key = 'function:%s:%s' % (src, dst)
                st, A, D = self.pair(OTHER if dst not in ('h', 'd') else FULL)
                S = self.function(st, A, 'A', src)
                if S is None:
                    st, S = self.made(st, plain, 'S', A)
                X = self.function(st, D, 'D', dst) if dst in ('h', 'd', 'o') else self.function(st, A, 'A', 'm') if dst == 'm here' else ('obj', 'X')
                owner = A if 'here' in dst else D
                if dst.startswith('fresh'):
                    st, X = self.made(st, plain, 'X', owner)
                if dst == 'self':
                    X = S; owner = A
                if X == S and dst != 'self':
                    continue
                k0 = self.kids(st, S); c0 = [(k, L.instr(st, x)) for k, x in k0 if k != 'block']
                t0 = self.ftype(st, S)
                f = ctor if dst.startswith('new') else asg
                loc = f.loc()
                r = L.call(st, X, f, *([('p', owner)] if f is ctor else []), ('ref', S))
                if r is None:
                    rep.bad(key + ':null', loc, '%s: null is dereferenced' % what)
                    continue
                st = r[0]
                k1 = self.kids(st, X); c1 = [(k, L.instr(st, x)) for k, x in k1 if k != 'block']
                at = lambda l: [(k, x) for k, x in l if k in ('param', 'block', 'label', 'body')]
                rep.check(at(k0) == at(k1), key + ':contents', loc, '%s: its parameters and blocks are not the ones it had, at the addresses they had' % what)
                rep.check(c0 == c1, key + ':instructions', loc, '%s: an instruction differs afterwards: %s' % (what, [(x, y) for x, y in zip(c0, c1) if x != y][:1]))
                rep.check(self.ftype(st, X) == t0, key + ':type', loc, '%s: getFunctionType is another type' % what)
                if len(k1) == len(k0):
                    self.inside(st, X, ('p', owner), key, loc, what)
                if dst != 'self':
                    left = [k for k, x in self.kids(st, S) if k in ('param', 'block', 'label', 'body')]
                    rep.check(not left and not L.list(st, L.sec(S, 'getFunction', FUNC)), key + ':source', loc, '%s: %s is left behind in the source' % (what, left[:1] or 'its OpFunction'))
                if f is asg:
                    rep.check(r[1][0] in ('ref', 'p') and r[1][1] == X, key + ':this', loc, '%s: the assignment does not answer with the target' % what)
                rep.count('functions moved')

    def ftype(self, st, f):
        t = self.types.read(st, self.L.sec(f, 'getFunctionType', FUNC))
        if t is None:
            raise AnalysisError('the type of a function is not concrete')
        return t

    def made(self, st, ctor, name, owner):
        o = ('obj', name)
        r = self.L.call(st, o, ctor, ('p', owner))
        if r is None:
            raise AnalysisError('constructor fails')
        return r[0], o

    def function(self, st, M, tag, name):
        if name == 'empty':
            return None
        ids = self.B.ids[tag]
        for a in ('getFunctions', 'getEntryPoints'):
            for f in self.L.list(st, self.L.sec(M, a)):
                v = self.get(st, M, MOD, 'getName', ('p', self.L.sec(f, 'getFunction', FUNC)), ('i', 0xffffffff))
                op, ops = self.L.instr(st, self.L.sec(f, 'getFunction', FUNC))
                if ('id', ('i', ids['%' + name])) in ops or any(k == 'id' and x == ('i', ids['%' + name]) for k, x in ops):
                    return f
        raise AnalysisError('function %s is not in the module' % name)

    def pair(self, t=OTHER):
        if not hasattr(self, 'two'):
            self.two = {}
        if t not in self.two:
            st, A = self.load(State(), FULL, 'A'); st, D = self.load(st, t, 'D')
            self.two[t] = st, A, D, self.B.ids['D']
        st, A, D, self.B.ids['D'] = self.two[t]
        return st.fork(), A, D

    # -------------------------------------------------------------------------------------------- blocks
    def blocks(self):
        rep = self.rep; L = self.L
        ctor = self.special(BB, 'ctor', FUNC + '*', self.mv(BB)); asg = self.special(BB, 'operator=', self.mv(BB))
        add = L.fn(FUNC, 'addBasicBlock', 1)
        for src in (0, 1, 2, 'empty'):
            for dst in ('new', 'new here', 0, 2, 'empty', 'empty other', 'other', 'self'):
                what = 'a block (%s) moved to %s' % (src, {'new': 'a new one of another function', 'new here': 'a new one of its function', 'empty': 'an empty one of its function', 'empty other': 'an empty one of another module', 'other': 'one of another module'}.get(dst, 'itself' if dst in ('self', src) else 'another one of its function'))
                key = 'block:%s:%s' % (src, dst)
                st, A, D = self.pair()
                h = self.function(st, A, 'A', 'h'); o = self.function(st, D, 'D', 'o')
                for f, on in ((h, 'empty' in (src, dst)), (o, dst == 'empty other')):
                    for i in range(2 * on):
                        st = L.call(st, f, add, ZERO)[0]
                S = L.list(st, h)[-2 if src == 'empty' else src]
                X = ('obj', 'X') if dst in ('new', 'new here') else L.list(st, o)[0] if dst == 'other' else S if dst == 'self' else L.list(st, o)[-1] if dst == 'empty other' else L.list(st, h)[-1 if dst == 'empty' else dst]
                owner, mod = (o, D) if dst in ('new', 'other', 'empty other') else (h, A)
                b0 = [(x, L.instr(st, x)) for x in L.list(st, S)]
                f = ctor if dst in ('new', 'new here') else asg
                loc = f.loc()
                r = L.call(st, X, f, *([('p', owner)] if f is ctor else []), ('ref', S))
                if r is None:
                    rep.bad(key + ':null', loc, '%s: null is dereferenced' % what)
                    continue
                st = r[0]
                b1 = [(x, L.instr(st, x)) for x in L.list(st, X)]
                rep.check(b0 == b1, key + ':contents', loc, '%s: its instructions are not the ones it had, at the addresses they had' % what)
                lab = L.sec(X, 'getLabel', BB)
                rep.check(L.instr(st, lab)[0] == 'OpLabel', key + ':label', loc, '%s: it has no OpLabel but %s' % (what, L.instr(st, lab)[0]))
                rep.check(self.get(st, X, BB, 'getFunction') == ('p', owner), key + ':function', loc, '%s: getFunction does not name the function it is in now' % what)
                for x, (op, _) in b1 + [(lab, ('OpLabel', None))]:
                    for name, want in (('getBasicBlock', X), ('getFunction', owner), ('getModule', mod)):
                        rep.check(self.get(st, x, INSTR, name) == ('p', want), '%s:%s' % (key, name), loc, '%s: %s of %s does not name what it is in now' % (what, name, op))
                if X != S:
                    rep.check(not L.list(st, S), key + ':source', loc, '%s: instructions are left behind in the source' % what)
                rep.count('blocks moved')

    # -------------------------------------------------------------------------------------------- instructions
    def instructions(self):
        rep = self.rep; L = self.L
        plain = self.special(INSTR, 'ctor', self.mv(INSTR)); asg = self.special(INSTR, 'operator=', self.mv(INSTR))
        own = {'module': self.special(INSTR, 'ctor', MOD + '*', self.mv(INSTR)), 'function': self.special(INSTR, 'ctor', FUNC + '*', self.mv(INSTR)), 'block': self.special(INSTR, 'ctor', BB + '*', self.mv(INSTR))}
        for src in ('OpFAdd', 'OpPhi', 'OpBranch', 'OpConstant', 'OpMemberName', 'OpTypeVoid', 'OpFunctionParameter', 'OpNoLine'):
            for how in ('plain', 'module', 'function', 'block', 'assign:module', 'assign:function', 'assign:block', 'assign:self', 'assign:empty', 'assign:block here', 'assign:module here'):
                what = 'an instruction (%s) %s' % (src, 'assigned to %s' % how[7:] if how.startswith('assign') else 'moved to %s' % ('a new one' if how == 'plain' else 'a new one of a ' + how))
                key = 'instruction:%s:%s' % (src, how)
                st, A, D = self.pair()
                o = self.function(st, D, 'D', 'o'); ob = L.list(st, o)[0]
                S = [l for s, f, l in self.B.insts(st, A) if L.instr(st, l)[0] == src][0]
                i0 = L.instr(st, S); ops0 = L.list(st, S); p0 = self.owners(st, S)
                X = ('obj', 'X'); args = [('ref', S)]
                if how == 'plain':
                    f = plain; want = p0
                elif how in own:
                    f = own[how]; args = [('p', {'module': D, 'function': o, 'block': ob}[how])] + args
                    want = {'module': (ZERO, ZERO, ('p', D)), 'function': (ZERO, ('p', o), ('p', D)), 'block': (('p', ob), ('p', o), ('p', D))}[how]
                else:
                    f = asg
                    X = {'module': L.list(st, L.sec(D, 'getNames'))[0], 'function': L.list(st, L.sec(o, 'getParameters', FUNC))[0], 'block': L.list(st, ob)[0], 'self': S,
                         'block here': L.list(st, L.list(st, self.function(st, A, 'A', 'h'))[1])[-1], 'module here': L.list(st, L.sec(A, 'getDecorations'))[0],
                         'empty': L.list(st, L.sec(D, 'getLines'))[0]}[how[7:]]
                    want = self.owners(st, X)
                loc = f.loc()
                r = L.call(st, X, f, *args)
                if r is None:
                    rep.bad(key + ':null', loc, '%s: null is dereferenced' % what)
                    continue
                st = r[0]
                rep.check(L.instr(st, X) == i0, key + ':contents', loc, '%s: it was %s and is %s' % (what, i0, L.instr(st, X)))
                rep.check(L.list(st, X) == ops0, key + ':operands', loc, '%s: its operands are not where they were' % what)
                rep.check(self.owners(st, X) == want, key + ':parent', loc, '%s: its block, function and module are %s, not %s' % (what, self.owners(st, X), want))
                if X != S:
                    rep.check(not L.list(st, S), key + ':source', loc, '%s: operands are left behind in the source' % what)
                if how == 'plain':
                    rep.check(self.get(st, S, INSTR, 'getModule') in (ZERO, None), key + ':orphan', loc, '%s: the source still claims a module' % what)
                    if how == 'plain':                  # what has lost its parent takes a new one; what has one keeps it
                        sp = L.fn(INSTR, 'setParent', 1, types=[BB])
                        s2 = L.call(st.fork(), S, sp, ('p', ob))
                        rep.check(s2 is not None and self.owners(s2[0], S) == (('p', ob), ('p', o), ('p', D)), key + ':set', sp.loc(), '%s: the source does not take a new parent' % what)
                        s2 = L.call(st.fork(), X, sp, ('p', ob))
                        rep.check(s2 is not None and self.owners(s2[0], X) == want, key + ':keep', sp.loc(), '%s: setParent takes it from where it is' % what)
                if f is asg:
                    rep.check(r[1][0] in ('ref', 'p') and r[1][1] == X, key + ':this', loc, '%s: the assignment does not answer with the target' % what)
                rep.count('single instructions moved')

    def owners(self, st, l):
        return tuple(self.get(st, l, INSTR, n) for n in ('getBasicBlock', 'getFunction', 'getModule'))

    # -------------------------------------------------------------------------------------------- operands
    def operands(self):
        rep = self.rep; O = self.L.ops; ip = self.ip
        vals = [('block', ('p', ('obj', 'b1'))), ('block', ('p', ('obj', 'b2'))), ('instr', ('p', ('obj', 'i1'))), ('instr', ('p', ('obj', 'i2'))), ('instr', ZERO), ('block', ZERO), ('lit', ('i', 7)), ('lit', ('i', 9)),
                ('lit', ZERO), ('id', ('i', 7)), ('id', ('i', 9)), ('id', ZERO)]
        cp, mv = 'const%s&' % OPERAND, self.mv(OPERAND)
        ways = [('copied', self.special(OPERAND, 'ctor', cp), False), ('moved', self.special(OPERAND, 'ctor', mv), False), ('assigned', self.special(OPERAND, 'operator=', cp), True), ('move assigned', self.special(OPERAND, 'operator=', mv), True)]
        for kind, v in vals:
            for how, f, over in ways:
                for old in (vals + ['self'] if over else [None]):
                    st = State()
                    for x in ('b1', 'b2', 'i1', 'i2'):
                        st.facts[('nz', ('p', ('obj', x)))] = True
                    S = ('obj', 'S'); X = ('obj', 'X')
                    st = O.put(st, S, kind, v)
                    if old == 'self':
                        X = S
                    elif old:
                        st = O.put(st, X, *old)
                    r = self.L.call(st, X, f, ('ref', S))
                    got = None if r is None else O.read(r[0], X)
                    key = 'operand:%s:%s:%s' % (how, kind, old if old in (None, 'self') else old[0])
                    rep.check(got == (kind, v), key, f.loc(), 'an operand (%s) %s%s is %s' % (kind, how, '' if old is None else ' to itself' if old == 'self' else ' over %s' % old[0], got))
                    rep.count('operands copied')
                    if r is not None and over:
                        rep.check(r[1][0] in ('ref', 'p') and r[1][1] == X, key + ':this', f.loc(), 'the assignment of an operand does not answer with its target')
        # equality: same kind, same content
        eqs = {}
        for name in ('operator==', 'operator!='):
            for f in self.fx.by_cls[OPERAND]:
                if f.name == name and f.body is not None and len(f.params) == 1:
                    t = self.norm(f.tu.types[f.params[0]['t']])
                    k = 'all' if OPERAND in t else 'block' if 'BasicBlock' in t else 'instr' if 'Instruction' in t else 'lit' if 'literal_t' in t else 'id' if 'Id' in t else None
                    if k:
                        eqs[(name, k)] = f
        rep.need('comparisons of operands', len(eqs), 9)
        for (name, k), f in sorted(eqs.items()):
            for a, x in vals:
                for b, y in vals:
                    if k != 'all' and b != k:
                        continue
                    st = State()
                    for q in ('b1', 'b2', 'i1', 'i2'):
                        st.facts[('nz', ('p', ('obj', q)))] = True
                    S = ('obj', 'S'); X = ('obj', 'X')
                    st = O.put(st, S, a, x)
                    if k == 'all':
                        st = O.put(st, X, b, y); arg = ('ref', X)
                    elif k in ('block', 'instr'):
                        arg = y
                    elif k == 'lit':
                        st.mem[('f', X, O.litname)] = y; arg = ('ref', X)
                    else:
                        st.mem[X] = y; arg = ('ref', X)
                    r = self.L.call(st, S, f, arg)
                    want = (a == b and x == y) == (name == 'operator==')
                    rep.check(r is not None and r[1] == ('i', int(want)), 'equal:%s:%s:%s:%s' % (name, k, a, b), f.loc(), 'Operand::%s(%s) of %s %s and %s %s is %s' % (name, k, a, x, b, y, None if r is None else r[1]))
                    rep.count('operands compared')


def check(fx, rep):
    rep.rule('moved: same instructions at the same addresses, same header, lookups and words, every parent pointer names the new owner, nothing left in the source')
    rep.rule('reset: every container empty, everything else as in a new module; what is read afterwards is what a new module reads')

    def on(f):
        def g(r):
            f(Moves(fx, r))
        return g
    N = 5
    parallel(rep, [on(lambda p, i=i: p.modules(i, N)) for i in range(N)] + [on(lambda p: p.resets()), on(lambda p: p.functions()), on(lambda p: p.blocks()), on(lambda p: p.instructions()), on(lambda p: p.operands())])
    rep.need('instructions moved', rep.counts.get('instructions moved', 0), 500)
    rep.need('blocks moved', rep.counts.get('blocks moved', 0), 12)
    rep.need('operands compared', rep.counts.get('operands compared', 0), 300)
    rep.need('functions moved', rep.counts.get('functions moved', 0), 25)

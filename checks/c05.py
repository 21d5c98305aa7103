"""C05: the way through the library.  Modules are taken in through the project's reader and written again by Module::write, the code of both followed with the words
as constants; what comes out is compared, instruction by instruction, with what went in.  With ids assigned anew in between it is the same module up to one renaming."""
from c06 import Ref
from sa import spec
from sa.absint import ZERO
from sa.binary import Binaries, BinInterp
from sa.facts import AnalysisError
from sa.report import parallel
from sa.types import MOD

IW = 'spvgentwo::IWriter'

# sections of the logical layout (specification 2.4); the ninth is ordered by use, not by kind
ORDER = ['cap', 'ext', 'import', 'model', 'entry', 'mode', 'debug', 'name', 'processed', 'deco', 'global', 'func']
DECOS = {'OpDecorate', 'OpMemberDecorate', 'OpDecorationGroup', 'OpGroupDecorate', 'OpGroupMemberDecorate', 'OpDecorateId', 'OpDecorateString', 'OpMemberDecorateString'}


def section(op):
    for s, ops in (('cap', ('OpCapability',)), ('ext', ('OpExtension',)), ('import', ('OpExtInstImport',)), ('model', ('OpMemoryModel',)), ('entry', ('OpEntryPoint',)), ('mode', ('OpExecutionMode', 'OpExecutionModeId')),
                   ('debug', ('OpString', 'OpSourceExtension', 'OpSource', 'OpSourceContinued')), ('name', ('OpName', 'OpMemberName')), ('processed', ('OpModuleProcessed',)), ('deco', DECOS)):
        if op in ops:
            return s
    return 'global'


def sub(op):
    """within the ninth section the order of one kind is kept"""
    return 'variables' if op == 'OpVariable' else 'undefs' if op == 'OpUndef' else 'lines' if op in ('OpLine', 'OpNoLine') else 'types and constants'


HEAD = '''OpCapability Shader
OpCapability Linkage
OpExtension "SPV_KHR_storage_buffer_storage_class"
%glsl = OpExtInstImport "GLSL.std.450"
OpMemoryModel Logical GLSL450
'''
PRE = '''%void = OpTypeVoid
%float = OpTypeFloat 32
%uint = OpTypeInt 32 0
%v4 = OpTypeVector %float 4
%fv = OpTypeFunction %void
%c = OpConstant %float 1065353216
%pf = OpTypePointer Private %float
%v = OpVariable %pf Private
%f = OpFunction %void None %fv
%l = OpLabel
%x0 = OpFAdd %float %c %c
'''
POST = '''OpBranch %end
%end = OpLabel
OpReturn
OpFunctionEnd
'''


class Round:
    def __init__(self, fx, rep):
        self.fx = fx; self.rep = rep
        self.ip = BinInterp(fx)
        self.B = Binaries(fx, self.ip); self.L = self.B.L
        self.core = spec.core(); self.ref = Ref(self.ip.tables)
        self.out = []
        self.ip.contracts[(IW, 'put')] = self.put
        self.k = 0; self.n = 0; self.wide = set()
        self.write = self.L.fn(MOD, 'write', 1)
        self.assign = self.L.fn(MOD, 'assignIDs', 1)
        self.known = set(x[1] for x in fx.enums['spvgentwo::spv::Op']['v'])

    def put(self, st, fr, n, fn, obj, args):
        self.out.append(self.ip.num(st, args[0]))
        return [(st, ('i', 1))]

    # ------------------------------------------------------------ words
    def split(self, words):
        """[(opcode, [words])] or None"""
        out = []; i = 0
        while i < len(words):
            n = words[i] >> 16
            if n == 0 or i + n > len(words):
                return None
            out.append((words[i] & 0xffff, tuple(words[i + 1:i + n])))
            i += n
        return out

    def layout(self, insts):
        """{section: [instruction]}, functions as lists"""
        S = {s: [] for s in ORDER}
        f = None
        for o, w in insts:
            nm = self.core.name_of(o)
            if f is not None:
                f.append((o, w))
                if nm == 'OpFunctionEnd':
                    f = None
            elif nm == 'OpFunction':
                f = [(o, w)]; S['func'].append(f)
            else:
                S[section(nm)].append((o, w))
        return S

    def show(self, i):
        return '%s %s' % (self.core.name_of(i[0]), ' '.join(hex(x) if x > 9999 else str(x) for x in i[1]))

    def ids(self, o, w):
        """which words are ids; None for what the grammar does not read"""
        if self.core.name_of(o) == 'OpSwitch' and w and w[0] in self.wide:
            return [True, True] + [j % 3 == 2 for j in range(len(w) - 2)]
        p = self.ref.parse(o, [('i', x) for x in w])
        return None if p is None else [k == 'id' for k, _ in p]

    def spread(self, words):
        """the same module with other ids, with gaps between them"""
        out = list(words[:5]); out[3] = 3 * words[3] + 5; out[4] = 3
        for o, w in self.split(words[5:]):
            p = self.ids(o, w) or [False] * len(w)
            out += [(len(w) + 1) << 16 | o] + [3 * x + 5 if b else x for b, x in zip(p, w)]
        return out

    def wide_values(self, words):
        """ids of 64 bit integer values: literals of switches over them have two words"""
        I = self.split(words[5:]); n = self.core.insts
        t = {w[0] for o, w in I if o == n['OpTypeInt']['opcode'] and w[1] == 64}
        return {w[1] for o, w in I if len(w) > 1 and w[0] in t}

    def compare(self, key, what, words, out, strict=True):
        rep = self.rep
        loc = self.write.loc()
        if any(x[0] != 'i' for x in out):
            rep.bad(key + ':words', loc, '%s: words are written that do not come from the module' % what)
            return None
        out = [x[1] & 0xffffffff for x in out]
        if len(out) < 5 or out[0] != words[0] or out[1] != words[1] or out[3] != words[3] or out[4] != words[4]:
            rep.bad(key + ':header', loc, '%s: header %s becomes %s' % (what, words[:5], out[:5]))
            return None
        I = self.split(words[5:]); O = self.split(out[5:])
        if O is None:
            rep.bad(key + ':stream', loc, '%s: what is written is no stream of instructions' % what)
            return None
        A = self.layout(I); Z = self.layout(O)
        seq = [ORDER.index(section(self.core.name_of(o))) for o, w in O if self.core.name_of(o) not in ('OpFunctionParameter', 'OpFunctionEnd')]
        bad = 0

        def fail(sec, msg):
            nonlocal bad
            bad += 1
            if bad < 6:
                rep.bad('%s:%s:%s' % (key, sec, msg.split(' becomes')[0][:60]), loc, '%s: %s' % (what, msg))
        for s in ORDER:
            a, z = A[s], Z[s]
            if s in ('cap', 'ext', 'import'):
                u = sorted(set(a))
                if sorted(z) != u:
                    fail(s, '%s becomes %s' % ([self.show(x) for x in u], [self.show(x) for x in z]))
            elif s == 'global':
                for k in ('types and constants', 'variables', 'undefs', 'lines'):
                    x = [i for i in a if sub(self.core.name_of(i[0])) == k]; y = [i for i in z if sub(self.core.name_of(i[0])) == k]
                    self.lists(fail, k, x, y)
                if strict:
                    self.uses(fail, a, z)
            elif s == 'func':
                ka = {f[0]: f for f in a}; kz = {f[0]: f for f in z}
                if sorted(ka) != sorted(kz) or len(a) != len(z):
                    fail(s, 'functions %s becomes %s' % ([self.show(x) for x in ka], [self.show(x) for x in kz]))
                    continue
                for h in ka:
                    self.lists(fail, 'function', ka[h], kz[h])
                eps = {w[1] for o, w in A['entry']}
                plain = lambda fs: [f[0] for f in fs if f[0][1][1] not in eps]
                decl = lambda fs: [f[0] for f in fs if f[0][1][1] not in eps and not any(self.core.name_of(o) == 'OpLabel' for o, w in f)]
                if [h for h in plain(a) if h not in decl(a)] != [h for h in plain(z) if h not in decl(z)] or decl(a) != decl(z):
                    fail(s, 'the order of functions becomes another')
                d = [any(self.core.name_of(o) == 'OpLabel' for o, w in f) for f in z]
                if d != sorted(d):
                    fail(s, 'a function declaration becomes placed behind a definition')
            else:
                self.lists(fail, s, a, z)
        if not bad:
            rep.ok()
        # sections in order
        place = []
        infunc = False
        for o, w in O:
            nm = self.core.name_of(o)
            if nm == 'OpFunction': infunc = True
            place.append(ORDER.index('func') if infunc else ORDER.index(section(nm)))
            if nm == 'OpFunctionEnd': infunc = False
        rep.check(place == sorted(place), key + ':layout', loc, '%s: sections are not written in the order of the logical layout' % what)
        return O if not bad else None

    def lists(self, fail, sec, a, z):
        if a == z:
            return
        for i in range(max(len(a), len(z))):
            x = a[i] if i < len(a) else None; y = z[i] if i < len(z) else None
            if x != y:
                fail(sec, '%s becomes %s' % (self.show(x) if x else 'nothing', self.show(y) if y else 'nothing'))
                if len(a) != len(z):
                    return

    def uses(self, fail, a, z):
        """what was defined before its use still is"""
        def order(l):
            r = {}
            for n, (o, w) in enumerate(l):
                p = self.core.by_op.get(o)
                ks = [x['kind'] for x in p.get('operands', [])] if p else []
                if 'IdResult' in ks and ks.index('IdResult') < len(w):
                    r.setdefault(w[ks.index('IdResult')], n)
            return r
        da, dz = order(a), order(z)
        at = {}
        for n, i in enumerate(z):
            at.setdefault(i, n)
        for n, (o, w) in enumerate(a):
            p = self.ids(o, w)
            if p is None or self.core.name_of(o) == 'OpTypeForwardPointer':
                continue
            for b, x in zip(p, w):
                if b and x in da and da[x] < n and dz.get(x, -1) > at[(o, w)]:
                    fail('use', 'a definition used by %s becomes placed behind it' % self.core.name_of(o))

    # ------------------------------------------------------------ one module
    def case(self, key, what, words, refuse=False, rename=True):
        """reads, writes and compares; with `refuse` the reader may also decline"""
        rep = self.rep
        self.k += 1
        self.wide = self.wide_values(words)
        words = self.spread(words)
        self.wide = self.wide_values(words)
        name = 'R%d' % self.k
        st, M = self.L.module(None, name)
        st.mem[('obj', '#at')] = ('i', 0)
        self.ip.words = words
        rd = self.L.fn(MOD, 'readAndInit', 2)
        self.n += 1
        try:
            r = self.L.call(st, M, rd, ('ref', ('obj', 'reader')), ('ref', self.B.gram))
        except AnalysisError as e:
            if 'path' in str(e) and refuse:
                return None
            raise
        if r is None:
            rep.bad(key + ':read', rd.loc(), '%s: reading dereferences null' % what)
            return None
        st, v = r
        if v != ('i', 1):
            if refuse:
                rep.count('refused'); rep.ok()
                return None
            rep.bad(key + ':read', rd.loc(), '%s: the module is refused' % what)
            return None
        if refuse:
            rep.count('taken')
        self.out = []
        w = self.L.call(st, M, self.write, ('ref', ('obj', 'writer')))
        if refuse and w is not None and w[1] == ('i', 0):
            rep.count('refused'); rep.ok()
            return None
        if w is None or w[1] != ('i', 1):
            rep.bad(key + ':write', self.write.loc(), '%s: what was read cannot be written%s' % (what, ' (null is dereferenced)' if w is None else ''))
            return None
        O = self.compare(key, what, words, self.out)
        if O is None or not rename:
            return O
        first = [x[1] & 0xffffffff for x in self.out]
        a = self.L.call(st, M, self.assign, ZERO)
        if a is None:
            rep.bad(key + ':assign', self.assign.loc(), '%s: assignIDs dereferences null' % what)
            return O
        self.out = []
        w = self.L.call(a[0], M, self.write, ('ref', ('obj', 'writer')))
        if w is None or w[1] != ('i', 1) or any(x[0] != 'i' for x in self.out):
            rep.bad(key + ':write again', self.write.loc(), '%s: it cannot be written any more once ids are assigned' % what)
            return O
        out = [x[1] & 0xffffffff for x in self.out]
        P = self.split(out[5:]) if len(out) > 4 else None
        if P is None or len(P) != len(O):
            rep.bad(key + ':again', self.write.loc(), '%s: with ids assigned other instructions are written' % what)
            return O
        fwd = {}; back = {}
        for (o, x), (p, y) in zip(O, P):
            ids = self.ids(o, x)
            good = o == p and len(x) == len(y)
            if good and ids is not None:
                for b, s, t in zip(ids, x, y):
                    if not b:
                        good = good and s == t
                    else:
                        good = good and fwd.setdefault(s, t) == t and back.setdefault(t, s) == s
            elif good:
                good = x == y
            if not good:
                rep.bad('%s:renamed:%s' % (key, self.core.name_of(o)), self.assign.loc(), '%s: with ids assigned anew %s becomes %s, no renaming of ids does that' % (what, self.show((o, x)), self.show((p, y))))
                return O
        rep.check(out[3] > max(fwd.values(), default=0) and 0 not in back, key + ':bound', self.assign.loc(), '%s: the bound %d does not cover the ids assigned' % (what, out[3]))
        rep.count('renamed')
        return O

    def text(self, key, t, version=0x10000, refuse=False, what=None):
        words, ids = self.B.asm.assemble(t, version)
        return self.case(key, what or key, words, refuse)

    # ------------------------------------------------------------ every instruction
    def operand(self, k, salt, pool, value=None):
        """words of one operand"""
        t = self.ip.tables; cat = self.core.category(k)
        if k == 'IdResultType':
            return [pool['types'][salt % len(pool['types'])]]
        if k == 'IdResult':
            pool['next'] += 1
            pool['results'].append(pool['next'])
            return [pool['next']]
        if cat == 'Id':
            ids = pool['ids'] + pool['results'][-2:]
            pool['at'] += 1
            return [ids[pool['at'] % len(ids)]]
        if k == 'LiteralString':
            b = (b'abcdefghijk'[:salt % 9] if salt % 9 else b'z') + b'\0'
            b += b'\0' * (-len(b) % 4)
            return [int.from_bytes(b[j:j + 4], 'little') for j in range(0, len(b), 4)]
        if k == 'LiteralSpecConstantOpInteger':
            return [self.core.insts['OpIAdd']['opcode']] + self.operand('IdRef', salt, pool) + self.operand('IdRef', salt, pool)
        if cat == 'Composite':
            return [w for b in self.core.bases(k) for w in self.operand(b, salt, pool)]
        if cat in ('ValueEnum', 'BitEnum'):
            vs = []
            for e in self.core.enumerants(k):
                v = e['value']; vs.append(int(v, 16) if isinstance(v, str) else v)
            if value is None:
                plain = [v for v in vs if (k, v) not in t.params]
                value = plain[salt % len(plain)] if plain else vs[0]
            ps = []
            if cat == 'ValueEnum':
                ps = t.params.get((k, value), [])
            else:
                for b in range(32):
                    if value >> b & 1:
                        ps = ps + t.params.get((k, 1 << b), [])
            out = [value]
            for j, p in enumerate(ps):
                out += self.operand(p['kind'], salt + j, pool)
            return out
        return [0x80000000 + salt if salt % 3 == 0 else salt % 5]

    def variants(self, op, pool, params=True):
        """operand lists of an instruction: required ones, then each optional one in turn, repeated ones up to three times; each enumerant with parameters"""
        l = self.ip.tables.ops(op)
        salt = op % 7
        req = lambda: [w for i, o in enumerate(l) if o['q'] == 'One' for w in self.operand(o['kind'], salt + i, pool)]
        yield req()
        opt = [(i, o) for i, o in enumerate(l) if o['q'] != 'One']
        if all(o['q'] == 'One' for o in l[:opt[0][0]]) if opt else False:
            for n in range(1, len(opt) + 1):
                for m in ((1, 2, 3) if opt[n - 1][1]['q'] == 'ZeroOrAny' else (1,)):
                    w = [x for i, o in enumerate(l[:opt[0][0]]) for x in self.operand(o['kind'], salt + i, pool)]
                    for j, (i, o) in enumerate(opt[:n]):
                        for _ in range(m if j == n - 1 else 1):
                            w += self.operand(o['kind'], salt + i, pool)
                    yield w
        if params:
            for i, o in enumerate(l):
                vals = sorted(v for (k, v) in self.ip.tables.params if k == o['kind'])
                if not vals:
                    continue
                todo = list(vals)
                if self.core.category(o['kind']) == 'BitEnum':
                    todo += [a | b for a in vals for b in vals if a < b]
                elif o['kind'] == 'Decoration' or o['kind'] == 'ExecutionMode':
                    todo = vals
                for v in todo:
                    w = []
                    for j, x in enumerate(l[:i + 1]):
                        w += self.operand(x['kind'], salt + j, pool, v if j == i else None)
                    for j, x in enumerate(l[i + 1:]):
                        if x['q'] == 'One':
                            w += self.operand(x['kind'], salt + j, pool)
                    yield w

    SKIP = ('OpFunction', 'OpFunctionEnd', 'OpLabel', 'OpFunctionParameter')
    TERM = ('OpBranch', 'OpBranchConditional', 'OpSwitch', 'OpKill', 'OpReturn', 'OpReturnValue', 'OpUnreachable', 'OpTerminateInvocation', 'OpIgnoreIntersectionKHR', 'OpTerminateRayKHR', 'OpEmitMeshTasksEXT')

    def frame(self, extra=''):
        words, ids = self.B.asm.assemble(HEAD + extra + PRE + 'OpNop\n' + POST)
        i = next(j for j in range(5, len(words)) if words[j] == 0x10000)
        types = [ids[x] for x in ('%float', '%uint', '%v4')]
        pool = dict(types=types, ids=[ids[x] for x in ('%c', '%v', '%x0', '%end', '%f', '%float', '%l')], next=words[3] - 1, results=[], at=0)
        return words, i, pool

    def bodies(self, part, of):
        """every instruction in a function body, in every shape"""
        todo = sorted(o for o in self.core.by_op if o in self.known and self.ip.tables.ops(o) is not None)
        self.rep.need('instructions of the grammar', len(todo), 500)
        todo = [o for o in todo if self.core.name_of(o) not in self.SKIP]
        mine = todo[part::of]
        words, i, pool = self.frame()
        body = []; n = here = 0

        def flush():
            nonlocal words, i, pool, body
            if body:
                w = words[:i] + body + words[i + 1:]
                w[3] = pool['next'] + 1
                self.case('body:%d' % n, 'instructions of a function (%s to %s)' % (first, nm), w)
            words, i, pool = self.frame(); body = []
        first = None
        for o in mine:
            nm = self.core.name_of(o)
            if nm == 'OpSpecConstantOp':
                continue
            for ops in self.variants(o, pool):
                first = first or nm
                if nm in self.TERM:
                    pool['next'] += 1
                    body += [(len(ops) + 1) << 16 | o] + ops + [2 << 16 | self.core.insts['OpLabel']['opcode'], pool['next']]
                else:
                    body += [(len(ops) + 1) << 16 | o] + ops
                n += 1; here += 1; self.rep.count('instructions')
            if here >= 40:
                flush(); first = None; here = 0
        flush()

    def anywhere(self, part, of):
        """every instruction at every place of a module: it comes out where and as it went in, or the module is refused"""
        todo = sorted(o for o in self.core.by_op if o in self.known and self.ip.tables.ops(o) is not None and self.core.name_of(o) not in self.SKIP + ('OpMemoryModel',))
        base = [('types', '%v = OpVariable'), ('before the functions', '%f = OpFunction'), ('before the first block', '%l = OpLabel'), ('between blocks', '%end = OpLabel'), ('behind the functions', None)]
        lines = (HEAD + PRE + POST).splitlines()
        for place, mark in base:
            at = next((j for j, x in enumerate(lines) if mark and x.startswith(mark)), len(lines))
            words, ids = self.B.asm.assemble('\n'.join(lines[:at] + ['OpNop'] + lines[at:]))
            i = next(j for j in range(5, len(words)) if words[j] == 0x10000)
            mine = todo[part::of]
            if self.rep.tier != 'thorough':
                # what the reader tells apart, and a sample of the rest
                mine = [o for o in mine if section(self.core.name_of(o)) != 'global' or sub(self.core.name_of(o)) != 'types and constants' or self.core.name_of(o) in self.TERM + ('OpExtInst', 'OpNop') or (o // of) % 6 == 0]
            for o in mine:
                nm = self.core.name_of(o)
                pool = dict(types=[ids[x] for x in ('%float', '%uint', '%v4')], ids=[ids[x] for x in ('%c', '%float', '%v4')], next=words[3] - 1, results=[], at=0)
                ops = next(iter(self.variants(o, pool, False)))
                w = words[:i] + [(len(ops) + 1) << 16 | o] + ops + words[i + 1:]
                w[3] = pool['next'] + 1
                self.case('place:%s:%s' % (place, nm), '%s %s' % (nm, place), w, True, False)

    # ------------------------------------------------------------ modules
    def modules(self, part, of):
        S = '''OpReturn
OpFunctionEnd
'''
        V = '''%void = OpTypeVoid
%fv = OpTypeFunction %void
'''
        def fun(n, body='OpReturn\n', ty='%fv', ret='%void', ctl='None', params=''):
            return '%%%s = OpFunction %s %s %s\n%s%%%s_l = OpLabel\n%sOpFunctionEnd\n' % (n, ret, ctl, ty, params, n, body)
        c = []
        add = lambda k, t, v=0x10000, refuse=False: c.append((k, t, v, refuse))
        add('empty', HEAD)
        add('kernel memory model', 'OpCapability Kernel\nOpCapability Addresses\nOpMemoryModel Physical64 OpenCL\n')
        add('many capabilities', ''.join('OpCapability %s\n' % x for x in ('Shader', 'Matrix', 'Geometry', 'Float64', 'Int64', 'Int16', 'Kernel', 'Linkage', 'ImageQuery', 'Sampled1D', 'Groups', 'Vector16', 'Shader')) + 'OpExtension "SPV_A"\nOpExtension "SPV_KHR_b"\nOpExtension "SPV_A"\n%a = OpExtInstImport "GLSL.std.450"\n%b = OpExtInstImport "OpenCL.std"\n%c = OpExtInstImport "NonSemantic.X"\nOpMemoryModel Logical GLSL450\n')
        sep = '''OpEntryPoint GLCompute %m "main"
OpEntryPoint Vertex %w "a longer name of an entry point" %vi %vo
OpExecutionMode %m LocalSize 8 4 1
OpExecutionMode %w SubgroupSize 4
OpExecutionModeId %m LocalSizeId %k %k %k
%s1 = OpString "file.comp"
OpSourceExtension "GL_EXT"
OpSource GLSL 450 %s1 "void main() {}"
OpSourceContinued "more"
OpSource HLSL 600
OpName %m "main"
OpName %S "S"
OpMemberName %S 0 "first"
OpMemberName %S 1 ""
OpName %vi ""
OpModuleProcessed "processed by"
OpModuleProcessed ""
OpDecorate %S Block
OpMemberDecorate %S 0 Offset 0
OpMemberDecorate %S 1 Offset 16
OpDecorate %vi Location 0
OpDecorate %vo BuiltIn Position
OpDecorate %g RelaxedPrecision
%g = OpDecorationGroup
OpGroupDecorate %g %vi %vo
OpGroupMemberDecorate %g %S 0 %S 1
OpDecorateId %vi UniformId %k
OpDecorateString %vo UserSemantic "SV_Position"
OpMemberDecorateString %S 1 UserSemantic "x"
'''
        glob = V + '''%float = OpTypeFloat 32
%uint = OpTypeInt 32 0
%k = OpConstant %uint 8
%v4 = OpTypeVector %float 4
%pi = OpTypePointer Input %v4
%vi = OpVariable %pi Input
OpLine %s1 1 2
%S = OpTypeStruct %v4 %uint
%po = OpTypePointer Output %v4
OpNoLine
%vo = OpVariable %po Output
%u = OpUndef %float
%z = OpConstantNull %S
%pp = OpTypePointer Private %S
%vz = OpVariable %pp Private %z
'''
        add('every section', HEAD + sep + glob + fun('m') + fun('w', 'OpLine %s1 10 1\n%m_x = OpLoad %v4 %vi\nOpStore %vo %m_x\nOpNoLine\nOpReturn\n') + fun('h'), 0x10300)
        add('entry points between functions', HEAD + 'OpEntryPoint GLCompute %b "b"\nOpEntryPoint GLCompute %d "d"\n' + V + fun('a') + fun('b', '%x = OpFunctionCall %void %c\nOpReturn\n') + fun('c', '%y = OpFunctionCall %void %a\nOpReturn\n') + fun('d') + fun('e'))
        add('entry points in another order', HEAD + 'OpEntryPoint GLCompute %b "b"\nOpEntryPoint Fragment %a "a"\n' + V + fun('a') + fun('b'))
        add('one function, two entry points', HEAD + 'OpEntryPoint GLCompute %b "one"\nOpEntryPoint TessellationControl %b "two"\n' + V + fun('a') + fun('b'))
        add('one function, two entry points of a name', HEAD + 'OpEntryPoint Vertex %b "main"\nOpEntryPoint Fragment %b "main"\nOpEntryPoint Vertex %c "other"\nOpName %b "main"\n' + V + fun('c') + fun('b'))
        add('declarations', HEAD + 'OpDecorate %a LinkageAttributes "a" Import\nOpDecorate %b LinkageAttributes "b" Import\n' + V + '%float = OpTypeFloat 32\n%ff = OpTypeFunction %float %float %float\n%a = OpFunction %void None %fv\nOpFunctionEnd\n%b = OpFunction %float Inline|Pure %ff\n%p = OpFunctionParameter %float\n%q = OpFunctionParameter %float\nOpFunctionEnd\n' + fun('c', '%x = OpFunctionCall %void %a\n%y = OpFunctionCall %float %b %r %t\nOpReturnValue %y\n', '%ff', '%float', params='%r = OpFunctionParameter %float\n%t = OpFunctionParameter %float\n'))
        loop = '''OpBranch %hd
%hd = OpLabel
%i = OpPhi %uint %zero %m_l %inc %cont
%cmp = OpULessThan %bool %i %ten
OpLoopMerge %mg %cont Unroll
OpBranchConditional %cmp %bd %mg 3 1
%bd = OpLabel
OpSelectionMerge %sm Flatten
OpSwitch %i %df 0 %ca 7 %cb 4294967295 %ca
%ca = OpLabel
OpBranch %df
%cb = OpLabel
OpKill
%df = OpLabel
OpBranch %sm
%sm = OpLabel
%sel = OpPhi %uint %i %df
OpBranch %cont
%cont = OpLabel
%inc = OpIAdd %uint %i %one
OpBranch %hd
%mg = OpLabel
OpUnreachable
'''
        T = V + '%uint = OpTypeInt 32 0\n%bool = OpTypeBool\n%zero = OpConstant %uint 0\n%one = OpConstant %uint 1\n%ten = OpConstant %uint 10\n'
        add('loops and switches', HEAD + 'OpEntryPoint Fragment %m "m"\nOpExecutionMode %m OriginUpperLeft\n' + T + fun('m', loop))
        types = '''%void = OpTypeVoid
%bool = OpTypeBool
%i8 = OpTypeInt 8 1
%i16 = OpTypeInt 16 0
%i32 = OpTypeInt 32 1
%i64 = OpTypeInt 64 0
%s64 = OpTypeInt 64 1
%h = OpTypeFloat 16
%f = OpTypeFloat 32
%d = OpTypeFloat 64
%v2 = OpTypeVector %f 2
%v3 = OpTypeVector %v3e 3
%m = OpTypeMatrix %v2 3
%n = OpConstant %i32 4
%arr = OpTypeArray %m %n
%ra = OpTypeRuntimeArray %arr
%st = OpTypeStruct %arr %ra
%st2 = OpTypeStruct %arr %ra
%e = OpTypeStruct
%img = OpTypeImage %f 2D 1 0 1 1 Rgba8
%imk = OpTypeImage %void 1D 0 0 0 0 Unknown ReadOnly
%smp = OpTypeSampler
%si = OpTypeSampledImage %img
%fp = OpTypePointer Function %st
%fn = OpTypeFunction %void %fp %si
%ev = OpTypeEvent
%de = OpTypeDeviceEvent
%ri = OpTypeReserveId
%qu = OpTypeQueue
%pi = OpTypePipe ReadWrite
%as = OpTypeAccelerationStructureKHR
%nb = OpTypeNamedBarrier
%ps = OpTypePipeStorage
%rq = OpTypeRayQueryKHR
'''.replace('%v3 = OpTypeVector %v3e 3', '%v3 = OpTypeVector %d 3')
        add('types', HEAD + 'OpName %st "st"\nOpName %st2 "st2"\nOpDecorate %st Block\n' + types)
        add('recursive types', HEAD + 'OpCapability Addresses\n'.join(['', '']) + 'OpTypeForwardPointer %p PhysicalStorageBuffer\n%f = OpTypeFloat 32\n%s = OpTypeStruct %f %p\n%p = OpTypePointer PhysicalStorageBuffer %s\n%q = OpTypePointer Private %p\n%v = OpVariable %q Private\n', 0x10500, True)
        consts = '''%bool = OpTypeBool
%i8 = OpTypeInt 8 1
%i16 = OpTypeInt 16 0
%i32 = OpTypeInt 32 1
%u32 = OpTypeInt 32 0
%i64 = OpTypeInt 64 1
%f = OpTypeFloat 32
%d = OpTypeFloat 64
%v2 = OpTypeVector %f 2
%n = OpConstant %u32 2
%a = OpTypeArray %v2 %n
%s = OpTypeStruct %a %i32
%t = OpConstantTrue %bool
%ff = OpConstantFalse %bool
%c8 = OpConstant %i8 4294967169
%c16 = OpConstant %i16 65535
%c32 = OpConstant %i32 2147483648
%c64 = OpConstant %i64 0x123456789abcdef0
%c64b = OpConstant %i64 1
%cf = OpConstant %f 0x7fc00000
%cd = OpConstant %d 0x12345678
%cv = OpConstantComposite %v2 %cf %cf
%ca = OpConstantComposite %a %cv %cv
%cs = OpConstantComposite %s %ca %c32
%nu = OpConstantNull %s
%nv = OpConstantNull %v2
%st = OpSpecConstantTrue %bool
%sf = OpSpecConstantFalse %bool
%sc = OpSpecConstant %i32 7
%sd = OpSpecConstant %i32 7
%sv = OpSpecConstantComposite %v2 %cf %sfl
%an = OpTypeArray %f %sc
%smpt = OpTypeSampler
%smp = OpConstantSampler %smpt ClampToEdge 1 Linear
'''.replace('%sv =', '%sfl = OpSpecConstant %f 5\n%sv =')
        add('constants', HEAD + 'OpName %c8 "c8"\nOpDecorate %sc SpecId 3\nOpDecorate %sd SpecId 4\n' + consts)
        add('the same constant twice', HEAD + '%i = OpTypeInt 32 0\n%a = OpConstant %i 5\n%b = OpConstant %i 5\n%v = OpTypeVector %i 2\n%x = OpConstantComposite %v %a %b\n%y = OpConstantComposite %v %b %a\n')
        add('undefined constituents', HEAD + '%f = OpTypeFloat 32\n%v2 = OpTypeVector %f 2\n%u = OpUndef %f\n%c = OpConstant %f 1\n%x = OpConstantComposite %v2 %u %c\n', 0x10000, True)
        add('undefined values', HEAD + '%f = OpTypeFloat 32\n%u = OpUndef %f\n%fv = OpTypeFunction %f\n%w = OpUndef %f\n' + fun('m', '%q = OpUndef %f\n%s = OpFAdd %f %u %w\nOpReturnValue %s\n', '%fv', '%f'))
        twice = 'OpEntryPoint GLCompute %m "main"\n' + ''.join(x + '\n' + x + '\n' for x in ('OpExecutionMode %m LocalSize 1 1 1', 'OpExecutionModeId %m LocalSizeId %k %k %k', 'OpSource GLSL 450', 'OpSourceExtension "e"', 'OpSourceContinued "c"', 'OpName %m "main"', 'OpMemberName %S 0 "x"',
            'OpModuleProcessed "p"', 'OpDecorate %S Block', 'OpMemberDecorate %S 0 Offset 0', 'OpDecorateId %k UniformId %k', 'OpDecorateString %S UserSemantic "s"')) + V + '%f = OpTypeFloat 32\n%k = OpConstant %f 1\n%S = OpTypeStruct %f\n%s1 = OpString "s"\n'
        for x in ('OpLine %s1 1 1', 'OpNoLine'):
            twice += x + '\n' + x + '\n%t' + x.split()[0] + ' = OpTypeStruct %f\n' + x + '\n'
        twice = twice.replace('OpSource GLSL 450\n', '%s1 = OpString "s"\n%s2 = OpString "s"\nOpSource GLSL 450\n', 1).replace('%S = OpTypeStruct %f\n%s1 = OpString "s"\n', '%S = OpTypeStruct %f\n')
        add('everything twice', HEAD + twice + '%p = OpTypePointer Private %f\n%v = OpVariable %p Private %k\n%w = OpVariable %p Private %k\n%u = OpUndef %f\n%uu = OpUndef %f\n' + fun('m', '%x = OpFAdd %f %k %k\n%y = OpFAdd %f %k %k\nOpNop\nOpNop\nOpNoLine\nOpNoLine\nOpLine %s1 1 1\nOpLine %s1 1 1\nOpStore %v %x\nOpStore %v %x\nOpReturn\n'), 0x10300)
        add('references to oneself', HEAD + '%void = OpTypeVoid\n%fv = OpTypeFunction %void\n%b = OpTypeBool\n%t = OpConstantTrue %b\n' + fun('m', '%call = OpFunctionCall %void %m\nOpBranch %h\n%h = OpLabel\n%p = OpPhi %b %t %m_l %p %h %p %c\n%q = OpPhi %b %p %m_l %q %h %q %c\nOpLoopMerge %e %c None\nOpBranchConditional %p %h %c\n%c = OpLabel\nOpBranch %h\n%e = OpLabel\nOpBranch %e\n'))
        add('initialised variables', HEAD + '%f = OpTypeFloat 32\n%c = OpConstant %f 1\n%p = OpTypePointer Private %f\n%v = OpVariable %p Private %c\n%pp = OpTypePointer Private %p\n%w = OpVariable %pp Private %v\n%fp = OpTypePointer Function %f\n' + V + fun('m', '%l = OpVariable %fp Function %c\n%l2 = OpVariable %fp Function\nOpReturn\n'))
        add('the same set twice', HEAD.replace('OpMemoryModel', '%g2 = OpExtInstImport "GLSL.std.450"\nOpMemoryModel') + '%f = OpTypeFloat 32\n%c = OpConstant %f 1\n' + V + fun('m', '%x = OpExtInst %f %glsl Sqrt %c\n%y = OpExtInst %f %g2 Sin %c\nOpReturn\n'), 0x10000, True)
        add('opaque types', HEAD + '%t = OpTypeOpaque "opaque"\n%p = OpTypePointer Private %t\n%v = OpVariable %p Private\n', 0x10000, True)
        add('operations on specialization constants', HEAD + '%u = OpTypeInt 32 0\n%a = OpSpecConstant %u 1\n%b = OpSpecConstantOp %u IAdd %a %a\n%c = OpTypeArray %u %b\n', 0x10000, True)
        add('names of one thing', HEAD + 'OpName %v "a"\nOpName %w "a"\nOpName %v "b"\nOpName %m_l "label"\nOpName %m "m"\nOpName %p "param"\n%f = OpTypeFloat 32\n%q = OpTypePointer Private %f\n%v = OpVariable %q Private\n%w = OpVariable %q Private\n%void = OpTypeVoid\n%fv = OpTypeFunction %void %f\n' + fun('m', params='%p = OpFunctionParameter %f\n'))
        sw = V + '%u64 = OpTypeInt 64 0\n%s = OpConstant %u64 0x100000002\n'
        self.rep.need('modules given', len(c), 23)
        for j, (k, t, v, refuse) in enumerate(c):
            if j % of == part:
                self.text('module:' + k, t, v, refuse, what='module "%s"' % k)
                self.rep.count('modules')
        if part == 0:
            # 64 bit switch: the literals have two words
            words, ids = self.B.asm.assemble(HEAD + sw + fun('m', 'OpSelectionMerge %e None\nOpNop\n%e = OpLabel\nOpReturn\n'))
            i = next(j for j in range(5, len(words)) if words[j] == 0x10000)
            o = self.core.insts['OpSwitch']['opcode']
            for n, hi in ((0, 0), (1, 0), (2, 0), (2, 8), (3, 0)):
                w = words[:i] + [(3 + 3 * n) << 16 | o, ids['%s'], ids['%e']] + [x for j in range(n) for x in (8 + 3 * j, hi, ids['%e'])] + words[i + 1:]
                self.case('module:switch 64:%d:%d' % (n, hi), 'a switch over 64 bit values with %d cases' % n, w, n > 0)


def check(fx, rep):
    rep.rule('read, then written: header, every section and every function have the words they had; declarations before definitions, definitions before uses')
    rep.rule('read, ids assigned, then written: the same up to one renaming of ids, covered by the bound')
    rep.rule('an instruction at any place of a module comes out where and as it went in, or the module is refused')
    N = 4

    def on(f):
        def g(r):
            p = Round(fx, r)
            f(p)
            r.count('modules read', p.n)
        return g
    parallel(rep, [on(lambda p, i=i: p.bodies(i, 2 * N)) for i in range(2 * N)] + [on(lambda p, i=i: p.modules(i, N)) for i in range(N)] + [on(lambda p, i=i: p.anywhere(i, 2 * N)) for i in range(2 * N)])
    rep.need('instructions', rep.counts.get('instructions', 0), 1000)
    rep.need('modules', rep.counts.get('modules', 0), 20)

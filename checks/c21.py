"""C21: reflection.  Modules with decorations, names, execution modes and variables of every kind are taken in through the project's reader; the reflection
helpers, the Vulkan interop and the grammar helper are followed over them and their answers compared with what the module declares."""
from c06 import Tables
from sa import spec
from sa.absint import VOID, ZERO
from sa.binary import Binaries, BinInterp, GR
from sa.facts import AnalysisError
from sa.report import parallel
from sa.types import MOD

RH = 'spvgentwo::ReflectionHelper'
VK = 'spvgentwo::vk'
GH = 'spvgentwo::GrammarHelper'
MAXU = 0xffffffff


class NamedTables(Tables):
    """the grammar with the names of operands, as the table of the library has them"""
    def oplist(self, ins):
        l = super().oplist(ins)
        for o, g in zip(l, ins.get('operands', [])):
            o['name'] = g.get('name') or {'IdResultType': 'ResultType', 'IdResult': 'Result'}.get(g['kind'], '')
        return l

    def vec(self, st, loc, items):
        r = super().vec(st, loc, items)
        D = ('new', 'gv:' + repr(loc))
        for i, o in enumerate(items):
            l = D if i == 0 else ('idx', D, ('i', i))
            st.mem[('f', l, 'name')] = ('str', o.get('name', ''))
        # whatever is behind the last one
        l = D if not items else ('idx', D, ('i', len(items)))
        for f in ('kind', 'category', 'quantifier', 'name'):
            st.mem[('f', l, f)] = ('s', 'behind the operands')
        return r


class ReflInterp(BinInterp):
    pass


HEAD = '''OpCapability Shader
OpCapability Linkage
OpMemoryModel Logical GLSL450
'''


class Reflection:
    def __init__(self, fx, rep):
        self.fx = fx; self.rep = rep
        self.ip = ReflInterp(fx)
        self.B = Binaries(fx, self.ip); self.L = self.B.L
        self.ip.tables = NamedTables(fx, self.L)
        self.core = spec.core()
        self.dec = {e['enumerant']: e['value'] for e in self.core.enumerants('Decoration')}
        self.sc = {e['enumerant']: e['value'] for e in self.core.enumerants('StorageClass')}
        self.n = 0
        self.k = 0
        self.lists = [r for r in fx.records if r.startswith('spvgentwo::List<') and 'Instruction *' in r]

    def f(self, name, ns=RH, nargs=None):
        c = [f for f in self.fx.q(ns + '::' + name) if f.body is not None and not f.d.get('ta') and (nargs is None or len(f.params) == nargs)]
        if len(c) != 1:
            raise AnalysisError('%s::%s: %d candidates' % (ns, name, len(c)))
        return c[0]

    def load(self, text, version=0x10000):
        self.k += 1
        r = self.B.load(None, text, 'M%d' % self.k, version)
        if r is None:
            raise AnalysisError('a module of the check is not read')
        st, M = r
        ids = self.B.ids['M%d' % self.k]
        back = {v: k for k, v in ids.items()}
        loc = {}
        for a, f, l in self.B.insts(st, M):
            op, ops = self.L.instr(st, l)
            if op in ('OpName', 'OpMemberName') or 'Decorat' in op and op != 'OpDecorationGroup':
                continue
            for k, v in ops:
                if k == 'id' and v[0] == 'i' and v[1] in back:
                    loc[back[v[1]]] = l
        return st, M, loc

    def newlist(self, st):
        self.k += 1
        O = ('obj', 'out%d' % self.k)
        st.mem[('f', O, 'm_pAllocator')] = self.L.alloc
        for x in ('m_pBegin', 'm_pLast'):
            st.mem[('f', O, x)] = ZERO
        st.mem[('f', O, 'm_Elements')] = ('i', 0)
        return O

    def got(self, st, O):
        return [self.ip.load(st, x) for x in self.L.list(st, O)]

    def call(self, st, fn, *args):
        self.n += 1
        return self.L.call(st, None, fn, *args)

    def items(self, st, M, acc):
        return self.L.list(st, self.L.sec(M, acc))

    # ---------------------------------------------------------- decorations
    TEXT = HEAD + '''OpName %v "v"
OpName %w "w"
OpName %S "S"
OpMemberName %S 0 "first"
OpMemberName %S 1 "second"
OpName %v "again"
OpDecorate %v DescriptorSet 2
OpDecorate %v Binding 5
OpDecorate %w Binding 5
OpDecorate %x Binding 7
OpDecorate %S Block
OpMemberDecorate %S 0 Offset 0
OpMemberDecorate %S 1 Offset 16
OpMemberDecorate %S 1 NonWritable
OpMemberDecorate %S 1 RowMajor
OpMemberDecorate %S 1 MatrixStride 16
OpDecorate %x NonWritable
OpDecorate %w DescriptorSet 2
OpMemberDecorate %S 0 BuiltIn Position
OpDecorate %y BuiltIn Position
OpDecorate %y LinkageAttributes "name" Export
OpDecorateId %y UniformId %c
OpDecorate %w Binding 6
OpDecorate %x Offset 1
OpDecorate %g Restrict
%g = OpDecorationGroup
OpGroupDecorate %g %x %y
%float = OpTypeFloat 32
%v4 = OpTypeVector %float 4
%m4 = OpTypeMatrix %v4 4
%uint = OpTypeInt 32 0
%S = OpTypeStruct %v4 %m4
%T = OpTypeStruct %v4 %uint
%p = OpTypePointer Uniform %S
%pi = OpTypePointer Input %v4
%po = OpTypePointer Output %v4
%c = OpConstant %uint 3
%v = OpVariable %p Uniform
%w = OpVariable %p Uniform
%x = OpVariable %pi Input
%y = OpVariable %po Output
%z = OpVariable %pi Input
'''

    def facts_of(self):
        """what the text says: [(opcode, target, member, decoration, literals)]"""
        out = []
        for l in self.TEXT.splitlines():
            t = l.split()
            if t[0] in ('OpDecorate', 'OpDecorateId'):
                out.append((t[0], t[1], None, t[2], t[3:]))
            elif t[0] == 'OpMemberDecorate':
                out.append((t[0], t[1], int(t[2]), t[3], t[4:]))
            elif len(t) > 2 and t[2] == 'OpDecorationGroup':
                out.append((t[2], None, None, None, []))
            elif t[0] == 'OpGroupDecorate':
                out.append((t[0], t[1], None, None, t[2:]))
        return out

    def literal(self, f):
        if not f[4]:
            return None
        x = f[4][0]
        if x[0] == '"':
            return int.from_bytes((x[1:-1] + '\0\0\0\0').encode()[:4], 'little')
        return 0 if x == 'Position' else int(x) if x.isdigit() else None

    def decorations(self):
        rep = self.rep
        st, M, loc = self.load(self.TEXT)
        F = self.facts_of()
        D = self.items(st, M, 'getDecorations')
        if len(D) != len(F):
            raise AnalysisError('the module has %d decorations, the text %d' % (len(D), len(F)))
        N = self.items(st, M, 'getNames')
        name = {v: k for k, v in loc.items()}
        show = lambda vs: [name.get(v[1], '?') if v[0] == 'p' else v for v in vs]
        # instructions with a decoration
        vp = self.f('decorated', 'vp')
        for fn in (self.f('getVariablesWithDecoration'), vp):
            for d in sorted({f[3] for f in F if f[3]} | {'Component', 'SpecId'}):
                for val in [None] + sorted({self.literal(f) for f in F if f[3] == d and self.literal(f) is not None} | {99}):
                    s = st.fork(); O = self.newlist(s)
                    a = ZERO
                    if val is not None:
                        V = ('obj', 'value'); s.mem[V] = ('i', val); a = ('p', V)
                    r = self.call(s, fn, ('ref', M), ('i', self.dec[d]), ('ref', O), a)
                    key = '%s:%s:%s' % (fn.name, d, val)
                    if r is None:
                        rep.bad(key, fn.loc(), 'looking for what is decorated with %s dereferences null' % d)
                        continue
                    want = [('p', loc[f[1]]) for f in F if f[0] in ('OpDecorate', 'OpMemberDecorate') and f[3] == d and (val is None or self.literal(f) == val)]
                    got = self.got(r[0], O)
                    rep.check(got == want, key, fn.loc(), 'decorated with %s%s are %s, found are %s' % (d, '' if val is None else ' %d' % val, show(want), show(got)))
        # decorations and names of a target
        for fn, sec in ((self.f('getDecorations'), D), (self.f('decorationsOf', 'vp'), D), (self.f('namesOf', 'vp'), N)):
            for t in sorted(loc):
                s = st.fork(); O = self.newlist(s)
                r = self.call(s, fn, ('p', loc[t]), ('ref', O))
                key = '%s:%s' % (fn.name, t)
                if r is None:
                    rep.bad(key, fn.loc(), 'asking for what is attached to %s dereferences null' % t)
                    continue
                want = []
                for l in sec:
                    op, ops = self.L.instr(st, l)
                    a = [x for x in ops if x[0] != 'id']
                    if op != 'OpDecorationGroup' and a and a[0] == ('instr', ('p', loc[t])):
                        want.append(('p', l))
                got = self.got(r[0], O)
                rep.check(got == want, key, fn.loc(), '%s has %d entries, %d are reported' % (t, len(want), len(got)))
            s = st.fork(); O = self.newlist(s)
            r = self.call(s, fn, ZERO, ('ref', O))
            rep.check(r is not None and self.got(r[0], O) == [], fn.name + ':null', fn.loc(), 'no target: something is reported or null dereferenced')
        # one decoration
        kind = self.f('getSpvDecorationKindFromDecoration'); both = self.f('getSpvDecorationAndLiteralFromDecoration'); lit = self.f('getLiteralFromDecoration')
        mx = dict((x[0], x[1]) for x in self.fx.enums['spvgentwo::spv::Decoration']['v'])['Max']
        names = [(None, l) for l in N] + [(None, loc['%v']), (None, loc['%S']), (None, None)]
        for f, l in list(zip(F, D)) + names:
            ok = f is not None and f[0] in ('OpDecorate', 'OpMemberDecorate')
            a = ZERO if l is None else ('p', l)
            what = 'nothing' if l is None else '%s %s' % (self.L.instr(st, l)[0], f[3] if f else '')
            key = '%s:%s' % (what, D.index(l) if l in D else N.index(l) if l in N else '')
            r = self.call(st.fork(), kind, a)
            rep.check(r is not None and r[1] == ('i', self.dec[f[3]] if ok else mx), 'kind:' + key, kind.loc(), 'the decoration of %s is reported as %s' % (what, r and r[1]))
            s = st.fork(); P, Q = ('obj', 'deco'), ('obj', 'lit'); s.mem[P] = ('i', 12345); s.mem[Q] = ('i', 54321)
            r = self.call(s, both, a, ('ref', P), ('ref', Q))
            if r is None:
                rep.bad('both:' + key, both.loc(), 'decoration and literal of %s: null is dereferenced' % what)
            else:
                s, v = r
                rep.check(v == ('i', int(ok)), 'both:' + key, both.loc(), 'decoration and literal of %s: success is %s' % (what, v))
                if ok and v == ('i', 1):
                    w = self.literal(f)
                    g = (self.ip.load(s, P), self.ip.load(s, Q))
                    rep.check(g[0] == ('i', self.dec[f[3]]) and (g[1] == ('i', 54321 if w is None else w) or f[3] == 'LinkageAttributes'), 'both:values:' + key, both.loc(), '%s %s is reported as %s' % (what, f[4], g))
            for d in sorted({f[3]} if f and f[3] else set()) + ['Binding', 'Offset', 'Block']:
                r = self.call(st.fork(), lit, ('i', self.dec[d]), a)
                w = self.literal(f) if ok and f[3] == d and f[3] != 'LinkageAttributes' else None
                want = {('i', MAXU if w is None else w)}
                if ok and f[0] == 'OpMemberDecorate':
                    want.add(('i', MAXU))
                if f and f[3] == 'LinkageAttributes' and d == f[3]:
                    continue
                rep.check(r is not None and (r[1][0], r[1][1] & MAXU) in want, 'literal:%s:%s' % (d, key), lit.loc(), 'the literal of %s in %s is %s, reported as %s' % (d, what, sorted(want), r and r[1]))
        # literal of a decoration of a target
        fn = self.f('getDecorationLiteralFromTarget')
        for t in sorted(loc) + [None]:
            for d in sorted({f[3] for f in F if f[3]} - {'LinkageAttributes', 'UniformId'}) + ['Location']:
                for out in (True, False):
                    s = st.fork(); O = ('obj', 'found'); s.mem[O] = ('s', 'before')
                    r = self.call(s, fn, ('i', self.dec[d]), ('p', loc[t]) if t else ZERO, ('p', O) if out else ZERO)
                    key = 'of target:%s:%s:%d' % (t, d, out)
                    if r is None:
                        rep.bad(key, fn.loc(), 'asking for %s of %s dereferences null' % (d, t))
                        continue
                    want = [(self.literal(f), l) for f, l in zip(F, D) if f[0] in ('OpDecorate', 'OpMemberDecorate') and f[1] == t and f[3] == d and self.literal(f) is not None]
                    rep.check(r[1][0] == 'i' and r[1][1] & MAXU == (want[0][0] if want else MAXU), key, fn.loc(), '%s of %s is %s, reported is %s' % (d, t, want[0][0] if want else 'not there', r[1]))
                    if out:
                        g = self.ip.load(r[0], O)
                        rep.check(g == ('p', want[0][1]) if want else g in (('s', 'before'), ZERO), key + ':instruction', fn.loc(), '%s of %s: the wrong decoration instruction is given' % (d, t))
        # a name or decoration that was added but not filled in
        for what, acc, cases in (('decoration', 'getDecorations', [('OpNop', []), ('OpDecorate', []), ('OpDecorate', ['t']), ('OpMemberDecorate', ['t']), ('OpMemberDecorate', ['t', 0])]), ('name', 'getNames', [('OpNop', []), ('OpName', [])])):
            for op, ops in cases:
                l = self.items(st, M, acc)[0]
                o = [('instr', ('p', loc['%v'])) if x == 't' else ('lit', ('i', x)) for x in ops]
                s = self.L.set_instr(st.fork(), l, op, o, 'broken%d' % self.n)
                todo = [(kind, [('p', l)]), (both, [('p', l), ('ref', ('obj', 'deco')), ('ref', ('obj', 'lit'))]), (fn, [('i', self.dec['Binding']), ('p', loc['%v']), ZERO]),
                        (self.f('getDecorations'), [('p', loc['%v']), 'list']), (self.f('decorationsOf', 'vp'), [('p', loc['%v']), 'list']), (self.f('namesOf', 'vp'), [('p', loc['%v']), 'list']),
                        (self.f('getVariablesWithDecoration'), [('ref', M), ('i', self.dec['Binding']), 'list', ZERO])]
                for g, args in todo:
                    z = s.fork(); O = self.newlist(z)
                    r = self.call(z, g, *[('ref', O) if x == 'list' else x for x in args])
                    key = 'unfinished:%s:%s:%d:%s' % (what, op, len(ops), g.name)
                    rep.check(r is not None, key, g.loc(), '%s dereferences null in a module with a %s that has no operands yet (%s with %d)' % (g.name, what, op, len(ops)))
                    if r is not None and g.ret == 'void' and 'list' in args and what == 'decoration' and g.name == 'getVariablesWithDecoration':
                        rep.check(self.got(r[0], O) == [('p', loc[f[1]]) for f in F[1:] if f[3] == 'Binding'], key + ':rest', g.loc(), 'an unfinished decoration hides others')

    def storage(self):
        rep = self.rep; fn = self.f('getGlobalVariablesByStorageClass')
        st, M, loc = self.load(self.TEXT)
        V = self.items(st, M, 'getGlobalVariables')
        for c, v in sorted(self.sc.items()):
            s = st.fork(); O = self.newlist(s)
            r = self.call(s, fn, ('ref', M), ('i', v), ('ref', O))
            want = [('p', loc[x]) for x in {'Uniform': ['%v', '%w'], 'Input': ['%x', '%z'], 'Output': ['%y']}.get(c, [])]
            rep.check(r is not None and self.got(r[0], O) == want, 'storage:' + c, fn.loc(), 'global variables in %s: %s are reported, there are %d' % (c, r and len(self.got(r[0], O)), len(want)))
        rep.count('variables', len(V))

    def localsize(self):
        rep = self.rep; fn = self.f('getLocalSize')
        def mod(modes, version=0x10000):
            return HEAD.replace('OpMemoryModel', 'OpCapability Kernel\nOpMemoryModel') + 'OpEntryPoint GLCompute %main "main"\nOpEntryPoint Fragment %other "other"\n' + modes + '''%void = OpTypeVoid
%uint = OpTypeInt 32 0
%fv = OpTypeFunction %void
%a = OpConstant %uint 8
%b = OpSpecConstant %uint 4
%c = OpConstant %uint 2
%n = OpConstantNull %uint
%main = OpFunction %void None %fv
%l = OpLabel
OpReturn
OpFunctionEnd
%other = OpFunction %void None %fv
%k = OpLabel
OpReturn
OpFunctionEnd
'''
        cases = [('none', '', None), ('other modes', 'OpExecutionMode %other OriginUpperLeft\nOpExecutionMode %main SubgroupSize 8\n', None),
                 ('LocalSize', 'OpExecutionMode %main LocalSize 8 4 2\n', (8, 4, 2)), ('LocalSize behind others', 'OpExecutionMode %other OriginUpperLeft\nOpExecutionMode %main SubgroupSize 8\nOpExecutionMode %main LocalSize 1 64 3\n', (1, 64, 3)),
                 ('LocalSizeHint', 'OpExecutionMode %main LocalSizeHint 16 1 5\n', (16, 1, 5)), ('LocalSizeId', 'OpExecutionModeId %main LocalSizeId %a %b %c\n', (8, 4, 2)),
                 ('LocalSizeHintId', 'OpExecutionModeId %main LocalSizeHintId %c %a %b\n', (2, 8, 4)), ('LocalSizeId of a null constant', 'OpExecutionModeId %main LocalSizeId %a %n %c\n', (8, 0, 2))]
        for what, t, want in cases:
            if 'LocalSizeHintId' in t and not [e for e in self.core.enumerants('ExecutionMode') if e['enumerant'] == 'LocalSizeHintId' and len(e.get('parameters', [])) == 3]:
                continue
            st, M, loc = self.load(mod(t), 0x10200)
            xs = [('obj', n) for n in 'xyz']
            for x in xs:
                st.mem[x] = ('i', 777)
            r = self.call(st, fn, ('ref', M), *[('ref', x) for x in xs])
            if r is None:
                rep.bad('local size:' + what, fn.loc(), 'local size with %s: null is dereferenced' % what)
                continue
            s, v = r
            g = tuple(self.ip.load(s, x)[1] & MAXU for x in xs)
            rep.check(v == ('i', int(want is not None)) and g == (want or (777,) * 3), 'local size:' + what, fn.loc(), 'local size with %s is %s, reported is %s %s' % (what, want, v, g))

    # ---------------------------------------------------------- vulkan
    STAGES = {'Vertex': 1, 'TessellationControl': 2, 'TessellationEvaluation': 4, 'Geometry': 8, 'Fragment': 0x10, 'GLCompute': 0x20, 'TaskNV': 0x40, 'MeshNV': 0x80, 'TaskEXT': 0x40, 'MeshEXT': 0x80,
              'RayGenerationKHR': 0x100, 'AnyHitKHR': 0x200, 'ClosestHitKHR': 0x400, 'MissKHR': 0x800, 'IntersectionKHR': 0x1000, 'CallableKHR': 0x2000}
    NONE = 0x7fffffff

    def stages(self):
        rep = self.rep; fn = self.f('getShaderStageFromExecutionModel', VK)
        known = {x[0]: x[1] for x in self.fx.enums['spvgentwo::spv::ExecutionModel']['v']}
        todo = {v & MAXU: n for n, v in known.items()}
        todo.update({1234: 'unknown'})
        for n, w in self.STAGES.items():
            if n in known:
                todo[known[n] & MAXU] = n
        for v, n in sorted(todo.items()):
            from sa.absint import State
            r = self.L.call(State(), None, fn, ('i', v))
            self.n += 1
            w = self.STAGES.get(n, self.NONE)
            rep.check(r is not None and r[1][1] & MAXU == w, 'stage:' + n, fn.loc(), 'execution model %s is reported as shader stage 0x%x, it is 0x%x' % (n, r[1][1] & MAXU if r else 0, w))

    DT = dict(SAMPLER=0, COMBINED=1, SAMPLED_IMAGE=2, STORAGE_IMAGE=3, UTEXEL=4, STEXEL=5, UNIFORM=6, STORAGE=7, INPUT=10, AS=1000150000, NONE=0x7fffffff)

    def descriptors(self, part, of):
        rep = self.rep; fn = self.f('getDescriptorTypeFromVariable', VK)
        types = {}
        for dim in ('1D', '2D', '3D', 'Cube', 'Rect', 'Buffer', 'SubpassData'):
            for s in (0, 1, 2):
                if dim == 'SubpassData':
                    w = {'INPUT'}
                elif dim == 'Buffer':
                    w = {1: {'UTEXEL'}, 2: {'STEXEL'}}.get(s, {'NONE'})
                else:
                    w = {1: {'SAMPLED_IMAGE'}, 2: {'STORAGE_IMAGE'}}.get(s, {'NONE'})
                types['image %s %d' % (dim, s)] = ('%%t = OpTypeImage %%float %s 0 0 0 %d Unknown\n' % (dim, s), w)
                if s < 2 and dim not in ('SubpassData',):
                    w = {'COMBINED'} if dim != 'Buffer' else {'UTEXEL', 'COMBINED'}
                    types['sampled image %s %d' % (dim, s)] = ('%%im = OpTypeImage %%float %s 0 0 0 %d Unknown\n%%t = OpTypeSampledImage %%im\n' % (dim, s), w)
        types['sampler'] = ('%t = OpTypeSampler\n', {'SAMPLER'})
        types['acceleration structure'] = ('%t = OpTypeAccelerationStructureKHR\n', {'AS'})
        cases = []
        for n, (t, w) in sorted(types.items()):
            for arr in (None, 'array', 'runtime array'):
                if arr and n not in ('sampler', 'image 2D 1', 'image 2D 2', 'sampled image 2D 1', 'acceleration structure', 'image Buffer 1'):
                    continue
                for deco in (True, False):
                    if deco is False and arr:
                        continue
                    cases.append((n, t, arr, 'UniformConstant', w, deco, ''))
        block = '%t = OpTypeStruct %float %uint\n'
        for sc, d, w in (('Uniform', 'Block', {'UNIFORM'}), ('Uniform', 'BufferBlock', {'STORAGE'}), ('Uniform', None, {'UNIFORM'}), ('StorageBuffer', 'Block', {'STORAGE'}), ('PushConstant', 'Block', {'NONE'}),
                         ('Private', None, {'NONE'}), ('Input', 'Block', {'NONE'}), ('Output', 'Block', {'NONE'}), ('Workgroup', None, {'NONE'})):
            for arr in (None, 'array', 'runtime array'):
                cases.append(('struct', block, arr, sc, w, True, 'OpDecorate %%t %s\n' % d if d else ''))
                if sc in ('Private', 'Input', 'Output', 'Workgroup'):
                    cases.append(('float', '%t = OpTypeFloat 16\n', arr, sc, w, False, ''))
        # pairs that share set and binding
        im = '%t = OpTypeImage %float 2D 0 0 0 1 Unknown\n'; sa = '%t = OpTypeSampler\n'
        other = {'sampler': '%ot = OpTypeSampler\n', 'image': '%ot = OpTypeImage %float 2D 0 0 0 1 Unknown\n', 'sampled image': '%oi = OpTypeImage %float 2D 0 0 0 1 Unknown\n%ot = OpTypeSampledImage %oi\n'}
        for n, t, plain in (('image 2D 1', im, 'SAMPLED_IMAGE'), ('sampler', sa, 'SAMPLER')):
            for o in other:
                for oset, obind in ((2, 5), (2, 6), (2, 4), (1, 5), (3, 5), (5, 2), (None, None)):
                    for arr in (None, 'array'):
                        joined = (oset, obind) == (2, 5)
                        if joined and (n == 'sampler') == (o == 'sampler'):
                            w = {plain}
                            if n != 'sampler' and o == 'sampled image':
                                w = {plain, 'COMBINED'}
                        else:
                            w = {'COMBINED'} if joined else {plain}
                        ot = other[o]
                        if o == n.split()[0]:
                            ot = '%ot = ' + t.split(' = ')[1]
                        cases.append(('%s beside %s at %s %s' % (n, o, oset, obind), t, arr, 'UniformConstant', w, True, ('other', ot, oset, obind)))
        done = 0
        for j, (n, t, arr, sc, want, deco, extra) in enumerate(cases):
            if j % of != part:
                continue
            dl = 'OpDecorate %v DescriptorSet 2\nOpDecorate %v Binding 5\n' if deco else ''
            ovar = ''; sc2 = sc
            if isinstance(extra, tuple):
                _, ot, oset, obind = extra
                if oset is not None:
                    dl += 'OpDecorate %%o DescriptorSet %d\nOpDecorate %%o Binding %d\n' % (oset, obind)
                same = ot.split(' = ')[1] == t.split(' = ')[1] and '%oi' not in ot
                if same:
                    ovar = '%o = OpVariable %p UniformConstant\n'
                else:
                    if '%oi' in ot and 'OpTypeImage' in t:
                        ot = '%ot = OpTypeSampledImage %t\n'
                    ovar = ot + '%op = OpTypePointer UniformConstant %ot\n%o = OpVariable %op UniformConstant\n'
                dl2 = ''
            else:
                dl2 = extra
            at = '%t'; at_t = ''
            if arr == 'array':
                at_t = '%n4 = OpConstant %uint 4\n%at = OpTypeArray %t %n4\n'; at = '%at'
            elif arr:
                at_t = '%at = OpTypeRuntimeArray %t\n'; at = '%at'
            for first in ((False, True) if ovar and '%p ' not in ovar else (False,)):
                mine = t + at_t + '%%p = OpTypePointer %s %s\n' % (sc, at)
                text = HEAD + dl + dl2 + '%float = OpTypeFloat 32\n%uint = OpTypeInt 32 0\n' + mine
                text += '%%v = OpVariable %%p %s\n' % sc
                text += ovar
                if first:
                    # the other variable comes first
                    ls = [l for l in text.splitlines() if not l.startswith('%v =')]
                    text = '\n'.join(ls + ['%%v = OpVariable %%p %s' % sc]) + '\n'
                    ds = [l for l in dl.splitlines()]
                    text = text.replace(dl, '\n'.join(ds[2:] + ds[:2]) + '\n')
                st, M, loc = self.load(text, 0x10300)
                r = self.call(st, fn, ('ref', loc['%v']))
                key = 'descriptor:%s:%s:%s:%s:%d:%d' % (n, arr, sc, dl2.strip(), deco, first)
                what = '%s%s in %s%s' % (arr + ' of ' if arr else '', n, sc, ' decorated ' + dl2.split()[-1] if dl2 else '')
                if r is None:
                    rep.bad(key, fn.loc(), 'descriptor type of %s: null is dereferenced' % what)
                    continue
                inv = {v: k for k, v in self.DT.items()}
                g = inv.get(r[1][1] & MAXU, str(r[1]))
                rep.check(g in want, key, fn.loc(), 'descriptor type of %s is %s, reported is %s' % (what, sorted(want), g))
                done += 1
                if part == 0 and done == 1:
                    r = self.call(st.fork(), fn, ('ref', loc['%p']))
                    rep.check(r is not None and r[1][1] & MAXU == self.NONE, 'descriptor:type', fn.loc(), 'an OpTypePointer is given a descriptor type')
        rep.count('variables with a descriptor', done)

    # ---------------------------------------------------------- grammar helper
    def operands(self):
        rep = self.rep
        st, M, loc = self.load(self.TEXT)
        L = loc['%z']
        bykind = self.f('getFirstOperandOfKind', GH); byname = self.f('getOperandByName', GH)
        T = self.ip.tables
        u = lambda: ('instr', ('p', loc['%float']))
        lit = lambda w: ('lit', ('i', w))
        R = [('instr', ('p', loc['%v4'])), ('id', ('i', 50))]
        s4 = [lit(0x64636261), lit(0x65)]
        cases = [('OpEntryPoint', [[lit(5)], [u()], s4, [u()], [u()], [u()]]), ('OpEntryPoint', [[lit(5)], [u()], [lit(0)]]), ('OpExtInstImport', [[('id', ('i', 50))], s4]),
                 ('OpImageSampleImplicitLod', [[R[0]], [R[1]], [u()], [u()]]), ('OpImageSampleImplicitLod', [[R[0]], [R[1]], [u()], [u()], [lit(1)], [u()]]),
                 ('OpStore', [[u()], [u()]]), ('OpStore', [[u()], [u()], [lit(2)], [lit(4)]]), ('OpCompositeInsert', [[R[0]], [R[1]], [u()], [u()], [lit(3)], [lit(2)]]), ('OpReturn', []),
                 ('OpDecorate', [[u()], [lit(33)], [lit(5)]]), ('OpMemberName', [[u()], [lit(1)], s4]), ('OpSource', [[lit(2)], [lit(450)], [u()], s4]), ('OpFAdd', [[R[0]], [R[1]], [u()], [u()]]), ('OpLoopMerge', [[u()], [u()], [lit(0)]])]
        names = sorted({o.get('name', '') for op, _ in cases for o in T.oplist(self.core.insts[op])} | {"'Nothing'", "'Interface' ", "'Inter", "'"})
        for ci, (op, groups) in enumerate(cases):
            flat = [o for g in groups for o in g]
            s0 = self.L.set_instr(st.fork(), L, op, flat, 'gh%d' % ci)
            locs = self.L.list(s0, L)
            kinds = T.oplist(self.core.insts[op])
            place = []; at = 0
            for i, g in enumerate(groups):
                k = kinds[i] if i < len(kinds) else None
                if k is not None:
                    place.append((k['kind'], k.get('name', ''), locs[at]))
                at += len(g)
            for what, fn, args, match in [('kind ' + k, bykind, ('i', T.kinds[k]), lambda p, k=k: p[0] == k) for k in sorted({o['kind'] for o in kinds} | {'LiteralString', 'IdRef', 'Decoration', 'PackedVectorFormat'}) if k in T.kinds] + \
                                         [('name ' + n, byname, ('str', n), lambda p, n=n: n != '' and p[1] == n) for n in names if n]:
                want = next((('p', p[2]) for p in place if match(p)), ZERO)
                self.n += 1
                r = self.ip.run(fn, args=[('p', L), ('ref', self.B.gram), args, ('i', 0)], st=s0.fork())
                key = 'operand:%s:%d:%s' % (op, len(flat), what)
                if len(r) != 1:
                    rep.bad(key, fn.loc(), '%s with %d operands, operand of %s: the answer depends on what is behind the operands of the grammar' % (op, len(flat), what) if r else '%s: null is dereferenced' % op)
                    continue
                v = r[0][1]
                e = self.entry(r[0][0], v)
                rep.check(e == want, key, fn.loc(), '%s with %d operands: the operand of %s is %s, reported is %s' % (op, len(flat), what, self.nth(locs, want), self.nth(locs, e)))
        s0 = self.L.set_instr(st.fork(), L, 'OpStore', [u(), u()], 'ghx')
        s0.mem[('f', L, self.L.ops.opfield)] = ('i', 65000)
        for fn, a in ((bykind, ('i', 1)), (byname, ('str', 'x'))):
            r = self.call(s0.fork(), fn, ('p', L), ('ref', self.B.gram), a, ('i', 0))
            rep.check(r is not None and self.entry(r[0], r[1]) == ZERO, 'operand:unknown:' + fn.name, fn.loc(), '%s of an operation nobody knows' % fn.name)

    def nth(self, locs, v):
        return 'none' if v == ZERO else 'number %d' % locs.index(v[1]) if v[0] == 'p' and v[1] in locs else str(v)[:40]

    def entry(self, st, v):
        """the operand an iterator is at"""
        if v[0] in ('o', 'ref'):
            rec = 'spvgentwo::EntryIterator'
            fs = [k for k in st.mem.below(v[1])] if hasattr(st.mem, 'below') else []
            vals = [st.mem[k] for k in fs if k != v[1]]
            v = vals[0] if len(vals) == 1 else v
        if v == ZERO:
            return ZERO
        if v[0] == 'p':
            return ('p', ('f', v[1], 'm_data'))
        return v

    # ---------------------------------------------------------- names
    def tables(self):
        rep = self.rep; n = 0
        for q, kind in (('DecorationNames', 'Decoration'), ('ExecutionModelNames', 'ExecutionModel')):
            g = self.fx.globals.get(q)
            if g is None or not g['e'].get('a'):
                raise AnalysisError(q + ' is not a table of pairs')
            vals = {}
            for e in self.core.enumerants(kind):
                vals.setdefault(e['value'], set()).add(e['enumerant'])
                vals[e['value']] |= set(e.get('aliases', []))
            a = [x for x in g['e']['a']]
            for i in range(0, len(a) - 1, 2):
                k, s = self.const(a[i]), self.const(a[i + 1])
                if not isinstance(k, int) or not isinstance(s, str):
                    continue
                n += 1
                rep.check(s in vals.get(k, ()), 'names:%s:%d' % (q, k), '%s:%d' % (g.get('file', 'refl/source/refl.cpp'), g['line']), '%s %d is called %r, the specification calls it %s' % (kind, k, s, sorted(vals.get(k, ()))))
            keys = [self.const(a[i]) for i in range(0, len(a) - 1, 2)]
            rep.check(len(keys) == len(set(keys)), 'names:%s:twice' % q, g.get('file', ''), 'an entry of %s is there twice' % q)
        rep.need('names known to the reflector', n, 50)
        rep.count('names known to the reflector', n)

    def const(self, n):
        for _ in range(6):
            if n['k'] in ('int', 'str'):
                return n['v']
            if n['k'] == 'cast' or n['k'] == 'un':
                n = n.get('x') or n.get('e')
            else:
                return None
        return None


def check(fx, rep):
    rep.rule('decorations: for every decoration, value, target and instruction the answers are those the decoration section gives; what is not there or malformed is reported and not dereferenced')
    rep.rule('modules: local size, variables of a storage class and names are those the module declares')
    rep.rule('vulkan: stage bit and descriptor type of every execution model and kind of variable are those of the Vulkan shader interface')
    rep.rule('grammar helper: the operand of a kind or name is the one the grammar puts there')
    rep.rule('names: decorations and execution models are called as in the specification')
    N = 5

    def on(f):
        def g(r):
            p = Reflection(fx, r)
            f(p)
            r.count('questions', p.n)
        return g
    parallel(rep, [on(lambda p: (p.decorations(), p.storage())), on(lambda p: (p.localsize(), p.stages(), p.tables())), on(lambda p: p.operands())] + [on(lambda p, i=i: p.descriptors(i, N)) for i in range(N)])
    rep.need('questions', rep.counts.get('questions', 0), 1000)

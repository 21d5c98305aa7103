"""C17: linking.  Pairs of library and consumer modules are taken in through the project's reader, LinkerHelper::import is followed over them for the
option sets of interest, and the consumer it leaves is compared with what linking means: an operand-by-operand correspondence of everything
transferred, and nothing else changed."""
from sa.absint import State, ZERO
from sa.binary import Binaries, FUNC, BB
from sa.facts import AnalysisError
from sa.report import parallel
from sa.types import MOD

LH = 'spvgentwo::LinkerHelper'
SECS = ('getCapabilities', 'getExtensions', 'getExtInstrImports', 'getMemoryModel', 'getEntryPoints', 'getExecutionModes', 'getSourceStrings', 'getNames',
        'getModulesProcessed', 'getDecorations', 'getTypesAndConstants', 'getGlobalVariables', 'getUndefs', 'getLines', 'getFunctions')
BASE = ('ImportMissingTypes', 'ImportMissingConstants', 'ImportMissingExtensionSets', 'ImportReferencedFunctions', 'ImportReferencedVariables', 'ImportReferencedStrings')
REFS = ('ImportReferencedDecorations', 'ImportReferencedNames')
COPY = ('CopyOpSourceStringInstructions', 'CopyOpLineInstructions', 'CopyOpModuleProcessedInstructions')
ALL = BASE + REFS + COPY + ('AssignResultIDs', 'RemoveLinkageCapability', 'UpdateEntryPointGlobalVarInterface')

HEAD = '''OpCapability Shader
OpCapability Linkage
%s
OpMemoryModel Logical GLSL450
'''
TYPES = '''%float = OpTypeFloat 32
%fn = OpTypeFunction %float %float
'''


def lib(decl='', types='', body='OpReturnValue %p', funcs='', pre='', sym='OpDecorate %f LinkageAttributes "sym" Export\n', caps=''):
    return HEAD % caps + pre + sym + decl + TYPES + types + '''%f = OpFunction %float Const %fn
%p = OpFunctionParameter %float
%l = OpLabel
''' + body + '\nOpFunctionEnd\n' + funcs


def con(decl='', types='', funcs='', main='OpReturn', pre='', sym='OpDecorate %g LinkageAttributes "sym" Import\n', caps='', iface=''):
    return HEAD % caps + ('OpEntryPoint GLCompute %main "main" ' + iface + '\nOpName %main "main"\n') + pre + sym + decl + '''%void = OpTypeVoid
%fv = OpTypeFunction %void
''' + TYPES + types + '''%one = OpConstant %float 0x3f800000
%g = OpFunction %float Const %fn
%gp = OpFunctionParameter %float
OpFunctionEnd
''' + funcs + '''%main = OpFunction %void None %fv
%ml = OpLabel
%mc = OpFunctionCall %float %g %one
''' + main + '\nOpFunctionEnd\n'


class Dump:
    """what a module consists of: instructions by location"""
    def __init__(self, B, st, M):
        L = B.L
        self.op = {}; self.ops = {}; self.sec = {}; self.order = []; self.lab = {}
        self.funcs = {}          # OpFunction location -> [[signature instrs], [block]]
        for a in SECS[:-1]:
            for s, _, l in self.only(B, st, M, a):
                self.add(B, st, a, l)
        for a in ('getFunctions', 'getEntryPoints'):
            for f in L.list(st, L.sec(M, a)):
                F = L.sec(f, 'getFunction', FUNC)
                self.add(B, st, 'getFunctions', F)
                ps = L.list(st, L.sec(f, 'getParameters', FUNC)); bs = []
                for p in ps:
                    self.add(B, st, 'getFunctions', p)
                for b in L.list(st, f):
                    lab = L.sec(b, 'getLabel', BB)
                    self.lab[b] = lab
                    blk = [lab] + L.list(st, b)
                    for x in blk:
                        self.add(B, st, 'getFunctions', x)
                    bs.append(blk)
                self.add(B, st, 'getFunctions', L.sec(f, 'getFunctionEnd', FUNC))
                self.funcs[F] = (ps, bs)
        # branch targets are the labels of the blocks they name
        for l, os in self.ops.items():
            self.ops[l] = [('instr', ('p', self.lab[v[1]])) if k == 'block' and v[0] == 'p' and v[1] in self.lab else (k, v) for k, v in os]
        self.pos = {l: i for i, l in enumerate(self.order)}

    def only(self, B, st, M, a):
        L = B.L
        if a in ('getCapabilities', 'getExtensions', 'getExtInstrImports'):
            return [(a, None, v) for k, v in L.map(st, L.sec(M, a))]
        if a == 'getMemoryModel':
            return [(a, None, L.sec(M, a))]
        if a == 'getEntryPoints':
            return [(a, None, L.sec(e, 'getEntryPoint', 'spvgentwo::EntryPoint')) for e in L.list(st, L.sec(M, a))]
        return [(a, None, l) for l in L.list(st, L.sec(M, a))]

    def add(self, B, st, a, l):
        self.op[l], self.ops[l] = B.L.instr(st, l)
        self.sec[l] = a
        self.order.append(l)

    def inst(self, l):
        """operands without the result id"""
        return [(k, v) for k, v in self.ops[l] if k != 'id']

    def rid(self, l):
        r = [v for k, v in self.ops[l] if k == 'id']
        return r[0] if r else None

    def where(self, a):
        return [l for l in self.order if self.sec[l] == a]

    def show(self, l):
        return '%s %s' % (self.op.get(l, '?'), [v[1] if k == 'lit' else self.op.get(v[1], '?') if v[0] == 'p' else v for k, v in self.ops.get(l, ())])


class Linking:
    def __init__(self, fx, rep):
        self.fx = fx; self.rep = rep
        self.B = Binaries(fx)
        self.L = self.B.L
        self.imp = fx.one(LH + '::import')
        self.bits = {x[0]: x[1] for x in fx.enums[LH + '::LinkerOptionBits']['v']}
        self.flagf = [f['n'] for f in fx.records['spvgentwo::Flag<%s::LinkerOptionBits>' % LH]['fields']][0]
        self.cache = {}
        self.n = 0

    def loaded(self, texts):
        key = tuple(texts)
        if key not in self.cache:
            st = None; Ms = []
            for i, (t, v) in enumerate(texts):
                r = self.B.load(st, t, 'm%d' % i, v)
                if r is None:
                    raise AnalysisError('module %d of the check is not read:\n%s' % (i, t))
                st, M = r
                Ms.append(M)
            self.cache[key] = (st, Ms)
        st, Ms = self.cache[key]
        return st.fork(), Ms

    def importing(self, st, lib, con, flags):
        O = ('obj', 'opts')
        st.mem[('f', ('f', O, 'flags'), self.flagf)] = ('i', sum(set(self.bits[f] for f in flags)) if len(set(self.bits[f] for f in flags)) == len(flags) else self.orbits(flags))
        for k in ('printer', 'grammar', 'allocator'):
            st.mem[('f', O, k)] = ZERO
        return self.L.call(st, None, self.imp, ('ref', lib), ('ref', con), ('ref', O))

    def orbits(self, flags):
        v = 0
        for f in flags:
            v |= self.bits[f]
        return v

    def dump(self, st, M):
        return Dump(self.B, st, M)

    # ------------------------------------------------------------------ one case
    def case(self, name, libs, con, flags=ALL, ok=True, unresolved=(), lv=0x10000, cv=0x10000, oks=None):
        rep = self.rep; loc = self.imp.loc()
        st, Ms = self.loaded([(t, lv) for t in libs] + [(con, cv)])
        C = Ms[-1]
        self.n += 1
        self.conver = cv
        phi = {}
        for i, Lb in enumerate(Ms[:-1]):
            key = '%s:%d' % (name, i)
            want = ok if oks is None else oks[i]
            pre = self.dump(st, C); ld = self.dump(st, Lb)
            lmem = self.words_of(st, Lb)
            nil = self.L.nil
            r = self.importing(st, Lb, C, flags)
            if r is None:
                rep.bad(key + ':null', loc, '%s: import dereferences a null pointer' % name)
                return None
            st, v = r
            rep.check(v == ('i', 1) if want else v == ('i', 0), key + ':result', loc, '%s: import returns %s, %s expected' % (name, v, 'success' if want else 'failure'))
            post = self.dump(st, C)
            rep.check(self.words_of(st, Lb) == lmem, key + ':lib', loc, '%s: the library is changed by importing it' % name)
            self.judge(key, name, st, C, pre, ld, post, flags, want, libver=lv)
            self.conver = max(self.conver, lv)
        return st, C

    def words_of(self, st, M):
        d = self.dump(st, M)
        return [(d.op[l], tuple(d.ops[l])) for l in d.order]

    # linkage decorations of a module: {name: (target, type)}
    def linkage(self, d):
        out = {}
        for l in d.where('getDecorations'):
            o = d.inst(l)
            if d.op[l] == 'OpDecorate' and len(o) > 2 and o[1] == ('lit', ('i', 41)):
                out[self.L.words(o[2:-1])] = (o[0][1][1], o[-1][1][1], l)
        return out

    def judge(self, key, name, st, C, pre, ld, post, flags, want, libver):
        rep = self.rep; loc = self.imp.loc()
        bad = lambda what, msg: rep.bad(key + ':' + what, loc, '%s: %s' % (name, msg))
        ex = {n: x for n, x in self.linkage(ld).items() if x[1] == 0}
        im = {n: x for n, x in self.linkage(pre).items() if x[1] == 1}
        pairs = [(ex[n][0], im[n][0], n, im[n][2]) for n in im if n in ex]
        if not want:
            # an import that fails keeps at least one of the declarations it could not resolve
            if pairs and key.split(':')[0] not in self.partial:
                rep.check(all(p[3] in post.op for p in pairs), key + ':kept', loc, '%s: the import of a symbol that could not be imported is no longer declared' % name)
            return
        # what was there is still there, unchanged and in the same order
        gone = set(p[3] for p in pairs)
        if 'RemoveLinkageCapability' in flags:
            left = [n for n in im if n not in ex]
            exports = any(x[1] == 0 for x in self.linkage(pre).values())
            if not left and not exports:
                gone |= {l for l in pre.where('getCapabilities') if pre.inst(l) == [('lit', ('i', 5))]}
        for l in pre.order:
            if l in gone:
                rep.check(l not in post.op, key + ':removed', loc, '%s: %s should be removed when everything is resolved' % (name, pre.show(l)))
                continue
            if l not in post.op:
                bad('lost', '%s of the consumer is lost' % pre.show(l))
                continue
            same = post.op[l] == pre.op[l] and post.ops[l] == pre.ops[l]
            if pre.op[l] == 'OpEntryPoint' and 'UpdateEntryPointGlobalVarInterface' in flags:
                same = post.op[l] == 'OpEntryPoint'
            if pre.op[l] == 'OpVariable' and any(l == p[1] for p in pairs) and len(post.ops[l]) == len(pre.ops[l]) + 1:
                same = post.ops[l][:-1] == pre.ops[l]        # the definition's initializer
            if same:
                rep.ok()
            else:
                bad('changed', '%s of the consumer becomes %s' % (pre.show(l), post.show(l)))
        for a in SECS[4:]:
            o = [l for l in post.where(a) if l in pre.op]
            rep.check(o == [l for l in pre.where(a) if l in post.op], key + ':order:' + a, loc, '%s: instructions of %s change places' % (name, a))
        # what was transferred corresponds operand by operand
        phi = {}; queue = []
        new = set(post.op) - set(pre.op)

        def match(x, y, why):
            if x in phi:
                if phi[x] != y:
                    bad('map', '%s of the library stands for %s and for %s (%s)' % (ld.show(x), post.show(phi[x]), post.show(y), why))
                return
            if y not in post.op:
                bad('dangling', '%s refers to an instruction that is not in the consumer (for %s)' % (why, ld.show(x)))
                return
            phi[x] = y
            if ld.op[x] != post.op[y]:
                bad('op', '%s of the library becomes %s (%s)' % (ld.show(x), post.show(y), why))
                return
            if x in ld.funcs:
                queue.append((x, y))
                return
            if ld.sec[x] == 'getGlobalVariables':
                if y not in new and not any(p[1] == y for p in pairs):
                    bad('alias', 'variable %s of the library becomes the variable %s the consumer had' % (ld.show(x), post.show(y)))
            if ld.op[x] not in ('OpLabel', 'OpFunctionParameter') or True:
                operands(x, y)

        def operands(x, y):
            a, b = ld.inst(x), post.inst(y)
            if [k if k != 'block' else 'instr' for k, _ in a] != [k if k != 'block' else 'instr' for k, _ in b]:
                bad('shape', '%s becomes %s' % (ld.show(x), post.show(y)))
                return
            for (k, v), (k2, v2) in zip(a, b):
                if k == 'lit':
                    if v != v2:
                        bad('literal', '%s becomes %s' % (ld.show(x), post.show(y)))
                elif v[0] == 'p' and v2[0] == 'p':
                    match(v[1], v2[1], '%s <- %s' % (post.show(y), ld.show(x)))
                else:
                    bad('operand', '%s becomes %s' % (ld.show(x), post.show(y)))

        for x, y, n, _ in pairs:
            match(x, y, 'symbol ' + str(n))
        done = set()
        while queue:
            x, y = queue.pop()
            if (x, y) in done:
                continue
            done.add((x, y))
            (xp, xb), (yp, yb) = ld.funcs[x], post.funcs.get(y, ([], []))
            if [len(xp)] + [len(b) for b in xb] != [len(yp)] + [len(b) for b in yb]:
                bad('body', 'function with parameters and blocks %s becomes one with %s' % ([len(xp)] + [len(b) for b in xb], [len(yp)] + [len(b) for b in yb]))
                continue
            for s, t in list(zip(xp, yp)) + [(bx[0], by[0]) for bx, by in zip(xb, yb)]:
                if s in phi and phi[s] != t:
                    bad('map', '%s stands for two instructions' % ld.show(s))
                phi[s] = t
            for bx, by in zip(xb, yb):
                for s, t in list(zip(bx, by))[1:]:
                    if ld.op[s] != post.op[t]:
                        bad('op', '%s of the library becomes %s' % (ld.show(s), post.show(t)))
                    if s in phi and phi[s] != t:
                        bad('map', '%s: a use stands for %s' % (post.show(t), post.show(phi[s])))
                    phi[s] = t
            for s, t in zip(xp, yp):
                operands(s, t)
            for bx, by in zip(xb, yb):
                for s, t in list(zip(bx, by))[1:]:
                    operands(s, t)
            a, b = ld.inst(x), post.inst(y)
            # the control mask of a definition is the declaration's when there is one
            if x in [p[0] for p in pairs]:
                a = a[:1] + a[2:]; b = b[:1] + b[2:]
            for (k, v), (k2, v2) in zip(a, b):
                if k == 'lit' and v != v2:
                    bad('literal', '%s becomes %s' % (ld.show(x), post.show(y)))
                elif k == 'instr':
                    match(v[1], v2[1], post.show(y))
        copied = [l for f, a in zip(COPY, ('getSourceStrings', 'getLines', 'getModulesProcessed')) if f in flags for l in ld.where(a)]
        # copied debug instructions
        for f, a in zip(COPY, ('getSourceStrings', 'getLines', 'getModulesProcessed')):
            if f in flags:
                have = [y for y in post.where(a) if y in new]
                rest = list(have)
                for x in ld.where(a):
                    c = [y for y in rest if (phi.get(x) == y) or (x not in phi and self.same(ld, x, post, y, phi))]
                    if not c:
                        bad('copy', '%s is not copied' % ld.show(x))
                        continue
                    rest.remove(c[0])
                    match(x, c[0], 'copied')
        rev = {}
        for x, y in phi.items():
            if ld.sec[x] != 'getTypesAndConstants' and y in rev:
                bad('merged', '%s and %s of the library become one instruction' % (ld.show(rev[y]), ld.show(x)))
            rev[y] = x
        # nothing else came along
        names = set(); decos = set()
        if 'ImportReferencedNames' in flags:
            named = {}
            for l in pre.where('getNames'):
                named.setdefault(pre.inst(l)[0][1][1], []).append(l)
            for l in ld.where('getNames'):
                t = phi.get(ld.inst(l)[0][1][1])
                if t is not None and t not in named:
                    names.add((ld.op[l], ('instr', ('p', t))) + tuple(ld.inst(l)[1:]))
        if 'ImportReferencedDecorations' in flags:
            have = {self.key(pre, l, {}) for l in pre.where('getDecorations')}
            for l in ld.where('getDecorations'):
                o = ld.inst(l)
                if not o or o[0][0] != 'instr' or (len(o) > 1 and o[1] == ('lit', ('i', 41)) and ld.op[l] == 'OpDecorate'):
                    continue
                if o[0][1][1] in phi and all(k != 'instr' or v[1] in phi or ld.op[l] == 'OpDecorateId' for k, v in o):
                    if ld.op[l] == 'OpDecorateId':
                        for x in (v[1] for k, v in o[1:] if k == 'instr' and v[1] not in phi):
                            c = [y for y in post.where('getTypesAndConstants') if self.same(ld, x, post, y, phi)]
                            if c:
                                match(x, c[0], 'decoration operand')
                    k = self.key(ld, l, phi)
                    if k not in have:
                        decos.add(k)
        for a, wanted, what in (('getNames', names, 'name'), ('getDecorations', decos, 'decoration')):
            got = [self.key(post, l, {}) for l in post.where(a) if l in new]
            for w in wanted:
                rep.check(got.count(w) == 1, key + ':%s:%s' % (what, w[0]), loc, '%s: %s %s of the library appears %d times in the consumer' % (name, what, self.text(post, w), got.count(w)))
            for g in got:
                if g not in wanted:
                    bad('%s:extra' % what, '%s %s is not one the library gives to something imported, or the consumer had it' % (what, self.text(post, g)))
            rep.ok(len(got))
        image = set(phi.values())
        for y in sorted(new, key=post.pos.get):
            a = post.sec[y]
            if a in ('getNames', 'getDecorations', 'getCapabilities', 'getExtensions'):
                continue
            if y in image or post.op[y] == 'OpFunctionEnd':
                rep.ok()
                continue
            bad('extra', '%s is new in %s and stands for nothing that is imported' % (post.show(y), a))
        # declared before use in the global sections, equal types and constants once
        for y in new:
            if post.sec[y] in ('getTypesAndConstants', 'getGlobalVariables'):
                for k, v in post.inst(y):
                    if k == 'instr' and v[0] == 'p':
                        rep.check(v[1] in post.pos and post.pos[v[1]] < post.pos[y], key + ':before', loc, '%s: %s comes before its operand %s' % (name, post.show(y), post.show(v[1])))
                if not post.op[y].startswith(('OpSpec', 'OpVariable')):
                    twin = [z for z in post.where('getTypesAndConstants') if z != y and self.same(post, z, post, y, {}) and post.op[z] not in ('OpTypeStruct',)]
                    rep.check(not twin, key + ':twin', loc, '%s: the consumer has %s twice' % (name, post.show(y)))
        # ids
        ids = [post.rid(l)[1] for l in post.order if post.rid(l) is not None]
        if 'AssignResultIDs' in flags:
            rep.check(len(set(ids)) == len(ids) and 0 not in ids, key + ':ids', loc, '%s: result ids %s are not unique' % (name, sorted(x for x in ids if ids.count(x) > 1)))
        else:
            rep.check(all(i == 0 or ids.count(i) == 1 for i in ids), key + ':ids', loc, '%s: result ids are not unique' % name)
        # capabilities, extensions, version
        caps = lambda d: {d.inst(l)[0][1][1] for l in d.where('getCapabilities')}
        exts = lambda d: {self.L.words(d.inst(l)) for l in d.where('getExtensions')}
        wc = (caps(ld) - {5}) | (caps(pre) - ({5} if any(pre.inst(l) == [('lit', ('i', 5))] for l in gone if l in pre.op) else set()))
        rep.check(caps(post) == wc, key + ':capabilities', loc, '%s: capabilities %s, expected %s' % (name, caps(post), wc))
        rep.check(exts(post) == exts(ld) | exts(pre), key + ':extensions', loc, '%s: extensions %s' % (name, exts(post)))
        # the version of the result, and the interfaces that follow from it
        v = self.version(st, C)
        rep.check(v == max(libver, self.conver), key + ':version', loc, '%s: version %x after linking a module of version %x into one of version %x' % (name, v or 0, libver, self.conver))
        if 'UpdateEntryPointGlobalVarInterface' in flags:
            for e in post.where('getEntryPoints'):
                o = post.inst(e); f = o[1][1][1]
                got = [x[1] for k, x in o[2:] if k == 'instr']
                used = self.used(post, f)
                if v < 0x10400:
                    used = {x for x in used if post.inst(x)[0 if post.inst(x)[0][0] == 'lit' else 1][1][1] in (1, 3)}
                rep.check(set(got) == used and len(got) == len(used), key + ':interface', loc, '%s: the interface of the entry point lists %s, used are %s' % (name, [post.show(x) for x in got], [post.show(x) for x in sorted(used, key=post.pos.get)]))

    def version(self, st, M):
        r = self.L.call(st.fork(), M, self.L.fn(MOD, 'getSpvVersion', 0))
        return r[1][1] if r and r[1][0] == 'i' else None

    def used(self, d, f):
        """the global variables instructions of the function and those it calls refer to"""
        out = set(); seen = set(); todo = [f]
        while todo:
            f = todo.pop()
            if f in seen or f not in d.funcs:
                continue
            seen.add(f)
            for b in d.funcs[f][1]:
                for l in b:
                    for k, v in d.inst(l):
                        if k == 'instr' and v[0] == 'p':
                            if d.sec.get(v[1]) == 'getGlobalVariables':
                                out.add(v[1])
                            elif v[1] in d.funcs:
                                todo.append(v[1])
        return out

    def key(self, d, l, phi):
        return (d.op[l],) + tuple((k, ('p', phi.get(v[1], v[1]))) if k == 'instr' else (k, v) for k, v in d.inst(l))

    def text(self, d, k):
        return '%s %s' % (k[0], [v[1] if q == 'lit' else d.op.get(v[1], '?') for q, v in k[1:]])

    def same(self, d, x, e, y, phi, depth=0):
        if x in phi:
            return phi[x] == y
        if d is e and x == y:
            return True
        if d.op.get(x) != e.op.get(y) or depth > 12:
            return False
        a, b = d.inst(x), e.inst(y)
        return len(a) == len(b) and all(k == k2 and (v == v2 if k == 'lit' else v[0] == 'p' and v2[0] == 'p' and self.same(d, v[1], e, v2[1], phi, depth + 1)) for (k, v), (k2, v2) in zip(a, b))

    partial = ()

    # ------------------------------------------------------------------ the cases
    def cases(self):
        out = []

        def c(*a, **k):
            out.append((a, k))
        S = con()
        c('plain body', [lib()], S)
        c('constant', [lib(types='%k = OpConstant %float 7\n', body='%a = OpFMul %float %p %k\nOpReturnValue %a')], S)
        c('equal constant', [lib(types='%k = OpConstant %float 0x3f800000\n', body='%a = OpFMul %float %p %k\nOpReturnValue %a')], S)
        c('other types', [lib(types='%i = OpTypeInt 32 1\n%v = OpTypeVector %i 3\n%k = OpConstant %i 7\n%kk = OpConstantComposite %v %k %k %k\n', body='%a = OpCompositeExtract %i %kk 1\n%b = OpConvertSToF %float %a\nOpReturnValue %b')], S)
        for opt in ('ImportMissingConstants',):
            c('constant without option', [lib(types='%k = OpConstant %float 7\n', body='%a = OpFMul %float %p %k\nOpReturnValue %a')], S, flags=[f for f in ALL if f != opt], ok=False)
        c('type without option', [lib(types='%i = OpTypeInt 32 1\n', body='%b = OpConvertFToS %i %p\nOpReturnValue %p')], S, flags=[f for f in ALL if f != 'ImportMissingTypes'], ok=False)
        glob = dict(types='%ptr = OpTypePointer Private %float\n%v = OpVariable %ptr Private\n%w = OpVariable %ptr Private\n')
        c('variables', [lib(body='%a = OpLoad %float %v\n%b = OpLoad %float %w\nOpStore %v %b\nOpReturnValue %a', **glob)], S)
        c('variable without option', [lib(body='%a = OpLoad %float %v\nOpReturnValue %a', **glob)], S, flags=[f for f in ALL if f != 'ImportReferencedVariables'], ok=False)
        c('variable with initializer', [lib(types='%k = OpConstant %float 9\n%ptr = OpTypePointer Private %float\n%v = OpVariable %ptr Private %k\n', body='%a = OpLoad %float %v\nOpReturnValue %a')], S)
        g2 = dict(types='%ptr = OpTypePointer Private %float\n%v = OpVariable %ptr Private\n')
        vs = 'OpDecorate %v LinkageAttributes "var" '
        c('exported variable', [lib(decl=vs + 'Export\n', body='%a = OpLoad %float %v\nOpReturnValue %a', **g2)], con(decl=vs + 'Import\n', **g2))
        c('exported variable, declared first', [lib(pre=vs + 'Export\n', body='%a = OpLoad %float %v\nOpReturnValue %a', **g2)], con(pre=vs + 'Import\n', **g2))
        gi = dict(types='%ptr = OpTypePointer Private %float\n%kv = OpConstant %float 9\n%v = OpVariable %ptr Private %kv\n')
        c('exported variable with initializer', [lib(decl=vs + 'Export\n', body='%a = OpLoad %float %v\nOpReturnValue %a', **gi)], con(decl=vs + 'Import\n', **g2))
        c('exported variable not imported', [lib(decl=vs + 'Export\n', body='%a = OpLoad %float %v\nOpReturnValue %a', **g2)], S)
        h = '''%h = OpFunction %float None %fn
%hp = OpFunctionParameter %float
%hl = OpLabel
%hk = OpFunctionCall %float %k %hp
OpReturnValue %hk
OpFunctionEnd
%k = OpFunction %float Inline %fn
%kp = OpFunctionParameter %float
%kl = OpLabel
%ka = OpFAdd %float %kp %kp
OpReturnValue %ka
OpFunctionEnd
'''
        calls = '%a = OpFunctionCall %float %h %p\n%b = OpFunctionCall %float %k %a\nOpReturnValue %b'
        c('called functions', [lib(body=calls, funcs=h)], S)
        c('called functions, names and decorations', [lib(body=calls, funcs=h, pre='OpName %h "helper"\nOpName %kp "x"\nOpName %f "f"\nOpName %p "param"\n', decl='OpDecorate %ka RelaxedPrecision\nOpDecorate %p RelaxedPrecision\n')], S)
        c('called function without option', [lib(body=calls, funcs=h)], S, flags=[f for f in ALL if f != 'ImportReferencedFunctions'], ok=False)
        hv = h.replace('%ka = OpFAdd %float %kp %kp', '%kx = OpLoad %float %v\n%ka = OpFAdd %float %kp %kx')
        c('called function uses an exported variable', [lib(decl=vs + 'Export\n', body=calls, funcs=hv, **g2)], con(decl=vs + 'Import\n', **g2))
        c('called function uses a variable', [lib(body=calls, funcs=hv, **g2)], S)
        two = 'OpDecorate %h LinkageAttributes "h" '
        h2 = '%h = OpFunction %float None %fn\n%hp = OpFunctionParameter %float\n%hl = OpLabel\nOpReturnValue %hp\nOpFunctionEnd\n'
        d2 = '%h = OpFunction %float None %fn\n%hp = OpFunctionParameter %float\nOpFunctionEnd\n'
        one = '%a = OpFunctionCall %float %h %p\nOpReturnValue %a'
        for first in (True, False):
            k = 'pre' if first else 'decl'
            c('two symbols, one calls the other (%s)' % k, [lib(body=one, funcs=h2, **{k: two + 'Export\n'})], con(funcs=d2, **{k: two + 'Import\n'}))
            # one not found in the library
            c('second symbol not in the library (%s)' % k, [lib()], con(funcs=d2, **{k: two + 'Import\n'}))
            # type mismatch of one
            m2 = h2.replace('%fn\n', '%fi\n').replace('%hp = OpFunctionParameter %float', '%hp = OpFunctionParameter %i').replace('OpReturnValue %hp', '%hx = OpConvertSToF %float %hp\nOpReturnValue %hx')
            c('second symbol of other type (%s)' % k, [lib(types='%i = OpTypeInt 32 1\n%fi = OpTypeFunction %float %i\n', funcs=m2, **{k: two + 'Export\n'})], con(funcs=d2, **{k: two + 'Import\n'}), ok=False)
        self.partial = tuple('second symbol of other type (%s)' % k for k in ('pre', 'decl'))
        c('two libraries', [lib(), lib(body='OpReturnValue %p', sym='OpDecorate %f LinkageAttributes "h" Export\n')], con(funcs=d2, decl=two + 'Import\n'))
        c('two libraries, other order', [lib(body='OpReturnValue %p', sym='OpDecorate %f LinkageAttributes "h" Export\n'), lib()], con(funcs=d2, decl=two + 'Import\n'))
        c('library exports nothing that is imported', [lib(sym='OpDecorate %f LinkageAttributes "other" Export\n')], S)
        c('consumer exports', [lib()], con(decl='OpDecorate %main2 LinkageAttributes "mine" Export\n', funcs='%main2 = OpFunction %float None %fn\n%m2p = OpFunctionParameter %float\n%m2l = OpLabel\nOpReturnValue %m2p\nOpFunctionEnd\n'))
        c('function of other type', [lib(types='%i = OpTypeInt 32 0\n').replace('%fn = OpTypeFunction %float %float', '%i2 = OpTypeInt 32 1\n%fn = OpTypeFunction %float %float %i2').replace('%p = OpFunctionParameter %float', '%p = OpFunctionParameter %float\n%q = OpFunctionParameter %i2').replace('%i = OpTypeInt 32 0\n', '')], S, ok=False)
        c('variable for a function', [lib(sym='OpDecorate %v LinkageAttributes "sym" Export\n', body='OpReturnValue %p', **g2)], S, ok=False)
        # control flow
        sel = '''%t = OpFOrdLessThan %bool %p %k
OpSelectionMerge %m None
OpBranchConditional %t %x %y
%x = OpLabel
%xa = OpFAdd %float %p %k
OpBranch %m
%y = OpLabel
OpBranch %m
%m = OpLabel
%r = OpPhi %float %xa %x %p %y
OpReturnValue %r'''
        tk = '%bool = OpTypeBool\n%k = OpConstant %float 7\n'
        c('selection with phi', [lib(types=tk, body=sel)], S)
        loop = '''OpBranch %hd
%hd = OpLabel
%r = OpPhi %float %p %l %rn %ct
%t = OpFOrdLessThan %bool %r %k
OpLoopMerge %m %ct None
OpBranchConditional %t %ct %m
%ct = OpLabel
%rn = OpFAdd %float %r %k
OpBranch %hd
%m = OpLabel
OpReturnValue %r'''
        c('loop with phi', [lib(types=tk, body=loop)], S)
        c('local variables', [lib(types='%fp = OpTypePointer Function %float\n', body='%lv = OpVariable %fp Function\nOpStore %lv %p\n%a = OpLoad %float %lv\nOpReturnValue %a')], S)
        # extended instructions
        ei = dict(pre='', types='', body='%a = OpExtInst %float %ext Sin %p\nOpReturnValue %a')
        elib = lib(**ei).replace('OpMemoryModel', '%ext = OpExtInstImport "GLSL.std.450"\nOpMemoryModel')
        c('extended instruction', [elib], S)
        c('extended instruction, set imported', [elib], S.replace('OpMemoryModel', '%e0 = OpExtInstImport "GLSL.std.450"\nOpMemoryModel'))
        c('extended instruction without option', [elib], S, flags=[f for f in ALL if f != 'ImportMissingExtensionSets'], ok=False)
        # debug information
        dbg = dict(pre='%file = OpString "a.hlsl"\nOpSource HLSL 100 %file\n', body='OpLine %file 1 2\n%a = OpFAdd %float %p %p\nOpNoLine\nOpReturnValue %a')
        c('lines', [lib(**dbg)], S)
        c('lines, strings not copied', [lib(**dbg)], S, flags=[f for f in ALL if f not in COPY])
        c('lines, strings neither copied nor imported', [lib(**dbg)], S, flags=[f for f in ALL if f not in COPY and f != 'ImportReferencedStrings'], ok=False)
        mp = 'OpModuleProcessed "tool"\nOpModuleProcessed "tool2"\n'
        c('module processed', [lib(pre=mp)], S)
        c('module processed, not copied', [lib(pre=mp)], S, flags=[f for f in ALL if f not in COPY])
        for f in COPY:
            c('copy only ' + f, [lib(pre=dbg['pre'] + mp, body=dbg['body'])], S, flags=[x for x in ALL if x not in COPY or x == f])
        # structs, their names and decorations
        ubo = dict(pre='OpName %S "Block"\nOpMemberName %S 0 "a"\nOpMemberName %S 1 "b"\nOpName %v "ubo"\n',
                   decl='OpDecorate %S Block\nOpMemberDecorate %S 0 Offset 0\nOpMemberDecorate %S 1 Offset 16\nOpDecorate %v DescriptorSet 1\nOpDecorate %v Binding 2\n',
                   types='%i = OpTypeInt 32 1\n%v3 = OpTypeVector %float 3\n%S = OpTypeStruct %v3 %float\n%ps = OpTypePointer Uniform %S\n%pf = OpTypePointer Uniform %float\n%k = OpConstant %i 1\n%v = OpVariable %ps Uniform\n',
                   body='%a = OpAccessChain %pf %v %k\n%b = OpLoad %float %a\nOpReturnValue %b')
        c('uniform block', [lib(**ubo)], S)
        c('uniform block, no names', [lib(**ubo)], S, flags=[f for f in ALL if f != 'ImportReferencedNames'])
        c('uniform block, no decorations', [lib(**ubo)], S, flags=[f for f in ALL if f != 'ImportReferencedDecorations'])
        vs2 = 'OpDecorate %v LinkageAttributes "ubo" '
        e2 = dict(ubo, decl=ubo['decl'] + vs2 + 'Export\n')
        i2 = dict(decl=ubo['decl'] + vs2 + 'Import\n', pre=ubo['pre'], types=ubo['types'])
        c('exported block, decorated on both sides', [lib(**e2)], con(**i2))
        i3 = dict(decl=vs2 + 'Import\n', types=ubo['types'])
        c('exported block, decorated in the library', [lib(**e2)], con(**i3))
        c('struct value', [lib(pre='OpName %S "Pair"\nOpMemberName %S 1 "second"\n', types='%S = OpTypeStruct %float %float\n', body='%a = OpCompositeConstruct %S %p %p\n%b = OpCompositeExtract %float %a 1\nOpReturnValue %b')], S)
        # specialization constants
        c('specialization constant', [lib(decl='OpDecorate %k SpecId 3\n', types='%k = OpSpecConstant %float 7\n', body='%a = OpFMul %float %p %k\nOpReturnValue %a')], S)
        c('specialization constant composite', [lib(types='%k = OpSpecConstant %float 7\n%v = OpTypeVector %float 2\n%kk = OpSpecConstantComposite %v %k %k\n', body='%a = OpCompositeExtract %float %kk 0\nOpReturnValue %a', decl='OpDecorate %k SpecId 3\n')], S)
        c('undefined value', [lib(types='%u = OpUndef %float\n', body='%a = OpFMul %float %p %u\nOpReturnValue %a')], S)
        c('array', [lib(types='%i = OpTypeInt 32 0\n%n = OpConstant %i 4\n%arr = OpTypeArray %float %n\n%pp = OpTypePointer Private %arr\n%pf = OpTypePointer Private %float\n%v = OpVariable %pp Private\n', body='%a = OpAccessChain %pf %v %n\n%b = OpLoad %float %a\nOpReturnValue %b', decl='OpDecorate %arr ArrayStride 4\n')], S)
        # options one at a time
        rich = lib(**ubo)
        c('no ids', [rich], S, flags=[f for f in ALL if f != 'AssignResultIDs'])
        c('Linkage stays without the option', [lib()], S, flags=[f for f in ALL if f != 'RemoveLinkageCapability'])
        c('interface not updated', [lib(body='%a = OpLoad %float %v\n%b = OpLoad %float %w\nOpReturnValue %a', **glob)], S, flags=[f for f in ALL if f != 'UpdateEntryPointGlobalVarInterface'])
        io = dict(types='%ptr = OpTypePointer Private %float\n%v = OpVariable %ptr Private\n%pi = OpTypePointer Input %float\n%w = OpVariable %pi Input\n')
        for lv, cv in ((0x10400, 0x10000), (0x10000, 0x10400), (0x10300, 0x10100), (0x10500, 0x10500)):
            c('versions %x %x' % (lv, cv), [lib(body='%a = OpLoad %float %v\n%b = OpLoad %float %w\n%s = OpFAdd %float %a %b\nOpReturnValue %s', **io)], S, lv=lv, cv=cv)
        c('three versions', [lib(body='%a = OpLoad %float %v\n%b = OpLoad %float %w\n%s = OpFAdd %float %a %b\nOpReturnValue %s', **io), lib(body='OpReturnValue %p', sym='OpDecorate %f LinkageAttributes "h" Export\n')], con(funcs=d2, decl=two + 'Import\n'), lv=0x10400)
        c('capabilities and extensions', [lib(caps='OpCapability Float64\nOpCapability Int64\nOpExtension "SPV_KHR_multiview"')], con(caps='OpCapability Int64\nOpExtension "SPV_KHR_x"'))
        c('void function', [lib().replace('%fn = OpTypeFunction %float %float', '%void = OpTypeVoid\n%fn = OpTypeFunction %void').replace('OpFunction %float', 'OpFunction %void').replace('%p = OpFunctionParameter %float\n', '').replace('OpReturnValue %p', 'OpReturn')],
          con().replace('%fn = OpTypeFunction %float %float\n', '').replace('%g = OpFunction %float Const %fn', '%g = OpFunction %void Const %fv').replace('%gp = OpFunctionParameter %float\n', '').replace('OpFunctionCall %float %g %one', 'OpFunctionCall %void %g'))
        c('decoration group', [lib(decl='OpDecorate %dg RelaxedPrecision\n%dg = OpDecorationGroup\nOpGroupDecorate %dg %p\n')], S, flags=[f for f in ALL if f != 'ImportReferencedDecorations'])
        c('decoration group, decorations imported', [lib(decl='OpDecorate %dg RelaxedPrecision\n%dg = OpDecorationGroup\nOpDecorate %p RelaxedPrecision\n')], S)
        # who calls whom: two exported functions, two helpers
        edges = [('f', 'g'), ('f', 'h'), ('f', 'k'), ('g', 'h'), ('g', 'k'), ('h', 'k')]
        fn = '%%%s = OpFunction %%float None %%fn\n%%%sp = OpFunctionParameter %%float\n%%%sl = OpLabel\n%sOpReturnValue %%%s\nOpFunctionEnd\n'
        dg = '%d = OpFunction %float None %fn\n%dp = OpFunctionParameter %float\nOpFunctionEnd\n'
        for mask in range(1, 64):
            for rev in (False, True):
                es = [e for i, e in enumerate(edges) if mask >> i & 1]
                if self.rep.tier == 'quick' and (rev and mask not in (3, 5, 7, 11, 35, 63) or not rev and mask not in (3, 7, 10, 24, 25, 33, 35, 63)):
                    continue
                if rev:
                    es.reverse()

                def calls(x):
                    t = ''; last = x + 'p' if x != 'f' else 'p'
                    for a, b in es:
                        if a == x:
                            t += '%%%s%s = OpFunctionCall %%float %%%s %%%s\n' % (a, b * 2, b, last); last = a + b * 2
                    return t, last
                t, last = calls('f')
                fs = ''
                for x in 'ghk':
                    b, l = calls(x)
                    fs += fn % (x, x, x, b, l)
                c('calls %s' % ' '.join(a + b for a, b in es), [lib(decl='OpDecorate %g LinkageAttributes "dsym" Export\n', body=t + 'OpReturnValue %' + last, funcs=fs)], con(funcs=dg, decl='OpDecorate %d LinkageAttributes "dsym" Import\n'))
        return out

    def run(self, part=0, of=1):
        cs = self.cases()
        for i, (a, k) in enumerate(cs):
            if i % of == part:
                self.case(*a, **k)
        self.rep.count('links', self.n)


    # ------------------------------------------------------------------ options
    def options(self):
        rep = self.rep; loc = self.imp.loc()
        single = {n: v for n, v in self.bits.items() if n != 'All'}
        want = set(BASE + REFS + COPY) | {'AssignResultIDs', 'RemoveLinkageCapability', 'UpdateEntryPointGlobalVarInterface', 'AutoAddRequiredCapabilitiesAndExtensions'}
        for n in sorted(want - set(self.bits)):
            raise AnalysisError('LinkerOptionBits has no %s' % n)
        for n, v in sorted(single.items()):
            rep.check(v & self.bits['All'] == v and v, 'all:' + n, loc, 'LinkerOptionBits::All does not contain %s' % n)
            for m, w in single.items():
                if n < m:
                    rep.check(v & w == 0, 'bits:%s:%s' % (n, m), loc, 'the options %s and %s share a bit: one cannot be chosen without the other' % (n, m))

    def requirements(self):
        """capabilities, extensions and version are asked of the grammar, not taken from the library, when that is chosen"""
        rep = self.rep; loc = self.imp.loc()
        for flag in (True, False):
            for gram in (True, False):
                st, (Lb, C) = self.loaded([(lib(caps='OpCapability Float64\nOpExtension "SPV_KHR_x"'), 0x10000), (con(), 0x10000)])
                calls = []

                def note(st, fr, n, fn, obj, args):
                    calls.append((n.get('n'), obj[1] if obj else None, args[0][1] if args else None))
                    if n.get('n') == 'setRequiredVersion':
                        return [(st, ('i', 0x10000))]
                    return [(st, ('v',))]
                names = ('addRequiredCapabilities', 'addRequiredExtensions', 'setRequiredVersion')
                for x in names:
                    self.B.ip.contracts[(MOD, x)] = note
                O = ('obj', 'opts')
                fl = tuple(x for x in ALL if x != 'RemoveLinkageCapability') + (('AutoAddRequiredCapabilitiesAndExtensions',) if flag else ())
                st.mem[('f', ('f', O, 'flags'), self.flagf)] = ('i', self.orbits(fl))
                st.mem[('f', O, 'printer')] = ZERO; st.mem[('f', O, 'allocator')] = ZERO
                st.mem[('f', O, 'grammar')] = ('p', self.B.gram) if gram else ZERO
                r = self.L.call(st, None, self.imp, ('ref', Lb), ('ref', C), ('ref', O))
                for x in names:
                    del self.B.ip.contracts[(MOD, x)]
                k = 'auto:%d%d:' % (flag, gram)
                if r is None or r[1] != ('i', 1):
                    rep.bad(k + 'result', loc, 'import fails with a grammar given' if gram else 'import fails')
                    continue
                d = self.dump(r[0], C)
                got = {d.inst(l)[0][1][1] for l in d.where('getCapabilities')}
                if flag and gram:
                    for x in names:
                        rep.check((x, C, self.B.gram) in calls, k + x, loc, 'with AutoAddRequiredCapabilitiesAndExtensions the consumer does not %s' % x)
                    rep.check(10 not in got, k + 'taken', loc, 'with AutoAddRequiredCapabilitiesAndExtensions the capabilities of the library are taken over')
                else:
                    rep.check(not calls, k + 'calls', loc, 'without AutoAddRequiredCapabilitiesAndExtensions %s is used' % [c[0] for c in calls])
                    rep.check(10 in got, k + 'missing', loc, 'the capabilities of the library are missing')

    # ------------------------------------------------------------------ the services around import
    def linkage_type(self):
        rep = self.rep
        f = self.fx.one(LH + '::getLinkageTypeFromDecoration'); loc = f.loc()
        names = ['', 'a', 'abc', 'abcd', 'a longer symbol name', '!@#$%^&*']
        text = 'OpCapability Shader\nOpMemoryModel Logical GLSL450\n' + ''.join('OpDecorate %%%s%d LinkageAttributes "%s" %s\n' % (t, i, n, d) for i, n in enumerate(names) for t, d in (('v', 'Export'), ('w', 'Import')))
        text += 'OpDecorate %v0 Location 1\nOpDecorate %w0 Flat\nOpMemberDecorate %s 0 Offset 1\n'
        text += '%i = OpTypeInt 32 1\n%s = OpTypeStruct %i\n%p = OpTypePointer Private %i\n' + ''.join('%%v%d = OpVariable %%p Private\n%%w%d = OpVariable %%p Private\n' % (i, i) for i in range(len(names)))
        st, (M,) = self.loaded([(text, 0x10000)])
        d = self.dump(st, M)
        for l in d.where('getDecorations'):
            o = d.inst(l)
            isl = d.op[l] == 'OpDecorate' and o[1] == ('lit', ('i', 41))
            want = o[-1][1][1] if isl else None
            for outs in ((0, 0), (1, 1), (0, 1), (1, 0)):
                s = st.fork()
                S = ('obj', 'outsym'); s.mem[S] = ZERO
                N = ('obj', 'outname')
                s = self.string(s, N)
                r = self.L.call(s, None, f, ('p', l), ('p', S) if outs[0] else ZERO, ('p', N) if outs[1] else ZERO)
                k = 'type:%s:%s:%d%d:' % (d.op[l], self.L.words(o[2:-1]) if isl else o[1][1][1], outs[0], outs[1])
                if r is None:
                    rep.bad(k + 'null', loc, 'null dereference for %s' % d.show(l))
                    continue
                s, v = r
                if isl:
                    rep.check(v == ('i', want), k + 'kind', loc, '%s: type %s, %s expected' % (d.show(l), v, want))
                    if outs[0]:
                        rep.check(s.mem[S] == o[0][1], k + 'symbol', loc, '%s: the symbol is not the decorated instruction' % d.show(l))
                    if outs[1]:
                        rep.check(self.text_of(s, N) == self.L.words(o[2:-1]), k + 'name', loc, '%s: the name is %r' % (d.show(l), self.text_of(s, N)))
                else:
                    rep.check(v == ('i', 0x7fffffff) or v[0] == 'i' and v[1] not in (0, 1), k + 'kind', loc, '%s is taken for linkage of type %s' % (d.show(l), v))
        for x in d.where('getGlobalVariables')[:1] + [None]:
            r = self.L.call(st.fork(), None, f, ('p', x) if x else ZERO, ZERO, ZERO)
            rep.check(r is not None and r[1][0] == 'i' and r[1][1] not in (0, 1), 'type:none:%s' % bool(x), loc, '%s is taken for linkage' % (x and d.show(x)))

    def string(self, st, loc):
        c = [f for f in self.fx.by_cls['spvgentwo::String'] if f.d.get('ctor') and len(f.params) >= 1 and 'IAllocator' in f.tu.types[f.params[0]['t']] and (len(f.params) == 1 or 'char' in f.tu.types[f.params[1]['t']])]
        r = self.L.ip.run(c[0], this=('p', loc), args=[self.L.alloc, ZERO, ('i', 0)][:len(c[0].params)], st=st)
        if len(r) != 1:
            raise AnalysisError('constructor of String')
        return r[0][0]

    def text_of(self, st, loc):
        r = self.L.call(st, loc, self.L.fn('spvgentwo::String', 'c_str', 0))
        if r is None:
            return None
        return '' if r[1] == ZERO else self.L.cstr(r[0], r[1])

    def adding(self):
        rep = self.rep
        f = self.fx.one(LH + '::addLinkageDecoration'); loc = f.loc()
        st, (M,) = self.loaded([(lib(types='%ptr = OpTypePointer Private %float\n%v = OpVariable %ptr Private\n'), 0x10000)])
        d = self.dump(st, M)
        for l in d.order:
            for t in (0, 1, 0x7fffffff):
                for n in ('', 'abc', 'abcd', 'symbol'):
                    if n != 'symbol' and d.op[l] not in ('OpVariable', 'OpFunction'):
                        continue
                    k = 'add:%s:%d:%s:' % (d.op[l], t, n)
                    r = self.L.call(st.fork(), None, f, ('p', l), ('i', t), ('str', n))
                    if r is None:
                        rep.bad(k + 'null', loc, 'null dereference for %s' % d.show(l))
                        continue
                    e = self.dump(r[0], M)
                    new = [x for x in e.order if x not in d.op]
                    rep.check([x for x in e.order if x in d.op] == d.order and all(e.ops[x] == d.ops[x] and e.op[x] == d.op[x] for x in d.order), k + 'rest', loc, 'the rest of the module is changed')
                    if d.op[l] in ('OpVariable', 'OpFunction') and t < 2:
                        ok = len(new) == 1 and e.sec[new[0]] == 'getDecorations' and e.op[new[0]] == 'OpDecorate' and r[1] == ('p', new[0])
                        o = e.inst(new[0]) if ok else []
                        rep.check(ok and o[:2] == [('instr', ('p', l)), ('lit', ('i', 41))] and self.L.words(o[2:-1]) == n and o[-1] == ('lit', ('i', t)), k + 'deco', loc, 'linkage of %s as %r becomes %s' % (d.show(l), n, [e.show(x) for x in new]))
                    else:
                        rep.check(r[1] == ZERO and not new, k + 'refused', loc, '%s gets a linkage decoration of type %d' % (d.show(l), t))
        r = self.L.call(st.fork(), None, f, ZERO, ('i', 0), ('str', 'x'))
        rep.check(r is not None and r[1] == ZERO, 'add:null', loc, 'linkage of no instruction')

    def removal(self):
        rep = self.rep
        f = self.fx.one(LH + '::removeFunctionBody'); loc = f.loc()
        names = 'OpName %f "f"\nOpName %p "p"\nOpName %l "entry"\nOpName %x "x"\nOpName %l2 "second"\nOpName %h "h"\nOpName %hp "hp"\nOpName %hl "hl"\nOpName %hx "hx"\nOpName %float "float"\n'
        decos = ''.join('OpDecorate %%%s RelaxedPrecision\n' % x for x in ('f', 'x', 'y', 'p', 'h', 'hp', 'hx'))
        t = lib(pre=names, decl=decos, body='%x = OpFAdd %float %p %p\nOpBranch %l2\n%l2 = OpLabel\n%y = OpFAdd %float %x %x\nOpReturnValue %y',
                funcs='%h = OpFunction %float None %fn\n%hp = OpFunctionParameter %float\n%hl = OpLabel\n%hx = OpFunctionCall %float %f %hp\nOpReturnValue %hx\nOpFunctionEnd\n')
        st, (M,) = self.loaded([(t, 0x10000)])
        d = self.dump(st, M)
        fl = self.L.list(st, self.L.sec(M, 'getFunctions'))
        for i, F in enumerate(fl):
            sig = self.L.sec(F, 'getFunction', FUNC)
            body = {x for b in d.funcs[sig][1] for x in b}
            r = self.L.call(st.fork(), None, f, ('ref', F))
            k = 'body:%d:' % i
            if r is None or r[1] != ('i', 1):
                rep.bad(k + 'result', loc, 'removing the body of a function fails')
                continue
            e = self.dump(r[0], M)
            gone = body | {x for x in d.order if d.sec[x] in ('getNames', 'getDecorations') and any(kk == 'instr' and v[1] in body for kk, v in d.inst(x))}
            for x in d.order:
                rep.check((x in e.op) == (x not in gone), k + 'kept:' + d.show(x), loc, '%s %s when the body of its function is removed' % (d.show(x), 'stays' if x in gone else 'goes'))
                if x in e.op and x not in gone:
                    rep.check(e.op[x] == d.op[x] and e.ops[x] == d.ops[x], k + 'same', loc, '%s becomes %s' % (d.show(x), e.show(x)))
            rep.check(set(e.order) <= set(d.order), k + 'new', loc, 'removing a body adds instructions')
            rep.check(e.funcs.get(sig, (0, 1))[1] == [], k + 'blocks', loc, 'blocks remain')

    def used_variables(self):
        rep = self.rep
        f = self.fx.one(LH + '::addLinkageDecorateForUsedGlobalVariables'); loc = f.loc()
        for named in (True, False):
            ty = '%i = OpTypeInt 32 0\n%n = OpConstant %i 4\n%ptr = OpTypePointer Private %float\n%pi = OpTypePointer Input %float\n%v = OpVariable %ptr Private\n%w = OpVariable %pi Input\n%u = OpVariable %ptr Private\n%z = OpVariable %ptr Private\n%fp = OpTypePointer Function %float\n'
            t = lib(pre='OpName %v "v"\n' + ('OpName %w "wide name"\n' if named else '') + 'OpName %u "unused"\nOpName %loc "local"\nOpName %z "z"\n', types=ty,
                    body='%loc = OpVariable %fp Function\n%a = OpLoad %float %v\n%b = OpLoad %float %w\nOpStore %v %b\nOpStore %loc %a\n%c = OpFunctionCall %float %h %p\nOpReturnValue %a',
                    funcs='%h = OpFunction %float None %fn\n%hp = OpFunctionParameter %float\n%hl = OpLabel\n%hx = OpLoad %float %z\nOpReturnValue %hx\nOpFunctionEnd\n')
            st, (M,) = self.loaded([(t, 0x10000)])
            d = self.dump(st, M)
            F = self.L.list(st, self.L.sec(M, 'getFunctions'))[0]
            used = self.used(d, self.L.sec(F, 'getFunction', FUNC))
            nm = {d.inst(x)[0][1][1]: self.L.words(d.inst(x)[1:]) for x in d.where('getNames')}
            for ty in (0, 1, 0x7fffffff):
                for al in (self.L.alloc, ZERO):
                    k = 'used:%d%d%d:' % (named, ty & 3, al == ZERO)
                    r = self.L.call(st.fork(), None, f, ('ref', F), ('i', ty), al)
                    if r is None:
                        rep.bad(k + 'null', loc, 'null dereference')
                        continue
                    e = self.dump(r[0], M)
                    new = [x for x in e.order if x not in d.op]
                    want = sorted([(x, nm[x], ty) for x in used if x in nm], key=repr) if ty < 2 else []
                    got = sorted([(e.inst(x)[0][1][1], self.L.words(e.inst(x)[2:-1]), e.inst(x)[-1][1][1]) for x in new if e.op[x] == 'OpDecorate' and e.inst(x)[1] == ('lit', ('i', 41))], key=repr)
                    rep.check(got == want and len(new) == len(got), k + 'decos', loc, 'used and named variables are %s, the linkage decorations added are %s' % ([w[1:] for w in want], [g[1:] for g in got]))
                    rep.check(r[1] == ('i', int(ty < 2 and all(x in nm for x in used))), k + 'result', loc, 'returns %s' % (r[1],))


def check(fx, rep):
    rep.rule('import: for each export the consumer imports, the declaration becomes the definition; types, constants, variables, functions, strings and sets it refers to are the consumer\'s counterparts, operand by operand, and nothing else of the consumer changes')
    rep.rule('import: names, decorations, capabilities, extensions, version and interfaces follow the options; an import that cannot be completed fails and its symbol stays declared')
    rep.rule('services: linkage decorations are written, read and taken from used variables exactly; removing a body removes the blocks and what names or decorates them, and nothing else')
    rep.rule('options: each option is a bit of its own and All has every one')
    N = 7
    def rest(r):
        l = Linking(fx, r)
        l.options(); l.requirements(); l.linkage_type(); l.adding(); l.removal(); l.used_variables()
    parallel(rep, [lambda r, i=i: Linking(fx, r).run(i, N) for i in range(N)] + [rest])
    rep.need('links', rep.counts.get('links', 0), 50)

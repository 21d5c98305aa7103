"""C20: what a module declares about itself: capabilities, extensions, instruction set imports and the version it needs.

The module is built by its own constructor; the declaring methods are propagated through their real code (hash maps, hashing, strings
included) for every capability, extension and a layout with an instruction in every section, and the state they leave is compared."""
from sa import spec as specs
from sa.absint import ZERO, VOID
from sa.facts import AnalysisError
from sa.live import Live, LiveInterp
from sa.types import MOD

S = 'spvgentwo::spv::'
GR = 'spvgentwo::Grammar'
FN = 'spvgentwo::Function'; BB = 'spvgentwo::BasicBlock'; EP = 'spvgentwo::EntryPoint'


class NeedInterp(LiveInterp):
    """the grammar answers from a table given by the check"""
    needs = None

    def model(self, st, fr, n, fn, obj, args):
        if (n.get('c') or '') == GR and n.get('n') == 'getInfo':
            op = args[0]
            if op[0] != 'i':
                raise AnalysisError('opcode asked of the grammar is not concrete')
            if len(args) > 1 and args[1] not in (('i', 0), self.core):
                raise AnalysisError('instruction looked up in an extended instruction set')
            return [(st, ('p', ('obj', 'info%d' % op[1])) if op[1] in self.needs else ZERO)]
        return super().model(st, fr, n, fn, obj, args)


class Check:
    def __init__(self, fx, rep):
        self.fx = fx; self.rep = rep
        self.ip = NeedInterp(fx)
        e = {x[0]: x[1] for x in fx.enums[GR + '::Extension']['v']}
        self.ip.core = ('i', e['Core'])
        self.L = Live(fx, self.ip)
        self.caps = {x[0]: x[1] for x in fx.enums[S + 'Capability']['v']}
        self.capn = {}
        for k, v in self.caps.items():
            self.capn.setdefault(v, k)

    # ------------------------------------------------ capabilities
    def closures(self):
        """value → (required, allowed) set of capabilities declared with it"""
        core = specs.core(); delta = specs.delta()
        one = {}
        for e in core.enumerants('Capability'):
            if e['value'] not in self.capn:
                continue
            want = [self.caps[c] for c in e.get('capabilities', []) if c in self.caps]
            old = delta['older_implied_capabilities'].get(e['enumerant'])
            must = [] if e['enumerant'] in delta['implied_not_recorded'] or old else want
            may = want + ([self.caps[c] for c in old] if old else [])
            one.setdefault(e['value'], (set(), set()))
            one[e['value']][0].update(must); one[e['value']][1].update(may)
        out = {}
        for v in one:
            r = []
            for i in (0, 1):
                seen = {v}; todo = [v]
                while todo:
                    for c in one.get(todo.pop(), (set(), set()))[i]:
                        if c not in seen:
                            seen.add(c); todo.append(c)
                r.append(seen)
            out[v] = r
        return out

    def declared(self, st, M):
        """the capability section as {value: number of OpCapability naming it}, and whether keys and instructions agree"""
        got = {}; why = None
        for k, v in self.L.map(st, self.L.sec(M, 'getCapabilities')):
            key = self.ip.load(st, k); op, ops = self.L.instr(st, v)
            if op != 'OpCapability' or len(ops) != 1 or ops[0][0] != 'lit' or ops[0][1] != key:
                why = 'entry %s holds %s %s' % (key, op, ops)
            got[key[1]] = got.get(key[1], 0) + 1
        return got, why

    def names(self, vs):
        return sorted(self.capn.get(v, str(v)) for v in vs)

    def capabilities(self):
        L = self.L; rep = self.rep; ip = self.ip
        add = L.fn(MOD, 'addCapability'); chk = L.fn(MOD, 'checkCapability'); rem = L.fn(MOD, 'removeCapability')
        clo = self.closures()
        empty, M = L.module()
        other = self.caps['Float64']
        n = 0
        for v, (must, may) in sorted(clo.items()):
            nm = self.capn[v]
            for dep in (0, 1):
                for pre in ((), (other,), (v,), (v, other)):
                    if pre and v % 7 and rep.tier != 'thorough' and v > 70:
                        continue
                    st = empty.fork()
                    for c in pre:
                        st = L.call(st, M, add, ('i', c), ('i', 0))[0]
                    r = L.call(st, M, add, ('i', v), ('i', dep))
                    d = 'addCapability(%s, %s)%s' % (nm, 'true' if dep else 'false', ' after ' + ', '.join(self.names(pre)) if pre else '')
                    if r is None:
                        rep.bad('add:%s:%d:%d' % (nm, dep, len(pre)), add.loc(), d + ' dereferences null'); continue
                    got, why = self.declared(r[0], M)
                    lo = set(pre) | {v} | (must if dep else set()); hi = set(pre) | {v} | (may if dep else set())
                    n += 1
                    ok = why is None and lo <= set(got) <= hi and all(k == 1 for k in got.values())
                    rep.check(ok, 'add:%s:%d:%s' % (nm, dep, ','.join(map(str, pre))), add.loc(),
                              '%s leaves %s%s; %s are needed' % (d, self.names(got), ' (%s)' % why if why else '' if all(k == 1 for k in got.values()) else ' (one of them twice)', self.names(lo)))
                    if dep and not pre and ok:
                        # queries and removal
                        for c in list(got) + [other]:
                            q = L.call(r[0], M, chk, ('i', c))
                            rep.check(q is not None and q[1] == ('i', int(c in got)), 'check:%s:%s' % (nm, self.capn[c]), chk.loc(), 'checkCapability(%s) with %s declared gives %s' % (self.capn[c], self.names(got), q and q[1]))
                        for c in (v, other):
                            q = L.call(r[0].fork(), M, rem, ('i', c))
                            if q is None:
                                rep.bad('remove:%s:%s' % (nm, self.capn[c]), rem.loc(), 'removeCapability(%s) dereferences null' % self.capn[c]); continue
                            left, why = self.declared(q[0], M)
                            rep.check(q[1] == ('i', int(c in got)) and set(left) == set(got) - {c} and why is None, 'remove:%s:%s' % (nm, self.capn[c]), rem.loc(),
                                      'removeCapability(%s) with %s declared gives %s and leaves %s' % (self.capn[c], self.names(got), q[1], self.names(left)))
        rep.count('capability declarations', n)
        rep.need('capabilities', len(clo), 200)

    # ------------------------------------------------ extensions and imports
    def strings(self, st, M, acc, op, res):
        out = []
        for k, v in self.L.map(st, self.L.sec(M, acc)):
            o, ops = self.L.instr(st, v)
            if o != op:
                return None
            out.append((self.L.words(ops[1:] if res else ops), v))
        return out

    def extensions(self):
        L = self.L; rep = self.rep
        byname = L.fn(MOD, 'addExtension', 1, ['char']); byenum = L.fn(MOD, 'addExtension', 1, ['Extension'])
        imp = L.fn(MOD, 'addExtensionInstructionImport'); get = L.fn(MOD, 'getExtensionInstructionImport')
        empty, M = L.module()
        n = 0
        for nm, v in [x[:2] for x in self.fx.enums[S + 'Extension']['v']]:
            if nm == 'Max':
                continue
            st = empty.fork()
            for k in (1, 2):
                r = L.call(st, M, byenum, ('i', v))
                got = self.strings(r[0], M, 'getExtensions', 'OpExtension', 0) if r else None
                n += 1
                rep.check(got is not None and [x[0] for x in got] == [nm], 'ext:%s:%d' % (nm, k), byenum.loc(), 'addExtension(%s)%s declares %s' % (nm, ' twice' if k == 2 else '', got and [x[0] for x in got]))
                if r is None: break
                st = r[0]
        # names of every length modulo the word size, several in one module, each declared once
        seq = ['SPV_a', 'SPV_ab', 'SPV_abc', 'SPV_abcd', 'SPV_ab', 'S', 'SPV_abcd']
        kinds = ((byname, 'getExtensions', 'OpExtension', 0), (imp, 'getExtInstrImports', 'OpExtInstImport', 1))
        for one, two in (kinds, kinds[::-1]):
            st = empty.fork()
            # the names of one kind first, then the same ones of the other: neither may disturb the other
            for (f, acc, op, res), before in ((one, []), (two, list(dict.fromkeys(seq)))):
                for i, s in enumerate(seq):
                    r = L.call(st, M, f, ('str', s))
                    n += 1
                    key = '%s:%d:%d' % (f.name, i, len(before))
                    if r is None:
                        rep.bad(key, f.loc(), '%s("%s") dereferences null' % (f.name, s)); break
                    st = r[0]
                    got = self.strings(st, M, acc, op, res)
                    rep.check(got is not None and sorted(x[0] or '?' for x in got) == sorted(set(seq[:i + 1])), key, f.loc(),
                              '%s of %s%s leaves %s' % (f.name, ', '.join(seq[:i + 1]), ' after ' + one[0].name + ' of the same' if before else '', got and [x[0] for x in got]))
                    if before:
                        x = self.strings(st, M, one[1], one[2], one[3])
                        rep.check(x is not None and sorted(y[0] or '?' for y in x) == sorted(before), key + ':other', f.loc(), '%s("%s") makes what %s declared %s' % (f.name, s, one[0].name, x and [y[0] for y in x]))
                    if res and got:
                        at = {x[0]: x[1] for x in got}
                        rep.check(r[1] == ('p', at.get(s)), 'import:result:%d' % i, f.loc(), '%s("%s") does not give the instruction that imports it' % (f.name, s))
                        for q in (list(dict.fromkeys(seq)) + ['SPV_none', '']) if i in (0, 3, len(seq) - 1) else [s]:
                            g = L.call(st, M, get, ('str', q))
                            want = ('p', at[q]) if q in seq[:i + 1] else ZERO
                            rep.check(g is not None and g[1] == want, 'import:get:%d:%s:%d' % (i, q, len(before)), get.loc(), 'getExtensionInstructionImport("%s") gives %s, the import is %s' % (q, g and g[1], want))
        rep.count('extension and import declarations', n)

    # ------------------------------------------------ what instructions require
    def layout(self):
        """a module with an instruction of its own operation in every section: {opcode name: location}"""
        L = self.L; T = L.T
        st, M = L.module()
        at = {}
        i = [0]

        def put(st, loc, op, ops=()):
            i[0] += 1
            at[op] = loc
            return L.set_instr(st, loc, op, list(ops), 'ly%d' % i[0])
        st = L.call(st, M, L.fn(MOD, 'addCapability'), ('i', self.caps['Shader']), ('i', 0))[0]
        st = L.call(st, M, L.fn(MOD, 'addExtension', 1, ['char']), ('str', 'SPV_have'))[0]
        st, v = L.call(st, M, L.fn(MOD, 'addExtensionInstructionImport'), ('str', 'set'))
        at['OpExtInstImport'] = v[1]
        ID = ('id', ('i', 0)); TY = ('id', ('i', 99))
        for fn, op, ops in (('addExtensionModeInstr', 'OpExecutionMode', ()), ('addSourceStringInstr', 'OpString', [ID]), ('addNameInstr', 'OpName', ()), ('addModuleProccessedInstr', 'OpModuleProcessed', ()),
                            ('addDecorationInstr', 'OpDecorate', ()), ('addUndefInstr', 'OpUndef', [TY, ID]), ('addLineInstr', 'OpLine', ())):
            st, v = L.call(st, M, L.fn(MOD, fn))
            st = put(st, v[1], op, ops)
        st, v = L.call(st, M, L.fn(MOD, 'addTypeInstr'), ZERO)
        st = put(st, v[1], 'OpTypeInt', [ID])
        st, v = L.call(st, M, L.fn(MOD, 'addGlobalVariableInstr'), ZERO)
        st = put(st, v[1], 'OpVariable', [TY, ID])
        for maker, ops in (('addFunction', ('OpFunction', 'OpFunctionParameter', 'OpLabel', 'OpIAdd', 'OpFMul', 'OpReturn', 'OpFunctionEnd')), ('addEntryPoint', ('OpFunction', 'OpFunctionParameter', 'OpLabel', 'OpISub', 'OpFSub', 'OpKill', 'OpFunctionEnd'))):
            st, v = L.call(st, M, L.fn(MOD, maker, 0))
            F = v[1]
            get = lambda st, n, cls=FN, obj=F: L.call(st, obj, [f for f in self.fx.by_cls[cls] if f.name == n and not f.params and not f.d.get('const')][0])
            st, v = get(st, 'getFunction'); st = put(st, v[1], ops[0], [TY, ID])
            st, v = get(st, 'getFunctionEnd'); st = put(st, v[1], ops[6])
            if maker == 'addEntryPoint':
                st, v = get(st, 'getEntryPoint', EP); st = put(st, v[1], 'OpEntryPoint')
            for b in range(2):
                st, v = L.call(st, F, L.fn(FN, 'addBasicBlock', 1), ZERO)
                B = v[1]
                st, v = L.call(st, B, [f for f in self.fx.by_cls[BB] if f.name == 'getLabel' and not f.d.get('const')][0])
                st = put(st, v[1], 'OpLabel', [ID])
                for op, o in ((ops[3 + b], [TY, ID]), (ops[5], ())):
                    st, v = L.call(st, B, L.fn(BB, 'addInstruction', 0))
                    st = put(st, v[1], op, o)
        at['OpCapability'] = at['OpExtension'] = at['OpMemoryModel'] = None
        return st, M, at

    def needs(self, st, table):
        """write the table {op name: (capabilities, extensions, version)} into the state"""
        self.ip.needs = {self.L.T.op[k] for k in table}
        for k, (caps, exts, ver) in table.items():
            I = ('obj', 'info%d' % self.L.T.op[k])
            st.mem[('f', I, 'name')] = ('str', k)
            st.mem[('f', I, 'version')] = ('i', ver)
            for fld, vals in (('capabilities', caps), ('extensions', exts), ('operands', ())):
                v = ('f', I, fld); B = ('new', 'inf.%s.%s' % (k, fld))
                st.mem[('f', v, 'm_pData')] = ('p', B) if vals else ZERO
                st.mem[('f', v, 'm_elements')] = ('i', len(vals)); st.mem[('f', v, 'm_capacity')] = ('i', len(vals))
                for j, x in enumerate(vals):
                    st.mem[self.ip.idx(B, ('i', j))] = ('i', x)

    def version(self):
        L = self.L; rep = self.rep
        base, M = L.module()
        ens = L.fn(MOD, 'ensureSpvVersion'); st2 = L.fn(MOD, 'setSpvVersion', 2); get = L.fn(MOD, 'getSpvVersion', 0); ma = L.fn(MOD, 'getMajorVersion', 0); mi = L.fn(MOD, 'getMinorVersion', 0)
        n = 0
        vs = [(1, m) for m in range(7)] + [(2, 0), (2, 3)]
        for a in vs:
            s, _ = L.call(base.fork(), M, st2, ('i', a[0]), ('i', a[1]))
            g = tuple(L.call(s, M, f)[1] for f in (get, ma, mi))
            rep.check(g == (('i', a[0] << 16 | a[1] << 8), ('i', a[0]), ('i', a[1])), 'set:%d.%d' % a, st2.loc(), 'after setSpvVersion(%d, %d) the version word is %s, major %s, minor %s' % (a + g))
            for b in vs:
                g = L.call(L.call(s.fork(), M, ens, ('i', b[0]), ('i', b[1]))[0], M, get)[1]
                w = max(a, b)
                n += 1
                rep.check(g == ('i', w[0] << 16 | w[1] << 8), 'ensure:%d.%d:%d.%d' % (a + b), ens.loc(), 'ensureSpvVersion(%d, %d) at version %d.%d gives %s' % (b + a + (g,)))
        rep.count('version pairs', n)

    def required(self):
        L = self.L; rep = self.rep; ip = self.ip
        base, M, at = self.layout()
        ops = sorted(at)
        ext = {x[0]: x[1] for x in self.fx.enums[S + 'Extension']['v']}
        e1, e2 = [x for x in ext if x != 'Max'][3:5]
        c1, c2 = self.caps['Float64'], self.caps['Kernel']
        mk = [f for f in self.fx.q('spvgentwo::makeVersion') if len(f.params) == 2][0]
        ver = lambda a, b: ip.run(mk, args=[('i', a), ('i', b)])[0][1][1]
        v10, v13, v15 = ver(1, 0), ver(1, 3), ver(1, 5)
        vf = [f for f in self.fx.by_cls[MOD] if f.name == 'getSpvVersion' and not f.params]
        sv = [f for f in self.fx.by_cls[MOD] if f.name == 'setSpvVersion' and len(f.params) == 1]
        if len(vf) != 1 or len(sv) != 1:
            raise AnalysisError('accessors of the SPIR-V version: %d, %d' % (len(vf), len(sv)))
        G = ('obj', 'grammar')
        assign = L.fn(MOD, 'assignIDs'); fin = L.fn(MOD, 'finalize')
        rc = L.fn(MOD, 'addRequiredCapabilities'); rx = L.fn(MOD, 'addRequiredExtensions'); gv = L.fn(MOD, 'getRequiredVersion'); rv = L.fn(MOD, 'setRequiredVersion')
        have = {self.caps['Shader']}
        cases = [('only ' + o, {o: ((c1, c2), (ext[e1], ext[e2]), v13)}) for o in ops]
        cases += [('all', {o: ((c2,) if i % 2 else (c1, self.caps['Shader']), (ext[e2],) if i % 3 else (), v15 if i == 2 else v13 if i % 2 else v10) for i, o in enumerate(ops)}),
                  ('none', {}), ('nothing required', {o: ((), (), v10) for o in ops})]
        n = 0
        for d, table in cases:
            caps = have | {c for t in table.values() for c in t[0]}
            exts = {'SPV_have'} | {[k for k, v in ext.items() if v == x][0] for t in table.values() for x in t[1]}
            top = max([v10] + [t[2] for t in table.values()])
            for old in (v10, v15) if d in ('all', 'none') or d.endswith('OpIAdd') else (v10,):
                for f, what in ((assign, 'cxv'), (fin, 'cxv'), (rc, 'c'), (rx, 'x'), (gv, 'r'), (rv, 'V')):
                    st = base.fork()
                    s0 = L.call(st, M, sv[0], ('i', old))
                    st = s0[0]
                    self.needs(st, table)
                    arg = ('p', G) if f in (assign, fin) else ('ref', G)
                    st.facts[('nz', ('p', G))] = True
                    r = L.call(st, M, f, arg)
                    n += 1
                    key = '%s:%s:%d' % (f.name, d.split()[-1] if table else 'none', old)
                    if r is None:
                        rep.bad(key, f.loc(), '%s dereferences null' % f.name); continue
                    got, why = self.declared(r[0], M)
                    want = caps if 'c' in what else have
                    rep.check(set(got) == want and why is None and set(got.values()) == {1}, key + ':c', f.loc(), '%s with requirements of %s leaves capabilities %s%s, required are %s' % (f.name, d, self.names(got), why or '', self.names(want)))
                    x = self.strings(r[0], M, 'getExtensions', 'OpExtension', 0)
                    want = exts if 'x' in what else {'SPV_have'}
                    rep.check(x is not None and sorted(y[0] or '?' for y in x) == sorted(want), key + ':x', f.loc(), '%s with requirements of %s leaves extensions %s, required are %s' % (f.name, d, x and [y[0] for y in x], sorted(want)))
                    now = L.call(r[0], M, vf[0])[1]
                    want = max(old, top) if 'v' in what else top if 'V' in what else old
                    rep.check(now == ('i', want), key + ':v', f.loc(), '%s with requirements of %s makes the version %s, required is %#x' % (f.name, d, now, want))
                    if 'r' in what or 'V' in what:
                        rep.check(r[1] == ('i', top), key + ':r', f.loc(), '%s with requirements of %s answers %s, required is %#x' % (f.name, d, r[1], top))
            # without a grammar nothing is declared
        for f in (assign, fin):
            st = base.fork(); self.needs(st, dict(cases[-3][1]))
            r = L.call(st, M, f, ZERO)
            got, why = self.declared(r[0], M) if r else (None, None)
            rep.check(got is not None and set(got) == have, f.name + ':nogrammar', f.loc(), '%s without a grammar leaves capabilities %s' % (f.name, got and self.names(got)))
        rep.count('requirement scans', n)
        rep.count('operations in the module', len(ops))
        rep.need('operations in the module', len(ops), 20)


def check(fx, rep):
    rep.rule('capability: addCapability declares the capability, with all it implies when asked, each exactly once and keeps the others; queries and removal agree with what is declared')
    rep.rule('extension: every extension or import is declared exactly once by its name, the import is found by its name and only by it')
    rep.rule('required: capabilities, extensions and version the grammar gives for an operation are declared when an instruction with it is in any section of the module')
    c = Check(fx, rep)
    c.capabilities()
    c.extensions()
    c.version()
    c.required()

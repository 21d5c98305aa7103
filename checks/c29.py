"""C29: names and variables.

The module is built by its own constructor; naming methods, everything that takes a name, the lookups and reconstructNames are propagated
through their real code (strings, hash map, operands) and the name section, the lookups and the variables they leave are compared with
what was asked for."""
from sa.absint import ZERO
from sa.facts import AnalysisError
from sa.live import Live, LiveInterp
from sa.types import MOD, TYPE
from sa.world import INSTR

FN = 'spvgentwo::Function'; BB = 'spvgentwo::BasicBlock'
NONE = 0xffffffff
CLASS = {'uniformConstant': 'UniformConstant', 'uniform': 'Uniform', 'input': 'Input', 'output': 'Output', 'pushConstant': 'PushConstant', 'image': 'Image', 'storageBuffer': 'StorageBuffer'}
ID = ('id', ('i', 0))


class Check:
    def __init__(self, fx, rep):
        self.fx = fx; self.rep = rep
        self.L = L = Live(fx)
        self.ip = L.ip
        self.n = 0
        self.getName = L.fn(MOD, 'getName'); self.getNames = L.fn(MOD, 'getNames', 2); self.byName = L.fn(MOD, 'getInstructionByName')
        self.addName = L.fn(MOD, 'addName'); self.addMember = L.fn(MOD, 'addMemberName'); self.addNameInstr = L.fn(MOD, 'addNameInstr')

    # ------------------------------------------------ what the module says
    def section(self, st, M):
        """name section as [(target location or None, member or None, string)]; other entries as their opcode"""
        out = []
        for l in self.L.list(st, self.L.sec(M, 'getNames')):
            op, ops = self.L.instr(st, l)
            if op == 'OpName' and ops and ops[0][0] == 'instr':
                out.append((ops[0][1][1], None, self.L.words(ops[1:])))
            elif op == 'OpMemberName' and len(ops) > 1 and ops[0][0] == 'instr' and ops[1][0] == 'lit' and ops[1][1][0] == 'i':
                out.append((ops[0][1][1], ops[1][1][1], self.L.words(ops[2:])))
            else:
                out.append((op, ops))
        return out

    def name_of(self, st, M, t, m=NONE):
        r = self.L.call(st.fork(), M, self.getName, ('p', t), ('i', m))
        if r is None:
            return 'null dereference'
        return None if r[1] == ZERO else self.L.cstr(r[0], r[1]) if self.L.cstr(r[0], r[1]) is not None else '?%s' % (r[1],)

    def lookups(self, st, M, want, targets, key, what, strings=()):
        """the lookups agree with the entries [(target, member or None, name)]"""
        rep = self.rep; L = self.L
        members = sorted({m for _, m, _ in want if m is not None} | {0, 98})
        for t in targets:
            for m in [None] + members:
                have = [n for a, b, n in want if a == t and b == m]
                got = self.name_of(st, M, t, NONE if m is None else m)
                self.n += 1
                rep.check((got or '') in have if have else got is None, '%s:name:%s:%s' % (key, targets[t], m), self.getName.loc(),
                          'after %s getName(%s%s) gives %r, its names are %s' % (what, targets[t], '' if m is None else ', %d' % m, got, have))
            r = L.call(st.fork(), M, self.getNames, ('p', t), ZERO)
            got = []
            if r is not None:
                for e in L.list(r[0], r[1][1]):
                    m = self.ip.load(r[0], ('f', e, 'memberIndex'))
                    c = self.ip.load(r[0], ('f', e, 'name'))
                    got.append((None if m == ('i', NONE) else m[1], '' if c == ZERO else L.cstr(r[0], c)))       # no string is the empty one
            have = [(b, n) for a, b, n in want if a == t]
            self.n += 1
            k = lambda x: (x[0] is not None, x[0] or 0, str(x[1]))
            rep.check(r is not None and sorted(got, key=k) == sorted(have, key=k), '%s:names:%s' % (key, targets[t]), self.getNames.loc(), 'after %s getNames(%s) gives %s, its names are %s' % (what, targets[t], got, have))
        for s in sorted({n for _, _, n in want if n is not None} | set(strings)):
            have = [a for a, b, n in want if b is None and n == s]
            r = L.call(st.fork(), M, self.byName, ('str', s))
            self.n += 1
            ok = r is not None and (r[1] in [('p', a) for a in have] if have else r[1] == ZERO)
            rep.check(ok, '%s:byname:%s' % (key, s), self.byName.loc(), 'after %s getInstructionByName("%s") gives %s, so named are %s' %
                      (what, s, 'a null dereference' if r is None else 'nothing' if r[1] == ZERO else targets.get(r[1][1], r[1]), [targets[a] for a in have]))

    def targets(self):
        L = self.L
        st, M = L.module()
        t = {}
        for nm in ('struct', 'struct2'):
            st, v = L.call(st, M, L.fn(MOD, 'addTypeInstr'), ZERO)
            st = L.set_instr(st, v[1], 'OpTypeStruct', [ID], nm); t[v[1]] = nm
        for nm in ('variable', 'variable2'):
            st, v = L.call(st, M, L.fn(MOD, 'addGlobalVariableInstr'), ZERO)
            st = L.set_instr(st, v[1], 'OpVariable', [('instr', ('p', ('obj', 'ptrtype'))), ID, ('lit', ('i', 6))], nm); t[v[1]] = nm
        st, v = L.call(st, M, L.fn(MOD, 'addUndefInstr'))
        st = L.set_instr(st, v[1], 'OpUndef', [('instr', ('p', ('obj', 'sometype'))), ID], 'undef'); t[v[1]] = 'undef'
        return st, M, t

    # ------------------------------------------------ histories of names
    def histories(self):
        L = self.L; rep = self.rep
        base, M, t = self.targets()
        S, S2, V, V2, U = t
        strange = ('', 'a', 'ab', 'abcd', 'abcde', 'x', 'abcdefghijklm')
        H = [[(S, None, 'b'), (S, 98, 'xy'), (V, None, 'abc'), (S, 0, 'abcdefgh'), (U, None, 'abcdefg'), (V2, None, 'abcd')],
             [(S, 98, 'x'), (S2, 98, 'x'), (S2, 97, 'bcd'), (S2, None, 'abcdefghi'), (S, None, 'abcdefgh')],
             [(V, None, 'abcdefghijkl'), (V2, None, 'abcdefghijklm'), (V, None, 'v'), (U, None, 'v'), (S, 0, 'v')],
             [(S, None, ''), (S, 0, 'n\xc3\xa4me'), (S, 1, ''), (U, None, 'main')]]
        for i, h in enumerate(H):
            for hole in (0, 1):
                st = base.fork()
                if hole:        # an entry handed out, not filled yet
                    st = L.call(st, M, self.addNameInstr)[0]
                for k, (a, m, s) in enumerate(h):
                    what = ', '.join('addName(%s, "%s")' % (t[a], s) if m is None else 'addMemberName(%s, "%s", %d)' % (t[a], s, m) for a, m, s in h[:k + 1])
                    key = 'h%d:%d:%d' % (i, k, hole)
                    f = self.addName if m is None else self.addMember
                    r = L.call(st, M, f, ('p', a), ('str', s), *([] if m is None else [('i', m)]))
                    self.n += 1
                    if r is None:
                        rep.bad(key, f.loc(), what + ' dereferences null'); break
                    st = r[0]
                    got = [x for x in self.section(st, M)[hole:]]
                    rep.check(got == h[:k + 1], key, f.loc(), 'after %s the name section holds %s' % (what, got))
                    if k == len(h) - 1 or rep.tier == 'thorough' or (k == 1 and not hole):
                        self.lookups(st, M, h[:k + 1], t, key, what, strange)
                else:
                    # lookups built anew from the section are the same; whatever they held before is gone
                    f = L.fn(MOD, 'reconstructNames')
                    for alloc in (ZERO, ('p', ('obj', 'alloc2'))):
                        s2 = st.fork(); s2.facts[('nz', ('p', ('obj', 'alloc2')))] = True
                        r = L.call(s2, M, f, alloc)
                        self.n += 1
                        if r is None:
                            rep.bad('rec:%d:%d' % (i, hole), f.loc(), 'reconstructNames dereferences null'); continue
                        rep.check(r[1] == ('i', 0 if hole else 1), 'rec:%d:%d' % (i, hole), f.loc(), 'reconstructNames answers %s%s' % (r[1], ' for an entry that is no name' if hole else ''))
                        if alloc == ZERO or rep.tier == 'thorough':
                            self.lookups(r[0], M, h, t, 'rec%d:%d' % (i, hole), 'reconstructNames of ' + what, strange)
        rep.count('histories', 2 * len(H))

    def malformed(self):
        """entries of a module read from somewhere that name nothing"""
        L = self.L; rep = self.rep
        f = L.fn(MOD, 'reconstructNames')
        base, M, t = self.targets()
        S, S2, V, V2, U = t
        lits = lambda s: [('lit', ('i', int.from_bytes((s + '\0' * 4)[j:j + 4].encode(), 'little'))) for j in range(0, len(s) + 1, 4)]
        I = lambda x: ('instr', ('p', x))
        good = [('OpName', [I(V)] + lits('abcdef')), ('OpMemberName', [I(S), ('lit', ('i', 2))] + lits('memb'))]
        want = [(V, None, 'abcdef'), (S, 2, 'memb')]
        bad = {'no operands': ('OpName', []), 'target unresolved': ('OpName', [('id', ('i', 7))] + lits('q')), 'no member': ('OpMemberName', [I(S)]), 'member is no number': ('OpMemberName', [I(S), I(V)] + lits('q')),
               'another instruction': ('OpLine', [I(S), ('lit', ('i', 1)), ('lit', ('i', 1))]), 'literal target': ('OpName', lits('q')), 'member names no operands': ('OpMemberName', [])}
        for d, b in list(bad.items()) + [('none', None)]:
            for pos in (0, 1, 2):
                es = list(good)
                if b:
                    es.insert(pos, b)
                st = base.fork()
                for j, (op, ops) in enumerate(es):
                    st, v = L.call(st, M, self.addNameInstr)
                    st = L.set_instr(st, v[1], op, ops, 'mf%d' % j)
                for again in (0, 1):
                    r = L.call(st, M, f, ZERO)
                    self.n += 1
                    if r is None:
                        rep.bad('malformed:%s:%d' % (d, pos), f.loc(), 'reconstructNames dereferences null for an entry with %s' % d); break
                    st = r[0]
                    rep.check(r[1] == ('i', 0 if b else 1), 'malformed:%s:%d' % (d, pos), f.loc(), 'reconstructNames answers %s with an entry: %s' % (r[1], d))
                else:
                    self.lookups(st, M, want, t, 'malformed:%s:%d' % (d, pos), 'reconstructNames with a malformed entry (%s)' % d, ('q',))

    # ------------------------------------------------ strings in operands
    def literals(self):
        L = self.L; rep = self.rep
        c = [f for f in self.fx.q('spvgentwo::compareLiteralString') if f.body is not None]
        if len(c) != 1:
            raise AnalysisError('compareLiteralString: %d' % len(c))
        c = c[0]
        ga = L.fn(INSTR, 'getFirstActualOperand'); end = [f for f in self.fx.by_cls[INSTR] if f.name == 'end'] or [f for f in self.fx.fns.values() if f.name == 'end' and f.cls == 'spvgentwo::List<spvgentwo::Operand>' and f.d.get('const')]
        base, M, t = self.targets()
        base, v = L.call(base, M, self.addNameInstr)
        I = v[1]
        seq = ['', 'a', 'abc', 'abcd', 'abcde', 'abcdefgh', 'abcdefghi', 'abce', 'abcdefgx', '\xe4bc']
        lits = lambda s: [int.from_bytes((s + '\0' * 4)[j:j + 4].encode('latin1'), 'little') for j in range(0, len(s) + 1, 4)]
        n = 0
        for s in seq:
            w = lits(s)
            for cut in range(len(w) + 1):
                for tail in ((), (('lit', ('i', 0x64636261)),), (('instr', ('p', t and list(t)[0])),)):
                    if cut < len(w) and tail and tail[0][0] == 'lit':
                        continue
                    st = L.set_instr(base.fork(), I, 'OpString', [('lit', ('i', x)) for x in w[:cut]] + list(tail), 'cl')
                    st.mem[('f', I, L.ops.opfield)] = ('i', L.T.op['OpName'])
                    for q in seq:
                        for length in (None, len(q)) + ((2,) if len(q) > 2 else ()):
                            s2, b = L.call(st.fork(), I, ga)
                            s2, e = L.call(s2, I, end[0])
                            r = L.call(s2, None, c, ('str', q), b, e, ('i', 0xffffffffffffffff if length is None else length))
                            text = s + '\0' if cut == len(w) else s[:4 * cut]
                            want = text == q + '\0' if length is None else (text + '\x01')[:length] == q[:length] if length < len(text) or cut < len(w) else (text == q[:length] + '\0')
                            if length is not None:
                                # given a length only that many characters take part
                                want = text[:length] == q[:length] and len(text) >= length
                            n += 1
                            rep.check(r is not None and r[1] == ('i', int(want)), 'compare:%s:%d:%s:%s' % (s, cut, q, length), c.loc(),
                                      'compareLiteralString("%s"%s) with the operands %r%s gives %s' % (q, '' if length is None else ', length %d' % length, text, ' and more' if tail else '', r and r[1]))
        rep.count('string comparisons', n)

    # ------------------------------------------------ everything that takes a name
    def pick(self, cls, name, types, ta=None):
        out = []
        for f in self.fx.by_cls.get(cls, []):
            if f.name == name and f.body is not None and len(f.params) == len(types) and all(t in f.tu.types[p['t']] for t, p in zip(types, f.params)) and (f.d.get('ta') or None) == ta:
                out.append(f)
        if len(out) != 1:
            raise AnalysisError('%s::%s(%s): %d candidates' % (cls, name, ', '.join(types), len(out)))
        return out[0]

    def producers(self):
        L = self.L; rep = self.rep; ip = self.ip
        base, M, t = self.targets()
        S, S2, V, V2, U = t
        # a type object and its instruction, by the module's own methods
        TO = ('obj', 'tyobj')
        ctor = [f for f in self.fx.by_cls[TYPE] if f.d.get('ctor') and f.body is not None and len(f.params) == 2 and 'IAllocator' in f.tu.types[f.params[0]['t']] and '::Op' in f.tu.types[f.params[1]['t']]]
        if len(ctor) != 1:
            raise AnalysisError('constructor of Type: %d' % len(ctor))
        base = ip.run(ctor[0], this=('p', TO), args=[L.alloc, ('i', L.T.op['OpTypeVoid'])], st=base)[0][0]
        base = L.call(base, TO, L.fn(TYPE, 'Float', 1), ('i', 32))[0]
        addType = L.fn(MOD, 'addType')
        st1, ft = L.call(base.fork(), M, addType, ('ref', TO), ZERO)
        fi = ('obj', 'initval'); st1.mem[fi] = ('i', 0x3f800000)
        ds = ('obj', 'dynscalar')
        for fld, v in self.dyn():
            st1.mem[('f', ds, fld)] = v
        A = {'type': ('ref', TO), 'value': ('ref', fi), 'dyn': ('ref', ds), 'init': ('p', U), 'noinit': ZERO}
        P = []      # (description, function, object, arguments with NAME, storage class or None, initialiser kind, pre-state)
        NAME = 'NAME'
        for h, sc in CLASS.items():
            P.append((h, self.pick(MOD, h, ['Type &', 'char *', 'Instruction *']), [A['type'], NAME, 'INIT'], sc, 1))
            P.append((h + '<float>', self.pick(MOD, h, ['char *', 'Instruction *'], ['float']), [NAME, 'INIT'], sc, 1))
            P.append((h + '<float>(value)', self.pick(MOD, h, ['char *', 'const float &'], ['float']), [NAME, A['value']], sc, 'value'))
            P.append((h + '<dyn>', self.pick(MOD, h, ['char *', 'dyn_scalar_t'], ['spvgentwo::dyn_scalar_t']), [NAME, A['dyn']], sc, 0))
        for sc in ('Private', 'Workgroup', 'Input', 'Uniform'):
            C = ('i', L.T.sc[sc])
            P.append(('variable(Type, %s)' % sc, self.pick(MOD, 'variable', ['Type &', 'StorageClass', 'char *', 'Instruction *']), [A['type'], C, NAME, 'INIT'], sc, 1))
            P.append(('variable<float>(%s)' % sc, self.pick(MOD, 'variable', ['StorageClass', 'char *', 'Instruction *'], ['float']), [C, NAME, 'INIT'], sc, 1))
            P.append(('variable<float>(%s, value)' % sc, self.pick(MOD, 'variable', ['StorageClass', 'const float &', 'char *'], ['float']), [C, A['value'], NAME], sc, 'value'))
            P.append(('variable<dyn>(%s)' % sc, self.pick(MOD, 'variable', ['StorageClass', 'dyn_scalar_t', 'char *'], ['spvgentwo::dyn_scalar_t']), [C, A['dyn'], NAME], sc, 0))
        n = 0
        for d, f, args, sc, init in P:
            for named in (0, 1):
                for ini in ((0, 1) if init == 1 else (init,)):
                    st = st1.fork()
                    a = [(('str', 'nam%s' % named) if named else ZERO) if x == NAME else A['init'] if x == 'INIT' and ini else ZERO if x == 'INIT' else x for x in args]
                    r = L.call(st, M, f, *a)
                    n += 1
                    key = 'var:%s:%d:%s' % (d, named, ini)
                    if r is None:
                        rep.bad(key, f.loc(), d + ' dereferences null'); continue
                    s, v = r
                    gl = L.list(s, L.sec(M, 'getGlobalVariables'))
                    ok = v[0] == 'p' and v[1] == gl[-1] and len(gl) == 3
                    rep.check(ok, key + ':where', f.loc(), '%s does not give the variable it adds to the module' % d)
                    if not ok: continue
                    op, ops = L.instr(s, v[1])
                    kinds = ['instr', 'id', 'lit'] + (['instr'] if ini else [])
                    shape = op == 'OpVariable' and [k for k, _ in ops] == kinds
                    rep.check(shape, key + ':shape', f.loc(), '%s adds %s %s' % (d, op, ops))
                    if not shape: continue
                    want = L.T.sc[sc]
                    rep.check(ops[2][1] == ('i', want), key + ':class', f.loc(), '%s makes a variable of storage class %s, %d (%s) is asked for' % (d, ops[2][1], want, sc))
                    po, pp = L.instr(s, ops[0][1][1])
                    el = L.instr(s, pp[2][1][1]) if po == 'OpTypePointer' and len(pp) == 3 and pp[2][0] == 'instr' else None
                    rep.check(el is not None and pp[1] == ('lit', ('i', want)) and el[0] == 'OpTypeFloat' and el[1][1:] == [('lit', ('i', 32))], key + ':type', f.loc(), '%s: the variable has type %s %s of %s' % (d, po, pp[1:2], el))
                    if ini == 'value':
                        io, ii = L.instr(s, ops[3][1][1])
                        rep.check(io == 'OpConstant' and [x for x in ii[2:]] == [('lit', ('i', 0x3f800000))], key + ':init', f.loc(), '%s initialises with %s %s' % (d, io, ii[2:]))
                    elif ini:
                        rep.check(ops[3][1] == A['init'], key + ':init', f.loc(), '%s: another initialiser' % d)
                    self.named(s, M, v[1], 'nam1' if named else None, key, f, d, t)
        rep.count('variables', n)
        # the others
        n = 0
        CO = ('obj', 'constobj')
        Q = [('addType', addType, M, [('ref', TO), NAME], base), ('addGlobalVariableInstr', L.fn(MOD, 'addGlobalVariableInstr'), M, [NAME], base)]
        for ty in ('float', 'unsigned int'):
            Q.append(('constant<%s>' % ty, self.pick(MOD, 'constant', ['const %s &' % ty, 'bool', 'char *'], [ty]), M, [('ref', fi), ('i', 0), NAME], st1))
            Q.append(('constant<%s>(spec)' % ty, self.pick(MOD, 'constant', ['const %s &' % ty, 'bool', 'char *'], [ty]), M, [('ref', fi), ('i', 1), NAME], st1))
        sf, F = L.call(st1.fork(), M, L.fn(MOD, 'addFunction', 0))
        F = F[1]
        sb, B = L.call(sf.fork(), F, L.fn(FN, 'addBasicBlock', 1), ZERO)
        Q.append(('Function::addBasicBlock', L.fn(FN, 'addBasicBlock', 1), F, [NAME], sf))
        sp, PT = L.call(sb.fork(), M, L.fn(MOD, 'addTypeInstr'), ZERO)
        sp = L.set_instr(sp, PT[1], 'OpTypePointer', [ID, ('lit', ('i', 7)), ('instr', ft)], 'pty')
        Q.append(('Function::variable', self.pick(FN, 'variable', ['Instruction *', 'char *', 'Instruction *']), F, [PT, NAME, ZERO], sp))
        Q.append(('Function::variable(Type)', self.pick(FN, 'variable', ['Type &', 'char *', 'Instruction *']), F, [('ref', TO), NAME, A['init']], sb))
        Q.append(('Function::variable<float>', self.pick(FN, 'variable', ['char *', 'Instruction *'], ['float']), F, [NAME, ZERO], sb))
        Q.append(('Function::variable<float>(value)', self.pick(FN, 'variable', ['const float &', 'char *'], ['float']), F, [('ref', fi), NAME], sb))
        for d, f, obj, args, st0 in Q:
            for nm in (None, 'n', 'name of some length'):
                st = st0.fork()
                r = L.call(st, obj, f, *[(('str', nm) if nm else ZERO) if x == NAME else x for x in args])
                n += 1
                key = 'made:%s:%s' % (d, nm)
                if r is None:
                    rep.bad(key, f.loc(), d + ' dereferences null'); continue
                s, v = r
                loc = v[1] if v[0] in ('p', 'ref') else None
                if d.endswith('addBasicBlock') and loc is not None:
                    g = L.call(s.fork(), loc, [x for x in self.fx.by_cls[BB] if x.name == 'getLabel' and not x.d.get('const')][0])
                    loc = g[1][1]
                if loc is None:
                    rep.bad(key, f.loc(), '%s gives %s' % (d, v)); continue
                self.named(s, M, loc, nm, key, f, d, t)
        rep.count('other named instructions', n)
        # a type asked for again keeps the name it has
        s, v = L.call(base.fork(), M, addType, ('ref', TO), ('str', 'first'))
        s, w = L.call(s, M, addType, ('ref', TO), ZERO)
        rep.check(v == w and self.section(s, M) == [(v[1], None, 'first')], 'again', addType.loc(), 'a named type asked for again: %s %s, names %s' % (v, w, self.section(s, M)))

    def dyn(self):
        r = self.fx.records['spvgentwo::dyn_scalar_t']
        return self.dynfields(r)

    def dynfields(self, r):
        e = {x[0]: x[1] for x in self.fx.enums['spvgentwo::spv::Op']['v']}
        val = {'bits': ('i', 32), 'sign': ('i', 0), 'baseType': ('i', e['OpTypeFloat']), 'op': ('i', e['OpTypeFloat'])}
        out = []
        for f in r['fields']:
            k = [x for x in val if x in f['n'] or f['n'] in x]
            if not k:
                raise AnalysisError('member %s of dyn_scalar_t' % f['n'])
            out.append((f['n'], val[k[0]]))
        return out

    def named(self, s, M, loc, name, key, f, d, t):
        got = self.section(s, M)
        want = [(loc, None, name)] if name else []
        self.rep.check(got == want, key + ':names', f.loc(), '%s %s leaves the name section %s' % (d, 'named "%s"' % name if name else 'without a name', got))
        g = self.name_of(s, M, loc)
        self.rep.check(g == name, key + ':lookup', f.loc(), '%s %s: getName gives %r' % (d, 'named "%s"' % name if name else 'without a name', g))
        if name:
            r = self.L.call(s.fork(), M, self.byName, ('str', name))
            self.rep.check(r is not None and r[1] == ('p', loc), key + ':byname', f.loc(), '%s: not found by its name' % d)


def check(fx, rep):
    rep.rule('names: addName and addMemberName leave exactly one OpName or OpMemberName of the target, the member and the string; lookups by target, member and string agree with the section after every history')
    rep.rule('rebuilt: reconstructNames makes the lookups say exactly what the name section says, fails exactly for entries that name nothing, and keeps the others')
    rep.rule('named: whatever takes a name records it for the instruction it gives, and none without; variables have the storage class, pointer type and initialiser asked for')
    rep.rule('compare: compareLiteralString is true exactly for operands that spell the string')
    c = Check(fx, rep)
    c.histories(); c.malformed(); c.literals(); c.producers()
    rep.count('queries', c.n)

"""C06: reading a binary never leaves the words an instruction declares, accepts an instruction exactly when its words match the grammar,
keeps every word as the right kind of operand, and puts every instruction where the module layout wants it."""
from sa import shape, spec
from sa.absint import State, ZERO, VOID, Interp
from sa.blocks import BlockInterp, BB, FUNC
from sa.facts import AnalysisError, Undetermined
from sa.types import MOD
from sa.world import INSTR
from c27 import FnWorld, EP

GR = 'spvgentwo::Grammar'
READER = ('p', ('obj', 'reader'))
GRAM = ('obj', 'grammar')
EXTRA = 6            # words of the following instructions that are available after the instruction under study

STR_END = 0x00006261
STR_MID = 0x64636261


class ReadInterp(BlockInterp):
    """the reader yields the planned words and then reports the end; grammar queries answer from the specification"""
    tables = None
    plan = ()
    summaries = False

    def model(self, st, fr, n, fn, obj, args):
        nm = n.get('n'); c = n.get('c') or ''
        if c == 'spvgentwo::IReader' and nm == 'get':
            k = sum(1 for e in st.events() if e[0] == 'get')
            plan = self.plan_of(st)
            if k >= len(plan):
                st.emit('eof')
                return [(st, ('i', 0))]
            st.emit('get', k)
            if args[0][0] != 'ref':
                raise AnalysisError('IReader::get target is not a variable: %r' % (args,))
            self.store(st, fr, args[0][1], plan[k], n)
            return [(st, ('i', 1))]
        if c == GR and self.tables is not None:
            if nm == 'hasOperandParameters':
                return None
            if nm in ('getInfo', 'getOperandParameters', 'getOperandBases'):
                return [(st, self.tables.query(self, st, nm, args))]
        r = self.summary(st, fr, n, fn, obj, args) if self.summaries else None
        if r is not None:
            return r
        return super().model(st, fr, n, fn, obj, args)

    def plan_of(self, st):
        return self.plan

    def inline(self, fn, fr):
        return fn.name == 'hasOperandParameters' or super().inline(fn, fr)

    def summary(self, st, fr, n, fn, obj, args):
        return None

    def num(self, st, a):
        for _ in range(4):
            if a[0] in ('ref', 'o'):
                l = a[1]
                f = ('f', l, self.types.ops.litname)
                a = st.mem[f] if f in st.mem else self.load(st, l)
            else:
                return a
        return a


class Tables:
    """the grammar the project's queries are answered from: Grammar::Instruction / Vector<Grammar::Operand> objects with the specification's content"""
    def __init__(self, fx, W):
        self.fx = fx; self.W = W; self.core = spec.core()
        self.kinds = {x[0]: x[1] for x in fx.enums[GR + '::OperandKind']['v']}
        self.cats = {x[0]: x[1] for x in fx.enums[GR + '::OperandCategory']['v']}
        self.quants = {x[0]: x[1] for x in fx.enums[GR + '::Quantifier']['v']}
        self.kname = {v: k for k, v in self.kinds.items()}
        self.params = {}
        for k in self.kinds:
            if k in self.core.kinds:
                for e in self.core.enumerants(k):
                    if e.get('parameters') and all(p['kind'] in self.kinds for p in e['parameters']):
                        v = e['value']
                        v = int(v, 16) if isinstance(v, str) else v
                        self.params.setdefault((k, v), [dict(kind=p['kind'], q='One') for p in e['parameters']])
        self.done = {}

    def oplist(self, ins):
        return [dict(kind=o['kind'], q={'?': 'ZeroOrOne', '*': 'ZeroOrAny'}.get(o.get('quantifier', ''), 'One')) for o in ins.get('operands', [])]

    def cat(self, k):
        return self.core.category(k)

    def ops(self, op):
        i = self.core.by_op.get(op)
        if i is None: return None
        l = self.oplist(i)
        return None if any(o['kind'] not in self.kinds for o in l) else l

    def vec(self, st, loc, items):
        m = st.mem
        D = ('new', 'gv:' + repr(loc))
        m[('f', loc, 'm_pData')] = ('p', D); m[('f', loc, 'm_elements')] = ('i', len(items)); m[('f', loc, 'm_capacity')] = ('i', len(items))
        for i, o in enumerate(items):
            l = D if i == 0 else ('idx', D, ('i', i))
            m[('f', l, 'kind')] = ('i', self.kinds[o['kind']]); m[('f', l, 'category')] = ('i', self.cats[self.cat(o['kind'])])
            m[('f', l, 'quantifier')] = ('i', self.quants[o['q']]); m[('f', l, 'name')] = ('str', o['kind'])
        return loc

    def query(self, ip, st, nm, args):
        a = [ip.num(st, x) for x in args]
        if any(x[0] != 'i' for x in a if x[0] != 'p'):
            # an unconstrained word taken for an enumerant: not what the plan provides, the operands will show it
            st.emit('misread', nm)
            return ZERO
        if nm == 'getInfo':
            op = a[0][1] & 0xffffffff
            if len(a) > 1 and a[1] != ('i', 0):
                raise AnalysisError('getInfo of an extended instruction set')
            l = self.ops(op)
            if l is None: return ZERO
            G = ('obj', 'gi%d' % op)
            if ('f', G, 'name') not in st.mem:
                st.mem[('f', G, 'name')] = ('str', self.core.name_of(op))
                self.vec(st, ('f', G, 'operands'), l)
            return ('p', G)
        k = self.kname.get(a[0][1])
        if nm == 'getOperandParameters':
            p = self.params.get((k, a[1][1] & 0xffffffff))
            if p is None: return ZERO
            return ('p', self.vec(st, ('obj', 'gp%s_%d' % (k, a[1][1])), p))
        if k in self.core.kinds and self.core.kinds[k].get('bases'):
            return ('p', self.vec(st, ('obj', 'gb' + k), [dict(kind=b, q='One') for b in self.core.bases(k)]))
        return ZERO


# ---------------------------------------------------------------- reference: what a word sequence means
class Ref:
    """parses a planned word list by the specification's grammar.  A planned word: ('s', ...) any word, or a constant for strings and enumerants"""
    def __init__(self, tab):
        self.t = tab

    def parse(self, op, words):
        """list of (kind, word) or None"""
        l = self.t.ops(op)
        if l is None: return None
        r = self.seq(l, list(words))
        if r is None or r[1]: return None
        return r[0]

    def seq(self, ops, ws):
        out = []
        for o in ops:
            k, q = o['kind'], o['q']
            while True:
                if not ws:
                    if q == 'One' : return None
                    break
                r = self.one(k, ws)
                if r is None: return None
                out += r[0]; ws = r[1]
                if q != 'ZeroOrAny': break
        return out, ws

    def one(self, k, ws):
        t = self.t; cat = t.cat(k)
        if k == 'LiteralString':
            out = []
            for i, w in enumerate(ws):
                out.append(('lit', w))
                if ends(w): return out, ws[i + 1:]
            return None
        if k == 'LiteralSpecConstantOpInteger':
            sub = t.ops(ws[0][1]) if ws[0][0] == 'i' else None
            if sub is None: return None
            r = self.seq([o for o in sub if o['kind'] not in ('IdResultType', 'IdResult')], ws[1:])
            return None if r is None else ([('lit', ws[0])] + r[0], r[1])
        if k == 'LiteralContextDependentNumber':
            return [('lit', w) for w in ws], []
        if cat == 'Composite':
            r = self.seq([dict(kind=b, q='One') for b in t.core.bases(k)], ws)
            return r
        if cat == 'Id': return [('id', ws[0])], ws[1:]
        if cat in ('ValueEnum', 'BitEnum'):
            out = [('lit', ws[0])]; rest = ws[1:]
            v = ws[0][1] if ws[0][0] == 'i' else None
            ps = []
            if v is not None:
                if cat == 'ValueEnum': ps = t.params.get((k, v), [])
                else:
                    for b in range(32):
                        if v >> b & 1: ps = ps + t.params.get((k, 1 << b), [])
            r = self.seq(ps, rest)
            return None if r is None else (out + r[0], r[1])
        return [('lit', ws[0])], ws[1:]


def ends(w):
    return w[0] == 'i' and any((w[1] >> s & 255) == 0 for s in (0, 8, 16, 24))


class Reads:
    def __init__(self, fx, rep):
        self.fx = fx; self.rep = rep
        self.W = FnWorld(fx)
        ip = ReadInterp(fx); ip.types = self.W; self.W.ip = ip; self.ip = ip
        self.T = self.W.T
        self.tab = Tables(fx, self.W); ip.tables = self.tab
        self.ref = Ref(self.tab)
        self.ro = fx.method(INSTR, 'readOperands', lambda f: f.body is not None)
        if len(self.ro.params) != 4:
            raise AnalysisError('Instruction::readOperands no longer takes reader, grammar, operation and operand count')
        self.n = 0; self.nshape = 0

    # -------------------------------------------------- one instruction
    def instr(self, what, op, words, declared, extra):
        """words: the operand words of the instruction (declared of them), followed by extra words of other instructions"""
        rep = self.rep; W = self.W; ip = self.ip
        st = State()
        L = ('obj', 'rd')
        shape.mklist(st, L, [])
        st.mem[('f', L, W.ops.opfield)] = ('i', 0)
        W.ownf(st, L, ('obj', 'fun'))
        st.mem[('f', L, 'm_pAllocator')] = W.alloc
        stream = list(words) + [('i', 0)] * extra     # zero is a word every operand kind can take
        ip.plan = stream
        want = None
        if declared <= len(stream):
            want = self.ref.parse(op, stream[:declared])
        outs = ip.run(self.ro, this=('p', L), args=[('ref', READER[1]), ('ref', GRAM), ('i', op), ('i', declared)], st=st)
        if not outs:
            raise Undetermined('%s: no path returns' % what)
        loc = self.ro.loc(); key = what
        for s, v in outs:
            self.n += 1
            got = sum(1 for e in s.events() if e[0] == 'get')
            if any(e[0] in ('nullderef', 'bad') for e in s.events()):
                rep.bad(key + ':null', loc, 'reading %s dereferences a null or foreign pointer' % what)
                continue
            rep.check(got <= declared, key + ':over', loc, 'reading %s consumes %d words, the instruction declares only %d' % (what, got, declared))
            acc = v == ('i', 1)
            if v not in (('i', 0), ('i', 1)):
                rep.bad(key + ':result', loc, 'reading %s: the result is not decided by the words' % what)
                continue
            if want is None:
                rep.check(not acc, key + ':accept', loc, 'reading %s is reported as success although the words do not match the grammar' % what)
            else:
                if not rep.check(acc, key + ':refuse', loc, 'reading %s is refused although the words match the grammar' % what): continue
                rep.check(got == declared, key + ':short', loc, 'reading %s consumes %d of its %d words' % (what, got, declared))
                o = ip.load(s, ('f', L, W.ops.opfield))
                rep.check(o == ('i', op), key + ':op', loc, 'reading %s leaves the operation %r' % (what, o))
                have = [W.ops.read(s, x) for x in W.listed(s, L)]
                rep.check(same(have, want), key + ':operands', loc, 'reading %s stores the operands %s, expected %s' % (what, short(have), short(want)))

    def words(self, kinds, tag, n=0):
        """minimal words for a list of (kind)"""
        out = []
        for i, k in enumerate(kinds):
            out += self.minimal(k, '%s%d' % (tag, i))
        return out

    def minimal(self, k, tag):
        t = self.tab; cat = t.cat(k)
        if k == 'LiteralString': return [('i', STR_MID), ('i', STR_END)]
        if k == 'LiteralSpecConstantOpInteger': return [('i', self.T.op['OpIAdd']), ('s', (tag, 'a')), ('s', (tag, 'b'))]
        if cat == 'Composite':
            return [w for j, b in enumerate(t.core.bases(k)) for w in self.minimal(b, '%s.%d' % (tag, j))]
        if cat in ('ValueEnum', 'BitEnum'):
            vals = [v for (kk, v) in t.params if kk == k]
            if vals:
                if cat == 'BitEnum': return [('i', 0)]
                used = set(vals)
                return [('i', next(v for v in range(1, 4096) if v not in used))]
            return [('s', tag)]
        return [('s', tag)]

    def sig(self, op):
        l = self.tab.ops(op)
        def one(o):
            k = o['kind']; c = self.tab.cat(k)
            if any(kk == k for kk, _ in self.tab.params) or k.startswith('Literal') or c == 'Composite': d = k
            else: d = c
            return d + o['q']
        return tuple(one(o) for o in l)

    def shapes(self):
        """every operand shape of the instruction set; the words of an instruction, one missing, one too many, the stream ending inside"""
        t = self.tab; seen = {}
        ops = sorted(set(t.core.by_op))
        known = [o for o in ops if t.ops(o) is not None and o in self.T.opn]
        for op in known:
            seen.setdefault(self.sig(op), []).append(op)
        self.rep.need('instructions of the grammar', len(known), 600)
        self.rep.need('operand shapes', len(seen), 80)
        for s, ol in seen.items():
            op = ol[0]
            l = t.ops(op); nm = t.core.name_of(op)
            req = [o['kind'] for o in l if o['q'] == 'One']
            base = []
            for i, o in enumerate(l):
                if o['q'] != 'One': break
                base += self.minimal(o['kind'], 'r%d' % i)
            variants = [('required operands only', base)]
            cur = list(base)
            for i, o in enumerate(l):
                if o['q'] == 'One': continue
                cur = cur + self.minimal(o['kind'], 'o%d' % i)
                variants.append(('with %s' % o['kind'], list(cur)))
                if o['q'] == 'ZeroOrAny':
                    cur = cur + self.minimal(o['kind'], 'p%d' % i)
                    variants.append(('with two %s' % o['kind'], list(cur)))
            for vn, ws in variants:
                w = '%s %s' % (nm, vn)
                self.instr(w, op, ws, len(ws), EXTRA)
                self.instr(w + ' then one word more', op, ws + [('i', 0)], len(ws) + 1, EXTRA)
                if ws:
                    self.instr(w + ' then one word less', op, ws[:-1], len(ws) - 1, EXTRA)
                    self.instr(w + ' without any word', op, [], 0, EXTRA)
                    self.instr(w + ' cut off by the end of the stream', op, ws[:-1], len(ws), 0)
                    self.instr(w + ' cut off after the first word', op, ws[:1], len(ws), 0) if len(ws) > 1 else None
            self.nshape += 1
        # strings at every length class
        sop = [op for op in known if any(o['kind'] == 'LiteralString' for o in t.ops(op))]
        for op in sop:
            l = t.ops(op); i = [o['kind'] for o in l].index('LiteralString'); nm = t.core.name_of(op)
            pre = [w for j in range(i) for w in self.minimal(l[j]['kind'], 'r%d' % j)]
            for label, s in (('an empty string', [('i', 0)]), ('a string of one word', [('i', 0x616161)]), ('a terminator on a word boundary', [('i', STR_MID), ('i', 0)]),
                             ('a string without terminator', [('i', STR_MID), ('i', STR_MID)]), ('a string of three words', [('i', STR_MID), ('i', STR_MID), ('i', 0x61)])):
                for extra in (0, EXTRA):
                    post = [w for j in range(i + 1, len(l)) if l[j]['q'] == 'One' for w in self.minimal(l[j]['kind'], 'q%d' % j)]
                    ws = pre + s + post
                    self.instr('%s with %s%s' % (nm, label, '' if extra else ' at the end of the stream'), op, ws, len(ws), extra)

    def enumerants(self):
        """every enumerant with parameters, pairs and the union of mask bits, in every distinct operand position"""
        t = self.tab; n = 0
        groups = {}
        for op in sorted(t.core.by_op):
            l = t.ops(op)
            if l is None or op not in self.T.opn: continue
            for i, o in enumerate(l):
                if any(k == o['kind'] for k, _ in t.params):
                    groups.setdefault((self.sig(op), i), op)
        fx_has = self.fx.method(GR, 'hasOperandParameters')
        per = {}
        for (s, i), op in sorted(groups.items(), key=lambda x: (x[1], x[0][1])):
            l = t.ops(op); k = l[i]['kind']; nm = t.core.name_of(op)
            pre = [w for j in range(i) for w in self.minimal(l[j]['kind'], 'r%d' % j)]
            post = [w for j in range(i + 1, len(l)) if l[j]['q'] == 'One' for w in self.minimal(l[j]['kind'], 'q%d' % j)]
            vals = sorted(v for kk, v in t.params if kk == k)
            first = k not in per; per[k] = 1
            if not first and self.rep.tier == 'quick':
                vals = vals[:3]
            masks = []
            if t.cat(k) == 'BitEnum':
                import itertools
                masks = [a | b for a, b in itertools.combinations(vals, 2)]
                if not first: masks = masks[:4]
                u = 0
                for v in vals: u |= v
                free = next(1 << b for b in range(31, -1, -1) if (k, 1 << b) not in t.params)
                masks += [u, vals[0] | free, free]
            for v in vals + masks:
                ps = []
                if t.cat(k) == 'BitEnum':
                    for b in range(32):
                        if v >> b & 1: ps += t.params.get((k, 1 << b), [])
                else: ps = t.params[(k, v)]
                pw = [w for j, p in enumerate(ps) for w in self.minimal(p['kind'], 'e%d' % j)]
                ws = pre + [('i', v)] + pw + post
                w = '%s with %s 0x%x' % (nm, k, v)
                self.instr(w, op, ws, len(ws), EXTRA)
                if pw:
                    self.instr(w + ' without the last parameter word', op, pre + [('i', v)] + pw[:-1], len(pre) + len(pw), EXTRA)
                    self.instr(w + ' without any parameter', op, pre + [('i', v)], len(pre) + 1, EXTRA)
                    self.instr(w + ' cut off in its parameters', op, pre + [('i', v)] + pw[:-1], len(ws), 0)
                n += 1
        self.rep.need('enumerants with parameters', n, 100)

    def special(self):
        t = self.tab; o = self.T.op
        X = lambda *a: [('s', x) for x in a]
        so = o['OpSpecConstantOp']
        for nm, ws in (('OpCompositeExtract', X('a', 'l0', 'l1')), ('OpCompositeInsert', X('a', 'b', 'l0')), ('OpVectorShuffle', X('a', 'b', 'l0', 'l1', 'l2')),
                       ('OpAccessChain', X('a', 'b', 'c')), ('OpSelect', X('a', 'b', 'c')), ('OpFNegate', X('a')), ('OpUMod', X('a', 'b')),
                       ('OpBitcast', X('a')), ('OpQuantizeToF16', X('a'))):
            w = X('rt', 'r') + [('i', o[nm])] + ws
            self.instr('OpSpecConstantOp %s' % nm, so, w, len(w), EXTRA)
            self.instr('OpSpecConstantOp %s cut off' % nm, so, w[:-1], len(w), 0)
            self.instr('OpSpecConstantOp %s without operands' % nm, so, w[:3], 3, EXTRA)
        un = next(v for v in range(60000, 61000) if v not in t.core.by_op)
        self.instr('OpSpecConstantOp of an unknown operation', so, X('rt', 'r') + [('i', un)] + X('a'), 4, EXTRA)
        self.instr('an unknown operation', un, X('a'), 1, EXTRA)
        self.instr('an unknown operation without operands', un, [], 0, EXTRA)

    # -------------------------------------------------- streams
    def streams(self):
        Streams(self).run()


class StreamInterp(ReadInterp):
    """Instruction::readOperands by its contract: the operation is taken over, the result is open"""
    summaries = True
    ro_words = {}

    def plan_of(self, st):
        return self.plan

    def val(self, st, a):
        for _ in range(4):
            if a[0] in ('ref', 'o'):
                v = st.mem.get(a[1])
                if v is None: return ('obj', a[1])
                a = v
            else: break
        return a

    def summary(self, st, fr, n, fn, obj, args):
        nm = n.get('n'); c = n.get('c') or ''
        if c == INSTR and nm == 'readOperands':
            s2 = st.fork()
            op = self.val(st, args[2]); cnt = self.val(st, args[3])
            T = self.types
            st.emit('operands', obj, op, cnt, True); s2.emit('operands', obj, op, cnt, False)
            st.mem[('f', obj[1], T.ops.opfield)] = op
            if op[0] == 'i':
                ws = self.contents.get(op[1], [])
                st2 = T._instr_at(st, obj[1], op[1], ws)
            return [(st, ('i', 1)), (s2, ('i', 0))]
        if c.startswith('spvgentwo::HashMap') and obj is not None and fn is not None:
            if fn.d.get('ctor'): return [(st, VOID)]
            if nm in ('emplaceUnique', 'emplace', 'insert'):
                v = args[1]
                o = None
                if v[0] in ('ref', 'o'):
                    o = self.load(st, ('f', v[1], self.types.ops.opfield)) if 'Instruction' in c else self.load(st, v[1])
                st.emit('map', obj[1], self.val(st, args[0]), o, 'Unique' in nm)
                return [(st, ('ref', ('new', 'mn%d' % st.fresh())))]
            if nm == 'get':
                for e in st.events():
                    if e[0] == 'map' and e[1] == obj[1]:
                        k = self.val(st, args[0])
                        if k == e[2]:
                            l = ('new', 'mv%d' % st.fresh()); st.mem[l] = e[3]
                            return [(st, ('p', l))]
                return [(st, ZERO)]
        if nm == 'getLiteralString':
            st.emit('text', args[0])
            if args[0][0] in ('ref', 'o'):
                st.mem[('f', args[0][1], 'm_elements')] = ('i', 5)
            return [(st, ('i', 1) if self.ty(fr, n) == 'bool' else VOID)]
        if c.startswith('spvgentwo::String') and nm == 'clear':
            return [(st, VOID)]
        if nm == 'getResultId' and c == INSTR:
            return [(st, self.resid)]
        if nm == 'read' and c == FUNC and self.fnsum:
            s2 = st.fork()
            st.emit('fn', obj, True); s2.emit('fn', obj, False)
            return [(st, ('i', 1)), (s2, ('i', 0))]
        if nm == 'read' and c == BB and self.bbsum:
            s2 = st.fork()
            st.emit('bb', obj, True); s2.emit('bb', obj, False)
            return [(st, ('i', 1)), (s2, ('i', 0))]
        return None


SECTION = {'OpCapability': 'map:getCapabilities', 'OpExtension': 'map:getExtensions', 'OpExtInstImport': 'map:getExtInstrImports', 'OpMemoryModel': 'one:getMemoryModel',
           'OpEntryPoint': 'ep', 'OpExecutionMode': 'getExecutionModes', 'OpExecutionModeId': 'getExecutionModes',
           'OpString': 'getSourceStrings', 'OpSource': 'getSourceStrings', 'OpSourceContinued': 'getSourceStrings', 'OpSourceExtension': 'getSourceStrings',
           'OpName': 'getNames', 'OpMemberName': 'getNames', 'OpModuleProcessed': 'getModulesProcessed',
           'OpDecorate': 'getDecorations', 'OpMemberDecorate': 'getDecorations', 'OpDecorationGroup': 'getDecorations', 'OpGroupDecorate': 'getDecorations',
           'OpGroupMemberDecorate': 'getDecorations', 'OpDecorateId': 'getDecorations', 'OpDecorateString': 'getDecorations', 'OpMemberDecorateString': 'getDecorations',
           'OpVariable': 'getGlobalVariables', 'OpUndef': 'getUndefs', 'OpLine': 'getLines', 'OpNoLine': 'getLines', 'OpFunction': 'fn'}
LISTS = ['getExecutionModes', 'getSourceStrings', 'getNames', 'getModulesProcessed', 'getDecorations', 'getTypesAndConstants', 'getGlobalVariables', 'getUndefs', 'getLines']


class Streams:
    def __init__(self, R):
        self.R = R; self.fx = R.fx; self.rep = R.rep; self.W = R.W; self.T = R.T
        ip = StreamInterp(self.fx); ip.types = self.W; self.W.ip = ip; self.ip = ip
        ip.fnsum = True; ip.bbsum = True; ip.resid = ('i', 7); ip.contents = {}
        self.W._instr_at = lambda st, I, op, ws: self.W.ops.instr(st, I, op, ws, 'ro%d' % st.fresh())
        import c01
        p = Interp(self.fx)
        acc = lambda cls, m: c01.sub(c01.accessor(self.fx, p, cls, m), ('obj', 'mod'))
        self.loc = {s: acc(MOD, s) for s in LISTS + ['getCapabilities', 'getExtensions', 'getExtInstrImports', 'getMemoryModel', 'getEntryPoints', 'getFunctions']}
        self.epi = c01.accessor(self.fx, p, EP, 'getEntryPoint')
        self.fni = c01.accessor(self.fx, p, FUNC, 'getFunction')
        self.spec = spec.core()

    def module(self, st):
        M = ('obj', 'mod')
        for s in LISTS + ['getEntryPoints', 'getFunctions']:
            shape.mklist(st, self.loc[s], [])
            st.mem[('f', self.loc[s], 'm_pAllocator')] = self.W.alloc
        I = self.loc['getMemoryModel']
        shape.mklist(st, I, []); st.mem[('f', I, self.W.ops.opfield)] = ('i', self.T.op['OpNop'])
        st.mem[('f', M, 'm_pAllocator')] = self.W.alloc
        return M

    def home(self, nm):
        i = self.spec.insts.get(nm)
        if nm in SECTION: return SECTION[nm]
        if nm.startswith('OpType') and i and i.get('class') == 'Type-Declaration': return 'getTypesAndConstants'
        if nm.startswith('OpConstant') or nm.startswith('OpSpecConstant'):
            return 'getTypesAndConstants' if i and i.get('class') == 'Constant-Creation' else None
        return None

    def where(self, s, I):
        """section the instruction object ended up in"""
        if I == self.loc['getMemoryModel']: return 'one:getMemoryModel'
        for sec in LISTS:
            if I in self.W.listed(s, self.loc[sec]):
                return sec
        import c01
        for ep in self.W.listed(s, self.loc['getEntryPoints']):
            if I == c01.sub(self.epi, ep): return 'ep'
        return None

    def header(self):
        rep = self.rep; ip = self.ip
        rd = self.fx.method(MOD, 'read', lambda f: f.body is not None)
        magic = 0x07230203
        for k in range(6):
            for m in (magic, magic ^ 1, 0x03022307, 0):
                ws = [('i', m)] + [('s', ('hdr', i)) for i in range(1, 5)]
                ip.plan = ws[:k]
                st = State(); M = self.module(st)
                outs = ip.run(rd, this=('p', M), args=[('ref', READER[1]), ('ref', GRAM)], st=st)
                self.R.n += len(outs)
                ok = k == 5 and m == magic
                for s, v in outs:
                    rep.check(v == ('i', 1 if ok else 0), 'Module::read:header:%d:%x' % (k, m), rd.loc(),
                              'a module of %d header words with magic 0x%08x is %s' % (k, m, 'refused' if ok else 'reported as read'))
                    if ok:
                        for i, g in enumerate(('getSpvVersion', 'getSpvGenerator', 'getSpvBound', 'getSpvSchema')):
                            s2, x = ip.run(self.fx.method(MOD, g, lambda f: not f.params), this=('p', M), args=[], st=s.fork())[0]
                            rep.check(x == ('s', ('hdr', i + 1)), 'Module::read:header:' + g, rd.loc(), 'header word %d does not end up in %s' % (i + 1, g))
                rep.check(bool(outs), 'Module::read:header:none', rd.loc(), 'Module::read has no path')
        return rd

    def run(self):
        rep = self.rep; ip = self.ip; T = self.T
        rd = self.header()
        magic = 0x07230203
        hdr = [('i', magic), ('i', 0x10600), ('i', 0), ('i', 100), ('i', 0)]
        C = ip.contents
        typ = ('id', ('i', 3))
        C[T.op['OpCapability']] = [('lit', ('i', 1))]
        C[T.op['OpExtension']] = [('lit', ('i', STR_END))]
        C[T.op['OpExtInstImport']] = [('id', ('i', 4)), ('lit', ('i', STR_END))]
        C[T.op['OpEntryPoint']] = [('lit', ('i', 4)), ('id', ('i', 7)), ('lit', ('i', STR_END)), ('id', ('i', 9))]
        C[T.op['OpVariable']] = [typ, ('id', ('i', 5)), ('lit', ('i', 6))]
        C[T.op['OpFunction']] = [typ, ('id', ('i', 7)), ('lit', ('i', 0)), ('id', ('i', 8))]
        ops = sorted((v, k) for k, v in T.op.items() if v <= 0xffff)
        n = 0; stored = 0
        unknown = next(v for v in range(60000, 61000) if v not in T.opn)
        for op, nm in ops + [(unknown, 'an unknown operation')]:
            nm = T.opn.get(op, nm)
            home = self.home(nm)
            for wc in (0, 1, 4):
                word = ('i', (wc << 16) | op)
                ip.plan = hdr + [word]
                st = State(); M = self.module(st)
                outs = ip.run(rd, this=('p', M), args=[('ref', READER[1]), ('ref', GRAM)], st=st)
                n += 1; self.R.n += len(outs)
                w = '%s with word count %d' % (nm, wc); key = 'Module::read:%s' % nm
                loc = rd.loc()
                if not outs:
                    raise Undetermined('Module::read has no path for %s' % w)
                for s, v in outs:
                    ev = s.events()
                    if any(e[0] in ('nullderef', 'bad') for e in ev):
                        rep.bad(key + ':null', loc, 'reading %s dereferences a null pointer' % w); continue
                    ro = [e for e in ev if e[0] == 'operands']
                    acc = v != ('i', 0)
                    if wc == 0:
                        rep.check(not acc and not ro, key + ':zero', loc, '%s: %s' % (w, 'operands are read' if ro else 'the module is reported as read'))
                        continue
                    fail = any(not e[4] for e in ro) or any(e[0] in ('fn', 'bb') and not e[2] for e in ev)
                    if fail:
                        rep.check(not acc, key + ':error', loc, '%s: a failure to read the operands is not reported' % w)
                        continue
                    if home is None:
                        # may be refused; success only if it is kept somewhere
                        if acc:
                            rep.check(ro and self.where(s, ro[0][1][1]) is not None, key + ':dropped', loc, '%s: accepted but not kept in the module' % w)
                        else: rep.ok()
                        continue
                    if not rep.check(acc, key + ':refused', loc, '%s: a module-level instruction is refused' % w): continue
                    if not rep.check(len(ro) == 1 and ro[0][2] == ('i', op) and ro[0][3] == ('i', wc - 1), key + ':operands', loc,
                                     '%s: operands are read %s' % (w, [(e[2], e[3]) for e in ro])): continue
                    I = ro[0][1][1]
                    stored += 1
                    if home.startswith('map:'):
                        mp = [e for e in ev if e[0] == 'map' and e[1] == self.loc[home[4:]]]
                        rep.check(len(mp) == 1 and mp[0][3] == ('i', op), key + ':home', loc, '%s: not kept in %s' % (w, home[4:]))
                        if nm == 'OpCapability' and mp:
                            rep.check(mp[0][2] == ('i', 1), key + ':key', loc, '%s: kept under the wrong key' % w)
                    elif home == 'fn':
                        fe = [e for e in ev if e[0] == 'fn']
                        fl = self.W.listed(s, self.loc['getFunctions'])
                        rep.check(len(fe) == 1 and len(fl) == 1 and fe[0][1] == ('p', fl[0]), key + ':home', loc, '%s: the body is not read into a new function of the module' % w)
                    elif home == 'ep':
                        rep.check(self.where(s, I) == 'ep', key + ':home', loc, '%s: not kept in a new entry point' % w)
                        eps = self.W.listed(s, self.loc['getEntryPoints'])
                        if eps:
                            x = ip.run(self.fx.method(EP, 'getExecutionModel', lambda f: not f.params), this=('p', eps[0]), args=[], st=s.fork())
                            rep.check(len(x) == 1 and x[0][1] == ('i', 4), key + ':model', loc, '%s: the execution model is not taken over' % w)
                            rep.check(any(e[0] == 'text' for e in ev), key + ':name', loc, '%s: the name is not taken over' % w)
                    else:
                        rep.check(self.where(s, I) == home, key + ':home', loc, '%s: kept in %s, expected %s' % (w, self.where(s, I), home))
        self.rep.need('module-level headers followed', n, 2000)
        self.rep.need('instructions kept by the module', stored, 80)
        self.links(rd, hdr)
        self.init()
        self.functions()
        self.bodies()

    def init(self):
        """readAndInit: reads, resolves ids, then reconstructs names and types; success only if each step succeeded"""
        rep = self.rep; ip = self.ip
        steps = ['read', 'resolveIDs', 'reconstructNames', 'reconstructTypeAndConstantInfo']
        ri = self.fx.method(MOD, 'readAndInit', lambda f: f.body is not None)
        old = ip.summary
        def summ(st, fr, n, fn, obj, args):
            if (n.get('c') or '') == MOD and n.get('n') in steps:
                s2 = st.fork()
                st.emit('step', n['n'], True); s2.emit('step', n['n'], False)
                return [(st, ('i', 1)), (s2, ('i', 0))]
            return old(st, fr, n, fn, obj, args)
        ip.summary = summ
        st = State(); M = self.module(st)
        outs = ip.run(ri, this=('p', M), args=[('ref', READER[1]), ('ref', GRAM)], st=st)
        ip.summary = old
        rep.check(any(v == ('i', 1) for s, v in outs), 'Module::readAndInit:none', ri.loc(), 'readAndInit never succeeds')
        for s, v in outs:
            done = [(e[1], e[2]) for e in s.events() if e[0] == 'step']
            good = all(x[1] for x in done)
            if v == ('i', 0):
                rep.check(not good, 'Module::readAndInit:false', ri.loc(), 'readAndInit reports failure although %s succeeded' % [x[0] for x in done])
            else:
                names = [x[0] for x in done]
                rep.check(good and sorted(names) == sorted(steps) and names[:2] == steps[:2], 'Module::readAndInit:true', ri.loc(),
                          'readAndInit reports success after %s' % ', '.join('%s%s' % (a, '' if b else ' (failed)') for a, b in done))

    def links(self, rd, hdr):
        """an OpFunction whose id an entry point named is read into that entry point; ids out of bounds are refused; order is kept"""
        rep = self.rep; ip = self.ip; T = self.T
        h = lambda nm, wc: ('i', (wc << 16) | T.op[nm])
        for res, known in ((7, True), (8, False)):
            ip.resid = ('i', res)
            ip.plan = hdr + [h('OpEntryPoint', 4), h('OpName', 3), h('OpDecorate', 3), h('OpName', 3), h('OpFunction', 5)]
            st = State(); M = self.module(st)
            for s, v in ip.run(rd, this=('p', M), args=[('ref', READER[1]), ('ref', GRAM)], st=st):
                ev = s.events()
                if v == ('i', 0): continue
                fe = [e for e in ev if e[0] == 'fn']
                eps = self.W.listed(s, self.loc['getEntryPoints']); fl = self.W.listed(s, self.loc['getFunctions'])
                want = eps if known else fl
                rep.check(len(fe) == 1 and len(want) == 1 and fe[0][1][1] == want[0] and (not known or not fl), 'Module::read:link:%d' % res, rd.loc(),
                          'the body of function %d is not read into %s' % (res, 'the entry point that names it' if known else 'a new function'))
                ro = [e[1][1] for e in ev if e[0] == 'operands']
                nl = self.W.listed(s, self.loc['getNames'])
                rep.check([x for x in ro if x in nl] == nl and len(nl) == 2, 'Module::read:order', rd.loc(), 'names are not kept in stream order')
        for res in (0, 100, 101, 0x7fffffff):
            ip.resid = ('i', res)
            ip.plan = hdr + [h('OpFunction', 5)]
            st = State(); M = self.module(st)
            for s, v in ip.run(rd, this=('p', M), args=[('ref', READER[1]), ('ref', GRAM)], st=st):
                rep.check(v == ('i', 0) and not any(e[0] == 'fn' for e in s.events()), 'Module::read:bound:%d' % res, rd.loc(), 'a function whose id %d is outside the bound of 100 is accepted' % res)
        ip.resid = ('i', 7)
        # a variable of function storage class outside of functions
        save = ip.contents[T.op['OpVariable']]
        for sc in [x[1] for x in self.fx.enums['spvgentwo::spv::StorageClass']['v'] if x[0] != 'Max']:
            ip.contents[T.op['OpVariable']] = [('id', ('i', 3)), ('id', ('i', 5)), ('lit', ('i', sc))]
            ip.plan = hdr + [h('OpVariable', 4)]
            st = State(); M = self.module(st)
            outs = [(s, v) for s, v in ip.run(rd, this=('p', M), args=[('ref', READER[1]), ('ref', GRAM)], st=st) if all(e[4] for e in s.events() if e[0] == 'operands')]
            fn = dict((x[0], x[1]) for x in self.fx.enums['spvgentwo::spv::StorageClass']['v'])['Function']
            for s, v in outs:
                rep.check((v == ('i', 0)) == (sc == fn), 'Module::read:storage:%d' % sc, rd.loc(), 'a module-scope variable of storage class %d is %s' % (sc, 'refused' if v == ('i', 0) else 'accepted'))
        ip.contents[T.op['OpVariable']] = save

    def functions(self):
        rep = self.rep; ip = self.ip; T = self.T; W = self.W
        fr = self.fx.method(FUNC, 'read', lambda f: f.body is not None)
        h = lambda nm, wc: ('i', (wc << 16) | T.op[nm])
        def go(plan):
            st = State(); F = ('obj', 'func2')
            W.mkfunc(st, F, [])
            shape.mklist(st, ('f', F, W.opend), []); st.mem[('f', ('f', F, W.opend), W.ops.opfield)] = ('i', T.op['OpFunctionEnd'])
            st.mem[('f', ('f', F, W.pars), 'm_pAllocator')] = W.alloc
            I = ('obj', 'opfunc')
            st, _ = W.ops.instr(st, I, T.op['OpFunction'], [('id', ('i', 3)), ('id', ('i', 77)), ('lit', ('i', 0)), ('id', ('i', 8))], 'of')
            W.ownf(st, I, F)
            ip.plan = plan
            outs = ip.run(fr, this=('p', F), args=[('ref', READER[1]), ('ref', GRAM), ('ref', I)], st=st)
            self.R.n += len(outs)
            if not outs: raise Undetermined('Function::read has no path')
            return F, outs
        bbs = []
        save = fr.loc()
        END = h('OpFunctionEnd', 1); P = h('OpFunctionParameter', 3); L = h('OpLabel', 2)
        for what, plan, ok, np, nb in (('no end', [], 0, 0, 0), ('an end', [END], 1, 0, 0), ('a parameter, no end', [P], 0, 1, 0), ('two parameters', [P, P, END], 1, 2, 0),
                                       ('a block', [L, END], 1, 0, 1), ('a parameter and two blocks', [P, L, L, END], 1, 1, 2), ('a block, no end', [L], 0, 0, 1)):
            F, outs = go(plan)
            for s, v in outs:
                ev = s.events()
                fail = any(e[0] == 'operands' and not e[4] for e in ev) or any(e[0] == 'bb' and not e[2] for e in ev)
                if any(e[0] in ('nullderef', 'bad') for e in ev):
                    rep.bad('Function::read:null:' + what, save, 'reading a function with %s dereferences a null pointer' % what); continue
                rep.check(v == ('i', 1 if ok and not fail else 0), 'Function::read:result:' + what, save,
                          'a function with %s%s is %s' % (what, ' (a part of it unreadable)' if fail else '', 'refused' if v == ('i', 0) else 'accepted'))
                if ok and not fail:
                    ps = W.listed(s, ('f', F, W.pars)); bl = W.listed(s, F)
                    rep.check(len(ps) == np and len(bl) == nb and [e[1][1] for e in ev if e[0] == 'bb'] == bl, 'Function::read:parts:' + what, save, 'a function with %s has %d parameters and %d blocks' % (what, len(ps), len(bl)))
                    rep.check([(e[1][1], e[2], e[3]) for e in ev if e[0] == 'operands'] == [(p, ('i', T.op['OpFunctionParameter']), ('i', 2)) for p in ps], 'Function::read:params:' + what, save,
                              'parameters are not read from their own words')
                    o = W.instr_at(s, ('f', F, W.opfn))
                    rep.check(o[0] == 'OpFunction' and o[1][1:2] == [('id', ('i', 77))], 'Function::read:opfn', save, 'the OpFunction instruction is not taken over')
        for op in sorted(x for x in T.opn if x <= 0xffff):
            nm = T.opn[op]
            for wc in (0, 1, 2, 3):
                if wc and nm in ('OpFunctionParameter', 'OpLabel', 'OpFunctionEnd') and wc == {'OpFunctionParameter': 3, 'OpLabel': 2, 'OpFunctionEnd': 1}[nm]: continue
                if nm == 'OpFunctionParameter' and wc: continue
                F, outs = go([('i', (wc << 16) | op), END])
                for s, v in outs:
                    rep.check(v == ('i', 0), 'Function::read:%s:%d' % (nm, wc), save, 'a function with %s of word count %d between its parts is accepted' % (nm, wc))

    def bodies(self):
        rep = self.rep; ip = self.ip; T = self.T; W = self.W
        br = self.fx.method(BB, 'read', lambda f: f.body is not None)
        ip.bbsum = False
        loc = br.loc()
        h = lambda op, wc: ('i', (wc << 16) | op)
        import c09
        term = self.terms()
        def go(plan):
            st = State()
            W.function(st, ['b'])
            b = W.blocks['b']
            ip.plan = plan
            args = [('ref', READER[1]), ('ref', GRAM)] + [('i', 1)] * (len(br.params) - 2)
            outs = ip.run(br, this=('p', b), args=args, st=st)
            self.R.n += len(outs)
            if not outs: raise Undetermined('BasicBlock::read has no path')
            return b, outs
        lab = T.op['OpLabel']
        n = 0
        for op in sorted(x for x in T.opn if x <= 0xffff):
            nm = T.opn[op]
            for wc in (0, 3):
                for plan, ends_ in (([h(op, wc)], nm in term), ([h(T.op['OpIAdd'], 5), h(op, wc), h(T.op['OpReturn'], 1)], True)):
                    if wc == 0 and len(plan) == 1 and nm not in term: continue
                    b, outs = go(plan); n += 1
                    for s, v in outs:
                        ev = s.events()
                        ro = [e for e in ev if e[0] == 'operands']
                        fail = any(not e[4] for e in ro)
                        bad = wc == 0 or nm in ('OpLabel', 'OpFunction', 'OpFunctionEnd')
                        ok = ends_ and not fail and not bad
                        k = 'BasicBlock::read:%s:%d:%d' % (nm, wc, len(plan))
                        rep.check(v == ('i', 1 if ok else 0), k, loc, 'a block with %s of word count %d %s%s is %s' % (
                            nm, wc, 'as its only instruction' if len(plan) == 1 else 'in it', ' (unreadable)' if fail else '', 'refused' if v == ('i', 0) else 'accepted'))
                        if ok and v == ('i', 1):
                            want = [(w[1] & 0xffff, (w[1] >> 16) - 1) for w in plan]
                            if len(plan) == 3 and nm in term: want = want[:2]
                            bl = W.listed(s, b)
                            got = [(e[2][1], e[3][1]) for e in ro if e[1][1] in bl]
                            rep.check(got == want and [e[1][1] for e in ro if e[1][1] in bl] == bl, k + ':content', loc, 'a block with %s reads %s' % (nm, got))
                            rep.check(ro[0][2] == ('i', lab) and ro[0][3] == ('i', 1) and ro[0][1][1] == ('f', b, W.lfield), k + ':label', loc, 'the label is not read from its one word')
        self.rep.need('block bodies followed', n, 1500)

    def terms(self):
        # terminators: the specification's list (2.2.5 and extensions)
        return {'OpBranch', 'OpBranchConditional', 'OpSwitch', 'OpReturn', 'OpReturnValue', 'OpKill', 'OpUnreachable', 'OpTerminateInvocation',
                'OpIgnoreIntersectionKHR', 'OpTerminateRayKHR', 'OpEmitMeshTasksEXT'}


def same(have, want):
    if len(have) != len(want): return False
    for (k, v), (k2, v2) in zip(have, want):
        if k != k2: return False
        if v != v2 and not (v and v[0] == 'i' and v2[0] == 'i' and (v[1] - v2[1]) % (1 << 32) == 0): return False
    return True


def short(l):
    return '[' + ', '.join('%s %s' % (k, v[1] if v else v) for k, v in l) + ']'


def check(fx, rep):
    rep.rule('one instruction: for every operand shape of the instruction set, every enumerant with parameters and every string length class, the words are accepted exactly when they match the '
             'specification grammar, each kept as an operand of its category in order; never a word beyond the declared count is consumed, whatever follows')
    rep.rule('stream: for every opcode and word count class Module/Function/BasicBlock::read refuse a zero word count, propagate every failure, and keep the instruction in the section of the logical layout')
    R = Reads(fx, rep)
    R.shapes(); R.enumerants(); R.special()
    R.streams()
    rep.count('instruction streams followed', R.n)

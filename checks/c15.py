"""C15: ids: assignment is dense and unique in layout order, resolution reaches every operand, use lists and replacement are complete."""
import c01
from sa import shape
from sa.absint import State, ZERO, VOID
from sa.facts import AnalysisError
from sa.world import Ops, INSTR, OPND

MOD = c01.MOD; FN = c01.FN; BB = c01.BB
SECS = c01.LAYOUT + c01.GLOBALS


class IdInterp(c01.WalkInterp):
    """hash maps keyed by concrete ids are followed as dictionaries, lists of uses by their appends"""
    def __init__(self, fx):
        super().__init__(fx)
        self.maps = {}

    def inline(self, fn, fr):
        c = fn.cls or ''
        return not c.startswith('spvgentwo::Grammar')

    def key(self, st, a):
        if a[0] in ('ref', 'o'):
            a = self.load(st, a[1])
        return a

    def model(self, st, fr, n, fn, obj, args):
        nm = n.get('n'); c = n.get('c') or ''
        if c.startswith('spvgentwo::HashMap<spvgentwo::spv::Id') and obj is not None:
            k = self.key(st, args[0]) if args else None
            slot = ('f', obj[1], repr(k))
            if nm in ('emplaceUnique', 'emplace', 'insert', 'insertUnique', 'add'):
                if slot not in st.mem:
                    st.mem[slot] = self.key(st, args[1])
                st.emit('bind', k, st.mem[slot])
                return [(st, ('o', ('new', 'node%d' % st.fresh())))]
            if nm == 'get':
                return [(st, ('p', slot) if slot in st.mem else ZERO)]
            if nm in ('find', 'begin', 'end', 'clear', 'erase', 'count', 'operator[]', 'contains'):
                raise AnalysisError('HashMap::%s in an id lookup is not followed by this check' % nm)
        if nm == 'emplace_back' and 'Instruction *' in c and c.startswith('spvgentwo::List'):
            st.emit('use', self.key(st, args[0]))
            return [(st, ('ref', ('new', 'u%d' % st.fresh())))]
        if nm == 'getBasicBlock' and c == INSTR:
            return [(st, ('s', ('bb', obj)))]
        if nm == 'erase' and c.startswith('spvgentwo::List') and obj is not None:
            # unlink the erased entry from the canonical list
            it = args[0]
            p = self.load(st, ('f', it[1], 'm_pEntry')) if it[0] in ('o', 'ref') else it
            st.emit('erase', p)
            if p[0] == 'p':
                e = p[1]
                a = self.load(st, ('f', e, 'm_pPrev')); b = self.load(st, ('f', e, 'm_pNext'))
                if a[0] == 'p': st.mem[('f', a[1], 'm_pNext')] = b
                elif a == ZERO: st.mem[('f', obj[1], 'm_pBegin')] = b
                if b[0] == 'p': st.mem[('f', b[1], 'm_pPrev')] = a
                elif b == ZERO: st.mem[('f', obj[1], 'm_pLast')] = a
                return [(st, ('o', ('new', 'it%d' % st.fresh())))]
        if nm in ('logError', 'logWarning', 'logInfo', 'logFatal', 'logDebug', 'log'):
            st.emit('log', nm)
            if self.ty(fr, n) == 'bool' and args:
                return [(st, self.key(st, args[0]))]
            return [(st, VOID)]
        if nm in ('getName', 'c_str'):
            return [(st, ('s', ('name', obj)))]
        return None


def ops_of(fx):
    e = fx.enums['spvgentwo::spv::Op']['v']
    return {x[0]: x[1] for x in e}


# opcode used for every instruction of a section (result id first / result type first / no result)
def setup(fx, ip, W, st, opn, fill):
    """canonical module with concrete instructions; fill(kind, index) gives the operands behind the result slots"""
    out = c01.build_module(fx, ip, st)
    order = []
    table = {'getCapabilities': 'OpCapability', 'getExtensions': 'OpExtension', 'getExtInstrImports': 'OpExtInstImport', 'getMemoryModel': 'OpMemoryModel',
             'getEntryPoints': 'OpEntryPoint', 'getExecutionModes': 'OpExecutionMode', 'getSourceStrings': 'OpString', 'getNames': 'OpName',
             'getModulesProcessed': 'OpModuleProcessed', 'getDecorations': 'OpDecorate', 'getTypesAndConstants': 'OpTypeVector', 'getGlobalVariables': 'OpVariable',
             'getUndefs': 'OpUndef', 'getLines': 'OpLine'}
    seq = []
    for sec in SECS:
        for I in out[sec]:
            seq.append((I, table[sec]))
    for name, s in out['fns'].items():
        for i, I in enumerate(s):
            d = c01.describe(I, out)
            last = i == len(s) - 1
            nxt_label = not last and is_label(fx, ip, s[i + 1])
            if i == 0: o = 'OpFunction'
            elif last: o = 'OpFunctionEnd'
            elif is_label(fx, ip, I): o = 'OpLabel'
            elif I in [shape.data('%s.p%d' % (name, j)) for j in range(2)]: o = 'OpFunctionParameter'
            elif i == len(s) - 2 : o = 'OpReturnValue'
            elif nxt_label: o = 'OpBranch'
            else: o = 'OpIAdd'
            seq.append((I, o))
    info = {}
    res = {'OpExtInstImport': (1, 0), 'OpString': (1, 0), 'OpTypeVector': (1, 0), 'OpVariable': (1, 1), 'OpUndef': (1, 1), 'OpFunction': (1, 1),
           'OpLabel': (1, 0), 'OpFunctionParameter': (1, 1), 'OpIAdd': (1, 1)}
    for n, (I, o) in enumerate(seq):
        r, t = res.get(o, (0, 0))
        ops = fill(n, I, o, r, t)
        st, locs = W.instr(st, I, opn[o], ops, 'op%d' % n)
        info[I] = dict(op=o, locs=locs, ops=ops, r=r, t=t, n=n)
    return st, out, info, [x[0] for x in seq]


def is_label(fx, ip, I):
    f = ip.__dict__.setdefault('_lab', c01.accessor(fx, ip, BB, 'getLabel')[2])
    return I[0] == 'f' and I[2] == f


def result_loc(info, I):
    x = info[I]
    return x['locs'][x['t']] if x['r'] else None


def check(fx, rep):
    rep.rule('over a module of canonical shape with a concrete instruction of every section, followed through the real walk, accessors and operand assignment: '
             'Module::assignIDs gives ids 1..N in layout order to exactly the result-id operands, bound = N + 1; Module::resolveIDs turns every raw id operand into the instruction '
             '(branch target where the operand is one) that defines it, leaves literals and result ids alone and refuses unknown ids; '
             'getInstructionById, gatherUses, replaceUses, removal of functions and blocks reach every operand of every instruction that refers to the target, and no other')
    ip = IdInterp(fx); W = Ops(fx); opn = ops_of(fx)
    assign(fx, rep, ip, W, opn)
    resolve(fx, rep, ip, W, opn)
    uses(fx, rep, ip, W, opn)


def assign(fx, rep, ip, W, opn):
    f = fx.method(MOD, 'assignIDs')
    st = State()

    def fill(n, I, o, r, t):
        ops = []
        if t: ops.append(('instr', ('p', ('new', 'T'))))
        if r: ops.append(('id', ('i', 0 if n % 2 else 77)))   # unassigned and stale ids
        ops += [('id', ('i', 9)), ('lit', ('i', 5)), ('instr', ('p', ('new', 'X')))]
        return ops
    st, out, info, seq = setup(fx, ip, W, st, opn, fill)
    n = 0
    for s, v in ip.run(f, args=[ZERO], st=st):
        if any(e[0] == 'nullderef' for e in s.events()):
            continue
        n += 1
        got = {}
        for I in seq:
            x = info[I]
            for i, (l, was) in enumerate(zip(x['locs'], x['ops'])):
                now = W.read(s, l)
                d = '%s %s' % (x['op'], c01.describe(I, out))
                if l == result_loc(info, I):
                    rep.check(now[0] == 'id' and now[1][0] == 'i', 'C15:assign:missing:%s' % c01.describe(I, out), f.loc(), 'assignIDs leaves the result id of %s as %s' % (d, now))
                    if now[0] == 'id' and now[1][0] == 'i':
                        got[I] = now[1][1]
                else:
                    rep.check(now == was, 'C15:assign:clobber:%s' % c01.describe(I, out), f.loc(), 'assignIDs changes operand %d of %s from %s to %s' % (i, d, was, now))
        ids = sorted(got.values())
        rep.check(ids == list(range(1, len(ids) + 1)), 'C15:assign:dense', f.loc(), 'assignIDs gives the ids %s to %d results; they should be 1..%d, each once' % (ids, len(ids), len(ids)))
        rep.check(v == ('i', len(ids)), 'C15:assign:return', f.loc(), 'assignIDs returns %s, the highest id is %d' % (v, len(ids)))
        b = ip.run(fx.method(MOD, 'getSpvBound'), args=[], st=s.fork())[0][1]
        rep.check(b == ('i', len(ids) + 1), 'C15:assign:bound', f.loc(), 'assignIDs leaves the id bound at %s with %d ids in use; it must be %d' % (b, len(ids), len(ids) + 1))
        rep.need('result ids assigned', len(ids), 25)
    rep.check(n >= 1, 'C15:assign:paths', f.loc(), 'assignIDs has %d complete paths over the canonical module' % n)


def resolve(fx, rep, ip, W, opn):
    f = fx.method(MOD, 'resolveIDs')

    def build(bad=None):
        st = State()
        labs = {}
        defs = {}

        def fill(n, I, o, r, t):
            ops = []
            if t: ops.append(('id', ('i', 1000)))     # result type: first type
            if r: ops.append(('id', ('i', 2000 + n)))
            if r: defs[2000 + n] = (I, o)
            ops += [('lit', ('i', 2001)), ('id', ('i', 'fwd')), ('lit', ('i', 0)), ('id', ('i', 'back'))]
            return ops
        # two passes: the ids of definitions are known after the first
        st0 = State()
        _, out, info, seq = setup(fx, ip, W, st0, opn, fill)
        last = max(defs); first = min(defs)
        lab = next(k for k, (I, o) in defs.items() if o == 'OpLabel')
        ty = next(k for k, (I, o) in defs.items() if o == 'OpTypeVector')
        nonres = [0]

        def fill2(n, I, o, r, t):
            m = {1000: ty, 'fwd': last, 'back': lab if n % 2 or o == 'OpBranch' else first}
            res = []
            for i, (k, v) in enumerate(fill(n, I, o, r, t)):
                if k == 'id' and i != t if r else k == 'id':
                    v = ('i', m.get(v[1], v[1]))
                res.append((k, v))
            if bad == n:
                res[-1] = ('id', ('i', 99999))
            return res
        st, out, info, seq = setup(fx, ip, W, st, opn, fill2)
        return st, out, info, seq, defs
    st, out, info, seq, defs = build()
    tot = 0; n = 0
    for s, v in ip.run(f, args=[ZERO], st=st):
        if any(e[0] == 'nullderef' for e in s.events()):
            continue
        n += 1
        rep.check(v == ('i', 1), 'C15:resolve:ok', f.loc(), 'resolveIDs returns %s for a module whose ids are all defined' % (v,))
        for I in seq:
            x = info[I]
            for i, (l, was) in enumerate(zip(x['locs'], x['ops'])):
                now = W.read(s, l)
                d = c01.describe(I, out)
                if l == result_loc(info, I) or was[0] != 'id':
                    rep.check(now == was, 'C15:resolve:clobber:%s' % d, f.loc(), 'resolveIDs changes operand %d of %s %s from %s to %s' % (i, x['op'], d, was, now))
                    continue
                tot += 1
                D, do = defs[was[1][1]]
                as_instr = ('instr', ('p', D)); as_bb = ('block', ('s', ('bb', ('p', D))))
                ok = now == as_bb if do == 'OpLabel' and x['op'] == 'OpBranch' else now == as_instr or do == 'OpLabel' and now == as_bb
                rep.check(ok, 'C15:resolve:operand:%s:%d' % (d, i), f.loc(), 'resolveIDs leaves operand %d of %s %s as %s; id %d is defined by %s %s' % (i, x['op'], d, now, was[1][1], do, c01.describe(D, out)))
    rep.check(n >= 1, 'C15:resolve:paths', f.loc(), 'resolveIDs has %d complete paths' % n)
    rep.need('operands resolved', tot, 100)
    for bad in range(0, len(seq), 4):
        st, out, info, seq, defs = build(bad)
        for s, v in ip.run(f, args=[ZERO], st=st):
            if any(e[0] == 'nullderef' for e in s.events()):
                continue
            rep.check(v == ZERO, 'C15:resolve:unknown', f.loc(), 'resolveIDs returns %s although %s refers to an id nothing defines' % (v, c01.describe(seq[bad], out)))


def uses(fx, rep, ip, W, opn):
    """every way of finding or replacing the uses of an instruction"""
    X = ('p', ('new', 'other'))

    def world(target, both=True):
        st = State()

        def fill(n, I, o, r, t):
            ops = []
            if t: ops.append(('instr', X))
            if r: ops.append(('id', ('i', 100 + n)))
            # target first / last / twice / not at all
            pat = [[1, 0, 0], [0, 0, 1], [1, 0, 1] if both else [0, 1, 0], [0, 0, 0]][n % 4]
            return ops + [(target if p else (('instr', X) if i % 2 else ('lit', ('i', 3)))) for i, p in enumerate(pat)]
        return setup(fx, ip, W, st, opn, fill)

    def judge(key, f, s, out, info, seq, target, repl, want_uses, skip=(), what=''):
        used = [e[1] for e in s.events() if e[0] == 'use']
        tot = 0
        for I in seq:
            if I in skip:
                continue
            x = info[I]; d = c01.describe(I, out)
            has = any(o == target for o in x['ops'])
            for i, (l, was) in enumerate(zip(x['locs'], x['ops'])):
                now = W.read(s, l)
                if was == target and repl is not None:
                    tot += 1
                    rep.check(now == repl, 'C15:%s:missed:%s' % (key, d), f.loc(), '%s leaves operand %d of %s %s as %s, it refers to the replaced instruction' % (what, i, x['op'], d, now))
                else:
                    rep.check(now == was, 'C15:%s:clobber:%s' % (key, d), f.loc(), '%s changes operand %d of %s %s from %s to %s' % (what, i, x['op'], d, was, now))
            if want_uses:
                tot += 1
                rep.check((('p', I) in used) == has, 'C15:%s:uses:%s' % (key, d), f.loc(),
                          '%s %s %s %s as a user' % (what, 'does not report' if has else 'reports', x['op'], d))
        return tot

    def complete(rs):
        return [(s, v) for s, v in rs if not any(e[0] == 'nullderef' for e in s.events())]
    T = ('instr', ('p', ('new', 'target'))); R = ('instr', ('p', ('new', 'repl')))
    tot = 0
    f = fx.method(MOD, 'replaceUses')
    st, out, info, seq = world(T)
    rs = complete(ip.run(f, args=[T[1], R[1]], st=st)); rep.check(len(rs) >= 1, 'C15:replaceUses:paths', f.loc(), 'replaceUses has %d complete paths' % len(rs))
    for s, v in rs:
        tot += judge('replaceUses', f, s, out, info, seq, T, R, False, what='replaceUses')
    f = fx.method(MOD, 'gatherUses')
    for r in (None, R):
        st, out, info, seq = world(T)
        rs = complete(ip.run(f, args=[T[1], ('ref', ('obj', 'uses')), r[1] if r else ZERO], st=st)); rep.check(len(rs) >= 1, 'C15:gatherUses:paths', f.loc(), 'gatherUses has %d complete paths' % len(rs))
        for s, v in rs:
            tot += judge('gatherUses', f, s, out, info, seq, T, r, True, what='gatherUses')
    # getInstructionById
    f = fx.method(MOD, 'getInstructionById')
    st, out, info, seq = world(T)
    for I in [I for I in seq if info[I]['r']][::5]:
        want = 100 + info[I]['n']
        for s, v in complete(ip.run(f, args=[('i', want)], st=st.fork())):
            tot += 1
            rep.check(v == ('p', I), 'C15:byid', f.loc(), 'getInstructionById returns %s for the id of %s' % (v, c01.describe(I, out)))
    for s, v in complete(ip.run(f, args=[('i', 5000)], st=st.fork())):
        rep.check(v == ZERO, 'C15:byid:none', f.loc(), 'getInstructionById returns %s for an id nothing defines' % (v,))
    # removal of a function: its uses go to the replacement, the function is gone
    f = next(g for g in fx.by_cls[MOD] if g.name == 'remove' and len(g.params) == 3)
    fi = c01.accessor(fx, ip, FN, 'getFunction')
    for victim in ('def0', 'decl1', 'ep1'):
        V = shape.data(victim); VR = shape.data('def1')
        T2 = ('instr', ('p', c01.sub(fi, V)))
        for rp in (('instr', ('p', c01.sub(fi, VR))), ('instr', ZERO)):
            st, out, info, seq = world(T2, both=False)
            for s, v in complete(ip.run(f, args=[('p', V), ('p', VR) if rp[1] != ZERO else ZERO, ZERO], st=st)):
                er = [e[1] for e in s.events() if e[0] == 'erase']
                rep.check(er == [('p', shape.node(victim))], 'C15:removeFunction:erase:%s' % victim, f.loc(), 'Module::remove(Function) of %s erases %s' % (victim, er))
                skip = set(out['fns'][victim]) | ({out['getEntryPoints'][1]} if victim == 'ep1' else set())
                tot += judge('removeFunction', f, s, out, info, seq, T2, rp, True, skip=skip, what='Module::remove(Function)')
    # nothing to remove: neither null nor a function of another module takes anything away
    st, out, info, seq = world(T, both=False)
    other = ('obj', 'elsewhere')
    for what, arg in (('null', ZERO), ('a function of another module', ('p', other))):
        r = complete(ip.run(f, args=[arg, ZERO, ZERO], st=st.fork()))
        rep.check(bool(r), 'C15:removeFunction:none', f.loc(), 'Module::remove(Function) of %s does not return' % what)
        for s, v in r:
            rep.check(not [e for e in s.events() if e[0] == 'erase'], 'C15:removeFunction:none', f.loc(), 'Module::remove(Function) of %s erases something' % what)
    # removal of a block
    f = next(g for g in fx.by_cls[FN] if g.name == 'remove' and len(g.params) == 3)
    lab = c01.accessor(fx, ip, BB, 'getLabel')
    mp = fx.records[FN]
    F = shape.data('def0'); V = shape.data('def0.b1'); VR = ('block', ('p', shape.data('def0.b0')))
    for T3 in (('block', ('p', V)), ('instr', ('p', c01.sub(lab, V)))):
        st, out, info, seq = world(T3)
        s0, mod = ip.run(fx.method(FN, 'getModule', lambda g: not g.params), this=('p', F), args=[], st=st.fork())[0]
        ml = mod[1][1] if mod[0] == 's' and mod[1][0] == 'ld' else None
        if ml is None:
            raise AnalysisError('module pointer of a function not found')
        st.mem[ml] = ('p', ('obj', 'this'))
        bl = out['fns']['def0']; at = bl.index(c01.sub(lab, V)); skip = set(bl[at:-1])
        for s, v in complete(ip.run(f, this=('p', F), args=[('p', V), VR[1], ZERO], st=st)):
            er = [e[1] for e in s.events() if e[0] == 'erase']
            rep.check(er == [('p', shape.node('def0.b1'))], 'C15:removeBlock:erase', f.loc(), 'Function::remove of a block erases %s' % er)
            tot += judge('removeBlock', f, s, out, info, seq, T3, VR, True, skip=skip, what='Function::remove')
    rep.need('operands judged in replacements', tot, 300)

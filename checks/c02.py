"""C02: the word encoding of one instruction, and of literal strings."""
from sa import shape
from sa.absint import Interp, State, ZERO, VOID
from sa.facts import AnalysisError

INSTR = 'spvgentwo::Instruction'
OPND = 'spvgentwo::Operand'
BB = 'spvgentwo::BasicBlock'
THIS = ('obj', 'this')


class Base(Interp):
    def __init__(self, fx):
        super().__init__(fx)
        self.budget = 3000000

    def model(self, st, fr, n, fn, obj, args):
        nm = n.get('n'); c = n.get('c') or ''
        if nm == 'put' and obj is not None:
            v = ('s', ('putres', st.fresh()))
            st.emit('put', self.plain(st, args[0]), v)
            return [(st, v)]
        if nm in ('logError', 'logWarning', 'logInfo', 'logFatal', 'logDebug', 'log'):
            return [(st, VOID if self.ty(fr, n) == 'void' else ZERO)]
        if nm in ('getModule', 'getName'):
            return [(st, ('s', (nm, obj)))]
        return None


class WriteInterp(Base):
    def model(self, st, fr, n, fn, obj, args):
        if n.get('n') == 'write' and n.get('c') == OPND:
            v = ('s', ('opres', st.fresh()))
            st.emit('operand', obj, v)
            return [(st, v)]
        return super().model(st, fr, n, fn, obj, args)


class OperandInterp(Base):
    def model(self, st, fr, n, fn, obj, args):
        if n.get('n') == 'getResultId' and n.get('c') == INSTR:
            return [(st, ('s', ('resultid', obj)))]
        return super().model(st, fr, n, fn, obj, args)


class StringInterp(Base):
    def on_store(self, st, fr, loc, val, node):
        # storing the whole word overwrites the bytes stored through a char pointer
        if loc[0] == 'f' and loc[2] == 'value':
            for k in [k for k in st.mem if k[0] == 'idx' and k[1] in (loc, loc[1])]:
                del st.mem[k]
            if val == ZERO:
                for i in range(4):
                    st.mem[('idx', loc[1], ('i', i))] = ZERO
                    st.mem[('idx', loc, ('i', i))] = ZERO

    def model(self, st, fr, n, fn, obj, args):
        nm = n.get('n'); c = n.get('c') or ''
        if nm == 'emplace_back' and obj is not None:
            if 'Operand' in c or c == INSTR:
                a = args[0]
                l = a[1] if a[0] in ('ref', 'o') else None
                by = []
                for i in range(4):
                    v = st.mem.get(('idx', l, ('i', i)), st.mem.get(('idx', ('f', l, 'value'), ('i', i))))
                    if v is None and st.mem.get(('f', l, 'value')) == ZERO:
                        v = ZERO
                    by.append(v)
                st.emit('word', tuple(by))
            else:
                st.emit('char', self.plain(st, args[0]))
            return [(st, ('s', ('new', st.fresh())))]
        if nm == 'hasStringTerminator':
            a = self.plain(st, args[0])
            l = a[1][1] if a[0] == 's' and a[1][0] == 'ld' else None
            by = [st.mem.get(('idx', l, ('i', i))) for i in range(4)]
            if all(b is not None for b in by):
                return [(st, ('i', int(any(b == ZERO for b in by))))]
        return super().model(st, fr, n, fn, obj, args)


def field(fx, ip, cls, getter, st=None):
    """name of the member a getter returns"""
    f = fx.method(cls, getter, lambda f: not f.params)
    for s, v in ip.run(f):
        v = v[1] if v[0] == 's' and v[1][0] == 'ld' else v
        for x in (v[1] if isinstance(v[1], tuple) else v, v):
            if isinstance(x, tuple) and x[0] == 'f' and x[1] == THIS:
                return x
    raise AnalysisError('cannot find the member behind %s::%s' % (cls, getter))


def check(fx, rep):
    rep.rule('Instruction::write over operand lists of 0..3 generic operands: header word first, (1 + operand count) << 16 | opcode, then each operand once in order; '
             'every failed put/operand ends the write with failure. Operand::write per operand kind: the word written. Header decoding is the inverse of header encoding. '
             'Literal strings: bytes in order from the low-order byte, zero terminated, zero padded to a word; the decoders stop exactly behind the terminator')
    header(fx, rep)
    operands(fx, rep)
    strings(fx, rep)
    numbers(fx, rep)


def header(fx, rep):
    ip = WriteInterp(fx)
    w = fx.method(INSTR, 'write')
    opf = field(fx, ip, INSTR, 'getOperation')
    dec_op = fx.one('spvgentwo::getOperation', lambda f: len(f.params) == 1)
    dec_n = fx.one('spvgentwo::getOperandCount', lambda f: len(f.params) == 1)
    mk = fx.one('spvgentwo::makeOpCode')
    n = 0
    for op in (1, 17, 0x1234, 0xFFFE):
        for k in (0, 1, 2, 3):
            st = State()
            locs = shape.mklist(st, THIS, ['o%d' % i for i in range(k)])
            st.mem[opf] = ('i', op)
            good = 0
            for s, v in ip.run(w, st=st):
                n += 1
                evs = [e for e in s.events() if e[0] in ('put', 'operand')]
                bad = [e for e in evs if s.facts.get(('nz', e[2])) is not True]
                if bad:
                    rep.check(len(bad) == 1 and bad[0] is evs[-1] and v == ZERO, 'C02:write:fail', w.loc(),
                              'Instruction::write does not end with failure at a word that could not be written (returns %s)' % (v,))
                    continue
                good += 1
                rep.check(v == ('i', 1), 'C02:write:ok', w.loc(), 'Instruction::write returns %s although every word was written' % (v,))
                rep.check(len(evs) == k + 1 and evs[0][0] == 'put' and [e[1] for e in evs[1:]] == [('p', l) for l in locs], 'C02:write:order', w.loc(),
                          'Instruction::write with %d operands writes %s' % (k, [(e[0], e[1]) for e in evs]))
                if evs and evs[0][0] == 'put':
                    rep.check(evs[0][1] == ('i', ((k + 1) << 16) | op), 'C02:write:header', w.loc(),
                              'Instruction::write with opcode %#x and %d operands writes the header %s, the encoding is %#x' % (op, k, evs[0][1], ((k + 1) << 16) | op))
            rep.check(good == 1, 'C02:write:complete', w.loc(), 'Instruction::write has %d successful paths' % good)
    for op in (0, 1, 0x54, 0xFFFF):
        for c in (1, 2, 0x123, 0xFFFF):
            word = ('i', (c << 16) | op)
            for f, want in ((dec_op, op), (dec_n, c)):
                for s, v in ip.run(f, args=[word]):
                    n += 1
                    rep.check(v == ('i', want), 'C02:decode:%s' % f.name, f.loc(), '%s(%#x) is %s, the header encodes %#x' % (f.name, word[1], v, want))
            for s, v in ip.run(mk, args=[('i', op), ('i', c)]):
                rep.check(v == word, 'C02:makeOpCode', mk.loc(), 'makeOpCode(%#x, %#x) is %s' % (op, c, v))
    rep.need('header evaluations', n, 60)


def operands(fx, rep):
    ip = OperandInterp(fx)
    w = fx.method(OPND, 'write')
    kinds = {v[0]: v[1] for v in fx.enums[OPND + '::Type']['v']}
    getters = {'Instruction': 'getInstruction', 'BranchTarget': 'getBranchTarget', 'Literal': 'getLiteral', 'Id': 'getId'}
    lab = field(fx, ip, BB, 'getLabel')
    ty = ('f', THIS, fx.records[OPND]['fields'][0]['n'])
    for k, val in sorted(kinds.items(), key=lambda x: x[1]):
        if k not in getters:
            raise AnalysisError('operand kind %s is not known to this check' % k)
        st = State(); st.mem[ty] = ('i', val)
        payload = ('s', ('payload', k))
        for s0, v0 in ip.run(fx.method(OPND, getters[k]), st=st.fork()):
            pl = ip.plain(s0, v0)
        # where the payload of this kind lives
        loc = None
        for x in walk(v0 if v0[0] != 'o' else s0.mem.get(v0[1], v0)):
            if isinstance(x, tuple) and len(x) == 3 and x[0] == 'f' and x[2] in ('instruction', 'branchTarget', 'literal', 'id'):
                loc = x
        if loc is None:
            for kk, vv in s0.mem.items():
                for x in walk((kk, vv)):
                    if isinstance(x, tuple) and len(x) == 3 and x[0] == 'f' and x[2] in ('instruction', 'branchTarget', 'literal', 'id') and x[1] == THIS:
                        loc = x
        if loc is None:
            raise AnalysisError('payload of operand kind %s not found' % k)
        if k == 'Literal':
            loc = ('f', loc, 'value')
        st.mem[loc] = payload
        npath = 0
        for s, v in ip.run(w, st=st):
            npath += 1
            puts = [e for e in s.events() if e[0] == 'put']
            want = {'Instruction': ('s', ('resultid', payload)), 'Literal': payload, 'Id': payload,
                    'BranchTarget': ('s', ('resultid', ('p', ('f', ('*', payload), lab[2]))))}[k]
            if not puts:
                inv = k == 'Id' and s.facts.get(('nz', payload)) is False or any(not b for f, b in s.facts.items() if payload in walk(f))
                rep.check(v == ZERO and inv, 'C02:operand:%s:none' % k, w.loc(), 'Operand::write of a %s writes nothing and returns %s' % (k, v))
                continue
            rep.check(len(puts) == 1 and puts[0][1] == want, 'C02:operand:%s' % k, w.loc(), 'Operand::write of a %s writes %s' % (k, [e[1] for e in puts]))
            ok = s.facts.get(('nz', puts[0][2]))
            rep.check(v in (puts[0][2], ('s', ('nz', puts[0][2]))) or (ok is not None and v == ('i', int(ok))), 'C02:operand:%s:result' % k, w.loc(),
                      'Operand::write of a %s returns %s instead of the outcome of the write' % (k, v))
        rep.check(npath > 0, 'C02:operand:%s:paths' % k, w.loc(), 'Operand::write of a %s has no path' % k)
        rep.sample('operand kind %s: %d paths' % (k, npath))


def walk(v):
    yield v
    if isinstance(v, tuple):
        for x in v:
            yield from walk(x)


def strings(fx, rep):
    ip = StringInterp(fx)
    enc = [f for f in fx.q('spvgentwo::appendLiteralsToContainer') if len(f.params) == 2 and fx_t(f, 1) == 'const char *']
    if not enc:
        raise AnalysisError('string encoder not found')
    n = 0
    for f in enc:
        for L in range(0, 10):
            st = State()
            src = ('new', 'text')
            ch = [('s', ('char', i)) for i in range(L)] + [ZERO]
            for i, c in enumerate(ch):
                st.mem[('idx', src, ('i', i)) if i else src] = c
                if c != ZERO:
                    st.facts[('nz', c)] = True
                    st.dom[c] = ('notin', frozenset([0]))
            for s, v in ip.run(f, args=[('ref', ('obj', 'out')), ('p', src)], st=st):
                n += 1
                words = [e[1] for e in s.events() if e[0] == 'word']
                want = ch + [ZERO] * (-len(ch) % 4)
                got = [b for w in words for b in w]
                rep.check(got == want, 'C02:string:encode:%d' % (L % 4), f.loc(), 'a string of length %d is encoded as %s' % (L, [show(b) for b in got]))
    rep.need('string encodings', n, 10)
    # decoders
    get = fx.one('spvgentwo::getLiteralString'); skip = fx.one('spvgentwo::skipLiteralString')
    ty = fx.records[OPND]['fields'][0]['n']
    lit = dict((v[0], v[1]) for v in fx.enums[OPND + '::Type']['v'])['Literal']
    m = 0
    for L in range(0, 10):
        for f in (get, skip):
            st = State()
            nw = (L + 4) // 4
            locs = shape.mklist(st, ('new', 'ops'), ['w%d' % i for i in range(nw + 2)])
            ch = [('s', ('char', i)) for i in range(L)] + [ZERO] * (nw * 4 - L) + [('s', ('after', i)) for i in range(8)]
            for i, l in enumerate(locs):
                st.mem[('f', l, ty)] = ('i', lit)
                val = literal_loc(fx, l)
                for j in range(4):
                    c = ch[i * 4 + j]
                    st.mem[('idx', val, ('i', j))] = c
                    if c != ZERO:
                        st.facts[('nz', c)] = True; st.dom[c] = ('notin', frozenset([0]))
            it = ('new', 'it'); end = ('new', 'end')
            pe = entry_field(fx)
            st.mem[('f', it, pe)] = ('p', shape.node('w0')); st.mem[('f', end, pe)] = ZERO
            args = [('ref', ('obj', 'out')), ('o', it), ('o', end)] if f is get else [('o', it)]
            for s, v in ip.run(f, args=args, st=st):
                m += 1
                chars = [e[1] for e in s.events() if e[0] == 'char']
                if f is get:
                    rep.check(chars == ch[:L], 'C02:string:decode', f.loc(), 'getLiteralString decodes a string of length %d as %s' % (L, [show(c) for c in chars]))
                pos = ip.load(s, ('f', v[1], pe)) if v[0] in ('o', 'ref') else v
                rep.check(pos == ('p', shape.node('w%d' % nw)), 'C02:string:after:%s' % f.name, f.loc(),
                          '%s of a string of %d characters returns the position %s, the next operand is number %d' % (f.name, L, pos, nw))
    rep.need('string decodings', m, 20)
    h = fx.one('spvgentwo::hasStringTerminator')
    for w in [0, 0x41424344, 0x00424344, 0x41004344, 0x41420044, 0x41424300, 0x01010101, 0xFFFFFFFF, 0x80808080, 0x10000000, 0x00000061]:
        want = any(((w >> s) & 0xFF) == 0 for s in (0, 8, 16, 24))
        for s, v in ip.run(h, args=[('i', w)]):
            rep.check(v == ('i', int(want)), 'C02:terminator', h.loc(), 'hasStringTerminator(%#x) is %s' % (w, v))


def show(c):
    return 0 if c == ZERO else c[1][1] if c and c[0] == 's' else c


def fx_t(f, i):
    return f.tu.types[f.params[i]['t']]


def entry_field(fx):
    return fx.records['spvgentwo::EntryIterator<spvgentwo::Operand>']['fields'][0]['n']


def literal_loc(fx, opnd):
    return ('f', ('f', opnd, 'literal'), 'value')


WIDE = ('double', 'long', 'unsigned long', 'long long', 'unsigned long long')


def numbers(fx, rep):
    """number of words per literal type, low-order word first"""
    ip = Base(fx)

    class N(Base):
        def model(self, st, fr, n, fn, obj, args):
            nm = n.get('n')
            if nm == 'emplace_back' and obj is not None:
                a = args[0]
                st.emit('word', a)
                return [(st, ('s', ('new', st.fresh())))]
            if n.get('op') == '()' and fn is not None and fn.d.get('lam') is not None or nm == 'operator()':
                # copy(src, dst, bytes)
                if len(args) == 3:
                    st.emit('copy', args[0], args[1], args[2])
                    return [(st, VOID)]
            return super().model(st, fr, n, fn, obj, args)
    ip = N(fx)
    cnt = 0
    for f in fx.q('spvgentwo::appendLiteralsToContainer'):
        t = fx_t(f, 1)
        if t.endswith('*') or len(f.params) != 2:
            continue
        want = 2 if t in WIDE else 1
        for s, v in ip.run(f):
            evs = s.events()
            words = [e[1] for e in evs if e[0] == 'word']
            cp = [e for e in evs if e[0] == 'copy']
            rep.check(len(words) == want, 'C02:number:%s:words' % t, f.loc(), 'a literal of type %s is encoded in %d words' % (t, len(words)))
            cnt += 1
            if cp:
                dst = cp[0][2][1] if cp[0][2][0] in ('p', 'ref', 'o') else None
                base = dst[1] if dst and dst[0] == 'idx' and dst[2] == ZERO else dst
                got = [w[1] if w[0] == 'ref' else w for w in words]
                exp = [dst if want == 1 else ('idx', base, ('i', 0)), ('idx', base, ('i', 1))][:want]
                ok = len(cp) == 1 and cp[0][3] == ('i', 4 * want) and all(g == e or (i == 0 and g == dst) for i, (g, e) in enumerate(zip(got, exp)))
                rep.check(ok, 'C02:number:%s:order' % t, f.loc(), 'a literal of type %s is encoded as %s copied from %s bytes' % (t, got, cp[0][3]))
    rep.need('literal types', cnt, 10)
    # several literals at once: the words of each, in the order given
    many = 0
    for f in fx.q('spvgentwo::appendLiteralsToContainer'):
        ts = [fx_t(f, i) for i in range(1, len(f.params))]
        if len(ts) < 2 or any(t.endswith('*') for t in ts):
            continue
        want = []
        for i, t in enumerate(ts):
            want += [11 + i if t == 'unsigned int' else None] * (2 if t in WIDE else 1)
        args = [('o', ('obj', 'out'))] + [('i', 11 + i) if t == 'unsigned int' else ('s', 'arg%d' % i) for i, t in enumerate(ts)]
        many += 1
        for s, v in ip.run(f, None, args):
            got = []
            for e in s.events():
                if e[0] == 'word':
                    w = e[1]
                    x = ip.load(s, ('f', w[1], 'value')) if w[0] in ('ref', 'o') else w
                    got.append(x[1] if x[0] == 'i' and x[1] in range(11, 11 + len(ts)) else None)
            rep.check(len(got) == len(want) and all(b is None or a == b for a, b in zip(got, want)), 'C02:several:' + ','.join(ts), f.loc(),
                      'the literals (%s) become the words %s, expected %s' % (', '.join(ts), got, want))
    rep.need('lists of literals', many, 3)

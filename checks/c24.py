"""C24: words on their way to and from files and vectors.

The readers and writers are followed path by path over a model of the C library's file functions (a file of given bytes, a position, and
every call that can fail made to fail), the writing methods of the module over a writer that fails at every word."""
from c20 import Check as Declared
from sa.absint import ZERO, VOID, State
from sa.facts import AnalysisError, Undetermined
from sa.live import Live, LiveInterp
from sa.types import MOD
from sa.world import INSTR, OPND

BR = 'spvgentwo::BinaryFileReader'; BW = 'spvgentwo::BinaryFileWriter'
FN = 'spvgentwo::Function'; BB = 'spvgentwo::BasicBlock'
FILE = ('p', ('obj', 'FILE'))
LIBC = ('fopen', 'fclose', 'fseek', 'ftell', 'rewind', 'fread', 'fwrite', 'fflush', 'feof', 'ferror')


class IoInterp(LiveInterp):
    """file functions over one file whose bytes the scenario gives; self.fail names the call that fails"""
    data = b''
    fail = None

    def count(self, st, nm):
        k = ('obj', 'calls.' + nm)
        v = st.mem.get(k, ZERO)[1] + 1
        st.mem[k] = ('i', v)
        f = self.fail == '%s%d' % (nm, v)
        if f:
            st.emit('failed', self.fail)
        return f

    @staticmethod
    def words_at(p):
        """the words behind a void*"""
        l = p[1]
        if l[0] == 'bytes':
            if l[2:] not in ((4,), ()):
                raise AnalysisError('buffer is not made of words')
            l = l[1]
        return l

    def pos(self, st, v=None):
        k = ('obj', 'file.pos')
        if v is not None:
            st.mem[k] = ('i', v)
        return st.mem.get(k, ZERO)[1]

    def libc(self, st, nm, a):
        if nm in ('fread', 'fwrite') and (a[1] == ZERO or a[2] == ZERO):
            return ZERO
        f = self.count(st, nm)
        if nm == 'fopen':
            if f or self.data is None:
                return ZERO
            text = lambda m: m[1] if m[0] == 'str' else m[1][1] if m[0] in ('ref', 'p') and m[1][0] == 'strl' else None
            st.emit('io', 'fopen', text(a[1]), text(a[0]))
            self.pos(st, 0)
            return FILE
        h = a[3] if nm in ('fread', 'fwrite') else a[0]
        if h != FILE:
            st.emit('io', 'badhandle', nm)
            return ZERO
        if st.mem.get(('obj', 'file.closed')) == ('i', 1):
            st.emit('io', 'closedhandle', nm)
        if nm == 'fclose':
            st.emit('io', 'fclose', None)
            st.mem[('obj', 'file.closed')] = ('i', 1)
            return ('i', -1 if f else 0)
        if nm in ('fflush', 'feof', 'ferror'):
            return ('i', -1 if f and nm == 'fflush' else 0)
        if nm == 'ftell':
            return ('i', -1 if f else self.pos(st))
        if nm == 'rewind':
            self.pos(st, 0)
            return VOID
        if nm == 'fseek':
            if f:
                return ('i', -1)
            off, wh = a[1], a[2]
            if off[0] != 'i' or wh[0] != 'i' or wh[1] not in (0, 1, 2):
                raise AnalysisError('fseek is not concrete')
            o = off[1] - (1 << 64) if off[1] >= 1 << 63 else off[1]
            p = o + (0, self.pos(st), len(self.data))[wh[1]]
            if p < 0:
                return ('i', -1)
            self.pos(st, p)
            return ('i', 0)
        size, cnt = a[1], a[2]
        if size[0] != 'i' or cnt[0] != 'i':
            raise AnalysisError(nm + ' is not concrete')
        n = size[1] * cnt[1]
        if f:
            n = max(0, n - 4)
        if nm == 'fread':
            p = self.pos(st)
            n = max(0, min(n, len(self.data) - p))
            if n % 4:
                st.emit('io', 'badhandle', 'part of a word is read')
            for i in range(n // 4):
                if a[0] == ZERO:
                    st.emit('io', 'null', nm); break
                st.mem[self.idx(self.words_at(a[0]), ('i', i))] = ('i', int.from_bytes(self.data[p + 4 * i:p + 4 * i + 4], 'little'))
            self.pos(st, p + n)
        else:
            if n % 4:
                raise AnalysisError('part of a word written')
            for i in range(n // 4):
                st.emit('word', self.load(st, self.idx(self.words_at(a[0]), ('i', i))) if a[0] != ZERO else None)
        return ('i', n // size[1] if size[1] else 0)

    def model(self, st, fr, n, fn, obj, args):
        nm = n.get('n'); c = n.get('c') or ''
        if not c and fn is None and nm in LIBC:
            args = [self.load(st, a[1]) if a[0] == 'ref' and a[1][0] != 'strl' else a for a in args]
            return [(st, self.libc(st, nm, args))]
        if nm == 'allocate' and c.endswith('Allocator'):
            if self.count(st, 'allocate'):
                return [(st, ZERO)]
        if c == 'spvgentwo::IWriter' and nm == 'put':
            f = self.count(st, 'put')
            st.emit('word', args[0])
            return [(st, ('i', int(not f)))]
        return super().model(st, fr, n, fn, obj, args)

    # objects with a destructor of their own are destroyed when the function that declares them is left
    def dtors(self, fn):
        c = self.__dict__.setdefault('dmemo', {})
        if fn.id not in c:
            out = []

            def walk(x):
                if isinstance(x, dict):
                    if x.get('k') == 'decl':
                        for v in x['v']:
                            t = fn.tu.types[v['t']] if 't' in v and not v.get('r') and not v.get('sl') else ''
                            q = t.replace('const ', '').strip()
                            for f in self.fx.by_cls.get(q, self.fx.by_cls.get(q.split('::')[-1], []) if '::' in q and q not in self.fx.by_cls and 'rai' in q else []):
                                if f.name.startswith('~') and f.body is not None:
                                    out.append((v['d'], v['n'], f))
                    if x.get('k') == 'lambda':
                        return
                    for y in x.values():
                        walk(y)
                elif isinstance(x, list):
                    for y in x:
                        walk(y)
            walk(fn.body)
            c[fn.id] = out[::-1]
        return c[fn.id]

    def leave(self, out, nf):
        if nf.fn is None or not (nf.fn.cls or '').startswith('spvgentwo::Binary'):
            return
        for d, nm, f in self.dtors(nf.fn):
            for i, (s, v) in enumerate(out):
                loc = ('v', d, nm, nf.fid)
                if loc in s.mem or s.mem.below(loc):
                    r = self.invoke(s, nf, f, ('p', loc), [])
                    if len(r) != 1:
                        raise Undetermined('destructor %s: %d paths' % (f.q, len(r)))
                    out[i] = (r[0][0], v)


def io(st):
    return [e[1:] for e in st.events() if e[0] == 'io']


def words(st):
    return [e[1] for e in st.events() if e[0] == 'word']


def failed(st):
    return [e[1] for e in st.events() if e[0] == 'failed']


class Check:
    def __init__(self, fx, rep):
        self.fx = fx; self.rep = rep
        self.ip = IoInterp(fx)
        self.L = Live(fx, self.ip)
        self.n = 0

    def start(self):
        st = State()
        for v in (self.L.alloc, FILE, ('p', ('obj', 'W'))):
            st.facts[('nz', v)] = True
        return st

    def ctor(self, cls, n):
        c = [f for f in self.fx.by_cls[cls] if f.d.get('ctor') and len(f.params) == n and f.body is not None]
        if len(c) != 1:
            raise AnalysisError('constructor of %s: %d' % (cls, len(c)))
        return c[0]

    def one(self, fn, this, args, st, what):
        self.n += 1
        r = self.ip.run(fn, this=('p', this) if this else None, args=args, st=st)
        if len(r) > 1:
            raise Undetermined('%s: %d paths' % (what, len(r)))
        return r[0] if r else None

    def fresh(self, st):
        """new calls are counted from one; the file can be opened again"""
        for k in list(st.mem.below(('obj', 'x'))) + [('obj', 'calls.' + n) for n in LIBC + ('allocate', 'put')] + [('obj', 'file.closed')]:
            st.mem[k] = ZERO
        st.trace = None
        return st

    # ------------------------------------------------ reader
    def reader(self):
        rep = self.rep; ip = self.ip; R = ('obj', 'reader')
        read = self.L.fn(BR, 'read', 3); get = self.L.fn(BR, 'get', 1); ok = self.L.fn(BR, 'operator bool'); ctor = self.ctor(BR, 4)
        data = lambda n: bytes((7 * i + 3) & 255 for i in range(n))
        W = ('obj', 'wordvar')
        at = lambda d, o, n: [int.from_bytes(d[o + 4 * i:o + 4 * i + 4], 'little') for i in range(n // 4)]

        def drain(st, want, key, what, can):
            if can:
                for i in range(len(want) + 2):
                    st.mem[W] = ('i', 0x5eed)
                    r = self.one(get, R, [('ref', W)], st, 'get')
                    if r is None:
                        rep.bad(key + ':get', get.loc(), '%s: get dereferences null' % what); return
                    st = r[0]
                    got = (r[1], st.mem.get(W))
                    exp = (('i', 1), ('i', want[i])) if i < len(want) else (('i', 0), ('i', 0x5eed))
                    if got != exp:
                        rep.bad(key + ':get:%d' % i, get.loc(), '%s: call %d of get answers %s and gives %s, the word is %s' % (what, i + 1, got[0], got[1], want[i] if i < len(want) else 'none')); return
            rep.ok()
            r = self.one(ok, R, [], st, 'operator bool')
            rep.check(r is not None and r[1] == ('i', int(len(want) > 0)), key + ':bool', ok.loc(), '%s: the reader says %s with %d words read' % (what, r and r[1], len(want)))

        def judge(r, d, off, ln, key, f, what, answers):
            if r is None:
                rep.bad(key, f.loc(), what + ' dereferences null'); return None
            st, v = r
            good = d is not None and off <= len(d)
            n = ln or (len(d) - off if good else 0)
            good = good and n <= len(d) - off and n % 4 == 0 and not failed(st)
            if answers:
                rep.check(v == ('i', int(good)), key, f.loc(), '%s%s answers %s' % (what, ' with failing ' + failed(st)[0] if failed(st) else '', v))
            ev = io(st)
            opened = sum(1 for e in ev if e[0] == 'fopen'); closed = sum(1 for e in ev if e[0] == 'fclose')
            rep.check(opened == closed and not [e for e in ev if e[0] in ('badhandle', 'closedhandle', 'null')] and all('r' in (e[1] or '') and 'b' in e[1] for e in ev if e[0] == 'fopen'),
                      key + ':file', f.loc(), '%s%s: file calls %s' % (what, ' with failing ' + failed(st)[0] if failed(st) else '', ev))
            return at(d, off, n) if good else []
        fails = [None, 'fopen1', 'fseek1', 'fseek2', 'ftell1', 'fread1', 'allocate1']
        n = 0
        for size in (0, 4, 8, 20, 22, None):
            d = None if size is None else data(size)
            for off in sorted({0, 4, 8, 2, size or 0, (size or 0) + 4}):
                for ln in sorted({0, 4, 8, 6, 12, max(0, (size or 0) - off), max(0, (size or 0) - off) + 4}):
                    for fail in fails if (off, ln) in ((0, 0), (4, 0), (4, 4), (0, 8)) else (None,):
                        for prior in ((0, 1) if fail is None or off else (0,)):
                            ip.data = data(16)[::-1]; ip.fail = None
                            st = self.start()
                            st = self.one(ctor, R, [('ref', ('obj', 'alloc')), ('str', 'f0') if prior else ZERO, ZERO, ZERO], st, 'constructor')[0]
                            if prior:
                                st.mem[W] = ZERO
                                st = self.one(get, R, [('ref', W)], st, 'get')[0]
                            st = self.fresh(st)
                            ip.data = d; ip.fail = fail
                            what = 'read of %s, offset %d, length %d%s' % ('no file' if d is None else '%d bytes' % size, off, ln, ' after another file' if prior else '')
                            key = 'read:%s:%d:%d:%s:%d' % (size, off, ln, fail, prior)
                            n += 1
                            if prior == 0 and (off % 8) == 0:
                                # by the constructor
                                s2 = self.start()
                                r = self.one(ctor, ('obj', 'reader'), [('ref', ('obj', 'alloc')), ('str', 'f'), ('i', off), ('i', ln)], s2, 'constructor')
                                w = judge(r, d, off, ln, key + ':ctor', ctor, 'constructor with ' + what, False)
                                if w is not None:
                                    drain(r[0], w, key + ':ctor', 'constructor with ' + what, True)
                            r = self.one(read, R, [('str', 'f'), ('i', off), ('i', ln)], st, 'read')
                            w = judge(r, d, off, ln, key, read, what, True)
                            if w is not None:
                                drain(r[0], w, key, what + (' with failing %s' % fail if fail and failed(r[0]) else ''), True)
        ip.fail = None; ip.data = data(8)
        st = self.one(ctor, R, [('ref', ('obj', 'alloc')), ZERO, ZERO, ZERO], self.start(), 'constructor')[0]
        r = self.one(read, R, [ZERO, ZERO, ZERO], st, 'read')
        rep.check(r is not None and r[1] == ZERO, 'read:nullpath', read.loc(), 'read of a null path answers %s' % (r and r[1],))
        rep.count('reads', n)

    # ------------------------------------------------ writers
    def writer(self):
        rep = self.rep; ip = self.ip; X = ('obj', 'writer')
        put = self.L.fn(BW, 'put', 1); op = self.L.fn(BW, 'open', 1); close = self.L.fn(BW, 'close', 0); isopen = self.L.fn(BW, 'isOpen', 0); ctor = self.ctor(BW, 3)
        dt = [f for f in self.fx.by_cls[BW] if f.name.startswith('~') and f.body is not None]
        ob = self.L.fn(BW, 'operator bool')
        if len(dt) != 1:
            raise AnalysisError('destructor of BinaryFileWriter: %d' % len(dt))
        reports = close.tu.types[close.ret] == 'bool' if isinstance(close.ret, int) else 'bool' in str(close.ret)
        n = 0
        for cap in (0, 2, 16):
            for count in (0, 1, 2, 5):
                for when in ('ctor', 'first', 'last', 'never'):
                    for by in ('close', 'dtor'):
                        for fail in (None, 'fopen1', 'fwrite1', 'fclose1', 'allocate1', 'allocate2'):
                            ip.fail = fail; ip.data = b''
                            what = '%d words, file opened %s, %s%s' % (count, {'ctor': 'by the constructor', 'first': 'before', 'last': 'after', 'never': 'never'}[when], 'closed' if by == 'close' else 'destroyed', ', failing ' + fail if fail else '')
                            key = 'write:%d:%d:%s:%s:%s' % (cap, count, when, by, fail)
                            st = self.start(); bad = None
                            opened = False; kept = []

                            def step(f, args):
                                nonlocal st, bad
                                r = self.one(f, X, args, st, f.name) if bad is None else None
                                if r is None:
                                    bad = bad or f
                                    return None
                                st = r[0]
                                return r[1]
                            n += 1
                            step(ctor, [('ref', ('obj', 'alloc')), ('str', 'o') if when == 'ctor' else ZERO, ('i', cap)])
                            if when == 'first':
                                v = step(op, [('str', 'o')])
                                rep.check(v == ('i', int('fopen1' not in failed(st))), key + ':open', op.loc(), '%s: open answers %s' % (what, v))
                            for i in range(count):
                                b = len(failed(st))
                                v = step(put, [('i', 100 + i)])
                                lost = len(failed(st)) > b
                                rep.check(v == ('i', int(not lost)), key + ':put', put.loc(), '%s: put answers %s for a word that is %s' % (what, v, 'lost' if lost else 'kept'))
                                if not lost:
                                    kept.append(('i', 100 + i))
                            if when == 'last':
                                step(op, [('str', 'o')])
                            v = step(isopen, [])
                            u = step(ob, [])
                            opened = [e for e in io(st) if e[0] == 'fopen']
                            if bad is None:
                                rep.check(len(opened) == int(when != 'never' and 'fopen1' not in failed(st)), key + ':opens', (ctor if when == 'ctor' else op).loc(), '%s: the file is %s' % (what, 'open' if opened else 'not opened'))
                                rep.check(v == u == ('i', len(opened)), key + ':isopen', isopen.loc(), '%s: isOpen answers %s' % (what, v))
                                if opened:
                                    rep.check('w' in (opened[0][1] or '') and 'b' in opened[0][1], key + ':mode', op.loc(), 'file opened with %r' % (opened[0][1],))
                                    rep.check(opened[0][2] == 'o', key + ':path', op.loc(), '%s: opens the file %r' % (what, opened[0][2]))
                                    v = step(op, [('str', 'p')])
                                    rep.check(v == ZERO and len([e for e in io(st) if e[0] == 'fopen']) == 1, key + ':again', op.loc(), '%s: a second open answers %s' % (what, v))
                            v = step(close if by == 'close' else dt[0], [])
                            if bad is not None:
                                rep.bad(key, bad.loc(), '%s: %s dereferences null' % (what, bad.name)); continue
                            ev = io(st)
                            short = 'fwrite1' in failed(st); w = words(st)
                            exp = kept if opened else []
                            rep.check(w == (exp[:len(w)] if short else exp) , key + ':words', close.loc(), '%s: the file gets %s, it should get %s' % (what, w, exp))
                            rep.check(sum(1 for e in ev if e[0] == 'fclose') == len(opened) and not [e for e in ev if e[0] in ('badhandle', 'closedhandle')], key + ':closed', close.loc(), '%s: file calls %s' % (what, ev))
                            if by == 'close':
                                lost = short or 'fclose1' in failed(st) or (kept and not opened)
                                if reports:
                                    rep.check(v == ('i', int(not lost)), key + ':close', close.loc(), '%s: close answers %s' % (what, v))
                                elif lost:
                                    rep.bad(key + ':close', close.loc(), '%s: close does not report that words were lost' % what)
                                # nothing of it is written again
                                st = self.fresh(st); ip.fail = None
                                step(op, [('str', 'q')]); step(put, [('i', 7)]); step(close, []); step(dt[0], [])
                                rep.check(bad is None and words(st) == [('i', 7)] and [e[0] for e in io(st)] == ['fopen', 'fclose'], key + ':reuse', close.loc(), '%s, then another file: it gets %s, file calls %s' % (what, words(st), io(st)))
        rep.count('files written', n)
        # vectors
        VW = 'spvgentwo::BinaryVectorWriter<spvgentwo::Vector<unsigned int>>'
        V = ('obj', 'vec'); VC = 'spvgentwo::Vector<unsigned int>'
        vput = self.L.fn(VW, 'put', 1); vctor = self.ctor(VW, 1)
        vc = [f for f in self.fx.by_cls[VC] if f.d.get('ctor') and f.body is not None and len(f.params) == 1 and 'IAllocator' in f.tu.types[f.params[0]['t']]]
        n = 0
        for fail in (None, 'allocate1', 'allocate2', 'allocate3'):
            ip.fail = fail
            st = self.start()
            st = self.one(vc[0], V, [self.L.alloc], st, 'Vector')[0]
            st = self.one(vctor, X, [('ref', V)], st, 'BinaryVectorWriter')[0]
            kept = []
            for i in range(9):
                b = len(failed(st))
                st, v = self.one(vput, X, [('i', 50 + i)], st, 'put')
                lost = len(failed(st)) > b
                n += 1
                if not lost:
                    kept.append(50 + i)
                size = self.one(self.L.fn(VC, 'size', 0), V, [], st, 'size')[1]
                p = self.one([f for f in self.fx.by_cls[VC] if f.name == 'data'][0], V, [], st, 'data')[1]
                got = [ip.load(st, ip.idx(p[1], ('i', j)))[1] for j in range(size[1])] if size[0] == 'i' and p[0] == 'p' else []
                rep.check(v == ('i', int(not lost)) and got == kept, 'vector:%s:%d' % (fail, i), vput.loc(), 'put of a word that is %s answers %s, the vector holds %s of %s' % ('lost' if lost else 'kept', v, got, kept))
        ip.fail = None
        rep.count('words put into vectors', n)

    # ------------------------------------------------ modules over a writer that fails
    def failing(self):
        rep = self.rep; ip = self.ip; L = self.L
        ip.fail = None
        d = Declared.__new__(Declared)
        d.fx = self.fx; d.rep = rep; d.ip = ip; d.L = L; d.caps = {x[0]: x[1] for x in self.fx.enums['spvgentwo::spv::Capability']['v']}
        base, M, at = d.layout()
        base.facts[('nz', ('p', ('obj', 'W')))] = True
        base = L.call(base, M, L.fn(MOD, 'assignIDs'), ZERO)[0]
        base = self.fresh(base)
        F = L.list(base, L.sec(M, 'getFunctions'))[0]
        B = L.list(base, F)
        J = [(MOD, 'write', M, 'Module::write'), (MOD, 'finalizeAndWrite', M, 'Module::finalizeAndWrite'), (FN, 'write', F, 'Function::write'), (BB, 'write', B[0], 'BasicBlock::write'), (INSTR, 'write', at['OpTypeInt'], 'Instruction::write')]
        n = 0
        for cls, nm, obj, what in J:
            f = L.fn(cls, nm)
            args = [('ref', ('obj', 'W'))] + ([ZERO] if len(f.params) == 2 else [])
            ip.fail = None
            r = self.one(f, obj, args, base.fork(), what)
            if r is None:
                rep.bad(what, f.loc(), what + ' dereferences null'); continue
            total = words(r[0])
            rep.check(r[1] == ('i', 1), what + ':result', f.loc(), '%s answers %s though the writer takes every word' % (what, r[1]))
            rep.need('words of ' + what, len(total), 1)
            for k in range(1, len(total) + 1):
                if rep.tier != 'thorough' and len(total) > 60 and k > 12 and k % 3:
                    continue
                ip.fail = 'put%d' % k
                r = self.one(f, obj, args, base.fork(), what)
                n += 1
                ok = r is not None and r[1] == ZERO and words(r[0]) == total[:k]
                rep.check(ok, '%s:put%d' % (what, k), f.loc(), '%s: the writer refuses word %d of %d, %s answers %s%s' %
                          (what, k, len(total), what, r and r[1], '' if r is None or len(words(r[0])) == k else ' and puts %d more words behind it' % (len(words(r[0])) - k)))
        ip.fail = None
        # operands that cannot be written
        ow = L.fn(OPND, 'write')
        O = ('obj', 'operand')
        for kind, val, good in (('instr', ZERO, 0), ('block', ZERO, 0), ('id', ('i', 5), 1), ('lit', ('i', 0), 1), ('lit', ('i', 0xffffffff), 1), ('id', ZERO, 0)):
            st = L.ops.put(base.fork(), O, kind, val)
            r = self.one(ow, O, [('ref', ('obj', 'W'))], st, 'Operand::write')
            n += 1
            rep.check(r is not None and r[1] == ('i', good) and words(r[0]) == ([val] if good else []), 'operand:%s:%s' % (kind, val[1]), ow.loc(),
                      'Operand::write of %s %s %s' % (kind, val[1], 'dereferences null' if r is None else 'answers %s and puts %s' % (r[1], words(r[0]))))
        rep.count('refused words', n)


def check(fx, rep):
    rep.rule('reader: read answers true exactly when the requested part of the file is whole words and was read, get then gives these words in order and nothing else, and the file is closed on every path')
    rep.rule('writer: every word put is written to the file in order and once, what is lost is reported by put or close, the file is opened once and closed once')
    rep.rule('failure: a word the writer refuses makes every write method of the module answer false without putting another word')
    c = Check(fx, rep)
    c.reader(); c.writer(); c.failing()
    rep.count('runs', c.n)

"""C25: allocators and callables.  The allocator over external memory is followed through all short histories of allocations and deallocations with
concrete addresses, alignments and sizes; scoped allocations, construct/destruct and Callable are followed with the typestate of storage and elements
that the container check keeps."""
import itertools
from c10 import CInterp, ALLOC, MOVED
from sa.absint import State, ZERO, VOID
from sa.facts import AnalysisError, Undetermined
from sa.report import parallel

EXT = 'spvgentwo::ExternalMemoryAllocator'
CALL = 'spvgentwo::Callable<unsigned int (unsigned int, unsigned int)>'
SA = 'spvgentwo::ScopedAllocation'


class AInterp(CInterp):
    """storage typestate of CInterp; objects remember their class, virtual calls go to its override"""
    real = False      # follow allocate/deallocate of the concrete allocators

    def model(self, st, fr, n, fn, obj, args):
        nm = n.get('n') or ''; c = n.get('c') or ''
        if nm == 'called':
            a = args[0]
            if a[0] in ('ref', 'o'):
                if not self.alive(st, a[1]):
                    st.emit('bad', 'calls a functor which does not live', n.get('l', 0))
                a = self.value(st, a[1])
            r = ('i', 1000 + sum(1 for e in st.events() if e[0] == 'called'))
            st.emit('called', a, args[1], args[2], r)
            return [(st, r)]
        if n['k'] == 'ctor' and obj is not None and obj[0] == 'p':
            cls = fn.cls if fn is not None and fn.cls else nm
            r = self.fx.records.get(cls)
            if r and r['bases'] and ('f', obj[1], '#dyn') not in st.mem:
                st.mem[('f', obj[1], '#dyn')] = ('str', cls)
        if n.get('v') and not n.get('nv') and obj is not None and obj[0] == 'p':
            d = st.mem.get(('f', obj[1], '#dyn'))
            if d is not None:
                dtor = nm.startswith('~')
                f = [f for f in self.fx.by_cls.get(d[1], []) if (f.name.startswith('~') if dtor else f.name == nm and len(f.params) == len(args)) and f.body is not None]
                if dtor:
                    # what the class holds directly
                    if f and not f[0].d.get('dflt') and not f[0].d.get('impl'):
                        return self.invoke(st, fr, f[0], obj, args, n)
                    for l in self.items(d[1], obj[1]):
                        self.die(st, l, n)
                    return [(st, VOID)]
                if len(f) == 1:
                    return self.invoke(st, fr, f[0], obj, args, n)
        if n['k'] == 'icall' and fn is not None and fn.body is not None:
            return None
        if self.real and nm in ('allocate', 'deallocate') and fn is not None and fn.body is not None:
            return None
        return super().model(st, fr, n, fn, obj, args)


class Al:
    def __init__(self, fx, rep):
        self.fx = fx; self.rep = rep; self.ip = AInterp(fx); self.n = 0

    def free(self, name):
        c = self.fx.q('vp::' + name)
        if len(c) != 1:
            raise AnalysisError('vp::%s: %d candidates' % (name, len(c)))
        return c[0]

    def meth(self, cls, name, nargs=None, pred=None):
        c = [f for f in self.fx.by_cls.get(cls, []) if f.name == name and f.body is not None and (nargs is None or len(f.params) == nargs) and (pred is None or pred(f, [f.tu.types[p['t']] for p in f.params]))]
        if len(c) != 1:
            raise AnalysisError('%s::%s: %d candidates' % (cls, name, len(c)))
        return c[0]

    def ctor(self, cls, *types):
        c = [f for f in self.fx.by_cls.get(cls, []) if f.d.get('ctor') and len(f.params) == len(types) and all(t in f.tu.types[p['t']] for t, p in zip(types, f.params))]
        if len(c) != 1:
            raise AnalysisError('constructor of %s: %d candidates' % (cls, len(c)))
        return c[0]

    def call(self, st, this, fn, *args):
        r = self.ip.run(fn, this=('p', this) if this is not None else None, args=list(args), st=st)
        if len(r) > 1:
            raise Undetermined('%s: %d paths for a concrete call' % (fn.q, len(r)))
        return r[0] if r else None

    def bad(self, st, key, loc, what):
        b = sorted({e[1] if len(e) == 3 else e[1][0] for e in st.events() if e[0] == 'bad'})
        self.rep.check(not b, key, loc, '%s: %s' % (what, ', '.join(map(str, b))))


# ------------------------------------------------------------------------------------------------ memory
class Memory(Al):
    def __init__(self, fx, rep):
        super().__init__(fx, rep)
        self.ip.real = True
        self.alloc = self.meth(EXT, 'allocate'); self.dealloc = self.meth(EXT, 'deallocate')

    def histories(self, part, parts):
        rep = self.rep; deep = rep.tier == 'thorough'
        new = self.ctor(EXT, 'void *', '')
        sizes = (0, 1, 3, 8, 24) if deep else (0, 1, 8, 24); aligns = (1, 2, 8, 16) if deep else (1, 4, 16)
        ops = [('a', n, a) for n in sizes for a in aligns] + [('d', i, z) for i in (0, 1) for z in ((0, 1) if deep else (0,))]
        for c, (base, cap) in enumerate(itertools.product((4096, 4097, 4103, 4112), (0, 1, 8, 25, 48))):
            if c % parts != part:
                continue
            st = State()
            r = self.call(st, ('obj', 'A'), new, ('i', base), ('i', cap))
            if r is None:
                rep.bad('memory/ctor', new.loc(), 'constructing an allocator fails'); continue
            self.grow(r[0], base, cap, base, [], ['memory [%d, %d)' % (base, base + cap)], ops, 3)

    def grow(self, st, base, cap, cur, live, hist, ops, depth):
        """live: [(address, size)] in the order of allocation, cur: end of the last one"""
        rep = self.rep; end = base + cap
        if depth == 0:
            return
        for op in ops:
            s = st.fork()
            if op[0] == 'a':
                _, n, a = op
                w = '%s, allocate(%d, %d)' % (', '.join(hist), n, a)
                key = 'memory/%d/%d/%s' % (base, cap, w)
                r = self.call(s, ('obj', 'A'), self.alloc, ('i', n), ('i', a))
                if not rep.check(r is not None and r[1][0] == 'i', key + '/result', self.alloc.loc(), w + ' gives no address'):
                    continue
                p = r[1][1]; at = (cur + a - 1) // a * a; fits = at + n <= end
                rep.count('allocations')
                if p:
                    rep.check(p % a == 0, key + '/align', self.alloc.loc(), '%s gives %d, which is not aligned' % (w, p))
                    rep.check(base <= p and p + n <= end, key + '/inside', self.alloc.loc(), '%s gives %d, outside of [%d, %d)' % (w, p, base, end))
                    rep.check(all(p + n <= q or q + m <= p or not n or not m for q, m in live), key + '/overlap', self.alloc.loc(), '%s gives %d, which overlaps a live allocation' % (w, p))
                rep.check(bool(p) == fits, key + '/fits', self.alloc.loc(), '%s %s although %d bytes %s behind %d' % (w, 'succeeds' if p else 'fails', n, 'fit' if fits else 'do not fit', cur))
                if bool(p) != fits or p and not (base <= p and p + n <= end):
                    continue
                if n or not p:
                    self.grow(r[0], base, cap, p + n if p else cur, live + [(p, n)] if p else live, hist + ['allocate(%d, %d)' % (n, a)], ops, depth - 1)
            else:
                _, i, z = op
                if i >= len(live):
                    continue
                p, n = live[-1 - i]
                w = '%s, deallocate of the %s one' % (', '.join(hist), ('last', 'one before the last')[i])
                key = 'memory/%d/%d/%s/%d' % (base, cap, w, z)
                r = self.call(s, ('obj', 'A'), self.dealloc, ('i', p), ('i', 0 if z else n))
                if not rep.check(r is not None, key, self.dealloc.loc(), w + ' fails'):
                    continue
                rep.count('deallocations')
                nl = [x for j, x in enumerate(live) if j != len(live) - 1 - i]
                # the room of the last one is available again, the rest is not
                self.grow(r[0], base, cap, p if i == 0 and not z and p + n == cur else cur, nl, hist + ['deallocate ' + ('last', 'before')[i]], ops if depth > 1 else [o for o in ops if o[0] == 'a'], max(depth - 1, 1))

    def arrays(self):
        """the allocators over arrays know their size"""
        rep = self.rep
        for cls, ctor, size in [(f.cls, f, None) for f in self.fx.by_cls.get(EXT, []) if f.d.get('ctor') and f.d.get('ta') and f.body is not None]:
            t = ctor.tu.types[ctor.params[0]['t']]
            import re
            m = re.search(r'\[(\d+)\]', t)
            if not m:
                raise AnalysisError('array constructor with ' + t)
            elem = 24 if 'Wide' in t else 1
            want = int(m.group(1)) * elem
            st = State(); base = 8192
            r = self.call(st, ('obj', 'A'), ctor, ('ref', ('obj', 'array')))
            if not rep.check(r is not None, 'array/' + t, ctor.loc(), 'constructing an allocator over an array fails'):
                continue
            # replace the array's address by a number: the position of begin and end
            s = r[0]; found = 0
            for k in list(s.mem.below(('obj', 'A'))):
                n = self.offset(s.mem[k], elem if 'char' not in t else 1)
                if n is not None:
                    s.mem[k] = ('i', base + n); found += 1
            if found != 2:
                raise AnalysisError('begin and end of an allocator over an array: %d found' % found)
            for n in (want - 1, want, want + 1):
                r = self.call(s.fork(), ('obj', 'A'), self.alloc, ('i', n), ('i', 1))
                rep.check(r is not None and r[1] == (('i', base) if n <= want else ZERO), 'array/%s/%d' % (t, n), ctor.loc(), 'an allocator over an array of %d bytes gives %s for %d bytes' % (want, r and r[1], n))
                rep.count('allocations')

    def offset(self, v, elem):
        if v == ('p', ('obj', 'array')) or v == ('p', ('idx', ('obj', 'array'), ('i', 0))) or v == ('ref', ('obj', 'array')):
            return 0
        if v[0] == 'p' and v[1][0] == 'idx' and v[1][1] == ('obj', 'array') and v[1][2][0] == 'i':
            return v[1][2][1]
        if v[0] == 'p' and v[1][0] == 'idx' and v[1][2][0] == 'i':
            b = self.offset(('p', v[1][1]), elem)
            return None if b is None else b + v[1][2][1]
        if v[0] == 'p' and v[1][0] == 'bytes':
            return self.offset(('p', v[1][1]), elem)
        return None

    def heap(self):
        """the heap allocator: every allocation is a new array of the size asked for, given to delete[] once; there is one instance"""
        rep = self.rep; H = 'spvgentwo::HeapAllocator'
        al = self.meth(H, 'allocate'); de = self.meth(H, 'deallocate'); inst = self.meth(H, 'instance')
        st = State(); h = ('obj', 'H')
        st, _ = self.call(st, h, self.ctor(H))
        got = []
        for n in (1, 8, 100):
            st, v = self.call(st, h, al, ('i', n), ('i', 1))
            got.append(v)
            e = [e for e in st.events() if e[0] == 'new'][-1:]; e = e[0] if e else None
            e = (e[1] if len(e) == 2 else e[1:]) if e else None
            rep.check(e is None and v[0] in 'ps' or e is not None and e[1].get('arr') and e[3].replace('unsigned ', '').replace('signed ', '') in ('char', 'std::byte') and st.mem.get(('f', e[2], '#count')) == ('i', n), 'heap/size/%d' % n, al.loc(), 'HeapAllocator::allocate(%d) does not allocate %d bytes' % (n, n))
            rep.count('allocations')
        rep.check(len(set(got)) == 3 and all(v != ZERO for v in got), 'heap/allocate', al.loc(), 'HeapAllocator::allocate does not give new memory each time')
        r = self.call(st, h, de, got[0], ('i', 1))
        rep.check(r is not None, 'heap/deallocate', de.loc(), 'HeapAllocator::deallocate fails')
        if r is not None:
            d = [e[1] if len(e) == 2 else e[1:] for e in r[0].events() if e[0] == 'delete']
            other = [e for e in r[0].events() if e[0] == 'call' and got[0] in (e[1] if len(e) == 2 else e[1:])[2]]
            rep.check(len(d) == 0 and len(other) == 1 or len(d) == 1 and d[0][2] == got[0] and d[0][1].get('arr'), 'heap/delete', de.loc(), 'HeapAllocator::deallocate does not delete the array it is given once')
        a = self.call(State(), None, inst); b = self.call(a[0], None, inst)
        rep.check(a[1] == b[1] and a[1] != ZERO, 'heap/instance', inst.loc(), 'HeapAllocator::instance() is not one object')


# ------------------------------------------------------------------------------------------------ scoped allocations, construct and destruct
class Scoped(Al):
    def run(self):
        rep = self.rep
        alloc = self.meth('spvgentwo::IAllocator', 'allocateScoped'); dt = self.meth(SA, '~ScopedAllocation'); mc = self.ctor(SA, '&&')
        is_set = self.free('allocated')
        for fail in (False, True):
            self.ip.fail = fail
            st = State()
            r = self.call(st, ('obj', 'alloc'), alloc, ('i', 40), ('i', 4))
            key = 'scoped/%s' % ('fails' if fail else 'ok'); loc = alloc.loc()
            if not rep.check(r is not None and r[1][0] == 'o', key, loc, 'allocateScoped fails'):
                continue
            st, (_, a) = r
            q = self.call(st.fork(), None, is_set, ('ref', a))
            rep.check(q[1] == ('i', int(not fail)), key + '/bool', loc, 'a scoped allocation %s' % ('which failed counts as allocated' if fail else 'does not count as allocated'))
            rep.check(self.ip.load(st, ('f', a, 'size')) == ('i', 40), key + '/size', loc, 'the size of a scoped allocation is not the one asked for')
            p = self.ip.load(st, ('f', a, 'ptr'))
            rep.check((p == ZERO) if fail else p[0] == 'p' and p[1][0] == 'new', key + '/ptr', loc, 'ptr of a scoped allocation is not the memory of the allocator')
            for moved in (False, True):
                s = st.fork(); b = a; k = key + ('/moved' if moved else '')
                if moved:
                    b = ('obj', 'B')
                    r = self.call(s, b, mc, ('ref', a))
                    if not rep.check(r is not None, k, mc.loc(), 'moving a scoped allocation fails'):
                        continue
                    s = r[0]
                    q = self.call(s.fork(), None, is_set, ('ref', b)), self.call(s.fork(), None, is_set, ('ref', a))
                    rep.check(q[0][1] == ('i', int(not fail)) and q[1][1] == ZERO, k + '/bool', mc.loc(), 'after moving a scoped allocation source and target count as %s and %s' % (q[1][1], q[0][1]))
                    rep.check(self.ip.load(s, ('f', b, 'ptr')) == p and self.ip.load(s, ('f', b, 'size')) == ('i', 40), k + '/data', mc.loc(), 'a moved scoped allocation has other memory')
                    r = self.call(s, a, dt)
                    rep.check(r is not None and not [e for e in r[0].events() if e[0] == 'free'], k + '/source', dt.loc(), 'a scoped allocation which has been moved from gives the memory back')
                    s = r[0]
                r = self.call(s, b, dt)
                if rep.check(r is not None, k + '/dtor', dt.loc(), 'destroying a scoped allocation fails'):
                    rep.check(len([e for e in r[0].events() if e[0] == 'free']) == (0 if fail else 1), k + '/free', dt.loc(), 'a scoped allocation is not given back exactly once')
                    self.bad(r[0], k + '/state', dt.loc(), 'scoped allocation')
                rep.count('scoped allocations')
            # construct / destruct
            s = State(); f = self.free('constructItem'); loc = 'lib/include/spvgentwo/Allocator.h'
            r = self.call(s, None, f, ALLOC, ('i', 7))
            if rep.check(r is not None, key + '/construct', loc, 'construct fails'):
                s, v = r
                if fail:
                    rep.check(v == ZERO, key + '/construct/null', loc, 'construct gives an object although the allocation failed')
                else:
                    rep.check(v[0] == 'p' and self.ip.alive(s, v[1]) and self.ip.value(s, v[1]) == ('i', 7), key + '/construct/value', loc, 'construct does not construct the object with its arguments')
                    r = self.call(s, None, self.free('destructItem'), ALLOC, v)
                    if rep.check(r is not None and len([e for e in r[0].events() if e[0] == 'free']) == 1, key + '/destruct', loc, 'destruct does not give the memory back once'):
                        s = r[0]
                self.bad(s, key + '/construct/state', loc, 'construct and destruct')
        self.ip.fail = False


# ------------------------------------------------------------------------------------------------ callables
class Calls(Al):
    KINDS = ('empty', 'functor', 'moved functor', 'function', 'made', 'member')

    def __init__(self, fx, rep):
        super().__init__(fx, rep)
        self.file = 'common/include/common/Callable.h'
        self.reset = self.meth(CALL, 'reset', 0); self.dtor = [f for f in fx.by_cls.get(CALL, []) if f.name.startswith('~')][0]
        self.cc = self.ctor(CALL, 'const'); self.mc = self.ctor(CALL, '&&')
        self.ca = self.meth(CALL, 'operator=', 1, lambda f, t: t[0].startswith('const spvgentwo::Callable')); self.ma = self.meth(CALL, 'operator=', 1, lambda f, t: '&&' in t[0] and 'Callable' in t[0])

    def functor(self, st, value, name):
        a = ('obj', name)
        self.ip.born(st, ('f', a, 'item'), ('i', value), {'l': 0})
        return a

    def make(self, st, kind, tag):
        """(state, location, what a call of it calls)"""
        if kind == 'empty':
            l = ('obj', 'call%d' % tag)
            r = self.call(st, l, self.ctor(CALL, 'IAllocator'), ALLOC)
            return (r[0], l, None) if r else None
        if kind == 'member':
            o = ('obj', 'member%d' % tag); st.mem[('f', o, 'tag')] = ('i', 50 + tag)
            r = self.call(st, None, self.free('ofMember'), ALLOC, ('p', o)); calls = ('i', 50 + tag)
        elif kind in ('function', 'made'):
            r = self.call(st, None, self.free('ofFree' if kind == 'function' else 'madeFree'), ALLOC); calls = ('i', 100)
        else:
            f = self.functor(st, tag, 'functor%d' % tag)
            r = self.call(st, None, self.free('ofFunctor' if kind == 'functor' else 'ofMoved'), ALLOC, ('ref', f)); calls = ('i', tag)
        if r is None or r[1][0] not in ('o',):
            return None
        return r[0], r[1][1], calls

    def judge(self, st, l, calls, key, loc, what):
        """the callable is set or not, and calls what it was given with its arguments, giving the result"""
        rep = self.rep; rep.count('callables judged')
        r = self.call(st.fork(), None, self.free('isSet'), ('ref', l))
        rep.check(r is not None and r[1] == ('i', int(calls is not None)), key + '/bool', loc, '%s counts as %s' % (what, 'empty' if calls is not None else 'set'))
        if calls is None or r is None or r[1] == ZERO:
            return st
        n = len([e for e in st.events() if e[0] == 'called'])
        r = self.call(st.fork(), None, self.free('invokeCall'), ('ref', l), ('i', 3), ('i', 4))
        if rep.check(r is not None, key + '/call', loc, 'calling %s dereferences null' % what):
            ev = [e for e in r[0].events() if e[0] == 'called'][n:]
            ev = [e[1] if len(e) == 2 else e[1:] for e in ev]
            rep.check([tuple(e[:3]) for e in ev] == [(calls, ('i', 3), ('i', 4))], key + '/called', loc, 'calling %s calls %s instead of %s' % (what, [tuple(e[:3]) for e in ev], (calls, 3, 4)))
            if len(ev) == 1:
                rep.check(r[1] == ev[0][3], key + '/result', loc, 'calling %s does not give the result' % what)
            self.bad(r[0], key + '/call/state', loc, 'calling ' + what)

    def end(self, st, ls, key, loc, what, own=()):
        """destroying the callables gives every memory back once, and destroys everything they own"""
        rep = self.rep
        for l in ls:
            for f in (self.reset, self.dtor):
                r = self.call(st, l, f)
                if not rep.check(r is not None, key + '/destroy', loc, 'destroying %s fails' % what):
                    return
                st = r[0]
        a = [e for e in st.events() if e[0] == 'alloc']; f = [e for e in st.events() if e[0] == 'free']
        rep.check(len(a) == len(f), key + '/leak', loc, '%s: %d allocations and %d deallocations' % (what, len(a), len(f)))
        self.bad(st, key + '/state', loc, what)

    def run(self):
        rep = self.rep
        for kind in self.KINDS:
            for fail in (False, True):
                self.ip.fail = fail
                st = State(); m = self.make(st, kind, 1); key = 'call/%s/%s' % (kind, fail); what = 'a callable made from %s%s' % (kind, ' when no memory is left' if fail else '')
                if not rep.check(m is not None, key + '/make', self.file, 'making %s fails' % what):
                    continue
                st, l, calls = m
                self.judge(st, l, None if fail else calls, key, self.file, what)
                self.end(st.fork(), [l], key, self.file, what)
                s = self.call(st.fork(), l, self.reset)
                if rep.check(s is not None, key + '/reset', self.reset.loc(), 'reset of %s fails' % what):
                    self.judge(s[0], l, None, key + '/reset', self.reset.loc(), 'a callable which was reset')
                    s2 = self.call(s[0].fork(), None, self.free('assignFunctor'), ('ref', l), ('ref', self.functor(s[0], 9, 'nine')))
            self.ip.fail = False
            st, l, calls = self.make(State(), kind, 1)
            # copies and moves
            for nm, f in (('copy', self.cc), ('move', self.mc)):
                k = 'call/%s/%s' % (kind, nm); t = ('obj', 'target'); what = 'a %s of a callable from %s' % ({'copy': 'copy', 'move': 'moved one'}[nm], kind)
                r = self.call(st.fork(), t, f, ('ref', l))
                if rep.check(r is not None, k, f.loc(), what + ' dereferences null'):
                    self.judge(r[0], t, calls, k + '/target', f.loc(), what)
                    self.judge(r[0], l, calls if nm == 'copy' else None, k + '/source', f.loc(), 'the source of ' + what)
                    self.independent(r[0], t, l, calls, nm, k, f.loc(), what)
            for to in self.KINDS[:2] + self.KINDS[3:4]:
                for nm, f in (('copy', self.ca), ('move', self.ma)):
                    k = 'call/%s/%s to %s' % (kind, nm, to); what = 'a callable from %s to which one from %s was %s' % (to, kind, 'copied' if nm == 'copy' else 'moved')
                    s, t, tc = self.make(st.fork(), to, 2)
                    r = self.call(s, t, f, ('ref', l))
                    if rep.check(r is not None, k, f.loc(), what + ': null is dereferenced'):
                        rep.check(r[1][0] in ('ref', 'o', 'p') and r[1][1] == t, k + '/self', f.loc(), 'the assignment does not give the callable')
                        self.judge(r[0], t, calls, k + '/target', f.loc(), what)
                        self.judge(r[0], l, calls if nm == 'copy' else None, k + '/source', f.loc(), 'the source of ' + what)
                        self.independent(r[0], t, l, calls, nm, k, f.loc(), what)
            for nm, f in (('copied', self.ca), ('moved', self.ma)):
                k = 'call/%s/%s to itself' % (kind, nm); what = 'a callable from %s %s to itself' % (kind, nm)
                r = self.call(st.fork(), l, f, ('ref', l))
                if rep.check(r is not None, k, f.loc(), what + ': null is dereferenced'):
                    self.judge(r[0], l, calls, k, f.loc(), what); self.end(r[0], [l], k, f.loc(), what)
            for nm in ('assignFunctor', 'assignMoved'):
                k = 'call/%s/%s' % (kind, nm); s = st.fork(); a = self.functor(s, 9, 'nine'); what = 'a callable from %s to which a functor was assigned' % kind
                r = self.call(s, None, self.free(nm), ('ref', l), ('ref', a))
                if rep.check(r is not None, k, self.file, what + ': null is dereferenced'):
                    self.judge(r[0], l, ('i', 9), k, self.file, what)
                    v = self.ip.value(r[0], ('f', a, 'item'))
                    rep.check(v == (MOVED if nm == 'assignMoved' else ('i', 9)), k + '/source', self.file, 'assigning a functor %s its source' % ('does not move' if nm == 'assignMoved' else 'changes'))
                    self.end(r[0], [l], k, self.file, what)

    def independent(self, st, t, l, calls, nm, key, loc, what):
        """destroying one leaves the other as it is"""
        self.end(st.fork(), [t, l], key, loc, what); self.end(st.fork(), [l, t], key + '/back', loc, what)
        r = self.call(st.fork(), l, self.reset)
        if r is not None:
            self.judge(r[0], t, calls, key + '/after source', loc, what + ' (source reset)')
        r = self.call(st.fork(), t, self.reset)
        if r is not None and nm == 'copy':
            self.judge(r[0], l, calls, key + '/after target', loc, 'the source of %s (target reset)' % what)


def check(fx, rep):
    rep.rule('Every allocation from external memory or a stack allocator is null or aligned, inside the memory and apart from all live ones; it is null exactly if it does not fit behind the last one, a failed one changes nothing, and giving the last one back makes its room available again.')
    rep.rule('A scoped allocation gives its memory back exactly once, with its size, by its last owner; construct gives a constructed object or null, destruct destroys it and gives it back with its size.')
    rep.rule('A callable calls exactly the functor, function or member function it was given last, with the arguments in order and giving its result; copies own their own functor, moved-from and reset ones are empty, assignments work from and to empty ones and itself, and all memory is given back once with the size it was allocated with.')
    parts = [lambda r, i=i: Memory(fx, r).histories(i, 5) for i in range(5)]
    parts += [lambda r: (Memory(fx, r).arrays(), Memory(fx, r).heap()), lambda r: Scoped(fx, r).run(), lambda r: Calls(fx, r).run()]
    parallel(rep, parts)
    for what, least in (('allocations', 10000), ('deallocations', 1000), ('scoped allocations', 4), ('callables judged', 100)):
        rep.need(what, rep.counts.get(what, 0), least)
    rep.sample('external memory: %d allocations and %d deallocations in histories of up to three operations' % (rep.counts.get('allocations', 0), rep.counts.get('deallocations', 0)))
    rep.sample('callables from: ' + ', '.join(Calls.KINDS))

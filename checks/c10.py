"""C10: the containers keep their shape, their order and the life of their elements.

Every operation of List/Entry, Vector, String and HashMap is interpreted over canonical heap shapes (0 to 3 elements; every position; with and
without spare capacity; colliding and equal hashes). The element type only has declared special members: the interpreter keeps the typestate of
every storage location (raw / alive / moved from) and reports construction over a live element, destruction or assignment of raw storage, storage
given back with live elements in it, or given back with another size than it was allocated with. The containers branch on elements only through
their comparison operators, so shapes of this size with distinct elements stand for all elements."""
from itertools import product
from sa import shape
from sa.absint import Interp, State, ZERO, VOID
from sa.facts import AnalysisError, Undetermined

NS = 'spvgentwo::'
LIST = NS + 'List<Item>'
ENTRY = NS + 'Entry<Item>'
VEC = NS + 'Vector<Item>'
CVEC = NS + 'Vector<char>'
STR = NS + 'String'
ALLOC = ('p', ('obj', 'alloc'))
MOVED = ('s', 'moved-from')


class CInterp(Interp):
    max_depth = 60
    max_recursion = 8
    distinct_objs = True

    def __init__(self, fx):
        super().__init__(fx)
        self.budget = 4000000
        self.fail = False      # allocations fail

    def inline(self, fn, fr):
        return True

    def plain_class(self, n):
        return (n or '').split('::')[-1]

    def alive(self, st, loc):
        return ('f', loc, '#life') in st.mem

    def born(self, st, loc, val, n, why=''):
        if self.alive(st, loc):
            st.emit('bad', 'constructs an element on top of a live one', n.get('l', 0))
        st.mem[('f', loc, '#life')] = ('i', 1)
        st.mem[('f', loc, 'value')] = val

    def value(self, st, loc):
        return self.load(st, ('f', loc, 'value'))

    def die(self, st, loc, n):
        if not self.alive(st, loc):
            st.emit('bad', 'destroys an element that is not alive', n.get('l', 0))
        st.mem.pop(('f', loc, '#life'), None); st.mem.pop(('f', loc, 'value'), None)

    def items(self, cls, loc):
        """locations of the elements directly inside an object of this class"""
        if cls == 'Item':
            return [loc]
        r = self.fx.records.get(cls)
        out = []
        if r:
            tys = self.fx.tus[r['_tu']].types if isinstance(r['_tu'], int) else r['_tu'].types
            for f in r['fields']:
                t = tys[f['t']]
                if t == 'Item' or t in self.fx.records:
                    out += self.items(t, ('f', loc, f['n']))
        return out

    def src(self, st, a):
        """location of the element an argument denotes"""
        return a[1]

    def model(self, st, fr, n, fn, obj, args):
        nm = n.get('n') or ''; c = n.get('c') or ''
        if n['k'] == 'ctor':
            if nm.split('::')[-1] == 'Item':
                loc = obj[1]
                if not args:
                    self.born(st, loc, ('i', 0), n)
                elif args[0][0] in ('ref', 'o') and not (args[0][0] == 'ref' and fn is not None and 'unsigned' in fn.tu.types[fn.params[0]['t']]):
                    s = self.src(st, args[0])
                    if not self.alive(st, s):
                        st.emit('bad', 'constructs an element from storage that holds none', n.get('l', 0))
                    v = self.value(st, s)
                    self.born(st, loc, v, n)
                    if n.get('mc'):
                        st.mem[('f', s, 'value')] = MOVED
                else:
                    self.born(st, loc, args[0], n)
                return [(st, ('o', loc))]
            return None
        if nm.startswith('~'):
            if obj is None or obj[0] != 'p':
                return None
            if nm == '~Item':
                self.die(st, obj[1], n)
                return [(st, VOID)]
            if fn is not None and fn.body is not None and not fn.d.get('dflt') and not fn.d.get('impl'):
                return self.invoke(st, fr, fn, obj, args, n)
            for l in self.items(c, obj[1]):
                self.die(st, l, n)
            return [(st, VOID)]
        if c == 'Item' or nm in ('operator==', 'operator!=', 'operator=') and obj is not None and fn is not None and fn.cls == 'Item':
            a = obj[1]; b = self.src(st, args[0])
            if nm == 'operator=':
                if not self.alive(st, a):
                    st.emit('bad', 'assigns to storage that holds no element', n.get('l', 0))
                if not self.alive(st, b):
                    st.emit('bad', 'assigns from storage that holds no element', n.get('l', 0))
                v = self.value(st, b)
                if (n.get('f') or '').startswith('_ZN4ItemaSEO') and a != b:
                    st.mem[('f', b, 'value')] = MOVED
                st.mem[('f', a, 'value')] = v
                return [(st, obj)]
            if nm in ('operator==', 'operator!='):
                for x in (a, b):
                    if not self.alive(st, x):
                        st.emit('bad', 'compares storage that holds no element', n.get('l', 0))
                eq = self.value(st, a) == self.value(st, b)
                return [(st, ('i', int(eq == (nm == 'operator=='))))]
        if nm == 'inst_pred':
            return [(st, ('i', int(self.value(st, self.src(st, args[0])) == ('i', 2))))]
        if n['k'] == 'icall' and not args:
            return [(st, VOID)]      # destructor of a type that has none
        if n['k'] == 'icall' and obj == ZERO:
            st.emit('bad', 'calls a hash function that is not there', n.get('l', 0))
            return []
        if nm == 'inst_hash' or n['k'] == 'icall':
            a = args[0]
            if a[0] in ('ref', 'o'):
                v = self.load(st, ('f', a[1], 'value')) if ('f', a[1], 'value') in st.mem else self.load(st, a[1])
                if ('f', a[1], 'value') in st.mem:   # a hash as key: hashing it gives another hash
                    v = ('i', v[1] + 1)
            else:
                v = a
            l = ('tmp', st.fresh()); st.mem[('f', l, 'value')] = v
            return [(st, ('o', l))]
        if nm == 'allocate' and c.endswith('Allocator'):
            if obj is None or obj[0] != 'p':
                st.emit('bad', 'allocates from a null allocator', n.get('l', 0))
                return []
            if self.fail:
                return [(st, ZERO)]
            l = ('new', 'heap%d' % st.fresh())
            st.mem[('f', l, '#size')] = args[0]
            st.emit('alloc', l, args[0])
            return [(st, ('p', l))]
        if nm == 'deallocate' and c.endswith('Allocator'):
            p = args[0]
            if p[0] != 'p':
                if p != ZERO:
                    st.emit('bad', 'deallocates something that is not a known allocation', n.get('l', 0))
                return [(st, VOID)]
            l = p[1]
            size = st.mem.get(('f', l, '#size'))
            if size is None:
                st.emit('bad', 'deallocates storage twice, or storage it did not allocate', n.get('l', 0))
            else:
                if size != args[1] and args[1] != ZERO:
                    st.emit('bad', 'gives storage back with another size (%s) than it was allocated with (%s)' % (args[1][1:], size[1:]), n.get('l', 0))
                for k in list(st.mem.below(l)):
                    if k[0] == 'f' and k[2] == '#life':
                        st.emit('bad', 'gives storage back with a live element in it', n.get('l', 0))
                self.clear_obj(st, l)
                st.mem[('f', l, '#freed')] = ('i', 1)
                st.emit('free', l)
            return [(st, VOID)]
        return None

    def on_deref(self, st, fr, v, n):
        if v[0] == 'p' and ('f', v[1], '#freed') in st.mem:
            st.emit('bad', 'uses storage after giving it back', n.get('l', 0) if n else 0)


class C:
    def __init__(self, fx, rep):
        self.fx = fx; self.rep = rep; self.ip = CInterp(fx)
        self.size = {}
        self.n = 0
        self.done = set()

    # ---- anchors
    def m(self, cls, name, pred=None, many=False):
        fs = [f for f in self.fx.by_cls.get(cls, ()) if f.name == name and f.body is not None and (pred is None or pred(f))]
        if not fs:
            raise AnalysisError('%s::%s not found' % (cls, name))
        for f in fs:
            self.done.add(f.id)
        return fs if many else fs[0]

    def ctor(self, cls, pred):
        fs = [f for f in self.fx.by_cls.get(cls, ()) if f.d.get('ctor') and pred(f, [f.tu.types[p['t']] for p in f.params])]
        if not fs:
            raise AnalysisError('constructor of %s not found' % cls)
        self.done.add(fs[0].id)
        return fs[0]

    # ---- running
    def go(self, fn, this, args, st, key, paths=1):
        self.ip.steps = 0
        r = self.ip.run(fn, this=this, args=args, st=st)
        if not r:
            ev = [e for e in st.events()]
            self.rep.bad('%s:%s' % (fn.q, key), fn.loc(), 'no path of %s returns for %s' % (fn.name, key))
            return None
        if len(r) != 1:
            raise Undetermined('%s (%s) has %d paths' % (fn.q, key, len(r)))
        s, v = r[0]
        bad = [e for e in s.events() if e[0] == 'bad']
        null = [e for e in s.events() if e[0] == 'nullderef']
        self.rep.check(not bad, '%s:%s' % (fn.q, key), fn.loc(), '%s, %s: %s' % (fn.q, key, '; '.join('%s (line %s)' % (b[1], b[2]) for b in bad[:2])))
        self.rep.count('operations interpreted')
        return s, v

    def say(self, cond, fn, key, msg):
        return self.rep.check(cond, '%s:%s' % (fn.q, key), fn.loc(), '%s, %s: %s' % (fn.q, key, msg))

    # ---- elements
    def item(self, st, loc, v):
        st.mem[('f', loc, '#life')] = ('i', 1); st.mem[('f', loc, 'value')] = ('i', v)

    def ext(self, st, name, v):
        l = ('obj', name); self.item(st, l, v)
        return l

    # ---- lists
    def mklist(self, st, name, vals, alloc=ALLOC):
        L = ('obj', name)
        for l, v in zip(shape.mklist(st, L, ['%s%d' % (name, i) for i in range(len(vals))]), vals):
            self.item(st, l, v)
            st.mem[('f', l[1], '#size')] = ('i', self.esize)
        st.mem[('f', L, 'm_pAllocator')] = alloc
        return L

    def nodes(self, st, L, elem=None):
        """entries by walking forward; (entries, problem)"""
        ld = self.ip.load
        out = []
        p = ld(st, ('f', L, 'm_pBegin')); prev = ZERO
        while p != ZERO:
            if p[0] != 'p':
                return out, 'an entry is linked that the list does not own'
            if len(out) > 12:
                return out, 'the chain of entries does not end'
            if ('f', p[1], '#freed') in st.mem:
                return out, 'a destroyed entry is still linked'
            if ld(st, ('f', p[1], 'm_pPrev')) != prev:
                return out, 'the backward link of entry %d is wrong' % len(out)
            out.append(p[1])
            prev = p
            p = ld(st, ('f', p[1], 'm_pNext'))
        if ld(st, ('f', L, 'm_pLast')) != prev:
            return out, 'the last entry is not the one at the end of the chain'
        n = ld(st, ('f', L, 'm_Elements'))
        if n != ('i', len(out)):
            return out, 'the number of elements is %s for %d entries' % (n[1], len(out))
        return out, None

    def contents(self, st, L):
        ns, bad = self.nodes(st, L)
        if bad:
            return None, bad
        out = []
        for x in ns:
            l = ('f', x, 'm_data')
            if not self.ip.alive(st, l):
                return None, 'an entry holds no live element'
            v = self.ip.value(st, l)
            out.append(v[1] if v[0] == 'i' else v)
        return out, None

    def want(self, st, L, vals, fn, key, what='the list'):
        got, bad = self.contents(st, L)
        return self.say(bad is None and got == list(vals), fn, key, '%s: %s' % (what, bad or 'holds %s, expected %s' % (got, list(vals))))

    def entry_of(self, v):
        return v[1] if v[0] == 'p' else None

    def freed(self, s):
        return [e[1] for e in s.events() if e[0] == 'free']

    def lists(self):
        m = self.m; P = lambda n: (lambda f: len(f.params) == n)
        N = range(4)
        node = lambda nm, i: ('new', 'n:%s%d' % (nm, i))
        # size of an entry, as the list's own code asks for
        self.esize = 0
        st = State(); L = self.mklist(st, 'L', []); e = self.ext(st, 'x', 9)
        f = m(LIST, 'emplace_back_entry')
        s, v = self.go(f, ('p', L), [('ref', e)], st, 'first element')
        self.esize = [e for e in s.events() if e[0] == 'alloc'][0][2][1]

        def each(names, what):
            return [f for nm in names for f in m(LIST, nm, many=True)]
        for f in each(['emplace_back_entry', 'emplace_back', 'emplace_front_entry', 'emplace_front'], ''):
            for n in N:
                st = State(); L = self.mklist(st, 'L', range(n)); e = self.ext(st, 'x', 9)
                r = self.go(f, ('p', L), [('ref', e)], st, '%d elements' % n)
                if r is None:
                    continue
                back = 'back' in f.name
                self.want(r[0], L, list(range(n)) + [9] if back else [9] + list(range(n)), f, '%d elements' % n)
                ns, _ = self.nodes(r[0], L)
                x = (ns[-1] if back else ns[0]) if ns else None
                if not f.name.endswith('entry'):
                    x = ('f', x, 'm_data')
                self.say(r[1][0] in ('p', 'ref', 'o') and r[1][1] == x, f, 'result', 'does not return the new element')
        for f in each(['prepend_entry', 'append_entry'], ''):
            for n in N:
                st = State(); L = self.mklist(st, 'L', range(n)); E = ('obj', 'E')
                self.item(st, ('f', E, 'm_data'), 9); st.mem[('f', E, 'm_pPrev')] = ZERO; st.mem[('f', E, 'm_pNext')] = ZERO
                r = self.go(f, ('p', L), [('p', E)], st, '%d elements' % n)
                if r is None:
                    continue
                self.want(r[0], L, list(range(n)) + [9] if 'append' in f.name else [9] + list(range(n)), f, '%d elements' % n)
                self.say(r[1] == ('p', E), f, 'result', 'does not return the entry')
        for f in each(['insert_before', 'insert_after'], ''):
            for n in (1, 2, 3):
                for i in range(n):
                    st = State(); L = self.mklist(st, 'L', range(n)); e = self.ext(st, 'x', 9)
                    it = self.iter(st, node('L', i))
                    r = self.go(f, ('p', L), [it, ('ref', e)], st, 'position %d of %d' % (i, n))
                    if r is None:
                        continue
                    w = list(range(n)); w.insert(i if 'before' in f.name else i + 1, 9)
                    self.want(r[0], L, w, f, 'position %d of %d' % (i, n))
                    self.say(r[1][0] == 'p' and self.ip.value(r[0], ('f', r[1][1], 'm_data')) == ('i', 9), f, 'result', 'does not return the new entry')
        f = m(LIST, 'erase')
        for n in (1, 2, 3):
            for i in range(n):
                for d in (1, 0):
                    key = 'position %d of %d%s' % (i, n, '' if d else ', element kept')
                    st = State(); L = self.mklist(st, 'L', range(n))
                    r = self.go(f, ('p', L), [self.iter(st, node('L', i)), ('i', d)], st, key)
                    if r is None:
                        continue
                    self.want(r[0], L, [x for x in range(n) if x != i], f, key)
                    self.say(r[1] == (('p', node('L', i + 1)) if i + 1 < n else ZERO), f, 'result', 'does not return the entry behind the erased one')
                    alive = self.ip.alive(r[0], ('f', node('L', i), 'm_data'))
                    self.say(alive == (not d) and bool(self.freed(r[0])) == bool(d), f, key + ' life', 'the erased element is %s' % ('still alive' if d else 'destroyed'))
        for nm in ('pop_back', 'pop_front'):
            f = m(LIST, nm)
            for n in (1, 2, 3):
                st = State(); L = self.mklist(st, 'L', range(n))
                r = self.go(f, ('p', L), [], st, '%d elements' % n)
                if r is None:
                    continue
                self.want(r[0], L, list(range(n))[:-1] if 'back' in nm else list(range(n))[1:], f, '%d elements' % n)
                x = n - 1 if 'back' in nm else 0
                self.say(r[1][0] == 'o' and self.ip.value(r[0], r[1][1]) == ('i', x), f, 'result', 'does not return the removed element')
                self.say(self.freed(r[0]) == [node('L', x)], f, 'life', 'the removed entry is not given back')
        # whole lists
        for n in N:
            for f, key in ((m(LIST, 'clear'), 'clear'), (m(LIST, '~List'), 'destructor')):
                st = State(); L = self.mklist(st, 'L', range(n))
                r = self.go(f, ('p', L), [], st, '%d elements' % n)
                if r is None:
                    continue
                self.want(r[0], L, [], f, '%d elements' % n)
                self.say(len(self.freed(r[0])) == n, f, '%d elements life' % n, '%d of %d entries given back' % (len(self.freed(r[0])), n))
            cc = self.ctor(LIST, lambda f, t: f.d.get('cc')); mc = self.ctor(LIST, lambda f, t: f.d.get('mc'))
            st = State(); L = self.mklist(st, 'L', range(n)); T = ('obj', 'T')
            self.zero(st, T)
            r = self.go(cc, ('p', T), [('ref', L)], st, '%d elements' % n)
            if r:
                self.want(r[0], T, range(n), cc, '%d elements' % n, 'the copy')
                self.want(r[0], L, range(n), cc, '%d elements' % n, 'the original')
                self.say(not set(self.nodes(r[0], T)[0]) & set(self.nodes(r[0], L)[0]), cc, 'sharing', 'the copy shares entries with the original')
            st = State(); L = self.mklist(st, 'L', range(n)); T = ('obj', 'T'); self.zero(st, T)
            r = self.go(mc, ('p', T), [('ref', L)], st, '%d elements' % n)
            if r:
                self.want(r[0], T, range(n), mc, '%d elements' % n, 'the new list')
                self.want(r[0], L, [], mc, '%d elements' % n, 'the list moved from')
                self.say(self.ip.load(r[0], ('f', T, 'm_pAllocator')) == ALLOC, mc, 'allocator', 'the allocator is not taken over')
            ca = m(LIST, 'operator=', lambda f: f.d.get('ca')); ma = m(LIST, 'operator=', lambda f: f.d.get('ma'))
            for k in N:
                key = '%d elements to a list of %d' % (n, k)
                st = State(); L = self.mklist(st, 'L', range(n)); T = self.mklist(st, 'T', range(10, 10 + k))
                r = self.go(ca, ('p', T), [('ref', L)], st, key)
                if r:
                    self.want(r[0], T, range(n), ca, key, 'the copy'); self.want(r[0], L, range(n), ca, key, 'the original')
                    self.say(len(self.freed(r[0])) - len([e for e in r[0].events() if e[0] == 'alloc']) == k - n, ca, key + ' life', 'entries are lost')
                    self.say(not set(self.nodes(r[0], T)[0]) & set(self.nodes(r[0], L)[0]), ca, 'sharing', 'the copy shares entries with the original')
                st = State(); L = self.mklist(st, 'L', range(n)); T = self.mklist(st, 'T', range(10, 10 + k))
                r = self.go(ma, ('p', T), [('ref', L)], st, key)
                if r:
                    self.want(r[0], T, range(n), ma, key, 'the list assigned to'); self.want(r[0], L, [], ma, key, 'the list moved from')
                    self.say(len(self.freed(r[0])) == k, ma, key + ' life', '%d of %d old entries given back' % (len(self.freed(r[0])), k))
                    self.say(self.ip.load(r[0], ('f', T, 'm_pAllocator')) == ALLOC, ma, 'allocator', 'the allocator is not taken over')
            for f in (ca, ma):
                st = State(); L = self.mklist(st, 'L', range(n))
                r = self.go(f, ('p', L), [('ref', L)], st, 'to itself, %d elements' % n)
                if r:
                    self.want(r[0], L, range(n), f, 'to itself, %d elements' % n)
            # comparison
            for nm in ('operator==', 'operator!='):
                f = m(LIST, nm)
                for k in N:
                    for dif in [None] + list(range(min(n, k))):
                        a = list(range(n)); b = list(range(k))
                        if dif is not None:
                            b[dif] = 77
                        st = State(); A = self.mklist(st, 'L', a); B = self.mklist(st, 'T', b)
                        r = self.go(f, ('p', A), [('ref', B)], st, '%s and %s' % (a, b))
                        if r:
                            self.say(r[1] == ('i', int((a == b) == (nm == 'operator=='))), f, '%s and %s' % (a, b), 'wrong answer')
            # queries
            st = State(); L = self.mklist(st, 'L', range(n))
            for nm, w in (('size', ('i', n)), ('empty', ('i', int(n == 0)))):
                f = m(LIST, nm)
                r = self.go(f, ('p', L), [], st.fork(), '%d elements' % n)
                if r:
                    self.say(r[1] == w, f, '%d elements' % n, 'wrong answer')
            for nm, w in (('begin', 0), ('end', n), ('last', n - 1), ('front', 0), ('back', n - 1), ('lastEntry', n - 1)):
                f = m(LIST, nm)
                if n == 0 and nm in ('front', 'back'):
                    continue
                r = self.go(f, ('p', L), [], st.fork(), '%d elements' % n)
                if not r:
                    continue
                exp = ('p', node('L', w)) if 0 <= w < n else ZERO
                if nm in ('front', 'back'):
                    ok = r[1][1] == ('f', exp[1], 'm_data')
                elif nm == 'lastEntry':
                    ok = r[1] == exp
                else:
                    ok = self.iter_at(r[0], r[1]) == exp
                self.say(ok, f, '%d elements' % n, 'wrong element')
            for nm in ('find', 'find_if', 'contains'):
                f = m(LIST, nm)
                for x in range(n + 1) if nm != 'find_if' else [2]:
                    s2 = st.fork(); e = self.ext(s2, 'x', x)
                    arg = ('ref', e)
                    if nm == 'find_if':
                        arg = self.pred()
                    r = self.go(f, ('p', L), [arg], s2, 'element %d of %d' % (x, n))
                    if not r:
                        continue
                    exp = ('p', node('L', x)) if x < n else ZERO
                    ok = (r[1] == ('i', int(x < n))) if nm == 'contains' else self.iter_at(r[0], r[1]) == exp
                    self.say(ok, f, 'element %d of %d' % (x, n), 'wrong answer')
                if nm == 'find' and n == 3:   # the first of several
                    st2 = State(); L2 = self.mklist(st2, 'L', [5, 6, 6]); e = self.ext(st2, 'x', 6)
                    r = self.go(f, ('p', L2), [('ref', e)], st2, 'two equal elements')
                    if r:
                        self.say(self.iter_at(r[0], r[1]) == ('p', node('L', 1)), f, 'two equal elements', 'not the first one')
        # algorithms over the elements
        for nm in ('any', 'all'):
            fs = [f for f in self.fx.q('spvgentwo::algo::' + nm) if f.body is not None and 'Item' in f.tu.types[f.params[0]['t']]]
            self.rep.need('algorithm ' + nm, len(fs), 1)
            for vals in ([], [2], [1], [1, 2], [2, 1], [2, 2], [1, 1], [2, 2, 1], [1, 1, 2], [2, 2, 2], [1, 1, 1]):
                st = State(); L = self.mklist(st, 'L', vals)
                r = self.go(fs[0], None, [('ref', L), self.pred()], st, 'elements %s' % (vals,))
                if r:
                    self.say(r[1] == ('i', int({'any': any, 'all': all}[nm](v == 2 for v in vals))), fs[0], 'elements %s' % (vals,), 'wrong answer'); self.want(r[0], L, vals, fs[0], 'elements %s' % (vals,))
        # construction from elements
        vc = [f for f in self.fx.by_cls[LIST] if f.d.get('ctor') and len(f.params) >= 2]
        self.rep.need('List constructors from elements', len(vc), 2)
        for f in vc:
            st = State(); T = ('obj', 'T'); self.zero(st, T)
            k = len(f.params) - 1
            r = self.go(f, ('p', T), [ALLOC] + [('ref', self.ext(st, 'x%d' % i, i)) for i in range(k)], st, '%d elements' % k)
            if r:
                self.want(r[0], T, range(k), f, '%d elements' % k)
        # iterator steps
        IT = NS + 'EntryIterator<Item>'
        for nm, step in (('operator++', 1), ('operator--', -1), ('next', 1), ('prev', -1), ('operator+', None), ('operator-', None)):
            for f in m(IT, nm, many=True):
                for n in (1, 2, 3):
                    for i in range(n):
                        for d in (range(n + 2) if step is None else [1]):
                            st = State(); self.mklist(st, 'L', range(n))
                            it = self.iter(st, node('L', i))[1]
                            post = nm in ('operator++', 'operator--') and len(f.params) == 1
                            r = self.go(f, ('p', it), [('i', d)] if f.params else [], st, '%d from %d of %d' % (d, i, n))
                            if not r:
                                continue
                            t = i + (step if step else d if nm == 'operator+' else -d)
                            exp = ('p', node('L', t)) if 0 <= t < n else ZERO
                            here = ('p', node('L', i))
                            res = self.iter_at(r[0], r[1]); self_ = self.iter_at(r[0], ('o', it))
                            if nm in ('operator++', 'operator--'):
                                ok = self_ == exp and res == (here if post else exp)
                            else:
                                ok = res == exp and self_ == here
                            self.say(ok, f, '%d from %d of %d' % (d, i, n), 'wrong position')
        # the chain operations of an entry itself
        for nm in ('append', 'prepend', 'emplace_back', 'emplace_front', 'insertBefore', 'insertAfter'):
            for f in m(ENTRY, nm, many=True):
                for n in (1, 2, 3):
                    for i in range(n):
                        st = State(); L = self.mklist(st, 'L', range(n)); E = ('obj', 'E'); e = self.ext(st, 'x', 9)
                        self.item(st, ('f', E, 'm_data'), 9); st.mem[('f', E, 'm_pPrev')] = ZERO; st.mem[('f', E, 'm_pNext')] = ZERO
                        args = [('p', E)] if nm in ('append', 'prepend') else [ALLOC, ('ref', e)]
                        key = 'entry %d of %d' % (i, n)
                        r = self.go(f, ('p', node('L', i)), args, st, key)
                        if not r:
                            continue
                        w = list(range(n))
                        w.insert({'insertBefore': i, 'insertAfter': i + 1, 'append': n, 'emplace_back': n}.get(nm, 0), 9)
                        got, bad = self.chain(r[0], r[1])
                        self.say(bad is None and got == w, f, key, bad or 'the chain holds %s, expected %s' % (got, w))
                        self.say(r[1][0] == 'p' and self.ip.value(r[0], ('f', r[1][1], 'm_data')) == ('i', 9), f, 'result', 'does not return the new entry')
        for nm in ('first', 'last'):
            for f in m(ENTRY, nm, many=True):
                for n in (1, 2, 3):
                    for i in range(n):
                        st = State(); self.mklist(st, 'L', range(n))
                        r = self.go(f, ('p', node('L', i)), [], st, 'entry %d of %d' % (i, n))
                        if r:
                            self.say(r[1] == ('p', node('L', 0 if nm == 'first' else n - 1)), f, 'entry %d of %d' % (i, n), 'wrong entry')
        f = m(ENTRY, 'remove')
        for n in (1, 2, 3):
            for i in range(n):
                for al in (ALLOC, ZERO):
                    st = State(); L = self.mklist(st, 'L', range(n)); key = 'entry %d of %d%s' % (i, n, '' if al != ZERO else ', kept')
                    r = self.go(f, ('p', node('L', i)), [al], st, key)
                    if r and n > 1:
                        got, bad = self.chain(r[0], ('p', node('L', 0 if i else 1)))
                        self.say(bad is None and got == [x for x in range(n) if x != i], f, key, bad or 'the chain holds %s' % (got,))
                    if r:
                        self.say(r[1] == (('p', node('L', i + 1)) if i + 1 < n else ZERO), f, key + ' result', 'does not return the next entry')
                        self.say(bool(self.freed(r[0])) == (al != ZERO), f, key + ' life', 'wrong entry given back')
        f = m(ENTRY, 'destroyList')
        for n in (1, 2, 3):
            for i in range(n):
                st = State(); L = self.mklist(st, 'L', range(n))
                r = self.go(f, ('p', node('L', i)), [ALLOC], st, 'from entry %d of %d' % (i, n))
                if r:
                    self.say(self.freed(r[0]) == [node('L', x) for x in range(i, n)], f, 'from entry %d of %d' % (i, n), 'wrong entries given back')
        f = m(ENTRY, 'operator=', lambda f: f.d.get('ma'))
        for i in range(3):
            for k in range(3):
                st = State(); L = self.mklist(st, 'L', range(3))
                r = self.go(f, ('p', node('L', i)), [('ref', node('L', k))], st, 'entry %d from %d' % (i, k))
                if r:
                    w = list(range(3)); w[i] = k
                    if i != k:
                        w[k] = MOVED
                    self.want(r[0], L, w, f, 'entry %d from %d' % (i, k))
        f = m(LIST, 'setAllocator')
        for a, w in ((ZERO, ('p', ('obj', 'other'))), (ALLOC, ALLOC)):
            st = State(); L = self.mklist(st, 'L', [], alloc=a)
            r = self.go(f, ('p', L), [('p', ('obj', 'other'))], st, 'allocator %s' % ('set' if a != ZERO else 'not set'))
            if r:
                self.say(self.ip.load(r[0], ('f', L, 'm_pAllocator')) == w, f, 'allocator', 'wrong allocator')
        # allocation failure of an insertion leaves the chain alone
        self.ip.fail = True
        for nm in ('insertBefore', 'insertAfter'):
            f = m(ENTRY, nm)
            st = State(); L = self.mklist(st, 'L', range(3)); e = self.ext(st, 'x', 9)
            r = self.go(f, ('p', node('L', 1)), [ALLOC, ('ref', e)], st, 'allocation fails')
            if r:
                self.want(r[0], L, range(3), f, 'allocation fails')
                self.say(r[1] == ZERO, f, 'allocation fails', 'does not return null')
        self.ip.fail = False

    def chain(self, st, v):
        """values of the chain an entry is part of"""
        if v[0] != 'p':
            return None, 'no entry is returned'
        ld = self.ip.load; p = v; k = 0
        while ld(st, ('f', p[1], 'm_pPrev')) != ZERO:
            p = ld(st, ('f', p[1], 'm_pPrev')); k += 1
            if k > 12 or p[0] != 'p':
                return None, 'the chain does not end'
        out = []; prev = ZERO
        while p != ZERO:
            if len(out) > 12 or p[0] != 'p':
                return None, 'the chain does not end'
            if ld(st, ('f', p[1], 'm_pPrev')) != prev:
                return None, 'the backward link of entry %d is wrong' % len(out)
            out.append(self.ip.value(st, ('f', p[1], 'm_data'))[1]); prev = p
            p = ld(st, ('f', p[1], 'm_pNext'))
        return out, None

    def zero(self, st, T):
        """storage of a container about to be constructed: nothing known about it"""
        self.ip.clear_obj(st, T)

    def iter(self, st, entry):
        l = ('obj', 'it%d' % st.fresh())
        st.mem[('f', l, 'm_pEntry')] = ('p', entry) if entry is not None else ZERO
        return ('o', l)

    def iter_at(self, st, v):
        if v[0] in ('o', 'ref', 'p'):
            return self.ip.load(st, ('f', v[1], 'm_pEntry'))
        return None

    def pred(self):
        """the predicate lambda of inst_list"""
        for f in self.fx.fns.values():
            if f.name == 'operator()' and 'inst.cpp' in f.file and f.params and 'Item' in f.tu.types[f.params[0]['t']]:
                from sa.absint import Closure, Frame
                return ('lam', Closure(Frame(f, None, 0), {}, [f.id]))
        raise AnalysisError('predicate lambda not found')

    # ---- vectors
    def at(self, base, i):
        return base if i == 0 else ('idx', base, ('i', i))

    def mkvec(self, st, name, vals, spare=0, chars=False, alloc=ALLOC):
        V = ('obj', name); D = ('new', 'd:' + name)
        cap = len(vals) + spare
        st.mem[('f', V, 'm_pAllocator')] = alloc
        st.mem[('f', V, 'm_pData')] = ('p', D) if cap else ZERO
        st.mem[('f', V, 'm_elements')] = ('i', len(vals)); st.mem[('f', V, 'm_capacity')] = ('i', cap)
        if cap:
            st.mem[('f', D, '#size')] = ('i', cap * (1 if chars else self.isize))
        for i, v in enumerate(vals):
            if chars:
                st.mem[self.at(D, i)] = ('i', v)
            else:
                self.item(st, self.at(D, i), v)
        return V

    def vcontents(self, st, V, chars=False):
        ld = self.ip.load
        n = ld(st, ('f', V, 'm_elements')); cap = ld(st, ('f', V, 'm_capacity')); p = ld(st, ('f', V, 'm_pData'))
        if n[0] != 'i' or cap[0] != 'i':
            return None, 'size or capacity are not determined'
        if n[1] > cap[1]:
            return None, 'more elements (%d) than capacity (%d)' % (n[1], cap[1])
        if p[0] != 'p':
            return ([], None) if p == ZERO and cap == ZERO else (None, 'no storage with a capacity of %d' % cap[1])
        sz = st.mem.get(('f', p[1], '#size'))
        if sz is None:
            return None, 'the storage is not allocated (any more)'
        if sz != ('i', cap[1] * (1 if chars else self.isize)):
            return None, 'a capacity of %d elements on storage of %s bytes' % (cap[1], sz[1])
        out = []
        for i in range(n[1]):
            l = self.at(p[1], i)
            if chars:
                if l not in st.mem:
                    return None, 'character %d is not initialised' % i
                v = st.mem[l]
            else:
                if not self.ip.alive(st, l):
                    return None, 'element %d is not alive' % i
                v = self.ip.value(st, l)
            out.append(v[1] if v[0] == 'i' else v)
        if not chars:
            for k in st.mem.below(p[1]):
                if k[0] == 'f' and k[2] == '#life':
                    x = k[1]
                    j = x[2][1] if x != p[1] and x[0] == 'idx' and x[2][0] == 'i' else 0 if x == p[1] else None
                    if j is None or j >= n[1]:
                        return None, 'a live element behind the last one (index %s)' % j
        return out, None

    def vwant(self, st, V, vals, fn, key, what='the vector', chars=False):
        got, bad = self.vcontents(st, V, chars)
        return self.say(bad is None and got == list(vals), fn, key, '%s: %s' % (what, bad or 'holds %s, expected %s' % (got, list(vals))))

    def used(self, s):
        """allocations minus frees of a run"""
        return len([e for e in s.events() if e[0] == 'alloc']) - len(self.freed(s))

    def carr(self, st, name, vals, chars=False):
        A = ('obj', name)
        for i, v in enumerate(vals):
            if chars:
                st.mem[self.at(A, i)] = ('i', v)
            else:
                self.item(st, self.at(A, i), v)
        return A

    def vectors(self):
        m = self.m
        self.isize = 0
        f = m(VEC, 'reserve')
        st = State(); V = self.mkvec(st, 'V', [])
        s, v = self.go(f, ('p', V), [('i', 1)], st, 'one element')
        self.isize = [e for e in s.events() if e[0] == 'alloc'][0][2][1]
        CAPS = [(n, sp) for n in range(4) for sp in (0, 1, 3)]
        for n, sp in CAPS:
            vals = list(range(n)); what = '%d elements, room for %d more' % (n, sp)
            new = lambda: (lambda st: (st, self.mkvec(st, 'V', vals, sp)))(State())
            f = m(VEC, 'reserve')
            for k in (0, n, n + sp, n + sp + 1, n + sp + 4):
                for fail in (0, 1):
                    st, V = new(); self.ip.fail = bool(fail)
                    key = '%s, reserve %d%s' % (what, k, ', allocation fails' if fail else '')
                    r = self.go(f, ('p', V), [('i', k)], st, key); self.ip.fail = False
                    if r:
                        self.vwant(r[0], V, vals, f, key)
                        fits = k <= n + sp
                        self.say(r[1] == ('i', int(fits or not fail)), f, key + ' result', 'wrong result')
                        cap = self.ip.load(r[0], ('f', V, 'm_capacity'))[1]
                        self.say(cap >= k if r[1] == ('i', 1) else cap == n + sp, f, key + ' capacity', 'capacity is %d' % cap)
                        self.say(self.used(r[0]) == int(not fits and not fail and n + sp == 0), f, key + ' storage', 'storage is lost')
            f = m(VEC, 'resize')
            for k in range(n + sp + 3):
                for init in (0, 1):
                    for fail in (0, 1):
                        st, V = new(); self.ip.fail = bool(fail)
                        key = '%s, resize to %d%s%s' % (what, k, ' with a value' if init else '', ', allocation fails' if fail else '')
                        a = ('p', self.ext(st, 'x', 9)) if init else ZERO
                        r = self.go(f, ('p', V), [('i', k), a], st, key); self.ip.fail = False
                        if r:
                            bad = fail and k > n + sp
                            self.vwant(r[0], V, vals if bad else (vals + [9 if init else 0] * (k - n))[:k], f, key)
                            self.say(r[1] == ('i', int(not bad)), f, key + ' result', 'wrong result')
            f = m(VEC, 'clear')
            st, V = new(); r = self.go(f, ('p', V), [], st, what)
            if r:
                self.vwant(r[0], V, [], f, what)
                self.say(self.used(r[0]) == 0, f, what, 'gives the storage back')
            f = m(VEC, '~Vector')
            st, V = new(); r = self.go(f, ('p', V), [], st, what)
            if r:
                self.say(len(self.freed(r[0])) == int(n + sp > 0), f, what, 'the storage is not given back')
            for f in m(VEC, 'emplace_back', many=True):
                for fail in (0, 1):
                    st, V = new(); e = self.ext(st, 'x', 9); self.ip.fail = bool(fail)
                    key = what + (', allocation fails' if fail else '')
                    r = self.go(f, ('p', V), [('ref', e)], st, key); self.ip.fail = False
                    if r:
                        bad = fail and sp == 0
                        self.vwant(r[0], V, vals if bad else vals + [9], f, key)
                        D = self.ip.load(r[0], ('f', V, 'm_pData'))
                        self.say(r[1] == (ZERO if bad else ('p', self.at(D[1], n))), f, key + ' result', 'does not return the new element')
            f = max(m(VEC, 'emplace_back_args', many=True), key=lambda f: len(f.params))
            st, V = new()
            r = self.go(f, ('p', V), [('ref', self.ext(st, 'x%d' % i, 20 + i)) for i in range(len(f.params))], st, what)
            if r:
                self.vwant(r[0], V, vals + [20 + i for i in range(len(f.params))], f, what)
            f = m(VEC, 'assign')
            for p in range(n + 2):
                for k in (0, 1, 2, n + 1, (1 << 64) - 1):
                    st, V = new(); e = self.ext(st, 'x', 9)
                    key = '%s, position %d, %s elements' % (what, p, k if k < 100 else 'all')
                    r = self.go(f, ('p', V), [('ref', e), ('i', p), ('i', k)], st, key)
                    if r:
                        self.vwant(r[0], V, [9 if p <= i < p + k else x for i, x in enumerate(vals)], f, key)
            f = m(VEC, 'insert', lambda f: len(f.params) == 3)
            g = m(VEC, 'insert', lambda f: len(f.params) == 2 and '[' not in f.tu.types[f.params[1]['t']])
            for p in range(n + 2):
                for k in range(4):
                    for fail in (0, 1):
                        st, V = new(); A = self.carr(st, 'A', range(50, 50 + k)); self.ip.fail = bool(fail)
                        key = '%s, %d elements at %d%s' % (what, k, p, ', allocation fails' if fail else '')
                        r = self.go(f, ('p', V), [('i', p), ('p', A), ('i', k)], st, key)
                        self.ip.fail = False
                        if not r:
                            continue
                        q = 0 if n == 0 else p
                        bad = q > n or fail and k > sp
                        w = list(vals)
                        if not bad:
                            w[q:q] = range(50, 50 + k)
                        self.vwant(r[0], V, w, f, key)
                        D = self.ip.load(r[0], ('f', V, 'm_pData'))
                        if bad:
                            self.say(r[1] == ZERO, f, key + ' result', 'does not return null')
                        elif k and D[0] == 'p':
                            self.say(r[1] == ('p', self.at(D[1], q)), f, key + ' result', 'does not return the first inserted element')
                st, V = new(); e = self.ext(st, 'x', 9)
                key = '%s, one element at %d' % (what, p)
                r = self.go(g, ('p', V), [('i', p), ('ref', e)], st, key)
                if r and p <= n:
                    w = list(vals); w.insert(p, 9)
                    self.vwant(r[0], V, w, g, key)
            # whole vectors
            cc = self.ctor(VEC, lambda f, t: f.d.get('cc')); mc = self.ctor(VEC, lambda f, t: f.d.get('mc'))
            for f in (cc, mc):
                st, V = new(); T = ('obj', 'T'); self.zero(st, T)
                r = self.go(f, ('p', T), [('ref', V)], st, what)
                if r:
                    self.vwant(r[0], T, vals, f, what, 'the new vector')
                    self.vwant(r[0], V, vals if f is cc else [], f, what, 'the other vector')
                    d = [self.ip.load(r[0], ('f', x, 'm_pData')) for x in (T, V)]
                    self.say(d[0] != d[1] or d[0] == ZERO, f, what + ' sharing', 'both vectors own the same storage')
                    self.say(self.ip.load(r[0], ('f', T, 'm_pAllocator')) == ALLOC, f, 'allocator', 'the allocator is not taken over')
            ca = m(VEC, 'operator=', lambda f: f.d.get('ca')); ma = m(VEC, 'operator=', lambda f: f.d.get('ma'))
            for f in (ca, ma):
                for k, ks in ((0, 0), (0, 2), (1, 0), (2, 2), (3, 0), (4, 1)):
                    st, V = new(); T = self.mkvec(st, 'T', range(30, 30 + k), ks)
                    key = '%s to %d elements, room for %d more' % (what, k, ks)
                    r = self.go(f, ('p', T), [('ref', V)], st, key)
                    if not r:
                        continue
                    self.vwant(r[0], T, vals, f, key, 'the vector assigned to')
                    self.vwant(r[0], V, vals if f is ca else [], f, key, 'the other vector')
                    d = [self.ip.load(r[0], ('f', x, 'm_pData')) for x in (T, V)]
                    self.say(d[0] != d[1] or d[0] == ZERO, f, key + ' sharing', 'both vectors own the same storage')
                    if f is ma:
                        self.say(len(self.freed(r[0])) == int(k + ks > 0), f, key + ' storage', 'the old storage is not given back')
                        self.say(self.ip.load(r[0], ('f', T, 'm_pAllocator')) == ALLOC, f, 'allocator', 'the allocator is not taken over')
                    else:
                        self.say(self.used(r[0]) == int(k + ks == 0 and n > 0), f, key + ' storage', 'storage is lost')
                st, V = new()
                r = self.go(f, ('p', V), [('ref', V)], st, what + ' to itself')
                if r:
                    self.vwant(r[0], V, vals, f, what + ' to itself')
            for nm, w in (('size', n), ('capacity', n + sp), ('empty', int(n == 0))):
                f = m(VEC, nm); st, V = new(); r = self.go(f, ('p', V), [], st, what)
                if r:
                    self.say(r[1] == ('i', w), f, what, 'wrong answer')
            D = ('new', 'd:V')
            for nm, i in (('begin', 0), ('end', n), ('data', 0), ('front', 0), ('back', n - 1)):
                if n == 0:
                    continue
                for f in m(VEC, nm, many=True):
                    st, V = new(); r = self.go(f, ('p', V), [], st, what)
                    if r:
                        self.say(r[1][1] == self.at(D, i), f, what, 'wrong element')
            for f in m(VEC, 'operator[]', many=True):
                for i in range(n):
                    st, V = new(); r = self.go(f, ('p', V), [('i', i)], st, what)
                    if r:
                        self.say(r[1][1] == self.at(D, i), f, '%s [%d]' % (what, i), 'wrong element')
        # construction and assignment from arrays and values
        for f in self.fx.by_cls[VEC]:
            if f.body is None:
                continue
            t = [f.tu.types[p['t']] for p in f.params]
            st = State(); T = ('obj', 'T'); self.zero(st, T)
            if f.d.get('ctor') and len(t) >= 2:
                if 'Item *' in t[1].replace('const ', ''):
                    args = [('p', self.carr(st, 'A', [1, 2, 3])), ('i', 3)]; w = [1, 2, 3]
                elif '[2]' in t[1]:
                    args = [('ref', self.carr(st, 'A', [1, 2]))]; w = [1, 2]
                elif 'Item &' in t[1]:
                    args = [('ref', self.ext(st, 'x%d' % i, i)) for i in range(len(t) - 1)]; w = list(range(len(t) - 1))
                else:
                    args = [('i', 3)]; w = []
                self.done.add(f.id)
                r = self.go(f, ('p', T), [ALLOC] + args, st, 'construction')
                if r:
                    self.vwant(r[0], T, w, f, 'construction')
            elif f.name in ('operator=', 'insert') and t and '[2]' in t[-1]:
                V = self.mkvec(st, 'V', [7, 8, 9], 1); A = self.carr(st, 'A', [1, 2])
                self.done.add(f.id)
                ins = f.name == 'insert'
                r = self.go(f, ('p', V), ([('i', 1)] if ins else []) + [('ref', A)], st, 'array')
                if r:
                    self.vwant(r[0], V, [7, 1, 2, 8, 9] if ins else [1, 2], f, 'array')

    # ---- strings
    def text(self, st, S, unterm=False):
        got, bad = self.vcontents(st, S, chars=True)
        if bad:
            return None, bad
        if not got:
            return '', None
        if got[-1] != 0:
            return None, 'there is no terminator behind the %d characters' % len(got)
        if 0 in got[:-1]:
            return None, 'a terminator inside of the characters'
        return ''.join(map(chr, got[:-1])), None

    def swant(self, st, S, w, fn, key, what='the string'):
        got, bad = self.text(st, S)
        return self.say(bad is None and got == w, fn, key, '%s: %s' % (what, bad or 'is "%s", expected "%s"' % (got, w)))

    def mkstr(self, st, name, text, spare=0, empty=False):
        """empty: no storage at all; otherwise a terminator even when there are no characters"""
        return self.mkvec(st, name, [] if empty else [ord(c) for c in text] + [0], spare, chars=True)

    def strings(self):
        m = self.m
        def strs():
            for t in ('', 'a', 'abc'):
                for sp in (0, 1, 8):
                    yield t, sp, False
            yield '', 0, True
            yield '', 4, True
        lit = lambda s: ('p', ('strl', s))
        ld = self.ip.load
        def has(f, *ts):
            t = [f.tu.types[p['t']].replace('const ', '').replace(NS, '') for p in f.params]
            return len(t) >= len(ts) and all(x in y for x, y in zip(ts, t))
        own = [f for f in self.fx.by_cls[STR] if f.body is not None]
        byname = {}
        for f in own:
            byname.setdefault(f.name, []).append(f)
        def one(nm, *ts):
            r = [f for f in byname.get(nm, ()) if has(f, *ts)]
            if not r:
                raise AnalysisError('String::%s(%s) not found' % (nm, ', '.join(ts)))
            self.done.add(r[0].id)
            return r[0]
        # operations with a second text
        for t, sp, em in strs():
            what = '"%s"%s, room for %d more' % (t, ' without terminator' if em else '', sp)
            mk = lambda: (lambda st: (st, self.mkstr(st, 'S', t, sp, em)))(State())
            for a in ('', 'x', 'yz', None):
                key = '%s, %s' % (what, 'null' if a is None else '"%s"' % a)
                av = ZERO if a is None else lit(a)
                at = a or ''
                for nm, w in (('append', t + at), ('operator+=', t + at), ('operator=', at)):
                    f = one(nm, 'char *')
                    st, S = mk(); r = self.go(f, ('p', S), [av] + ([ZERO] if len(f.params) > 1 else []), st, key)
                    if r:
                        self.swant(r[0], S, w, f, key)
                        self.say(r[1][0] in ('p', 'ref', 'o') and r[1][1] == S, f, 'result', 'does not return the string')
                f = one('operator+', 'char *')
                st, S = mk(); r = self.go(f, ('p', S), [av], st, key)
                if r:
                    self.swant(r[0], S, t, f, key)
                    self.say(r[1][0] == 'o' and self.text(r[0], r[1][1]) == (t + at, None), f, key + ' result', 'wrong result')
                f = one('operator==', 'char *')
                if not (em or a is None):
                    st, S = mk(); r = self.go(f, ('p', S), [av], st, key)
                    if r:
                        self.say(r[1] == ('i', int(t == at)), f, key, 'wrong answer')
                f = one('insert', 'long', 'char *')
                for p in range(len(t) + 1):
                    for k in ([0] if a is None else sorted({0, 1, len(at)})):
                        if k > len(at):
                            continue
                        st, S = mk(); x = at[:k] if k else at
                        r = self.go(f, ('p', S), [('i', p), av, ('i', k)], st, '%s at %d, length %d' % (key, p, k))
                        if r:
                            self.swant(r[0], S, t[:p] + x + t[p:], f, '%s at %d, length %d' % (key, p, k))
                            if x:
                                D = ld(r[0], ('f', S, 'm_pData'))
                                self.say(r[1] == ('p', self.at(D[1], p)), f, key + ' result', 'does not return the first inserted character')
                # a part of a longer text
                f = one('append', 'char *')
                if at:
                    st, S = mk(); r = self.go(f, ('p', S), [lit(at + 'REST'), ('i', len(at))], st, key + ' of a longer text')
                    if r:
                        self.swant(r[0], S, t + at, f, key + ' of a longer text')
            for a, asp, aem in strs():
                key = '%s, "%s"%s' % (what, a, ' without terminator' if aem else '')
                f = one('operator+=', 'String &')
                st, S = mk(); A = self.mkstr(st, 'A', a, asp, aem)
                r = self.go(f, ('p', S), [('ref', A)], st, key)
                if r:
                    self.swant(r[0], S, t + a, f, key); self.swant(r[0], A, a, f, key, 'the argument')
                f = one('operator+', 'String &')
                st, S = mk(); A = self.mkstr(st, 'A', a, asp, aem)
                r = self.go(f, ('p', S), [('ref', A)], st, key)
                if r:
                    self.say(r[1][0] == 'o' and self.text(r[0], r[1][1]) == (t + a, None), f, key + ' result', 'wrong result')
                f = one('operator==', 'String &')
                if em == aem:
                    st, S = mk(); A = self.mkstr(st, 'A', a, asp, aem)
                    r = self.go(f, ('p', S), [('ref', A)], st, key)
                    if r:
                        self.say(r[1] == ('i', int(t == a)), f, key, 'wrong answer')
                f = [g for g in byname.get('operator=', ()) if g.d.get('ca')][0]
                st, S = mk(); A = self.mkstr(st, 'A', a, asp, aem)
                r = self.go(f, ('p', S), [('ref', A)], st, key)
                if r:
                    self.swant(r[0], S, a, f, key)
                f = [g for g in byname.get('operator=', ()) if g.d.get('ma')][0]
                st, S = mk(); A = self.mkstr(st, 'A', a, asp, aem)
                r = self.go(f, ('p', S), [('ref', A)], st, key)
                if r:
                    self.swant(r[0], S, a, f, key); self.swant(r[0], A, '', f, key, 'the string moved from')
                f = one('insert', 'long', 'String &')
                for p in range(len(t) + 1):
                    st, S = mk(); A = self.mkstr(st, 'A', a, asp, aem)
                    r = self.go(f, ('p', S), [('i', p), ('ref', A)], st, '%s at %d' % (key, p))
                    if r:
                        self.swant(r[0], S, t[:p] + a + t[p:], f, '%s at %d' % (key, p))
            f = one('operator+=', 'String &')
            st, S = mk(); r = self.go(f, ('p', S), [('ref', S)], st, what + ', itself')
            if r:
                self.swant(r[0], S, t + t, f, what + ', itself')
            f = one('substr')
            for o in range(len(t) + 2):
                for k in (0, 1, 2, 5, (1 << 64) - 1):
                    st, S = mk(); key = '%s, from %d, %s characters' % (what, o, k if k < 9 else 'all')
                    r = self.go(f, ('p', S), [('i', o), ('i', k)], st, key)
                    if r:
                        self.say(r[1][0] == 'o' and self.text(r[0], r[1][1]) == (t[o:o + k], None), f, key, 'gives "%s"' % (self.text(r[0], r[1][1]),))
                        self.swant(r[0], S, t, f, key)
            for f in byname.get('emplace_back', ()):
                self.done.add(f.id)
                st, S = mk(); e = ('obj', 'x'); st.mem[e] = ('i', ord('z'))
                r = self.go(f, ('p', S), [('ref', e)], st, what)
                if r:
                    self.swant(r[0], S, t + 'z', f, what)
                    D = ld(r[0], ('f', S, 'm_pData'))
                    self.say(r[1] == ('p', self.at(D[1], len(t))), f, what + ' result', 'does not return the new character')
            f = max(byname['emplace_back_args'], key=lambda f: len(f.params)); self.done.add(f.id)
            st, S = mk(); args = []
            for i in range(len(f.params)):
                e = ('obj', 'x%d' % i); st.mem[e] = ('i', ord('p') + i); args.append(('ref', e))
            r = self.go(f, ('p', S), args, st, what)
            if r:
                self.swant(r[0], S, t + ''.join(chr(ord('p') + i) for i in range(len(f.params))), f, what)
            f = one('size'); st, S = mk(); r = self.go(f, ('p', S), [], st, what)
            if r:
                self.say(r[1] == ('i', len(t)), f, what, 'wrong answer')
            if t:
                f = one('end'); st, S = mk(); r = self.go(f, ('p', S), [], st, what)
                if r:
                    self.say(r[1] == ('p', self.at(('new', 'd:S'), len(t))), f, what, 'not behind the last character')
                for f in byname.get('back', ()):
                    self.done.add(f.id)
                    st, S = mk(); r = self.go(f, ('p', S), [], st, what)
                    if r:
                        self.say(r[1][1] == self.at(('new', 'd:S'), len(t) - 1), f, what, 'not the last character')
            for f in [g for g in own if g.d.get('ctor') and (g.d.get('cc') or g.d.get('mc'))]:
                self.done.add(f.id)
                st, S = mk(); T = ('obj', 'T'); self.zero(st, T)
                r = self.go(f, ('p', T), [('ref', S)], st, what)
                if r:
                    self.swant(r[0], T, t, f, what, 'the new string'); self.swant(r[0], S, '' if f.d.get('mc') else t, f, what, 'the other string')
        f = [g for g in own if g.d.get('ctor') and has(g, 'Allocator', 'char *', 'long')]
        if not f:
            raise AnalysisError('String constructor from text not found')
        f = f[0]; self.done.add(f.id)
        for a, k, w in (('', 0, ''), ('abc', 0, 'abc'), ('abc', 2, 'ab'), ('abc', 3, 'abc'), ('abc', 4, 'abc'), (None, 0, '')):
            st = State(); T = ('obj', 'T'); self.zero(st, T)
            r = self.go(f, ('p', T), [ALLOC, ZERO if a is None else lit(a), ('i', k)], st, '"%s", length %d' % (a, k))
            if r:
                self.swant(r[0], T, w, f, '"%s", length %d' % (a, k))
        f = self.fx.one(NS + 'stringLength') if hasattr(self.fx, 'one') else None
        for a in ('', 'a', 'abcd', None):
            r = self.go(f, None, [ZERO if a is None else lit(a)], State(), 'text %r' % (a,))
            if r:
                self.say(r[1] == ('i', 0 if a is None else len(a) + 1), f, 'text %r' % (a,), 'wrong length')

    # ---- hash maps
    def mkhm(self, st, name, B, keys, keyed):
        """map of B buckets holding keys[i] -> element i, equal hashes next to each other"""
        M = ('obj', name); D = ('new', 'b:' + name)
        st.mem[('f', M, 'm_pAllocator')] = ALLOC
        st.mem[('f', M, 'm_pBuckets')] = ('p', D)
        st.mem[('f', M, 'm_Buckets')] = ('i', B)
        st.mem[('f', M, 'm_Elements')] = ('i', len(keys))
        st.mem[('f', M, 'm_pHashFunc')] = ('fn', self.hashfn) if self.hashfn else ('s', 'hashfn')
        st.mem[('f', D, '#size')] = ('i', B * self.bsize)
        by = {}
        for i, k in enumerate(keys):
            by.setdefault(k % B, []).append((k, i))
        for b in range(B):
            L = self.at(D, b)
            es = sorted(by.get(b, []), key=lambda e: [x for x, _ in by[b]].index(e[0]))
            locs = shape.mklist(st, L, ['%s.%d' % (name, i) for k, i in es])
            st.mem[('f', L, 'm_pAllocator')] = ALLOC
            for l, (k, i) in zip(locs, es):
                st.mem[('f', l[1], '#size')] = ('i', self.nsize[keyed])
                self.setkey(st, ('f', ('f', l, 'kv'), 'key'), k, keyed)
                self.setkey(st, ('f', l, 'hash'), k, 1)
                self.item(st, ('f', ('f', l, 'kv'), 'value'), i)
        return M

    moved_empty = False

    def hm(self, st, M):
        """[(key, value)] of a map that is well formed"""
        ld = self.ip.load
        p = ld(st, ('f', M, 'm_pBuckets')); B = ld(st, ('f', M, 'm_Buckets')); n = ld(st, ('f', M, 'm_Elements'))
        if p == ZERO or B == ZERO:
            return ([], None) if n == ZERO and (B == ZERO or not self.moved_empty) else (None, 'elements without buckets' if n != ZERO else 'buckets counted which are not there')
        if p[0] != 'p' or B[0] != 'i':
            return None, 'the buckets are not determined'
        if ('f', p[1], '#size') not in st.mem:
            return None, 'the buckets are not allocated (any more)'
        if st.mem[('f', p[1], '#size')] != ('i', B[1] * self.bsize):
            return None, '%d buckets on storage of %s bytes' % (B[1], st.mem[('f', p[1], '#size')][1])
        out = []
        for b in range(B[1]):
            L = self.at(p[1], b)
            ns, bad = self.nodes(st, L)
            if bad:
                return None, 'bucket %d: %s' % (b, bad)
            seen = []
            for x in ns:
                l = ('f', x, 'm_data'); kv = ('f', l, 'kv')
                if not self.ip.alive(st, ('f', kv, 'value')):
                    return None, 'an entry holds no live value'
                k = self.getkey(st, ('f', kv, 'key')); h = self.getkey(st, ('f', l, 'hash'))
                if k != h:
                    return None, 'the hash stored with key %s is %s' % (k[1], h[1])
                if k[0] != 'i' or k[1] % B[1] != b:
                    return None, 'key %s is in bucket %d of %d' % (k[1], b, B[1])
                if k[1] in seen and seen[-1] != k[1]:
                    return None, 'elements of key %d are apart from each other' % k[1]
                seen.append(k[1])
                out.append((k[1], self.ip.value(st, ('f', kv, 'value'))[1]))
        if n != ('i', len(out)):
            return None, 'the number of elements is %s for %d' % (n[1], len(out))
        return out, None

    def hwant(self, st, M, w, fn, key, what='the map'):
        self.moved_empty = what == 'the map moved from'
        got, bad = self.hm(st, M)
        self.moved_empty = False
        return self.say(bad is None and sorted(got) == sorted(w), fn, key, '%s: %s' % (what, bad or 'holds %s, expected %s' % (sorted(got), sorted(w))))

    def maps(self):
        m = self.m
        ld = self.ip.load
        hf = [f for f in self.fx.fns.values() if f.name == 'inst_hash']
        self.hashfn = hf[0].id if hf else None
        self.nsize = {}
        for cls, keyed, kt in ((NS + 'HashMap<unsigned int, Item>', 0, 'int'), (NS + 'HashMap<spvgentwo::Hash64, Item>', 1, 'hash')):
            if cls not in self.fx.by_cls:
                c2 = [c for c in self.fx.by_cls if c.startswith(NS + 'HashMap<') and c.endswith(', Item>') and ('unsigned int' in c) == (not keyed)]
                if not c2:
                    raise AnalysisError('%s not instantiated' % cls)
                cls = c2[0]
            IT = cls.replace('HashMap<', 'HashMapIterator<')
            # construction, sizes of buckets and entries
            f = self.ctor(cls, lambda f, t: len(t) == 3 and 'Allocator' in t[0] and 'int' in t[1] and '&' not in t[1])
            for B in (1, 2, 3):
                st = State(); T = ('obj', 'T'); self.zero(st, T)
                self.bsize = 0
                r = self.go(f, ('p', T), [ALLOC, ('i', B), ('s', 'hashfn') if not hf else ('fn', self.hashfn)], st, '%d buckets' % B)
                if not r:
                    continue
                a = [e for e in r[0].events() if e[0] == 'alloc']
                self.bsize = a[0][2][1] // B if len(a) == 1 else 0
                self.say(len(a) == 1 and self.bsize > 0, f, '%d buckets' % B, 'not one allocation')
                self.hwant(r[0], T, [], f, '%d buckets' % B)
                self.say(ld(r[0], ('f', T, 'm_Buckets')) == ('i', B), f, '%d buckets count' % B, 'wrong number of buckets')
                g = [x for x in m(cls, 'emplace', many=True)][0]
                e = self.ext(r[0], 'x', 9); k = ('obj', 'k'); self.setkey(r[0], k, 5, keyed)
                r2 = self.go(g, ('p', T), [('ref', k), ('ref', e)], r[0], 'first element')
                if r2:
                    a2 = [e for e in r2[0].events() if e[0] == 'alloc']
                    self.nsize[keyed] = a2[-1][2][1]
                    self.hwant(r2[0], T, [(5, 9)], g, 'first element')
            if keyed not in self.nsize:
                raise AnalysisError('no entry of %s could be made' % cls)
            STATES = [(B, ks) for B in (1, 2, 3) for ks in ((), (0,), (1,), (0, 2), (2, 2), (0, 1, 2), (0, 2, 2), (2, 2, 4), (2, 0, 5), (2, 2, 2))]
            if self.rep.tier == 'thorough':
                STATES = [(B, ks) for B in (1, 2, 3, 5) for n in range(5) for ks in product((0, 1, 2, 4), repeat=n)]
            for B, ks in STATES:
                # canonical order: equal keys adjacent
                have = [(k, i) for i, k in enumerate(ks)]
                what = 'keys %s in %d buckets' % (list(ks), B)
                def new():
                    st = State(); return st, self.mkhm(st, 'M', B, ks, keyed)
                def keyarg(st, k):
                    l = ('obj', 'k'); self.setkey(st, l, k, keyed); return ('ref', l)
                st, M = new(); got, bad = self.hm(st, M)
                if bad:
                    raise AnalysisError('canonical map is not well formed: ' + bad)
                for k in (0, 1, 2, 3):
                    key = '%s, key %d' % (what, k)
                    mine = [e for e in have if e[0] == k]
                    for f in m(cls, 'emplace', many=True):
                        st, M = new(); e = self.ext(st, 'x', 9)
                        r = self.go(f, ('p', M), [keyarg(st, k), ('ref', e)], st, key)
                        if r:
                            self.hwant(r[0], M, have + [(k, 9)], f, key)
                            self.node_is(r, k, 9, f, key)
                    for f in m(cls, 'emplaceUnique', many=True):
                        st, M = new(); e = self.ext(st, 'x', 9)
                        r = self.go(f, ('p', M), [keyarg(st, k), ('ref', e)], st, key)
                        if r:
                            self.hwant(r[0], M, have if mine else have + [(k, 9)], f, key)
                            if mine:
                                self.node_in(r, mine, f, key)
                            else:
                                self.node_is(r, k, 9, f, key)
                    for nm in ('get', 'operator[]'):
                        for f in m(cls, nm, many=True):
                            st, M = new()
                            r = self.go(f, ('p', M), [self.arg(st, f, k)], st, key)
                            if r:
                                ok = r[1] == ZERO if not mine else r[1][0] == 'p' and (k, self.ip.value(r[0], r[1][1])[1]) in mine
                                self.say(ok, f, key, 'gives %s, expected %s' % ('nothing' if r[1] == ZERO else 'another element', 'one of its elements' if mine else 'nothing'))
                    for f in m(cls, 'count', many=True):
                        st, M = new(); r = self.go(f, ('p', M), [self.arg(st, f, k)], st, key)
                        if r:
                            self.say(r[1] == ('i', len(mine)), f, key, 'counts %s' % (r[1][1],))
                    f = m(cls, 'eraseRange')
                    st, M = new(); r = self.go(f, ('p', M), [self.arg(st, f, k)], st, key)
                    if r:
                        self.hwant(r[0], M, [e for e in have if e[0] != k], f, key)
                        self.say(r[1] == ('i', len(mine)), f, key + ' result', 'wrong number of erased elements')
                        self.say(len(self.freed(r[0])) == len(mine), f, key + ' life', 'entries are not given back')
                    for f in m(cls, 'getRange', many=True):
                        st, M = new(); r = self.go(f, ('p', M), [self.arg(st, f, k)], st, key)
                        if r:
                            g, bad = self.range(r[0], r[1])
                            self.say(bad is None and sorted(g) == sorted(mine), f, key, bad or 'gives %s, expected %s' % (g, mine))
                    f = m(cls, 'find')
                    st, M = new(); r = self.go(f, ('p', M), [self.arg(st, f, k)], st, key)
                    if r:
                        at = self.hit(r[0], r[1])
                        self.say(at == 'end' if not mine else at in mine, f, key, 'finds %s, expected %s' % (at, mine or 'the end'))
                f = m(cls, 'findKey')
                for v in range(len(ks) + 1):
                    st, M = new(); e = self.ext(st, 'x', v)
                    r = self.go(f, ('p', M), [('ref', e)], st, '%s, value %d' % (what, v))
                    if r:
                        ok = r[1] == ZERO if v >= len(ks) else r[1][0] == 'p' and self.getkey(r[0], r[1][1]) == ('i', ks[v])
                        self.say(ok, f, '%s, value %d' % (what, v), 'wrong key')
                for nm, w in (('elements', len(ks)), ('getBucketCount', B)):
                    f = m(cls, nm); st, M = new(); r = self.go(f, ('p', M), [], st, what)
                    if r:
                        self.say(r[1] == ('i', w), f, what, 'wrong answer')
                f = m(cls, 'getBucket')
                for b in range(B):
                    st, M = new(); r = self.go(f, ('p', M), [('i', b)], st, what)
                    if r:
                        self.say(r[1][1] == self.at(('new', 'b:M'), b), f, what, 'another bucket')
                # iteration
                fb = m(cls, 'begin'); fe = m(cls, 'end')
                incs = m(IT, 'operator++', many=True) + m(IT, 'next', many=True)
                for inc in incs:
                    st, M = new()
                    rb = self.go(fb, ('p', M), [], st, what)
                    if not rb:
                        continue
                    s, it = rb
                    visited = []
                    for _ in range(len(ks) + 2):
                        at = self.hit(s, it)
                        if at == 'end':
                            break
                        visited.append(at)
                        T = ('obj', 'it%d' % s.fresh()); self.ip.copy_obj(s, T, it[1])
                        r = self.go(inc, ('p', T), [ZERO] if inc.params else [], s, what)
                        if not r:
                            break
                        s = r[0]
                        it = ('o', T) if inc.name == 'operator++' else r[1]
                    self.say(sorted(map(str, visited)) == sorted(map(str, have)), inc, what, 'iteration gives %s, the map holds %s' % (visited, have))
                    # and arrives at end()
                    re_ = self.go(fe, ('p', M), [], s, what)
                    if re_:
                        T = ('obj', 'E%d' % s.fresh()); s = re_[0]; self.ip.copy_obj(s, T, re_[1][1])
                        for nm, w in (('operator==', 1), ('operator!=', 0)):
                            g = m(IT, nm); X = ('obj', 'X%d' % s.fresh()); self.ip.copy_obj(s, X, it[1])
                            r = self.go(g, ('p', X), [('ref', T)], s.fork(), what)
                            if r:
                                self.say(r[1] == ('i', w), g, what, 'iteration does not arrive at end()')
                # erasing through an iterator
                f = m(cls, 'erase')
                for i in range(len(ks)):
                    st, M = new()
                    it, order = self.it_to(st, M, B, i)
                    r = self.go(f, ('p', M), [it], st, '%s, element %d' % (what, i))
                    if r:
                        self.hwant(r[0], M, [e for e in have if e[1] != i], f, '%s, element %d' % (what, i))
                        pos = [e[1] for e in order].index(i)
                        exp = order[pos + 1] if pos + 1 < len(order) else 'end'
                        at = self.hit(r[0], r[1])
                        self.say(at == exp, f, '%s, element %d result' % (what, i), 'continues at %s instead of %s' % (at, exp))
                        self.say(len(self.freed(r[0])) == 1, f, '%s, element %d life' % (what, i), 'the entry is not given back')
                st, M = new()
                re_ = self.go(fe, ('p', M), [], st, what)
                if re_:
                    r = self.go(f, ('p', M), [re_[1]], re_[0], what + ', at the end')
                    if r:
                        self.hwant(r[0], M, have, f, what + ', at the end')
                for f in (m(cls, 'clear'), m(cls, '~HashMap')):
                    st, M = new(); r = self.go(f, ('p', M), [], st, what)
                    if r:
                        if f.name == 'clear':
                            self.hwant(r[0], M, [], f, what)
                        self.say(len(self.freed(r[0])) == len(ks) + (f.name != 'clear'), f, what + ' life', '%d pieces of storage given back' % len(self.freed(r[0])))
                mc = self.ctor(cls, lambda f, t: f.d.get('mc')); ma = m(cls, 'operator=', lambda f: f.d.get('ma'))
                st, M = new(); T = ('obj', 'T'); self.zero(st, T)
                r = self.go(mc, ('p', T), [('ref', M)], st, what)
                if r:
                    self.hwant(r[0], T, have, mc, what, 'the new map'); self.hwant(r[0], M, [], mc, what, 'the map moved from')
                    self.owner(r[0], T, M, mc)
                for ks2, B2 in (((), 2), ((7, 9), 3)):
                    st, M = new(); T = self.mkhm(st, 'T', B2, ks2, keyed)
                    r = self.go(ma, ('p', T), [('ref', M)], st, '%s to %s' % (what, list(ks2)))
                    if r:
                        self.hwant(r[0], T, have, ma, '%s to %s' % (what, list(ks2)), 'the map assigned to')
                        self.hwant(r[0], M, [], ma, '%s to %s' % (what, list(ks2)), 'the map moved from')
                        self.say(len(self.freed(r[0])) == len(ks2) + 1, ma, '%s to %s life' % (what, list(ks2)), 'old storage is not given back')
                        self.owner(r[0], T, M, ma)
                st, M = new(); r = self.go(ma, ('p', M), [('ref', M)], st, what + ' to itself')
                if r:
                    self.hwant(r[0], M, have, ma, what + ' to itself')
            self.nobuckets(cls, keyed)
            # several at once
            for f in self.fx.by_cls[cls]:
                if f.body is not None and (f.name == 'emplaceArgs' or f.d.get('ctor') and len(f.params) >= 5):
                    st = State(); args = []; w = []
                    k = f.name != 'emplaceArgs'
                    if not k:
                        M = self.mkhm(st, 'M', 3, (), keyed)
                    else:
                        M = ('obj', 'T'); self.zero(st, M); args = [ALLOC]
                    for i in range((len(f.params) - k) // 2):
                        l = ('obj', 'k%d' % i); self.setkey(st, l, i + 1, keyed)
                        args += [('ref', l), ('ref', self.ext(st, 'x%d' % i, 10 + i))]; w.append((i + 1, 10 + i))
                    self.done.add(f.id)
                    r = self.go(f, ('p', M), args, st, '%d pairs' % len(w))
                    if r:
                        self.hwant(r[0], M, w, f, '%d pairs' % len(w))

    def nobuckets(self, cls, keyed):
        """a map without buckets (moved from, storage refused, no allocator) is an empty map: every question is answered with nothing"""
        m = self.m
        ctor = self.ctor(cls, lambda f, t: len(t) == 3 and 'Allocator' in t[0] and 'int' in t[1] and '&' not in t[1])
        mc = self.ctor(cls, lambda f, t: f.d.get('mc')); ma = m(cls, 'operator=', lambda f: f.d.get('ma'))
        hf = ('fn', self.hashfn) if self.hashfn else ('s', 'hashfn')

        def made(alloc, fail):
            def go(st):
                T = ('obj', 'T'); self.zero(st, T)
                self.ip.fail = fail
                r = self.go(ctor, ('p', T), [alloc, ('i', 3), hf], st, 'without storage')
                self.ip.fail = False
                if r is None:
                    return None
                self.say(not self.freed(r[0]), ctor, 'without storage', 'gives storage back')
                return T, r[0]
            return go

        def moved(f, full):
            def go(st):
                M = self.mkhm(st, 'M', 3, full, keyed)
                if f is mc:
                    T = ('obj', 'T'); self.zero(st, T)
                else:
                    T = self.mkhm(st, 'T', 2, (), keyed)
                r = self.go(f, ('p', T), [('ref', M)], st, 'to be empty')
                return r and (M, r[0])
            return go
        kinds = [('storage refused', made(ALLOC, True)), ('no allocator', made(ZERO, False)),
                 ('moved from', moved(mc, (0, 2))), ('moved from by assignment', moved(ma, (0, 2)))]
        for what, mk in kinds:
            def new():
                r = mk(State())
                return r or (None, None)

            def ask(f, args=lambda st, f: []):
                M, st = new()
                if M is None:
                    return None
                key = '%s, %s' % (what, f.name)
                r = self.go(f, ('p', M), args(st, f), st, key)
                if r is None:
                    return None
                self.hwant(r[0], M, [], f, key)
                return r
            for nm in ('get', 'operator[]'):
                for f in m(cls, nm, many=True):
                    r = ask(f, lambda st, f: [self.arg(st, f, 1)])
                    if r:
                        self.say(r[1] == ZERO, f, what + ' result', 'finds an element in an empty map')
            for nm in ('count', 'eraseRange'):
                for f in m(cls, nm, many=True):
                    r = ask(f, lambda st, f: [self.arg(st, f, 1)])
                    if r:
                        self.say(r[1] == ('i', 0), f, what + ' result', 'counts elements in an empty map')
            for f in m(cls, 'getRange', many=True):
                r = ask(f, lambda st, f: [self.arg(st, f, 1)])
                if r:
                    g, bad = self.range(r[0], r[1])
                    self.say(not bad and g == [], f, what + ' result', bad or 'gives %s' % (g,))
            f = m(cls, 'find')
            r = ask(f, lambda st, f: [self.arg(st, f, 1)])
            if r:
                self.say(self.hit(r[0], r[1]) == 'end', f, what + ' result', 'finds an element in an empty map')
            f = m(cls, 'findKey')
            r = ask(f, lambda st, f: [('ref', self.ext(st, 'x', 1))])
            if r:
                self.say(r[1] == ZERO, f, what + ' result', 'finds a key in an empty map')
            for nm in ('begin', 'end'):
                f = m(cls, nm)
                r = ask(f)
                if r:
                    self.say(self.hit(r[0], r[1]) == 'end', f, what + ' result', 'iteration starts at an element')
            for nm, w in (('elements', 0), ('getBucketCount', 0)):
                f = m(cls, nm)
                r = ask(f)
                if r:
                    self.say(r[1] == ('i', w), f, what + ' result', 'wrong answer')
            for f in (m(cls, 'clear'), m(cls, '~HashMap')):
                ask(f)
            self.rep.count('maps without buckets')

    def owner(self, s, T, M, f):
        ld = self.ip.load
        self.say(ld(s, ('f', T, 'm_pAllocator')) == ALLOC and ld(s, ('f', T, 'm_pHashFunc')) == (('fn', self.hashfn) if self.hashfn else ('s', 'hashfn')), f, 'ownership',
                 'allocator or hash function are not taken over')
        self.say(ld(s, ('f', M, 'm_pBuckets')) == ZERO, f, 'ownership of the other', 'the map moved from still owns the buckets')

    def arg(self, st, f, k):
        h = 'Hash64' in f.tu.types[f.params[0]['t']]
        l = ('obj', 'k'); self.setkey(st, l, k, h)
        return ('ref', l) if f.params[0].get('r') else ('o', l)

    def setkey(self, st, loc, k, hashed):
        st.mem[('f', loc, 'value') if hashed else loc] = ('i', k)

    def getkey(self, st, loc):
        return self.ip.load(st, loc if loc in st.mem and st.mem[loc][0] == 'i' else ('f', loc, 'value'))

    def node_val(self, s, v):
        """(key, value) of the node a reference denotes"""
        if v[0] not in ('p', 'ref', 'o'):
            return None
        kv = ('f', v[1], 'kv')
        if not self.ip.alive(s, ('f', kv, 'value')):
            return None
        return self.getkey(s, ('f', kv, 'key'))[1], self.ip.value(s, ('f', kv, 'value'))[1]

    def node_is(self, r, k, v, f, key):
        self.say(self.node_val(*r) == (k, v), f, key + ' result', 'does not return the new node')

    def node_in(self, r, es, f, key):
        self.say(self.node_val(*r) in es, f, key + ' result', 'does not return the element that is already there')

    def range(self, s, v):
        ld = self.ip.load
        b = ld(s, ('f', ('f', v[1], 'm_Begin'), 'm_pEntry')); e = ld(s, ('f', ('f', v[1], 'm_End'), 'm_pEntry'))
        out = []
        while b != e:
            if b[0] != 'p' or len(out) > 12:
                return out, 'the end of the range is not reached from its begin'
            out.append(self.node_val(s, ('p', ('f', b[1], 'm_data'))))
            b = ld(s, ('f', b[1], 'm_pNext'))
        return out, None

    def hit(self, s, it):
        """what a map iterator stands at"""
        e = self.ip.load(s, ('f', ('f', it[1], 'm_element'), 'm_pEntry'))
        if e == ZERO:
            return 'end'
        return self.node_val(s, ('p', ('f', e[1], 'm_data')))

    def it_to(self, st, M, B, i):
        """iterator at element i, and the order of iteration"""
        D = ('new', 'b:M'); order = []; it = None
        for b in range(B):
            L = self.at(D, b)
            for x in self.nodes(st, L)[0]:
                kv = self.node_val(st, ('p', ('f', x, 'm_data')))
                order.append(kv)
                if kv[1] == i:
                    T = ('obj', 'it')
                    st.mem[('f', ('f', T, 'm_element'), 'm_pEntry')] = ('p', x)
                    st.mem[('f', T, 'm_pBucket')] = ('p', L)
                    st.mem[('f', T, 'm_pEnd')] = ('p', self.at(D, B))
                    it = ('o', T)
        return it, order



def check(fx, rep):
    c = C(fx, rep)
    rep.rule(__doc__.replace('\n', ' '))
    c.lists()
    c.vectors()
    c.strings()
    c.maps()
    cls = [k for k in fx.by_cls if k in (LIST, ENTRY, VEC, STR) or k.startswith((NS + 'HashMap<', NS + 'HashMapIterator<', NS + 'EntryIterator<Item')) and 'Item' in k]
    own = [f for k in cls for f in fx.by_cls[k] if f.body is not None and not f.d.get('impl') and not f.d.get('dflt')]
    rep.need('container functions judged directly', len([f for f in own if f.id in c.done]), 130)
    rep.count('container functions reached through others', len([f for f in own if f.id not in c.done]))

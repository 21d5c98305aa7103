"""Path-sensitive abstract interpretation over the extracted program.

Domain: a value is a constant, a pointer to an abstract location, an object at a location, or a symbol whose
structure records its *origin* (parameter, field content, result of a call on given operands).  A state maps locations
to values, carries a finite set of learned facts (null / non-null, equals / not-equals constant, boolean outcome of a
condition) and the list of events of interest.  Helpers are interpreted inline, so that moving code into a helper or
reordering independent statements does not change the result; loops with unknown trip count are followed for
`loop_bound` iterations, then everything the loop writes is forgotten.  There is no solver: a condition is either decided
by the constants and facts at hand, or both outcomes are followed.
"""
import sys
from .facts import AnalysisError

sys.setrecursionlimit(20000)


def I(v, e=None):
    return ('i', int(v))


ZERO = ('i', 0)
ONE = ('i', 1)
VOID = ('void',)


class Budget(Exception):
    pass


class Mem(dict):
    """abstract store; kids (shared by all states of one analysis) lists the locations ever stored to below each location"""
    __slots__ = ('kids',)

    def __init__(self, kids=None, src=()):
        dict.__init__(self, src)
        self.kids = {} if kids is None else kids

    def reg(self, k):
        kids = self.kids
        if k in kids:
            if k in kids[k]:
                return
            kids[k].add(k)
        else:
            kids[k] = {k}
        a = k
        while a[0] in ('f', 'idx'):
            a = a[1]
            x = kids.get(a)
            if x is None:
                kids[a] = {k}
            else:
                x.add(k)

    def __setitem__(self, k, v):
        if k not in self:
            self.reg(k)
        dict.__setitem__(self, k, v)

    def setdefault(self, k, v=None):
        if k not in self:
            self[k] = v
        return self[k]

    def update(self, o):
        for k, v in o.items():
            self[k] = v

    def below(self, loc):
        return [k for k in self.kids.get(loc, ()) if k in self]

    def clone(self):
        return Mem(self.kids, self)


class State:
    __slots__ = ('mem', 'facts', 'dom', 'trace', 'n', 'tag')

    def __init__(self):
        self.mem = Mem(); self.facts = {}; self.dom = {}; self.trace = None; self.n = 0; self.tag = None

    def fork(self):
        s = State.__new__(State)
        s.mem = self.mem.clone(); s.facts = dict(self.facts); s.dom = dict(self.dom); s.trace = self.trace; s.n = self.n; s.tag = self.tag
        return s

    def emit(self, *ev):
        self.trace = (self.trace, ev)

    def events(self):
        out = []; t = self.trace
        while t is not None:
            out.append(t[1]); t = t[0]
        out.reverse()
        return out

    def fresh(self):
        self.n += 1
        return self.n


class Frame:
    __slots__ = ('fn', 'this', 'env', 'tu', 'depth', 'up', 'fid', 'retref', 'parent', 'call_line')

    def __init__(self, fn, this, depth, up=None, parent=None, fid=0):
        self.fn = fn; self.this = this; self.env = {}; self.tu = fn.tu; self.depth = depth; self.up = up; self.parent = parent
        self.fid = fid; self.retref = fn.ret.endswith('&') or '&)(' in fn.ret; self.call_line = 0

    def lookup(self, d):
        f = self
        while f is not None:
            if d in f.env:
                return f.env[d]
            f = f.up
        return None

    def stack(self):
        out = []; f = self
        while f is not None:
            out.append(f.fn); f = f.parent
        return out


NEG = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}
INT_BITS = {'bool': (1, 0), 'char': (8, 1), 'signed char': (8, 1), 'unsigned char': (8, 0), 'short': (16, 1), 'unsigned short': (16, 0), 'int': (32, 1),
            'unsigned int': (32, 0), 'long': (64, 1), 'unsigned long': (64, 0), 'long long': (64, 1), 'unsigned long long': (64, 0)}


def wrap(v, t):
    t = t.replace('const ', '')
    b = INT_BITS.get(t)
    if b is None:
        return v
    if b[0] == 1:
        return int(v != 0)
    v &= (1 << b[0]) - 1
    if b[1] and v >> (b[0] - 1):
        v -= 1 << b[0]
    return v


ENUMS = set()


CHARPTRS = ('char *', 'const char *', 'unsigned char *', 'const unsigned char *')
WORDS = ('unsigned int', 'int')
CHARS = ('char', 'const char', 'signed char', 'unsigned char')


def is_class_type(t):
    """type string of a class object (not pointer/reference/scalar)"""
    t = t.strip()
    if t in ENUMS or (t.startswith('const ') and t[6:] in ENUMS):
        return False
    if t.endswith('*') or t.endswith('&') or t.endswith('const') and t[:-5].rstrip().endswith('*'):
        return False
    if '*)(' in t or '*&)(' in t or '*&&)(' in t or '*const)(' in t:      # pointer to function or member, or a reference to one
        return False
    t = t.replace('const ', '')
    if t in INT_BITS or t in ('float', 'double', 'void', 'std::nullptr_t', 'nullptr_t', 'unsigned __int128', '__int128'):
        return False
    return True


class Interp:
    loop_bound = 2
    concrete_loop_bound = 300
    max_depth = 40
    distinct_objs = False   # the named objects of the state are known to be different objects
    bytes = False           # words can be read and written through a char pointer
    raw = False             # scalars of 4 and 8 bytes, known or not, can be copied byte by byte through void pointers
    max_recursion = 2
    max_states = 60000

    def __init__(self, facts):
        self.fx = facts
        self.steps = 0
        self.budget = 4000000
        self.enum_types = set(facts.enums)
        self.gobjs = {}
        ENUMS.update(self.enum_types)
        self.opaque_calls = {}
        self.unresolved = {}
        self.fcount = 0
        # anonymous unions whose members all have one type: the members are one location
        self.ualias = {}; self.ualias_cls = {}
        for q, r in facts.records.items():
            fs = r['fields']
            if r.get('union') and '::(unnamed union' in q and len(fs) > 1 and all(r['_tu'].types[f['t']].endswith('*') for f in fs):
                self.ualias[q] = {f['n']: fs[0]['n'] for f in fs}
            if r.get('union') and '::(anonymous' in q and len(fs) > 1 and len({f['t'] for f in fs}) == 1:
                m = {f['n']: fs[0]['n'] for f in fs}
                self.ualias[q] = m
                self.ualias_cls.setdefault(q[:q.index('::(anonymous')], {}).update(m)

    # ------------------------------------------------------------- hooks
    def model(self, st, fr, node, fn, obj, args):
        """return list[(state, value)] to override a call, or None"""
        return None

    def inline(self, fn, fr):
        return True

    def on_store(self, st, fr, loc, val, node):
        pass

    def on_deref(self, st, fr, val, node):
        """val is dereferenced; return False to prune the path"""
        return True

    def on_branch(self, st, fr, cond, taken, node):
        pass

    def on_ret(self, st, fr, val, node):
        pass

    # ------------------------------------------------------------- memory
    def root_of(self, loc):
        while loc[0] in ('f', 'idx'):
            loc = loc[1]
        return loc

    def load(self, st, loc):
        m = st.mem
        if loc in m:
            v = m[loc]
            return v
        # resolve through copied aggregates
        path = []
        l = loc
        while l[0] in ('f', 'idx'):
            path.append((l[0], l[2])); l = l[1]
            v = m.get(l)
            if v is not None:
                if v[0] == 'copyof':
                    nl = v[1]
                    for k, n in reversed(path):
                        nl = (k, nl, n)
                    return self.load(st, nl)
                if v == ('zeroed',):
                    return ZERO
                if v[0] == 'havoc':
                    return ('s', ('ld', loc, v[1]))
        if loc[0] == 'g':
            v = self.gconst(loc[1])
            if v is None:
                v = self.gelem(loc[1], 0)
            if v is not None:
                return v
        elif loc[0] == 'idx' and loc[1][0] == 'g' and loc[2][0] == 'i':
            v = self.gelem(loc[1][1], loc[2][1])
            if v is None:
                v = self.gmember(loc[1], loc)
            if v is not None:
                return v
        elif loc[0] in ('f', 'idx'):
            r = self.root_of(loc)
            if r[0] == 'g' and self.fixed_path(loc):
                v = self.gmember(r, loc)
                if v is not None:
                    return v
        if self.raw:
            w, i = self.byte_of(loc)
            if w is not None and self.bytes_size(loc):
                return self.byte_val(st, w, i, self.bytes_size(loc))
        if self.bytes:
            w, i = self.byte_of(loc)
            if w is not None:
                x = self.load(st, w if i < 4 else self.idx(w, ('i', i // 4)))
                if x[0] == 'i':
                    c = (x[1] >> (8 * (i % 4))) & 255
                    return ('i', c - 256 if c > 127 else c)
        # characters of a string literal
        if loc[0] == 'strl' and isinstance(loc[1], str):
            return self.char_at(loc[1], 0)
        if loc[0] == 'idx' and loc[1][0] == 'strl' and loc[2][0] == 'i' and isinstance(loc[1][1], str) and 0 <= loc[2][1] <= len(loc[1][1]):
            return self.char_at(loc[1][1], loc[2][1])
        return ('s', ('ld', loc))

    def scalar_size(self, t):
        """size of the scalar a pointer type refers to, 0 if it is none of 4 or 8 bytes (of any size with raw == 'all')"""
        t = t.replace('const ', '').strip()
        t = t[:-1].strip() if t.endswith('*') else t[:t.index('[')] if '[' in t else ''
        if self.raw == 'all':
            if t in self.enum_types:
                return self.fx.enums[t]['bits'] // 8
            if t in ('bool', 'unsigned char', 'char', 'signed char'):
                return 1
            if t in ('short', 'unsigned short'):
                return 2
        return 8 if t in ('double', 'long', 'unsigned long', 'long long', 'unsigned long long') else 4 if t in WORDS or t in ('float', 'int', 'unsigned int') else 0

    def word_at(self, loc, t):
        """location of the 32-bit word a pointer of type t refers to, None if it does not"""
        t = t.replace('const ', '').strip()
        if not t.endswith('*'):
            return None
        t = t[:-1].strip()
        for _ in range(4):
            if t in WORDS or t in self.enum_types:
                return loc
            r = self.fx.records.get(t)
            if not r or len(r['fields']) != 1 or r.get('bases'):
                return None
            f = r['fields'][0]
            loc = ('f', loc, f['n'])
            t = self.field_type(r, f)
        return None

    def field_type(self, r, f):
        return r['_tu'].types[f['t']].replace('const ', '').strip()

    @staticmethod
    def byte_of(loc):
        if loc[0] == 'bytes':
            return loc[1], 0
        if loc[0] == 'idx' and loc[1][0] == 'bytes' and loc[2][0] == 'i':
            return loc[1][1], loc[2][1]
        return None, 0

    @staticmethod
    def bytes_size(loc):
        b = loc if loc[0] == 'bytes' else loc[1]
        return b[2] if len(b) > 2 else 0

    def byte_val(self, st, w, i, size):
        """i-th byte (little endian) of the scalars of this size at w"""
        x = self.load(st, w if i < size else self.idx(w, ('i', i // size)))
        i %= size
        if x[0] == 'f':
            import struct
            x = ('i', int.from_bytes(struct.pack('<f' if size == 4 else '<d', x[1]), 'little'))
        if x[0] == 'i':
            c = (x[1] >> (8 * i)) & 255
            return ('i', c - 256 if c > 127 else c)
        if x[0] == 's' and x[1][0] == 'bytes':
            return x[1][1][i]
        if x[0] == 's' and x[1][0] == 'part':
            return ('s', ('byte', x[1][1], x[1][2] + i))
        return ('s', ('byte', x, i))

    @staticmethod
    def with_byte(x, i, b):
        """32-bit word x with its i-th byte replaced"""
        if x[0] == 'i':
            bs = [('i', (x[1] >> (8 * k)) & 255) for k in range(4)]
        elif x[0] == 's' and x[1][0] == 'bytes':
            bs = list(x[1][1])
        elif x[0] == 's' and x[1][0] == 'part':
            bs = [('s', ('byte', x[1][1], x[1][2] + k)) for k in range(4)]
        else:
            bs = [('s', ('byte', x, k)) for k in range(4)]
        bs[i] = ('i', b[1] & 255) if b[0] == 'i' else b
        if all(q[0] == 'i' for q in bs):
            return ('i', sum(q[1] << (8 * k) for k, q in enumerate(bs)))
        f = bs[0]
        if all(q[0] == 's' and q[1][0] == 'byte' and q[1][1] == f[1][1] and q[1][2] == f[1][2] + k for k, q in enumerate(bs)) if f[0] == 's' and f[1][0] == 'byte' else False:
            return ('s', ('part', f[1][1], f[1][2]))
        return ('s', ('bytes', tuple(bs)))

    @staticmethod
    def char_at(s, i):
        b = s.encode('latin-1', 'replace') + b'\0'
        c = b[i] if i < len(b) else 0
        return ('i', c - 256 if c > 127 else c)

    def gmember(self, root, loc):
        """member of a constant global object, as its constructor leaves it"""
        q = root[1]
        if q not in self.gobjs:
            self.gobjs[q] = None
            g = self.fx.globals.get(q)
            e = g['e'] if g is not None and g.get('const') and not g.get('amb') else None
            if e is not None and (e['k'] == 'ctor' and all(a['k'] == 'int' for a in e['a']) or e['k'] == 'init'):
                fr = Frame(next(iter(self.fx.fns.values())), None, 0); fr.tu = g['_tu']
                try:
                    r = self.ev(State(), fr, e)
                except AnalysisError:
                    r = []
                if len(r) == 1 and r[0][1][0] == 'o':
                    self.gobjs[q] = (r[0][0], r[0][1][1])
        o = self.gobjs[q]
        if o is None:
            return None
        path = []
        while loc != root:
            path.append(loc); loc = loc[1]
        l = o[1]
        g = self.fx.globals[q]
        if g['e']['k'] == 'init' and '[' in g['_tu'].types[g['t']] and (not path or path[-1][0] != 'idx'):
            l = ('idx', l, ('i', 0))        # the first element
        for x in reversed(path):
            l = (x[0], l, x[2])
        v = self.load(o[0], l)
        return v if v[0] in ('i', 'f', 'str', 'fn') or v[0] in ('p', 'ref') and v[1][0] == 'strl' else None

    @staticmethod
    def fixed_path(loc):
        while loc[0] in ('f', 'idx'):
            if loc[0] == 'idx' and (loc[2][0] != 'i' or not isinstance(loc[2][1], int)):
                return False
            loc = loc[1]
        return True

    def gelem(self, q, i):
        """element of a constant global array of scalars or strings"""
        g = self.fx.globals.get(q)
        if g is None or not g.get('const') or g.get('amb') or g.get('e') is None or g['e']['k'] != 'init' or not 0 <= i < len(g['e']['a']):
            return None
        x = g['e']['a'][i]
        while x['k'] == 'cast':
            x = x['a']
        return ('i', x['v']) if x['k'] == 'int' else ('str', x['v']) if x['k'] == 'str' else ZERO if x['k'] in ('null', 'zero') else None

    def gconst(self, q):
        """value of a constant global of scalar type"""
        g = self.fx.globals.get(q)
        if g is None or not g.get('const') or g.get('amb'):
            return None
        x = g['e']
        while x is not None and x['k'] in ('cast', 'def', 'init', 'ctor'):
            if x['k'] == 'cast':
                x = x['a']
            elif x['k'] == 'def':
                x = x['e']
            else:
                if len(x['a']) != 1:
                    return None
                x = x['a'][0]
        if x is None:
            return None
        if x['k'] in ('null', 'zero'):
            return ZERO
        if x['k'] == 'int':
            return ('i', x['v'])
        if x['k'] == 'str':
            return ('str', x['v'])
        return None

    def store(self, st, fr, loc, val, node=None):
        if val[0] == 'o':  # class copy
            self.copy_obj(st, loc, val[1])
        else:
            w, i = self.byte_of(loc) if self.bytes else (None, 0)
            if w is not None:
                w = w if i < 4 else self.idx(w, ('i', i // 4))
                x = self.load(st, w)
                if self.raw and self.bytes_size(loc) == 4:
                    st.mem[w] = self.with_byte(x, i % 4, val)
                elif x[0] == 'i' and val[0] == 'i':
                    k = 8 * (i % 4)
                    st.mem[w] = ('i', (x[1] & 0xffffffff & ~(255 << k)) | ((val[1] & 255) << k))
                else:
                    st.mem[w] = ('s', ('word', st.fresh()))
            else:
                st.mem[loc] = val
        self.on_store(st, fr, loc, val, node)

    def clear_obj(self, st, loc):
        m = st.mem
        for k in m.below(loc):
            del m[k]

    def under(self, k, loc):
        while True:
            if k == loc:
                return True
            if k[0] in ('f', 'idx'):
                k = k[1]
            else:
                return False

    def rebase(self, k, old, new):
        if k == old:
            return new
        return (k[0], self.rebase(k[1], old, new), k[2])

    def copy_obj(self, st, dst, src):
        if dst == src:
            return
        m = st.mem
        new = {}
        for k in m.below(src):
            new[self.rebase(k, src, dst)] = m[k]
        self.clear_obj(st, dst)
        if src not in m and dst not in new:
            # nothing known at root: unresolved sub-fields come from the source
            new[dst] = ('copyof', src)
        m.update(new)

    # ------------------------------------------------------------- truth
    def norm(self, v):
        """normalise a condition value to (key, polarity); key hashable"""
        pol = True
        while True:
            if v[0] == 's':
                k = v[1]
                if k[0] == 'not':
                    pol = not pol; v = k[1]; continue
                if k[0] == 'nz':
                    v = k[1]; continue
                if k[0] == 'bin':
                    op, a, b = k[1], k[2], k[3]
                    if op in ('!=', '=='):
                        if a[0] == 'i' and b[0] != 'i':
                            a, b = b, a
                        if b == ZERO or b == ('i', 0):
                            if op == '==':
                                pol = not pol
                            v = a; continue
                        if op == '!=':
                            pol = not pol
                        if b[0] != 'i' and repr(a) > repr(b):
                            a, b = b, a
                        return (('==', a, b), pol)
                    if op == '>':
                        return (('<', b, a), pol)
                    if op == '<=':
                        return (('<', b, a), not pol)
                    if op == '>=':
                        return (('<', a, b), not pol)
                    if op == '<':
                        return (('<', a, b), pol)
            return (('nz', v), pol)

    def truth(self, st, v):
        """True / False / None"""
        t = v[0]
        if t == 'i':
            return v[1] != 0
        if t in ('p', 'fn', 'lam', 'str'):
            return True
        if t == 'f':
            return v[1] != 0.0
        key, pol = self.norm(v)
        r = self._truth_key(st, key)
        return None if r is None else (r == pol)

    def _truth_key(self, st, key):
        if key in st.facts:
            return st.facts[key]
        if key[0] == 'nz':
            v = key[1]
            if v[0] == 'i':
                return v[1] != 0
            if v[0] in ('p', 'fn', 'lam', 'str', 'o'):
                return True
            if v[0] == 's' and v[1][0] == 'bin' and v[1][1] == '|' and any(x[0] == 'i' and x[1] != 0 for x in v[1][2:4]):
                return True
            d = st.dom.get(v)
            if d is not None:
                if d[0] == 'in':
                    if 0 not in d[1]:
                        return True
                    if d[1] == frozenset([0]):
                        return False
                elif 0 in d[1]:
                    return True
            return None
        if key[0] == '==':
            a, b = key[1], key[2]
            if a == b:
                return True
            if a[0] == 'i' and b[0] == 'i':
                return a[1] == b[1]
            if a[0] == 'p' and b[0] == 'p':
                return self.same_loc(a[1], b[1])
            if b[0] == 'i':
                if a[0] == 'p':
                    return False
                d = st.dom.get(a)
                if d is not None:
                    if d[0] == 'in':
                        if b[1] not in d[1]:
                            return False
                        if d[1] == frozenset([b[1]]):
                            return True
                    elif b[1] in d[1]:
                        return False
            return None
        if key[0] == '<':
            a, b = key[1], key[2]
            if a[0] == 'i' and b[0] == 'i':
                return a[1] < b[1]
            if a == b:
                return False
            if a[0] == 'p' and b[0] == 'p':
                o = self.elem_order(a[1], b[1])
                if o is not None:
                    return o < 0
            # a < b known, b < a asked
            if st.facts.get(('<', b, a)) is True:
                return False
            if st.facts.get(('==', a, b)) is True or st.facts.get(('==', b, a)) is True:
                return False
            if b == ZERO and self.is_unsigned(a):
                return False
            if a == ZERO and self.is_unsigned(b):
                return self._truth_key(st, ('nz', b))
            if b == ONE and self.is_unsigned(a):
                r = self._truth_key(st, ('nz', a))
                return None if r is None else (not r)
            for x, y, less in ((a, b, True), (b, a, False)):
                if x[0] == 'i':
                    d = st.dom.get(y)
                    if d is not None and d[0] == 'in':
                        rs = {(x[1] < k) if less else (k < x[1]) for k in d[1]}
                        if len(rs) == 1:
                            return rs.pop()
            return None
        return None

    def is_unsigned(self, v):
        return False

    def elem_order(self, a, b):
        """difference of the indices of two elements of one array, if both are constant"""
        def split(l):
            return (l[1], l[2][1]) if l[0] == 'idx' and l[2][0] == 'i' else (l, 0)
        (x, i), (y, j) = split(a), split(b)
        return i - j if x == y else None

    def same_loc(self, a, b):
        if a == b:
            return True
        o = self.elem_order(a, b)
        if o is not None:
            return o == 0
        ra, rb = self.root_of(a), self.root_of(b)
        if ra == rb:
            return None if ('idx' in (a[0], b[0])) else False
        if ra[0] in ('v', 'new', 'tmp', 'g') and rb[0] in ('v', 'new', 'tmp', 'g'):
            return False
        if ra[0] in ('v', 'new', 'tmp') or rb[0] in ('v', 'new', 'tmp'):
            return False
        if self.distinct_objs and ra[0] == rb[0] == 'obj':
            return False
        return None

    def assume(self, st, v, val):
        """st is modified; returns False if contradictory"""
        r = self.truth(st, v)
        if r is not None:
            return r == val
        key, pol = self.norm(v)
        b = (val == pol)
        st.facts[key] = b
        if key[0] == 'nz':
            s = key[1]
            d = st.dom.get(s)
            if b:
                if d is None:
                    st.dom[s] = ('notin', frozenset([0]))
                elif d[0] == 'notin':
                    st.dom[s] = ('notin', d[1] | {0})
                else:
                    st.dom[s] = ('in', d[1] - {0})
            else:
                st.dom[s] = ('in', frozenset([0]))
        elif key[0] == '==' and key[2][0] == 'i':
            s, c = key[1], key[2][1]
            d = st.dom.get(s)
            if b:
                st.dom[s] = ('in', frozenset([c]))
            elif d is None:
                st.dom[s] = ('notin', frozenset([c]))
            elif d[0] == 'notin':
                st.dom[s] = ('notin', d[1] | {c})
            else:
                st.dom[s] = ('in', d[1] - {c})
                if not st.dom[s][1]:
                    return False
        return True

    def resolve(self, st, v):
        """a symbol whose domain is a single constant becomes that constant"""
        if v[0] == 's':
            d = st.dom.get(v)
            if d is not None and d[0] == 'in' and len(d[1]) == 1:
                return ('i', next(iter(d[1])))
        return v

    def branch(self, st, fr, v, node):
        """list of (state, bool)"""
        r = self.truth(st, v)
        if r is not None:
            return [(st, r)]
        a = st.fork(); b = st
        out = []
        if self.assume(a, v, True):
            self.on_branch(a, fr, v, True, node); out.append((a, True))
        if self.assume(b, v, False):
            self.on_branch(b, fr, v, False, node); out.append((b, False))
        self.tick(len(out))
        return out

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.budget:
            raise Budget('analysis budget exhausted')

    # ------------------------------------------------------------- expressions
    def is_lv(self, n):
        k = n['k']
        if k in ('ref', 'gref', 'mem', 'sub', 'str', 'this_obj'):
            return True
        if k == 'un':
            return n['op'] in ('*', '++', '--')
        if k == 'bin':
            return bool(n.get('lv')) or (n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='))
        if k == 'def':
            return self.is_lv(n['e'])
        return bool(n.get('lv'))

    def lv(self, st, fr, n):
        """evaluate as lvalue: list of (state, loc)"""
        self.tick()
        k = n['k']
        if k == 'ref':
            loc = fr.lookup(n['d'])
            if loc is None:
                loc = ('v', n['d'], n['n'], 'free')
                return [(st, loc)]
            v = st.mem.get(loc)
            if n.get('r') and v is not None and v[0] == 'ref':
                return [(st, v[1])]
            return [(st, loc)]
        if k == 'gref':
            return [(st, ('g', n['n']))]
        if k == 'mem':
            out = []
            if n.get('ar'):
                for s, v in self.ev(st, fr, n['b']):
                    if not self.deref_ok(s, fr, v, n):
                        continue
                    out.append((s, self.ptr_loc(v)))
            else:
                out = self.lv_any(st, fr, n['b'])
            if n['n'] == '<anon>':
                return out
            res = []
            nm = n['n']
            if n.get('c') in self.ualias:
                nm = self.ualias[n['c']].get(nm, nm)
            for s, base in out:
                l = ('f', base, nm)
                if n.get('r'):
                    v = self.load(s, l)
                    if v[0] == 'ref':
                        l = v[1]
                    else:
                        l = ('*', v)
                res.append((s, l))
            return res
        if k == 'un':
            if n['op'] == '*':
                out = []
                for s, v in self.ev(st, fr, n['a']):
                    if self.deref_ok(s, fr, v, n):
                        out.append((s, self.ptr_loc(v)))
                return out
            if n['op'] in ('++', '--'):
                out = []
                for s, loc in self.lv(st, fr, n['a']):
                    v = self.load(s, loc)
                    nv = self.binop(s, '+' if n['op'] == '++' else '-', v, ONE, self.ty(fr, n))
                    self.store(s, fr, loc, nv, n)
                    out.append((s, loc))
                return out
        if k == 'sub':
            out = []
            for s, b in self.ev(st, fr, n['b']):
                if not self.deref_ok(s, fr, b, n):
                    continue
                for s2, i in self.ev(s, fr, n['i']):
                    bl = self.ptr_loc(b)
                    out.append((s2, self.idx(bl, self.resolve(s2, i))))
            return out
        if k == 'bin':
            op = n['op']
            if op == ',':
                out = []
                for s, _ in self.ev(st, fr, n['x']):
                    out += self.lv(s, fr, n['y'])
                return out
            return self.assign(st, fr, n)
        if k == 'cond':
            out = []
            for s, c in self.ev(st, fr, n['c']):
                for s2, b in self.branch(s, fr, c, n):
                    out += self.lv_any(s2, fr, n['x' if b else 'y'])
            return out
        if k == 'cast':
            return self.lv_any(st, fr, n['a'])
        if k == 'def':
            return self.lv_any(st, fr, n['e'])
        if k == 'str':
            return [(st, ('strl', n['v']))]
        if k in ('call', 'icall'):
            out = []
            for s, v in self.call(st, fr, n):
                out.append((s, self.ptr_loc(v)))
            return out
        return self.lv_any(st, fr, n)

    def lv_any(self, st, fr, n):
        """lvalue or materialised temporary"""
        if self.is_lv(n):
            return self.lv(st, fr, n)
        out = []
        for s, v in self.ev(st, fr, n):
            if v[0] == 'o':
                out.append((s, v[1]))
            else:
                t = ('tmp', s.fresh())
                s.mem[t] = v
                out.append((s, t))
        return out

    def idx(self, bl, i):
        if bl[0] == 'idx' and bl[2][0] == 'i' and i[0] == 'i':
            r = ('idx', bl[1], ('i', bl[2][1] + i[1]))
        elif bl[0] == 'idx' and bl[2] == ZERO and bl[1][0] in 'vf':
            r = ('idx', bl[1], i)
        else:
            r = ('idx', bl, i)
        if r[2] == ZERO:
            return r[1] if r[1][0] != 'v' and r[1][0] != 'f' else r
        return r

    def ptr_loc(self, v):
        if v[0] in ('p', 'o'):
            return v[1]
        if v[0] == 'ref':
            return v[1]
        if v[0] == 'str':
            return ('strl', v[1])
        return ('*', v)

    def loc_ptr(self, loc):
        if loc[0] == '*':
            return loc[1]
        if loc[0] == 'strl':
            return ('str', loc[1])
        return ('p', loc)

    def deref_ok(self, st, fr, v, n):
        if self.on_deref(st, fr, v, n) is False:
            return False
        if v == ZERO:
            st.emit('nullderef', fr.fn, n.get('l', 0))
            return False
        return True

    def ty(self, fr, n):
        t = n.get('t')
        return fr.tu.types[t] if t is not None else ''

    def ev(self, st, fr, n):
        """rvalue: list of (state, value)"""
        self.tick()
        k = n['k']
        m = getattr(self, 'ev_' + k, None)
        if m is not None:
            return m(st, fr, n)
        # generic: evaluate children
        outs = [st]
        for c in n.get('ch', []):
            nx = []
            for s in outs:
                nx += [x for x, _ in self.ev(s, fr, c)]
            outs = nx
        return [(s, ('s', ('unk', n.get('n'), s.fresh()))) for s in outs]

    def ev_int(self, st, fr, n):
        return [(st, ('i', n['v']))]

    def ev_flt(self, st, fr, n):
        return [(st, ('f', n['v']))]

    def ev_str(self, st, fr, n):
        return [(st, ('str', n['v']))]

    def ev_null(self, st, fr, n):
        return [(st, ZERO)]

    def ev_zero(self, st, fr, n):
        t = self.ty(fr, n)
        if is_class_type(t) and t not in self.enum_types:
            l = ('tmp', st.fresh()); st.mem[l] = ('zeroed',)
            return [(st, ('o', l))]
        return [(st, ZERO)]

    def ev_this(self, st, fr, n):
        f = fr
        while f.this is None and f.up is not None:
            f = f.up
        return [(st, f.this if f.this is not None else ('s', ('this',)))]

    def ev_def(self, st, fr, n):
        return self.ev(st, fr, n['e'])

    def ev_fref(self, st, fr, n):
        return [(st, ('fn', n['f']))]

    def ev_mfref(self, st, fr, n):
        return [(st, ('fn', n['f']))]

    def rv(self, st, fr, loc, n):
        t = self.ty(fr, n)
        if '[' in t and t.rstrip().endswith(']') and loc[0] != 'strl' and n['k'] in ('ref', 'mem', 'sub', 'gref'):
            return ('p', ('idx', loc, ZERO) if loc[0] in 'vf' else loc)       # arrays are only ever used through their first element
        if is_class_type(t) and t not in self.enum_types:
            v = st.mem.get(loc)
            if v is not None and v[0] in ('lam',):
                return v
            return ('o', loc)
        if loc[0] == 'strl' and t not in CHARS:
            return ('str', loc[1])
        if '[' in t and t.rstrip().endswith(']'):
            return ('p', loc)
        v = self.resolve(st, self.load(st, loc))
        if v[0] == 'i' and type(v[1]) is int and v[1] < 0 and t in ('unsigned char', 'const unsigned char'):
            v = ('i', v[1] & 255)
        return v

    def ev_lvload(self, st, fr, n):
        return [(s, self.rv(s, fr, loc, n)) for s, loc in self.lv(st, fr, n)]

    ev_ref = ev_mem = ev_sub = ev_lvload

    def ev_gref(self, st, fr, n):
        g = self.fx.globals.get(n['n'])
        if g is not None and g.get('const') and not g.get('amb') and g.get('e') is not None:
            e = g['e']
            x = e
            while x['k'] in ('cast', 'def') or (x['k'] == 'init' and x.get('c') is None and len(x['a']) == 1):
                x = x['a'] if x['k'] == 'cast' else x['e'] if x['k'] == 'def' else x['a'][0]
            if x['k'] in ('int', 'str', 'flt', 'null', 'zero'):
                gf = fr
                if g['_tu'] is not fr.tu:
                    gf = Frame(fr.fn, None, fr.depth); gf.tu = g['_tu']
                return self.ev(st, gf, e)
        return self.ev_lvload(st, fr, n)

    def ev_un(self, st, fr, n):
        op = n['op']
        if op == '*':
            return self.ev_lvload(st, fr, n)
        if op == '&':
            a = n['a']
            if a['k'] == 'fref' or a['k'] == 'mfref':
                return self.ev(st, fr, a)
            return [(s, self.loc_ptr(l)) for s, l in self.lv_any(st, fr, a)]
        if op in ('++', '--'):
            return [(s, self.load(s, l)) for s, l in self.lv(st, fr, n)]
        if op in ('p++', 'p--'):
            out = []
            for s, loc in self.lv(st, fr, n['a']):
                v = self.load(s, loc)
                v = self.resolve(s, v)
                self.store(s, fr, loc, self.binop(s, '+' if op == 'p++' else '-', v, ONE, self.ty(fr, n)), n)
                out.append((s, v))
            return out
        out = []
        for s, v in self.ev(st, fr, n['a']):
            if op == '!':
                r = self.truth(s, v)
                out.append((s, ('i', int(not r)) if r is not None else ('s', ('not', v))))
            elif op == '-' and v[0] == 'i':
                out.append((s, ('i', wrap(-v[1], self.ty(fr, n)))))
            elif op == '-' and v[0] == 'f':
                out.append((s, ('f', -v[1])))
            elif op == '~' and v[0] == 'i':
                out.append((s, ('i', wrap(~v[1], self.ty(fr, n)))))
            elif op == '+':
                out.append((s, v))
            else:
                out.append((s, ('s', ('un', op, v))))
        return out

    def binop(self, st, op, a, b, t):
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            try:
                if op == '+': r = x + y
                elif op == '-': r = x - y
                elif op == '*': r = x * y
                elif op == '/': r = int(x / y) if y else None
                elif op == '%': r = x % y if y else None
                elif op == '<<': r = x << y
                elif op == '>>': r = x >> y
                elif op == '&': r = x & y
                elif op == '|': r = x | y
                elif op == '^': r = x ^ y
                elif op == '==': r = x == y
                elif op == '!=': r = x != y
                elif op == '<': r = x < y
                elif op == '>': r = x > y
                elif op == '<=': r = x <= y
                elif op == '>=': r = x >= y
                else: r = None
            except Exception:
                r = None
            if r is not None:
                return ('i', wrap(int(r), t))
        if op in ('+', '-') and b == ZERO:
            return a
        if op == '+' and a == ZERO:
            return b
        if op in ('+', '-') and a[0] == 'p' and b[0] == 'i':
            return self.loc_ptr(self.idx(a[1], ('i', b[1] if op == '+' else -b[1])))
        if op in ('+', '-') and a[0] == 'str' and b[0] == 'i':
            return self.loc_ptr(self.idx(('strl', a[1]), ('i', b[1] if op == '+' else -b[1])))
        if op in ('|', '^') and b == ZERO:
            return a
        if op in ('|', '^') and a == ZERO:
            return b
        if op == '&' and (a == ZERO or b == ZERO):
            return ZERO
        if op in ('==', '!=', '<', '>', '<=', '>='):
            v = ('s', ('bin', op, a, b))
            r = self.truth(st, v)
            if r is not None:
                return ('i', int(r))
            return v
        if op in ('+', '-') and b[0] == 'i' and a[0] == 's' and a[1][0] == 'bin' and a[1][1] in ('+', '-') and a[1][3][0] == 'i':
            c = a[1][3][1] * (1 if a[1][1] == '+' else -1) + b[1] * (1 if op == '+' else -1)
            if c == 0:
                return a[1][2]
            return ('s', ('bin', '+' if c > 0 else '-', a[1][2], ('i', abs(c))))
        if op in ('+', '*', '&', '|', '^') and a[0] == 'i' and b[0] != 'i':
            a, b = b, a
        return ('s', ('bin', op, a, b))

    def ev_bin(self, st, fr, n):
        op = n['op']
        if op in ('&&', '||'):
            out = []
            for s, a in self.ev(st, fr, n['x']):
                for s2, b in self.branch(s, fr, a, n):
                    if b == (op == '||'):
                        out.append((s2, I(b)))
                    else:
                        for s3, c in self.ev(s2, fr, n['y']):
                            r = self.truth(s3, c)
                            out.append((s3, I(r) if r is not None else ('s', ('nz', c)) if c[0] != 's' or c[1][0] not in ('bin', 'not', 'nz') else c))
            return out
        if op == ',':
            out = []
            for s, _ in self.ev(st, fr, n['x']):
                out += self.ev(s, fr, n['y'])
            return out
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            return [(s, self.rv(s, fr, l, n)) for s, l in self.assign(st, fr, n)]
        out = []
        t = self.ty(fr, n)
        for s, a in self.ev(st, fr, n['x']):
            for s2, b in self.ev(s, fr, n['y']):
                out.append((s2, self.binop(s2, op, self.resolve(s2, a), self.resolve(s2, b), t)))
        return out

    def assign(self, st, fr, n):
        op = n['op']
        out = []
        if op == '=':
            for s, v in self.ev(st, fr, n['y']):
                for s2, loc in self.lv(s, fr, n['x']):
                    self.store(s2, fr, loc, v, n)
                    out.append((s2, loc))
            return out
        for s, v in self.ev(st, fr, n['y']):
            for s2, loc in self.lv(s, fr, n['x']):
                old = self.resolve(s2, self.load(s2, loc))
                nv = self.binop(s2, op[:-1], old, v, self.ty(fr, n))
                self.store(s2, fr, loc, nv, n)
                out.append((s2, loc))
        return out

    def ev_cond(self, st, fr, n):
        out = []
        for s, c in self.ev(st, fr, n['c']):
            for s2, b in self.branch(s, fr, c, n):
                out += self.ev(s2, fr, n['x' if b else 'y'])
        return out

    def ev_cast(self, st, fr, n):
        ck = n['ck']
        if n.get('lv'):
            return [(s, self.rv(s, fr, loc, n)) for s, loc in self.lv(st, fr, n)]
        out = []
        t = self.ty(fr, n)
        for s, v in self.ev(st, fr, n['a']):
            if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
                r = self.truth(s, v)
                out.append((s, I(r) if r is not None else ('s', ('nz', v))))
            elif ck == 'IntegralCast' and v[0] == 'i':
                out.append((s, ('i', wrap(v[1], t))))
            elif ck == 'NullToPointer':
                out.append((s, ZERO))
            elif ck == 'ToVoid':
                out.append((s, VOID))
            elif ck == 'IntegralToFloating' and v[0] == 'i':
                out.append((s, ('f', float(v[1]))))
            elif ck == 'FloatingToIntegral' and v[0] == 'f':
                out.append((s, ('i', int(v[1]))))
            elif ck == 'BitCast' and self.raw and v[0] == 'p' and t.replace('const ', '') in ('void *', 'char *', 'unsigned char *') and self.scalar_size(self.ty(fr, n['a'])) and v[1][0] != 'bytes':
                at = self.ty(fr, n['a'])
                out.append((s, ('p', ('bytes', self.idx(v[1], ('i', 0)) if '[' in at else v[1], self.scalar_size(at)))))
            elif ck == 'BitCast' and self.raw and v[0] == 'p' and v[1][0] == 'bytes' and len(v[1]) > 2 and self.scalar_size(t) == v[1][2]:
                out.append((s, ('p', v[1][1])))
            elif ck == 'BitCast' and self.bytes and v[0] == 'p' and t in CHARPTRS:
                w = self.word_at(v[1], self.ty(fr, n['a']))
                out.append((s, ('p', ('bytes', w)) if w else v))
            else:
                out.append((s, v))
        return out

    def ev_init(self, st, fr, n):
        """aggregate / scalar initialiser list"""
        a = n['a']
        c = n.get('c')
        t = self.ty(fr, n)
        if c is None and '[' not in t:
            if len(a) == 0:
                return self.ev_zero(st, fr, n)
            if len(a) == 1:
                return self.ev(st, fr, a[0])
        loc = ('tmp', st.fresh())
        states = [st]
        rec = self.fx.records.get(c) if c else None
        names = []
        if c is None and t.endswith(']') and t[t.rindex('[') + 1:-1].isdigit() and int(t[t.rindex('[') + 1:-1]) > len(a):
            st.mem[loc] = ('zeroed',)        # elements without initialiser
        if rec is not None:
            if n.get('uf'):
                names = [n['uf']]
            else:
                names = [('base', b) for b in rec['bases']] + [f['n'] for f in rec['fields']]
        if rec is not None and rec.get('union') and not a and rec['fields'] and rec['_tu'].types[rec['fields'][0]['t']].endswith('*'):
            st.mem[('f', loc, n.get('uf') or rec['fields'][0]['n'])] = ZERO
        for i, e in enumerate(a):
            nx = []
            for s in states:
                for s2, v in self.evx(s, fr, e):
                    if rec is not None and i < len(names):
                        nm = names[i]
                        l = loc if isinstance(nm, tuple) or nm == '<anon>' else ('f', loc, nm)
                    else:
                        l = ('idx', loc, I(i))
                    self.store(s2, fr, l, v, e)
                    nx.append(s2)
            states = nx
        res = []
        for s in states:
            if c and c.startswith('lambda@'):
                pass
            s.mem.setdefault(('f', loc, '#init'), I(len(a)))
            res.append((s, ('o', loc)))
        return res

    def evx(self, st, fr, e):
        """value of an initialiser; references to class objects give ('o', loc)"""
        return self.ev(st, fr, e)

    def ev_lambda(self, st, fr, n):
        env = {}
        for c in n['caps']:
            if 'd' in c:
                if 'e' in c:
                    r = self.ev(st, fr, c['e'])
                    st, v = r[0]
                    l = ('v', c['d'], c.get('n', ''), ('cap', st.fresh()))
                    if c.get('r'):
                        st.mem[l] = v
                    else:
                        self.store(st, fr, l, v)
                    env[c['d']] = l
                elif not c.get('r'):
                    src = fr.lookup(c['d'])
                    if src is not None:
                        l = ('v', c['d'], c.get('n', ''), ('cap', st.fresh()))
                        sv = st.mem.get(src)
                        if sv is not None and sv[0] == 'ref':
                            self.copy_obj(st, l, sv[1])
                        else:
                            self.copy_obj(st, l, src)
                            if st.mem.get(l, ('',))[0] == 'copyof' and src in st.mem:
                                st.mem[l] = st.mem[src]
                        env[c['d']] = l
        cl = Closure(fr, env, n['ops'])
        return [(st, ('lam', cl))]

    def ev_new(self, st, fr, n):
        states = [(st, [])]
        for p in n['pl']:
            nx = []
            for s, vs in states:
                for s2, v in self.ev(s, fr, p):
                    nx.append((s2, vs + [v]))
            states = nx
        out = []
        for s, vs in states:
            if n['pl'] and vs and (vs[0][0] in ('p', 's')):
                loc = self.ptr_loc(vs[-1] if len(vs) > 1 and vs[-1][0] in ('p', 's') else vs[0])
                fresh = False
            else:
                loc = ('new', s.fresh()); fresh = True
            s.emit('new', fr.fn, n, loc, fr.tu.types[n['nt']])
            if fresh and n.get('sz') is not None:
                # how many there are (an expression without effects)
                z = self.ev(s, fr, n['sz'])
                if len(z) == 1:
                    s = z[0][0]; s.mem[('f', loc, '#count')] = z[0][1]
            if n.get('in') is not None:
                for s2, v in self.construct_at(s, fr, n['in'], loc):
                    out.append((s2, self.loc_ptr(loc)))
            else:
                out.append((s, self.loc_ptr(loc)))
        return out

    def construct_at(self, st, fr, init, loc):
        """evaluate an initialiser directly into loc"""
        if init['k'] == 'ctor':
            return self.ctor(st, fr, init, loc)
        out = []
        for s, v in self.ev(st, fr, init):
            if v[0] == 'o':
                self.copy_obj(s, loc, v[1])
                self.on_store(s, fr, loc, v, init)
            else:
                self.store(s, fr, loc, v, init)
            out.append((s, ('o', loc)))
        return out

    def ev_delete(self, st, fr, n):
        out = []
        for s, v in self.ev(st, fr, n['a']):
            s.emit('delete', fr.fn, n, v)
            out.append((s, VOID))
        return out

    def ev_ctor(self, st, fr, n):
        return self.ctor(st, fr, n, ('tmp', st.fresh()))

    def ev_ictor(self, st, fr, n):
        loc = ('tmp', st.fresh())
        return [(st, ('o', loc))]

    def ctor(self, st, fr, n, loc):
        fn = self.fx.fns.get(n['f'])
        res = []
        for s, args in self.args(st, fr, n['a'], fn, n):
            m = self.model(s, fr, n, fn, ('p', loc), args)
            if m is not None:
                res += [(s2, v if v is not None and v[0] in ('o', 'lam') else ('o', loc)) for s2, v in m]
                continue
            lam = len(args) == 1 and (n.get('cc') or n.get('mc')) and (args[0][0] == 'lam' or args[0][0] in ('ref', 'o') and s.mem.get(args[0][1], ('',))[0] == 'lam')
            if lam and args[0][0] == 'lam':
                s.mem[loc] = args[0]
                res.append((s, ('o', loc)))
                continue
            if lam or (n.get('tr') or n.get('cc') or n.get('mc')) and (fn is None or fn.d.get('dflt') and not fn.d.get('init')) and len(args) == 1:
                src = args[0]
                if src[0] == 'ref':
                    v = s.mem.get(src[1])
                    if v is not None and v[0] == 'lam':
                        s.mem[loc] = v
                    else:
                        self.copy_obj(s, loc, src[1])
                elif src[0] == 'o':
                    self.copy_obj(s, loc, src[1])
                self.on_store(s, fr, loc, src, n)
                res.append((s, ('o', loc)))
                continue
            if fn is None or not self.can_inline(fn, fr):
                if n.get('tr') and not args:
                    res.append((s, ('o', loc)))
                    continue
                self.note_opaque(n)
                s.emit('octor', fr.fn, n, loc, tuple(args))
                self.clear_obj(s, loc)
                s.mem[('f', loc, '#ctor')] = ('s', ('ctor', n['n'], tuple(self.plain(s, a) for a in args)))
                s.mem[loc] = ('havoc', ('ctor', n['n'], tuple(self.plain(s, a) for a in args)))
                res.append((s, ('o', loc)))
                continue
            for s2, _ in self.invoke(s, fr, fn, self.loc_ptr(loc), args, n):
                res.append((s2, ('o', loc)))
        return res

    def plain(self, st, v):
        if v[0] == 'ref':
            x = st.mem.get(v[1])
            if x is not None and x[0] not in ('copyof', 'zeroed', 'havoc'):
                return x
            if v[1][0] == '*':
                return ('s', ('at', v[1][1]))
            return ('p', v[1])
        if v[0] == 'lam':
            return ('lam', tuple(v[1].ops))
        return v

    def args(self, st, fr, nodes, fn, n=None):
        """list of (state, [values]); reference parameters are passed as ('ref', loc)"""
        outs = [(st, [])]
        for i, a in enumerate(nodes):
            byref = None
            if fn is not None and i < len(fn.params):
                byref = bool(fn.params[i].get('r'))
            elif fn is None and n is not None and i in n.get('pr', ()):
                byref = True
            nx = []
            for s, vs in outs:
                nn = a
                while nn['k'] == 'def':
                    nn = nn['e']
                use_ref = byref if byref is not None else (self.is_lv(nn) and is_class_type(self.ty(fr, nn)))
                if use_ref:
                    if self.is_lv(nn) or True:
                        for s2, l in self.lv_any(s, fr, nn):
                            nx.append((s2, vs + [('ref', l)]))
                else:
                    for s2, v in self.ev(s, fr, nn):
                        nx.append((s2, vs + [self.resolve(s2, v)]))
            outs = nx
        return outs

    def ev_call(self, st, fr, n):
        out = []
        for s, v in self.call(st, fr, n):
            if n.get('lv'):
                v = self.rv(s, fr, self.ptr_loc(v), n)
            out.append((s, self.resolve(s, v)))
        return out

    ev_icall = ev_call

    def call(self, st, fr, n):
        if n['k'] == 'icall':
            outs = []
            pm = n['fn']
            while pm['k'] == 'cast' or (pm['k'] == 'other' and len(pm.get('ch', ())) == 1):
                pm = pm['x'] if pm['k'] == 'cast' else pm['ch'][0]
            if pm['k'] == 'bin' and pm['op'] in ('->*', '.*'):
                # call through a pointer to member
                for s, f in self.ev(st, fr, pm['y']):
                    if pm['op'] == '->*':
                        objs = self.ev(s, fr, pm['x'])
                    else:
                        objs = [(s1, self.loc_ptr(l)) for s1, l in self.lv_any(s, fr, pm['x'])]
                    fn = self.fx.fns.get(f[1]) if f[0] == 'fn' else None
                    for s1, o in objs:
                        for s2, args in self.args(s1, fr, n['a'], fn, n):
                            if fn is not None:
                                outs += self.dispatch(s2, fr, dict(n, f=f[1], n=fn.name, c=fn.cls), fn, o, args)
                            else:
                                s2.emit('icall', fr.fn, n, f, tuple(self.plain(s2, a) for a in args))
                                outs.append((s2, ('s', ('icall', f, tuple(self.plain(s2, a) for a in args), s2.fresh()))))
                return outs
            for s, f in self.ev(st, fr, n['fn']):
                if f[0] in ('o', 'ref', 'p') and f[1][0] == '*' and f[1][1][0] == 'fn':
                    f = f[1][1]      # what a pointer to a function points to
                if f[0] in ('o', 'ref'):
                    # a member whose type is an alias of a function pointer
                    t = self.load(s, f[1])
                    if t[0] == 'fn':
                        f = t
                fn = self.fx.fns.get(f[1]) if f[0] == 'fn' else None
                for s2, args in self.args(s, fr, n['a'], fn, n):
                    if f[0] == 'fn':
                        outs += self.dispatch(s2, fr, dict(n, f=f[1], n=fn.name if fn else '?'), fn, None, args)
                    else:
                        m = self.model(s2, fr, n, None, f, args)
                        if m is not None:
                            outs += m
                        else:
                            s2.emit('icall', fr.fn, n, f, tuple(self.plain(s2, a) for a in args))
                            outs.append((s2, ('s', ('icall', f, tuple(self.plain(s2, a) for a in args), s2.fresh()))))
            return outs
        fn = self.fx.fns.get(n['f'])
        outs = []
        if 'o' in n:
            if n.get('op') == '=' and n.get('tr') :
                # trivial class assignment
                for s, args in self.args(st, fr, n['a'], fn, n):
                    for s2, l in self.lv_any(s, fr, n['o']):
                        src = args[0]
                        if src[0] in ('ref', 'o'):
                            self.copy_obj(s2, l, src[1])
                        self.on_store(s2, fr, l, src, n)
                        outs.append((s2, ('p', l) if l[0] != '*' else l[1]))
                return outs
            if n.get('ar'):
                objs = []
                for s, v in self.ev(st, fr, n['o']):
                    if self.deref_ok(s, fr, v, n):
                        objs.append((s, v))
            else:
                objs = []
                for s, l in self.lv_any(st, fr, n['o']):
                    objs.append((s, self.loc_ptr(l)))
            for s, o in objs:
                for s2, args in self.args(s, fr, n['a'], fn, n):
                    outs += self.dispatch(s2, fr, n, fn, o, args)
            return outs
        for s2, args in self.args(st, fr, n['a'], fn, n):
            outs += self.dispatch(s2, fr, n, fn, None, args)
        return outs

    def can_inline(self, fn, fr):
        if fr.depth >= self.max_depth:
            return False
        c = 0
        f = fr
        while f is not None:
            if f.fn is fn:
                c += 1
            f = f.parent
        if c >= self.max_recursion:
            return False
        return self.inline(fn, fr)

    def note_opaque(self, n):
        self.opaque_calls[n.get('n')] = self.opaque_calls.get(n.get('n'), 0) + 1

    def dispatch(self, st, fr, n, fn, obj, args):
        m = self.model(st, fr, n, fn, obj, args)
        if m is not None:
            return m
        # lambda objects
        if n.get('op') == '()' and obj is not None:
            v = st.mem.get(self.ptr_loc(obj)) if obj[0] in ('p',) else None
            if obj[0] == 'lam':
                v = obj
            if v is not None and v[0] == 'lam' and fn is not None:
                return self.invoke(st, fr, fn, None, args, n, closure=v[1])
            if v is not None and v[0] == 'fn':
                f2 = self.fx.fns.get(v[1])
                if f2 is not None:
                    return self.invoke(st, fr, f2, None, args, n)
        if fn is not None and self.can_inline(fn, fr) and not (n.get('v') and not n.get('nv')):
            return self.invoke(st, fr, fn, obj, args, n)
        return self.opaque(st, fr, n, fn, obj, args)

    def opaque(self, st, fr, n, fn, obj, args):
        self.note_opaque(n)
        pa = tuple(self.plain(st, a) for a in args)
        nm = n.get('q') or ((n.get('c') or '') + '::' + n.get('n', '?'))
        const = fn is not None and (fn.d.get('const') or not fn.cls)
        # arguments passed by non-const reference may be written
        for i, a in enumerate(args):
            if a[0] == 'ref' and fn is not None and i < len(fn.params):
                t = fn.tu.types[fn.params[i]['t']]
                if not t.startswith('const ') and t.endswith('&') and not t.endswith('&&'):
                    l = a[1]
                    if l[0] in ('v', 'tmp', 'f'):
                        k = st.fresh()
                        self.clear_obj(st, l)
                        st.mem[l] = ('s', ('out', nm, k))
        key = ('call', nm, obj, pa) if (const or (n.get('sig_const'))) else ('call', nm, obj, pa, st.fresh())
        st.emit('call', nm, obj, pa, fr.fn, n.get('l', 0), key)
        v = ('s', key)
        if n.get('lv'):
            return [(st, v)]
        t = self.ty(fr, n)
        if t == 'void':
            return [(st, VOID)]
        if is_class_type(t) and t not in self.enum_types:
            l = ('tmp', st.fresh())
            st.mem[l] = ('havoc', key)
            return [(st, ('o', l))]
        return [(st, v)]

    # ------------------------------------------------------------- functions
    def invoke(self, st, fr, fn, this, args, n=None, closure=None):
        self.fcount += 1
        nf = Frame(fn, this, (fr.depth + 1) if fr else 0, up=closure.frame if closure else None, parent=fr, fid=st.fresh())
        nf.call_line = (n or {}).get('l', 0)
        if closure:
            nf.env.update(closure.env)
        for i, p in enumerate(fn.params):
            loc = ('v', p['d'], p['n'], nf.fid)
            nf.env[p['d']] = loc
            if i < len(args):
                a = args[i]
                if p.get('r'):
                    if a[0] == 'ref':
                        st.mem[loc] = a
                    elif a[0] == 'o':
                        st.mem[loc] = ('ref', a[1])
                    elif a[0] == 'p':
                        st.mem[loc] = ('ref', a[1])
                    else:
                        t = ('tmp', st.fresh()); st.mem[t] = a
                        st.mem[loc] = ('ref', t)
                else:
                    if a[0] == 'ref':
                        v = st.mem.get(a[1])
                        if v is not None and v[0] == 'lam':
                            st.mem[loc] = v
                        else:
                            self.copy_obj(st, loc, a[1])
                    elif a[0] == 'o':
                        self.copy_obj(st, loc, a[1])
                    else:
                        st.mem[loc] = a
        states = [st]
        if fn.d.get('ctor') and this is not None:
            base = self.ptr_loc(this)
            for ini in fn.d.get('init', []):
                nx = []
                for s in states:
                    nx += self.mem_init(s, nf, ini, base)
                states = nx
        out = []
        for s in states:
            for s2, sig in self.ex(s, nf, fn.body):
                if sig is None or sig in ('break', 'continue'):
                    out.append((s2, VOID))
                else:
                    out.append((s2, sig[1]))
        # a class object returned by value lives on in a temporary
        self.leave(out, nf)
        return out

    def leave(self, out, nf):
        pass

    def mem_init(self, s, nf, ini, base):
        e = ini['e']
        if 'm' in ini:
            nm = ini['m']
            if ini.get('ind') and nf.fn is not None:
                nm = self.ualias_cls.get(nf.fn.cls, {}).get(nm, nm)
            l = base if nm == '<anon>' else ('f', base, nm)
            if ini.get('r'):
                res = []
                for s2, t in self.lv_any(s, nf, e):
                    s2.mem[l] = ('ref', t); res.append(s2)
                return res
        else:
            l = base
        if e is None:
            return [s]
        if e['k'] == 'ctor':
            return [x for x, _ in self.ctor(s, nf, e, l)]
        if e['k'] == 'ictor' and e['f'] in self.fx.fns:
            # inheriting constructor: the base constructor gets the same arguments
            g = self.fx.fns[e['f']]
            if self.can_inline(g, nf):
                args = []
                for p in nf.fn.params:
                    v = s.mem.get(('v', p['d'], p['n'], nf.fid))
                    args.append(v if v is not None else ('o', ('v', p['d'], p['n'], nf.fid)))
                return [x for x, _ in self.invoke(s, nf, g, self.loc_ptr(l), args, e)]
        res = []
        for s2, v in self.ev(s, nf, e):
            if v[0] == 'o':
                self.copy_obj(s2, l, v[1])
                self.on_store(s2, nf, l, v, e)
            else:
                self.store(s2, nf, l, v, e)
            res.append(s2)
        return res

    def run(self, fn, this=None, args=None, st=None):
        """analyse fn from an arbitrary state; parameters become origin symbols"""
        st = st or State()
        if this is None and fn.cls and not fn.d.get('st') and not fn.d.get('lam'):
            this = ('p', ('obj', 'this'))
        if args is None:
            args = []
            for p in fn.params:
                args.append(self.param_value(st, fn, p))
        return self.invoke(st, None, fn, this, args)

    def param_value(self, st, fn, p):
        t = fn.tu.types[p['t']]
        if p.get('r'):
            return ('ref', ('obj', p['n']))
        if is_class_type(t) and t not in self.enum_types:
            return ('o', ('obj', p['n']))
        return ('s', ('param', p['n']))

    # ------------------------------------------------------------- statements
    def ex(self, st, fr, n):
        """list of (state, signal)"""
        self.tick()
        if n is None:
            return [(st, None)]
        k = n['k']
        if k == 'block':
            return self.ex_seq(st, fr, n['s'])
        if k == 'expr':
            return [(s, None) for s, _ in self.ev_stmt(st, fr, n['e'])]
        if k == 'decl':
            return self.ex_decl(st, fr, n)
        if k == 'ret':
            return self.ex_ret(st, fr, n)
        if k == 'if':
            return self.ex_if(st, fr, n)
        if k in ('while', 'for', 'do'):
            return self.ex_loop(st, fr, n)
        if k == 'rfor':
            return self.ex_rfor(st, fr, n)
        if k == 'switch':
            return self.ex_switch(st, fr, n)
        if k in ('case', 'default', 'label'):
            return self.ex(st, fr, n['s'])
        if k == 'break':
            return [(st, 'break')]
        if k == 'continue':
            return [(st, 'continue')]
        return [(st, None)]

    def ev_stmt(self, st, fr, e):
        if e['k'] in ('call', 'icall'):
            return self.call(st, fr, e)
        if self.is_lv(e) and e['k'] in ('bin', 'un', 'cond') and not (e['k'] == 'bin' and e['op'] == ',') and not (e['k'] == 'cond' and self.ty(fr, e) == 'void'):
            return self.lv(st, fr, e)
        return self.ev(st, fr, e)

    def ex_seq(self, st, fr, stmts):
        cur = [st]
        done = []
        for x in stmts:
            nx = []
            for s in cur:
                for s2, sig in self.ex(s, fr, x):
                    if sig is None:
                        nx.append(s2)
                    else:
                        done.append((s2, sig))
            cur = self.merge(nx)
            if not cur:
                break
        return done + [(s, None) for s in cur]

    def merge(self, states):
        if len(states) < 2:
            return states
        if len(states) > self.max_states:
            raise Budget('too many abstract states')
        return states

    def ex_decl(self, st, fr, n):
        cur = [st]
        for v in n['v']:
            nx = []
            for s in cur:
                nx += self.declare(s, fr, v)
            cur = nx
        return [(s, None) for s in cur]

    def declare(self, s, fr, v):
        loc = ('v', v['d'], v['n'], (fr.fid, s.fresh())) if not v.get('sl') else ('g', v['n'])
        fr.env[v['d']] = loc if True else None
        # each path keeps the same location id for the same declaration instance
        loc = ('v', v['d'], v['n'], fr.fid)
        fr.env[v['d']] = loc
        self.clear_obj(s, loc)
        e = v.get('e')
        if v.get('r') and e is not None:
            out = []
            for s2, l in self.lv_any(s, fr, e):
                s2.mem[loc] = ('ref', l)
                self.bind(s2, fr, v, l)
                out.append(s2)
            return out
        if e is None:
            s.mem[loc] = ('s', ('undef', v['n'], v.get('l')))
            return [s]
        if e['k'] == 'ctor':
            out = [x for x, _ in self.ctor(s, fr, e, loc)]
        else:
            out = []
            for s2, val in self.ev(s, fr, e):
                if val[0] == 'o':
                    self.copy_obj(s2, loc, val[1])
                else:
                    s2.mem[loc] = val
                self.on_store(s2, fr, loc, val, v)
                out.append(s2)
        for s2 in out:
            self.bind(s2, fr, v, loc)
        return out

    def bind(self, s, fr, v, loc):
        for b in v.get('bind', []):
            l = ('v', b['d'], b['n'], fr.fid)
            fr.env[b['d']] = l
            e = b.get('e')
            if e is not None and e['k'] == 'mem':
                s.mem[l] = ('ref', ('f', loc, e['n']))
            else:
                s.mem[l] = ('ref', ('f', loc, b['n']))

    def ex_ret(self, st, fr, n):
        e = n.get('e')
        if e is None:
            self.on_ret(st, fr, VOID, n)
            return [(st, ('ret', VOID))]
        out = []
        if fr.retref:
            for s, l in self.lv_any(st, fr, e):
                v = self.loc_ptr(l)
                self.on_ret(s, fr, v, n)
                out.append((s, ('ret', v)))
            return out
        for s, v in self.ev(st, fr, e):
            v = self.resolve(s, v)
            if v[0] == 'o' and v[1][0] == 'v':
                t = ('tmp', s.fresh())
                self.copy_obj(s, t, v[1]); v = ('o', t)
            self.on_ret(s, fr, v, n)
            out.append((s, ('ret', v)))
        return out

    def ex_if(self, st, fr, n):
        cur = [st]
        if n.get('i'):
            cur = [s for s, _ in self.ex(st, fr, n['i'])]
        out = []
        for s0 in cur:
            ss = [s0]
            if n.get('cv'):
                ss = [s for s, _ in self.ex(s0, fr, n['cv'])]
            for s in ss:
                for s2, c in self.ev(s, fr, n['c']):
                    for s3, b in self.branch(s2, fr, c, n):
                        br = n['x'] if b else n['y']
                        if br is None:
                            out.append((s3, None))
                        else:
                            out += self.ex(s3, fr, br)
        return out

    def assigned(self, n, acc):
        """declaration ids assigned inside node"""
        if isinstance(n, dict):
            k = n.get('k')
            if k == 'bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
                x = n['x']
                if x['k'] == 'ref':
                    acc.add(x['d'])
            elif k == 'un' and n['op'] in ('++', '--', 'p++', 'p--'):
                if n['a']['k'] == 'ref':
                    acc.add(n['a']['d'])
            elif k == 'call' and n.get('op') in ('=', '++', '--', '+=', '-=', '|=', '&='):
                if n.get('o', {}).get('k') == 'ref':
                    acc.add(n['o']['d'])
            for v in n.values():
                if isinstance(v, (dict, list)):
                    self.assigned(v, acc)
        elif isinstance(n, list):
            for v in n:
                self.assigned(v, acc)
        return acc

    def ex_loop(self, st, fr, n):
        k = n['k']
        cur = [st]
        if k == 'for' and n.get('i'):
            cur = [s for s, _ in self.ex(st, fr, n['i'])]
        return self.loop(cur, fr, n, n.get('c'), n['b'], n.get('n'), dowhile=(k == 'do'))

    def loop(self, cur, fr, n, cond, body, inc, dowhile=False, pre=None):
        out = []
        work = [(s, 0, 0) for s in cur]
        asg = None
        while work:
            s, it, unk = work.pop()
            if dowhile and it == 0:
                entered = [s]
            else:
                entered = []
                ss = [s]
                if n.get('cv'):
                    ss = [x for x, _ in self.ex(s, fr, n['cv'])]
                for s1 in ss:
                    if cond is None:
                        cs = [(s1, ONE)]
                    else:
                        cs = self.ev(s1, fr, cond)
                    for s2, c in cs:
                        r = self.truth(s2, c)
                        if r is None:
                            if unk >= self.loop_bound:
                                if asg is None:
                                    asg = self.assigned([body, inc, cond], set())
                                for d in asg:
                                    l = fr.lookup(d)
                                    if l is not None:
                                        tgt = l
                                        v = s2.mem.get(l)
                                        if v is not None and v[0] == 'ref':
                                            tgt = v[1]
                                        self.clear_obj(s2, tgt)
                                        s2.mem[tgt] = ('s', ('loop', d, s2.fresh()))
                                out.append((s2, None))
                                continue
                            for s3, b in self.branch(s2, fr, c, n):
                                if b:
                                    entered.append((s3, unk + 1))
                                else:
                                    out.append((s3, None))
                        elif r:
                            entered.append((s2, unk))
                        else:
                            out.append((s2, None))
                entered = [x if isinstance(x, tuple) else (x, unk) for x in entered]
            if it > self.concrete_loop_bound:
                continue
            for e in entered:
                e, u = e if isinstance(e, tuple) else (e, unk)
                for s2, sig in self.ex_body(e, fr, body, it, pre):
                    if sig == 'break':
                        out.append((s2, None))
                    elif sig is None or sig == 'continue':
                        if inc is not None:
                            for s3, _ in self.ev_stmt(s2, fr, inc):
                                work.append((s3, it + 1, u))
                        else:
                            if cond is None and it >= 8:
                                continue
                            work.append((s2, it + 1, u))
                    else:
                        out.append((s2, sig))
        return out

    def ex_body(self, st, fr, body, it, pre):
        if pre is not None:
            res = []
            for s in pre(st):
                res += self.ex(s, fr, body)
            return res
        return self.ex(st, fr, body)

    def ex_rfor(self, st, fr, n):
        # generic: interpret __range/__begin/__end through the container's own functions
        m = self.range_model(st, fr, n)
        if m is not None:
            return m
        cur = [st]
        for key in ('rs', 'bs', 'es'):
            cur = [s2 for s in cur for s2, _ in self.ex(s, fr, n[key])]
        return self.loop(cur, fr, n, n['c'], n['b'], n['n'], pre=lambda s: self.declare(s, fr, n['v']))

    def range_model(self, st, fr, n):
        return None

    def ex_switch(self, st, fr, n):
        cur = [st]
        if n.get('i'):
            cur = [s for s, _ in self.ex(st, fr, n['i'])]
        if n.get('cv'):
            cur = [s2 for s in cur for s2, _ in self.ex(s, fr, n['cv'])]
        flat = n.get('_flat')
        if flat is None:
            flat = self.flatten_switch(n['b'])
            n['_flat'] = flat
        stmts, labels, default = flat
        out = []
        for s0 in cur:
            for s, c in self.ev(s0, fr, n['c']):
                c = self.resolve(s, c)
                if c[0] == 'i':
                    tgt = labels.get(c[1], default)
                    if tgt is None:
                        out.append((s, None))
                    else:
                        out += self.run_switch(s, fr, stmts, tgt)
                    continue
                groups = {}
                for v, t in labels.items():
                    groups.setdefault(t, set()).add(v)
                d = s.dom.get(c)
                for t, vals in sorted(groups.items()):
                    vs = frozenset(vals)
                    if d is not None:
                        vs = vs & d[1] if d[0] == 'in' else vs - d[1]
                    if t == default:
                        continue
                    if not vs:
                        continue
                    s2 = s.fork()
                    s2.dom[c] = ('in', vs)
                    self.on_switch(s2, fr, c, vs, n)
                    out += self.run_switch(s2, fr, stmts, t)
                    self.tick()
                alln = frozenset(v for v, t in labels.items() if t != default)
                if d is not None and d[0] == 'in':
                    rest = d[1] - alln
                    if not rest:
                        continue
                    s.dom[c] = ('in', rest)
                else:
                    s.dom[c] = ('notin', alln | (d[1] if d else frozenset()))
                self.on_switch(s, fr, c, None, n)
                if default is None:
                    out.append((s, None))
                else:
                    out += self.run_switch(s, fr, stmts, default)
        return out

    def on_switch(self, st, fr, c, vals, n):
        pass

    def run_switch(self, s, fr, stmts, start):
        res = []
        for s2, sig in self.ex_seq(s, fr, stmts[start:]):
            res.append((s2, None if sig == 'break' else sig))
        return res

    def flatten_switch(self, body):
        stmts = []; labels = {}; default = None
        items = body['s'] if body['k'] == 'block' else [body]
        dflt = [None]

        def add(x):
            while x is not None and x['k'] in ('case', 'default'):
                if x['k'] == 'case':
                    v = const_of(x['v'])
                    v2 = const_of(x['v2']) if x.get('v2') else v
                    for i in range(v, v2 + 1):
                        labels[i] = len(stmts)
                else:
                    dflt[0] = len(stmts)
                x = x['s']
            stmts.append(x)
        for x in items:
            add(x)
        return stmts, labels, dflt[0]


class Closure:
    __slots__ = ('frame', 'env', 'ops')

    def __init__(self, frame, env, ops):
        self.frame = frame; self.env = env; self.ops = ops


def const_of(n):
    while n['k'] == 'cast':
        n = n['a']
    if n['k'] == 'int':
        return n['v']
    if n['k'] == 'un' and n['op'] == '-':
        return -const_of(n['a'])
    raise AnalysisError('non-constant case label')


def walk(n):
    """all nodes of a body"""
    if isinstance(n, dict):
        if 'k' in n:
            yield n
        for k, v in n.items():
            if isinstance(v, (dict, list)) and k != '_flat':
                yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)

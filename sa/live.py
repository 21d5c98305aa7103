"""A module as its own constructors and methods build it: the abstract state is produced by propagating constants through Module's real
code (containers, hashing and allocation included), so a check of a module-level service judges the state the service leaves behind."""
from .absint import Interp, State, ZERO, VOID
from .constants import field_of
from .facts import AnalysisError, Undetermined
from .types import MOD, TIV, Terms
from .world import Ops, INSTR

HM = 'spvgentwo::HashMap<'


class LiveInterp(Interp):
    bytes = True
    raw = 'all'
    max_depth = 160
    max_recursion = 14
    distinct_objs = True

    def __init__(self, fx):
        super().__init__(fx)
        self.budget = 60000000
        self.ptrs = {}

    def run(self, fn, this=None, args=None, st=None):
        self.steps = 0
        return super().run(fn, this, args, st)

    def inline(self, fn, fr):
        return not (fn.cls or '').startswith('spvgentwo::Grammar')

    def invoke(self, st, fr, fn, obj, args, n=None, **kw):
        # the hash of a pointer: some number that is the pointer's own
        if fn is not None and fn.name == 'hash' and not fn.cls and len(args) == 1:
            v = self.load(st, args[0][1]) if args[0][0] == 'ref' else args[0]
            if v[0] == 'p':
                k = self.ptrs.setdefault(v[1], len(self.ptrs) + 1)
                h = ('new', 'ph%d' % k)
                st.mem[('f', h, 'value')] = ('i', 0x9E3779B97F4A7C15 * k & 0xffffffffffffffff)
                return [(st, ('o', h))]
        return super().invoke(st, fr, fn, obj, args, n, **kw)

    def model(self, st, fr, n, fn, obj, args):
        nm = n.get('n'); c = n.get('c') or ''
        if c == MOD and nm in ('logError', 'logWarning', 'logInfo', 'logFatal', 'logDebug', 'log'):
            st.emit('log', nm)
            return [(st, args[0] if self.ty(fr, n) == 'bool' else VOID)]
        if c == TIV and fn is not None and n.get('v'):
            # the default implementation of the interface, the one a module uses unless it is given another
            return self.invoke(st, fr, fn, obj, args, n)
        if nm == 'allocate' and c.endswith('Allocator'):
            return [(st, ('p', ('new', 'heap%d' % st.fresh())))]
        if nm == 'deallocate' and c.endswith('Allocator'):
            return [(st, VOID)]
        return None


class Live:
    def __init__(self, fx, ip=None):
        self.fx = fx
        self.ip = ip or LiveInterp(fx)
        self.ops = Ops(fx)
        self.T = Terms(fx)
        self.alloc = ('p', ('obj', 'alloc'))
        self.log = ('p', ('obj', 'logger'))
        self.tiv = ('p', ('obj', 'tiv'))
        self.fields = {}
        self.nil = 0

    def ctor(self):
        c = [f for f in self.fx.by_cls[MOD] if f.d.get('ctor') and len(f.params) == 5 and f.body is not None]
        if len(c) != 1:
            raise AnalysisError('constructor of Module with five parameters: %d' % len(c))
        return c[0]

    def module(self, st=None, name='M'):
        st = st or State()
        for v in (self.alloc, self.log, self.tiv):
            st.facts[('nz', v)] = True
        M = ('obj', name)
        r = self.ip.run(self.ctor(), this=('p', M), args=[self.alloc, ('i', 0), ('i', 0), self.log, self.tiv], st=st)
        if len(r) != 1:
            raise Undetermined('constructor of Module: %d paths' % len(r))
        return r[0][0], M

    def fn(self, cls, name, nargs=None, types=None):
        """the method by name, number of parameters and (parts of) parameter types; templates are not considered"""
        out = []
        for f in self.fx.by_cls.get(cls, []):
            if f.name != name or f.body is None or f.d.get('ta'):
                continue
            if nargs is not None and len(f.params) != nargs:
                continue
            if types is not None and any(t not in f.tu.types[p['t']] for t, p in zip(types, f.params)):
                continue
            out.append(f)
        if len(out) != 1:
            raise AnalysisError('%s::%s: %d candidates' % (cls, name, len(out)))
        return out[0]

    def call(self, st, obj, fn, *args):
        """the single completed path (state, value); None if the only path dereferenced null"""
        r = self.ip.run(fn, this=('p', obj) if obj is not None else None, args=list(args), st=st)
        if len(r) > 1:
            d = [set(map(repr, s.facts.items())) for s, _ in r]
            raise Undetermined('%s: %d paths for a concrete call (%s)' % (fn.q, len(r), sorted(d[0] ^ d[1])[:2]))
        if not r:
            self.nil += 1
            return None
        return r[0]

    # -------------------------------------------------- reading
    def sec(self, M, acc, cls=MOD):
        k = (cls, acc)
        if k not in self.fields:
            self.fields[k] = field_of(self.fx, cls, acc)
        return ('f', M, self.fields[k])

    def list(self, st, L):
        out = []
        p = self.ip.load(st, ('f', L, 'm_pBegin'))
        while p != ZERO:
            if p[0] != 'p' or len(out) > 4000:
                raise Undetermined('list is not concrete: %s' % (p,))
            out.append(('f', p[1], 'm_data'))
            p = self.ip.load(st, ('f', p[1], 'm_pNext'))
        return out

    def map(self, st, M):
        """locations [(key, value)] of the elements of a hash map"""
        b = self.ip.load(st, ('f', M, 'm_pBuckets')); n = self.ip.load(st, ('f', M, 'm_Buckets'))
        if b == ZERO:
            return []
        if n[0] != 'i' or b[0] != 'p':
            raise Undetermined('hash map is not concrete')
        out = []
        for i in range(n[1]):
            for e in self.list(st, self.ip.idx(b[1], ('i', i))):
                out.append((('f', ('f', e, 'kv'), 'key'), ('f', ('f', e, 'kv'), 'value')))
        return out

    def instr(self, st, L):
        op = self.ip.load(st, ('f', L, self.ops.opfield))
        ops = [self.ops.read(st, x) for x in self.list(st, L)]
        return (self.T.opn.get(op[1], str(op[1])) if op[0] == 'i' else str(op), ops)

    def words(self, ops):
        """the string the literal operands spell, None if they do not spell one"""
        b = b''
        for k, v in ops:
            if k != 'lit' or v[0] != 'i':
                return None
            b += (v[1] & 0xffffffff).to_bytes(4, 'little')
        s, z, rest = b.partition(b'\0')
        if not z or len(b) != (len(s) // 4 + 1) * 4 or rest.strip(b'\0'):
            return None
        return s.decode('latin1')

    def cstr(self, st, v, limit=400):
        """the C string a pointer value denotes"""
        if v[0] == 'str':
            return v[1]
        if v[0] != 'p':
            return None
        if v[1][0] == 'strl':
            return v[1][1]
        out = ''
        for i in range(limit):
            c = self.ip.load(st, self.ip.idx(v[1], ('i', i)))
            if c[0] != 'i':
                return None
            if c[1] & 255 == 0:
                return out
            out += chr(c[1] & 255)
        return None

    def set_instr(self, st, L, op, ops, name):
        """make the instruction the module handed out this one"""
        s, locs = self.ops.instr(st, L, self.T.op[op], ops, name)
        return s

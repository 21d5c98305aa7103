"""C28: graphs.  The graph containers are followed through every short history of insertions, connections and removals against a model; control flow and call
graphs are built from functions taken in through the project's reader; expression graphs are evaluated over every small acyclic graph."""
import itertools
from sa.absint import State, VOID, ZERO
from sa.binary import Binaries, BinInterp, FUNC, BB
from sa.facts import AnalysisError
from sa.live import Live, LiveInterp
from sa.report import parallel
from sa.types import MOD

G = 'spvgentwo::Graph<'
N = 'spvgentwo::Node<'
HEAD = '''OpCapability Shader
OpCapability Linkage
OpMemoryModel Logical GLSL450
'''


class GraphInterp(BinInterp):
    def read(self, st, a):
        """the values of a list argument, as it is when the node's function is called"""
        return None if a[0] not in ('ref', 'p', 'o') else [self.load(st, e if not self.edges else ('f', e, 'pTarget')) for e in self.lister(st, a[1])]

    def model(self, st, fr, n, fn, obj, args):
        if n.get('c') == 'vp::Rec' and n.get('n') == 'operator()':
            st.emit('eval', (obj[1], [self.read(st, a) for a in args]))
            return [(st, VOID)]
        return super().model(st, fr, n, fn, obj, args)


class Graphs:
    def __init__(self, fx, rep):
        self.fx = fx; self.rep = rep
        self.ip = GraphInterp(fx); self.ip.max_recursion = 12
        self.B = Binaries(fx, self.ip); self.L = self.B.L
        self.n = 0

    def free(self, name, *types):
        c = [f for f in self.fx.q('vp::' + name) if all(t in f.tu.types[p['t']] for t, p in zip(types, f.params))]
        if len(c) != 1:
            raise AnalysisError('vp::%s: %d candidates' % (name, len(c)))
        return c[0]

    def call(self, st, obj, fn, *args):
        return self.L.call(st, obj, fn, *args)

    def ctor(self, cls, *types):
        c = [f for f in self.fx.by_cls.get(cls, []) if f.d.get('ctor') and f.body is not None and len(f.params) == len(types) and all(t in f.tu.types[p['t']] for t, p in zip(types, f.params))]
        if len(c) != 1:
            raise AnalysisError('constructor of %s: %d candidates' % (cls, len(c)))
        return c[0]

    def ctors(self, prefix, *types):
        """the constructor of the class templates with this prefix (which of its names a function has depends on the compiler)"""
        c = [f for k, l in sorted(self.fx.by_cls.items()) if k.startswith(prefix) for f in l if f.d.get('ctor') and f.body is not None and len(f.params) == len(types)
             and all(t in f.tu.types[p['t']] for t, p in zip(types, f.params))]
        if len({f.id for f in c}) != 1:
            raise AnalysisError('constructor of %s: %d candidates' % (prefix, len(c)))
        return c[0]

    def rec(self, prefix):
        c = sorted(r for r in self.fx.records if r.startswith(prefix))
        if not c:
            raise AnalysisError('no class ' + prefix)
        return c[0]

    def meth(self, cls, name, nargs=None, const=None, ca=None, ma=None):
        c = [f for f in self.fx.by_cls.get(cls, []) if f.name == name and f.body is not None and (nargs is None or len(f.params) == nargs)
             and (const is None or bool(f.d.get('const')) == const) and (not ma or f.d.get('ma'))]
        if len(c) != 1:
            raise AnalysisError('%s::%s: %d candidates' % (cls, name, len(c)))
        return c[0]

    def edges(self, st, node, acc, cls):
        """[(address of the other node, data location)]"""
        f = self.meth(cls, acc, 0, const=True)
        r = self.call(st, node, f)
        if r is None or r[1][0] not in ('ref', 'o', 'p'):
            raise AnalysisError('%s of a node does not give a list' % acc)
        out = []
        for e in self.L.list(r[0], r[1][1]):
            t = self.ip.load(r[0], ('f', e, 'pTarget'))
            out.append((t[1] if t[0] == 'p' else None, ('f', e, 'data')))
        return out

    def data(self, st, node, cls):
        r = self.call(st, node, self.meth(cls, 'data', 0, const=True))
        if r is None or r[1][0] not in ('ref', 'o', 'p'):
            raise AnalysisError('data of a node is not a reference: %s' % (r,))
        return r[1][1]

    def nodes(self, st, g, cls):
        """the nodes by the iterators of the graph"""
        b = self.call(st, g, self.meth(cls, 'begin', 0))
        if b is None:
            raise AnalysisError('begin of a graph fails')
        v = b[1]
        p = self.ip.load(b[0], ('f', v[1], 'm_pEntry')) if v[0] == 'o' else v
        out = []
        while p != ZERO:
            if p[0] != 'p' or len(out) > 500:
                raise AnalysisError('graph is not concrete')
            out.append(('f', p[1], 'm_data'))
            p = self.ip.load(b[0], ('f', p[1], 'm_pNext'))
        return out

    def word(self, st, g, cls, name):
        r = self.call(st, g, self.meth(cls, name, 0))
        return None if r is None else r[1]


# ------------------------------------------------------------------------------------------------ containers
class Plain(Graphs):
    def __init__(self, fx, rep):
        super().__init__(fx, rep)
        self.g = 'spvgentwo::Graph<unsigned int, unsigned int>'; self.nd = 'spvgentwo::Node<unsigned int, unsigned int>'
        for c in (self.g, self.nd):
            if c not in fx.records:
                raise AnalysisError('class %s is not instantiated' % c)
        self.emplace = self.free('emplace', 'unsigned int, unsigned int')
        self.connect = self.free('connect', 'unsigned int, unsigned int')

    def fresh(self, tags):
        st = State()
        st.facts[('nz', self.L.alloc)] = True
        g = ('obj', 'G')
        st, _ = self.call(st, g, self.ctor(self.g, 'IAllocator'), self.L.alloc)
        at = {}
        for t in tags:
            st, v = self.call(st, None, self.emplace, ('ref', g), ('i', t))
            if v[0] != 'p':
                raise AnalysisError('emplace does not give a node')
            at[t] = v[1]
        return st, g, at

    def observe(self, st, g):
        ns = self.nodes(st, g, self.g)
        tag = {n: self.ip.load(st, self.data(st, n, self.nd)) for n in ns}
        tag = {n: v[1] if v[0] == 'i' else repr(v) for n, v in tag.items()}
        out = []
        for n in ns:
            def ed(acc):
                l = []
                for t, d in self.edges(st, n, acc, self.nd):
                    v = self.ip.load(st, d)
                    l.append((tag.get(t, 'a node which is not in the graph'), v[1] if v[0] == 'i' else repr(v)))
                return l
            out.append((tag[n], ed('inputs'), ed('outputs')))
        return out

    def judge(self, st, g, model, key, what):
        want = [(t, [e for e in model['in'][t]], [e for e in model['out'][t]]) for t in model['n']]
        got = self.observe(st, g)
        loc = self.loc
        self.rep.check(got == want, key, loc, 'after %s the graph is %s instead of %s' % (what, self.show(got), self.show(want)))
        r = self.word(st, g, self.g, 'size'), self.word(st, g, self.g, 'empty')
        self.rep.check(r == (('i', len(want)), ('i', 1 if not want else 0)), key + '/size', loc, 'after %s size() and empty() of the graph are %s, %s' % ((what,) + r))
        self.rep.count('graphs compared')

    def show(self, l):
        return '[' + '; '.join('%s in %s out %s' % x for x in l) + ']'

    @staticmethod
    def model(tags):
        return {'n': list(tags), 'in': {t: [] for t in tags}, 'out': {t: [] for t in tags}}

    @staticmethod
    def copy(m):
        return {'n': list(m['n']), 'in': {t: list(v) for t, v in m['in'].items()}, 'out': {t: list(v) for t, v in m['out'].items()}}

    @staticmethod
    def drop(l, t):
        for i, e in enumerate(l):
            if e[0] == t:
                del l[i]
                return

    def step(self, st, g, at, m, op):
        """the history of one more operation (state, model), None if it dereferences null"""
        m = self.copy(m); k = op[0]
        if k == 'connect':
            _, a, b, d = op
            r = self.call(st, None, self.connect, ('p', at[a]), ('p', at[b]), ('i', d))
            m['out'][a].append((b, d)); m['in'][b].append((a, d))
        elif k == 'disconnect':
            _, a, b = op
            r = self.call(st, at[a], self.meth(self.nd, 'disconnect', 1), ('p', at[b]))
            self.drop(m['out'][a], b); self.drop(m['in'][b], a)
        elif k == 'erase':
            a = op[1]
            it = self.iter(st, g, at[a])
            r = self.call(st, g, self.meth(self.g, 'erase', 1), it)
            m['n'].remove(a)
            for t in m['n']:
                m['in'][t] = [e for e in m['in'][t] if e[0] != a]
                m['out'][t] = [e for e in m['out'][t] if e[0] != a]
        elif k == 'remove_input' or k == 'remove_output':
            _, a, b = op
            r = self.call(st, at[a], self.meth(self.nd, k, 1), ('p', at[b]))
            self.drop(m['in' if k == 'remove_input' else 'out'][a], b)
        elif k == 'clear':
            r = self.call(st, g, self.meth(self.g, 'clear', 0))
            m = self.model([])
        return None if r is None else (r[0], m)

    def iter(self, st, g, node):
        self.n += 1
        l = ('new', 'it%d' % self.n)
        e = node[1] if node[0] == 'f' else None
        if e is None:
            raise AnalysisError('node is not in a list entry')
        st.mem[('f', l, 'm_pEntry')] = ('p', e)
        return ('o', l)

    def histories(self, part, parts):
        self.loc = self.connect_loc = self.meth(self.nd, 'disconnect', 1).loc()
        tags = (1, 2, 3)
        pairs = [(a, b) for a in tags for b in tags]
        deep = self.rep.tier == 'thorough'
        i = 0
        for cs in itertools.chain(*[itertools.product(pairs, repeat=k) for k in range(0, 4)]):
            i += 1
            if i % parts != part:
                continue
            if len(cs) == 3 and not deep and not (cs[0] == cs[1] or cs[1] == cs[2] or len({x for c in cs for x in c}) == 2 or (i // parts) % 4 == 0):
                continue
            st, g, at = self.fresh(tags); m = self.model(tags); hist = []
            for d, (a, b) in enumerate(cs):
                r = self.step(st, g, at, m, ('connect', a, b, 10 + d)); hist.append('%d->%d' % (a, b))
                if not self.rep.check(r is not None, 'history/%s/null' % hist, self.loc, 'connecting %s dereferences null' % hist):
                    break
                st, m = r
            else:
                what = 'connecting ' + ', '.join(hist)
                self.judge(st, g, m, 'history/' + what, what)
                used = sorted(set(cs)) + [p for p in pairs if p not in cs][:2]
                for a, b in used:
                    for k in ('disconnect', 'remove_input', 'remove_output'):
                        p, q = (b, a) if k == 'remove_input' else (a, b)
                        self.follow(st, g, at, m, (k, p, q), what)
                for a in tags:
                    self.follow(st, g, at, m, ('erase', a), what, more=[('erase', x) for x in tags if x != a] if len(cs) < 3 or deep else ())
                self.follow(st, g, at, m, ('clear',), what)

    def follow(self, st, g, at, m, op, what, more=()):
        s = st.fork()
        w = '%s, then %s' % (what, ' '.join(map(str, op)))
        r = self.step(s, g, at, m, op)
        if not self.rep.check(r is not None, 'history/' + w + '/null', self.loc, '%s dereferences null' % w):
            return
        self.judge(r[0], g, r[1], 'history/' + w, w)
        self.rep.count('histories')
        for o in more:
            self.follow(r[0], g, at, r[1], o, w)

    def whole(self):
        """first and last node, iteration, erase of nothing, moves of graphs, edges carrying an object"""
        rep = self.rep; self.loc = self.meth(self.g, 'erase', 1).loc()
        st, g, at = self.fresh((1, 2, 3)); m = self.model((1, 2, 3))
        for a, b, d in ((1, 2, 5), (2, 3, 6), (3, 1, 7), (1, 2, 8), (2, 2, 9)):
            st, m = self.step(st, g, at, m, ('connect', a, b, d))
        for const in (False, True):
            for nm, t in (('front', 1), ('back', 3)):
                f = self.meth(self.g, nm, 0, const=const)
                r = self.call(st.fork(), g, f)
                rep.check(r is not None and r[1][1] == at[t], 'whole/%s/%s' % (nm, const), f.loc(), '%s() of a graph of three nodes is not its %s node' % (nm, 'first' if t == 1 else 'last'))
        e = self.call(st.fork(), g, self.meth(self.g, 'end', 0))
        rep.check(e is not None and (e[1][0] != 'o' or self.ip.load(e[0], ('f', e[1][1], 'm_pEntry')) == ZERO), 'whole/end', self.loc, 'end() of a graph is not behind the last node')
        # erase(null) does nothing, erase gives the next node
        s = st.fork(); l = ('new', 'itz'); s.mem[('f', l, 'm_pEntry')] = ZERO
        r = self.call(s, g, self.meth(self.g, 'erase', 1), ('o', l))
        if rep.check(r is not None, 'whole/erase null', self.loc, 'erasing no node dereferences null'):
            self.judge(r[0], g, m, 'whole/erase null/graph', 'erasing no node')
        for t, nx in ((1, 2), (2, 3), (3, None)):
            s = st.fork()
            r = self.call(s, g, self.meth(self.g, 'erase', 1), self.iter(s, g, at[t]))
            if rep.check(r is not None, 'whole/erase %d' % t, self.loc, 'erase dereferences null'):
                v = self.ip.load(r[0], ('f', r[1][1], 'm_pEntry'))
                rep.check(v == (('p', at[nx][1]) if nx else ZERO), 'whole/erase %d/next' % t, self.loc, 'erase of node %d does not give the iterator of the one behind it' % t)
        # moves
        H = ('obj', 'H')
        mc = self.ctor(self.g, '&&')
        r = self.call(st.fork(), H, mc, ('ref', g))
        if rep.check(r is not None, 'move/construct', mc.loc(), 'move construction of a graph dereferences null'):
            self.loc = mc.loc()
            self.judge(r[0], H, m, 'move/construct/target', 'moving it into a new one')
            self.judge(r[0], g, self.model([]), 'move/construct/source', 'being moved from')
            s, b = self.call(r[0], H, self.meth(self.g, 'getAllocator', 0))
            rep.check(b == self.L.alloc, 'move/construct/alloc', mc.loc(), 'a moved graph has another allocator')
        ma = self.meth(self.g, 'operator=', 1, ma=True)
        for full in (False, True):
            s = st.fork()
            s, _ = self.call(s, H, self.ctor(self.g, 'IAllocator'), self.L.alloc)
            if full:
                for t in (8, 9):
                    s, _ = self.call(s, None, self.emplace, ('ref', H), ('i', t))
            r = self.call(s, H, ma, ('ref', g))
            if rep.check(r is not None, 'move/assign/%s' % full, ma.loc(), 'move assignment of a graph dereferences null'):
                rep.check(r[1][0] in ('ref', 'o', 'p') and r[1][1] == H, 'move/assign/%s/result' % full, ma.loc(), 'move assignment of a graph does not give the graph')
                self.loc = ma.loc()
                self.judge(r[0], H, m, 'move/assign/%s/target' % full, 'moving it into another one')
                self.judge(r[0], g, self.model([]), 'move/assign/%s/source' % full, 'being moved from')
        r = self.call(st.fork(), g, ma, ('ref', g))
        if rep.check(r is not None, 'move/self', ma.loc(), 'move assignment of a graph to itself dereferences null'):
            self.judge(r[0], g, m, 'move/self/graph', 'moving it into itself')
        # node without edges: moves take the data along
        for k in ('construct', 'assign'):
            s = st.fork(); A = ('obj', 'A'); Bn = ('obj', 'B')
            nc = self.ctor(self.nd, 'IAllocator')
            s, _ = self.call(s, A, nc, self.L.alloc)
            s, b = self.call(s, A, self.meth(self.nd, 'data', 0, const=False))
            s.mem[b[1]] = ('i', 77)
            s, _ = self.call(s, None, self.connect, ('p', A), ('p', at[1]), ('i', 70))
            f = self.ctor(self.nd, '&&') if k == 'construct' else self.meth(self.nd, 'operator=', 1, ma=True)
            if k == 'assign':
                s, _ = self.call(s, Bn, nc, self.L.alloc)
            r = self.call(s, Bn, f, ('ref', A))
            if rep.check(r is not None, 'move/node/' + k, f.loc(), 'moving a node dereferences null'):
                s = r[0]
                d = self.ip.load(s, self.data(s, Bn, self.nd)); o = self.edges(s, Bn, 'outputs', self.nd)
                rep.check(d == ('i', 77) and [(t, self.ip.load(s, x)) for t, x in o] == [(at[1], ('i', 70))], 'move/node/%s/data' % k, f.loc(), 'a moved node lost its data or edges')
                rep.check(not self.edges(s, A, 'outputs', self.nd), 'move/node/%s/source' % k, f.loc(), 'a node which has been moved from still has edges')
                if k == 'assign':
                    rep.check(r[1][0] in ('ref', 'o', 'p') and r[1][1] == Bn, 'move/node/assign/result', f.loc(), 'move assignment of a node does not give the node')
        # edge data that is handed over by move arrives at both ends
        ng = 'spvgentwo::Graph<unsigned int, spvgentwo::String>'; nn = 'spvgentwo::Node<unsigned int, spvgentwo::String>'
        emplace = self.free('emplace', 'spvgentwo::String'); cm = self.free('connectMoved')
        s = State(); s.facts[('nz', self.L.alloc)] = True
        s, _ = self.call(s, g, self.ctor(ng, 'IAllocator'), self.L.alloc) if self.has(ng) else (None, None)
        ats = []
        for t in (1, 2):
            s, v = self.call(s, None, emplace, ('ref', g), ('i', t)); ats.append(v[1])
        S = ('obj', 'S')
        s, _ = self.call(s, S, self.ctor('spvgentwo::String', 'IAllocator', 'char', ''), self.L.alloc, ('str', 'edge'), ('i', 0))
        r = self.call(s, None, cm, ('p', ats[0]), ('p', ats[1]), ('ref', S))
        cloc = [f for f in self.fx.by_cls.get(nn, []) if f.name == 'connect'][0].loc()
        if rep.check(r is not None, 'edge/object', cloc, 'connecting nodes with an object on the edge dereferences null'):
            s = r[0]
            for i, (a, acc) in enumerate(((ats[0], 'outputs'), (ats[1], 'inputs'))):
                raw = self.L.list(s, ('f', a, 'm_' + acc))
                got = []
                for e in raw:
                    q, c = self.call(s.fork(), ('f', e, 'data'), self.L.fn('spvgentwo::String', 'c_str', 0))
                    got.append((self.ip.load(s, ('f', e, 'pTarget')), self.L.cstr(q, c)))
                rep.check(got == [(('p', ats[1 - i]), 'edge')], 'edge/object/' + acc, cloc, 'an edge made with a string handed over by move is %s among the %s' % ([x[1] for x in got], acc))

    def has(self, cls):
        if not any(f.d.get('ctor') for f in self.fx.by_cls.get(cls, [])):
            raise AnalysisError('class %s is not instantiated' % cls)
        return True


# ------------------------------------------------------------------------------------------------ graphs of functions
TYPES = '''%void = OpTypeVoid
%fn = OpTypeFunction %void
%bool = OpTypeBool
%u = OpTypeInt 32 0
%yes = OpConstantTrue %bool
%k7 = OpConstant %u 7
'''


def blocks(*bs):
    """body of a function: blocks named by number, each with its terminator"""
    out = ''
    for i, t in enumerate(bs):
        out += '%%b%d = OpLabel\n%s\n' % (i, t)
    return '%f = OpFunction %void None %fn\n' + out + 'OpFunctionEnd\n'


CFGS = {
    'one block': ([()], blocks('OpReturn')),
    'unreachable': ([()], blocks('OpUnreachable')),
    'kill': ([()], blocks('OpKill')),
    'chain': ([(1,), (2,), ()], blocks('OpBranch %b1', 'OpBranch %b2', 'OpReturn')),
    'self loop': ([(1,), (1, 2), ()], blocks('OpBranch %b1', 'OpBranchConditional %yes %b1 %b2', 'OpReturn')),
    'entry loops': ([(0, 1), ()], blocks('OpBranchConditional %yes %b0 %b1', 'OpReturn')),
    'back to entry': ([(1,), (0, 2), ()], blocks('OpBranch %b1', 'OpBranchConditional %yes %b0 %b2', 'OpReturn')),
    'only itself': ([(0,)], blocks('OpBranch %b0')),
    'diamond': ([(1, 2), (3,), (3,), ()], blocks('OpBranchConditional %yes %b1 %b2', 'OpBranch %b3', 'OpBranch %b3', 'OpReturn')),
    'same target twice': ([(1, 1), ()], blocks('OpBranchConditional %yes %b1 %b1', 'OpReturn')),
    'weights': ([(2, 1), (2,), ()], blocks('OpBranchConditional %yes %b2 %b1 3 4', 'OpBranch %b2', 'OpReturn')),
    'loop': ([(1,), (2, 4), (3,), (1,), ()], blocks('OpBranch %b1', 'OpLoopMerge %b4 %b3 None\nOpBranchConditional %yes %b2 %b4', 'OpBranch %b3', 'OpBranch %b1', 'OpReturn')),
    'selection merge': ([(1, 2), (2,), ()], blocks('OpSelectionMerge %b2 None\nOpBranchConditional %yes %b1 %b2', 'OpBranch %b2', 'OpReturn')),
    'switch': ([(1, 2, 3), (2,), (3,), ()], blocks('OpSwitch %k7 %b1 0 %b2 5 %b3', 'OpBranch %b2', 'OpBranch %b3', 'OpReturn')),
    'switch default only': ([(1,), ()], blocks('OpSwitch %k7 %b1', 'OpReturn')),
    'switch duplicates': ([(2, 1, 2, 1), (2,), ()], blocks('OpSwitch %k7 %b2 0 %b1 1 %b2 2 %b1', 'OpBranch %b2', 'OpReturn')),
    'not reached': ([(2,), (2,), ()], blocks('OpBranch %b2', 'OpBranch %b2', 'OpReturn')),
    'not reached loop': ([(3,), (2,), (1,), ()], blocks('OpBranch %b3', 'OpBranch %b2', 'OpBranch %b1', 'OpReturn')),
    'backwards order': ([(3,), (), (1,), (2,)], blocks('OpBranch %b3', 'OpReturn', 'OpBranch %b1', 'OpBranch %b2')),
}


class OfFunctions(Graphs):
    def module(self, key, text):
        r = self.B.load(State(), HEAD + text, key)
        if r is None:
            raise AnalysisError('module %s is refused' % key)
        return r

    def functions(self, st, M):
        return self.L.list(st, self.L.sec(M, 'getFunctions')) + self.L.list(st, self.L.sec(M, 'getEntryPoints'))

    def observe(self, st, g, gc, nc, name, dname=None):
        ns = self.nodes(st, g, gc)
        of = {}
        for n in ns:
            v = self.ip.load(st, self.data(st, n, nc))
            of[n] = name.get(v[1] if v[0] == 'p' else None, 'something else')
        ins = []; outs = []
        for n in ns:
            for acc, l in (('inputs', ins), ('outputs', outs)):
                for t, d in self.edges(st, n, acc, nc):
                    e = (of[n], of.get(t, 'no node of the graph'))
                    if acc == 'inputs':
                        e = e[::-1]
                    if dname is not None:
                        v = self.ip.load(st, d)
                        e += (dname.get(v[1] if v[0] == 'p' else None, 'something else'),)
                    l.append(e)
        return [of[n] for n in ns], ins, outs

    def compare(self, key, loc, got, nodes, edges, what):
        gn, gi, go = got
        rep = self.rep
        k = lambda l: sorted(l, key=repr)
        rep.check(k(gn) == k(nodes), key + '/nodes', loc, '%s has the nodes %s instead of %s' % (what, gn, nodes))
        rep.check(k(go) == k(edges), key + '/edges', loc, '%s has the edges %s instead of %s' % (what, k(go), k(edges)))
        rep.check(k(gi) == k(edges), key + '/inputs', loc, '%s has the edges %s among the inputs instead of %s' % (what, k(gi), k(edges)))
        rep.count('graphs of functions')

    def cfg(self, items):
        base = self.rec('spvgentwo::Graph<spvgentwo::BasicBlock *'); nc = self.rec('spvgentwo::Node<spvgentwo::BasicBlock *')
        ctor = self.ctors('spvgentwo::ControlFlowGraph<', 'Function', 'IAllocator'); loc = ctor.loc()
        for key, (succ, text) in items:
            st, M = self.module('cfg ' + key, TYPES + text)
            f, = self.functions(st, M)
            bs = self.L.list(st, f)
            # the same function as read, as the builders leave it (operands naming blocks) and without its last terminator
            for how in ('labels', 'blocks', 'open'):
                s = st.fork(); want = [list(x) for x in succ]
                if how == 'blocks':
                    lab = {self.L.sec(b, 'getLabel', BB): b for b in bs}
                    for b in bs:
                        term = self.L.list(s, b)[-1]
                        op, ops = self.L.instr(s, term)
                        new = [('block', ('p', lab[v[1]])) if k == 'instr' and v[0] == 'p' and v[1] in lab else (k, v) for k, v in ops]
                        if new != ops:
                            self.L.set_instr(s, term, op, new, 'bt%d' % bs.index(b))
                elif how == 'open':
                    if succ[-1]:
                        continue
                    lst = bs[-1]  # the last block is left without its terminator
                    s.mem[('f', lst, 'm_pBegin')] = ZERO; s.mem[('f', lst, 'm_pLast')] = ZERO; s.mem[('f', lst, 'm_Elements')] = ('i', 0)
                for alloc in ((self.L.alloc, ZERO) if how == 'labels' else (ZERO,)):
                    s2 = s.fork(); g = ('obj', 'G')
                    r = self.call(s2, g, ctor, ('ref', f), alloc)
                    k = 'cfg/%s/%s/%s' % (key, how, 'allocator' if alloc != ZERO else '')
                    what = 'control flow graph of a function (%s, %s)' % (key, how)
                    if not self.rep.check(r is not None, k + '/null', loc, what + ': null is dereferenced'):
                        continue
                    got = self.observe(r[0], g, base, nc, {b: i for i, b in enumerate(bs)})
                    self.compare(k, loc, got, list(range(len(bs))), [(i, j) for i, l in enumerate(want) for j in l], what)
                    # in the order of the terminator
                    _, ins, outs = got
                    for i, l in enumerate(want):
                        o = [e[1] for e in outs if e[0] == i]
                        self.rep.check(o == l, k + '/order%d' % i, loc, '%s: the targets of block %d are %s instead of %s, the order of its terminator' % (what, i, o, l))
                        self.rep.count('terminators')

    CALLS = {
        'leaf': {'a': ''},
        'chain': {'a': 'b', 'b': 'c', 'c': ''},
        'twice': {'a': 'bb', 'b': ''},
        'diamond': {'a': 'bc', 'b': 'd', 'c': 'd', 'd': ''},
        'self': {'a': 'a'},
        'self and other': {'a': 'aba', 'b': ''},
        'mutual': {'a': 'b', 'b': 'a'},
        'mutual through': {'a': 'b', 'b': 'c', 'c': 'ab', 'd': 'a'},
        'separate': {'a': 'b', 'b': '', 'c': 'd', 'd': ''},
        'callers are left out': {'a': '', 'b': 'a', 'c': 'ba'},
        'fan': {'a': 'bcdbcd', 'b': 'd', 'c': 'c', 'd': ''},
        'later first': {'d': '', 'c': 'd', 'b': 'dc', 'a': 'cbd'},
    }

    def calls(self, items):
        gc = 'spvgentwo::FunctionCallGraph'; base = self.rec('spvgentwo::Graph<spvgentwo::Function *'); nc = self.rec('spvgentwo::Node<spvgentwo::Function *')
        ctor = self.ctor(gc, 'Function', 'IAllocator'); loc = self.meth(gc, 'add', 1).loc() if any(f.name == 'add' for f in self.fx.by_cls.get(gc, [])) else ctor.loc()
        for key, g in items:
            for form in ('functions', 'entry point', 'blocks'):
                names = list(g); text = TYPES
                head = ''
                first = sorted(names)[0]
                if form == 'entry point':
                    if any(first in v for v in g.values()):
                        continue
                    head = 'OpEntryPoint GLCompute %%%s "%s"\n' % (first, first)
                for f in names:
                    text += '%%%s = OpFunction %%void None %%fn\n%%%s0 = OpLabel\n' % (f, f)
                    for i, c in enumerate(g[f]):
                        text += '%%%s_%d = OpFunctionCall %%void %%%s\n' % (f, i, c)
                        if form == 'blocks':
                            text += 'OpBranch %%%s%d\n%%%s%d = OpLabel\n' % (f, i + 1, f, i + 1)
                    text += 'OpReturn\nOpFunctionEnd\n'
                st, M = self.module('calls %s %s' % (key, form), head + text)
                fs = self.functions(st, M)
                ids = self.B.ids['calls %s %s' % (key, form)]
                name = {}; call = {}; at = {}
                byid = {v: k for k, v in ids.items()}
                for f in fs:
                    for x in self.B.func(st, f):
                        op, ops = self.L.instr(st, x)
                        if op in ('OpFunction', 'OpFunctionCall'):
                            i = [v for k, v in ops if k == 'id'][0][1]
                            n = byid[i].lstrip('%')
                            if op == 'OpFunction':
                                name[f] = n; at[n] = f
                            else:
                                call[x] = n
                if sorted(name.values()) != sorted(names):
                    raise AnalysisError('functions of the module: %s' % sorted(name.values()))
                for root in names:
                    reach = []; todo = [root]
                    while todo:
                        x = todo.pop()
                        if x not in reach:
                            reach.append(x); todo += list(g[x])
                    edges = [(x, c, '%s_%d' % (x, i)) for x in reach for i, c in enumerate(g[x])]
                    s = st.fork(); G_ = ('obj', 'G')
                    r = self.call(s, G_, ctor, ('ref', at[root]), ZERO)
                    k = 'calls/%s/%s/%s' % (key, form, root); what = 'call graph of %s (%s, %s)' % (root, key, form)
                    if self.rep.check(r is not None, k + '/null', loc, what + ': null is dereferenced'):
                        self.compare(k, loc, self.observe(r[0], G_, base, nc, name, call), reach, edges, what)
                        self.rep.count('call edges', len(edges))


# ------------------------------------------------------------------------------------------------ graphs of expressions
class Expressions(Graphs):
    def __init__(self, fx, rep):
        super().__init__(fx, rep)
        self.ip.lister = self.L.list; self.ip.edges = False
        self.g = self.rec('spvgentwo::ExprGraph<vp::Rec'); self.base = self.rec('spvgentwo::Graph<spvgentwo::Expression<vp::Rec'); self.nd = self.rec('spvgentwo::Node<spvgentwo::Expression<vp::Rec')
        self.ex = self.rec('spvgentwo::Expression<vp::Rec')
        self.emplace = self.free('emplace', 'Expr'); self.connect = self.free('connect', 'Expression')
        self.recursive = {False: self.free('recursiveLists'), True: self.free('recursiveEdges')}
        self.explicit = {False: self.free('explicitLists'), True: self.free('explicitEdges')}
        self.add = self.free('add')
        self.loc = self.meth(self.g, 'resetEvaluationState', 0).loc()
        ev = [f for f in fx.fns.values() if f.name == 'evaluateRecursive' and f.body is not None]
        ee = [f for f in fx.fns.values() if f.name == 'evaluateExplicit' and f.body is not None]
        if not ev or not ee:
            raise AnalysisError('evaluateRecursive or evaluateExplicit is not instantiated')
        self.rloc = ev[0].loc(); self.eloc = ee[0].loc()

    def graph(self, n, edges):
        st = State(); st.facts[('nz', self.L.alloc)] = True
        g = ('obj', 'G')
        st, _ = self.call(st, g, self.ctor(self.base, 'IAllocator'), self.L.alloc)
        at = []
        for i in range(n):
            st, v = self.call(st, None, self.emplace, ('ref', g), ('i', i)); at.append(v[1])
        for a, b in edges:
            st, _ = self.call(st, None, self.connect, ('p', at[a]), ('p', at[b]))
        # where the function object of a node is
        rec = {}
        for i, a in enumerate(at):
            r = self.call(st.fork(), self.data(st, a, self.nd), self.meth(self.ex, 'get', 0, const=True))
            rec[r[1][1]] = i
        return st, g, at, rec

    def done(self, st, at):
        out = set()
        for i, a in enumerate(at):
            r = self.call(st.fork(), self.data(st, a, self.nd), self.meth(self.ex, 'evaluated', 0))
            if r is None or r[1] not in (ZERO, ('i', 1)):
                raise AnalysisError('evaluated() of a node is not concrete')
            if r[1] != ZERO:
                out.add(i)
        return out

    def runs(self, st, at, rec, seen):
        """the calls of node functions since the state had `seen` of them: [(node, inputs, outputs)]"""
        out = []
        names = {('p', a): i for a, i in (rec if not self.ip.edges else {a: i for i, a in enumerate(at)}).items()}
        for e in [e for e in st.events() if e[0] == 'eval'][seen:]:
            obj, args = e[1] if len(e) == 2 else e[1:]
            out.append((rec.get(obj, 'something else'),) + tuple([names.get(v, 'something else') for v in (a or [])] for a in args))
        return out

    def nruns(self, st):
        return sum(1 for e in st.events() if e[0] == 'eval')

    def order(self, key, loc, runs, want, edges, what):
        """each of `want` once, behind those of its inputs that are run too, with its inputs and outputs in the order they were connected"""
        rep = self.rep
        ins = lambda x: [a for a, b in edges if b == x]; outs = lambda x: [b for a, b in edges if a == x]
        got = [x[0] for x in runs]
        if not rep.check(sorted(map(repr, got)) == sorted(map(repr, want)), key + '/set', loc, '%s calls the functions of the nodes %s instead of each of %s once' % (what, got, sorted(want))):
            return
        for i, x in enumerate(got):
            late = [y for y in ins(x) if y in got[i + 1:]]
            rep.check(not late, key + '/order', loc, '%s calls node %s before its input %s' % (what, x, late))
        for x in runs:
            rep.check(list(x[1:]) == [ins(x[0]), outs(x[0])], key + '/args', loc, '%s: the function of node %s gets the inputs %s and the outputs %s instead of %s, %s' % ((what,) + tuple(x[:1]) + (list(x[1:])[0] if len(x) > 1 else None, list(x[2:])[0] if len(x) > 2 else None) + (ins(x[0]), outs(x[0]))))
            rep.count('evaluations')

    def needs(self, x, edges, have):
        out = set(); todo = [x]
        while todo:
            y = todo.pop()
            if y in out or y in have:
                continue
            out.add(y); todo += [a for a, b in edges if b == y]
        return out

    def shapes(self, deep):
        pairs = [(i, j) for j in range(4) for i in range(j)]
        for k in range(len(pairs) + 1):
            for es in itertools.combinations(pairs, k):
                yield 4, list(es)
                if len(es) > 1:
                    yield 4, list(es)[::-1]
        yield 2, [(0, 1), (0, 1)]
        yield 2, [(1, 0)]
        yield 3, [(2, 1), (1, 0), (2, 0), (2, 1)]
        yield 3, [(0, 2), (1, 2), (0, 2)]
        if deep:
            for es in itertools.combinations(pairs, 3):
                for o in itertools.permutations(es):
                    yield 4, [(3 - i, 3 - j) for i, j in o]

    def recursion(self, part, parts):
        rep = self.rep
        for c, (n, edges) in enumerate(self.shapes(rep.tier == 'thorough')):
            if c % parts != part:
                continue
            st0, g, at, rec = self.graph(n, edges)
            for mode in (False, True):
                self.ip.edges = mode
                fn = self.recursive[mode]; loc = self.rloc
                for x in range(n):
                    key = 'expr/%s/%s/%s' % (edges, mode, x); what = 'evaluating node %d of the graph %s (%s)' % (x, edges, 'edges' if mode else 'functions')
                    r = self.call(st0.fork(), None, fn, ('p', at[x]))
                    if not rep.check(r is not None, key + '/null', loc, what + ' dereferences null'):
                        continue
                    s = r[0]; have = self.needs(x, edges, ())
                    self.order(key, loc, self.runs(s, at, rec, 0), have, edges, what)
                    rep.check(self.done(s, at) == have, key + '/done', loc, '%s leaves %s marked as evaluated instead of %s' % (what, self.done(s, at), have))
                    # another node behind it: only what is missing
                    for y in range(n):
                        k = self.nruns(s)
                        r = self.call(s.fork(), None, fn, ('p', at[y]))
                        if rep.check(r is not None, key + '/then%d/null' % y, loc, '%s, then %d dereferences null' % (what, y)):
                            self.order(key + '/then%d' % y, loc, self.runs(r[0], at, rec, k), self.needs(y, edges, have), edges, '%s, then %d' % (what, y))
                    # reset: everything again
                    k = self.nruns(s)
                    r = self.call(s.fork(), g, self.meth(self.g, 'resetEvaluationState', 0))
                    if rep.check(r is not None and not self.done(r[0], at), key + '/reset', self.loc, 'resetting the evaluation of the graph %s leaves %s evaluated' % (edges, r and self.done(r[0], at))):
                        r = self.call(r[0], None, fn, ('p', at[x]))
                        if rep.check(r is not None, key + '/again/null', loc, what + ' again dereferences null'):
                            self.order(key + '/again', loc, self.runs(r[0], at, rec, k), have, edges, what + ' again after a reset')
                    rep.count('roots')

    def explicit_orders(self):
        rep = self.rep; n = 3
        for edges in ([], [(0, 1), (1, 2)], [(0, 2), (1, 2)], [(2, 0), (0, 1), (2, 1), (2, 1)]):
            st0, g, at, rec = self.graph(n, edges)
            for mode in (False, True):
                self.ip.edges = mode
                fn = self.explicit[mode]; loc = self.eloc
                for seq in itertools.chain(*[itertools.product(range(n), repeat=k) for k in range(4)]):
                    key = 'explicit/%s/%s/%s' % (edges, mode, seq); what = 'evaluating the nodes %s of the graph %s in this order (%s)' % (list(seq), edges, 'edges' if mode else 'functions')
                    s = st0.fork(); l = ('obj', 'order')
                    s, _ = self.order_list(s, l)
                    for x in seq:
                        s, _ = self.call(s, None, self.add, ('ref', l), ('p', at[x]))
                    r = self.call(s, None, fn, ('ref', l))
                    if not rep.check(r is not None, key + '/null', loc, what + ' dereferences null'):
                        continue
                    good = []
                    for x in seq:
                        if x in good:
                            break
                        good.append(x)
                    ok = len(good) == len(seq)
                    rep.check(r[1] == ('i', int(ok)), key + '/result', loc, '%s gives %s%s' % (what, r[1][1], '' if ok else ' although node %d is there twice' % seq[len(good)]))
                    runs = self.runs(r[0], at, rec, 0)
                    want = [(x, [a for a, b in edges if b == x], [b for a, b in edges if a == x]) for x in good]
                    rep.check(runs == want, key + '/runs', loc, '%s calls %s instead of %s' % (what, runs, want))
                    rep.count('explicit orders'); rep.count('evaluations', len(good))

    def order_list(self, st, l):
        c = [f for k, fs in sorted(self.fx.by_cls.items()) if k.startswith('spvgentwo::List<spvgentwo::Node<spvgentwo::Expression<vp::Rec') and '*' in k for f in fs if f.d.get('ctor') and len(f.params) == 1 and 'IAllocator' in f.tu.types[f.params[0]['t']]]
        if not c:
            raise AnalysisError('no constructor of a list of nodes')
        return self.call(st, l, c[0], self.L.alloc)


def check(fx, rep):
    rep.rule('After every short history of emplacing, connecting, disconnecting, erasing and clearing, the nodes, the inputs and the outputs of a graph are those of a model: each connection is one edge at both ends, '
             'carrying its data, in the order they were made, and removing a node removes the edges at its neighbours; moved graphs and nodes keep their contents.')
    rep.rule('The control flow graph of a function has one node for each block and one edge for each target of its terminator, in their order; the call graph of a function has one node for each function reached by calls and one edge, carrying the call, for each call.')
    rep.rule('Evaluating a node of an expression graph calls each missing function it depends on once, behind those of its inputs, with its inputs and outputs in the order they were connected; an explicit order runs as given and stops at a repeat; a reset makes everything run again.')
    if fx.q('vp::emplace') == []:
        raise AnalysisError('graphs are not instantiated')
    H = 5 if rep.tier == 'quick' else 8
    cf = sorted(CFGS.items()); ca = sorted(OfFunctions.CALLS.items())
    parts = [lambda r: Plain(fx, r).whole(), lambda r: Expressions(fx, r).explicit_orders()]
    parts += [lambda r, i=i: Plain(fx, r).histories(i, H) for i in range(H)]
    parts += [lambda r, i=i: Expressions(fx, r).recursion(i, 4) for i in range(4)]
    parts += [lambda r, i=i: OfFunctions(fx, r).cfg(cf[i::4]) for i in range(4)]
    parts += [lambda r, i=i: OfFunctions(fx, r).calls(ca[i::4]) for i in range(4)]
    parallel(rep, parts)
    for what, least in (('graphs compared', 3000), ('histories', 2000), ('graphs of functions', 150), ('terminators', 150), ('call edges', 120), ('evaluations', 3000), ('roots', 500), ('explicit orders', 300)):
        rep.need(what, rep.counts.get(what, 0), least)
    rep.sample('%d histories of connections among three nodes, each followed by one disconnect, removal of an edge, erase (up to two) or clear' % rep.counts.get('histories', 0))
    rep.sample('control flow: ' + ', '.join(k for k, _ in cf)); rep.sample('call graphs: ' + ', '.join(k for k, _ in ca))
    rep.sample('expression graphs: every acyclic graph of four nodes, forwards and backwards connected, from every node and a second one behind it')

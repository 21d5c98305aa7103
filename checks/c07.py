"""C07: types and constants survive the way into instructions and back.

The module's own code (addType, addConstant, constant<T>, type<T>, compositeType, reconstructTypeAndConstantInfo) is propagated over a finite
domain of types and constants; the instructions it leaves in the module are decoded by an independent reading of the specification's operand
layouts and have to denote the same type / constant, and the maps rebuilt from these instructions have to answer with the same terms."""
from sa import shape, spec
from sa.absint import ZERO, VOID
from sa.constants import ModTypes, CONST
from sa.facts import AnalysisError
from sa.types import MOD, TYPE
from sa.world import INSTR

N32 = 0xffffffff


class Decode:
    """instructions of the types-and-constants section, by the operand layouts of the specification"""
    def __init__(self, W):
        self.W = W; self.T = W.T
        g = spec.core()
        self.nullary = {n for n, i in g.insts.items() if n.startswith('OpType') and [o['kind'] for o in i.get('operands', [])] == ['IdResult']}

    def run(self, lst):
        """({location: term}, problem)"""
        out = {}
        for L, op, ops in lst:
            try:
                out[L] = self.one(op, ops, out)
            except ValueError as e:
                return out, '%s: %s' % (op, e)
        return out, None

    def take(self, ops, i, kind):
        if i >= len(ops):
            raise ValueError('operand %d is missing' % i)
        k, v = ops[i]
        if k != kind:
            raise ValueError('operand %d is %s instead of %s' % (i, {'instr': 'an instruction', 'lit': 'a literal', 'id': 'an id', 'block': 'a block'}.get(k, 'nothing'), kind))
        return v

    def ref(self, ops, i, out, what):
        v = self.take(ops, i, 'instr')
        if v[0] != 'p' or v[1] not in out:
            raise ValueError('operand %d is not defined before its use' % i)
        x = out[v[1]]
        if x[0] != what:
            raise ValueError('operand %d is not a %s' % (i, what))
        return x[1]

    def lit(self, ops, i):
        v = self.take(ops, i, 'lit')
        return v[1] & N32 if v[0] == 'i' else v

    def one(self, op, ops, out):
        T = self.T
        if op.startswith('OpType'):
            n = 1
            if op == 'OpTypeForwardPointer':
                n = 2
                r = T.mk(op, subs=(self.ref(ops, 0, out, 'type'),)); r = self.put(r, 3, self.lit(ops, 1))
            else:
                self.take(ops, 0, 'id')
                r = None
            if op == 'OpTypeInt':
                r = T.mk(op, self.lit(ops, 1), self.lit(ops, 2)); n = 3
            elif op == 'OpTypeFloat':
                r = T.mk(op, self.lit(ops, 1)); n = 2
            elif op in ('OpTypeVector', 'OpTypeMatrix'):
                r = T.mk(op, self.lit(ops, 2), subs=(self.ref(ops, 1, out, 'type'),)); n = 3
            elif op == 'OpTypePointer':
                r = self.put(T.mk(op, subs=(self.ref(ops, 2, out, 'type'),)), 3, self.lit(ops, 1)); n = 3
            elif op in ('OpTypeStruct', 'OpTypeFunction'):
                n = len(ops)
                r = T.mk(op, subs=tuple(self.ref(ops, i, out, 'type') for i in range(1, n)))
            elif op in ('OpTypeRuntimeArray', 'OpTypeSampledImage', 'OpTypeVmeImageINTEL'):
                r = T.mk(op, subs=(self.ref(ops, 1, out, 'type'),)); n = 2
            elif op == 'OpTypeArray':
                c = self.ref(ops, 2, out, 'const'); n = 3
                if c[0] not in ('OpConstant', 'OpSpecConstant') or T.opn[c[1][0]] != 'OpTypeInt':
                    raise ValueError('length is not an integer constant')
                r = T.mk(op, c[2][0], subs=(self.ref(ops, 1, out, 'type'),))
            elif op == 'OpTypeImage':
                v = [self.lit(ops, i) for i in range(2, 8)]
                q = self.lit(ops, 8) if len(ops) > 8 else T.aq['Max']
                n = 9 if len(ops) > 8 else 8
                r = (T.op[op], v[1], 0, T.DEF[3], v[0], v[2], v[3], v[4], v[5], q, (self.ref(ops, 1, out, 'type'),))
            elif op == 'OpTypePipe':
                r = self.put(T.mk(op), 9, self.lit(ops, 1)); n = 2
            elif r is None:
                if op not in self.nullary:
                    raise ValueError('not a type this check knows')
                r = T.mk(op)
            if len(ops) != n:
                raise ValueError('%d operands instead of %d' % (len(ops), n))
            return ('type', r)
        if 'Constant' in op:
            t = self.ref(ops, 0, out, 'type')
            self.take(ops, 1, 'id')
            data = (); comps = ()
            if op.endswith('Composite'):
                comps = tuple(self.ref(ops, i, out, 'const') for i in range(2, len(ops)))
            elif op.endswith(('True', 'False', 'Null')):
                if len(ops) != 2:
                    raise ValueError('%d operands instead of 2' % len(ops))
            else:
                data = tuple(self.lit(ops, i) for i in range(2, len(ops)))
            return ('const', (op, t, data, comps))
        raise ValueError('is not a type or constant')

    @staticmethod
    def put(t, i, v):
        return t[:i] + (v,) + t[i + 1:]


def closure(T, t, out):
    """types and array lengths a module needs for t"""
    for s in t[10]:
        closure(T, s, out)
    if T.opn[t[0]] == 'OpTypeArray':
        u = T.uint(); out.add(('type', u)); out.add(('const', ('OpConstant', u, (t[1],), ())))
    out.add(('type', t))
    return out


def cclosure(T, c, out):
    for x in c[3]:
        cclosure(T, x, out)
    closure(T, c[1], out)
    out.add(('const', plain(c)))
    return out


def plain(c):
    """what an instruction carries of a constant: booleans have no data words"""
    op, t, data, comps = c
    return (op, t, () if op.endswith(('True', 'False')) else tuple(w[1] & N32 if isinstance(w, tuple) and w[0] == 'i' else w for w in data), tuple(plain(x) for x in comps))


def domain(T, d):
    i32, u32, f32, b = T.int(), T.uint(), T.flt(), T.bool()
    D = [T.void(), b] + [T.int(w, s) for w in (8, 16, 32, 64) for s in (0, 1)] + [T.flt(w) for w in (16, 32, 64)]
    D += [T.vec(n, t) for n in (2, 3, 4) for t in (f32, i32, u32, b)] + [T.vec(2, T.flt(64)), T.vec(16, T.flt(16))]
    D += [T.mat(c, r, f32) for c in (2, 3, 4) for r in (2, 3, 4)] + [T.mat(3, 2, T.flt(64))]
    D += [T.array(n, t) for n in (1, 4, 65535, 4000000000) for t in (f32, T.vec(3, f32))] + [T.array(2, T.array(3, T.array(2, i32))), T.rtarray(f32), T.rtarray(T.array(4, T.vec(4, f32)))]
    A, B, C = f32, i32, T.vec(2, f32)
    D += [T.struct(), T.struct(A), T.struct(A, B), T.struct(B, A), T.struct(A, A, B), T.struct(T.struct(A), B), T.struct(T.struct(A, B)), T.struct(A, T.struct(B)), T.struct(T.struct(T.struct(A), B)),
          T.struct(C, T.mat(4, 4, f32), T.array(7, T.struct(A, B)), T.rtarray(u32))]
    D += [T.ptr(sc, t) for sc in T.sc if sc != 'Max' for t in (f32,)] + [T.ptr('Function', T.vec(4, f32)), T.ptr('Uniform', T.struct(A, T.array(3, B))), T.ptr('Function', T.ptr('Uniform', T.struct(A)))]
    D += [T.fptr('PhysicalStorageBufferEXT' if 'PhysicalStorageBufferEXT' in T.sc else 'Function', T.ptr('Function', T.struct(A))), T.fptr('Generic', T.ptr('Generic', f32))]
    D += [T.fn(T.void()), T.fn(f32, f32), T.fn(f32, f32, f32), T.fn(T.void(), T.ptr('Function', f32), T.array(2, f32))]
    I = [T.image(f32), T.image(i32), T.image(T.void())] + [T.image(f32, dim=k) for k in T.dim if k != 'Max'] + [T.image(f32, depth=k) for k in (0, 2)] + [T.image(f32, array=1), T.image(f32, ms=1)]
    I += [T.image(f32, access=k) for k in T.acc] + [T.image(f32, fmt=k) for k in T.fmt if k != 'Max'] + [T.image(f32, qual=k) for k in T.aq if k != 'Max']
    I += [T.image(u32, dim='Cube', depth=0, array=1, ms=1, access='Sampled' if 'Sampled' in T.acc else 'Unknown', fmt='R32ui', qual='WriteOnly')]
    D += I + [T.simage(I[0]), T.simage(I[-1]), T.simage(T.image(f32, dim='Dim3D', depth=0))]
    D += [T.mk('OpTypePipe', qual=T.aq[k]) for k in T.aq if k != 'Max']
    D += [T.mk(n) for n in sorted(d.nullary) if n in T.op and n not in ('OpTypeVoid', 'OpTypeBool')]
    D += [T.mk('OpTypeVmeImageINTEL', subs=(I[0],))] if 'OpTypeVmeImageINTEL' in T.op else []
    out = []
    for t in D:
        if t not in out:
            out.append(t)
    return out


class Check:
    def __init__(self, fx, rep):
        self.fx = fx; self.rep = rep
        self.W = ModTypes(fx); self.T = self.W.T
        self.D = Decode(self.W)

    def show(self, x):
        T = self.T
        if x[0] == 'type':
            return T.show(x[1])
        if x[0] == 'const':
            x = x[1]
        return '%s %s %s' % (x[0], T.show(x[1]), list(x[2]) or [self.show(c) for c in x[3]] or '')

    def logs(self, s):
        return [e[1] for e in s.events() if e[0] == 'log' and e[1] in ('logError', 'logFatal')]

    def content(self, s, want, key, loc, what):
        """the module's list denotes exactly the wanted types and constants, each once"""
        rep = self.rep
        out, why = self.D.run(self.W.listed(s))
        if not rep.check(why is None, key + '/decode', loc, '%s leaves instructions that do not read as types: %s' % (what, why)):
            return None
        got = list(out.values())
        miss = [x for x in want if x not in got]; extra = [x for x in got if x not in want]
        dup = [x for i, x in enumerate(got) if x in got[:i] and not (x[0] == 'const' and x[1][0].startswith('OpSpec'))]
        rep.check(not miss, key + '/missing', loc, '%s: no instruction for %s (found instead: %s)' % (what, [self.show(x) for x in miss], [self.show(x) for x in extra]))
        rep.check(not extra, key + '/extra', loc, '%s: unexpected instruction for %s' % (what, [self.show(x) for x in extra]))
        rep.check(not dup, key + '/twice', loc, '%s: more than one instruction for %s' % (what, [self.show(x) for x in dup]))
        return out

    # ------------------------------------------------------------ types
    def add(self, st, t, name=ZERO):
        L = ('obj', 'arg%d' % st.fresh())
        self.W.put_at(st, L, t, 'arg%d' % st.fresh())
        return self.W.one(self.W.addType, st, [('ref', L), name], 'Module::addType')

    def type_info(self, s, L):
        r = self.W.one(self.W.getTypeInfo, s.fork(), [('p', L)], 'Module::getTypeInfo')
        if r is None or r[1][0] != 'p':
            return None
        return self.W.read(r[0], r[1][1])

    def const_info(self, s, L):
        r = self.W.one(self.W.getConstantInfo, s.fork(), [('p', L)], 'Module::getConstantInfo')
        if r is None or r[1][0] != 'p':
            return None
        return self.W.read_const(r[0], r[1][1])

    def types(self):
        W, T, rep = self.W, self.T, self.rep
        f = W.addType; loc = f.loc()
        dom = domain(T, self.D)
        rep.need('types of the domain', len(dom), 100)
        good = []
        for t in dom:
            k = 'addType/' + T.show(t); what = 'addType(%s)' % T.show(t)
            st = W.fresh()
            nm = ('p', ('strl', 'n'))
            r = self.add(st, t, nm)
            if not rep.check(r is not None, k, loc, '%s does not return (null is dereferenced)' % what):
                continue
            s, v = r
            if self.logs(s) and T.opn[t[0]] in self.D.nullary:
                rep.count('type opcodes reported as not supported'); continue
            if not rep.check(not self.logs(s), k + '/log', loc, '%s is refused' % what):
                continue
            out = self.content(s, closure(T, t, set()), k, loc, what)
            if out is None:
                continue
            ok = rep.check(v[0] == 'p' and out.get(v[1]) == ('type', t), k + '/result', loc, '%s returns the instruction of another type' % what)
            if not ok:
                continue
            names = [e for e in s.events() if e[0] == 'name']
            rep.check(any(e[1] == v for e in names), k + '/name', loc, '%s: the name given with the type is not added' % what)
            rep.check(all(e[1] == v for e in names), k + '/names', loc, '%s: the name given with the type is added to another one, too' % what)
            for L, x in out.items():
                if x[0] == 'type':
                    rep.check(self.type_info(s, L) == x[1], k + '/info', loc, '%s: getTypeInfo answers %s for the instruction of %s' % (what, T.show(self.type_info(s, L)), T.show(x[1])))
                else:
                    c = self.const_info(s, L)
                    rep.check(c is not None and plain(c) == x[1], k + '/cinfo', loc, '%s: getConstantInfo does not know the array length' % what)
            n = len(out)
            r2 = self.add(s.fork(), t)
            rep.check(r2 is not None and r2[1] == v and len(W.listed(r2[0])) == n, k + '/again', loc, '%s a second time creates another instruction' % what)
            good.append(t)
            rep.ok()
        rep.count('types taken through addType', len(good))
        # all of them in one module, then back
        st = W.fresh(); want = set()
        for t in good:
            r = self.add(st, t)
            if r is None:
                rep.bad('addType/all', loc, 'addType(%s) does not return in a module with other types' % T.show(t)); return
            st = r[0]; closure(T, t, want)
        out = self.content(st, want, 'addType/all', loc, 'adding all types of the domain to one module')
        if out is not None:
            self.back(st, out, 'all')
        for t in good:
            r = self.add(W.fresh(), t)
            o, _ = self.D.run(W.listed(r[0]))
            self.back(r[0], o, T.show(t))

    def back(self, st, out, tag):
        """reconstructTypeAndConstantInfo over the instructions gives the same terms"""
        W, T, rep = self.W, self.T, self.rep
        loc = W.reconstruct.loc(); k = 'reconstruct/' + tag
        before = {L: self.const_info(st, L) for L, x in out.items() if x[0] == 'const'}
        n = len(W.listed(st))
        r = W.one(W.reconstruct, st.fork(), [ZERO], 'reconstructTypeAndConstantInfo')
        if not rep.check(r is not None, k, loc, 'reconstructTypeAndConstantInfo does not return for a module with %s (null is dereferenced)' % tag):
            return
        s, v = r
        rep.check(v == ('i', 1), k + '/result', loc, 'reconstructTypeAndConstantInfo fails for a module with %s' % tag)
        rep.check(len(W.listed(s)) == n, k + '/list', loc, 'reconstructTypeAndConstantInfo changes the instructions of a module with %s' % tag)
        for L, x in out.items():
            if x[0] == 'type':
                g = self.type_info(s, L)
                if rep.check(g == x[1], k + '/' + T.show(x[1]), loc, 'the type read back from the instruction of %s is %s' % (T.show(x[1]), T.show(g))):
                    r2 = self.add(s.fork(), x[1])
                    rep.check(r2 is not None and r2[1] == ('p', L) and len(W.listed(r2[0])) == n, k + '/again/' + T.show(x[1]), loc, 'addType(%s) after reading back does not find the instruction' % T.show(x[1]))
            else:
                g = self.const_info(s, L)
                sh = self.show(x)
                if rep.check(g is not None and plain(g) == x[1], k + '/' + sh, loc, 'the constant read back from the instruction of %s is %s' % (sh, g and self.show(g))):
                    rep.check(g == before[L], k + '/same/' + sh, loc, 'the constant read back from the instruction of %s differs from the one it was made from' % sh)
                    if not g[0].startswith('OpSpec'):
                        r2 = self.addc(s.fork(), before[L])
                        rep.check(r2 is not None and r2[1] == ('p', L), k + '/again/' + sh, loc, 'addConstant(%s) after reading back does not find the instruction' % sh)
        rep.count('instructions read back', len(out))

    # ------------------------------------------------------------ constants
    def addc(self, st, c):
        L = ('obj', 'carg%d' % st.fresh())
        self.W.put_const(st, L, c, 'carg%d' % st.fresh())
        return self.W.one(self.W.addConstant, st, [('ref', L), ZERO], 'Module::addConstant')

    def constants(self):
        W, T, rep = self.W, self.T, self.rep
        loc = W.addConstant.loc()
        f32, i32, u32, b = T.flt(), T.int(), T.uint(), T.bool()
        v2 = T.vec(2, f32)
        sc = lambda t, *w: ('OpConstant', t, tuple(('i', x) for x in w), ())
        tr = ('OpConstantTrue', b, (('i', 1),), ()); fa = ('OpConstantFalse', b, (('i', 0),), ())
        comp = lambda t, *c: ('OpConstantComposite', t, (), c)
        null = lambda t: ('OpConstantNull', t, (), ())
        A = sc(f32, 0x3f800000); B = sc(f32, 0x40000000)
        V = comp(v2, A, B); VV = comp(v2, A, A)
        spec_ = lambda c: (c[0].replace('OpConstant', 'OpSpecConstant'),) + c[1:]
        C = [tr, fa, A, sc(i32, N32), sc(u32, 7), sc(T.int(8, 1), 0xfffffffb), sc(T.uint(16), 0xfffe), sc(T.flt(64), 1, 0x3ff00000), sc(T.int(64, 1), 5, 0), sc(T.uint(64), N32, N32), V, VV,
             comp(T.mat(2, 2, f32), V, VV), comp(T.array(3, f32), A, B, A), comp(T.struct(f32, v2), A, V), comp(T.struct(v2, f32), V, A), comp(T.array(2, T.struct(f32, v2)), comp(T.struct(f32, v2), A, V), comp(T.struct(f32, v2), B, VV)),
             null(f32), null(v2), null(T.struct(f32, i32)), null(T.array(4, f32)), null(T.ptr('Function', f32)), ('OpConstantSampler', T.mk('OpTypeSampler'), tuple(('i', x) for x in (1, 1, 1)), ())]
        S = [spec_(c) for c in (tr, fa, A, sc(u32, 7), V, comp(T.array(3, f32), A, B, A))] + [('OpSpecConstantComposite', v2, (), (spec_(A), A))]
        st0 = W.fresh(); want = set(); allok = True
        for c in C + S:
            k = 'addConstant/' + self.show(c); what = 'addConstant(%s)' % self.show(c)
            r = self.addc(W.fresh(), c)
            if not rep.check(r is not None, k, loc, '%s does not return (null is dereferenced)' % what):
                allok = False; continue
            s, v = r
            rep.check(not self.logs(s), k + '/log', loc, '%s is refused' % what)
            out = self.content(s, cclosure(T, c, set()), k, loc, what)
            if out is None or not rep.check(v[0] == 'p' and out.get(v[1]) == ('const', plain(c)), k + '/result', loc, '%s returns another instruction' % what):
                allok = False; continue
            rep.check(self.const_info(s, v[1]) == c, k + '/info', loc, '%s: getConstantInfo answers with another constant' % what)
            n = len(W.listed(s))
            r2 = self.addc(s.fork(), c)
            if c[0].startswith('OpSpec'):
                rep.check(r2 is not None and r2[1] != v, k + '/again', loc, '%s a second time must create another specialization constant' % what)
            else:
                rep.check(r2 is not None and r2[1] == v and len(W.listed(r2[0])) == n, k + '/again', loc, '%s a second time creates another instruction' % what)
            self.back(s, out, self.show(c))
            st0 = self.addc(st0, c)[0]; cclosure(T, c, want)
            rep.count('constants taken through addConstant')
        if allok:
            out = self.content(st0, want, 'addConstant/all', loc, 'adding all constants of the domain to one module')
            if out is not None:
                self.back(st0, out, 'all constants')

    # ------------------------------------------------------------ C++ values and types
    def cpp(self):
        W, T, rep = self.W, self.T, self.rep
        f32, i32, u32, b, f64 = T.flt(), T.int(), T.uint(), T.bool(), T.flt(64)
        val = lambda *p: ('s', ('value',) + p)
        part = lambda v, k: ('s', ('part', v, k))

        def scalar(ta, L):
            """(values of an object of this C++ type, the literal words they are)"""
            if ta == 'bool':
                return b, [(('i', x), None, x) for x in (0, 1)]
            if ta in ('char', 'short'):
                w = 8 if ta == 'char' else 16
                return T.int(w, 1), [(('i', x), (('i', x & N32),), None) for x in (-(1 << (w - 1)), -5, 0, 5, (1 << (w - 1)) - 1)]
            if ta in ('unsigned char', 'unsigned short'):
                w = 8 if ta == 'unsigned char' else 16
                return T.uint(w), [(('i', x), (('i', x),), None) for x in (0, 5, (1 << w) - 1)]
            v = val(L)
            one = lambda t: (t, [(v, ('one', v), None)])
            two = lambda t: (t, [(v, (part(v, 0), part(v, 4)), None)])
            return {'int': one(i32), 'unsigned int': one(u32), 'float': one(f32), 'long long': two(T.int(64, 1)), 'unsigned long long': two(T.uint(64)), 'double': two(f64)}[ta]

        def same(data, words):
            """data words of the constant are the wanted ones"""
            if words and words[0] == 'one':
                return len(data) == 1 and data[0] in (words[1], part(words[1], 0))
            return len(data) == len(words) and all((x[1] & N32 == y[1] & N32) if x[0] == y[0] == 'i' else x == y for x, y in zip(data, words))
        # composite C++ values: (type, [(member path, scalar type)] grouped per composite)
        G = 'spvgentwo::'
        COMP = {G + 'const_vector_t<float, 3>': T.vec(3, f32), G + 'const_vector_t<int, 2>': T.vec(2, i32), G + 'const_vector_t<double, 2>': T.vec(2, f64),
                G + 'const_matrix_t<float, 3, 2>': T.mat(3, 2, f32), G + 'const_array_t<unsigned int, 3>': T.array(3, u32), G + 'const_array_t<spvgentwo::const_vector_t<float, 2>, 2>': T.array(2, T.vec(2, f32))}
        NULLS = {G + 'const_null_t<float>': f32, G + 'const_null_t<spvgentwo::vector_t<float, 4>>': T.vec(4, f32), G + 'const_null_t<spvgentwo::array_t<bool, 2>>': T.array(2, b)}

        def leaves(st, t, loc, path, dbl):
            """writes symbolic members of a C++ composite at loc; returns the constant tree with leaf words"""
            if T.opn[t[0]] in ('OpTypeVector', 'OpTypeMatrix', 'OpTypeArray'):
                return (t, [leaves(st, t[10][0], W.ip.idx(('f', loc, 'data'), ('i', i)), path + (i,), dbl) for i in range(t[1])])
            v = val(*path)
            st.mem[loc] = v
            return (t, (part(v, 0), part(v, 4)) if t[1] == 64 else ('one', v))

        def tree(c, w, spec_):
            """constant read back against the tree"""
            t, x = w
            if c[1] != t:
                return 'has type %s instead of %s' % (T.show(c[1]), T.show(t))
            if isinstance(x, list):
                ok = ['OpSpecConstantComposite'] if spec_ == 1 else ['OpConstantComposite'] if spec_ == 0 else ['OpSpecConstantComposite', 'OpConstantComposite']
                if c[0] not in ok or len(c[3]) != len(x) or c[2]:
                    return 'is %s with %d components' % (c[0], len(c[3]))
                for y, z in zip(c[3], x):
                    r = tree(y, z, 2 if spec_ else 0)
                    if r:
                        return 'component ' + r
                return None
            if c[0] not in (['OpConstant', 'OpSpecConstant'] if spec_ == 2 else ['OpSpecConstant'] if spec_ else ['OpConstant']) or c[3]:
                return 'is %s' % c[0]
            return None if same(c[2], x) else 'has the wrong literal words'
        seen = set()
        for f in self.fx.by_cls[MOD]:
            if f.name != 'constant' or not f.d.get('ta'):
                continue
            ta = f.d['ta'][0]
            for sp in (0, 1):
                runs = []
                L = ('obj', 'cppval')
                if ta in COMP:
                    st = W.fresh(); runs.append((st, leaves(st, COMP[ta], L, (), 0), None))
                elif ta in NULLS:
                    runs.append((W.fresh(), ('null', NULLS[ta]), None))
                elif ta == G + 'const_sampler_t':
                    st = W.fresh()
                    r = self.fx.records[G + 'const_sampler_t']['fields']
                    names = {x['n'] for x in r}
                    if names != {'addressMode', 'coordMode', 'filterMode'}:
                        raise AnalysisError('members of const_sampler_t: %s' % sorted(names))
                    for x in names:
                        st.mem[('f', L, x)] = val(x)
                    runs.append((st, ('sampler', [val(x) for x in ('addressMode', 'coordMode', 'filterMode')]), None))
                else:
                    try:
                        t, vs = scalar(ta, 'x')
                    except KeyError:
                        continue
                    for v, words, boolean in vs:
                        st = W.fresh(); st.mem[L] = v
                        runs.append((st, (t, words), boolean))
                for st, w, boolean in runs:
                    k = 'constant<%s>/%d' % (ta, sp); what = 'constant<%s>(%s%s)' % (ta, st.mem.get(L, ('s', '...'))[1] if st.mem.get(L, ('s',))[0] == 'i' else '...', ', true' if sp else '')
                    r = W.one(f, st, [('ref', L), ('i', sp), ZERO], what)
                    if not rep.check(r is not None and r[1][0] == 'p', k, f.loc(), '%s does not give an instruction' % what):
                        continue
                    s, v = r
                    out, why = self.D.run(W.listed(s))
                    if not rep.check(why is None and v[1] in out and out[v[1]][0] == 'const', k + '/decode', f.loc(), '%s leaves instructions that do not read as constants: %s' % (what, why)):
                        continue
                    c = out[v[1]][1]
                    c = self.unlit(c)
                    if boolean is not None:
                        want = 'Op%sConstant%s' % ('Spec' if sp else '', 'True' if boolean else 'False')
                        why = None if c[0] == want and c[1] == b else 'is %s' % c[0]
                        g = self.const_info(s, v[1])
                        rep.check(g is not None and g[2] == (('i', boolean),), k + '/data', f.loc(), '%s: the value is not kept in the constant' % what)
                    elif w[0] == 'null':
                        why = None if c[0] == 'OpConstantNull' and c[1] == w[1] and not c[2] and not c[3] else 'is %s %s' % (c[0], T.show(c[1]))
                    elif w[0] == 'sampler':
                        why = None if c[0] == 'OpConstantSampler' and c[1] == T.mk('OpTypeSampler') and list(c[2]) == w[1] else 'is %s %s' % (c[0], list(c[2]))
                    else:
                        why = tree(c, w, sp)
                    rep.check(why is None, k + '/value', f.loc(), 'the instruction %s gives %s' % (what, why))
                    rep.count('C++ values taken through constant<T>')
                    if v[0] == 'p' and ta not in seen and ta not in COMP:
                        self.back(s, out, 'constant<%s>' % ta)
                seen.add(ta)
        rep.need('C++ types of constants', len(seen), 20)
        self.cpptypes()

    def unlit(self, c):
        return (c[0], c[1], tuple(('i', w) if isinstance(w, int) else w for w in c[2]), tuple(self.unlit(x) for x in c[3]))

    def cpptypes(self):
        W, T, rep = self.W, self.T, self.rep
        f32, i32, u32, b, f64 = T.flt(), T.int(), T.uint(), T.bool(), T.flt(64)
        G = 'spvgentwo::'
        ops = {'sampler_t': 'Sampler', 'event_t': 'Event', 'device_event_t': 'DeviceEvent', 'reserve_id_t': 'ReserveId', 'queue_t': 'Queue', 'pipe_storage_t': 'PipeStorage', 'named_barrier_t': 'NamedBarrier',
               'ray_query_khr_t': 'RayQueryKHR', 'acceleration_structure_khr_t': 'AccelerationStructureKHR', 'const_sampler_t': 'Sampler'}
        X = {'void': T.void(), 'bool': b, 'char': T.int(8, 1), 'unsigned char': T.uint(8), 'short': T.int(16, 1), 'unsigned short': T.uint(16), 'int': i32, 'unsigned int': u32,
             'long': (T.int(64, 1), i32), 'unsigned long': (T.uint(64), u32), 'long long': T.int(64, 1), 'unsigned long long': T.uint(64), 'float': f32, 'double': f64,
             G + 'vector_t<float, 3>': T.vec(3, f32), G + 'vector_t<float, 2>': T.vec(2, f32), G + 'vector_t<float, 4>': T.vec(4, f32), G + 'vector_t<int, 2>': T.vec(2, i32), G + 'vector_t<unsigned int, 2>': T.vec(2, u32),
             G + 'matrix_t<float, 4, 2>': T.mat(4, 2, f32), G + 'array_t<int, 5>': T.array(5, i32), G + 'array_t<spvgentwo::vector_t<double, 2>, 3>': T.array(3, T.vec(2, f64)),
             G + 'const_vector_t<float, 3>': T.vec(3, f32), G + 'const_matrix_t<float, 3, 2>': T.mat(3, 2, f32), G + 'const_array_t<unsigned int, 3>': T.array(3, u32), G + 'const_null_t<float>': f32}
        for k, v in ops.items():
            X[G + k] = T.mk('OpType' + v)
        P = {'float *': f32, G + 'vector_t<int, 4> *': T.vec(4, i32), G + 'array_t<float, 2> *': T.array(2, f32)}
        SC = T.sc['Uniform']
        seen = 0

        def scal(st, L, v):
            t = v
            st.mem[('f', L, 'baseType')] = ('i', t[0]); st.mem[('f', L, 'bits')] = ('i', t[1]); st.mem[('f', L, 'sign')] = ('i', t[2])

        def image(st, L, t):
            scal(st, ('f', L, 'sampledType'), t[10][0])
            for n, i in (('dimension', 4), ('depth', 1), ('array', 5), ('multiSampled', 6), ('samplerAccess', 7), ('format', 8), ('accessQualifier', 9)):
                st.mem[('f', L, n)] = ('i', t[i])
        img = T.image(u32, dim='Cube', depth=0, array=1, ms=1, fmt='R32ui', qual='WriteOnly')
        DYN = {G + 'dyn_scalar_t': [T.int(16, 1), T.uint(64), f32, T.flt(16)], G + 'dyn_vector_t': [T.vec(3, T.uint(16)), T.vec(2, f64)], G + 'dyn_matrix_t': [T.mat(3, 2, f32), T.mat(2, 4, f64)],
               G + 'dyn_image_t': [T.image(f32), img], G + 'dyn_sampled_image_t': [T.simage(T.image(f32)), T.simage(img)], G + 'dyn_array_t': [T.array(3, T.struct(f32, i32)), T.array(9, f32)],
               G + 'dyn_runtime_array_t': [T.rtarray(T.struct(f32, i32)), T.rtarray(f32)]}

        def dyn(st, L, ta, t):
            if ta.endswith('dyn_scalar_t'):
                scal(st, L, t)
            elif ta.endswith('dyn_vector_t'):
                scal(st, ('f', L, 'elementType'), t[10][0]); st.mem[('f', L, 'elements')] = ('i', t[1])
            elif ta.endswith('dyn_matrix_t'):
                dyn(st, ('f', L, 'columnType'), 'dyn_vector_t', t[10][0]); st.mem[('f', L, 'columns')] = ('i', t[1])
            elif ta.endswith('dyn_image_t'):
                image(st, L, t)
            elif ta.endswith('dyn_sampled_image_t'):
                image(st, ('f', L, 'imageType'), t[10][0])
            elif ta.endswith('dyn_array_t'):
                W.put_at(st, ('f', L, 'elementType'), t[10][0], 'dyn%d' % st.fresh()); st.mem[('f', L, 'length')] = ('i', t[1])
            else:
                W.put_at(st, ('f', L, 'elementType'), t[10][0], 'dyn%d' % st.fresh())
        for f in self.fx.by_cls[MOD]:
            if f.name != 'type':
                continue
            ta = f.d['ta'] or []
            main = ta[0]; props = ta[1:]
            cases = []
            vals = {G + 'spv::StorageClass': SC, G + 'spv::Dim': T.dim['Cube'], G + 'spv::AccessQualifier': T.aq['WriteOnly'], G + 'SamplerImageAccess': T.acc['Storage'] if 'Storage' in T.acc else 1, G + 'spv::ImageFormat': T.fmt['R32ui']}
            slot = {G + 'spv::Dim': 4, G + 'spv::AccessQualifier': 9, G + 'SamplerImageAccess': 7, G + 'spv::ImageFormat': 8}

            def run(want, filler=None):
                st = W.fresh(); args = []
                for i, p in enumerate(props):
                    L = ('obj', 'prop%d' % i)
                    if p in vals:
                        st.mem[L] = ('i', vals[p])
                    elif filler is not None:
                        filler(st, L)
                    args.append(('ref', L))
                what = 'type<%s>(%s)' % (main, ', '.join(x.split('::')[-1] for x in props)); k = 'type/' + what
                r = W.one(f, st, args, what)
                if not rep.check(r is not None and r[1][0] == 'p', k, f.loc(), '%s does not give an instruction' % what):
                    return
                out, why = self.D.run(W.listed(r[0]))
                rep.check(why is None, k + '/decode', f.loc(), '%s leaves instructions that do not read as types: %s' % (what, why))
                if why is None:
                    g = out.get(r[1][1], ('', None))[1]
                    rep.check(g in want, k + '/type', f.loc(), '%s is %s instead of %s' % (what, T.show(g) if g and isinstance(g[0], int) else g, T.show(want[0])))
            if not props and main in X:
                w = X[main]
                run(list(w) if isinstance(w[0], tuple) else [w]); seen += 1
            elif main in P and props == [G + 'spv::StorageClass']:
                run([T.ptr('Uniform', P[main])]); seen += 1
            elif main in P and not props:
                run([T.ptr('Generic', P[main])]); seen += 1
            elif main == G + 'pipe_t':
                # without an access qualifier the operand OpTypePipe needs is not known
                if props == [G + 'spv::AccessQualifier']:
                    run([T.mk('OpTypePipe', qual=T.aq['WriteOnly'])]); seen += 1
            elif main in DYN and props == [main]:
                for t in DYN[main]:
                    run([t], lambda st, L: dyn(st, L, main, t))
                seen += 1
            elif main.endswith(' *') and main[:-2] in DYN and set(props) == {main[:-2], G + 'spv::StorageClass'}:
                for t in DYN[main[:-2]]:
                    run([T.ptr('Uniform', t)], lambda st, L: dyn(st, L, main[:-2], t))
                seen += 1
            elif main == G + 'dyn_image_t' and props and all(p in slot for p in props):
                t = list(T.image(f32))
                for p in props:
                    t[slot[p]] = vals[p]
                run([tuple(t)]); seen += 1
        rep.need('C++ types taken through type<T>', seen, 45)
        # composites made from instructions
        n = 0
        for f in self.fx.by_cls[MOD]:
            if f.name != 'compositeType':
                continue
            ps = [f.tu.types[p['t']] for p in f.params]
            for op, mk in (('OpTypeStruct', T.struct), ('OpTypeFunction', T.fn)):
                subs = [f32, T.vec(2, f32), T.array(2, i32)]
                lst = len(ps) == 2 and 'List<' in ps[1]
                k = 3 if lst else len(ps) - 1
                st = W.fresh(); ptrs = []
                for t in subs[:k]:
                    st, v = self.add(st, t); ptrs.append(v)
                if lst:
                    LL = ('obj', 'sublist')
                    for l, v in zip(shape.mklist(st, LL, ['sl%d' % i for i in range(k)]), ptrs):
                        st.mem[l] = v
                    args = [('ref', LL)]
                else:
                    args = ptrs
                what = 'compositeType(%s, %d types%s)' % (op, k, ' as a list' if lst else '')
                if op == 'OpTypeFunction' and k == 0:
                    continue
                r = W.one(f, st, [('i', T.op[op])] + args, what)
                if not rep.check(r is not None and r[1][0] == 'p', 'compositeType/%s/%d/%d' % (op, k, lst), f.loc(), '%s does not give an instruction' % what):
                    continue
                out, why = self.D.run(W.listed(r[0]))
                g = out.get(r[1][1])
                rep.check(why is None and g == ('type', T.mk(op, subs=tuple(subs[:k]))), 'compositeType/%s/%d/%d/type' % (op, k, lst), f.loc(), '%s is %s (%s)' % (what, g and self.show(g), why))
                n += 1
        rep.need('compositeType calls', n, 8)

    # ------------------------------------------------------------ instructions from elsewhere
    def foreign(self):
        """lists as Module::read and resolveIDs leave them: everything is either understood or reported"""
        W, T, rep = self.W, self.T, self.rep
        loc = W.reconstruct.loc()
        op = T.op
        rid = ('id', ('i', 0)); lit = lambda v: ('lit', ('i', v))

        def build(items):
            """items: (name, opcode, operands with '@name' for references)"""
            st = W.fresh()
            locs = shape.mklist(st, ('f', W.M, W.flist), [x[0] for x in items])
            at = {x[0]: l for x, l in zip(items, locs)}
            for x, l in zip(items, locs):
                ops = [('instr', ('p', at[o[1:]])) if isinstance(o, str) else o for o in x[2]]
                st, _ = W.ops.instr(st, l, op[x[1]], ops, 'fi:' + x[0])
            return st, at
        f = ('f', 'OpTypeFloat', [rid, lit(32)]); u = ('u', 'OpTypeInt', [rid, lit(32), lit(0)])
        c4 = ('c4', 'OpConstant', ['@u', rid, lit(4)])
        U = T.uint(); F = T.flt()
        OK = [
            ('spec-constant array length', [f, u, ('s', 'OpSpecConstant', ['@u', rid, lit(5)]), ('a', 'OpTypeArray', [rid, '@f', '@s'])], {'a': T.array(5, F)}),
            ('signed array length', [f, ('i', 'OpTypeInt', [rid, lit(32), lit(1)]), ('s', 'OpConstant', ['@i', rid, lit(5)]), ('a', 'OpTypeArray', [rid, '@f', '@s'])], {'a': T.array(5, F)}),
            ('equal types twice', [f, ('f2', 'OpTypeFloat', [rid, lit(32)]), ('v', 'OpTypeVector', [rid, '@f2', lit(3)]), ('s', 'OpTypeStruct', [rid, '@f', '@f2'])], {'f': F, 'f2': F, 'v': T.vec(3, F), 's': T.struct(F, F)}),
            ('image without qualifier', [f, ('i', 'OpTypeImage', [rid, '@f', lit(1), lit(0), lit(0), lit(0), lit(1), lit(0)])], {'i': T.image(F, dim='Dim2D', depth=0, access='Sampled' if T.acc.get('Sampled') == 1 else 'Unknown')}),
            ('image with qualifier', [f, ('i', 'OpTypeImage', [rid, '@f', lit(1), lit(0), lit(0), lit(0), lit(0), lit(0), lit(1)])], {'i': T.image(F, dim='Dim2D', depth=0, qual='WriteOnly')}),
        ]
        n = 0
        for name, items, want in OK:
            st, at = build(items)
            r = W.one(W.reconstruct, st, [ZERO], 'reconstructTypeAndConstantInfo')
            if not rep.check(r is not None, 'foreign/' + name, loc, 'reconstructTypeAndConstantInfo dereferences null for: %s' % name):
                continue
            rep.check(r[1] == ('i', 1), 'foreign/result/' + name, loc, 'reconstructTypeAndConstantInfo refuses: %s' % name)
            for x, t in want.items():
                g = self.type_info(r[0], at[x])
                rep.check(g == t, 'foreign/type/%s/%s' % (name, x), loc, 'read back as %s instead of %s: %s' % (T.show(g), T.show(t), name))
            n += 1
        vec = ('v', 'OpTypeVector', [rid, '@f', lit(3)])
        BAD = []
        subs = {'vector': ('OpTypeVector', lambda x: [rid, x, lit(3)]), 'matrix': ('OpTypeMatrix', lambda x: [rid, x, lit(3)]), 'pointer': ('OpTypePointer', lambda x: [rid, lit(7), x]),
                'forward pointer': ('OpTypeForwardPointer', lambda x: [x, lit(7)]), 'struct': ('OpTypeStruct', lambda x: [rid, '@f', x]), 'function': ('OpTypeFunction', lambda x: [rid, '@f', x]),
                'runtime array': ('OpTypeRuntimeArray', lambda x: [rid, x]), 'sampled image': ('OpTypeSampledImage', lambda x: [rid, x]), 'array': ('OpTypeArray', lambda x: [rid, x, '@c4']),
                'image': ('OpTypeImage', lambda x: [rid, x] + [lit(1)] * 6)}
        for k, (o, mk) in subs.items():
            BAD.append(('%s of a constant' % k, [f, u, c4, ('t', o, mk('@c4'))]))
            BAD.append(('%s of a type defined later' % k, [f, u, c4, ('t', o, mk('@late')), ('late', 'OpTypeInt', [rid, lit(16), lit(0)])]))
            BAD.append(('%s of an unresolved id' % k, [f, u, c4, ('t', o, mk(('id', ('i', 77))))]))
        for k, ln, more in (('a type', '@f', []), ('an unresolved id', ('id', ('i', 77)), []), ('a float constant', '@k', [('k', 'OpConstant', ['@f', rid, lit(1)])]), ('a constant without type', '@k', [('k', 'OpConstant', ['@k', rid, lit(1)])]),
                            ('a specialization operation', '@k', [('k', 'OpSpecConstantOp', ['@u', rid, lit(128), '@c4', '@c4'])]), ('a null constant', '@k', [('k', 'OpConstantNull', ['@u', rid])])):
            BAD.append(('array whose length is %s' % k, [f, u, c4] + more + [('t', 'OpTypeArray', [rid, '@f', ln])]))
        BAD.append(('constant of an unknown type', [f, u, ('k', 'OpConstant', ['@late', rid, lit(1)]), ('late', 'OpTypeInt', [rid, lit(16), lit(0)])]))
        BAD.append(('composite of an unknown constituent', [f, u, vec, c4, ('k', 'OpConstantComposite', ['@v', rid, '@c4', '@v'])]))
        BAD.append(('composite of an unresolved id', [f, u, vec, c4, ('k', 'OpConstantComposite', ['@v', rid, '@c4', ('id', ('i', 77))])]))
        BAD.append(('specialization operation', [u, c4, ('k', 'OpSpecConstantOp', ['@u', rid, lit(128), '@c4', '@c4'])]))
        BAD.append(('opaque type', [('k', 'OpTypeOpaque', [rid, lit(0x61)])]))
        for name, items in BAD:
            st, at = build(items)
            r = W.one(W.reconstruct, st, [ZERO], 'reconstructTypeAndConstantInfo')
            if rep.check(r is not None, 'foreign/' + name, loc, 'reconstructTypeAndConstantInfo dereferences null for: %s' % name):
                rep.check(r[1] == ('i', 0), 'foreign/result/' + name, loc, 'reconstructTypeAndConstantInfo claims to know: %s' % name)
            n += 1
        rep.need('lists read from elsewhere', n, 40)

    def raw_instr(self):
        """addTypeInstr / addConstantInstr: the maps refer to objects of the module"""
        W, T, rep = self.W, self.T, self.rep
        fx = self.fx
        t = T.struct(T.flt(), T.int()); c = ('OpConstant', T.uint(), (('i', 7),), ())
        for name, put, info, key in (('addTypeInstr', lambda s, L: W.put_at(s, L, t, 'raw'), W.getTypeInfo, t), ('addConstantInstr', lambda s, L: W.put_const(s, L, c, 'raw'), W.getConstantInfo, c)):
            f = fx.method(MOD, name)
            st = W.fresh(); L = ('obj', 'callers'); put(st, L)
            r = W.one(f, st, [('p', L)], name)
            if not rep.check(r is not None and r[1][0] == 'p', name, f.loc(), '%s does not give an instruction' % name):
                continue
            s, v = r
            s.mem[('f', v[1], W.ops.opfield)] = ('i', T.op['OpTypeStruct' if name == 'addTypeInstr' else 'OpConstant'])
            q = W.one(info, s, [v], name)
            rep.check(q is not None and q[1][0] == 'p' and q[1][1] != L, name + '/owner', f.loc(), '%s: the lookup map refers to the caller\'s object' % name)
            g = (W.read if name == 'addTypeInstr' else W.read_const)(q[0], q[1][1]) if q and q[1][0] == 'p' else None
            rep.check(g == key, name + '/info', f.loc(), '%s: the lookup does not give the type / constant back' % name)

    def functions(self):
        """the type of a read function is that of its OpTypeFunction operand"""
        W, T, rep = self.W, self.T, self.rep
        fx = self.fx
        FN = 'spvgentwo::Function'; EP = 'spvgentwo::EntryPoint'
        from sa.constants import field_of
        ff = field_of(fx, FN, 'getFunction'); ft = field_of(fx, FN, 'getFunctionType'); mod = field_of(fx, FN, 'getModule')
        loc = W.reconstruct.loc()
        fnt = [T.fn(T.void()), T.fn(T.flt(), T.int(), T.vec(2, T.flt()))]
        for sec, nm in (('getFunctions', 'function'), ('getEntryPoints', 'entry point')):
            for bad in (None, 'not a function type', 'no operands'):
                st = W.fresh(); tys = []
                for t in fnt:
                    st, v = self.add(st, t); tys.append(v)
                st, wrong = self.add(st, T.flt())
                fl = shape.mklist(st, ('f', W.M, W.secs[sec]), ['F0', 'F1'])
                for i, F in enumerate(fl):
                    st.mem[('f', F, mod)] = W.ip.module
                    W.put_at(st, ('f', F, ft), T.void(), 'fty%d' % i)
                    st.mem[('f', ('f', ('f', F, ft), W.sub), 'm_pAllocator')] = W.alloc
                    tv = wrong if bad == 'not a function type' and i == 0 else tys[i]
                    ops = [('instr', wrong), ('id', ('i', 0)), ('lit', ('i', 0)), ('instr', tv)]
                    st, _ = W.ops.instr(st, ('f', F, ff), T.op['OpFunction'], [] if bad == 'no operands' and i == 0 else ops, 'of%d' % i)
                r = W.one(W.reconstruct, st, [ZERO], 'reconstructTypeAndConstantInfo')
                k = 'functions/%s/%s' % (nm, bad)
                if not rep.check(r is not None, k, loc, 'reconstructTypeAndConstantInfo dereferences null for a module whose %s has %s' % (nm, bad or 'a type')):
                    continue
                s, v = r
                rep.check(v == ('i', 0 if bad else 1), k + '/result', loc, 'reconstructTypeAndConstantInfo %s a module whose %s has %s' % ('accepts' if bad else 'refuses', nm, bad or 'a type'))
                for i, F in enumerate(fl):
                    if bad is None or i == 1:
                        g = W.read(s, ('f', F, ft))
                        rep.check(g == fnt[i], k + '/type%d' % i, loc, 'the type of %s %d is %s instead of %s' % (nm, i, T.show(g), T.show(fnt[i])))
                rep.count('functions given their type back', 2)


def check(fx, rep):
    rep.rule('addType: for every type of the domain the instructions left in the module decode (by the operand layouts of the specification) to exactly the type, its constituents and its array lengths, each once and defined before use; a second call finds them')
    rep.rule('addConstant / constant<T>: the same for constants, literal words tracked byte by byte from the C++ value; specialization constants are new on every call')
    rep.rule('type<T>: the SPIR-V type of every supported C++ type, with the properties given')
    rep.rule('reconstructTypeAndConstantInfo: over these instructions every lookup answers with the term the instruction was made from; over foreign lists what is not understood is reported and null is not dereferenced')
    C = Check(fx, rep)
    C.types(); C.constants(); C.cpp(); C.foreign(); C.raw_instr(); C.functions()
    rep.sample('types: %s' % ', '.join(C.T.show(t) for t in domain(C.T, C.D)[:40]))

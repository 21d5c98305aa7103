"""C04: the builders of the GLSL.std.450 extended instruction set.

Operand types range over the finite domain of canonical types of C13.  Each builder is propagated through its real code for every
combination; the OpExtInst it leaves behind (result type, import, entry point number, operands) is compared with the grammar of the
extended instruction set and with the typing rule below, written from its specification."""
import itertools, multiprocessing, os
from sa import spec as specs
from sa.absint import State, ZERO
from sa.facts import AnalysisError
from sa.types import Types, MOD, TypeInterp
from sa.world import INSTR
from c13 import Rules, Maybe, domains, ME

GLSL = 'spvgentwo::GLSL450Intruction'
SET = 'GLSL.std.450'
UNTYPED = 'operand without a result'
UNKNOWN = 'operand of a type the module does not know'


class AnyOf:
    """the specification leaves the result type open: one of these"""
    def __init__(self, *t): self.t = t


class GlslInterp(TypeInterp):
    def model(self, st, fr, n, fn, obj, args):
        c = n.get('c') or ''
        if c == MOD and n.get('n') in ('addExtensionInstructionImport', 'getExtensionInstructionImport'):
            a = args[0]
            nm = a[1] if a[0] == 'str' else a[1][1] if a[0] == 'p' and a[1][0] == 'strl' else None
            if nm is None:
                raise AnalysisError('name of the imported instruction set is not a constant: %s' % (a,))
            # a module that has not imported the set yet
            return [(st, ('p', ('obj', 'import ' + nm)) if n['n'][0] == 'a' else ZERO)]
        return super().model(st, fr, n, fn, obj, args)


class GRules(Rules):
    def table(self):
        T = self.T; R = {}
        def put(names, rule, *doms):
            for x in names.split():
                R[x] = (rule, doms)
        flt = lambda a: a if self.svflt(a) else None
        small = lambda a: a if self.svflt(a) and self.comp(a)[1] in (16, 32) else None
        put('Round RoundEven Trunc FAbs FSign Floor Ceil Fract Sqrt InverseSqrt Normalize', flt, 'v')
        put('Radians Degrees Sin Cos Tan Asin Acos Atan Sinh Cosh Tanh Asinh Acosh Atanh Exp Log Exp2 Log2', small, 'v')
        put('Atan2 Pow', lambda a, b: small(a) if a == b else None, 'v', 'v')
        put('FMin FMax NMin NMax Step Reflect', lambda a, b: flt(a) if a == b else None, 'v', 'v')
        put('FClamp NClamp FMix SmoothStep Fma FaceForward', lambda a, b, c: flt(a) if a == b == c else None, 's', 's', 's')
        # the operand need not have the sign the operation interprets it with; asking for it is the library's choice
        sign = lambda s: (lambda a, *o: None if not self.svint(a) or any(x != a for x in o) else a if self.comp(a)[2] == s else Maybe(a))
        put('SAbs SSign', sign(1), 'v')
        put('UMin UMax', sign(0), 'v', 'v'); put('SMin SMax', sign(1), 'v', 'v')
        put('UClamp', sign(0), 's', 's', 's'); put('SClamp', sign(1), 's', 's', 's')
        put('FindILsb FindSMsb FindUMsb', lambda a: None if not self.svint(a) else a if self.comp(a)[1] == 32 else Maybe(a), 'v')
        sq = lambda a: self.ismat(a) and a[10][0][1] == a[1] and self.isflt(a[10][0][10][0])
        put('Determinant', lambda a: a[10][0][10][0] if sq(a) else None, 'v')
        put('MatrixInverse', lambda a: a if sq(a) else None, 'v')
        put('ModfStruct', lambda a: T.struct(a, a) if self.svflt(a) else None, 'v')
        put('FrexpStruct', lambda a: AnyOf(*[T.struct(a, self.like(a, T.int(32, s))) for s in (1, 0)]) if self.svflt(a) else None, 'v')
        put('Ldexp', lambda a, b: a if self.svflt(a) and self.svint(b) and self.n(a) == self.n(b) else None, 'v', 'v')
        i32 = AnyOf(T.int(), T.uint())
        pack = lambda n: (lambda a: i32 if a == T.vec(n, self.F) else None)
        un = lambda n: (lambda a: T.vec(n, self.F) if self.isint(a) and a[1] == 32 else None)
        put('PackSnorm4x8 PackUnorm4x8', pack(4), 'v'); put('PackSnorm2x16 PackUnorm2x16 PackHalf2x16', pack(2), 'v')
        put('UnpackSnorm4x8 UnpackUnorm4x8', un(4), 'v'); put('UnpackSnorm2x16 UnpackUnorm2x16 UnpackHalf2x16', un(2), 'v')
        v2i = AnyOf(T.vec(2, T.int()), T.vec(2, T.uint()))
        put('PackDouble2x32', lambda a: T.flt(64) if a in v2i.t else None, 'v')
        put('UnpackDouble2x32', lambda a: v2i if a == T.flt(64) else None, 'v')
        put('Length', lambda a: self.comp(a) if self.svflt(a) else None, 'v')
        put('Distance', lambda a, b: self.comp(a) if a == b and self.svflt(a) else None, 'v', 'v')
        put('Cross', lambda a, b: a if a == b and self.svflt(a) and self.n(a) == 3 else None, 'v', 'v')
        put('Refract', self.refract, 's', 's', 's')
        # the interpolant is a pointer into the Input storage class to a 32-bit float scalar or vector
        inp = lambda p: p[10][0] if self.isptr(p) and p[3] == T.sc['Input'] and self.svflt(p[10][0]) and self.comp(p[10][0])[1] == 32 else None
        put('InterpolateAtCentroid', inp, 'ip')
        put('InterpolateAtSample', lambda p, s: inp(p) if self.isint(s) and s[1] == 32 else None, 'ip', 'v')
        put('InterpolateAtOffset', lambda p, o: inp(p) if o == T.vec(2, self.F) else None, 'ip', 'v')
        return R

    def refract(self, i, n, eta):
        if i != n or not self.svflt(i) or not self.isflt(eta): return None
        # eta is a 16- or 32-bit float; the library asks for the component type of the vectors
        if eta == self.comp(i): return i if eta[1] in (16, 32) else Maybe(i)
        return Maybe(i) if eta[1] in (16, 32) else None


class Runner:
    def __init__(self, fx, tier):
        self.fx = fx
        self.W = Types(fx, GlslInterp(fx))
        self.W.ip.types = self.W
        T = self.T = self.W.T
        self.R = GRules(T)
        self.table = self.R.table()
        d = domains(T, tier)
        v = T.vec; F = T.flt(); H = T.flt(16); D = T.flt(64); I = T.int(); U = T.uint()
        fl = [H, D, v(2, F), v(3, F), v(4, F), v(3, H), v(2, D), v(4, D), T.int(16), T.int(64), v(2, I), v(2, U), v(3, U), v(4, I), v(3, T.int(64)), T.mat(2, 2, F), T.mat(3, 3, D), T.mat(4, 4, F)]
        self.dom = {'v': d['v'] + [t for t in fl if t not in d['v']] + [UNTYPED, UNKNOWN],
                    's': [T.bool(), I, U, F, D, H, v(2, F), v(3, F), v(3, D), v(2, I), v(2, U), v(3, H), T.mat(3, 3, F), T.ptr('Function', F), UNTYPED, UNKNOWN],
                    'ip': [T.ptr(s, t) for s in ('Input', 'Output', 'Function') for t in (F, v(2, F), v(4, F), D, v(3, H), I, T.struct(F))] + [F, v(2, F), UNTYPED, UNKNOWN]}
        if tier == 'thorough':
            self.dom['s'] += [T.int(64), v(4, F), v(4, U), T.struct(F, F), T.array(4, F)]
        self.glsl = specs.glsl()
        self.byname = {}
        for f in fx.by_cls.get(GLSL, []):
            if f.body is not None and f.d.get('acc') == 0 and f.name.startswith('op'):
                self.byname.setdefault(f.name[2:].lower(), []).append(f)

    def unknown(self, st, name, typed):
        I = ('obj', name)
        W = self.W
        if not typed:
            W._instr(st, I, self.T.op['OpStore'], [], 'v:' + name)
            return I
        ty = ('obj', 'strange type')
        if ('f', ty, W.ops.opfield) not in st.mem:
            W._instr(st, ty, self.T.op['OpTypeFloat'], [('id', ('i', 77)), ('lit', ('i', 32))], 'strange')
        W._instr(st, I, self.T.op['OpUndef'], [('instr', ('p', ty)), ('id', ('i', 78))], 'v:' + name)
        return I

    def operands(self, st):
        W = self.W
        out = []
        p = W.ip.load(st, ('f', ME, 'm_pBegin'))
        while p != ZERO and p[0] == 'p' and len(out) < 12:
            out.append(W.ops.read(st, ('f', p[1], 'm_data')))
            p = W.ip.load(st, ('f', p[1], 'm_pNext'))
        return out

    def call(self, fn, terms):
        W = self.W; T = self.T
        st = State()
        W._instr(st, ME, T.op['OpNop'], [], 'me')
        args = []
        for i, t in enumerate(terms):
            n = 'a%d' % i
            args.append(('p', self.unknown(st, n, t == UNKNOWN) if isinstance(t, str) else W.value(st, n, t)))
        out = []
        for s, v in W.ip.run(fn, this=('p', ME), args=args, st=st):
            if v == W.ip.err:
                out.append(('refuse',)); continue
            op = W.ip.load(s, ('f', ME, W.ops.opfield))
            out.append(('built', T.opn.get(op[1], op[1]) if op[0] == 'i' else '?', self.operands(s), v))
        return out or [('none',)], args

    def judge(self, name):
        rule, doms = self.table[name]
        fns = [f for f in self.byname.get(name.lower(), []) if len(f.params) == len(doms)]
        if len(fns) != 1:
            raise AnalysisError('builder of %s with %d operands: %d found' % (name, len(doms), len(fns)))
        fn = fns[0]
        num = self.glsl[name]['opcode']
        n = built = refused = 0; bad = []
        T = self.T
        sh = lambda t: t if isinstance(t, str) else T.show(t)
        for ts in itertools.product(*[self.dom[d] for d in doms]):
            n += 1
            exp = None if any(isinstance(t, str) for t in ts) else rule(*ts)
            allowed = exp.t if isinstance(exp, AnyOf) else (exp.t,) if isinstance(exp, Maybe) else (exp,)
            got, args = self.call(fn, ts)
            for o in got:
                msg = None
                if o[0] == 'none':
                    msg = 'no path returns (a null pointer is dereferenced)'
                elif o[0] == 'refuse':
                    refused += 1
                    if exp is not None and not isinstance(exp, Maybe):
                        msg = 'refuses them, although the result would be %s' % ' or '.join(sh(t) for t in allowed)
                else:
                    built += 1
                    ops = o[2]
                    if exp is None:
                        msg = 'builds the instruction although the operand types are not allowed'
                    elif o[1] != 'OpExtInst' or len(ops) < 4:
                        msg = 'builds %s with %d operands' % (o[1], len(ops))
                    else:
                        rt = self.W.term_of_instr(ops[0][1]) if ops[0][0] == 'instr' else None
                        if rt not in allowed:
                            msg = 'gives result type %s, the specification %s' % (sh(rt), ' or '.join(sh(t) for t in allowed))
                        elif ops[2] != ('instr', ('p', ('obj', 'import ' + SET))):
                            msg = 'names %s as instruction set, not the import of "%s"' % (ops[2], SET)
                        elif ops[3] != ('lit', ('i', num)):
                            msg = 'builds entry point %s, %s is %d' % (ops[3], name, num)
                        elif [x for x in ops[4:]] != [('instr', a) for a in args]:
                            msg = 'passes operands %s for %s' % (ops[4:], args)
                        elif ops[1][0] != 'id':
                            msg = 'has no result id'
                        elif o[3] != ('p', ME):
                            msg = 'does not return the instruction it built'
                if msg:
                    bad.append('%s on (%s) %s' % (fn.name, ', '.join(sh(t) for t in ts), msg))
        return name, n, built, refused, bad, fn.loc()


_R = None


def _work(name):
    try:
        return _R.judge(name)
    except AnalysisError as e:
        return name, str(e)


def check(fx, rep):
    global _R
    _R = Runner(fx, rep.tier)
    rep.rule('entry-point: the built OpExtInst names the import of GLSL.std.450, the number of the entry point the builder is called after and the operands in the order given')
    rep.rule('result-type: it has the result type the entry point prescribes for its operand types')
    rep.rule('operand-types: operand types (or missing types) the entry point does not allow are refused, the others are built')
    names = sorted(_R.table, key=lambda x: -len(_R.table[x][1]))
    with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
        res = pool.map(_work, names, chunksize=1)
    tot = b = 0
    for x in res:
        if len(x) == 2:
            raise AnalysisError(x[1])
        name, n, built, refused, bad, loc = x
        tot += n; b += built
        rep.ok(n - len(bad))
        if built == 0:
            bad = bad or ['%s is never built for any operand types' % name]
        for i, m in enumerate(bad[:3]):
            rep.bad('%s#%d' % (name, i), loc, m + (' (and %d more combinations)' % (len(bad) - 3) if len(bad) > 3 and i == 2 else ''))
        rep.sample('%s: %d operand type combinations, %d built, %d refused' % (name, n, built, refused))
    # every entry point of the set has a rule (the two deprecated ones and the removed one have no builder)
    for k in set(_R.byname) - {x.lower() for x in _R.table}:
        f = _R.byname[k][0]
        hit = [x for x in _R.glsl if x.lower() == k]
        rep.check(not hit, 'norule:' + k, f.loc(), '%s builds an entry point for which there is no rule' % f.name)
    rep.count('builders judged', len(names))
    rep.count('operand type combinations', tot)
    rep.count('combinations built', b)
    rep.need('builders judged', len(names), 70)

"""C23: the type-directed operations (Add, Sub, Mul, Div, Not and the comparisons) of Instruction, BasicBlock and the overloaded operators
build the opcode the operand types call for, on the operands in the order given.  Operand types range over the finite domain of C13."""
import itertools, multiprocessing, os
from sa.absint import State, ZERO
from sa.blocks import Blocks, BB
from sa.facts import AnalysisError
from sa.world import INSTR
from checks.c13 import Rules

INT = ('Add', 'Sub', 'Mul', 'Div')
OPS = INT + ('Equal', 'NotEqual', 'Greater', 'GreaterEqual', 'Less', 'LessEqual')
TOKEN = {'Add': '+', 'Sub': '-', 'Mul': '*', 'Div': '/', 'Equal': '==', 'NotEqual': '!=', 'Greater': '>', 'GreaterEqual': '>=', 'Less': '<', 'LessEqual': '<=', 'Not': '!'}
CMP = {'Greater': 'GreaterThan', 'GreaterEqual': 'GreaterThanEqual', 'Less': 'LessThan', 'LessEqual': 'LessThanEqual', 'Equal': 'Equal', 'NotEqual': 'NotEqual'}


class Rule(Rules):
    """list of (opcode, operand names, result type); None = no such operation; ('any', x) = refusing is allowed too"""
    def want(self, op, a, b=None):
        T = self.T
        if op == 'Not':
            if self.svint(a): return [('OpNot', ['a'], a)]
            if self.svbool(a): return [('OpLogicalNot', ['a'], a)]
            return None
        ints = self.svint(a) and self.svint(b) and self.shape(a, b)
        flts = self.svflt(a) and a == b
        uns = ints and not self.comp(a)[2] and not self.comp(b)[2]
        ab = ['a', 'b']
        if op in ('Add', 'Sub'):
            if ints: return [('OpI' + op, ab, a)]
            if flts: return [('OpF' + op, ab, a)]
            return None
        if op == 'Mul':
            if ints: return [('OpIMul', ab, a)]
            if flts: return [('OpFMul', ab, a)]
            fv = lambda t: self.isvec(t) and self.isflt(t[10][0])
            if fv(a) and b == a[10][0]: return [('OpVectorTimesScalar', ab, a)]
            if fv(b) and a == b[10][0]: return [('OpVectorTimesScalar', ['b', 'a'], b)]
            if self.ismat(a) and b == a[10][0][10][0]: return [('OpMatrixTimesScalar', ab, a)]
            if self.ismat(b) and a == b[10][0][10][0]: return [('OpMatrixTimesScalar', ['b', 'a'], b)]
            if fv(a) and self.ismat(b) and b[10][0] == a: return [('OpVectorTimesMatrix', ab, T.vec(b[1], a[10][0]))]
            if self.ismat(a) and fv(b) and b == T.vec(a[1], a[10][0][10][0]): return [('OpMatrixTimesVector', ab, a[10][0])]
            if self.ismat(a) and self.ismat(b) and b[10][0] == T.vec(a[1], a[10][0][10][0]): return [('OpMatrixTimesMatrix', ab, T.mk('OpTypeMatrix', b[1], subs=(a[10][0],)))]
            return None
        if op == 'Div':
            if uns: return [('OpUDiv', ab, a)]
            if ints: return [('OpSDiv', ab, self.signed(a))]
            if flts: return [('OpFDiv', ab, a)]
            if self.isvec(a) and self.isflt(a[10][0]) and b == a[10][0]:
                w = [('OpFDiv', ['1', 'b'], b), ('OpVectorTimesScalar', ['a', 'r0'], a)]
                return w if b[1] in (32, 64) else ('any', w)
            return None
        x = CMP[op]
        if op in ('Equal', 'NotEqual'):
            if ints: return [('OpI' + x, ab, self.boolof(a))]
            if flts: return [('OpFOrd' + x, ab, self.boolof(a))]
            if a == b and self.svbool(a): return [('OpLogical' + x, ab, a)]
            return None
        if uns: return [('OpU' + x, ab, self.boolof(a))]
        if ints: return [('OpS' + x, ab, self.boolof(a))]
        if flts: return [('OpFOrd' + x, ab, self.boolof(a))]
        return None


class Run:
    def __init__(self, fx, tier):
        self.fx = fx; self.W = Blocks(fx); self.T = self.W.T; self.R = Rule(self.T)
        T = self.T; v = T.vec
        B, I, U, F, D, L, H = T.bool(), T.int(), T.uint(), T.flt(), T.flt(64), T.int(64), T.flt(16)
        self.dom = [B, I, U, F, D, L, T.uint(64), v(2, F), v(3, F), v(2, I), v(3, U), v(2, B), v(3, D), T.mat(2, 3, F), T.mat(3, 2, F), T.mat(2, 2, D), T.ptr('Function', F), T.struct(F, I), T.array(2, F), T.void()]
        if tier == 'thorough':
            self.dom += [H, v(2, H), v(4, F), v(3, I), v(2, U), v(4, B), T.mat(3, 3, F), T.mat(4, 3, F), T.mat(2, 3, D), T.int(16), v(2, L), T.rtarray(F), T.mk('OpTypeSampler'), T.image(F, 'Dim2D', access='Sampled')]
        self.entries = self.find()

    def find(self):
        """(label, function, form, operation): form = how operands are passed"""
        out = []
        fx = self.fx
        isp = lambda f, i: 'Instruction' in f.tu.types[f.params[i]['t']]
        for op in OPS + ('Not',):
            n = 1 if op == 'Not' else 2
            f = fx.method(INSTR, op, lambda f: len(f.params) >= n and isp(f, 0) and (n == 1 or isp(f, 1)))
            out.append(('Instruction::' + op, f, 'instr', op))
            if op == 'Div':
                out.append(('Instruction::Div (no block)', f, 'noblock', op))
            f = fx.method(BB, op, lambda f: len(f.params) == n)
            out.append(('BasicBlock::' + op, f, 'block', op))
            f = fx.method(BB, op, lambda f: len(f.params) == n - 1)
            out.append(('BasicBlock::%s on the last result' % op, f, 'back', op))
            fs = [f for f in fx.q('spvgentwo::ops::operator' + TOKEN[op]) if f.body is not None and len(f.params) == n]
            if len(fs) != (1 if op == 'Not' else 2):
                raise AnalysisError('ops::operator%s: %d overloads found' % (TOKEN[op], len(fs)))
            for f in fs:
                out.append(('operator%s(%s)' % (TOKEN[op], ', '.join(f.tu.types[p['t']].replace('spvgentwo::', '') for p in f.params)), f, 'op', op))
        return out

    def one(self, ent, ts):
        label, fn, form, op = ent
        W = self.W; T = self.T
        st = State()
        n = 1 if op == 'Not' else 2
        back = form in ('back', 'op')
        names = ['a', 'b'][:n]
        bb, locs = W.block(st, 'bb', ['first'] if not form == 'instr' else ['first', 'me'])
        vals = {}
        for i, (x, t) in enumerate(zip(names, ts)):
            if i == 0 and back:
                l = locs[0]
                W._instr(st, l, T.op['OpUndef'], [('instr', ('p', W.need(st, t))), ('id', ('i', 9100))], 'v:last')
            else:
                l = W.value(st, x, t)
            vals[x] = ('p', l)
        if not back:
            W._instr(st, locs[0], T.op['OpUndef'], [('instr', ('p', W.need(st, T.flt()))), ('id', ('i', 9100))], 'v:last')
        if form == 'instr':
            this = ('p', locs[1]); args = [vals[x] for x in names]
        elif form == 'noblock':
            me = ('obj', 'me')
            W._instr(st, me, T.op['OpNop'], [], 'me')
            W.own(st, me, bb)
            fn_ = W.ip.fx.enums['spvgentwo::Instruction::ParentType']['v'] if 'spvgentwo::Instruction::ParentType' in W.ip.fx.enums else []
            st.mem[('f', me, 'm_parentType')] = ('i', dict((x[0], x[1]) for x in fn_).get('Module', 2))
            this = ('p', me); args = [vals[x] for x in names]
        elif form == 'block':
            this = ('p', bb); args = [vals[x] for x in names]
        elif form == 'back':
            this = ('p', bb); args = [vals[x] for x in names[1:]]
        else:
            this = None; args = [('ref', bb)]
            for p, x in zip(fn.params[1:], names[1:]):
                args.append(('ref', vals[x][1]) if '&' in fn.tu.types[p['t']] else vals[x])
        extra = fn.params[len(args):]
        for p in extra:
            if fn.tu.types[p['t']] == 'bool':
                args.append(('i', 1))
            else:
                raise AnalysisError('%s: parameter %s is not understood' % (fn.q, p['n']))
        out = []
        before = [l for l in W.listed(st, bb)]
        for s, v in W.ip.run(fn, this=this, args=args, st=st):
            after = W.listed(s, bb)
            kept = [l for l in after if l in before]
            new = [l for l in after if l not in before]
            if form == 'noblock':
                new = [me] + new
            elif form == 'instr':
                new = [locs[1]] + new
            alias = {vals[x][1]: x for x in vals}
            built = []
            for l in new:
                o, opds = W.instr_at(s, l)
                if o == 'OpNop' and not opds:
                    continue
                rt = W.term_of_instr(opds[0][1]) if opds and opds[0][0] == 'instr' else None
                xs = []
                for k, x in opds[2:]:
                    if k == 'instr' and x[0] == 'p' and x[1] in alias: xs.append(alias[x[1]])
                    elif k == 'instr' and x[0] == 'p' and x[1][0] == 'obj' and str(x[1][1]).startswith('FConst'): xs.append('1' if x[1][1].startswith('FConst1.0_') or x[1][1].startswith('FConst1_') else x[1][1])
                    else: xs.append(repr((k, x)))
                alias[l] = 'r%d' % len(built)
                built.append((o, xs, rt))
            res = 'self' if form in ('block', 'back', 'op') and v in (('ref', bb), ('p', bb)) else None
            if form in ('instr', 'noblock'):
                res = 'error' if v == W.ip.err else alias.get(v[1], repr(v)) if v[0] == 'p' else repr(v)
            out.append((built, res, kept == before, [e for e in s.events() if e[0] == 'nullderef']))
        return out

    def judge(self, ei):
        ent = self.entries[ei]
        label, fn, form, op = ent
        n = 1 if op == 'Not' else 2
        bad = []; cnt = built = 0
        for ts in itertools.product(self.dom, repeat=n):
            cnt += 1
            w = self.R.want(op, *ts)
            maybe = w is not None and w[0] == 'any'
            if maybe: w = w[1]
            if form == 'noblock' and w is not None and len(w) == 2: w = None
            outs = self.one(ent, ts)
            show = '%s on (%s)' % (label, ', '.join(self.T.show(t) for t in ts))
            if not outs:
                bad.append('%s: no path returns (a null pointer is dereferenced)' % show)
            for b, res, kept, nd in outs:
                if not b:
                    if w is not None and not maybe:
                        bad.append('%s builds nothing; expected %s' % (show, self.fmt(w)))
                    elif form in ('instr', 'noblock') and res != 'error':
                        bad.append('%s refuses but returns %s' % (show, res))
                else:
                    built += 1
                    if w is None:
                        bad.append('%s builds %s, although there is no such operation' % (show, self.fmt(b)))
                    elif [tuple(x) for x in b] != [tuple(x) for x in w]:
                        bad.append('%s builds %s; expected %s' % (show, self.fmt(b), self.fmt(w)))
                    elif form in ('instr', 'noblock') and res != 'r%d' % (len(w) - 1):
                        bad.append('%s returns %s instead of the result of %s' % (show, res, w[-1][0]))
                if form in ('block', 'back', 'op') and res != 'self':
                    bad.append('%s does not return the block' % show)
                if not kept:
                    bad.append('%s removes or reorders instructions of the block' % show)
        return ei, cnt, built, bad

    def fmt(self, w):
        return '; '.join('%s(%s) of type %s' % (o, ', '.join(x), self.T.show(t) if t else 'unknown') for o, x, t in w)


_R = None


def _work(i):
    try:
        return _R.judge(i)
    except AnalysisError as e:
        return i, '%s: %s' % (_R.entries[i][0], e)


def check(fx, rep):
    global _R
    _R = Run(fx, rep.tier)
    rep.rule('opcode: the operation builds exactly the opcode the operand types call for, with the result type of that opcode')
    rep.rule('operands: left and right stay in the order given (vector or matrix first for products with a scalar); the one-operand forms use the last instruction of the block as left operand')
    rep.rule('refusal: combinations without such an operation build nothing and yield the error instruction')
    with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
        res = pool.map(_work, range(len(_R.entries)), chunksize=1)
    tot = b = 0
    for x in res:
        if len(x) == 2:
            raise AnalysisError(x[1])
        ei, n, built, bad = x
        label, fn, form, op = _R.entries[ei]
        tot += n; b += built
        for _ in range(n - len(bad)):
            rep.ok()
        if built == 0:
            bad = bad or ['%s never builds anything' % label]
        for i, m in enumerate(bad[:3]):
            rep.bad('%s#%d' % (label, i), fn.loc(), m + (' (and %d more combinations)' % (len(bad) - 3) if len(bad) > 3 and i == 2 else ''))
        rep.sample('%s: %d operand type combinations, %d built' % (label, n, built))
    rep.count('operations judged', len(_R.entries))
    rep.count('operand type combinations', tot)
    rep.count('combinations built', b)
    rep.need('operations judged', len(_R.entries), 50)

"""C22: the structured control-flow helpers of BasicBlock (If, Loop), returnValue, Function::addBasicBlock/variable and the terminator queries,
propagated through their real code over canonical functions whose blocks are empty, unterminated or terminated in each possible way."""
import itertools
from sa import shape
from sa.absint import State, ZERO, VOID, Interp
from sa.blocks import Blocks, BlockInterp, BB, FUNC
from sa.facts import AnalysisError, Undetermined
from sa.world import INSTR, find_field
from checks.c13 import flagfield

TERMS = ('OpReturn', 'OpReturnValue', 'OpKill', 'OpUnreachable', 'OpBranch', 'OpBranchConditional', 'OpSwitch', 'OpTerminateInvocation')
HOOKS = {'inst_true': 'T', 'inst_false': 'F', 'inst_body': 'B', 'inst_continue': 'C', 'inst_cond': 'cond'}


class CtlInterp(BlockInterp):
    def model(self, st, fr, n, fn, obj, args):
        nm = n.get('n')
        if nm in HOOKS and not n.get('c'):
            return self.types.hook(st, fr, n, HOOKS[nm], args[0][1])
        return super().model(st, fr, n, fn, obj, args)


class World(Blocks):
    def __init__(self, fx):
        super().__init__(fx)
        self.ip = CtlInterp(fx); self.ip.types = self
        self.addinstr = fx.method(BB, 'addInstruction')
        p = Interp(fx)
        fld = lambda cls, m: next((f for f in (find_field(v) for s, v in p.run(fx.method(cls, m, lambda f: not f.params and not f.d.get('const') or m == 'getFunction'))) if f), None)
        self.ffield = fld(BB, 'getFunction'); self.lfield = fld(BB, 'getLabel')
        if not self.ffield or not self.lfield:
            raise AnalysisError('members behind BasicBlock::getFunction / getLabel not found')
        self.scen = {}
        self.blocks = {}
        self.FL = flagfield(fx)
        self.func = ('obj', 'func')

    def function(self, st, names):
        """function holding one empty block per name"""
        self.blocks = dict(zip(names, shape.mklist(st, self.func, names)))
        st.mem[('f', self.func, 'm_pAllocator')] = self.alloc
        for n, b in self.blocks.items():
            shape.mklist(st, b, [])
            st.mem[('f', b, 'm_pAllocator')] = self.alloc
            st.mem[('f', b, self.ffield)] = ('p', self.func)
            lab = ('f', b, self.lfield)
            self._instr(st, lab, self.T.op['OpLabel'], [('id', ('i', 300 + len(n)))], 'lab' + n)
            self.own_(st, lab, b)

    def own_(self, st, loc, b):
        s = self.own(st, loc, b)
        if s is not st:
            st.mem = s.mem; st.facts = s.facts

    def content(self, st, b, names_ops):
        """fills an empty block: [(name, op, operands)]; returns the locations"""
        bn = repr(b)
        locs = shape.mklist(st, b, ['%s:%s' % (bn, n) for n, _, _ in names_ops])
        for l, (n, op, ops) in zip(locs, names_ops):
            self._instr(st, l, self.T.op[op], ops, '%s:%s' % (bn, n))
            self.own_(st, l, b)
        return locs

    def term_ops(self, op):
        o = ('p', ('obj', 'elsewhere'))
        x = ('instr', ('p', ('obj', 'someval')))
        return {'OpBranch': [('block', o)], 'OpBranchConditional': [x, ('block', o), ('block', o)], 'OpSwitch': [x, ('block', o)], 'OpReturnValue': [x]}.get(op, [])

    def scenario(self, kind):
        """instructions a block gets: [] / one plain / one plain and a terminator / a terminator only"""
        if kind == 'empty': return []
        out = [('body', 'OpIAdd', [])]
        if kind == 'plain': return out
        if kind.startswith('only:'): return [('end', kind[5:], self.term_ops(kind[5:]))]
        return out + [('end', kind, self.term_ops(kind))]

    def hook(self, st, fr, n, role, b):
        """what the caller's lambda does with the block it is given"""
        st.emit('hook', role, b)
        cur = [st]
        ret = VOID
        for i, (nm, op, ops) in enumerate(self.scenario(self.scen.get(role, 'plain'))):
            r = self.ip.invoke(st, fr, self.addinstr, ('p', b), [], n)
            if len(r) != 1:
                raise Undetermined('addInstruction has %d paths' % len(r))
            st, v = r[0]
            if v[0] != 'p':
                raise AnalysisError('addInstruction does not return a concrete instruction')
            self._instr(st, v[1], self.T.op[op], ops, 'hk%s%d' % (role, i))
            ret = v
        if role == 'cond' and ret == VOID:
            ret = ('p', ('obj', 'someval'))
        return [(st, ret)]

    def show(self, st, b):
        return [self.instr_at(st, l) for l in self.listed(st, b)]


def sh(x):
    return '[%s]' % ', '.join('%s(%s)' % (o, ', '.join(str(v[1]) if isinstance(v, tuple) and len(v) > 1 else str(v) for k, v in ops)) for o, ops in x)


class Ctl:
    def __init__(self, fx, rep):
        self.fx = fx; self.rep = rep; self.W = World(fx); self.T = self.W.T
        self.n = 0

    def owner(self, s, l):
        """the block an instruction names"""
        r = Interp(self.W.ip.fx).run(self.W.ip.fx.method('spvgentwo::Instruction', 'getBasicBlock', lambda f: not f.params), this=('p', l), args=[], st=s.fork())
        return r[0][1] if len(r) == 1 else None

    def flag(self, st, v):
        st.mem[('f', ('tmp', 'mask'), self.W.FL)] = ('i', v)
        return ('o', ('tmp', 'mask'))

    def begin(self, extra=()):
        st = State()
        W = self.W
        W.function(st, ['bb', 'mrg'] + list(extra))
        W.content(st, W.blocks['bb'], [('prev', 'OpIAdd', [])])
        W.content(st, W.blocks['mrg'], [])
        return st

    def judge(self, label, fn, st, args, this, expect, own_blocks):
        """one run; expect(state, value, new blocks, hook map) yields (block, wanted instructions) after its prefix; own_blocks must be untouched otherwise"""
        W = self.W
        before = W.listed(st, W.func)
        pre = {b: [W.instr_at(st, l) for l in W.listed(st, b)] for b in before}
        outs = W.ip.run(fn, this=this, args=args, st=st)
        if not outs:
            self.rep.bad('%s:returns' % label.split(' ')[0], fn.loc(), '%s: no path returns' % label); return
        for s, v in outs:
            self.n += 1
            after = W.listed(s, W.func)
            new = [b for b in after if b not in before]
            hooks = {e[1]: e[2] for e in s.events() if e[0] == 'hook'}
            hcount = [e[1] for e in s.events() if e[0] == 'hook']
            key = label.split(' ')[0]
            if any(e[0] == 'nullderef' for e in s.events()):
                self.rep.bad(key + ':null', fn.loc(), '%s dereferences a null pointer' % label); continue
            if [b for b in after if b in before] != before:
                self.rep.bad(key + ':blocks', fn.loc(), '%s removes or reorders blocks of the function' % label); continue
            ok = True
            for b in new:
                lab = W.instr_at(s, ('f', b, W.lfield))
                if lab[0] != 'OpLabel' or W.ip.load(s, ('f', b, W.ffield)) != ('p', W.func):
                    self.rep.bad(key + ':newblock', fn.loc(), '%s adds a block without label or function' % label); ok = False
            try:
                want, ret, nnew = expect(s, v, new, hooks)
            except LookupError as e:
                self.rep.bad(key + ':shape', fn.loc(), '%s: %s' % (label, e)); continue
            if len(new) != nnew:
                self.rep.bad(key + ':newblocks', fn.loc(), '%s adds %d blocks to the function, expected %d' % (label, len(new), nnew)); ok = False
            if len(set(hcount)) != len(hcount):
                self.rep.bad(key + ':calls', fn.loc(), '%s calls a function of the caller twice' % label); ok = False
            if ret is not None and v not in (('ref', ret), ('p', ret)):
                self.rep.bad(key + ':result', fn.loc(), '%s returns %s instead of the merge block' % (label, v,)); ok = False
            for b in after:
                got = [W.instr_at(s, l) for l in W.listed(s, b)]
                alts = want.get(b)
                if alts is None:
                    alts = [pre.get(b, [])]
                if got not in alts:
                    self.rep.bad(key + ':' + self.role(b, new, hooks), fn.loc(), '%s: block %s ends up as %s, expected %s' % (label, self.role(b, new, hooks), sh(got), ' or '.join(sh(a) for a in alts))); ok = False
                for l in W.listed(s, b):
                    if self.owner(s, l) != ('p', b):
                        self.rep.bad(key + ':parent', fn.loc(), '%s adds an instruction whose parent is not the block it is in' % label); ok = False
            if ok: self.rep.ok()
        self.rep.sample('%s: %d paths' % (label, len(outs)))

    def role(self, b, new, hooks):
        for k, x in list(hooks.items()) + list(self.W.blocks.items()):
            if x == b: return k
        return 'new%d' % new.index(b) if b in new else '?'

    def close(self, kind, prefix, branch, optional_empty=False):
        """contents a region block may end with: branch added unless it is terminated already"""
        if kind == 'empty':
            return [[branch]] + ([[]] if optional_empty else [])
        if kind == 'plain':
            return [prefix + [branch]]
        return [prefix]

    # ------------------------------------------------------------------ If
    def ifs(self):
        W = self.W; rep = self.rep; T = self.T
        c = ('p', ('obj', 'someval'))
        kinds = ['empty', 'plain'] + list(TERMS) + ['only:OpBranch', 'only:OpKill']
        mask = self.fx.enums['spvgentwo::spv::SelectionControlMask']['v'][-1][1]
        tmpl = {2: self.fx.one('inst_if_else', lambda f: f.body is not None), 1: self.fx.one('inst_if', lambda f: f.body is not None)}
        plain = {}
        for f in self.fx.by_cls[BB]:
            if f.name == 'If' and f.body is not None and not f.d.get('ta') and all('(lambda' not in f.tu.types[p['t']] for p in f.params):
                plain[len([p for p in f.params if 'BasicBlock &' in f.tu.types[p['t']]])] = f
        if sorted(plain) != [1, 2]:
            raise AnalysisError('BasicBlock::If overloads for given blocks: %s' % sorted(plain))
        for nreg in (1, 2):
            for given in (0, 1):
                for ks in itertools.product(kinds, repeat=nreg):
                    if nreg == 2 and ks[0] not in ('empty', 'plain', 'OpKill') and ks[1] not in ('empty', 'plain', 'OpKill'):
                        continue
                    # lambdas
                    st = self.begin()
                    W.scen = dict(zip('TF', ks))
                    m = ('p', W.blocks['mrg']) if given else ZERO

                    def expect(s, v, new, hooks, tm=True):
                        roles = dict(hooks)
                        missing = [r for r in 'TF'[:nreg] if r not in roles]
                        if missing: raise LookupError('the function for %s is not called' % missing)
                        merge = W.blocks['mrg'] if given else next((b for b in new if b not in roles.values()), None)
                        if merge is None: raise LookupError('no merge block')
                        reg = [roles[r] for r in 'TF'[:nreg]]
                        return self.if_want(s, reg, ks, merge, c, mask, False), merge, nreg + (0 if given else 1)
                    self.judge('If/%d given=%d blocks=%s' % (nreg, given, '/'.join(ks)), tmpl[nreg], st, [('ref', W.blocks['bb']), c, m, self.flag(st, mask)], None, expect, ())
                    # given blocks
                    st = self.begin(['t', 'f'][:nreg])
                    m = ('p', W.blocks['mrg']) if given else ZERO
                    for nme, k in zip('tf', ks):
                        W.content(st, W.blocks[nme], W.scenario(k))

                    def expect2(s, v, new, hooks):
                        merge = W.blocks['mrg'] if given else (new[0] if new else None)
                        if merge is None: raise LookupError('no merge block')
                        return self.if_want(s, [W.blocks[x] for x in 'tf'[:nreg]], ks, merge, c, mask, True), merge, 0 if given else 1
                    args = [c] + [('ref', W.blocks[x]) for x in 'tf'[:nreg]] + [m, self.flag(st, mask)]
                    self.judge('If(blocks)/%d given=%d blocks=%s' % (nreg, given, '/'.join(ks)), plain[nreg], st, args, ('p', W.blocks['bb']), expect2, ())

    def raw(self, kind):
        """(op, operands as read back) of a scenario's instructions"""
        return [(op, list(ops)) for _, op, ops in self.W.scenario(kind)]

    def if_want(self, s, reg, ks, merge, c, mask, opt):
        W = self.W
        br = ('OpBranch', [('block', ('p', merge))])
        f = reg[1] if len(reg) > 1 else merge
        want = {W.blocks['bb']: [[('OpIAdd', []), ('OpSelectionMerge', [('block', ('p', merge)), ('lit', ('i', mask))]),
                                 ('OpBranchConditional', [('instr', c), ('block', ('p', reg[0])), ('block', ('p', f))])]], merge: [[]]}
        for b, k in zip(reg, ks):
            want[b] = self.close(k, self.raw(k), br, opt)
        return want

    # ------------------------------------------------------------------ Loop
    def loops(self):
        W = self.W
        kinds = ['empty', 'plain', 'OpKill', 'OpReturn', 'OpBranch', 'OpBranchConditional', 'OpSwitch', 'only:OpKill']
        mask = self.fx.enums['spvgentwo::spv::LoopControlMask']['v'][1][1]
        tm = self.fx.one('inst_loop', lambda f: f.body is not None)
        pl = [f for f in self.fx.by_cls[BB] if f.name == 'Loop' and f.body is not None and all('(lambda' not in f.tu.types[p['t']] for p in f.params)]
        if len(pl) != 1:
            raise AnalysisError('BasicBlock::Loop overloads for given blocks: %d' % len(pl))
        for given in (0, 1):
            for kb in kinds:
                for kc in kinds:
                    if kb not in ('plain', 'empty') and kc not in ('plain', 'empty'):
                        continue
                    st = self.begin()
                    W.scen = {'B': kb, 'C': kc, 'cond': 'plain'}
                    m = ('p', W.blocks['mrg']) if given else ZERO

                    def expect(s, v, new, hooks):
                        for r in ('cond', 'B', 'C'):
                            if r not in hooks: raise LookupError('the %s function is not called' % {'cond': 'condition', 'B': 'body', 'C': 'continue'}[r])
                        if len({hooks[r] for r in hooks}) != 3: raise LookupError('condition, body and continue share a block')
                        merge = W.blocks['mrg'] if given else (v[1] if v[0] in ('ref', 'p') else None)
                        head = [b for b in new if b not in hooks.values() and b != merge]
                        if len(head) != 1: raise LookupError('%d loop header blocks' % len(head))
                        h = head[0]
                        if new.index(h) > min(new.index(b) for b in hooks.values()): raise LookupError('the loop header comes after a block it dominates')
                        if new.index(hooks['cond']) > new.index(hooks['B']): raise LookupError('the condition block comes after the body it dominates')
                        cond = ('p', W.listed(s, hooks['cond'])[0])
                        p = lambda b: ('block', ('p', b))
                        want = {W.blocks['bb']: [[('OpIAdd', []), ('OpBranch', [p(h)])]],
                                h: [[('OpLoopMerge', [p(merge), p(hooks['C']), ('lit', ('i', mask))]), ('OpBranch', [p(hooks['cond'])])]],
                                hooks['cond']: [[('OpIAdd', []), ('OpBranchConditional', [('instr', cond), p(hooks['B']), p(merge)])]],
                                hooks['B']: self.close(kb, self.raw(kb), ('OpBranch', [p(hooks['C'])])),
                                hooks['C']: self.close(kc, self.raw(kc), ('OpBranch', [p(h)])), merge: [[]]}
                        return want, merge, 4 + (0 if given else 1)
                    self.judge('Loop given=%d body=%s continue=%s' % (given, kb, kc), tm, st, [('ref', W.blocks['bb']), m, self.flag(st, mask)], None, expect, ())
                    st = self.begin(['cnd', 'body', 'cont'])
                    m = ('p', W.blocks['mrg']) if given else ZERO
                    cl = W.content(st, W.blocks['cnd'], W.scenario('plain'))
                    W.content(st, W.blocks['body'], W.scenario(kb)); W.content(st, W.blocks['cont'], W.scenario(kc))

                    def expect2(s, v, new, hooks):
                        merge = W.blocks['mrg'] if given else (new[0] if new else None)
                        if merge is None: raise LookupError('no merge block')
                        p = lambda b: ('block', ('p', b))
                        B = W.blocks
                        want = {B['bb']: [[('OpIAdd', []), ('OpLoopMerge', [p(merge), p(B['cont']), ('lit', ('i', mask))]), ('OpBranch', [p(B['cnd'])])]],
                                B['cnd']: [[('OpIAdd', []), ('OpBranchConditional', [('instr', ('p', cl[0])), p(B['body']), p(merge)])]],
                                B['body']: self.close(kb, self.raw(kb), ('OpBranch', [p(B['cont'])])),
                                B['cont']: self.close(kc, self.raw(kc), ('OpBranch', [p(B['bb'])])), merge: [[]]}
                        return want, merge, 0 if given else 1
                    args = [('p', cl[0]), ('ref', W.blocks['cont']), ('ref', W.blocks['body']), m, self.flag(st, mask)]
                    self.judge('Loop(blocks) given=%d body=%s continue=%s' % (given, kb, kc), pl[0], st, args, ('p', W.blocks['bb']), expect2, ())


def check(fx, rep):
    c = Ctl(fx, rep)
    rep.rule('header: the block ends with the merge instruction (merge block, continue target, control mask) directly followed by the branch to the regions')
    rep.rule('regions: every region that is not terminated yet gets exactly one branch to its target (merge, continue or header); a terminated region stays as it is')
    rep.rule('blocks: exactly the new blocks are appended to the function, each with a label; the merge block is returned and left empty')
    c.ifs()
    c.loops()
    rep.count('helper paths', c.n)
    rep.need('helper paths', c.n, 100)

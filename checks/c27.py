"""C27: functions and entry points are assembled as declared: the real constructors, setters and finalizers are followed over canonical functions,
the instructions and type they leave behind are compared with what the calls asked for; entry point interfaces over canonical call graphs."""
import itertools
from sa import shape
from sa.absint import State, ZERO, VOID, Interp
from sa.blocks import BB, FUNC
from sa.facts import AnalysisError, Undetermined
from sa.live import Live
from sa.types import MOD
from sa.world import INSTR, find_field
from c22 import World, sh

EP = 'spvgentwo::EntryPoint'
S = 'spvgentwo::spv::'


class FnWorld(World):
    def __init__(self, fx):
        super().__init__(fx)
        self.alloc = ('p', ('obj', 'alloc'))
        p = Interp(fx)

        def field(cls, m, pred=lambda f: not f.params):
            for f in [x for x in fx.by_cls[cls] if x.name == m and pred(x)]:
                for s, v in p.run(f):
                    r = find_field(v)
                    if r: return r
            raise AnalysisError('member behind %s::%s not found' % (cls, m))
        self.opfn = field(FUNC, 'getFunction'); self.opend = field(FUNC, 'getFunctionEnd'); self.ftype = field(FUNC, 'getFunctionType'); self.pars = field(FUNC, 'getParameters')
        self.opep = field(EP, 'getEntryPoint')
        self.modes = field(MOD, 'getExecutionModes')
        self.setparent_f = fx.method(INSTR, 'setParent', lambda f: f.tu.types[f.params[0]['t']] == 'spvgentwo::Function *')

    def ownf(self, st, loc, f):
        for x in ('pBasicBlock', 'pFunction', 'pModule'):
            st.mem[('f', ('f', loc, 'm_parent'), x)] = ZERO
        st.mem[('f', loc, 'm_pAllocator')] = ZERO
        r = self.ip.run(self.setparent_f, this=('p', loc), args=[('p', f)], st=st)
        if len(r) != 1:
            raise Undetermined('setParent(Function) has %d paths' % len(r))
        if r[0][0] is not st:
            st.mem = r[0][0].mem; st.facts = r[0][0].facts

    def mkfunc(self, st, f, blocks):
        """function object at f with empty blocks; returns {name: location}"""
        locs = shape.mklist(st, f, blocks)
        st.mem[('f', f, 'm_pAllocator')] = self.alloc
        for n, b in zip(blocks, locs):
            shape.mklist(st, b, [])
            st.mem[('f', b, 'm_pAllocator')] = self.alloc
            st.mem[('f', b, self.ffield)] = ('p', f)
            lab = ('f', b, self.lfield)
            self._instr(st, lab, self.T.op['OpLabel'], [('id', ('i', 300 + len(n)))], 'lab' + n)
            self.own_(st, lab, b)
        I = ('f', f, self.opfn)
        self._instr(st, I, self.T.op['OpFunction'], [('instr', ('p', self.need(st, self.T.void()))), ('id', ('i', 700)), ('lit', ('i', 0)), ('instr', ('p', self.need(st, self.T.fn(self.T.void()))))], 'fn' + repr(f))
        self.ownf(st, I, f)
        shape.mklist(st, ('f', f, self.pars), [])
        self.put_at(st, ('f', f, self.ftype), self.T.fn(self.T.void()), 'ft' + repr(f))
        return dict(zip(blocks, locs))


class Fns:
    def __init__(self, fx, rep):
        self.fx = fx; self.rep = rep; self.W = FnWorld(fx); self.T = self.W.T; self.n = 0
        self.f = ('obj', 'fun')

    def m(self, cls, name, np=None, pred=lambda f: True):
        return self.fx.method(cls, name, lambda f: f.body is not None and (np is None or len(f.params) == np) and pred(f))

    def ctor(self, cls, n, ptypes=()):
        c = [f for f in self.fx.by_cls[cls] if f.d.get('ctor') and len(f.params) == n and not any('&&' in f.tu.types[p['t']] or (f.tu.types[p['t']].startswith('const ' + cls)) for p in f.params)
             and (n != 2 or True)]
        if len(c) != 1:
            raise AnalysisError('%s constructors with %d parameters: %d' % (cls, n, len(c)))
        return c[0]

    def go(self, what, fn, this, args, st, one=True):
        """runs fn; exactly one path without null dereference expected (everything is concrete); returns (state, value)"""
        outs = self.W.ip.run(fn, this=this, args=args, st=st)
        self.n += len(outs)
        if len(outs) != 1:
            raise Undetermined('%s: %d paths on a concrete function' % (what, len(outs)))
        if any(e[0] == 'nullderef' for e in outs[0][0].events()):
            self.rep.bad(what.split(' ')[0] + ':null', fn.loc(), '%s dereferences a null pointer' % what)
        return outs[0]

    def flag(self, st, v):
        return self.W_flag(st, v)

    def W_flag(self, st, v):
        st.mem[('f', ('tmp', 'ctl'), self.W.FL)] = ('i', v)
        return ('o', ('tmp', 'ctl'))

    def ti(self, st, t):
        return ('p', self.W.need(st, t))

    def names(self, s):
        return [e[1] for e in s.events() if e[0] == 'name']

    def ftype(self, s):
        return self.W.read(s, ('f', self.f, self.W.ftype))

    def owner(self, s, l):
        r = Interp(self.W.ip.fx).run(self.W.ip.fx.method(INSTR, 'getFunction', lambda f: not f.params), this=('p', l), args=[], st=s.fork())
        return r[0][1] if len(r) == 1 else None

    def params(self, s):
        return self.W.listed(s, ('f', self.f, self.W.pars))

    # ------------------------------------------------------------- signature
    def want_sig(self, what, fn, s, ret, params, ctl, name, built=True):
        """the function object afterwards: type, parameters, OpFunction, OpFunctionEnd, name"""
        W = self.W; T = self.T; rep = self.rep; k = what.split(' ')[0]
        ft = T.fn(ret, *params)
        rep.check(self.ftype(s) == ft, k + ':type', fn.loc(), '%s: function type is %s, expected %s' % (what, T.show(self.ftype(s)), T.show(ft)))
        pl = self.params(s)
        got = [W.instr_at(s, l) for l in pl]
        ok = len(got) == len(params) and all(g[0] == 'OpFunctionParameter' and len(g[1]) == 2 and g[1][0] == ('instr', ('p', W.need(s, t))) and g[1][1][0] == 'id' for g, t in zip(got, params))
        rep.check(ok, k + ':params', fn.loc(), '%s: parameters are %s, expected one OpFunctionParameter per type %s' % (what, sh(got), [T.show(t) for t in params]))
        for l in pl:
            rep.check(self.owner(s, l) == ('p', self.f), k + ':paramparent', fn.loc(), '%s: a parameter belongs to another function' % what)
        g = W.instr_at(s, ('f', self.f, W.opfn))
        if built:
            w = ('OpFunction', [('instr', ('p', W.need(s, ret))), None, ('lit', ('i', ctl)), ('instr', ('p', W.need(s, ft)))])
            ok = g[0] == w[0] and len(g[1]) == 4 and g[1][0] == w[1][0] and g[1][1][0] == 'id' and g[1][2:] == w[1][2:]
            rep.check(ok, k + ':opfunction', fn.loc(), '%s: OpFunction is %s, expected %s' % (what, sh([g]), 'return type %s, control %d, function type %s' % (T.show(ret), ctl, T.show(ft))))
            want = [('p', ('f', self.f, W.opfn))] if name else []
            rep.check(self.names(s) == want, k + ':name', fn.loc(), '%s: %d names given to %s, expected %s' % (what, len(self.names(s)), self.names(s), 'the function' if name else 'none'))
        else:
            rep.check(g[0] != 'OpFunction', k + ':unbuilt', fn.loc(), '%s: OpFunction is built although the function is not finalized' % what)
        e = W.instr_at(s, ('f', self.f, W.opend))
        rep.check(e == ('OpFunctionEnd', []), k + ':end', fn.loc(), '%s: function end is %s' % (what, sh([e])))

    def is_fin(self, s):
        f = self.m(FUNC, 'isFinalized', 0)
        return self.go('isFinalized', f, ('p', self.f), [], s.fork())[1]

    def signatures(self):
        W = self.W; T = self.T; rep = self.rep; fx = self.fx
        ctl = fx.enums[S + 'FunctionControlMask']['v'][2][1]
        dom = [T.void(), T.flt(), T.ptr('Function', T.vec(3, T.flt()))]
        plists = [(), (T.int(),), (T.flt(), T.vec(4, T.flt())), (T.int(), T.ptr('Uniform', T.flt()), T.int())]
        fin = self.m(FUNC, 'finalize', 2)
        add1 = self.m(FUNC, 'addParameters', 1)
        add2 = self.m(FUNC, 'addParameters', 2)
        sri = self.m(FUNC, 'setReturnType', 1, lambda f: f.tu.types[f.params[0]['t']].endswith('*'))
        srt = self.m(FUNC, 'setReturnType', 1, lambda f: f.tu.types[f.params[0]['t']].endswith('&'))
        gp = self.m(FUNC, 'getParameter', 1)
        gc = self.m(FUNC, 'getFunctionControl', 0)
        for ret in dom:
            for ps in plists:
                for named in (0, 1):
                    lab = '%s(%s)%s' % (T.show(ret), ', '.join(T.show(p) for p in ps), ' named' if named else '')
                    st = State()
                    s, v = self.go('Function::Function', self.ctor(FUNC, 1), ('p', self.f), [W.ip.module], st)
                    self.want_sig('Function::Function(Module*)', self.ctor(FUNC, 1), s, T.void(), (), 0, 0, built=False)
                    rep.check(W.ip.load(s, ('f', self.f, 'm_isEntryPoint')) == ZERO, 'Function::Function:flag', fin.loc(), 'a new Function calls itself an entry point')
                    rep.check(self.is_fin(s) == ZERO, 'isFinalized:new', self.m(FUNC, 'isFinalized', 0).loc(), 'isFinalized is true for a new function')
                    if named:
                        s, v = self.go('setReturnType ' + lab, sri, ('p', self.f), [self.ti(s, ret)], s)
                    else:
                        W.put_at(s, ('obj', 'rt'), ret, 'rt')
                        s, v = self.go('setReturnType ' + lab, srt, ('p', self.f), [('ref', ('obj', 'rt'))], s)
                    rep.check(v == ('i', 1), 'setReturnType:result', sri.loc(), 'setReturnType(%s) does not return true' % T.show(ret))
                    i = 0
                    last = None
                    while i < len(ps):
                        if i + 1 < len(ps) and named:
                            s, last = self.go('addParameters ' + lab, add2, ('p', self.f), [self.ti(s, ps[i]), self.ti(s, ps[i + 1])], s); i += 2
                        else:
                            s, last = self.go('addParameters ' + lab, add1, ('p', self.f), [self.ti(s, ps[i])], s); i += 1
                        pl = self.params(s)
                        rep.check(pl and last == ('p', pl[-1]), 'addParameters:result', add1.loc(), 'addParameters %s does not return the parameter it added last' % lab)
                    rep.check(self.is_fin(s) == ZERO, 'isFinalized:open', self.m(FUNC, 'isFinalized', 0).loc(), 'isFinalized is true for a function without OpFunction')
                    s, v = self.go('finalize ' + lab, fin, ('p', self.f), [self.flag(s, ctl), ('str', 'nm') if named else ZERO], s)
                    self.want_sig('finalize ' + lab, fin, s, ret, ps, ctl, named)
                    rep.check(v == ('p', ('f', self.f, W.opfn)), 'finalize:result', fin.loc(), 'finalize %s does not return OpFunction' % lab)
                    rep.check(self.is_fin(s) == ('i', 1), 'isFinalized:done', self.m(FUNC, 'isFinalized', 0).loc(), 'isFinalized is false for the finalized function %s' % lab)
                    pl = self.params(s)
                    for j in range(len(ps) + 2):
                        s2, v = self.go('getParameter', gp, ('p', self.f), [('i', j)], s.fork())
                        rep.check(v == (('p', pl[j]) if j < len(ps) else ZERO), 'getParameter', gp.loc(), 'getParameter(%d) of %s gives %s' % (j, lab, v))
                    s2, v = self.go('getFunctionControl', gc, ('p', self.f), [], s.fork())
                    v = W.ip.load(s2, ('f', v[1], W.FL)) if v[0] in ('o', 'ref') else v
                    rep.check(v == ('i', ctl), 'getFunctionControl', gc.loc(), 'getFunctionControl of a function built with %d gives %s' % (ctl, v))
                    # a further return type change through the setter is seen again
        # void parameters
        st = State()
        s, v = self.go('Function::Function', self.ctor(FUNC, 1), ('p', self.f), [W.ip.module], st)
        s, v = self.go('addParameters void', add1, ('p', self.f), [self.ti(s, T.void())], s)
        rep.check(v == ZERO and not self.params(s) and self.ftype(s) == T.fn(T.void()), 'addParameters:void', add1.loc(), 'addParameters(void) is not refused')
        # whole signature in the constructor
        for cls, n0 in ((FUNC, 0), (EP, 1)):
            for ps in ((), (T.int(), T.vec(2, T.flt())), (T.flt(),)):
                c = [f for f in fx.by_cls[cls] if f.d.get('ctor') and len(f.params) == 4 + n0 + len(ps)]
                if not c:
                    continue
                c = c[0]
                st = State()
                what = '%s signature (%s)' % (cls.split('::')[-1] + '::ctor', ', '.join(T.show(p) for p in ps))
                em = fx.enums[S + 'ExecutionModel']['v'][4][1]
                args = [W.ip.module] + ([('i', em)] if n0 else []) + [('str', 'mainfn'), self.flag(st, ctl), self.ti(st, T.flt())] + [self.ti(st, p) for p in ps]
                s, v = self.go(what, c, ('p', self.f), args, st)
                self.want_sig(what, c, s, T.flt(), ps, ctl, 1)
                if n0:
                    self.want_ep(what, c, s, em, 'mainfn')
        # function types
        sft = self.m(FUNC, 'setFunctionType', 1, lambda f: f.tu.types[f.params[0]['t']].endswith('*'))
        for t, ok in ((T.fn(T.flt(), T.int()), 1), (T.flt(), 0), (T.struct(T.flt()), 0)):
            st = State()
            s, v = self.go('Function::Function', self.ctor(FUNC, 1), ('p', self.f), [W.ip.module], st)
            s, v = self.go('setFunctionType ' + T.show(t), sft, ('p', self.f), [self.ti(s, t)], s)
            rep.check(v == ('i', ok) and self.ftype(s) == (t if ok else T.fn(T.void())), 'setFunctionType', sft.loc(), 'setFunctionType(%s) returns %s and leaves %s' % (T.show(t), v, T.show(self.ftype(s))))

    # ------------------------------------------------------------- entry points
    def string(self, n):
        w = []
        b = n.encode() + b'\0'
        b += b'\0' * (-len(b) % 4)
        for i in range(0, len(b), 4):
            w.append(('lit', ('i', int.from_bytes(b[i:i + 4], 'little'))))
        return w

    def want_ep(self, what, fn, s, model, name, iface=()):
        W = self.W; rep = self.rep; k = what.split(' ')[0]
        g = W.instr_at(s, ('f', self.f, W.opep))
        w = ('OpEntryPoint', [('lit', ('i', model)), ('instr', ('p', ('f', self.f, W.opfn)))] + self.string(name) + [('instr', x) for x in iface])
        rep.check(g == w, k + ':opentrypoint', fn.loc(), '%s: OpEntryPoint is %s, expected model %d, the function, name %r, interface of %d' % (what, sh([g]), model, name, len(iface)))
        gm = self.m(EP, 'getExecutionModel', 0)
        s2, v = self.go('getExecutionModel', gm, ('p', self.f), [], s.fork())
        rep.check(v == ('i', model), k + ':model', fn.loc(), '%s: getExecutionModel gives %s, expected %d' % (what, v, model))
        gn = self.m(EP, 'getName', 0)
        s2, v = self.go('getName', gn, ('p', self.f), [], s.fork())
        chars = None
        if v == ('str', name): chars = name
        elif v[0] == 'p':
            cs = [W.ip.load(s2, W.ip.idx(v[1], ('i', i))) for i in range(len(name) + 1)]
            chars = ''.join(chr(c[1]) if c[0] == 'i' else '?' for c in cs)
            chars = chars[:-1] if chars.endswith('\0') else chars + '..'
        rep.check(chars == name, k + ':epname', fn.loc(), '%s: getName gives %r, expected %r' % (what, chars, name))
        rep.check(W.ip.load(s, ('f', self.f, 'm_isEntryPoint')) == ('i', 1), k + ':flag', fn.loc(), '%s: the entry point is not flagged as one' % what)
        gi = self.m(EP, 'getInterfaceVariables', 0)
        s2, v = self.go('getInterfaceVariables', gi, ('p', self.f), [], s.fork())
        ops = W.listed(s, ('f', self.f, W.opep))
        first = W.ip.load(s2, ('f', ('f', v[1], 'm_Begin'), 'm_pEntry')) if v[0] in ('o', 'ref') else None
        exp = ('p', ops[-len(iface)][1]) if iface else ZERO
        rep.check(first == exp, k + ':iface', gi.loc(), '%s: getInterfaceVariables starts at %s, expected %s' % (what, first, exp))

    def entries(self):
        W = self.W; T = self.T; rep = self.rep; fx = self.fx
        fin = self.m(EP, 'finalize', 3)
        models = [x[1] for x in fx.enums[S + 'ExecutionModel']['v']]
        for name in ('main', 'abc', 'a', 'abcdefg'):
            for em in (models[0], models[5]):
                st = State()
                s, v = self.go('EntryPoint::EntryPoint', self.ctor(EP, 1), ('p', self.f), [W.ip.module], st)
                s, v = self.go('EntryPoint::finalize %s' % name, fin, ('p', self.f), [('i', em), self.flag(s, 1), ('str', name)], s)
                self.want_sig('EntryPoint::finalize %s' % name, fin, s, T.void(), (), 1, 1)
                self.want_ep('EntryPoint::finalize %s' % name, fin, s, em, name)
        # execution modes
        by = {}
        for f in fx.by_cls[EP]:
            if f.name == 'addExecutionMode':
                by[(len(f.params) - 1, 'id' if len(f.params) > 1 and f.tu.types[f.params[1]['t']].endswith('*') else 'lit')] = f
        em = {x[0]: x[1] for x in fx.enums[S + 'ExecutionMode']['v']}
        cases = [('OriginUpperLeft', 0, 'lit', 'OpExecutionMode'), ('Invocations', 1, 'lit', 'OpExecutionMode'), ('LocalSize', 3, 'lit', 'OpExecutionMode'),
                 ('LocalSizeId', 3, 'id', 'OpExecutionModeId'), ('SubgroupsPerWorkgroupId', 1, 'id', 'OpExecutionModeId')]
        for mode, na, kind, op in cases:
            f = by.get((na, kind)) or by.get((na, 'lit'))
            if f is None:
                raise AnalysisError('addExecutionMode with %d %s arguments not instantiated' % (na, kind))
            st = State()
            W.mkfunc(st, self.f, [])
            ml = ('f', ('obj', 'module'), W.modes)
            shape.mklist(st, ml, [])
            st.mem[('f', ml, 'm_pAllocator')] = W.alloc
            args = [('i', 11 + i) for i in range(na)] if kind == 'lit' else [('p', W.const_loc(st, 40 + i)) for i in range(na)]
            s, v = self.go('addExecutionMode %s' % mode, f, ('p', self.f), [('i', em[mode])] + args, st)
            l = W.listed(s, ml)
            got = [W.instr_at(s, x) for x in l]
            w = [(op, [('instr', ('p', ('f', self.f, W.opfn))), ('lit', ('i', em[mode]))] + [('lit', a) if kind == 'lit' else ('instr', a) for a in args])]
            rep.check(got == w and v == ('p', l[0]), 'addExecutionMode', f.loc(), 'addExecutionMode(%s, %d arguments) adds %s, expected %s' % (mode, na, sh(got), sh(w)))

    # ------------------------------------------------------------- interface
    def variables(self):
        W = self.W; T = self.T; rep = self.rep; fx = self.fx
        fgi = self.m(EP, 'finalizeGlobalInterface', 1)
        ver = {x[0]: x[1] for x in fx.enums['spvgentwo::GlobalInterfaceVersion']['v']}
        scs = sorted(set(v for k, v in T.sc.items() if k != 'Max'))
        inout = {T.sc['Input'], T.sc['Output']}
        vers = sorted(ver.values())
        if len(vers) != 2:
            raise AnalysisError('GlobalInterfaceVersion has %d values' % len(vers))

        def var(st, name, sc):
            I = ('obj', name)
            W._instr(st, I, T.op['OpVariable'], [('instr', ('p', W.need(st, T.mk('OpTypePointer', sc=None, subs=(T.flt(),))))), ('id', ('i', 800)), ('lit', ('i', sc))], 'var' + name)
            return I
        # what ends up in the interface, per storage class
        for vn, vv in sorted(ver.items()):
            for sc in scs:
                st = State()
                B = W.mkfunc(st, self.f, ['b0'])
                g = var(st, 'g', sc)
                W.content(st, B['b0'], [('ld', 'OpLoad', [('instr', ('p', ('obj', 'Ty'))), ('id', ('i', 5)), ('instr', ('p', g))])])
                W._instr(st, ('obj', 'Ty'), T.op['OpTypeFloat'], [('id', ('i', 4)), ('lit', ('i', 32))], 'ty')
                self.ep(st, [])
                want = [('p', g)] if (sc in inout if vv == ver[min(ver, key=ver.get)] else sc != T.sc['Function']) else []
                s, v = self.go('finalizeGlobalInterface', fgi, ('p', self.f), [('i', vv)], st)
                self.want_iface('storage class %d, %s' % (sc, vn), fgi, s, want)
        # where variables are found: every operand position, every block, called functions, recursion; no duplicates; old interface dropped
        i0, i1, i2, i3 = 'i0', 'i1', 'i2', 'i3'
        sc = T.sc['Input']
        st0 = lambda: State()
        val = lambda st, n: ('instr', ('p', self.plainval(st, n)))
        shapes = {}
        tyo = lambda st: ('instr', ('p', self.tyi(st)))

        def s_two(st):
            B = W.mkfunc(st, self.f, ['b0', 'b1'])
            a, b, c = var(st, i0, sc), var(st, i1, sc), var(st, i2, T.sc['Output'])
            W.content(st, B['b0'], [('st', 'OpStore', [('instr', ('p', c)), val(st, 'x')]), ('cp', 'OpCopyMemory', [('instr', ('p', a)), ('instr', ('p', b))])])
            W.content(st, B['b1'], [('ld', 'OpLoad', [tyo(st), ('id', ('i', 5)), ('instr', ('p', a))]), ('ret', 'OpReturn', [])])
            return [c, a, b]

        def s_old(st):
            B = W.mkfunc(st, self.f, ['b0'])
            a, b = var(st, i0, sc), var(st, i1, sc)
            W.content(st, B['b0'], [('ld', 'OpLoad', [tyo(st), ('id', ('i', 5)), ('instr', ('p', a))])])
            return [a], [b, a]

        def call(st, f2):
            return [tyo(st), ('id', ('i', 6)), ('instr', ('p', ('f', f2, W.opfn)))]

        def s_calls(st):
            g, h = ('obj', 'gfn'), ('obj', 'hfn')
            B = W.mkfunc(st, self.f, ['b0']); G = W.mkfunc(st, g, ['g0', 'g1']); H = W.mkfunc(st, h, ['h0', 'h1'])
            v = [var(st, 'i%d' % k, sc) for k in range(5)]
            W.content(st, B['b0'], [('c', 'OpFunctionCall', call(st, g) + [('instr', ('p', v[0]))]), ('r', 'OpReturn', [])])
            W.content(st, G['g0'], [('b', 'OpBranch', [])])
            W.content(st, G['g1'], [('l', 'OpLoad', [tyo(st), ('id', ('i', 5)), ('instr', ('p', v[1]))]), ('c', 'OpFunctionCall', call(st, h))])
            W.content(st, H['h0'], [('c', 'OpFunctionCall', call(st, g)), ('c2', 'OpFunctionCall', call(st, h)), ('l', 'OpLoad', [tyo(st), ('id', ('i', 5)), ('instr', ('p', v[2]))])])
            W.content(st, H['h1'], [('s', 'OpStore', [('instr', ('p', v[3])), ('instr', ('p', v[1]))]), ('s2', 'OpStore', [('instr', ('p', v[4])), ('instr', ('p', v[0]))])])
            return v

        def s_none(st):
            B = W.mkfunc(st, self.f, ['b0'])
            W.content(st, B['b0'], [('r', 'OpReturn', [])])
            return [], [var(st, i0, sc)]
        # whatever instruction uses the variable, whatever terminates the blocks in front of it
        skip = {'OpFunctionCall', 'OpVariable', 'OpNop', 'OpFunction', 'OpFunctionEnd', 'OpLabel', 'OpFunctionParameter'}
        ops = sorted((n for n in T.op if n not in skip and not n.endswith(('KHR', 'EXT', 'NV', 'INTEL', 'AMD', 'AMDX', 'NVX', 'QCOM', 'ARM', 'GOOGLE')) and n != 'Max'), key=lambda n: T.op[n])
        def by_op(chunk):
            def mk(st):
                B = W.mkfunc(st, self.f, ['b0', 'b1'])
                vs = [var(st, 'u%d' % i, sc) for i in range(len(chunk))]
                W.content(st, B['b0'], [('r', 'OpBranch', [])])
                W.content(st, B['b1'], [('x%d' % i, n, [('lit', ('i', 1)), val(st, 'x'), ('instr', ('p', v))]) for i, (n, v) in enumerate(zip(chunk, vs))])
                return vs
            return mk
        def by_term(t):
            def mk(st):
                g = ('obj', 'gfn')
                B = W.mkfunc(st, self.f, ['b0', 'b1', 'b2']); G = W.mkfunc(st, g, ['g0', 'g1', 'g2'])
                v = [var(st, 'i%d' % k, sc) for k in range(4)]
                ld = lambda k: ('l%d' % k, 'OpLoad', [tyo(st), ('id', ('i', 5)), ('instr', ('p', v[k]))])
                W.content(st, B['b0'], [('t', t, [])])
                W.content(st, B['b1'], [('c', 'OpFunctionCall', call(st, g)), ld(0), ('t', t, [])])
                W.content(st, B['b2'], [ld(1), ('t', 'OpReturn', [])])
                W.content(st, G['g0'], [('t', t, [])])
                W.content(st, G['g1'], [ld(2), ('t', t, [])])
                W.content(st, G['g2'], [ld(3), ('t', 'OpReturn', [])])
                return v
            return mk
        for i in range(0, len(ops), 24):
            shapes['used by %s' % ops[i]] = by_op(ops[i:i + 24])
        for t in ('OpBranch', 'OpBranchConditional', 'OpSwitch', 'OpReturn', 'OpReturnValue', 'OpKill', 'OpUnreachable', 'OpTerminateInvocation'):
            shapes['blocks terminated by %s' % t] = by_term(t)
        rep.count('opcodes through which variables are referred to', len(ops))
        for nm, mk in tuple(shapes.items()) + (('several variables per instruction, two blocks', s_two), ('old interface', s_old), ('nested and recursive calls', s_calls), ('no variables, old interface', s_none)):
            for vn, vv in sorted(ver.items()):
                st = State()
                r = mk(st)
                want, old = r if isinstance(r, tuple) else (r, [])
                self.ep(st, [('p', x) for x in old])
                s, v = self.go('finalizeGlobalInterface %s' % nm, fgi, ('p', self.f), [('i', vv)], st)
                self.want_iface('%s, %s' % (nm, vn), fgi, s, [('p', x) for x in want])
        # the module picks the rule of its version, for every entry point
        fe = self.m(MOD, 'finalizeEntryPoints', 0)
        mv = self.fx.q('spvgentwo::makeVersion')[0]
        epf = None
        for f in fx.by_cls[MOD]:
            if f.name == 'getEntryPoints':
                for s, v in Interp(fx).run(f):
                    epf = epf or find_field(v)
        gv = self.m(MOD, 'getSpvVersion', 0)
        vf = None
        for s, v in Interp(fx).run(gv):
            vf = find_field(v)
        if epf is None or vf is None:
            raise AnalysisError('module members for entry points / version not found')
        for minor in range(0, 7):
            st = State()
            m = ('obj', 'module')
            locs = shape.mklist(st, ('f', m, epf), ['e0', 'e1'])
            s, v = self.W.ip.run(mv, args=[('i', 1), ('i', minor)], st=State())[0]
            st.mem[('f', m, vf)] = v
            calls = []
            ip = self.W.ip
            save = ip.model

            def model(st_, fr, n, fn, obj, args, save=save):
                if n.get('n') == 'finalizeGlobalInterface':
                    st_.emit('fgi', obj, args[0]); return [(st_, VOID)]
                return save(st_, fr, n, fn, obj, args)
            ip.model = model
            try:
                outs = ip.run(fe, this=('p', m), args=[], st=st)
            finally:
                ip.model = save
            w = ver['SpirV1_3'] if minor < 4 else ver['SpirV14_x'] if 'SpirV14_x' in ver else max(vers)
            for s, _ in outs:
                self.n += 1
                got = [(e[1][1] if isinstance(e[1], tuple) else e[1], e[2]) for e in s.events() if e[0] == 'fgi']
                rep.check(got == [(l, ('i', w)) for l in locs], 'finalizeEntryPoints', fe.loc(), 'finalizeEntryPoints of a 1.%d module calls finalizeGlobalInterface %s, expected rule %d for both entry points' % (minor, got, w))

    def plainval(self, st, n):
        I = ('obj', 'pv' + n)
        self.W._instr(st, I, self.T.op['OpUndef'], [('id', ('i', 901))], 'pv' + n)
        return I

    def tyi(self, st):
        I = ('obj', 'Ty')
        self.W._instr(st, I, self.T.op['OpTypeFloat'], [('id', ('i', 4)), ('lit', ('i', 32))], 'ty')
        return I

    def ep(self, st, old):
        I = ('f', self.f, self.W.opep)
        self.W._instr(st, I, self.T.op['OpEntryPoint'], [('lit', ('i', 4)), ('instr', ('p', ('f', self.f, self.W.opfn)))] + self.string('main') + [('instr', x) for x in old], 'ep')
        st.mem[('f', I, 'm_pAllocator')] = self.W.alloc
        self.W.ownf(st, I, self.f)

    def want_iface(self, what, fn, s, want):
        g = self.W.instr_at(s, ('f', self.f, self.W.opep))
        head = [('lit', ('i', 4)), ('instr', ('p', ('f', self.f, self.W.opfn)))] + self.string('main')
        got = g[1][len(head):]
        ok = g[0] == 'OpEntryPoint' and g[1][:len(head)] == head and sorted(map(repr, got)) == sorted(repr(('instr', x)) for x in want)
        self.rep.check(ok, 'interface:' + what.split(',')[0].split(' %')[0], fn.loc(), 'interface (%s) is %s, expected %s' % (what, sh([('', got)]), [x[1] for x in want]))

    # ------------------------------------------------------------- variables of a function, blocks
    def locals(self):
        W = self.W; T = self.T; rep = self.rep
        fv = [f for f in self.fx.by_cls[FUNC] if f.name == 'variable' and not f.d.get('ta') and f.body is not None]
        byp = {('type' if f.tu.types[f.params[0]['t']].endswith('&') else 'instr'): f for f in fv}
        if set(byp) != {'type', 'instr'}:
            raise AnalysisError('Function::variable overloads: %s' % sorted(byp))
        pt = T.ptr('Function', T.flt())
        for kind, t in (('instr', pt), ('type', pt), ('type', T.flt())):
            for nb in (0, 1, 2):
                for init in (0, 1):
                    for named in (0, 1):
                        st = State()
                        B = W.mkfunc(st, self.f, ['b0', 'b1'][:nb])
                        for b in B:
                            W.content(st, B[b], [('old', 'OpIAdd', []), ('t', 'OpReturn', [])])
                        ini = ('p', W.const_loc(st, 3)) if init else ZERO
                        if kind == 'instr': a = self.ti(st, t)
                        else:
                            W.put_at(st, ('obj', 'vt'), t, 'vt'); a = ('ref', ('obj', 'vt'))
                        what = 'variable(%s) blocks=%d init=%d' % (kind, nb, init)
                        f = byp[kind]
                        s, v = self.go('variable ' + what, f, ('p', self.f), [a, ('str', 'v') if named else ZERO, ini], st)
                        bl = W.listed(s, self.f)
                        k = 'variable:'
                        if not rep.check(len(bl) == max(nb, 1), k + 'blocks', f.loc(), '%s: the function has %d blocks afterwards' % (what, len(bl))):
                            continue
                        c = W.listed(s, bl[0])
                        g = W.instr_at(s, c[0]) if c else ('nothing', [])
                        w = [('instr', ('p', W.need(s, pt))), None, ('lit', ('i', T.sc['Function']))] + ([('instr', ini)] if init else [])
                        ok = g[0] == 'OpVariable' and len(g[1]) == len(w) and all(x is None or x == y for x, y in zip(w, g[1]))
                        rep.check(ok, k + 'instr', f.loc(), '%s: the entry block starts with %s, expected OpVariable %s' % (what, sh([g]), w))
                        rep.check(c and v == ('p', c[0]), k + 'result', f.loc(), '%s does not return the variable' % what)
                        rest = [[W.instr_at(s, x)[0] for x in W.listed(s, b)] for b in bl]
                        if c: rest[0] = rest[0][1:]
                        rep.check(rest == ([['OpIAdd', 'OpReturn']] * nb or [[]]), k + 'rest', f.loc(), '%s changes other instructions: %s' % (what, rest))
                        nm = [n for n in self.names(s) if n == v]
                        rep.check(len(nm) == named, k + 'name', f.loc(), '%s: %d names for the variable' % (what, len(nm)))

    def block(self):
        W = self.W; T = self.T; rep = self.rep
        rv = self.m(BB, 'returnValue', 1); gt = self.m(BB, 'getTerminator', 0); gb = self.m(BB, 'getBranchTargets', 1); rm = self.m(BB, 'remove', 1)
        dom = [T.flt(), T.int(), T.uint(), T.vec(3, T.flt()), T.vec(2, T.flt()), T.struct(T.flt()), T.ptr('Function', T.flt())]
        for ret in [T.void()] + dom:
            for val in [None] + dom + ['untyped']:
                st = State()
                B = W.mkfunc(st, self.f, ['b0'])
                W.put_at(st, ('f', self.f, W.ftype), T.fn(ret), 'ftx')
                W.content(st, B['b0'], [('old', 'OpIAdd', [])])
                a = ZERO
                if val == 'untyped':
                    a = ('p', ('obj', 'lbl')); W._instr(st, ('obj', 'lbl'), T.op['OpString'], [('id', ('i', 3))], 'lbl')
                elif val is not None:
                    a = ('p', W.value(st, 'val', val))
                what = 'returnValue(%s) in a function returning %s' % (T.show(val) if isinstance(val, tuple) else val, T.show(ret))
                s, v = self.go('returnValue', rv, ('p', B['b0']), [a], st)
                c = [W.instr_at(s, x) for x in W.listed(s, B['b0'])]
                if val is None and ret == T.void(): w = [('OpReturn', [])]
                elif val == ret: w = [('OpReturnValue', [('instr', a)])]
                else: w = []
                rep.check(c[1:] == w and c[0][0] == 'OpIAdd', 'returnValue:block', rv.loc(), '%s: block gets %s, expected %s' % (what, sh(c[1:]), sh(w)))
                l = W.listed(s, B['b0'])
                rep.check(v == (('p', l[-1]) if w else ZERO), 'returnValue:result', rv.loc(), '%s returns %s' % (what, v))
        # terminators and branch targets of every block content
        o = {n: ('obj', 'tgt' + n) for n in 'abc'}
        x = ('instr', ('p', ('obj', 'sel')))
        lit = ('lit', ('i', 7))
        b = lambda n: ('block', ('p', o[n]))
        contents = [([], []), ([('OpIAdd', [])], None), ([('OpReturn', [])], []), ([('OpKill', [])], []), ([('OpUnreachable', [])], []), ([('OpReturnValue', [x])], []),
                    ([('OpBranch', [b('a')])], 'a'), ([('OpBranchConditional', [x, b('a'), b('b')])], 'ab'), ([('OpBranchConditional', [x, b('a'), b('b'), lit, lit])], 'ab'),
                    ([('OpSwitch', [x, b('a')])], 'a'), ([('OpSwitch', [x, b('a'), lit, b('b'), lit, b('c')])], 'abc'), ([('OpSelectionMerge', [b('c'), lit]), ('OpBranch', [b('a')])], 'a'),
                    ([('OpLoopMerge', [b('c'), b('a'), lit])], None), ([('OpBranch', [('instr', 'label')])], 'L'), ([('OpBranchConditional', [x, ('instr', 'label'), b('c')])], 'Lc')]
        for ins, tg in contents:
            st = State()
            B = W.mkfunc(st, self.f, ['b0', 'lb'])
            o['L'] = B['lb']
            W._instr(st, ('obj', 'sel'), T.op['OpUndef'], [('id', ('i', 3))], 'sel')
            lab = ('p', ('f', B['lb'], W.lfield))
            l = W.content(st, B['b0'], [('i%d' % i, op, [(k, lab if v == 'label' else v) for k, v in ops]) for i, (op, ops) in enumerate(ins)])
            what = 'block %s' % [i[0] for i in ins]
            term = tg is not None and ins
            s, v = self.go('getTerminator', gt, ('p', B['b0']), [], st.fork())
            rep.check(v == (('p', l[-1]) if term else ZERO), 'getTerminator', gt.loc(), 'getTerminator of %s gives %s' % (what, v))
            shape.mklist(st, ('obj', 'out'), [])
            st.mem[('f', ('obj', 'out'), 'm_pAllocator')] = W.alloc
            s, v = self.go('getBranchTargets', gb, ('p', B['b0']), [('ref', ('obj', 'out'))], st.fork())
            got = [W.ip.load(s, x2) for x2 in W.listed(s, ('obj', 'out'))]
            rep.check(v == ('i', 1 if term else 0) and got == [('p', o[c]) for c in (tg or '')], 'getBranchTargets', gb.loc(), 'getBranchTargets of %s returns %s with %s, expected %s' % (what, v, got, list(tg or '')))
        # remove
        for n in (1, 2, 3):
            for i in list(range(n)) + ['other', 'null']:
                st = State()
                B = W.mkfunc(st, self.f, ['b0', 'b1'])
                l = W.content(st, B['b0'], [('r%d' % j, 'OpIAdd', []) for j in range(n)])
                l2 = W.content(st, B['b1'], [('q', 'OpIAdd', [])])
                a = ZERO if i == 'null' else ('p', l2[0] if i == 'other' else l[i])
                s, v = self.go('BasicBlock::remove', rm, ('p', B['b0']), [a], st)
                left = W.listed(s, B['b0'])
                w = [x2 for j, x2 in enumerate(l) if j != i]
                rep.check(left == w and W.listed(s, B['b1']) == l2 and v == ('i', 1 if isinstance(i, int) else 0), 'BasicBlock::remove', rm.loc(), 'remove(%s) of a block with %d instructions leaves %d and returns %s' % (i, n, len(left), v))


    # ------------------------------------------------------------- declared through the module
    def declared(self):
        """Module::addFunction<R, Ps...> and addEntryPoint<R, Ps...> followed on a module its own constructor made"""
        rep = self.rep; fx = self.fx
        L = Live(fx)
        ty = {'void': ('OpTypeVoid',), 'float': ('OpTypeFloat', 32), 'int': ('OpTypeInt', 32, 1), 'spvgentwo::vector_t<float, 3>': ('OpTypeVector', ('OpTypeFloat', 32), 3)}
        ctl = fx.enums[S + 'FunctionControlMask']['v'][2][1]
        n = 0

        def desc(st, p):
            if p[0] != 'p':
                return ('?', p)
            op, ops = L.instr(st, p[1])
            return (op,) + tuple(desc(st, v) if k == 'instr' else v[1] for k, v in ops if k != 'id')
        for f in sorted(fx.by_cls[MOD], key=lambda f: str(f.d.get('ta'))):
            if f.name not in ('addFunction', 'addEntryPoint') or not f.d.get('ta') or f.body is None or any(t not in ty for t in f.d['ta']):
                continue
            ep = f.name == 'addEntryPoint'
            ret, ps = ty[f.d['ta'][0]], tuple(ty[t] for t in f.d['ta'][1:])
            for first in (0, 1):
                for block in (0, 1):
                    st, M = L.module()
                    if not first:      # not the first one of the module
                        st, _ = L.call(st, M, L.fn(MOD, f.name, 0))
                    st.mem[('f', ('tmp', 'ctl'), self.W.FL)] = ('i', ctl)
                    args = ([('i', 4)] if ep else []) + [('str', 'fname'), ('o', ('tmp', 'ctl')), ('i', block)]
                    r = L.call(st, M, f, *args)
                    what = '%s<%s>%s' % (f.name, ', '.join(f.d['ta']), '' if block else ' without a block')
                    key = f.name
                    if not rep.check(r is not None, key + ':null', f.loc(), '%s dereferences a null pointer' % what):
                        continue
                    n += 1
                    s, v = r
                    fns = L.list(s, L.sec(M, 'getEntryPoints' if ep else 'getFunctions'))
                    other = L.list(s, L.sec(M, 'getFunctions' if ep else 'getEntryPoints'))
                    if not rep.check(len(fns) == 2 - first and not other and v[0] in ('p', 'ref') and v[1] == fns[-1], key + ':added', f.loc(), '%s: the module holds %d functions and %d entry points more, the result is %s' % (what, len(fns) if not ep else len(other), len(other) if not ep else len(fns), 'the new one' if fns and v[1] == fns[-1] else 'something else')):
                        continue
                    F = fns[-1]
                    bl = L.list(s, F)
                    rep.check(len(bl) == block and not any(L.list(s, b) for b in bl), key + ':block', f.loc(), '%s: the function has %d blocks, expected %d empty ones' % (what, len(bl), block))
                    for b in bl:
                        op = L.instr(s, ('f', b, self.W.lfield))[0]
                        rep.check(op == 'OpLabel' and L.ip.load(s, ('f', b, self.W.ffield)) == ('p', F), key + ':label', f.loc(), '%s: its block has %s for a label, or belongs to something else' % (what, op))
                    op, ops = L.instr(s, ('f', F, self.W.opfn))
                    ok = op == 'OpFunction' and [k for k, _ in ops] == ['instr', 'id', 'lit', 'instr']
                    rep.check(ok and desc(s, ops[0][1]) == ret and ops[2][1] == ('i', ctl) and desc(s, ops[3][1]) == ('OpTypeFunction', ret) + ps, key + ':opfunction', f.loc(),
                              '%s: OpFunction is %s %s, expected %s with control %d and parameters %s' % (what, op, desc(s, ops[0][1]) if ok else ops, ret, ctl, ps))
                    pl = [desc(s, ('p', x)) for x in L.list(s, ('f', F, self.W.pars))]
                    rep.check(pl == [('OpFunctionParameter', t) for t in ps], key + ':params', f.loc(), '%s: parameters are %s, expected types %s' % (what, pl, ps))
                    rep.check(L.instr(s, ('f', F, self.W.opend))[0] == 'OpFunctionEnd', key + ':end', f.loc(), '%s: no OpFunctionEnd' % what)
                    r2 = L.call(s.fork(), M, L.fn(MOD, 'getName', 2), ('p', ('f', F, self.W.opfn)), ('i', 0xffffffff))
                    rep.check(r2 is not None and L.cstr(r2[0], r2[1]) == 'fname', key + ':name', f.loc(), '%s: the function is not named as asked' % what)
                    if ep:
                        op, ops = L.instr(s, ('f', F, self.W.opep))
                        ok = op == 'OpEntryPoint' and [k for k, _ in ops[:2]] == ['lit', 'instr'] and ops[0][1] == ('i', 4) and ops[1][1] == ('p', ('f', F, self.W.opfn)) and L.words(ops[2:]) == 'fname'
                        rep.check(ok, key + ':opentrypoint', f.loc(), '%s: OpEntryPoint is %s %s' % (what, op, ops))
        rep.count('functions declared through the module', n)
        rep.need('functions declared through the module', n, 12)


def check(fx, rep):
    c = Fns(fx, rep)
    rep.rule('signature: after any way of declaring a function its type is (return type, parameter types in order), it has one OpFunctionParameter per parameter type, OpFunction carries return type, control and function type, the name is attached once')
    rep.rule('entry point: OpEntryPoint carries execution model, the function, the name and the interface; model and name are what the getters return; execution modes refer to the function')
    rep.rule('interface: exactly the variables (of the storage classes the version calls for) any instruction of the function or a function reachable by calls refers to, each once, replacing the previous interface')
    rep.rule('blocks: returnValue, getTerminator, getBranchTargets, remove and function variables do what they are named after for every block content')
    rep.rule('declared: addFunction<R, Ps...> and addEntryPoint<R, Ps...> add exactly one function with the types asked for, named, with one empty block if asked for, else none')
    c.signatures(); c.entries(); c.variables(); c.locals(); c.block(); c.declared()
    rep.count('paths', c.n)
    rep.need('paths', c.n, 200)

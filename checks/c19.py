"""C19: exit status and effects of the command line tools.

The main function of each tool is followed path by path for given arguments; files, the parser, the writer, the printer and the linker are
replaced by their contracts and made to fail in turn, so what is judged is what the tools do with the answers."""
import itertools

from sa.absint import Frame, State, VOID, ZERO
from sa import flags
from sa.facts import AnalysisError, Undetermined
from sa.report import parallel
from sa.live import Live, LiveInterp
from sa.types import MOD

LH = 'spvgentwo::LinkerHelper'; MP = 'spvgentwo::ModulePrinter'
BR = 'spvgentwo::BinaryFileReader'; BW = 'spvgentwo::BinaryFileWriter'
FN = 'spvgentwo::Function'; BB = 'spvgentwo::BasicBlock'


class ToolInterp(LiveInterp):
    def __init__(self, fx):
        super().__init__(fx)
        self.fails = frozenset()
        self.content = None

    def path_of(self, st, o):
        return st.mem.get(('f', o[1], '#path'), (0, None))[1]

    def text(self, st, v):
        if v == ZERO:
            return None
        s = self.L.cstr(st, self.load(st, v[1]) if v[0] == 'ref' and v[1][0] != 'strl' else ('p', v[1]) if v[0] == 'ref' else v)
        if s is None:
            raise AnalysisError('string is not concrete: %s' % (v,))
        return s

    def libc(self, st, fr, nm, a):
        if nm in ('strcmp', 'strncmp'):
            x, y = self.text(st, a[0]), self.text(st, a[1])
            if x is None or y is None:
                st.emit('io', 'null string', nm)
                return ('i', 1)
            if nm == 'strncmp':
                x = x[:a[2][1]]; y = y[:a[2][1]]
            return ('i', (x > y) - (x < y))
        if nm in ('strtoul', 'strtol', 'atoi', 'strtoull'):
            s = self.text(st, a[0]).strip()
            d = ''.join(itertools.takewhile(str.isdigit, s))
            return ('i', int(d) if d else 0)
        if nm in ('tolower', 'toupper'):
            return ('i', ord(getattr(chr(a[0][1]), nm[2:])())) if a[0][0] == 'i' and 0 <= a[0][1] < 128 else a[0]
        return None

    def model(self, st, fr, n, fn, obj, args):
        nm = n.get('n') or ''; c = n.get('c') or ''
        if n['k'] == 'ctor':
            c = nm
        if not c and nm in ('strcmp', 'strncmp', 'strtoul', 'strtol', 'strtoull', 'atoi', 'tolower', 'toupper'):
            a = [self.load(st, x[1]) if x[0] == 'ref' and x[1][0] != 'strl' else x for x in args]
            return [(st, self.libc(st, fr, nm, a))]
        if not c and nm in ('printf', 'puts', 'fprintf', 'fflush', 'putchar'):
            self.told(st, args)
            return [(st, ZERO)]
        if c.startswith('spvgentwo::') and c.endswith('Logger'):
            if n['k'] != 'ctor':
                st.emit('log', nm)
                self.told(st, args)
            return [(st, VOID)]
        if c in (BR, BW):
            return [(st, self.file(st, n, c, nm, obj, args))]
        if c == 'spvgentwo::Grammar':
            return [(st, VOID if n['k'] == 'ctor' else ZERO)]
        q = n.get('q') or (fn.q if fn is not None else '') or ''
        if c.startswith(MP) or q.startswith(MP) or nm == 'ModuleSimpleFuncPrinter':
            return self.printing(st, fr, n, fn, nm, obj, args)
        if q.startswith(LH) and nm in ('import', 'addLinkageDecorateForUsedGlobalVariables'):
            if nm == 'import':
                o = args[2][1]
                what = ('import', self.path_of(st, args[0]), self.path_of(st, args[1]), self.bits(st, o))
            else:
                what = ('exportvars',)
            st.emit('do', *what)
            return [(st, ('i', int(what[0] not in self.fails and '%s:%s' % what[:2] not in self.fails if len(what) > 1 else what[0] not in self.fails)))]
        if c == MOD and obj is not None and n['k'] != 'ctor':
            if nm in ('readAndInit', 'read'):
                p = self.path_of(st, args[0])
                st.emit('do', 'load', p)
                if 'load:%s' % p in self.fails:
                    return [(st, ZERO)]
                st.mem[('f', obj[1], '#path')] = ('s', p)
                if self.content is not None:
                    st = self.content(st, obj[1])
                return [(st, ('i', 1))]
            if nm in ('write', 'finalizeAndWrite'):
                p = self.path_of(st, args[0])
                st.emit('do', 'write', nm, self.path_of(st, obj), p, st.mem.get(('f', args[0][1], '#open')) == ('i', 1))
                return [(st, ('i', int('write' not in self.fails)))]
            if nm in ('finalizeEntryPoints', 'assignIDs', 'finalize'):
                st.emit('do', nm, self.path_of(st, obj))
                return [(st, ('i', 7))]
        if nm == 'getDescriptorTypeFromVariable':
            return [(st, ZERO)]
        # function pointers made of lambdas that capture nothing
        if nm.startswith('operator') and '(*)' in nm and obj is not None:
            v = st.mem.get(obj[1]) if obj[0] == 'p' else obj
            if v is not None and v[0] == 'lam':
                return [(st, ('fn', v[1].ops[0]))]
        return super().model(st, fr, n, fn, obj, args)

    def told(self, st, args):
        # the numbers that are shown to the user
        a = [self.load(st, x[1]) if x[0] == 'ref' and x[1][0] != 'strl' else x for x in args]
        v = tuple(x[1] for x in a if x[0] == 'i' and isinstance(x[1], int))
        if v:
            st.emit('told', v)

    def file(self, st, n, c, nm, obj, args):
        l = obj[1]
        if n['k'] == 'ctor' or nm in ('open', 'read'):
            i = 1 if n['k'] == 'ctor' else 0
            p = self.text(st, args[i]) if len(args) > i else None
            kind = 'read' if c == BR else 'open'
            if p is not None or nm in ('open', 'read'):
                st.emit('do', kind, p)
            good = p is not None and '%s:%s' % (kind, p) not in self.fails
            st.mem[('f', l, '#path')] = ('s', p); st.mem[('f', l, '#open')] = ('i', int(good))
            return ('i', int(good))
        op = st.mem.get(('f', l, '#open'), ZERO)
        if nm in ('isOpen', 'operator bool'):
            return op
        if nm == 'close':
            if op == ZERO:
                return ZERO
            st.mem[('f', l, '#open')] = ZERO
            st.emit('do', 'close', self.path_of(st, obj))
            return ('i', int('close' not in self.fails))
        raise AnalysisError('unexpected call %s::%s' % (c, nm))

    def bits(self, st, o):
        out = []
        for k, v in st.mem.items():
            if k[0] == 'f' and k[1][:2] == ('f', o) and k[1][2] == 'flags' or k == ('f', o, 'flags'):
                if v[0] == 'i':
                    out.append(v[1])
        f = lambda x: self.load(st, ('f', o, x)) not in (ZERO,)
        if len(set(out)) > 1:
            raise AnalysisError('flags of the linker are not concrete')
        return (out[0] if out else 0, f('grammar'), f('printer'))

    def printing(self, st, fr, n, fn, nm, obj, args):
        if nm == 'printModule':
            m = self.path_of(st, args[0])
            o = args[3]
            v = None
            if o[0] in ('ref', 'o'):
                v = [x for k, x in st.mem.items() if k[0] == 'f' and k[1] == o[1] and x[0] == 'i' and not k[2].startswith('#')]
                v = v[0][1] if len(v) == 1 else None
            elif o[0] == 'i':
                v = o[1]
            t = args[4] if len(args) > 4 else None
            st.emit('do', 'print', m, v, self.text(st, t) if t is not None else None)
            return [(st, ('i', int('print' not in self.fails)))]
        if nm == 'printInstruction':
            if args and args[0][0] == 'ref':
                st.emit('printed', args[0][1])
            return [(st, ('i', 1))]
        if nm == 'ModuleSimpleFuncPrinter':
            b = [self.load(st, x[1]) if x[0] == 'ref' and x[1][0] != 'strl' else x for x in args]
            b = [x[1] for x in b[1:] if x[0] == 'i']
            st.emit('printer', b[0] if b else None)
        if n['k'] == 'ctor':
            return [(st, VOID)]
        if self.ty(fr, n) == 'bool':
            return [(st, ('i', 1))]
        if obj is not None:
            return [(st, obj)]
        l = ('tmp', st.fresh())
        st.mem[('f', l, '#printer')] = ('i', 1)
        return [(st, ('o', l))]


RICH = [('binding', 'Binding', 'gvar', (3,)), ('location', 'Location', 'gvar', (5,)), ('nonwritable', 'NonWritable', 'fun', ())]
LOCAL = (641, 352, 273)


def done(st):
    return [e[1:] for e in st.events() if e[0] == 'do']


class Tool:
    def __init__(self, fx, rep, name):
        self.fx = fx; self.rep = rep
        self.main = None
        for f in fx.fns.values():
            if f.name == 'main' and f.file.endswith('%s/source/%s.cpp' % (name, name)):
                self.main = f
        if self.main is None:
            raise AnalysisError('main of %s is missing' % name)
        self.name = name
        self.ip = ToolInterp(fx); self.ip.L = self.L = Live(fx, self.ip)
        self.n = 0
        self.base = self.globals()

    def globals(self):
        """the tool's globals as their initialisers leave them"""
        st = State()
        for v in (self.L.alloc, self.L.log, self.L.tiv):
            st.facts[('nz', v)] = True
        ip = self.ip
        gs = sorted((g for g in self.fx.globals.values() if g['file'] == self.main_file() and g.get('e') is not None), key=lambda g: g['line'])
        for g in gs:
            fr = Frame(self.main, None, 0)
            loc = ('g', g['q'])
            st.facts[('nz', ('p', loc))] = True
            e = g['e']
            while e['k'] in ('def',):
                e = e['e']
            if e['k'] == 'ctor':
                r = ip.ctor(st, fr, e, loc)
            else:
                r = ip.ev(st, fr, e)
            if len(r) != 1:
                raise AnalysisError('global %s: %d paths' % (g['q'], len(r)))
            st, v = r[0]
            if v[0] == 'o' and v[1] != loc:
                ip.copy_obj(st, loc, v[1])
            elif v[0] != 'o':
                st.mem[loc] = v
        return st

    def main_file(self):
        return self.main.d.get('file') or [g['file'] for g in self.fx.globals.values() if g['file'].endswith(self.main.file)][0] if any(g['file'].endswith(self.main.file) for g in self.fx.globals.values()) else self.main.file

    def run(self, argv, fails=(), content=None):
        """(exit status, what was done, final state) of one command line"""
        self.n += 1
        ip = self.ip
        ip.fails = frozenset(fails); ip.content = content
        st = self.base.fork()
        A = ('obj', 'argv')
        for i, a in enumerate((self.name,) + tuple(argv)):
            st.mem[ip.idx(A, ('i', i))] = ('str', a)
        st.mem[ip.idx(A, ('i', len(argv) + 1))] = ZERO
        st.facts[('nz', ('p', A))] = True
        r = ip.run(self.main, args=[('i', len(argv) + 1), ('p', A)], st=st)
        if len(r) > 1:
            raise Undetermined('%s %s: %d paths' % (self.name, ' '.join(argv), len(r)))
        if not r:
            return None, [], None
        return r[0][1][1] if r[0][1][0] == 'i' else 0 if r[0][1] == VOID else '?', done(r[0][0]), r[0][0]


class Tools:
    def __init__(self, fx, rep, share=(0, 1)):
        self.fx = fx; self.rep = rep; self.share = share; self.turn = 0

    def mine(self):
        self.turn += 1
        return self.turn % self.share[1] == self.share[0]

    def outputs(self, acts):
        return [a for a in acts if a[0] in ('open', 'write')]

    def status(self, t, argv, fails, want, key, r):
        """the exit status, and nothing written behind a failure; True when it may be judged further"""
        rep = self.rep
        v, acts, st = r
        what = '%s %s%s' % (t.name, ' '.join(argv), ' with failing ' + ', '.join(fails) if fails else '')
        if v is None:
            rep.bad(key, t.main.loc(), what + ' dereferences null'); return None
        if v == '?' or not isinstance(v, int):
            rep.bad(key, t.main.loc(), what + ': the exit status cannot be told'); return None
        if not rep.check((v & 255 == 0) == want, key, t.main.loc(), '%s exits with %s, %s: %s' % (what, v, 'all it was asked for was done' if want else 'something failed', acts)):
            return None
        return what

    # ---------------------------------------------------------------- disassembler
    def dis(self):
        rep = self.rep; fx = self.fx
        t = Tool(fx, rep, 'dis')
        B = {x[0]: x[1] for x in fx.enums[MP + '::PrintOptionsBits']['v']}
        ALL = B['All']
        opts = {'-serialize': (), '-assignIDs': (), '-assignids': (), '-noinstrnames': ('InstructionName',), '-noopnames': ('OperandName',), '-nopreamble': ('Preamble',), '-colors': (), '-tabs XY': (), '-tabs': (), '-unknown': ()}
        lines = [()] + [(a,) for a in opts] + list(itertools.permutations(opts, 2))
        if rep.tier == 'thorough':
            lines += list(itertools.combinations(opts, 3))
        t_fail = [(), ('read:a.spv',), ('load:a.spv',), ('print',), ('open:serialized.spv',), ('write',), ('close',)]
        r = t.run(())
        self.status(t, (), (), False, 'dis:none', r)
        rep.check(not r[1], 'dis:none:acts', t.main.loc(), 'dis without a file does %s' % (r[1],))
        n = 1
        for l in lines:
            argv = ('a.spv',) + tuple(w for o in l for w in o.split())
            bits = ALL; tabs = '\t\t'; ser = False; asg = False
            skip = False
            for i, o in enumerate(l):
                if skip:
                    skip = False; continue
                for b in opts[o]:
                    bits &= ~B[b]
                if o == '-tabs' and i + 1 < len(l):
                    tabs = l[i + 1].split()[0]; skip = l[i + 1] != '-tabs XY'
                    if not skip:
                        break
                    continue
                tabs = 'XY' if o == '-tabs XY' else tabs
                ser |= o == '-serialize'; asg |= o in ('-assignIDs', '-assignids')
            if '-tabs' in l and l.index('-tabs') + 1 < len(l) and l[l.index('-tabs') + 1] == '-tabs XY':
                continue
            for fails in t_fail if len(l) < 2 or set(l) & {'-serialize'} else ((),):
                f = fails[0] if fails else None
                relevant = f in (None, 'read:a.spv', 'load:a.spv', 'print') or ser
                if not relevant:
                    continue
                n += 1
                key = 'dis:%s:%s' % ('+'.join(l), f)
                r = t.run(argv, fails)
                what = self.status(t, argv, fails, not fails, key, r)
                if what is None:
                    continue
                exp = [('read', 'a.spv')]
                steps = [('read:a.spv', ('read', 'a.spv')), ('load:a.spv', ('load', 'a.spv'))] + ([(None, ('assignIDs', 'a.spv'))] if asg else []) + [('print', ('print', 'a.spv', bits, tabs))]
                if ser:
                    steps += [('open:serialized.spv', ('open', 'serialized.spv')), ('write', ('write', 'finalizeAndWrite', 'a.spv', 'serialized.spv', True)), ('close', ('close', 'serialized.spv'))]
                exp = []
                for name, s in steps:
                    exp.append(s)
                    if name is not None and name == f:
                        break
                got = [a for a in r[1] if not (a[0] == 'close' and f in ('write',))]
                rep.check(got == exp, key + ':acts', t.main.loc(), '%s does %s, it should do %s' % (what, got, exp))
        rep.count('command lines of dis', n)

    # ---------------------------------------------------------------- linker
    def patchable(self, t, rich=False):
        # rich: a variable carries decorations and the entry point a local size
        L = t.L
        names = {}

        def content(st, M):
            TY = ('id', ('i', 99))
            k = [0]

            def put(st, loc, op, ops, name=None):
                k[0] += 1
                st = L.set_instr(st, loc, op, list(ops), 'pt%d' % k[0])
                if name:
                    names[name] = loc
                    st, _ = L.call(st, M, L.fn(MOD, 'addName', 2), ('p', loc), ('str', name))
                return st
            ID = lambda i: ('id', ('i', i))
            st, v = L.call(st, M, L.fn(MOD, 'addGlobalVariableInstr'), ZERO)
            st = put(st, v[1], 'OpVariable', [TY, ID(10), ('lit', ('i', 6))], 'gvar')
            st, v = L.call(st, M, L.fn(MOD, 'addConstantInstr'), ZERO)
            st = put(st, v[1], 'OpConstant', [TY, ID(50), ('lit', ('i', 7))], 'cst')
            for maker, nm, i, body in (('addFunction', 'fun', 20, 1), ('addFunction', 'decl', 30, 0), ('addEntryPoint', 'main', 40, 1)):
                st, v = L.call(st, M, L.fn(MOD, maker, 0))
                F = v[1]; names['F' + nm] = F
                st, v = L.call(st, F, [f for f in self.fx.by_cls[FN] if f.name == 'getFunction' and not f.params and not f.d.get('const')][0])
                st = put(st, v[1], 'OpFunction', [TY, ID(i), ('lit', ZERO), TY], nm)
                if body:
                    st, v = L.call(st, F, L.fn(FN, 'addBasicBlock', 1), ZERO)
                    st, v = L.call(st, v[1], L.fn(BB, 'addInstruction', 0))
                    st = put(st, v[1], 'OpReturn', ())
            if rich:
                P = lambda x: ('instr', ('p', names[x]))
                for x, d, to, lits in RICH:
                    st, v = L.call(st, M, L.fn(MOD, 'addDecorationInstr'))
                    d = next(y[1] for y in self.fx.enums['spvgentwo::spv::Decoration']['v'] if y[0] == d)
                    st = put(st, v[1], 'OpDecorate', [P(to), ('lit', ('i', d))] + [('lit', ('i', y)) for y in lits])
                    names[x] = v[1]
                st, v = L.call(st, M, L.fn(MOD, 'addExtensionModeInstr'))
                d = next(y[1] for y in self.fx.enums['spvgentwo::spv::ExecutionMode']['v'] if y[0] == 'LocalSize')
                st = put(st, v[1], 'OpExecutionMode', [P('main'), ('lit', ('i', d))] + [('lit', ('i', y)) for y in LOCAL])
            return st
        memo = {}

        def apply(st, at):
            # what the content adds to a module that was just constructed, computed once
            k = (at, tuple(sorted(((x, st.mem[x]) for x in st.mem.below(at)), key=repr)))
            if k not in memo:
                b = st.fork()
                b.n += 1000000
                r = content(b, at)
                memo[k] = ([(x, v) for x, v in r.mem.items() if st.mem.get(x) != v], {x: v for x, v in r.facts.items() if x not in st.facts}, r.n, dict(names))
            delta, facts, n, nm = memo[k]
            st.mem.update(dict(delta)); st.facts.update(facts); st.n = max(st.n, n)
            names.update(nm)
            return st
        return apply, names

    def link(self):
        rep = self.rep; fx = self.fx
        t = Tool(fx, rep, 'link'); L = t.L
        bits = {x[0]: x[1] for x in fx.enums[LH + '::LinkerOptionBits']['v']}
        flags = {'-ImportMissingTypes': 'types', '-ImportMissingConstants': 'constants', '-ImportMissingExtensionSets': 'extsets', '-ImportReferencedDecorations': 'refdecos', '-ImportReferencedNames': 'refnames',
                 '-ImportReferencedFunctions': 'reffuncs', '-ImportReferencedVariables': 'refvars', '-ImportReferencedStrings': 'refstrings', '-RemoveLinkageCapability': 'rmcap',
                 '-AutoAddRequiredCapabilitiesAndExtensions': 'addcaps', '-UpdateEntryPointGlobalVarInterface': 'variface', '-CopyOpSourceStringInstructions': 'srcstrings',
                 '-CopyOpLineInstructions': 'lines', '-CopyOpModuleProcessedInstructions': 'processed', '-AllOptions': 'auto'}
        n = 0

        def linked(argv, fails, libs, cons, out, fl, verbose, want=True):
            nonlocal n
            if not self.mine():
                return
            n += 1
            f = fails[0] if fails else None
            key = 'link:%s:%s' % ('+'.join(argv), f)
            r = t.run(argv, fails)
            what = self.status(t, argv, fails, want and not fails, key, r)
            if what is None:
                return
            acts = r[1]
            if fails and f.split(':')[0] in ('read', 'load', 'import') or not want:
                rep.check(not self.outputs(acts), key + ':out', t.main.loc(), '%s: the output is touched all the same: %s' % (what, acts))
                return
            imp = [a for a in acts if a[0] == 'import']
            exp = [('import', l, cons, (fl, verbose, verbose)) for l in libs]
            rep.check(imp == exp, key + ':import', t.main.loc(), '%s links %s, it should link %s' % (what, imp, exp))
            tail = [a for a in acts if a[0] in ('open', 'write', 'close', 'finalizeEntryPoints', 'finalize')]
            ok = True
            if not fails:
                fin = [i for i, a in enumerate(acts) if a[0] in ('finalizeEntryPoints', 'finalize') and a[1] == cons]
                wr = [i for i, a in enumerate(acts) if a[0] == 'write']
                ok = len(wr) == 1 and acts[wr[0]][2:] == (cons, out, True) and (acts[wr[0]][1] == 'finalizeAndWrite' or fin and fin[0] < wr[0]) and ('close', out) in acts[wr[0]:] and wr[0] > acts.index(imp[-1])
                ok = ok and [a for a in acts if a[0] == 'open'] == [('open', out)]
            rep.check(ok, key + ':write', t.main.loc(), '%s should write %s once to %s, it does %s' % (what, cons, out, tail))
        base = bits['AssignResultIDs']
        io = ('-l', 'a.spv', '-c', 'c.spv', '-o', 'o.spv')
        fl = ['read:a.spv', 'load:a.spv', 'read:c.spv', 'load:c.spv', 'import:a.spv', 'open:o.spv', 'write', 'close']
        linked(io, (), ['a.spv'], 'c.spv', 'o.spv', base, False)
        for f in fl:
            linked(io, (f,), ['a.spv'], 'c.spv', 'o.spv', base, False)
        for nm, acr in sorted(flags.items()):
            b = bits['All'] if nm == '-AllOptions' else bits.get(nm[1:])
            if b is None:
                raise AnalysisError('no linker option bit ' + nm)
            for a in (nm, '-' + acr, nm.lower(), nm.upper()):
                linked((a,) + io, (), ['a.spv'], 'c.spv', 'o.spv', base | b, False)
                linked(io + (a,), (), ['a.spv'], 'c.spv', 'o.spv', base | b, False)
        names = sorted('-' + a for a in flags.values())
        for i in range(len(names) - 1):
            b = base
            for a in names[i:i + 2]:
                b |= [bits['All'] if k == '-AllOptions' else bits[k[1:]] for k, v in flags.items() if '-' + v == a][0]
            linked(io + tuple(names[i:i + 2]), (), ['a.spv'], 'c.spv', 'o.spv', b, False)
        for v in ('-verbose', '-PrintInstructions'):
            linked((v,) + io, (), ['a.spv'], 'c.spv', 'o.spv', base, True)
        # orders and numbers of modules
        parts = [('-lib', 'a.spv'), ('-l', 'b.spv'), ('-consumer', 'c.spv'), ('-out', 'o.spv')]
        for p in itertools.permutations(parts):
            argv = tuple(x for y in p for x in y)
            libs = [y[1] for y in p if y[0] in ('-lib', '-l')]
            for f in [()] + [(x,) for x in fl + ['read:b.spv', 'load:b.spv', 'import:b.spv']] if p[0] in (parts[0], parts[3]) or rep.tier == 'thorough' else [()]:
                linked(argv, f, libs, 'c.spv', 'o.spv', base, False)
        linked(('-l', 'a.spv', '-c', 'c.spv'), (), ['a.spv'], 'c.spv', 'c.spv', base, False)
        linked(('-l', 'a.spv', '-c', 'c.spv'), ('open:c.spv',), ['a.spv'], 'c.spv', 'c.spv', base, False)
        for short in (('-l',), ('-c',), ('-o',), ('-p',), ('-i',), ('-i', 'x'), ('-e',), ('-e', 'x')):
            linked(io + short, (), [], 'c.spv', 'o.spv', base, False, want=False)
        for argv in ((), ('-types',), ('-o', 'o.spv'), ('-c', 'c.spv'), ('-c', 'c.spv', '-o', 'o.spv')):
            n += 1
            r = t.run(argv)
            if self.status(t, argv, (), True, 'link:idle:' + '+'.join(argv), r):
                rep.check(not self.outputs(r[1]), 'link:idle:out:' + '+'.join(argv), t.main.loc(), 'link %s writes %s' % (' '.join(argv), self.outputs(r[1])))
        rep.count('command lines of link', n)

    def patch(self):
        rep = self.rep; t = Tool(self.fx, rep, 'link'); L = t.L
        n = 0
        deco = {x[0]: x[1] for x in self.fx.enums['spvgentwo::spv::Decoration']['v']}['LinkageAttributes']
        lt = {x[0]: x[1] for x in self.fx.enums['spvgentwo::spv::LinkageType']['v']}
        cap = {x[0]: x[1] for x in self.fx.enums['spvgentwo::spv::Capability']['v']}['Linkage']
        ids = {'gvar': 10, 'fun': 20, 'decl': 30, 'main': 40, 'cst': 50}
        fl = ['read:p.spv', 'load:p.spv', 'open:o.spv', 'write', 'close']

        def want_of(ts):
            return all(x in ('gvar', 'fun', 'decl') for _, x, _, _ in ts)
        singles = [[(op, x, 'sym', v)] for op in ('-i', '-e', '-import', '-export') for x in ('gvar', 'fun', 'decl', 'main', 'cst', 'none') for v in (False, True) if not v or op in ('-e', '-export')]
        pairs = [[('-e', 'fun', 'f', False), ('-i', 'decl', 'd', False)], [('-i', 'fun', 'f', False), ('-e', 'gvar', 'g', False)], [('-e', 'gvar', 'g', False), ('-e', 'none', 'x', False)], [('-e', 'none', 'x', False), ('-e', 'gvar', 'g', False)],
                 [('-e', 'fun', 'f', True), ('-e', 'gvar', 'longer name of the symbol', False)], [('-e', 'gvar', 'g', False), ('-i', 'main', 'm', False)], [('-i', 'cst', 'c', False), ('-e', 'gvar', 'g', False)]]
        content, names = self.patchable(t)
        for ts in singles + pairs:
            for byid in (False, True):
                for f in [()] + ([(x,) for x in fl + ['exportvars']] if ts in ([('-e', 'fun', 'sym', False)], [('-e', 'fun', 'sym', True)], [('-i', 'fun', 'sym', False)], pairs[0]) and not byid else []):
                    for out in ('o.spv', None):
                        if f and (out is None or f[0] == 'exportvars' and not ts[0][3]):
                            continue
                        if byid and any(x not in ids for _, x, _, _ in ts):
                            continue
                        if not self.mine():
                            continue
                        argv = ('-p', 'p.spv') + (('-o', out) if out else ())
                        for op, x, sym, v in ts:
                            argv += (op, str(ids[x]) if byid else x, sym) + (('-vars',) if v else ())
                        n += 1
                        want = not f and want_of(ts)
                        key = 'patch:%s:%s' % ('+'.join(argv), f[0] if f else None)
                        r = t.run(argv, f, content)
                        what = self.status(t, argv, f, want, key, r)
                        if what is None:
                            continue
                        v, acts, st = r
                        dest = out or 'p.spv'
                        if not want:
                            if not f or f[0].split(':')[0] in ('read', 'load', 'exportvars'):
                                rep.check(not self.outputs(acts), key + ':out', t.main.loc(), '%s: the output is touched all the same: %s' % (what, acts))
                            continue
                        wr = [a for a in acts if a[0] == 'write']
                        fin = [a for a in acts if a[0] in ('finalize', 'assignIDs')]
                        rep.check(len(wr) == 1 and wr[0][2:] == ('p.spv', dest, True) and (wr[0][1] == 'finalizeAndWrite' or fin) and acts.index(('open', dest)) < acts.index(wr[0]) and ('close', dest) in acts,
                                  key + ':write', t.main.loc(), '%s should write p.spv once to %s, it does %s' % (what, dest, acts))
                        rep.check(sum(1 for a in acts if a[0] == 'exportvars') == sum(1 for op, x, _, v in ts if v and x in ('fun', 'decl')), key + ':vars', t.main.loc(), '%s: the variables of a function are exported %d times' % (what, sum(1 for a in acts if a[0] == 'exportvars')))
                        M = [g for g in (('g', x) for x in self.fx.globals) if st.mem.get(('f', g, '#path')) == ('s', 'p.spv')]
                        if not rep.check(len(M) == 1, key + ':module', t.main.loc(), '%s: %d modules hold what was read from p.spv' % (what, len(M))):
                            continue
                        M = M[0]
                        got = []
                        for l in L.list(st, L.sec(M, 'getDecorations')):
                            op, ops = L.instr(st, l)
                            got.append((op, ops[0], ops[1] if len(ops) > 1 else None, L.words(ops[2:-1]), ops[-1]))
                        exp = [('OpDecorate', ('instr', ('p', names[x])), ('lit', ('i', deco)), sym, ('lit', ('i', lt['Import' if op.startswith('-i') else 'Export']))) for op, x, sym, _ in ts]
                        rep.check(got == exp, key + ':deco', t.main.loc(), '%s adds %s, it should add %s' % (what, got, exp))
                        caps = [st.mem.get(k) for k, _ in L.map(st, L.sec(M, 'getCapabilities'))]
                        rep.check(('i', cap) in caps, key + ':cap', t.main.loc(), '%s does not declare Linkage' % what)
                        for x in ('fun', 'decl', 'main'):
                            imp = any(op.startswith('-i') and y == x for op, y, _, _ in ts)
                            blocks = L.list(st, names['F' + x])
                            rep.check(bool(blocks) == (x != 'decl' and not imp), key + ':body:' + x, t.main.loc(), '%s: function %s has %d blocks' % (what, x, len(blocks)))
        rep.count('command lines that patch', n)

    # ---------------------------------------------------------------- reflector
    def refl(self):
        rep = self.rep
        t = Tool(self.fx, rep, 'refl'); L = t.L
        ids = {'gvar': 10, 'fun': 20, 'decl': 30, 'main': 40, 'cst': 50}
        n = 1
        content, names = self.patchable(t, True)
        r = t.run(())
        self.status(t, (), (), False, 'refl:none', r)
        more = [(), ('-funcs',), ('-vars',), ('-types',), ('-localsize',), ('-colors',), ('-deco',), ('-deco', 'Binding'), ('-deco', 'Binding', '-deco', 'Location'), ('-unknown',)]
        sel = [()] + [('-var', x) for x in sorted(ids) + ['none']] + [('-id', str(i)) for i in sorted(ids.values()) + [77]] + [('-var', 'gvar', '-id', '50'), ('-var', 'none', '-id', '50')]
        for m in more:
            for s in sel:
                for order in (0, 1) if m and s else (0,):
                    for f in ((), ('read:a.spv',), ('load:a.spv',)) if not order and (not s or not m) else ((),):
                        if not self.mine():
                            continue
                        argv = ('a.spv',) + (m + s if order else s + m)
                        n += 1
                        found = None
                        if s:
                            byname = s[0] == '-var'
                            found = s[1] if byname and s[1] in ids else [x for x in ids if str(ids[x]) == s[1]][0] if not byname and int(s[1]) in ids.values() else None
                        want = not f and (not s or found is not None)
                        key = 'refl:%s:%s' % ('+'.join(argv), f[0] if f else None)
                        r = t.run(argv, f, content)
                        what = self.status(t, argv, f, want, key, r)
                        if what is None:
                            continue
                        st = r[2]
                        if want and found:
                            pr = [e[1] for e in st.events() if e[0] == 'printed']
                            rep.check(names[found] in pr, key + ':printed', t.main.loc(), '%s does not print %s' % (what, found))
                            if not m:
                                oth = [x for x in ids if x != found and names[x] in pr]
                                rep.check(not oth, key + ':other', t.main.loc(), '%s prints %s as well' % (what, ', '.join(oth)))
                        if want:
                            self.listed(t, st, names, m, found, key, what)
                            rep.check(r[1][:2] == [('read', 'a.spv'), ('load', 'a.spv')], key + ':acts', t.main.loc(), '%s does %s' % (what, r[1]))
        rep.count('command lines of refl', n)

    def listed(self, t, st, names, m, found, key, what):
        # what an option asks to be listed is listed, and nothing the options and the selection do not ask for
        rep = self.rep
        pr = [e[1] for e in st.events() if e[0] == 'printed']
        decos = {x: (d, to) for x, d, to, _ in RICH}
        every = ['gvar', 'fun', 'decl', 'main', 'cst'] + list(decos)
        only = m[1::2] if m[:1] == ('-deco',) and len(m) > 1 else None
        must, may = set(), set()
        if m == ('-funcs',):
            must = {'fun', 'decl', 'main'}
        elif m == ('-vars',):
            must = {'gvar'}; may = {x for x in decos if decos[x][1] == 'gvar'}
        elif m == ('-types',):
            must = {'cst'}
        elif m[:1] == ('-deco',):
            must = {x for x in decos if only is None or decos[x][0] in only}
        if found:
            must = must | {found} | {x for x in decos if decos[x][1] == found and (only is None or decos[x][0] in only)}
        for x in every:
            if x in must:
                rep.check(names[x] in pr, key + ':lists:' + x, t.main.loc(), '%s does not print %s' % (what, x))
            elif x not in may:
                rep.check(names[x] not in pr, key + ':extra:' + x, t.main.loc(), '%s prints %s as well' % (what, x))
        told = [v for e in st.events() if e[0] == 'told' for v in e[1] if v in LOCAL]
        exp = list(LOCAL) if m == ('-localsize',) else []
        rep.check(told == exp, key + ':localsize', t.main.loc(), '%s shows %s of the local size %s' % (what, told, list(LOCAL)))
        col = [e[1] for e in st.events() if e[0] == 'printer']
        rep.check(all(bool(x) == (m == ('-colors',)) for x in col), key + ':colors', t.main.loc(), '%s sets colors to %s' % (what, col))


def check(fx, rep):
    rep.rule('a tool exits with 0 exactly when every step its arguments ask for succeeded')
    rep.rule('the steps are the ones the arguments ask for, on the files they name, in an order that makes sense, and after a failed step no output file is opened or written')
    flags.distinct(rep, fx, LH + '::LinkerOptionBits', 'link:options')
    flags.distinct(rep, fx, MP + '::PrintOptionsBits', 'dis:options')
    parallel(rep, [lambda r, i=i: Tools(fx, r, (i, 3)).link() for i in range(3)] + [lambda r, i=i: Tools(fx, r, (i, 2)).patch() for i in range(2)] +
             [lambda r, i=i: Tools(fx, r, (i, 2)).refl() for i in range(2)] + [lambda r: Tools(fx, r).dis()])

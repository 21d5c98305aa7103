"""Modules given as SPIR-V assembly: assembled to words by the vendored grammar and taken in through the project's own reader (Module::readAndInit),
constants propagated through its real code, so that the abstract state is the one a parsed binary leaves behind."""
import re

from . import spec
from .absint import State, ZERO
from .facts import AnalysisError
from .live import Live, LiveInterp
from .types import MOD

GR = 'spvgentwo::Grammar'
FUNC = 'spvgentwo::Function'; BB = 'spvgentwo::BasicBlock'; EP = 'spvgentwo::EntryPoint'


class Asm:
    def __init__(self):
        self.core = spec.core()
        self.glsl = spec.glsl()

    def assemble(self, text, version=0x00010000):
        """(words, {name: id})"""
        ids = {}; floats = {}; types = {}

        def idof(t):
            return ids.setdefault(t, len(ids) + 1)
        out = []
        for line in text.splitlines():
            line = line.strip()
            if not line or line.startswith(';'):
                continue
            toks = re.findall(r'"(?:[^"\\]|\\.)*"|\S+', line)
            res = None
            if len(toks) > 2 and toks[1] == '=':
                res = toks[0]; toks = toks[2:]
            op = toks.pop(0)
            i = self.core.insts[op]
            ws = []; quants = [dict(o) for o in i.get('operands', [])]
            rtype = None; first = None
            while quants:
                o = quants.pop(0); k = o['kind']; q = o.get('quantifier', '')
                if k == 'IdResult':
                    ws.append(idof(res))
                    continue
                if not toks:
                    if q in ('?', '*'):
                        continue
                    raise AnalysisError('operand missing: ' + line)
                if q == '*':
                    quants.insert(0, o)
                t = toks.pop(0)
                if k == 'IdResultType':
                    rtype = t
                if k in ('PairIdRefIdRef', 'PairIdRefLiteralInteger', 'PairLiteralIntegerIdRef'):
                    quants[0:0] = [dict(kind=b) for b in self.core.bases(k)[1:]]
                    k = self.core.bases(k)[0]
                    if k == 'LiteralInteger' and op == 'OpSwitch':
                        k = 'LiteralInteger'
                if k.startswith('Id'):
                    ws.append(idof(t))
                elif k == 'LiteralString':
                    b = t[1:-1].encode() + b'\0'
                    b += b'\0' * (-len(b) % 4)
                    ws += [int.from_bytes(b[j:j + 4], 'little') for j in range(0, len(b), 4)]
                elif k == 'LiteralContextDependentNumber':
                    ws.append(int(t, 0) & 0xffffffff)
                    if types.get(rtype) == 64:
                        ws.append(int(t, 0) >> 32 & 0xffffffff)
                elif k in ('LiteralInteger', 'LiteralFloat'):
                    ws.append(int(t, 0) & 0xffffffff)
                elif k == 'LiteralExtInstInteger':
                    ws.append(self.glsl[t]['opcode'] if t in self.glsl else int(t, 0))
                elif k == 'LiteralSpecConstantOpInteger':
                    n = self.core.insts['Op' + t]
                    ws.append(n['opcode'])
                    quants[0:0] = [dict(x) for x in n['operands'] if x['kind'] not in ('IdResult', 'IdResultType')]
                elif self.core.category(k) in ('BitEnum', 'ValueEnum'):
                    v = 0; ps = []
                    for x in t.split('|'):
                        e = [e for e in self.core.enumerants(k) if e['enumerant'] == x]
                        if not e:
                            raise AnalysisError('%s is no %s' % (x, k))
                        e = e[0]; w = e['value']
                        v |= int(w, 16) if isinstance(w, str) else w
                        ps += [dict(p) for p in e.get('parameters', [])]
                    ws.append(v)
                    quants[0:0] = ps
                else:
                    raise AnalysisError('operand kind ' + k)
                if op in ('OpTypeInt', 'OpTypeFloat') and k == 'LiteralInteger' and res not in types:
                    types[res] = ws[-1]
            if toks:
                raise AnalysisError('too many operands: ' + line)
            out += [(len(ws) + 1) << 16 | i['opcode']] + ws
        return [0x07230203, version, 0x1e0000, len(ids) + 1, 0] + out, ids


class BinInterp(LiveInterp):
    """the reader yields the words of the module; grammar queries answer from the specification; the functions in `contracts` are answered by the check"""
    tables = None
    words = ()
    max_depth = 220
    max_recursion = 24

    def __init__(self, fx):
        super().__init__(fx)
        self.budget = 400000000
        self.contracts = {}

    def num(self, st, a):
        for _ in range(4):
            if a[0] in ('ref', 'o'):
                f = ('f', a[1], self.tables.W.ops.litname)
                a = st.mem[f] if f in st.mem else self.load(st, a[1])
            else:
                return a
        return a

    def model(self, st, fr, n, fn, obj, args):
        nm = n.get('n') or ''; c = n.get('c') or ''
        k = self.contracts.get((c, nm)) or self.contracts.get(nm)
        if k is not None:
            r = k(st, fr, n, fn, obj, args)
            if r is not None:
                return r
        if c == 'spvgentwo::IReader' and nm == 'get':
            i = self.load(st, ('obj', '#at'))[1]
            if i >= len(self.words):
                return [(st, ('i', 0))]
            self.store(st, fr, args[0][1], ('i', self.words[i]), n)
            self.store(st, fr, ('obj', '#at'), ('i', i + 1), n)
            return [(st, ('i', 1))]
        if c == GR and nm in ('getInfo', 'getOperandParameters', 'getOperandBases') and self.tables is not None:
            return [(st, self.tables.query(self, st, nm, args))]
        return super().model(st, fr, n, fn, obj, args)

    def inline(self, fn, fr):
        return fn.name == 'hasOperandParameters' or super().inline(fn, fr)


class Binaries:
    """abstract states holding parsed modules"""
    def __init__(self, fx, ip=None):
        from c06 import Tables
        self.fx = fx
        self.ip = ip or BinInterp(fx)
        self.L = Live(fx, self.ip)
        self.ip.tables = Tables(fx, self.L)
        self.asm = Asm()
        self.gram = ('obj', 'grammar')
        self.ids = {}

    def load(self, st, text, name, version=0x00010000, init=True):
        words, ids = self.asm.assemble(text, version)
        self.ids[name] = ids
        st, M = self.L.module(st, name)
        st.mem[('obj', '#at')] = ('i', 0)
        self.ip.words = words
        r = self.L.call(st, M, self.L.fn(MOD, 'readAndInit' if init else 'read', 2), ('ref', ('obj', 'reader')), ('ref', self.gram))
        if r is None or r[1] != ('i', 1):
            return None
        return r[0], M

    SECTIONS = ('getCapabilities', 'getExtensions', 'getExtInstrImports')

    def insts(self, st, M):
        """[(section, place, location)] of every instruction of the module, in order"""
        L = self.L; out = []
        for a in ('getCapabilities', 'getExtensions', 'getExtInstrImports'):
            for k, v in L.map(st, L.sec(M, a)):
                out.append((a, None, v))
        out.append(('getMemoryModel', None, L.sec(M, 'getMemoryModel')))
        for e in L.list(st, L.sec(M, 'getEntryPoints')):
            out.append(('getEntryPoints', None, L.sec(e, 'getEntryPoint', EP)))
        for a in ('getExecutionModes', 'getSourceStrings', 'getNames', 'getModulesProcessed', 'getDecorations', 'getTypesAndConstants', 'getGlobalVariables', 'getUndefs', 'getLines'):
            for l in L.list(st, L.sec(M, a)):
                out.append((a, None, l))
        for a in ('getFunctions', 'getEntryPoints'):
            for f in L.list(st, L.sec(M, a)):
                out += [(a, f, x) for x in self.func(st, f)]
        return out

    def func(self, st, f):
        L = self.L
        out = [L.sec(f, 'getFunction', FUNC)] + L.list(st, L.sec(f, 'getParameters', FUNC))
        for b in L.list(st, f):
            out.append(L.sec(b, 'getLabel', BB))
            out += L.list(st, b)
        return out + [L.sec(f, 'getFunctionEnd', FUNC)]

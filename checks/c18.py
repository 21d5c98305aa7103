"""C18: what the printer prints.  Instructions of every shape the grammar has, with operands of every kind, are placed in a parsed module; printInstruction is
followed with a printer that records the text, and the tokens are compared with what the operands are by the grammar of the specification."""
import re
import struct

from c06 import Ref, Tables
from sa import flags, spec
from sa.absint import VOID, ZERO
from sa.binary import Binaries, BinInterp, FUNC, BB, GR
from sa.facts import AnalysisError
from sa.report import parallel
from sa.types import MOD
from sa.world import INSTR

MP = 'spvgentwo::ModulePrinter'
IMP = MP + '::IModulePrinter'


SIZE = {'char': (1, 'b'), 'signed char': (1, 'b'), 'unsigned char': (1, 'B'), 'bool': (1, 'B'), 'short': (2, 'h'), 'unsigned short': (2, 'H'), 'int': (4, 'i'), 'unsigned int': (4, 'I'), 'long': (8, 'q'), 'unsigned long': (8, 'Q'), 'long long': (8, 'q'), 'unsigned long long': (8, 'Q'), 'float': (4, 'f'), 'double': (8, 'd')}


class PTables(Tables):
    """also answers for the extended instruction sets and the names of enumerants"""
    def __init__(self, fx, W):
        super().__init__(fx, W)
        self.ext = {i[0]: i[1] for i in fx.enums[GR + '::Extension']['v']}
        self.sets = {self.ext['Glsl']: spec.glsl(), self.ext['OpenCl']: spec.opencl()}
        self.setnames = {k: {i['opcode']: n for n, i in s.items()} for k, s in self.sets.items()}
        self.names = {}
        for k in self.core.kinds:
            for e in self.core.enumerants(k):
                v = e['value']
                v = int(v, 16) if isinstance(v, str) else v
                self.names.setdefault((k, v), []).append(e['enumerant'])

    def query(self, ip, st, nm, args):
        a = [ip.num(st, x) for x in args]
        if nm == 'getInfo' and len(a) > 1 and a[1][0] == 'i' and a[1][1] in self.sets:
            n = self.setnames[a[1][1]].get(a[0][1])
            if n is None:
                return ZERO
            G = ('obj', 'ge%d_%d' % (a[1][1], a[0][1]))
            st.mem[('f', G, 'name')] = ('str', n)
            self.vec(st, ('f', G, 'operands'), [])
            return ('p', G)
        if nm == 'getOperandName':
            r = self.names.get((self.kname.get(a[0][1]), a[1][1] & 0xffffffff))
            return ('str', r[0]) if r else ZERO
        return super().query(ip, st, nm, args)


class PrintInterp(BinInterp):
    distinct_text = True

    def model(self, st, fr, n, fn, obj, args):
        nm = n.get('n') or ''; c = n.get('c') or ''
        if c == GR and nm == 'getOperandName':
            return [(st, self.tables.query(self, st, nm, args))]
        if nm == 'append' and c.startswith(MP):
            f = fn
            t = self.L.fx_ty(f, 0) if f is not None else 'char *'
            if 'char' in t and obj is not None and obj[1] == self.L.printer:
                s = args[0]
                if s[0] == 'ref':
                    s = ('p', s[1])
                x = self.L.cstr(st, s) if s != ZERO else ''
                st.emit('out', x)
                return [(st, VOID)]
            if f is not None and f.body is not None and n.get('v'):
                return self.invoke(st, fr, f, obj, args, n)
        if nm == 'getDataAs' and c == 'spvgentwo::Constant' and fn is not None:
            # the pointer it returns views the words of the constant as one value of its type
            t = fn.tu.types[fn.d['ret']] if isinstance(fn.d.get('ret'), int) else fn.ret
            t = t.replace('const', '').replace('*', '').strip()
            out = []
            for s, v in self.invoke(st, fr, fn, obj, args, n):
                if v[0] == 'p' and t in SIZE:
                    size, code = SIZE[t]
                    b = b''
                    for i in range((size + 3) // 4):
                        w = self.load(s, self.idx(v[1], ('i', i)))
                        if w[0] != 'i':
                            raise AnalysisError('words of a constant are not decided')
                        b += (w[1] & 0xffffffff).to_bytes(4, 'little')
                    x = struct.unpack('<' + code, b[:size])[0]
                    l = ('tmp', s.fresh())
                    s.mem[l] = ('f', x) if code in 'fd' else ('i', int(x))
                    v = ('p', l)
                out.append((s, v))
            return out
        if nm == 'snprintf':
            f = self.L.cstr(st, args[2]); v = args[3]
            if v[0] in ('ref',):
                v = self.load(st, v[1])
            x = self.fmt(f, v)
            if x is None:
                raise AnalysisError('snprintf(%r, %s) is not modelled' % (f, v))
            size = args[1][1]
            b = x[:size - 1]
            for i, ch in enumerate(b + '\0'):
                self.store(st, fr, self.idx(args[0][1], ('i', i)), ('i', ord(ch)), n)
            return [(st, ('i', len(x)))]
        return super().model(st, fr, n, fn, obj, args)

    def fmt(self, f, v):
        if f in ('%d', '%i', '%lld', '%ld') and v[0] == 'i':
            w = 32 if f in ('%d', '%i') else 64
            x = v[1] & (1 << w) - 1
            return str(x - (1 << w) if x >> (w - 1) else x)
        if f in ('%u', '%llu', '%lu') and v[0] == 'i':
            return str(v[1] & (0xffffffff if f == '%u' else 0xffffffffffffffff))
        if re.fullmatch(r'%#?(\.\d+)?[fgeFGE]', f) and v[0] == 'f':
            return f % v[1]
        return None

    def inline(self, fn, fr):
        return fn.name == 'hasOperandParameters' or super().inline(fn, fr)


BASE = '''OpCapability Shader
OpCapability Linkage
%glsl = OpExtInstImport "GLSL.std.450"
%cl = OpExtInstImport "OpenCL.std"
%ns = OpExtInstImport "NonSemantic.Other"
OpMemoryModel Logical GLSL450
OpName %named "named value"
OpName %x "x"
OpName %main "entry"
OpName %block "block"
OpName %N "Named"
%void = OpTypeVoid
%bool = OpTypeBool
%i8 = OpTypeInt 8 1
%u8 = OpTypeInt 8 0
%i16 = OpTypeInt 16 1
%u16 = OpTypeInt 16 0
%int = OpTypeInt 32 1
%uint = OpTypeInt 32 0
%i64 = OpTypeInt 64 1
%u64 = OpTypeInt 64 0
%float = OpTypeFloat 32
%f64 = OpTypeFloat 64
%f16 = OpTypeFloat 16
%v3 = OpTypeVector %float 3
%m3 = OpTypeMatrix %v3 3
%N = OpTypeStruct %float %int
%P = OpTypePointer Function %float
%fv = OpTypeFunction %void
%true = OpConstantTrue %bool
%false = OpConstantFalse %bool
%null = OpConstantNull %v3
'''
CONSTS = [('i8', 0xfffffff9, '-7'), ('u8', 200, '200'), ('i16', 0xfffffe0c, '-500'), ('u16', 60000, '60000'), ('int', 0xfffffffb, '-5'), ('int', 12, '12'), ('uint', 4294967290, '4294967290'),
          ('i64', 0xfffffffffffffff0, '-16'), ('i64', 0x123456789a, str(0x123456789a)), ('u64', 0xfffffffffffffff0, str(0xfffffffffffffff0)), ('u64', 7, '7'), ('float', 0x3fc00000, '1.5'), ('f64', 0x4004000000000000, '2.5'),
          ('float', 0x2edbe6ff, '1.00000001e-10'), ('float', 0x7f7fffff, '3.40282347e+38'), ('float', 0x00000001, '1.40129846e-45'), ('float', 0xc0490fdb, '-3.14159274'),
          ('f64', 0x7fefffffffffffff, '1.7976931348623157e+308'), ('f64', 0x3ddb7cdfd9d7bdbb, '1e-10'), ('f64', 0x3ff0000000000001, '1.0000000000000002'), ('f64', 0xc00921fb54442d18, '-3.1415926535897931')]


class Printing:
    def __init__(self, fx, rep):
        self.fx = fx; self.rep = rep
        ip = PrintInterp(fx)
        self.B = Binaries(fx, ip)
        self.L = self.B.L; ip.L = self.L
        self.L.printer = ('obj', 'printer')
        self.L.fx_ty = lambda f, i: f.tu.types[f.params[i]['t']] if len(f.params) > i else ''
        self.tab = PTables(fx, self.L); ip.tables = self.tab
        self.ref = Ref(self.tab)
        self.ip = ip
        self.T = self.L.T
        self.pi = fx.one(MP + '::printInstruction'); self.pm = fx.one(MP + '::printModule')
        self.bits = {x[0]: x[1] for x in fx.enums[MP + '::PrintOptionsBits']['v']}
        for b in ('Preamble', 'InstructionName', 'OperandName', 'ResultId', 'OperationName', 'TypeName', 'ConstantData', 'All'):
            if b not in self.bits:
                raise AnalysisError('PrintOptionsBits has no ' + b)
        self.flagf = [f['n'] for f in fx.records['spvgentwo::Flag<%s::PrintOptionsBits>' % MP]['fields']][0]
        text = BASE
        self.consts = []; self.fbits = {}; self.spell = {}
        for i, (t, v, s) in enumerate(CONSTS):
            text += '%%c%d = OpConstant %%%s %d\n' % (i, t, v); self.consts.append(('%%c%d' % i, s))
            if t in ('float', 'f64'):
                self.fbits['%%c%d' % i] = (t, v)
        text += '%ones = OpConstantComposite %v3 ' + ' '.join(['%c11'] * 3) + '\n%named = OpUndef %float\n%x = OpUndef %float\n' + ''.join('%%u%d = OpUndef %%float\n' % i for i in range(12))
        text += '%main = OpFunction %void None %fv\n%block = OpLabel\nOpBranch %b2\n%b2 = OpLabel\nOpReturn\nOpFunctionEnd\n'
        r = self.B.load(None, text, 'base')
        if r is None:
            raise AnalysisError('the module of the check is not read')
        self.st, self.M = r
        self.id = {k: v for k, v in self.B.ids['base'].items()}
        self.byid = {}
        for a, f, l in self.B.insts(self.st, self.M):
            op, ops = self.L.instr(self.st, l)
            for k, v in ops:
                if k == 'id':
                    self.byid[v[1]] = l
        self.loc = {k: self.byid[v] for k, v in self.id.items() if v in self.byid}
        F = self.L.list(self.st, self.L.sec(self.M, 'getFunctions'))[0]
        self.blocks = self.L.list(self.st, F)
        self.labels = {self.L.sec(b, 'getLabel', BB): b for b in self.blocks}
        self.scratch = self.L.list(self.st, self.L.sec(self.M, 'getUndefs'))[-1]
        self.n = 0
        self.names = {'%named': 'named value', '%x': 'x', '%main': 'entry', '%block': 'block', '%N': 'Named'}
        self.types = {'%void': 'void', '%bool': 'bool'}
        self.cv = dict(self.consts); self.cv.update({'%true': 'true', '%false': 'false', '%null': 'null'})
        self.rname = {v: k for k, v in self.loc.items()}

    def options(self, *names):
        v = 0
        for n in names:
            v |= self.bits[n]
        return v

    # ---------------------------------------------------------- one instruction
    def place(self, st, op, ops):
        """write the instruction over the scratch one"""
        ip = self.ip; L = self.scratch
        self.k = getattr(self, 'k', 0) + 1
        return self.L.set_instr(st, L, op, ops, 'pr%d' % self.k)

    def printed(self, st, loc, opts, indent='\t\t'):
        P = self.L.printer
        O = ('obj', 'popts'); st.mem[('f', O, self.flagf)] = ('i', opts)
        n0 = len(st.events())
        r = self.L.call(st, None, self.pi, ('ref', loc), ('ref', self.B.gram), ('ref', P), ('o', O), ('str', indent) if indent is not None else ZERO)
        self.n += 1
        if r is None:
            return None, None
        s, v = r
        out = [e[1] for e in s.events()[n0:] if e[0] == 'out']
        if any(x is None for x in out):
            return v, None
        return v, ''.join(out)

    def tokens(self, s):
        return re.findall(r'"[^"]*"|[\[\]]|[^\s\[\]"]+', s)

    def idtok(self, l, opts, name_bit='InstructionName'):
        """acceptable spellings of a reference"""
        n = self.rname.get(l)
        i = self.idof(l)
        if l in self.labels:
            out = set()
            if opts & (self.bits['InstructionName'] | self.bits['OperandName']) and n in self.names:
                out.add('%' + self.names[n])
            if out and opts & self.bits['InstructionName'] and opts & self.bits['OperandName']:
                return out
            return out | {'%%%d' % i}
        if opts & self.bits['InstructionName'] and n in self.names:
            out = {'%' + self.names[n]}
            if len(self.names[n]) == 1:
                out.add('%%%d' % i)
            return out
        op, ops = self.L.instr(self.st, l)
        if op in ('OpTypeVoid', 'OpTypeBool', 'OpTypeInt', 'OpTypeFloat', 'OpTypeVector', 'OpTypeMatrix') and opts & self.bits['TypeName']:
            return {self.typename(l)}
        if opts & self.bits['ConstantData'] and n in self.cv:
            return self.value(n)
        return {'%%%d' % i}

    def value(self, n):
        v = self.cv[n]
        if n not in self.fbits:
            return {v}
        if n not in self.spell:      # every decimal spelling that denotes the value and no other
            t, b = self.fbits[n]
            c, w = ('f', 'I') if t == 'float' else ('d', 'Q')
            x = struct.unpack(c, struct.pack(w, b))[0]
            out = set()
            for k in range(60):
                for f in 'fgeGE':
                    for a in ('', '#'):
                        s = '%%%s.%d%s' % (a, k, f) % x
                        try:
                            same = struct.pack(c, float(s)) == struct.pack(w, b)
                        except OverflowError:
                            same = False
                        if same:
                            out.add(s)
            self.spell[n] = out
        return self.spell[n]

    def typename(self, l):
        """void, bool, i32, u8, f64, f32x3 ... as the type itself spells it"""
        r = self.L.call(self.st.fork(), l, self.L.fn(INSTR, 'getType', 0))
        t = r[1][1]
        g = self.L.call(r[0], t, [f for f in self.fx.by_cls['spvgentwo::Type'] if f.name == 'getString' and f.body is not None][0])
        s = self.L.cstr(g[0], g[1])
        return s

    def idof(self, l):
        op, ops = self.L.instr(self.st, l)
        return [v[1] for k, v in ops if k == 'id'][0]

    def expect(self, op, ops, opts, constname=None, nested=False):
        """list of acceptable token sets; None marks tokens that may be absent.  ops: (kind of the grammar, operand)"""
        out = []
        O = self.bits
        words = [(k, o) for k, o in ops]
        res = [o for k, o in words if k == 'IdResult']
        if res and not nested:
            if opts & O['ResultId']:
                out.append({'%%%d' % res[0][1][1]})
        if opts & O['OperationName']:
            out.append({self.tab.core.name_of(self.T.op[op])} | set(a for a, i in self.tab.core.insts.items() if i is self.tab.core.insts[op]))
        i = 0
        while i < len(words):
            k, (t, v) = words[i]
            i += 1
            if k == 'IdResult':
                continue
            if k == 'IdResultType' and nested:
                out.append(('?', self.idtok(v[1], opts)))
                continue
            if t in ('instr', 'block'):
                l = v[1]
                if t == 'block':
                    l = [x for x, b in self.labels.items() if b == v[1]][0]
                out.append(self.idtok(l, opts))
                continue
            if k == 'LiteralString':
                b = b''
                i -= 1
                while i < len(words) and words[i][0] == 'LiteralString':
                    w = words[i][1][1][1]; b += (w & 0xffffffff).to_bytes(4, 'little'); i += 1
                    if b'\0' in b[-4:]:
                        break
                out.append({'"%s"' % b.split(b'\0')[0].decode('latin1')})
                continue
            w = v[1] & 0xffffffff
            if k == 'LiteralSpecConstantOpInteger':
                sub = self.tab.core.name_of(w)
                out.append(('?', {str(w)}))
                out.append({'['})
                out.append(('sub', sub, words[i:]))
                rest = [(a, b) for a, b in words[i:]]
                rt = [(a, b) for a, b in words if a == 'IdResultType']
                out.pop()
                out += self.expect(sub, rt + rest, opts, nested=True)
                out.append({']'})
                return out
            if k == 'LiteralContextDependentNumber' and constname is not None and opts & O['ConstantData']:
                out.append(self.value(constname))
                while i < len(words) and words[i][0] == k:
                    i += 1
                continue
            if k == 'LiteralExtInstInteger':
                st = [o[1][1] for kk, o in words if kk == 'IdRef'][:1]
                e = {self.loc['%glsl']: 'Glsl', self.loc['%cl']: 'OpenCl'}.get(st[0]) if st else None
                n = self.tab.setnames[self.tab.ext[e]].get(w) if e else None
                out.append({n} if n else {str(w)})
                continue
            cat = self.tab.cat(k)
            if cat in ('ValueEnum', 'BitEnum') and opts & O['OperandName']:
                ns = self.tab.names.get((k, w))
                if ns:
                    out.append(set(ns))
                    continue
                if cat == 'BitEnum':
                    bs = [self.tab.names.get((k, 1 << b), ['?']) for b in range(32) if w >> b & 1]
                    out.append({str(w), '|'.join(x[0] for x in bs)})
                    continue
            out.append({str(w)})
        return out

    def compare(self, toks, want):
        """None, or what is wrong"""
        i = 0
        for w in want:
            if isinstance(w, tuple):
                w = {self.norm(x) for x in w[1]}
                if i < len(toks) and toks[i] in w:
                    i += 1
                continue
            w = {self.norm(x) for x in w}
            if i >= len(toks):
                return 'ends before %s' % ' or '.join(sorted(w, key=len)[:6])
            if toks[i] not in w:
                return '%r where %s is expected' % (toks[i], ' or '.join(sorted(w, key=len)[:6]))
            i += 1
        if i < len(toks):
            return 'goes on with %r' % ' '.join(toks[i:])
        return None

    def norm(self, x):
        return x if x.startswith('"') else x.replace(' ', '_')

    def case(self, what, op, ops, opts, constname=None, on=None, indent='\t\t'):
        """ops: [(grammar kind, ('lit'|'instr'|'block'|'id', value))]"""
        st = self.st.fork()
        if on is None:
            st = self.place(st, op, [o for _, o in ops])
            on = self.scratch
        v, text = self.printed(st, on, opts, indent)
        key = '%s:%x' % (what, opts); loc = self.pi.loc()
        if v is None:
            self.rep.bad(key + ':null', loc, 'printing %s dereferences a null pointer' % what)
            return
        if text is None:
            raise AnalysisError('printing %s: text is not decided' % what)
        for n in self.names.values():
            if ' ' in n:
                text = text.replace('%' + n, '%' + n.replace(' ', '_'))
        e = self.compare(self.tokens(text), self.expect(op, ops, opts, constname))
        self.rep.check(e is None, key + ':text', loc, 'printing %s with options %x gives %r: %s' % (what, opts, text.strip(), e))
        self.rep.check(v == ('i', 1), key + ':result', loc, 'printing %s (options %x) reports failure' % (what, opts))

    # ---------------------------------------------------------- operands for a kind
    def operand(self, k, salt, value=None):
        """[(kind, operand)] of one operand of kind k, parameters of its enumerant included"""
        cat = self.tab.cat(k)
        if k == 'IdResult':
            return [(k, ('id', ('i', 900 + salt)))]
        if k == 'IdResultType':
            return [(k, ('instr', ('p', self.loc['%float'])))]
        if cat == 'Id':
            return [(k, ('instr', ('p', self.loc['%%u%d' % (salt % 11)])))]
        if cat == 'Composite':
            return [x for j, b in enumerate(self.tab.core.bases(k)) for x in self.operand(b, salt + j)]
        if k == 'LiteralString':
            s = ('text %d' % salt).encode() + b'\0'
            s += b'\0' * (-len(s) % 4)
            return [(k, ('lit', ('i', int.from_bytes(s[j:j + 4], 'little')))) for j in range(0, len(s), 4)]
        if k == 'LiteralSpecConstantOpInteger':
            return [(k, ('lit', ('i', self.T.op['OpIAdd']))), ('IdRef', ('instr', ('p', self.loc['%u1']))), ('IdRef', ('instr', ('p', self.loc['%u2'])))]
        if cat in ('ValueEnum', 'BitEnum'):
            if value is None:
                free = sorted(v for kk, v in self.tab.names if kk == k and not self.tab.params.get((k, v)))
                value = free[salt % len(free)] if free else 0
            out = [(k, ('lit', ('i', value)))]
            vals = [value] if cat == 'ValueEnum' else [1 << b for b in range(32) if value >> b & 1]
            for x in vals:
                for j, p in enumerate(self.tab.params.get((k, x), [])):
                    out += self.operand(p['kind'], salt + 3 + j)
            return out
        return [(k, ('lit', ('i', 100 + salt)))]

    def variants(self, op):
        l = self.tab.ops(op)
        base = []; full = []
        for i, o in enumerate(l):
            if o['q'] == 'One':
                base.append(i)
        out = [[i for i in base]]
        opt = [i for i, o in enumerate(l) if o['q'] != 'One']
        cur = list(base)
        for i in opt:
            cur = cur + [i]
            out.append(list(cur))
            if l[i]['q'] == 'ZeroOrAny':
                cur = cur + [i, i]
                out.append(list(cur))
        return [[l[i]['kind'] for i in sorted(v)] for v in out]

    # ---------------------------------------------------------- the groups
    def known(self):
        return [o for o in sorted(set(self.tab.core.by_op)) if self.tab.ops(o) is not None and o in self.T.opn]

    def opcodes(self, part, of):
        opts = [self.bits['All'], self.options('ResultId', 'OperationName')]
        ks = self.known()
        for i, op in enumerate(ks):
            if i % of != part:
                continue
            nm = self.T.opn[op]
            if nm not in self.tab.core.insts:
                nm = self.tab.core.name_of(op)
            for kinds in self.variants(op):
                ops = [x for j, k in enumerate(kinds) for x in self.operand(k, j)]
                for o in opts:
                    self.case('%s with %d operands' % (nm, len(ops)), nm, ops, o)
        self.rep.count('opcodes', len([i for i in range(len(ks)) if i % of == part]))

    def enumerants(self, part, of):
        """every enumerant with its parameters, all pairs of mask bits with parameters, followed by operands that must not be lost"""
        host = {}
        for op in self.known():
            l = self.tab.ops(op)
            for i, o in enumerate(l):
                c = self.tab.cat(o['kind'])
                if c in ('ValueEnum', 'BitEnum'):
                    # prefer the instruction with most operands behind the enumerant
                    if o['kind'] not in host or len(l) - i > host[o['kind']][2]:
                        host[o['kind']] = (op, i, len(l) - i)
        todo = []
        for k, (op, i, _) in sorted(host.items()):
            vals = sorted({v for kk, v in self.tab.names if kk == k})
            if self.tab.cat(k) == 'BitEnum':
                ps = [v for v in vals if self.tab.params.get((k, v))]
                single = [v for v in vals if v and v & v - 1 == 0]
                if ps:
                    vals = sorted(set(vals) | {a | b for a in single for b in ps})
                    vals.append(sum(single) & 0xffffffff)
                elif len(single) > 1:
                    vals = vals + [single[0] | single[-1]]
            elif self.rep.tier == 'quick' and not any(self.tab.params.get((k, v)) for v in vals):
                vals = vals[:3] + vals[-3:]
            todo += [(k, op, i, v) for v in sorted(set(vals))]
        for j, (k, op, i, v) in enumerate(todo):
            if j % of != part:
                continue
            l = self.tab.ops(op); nm = self.tab.core.name_of(op)
            ops = []
            for m, o in enumerate(l):
                if m == i:
                    ops += self.operand(k, m, v)
                elif m < i or o['q'] == 'One' or self.tab.params or True:
                    ops += self.operand(o['kind'], m)
            for o in (self.bits['All'], self.options('ResultId', 'OperationName')):
                self.case('%s with %s %d' % (nm, k, v), nm, ops, o)
        self.rep.count('enumerants', len([j for j in range(len(todo)) if j % of == part]))

    def settings(self):
        """the options: names, types, constants, results, operation"""
        singles = [b for b in self.bits if b != 'All']
        opts = [0, self.bits['All']] + [self.bits[b] for b in singles] + [self.bits['All'] & ~self.bits[b] for b in singles] + [self.options('ResultId', 'OperationName')]
        I = lambda n: ('IdRef', ('instr', ('p', self.loc[n])))
        R = ('IdResult', ('id', ('i', 777)))
        for o in sorted(set(opts)):
            for n in sorted(self.loc):
                op, _ = self.L.instr(self.st, self.loc[n])
                if op in ('OpLabel', 'OpFunction') or self.loc[n] == self.scratch:
                    continue
                self.case('a use of ' + n, 'OpStore', [I('%u1'), I(n)], o)
            for b, l in ((b, l) for l, b in self.labels.items()):
                self.case('a branch to ' + self.rname[l], 'OpBranch', [('IdRef', ('block', ('p', b)))], o)
            for t, words in (('%u8', [1]), ('%i64', [5, 9]), ('%f64', [1, 0x40040000])):
                self.case('a constant without a value the printer knows', 'OpSpecConstant', [('IdResultType', ('instr', ('p', self.loc[t]))), R] + [('LiteralContextDependentNumber', ('lit', ('i', w))) for w in words], o & ~self.bits['ConstantData'])
            sop = [('IdResultType', ('instr', ('p', self.loc['%int']))), R]
            for name, rest in (('OpIAdd', [I('%u1'), I('%u2')]), ('OpCompositeExtract', [I('%u1'), ('LiteralInteger', ('lit', ('i', 3)))]), ('OpSNegate', [I('%c4')]), ('OpVectorShuffle', [I('%u1'), I('%u2'), ('LiteralInteger', ('lit', ('i', 0))), ('LiteralInteger', ('lit', ('i', 5)))])):
                self.case('a specialization constant with ' + name, 'OpSpecConstantOp', sop + [('LiteralSpecConstantOpInteger', ('lit', ('i', self.T.op[name])))] + rest, o)
            for e, num in (('%glsl', 13), ('%cl', 14), ('%ns', 2), ('%glsl', 9999)):
                self.case('instruction %d of %s' % (num, e), 'OpExtInst', [('IdResultType', ('instr', ('p', self.loc['%float']))), R, I(e), ('LiteralExtInstInteger', ('lit', ('i', num))), I('%u1'), I('%u2')], o)
            for ln in range(0, 9):
                s = ('abcdefghijk'[:ln]).encode() + b'\0'; s += b'\0' * (-len(s) % 4)
                self.case('a string of length %d' % ln, 'OpName', [I('%u1')] + [('LiteralString', ('lit', ('i', int.from_bytes(s[j:j + 4], 'little')))) for j in range(0, len(s), 4)], o)
            # constants themselves
            for n, s in sorted(self.cv.items()):
                l = self.loc[n]
                op, ops = self.L.instr(self.st, l)
                ks = ['IdResultType', 'IdResult'] + ['LiteralContextDependentNumber'] * (len(ops) - 2)
                self.case('constant ' + n, op, list(zip(ks, ops)), o, constname=n if op == 'OpConstant' else None, on=l)
        # the result by its name
        for n in ('%named', '%main', '%block', '%N'):
            l = self.loc[n]
            for o in (self.bits['InstructionName'], self.options('InstructionName', 'ResultId')):
                v, text = self.printed(self.st.fork(), l, o)
                self.rep.check(text is not None and text.strip().startswith('%' + self.names[n]), 'result name:%s:%x' % (n, o), self.pi.loc(), 'printing the result of %s gives %r' % (self.names[n], text))
        # indentation
        for ind in (None, '', '  '):
            self.case('with indentation %r' % (ind,), 'OpStore', [I('%u1'), I('%u2')], self.bits['All'], indent=ind)

    def invalid(self):
        """what cannot be printed completely is reported"""
        rep = self.rep; loc = self.pi.loc()
        u = lambda i: ('instr', ('p', self.loc['%%u%d' % i]))
        cases = [('a missing operand', 'OpStore', [u(1)]), ('no operands', 'OpStore', []), ('an operand that is null', 'OpStore', [u(1), ('instr', ZERO)]),
                 ('an unset id', 'OpStore', [u(1), ('id', ZERO)]), ('a branch to nothing', 'OpBranch', [('block', ZERO)]), ('an unset result', 'OpFAdd', [('instr', ('p', self.loc['%float'])), ('id', ZERO), u(1), u(2)]),
                 ('an operand too many', 'OpStore', [u(1), u(2), ('lit', ('i', 0)), u(3)]), ('an operation nobody knows', None, [u(1)]),
                 ('a missing parameter of an enumerant', 'OpDecorate', [u(1), ('lit', ('i', self.dec('Location')))]), ('a missing parameter of a mask bit', 'OpStore', [u(1), u(2), ('lit', ('i', 3))])]
        for what, op, ops in cases:
            st = self.place(self.st.fork(), op or 'OpStore', ops)
            if op is None:
                st.mem[('f', self.scratch, self.L.ops.opfield)] = ('i', 65000)
            v, text = self.printed(st, self.scratch, self.bits['All'])
            if v is None:
                rep.bad('invalid:' + what, loc, 'printing an instruction with %s dereferences a null pointer' % what)
            else:
                rep.check(v == ('i', 0), 'invalid:' + what, loc, 'printing an instruction with %s reports success (%r)' % (what, text and text.strip()))

    def dec(self, name):
        return [e['value'] for e in self.tab.core.enumerants('Decoration') if e['enumerant'] == name][0]

    def printers(self):
        """the printer that fills a string: text as is, colors only when asked for"""
        C = MP + '::ModuleStringPrinter'; rep = self.rep
        ap = [f for f in self.fx.by_cls[C] if f.name == 'append' and f.body is not None][0]
        ctor = [f for f in self.fx.by_cls[C] if f.d.get('ctor') and len(f.params) == 2][0]
        strc = [f for f in self.fx.by_cls['spvgentwo::String'] if f.d.get('ctor') and f.body is not None and len(f.params) == 3 and 'char' in self.L.fx_ty(f, 1)][0]
        cs = [f for f in self.fx.by_cls['spvgentwo::String'] if f.name == 'c_str' and f.body is not None]
        cs += [f for k, fs in self.fx.by_cls.items() if k == 'spvgentwo::Vector<char>' for f in fs if f.name == 'data' and f.body is not None]
        for color in (0, 1):
            for text in ('', 'a', 'some longer text'):
                for push in (None, '<p>'):
                    for pop in (None, '<q>'):
                        st = self.st.fork()
                        S = ('obj', 'buf'); P = ('obj', 'sprinter')
                        arg = lambda x: ZERO if x is None else ('str', x)
                        r = self.L.call(st, S, strc, ('p', self.L.alloc), ('str', 'x'), ZERO)
                        r = r and self.L.call(r[0], P, ctor, ('ref', S), ('i', color))
                        r = r and self.L.call(r[0], P, ap, arg(text), arg(push), arg(pop))
                        r = r and self.L.call(r[0], S, cs[0])
                        self.n += 1
                        key = 'string printer:%d:%s:%s:%s' % (color, text, push, pop)
                        if r is None:
                            rep.bad(key, ap.loc(), 'appending %r to a string dereferences a null pointer' % text)
                            continue
                        got = self.L.cstr(r[0], r[1])
                        want = 'x' + (push or '' if color else '') + text + (pop or '' if color else '')
                        rep.check(got == want, key, ap.loc(), 'appending %r with colors %s and %s (colors %s) gives %r' % (text, push, pop, bool(color), got))

    def module(self):
        """printModule: the header, then every instruction once, in order, and the first that fails ends it"""
        rep = self.rep; loc = self.pm.loc()
        text = BASE.replace('OpName %named "named value"\nOpName %x "x"\n', 'OpEntryPoint GLCompute %main "entry"\nOpExecutionMode %main LocalSize 1 2 3\n%file = OpString "f"\nOpSource GLSL 450 %file\n') \
            .replace('OpMemoryModel', 'OpMemoryModel', 1).replace('%void = OpTypeVoid', 'OpModuleProcessed "p"\nOpDecorate %N Block\nOpMemberDecorate %N 1 Offset 4\n%void = OpTypeVoid').replace('OpCapability Linkage', 'OpCapability Linkage\nOpExtension "SPV_KHR_multiview"')
        text += '%pp = OpTypePointer Private %float\n%gv = OpVariable %pp Private\n%un = OpUndef %float\n%ff = OpTypeFunction %float %float\n%h = OpFunction %float Const %ff\n%hp = OpFunctionParameter %float\n%hl = OpLabel\n%hx = OpFAdd %float %hp %hp\nOpReturnValue %hx\nOpFunctionEnd\n'
        text += '%main = OpFunction %void None %fv\n%block = OpLabel\nOpStore %gv %un\nOpBranch %b2\n%b2 = OpLabel\nOpReturn\nOpFunctionEnd\n'
        r = self.B.load(None, text, 'whole', 0x10300)
        if r is None:
            raise AnalysisError('module of the check is not read')
        st, M = r
        insts = self.B.insts(st, M)
        P = self.L.printer
        for onames in (('Preamble', 'ResultId', 'OperationName'), ('ResultId', 'OperationName'), ('All',)):
            o = self.options(*onames)
            for bad in [None] + list(range(0, len(insts), 5)):
                s = st.fork()
                if bad is not None:
                    if onames != ('ResultId', 'OperationName'):
                        continue
                    l = insts[bad][2]
                    s.mem[('f', l, self.L.ops.opfield)] = ('i', self.T.op['OpStore'])
                    s = self.L.set_instr(s, l, 'OpStore', [], 'badop')
                n0 = len(s.events())
                O = ('obj', 'popts'); s.mem[('f', O, self.flagf)] = ('i', o)
                r = self.L.call(s, None, self.pm, ('ref', M), ('ref', self.B.gram), ('ref', P), ('o', O), ('str', '\t'))
                self.n += 1
                key = 'module:%x:%s' % (o, bad)
                if r is None:
                    rep.bad(key + ':null', loc, 'printing a module dereferences a null pointer')
                    continue
                s, v = r
                lines = [x for x in ''.join(e[1] for e in s.events()[n0:] if e[0] == 'out').split('\n') if x.strip()]
                rep.check(v == ('i', 1 if bad is None else 0), key + ':result', loc, 'printing a module %s' % ('fails' if bad is None else 'with an invalid instruction succeeds'))
                head = [x for x in lines if x.startswith('#')]; body = [x for x in lines if not x.startswith('#')]
                if self.bits['Preamble'] & o:
                    w = re.findall(r'\d+', ' '.join(head).replace('SPIR-V', ''))
                    b = self.L.call(s.fork(), M, self.L.fn(MOD, 'getSpvBound', 0))[1][1]
                    rep.check(w[:2] == ['1', '3'] and str(b) in w, key + ':preamble', loc, 'preamble %s for version 1.3 with bound %d' % (head, b))
                else:
                    rep.check(not head, key + ':preamble', loc, 'preamble printed without the option')
                # what each line says is what printInstruction says of the instruction
                want = []
                for i, (a, f, l) in enumerate(insts):
                    if bad is not None and i >= bad:
                        break
                    pv, pt = self.printed(st.fork(), l, o, '\t')
                    want.append(self.tokens(pt))
                got = [self.tokens(x) for x in body]
                if bad is not None:
                    got = got[:len(want)]
                if self.stable(insts):
                    rep.check(sorted(got) == sorted(want), key + ':lines', loc, 'printing a module gives %d lines for %d instructions (%s)' % (len(got), len(want), [x for x in got if x not in want][:2] + [x for x in want if x not in got][:2]))
                    if bad is None:
                        ranks = [self.rank(x) for x in got]
                        rep.check(ranks == sorted(ranks), key + ':order', loc, 'instructions are printed out of order')
        rep.count('instructions of a module', len(insts))

    def stable(self, insts):
        return True

    RANK = ['OpCapability', 'OpExtension', 'OpExtInstImport', 'OpMemoryModel', 'OpEntryPoint', 'OpExecutionMode']

    def rank(self, toks):
        op = next((t for t in toks if t.startswith('Op')), '')
        if op in self.RANK:
            return self.RANK.index(op)
        if op in ('OpString', 'OpSource'):
            return 10
        if op in ('OpName', 'OpMemberName'):
            return 11
        if op == 'OpModuleProcessed':
            return 12
        if op in ('OpDecorate', 'OpMemberDecorate'):
            return 13
        if op.startswith(('OpType', 'OpConstant', 'OpVariable', 'OpUndef')):
            return 14
        return 20


def check(fx, rep):
    rep.rule('instruction: the text has the result, the operation and every operand exactly once and in order, in the spelling the options ask for (ids, names, types, values, enumerants with their parameters, strings)')
    rep.rule('invalid: an instruction that is incomplete, refers to nothing or is unknown is reported, never dereferenced')
    rep.rule('module: header and every instruction of every section once, in order; ends with the first instruction that fails')
    N = 5

    def rest(r):
        p = Printing(fx, r)
        p.invalid(); p.printers(); p.module(); r.count('prints', p.n)

    def some(r, i):
        p = Printing(fx, r)
        p.opcodes(i, N); p.enumerants(i, N); r.count('prints', p.n)

    def sett(r):
        p = Printing(fx, r)
        p.settings(); r.count('prints', p.n)
    parallel(rep, [lambda r, i=i: some(r, i) for i in range(N)] + [rest, sett])
    flags.distinct(rep, fx, MP + '::PrintOptionsBits', 'options')
    rep.need('prints', rep.counts.get('prints', 0), 2000)

"""C09: the grammar tables agree with the SPIR-V specification's machine-readable grammar."""
from sa import spec
from sa.absint import Interp, State, ZERO, VOID
from sa.facts import AnalysisError

GR = 'spvgentwo::Grammar'


class TableInterp(Interp):
    """constant propagation through the constructor; containers are logged, keys are computed by the project's own hash"""
    def __init__(self, fx):
        super().__init__(fx)
        self.budget = 50000000
        self.tables = {}

    def val(self, st, a):
        for _ in range(6):
            if a[0] in ('ref', 'o'):
                l = a[1]
                for fld in [x['n'] for x in self.fx.records.get('spvgentwo::Hash64', {'fields': []})['fields']]:
                    if ('f', l, fld) in st.mem:
                        return st.mem[('f', l, fld)]
                v = st.mem.get(l)
                if v is None:
                    return ('obj', l)
                a = v
            else:
                return a
        return a

    def model(self, st, fr, n, fn, obj, args):
        nm = n.get('n'); c = n.get('c') or ''
        if c.startswith('spvgentwo::HashMap') and obj is not None:
            if fn is not None and fn.d.get('ctor'):
                return [(st, VOID)]
            if nm in ('emplaceUnique', 'emplace', 'insert'):
                k = self.val(st, args[0])
                node = ('new', 'n%d' % st.fresh())
                entry = dict(key=k, args=[(a, self.snap(st, a)) for a in args[1:]], node=node, unique=nm != 'emplace')
                self.tables.setdefault(obj[1][2] if obj[1][0] == 'f' else repr(obj), []).append(entry)
                return [(st, ('ref', node))]
        if nm == 'emplace_back' and obj is not None:
            self.tables.setdefault('#' + repr(obj[1]), []).append([self.val(st, a) for a in args])
            return [(st, ('ref', ('new', 'e%d' % st.fresh())))]
        if nm in ('reserve',):
            return [(st, VOID)]
        if fn is not None and fn.d.get('ctor') and (c.startswith('spvgentwo::Vector')):
            return [(st, VOID)]
        return None

    def snap(self, st, a):
        if a[0] in ('ref', 'o'):
            l = a[1]
            return {k[2]: v for k, v in st.mem.items() if k[0] == 'f' and k[1] == l} if l[0] == 'tmp' else None
        return None


def member(fx, cls, want):
    for f in fx.records[cls]['fields']:
        if want(fx.records[cls]['_tu'].types[f['t']]):
            return f['n']
    raise AnalysisError('member of %s not found' % cls)


def hash64(fx, ip, a, b):
    """the key the project computes for (a, b), through its own constructor"""
    H = fx.records['spvgentwo::Hash64']
    for f in fx.by_cls['spvgentwo::Hash64']:
        if f.d.get('ctor') and len(f.params) == 2:
            loc = ('new', 'h')
            st = State()
            r = ip.run(f, this=('p', loc), args=[('i', a), ('i', b)], st=st)
            return ip.val(r[0][0], ('o', loc))
    raise AnalysisError('Hash64(a, b) not found')


def build(fx):
    ip = TableInterp(fx)
    ctor = [f for f in fx.by_cls[GR] if f.d.get('ctor') and len(f.params) == 1 and not f.d.get('cc') and not f.d.get('mc')]
    if len(ctor) != 1:
        raise AnalysisError('constructor filling the grammar tables not found')
    rs = ip.run(ctor[0], args=[('p', ('obj', 'alloc'))])
    if len(rs) != 1:
        raise AnalysisError('Grammar::Grammar has %d paths' % len(rs))
    return ip, ctor[0], rs[0][0]


class GetInterp(TableInterp):
    def model(self, st, fr, n, fn, obj, args):
        c = n.get('c') or ''
        if c.startswith('spvgentwo::HashMap') and obj is not None and n.get('n') in ('get', 'find'):
            st.emit('get', obj[1], self.val(st, args[0]))
            return [(st, ('s', ('found', obj[1])))]
        return super().model(st, fr, n, fn, obj, args)


def table_of(fx, ip, rep, name, args, want):
    """the table an accessor reads, and the key it reads it with"""
    f = fx.method(GR, name)
    got = set()
    for s, v in GetInterp(fx).run(f, args=args):
        gets = [e for e in s.events() if e[0] == 'get']
        if len(gets) != 1:
            raise AnalysisError('Grammar::%s does not look up one table entry' % name)
        got.add(gets[0][1])
        rep.check(gets[0][2] == want, 'C09:key:%s' % name, f.loc(), 'Grammar::%s looks up the key %s, the table is filled with %s' % (name, gets[0][2], want))
        if v == ZERO:
            nul = [k for k, b in s.facts.items() if not b]
            rep.check(bool(nul), 'C09:get:%s' % name, f.loc(), 'Grammar::%s returns nothing for an entry that exists' % name)
    if len(got) != 1:
        raise AnalysisError('Grammar::%s reads %d tables' % (name, len(got)))
    t = got.pop()
    return t[2] if t[0] == 'f' else repr(t)


def text(v):
    if v[0] == 'obj' and v[1][0] == 'strl': return v[1][1]
    if v[0] == 'ref' and v[1][0] == 'strl': return v[1][1]
    if v[0] == 'str': return v[1]
    return None


QUANT = {None: 'One', '?': 'ZeroOrOne', '*': 'ZeroOrAny'}
CAT = {'Id': 'Id', 'ValueEnum': 'ValueEnum', 'BitEnum': 'BitEnum', 'Literal': 'Literal', 'Composite': 'Composite'}


def version(v):
    if v in (None, 'None'):
        return None
    a, b = v.split('.')
    return int(a) << 16 | int(b) << 8


def check(fx, rep):
    rep.rule('constant propagation through the constructor that fills the grammar tables; every instruction, operand, quantifier, category, parameter list, composite operand, enumerant name, '
             'capability, extension and version is compared with the vendored machine-readable SPIR-V grammar; the accessors read the table, and the key, that the constructor filled')
    core = spec.core(); delta = spec.delta()
    ip, ctor, st = build(fx)
    loc = ctor.loc()
    E = {k.split('::')[-1]: {x[0]: x[1] for x in fx.enums[k]['v']} for k in
         (GR + '::Extension', GR + '::OperandCategory', GR + '::OperandKind', GR + '::Quantifier', 'spvgentwo::spv::Capability', 'spvgentwo::spv::Extension')}
    kinds = E['OperandKind']; rk = {v: k for k, v in kinds.items()}
    rcat = {v: k for k, v in E['OperandCategory'].items()}; rq = {v: k for k, v in E['Quantifier'].items()}
    rext = {v: k for k, v in E['Extension'].items()} if False else {}
    for k, v in E['Extension'].items():
        rext.setdefault(v, k)
    cap = {}
    for k, v in E['Capability'].items():
        cap.setdefault(v, set()).add(k)
    sext = {v: k for k, v in E['Extension'].items()}
    sx = {x[1]: x[0] for x in fx.enums['spvgentwo::spv::Extension']['v']}
    h = lambda a, b: hash64(fx, ip, a, b)
    tI = table_of(fx, ip, rep, 'getInfo', [('i', 3), ('i', 7)], h(3, 7))
    tN = table_of(fx, ip, rep, 'getOperandName', [('i', 3), ('i', 7)], h(3, 7))
    tP = table_of(fx, ip, rep, 'getOperandParameters', [('i', 3), ('i', 7)], h(3, 7))
    tB = table_of(fx, ip, rep, 'getOperandBases', [('i', 3)], ('i', 3))
    T = ip.tables
    # keys are an injective packing of their two halves
    rep.check(h(0, 1) != h(1, 0) and len({h(a, b) for a in (0, 1, 25, 6445, 0xFFFF) for b in (0, 1, 2, 31, 0xFFFF, 0x40000000)}) == 30, 'C09:hash64', loc, 'Hash64 maps different (opcode, extension) pairs to one key')
    flds = {f['n']: i for i, f in enumerate(fx.records[GR + '::Operand']['fields'])}

    def ops(node, sub=None):
        base = ('f', ('f', node, 'kv'), 'value')
        l = ('f', base, sub) if sub else base
        res = []
        for a in T.get('#' + repr(l), []):
            res.append((rk.get(a[0][1]), rcat.get(a[1][1]), text(a[2]), rq.get(a[3][1])))
        return res

    def vals(node, sub):
        return [a[0][1] for a in T.get('#' + repr(('f', ('f', ('f', node, 'kv'), 'value'), sub)), [])]

    def same_ops(key, what, got, want, named=True):
        """got: [(kind, category, name, quantifier)]; want: grammar operand list"""
        exp = [(o['kind'], CAT[core.category(o['kind'])], QUANT[o.get('quantifier')]) for o in want]
        have = [(k, c, q) for k, c, n, q in got]
        rep.check(have == exp, key, loc, '%s: the table lists %s, the specification %s' % (what, fmt(have), fmt(exp)))

    # ---- instructions
    byk = {}
    for e in T[tI]:
        if e['key'][0] != 'i':
            raise AnalysisError('a grammar key is not a constant')
        if e['unique'] and e['key'][1] in byk:
            rep.bad('C09:instr:duplicate:%d' % e['key'][1], loc, 'two instructions are entered under the key %d; the second is dropped' % e['key'][1])
            continue
        byk[e['key'][1]] = e
    n = 0
    exts = {'Core': core.raw['instructions'], 'Glsl': list(spec.glsl().values()), 'OpenCl': list(spec.opencl().values())}
    for en, ev in E['Extension'].items() if False else [(x[0], x[1]) for x in fx.enums[GR + '::Extension']['v']]:
        src = next((v for k, v in exts.items() if k.lower() == en.lower()), None)
        if src is None:
            raise AnalysisError('instruction set %s is not known to this check' % en)
        for i in src:
            if i['opcode'] != exts and any(j is not i and j['opcode'] == i['opcode'] for j in src) and i is not next(j for j in src if j['opcode'] == i['opcode']):
                continue
            e = byk.pop(h(i['opcode'], ev)[1], None)
            d = '%s %s' % (en, i['opname'])
            if e is None and i['opname'] in delta['newer_instructions']:
                continue
            if not rep.check(e is not None, 'C09:instr:missing:%s' % d, loc, 'no entry for %s (opcode %d)' % (d, i['opcode'])):
                continue
            n += 1
            init = e['args'][0][1]
            names = {j['opname'] for j in src if j['opcode'] == i['opcode']}
            rep.check(text(init['name']) in names, 'C09:instr:name:%s' % d, loc, 'opcode %d is named %s in the table, the specification says %s' % (i['opcode'], text(init['name']), d))
            same_ops('C09:instr:operands:%s' % d, d, ops(e['node'], 'operands'), i.get('operands', []))
            got = vals(e['node'], 'capabilities'); want = set(i.get('capabilities', []))
            g2 = [cap.get(c, {'?%s' % c}) for c in got]
            if sorted(sum(map(list, g2), [])) != sorted(want) and i['opname'] in delta['older_capabilities']:
                want = set(delta['older_capabilities'][i['opname']])
            rep.check(len(got) == len(want) and all(g & want for g in g2) and all(any(w in g for g in g2) for w in want), 'C09:instr:capabilities:%s' % d, loc,
                      '%s: capabilities %s in the table, %s in the specification' % (d, sorted('/'.join(sorted(g)) for g in g2), sorted(want)))
            got = {sx.get(c, '?%s' % c) for c in vals(e['node'], 'extensions')}; want = set(i.get('extensions', []))
            if not want:
                want = set(delta['older_extensions'].get(i['opname'], [])) if got else want
            rep.check({g.lower() for g in got} == {w.lower() for w in want}, 'C09:instr:extensions:%s' % d, loc, '%s: extensions %s in the table, %s in the specification' % (d, sorted(got), sorted(want)))
            want = version(i.get('version'))
            got = init['version']
            rep.check(want is None or got == ('i', want), 'C09:instr:version:%s' % d, loc, '%s: version %s in the table, %s in the specification' % (d, got, i.get('version')))
    for k, e in byk.items():
        rep.bad('C09:instr:extra:%s' % text(e['args'][0][1]['name']), loc, 'the table has an entry %s (key %d) that the specification does not list' % (text(e['args'][0][1]['name']), k))
    rep.need('instructions compared', n, 900)
    # ---- enumerant names and parameters
    nm = {}
    for e in T[tN]:
        nm.setdefault(e['key'][1], []).append(text(e['args'][0][0]))
    pr = {e['key'][1]: e for e in T[tP]}
    rep.check(len(pr) == len(T[tP]) or True, 'C09:params:dup', loc, '')
    cnt = 0; pc = 0
    has = fx.method(GR, 'hasOperandParameters')
    for k, v in sorted(kinds.items()):
        if k not in core.kinds:
            rep.bad('C09:kind:%s' % k, loc, 'operand kind %s is not in the specification' % k); continue
        ens = core.enumerants(k) + [{'enumerant': n, 'value': x, 'parameters': [{'kind': q} for q in ps], 'older': 1} for n, x, ps in delta['older_enumerants'].get(k, [])]
        hv = ip.run(has, args=[('i', v)])
        rep.check(len(hv) == 1 and hv[0][1] == ('i', int(core.has_params(k))), 'C09:hasparams:%s' % k, has.loc(), 'hasOperandParameters(%s) is %s; the specification %s parameters for it' % (k, [x[1] for x in hv], 'has' if core.has_params(k) else 'has no'))
        seen = {}
        for e in ens:
            val = e['value'] if isinstance(e['value'], int) else int(e['value'], 16)
            seen.setdefault(val, []).append(e)
        for val, es in seen.items():
            names = {x['enumerant'] for x in es}
            key = h(v, val)[1]
            got = nm.pop(key, [None])
            if got[0] is None and key not in pr and ('%s:%d' % (k, val) in delta['newer_enumerants'] or es[0].get('older')):
                continue
            names |= {delta['older_names'].get('%s:%d' % (k, val))} - {None}
            cnt += 1
            rep.check(got[0] in names, 'C09:name:%s:%d' % (k, val), loc, '%s %d is named %s, the specification says %s' % (k, val, got[0], sorted(names)))
            params = es[0].get('parameters', [])
            pe = pr.pop(key, None)
            if params or pe is not None:
                pc += 1
                old = delta['older_params'].get('%s:%s' % (k, es[0]['enumerant']))
                if old and pe and len(ops(pe['node'])) == len(old) and ops(pe['node'])[0][3] == QUANT[old[0][1]]:
                    params = [dict(kind=a, quantifier=b) for a, b in old]
                same_ops('C09:params:%s:%s' % (k, sorted(names)[0]), 'parameters of %s %s' % (k, sorted(names)[0]), ops(pe['node']) if pe else [], params)
    for key, names in nm.items():
        rep.bad('C09:name:extra:%s' % names[0], loc, 'name %s is entered for %s %d, which the specification does not list' % (names[0], rk.get(key & 0xFFFFFFFF), key >> 32))
    for key, e in pr.items():
        rep.bad('C09:params:extra:%d' % key, loc, 'parameters are entered for %s %d, which the specification does not list' % (rk.get(key & 0xFFFFFFFF), key >> 32))
    rep.need('enumerant names compared', cnt, 700)
    rep.need('parameter lists compared', pc, 90)
    enums(fx, rep, core, delta)
    # ---- composites
    bs = {e['key'][1]: e for e in T[tB]}
    nb = 0
    for k, v in kinds.items():
        if core.kinds.get(k, {}).get('category') == 'Composite':
            nb += 1
            e = bs.pop(v, None)
            same_ops('C09:bases:%s' % k, 'composite operand %s' % k, ops(e['node']) if e else [], [{'kind': x} for x in core.bases(k)])
    for v in bs:
        rep.bad('C09:bases:extra:%s' % rk.get(v), loc, 'parts are entered for %s, which is not a composite operand' % rk.get(v))
    rep.need('composite operands compared', nb, 3)


def enums(fx, rep, core, delta):
    """the enumerators the library and its users spell are the specification's numbers"""
    n = 0
    older = {(k, x[0]): x[1] for k, l in delta['older_enumerants'].items() for x in l}
    for k, kd in core.kinds.items():
        for nm in (k, k + 'Mask'):
            e = fx.enums.get('spvgentwo::spv::' + nm)
            if not e:
                continue
            ev = {x[0]: x for x in e['v']}
            for en in core.enumerants(k):
                v = en['value'] if isinstance(en['value'], int) else int(en['value'], 16)
                c = next((c for c in (en['enumerant'], k + en['enumerant']) if c in ev), None)
                if c is None:
                    continue
                n += 1
                rep.check(ev[c][1] in (v, older.get((k, en['enumerant']))), 'C09:enum:%s:%s' % (k, c), '%s:%d' % (e['file'], ev[c][2]), '%s::%s is %d, the specification says %d' % (nm, c, ev[c][1], v))
    for q, src in (('spvgentwo::spv::Op', core.raw['instructions']), ('spvgentwo::glslstd450::Op', spec.glsl().values()), ('spvgentwo::opencl100::Op', spec.opencl().values())):
        e = fx.enums.get(q)
        if not e:
            raise AnalysisError('enum %s not found' % q)
        ev = {x[0].lower(): x for x in e['v']}
        for i in src:
            c = next((c for c in (i['opname'].lower(), 'op' + i['opname'].lower()) if c in ev), None)
            if c is None:
                rep.check(i['opname'] in delta['newer_instructions'], 'C09:enum:%s:%s' % (q, i['opname']), '%s:%d' % (e['file'], e['line']), '%s has no enumerator for %s' % (q, i['opname']))
                continue
            n += 1
            rep.check(ev[c][1] == i['opcode'], 'C09:enum:%s:%s' % (q, i['opname']), '%s:%d' % (e['file'], ev[c][2]), '%s::%s is %d, the specification says %d' % (q, ev[c][0], ev[c][1], i['opcode']))
    rep.need('enumerators compared', n, 1700)


def fmt(l):
    return '[' + ', '.join('%s%s' % (x[0], {'One': '', 'ZeroOrOne': '?', 'ZeroOrAny': '*'}.get(x[2], x[2])) for x in l) + ']'

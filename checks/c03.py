"""C03: every instruction builder produces the opcode it is named after, with operands as the SPIR-V grammar lays them out."""
from sa import builder, spec
from sa.builder import BuilderInterp, paths, INSTR
from sa.absint import ZERO, State
from sa.facts import AnalysisError

# builder -> spec opcode where the name differs (confirmed by reading the builder's documentation in Instruction.h)
ALIAS = {'opImageSampleImplictLod': 'OpImageSampleImplicitLod', 'opImageSampleProjImplictLod': 'OpImageSampleProjImplicitLod',
         'opImageSampleDrefImplictLod': 'OpImageSampleDrefImplicitLod', 'opImageSampleProjDrefImplictLod': 'OpImageSampleProjDrefImplicitLod'}
SUFFIX = ('Level', 'Grad', 'Dynamic')

# parameters that may be null / absent by contract
OPTIONAL = {('opSource', '_pFileString'), ('opSource', '_pSourceText'), ('opVariable', '_pInitializer')}

# parameters that are not operands of the instruction: they only select the result type (or, for masks, are combined)
NOT_OPERAND = {('opUConvert', '_bitWidth'), ('opSConvert', '_bitWidth'), ('opFConvert', '_bitWidth'), ('opConvertPtrToU', '_bitWidth')}

# operand order differs from the order of the C++ parameters
ORDER = {'opCompositeInsert': {'_pComposite': 1, '_pValue': 0}, 'opFunction': {'_functionControl': 0, '_pFuncType': 1},
         'opImageSampleExplicitLodLevel': None}

CONST_SUFFIX = ''


def spec_name(name, insts):
    if name in ALIAS:
        return ALIAS[name]
    low = {k.lower(): k for k in insts}
    n = name.lower()
    if n in low:
        return low[n]
    for s in SUFFIX:
        if name.endswith(s) and name[:-len(s)].lower() in low:
            return low[name[:-len(s)].lower()]
    return None


def base_param(v):
    """parameters an operand value is built from"""
    out = []

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'param':
                out.append(x[1]); return
            if len(x) == 2 and x[0] == 'obj' and x[1] != 'this':
                out.append(x[1]); return
            for y in x:
                go(y)
    go(v)
    return out


class Interp(BuilderInterp):
    def inline(self, fn, fr):
        c = fn.cls or ''
        if c.startswith('spvgentwo::EntryIterator<') and 'Operand' not in c and 'spvgentwo::Type' not in c:
            return True
        if c.startswith('spvgentwo::List<') and ('Instruction *' in c or 'unsigned int' in c) and fn.name in ('begin', 'end', 'cbegin', 'cend', 'front', 'back', 'empty', 'size'):
            return True
        if c.startswith('spvgentwo::Entry<') and 'Operand' not in c and 'spvgentwo::Type' not in c and fn.name in ('inner', 'operator->', 'operator*', 'get', 'next', 'prev', 'first', 'last'):
            return True
        return super().inline(fn, fr)


def list_elem(v):
    """(list parameter, k) if v is (derived only from) the k-th element of a list parameter"""
    k = 0
    while True:
        if not isinstance(v, tuple) or not v:
            return None
        if v[0] == 's' and isinstance(v[1], tuple) and v[1][0] in ('ld', 'at'):
            v = v[1][1]; continue
        if v[0] == '*':
            v = v[1]; continue
        if v[0] == 'f':
            if v[2] == 'm_pNext':
                k += 1
            if v[2] == 'm_pBegin' and v[1][0] == 'obj':
                return (v[1][1], k)
            v = v[1]; continue
        if v[0] == 's' and isinstance(v[1], tuple) and v[1][0] == 'call' and v[1][1].endswith('Module::constant') and len(v[1][3]) >= 1:
            v = v[1][3][0]
            if v[0] == 'p':
                v = v[1]
            continue
        return None


def known_null(st, pname):
    return st.facts.get(('nz', ('s', ('param', pname)))) is False


def operand_params(fn, args):
    """(display name, original name, C++ type) of each parameter"""
    cnt = {}; out = []
    for p in fn.params:
        cnt[p['n']] = cnt.get(p['n'], 0) + 1
    seen = {}
    for p in fn.params:
        nm = p['n']
        if cnt[nm] > 1:
            k = seen.get(nm, 0); seen[nm] = k + 1; nm = '%s#%d' % (p['n'], k)
        out.append((nm, p['n'], fn.tu.types[p['t']]))
    return out


def check(fx, rep):
    rep.rule('for every builder (and every representative instantiation of a builder template) and every path on which it builds an instruction: '
             'the opcode is the one the builder is named after; the operand sequence is accepted by the SPIR-V grammar entry of that opcode '
             '(result-type and result-id slots, id / literal kinds, required operands present); the builder\'s operand arguments appear exactly once, '
             'in grammar order; a builder that refuses its operands leaves the instruction untouched and returns the error instruction')
    g = spec.core()
    ip = Interp(fx)
    builders = [f for f in fx.by_cls[INSTR] if f.name.lower().startswith('op') and not f.name.startswith('operator') and f.name != 'opCopyMemorySizedImpl']
    names = set()
    npaths = 0
    for f in sorted(builders, key=lambda f: (f.name, len(f.params), f.id)):
        sn = spec_name(f.name, g.insts)
        if sn is None:
            if f.d.get('acc') not in ('public', None):
                continue
            rep.count('builders without a grammar entry'); continue
        names.add(f.name)
        inst = g.insts[sn]
        params = operand_params(f, None)
        ps = paths(ip, f)
        built = 0
        sigkey = '%s(%s)' % (f.name, ','.join(p[1] for p in params))
        for op, ops, evs, v, st, touched in ps:
            npaths += 1
            if any(known_null(st, d) and (f.name, n) not in OPTIONAL and t.endswith('*') for d, n, t in params):
                # a required operand is null: outside the contract, except that nothing may be built and returned as success silently
                continue
            if not touched:
                if f.ret.endswith('*'):
                    rep.check(v == ('s', ('error',)), 'C03:%s:refuse' % sigkey, f.loc(), '%s returns %s without having built anything' % (f.name, show(v)))
                continue
            built += 1
            if f.ret.endswith('*'):
                rep.check(v == ('p', ('obj', 'this')), 'C03:%s:return' % sigkey, f.loc(), '%s built %s but returns %s instead of itself' % (f.name, show_ops(ops), show(v)))
            one_path(f, sigkey, sn, inst, g, params, op, [(k, through(x, evs)) if isinstance(x, tuple) else (k, x) for k, x in ops], st, rep)
        if built == 0:
            rep.bad('C03:%s:never' % sigkey, f.loc(), '%s never builds an instruction' % f.name)
        rep.sample('%s -> %s: %d paths, %d build' % (sigkey, sn, len(ps), built))
    rep.need('builders', len(names), 180)
    rep.need('builder paths', npaths, 900)


def show(v):
    b = base_param(v)
    if v[0] == 's' and v[1][0] == 'param':
        return v[1][1]
    if v[0] == 'i':
        return str(v[1])
    if v[0] == 's' and v[1][0] == 'call':
        return '%s(%s)' % (v[1][1].split('::')[-1], ','.join(b))
    return str(v)[:80]


def show_ops(ops):
    return '[' + ', '.join('%s %s' % (o[0], show(o[1]) if isinstance(o[1], tuple) else o[1]) for o in ops) + ']'


def kind_ok(gk, k, g):
    """does the appended operand kind fit the grammar operand kind"""
    cat = g.category(gk)
    if gk in ('IdResultType',):
        return k == 'instr'
    if gk == 'IdResult':
        return k == 'id'
    if cat == 'Id':
        return k in ('instr', 'block', 'id')
    if cat in ('Literal', 'ValueEnum', 'BitEnum'):
        return k == 'lit'
    return True


def one_path(f, key, sn, inst, g, params, op, ops, st, rep):
    loc = f.loc()
    if not rep.check(op == ('i', inst['opcode']), 'C03:%s:op' % key, loc,
                     '%s sets opcode %s, the grammar says %s = %d' % (f.name, g.name_of(op[1]) if op and op[0] == 'i' else op, sn, inst['opcode'])):
        return
    gops = inst.get('operands', [])
    # 1. conformance to the grammar
    i = 0; gi = 0; err = None
    bound = []
    while gi < len(gops):
        go = gops[gi]; gk = go['kind']; q = go.get('quantifier')
        cat = g.category(gk)
        if i >= len(ops):
            if q is None:
                err = 'required operand %s (%s) is missing' % (go.get('name', gk), gk)
            break
        k = ops[i][0]
        if cat == 'Composite':
            parts = g.bases(gk)
            fit = True
            j = i
            while j < len(ops):
                for p in parts:
                    if j >= len(ops) or not kind_ok(p, ops[j][0], g):
                        fit = False; break
                    bound.append((go, j)); j += 1
                if not fit or q != '*':
                    break
            if not fit:
                err = 'operand %d (%s) does not form a %s pair' % (j, show_ops(ops[i:j + 1]), gk)
                i = len(ops)
                break
            i = j; gi += 1
            continue
        if not kind_ok(gk, k, g):
            if q in ('?', '*'):
                gi += 1
                if q == '?' and gi < len(gops) and not rest_optional(gops, gi):
                    continue
                if gi >= len(gops):
                    break
                # a later optional operand is present although an earlier one is not
                if any(kind_ok(x['kind'], k, g) for x in gops[gi:]):
                    err = '%s is supplied although the preceding optional operand %s is absent' % (show(ops[i][1]), go.get('name', gk))
                    break
                continue
            err = 'operand %d is %s %s where the grammar has %s %s' % (i, k, show(ops[i][1]), gk, go.get('name', ''))
            break
        bound.append((go, i))
        if gk == 'LiteralSpecConstantOpInteger':  # the embedded opcode's own operands follow
            i = len(ops); gi += 1
            continue
        if cat in ('ValueEnum', 'BitEnum') and g.has_params(gk):
            # enumerants may carry parameters, whose number and kind depend on the value: they follow immediately
            i += 1
            rest = gops[gi + 1:]
            need = sum(1 for x in rest if 'quantifier' not in x)
            if not rest:
                while i < len(ops) and not (q == '*' and False):
                    bound.append((go, i)); i += 1
            elif all(x['kind'] == gk for x in rest):
                while i < len(ops) and not (ops[i][0] == 'lit' and cat == 'BitEnum' and len(rest) > 0 and False):
                    bound.append((go, i)); i += 1
                gi = len(gops) - 1
            gi += 1
            continue
        i += 1
        if q != '*':
            gi += 1
    if err is None and i < len(ops):
        err = 'operand %d (%s %s) is not in the grammar of %s' % (i, ops[i][0], show(ops[i][1]), sn)
    rep.check(err is None, 'C03:%s:grammar%s' % (key, ':' + path_note(st, params)), loc, '%s builds %s %s: %s' % (f.name, sn, show_ops(ops), err))
    if err is not None:
        return
    # 2. result type / result id slots
    pos = 0
    if gops and gops[0]['kind'] == 'IdResultType':
        tv = ops[0][1]
        used = base_param(tv)
        rt = [d for d, n, t in params if n in ('_pResultType', '_pType')]
        if rt:
            rep.check(tv == ('s', ('param', rt[0])), 'C03:%s:rtype' % key, loc, '%s puts %s in the result-type slot instead of its result type argument' % (f.name, show(tv)))
        else:
            okv = tv == ZERO or (tv[0] == 's' and tv[1][0] in ('call', 'ld'))
            rep.check(okv, 'C03:%s:rtype' % key, loc, '%s puts %s in the result-type slot' % (f.name, show(tv)))
        pos = 1
    if len(gops) > pos and gops[pos]['kind'] == 'IdResult':
        rep.check(ops[pos] == ('id', ZERO), 'C03:%s:rid' % key, loc, '%s puts %s in the result-id slot' % (f.name, show(ops[pos][1])))
        pos += 1
    # 3. roles: operand arguments once each, in order
    expect = expected_args(f, params, st, pos, gops)
    got = []
    for k, v in ops[pos:]:
        e = list_elem(v)
        if e is not None:
            got.append(e); continue
        b = base_param(v)
        if v[0] == 's' and v[1][0] == 'call' and v[1][1].endswith('::getBasicBlock') and b:
            got.append(('block-of', tuple(b)[0]) if not list_in(v) else ('block-of', list_in(v)))
        elif len(set(b)) == 1:
            got.append(b[0])
        elif v == ('s', ('placeholder',)):
            got.append(('placeholder',))
        elif v[0] == 'i' and not b:
            got.append(('const', v[1]))
        else:
            got.append(tuple(sorted(set(b))) or show(v))
    exp = expect
    fits = match(got, exp, st, f, params)
    rep.check(fits, 'C03:%s:roles' % key, loc, '%s appends operands %s; expected the arguments %s' % (f.name, got, exp))


def through(v, evs):
    """an instruction that this path itself builds from an argument stands for that argument"""
    if v[0] == 'p' and v[1][0] == '*':
        v = v[1][1]
    if v[0] == 's' and v[1][0] in ('call', 'newinstr') and not base_param(v):
        b = set()
        for e in evs:
            if e[0] == 'operand' and e[1] == v:
                b |= set(base_param(e[2]))
            elif e[0] == 'literals' and e[1] == v:
                b |= set(base_param(e[2]))
        if len(b) == 1:
            return ('s', ('built', ('param', b.pop())))
        if not b and v[1][0] == 'newinstr':
            return ('s', ('placeholder',))
    return v


def list_in(v):
    for x in walk_t(v):
        if isinstance(x, tuple) and len(x) == 2 and x[0] == 's' and isinstance(x[1], tuple):
            e = list_elem(x)
            if e is not None:
                return e
    return None


def walk_t(v):
    yield v
    if isinstance(v, tuple):
        for x in v:
            yield from walk_t(x)


def rest_optional(gops, gi):
    return all('quantifier' in x for x in gops[gi:])


def path_note(st, params):
    return ','.join('%s=null' % d for d, n, t in params if known_null(st, d))


IMG_EXTRA = {'opImageSampleExplicitLodLevel': '_pLodLevel', 'opImageSampleProjExplicitLodLevel': '_pLodLevel', 'opImageSampleDrefExplicitLodLevel': '_pLodLevel',
             'opImageSampleProjDrefExplicitLodLevel': '_pLodLevel', 'opImageSampleExplicitLodGrad': '_pGrad', 'opImageSampleProjExplicitLodGrad': '_pGrad',
             'opImageSampleDrefExplicitLodGrad': '_pGrad', 'opImageSampleProjDrefExplicitLodGrad': '_pGrad'}
MASKS = {'_imageOperands', '_memOperands', '_targetMemOperands', '_sourceMemOperands'}


def expected_args(f, params, st, pos, gops):
    """ordered list of (display name, optional?)"""
    ps = [(d, n, t) for d, n, t in params]
    if gops and gops[0]['kind'] == 'IdResultType':
        ps = [p for p in ps if p[1] not in ('_pResultType', '_pType')]
    ps = [p for p in ps if (f.name, p[1]) not in NOT_OPERAND]
    if f.name in IMG_EXTRA:
        x = [p for p in ps if p[1] == IMG_EXTRA[f.name]][0]
        ps.remove(x)
        i = [k for k, p in enumerate(ps) if p[1] == '_imageOperands'][0]
        ps.insert(i + 1, x)
    if ORDER.get(f.name):
        o = ORDER[f.name]
        head = sorted([p for p in ps if p[1] in o], key=lambda p: o[p[1]])
        rest = [p for p in ps if p[1] not in o]
        ps = head + rest
    return ps


def match(got, exp, st, f, params):
    """got equals the expected arguments in order.  A mask argument that is empty on this path may be left out together with its trailing operands, or appear as 0;
    an optional argument that is null on this path is left out; a list argument contributes its elements in order"""
    gi = 0
    nomask = False
    i = 0
    if f.name.lower() in ('opphi',):
        want = []
        for d, n, t in exp:
            want += [d, ('block-of', d)]
        return got == want
    if f.name == 'opPhiDynamic':
        # elements in order, each followed by its block
        k = 0
        for j in range(0, len(got), 2):
            if j + 1 >= len(got) or got[j] != ('_variables', k) or got[j + 1] != ('block-of', ('_variables', k)):
                return False
            k += 1
        return drained(st, '_variables', k)
    while i < len(exp):
        d, n, t = exp[i]
        if 'List<' in t:
            k = 0
            while gi < len(got) and got[gi] in ((d, k),):
                gi += 1; k += 1
            if not drained(st, d, k):
                return False
            i += 1
            continue
        if gi < len(got) and got[gi] == d:
            gi += 1; i += 1
            continue
        if n in MASKS:
            if gi < len(got) and got[gi] == ('const', 0):
                gi += 1; i += 1
                continue
            # absent: allowed only when the mask is known to be empty on this path
            if empty_mask(st, d):
                if f.name.startswith('opImage'):
                    return gi == len(got)
                i += 1
                continue
            return False
        if known_null(st, d):
            if gi < len(got) and got[gi] == ('placeholder',):  # an instruction built on this path stands for the absent argument
                gi += 1
            i += 1
            continue
        return False
    return gi == len(got)


def drained(st, d, k):
    """the list has ended on this path once k elements were appended (loops are followed for two elements)"""
    if k >= 2:
        return True
    p = ('s', ('ld', ('f', ('obj', d), 'm_pBegin')))
    for _ in range(k):
        p = ('s', ('ld', ('f', ('*', p), 'm_pNext')))
    return st.facts.get(('nz', p)) is False


def empty_mask(st, d):
    for k, v in st.facts.items():
        if k[0] in ('nz', '==') and v is (k[0] == '==') and d in base_param(k[1]):
            return True
        if k[0] == 'nz' and v is False and d in base_param(k):
            return True
    return False

"""C08: opcode classification functions agree with the SPIR-V specification for every opcode."""
from sa import spec
from sa.absint import Interp, State, ZERO
from sa.facts import AnalysisError

S = 'spvgentwo::spv::'
# specification 2.2.4 / 2.16: block termination instructions
TERMINATORS = {'OpBranch', 'OpBranchConditional', 'OpSwitch', 'OpReturn', 'OpReturnValue', 'OpKill', 'OpUnreachable', 'OpTerminateInvocation', 'OpIgnoreIntersectionKHR',
               'OpTerminateRayKHR', 'OpEmitMeshTasksEXT'}
# base type, and signedness demanded, of the operands (specification 3.3)
F = ('OpTypeFloat', 'Any'); I = ('OpTypeInt', 'Any'); IS = ('OpTypeInt', 'Signed'); IU = ('OpTypeInt', 'Unsigned'); B = ('OpTypeBool', 'Any')
OPERAND_TYPE = {}
for names, t in (
    ('OpTypeFloat OpFAdd OpFConvert OpFDiv OpFMod OpFMul OpFNegate OpFRem OpFSub OpFOrdEqual OpFOrdGreaterThan OpFOrdGreaterThanEqual OpFOrdLessThan OpFOrdLessThanEqual OpFOrdNotEqual '
     'OpFUnordEqual OpFUnordGreaterThan OpFUnordGreaterThanEqual OpFUnordLessThan OpFUnordLessThanEqual OpFUnordNotEqual OpFwidth OpFwidthCoarse OpFwidthFine OpDPdx OpDPdy OpDPdxFine OpDPdyFine '
     'OpDPdxCoarse OpDPdyCoarse OpIsNan OpIsInf OpIsFinite OpIsNormal OpSignBitSet OpLessOrGreater OpOrdered OpUnordered OpConvertFToS OpConvertFToU', F),
    ('OpTypeInt OpIAdd OpISub OpIMul OpIEqual OpINotEqual OpNot OpShiftRightLogical OpShiftRightArithmetic OpShiftLeftLogical OpBitwiseOr OpBitwiseXor OpBitwiseAnd OpBitFieldInsert OpBitReverse', I),
    ('OpSDiv OpSMod OpSRem OpSNegate OpSMulExtended OpSGreaterThan OpSGreaterThanEqual OpSLessThan OpSLessThanEqual OpSConvert OpConvertSToF', IS),
    ('OpUDiv OpUMod OpUMulExtended OpUGreaterThan OpUGreaterThanEqual OpULessThan OpULessThanEqual OpUConvert OpConvertUToF OpConvertUToPtr OpIAddCarry OpISubBorrow', IU),
        ('OpTypeBool OpLogicalEqual OpLogicalNotEqual OpLogicalOr OpLogicalAnd OpLogicalNot OpAny OpAll', B)):
    for x in names.split():
        OPERAND_TYPE[x] = t


def check(fx, rep):
    rep.rule('every classification function is evaluated by constant propagation for every opcode (execution mode, capability) the library knows and compared with the specification: '
             'result id / result type from the grammar, type-declaring and constant instructions, block terminators, execution-mode-id modes, implied capabilities, operand base types; '
             'header, version and generator packing functions are inverse to each other')
    core = spec.core(); delta = spec.delta()
    ip = Interp(fx)
    ops = [x for x in fx.enums[S + 'Op']['v'] if x[0] != 'Max']
    first = {}
    for x in ops:
        first.setdefault(x[1], x[0])
    n = 0

    def one(fn, *args):
        r = ip.run(fn, args=list(args))
        if len(r) != 1:
            raise AnalysisError('%s is not a function of its argument alone' % fn.q)
        return r[0]
    def get(q, np=1):
        return fx.one(q, lambda f: len(f.params) == np)
    H = get(S + 'HasResultAndType', 3)
    preds = {'HasResult': get(S + 'HasResult'), 'HasResultType': get(S + 'HasResultType')}
    both = get('spvgentwo::hasResultAndTypeId')
    isT = get(S + 'IsTypeOp'); isC = get(S + 'IsConstantOp'); isS = get(S + 'IsSpecConstantOp'); isSC = get('spvgentwo::isSpecOrConstantOp'); isTerm = get('spvgentwo::isTerminatorOp')
    b = lambda v: ('i', int(v))
    for val, name in sorted(first.items()):
        i = core.by_op.get(val)
        if i is None:
            rep.bad('C08:unknown:%s' % name, H.loc(), 'opcode %d (%s) is not in the specification' % (val, name)); continue
        kinds = [o['kind'] for o in i.get('operands', [])]
        res = 'IdResult' in kinds; typ = 'IdResultType' in kinds
        names = {i['opname']} | set(i.get('aliases', []))
        st = State(); l1 = ('new', 'r'); l2 = ('new', 't')
        r = ip.run(H, args=[('i', val), ('p', l1), ('p', l2)], st=st)
        got = (r[0][0].mem.get(l1), r[0][0].mem.get(l2)) if len(r) == 1 else None
        rep.check(got == (b(res), b(typ)), 'C08:HasResultAndType:%s' % name, H.loc(), 'HasResultAndType(%s) gives %s; the specification says result %s, type %s' % (name, got, res, typ))
        for p, w in (('HasResult', res), ('HasResultType', typ)):
            v = one(preds[p], ('i', val))[1]
            rep.check(v == b(w), 'C08:%s:%s' % (p, name), preds[p].loc(), '%s(%s) is %s; the specification says %s' % (p, name, v, w))
        v = one(both, ('i', val))[1]
        rep.check(v == b(res and typ), 'C08:hasResultAndTypeId:%s' % name, both.loc(), 'hasResultAndTypeId(%s) is %s' % (name, v))
        ty = any(x.startswith('OpType') for x in names)
        con = any(x.startswith('OpConstant') for x in names); sp = any(x.startswith('OpSpecConstant') for x in names)
        for f, w in ((isT, ty), (isC, con), (isS, sp), (isSC, con or sp), (isTerm, bool(names & TERMINATORS))):
            v = one(f, ('i', val))[1]
            rep.check(v == b(w), 'C08:%s:%s' % (f.name, name), f.loc(), '%s(%s) is %s; the specification says %s' % (f.name, name, v, w))
        n += 8
    rep.need('opcodes classified', len(first), 700)
    # operand base types
    tf = get('spvgentwo::getTypeFromOp', 2); tf1 = get('spvgentwo::getTypeFromOp', 1)
    op = {x[0]: x[1] for x in ops}; sign = {x[1]: x[0] for x in fx.enums['spvgentwo::Sign']['v']}
    k = 0
    for val, name in sorted(first.items()):
        st = State(); l = ('new', 'sign')
        r = ip.run(tf, args=[('i', val), ('ref', l)], st=st)
        if len(r) != 1:
            raise AnalysisError('getTypeFromOp is not a function of its argument alone')
        v = r[0][1]; sg = r[0][0].mem.get(l)
        v1 = one(tf1, ('i', val))[1]
        rep.check(v1 == v, 'C08:getTypeFromOp1:%s' % name, tf1.loc(), 'getTypeFromOp(%s) differs between its two forms' % name)
        want = OPERAND_TYPE.get(first[val])
        if want:
            k += 1
            rep.check(v == ('i', op[want[0]]) and sg is not None and sign.get(sg[1]) == want[1], 'C08:getTypeFromOp:%s' % name, tf.loc(),
                      'getTypeFromOp(%s) is %s/%s; its operands are %s/%s' % (name, first.get(v[1]), sign.get(sg[1]) if sg else sg, want[0], want[1]))
    rep.need('operand types', k, 80)
    # execution modes
    em = get('spvgentwo::getExecutionModeOp')
    mode = {}
    for x in fx.enums[S + 'ExecutionMode']['v']:
        mode.setdefault(x[1], x[0])
    k = 0
    for e in core.enumerants('ExecutionMode'):
        if e['value'] not in mode:
            continue
        k += 1
        idp = any(p['kind'].startswith('Id') for p in e.get('parameters', []))
        v = one(em, ('i', e['value']))[1]
        w = op['OpExecutionModeId'] if idp else op['OpExecutionMode']
        rep.check(v == ('i', w), 'C08:getExecutionModeOp:%s' % e['enumerant'], em.loc(), 'getExecutionModeOp(%s) is %s; the mode takes %s operands' % (e['enumerant'], first.get(v[1]), '<id>' if idp else 'literal'))
    rep.need('execution modes', k, 60)
    # implied capabilities
    bc = get('spvgentwo::getBaseCapability')
    cap = {x[0]: x[1] for x in fx.enums[S + 'Capability']['v']}; rc = {}
    for x in fx.enums[S + 'Capability']['v']:
        rc.setdefault(x[1], x[0])
    k = 0
    H2 = fx.records['spvgentwo::BaseCapability']['fields']
    for e in core.enumerants('Capability'):
        if e['value'] not in rc:
            continue
        s, v = one(bc, ('i', e['value']))
        got = []
        for f in H2:
            x = ip.load(s, ('f', v[1], f['n'])) if v[0] in ('o', 'ref') else None
            if x is None or x[0] != 'i':
                raise AnalysisError('getBaseCapability is not a function of its argument alone')
            if x[1] != cap['Max']:
                got.append(x[1])
        want = [cap.get(c) for c in e.get('capabilities', [])]
        k += 1
        old = [cap.get(c) for c in delta['older_implied_capabilities'].get(e['enumerant'], [])]
        if old and set(got) == set(old):
            want = old
        partial = e['enumerant'] in delta['implied_not_recorded']   # extensions the table predates: reporting fewer is sound, the capability declares them implicitly
        rep.check(set(got) == set(want) or (partial and set(got) <= set(want)), 'C08:getBaseCapability:%s' % e['enumerant'], bc.loc(), 'getBaseCapability(%s) is %s; the specification implies %s' % (e['enumerant'], [rc.get(g) for g in got], e.get('capabilities', [])))
    rep.need('capabilities', k, 200)
    # image dimensions and formats
    gd = get('spvgentwo::getImageDimension'); gc = get('spvgentwo::getImageChannelCount')
    dims = {'1D': 1, 'Buffer': 1, '2D': 2, 'Cube': 2, 'Rect': 2, 'SubpassData': 2, '3D': 3}
    have = {x[1] for x in fx.enums[S + 'Dim']['v']}; havef = {x[1] for x in fx.enums[S + 'ImageFormat']['v']}
    k = 0
    for e in core.enumerants('Dim'):
        if e['value'] in have and e['enumerant'] in dims:
            v = one(gd, ('i', e['value']))[1]; k += 1
            rep.check(v == ('i', dims[e['enumerant']]), 'C08:getImageDimension:%s' % e['enumerant'], gd.loc(), 'getImageDimension(%s) is %s, the images of a surface or layer have %d dimensions' % (e['enumerant'], v, dims[e['enumerant']]))
    rep.need('image dimensions', k, 7); k = 0
    for e in core.enumerants('ImageFormat'):
        if e['value'] in havef:
            n_ = e['enumerant'].lower()
            w = 0 if n_ == 'unknown' else 3 if n_.startswith('r11') else 4 if n_.startswith(('rgba', 'rgb10')) else 2 if n_.startswith('rg') else 1
            v = one(gc, ('i', e['value']))[1]; k += 1
            rep.check(v == ('i', w), 'C08:getImageChannelCount:%s' % e['enumerant'], gc.loc(), 'getImageChannelCount(%s) is %s, the format has %d channels' % (e['enumerant'], v, w))
    rep.need('image formats', k, 41)
    # packing
    mv = get('spvgentwo::makeVersion', 2); ma = get('spvgentwo::getMajorVersion'); mi = get('spvgentwo::getMinorVersion')
    mg = get('spvgentwo::makeGeneratorId', 2); gi = get('spvgentwo::getGeneratorId'); gv = get('spvgentwo::getGeneratorVersion')
    for a, c in ((1, 0), (1, 3), (1, 6), (2, 255), (255, 1), (0, 0)):
        v = one(mv, ('i', a), ('i', c))[1]
        rep.check(v == ('i', a << 16 | c << 8), 'C08:makeVersion', mv.loc(), 'makeVersion(%d, %d) is %s' % (a, c, v))
        w = ('i', a << 16 | c << 8)
        rep.check(one(ma, w)[1] == ('i', a) and one(mi, w)[1] == ('i', c), 'C08:getVersion', ma.loc(), 'version %d.%d is decoded as %s.%s' % (a, c, one(ma, w)[1], one(mi, w)[1]))
    for a, c in ((1, 2), (0xFFFF, 0x1234), (30, 0), (0x8000, 0x8000)):
        v = one(mg, ('i', a), ('i', c))[1]
        rep.check(v[0] == 'i' and v[1] & 0xFFFFFFFF == a << 16 | c, 'C08:makeGeneratorId', mg.loc(), 'makeGeneratorId(%d, %d) is %s' % (a, c, v))
        w = ('i', a << 16 | c)
        rep.check(one(gi, w)[1] == ('i', a) and one(gv, w)[1] == ('i', c), 'C08:getGenerator', gi.loc(), 'generator word %#x is decoded as %s, %s' % (w[1], one(gi, w)[1], one(gv, w)[1]))

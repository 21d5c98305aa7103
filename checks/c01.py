"""C01: module serialization reaches every instruction exactly once, in the logical layout order, and stops with failure at the first failed write."""
from sa import shape
from sa.absint import Interp, State, ZERO, VOID, I
from sa.facts import AnalysisError

MOD = 'spvgentwo::Module'
BB = 'spvgentwo::BasicBlock'
FN = 'spvgentwo::Function'
EP = 'spvgentwo::EntryPoint'
INSTR = 'spvgentwo::Instruction'

# logical layout of a module (SPIR-V specification 2.4), by the public accessor of the section
LAYOUT = ['getCapabilities', 'getExtensions', 'getExtInstrImports', 'getMemoryModel', 'getEntryPoints', 'getExecutionModes', 'getSourceStrings', 'getNames',
          'getModulesProcessed', 'getDecorations']
# types, constants, global variables, undefs, lines: mutually ordered only by definition-before-use; types and constants precede the rest
GLOBALS = ['getTypesAndConstants', 'getGlobalVariables', 'getUndefs', 'getLines']


class WalkInterp(Interp):
    """follows a walk over a module of canonical shape; visits are reported by on_visit"""
    def __init__(self, fx):
        super().__init__(fx)
        self.budget = 20000000
        self.max_depth = 60

    def inline(self, fn, fr):
        c = fn.cls or ''
        return not c.startswith('spvgentwo::Grammar') and fn.name not in ('isTerminator', 'isTerminatorOp')

    def model(self, st, fr, n, fn, obj, args):
        nm = n.get('n'); c = n.get('c') or ''
        if nm == 'put' and obj is not None:
            v = ('s', ('putres', st.fresh()))
            st.emit('put', self.plain(st, args[0]))
            return [(st, v)]
        if nm == 'write' and c == INSTR:
            v = ('s', ('writeres', st.fresh()))
            st.emit('visit', obj)
            return [(st, v)]
        if nm == 'write' and c in (BB, FN, EP) and False:
            return None
        if nm in ('logError', 'logWarning', 'logInfo', 'logFatal', 'logDebug', 'log'):
            st.emit('log', nm)
            if self.ty(fr, n) == 'bool' and args:
                return [(st, args[0] if args[0][0] != 'ref' else self.load(st, args[0][1]))]
            return [(st, VOID)]
        if nm == 'isTerminator' and c == INSTR:
            return [(st, ('s', ('term', obj)))]
        if nm in ('getName', 'c_str'):
            return [(st, ('s', ('name', obj)))]
        return None


def accessor(fx, ip, cls, name):
    """location a const accessor of `this` refers to"""
    for f in fx.by_cls[cls]:
        if f.name == name and not f.params:
            for s, v in ip.run(f, this=('p', ('obj', 'this'))):
                if v[0] in ('p', 'ref'):
                    return v[1]
    raise AnalysisError('accessor %s::%s not found' % (cls, name))


def sub(loc, base):
    """replace this-object by base in a location"""
    if loc == ('obj', 'this'):
        return base
    if loc[0] in ('f', 'idx'):
        return (loc[0], sub(loc[1], base), loc[2])
    return loc


def build_module(fx, ip, st, M=('obj', 'this')):
    """canonical module: two elements in every section, one declared and two defined functions, two entry points; returns {section: [instruction locations]}"""
    out = {}
    for sec in ('getCapabilities', 'getExtensions', 'getExtInstrImports'):
        L = sub(accessor(fx, ip, MOD, sec), M)
        out[sec] = [shape.value_of(x) for x in shape.mkmap(st, L, [sec + '.0', sec + '.1'])]
    out['getMemoryModel'] = [sub(accessor(fx, ip, MOD, 'getMemoryModel'), M)]
    for sec in LAYOUT[5:] + GLOBALS:
        L = sub(accessor(fx, ip, MOD, sec), M)
        out[sec] = shape.mklist(st, L, [sec + '.0', sec + '.1'])
    eps = shape.mklist(st, sub(accessor(fx, ip, MOD, 'getEntryPoints'), M), ['ep0', 'ep1'])
    fns = shape.mklist(st, sub(accessor(fx, ip, MOD, 'getFunctions'), M), ['def0', 'decl0', 'def1', 'decl1'])
    ent = accessor(fx, ip, EP, 'getEntryPoint')
    out['getEntryPoints'] = [sub(ent, e) for e in eps]
    fi = accessor(fx, ip, FN, 'getFunction'); fe = accessor(fx, ip, FN, 'getFunctionEnd'); fp = accessor(fx, ip, FN, 'getParameters')
    lab = accessor(fx, ip, BB, 'getLabel')

    def function(F, name, blocks):
        seq = [sub(fi, F)]
        seq += shape.mklist(st, sub(fp, F), [name + '.p0', name + '.p1'])
        bbs = shape.mklist(st, F, ['%s.b%d' % (name, i) for i in range(blocks)])
        for i, b in enumerate(bbs):
            seq.append(sub(lab, b))
            seq += shape.mklist(st, b, ['%s.b%d.i0' % (name, i), '%s.b%d.i1' % (name, i)])
        seq.append(sub(fe, F))
        return seq
    out['fns'] = {}
    for F, name, blocks in zip(fns + eps, ['def0', 'decl0', 'def1', 'decl1', 'ep0', 'ep1'], [2, 0, 1, 0, 2, 1]):
        out['fns'][name] = function(F, name, blocks)
        if blocks:
            out.setdefault('blocks', []).extend('%s.b%d' % (name, i) for i in range(blocks))
    return out


def describe(loc, out):
    for sec in LAYOUT + GLOBALS:
        if loc in out[sec]:
            return '%s[%d]' % (sec, out[sec].index(loc))
    for k, s in out['fns'].items():
        if loc in s:
            return '%s[%d]' % (k, s.index(loc))
    return str(loc)


def norm(v):
    return v[1] if v[0] in ('p', 'o', 'ref') else ('*', v)


def order_check(rep, key, loc, seq, out, what):
    """seq: visited instruction locations of a complete walk"""
    flat = [x for sec in LAYOUT + GLOBALS for x in out[sec]] + [x for s in out['fns'].values() for x in s]
    d = lambda l: describe(l, out)
    for x in flat:
        n = seq.count(x)
        rep.check(n == 1, '%s:once:%s' % (key, d(x)), loc, '%s reaches %s %d times' % (what, d(x), n))
    for x in seq:
        rep.check(x in flat, '%s:extra' % key, loc, '%s reaches %s, which is not an instruction of the module' % (what, d(x)))
    if any(seq.count(x) != 1 for x in flat):
        return
    pos = {x: i for i, x in enumerate(seq)}
    # sections in layout order, each in insertion order
    prev = None
    for sec in LAYOUT:
        ps = [pos[x] for x in out[sec]]
        if sec not in ('getCapabilities', 'getExtensions', 'getExtInstrImports'):
            rep.check(ps == sorted(ps), '%s:inorder:%s' % (key, sec), loc, '%s visits the elements of %s out of order' % (what, sec))
        if prev is not None:
            rep.check(max(prev[1]) < min(ps), '%s:layout:%s' % (key, sec), loc, '%s visits %s before the end of %s; the logical layout of a module demands the opposite' % (what, sec, prev[0]))
        prev = (sec, ps)
    dec = max(prev[1])
    tc = [pos[x] for x in out['getTypesAndConstants']]
    allg = [pos[x] for s in GLOBALS for x in out[s]]
    rep.check(dec < min(allg), '%s:layout:globals' % key, loc, '%s visits module-scope declarations before the annotations' % what)
    for s in GLOBALS[1:3]:
        ps = [pos[x] for x in out[s]]
        rep.check(max(tc) < min(ps), '%s:layout:%s' % (key, s), loc, '%s visits %s before the types and constants they use' % (what, s))
    for s in GLOBALS:
        ps = [pos[x] for x in out[s]]
        rep.check(ps == sorted(ps), '%s:inorder:%s' % (key, s), loc, '%s visits the elements of %s out of order' % (what, s))
    fpos = {}
    for k, s in out['fns'].items():
        ps = [pos[x] for x in s]
        rep.check(ps == list(range(ps[0], ps[0] + len(ps))), '%s:function:%s' % (key, k), loc,
                  '%s does not visit function %s as OpFunction, parameters, per block label and instructions, OpFunctionEnd; order seen: %s' % (what, k, [d(x) for x in sorted(s, key=lambda x: pos[x])]))
        rep.check(max(allg) < min(ps), '%s:layout:functions' % key, loc, '%s visits functions before the module-scope declarations' % what)
        fpos[k] = ps[0]
    for a in ('decl0', 'decl1'):
        for b in ('def0', 'def1', 'ep0', 'ep1'):
            rep.check(fpos[a] < fpos[b], '%s:decls' % key, loc, '%s visits a function definition before a function declaration' % what)


def check(fx, rep):
    rep.rule('the walk of Module::write over a module of canonical shape (two generic elements in every section and block, functions with and without body, '
             'entry points), followed through every helper: header words, then each instruction exactly once in the logical layout; every path on which a write fails, '
             'or a block has no terminator, ends there with failure; the path without failure ends with success')
    ip = WalkInterp(fx)
    wr = fx.method(MOD, 'write')
    st = State()
    out = build_module(fx, ip, st)
    flat = [x for sec in LAYOUT + GLOBALS for x in out[sec]] + [x for s in out['fns'].values() for x in s]
    rep.need('instructions in the canonical module', len(flat), 60)
    rep.need('sections', len(LAYOUT + GLOBALS), 14)
    full = 0
    npaths = 0
    d = lambda l: describe(l, out)
    fields = {k: accessor_value(fx, ip, k) for k in ('getSpvVersion', 'getSpvBound')}
    for s, v in ip.run(wr, st=st):
        npaths += 1
        evs = [e for e in s.events() if e[0] in ('put', 'visit')]
        res = [k for k in s.facts if k[0] == 'nz' and k[1][0] == 's' and k[1][1][0] in ('putres', 'writeres')]
        failed = [k for k in res if s.facts[k] is False]
        noterm = [k for k in s.facts if k[0] == 'nz' and k[1][0] == 's' and k[1][1][0] == 'term' and s.facts[k] is False]
        seq = [norm(e[1]) for e in evs if e[0] == 'visit']
        puts = [e[1] for e in evs if e[0] == 'put']
        nulls = [e for e in s.events() if e[0] == 'nullderef']
        if nulls:
            continue
        if failed or noterm:
            why = 'a write failed' if failed else 'a block has no terminator'
            rep.check(v == ZERO, 'C01:write:fail', wr.loc(), 'Module::write returns %s although %s (after %s)' % (v, why, d(seq[-1]) if seq else 'the header'))
            nres = len(evs)
            # nothing is written after the failed write
            if failed:
                ids = [k[1][1][1] for k in res]
                rep.check(s.facts[('nz', ('s', next(k[1][1] for k in res if k[1][1][1] == max(ids))))] is False and len(ids) == nres, 'C01:write:continue', wr.loc(),
                          'Module::write goes on after a failed write (%d writes, %d examined)' % (nres, len(ids)))
            continue
        full += 1
        rep.check(v == ('i', 1), 'C01:write:ok', wr.loc(), 'Module::write returns %s although nothing failed' % (v,))
        rep.check(len(res) == len(evs), 'C01:write:ignored', wr.loc(), 'Module::write looks at the result of %d of %d writes' % (len(res), len(evs)))
        terms = {k[1][1][1] for k in s.facts if k[0] == 'nz' and k[1][0] == 's' and k[1][1][0] == 'term'}
        rep.check(len(terms) == len(out['blocks']), 'C01:write:terminators', wr.loc(), 'Module::write checks the terminator of %d of %d blocks' % (len(terms), len(out['blocks'])))
        order_check(rep, 'C01:write', wr.loc(), seq, out, 'Module::write')
        n0 = next((i for i, e in enumerate(evs) if e[0] == 'visit'), 0)
        rep.check(len(puts) == 5 and n0 == 5, 'C01:header:count', wr.loc(), 'Module::write writes %d header words, %d before the first instruction' % (len(puts), n0))
        if len(puts) == 5:
            rep.check(puts[0] == ('i', 0x07230203), 'C01:header:magic', wr.loc(), 'first header word is %s' % (puts[0],))
            rep.check(puts[1] == fields['getSpvVersion'], 'C01:header:version', wr.loc(), 'second header word is %s, not the module version' % (puts[1],))
            rep.check(puts[3] == fields['getSpvBound'], 'C01:header:bound', wr.loc(), 'fourth header word is %s, not the id bound' % (puts[3],))
            rep.check(puts[2] != fields['getSpvBound'] and puts[2] != puts[1] and puts[2] != puts[4], 'C01:header:generator', wr.loc(), 'third header word is %s' % (puts[2],))
            rep.check(puts[4][0] == 'i' and puts[4][1] == 0 or puts[4][0] == 's' and puts[4] not in fields.values(), 'C01:header:schema', wr.loc(), 'fifth header word is %s' % (puts[4],))
    rep.check(full == 1, 'C01:write:complete', wr.loc(), 'Module::write has %d successful paths over the canonical module' % full)
    rep.count('write paths', npaths)


def accessor_value(fx, ip, name):
    f = fx.method(MOD, name)
    for s, v in ip.run(f):
        return v

"""C30: queries change nothing, modules share nothing.  Write effects of every function of the library (sa/effects.py), and what lives in static storage."""
from sa.effects import Effects, chain
from sa.facts import AnalysisError

# functions that are given an object read-only and change what it belongs to on purpose
TYPES_ON_DEMAND = ('spvgentwo::Function::getFunctionTypeInstr', 'spvgentwo::Function::getReturnTypeInstr', 'spvgentwo::ITypeInferenceAndVailation::inferResultType')
HEAP = 'spvgentwo::HeapAllocator'         # the shared heap: its byte counters are read by nobody who decides anything
BY_NAME = ('spvgentwo::Module::remove', 'spvgentwo::LinkerHelper::import', 'spvgentwo::LinkerHelper::addLinkageDecorateForUsedGlobalVariables')
IMPORT = '/common/source/LinkerHelper.cpp'
SERVICE_BUNDLE = 'spvgentwo::LinkerHelper::LinkerOptions'


def of_library(f):
    return '/lib/' in f.file or '/common/' in f.file


def base(root):
    while root[0] == 'X':
        root = root[1]
    return root


def read_only(t):
    t = t.strip()
    if not t.startswith('const ') or 'spvgentwo::' not in t or SERVICE_BUNDLE in t:
        return False
    if t.rstrip(' &').endswith('*>'):           # a container of pointers hands out what they lead to
        return False
    # the outermost indirection only: a list of templates' own arguments does not count
    depth = 0; marks = 0
    for c in t:
        depth += c == '<'; depth -= c == '>'
        marks += depth == 0 and c in '*&'
    return marks == 1 and t[-1] in '*&'


def path(e, f, key):
    steps = chain(e, f, key)
    g, line = steps[-1]
    where = '%s:%s' % (g.file, line)
    return where, ' -> '.join('%s:%s' % (x.q.rsplit('::', 1)[-1] if 'anonymous' not in x.q else x.q.rsplit('::', 2)[-1], l) for x, l in steps)


def cls(key):
    return key[1] or 'an object'


def strip(q):
    out = ''; depth = 0
    for c in q:
        depth += c == '<'
        if not depth:
            out += c
        depth -= c == '>'
    return out


def check(fx, rep):
    fns = [f for f in fx.fns.values() if of_library(f) and f.body is not None]
    e = Effects(fx)
    e.solve(fns)
    rep.count('functions summarised', e.bodies); rep.count('calls through values', len(e.unresolved))
    rep.need('functions of the library', len(fns), 3000)
    callers = {}
    for callee, by in e.deps.items():
        callers.setdefault(callee, set()).update(by)
    exempt = {f.id for f in fns if f.q in TYPES_ON_DEMAND + BY_NAME or f.file.endswith(IMPORT)}
    inner = {f.id for f in fns if '@' in f.id or '(anonymous' in f.q or f.d.get('acc', 0) != 0}
    while True:
        more = {i for i in inner - exempt if callers.get(i) and all(c in exempt for c in callers[i])}
        if not more:
            break
        exempt |= more
    queries(e, fns, exempt, rep)
    givens(e, fns, exempt, rep)
    statics(fx, e, fns, rep)


def queries(e, fns, exempt, rep):
    rep.rule('a const member function stores to nothing its object owns or leads to, on any path and through any callee')
    seen = set()
    n = 0
    for f in fns:
        if not f.cls or not f.d.get('const') or f.cls.startswith('lambda@') or f.id in exempt:
            continue
        n += 1; rep.ok()
        for key in sorted(e.sum[f.id].mods, key=str):
            if base(key[0]) != ('T',):
                continue
            name = strip(f.q)
            where, how = path(e, f, key)
            if (name, cls(key)) in seen:
                continue
            seen.add((name, cls(key)))
            rep.bad('const:%s:%s' % (name, strip(cls(key))), f.loc(), 'const function %s changes %s of %s at %s (%s)' % (f.q, cls(key), 'its object' if key[0] == ('T',) else 'an object it leads to', where, how))
            break
    rep.need('const member functions', n, 800)


def givens(e, fns, exempt, rep):
    rep.rule('a function that is given an object of the library by reference or pointer to const stores to nothing that object owns or leads to')
    seen = set(); n = 0
    for f in fns:
        if f.id in exempt or (f.cls or '').startswith('lambda@'):
            continue
        ro = {i for i, p in enumerate(f.params) if read_only(f.tu.types[p['t']])}
        if not ro:
            continue
        n += len(ro); rep.ok(len(ro))
        for key in sorted(e.sum[f.id].mods, key=str):
            b = base(key[0])
            if b[0] != 'P' or b[1] not in ro:
                continue
            name = strip(f.q)
            if name in seen:
                continue
            seen.add(name)
            where, how = path(e, f, key)
            p = f.params[b[1]]
            rep.bad('given:%s:%s' % (name, strip(cls(key))), f.loc(), '%s changes %s of its read-only parameter %s (%s) at %s (%s)' % (f.q, cls(key), p['n'], f.tu.types[p['t']], where, how))
    rep.need('read-only parameters', n, 900)


def statics(fx, e, fns, rep):
    rep.rule('static storage of the library is constant, or of a class that has no data: nothing a function does is remembered outside the objects it was given')

    def dataless(t, depth=0):
        t = t.replace('const ', '').strip()
        r = fx.records.get(t)
        if r is None or depth > 6:
            return False
        return not r['fields'] and all(dataless(b if isinstance(b, str) else b.get('n', ''), depth + 1) for b in bases(r))

    def bases(r):
        return [r['_tu'].types[b] if isinstance(b, int) else b for b in r.get('bases', [])]

    def hidden(t, depth=0):
        """a mutable member somewhere inside"""
        r = fx.records.get(t.replace('const ', '').strip())
        return r is not None and depth < 6 and any(m.get('mut') for m in r['fields'])

    n = 0
    for q, g in sorted(fx.globals.items()):
        if not ('/lib/' in g['file'] or '/common/' in g['file']):
            continue
        n += 1; rep.ok()
        t = g['_tu'].types[g['t']]
        if g.get('const') and not hidden(t):
            continue
        if dataless(t) or t == HEAP:
            continue
        rep.bad('static:%s' % strip(q), '%s:%s' % (g['file'], g['line']), 'static storage %s of type %s can change: what one module does is seen by every other' % (q, t))
    for f in fns:
        for v in static_locals(f.body):
            n += 1; rep.ok()
            t = f.tu.types[v['t']]
            constant = t.rstrip().endswith('const') or t.startswith('const ') and '*' not in t or constant_array(t)
            if constant and not hidden(t) or dataless(t) or t == HEAP:
                continue
            rep.bad('static:%s:%s' % (strip(f.q), v['n']), f.loc(), 'static variable %s of type %s in %s can change: what one call does is seen by every later one' % (v['n'], t, f.q))
        for (root, c) in e.sum[f.id].mods:
            if base(root)[0] == 'G':
                where, how = path(e, f, (root, c))
                rep.bad('write:%s' % strip(str(base(root)[1])), f.loc(), '%s stores to static %s at %s (%s)' % (f.q, base(root)[1], where, how))
                break
    rep.need('static variables', n, 5)


def constant_array(t):
    return '[' in t and t.split('[')[0].rstrip().endswith('const')


def static_locals(n):
    if isinstance(n, dict):
        if n.get('sl') and 'd' in n and 't' in n and n.get('k') is None:
            yield n
        for v in n.values():
            yield from static_locals(v)
    elif isinstance(n, list):
        for v in n:
            yield from static_locals(v)

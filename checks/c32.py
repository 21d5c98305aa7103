"""C32: the build options change only what they are named after.

The options of CMakeLists.txt reach the sources as preprocessor definitions.  Every translation unit is compiled (front end only) under the
project's own warning flags in every configuration, and the program each configuration denotes (types resolved, templates instantiated) is
compared function by function with the one of the default configuration: bodies must be the same up to the functions the option is about."""
import os, subprocess, json
from concurrent.futures import ThreadPoolExecutor
from sa import facts, flags
from sa.facts import AnalysisError
from sa.absint import Interp, State

OPTIONS = ('ENABLE_OPERANDVALIDATION', 'LOGGING', 'REPLACE_PLACEMENTNEW', 'REPLACE_TRAITS')
# what an option is about: the functions whose bodies may differ when it is switched off
ABOUT = {'LOGGING': ('spvgentwo::Module::log',),
         'ENABLE_OPERANDVALIDATION': ('spvgentwo::Instruction::validateOperands',),
         'REPLACE_PLACEMENTNEW': (), 'REPLACE_TRAITS': ()}
WARN = ['-Werror', '-Wall', '-Wextra', '-pedantic-errors', '-Wno-unknown-pragmas', '-std=gnu++17', '-fsyntax-only', '-ferror-limit=20']
TYPEKEYS = ('t', 'nt', 'mt', 'dt')
DROP = {'l', 'sl', 'res', 'onew', 'onp', 'ti', 'pat', 'file', 'line', 'acc', 'impl', 'so', 'cv', 'el'}
OWN = '/stdreplacement.h'


def norm(t):
    return t.replace('spvgentwo::stdrep::', 'std::').replace('std::__cxx11::', 'std::')


class Canon:
    """a function of the program as a text that does not depend on numbering, on the place of declarations outside the repository, or on
    whether a trait is the library's own or the standard one"""

    def __init__(self, fx):
        self.fx = fx; self.keys = {}

    def name(self, fid):
        if fid in self.keys:
            return self.keys[fid]
        f = self.fx.fns.get(fid)
        if f is None or f.file.endswith(OWN) or not f.file.startswith(facts.REPO) and not f.file.startswith(facts.VERIF):
            r = None
        else:
            self.keys[fid] = None
            r = '%s:%d %s(%s)%s' % (f.file, f.line, norm(f.q), ','.join(norm(f.tu.types[p['t']]) for p in f.params), norm(json.dumps([self.ta(f, a) for a in f.d.get('ta', [])])))
        self.keys[fid] = r
        return r

    def ta(self, f, a):
        if isinstance(a, dict):
            return {k: (f.tu.types[v] if k == 't' and isinstance(v, int) else v) for k, v in a.items()}
        return f.tu.types[a] if isinstance(a, int) else a

    def body(self, f):
        ids = {}
        types = f.tu.types

        def num(d):
            return ids.setdefault(d, len(ids))

        def void(a):
            while isinstance(a, dict) and a.get('k') == 'cast' and not a.get('x') and types[a['t']] == 'void *':
                a = a['a']
            return a

        def go(x, key=None):
            if isinstance(x, dict):
                k = x.get('k')
                if k == 'new':
                    x = dict(x, pl=[void(a) for a in x.get('pl') or []])
                if k == 'int' and 'e' in x and not isinstance(x['e'], (dict, list)):
                    return ('int', x['v'])
                if k == 'call' and x.get('n') in ('move', 'forward', 'declval') and (x.get('q') or '').startswith(('std', 'spvgentwo::stdrep')):
                    return ('std', x['n'], go(x.get('a')), norm(types[x['t']]))
                out = []
                for kk in sorted(x):
                    v = x[kk]
                    if kk in DROP or kk.startswith('_'):      # _: notes of the interpreter
                        continue
                    if kk in TYPEKEYS and isinstance(v, int):
                        out.append((kk, norm(types[v])))
                    elif kk == 'd' and not isinstance(v, (dict, list)):
                        out.append((kk, num(v)))
                    elif kk == 'f' and isinstance(v, str):
                        out.append((kk, self.name(v)))
                    elif kk in ('id', 'q', 'c') and isinstance(v, str):
                        if kk != 'id':
                            out.append((kk, norm(v) if self.fx is not None else v))
                    elif kk == 'ops':
                        out.append((kk, [self.name(i) if isinstance(i, str) else self.name(i.get('f')) if isinstance(i, dict) else None for i in v]))
                    elif kk == 'v' and k in ('rfor',) and not isinstance(v, (dict, list)):
                        out.append((kk, num(v)))
                    else:
                        out.append((kk, go(v, kk)))
                return tuple(out)
            if isinstance(x, list):
                return tuple(go(y) for y in x)
            return norm(x) if isinstance(x, str) else x
        return go([f.d.get('init', []), f.body])


def table(fx):
    c = Canon(fx); out = {}
    for f in fx.fns.values():
        k = c.name(f.id)
        if k is None or f.body is None:
            continue
        k = '%s%s' % (k, ' const' if f.d.get('const') else '')
        out.setdefault(k, []).append(f)
    return c, out


def calls(x, acc):
    todo = [x]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            if isinstance(x.get('f'), str):
                acc.add(x['f'])
            if x.get('k') == 'lambda':
                acc.update(o for o in x.get('ops', []) if isinstance(o, str))
            todo += [v for v in x.values() if isinstance(v, (dict, list))]
        elif isinstance(x, list):
            todo += [v for v in x if isinstance(v, (dict, list))]
    return acc


def about(k, names):
    q = k.split(' ', 1)[1].split('(')[0]
    return any(q == norm(n) or q.startswith(norm(n) + '<') for n in names)


def compare(rep, base, fx, off, what):
    names = [n for o in off for n in ABOUT[o]]
    (c0, t0), (c1, t1) = table(base), table(fx)
    n = 0
    for k in sorted(set(t0) & set(t1)):
        if about(k, names):
            rep.count('functions an option is about'); continue
        a = sorted(repr(c0.body(f)) for f in t0[k]); b = sorted(repr(c1.body(f)) for f in t1[k])
        f = t0[k][0]
        n += 1
        rep.check(set(a) == set(b), 'body:%s:%s' % (what, norm(f.q)), f.loc(), '%s is another function %s' % (f.q, what))
    # a function that exists in one of the two only must be one that only the functions the option is about call
    for (c, t, u, g, where) in ((c0, t0, t1, base, 'without'), (c1, t1, t0, fx, 'with')):
        lost = {f.id: k for k in set(t) - set(u) for f in t[k]}
        if not lost:
            continue
        users = {}
        for f in g.fns.values():
            k = c.name(f.id)
            for i in calls([f.d.get('init', []), f.body], set()):
                if i in lost and i != f.id:
                    users.setdefault(i, []).append((f, k))
        for i, k in sorted(lost.items(), key=lambda x: x[1]):
            f = g.fns[i]
            u2 = [x for x, xk in users.get(i, []) if not (xk and about(xk, names)) and x.id not in lost and not x.file.endswith(OWN) and xk is not None]
            rep.check(not u2 and (users.get(i) or not names == [] or f.file.endswith(OWN)), 'extra:%s:%s' % (what, norm(f.q)), f.loc(),
                      '%s exists only in one of the builds with default options and %s, and %s' % (f.q, what, 'it is used by ' + u2[0].q if u2 else 'no option is about it'))
    rep.count('functions compared', n)
    return n


def warnings(rep, off, what, defs):
    srcs = facts.sources()

    def one(s):
        p = subprocess.run(['clang++'] + WARN + defs + facts.inc() + [s], capture_output=True, text=True)
        return s, p.returncode, p.stderr
    n = 0
    with ThreadPoolExecutor(8) as ex:
        for s, rc, err in ex.map(one, srcs):
            n += 1
            if rc == 0:
                rep.ok(); continue
            for l in err.split('\n'):
                if ': error:' in l:
                    place, _, msg = l.partition(': error:')
                    place = ':'.join(place.split(':')[:2])
                    rep.bad('build:%s:%s:%s' % (what, os.path.relpath(place.split(':')[0], facts.REPO), msg.strip()[:80]), place,
                            'does not compile %s: %s' % (what, msg.strip()))
    rep.count('translation units compiled under the warning flags', n)


LEVELS = ('Debug', 'Info', 'Warning', 'Error', 'Fatal')


def log(rep, fx, on, what):
    """the log functions return the condition they are given, and tell the logger exactly what they were told to exactly when it is false"""
    cls = 'spvgentwo::Module'
    level = {v[0]: v[1] for v in fx.enums['spvgentwo::LogLevel']['v']}
    rec = fx.records[cls]
    holder = [fl['n'] for fl in rec['fields'] if rec['_tu'].types[fl['t']] == 'spvgentwo::ILogger *']
    if len(holder) != 1:
        raise AnalysisError('logger of a module: %s' % holder)

    class P(Interp):
        def model(self, st, fr, node, g, obj, args):
            if g is not None and g.name == 'log' and g.cls == 'spvgentwo::ILogger':
                st.emit('log', tuple(arg(a) for a in args)); return [(st, ('void',))]
            return None

    def arg(a):
        return a if a[0] in ('i', 'str', 's') else ('object',)
    ip = P(fx); n = 0
    names = ('log',) + tuple('log' + l for l in LEVELS)
    fns = [f for f in fx.by_cls.get(cls, []) if f.name in names and f.body is not None]
    for f in sorted(fns, key=lambda f: f.id):
        ts = [f.tu.types[p['t']] for p in f.params]
        cond = bool(ts) and ts[0] == 'bool'
        lv = f.name == 'log'
        own = len(ts) - cond - lv - 1
        for pred in (0, 1) if cond else (None,):
            for logger in (None, ('p', ('obj', 'logger'))):
                st = State(); M = ('obj', 'M')
                st.mem[('f', M, holder[0])] = logger or ('i', 0)
                extra = [('s', 'arg%d' % i) if t in fx.enums or t.endswith('*') or t in ('bool', 'int', 'unsigned int', 'unsigned long', 'float', 'double') else ('o', ('obj', 'arg%d' % i))
                         for i, t in enumerate(ts[len(ts) - own:] if own else [])]
                told = [('i', level['Error' if lv else f.name[3:]]), ('str', 'text')] + extra
                args = ([('i', pred)] if cond else []) + told[(0 if lv else 1):]
                key = 'log:%s:%s:%s:%d:%d' % (what, f.name, pred, logger is not None, len(ts))
                n += 1
                res = ip.run(f, ('p', M), args, st)
                if cond:
                    rep.check(bool(res) and all(v == ('i', pred) for _, v in res), key, f.loc(), 'Module::%s answers %s for a condition that is %s %s' % (f.name, [v for _, v in res], bool(pred), what))
                exp = [tuple(arg(a) for a in told)] if on and not pred and logger else []
                rep.check(bool(res), key + ':ends', f.loc(), 'Module::%s does not return' % f.name)
                for s, v in res:
                    got = [e[1] for e in s.events() if e[0] == 'log']
                    rep.check(got == exp, key + ':told', f.loc(), 'Module::%s tells the logger %s, expected %s (condition %s, %s)' % (f.name, got, exp, pred, what))
    rep.need('calls of log functions judged', rep.counts.get('calls of log functions judged', 0) + n, 100)
    callback(rep, fx, level, what)


def callback(rep, fx, level, what):
    """a logger hands every level its filter lets pass, and no other, to its callback"""
    cls = 'spvgentwo::ILogger'; rec = fx.records[cls]
    cb = [fl['n'] for fl in rec['fields'] if '(*)' in rec['_tu'].types[fl['t']]]; flt = [fl['n'] for fl in rec['fields'] if 'Flag' in rec['_tu'].types[fl['t']]]
    if len(cb) != 1 or len(flt) != 1:
        raise AnalysisError('callback and filter of a logger: %s %s' % (cb, flt))
    mask = fx.records['spvgentwo::Flag<spvgentwo::LogLevel>']['fields']

    ip = Interp(fx); n = 0
    for f in sorted([f for f in fx.by_cls.get(cls, []) if f.name in ('log',) + tuple('log' + l for l in LEVELS) and f.body is not None], key=lambda f: f.id):
        for have in (0, 1):
            for filt in (0, 1, 2, 4, 8, 16, 31, 31 & ~8):
                for l in LEVELS:
                    if f.name not in ('log', 'log' + l):
                        continue
                    L = ('obj', 'logger'); st = State()
                    st.mem[('f', L, cb[0])] = ('s', 'callback') if have else ('i', 0)
                    if have:
                        st.facts[('nz', ('s', 'callback'))] = True
                    for m in mask:
                        st.mem[('f', ('f', L, flt[0]), m['n'])] = ('i', filt)
                    lv = [('i', level[l])] if f.name == 'log' else []
                    rest = [('str', 'text')] + [('s', 'arg%d' % i) for i in range(len(f.params) - 1 - len(lv))]
                    res = ip.run(f, ('p', L), lv + rest, st)
                    key = 'callback:%s:%s:%s:%d:%d:%d' % (what, f.name, l, have, filt, len(f.params)); n += 1
                    rep.check(len(res) == 1, key + ':ends', f.loc(), 'ILogger::%s has %d outcomes' % (f.name, len(res)))
                    for s, v in res:
                        got = [e[4][1:3] for e in s.events() if e[0] == 'icall' and e[3] == ('s', 'callback')]
                        exp = [(('i', level[l]), ('str', 'text'))] if have and filt & level[l] else []
                        rep.check(got == exp, key, f.loc(), 'a logger with filter %d and %s callback hands on %s for level %s, expected %s' % (filt, 'a' if have else 'no', got, l, exp))
    rep.need('messages put to loggers', rep.counts.get('messages put to loggers', 0) + n, 50)


def console(rep, fx):
    """the logger of the tools prints the name of the level, then the text with its arguments, once, and ends the line"""
    level = {v[0]: v[1] for v in fx.enums['spvgentwo::LogLevel']['v']}
    base = fx.records['spvgentwo::ILogger']
    cb = [fl['n'] for fl in base['fields'] if '(*)' in base['_tu'].types[fl['t']]]
    ctors = [f for f in fx.by_cls.get('spvgentwo::ConsoleLogger', []) if f.d.get('ctor') and f.body is not None and len(f.params) == 1 and 'ConsoleLogger' not in f.tu.types[f.params[0]['t']]]
    if len(ctors) != 1 or len(cb) != 1:
        raise AnalysisError('constructor of ConsoleLogger: %d' % len(ctors))

    class P(Interp):
        def model(self, st, fr, node, g, obj, args):
            nm = node.get('n') or ''
            if node.get('c'):
                return None
            a = [self.load(st, x[1]) if x[0] == 'ref' and x[1][0] != 'strl' else x for x in args]
            out = {'printf': 0, 'puts': 0, 'vprintf': 0, 'fprintf': 1, 'vfprintf': 1, 'fputs': 0, 'putchar': 0, 'putc': 0, 'fputc': 0}
            if nm in out:
                st.emit('out', nm, tuple(a[out[nm]:])); return [(st, ('i', 1))]
            if nm.startswith('__builtin_va') or nm in ('fflush', 'va_start', 'va_end', 'va_copy'):
                return [(st, ('void',))]
            return None

    def text(e):
        nm, a = e[1], list(e[2])
        if nm in ('putchar', 'putc', 'fputc'):
            return chr(a[0][1]) if a[0][0] == 'i' else None
        if a[0] == TEXT:
            return '<text>' if nm in ('vprintf', 'vfprintf') else None
        s = strof(a[0])
        if s is None:
            return None
        if nm in ('printf', 'fprintf'):
            for x in a[1:]:
                v = '<text>' if x == TEXT else strof(x)
                if v is None or s.count('%s') < 1:
                    return None
                s = s.replace('%s', v, 1)
        return s + ('\n' if nm == 'puts' else '')

    def strof(v):
        return v[1] if v[0] == 'str' else v[1][1] if v[0] in ('p', 'ref') and v[1][0] == 'strl' else None
    TEXT = ('s', 'text')
    ip = P(fx); n = 0
    L = ('obj', 'console'); st = State()
    res = ip.run(ctors[0], ('p', L), [('o', ('obj', 'filter'))], st)
    if len(res) != 1:
        raise AnalysisError('constructor of ConsoleLogger: %d outcomes' % len(res))
    st = res[0][0]
    fns = {v[1] for k, v in st.mem.items() if k[0] == 'f' and k[1] == L and k[2] == cb[0] and v[0] == 'fn'}
    if not rep.check(len(fns) == 1, 'console:callback', ctors[0].loc(), 'a console logger has %d callbacks' % len(fns)):
        return
    f = fx.fns[fns.pop()]
    for l in LEVELS:
        s0 = st.fork()
        s0.facts[('nz', TEXT)] = True
        res = ip.run(f, None, [('p', L), ('i', level[l]), TEXT], s0)
        n += 1
        rep.check(len(res) == 1, 'console:%s:ends' % l, f.loc(), 'printing a message has %d outcomes' % len(res))
        for s, _ in res:
            parts = [text(e) for e in s.events() if e[0] == 'out']
            got = None if None in parts else ''.join(parts)
            ok = got is not None and got.endswith('<text>\n') and got.count('<text>') == 1 and [x for x in LEVELS if x.lower() in got.lower()] == [l]
            rep.check(ok, 'console:' + l, f.loc(), 'a message of level %s is printed as %r by the console logger' % (l, got if got is not None else [e[1:] for e in s.events() if e[0] == 'out']))
    rep.need('levels printed by the console logger', n, 5)


def validate(rep, fx, what):
    f = fx.method('spvgentwo::Instruction', 'validateOperands')
    ip = Interp(fx)
    res = ip.run(f, ('p', ('obj', 'instr')), [], State())
    rep.check(bool(res) and all(v == ('i', 1) for _, v in res), 'validate:' + what, f.loc(), 'validateOperands answers %s %s' % ([v for _, v in res], what))


def check(fx, rep):
    rep.rule('every translation unit compiles without warnings in every configuration of the build options')
    rep.rule('in every configuration every function has the body it has in the default configuration, except the functions the option is about (Module::log without logging, Instruction::validateOperands without operand validation)')
    rep.rule('Module::log returns its condition in every configuration and tells the logger level, format and arguments exactly when logging is compiled in and the condition is false; validateOperands returns true where validation is not compiled in')
    every = frozenset(OPTIONS)
    offs = [(o,) for o in OPTIONS] + [OPTIONS]
    if rep.tier == 'thorough':
        from itertools import combinations
        offs = [c for n in range(1, 5) for c in combinations(OPTIONS, n)]
    facts_of = {}
    warnings(rep, (), 'with the default options', ['-DSPVGENTWO_%s=1' % o for o in OPTIONS])
    log(rep, fx, True, 'with the default options')
    console(rep, fx)
    flags.distinct(rep, fx, 'spvgentwo::LogLevel', 'levels')
    for off in offs:
        what = 'without ' + ', '.join('SPVGENTWO_' + o for o in off) if len(off) < 4 else 'without any of the options'
        opts = every - set(off)
        before = len(rep.viol)
        warnings(rep, off, what, ['-DSPVGENTWO_%s=1' % o for o in sorted(opts)])
        try:
            g = facts.load(options=opts)
        except AnalysisError:
            if len(rep.viol) > before:      # it does not compile, which is reported
                continue
            raise
        compare(rep, fx, g, off, what)
        log(rep, g, 'LOGGING' in opts, what)
        if 'ENABLE_OPERANDVALIDATION' not in opts:
            validate(rep, g, what)
        rep.count('configurations')
        del g
    rep.need('functions compared', rep.counts.get('functions compared', 0), 15000)

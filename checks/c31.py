"""C31: the same calls give the same output.  Everything a run of the library could take from somewhere else than its inputs: addresses (order, hash, number), members and variables
that were never given a value, and functions outside the library that answer from the process."""
from sa.absint import is_class_type
from c30 import of_library, strip

HIDDEN = {'strtok', 'strerror', 'rand', 'srand', 'random', 'srandom', 'drand48', 'time', 'clock', 'gettimeofday', 'clock_gettime', 'getenv', 'setenv', 'putenv', 'setlocale', 'localtime', 'gmtime', 'asctime', 'ctime',
          'getpid', 'tmpnam', 'mktemp', 'getrandom', 'getentropy', 'rdtsc', '__rdtsc', 'now'}
CHECKED_ELSEWHERE = ('spvgentwo::HashMap<', 'spvgentwo::HashMapIterator<')
SAME_ARRAY = ('spvgentwo::HashMap<', 'spvgentwo::HashMapIterator<', 'spvgentwo::Vector<', 'spvgentwo::String', 'spvgentwo::StackAllocator', 'spvgentwo::ExternalMemoryAllocator', 'spvgentwo::IAllocator',
              'spvgentwo::EntryIterator<', 'spvgentwo::Range<', 'spvgentwo::dyn_sized_array')


def first_arg(t):
    """the key type of spvgentwo::HashMap<Key, Value>"""
    i = t.find('HashMap<')
    if i < 0:
        return None
    depth = 0; out = ''
    for c in t[i + len('HashMap<'):]:
        if depth == 0 and c in ',>':
            return out.strip()
        depth += c in '<('
        depth -= c in '>)'
        out += c
    return None


def is_pointer(t):
    t = t.strip()
    while t.endswith('const'):
        t = t[:-5].rstrip()
    return t.endswith('*')


def nodes(n):
    if isinstance(n, dict):
        if 'k' in n:
            yield n
        for v in n.values():
            yield from nodes(v)
    elif isinstance(n, list):
        for v in n:
            yield from nodes(v)


def check(fx, rep):
    fns = [f for f in fx.fns.values() if of_library(f) and f.body is not None]
    rep.need('functions of the library', len(fns), 3000)
    addresses(fx, fns, rep)
    members(fx, rep)
    variables(fx, fns, rep)
    outside(fx, fns, rep)


# ---------------------------------------------------------------- addresses
def addresses(fx, fns, rep):
    rep.rule('nothing is done in the order of a hash map whose keys are addresses; addresses are neither compared for order nor turned into numbers, other than by allocators and within one array; the hash of a type or a constant takes no address in')
    walks = compares = numbers = 0
    seen = set()

    def bad(key, loc, msg):
        if key not in seen:
            seen.add(key); rep.bad(key, loc, msg)

    for f in fns:
        inside = (f.cls or '').startswith(CHECKED_ELSEWHERE)
        array = (f.cls or '').startswith(SAME_ARRAY)
        for n in nodes([f.body, f.d.get('init')]):
            k = n['k']
            if k == 'call' and not inside and n.get('n') in ('begin', 'end', 'cbegin') and 'HashMap<' in (n.get('c') or ''):
                walks += n['n'] == 'begin'; rep.ok()
                key = first_arg(n['c'])
                if n['n'] != 'end' and key is not None and is_pointer(key):
                    bad('walk:%s:%s' % (strip(f.q), key), '%s:%s' % (f.file, n.get('l')), '%s goes through %s in the order of the hashes of addresses: the outcome differs from run to run' % (f.q, n['c']))
            elif k == 'bin' and n['op'] in ('<', '>', '<=', '>=') and not array:
                t = f.tu.types[n['x']['t']] if 't' in n['x'] else ''
                if is_pointer(t):
                    compares += 1
                    if 'char *' in t or 'unsigned int *' in t or 'void *' in t and 'Allocator' in f.q:
                        rep.ok(); continue
                    bad('order:%s' % strip(f.q), '%s:%s' % (f.file, n.get('l')), '%s compares addresses (%s) for order' % (f.q, t))
            elif k == 'cast' and n.get('ck') == 'PointerToIntegral':
                numbers += 1
                if (f.cls or '').endswith('Allocator'):
                    rep.ok(); continue
                bad('number:%s' % strip(f.q), '%s:%s' % (f.file, n.get('l')), '%s turns an address into a number' % f.q)
        if (f.cls or '').startswith('spvgentwo::Hasher<'):
            for n in nodes(f.body):
                if n['k'] != 'call':
                    continue
                g = fx.fns.get(n.get('f'))
                if g is None or not (g.cls or '').startswith('spvgentwo::FNV1aHasher') or n.get('n') not in ('operator()', 'operator<<'):
                    continue
                for a in n.get('a', []):
                    t = f.tu.types[a['t']] if 't' in a else ''
                    rep.ok()
                    if is_pointer(t) and 'char' not in t:
                        bad('hash:%s' % f.cls, '%s:%s' % (f.file, n.get('l')), '%s hashes an address (%s): equal contents get different hashes, and the order of the map differs from run to run' % (f.cls, t))
    rep.count('comparisons of addresses', compares); rep.count('addresses as numbers', numbers)
    rep.need('loops over hash maps', walks, 5)


# ---------------------------------------------------------------- members
def scalar(fx, t):
    t = t.replace('const ', '').strip()
    return t.endswith('*') or fx.records.get(t) is None and '[' not in t and '<' not in t


def members(fx, rep):
    rep.rule('every constructor of a class of the library gives each of its scalar members a value, in the class or in its own list, or stores to it in its body before any return')
    n = 0; seen = set()
    for q, r in sorted(fx.records.items()):
        if not ('/lib/' in r.get('file', '') or '/common/' in r.get('file', '')) or r.get('union'):
            continue
        types = r['_tu'].types
        short = q.split('<')[0].rsplit('::', 1)[-1]
        open_ = [m['n'] for m in r['fields'] if 'e' not in m and m.get('n') and scalar(fx, types[m['t']])]
        for m in r['methods']:
            c = fx.fns.get(m['f'])
            if m['n'] != short or c is None or c.d.get('impl') or c.d.get('dflt') and c.params:
                continue
            inits = c.d.get('init', []) or []
            if c.body is None and not inits or any(i.get('deleg') for i in inits):
                continue
            n += 1
            have = {i.get('m') for i in inits}
            for name in open_:
                rep.ok()
                if name in have or stored(c.body, name):
                    continue
                key = 'member:%s:%s' % (strip(q), name)
                if key not in seen:
                    seen.add(key)
                    rep.bad(key, c.loc(), 'constructor %s leaves %s without a value' % (c.q, name))
    rep.need('constructors', n, 150)


def stored(body, name):
    """the body begins with stores to the member outside any branch"""
    for s in (body or {}).get('s', []) if isinstance(body, dict) else []:
        if s.get('k') == 'expr':
            e = s['e']
            while isinstance(e, dict) and e.get('k') == 'def':
                e = e['e']
            if e.get('k') == 'bin' and e['op'] == '=' and e['x'].get('k') == 'mem' and e['x'].get('n') == name and e['x']['b'].get('k') == 'this':
                return True
            if e.get('k') == 'call':                # a function of the same object may do it
                for x in nodes(e):
                    if x['k'] == 'mem' and x.get('n') == name:
                        return True
    return False


# ---------------------------------------------------------------- variables
class Assigned:
    """variables that may be read before anything was stored to them: a walk over the statements, with the set of variables that have no value yet"""

    def __init__(self, f):
        self.f = f; self.found = []; self.vars = 0

    def run(self):
        self.stmt(self.f.body, set())
        return self.found

    def scal(self, v):
        t = self.f.tu.types[v['t']]
        return not is_class_type(t) and '[' not in t and not t.endswith('&')

    def stmt(self, s, un):
        """-> variables without a value afterwards, None when control does not come back"""
        if isinstance(s, list):
            for x in s:
                if un is None:
                    return None
                un = self.stmt(x, un)
            return un
        if not isinstance(s, dict):
            return un
        k = s.get('k')
        if k == 'block':
            return self.stmt(s.get('s', []), un)
        if k == 'decl':
            for v in s['v']:
                if isinstance(v.get('e'), dict):
                    un = self.expr(v['e'], un)
                elif self.scal(v) and not v.get('sl') and not v.get('r'):
                    un = un | {(v['d'], v['n'])}; self.vars += 1
            return un
        if k in ('ret', 'expr'):
            if isinstance(s.get('e'), dict):
                un = self.expr(s['e'], un)
            return None if k == 'ret' else un
        if k in ('break', 'continue', 'goto'):
            return None
        if k == 'if':
            un = self.stmt(s.get('i'), un)
            cv = s.get('cv')
            if isinstance(cv, dict):
                un = self.stmt(cv if 'k' in cv else {'k': 'decl', 'v': [cv]}, un)
            c = s.get('c')
            un = self.expr(c, un)
            const = c.get('cv') if isinstance(c, dict) else None
            a = self.stmt(s.get('x'), set(un)); b = self.stmt(s.get('y'), set(un))
            return self.join(a, b)
        if k in ('while', 'for', 'rfor', 'do'):
            for x in ('i', 'rs', 'bs', 'es'):
                if x in s:
                    un = self.stmt(s[x], un)
            if isinstance(s.get('c'), dict) and k != 'do':
                un = self.expr(s['c'], un)
            inner = set(un)
            if isinstance(s.get('v'), dict):
                inner = self.stmt(s['v'] if 'k' in s['v'] else {'k': 'decl', 'v': [s['v']]}, inner)
            out = self.stmt(s.get('b'), inner)
            if out is not None and isinstance(s.get('n'), dict):
                self.expr(s['n'], out)
            if k == 'do':
                return out if out is not None else un
            return un
        if k == 'switch':
            un = self.stmt(s.get('i'), un)
            un = self.expr(s.get('c'), un) if isinstance(s.get('c'), dict) else un
            outs = []
            cur = None; default = False
            todo = s.get('b') or {}
            flat = todo.get('s', [todo]) if isinstance(todo, dict) else todo
            for x in flat:
                y = x
                while isinstance(y, dict) and y.get('k') in ('case', 'default'):
                    default |= y['k'] == 'default'
                    cur = self.join(cur, set(un))
                    y = y.get('s')
                if isinstance(y, dict) and y.get('k') == 'break':
                    outs.append(cur); cur = None
                    continue
                if cur is None:
                    continue
                nxt = self.stmt(y, cur)
                if nxt is None and any(z['k'] == 'break' for z in nodes(y)):
                    outs.append(cur)
                cur = nxt
            outs.append(cur)
            if not default:
                outs.append(None)           # every value has its case, or the compiler said so
            r = None
            for o in outs:
                r = self.join(r, o)
            return r if any(o is not None for o in outs) else un if not default else None
        for x in s.values():
            if isinstance(x, (dict, list)):
                un = self.stmt(x, un) if un is not None else None
        return un

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a | b

    def expr(self, n, un):
        if not un or not isinstance(n, dict):
            if isinstance(n, list):
                for x in n:
                    un = self.expr(x, un)
            return un
        k = n.get('k')
        if k == 'bin' and n['op'] == '=':
            un = self.expr(n['y'], un)
            x = n['x']
            if x.get('k') == 'ref':
                return {v for v in un if v[0] != x['d']}
            return self.expr(x, un)
        if k == 'cast' and n.get('ck') == 'LValueToRValue' or k == 'ref':
            x = n
            while x.get('k') == 'cast':
                x = x.get('a') if isinstance(x.get('a'), dict) else x.get('x')
                if not isinstance(x, dict):
                    return un
            if x.get('k') == 'ref':
                hit = [v for v in un if v[0] == x['d']]
                if hit:
                    self.found.append((hit[0][1], n.get('l') or x.get('l')))
                    return {v for v in un if v[0] != x['d']}
                return un
            return self.expr(x, un)
        if k == 'un' and n['op'] == '&' and n['a'].get('k') == 'ref':
            return {v for v in un if v[0] != n['a']['d']}
        if k in ('call', 'icall', 'ctor'):
            for x in ('fn', 'o'):
                if isinstance(n.get(x), dict):
                    un = self.expr(n[x], un)
            for a in n.get('a', []):
                y = a
                while isinstance(y, dict) and y.get('k') in ('def',):
                    y = y['e']
                if isinstance(y, dict) and y.get('k') == 'ref':     # by reference: the callee may store
                    if n.get('f'):
                        un = {v for v in un if v[0] != y['d']}
                        continue
                un = self.expr(a, un)
            return un
        if k == 'lambda':
            return {v for v in un if not any(x.get('k') == 'ref' and x.get('d') == v[0] for c in n.get('caps', []) for x in nodes(c))}
        if k == 'bin' and n['op'] in ('&&', '||'):
            un = self.expr(n['x'], un)
            self.expr(n['y'], set(un))
            return un
        if k == 'cond':
            un = self.expr(n['c'], un)
            return self.expr(n['x'], set(un)) | self.expr(n['y'], set(un))
        for x, v in n.items():
            if isinstance(v, (dict, list)):
                un = self.expr(v, un)
        return un


def variables(fx, fns, rep):
    rep.rule('no variable of a scalar type is read on a path that stored nothing to it')
    n = 0; seen = set()
    for f in fns:
        a = Assigned(f)
        for name, line in a.run():
            key = 'variable:%s:%s' % (strip(f.q), name)
            if key not in seen:
                seen.add(key)
                rep.bad(key, '%s:%s' % (f.file, line), '%s reads %s, which may have no value' % (f.q, name))
        n += a.vars
        rep.ok()
    rep.count('variables declared without a value', n)


# ---------------------------------------------------------------- outside
def outside(fx, fns, rep):
    rep.rule('no function of the library calls one outside it that keeps state between calls or reads it from the process (clock, environment, random numbers, locale)')
    calls = 0
    for f in fns:
        for c in calls_of([f.body, f.d.get('init')]):
            g = fx.fns.get(c.get('f'))
            if g is not None and g.body is not None:
                continue
            calls += 1
            name = c.get('n') or (c.get('q') or '').rsplit('::', 1)[-1]
            if name in HIDDEN:
                rep.bad('outside:%s' % name, '%s:%s' % (f.file, c.get('l')), '%s calls %s, whose result depends on the process' % (f.q, name))
    rep.ok(calls); rep.count('calls that leave the library', calls)


def calls_of(n):
    if isinstance(n, dict):
        if n.get('k') == 'call':
            yield n
        for v in n.values():
            yield from calls_of(v)
    elif isinstance(n, list):
        for v in n:
            yield from calls_of(v)

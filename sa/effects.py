"""Write effects: which objects a function may store to, relative to what it is given.  Interprocedural, flow-insensitive summaries over the resolved syntax trees.

Roots:  ('T',) the object itself and what it owns     ('P', i) what parameter i refers to     ('X', root) what pointers held there lead to
        ('V', n) own variable or temporary            ('N',) new memory                        ('G', name) static storage
        ('E', f, root) a root of the enclosing function f, from inside a lambda     ('C', root) the same, through a pointer to const
A container owns its entries: a pointer to an entry or to elements read from a container has the root of the container; any other pointer read from an object has ('X', root)."""
from sa.absint import is_class_type

OWNERS = ('spvgentwo::List<', 'spvgentwo::Entry<', 'spvgentwo::HashMap<', 'spvgentwo::Vector<', 'spvgentwo::String', 'spvgentwo::Graph<')
SERVICES = ('spvgentwo::IAllocator', 'spvgentwo::ILogger', 'spvgentwo::IWriter', 'spvgentwo::IReader')

HANDED = SERVICES + ('spvgentwo::ITypeInferenceAndVailation',)


def star(r):
    if r[0] == 'C':
        return star(r[1])
    return r if r[0] in ('X', 'G', 'N') or r[0] == 'E' and r[2][0] in ('X', 'N') else ('E', r[1], ('X', r[2])) if r[0] == 'E' else ('X', r)


class Summary:
    __slots__ = ('mods', 'ret', 'flows', 'sites')

    def __init__(self):
        self.mods = {}      # (root, class) -> (fn, line, via)
        self.ret = set()
        self.flows = set()  # (root, root)


class Effects:
    def __init__(self, fx):
        self.fx = fx
        self.sum = {}; self.deps = {}; self.vars = {}; self.outer = {}
        self.unresolved = {}; self.bodies = 0
        self.flow = {}
        self.lamfn = {}          # lambda operator id -> enclosing function
        self.work = []; self.queued = set()

    # ---------------------------------------------------------------- driver
    def need(self, fn, by=None):
        if by is not None:
            self.deps.setdefault(fn.id, set()).add(by.id)
        if fn.id not in self.sum:
            self.sum[fn.id] = Summary()
            self.push(fn.id)
        return self.sum[fn.id]

    def push(self, i):
        if i not in self.queued:
            self.queued.add(i); self.work.append(i)

    def solve(self, fns):
        for f in fns:
            self.need(f)
        n = 0
        while self.work:
            i = self.work.pop(); self.queued.discard(i)
            n += 1
            if n > 200000:
                raise RuntimeError('effects do not settle')
            fn = self.fx.fns[i]
            s = self.sum[i]
            before = (len(s.mods), len(s.ret), len(s.flows))
            Body(self, fn, s).run()
            if before != (len(s.mods), len(s.ret), len(s.flows)):
                for d in self.deps.get(i, ()):
                    self.push(d)
        self.bodies = len(self.sum)


class Body:
    def __init__(self, eff, fn, s):
        self.eff = eff; self.fx = eff.fx; self.fn = fn; self.s = s; self.tu = fn.tu
        self.flow = eff.flow.setdefault(fn.id, {})
        self.par = {}
        for i, p in enumerate(fn.params):
            self.par[p['d']] = (i, self.tu.types[p['t']], p.get('r'))
        self.local = eff.vars.setdefault(fn.id, {})       # decl -> bound roots (references) or None
        self.encl = eff.lamfn.get(fn.id)

    def run(self):
        for _ in range(12):
            self.changed = False
            self.memo = {}
            for ini in self.fn.d.get('init', []):
                self.init(ini)
            if self.fn.body is not None:
                self.stmt(self.fn.body)
            if not self.changed:
                break

    # ---------------------------------------------------------------- facts
    def ty(self, n):
        t = n.get('t')
        return self.tu.types[t] if t is not None else ''

    def pointer(self, t):
        t = t.strip()
        while t.endswith('const'):
            t = t[:-5].rstrip()
        return t.endswith('*') or t.endswith('*&') or '(*' in t

    def add(self, var, roots):
        have = self.flow.setdefault(var, set())
        new = {r for r in roots if r != ('V', var) and r != ('X', ('V', var))}
        if not new <= have:
            have |= new; self.changed = True

    def close(self, roots):
        """what pointers held at these roots lead to"""
        out = set()
        for r in roots:
            if r[0] == 'C' and r[1][0] == 'V':
                r = r[1]
            if r[0] == 'V':
                out |= self.flow.get(r[1], set())
            elif r[0] == 'X' and r[1][0] == 'V':
                for q in self.flow.get(r[1][1], set()):
                    out.add(star(q) if q[0] != 'V' else q)
            else:
                out.add(star(r))
        return out

    def ext(self, roots, depth=0):
        """roots as seen from outside: own variables replaced by what they lead to"""
        out = set(); todo = list(roots); seen = set()
        while todo:
            r = todo.pop()
            if r in seen:
                continue
            seen.add(r)
            if r[0] == 'C' and r[1][0] in ('V', 'N'):
                todo.append(r[1])
            elif r[0] == 'V':
                out.add(('N',))
                todo += list(self.flow.get(r[1], ()))
            elif r[0] == 'X' and r[1][0] == 'V':
                todo += list(self.flow.get(r[1][1], ()))
            else:
                out.add(r)
        return out

    def mod(self, roots, cls, line, via=None):
        for r in roots:
            if r[0] == 'C':
                continue
            if r[0] == 'X' and r[1][0] == 'V':
                self.mod(self.close([r[1]]), cls, line, via)
                continue
            if r[0] in ('V', 'N'):
                continue
            if r[0] == 'E' and r[1] == self.fn.id:
                self.mod([r[2]], cls, line, via)
                continue
            k = (r, cls)
            if k not in self.s.mods:
                self.s.mods[k] = (self.fn, line, via)
                self.changed = True

    def put(self, places, roots):
        """pointers with these roots are stored at these places"""
        roots = set(roots)
        if not roots:
            return
        for p in places:
            if p[0] == 'C':
                p = p[1]
            if p[0] == 'V':
                self.add(p[1], roots)
            elif p[0] == 'X' and p[1][0] == 'V':
                for q in self.close([p[1]]):
                    if q[0] == 'V':
                        self.add(q[1], roots)
                    elif q[0] != 'N':
                        self.outflow(q, roots)
            elif p[0] != 'N':
                self.outflow(p, roots)

    def outflow(self, p, roots):
        if p[0] == 'E' and p[1] == self.fn.id:
            self.put([p[2]], roots)
            return
        for q in self.ext(roots):
            if q != p and q != star(p) and (p, q) not in self.s.flows:
                self.s.flows.add((p, q)); self.changed = True

    # ---------------------------------------------------------------- variables
    def place_of(self, n):
        d = n['d']
        if d in self.par:
            i, t, r = self.par[d]
            if r or t.endswith('&'):
                return {('P', i)}
            v = ('par', d)
            toconst = t.startswith('const ') and t.count('*') == 1
            self.add(v, {('X', ('P', i))} if is_class_type(t) else {('C', ('P', i))} if toconst else {('P', i)})
            return {('V', v)}
        if d in self.local:
            b = self.local[d]
            return set(b) if b is not None else {('V', d)}
        if self.encl is not None:
            return self.outer(d)
        return {('V', d)}

    def outer(self, d):
        """a variable of the enclosing function"""
        f = self.eff.fx.fns.get(self.encl) if self.encl else None
        e = f.id if f else None
        while f is not None:
            loc = self.eff.vars.get(f.id, {})
            for i, p in enumerate(f.params):
                if p['d'] == d:
                    t = f.tu.types[p['t']]
                    if p.get('r') or t.endswith('&'):
                        return {('E', f.id, ('P', i))}
                    return {('E', f.id, ('V', ('par', d)))}
            if d in loc:
                b = loc[d]
                return {('E', f.id, r) for r in b} if b is not None else {('E', f.id, ('V', d))}
            f = self.eff.fx.fns.get(self.eff.lamfn.get(f.id))
        return {('V', ('cap', d))}

    def bindvar(self, d, roots):
        have = self.local.get(d)
        if have is None:
            have = self.local[d] = set(); self.changed = True
        if not set(roots) <= have:
            have |= set(roots); self.changed = True

    # ---------------------------------------------------------------- expressions
    def P(self, n):
        """roots of the place an expression designates (classes and lvalues)"""
        k = n['k']
        if k == 'ref':
            return self.place_of(n)
        if k == 'gref':
            return {('G', n['n'])}
        if k == 'def':
            return self.P(n['e'])
        if k == 'mem':
            b = self.Vv(n['b']) if n.get('ar') else self.P(n['b'])
            if n.get('r'):
                return self.close(b)
            return b
        if k == 'sub':
            return self.P(n['b']) if '[' in self.ty(n['b']) and not self.pointer(self.ty(n['b'])) else self.Vv(n['b'])
        if k == 'un':
            if n['op'] == '*':
                return self.Vv(n['a'])
            self.effects(n)
            if n['op'] in ('++', '--'):
                return self.P(n['a'])
            return {('V', ('t', id(n)))}
        if k == 'bin':
            self.effects(n)
            if n['op'] == ',':
                return self.P(n['y'])
            if n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
                return self.P(n['x'])
            return {('V', ('t', id(n)))}
        if k == 'cond':
            self.walk(n['c'])
            return self.P(n['x']) | self.P(n['y'])
        if k == 'cast':
            a = n.get('x') if isinstance(n.get('x'), dict) else n.get('a')
            if isinstance(a, dict):
                return self.P(a)
            return set()
        if k == 'this':
            return {self.self()}
        if k in ('call', 'icall'):
            r = self.call(n)
            if n.get('lv'):
                return r
            t = ('t', id(n))
            self.add(t, r)
            return {('V', t)}
        if k in ('ctor', 'ictor', 'init', 'lambda', 'new', 'zero', 'other'):
            t = ('t', id(n))
            self.create(n, ('V', t))
            return {('V', t)}
        return {('V', ('t', id(n)))}

    def self(self):
        if self.encl is not None and (self.fn.cls or '').startswith('lambda@'):
            f = self.fx.fns.get(self.encl)
            while f is not None and (f.cls or '').startswith('lambda@') and f.id in self.eff.lamfn:
                f = self.fx.fns.get(self.eff.lamfn[f.id])
            return ('E', f.id, ('T',)) if f is not None else ('T',)
        return ('T',)

    def owned(self, n):
        """the pointer read by this member expression refers to something the object owns"""
        c = n.get('c') or ''
        if not c.startswith(OWNERS):
            return False
        t = self.ty(n)
        if 'IAllocator' in t:
            return False
        if c.startswith('spvgentwo::Entry<'):
            return 'spvgentwo::Entry<' in t.replace(c[19:], '') or t.replace('const ', '').strip().rstrip('const ').startswith('spvgentwo::Entry<') and t.strip().endswith('*')
        return True

    def Vv(self, n):
        """roots of what a value of pointer type refers to; of what a class value holds.  What is held as pointer to const is written by nobody without a const_cast"""
        r = self.Vr(n)
        if n['k'] not in ('this', 'lambda', 'new', 'init') and self.ty(n).replace('const ', '').rstrip('* const') in HANDED:
            return set()
        if n['k'] == 'def' and n.get('cc'):
            return {x[1] if x[0] == 'C' else x for x in r}
        t = self.ty(n)
        if n['k'] in ('this', 'ctor', 'init', 'lambda', 'new') or not self.pointer(t) or '(*' in t:
            return r
        if t.startswith('const ') and t.count('*') == 1:
            return {x if x[0] == 'C' else ('C', x) for x in r}
        return {x for x in r if x[0] != 'C'}

    def Vr(self, n):
        k = n['k']; t = self.ty(n)
        if k == 'this':
            return {self.self()}
        if k in ('int', 'flt', 'null', 'zero', 'fref', 'mfref'):
            return set()
        if k == 'str':
            return set()
        if k == 'def':
            return self.Vv(n['e'])
        if k == 'cast':
            a = n.get('x') if isinstance(n.get('x'), dict) else n.get('a')
            if not isinstance(a, dict):
                return set()
            if n.get('ck') in ('ArrayToPointerDecay',):
                return self.P(a)
            if '[' in self.ty(a) and self.pointer(t):
                return self.P(a)
            return self.Vv(a)
        if k == 'un':
            if n['op'] == '&':
                return self.P(n['a'])
            if n['op'] == '*':
                return self.load(n)
            self.effects(n)
            return self.Vv(n['a']) if self.pointer(t) else set()
        if k == 'bin':
            self.effects(n)
            if n['op'] == ',':
                return self.Vv(n['y'])
            if self.pointer(t) or is_class_type(t):
                return self.Vv(n['x']) | (self.Vv(n['y']) if n['op'] in ('+', '-') else set())
            return set()
        if k == 'cond':
            self.walk(n['c'])
            return self.Vv(n['x']) | self.Vv(n['y'])
        if k in ('call', 'icall'):
            r = self.call(n)
            if n.get('lv'):
                return self.close(r) if self.pointer(t) or is_class_type(t) else set()
            return r
        if k == 'new':
            self.create(n, ('V', ('n', id(n))))
            if isinstance(n.get('pl'), list) and n['pl']:
                return self.Vv(n['pl'][0])
            return {('V', ('n', id(n)))}
        if k in ('ref', 'mem', 'sub', 'gref'):
            return self.load(n)
        if k in ('ctor', 'init', 'lambda', 'ictor'):
            return self.close(self.P(n))
        if k == 'other':
            out = set()
            for c in n.get('ch', []):
                out |= self.Vv(c) if isinstance(c, dict) and 'k' in c else set()
            return out
        self.walk(n)
        return set()

    def load(self, n):
        t = self.ty(n)
        pl = self.P(n)
        if '[' in t and not self.pointer(t):
            return pl
        if not self.pointer(t) and not is_class_type(t):
            return set()
        if n['k'] == 'mem' and self.owned(n):
            return pl
        return self.close(pl)

    # ---------------------------------------------------------------- effects of expressions
    def effects(self, n):
        if id(n) in self.memo:
            return
        self.memo[id(n)] = True
        k = n['k']
        if k == 'un' and n['op'] in ('++', '--', 'p++', 'p--'):
            self.mod(self.P(n['a']), self.target(n['a']), n.get('l'))
        elif k == 'bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
            p = self.P(n['x'])
            self.mod(p, self.target(n['x']), n.get('l'))
            self.put(p, self.Vv(n['y']))
        elif k == 'bin':
            self.walk(n['x']); self.walk(n['y'])
        elif k == 'un':
            self.walk(n['a'])

    def target(self, n):
        """class a store through this expression belongs to"""
        while n['k'] in ('cast', 'def'):
            n = next(z for z in (n.get('x'), n.get('a'), n.get('e')) if isinstance(z, dict))
        if n['k'] == 'mem':
            return (n.get('c') or self.ty(n))
        if n['k'] == 'sub':
            return self.target(n['b'])
        if n['k'] == 'un' and n['op'] == '*':
            return self.ty(n)
        return self.ty(n)

    def create(self, n, place):
        """an object is made at the place"""
        key = (id(n), place)
        if key in self.memo:
            return
        self.memo[key] = True
        k = n['k']
        if k == 'ctor':
            self.apply(n, {place}, [f for f in [self.fx.fns.get(n.get('f'))] if f], n['a'])
        elif k == 'init':
            for a in n['a']:
                self.put({place}, self.content(a))
        elif k == 'lambda':
            for op in n.get('ops', []):
                i = op if isinstance(op, str) else op.get('f')
                if i in self.fx.fns and self.eff.lamfn.get(i) != self.fn.id and i not in self.eff.lamfn:
                    self.eff.lamfn[i] = self.fn.id
            for c in n.get('caps', []):
                if isinstance(c, dict) and 'e' in c:
                    self.put({place}, self.content(c['e']))
        elif k == 'new':
            pl = n.get('pl')
            dst = {place}
            if isinstance(pl, list) and pl:
                dst = self.Vv(pl[0])
                self.mod(dst, self.tu.types[n['nt']], n.get('l'))
            if isinstance(n.get('in'), dict):
                i = n['in']
                if i['k'] == 'ctor':
                    self.apply(i, dst, [f for f in [self.fx.fns.get(i.get('f'))] if f], i['a'])
                else:
                    self.put(dst, self.content(i))
        elif k in ('other', 'ictor'):
            for c in n.get('ch', []):
                if isinstance(c, dict) and 'k' in c:
                    self.put({place}, self.content(c))

    def content(self, n):
        t = self.ty(n)
        if self.pointer(t) and not n['k'] == 'init':
            return self.Vv(n)
        if is_class_type(t) or n['k'] in ('init', 'lambda', 'ctor'):
            return self.close(self.P(n))
        self.walk(n)
        return set()

    def init(self, ini):
        e = ini.get('e')
        if not isinstance(e, dict):
            return
        me = self.self() if not (self.fn.cls or '').startswith('lambda@') else ('T',)
        if ini.get('r'):
            self.put({me}, self.P(e))
        elif e['k'] == 'ctor':
            self.apply(e, {me}, [f for f in [self.fx.fns.get(e.get('f'))] if f], e['a'])
        else:
            self.put({me}, self.content(e))

    # ---------------------------------------------------------------- calls
    def targets(self, n):
        f = self.fx.fns.get(n.get('f'))
        if n.get('v') and not n.get('nv'):
            c = n.get('c') or ''
            if c in SERVICES:
                return []
            out = []
            todo = [n.get('f')]; seen = set()
            while todo:
                i = todo.pop()
                if i in seen:
                    continue
                seen.add(i)
                g = self.fx.fns.get(i)
                if g is not None and g.body is not None:
                    out.append(g)
                todo += [o.id for o in self.fx.overriders.get(i, [])]
            return out
        return [f] if f is not None else []

    def call(self, n):
        if id(n) in self.memo:
            return self.memo[id(n)]
        self.memo[id(n)] = set()
        if n['k'] == 'icall':
            for a in n['a']:
                self.walk(a)
            self.walk(n['fn'])
            self.eff.unresolved[(self.fn.q, n.get('l'))] = True
            return set()
        obj = None
        if isinstance(n.get('o'), dict):
            obj = self.Vv(n['o']) if n.get('ar') else self.P(n['o'])
        t = self.targets(n)
        if n.get('c') in SERVICES or not t:
            for a in n.get('a', []):
                self.walk(a)
            if obj is not None and n.get('op') == '=' or n.get('n') == 'operator=' and obj is not None:
                self.mod(obj, n.get('c') or '', n.get('l'))
                for a in n.get('a', []):
                    self.put(obj, self.content(a))
                self.memo[id(n)] = obj
                return obj
            r = {('N',)} if self.pointer(self.ty(n)) and (n.get('c') in SERVICES) else set()
            if n.get('bi') or n.get('n') in ('move', 'forward'):
                for a in n.get('a', []):
                    r |= self.P(a)
            elif not n.get('c') in SERVICES:
                for i, a in enumerate(n.get('a', [])):          # an unknown function may write where it is given a pointer to non-const
                    at = self.ty(a)
                    if self.pointer(at) and not at.startswith('const ') and n.get('n') in ('memcpy', 'memset', 'memmove', 'snprintf', 'sprintf', 'vsnprintf', 'strcpy', 'strncpy', 'fread') and i == 0:
                        self.mod(self.Vv(a), at.rstrip('* '), n.get('l'))
            self.memo[id(n)] = r
            return r
        r = self.apply(n, obj, t, n.get('a', []))
        self.memo[id(n)] = r
        return r

    def apply(self, n, obj, targets, args):
        """effects of calling one of the targets"""
        ret = set()
        if n['k'] == 'ctor' and not targets or targets and all(f.body is None and not f.d.get('init') for f in targets):
            for a in args:
                self.put(obj or set(), self.content(a))
            if n.get('n') == 'operator=' and obj is not None:
                self.mod(obj, n.get('c') or '', n.get('l'))
            return set(obj or ()) if n.get('n') == 'operator=' else set()
        for a in args:
            self.walk(a)
        for f in targets:
            s = self.eff.need(f, self.fn)
            if f.d.get('dflt') and n['k'] == 'ctor' and args:
                for a in args:
                    self.put(obj or set(), self.content(a))
            def m(root):
                k = root[0]
                if k == 'C':
                    return {('C', x) if x[0] != 'C' else x for x in m(root[1])}
                if k == 'T':
                    return obj if obj is not None else set()
                if k == 'P':
                    i = root[1]
                    if i >= len(args):
                        return set()
                    a = args[i]
                    t = f.tu.types[f.params[i]['t']]
                    if f.params[i].get('r') or t.endswith('&') or is_class_type(t):
                        return self.P(a)
                    return self.Vv(a)
                if k == 'X':
                    return self.close(m(root[1]))
                if k == 'N':
                    return {('V', ('cn', id(n)))}
                if k == 'E' and root[1] == self.fn.id:
                    q = root[2]
                    return self.close({q[1]}) if q[0] == 'X' and q[1][0] == 'V' else {q}
                return {root}
            for (root, cls), (g, line, via) in list(s.mods.items()):
                self.mod(m(root), cls, n.get('l'), (f, (root, cls)))
            for p, q in list(s.flows):
                self.put(m(p), m(q))
            rr = set()
            for q in s.ret:
                rr |= m(q)
            if ('N',) in s.ret:
                self.add(('cn', id(n)), rr)
            ret |= rr
        return ret

    def walk(self, n):
        """all effects of an expression whose value is not needed"""
        if not isinstance(n, dict) or 'k' not in n:
            return
        k = n['k']
        if k in ('int', 'flt', 'str', 'null', 'this', 'ref', 'gref', 'zero', 'fref', 'mfref'):
            return
        if k in ('call', 'icall'):
            self.call(n); return
        if k in ('ctor', 'init', 'lambda', 'new', 'ictor'):
            self.create(n, ('V', ('t' if k != 'new' else 'n', id(n)))); return
        if k in ('un', 'bin'):
            self.effects(n)
            for x in ('x', 'y', 'a'):
                if isinstance(n.get(x), dict):
                    self.walk(n[x])
            return
        if k == 'delete':
            self.mod(self.Vv(n['a']), self.ty(n['a']).rstrip('* '), n.get('l'))
            return
        for x in n.values():
            if isinstance(x, dict):
                self.walk(x)
            elif isinstance(x, list):
                for y in x:
                    self.walk(y)

    # ---------------------------------------------------------------- statements
    def stmt(self, n):
        if isinstance(n, list):
            for x in n:
                self.stmt(x)
            return
        if not isinstance(n, dict):
            return
        k = n.get('k')
        if k == 'decl':
            for v in n['v']:
                self.declare(v)
            return
        if k == 'expr':
            self.walk(n['e']); return
        if k == 'ret':
            e = n.get('e')
            if isinstance(e, dict):
                rt = self.fn.ret
                if rt.endswith('&'):
                    self.out(self.P(e))
                elif self.pointer(rt):
                    self.out(self.Vv(e))
                elif is_class_type(rt):
                    self.out(self.close(self.P(e)))
                else:
                    self.walk(e)
            return
        if k == 'rfor':
            for x in ('rs', 'bs', 'es'):
                self.stmt(n.get(x))
            v = n.get('v')
            self.walk(n.get('c'))
            if isinstance(v, dict):
                self.declare(v) if 'd' in v else self.stmt(v)
            self.walk(n.get('n'))
            self.stmt(n.get('b'))
            return
        for x, y in n.items():
            if x in ('k', 'l'):
                continue
            if isinstance(y, dict):
                self.stmt(y) if y.get('k') in STMTS else self.walk(y)
            elif isinstance(y, list):
                for z in y:
                    if isinstance(z, dict):
                        self.stmt(z) if z.get('k') in STMTS else self.walk(z)

    def out(self, roots):
        new = self.ext(roots) if True else roots
        if not new <= self.s.ret:
            self.s.ret |= new; self.changed = True

    def declare(self, v):
        d = v['d']; e = v.get('e')
        t = self.tu.types[v['t']] if 't' in v else ''
        if v.get('sl'):
            self.bindvar(d, {('G', v['n'])})
            if isinstance(e, dict):
                self.walk(e)
            return
        if v.get('r') or t.endswith('&'):
            if isinstance(e, dict):
                self.bindvar(d, self.P(e))
            elif d not in self.local:
                self.local[d] = set()
        else:
            if d not in self.local:
                self.local[d] = None; self.changed = True
            if isinstance(e, dict):
                if e['k'] == 'ctor':
                    self.create(e, ('V', d))
                elif self.pointer(t):
                    self.add(d, self.Vv(e))
                else:
                    self.add(d, self.content(e))
        for b in v.get('bind', []):
            e2 = b.get('e')
            base = self.local.get(d)
            self.bindvar(b['d'], base if base is not None else {('V', d)})


STMTS = {'block', 'decl', 'if', 'while', 'do', 'for', 'rfor', 'switch', 'case', 'default', 'break', 'continue', 'ret', 'expr', 'null', 'label', 'goto', 'ostmt'}


def chain(eff, fn, key, limit=12):
    """[(function, line)] from fn down to the store"""
    out = []; seen = set()
    while fn is not None and (fn.id, key) not in seen and len(out) < limit:
        seen.add((fn.id, key))
        s = eff.sum.get(fn.id)
        if s is None or key not in s.mods:
            break
        f, line, via = s.mods[key]
        out.append((f, line))
        if via is None:
            break
        fn, key = via
    return out

"""Builds the extractor, runs it over every translation unit of /repo's working tree and merges the result."""
import glob, hashlib, json, os, pickle, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
LLVM = '/usr/lib/llvm-18'
DEFS = ['-std=c++17', '-DSPVGENTWO_ENABLE_OPERANDVALIDATION=1', '-DSPVGENTWO_LOGGING=1',
        '-DSPVGENTWO_REPLACE_PLACEMENTNEW=1', '-DSPVGENTWO_REPLACE_TRAITS=1', '-w', '-ferror-limit=5',
        '-isystem', LLVM + '/lib/clang/18/include']
SRC_DIRS = ['lib/source', 'common/source', 'dis/source', 'refl/source', 'link/source']


class AnalysisError(Exception):
    pass


class Undetermined(AnalysisError):
    """a concrete call, on completely determined input, whose outcome the code does not determine (it reads what nothing wrote,
    leaves the storage it was given, does not end, or leaves a value that is no element, node or word): the obligation is not met"""

    def __init__(self, msg, loc=''):
        super().__init__(msg); self.loc = loc


def inc():
    return ['-I%s/%s' % (REPO, d) for d in ('lib/include', 'common/include', 'dis/include', 'refl/include', 'link/include')]


def sources():
    out = []
    for d in SRC_DIRS:
        for ext in ('cpp', 'c', 'cc', 'cxx'):
            out += sorted(glob.glob('%s/%s/**/*.%s' % (REPO, d, ext), recursive=True))
    return out


def tree_hash():
    h = hashlib.sha256()
    fs = []
    for d in ('lib', 'common', 'dis', 'refl', 'link'):
        for r, _, f in os.walk(os.path.join(REPO, d)):
            fs += [os.path.join(r, x) for x in f if x.endswith(('.h', '.hpp', '.inl', '.cpp', '.c', '.cc', '.cxx', '.txt'))]
    for r in ('tool', 'inst'):
        fs += glob.glob(os.path.join(VERIF, r, '*'))
    fs.append(os.path.abspath(__file__))
    for f in sorted(fs):
        h.update(f.encode()); h.update(b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
        h.update(b'\0')
    return h.hexdigest()[:24]


def build_extractor(work):
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(CACHE, 'extract-' + h)
    if os.path.exists(exe):
        return exe
    tmp = os.path.join(work, 'extract')
    cmd = ['clang++', '-std=c++17', '-O0', '-fno-rtti', '-w', '-I' + LLVM + '/include', src, '-o', tmp,
           LLVM + '/lib/libclang-cpp.so.18.1', LLVM + '/lib/libLLVM.so.18.1']
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise AnalysisError('extractor does not build: ' + p.stderr[:2000])
    try:
        os.makedirs(CACHE, exist_ok=True)
        t2 = exe + '.%d' % os.getpid()
        shutil.copy2(tmp, t2); os.rename(t2, exe)
        return exe
    except OSError:
        return tmp


class Fn:
    __slots__ = ('id', 'name', 'q', 'cls', 'd', 'tu', 'params', 'line', 'file', 'body', 'ret')

    def __init__(self, d, tu):
        self.d = d; self.tu = tu; self.id = d['id']; self.name = d['n']; self.q = d['q']; self.cls = d.get('c')
        self.params = d['ps']; self.line = d['line']; self.file = tu.files[d['file']]; self.body = d['b']
        self.ret = tu.types[d['ret']]

    def loc(self, line=None):
        return '%s:%d' % (os.path.relpath(self.file, REPO), line or self.line)

    def __repr__(self):
        return '<Fn %s %s>' % (self.q, self.loc())

    @property
    def sig(self):
        return self.tu.types[self.d['sig']]


class TU:
    def __init__(self, path, d):
        self.path = path; self.types = d['types']; self.files = d['files']; self.includes = d['includes']


# what the private members of the containers are called here; a tree that calls one of them otherwise is read under these names
MEMBERS = {
    'List<': [('m_pBegin', 'Entry<'), ('m_pLast', 'Entry<'), ('m_Elements', 'unsigned'), ('m_pAllocator', 'IAllocator')],
    'Entry<': [('m_data', None), ('m_pPrev', 'Entry<'), ('m_pNext', 'Entry<')],
    'EntryIterator<': [('m_pEntry', 'Entry<')],
    'Vector<': [('m_pAllocator', 'IAllocator'), ('m_pData', '*'), ('m_elements', 'unsigned'), ('m_capacity', 'unsigned')],
    'HashMap<': [('m_pAllocator', 'IAllocator'), ('m_pBuckets', 'List<'), ('m_Buckets', 'unsigned'), ('m_Elements', 'unsigned'), ('m_pHashFunc', '(*)')],
    'HashMapIterator<': [('m_element', 'EntryIterator<'), ('m_pBucket', 'List<'), ('m_pEnd', 'List<')],
    'Range<': [('m_Begin', None), ('m_End', None)],
    'Flag<': [('m_mask', None)],
    'Instruction': [('m_Operation', '::Op'), ('m_parentType', 'ParentType'), ('m_parent', 'union')],
    'Function': [('m_isEntryPoint', 'bool')],
    'Graph<': [('m_nodes', 'List<')],
    'Node<': [('m_data', None), ('m_inputs', 'List<'), ('m_outputs', 'List<')],
}


def members(records):
    """{class: {name in this tree: name used here}}"""
    out = {}
    for n, r in records.items():
        if not n.startswith('spvgentwo::'):
            continue
        b = n[11:]
        i = b.find('<')
        b = b[:i + 1] if i >= 0 else b
        want = MEMBERS.get(b)
        if want is None:
            continue
        ty = r['_tu'].types
        have = [(f['n'], ty[f['t']]) for f in r['fields']]
        names = {h[0] for h in have}
        known = {w[0] for w in want}
        free = [h for h in have if h[0] not in known]
        m = {}
        for w, pat in want:
            if w in names:
                continue
            for h in free:
                if pat is None or pat in h[1] and (pat != 'unsigned' or '*' not in h[1]) and (pat != 'Entry<' or h[1].split('::')[1].startswith('Entry<')):
                    m[h[0]] = w; free.remove(h)
                    break
        if m:
            out[n] = m
    return out


def rename(fx):
    ren = members(fx.records)
    if not ren:
        return
    for n, m in ren.items():
        for f in fx.records[n]['fields']:
            f['n'] = m.get(f['n'], f['n'])

    def walk(x):
        todo = [x]
        while todo:
            x = todo.pop()
            if isinstance(x, dict):
                if x.get('k') == 'mem':
                    m = ren.get(x.get('c'))
                    if m and x['n'] in m:
                        x['n'] = m[x['n']]
                todo += [v for v in x.values() if isinstance(v, (dict, list))]
            elif isinstance(x, list):
                todo += [v for v in x if isinstance(v, (dict, list))]
    for f in fx.fns.values():
        m = ren.get(f.cls)
        for i in f.d.get('init', []):
            if m and i.get('m') in m:
                i['m'] = m[i['m']]
        walk(f.d)


class Facts:
    def __init__(self):
        self.fns = {}; self.records = {}; self.enums = {}; self.globals = {}; self.tus = []
        self.by_q = {}; self.by_cls = {}; self.overriders = {}

    def add_tu(self, path, d):
        tu = TU(path, d); self.tus.append(tu)
        for k in ('functions', 'functions2', 'functions3'):
            for f in d[k]:
                if f['id'] not in self.fns:
                    self.fns[f['id']] = Fn(f, tu)
                elif f['id'] == 'main':
                    self.fns['main@' + path] = Fn(f, tu)
        for r in d['records']:
            if r['n'] not in self.records:
                r['_tu'] = tu; r['file'] = tu.files[r['file']]
                self.records[r['n']] = r
        for e in d['enums']:
            if e['n'] not in self.enums or len(e['v']) > len(self.enums[e['n']]['v']):
                e['file'] = tu.files[e['file']]
                self.enums[e['n']] = e
        for g in d['globals']:
            g['_tu'] = tu; g['file'] = tu.files[g['file']]
            o = self.globals.get(g['q'])
            if o is not None and (o['file'], o['line']) != (g['file'], g['line']) and o.get('e') is not None and g.get('e') is not None:
                o['amb'] = 1        # two constants share the name: none of them is taken for the other
                continue
            if o is None or o.get('e') is None:
                self.globals[g['q']] = g

    def finish(self):
        for f in self.fns.values():
            self.by_q.setdefault(f.q, []).append(f)
            if f.cls:
                self.by_cls.setdefault(f.cls, []).append(f)
            for o in f.d.get('ov', []):
                self.overriders.setdefault(o, []).append(f)

    def q(self, name):
        r = self.by_q.get(name, [])
        return r

    def one(self, name, pred=None):
        r = [f for f in self.q(name) if pred is None or pred(f)]
        if not r:
            raise AnalysisError('anchor function %s not found' % name)
        return r[0]

    def method(self, cls, name, pred=None):
        r = [f for f in self.by_cls.get(cls, []) if f.name == name and (pred is None or pred(f))]
        if not r:
            raise AnalysisError('anchor function %s::%s not found' % (cls, name))
        return r[0]

    def rel(self, path):
        return os.path.relpath(path, REPO)


def load(verbose=False, options=None):
    """options: the SPVGENTWO_ definitions to build with instead of the default ones"""
    defs = DEFS if options is None else [d for d in DEFS if not d.startswith('-DSPVGENTWO_')] + ['-DSPVGENTWO_%s=1' % o for o in sorted(options)]
    key = tree_hash() + ('' if options is None else '-' + hashlib.sha256(' '.join(defs).encode()).hexdigest()[:8])
    pk = os.path.join(CACHE, 'facts-%s.pickle' % key)
    if os.path.exists(pk) and not os.environ.get('VP_NOCACHE'):
        try:
            with open(pk, 'rb') as f:
                fx = pickle.load(f)
            fx.finish()
            return fx
        except Exception:
            pass
    work = tempfile.mkdtemp(prefix='sa-')
    try:
        exe = build_extractor(work)
        srcs = sources()
        if len(srcs) < 28:
            raise AnalysisError('only %d translation units found' % len(srcs))
        jobs = srcs + sorted(glob.glob(os.path.join(VERIF, 'inst', '*.cpp')))

        def one(i):
            src = jobs[i]; out = os.path.join(work, '%d.json' % i)
            p = subprocess.run([exe, out, REPO + '/:' + VERIF + '/inst/', src, '--'] + defs + inc(), capture_output=True, text=True)
            if p.returncode or not os.path.exists(out):
                raise AnalysisError('cannot parse %s: %s' % (src, p.stderr[:3000]))
            with open(out, 'rb') as f:
                d = json.loads(f.read())
            os.unlink(out)
            return d
        # biggest first
        order = sorted(range(len(jobs)), key=lambda i: -os.path.getsize(jobs[i]))
        fx = Facts(); res = {}
        with ThreadPoolExecutor(8) as ex:
            for i, d in zip(order, ex.map(one, order)):
                res[i] = d
        for i in range(len(jobs)):
            fx.add_tu(jobs[i], res[i])
        rename(fx)
        try:
            os.makedirs(CACHE, exist_ok=True)
            for old in glob.glob(os.path.join(CACHE, 'facts-*.pickle')):
                if os.path.getmtime(old) < os.path.getmtime(exe) or len(glob.glob(os.path.join(CACHE, 'facts-*.pickle'))) > 24:
                    os.unlink(old)
            t2 = pk + '.%d' % os.getpid()
            with open(t2, 'wb') as f:
                pickle.dump(fx, f, protocol=4)
            os.rename(t2, pk)
        except OSError:
            pass
        fx.finish()
        return fx
    finally:
        shutil.rmtree(work, ignore_errors=True)

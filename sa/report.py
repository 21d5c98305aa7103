"""Collects obligations and violations of one property check, applies the known-findings file, writes the evidence file."""
import json, os, sys, time, hashlib
from .facts import VERIF, AnalysisError, Undetermined

KNOWN = os.path.join(VERIF, 'known_findings.txt')


def known_findings(pid):
    """lines 'known: property=<id> key=<key> -- <what fails>' """
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                rest = l.split(' key=', 1)[1]
                key, _, what = rest.partition(' -- ')
                out[key.strip()] = what.strip()
    return out


class Report:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier; self.t0 = time.time()
        self.viol = []; self.counts = {}; self.oblig = 0; self.samples = []; self.notes = []; self.seen = set(); self.rules = []
        self.assume = []

    def rule(self, text):
        self.rules.append(text)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def ok(self, n=1):
        self.oblig += n

    def sample(self, s):
        if len(self.samples) < 25:
            self.samples.append(s)

    def need(self, what, got, least):
        """instance count confirmed by hand; fewer means the analysis no longer sees the code it is about"""
        self.counts[what] = got
        if got < least:
            raise AnalysisError('%s: only %d instances of "%s" (confirmed by hand: at least %d)' % (self.pid, got, what, least))

    def bad(self, key, loc, msg):
        """key identifies the construct (stable under line moves); loc is file:line"""
        self.oblig += 1
        if key in self.seen:
            return
        self.seen.add(key)
        self.viol.append((key, loc, msg))

    def check(self, cond, key, loc, msg):
        if cond:
            self.ok()
        else:
            self.bad(key, loc, msg)
        return cond

    def undetermined(self, e):
        self.bad('undetermined:' + str(e)[:160], e.loc, 'what this call does is not determined by its input: ' + str(e))

    def misshapen(self, e):
        """the code under analysis handed the check a value of another kind than the declared one can have (a null or a number where an
        object is, say), on which a rule below cannot even be asked: the obligation is not met"""
        import traceback
        fr = [f for f in traceback.extract_tb(e.__traceback__)][-1]
        self.bad('shape:%s:%s' % (os.path.basename(fr.filename), fr.name), '', 'what the code leaves here has not the shape this rule is about (%s: %s, asked in %s)' % (
            type(e).__name__, str(e)[:160], fr.name))

    def finish(self, fx):
        known = known_findings(self.pid)
        new = []; old = []
        for v in self.viol:
            (old if v[0] in known else new).append(v)
        for k, loc, msg in old:
            print('KNOWN-FINDING: property=%s %s (%s: %s)' % (self.pid, known[k], loc, k))
        wall = time.time() - self.t0
        cov = {'explanation': 'Static analysis of the type-resolved program (clang AST of every translation unit, rebuilt from /repo on this run). Rules: '
                              + ' | '.join(self.rules),
               'translation_units': len(fx.tus), 'functions_in_program': len(fx.fns), 'obligations': self.oblig,
               'discharged': self.oblig - len(self.viol), 'instances': self.counts, 'samples': self.samples}
        ev = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
              'assumptions': self.assume + ['clang 18 parses the sources as the project compiler does', 'preprocessor configuration of the Debug build with operand validation and logging on'],
              'wall_s': round(wall, 2), 'violations': len(new), 'known_findings': len(old)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', '%s.json' % self.pid)
        with open(path + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(path + '.tmp', path)
        print('%s: %d translation units, %d functions, %d obligations, %d discharged; %s' %
              (self.pid, len(fx.tus), len(fx.fns), self.oblig, self.oblig - len(self.viol), ', '.join('%s=%s' % kv for kv in self.counts.items())))
        if new:
            rp = os.path.join(VERIF, 'evidence', '%s.violations.txt' % self.pid)
            with open(rp, 'w') as f:
                for k, loc, msg in new:
                    f.write('%s\t%s\t%s\n' % (k, loc, msg))
            for k, loc, msg in new[:40]:
                print('  %s [%s] %s' % (loc, k, msg))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0


_jobs = []


def _job(i):
    rep, fns = _jobs[-1]
    r = Report(rep.pid, rep.tier)
    err = None
    try:
        fns[i](r)
    except Undetermined as e:
        r.undetermined(e)
    except AnalysisError as e:
        err = str(e)
    except Exception as e:
        r.misshapen(e)
    return (r.viol, r.counts, r.oblig, r.samples), err


def parallel(rep, fns):
    """runs the parts (each given a report of its own) in forked processes and merges what they found"""
    import multiprocessing
    _jobs.append((rep, fns))
    try:
        with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1, len(fns))) as pool:
            res = pool.map(_job, range(len(fns)), chunksize=1)
    finally:
        _jobs.pop()
    errs = [err for _, err in res if err is not None]
    for out, _ in res:
        viol, counts, oblig, samples = out
        rep.oblig += oblig - len(viol)
        for v in viol:
            rep.bad(*v)
        for k, v in counts.items():
            rep.count(k, v)
        for x in samples:
            rep.sample(x)
    if errs:
        raise AnalysisError(errs[0])

"""Runs one property check: loads the fact base, decides, reports, writes evidence."""
import os, sys, json, time, traceback, importlib, pkgutil
from . import corpus
from .corpus import AnalysisError, VERIF, rel

CHECKS = {}


def check(pid, parts=('src',), floor=1, rule='', trusted=None):
    def deco(fn):
        CHECKS[pid] = dict(fn=fn, parts=parts, floor=floor, rule=rule, trusted=trusted or [])
        return fn
    return deco


class Ctx:
    def __init__(self, pid, db):
        self.pid, self.db = pid, db
        self.violations = []
        self.obligations = 0
        self.samples = []
        self.functions = set()
        self.notes = {}
        self.assumptions = []
        self._keys = set()

    def ok(self, what=None, n=1):
        self.obligations += n
        if what is not None and len(self.samples) < 12:
            self.samples.append(what)

    def use(self, *fs):
        for f in fs:
            self.functions.add('%s:%d %s' % (rel(f['file']), f['l'], f['n']))

    def use_engine(self, eng):
        for k in eng.used_fns:
            f = self.db.functions.get(k)
            if f:
                self.use(f)
        for k, v in eng.stats.items():
            self.notes['engine_' + k] = self.notes.get('engine_' + k, 0) + v

    def bad(self, key, where, msg, trace=None):
        """key: stable identity of the violated instance (no line numbers)"""
        self.obligations += 1
        if key in self._keys:
            return
        self._keys.add(key)
        if isinstance(where, dict):
            where = '%s:%s' % (rel(where.get('file', '?')), where.get('l', '?'))
        self.violations.append({'key': key, 'where': where, 'message': msg, 'trace': trace or []})

    def require(self, cond, key, where, msg, sample=None, trace=None):
        if cond:
            self.ok(sample)
        else:
            self.bad(key, where, msg, trace)
        return cond


def load_checks():
    import checks
    for m in pkgutil.iter_modules(checks.__path__):
        importlib.import_module('checks.' + m.name)


def known():
    p = os.path.join(VERIF, 'known_findings.json')
    try:
        return json.load(open(p))
    except OSError:
        return {'findings': []}


def run(pid, tier):
    load_checks()
    c = CHECKS.get(pid)
    if c is None:
        print('no such check: ' + pid)
        return 2
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ev_path = os.path.join(VERIF, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    db = corpus.load(c['parts'])
    ctx = Ctx(pid, db)
    ctx.tier = tier
    c['fn'](ctx)
    if ctx.obligations < c['floor']:
        raise AnalysisError('%s: only %d obligations found, expected at least %d: the rule no longer sees its subject'
                            % (pid, ctx.obligations, c['floor']))
    listed = {f['key']: f for f in known()['findings'] if f['property'] == pid and f.get('status') == 'known'}
    fresh = []
    for v in ctx.violations:
        if v['key'] in listed:
            print('KNOWN-FINDING: property=%s %s (%s)' % (pid, listed[v['key']]['what'], v['where']))
        else:
            fresh.append(v)
    cov = {
        'explanation': c['rule'],
        'obligations': ctx.obligations,
        'discharged': ctx.obligations - len(ctx.violations),
        'functions_analysed': len(ctx.functions),
        'functions': sorted(ctx.functions)[:200],
        'samples': ctx.samples or [v['message'] for v in ctx.violations][:5] or ['none'],
        'fact_base': db.stats,
        'known_findings_matched': len(ctx.violations) - len(fresh),
    }
    cov.update(ctx.notes)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
        'assumptions': ctx.assumptions + c['trusted'] + [
            'clang 18 parses and resolves the sources as the release build does (-DNDEBUG: debug assertions are not counted as guards); Linux configuration (Posix file, asio, ssh, curl, brotli)',
        ],
        'wall_s': round(time.time() - t0, 2), 'violations': len(fresh),
    }
    tmp = ev_path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.rename(tmp, ev_path)
    print('%s: %d obligations over %d functions, %d violated, %.1f s'
          % (pid, ctx.obligations, len(ctx.functions), len(ctx.violations), time.time() - t0))
    if fresh:
        rp = os.path.join(VERIF, 'evidence', pid + '.violations.json')
        with open(rp, 'w') as f:
            json.dump(fresh, f, indent=1, default=str)
        for v in fresh:
            print('  %s: [%s] %s' % (v['where'], v['key'], v['message']))
            for t in v['trace'][:14]:
                print('      %s' % (t,))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


def main():
    if len(sys.argv) < 2:
        print('usage: check ID')
        return 2
    if sys.argv[1] == 'setup':
        st = corpus.load(('src',)).stats
        st = corpus.load(('src', 'gen')).stats
        print('setup: ' + json.dumps(st))
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        return run(sys.argv[1], tier)
    except AnalysisError as e:
        print('ANALYSIS-ERROR: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-ERROR: internal')
        return 2

"""Builds the fact base from /repo's current working tree.

Every translation unit is parsed by the extractor (clang front end).  A cached
result is reused only when the extractor, the flags and the *content* of every
file of the corpus that the parse read are unchanged.  Nothing under /repo is
written.
"""
import os, sys, json, hashlib, subprocess, gzip, pickle, re, time, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('JOEDB_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
LLVM = '/usr/lib/llvm-18'
JOBS = 8

DEFS = ['-DNDEBUG', '-DJOEDB_HAS_ASIO', '-DJOEDB_HAS_BOOST', '-DJOEDB_HAS_BROTLI',
        '-DJOEDB_HAS_CURL', '-DJOEDB_HAS_SSH', '-DJOEDB_VERSION=100402',
        '-D_FILE_OFFSET_BITS=64']
SKIP = ('Windows_File.cpp', 'Apple_Logger.cpp', 'Android_Logger.cpp')


class AnalysisError(Exception):
    """The analysis could not be carried out: neither pass nor violation."""


def sha(path):
    try:
        with open(path, 'rb') as f:
            return hashlib.sha256(f.read()).hexdigest()
    except OSError:
        return None


_sha_memo = {}


def sha_memo(path):
    if path not in _sha_memo:
        _sha_memo[path] = sha(path)
    return _sha_memo[path]


def extractor():
    src = os.path.join(VERIF, 'extractor', 'extract.cpp')
    key = sha(src)[:16]
    exe = os.path.join(BUILD, 'extract-' + key)
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        tmp = exe + '.%d' % os.getpid()
        r = subprocess.run(['g++', '-std=c++17', '-O1', '-fno-rtti', '-I' + LLVM + '/include',
                            '-D__STDC_CONSTANT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp,
                            LLVM + '/lib/libclang-cpp.so.18.1', LLVM + '/lib/libLLVM-18.so',
                            '-Wl,-rpath,' + LLVM + '/lib'], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError('cannot build the extractor: ' + r.stderr[-2000:])
        os.rename(tmp, exe)
    return exe, key


def _lock(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name + '.lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def extract_tus(tus, roots, flags, stats, label):
    """tus: list of absolute paths. Returns list of parsed JSON dicts."""
    exe, xkey = extractor()
    cache = os.path.join(BUILD, 'cache')
    os.makedirs(cache, exist_ok=True)

    def one(tu):
        h = hashlib.sha256(('\0'.join([xkey, roots, tu] + flags)).encode()).hexdigest()[:24]
        meta, data = os.path.join(cache, h + '.meta'), os.path.join(cache, h + '.pkl')
        try:
            with open(meta) as f:
                m = json.load(f)
            if all(sha_memo(p) == s for p, s in m['deps']) and os.path.exists(data):
                return tu, data, True, None
        except (OSError, ValueError, KeyError):
            pass
        out = os.path.join(cache, h + '.%d.tmp' % os.getpid())
        r = subprocess.run([exe, roots, out, tu, '--'] + flags, capture_output=True, text=True)
        if not os.path.exists(out) or r.returncode:
            try:
                os.unlink(out)
            except OSError:
                pass
            return tu, None, False, r.stderr[-3000:]
        with open(out) as f:
            j = json.load(f)
        os.unlink(out)
        deps = []
        for p in j.pop('deps'):
            p = os.path.abspath(p)
            if p.startswith(REPO + '/') or p.startswith(BUILD + '/') or p.startswith(VERIF + '/'):
                deps.append((p, sha_memo(p)))
        with open(data + '.%d' % os.getpid(), 'wb') as f:
            pickle.dump(j, f, protocol=4)
        os.rename(data + '.%d' % os.getpid(), data)
        with open(meta + '.%d' % os.getpid(), 'w') as f:
            json.dump({'tu': tu, 'deps': deps}, f)
        os.rename(meta + '.%d' % os.getpid(), meta)
        return tu, data, False, None

    lk = _lock('extract')
    try:
        with ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(one, tus))
    finally:
        lk.close()
    bad = [(t, e) for t, d, c, e in res if d is None]
    if bad:
        raise AnalysisError('cannot parse %s:\n%s' % (bad[0][0], bad[0][1]))
    stats[label + '_tus'] = len(res)
    stats[label + '_reused_by_content_hash'] = sum(1 for r in res if r[2])
    stats[label + '_parsed_now'] = sum(1 for r in res if not r[2])
    return [r[1] for r in res]


def repo_tus():
    out = []
    for base in ('src/joedb', 'src/external'):
        for d, dn, fn in os.walk(os.path.join(REPO, base)):
            dn.sort()
            if '/db/encoded_file' in d:
                continue
            for f in sorted(fn):
                if f.endswith('.cpp') and f not in SKIP:
                    out.append(os.path.join(d, f))
    out.append(os.path.join(VERIF, 'schemas', 'headers.cpp'))
    return out


# ---------------------------------------------------------------- joedbc build
def _joedbc_sources():
    cm = os.path.join(REPO, 'compcmake', 'joedbc_without_libjoedb.cmake')
    txt = open(cm).read()
    src = [os.path.join(REPO, 'src', p) for p in re.findall(r'\$\{JOEDB_SRC_DIR\}/(\S+?\.cpp)', txt)]
    if len(src) < 30:
        raise AnalysisError('cannot find the source list of joedbc')
    return sorted(set(src))


def build_joedbc(stats):
    """Compiles the schema compiler of the current tree into BUILD (cached by content)."""
    objd = os.path.join(BUILD, 'joedbc_obj')
    os.makedirs(objd, exist_ok=True)
    flags = ['-std=c++20', '-O0', '-DJOEDB_VERSION=100402', '-D_FILE_OFFSET_BITS=64', '-I' + REPO + '/src']

    def one(src):
        h = hashlib.sha256(('\0'.join([src] + flags)).encode()).hexdigest()[:20]
        meta, obj = os.path.join(objd, h + '.meta'), os.path.join(objd, h + '.o')
        try:
            with open(meta) as f:
                deps = json.load(f)
            if all(sha_memo(p) == s for p, s in deps) and os.path.exists(obj):
                return obj, hashlib.sha256(json.dumps(deps).encode()).hexdigest(), True
        except (OSError, ValueError):
            pass
        dfile = obj + '.d'
        r = subprocess.run(['g++'] + flags + ['-MMD', '-MF', dfile, '-c', src, '-o', obj],
                           capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError('cannot compile %s:\n%s' % (src, r.stderr[-2000:]))
        txt = open(dfile).read().replace('\\\n', ' ')
        deps = [(os.path.abspath(p), sha_memo(os.path.abspath(p)))
                for p in txt.split(':', 1)[1].split() if os.path.abspath(p).startswith(REPO)]
        with open(meta, 'w') as f:
            json.dump(deps, f)
        return obj, hashlib.sha256(json.dumps(deps).encode()).hexdigest(), False

    lk = _lock('joedbc')
    try:
        with ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(one, _joedbc_sources()))
        key = hashlib.sha256(''.join(r[1] for r in res).encode()).hexdigest()[:20]
        exe = os.path.join(BUILD, 'joedbc-' + key)
        if not os.path.exists(exe):
            r = subprocess.run(['g++', '-o', exe + '.tmp'] + [r[0] for r in res], capture_output=True, text=True)
            if r.returncode:
                raise AnalysisError('cannot link joedbc:\n' + r.stderr[-2000:])
            os.rename(exe + '.tmp', exe)
    finally:
        lk.close()
    stats['joedbc_objects'] = len(res)
    stats['joedbc_objects_compiled_now'] = sum(1 for r in res if not r[2])
    return exe, key


def generate(stats):
    """Runs the schema compiler on the sample schemas in a scratch overlay; returns the overlay dir."""
    exe, key = build_joedbc(stats)
    schemas = os.path.join(VERIF, 'schemas')
    h = hashlib.sha256(key.encode())
    inputs = []
    for d, dn, fn in os.walk(schemas):
        dn.sort()
        for f in sorted(fn):
            p = os.path.join(d, f)
            inputs.append(p)
            h.update((sha(p) or '').encode())
    for e in ('joedbi', 'joedbc'):
        h.update((sha(os.path.join(REPO, 'src/joedb/db/encoded_file.' + e)) or '').encode())
    over = os.path.join(BUILD, 'overlay-' + h.hexdigest()[:20])
    lk = _lock('overlay')
    try:
        if not os.path.exists(os.path.join(over, '.done')):
            subprocess.run(['rm', '-rf', over])
            os.makedirs(os.path.join(over, 'joedb/db'))
            for e in ('joedbi', 'joedbc'):
                subprocess.run(['cp', os.path.join(REPO, 'src/joedb/db/encoded_file.' + e), os.path.join(over, 'joedb/db')], check=True)
            subprocess.run(['cp', '-r', schemas + '/.', over], check=True)
            jobs = [(os.path.join(over, 'joedb/db'), 'encoded_file')]
            for f in sorted(os.listdir(schemas)):
                if f.endswith('.joedbc'):
                    jobs.append((over, f[:-7]))
            for cwd, name in jobs:
                r = subprocess.run([exe, name], cwd=cwd, capture_output=True, text=True, timeout=60)
                if r.returncode:
                    raise AnalysisError('joedbc failed on %s:\n%s%s' % (name, r.stdout[-1500:], r.stderr[-1500:]))
            open(os.path.join(over, '.done'), 'w').close()
    finally:
        lk.close()
    return over


# ---------------------------------------------------------------- fact base
class DB:
    def __init__(self):
        self.functions, self.classes, self.enums, self.globals = {}, {}, {}, {}
        self.stats = {}

    def merge(self, j):
        F = self.functions
        for k, f in j['functions'].items():
            if k not in F:
                F[k] = f
                f['key'] = k
        for k, c in j['classes'].items():
            o = self.classes.get(k)
            if o is None or ('fields' in c and 'fields' not in o):
                self.classes[k] = c
        for k, e in j['enums'].items():
            self.enums.setdefault(k, e)
        for k, g in j['globals'].items():
            o = self.globals.get(k)
            if o is None or ('e' in g and 'e' not in o):
                self.globals[k] = g

    def finish(self):
        self.by_name = {}
        for k, f in self.functions.items():
            self.by_name.setdefault(f['n'], []).append(f)
        self.derived = {}
        for n, c in self.classes.items():
            c['name'] = n
            for b in c['bases']:
                self.derived.setdefault(b['n'], []).append(n)
        # overriders: key -> set of overriding method keys (direct)
        self.over = {}
        self.method_info = {}
        for n, c in self.classes.items():
            for m in c.get('methods', ()):
                self.method_info[m['f']] = (n, m)
                for o in m.get('ov', ()):
                    self.over.setdefault(o, set()).add(m['f'])
        self._mod = None
        self.lambdas_of = {}
        for k, f in self.functions.items():
            if f.get('parent'):
                self.lambdas_of.setdefault(f['parent'], []).append(f)
        return self

    # -- helpers
    def fn(self, name, n_params=None, allow_none=False):
        c = self.by_name.get(name, [])
        if n_params is not None:
            c = [f for f in c if len(f['ps']) == n_params]
        if not c:
            if allow_none:
                return None
            raise AnalysisError('anchor vanished: function %s' % name)
        return c[0]

    def fns(self, name):
        return self.by_name.get(name, [])

    def cls(self, name):
        c = self.classes.get(name)
        if c is None:
            raise AnalysisError('anchor vanished: class %s' % name)
        return c

    def enum(self, name):
        e = self.enums.get(name)
        if e is None:
            raise AnalysisError('anchor vanished: enum %s' % name)
        return e

    def overriders(self, key):
        """all methods that may run for a virtual call to key (including key itself)"""
        seen, todo = {key}, [key]
        while todo:
            k = todo.pop()
            for o in self.over.get(k, ()):
                if o not in seen:
                    seen.add(o)
                    todo.append(o)
        return seen

    def bases_of(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop()
            for b in self.classes.get(c, {}).get('bases', ()):
                if b['n'] not in out:
                    out.append(b['n'])
                    todo.append(b['n'])
        return out

    def is_a(self, cls, base):
        return cls == base or base in self.bases_of(cls)

    def subclasses(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop()
            for d in self.derived.get(c, ()):
                if d not in out:
                    out.append(d)
                    todo.append(d)
        return out

    def resolve_virtual(self, key, dyn):
        """method key run when a call to virtual `key` is made on an object of exact class dyn"""
        over = self.overriders(key)
        todo = [dyn]
        while todo:
            c = todo.pop(0)
            for m in self.classes.get(c, {}).get('methods', ()):
                if m['f'] in over:
                    return m['f']
            todo += [b['n'] for b in self.classes.get(c, {}).get('bases', ())]
        return key


_db = {}


def load(parts=('src',)):
    parts = tuple(parts)
    if parts in _db:
        return _db[parts]
    t0 = time.time()
    db = DB()
    over = generate(db.stats)
    files = []
    base = ['-std=c++20'] + DEFS + ['-I' + over, '-I' + REPO + '/src']
    if 'src' in parts:
        files += extract_tus(repo_tus(), REPO + '/src', base, db.stats, 'src')
    if 'gen' in parts:
        tus = []
        for d, dn, fn in os.walk(over):
            dn.sort()
            for f in sorted(fn):
                if f.endswith('.cpp'):
                    tus.append(os.path.join(d, f))
        files += extract_tus(tus, REPO + '/src:' + over, base + ['-I' + VERIF + '/schemas'], db.stats, 'gen')
    # merged fact base, cached by the content of its parts
    h = hashlib.sha256(b'merge2')
    for p in files:
        st = os.stat(p)
        h.update(('%s %d %d;' % (p, st.st_size, st.st_mtime_ns)).encode())
    mp = os.path.join(BUILD, 'cache', 'merged-' + h.hexdigest()[:20] + '.pkl')
    loaded = None
    if os.path.exists(mp):
        try:
            with open(mp, 'rb') as f:
                loaded = pickle.load(f)
        except Exception:
            loaded = None
    if loaded is None:
        for p in files:
            with open(p, 'rb') as f:
                db.merge(pickle.load(f))
        loaded = (db.functions, db.classes, db.enums, db.globals)
        with open(mp + '.%d' % os.getpid(), 'wb') as f:
            pickle.dump(loaded, f, protocol=4)
        os.rename(mp + '.%d' % os.getpid(), mp)
    db.functions, db.classes, db.enums, db.globals = loaded
    db.overlay = over
    db.finish()
    db.stats['functions'] = len(db.functions)
    db.stats['classes'] = len(db.classes)
    db.stats['load_s'] = round(time.time() - t0, 2)
    _db[parts] = db
    return db


def rel(path):
    if path.startswith(REPO + '/'):
        return path[len(REPO) + 1:]
    m = re.match(r'.*/overlay-[0-9a-f]+/(.*)', path)
    if m:
        return 'generated/' + m.group(1)
    return path


def walk(node):
    """preorder over all dict nodes of a body/expression"""
    stack = [node]
    while stack:
        n = stack.pop()
        if isinstance(n, dict):
            yield n
            for v in reversed(list(n.values())):
                if isinstance(v, (dict, list)):
                    stack.append(v)
        elif isinstance(n, list):
            for v in reversed(n):
                if isinstance(v, (dict, list)):
                    stack.append(v)

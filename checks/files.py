"""Files: piecewise reading, system calls, buffers, open modes."""
from jsa.runner import check
from jsa.linear import Lin, subst
from .common import *

AF = 'joedb::Abstract_File'


def reader_methods(db):
    return {k for k in db.functions if db.functions[k]['n'].endswith('::pread')} | {f['n'] for f in db.functions.values() if f['n'].endswith('::pread')}


def is_pread(n):
    return n.startswith('joedb::') and n.endswith('::pread')


def lookup(eng, name):
    for fr in reversed(eng.frames):
        L = fr['vars'].get(name)
        if L is not None:
            return fr, L
    return None, None


def at(eng, st, t):
    """the value, in state st, of the expression whose loop-head value is the term t"""
    def f(x):
        if not isinstance(x, tuple) or not x:
            return None
        if x[0] == 'phi':
            fr, L = lookup(eng, x[1])
            if L is None:
                return None
            if L in fr['refs']:
                X = st.store.get(L)
                return eng.rd(st, X[1]) if isinstance(X, tuple) and X[0] == 'loc' else None
            return eng.rd(st, L)
        if x[0] == 'rd' and len(x) == 3 and isinstance(x[1], tuple) and x[1][0] == 'fld':
            return eng.rd(st, x[1])
        return None
    return subst(t, f)


def addr(v):
    """pointer value as (base, offset term)"""
    if v[0] == 'loc':
        L = v[1]
        if L[0] == 'elem0':
            return L[1], I(0)
        if L[0] == 'ptr':
            b, o = addr(('loc', L[1])) if L[1][0] in ('elem0', 'ptr') else (L[1], I(0))
            return b, lin_make(lin_add(lin(o), lin(L[2]), 1))
        return L, I(0)
    return ('abs',), v


def minus(a, b):
    return lin_make(lin_add(lin(a), lin(b), -1))


def plus(a, b):
    return lin_make(lin_add(lin(a), lin(b), 1))


def nonneg(t):
    return isinstance(t, tuple) and t and (t[0] in ('preadn', 'prog') or (t[0] == 'call' and len(t) > 1 and t[1] in ('std::size', 'size')))


class ReadRule(Rule):
    """models Abstract_File::pread as returning any n with 0 <= n <= asked, and proves that loops around it advance by n"""
    merge = False
    iter_hook = True
    loop_unroll = 1
    max_states = 20000

    def __init__(self, loopers=(), db=None):
        self.loops = {}
        self.loopers = loopers
        self.reach = {}

    def inline(self, eng, f):
        if f['key'] in self.loopers:
            return False
        if f['key'] not in self.reach:
            self.reach[f['key']] = not loops_in(f.get('body')) or direct_read(eng.db, f.get('body'))
        return self.reach[f['key']]

    def models(self, name):
        return is_pread(name) or name.endswith('::pwrite')

    def on_call(self, eng, st, call, obj, vs, e):
        n = call['n']
        l = e.get('l', 0)
        if is_pread(n) and obj is not None and st.cls.get(obj) == 'joedb::Memory_File':
            # a local file in memory: no short reads
            return [(st, st.fresh('inmemory'))]
        if is_pread(n):
            eng.thrown[-1].append((st.copy(), ('exc', '?', None)))
            st.ctr += 1
            t = ('preadn', st.ctr, vs[1])
            eng.set_bound(st, t, lo=0)
            st.ev += (('pread', vs[0], vs[1], vs[2], t, l),)
            return [(st, t)]
        if n.startswith('joedb::') and n.endswith('::pwrite'):
            st.ev += (('pwrite', vs[0], vs[1], vs[2], l),)
            return [(st, ('void',))]
        if n.startswith('std::') and n.endswith('::size') and obj is not None and not vs:
            v = st.store.get(obj)
            if isinstance(v, tuple) and v[0] == 'ctor' and 1 <= len(v[2]) <= 3 and v[2][0][0] not in ('loc', 'str', 'null', 'obj') and v[1].split('<')[0].endswith(('string', 'vector')):
                return [(st, v[2][0])]
        if n == 'joedb::Abstract_File::reading_past_end_of_file':
            st.ev += (('pastend', l),)
            return None
        self.note_use(eng, st, n, vs, l)
        return None

    def note_use(self, eng, st, n, vs, l):
        vs = tuple(('loc', v[1]) if isinstance(v, tuple) and v[:1] == ('obj',) else v for v in vs)
        if any(isinstance(v, tuple) and v[:1] == ('loc',) and v[1][0] in ('elem0', 'ptr') for v in vs):
            st.ev += (('use', n, tuple(eng.value(st, v) if v[0] == 'loc' and v[1][0] in ('var', 'tmp') else v for v in vs), l),)

    def on_ctor(self, eng, st, node, cls, L, args):
        self.note_use(eng, st, cls, args, node.get('l', 0))
        return None

    def entails(self, eng, st):
        L = Lin(eng, st, nonneg)
        extra = set()
        for d in list(L.ineq):
            extra |= {k for k in d if isinstance(k, tuple) and k[0] == 'preadn'}
        for k in extra:
            L.add({**{k: 1}, **{q: -c for q, c in lin(k[2]).items()}})
        return L

    def on_iter(self, eng, loop, b, e):
        key = (id(loop), eng.frames[-1]['f']['n'] if eng.frames[-1]['f'] else '')
        rec = self.loops.setdefault(key, {'loop': loop, 'f': eng.frames[-1]['f'], 'iters': [], 'ind': None})
        preads = [x for x in e.ev if x[0] == 'pread']
        if not preads:
            rec['iters'].append(('none', None))
            ind = None
        for i, x in enumerate(e.ev):
            if x[0] != 'pread':
                continue
            _, dst, size, off, n, l = x
            full = self.entails(eng, e)
            full.add({**{n: 1}, **{q: -c for q, c in lin(size).items()}})
            why = []
            complete = full.le(size, n)
            offn = at(eng, e, off)
            if not complete and minus(offn, off) != n:
                why.append('the next read starts %s after the previous one instead of the number of bytes read' % term(minus(offn, off)))
            db_, do = addr(dst)
            nb, no = addr(at(eng, e, dst))
            used = False
            for y in e.ev[i + 1:]:
                used = used or self.consumes(y, db_, do, n)
            used = used or any(self.consumes_st(eng, v, db_, do, n) for v in e.store.values())
            if not used and not complete:
                if nb != db_ or minus(no, do) != n:
                    why.append('the bytes read are overwritten by the next read before they are used')
            elif not used and complete and nb == db_ and no == do and not any(y[0] in ('use', 'pwrite', 'loop') for y in e.ev[i + 1:]):
                why.append('the bytes read are overwritten by the next read before they are used')
            if not full.le(I(1), n):
                why.append('the loop goes on although nothing was read')
            rec['iters'].append(('pread', l, why, e))
        if len(preads) == 1:
            self.induction(eng, rec, preads[0][4], b, e)

    def induction(self, eng, rec, n, b, e):
        ind = {}
        for L_, v in e.store.items():
            if L_[0] == 'var' or L_[0] == 'fld':
                v0 = b.store.get(L_)
                if v0 is None:
                    v0 = eng.rd(b, L_)
                try:
                    d = minus(v, v0)
                except Exception:
                    continue
                if d == n:
                    ind[L_] = 1
                elif d == lin_make({n: -1}):
                    ind[L_] = -1
        rec['ind'] = set(ind.items()) if rec['ind'] is None else rec['ind'] & set(ind.items())

    def consumes(self, y, base, off, n):
        def args(vs):
            return any(isinstance(v, tuple) and v[0] == 'loc' and addr(v)[0] == base for v in vs)
        if y[0] == 'pwrite':
            b, o = addr(y[1])
            return b == base and o == off and y[2] == n
        if y[0] == 'use':
            return args(y[2]) and any(v == n or isinstance(v, tuple) and v[0] == 'loc' and addr(v)[0] == base and minus(addr(v)[1], off) == n for v in y[2])
        return False

    def consumes_st(self, eng, v, base, off, n):
        return False

    def on_loop_exit(self, eng, loop, before, kind, z):
        key = (id(loop), eng.frames[-1]['f']['n'] if eng.frames[-1]['f'] else '')
        rec = self.loops.get(key)
        z.ev = tuple(('pread_in_loop',) + x[1:] if x[0] == 'pread' else x for x in z.ev)
        if not rec or not rec['ind']:
            return
        z.ctr += 1
        P = ('prog', loop.get('l'), z.ctr)
        m = {}
        for L, s in rec['ind']:
            v0 = before.store.get(L)
            if v0 is None:
                v0 = eng.rd(before, L)
            m[L] = lin_make(lin_add(lin(v0), {P: 1}, s))
        names = {}
        for n, L in eng.frames[-1]['vars'].items():
            names[n] = L
        b4 = {eng.rd(before, L) for L in m}

        # only the terms of the iteration that leaves the loop, not those of earlier ones
        latest = {}

        def scan(t):
            if isinstance(t, tuple) and t:
                if t[0] == 'phi' and len(t) == 3:
                    latest[t[1]] = max(latest.get(t[1], -1), t[2])
                elif t[0] == 'rd' and len(t) == 3 and isinstance(t[2], int) and t[1] in m:
                    latest[t[1]] = max(latest.get(t[1], -1), t[2])
                for q in t:
                    scan(q)
        for k in z.facts:
            scan(k)
        for v in z.store.values():
            scan(v)
        scan(z.ev)
        def f(x):
            if not isinstance(x, tuple) or not x:
                return None
            if x[0] == 'phi':
                L = names.get(x[1])
                return m.get(L) if x not in b4 and x[2] == latest.get(x[1]) else None
            if x[0] == 'rd' and len(x) == 3 and x[1] in m and x not in b4 and x[2] == latest.get(x[1]):
                return m[x[1]]
            return None
        for L in list(z.store):
            z.store[L] = subst(z.store[L], f)
        for L in m:
            if L not in z.store:
                z.store[L] = m[L] if eng.rd(z, L) not in b4 else eng.rd(z, L)
        facts = {}
        for k, v in z.facts.items():
            k2 = subst(k, f)
            facts[k2] = v
        z.facts.clear()
        z.facts.update(facts)
        eng.set_bound(z, P, lo=0)
        z.ev = subst(z.ev, f)


class WriteRule(ReadRule):
    """models the system's pwrite as failing or accepting any n with 0 <= n <= asked, and proves that loops around it go on with the rest"""

    def __init__(self, loopers=(), db=None):
        ReadRule.__init__(self, loopers, db)
        self.starts = []

    def inline(self, eng, f):
        return True

    def models(self, name):
        return name in ('pwrite', 'pwrite64')

    def on_call(self, eng, st, call, obj, vs, e):
        if call['n'] not in ('pwrite', 'pwrite64'):
            return None
        l = e.get('l', 0)
        failed = st.copy()
        failed.ev += (('syswrite', vs[1], vs[2], vs[3], I(-1), l),)
        st.ctr += 1
        t = ('preadn', st.ctr, vs[2])
        eng.set_bound(st, t, lo=0)
        st.ev += (('syswrite', vs[1], vs[2], vs[3], t, l),)
        return [(st, t), (failed, I(-1))]

    def on_ctor(self, eng, st, node, cls, L, args):
        return None

    def on_iter(self, eng, loop, b, e):
        key = (id(loop), eng.frames[-1]['f']['n'] if eng.frames[-1]['f'] else '')
        rec = self.loops.setdefault(key, {'loop': loop, 'f': eng.frames[-1]['f'], 'iters': [], 'ind': None})
        writes = [x for x in e.ev if x[0] == 'syswrite']
        for _, src, size, off, n, l in writes:
            n = I(0) if n == I(-1) else n
            why = []
            sb, so = addr(src)
            nb, no = addr(at(eng, e, src))
            if self.entails(eng, e).le(size, n):
                continue
            if nb != sb or minus(no, so) != n:
                why.append('the next write takes bytes that do not follow those the system accepted')
            if minus(at(eng, e, off), off) != n:
                why.append('the next write goes %s after the previous one instead of after the bytes the system accepted' % term(minus(at(eng, e, off), off)))
            if minus(size, at(eng, e, size)) != n:
                why.append('the next write is %s shorter than the previous one instead of the number of bytes accepted' % term(minus(size, at(eng, e, size))))
            rec['iters'].append(('pread', l, why, e))
        if len(writes) == 1 and writes[0][4] != I(-1):
            self.induction(eng, rec, writes[0][4], b, e)
        if writes:
            rec['args'] = writes[0][1:4]

    def on_loop_exit(self, eng, loop, before, kind, z):
        key = (id(loop), eng.frames[-1]['f']['n'] if eng.frames[-1]['f'] else '')
        rec = self.loops.get(key)
        if rec and rec.get('args'):
            src, size, off = (at(eng, before, x) for x in rec['args'])
            self.starts.append((src, size, off))
        ReadRule.on_loop_exit(self, eng, loop, before, kind, z)


def system_writes(ctx):
    """every function that calls the system's pwrite"""
    db = ctx.db
    fs = [f for f in db.functions.values() if rel(f['file']).startswith('src/joedb/') and f.get('body') and f.get('kind') != 'lambda'
          and any(c.get('n') in ('pwrite', 'pwrite64') for c in calls_in(f['body']))]
    ctx.require(fs, 'system-writes', 'src/joedb/journal', 'no function calls the pwrite of the system any more')
    for f in sorted(fs, key=lambda f: f['key']):
        ctx.use(f)
        ps = f['ps']
        # (buffer, size, offset), in this order for every pwrite of the library
        if len(ps) != 3:
            raise AnalysisError('%s: cannot tell which parameter is the size of what it writes' % f['n'])
        r = WriteRule((), db)
        eng = Engine(db, r)
        outs = eng.run(f, None)
        ctx.use_engine(eng)
        size = ('arg', ps[1]['n'])
        first = r.starts or [x[1:4] for o in outs for x in o.st.ev if x[0] == 'syswrite']
        for src, sz, off in sorted(set(first)):
            ctx.require((addr(src) == (('param', ps[0]['n']), I(0)) or src == ('arg', ps[0]['n'])) and sz == size and off == ('arg', ps[2]['n']), f['n'] + ':first', f,
                        '%s does not start by writing all of its buffer at its offset, but %s bytes at %s' % (f['n'], term(sz), term(off)), '%s starts with its whole buffer, at its offset' % f['n'])
        for rec in r.loops.values():
            for _, l, why, e in rec['iters']:
                if not why:
                    ctx.ok('%s goes on with the bytes the system did not accept' % f['n'])
                for w in why:
                    ctx.bad('%s:%s' % (f['n'], ' '.join(w.split(' ')[:5])), '%s:%s' % (rel(f['file']), l), '%s: %s' % (f['n'], w), trace(e.ev))
        n = 0
        for o in outs:
            if o.k == T:
                continue
            L = r.entails(eng, o.st)
            if o.st.ev and any(x[0] == 'syswrite' and x[4] == I(-1) for x in flat(o.st.ev)) and not any(x[0] == 'loop' for x in o.st.ev):
                # what becomes of failures is decided by F02
                continue
            n += 1
            done = L.le(size, I(0)) or any(L.le(size, P) for P in progs(o.st)) or any(x[0] == 'syswrite' and L.le(size, x[4]) for x in o.st.ev)
            ctx.require(done, f['n'] + ':incomplete', f, '%s returns although the system may have accepted fewer than size bytes' % f['n'], '%s returns only when the system accepted size bytes' % f['n'], trace(o.st.ev))
        ctx.require(n, f['n'] + ':returns', f, '%s never returns' % f['n'])


class SysReadRule(WriteRule):
    def models(self, name):
        return name in ('pread', 'pread64')

    def on_call(self, eng, st, call, obj, vs, e):
        if call['n'] not in ('pread', 'pread64'):
            return None
        st.ctr += 1
        t = ('preadn', st.ctr, vs[2])
        failed = st.copy()
        failed.ev += (('sysread', vs[1], vs[2], vs[3], I(-1), e.get('l', 0)),)
        eng.set_bound(st, t, lo=0)
        st.ev += (('sysread', vs[1], vs[2], vs[3], t, e.get('l', 0)),)
        return [(st, t), (failed, I(-1))]


def system_reads(ctx):
    """a function that calls the system's pread once hands its parameters over and returns what the system returned"""
    db = ctx.db
    for f in sorted(db.functions.values(), key=lambda f: f['key']):
        if not rel(f['file']).startswith('src/joedb/') or not f.get('body') or f.get('kind') == 'lambda' or not any(c.get('n') in ('pread', 'pread64') for c in calls_in(f['body'])):
            continue
        ctx.use(f)
        ps = f['ps']
        if len(ps) != 3 or loops_in(f['body']):
            raise AnalysisError('%s: cannot tell how it uses the pread of the system' % f['n'])
        r = SysReadRule((), db)
        eng = Engine(db, r)
        for o in eng.run(f, None):
            if o.k == T:
                continue
            xs = [x for x in o.st.ev if x[0] == 'sysread']
            if not xs:
                ctx.require(o.v == I(0), f['n'] + ':none', f, '%s returns %s without reading anything' % (f['n'], term(o.v)), 'nothing read')
                continue
            _, dst, sz, off, n, l = xs[0]
            if n == I(-1):
                continue
            ctx.require(len(xs) == 1 and (addr(dst) == (('param', ps[0]['n']), I(0)) or dst == ('arg', ps[0]['n'])) and sz == ('arg', ps[1]['n']) and off == ('arg', ps[2]['n']) and o.v == n, f['n'] + ':read', '%s:%s' % (rel(f['file']), l),
                        '%s does not read size bytes at the offset into the buffer, or returns %s instead of the number of bytes read' % (f['n'], term(o.v)), '%s returns what the system returned' % f['n'], trace(o.st.ev))


def calls_in(node):
    for n in walk(node):
        if n.get('k') == 'call' and n.get('f'):
            yield n


LOOPS = ('while', 'do', 'for', 'rfor')


def loops_in(body):
    return [n for n in walk(body) if n.get('s') in LOOPS]


def direct_read(db, node, depth=1):
    """does node read a file, itself or through a loop-free helper"""
    for c in calls_in(node):
        if is_pread(c.get('n') or ''):
            return True
        g = db.functions.get(c['f'])
        if depth and g and g.get('body') and g.get('kind') != 'lambda' and not c.get('vt') and not loops_in(g['body']) and direct_read(db, g['body'], depth - 1):
            return True
    return False


def read_loop_functions(db):
    out = []
    for k, f in db.functions.items():
        if not rel(f['file']).startswith('src/joedb/') or not f.get('body') or is_pread(f['n']):
            continue
        if any(direct_read(db, n) for n in loops_in(f['body'])):
            out.append(f)
    return sorted(out, key=lambda f: f['key'])


def fname(f):
    return '%s/%d' % (f['n'], len(f.get('ps', ())))


class CurlRule(Rule):
    """libcurl calls back functions that were given a pointer: after a transfer, what it points to is unknown"""
    merge = False

    def __init__(self):
        self.given = {}

    def inline(self, eng, f):
        return rel(f['file']).startswith('src/joedb/journal/') and not loops_in(f.get('body'))

    def models(self, name):
        return name.startswith('curl_easy_')

    def on_call(self, eng, st, call, obj, vs, e):
        n = call['n']
        if n.startswith('curl_easy_'):
            if n == 'curl_easy_setopt':
                for v in vs[1:]:
                    if isinstance(v, tuple) and v[0] in ('loc', 'obj'):
                        st.ts = st.ts + (v[1],)
            if n == 'curl_easy_perform':
                for L in st.ts:
                    for K in [K for K in st.store if eng.under(K, L)]:
                        st.ctr += 1
                        st.store[K] = ('got', st.ctr)
            st.ctr += 1
            return [(st, ('call', n, st.ctr))]
        if n.endswith('reading_past_end_of_file'):
            eng.thrown[-1].append((st.copy(), ('exc', '?', None)))
            return []
        return None

    def may_throw(self, eng, name, node):
        return False


def curl_copies(ctx):
    db = ctx.db
    C = 'joedb::CURL_File'
    f = db.fn(C + '::copy_to', 3)
    ctx.use(f)
    eng = Engine(db, CurlRule())
    start, size = ('arg', f['ps'][1]['n']), ('arg', f['ps'][2]['n'])
    n = 0
    for o in eng.run(f, None):
        if o.k == T:
            continue
        n += 1
        L = Lin(eng, o.st)
        end = [v for K, v in o.st.store.items() if K[0] == 'fld' and K[2] == 'joedb::File_Iterator::position']
        ok = L.le(size, I(-1)) or L.le(size, I(0)) or any(L.eq(v, plus(start, size)) for v in end)
        ctx.require(ok, 'CURL_File::copy_to:incomplete', f, 'CURL_File::copy_to returns although fewer than size bytes may have been received', 'CURL_File::copy_to returns only when the destination position reached start + size', trace(o.st.ev))
    ctx.require(n, 'CURL_File::copy_to:returns', f, 'CURL_File::copy_to never returns')


@check('F01', floor=28, rule='Every loop of the library that calls Abstract_File::pread, directly or through a loop-free helper, is executed abstractly with pread returning any n with 0 <= n <= asked (or throwing). '
       'For an arbitrary iteration that goes back to the loop condition, linear-arithmetic entailment must show: n >= 1; the next file position is the previous one plus n; '
       'the n bytes obtained are either consumed (written out or compared, with exactly that size) before the next read or the destination moves on by n; what is written goes to the offset it was read from. '
       'The accumulated progress replaces the induction variables after the loop, and each function contract is then decided on its exit states. '
       'Functions that call the pwrite of the system are executed with it accepting any n with 0 <= n <= asked: the next call must go on with the bytes after those accepted, at the offset after them, and the function returns only when all were accepted. '
       'The result of a pread is never discarded, except on an in-memory file whose own size was asked.')
def f01(ctx):
    db = ctx.db
    fs = read_loop_functions(db)
    contracts = {'joedb::Abstract_File::copy_to/3', 'joedb::Abstract_File::equal_to/3', 'joedb::Async_Reader::read/2', 'joedb::File_Buffer::read_data/2'}
    names = {fname(f) for f in fs}
    keys = {f['key'] for f in fs}
    outs_of = {}
    engs = {}
    for f in fs:
        r = ReadRule(keys - {f['key']}, db)
        eng = Engine(db, r)
        outs = eng.run(f, None)
        outs_of[fname(f)] = outs
        engs[fname(f)] = (eng, r, f)
        ctx.use_engine(eng)
        ctx.use(f)
        seen = 0
        for rec in r.loops.values():
            its = [x for x in rec['iters'] if x[0] == 'pread']
            seen += len(its)
            for _, l, why, e in its:
                owner = rec['f']['n'] if rec['f'] else f['n']
                if not why:
                    ctx.ok('%s: iteration of the loop at line %s advances by the number of bytes read' % (f['n'], rec['loop'].get('l')))
                for w in why:
                    ctx.bad('%s:%s' % (f['n'], w.split(' ')[0] + w.split(' ')[1] + w.split(' ')[2]), '%s:%s' % (rel(f['file']), l), '%s: %s' % (f['n'], w), trace(e.ev))
        if not seen and not any(o.k == N for o in outs):
            pass
    for c in sorted(contracts - names):
        # the function no longer loops: it must then read everything in one checked call
        n, k = c.split('/')
        f = db.fn(n, int(k))
        r = ReadRule(keys, db)
        eng = Engine(db, r)
        outs_of[c] = eng.run(f, None)
        engs[c] = (eng, r, f)
        ctx.use(f)

    def lin_of(c, o):
        eng, r, f = engs[c]
        return r.entails(eng, o.st)

    # ---- contracts on exit states
    c = 'joedb::Abstract_File::copy_to/3'
    f = engs[c][2]
    size = ('arg', f['ps'][2]['n'])
    for o in outs_of[c]:
        if o.k == T:
            continue
        L = lin_of(c, o)
        done = L.le(size, I(-1)) or any(L.le(size, P) for P in progs(o.st)) or L.le(size, I(0))
        ended = L.le(size, I(-1)) and any(x[0] in ('pread', 'pread_in_loop') and L.le(x[4], I(0)) for x in o.st.ev)
        ctx.require(done if not L.le(size, I(-1)) else ended, 'copy_to:incomplete', f,
                    'copy_to returns although fewer than size bytes were copied (or, for an unlimited copy, before a read returned nothing)',
                    'copy_to returns only after size bytes, or after an empty read if size is negative', trace(o.st.ev))
    c = 'joedb::Abstract_File::equal_to/3'
    f = engs[c][2]
    frm, until = ('arg', f['ps'][1]['n']), ('arg', f['ps'][2]['n'])
    for o in outs_of[c]:
        if o.k != R or o.v != I(1):
            continue
        L = lin_of(c, o)
        ctx.require(L.le(until, frm) or any(L.le(until, plus(frm, P)) for P in progs(o.st)), 'equal_to:incomplete', f,
                    'equal_to says the files are equal before the whole interval was compared', 'equal_to answers true only when current >= until', trace(o.st.ev))
    c = 'joedb::Async_Reader::read/2'
    f = engs[c][2]
    cap = ('arg', f['ps'][1]['n'])
    need_fields(db, 'joedb::Async_Reader', 'current', 'end', 'end_of_file')
    this = ('this',)
    for o in outs_of[c]:
        if o.k != R:
            continue
        eng = engs[c][0]
        L = lin_of(c, o)
        cur, end = fld(this, 'joedb::Async_Reader::current'), fld(this, 'joedb::Async_Reader::end')
        c0 = ('rd', cur, 0)
        c1 = eng.rd(o.st, cur)
        eof = eng.rd(o.st, fld(this, 'joedb::Async_Reader::end_of_file'))
        ctx.require(L.eq(minus(c1, c0), o.v), 'Async_Reader::read:count', f, 'Async_Reader::read returns %s although current moved by %s' % (term(o.v), term(minus(c1, c0))),
                    'Async_Reader::read returns the distance current moved by', trace(o.st.ev))
        short = eng.assume(o.st, eof, False) if eof != I(1) else None
        if short is not None:
            L = lin_of(c, Out(o.k, short, o.v))
            ctx.require(L.le(cap, o.v) or L.le(eng.rd(o.st, end), c1), 'Async_Reader::read:short', f,
                        'Async_Reader::read returns a partial result without setting end_of_file', 'Async_Reader::read without end of file is complete', trace(o.st.ev))
    c = 'joedb::File_Buffer::read_data/2'
    f = engs[c][2]
    n = ('arg', f['ps'][1]['n'])
    for o in outs_of[c]:
        if o.k != R:
            continue
        L = lin_of(c, o)
        ctx.require(L.le(n, o.v), 'read_data:count', f, 'read_data(n) returns %s, which may be less than n,' % term(o.v), 'read_data returns n, or reports the end of the file', trace(o.st.ev))
    # ---- read_blob
    f = db.fn('joedb::Abstract_File::read_blob', 2)
    r = ReadRule((), db)
    eng = Engine(db, r)
    for o in eng.run(f, None):
        if o.k != R:
            continue
        L = r.entails(eng, o.st)
        S = ('fldof', ('arg', f['ps'][0]['n']), 'joedb::Blob::size')
        ctx.require(L.le(S, I(0)) or any(L.le(S, P) for P in progs(o.st)), 'read_blob:short', f,
                    'read_blob returns a string although the file gave fewer bytes than the size of the blob', 'read_blob returns only when all the bytes of the blob were read', trace(o.st.ev))
    curl_copies(ctx)
    system_writes(ctx)
    system_reads(ctx)
    # ---- results never discarded
    for k, g in db.functions.items():
        if not rel(g['file']).startswith('src/joedb/') or not g.get('body'):
            continue
        for call in discarded(g['body']):
            if is_pread(call.get('n') or ''):
                own = call.get('ot', '').replace('const ', '').strip(' *&')
                ctx.require(own == 'joedb::Memory_File', 'discard:' + g['n'], '%s:%s' % (rel(g['file']), call.get('l')),
                            '%s ignores how many bytes pread returned' % g['n'], '%s reads from a Memory_File' % g['n'])
        for call in calls_in(g['body']):
            if is_pread(call.get('n') or ''):
                ctx.ok()
    ctx.notes['functions_with_read_loops'] = sorted(names)


def progs(st):
    out = set()

    def go(t):
        if isinstance(t, tuple):
            if t and t[0] == 'prog' and len(t) == 3:
                out.add(t)
                return
            for x in t:
                go(x)
    for k in st.facts:
        go(k)
    for v in st.store.values():
        go(v)
    return out


def past_end(ev):
    return any(x[0] == 'pastend' for x in flat(ev))


def discarded(body):
    """calls whose value is dropped (expression statements, comma left sides, cast to void)"""
    out = []

    def strip(e):
        while isinstance(e, dict) and e.get('k') in ('full', 'tmp', 'cast', 'icast') and e.get('e') is not None:
            if e.get('k') in ('cast', 'icast') and e.get('t') != 'void':
                break
            e = e['e']
        return e
    for n in walk(body):
        if n.get('s') == 'expr':
            e = strip(n.get('e'))
            if isinstance(e, dict) and e.get('k') == 'bin' and e.get('op') == ',':
                e = strip(e['x'])
            if isinstance(e, dict) and e.get('k') == 'await':
                e = strip(e.get('e'))
            if isinstance(e, dict) and e.get('k') == 'call':
                out.append(e)
    return out


# ---------------------------------------------------------------- F02: errors of system and library calls
FAIL = {
    **{n: (I(-1),) for n in ('fcntl', 'pread', 'pwrite', 'fsync', 'fdatasync', 'open', 'fstat', 'fstat64', 'rename', 'ftruncate', 'ftruncate64', 'lseek', 'lseek64', 'read', 'write', 'pread64', 'pwrite64',
                             'mmap', 'msync', 'ssh_channel_write', 'ssh_channel_read_timeout', 'ssh_channel_read', 'ssh_connect', 'sftp_init', 'sftp_read', 'sftp_seek64', 'sftp_fsync', 'sftp_write',
                             'ssh_channel_open_forward', 'ssh_channel_open_forward_unix')},
    'ssh_userauth_publickey': (I(-1), I(1), I(2)), 'ssh_userauth_publickey_auto': (I(-1), I(1), I(2)),
    'curl_easy_setopt': (I(1), I(48)), 'curl_easy_perform': (I(7), I(18), I(28)), 'curl_easy_getinfo': (I(1),),
    'curl_easy_init': (('null',),), 'sftp_new': (('null',),), 'sftp_open': (('null',),), 'ssh_new': (('null',),), 'ssh_channel_new': (('null',),),
    'BrotliEncoderCompress': (I(0),), 'BrotliDecoderDecompress': (I(0), I(2), I(3)),
    'std::basic_streambuf<char, std::char_traits<char>>::sputn': (I(0),),
    'std::basic_streambuf<char, std::char_traits<char>>::pubsync': (I(-1),),
    'std::basic_filebuf<char, std::char_traits<char>>::is_open': (I(0),),
}
FAIL['std::rename'] = FAIL['rename']
# reporting a failure in the returned value is the documented meaning of these
RELEASE = ('unlock', 'close')


ZERO_OK = ('fcntl', 'fsync', 'fdatasync', 'fstat', 'fstat64', 'rename', 'std::rename', 'ftruncate', 'msync', 'sftp_init', 'sftp_seek64')


class FailRule(Rule):
    merge = False
    loop_unroll = 2
    max_states = 20000
    step_limit = 400000

    inline_depth = 4

    def __init__(self, table, okval=None):
        self.table = table
        self.okval = okval or {}
        self.memo = {}

    def may_throw(self, eng, call, node):
        return False            # an exception of another call is not a normal return

    def inline(self, eng, f):
        # helpers that test results or call the fallible functions; nothing big
        k = f['key']
        if k not in self.memo:
            b = [f.get('body'), f.get('in')]
            n = sum(1 for _ in walk(b))
            # functions that call fallible functions are analysed on their own
            self.memo[k] = n < 120 and f.get('kind') != 'dtor' and not any(c['n'] in self.table or c['f'] in self.table for c in calls_in(b))
        return self.memo[k]

    def models(self, name):
        return name in self.table

    def on_call(self, eng, st, call, obj, vs, e):
        n = call['n']
        fv = self.table.get(call.get('f')) or self.table.get(n)
        if fv is None or (n in self.table and n.startswith('joedb::')):
            return None
        l = e.get('l', 0)
        out = []
        for v in fv:
            s = st.copy()
            s.ev += (('fail', n, v, l),)
            out.append((s, v))
        s = st.copy()
        s.ctr += 1
        t = ('ok', n, s.ctr)
        if fv[0] == ('null',):
            s.facts[('null', t)] = False
            t = ('loc', ('heap', n, s.ctr))
        elif call.get('f') in self.okval:
            t = self.okval[call['f']]
        elif n in ZERO_OK or n.startswith('curl_') or n.startswith('ssh_userauth') or n.startswith('ssh_channel_open') or n in ('ssh_connect',):
            t = I(0)
        elif n.startswith('Brotli'):
            t = I(1)
        elif fv[0] == I(0):
            eng.set_bound(s, t, lo=1)
        else:
            eng.set_bound(s, t, lo=0)
        s.ev += (('done', n, t, l),)
        # what the call stores through pointers is unknown
        for v, k in zip(vs, call.get('pk', '') + 'v' * 20):
            if k in 'rpm' and isinstance(v, tuple) and v[:1] == ('loc',):
                eng.touch(s, v[1], ('out', n, s.ctr))
        out.append((s, t))
        return out


def failing(ev):
    """the calls whose last outcome is a failure"""
    last = {}
    for x in flat(ev):
        if x[0] in ('fail', 'done'):
            last[x[1]] = x
    return [x for x in last.values() if x[0] == 'fail']


def is_release(f):
    m = f['n'].rsplit('::', 1)[-1]
    return f.get('kind') == 'dtor' or m.startswith('~') or m in RELEASE


@check('F02', floor=38, rule='For every function of the library that calls a fallible system or library function (Posix, stream buffer, CURL, SSH/SFTP, Brotli; the table of failure values is in checks/files.py), '
       'each of its paths is executed abstractly with the call failing and succeeding. A path on which the last such call failed must leave by an exception, or return a constant that is distinguishable from every success result; '
       'in the second case the function joins the table, and its own callers are checked in the same way (fixpoint). Only functions that release a resource (destructor, unlock) may ignore a failure.')
def f02(ctx):
    db = ctx.db
    table = dict(FAIL)
    okval = {}
    done = set()
    sites = {}
    rounds = 0
    while True:
        rounds += 1
        new = {}
        for k, f in db.functions.items():
            if not rel(f['file']).startswith('src/joedb/') or (f.get('body') is None and not f.get('in')):
                continue
            cs = [c for c in calls_in([f.get('body'), f.get('in')]) if (c['n'] in table and c['f'] not in db.functions) or c['f'] in table]
            if not cs:
                continue
            sig = (k, frozenset(c['f'] for c in cs if c['f'] in table))
            if sig in done:
                continue
            done.add(sig)
            for c in cs:
                sites[(k, c['n'], c.get('l'))] = 1
            if is_release(f):
                ctx.ok('%s releases a resource: failures are ignored' % f['n'])
                continue
            eng = Engine(db, FailRule(table, okval))
            eng.step_limit = 60000
            outs = eng.run(f, None)
            ctx.use(f)
            fails, succ = {}, []
            for o in outs:
                if o.k == T:
                    continue
                b = failing(o.st.ev)
                if b:
                    for x in b:
                        fails.setdefault(repr(o.v), []).append((x, o))
                else:
                    succ.append(o)
            for rv, xs in fails.items():
                x, o = xs[0]
                v = o.v
                dist = is_int(v) or v == ('null',)
                if dist:
                    for s in succ:
                        L = Lin(eng, s.st)
                        if s.v == v or not (is_int(s.v) or v == ('null',) or L.le(s.v, v, 1) or L.le(v, s.v, 1)):
                            dist = False
                if dist:
                    new.setdefault(k, set()).add(v)
                    if len({x.v for x in succ}) == 1 and is_int(succ[0].v):
                        okval[k] = succ[0].v
                    ctx.ok('%s returns %s when %s fails: its callers are checked' % (f['n'], term(v), x[1]))
                else:
                    ctx.bad('%s:%s' % (f['n'], x[1]), '%s:%s' % (rel(f['file']), x[3]), '%s goes on normally although %s failed' % (f['n'], x[1]), trace(o.st.ev))
            if not fails:
                ctx.ok('%s: every failure of %s leaves by an exception' % (f['n'], ', '.join(sorted({c['n'].split('::')[-1] for c in cs}))), n=len(cs))
        add = {k: tuple(sorted(v, key=repr)) for k, v in new.items() if table.get(k) != tuple(sorted(v, key=repr))}
        if not add or rounds > 8:
            break
        table.update(add)
    ctx.notes['call_sites'] = len(sites)
    ctx.notes['wrappers_reporting_by_value'] = sorted(db.functions[k]['n'] for k in table if k in db.functions)


# ---------------------------------------------------------------- F03: open modes
class OpenRule(Rule):
    merge = False
    loop_unroll = 2

    def models(self, name):
        return name in ('open', 'fcntl') or name.endswith('::open') and 'filebuf' in name

    def may_throw(self, eng, call, node):
        return False

    def on_call(self, eng, st, call, obj, vs, e):
        n = call['n']
        l = e.get('l', 0)
        if n == 'open' or n == 'open64':
            a, b = st.copy(), st.copy()
            a.ev += (('open', const(vs[1]), 0, l),)
            b.ev += (('open', const(vs[1]), 1, l),)
            return [(a, I(-1)), (b, I(3))]
        if n.startswith('std::basic_filebuf<') and n.endswith('::open'):
            a, b = st.copy(), st.copy()
            a.ev += (('open', const(vs[1]), 0, l),)
            b.ev += (('open', const(vs[1]), 1, l),)
            return [(a, ('null',)), (b, ('loc', obj))]
        if n.startswith('std::basic_filebuf<') and n.endswith('::is_open'):
            o = [x for x in st.ev if x[0] == 'open']
            return [(st, I(o[-1][2] if o else 0))]
        if n.startswith('std::basic_filebuf<') and n.endswith('::close'):
            st.ev += (('close', l),)
            return [(st, ('loc', obj))]
        if n == 'fcntl':
            if const(vs[1]) == 51:      # F_FULLFSYNC, not on this system
                return None
            v = vs[2] if len(vs) > 2 else None
            d = {}
            if isinstance(v, tuple) and v[0] == 'loc':
                for k in ('l_type', 'l_whence', 'l_start', 'l_len'):
                    d[k] = eng.rd(st, ('fld', v[1], 'flock::' + k))
            a, b = st.copy(), st.copy()
            x = (const(vs[1]), d.get('l_type'), d.get('l_whence'), d.get('l_start'), d.get('l_len'))
            a.ev += (('fcntl',) + x + (vs[0], 0, l),)
            b.ev += (('fcntl',) + x + (vs[0], 1, l),)
            return [(a, I(-1)), (b, I(0))]
        return None


O_CREAT, O_EXCL, O_TRUNC, O_APPEND, O_ACC = 64, 128, 512, 1024, 3
SETLK, SETLKW = (6, 37), (7, 38)
RDLCK, WRLCK, UNLCK = I(0), I(1), I(2)
IOS_APP, IOS_ATE, IOS_BIN, IOS_IN, IOS_OUT, IOS_TRUNC = 1, 2, 4, 8, 16, 32


@check('F03', floor=60, rule='The constructors of the Posix and portable files are executed abstractly for every open mode, with every open and lock call failing or succeeding. On each normal exit the sequence of open flags and lock requests '
       '(constants read from the type-checked source) is compared with the documented mode table: which modes may create, must not create, must not find an existing file, must not write; no mode truncates an existing file; which modes take the tail lock, blocking or not; '
       'the recorded mode. The lock primitives must pass exactly the requested byte range and lock type on the descriptor of the file.')
def f03(ctx):
    db = ctx.db
    modes = {n: v for n, v in db.enum('joedb::Open_Mode')['items'] if n != 'mode_count'}
    need = {'read_existing', 'write_existing', 'create_new', 'write_existing_or_create_new', 'shared_write', 'write_lock'}
    if set(modes) != need:
        raise AnalysisError('the open modes changed: %s' % sorted(modes))

    def ctor(name):
        c = [f for f in db.fns(name) if len(f['ps']) == 2 and f['ps'][0]['t'].replace(' ', '') == 'constchar*']
        if len(c) != 1:
            raise AnalysisError('constructor of %s not found' % name)
        return c[0]
    pf = ctor('joedb::Posix_File::Posix_File')
    po = ctor('joedb::Portable_File::Portable_File')
    ctx.use(pf, po)
    MODE = fld(('this',), 'joedb::Abstract_File::mode')
    for m, mv in sorted(modes.items(), key=lambda x: x[1]):
        for f, portable in ((pf, False), (po, True)):
            eng = Engine(db, OpenRule())
            outs = eng.run(f, None, args={1: I(mv)})
            ctx.use_engine(eng)
            w = '%s:%s' % (rel(f['file']), f['l'])
            tag = ('Portable_File' if portable else 'Posix_File') + ':' + m
            norm_ = [o for o in outs if o.k in (R, N)]
            ctx.require(norm_, tag + ':never', w, 'opening in mode %s never succeeds' % m)
            exist_ok = create_ok = False
            for o in norm_:
                ops = [x for x in o.st.ev if x[0] == 'open']
                tr = trace(o.st.ev)
                if any(x[1] is None for x in ops):
                    raise AnalysisError('open flags are not constant in ' + f['n'])
                last = ops[-1] if ops else None
                if not ctx.require(last and last[2] == 1, tag + ':open', w, 'mode %s: construction succeeds although the file could not be opened' % m, '%s: a normal exit has an open file' % tag, tr):
                    continue
                fl = last[1]
                if not portable:
                    ctx.require(not any(x[1] & (O_TRUNC | O_APPEND) for x in ops), tag + ':trunc', w, 'mode %s truncates or appends' % m, None, tr)
                    ctx.require((fl & O_ACC) == (0 if m == 'read_existing' else 2), tag + ':access', w, 'mode %s opens with access %d' % (m, fl & O_ACC), '%s: access %d' % (tag, fl & O_ACC), tr)
                    if m in ('read_existing', 'write_existing'):
                        ctx.require(not any(x[1] & O_CREAT for x in ops), tag + ':create', w, 'mode %s creates the file' % m, None, tr)
                    elif m == 'create_new':
                        ctx.require(fl & O_CREAT and fl & O_EXCL, tag + ':excl', w, 'mode create_new accepts an existing file', '%s: O_CREAT|O_EXCL' % tag, tr)
                    exist_ok |= not fl & O_EXCL
                    create_ok |= bool(fl & O_CREAT)
                    lk = [x for x in o.st.ev if x[0] == 'fcntl' and x[7] == 1]
                    tail = [x for x in lk if x[2] == WRLCK and x[3] == I(0) and x[4] == I(LAST) and x[5] == I(1)]
                    if m in ('read_existing', 'shared_write'):
                        ctx.require(not lk, tag + ':lock', w, 'mode %s keeps a lock' % m, '%s: no lock' % tag, tr)
                    else:
                        kind = SETLKW if m == 'write_lock' else SETLK
                        ctx.require(any(x[1] in kind for x in tail), tag + ':lock', w, 'mode %s does not hold the %s exclusive tail lock' % (m, 'blocking' if m == 'write_lock' else 'non-blocking'), '%s: tail lock' % tag, tr)
                        ctx.require(not any(x[1] in SETLKW for x in lk) or m == 'write_lock', tag + ':block', w, 'mode %s may wait for a lock' % m, None, tr)
                        ctx.require(not any(x[2] == UNLCK for x in lk), tag + ':unlock', w, 'mode %s releases the lock' % m, None, tr)
                else:
                    ctx.require(fl & IOS_BIN, tag + ':binary', w, 'mode %s opens in text mode' % m, None, tr)
                    ctx.require(fl & IOS_IN and bool(fl & IOS_OUT) == (m != 'read_existing'), tag + ':access', w, 'mode %s opens with flags %d' % (m, fl), '%s: flags %d' % (tag, fl), tr)
                    ctx.require(not any(x[1] & (IOS_APP | IOS_ATE) for x in ops), tag + ':append', w, 'mode %s appends' % m, None, tr)
                    if m in ('read_existing', 'write_existing'):
                        ctx.require(not any(x[1] & IOS_TRUNC for x in ops), tag + ':create', w, 'mode %s creates or truncates the file' % m, None, tr)
                    for i, x in enumerate(ops):
                        if x[1] & IOS_TRUNC:
                            ctx.require(any(y[2] == 0 and not y[1] & IOS_TRUNC for y in ops[:i]) and not any(y[2] == 1 for y in ops[:i]), tag + ':trunc', w,
                                        'mode %s truncates a file that may exist' % m, '%s: truncation only after a failed open' % tag, tr)
                    exist_ok |= not fl & IOS_TRUNC
                    create_ok |= bool(fl & IOS_TRUNC)
                got = eng.rd(o.st, MODE)
                ctx.require(got == I(mv), tag + ':mode', w, 'the file records mode %s instead of %s' % (term(got), m), '%s: mode recorded' % tag, tr)
            ctx.require(exist_ok == (m != 'create_new'), tag + ':exists', w, 'mode %s %s an existing file' % (m, 'accepts' if exist_ok else 'refuses'))
            ctx.require(create_ok == (m not in ('read_existing', 'write_existing')), tag + ':creates', w, 'mode %s %s a missing file' % (m, 'creates' if create_ok else 'never creates'))
    # ---- mode predicates
    for name, want in (('is_shared', {'shared_write'}), ('is_readonly', {'read_existing'})):
        f = db.fn('joedb::Abstract_File::' + name, 0)
        ctx.use(f)
        for m, mv in modes.items():
            eng = Engine(db, Rule())

            def setup(eng, st, L, vs):
                st.store[fld(L, 'joedb::Abstract_File::mode')] = I(mv)
            vals = {o.v for o in eng.run(f, setup)}
            ctx.require(vals == {I(int(m in want))}, name + ':' + m, f, '%s() is wrong for mode %s' % (name, m), '%s(%s) = %d' % (name, m, m in want))
    # ---- lock primitives
    this = ('this',)
    fd = ('rd', fld(this, 'joedb::Posix_FD::fd'), 0)
    for name, types, kinds in (('shared_lock', RDLCK, SETLKW), ('exclusive_lock', WRLCK, SETLKW), ('try_exclusive_lock', WRLCK, SETLK), ('unlock', UNLCK, SETLK + SETLKW)):
        f = db.fn('joedb::Posix_FD::' + name, 2)
        ctx.use(f)
        eng = Engine(db, OpenRule())
        for o in eng.run(f, None):
            if o.k == T:
                continue
            cs = [x for x in o.st.ev if x[0] == 'fcntl']
            good = cs and all(x[1] in kinds and x[2] == types and x[3] == I(0) and x[4] == ('arg', f['ps'][0]['n']) and x[5] == ('arg', f['ps'][1]['n']) and x[6] == fd for x in cs)
            ctx.require(good, 'lock:' + name, f, 'Posix_FD::%s does not request exactly the given byte range with the right lock type' % name, '%s: exact range' % name, trace(o.st.ev))
            if name == 'try_exclusive_lock':
                ctx.require(const(o.v) is not None and bool(const(o.v)) == (cs[-1][7] == 1), 'lock:try', f, 'try_exclusive_lock does not say whether the lock was obtained', None, trace(o.st.ev))
    # ---- the named bytes
    for a, b, pos in (('exclusive_lock_tail', 'unlock_tail', LAST), ('exclusive_lock_head', 'unlock_head', 0), ('shared_lock_head', 'unlock_head', 0)):
        for nm in (a, b):
            f = db.fn('joedb::Abstract_File::' + nm, 0)
            ctx.use(f)
            eng = Engine(db, FileRule())
            for o in eng.run(f, None):
                if o.k == T:
                    continue
                es = [x for x in o.st.ev if x[0] in ('lock', 'unlock')]
                k = 'u' if nm.startswith('un') else nm[0] if nm[0] == 's' else 'x'
                ok = len(es) == 1 and (es[0][0] == 'unlock' and es[0][1] == I(pos) if k == 'u' else es[0][0] == 'lock' and es[0][1] == ('x' if k == 'x' else 's') and es[0][2] == I(pos))
                ctx.require(ok, 'bytes:' + nm, f, '%s does not (un)lock byte %d' % (nm, pos), '%s: byte %d' % (nm, pos), trace(o.st.ev))

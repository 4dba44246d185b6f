"""Content checks of connections, and connections to a local journal."""
from jsa.runner import check
from jsa.induct import InductRule, run_inductive
from jsa.engine import Engine
from jsa.corpus import AnalysisError
from jsa.linear import Lin
from .common import *
from .buffers import plus, minus, addr
from .concurrency import same, term_has, LOG, SRV, BUFFER, SS

PJC = 'joedb::Pullonly_Journal_Connection'
JC = 'joedb::Journal_Connection'
SC = 'joedb::Server_Connection'
AF = 'joedb::Abstract_File'


def bareL(v):
    L = v[1] if isinstance(v, tuple) and v and v[0] == 'loc' else v
    while isinstance(L, tuple) and L and L[0] == 'refto':
        L = L[1]
    return L


class HandshakeRule(Rule):
    """handshakes: what is compared, over which interval, and what is done with the result"""
    merge = False
    max_states = 20000
    prefix = ()

    def inline(self, eng, f):
        n = f['n']
        return n.startswith(self.prefix) and not n.endswith(('::log', '::content_mismatch')) or 'lambda' in n

    def models(self, name):
        return name.startswith(('joedb::Readonly_Journal', 'joedb::Writable_Journal', 'joedb::Channel', 'joedb::Journal_Hasher', 'joedb::Buffer', 'joedb::Lock', 'joedb::Connection'))

    def may_throw(self, eng, name, node):
        return False

    def on_ctor(self, eng, st, node, cls, L, args):
        c = cls.replace('const ', '')
        if c.startswith(('beman::', 'joedb::Lock', 'std::basic_string')):
            return [(st, ('obj', L))]
        return None

    def on_await(self, eng, st, v, node):
        return [(st.copy(), v)]

    def on_call(self, eng, st, call, obj, vs, e):
        n = call['n']
        m = n.rsplit('::', 1)[-1]
        l = e.get('l', 0)
        if m == 'get_checkpoint' and obj is not None:
            return [(st, ('checkpoint', bareL(obj)))]
        if m == 'content_mismatch':
            st.ev += (('mismatch', l),)
            eng.thrown[-1].append((st.copy(), ('exc', 'joedb::Content_Mismatch', None)))
            return []
        if m == 'equal_to':
            out = []
            for b in (1, 0):
                z = st.copy()
                z.ev += (('equal', bareL(obj), bareL(vs[0]), eng.value(st, vs[1]), eng.value(st, vs[2]), b, l),)
                out.append((z, I(b)))
            return out
        if n.startswith('joedb::Journal_Hasher::'):
            v = ('hash', m, bareL(vs[0]), eng.value(st, vs[1]))
            st.ev += (('hash', m, bareL(vs[0]), eng.value(st, vs[1]), st.copy(), l),)
            return [(st, v)]
        if n.startswith('joedb::Lock<') and m.startswith('operator'):
            return [(st, ('loc', ('channel',)))]
        if n.startswith('joedb::Buffer<'):
            if m == 'read':
                st.ctr += 1
                return [(st, ('in', st.ctr, e.get('ta')))]
            if m == 'write':
                st.ev += (('put', eng.value(st, vs[0]), l),)
                return [(st, ('void',))]
        if n == 'joedb::Channel::read' and vs[0][0] == 'loc':
            L = vs[0][1]
            st.ev += (('reply', l),)
            st.store[('idx', L[1], I(0)) if L[0] == 'elem0' else bareL(vs[0])] = ('reply',)
            return [(st, ('void',))]
        if m in ('read_buffer', 'write_buffer'):
            st.ev += ((m, st.store.get(('idx', DATA0, I(0))), l),)
            if m == 'write_buffer':
                st.store[('ghost', 'answer')] = st.store.get(('idx', DATA0, I(0)), ('request',))
            return [(st, ('any',))]
        if m == 'get_server':
            return [(st, ('loc', SRV))]
        if m == 'get_journal':
            return [(st, ('loc', ('journal', 'server')))]
        if m == 'handshake':
            a = tuple(same(eng, st, v) for v in vs)
            st.ev += (('handshake', a, l),)
            return [(st, ('checked',))]
        if n.startswith(('std::operator==', 'std::operator!=')) and len(vs) == 2:
            a, b = (eng.value(st, v) for v in vs)
            if {a[0], b[0]} == {'hash', 'in'} or 'hash' in (a[0], b[0]):
                out = []
                for eq in (1, 0):
                    z = st.copy()
                    z.ev += (('compare', a if a[0] == 'hash' else b, eq, l),)
                    out.append((z, I(eq if m == 'operator==' else 1 - eq)))
                return out
        return None


DATA0 = ('fld', BUFFER, 'joedb::Buffer::data')


def has_all(t, xs):
    return isinstance(t, tuple) and t and t[0] == 'min' and set(xs) <= set(t[1:])


@check('C10', parts=('src', 'gen'), floor=60,
       rule='every handshake interpreted with every outcome of each comparison: the compared intervals against the two checkpoints (linear arithmetic), the algorithm against the requested check, the answer and the result against the outcome; Abstract_File::equal_to: the compared prefix tracked inductively through its loops with arbitrary short reads; every client constructor: one handshake with the check of the caller',
       trusted=['memcmp; SHA-256 has no collision', 'integers do not wrap'])
def c10(ctx):
    db = ctx.db
    HDR = db.globals['joedb::Header::ssize']['e']['v']
    checks = dict(db.enum('joedb::Content_Check')['items'])
    ctx.require(db.is_a('joedb::Content_Mismatch', 'joedb::Disconnection'), 'mismatch:class', None, 'a content mismatch is not a Disconnection: a robust connection would try again for ever')
    for f in db.fns('joedb::Connection::content_mismatch'):
        ctx.use(f)
        outs = Engine(db, Rule()).run(f, None, f['cls'])
        ctx.require(outs and all(o.k == T and o.v[1] == 'joedb::Content_Mismatch' for o in outs), 'mismatch:throws', f, 'content_mismatch() does not throw Content_Mismatch')

    # local journal
    f = db.fn(PJC + '::handshake')
    for check_name, cv in checks.items():
        rule = HandshakeRule()
        rule.prefix = (PJC + '::',)
        eng = Engine(db, rule)
        given = []

        def setup(eng, st, L, vs):
            given[:] = vs
        outs = eng.run(f, setup, f['cls'], args={1: I(cv)})
        ctx.use(f)
        ctx.use_engine(eng)
        client = ('checkpoint', bareL(given[0]))
        passed = 0
        for o in outs:
            ev = flat(o.st.ev)
            tr = trace(o.st.ev)
            eq = [x for x in ev if x[0] == 'equal']
            lin = Lin(eng, o.st, lambda t: False)
            if o.k == T:
                ctx.require(any(not x[5] for x in eq), 'local:%s:refuses' % check_name, f, 'a file with the same content is refused', trace=tr)
                continue
            passed += 1
            ctx.require(all(x[5] for x in eq), 'local:%s:ignored' % check_name, f, 'a difference of content is ignored', trace=tr)
            v = eng.value(o.st, o.v)
            ctx.require(v[0] == 'checkpoint' and v != client, 'local:result', f, 'the handshake does not return the checkpoint of the server', trace=tr)
            if check_name == 'none':
                continue
            server = v
            mins = [x[4] for x in eq if has_all(x[4], (server, client))]
            ctx.require(all({x[1], x[2]} == {client[1], server[1]} for x in eq), 'local:files', f, 'the files compared are not those of the client and the server', trace=tr)
            m = mins[0] if mins else None
            ctx.require(m is not None, 'local:%s:end' % check_name, f, 'the content is not compared up to the end of what the two files have in common: %s' % [term(x[4]) for x in eq], trace=tr)
            ctx.require(any(lin.le(x[3], I(HDR)) for x in eq), 'local:%s:start' % check_name, f, 'the content is not compared from the start', trace=tr)
            if m is None:
                continue
            for x in eq:
                ctx.require(lin.le(x[4], m), 'local:%s:beyond' % check_name, f, 'bytes after the smallest checkpoint (%s) are compared: they may legitimately differ' % term(x[4]), trace=tr)
                ctx.require(lin.le(I(HDR), x[3]), 'local:%s:header' % check_name, f, 'the headers (%s) are compared: they may legitimately differ' % term(x[3]), trace=tr)
            if check_name == 'full':
                ctx.require(any(lin.le(x[3], I(HDR)) and lin.le(m, x[4]) for x in eq), 'local:full:all', f, 'a full check does not compare everything', trace=tr)
            elif len(eq) > 1:
                ctx.require(all(lin.le(plus(x[3], I(1)), x[4]) for x in eq), 'local:fast:empty', f, 'an interval may be empty', trace=tr)
        ctx.require(passed, 'local:%s:never' % check_name, f, 'the handshake never succeeds')

    # remote journal, client side
    f = db.fn(SC + '::handshake')
    for check_name, cv in checks.items():
        rule = HandshakeRule()
        rule.prefix = (SC + '::', 'joedb::Server_Client::')
        eng = Engine(db, rule)

        def setup(eng, st, L, vs):
            given[:] = vs
            st.store[LOG] = I(0)
        outs = eng.run(f, setup, f['cls'], args={1: I(cv)})
        ctx.use(f)
        ctx.use_engine(eng)
        client = ('checkpoint', bareL(given[0]))
        for o in outs:
            ev = flat(o.st.ev)
            tr = trace(o.st.ev)
            no = ('op', '==', ('reply',), I(ord('h')))
            if o.k == T:
                ctx.require(any(x[0] == 'mismatch' for x in ev) and eng.decide(o.st, no) is True, 'remote:%s:refuses' % check_name, f, 'the client refuses a file that the server accepted', trace=tr)
                continue
            v = eng.value(o.st, o.v)
            ctx.require(term_has(v, 'joedb::Server_Client::server_checkpoint'), 'remote:result', f, 'the handshake does not return the checkpoint of the server', trace=tr)
            if check_name == 'none':
                continue
            ctx.require(any(x[0] == 'reply' for x in ev) and eng.decide(o.st, no) is False, 'remote:%s:ignored' % check_name, f, 'the client ignores a mismatch reported by the server', trace=tr)
            h = [x for x in ev if x[0] == 'hash']
            ok = h and all(x[2] == client[1] and has_all(x[3], (client, v)) for x in h)
            ctx.require(ok, 'remote:%s:checkpoint' % check_name, f, 'the hash does not cover what the two files have in common: %s' % [term(x[3]) for x in h], trace=tr)
            want = 'get_full_hash' if check_name == 'full' else 'get_fast_hash'
            ctx.require(h and all(x[1] == want for x in h), 'remote:%s:algorithm' % check_name, f, 'the hash is not the one of a %s check' % check_name, trace=tr)
            ctx.require(h and any(x[0] == 'put' and x[1][:1] == ('hash',) for x in ev), 'remote:%s:sent' % check_name, f, 'the hash is not sent', trace=tr)

    # remote journal, server side
    f = db.fn(SS + 'check_hash')
    rule = HandshakeRule()
    rule.prefix = (SS,)
    eng = Engine(db, rule)
    for code, algo in ((ord('H'), 'get_fast_hash'), (ord('I'), 'get_full_hash')):
        def setup(eng, st, L, vs):
            st.store[LOG] = I(0)
            st.store[('idx', DATA0, I(0))] = I(code)
        outs = eng.run(f, setup, f['cls'])
        ctx.use(f)
        ctx.use_engine(eng)
        seen = set()
        for o in outs:
            if o.k == T:
                continue
            ev = flat(o.st.ev)
            tr = trace(o.st.ev)
            a = o.st.store.get(('ghost', 'answer'))
            cmp = [x for x in ev if x[0] == 'compare']
            h = [x for x in ev if x[0] == 'hash']
            same_ = bool(cmp) and all(x[2] for x in cmp)
            seen.add(same_)
            c = a[1] if a and is_int(a) else None
            ctx.require(c is not None and (c == ord('h')) is (not same_), 'server:answer', f, 'the server answers %s when the hashes %s' % (c and chr(c), 'agree' if same_ else 'differ'), trace=tr)
            lin = Lin(eng, o.st, lambda t: False)
            cp = ('checkpoint', ('journal', 'server'))
            for x in h:
                ctx.require(x[1] == algo, 'server:algorithm', f, 'the hash of code %s is computed by %s' % (chr(code), x[1]), trace=tr)
                ctx.require(x[3][0] == 'in' and Lin(eng, x[4], lambda t: False).le(x[3], cp), 'server:beyond', f, 'the hash covers bytes after the checkpoint of the server', trace=tr)
        ctx.require(seen == {True, False}, 'server:compare', f, 'the hash of the client is not compared')

    # the intervals of the hashes
    for n in ('get_fast_hash', 'get_full_hash'):
        f = db.fn('joedb::Journal_Hasher::' + n)
        ctx.use(f)
        rule = IntervalRule()
        eng = Engine(db, rule)
        outs = eng.run(f, None, f['cls'])
        for o in outs:
            if o.k == T:
                continue
            h = [x for x in flat(o.st.ev) if x[0] == 'hashed']
            want = minus(('arg', f['ps'][1]['n']), I(HDR))
            ctx.require(len(h) == 1 and h[0][2] == I(HDR) and h[0][3] == want, 'hasher:' + n, f, 'the hash of a journal does not cover exactly what follows its header, up to the checkpoint', trace=trace(o.st.ev))
            ctx.require(h and h[0][1] == {'get_fast_hash': 'get_fast_hash', 'get_full_hash': 'get_hash'}[n], 'hasher:%s:which' % n, f, 'the wrong hash is computed', trace=trace(o.st.ev))

    equal_to(ctx, db)
    constructors(ctx, db)


class IntervalRule(Rule):
    merge = False
    def inline(self, eng, f):
        return False

    def may_throw(self, eng, name, node):
        return False

    def on_call(self, eng, st, call, obj, vs, e):
        if call['n'].startswith('joedb::File_Hasher::') and len(vs) == 3:
            st.ev += (('hashed', call['n'].rsplit('::', 1)[-1], eng.value(st, vs[1]), eng.value(st, vs[2]), e.get('l', 0)),)
            return [(st, ('hash',))]
        return None


OK = ('ghost', 'len', 'ok')


class EqualRule(InductRule):
    """Abstract_File::equal_to: ghost 'ok' = size of the prefix known to be equal"""
    max_states = 20000

    def __init__(self, start):
        super().__init__()
        self.start = start
        self.moved = {}

    def invariants(self, eng, b, e):
        return set()

    def candidates(self, eng, loop, b, e):
        out = set()
        for L, v0, v in self.locs(eng, b, e):
            for M, w0, w in self.locs(eng, b, e):
                if L != M:
                    out.add((L, M))
        return out

    def inline(self, eng, f):
        return f['n'].startswith('joedb::Default_Buffer')

    def models(self, name):
        return name.startswith(AF)

    def may_throw(self, eng, name, node):
        return False

    def term_nonneg(self, t):
        return isinstance(t, tuple) and bool(t) and t[0] in ('iter', 'preadn')

    def entail(self, eng, st):
        return Lin(eng, st, self.term_nonneg)

    def on_iter(self, eng, loop, b, e):
        k = self.lid(eng, loop)
        for K in e.store:
            if K[:3] == ('ghost', 'len', 'fill'):
                if b.store.get(('ghost', 'outer')) == id(loop):
                    b.store[K] = e.store[K]            # forgotten at the next iteration
                else:
                    b.store.setdefault(K, I(0))        # nothing was read into that buffer yet
        moved = {K for K, v in e.store.items() if K[:2] == ('ghost', 'len') and b.store.get(K) != v}
        if not moved <= self.moved.get(k, set()):
            self.moved[k] = self.moved.get(k, set()) | moved
            self.changed = True
        super().on_iter(eng, loop, b, e)

    def on_loop_head(self, eng, loop, before, z):
        for K in sorted(self.moved.get(self.lid(eng, loop), ()), key=repr):
            before.store.setdefault(K, I(0))
            z.ctr += 1
            z.store[K] = ('len', K[2:], z.ctr)
        super().on_loop_head(eng, loop, before, z)
        if z.store.get(('ghost', 'outer'), id(loop)) == id(loop):
            # each iteration of the outer loop starts with what it reads itself
            z.store[('ghost', 'outer')] = id(loop)
            for K in list(z.store):
                if K[:2] == ('ghost', 'base'):
                    del z.store[K]
                elif K[:3] == ('ghost', 'len', 'fill'):
                    z.store[K] = I(0)

    def on_ctor(self, eng, st, node, cls, L, args):
        if 'Buffer' in cls:
            st.store[('ghost', 'base', L)] = None
            st.store[('ghost', 'len', 'fill', L)] = I(0)
            return [(st, ('obj', L))]
        return None

    def on_call(self, eng, st, call, obj, vs, e):
        n = call['n']
        m = n.rsplit('::', 1)[-1]
        l = e.get('l', 0)
        if m in ('data', 'begin') and obj is not None and not n.startswith('joedb::Readonly'):
            return [(st, ('loc', ('elem0', bareL(obj))))]
        if m == 'pread' and len(vs) == 3:
            who = 'this' if obj in (None, ('this',)) else bareL(obj)
            size = eng.value(st, vs[1])
            off = eng.value(st, vs[2])
            b, o = addr(vs[0])
            st.ctr += 1
            t = ('preadn', st.ctr)
            eng.set_bound(st, t, lo=0)
            st.facts[('op', '<', size, t)] = False
            eng.touch(st, b, 'read%d' % st.ctr)
            E = self.entail(eng, st)
            fill = ('ghost', 'len', 'fill', b)
            base = ('ghost', 'base', b)
            if E.eq(o, I(0)):
                st.store[base] = (who, off)
                st.store[fill] = t
            elif E.eq(o, st.store.get(fill, I(0))) and (not st.store.get(base) or (st.store[base][0] == who and E.eq(off, plus(st.store[base][1], o)))):
                st.store[base] = (who, minus(off, o))
                st.store[fill] = plus(st.store.get(fill, I(0)), t)
            else:
                self.ob(False, 'place', 'bytes are read at %s of a buffer that holds %s' % (term(o), term(st.store.get(fill, I(0)))), l)
                st.store[fill] = plus(st.store.get(fill, I(0)), t)
                if not self.learning:
                    st.store[base] = None
            st.ev += (('pread', who, o, size, off, l),)
            return [(st, t)]
        if m == 'memcmp' or (m == 'equal' and n.startswith('std::')):
            if m == 'memcmp':
                (a, ao), (b, bo) = addr(vs[0]), addr(vs[1])
                size = eng.value(st, vs[2])
            else:
                return None
            E = self.entail(eng, st)
            A, B = st.store.get(('ghost', 'base', a)), st.store.get(('ghost', 'base', b))
            ok = A and B and A[0] != B[0] and 'this' in (A[0], B[0]) and E.eq(A[1], B[1]) and E.eq(ao, I(0)) and E.eq(bo, I(0)) \
                and E.le(size, st.store[('ghost', 'len', 'fill', a)]) and E.le(size, st.store[('ghost', 'len', 'fill', b)]) and E.eq(A[1], plus(self.start, st.store[OK]))
            self.ob(ok, 'compared', 'the bytes compared (%s of %s) are not the next ones of both files' % (term(size), term(A[1]) if A else '?'), l)
            z = st.copy()
            z.ev += (('differs', l),)
            st.store[OK] = plus(st.store[OK], size)
            st.ev += (('same', l),)
            return [(st, I(0)), (z, I(1))]
        if m == 'reading_past_end_of_file':
            eng.thrown[-1].append((st.copy(), ('exc', 'joedb::Exception', None)))
            return []
        return None

    def ob(self, ok, key, what, line):
        if not self.learning:
            self.obl.append((bool(ok), key, what, line))


def equal_to(ctx, db):
    f = db.fn(AF + '::equal_to')
    ps = [p['n'] for p in f['ps']]
    start, end = ('arg', ps[1]), ('arg', ps[2])
    rule = EqualRule(start)

    def setup(eng, st, L, vs):
        st.store[OK] = I(0)
        eng.set_bound(st, start, lo=0)
    eng, outs = run_inductive(lambda r: Engine(db, r), rule, lambda en: en.run(f, setup, f['cls']))
    ctx.use(f)
    ctx.use_engine(eng)
    for ok, key, what, line in rule.obl:
        ctx.require(ok, 'equal_to:' + key, dict(f, l=line), what)
    seen = set()
    for o in outs:
        if o.k == T:
            continue
        ev = flat(o.st.ev)
        tr = trace(o.st.ev)
        b = eng.decide(o.st, o.v)
        seen.add(b)
        E = rule.entail(eng, o.st)
        if b is not False:
            ctx.require(E.le(end, plus(start, o.st.store[OK])), 'equal_to:true', f, 'files are said to be equal though only %s bytes from %s were compared' % (term(o.st.store[OK]), term(start)), trace=tr)
        if b is not True:
            if any(isinstance(k, tuple) and k[0] in ('op', 'nz') and ((k[0] == 'op' and k[1] == '==' and v is False and E.eq(k[2], k[3])) or (k[0] == 'nz' and v and E.eq(k[1], I(0)))) for k, v in o.st.facts.items()):
                continue                            # impossible path
            fills = [v for K, v in o.st.store.items() if K[:3] == ('ghost', 'len', 'fill')]
            short = len(fills) == 2 and not E.eq(fills[0], fills[1])
            last = ev[-1][0] if ev else None
            ctx.require(last == 'differs' or short, 'equal_to:false', f, 'files are said to differ though no difference was found', trace=tr)
    ctx.require({True, False} <= seen, 'equal_to:results', f, 'equal_to always returns the same result')
    for f in db.fns('joedb::Readonly_Journal::equal_to'):
        ctx.use(f)
        calls = [x for x in walk(f['body']) if x.get('k') == 'call' and x['n'].endswith('::equal_to')]
        ctx.require(len(calls) == 1, 'equal_to:journal', f, 'the journals are not compared')


class CtorRule(HandshakeRule):
    def __init__(self, classes):
        super().__init__()
        self.classes = classes

    def inline(self, eng, f):
        return f.get('kind') == 'ctor' and f.get('cls') in self.classes

    def on_ctor(self, eng, st, node, cls, L, args):
        c = cls.replace('const ', '')
        if c in self.classes:
            return None
        return [(st, ('obj', L))]

    def on_call(self, eng, st, call, obj, vs, e):
        if call['n'].endswith('::handshake'):
            return super().on_call(eng, st, call, obj, vs, e)
        m = call['n'].rsplit('::', 1)[-1]
        if m in ('pull', 'push', 'pull_from', 'push_if_ahead', 'read_journal', 'play_until_checkpoint'):
            st.ev += ((m, e.get('l', 0)),)
        return None


def constructors(ctx, db):
    classes = {c for c in db.classes if c == 'joedb::Client' or db.is_a(c, 'joedb::Client')}
    n = 0
    for f in sorted(db.functions.values(), key=lambda f: f['key']):
        if f.get('cls') not in classes or not f.get('body') or f['n'].rsplit('::', 1)[-1].split('<')[0] != f['cls'].split('<')[0].rsplit('::', 1)[-1]:
            continue
        cc = [p for p in f['ps'] if p['t'].endswith('Content_Check')]
        if not cc:
            continue
        n += 1
        rule = CtorRule(classes)
        eng = Engine(db, rule)
        outs = eng.run(f, None, f['cls'])
        ctx.use(f)
        ctx.use_engine(eng)
        for o in outs:
            if o.k == T:
                continue
            ev = flat(o.st.ev)
            hs = [x for x in ev if x[0] == 'handshake']
            tr = trace(o.st.ev)
            ctx.require(len(hs) == 1, 'client:%s:handshake' % f['cls'], f, '%d handshakes are done when a client is made' % len(hs), trace=tr)
            if hs:
                ctx.require(hs[0][1][1] == ('arg', cc[0]['n']), 'client:%s:check' % f['cls'], f, 'the handshake is done with %s instead of the check of the caller' % term(hs[0][1][1]), trace=tr)
                before = [x for x in ev[:ev.index(hs[0])] if x[0] in ('pull', 'push', 'pull_from', 'push_if_ahead')]
                ctx.require(not before, 'client:%s:early' % f['cls'], f, 'the connection is used before the handshake', trace=tr)
    ctx.require(n >= 4, 'client:none', None, 'the constructors of clients do not take a content check')


class LocalRule(Rule):
    """operations on a local journal: order of events, and what is asked of the journals"""
    merge = False
    max_states = 20000

    def inline(self, eng, f):
        return f['n'].startswith((PJC + '::', JC + '::', 'joedb::Connection::', 'joedb::Client::')) or 'lambda' in f['n']

    def models(self, name):
        return name.startswith(('joedb::Readonly_Journal', 'joedb::Writable_Journal'))

    def may_throw(self, eng, name, node):
        return False

    def on_call(self, eng, st, call, obj, vs, e):
        n = call['n']
        m = n.rsplit('::', 1)[-1]
        l = e.get('l', 0)
        if n.startswith(('joedb::Readonly_Journal::', 'joedb::Writable_Journal::', 'joedb::Abstract_File::')) or (obj is not None and m in ('pull', 'lock_pull', 'pull_from')):
            J = bareL(obj) if obj is not None else None
            if m == 'get_checkpoint':
                return [(st, ('checkpoint', J, st.store.get(('ghost', 'era', J), 0)))]
            a = tuple(same(eng, st, v) for v in vs)
            st.ctr += 1
            st.store[('ghost', 'era', J)] = st.ctr
            st.ev += ((m, J, a, l),)
            if m not in ('unlock',):
                z = st.copy()
                eng.thrown[-1].append((z, ('exc', '?', None)))
            if m in ('pull', 'lock_pull', 'pull_from'):
                return [(st, ('checkpoint', J, st.ctr))]
            return [(st, ('any', st.ctr))]
        return None


SJ = PJC + '::server_journal'


@check('C11', parts=('src', 'gen'), floor=40,
       rule='every method of the connections to a local journal interpreted for each combination of actions: operations on both journals in order, with the version of the checkpoint returned; every connection class: it is announced as pull-only if and only if it never pushes, through the server to remote clients')
def c11(ctx):
    db = ctx.db
    lock = dict(db.enum('joedb::Lock_Action')['items'])
    data = dict(db.enum('joedb::Data_Transfer')['items'])
    ctx.require(lock['no_locking'] == 0 and lock['lock_before'] != 0 and data['without_data'] == 0 and data['with_data'] != 0, 'enums', None, 'the value of an action is the opposite of what its conversion to bool means')
    server = ('fld', ('this',), SJ)

    def run(f, rule, args=None):
        given = []

        def setup(eng, st, L, vs):
            given[:] = vs
        eng = Engine(db, rule)
        outs = eng.run(f, setup, f['cls'], args=args)
        ctx.use(f)
        ctx.use_engine(eng)
        return eng, outs, [bareL(v) for v in given]

    for cls in (PJC, JC):
        f = db.fn(cls + '::pull')
        for la in lock:
            for dt in data:
                eng, outs, given = run(f, LocalRule(), {0: I(lock[la]), 1: I(data[dt])})
                key = 'pull:%s:%s:%s' % (cls.rsplit('::', 1)[-1], la, dt)
                returned = 0
                for o in outs:
                    ev = [x for x in flat(o.st.ev) if len(x) == 4]
                    tr = trace(o.st.ev)
                    if o.k == T and ev and o.v[1] == '?':
                        continue                        # failure of a journal
                    if cls == PJC and lock[la]:
                        ctx.require(o.k == T and not ev, key + ':locks', f, 'a read-only journal is locked, or pulled before a request to lock it is refused', trace=tr)
                        continue
                    returned += o.k == R
                    ctx.require(o.k == R, key + ':fails', f, 'a valid pull is refused', trace=tr)
                    if o.k != R:
                        continue
                    want = ('lock_pull' if lock[la] else 'pull', server)
                    ctx.require(ev and ev[0][:2] == want and sum(x[0] in ('pull', 'lock_pull') for x in ev) == 1, key + ':pull', f, 'the first operation is not %s() on the journal of the server: %s' % (want[0], [x[0] for x in ev]), trace=tr)
                    rest = ev[1:]
                    ok = not rest
                    if data[dt]:
                        ok = len(rest) == 1 and rest[0][:2] == ('pull_from', given[2]) and bareL(rest[0][2][0]) == server and all(x[:2] == ('checkpoint', server) for x in rest[0][2][1:])
                    ctx.require(ok, key + ':data', f, 'data is %s' % ('not transferred from the server to the client' if data[dt] else 'transferred though it was not requested'), trace=tr)
                    v = eng.value(o.st, o.v)
                    ctx.require(v == ('checkpoint', server, o.st.store.get(('ghost', 'era', server), 0)), key + ':result', f, 'the value returned is not the checkpoint of the server after the pull: %s' % term(v), trace=tr)
                if not (cls == PJC and lock[la]):
                    ctx.require(returned, key + ':never', f, 'the pull never succeeds')

    f = db.fn(PJC + '::push')
    eng, outs, given = run(f, LocalRule())
    for o in outs:
        ctx.require(o.k == T and not flat(o.st.ev), 'push:readonly', f, 'a push to a read-only journal does something', trace=trace(o.st.ev))

    f = db.fn(JC + '::push')
    eng, outs, given = run(f, LocalRule())
    frm, until = ('arg', f['ps'][1]['n']), ('arg', f['ps'][2]['n'])
    before = ('checkpoint', server, 0)
    pushed = refused = 0
    for o in outs:
        ev = [x for x in flat(o.st.ev) if len(x) == 4]
        tr = trace(o.st.ev)
        eq = eng.decide(o.st, ('op', '==', frm, before))
        if eq is None:
            eq = eng.decide(o.st, ('op', '==', before, frm))
        if o.k == T and not ev:
            refused += 1
            ctx.require(eq is False, 'push:refused', f, 'a push that starts at the checkpoint of the server is refused', trace=tr)
            continue
        ctx.require(eq is True, 'push:conflict', f, 'data is written though the push does not start at the checkpoint of the server', trace=tr)
        ctx.require(len(ev) >= 1 and ev[0][0] == 'pull_from' and ev[0][1] == server and bareL(ev[0][2][0]) == given[0] and ev[0][2][1:] == (until,) and all(x[0] != 'pull_from' for x in ev[1:]), 'push:data', f, 'the data pushed is not what the client has up to `until`: %s' % [(x[0], [term(y) for y in x[2]]) for x in ev], trace=tr)
        if o.k == T:
            continue
        pushed += 1
        v = eng.value(o.st, o.v)
        ctx.require(v == ('checkpoint', server, o.st.store.get(('ghost', 'era', server), 0)), 'push:result', f, 'the value returned is not the checkpoint of the server after the push', trace=tr)
    ctx.require(pushed and refused, 'push:both', f, 'pushes are always refused, or never')

    f = db.fn(JC + '::unlock')
    eng, outs, given = run(f, LocalRule())
    for o in outs:
        ctx.require(any(x[:2] == ('unlock', server) for x in flat(o.st.ev)), 'unlock', f, 'unlock() does not unlock the journal', trace=trace(o.st.ev))
    f = [f for f in db.functions.values() if f.get('cls') == JC and f.get('kind') == 'dtor']
    ctx.require(f, 'unlock:destructor', None, 'the journal is not unlocked when the connection is destroyed')
    for f in f:
        eng, outs, given = run(f, LocalRule())
        for o in outs:
            ctx.require(o.k != T and any(x[:2] == ('unlock', server) for x in flat(o.st.ev)), 'unlock:destructor', f, 'the journal is not unlocked when the connection is destroyed', trace=trace(o.st.ev))

    # Client::push: from the checkpoint of the connection, never beyond the journal
    n = 0
    for f in db.fns('joedb::Client::push'):
        if len(f['ps']) != 2:
            continue
        n += 1
        rule = ClientRule()
        eng, outs, given = run(f, rule)
        for o in outs:
            ev = [x for x in flat(o.st.ev) if x[0] == 'push']
            tr = trace(o.st.ev)
            ctx.require(len(ev) == 1, 'client:push', f, '%d pushes' % len(ev), trace=tr)
            if len(ev) != 1:
                continue
            a, cp, entry = ev[0][1], ev[0][2], ev[0][3]
            lin = Lin(eng, ev[0][4], lambda t: False)
            ctx.require(a[1] == entry, 'client:from', f, 'the push does not start at the checkpoint of the connection: %s' % term(a[1]), trace=tr)
            arg = ('arg', f['ps'][0]['n'])
            ctx.require(lin.le(a[2], arg), 'client:until', f, 'more is pushed than requested: %s' % term(a[2]), trace=tr)
            ctx.require(lin.le(a[2], cp), 'client:beyond', f, 'bytes after the checkpoint of the journal are pushed: %s' % term(a[2]), trace=tr)
            if o.k != T:
                ctx.require(eng.value(o.st, ('loc', CCP)) == ('pushed',) or o.st.store.get(CCP) == ('pushed',), 'client:checkpoint', f, 'the checkpoint of the connection is not updated with the result of the push', trace=tr)
            else:
                ctx.require(CCP not in o.st.store or o.st.store[CCP] == entry, 'client:failed', f, 'the checkpoint of the connection changes though the push failed', trace=tr)
    ctx.require(n, 'client:none', None, 'Client::push not found')

    # who is pull-only
    for cls in sorted(c for c in db.classes if db.is_a(c, 'joedb::Connection')):
        pushes = db.resolve_virtual(db.fn('joedb::Connection::push')['key'], cls)
        fk = db.resolve_virtual(db.fn('joedb::Connection::is_pullonly')['key'], cls)
        p, q = db.functions.get(pushes), db.functions.get(fk)
        if not p or not q:
            raise AnalysisError('push or is_pullonly of %s not found' % cls)
        ctx.use(q)
        name = cls.rsplit('::', 1)[-1]
        outs = Engine(db, AnyRule()).run(p, None, cls)
        never = bool(outs) and all(o.k == T for o in outs)
        eng = Engine(db, AnyRule())
        res = {repr(eng.decide(o.st, o.v)) for o in eng.run(q, None, cls) if o.k == R}
        delegates = any(x.get('k') == 'call' and x['n'].endswith('::is_pullonly') for x in walk(q['body']))
        if never:
            ctx.require(res == {'True'}, 'pullonly:' + name, q, '%s never pushes, but is not pull-only' % name)
        else:
            ctx.require('True' not in res, 'pullonly:' + name, q, '%s can push, but says that it is pull-only' % name)
            if not delegates:
                rd = {x.get('n') for x in walk(q['body']) if x.get('k') == 'mem'}
                ctx.require(res == {'False'} or rd, 'pullonly:%s:unknown' % name, q, 'is_pullonly() depends on nothing')
    for f in (db.fn('joedb::Client::is_pullonly'), db.fn('joedb::Robust_Connection::is_pullonly')):
        ctx.use(f)
        eng = Engine(db, AskRule())
        for o in eng.run(f, None, f['cls']):
            if o.k == R:
                ctx.require(eng.value(o.st, o.v) == ('pullonly',), 'pullonly:' + f['cls'], f, 'the answer is not the one of the connection', trace=trace(o.st.ev))

    # announced by the server
    f = db.fn(SS + 'handshake')
    rule = AnnounceRule()
    eng, outs, _ = run(f, rule)
    modes = set()
    for o in outs:
        if o.k == T:
            continue
        puts = [x[1] for x in flat(o.st.ev) if x[0] == 'put']
        tr = trace(o.st.ev)
        w = eng.decide(o.st, ('pullonly',))
        c = puts[-1] if puts else None
        ok = c and is_int(c) and c[1] in (ord('R'), ord('W'))
        ctx.require(ok, 'announce:mode', f, 'the mode sent is %s' % (c and term(c)), trace=tr)
        if not ok:
            continue
        modes.add(chr(c[1]))
        hasw = next((int(v) if k[0] == 'nz' else int(not v) for k, v in o.st.facts.items() if isinstance(k, tuple) and k[0] in ('nz', 'op') and (k[0] == 'nz' or k[1] == '==') and term_has(k, 'joedb::Server::writable_journal_client')), None)
        if c[1] == ord('W'):
            ctx.require(w is False and hasw == 1, 'announce:W', f, 'the server announces that it is writable though its client is not', trace=tr)
        else:
            ctx.require(w is True or hasw == 0, 'announce:R', f, 'the server announces that it is not writable though its client is', trace=tr)
    ctx.require(modes == {'R', 'W'}, 'announce:both', f, 'the server always announces the same mode')
    f = db.fn('joedb::Server_Client::connect')
    rule = AnnounceRule()
    eng, outs, _ = run(f, rule)
    PS = ('fld', ('this',), 'joedb::Server_Client::pullonly_server')
    got = set()
    for o in outs:
        if o.k == T:
            continue
        ins = [x[1] for x in flat(o.st.ev) if x[0] == 'got']
        tr = trace(o.st.ev)
        v = eng.decide(o.st, o.st.store.get(PS, ('any',)))
        is_r = eng.decide(o.st, ('op', '==', ins[-1], I(ord('R')))) if ins else None
        is_w = eng.decide(o.st, ('op', '==', ins[-1], I(ord('W')))) if ins else None
        ctx.require((is_r is True and v is True) or (is_w is True and v is False), 'announce:client', f, 'the client takes mode R=%s W=%s as pull-only=%s' % (is_r, is_w, v), trace=tr)
        got.add(v)
    ctx.require(got == {True, False}, 'announce:client:both', f, 'the client does not obey the mode of the server')
    f = db.fn(SC + '::is_pullonly')
    rd = {x['n'] for x in walk(f['body']) if x.get('k') == 'mem'}
    ctx.require(rd == {'joedb::Server_Client::pullonly_server'} or 'pullonly_server' in {r.rsplit('::', 1)[-1] for r in rd}, 'announce:is_pullonly', f, 'is_pullonly() does not depend on what the server announced')


CCP = ('fld', ('this',), 'joedb::Client::connection_checkpoint')


class ClientRule(LocalRule):
    def on_call(self, eng, st, call, obj, vs, e):
        m = call['n'].rsplit('::', 1)[-1]
        if m == 'push' and len(vs) == 4:
            a = tuple(same(eng, st, v) for v in vs)
            jr = ('checkpoint', bareL(vs[0]), st.store.get(('ghost', 'era', bareL(vs[0])), 0))
            entry = eng.value(st, ('loc', CCP))
            entry = eng.rdv(st, CCP) if entry[0] == 'loc' else entry
            st.ev += (('push', a, jr, entry, st.copy(), e.get('l', 0)),)
            eng.thrown[-1].append((st.copy(), ('exc', '?', None)))
            return [(st, ('pushed',))]
        return super().on_call(eng, st, call, obj, vs, e)


class AnyRule(Rule):
    merge = False
    def inline(self, eng, f):
        return False

    def may_throw(self, eng, name, node):
        return False


class AskRule(AnyRule):
    def on_call(self, eng, st, call, obj, vs, e):
        if call['n'].endswith('::is_pullonly'):
            return [(st, ('pullonly',))]
        return None


class AnnounceRule(HandshakeRule):
    merge = False
    prefix = (SS, 'joedb::Server::', 'joedb::Server_Client::')

    def on_call(self, eng, st, call, obj, vs, e):
        n = call['n']
        m = n.rsplit('::', 1)[-1]
        if m == 'is_pullonly':
            return [(st, ('pullonly',))]
        if n == 'joedb::Channel::read':
            return [(st, ('void',))]
        if n.startswith('joedb::Buffer<') and m == 'read':
            st.ctr += 1
            st.ev += (('got', ('in', st.ctr, e.get('ta')), e.get('l', 0)),)
            return [(st, ('in', st.ctr, e.get('ta')))]
        if m in ('operator==', 'operator!=') and n.startswith('std::'):
            st.ctr += 1
            return [(st, ('cmp', st.ctr))]
        return super().on_call(eng, st, call, obj, vs, e)

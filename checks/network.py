"""Network buffers: whatever the peer sends, memory is accessed within bounds."""
from jsa.runner import check
from jsa.induct import run_inductive
from jsa.engine import lin, lin_add, lin_make
from .common import *
from .buffers import BufRule, plus, minus, addr, array_len

from .concurrency import LOG, SRV, type_size

INB = ('ghost', 'len', 'in')         # bytes received
OUTB = ('ghost', 'len', 'out')       # bytes sent
REM = ('ghost', 'len', 'rem')        # bytes left in the reader
PUTB = ('ghost', 'len', 'put')       # bytes given to the writer
DONE = ('ghost', 'len', 'done')
COUNTERS = (INB, OUTB, REM, PUTB, DONE)
CHANNEL = 'joedb::Channel'
SESSION = 'joedb::asio::Server::Session'


class NetRule(BufRule):
    """as for the file buffer, plus channels, sockets and strings; what is received is arbitrary"""
    def __init__(self, db, owner, caller=None):
        super().__init__(db, 'joedb::Buffer', owner, caller)
        self.len_fields = {}
        self.seen = 0
        self.acct = {}
        self.moved = {}
        self.limit_in = self.limit_out = None
        self.limited = False
        self.message = None
        self.loose = set()

    def inline(self, eng, f):
        if f['n'].startswith('joedb::Buffer<'):
            return True
        n = f['n']
        if n.startswith(('joedb::Async_', 'joedb::Memory_File::pread', 'joedb::Memory_File::pwrite', 'joedb::Channel::', 'joedb::Journal_Hasher')):
            return False
        if f.get('cls') and f.get('cls') in self.classes:
            if touches_network(f):
                return self.limited and f['n'] not in LIMITS
            return uses_buffer(f, self.field)
        return rel(f['file']) in ('src/joedb/journal/Buffer.h', 'src/joedb/journal/Memory_File.h') or 'lambda' in n

    def models(self, name):
        return super().models(name) or name.endswith(('get_server', 'get_log_level')) or name.startswith((CHANNEL, 'joedb::Async_', 'joedb::Lock<', SESSION))

    def invariants(self, eng, b, e):
        out = {(self.index, self.size), (self.index, self.cap)}
        for L, v0, v in self.locs(eng, b, e):
            if L[0] == 'var' and v != v0:
                out.add((L, self.size))
        return out

    def on_loop_head(self, eng, loop, before, z):
        for K in sorted(self.moved.get(self.lid(eng, loop), ()), key=repr):
            z.ctr += 1
            z.store[K] = ('len', K[2], z.ctr)
        super().on_loop_head(eng, loop, before, z)
        # sent + pending + remaining does not change
        for X in sorted(self.acct.get(self.lid(eng, loop), ()), key=repr):
            if X is None or X == self.index or X in before.store:
                z.store[OUTB] = lin_make(lin_add(self.account(eng, before, X), lin_add(self.account(eng, z, X), lin(z.store[OUTB]), -1), -1))
                break

    def account(self, eng, st, X):
        x = lin_add(lin(st.store[OUTB]), lin(st.store[REM]), 1)
        return x if X is None else lin_add(x, lin(eng.rd(st, X)), 1)

    def on_iter(self, eng, loop, b, e):
        k = self.lid(eng, loop)
        moved = {K for K, v in e.store.items() if K[:2] == ('ghost', 'len') and b.store.get(K) != v}
        if not moved <= self.moved.get(k, set()):
            self.moved[k] = self.moved.get(k, set()) | moved
            self.changed = True
        if b.store[OUTB] != e.store[OUTB] or b.store[REM] != e.store[REM]:
            ok = set()
            for X in [None, self.index] + [L for L, v0, v in self.locs(eng, b, e) if L[0] == 'var']:
                if X not in (None, self.index) and (X not in b.store or X not in e.store):
                    continue
                d = lin_add(self.account(eng, e, X), self.account(eng, b, X), -1)
                if not any(d.values()):
                    ok.add(X)
            new = self.acct[k] & ok if k in self.acct else ok
            if self.acct.get(k) != new:
                self.acct[k] = new
                self.changed = True
        super().on_iter(eng, loop, b, e)

    def count(self, eng, st, K, size, line):
        """K counts bytes; never more than announced"""
        new = plus(st.store[K], size)
        st.store[K] = new
        lim = (self.limit_in if K == INB else self.limit_out)
        lim = lim and lim(st)
        if lim is not None:
            E = self.entail(eng, st)
            self.ob(E.le(new, lim), ('in' if K == INB else 'out') + ':too-much', 'after this transfer, %s bytes were transferred, %s announced' % (term(new), term(lim)), line)

    def on_cast(self, eng, st, v, node):
        src = (node.get('e') or {}).get('t', '')
        if node.get('t', '').startswith('unsigned long') and src in ('long', 'int', 'const long') and isinstance(v, tuple) and v and v[0] == 'lin' and any(c < 0 for _, c in v[1]):
            self.ob(self.entail(eng, st).le(I(0), v), 'cast', 'a difference (%s) converted to an unsigned size is not negative' % term(v), node.get('l', 0))
        return None

    def is_nonneg(self, E, n):
        if isinstance(n, tuple) and n and n[0] == 'min':
            return all(self.is_nonneg(E, x) for x in n[1:])
        return E.le(I(0), n)

    def term_nonneg(self, t):
        return isinstance(t, tuple) and bool(t) and t[0] in ('iter', 'preadn', 'len', 'remaining', 'vsize')

    def bound_read(self, eng, st, n):
        st.ctr += 1
        t = ('preadn', st.ctr, n)
        eng.set_bound(st, t, lo=0)
        return t

    def span(self, eng, st, p, n, what, line, write):
        self.ob(self.is_nonneg(self.entail(eng, st), n), what + ':negative', '%s: the size %s is not negative' % (what, term(n)), line)
        return super().span(eng, st, p, n, what, line, write)

    def local_span(self, eng, st, b, o, n, what, line):
        if isinstance(b, tuple) and b and b[0] == 'chars':
            E = self.entail(eng, st)
            ok = E.le(I(0), o) and E.le(plus(o, n), self.length(st, b[1]))
            self.ob(ok, what + ':string-bounds', '%s: offset %s, size %s in a string of %s bytes' % (what, term(o), term(n), term(self.length(st, b[1]))), line)
            return
        t = self.var_type(eng, b)
        if t and t.endswith(']') and '[' in t:
            E = self.entail(eng, st)
            self.ob(E.le(I(0), o) and E.le(plus(o, n), I(array_len(t))), what + ':local-bounds', '%s: outside of %s' % (what, t), line)
            return
        super().local_span(eng, st, b, o, n, what, line)
        if b and b[0] == 'str' or (t is not None):
            return
        self.loose.add((what, b, line))

    def length(self, st, L):
        return st.store.get(('ghost', 'len', L), ('len', L, st.store.get(('ghost', 'ver', L), I(0))[1]))

    def setlen(self, eng, st, L, v):
        st.store[('ghost', 'len', L)] = v
        eng.set_bound(st, v, lo=0) if not is_int(v) else None

    def on_call(self, eng, st, call, obj, vs, e):
        n = call['n']
        m = n.rsplit('::', 1)[-1]
        l = e.get('l', 0)
        if m == 'get_server':
            return [(st, ('loc', SRV))]
        if m == 'get_log_level':
            return [(st, I(0))]
        if n.startswith('joedb::Lock<') and m.startswith('operator'):
            return [(st, ('loc', ('channel',)))]
        if n.startswith(CHANNEL + '::') and m in ('read', 'write', 'read_some', 'write_some'):
            self.seen += 1
            size = eng.value(st, vs[1])
            b, o = self.span(eng, st, vs[0], size, m, l, m.startswith('read'))
            if b == 'caller':
                done = st.store.get(DONE, I(0))
                E = self.entail(eng, st)
                self.ob(E.eq(o, done), m + ':place', '%s: %s bytes were transferred so far, the next ones are at offset %s' % (m, term(done), term(o)), l)
                r = self.bound_read(eng, st, size) if m.endswith('some') else size
                st.store[DONE] = plus(done, r)
                if vs[0][0] == 'loc':
                    L = vs[0][1]
                    fresh(eng, st, L[1] if L[0] in ('ptr', 'elem0') else L)
                return [(st, r if m.endswith('some') else ('void',))]
            if m.startswith('write'):
                self.count(eng, st, OUTB, size, l)
            elif not m.endswith('some'):
                self.count(eng, st, INB, size, l)
            if m.startswith('read') and vs[0][0] == 'loc':
                L = vs[0][1]
                fresh(eng, st, L[1] if L[0] in ('ptr', 'elem0') else L)
            if m.endswith('some'):
                r = self.bound_read(eng, st, size)
                self.count(eng, st, INB if m.startswith('read') else OUTB, r, l)
                return [(st, r)]
            return [(st, ('void',))]
        if n.startswith('joedb::Buffer<') and m == 'read' and obj == self.owner:
            t = type_size(e.get('ta'))
            if t is None:
                return None
            i = eng.rd(st, self.index)
            self.span(eng, st, ('loc', ('ptr', self.data, i)), I(t), 'field', l, False)
            st.store[self.index] = plus(i, I(t))
            st.ctr += 1
            v = ('in', st.ctr)
            k = st.store.get(('ghost', 'fields'), I(0))[1]
            st.store[('ghost', 'fields')] = I(k + 1)
            st.store[('ghost', 'field', k)] = v
            return [(st, v)]
        if n == SESSION + '::read_buffer':
            self.seen += 1
            size = eng.value(st, vs[1])
            self.span(eng, st, ('loc', ('ptr', self.data, eng.value(st, vs[0]))), size, 'read_buffer', l, True)
            fresh(eng, st, self.data)
            st.store[self.index] = eng.value(st, vs[0])
            self.count(eng, st, INB, size, l)
            return [(st, size)]           # async_read: everything, or an exception
        if n == SESSION + '::write_buffer':
            self.seen += 1
            self.span(eng, st, ('loc', ('elem0', self.data)), eng.rd(st, self.index), 'write_buffer', l, False)
            self.count(eng, st, OUTB, eng.rd(st, self.index), l)
            return [(st, ('void',))]
        if n == 'joedb::Async_Reader::read':
            self.seen += 1
            size = eng.value(st, vs[1])
            self.span(eng, st, vs[0], size, 'reader.read', l, True)
            fresh(eng, st, self.data)
            r = self.bound_read(eng, st, size)
            rem = st.store[REM]
            st.facts[('op', '<', rem, r)] = False
            st.store[REM] = minus(rem, r)
            return [(st, r)]
        if n == 'joedb::Async_Writer::write':
            self.seen += 1
            st.store[PUTB] = plus(st.store[PUTB], eng.value(st, vs[1]))
            self.span(eng, st, vs[0], eng.value(st, vs[1]), 'writer.write', l, False)
            return [(st, ('void',))]
        if n == 'joedb::Async_Reader::get_remaining':
            return [(st, st.store[REM])]
        if n.startswith('std::vector<'):
            if m == 'size':
                return [(st, ('vsize', bare_loc(obj)))]
            if m == 'operator[]' and self.server:
                i = eng.value(st, vs[0])
                E = self.entail(eng, st)
                sizes = [k for k in E_terms(st) if k[0] == 'vsize']
                self.ob(any(E.le(plus(i, I(1)), k) for k in sizes), 'vector-index', 'an index received from the network is compared with the size of the vector', l)
                return [(st, ('loc', ('elem', bare_loc(obj), i)))]
        if n.startswith('std::basic_string<'):
            L = bare_loc(obj)
            if m in ('size', 'length'):
                t = self.length(st, L)
                if L[-1] == 'joedb::rpc::Signature::prolog':
                    st.store[('ghost', 'prolog')] = t
                if self.message and L[-1] == 'joedb::rpc::Signature::prolog':
                    st.facts[('op', '<', self.length(st, self.message), t)] = False
                return [(st, t)]
            if m in ('data', 'c_str'):
                return [(st, ('loc', ('elem0', ('chars', L))))]
            if m == 'resize':
                v = eng.value(st, vs[0])
                self.setlen(eng, st, L, v)
                return [(st, ('void',))]
            if m == 'append' and len(vs) == 2:
                v = eng.value(st, vs[1])
                self.span(eng, st, vs[0], v, 'append', l, False)
                self.setlen(eng, st, L, plus(self.length(st, L), v))
                return [(st, ('loc', L))]
            if m == 'operator=' or m == 'assign':
                src = vs[0]
                if isinstance(src, tuple) and src[0] == 'loc':
                    self.setlen(eng, st, L, self.length(st, bare_loc(src[1])))
                else:
                    st.ctr += 1
                    self.setlen(eng, st, L, ('len', L, st.ctr))
                return [(st, ('loc', L))]
            if m == 'reserve':
                return [(st, ('void',))]
        if n.startswith('std::basic_string_view<'):
            L = bare_loc(obj)
            if m in ('size', 'length'):
                return [(st, self.length(st, L))]
            if m == 'data':
                return [(st, ('loc', ('elem0', ('chars', L))))]
        if m in ('strncpy', 'memcpy') and m == 'strncpy' and len(vs) == 3:
            size = eng.value(st, vs[2])
            self.span(eng, st, vs[0], size, 'strncpy', l, True)
            self.span(eng, st, vs[1], size, 'strncpy source', l, False)
            fresh(eng, st, self.data)
            return [(st, ('void',))]
        if n == 'joedb::rpc::Procedure::execute':
            # appends the reply to the message
            if vs and vs[0][0] == 'loc':
                L = ('fld', vs[0][1], 'joedb::Memory_File::data')
                old = self.length(st, L)
                st.ctr += 1
                new = ('len', L, st.ctr)
                self.setlen(eng, st, L, new)
                st.facts[('op', '<', new, old)] = False
                z = st.copy()
                z.ev += (('executing-failed', l),)
                eng.thrown[-1].append((z, ('exc', 'std::exception', None)))
            return [(st, ('void',))]
        if n.endswith(('::Memory_File::pread',)):
            size = eng.value(st, vs[1])
            b, o = self.span(eng, st, vs[0], size, 'pread', l, True)
            if b is None and vs[0][0] == 'loc':
                fresh(eng, st, vs[0][1])
            return [(st, self.bound_read(eng, st, size))]
        if n.endswith('::Memory_File::pwrite'):
            L = ('fld', obj, 'joedb::Memory_File::data')
            E = self.entail(eng, st)
            if not E.le(plus(vs[1], vs[2]), self.length(st, L)):
                old = self.length(st, L)
                st.ctr += 1
                new = ('len', L, st.ctr)
                self.setlen(eng, st, L, new)
                st.facts[('op', '<', new, old)] = False
            return [(st, ('void',))]
        return super().on_call(eng, st, call, obj, vs, e)

    def on_ctor(self, eng, st, node, cls, L, args):
        if cls.replace('const ', '').startswith(('beman::', 'std::basic_string', 'joedb::Lock', 'joedb::Progress_Bar')):
            return [(st, ('obj', L))]
        return None


def bare_loc(L):
    if isinstance(L, tuple) and L and L[0] == 'loc':
        L = L[1]
    return L


def E_terms(st):
    out = set()

    def walkt(t):
        if isinstance(t, tuple):
            if t and t[0] == 'vsize':
                out.add(t)
                return
            for x in t:
                walkt(x)
    for k in st.facts:
        walkt(k)
    for k in getattr(st, 'bounds', {}) or {}:
        walkt(k)
    return out


def touches_network(f):
    return any(x.get('k') == 'call' and (x.get('n') or '').startswith((CHANNEL + '::', SESSION + '::read_b', SESSION + '::write_b')) for x in walk(f.get('body') or {}))


def uses_buffer(f, field):
    return any(x.get('k') == 'mem' and x['n'] == field for x in walk(f.get('body') or {}))


def field(st, k):
    return st.store.get(('ghost', 'field', k))


def header(st, n, *fs):
    """n bytes plus a combination of received fields"""
    t = I(n)
    for sign, k in fs:
        v = field(st, k)
        if v is None:
            return None
        t = plus(t, v) if sign > 0 else minus(t, v)
    return t


def prolog(st):
    for K, v in st.store.items():
        if K == ('ghost', 'prolog'):
            return v
    return None


# function -> (what is received, what is sent, what is given to the writer), as functions of the state
LIMITS = {
    'joedb::Server::Session::push': (lambda st: header(st, 16, (1, 1), (-1, 0)), None),
    'joedb::Server::Session::send': (None, lambda st: plus(I(9), ('remaining', 0))),
    'joedb::Server_Connection::push': (None, lambda st: plus(I(17), ('remaining', 0))),
    'joedb::Server_Client::download': (lambda st: ('arg', 'size'), None),
    'joedb::rpc::Server::Session::call': (lambda st: None if prolog(st) is None else minus(header(st, 16, (1, 1)), prolog(st)), None),
}


def analyse(ctx, db, f, owner, caller=None, server=False, entry=None, classes=()):
    from jsa.engine import Engine
    rule = NetRule(db, owner, caller)
    rule.cap, rule.size = ctx.cap, ctx.size
    rule.server = server
    rule.classes, rule.field = classes, owner[2] if owner else None

    if f['n'] in LIMITS:
        rule.limit_in, rule.limit_out = LIMITS[f['n']]
        rule.limited = True

    def setup(eng, st, L, vs):
        for K in (INB, OUTB, PUTB):
            st.store[K] = I(0)
        st.store[REM] = ('remaining', 0)
        i = eng.rd(st, rule.index)
        eng.set_bound(st, i, lo=0, hi=ctx.size)
        if server:
            st.store[LOG] = I(0)          # logging does not change what is read or written
        if caller is not None:
            st.store[DONE] = I(0)
        if caller is not None and not is_int(caller[1]):
            eng.set_bound(st, caller[1], lo=0)
        if entry:
            entry(eng, st, vs, rule)
    eng, outs = run_inductive(lambda r: Engine(db, r), rule, lambda en: en.run(f, setup, f.get('cls')))
    ctx.use_engine(eng)
    ctx.use(f)
    name = f['n'].replace('joedb::', '')
    for okv, key, what, line in rule.obl:
        ctx.require(okv, '%s:%s' % (name, key), dict(f, l=line), '%s, %s' % (name, what), sample='%s: %s' % (name, what))
    for K, lim, what in ((INB, rule.limit_in, 'received'), (OUTB, rule.limit_out, 'sent')):
        if lim is None:
            continue
        n = 0
        for o in outs:
            if o.k == T:
                continue
            want = lim(o.st)
            if want is None:
                ctx.bad('%s:%s-announced' % (name, what), f, '%s: the announced size is not known' % name)
                continue
            n += 1
            ctx.require(rule.entail(eng, o.st).le(want, o.st.store[K]), '%s:%s' % (name, what), f, '%s: %s bytes are %s instead of the %s announced: the next message will be misinterpreted' % (name, term(o.st.store[K]), what, term(want)), trace=trace(o.st.ev))
            if f['n'].endswith('::download'):
                ctx.require(rule.entail(eng, o.st).eq(o.st.store[PUTB], o.st.store[INB]), '%s:written' % name, f, '%s: %s bytes received, %s written' % (name, term(o.st.store[INB]), term(o.st.store[PUTB])))
        ctx.require(n > 0, name + ':returns', f, name + ' never returns')
    if caller is not None:
        for o in outs:
            if o.k == T:
                continue
            done = o.st.store.get(DONE, I(0))
            E = rule.entail(eng, o.st)
            want = o.v if o.v not in (None, ('void',)) else caller[1]
            ctx.require(E.eq(done, want), '%s:complete' % name, f, '%s: %s bytes were transferred, %s announced' % (name, term(done), term(want)), trace=trace(o.st.ev))
    return rule, eng, outs


@check('C06', parts=('src', 'gen'), floor=40,
       rule='every method of the network clients, server sessions and RPC sessions is executed abstractly with an arbitrary message from the peer: every access to the message buffer, to the memory of the caller, to strings and to vectors of procedures is shown in bounds by linear-arithmetic entailment; Channel::read/write are shown to transfer exactly the requested bytes and no more',
       trusted=['integers do not wrap', 'read_some and write_some transfer at most the number of bytes requested', 'async_read reads everything or throws'])
def c06(ctx):
    db = ctx.db
    bt = 'joedb::Buffer<13>'
    flds = {f['n']: f['t'] for f in db.cls(bt)['fields']}
    ctx.cap = array_len(flds['data'])
    ctx.size = db.globals[bt + '::size']['e']['v']
    ctx.require(ctx.size <= ctx.cap, 'capacity', None, 'the nominal size of the buffer exceeds its array')
    done = 0
    loose = set()
    groups = [
        (('joedb::Server_Client', 'joedb::Server_Connection'), 'joedb::Server_Client::buffer', False),
        (('joedb::Server::Session',), SESSION + '::buffer', True),
        (('joedb::rpc::Server::Session',), SESSION + '::buffer', True),
        (('joedb::rpc::Client',), 'joedb::rpc::Client::buffer', False),
    ]
    for classes, field, server in groups:
        cls, fname_ = field.rsplit('::', 1)
        need_fields(db, cls, fname_)
        owner = fld(('this',), field)
        n = 0
        for f in sorted(db.functions.values(), key=lambda f: f['key']):
            if f.get('cls') not in classes or not f.get('body') or f.get('st'):
                continue
            if not touches_network(f) and not (uses_buffer(f, field) and f.get('acc') != 2):
                continue
            ptrs = [i for i, p in enumerate(f['ps']) if p['t'] == 'char *']
            caller = (('param', f['ps'][ptrs[0]]['n']), ('arg', f['ps'][ptrs[0] + 1]['n'])) if ptrs else None

            def entry(eng, st, vs, rule):
                if f['n'] == 'joedb::rpc::Client::call':
                    # precondition: the message starts with the prolog of the signature
                    rule.message = ('fld', ('param', 'file'), 'joedb::Memory_File::data')
            rule, eng, outs = analyse(ctx, db, f, owner, caller, server, entry, classes)
            n += rule.seen
            loose |= {(f['n'], x[0]) for x in rule.loose}
        ctx.require(n > 0, 'group:' + classes[0], None, 'no network access found in ' + classes[0])
        done += n
    for n in ('read', 'write'):
        f = db.fn(CHANNEL + '::' + n)
        p, q = f['ps'][0]['n'], f['ps'][1]['n']
        rule, eng, outs = analyse(ctx, db, f, fld(('this',), 'no::buffer'), (('param', p), ('arg', q)), classes=('?',))
        ctx.require(rule.seen > 0, 'channel:' + n, f, 'nothing is transferred')
    ctx.notes['network_accesses'] = done
    ctx.notes['not bounded'] = sorted('%s: %s' % x for x in loose)


def fresh(eng, st, L):
    st.ctr += 1
    eng.touch(st, L, ('wire', st.ctr))

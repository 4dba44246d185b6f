"""Remote procedure calls: one execution of the right procedure per call, the whole message, the whole reply."""
from jsa.runner import check
from jsa.induct import run_inductive
from jsa.engine import Engine
from .common import *
from .buffers import plus, minus, array_len
from .network import NetRule, bare_loc, INB, OUTB, REM, PUTB, SESSION, CHANNEL, LOG, SRV
from .concurrency import type_size

RS = 'joedb::rpc::Server::Session::'
RCL = 'joedb::rpc::Client::'
FILL = ('ghost', 'len', 'fill')       # bytes of the message prepared in the buffer
POS = ('ghost', 'len', 'pos')         # position of the next byte of the file to send
PROLOG = 'joedb::rpc::Signature::prolog'
DATA = 'joedb::Memory_File::data'


def G(n):
    return ('ghost', n)


class RpcRule(NetRule):
    def __init__(self, db, owner, caller=None):
        super().__init__(db, owner, caller)
        self.server = True
        self.rpc = []
        self.fillok = {}

    def on_loop_head(self, eng, loop, before, z):
        super().on_loop_head(eng, loop, before, z)
        if self.fillok.get(self.lid(eng, loop), True) and before.store.get(FILL) == eng.rd(before, self.index):
            z.store[FILL] = eng.rd(z, self.index)

    def on_iter(self, eng, loop, b, e):
        k = self.lid(eng, loop)
        if self.fillok.get(k, True) and b.store.get(FILL) == eng.rd(b, self.index) and not self.eqv(eng, e, e.store[FILL], eng.rd(e, self.index)):
            self.fillok[k] = False
            self.changed = True
        super().on_iter(eng, loop, b, e)

    def inline(self, eng, f):
        if f['n'].endswith(('::handshake', '::call')) and len(eng.stack) > 0 and f['n'].startswith((RS, RCL)):
            return True
        return super().inline(eng, f)

    def req(self, ok, key, what, line, st):
        self.rpc.append((bool(ok), key, what, line, trace(st.ev)))

    def eqv(self, eng, st, a, b):
        return a is not None and b is not None and (a == b or self.entail(eng, st).eq(a, b))

    def on_call(self, eng, st, call, obj, vs, e):
        n = call['n']
        m = n.rsplit('::', 1)[-1]
        l = e.get('l', 0)
        if n.startswith('joedb::Buffer<') and m == 'write' and obj == self.owner:
            i = eng.rd(st, self.index)
            t = type_size(e.get('ta'))
            v = eng.value(st, vs[0])
            st.ev += (('put', i, t, v, l),)
            if i == I(0):
                st.store[FILL] = I(0)
            self.req(self.eqv(eng, st, i, st.store.get(FILL)), 'gap', 'a field is written at %s, %s bytes were prepared' % (term(i), term(st.store.get(FILL, ('?',)))), l, st)
            if t:
                st.store[FILL] = plus(i, I(t))
            return super().on_call(eng, st, call, obj, vs, e)
        if n.startswith('joedb::Buffer<') and m == 'read' and obj == self.owner:
            i = eng.rd(st, self.index)
            r = super().on_call(eng, st, call, obj, vs, e)
            for s, v in r or ():
                s.ev += (('field', i, type_size(e.get('ta')), v, l),)
                if i == I(1) and type_size(e.get('ta')) == 8 and G('id') not in s.store:
                    s.store[G('id')] = v
                elif i == I(9) and type_size(e.get('ta')) == 8 and G('until') not in s.store:
                    s.store[G('until')] = v
            return r
        if n == SESSION + '::read_buffer':
            self.req(G('pending') not in st.store, 'dropped', 'received bytes are overwritten before they are used', l, st)
            at = eng.value(st, vs[0])
            size = eng.value(st, vs[1])
            r = super().on_call(eng, st, call, obj, vs, e)
            for s, v in r:
                if G('until') in s.store:
                    s.store[G('pending')] = size
                s.ev += (('recv', at, size, l),)
            return r
        if n == SESSION + '::write_buffer':
            i = eng.rd(st, self.index)
            self.req(self.eqv(eng, st, i, st.store.get(FILL)), 'stale', '%s bytes are sent, %s were prepared' % (term(i), term(st.store.get(FILL, ('?',)))), l, st)
            st.store[FILL] = I(0)
            st.ev += (('send', i, l),)
            return super().on_call(eng, st, call, obj, vs, e)
        if n.startswith(CHANNEL + '::') and m in ('read', 'write'):
            size = eng.value(st, vs[1])
            what = None
            L = bare_loc(vs[0])
            if L == ('elem0', self.data) or L == ('ptr', self.data, I(0)):
                what = 'buffer'
                if m == 'write':
                    self.req(self.eqv(eng, st, size, st.store.get(FILL)), 'stale', '%s bytes are sent, %s were prepared' % (term(size), term(st.store.get(FILL, ('?',)))), l, st)
            st.ev += ((m, what or L, size, l),)
            return super().on_call(eng, st, call, obj, vs, e)
        if n.startswith('std::basic_string<'):
            L = bare_loc(obj)
            if m in ('operator=', 'assign') and L[-1] == DATA:
                src = bare_loc(vs[0]) if vs else None
                st.ev += (('assign', src, l),)
            if m == 'append' and L[-1] == DATA and len(vs) == 2:
                p = bare_loc(vs[0])
                size = eng.value(st, vs[1])
                self.req((p in (('elem0', self.data), ('ptr', self.data, I(0)))) and self.eqv(eng, st, size, st.store.get(G('pending'))), 'append',
                         'the bytes appended to the message (%s) are not those just received (%s)' % (term(size), term(st.store.get(G('pending'), ('none',)))), l, st)
                st.store.pop(G('pending'), None)
                st.ev += (('append', size, l),)
        if n.startswith('std::vector<') and m in ('operator[]', 'at') and obj is not None:
            i = eng.value(st, vs[0])
            r = super().on_call(eng, st, call, obj, vs, e) if m == 'operator[]' else None
            return r if r is not None else [(st, ('loc', ('elem', bare_loc(obj), i)))]
        if n == 'joedb::rpc::get_hash':
            L = bare_loc(vs[0])
            return [(st, ('hash', L[-1] if isinstance(L, tuple) else L))]
        if n.startswith('std::operator==') and 'array<unsigned int' in (call.get('f') or '') + str(e.get('a')):
            a, b = (eng.value(st, v) for v in vs)
            return [(st, ('op', '==', ('same-hash',), I(1)))] if {a[0], b[0]} == {'in', 'hash'} else None
        if n == 'joedb::rpc::Procedure::execute':
            L = ('fld', bare_loc(vs[0]), DATA) if vs and vs[0][0] == 'loc' else None
            ln = self.length(st, L) if L else None
            self.req(G('executed') not in st.store, 'twice', 'a procedure is executed twice for one call', l, st)
            self.req(G('pending') not in st.store, 'dropped', 'received bytes are not part of the message', l, st)
            self.req(self.eqv(eng, st, ln, st.store.get(G('until'))), 'partial', 'the procedure is executed with %s bytes of the %s announced' % (term(ln), term(st.store.get(G('until'), ('?',)))), l, st)
            st.ev += (('execute', obj, L, l),)
            st.store[G('executed')] = I(1)
            st.store[POS] = st.store.get(G('until'), I(0))
            nt = len(eng.thrown[-1])
            r = super().on_call(eng, st, call, obj, vs, e)
            for z, _ in eng.thrown[-1][nt:]:
                z.store[G('failed')] = I(1)
            return r
        if n.endswith('::Memory_File::pread'):
            size = eng.value(st, vs[1])
            off = eng.value(st, vs[2])
            L = bare_loc(vs[0])
            dst = L[2] if L[0] == 'ptr' and L[1] == self.data else I(0) if L == ('elem0', self.data) else None
            self.req(dst is not None and self.eqv(eng, st, dst, st.store.get(FILL)), 'gap', 'the reply is continued at %s, %s bytes were prepared' % (term(dst) if dst else '?', term(st.store.get(FILL, ('?',)))), l, st)
            self.req(self.eqv(eng, st, off, st.store.get(POS)), 'reply-order', 'the reply continues with the byte %s of the file instead of %s' % (term(off), term(st.store.get(POS, ('?',)))), l, st)
            st.ev += (('pread', size, off, l),)
            st.store[FILL] = plus(st.store.get(FILL, I(0)), size)
            st.store[POS] = plus(st.store.get(POS, I(0)), size)
            return super().on_call(eng, st, call, obj, vs, e)
        if n.endswith('::Memory_File::pwrite'):
            st.ev += (('pwrite', bare_loc(vs[0]), eng.value(st, vs[1]), eng.value(st, vs[2]), eng.value(st, vs[0]) if vs[0][0] != 'loc' else st.store.get(vs[0][1]), l),)
        if m in ('strncpy', 'memcpy', 'memmove') and len(vs) == 3 and not ((eng.frames[-1].get('f') or {}).get('n') or '').startswith('joedb::Buffer'):
            L = bare_loc(vs[0])
            size = eng.value(st, vs[2])
            dst = L[2] if L[0] == 'ptr' and L[1] == self.data else None
            self.req(dst is not None and self.eqv(eng, st, dst, st.store.get(FILL)), 'gap', 'the error message is copied at the wrong place', l, st)
            if self.is_nonneg(self.entail(eng, st), size) and not is_int(size):
                eng.set_bound(st, size, lo=0)
            st.ev += (('message', size, l),)
            st.store[FILL] = plus(st.store.get(FILL, I(0)), size)
        return super().on_call(eng, st, call, obj, vs, e)

    def on_await(self, eng, st, v, node):
        return [(st.copy(), v)]


def run(ctx, db, f, owner, classes, entry=None):
    rule = RpcRule(db, owner)
    rule.cap, rule.size = ctx.cap, ctx.size
    rule.classes, rule.field = classes, owner[2]
    given = []

    def setup(eng, st, L, vs):
        for K in (INB, OUTB, PUTB, FILL, POS):
            st.store[K] = I(0)
        st.store[REM] = ('remaining', 0)
        st.store[LOG] = I(0)
        i = eng.rd(st, rule.index)
        eng.set_bound(st, i, lo=0, hi=ctx.size)
        rule.rpc = []
        given[:] = [eng.value(st, v) for v in vs]
        if entry:
            entry(eng, st, vs, rule)
    eng, outs = run_inductive(lambda r: Engine(db, r), rule, lambda en: en.run(f, setup, f.get('cls')))
    ctx.use(f)
    ctx.use_engine(eng)
    name = f['n'].replace('joedb::rpc::', '')
    for ok, k, what, l, tr in rule.rpc:
        ctx.require(ok, '%s:%s' % (name, k), dict(f, l=l), what, trace=tr)
    return name, rule, eng, outs


@check('C09', parts=('src', 'gen'), floor=60,
       rule='rpc::Server::Session::{handshake, call, run} and rpc::Client::{constructor, call} interpreted over all paths with arbitrary received data: relation of the message given to the procedure and of the reply to the announced sizes (linear arithmetic, inductive loops), identity of the procedure and its prolog, order and completeness of the reply, handshake before any call',
       trusted=['a procedure only appends to the file it is given', 'std::string, std::vector'])
def c09(ctx):
    db = ctx.db
    bt = 'joedb::Buffer<13>'
    flds = {f['n']: f['t'] for f in db.cls(bt)['fields']}
    ctx.cap = array_len(flds['data'])
    ctx.size = db.globals[bt + '::size']['e']['v']
    server_calls(ctx, db)
    server_handshake(ctx, db)
    server_run(ctx, db)
    client(ctx, db)
    # the hash covers every field of every signature
    f = db.fn('joedb::rpc::get_hash')
    ctx.use(f)
    used = {x['n'].rsplit('::', 1)[-1] for x in walk(f['body']) if x.get('k') == 'mem'}
    for x in db.cls('joedb::rpc::Signature')['fields']:
        ctx.require(x['n'] in used, 'hash:' + x['n'], f, 'the hash that client and server compare does not cover %s' % x['n'])
    ctx.require(any(x.get('s') in ('rfor', 'for', 'while') for x in walk(f['body'])), 'hash:loop', f, 'the hash does not cover every signature')


def ids(loc, st, eng):
    """index of a vector element at the root of a location, and the name of the vector"""
    if isinstance(loc, tuple):
        if loc and loc[0] == 'elem' and len(loc) == 3:
            return repr(loc[1]), loc[2]
        for x in loc:
            r = ids(x, st, eng)
            if r[1] is not None:
                return r
    return None, None


def server_calls(ctx, db):
    f = db.fn(RS + 'call')
    owner = fld(('this',), SESSION + '::buffer')
    name, rule, eng, outs = run(ctx, db, f, owner, ('joedb::rpc::Server::Session',))
    n = 0
    for o in outs:
        ev = flat(o.st.ev)
        st = o.st
        tr = trace(st.ev)
        E = rule.entail(eng, st)
        if any(E.le(x[1], I(-1)) for x in ev if x[0] == 'message'):
            continue        # contradictory path
        ex = [x for x in ev if x[0] == 'execute']
        if o.k == T:
            ctx.require(not ex and not [x for x in ev if x[0] in ('send', 'put')], 'call:half', f, 'the session ends after having executed the procedure or begun a reply', trace=tr)
            continue
        n += 1
        ctx.require(len(ex) == 1, 'call:execute', f, '%d procedures are executed for one call' % len(ex), trace=tr)
        if len(ex) != 1:
            continue
        vec, i = ids(ex[0][1], st, eng)
        ctx.require(rule.eqv(eng, st, i, st.store.get(G('id'))) and vec and 'procedures' in vec, 'call:which', f, 'the procedure executed is not the one of the request', trace=tr)
        a = [x for x in ev if x[0] == 'assign']
        ctx.require(a and a[0][1] and a[0][1][-1] == PROLOG and rule.eqv(eng, st, ids(a[0][1], st, eng)[1], st.store.get(G('id'))), 'call:prolog', f,
                    'the message does not start with the prolog of the procedure', trace=tr)
        puts = [x for x in ev if x[0] == 'put' and ev.index(x) > ev.index(ex[0])]
        code = [x for x in puts if x[1] == I(0)]
        size = [x for x in puts if x[1] == I(1)]
        ctx.require(len(code) == 1 and len(size) == 1 and code[0][2] == 1 and size[0][2] == 8, 'call:reply', f, 'the reply does not start with a code and a size', trace=tr)
        if not code or not size:
            continue
        ln = rule.length(st, ex[0][2])
        if G('failed') in st.store:
            ctx.require(code[0][3] != I(67) and is_int(code[0][3]), 'call:error-code', f, 'a failed procedure is reported as a success', trace=tr)
            msg = [x for x in ev if x[0] == 'message']
            ctx.require(len(msg) == 1 and rule.eqv(eng, st, size[0][3], msg[0][1]), 'call:error-size', f, 'the announced size of the error message is not its size', trace=tr)
            ctx.require(E.eq(st.store[OUTB], plus(I(9), size[0][3])), 'call:error-sent', f, '%s bytes are sent' % term(st.store[OUTB]), trace=tr)
        else:
            ctx.require(code[0][3] == I(67), 'call:code', f, 'a successful procedure is reported as a failure', trace=tr)
            ctx.require(rule.eqv(eng, st, size[0][3], ln), 'call:size', f, 'the announced size of the reply (%s) is not the size of the file (%s)' % (term(size[0][3]), term(ln)), trace=tr)
            ctx.require(E.eq(st.store[POS], ln), 'call:complete', f, 'the reply stops at byte %s of %s' % (term(st.store[POS]), term(ln)), trace=tr)
    ctx.require(n >= 2, 'call:paths', f, 'no complete call found')


def server_handshake(ctx, db):
    f = db.fn(RS + 'handshake')
    owner = fld(('this',), SESSION + '::buffer')
    name, rule, eng, outs = run(ctx, db, f, owner, ('joedb::rpc::Server::Session',))
    SAME = ('op', '==', ('same-hash',), I(1))
    seen = set()
    for o in outs:
        if o.k == T:
            continue
        for st, b in split(eng, o.st, SAME):
            tr = trace(st.ev)
            v = eng.decide(st, o.v) if o.v is not None else None
            ctx.require(v is b, 'handshake:result', f, 'the handshake returns %s when the hashes %s' % (v, 'agree' if b else 'differ'), trace=tr)
            code = [x for x in flat(st.ev) if x[0] == 'put' and x[1] == I(0)]
            c = concrete(eng, st, code[0][3]) if code else None
            ctx.require(c is not None and (c == 72) is b, 'handshake:code', f, 'the handshake replies %s when the hashes %s' % (c, 'agree' if b else 'differ'), trace=tr)
            seen.add(b)
    ctx.require(seen == {True, False}, 'handshake:compare', f, 'the hash of the client is not compared with the one of the server')


def concrete(eng, st, v):
    if is_int(v):
        return v[1]
    if isinstance(v, tuple) and v and v[0] in ('cond', 'ite', 'sel') and len(v) == 4:
        d = eng.decide(st, v[1])
        if d is None:
            return None
        return concrete(eng, st, v[2] if d else v[3])
    return None


def split(eng, st, t):
    d = eng.decide(st, t)
    if d is not None:
        return [(st, d)]
    out = []
    for b in (True, False):
        z = eng.assume(st.copy(), t, b)
        if z is not None:
            out.append((z, b))
    return out


class RunRule(Rule):
    merge = False
    def __init__(self, owner):
        super().__init__()
        self.rpc = []
        self.data = ('fld', owner, 'joedb::Buffer::data')
        self.index = ('fld', owner, 'joedb::Buffer::index')

    req = RpcRule.req

    def on_await(self, eng, st, v, node):
        return [(st.copy(), v)]

    def may_throw(self, eng, name, node):
        return False

    def inline(self, eng, f):
        return 'lambda' in f['n']

    def on_call(self, eng, st, call, obj, vs, e):
        n = call['n']
        l = e.get('l', 0)
        if n == RS + 'handshake':
            out = []
            for b in (1, 0):
                z = st.copy()
                z.ts = ('ok' if b else 'refused',)
                z.ev += (('handshake', b, l),)
                out.append((z, I(b)))
            return out
        if n == RS + 'call':
            self.req(st.ts == ('ok',), 'no-handshake', 'a procedure can be called without a successful handshake', l, st)
            self.req(self.code(st) == 67, 'dispatch', 'a message other than a call is treated as a call', l, st)
            st.ev += (('call', l),)
            return [(st, ('void',))]
        if n == SESSION + '::write_buffer':
            if True:
                self.req(eng.rd(st, self.index) == I(1), 'ping', 'the reply to a ping is not one byte', l, st)
                st.ev += (('send', l),)
                return [(st, ('void',))]
        if n == SESSION + '::read_buffer':
            self.req(st.ts == ('ok',), 'no-handshake', 'a client that failed the handshake is still served', l, st)
            st.ev += (('recv', l),)
            st.ctr += 1
            eng.touch(st, self.data, ('cmd', st.ctr))
            st.store[('idx', self.data, I(0))] = ('cmd', st.ctr)
            eng.rule.got = True
            return [(st, eng.value(st, vs[1]))]
        return None

    def code(self, st):
        return accepted(None, st, st.store.get(('idx', self.data, I(0))))


def server_run(ctx, db):
    f = db.fn(RS + 'run')
    rule = RunRule(fld(('this',), SESSION + '::buffer'))
    eng = Engine(db, rule)

    def setup(eng, st, L, vs):
        st.ts = ('start',)
        st.store[LOG] = I(0)
    outs = eng.run(f, setup, f['cls'])
    ctx.use(f)
    ctx.use_engine(eng)
    for ok, k, what, l, tr in rule.rpc:
        ctx.require(ok, 'run:' + k, dict(f, l=l), what, trace=tr)
    seen = {x[0] for o in outs for x in everything(o.st.ev)}
    ctx.require({'handshake', 'call', 'send'} <= seen, 'run:dispatch', f, 'calls and pings are not all served')
    ctx.require(any(o.k != T for o in outs), 'run:end', f, 'a session never ends')


def everything(ev):
    for x in ev:
        if x[0] == 'loop':
            for t in x[1]:
                yield from everything(t)
        else:
            yield x


def client(ctx, db):
    owner = fld(('this',), RCL + 'buffer')
    if not db.fns(RCL + 'call') or not [f for f in db.fns(RCL + 'Client') if len(f['ps']) > 1]:
        raise AnalysisError('anchor vanished: ' + RCL + 'call')
    for f in db.fns(RCL + 'call'):
        def entry(eng, st, vs, rule):
            rule.message = ('fld', ('param', 'file'), DATA)
            rule.start = rule.length(st, rule.message)
            eng.set_bound(st, rule.start, lo=16)      # a journal starts with its checkpoints
        name, rule, eng, outs = run(ctx, db, f, owner, ('joedb::rpc::Client',), entry)
        ok = 0
        pid = ('arg', f['ps'][0]['n'])
        M = ('fld', ('param', f['ps'][1]['n']), DATA)
        for o in outs:
            st = o.st
            ev = flat(st.ev)
            tr = trace(st.ev)
            w = [x for x in ev if x[0] == 'write']
            r = [x for x in ev if x[0] == 'read']
            puts = [x for x in ev if x[0] == 'put']
            if not w:
                ctx.require(o.k == T, 'client:silent', f, 'a call returns without having been sent', trace=tr)
                continue
            E = rule.entail(eng, st)
            start = rule.start
            lay = [(x[1], x[2]) for x in puts]
            ctx.require(lay == [(I(0), 1), (I(1), 8), (I(9), 8)] and puts[0][3] == I(67) and puts[1][3] == pid and rule.eqv(eng, st, puts[2][3], start), 'client:header', f,
                        'the call does not announce its code, procedure and size: %s' % [term(x[3]) for x in puts], trace=tr)
            pl = prolog_len(st)
            ctx.require(len(w) == 2 and w[0][1] == 'buffer' and (not r or ev.index(w[1]) < ev.index(r[0])), 'client:order', f, 'the header, then the message, are not sent before waiting for the reply', trace=tr)
            if len(w) == 2:
                L = w[1][1]
                at = L[2] if L[0] == 'ptr' else I(0)
                base = L[1] if L[0] in ('ptr', 'elem0') else None
                ctx.require(base == ('chars', M) and rule.eqv(eng, st, at, pl), 'client:body', f, 'the message sent does not start after the prolog', trace=tr)
                ctx.require(pl is not None and rule.eqv(eng, st, w[1][2], minus(start, pl)), 'client:length', f, '%s bytes of the message are sent' % term(w[1][2]), trace=tr)
            code = [x for x in ev if x[0] == 'field']
            if o.k != T:
                ok += 1
                c = accepted(eng, st, code[0][3]) if code else None
                ctx.require(c == 67, 'client:failed', f, 'the client takes an error reply for a success', trace=tr)
                new = code[1][3] if len(code) > 1 else None
                ctx.require(new is not None and rule.eqv(eng, st, rule.length(st, M), new), 'client:size', f, 'the size of the file is not the announced one', trace=tr)
                if len(r) == 2:
                    L = r[1][1]
                    at = L[2] if L[0] == 'ptr' else I(0)
                    base = L[1] if L[0] in ('ptr', 'elem0') else None
                    ctx.require(base == ('chars', M) and rule.eqv(eng, st, at, start), 'client:append', f, 'the reply is not appended to the message', trace=tr)
                else:
                    ctx.bad('client:reply', f, 'the reply is not read', trace=tr)
                pw = [x for x in ev if x[0] == 'pwrite']
                ctx.require({x[3] for x in pw if x[2] == I(8) and x[4] == new} >= {I(0), I(8)}, 'client:checkpoint', f, 'the checkpoint of the file is not updated with the reply', trace=tr)
        ctx.require(ok > 0, 'client:never', f, 'a call never succeeds')
    for f in db.fns(RCL + 'Client'):
        if len(f['ps']) < 2:
            continue
        name, rule, eng, outs = run(ctx, db, f, owner, ('joedb::rpc::Client',))
        for o in outs:
            ev = flat(o.st.ev)
            if o.k == T:
                continue
            code = [x for x in ev if x[0] == 'field']
            ctx.require(code and accepted(eng, o.st, code[0][3]) == 72, 'client:handshake', f, 'a client can be made without a successful handshake', trace=trace(o.st.ev))


def prolog_len(st):
    return st.store.get(G('prolog'))


def accepted(eng, st, v):
    """the only value of v on this path"""
    if is_int(v):
        return v[1]
    for a, b in st.facts.items():
        if isinstance(a, tuple) and a[0] == 'op' and a[1] == '==' and b is True:
            for x, y in ((a[2], a[3]), (a[3], a[2])):
                if x == v and is_int(y):
                    return y[1]
    b = st.facts.get(('bnd', v))
    if b and b[0] == b[1]:
        return b[0]
    return None

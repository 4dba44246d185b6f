"""Concurrency: transactions, connection lock, server sessions, protocol, network buffers."""
from jsa.runner import check
from jsa.linear import Lin, subst
from .common import *

WC = 'joedb::Writable_Client'
CL = 'joedb::Client_Lock'
CONN = 'joedb::Connection::'
TAIL = 'joedb::Tail_Exclusive_Lock'
LOCKED = ('fld', ('this',), CL + '::locked')


class TransactionRule(Rule):
    """typestate of the connection lock and of the lock of the tail of the journal"""
    max_states = 20000
    merge = False

    def inline(self, eng, f):
        n = f['n']
        if 'lambda' in n or f.get('cls') == 'lambda':
            return True                      # the user's function is not one of them: see is_user
        return n.startswith((WC + '::', CL + '::', 'joedb::Client::')) or f.get('cls') in self.derived

    def may_throw(self, eng, name, node):
        if name in ('joedb::Readonly_Journal::get_checkpoint', 'joedb::Readonly_Journal::is_shared', 'joedb::Destructor_Logger::warning', 'std::time', 'time'):
            return False
        return None

    def models(self, name):
        return name.startswith(CONN)

    def on_ctor(self, eng, st, node, cls, L, args):
        cls = cls.replace('const ', '')
        if cls.startswith('beman::'):
            return [(st, ('obj', L))]
        if cls == TAIL:
            eng.thrown[-1].append((st.copy(), ('exc', '?', None)))
            st.ev += (('tail', node.get('l', 0)),)
            return [(st, ('obj', L))]
        return None

    def on_dtor(self, eng, st, cls, L, line):
        if cls.replace('const ', '') == TAIL:
            st.ev += (('untail', line),)
            return True
        return False

    def on_call(self, eng, st, call, obj, vs, e):
        n = call['n']
        l = e.get('l', 0)
        if n.startswith(CONN):
            m = n[len(CONN):]
            if m not in ('pull', 'push', 'unlock', 'handshake'):
                return None
            if m == 'pull':
                eng.thrown[-1].append((st.copy(), ('exc', '?', None)))
                st.ctr += 1
                t = ('pulled', st.ctr)
                st.ev += (('pull', const(vs[0]), const(vs[1]), t, l),)
            elif m == 'push':
                z = st.copy()
                z.ev += (('push', eng.value(z, vs[1]), eng.value(z, vs[2]), const(vs[3]), None, l),)
                eng.thrown[-1].append((z, ('exc', '?', None)))
                st.ctr += 1
                t = ('pushed', st.ctr)
                st.ev += (('push', eng.value(st, vs[1]), eng.value(st, vs[2]), const(vs[3]), t, l),)
            elif m == 'handshake':
                eng.thrown[-1].append((st.copy(), ('exc', '?', None)))
                st.ctr += 1
                t = ('handshaken', st.ctr)
                st.ev += (('handshake', t, l),)
            else:
                z = st.copy()
                z.ev += (('unlock', l),)
                eng.thrown[-1].append((z, ('exc', '?', None)))
                st.ev += (('unlock', l),)
                return [(st, ('void',))]
            return [(st, t)]
        if n in ('joedb::Client::read_journal',) or n.endswith('::read_journal'):
            z = st.copy()
            eng.thrown[-1].append((z, ('exc', '?', None)))
            st.ev += (('read', l),)
            return [(st, ('void',))]
        if n.endswith('::soft_checkpoint'):
            eng.thrown[-1].append((st.copy(), ('exc', '?', None)))
            st.ev += (('checkpoint', l),)
            return [(st, ('void',))]
        if n.endswith('operator()') and self.is_user(eng, st, obj):
            z = st.copy()
            z.ev += (('user-threw', l),)
            eng.thrown[-1].append((z, ('exc', '?', None)))
            st.ev += (('user', l),)
            st.ctr += 1
            return [(st, ('call', 'user', st.ctr))]
        return None

    def is_user(self, eng, st, obj):
        # a lambda made on this path by the code under analysis is its own; the user's function was given to it
        v = eng.load(st, obj, {}) if obj is not None else None
        return not (isinstance(v, tuple) and v and v[0] == 'lamv')


def held(ev):
    h = False
    for x in ev:
        if x[0] == 'pull' and x[1] == 1:
            h = True
        elif x[0] == 'unlock' or (x[0] == 'push' and x[3] == 1):
            h = False
    return h


def order_problems(ev):
    """what is done with the connection must be done with the right locks, in the right order"""
    out = []
    tail = 0
    for i, x in enumerate(ev):
        if x[0] == 'tail':
            tail += 1
        elif x[0] == 'untail':
            tail -= 1
        elif x[0] == 'pull':
            if not tail:
                out.append(('pull-tail', 'the journal is pulled into without a lock of its tail', x[-1]))
            if x[2] != 1:
                out.append(('pull-data', 'data is not requested when pulling', x[-1]))
        elif x[0] in ('user', 'user-threw', 'checkpoint'):
            h = held(ev[:i])
            if not h or not tail:
                out.append((x[0] + '-unlocked', 'the journal is written without %s' % ('the connection lock' if not h else 'a lock of its tail'), x[-1]))
            j = max([k for k, y in enumerate(ev[:i]) if y[0] == 'pull'], default=-1)
            if j >= 0 and not any(y[0] == 'read' for y in ev[j:i]):
                out.append((x[0] + '-unread', 'pulled data is not read before the journal is written', x[-1]))
    return out


@check('C01', parts=('src', 'gen'), floor=60,
       rule='typestate: acquiring the connection lock (pull with lock_before), releasing it (unlock or push with unlock_after attempted), and holding the tail lock are tracked on every normal, returning and throwing path of every instantiation of Writable_Client::transaction and of every member of Client_Lock; obligations: released at every exit, or recorded in the flag that makes the destructor release it',
       trusted=['a push or unlock that fails leaves the lock to the server (connection loss or lock timeout releases it): attempts count as releases'])
def c01(ctx):
    db = ctx.db
    need_fields(db, CL, 'locked', 'journal_lock')

    def run(f, setup=None, derived=()):
        rule = TransactionRule()
        rule.fkey = f['key']
        rule.derived = derived
        eng = Engine(db, rule)
        outs = eng.run(f, setup)
        ctx.use(f)
        ctx.use_engine(eng)
        return outs

    # transactions
    ts = db.fns(WC + '::transaction')
    if len(ts) < 3:
        raise AnalysisError('anchor vanished: instantiations of Writable_Client::transaction')
    for f in ts:
        outs = run(f)
        good = 0
        for o in outs:
            ev = flat(o.st.ev)
            tr = trace(o.st.ev)
            ok = True
            for k, m, l in order_problems(ev):
                ok = False
                ctx.bad('transaction:' + k, '%s:%s' % (rel(f['file']), l), 'Writable_Client::transaction: ' + m, tr)
            ctx.require(not held(ev), 'transaction:locked', f,
                        'Writable_Client::transaction can be left %s while the connection is still locked'
                        % ('by an exception' if o.k == T else 'normally'), trace=tr)
            threw = any(x[0] == 'user-threw' for x in ev)
            pushes = [x for x in ev if x[0] == 'push']
            if threw:
                ctx.require(o.k == T, 'transaction:swallowed', f, 'the exception of a failed transaction is not propagated', trace=tr)
                ctx.require(not pushes, 'transaction:pushed', f, 'a transaction whose function threw an exception is pushed', trace=tr)
                ctx.require(not any(x[0] == 'checkpoint' for x in ev), 'transaction:checkpointed', f, 'a transaction whose function threw an exception is checkpointed', trace=tr)
            if o.k != T:
                names = [x[0] for x in ev if x[0] in ('user', 'checkpoint', 'push')]
                ctx.require(names == ['user', 'checkpoint', 'push'] and pushes[0][3] == 1, 'transaction:incomplete', f,
                            'a transaction can return normally without having run its function, checkpointed, and pushed, in this order (%s)' % ', '.join(names), trace=tr)
                good += 1
        if not good:
            raise AnalysisError('no normal exit found in Writable_Client::transaction')

    # lock objects
    for f in [x for x in db.functions.values() if x.get('cls') == CL and x.get('body') is not None]:
        n = f['n'].split('::')[-1]
        if f.get('kind') == 'ctor':
            for o in run(f):
                ev = flat(o.st.ev)
                tr = trace(o.st.ev)
                for k, m, l in order_problems(ev):
                    ctx.bad('lock-ctor:' + k, '%s:%s' % (rel(f['file']), l), 'Client_Lock: ' + m, tr)
                if o.k == T:
                    ctx.require(not held(ev), 'lock-ctor:leak', f, 'the connection stays locked when the constructor of Client_Lock fails', trace=tr)
                else:
                    ctx.require(held(ev) and any(x[0] == 'read' for x in ev), 'lock-ctor:unlocked', f, 'Client_Lock can be constructed without locking the connection and reading the journal', trace=tr)
                    flag = o.st.store.get(LOCKED)
                    ctx.require(flag == I(1), 'lock-ctor:flag', f, 'a constructed Client_Lock does not record that it holds the lock', trace=tr)
                    tl = sum(1 if x[0] == 'tail' else -1 if x[0] == 'untail' else 0 for x in ev)
                    ctx.require(tl == 1, 'lock-ctor:tail', f, 'a constructed Client_Lock does not hold the lock of the tail of the journal', trace=tr)
            continue

        def setup(eng, st, L, vs):
            st.store[LOCKED] = I(1)
            st.ev = (('tail', 0), ('pull', 1, 1, ('pulled', 0), 0), ('read', 0))
        if f.get('kind') == 'dtor':
            for o in run(f, setup):
                ev = flat(o.st.ev)
                ctx.require(o.k != T, 'lock-dtor:throws', f, 'the destructor of Client_Lock can throw', trace=trace(o.st.ev))
                ctx.require(not held(ev), 'lock-dtor:locked', f, 'the destructor of Client_Lock can leave the connection locked', trace=trace(o.st.ev))
                ctx.require(not any(x[0] == 'push' for x in ev), 'lock-dtor:push', f, 'the destructor of Client_Lock pushes a transaction that was not confirmed', trace=trace(o.st.ev))
            def setup2(eng, st, L, vs):
                st.store[LOCKED] = I(0)
            for o in run(f, setup2):
                ctx.require(not [x for x in flat(o.st.ev) if x[0] in ('unlock', 'push')], 'lock-dtor:twice', f,
                            'the destructor of Client_Lock unlocks a connection that it does not hold: it may release the lock of someone else', trace=trace(o.st.ev))
            continue
        for o in run(f, setup):
            ev = flat(o.st.ev)
            tr = trace(o.st.ev)
            flag = o.st.store.get(LOCKED)
            h = held(ev)
            for k, m, l in order_problems(ev):
                ctx.bad('lock-%s:%s' % (n, k), '%s:%s' % (rel(f['file']), l), 'Client_Lock::%s: %s' % (n, m), tr)
            if h:
                ctx.require(flag == I(1), 'lock-%s:leak' % n, f, 'Client_Lock::%s can be left with the connection locked and nothing to unlock it' % n, trace=tr)
            elif o.k != T:
                ctx.require(flag == I(0), 'lock-%s:flag' % n, f, 'Client_Lock::%s releases the connection but the destructor will unlock it a second time' % n, trace=tr)
            ps = [i for i, x in enumerate(ev) if x[0] == 'push']
            if 'checkpoint' in n:
                if o.k != T and n != 'do_checkpoint':
                    ctx.require(ps and any(x[0] == 'checkpoint' for x in ev[:ps[0]]), 'lock-%s:order' % n, f,
                                'Client_Lock::%s can return without having checkpointed, then pushed' % n, trace=tr)
                if o.k != T and n == 'do_checkpoint':
                    ctx.require(any(x[0] == 'checkpoint' for x in ev), 'lock-%s:order' % n, f, 'Client_Lock::do_checkpoint does not checkpoint', trace=tr)
            if n == 'unlock':
                ctx.require(not ps, 'lock-unlock:push', f, 'Client_Lock::unlock pushes a cancelled transaction', trace=tr)
            if n == 'push_if_ahead':
                ctx.ok()

    # every other function that locks or pulls: Writable_Client::pull and the like
    for f in [x for x in db.functions.values() if x.get('cls') == WC and x.get('body') is not None and x['n'].split('::')[-1] in ('pull', 'pull_push', 'push_unlock', 'push_if_ahead')]:
        for o in run(f):
            ev = flat(o.st.ev)
            tr = trace(o.st.ev)
            n = f['n'].split('::')[-1]
            for k, m, l in order_problems(ev):
                if not k.startswith(('user', 'checkpoint')) or n == 'pull':
                    ctx.bad('%s:%s' % (n, k), '%s:%s' % (rel(f['file']), l), 'Writable_Client::%s: %s' % (n, m), tr)
            ctx.require(not held(ev), n + ':locked', f, 'Writable_Client::%s can be left with the connection locked' % n, trace=tr)
            if n == 'pull' and o.k != T:
                ctx.require([x[0] for x in ev if x[0] in ('pull', 'read')] == ['pull', 'read'], 'pull:unread', f, 'pulled data is not read', trace=tr)

    # what is pushed
    CC = ('fld', ('this',), 'joedb::Client::connection_checkpoint')
    for f in db.fns('joedb::Client::push'):
        for o in run(f):
            for x in flat(o.st.ev):
                if x[0] != 'push':
                    continue
                z = o.st
                ctx.require(contains(x[1], CC), 'push:from', f, 'the push does not start at the checkpoint known by the connection', trace=trace(z.ev))
                if x[4] is not None:
                    ctx.require(z.store.get(CC) == x[4], 'push:stored', f, 'the checkpoint returned by the connection is not remembered', trace=trace(z.ev))


# ---------------------------------------------------------------- server sessions

SS = 'joedb::Server::Session::'
SRV = ('server',)
LOCKING = ('fld', ('this',), 'joedb::Server::Session::locking')
WRITER = ('fld', ('this',), 'joedb::Server::Session::push_writer')
STATUS = ('fld', ('this',), 'joedb::Server::Session::push_status')
TIMER = ('fld', ('this',), 'joedb::Server::Session::lock_timeout_timer')
BUFFER = ('fld', ('this',), 'joedb::asio::Server::Session::buffer')
CODE = ('idx', ('fld', BUFFER, 'joedb::Buffer::data'), I(0))
SLOCKED = ('fld', SRV, 'joedb::Server::locked')
CLOCK = ('fld', SRV, 'joedb::Server::client_lock')
WJC = ('fld', SRV, 'joedb::Server::writable_journal_client')
LOCKQ = ('fld', SRV, 'joedb::Server::lock_waiters')
PULLQ = ('fld', SRV, 'joedb::Server::pull_waiters')
HANDLER = ('ghost', 'armed')
UP = ('ghost', 'upstream')
CP = ('ghost', 'checkpoint')
NREAD = ('ghost', 'nread')
LOG = ('fld', SRV, 'joedb::asio::Server::log_level')
EMPTYQ = ('ghost', 'no lock waiter')


class SessionRule(Rule):
    """one session of the server, interleaved at every co_await with its lock timeout and with the other sessions"""
    merge = False
    iter_hook = True
    max_states = 200000
    inline_depth = 14

    tracked = frozenset(x[2] for x in (LOCKING, WRITER, STATUS, SLOCKED, CLOCK))

    def __init__(self):
        self.awaits = 0
        self.problems = []

    def on_iter(self, eng, loop, b, e):
        e.ts = self.project(e)

    def inline(self, eng, f):
        n = f['n']
        return n.startswith(SS) or f.get('cls') == 'lambda'

    def models(self, name):
        return name.startswith(('joedb::asio::Server::Session::', 'joedb::Client', 'joedb::Writable_', 'joedb::Readonly_', 'joedb::Buffer', 'joedb::Progress', 'joedb::Async'))

    def may_throw(self, eng, name, node):
        return False

    def thrown(self, eng, st):
        eng.thrown[-1].append((st.copy(), ('exc', '?', None)))

    def on_ctor(self, eng, st, node, cls, L, args):
        if cls.endswith('Writable_Journal_Client_Lock'):
            self.thrown(eng, st)
            st.store[UP] = I(1)
            self.new_cp(st)
            st.ev += (('uplock', node.get('l', 0)),)
            return [(st, ('obj', L))]
        if cls.startswith(('joedb::Async', 'joedb::Progress_Bar', 'beman::')):
            return [(st, ('obj', L))]
        return None

    def on_dtor(self, eng, st, cls, L, line):
        if cls.endswith('Writable_Journal_Client_Lock'):
            st.store[UP] = I(0)
            st.ev += (('updtor', line),)
            return True
        return cls.startswith('joedb::Async')

    def new_cp(self, st):
        st.ctr += 1
        st.store[CP] = ('cp', st.ctr)

    def on_call(self, eng, st, call, obj, vs, e):
        n = call['n']
        l = e.get('l', 0)
        m = n.rsplit('::', 1)[-1]
        if n == SS + 'get_server':
            return [(st, ('loc', SRV))]
        if m == 'log' and n.startswith('joedb::'):
            return [(st, ('void',))]
        if n.startswith('joedb::Progress_Bar::'):
            return [(st, ('void',))]
        if n.endswith('error_code::operator bool'):
            return [(st, I(0))]
        if m == 'count' and obj == ('fld', SRV, 'joedb::Server::lock_timeout'):
            t = ('lock_timeout',)
            eng.set_bound(st, t, lo=1)
            return [(st, t)]
        if m == 'is_shared':
            t = ('shared',)
            eng.set_bound(st, t, lo=0, hi=1)
            return [(st, t)]
        if m == 'read_buffer':
            st.ctr += 1
            t = ('recvsize', vs[1], st.ctr)
            off = vs[0]
            code = st.store.get(CODE)
            eng.touch(st, ('fld', BUFFER, 'joedb::Buffer::data'), ('received', st.ctr))
            if is_int(off) and off[1] >= 1 and code is not None:
                st.store[CODE] = code
            st.store[NREAD] = I(0)
            self.thrown(eng, st)
            return [(st, ('awaitable', 'recv', t, off, l))]
        if m == 'write_buffer':
            st.ev += (('reply', st.store.get(CODE), st.store.get(('fld', BUFFER, 'joedb::Buffer::index')), l),)
            self.thrown(eng, st)
            return [(st, ('awaitable', 'send', None, None, l))]
        if n.startswith('joedb::Buffer') and m == 'read' and obj == BUFFER:
            k = st.store.get(NREAD, I(0))
            if not is_int(k):
                k = I(99)
            st.store[NREAD] = I(k[1] + 1)
            t = ('net', k[1], st.ctr if k[1] > 9 else 0)
            return [(st, t)]
        if m == 'get_checkpoint' or m == 'get_journal_checkpoint':
            return [(st, st.store.get(CP) or ('cp', 0))]
        if m == 'soft_checkpoint_at':
            self.thrown(eng, st)
            st.ev += (('cpat', vs[0], self.engaged(st, WRITER), self.engaged(st, CLOCK), st.store.get(LOCKING), l),)
            self.new_cp(st)
            return [(st, ('void',))]
        if m in ('checkpoint_and_push', 'checkpoint_and_push_unlock', 'push_if_ahead', 'do_checkpoint') and n.startswith(('joedb::Client_Lock', 'joedb::Writable_')):
            self.thrown(eng, st)
            if m.endswith('_unlock'):
                st.store[UP] = I(0)
            st.ev += (('cpush', m, st.store.get(LOCKING), self.engaged(st, WRITER), l),)
            self.new_cp(st)
            return [(st, ('void',))]
        if m == 'unlock' and n.startswith('joedb::Client_Lock'):
            self.thrown(eng, st)
            st.store[UP] = I(0)
            st.ev += (('upunlock', l),)
            return [(st, ('void',))]
        if m == 'pull' and n.startswith('joedb::') and not n.startswith(SS):
            self.thrown(eng, st)
            self.new_cp(st)
            st.ev += (('uppull', self.engaged(st, CLOCK), l),)
            return [(st, st.fresh('pulled'))]
        if n == 'joedb::Async_Writer::get_position':
            return [(st, ('wpos', obj))]
        if n == 'joedb::Async_Writer::write':
            self.thrown(eng, st)
            st.ev += (('write', vs[0], eng.value(st, vs[1]), st.store.get(LOCKING), l),)
            return [(st, ('void',))]
        if m == 'emplace' and obj == WRITER:
            st.ev += (('writer', st.store.get(LOCKING), self.engaged(st, CLOCK), st.store.get(CP), dict_facts(eng, st), l),)
            return None
        if m in ('emplace_back', 'push_back') and obj in (LOCKQ, PULLQ):
            st.ev += (('enq', obj[2].split('::')[-1], l),)
            if obj == LOCKQ:
                st.store[EMPTYQ] = I(0)
            return [(st, ('void',))]
        if m == 'pop_front' and obj in (LOCKQ, PULLQ):
            st.ev += (('deq', obj[2].split('::')[-1], l),)
            return [(st, ('void',))]
        if m == 'clear' and obj in (LOCKQ, PULLQ):
            st.ev += (('clear', obj[2].split('::')[-1], l),)
            return [(st, ('void',))]
        if m == 'remove_from_queue':
            q = vs[0][1] if vs[0][0] == 'loc' else vs[0]
            st.ev += (('deq', q[2].split('::')[-1] if q[0] == 'fld' else '?', l),)
            return [(st, ('void',))]
        if m == 'empty' and obj in (LOCKQ, PULLQ):
            t = st.store.get(EMPTYQ) if obj == LOCKQ else None
            t = t or ('empty', obj[2])
            return [(st, t)]
        if m == 'size' and obj in (LOCKQ, PULLQ):
            return None
        if m == 'cancel' and 'timer' in n:
            if obj == TIMER:
                st.store[HANDLER] = ('null',)
                st.ev += (('disarm', l),)
            else:
                st.ev += (('wake', eng.value(st, ('loc', obj)) if False else str(obj), contains(obj, LOCKQ), l),)
            return [(st, ('void',))]
        if m in ('expires_after', 'expires_at') and 'timer' in n:
            if obj == TIMER:
                st.store[HANDLER] = ('null',)
            return [(st, ('void',))]
        if m == 'async_wait' and 'timer' in n:
            v = vs[0]
            if isinstance(v, tuple) and v[0] == 'loc':
                v = eng.load(st, v[1], {})
            if obj == TIMER and isinstance(v, tuple) and v[0] == 'lamv':
                st.store[HANDLER] = v
                st.ev += (('arm', l),)
                return [(st, ('void',))]
            return [(st, ('awaitable', 'timer', None, obj, l))]
        if n.startswith('boost::asio::') or n.startswith('std::chrono'):
            return None
        return None

    def engaged(self, st, L):
        v = st.store.get(L)
        if v == ('null',):
            return False
        if isinstance(v, tuple) and v[0] in ('loc', 'obj'):
            return True
        return None

    def on_await(self, eng, st, v, node):
        if not (isinstance(v, tuple) and v and v[0] == 'awaitable'):
            return [(st.copy(), v)]
        st = st.copy()
        self.awaits += 1
        kind = v[1]
        l = v[4]
        self.invariant(st, 'await', l)
        outs = []
        for z in self.interleave(eng, st, l):
            z = z.copy()
            if kind == 'recv':
                z.ev += (('recv', v[2], v[3], self.engaged(z, WRITER), l),)
                eng.set_bound(z, v[2], lo=0)
            if kind == 'timer':
                z.ev += (('woken', l),)
            z.ts = self.project(z)
            outs.append((z, v[2] if v[2] is not None else ('void',)))
        return outs

    def project(self, z):
        def p(L):
            v = z.store.get(L)
            if isinstance(v, tuple) and v and v[0] in ('loc', 'obj'):
                return 'engaged'
            return v
        return tuple(p(L) for L in (LOCKING, WRITER, STATUS, CLOCK, UP, SLOCKED)) + (z.store.get(HANDLER) == ('null',), z.store.get(CODE) == ('code',))

    def interleave(self, eng, st, l):
        outs = [st]
        h = st.store.get(HANDLER)
        if isinstance(h, tuple) and h[0] == 'lamv':
            z = st.copy()
            z.ev += (('timeout', l),)
            z.store[HANDLER] = ('null',)
            eng.thrown.append([])
            f = eng.db.functions[h[1]]
            for o in eng.call_body(z, f, None, [('arg', 'error')], {'l': l}, lam=h):
                if o.k != T:
                    outs.append(o.st)
            eng.thrown.pop()
        res = []
        for z in outs:
            if z.store.get(LOCKING) == I(1):
                res.append(z)
                continue
            # the other sessions may take and release the lock
            w = z.store.get(WJC)
            for held_ in (0, 1):
                y = z.copy()
                y.store[SLOCKED] = I(held_)
                self.new_cp(y)
                if w == ('null',):
                    res.append(y)
                    continue
                engaged_choices = [True] if held_ or eng.decide(y, ('shared',)) is False else [True, False]
                for c in engaged_choices:
                    x = y.copy()
                    if c:
                        X = ('opt', CLOCK, 'other')
                        x.store[CLOCK] = ('loc', X)
                        x.cls[X] = 'joedb::Writable_Journal_Client_Lock'
                        x.store[UP] = I(1)
                    else:
                        x.store[CLOCK] = ('null',)
                        x.store[UP] = I(0)
                    res.append(x)
        return res

    def invariant(self, st, where, l):
        for k, m in bad_state(self, st):
            self.problems.append((k, m, where, l, trace_ev(st.ev)))


def dict_facts(eng, st):
    """is the first number received known to be equal to the current checkpoint?"""
    cp = st.store.get(CP)
    t = eng.binop(st, '==', ('net', 0, 0), cp, 'bool')
    return bool(eng.decide(st, t)) if eng.decide(st, t) is not None else False


def trace_ev(ev):
    return trace(ev)


def bad_state(rule, st):
    """the invariants of a session and its server"""
    g = st.store.get
    out = []
    if g(LOCKING) == I(1) and g(SLOCKED) != I(1):
        out.append(('server-not-locked', 'the session believes that it holds the lock, but the server is not locked: another session can obtain the lock'))
    ce = rule.engaged(st, CLOCK)
    if g(LOCKING) == I(1) and g(WJC) != ('null',) and ce is not True:
        out.append(('no-client-lock', 'the session holds the lock, but the server does not hold the lock of its own client: pushed data would be dropped'))
    if ce is True and g(UP) != I(1):
        out.append(('stale-client-lock', 'the lock of the client of the server was released, but the server still believes that it holds it'))
    if g(LOCKING) == I(1) and g(HANDLER) == ('null',):
        out.append(('no-timeout', 'the session holds the lock, but no lock timeout is running'))
    return out


def session_states():
    """initial states: (locking, server locked, client lock engaged, writable, shared) that satisfy the invariants"""
    for writable in (0, 1):
        for shared in (0, 1):
            for locking in (0, 1):
                for locked in (0, 1):
                    for clock in (0, 1):
                        if locking and not locked:
                            continue
                        if clock and not writable:
                            continue
                        if writable and (not shared or locked) and not clock:
                            continue
                        yield dict(writable=writable, shared=shared, locking=locking, locked=locked, clock=clock)


def session_setup(cfg, handler, more=None):
    def setup(eng, st, L, vs):
        st.store[LOCKING] = I(cfg['locking'])
        st.store[SLOCKED] = I(cfg['locked'])
        if cfg['clock']:
            X = ('opt', CLOCK, 0)
            st.store[CLOCK] = ('loc', X)
            st.cls[X] = 'joedb::Writable_Journal_Client_Lock'
        else:
            st.store[CLOCK] = ('null',)
        st.store[UP] = I(cfg['clock'])
        st.store[WJC] = ('loc', ('wjc',)) if cfg['writable'] else ('null',)
        st.store[HANDLER] = handler if cfg['locking'] else ('null',)
        st.store[CODE] = ('code',)
        # what an earlier push left behind
        st.store[WRITER] = ('loc', ('opt', WRITER, 0))
        st.cls[('opt', WRITER, 0)] = 'joedb::Async_Writer'
        st.store[CP] = ('cp', 0)
        st.store[LOG] = I(cfg.get('log', 0))
        eng.set_bound(st, ('shared',), lo=cfg['shared'], hi=cfg['shared'])
        if more:
            more(eng, st, L, vs)
    return setup


def find_handler(db, ctx):
    """the completion handler of the lock timeout"""
    found = []
    for f in db.fns(SS + 'refresh_lock_timeout'):
        rule = SessionRule()
        eng = Engine(db, rule)

        def setup(eng, st, L, vs):
            st.store[LOCKING] = I(1)
        for o in eng.run(f, setup):
            h = o.st.store.get(HANDLER)
            if isinstance(h, tuple) and h[0] == 'lamv':
                found.append(h)
        ctx.use(f)
    if not found:
        return None
    return found[0]


def run_session(ctx, db, name, cfg, handler, more=None, args=None):
    f = db.fns(SS + name)
    if not f:
        raise AnalysisError('anchor vanished: ' + SS + name)
    rule = SessionRule()
    eng = Engine(db, rule)
    outs = eng.run(f[0], session_setup(cfg, handler, more), args=args)
    ctx.use(f[0])
    ctx.use_engine(eng)
    rule.eng = eng
    return f[0], rule, outs


def loops_of(ev):
    for x in ev:
        if x[0] == 'loop':
            for t in x[1]:
                yield t
                yield from loops_of(t)


@check('C02', parts=('src',), floor=200,
       rule='Server::Session::push interpreted from every combination of {locking, server locked, client lock held, writable, shared} that satisfies the invariants, for both values of unlock_after, with the lock-timeout handler run (its own code) at every co_await; obligations on every path: writer created only under the session lock at the checkpoint announced by the client, every received byte written while the writer is engaged, checkpoint and upstream push before a success reply, no checkpoint after a timeout',
       trusted=['the server runs its handlers in one thread (asserted by the constructor: thread_count == 1), so control changes hands only at co_await'])
def c02(ctx):
    db = ctx.db
    need_fields(db, 'joedb::Server::Session', 'locking', 'push_writer', 'push_status')
    need_fields(db, 'joedb::Server', 'locked', 'client_lock', 'writable_journal_client')
    handler = find_handler(db, ctx)
    ctx.require(handler is not None, 'timeout:none', db.fns(SS + 'refresh_lock_timeout')[0], 'no lock timeout is started while a session is locked')
    success = 0
    for cfg in session_states():
        for ua in (0, 1):
            f, rule, outs = run_session(ctx, db, 'push', cfg, handler, args={0: I(ua)})
            for k, m, where, l, tr in rule.problems:
                ctx.bad('push:' + k, '%s:%s' % (rel(f['file']), l), 'during a push: ' + m, tr)
            for o in outs:
                if o.k == T:
                    continue
                ev = flat(o.st.ev)
                tr = trace(o.st.ev)
                for k, m in bad_state(rule, o.st):
                    ctx.bad('push:' + k, f, 'after a push: ' + m, tr)
                replies = [x for x in ev if x[0] == 'reply']
                ctx.require(len(replies) == 1, 'push:replies', f, 'a push gets %d replies' % len(replies), trace=tr)
                ok_reply = bool(replies) and replies[0][1] == ('code',)
                for x in [x for x in ev if x[0] == 'writer']:
                    ctx.require(x[1] == I(1) and x[2] is True, 'push:writer-lock', '%s:%s' % (rel(f['file']), x[-1]), 'data can be written to the journal by a session that does not hold the lock', trace=tr)
                    ctx.require(x[4], 'push:conflict', '%s:%s' % (rel(f['file']), x[-1]), 'data can be written to the journal although the push does not start at its checkpoint: the histories of the client and the server have diverged', trace=tr)
                for x in [x for x in ev if x[0] == 'cpat']:
                    ctx.require(x[1][0] == 'wpos' and x[2] is True, 'push:cpat', '%s:%s' % (rel(f['file']), x[-1]), 'a checkpoint is made elsewhere than at the end of the received data', trace=tr)
                cps = [i for i, x in enumerate(ev) if x[0] in ('cpat', 'cpush')]
                wr = [i for i, x in enumerate(ev) if x[0] == 'writer']
                if cps:
                    ctx.require(wr and wr[0] < cps[0], 'push:checkpoint-unwritten', f, 'a push that was refused checkpoints the journal', trace=tr)
                for x in [x for x in ev if x[0] in ('write', 'cpat')]:
                    ctx.require(x[-2] == I(1), 'push:%s-unlocked' % x[0], '%s:%s' % (rel(f['file']), x[-1]), 'the journal is %s although the session lost the lock (lock timeout)' % ('written' if x[0] == 'write' else 'checkpointed'), trace=tr)
                if ok_reply:
                    success += 1
                    moved = not Lin(rule.eng, o.st).le(('net', 1, 0), ('net', 0, 0))
                    if moved:
                        names = [x[0] for x in ev if x[0] in ('cpat', 'cpush')]
                        ctx.require('cpat' in names and 'cpush' in names and names.index('cpat') < names.index('cpush'), 'push:success-unsaved', f,
                                    'a push can be reported as successful although the received data was not checkpointed and pushed further', trace=tr)
                        i_rep = [i for i, x in enumerate(ev) if x[0] == 'reply'][0]
                        ctx.require(cps and cps[-1] < i_rep, 'push:early-reply', f, 'the client is told that its push succeeded before the data is checkpointed', trace=tr)
                if ua:
                    ctx.require(o.st.store.get(LOCKING) == I(0), 'push:unlock', f, 'a session keeps the lock after a push that should unlock it', trace=tr)
                for t in loops_of(o.st.ev):
                    for i, x in enumerate(t):
                        if x[0] == 'recv' and x[3] is True:
                            w = [y for y in t[i + 1:] if y[0] == 'write']
                            ctx.require(w and w[0][2] == x[1] and at_start(w[0][1]), 'push:unwritten', '%s:%s' % (rel(f['file']), x[-1]), 'received data is not written to the journal as it was received', trace=trace(t))
                        if x[0] == 'recv':
                            ctx.require(x[2] == I(0), 'push:offset', '%s:%s' % (rel(f['file']), x[-1]), 'pushed data is not received at the start of the buffer', trace=trace(t))
    if not success:
        raise AnalysisError('no path of Session::push ends in success')
    ctx.notes['success_paths'] = success


def at_start(v):
    return v == ('loc', ('elem0', ('fld', BUFFER, 'joedb::Buffer::data')))


def server_constructor(ctx, db):
    """a server of a shared journal does not lock it until a session asks"""
    class Start(Rule):
        merge = False
        max_states = 5000

        def inline(self, eng, f):
            return False

        def may_throw(self, eng, name, node):
            return False

        def models(self, name):
            return name.startswith('joedb::')

        def on_call(self, eng, st, call, obj, vs, e):
            m = call['n'].rsplit('::', 1)[-1]
            if m == 'is_shared':
                return [(st, ('shared',))]
            if m == 'emplace':
                st.ev += (('emplace', obj, e.get('l', 0)),)
                return [(st, ('void',))]
            return None

    fs = [f for f in db.fns('joedb::Server::Server') if f.get('body')]
    if not fs:
        raise AnalysisError('anchor vanished: joedb::Server::Server')
    for f in fs:
        eng = Engine(db, Start())
        ctx.use(f)
        some = 0
        for o in eng.run(f, None, this_cls='joedb::Server'):
            em = [x for x in flat(o.st.ev) if x[0] == 'emplace' and 'client_lock' in str(x[1])]
            some += bool(em)
            ctx.require(not em or eng.decide(o.st, ('shared',)) is False, 'constructor:shared', f, 'the server locks a journal shared with other processes as soon as it starts', 'a shared journal is not locked', trace(o.st.ev))
        ctx.require(some, 'constructor:exclusive', f, 'the server never locks a journal that is not shared', 'an exclusive journal is locked')


@check('C03', parts=('src',), floor=100,
       rule='Server::Session::{lock, unlock, cleanup, pull, push, read, check_hash, handshake} and the lock-timeout handler interpreted from every combination of session and server state satisfying the invariants, with the timeout handler and the other sessions interleaved at every co_await; obligations: the invariants hold again at every exit and co_await, waiting sessions leave their queue when resumed, releasing hands the lock to a waiter or frees the server, cleanup always releases and removes the session from every queue, and the completion handler of a session always runs cleanup',
       trusted=['the server runs its handlers in one thread (asserted by the constructor: thread_count == 1), so control changes hands only at co_await'])
def c03(ctx):
    db = ctx.db
    handler = find_handler(db, ctx)
    if handler is None:
        ctx.bad('timeout:none', db.fns(SS + 'refresh_lock_timeout')[0], 'no lock timeout is started while a session is locked')
        handler = ('null',)
    server_constructor(ctx, db)
    paths = 0
    for name in ('lock', 'unlock', 'cleanup', 'pull', 'push', 'read', 'check_hash', 'send'):
        if name not in ('send', 'read', 'check_hash') and not db.fns(SS + name):
            raise AnalysisError('anchor vanished: ' + SS + name)
        if not db.fns(SS + name):
            continue
        for cfg in session_states():
            for q in ((0, 1) if name in ('unlock', 'cleanup') else (None,)):
                def more(eng, st, L, vs):
                    if q is not None:
                        st.store[EMPTYQ] = I(q)
                f, rule, outs = run_session(ctx, db, name, cfg, handler, more)
                for k, m, where, l, tr in rule.problems:
                    ctx.bad('%s:%s' % (name, k), '%s:%s' % (rel(f['file']), l), 'in %s: %s' % (name, m), tr)
                for o in outs:
                    paths += 1
                    ev = flat(o.st.ev)
                    tr = trace(o.st.ev)
                    g = o.st.store.get
                    if o.k == T:
                        # the session ends: cleanup runs next, and needs the session to know that it holds the lock
                        if g(SLOCKED) == I(1) and g(LOCKING) == I(0) and cfg['locking'] == 0 and cfg['locked'] == 0 and not any(x[0] in ('timeout', 'woken', 'recv', 'reply') for x in ev):
                            ctx.bad(name + ':lost-lock', f, 'when %s fails, the server can stay locked for ever: the session does not know that it holds the lock' % name, tr)
                        ctx.ok()
                        continue
                    for k, m in bad_state(rule, o.st):
                        ctx.bad('%s:%s' % (name, k), f, 'after %s: %s' % (name, m), tr)
                    ctx.ok()
                    # queues
                    for i, x in enumerate(ev):
                        if x[0] != 'enq':
                            continue
                        after = ev[i + 1:]
                        w = [j for j, y in enumerate(after) if y[0] == 'woken']
                        ctx.require(w, '%s:no-wait' % name, f, 'a session enters %s without waiting' % x[1], trace=tr)
                        if w:
                            rest = after[w[0]:]
                            ctx.require(any(y[0] == 'deq' and y[1] == x[1] for y in rest), '%s:stays-in-%s' % (name, x[1]), f,
                                        'a session that was woken up stays in %s: a later wake-up would go to it instead of a session that waits' % x[1], trace=tr)
                    if name == 'lock':
                        ctx.require(g(LOCKING) == I(1) and g(SLOCKED) == I(1), 'lock:unlocked', f, 'lock() can return without having locked the server for this session', trace=tr)
                        if cfg['locked']:
                            ctx.require(any(x[0] == 'woken' for x in ev), 'lock:steals', f, 'lock() takes the lock of another session without waiting', trace=tr)
                    if name in ('unlock', 'cleanup'):
                        ctx.require(g(LOCKING) == I(0), name + ':kept', f, 'the session still holds the lock after %s()' % name, trace=tr)
                        ctx.require(g(HANDLER) == ('null',), name + ':timer', f, 'the lock timeout still runs after %s()' % name, trace=tr)
                        woken = [x for x in ev if x[0] == 'wake' and x[2]]
                        if not cfg['locking']:
                            ctx.require(not woken and g(SLOCKED) == I(cfg['locked']) and not [x for x in ev if x[0] == 'upunlock'], name + ':foreign', f,
                                        '%s() of a session that does not hold the lock releases the lock of another one' % name, trace=tr)
                        elif q:
                            ctx.require(g(SLOCKED) == I(0), name + ':stuck', f, 'the server stays locked after %s(), with nobody waiting' % name, trace=tr)
                            if cfg['shared'] and cfg['writable']:
                                ctx.require(rule.engaged(o.st, CLOCK) is False and g(UP) == I(0), name + ':shared', f,
                                            'the journal shared with other processes stays locked after %s()' % name, trace=tr)
                        else:
                            ctx.require(woken and g(SLOCKED) == I(1), name + ':handoff', f,
                                        '%s() does not hand the lock over to the first waiting session (server locked = %s)' % (name, const(g(SLOCKED) or ('?',))), trace=tr)
                    if name == 'cleanup':
                        for qn in ('lock_waiters', 'pull_waiters'):
                            ctx.require(any(x[0] == 'deq' and x[1] == qn for x in ev), 'cleanup:' + qn, f, 'a session that ends can stay in %s' % qn, trace=tr)
                    cp = [i for i, x in enumerate(ev) if x[0] == 'cpat']
                    if name == 'push' and cp:
                        ctx.require(any(x[0] == 'wake' and 'pull_waiters' in x[1] for x in ev[cp[0]:]), 'push:waiters', f,
                                    'sessions that wait for new data are not woken up after a push', trace=tr)

    # the timeout handler itself
    for cfg in session_states():
        if not cfg['locking'] or handler == ('null',):
            continue
        for q in (0, 1):
            rule = SessionRule()
            eng = Engine(db, rule)
            f = db.functions[handler[1]]

            def more(eng, st, L, vs):
                st.store[EMPTYQ] = I(q)
            st = State()
            session_setup(cfg, handler, more)(eng, st, ('this',), [])
            st.store[HANDLER] = ('null',)
            eng.frames = [{'this': ('this',), 'vars': {}, 'refs': set(), 'f': None}]
            eng.stack = []
            eng.thrown = [[]]
            for o in eng.call_body(st, f, None, [('arg', 'error')], {'l': f['l']}, lam=handler):
                if o.k == T:
                    continue
                ctx.require(o.st.store.get(LOCKING) == I(0), 'timeout:kept', f, 'a session keeps the lock after the lock timeout', trace=trace(o.st.ev))
                for k, m in bad_state(rule, o.st):
                    ctx.bad('timeout:' + k, f, 'after the lock timeout: ' + m, trace(o.st.ev))
    # the completion handler
    for f in db.fns('joedb::asio::Server::listener'):
        lams = [y for x in walk(f['body']) if x.get('k') == 'call' and x['n'].endswith('co_spawn') for a in x['a'] for y in walk(a) if y.get('k') == 'lam']
        if not lams:
            raise AnalysisError('anchor vanished: completion handler of the sessions')
        for lam in lams:
            g = db.functions[lam['f']]
            rule = CompletionRule()
            eng = Engine(db, rule)
            outs = eng.run(g)
            ctx.use(g)
            for o in outs:
                ctx.require(any(x[0] == 'cleanup' for x in flat(o.st.ev)), 'listener:cleanup', g, 'a session can end without cleanup: it would keep its lock and its place in the queues', trace=trace(o.st.ev))
                ctx.require(o.k != T or any(x[0] == 'cleanup' for x in flat(o.st.ev)), 'listener:throws', g, 'the completion handler of a session can throw', trace=trace(o.st.ev))
            ctx.require(any(c['n'] for c in lam['caps'] if c.get('by') != 'this' and (c.get('init') or {}).get('k')), 'listener:owner', g, 'the completion handler does not own the session')
    # removing from a queue
    for f in db.fns(SS + 'remove_from_queue'):
        names = [x['n'].rsplit('::', 1)[-1] for x in walk(f['body']) if x.get('k') == 'call']
        ctx.require('erase' in names and ('find' in names or 'remove' in names), 'remove_from_queue', f, 'remove_from_queue does not erase the session')
    ctx.notes['paths'] = paths


class CompletionRule(Rule):
    merge = False

    def may_throw(self, eng, name, node):
        return name.endswith('::cleanup') or None

    def inline(self, eng, f):
        return False

    def on_call(self, eng, st, call, obj, vs, e):
        if call['n'].endswith('Session::cleanup'):
            z = st.copy()
            z.ev += (('cleanup', e.get('l', 0)),)
            eng.thrown[-1].append((z, ('exc', '?', None)))
            st.ev += (('cleanup', e.get('l', 0)),)
            return [(st, ('void',))]
        return None


# ---------------------------------------------------------------- protocol

SIZES = {'char': 1, 'long': 8, 'bool': 1, 'int': 4, 'unsigned char': 1}


def type_size(t):
    t = (t or '').rstrip(';').strip().replace('const ', '').rstrip(' &')
    if t in SIZES:
        return SIZES[t]
    if t.startswith('std::array<'):
        e, n = t[len('std::array<'):-1].rsplit(',', 1)
        es = {'unsigned int': 4, 'char': 1, 'unsigned char': 1}.get(e.strip())
        if es:
            return es * int(n.strip())
    if t in ('joedb::SHA_256::Hash',):
        return 32
    return None


class WireRule(Rule):
    """what is written to and read from the wire, byte position by byte position"""
    merge = False
    iter_hook = False
    max_states = 50000
    prefix = ()

    def may_throw(self, eng, name, node):
        return False

    def inline(self, eng, f):
        return f['n'].startswith(self.prefix) and f['n'].rsplit('::', 1)[-1] not in ('download',)

    def models(self, name):
        return name.startswith(('joedb::Buffer', 'joedb::Channel', 'joedb::asio'))

    def index(self, st, B):
        return st.store.get(('fld', B, 'joedb::Buffer::index'))

    def on_call(self, eng, st, call, obj, vs, e):
        n = call['n']
        m = n.rsplit('::', 1)[-1]
        l = e.get('l', 0)
        if n.startswith('joedb::Buffer<') and m in ('write', 'read') and obj is not None:
            i = self.index(st, obj)
            size = type_size(e.get('ta'))
            if size is None or not (i is not None and is_int(i)):
                st.ev += (('unknown', m, e.get('ta'), l),)
                return [(st, st.fresh('wire'))]
            st.store[('fld', obj, 'joedb::Buffer::index')] = I(i[1] + size)
            if m == 'write':
                st.ev += (('put', i[1], size, eng.value(st, vs[0]), l),)
                return [(st, ('void',))]
            msg = st.store.get(('ghost', 'msg'), I(0))[1]
            t = self.incoming(st, msg, i[1], size, obj)
            st.ev += (('take', i[1], size, t, l),)
            return [(st, t)]
        if n.startswith('joedb::Lock<') and m.startswith('operator'):
            return [(st, ('loc', ('channel',)))]
        if n == 'joedb::Channel::write':
            st.ev += (('send', vs[0], eng.value(st, vs[1]), self.first(eng, st, vs[0]), l),)
            return [(st, ('void',))]
        if n in ('joedb::Channel::read', 'joedb::Channel::read_some'):
            k = st.store.get(('ghost', 'msg'), I(0))[1] + 1
            st.store[('ghost', 'msg')] = I(k)
            st.ev += (('get', vs[0], eng.value(st, vs[1]), k, l),)
            if vs[0][0] == 'loc':
                L = vs[0][1]
                if L[0] == 'elem0':
                    eng.touch(st, L[1], ('wire', k))
                    st.store[('idx', L[1], I(0))] = ('in', k, 0, 1)
                elif eng.value(st, vs[1]) == I(1):
                    st.store[L] = ('in', k, 0, 1)
            return [(st, st.fresh('wire') if n.endswith('some') else ('void',))]
        if m == 'read_buffer':
            k = st.store.get(('ghost', 'msg'), I(0))[1] + 1
            st.store[('ghost', 'msg')] = I(k)
            for K in list(st.store):
                if K[0] == 'fld' and K[2] == 'joedb::Buffer::index':
                    st.store[K] = vs[0]
            st.store[('fld', BUFFER, 'joedb::Buffer::index')] = vs[0]
            st.ev += (('get', vs[0], vs[1], k, l),)
            return [(st, st.fresh('wire'))]
        if m == 'write_buffer':
            st.ev += (('send', None, self.index(st, BUFFER), st.store.get(CODE), l),)
            return [(st, ('void',))]
        if m == 'get_server':
            return [(st, ('loc', SRV))]
        if m in ('get_checkpoint', 'get_journal_checkpoint'):
            return [(st, ('checkpoint',))]
        if m == 'is_pullonly' and ('ghost', 'pullonly') in st.store:
            return [(st, st.store[('ghost', 'pullonly')])]
        if n.startswith('joedb::'):
            st.ev += (('call', n, tuple(eng.value(st, v) if v[0] == 'loc' and v[1][0] in ('var', 'tmp') else v for v in vs), obj, l),)
        elif m in ('expires_after', 'expires_at'):
            st.ev += (('call', n, tuple(eng.snap(st, v[1]) if v[0] == 'loc' else v for v in vs), obj, l),)
        return None

    def incoming(self, st, msg, i, size, obj):
        return ('in', msg, i, size)

    def first(self, eng, st, p):
        if p[0] == 'loc' and p[1][0] == 'elem0':
            return st.store.get(('idx', p[1][1], I(0)))
        return None

    def on_await(self, eng, st, v, node):
        return [(st.copy(), v)]


def wire(db, ctx, key, prefix, setup=None, args=None, cls=WireRule):
    f = db.fns(key)
    if not f:
        raise AnalysisError('anchor vanished: ' + key)
    rule = cls()
    rule.prefix = prefix
    eng = Engine(db, rule)
    outs = eng.run(f[0], setup, args=args)
    ctx.use(f[0])
    ctx.use_engine(eng)
    return f[0], eng, outs


def messages(ev):
    """[(direction, layout or size)]: the puts before each send make its layout; the data loops are dropped"""
    out = []
    puts = []
    for x in ev:
        if x[0] == 'put':
            puts.append(x)
        elif x[0] == 'send':
            out.append(('send', tuple(puts), x[2], x[3]))
            puts = []
        elif x[0] == 'get':
            out.append(('get', x[1], x[2], x[3]))
        elif x[0] == 'loop':
            if any(y[0] == 'send' for t in x[1] for y in t) and puts:
                out.append(('send', tuple(puts), None, None))
                puts = []
        elif x[0] == 'unknown':
            out.append(('unknown', x[1], x[2]))
    return out


def layout(puts):
    return tuple((p[1], p[2]) for p in puts)


CLIENT = 'joedb::Server_Connection::'


@check('C04', parts=('src',), floor=60,
       rule='both ends of the protocol interpreted: for every request, the code, the position and size of every field and the total length that the client writes are compared with what the server dispatches on, reads and decodes, and the replies in the other direction; the meaning of each field is compared through what the client writes in it and what the server uses it for; every path of a client operation that returns normally has compared the reply with the code of the request')
def c04(ctx):
    db = ctx.db
    CB = ('fld', ('this',), 'joedb::Server_Client::buffer')

    cache = {}

    def dispatch(code):
        """what the server does with a request code"""
        if code not in cache:
            cache[code] = dispatch1(code)
        return cache[code]

    def server(name, args):
        if (name, args) not in cache:
            cache[name, args] = server1(name, args)
        return cache[name, args]

    def dispatch1(code):

        class Dispatch(WireRule):
            def inline(self, eng, f):
                return False

            def incoming(self, st, msg, i, size, obj):
                return I(code) if size == 1 and i == 0 else ('in', msg, i, size)
        f, eng, outs = wire(db, ctx, SS + 'run', (), cls=Dispatch)
        res = set()
        for o in outs:
            for x in flat(o.st.ev):
                if x[0] == 'call' and x[1].startswith(SS):
                    name = x[1][len(SS):]
                    if name in ('handshake', 'log', 'get_server'):
                        continue
                    res.add((name, tuple(I(1) if is_int(a) and a[1] else a for a in x[2])))
                elif x[0] == 'send':
                    res.add(('reply', (x[2],)))
        return res

    def server1(name, args):
        """(request layouts, total request bytes, reply layouts, roles)"""
        f, eng, outs = wire(db, ctx, SS + name, (SS,), setup=server_setup, args={i: a for i, a in enumerate(args)})
        reqs, replies, roles, takes = set(), set(), {}, set()
        for o in outs:
            ms = messages(o.st.ev)
            if o.k == T:
                continue
            gets = [m for m in ms if m[0] == 'get']
            first = gets[0] if gets else None
            reqs.add((const(first[1]), const(first[2])) if first else None)
            sends = [m for m in ms if m[0] == 'send']
            if sends:
                s = sends[0]
                size = const(s[2]) if s[2] is not None else (max(p[1] + p[2] for p in s[1]) if s[1] else None)
                replies.add((layout(s[1]), size))
            else:
                replies.add(None)
            for x in flat(o.st.ev):
                if x[0] == 'take':
                    takes.add((x[1], x[2]))
                if x[0] == 'call':
                    m = x[1].rsplit('::', 1)[-1]
                    for k, a in enumerate(x[2]):
                        for u in inputs(a):
                            roles.setdefault(u[2], set()).add('%s#%d' % (m, k))
        return f, reqs, replies, roles, tuple(sorted(takes))

    def server_setup(eng, st, L, vs):
        st.store[('fld', BUFFER, 'joedb::Buffer::index')] = I(1)
        st.store[LOG] = I(0)
        st.store[LOCKING] = I(1)
        st.store[SLOCKED] = I(1)

    def client(name, args=None, cls=CLIENT):
        f, eng, outs = wire(db, ctx, cls + name, ('joedb::Server_Connection::', 'joedb::Server_Client::'), args=args)
        return f, eng, outs

    def inputs(t):
        out = []
        if isinstance(t, tuple):
            if t and t[0] == 'in' and len(t) == 4:
                return [t]
            for x in t:
                out += inputs(x)
        return out

    WHAT = {
        'expires_after#0': 'wait', 'get_async_tail_reader#0': 'checkpoint',
        'get_async_reader#0': 'from', 'get_async_reader#1': 'until',
        'get_fast_hash#1': 'checkpoint', 'get_full_hash#1': 'checkpoint',
    }

    def one(what, cf, ceng, o, args_key, expect_server, expect_args, roles):
        """one client operation against the server"""
        ms = messages(o.st.ev)
        tr = trace(o.st.ev)
        for m in ms:
            if m[0] == 'unknown':
                raise AnalysisError('%s: field of unknown size on the wire: %s' % (what, m[2]))
        sends = [m for m in ms if m[0] == 'send']
        gets = [m for m in ms if m[0] == 'get']
        if not sends:
            return
        s = sends[0]
        puts = s[1]
        code = puts[0][3] if puts else s[3]
        if not (code is not None and is_int(code)):
            ctx.bad(what + ':code', cf, 'the request code of %s is not known' % what, tr)
            return
        total = const(s[2]) if s[2] is not None else None
        size = max([p[1] + p[2] for p in puts], default=1)
        if total is not None:
            ctx.require(total == size, what + ':length', cf, '%s sends %s bytes, but writes %d bytes in its request' % (what, total, size), trace=tr)
        d = dispatch(code[1])
        ch = chr(code[1]) if 32 < code[1] < 127 else str(code[1])
        names = {x[0] for x in d}
        ctx.require(names == expect_server, what + ':dispatch', cf, "the server answers request '%s' (%s) with %s instead of %s" % (ch, what, sorted(names), sorted(expect_server)), sample="'%s': %s -> %s" % (ch, what, sorted(d)), trace=tr)
        if names != expect_server:
            return
        for name, args in sorted(d):
            if name == 'reply':
                ctx.require(args == (I(1),) and size == 1, what + ':reply-length', cf, "the reply to request '%s' does not have the length of its code" % ch, trace=tr)
                continue
            if expect_args is not None:
                ctx.require(args == expect_args, what + ':arguments', cf, "request '%s' (%s) is executed by the server with arguments %s instead of %s" % (ch, what, [const(a) for a in args], [const(a) for a in expect_args]), trace=tr)
            if name == 'unlock':
                continue
            sf, reqs, replies, sroles, takes = server(name, args)
            ctx.require(reqs == {(1, size - 1)}, what + ':request-size', sf, "the server reads %s (offset, size) after the code of request '%s', but the client sends %d bytes" % (sorted(reqs, key=str), ch, size - 1), trace=tr)
            lay = layout(puts[1:])
            ctx.require(takes == lay, what + ':fields', sf, "the fields (offset, size) of request '%s' are written as %s and read as %s" % (ch, lay, takes), trace=tr)
            for off, rs in sroles.items():
                ws = sorted({'checkpoint' if name == 'pull' and r == 'get_async_reader#0' else WHAT[r] for r in rs if r in WHAT})
                if ws:
                    w = ', '.join(ws)
                    c = [p for p in puts if p[1] == off]
                    ctx.require(bool(c) and any(roles(c[0][3], x) for x in ws), what + ':meaning:' + w, sf, "the server uses the field at offset %d of request '%s' as '%s', but the client writes %s there" % (off, ch, w, term(c[0][3]) if c else 'nothing'), trace=tr)
            if not gets:
                continue
            got = const(gets[0][2])
            rsizes = {r[1] if r else None for r in replies}
            if name == 'push':
                rsizes.discard(None)
            ctx.require(rsizes == {got}, what + ':reply-size', sf, "the server sends a reply of %s bytes to request '%s', and the client reads %s" % (sorted(map(str, rsizes)), ch, got), trace=tr)
            for r in replies:
                if r and got is not None and got > 1:
                    ctaken = tuple(sorted({(x[1], x[2]) for x in flat(o.st.ev) if x[0] == 'take' and x[1] >= 1}))
                    if ctaken:
                        ctx.require(r[0] == ctaken, what + ':reply-fields', sf, "the reply to request '%s' is written as %s and read as %s" % (ch, r[0], ctaken), trace=tr)
        if gets and o.k != T and expect_args != 'nocheck':
            first = ('in', gets[0][3], 0, 1)
            if what not in ('handshake', 'pread', 'ping'):
                eq = ceng.decide(o.st, ceng.binop(o.st, '==', first, code, 'bool'))
                ctx.require(eq is True, what + ':unchecked', cf, '%s can return normally although the reply of the server is not the code of the request' % what, trace=tr)

    def param(f, i):
        p = f['ps'][i]
        return ('param', p['n']) if p.get('ref') else ('arg', p['n'])

    from .files import minus

    # what a reply announces is the end of the data that follows
    class SendRule(WireRule):
        def on_call(self, eng, st, call, obj, vs, e):
            if call['n'].startswith('joedb::Async_Reader::'):
                m = call['n'].rsplit('::', 1)[-1]
                if m in ('get_end', 'get_current'):
                    return [(st, (m,) + ((st.store.get(('ghost', 'reads'), I(0))[1],) if m == 'get_current' else ()))]
                if m == 'get_remaining':
                    return [(st, minus(('get_end',), ('get_current', st.store.get(('ghost', 'reads'), I(0))[1])))]
                if m == 'read':
                    st.store[('ghost', 'reads')] = I(st.store.get(('ghost', 'reads'), I(0))[1] + 1)
            return WireRule.on_call(self, eng, st, call, obj, vs, e)

    f, eng, outs = wire(db, ctx, SS + 'send', (SS,), setup=server_setup, cls=SendRule)
    for o in outs:
        if o.k == T:
            continue
        puts = [x for x in flat(o.st.ev) if x[0] == 'put' and x[1] == 1 and x[2] == 8]
        ctx.require(puts and all(x[3] == ('get_end',) for x in puts), 'send:announced', f, 'the position announced to the client is not the end of the data sent to it', 'announces the end of the data', trace(o.st.ev))

    # a client that does not want data gets none; one that takes the lock gets what is there once it has it
    class PullRule(WireRule):
        def inline(self, eng, f):
            return WireRule.inline(self, eng, f) and f['n'] != SS + 'lock'

        def now(self, st):
            return st.store.get(('ghost', 'now'), I(0))[1]

        def on_await(self, eng, st, v, node):
            y = st.copy()
            y.store[('ghost', 'now')] = I(self.now(y) + 1)
            return [(y, v)]

        def on_call(self, eng, st, call, obj, vs, e):
            m = call['n'].rsplit('::', 1)[-1]
            if m in ('get_checkpoint', 'get_journal_checkpoint'):
                return [(st, ('checkpoint', self.now(st)))]
            if m in ('get_async_tail_reader', 'get_async_reader'):
                a = [eng.value(st, v) for v in vs]
                st.ev += (('reader', a[0], a[1] if len(a) > 1 else ('checkpoint', self.now(st)), e.get('l', 0)),)
                return [(st, st.fresh('reader'))]
            if call['n'] == SS + 'lock':
                st.ev += (('locked', e.get('l', 0)),)
                return [(st, ('void',))]
            return WireRule.on_call(self, eng, st, call, obj, vs, e)

    for lk in (0, 1):
        for data in (0, 1):
            f, eng, outs = wire(db, ctx, SS + 'pull', (SS,), setup=server_setup, args={0: I(lk), 1: I(data)}, cls=PullRule)
            for o in outs:
                if o.k == T:
                    continue
                ev = flat(o.st.ev)
                rd = [i for i, x in enumerate(ev) if x[0] == 'reader']
                ctx.require(len(rd) == 1, 'pull:one', f, 'the answer to a pull is made of %d pieces' % len(rd), 'one answer', trace(o.st.ev))
                if len(rd) != 1:
                    continue
                x = ev[rd[0]]
                if data:
                    ctx.require(bool(inputs(x[1])) and x[2][0] == 'checkpoint', 'pull:data', f, 'the data sent does not go from the checkpoint of the client to that of the server', 'from the checkpoint of the client', trace(o.st.ev))
                else:
                    ctx.require(x[1] == x[2] and x[1][0] == 'checkpoint', 'pull:no-data', f, 'data may be sent to a client that asked for none', 'no data', trace(o.st.ev))
                if lk:
                    ctx.require(any(y[0] == 'locked' for y in ev[:rd[0]]) and not any(y[0] == 'locked' for y in ev[rd[0]:]), 'pull:locked', f, 'the answer to a pull is computed before the lock is taken', 'answers once locked', trace(o.st.ev))

    # the answer to a push is its outcome, whatever the data received in the meantime left in the buffer
    class PushRule(WireRule):
        def inline(self, eng, f):
            return WireRule.inline(self, eng, f) and f['n'] not in (SS + 'lock', SS + 'unlock')

        def on_call(self, eng, st, call, obj, vs, e):
            m = call['n'].rsplit('::', 1)[-1]
            r = WireRule.on_call(self, eng, st, call, obj, vs, e)
            if m == 'read_buffer' and vs[0] == I(0):
                for x, v in r:
                    x.ctr += 1
                    x.store[CODE] = ('data', x.ctr)
            if m == 'write_buffer':
                for x, v in r:
                    x.ev += (('answer', x.store.get(CODE), e.get('l', 0)),)
            return r

    for ul in (0, 1):
        f, eng, outs = wire(db, ctx, SS + 'push', (SS,), setup=server_setup, args={0: I(ul)}, cls=PushRule)
        for o in outs:
            if o.k == T:
                continue
            a = [x for x in flat(o.st.ev) if x[0] == 'answer']
            ctx.require(len(a) == 1 and not (a[0][1] or ('data',))[0] in ('data', 'phi'), 'push:answer', f, 'the answer to a push is not its outcome: the data pushed was received in its place', 'answers the outcome', trace(o.st.ev))

    n = 0
    # pull, for each combination of locking and data
    for lk in (0, 1):
        for data in (0, 1):
            f, eng, outs = client('pull', {0: I(lk), 1: I(data)})
            def roles(v, w, f=f):
                return {'wait': lambda: contains(v, param(f, 3)) or "count" in str(v), 'checkpoint': lambda: contains(v, ('checkpoint',))}.get(w, lambda: False)()
            for o in outs:
                if o.k == T:
                    continue
                one('pull(lock=%d,data=%d)' % (lk, data), f, eng, o, None, {'pull'}, (I(lk), I(data)), roles)
                n += 1
                ev = [x for x in flat(o.st.ev) if x[0] == 'call']
                names = [x[1].rsplit('::', 1)[-1] for x in ev]
                got = [i for i, m in enumerate(names) if m == 'download']
                cks = [i for i, m in enumerate(names) if m in ('soft_checkpoint_at', 'soft_checkpoint', 'hard_checkpoint', 'hard_checkpoint_at', 'checkpoint')]
                if data:
                    ctx.require(len(got) == 1 and len(cks) == 1 and cks[0] > got[0] and 'get_async_tail_writer' in names[:got[0]], 'pull:stored', f, 'the data received is not written at the end of the journal, then checkpointed', 'downloaded, then checkpointed', trace(o.st.ev))
                else:
                    ctx.require(not got and not cks, 'pull:nothing', f, 'data is received although none was asked for', 'nothing received', trace(o.st.ev))
    for ul in (0, 1):
        f, eng, outs = client('push', {3: I(ul)})
        def roles(v, w, f=f):
            return v == param(f, {'from': 1, 'until': 2}.get(w, 0))
        for o in outs:
            if o.k == T:
                continue
            one('push(unlock=%d)' % ul, f, eng, o, None, {'push'}, (I(ul),), roles)
            n += 1
            rs = [x for x in flat(o.st.ev) if x[0] == 'call' and x[1].rsplit('::', 1)[-1] in ('get_async_reader', 'get_async_tail_reader')]
            ctx.require(len(rs) == 1 and rs[0][1].endswith('get_async_reader') and tuple(rs[0][2][:2]) == (param(f, 1), param(f, 2)), 'push:range', f, 'the data pushed is not what the request announces', 'pushes [from, until)', trace(o.st.ev))
    f, eng, outs = client('unlock')
    for o in outs:
        if o.k != T:
            one('unlock', f, eng, o, None, {'unlock', 'reply'}, None, lambda v, w: False)
            n += 1
    f, eng, outs = client('pread')
    def roles(v, w, f=f):
        off = param(f, 2)
        return v == off if w == 'from' else contains(v, off) and contains(v, param(f, 1))
    for o in outs:
        if o.k != T:
            one('pread', f, eng, o, None, {'read'}, None, roles)
            n += 1
    for cc in db.enum('joedb::Content_Check')['items']:
        if cc[0] == 'none':
            continue
        f, eng, outs = client('handshake', {1: I(cc[1])})
        for o in outs:
            if o.k == T:
                continue
            one('handshake', f, eng, o, None, {'check_hash'}, None, lambda v, w: w == 'checkpoint' and contains(v, ('checkpoint',)))
            n += 1
            # the kind of hash that the server computes is the one that the client computed
            ms = [m for m in messages(o.st.ev) if m[0] == 'send']
            mine = {h for h in ('get_fast_hash', 'get_full_hash') if any(h in str(p[3]) for p in ms[0][1])} if ms else set()
            code = ms[0][1][0][3] if ms and ms[0][1] else ('?',)

            def setup(eng, st, L, vs):
                server_setup(eng, st, L, vs)
                st.store[CODE] = code
            sf, seng, souts = wire(db, ctx, SS + 'check_hash', (SS,), setup=setup)
            theirs = {x[1].rsplit('::', 1)[-1] for z in souts for x in flat(z.st.ev) if x[0] == 'call' and x[1].endswith('_hash')} & {'get_fast_hash', 'get_full_hash'}
            ctx.require(mine == theirs and len(mine) == 1, 'handshake:kind', sf, 'the client compares %s with %s of the server' % (sorted(mine), sorted(theirs)))
    # ping: the reply must be consumed entirely
    f, eng, outs = client('locked_ping', cls='joedb::Server_Client::')
    for o in outs:
        one('ping', f, eng, o, None, {'pull'}, (I(0), I(0)), lambda v, w: True)
        n += 1
    # connection handshake
    f, eng, outs = client('connect', cls='joedb::Server_Client::')
    sf, seng, souts = wire(db, ctx, SS + 'handshake', (SS,), setup=lambda eng, st, L, vs: st.store.__setitem__(LOG, I(0)))
    sreq = {tuple((const(m[1]), const(m[2])) for m in messages(o.st.ev) if m[0] == 'get') for o in souts if o.k != T}
    srep = {(layout(m[1]), const(m[2])) for o in souts if o.k != T for m in messages(o.st.ev) if m[0] == 'send'}
    stake = {tuple((x[1], x[2]) for x in flat(o.st.ev) if x[0] == 'take') for o in souts if o.k != T}
    sval = [{p[1]: p[3] for m in messages(o.st.ev) if m[0] == 'send' for p in m[1]} for o in souts if o.k != T]
    for o in outs:
        if o.k == T:
            continue
        n += 1
        ms = messages(o.st.ev)
        s = [m for m in ms if m[0] == 'send'][0]
        g = [m for m in ms if m[0] == 'get'][0]
        tr = trace(o.st.ev)
        ctx.require(sreq == {((0, const(s[2])),)} and stake == {layout(s[1])}, 'connect:request', sf, 'the client sends %s in %s bytes, the server reads %s of %s' % (layout(s[1]), const(s[2]), sorted(stake), sorted(sreq)), trace=tr)
        ctake = tuple((x[1], x[2]) for x in flat(o.st.ev) if x[0] == 'take')
        full = {(((0, 5),) + r[0], r[1]) for r in srep}
        ctx.require(full == {(ctake, const(g[2]))}, 'connect:reply', sf, 'the server sends %s, the client reads %s of %s bytes' % (sorted(full), ctake, const(g[2])), trace=tr)
        # meaning of the fields of the reply
        z = o.st.store
        for name, pred in (('session_id', lambda v: contains_field(v, 'Session::id')), ('server_checkpoint', lambda v: contains(v, ('checkpoint',)))):
            v = z.get(('fld', ('this',), 'joedb::Server_Client::' + name))
            offs = [u[2] for u in inputs(v)]
            ctx.require(len(offs) == 1 and all(pred(w.get(offs[0])) for w in sval), 'connect:meaning:' + name, f, 'the field of the reply that the client stores as %s is not what the server writes there' % name, trace=tr)
        ctx.require(all(is_int(w.get(29, ('?',))) for w in sval), 'connect:mode', sf, 'unknown server mode')
        po = z.get(('fld', ('this',), 'joedb::Server_Client::pullonly_server'))
        modes = {}
        for ch in 'RW':
            t = eng.binop(o.st, '==', ('in', 1, 29, 1), I(ord(ch)), 'bool')
            modes[ch] = eng.decide(o.st, t)
        ctx.require((po == I(1) and modes['R'] is True) or (po == I(0) and modes['W'] is True), 'connect:pullonly', f, 'the client does not record whether the server accepts writes', trace=tr)
    ok = set()
    for o in souts:
        if o.k == T:
            continue
        w = {p[1]: p[3] for m in messages(o.st.ev) if m[0] == 'send' for p in m[1]}
        ok.add(const(w.get(29, ('?',))))
    ctx.require(ok == {ord('R'), ord('W')}, 'connect:modes', sf, 'the modes announced by the server are not exactly R and W')
    for w, po, want in ((0, 0, 'R'), (1, 0, 'W'), (1, 1, 'R')):
        def setup(eng, st, L, vs):
            st.store[LOG] = I(0)
            st.store[WJC] = ('loc', ('wjc',)) if w else ('null',)
            st.store[('ghost', 'pullonly')] = I(po)
        _, _, zouts = wire(db, ctx, SS + 'handshake', (SS,), setup=setup)
        said = {const(p[3]) for z in zouts if z.k != T for m in messages(z.st.ev) if m[0] == 'send' for p in m[1] if p[1] == 29}
        ctx.require(said == {ord(want)}, 'connect:announced-mode', sf, 'a server that %s announces mode %s instead of %s' % ('is pull-only' if want == 'R' else 'accepts writes', ' '.join(chr(c) for c in said if c), want))
    ctx.notes['client_paths'] = n
    # the descriptions: every request understood is documented
    codes = [c for c in range(32, 127) if dispatch(c)]
    ctx.notes['request_codes'] = ''.join(chr(c) for c in codes)
    ctx.require(set(chr(c) for c in codes) >= set('HIrDEFGMNO'), 'codes', db.fns(SS + 'run')[0], 'the server does not understand all the requests of the clients: ' + ctx.notes['request_codes'])


def contains_field(t, name):
    return isinstance(t, tuple) and (any(contains_field(x, name) for x in t) or (t and t[0] == 'fld' and t[2].endswith(name)))


# ---------------------------------------------------------------------------
# C05: the keep-alive thread and its client

KAT = 'joedb::Keep_Alive_Thread'
PING = 'joedb::Ping_Client'
LOCK = 'joedb::Lock<joedb::Channel &>'
FREE, RUNNING = 0, 1


def bare(t):
    t = t.replace('const ', '').strip()
    return t[:-1].strip() if t.endswith('&') else t


class KeepAliveRule(Rule):
    """typestate: (depth of the channel lock, thread may run, phase of the exchange)
       phase: 0 nothing sent since locking, 1 request sent, 2 reply read"""
    max_states = 20000
    merge = False

    root = None

    def __init__(self, shared, mine):
        self.shared, self.mine, self.used = shared, mine, 0

    def on_write(self, eng, st, L, v, node):
        if L[0] == 'fld' and L[2] == KAT + '::thread_must_stop' and self.root and self.root.startswith(KAT + '::s'):
            st.ev += (('set', v, st.ts[0], (node or {}).get('l', 0)),)

    def inline(self, eng, f):
        return f.get('cls') in self.mine or f['n'].startswith(KAT + '::')

    def may_throw(self, eng, name, node):
        return None

    def models(self, name):
        return name.startswith(('joedb::Channel', 'joedb::Lock<'))

    def on_member(self, eng, st, L, node):
        if node['n'] in self.shared:
            self.used += 1
            d, live, ph = st.ts
            st.ev += (('use', node['n'].rsplit('::', 1)[-1], d > 0 or live == FREE, node.get('l', 0)),)
            if self.root == KAT + '::keep_alive':
                st.ts = (d, live, 4)

    def on_ctor(self, eng, st, node, cls, L, args):
        if bare(cls) == LOCK:
            d, live, ph = st.ts
            st.ev += (('lock', d, node.get('l', 0)),)
            eng.thrown[-1].append((st.copy(), ('exc', '?', None)))
            st.ts = (d + 1, live, 0)
            return [(st, ('obj', L))]
        if cls.startswith('beman::'):
            return [(st, ('obj', L))]
        if bare(cls) in ('std::thread', 'std::jthread') and args and self.root == KAT + '::start' and not node.get('mv') and not node.get('cp'):
            st.ev += (('thread', node.get('l', 0)),)
            return [(st, ('obj', L))]
        return None

    def on_dtor(self, eng, st, cls, L, line):
        if bare(cls) == LOCK:
            d, live, ph = st.ts
            st.ev += (('unlock', ph, line),)
            st.ts = (d - 1, live, 0)
            return True
        return False

    def on_call(self, eng, st, call, obj, vs, e):
        n = call['n']
        m = n.rsplit('::', 1)[-1]
        l = e.get('l', 0)
        d, live, ph = st.ts
        if n.startswith('joedb::Lock<') and m.startswith('operator'):
            return [(st, ('loc', ('channel',)))]
        if n.startswith('joedb::Channel::') and m in ('read', 'read_some', 'write', 'write_some'):
            w = m.startswith('write')
            z = st.copy()
            z.ts = (d, live, 3)
            eng.thrown[-1].append((z, ('exc', '?', None)))
            st.ev += (('write' if w else 'read', d > 0 or live == FREE, ph, l),)
            st.ts = (d, live, 1 if w else 2)
            return [(st, st.fresh('n') if m.endswith('some') else ('void',))]
        if n == KAT + '::start' and self.root != n:
            st.ev += (('start', d, l),)
            st.ts = (d, RUNNING, ph)
            return [(st, ('void',))]
        if n == KAT + '::stop' and self.root != n and not self.root.startswith(KAT):
            z = st.copy()
            eng.thrown[-1].append((z, ('exc', '?', None)))
            st.ev += (('stop', d, l),)
            st.ts = (d, FREE, ph)
            return [(st, ('void',))]
        if n.startswith('std::condition_variable'):
            st.ev += ((m, d, ph, l),)
            if m.startswith('wait'):
                st.ts = (d, live, 4 if len(vs) > (2 if m == 'wait_for' or m == 'wait_until' else 1) else 0)
                eng.thrown[-1].append((st.copy(), ('exc', '?', None)))
            return [(st, st.fresh(m))]
        if n == 'std::thread::join':
            st.ev += (('join', d, l),)
            return [(st, ('void',))]
        if n == 'std::thread::joinable':
            return [(st, ('joinable',))]
        if m == 'locked_ping' and self.root == KAT + '::keep_alive':
            eng.thrown[-1].append((st.copy(), ('exc', '?', None)))
            st.ev += (('ping', d, ph, l),)
            return [(st, ('void',))]
        if m == 'get_channel':
            return [(st, ('loc', ('the channel',)))]
        return None


def fields_used(db, keys, classes):
    """fields of the given classes used by bodies reachable from the functions"""
    out, seen, todo = {}, set(), list(keys)
    while todo:
        k = todo.pop()
        f = db.functions.get(k)
        if k in seen or f is None:
            continue
        seen.add(k)
        for x in walk(f.get('body') or {}):
            if x.get('k') == 'mem' and x['n'].rsplit('::', 1)[0] in classes:
                out.setdefault(x['n'], x)
            elif x.get('k') == 'call' and x.get('f'):
                g = db.functions.get(x['f'])
                if g is not None and g.get('cls') in classes:
                    todo.append(x['f'])
            elif x.get('k') == 'lam' and x.get('f'):
                todo.append(x['f'])
    return out, seen


SYNC = ('joedb::Thread_Safe<', 'std::condition_variable', 'std::mutex', 'std::atomic', 'const ', KAT)


@check('C05', parts=('src', 'gen'), floor=100,
       rule='lockset typestate: the fields used by the code the keep-alive thread runs (locked_ping of every client class, Keep_Alive_Thread::keep_alive) are computed from the call graph; every use of one of them, and every use of the channel, in every method of the client classes (private helpers interpreted in the context of their callers), needs a live Lock on the channel unless the thread is not yet started or already stopped; a reply is read under the same lock as its request; locks do not nest; the thread is started after the last unlocked use, told to stop under the lock, joined without the lock, in every destructor path',
       trusted=['std::mutex, std::unique_lock and std::condition_variable behave as specified', 'Ping_Client classes are those of the library and of the generated sample'])
def c05(ctx):
    db = ctx.db
    mine = set(db.subclasses(PING)) | {PING}
    owners = [c for c in mine if any(bare(f['t']) == KAT for f in db.cls(c)['fields'])]
    ctx.require(bool(owners), 'owners', None, 'no class runs a keep-alive thread')
    ftype = {c + '::' + f['n']: f for c in mine | {KAT} for f in db.cls(c)['fields']}
    # what the thread may touch
    overs = [k for k in db.functions if db.functions[k]['n'].rsplit('::', 1)[-1] == 'locked_ping' and db.functions[k].get('cls') in mine]
    ctx.require(len(overs) >= len(owners), 'pings', None, 'an owner of a keep-alive thread has no locked_ping')
    used, _ = fields_used(db, overs, mine)
    kused, _ = fields_used(db, [db.fn(KAT + '::keep_alive')['key']], {KAT})
    shared = set()
    for n in list(used) + list(kused):
        f = ftype.get(n)
        if f is None:
            raise AnalysisError('unknown field ' + n)
        if f.get('ref') or f['t'].startswith(SYNC) or bare(f['t']).startswith(SYNC):
            continue
        shared.add(n)
    ctx.notes['shared_fields'] = sorted(shared)
    ctx.require(bool(shared), 'shared', None, 'the thread shares nothing with its client')
    # nothing outside of these classes reaches the shared state; the resource of a Thread_Safe is reached through a Lock only
    for k, f in db.functions.items():
        for x in walk(f.get('body') or {}):
            if x.get('k') != 'mem':
                continue
            if x['n'] in shared:
                owner = f.get('cls')
                inside = owner in mine or owner == KAT or (f.get('in') and (db.functions.get(f['in']) or {}).get('cls') in mine | {KAT})
                ctx.require(bool(inside), 'outside:' + f['n'], f, 'state shared with the keep-alive thread (%s) is used outside of the client classes' % x['n'])
            elif x['n'].startswith('joedb::Thread_Safe<') and x['n'].endswith(('::t', '::mutex')):
                ctx.require((f.get('cls') or '').startswith(('joedb::Lock<', 'joedb::Thread_Safe<')), 'raw:' + f['n'], f, 'the protected resource is reached without a Lock')
    for c in owners:
        fs = db.cls(c)['fields']
        ks = [i for i, x in enumerate(fs) if bare(x['t']) == KAT]
        ctx.require(ks == [len(fs) - 1], 'member-order:' + c, None, 'the keep-alive thread of %s is not the last data member: what it uses is destroyed before it stops' % c)
        for d in db.subclasses(c):
            for b in overs:
                if db.functions[b].get('cls') == d and d != c:
                    ctx.bad('override:' + d, db.functions[b], 'locked_ping is overridden in a class destroyed before the keep-alive thread stops')
    # methods
    callers = {}
    for k, f in db.functions.items():
        for x in walk(f.get('body') or {}):
            if x.get('k') in ('call', 'ctor') and x.get('f'):
                callers.setdefault(x['f'], set()).add(k)
    for k in sorted(db.functions):
        f = db.functions[k]
        if f.get('cls') not in mine or f.get('st') or not f.get('body'):
            continue
        if f.get('acc') == 2 and not (db.method_info.get(k, (None, {}))[1] or {}).get('virt') and any((db.functions.get(c) or {}).get('cls') in mine for c in callers.get(k, ())) and len(db.overriders(k)) <= 1:
            ctx.notes.setdefault('helpers', []).append(f['n'])
            continue
        methods(ctx, db, f, shared, mine, owners)
    for n in ('keep_alive', 'start', 'stop', '~Keep_Alive_Thread'):
        thread_function(ctx, db, db.fn(KAT + '::' + n), shared, mine)


def methods(ctx, db, f, shared, mine, owners):
    rule = KeepAliveRule(shared, mine)
    rule.root = f['n']
    short = f['n'].replace('joedb::', '')
    eng = Engine(db, rule)
    locked = any(bare(p['t']) == LOCK for p in f['ps'])
    ctor = f.get('kind') == 'ctor' or f['n'].rsplit('::', 1)[-1] == f['cls'].rsplit('::', 1)[-1]
    dtor = '~' in f['n']
    owner = f['cls'] in owners

    def setup(eng, st, L, vs):
        st.ts = (1 if locked else 0, FREE if ctor else RUNNING, 1 if locked else 0)
    outs = eng.run(f, setup=setup, this_cls=f['cls'])
    ctx.use_engine(eng)
    ctx.use(f)
    for o in outs:
        ev = flat(o.st.ev)
        tr = trace(o.st.ev)
        sent = False
        for x in ev:
            if x[0] == 'lock':
                sent = False
            elif x[0] == 'write':
                sent = True
            if x[0] == 'use':
                ctx.require(x[2], '%s:unlocked:%s' % (short, x[1]), dict(f, l=x[-1]), '%s is used without the lock of the channel although the keep-alive thread may be using it' % x[1], trace=tr)
            elif x[0] in ('read', 'write'):
                ctx.require(x[1], '%s:unlocked-%s' % (short, x[0]), dict(f, l=x[-1]), 'the channel is used without its lock', trace=tr)
                if x[0] == 'read':
                    ctx.require(x[2] >= 1 or sent, '%s:reply' % short, dict(f, l=x[-1]), 'a reply is read under another lock than the request was sent: a ping may come in between', trace=tr)
            elif x[0] == 'lock':
                ctx.require(x[1] == 0, '%s:nested' % short, dict(f, l=x[-1]), 'the channel is locked again while it is locked', trace=tr)
            elif x[0] == 'unlock':
                ctx.require(x[1] != 1 or dtor or o.k == T or has_later_stop(ev), '%s:no-reply' % short, dict(f, l=x[-1]), 'the lock is released before the reply to the request is read', trace=tr)
            elif x[0] in ('stop', 'start'):
                ctx.require(x[1] == 0, '%s:%s-locked' % (short, x[0]), dict(f, l=x[-1]), 'the keep-alive thread is %sed while the channel is locked' % x[0].replace('stop', 'stopp'), trace=tr)
        if locked and o.k != T:
            ctx.require(o.st.ts[2] != 1 or not sent, '%s:no-reply' % short, f, 'the reply to the request is not read', trace=tr)
        ctx.require(o.st.ts[0] == (1 if locked else 0), '%s:balance' % short, f, 'the lock of the channel is not released', trace=tr)
        if ctor and owner and o.k != T:
            ctx.require(any(x[0] == 'start' for x in ev), '%s:start' % short, f, 'the keep-alive thread is not started', trace=tr)
        if dtor and o.k == T:
            ctx.bad('%s:throws' % short, f, 'an exception escapes from the destructor', trace=tr)


def has_later_stop(ev):
    return any(x[0] == 'stop' for x in ev)


def thread_function(ctx, db, f, shared, mine):
    n = f['n'].rsplit('::', 1)[-1]
    for stopped in ((0, 1) if n in ('stop', '~Keep_Alive_Thread') else (1,) if n == 'start' else (0,)):
        rule = KeepAliveRule(shared, mine)
        rule.root = f['n']
        eng = Engine(db, rule)
        S = ('fld', ('this',), KAT + '::stopped')

        def setup(eng, st, L, vs):
            st.ts = (0, FREE if n == 'start' else RUNNING, 0)
            st.store[S] = I(stopped)
        outs = eng.run(f, setup=setup, this_cls=KAT)
        if n == 'start':
            ctx.require(any(x[0] == 'thread' for o in outs for x in flat(o.st.ev)), 'start:thread', f, 'no thread is started', 'a thread is started')
        ctx.use_engine(eng)
        ctx.use(f)
        for o in outs:
            ev = flat(o.st.ev)
            tr = trace(o.st.ev)
            d = 0
            for x in ev:
                if x[0] == 'use' and n != 'start':
                    ctx.require(x[2], '%s:unlocked:%s' % (n, x[1]), dict(f, l=x[-1]), '%s is used without the lock of the channel' % x[1], trace=tr)
                elif x[0] == 'join':
                    ctx.require(x[1] == 0, n + ':join-locked', dict(f, l=x[-1]), 'the thread is joined while the channel is locked: it can never end', trace=tr)
                elif x[0] == 'lock':
                    ctx.require(x[1] == 0, n + ':nested', dict(f, l=x[-1]), 'the channel is locked again while it is locked', trace=tr)
            ctx.require(o.st.ts[0] == 0, n + ':balance', f, 'the lock of the channel is not released', trace=tr)
            if n == 'start':
                made = any(x[0] == 'thread' for x in ev)
                ctx.require(not made or eng.value(o.st, o.st.store.get(S)) == I(0), 'start:stopped', f, 'a thread is started but the destructor will not join it', trace=tr)
            if n == 'keep_alive':
                for x in ev:
                    if x[0].startswith('wait') or x[0] == 'ping':
                        ctx.require(x[1] > 0, 'keep_alive:unlocked', dict(f, l=x[-1]), 'the channel is not locked', trace=tr)
                        ctx.require(x[2] == 4, 'keep_alive:' + x[0], dict(f, l=x[-1]), 'the request to stop is not checked before ' + ('sending a ping' if x[0] == 'ping' else 'waiting'), trace=tr)
                ctx.require(o.k != T, 'keep_alive:throws', f, 'an exception escapes from the keep-alive thread: the process is terminated', trace=tr)
            if n in ('stop', '~Keep_Alive_Thread') and stopped == 0 and o.k != T:
                names = [x[0] for x in ev]
                if n == 'stop':
                    sets = [i for i, x in enumerate(ev) if x[0] == 'set' and x[1] == I(1)]
                    ctx.require(bool(sets) and all(ev[i][2] > 0 for i in sets), 'stop:flag', f, 'the thread is not told to stop under the lock', trace=tr)
                    j = names.index('join') if 'join' in names else None
                    no = [i for i, x in enumerate(names) if x.startswith('notify')]
                    ctx.require(bool(sets) and any(i > sets[0] and (j is None or i < j) for i in no), 'stop:notify', f, 'the thread is not woken up after being told to stop and before being joined: stopping lasts one keep-alive interval', trace=tr)
                    ctx.require(j is not None or eng.decide(o.st, ('joinable',)) is False, 'stop:join', f, 'the thread is not joined', trace=tr)
                    ctx.require(eng.value(o.st, o.st.store.get(S)) == I(1), 'stop:stopped', f, 'the thread would be stopped twice', trace=tr)
                else:
                    ctx.require('lock' in names, 'dtor:stop', f, 'the thread is not stopped', trace=tr)
            if n == '~Keep_Alive_Thread':
                ctx.require(o.k != T, 'dtor:throws', f, 'an exception escapes from the destructor', trace=tr)


# ---------------------------------------------------------------------------
# C07: reconnection

RC = 'joedb::Robust_Connection'
SC = 'joedb::Server_Connection'
SF = 'joedb::Server_File'
CNX = ('fld', ('this',), RC + '::connection')
CHN = ('fld', ('this',), RC + '::channel')
HJ = ('fld', ('this',), RC + '::handshake_journal')
HC = ('fld', ('this',), RC + '::handshake_content_check')


class RobustRule(Rule):
    """st.ts = (channel, connection, handshake done?, waited?, broken?, disconnected?)
    channel: old / none / new; connection: old / none / new (made on the new channel)"""
    max_states = 200000
    merge = False
    reconnectors = frozenset()
    OPS = ('pread', 'pull', 'push', 'handshake')

    def __init__(self):
        super().__init__()
        self.problems = []

    def run(self, eng, f, more=None):
        def setup(eng, st, L, vs):
            st.ts = ('old', 'old', False, False, False, False)
            self.given = tuple(same(eng, st, v) for v in vs)
            if more:
                more(eng, st, L, vs)
        return eng.run(f, setup, f['cls'])

    def inline(self, eng, f):
        if f['n'].endswith('::log_exception'):
            return False
        return f['n'].startswith(RC + '::') or 'lambda' in f['n'] or 'anonymous class' in f['n']

    def models(self, name):
        return name.startswith((SC, 'joedb::Connector', 'joedb::Memory_File', 'joedb::Logger'))

    def may_throw(self, eng, name, node):
        return False

    def bad(self, st, l, k, m):
        self.problems.append((k, m, l, trace(st.ev)))

    def upd(self, st, **kw):
        names = ('channel', 'connection', 'handshake', 'waited', 'broken', 'gone')
        st.ts = tuple(kw.get(n, v) for n, v in zip(names, st.ts))

    def event(self, st, *ev):
        if st.ts[5]:
            self.bad(st, ev[-1], 'goes-on', 'goes on after a Disconnection (%s): it must reach the caller' % ev[0])
            self.upd(st, gone=False)
        st.ev += (ev,)

    def both(self, eng, st, what, l):
        """a call that may fail for good (Disconnection) or temporarily"""
        for k in ('joedb::Disconnection', 'std::exception'):
            z = st.copy()
            z.ev += (('failed', k, what, l),)
            self.upd(z, broken=True, gone=k == 'joedb::Disconnection')
            eng.thrown[-1].append((z, ('exc', k, None)))

    def connect(self, eng, st, vs, l):
        self.event(st, 'connect', l)
        ok = st.ts[0] == 'new' and vs and vs[0][0] == 'loc' and term_has(vs[0], RC + '::channel')
        if not ok:
            self.bad(st, l, 'connect', 'a connection is made on something else than the new channel')
        self.both(eng, st, 'connect', l)
        return [(st, ('connection', bool(ok)))]

    def on_ctor(self, eng, st, node, cls, L, args):
        cls = cls.replace('const ', '')
        if cls == SC:
            return self.connect(eng, st, args, node.get('l', 0))
        if cls.startswith('beman::'):
            return [(st, ('obj', L))]
        return None

    def on_call(self, eng, st, call, obj, vs, e):
        n = call['n']
        m = n.rsplit('::', 1)[-1]
        l = e.get('l', 0)
        if n.startswith(RC + '::') and call.get('f') in self.reconnectors and len(eng.stack) > 0:
            self.event(st, 'reconnect', l)
            z = st.copy()
            self.upd(z, gone=True)
            eng.thrown[-1].append((z, ('exc', 'joedb::Disconnection', None)))
            self.upd(st, broken=False)
            return [(st, ('void',))]
        if n.startswith(SC + '::') or n.startswith('joedb::Server_Client::') or (n.startswith('joedb::Connection::') and m in self.OPS):
            if m in self.OPS + ('unlock',):
                a = tuple(same(eng, st, v) for v in vs)
                self.event(st, m, a, l)
                if st.ts[1] == 'none' or st.ts[4]:
                    self.bad(st, l, 'broken', '%s is called on a broken connection' % m)
                self.both(eng, st, m, l)
                if m == 'handshake':
                    st.ts = st.ts[:2] + ((st.ts[1], a),) + st.ts[3:]
                st.ctr += 1
                return [(st, ('result', m, st.ctr))]
        if n.startswith('std::unique_ptr<') and obj in (CNX, CHN):
            which = 'connection' if obj == CNX else 'channel'
            if m in ('reset', 'operator='):
                v = eng.value(st, vs[0]) if vs else ('null',)
                gone = v in (('null',), ('i', 0))
                if not gone and v[0] == 'loc':
                    v = st.store.get(v[1], v)
                self.event(st, 'destroy' if gone else 'set', which, l)
                if which == 'channel' and st.ts[1] != 'none':
                    self.bad(st, l, 'order', 'the channel is destroyed before the connection that uses it')
                if which == 'channel':
                    self.upd(st, channel='none' if gone else 'new')
                else:
                    self.upd(st, connection='none' if gone else ('new' if st.ts[0] == 'new' else 'old'), handshake=False)
                if not gone and which == 'connection':
                    self.upd(st, broken=False)
                return [(st, ('void',))]
        if m == 'new_channel':
            self.event(st, 'new_channel', l)
            if not st.ts[3]:
                self.bad(st, l, 'hurry', 'connects again without waiting')
            self.both(eng, st, 'new_channel', l)
            self.upd(st, waited=False, broken=False)
            return [(st, ('channel',))]
        if n.startswith('std::make_unique') and 'Server_Connection' in call.get('f', ''):
            return self.connect(eng, st, vs, l)
        if m.startswith('sleep'):
            self.event(st, 'sleep', l)
            a = ' '.join(str(eng.value(st, v)) for v in vs)
            self.upd(st, waited=True)
            return [(st, ('void',))]
        if m == 'now':
            return [(st, ('now',))]
        if n.startswith('joedb::Logger::'):
            return [(st, ('void',))]
        return None


def same(eng, st, v):
    """identity of an argument: the object, for references and pointers"""
    if v[0] != 'loc':
        return eng.value(st, v)
    L = v[1]
    while L[0] == 'refto':
        L = L[1]
    return ('loc', L)


def term_has(t, name):
    if isinstance(t, tuple):
        return any(term_has(x, name) for x in t)
    return t == name


@check('C07', parts=('src',), floor=50,
       rule='every operation of Robust_Connection interpreted with each call of the connector, the channel and the inner connection succeeding, failing with Disconnection, or failing with another exception, from both states of the stored handshake: typestate of channel, connection and handshake at every call and exit',
       trusted=['loggers do not throw', 'std::unique_ptr'])
def c07(ctx):
    db = ctx.db
    need_fields(db, RC, 'connection', 'channel', 'handshake_journal', 'handshake_content_check')
    order = [x['n'] for x in db.cls(RC)['fields']]
    ctx.require(order.index('channel') < order.index('connection'), 'fields', dict(db.fn(RC + '::pull'), l=1),
                'the channel is destroyed before the connection that uses it: it is declared after it')
    rc = [f for f in db.functions.values() if f['n'].startswith(RC + '::') and f.get('body')]
    # the functions that make a new connection: the outermost non-public ones that reach Connector::new_channel
    def callees(f):
        return {x['f'] for x in walk(f['body']) if x.get('k') == 'call' and x.get('f')}
    makers = {f['key'] for f in rc if any(x.get('k') == 'call' and x['n'].endswith('::new_channel') for x in walk(f['body']))}
    private = {f['key']: f for f in rc if f.get('acc') and not f.get('ta') and f.get('kind') not in ('ctor', 'dtor')}
    while True:
        more = {k for k, f in private.items() if k not in makers and callees(f) & makers}
        if not more:
            break
        makers |= more
    makers &= set(private)
    reconnectors = {k for k in makers if not any(k in callees(private[h]) for h in makers if h != k)}
    if not reconnectors:
        raise AnalysisError('anchor vanished: no function of Robust_Connection makes a channel')
    paths = 0

    def report(name, f, rule):
        for k, m, l, tr in rule.problems:
            ctx.bad('%s:%s' % (name, k), dict(f, l=l), m, tr)
        ctx.ok()

    # making a new connection
    for k in sorted(reconnectors):
        f = db.functions[k]
        for known in (False, True):
            rule = RobustRule()
            eng = Engine(db, rule)

            def setup(eng, st, L, vs):
                st.store[HJ] = ('loc', ('ext', 'journal')) if known else ('null',)
                st.store[HC] = ('arg', 'check')
                st.store[('fld', ('this',), RC + '::last_connection_time')] = ('arg', 'last')
            outs = rule.run(eng, f, setup)
            ctx.use(f)
            ctx.use_engine(eng)
            name = f['n'].rsplit('::', 1)[-1]
            report(name, f, rule)
            if not [o for o in outs if o.k != T]:
                ctx.bad(name + ':never', f, 'never returns normally')
            for o in outs:
                paths += 1
                tr = trace(o.st.ev)
                if o.k == T:
                    ctx.require(o.v[1] == 'joedb::Disconnection', name + ':escape', f, 'an error other than Disconnection (%s) ends the attempts' % o.v[1], trace=tr)
                    continue
                c = o.st.ts
                ctx.require(c[0] == 'new' and c[1] == 'new', name + ':stale', f, 'returns with channel = %s, connection = %s' % c[:2], trace=tr)
                if known:
                    ctx.require(c[2] == ('new', (('loc', ('ext', 'journal')), ('arg', 'check'))), name + ':handshake', f,
                                'the new connection is used without the handshake of the journal', trace=tr)

    # operations
    for m, inner in (('pread', 3), ('handshake', 2), ('pull', 4), ('push', 4)):
        for f in db.fns(RC + '::' + m):
            if not f.get('body'):
                continue
            rule = RobustRule()
            rule.reconnectors = reconnectors
            eng = Engine(db, rule)
            outs = rule.run(eng, f)
            ctx.use(f)
            ctx.use_engine(eng)
            report(m, f, rule)
            if not [o for o in outs if o.k != T]:
                ctx.bad(m + ':never', f, 'never returns normally')
            want = rule.given
            for o in outs:
                paths += 1
                tr = trace(o.st.ev)
                if o.k == T:
                    ctx.require(o.v[1] == 'joedb::Disconnection' and o.st.ts[5], m + ':escape', f, 'an error other than Disconnection (%s) escapes' % o.v[1], trace=tr)
                    continue
                v = eng.value(o.st, o.v) if o.v else None
                ctx.require(not o.st.ts[4], m + ':unknown', f, 'returns normally though the operation failed', trace=tr)
                ctx.require(v and v[0] == 'result' and v[1] == m, m + ':result', f, 'does not return the result of the connection', trace=tr)
                calls = [x for x in flat(o.st.ev) if x[0] == m]
                ctx.require(calls and all(x[1] == want for x in calls), m + ':args', f, 'the arguments are not those of the caller: %s' % (calls and [term(y) for y in calls[-1][1]],), trace=tr)
                if m == 'handshake':
                    ctx.require(same(eng, o.st, o.st.store.get(HJ, ('?',))) == want[0] and o.st.store.get(HC) == want[1], m + ':forgets', f,
                                'the journal is not remembered for the handshake of the next connection', trace=tr)
    for f in db.fns(RC + '::unlock'):
        rule = RobustRule()
        rule.reconnectors = reconnectors
        eng = Engine(db, rule)
        outs = rule.run(eng, f)
        ctx.use(f)
        rule.problems = [x for x in rule.problems if x[0] != 'goes-on']
        report('unlock', f, rule)
        for o in outs:
            paths += 1
            ctx.require(any(x[0] in ('unlock', 'failed') for x in flat(o.st.ev)), 'unlock:skipped', f, 'the lock is not released', trace=trace(o.st.ev))
            ctx.require(o.k != T or o.v[1] == 'joedb::Disconnection', 'unlock:throws', f, 'an error escapes from unlock()', trace=trace(o.st.ev))
    for f in db.fns(RC + '::Robust_Connection'):
        rule = RobustRule()
        eng = Engine(db, rule)
        rule.reconnectors = reconnectors
        outs = rule.run(eng, f)
        ctx.use(f)
        for o in outs:
            ctx.require(o.k == T or any(x[0] == 'reconnect' for x in flat(o.st.ev)), 'ctor', f, 'the constructor does not connect', trace=trace(o.st.ev))
    ctx.notes['paths'] = paths


SF_TAIL, SF_HEAD, SF_TOFF = (('fld', ('this',), SF + '::' + x) for x in ('tail', 'head', 'tail_offset'))
SCP = 'joedb::Server_Client::server_checkpoint'


class ServerFileRule(Rule):
    max_states = 50000
    merge = False

    def inline(self, eng, f):
        return f['n'].startswith(SF + '::')

    def models(self, name):
        return name.startswith(('joedb::Memory_File', RC))

    def may_throw(self, eng, name, node):
        return False

    def on_ctor(self, eng, st, node, cls, L, args):
        return [(st, ('obj', L))]

    def on_call(self, eng, st, call, obj, vs, e):
        n = call['n']
        m = n.rsplit('::', 1)[-1]
        l = e.get('l', 0)
        which = 'head' if obj == SF_HEAD else 'tail' if obj == SF_TAIL else None
        if which:
            if m == 'get_size':
                return [(st, ('size', which))]
            a = tuple(same(eng, st, v) for v in vs)
            st.ev += ((which + '.' + m, a, st.copy(), l),)
            st.ctr += 1
            return [(st, ('result', which, st.ctr))]
        if n.startswith((RC + '::', 'joedb::Connection::')) and m in RobustRule.OPS:
            a = tuple(same(eng, st, v) for v in vs)
            z = st.copy()
            z.ev += (('failed', m, l),)
            eng.thrown[-1].append((z, ('exc', 'joedb::Disconnection', None)))
            st.ev += (('remote.' + m, a, st.copy(), l),)
            st.ctr += 1
            eng.touch(st, CNX, 'op%d' % st.ctr)
            st.store[('ghost', 'epoch')] = ('i', st.ctr)
            return [(st, ('result', 'remote', st.ctr))]
        if n.endswith('operator->') and obj == CNX:
            return [(st, ('loc', ('server', st.store.get(('ghost', 'epoch'), ('i', 0)))))]
        if m == 'pull' and 'Journal' in n:
            st.ev += (('journal.pull', l),)
            return [(st, ('any',))]
        return None


def trace_sf(ev):
    return ['%s %s (line %s)' % (x[0], ' '.join(term(y) for y in x[1]) if len(x) > 2 and isinstance(x[1], tuple) else '', x[-1]) for x in ev]


@check('C08', parts=('src',), floor=40,
       rule='every path of Server_File::{pread, pwrite, pull, push, handshake}: each access attributed to the header copy, the server or the tail, with the bounds entailed by the comparisons of its path (linear arithmetic), and the offset passed on; state of tail and tail_offset at every exit against the server checkpoint',
       trusted=['Memory_File (J03)'])
def server_file(ctx):
    db = ctx.db
    HEADER = db.globals['joedb::Header::ssize']['e']['v']
    need_fields(db, SF, 'tail', 'head', 'tail_offset')
    # the journal of the client is the one made on this file
    f = db.fn(SF + '::handshake')

    class Whose(Rule):
        def models(self, name):
            return name.startswith('joedb::')

        def may_throw(self, eng, name, node):
            return False

        def on_call(self, eng, st, call, obj, vs, e):
            if call['n'].endswith('::get_file'):
                return [(st, ('loc', ('param', 'another')))]
            return None
    eng = Engine(db, Whose())
    ctx.use(f)
    for o in eng.run(f, None, f['cls']):
        if o.k != T:
            same_file = any(isinstance(a, tuple) and a[:2] == ('op', '==') and {('loc', ('param', 'another')), ('loc', ('this',))} == set(a[2:]) and v is True for a, v in o.st.facts.items())
            ctx.require(same_file, 'handshake:file', f, 'the journal of another file is connected to a server file', 'only its own journal is connected', trace_sf(o.st.ev) if o.st.ev else None)
    for m in ('pread', 'pwrite'):
        f = db.fn(SF + '::' + m)
        rule = ServerFileRule()
        eng = Engine(db, rule)
        given = []

        def setup(eng, st, L, vs):
            eng.set_bound(st, ('arg', 'offset'), 0, None)
            given.append(tuple(same(eng, st, v) for v in vs))
        outs = eng.run(f, setup, f['cls'])
        ctx.use(f)
        ctx.use_engine(eng)
        data, size, offset = given[0]
        seen = set()
        for o in outs:
            ev = flat(o.st.ev)
            tr = trace_sf(ev)
            acc = [x for x in ev if x[0].split('.')[0] in ('head', 'tail', 'remote')]
            if o.k == T:
                ctx.require(not acc, m + ':half', f, 'fails after having accessed the file', trace=tr)
                if m == 'pread':
                    ctx.require(any(x[0] == 'failed' for x in ev), m + ':refuses', f, 'reading can be refused', trace=tr)
                continue
            ctx.require(len(acc) == 1, m + ':count', f, '%d accesses for one call' % len(acc), trace=tr)
            if len(acc) != 1:
                continue
            where, st = acc[0][0], acc[0][2]
            a = acc[0][1]
            lin = Lin(eng, st, lambda t: True)
            toff = st.store.get(SF_TOFF) or ('rd', SF_TOFF, 0)
            ctx.require(where.split('.')[1] == m and a[0] == data and a[1] == size, m + ':args', f, 'the access is not the one of the caller', trace=tr)
            seen.add(where.split('.')[0])
            if where.startswith('tail'):
                ctx.require(a[2] == eng.binop(st, '-', offset, toff, 'long'), m + ':tail-offset', f, 'the offset in the tail (%s) is not offset - tail_offset' % term(a[2]), trace=tr)
                ctx.require(lin.le(toff, offset), m + ':tail', f, 'the tail is accessed before its start', trace=tr)
            elif where.startswith('head'):
                ctx.require(a[2] == offset, m + ':head-offset', f, 'the offset in the header is changed', trace=tr)
                ctx.require(lin.le(eng.binop(st, '+', offset, size, 'long') if m == 'pwrite' else offset, I(HEADER if m == 'pwrite' else HEADER - 1)), m + ':head', f,
                            'the header copy is accessed beyond the header', trace=tr)
            else:
                ctx.require(a[2] == offset, m + ':remote-offset', f, 'the offset on the server is changed', trace=tr)
                ctx.require(m == 'pread' and lin.le(eng.binop(st, '+', offset, I(1), 'long'), toff), m + ':remote', f, 'the server is accessed beyond tail_offset', trace=tr)
            if not where.startswith('head'):
                ctx.require(lin.le(I(HEADER), offset), m + ':header', f, 'an access to the header is not directed to the local copy', trace=tr)
        for w in ('head', 'tail') + (('remote',) if m == 'pread' else ()):
            ctx.require(w in seen, m + ':no-' + w, f, 'the %s is never accessed' % w)

    # pull and push
    for m in ('pull', 'push', 'handshake'):
        f = db.fn(SF + '::' + m)
        rule = ServerFileRule()
        eng = Engine(db, rule)
        given = []

        def setup2(eng, st, L, vs):
            given.append(tuple(same(eng, st, v) for v in vs))
        outs = eng.run(f, setup2, f['cls'])
        ctx.use(f)
        ctx.use_engine(eng)
        old = ('rd', SF_TOFF, 0)
        for o in outs:
            ev = flat(o.st.ev)
            tr = trace_sf(ev)
            names = [x[0] for x in ev]
            now = o.st.store.get(('ghost', 'epoch'), ('i', 0))
            sc = eng.value(o.st, ('loc', ('fld', ('server', now), SCP)))
            remote = [x for x in ev if x[0].startswith('remote.')]
            toff = o.st.store.get(SF_TOFF, old)
            touched = [x for x in ev if x[0] in ('tail.resize', 'tail.pwrite', 'tail.flush')]
            if o.k == T:
                ctx.require(not touched and toff == old, m + ':half', f, 'fails after having changed the tail', trace=tr)
                continue
            if m == 'handshake':
                ctx.require(not remote and not touched and toff == old, 'handshake:effects', f, 'handshake of the client changes the file', trace=tr)
                continue
            ctx.require([x[0] for x in remote] == ['remote.' + m], m + ':remote', f, 'does not do exactly one %s on the server' % m, trace=tr)
            if len(remote) != 1:
                continue
            a = remote[0][1]
            if m == 'push':
                ctx.require(a == given[0], 'push:args', f, 'the arguments of push are changed', trace=tr)
            else:
                ctx.require((a[0], a[2], a[3]) == (given[0][0], given[0][2], given[0][3]), 'pull:args', f, 'the arguments of pull are changed', trace=tr)
                ctx.require(a[1] == I(dict(db.enum('joedb::Data_Transfer')['items'])['without_data']), 'pull:data', f,
                            'the pull transfers data that the client would have to write to the body of the file', trace=tr)
            rst = remote[0][2]
            lin = Lin(eng, o.st, lambda t: True)
            ctx.require(toff == sc, m + ':tail-offset', f, 'tail_offset (%s) is not the checkpoint of the server after the %s' % (term(toff), m), trace=tr)
            if m == 'pull':
                l2 = Lin(eng, rst, lambda t: True)
                ctx.require(l2.le(('size', 'tail'), I(0)), 'pull:tail', f, 'pulls over unpushed writes: the tail would move', trace=tr)
                i = ev.index(remote[0])
                w = [x for x in ev[i:] if x[0] == 'head.pwrite' and x[1][0] == ('loc', ('fld', ('server', now), SCP)) and x[1][1] == I(8)]
                ctx.require({x[1][2] for x in w} >= {I(0), I(8)}, 'pull:header', f, 'the checkpoint of the server is not copied to the header of the file', trace=tr)
                ctx.require(w and names.index('journal.pull') > max(ev.index(x) for x in w) if 'journal.pull' in names else False, 'pull:journal', f,
                            'the journal does not read the new checkpoint after it was written', trace=tr)
                ctx.require(not touched, 'pull:touch', f, 'pull changes the tail', trace=tr)
            else:
                ctx.require([x for x in touched] and all(x[0] == 'tail.resize' and x[1][0] == I(0) for x in touched), 'push:keeps', f, 'the pushed tail is kept: it would appear again after tail_offset', trace=tr)
                total = eng.binop(o.st, '+', old, ('size', 'tail'), 'long')
                ctx.require(lin.eq(sc, total), 'push:loses', f, 'the tail is emptied though the server may not have all of it (checkpoint %s, file size %s)' % (term(sc), term(total)), trace=tr)

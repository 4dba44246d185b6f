"""Journal: checkpoints, header, locks, opening."""
from jsa.runner import check
from .common import *
from jsa.linear import Lin

HDR = 41
STATE = ('hard_index', 'soft_index', 'checkpoint_position', 'hard_checkpoint_position')


def journal_state(st, L):
    return {n: st.store.get(fld(L, J + n)) for n in STATE}


class CkRule(FileRule):
    def on_call(self, eng, st, call, obj, vs, e):
        n = call['n']
        if n.endswith('::get_position') and (n.startswith('joedb::File_Buffer') or n.startswith('joedb::File_Iterator')):
            return [(st, ('pos',))]
        return FileRule.on_call(self, eng, st, call, obj, vs, e)


def ck_runs(ctx, entry):
    """all paths of a checkpoint entry point, for each header state"""
    db = ctx.db
    need_fields(db, 'joedb::Readonly_Journal', *STATE)
    f = db.fn('joedb::Writable_Journal::' + entry)
    for h in (0, 1):
        for s in (0, 1):
            def setup(eng, st, L, vs):
                st.store[fld(L, J + 'hard_index')] = I(h)
                st.store[fld(L, J + 'soft_index')] = I(s)
                st.store[fld(L, J + 'checkpoint_position')] = ('c0',)
                st.store[fld(L, J + 'hard_checkpoint_position')] = ('hc0',)
            eng = Engine(db, CkRule())
            outs = eng.run(f, setup, this_cls='joedb::Writable_Journal')
            ctx.use_engine(eng)
            yield f, h, s, outs, eng


def hdr_writes(ev):
    """[(index in trace, offset, size, value)] of writes that touch the header"""
    out = []
    for i, x in enumerate(ev):
        if x[0] == 'pwrite':
            off, n = const(x[3]), const(x[2])
            if off is not None and off < HDR:
                out.append((i, off, n, x[1]))
    return out


@check('J01', floor=16, rule='every path of the durable-checkpoint entry point, for each of the 4 header-slot states: event order flush; copy; sync; copy; sync')
def j01(ctx):
    for f, h, s, outs, eng in ck_runs(ctx, 'hard_checkpoint'):
        wrote = False
        for o in outs:
            if o.k == T:
                continue
            ev = flat(o.st.ev)
            hw = hdr_writes(ev)
            tr = trace(o.st.ev)
            if any(x[0] == 'loop' for x in o.st.ev):
                raise AnalysisError('hard_checkpoint: loop around header writes could not be unrolled')
            if not hw:
                d = eng.decide(o.st, ('op', '>=', ('hc0',), ('pos',)))
                ctx.require(d is True, 'skip', f, 'returns without writing a durable checkpoint although the position may be beyond the durable one', 'no-op path only when already durable', tr)
                continue
            wrote = True
            want = {16 * (h ^ 1), 16 * (h ^ 1) + 8}
            offs = [w[1] for w in hw]
            ctx.require(set(offs) == want and len(offs) == 2 and all(w[2] == 8 for w in hw), 'slots', f,
                        'durable checkpoint must write exactly the two copies of the non-current pair (offsets %s), writes %s' % (sorted(want), offs),
                        'pair at %s' % sorted(want), tr)
            ctx.require(all(w[3] == ('pos',) for w in hw), 'value', f,
                        'both copies must hold the current journal position; written: %s' % [term(w[3]) for w in hw], 'value', tr)
            fl = [i for i, x in enumerate(ev) if x[0] == 'flush']
            ctx.require(bool(fl) and fl[0] < hw[0][0], 'flush-first', f, 'buffered data is not flushed before the checkpoint is written', 'flush first', tr)
            sy = [i for i, x in enumerate(ev) if x[0] in ('sync', 'datasync')]
            if len(hw) >= 2:
                ctx.require(any(hw[0][0] < i < hw[1][0] for i in sy), 'sync-between', f, 'no sync between the two checkpoint copies', 'sync between copies', tr)
            ctx.require(any(i > hw[-1][0] for i in sy), 'sync-after', f, 'no sync after the last checkpoint copy', 'sync after', tr)
            fs = [i for i, x in enumerate(ev) if x[0] == 'sync']
            ctx.require(any(bool(fl) and i > fl[0] for i in fs), 'full-sync', f, 'file growth is never synced: only data-sync is used', 'one full sync (size change)', tr)
            st = journal_state(o.st, ('this',))
            ctx.require(st['hard_checkpoint_position'] == ('pos',) and st['checkpoint_position'] == ('pos',) and st['hard_index'] == I(h ^ 1), 'state', f,
                        'in-memory checkpoint state does not match what was written', 'state', tr)
        ctx.require(wrote, 'never-writes', f, 'no path writes a checkpoint')


@check('J02', floor=16, rule='every path of the soft-checkpoint entry point, for each of the 4 header-slot states')
def j02(ctx):
    for f, h, s, outs, eng in ck_runs(ctx, 'soft_checkpoint'):
        wrote = False
        neg = eng.binop(State(), '-', I(0), ('pos',), 'long')
        for o in outs:
            if o.k == T:
                continue
            ev = flat(o.st.ev)
            hw = hdr_writes(ev)
            tr = trace(o.st.ev)
            if not hw:
                d = eng.decide(o.st, ('op', '>=', ('c0',), ('pos',)))
                ctx.require(d is True, 'skip', f, 'returns without writing a checkpoint although the position may be beyond the current one', 'no-op only when already checkpointed', tr)
                continue
            wrote = True
            cur = 16 * (h ^ 1) + 8 * s
            new = 16 * (h ^ 1) + 8 * (s ^ 1)
            ctx.require(len(hw) == 1 and hw[0][1] == new and hw[0][2] == 8, 'slot', f,
                        'soft checkpoint must write one slot: the other slot (%d) of the pair not holding the durable checkpoint (durable pair at %d, current soft slot %d); writes %s'
                        % (new, 16 * h, cur, [w[1] for w in hw]), 'slot %d' % new, tr)
            ctx.require(all(w[3] == neg for w in hw), 'value', f, 'the stored value must be the negated position; stored: %s' % [term(w[3]) for w in hw], 'value', tr)
            fl = [i for i, x in enumerate(ev) if x[0] == 'flush']
            ctx.require(bool(fl) and fl[0] < hw[0][0], 'flush-first', f, 'buffered data is not flushed before the checkpoint is written', 'flush first', tr)
            st = journal_state(o.st, ('this',))
            ctx.require(st['checkpoint_position'] == ('pos',) and st['soft_index'] == I(s ^ 1) and st['hard_index'] == I(h) and st['hard_checkpoint_position'] == ('hc0',),
                        'state', f, 'in-memory checkpoint state does not match what was written', 'state', tr)
        ctx.require(wrote, 'never-writes', f, 'no path writes a checkpoint')


@check('J14', floor=16, rule='every exceptional exit of both checkpoint entry points leaves the in-memory checkpoint state as it was')
def j14(ctx):
    for entry in ('soft_checkpoint', 'hard_checkpoint'):
        for f, h, s, outs, eng in ck_runs(ctx, entry):
            n = 0
            for o in outs:
                if o.k != T:
                    continue
                n += 1
                st = journal_state(o.st, ('this',))
                want = {'hard_index': I(h), 'soft_index': I(s), 'checkpoint_position': ('c0',), 'hard_checkpoint_position': ('hc0',)}
                for k in STATE:
                    ctx.require(st[k] == want[k], '%s:%s' % (entry, k), f,
                                'an I/O error during the checkpoint leaves %s changed to %s: the journal believes in a checkpoint that was not completed' % (k, term(st[k])),
                                '%s: %s kept on error' % (entry, k), trace(o.st.ev))
            ctx.require(n > 0, entry + ':no-throw', f, 'no exceptional exit seen')


def lock_depths(ev, ctx=None):
    """running lock state per event: yields (event, head 'x'/'s'/None, tail held)"""
    head, tail = [], 0
    for x in ev:
        if x[0] == 'lock':
            p = const(x[2])
            if p == 0:
                head.append(x[1])
            elif p == LAST:
                tail += 1
        elif x[0] == 'unlock':
            p = const(x[1])
            if p == 0 and head:
                head.pop()
            elif p == 0:
                head = ['?underflow']
            elif p == LAST:
                tail -= 1
        yield x, (head[-1] if head else None), tail
    yield None, (head[-1] if head else None), tail


LOCK_ENTRIES = [
    # class, method, tail lock state on normal exit when the file is shared
    ('joedb::Readonly_Journal', 'pull', 0),
    ('joedb::Writable_Journal', 'soft_checkpoint', 0),
    ('joedb::Writable_Journal', 'hard_checkpoint', 0),
    ('joedb::Writable_Journal', 'lock_pull', 1),
    ('joedb::Writable_Journal', 'unlock', -1),
    ('joedb::Writable_Journal', 'pull_from', 0),
]


class ModeRule(CkRule):
    def __init__(self, shared):
        self.shared = shared

    def on_call(self, eng, st, call, obj, vs, e):
        if call['n'] == FILE + 'is_shared':
            return [(st, I(int(self.shared)))]
        return CkRule.on_call(self, eng, st, call, obj, vs, e)


def lock_runs(ctx):
    db = ctx.db
    for cls, m, tail in LOCK_ENTRIES:
        for f in db.fns(cls + '::' + m):
            for shared in (True, False):
                for h in (0, 1):
                    def setup(eng, st, L, vs):
                        st.store[fld(L, J + 'hard_index')] = I(h)
                        st.store[fld(L, J + 'soft_index')] = I(0)
                    eng = Engine(db, ModeRule(shared))
                    outs = eng.run(f, setup, this_cls=cls)
                    ctx.use_engine(eng)
                    yield f, m, tail, shared, outs


@check('J03', floor=20, rule='every path of each journal entry point that touches the checkpoint header: lock held at each header access')
def j03(ctx):
    seen = {'r': 0, 'w': 0}
    for f, m, tail, shared, outs in lock_runs(ctx):
        for o in outs:
            for x, head, tl in lock_depths(flat(o.st.ev)):
                if x is None:
                    continue
                off = const(x[3]) if x[0] in ('pread', 'pwrite') else None
                if off is None or off >= HDR:
                    continue
                if x[0] == 'pwrite':
                    seen['w'] += 1
                    ctx.require(head == 'x', m + ':write', f, 'header written without the exclusive header lock', '%s: header write under exclusive lock' % m, trace(o.st.ev))
                else:
                    seen['r'] += 1
                    ctx.require(head in ('s', 'x') or tl > 0, m + ':read', f, 'header read without a header lock or the writer lock', '%s: header read under lock' % m, trace(o.st.ev))
    ctx.require(seen['r'] > 0 and seen['w'] > 0, 'coverage', 'src/joedb/journal', 'header accesses not found: %s' % seen)


@check('J04', floor=20, rule='lock/unlock balance of the journal file locks on every normal and exceptional exit of each journal entry point and of the opening lock')
def j04(ctx):
    db = ctx.db
    for f, m, tail, shared, outs in lock_runs(ctx):
        for o in outs:
            *_, (x, head, tl) = list(lock_depths(flat(o.st.ev)))
            tr = trace(o.st.ev)
            want = 0 if (o.k == T or not shared) else tail
            ctx.require(head is None, m + ':head', f, '%s exit leaves the header lock %s' % ('exceptional' if o.k == T else 'normal', head), '%s: header lock balanced' % m, tr)
            ctx.require(tl == want, m + ':tail', f, '%s exit of %s: writer lock count changes by %d instead of %d (file %sshared)'
                        % ('exceptional' if o.k == T else 'normal', m, tl, want, '' if shared else 'not '), '%s: writer lock balanced' % m, tr)
    # construction lock
    for mode in ('readonly', 'shared', 'exclusive'):
        outs, f = construction(ctx, mode)
        for o in outs:
            *_, (x, head, tl) = list(lock_depths(flat(o.st.ev)))
            tr = trace(o.st.ev)
            if o.k == T:
                ctx.require(head is None and tl == 0, 'open:leak', f, 'opening lock: an exception in the constructor leaves locks held (header %s, writer %d)' % (head, tl), 'open: no lock leaked on exception', tr)
            else:
                want = {'readonly': ('s', 0), 'shared': ('x', 1), 'exclusive': ('x', 0)}[mode]
                ctx.require((head, tl) == want, 'open:' + mode, f, 'opening lock for a %s file holds (header %s, writer %d) instead of %s' % (mode, head, tl, want), 'open %s' % mode, tr)
        outs, f = construction(ctx, mode, True)
        for o in outs:
            ul = [const(x[1]) for x in flat(o.st.ev) if x[0] == 'unlock']
            want = {'readonly': [0], 'shared': [0, LAST], 'exclusive': [0]}[mode]
            ctx.require(o.k != T and sorted(ul) == want, 'close:' + mode, f, 'opening lock destructor for a %s file releases %s instead of %s' % (mode, ul, want), 'close %s' % mode, trace(o.st.ev))


class OpenRule(CkRule):
    def __init__(self, mode):
        self.mode = mode

    def on_call(self, eng, st, call, obj, vs, e):
        n = call['n']
        if n == FILE + 'is_shared':
            return [(st, I(int(self.mode == 'shared')))]
        if n == FILE + 'is_readonly':
            return [(st, I(int(self.mode == 'readonly')))]
        if n == FILE + 'get_size':
            eng.thrown[-1].append((st.copy(), ('exc', '?', None)))
            st.ev += (('get_size', e.get('l', 0)),)
            return [(st, ('fsize',))]
        return CkRule.on_call(self, eng, st, call, obj, vs, e)


def construction(ctx, mode, dtor=False):
    db = ctx.db
    c = 'joedb::Journal_Construction_Lock'
    fs = [f for f in db.functions.values() if f.get('cls') == c and f.get('kind') == ('dtor' if dtor else 'ctor') and f.get('body')]
    if len(fs) != 1:
        raise AnalysisError('expected one %s of %s' % ('destructor' if dtor else 'constructor', c))
    eng = Engine(db, OpenRule(mode))
    outs = eng.run(fs[0], this_cls=c)
    ctx.use_engine(eng)
    return outs, fs[0]


@check('J13', floor=6, rule='every path of the opening lock constructor, per file mode: the file size is sampled after the last lock acquisition')
def j13(ctx):
    for mode in ('readonly', 'shared', 'exclusive'):
        outs, f = construction(ctx, mode)
        n = 0
        for o in outs:
            if o.k == T:
                continue
            ev = flat(o.st.ev)
            tr = trace(o.st.ev)
            gs = [i for i, x in enumerate(ev) if x[0] == 'get_size']
            lk = [i for i, x in enumerate(ev) if x[0] == 'lock']
            ctx.require(bool(lk), mode + ':nolock', f, 'file opened without locking (%s)' % mode, 'locked', tr)
            ctx.require(bool(gs) and bool(lk) and gs[-1] > lk[-1], mode + ':size-before-lock', f,
                        'the file size used to validate the checkpoint is read before the lock is held: another process can write or create the file in between', '%s: size under lock' % mode, tr)
            sz = o.st.store.get(fld(('this',), 'joedb::Journal_Construction_Lock::size'))
            ctx.require(sz == ('fsize',), mode + ':size', f, 'recorded size is not the size of the file: %s' % (sz,), None, tr)


class PosArray(CkRule):
    """symbolic header checkpoint array; records writes to the checkpoint members with the path facts of that moment"""
    merge = False
    fork_minmax = True

    def on_write(self, eng, st, L, v, node):
        if L[0] == 'fld' and L[2] in (J + 'hard_checkpoint_position', J + 'checkpoint_position'):
            old = eng.rd(st, L)
            st.ev += ((L[2].split('::')[-1], v, old, eng_facts(st), (node or {}).get('l', 0)),)


def eng_facts(st):
    return tuple(sorted(st.facts.items(), key=repr))


def with_facts(facts):
    st = State()
    st.facts = dict(facts)
    return st


def pos_of(eng, k):
    return ('rd', ('idx', ('param', 'pos'), I(k)), ())


@check('J10', floor=40, rule='every path of the header-selection code for symbolic header copies, file size known and unknown: each adopted value is guarded as the format requires, and no valid newer copy is skipped')
def j10(ctx):
    db = ctx.db
    f = db.fn('joedb::Readonly_Journal::read_checkpoint')
    need_fields(db, 'joedb::Readonly_Journal', *STATE)
    arr = f['ps'][0]['n']
    size = f['ps'][1]['n']
    for known in (True, False):
        def setup(eng, st, L, vs):
            for n, v in (('hard_checkpoint_position', ('hc0',)), ('checkpoint_position', ('c0',)), ('hard_index', ('h0',)), ('soft_index', ('s0',))):
                st.store[fld(L, J + n)] = v
            X = ('param', arr)
            for k in range(4):
                st.store[('idx', X, I(k))] = ('p', k)
            return eng.assume(st, ('op', '<', ('arg', size), I(0)), not known)
        eng = Engine(db, PosArray())
        outs = eng.run(f, setup, this_cls='joedb::Readonly_Journal')
        ctx.use_engine(eng)
        p = [('p', k) for k in range(4)]
        neg = [eng.binop(State(), '-', I(0), x, 'long') for x in p]
        def ge(st, a, b):
            r = True if a == b else eng.decide(st, ('op', '>=', a, b))
            if r is None:
                rel_ = Lin(eng, st)
                r = True if rel_.le(b, a) else False if rel_.le(a, b, 1) else None
            return r
        adopted_hard = adopted_soft = 0
        for o in outs:
            if o.k == T:
                ctx.bad('throws', f, 'header selection throws')
                continue
            hchain, cchain = [('hc0',)], [('c0',)]
            hpairs, spairs = set(), set()
            final = journal_state(o.st, ('this',))
            last_hidx = None
            for name, v, old, facts, line in o.st.ev:
                if v == old:
                    continue
                at = with_facts(facts)
                if name == 'hard_checkpoint_position':
                    if v not in (p[0], p[2]) and v not in (p[1], p[3]):
                        ctx.bad('hard-source', '%s:%s' % (rel(f['file']), line), 'durable checkpoint adopted from something else than a header copy: %s' % term(v))
                        continue
                    i = p.index(v) // 2
                    adopted_hard += 1
                    ctx.require(eng.decide(at, ('op', '==', p[2 * i], p[2 * i + 1])) is True, 'hard-equal', '%s:%s' % (rel(f['file']), line),
                                'durable checkpoint adopted from pair %d without requiring its two copies to be equal' % i, 'hard copies equal')
                    ctx.require(ge(at, v, old) is True, 'hard-monotone', '%s:%s' % (rel(f['file']), line), 'durable checkpoint may go backwards', 'hard monotone')
                    hchain.append(v)
                    hpairs.add(i)
                else:
                    if v in neg:
                        k = neg.index(v)
                        adopted_soft += 1
                        ctx.require(ge(at, v, old) is True, 'soft-monotone', '%s:%s' % (rel(f['file']), line), 'soft checkpoint may go backwards', 'soft monotone')
                        if known:
                            ctx.require(eng.decide(at, ('op', '<=', v, ('arg', size))) is True, 'soft-size', '%s:%s' % (rel(f['file']), line),
                                        'soft checkpoint beyond the end of the file is adopted', 'soft checkpoint within the file')
                        spairs.add(k)
                    elif v in hchain:
                        ctx.require(ge(at, v, old) is True, 'cp-monotone', '%s:%s' % (rel(f['file']), line), 'checkpoint may go backwards', 'checkpoint raised to the durable one')
                    else:
                        ctx.bad('soft-source', '%s:%s' % (rel(f['file']), line), 'checkpoint adopted from something else than a header copy: %s' % term(v))
                        continue
                    cchain.append(v)
            # final: checkpoint >= durable checkpoint
            fh, fc = final['hard_checkpoint_position'], final['checkpoint_position']
            ctx.require(ge(o.st, fc, fh) is True or eng.decide(o.st, ('op', '<', fc, fh)) is False, 'final-order', f,
                        'the resulting checkpoint may be below the durable checkpoint', 'checkpoint >= durable')
            # no valid newer copy skipped
            for i in (0, 1):
                if i not in hpairs:
                    rejected = eng.decide(o.st, ('op', '==', p[2 * i], p[2 * i + 1])) is False or any(ge(o.st, p[2 * i], c) is False for c in hchain)
                    ctx.require(rejected, 'hard-skipped', f, 'durable pair %d may be ignored although its copies agree and it is newer' % i, 'hard pair %d considered' % i)
            for k in range(4):
                if k not in spairs:
                    rejected = any(ge(o.st, neg[k], c) is False for c in cchain) or (known and eng.decide(o.st, ('op', '<=', neg[k], ('arg', size))) is False)
                    ctx.require(rejected, 'soft-skipped', f, 'soft checkpoint copy %d may be ignored although it is newer and within the file' % k, 'soft copy %d considered' % k)
            # slot bookkeeping: the durable pair is protected from the next soft checkpoint
            if final['hard_index'] in (I(0), I(1)):
                h = final['hard_index'][1]
                if len(spairs):
                    lastk = [x for x in o.st.ev if x[0] == 'checkpoint_position' and x[1] in neg]
                    k = neg.index(lastk[-1][1])
                    if fc == lastk[-1][1]:
                        ctx.require(h == (k // 2) ^ 1, 'soft-pair', f, 'after adopting soft checkpoint copy %d the current pair is %d: the next durable or soft checkpoint goes to the wrong pair' % (k, h), 'soft pair')
                        ctx.require(final['soft_index'] == I(k % 2), 'soft-index', f, 'soft slot index does not match the adopted soft checkpoint: the next soft checkpoint would overwrite it', 'soft index')
                if hpairs and not spairs:
                    ctx.require(h == (p.index(hchain[-1]) // 2), 'hard-index', f, 'durable pair index does not match the adopted durable checkpoint: the next checkpoint would overwrite it', 'hard index')
            else:
                ctx.require(not hpairs and not spairs, 'index-unset', f, 'checkpoint adopted without recording its slot')
        ctx.require(adopted_hard > 0 and adopted_soft > 0, 'never-adopts', f, 'header copies are never adopted')


class OpenJ(CkRule):
    merge = False

    def __init__(self, mode='?'):
        self.mode = mode

    def on_call(self, eng, st, call, obj, vs, e):
        n = call['n']
        if self.mode != '?':
            if n == FILE + 'is_shared':
                return [(st, I(int(self.mode == 'shared')))]
            if n == FILE + 'is_readonly':
                return [(st, I(int(self.mode == 'readonly')))]
        if n == J + 'read_checkpoint':
            v = eng.rdv(st, vs[0][1]) if vs[0][0] == 'loc' else vs[0]
            st.ev += (('read_checkpoint', v, vs[1], e['l']),)
            for k in STATE:
                eng.wr(st, fld(obj, J + k), ('rc', k))
            return [(st, ('void',))]
        return CkRule.on_call(self, eng, st, call, obj, vs, e)


LOCKC = 'joedb::Journal_Construction_Lock::'


def lock_ctor(db, cls):
    fs = [f for f in db.functions.values() if f.get('cls') == cls and f.get('kind') == 'ctor' and f.get('body')
          and len(f['ps']) == 1 and f['ps'][0]['t'].startswith('joedb::Journal_Construction_Lock &') and not f['ps'][0]['t'].endswith('&&')]
    if len(fs) != 1:
        raise AnalysisError('anchor vanished: constructor of %s from the opening lock' % cls)
    return fs[0]


def enum_values(db, name, *need):
    vals = {k: v for k, v in db.enum(name)['items']}
    for k in need:
        if k not in vals:
            raise AnalysisError('anchor vanished: %s::%s' % (name, k))
    return vals


def recovery_values(db):
    return enum_values(db, 'joedb::Recovery', 'none', 'ignore_header', 'overwrite')


def header_facts(st):
    """(signature verified, version verified) according to the facts of a path"""
    sig = ver = False
    for a, b in st.facts.items():
        if a[0] == 'nz' and 'joedb::Header::signature' in fields_deep(a):
            if a[1][0] == 'call' and a[1][1].endswith('operator==') and b:
                sig = True
            if a[1][0] == 'call' and a[1][1].endswith('operator!=') and not b:
                sig = True
            if a[1][0] == 'call' and a[1][1] in ('memcmp', 'std::memcmp', 'std::strncmp', 'strncmp') and not b:
                sig = True
            if a[1][0] == 'call' and a[1][1].startswith('std::equal') and b:
                sig = True
        if a[0] == 'op' and a[1] == '==' and b and I(5) in a and 'joedb::Header::version' in fields_deep(a):
            ver = True
    return sig, ver


def fields_deep(t):
    out = set()
    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, str) and '::' in x:
            out.add(x)
    go(t)
    return out


@check('J11', floor=10, rule='every path of the journal opening constructor (header present, recovery not requested): the path facts at a normal return must imply a complete header read, the right signature, the supported version, and size >= checkpoint')
def j11(ctx):
    db = ctx.db
    f = lock_ctor(db, 'joedb::Readonly_Journal')
    rec = recovery_values(db)
    P = ('param', f['ps'][0]['n'])
    SZ = ('lsize',)
    for mode in ('none', 'overwrite'):
        for known in (True, False):
            def setup(eng, st, L, vs):
                st.store[fld(P, LOCKC + 'recovery')] = I(rec[mode])
                st.store[fld(P, LOCKC + 'size')] = SZ
                return eng.assume(st, ('op', '<', I(0), SZ) if known else ('op', '<', SZ, I(0)), True)
            eng = Engine(db, OpenJ())
            outs = eng.run(f, setup, this_cls='joedb::Readonly_Journal')
            ctx.use_engine(eng)
            normal = 0
            for o in outs:
                if o.k == T:
                    continue
                normal += 1
                tr = trace(o.st.ev)
                ev = flat(o.st.ev)
                rd = [x for x in ev if x[0] == 'pread' and x[3] == I(0)]
                ok = any(eng.decide(o.st, ('op', '<', a[1], I(HDR))) is False for a in o.st.facts if a[0] == 'bnd' and a[1][0] == 'preadn')
                ctx.require(bool(rd) and (const(rd[0][2]) or 0) >= HDR and ok, 'short-header', f, 'a journal can be opened although its header could not be read completely', 'complete header', tr)
                sig, ver = header_facts(o.st)
                ctx.require(sig, 'signature', f, 'a file without the joedb signature can be opened', 'signature', tr)
                ctx.require(ver, 'version', f, 'a file of another format version can be opened', 'version', tr)
                rc = [x for x in ev if x[0] == 'read_checkpoint']
                ctx.require(bool(rc), 'selection', f, 'a journal is opened without selecting a checkpoint from the header', 'selection', tr)
                for x in rc:
                    ctx.require('joedb::Header::checkpoint' in fields_deep(x[1]), 'selection-source', f, 'checkpoint is not selected from the header', None, tr)
                    ctx.require(x[2] == SZ, 'selection-size', f, 'the file size is not taken into account when selecting the checkpoint: %s' % term(x[2]), 'size passed', tr)
                if known:
                    cp = o.st.store.get(fld(('this',), J + 'checkpoint_position'))
                    d = eng.decide(o.st, ('op', '<', SZ, cp))
                    ctx.require(d is False, 'beyond-eof', f, 'a file shorter than its checkpoint can be opened', 'checkpoint <= size', tr)
            ctx.require(normal > 0, 'never-opens', f, 'no journal can ever be opened')
    # empty file: only for a writable journal
    def setup(eng, st, L, vs):
        st.store[fld(P, LOCKC + 'size')] = I(0)
        st.store[fld(P, LOCKC + 'for_writable_journal')] = I(0)
    eng = Engine(db, OpenJ())
    outs = eng.run(f, setup, this_cls='joedb::Readonly_Journal')
    ctx.require(all(o.k == T for o in outs), 'empty', f, 'an empty file can be opened for reading', 'empty file refused for reading')
    ctx.use_engine(eng)


@check('J12', floor=6, rule='every path of the writable-journal constructor, per recovery mode and file mode')
def j12(ctx):
    db = ctx.db
    f = lock_ctor(db, 'joedb::Writable_Journal')
    rec = recovery_values(db)
    P = ('param', f['ps'][0]['n'])
    SZ = ('lsize',)

    def runit(mode, fmode, size):
        def setup(eng, st, L, vs):
            st.store[fld(P, LOCKC + 'recovery')] = I(rec[mode])
            st.store[fld(P, LOCKC + 'size')] = SZ if size is None else I(size)
            if size is None:
                return eng.assume(st, ('op', '<', I(0), SZ), True)
        eng = Engine(db, OpenJ(fmode))
        outs = eng.run(f, setup, this_cls='joedb::Writable_Journal')
        ctx.use_engine(eng)
        return eng, outs
    # read-only file: never constructed
    for mode in rec:
        eng, outs = runit(mode, 'readonly', None)
        ctx.require(outs and all(o.k == T for o in outs), 'readonly', f, 'a writable journal can be created on a read-only file (recovery %s)' % mode, 'read-only file refused (%s)' % mode)
    # uncommitted tail: refused unless overwriting is requested
    for mode in ('none', 'ignore_header'):
        for fmode in ('shared', 'exclusive'):
            eng, outs = runit(mode, fmode, None)
            normal = 0
            for o in outs:
                if o.k == T:
                    continue
                normal += 1
                cp = o.st.store.get(fld(('this',), J + 'checkpoint_position'))
                d = eng.decide(o.st, ('op', '<', cp, SZ))
                ctx.require(d is False, 'tail:' + mode, f, 'a file with data beyond its checkpoint can be opened for writing without overwrite recovery (mode %s)' % mode, 'uncommitted tail refused (%s)' % mode, trace(o.st.ev))
                hw = hdr_writes(flat(o.st.ev))
                ctx.require(not hw, 'header-rewritten:' + mode, f, 'opening an existing file rewrites its header', 'header untouched', trace(o.st.ev))
            ctx.require(normal > 0, 'never-opens:' + mode, f, 'no file can be opened for writing')
    # new file: a complete header is written, nothing else
    for mode in rec:
        eng, outs = runit(mode, 'exclusive', 0)
        n = 0
        for o in outs:
            if o.k == T:
                continue
            n += 1
            hw = hdr_writes(flat(o.st.ev))
            full = [w for w in hw if w[2] == HDR and w[1] == 0]
            ctx.require(len(full) == 1, 'new-header', f, 'creating a journal must write the %d-byte header once at offset 0: %s' % (HDR, [(w[1], w[2]) for w in hw]), 'header written', trace(o.st.ev))
            for w in full:
                s = dict(w[3][1]) if w[3][0] == 'struct' else {}
                fs = fields_deep(tuple(s.keys()))
                ctx.require({'joedb::Header::version', 'joedb::Header::signature'} <= fs and any('checkpoint' in x for x in fs), 'new-header-fields', f,
                            'the header of a new journal is not completely initialised (%s)' % sorted(fs), 'all header fields set', trace(o.st.ev))
                v = [x for k, x in s.items() if k[-1] == 'joedb::Header::version']
                ctx.require(v == [I(5)], 'new-version', f, 'a new journal is not written with the supported version', 'version', trace(o.st.ev))
        ctx.require(n > 0, 'never-creates', f, 'a new journal cannot be created')

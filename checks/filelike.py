"""Files that are not system files: in memory, compressed."""
from jsa.runner import check
from jsa.linear import Lin
from .common import *
from .files import addr, plus, minus, at

EF = 'joedb::Encoded_File'
RF = 'joedb::Readonly_Encoded_File'
THIS = ('this',)
WB = fld(THIS, EF + '::write_buffer')
WSIZE = fld(THIS, EF + '::write_buffer_size')
WOFF = fld(THIS, EF + '::write_buffer_offset')
RB = fld(THIS, RF + '::read_buffer')
DEC = fld(THIS, RF + '::decoded_buffer')
COPY = ('memcpy', 'memmove', '__builtin_memcpy')


def positive(t):
    return isinstance(t, tuple) and bool(t) and t[0] in ('stringsize', 'bsize', 'boff', 'arg')


class FileLike(Rule):
    merge = False
    iter_hook = True
    loop_unroll = 1
    max_states = 8000

    def __init__(self):
        self.iters = []
        self.exits = []

    def inline(self, eng, f):
        return rel(f['file']).startswith('src/joedb/journal/')

    def models(self, name):
        return name.startswith(('std::', 'joedb::Codec::', 'joedb::Decoder::', 'joedb::Brotli_', 'Brotli', 'joedb::db::encoded_file::')) or name.split('::')[-1] in COPY or name == 'joedb::Abstract_File::read_blob'

    def entail(self, eng, st):
        return Lin(eng, st, positive)

    def container(self, eng, st, L):
        """(memory, size location) of a string, vector or view"""
        return ('fld', L, '#data'), ('fld', L, '#size')

    def view(self, eng, st, v):
        """(pointer, size) of a string_view value"""
        if isinstance(v, tuple) and v[0] in ('obj', 'loc'):
            w = st.store.get(v[1])
            if isinstance(w, tuple):
                v = w
        if isinstance(v, tuple) and v[0] == 'ctor' and len(v[2]) == 2:
            return v[2]
        if isinstance(v, tuple) and v[0] == 'ctor' and len(v[2]) == 1:
            return self.view(eng, st, v[2][0])
        if isinstance(v, tuple) and v[0] == 'param':
            return ('loc', ('ptr', ('fld', v, '#data'), I(0))), ('stringsize', v)
        return None

    def on_call(self, eng, st, call, obj, vs, e):
        n = call['n']
        s = n.split('::')[-1]
        l = e.get('l', 0)
        if s in COPY and len(vs) == 3:
            st.ev += (('copy', addr(vs[0]), addr(vs[1]), vs[2], l, st.copy()),)
            return [(st, vs[0])]
        if n.startswith(('std::basic_string<', 'std::vector<char', 'std::basic_string_view<')) and obj is not None:
            v = self.view(eng, st, ('obj', obj))
            mem, size = self.container(eng, st, obj)
            if s in ('data', 'begin', 'operator[]', 'at', 'c_str'):
                if v:
                    b, o = addr(v[0])
                else:
                    b, o = mem, I(0)
                if vs:
                    o = plus(o, vs[0])
                if s == 'at':
                    eng.thrown[-1].append((st.copy(), ('exc', '?', None)))
                return [(st, ('loc', ('ptr', b, o)))]
            if s in ('size', 'length'):
                return [(st, v[1] if v else eng.rd(st, size))]
            if s == 'resize':
                eng.thrown[-1].append((st.copy(), ('exc', '?', None)))
                eng.touch(st, size, vs[0])
                return [(st, ('void',))]
            if s == 'operator basic_string_view':
                w = st.store.get(obj)
                if isinstance(w, tuple) and w[0] in ('encoded', 'blobdata'):
                    return [(st, w)]
        if n in ('joedb::Codec::encode', 'joedb::Brotli_Codec::encode', 'joedb::Identity_Codec::encode'):
            eng.thrown[-1].append((st.copy(), ('exc', '?', None)))
            v = self.view(eng, st, vs[0])
            return [(st, ('encoded', addr(v[0]), v[1]) if v else st.fresh('encoded?'))]
        if n.endswith('::write_blob') and 'encoded_file' in n:
            eng.thrown[-1].append((st.copy(), ('exc', '?', None)))
            x = vs[0]
            if isinstance(x, tuple) and x[0] in ('obj', 'loc'):
                x = st.store.get(x[1], x)
            return [(st, ('blob', x))]
        if n.endswith('::new_buffer') and 'encoded_file' in n:
            eng.thrown[-1].append((st.copy(), ('exc', '?', None)))
            b = vs[0]
            if isinstance(b, tuple) and b[0] in ('obj', 'loc'):
                b = st.store.get(b[1], b)
            st.ev += (('buffer', b, vs[1], vs[2], l, st.copy()),)
            return [(st, st.fresh('buffer'))]
        if 'encoded_file' in n and s in ('soft_checkpoint', 'hard_checkpoint'):
            eng.thrown[-1].append((st.copy(), ('exc', '?', None)))
            st.ev += ((s, l),)
            return [(st, ('void',))]
        if 'encoded_file' in n and s in ('get_offset', 'get_size', 'get_data'):
            b = self.ident(eng, st, vs[0])
            return [(st, ({'get_offset': 'boff', 'get_size': 'bsize', 'get_data': 'bdata'}[s], b))]
        if 'encoded_file' in n and s == 'get_buffer_table':
            st.ev += (('table', l),)
            return None
        if n.endswith('Abstract_File::read_blob'):
            eng.thrown[-1].append((st.copy(), ('exc', '?', None)))
            return [(st, ('blobdata', vs[0]))]
        if n in ('joedb::Decoder::decode',):
            x = vs[0]
            if isinstance(x, tuple) and x[0] in ('obj', 'loc'):
                x = st.store.get(x[1], x)
            if isinstance(x, tuple) and x[0] == 'ctor' and len(x[2]) == 1:
                x = x[2][0]
            st.ev += (('decode', x, addr(vs[1]), vs[2], l, st.copy()),)
            eng.thrown[-1].append((st.copy(), ('exc', '?', None)))
            return [(st, ('void',))]
        return None

    def ident(self, eng, st, v):
        if isinstance(v, tuple) and v[0] in ('obj', 'loc'):
            return eng.rd(st, v[1])
        return v

    def on_iter(self, eng, loop, b, e):
        self.iters.append((loop, b.copy(), e.copy()))

    def on_loop_exit(self, eng, loop, before, kind, z):
        self.exits.append((loop, before.copy(), kind, z))


def addr2(v):
    """(base, offset) of a pointer, also when it is a sum of terms"""
    b, o = v
    if b[0] in ('idx', 'ptr') and len(b) == 3:
        b2, o2 = addr2((b[1], I(0)))
        return b2, plus(plus(o2, b[2]), o)
    if b != ('abs',):
        return b, o
    d = dict(lin(o))
    for k, c in list(d.items()):
        if c == 1 and isinstance(k, tuple) and k[0] == 'loc':
            del d[k]
            b2, o2 = addr(k)
            return b2, plus(o2, lin_make(d))
        if c == 1 and isinstance(k, tuple) and k[0] == 'rd' and k[1][0] == 'fld' and k[1][-1].endswith('::data'):
            del d[k]
            return ('deref', k), lin_make(d)
        if c == 1 and k in (('arg', 'buffer'), ('arg', 'decoded')):
            del d[k]
            return ('param', k[1]), lin_make(d)
    return b, o


def norm_ev(ev):
    """events with every pointer in (base, offset) form"""
    return [x[:1] + tuple(addr2(y) if isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], tuple) and x[0] in ('copy', 'decode') and i < 2 else y for i, y in enumerate(x[1:])) for x in ev]


def calls_of(st):
    return [x for x in flat(norm_ev(st.ev))]


def steps(st):
    return ['%s at line %s' % (x[0], next((y for y in x if isinstance(y, int)), '?')) for x in flat(st.ev)]


class Prover:
    def __init__(self, ctx, eng, rule, f):
        self.ctx = ctx
        self.eng = eng
        self.rule = rule
        self.where = '%s:%s %s' % (rel(f['file']), f['l'], f['n'])
        self.name = f['n'].split('joedb::')[-1]

    def ob(self, ok, key, msg, oktext=None, st=None):
        self.ctx.require(bool(ok), self.name + ':' + key, self.where, msg, oktext or self.name + ': ' + key, steps(st) if st is not None and not ok else None)

    def L(self, st):
        return self.rule.entail(self.eng, st)


def any_eq(L, t, choices):
    return any(L.eq(t, c) for c in choices) or t[0] in ('min', 'max') and all(any(L.eq(x, c) for c in choices) for x in t[1:3])


def run(ctx, db, n, k, cls, setup=None):
    f = db.fn(n, k)
    rule = FileLike()
    eng = Engine(db, rule)
    outs = eng.run(f, setup, cls)
    ctx.use(f)
    ctx.use_engine(eng)
    return Prover(ctx, eng, rule, f), outs


def memory_read(ctx, db, cls, mem, size):
    p, outs = run(ctx, db, cls + '::pread', 3, cls)
    eng = p.eng
    for o in outs:
        if o.k == T:
            continue
        S = size(eng, o.st)
        L = p.L(o.st)
        copies = [x for x in calls_of(o.st) if x[0] == 'copy']
        p.ob(not o.st.ev or len(copies) == len(o.st.ev), 'events', 'does something else than copying', None, o.st)
        if not copies:
            p.ob(L.eq(o.v, I(0)) and (L.le(S, ('arg', 'offset')) or L.le(('arg', 'size'), I(0))), 'nothing', 'returns %s without reading although there may be something to read' % term(o.v), 'reads nothing only at the end', o.st)
            continue
        p.ob(len(copies) == 1, 'one-copy', 'copies more than once', None, o.st)
        _, d, s, n, l, c = copies[0]
        M = p.L(c)
        p.ob(d == (('param', 'buffer'), I(0)), 'destination', 'the bytes are not stored at the start of the memory of the caller: %s' % (d,), 'stored for the caller', o.st)
        p.ob(s[0] == mem(eng, c) and M.eq(s[1], ('arg', 'offset')), 'source', 'the bytes are not taken from the requested offset', 'taken from the requested offset', o.st)
        p.ob(M.le(n, ('arg', 'size')) and M.le(plus(s[1], n), S), 'bounds', 'the copy may go beyond the memory of the caller or beyond the end of the data', 'inside the data and the memory of the caller', o.st)
        p.ob(any_eq(M, n, (('arg', 'size'), minus(S, ('arg', 'offset')))), 'complete', 'fewer bytes than possible are read', 'as many bytes as possible are read', o.st)
        p.ob(L.eq(o.v, n), 'returned', 'does not return how many bytes were read', 'returns how many bytes were read', o.st)


def memory_write(ctx, db):
    cls = 'joedb::Memory_File'
    p, outs = run(ctx, db, cls + '::pwrite', 3, cls)
    eng = p.eng
    D = fld(THIS, cls + '::data')
    mem, size = p.rule.container(eng, None, D)
    S0 = ('rd', size, 0)
    end = plus(('arg', 'offset'), ('arg', 'size'))
    for o in outs:
        if o.k == T:
            continue
        copies = [x for x in calls_of(o.st) if x[0] == 'copy']
        S = eng.rd(o.st, size)
        L = p.L(o.st)
        p.ob(L.le(end, S) and L.le(S0, S) and any_eq(L, S, (end, S0)), 'size', 'the size of the file after the write is not the larger of its size before and the end of the write', 'the file grows to the end of the write, and never shrinks', o.st)
        p.ob(len(copies) == 1 and copies[0][1][0] == mem and L.eq(copies[0][1][1], ('arg', 'offset')) and copies[0][2] == (('param', 'buffer'), I(0)) and L.eq(copies[0][3], ('arg', 'size')), 'copy', 'the bytes are not copied, all of them, to the offset asked for', 'all bytes are copied to the offset asked for', o.st)
        if copies:
            p.ob(L.le(end, eng.rd(copies[0][5], size)), 'room', 'the bytes are copied before there is room for them', 'there is room for the bytes', o.st)


TOTAL = EF + '::write_buffer_total_size'


def encoded_write(ctx, db, total):
    """pending bytes are the first write_buffer_size bytes of write_buffer, for offset write_buffer_offset"""
    S0, O0 = ('rd', WSIZE, 0), ('rd', WOFF, 0)
    wb = ('fld', WB, '#data')

    def setup(eng, st, L, vs):
        eng.set_bound(st, eng.rd(st, WSIZE), lo=0, hi=total)
        eng.set_bound(st, eng.rd(st, WOFF), lo=0)

    for n, k in (('pwrite', 3), ('pread', 3), ('sync', 0), ('~Encoded_File', 0)):
        p, outs = run(ctx, db, EF + '::' + n, k, EF, setup)
        eng = p.eng
        recorded = n == 'pwrite'
        for o in outs:
            ev = calls_of(o.st)
            L = p.L(o.st)
            S, O = eng.rd(o.st, WSIZE), eng.rd(o.st, WOFF)
            pending = L.le(S0, I(0))           # nothing left of the pending bytes
            pend_at = None
            mine = None
            torn = False
            for i, x in enumerate(ev):
                if x[0] == 'buffer':
                    _, b, size, off, l, c = x
                    M = p.L(c)
                    enc = b[1] if b[0] == 'blob' else None
                    src = addr2(enc[1]) if enc and enc[0] == 'encoded' else None
                    if src is None:
                        p.ob(False, 'blob', 'line %s records something that is not the encoding of some bytes' % l, None, o.st)
                        continue
                    p.ob(M.eq(size, enc[2]), 'recorded size', 'line %s: the size recorded is not the number of bytes encoded' % l, 'the size recorded is the number of bytes encoded', o.st)
                    if src[0] == wb:
                        whole = M.eq(src[1], I(0)) and M.eq(enc[2], eng.rd(c, WSIZE)) and M.eq(off, eng.rd(c, WOFF))
                        p.ob(whole, 'pending bytes', 'line %s: the pending bytes are not recorded completely, at their offset' % l, 'all pending bytes recorded at their offset', o.st)
                        if M.eq(eng.rd(c, WSIZE), S0) and M.eq(eng.rd(c, WOFF), O0) and not torn:
                            pending = pending or whole
                            pend_at = i
                    elif src[0] == ('param', 'buffer'):
                        p.ob(n == 'pwrite' and M.eq(src[1], I(0)) and M.eq(enc[2], ('arg', 'size')) and M.eq(off, ('arg', 'offset')), 'direct bytes', 'line %s: the bytes of the caller are not recorded completely, at the offset asked for' % l, 'bytes of the caller recorded at the offset asked for', o.st)
                        p.ob(pending or M.le(S0, I(0)), 'order', 'line %s records new bytes before older pending ones, which would then replace them' % l, 'older bytes are recorded first', o.st)
                        mine = ('recorded', i)
                    else:
                        p.ob(False, 'source', 'line %s records bytes of unknown origin' % l, None, o.st)
                elif x[0] == 'copy' and x[1][0] == wb:
                    _, d, s, m, l, c = x
                    M = p.L(c)
                    before = eng.rd(c, WSIZE)
                    p.ob(M.le(I(0), d[1]) and M.le(plus(d[1], m), I(total)), 'bounds', 'line %s may write beyond the end of the write buffer' % l, 'inside the write buffer', o.st)
                    p.ob(M.eq(d[1], before), 'append', 'line %s does not store the bytes after the pending ones' % l, 'stored after the pending bytes', o.st)
                    p.ob(s == (('param', 'buffer'), I(0)) and M.eq(m, ('arg', 'size')), 'whole', 'line %s does not store all the bytes of the caller' % l, 'all bytes of the caller stored', o.st)
                    kept = M.eq(before, S0) and not M.le(S0, I(0)) and not pending
                    if kept:
                        p.ob(M.eq(plus(eng.rd(c, WOFF), before), ('arg', 'offset')), 'contiguous', 'line %s joins bytes that do not follow the pending ones' % l, 'only contiguous bytes are joined', o.st)
                    mine = ('stored', d[1], m, kept)
                elif x[0] == 'copy' and x[1][0] == ('fld', RB, '#data'):
                    p.ob(False, 'cache', 'line %s writes the cache of decoded bytes' % x[4], None, o.st)
            if o.k == T:
                p.ob(pending or L.eq(S, S0) and L.eq(O, O0), 'failure', 'pending bytes are lost when recording them fails', 'pending bytes are kept when recording them fails', o.st)
                continue
            if n == 'pwrite':
                p.ob(mine is not None, 'written', 'the bytes of the caller are dropped', 'the bytes of the caller are recorded or kept', o.st)
                if mine and mine[0] == 'stored':
                    p.ob(L.eq(S, plus(mine[1], mine[2])), 'pending size', 'the number of pending bytes is wrong after storing the bytes', 'number of pending bytes updated', o.st)
                    p.ob(L.eq(plus(O, mine[1]), ('arg', 'offset')), 'pending offset', 'the pending bytes would be recorded at the wrong offset', 'pending bytes at their offset', o.st)
                    p.ob(mine[3] or pending or L.eq(mine[1], S0), 'kept', 'pending bytes are overwritten before they are recorded', 'pending bytes recorded before they are replaced', o.st)
                elif mine:
                    p.ob(pending and L.le(S, I(0)), 'empty', 'pending bytes are recorded again later, over newer ones', 'nothing left pending', o.st)
            else:
                caught = n.startswith('~') and not pending
                recorded = recorded or pend_at is not None
                p.ob(pending or caught, 'flushed', '%s leaves pending bytes unrecorded' % n, 'pending bytes are recorded', o.st)
                if not caught:
                    p.ob(L.le(S, I(0)) or n.startswith('~'), 'empty', 'pending bytes stay pending after they were recorded', 'nothing left pending', o.st)
            last = max([i for i, x in enumerate(ev) if x[0] == 'buffer'], default=-1)
            tail = [x[0] for x in ev[last + 1:]]
            if last >= 0 and not n.startswith('~'):
                p.ob('soft_checkpoint' in tail or 'hard_checkpoint' in tail, 'checkpoint', 'recorded bytes may stay in the buffer of the journal, where they cannot be read', 'recorded bytes are checkpointed', o.st)
            if n == 'sync':
                p.ob('hard_checkpoint' in tail, 'sync', 'sync() does not write a hard checkpoint after the pending bytes', 'a hard checkpoint follows the pending bytes', o.st)
            if n == 'pread':
                tab = [i for i, x in enumerate(ev) if x[0] == 'table']
                p.ob(tab and (pend_at is None or pend_at < tab[0]), 'read own writes', 'the recorded buffers are searched before pending bytes are recorded', 'pending bytes are recorded before reading', o.st)
        p.ob(recorded, 'records', '%s never records pending bytes' % n, 'pending bytes are recorded')


def constructor(ctx, db, total):
    f = db.fn(EF + '::Encoded_File', 2)
    p, outs = run(ctx, db, EF + '::Encoded_File', 2, EF)
    for o in outs:
        if o.k == T:
            continue
        L = p.L(o.st)
        p.ob(L.eq(p.eng.rd(o.st, WSIZE), I(0)), 'initially empty', 'the write buffer is not empty at the start', 'no pending bytes at the start', o.st)
        p.ob(L.eq(p.eng.rd(o.st, WOFF), I(0)), 'initial offset', 'the offset of the empty write buffer is not 0', 'pending offset is 0 at the start', o.st)
        v = o.st.store.get(WB)
        p.ob(isinstance(v, tuple) and v[0] == 'ctor' and v[2] and L.le(I(total), v[2][0]), 'room', 'the write buffer is smaller than %d bytes' % total, 'the write buffer has %d bytes' % total, o.st)


def item_of(st, ev=()):
    """ids of records whose offset or size is used in this state"""
    out = set()
    for v in list(st.store.values()) + [x for x in st.facts]:
        for t in subterms(v):
            if t[0] in ('boff', 'bsize'):
                out.add(t[1])
    return out


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from subterms(x)


def encoded_read(ctx, db):
    p, outs = run(ctx, db, RF + '::pread', 3, RF)
    eng = p.eng
    rb = ('fld', RB, '#data')
    start, end = ('arg', 'offset'), plus(('arg', 'offset'), ('arg', 'size'))
    acc = set()
    p.ob(len(p.rule.iters) >= 2, 'loop', 'no loop over the recorded buffers was found')
    for loop, b, e in p.rule.iters:
        ids = [x for x in item_of(e) if x not in item_of(b)]
        p.ob(len(ids) == 1, 'item', 'one iteration deals with %d recorded buffers' % len(ids), 'one recorded buffer per iteration', e)
        if len(ids) != 1:
            continue
        it = ids[0]
        bs, be = ('boff', it), plus(('boff', it), ('bsize', it))
        L = p.L(e)
        new = norm_ev(e.ev[len(b.ev):] if e.ev[:len(b.ev)] == b.ev else e.ev)
        copies = [x for x in new if x[0] == 'copy']
        changed = {V: v for V, v in e.store.items() if V[0] == 'var' and V in b.store and b.store[V] != v}
        if not copies:
            pairs = [(x, y) for x in (end, be) for y in (start, bs)]
            mm = [(lo, hi) for lo in (('min', end, be), ('min', be, end)) for hi in (('max', start, bs), ('max', bs, start))]
            p.ob(any(L.le(x, y) for x, y in pairs + mm) or L.le(('bsize', it), I(0)), 'skipped', 'a recorded buffer that overlaps what was asked for may be skipped', 'only buffers without common bytes are skipped', e)
            continue
        p.ob(len(copies) == 1, 'one-copy', 'a buffer is copied more than once', None, e)
        _, d, s, n, l, c = copies[0]
        M = p.L(c)
        x0 = plus(d[1], start)           # position in the file
        p.ob(d[0] == ('param', 'buffer') and s[0] == rb, 'copied', 'line %s does not copy decoded bytes to the caller' % l, 'decoded bytes are copied to the caller', e)
        p.ob(M.eq(minus(s[1], d[1]), minus(start, bs)), 'place', 'line %s: the byte taken from the decoded buffer is not the one of that position of the file' % l, 'each byte goes to its place', e)
        p.ob(M.le(start, x0) and M.le(bs, x0), 'first', 'line %s may copy bytes before the start of the buffer or of the memory of the caller' % l, 'starts inside both', e)
        x1 = plus(x0, n)
        p.ob(M.le(x1, end) and M.le(x1, be), 'last', 'line %s may copy bytes after the end of the buffer or of the memory of the caller' % l, 'ends inside both', e)
        p.ob(any_of(M, x0, (start, bs)) and any_of(M, x1, (end, be)), 'all', 'line %s does not copy all common bytes' % l, 'all common bytes are copied', e)
        dec = [x for x in new if x[0] == 'decode' and new.index(x) < new.index(copies[0])]
        if dec:
            _, enc, to, size, dl, ds = dec[-1]
            p.ob(enc == ('blobdata', ('bdata', it)), 'decode source', 'line %s decodes the data of another buffer' % dl, 'decodes the data of this buffer', e)
            p.ob(to == (rb, I(0)) and M.eq(size, ('bsize', it)), 'decode size', 'line %s does not decode the whole buffer to the start of the cache' % dl, 'the whole buffer is decoded', e)
            R = eng.rd(ds, ('fld', RB, '#size'))
            p.ob(p.L(ds).le(('bsize', it), R), 'decode room', 'line %s decodes more bytes than the cache can hold' % dl, 'the cache is large enough', e)
            p.ob(same_id(eng, eng.rd(e, DEC), it), 'cache id', 'the cache is not marked as holding the buffer that was decoded', 'the cache is marked', e)
            p.ob(is_null(eng.rd(ds, DEC)), 'cache failure', 'if decoding fails, the cache is still marked as holding a buffer', 'the mark is cleared before decoding', e)
        else:
            p.ob(cached(e, it), 'cache hit', 'bytes of another buffer are copied from the cache', 'cached bytes are those of this buffer', e)
        up = [(V, v) for V, v in changed.items() if L.le(x1, v)]
        keep = [V for V in e.store if V[0] == 'var' and V in b.store and b.store[V] == e.store[V] and L.le(x1, e.store[V]) and str(e.store[V][0]) in ('phi', 'arg')]
        good = [V for V, v in up if L.le(b.store[V], v) and any_of(L, v, (b.store[V], x1))]
        acc.update(V[1] for V in good)
        p.ob(good or keep, 'end', 'the end of what was read is not updated correctly', 'the end of what was read covers this copy', e)
    for o in outs:
        if o.k == T:
            continue
        L = p.L(o.st)
        t = plus(o.v, start)
        ok = L.eq(o.v, I(0)) and not any(x[0] == 'copy' for x in o.st.ev) or isinstance(t, tuple) and t[0] == 'phi' and t[1] in acc or any(V[0] == 'var' and V[1] in acc and o.st.store[V] == t for V in o.st.store)
        p.ob(ok, 'returned', 'does not return the number of bytes up to the end of what was read', 'returns the number of bytes up to the end of what was read', o.st)


def any_of(L, t, choices):
    if any(L.eq(t, c) for c in choices):
        return True
    for lo, hi in (('min', 'max'),):
        for q in (lo, hi):
            for a in (choices, tuple(reversed(choices))):
                if L.eq(t, (q,) + tuple(a)):
                    return True
    return False


def is_null(v):
    return isinstance(v, tuple) and v[0] == 'ctor' and 'Record_Id::null' in str(v[2])


def same_id(eng, v, it):
    return v == it or isinstance(v, tuple) and v[0] == 'ctor' and len(v[2]) == 1 and v[2][0] == it


def cached(st, it):
    for a, v in st.facts.items():
        if isinstance(a, tuple) and it in list(subterms(a)) and DEC in list(subterms(a)):
            if a[0] == 'op' and a[1] == '==' and v is True or a[0] in ('op',) and a[1] == '!=' and v is False:
                return True
            if a[0] == 'nz' and 'operator!=' in str(a) and v is False or a[0] == 'nz' and 'operator==' in str(a) and v is True:
                return True
    return False


def encoded_size(ctx, db):
    for cls in (RF, EF):
        p, outs = run(ctx, db, cls + '::get_size', 0, cls)
        eng = p.eng
        acc = set()
        p.ob(len(p.rule.iters) >= 1, 'loop', 'no loop over the recorded buffers was found')
        for loop, b, e in p.rule.iters:
            ids = [x for x in item_of(e) if x not in item_of(b)]
            if len(ids) != 1:
                p.ob(False, 'item', 'one iteration deals with %d recorded buffers' % len(ids), None, e)
                continue
            L = p.L(e)
            be = plus(('boff', ids[0]), ('bsize', ids[0]))
            good = False
            for V in e.store:
                if V[0] == 'var' and V in b.store and b.store[V][0] in ('phi', 'i'):
                    g, v = b.store[V], e.store[V]
                    if L.le(be, v) and L.le(g, v) and any_of(L, v, (g, be)):
                        good = True
                        acc.add(V[1])
            p.ob(good, 'largest', 'the end of a recorded buffer is not taken into account', 'the end of every recorded buffer counts', e)
        pend = plus(('rd', WOFF, 0), ('rd', WSIZE, 0))
        for o in outs:
            if o.k == T:
                continue
            L = p.L(o.st)
            inner = [('phi', t[1], t[2]) for t in subterms(o.v) if t[0] == 'phi' and t[1] in acc] + [v for V, v in o.st.store.items() if V[0] == 'var' and V[1] in acc]
            zero = not any(x[0] == 'iter' for x in o.st.ev)
            cands = inner + [I(0)]
            if cls == RF:
                ok = any(L.eq(o.v, c) for c in cands)
            else:
                ok = any(L.le(c, o.v) and L.le(pend, o.v) and any_of(L, o.v, (c, pend)) for c in cands)
            p.ob(ok, 'size', 'the size is not the end of the last byte', 'the size is the end of the last byte', o.st)


def brotli(ctx, db):
    f = db.fn('joedb::Brotli_Decoder::decode', 3)
    p, outs = run(ctx, db, f['n'], 3, 'joedb::Brotli_Decoder')
    for o in outs:
        if o.k == T:
            continue
        done = size = False
        for a, v in o.st.facts.items():
            if isinstance(a, tuple) and a[0] == 'op' and a[1] == '==' and v is True:
                if any(t[:2] == ('call', 'BrotliDecoderDecompress') for t in subterms(a)) and I(1) in a:
                    done = True
                if any(t[:2] == ('out', 'BrotliDecoderDecompress') for t in subterms(a)) and ('arg', 'decoded_size') in a:
                    size = True
        p.ob(done, 'success', 'returns normally although decompression failed', 'returns only after success', o.st)
        p.ob(size, 'whole', 'returns normally although another number of bytes was decoded', 'the number of bytes decoded is the one expected', o.st)


@check('F04', parts=('src',), floor=60,
       rule='Memory_File, Readonly_Memory_File, Encoded_File, Readonly_Encoded_File and Brotli_Decoder interpreted on every path from every state of the write buffer; each memory copy and each recorded buffer is compared, with linear arithmetic, to the part of the file it stands for; one iteration over the recorded buffers with arbitrary buffer is proved to copy exactly the common bytes',
       trusted=['memcpy, std::string, std::vector, std::min and std::max do what they are documented to do', 'the Brotli library', 'generated tables are enumerated in increasing order of id (G05)'])
def f04(ctx):
    db = ctx.db
    need_fields(db, EF, 'write_buffer', 'write_buffer_size', 'write_buffer_offset')
    need_fields(db, RF, 'read_buffer', 'decoded_buffer')
    g = db.globals.get(TOTAL)
    if not g:
        raise AnalysisError('no constant ' + TOTAL)
    total = g['e']['v']
    M = fld(THIS, 'joedb::Memory_File::data')
    memory_read(ctx, db, 'joedb::Memory_File', lambda eng, st: ('fld', M, '#data'), lambda eng, st: eng.rd(st, ('fld', M, '#size')))
    D = fld(THIS, 'joedb::Readonly_Memory_File::data')
    memory_read(ctx, db, 'joedb::Readonly_Memory_File', lambda eng, st: ('deref', eng.rd(st, D)), lambda eng, st: eng.rd(st, fld(THIS, 'joedb::Readonly_Memory_File::data_size')))
    memory_write(ctx, db)
    constructor(ctx, db, total)
    encoded_write(ctx, db, total)
    encoded_read(ctx, db)
    encoded_size(ctx, db)
    brotli(ctx, db)

"""Bounds and positions of the file buffer."""
from jsa.runner import check
from jsa.induct import InductRule, run_inductive
from jsa.linear import Lin
from .common import *
from .files import addr, plus, minus, is_pread, calls_in, fname

FB = 'joedb::File_Buffer'
THIS = ('this',)
BUF = fld(THIS, FB + '::buffer')
RSIZE = fld(THIS, FB + '::read_buffer_size')
FPOS = fld(THIS, 'joedb::File_Iterator::position')


class BufRule(InductRule):
    max_states = 4000

    def __init__(self, db, bcls, owner, caller=None):
        super().__init__()
        self.db = db
        self.owner = owner                 # location of the Buffer object
        self.data = fld(owner, bcls + '::data')
        self.index = fld(owner, bcls + '::index')
        self.caller = caller               # (base, size term) of the caller's memory
        self.lp = None
        self.fileio = False

    def inline(self, eng, f):
        return rel(f['file']).startswith('src/joedb/journal/') and (not f['n'].startswith('joedb::Abstract_File') or bool(f.get('st')))

    def models(self, name):
        return is_pread(name) or name == FB + '::read_data' or name.endswith('::pwrite') or name.split('::')[-1] == 'memcpy' or name.startswith('std::basic_string')

    def term_nonneg(self, t):
        return isinstance(t, tuple) and bool(t) and t[0] in ('iter', 'preadn', 'arg')

    def may_throw(self, eng, name, node):
        return False

    def invariants(self, eng, b, e):
        return {(self.index, RSIZE), (RSIZE, self.size), (self.index, self.size)}

    def lin(self, eng, st):
        return self.entail(eng, st)

    def entail(self, eng, st):
        L = Lin(eng, st, self.term_nonneg)
        extra = set()
        for d in list(L.ineq):
            extra |= {k for k in d if isinstance(k, tuple) and k[0] == 'preadn'}
        for v in st.store.values():
            if isinstance(v, tuple) and v:
                try:
                    extra |= {k for k in lin(v) if isinstance(k, tuple) and k[0] == 'preadn'}
                except Exception:
                    pass
        for k in extra:
            L.add({**{k: 1}, **{q: -c for q, c in lin(k[2]).items()}})
        return L

    def ob(self, ok, key, what, line):
        self.obl.append((bool(ok), key, what, line))

    def span(self, eng, st, p, n, what, line, write):
        """is [p, p+n) inside its object?"""
        b, o = addr(p)
        E = self.entail(eng, st)
        if b == self.data or b == ('fld', self.owner, self.data[2]):
            ok = E.le(I(0), o) and E.le(plus(o, n), I(self.cap))
            self.ob(ok, what + ':buffer-bounds', '%s: offset %s, size %s in an array of %d bytes' % (what, term(o), term(n), self.cap), line)
            return 'buf', o
        if self.caller is not None and (b == self.caller[0] or b == ('abs',) and self.caller[0] == ('abs',)):
            off = o if b != ('abs',) else minus(o, self.caller[2])
            ok = E.le(I(0), off) and E.le(plus(off, n), self.caller[1])
            self.ob(ok, what + ':caller-bounds', '%s: offset %s, size %s in the memory of the caller (%s bytes)' % (what, term(off), term(n), term(self.caller[1])), line)
            return 'caller', off
        self.local_span(eng, st, b, o, n, what, line)
        return None, o

    def coord(self, eng, st, off):
        """position in the file of the byte at this offset of the buffer"""
        return minus(plus(eng.rd(st, FPOS), off), eng.rd(st, RSIZE))

    def on_call(self, eng, st, call, obj, vs, e):
        n = call['n']
        l = e.get('l', 0)
        if n.split('::')[-1] in ('memcpy', 'memmove', '__builtin_memcpy') and len(vs) == 3:
            d = self.span(eng, st, vs[0], vs[2], 'memcpy destination', l, True)
            s = self.span(eng, st, vs[1], vs[2], 'memcpy source', l, False)
            if self.fileio and {d[0], s[0]} == {'buf', 'caller'}:
                bo, co = (d[1], s[1]) if d[0] == 'buf' else (s[1], d[1])
                self.place(eng, st, self.coord(eng, st, bo), co, 'memcpy', l)
                if s[0] == 'buf':
                    self.ob(self.entail(eng, st).le(plus(bo, vs[2]), eng.rd(st, RSIZE)), 'memcpy source:valid', 'the bytes copied were read from the file', l)
            if d[0] is None and vs[0][0] == 'loc':
                st.ctr += 1
                eng.touch(st, vs[0][1], ('memcpy', st.ctr))
                t = self.local_type(eng)
                if t in RANGES:
                    v = eng.rd(st, vs[0][1])
                    eng.set_bound(st, v, lo=RANGES[t][0], hi=RANGES[t][1])
            return [(st, ('void',))]
        if n == FB + '::read_data':
            self.span(eng, st, vs[0], vs[1], 'read_data', l, True)
            # checked on its own: keeps the bounds, reads whatever the file contains
            E = self.entail(eng, st)
            i, r = eng.rd(st, self.index), eng.rd(st, RSIZE)
            self.ob(E.le(I(0), i) and E.le(i, r) and E.le(r, I(self.size)), 'read_data:pre', 'the bounds of the index hold when read_data is called', l)
            for L in (self.index, RSIZE, FPOS):
                st.ctr += 1
                eng.touch(st, L, ('read_data', st.ctr))
            i, r = eng.rd(st, self.index), eng.rd(st, RSIZE)
            eng.set_bound(st, i, lo=0)
            eng.set_bound(st, r, lo=0, hi=self.size)
            st.facts[('op', '<', r, i)] = False
            if vs[0][0] == 'loc':
                st.ctr += 1
                eng.touch(st, vs[0][1], ('read_data', st.ctr))
                t = self.local_type(eng)
                if t in RANGES:
                    eng.set_bound(st, eng.rd(st, vs[0][1]), lo=RANGES[t][0], hi=RANGES[t][1])
            st.ctr += 1
            return [(st, ('call', 'read_data', st.ctr))]
        if n.startswith('joedb::') and n.endswith('::pread'):
            st.ctr += 1
            t = ('preadn', st.ctr, vs[1])
            eng.set_bound(st, t, lo=0)
            b, o = self.span(eng, st, vs[0], vs[1], 'pread', l, True)
            if b == 'caller' and self.fileio:
                st.ev += (('direct', minus(vs[2], o), l),)
            if b == 'buf' and self.fileio:
                self.ob(not eng.rd(st, RSIZE) or o == I(0), 'pread:start', 'the buffer is filled from its first byte', l)
            return [(st, t)]
        if n.startswith('joedb::') and n.endswith('::pwrite'):
            b, o = self.span(eng, st, vs[0], vs[1], 'pwrite', l, False)
            if self.fileio:
                if b == 'buf':
                    E = self.entail(eng, st)
                    self.ob(E.eq(vs[2], self.coord(eng, st, o)) and E.eq(vs[1], eng.rd(st, self.index)) and E.eq(o, I(0)), 'pwrite:place', 'the pending bytes, all of them, are written at the position of the file', l)
                elif b == 'caller':
                    self.place(eng, st, vs[2], o, 'pwrite', l)
                    E = self.entail(eng, st)
                    self.ob(E.eq(vs[1], self.caller[1]) and (E.eq(eng.rd(st, self.index), I(0))), 'pwrite:order', 'pending bytes are written before those that follow', l)
            st.ev += (('pwrite', l),)
            return [(st, ('void',))]
        return None

    def place(self, eng, st, filepos, off, what, l):
        E = self.entail(eng, st)
        self.ob(E.eq(filepos, plus(self.lp, off)), what + ':place', '%s: byte %s of the caller corresponds to file position %s' % (what, term(off), term(minus(filepos, self.lp))), l)

    def var_type(self, eng, L):
        """declared type of a local variable or parameter"""
        if L[0] != 'var':
            return None
        for fr in reversed(eng.frames):
            f = fr['f']
            if not f:
                continue
            for p in f.get('ps', ()):
                if p.get('id') == L[1]:
                    return p['t']
            for d in walk(f.get('body') or {}):
                if d.get('s') == 'decl':
                    for v in d['v']:
                        if v.get('id') == L[1]:
                            return v['t']
        return None

    def local_span(self, eng, st, b, o, n, what, line):
        t = self.var_type(eng, b)
        sz = type_size(self.db, t) if t else None
        if sz is not None:
            E = self.entail(eng, st)
            self.ob(E.le(I(0), o) and E.le(plus(o, n), I(sz)), what + ':local-bounds', '%s: offset %s, size %s in a variable of %d bytes' % (what, term(o), term(n), sz), line)

    def local_type(self, eng):
        f = eng.frames[-1]['f']
        return (f.get('ta') or '').rstrip(';')

    def on_index(self, eng, st, L, i, node):
        p = ('loc', ('ptr', L, i)) if L[0] not in ('elem0', 'ptr') else ('loc', ('ptr', L, i))
        self.span(eng, st, p, I(1), 'element', node.get('l', 0), True)

    def on_deref(self, eng, st, v, node):
        if isinstance(v, tuple) and v[0] == 'loc' and v[1][0] in ('ptr', 'elem0'):
            self.span(eng, st, v, I(1), 'element', node.get('l', 0), True)


RANGES = {'unsigned char': (0, 255), 'signed char': (-128, 127), 'char': (-128, 127), 'short': (-32768, 32767), 'unsigned short': (0, 65535)}
SIZES = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'bool': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'float': 4, 'long': 8, 'unsigned long': 8, 'double': 8, 'long long': 8, 'unsigned long long': 8}


def array_len(t):
    return int(t[t.index('[') + 1:t.index(']')])


def type_size(db, t):
    t = t.replace('const ', '').strip().rstrip(';')
    if t in SIZES:
        return SIZES[t]
    if '*' in t or '&' in t:
        return None
    if t.startswith('std::array<'):
        a, n = t[len('std::array<'):-1].rsplit(',', 1)
        return SIZES[a.strip()] * int(n)
    try:
        e = db.enum(t)
    except Exception:
        return None
    return SIZES.get(e.get('ut') or e.get('t') or '')


def run_method(ctx, f, mode, args, caller, expect, db):
    """execute a method of File_Buffer from an arbitrary state of the given mode"""
    from jsa.engine import Engine
    bcls = 'joedb::Buffer'
    rule = BufRule(db, bcls, BUF, caller)
    rule.cap = ctx.cap
    rule.size = ctx.size
    rule.fileio = True
    start = {}

    def setup(eng, st, L, vs):
        i, r = eng.rd(st, rule.index), eng.rd(st, RSIZE)
        if mode == 'write':
            st.store[RSIZE] = I(0)
            eng.set_bound(st, i, lo=0, hi=ctx.size - 1)
        elif mode == 'fresh':
            st.store[RSIZE] = I(0)
            st.store[rule.index] = I(0)
        else:
            eng.set_bound(st, i, lo=0)
            eng.set_bound(st, r, lo=1, hi=ctx.size)
            st.facts[('op', '<', r, i)] = False
        if caller is not None and not is_int(caller[1]):
            eng.set_bound(st, caller[1], lo=0)
        start['lp'] = plus(minus(eng.rd(st, FPOS), eng.rd(st, RSIZE)), eng.rd(st, rule.index))
        rule.lp = start['lp']

    eng, outs = run_inductive(lambda r: Engine(db, r), rule, lambda en: en.run(f, setup, THIS_CLS, args=args))
    ctx.use_engine(eng)
    name = '%s [%s]' % (fname(f) + (('<%s>' % f['ta'].rstrip(';')) if f.get('ta') else ''), mode)
    where = '%s:%s' % (rel(f['file']), f['l'])
    for okv, key, what, line in rule.obl:
        ctx.require(okv, '%s:%s' % (f['n'].split('::')[-1], key), where.split(':')[0] + ':%s' % line, '%s, %s' % (name, what), sample='%s: %s' % (name, what))
    n = 0
    for o in outs:
        if o.k == 'T':
            continue
        n += 1
        st = o.st
        E = rule.entail(eng, st)
        i, r = eng.rd(st, rule.index), eng.rd(st, RSIZE)
        w = E.eq(r, I(0)) and E.le(I(0), i) and E.le(i, I(ctx.size - 1))
        rd = E.le(I(0), i) and E.le(i, r) and E.le(r, I(ctx.size))
        want = w if mode == 'write' or expect == 'write' else rd
        if expect == 'flush':
            want = E.eq(r, I(0)) and E.eq(i, I(0))
        ctx.require(want, '%s:invariant' % f['n'].split('::')[-1], where, '%s: afterwards, the buffer index is %s and the number of bytes read is %s: outside the bounds of the next operation' % (name, term(i), term(r)), sample='%s keeps the bounds of the index' % name, trace=trace(st.ev))
        lp = plus(minus(eng.rd(st, FPOS), r), i)
        adv = args.get('adv') if isinstance(args, dict) and 'adv' in args else None
        if callable(expect_adv(f)):
            a = expect_adv(f)(o, vs_of(eng, f))
            if a is not None:
                ctx.require(E.eq(lp, a(start['lp'])), '%s:position' % f['n'].split('::')[-1], where, '%s: the position moves by %s' % (name, term(minus(lp, start['lp']))), sample='%s moves the position exactly' % name, trace=trace(st.ev))
    ctx.require(n > 0, '%s:returns' % f['n'].split('::')[-1], where, '%s never returns' % name)


THIS_CLS = FB
PUBLIC = {'write', 'compact_write', 'write_data', 'read', 'compact_read', 'read_data', 'flush', 'set_position', 'ignore', 'read_strong_type', 'write_reference', 'read_reference', 'write_blob', 'read_blob', 'write_string', 'read_string', 'safe_read_string'}


def vs_of(eng, f):
    return {p['n']: ('arg', p['n']) for p in f['ps']}


def expect_adv(f):
    n = f['n'].split('::')[-1]
    if n in ('write_data', 'ignore'):
        p = ('arg', f['ps'][-1]['n'])
        return lambda o, v: (lambda lp: plus(lp, p))
    if n == 'read_data':
        return lambda o, v: (lambda lp: plus(lp, o.v))
    if n == 'flush':
        return lambda o, v: (lambda lp: lp)
    if n == 'set_position':
        p = ('arg', f['ps'][0]['n'])
        return lambda o, v: (lambda lp: p)
    return None


@check('F05', floor=60, rule='Every method of File_Buffer is executed abstractly from an arbitrary state that satisfies the bounds of its mode (writing: 0 <= index < size, nothing read; reading: 0 <= index <= bytes read <= size), with every file read returning any number of bytes up to the number asked. '
       'Loop counters are solved as initial value + delta * iterations; bounds of the index are kept only when inductive. Linear-arithmetic entailment must show that every memory copy, element access, file read and file write stays inside the array of the buffer and inside the memory of the caller, '
       'that bytes go between the same position of the file and of the data of the caller, that the bounds hold again on return, and that the logical position moves exactly as documented.',
       trusted=['integers do not wrap', 'a buffer is not switched between reading and writing without set_position (documented precondition)'])
def f05(ctx):
    db = ctx.db
    need_fields(db, FB, 'buffer', 'read_buffer_size')
    bt = [f['t'] for f in db.cls(FB)['fields'] if f['n'] == 'buffer'][0]
    flds = {f['n']: f['t'] for f in db.cls(bt)['fields']}
    ctx.cap = array_len(flds['data'])
    ctx.size = db.globals[bt + '::size']['e']['v']
    for f in sorted(db.functions.values(), key=lambda f: f['key']):
        n = f['n'].split('::')[-1]
        if not f['n'].startswith(FB + '::') or not f.get('body'):
            continue
        if f.get('kind') == 'ctor' or n in ('buffer_has_write_data', 'buffer_has_read_data', 'get_position', 'read_buffer', 'write_buffer', 'check_write_buffer', 'write_string', 'read_string', 'safe_read_string'):
            continue
        ctx.use(f)
        own = [x['n'] for x in walk(f['body']) if x.get('k') == 'mem' and x['n'] in (FB + '::buffer', FB + '::read_buffer_size', 'joedb::File_Iterator::position')]
        if not own:
            # only combines checked methods
            for c in calls_in(f['body']):
                if c.get('n', '').startswith('joedb::File_Iterator'):
                    own.append(c['n'])
            called = {c.get('n', '').split('::')[-1] for c in calls_in(f['body']) if c.get('n', '').startswith(FB + '::')}
            if not own and n != 'read' and called and called <= PUBLIC:
                ctx.ok('%s only combines checked methods' % f['n'])
                continue
        if n in ('write', 'compact_write', 'write_reference', 'write_blob'):
            for m in ('fresh', 'write'):
                run_method(ctx, f, m, {}, None, 'write', db)
        elif n == 'write_data':
            p = f['ps'][0]['n']
            for m in ('fresh', 'write'):
                run_method(ctx, f, m, {}, (('param', p), ('arg', f['ps'][1]['n'])), 'write', db)
        elif n in ('read', 'compact_read', 'read_strong_type', 'read_reference', 'read_blob'):
            for m in ('fresh', 'read'):
                run_method(ctx, f, m, {}, None, 'read', db)
        elif n == 'read_data':
            p = f['ps'][0]['n']
            for m in ('fresh', 'read'):
                run_method(ctx, f, m, {}, (('param', p), ('arg', f['ps'][1]['n'])), 'read', db)
        elif n in ('flush', 'set_position'):
            for m in ('fresh', 'write', 'read'):
                run_method(ctx, f, m, {}, None, 'flush', db)
        elif n == 'ignore':
            for m in ('fresh', 'read'):
                run_method(ctx, f, m, {}, None, 'read', db)

"""G02: generated classes check and upgrade the schema of the files they open."""
import os
import re
from jsa.runner import check
from jsa.engine import Engine
from jsa.corpus import AnalysisError
from jsa.linear import Lin
from .common import *
from .buffers import plus, minus
from .compiled import strip, Schema, HERE

NS = 'vsample::'
RJ = 'joedb::Readonly_Journal::'
WJ = 'joedb::Writable_Journal::'
GEN = re.compile(r'vsample::(\w+::)*(Database_Writable|Writable_Database|Readonly_Database|Client|Readonly_Client|Client_Data|Memory_Database|File_\w+|\w*Interpreted_File_Database)::')
PLAYS = ('replay_log', 'play_until_checkpoint', 'raw_play_until_checkpoint', 'raw_play_until', 'play_until')
EVENTS = ('create_table', 'drop_table', 'rename_table', 'add_field', 'drop_field', 'rename_field', 'custom')


def path(L):
    """names of the fields that lead to a location"""
    out = []
    while isinstance(L, tuple) and L:
        if L[0] == 'fld':
            out.append(L[2].rsplit('::', 1)[-1])
            L = L[1]
        elif L[0] in ('refto', 'base'):
            L = L[1]
        else:
            break
    return '.'.join(reversed(out)) or (L[0] if isinstance(L, tuple) else str(L)) if L != ('this',) or out else 'this'


SIMPLE = ('joedb::operator', 'joedb::to_underlying', 'joedb::Record_Id', 'joedb::Table_Id', 'joedb::Field_Id')


def owner(L):
    """the database object a member of a generated class belongs to"""
    while isinstance(L, tuple) and L and L[0] in ('fld', 'refto'):
        if L[0] == 'fld' and re.match(r'vsample::(\w+::)*(Database|Database_Writable|Writable_Database)::', L[2]):
            return L[1]
        L = L[1]
    return None


def member(L):
    return L[2].rsplit('::', 1)[-1] if isinstance(L, tuple) and L and L[0] == 'fld' else None


class UpgradeRule(Rule):
    """schema of the file (size after each playback), comparisons with the schema of the code, playbacks, checkpoints, data changed"""
    merge = False
    max_states = 20000

    def inline(self, eng, f):
        n = f['n']
        if n.startswith(SIMPLE) or n == 'joedb::Writable_Client::transaction' or n.startswith('joedb::Writable_Client::transaction<'):
            return True
        if not n.startswith(NS):
            return False
        m = n.rsplit('::', 1)[-1]
        return f.get('kind') in ('lambda', 'ctor') or m not in ('throw_exception',) and not re.match(r'(new|set|delete|update|insert|clear|write)_', m)

    def models(self, name):
        return name.startswith((RJ, WJ, 'joedb::Memory_File::', 'joedb::Writable_Client::start_transaction', 'joedb::Writable_Client::push', 'std::')) or name in ('memcmp', 'std::memcmp')

    def may_throw(self, eng, name, node):
        return False

    def size(self, eng, st, db):
        k = ('ghost', 'S', db)
        if k not in st.store:
            st.store[k] = ('S', 0, db)
            eng.set_bound(st, st.store[k], 0, None)
        return st.store[k]

    def played(self, eng, st, db, size=None):
        st.ctr += 1
        v = size if size is not None else ('S', st.ctr, db)
        st.store[('ghost', 'S', db)] = v
        if size is None:
            eng.set_bound(st, v, 0, None)
        st.store[('ghost', 'cp', db)] = ('cp', st.ctr, db)

    def source(self, eng, st, obj):
        """'schema' if the journal reads the schema the code was generated from"""
        v = st.store.get(obj)
        return 'schema' if isinstance(v, tuple) and v[:1] == ('ghostjournal',) else obj

    def on_ctor(self, eng, st, node, cls, L, args):
        if cls == 'joedb::Readonly_Memory_File' and len(args) >= 2 and args[0] == ('rd', ('g', self.ns + 'detail::schema_string'), 0):
            st.store[L] = ('schemafile', args[1])
        elif cls == 'joedb::Readonly_Journal' and args and args[0][0] == 'loc' and (st.store.get(args[0][1]) or ('',))[0] == 'schemafile':
            st.store[L] = ('ghostjournal', st.store[args[0][1]][1], None)
        return None

    def fork(self, st, ev, yes=I(1), no=I(0)):
        z = st.copy()
        st.ev += (ev + (True,),)
        z.ev += (ev + (False,),)
        return [(st, yes), (z, no)]

    def text(self, eng, st, v):
        v = strip(v)
        for _ in range(3):
            if isinstance(v, tuple) and v[:1] in (('loc',), ('obj',)) and v[1] in st.store:
                w = st.store[v[1]]
                if isinstance(w, tuple) and w[:1] == ('ctor',) and w[2]:
                    w = w[2][0]
                v = strip(w)
        if isinstance(v, tuple) and v[:1] == ('ctor',) and v[2]:
            v = strip(v[2][0])
        if isinstance(v, tuple) and v[:1] == ('rd',) and isinstance(v[1], tuple) and v[1][0] == 'param':
            v = ('arg', v[1][1])
        return v

    def on_call(self, eng, st, call, obj, vs, e):
        n = call['n']
        m = n.rsplit('::', 1)[-1]
        l = e.get('l', 0)
        if m == 'throw_exception' or n.endswith('::throw_exception'):
            c = (call.get('ta') or ['joedb::Exception'])
            st.ev += (('throw', str(c[0]), l),)
            eng.thrown[-1].append((st, ('exc', 'joedb::Out_Of_Date' if 'Out_Of_Date' in str(c[0]) or 'Out_Of_Date' in str(e.get('ta')) or 'Out_Of_Date' in call.get('f', '') else 'joedb::Exception', None)))
            return []
        if n.startswith('joedb::Memory_File::') and obj is not None and member(obj) == 'schema_file':
            db = owner(obj)
            if m == 'get_data':
                return [(st, ('loc', ('gdata', db)))]
            if m == 'get_size':
                return [(st, self.size(eng, st, db))]
        if n.startswith('std::basic_string') and obj is not None and obj[0] == 'gdata':
            if m in ('size', 'length'):
                return [(st, self.size(eng, st, obj[1]))]
            if m in ('data', 'c_str'):
                return [(st, ('loc', ('elem0', obj)))]
        if n in ('memcmp', 'std::memcmp'):
            a, b = self.bytes(eng, st, vs[0]), self.bytes(eng, st, vs[1])
            if a and b and a[0] != 'schema':
                a, b = b, a
            return self.fork(st, ('memcmp', a, b, strip(vs[2]), l), I(0), I(1))
        if n.startswith((RJ, WJ)) and obj is not None:
            src = self.source(eng, st, obj)
            if m in PLAYS:
                to = vs[0][1] if vs[0][0] in ('loc', 'obj') else None
                end = strip(vs[1]) if len(vs) > 1 else st.store[obj][1] if src == 'schema' else None
                if member(to) == 'journal':
                    st.ev += (('copy', src, owner(to) or to, st.store[obj][2] if src == 'schema' else None, end, l),)
                    if src == 'schema':
                        st.store[obj] = ('ghostjournal', st.store[obj][1], end)
                    return [(st, ('void',))]
                st.ev += (('play', src, to, st.store[obj][2] if src == 'schema' else None, end, self.flag(eng, st, to), l),)
                self.played(eng, st, to, end if src == 'schema' else None)
                if src == 'schema':
                    st.store[obj] = ('ghostjournal', st.store[obj][1], end)
                return [(st, ('void',))]
            if src == 'schema' and m in ('skip_directly_to', 'skip_to'):
                st.store[obj] = ('ghostjournal', st.store[obj][1], strip(vs[0]))
                return [(st, ('void',))]
            if m == 'get_checkpoint':
                if member(obj) == 'schema_journal':
                    return [(st, st.store.setdefault(('ghost', 'cp', owner(obj)), ('cp', 0, owner(obj))))]
                return None
            if m in ('soft_checkpoint', 'hard_checkpoint', 'checkpoint', 'default_checkpoint', 'write_checkpoint'):
                st.ev += (('checkpoint', member(obj), owner(obj), l),)
                return [(st, ('void',))]
            if m in ('rewind', 'pull', 'get_file', 'is_readonly', 'lock_pull', 'unlock', 'get_position'):
                return None
            st.ev += (('event', member(obj), owner(obj), m, tuple(self.text(eng, st, v) for v in vs), l),)
            return [(st, ('void',))]
        if n == 'joedb::Writable_Client::start_transaction':
            st.ev += (('pull', l),)
            for k in [k for k in st.store if k[0] == 'ghost' and k[1] == 'S']:
                self.played(eng, st, k[2])
            self.pulled = True
            return [(st, ('void',))]
        if n.startswith('joedb::Writable_Client::push'):
            st.ev += (('push', l),)
            return [(st, ('void',))]
        g = re.match(r'vsample::(?:\w+::)*Database::(?:get_(\w+)_table|the_(\w+))$', n)
        if g:
            return [(st, ('table', g.group(1)) if g.group(1) else ('the', g.group(2)))]
        if obj is not None and (st.store.get(obj) or ('',))[0] == 'table' and m in ('first', 'last'):
            return [(st, ('row', m, st.store[obj][1]))]
        if m in ('operator==', 'operator!='):
            a = [self.text(eng, st, v) for v in (([('loc', obj)] if obj is not None else []) + list(vs))]
            if len(a) == 2:
                return self.fork(st, ('same', *sorted(a, key=repr), l), I(int(m == 'operator==')), I(int(m != 'operator==')))
        if n.startswith(NS) and (call.get('f') not in eng.db.functions or not self.inline(eng, eng.db.functions[call['f']])):
            if re.match(r'(new|set|delete|update|insert|clear|write)_', m) or not eng.db.functions.get(call.get('f'), {}).get('body'):
                st.ev += (('data', m, tuple(strip(v) for v in vs), l),)
                return [(st, ('any',))]
        return None

    def flag(self, eng, st, to):
        for k in st.store:
            if k[0] == 'fld' and k[1] == to and k[2].endswith('::upgrading_schema'):
                return st.store[k]
        return None

    def bytes(self, eng, st, v):
        """(what, offset) of a pointer"""
        if v[0] == 'loc':
            off = I(0)
            L = v[1]
            while L[0] in ('ptr', 'elem0', 'idx'):
                if L[0] != 'elem0':
                    off = plus(off, L[2])
                L = L[1]
            if L[0] == 'deref':
                what, o = self.bytes(eng, st, L[1])
                return what, plus(o, off)
            return ('file' if L[0] == 'gdata' else L), strip(off)
        g = ('rd', ('g', self.ns + 'detail::schema_string'), 0)
        d = minus(v, g)
        return ('schema' if not any(x == g for x in walk_term(d)) else v), strip(d)


def walk_term(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            yield from walk_term(x)


class Upgrade:
    def __init__(self, ctx):
        self.ctx, self.db = ctx, ctx.db
        self.header = self.db.globals['joedb::Header::ssize']['e']['v']

    def run(self, f, cls, ns, args=None, setup=None):
        rule = UpgradeRule()
        rule.ns = ns
        eng = Engine(self.db, rule)
        outs = eng.run(f, setup, cls, args=args)
        self.ctx.use(f)
        self.ctx.use_engine(eng)
        return eng, rule, outs

    def compared(self, o, db, key, f):
        """after the last playback of a file, the schema of db was compared with the one of the code, and it is no longer"""
        ctx = self.ctx
        ev = flat(o.st.ev)
        last = max((n for n, x in enumerate(ev) if x[0] == 'pull' or x[0] == 'play' and x[2] == db and x[1] != 'schema'), default=None)
        if last is None:
            ctx.bad(key + ':play', f, '%s ends normally although the journal was not played' % f['n'], trace(o.st.ev))
            return None
        eng = self.eng
        S = None
        for x in ev[last + 1:]:
            if x[0] == 'play' and x[2] == db:
                break
            if x[0] == 'memcmp' and x[-1] and x[1] == ('schema', I(self.header)) and x[2] == ('file', I(self.header)):
                s = [t for t in walk_term(x[3]) if isinstance(t, tuple) and len(t) == 3 and t[0] == 'S' and t[2] == db]
                if s and minus(s[0], I(self.header)) == x[3]:
                    S = s[0]
        if S is None:
            ctx.bad(key + ':compare', f, '%s ends normally although the schema of the file was not compared with the one the code was generated from' % f['n'], trace(o.st.ev))
            return None
        L = Lin(eng, o.st)
        ctx.require(L.le(I(self.header), S), key + ':short', f, 'a schema shorter than a header is compared', '%s: size of the schema of the file checked before it is compared' % f['n'], trace(o.st.ev))
        ctx.require(L.le(S, I(self.total)), key + ':longer', f, 'a file whose schema is longer than the one the code was generated from is accepted', '%s: a longer schema is refused' % f['n'], trace(o.st.ev))
        return S

    def refused(self, eng, o, db, key, f, complete):
        """a file is refused only with a reason"""
        ev = flat(o.st.ev)
        if not any(x[0] == 'throw' for x in ev):
            return
        L = Lin(eng, o.st)
        S = o.st.store.get(('ghost', 'S', db), ('S', 0, db))
        why = any(x[0] == 'memcmp' and not x[-1] for x in ev) or L.le(S, I(self.header - 1)) or L.le(I(self.total + 1), S) or complete and L.le(S, I(self.total - 1)) \
            or o.v[1] == 'joedb::Out_Of_Date' and L.le(S, I(self.total - 1))
        self.ctx.require(why, key + ':refused', f, 'a file with a compatible schema is refused', '%s refuses a file only if its schema is different' % f['n'], trace(o.st.ev))

    def writable(self, f, cls, db, ns, key, args=None, setup=None, single=()):
        ctx = self.ctx
        eng, rule, outs = self.run(f, cls, ns, args, setup)
        self.eng = eng
        n = 0
        for o in outs:
            if o.k == T:
                self.refused(eng, o, db, key, f, False)
                continue
            n += 1
            tr = trace(o.st.ev)
            S = self.compared(o, db, key, f)
            if S is None:
                continue
            L = Lin(eng, o.st)
            ev = flat(o.st.ev)
            muts = [x for x in ev if (x[0] == 'event' and x[1] == 'journal' or x[0] == 'copy' or x[0] == 'data' or x[0] == 'play' and x[1] == 'schema')]
            if L.le(I(self.total), S):
                ctx.require(not [x for x in muts if x[0] != 'data'], key + ':unneeded', f, 'a file whose schema is up to date is modified: %s' % [x[0] for x in muts], '%s: nothing is written if the schema is complete' % f['n'], tr)
            elif not L.le(S, I(self.total - 1)) and not muts:
                ctx.bad(key + ':missing', f, '%s ends normally although the file may lack the end of the schema' % f['n'], tr)
            else:
                where = [x for x in muts if x[0] == 'copy']
                ctx.require([x[1:5] for x in where] == [('schema', db, S, I(self.total))], key + ':written', f,
                            'what is written to the journal is not the part of the schema that the file lacks: %s' % [tuple(term(y) for y in x[1:5]) for x in where], '%s: the missing events are written to the journal' % f['n'], tr)
                plays = [x for x in muts if x[0] == 'play']
                ctx.require([x[1:5] for x in plays] == [('schema', db, S, I(self.total))] and plays[0][5] == I(1), key + ':played', f,
                            'what is played is not the part of the schema that the file lacks, with upgrading_schema set: %s' % [tuple(term(y) for y in x[3:6]) for x in plays], '%s: the missing events are played' % f['n'], tr)
                ctx.require(rule.flag(eng, o.st, db) in (I(0), None) and plays, key + ':flag', f, 'upgrading_schema remains set after the upgrade', 'upgrading_schema is reset', tr)
                order = [x for x in ev if x in muts or x[0] == 'checkpoint' and x[1] == 'journal']
                kinds = [x[0] if x[0] != 'event' else x[3] for x in order]
                if 'copy' in kinds and 'play' in kinds:
                    ctx.require(kinds.index('copy') < kinds.index('play'), key + ':order', f, 'the upgrade is played before its events are written to the journal', 'events are written before their effects', tr)
                cps = [i for i, k in enumerate(kinds) if k == 'checkpoint']
                after = [k for k in kinds[max(i for i, k in enumerate(kinds) if k in ('copy', 'play')):]] if 'copy' in kinds or 'play' in kinds else []
                ctx.require(after[1:] == ['valid_data', 'checkpoint'] and len(cps) == 1, key + ':transaction', f,
                            'the upgrade is not one transaction that ends with a valid-data mark and a checkpoint: %s' % kinds, '%s: the upgrade is checkpointed only when it is complete' % f['n'], tr)
                ctx.require(set(kinds) <= {'copy', 'play', 'comment', 'valid_data', 'checkpoint'}, key + ':else', f, 'the upgrade does something else: %s' % kinds, 'the upgrade does nothing else', tr)
            self.rows(f, o, key, single)
        ctx.require(n, key + ':returns', f, '%s never returns' % f['n'])
        return eng, rule, outs

    def rows(self, f, o, key, single):
        ev = flat(o.st.ev)
        last = max((n for n, x in enumerate(ev) if x[0] in ('pull', 'play')), default=-1)
        for t in sorted(single):
            for m in ('first', 'last'):
                ok = any(x[0] == 'same' and x[-1] and {x[1], x[2]} == {('row', m, t), ('the', t)} for x in ev[last + 1:])
                self.ctx.require(ok, key + ':single-row', f, '%s ends normally although table %s may not have exactly one row' % (f['n'], t), '%s: %s row of %s checked' % (f['n'], m, t), trace(o.st.ev))

    def readonly(self, f, cls, db, ns, key):
        ctx = self.ctx
        eng, rule, outs = self.run(f, cls, ns)
        self.eng = eng
        n = 0
        for o in outs:
            if o.k == T:
                self.refused(eng, o, db(o) if callable(db) else db, key, f, True)
                continue
            n += 1
            d = db(o) if callable(db) else db
            S = self.compared(o, d, key, f)
            if S is None:
                continue
            ctx.require(Lin(eng, o.st).le(I(self.total), S), key + ':out-of-date', f, 'a file whose schema lacks something is opened for reading', '%s: a schema that is out of date is refused' % f['n'], trace(o.st.ev))
            w = [x for x in flat(o.st.ev) if x[0] in ('copy', 'event', 'checkpoint')]
            ctx.require(not w, key + ':writes', f, '%s writes to the file' % f['n'], '%s writes nothing' % f['n'], trace(o.st.ev))
        ctx.require(n, key + ':returns', f, '%s never returns' % f['n'])
        return eng, rule, outs


def decoded(db, data, header):
    """the schema events of a compiled schema string"""
    op = {n.rsplit('::', 1)[-1]: v for n, v in [x[:2] for x in db.enum('joedb::Readonly_Journal::operation_t')['items']]}
    ty = {v: n.rsplit('::', 1)[-1] for n, v in [x[:2] for x in db.enum('joedb::Type::Type_Id')['items']]}
    pos = [header]

    def byte():
        pos[0] += 1
        return ord(data[pos[0] - 1])

    def number():
        b = byte()
        if b >= 0x80:
            raise AnalysisError('the schema of the sample has numbers of more than one byte')
        return b

    def text():
        n = number()
        pos[0] += n
        return data[pos[0] - n:pos[0]]
    out, tables, names = [], [], []
    while pos[0] < len(data):
        b = byte()
        if b == op['create_table']:
            tables.append(text())
            out.append('create_table ' + tables[-1])
        elif b == op['add_field']:
            t, n, y = number(), text(), ty[byte()]
            out.append('add_field %s %s %s' % (tables[t - 1], n, y if y != 'reference' else 'references ' + tables[number() - 1]))
        elif b == op['custom']:
            out.append('custom ' + text())
        else:
            out.append('event %d' % b)
            break
    return out


def params(f):
    return [('arg', p['n']) for p in f['ps']]


def same_args(a, f):
    out = []
    for v in a:
        while isinstance(v, tuple) and v[:1] in (('rd',), ('loc',), ('obj',)) and isinstance(v[1], tuple) and v[1][:1] == ('param',):
            v = ('arg', v[1][1])
        out.append(v)
    return out == params(f)


@check('G02', parts=('src', 'gen'), floor=120, rule='Every constructor, pull function and schema-event function of the classes generated for two sample schemas (one with single-row tables and custom events, one without) is executed over every path with the size and the bytes of the schema of the file unknown after each playback. '
       'On every normal exit of a constructor, linear arithmetic and the recorded comparison must show that the schema of the file is a prefix of the compiled one (the whole of it for a read-only class), and the events written to the journal and played must be exactly the rest. Schema events must reach the schema journal, with a checkpoint, with the parameters received.')
def g02(ctx):
    db = ctx.db
    u = Upgrade(ctx)
    schema = Schema()
    for ns in ('vsample::', 'vsample::rpc::message::'):
        u.total = db.globals[ns + 'detail::schema_string_size']['e']['v']
        lit = db.globals[ns + 'detail::schema_string']['e']['v']
        ctx.require(len(lit) == u.total, ns + 'schema_string', 'src/joedb/compiler/generator/Database_Writable_cpp.cpp', 'schema_string has %d bytes although schema_string_size is %d' % (len(lit), u.total), 'size of the compiled schema')
        single = schema.single if ns == NS else ()
        if ns == NS:
            want = [' '.join(l.split()) for l in open(os.path.join(HERE, 'schemas/vsample.joedbi')) if l.split()]
            got = decoded(db, lit, u.header)
            wrong = [(a, b) for a, b in zip(got + [None] * len(want), want + [None] * len(got)) if a != b]
            ctx.require(not wrong, 'compiled-schema', 'src/joedb/compiler', 'the compiled schema says %s where the schema file says %s' % (wrong or [('', '')])[0], 'the compiled schema is the schema given to the compiler: %d events' % len(want))
        DW, WD = ns + 'Database_Writable', ns + 'Writable_Database'
        this = ('this',)
        # ---- schema events
        for ev in EVENTS:
            for cls in (DW, WD):
                f = db.functions[db.resolve_virtual(db.fn(DW + '::' + ev)['key'], cls)] if cls == WD else db.fn(DW + '::' + ev)
                if cls == WD and f['n'].startswith(DW):
                    continue
                for up in (0, 1):
                    tids = [None] if ev != 'create_table' or not single else [None] + list(range(1, len(schema.tables) + 2))
                    for tid in tids:
                        def setup(eng, st, L, vs):
                            st.store[('fld', this, DW + '::upgrading_schema')] = I(up)
                            if tid is not None:
                                st.store[TIDF] = I(tid - 1)
                        TIDF = ('fld', this, DW + '::current_table_id')
                        events(u, ctx, f, cls, ns, ev, up, tid, setup, schema, single)
        # ---- opening
        f = db.fn(WD + '::' + WD.rsplit('::', 1)[-1], 3)
        u.writable(f, WD, this, ns, 'open', {2: I(1)}, None, single)
        init = f['key']
        n = 0
        for cls in sorted(c for c in db.classes if c.startswith(ns) and '::' not in c[len(ns):] and db.is_a(c, DW)):
            for f in db.fns(cls + '::' + cls.rsplit('::', 1)[-1]):
                if not f.get('body') and not f.get('in') or f['key'] == init or cls == DW or copy_ctor(f, cls):
                    continue
                n += 1
                key = 'open:' + cls.rsplit('::', 1)[-1]
                if db.is_a(cls, WD):
                    u.writable(f, cls, this, ns, key, None, None, single)
                else:
                    u.readonly(f, cls, played_db, ns, key)
        ctx.require(n, ns + ':constructors', 'src/joedb/compiler/generator', 'no constructor found')
        # ---- constructor that does not initialize: only for clients
        for k, g in sorted(db.functions.items()):
            if not g['n'].startswith(ns):
                continue
            for node in list(walk(g.get('body'))) + list(walk(g.get('in'))):
                if node.get('k') == 'ctor' and node.get('f') == init or node.get('k') == 'call' and node.get('f') == init:
                    a = node['a'][2]
                    ok = a.get('k') == 'int' and a.get('v') or g['n'].startswith(ns + 'detail::Client_Data::')
                    ctx.require(ok, 'uninitialized', '%s:%s' % (rel(g['file']), node.get('l')), '%s opens a file without checking its schema' % g['n'], '%s initializes' % g['n'])
        if ns != NS:
            continue
        for k, g in sorted(db.functions.items()):
            for node in list(walk(g.get('body'))) + list(walk(g.get('in'))):
                if node.get('k') == 'ctor' and node.get('n') == ns + 'detail::Client_Data' and node.get('a'):
                    ctx.require(g['n'].startswith(ns + 'Client::'), 'uninitialized', '%s:%s' % (rel(g['file']), node.get('l')), '%s opens a file without checking its schema' % g['n'], 'Client_Data used by Client')
        # ---- clients
        C = ns + 'Client'
        D = ('fld', this, ns + 'detail::Client_Data::db')
        f = db.fn(C + '::Client', 4)
        eng, rule, outs = u.writable(f, C, D, ns, 'Client', None, None, single)
        client(ctx, f, outs, D, C)
        f = db.fn(C + '::read_journal', 0)
        pulled(ctx, u, f, C, D, ns, True)
        for o in outs_normal(u.run(f, C, ns)[2]):
            sc = ('rd', ('fld', this, C + '::schema_checkpoint'), 0)
            if o.st.facts.get(sc) == I(0) or Lin(u.eng, o.st).eq(sc, I(0)):
                continue
            u.rows(f, o, 'Client::pull', single)
        C = ns + 'Readonly_Client'
        D = ('fld', this, C + '::db')
        f = db.fn(C + '::Readonly_Client', 1)
        eng, rule, outs = u.readonly(f, C, D, ns, 'Readonly_Client')
        client(ctx, f, outs, D, C)
        pulled(ctx, u, db.fn(C + '::read_journal', 0), C, D, ns, False)
    ctx.notes['classes'] = sorted(c for c in db.classes if c.startswith(NS) and db.is_a(c, NS + 'Database_Writable'))


def outs_normal(outs):
    return [o for o in outs if o.k != T]


def copy_ctor(f, cls):
    return len(f['ps']) == 1 and cls.rsplit('::', 1)[-1] in re.sub(r'[&*\s]|const', '', f['ps'][0]['t']).split('::')[-1:]


def played_db(o):
    d = [x[2] for x in flat(o.st.ev) if x[0] == 'play']
    return d[-1] if d else ('this',)


def client(ctx, f, outs, D, C):
    for o in outs_normal(outs):
        ev = flat(o.st.ev)
        v = o.st.store.get(('fld', ('this',), C + '::schema_checkpoint'))
        want = o.st.store.get(('ghost', 'cp', D))
        ctx.require(v is not None and v == want, C + ':checkpoint', f, '%s does not record how long the schema is once the database is open' % f['n'], '%s records the length of the schema' % f['n'], trace(o.st.ev))


def pulled(ctx, u, f, C, D, ns, zero):
    """a pull that changes the schema does not end normally"""
    sc = ('fld', ('this',), C + '::schema_checkpoint')
    eng, rule, outs = u.run(f, C, ns)
    u.eng = eng
    n = 0
    for o in outs:
        L = Lin(eng, o.st)
        cp = o.st.store.get(('ghost', 'cp', D))
        s0 = ('rd', sc, 0)
        ev = flat(o.st.ev)
        if o.k == T:
            if any(x[0] == 'throw' for x in ev):
                ctx.require(cp is not None and L.le(plus(s0, I(1)), cp), f['n'] + ':refused', f, '%s fails although the schema did not change' % f['n'], '%s fails only if the schema changed' % f['n'], trace(o.st.ev))
            continue
        n += 1
        ctx.require(any(x[0] == 'play' and x[2] == D for x in ev), f['n'] + ':played', f, '%s does not play what was pulled' % f['n'], '%s plays what was pulled' % f['n'], trace(o.st.ev))
        if zero and L.eq(s0, I(0)):
            ctx.ok('%s: the constructor will check' % f['n'])
            continue
        ctx.require(cp is not None and L.le(cp, s0), f['n'] + ':changed', f, '%s ends normally although a schema change may have been pulled' % f['n'], '%s: no schema change was pulled' % f['n'], trace(o.st.ev))
    ctx.require(n, f['n'] + ':returns', f, '%s never returns' % f['n'])


def events(u, ctx, f, cls, ns, ev, up, tid, setup, schema, single):
    eng, rule, outs = u.run(f, cls, ns, None, setup)
    key = '%s:%s' % (f['n'][len(ns):], ev)
    n = 0
    called = []
    for o in outs_normal(outs):
        n += 1
        tr = trace(o.st.ev)
        xs = flat(o.st.ev)
        w = [x for x in xs if x[0] == 'event']
        ctx.require(len(w) == 1 and w[0][1] == 'schema_journal' and w[0][3] == ev and same_args(w[0][4], f), key, f,
                    '%s does not record the schema event it receives: %s' % (f['n'], [(x[1], x[3]) for x in w]), '%s records the event' % f['n'], tr)
        cps = [i for i, x in enumerate(xs) if x[0] == 'checkpoint' and x[1] == 'schema_journal']
        ctx.require(w and cps and cps[-1] > xs.index(w[0]), key + ':checkpoint', f, '%s does not checkpoint the schema journal' % f['n'], '%s checkpoints' % f['n'], tr)
        data = [x for x in xs if x[0] == 'data']
        first = xs.index(data[0]) if data else None
        if data:
            ctx.require(w and first > cps[-1] if cps else False, key + ':early', f, 'data changes before the schema event is recorded', 'data changes after the event', tr)
        same = [x for x in xs if x[0] == 'same']
        if ev == 'create_table':
            want = [('new_' + t,) for t in sorted(single) if tid is not None and schema.tables[t][0] == tid] if up else []
            if tid is not None or not up or not single:
                ctx.require([x[1:2] for x in data] == want or cls.endswith('Database_Writable') and not data, key + ':rows', f,
                            'creation of table %s%s: %s instead of %s' % (tid, ' during an upgrade' if up else '', [x[1] for x in data], want), '%s: the row of a single-row table is created by the upgrade only' % f['n'], tr)
        elif ev == 'custom':
            named = [x[1] if x[1][0] == 'str' else x[2] for x in same if x[-1]]
            want = [x[1] for x in named] if up else []
            ctx.require([x[1] for x in data] == want, key + ':custom', f, 'custom event %s%s calls %s' % ([x[1] for x in named], ' during an upgrade' if up else '', [x[1] for x in data]), '%s calls the function of this name, during an upgrade only' % f['n'], tr)
            called += [x[1] for x in data]
        else:
            ctx.require(not data or up, key + ':data', f, '%s changes data outside an upgrade' % f['n'], 'no data changed', tr)
    if ev == 'custom' and up and cls.endswith('Writable_Database') and ns == NS:
        names = [l.split()[1] for l in open(os.path.join(HERE, 'schemas/vsample.joedbi')) if l.startswith('custom')]
        ctx.require(set(names) <= set(called), key + ':missing', f, 'custom function not called: %s' % sorted(set(names) - set(called)), 'every custom function is called')
    ctx.require(n, key + ':returns', f, '%s never returns' % f['n'])

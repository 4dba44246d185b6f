"""the interpreted database: D01 operations, D02 default values"""
import re

from jsa.corpus import AnalysisError, walk
from jsa.engine import Engine
from jsa.runner import check
from checks.common import DEEP, sizes as SIZES
from checks.common import N, R, T, I, Rule, flat, const, trace
from checks.compiled import strip, term_in, show, lin_of, arg, elem, copied
from checks.buffers import plus

FKC = ('joedb::Freedom_Keeper::', 'joedb::List_Freedom_Keeper::', 'joedb::Dense_Freedom_Keeper::')
MAPS = ('std::map<', 'std::multimap<')
MUT = ('emplace', 'erase', 'write', 'fk', 'resize', 'copy', 'counter')
E_T = T


def mapname(L):
    """a name for a map: its field, inside the entry that contains it"""
    while isinstance(L, tuple) and L and L[0] == 'refto':
        L = L[1]
    if not isinstance(L, tuple) or not L or L[0] != 'fld':
        return None
    return (L[2].rsplit('::', 1)[-1], owner(L[1]))


def owner(L):
    while isinstance(L, tuple) and L:
        if L[0] == 'ent':
            return L[2]
        if L[0] == 'var' or L[0] == 'this':
            return None
        L = L[1] if len(L) > 1 else None
    return None


def cell(L):
    """(table, field, record) of an element of a column"""
    idx = fld = None
    while isinstance(L, tuple) and L:
        if L[0] == 'refto':
            L = L[1]
        elif L[0] in ('idx', 'ptr'):
            idx, L = L[2] if idx is None else plus(strip(L[2]), strip(idx)), L[1]
        elif L[0] == 'elem0':
            idx, L = idx or I(0), L[1]
        elif L[0] == 'fld' and L[2].endswith('Field::column'):
            fld = L[1]
            while isinstance(fld, tuple) and fld and fld[0] in ('refto', 'fld') and not (fld[0] == 'fld' and isinstance(fld[1], tuple) and fld[1][:1] == ('ent',)):
                fld = fld[1]
            if isinstance(fld, tuple) and fld and fld[0] == 'fld' and fld[1][:1] == ('ent',):
                e = fld[1]
                return (owner(e[1][1]) if e[1] and e[1][0] == 'fld' else None, e[2], strip(idx) if idx is not None else None)
            return (owner(fld), ('each', 'field'), strip(idx) if idx is not None else None)
        else:
            L = L[1] if len(L) > 1 else None
    return None


class InterpRule(Rule):
    max_states = 50000
    merge = False
    loop_unroll = 4 + DEEP
    iter_hook = True
    typeid = None

    def __init__(self):
        self.changes, self.cols, self.invs, self.entry, self.broken = {}, {}, {}, {}, []

    def grows(self, eng, node):
        """this code may change the size of a free list"""
        if id(node) not in self.changes:
            self.changes[id(node)] = False
            r = False
            for x in walk(node):
                if x.get('k') == 'call' and x.get('f'):
                    g = eng.db.functions.get(x['f'])
                    n = x.get('n') or ''
                    if n.startswith(FKC):
                        r = r or n.endswith(('push_back', 'resize'))
                    elif g and g.get('body') and self.inline(eng, g) and self.grows(eng, g['body']):
                        r = True
            self.changes[id(node)] = r
        return self.changes[id(node)]

    def fits(self, eng, z, t):
        init = ('size', t, 0)
        return lin_of(eng, z).le(strip(z.store.get(('ghost', 'size', t), init)), strip(z.store.get(('ghost', 'col', t), init)))

    def on_loop_head(self, eng, loop, before, z):
        if self.entry.get(id(loop)) is not before:
            self.entry[id(loop)] = before
            self.cols.pop(id(loop), None)
            self.invs.pop(id(loop), None)
        if not self.grows(eng, loop):
            return
        for k in [k for k in z.store if k[:2] == ('ghost', 'size')]:
            z.ctr += 1
            old, new = z.store[k], ('size', k[2], z.ctr)
            fits = self.fits(eng, before, k[2])
            z.store[k] = new
            z.facts[('op', '<', new, old)] = False      # never shrinks: D08
            if fits:                                    # columns are at least as large as the free list: checked by on_iter
                z.facts[('op', '<', strip(z.store.get(('ghost', 'col', k[2]), ('size', k[2], 0))), new)] = False
                self.invs.setdefault(id(loop), set()).add(k[2])

    def on_iter(self, eng, loop, begin, end):
        for t in self.invs.get(id(loop), ()):
            if not self.fits(eng, end, t):
                self.broken.append(loop.get('l'))
        for k, v in end.store.items():
            if k[:2] == ('ghost', 'col') and begin.store.get(k) != v:
                self.cols.setdefault(id(loop), {}).setdefault(k, set()).add(v)

    def on_loop_exit(self, eng, loop, before, kind, z):
        for k, v in self.cols.get(id(loop), {}).items():
            if kind == N and len(v) == 1:
                z.store[k] = next(iter(v))

    def inline(self, eng, f):
        n = f['n']
        return n.startswith(('joedb::Table::', 'joedb::Field::', 'joedb::Database::', 'joedb::Database_Schema::', 'joedb::Record_Id', 'joedb::to_underlying', 'joedb::Table_Id', 'joedb::Field_Id', 'joedb::operator', 'joedb::Type::'))

    def models(self, name):
        return name.startswith(FKC + ('std::', 'joedb::is_identifier', 'joedb::Type::get_type_id', 'joedb::Table::find_field', 'joedb::Database_Schema::find_table', 'joedb::Readable::find', 'joedb::operator++'))

    def may_throw(self, eng, name, node):
        return False

    def ident(self, eng, st, v):
        from checks.compiled import CompiledRule
        return CompiledRule.ident(self, eng, st, v)

    def fork(self, st, ev, yes=I(1), no=I(0)):
        old = [x for x in st.ev if x[:-1] == ev]
        if old:
            return [(st, yes if old[-1][-1] else no)]
        z = st.copy()
        st.ev += (ev + (True,),)
        z.ev += (ev + (False,),)
        return [(st, yes), (z, no)]

    def pos(self, eng, st, v):
        for _ in range(6):
            if v[0] in ('mit', 'mend'):
                return v
            if v[0] in ('loc', 'rd', 'obj'):
                x = st.store.get(v[1][1] if v[1][:1] == ('refto',) else v[1])
                if x is None:
                    return v
                v = x
            else:
                return v
        return v

    def on_ctor(self, eng, st, node, cls, L, args):
        c = cls.replace('const ', '')
        if (c.startswith('std::basic_string<') or c == 'joedb::Blob') and all(v == I(0) for v in args) and (not args or c == 'joedb::Blob'):
            st.store[L] = ('empty',)
            return [(st, ('obj', L))]
        if c.startswith('joedb::'):
            return None
        if 'iterator' in c and len(args) == 1:
            p = self.pos(eng, st, args[0])
            if p[0] in ('mit', 'mend'):
                st.store[L] = p
                return [(st, p)]
            return None
        if c.startswith('std::'):
            return [(st, ('obj', L))]
        return None

    def stored(self, eng, st, v):
        if isinstance(v, tuple) and len(v) > 1 and v[0] in ('obj', 'rd', 'loc') and st.store.get(v[1]) == ('empty',):
            return ('empty',)
        return self.ident(eng, st, v) if isinstance(v, tuple) and v else v

    def on_write(self, eng, st, L, v, node):
        c = cell(L)
        if c and c[2] is not None:
            st.ev += (('write', 'cell') + c + (self.stored(eng, st, v),),)
        elif isinstance(L, tuple) and L[0] == 'fld' and L[1][:1] == ('ent',):
            st.ev += (('write', mapname(L[1][1]), L[1][2], self.ident(eng, st, v)),)
        elif isinstance(L, tuple) and L[0] == 'fld' and L[2].endswith(('current_table_id', 'current_field_id')):
            st.ev += (('counter', L[2].rsplit('::', 1)[-1], owner(L), strip(v)),)

    def on_call(self, eng, st, call, obj, vs, e):
        n = call['n']
        m = n.rsplit('::', 1)[-1]
        if n == 'joedb::Type::get_type_id' and self.typeid is not None:
            return [(st, I(self.typeid))]
        if n.startswith('joedb::is_identifier'):
            return self.fork(st, ('ident', self.ident(eng, st, vs[0])))
        if n.endswith(('::find_field', '::find_table')) and len(vs) in (1, 2):
            own = owner(obj) if len(vs) == 1 else self.ident(eng, st, vs[0])
            name = self.ident(eng, st, vs[-1])
            v = ('found', m[5:], own, name)
            out = self.fork(st, ('named', m[5:], own, name), v, I(0))
            for s, x in out:
                if x == v:
                    eng.set_bound(s, v, lo=1)
            return out
        if n.startswith(FKC):
            own = owner(obj)
            a = tuple(self.ident(eng, st, v) for v in vs)
            if m in ('is_used', 'is_free', 'is_used_vector', 'is_free_vector'):
                neg = m == 'is_free'
                if m in ('is_used', 'is_free'):
                    for x in st.ev:
                        if x[0] == 'freev' and x[-1] and x[1] == own and isinstance(x[3], tuple) and x[3][0] == 'i' and 0 <= x[3][1] <= 16 and a[0] in [plus(x[2], I(j)) for j in range(x[3][1])]:
                            return [(st, I(int(neg)))]
                return self.fork(st, ('used' if not m.startswith('is_free_') else 'freev', own, a[0], a[1] if len(a) > 1 else None), I(1 - neg), I(int(neg)))
            if m in ('get_size', 'size'):
                k = ('ghost', 'size', own)
                v = st.store.setdefault(k, ('size', own, 0))
                return [(st, v)]
            if m == 'push_back' or m == 'resize':
                st.ctr += 1
                k = ('ghost', 'size', own)
                old = st.store.setdefault(k, ('size', own, 0))
                st.store[k] = plus(old, I(1)) if m == 'push_back' else a[0]
                st.ev += (('fk', m, own, a, st.copy()),)
                return [(st, ('any',))]
            if m in ('use', 'free', 'use_vector', 'free_vector'):
                st.ev += (('fk', m, own, a, st.copy()),)
                return [(st, ('void',))]
            return None
        if n.startswith(MAPS) and obj is not None and mapname(obj):
            k = mapname(obj)
            if m in ('end', 'cend'):
                return [(st, ('mend', obj))]
            if m == 'find':
                return [(st, ('mit', obj, self.ident(eng, st, vs[0])))]
            if m in ('count', 'contains'):
                return self.fork(st, ('has', k, self.ident(eng, st, vs[0])))
            if m == 'operator[]':
                return [(st, ('loc', ('fld', ('ent', obj, self.ident(eng, st, vs[0])), 'std::pair::second')))]
            if m == 'at':
                key = self.ident(eng, st, vs[0])
                out = self.fork(st, ('has', k, key))
                for s, v in out:
                    if v == I(0):
                        eng.thrown[-1].append((s, ('exc', 'std::out_of_range', None)))
                return [(s, ('loc', ('fld', ('ent', obj, key), 'std::pair::second'))) for s, v in out if v == I(1)]
            if m == 'erase':
                p = self.pos(eng, st, vs[0])
                st.ev += (('erase', k, p[2] if p[0] == 'mit' else self.ident(eng, st, vs[0])),)
                return [(st, ('any',))]
            if m in ('try_emplace', 'emplace', 'insert_or_assign'):
                st.ev += (('emplace', k, self.ident(eng, st, vs[0]), tuple(self.ident(eng, st, v) for v in vs[1:])),)
                return [(st, ('any',))]
            if m in ('size', 'empty'):
                return None
        if n.startswith('std::') and m in ('operator==', 'operator!='):
            a, b = (self.pos(eng, st, v) for v in (list(vs) if obj is None else [('loc', obj)] + list(vs)))
            if a[0] == 'mend':
                a, b = b, a
            if a[0] == 'mit' and b[0] == 'mend' and mapname(a[1]) == mapname(b[1]):
                eq = I(int(m == 'operator=='))
                return self.fork(st, ('has', mapname(a[1]), a[2]), I(1 - eq[1]), eq)
        if n.startswith('std::') and m in ('operator->', 'operator*') and obj is not None:
            p = self.pos(eng, st, ('loc', obj))
            if p[0] == 'mit':
                return [(st, ('loc', ('ent', p[1], p[2])))]
        if n.startswith('std::get') and vs:
            return [(st, ('loc', ('fld', vs[0][1], 'joedb::Field::column') if vs[0][1][0] != 'fld' or not vs[0][1][2].endswith('column') else vs[0][1]))]
        if n.startswith('std::vector<') and obj is not None and cell(obj):
            if m in ('operator[]', 'at'):
                return [(st, ('loc', ('idx', obj, self.ident(eng, st, vs[0]))))]
            if m in ('data', 'begin'):
                return [(st, ('loc', ('elem0', obj)))]
            if m == 'resize':
                st.ev += (('resize',) + cell(obj)[:2] + (self.ident(eng, st, vs[0]),),)
                if cell(obj)[1] == ('each', 'field'):
                    st.store[('ghost', 'col', cell(obj)[0])] = self.ident(eng, st, vs[0])
                return [(st, ('void',))]
        if m == 'operator=' and obj is not None and n.startswith('std::'):
            c = cell(obj)
            if c and c[2] is not None:
                v = vs[0]
                st.ev += (('write', 'cell') + c + (self.stored(eng, st, v),),)
                return [(st, ('loc', obj))]
            if obj[0] == 'fld' and isinstance(obj[1], tuple) and obj[1][:1] == ('ent',):
                st.ev += (('write', mapname(obj[1][1]), obj[1][2], self.ident(eng, st, vs[0])),)
                return [(st, ('loc', obj))]
        if m in ('clear',) and n.startswith('std::basic_string<') and obj is not None and cell(obj):
            st.ev += (('write', 'cell') + cell(obj) + (('empty',),),)
            return [(st, ('void',))]
        if n in ('std::copy_n', 'std::copy') and len(vs) == 3:
            st.ev += (('copy', cell(vs[2][1]) if vs[2][0] == 'loc' else None, *copied(eng, st, n, vs)),)
            return [(st, ('any',))]
        return None


DB = 'joedb::Database::'
SC = 'joedb::Database_Schema::'


class D01:
    def __init__(self, ctx):
        self.ctx, self.db = ctx, ctx.db

    def run(self, f, args=None, typeid=None):
        rule = InterpRule()
        rule.typeid = typeid
        eng = Engine(self.db, rule)
        outs = eng.run(f, None, 'joedb::Database', args=args)
        self.ctx.use(f)
        self.ctx.use_engine(eng)
        return eng, rule, outs

    def op(self, f, key, guards, changes, args=None, typeid=None):
        """guards: events (without outcome) -> outcome that allows the change; changes(eng, rule, o, muts): list of what is wrong"""
        ctx = self.ctx
        eng, rule, outs = self.run(f, args, typeid)
        ok = refused = 0
        for o in outs:
            tr = trace(o.st.ev)
            ev = flat(o.st.ev)
            first = next((n for n, x in enumerate(ev) if x[0] in MUT), len(ev))
            got = {x[:-1]: (x[-1], n) for n, x in reversed(list(enumerate(ev))) if isinstance(x[-1], bool)}
            bad = [g for g, want in guards.items() if g in got and got[g][0] != want]
            if o.k == T:
                refused += 1
                ctx.require(first == len(ev), key + ':partial', f, 'an operation that fails has changed something', trace=tr)
                ctx.require(bad or self.limit(eng, o), key + ':refused', f, 'a valid operation is refused', trace=tr)
                continue
            ok += 1
            ctx.require(not bad, key + ':invalid', f, 'an invalid operation is done: %s' % show(bad), trace=tr)
            for g, want in guards.items():
                if callable(want):
                    continue
                ctx.require(g in got and got[g][1] < first, '%s:unchecked:%s' % (key, g[0]), f, 'a change is made before checking %s' % show(g), trace=tr)
            for k, m in changes(eng, rule, o, ev, [x for x in ev if x[0] in MUT]):
                ctx.bad('%s:%s' % (key, k), f, m, tr)
            ctx.ok()
        ctx.require(ok and refused, key + ':both', f, 'always fails, or never')

    def limit(self, eng, o):
        """the path depends on a limit, or on the sign of an id"""
        return any(term_in(k, '::max_record_id') or term_in(k, '::current_table_id') or term_in(k, '::current_field_id') or (isinstance(k, tuple) and k[:2] == ('op', '<') and k[3] == I(0)) for k in o.st.facts)


def without(x):
    return tuple(y for y in x if not hasattr(y, 'store'))


def exactly(*want):
    def f(eng, rule, o, ev, muts):
        got = [without(x) for x in muts]
        if set(got) != set(want) or len(got) != len(want):
            yield 'change', 'what changes is not what was asked: %s' % show([x for x in got if x not in want] or [x for x in want if x not in got])
    return f


def element(v, source, j):
    """v is element j of the array"""
    w = elem(v)
    return w[1] == I(j) and w[0] in [elem(x)[0] for x in source]


@check('D01', parts=('src',), floor=150,
       rule='every operation of the interpreted database (joedb::Database, Database_Schema, Table, Field) interpreted over every path, with maps, columns and the free list as abstract state: names, ids, records and vectors checked before any change, exact set of changes; vectors with sizes 0 to 2')
def d01(ctx):
    db = ctx.db
    d = D01(ctx)
    TB, TN = ('tables', None), ('table_names', None)

    def pn(f, n):
        return ('rd', ('param', f['ps'][n]['n']), 0)

    # schema
    f = db.fn(SC + 'create_table', 1)
    name = pn(f, 0)
    cur = ('rd', ('fld', ('this',), SC + 'current_table_id'), 0)
    new = plus(cur, I(1))
    d.op(f, 'create_table', {('ident', name): True, ('named', 'table', None, name): False},
         exactly(('counter', 'current_table_id', None, new), ('emplace', TB, new, ()), ('emplace', TN, new, (name,))))
    eng, rule, outs = d.run(f)
    for o in outs:
        if o.k != T:
            ctx.require(eng.decide(o.st, ('op', '==', cur, I(65535))) == 0 or any(term_in(k, 'current_table_id') for k in o.st.facts), 'create_table:overflow', f, 'the id of a new table may overflow', trace=trace(o.st.ev))
    f = db.fn(SC + 'drop_table', 1)
    id = arg(f, 0)
    d.op(f, 'drop_table', {('has', TB, id): True}, exactly(('erase', TB, id), ('erase', TN, id)))
    f = db.fn(SC + 'rename_table', 2)
    id, name = arg(f, 0), pn(f, 1)
    d.op(f, 'rename_table', {('has', TB, id): True, ('ident', name): True, ('named', 'table', None, name): False}, exactly(('write', TN, id, name)))
    f = db.fn(SC + 'add_field', 3)
    id, name = arg(f, 0), pn(f, 1)
    FS, FN = ('fields', id), ('field_names', id)

    def added(eng, rule, o, ev, muts):
        c = [x for x in muts if x[0] == 'counter']
        e = {x[1]: x for x in muts if x[0] == 'emplace'}
        if len(muts) != 3 or len(c) != 1 or set(e) != {FS, FN}:
            yield 'change', 'what changes is not one new field'
            return
        new = c[0][3]
        if not (new[0] == 'lin' and len(new[1]) == 1 and term_in(new[1][0][0], 'current_field_id') and new[2] == 1):
            yield 'id', 'the id of a new field is not a new one'
        if any(x[2] != new for x in e.values()) or e[FN][3] != (name,):
            yield 'name', 'the new field does not have the id or name asked for'
        if len(e[FS][3]) != 2 or e[FS][3][1] != ('size', id, 0) or not term_in(e[FS][3][0], f['ps'][2]['n']):
            yield 'column', 'the column of the new field does not have the type asked for, and the size of the table: %s' % show(e[FS][3])
        if not any(term_in(k, 'current_field_id') for k in o.st.facts):
            yield 'overflow', 'the id of a new field may overflow'
    d.op(f, 'add_field', {('has', TB, id): True, ('ident', name): True, ('named', 'field', id, name): False}, added)
    f = db.fn(SC + 'drop_field', 2)
    id, fid = arg(f, 0), arg(f, 1)
    FS, FN = ('fields', id), ('field_names', id)
    d.op(f, 'drop_field', {('has', TB, id): True, ('has', FS, fid): True}, exactly(('erase', FS, fid), ('erase', FN, fid)))
    f = db.fn(SC + 'rename_field', 3)
    id, fid, name = arg(f, 0), arg(f, 1), pn(f, 2)
    FS, FN = ('fields', id), ('field_names', id)
    d.op(f, 'rename_field', {('has', TB, id): True, ('has', FN, fid): True, ('ident', name): True, ('named', 'field', id, name): False}, exactly(('write', FN, fid, name)))

    # data
    types = [x for x in db.enum('joedb::Type::Type_Id')['items'] if x[0] != 'type_ids']
    tv1 = max(y for x, y in types)
    def into(t, r, size):
        """records r.. (size: None for one) become used"""
        ids = [r] if size is None else [plus(r, I(j)) for j in range(size)]

        def g(eng, rule, o, ev, muts):
            used = [x for x in muts if x[0] == 'fk' and x[1] in ('use', 'use_vector')]
            got = []
            for x in used:
                got += [x[3][0]] if x[1] == 'use' else [plus(x[3][0], I(j)) for j in range(x[3][1][1])] if x[3][1][0] == 'i' and 0 <= x[3][1][1] < 16 else [None]
                z = x[4]
                L = lin_of(eng, z)
                end = plus(x[3][0], I(1) if x[1] == 'use' else x[3][1])
                if not L.le(end, strip(z.store.get(('ghost', 'size', t), ('size', t, 0)))):
                    yield 'room', 'a record is marked as used beyond the end of the table'
                if not L.le(end, strip(z.store.get(('ghost', 'col', t), ('size', t, 0)))) or rule.broken:
                    yield 'column', 'the columns may be too small for the new record'
            for x in muts:
                if x[0] == 'fk' and x[1] in ('push_back', 'resize'):
                    L = lin_of(eng, x[4])
                    size_ = strip(x[4].store.get(('ghost', 'size', x[2]), ('size', x[2], 0)))
                    if not L.le(size_, ('size', t, 0)) and not (ids and L.le(size_, plus(ids[-1], I(1)))):
                        yield 'grown', 'the table grows beyond the last record inserted'
            if any(x[2] != t for x in used) or sorted(got, key=repr) != sorted(ids, key=repr):
                yield 'change', 'the records marked as used are not those inserted: %s' % show(got)
            if any(x[0] in ('erase', 'emplace', 'counter', 'copy') or (x[0] == 'fk' and x[1] not in ('use', 'use_vector', 'push_back', 'resize')) for x in muts):
                yield 'change', 'something else changes'
        return g

    f = db.fn(DB + 'insert_into', 2)
    t, r = arg(f, 0), arg(f, 1)
    d.op(f, 'insert_into', {('has', TB, t): True}, into(t, r, None), None, tv1)
    eng, rule, outs = d.run(f, None, tv1)
    for o in outs:
        if o.k == T:
            continue
        ev = flat(o.st.ev)
        L = lin_of(eng, o.st)
        ctx.require(L.le(I(0), r), 'insert_into:negative', f, 'a record with a negative id is inserted', trace=trace(o.st.ev))
        ctx.require(('used', t, r, None, False) in ev or L.le(('size', t, 0), r), 'insert_into:used', f, 'a record already in use is inserted', trace=trace(o.st.ev))
    f = db.fn(DB + 'insert_vector', 3)
    t, r = arg(f, 0), arg(f, 1)
    for n in SIZES(ctx):
        d.op(f, 'insert_vector', {('has', TB, t): True, ('freev', t, r, I(n)): True}, into(t, r, n), {2: I(n)}, tv1)
    for tn, tv in types:
        f = db.fn(DB + 'delete_from', 2)
        t, r = arg(f, 0), arg(f, 1)

        def freed(size):
            def g(eng, rule, o, ev, muts):
                fr = [x for x in muts if x[0] == 'fk']
                if [without(x) for x in fr] != [('fk', 'free', t, (r,))] and [without(x) for x in fr] != [('fk', 'free_vector', t, (r, size))] and not (size and all(x[1] == 'free' for x in fr) and sorted((x[3][0] for x in fr), key=repr) == sorted((plus(r, I(j)) for j in range(size[1])), key=repr)):
                    yield 'change', 'the records freed are not those deleted'
                cells = {x[4] for x in muts if x[0] == 'write' and x[1] == 'cell'}
                if not cells <= ({r} if size is None else {plus(r, I(j)) for j in range(size[1])}):
                    yield 'cell', 'another record is modified'
            return g
        d.op(f, 'delete_from', {('has', TB, t): True, ('used', t, r, None): True}, freed(None), None, tv)
        f = db.fn(DB + 'delete_vector', 3)
        t, r = arg(f, 0), arg(f, 1)
        for n in SIZES(ctx):
            d.op(f, 'delete_vector', {('has', TB, t): True, ('used', t, r, I(n)): True}, freed(I(n)), {2: I(n)}, tv)
        if tv == 0:
            continue
        f = db.fn(DB + 'update_' + tn, 4)
        t, r, fid, v = (arg(f, i) for i in range(4))

        def stored(eng, rule, o, ev, muts):
            w = [x for x in muts if x[0] == 'write']
            if len(muts) != 1 or not w or w[0][:5] != ('write', 'cell', t, fid, r) or w[0][5] not in (v, ('rd', ('param', v[1]), 0)):
                yield 'change', 'what changes is not the value of the field of the record: %s' % show(muts)
        d.op(f, 'update_' + tn, {('has', TB, t): True, ('has', ('fields', t), fid): True, ('used', t, r, None): True}, stored)
        f = db.fn(DB + 'update_vector_' + tn, 5)
        t, r, fid, n, v = (arg(f, i) for i in range(5))

        def copied(size):
            def g(eng, rule, o, ev, muts):
                source = (v, ('rd', ('param', v[1]), 0))
                want = {plus(r, I(j)): j for j in range(size[1])}
                done = set()
                bad = False
                for x in muts:
                    if x[0] == 'copy' and x[1] == (t, fid, r) and x[2] in source and x[3] == size:
                        done |= set(want)
                    elif x[:4] == ('write', 'cell', t, fid) and x[4] in want and element(x[5], source, want[x[4]]):
                        done.add(x[4])
                    else:
                        bad = True
                same = any(isinstance(k, tuple) and k[:2] == ('op', '==') and y for k, y in o.st.facts.items())
                if bad or (done != set(want) and not same):
                    yield 'change', 'what changes is not the values of the field of the records: %s' % show(muts)
            return g
        for k in SIZES(ctx, 4):
            d.op(f, 'update_vector_' + tn, {('has', TB, t): True, ('has', ('fields', t), fid): True, ('used', t, r, I(k)): True}, copied(I(k)), {3: I(k)})


DEFAULT = {'string': (('empty',),), 'blob': (('empty',),), 'reference': (I(-1), ('rd', ('g', 'joedb::Record_Id::null'), 0))}


@check('D02', parts=('src', 'gen'), floor=60,
       rule='deletions of the interpreted database, for every type of field, and of the database generated for the sample schema, interpreted over every path: each field of each record deleted gets its default value (0, empty, null) before the record becomes free; insertions write nothing else; vectors with sizes 0 to 2',
       trusted=['std::vector::resize value-initializes new elements'])
def d02(ctx):
    from checks.compiled import Schema, Gen, DW, CompiledRule
    db = ctx.db
    d = D01(ctx)
    b = [f for f in db.fns('joedb::Blob::Blob') if not f['ps']]
    ctx.require(len(b) == 1, 'blob', 'joedb/Blob.h', 'no default constructor')
    eng = Engine(db, Rule())
    for o in eng.run(b[0], None, 'joedb::Blob'):
        v = {L[2].rsplit('::', 1)[-1]: x for L, x in o.st.store.items() if L[0] == 'fld' and L[1] == ('this',)}
        ctx.require(v == {'position': I(0), 'size': I(0)}, 'blob:null', b[0], 'a blob made by default is not null', 'Blob()')
    c = [f for f in db.fns('joedb::Record_Id::Record_Id') if not f['ps']]
    null = db.globals.get('joedb::Record_Id::null', {}).get('e') or {}
    ctx.require(len(c) == 1 and null.get('k') == 'ctor' and not null.get('a'), 'null', 'joedb/index_types.h', 'the null record id is not default-constructed', 'Record_Id::null')
    for o in Engine(db, Rule()).run(c[0], None, 'joedb::Record_Id'):
        v = [x for L, x in o.st.store.items() if L[0] == 'fld' and L[1] == ('this',)]
        ctx.require(v == [I(-1)], 'null:value', c[0], 'the null record id is not -1: %s' % show(v), 'Record_Id() is -1')
    for tn, tv in db.enum('joedb::Type::Type_Id')['items']:
        if tv == 0 or tn == 'type_ids':
            continue
        want = DEFAULT.get(tn, (I(0),))
        for m, sizes in (('delete_from', (None,)), ('delete_vector', SIZES(ctx))):
            f = db.fn(DB + m)
            t, r = arg(f, 0), arg(f, 1)
            for n in sizes:
                eng, rule, outs = d.run(f, None if n is None else {2: I(n)}, tv)
                for o in outs:
                    if o.k == T:
                        continue
                    ev = flat(o.st.ev)
                    fr = next((i for i, x in enumerate(ev) if x[0] == 'fk'), len(ev))
                    for rec in [r] if n is None else [plus(r, I(j)) for j in range(n)]:
                        w = [x[5] for x in ev[:fr] if x[0] == 'write' and x[1:5] == ('cell', t, ('each', 'field'), rec)]
                        ctx.require(w and all(x in want for x in w), '%s:%s' % (m, tn), f, 'a %s field keeps its value, or gets %s, when its record is deleted: the next record with this id will have it' % (tn, show(w)), '%s: %s = %s' % (m, tn, show(want[0])), trace=trace(o.st.ev))
        for m, args in (('insert_into', None), ('insert_vector', {2: I(2)})):
            f = db.fn(DB + m)
            eng, rule, outs = d.run(f, args, tv)
            for o in outs:
                w = [x for x in flat(o.st.ev) if x[0] == 'write']
                ctx.require(all(x[1] == 'cell' and x[5] in want for x in w), '%s:%s' % (m, tn), f, 'a new record gets values that are not the default ones', trace=trace(o.st.ev))
    sc = Schema()
    g = Gen(ctx, sc)

    class DefaultRule(CompiledRule):
        def on_ctor(self, eng, st, node, cls, L, args):
            if cls.replace('const ', '').startswith('std::basic_string<') and not args:
                st.store[L] = ('empty',)
                return [(st, ('obj', L))]
            if cls.replace('const ', '') == 'joedb::Blob' and all(v == I(0) for v in args):
                st.store[L] = ('empty',)
                return [(st, ('obj', L))]
            return CompiledRule.on_ctor(self, eng, st, node, cls, L, args)

        def stored(self, eng, st, w, v, l):
            if isinstance(v, tuple) and len(v) > 1 and v[0] in ('obj', 'rd', 'loc') and st.store.get(v[1]) == ('empty',):
                v = ('empty',)
            CompiledRule.stored(self, eng, st, w, v, l)
    g.rule_cls = DefaultRule
    for tb, (tid, fields) in sc.tables.items():
        for m, sizes in (('delete_from', (None,)), ('delete_vector', SIZES(ctx))):
            f = db.fn(DW + m)
            r = arg(f, 1)
            for n in sizes:
                eng, rule, outs = g.run(f, {0: I(tid)} if n is None else {0: I(tid), 2: I(n)})
                for o in outs:
                    ev = flat(o.st.ev)
                    if o.k == T:
                        continue
                    for rec in [r] if n is None else [plus(r, I(j)) for j in range(n)]:
                        fr = next((i for i, x in enumerate(ev) if x[0] == 'fk' and x[1] in ('free', 'free_vector') and x[2] == tb and (x[1] == 'free_vector' or x[3][0] == rec)), len(ev))
                        for F, (fid, ty) in fields.items():
                            w = [x[4] for x in ev[:fr] if x[0] == 'store' and x[1:4] == (tb, 'field_value_of_' + F, rec)]
                            ctx.require(w and w[-1] in DEFAULT.get(ty, (I(0),)), 'compiled:%s:%s.%s' % (m, tb, F), f, 'a %s field keeps its value, or gets %s, when its record is deleted: the next record with this id will have it' % (ty, show(w)), 'compiled %s: %s.%s' % (m, tb, F), trace=trace(o.st.ev))

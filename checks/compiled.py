"""Code generated by the schema compiler for a sample schema (schemas/vsample.*)."""
import os
import re
from jsa.runner import check
from jsa.engine import Engine
from jsa.corpus import AnalysisError
from jsa.linear import Lin
from .common import *
from .buffers import plus, minus

NS = 'vsample::'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FK = 'joedb::Freedom_Keeper::'
WJ = 'joedb::Writable_Journal::'


class Schema:
    """what the sample schema says, read from the files given to the compiler"""

    def __init__(self):
        self.tables = {}            # name -> (tid, {field: (fid, type)})
        self.indexes = {}           # name -> (table, [fields], unique)
        self.single = set()
        for l in open(os.path.join(HERE, 'schemas/vsample.joedbi')):
            w = l.split()
            if w[:1] == ['create_table']:
                self.tables[w[1]] = (len(self.tables) + 1, {})
            elif w[:1] == ['add_field']:
                t = self.tables[w[1]][1]
                t[w[2]] = (len(t) + 1, 'reference' if w[3] == 'references' else w[3])
        for l in open(os.path.join(HERE, 'schemas/vsample.joedbc')):
            w = l.split()
            if w[:1] in (['create_index'], ['create_unique_index']):
                self.indexes[w[1]] = (w[2], w[3].split(','), w[0] == 'create_unique_index')
            elif w[:1] == ['set_single_row']:
                self.single.add(w[1])

    def of_table(self, t):
        return [i for i, x in self.indexes.items() if x[0] == t]

    def triggered(self, t, f):
        """indexes updated when field f is: an index is updated with its last column, in the order of the table"""
        out = []
        for i in self.of_table(t):
            cols = self.indexes[i][1]
            if max(cols, key=lambda c: self.tables[t][1][c][0]) == f:
                out.append(i)
        return out


def strip(t):
    """terms without the classes that wrap an integer"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'fldof' and t[2].endswith('::id'):
        return strip(t[1])
    if t[0] == 'loc' and isinstance(t[1], tuple) and t[1][:1] == ('param',):
        return ('arg', t[1][1])
    return tuple(strip(x) for x in t)


def where(L):
    """(table, column, index) of a location inside the storage"""
    idx = None
    while isinstance(L, tuple) and L:
        if L[0] == 'refto':
            L = L[1]
        elif L[0] in ('idx', 'ptr'):
            idx = L[2] if idx is None else plus(strip(L[2]), strip(idx))
            L = L[1]
        elif L[0] == 'elem0':
            idx = idx or I(0)
            L = L[1]
        elif L[0] == 'fld':
            m = re.search(r'::data_of_(\w+)::(\w+)$', L[2])
            if m and isinstance(L[1], tuple):
                return m.group(1), m.group(2), strip(idx)
            L = L[1]
        else:
            return None
    return None


def index_of(L):
    while isinstance(L, tuple) and L and L[0] == 'refto':
        L = L[1]
    if isinstance(L, tuple) and L and L[0] == 'fld':
        m = re.search(r'::index_of_(\w+)$', L[2])
        return m and m.group(1)
    return None


class CompiledRule(Rule):
    """storage, index, free-list and journal events of generated functions"""
    max_states = 50000
    merge = False
    loop_unroll = 4 + DEEP

    def inline(self, eng, f):
        n = f['n']
        return (n.startswith(NS) and not n.endswith('::throw_exception')) or n.startswith(('joedb::Record_Id', 'joedb::Table_Id', 'joedb::Field_Id', 'joedb::to_underlying', 'joedb::Span', 'joedb::operator', 'joedb::Writable::'))

    def models(self, name):
        return name.startswith((FK, 'std::', WJ))

    def may_throw(self, eng, name, node):
        return False

    def ident(self, eng, st, v):
        if v[0] in ('loc', 'obj') or (v[0] == 'rd' and len(v) > 1 and eng.rdv(st, v[1]) == v):
            L = v[1]
            for _ in range(4):
                while isinstance(L, tuple) and L and L[0] == 'refto':
                    L = L[1]
                sub = [K for K in st.store if K[0] == 'fld' and K[2].endswith('::id') and (K[1] == L or (K[1][0] == 'fld' and K[1][1] == L and K[1][2].endswith('::id')))]
                if sub:
                    x = st.store[sub[0]]
                    if isinstance(x, tuple) and x and x[0] in ('obj', 'loc'):
                        L = x[1]
                        continue
                    return strip(x)
                x = st.store.get(L)
                if isinstance(x, tuple) and x and x[0] in ('obj', 'loc') and x[1] != L:
                    L = x[1]
                    continue
                if x is not None:
                    return strip(x)
                break
            return strip(eng.value(st, ('loc', L)))
        return strip(eng.value(st, v))

    def on_ctor(self, eng, st, node, cls, L, args):
        c = cls.replace('const ', '')
        if c.startswith(('joedb::Record_Id', 'joedb::Table_Id', 'joedb::Field_Id', 'joedb::Span', NS)):
            return None
        if c.startswith('std::pair<') or c.startswith('std::tuple<'):
            if len(args) == 1 and node.get('cp'):
                return None
            v = ('tuple',) + tuple(self.column(eng, st, a) for a in args)
            st.store[L] = v
            return [(st, v)]
        if c.startswith('std::basic_string_view'):
            return None
        if c.startswith(('std::basic_string', 'std::basic_ostringstream')):
            return [(st, ('obj', L))]
        return None

    def column(self, eng, st, a):
        """the column an argument is read from, with the number of writes to it so far; or an id"""
        L = a[1] if a[0] == 'loc' else None
        if L is not None:
            w = where(L)
            if w:
                return ('col',) + w + (sum(1 for x in st.ev if x[0] == 'store' and x[1:3] == w[:2]),)
            x = st.store.get(L)
            if isinstance(x, tuple) and x[:1] == ('tuple',):
                return x
        if a[0] == 'rd':
            w = where(a[1])
            if w:
                return ('col',) + w + (sum(1 for x in st.ev if x[0] == 'store' and x[1:3] == w[:2]),)
        if a[0] == 'tuple':
            return a
        v = self.ident(eng, st, a)
        if isinstance(v, tuple) and v and v[0] == 'rd':
            w = where(v[1])
            if w:
                return ('col',) + w + (sum(1 for x in st.ev if x[0] == 'store' and x[1:3] == w[:2]),)
        return v

    def on_write(self, eng, st, L, v, node):
        w = where(L)
        if w and w[2] is not None and not w[1].startswith('freedom'):
            if isinstance(L, tuple) and L[0] == 'fld' and L[2].endswith('::id'):
                pass
            self.stored(eng, st, w, v, node.get('l', 0) if isinstance(node, dict) else 0)

    def stored(self, eng, st, w, v, l):
        v = v if isinstance(v, tuple) and v and v[0] in ('it', 'end') else (self.ident(eng, st, v) if isinstance(v, tuple) and v else v)
        st.ev += (('store',) + w + (v, l),)

    def fork(self, eng, st, ev, yes=I(1), no=I(0)):
        z = st.copy()
        st.ev += (ev + (True,),)
        z.ev += (ev + (False,),)
        return [(st, yes), (z, no)]

    def size(self, st, T):
        return st.store.setdefault(('ghost', 'size', T), ('size', T, 0))

    def on_call(self, eng, st, call, obj, vs, e):
        n = call['n']
        m = n.rsplit('::', 1)[-1]
        l = e.get('l', 0)
        if n.endswith('::throw_exception') or n.endswith('::throw_exception<joedb::Exception>'):
            eng.thrown[-1].append((st, ('exc', 'joedb::Exception', None)))
            return []
        if n.startswith(FK):
            T = where(obj)[0] if where(obj) else strip(obj)
            a = tuple(self.ident(eng, st, v) for v in vs)
            if m in ('is_used', 'is_free', 'is_used_vector', 'is_free_vector'):
                return self.fork(eng, st, ('guard', m, T, a, l))
            if m in ('size', 'get_size'):
                return [(st, self.size(st, T))]
            if m == 'get_free_record':
                st.ctr += 1
                st.ev += (('fk', m, T, (), l),)
                st.store[('ghost', 'size', T)] = s = ('size', T, st.ctr)
                v = ('free', T, st.ctr)
                st.facts[('op', '<', v, s)] = True
                eng.set_bound(st, v, lo=0)
                return [(st, v)]
            if m == 'resize':
                st.ev += (('fk', m, T, a, l),)
                st.store[('ghost', 'size', T)] = a[0]
                return [(st, ('void',))]
            if m in ('use', 'free', 'use_vector', 'free_vector', 'push_back'):
                st.ev += (('fk', m, T, a, l, st.copy()),)
                return [(st, ('void',))]
            return None
        if n.startswith(WJ) or (m != 'operator=' and obj is not None and isinstance(obj, tuple) and term_in(obj, '::journal')):
            a = tuple(self.ident(eng, st, v) if not (v[0] == 'loc' and where(v[1])) else ('at',) + where(v[1]) for v in vs)
            z = st.copy()
            z.ev += (('failed', 'journal', l),)
            eng.thrown[-1].append((z, ('exc', '?', None)))
            st.ev += (('journal', m, a, l),)
            return [(st, ('any',))]
        if n.startswith('std::vector<'):
            if m in ('operator[]', 'at'):
                return [(st, ('loc', ('idx', obj, eng.value(st, vs[0]))))]
            if m in ('data', 'begin'):
                return [(st, ('loc', ('elem0', obj)))]
            if m == 'resize' and where(obj):
                st.ev += (('vresize',) + where(obj)[:2] + (self.ident(eng, st, vs[0]), l),)
                return [(st, ('void',))]
        if n.startswith(('std::map<', 'std::multimap<')) and index_of(obj):
            i = index_of(obj)
            if m == 'end':
                return [(st, ('end', i))]
            if m == 'erase':
                x = vs[0]
                w = where(x[1]) if x[0] in ('loc', 'rd') else None
                st.ev += (('erase', i, w or strip(x), l),)
                return [(st, ('any',))]
            if m in ('insert', 'emplace', 'insert_or_assign', 'try_emplace'):
                key = self.column(eng, st, vs[0]) if len(vs) == 1 else ('tuple',) + tuple(self.column(eng, st, v) for v in vs)
                st.ctr += 1
                it = ('it', i, st.ctr)
                if n.startswith('std::multimap<'):
                    st.ev += (('insert', i, key, it, l, True),)
                    return [(st, it)]
                out = []
                for ok in (1, 0):
                    z = st.copy()
                    L = ('tmp', 'ins%d' % st.ctr)
                    z.store[('fld', L, 'std::pair::second')] = I(ok)
                    z.store[('fld', L, 'std::pair::first')] = it
                    z.ev += (('insert', i, key, it, l, bool(ok)),)
                    out.append((z, ('obj', L)))
                return out
        if m in ('operator==', 'operator!=') and len(vs) + (obj is not None) == 2 and n.startswith('std::'):
            a, b = (self.iter(eng, st, v) for v in (list(vs) if obj is None else [('loc', obj)] + list(vs)))
            if a[0] == 'end':
                a, b = b, a
            if b[0] == 'end' and a[0] == 'at':
                last = [x for x in st.ev if x[0] == 'store' and x[1:4] == a[1:]]
                if last and isinstance(last[-1][4], tuple) and last[-1][4][:1] in (('end',), ('it',)):
                    eq = last[-1][4][0] == 'end'
                    return [(st, I(int(eq == (m == 'operator=='))))]
                z = st.copy()
                z.ev += (('ended', a[1:], b[1], True),)
                st.ev += (('ended', a[1:], b[1], False),)
                return [(z, I(m == 'operator==')), (st, I(m == 'operator!='))]
        if m == 'operator=' and obj is not None and where(obj) and not n.startswith('std::vector<'):
            v = self.iter(eng, st, vs[0])
            self.stored(eng, st, where(obj), v if v[0] in ('it', 'end') else vs[0], l)
            return [(st, ('loc', obj))]
        if m in ('clear', 'erase') and n.startswith('std::basic_string<') and obj is not None and where(obj):
            st.ev += (('store',) + where(obj) + (('empty',), l),)
            return [(st, ('void',))]
        if n in ('std::copy_n', 'std::copy') and len(vs) == 3:
            w = where(vs[2][1]) if vs[2][0] == 'loc' else None
            st.ev += (('copy', w) + copied(eng, st, n, vs) + (l,),)
            return [(st, ('any',))]
        if n.startswith('std::fill_n') and len(vs) == 3:
            w = where(vs[0][1]) if vs[0][0] == 'loc' else None
            v = self.iter(eng, st, vs[2])
            st.ev += (('fill', w, strip(eng.value(st, vs[1])), v, l),)
            return [(st, ('any',))]
        if 'operator()' in m or 'lambda' in n:
            st.ev += (('user', l),)
            eng.thrown[-1].append((st.copy(), ('exc', '?', None)))
            return [(st, ('any',))]
        return None

    def iter(self, eng, st, v):
        """an iterator: the end of an index, a new one, or what a column contains"""
        for _ in range(4):
            if v[0] in ('end', 'it'):
                return v
            if v[0] in ('loc', 'rd'):
                w = where(v[1])
                if w:
                    return ('at',) + w
                L = v[1]
                while isinstance(L, tuple) and L and L[0] == 'refto':
                    L = L[1]
                x = st.store.get(L)
                if x is None:
                    return v
                v = x
            else:
                return v
        return v


def term_in(t, suffix):
    if isinstance(t, str):
        return t.endswith(suffix)
    return isinstance(t, tuple) and any(term_in(x, suffix) for x in t)


MUTATIONS = ('store', 'vresize', 'fk', 'erase', 'insert', 'copy', 'fill', 'user', 'journal')
WD = NS + 'Writable_Database::'
DW = NS + 'Database_Writable::'


class Audit:
    """what one path does to the indexes, step by step; state[(index, id)] in unknown/end/in/dangling/pending"""

    def __init__(self, sc, T, ev):
        self.sc, self.T, self.state, self.bad, self.inserted = sc, T, {}, [], {}
        self.writes = {}
        for n, x in enumerate(ev):
            self.step(n, x)

    def err(self, k, m, x):
        self.bad.append((k, m, x))

    def step(self, n, x):
        s = self.state
        k = x[0]
        if k == 'ended':
            (T, col, id), i, end = x[1:4]
            if col != 'iterator_over_' + i:
                self.err('mixed', 'an iterator of %s is compared with the end of %s' % (col, i), x)
            s[i, id] = 'end' if end else 'in'
        elif k == 'erase':
            i, w = x[1], x[2]
            if len(w) != 3 or w[1] != 'iterator_over_' + i:
                self.err('erase', 'what is erased from %s is not the entry of a record' % i, x)
                return
            if s.get((i, w[2])) != 'in':
                self.err('erase', 'an entry of %s is erased though it may not exist' % i, x)
            s[i, w[2]] = 'dangling'
        elif k == 'store' and x[2].startswith('iterator_over_'):
            i, id, v = x[2][len('iterator_over_'):], x[3], x[4]
            if v[0] == 'end':
                if v[1] != i:
                    self.err('mixed', 'the end of %s is stored as iterator of %s' % (v[1], i), x)
                if s.get((i, id)) in ('in', 'pending'):
                    self.err('leak', 'the entry of a record in %s is forgotten' % i, x)
                s[i, id] = 'end'
            elif v[0] == 'it':
                if v[1] != i or s.get((i, id)) != 'pending':
                    self.err('mixed', 'the iterator stored for %s is not the one of the new entry' % i, x)
                s[i, id] = 'in'
            else:
                self.err('iterator', 'an unknown iterator is stored for %s' % i, x)
        elif k == 'fill':
            w, size, v = x[1], x[2], x[3]
            if is_int(size) and not 0 <= size[1] <= 64:
                self.err('fill', 'the iterators of %s records are initialised' % size[1], x)
            elif w and w[1].startswith('iterator_over_') and is_int(size):
                for j in range(size[1]):
                    s[w[1][len('iterator_over_'):], plus(w[2], I(j))] = 'end' if v[0] == 'end' and v[1] == w[1][len('iterator_over_'):] else 'dangling'
        elif k in ('store', 'copy'):
            w = x[1:4] if k == 'store' else x[1]
            if w:
                self.writes[w[:2]] = n
        elif k == 'insert':
            i, key, it, l, ok = x[1:6]
            flatk = []

            def fl(t):
                if t[0] == 'tuple':
                    for y in t[1:]:
                        fl(y)
                else:
                    flatk.append(t)
            fl(key)
            id = flatk[-1]
            T, cols, unique = self.sc.indexes[i]
            want = [('col', T, 'field_value_of_' + c, id) for c in cols]
            if [y[:4] for y in flatk[:-1]] != want:
                self.err('key', 'the key inserted into %s is not made of %s' % (i, ', '.join(cols)), x)
            if s.get((i, id)) != 'end':
                self.err('leak', 'a second entry is made in %s for the same record' % i, x)
            self.inserted[i, id] = (n, ok)
            if ok:
                s[i, id] = 'pending'

    def exit(self):
        for (i, id), v in self.state.items():
            if v == 'dangling':
                self.err('dangling', 'the iterator of an erased entry of %s remains' % i, None)
            elif v == 'pending':
                self.err('lost', 'the iterator of the new entry of %s is lost' % i, None)


def lin_of(eng, st):
    z = st.copy()
    z.facts = {}
    extra = []
    for k, v in st.facts.items():
        if k[0] != 'bnd' and z.facts.setdefault(strip(k), v) != v:
            extra = [{1: 1}]                # two facts that contradict each other: not reachable
        z.facts[strip(k)] = v
    return Lin(eng, z, lambda t: isinstance(t, tuple) and bool(t) and t[0] in ('size', 'free'), extra)


class Gen:
    """checks of one generated function"""

    def __init__(self, ctx, sc):
        self.ctx, self.sc, self.db = ctx, sc, ctx.db
        self.rule_cls = CompiledRule

    def run(self, f, args=None):
        rule = self.rule_cls()
        eng = Engine(self.db, rule)
        outs = eng.run(f, None, NS + ('Writable_Database' if f['n'].startswith(WD) else 'Database_Writable'), args=args)
        self.ctx.use(f)
        self.ctx.use_engine(eng)
        return eng, rule, outs

    def guarded(self, ev, T, ids, valid, size=None):
        """the position of the check that the ids are valid (or free), before any change; None if it fails on this path"""
        for n, x in enumerate(ev):
            if x[0] == 'guard' and x[2] == T and x[3][0] == ids:
                if x[1] in ('is_used', 'is_free') and size is None:
                    ok = (x[1] == 'is_used') == x[5]
                elif x[1] == 'is_used_vector' and size is not None and x[3][1] == size:
                    ok = x[5]
                elif x[1] == 'is_free_vector' and size is not None and x[3][1] == size:
                    if not x[5]:
                        return n, None
                    ok = False
                else:
                    continue
                return n, ok == valid
            if x[0] == 'guard' and x[1] == 'is_used' and x[2] == T and size is not None and is_int(size):
                return n, None                   # checked one by one
        return None, None

    def common(self, f, key, o, T, ev):
        """what holds on every path; returns the audit"""
        ctx = self.ctx
        tr = trace(o.st.ev)
        a = Audit(self.sc, T, ev)
        a.exit()
        for k, m, x in a.bad:
            ctx.bad('%s:%s' % (key, k), f, m, tr)
        if not a.bad:
            ctx.ok(key + ':indexes')
        js = [n for n, x in enumerate(ev) if x[0] == 'journal']
        failed = any(x == 'failed' for x in (y[0] for y in ev))
        if o.k == T_ and not failed:
            ctx.require(not js, key + ':written', f, 'an operation that fails is written to the journal', trace=tr)
        return a, js, failed, tr

    def update(self, f, key, T, F, id, value, journal, args=None):
        ctx, sc = self.ctx, self.sc
        tid, fields = sc.tables[T]
        fid, ty = fields[F]
        eng, rule, outs = self.run(f, args)
        normal = refused = 0
        for o in outs:
            ev = flat(o.st.ev)
            a, js, failed, tr = self.common(f, key, o, T, ev)
            first = next((n for n, x in enumerate(ev) if x[0] in MUTATIONS), len(ev))
            g, ok = self.guarded(ev, T, id, True)
            if ok is False:
                refused += 1
                ctx.require(o.k == T_ and first == len(ev), key + ':invalid', f, 'an invalid record is updated', trace=tr)
                continue
            ctx.require(g is not None and ok and g < first, key + ':unchecked', f, 'a record is updated before its id is checked', trace=tr)
            if o.k == T_:
                dup = [x for x in ev if x[0] == 'insert' and not x[5]]
                ctx.require(dup or failed, key + ':refused', f, 'a valid update is refused', trace=tr)
                continue
            normal += 1
            st_ = [n for n, x in enumerate(ev) if x[0] == 'store' and x[1:4] == (T, 'field_value_of_' + F, id)]
            ctx.require(st_ and ev[st_[-1]][4] == value, key + ':store', f, 'the new value is not stored in its column', trace=tr)
            other = [x for x in ev if x[0] == 'store' and x[2].startswith('field_value_of_') and x[1:4] != (T, 'field_value_of_' + F, id)]
            ctx.require(not other, key + ':other', f, 'another field is modified: %s' % [x[1:4] for x in other], trace=tr)
            for i in sc.triggered(T, F):
                ins = a.inserted.get((i, id))
                ctx.require(ins and ins[1] and st_ and ins[0] > st_[-1] and a.state.get((i, id)) == 'in', '%s:index:%s' % (key, i), f, 'the index %s is not updated with the new value' % i, trace=tr)
            self.written(f, key, ev, js, journal and ('update_' + ty, (I(tid), id, I(fid), value)), tr)
        ctx.require(normal and refused, key + ':both', f, 'updates always fail, or never')

    def written(self, f, key, ev, js, want, tr):
        ctx = self.ctx
        if not want:
            ctx.require(not js, key + ':journal', f, 'a replay writes to the journal', trace=tr)
            return
        ctx.require(len(js) == 1, key + ':journal', f, '%d events are written to the journal' % len(js), trace=tr)
        if len(js) == 1:
            got = ev[js[0]][1:3]
            ctx.require(got == want, key + ':event', f, 'the event written to the journal (%s) is not %s' % (show(got), show(want)), trace=tr)
            late = [x for x in ev[js[0] + 1:] if x[0] in MUTATIONS]
            ctx.require(not late, key + ':late', f, 'something is changed after the journal was written', trace=tr)

    def insert(self, f, key, T, id, journal, args=None, fresh=False):
        """id: the id asked for; fresh: the function chooses a free one"""
        ctx, sc = self.ctx, self.sc
        tid = sc.tables[T][0]
        eng, rule, outs = self.run(f, args)
        normal = refused = 0
        for o in outs:
            ev = flat(o.st.ev)
            a, js, failed, tr = self.common(f, key, o, T, ev)
            first = next((n for n, x in enumerate(ev) if x[0] in MUTATIONS), len(ev))
            used = [x for x in ev if x[0] == 'fk' and x[1] == 'use']
            if o.k == T_ and not failed:
                lim = limited(o.st)
                ctx.require(not lim or journal, key.replace('_' + T, '') + ':limit', f, 'inserting a record that the database could write is refused when it is read: its id is compared with the size of the file', trace=tr)
                if lim and not journal:
                    continue
                refused += 1
                ctx.require(first == len(ev), key + ':partial', f, 'a refused insertion changes something', trace=tr)
                g, ok = self.guarded(ev, T, id, False)
                neg = lin_of(eng, o.st).le(plus(id, I(1)), I(0))
                ctx.require(ok is False or neg, key + ':refused', f, 'a valid insertion is refused', trace=tr)
                continue
            if fresh:
                got = [x for x in ev if x[0] == 'fk' and x[1] == 'get_free_record']
                id = used[0][3][0] if used else None
                ctx.require(len(got) == 1 and id and id[0] == 'free', key + ':free', f, 'the id of the new record is not a free one', trace=tr)
            else:
                g, ok = self.guarded(ev, T, id, False)
                ctx.require(g is not None and ok and g < first, key + ':unchecked', f, 'a record is inserted without checking that its id is free', trace=tr)
            if failed:
                continue
            normal += 1
            ctx.require(len(used) == 1 and used[0][2:4] == (T, (id,)), key + ':use', f, 'the record is not marked as used', trace=tr)
            if used:
                z = used[0][5]
                L = lin_of(eng, z)
                ctx.require(L.le(plus(id, I(1)), rule.size(z, T)), key + ':room', f, 'there may be no room for the record', trace=tr)
                ctx.require(fresh or L.le(I(0), id), key + ':negative', f, 'the id may be negative', trace=tr)
            for i in sc.of_table(T):
                ctx.require(a.state.get((i, id)) == 'end', '%s:index:%s' % (key, i), f, 'the iterator of a new record over %s is not initialised' % i, trace=tr)
            self.written(f, key, ev, js, journal and ('insert_into', (I(tid), id)), tr)
            if fresh and o.k == R:
                ctx.require(rule.ident(eng, o.st, o.v) == id, key + ':result', f, 'the id returned is not the one of the new record', trace=tr)
        ctx.require(normal and (refused or fresh), key + ':both', f, 'insertions always fail, or never')

    def create(self, f, key, T):
        """a new record with the value of each field"""
        ctx, sc = self.ctx, self.sc
        tid, fields = sc.tables[T]
        eng, rule, outs = self.run(f)
        normal = 0
        for o in outs:
            ev = flat(o.st.ev)
            if o.k == T_:
                continue
            normal += 1
            tr = trace(o.st.ev)
            a = Audit(sc, T, ev)
            a.exit()
            for k, m, x in a.bad:
                ctx.bad('%s:%s' % (key, k), f, m, tr)
            js = [x[1:3] for x in ev if x[0] == 'journal']
            ctx.require(js[:1] and js[0][0] == 'insert_into' and js[0][1][0] == I(tid), key + ':event', f, 'the insertion is not written to the journal first', trace=tr)
            if not js:
                continue
            id = js[0][1][1]
            want = {}
            for n, (F, (fid, ty)) in enumerate(fields.items()):
                want[('update_' + ty, (I(tid), id, I(fid), arg(f, n)))] = (F, arg(f, n))
            ctx.require(set(js[1:]) == set(want) and len(js) == 1 + len(want), key + ':event', f, 'the fields are not written to the journal with their values: %s' % show([x for x in js[1:] if x not in want]), trace=tr)
            for w, (F, v) in want.items():
                sv = [x[4] for x in ev if x[0] == 'store' and x[1:4] == (T, 'field_value_of_' + F, id)]
                ctx.require(sv and sv[-1] == v, key + ':store', f, 'field %s of the new record does not have the value given' % F, trace=tr)
            ctx.require(rule.ident(eng, o.st, o.v) == id, key + ':result', f, 'the id returned is not the one of the new record', trace=tr)
        ctx.require(normal, key + ':never', f, 'never succeeds')

    def delete(self, f, key, T, ids, base, size, journal, args=None):
        """size: None, or a number of records"""
        ctx, sc = self.ctx, self.sc
        tid = sc.tables[T][0]
        eng, rule, outs = self.run(f, args)
        normal = refused = 0
        for o in outs:
            ev = flat(o.st.ev)
            a, js, failed, tr = self.common(f, key, o, T, ev)
            first = next((n for n, x in enumerate(ev) if x[0] in MUTATIONS), len(ev))
            g, ok = self.guarded(ev, T, base, True, None if size is None else I(size))
            if o.k == T_ and not failed:
                if size is not None and ok and any(x[0] == 'guard' and x[1] in ('is_used', 'is_free') and (x[1] == 'is_used') != x[5] for x in ev):
                    continue                            # impossible: the whole vector was checked
                refused += 1
                ctx.require(first == len(ev), key + ':partial', f, 'a refused deletion changes something', trace=tr)
                ctx.require(ok is False, key + ':refused', f, 'a valid deletion is refused', trace=tr)
                continue
            ctx.require(g is not None and ok and g < first, key + ':unchecked', f, 'records are deleted before their ids are checked', trace=tr)
            if failed:
                continue
            normal += 1
            freed = [x[3] for x in ev if x[0] == 'fk' and x[1] in ('free', 'free_vector') and x[2] == T]
            got = set()
            for x in freed:
                got |= {x[0]} if len(x) == 1 else ({plus(x[0], I(j)) for j in range(x[1][1])} if is_int(x[1]) and 0 <= x[1][1] <= 64 else set())
            ctx.require(got == set(ids) and (len(freed) == len(ids) or any(len(x) == 2 for x in freed)), key + ':free', f, 'the records freed are not those to delete: %s' % [show(x) for x in freed], trace=tr)
            for i in sc.of_table(T):
                for id in ids:
                    ctx.require(a.state.get((i, id)) == 'end', '%s:index:%s' % (key, i), f, 'the entry of a deleted record remains in %s' % i, trace=tr)
            j = ('delete_from', (I(tid), base)) if size is None else ('delete_vector', (I(tid), base, I(size)))
            self.written(f, key, ev, js, journal and j, tr)
        ctx.require(normal and (refused or size == 0), key + ':both', f, 'deletions always fail, or never')

    def vector(self, f, key, T, size, journal, args, base=None):
        """insertion of a vector"""
        ctx, sc = self.ctx, self.sc
        tid = sc.tables[T][0]
        eng, rule, outs = self.run(f, args)
        normal = 0
        fresh = base is None
        for o in outs:
            ev = flat(o.st.ev)
            a, js, failed, tr = self.common(f, key, o, T, ev)
            used = [x for x in ev if x[0] == 'fk' and x[1] == 'use_vector']
            if o.k == T_ and not failed:
                lim = limited(o.st)
                ctx.require(not lim or journal, key.replace('_' + T, '') + ':limit', f, 'inserting a vector that the database could write is refused when it is read: its size is compared with the size of the file', trace=tr)
                ctx.require(not used and not any(x[0] in ('store', 'fill', 'insert', 'erase') for x in ev), key + ':partial', f, 'a refused insertion changes something', trace=tr)
                continue
            if failed:
                continue
            normal += 1
            if fresh:
                base = used[0][3][0] if used else None
            ctx.require(len(used) == 1 and used[0][2:4] == (T, (base, I(size))), key + ':use', f, 'the records are not marked as used', trace=tr)
            if used:
                n = ev.index(used[0])
                ctx.require(any(x[0] == 'guard' and x[1] == 'is_free_vector' and x[2] == T and x[3] == used[0][3] and x[5] for x in ev[:n]), key + ':unchecked', f, 'records are inserted without checking that their ids are free', trace=tr)
                z = used[0][5]
                L = lin_of(eng, z)
                ctx.require(L.le(plus(base, I(size)), rule.size(z, T)), key + ':room', f, 'there may be no room for the records', trace=tr)
                for i in sc.of_table(T):
                    ctx.require(all(a.state.get((i, plus(base, I(j)))) == 'end' for j in range(size)), '%s:index:%s' % (key, i), f, 'the iterators of new records over %s are not initialised' % i, trace=tr)
            self.written(f, key, ev, js, journal and ('insert_vector', (I(tid), base, I(size))), tr)
            if fresh and o.k == R:
                ctx.require(rule.ident(eng, o.st, o.v) == base, key + ':result', f, 'the id returned is not the one of the new vector', trace=tr)
        ctx.require(normal, key + ':never', f, 'vectors are never inserted')

    def update_vector(self, f, key, T, F, base, size, journal, args, user):
        ctx, sc = self.ctx, self.sc
        tid, fields = sc.tables[T]
        fid, ty = fields[F]
        eng, rule, outs = self.run(f, args)
        col = (T, 'field_value_of_' + F, base)
        normal = refused = 0
        for o in outs:
            ev = flat(o.st.ev)
            a, js, failed, tr = self.common(f, key, o, T, ev)
            first = next((n for n, x in enumerate(ev) if x[0] in MUTATIONS), len(ev))
            g, ok = self.guarded(ev, T, base, True, I(size))
            if ok is False:
                refused += 1
                ctx.require(o.k == T_ and first == len(ev), key + ':invalid', f, 'an invalid vector is updated', trace=tr)
                continue
            ctx.require(g is not None and ok and g < first, key + ':unchecked', f, 'a vector is updated before its ids are checked', trace=tr)
            if o.k == T_:
                continue
            normal += 1
            wr = [n for n, x in enumerate(ev) if x[0] == 'user' or (x[0] == 'copy' and x[1] == col and x[3] == I(size))]
            if user is not None:
                wr += [n for n, x in enumerate(ev) if x[0] == 'store' and x[1:3] == col[:2]]
                cp = [x for x in ev if x[0] == 'copy']
                same_ = eng_same(o.st, col)
                one = {x[3]: elem(x[4]) for x in ev if x[0] == 'store' and x[1:3] == col[:2]}
                if one:
                    # one by one
                    ctx.require(one == {plus(base, I(j)): (user, I(j)) for j in range(size)}, key + ':store', f, 'the new values are not stored in their column: %s' % show(one), trace=tr)
                ctx.require(cp or one or same_ or not size, key + ':store', f, 'the new values are not stored', trace=tr)
                ctx.require(all(x[1] == col and x[2] in (user, ('rd', ('param', user[1]), 0)) and x[3] == I(size) for x in cp), key + ':store', f, 'the new values are not stored in their column: %s' % [show(x[1:4]) for x in cp], trace=tr)
            else:
                ctx.require(wr, key + ':user', f, 'the function of the caller is not called', trace=tr)
            for i in sc.triggered(T, F):
                for j in range(size):
                    ins = a.inserted.get((i, plus(base, I(j))))
                    ctx.require(ins and ins[1] and (not wr or ins[0] > wr[-1]) and a.state.get((i, plus(base, I(j)))) == 'in', '%s:index:%s' % (key, i), f, 'the index %s is not updated with the new values' % i, trace=tr)
            self.written(f, key, ev, js, journal and ('update_vector_' + ty, (I(tid), base, I(fid), I(size), ('at',) + col)), tr)
        ctx.require(normal and refused, key + ':both', f, 'updates always fail, or never')


def copied(eng, st, n, vs):
    """source and number of elements of std::copy or std::copy_n"""
    a, b = (strip(eng.value(st, v)) for v in vs[:2])
    if n.startswith('std::copy_n'):
        return a, b
    x, y = elem(a), elem(b)
    return a, minus(y[1], x[1]) if x[0] == y[0] else ('unknown',)


def elem(v):
    """(array, index) of the element that a pointer, or a value read, designates"""
    v = strip(v)
    n = I(0)
    for _ in range(12):
        if not isinstance(v, tuple) or not v:
            break
        if v[0] in ('loc', 'obj', 'rd', 'elem0', 'refto', 'deref') and isinstance(v[1], tuple):
            v = v[1]
        elif len(v) == 3 and v[0] in ('ptr', 'idx'):
            n = plus(n, strip(v[2]))
            v = v[1]
        elif v[:2] == ('op', '+') and len(v) == 4:
            n = plus(n, strip(v[3]))
            v = v[2]
        elif v[0] == 'lin':
            ptr = [x for x, c in v[1] if c == 1 and isinstance(x, tuple) and x[0] in ('arg', 'rd', 'loc')]
            if len(ptr) != 1:
                break
            n = plus(n, minus(v, ptr[0]))
            v = ptr[0]
        else:
            break
    return ('arg', v[1]) if isinstance(v, tuple) and v and v[0] == 'param' else v, n


def eng_same(st, col):
    """is the path the one where the new values are already in place?"""
    return any(isinstance(k, tuple) and k[:1] == ('op',) and k[1] == '==' and v for k, v in st.facts.items())


def limited(st):
    """the path depends on max_record_id"""
    return any(term_in(k, '::max_record_id') for k in st.facts)


def show(t):
    return re.sub(r"[',]|\b(i|arg)\b ", '', str(t)).replace('  ', ' ')[:150]


T_ = T


def of_type(db, name, T, n=None):
    """the overload whose first parameter is an id of table T"""
    c = [f for f in db.fns(name) if f['ps'] and f['ps'][0]['t'].replace('const ', '').rstrip(' &').endswith('id_of_' + T) and (n is None or len(f['ps']) == n)]
    if not c:
        raise AnalysisError('anchor vanished: %s(%s)' % (name, T))
    return c[0]


def arg(f, n):
    return ('arg', f['ps'][n]['n'])


@check('G01', parts=('src', 'gen'), floor=400,
       rule='every function that modifies a compiled database of a sample schema with all types, unique, multi-column and reference indexes, and its counterpart that replays the journal, interpreted over every path: event written to the journal against the schema, checks before changes, order of storage, index and journal, with the schema files as oracle; vectors with sizes 0 to 2')
def g01(ctx):
    db = ctx.db
    sc = Schema()
    g = Gen(ctx, sc)
    for T, (tid, fields) in sc.tables.items():
        single = T in sc.single
        for F, (fid, ty) in fields.items():
            f = of_type(db, WD + 'set_' + F, T, 2)
            g.update(f, 'set_' + F, T, F, arg(f, 0), arg(f, 1), True)
            f = db.fn(DW + 'update_' + ty)
            g.update(f, 'replay:set_' + F, T, F, arg(f, 1), arg(f, 3), False, {0: I(tid), 2: I(fid)})
            if not single:
                f = of_type(db, WD + 'update_vector_of_' + F, T, 3)
                for n in sizes(ctx):
                    g.update_vector(f, 'update_vector_of_' + F, T, F, arg(f, 0), n, True, {1: I(n)}, None)
            f = db.fn(DW + 'update_vector_' + ty)
            for n in sizes(ctx):
                g.update_vector(f, 'replay:update_vector_of_' + F, T, F, arg(f, 1), n, False, {0: I(tid), 2: I(fid), 3: I(n)}, arg(f, 4))
        f = db.fn(WD + 'new_' + T, 0)
        g.insert(f, 'new_' + T, T, None, True, fresh=True)
        f = db.fn(WD + 'new_' + T, len(fields))
        g.create(f, 'new_%s:fields' % T, T)
        f = of_type(db, WD + 'insert_' + T, T, 1)
        g.insert(f, 'insert_' + T, T, arg(f, 0), True)
        f = db.fn(DW + 'insert_into')
        g.insert(f, 'replay:insert_' + T, T, arg(f, 1), False, {0: I(tid)})
        if not single:
            f = of_type(db, WD + 'delete_' + T, T, 1)
            g.delete(f, 'delete_' + T, T, [arg(f, 0)], arg(f, 0), None, True)
            f = of_type(db, WD + 'delete_vector_of_' + T, T, 2)
            for n in sizes(ctx):
                g.delete(f, 'delete_vector_of_' + T, T, [plus(arg(f, 0), I(j)) for j in range(n)], arg(f, 0), n, True, {1: I(n)})
            f = db.fn(WD + 'new_vector_of_' + T)
            for n in sizes(ctx):
                g.vector(f, 'new_vector_of_' + T, T, n, True, {0: I(n)})
        f = db.fn(DW + 'delete_from')
        g.delete(f, 'replay:delete_' + T, T, [arg(f, 1)], arg(f, 1), None, False, {0: I(tid)})
        f = db.fn(DW + 'delete_vector')
        for n in sizes(ctx):
            g.delete(f, 'replay:delete_vector_of_' + T, T, [plus(arg(f, 1), I(j)) for j in range(n)], arg(f, 1), n, False, {0: I(tid), 2: I(n)})
        f = db.fn(DW + 'insert_vector')
        for n in sizes(ctx):
            g.vector(f, 'replay:new_vector_of_' + T, T, n, False, {0: I(tid), 2: I(n)}, arg(f, 1))
        # resize
        cls = NS + 'detail::data_of_' + T
        f = db.fn(cls + '::resize')
        eng, rule, outs = g.run(f)
        cols = {x['n'].rsplit('::', 1)[-1] for x in db.cls(cls)['fields'] if x['t'].startswith('std::vector<')}
        for o in outs:
            ev = flat(o.st.ev)
            n = arg(f, 0)
            done = {x[2] for x in ev if x[0] == 'vresize' and x[1] == T and x[3] == n}
            ctx.require(done >= cols and ('fk', 'resize', T, (n,)) in [x[:4] for x in ev], 'resize:' + T, f, 'not every column is resized: %s' % sorted(cols - done), trace=trace(o.st.ev))
    # tables and fields that the schema does not have
    types = sorted({ty for _, fs in sc.tables.values() for _, ty in fs.values()})
    for ty in types:
        for tid, fid in ((0, 1), (len(sc.tables) + 1, 1)) + tuple((t, x) for t, fs in sc.tables.values() for x in [0, len(fs) + 1] + [i for i, y in fs.values() if y != ty]):
            for name, a in (('update_' + ty, {0: I(tid), 2: I(fid)}), ('update_vector_' + ty, {0: I(tid), 2: I(fid), 3: I(1)})):
                f = db.fn(DW + name)
                eng, rule, outs = g.run(f, a)
                for o in outs:
                    ctx.require(o.k != T_ and not [x for x in flat(o.st.ev) if x[0] in MUTATIONS], 'replay:other:' + name, f, 'an update of field %d of table %d, which is not a %s, changes something' % (fid, tid, ty), trace=trace(o.st.ev))


# ---------------------------------------------------------------- reading
class ReadRule(CompiledRule):
    """what functions that read a compiled database return"""

    def pos(self, eng, st, v):
        """a position in an index"""
        for _ in range(8):
            if v[0] in ('end', 'begin', 'found', 'succ', 'pred', 'at', 'lower', 'upper'):
                return v
            if v[0] in ('loc', 'rd', 'obj'):
                L = v[1]
                while isinstance(L, tuple) and L and L[0] == 'refto':
                    L = L[1]
                w = where(L)
                if w:
                    return ('at',) + w
                x = st.store.get(L)
                if x is None:
                    return v
                v = x
            else:
                return v
        return v

    def copied(self, eng, st, cls, L, args):
        if 'iterator' in cls and len(args) == 1:
            p = self.pos(eng, st, args[0])
            if p[0] in ('end', 'begin', 'found', 'succ', 'pred', 'at', 'lower', 'upper'):
                st.store[L] = p
                return [(st, p)]
        return None

    def on_ctor(self, eng, st, node, cls, L, args):
        r = self.copied(eng, st, cls, L, args)
        if r is not None and 'range_of_' not in cls:
            return r
        return CompiledRule.on_ctor(self, eng, st, node, cls, L, args)

    def on_call(self, eng, st, call, obj, vs, e):
        n = call['n']
        m = n.rsplit('::', 1)[-1]
        if n.startswith(('std::map<', 'std::multimap<')) and obj is not None and index_of(obj):
            i = index_of(obj)
            if m in ('begin', 'cbegin'):
                return [(st, ('begin', i))]
            if m == 'cend':
                return [(st, ('end', i))]
            if m == 'find':
                return [(st, ('found', i, self.column(eng, st, vs[0])))]
            if m in ('equal_range',):
                k = self.column(eng, st, vs[0])
                st.ctr += 1
                L = ('tmp', 'range%d' % st.ctr)
                st.store[('fld', L, 'std::pair::first')] = ('lower', i, k)
                st.store[('fld', L, 'std::pair::second')] = ('upper', i, k)
                return [(st, ('obj', L))]
        if n.startswith('std::') and m in ('operator==', 'operator!='):
            a, b = (self.pos(eng, st, v) for v in (list(vs) if obj is None else [('loc', obj)] + list(vs)))
            if b[0] not in ('end', 'begin'):
                a, b = b, a
            if b[0] in ('end', 'begin'):
                if a[0] == b[0]:
                    return [(st, I(int((a == b) == (m == 'operator=='))))]
                old = [x[4] for x in st.ev if x[:4] == ('is', b[0], a, b[1])]
                if old:
                    return [(st, I(int(old[0] == (m == 'operator=='))))]
                z = st.copy()
                z.ev += (('is', b[0], a, b[1], True),)
                st.ev += (('is', b[0], a, b[1], False),)
                return [(z, I(m == 'operator==')), (st, I(m == 'operator!='))]
        if n.startswith('std::') and m in ('operator++', 'operator--') and obj is not None:
            p = self.pos(eng, st, ('loc', obj))
            q = ('succ' if m == 'operator++' else 'pred', p)
            st.ev += (('move', q),)
            st.store[obj] = q
            return [(st, ('loc', obj) if not vs else p)]
        if n.startswith('std::') and m in ('operator->', 'operator*') and obj is not None:
            p = self.pos(eng, st, ('loc', obj))
            st.ev += (('deref', p),)
            return [(st, ('loc', ('node', p)))]
        return CompiledRule.on_call(self, eng, st, call, obj, vs, e)


def null_id(rule, eng, o):
    v = rule.ident(eng, o.st, o.v)
    return v == I(-1) or (isinstance(v, tuple) and term_in(v, 'Record_Id::null'))


def node_of(v):
    """the position whose record is returned"""
    while isinstance(v, tuple) and v and v[0] in ('rd', 'loc', 'fld'):
        if v[0] == 'fld' and v[2] != 'std::pair::second':
            return None
        v = v[1]
    return v[1] if isinstance(v, tuple) and v and v[0] == 'node' else None


@check('G05', parts=('src', 'gen'), floor=100,
       rule='every function that reads a compiled database of a sample schema with all types, unique, multi-column and reference indexes, interpreted over every path: guard before access, column returned, key looked up against the schema, iterators never dereferenced or moved past the end')
def g05(ctx):
    db = ctx.db
    sc = Schema()
    DB = NS + 'Database::'

    def run(f, this=None, setup=None, args=None):
        rule = ReadRule()
        eng = Engine(db, rule)
        outs = eng.run(f, setup, this or f['cls'], args=args)
        ctx.use(f)
        ctx.use_engine(eng)
        return eng, rule, outs

    def guard(o, T, id):
        return [x[5] for x in o.st.ev if x[0] == 'guard' and x[1] == 'is_used' and x[2:4] == (T, (id,))]

    def safe(o, key, f):
        """no iterator goes out of its index"""
        ev = flat(o.st.ev)
        for n, x in enumerate(ev):
            isit = {(y[1], y[2]): y[4] for y in ev[:n] if y[0] == 'is'}
            if x[0] == 'deref' and x[1][0] in ('found', 'succ', 'at', 'lower', 'begin', 'end'):
                ctx.require(isit.get(('end', x[1])) is False, key + ':deref', f, 'an iterator is used though it may be at the end of its index', trace=trace(o.st.ev))
            if x[0] == 'move' and x[1][0] == 'succ':
                ctx.require(isit.get(('end', x[1][1])) is False, key + ':past-end', f, 'an iterator that may be at the end of its index is moved forward', trace=trace(o.st.ev))
            if x[0] == 'move' and x[1][0] == 'pred':
                ctx.require(isit.get(('begin', x[1][1])) is False, key + ':before-begin', f, 'an iterator that may be at the beginning of its index is moved backward', trace=trace(o.st.ev))

    for T, (tid, fields) in sc.tables.items():
        f = of_type(db, DB + 'is_valid', T, 1)
        eng, rule, outs = run(f)
        for o in outs:
            g = guard(o, T, arg(f, 0))
            ctx.require(len(g) == 1 and o.k == R and const(o.v) == int(g[0]), 'is_valid:' + T, f, 'is_valid does not tell whether the record is used', trace=trace(o.st.ev))
        for F in fields:
            f = of_type(db, DB + 'get_' + F, T, 1)
            eng, rule, outs = run(f)
            id = arg(f, 0)
            normal = 0
            for o in outs:
                g = guard(o, T, id)
                if o.k == T_:
                    ctx.require(g == [False], 'get_%s:refused' % F, f, 'reading a valid record fails', trace=trace(o.st.ev))
                    continue
                normal += 1
                ctx.require(g == [True], 'get_%s:unchecked' % F, f, 'a field is read without checking the record', trace=trace(o.st.ev))
                ctx.require(rule.column(eng, o.st, o.v)[:4] == ('col', T, 'field_value_of_' + F, id), 'get_%s:column' % F, f, 'what is returned is not the value of the field of that record: %s' % show(rule.column(eng, o.st, o.v)), trace=trace(o.st.ev))
            ctx.require(normal == 1, 'get_%s:never' % F, f, 'the field is never returned')
    for i, (T, cols, unique) in sc.indexes.items():
        f = db.fn(DB + 'find_' + i, len(cols))
        names = [p['n'] for p in f['ps']]
        key = ('tuple',) + tuple(('arg', n) for n in names) if len(cols) > 1 else ('arg', names[0])
        types = [sc.tables[T][1][c][1] for c in cols]
        eng, rule, outs = run(f)
        kinds = set()
        for o in outs:
            tr = trace(o.st.ev)
            safe(o, 'find_' + i, f)
            if unique:
                d = [x for x in o.st.ev if x[0] == 'is']
                ctx.require(len(d) == 1 and d[0][2] == ('found', i, key) and d[0][3] == i, 'find_%s:key' % i, f, 'what is looked up is not the key given: %s' % show(d), trace=tr)
                if d:
                    kinds.add(d[0][4])
                    ctx.require(null_id(rule, eng, o) if d[0][4] else node_of(o.v) == ('found', i, key), 'find_%s:result' % i, f, 'what is returned is not the record of the entry found, or null when there is none', trace=tr)
            else:
                rng = {k: v for k, v in o.st.store.items() if k[0] == 'fld' and k[2] in ('std::pair::first', 'std::pair::second')}
                got = {k[2][11:]: v for k, v in rng.items()}
                kinds.add(True)
                ctx.require(got.get('first') == ('lower', i, key) and got.get('second') == ('upper', i, key), 'find_%s:key' % i, f, 'the range found is not the one of the key given: %s' % show(got), trace=tr)
        ctx.require(len(kinds) == (2 if unique else 1), 'find_%s:both' % i, f, 'a record is never found, or always')
        if unique:
            for way in ('next', 'previous'):
                f = db.fn(DB + '%s_%s' % (way, i))
                id = arg(f, 0)
                here = ('at', T, 'iterator_over_' + i, id)
                there = ('succ' if way == 'next' else 'pred', here)
                eng, rule, outs = run(f)
                found = 0
                for o in outs:
                    tr = trace(o.st.ev)
                    key_ = '%s_%s' % (way, i)
                    safe(o, key_, f)
                    g = guard(o, T, id)
                    if o.k == T_:
                        ctx.require(g == [False], key_ + ':refused', f, 'a valid record is refused', trace=tr)
                        continue
                    ctx.require(g == [True], key_ + ':unchecked', f, 'an iterator is read without checking the record', trace=tr)
                    if null_id(rule, eng, o):
                        isit = {(y[1], y[2]): y[4] for y in o.st.ev if y[0] == 'is'}
                        none = isit.get(('end', here)) or (isit.get(('end', there)) if way == 'next' else isit.get(('begin', here)))
                        ctx.require(none, key_ + ':null', f, 'null is returned though there is another record', trace=tr)
                    else:
                        found += 1
                        ctx.require(node_of(o.v) == there, key_ + ':result', f, 'what is returned is not the %s record in the index' % way, trace=tr)
                ctx.require(found, key_ + ':never', f, 'no record is ever returned')
        else:
            C = NS + 'range_of_' + i
            for name, want in (('begin', 'first'), ('end', 'second')):
                f = db.fn(C + '::' + name, 0)
                eng, rule, outs = run(f)
                for o in outs:
                    v = o.v
                    L = v[1] if v[0] in ('obj', 'loc') else None
                    x = next((y for k, y in o.st.store.items() if k[0] == 'fld' and k[1] == L), v)
                    ctx.require(o.k == R and term_in(x, 'std::pair::' + want), 'range_%s:%s' % (i, name), f, 'the %s of a range is not the %s iterator' % (name, want))
            f = db.fn(C + '::iterator::operator*', 0)
            eng, rule, outs = run(f)
            for o in outs:
                p = node_of(o.v)
                ctx.require(o.k == R and p is not None and term_in(p, '::map_iterator'), 'range_%s:value' % i, f, 'an iterator over a range does not return the record of its entry')

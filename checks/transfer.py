"""Packing and merging databases."""
import re
from jsa.runner import check
from jsa.linear import Lin, le
from .common import *
from .files import plus, minus
from .compiled import CompiledRule

RID = 'joedb::Record_Id::id'
READERS = ('joedb::Readable::', 'joedb::Database::', 'joedb::Database_Schema::', 'joedb::Freedom_Keeper::', 'joedb::Type::')
REFS = ('get_tables', 'get_fields', 'get_field_type', 'get_freedom')


class TransferRule(Rule):
    merge = False
    iter_hook = True
    loop_unroll = 1
    max_states = 60000
    wraps = (RID,)
    own_locals = True

    def __init__(self, source, target, files):
        self.source, self.target, self.files = source, target, files
        self.iters = {}
        self.entry = {}

    def inline(self, eng, f):
        return rel(f['file']).endswith(self.files)

    def models(self, name):
        return name.startswith(('std::',) + READERS + ('joedb::Writable::',))

    def may_throw(self, eng, name, node):
        return False

    def ident(self, eng, st, v):
        return self.canon(eng, st, CompiledRule.ident(self, eng, st, v))

    def canon(self, eng, st, v):
        for _ in range(8):
            if not isinstance(v, tuple) or not v:
                return v
            if v[0] in ('loc', 'obj'):
                L = v[1]
                x = st.store.get(L)
                if isinstance(x, tuple) and x and x[0] in ('loc', 'obj') and x[1] != L:
                    v = x
                elif L[0] == 'deref':
                    return L[1]
                elif L[0] == 'ent':
                    return ('off', L[1])
                elif isinstance(x, tuple) and x and x[0] in ('lin', 'i', 'phi', 'rd', 'q'):
                    v = x
                elif L[0] == 'var' and st.cls.get(L) == 'joedb::Record_Id':
                    return eng.rd(st, ('fld', L, RID))
                else:
                    return v
            elif v[0] == 'rd' and v[1][0] == 'deref':
                return v[1][1]
            elif v[0] == 'rd' and v[1][0] == 'fld' and v[1][2] == RID:
                w = st.store.get(v[1][1])
                if isinstance(w, tuple) and w and w != v:
                    v = w
                else:
                    return v
            elif v[0] == 'rd' and v[1][0] == 'var' and len(v) == 3 and (st.cls.get(v[1]) == 'joedb::Record_Id' or ('fld', v[1], RID) in st.store):
                return eng.rd(st, ('fld', v[1], RID))
            elif v[0] == 'fldof' and v[2] == RID:
                v = v[1]
            else:
                return v
        return v

    def whose(self, st, L):
        """the thing a member function is called on"""
        for _ in range(10):
            if not isinstance(L, tuple) or not L:
                return None
            if L == ('param', self.source):
                return 'source'
            if L == ('param', self.target):
                return 'target'
            if L[0] == 'deref':
                return L[1]
            x = st.store.get(L)
            if isinstance(x, tuple) and x and x[0] in ('loc', 'obj', 'rd') and x[1] != L:
                L = x[1]
            elif isinstance(x, tuple) and x and x[0] == 'q':
                return x
            elif L[0] in ('refto', 'rd', 'loc'):
                L = L[1]
            else:
                return None
        return None

    def on_call(self, eng, st, call, obj, vs, e):
        n = call['n']
        m = n.rsplit('::', 1)[-1]
        l = e.get('l', 0)
        if n.startswith(READERS + ('joedb::Writable::', 'joedb::Database')) and obj is not None:
            w = self.whose(st, obj)
            args = tuple(self.ident(eng, st, v) for v in vs)
            if w == 'target' and re.match(r'(update|insert|delete|create|add|soft|hard|comment|timestamp|valid|rename|drop|custom|flush)', m):
                st.ev += (('event', m, args, l, st.copy()),)
                return [(st, ('void',))]
            if w is not None:
                if w == 'target':
                    q = ('q', 'target', m, args)
                    if m.startswith('get_own'):
                        st.ev += (('own', m, args, l),)
                elif w == 'source':
                    if m.startswith('get_own'):
                        args = args[:3]
                    q = ('q', m) + args
                else:
                    q = ('q', m, w) + args
                if m in REFS or m.startswith('get_') and (call.get('t') or e.get('t') or '').endswith('&'):
                    return [(st, ('loc', ('deref', q)))]
                if m.startswith('get_own'):
                    return [(st, ('loc', ('ptr', q, I(0))))]
                if m in ('is_used', 'is_dense'):
                    return [(st, q)]
                return [(st, q)]
            if m in ('soft_checkpoint', 'hard_checkpoint'):
                st.ev += (('event', m, args, l, st.copy()),)
                return [(st, ('void',))]
        if n.startswith('std::map<') and m in ('operator[]', 'at'):
            k = self.ident(eng, st, vs[0])
            return [(st, ('loc', ('ent', k)))]
        return None

    def on_iter(self, eng, loop, b, e):
        self.iters.setdefault(id(loop), (loop, []))[1].append((b.copy(), e.copy()))

    def on_loop_exit(self, eng, loop, before, kind, z):
        z.ev = (('exit', id(loop), before.copy(), z.copy()),) + z.ev


def norm(t):
    """offset[key] of the map, whichever way it was read, is ('off', key); a record id is its number"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'lin' and len(t) == 3:
        d = {}
        for k, c in t[1]:
            d = lin_add(d, lin(norm(k)), c)
        d[1] = d.get(1, 0) + t[2]
        return lin_make(d)
    if t[0] == 'rd' and len(t) == 3:
        L = t[1]
        if L[0] == 'fld' and L[2] == RID and L[1][0] == 'ent':
            return ('off', norm(L[1][1]))
        if L[0] == 'ent':
            return ('off', norm(L[1]))
        if L[0] == 'fld' and L[2] == RID and L[1][0] == 'deref':
            return norm(L[1][1])
        if L[0] == 'deref' and L[1][0] == 'q' and L[1][1] not in REFS and not str(L[1][1]).startswith('get_own'):
            return norm(L[1])
        if L[0] == 'fld' and L[2] == 'std::pair::first' and L[1][0] == 'idx':
            return ('item', norm(L[1][1]), L[1][2])
        return (t[0], norm_loc(L), t[2])
    if t[0] == 'fldof' and t[2] == RID:
        return norm(t[1])
    if t[0] == 'q':
        # asking the free list is asking the database
        if len(t) >= 3 and isinstance(t[2], tuple) and t[2][:2] == ('q', 'get_freedom') and t[1] in ('is_used', 'get_size', 'is_dense'):
            return ('q', t[1], norm(t[2][2])) + tuple(norm(x) for x in t[3:])
        if t[1] == 'get_freedom' and len(t) == 3:
            return ('q', 'get_freedom', norm(t[2]))
    return tuple(norm(x) if isinstance(x, tuple) else x for x in t)


def norm_loc(L):
    return tuple(norm(x) if isinstance(x, tuple) else x for x in L)


class Loop:
    def __init__(self, loop):
        self.loop = loop
        self.iters = []
        self.closed = False
        self.summary = None


class Mover(TransferRule):
    """proves that every used record of the source is inserted and updated in the target"""
    def __init__(self, db, source, target, files, names, shifted):
        super().__init__(source, target, files)
        self.db = db
        self.names = names                  # value -> name of the type of a field
        self.shifted = shifted              # records are stored after the existing ones
        self.cur = {}
        self.obl = []
        self.types = {}

    def ob(self, ok, key, msg, line, st=None):
        self.obl.append((bool(ok), key, msg, line))
        return bool(ok)

    def on_write(self, eng, st, L, v, node):
        if isinstance(L, tuple):
            if L[0] == 'ent' or L[0] == 'fld' and L[1][0] == 'ent':
                k = L[1] if L[0] == 'ent' else L[1][1]
                st.ev += (('setoff', norm(k), norm(self.ident(eng, st, v)), (node or {}).get('l', 0)),)
            else:
                M = L
                while isinstance(M, tuple) and M and M[0] in ('fld', 'idx'):
                    if M[0] == 'idx' and 'get_own' in str(M[1])[:200]:
                        st.ev += (('store', norm_loc(M), norm(self.ident(eng, st, v)), (node or {}).get('l', 0)),)
                        break
                    M = M[1]

    # ------------------------------------------------------------ loops
    def on_iter(self, eng, loop, b, e):
        c = self.cur.get(id(loop))
        if c is None or c.closed:
            c = self.cur[id(loop)] = Loop(loop)
        c.iters.append((b.copy(), e.copy()))

    def on_loop_exit(self, eng, loop, before, kind, z):
        c = self.cur.get(id(loop))
        if c is None:
            c = self.cur[id(loop)] = Loop(loop)
        if not c.closed:
            c.closed = True
            c.summary = self.summarize(eng, c)
        s = c.summary
        if s and s[0] == 'scan':
            _, V, what, tid, base = s
            a, t = eng.rd(before, V), eng.rd(z, V)
            z.ev = (('scan', what, tid, plus(base, norm(a)), plus(base, norm(t))),) + z.ev
        elif s and s[0] == 'records':
            _, V, tid = s
            z.ev = (('records', tid, norm(eng.rd(before, V)), norm(eng.rd(z, V))),) + z.ev
        elif s and s[0] == 'renumber':
            _, V, base, key = s
            z.ev = (('renumber', base, key, norm(eng.rd(before, V)), norm(eng.rd(z, V)), z.copy()),) + z.ev
        elif s:
            z.ev = (s,) + z.ev

    def direct(self, ev):
        return [x for x in ev if x[0] not in ('loop', 'exit')]

    def lin(self, eng, st, counts=()):
        return Lin(eng, self.normed(st), lambda t: isinstance(t, tuple) and t[:2] == ('q', 'get_size'), counts)

    def normed(self, st):
        x = st.copy()
        x.facts = {norm(a) if isinstance(a, tuple) else a: v for a, v in st.facts.items()}
        return x

    def counters(self, eng, b, e):
        out = []
        for V in list(e.store):
            if V[0] in ('var', 'fld') and (V[0] == 'var' or V[1][0] == 'var' and V[2] == RID):
                h, t = norm(eng.rd(b, V)), norm(e.store[V])
                try:
                    if h[0] in ('phi', 'rd') and minus(t, h) == I(1):
                        out.append((V, h))
                except Exception:
                    pass
        return out

    def used_facts(self, st):
        for a, v in st.facts.items():
            if isinstance(a, tuple) and a[0] == 'nz':
                q = norm(a[1])
                if isinstance(q, tuple) and q[:2] == ('q', 'is_used') and len(q) == 4:
                    yield q[2], q[3], v

    def summarize(self, eng, c):
        l = c.loop.get('l', 0)
        D = [(b, e, self.direct(e.ev)) for b, e in c.iters]
        if not D:
            return None
        kinds = {x[0] for _, _, d in D for x in d}
        names = {x[1] for _, _, d in D for x in d if x[0] == 'event'}
        if any(n.startswith('insert') for n in names) and 'tables' not in kinds:
            over_tables = self.item(D[0][1], 'get_tables', D[0][0])
            return self.table_loop(eng, c, D, l) if over_tables else self.record_loop(eng, c, D, l)
        if any(n.startswith('update') for n in names) or 'renumber' in kinds:
            return self.field_loop(eng, c, D, l)
        if 'store' in kinds:
            return self.renumber_loop(eng, c, D, l)
        if 'setoff' in kinds:
            return self.offset_loop(eng, c, D, l)
        if 'records' in kinds:
            return self.table_loop(eng, c, D, l)
        if not kinds:
            return self.scan_loop(eng, c, D, l)
        return None

    def item(self, st, what, b=None):
        """the element of the list of tables or fields that this iteration deals with"""
        out = set()
        def look(t):
            if isinstance(t, tuple):
                if t and t[0] == 'idx' and len(t) == 3 and isinstance(t[2], tuple) and t[2][:2] == ('sym', 'item') and what in str(t[1])[:60]:
                    out.add(('item', norm(t[1]), t[2]))
                for x in t:
                    look(x)
        for v in st.store.values():
            look(v)
        if b is not None:
            old = self.item(b, what)
            out -= old
        return out

    def scan_loop(self, eng, c, D, l):
        found = None
        for b, e, d in D:
            here = set()
            for V, h in self.counters(eng, b, e):
                for tid, x, v in self.used_facts(e):
                    try:
                        base = minus(x, h)
                    except Exception:
                        continue
                    if str(h) not in str(base):
                        here.add((V, 'used' if v else 'unused', tid, base))
            found = here if found is None else {x for x in found if any(x[:3] == y[:3] and x[3] == y[3] for y in here)}
        if found:
            return ('scan',) + sorted(found, key=repr)[0]
        return None

    def widths(self, d):
        return [le(x[3], x[4]) for x in d if x[0] == 'scan']

    def cover(self, eng, e, d, start, inserts):
        """records from start on that are inserted or unused; returns the first one after them"""
        L = self.lin(eng, e, self.widths(d))
        cur = start
        tid = None
        rest = [x for x in d if x[0] == 'scan'] + inserts
        moved = True
        facts = list(self.used_facts(e))
        while moved:
            moved = False
            for x in list(rest):
                if x[0] == 'scan' and x[1] == 'unused' and L.eq(x[3], cur):
                    cur, tid = x[4], x[2]
                    rest.remove(x)
                    moved = True
                    break
                if x[0] == 'ins' and L.eq(x[2], cur):
                    cur, tid = plus(x[2], x[3]), x[1]
                    rest.remove(x)
                    moved = True
                    break
            if not moved and not any(x[0] == 'ins' for x in rest):
                for t, x, v in facts:
                    if v is False and L.eq(x, cur) and not any(y[0] == 'scan' for y in d):
                        cur, tid = plus(cur, I(1)), t
                        facts = []
                        moved = True
                        break
        return cur, tid, [x for x in rest if x[0] == 'ins']

    def progress(self, eng, e, d, h, t):
        """the iteration goes at least one record further, or cannot happen"""
        L = self.lin(eng, e, self.widths(d))
        if L.le(plus(h, I(1)), t):
            return True
        f = list(self.used_facts(e))
        return any(a[0] == b[0] and a[2] is True and b[2] is False and L.eq(a[1], b[1]) for a in f for b in f)

    def inserts(self, eng, e, d, l):
        """insertions of this iteration, in terms of records of the source, each checked to be of used records and followed by all fields"""
        out = []
        for i, x in enumerate(d):
            if x[0] != 'event' or not x[1].startswith('insert'):
                continue
            args = [norm(a) for a in x[2]]
            tid, P = args[0], args[1]
            n = args[2] if len(args) > 2 else I(1)
            if self.shifted:
                P = minus(P, ('off', tid))
            L = self.lin(eng, e)
            ok = any(y[0] == 'scan' and y[1] == 'used' and y[2] == tid and L.eq(y[3], P) and L.eq(y[4], plus(P, n)) for y in d)
            ok = ok or L.eq(n, I(1)) and any(t == tid and v is True and L.eq(q, P) for t, q, v in self.used_facts(e))
            dense = any(isinstance(a, tuple) and a[0] == 'nz' and norm(a[1])[:3] == ('q', 'is_dense', tid) and v is True for a, v in e.facts.items())
            ok = ok or dense and L.eq(P, I(0)) and L.eq(n, ('q', 'get_size', tid))
            self.ob(ok, 'used', 'inserts records that are not known to be the used ones', x[3])
            f = [y for y in d[i + 1:] if y[0] == 'fields' and y[1] == tid]
            self.ob(any(L.eq(y[2], args[1]) and L.eq(y[3], n) for y in f), 'fields', 'the fields of the records inserted are not all copied', x[3])
            out.append(('ins', tid, P, n))
        return out

    def record_loop(self, eng, c, D, l):
        V = None
        tids = set()
        for b, e, d in D:
            ins = self.inserts(eng, e, d, l)
            cand = [W for W in e.store if (W[0] == 'fld' and W[1][0] == 'var' and W[2] == RID) or W[0] == 'var']
            good = []
            for W in cand:
                h = norm(eng.rd(b, W))
                if h[0] not in ('phi', 'rd', 'i', 'lin'):
                    continue
                try:
                    end, tid, left = self.cover(eng, e, d, h, ins)
                    t = norm(eng.rd(e, W))
                    if not left and self.lin(eng, e, self.widths(d)).eq(end, t):
                        good.append((W, tid))
                except Exception:
                    continue
            good = [(W, t) for W, t in good if self.progress(eng, e, d, norm(eng.rd(b, W)), norm(eng.rd(e, W)))]
            V = set(W for W, _ in good) if V is None else V & set(W for W, _ in good)
            tids |= {t for W, t in good if t is not None}
        self.ob(V, 'advance', 'the loop over records may go past a used record without inserting it, insert one twice, or never end', l)
        if not V:
            return None
        V = sorted(V, key=lambda W: (W[0] != 'fld', repr(W)))[0]
        tids = {t for t in tids if t}
        self.ob(len(tids) == 1, 'one table', 'one loop over records deals with %d tables' % len(tids), l)
        return ('records', V, sorted(tids, key=repr)[0]) if tids else None

    def type_of(self, eng, e, tid, fid):
        q = ('q', 'get_type_id', ('q', 'get_field_type', tid, fid))
        no = set()
        for a, v in e.facts.items():
            if not isinstance(a, tuple):
                continue
            a = norm(a)
            if a[0] == 'bnd' and a[1] == q and v[0] == v[1]:
                return v[0], no
            if a[0] == 'op' and a[1] == '==' and q in a and v is True:
                return next(x[1] for x in a[2:] if x != q), no
            if a[0] == 'ne' and a[1] == q and v:
                no.add(a[2])
        return None, no

    def field_loop(self, eng, c, D, l):
        key = None
        handled = set()
        for b, e, d in D:
            fids = self.item(e, 'get_fields', b)
            if not self.ob(len(fids) == 1, 'one field', 'one iteration deals with %d fields' % len(fids), l):
                continue
            fid = next(iter(fids))
            ev = [x for x in d if x[0] == 'event']
            ren = [x for x in d if x[0] == 'renumber']
            tid = None
            m = re.match(r"\('item', \('deref', \('q', 'get_fields', ", repr(fid))
            if fid[1][0] == 'deref' and fid[1][1][1] == 'get_fields':
                tid = fid[1][1][2]
            elif fid[1][0] == 'deref' and fid[1][1][1] == 'target':
                tid = fid[1][1][3][0]
            t, no = self.type_of(eng, e, tid, fid)
            if t is None:
                # the type is none of those of the switch
                self.ob(not ev and set(self.names) <= no, 'switch', 'a field whose type is not known is copied', l)
                continue
            name = self.names.get(t)
            handled.add(name)
            if name == 'null':
                self.ob(not ev, 'null', 'a field without type is copied', l)
                continue
            if not self.ob(len(ev) == 1, 'one update', 'a field of type %s is copied %d times' % (name, len(ev)), l):
                continue
            _, m, args, line, s = ev[0]
            args = [norm(a) for a in args]
            vec = m.startswith('update_vector_')
            self.ob(m == ('update_vector_' if vec else 'update_') + name, 'type', '%s is used for a field of type %s' % (m, name), line)
            P = args[1]
            n = args[3] if vec else I(1)
            val = args[-1]
            R = minus(P, ('off', tid)) if self.shifted else P
            L = self.lin(eng, e)
            self.ob(args[0] == tid and args[2] == fid, 'same field', '%s copies to another table or field' % m, line)
            src = ('q', 'get_' + name, tid, R, fid)
            own = ('loc', ('ptr', ('q', 'get_own_%s_const_storage' % name, tid, R, fid), I(0)))
            if name == 'reference' and self.shifted and not vec:
                off = ('off', ('q', 'get_table_id', ('q', 'get_field_type', tid, fid)))
                null = [v for a, v in e.facts.items() if isinstance(a, tuple) and norm(a) == ('op', '<', src, I(0))]
                good = null == [False] and val == plus(src, off) or null == [True] and val == src
                self.ob(good, 'reference', 'a reference is not moved along with the record it refers to, or a null reference is changed', line)
            else:
                self.ob(self.same(val, src) or self.same(val, own) and vec, 'value', '%s stores %s instead of the value of the same record and field' % (m, show(val)), line)
            if name == 'reference' and self.shifted and vec:
                ok = False
                for r in ren:
                    Lr = self.lin(eng, r[5])
                    ok = ok or r[1][3][:3] == (tid, P, fid) and r[2] == ('off', ('q', 'get_table_id', ('q', 'get_field_type', tid, fid))) and Lr.eq(r[3], I(0)) and Lr.le(n, r[4])
                self.ob(ok, 'references', 'references are not all moved along with the records they refer to', line)
            k = (tid, P, n)
            if key is None:
                key = k
            else:
                self.ob(key[0] == k[0] and L.eq(key[1], k[1]) and L.eq(key[2], k[2]), 'same records', '%s copies to other records' % m, line)
        self.ob(handled == set(self.names.values()), 'all types', 'fields of type %s are not copied' % ', '.join(sorted(set(self.names.values()) - handled)), l)
        return ('fields',) + key if key else None

    def same(self, v, src):
        if v == src:
            return True
        return isinstance(v, tuple) and v[0] in ('loc', 'rd') and self.strip(v) == self.strip(src)

    def strip(self, v):
        while isinstance(v, tuple) and v and v[0] in ('loc', 'ptr', 'deref', 'rd'):
            v = v[1]
        if isinstance(v, tuple) and v[0] == 'q':
            return tuple(norm(x) for x in v)
        return v

    def renumber_loop(self, eng, c, D, l):
        V = base = key = None
        for b, e, d in D:
            cs = self.counters(eng, b, e)
            if not self.ob(len(cs) == 1, 'index', 'the references are not visited one after the other', l):
                return None
            V, i = cs[0]
            st = [x for x in d if x[0] == 'store']
            el = [a for a, v in e.facts.items() if isinstance(a, tuple) and a[0] == 'op' and a[1] == '<' and a[3] == I(0) and 'get_own_reference_storage' in str(a)]
            el = [a for a in el if str(i) in str(norm(a[2]))]
            if not self.ob(len(el) == 1, 'null test', 'a reference is moved without looking whether it is null', l):
                return None
            old = norm(el[0][2])
            null = e.facts[el[0]]
            q = [t for t in subterms(old) if t[:3] == ('q', 'target', 'get_own_reference_storage')]
            if not q:
                return None
            base = q[0]
            if null:
                self.ob(not st, 'null', 'a null reference is changed', l)
                continue
            if self.ob(len(st) == 1, 'moved', 'a reference is not moved', l):
                new = st[0][2]
                try:
                    k = minus(new, old)
                except Exception:
                    k = None
                self.ob(k and k[0] == 'off', 'moved by', 'a reference is not moved by the offset of the table it refers to', st[0][3])
                self.ob(str(i) in str(st[0][1]), 'moved where', 'another reference is changed', st[0][3])
                key = k
        return ('renumber', V, base, key) if key else None

    def offset_loop(self, eng, c, D, l):
        good = True
        for b, e, d in D:
            items = self.item(e, 'get_tables', b)
            st = [x for x in d if x[0] == 'setoff']
            good &= self.ob(len(items) == 1 and len(st) == 1 and st[0][1] == next(iter(items)) and st[0][2] == ('q', 'target', 'get_size', (st[0][1],)), 'offset', 'the offset of a table is not its number of records before merging', l)
        return ('offsets',) if good else None

    def table_loop(self, eng, c, D, l):
        for b, e, d in D:
            items = self.item(e, 'get_tables', b)
            if not self.ob(len(items) == 1, 'one table', 'one iteration deals with %d tables' % len(items), l):
                continue
            tid = next(iter(items))
            L = self.lin(eng, e)
            size = ('q', 'get_size', tid)
            ins = self.inserts(eng, e, d, l)
            rec = [x for x in d if x[0] == 'records' and x[1] == tid]
            ok = L.le(size, I(0)) or any(isinstance(a, tuple) and norm(a) == ('nz', size) and v is False for a, v in e.facts.items())
            ok = ok and not ins and not rec or len(ins) == 1 and not rec and ins[0][1] == tid and L.eq(ins[0][2], I(0)) and L.eq(ins[0][3], size) or len(rec) == 1 and not ins and L.eq(rec[0][2], I(0)) and L.le(size, rec[0][3])
            self.ob(ok, 'all records', 'not every used record of a table is copied', l)
        return ('tables',)


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from subterms(x)


def show(t):
    return term(t) if isinstance(t, tuple) else str(t)


def move(ctx, db, name, n, source, target, files, shifted):
    f = db.fn(name, n)
    names = {v: k for k, v in db.enum('joedb::Type::Type_Id')['items']}
    rule = Mover(db, source, target, files + ('joedb/index_types.h',), names, shifted)
    eng = Engine(db, rule)
    outs = eng.run(f, None, None)
    ctx.use(f)
    ctx.use_engine(eng)
    short = name.split('::')[-1]
    seen = set()
    for ok, key, msg, line in rule.obl:
        where = '%s:%s %s' % (rel(f['file']), line, short)
        if ok:
            ctx.ok('%s:%s:%s' % (short, key, line))
        elif (key, line) not in seen:
            seen.add((key, line))
            ctx.bad('%s:%s' % (short, key), where, msg)
    return f, rule, eng, outs, short


@check('P02', parts=('src',), floor=50,
       rule='dump_data and merge interpreted with the source database as uninterpreted queries; one arbitrary iteration of every loop is summarised (records scanned, records inserted, fields copied), and the summaries are chained: every used record of every table is inserted exactly once and each of its fields is copied',
       trusted=['tables and fields are enumerated completely by get_tables() and get_fields()', 'both databases given to merge have the same schema (checked by joedb_merge)'])
def p02(ctx):
    db = ctx.db
    f, rule, eng, outs, s = move(ctx, db, 'joedb::dump_data', 2, 'db', 'writable', ('ui/dump.cpp',), False)
    for o in outs:
        if o.k == T:
            continue
        d = [x for x in o.st.ev if x[0] not in ('loop', 'exit')]
        i = [j for j, x in enumerate(d) if x[0] == 'tables']
        ctx.require(len(i) == 1, s + ':tables', f, 'the tables are not all copied exactly once', 'all tables copied')
        ctx.require(i and any(x[0] == 'event' and x[1] in ('soft_checkpoint', 'hard_checkpoint') for x in d[i[0] + 1:]), s + ':checkpoint', f, 'no checkpoint after the data', 'a checkpoint follows the data')
    f, rule, eng, outs, s = move(ctx, db, 'joedb::merge', 2, 'db', 'merged', ('ui/merge.cpp',), True)
    for o in outs:
        if o.k == T:
            continue
        d = [x[0] for x in o.st.ev if x[0] not in ('loop', 'exit', 'own')]
        ctx.require(d == ['offsets', 'tables'], s + ':tables', f, 'the offsets of all tables are not computed before any record is merged, or the tables are not all merged once: %s' % d, 'offsets first, then all tables')


    # pack: the whole input is replayed before its data is copied, and blobs are refused before anything is copied
    f = db.fn('joedb::pack', 2)

    class Pack(Rule):
        max_states = 2000

        def inline(self, eng, g):
            return False

        def may_throw(self, eng, name, node):
            return False

        def models(self, name):
            return name.startswith(('joedb::', 'std::'))

        def on_call(self, eng, st, call, obj, vs, e):
            m = call['n'].rsplit('::', 1)[-1]
            if m in ('has_blobs', 'dump_data', 'dump') or m.endswith('play_until_checkpoint'):
                st.ctr += 1
                q = ('q', m, st.ctr)
                st.ev += ((m, q),)
                return [(st, q)]
            return None

    eng = Engine(db, Pack())
    ctx.use(f)
    n = 0
    for o in eng.run(f, None, None):
        d = [x for x in flat(o.st.ev) if x[0] in ('has_blobs', 'dump_data', 'dump') or str(x[0]).endswith('play_until_checkpoint')]
        k = [x[0] for x in d]
        blobs = [o.st.facts.get(('nz', x[1])) for x in d if x[0] == 'has_blobs']
        if o.k == T:
            ctx.require('dump_data' not in k, 'pack:order', f, 'data was copied to the packed file before it is given up', 'no data before giving up')
            continue
        n += 1
        ctx.require(len(k) == 3 and k[0].endswith('play_until_checkpoint') and k[1:] == ['has_blobs', 'dump_data'] and blobs == [False], 'pack:order', f,
                    'a file is packed without replaying all of it first, or although it has blobs, whose contents are lost: %s' % k, 'replay, no blobs, copy')
    ctx.require(n, 'pack:some', f, 'no path packs a file', 'packs')

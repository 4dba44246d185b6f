"""D03: relays of journal events (Multiplexer, Selective_Writable, defaults of Writable)"""
from jsa.corpus import AnalysisError
from jsa.engine import Engine
from jsa.runner import check
from checks.common import sizes, DEEP, N, R, T, I, Rule, flat, trace
from checks.compiled import strip, show, arg, CompiledRule
from checks.buffers import plus

W = 'joedb::Writable::'
MX = 'joedb::Multiplexer'
SW = 'joedb::Selective_Writable'
SCHEMA = ('create_table', 'drop_table', 'rename_table', 'add_field', 'drop_field', 'rename_field', 'custom')
INFO = ('comment', 'timestamp', 'valid_data')
ALWAYS = ('start_writing', 'end_writing', 'soft_checkpoint', 'hard_checkpoint')
ASK = ('get_position', 'wants_blob_data', 'write_blob')


class RelayRule(Rule):
    merge = False
    loop_unroll = 6 + DEEP
    wraps = ('joedb::Record_Id::id',)

    own = ()

    def __init__(self, cls, count=1):
        self.cls, self.count = cls, count

    def inline(self, eng, f):
        return f['n'].startswith((W, self.cls + '::', 'joedb::Record_Id::', 'joedb::to_underlying'))

    def models(self, name):
        return name.startswith('std::')

    def may_throw(self, eng, name, node):
        return False

    def ident(self, eng, st, v):
        return CompiledRule.ident(self, eng, st, v)

    def dyn_class(self, eng, st, L):
        return self.cls if L == ('this',) else None

    def target(self, st, L):
        for _ in range(12):
            if not isinstance(L, tuple) or not L:
                return None
            if L[0] == 'ent':
                return L[1]
            if L[0] == 'fld' and L[2].endswith('::writable'):
                return 'writable'
            x = st.store.get(L)
            if isinstance(x, tuple) and x and x[0] in ('loc', 'obj', 'rd') and x[1] != L:
                L = x[1]
            elif len(L) > 1 and L[0] in ('refto', 'fld', 'var', 'ptr', 'elem0', 'deref', 'loc', 'rd'):
                L = L[1]
            else:
                return None
        return None

    def on_call(self, eng, st, call, obj, vs, e):
        n = call['n']
        m = n.rsplit('::', 1)[-1]
        if n.startswith('std::vector<') and m == 'size':
            return [(st, I(self.count))]
        if n.startswith('std::vector<') and m in ('operator[]', 'at'):
            i = self.ident(eng, st, vs[0])
            return [(st, ('loc', ('ent', i)))]
        if n.startswith('std::reference_wrapper') and (m in ('get', 'operator()') or '::operator ' in n) and obj is not None:
            t = self.target(st, obj)
            return [(st, ('loc', ('ent', t if t is not None else 'each')))]
        if n.startswith(W) and obj == ('this',) and m in self.own:
            st.ev += (('event', 'self', m, tuple(self.ident(eng, st, v) for v in vs)),)
            return [(st, ('void',))]
        if n.startswith(W) and obj is not None and obj != ('this',):
            t = self.target(st, obj)
            a = tuple(self.ident(eng, st, v) for v in vs)
            st.ev += (('event', t, m, a),)
            if m == 'wants_blob_data':
                z = st.copy()
                st.ev += (('wants', True),)
                z.ev += (('wants', False),)
                return [(st, I(1)), (z, I(0))]
            return [(st, ('answer', t, m))]
        return None


def events(db):
    """the virtual member functions of Writable"""
    out = []
    for mt in db.cls('joedb::Writable')['methods']:
        n = mt['n']
        if (mt.get('virt') or mt.get('pure')) and not mt.get('kind') and not n.startswith('~'):
            out.append((n, mt))
    return out


def run(ctx, cls, mt, count, args=None, setup=None, own=()):
    db = ctx.db
    f = db.functions[db.resolve_virtual(mt['f'], cls)]
    rule = RelayRule(cls, count)
    rule.own = own
    eng = Engine(db, rule)
    outs = eng.run(f, setup, cls, args=args)
    ctx.use(f)
    ctx.use_engine(eng)
    return f, eng, rule, outs


def split(f, m, a, size):
    """the events on single records that stand for a vector event"""
    if m.startswith('update_vector_'):
        v = a[4]
        return [('update_' + m[14:], (a[0], plus(a[1], I(j)), a[2]), j) for j in range(size)]
    if m in ('insert_vector', 'delete_vector'):
        return [('insert_into' if m[0] == 'i' else 'delete_from', (a[0], plus(a[1], I(j))), None) for j in range(size)]
    return None


def relayed(ctx, f, key, m, eng, rule, o, targets, size=None):
    ev = [x for x in flat(o.st.ev) if x[0] == 'event']
    a = tuple(arg(f, i) for i in range(len(f['ps'])))
    if size is not None:
        k = 2 if m in ('insert_vector', 'delete_vector') else 3
        a = a[:k] + (I(size),) + a[k + 1:]
    tr = trace(o.st.ev)
    same = lambda x, y: len(x) == len(y) and all(p == q or (isinstance(p, tuple) and p[:1] == ('rd',) and p[1:2] == (('param', q[1]),)) for p, q in zip(x, y))
    for t in targets:
        got = [(x[2], x[3]) for x in ev if x[1] == t]
        ok = len(got) == 1 and got[0][0] == m and same(got[0][1], a)
        if not ok and size is not None:
            want = split(f, m, a, size)
            if m == 'delete_vector':
                got = sorted(got, key=repr)
                want = sorted(want, key=repr)
            ok = len(got) == len(want) and all(g[0] == w[0] and g[1][:len(w[1])] == w[1] and (w[2] is None or element(g[1][len(w[1])], w[2], f['ps'][4]['n'])) for g, w in zip(got, want))
        ctx.require(ok and o.k != T, key, f, 'the event is not passed on exactly once with its arguments to %s: %s' % (t, show(got)), '%s to %s' % (key, t), trace=tr)
    ctx.require(all(x[1] in targets for x in ev), key + ':extra', f, 'the event is passed to another listener', trace=tr)


def element(v, j, p):
    """is v the element j of the vector p?"""
    v = strip(v)
    if not (isinstance(v, tuple) and v[:1] in (('rd',), ('loc',), ('obj',))):
        return False
    L = v[1]
    if L[0] == 'idx':
        return L[2] == I(j) and p in str(L[1])
    if L[0] == 'ptr':
        return L[2] == I(j) and p in str(L[1])
    return j == 0 and p in str(L)


@check('D03', parts=('src',), floor=300,
       rule='every virtual member function of joedb::Writable, as resolved in Multiplexer and Selective_Writable (default implementations included), interpreted over every path: which listeners get which event with which arguments; 0 to 3 listeners, every mode, vectors of 0 to 2 records')
def d03(ctx):
    db = ctx.db
    evs = events(db)
    ctx.require(len(evs) >= 40, 'events', 'src/joedb/Writable.h', 'the list of events has not been understood (%d)' % len(evs))
    start = ('fld', ('this',), MX + '::start_index')
    for m, mt in evs:
        own = m.startswith('get_own_')
        vec = m in ('insert_vector', 'delete_vector') or m.startswith('update_vector_')
        if m in ASK or own:
            continue
        pos = 2 if m in ('insert_vector', 'delete_vector') else 3
        for count in sizes(ctx, 4):
            for first in (0, 1):
                for size in ((0, 2) if vec else (None,)):
                    def setup(eng, st, L, vs):
                        st.store[start] = I(first)
                    f, eng, rule, outs = run(ctx, MX, mt, count, None if size is None else {pos: I(size)}, setup)
                    for o in outs:
                        relayed(ctx, f, 'multiplexer:' + m, m, eng, rule, o, [I(i) for i in range(first, count)], size)
                    ctx.require(outs, 'multiplexer:' + m, f, 'never returns')
    for m, mt in evs:
        if m not in ASK:
            continue
        f, eng, rule, outs = run(ctx, MX, mt, 2)
        for o in outs:
            ev = flat(o.st.ev)
            tr = trace(o.st.ev)
            if m == 'write_blob':
                for n, x in enumerate(ev):
                    if x[0] == 'wants' and x[1]:
                        ctx.require(n + 1 < len(ev) and ev[n + 1][:3] == ('event', ev[n - 1][1], m) and ev[n + 1][3] in ((arg(f, 0),), (('rd', ('param', f['ps'][0]['n']), 0),)), 'multiplexer:' + m, f, 'a listener that wants the data of blobs does not get them', m, trace=tr)
                    elif x[0] == 'event' and x[2] == m:
                        ctx.require(n and ev[n - 1] == ('wants', True), 'multiplexer:%s:unwanted' % m, f, 'blob data are given to a listener that does not want them', trace=tr)
            elif m == 'wants_blob_data':
                v = rule.ident(eng, o.st, o.v)
                if v == I(0):
                    ctx.require(not any(x == ('wants', True) for x in ev), 'multiplexer:' + m, f, 'blob data are not wanted though a listener wants them', m, trace=tr)
                else:
                    ctx.require(v == I(1) and any(x == ('wants', True) for x in ev), 'multiplexer:' + m, f, 'blob data are wanted though no listener wants them', m, trace=tr)
            else:
                ctx.require(any(x[0] == 'event' and x[2] == m for x in ev) or rule.ident(eng, o.st, o.v) == I(0), 'multiplexer:' + m, f, 'listeners are not asked', m, trace=tr)
    mode = ('fld', ('this',), SW + '::mode')
    names = dict(db.enum(SW + '::Mode')['items'])
    for k, v in (('schema', 1), ('data', 2), ('information', 4), ('data_and_schema', 3), ('data_and_information', 6), ('all', 7)):
        ctx.require(names.get(k) == v, 'mode:' + k, 'src/joedb/Selective_Writable.h', 'the mode %s is %s' % (k, names.get(k)), 'Mode::' + k)
    for m, mt in evs:
        if m in ASK or m.startswith('get_own_') or m in ('flush', 'on_blob'):
            continue
        vec = m in ('insert_vector', 'delete_vector') or m.startswith('update_vector_')
        pos = 2 if m in ('insert_vector', 'delete_vector') else 3
        bit = 1 if m in SCHEMA else 4 if m in INFO else 2 if m not in ALWAYS else 7
        for val in range(1, 8):
            for size in ((0, 2) if vec else (None,)):
                def setup(eng, st, L, vs):
                    st.store[mode] = I(val)
                f, eng, rule, outs = run(ctx, SW, mt, 1, None if size is None else {pos: I(size)}, setup)
                for o in outs:
                    relayed(ctx, f, 'selective:' + m, m, eng, rule, o, ['writable'] if val & bit else [], size)
                ctx.require(outs, 'selective:' + m, f, 'never returns')
    # default implementation of vectors
    for m, mt in evs:
        if m in ('insert_vector', 'delete_vector') or m.startswith('update_vector_'):
            pos = 2 if m in ('insert_vector', 'delete_vector') else 3
            for size in sizes(ctx, 4):
                f, eng, rule, outs = run(ctx, 'joedb::Loop_Writable', mt, 1, {pos: I(size)}, None, ('insert_into', 'delete_from', 'update_' + m[14:]))
                for o in outs:
                    relayed(ctx, f, 'default:' + m, m, eng, rule, o, ['self'], size)

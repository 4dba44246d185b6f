"""D08: the free list (joedb::Freedom_Keeper)"""
from jsa.corpus import AnalysisError
from jsa.engine import Engine
from jsa.runner import check
from checks.common import sizes, DEEP, N, R, T, I, Rule, flat, const, trace
from checks.compiled import strip, show, lin_of, arg, CompiledRule
from checks.buffers import plus

LFK = 'joedb::List_Freedom_Keeper::'
DFK = 'joedb::Dense_Freedom_Keeper::'
FK = 'joedb::Freedom_Keeper::'
FREE, USED = I(-1), I(-2)


def canon(v):
    v = strip(v)
    if isinstance(v, tuple) and v[:1] == ('rd',) and isinstance(v[1], tuple) and v[1][0] == 'g':
        return FREE if v[1][1].endswith('::free_list') else USED if v[1][1].endswith('::used_list') else v
    return v


class FreedomRule(Rule):
    merge = False
    loop_unroll = 6 + DEEP
    max_states = 20000
    wraps = ('joedb::Record_Id::id',)
    keepers = ()                # classes whose methods are not followed

    def inline(self, eng, f):
        return f['n'].startswith(('joedb::Record_Id::', 'joedb::to_underlying', LFK, DFK, FK, 'joedb::List_Data::', 'joedb::Freedom_Keeper_Constants')) and f['n'] not in ('joedb::List_Data::resize_vector',)

    def models(self, name):
        m = name.rsplit('::', 1)[-1]
        return name.startswith(self.keepers) if self.keepers and name.startswith(self.keepers) else m in ('is_free_f', 'next_f', 'previous_f', 'resize_vector')

    def may_throw(self, eng, name, node):
        return False

    def ident(self, eng, st, v):
        return canon(CompiledRule.ident(self, eng, st, v))

    def on_call(self, eng, st, call, obj, vs, e):
        m = call['n'].rsplit('::', 1)[-1]
        a = tuple(self.ident(eng, st, v) for v in vs)
        if self.keepers and call['n'].startswith(self.keepers):
            who = 'list' if call['n'].startswith(LFK) else 'dense'
            have = st.store.get(('ghost', who))
            if who == 'list' and m == 'resize' and have and have[0] == 'i' and a[0][0] == 'i' and a[0][1] - have[1] < 16:
                # as many new records
                for _ in range(have[1], a[0][1]):
                    st.ev += ((who, 'push_back', ()),)
                st.store[('ghost', who)] = I(max(have[1], a[0][1]))
                return [(st, ('void',))]
            st.ev += ((who, m, a),)
            if m in ('size', 'get_size'):
                k = ('ghost', who)
                return [(st, st.store.setdefault(k, ('size', who)))]
            if m == 'push_back' and ('ghost', who) in st.store:
                st.store[('ghost', who)] = plus(st.store[('ghost', who)], I(1))
                if SIZE in st.store:
                    st.store[SIZE] = plus(st.store[SIZE], I(1))
            if m == 'get_used_count' and ('ghost', 'count') in st.store and who == 'dense':
                return [(st, st.store[('ghost', 'count')])]
            if who == 'dense' and m in ('use', 'free', 'use_vector', 'free_vector'):
                z = st.copy()
                st.ev += (('done', True),)
                z.ev += (('done', False),)
                return [(st, I(1)), (z, I(0))]
            return [(st, ('answer', who, m, a))]
        if m in ('is_free_f', 'next_f', 'previous_f'):
            L = ('fld', ('ent', m[:-2], a[0]), 'x')
            if call['n'].startswith('joedb::List_Data') and call.get('cm') and L not in st.store:
                if m == 'is_free_f':
                    z = st.copy()
                    z.store[L], st.store[L] = I(0), I(1)
                    return [(st, I(1)), (z, I(0))]
                return [(st, ('cell', m[:-2], a[0]))]
            if call.get('cm'):
                return [(st, st.store[L])]
            return [(st, ('loc', L))]
        if m == 'resize_vector':
            st.ev += (('resize', a[0]),)
            st.store[SIZE] = a[0]
            return [(st, ('void',))]
        return None


SIZE = ('fld', ('this',), 'joedb::List_Data::freedom_size')
COUNT = ('fld', ('this',), LFK + 'used_count')


def cell(kind, n):
    return ('fld', ('ent', kind, n), 'x')


class Lists:
    """the doubly-linked lists of List_Freedom_Keeper, as abstract nodes"""

    def __init__(self, ctx):
        self.ctx, self.db = ctx, ctx.db

    def run(self, f, cells, args=None, size=None):
        rule = FreedomRule()
        eng = Engine(self.db, rule)

        def setup(eng, st, L, vs):
            for k, v in cells.items():
                st.store[cell(*k)] = v
                for n in (k[1], v):
                    if n[0] == 'node':
                        eng.set_bound(st, n, 0, None)
            st.store[SIZE] = size or ('size', 'list')
            st.store[COUNT] = ('count',)
        outs = eng.run(f, setup, 'joedb::List_Freedom_Keeper', args=args)
        self.ctx.use(f)
        self.ctx.use_engine(eng)
        return eng, rule, outs

    def cells(self, eng, rule, st):
        out = {}
        for L, v in st.store.items():
            if L[0] == 'fld' and isinstance(L[1], tuple) and L[1][:1] == ('ent',):
                v = rule.ident(eng, st, v)
                out[L[1][1], L[1][2]] = v
            elif L[0] == 'fld' and isinstance(L[1], tuple) and L[1][:1] == ('fld',) and L[2].endswith('::id') and L[1][1][:1] == ('ent',):
                out.setdefault((L[1][1][1], L[1][1][2]), strip(v))
        return out

    def moved(self, f, key, before, i, src, dst, flag, delta):
        """node i leaves the list of sentinel src (or none), and enters the list of sentinel dst"""
        ctx = self.ctx
        eng, rule, outs = self.run(f, before, {} if src is None else {0: i}, i if src is None else None)
        for o in outs:
            tr = trace(o.st.ev)
            after = self.cells(eng, rule, o.st)
            want = {k: v for k, v in before.items()}
            if src is not None:
                p, n = before['previous', i], before['next', i]
                want['next', p], want['previous', n] = n, p
            want['is_free', i] = I(flag)
            pairs = [(k[1], v) for k, v in want.items() if k[0] == 'next' and k[1] != i and v != i]
            pairs = [(a, b) for a, b in pairs if want.get(('previous', b)) == a and (a, b) in self.adjacent(before, dst)]
            ok = False
            for a, b in pairs:
                w = dict(want)
                w['next', a], w['previous', b], w['previous', i], w['next', i] = i, i, a, b
                ok = ok or all(after.get(k) == v for k, v in w.items()) and not [k for k in after if k not in w]
            ctx.require(ok, key + ':links', f, 'the lists are damaged when a record moves to another list: %s' % show(sorted(x for x in after.items() if want.get(x[0]) != x[1])), '%s with %s' % (key, show(sorted(before.items()))), trace=tr)
            c = rule.ident(eng, o.st, o.st.store.get(COUNT))
            cs = [strip(v) for L, v in o.st.store.items() if L[0] == 'fld' and L[1] == COUNT]
            ctx.require(plus(('count',), I(delta)) in [c] + cs, key + ':count', f, 'the number of used records becomes wrong: %s' % show(c), trace=tr)
        ctx.require(outs, key, f, 'never returns')
        return eng, rule, outs

    def adjacent(self, cells, s):
        out, a = [], s
        for _ in range(6):
            b = cells.get(('next', a))
            if b is None:
                break
            out.append((a, b))
            if b == s:
                return out
            a = b
        # unknown part in the middle
        a = s
        for _ in range(6):
            b = cells.get(('previous', a))
            if b is None or b == s:
                break
            if (b, a) not in out:
                out.append((b, a))
            a = b
        return out


def around(s, i=None):
    """possible shapes of the list of sentinel s: around its element i, and at its ends"""
    def link(*nodes):
        d = {}
        for a, b in zip(nodes, nodes[1:]):
            d['next', a] = b
            d['previous', b] = a
        return d
    n = lambda x: ('node', x, s)
    if i is None:
        yield link(s, s)
        yield link(s, n('a'), s)
        yield {**link(s, n('a')), **link(n('z'), s)}
    else:
        yield link(s, i, s)
        yield link(s, i, n('b'), s)
        yield link(s, n('a'), i, s)
        yield link(s, n('a'), i, n('b'), s)
        yield {**link(s, i, n('b')), **link(n('z'), s)}
        yield {**link(s, n('a')), **link(n('y'), i, s)}
        yield {**link(s, n('a')), **link(n('y'), i, n('b')), **link(n('z'), s)}


@check('D08', parts=('src',), floor=150,
       rule='Freedom_Keeper, List_Freedom_Keeper and Dense_Freedom_Keeper interpreted over every path: linked lists as abstract nodes around the place that changes, sizes as linear terms; what each method answers and changes compared with the set of used records; vectors and transitions with sizes 0 to 3')
def d08(ctx):
    db = ctx.db
    ls = Lists(ctx)
    i = ('node', 'i')
    # list: moves
    for m, src, dst, flag, delta in (('use', FREE, USED, 0, 1), ('free', USED, FREE, 1, -1)):
        f = db.fn(LFK + m)
        for x in around(src, i):
            for y in around(dst):
                ls.moved(f, 'list:' + m, {**x, **y, ('is_free', i): I(1 - flag)}, i, src, dst, flag, delta)
    f = db.fn(LFK + 'push_back')
    for x in around(FREE):
        eng, rule, outs = ls.moved(f, 'list:push_back', x, i, None, FREE, 1, 0)
        for o in outs:
            ev = flat(o.st.ev)
            ctx.require([e for e in ev if e[0] == 'resize'] == [('resize', plus(i, I(1)))], 'list:push_back:size', f, 'a new record must grow the lists by one', trace=trace(o.st.ev))
            ctx.require(rule.ident(eng, o.st, o.v) == i, 'list:push_back:id', f, 'push_back does not return the new record', trace=trace(o.st.ev))
    f = db.fn(LFK + 'get_free_record')
    for x in around(FREE):
        eng, rule, outs = ls.run(f, x, size=i)
        for o in outs:
            v = rule.ident(eng, o.st, o.v)
            ctx.require(v == (i if x['next', FREE] == FREE else x['next', FREE]), 'list:get_free_record', f, 'the record returned is not the first free one: %s' % show(v), 'get_free_record', trace=trace(o.st.ev))
    c = [g for g in db.fns(LFK + 'List_Freedom_Keeper') if not g['ps'] and g.get('body')]
    eng, rule, outs = ls.run(c[0], {})
    for o in outs:
        got = ls.cells(eng, rule, o.st)
        want = {('next', FREE): FREE, ('previous', FREE): FREE, ('next', USED): USED, ('previous', USED): USED, ('is_free', FREE): I(1), ('is_free', USED): I(0)}
        ctx.require(got == want, 'list:init', c[0], 'lists are not empty at first', 'List_Freedom_Keeper()', trace=trace(o.st.ev))
    # list: answers
    n = ('size', 'list')
    for m, neg in (('is_used', False), ('is_free', True)):
        f = db.fn(LFK + m)
        a = arg(f, 0)
        eng, rule, outs = ls.run(f, {})
        for o in outs:
            for st, v in truths(eng, rule, o):
                L = lin_of(eng, st)
                fl = st.store.get(cell('is_free', a))
                if v != neg:
                    ctx.require(fl == I(0) and L.le(I(0), a) and L.le(plus(a, I(1)), n), 'list:' + m, f, 'a record that may be free or not exist is said to be used', m, trace=trace(st.ev))
                else:
                    ctx.require(fl == I(1) or not feasible(L, [(I(0), a), (plus(a, I(1)), n)]), 'list:' + m, f, 'a used record is said to be free', m, trace=trace(st.ev))
                ctx.require(fl is None or (L.le(I(0), a) and L.le(plus(a, I(1)), n)), 'list:%s:bounds' % m, f, 'out of bounds access', trace=trace(st.ev))
    for m, neg in (('is_used_vector', False), ('is_free_vector', True)):
        f = db.fn(LFK + m)
        a = arg(f, 0)
        for k in sizes(ctx, 4):
            eng, rule, outs = ls.run(f, {}, {1: I(k)})
            for o in outs:
                for st, v in truths(eng, rule, o):
                    L = lin_of(eng, st)
                    ids = [plus(a, I(j)) for j in range(k)]
                    fl = {x: st.store.get(cell('is_free', x)) for x in ids}
                    seen = [x for x in ids if fl[x] is not None]
                    ctx.require(all(L.le(I(0), x) and L.le(plus(x, I(1)), n) for x in seen), 'list:%s:bounds' % m, f, 'out of bounds access', trace=trace(st.ev))
                    if not neg and v:
                        ctx.require(all(fl[x] == I(0) for x in ids), 'list:' + m, f, 'a vector with records that are not used is said to be used', m, trace=trace(st.ev))
                    elif not neg:
                        ctx.require(any(fl[x] == I(1) for x in seen) or not feasible(L, [(I(0), a), (plus(a, I(k)), n)]), 'list:' + m, f, 'a vector of used records is said not to be', m, trace=trace(st.ev))
                    elif v:
                        ctx.require(all(fl[x] == I(1) or L.le(n, x) for x in ids), 'list:' + m, f, 'a vector with used records is said to be free', m, trace=trace(st.ev))
                    else:
                        ctx.require(any(fl[x] == I(0) for x in seen) or not feasible(L, [(I(0), a)]), 'list:' + m, f, 'a vector of free records is said not to be', m, trace=trace(st.ev))
    for m in ('use', 'free'):
        f = db.fn(LFK + m + '_vector')
        a = arg(f, 0)
        for k in sizes(ctx, 4):
            rule = FreedomRule()
            rule.keepers = (LFK + 'use', LFK + 'free', LFK + 'push_back')
            eng = Engine(db, rule)
            for o in eng.run(f, None, 'joedb::List_Freedom_Keeper', args={1: I(k)}):
                ev = flat(o.st.ev)
                ctx.require(ev == [('list', m, (plus(a, I(j)),)) for j in range(k)], 'list:%s_vector' % m, f, 'another set of records changes: %s' % show(ev), '%s_vector of %d' % (m, k), trace=trace(o.st.ev))
            ctx.use_engine(eng)
    f = db.fn(LFK + 'resize')
    for old in sizes(ctx):
        for new in sizes(ctx, 4):
            rule = FreedomRule()
            rule.keepers = (LFK + 'use', LFK + 'free', LFK + 'push_back', LFK + 'get_size', LFK + 'size')
            eng = Engine(db, rule)

            def setup(eng, st, L, vs):
                st.store[('ghost', 'list')] = st.store[SIZE] = I(old)
            for o in eng.run(f, setup, 'joedb::List_Freedom_Keeper', args={0: I(new)}):
                ev = [x for x in flat(o.st.ev) if x[1] not in ('get_size', 'size')]
                ctx.require(ev == [('list', 'push_back', ())] * max(0, new - old), 'list:resize', f, 'from %d to %d records: %s' % (old, new, show(ev)), 'resize', trace=trace(o.st.ev))
            ctx.use_engine(eng)
    f = db.fn(LFK + 'is_used_vector')
    overflow(ctx, f, ls.run(f, {}), 'list')
    dense(ctx)
    both(ctx)


def truths(eng, rule, o):
    v = rule.ident(eng, o.st, o.v)
    if v[0] == 'i':
        return [(o.st, bool(v[1]))]
    out = []
    for b in (True, False):
        z = eng.assume(o.st.copy(), v, b)
        if z is not None:
            out.append((z, b))
    return out


def feasible(L, les):
    """could all the inequalities a <= b hold, given the facts of L? (no: proved impossible)"""
    from jsa.linear import le, infeasible
    sys = [dict(d) for d in L.ineq] + [le(strip(a), strip(b)) for a, b in les]
    if {1: 1} in L.ineq:
        return False
    return not infeasible(sys, {k for d in sys for k in d if k != 1})


def overflow(ctx, f, run, who):
    """a huge size must not wrap around"""
    eng, rule, outs = run
    a, n = arg(f, 0), arg(f, 1)
    for o in outs:
        if o.k == R and rule.ident(eng, o.st, o.v) != I(0):
            for st, v in truths(eng, rule, o):
                if v:
                    ctx.require(any(isinstance(strip(k), tuple) and strip(k)[:2] == ('op', '<') and strip(k)[2:] == (plus(a, n), a) and w is False or strip(k) == ('op', '<', n, I(0)) and w is False for k, w in st.facts.items()), who + ':overflow', f, 'the end of a very large vector wraps around', who + ' is_used_vector', trace=trace(st.ev))


def dense(ctx):
    db = ctx.db
    U, F = ('fld', ('this',), DFK + 'used_size'), ('fld', ('this',), DFK + 'free_size')
    u, fr = ('size', 'used'), ('size', 'all')

    def run(m, args=None):
        f = db.fn(DFK + m)
        rule = FreedomRule()
        eng = Engine(db, rule)

        def setup(eng, st, L, vs):
            st.store[U], st.store[F] = u, fr
            for x in (u, fr):
                eng.set_bound(st, x, 0, None)
        outs = eng.run(f, setup, 'joedb::Dense_Freedom_Keeper', args=args)
        ctx.use(f)
        ctx.use_engine(eng)
        return f, eng, rule, outs

    def state(eng, st):
        out = []
        for L in (U, F):
            sub = [v for K, v in st.store.items() if K[0] == 'fld' and K[1] == L]
            out.append(strip((sub or [st.store[L]])[0]))
        return out
    inv = [(I(0), u), (u, fr)]

    def lin(eng, st, pre=()):
        from jsa.linear import le
        L = lin_of(eng, st)
        for a, b in list(inv) + list(pre):
            L.add(le(a, b))
        L._close()
        for _ in range(3):                              # a != b and a <= b
            for k, v in st.facts.items():
                k = strip(k)
                if k[:2] == ('op', '==') and v is False:
                    a, b = k[2:]
                    if L.le(a, b):
                        L.add(le(a, b, 1))
                    if L.le(b, a):
                        L.add(le(b, a, 1))
                elif k[0] == 'nz' and v is True and L.le(I(0), k[1]):
                    L.add(le(I(1), k[1]))
        return L

    def decide(m, true, false=None, args=None, pre=()):
        """true: inequalities equivalent to the answer"""
        f, eng, rule, outs = run(m, args)
        a = arg(f, 0)
        n = arg(f, 1) if len(f['ps']) > 1 else None
        for o in outs:
            for st, v in truths(eng, rule, o):
                L = lin(eng, st, pre)
                c = true(a, n)
                if v:
                    ctx.require(all(L.le(x, y) for x, y in c), 'dense:' + m, f, 'wrong answer', 'dense ' + m, trace=trace(st.ev))
                else:
                    ctx.require(not feasible(L, c), 'dense:' + m, f, 'wrong answer', 'dense ' + m, trace=trace(st.ev))
                ctx.require(state(eng, st) == [u, fr], 'dense:%s:changes' % m, f, 'asking changes something', trace=trace(st.ev))
    decide('is_used', lambda a, n: [(I(0), a), (plus(a, I(1)), u)])
    decide('is_free', lambda a, n: [(u, a)], pre=[(I(0), arg(db.fn(DFK + 'is_free'), 0))])
    f = db.fn(DFK + 'is_used_vector')
    decide('is_used_vector', lambda a, n: [(I(0), a), (plus(a, n), u)], pre=[(I(0), arg(f, 1))])
    overflow(ctx, f, run('is_used_vector')[1:], 'dense')
    f = db.fn(DFK + 'is_free_vector')
    decide('is_free_vector', lambda a, n: [(u, a)], pre=[(I(1), arg(f, 1))])
    # changes
    f, eng, rule, outs = run('push_back')
    for o in outs:
        ctx.require(state(eng, o.st) == [u, plus(fr, I(1))] and rule.ident(eng, o.st, o.v) == fr, 'dense:push_back', f, 'push_back does not add one free record, and return it', 'dense push_back', trace=trace(o.st.ev))
    f, eng, rule, outs = run('resize')
    a = arg(f, 0)
    for o in outs:
        L = lin(eng, o.st)
        x, y = state(eng, o.st)
        ctx.require(x == u and L.le(fr, y) and L.le(a, y) and (y in (fr, a)), 'dense:resize', f, 'resize shrinks, or does not grow', 'dense resize', trace=trace(o.st.ev))
    f, eng, rule, outs = run('get_free_record')
    for o in outs:
        L = lin(eng, o.st)
        x, y = state(eng, o.st)
        ctx.require(x == u and L.le(fr, y) and rule.ident(eng, o.st, o.v) == u and L.le(plus(u, I(1)), y), 'dense:get_free_record', f, 'the record returned is not a free one', 'dense get_free_record', trace=trace(o.st.ev))
    for m in ('use', 'free', 'use_vector', 'free_vector'):
        f, eng, rule, outs = run(m)
        a, n = arg(f, 0), (arg(f, 1) if 'vector' in m else I(1))
        some = 0
        for o in outs:
            for st, v in truths(eng, rule, o):
                L = lin(eng, st, [(I(0), n), (I(0), a)] if m.endswith('vector') else [])
                x, y = state(eng, st)
                tr = trace(st.ev)
                if not v:
                    ctx.require([x, y] == [u, fr], 'dense:%s:refused' % m, f, 'something changes though the answer is that it could not be done', trace=tr)
                    continue
                some += 1
                if m.startswith('use'):
                    ctx.require(L.eq(a, u) and y == fr and L.eq(x, plus(u, n)) and L.le(x, fr), 'dense:' + m, f, 'a change that the dense representation cannot express', 'dense ' + m, trace=tr)
                else:
                    ctx.require(L.eq(plus(a, n), u) and y == fr and L.eq(plus(x, n), u) and L.le(I(0), x), 'dense:' + m, f, 'a change that the dense representation cannot express', 'dense ' + m, trace=tr)
        ctx.require(some, 'dense:%s:never' % m, f, 'never done')
    # traversal
    for m, step in (('get_next', 1), ('get_previous', -1)):
        for kind, val in (('used_list', USED), ('free_list', FREE), ('used', None), ('free', None)):
            f, eng, rule, outs = run(m, {0: val} if val else None)
            a = arg(f, 0)
            some = 0
            for o in outs:
                v = rule.ident(eng, o.st, o.v)
                pre = {'used': [(I(0), a), (plus(a, I(1)), u)], 'free': [(u, a), (plus(a, I(1)), fr), (I(0), a)]}.get(kind, [])
                L = lin(eng, o.st, pre)
                if not feasible(L, pre):
                    continue
                some += 1
                lo, hi = (I(0), u) if kind.startswith('used') else (u, fr)      # the records of this list
                end = USED if kind.startswith('used') else FREE
                if val:
                    first = lo if step == 1 else plus(hi, I(-1))
                    good = (v == end and L.le(hi, lo)) or (v != end and L.eq(v, first) and L.le(plus(lo, I(1)), hi))
                else:
                    to = plus(a, I(step))
                    inside = L.le(lo, to) and L.le(plus(to, I(1)), hi)
                    outside = not feasible(L, [(lo, to), (plus(to, I(1)), hi)])
                    good = (v == end and outside) or (v != end and v not in (USED, FREE) and L.eq(v, to) and inside)
                ctx.require(good, 'dense:%s:%s' % (m, kind), f, '%s of a record of the %s list, or of its end, is %s' % (m, kind, show(v)), 'dense %s of %s' % (m, kind), trace=trace(o.st.ev))
            ctx.require(some, 'dense:%s:%s:none' % (m, kind), f, 'never returns')


def both(ctx):
    db = ctx.db

    def run(f, is_dense, args=None, counts=None):
        rule = FreedomRule()
        rule.keepers = (LFK, DFK)
        eng = Engine(db, rule)

        def setup(eng, st, L, vs):
            st.store[('fld', ('this',), FK + 'dense')] = I(int(is_dense))
            if counts:
                st.store[('ghost', 'count')], st.store[('ghost', 'dense')], st.store[('ghost', 'list')] = I(counts[0]), I(counts[1]), I(0)
        outs = eng.run(f, setup, 'joedb::Freedom_Keeper', args=args)
        ctx.use(f)
        ctx.use_engine(eng)
        return eng, rule, outs
    asks = {'get_used_count': 'get_used_count', 'get_size': ('get_size', 'size'), 'size': ('get_size', 'size'), 'get_next': 'get_next', 'get_previous': 'get_previous', 'is_used_vector': 'is_used_vector', 'is_free_vector': 'is_free_vector', 'get_free_record': 'get_free_record', 'push_back': 'push_back', 'resize': 'resize', 'is_used': 'is_used', 'is_free': 'is_used',
            'get_first_free': ('get_next', FREE), 'get_first_used': ('get_next', USED), 'get_last_free': ('get_previous', FREE), 'get_last_used': ('get_previous', USED)}
    for m, to in asks.items():
        for f in db.fns(FK + m):
            if not f.get('body'):
                continue
            for d in (True, False):
                eng, rule, outs = run(f, d)
                who = 'dense' if d else 'list'
                for o in outs:
                    ev = flat(o.st.ev)
                    a = tuple(arg(f, i) for i in range(len(f['ps'])))
                    want = [(who, to, a)] if isinstance(to, str) else [(who, to[0], a), (who, to[1], a)] if isinstance(to[1], str) else [(who, to[0], (to[1],)), (who, 'get_first' + m[9:], ())]
                    ctx.require(len(ev) == 1 and ev[0] in want, 'both:' + m, f, 'the question is not asked to the representation in use: %s' % show(ev), '%s, %s' % (m, who), trace=trace(o.st.ev))
                    if m in ('push_back', 'resize', 'is_free') or len(ev) != 1:
                        continue
                    v = rule.ident(eng, o.st, o.v)
                    ctx.require(v == ('answer',) + ev[0] or v[0] == 'size' or (v[0] == 'i'), 'both:%s:answer' % m, f, 'the answer is not returned: %s' % show(v), trace=trace(o.st.ev))
            if m == 'is_free':
                for d in (True, False):
                    eng, rule, outs = run(f, d)
                    for o in outs:
                        for st, v in truths(eng, rule, o):
                            w = eng.decide(st, ('answer', 'dense' if d else 'list', 'is_used', (arg(f, 0),)))
                            ctx.require(w is not None and bool(w) != v, 'both:is_free', f, 'a record is not either used or free', 'is_free', trace=trace(st.ev))
    for m in ('use', 'free', 'use_vector', 'free_vector'):
        f = db.fn(FK + m)
        a = tuple(arg(f, i) for i in range(len(f['ps'])))
        eng, rule, outs = run(f, False)
        for o in outs:
            ctx.require(flat(o.st.ev) == [('list', m, a)], 'both:' + m, f, 'the change is not made to the lists', m + ', list', trace=trace(o.st.ev))
        for counts in ((0, 0), (0, 1), (1, 1), (1, 3), (2, 3), (3, 3)):
            eng, rule, outs = run(f, True, None, counts)
            kinds = set()
            for o in outs:
                ev = [x for x in flat(o.st.ev) if x[1] not in ('size', 'get_size', 'get_used_count')]
                tr = trace(o.st.ev)
                if not ev or ev[0] != ('dense', m, a) or len(ev) < 2:
                    ctx.bad('both:' + m, f, 'the change is not made to the dense representation', tr)
                    continue
                kinds.add(ev[1][1])
                now = eng.decide(o.st, eng.rdv(o.st, ('fld', ('this',), FK + 'dense'))) if ('fld', ('this',), FK + 'dense') not in o.st.store else o.st.store[('fld', ('this',), FK + 'dense')][1]
                if ev[1][1]:
                    ctx.require(len(ev) == 2 and bool(now), 'both:' + m, f, 'something else changes', m + ', dense', trace=tr)
                else:
                    pushes = [n for n, x in enumerate(ev) if x == ('list', 'push_back', ())]
                    uses = [x for x in ev[2:-1] if x[1] != 'push_back']
                    ctx.require(len(pushes) == counts[1] and uses == [('list', 'use', (I(j),)) for j in range(counts[0])] and ev[-1] == ('list', m, a) and not now, 'both:%s:convert' % m, f, 'with %d records used out of %d, the lists get something else when the dense representation is left: %s' % (counts[0], counts[1], show(ev)), '%s, converts %d/%d' % ((m,) + counts), trace=tr)
            ctx.require(kinds == {True, False}, 'both:%s:outcomes' % m, f, 'the answer of the dense representation is ignored')

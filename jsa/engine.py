"""Path-sensitive abstract interpreter over the extracted syntax trees.

State: a store (abstract location -> term), a set of branch facts, the typestate
`ts` and event trace `ev` of the rule being decided.  Terms are value-numbered
tuples; unknown values are symbols.  Nothing is executed and no solver is used:
branches are decided by constant folding and by facts already assumed on the
path, otherwise both sides are taken.  Loops are summarised (bodies run from a
havocked store until the rule's typestate stabilises).
"""
import sys
from .corpus import AnalysisError, rel, walk

sys.setrecursionlimit(20000)

N, R, B, C, T = 'N', 'R', 'B', 'C', 'T'   # normal, return, break, continue, throw

INT_RANGE = {
    'signed char': (8, True), 'char': (8, True), 'unsigned char': (8, False), 'bool': (1, False),
    'short': (16, True), 'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False),
    'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False),
}

INVERT = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}


class State:
    __slots__ = ('store', 'facts', 'ts', 'ev', 'scopes', 'ver', 'ctr', 'escaped', 'cls')

    def __init__(self):
        self.store = {}
        self.facts = {}
        self.ts = ()
        self.ev = ()
        self.scopes = ()     # stack (tuple) of (loc, class) to destroy
        self.ver = {}
        self.ctr = 0
        self.escaped = frozenset()
        self.cls = {}        # location -> exact dynamic class

    def copy(self):
        s = State.__new__(State)
        s.store = dict(self.store)
        s.facts = dict(self.facts)
        s.ts = self.ts
        s.ev = self.ev
        s.scopes = self.scopes
        s.ver = dict(self.ver)
        s.ctr = self.ctr
        s.escaped = self.escaped
        s.cls = dict(self.cls)
        return s

    def fresh(self, tag):
        self.ctr += 1
        return ('sym', tag, self.ctr)


def I(n):
    return ('i', n)


def is_int(t):
    return isinstance(t, tuple) and len(t) == 2 and t[0] == 'i'


def root_of(L):
    while L[0] in ('fld', 'idx', 'base'):
        L = L[1]
    return L


def contains(t, sub):
    if t == sub:
        return True
    if isinstance(t, tuple):
        return any(contains(x, sub) for x in t if isinstance(x, tuple))
    return False


def fields_in(L):
    out = set()
    def go(t):
        if isinstance(t, tuple):
            if t and t[0] == 'fld':
                out.add(t[2])
            for x in t:
                if isinstance(x, tuple):
                    go(x)
    go(L)
    return out


class Rule:
    """Hooks; override what a property needs."""
    inline_depth = 12
    max_states = 4000
    merge = True              # merge states that differ in facts only
    fork_minmax = False       # std::min and std::max choose one of their arguments on separate paths
    loop_unroll = 9
    trace_loops = True
    tracked = frozenset()      # fields followed exactly through loops by the typestate (st.ts) of the rule

    def models(self, name):
        """calls to `name` are fully modelled by on_call: their bodies' side effects are not added by havoc"""
        return False

    def on_call(self, eng, st, call, obj, args, node):
        """return None (default handling) or list of (state, value); may append to eng.thrown"""
        return None

    def on_ctor(self, eng, st, node, cls, L, args):
        return None

    def on_dtor(self, eng, st, cls, L, line):
        """return True if handled (no inlining)"""
        return False

    def may_throw(self, eng, call, node):
        """does an opaque call raise? default: virtual / unknown non-noexcept project functions"""
        return None

    def on_write(self, eng, st, L, v, node):
        pass

    def on_read(self, eng, st, L, node):
        pass

    def on_await(self, eng, st, v, node):
        return None

    def on_lambda_arg(self, eng, st, node):
        pass

    def inline(self, eng, f):
        return True

    on_binop = None

    def on_cast(self, eng, st, v, node):
        return None

    def on_assume(self, eng, st, term, truth):
        pass

    def on_throw(self, eng, st, node, cls):
        pass

    own_locals = False         # local objects of the classes of wraps are not changed through pointers
    wraps = ()                 # fields that are the only member of their class: an object is as good as the field
    iter_hook = False
    iter_from_head = False     # 'begin' is the state before the loop condition, not after

    def on_iter(self, eng, loop, begin, end):
        """end of an arbitrary iteration of a loop that started in state begin (needs iter_hook)"""

    def on_loop_head(self, eng, loop, before, st):
        """st: arbitrary state at the head of a loop that was entered in state before"""

    def on_loop_exit(self, eng, loop, before, kind, st):
        """the loop entered in state before is left in state st (normally, by return or by exception)"""

    def on_fn_exit(self, eng, f, outs):
        """outcomes of a function body, locals still alive (needs iter_hook)"""

    def on_stmt(self, eng, st, node):
        pass

    def on_deref(self, eng, st, v, node):
        pass

    def on_member(self, eng, st, L, node):
        """field node['n'] of the object at L is about to be used"""

    def on_index(self, eng, st, L, i, node):
        pass


class Out:
    __slots__ = ('k', 'st', 'v')

    def __init__(self, k, st, v=None):
        self.k, self.st, self.v = k, st, v


PURE_STD = {'std::vector::size', 'std::min', 'std::max'}


def bare_true(e):
    while e.get('k') in ('cast', 'icast', 'full') and e.get('e'):
        e = e['e']
    return e.get('k') == 'int' and e.get('v')


class Engine:
    def __init__(self, db, rule):
        self.db = db
        self.rule = rule
        self.thrown = [[]]
        self.frames = []
        self.stats = {'paths': 0, 'calls': 0, 'inlined': 0, 'opaque': 0, 'states': 0}
        self.used_fns = set()
        self.stack = []
        self.steps = 0
        self.step_limit = 3000000
        self.mod_cache = {}

    # ------------------------------------------------------------ locations
    def rd(self, st, L):
        """value held at location L"""
        if L in st.store:
            return st.store[L]
        if L[0] in ('fld', 'idx'):
            base = L[1]
            if base in st.store:
                bv = st.store[base]
                if isinstance(bv, tuple) and bv and bv[0] == 'obj':
                    return self.rd(st, (L[0], bv[1]) + L[2:])
                if L[0] == 'fld':
                    if L[2] in self.rule.wraps:
                        return bv
                    return ('fldof', bv, L[2])
                return ('idxof', bv, L[2])
            if L[0] == 'fld':
                if L[2] in self.rule.wraps and base[0] == 'g':
                    bv = self.rd(st, base)
                    if is_int(bv):
                        return bv
                if base[0] == 'fld':
                    bv = self.rd(st, base)
                    if isinstance(bv, tuple) and bv and bv[0] == 'fldof':
                        return ('fldof', bv, L[2])
                return ('rd', L, st.ver.get(L[2], 0))
            # element of an array: version of the owning field
            fs = sorted(fields_in(L))
            return ('rd', L, tuple(st.ver.get(f, 0) for f in fs))
        if L[0] == 'deref':
            return ('rd', L, st.ver.get('*', 0))
        if L[0] == 'g':
            g = self.db.globals.get(L[1])
            if g and g.get('const') and g.get('e'):
                e = g['e']
                if e.get('k') == 'int':
                    return I(e['v'])
                if e.get('k') == 'ctor' and self.rule.wraps and len(e.get('a', ())) == 1 and e['a'][0].get('k') == 'int' and any(w.startswith(e['n'] + '::') for w in self.rule.wraps):
                    return I(e['a'][0]['v'])
            return ('rd', L, st.ver.get(L[1], 0))
        return ('rd', L, 0)

    def wr(self, st, L, v, node=None):
        self.rule.on_write(self, st, L, v, node)
        self.drop_under(st, L)
        if isinstance(v, tuple) and v and v[0] == 'obj' and v[1] != L:
            self.copy_obj(st, v[1], L)
        elif isinstance(v, tuple) and v and v[0] == 'obj':
            pass
        else:
            st.store[L] = v
        if L[0] == 'idx' and not is_int(L[2]):
            for k in [k for k in st.store if k[0] == 'idx' and k[1] == L[1] and k != L]:
                del st.store[k]
            st.ctr += 1
            for f in fields_in(L):
                st.ver[f] = st.ver.get(f, 0) + 1
            st.store[L] = v

    def under(self, K, L):
        while True:
            if K == L:
                return True
            if K[0] in ('fld', 'idx', 'base', 'opt', 'pt', 'ver'):
                K = K[1]
            else:
                return False

    def drop_under(self, st, L):
        dead = [K for K in st.store if K != L and self.under(K, L)]
        for K in dead:
            del st.store[K]
        if L in st.store:
            del st.store[L]

    def rebase(self, K, src, dst):
        if K == src:
            return dst
        return (K[0], self.rebase(K[1], src, dst)) + K[2:]

    def copy_obj(self, st, src, dst):
        add = {}
        for K, v in st.store.items():
            if self.under(K, src):
                if isinstance(v, tuple) and v and v[0] == 'obj' and self.under(v[1], src):
                    v = ('obj', self.rebase(v[1], src, dst))
                add[self.rebase(K, src, dst)] = v
        if not add:
            w = next((w for w in self.rule.wraps if st.ver.get(w, 0) and st.cls.get(src) == w.rsplit('::', 1)[0]), None)
            if w and src not in st.store:
                add[('fld', dst, w)] = self.rd(st, ('fld', src, w))
            else:
                add[dst] = self.rd(st, src)
        st.store.update(add)
        if src in st.cls:
            st.cls[dst] = st.cls[src]

    def value(self, st, v):
        """rvalue behind a reference/pointer-like argument"""
        if isinstance(v, tuple) and v and v[0] == 'loc':
            return self.rd(st, v[1])
        return v

    def snap(self, st, L, depth=0):
        """structural snapshot of an object"""
        if L in st.store:
            v = st.store[L]
            return v
        subs = {}
        for K, v in st.store.items():
            if K != L and self.under(K, L):
                subs[self.rebase(K, L, ('self',))] = v
        if subs:
            return ('struct', tuple(sorted(subs.items(), key=repr)))
        return self.rd(st, L)

    # ------------------------------------------------------------ facts
    def canon(self, t):
        """(atom, polarity) of a boolean term"""
        pol = True
        while True:
            if t[0] == 'not':
                t = t[1]
                pol = not pol
                continue
            if t[0] == 'op' and len(t) == 4:
                o, a, b = t[1], t[2], t[3]
                if o == '!=':
                    t = ('op', '==', a, b)
                    pol = not pol
                    continue
                if o == '>':
                    t = ('op', '<', b, a)
                    continue
                if o == '<=':
                    t = ('op', '<', b, a)
                    pol = not pol
                    continue
                if o == '>=':
                    t = ('op', '<', a, b)
                    pol = not pol
                    continue
                if o == '==':
                    if a in (I(0), ('null',)) and b[0] != 'i':
                        a, b = b, a
                    if b in (I(0), ('null',)) and a[0] in ('op', 'not') and a[1] in ('==', '!=', '<', '>', '<=', '>='):
                        t = a
                        pol = not pol
                        continue
                    if b == ('null',) or b == I(0):
                        return ('nz', a), not pol
                    if repr(a) > repr(b):
                        t = ('op', '==', b, a)
                    return t, pol
                if o == '<':
                    return t, pol
            return ('nz', t), pol

    def decide(self, st, t):
        if is_int(t):
            return t[1] != 0
        if t == ('null',):
            return False
        if t[0] in ('str', 'loc', 'fnp', 'lamv', 'obj'):
            return True
        atom, pol = self.canon(t)
        if atom in st.facts:
            return st.facts[atom] == pol
        if atom[0] == 'nz' and is_int(atom[1]):
            return (atom[1][1] != 0) == pol
        if atom[0] == 'nz' and atom[1] == ('null',):
            return not pol
        if atom[0] == 'nz' and atom[1][0] in ('str', 'loc', 'lamv', 'fnp'):
            return pol
        if atom[0] == 'op':
            o, a, b = atom[1:]
            if is_int(a) and is_int(b):
                r = (a[1] == b[1]) if o == '==' else (a[1] < b[1])
                return r == pol
            if a == b:
                return (o == '==') == pol
            lo_a, hi_a = self.bounds(st, a)
            lo_b, hi_b = self.bounds(st, b)
            if o == '<':
                if hi_a is not None and lo_b is not None and hi_a < lo_b:
                    return pol
                if lo_a is not None and hi_b is not None and lo_a >= hi_b:
                    return not pol
                if st.facts.get(('op', '<', b, a)) is True:
                    return not pol
                e = ('op', '==', a, b) if repr(a) <= repr(b) else ('op', '==', b, a)
                if st.facts.get(e) is True:
                    return not pol
            if o == '==':
                if hi_a is not None and lo_b is not None and hi_a < lo_b:
                    return not pol
                if lo_a is not None and hi_b is not None and lo_a > hi_b:
                    return not pol
                if st.facts.get(('op', '<', a, b)) is True or st.facts.get(('op', '<', b, a)) is True:
                    return not pol
                if lo_a is not None and lo_a == hi_a == lo_b == hi_b:
                    return pol
                # x == c1 known, c2 asked
                c, x = (a, b) if is_int(a) else (b, a)
                if is_int(c):
                    if st.facts.get(('ne', x, c[1])):
                        return not pol
        if atom[0] == 'nz':
            lo, hi = self.bounds(st, atom[1])
            if lo is not None and lo > 0 or hi is not None and hi < 0:
                return pol
            if lo == 0 and hi == 0:
                return not pol
        return None

    def bounds(self, st, t):
        if is_int(t):
            return t[1], t[1]
        b = st.facts.get(('bnd', t))
        lo, hi = b if b else (None, None)
        if t[0] == 'call' and len(t) > 1 and t[1] in ('std::size', 'size'):
            lo = 0 if lo is None else lo
        if t[0] == 'op' and len(t) == 4 and t[1] in ('<', '>', '==', '!=', '<=', '>='):
            lo = 0 if lo is None else max(lo, 0)
            hi = 1 if hi is None else min(hi, 1)
        return lo, hi

    def set_bound(self, st, t, lo=None, hi=None):
        l0, h0 = st.facts.get(('bnd', t), (None, None))
        if lo is not None:
            l0 = lo if l0 is None else max(l0, lo)
        if hi is not None:
            h0 = hi if h0 is None else min(h0, hi)
        st.facts[('bnd', t)] = (l0, h0)

    def assume(self, st, t, truth):
        """returns state (mutated copy) or None when infeasible"""
        d = self.decide(st, t)
        if d is not None:
            return st if d == truth else None
        st = st.copy()
        atom, pol = self.canon(t)
        val = (pol == truth)
        st.facts[atom] = val
        if atom[0] == 'op':
            o, a, b = atom[1:]
            if o == '<':
                if is_int(b):
                    if val:
                        self.set_bound(st, a, hi=b[1] - 1)
                    else:
                        self.set_bound(st, a, lo=b[1])
                if is_int(a):
                    if val:
                        self.set_bound(st, b, lo=a[1] + 1)
                    else:
                        self.set_bound(st, b, hi=a[1])
            if o == '==':
                c, x = (a, b) if is_int(a) else (b, a)
                if is_int(c):
                    if val:
                        self.set_bound(st, x, c[1], c[1])
                    else:
                        st.facts[('ne', x, c[1])] = True
                        lo, hi = self.bounds(st, x)
                        if lo == c[1]:
                            self.set_bound(st, x, lo=lo + 1)
                        if hi == c[1]:
                            self.set_bound(st, x, hi=hi - 1)
        elif atom[0] == 'nz':
            if not val:
                self.set_bound(st, atom[1], 0, 0)
            else:
                st.facts[('ne', atom[1], 0)] = True
                lo, hi = self.bounds(st, atom[1])
                if lo == 0:
                    self.set_bound(st, atom[1], lo=1)
                if hi == 0:
                    self.set_bound(st, atom[1], hi=-1)
        self.rule.on_assume(self, st, t, truth)
        return st

    # ------------------------------------------------------------ arithmetic
    def wrap(self, n, t):
        r = INT_RANGE.get(t)
        if r is None:
            return n
        bits, signed = r
        if t == 'bool':
            return 1 if n else 0
        n &= (1 << bits) - 1
        if signed and n >> (bits - 1):
            n -= 1 << bits
        return n

    def binop(self, st, op, a, b, t):
        if self.rule.on_binop is not None:
            r = self.rule.on_binop(self, st, op, a, b, t)
            if r is not None:
                return r
        if is_int(a) and is_int(b):
            x, y = a[1], b[1]
            try:
                r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y,
                     '/': lambda: int(x / y) if y else None, '%': lambda: (x - y * int(x / y)) if y else None,
                     '<<': lambda: x << y if 0 <= y < 64 else None, '>>': lambda: x >> y if 0 <= y < 64 else None,
                     '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y,
                     '<': lambda: int(x < y), '>': lambda: int(x > y), '<=': lambda: int(x <= y),
                     '>=': lambda: int(x >= y), '==': lambda: int(x == y), '!=': lambda: int(x != y)}[op]()
            except KeyError:
                r = None
            if r is not None:
                return I(self.wrap(r, t))
        if op in INVERT:
            d = self.decide(st, ('op', op, a, b))
            if d is not None:
                return I(int(d))
            return ('op', op, a, b)
        if op in ('+', '|', '^') and b == I(0):
            return a
        if op in ('-', '<<', '>>') and b == I(0):
            return a
        if op in ('+',) and a == I(0):
            return b
        if op == '*' and (a == I(1)):
            return b
        if op == '*' and (b == I(1)):
            return a
        if op == '-' and a == b:
            return I(0)
        # linear normal form for + and -
        if op in ('+', '-'):
            return lin_make(lin_add(lin(a), lin(b), 1 if op == '+' else -1))
        if op == '*' and (is_int(a) or is_int(b)):
            c, x = (a, b) if is_int(a) else (b, a)
            return lin_make({k: v * c[1] for k, v in lin(x).items()})
        if op in ('&', '|', '^', '*') and repr(a) > repr(b):
            a, b = b, a
        return ('op', op, a, b)

    # ------------------------------------------------------------ lvalues
    def lv(self, e, st):
        """yield (state, location) of a glvalue expression"""
        k = e['k']
        if k == 'full':
            yield from self.lv(e['e'], st)
            return
        if k == 'this':
            yield st, self.frames[-1]['this']
            return
        if k == 'var':
            L = self.varloc(e)
            if e.get('ref'):
                v = st.store.get(L)
                if v is None:
                    v = ('loc', ('refto', L))
                    st.store[L] = v
                if v[0] == 'loc':
                    yield st, v[1]
                else:
                    yield st, L
            else:
                yield st, L
            return
        if k == 'mem':
            gen = self.ev(e['b'], st) if e.get('ar') and e['b'].get('k') != 'this' else None
            if gen is not None:
                for s, v in gen:
                    yield from self.member(s, self.deref(s, v, e), e)
            else:
                for s, L in self.lv(e['b'], st):
                    yield from self.member(s, L, e)
            return
        if k == 'idx':
            for s, b in self.ev(e['b'], st):
                for s2, i in self.ev(e['i'], s):
                    L = self.deref(s2, b, e)
                    self.rule.on_index(self, s2, L, i, e)
                    yield s2, self.element(s2, L, i)
            return
        if k == 'un' and e['op'] == '*':
            for s, v in self.ev(e['e'], st):
                yield s, self.deref(s, v, e)
            return
        if k in ('cast', 'icast'):
            sub = e['e']
            for s, L in self.lv(sub, st):
                yield s, L
            return
        if k == 'bin' and (e['op'] == '=' or (e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>='))):
            for s, L in self.assign(e, st):
                yield s, L
            return
        if k == 'bin' and e['op'] == ',':
            for s, _ in self.ev(e['x'], st):
                yield from self.lv(e['y'], s)
            return
        if k == 'un' and e['op'] in ('++', '--'):
            for s, L, old in self.incdec(e, st):
                yield s, L
            return
        if k == 'cond':
            for s, b in self.cond(e['c'], st):
                yield from self.lv(e['x'] if b else e['y'], s)
            return
        # rvalue: materialise
        for s, v in (self.call_raw(e, st) if k == 'call' else self.ev(e, st)):
            if isinstance(v, tuple) and v:
                if v[0] == 'loc':
                    yield s, v[1]
                    continue
                if v[0] == 'obj':
                    yield s, v[1]
                    continue
            s = s.copy()
            s.ctr += 1
            L = ('tmp', s.ctr)
            s.store[L] = v
            yield s, L

    def element(self, st, L, i):
        if L[0] == 'idx' and L[2] == I(0) and False:
            L = L[1]
        if L[0] == 'elem0':
            L = L[1]
        return ('idx', L, i)

    def varloc(self, e):
        if e.get('g') == 1:
            return ('g', e['id'][2:])
        if e.get('g') == 2:
            return ('g', e['id'])
        fr = self.frames[-1]
        m = fr['vars']
        L = m.get(e['id'])
        if L is None:
            L = ('var', e['id'], len(self.frames))
            m[e['id']] = L
        return L

    def member(self, st, L, e):
        self.rule.on_member(self, st, L, e)
        F = ('fld', L, e['n'])
        if e.get('ref'):
            v = st.store.get(F)
            if v is None:
                base = st.store.get(L)
                if isinstance(base, tuple) and base and base[0] == 'obj':
                    v = st.store.get(('fld', base[1], e['n']))
            if v is None:
                v = ('loc', ('refto', F))
            if isinstance(v, tuple) and v and v[0] == 'loc':
                yield st, v[1]
                return
            if isinstance(v, tuple) and v and v[0] == 'obj':
                yield st, v[1]
                return
            yield st, ('deref', v)
            return
        base = st.store.get(L)
        if isinstance(base, tuple) and base and base[0] == 'obj' and base[1] != L:
            F = ('fld', base[1], e['n'])
        yield st, F

    def deref(self, st, v, node=None):
        self.rule.on_deref(self, st, v, node)
        if isinstance(v, tuple) and v:
            if v[0] == 'loc':
                return v[1]
            if v[0] == 'obj':
                return v[1]
        return ('deref', v)

    # ------------------------------------------------------------ expressions
    def evs(self, exprs, st, kinds=None):
        """evaluate a list of expressions left to right; yields (state, [values])"""
        if not exprs:
            yield st, []
            return
        out = [(st, [])]
        for i, e in enumerate(exprs):
            nxt = []
            kd = kinds[i] if kinds and i < len(kinds) else 'v'
            for s, vs in out:
                if kd in 'rcm':
                    for s2, L in self.lv(e, s):
                        nxt.append((s2, vs + [('loc', L)]))
                else:
                    for s2, v in self.ev(e, s):
                        nxt.append((s2, vs + [v]))
            out = nxt
        yield from out

    def cond(self, e, st):
        """evaluate as a branch condition: yields (state, bool)"""
        k = e['k']
        if k == 'full':
            # temporaries in conditions are destroyed at the end of the full expression
            for s, v in self.fullexpr(e['e'], st, as_cond=True):
                yield s, v
            return
        if k == 'un' and e['op'] == '!':
            for s, b in self.cond(e['e'], st):
                yield s, not b
            return
        if k == 'bin' and e['op'] == '&&':
            for s, b in self.cond(e['x'], st):
                if b:
                    yield from self.cond(e['y'], s)
                else:
                    yield s, False
            return
        if k == 'bin' and e['op'] == '||':
            for s, b in self.cond(e['x'], st):
                if b:
                    yield s, True
                else:
                    yield from self.cond(e['y'], s)
            return
        for s, v in self.ev(e, st):
            yield from self.branch(s, v)

    def branch(self, s, v):
        if not isinstance(v, tuple):
            v = ('sym', 'cond', id(v))
        d = self.decide(s, v)
        if d is not None:
            yield s, d
            return
        a = self.assume(s, v, True)
        if a is not None:
            yield a, True
        b = self.assume(s, v, False)
        if b is not None:
            yield b, False

    def fullexpr(self, e, st, as_cond=False, lvalue=False):
        mark = len(st.scopes)
        sink = []
        self.thrown.append(sink)
        gen = self.cond(e, st) if as_cond else (self.lv(e, st) if lvalue else self.ev(e, st))
        res = list(gen)
        self.thrown.pop()
        outs = [Out(T, s, v) for s, v in sink]
        for o in outs:
            for o2 in self.unwind(o, mark):
                self.thrown[-1].append((o2.st, o2.v))
        for s, v in res:
            if len(s.scopes) > mark:
                for o2 in self.unwind(Out(N, s, v), mark):
                    if o2.k == T:
                        self.thrown[-1].append((o2.st, o2.v))
                    else:
                        yield o2.st, o2.v
            else:
                yield s, v

    def assign(self, e, st):
        op = e['op']
        if op == '=':
            for s, v in self.ev(e['y'], st):
                for s2, L in self.lv(e['x'], s):
                    s2 = s2.copy()
                    self.wr(s2, L, v, e)
                    yield s2, L
            return
        for s, v in self.ev(e['y'], st):
            for s2, L in self.lv(e['x'], s):
                s2 = s2.copy()
                nv = self.binop(s2, op[:-1], self.rd(s2, L), v, e.get('t', ''))
                self.wr(s2, L, nv, e)
                yield s2, L

    def incdec(self, e, st):
        for s, L in self.lv(e['e'], st):
            s = s.copy()
            old = self.rd(s, L)
            nv = self.binop(s, '+' if e['op'] == '++' else '-', old, I(1), e.get('t', ''))
            self.wr(s, L, nv, e)
            yield s, L, old

    def ev(self, e, st):
        if e is None:
            yield st, ('void',)
            return
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise AnalysisError('unknown expression kind ' + k)
        yield from m(e, st)

    def e_int(self, e, st):
        v = e['v']
        yield st, I(int(v))

    def e_str(self, e, st):
        yield st, ('str', e['v'])

    def e_flt(self, e, st):
        yield st, ('flt', e['v'])

    def e_null(self, e, st):
        yield st, ('null',)

    def e_zero(self, e, st):
        yield st, (I(0) if e.get('t') in INT_RANGE else ('zero', e.get('t', '')))

    def e_this(self, e, st):
        yield st, ('loc', self.frames[-1]['this'])

    def e_fn(self, e, st):
        yield st, ('fnp', e['f'], e['n'])

    def e_lam(self, e, st):
        st = st.copy()
        caps = []
        fr = self.frames[-1]
        pend = [(st, [])]
        for c in e['caps']:
            nxt = []
            for s, cs in pend:
                if c['by'] == 'this':
                    nxt.append((s, cs + [('this', fr['this'])]))
                elif c['by'] == 'ref':
                    L = fr['vars'].get(c['n'])
                    if L is None:
                        L = ('var', c['n'], len(self.frames))
                        fr['vars'][c['n']] = L
                    v = s.store.get(L)
                    if isinstance(v, tuple) and v and v[0] == 'loc' and L in self.refvars(s):
                        L = v[1]
                    nxt.append((s, cs + [(c['n'], 'ref', L)]))
                else:
                    if c.get('init'):
                        for s2, v in self.ev(c['init'], s):
                            s2 = s2.copy()
                            s2.ctr += 1
                            L2 = ('cap', c['n'], s2.ctr)
                            self.wr_quiet(s2, L2, v)
                            nxt.append((s2, cs + [(c['n'], 'val', L2)]))
                    else:
                        nxt.append((s, cs + [(c['n'], 'val', ('cap', c['n'], 0))]))
            pend = nxt
        for s, cs in pend:
            esc = s.escaped | frozenset(root_of(c[2]) for c in cs if len(c) == 3 and c[1] == 'ref')
            s = s.copy()
            s.escaped = esc
            yield s, ('lamv', e['f'], tuple(cs))

    def refvars(self, st):
        return self.frames[-1]['refs']

    def wr_quiet(self, st, L, v):
        self.drop_under(st, L)
        if isinstance(v, tuple) and v and v[0] == 'obj':
            if v[1] != L:
                self.copy_obj(st, v[1], L)
        else:
            st.store[L] = v

    def e_var(self, e, st):
        for s, L in self.lv(e, st):
            yield s, self.load(s, L, e)

    def load(self, st, L, e):
        t = e.get('t', '')
        self.rule.on_read(self, st, L, e)
        if '[' in t and t.endswith(']'):
            return ('loc', ('elem0', L))
        if L in st.store:
            v = st.store[L]
            return v
        # object with known sub-entries?
        for K in st.store:
            if K != L and K[0] in ('fld', 'idx', 'opt') and self.under(K, L):
                return ('obj', L)
        if L in st.cls:
            return ('obj', L)
        v = self.rd(st, L)
        return v

    def e_mem(self, e, st):
        for s, L in self.lv(e, st):
            yield s, self.load(s, L, e)

    def e_idx(self, e, st):
        for s, L in self.lv(e, st):
            yield s, self.load(s, L, e)

    def e_full(self, e, st):
        yield from self.fullexpr(e['e'], st)

    def e_tmp(self, e, st):
        for s, v in self.ev(e['e'], st):
            if isinstance(v, tuple) and v and v[0] == 'obj':
                L = v[1]
            else:
                s = s.copy()
                s.ctr += 1
                L = ('tmp', s.ctr)
                s.store[L] = v
                v = ('obj', L) if self.project_class(e['d']) else v
            s = s.copy()
            s.scopes = s.scopes + ((L, e['d']),)
            yield s, v

    def project_class(self, d):
        return d in self.db.classes and 'fields' in self.db.classes[d]

    def e_cast(self, e, st):
        for s, v in self.ev(e['e'], st):
            r = self.rule.on_cast(self, s, v, e)
            if r is not None:
                v = r
            elif is_int(v) and e['t'] in INT_RANGE:
                v = I(self.wrap(v[1], e['t']))
            elif e.get('t') == 'void':
                v = ('void',)
            yield s, v

    def e_icast(self, e, st):
        yield from self.e_cast(e, st)

    def e_un(self, e, st):
        op = e['op']
        if op == '&':
            if e['e']['k'] == 'fn':
                yield st, ('fnp', e['e']['f'], e['e']['n'])
                return
            for s, L in self.lv(e['e'], st):
                s = s.copy()
                s.escaped = s.escaped | {root_of(L)}
                yield s, ('loc', L)
            return
        if op == '*':
            for s, L in self.lv(e, st):
                yield s, self.load(s, L, e)
            return
        if op in ('++', '--'):
            for s, L, old in self.incdec(e, st):
                yield s, (old if e.get('post') else self.rd(s, L))
            return
        if op == '!':
            for s, b in self.cond(e['e'], st):
                yield s, I(0 if b else 1)
            return
        for s, v in self.ev(e['e'], st):
            if is_int(v):
                if op == '-':
                    yield s, I(self.wrap(-v[1], e.get('t', '')))
                    continue
                if op == '~':
                    yield s, I(self.wrap(~v[1], e.get('t', '')))
                    continue
                if op == '+':
                    yield s, v
                    continue
            if op == '-':
                yield s, lin_make({k: -c for k, c in lin(v).items()})
                continue
            yield s, (v if op == '+' else ('op1', op, v))

    def e_bin(self, e, st):
        op = e['op']
        if op in ('&&', '||'):
            for s, b in self.cond(e, st):
                yield s, I(int(b))
            return
        if op == ',':
            for s, _ in self.ev(e['x'], st):
                yield from self.ev(e['y'], s)
            return
        if op == '=' or (op.endswith('=') and op not in ('==', '!=', '<=', '>=')):
            for s, L in self.assign(e, st):
                yield s, self.load(s, L, {})
            return
        for s, a in self.ev(e['x'], st):
            for s2, b in self.ev(e['y'], s):
                # pointer arithmetic
                if op in ('+', '-') and a and a[0] == 'loc' and op == '+':
                    if a[1][0] == 'elem0':
                        yield s2, ('loc', ('ptr', a[1][1], b))
                        continue
                    if a[1][0] == 'ptr':
                        yield s2, ('loc', ('ptr', a[1][1], self.binop(s2, '+', a[1][2], b, '')))
                        continue
                    yield s2, ('loc', ('ptr', a[1], b))
                    continue
                yield s2, self.binop(s2, op, a, b, e.get('t', ''))

    def e_cond(self, e, st):
        for s, b in self.cond(e['c'], st):
            yield from self.ev(e['x'] if b else e['y'], s)

    def e_init(self, e, st):
        cls = self.db.classes.get(e['t'])
        fields = cls.get('fields') if cls else None
        for s, vs in self.evs(e['a'], st):
            s = s.copy()
            s.ctr += 1
            L = ('tmp', s.ctr)
            if fields is not None and len(fields) == len(vs):
                s.cls[L] = e['t']
                for f, v in zip(fields, vs):
                    self.wr_quiet(s, ('fld', L, cls['q'] + '::' + f['n']), v)
                yield s, ('obj', L)
            elif len(vs) == 1 and '[' not in e['t'] and 'array<' not in e['t']:
                yield s, vs[0]
            else:
                if len(vs) == 1 and isinstance(vs[0], tuple) and vs[0] and vs[0][0] == 'obj' and 'array<' in e['t']:
                    yield s, vs[0]
                    continue
                for i, v in enumerate(vs):
                    self.wr_quiet(s, ('idx', L, I(i)), v)
                s.store[('len', L)] = I(len(vs))
                yield s, ('obj', L)

    def e_other(self, e, st):
        for s, vs in self.evs(e.get('a', []), st):
            if len(vs) == 1:
                yield s, vs[0]
            else:
                s = s.copy()
                yield s, ('x', e['c'], tuple(vs))

    def e_stmtexpr(self, e, st):
        yield st, ('void',)

    def e_new(self, e, st):
        init = e.get('e')
        def go(s):
            if init is not None:
                for s2, v in self.ev(init, s):
                    s2 = s2.copy()
                    s2.ctr += 1
                    L = ('heap', e['t'], s2.ctr)
                    self.wr_quiet(s2, L, v)
                    yield s2, ('loc', L)
            else:
                s = s.copy()
                s.ctr += 1
                yield s, ('loc', ('heap', e['t'], s.ctr))
        if e.get('n') is not None:
            for s, n in self.ev(e['n'], st):
                yield from go(s)
        else:
            yield from go(st)

    def e_del(self, e, st):
        for s, v in self.ev(e['e'], st):
            yield s, ('void',)

    def e_throw(self, e, st):
        if e.get('e') is None:
            exc = self.frames[-1].get('exc') or ('exc', '?', None)
            self.rule.on_throw(self, st, e, exc[1])
            self.thrown[-1].append((st, exc))
            return
        for s, v in self.ev(e['e'], st):
            self.rule.on_throw(self, s, e, e['t'])
            self.thrown[-1].append((s, ('exc', e['t'], v)))
        return
        yield

    def e_await(self, e, st):
        for s, v in self.ev(e['e'], st):
            r = self.rule.on_await(self, s, v, e)
            if r is not None:
                yield from r
                continue
            s = s.copy()
            yield s, (v if isinstance(v, tuple) and v and v[0] not in ('sym',) else s.fresh('await'))

    # ------------------------------------------------------------ constructors
    def e_ctor(self, e, st):
        cls = e['t']
        pk = e.get('pk', '')
        if e.get('cp') and len(e['a']) == 1 and (e.get('def') or e['n'].startswith('std::') or e['f'] not in self.db.functions):
            # defaulted copy / move: the value itself
            for s, L in self.lv(e['a'][0], st):
                v = self.load(s, L, {})
                if isinstance(v, tuple) and v and v[0] == 'obj':
                    s = s.copy()
                    s.ctr += 1
                    L2 = ('tmp', s.ctr)
                    self.copy_obj(s, v[1], L2)
                    if e['cp'] == 2:
                        pass
                    yield s, ('obj', L2)
                else:
                    yield s, v
            return
        for s, vs in self.evs(e['a'], st, pk):
            yield from self.construct(s, e, cls, vs)

    def construct(self, s, e, cls, vs, L=None):
        """runs constructor e['f'] on a fresh object"""
        f = self.db.functions.get(e['f'])
        s = s.copy()
        if L is None:
            s.ctr += 1
            L = ('tmp', s.ctr)
        s.cls[L] = cls
        r = self.rule.on_ctor(self, s, e, cls, L, vs)
        if r is not None:
            yield from r
            return
        if e['n'].startswith('std::') or (f is None and not self.project_class(cls)):
            model = self.std_ctor(s, e, cls, vs, L)
            yield from model
            return
        if f is None or 'in' not in f:
            # implicit / trivial constructor: default member initialisers
            for s2 in self.default_fields(s, L, cls):
                yield s2, ('obj', L)
            return
        if not self.can_inline(f):
            self.havoc_args(s, f, [('loc', L)] + vs, 'r' + f.get('pk', ''))
            if self.throws(e, f):
                self.thrown[-1].append((s.copy(), ('exc', '?', None)))
            yield s, ('obj', L)
            return
        for o in self.call_body(s, f, L, vs, e):
            if o.k == T:
                self.thrown[-1].append((o.st, o.v))
            else:
                yield o.st, ('obj', L)

    def default_fields(self, s, L, cls):
        c = self.db.classes.get(cls, {})
        states = [s]
        for b in c.get('bases', ()):
            nxt = []
            for x in states:
                nxt += list(self.default_fields(x, L, b['n']))
            states = nxt
        for f in c.get('fields', ()):
            if f.get('e') is not None:
                nxt = []
                for x in states:
                    self.frames.append({'this': L, 'vars': {}, 'refs': set(), 'f': None})
                    res = list(self.ev(f['e'], x))
                    self.frames.pop()
                    for s2, v in res:
                        s2 = s2.copy()
                        self.wr_quiet(s2, ('fld', L, c['q'] + '::' + f['n']), v)
                        nxt.append(s2)
                states = nxt
        return states

    def std_ctor(self, s, e, cls, vs, L):
        if len(vs) == 0:
            if cls.startswith('std::unique_ptr') or cls.startswith('std::shared_ptr') or cls.startswith('std::optional'):
                yield s, ('null',)
                return
            if 'basic_string<' in cls.split('::')[-1] or cls.startswith('std::basic_string'):
                yield s, ('str', '')
                return
            s.store[L] = ('new', cls, s.ctr)
            yield s, s.store[L]
            return
        v0 = vs[0]
        if cls.startswith('std::fpos<') and len(vs) == 1:
            yield s, self.value(s, v0)
            return
        if cls.startswith(('std::unique_ptr', 'std::shared_ptr', 'std::optional', 'std::function', 'std::reference_wrapper')):
            v = self.value(s, v0) if cls.startswith(('std::optional', 'std::function')) or (v0[0] == 'loc' and e.get('pk', 'v')[0] in 'rcm') else v0
            yield s, v
            return
        if cls.startswith(('std::basic_string<', 'std::basic_string_view<')) and len([a for a in e['a']]) <= 2:
            v = self.value(s, v0) if e.get('pk', 'v')[:1] in ('c', 'r', 'm') else v0
            if len(vs) == 1 or (len(vs) == 2 and isinstance(vs[1], tuple) and vs[1][0] in ('new', 'loc', 'sym', 'obj') and 'c' == e.get('pk', 'vv')[1:2]):
                yield s, v
                return
        args = tuple(self.argval(s, v, pk) for v, pk in zip(vs, (e.get('pk', '') + 'v' * 9)))
        t = ('ctor', short(cls), args)
        yield s, t

    # ------------------------------------------------------------ destructors
    def destroy(self, st, L, cls, line=0):
        """yields Outs"""
        if self.rule.on_dtor(self, st, cls, L, line):
            yield Out(N, st)
            return
        if cls.startswith('std::'):
            yield from self.std_dtor(st, L, cls)
            return
        dyn = st.cls.get(L, cls)
        c = self.db.classes.get(cls)
        if not c or 'fields' not in c:
            yield Out(N, st)
            return
        outs = [st]
        f = self.db.functions.get(c.get('dtor', ''))
        res = [Out(N, st)]
        if f is not None and f.get('body') is not None and self.can_inline(f):
            res = self.call_body(st, f, L, [], {'l': line}, is_dtor=True)
        for fld in reversed(c['fields']):
            if fld.get('d') and not fld.get('ref'):
                nxt = []
                for o in res:
                    if o.k == T:
                        nxt.append(o)
                        continue
                    nxt += list(self.destroy(o.st, ('fld', L, c['q'] + '::' + fld['n']), fld['d'], line))
                res = nxt
        for b in reversed(c['bases']):
            nxt = []
            for o in res:
                if o.k == T:
                    nxt.append(o)
                    continue
                nxt += list(self.destroy(o.st, L, b['n'], line))
            res = nxt
        for o in res:
            yield o

    def std_dtor(self, st, L, cls):
        # smart pointers and optionals owning project objects
        if cls.startswith(('std::optional<', 'std::unique_ptr<')):
            inner = cls[cls.index('<') + 1:]
            v = st.store.get(L)
            if isinstance(v, tuple) and v and v[0] in ('loc', 'obj'):
                dcl = st.cls.get(v[1])
                if dcl:
                    yield from self.destroy(st, v[1], dcl)
                    return
        yield Out(N, st)

    def unwind(self, out, mark):
        """destroy everything above scope mark; yields Outs of same kind"""
        outs = [out]
        while True:
            nxt, done = [], True
            for o in outs:
                if len(o.st.scopes) > mark:
                    done = False
                    L, d = o.st.scopes[-1]
                    s = o.st.copy()
                    s.scopes = s.scopes[:-1]
                    for o2 in self.destroy(s, L, d):
                        if o2.k == T:
                            nxt.append(Out(T, o2.st, o2.v))
                        else:
                            nxt.append(Out(o.k, o2.st, o.v))
                else:
                    nxt.append(o)
            outs = nxt
            if done:
                return outs

    # ------------------------------------------------------------ calls
    def can_inline(self, f):
        if f is None or f.get('body') is None:
            return False
        if len(self.stack) >= self.rule.inline_depth:
            return False
        if self.stack.count(f['key']) >= 1:
            return False
        return self.rule.inline(self, f)

    def throws(self, node, f=None):
        if node.get('nx'):
            return False
        return True

    def argval(self, st, v, pk):
        if pk in ('c', 'm') and isinstance(v, tuple) and v and v[0] == 'loc':
            return self.rdv(st, v[1])
        return v

    def rdv(self, st, L):
        v = self.load(st, L, {})
        if isinstance(v, tuple) and v and v[0] == 'obj':
            return self.snap(st, v[1])
        return v

    def e_call(self, e, st):
        if not e.get('rr'):
            yield from self.call_raw(e, st)
            return
        for s, v in self.call_raw(e, st):
            if isinstance(v, tuple) and v and v[0] == 'loc':
                v = self.load(s, v[1], {})
            yield s, v

    def call_raw(self, e, st):
        self.steps += 1
        if self.steps > self.step_limit:
            raise AnalysisError('analysis budget exceeded in ' + (self.stack[0] if self.stack else '?'))
        self.stats['calls'] += 1
        name = e.get('n')
        if name is None:
            for s, fv in self.ev(e['fe'], st):
                for s2, vs in self.evs(e['a'], s):
                    yield from self.apply(s2, fv, vs, e)
            return
        pk = e.get('pk', '')
        if 'obj' in e and not e.get('st'):
            objgen = (self.ptr_obj(e, st) if e.get('ar') else self.lv(e['obj'], st))
        else:
            objgen = [(st, None)]
        for s, L in objgen:
            for s2, vs in self.evs(e['a'], s, pk):
                yield from self.docall(s2, e, L, vs)

    def ptr_obj(self, e, st):
        for s, v in self.ev(e['obj'], st):
            yield s, self.deref(s, v, e)

    def docall(self, s, e, L, vs):
        s = s.copy()
        r = self.rule.on_call(self, s, e, L, vs, e)
        if r is not None:
            yield from r
            return
        r = self.std_model(s, e, L, vs)
        if r is not None:
            yield from r
            return
        key = e['f']
        if e.get('asg') and L is not None and len(vs) == 1 and key not in self.db.functions and e.get('ot') in self.db.classes:
            # implicit memberwise assignment
            v = self.rdv(s, vs[0][1]) if vs[0][0] == 'loc' else vs[0]
            if vs[0][0] == 'loc' and any(K != vs[0][1] and self.under(K, vs[0][1]) for K in s.store):
                v = ('obj', vs[0][1])
            self.wr(s, L, v, e)
            yield s, ('loc', L)
            return
        if e.get('vt'):
            dyn = s.cls.get(L) if L is not None else None
            if dyn:
                key = self.db.resolve_virtual(key, dyn)
            else:
                targets = self.db.overriders(key)
                if len(targets) > 1 or self.is_pure(key):
                    yield from self.opaque(s, e, L, vs)
                    return
        f = self.db.functions.get(key)
        if f is not None and self.can_inline(f):
            self.stats['inlined'] += 1
            for o in self.call_body(s, f, L, vs, e):
                if o.k == T:
                    self.thrown[-1].append((o.st, o.v))
                elif o.k in (R, N):
                    yield o.st, (o.v if o.v is not None else ('void',))
            return
        yield from self.opaque(s, e, L, vs)

    def is_pure(self, key):
        mi = self.db.method_info.get(key)
        return bool(mi and mi[1].get('pure'))

    def opaque(self, s, e, L, vs):
        """effect of a call whose body is not interpreted"""
        self.stats['opaque'] += 1
        name = e['n']
        pk = e.get('pk', '')
        mt = self.rule.may_throw(self, name, e)
        external = e['f'] not in self.db.functions and e['f'] not in self.db.method_info
        if mt is None:
            mt = (not e.get('nx')) and not name.startswith(('std::', '__', 'boost::', 'asio::')) and not external
        if mt:
            self.thrown[-1].append((s.copy(), ('exc', '?', None)))
        if e.get('nr'):
            return
        args = tuple(self.argval(s, v, k) for v, k in zip(vs, pk + 'v' * 20))
        if external and L is not None and e.get('obj', {}).get('k') == 'this' and not self.project_class(e['ot'].replace('const ', '').rstrip(' *&')):
            # method of a library base class: it can only change the base subobject
            L = ('base', L, e['ot'].replace('const ', '').rstrip(' *&'))
        objv = ()
        pure = False
        if L is not None:
            objv = (L,)
        if external or name.startswith('std::'):
            if (L is None or e.get('cm')) and not any(k in 'rp' for k in pk):
                pure = True
        if pure:
            ov = ()
            if L is not None:
                ov = (self.objval(s, L),)
            yield s, ('call', name, ov, args)
            return
        s.ctr += 1
        n = s.ctr
        t = ('call', name, objv, args, n)
        # effects
        if external:
            if L is not None and not e.get('cm'):
                self.touch(s, L, ('mut', name, objv, args, n))
            for v, k in zip(vs, pk + 'v' * 20):
                if k in 'rpm' and isinstance(v, tuple) and v and v[0] == 'loc':
                    self.touch(s, v[1], ('out', name, n))
        else:
            self.havoc_call(s, e, L, vs)
        if e.get('rr'):
            yield s, ('loc', ('deref', t))
        else:
            yield s, t

    def objval(self, st, L):
        v = self.load(st, L, {})
        if isinstance(v, tuple) and v and v[0] == 'obj':
            return self.snap(st, v[1])
        return v

    def touch(self, st, L, v):
        if L[0] in ('elem0', 'ptr'):
            L = L[1]
        for K in [K for K in st.store if K != L and self.under(K, L)]:
            del st.store[K]
        self.rule.on_write(self, st, L, v, None)
        st.store[L] = v

    def havoc_call(self, st, e, L, vs):
        mods = self.mods_of_call(e)
        self.havoc_fields(st, mods)
        pk = e.get('pk', '')
        for v, k in zip(vs, pk + 'v' * 20):
            if k in 'rp' and isinstance(v, tuple) and v and v[0] == 'loc':
                X = v[1]
                r = root_of(X)
                if r[0] in ('var', 'tmp', 'cap', 'elem0', 'ptr'):
                    self.touch(st, X, ('out', e['n'], st.ctr))

    def havoc_args(self, st, f, vs, pk):
        self.havoc_fields(st, self.mods(f['key']))

    def havoc_fields(self, st, mods):
        if not mods:
            return
        if mods is ALL:
            dead = [K for K in st.store if self.heapish(st, K)]
            for K in dead:
                v = st.store[K]
                if isinstance(v, tuple) and v and v[0] == 'loc' and K[0] == 'fld' and K in st.store.get(('refmark',), ()):
                    continue
                del st.store[K]
            for f in list(st.ver):
                st.ver[f] += 1
            st.ver['*'] = st.ver.get('*', 0) + 1
            return
        dead = []
        for K in st.store:
            if K[0] in ('fld', 'idx', 'opt') and (fields_in(K) & mods) and self.heapish(st, K):
                dead.append(K)
            elif K[0] == 'g' and K[1] in mods:
                dead.append(K)
        for K in dead:
            del st.store[K]
        for f in mods:
            st.ver[f] = st.ver.get(f, 0) + 1

    def heapish(self, st, K):
        r = root_of(K)
        if r[0] in ('var', 'tmp', 'cap'):
            return r in st.escaped
        return True

    # MOD summaries: fields a function may write, transitively (CHA on virtual calls)
    def mods(self, key):
        if key in self.mod_cache:
            return self.mod_cache[key]
        g = getattr(self.db, '_direct', None)
        if g is None:
            g = self.db._direct = build_direct(self.db)
        seen, todo, out = {key}, [key], set()
        while todo:
            k = todo.pop()
            d = g.get(k)
            if d is None:
                continue
            out |= d[0]
            if d[2]:
                pass
            for c in d[1]:
                if c not in seen:
                    seen.add(c)
                    if not self.modelled(c):
                        todo.append(c)
        self.mod_cache[key] = frozenset(out)
        return self.mod_cache[key]

    def modelled(self, key):
        f = self.db.functions.get(key)
        if f is None:
            mi = self.db.method_info.get(key)
            return bool(mi) and self.rule.models(mi[0] + '::' + mi[1]['n'].split('::')[-1])
        return self.rule.models(f['n'])

    def mods_of_call(self, e):
        if self.rule.models(e['n']):
            return frozenset()
        keys = [e['f']]
        if e.get('vt'):
            keys = list(self.db.overriders(e['f']))
        out = set()
        for k in keys:
            m = self.mods(k)
            out |= m
        return frozenset(out)

    # ------------------------------------------------------------ std models
    def std_model(self, s, e, L, vs):
        n = e['n']
        op = e.get('op')
        if n.startswith('std::'):
            last = n.rsplit('::', 1)[-1]
            own = n.rsplit('::', 1)[0]
            if last in ('move', 'forward', 'ref', 'cref', 'addressof', 'as_const') and len(vs) == 1:
                v = vs[0]
                return [(s, v if last == 'addressof' or True else v)]
            if own.startswith(('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'std::optional')):
                if last in ('operator->', 'operator*', 'get', 'value'):
                    v = self.load(s, L, {})
                    if last == 'operator*' or last == 'value':
                        return [(s, ('loc', self.deref(s, v, e)))]
                    if isinstance(v, tuple) and v and v[0] == 'obj':
                        return [(s, ('loc', v[1]))]
                    if own.startswith('std::optional'):
                        return [(s, ('loc', self.deref(s, v, e)))]
                    return [(s, v)]
                if last in ('operator bool', 'has_value'):
                    v = self.load(s, L, {})
                    return [(s, v)] if v[0] in ('null', 'loc', 'obj') else [(s, ('nonnull', v))]
                if last in ('reset', 'operator=') and (not vs or vs[0] in (('null',),) or self.value(s, vs[0]) == ('null',)):
                    return self.reset_owner(s, L, ('null',))
                if last == 'operator=' and len(vs) == 1:
                    return self.reset_owner(s, L, self.value(s, vs[0]))
                if last == 'emplace':
                    return self.emplace(s, e, L, vs)
            if last in ('make_unique', 'make_shared', 'make_unique_for_overwrite'):
                s.ctr += 1
                cls = (e.get('ta') or '').split(';')[0]
                X = ('heap', cls, s.ctr)
                return self.make_obj(s, e, cls, X, vs)
            if own.startswith('std::fpos<') and L is not None:
                if last.startswith('operator ') and not vs:
                    return [(s, self.rd(s, L))]
                if last in ('operator+=', 'operator-='):
                    self.wr(s, L, self.binop(s, last[8], self.rd(s, L), self.value(s, vs[0]), 'long'), e)
                    return [(s, ('loc', L))]
                if last in ('operator+', 'operator-'):
                    return [(s, self.binop(s, last[8], self.rd(s, L), self.value(s, vs[0]), 'long'))]
            if op == '=' and L is not None and len(vs) == 1:
                v = self.argval(s, vs[0], e.get('pk', 'c')[:1] or 'c')
                self.wr(s, L, v, e)
                return [(s, ('loc', L))]
            if last in ('operator basic_string_view', 'operator string_view', 'operator std::string_view') and L is not None:
                return [(s, self.load(s, L, {}))]
            if last in ('min', 'max') and len(vs) == 2:
                a, b = self.value(s, vs[0]), self.value(s, vs[1])
                if is_int(a) and is_int(b):
                    return [(s, I(min(a[1], b[1]) if last == 'min' else max(a[1], b[1])))]
                if self.rule.fork_minmax:
                    less, outs = ('op', '<', a, b), []
                    for w in (True, False):
                        s2 = self.assume(s, less, w)
                        if s2 is not None:
                            outs.append((s2, b if w == (last == 'max') else a))
                    return outs
                return [(s, (last, a, b))]
            if last in ('data', 'c_str') and L is not None and len(vs) == 0:
                return [(s, ('loc', ('elem0', L)))]
            if last == 'operator[]' and L is not None or (last in ('at',) and L is not None):
                i = self.value(s, vs[0]) if e.get('pk', 'v')[:1] in ('c', 'm', 'r') else vs[0]
                self.rule.on_index(self, s, L, i, e)
                return [(s, ('loc', ('idx', L, i)))]
            if last == 'front' and L is not None:
                return [(s, ('loc', ('idx', L, I(0))))]
            if last in ('to_underlying',):
                return [(s, vs[0])]
            if own.startswith('std::function') and last == 'operator()':
                return list(self.apply(s, self.load(s, L, {}), vs, e))
            if own.startswith('std::atomic') or own.startswith('std::__atomic'):
                if last in ('store', 'operator='):
                    self.wr(s, L, vs[0], e)
                    return [(s, ('void',))]
                if last in ('load',) or last.startswith('operator '):
                    return [(s, self.rd(s, L))]
            if last == 'tie' or last == 'make_pair':
                return [(s, (last,) + tuple(self.value(s, v) for v in vs))]
            if last == 'exchange' and len(vs) == 2 and vs[0][0] == 'loc':
                old = self.rd(s, vs[0][1])
                self.wr(s, vs[0][1], self.value(s, vs[1]), e)
                return [(s, old)]
            if last == 'swap' and len(vs) == 2 and vs[0][0] == 'loc' and vs[1][0] == 'loc':
                a, b = self.rd(s, vs[0][1]), self.rd(s, vs[1][1])
                self.wr(s, vs[0][1], b, e)
                self.wr(s, vs[1][1], a, e)
                return [(s, ('void',))]
        if e.get('op') == '()' and L is not None:
            v = self.load(s, L, {})
            if isinstance(v, tuple) and v and v[0] == 'lamv':
                return list(self.apply(s, v, vs, e))
        if n in ('memcpy', 'memmove', '__builtin_memcpy', 'std::memcpy') and len(vs) == 3 and vs[0][0] == 'loc':
            self.touch(s, vs[0][1], ('memcpy', self.value(s, vs[1]) if vs[1][0] == 'loc' else vs[1], vs[2]))
            return [(s, vs[0])]
        return None

    def reset_owner(self, s, L, nv):
        v = s.store.get(L)
        res = [(s, None)]
        if isinstance(v, tuple) and v and v[0] in ('loc', 'obj') and s.cls.get(v[1]):
            res = []
            for o in self.destroy(s.copy(), v[1], s.cls[v[1]]):
                if o.k == T:
                    self.thrown[-1].append((o.st, o.v))
                else:
                    res.append((o.st.copy(), None))
        out = []
        for s2, _ in res:
            self.wr(s2, L, nv if not (isinstance(nv, tuple) and nv and nv[0] == 'obj') else ('loc', nv[1]))
            out.append((s2, ('loc', L)))
        return out

    def emplace(self, s, e, L, vs):
        own = e['n'].rsplit('::', 1)[0]
        cls = own[own.index('<') + 1:-1] if '<' in own else ''
        out = []
        for s1, _ in self.reset_owner(s, L, ('null',)):
            s1 = s1.copy()
            s1.ctr += 1
            X = ('opt', L, s1.ctr)
            for s2, v in self.make_obj(s1, e, cls, X, vs):
                s2 = s2.copy()
                s2.store[L] = ('loc', X)
                out.append((s2, ('loc', X)))
        return out

    def make_obj(self, s, e, cls, X, vs):
        """constructs an object of class cls at X from argument references"""
        c = self.db.classes.get(cls)
        s.cls[X] = cls
        if not c or 'methods' not in c:
            return [(s, ('loc', X))]
        cands = [m for m in c['methods'] if m.get('kind') == 'ctor' and len(m['ps']) >= len(vs) and not m.get('cp') and not m.get('del')]
        exact = [m for m in cands if len(m['ps']) == len(vs)]
        cands = exact or cands
        if len(cands) >= 1:
            # pick the first candidate with a body
            for m in cands:
                f = self.db.functions.get(m['f'])
                if f is None:
                    continue
                vals = [v if k in 'rcm' else self.value(s, v) for v, k in zip(vs, m['pk'] + 'v' * 9)]
                node = {'f': m['f'], 'n': c['q'], 't': cls, 'l': e.get('l', 0), 'pk': m['pk'], 'a': [], 'nx': m.get('nx')}
                return [(s2, ('loc', X)) for s2, v in self.construct(s, node, cls, vals, L=X)]
        return [(s2, ('loc', X)) for s2 in self.default_fields(s, X, cls)]

    def apply(self, s, fv, vs, e):
        """call through a function value"""
        if isinstance(fv, tuple) and fv and fv[0] == 'loc':
            fv = self.load(s, fv[1], {})
        if isinstance(fv, tuple) and fv and fv[0] == 'lamv':
            f = self.db.functions.get(fv[1])
            if f is not None and self.can_inline(f):
                args = [v if k in 'rcm' else self.value(s, v) if (isinstance(v, tuple) and v and v[0] == 'loc' and e.get('pk', 'v' * 9)[i:i + 1] in ('r', 'c', 'm')) else v
                        for i, (v, k) in enumerate(zip(vs, f.get('pk', '') + 'v' * 9))]
                for o in self.call_body(s, f, None, args, e, lam=fv):
                    if o.k == T:
                        self.thrown[-1].append((o.st, o.v))
                    else:
                        yield o.st, (o.v if o.v is not None else ('void',))
                return
        if isinstance(fv, tuple) and fv and fv[0] == 'fnp':
            f = self.db.functions.get(fv[1])
            if f is not None and self.can_inline(f):
                for o in self.call_body(s, f, None, vs, e):
                    if o.k == T:
                        self.thrown[-1].append((o.st, o.v))
                    else:
                        yield o.st, (o.v if o.v is not None else ('void',))
                return
        r = self.rule.on_call(self, s, {'n': '<indirect>', 'f': '', 'a': [], 'pk': ''}, fv, vs, e)
        if r is not None:
            yield from r
            return
        s = s.copy()
        if not e.get('nx'):
            self.thrown[-1].append((s.copy(), ('exc', '?', None)))
        self.havoc_fields(s, ALL)
        s.ctr += 1
        yield s, ('call', '<indirect>', (), tuple(vs), s.ctr)

    def call_body(self, s, f, L, vs, e, is_dtor=False, lam=None):
        """interpret the body of f; returns list of Out (N/R -> R, T)"""
        self.used_fns.add(f['key'])
        s = s.copy()
        fr = {'this': L, 'vars': {}, 'refs': set(), 'f': f}
        if lam is not None:
            parent_vars = {}
            for c in lam[2]:
                if c[0] == 'this':
                    fr['this'] = c[1]
                else:
                    parent_vars[c[0]] = c[2]
            fr['vars'].update(parent_vars)
        depth = len(self.frames) + 1
        mark = len(s.scopes)
        for i, p in enumerate(f['ps']):
            PL = ('var', p['id'], depth)
            fr['vars'][p['id']] = PL
            v = vs[i] if i < len(vs) else ('sym', 'param', p['n'])
            if p.get('ref'):
                fr['refs'].add(PL)
                if not (isinstance(v, tuple) and v and v[0] == 'loc'):
                    if isinstance(v, tuple) and v and v[0] == 'obj':
                        v = ('loc', v[1])
                    else:
                        s.ctr += 1
                        TL = ('tmp', s.ctr)
                        s.store[TL] = v
                        v = ('loc', TL)
                self.drop_under(s, PL)
                s.store[PL] = v
            else:
                self.wr_quiet(s, PL, v)
                if p.get('d'):
                    s.scopes = s.scopes + ((PL, p['d']),)
        self.frames.append(fr)
        self.stack.append(f['key'])
        try:
            outs = []
            states = [s]
            if f.get('kind') == 'ctor':
                states, tout = self.run_inits(s, f, L)
                outs += tout
            for s1 in states:
                res = self.exec(f['body'], s1) if f.get('body') else [Out(N, s1)]
                if f.get('kind') == 'ctor' and any(o.k == T for o in res):
                    dlg = any(i.get('dlg') for i in f.get('in', ()))
                    fixed = []
                    for o in res:
                        if o.k == T:
                            fixed += list(self.destroy_members(o, f, L, dlg))
                        else:
                            fixed.append(o)
                    res = fixed
                outs += res
            final = []
            for o in outs:
                k = R if o.k in (N, R) else o.k
                v = o.v
                for o2 in self.unwind(Out(k, o.st, v), mark):
                    final.append(o2)
            return self.dedupe(final)
        finally:
            self.frames.pop()
            self.stack.pop()

    def run_inits(self, s, f, L):
        """member/base initialisers; returns (states, throw outs)"""
        states, outs = [s], []
        cls = self.db.classes.get(f.get('cls', ''), {})
        done = []
        for ini in f.get('in', ()):
            nxt = []
            for x in states:
                sink = []
                self.thrown.append(sink)
                mark = len(x.scopes)
                res = []
                e = ini['e']
                if ini.get('b') or ini.get('dlg'):
                    inner = e
                    while inner and inner.get('k') in ('full', 'tmp'):
                        inner = inner['e']
                    if inner and inner.get('k') == 'ctor':
                        for s1, vs in list(self.evs(inner['a'], x, inner.get('pk', ''))):
                            cl = x.cls.get(L)
                            for s2, v in self.construct(s1, inner, ini.get('b') or f['cls'], vs, L=L):
                                s2 = s2.copy()
                                if cl:
                                    s2.cls[L] = cl
                                res.append(s2)
                    else:
                        for s1, v in self.ev(e, x):
                            res.append(s1)
                else:
                    FL = ('fld', L, ini['m'])
                    if ini.get('ref'):
                        for s1, X in self.lv(e, x):
                            s1 = s1.copy()
                            self.drop_under(s1, FL)
                            s1.store[FL] = ('loc', X)
                            res.append(s1)
                    else:
                        inner = e
                        while inner and inner.get('k') in ('full', 'tmp'):
                            inner = inner['e']
                        for s1, v in (self.ev(e, x) if e is not None else [(x, ('void',))]):
                            s1 = s1.copy()
                            self.wr(s1, FL, v, ini)
                            res.append(s1)
                self.thrown.pop()
                for s2, v in sink:
                    o = Out(T, s2, v)
                    for o1 in self.unwind(o, mark):
                        for o2 in self.destroy_some(o1, done, L, f):
                            outs.append(o2)
                for s2 in res:
                    if len(s2.scopes) > mark:
                        # temporaries of the initialiser (moved into the member: not destroyed twice)
                        s2 = s2.copy()
                        keep = []
                        s2.scopes = s2.scopes[:mark]
                    nxt.append(s2)
            states = nxt
            done = done + [ini]
        return states, outs

    def destroy_some(self, o, done, L, f):
        outs = [o]
        cls = self.db.classes.get(f.get('cls', ''), {})
        fd = {cls.get('q', '') + '::' + x['n']: x for x in cls.get('fields', ())}
        for ini in reversed(done):
            nxt = []
            for x in outs:
                if ini.get('m') in fd and fd[ini['m']].get('d') and not ini.get('ref'):
                    for o2 in self.destroy(x.st, ('fld', L, ini['m']), fd[ini['m']]['d']):
                        nxt.append(Out(T, o2.st, x.v))
                elif ini.get('b'):
                    for o2 in self.destroy(x.st, L, ini['b']):
                        nxt.append(Out(T, o2.st, x.v))
                elif ini.get('dlg'):
                    for o2 in self.destroy(x.st, L, f['cls']):
                        nxt.append(Out(T, o2.st, x.v))
                else:
                    nxt.append(x)
            outs = nxt
        return outs

    def destroy_members(self, o, f, L, dlg):
        return self.destroy_some(o, list(f.get('in', ())), L, f)

    # ------------------------------------------------------------ statements
    def dedupe(self, outs):
        if len(outs) < 2:
            return outs
        groups = {}
        order = []
        for o in outs:
            st = o.st
            try:
                k = (o.k, o.v, st.ts, st.ev, st.scopes, frozenset(st.store.items()))
            except TypeError:
                k = id(o)
            g = groups.get(k)
            if g is None:
                groups[k] = o
                order.append(k)
            elif self.rule.merge:
                # keep facts common to both
                a, b = g.st.facts, st.facts
                if a != b:
                    common = {}
                    for x, y in a.items():
                        if b.get(x) == y:
                            common[x] = y
                        elif isinstance(x, tuple) and x[0] == 'bnd' and x in b:
                            l1, h1 = y
                            l2, h2 = b[x]
                            common[x] = (min(l1, l2) if l1 is not None and l2 is not None else None,
                                         max(h1, h2) if h1 is not None and h2 is not None else None)
                    ns = g.st.copy()
                    ns.facts = common
                    ns.ver = {f: max(g.st.ver.get(f, 0), st.ver.get(f, 0)) for f in set(g.st.ver) | set(st.ver)}
                    ns.ctr = max(g.st.ctr, st.ctr)
                    groups[k] = Out(g.k, ns, g.v)
            else:
                if g.st.facts != st.facts:
                    k2 = (k, len(order))
                    groups[k2] = o
                    order.append(k2)
        return [groups[k] for k in order]

    def exec(self, s, st):
        """returns list of Out"""
        if s is None:
            return [Out(N, st)]
        m = getattr(self, 's_' + s['s'], None)
        if m is None:
            raise AnalysisError('unknown statement kind ' + s['s'])
        self.rule.on_stmt(self, st, s)
        outs = m(s, st)
        outs = self.dedupe(outs)
        if len(outs) > self.rule.max_states:
            raise AnalysisError('too many abstract states in %s line %s' % (self.stack[-1] if self.stack else '?', s.get('l')))
        return outs

    def guarded(self, fn):
        """run generator producing (st, v); returns (list, throw Outs)"""
        sink = []
        self.thrown.append(sink)
        try:
            res = list(fn())
        finally:
            self.thrown.pop()
        return res, [Out(T, s, v) for s, v in sink]

    def s_block(self, s, st):
        mark = len(st.scopes)
        outs, cur = [], [st]
        for c in s['b']:
            nxt = []
            for x in cur:
                for o in self.exec(c, x):
                    if o.k == N:
                        nxt.append(o.st)
                    else:
                        outs.append(o)
            if len(nxt) > 1:
                nxt = [o.st for o in self.dedupe([Out(N, x) for x in nxt])]
            cur = nxt
            if not cur:
                break
        outs += [Out(N, x) for x in cur]
        final = []
        for o in outs:
            final += self.unwind(o, mark)
        return final

    def s_null(self, s, st):
        return [Out(N, st)]

    def s_other(self, s, st):
        return [Out(N, st)]

    def s_label(self, s, st):
        return self.exec(s['b'], st)

    def s_goto(self, s, st):
        raise AnalysisError('goto is not supported')

    def s_expr(self, s, st):
        res, t = self.guarded(lambda: self.fullexpr(s['e'], st))
        return [Out(N, x) for x, v in res] + t

    def declare(self, v, st):
        """yields states after declaring variable record v"""
        L = ('var', v['id'], len(self.frames))
        self.frames[-1]['vars'][v['id']] = L
        st = st.copy()
        self.drop_under(st, L)
        if v.get('static'):
            self.frames[-1]['vars'][v['id']] = ('g', v['id'])
            yield st
            return
        if v.get('ref'):
            self.frames[-1]['refs'].add(L)
            mark = len(st.scopes)
            e = v.get('e')
            if e is not None:
                inner = e['e'] if e['k'] == 'full' else e
                for s, X in self.lv(inner, st):
                    s = s.copy()
                    s.store[L] = ('loc', X)
                    self.bindings(v, s, X)
                    yield s
            else:
                st.store[L] = ('loc', ('refto', L))
                yield st
            return
        if v.get('e') is not None:
            for s, val in self.fullexpr_init(v['e'], st):
                s = s.copy()
                if isinstance(val, tuple) and val and val[0] == 'obj' and val[1] in s.cls and '(' not in val[1]:
                    pass
                self.rule.on_write(self, s, L, val, v)
                self.wr_quiet(s, L, val)
                if v.get('d'):
                    s.scopes = s.scopes + ((L, v['d']),)
                if v.get('bind'):
                    self.bindings(v, s, L)
                yield s
            return
        if v.get('d'):
            st.scopes = st.scopes + ((L, v['d']),)
        st.store[L] = ('uninit', v['n'])
        yield st

    def bindings(self, v, st, X):
        for b in v.get('bind', ()):
            pass

    def fullexpr_init(self, e, st):
        """initialiser: temporaries die, but the object initialised itself survives"""
        if e['k'] == 'full':
            mark = len(st.scopes)
            sink = []
            self.thrown.append(sink)
            res = list(self.ev(e['e'], st))
            self.thrown.pop()
            for s, v in sink:
                for o2 in self.unwind(Out(T, s, v), mark):
                    self.thrown[-1].append((o2.st, o2.v))
            for s, v in res:
                keep = v[1] if isinstance(v, tuple) and v and v[0] == 'obj' else None
                if keep is not None:
                    s = s.copy()
                    s.scopes = s.scopes[:mark] + tuple(x for x in s.scopes[mark:] if x[0] != keep)
                if len(s.scopes) > mark:
                    for o2 in self.unwind(Out(N, s, v), mark):
                        if o2.k == T:
                            self.thrown[-1].append((o2.st, o2.v))
                        else:
                            yield o2.st, o2.v
                else:
                    yield s, v
        else:
            for s, v in self.ev(e, st):
                yield s, v

    def s_decl(self, s, st):
        outs = []
        cur = [st]
        for v in s['v']:
            nxt = []
            for x in cur:
                res, t = self.guarded(lambda: ((y, None) for y in self.declare(v, x)))
                outs += t
                nxt += [y for y, _ in res]
            cur = nxt
        return outs + [Out(N, x) for x in cur]

    def with_init(self, s, st, body):
        """handle init statement / condition variable scope"""
        mark = len(st.scopes)
        outs, cur = [], [st]
        if s.get('i'):
            nxt = []
            for x in cur:
                for o in self.exec(s['i'], x):
                    if o.k == N:
                        nxt.append(o.st)
                    else:
                        outs.append(o)
            cur = nxt
        if s.get('cv'):
            nxt = []
            for x in cur:
                res, t = self.guarded(lambda: ((y, None) for y in self.declare(s['cv'], x)))
                outs += t
                nxt += [y for y, _ in res]
            cur = nxt
        for x in cur:
            outs += body(x)
        final = []
        for o in outs:
            final += self.unwind(o, mark)
        return final

    def s_if(self, s, st):
        def body(x):
            outs = []
            res, t = self.guarded(lambda: self.cond(s['c'], x))
            outs += t
            for y, b in res:
                if b:
                    outs += self.exec(s['t'], y)
                elif s.get('e'):
                    outs += self.exec(s['e'], y)
                else:
                    outs.append(Out(N, y))
            return outs
        if s.get('i') or s.get('cv'):
            return self.with_init(s, st, body)
        return body(st)

    def s_ret(self, s, st):
        if s.get('e') is None:
            return [Out(R, st, ('void',))]
        e = s['e']
        f = self.frames[-1]['f']
        rt = f.get('t', '') if f else ''
        if rt.endswith('&') and not s.get('co'):
            inner = e['e'] if e['k'] == 'full' else e
            res, t = self.guarded(lambda: self.lv(inner, st))
            return [Out(R, x, ('loc', v)) for x, v in res] + t
        res, t = self.guarded(lambda: self.fullexpr_init(e, st))
        outs = list(t)
        for x, v in res:
            if isinstance(v, tuple) and v and v[0] == 'obj' and v[1][0] == 'var':
                x = x.copy()
                x.ctr += 1
                L2 = ('tmp', x.ctr)
                self.copy_obj(x, v[1], L2)
                # returning a local moves it out: it is not destroyed twice
                if any(sc[0] == v[1] for sc in x.scopes):
                    x.scopes = tuple(sc for sc in x.scopes if sc[0] != v[1])
                v = ('obj', L2)
            outs.append(Out(R, x, v))
        return outs

    def s_break(self, s, st):
        return [Out(B, st)]

    def s_continue(self, s, st):
        return [Out(C, st)]

    # ---- loops
    def loop(self, st, cond, body, inc, s, post_test=False):
        """generic loop; cond: expr or None; body/inc callables returning Outs"""
        outs = []
        # 1. bounded unrolling while the condition is decided by constants
        cur = [st]
        first = post_test
        decided = True
        for it in range(self.rule.loop_unroll):
            nxt = []
            for x in cur:
                if not first and cond is not None:
                    res, t = self.guarded(lambda: self.cond(cond, x))
                    # abandon unrolling when the condition forks
                    if len(set(b for _, b in res)) != 1 and len(cur) < 9 and self.bounded(cond, x):
                        # another reason to stop, besides the end of a bounded loop
                        outs += t
                        go = False
                        for y, b in res:
                            if not b:
                                outs.append(Out(N, y))
                                continue
                            for o in body(y):
                                if o.k in (N, C):
                                    for o2 in (inc(o.st) if inc else [Out(N, o.st)]):
                                        if o2.k == N:
                                            nxt.append(o2.st)
                                        else:
                                            outs.append(o2)
                                elif o.k == B:
                                    outs.append(Out(N, o.st))
                                else:
                                    outs.append(o)
                        continue
                    if len(set(b for _, b in res)) != 1:
                        decided = False
                        break
                    outs_t = t
                    y, b = res[0] if len(res) == 1 else (None, None)
                    if y is None:
                        decided = False
                        break
                    outs += t
                    if not b:
                        outs.append(Out(N, y))
                        continue
                    x = y
                elif not first and cond is None:
                    decided = False
                    break
                for o in body(x):
                    if o.k in (N, C):
                        for o2 in (inc(o.st) if inc else [Out(N, o.st)]):
                            if o2.k == N:
                                nxt.append(o2.st)
                            else:
                                outs.append(o2)
                    elif o.k == B:
                        outs.append(Out(N, o.st))
                    else:
                        outs.append(o)
            if not decided:
                break
            first = False
            cur = nxt
            if not cur:
                return outs
            if len(cur) > 8 and s.get('c') and bare_true(s['c']):
                it = self.rule.loop_unroll - 1
                break
        if it == 0 or not decided or cur:
            # 2. abstract iteration
            if decided and it == self.rule.loop_unroll - 1:
                outs = []
                cur = [st]
                first = post_test
            elif not decided and it > 0:
                # some iterations were unrolled; continue abstractly from cur
                pass
            for x in cur:
                outs += self.abstract_loop(x, cond, body, inc, s, first)
        return outs

    def bounded(self, cond, st):
        """cond is a conjunction, and part of it is decided"""
        parts = []
        work = [cond]
        while work:
            e = work.pop()
            while e.get('k') in ('icast', 'full'):
                e = e['e']
            if e.get('k') == 'bin' and e.get('op') == '&&':
                work += [e['x'], e['y']]
            else:
                parts.append(e)
        if len(parts) < 2:
            return False
        for e in parts:
            if e.get('k') in ('bin', 'call', 'un'):
                res, _ = self.guarded(lambda: self.ev(e, st.copy()))
                if len(res) == 1 and self.value(res[0][0], res[0][1]) == I(1):
                    return True
        return False

    def abstract_loop(self, st, cond, body, inc, s, post_test):
        assigned = self.loop_assigned(s)
        base_ev = st.ev
        outs = []
        seen = {}
        work = [(st.ts, st, True)]
        body_traces = []
        exits = []
        guard = 0
        while work:
            ts, x, is_first = work.pop()
            guard += 1
            if guard > 400:
                raise AnalysisError('loop does not stabilise line %s' % s.get('l'))
            y = x.copy()
            if not is_first:
                self.havoc_loop(y, assigned)
                if self.rule.iter_hook:
                    self.rule.on_loop_head(self, s, st, y)
            y.ev = ()
            y0 = y.copy() if self.rule.iter_hook else None
            sub = []
            if post_test and is_first:
                res = [(y, True)]
                t = []
            elif cond is not None:
                res, t = self.guarded(lambda: self.cond(cond, y))
            else:
                res, t = [(y, True)], []
            for o in t:
                exits.append(o)
            for z, b in res:
                if not b:
                    exits.append(Out(N, z))
                    continue
                head = y0
                if is_first:
                    # the first iteration also represents later ones: havoc, and re-assume the condition
                    z = z.copy()
                    self.havoc_loop(z, assigned)
                    if self.rule.iter_hook:
                        self.rule.on_loop_head(self, s, st, z)
                        head = z.copy()
                    z2 = z.copy()
                    if cond is not None and not post_test:
                        r2, t2 = self.guarded(lambda: self.cond(cond, z2))
                        zs = [q for q, bb in r2 if bb]
                        for o in t2:
                            exits.append(o)
                    else:
                        zs = [z2]
                else:
                    zs = [z]
                for z in zs:
                    begin = (head if self.rule.iter_from_head else z.copy()) if self.rule.iter_hook else None
                    for o in body(z):
                        if o.k in (N, C):
                            for o2 in (inc(o.st) if inc else [Out(N, o.st)]):
                                if o2.k == N:
                                    if begin is not None:
                                        self.rule.on_iter(self, s, begin, o2.st)
                                    sub.append(o2.st)
                                else:
                                    exits.append(o2)
                        elif o.k == B:
                            exits.append(Out(N, o.st))
                        else:
                            exits.append(o)
            for z in sub:
                if z.ev and z.ev not in body_traces:
                    body_traces.append(z.ev)
                key = (z.ts,)
                if key not in seen:
                    seen[key] = 1
                    work.append((z.ts, z, False))
        lt = ()
        if body_traces:
            lt = (('loop', tuple(sorted(body_traces, key=repr))),)
        for o in exits:
            z = o.st.copy()
            if self.rule.iter_hook:
                self.rule.on_loop_exit(self, s, st, o.k, z)
            z.ev = base_ev + lt + z.ev
            outs.append(Out(o.k, z, o.v))
        return outs

    def loop_assigned(self, s):
        ck = '_asg' + type(self.rule).__name__
        c = s.get(ck)
        if c is not None:
            return c
        names, fields, allf = set(), set(), [False]
        def target(e):
            while e:
                k = e.get('k')
                if k == 'var':
                    names.add(e['id'])
                    return
                if k == 'mem':
                    fields.add(e['n'])
                    e = e['b']
                    continue
                if k == 'idx':
                    e = e['b']
                    if e.get('k') == 'var' and (e.get('t') or '').endswith('*'):
                        names.add(('*', e['id']))
                        return
                    continue
                if k in ('cast', 'icast', 'full', 'tmp'):
                    e = e['e']
                    continue
                if k == 'un':
                    e = e['e']
                    continue
                if k == 'call':
                    e = e.get('obj')
                    continue
                return
        def scan(node, depth=0):
            for n in walk(node):
                if n.get('k') == 'bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
                    target(n['x'])
                elif n.get('k') == 'un' and n['op'] in ('++', '--'):
                    target(n['e'])
                elif n.get('k') == 'un' and n['op'] == '&':
                    target(n['e'])
                elif n.get('k') == 'call':
                    pk = n.get('pk', '')
                    if n.get('obj') is not None and not n.get('cm'):
                        target(n['obj'])
                    for a, k in zip(n.get('a', ()), pk + 'v' * 20):
                        if k in 'rmp':
                            target(a)
                    if n.get('f'):
                        fields.update(self.mods_of_call(n))
                elif n.get('k') == 'ctor':
                    fields.update(self.mods(n['f']))
                    for a, k in zip(n.get('a', ()), n.get('pk', '') + 'v' * 20):
                        if k in 'rm':
                            target(a)
                elif n.get('k') == 'lam':
                    f = self.db.functions.get(n['f'])
                    if f and depth < 4:
                        scan(f.get('body'), depth + 1)
                elif 'id' in n and 'k' not in n and 't' in n:
                    names.add(n['id'])
        for part in ('c', 'b', 'u', 'v'):
            if s.get(part) is not None:
                scan(s[part])
        s[ck] = (frozenset(names), frozenset(fields))
        return s[ck]

    def havoc_loop(self, st, assigned):
        names, fields = assigned
        fields = fields - self.rule.tracked if fields is not ALL else fields
        st.ctr += 1
        fr = self.frames[-1]
        for n in sorted(names, key=repr):
            if isinstance(n, tuple):
                X = st.store.get(fr['vars'].get(n[1]))
                if isinstance(X, tuple) and X and X[0] == 'loc':
                    self.drop_under(st, X[1])
                    if X[1][0] == 'var':
                        st.store[X[1]] = ('phi', n[1], st.ctr)
                continue
            L = fr['vars'].get(n)
            if L is None:
                continue
            if L in fr['refs']:
                X = st.store.get(L)
                if isinstance(X, tuple) and X and X[0] == 'loc':
                    if X[1][0] == 'fld':
                        # a reference to a member: the member changes, as if it was accessed directly
                        if X[1][2] in self.rule.tracked:
                            continue
                        self.drop_under(st, X[1])
                        st.store.pop(X[1], None)
                        st.ver[X[1][2]] = st.ver.get(X[1][2], 0) + 1
                        continue
                    self.drop_under(st, X[1])
                    st.store[X[1]] = ('phi', n, st.ctr)
                continue
            had_cls = L in st.cls and self.project_class(st.cls[L])
            self.drop_under(st, L)
            if not had_cls:
                st.store[L] = ('phi', n, st.ctr)
        kept = {}
        if self.rule.own_locals and fields is not ALL:
            # objects declared here whose address is not taken change only where their name is used
            for n, L in fr['vars'].items():
                for w in self.rule.wraps:
                    if w in fields and n not in names and L not in fr['refs'] and L[0] == 'var' and st.cls.get(L) == w.rsplit('::', 1)[0]:
                        kept[('fld', L, w)] = self.rd(st, ('fld', L, w))
        dead = []
        for K in st.store:
            if K[0] in ('fld', 'idx', 'opt') and (fields_in(K) & fields):
                v = st.store[K]
                if isinstance(v, tuple) and v and v[0] == 'loc':
                    # reference members never change
                    pass
                dead.append(K)
        for K in dead:
            del st.store[K]
        for f in fields:
            st.ver[f] = st.ver.get(f, 0) + 1
        st.store.update(kept)

    def s_while(self, s, st):
        if s.get('cv'):
            s2 = dict(s)
            cv = s2.pop('cv')
            inner = {'s': 'block', 'b': [{'s': 'decl', 'v': [cv], 'l': s.get('l')},
                                         {'s': 'if', 'c': s['c'], 't': s['b'], 'e': {'s': 'break'}, 'l': s.get('l')}]}
            return self.loop(st, None, lambda x: self.exec(inner, x), None, {'c': s['c'], 'b': inner, 'l': s.get('l')})
        return self.loop(st, s['c'], lambda x: self.exec(s['b'], x), None, s)

    def s_do(self, s, st):
        return self.loop(st, s['c'], lambda x: self.exec(s['b'], x), None, s, post_test=True)

    def s_for(self, s, st):
        def inc(x):
            if s.get('u') is None:
                return [Out(N, x)]
            res, t = self.guarded(lambda: self.fullexpr(s['u'], x))
            return [Out(N, y) for y, v in res] + t
        def body(x):
            if s.get('cv'):
                raise AnalysisError('for with condition variable')
            return self.loop(x, s.get('c'), lambda y: self.exec(s['b'], y), inc, s)
        s1 = {'i': s.get('i')}
        return self.with_init(s1, st, body)

    def s_rfor(self, s, st):
        def body(x0):
            outs = []
            res, t = self.guarded(lambda: self.lv(s['r'], x0))
            outs += t
            for x, RL in res:
                n = x.store.get(('len', RL))
                items = None
                if n is not None and is_int(n) and n[1] <= 24:
                    items = [('idx', RL, I(i)) for i in range(n[1])]
                if items is not None:
                    cur = [x]
                    for it in items:
                        nxt = []
                        for y in cur:
                            for o in self.bind_item(s, y, it):
                                if o.k in (N, C):
                                    nxt.append(o.st)
                                elif o.k == B:
                                    outs.append(Out(N, o.st))
                                else:
                                    outs.append(o)
                        cur = nxt
                    outs += [Out(N, y) for y in cur]
                    continue
                def it_body(y):
                    y = y.copy()
                    y.ctr += 1
                    return self.bind_item(s, y, ('idx', RL, ('sym', 'item', y.ctr)))
                cond = {'k': 'more', 'r': s['r'], 'L': RL}
                outs += self.loop(x, cond, it_body, None, s)
            return outs
        return self.with_init({'i': s.get('i')}, st, body)

    def e_more(self, e, st):
        s = st.copy()
        s.ctr += 1
        yield s, ('more', e['L'], s.ctr)

    def bind_item(self, s, y, item):
        v = s['v']
        y = y.copy()
        L = ('var', v['id'], len(self.frames))
        self.frames[-1]['vars'][v['id']] = L
        mark = len(y.scopes)
        if v.get('ref'):
            self.frames[-1]['refs'].add(L)
            self.drop_under(y, L)
            y.store[L] = ('loc', item)
        else:
            self.wr_quiet(y, L, self.load(y, item, {}))
            if v.get('d'):
                y.scopes = y.scopes + ((L, v['d']),)
        outs = []
        for o in self.exec(s['b'], y):
            outs += self.unwind(o, mark)
        return outs

    # ---- switch
    def flat_cases(self, body):
        """flatten a switch body to a list of (labels, stmt); labels: list of (lo, hi, enumname) or 'default'"""
        out = []
        stmts = body['b'] if body['s'] == 'block' else [body]
        for c in stmts:
            labels = []
            while c is not None and c['s'] in ('case', 'default'):
                if c['s'] == 'case':
                    v = c['c']
                    labels.append(v)
                else:
                    labels.append('default')
                c = c['b']
            out.append((labels, c))
        return out

    def s_switch(self, s, st):
        def body(x):
            outs = []
            res, t = self.guarded(lambda: self.fullexpr(s['c'], x))
            outs += t
            cases = self.flat_cases(s['b'])
            for y, v in res:
                entries = []
                rest = y
                default_at = None
                for i, (labels, c) in enumerate(cases):
                    for lb in labels:
                        if lb == 'default':
                            default_at = i
                            continue
                        cv = I(int(lb['v'])) if lb.get('k') == 'int' else None
                        if cv is None:
                            raise AnalysisError('non constant case label')
                        if rest is None:
                            continue
                        z = self.assume(rest, ('op', '==', v, cv), True)
                        if z is not None:
                            entries.append((i, z))
                        rest = self.assume(rest, ('op', '==', v, cv), False)
                if rest is not None:
                    if default_at is not None:
                        entries.append((default_at, rest))
                    else:
                        outs.append(Out(N, rest))
                for i, z in entries:
                    mark = len(z.scopes)
                    cur = [z]
                    for labels, c in cases[i:]:
                        nxt = []
                        for q in cur:
                            for o in self.exec(c, q):
                                if o.k == N:
                                    nxt.append(o.st)
                                elif o.k == B:
                                    outs += self.unwind(Out(N, o.st), mark)
                                else:
                                    outs += self.unwind(o, mark)
                        cur = nxt
                        if not cur:
                            break
                    for q in cur:
                        outs += self.unwind(Out(N, q), mark)
            return outs
        return self.with_init(s, st, body)

    # ---- try
    def s_try(self, s, st):
        mark = len(st.scopes)
        outs = []
        for o in self.exec(s['b'], st):
            if o.k != T:
                outs.append(o)
                continue
            outs += self.handle(o, s['h'])
        return outs

    def catches(self, exc, h):
        """'yes' / 'no' / 'maybe'"""
        t = h.get('t')
        if t is None:
            return 'yes'
        x = exc[1]
        if x == '?':
            if t in ('std::exception',):
                return 'yes'
            return 'maybe'
        if x == t or t in self.db.bases_of(x):
            return 'yes'
        if x not in self.db.classes and t == 'std::exception':
            return 'yes'
        return 'no'

    def handle(self, o, handlers):
        outs = []
        cur = o
        for h in handlers:
            c = self.catches(cur.v, h)
            if c == 'no':
                continue
            y = cur.st.copy()
            fr = self.frames[-1]
            old = fr.get('exc')
            exc = cur.v
            if c == 'maybe':
                exc = ('exc', h['t'], None)
            fr['exc'] = exc
            if h.get('v'):
                v = h['v']
                L = ('var', v['id'], len(self.frames))
                fr['vars'][v['id']] = L
                s1 = y
                s1.ctr += 1
                X = ('tmp', s1.ctr)
                s1.store[X] = ('exception', exc[1])
                if v.get('ref'):
                    fr['refs'].add(L)
                    s1.store[L] = ('loc', X)
                else:
                    s1.store[L] = ('exception', exc[1])
            outs += self.exec(h['b'], y)
            fr['exc'] = old
            if c == 'yes':
                return outs
        outs.append(cur)
        return outs

    # ------------------------------------------------------------ entry
    def run(self, f, setup=None, this_cls=None, args=None):
        """interpret function record f from an unknown state; returns list of Out"""
        st = State()
        L = ('this',)
        if f.get('cls') and not f.get('st'):
            cls = this_cls or (f['cls'] if f['cls'] != 'lambda' else None)
            if cls and this_cls:
                st.cls[L] = cls
        vs = []
        for p in f['ps']:
            if p.get('ref'):
                vs.append(('loc', ('param', p['n'])))
            elif p['t'].endswith('*'):
                vs.append(('loc', ('param', p['n'])))
            else:
                vs.append(('arg', p['n']))
        if args:
            for i, a in args.items():
                vs[i] = a
        self.frames = []
        self.stack = []
        self.thrown = [[]]
        self.frames.append({'this': L, 'vars': {}, 'refs': set(), 'f': None})
        if setup:
            r = setup(self, st, L, vs)
            if r is not None:
                st = r
        outs = self.call_body(st, f, L, vs, {'l': f['l']})
        self.stats['paths'] += len(outs)
        return outs


class _All:
    def __bool__(self):
        return True


ALL = _All()


def short(cls):
    return cls.split('<')[0]


# linear forms -----------------------------------------------------------------
def lin(t):
    if is_int(t):
        return {1: t[1]} if t[1] else {}
    if isinstance(t, tuple) and t and t[0] == 'lin':
        d = {k: c for k, c in t[1]}
        if t[2]:
            d[1] = t[2]
        return d
    return {t: 1}


def lin_add(a, b, sgn):
    d = dict(a)
    for k, c in b.items():
        d[k] = d.get(k, 0) + sgn * c
        if d[k] == 0:
            del d[k]
    return d


def lin_make(d):
    d = {k: c for k, c in d.items() if c}
    const = d.pop(1, 0)
    if not d:
        return I(const)
    if len(d) == 1 and const == 0:
        k, c = next(iter(d.items()))
        if c == 1:
            return k
    return ('lin', tuple(sorted(d.items(), key=repr)), const)


def build_direct(db):
    """key -> (fields written directly, callee keys incl. CHA, has indirect call)"""
    out = {}
    for k, f in db.functions.items():
        w, callees, ind = set(), set(), False
        def target(e):
            while e:
                kk = e.get('k')
                if kk == 'mem':
                    w.add(e['n'])
                    e = e['b']
                elif kk == 'idx':
                    e = e['b']
                elif kk in ('cast', 'icast', 'full', 'tmp'):
                    e = e['e']
                elif kk == 'un':
                    e = e['e']
                elif kk == 'call':
                    e = e.get('obj')
                elif kk == 'var':
                    if e.get('g'):
                        w.add(e['id'][2:])
                    return
                else:
                    return
        nodes = [f.get('body')] + [i.get('e') for i in f.get('in', ())]
        for i in f.get('in', ()):
            if i.get('m'):
                pass
        for nd in nodes:
            for n in walk(nd):
                kd = n.get('k')
                if kd == 'bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
                    target(n['x'])
                elif kd == 'un' and n['op'] in ('++', '--', '&'):
                    target(n['e'])
                elif kd == 'call':
                    if n.get('f'):
                        callees.add(n['f'])
                        if n.get('vt'):
                            callees |= db.overriders(n['f'])
                        project = n['f'] in db.functions or n['f'] in db.method_info
                        if n.get('obj') is not None and not n.get('cm') and not project:
                            target(n['obj'])
                        for a, p in zip(n.get('a', ()), n.get('pk', '') + 'v' * 20):
                            if p in 'rpm':
                                target(a)
                    else:
                        ind = True
                elif kd == 'ctor':
                    callees.add(n['f'])
                    for a, p in zip(n.get('a', ()), n.get('pk', '') + 'v' * 20):
                        if p in 'r':
                            target(a)
                    c = db.classes.get(n['t'])
                    if c and c.get('dtor'):
                        callees.add(c['dtor'])
                elif kd == 'lam':
                    callees.add(n['f'])
                elif kd == 'fn':
                    callees.add(n['f'])
                if n.get('d') and n['d'] in db.classes:
                    callees.add(db.classes[n['d']].get('dtor', ''))
        out[k] = (w, callees, ind)
    return out

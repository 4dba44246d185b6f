"""Inductive reasoning about loops: variables that change by a constant in every iteration are
expressed as initial value + delta * iteration count, and candidate bounds are kept only if they
are inductive (Houdini)."""
from .engine import lin, lin_add, lin_make, is_int, I, Rule
from .linear import Lin


class InductRule(Rule):
    """Two kinds of runs of the same function: learning runs, until deltas and bounds are stable,
    and the final run, in which obligations are checked."""
    iter_hook = True
    iter_from_head = True
    merge = False
    loop_unroll = 1

    def __init__(self):
        self.delta = {}        # loop id -> {location: int}
        self.nonneg = {}       # loop id -> set of locations assumed >= 0 at the head
        self.upper = {}        # loop id -> set of (location, location or constant): first <= second at the head
        self.opp = {}          # loop id -> {location: location}: their sum does not change
        self.same = {}         # loop id -> {location: representative}: they advance by the same amount
        self.fresh = set()     # loops discovered in this run
        self.learning = True
        self.changed = False
        self.obl = []

    # -- facts added by the property (bounds of fields and parameters)
    def lin(self, eng, st):
        return Lin(eng, st, self.term_nonneg)

    def term_nonneg(self, t):
        return isinstance(t, tuple) and bool(t) and t[0] in ('iter',)

    def lid(self, eng, loop):
        return (id(loop), tuple(eng.stack[-3:]))

    def locs(self, eng, b, e):
        for L, v in e.store.items():
            if L[0] in ('var', 'fld') or L[:2] == ('ghost', 'len'):
                v0 = b.store.get(L)
                if v0 is None:
                    if L[0] in ('var', 'ghost'):
                        continue
                    v0 = eng.rd(b, L)
                if isinstance(v, tuple) and isinstance(v0, tuple) and v and v0 and v[0] not in ('loc', 'obj', 'str') and v0[0] not in ('loc', 'obj', 'str'):
                    yield L, v0, v

    def on_iter(self, eng, loop, b, e):
        k = self.lid(eng, loop)
        if self.learning:
            d = {}
            for L, v0, v in self.locs(eng, b, e):
                x = lin_add(lin(v), lin(v0), -1)
                if all(q == 1 for q, c in x.items() if c) and x.get(1, 0):
                    d[L] = x[1]
            if k not in self.delta:
                self.fresh.add(k)
                self.upper[k] = set()
                self.nonneg[k] = set()
            if k in self.fresh:
                self.upper[k] |= self.candidates(eng, loop, b, e) | self.invariants(eng, b, e)
                self.nonneg[k] |= {L for L, v0, v in self.locs(eng, b, e) if v != v0}
            if k in self.delta:
                old = self.delta[k]
                new = {L: c for L, c in old.items() if self.step(eng, b, e, L) == c}
            else:
                new = d
                self.changed = True
            if self.delta.get(k) != new:
                self.changed = True
                self.delta[k] = new
        dif = {}
        for L, v0, v in self.locs(eng, b, e):
            if v != v0:
                dif[L] = frozenset(lin_add(lin(v), lin(v0), -1).items())
        if k in self.fresh and k not in self.same:
            rep = {}
            self.same[k] = {}
            self.opp[k] = {}
            for L in sorted(dif, key=repr):
                if L in self.delta.get(k, {}):
                    continue
                R = rep.setdefault(dif[L], L)
                if R != L:
                    self.same[k][L] = R
                else:
                    neg = frozenset((q, -c) for q, c in dif[L])
                    if neg in rep:
                        self.opp[k][L] = rep[neg]
        else:
            for L, R in list(self.opp.get(k, {}).items()):
                if L not in dif or R not in dif or dif[L] != frozenset((q, -c) for q, c in dif[R]):
                    del self.opp[k][L]
                    self.changed = True
            for L, R in list(self.same.get(k, {}).items()):
                if dif.get(L) != dif.get(R):
                    del self.same[k][L]
                    self.changed = True
        if k in self.fresh:
            return
        # bounds must be preserved
        drop = set()
        for L in self.nonneg.get(k, ()):
            v = eng.rd(e, L)
            if not self.lin(eng, e).le(I(0), v):
                drop.add(L)
        if drop:
            self.nonneg[k] -= drop
            self.changed = True
        drop = {(L, M) for L, M in self.upper.get(k, ()) if not self.lin(eng, e).le(self.val(eng, e, L), self.val(eng, e, M))}
        if drop:
            self.upper[k] -= drop
            self.changed = True

    def invariants(self, eng, b, e):
        return set()

    def val(self, eng, st, L):
        return I(L) if isinstance(L, int) else eng.rd(st, L)

    def candidates(self, eng, loop, b, e):
        out = set()
        num = [(L, v0) for L, v0, v in self.locs(eng, b, e)]
        changed = {L for L, v0, v in self.locs(eng, b, e) if v != v0}
        for a, val in e.facts.items():
            if not isinstance(a, tuple) or a[0] != 'op' or a[1] != '<':
                continue
            x, y = (a[2], a[3]) if val else (a[3], a[2])
            for L, v0 in num:
                if L in changed and v0 == x:
                    if is_int(y):
                        out.add((L, y[1]))
                    for M, w in list(b.store.items()):
                        if w == y and M != L and M[0] in ('var', 'fld'):
                            out.add((L, M))
        return out

    def step(self, eng, b, e, L):
        x = lin_add(lin(eng.rd(e, L)), lin(eng.rd(b, L)), -1)
        return x.get(1, 0) if all(q == 1 for q, c in x.items() if c) else None

    def on_loop_head(self, eng, loop, before, z):
        k = self.lid(eng, loop)
        d = self.delta.get(k)
        if d is None:
            return
        for L, M in list(self.upper.get(k, ())):
            if not self.lin(eng, before).le(self.val(eng, before, L), self.val(eng, before, M)):
                self.upper[k].discard((L, M))
                self.changed = True
        for L in list(self.nonneg.get(k, ())):
            if L not in d and not self.lin(eng, before).le(I(0), eng.rd(before, L)):
                self.nonneg[k].discard(L)
                self.changed = True
        z.ctr += 1
        K = ('iter', loop.get('l'), z.ctr)
        for L, c in d.items():
            v0 = before.store.get(L)
            if v0 is None:
                if L[0] == 'var':
                    continue
                v0 = eng.rd(before, L)
            if L in self.nonneg.get(k, ()) and not self.lin(eng, before).le(I(0), v0):
                self.nonneg[k] = self.nonneg[k] - {L}
                self.changed = True
            v = lin_make(lin_add(lin(v0), {K: 1}, c))
            z.store[L] = v
            if L in self.nonneg.get(k, ()):
                eng.set_bound(z, v, lo=0) if v[0] != 'i' else None
        eng.set_bound(z, K, lo=0)
        for L, R in self.same.get(k, {}).items():
            l0, r0 = (before.store.get(x) if x in before.store else eng.rd(before, x) for x in (L, R))
            z.store[L] = lin_make(lin_add(lin_add(lin(eng.rd(z, R)), lin(l0), 1), lin(r0), -1))
        for L, R in self.opp.get(k, {}).items():
            if all(x in before.store for x in (L, R)):
                z.store[L] = lin_make(lin_add(lin_add(lin(before.store[L]), lin(before.store[R]), 1), lin(eng.rd(z, R)), -1))
        for L in self.nonneg.get(k, ()):
            if L not in d:
                v = eng.rd(z, L)
                if v[0] not in ('i', 'loc', 'obj', 'str', 'null'):
                    eng.set_bound(z, v, lo=0)
        for L, M in self.upper.get(k, ()):
            a, b = self.val(eng, z, L), self.val(eng, z, M)
            if not (is_int(a) and is_int(b)):
                z.facts[('op', '<', b, a)] = False


def run_inductive(eng_factory, rule, run):
    """run(engine) executes the analysis; repeated until the loop facts are stable, then once more for the record"""
    for i in range(12):
        rule.changed = False
        rule.learning = True
        rule.obl = []
        rule.fresh = set()
        run(eng_factory(rule))
        if not rule.changed:
            break
    else:
        raise RuntimeError('loop facts do not stabilise')
    rule.learning = False
    rule.fresh = set()
    rule.obl = []
    eng = eng_factory(rule)
    outs = run(eng)
    if rule.changed:
        raise RuntimeError('loop facts do not stabilise')
    return eng, outs

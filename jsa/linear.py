"""Relational numeric domain: conjunctions of linear inequalities over terms, with
elimination-based entailment.  Used to decide bounds that follow from the conditions of a path."""
from .engine import lin, lin_add, is_int, I
from fractions import Fraction

MAXI = 400


def norm(d):
    return {k: c for k, c in d.items() if c}


def le(a, b, k=0):
    """inequality a - b + k <= 0 as a linear form"""
    d = lin_add(lin(a), lin(b), -1)
    d[1] = d.get(1, 0) + k
    return norm(d)


class Lin:
    def __init__(self, eng, st, nonneg=None, extra=()):
        self.ineq = []
        self.eqs = []
        self.terms = set()
        self.eng = eng
        for x in extra:
            self.add(x)
        for atom, val in st.facts.items():
            if not isinstance(atom, tuple):
                continue
            if atom[0] == 'op' and atom[1] == '<':
                a, b = atom[2], atom[3]
                self.add(le(a, b, 1) if val else le(b, a))
            elif atom[0] == 'op' and atom[1] == '==' and val is True:
                self.add(le(atom[2], atom[3]))
                self.add(le(atom[3], atom[2]))
            elif atom[0] == 'nz' and val is False:
                self.add(le(atom[1], I(0)))
                self.add(le(I(0), atom[1]))
            elif atom[0] == 'bnd':
                lo, hi = val
                if lo is not None:
                    self.add(le(I(lo), atom[1]))
                if hi is not None:
                    self.add(le(atom[1], I(hi)))
        self.nonneg = nonneg
        self._close()
        for atom, val in st.facts.items():
            if isinstance(atom, tuple) and atom[0] == 'nz' and val is True and isinstance(atom[1], tuple) and atom[1] and atom[1][0] in ('lin', 'iter', 'phi', 'rd', 'arg'):
                if self.entails_le0(le(I(0), atom[1])):
                    self.add(le(I(1), atom[1]))
        self._close()

    def add(self, d):
        d = norm(d)
        if d and d not in self.ineq:
            self.ineq.append(d)

    def _close(self, todo=None):
        """facts implied by the shape of terms (min, max, division, non-negative terms)"""
        seen = set()
        work = []
        for d in list(self.ineq):
            work += [k for k in d if k != 1]
        if todo:
            work += [k for k in todo if k != 1]
        while work:
            t = work.pop()
            if t in seen or t == 1:
                continue
            seen.add(t)
            new = []
            if isinstance(t, tuple) and t:
                if t[0] == 'min' and len(t) >= 3:
                    new += [le(t, x) for x in t[1:3]]
                elif t[0] == 'max' and len(t) >= 3:
                    new += [le(x, t) for x in t[1:3]]
                elif t[0] == 'op' and len(t) == 4 and t[1] == '/' and is_int(t[3]) and t[3][1] > 0:
                    c = t[3][1]
                    m = lin_add({t: c}, lin(t[2]), -1)
                    new.append(norm(m))                      # c*(a/c) <= a   (a >= 0)
                    m2 = lin_add(lin(t[2]), {t: c}, -1)
                    m2[1] = m2.get(1, 0) - (c - 1)
                    new.append(norm(m2))                     # a - c*(a/c) <= c-1
                elif t[0] == 'op' and len(t) == 4 and t[1] == '>>' and is_int(t[3]) and 0 <= t[3][1] < 64:
                    c = 1 << t[3][1]
                    new.append(norm(lin_add({t: c}, lin(t[2]), -1)))
                    m2 = lin_add(lin(t[2]), {t: c}, -1)
                    m2[1] = m2.get(1, 0) - (c - 1)
                    new.append(norm(m2))
                elif t[0] == 'op' and len(t) == 4 and t[1] == '%' and is_int(t[3]) and t[3][1] > 0:
                    new.append(le(t, I(t[3][1] - 1)))
                    new.append(le(I(0), t))
                if self.nonneg and self.nonneg(t):
                    new.append(le(I(0), t))
            for d in new:
                if d and d not in self.ineq:
                    self.ineq.append(d)
                    work += [k for k in d if k != 1]
        self.seen = seen

    def relevant(self, goal):
        keys = {k for k in goal if k != 1}
        out, rest = [], list(self.ineq)
        ch = True
        while ch:
            ch = False
            nr = []
            for d in rest:
                if any(k in keys for k in d):
                    out.append(d)
                    for k in d:
                        if k != 1 and k not in keys:
                            keys.add(k)
                            ch = True
                else:
                    nr.append(d)
            rest = nr
        return out, keys

    def entails_le0(self, goal):
        """is goal <= 0 implied?"""
        goal = norm(dict(goal))
        if {1: 1} in self.ineq:
            return True
        if not [k for k in goal if k != 1]:
            return goal.get(1, 0) <= 0 or infeasible([dict(d) for d in self.ineq], {k for d in self.ineq for k in d if k != 1})
        self._close(goal.keys())
        sys, keys = self.relevant(goal)
        neg = {k: -c for k, c in goal.items()}
        neg[1] = neg.get(1, 0) + 1                           # goal >= 1
        return infeasible([dict(d) for d in sys] + [norm(neg)], keys)

    def le(self, a, b, k=0):
        """a + k <= b ?"""
        return self.entails_le0(le(a, b, k))

    def eq(self, a, b):
        return self.le(a, b) and self.le(b, a)


def infeasible(ineqs, keys):
    cur = ineqs
    keys = set(keys)
    while True:
        for d in cur:
            if not [k for k in d if k != 1] and d.get(1, 0) > 0:
                return True
        ks = {}
        for d in cur:
            for k, c in d.items():
                if k != 1:
                    p, n = ks.get(k, (0, 0))
                    ks[k] = (p + 1, n) if c > 0 else (p, n + 1)
        if not ks:
            return False
        k = min(ks, key=lambda q: (ks[q][0] * ks[q][1], repr(q)))
        pos = [d for d in cur if d.get(k, 0) > 0]
        neg = [d for d in cur if d.get(k, 0) < 0]
        nxt = [d for d in cur if not d.get(k, 0)]
        seen = {frozenset(d.items()) for d in nxt}
        for p in pos:
            for n in neg:
                a, b = Fraction(p[k]), Fraction(-n[k])
                m = {}
                for q, c in p.items():
                    m[q] = m.get(q, 0) + c * b
                for q, c in n.items():
                    m[q] = m.get(q, 0) + c * a
                m = {q: c for q, c in m.items() if c and q != k}
                if m:
                    # scale
                    g = max(abs(c) for c in m.values())
                    m = {q: c / g for q, c in m.items()}
                    fs = frozenset(m.items())
                    if fs not in seen:
                        seen.add(fs)
                        nxt.append(m)
        if len(nxt) > MAXI:
            return False
        cur = nxt


def subst(t, f):
    """rebuild a term, replacing sub-terms for which f gives a value"""
    r = f(t)
    if r is not None:
        return r
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'i':
        return t
    if t[0] == 'lin':
        d = {}
        for k, c in t[1]:
            for q, cc in lin(subst(k, f)).items():
                d[q] = d.get(q, 0) + cc * c
        d[1] = d.get(1, 0) + t[2]
        from .engine import lin_make
        return lin_make(norm(d))
    return tuple(subst(x, f) for x in t)

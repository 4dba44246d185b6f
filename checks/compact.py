"""Variable-length numbers: bit-slice abstract interpretation of the encoder and of the decoders."""
import re
from jsa.corpus import AnalysisError
from jsa.engine import Engine
from checks.common import N, R, T, I, Rule, flat

WIDTH = {'unsigned char': 8, 'char': 8, 'signed char': 8, 'unsigned short': 16, 'short': 16, 'int': 32, 'unsigned int': 32,
         'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64, 'bool': 1}
SIZE = 64


def span(bits):
    lo = sum(1 << i for i, b in enumerate(bits) if b == 1)
    hi = sum(1 << i for i, b in enumerate(bits) if b != 0)
    return lo, hi


def make(bits, lo=None, hi=None):
    """a number of which every bit is known: a constant, or a bit of the encoded number"""
    bits = tuple(bits[:SIZE]) + (0,) * (SIZE - len(bits))
    a, b = span(bits)
    if a == b:
        return I(a)
    return ('bits', max(a, lo) if lo is not None else a, min(b, hi) if hi is not None else b, bits)


def of_int(n):
    return tuple((n >> i) & 1 for i in range(SIZE))


class BitRule(Rule):
    merge = False
    loop_unroll = 12
    max_states = 5000
    given = ()

    def inline(self, eng, f):
        return bool(re.match(r'joedb::(File_Buffer|Buffer<\d+>)::compact_', f['n']))

    def models(self, name):
        return True

    def may_throw(self, eng, name, node):
        return False

    def on_binop(self, eng, st, op, a, b, t):
        ab, bb = a[:1] == ('bits',), b[:1] == ('bits',)
        if not ab and not bb:
            return None
        if not (ab or a[0] == 'i') or not (bb or b[0] == 'i'):
            return None
        x = a[3] if ab else of_int(a[1])
        y = b[3] if bb else of_int(b[1])
        alo, ahi = (a[1], a[2]) if ab else (a[1], a[1])
        blo, bhi = (b[1], b[2]) if bb else (b[1], b[1])
        if op == '>>' and b[0] == 'i':
            return make(x[b[1]:], alo >> b[1], ahi >> b[1])
        if op == '<<' and b[0] == 'i':
            return self.narrow(make((0,) * b[1] + x[:SIZE - b[1]]), t)
        if op == '/' and b[0] == 'i' and b[1] > 0 and b[1] & (b[1] - 1) == 0:
            s = b[1].bit_length() - 1
            return make(x[s:], alo >> s, ahi >> s)
        if op == '*' and (a[0] == 'i' or b[0] == 'i'):
            (c, z) = (a[1], y) if a[0] == 'i' else (b[1], x)
            if c > 0 and c & (c - 1) == 0:
                s = c.bit_length() - 1
                return self.narrow(make((0,) * s + z[:SIZE - s]), t)
            return None
        if op == '%' and b[0] == 'i' and b[1] > 0 and b[1] & (b[1] - 1) == 0:
            return make(x[:b[1].bit_length() - 1])
        if op == '&':
            return make([0 if p == 0 or q == 0 else q if p == 1 else p if q == 1 or p == q else ('?',) for p, q in zip(x, y)])
        if op in ('|', '+', '^'):
            out = []
            for p, q in zip(x, y):
                if p == 0:
                    out.append(q)
                elif q == 0:
                    out.append(p)
                elif op == '|' and (p == 1 or q == 1):
                    out.append(1)
                elif op == '|' and p == q:
                    out.append(p)
                elif op == '+':
                    return None
                else:
                    out.append(('?',))
            return make(out)
        if op == '-' and bb is False and b[1] == 0:
            return a
        if op in ('<', '>=', '>', '<=', '==', '!='):
            if op in ('>', '<='):
                alo, ahi, blo, bhi = blo, bhi, alo, ahi
            if op in ('<', '>='):
                r = True if ahi < blo else False if alo >= bhi else None
                r = r if r is None or op == '<' else not r
            elif op in ('>', '<='):
                r = True if ahi < blo else False if alo >= bhi else None
                r = r if r is None or op == '>' else not r
            else:
                r = False if ahi < blo or bhi < alo else None
                r = r if r is None or op == '==' else not r
            return None if r is None else I(int(r))
        return None

    def narrow(self, v, t):
        w = WIDTH.get((t or '').replace('const ', ''))
        if w is None or v[0] != 'bits' or w >= SIZE:
            return v
        return make(v[3][:w], v[1] if v[2] < 1 << w else None, v[2] if v[2] < 1 << w else None)

    def on_cast(self, eng, st, v, node):
        if v[:1] == ('bits',):
            if node.get('t') == 'bool':
                return I(1) if v[1] > 0 else None
            return self.narrow(v, node.get('t'))
        return None

    def on_call(self, eng, st, call, obj, vs, e):
        n = call['n']
        if re.match(r'joedb::(File_Buffer|Buffer<\d+>)::write$', n):
            st.ev += (('byte', vs[0], (call.get('ta') or '').rstrip(';')),)
            return [(st, ('void',))]
        if re.match(r'joedb::(File_Buffer|Buffer<\d+>)::read$', n):
            L = ('ghost', 'taken')
            k = st.store.get(L, I(0))[1]
            st.store[L] = I(k + 1)
            if k >= len(self.given):
                st.ev += (('beyond',),)
                return [(st, ('any',))]
            return [(st, self.given[k])]
        return None


def classes(width):
    """(number of extra bytes, the numbers that need them)"""
    k = 0
    while True:
        lo = 0 if k == 0 else 1 << (5 + 8 * (k - 1))
        hi = (1 << (5 + 8 * k)) - 1
        hi = min(hi, (1 << width) - 1, (1 << 61) - 1)
        if lo > hi:
            return
        n = hi.bit_length()
        yield k, make([('x', i) for i in range(n)], lo, hi)
        k += 1


def template_type(f):
    return (f.get('ta') or '').rstrip(';').strip()


def run(ctx, db, f, rule, args=None):
    eng = Engine(db, rule)
    outs = eng.run(f, None, f['n'].rsplit('::', 1)[0], args=args or {})
    ctx.use_engine(eng)
    return outs


def compact(ctx, layout, decoding):
    """the layout of compact numbers, and whether decoders give back what was encoded"""
    db = ctx.db
    fs = {}
    for f in db.functions.values():
        m = re.match(r'joedb::(File_Buffer|Buffer<\d+>)::compact_(read|write)$', f['n'])
        if m and f.get('body'):
            fs.setdefault((m.group(2), template_type(f)), []).append(f)
            ctx.use(f)
    writers = sorted(t for k, t in fs if k == 'write')
    readers = sorted(t for k, t in fs if k == 'read')
    if len(writers) < 2 or len(readers) < 2:
        raise AnalysisError('compact_read or compact_write not found')
    for t in writers:
        w = WIDTH.get(t)
        if w is None:
            raise AnalysisError('compact_write of an unknown type: ' + t)
        if t in ('long', 'long long', 'int', 'short'):
            w -= 1
        for k, x in classes(w):
            what = 'numbers of type %s that need %d extra byte%s' % (t, k, '' if k == 1 else 's')
            want = [make(of_bits(x)[8 * k:8 * k + 5] + tuple((k >> i) & 1 for i in range(3)))]
            want += [make(of_bits(x)[8 * i:8 * i + 8]) for i in range(k - 1, -1, -1)]
            encoded = []
            for f in fs[('write', t)]:
                for o in run(ctx, db, f, BitRule(), {0: x}):
                    got = [BitRule().narrow(e[1], 'unsigned char') for e in flat(o.st.ev) if e[0] == 'byte']
                    wide = [e for e in flat(o.st.ev) if e[0] == 'byte' and WIDTH.get(e[2]) != 8]
                    good = o.k != T and not wide and [bare(b) for b in got] == [bare(b) for b in want]
                    if layout:
                        ctx.require(good, 'compact:layout', f, 'compact_write: %s are not written as three bits for the number of extra bytes followed by the number, big-endian' % what,
                                    sample='compact_write: layout of %s' % what)
                    if (o.k, got) not in encoded:
                        encoded.append((o.k, got))
            if not decoding:
                continue
            for kind, got in encoded:
                for rt in readers:
                    if (WIDTH.get(rt) or 0) < (WIDTH.get(t) or 0):
                        continue
                    for f in fs[('read', rt)]:
                        rule = BitRule()
                        rule.given = tuple(got)
                        for o in run(ctx, db, f, rule):
                            good = o.k != T and o.v is not None and bare(o.v) == bare(x) and o.st.store.get(('ghost', 'taken'), I(0)) == I(len(got)) and not any(e[0] == 'beyond' for e in flat(o.st.ev))
                            ctx.require(good, 'compact:decode', f, '%s::compact_read<%s> does not give back %s' % (f['n'].rsplit('::', 1)[0], rt, what),
                                        sample='compact_read<%s>: %s' % (rt, what))


def of_bits(x):
    return x[3] if x[0] == 'bits' else of_int(x[1])


def bare(v):
    """bits only"""
    if v[0] == 'bits':
        return v[3]
    return of_int(v[1]) if v[0] == 'i' else v

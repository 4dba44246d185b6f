"""Shared rule pieces."""
import os
from jsa.engine import *
from jsa.corpus import AnalysisError, walk, rel

FILE = 'joedb::Abstract_File::'
LAST = (1 << 63) - 1
IO = {'pread', 'pwrite', 'sync', 'datasync', 'shared_lock', 'exclusive_lock', 'unlock'}


class FileRule(Rule):
    """records every call into the abstract file as an event
       ('pwrite', buf value, size, off, line) ('pread', dst loc, size, off) ('sync',) ('datasync',)
       ('lock', 'x'|'s', start) ('unlock', start) ('flush',)"""
    merge = False
    file_call = True
    buffer_flush = True

    def on_call(self, eng, st, call, obj, vs, e):
        n = call['n']
        l = e.get('l', 0)
        if n.startswith(FILE):
            m = n[len(FILE):]
            if m not in IO:
                return None
            if m != 'unlock':
                eng.thrown[-1].append((st.copy(), ('exc', '?', None)))
            if m == 'pwrite':
                v = vs[0]
                v = eng.rdv(st, v[1]) if v[0] == 'loc' else v
                st.ev += (('pwrite', v, vs[1], vs[2], l),)
                return [(st, ('void',))]
            if m == 'pread':
                st.ctr += 1
                d = vs[0]
                st.ev += (('pread', d, vs[1], vs[2], l),)
                if d[0] == 'loc':
                    eng.touch(st, d[1], ('disk', vs[2], st.ctr))
                return [(st, ('preadn', st.ctr))]
            if m in ('sync', 'datasync'):
                st.ev += ((m, l),)
                return [(st, ('void',))]
            if m == 'exclusive_lock':
                st.ev += (('lock', 'x', vs[0], l),)
                return [(st, ('void',))]
            if m == 'shared_lock':
                st.ev += (('lock', 's', vs[0], l),)
                return [(st, ('void',))]
            if m == 'unlock':
                st.ev += (('unlock', vs[0], l),)
                return [(st, ('void',))]
        if self.buffer_flush and n == 'joedb::File_Buffer::flush':
            eng.thrown[-1].append((st.copy(), ('exc', '?', None)))
            st.ev += (('flush', l),)
            return [(st, ('void',))]
        return None


def flat(ev):
    """all event sequences with loops expanded zero or one time (for membership tests)"""
    out = []
    for x in ev:
        if x[0] == 'loop':
            for t in x[1]:
                out += flat(t)
        else:
            out.append(x)
    return out


def const(t):
    return t[1] if is_int(t) else None


def trace(ev):
    def s(x):
        if x[0] == 'loop':
            return 'loop{' + ' | '.join(' ; '.join(s(y) for y in t) for t in x[1]) + '}'
        line = x[-1]
        return '%s (line %s)' % (' '.join(term(y) for y in x[:-1]), line)
    return [s(x) for x in ev]


def term(t, depth=0):
    if not isinstance(t, tuple):
        return str(t)
    if is_int(t):
        return str(t[1])
    if depth > 3:
        return '...'
    if t and t[0] == 'rd':
        return term(t[1], depth + 1)
    if t and t[0] == 'fld':
        return t[2].split('::')[-1]
    return '(' + ' '.join(term(x, depth + 1) for x in t) + ')'


def fld(base, name):
    return ('fld', base, name)


J = 'joedb::Readonly_Journal::'


def need_fields(db, cls, *names):
    c = db.cls(cls)
    have = {f['n'] for f in c['fields']}
    for n in names:
        if n not in have:
            raise AnalysisError('anchor vanished: field %s::%s' % (cls, n))


# more elements in the thorough tier
DEEP = 3 if os.environ.get('VERIF_TIER') == 'thorough' else 0


def sizes(ctx, n=3):
    """sizes of vectors for which per-element operations are interpreted"""
    return range(n + DEEP)

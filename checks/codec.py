"""Journal wire format: what every writer path encodes is what the reader decodes."""
from checks.compact import compact
from jsa.runner import check
from .common import *

FB = 'joedb::File_Buffer::'
CTX = ('table_of_last_operation', 'record_of_last_operation', 'field_of_last_update')
RID = 'joedb::Record_Id::id'
SIZES = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'bool': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4,
         'long': 8, 'unsigned long': 8, 'float': 4, 'double': 8, 'long long': 8, 'unsigned long long': 8}


def ta0(call):
    return (call.get('ta') or '').split(';')[0]


def plain(db, t):
    """canonical encoded type name: enums by their underlying type"""
    try:
        e = db.enum(t)
        return e['u']
    except AnalysisError:
        return t


class Codec(Rule):
    """token trace of encode/decode primitives"""
    merge = False

    def __init__(self, db, opcode=None):
        self.db = db
        self.opcode = opcode

    def models(self, n):
        return n.startswith((FB, 'joedb::File_Iterator::')) or n.startswith('joedb::Writable::')

    def on_call(self, eng, st, call, obj, vs, e):
        n = call['n']
        l = e.get('l', 0)
        if n == FB + 'write' or n == FB + 'compact_write':
            k = 'raw' if n == FB + 'write' else 'compact'
            st.ev += ((k, plain(self.db, ta0(call)), norm(eng, st, vs[0]), l),)
            return [(st, ('void',))]
        if n == FB + 'write_string':
            st.ev += (('string', '', norm(eng, st, vs[0]), l),)
            return [(st, ('void',))]
        if n in (FB + 'write_data', 'joedb::File_Iterator::write'):
            st.ev += (('data', vs[0], norm(eng, st, vs[1]), l),)
            return [(st, ('void',))]
        if n == FB + 'read' or n == FB + 'compact_read':
            k = 'raw' if n == FB + 'read' else 'compact'
            t = plain(self.db, ta0(call))
            st.ctr += 1
            first = not any(x[0] in ('raw', 'compact', 'string') for x in flat(st.ev)) and self.opcode is not None and not st.ts
            if first:
                st.ts = ('op',)
                v = I(self.opcode)
            else:
                v = ('tok', st.ctr)
            st.ev += ((k, t, v, l),)
            return [(st, v)]
        if n in (FB + 'read_string', FB + 'safe_read_string'):
            st.ctr += 1
            v = ('tok', st.ctr)
            st.ev += (('string', '', v, l),)
            return [(st, v)]
        if n == FB + 'read_data':
            st.ctr += 1
            if vs[0][0] == 'loc':
                eng.touch(st, vs[0][1], ('data', st.ctr))
            st.ev += (('data', vs[0], norm(eng, st, vs[1]), l),)
            return [(st, ('n', st.ctr))]
        if n == FB + 'ignore':
            st.ev += (('data', None, norm(eng, st, vs[0]), l),)
            return [(st, ('void',))]
        if n in (FB + 'flush', FB + 'set_position'):
            return [(st, ('void',))]
        if n.endswith('::get_position') and 'Blob' not in n:
            return [(st, ('pos', len(st.ev)))]
        if n.startswith('joedb::Writable::') and e.get('vt') and obj is not None and root_of(obj) == ('param', 'writable'):
            m = n.rsplit('::', 1)[1]
            if m == 'wants_blob_data':
                a = st.copy()
                a.ev += (('wants', I(1), l),)
                st.ev += (('wants', I(0), l),)
                return [(a, I(1)), (st, I(0))]
            if m.startswith('get_own_'):
                st.ctr += 1
                a = st.copy()
                a.ev += (('own', l),)
                st.store.pop(('x',), None)
                cap = vs[3] if len(vs) > 3 else None
                if cap and cap[0] == 'loc':
                    eng.touch(a, cap[1], ('cap', st.ctr))
                    eng.touch(st, cap[1], ('cap0', st.ctr))
                return [(a, ('loc', ('own', st.ctr))), (st, ('null',))]
            st.ev += (('call', m, tuple(norm(eng, st, v) for v in vs), l),)
            st.ctr += 1
            return [(st, ('void',))]
        return None


def norm(eng, st, v):
    """value of an argument: single-field id classes become their scalar"""
    if isinstance(v, tuple) and v and v[0] == 'loc':
        if v[1][0] in ('own', 'elem0', 'ptr', 'idx'):
            return v
        v = eng.rdv(st, v[1])
    if isinstance(v, tuple) and v and v[0] == 'obj':
        v = eng.snap(st, v[1])
    if isinstance(v, tuple) and v and v[0] == 'struct' and len(v[1]) == 1:
        k, x = v[1][0]
        if k == ('fld', ('self',), RID):
            return x
    return v


def subst(t, s):
    """apply a substitution and renormalise sums"""
    if t in s:
        return s[t]
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'lin':
        d = {1: t[2]} if t[2] else {}
        for k, c in t[1]:
            d = lin_add(d, {x: y * c for x, y in lin(subst(k, s)).items()}, 1)
        return lin_make(d)
    return tuple(subst(x, s) if isinstance(x, tuple) else x for x in t)


def scalarise(t):
    """('fldof', X, Record_Id::id) -> X : an id and its scalar are the same thing on the wire"""
    if not isinstance(t, tuple):
        return t
    if len(t) == 3 and t[0] == 'fldof' and t[2] == RID:
        return scalarise(t[1])
    if t and t[0] == 'struct' and len(t[1]) == 1 and t[1][0][0] == ('fld', ('self',), RID):
        return scalarise(t[1][0][1])
    if t and t[0] == 'lin':
        d = {1: t[2]} if t[2] else {}
        for k, c in t[1]:
            d = lin_add(d, {x: y * c for x, y in lin(scalarise(k)).items()}, 1)
        return lin_make(d)
    return tuple(scalarise(x) if isinstance(x, tuple) else x for x in t)


def scal_facts(st):
    s = State()
    s.facts = {scalarise(k): v for k, v in st.facts.items()}
    # equalities as a rewriting: x == y + c
    return s


def ctx_setup(st, L):
    for n in CTX:
        K = fld(L, J + n)
        if n == 'record_of_last_operation':
            st.store[('fld', K, RID)] = ('ctx', n)
        else:
            st.store[K] = ('ctx', n)


def ctx_out(eng, st, L):
    out = []
    for n in CTX:
        K = fld(L, J + n)
        v = eng.rdv(st, K)
        if v and v[0] == 'obj':
            v = eng.snap(st, K)
        out.append(scalarise(v))
    return out


def equal(eng, facts, a, b):
    if a == b:
        return True
    d = lin_add(lin(a), lin(b), -1)
    if not d:
        return True
    s = State()
    s.facts = facts.facts
    if eng.decide(s, ('op', '==', a, b)) is True:
        return True
    # use each equality fact of the path once as a rewrite
    for k, v in facts.facts.items():
        if v and k[0] == 'op' and k[1] == '==':
            x = lin_add(lin(k[2]), lin(k[3]), -1)
            for sgn in (1, -1):
                if lin_add(d, x, sgn) == {} or not any(lin_add(d, x, sgn).values()):
                    return True
    return False


def wire(ev):
    """token shape: loops as nested"""
    out = []
    for x in ev:
        if x[0] in ('raw', 'compact', 'string', 'data'):
            out.append(x)
        elif x[0] == 'loop':
            ts = [wire(t) for t in x[1]]
            ts = [t for t in ts if t]
            if ts:
                out.append(('loop', ts))
    return out


def shape(tok):
    if tok[0] == 'loop':
        return ('loop', tuple(sorted({tuple(shape(y) for y in t) for t in tok[1]}, key=repr)))
    if tok[0] == 'raw':
        return ('raw', SIZES.get(tok[1], tok[1]))
    return (tok[0],)


def opcodes(db):
    return {k: v for k, v in db.enum('joedb::Readonly_Journal::operation_t')['items']}


def writer_paths(ctx):
    db = ctx.db
    out = []
    wj = db.cls('joedb::Writable_Journal')
    wr = {m['n'] for m in db.cls('joedb::Writable')['methods'] if m.get('virt')}
    for m in wj['methods']:
        name = m['n'].split('::')[-1]
        if name not in {x.split('::')[-1] for x in wr}:
            continue
        f = db.functions.get(m['f'])
        if not f or not f.get('body'):
            continue
        eng = Engine(db, Codec(db))
        def setup(e2, st, L, vs):
            ctx_setup(st, L)
        outs = eng.run(f, setup, this_cls='joedb::Writable_Journal')
        for o in outs:
            if o.k == T:
                continue
            w = wire(o.st.ev)
            if w:
                out.append((name, f, o, w, eng))
        if any(x[1] is f for x in out):
            ctx.use_engine(eng)
    return out


def reader_paths(ctx, op, cache={}):
    db = ctx.db
    if (id(db), op) in cache:
        return cache[(id(db), op)]
    f = db.fn('joedb::Readonly_Journal::one_step')
    eng = Engine(db, Codec(db, op))
    def setup(e2, st, L, vs):
        ctx_setup(st, L)
    outs = eng.run(f, setup, this_cls='joedb::Readonly_Journal')
    ctx.use_engine(eng)
    cache[(id(db), op)] = (f, eng, outs)
    return cache[(id(db), op)]


@check('J06', floor=60, rule='for every path of every journal-writing event: the opcode and token sequence it encodes, decoded by the reader path selected by that opcode, reproduces the same event with the same arguments and the same compression context; every compact number is decoded to what was encoded, by bit-slice abstract interpretation')
def j06(ctx):
    db = ctx.db
    compact(ctx, False, True)
    ops = {v: k for k, v in opcodes(db).items()}
    wps = writer_paths(ctx)
    used = set()
    for name, f, o, w, weng in wps:
        tr = trace(o.st.ev)
        if w[0][0] != 'raw' or not is_int(w[0][2]) or w[0][2][1] not in ops:
            ctx.bad('%s:no-opcode' % name, f, '%s does not start its record with an operation code: %s' % (name, w[0]), tr)
            continue
        op = w[0][2][1]
        used.add(op)
        facts = scal_facts(o.st)
        wctx = ctx_out(weng, o.st, ('this',))
        params = [('rd', ('param', p['n']), 0) if p.get('ref') else ('arg', p['n']) for p in f['ps']]
        rf, reng, routs = reader_paths(ctx, op)
        compat = 0
        for r in routs:
            if r.k == T:
                continue
            rw = wire(r.st.ev)
            # match tokens, build the substitution
            s = {}
            ok = None
            short = False
            for i, t in enumerate(w):
                if i >= len(rw):
                    if t[0] in ('data', 'loop') and i == len(w) - 1:
                        short = True
                        break
                    ok = 'reader stops before token %d (%s)' % (i, shape(t))
                    break
                if shape(t) != shape(rw[i]):
                    ok = 'token %d is written as %s but read as %s' % (i, shape(t), shape(rw[i]))
                    break
                if t[0] in ('raw', 'compact', 'string'):
                    if t[0] == 'compact' and SIZES.get(rw[i][1], 0) < SIZES.get(t[1], 0):
                        ok = 'token %d is written as %s but read into the narrower %s' % (i, t[1], rw[i][1])
                        break
                    if rw[i][2][0] == 'tok':
                        s[rw[i][2]] = scalarise(t[2])
            else:
                if len(rw) > len(w):
                    ok = 'reader expects %d tokens, %d are written' % (len(rw), len(w))
            # is this reader path possible on what the writer wrote?
            feasible = True
            rfacts = {}
            for k, v in r.st.facts.items():
                if k[0] in ('bnd', 'ne'):
                    continue
                k2 = subst(scalarise(k), s)
                rfacts[k2] = v
                d = weng.decide(facts, k2)
                if d is not None and d != v:
                    feasible = False
            if not feasible:
                continue
            both = State()
            both.facts = dict(facts.facts)
            both.facts.update(rfacts)
            if short:
                size = [scalarise(x[2]) for x in w if x[0] == 'compact'][-1]
                if not any(weng.decide(both, ('op', c, size, I(0))) is True for c in ('==', '<=')):
                    zero = (both.facts.get(('op', '<', I(0), size)) is False)
                    if not zero:
                        ok = 'reader does not consume the payload'
            if ok:
                ctx.bad('%s:%s:tokens' % (name, ops[op]), f, '%s (opcode %s): %s' % (name, ops[op], ok), tr + ['reader:'] + trace(r.st.ev))
                continue
            compat += 1
            calls = [x for x in flat(r.st.ev) if x[0] == 'call' and x[1] != 'on_blob']
            if short and not calls:
                pass
            elif name == 'write_blob':
                wants = [x for x in r.st.ev if x[0] == 'wants' and x[1] == I(1)]
                skip = any(x[0] == 'data' and x[1] is None for x in r.st.ev)
                if not skip and wants:
                    ctx.require([c[1] for c in calls] == ['write_blob'], '%s:event' % name, rf, 'replaying a blob does not deliver it', 'blob delivered')
                ob = [x for x in flat(r.st.ev) if x[0] == 'call' and x[1] == 'on_blob']
                ctx.require(len(ob) == 1, 'blob:announce', rf, 'replaying a blob does not announce it exactly once', 'blob announced')
                d = [x for x in r.st.ev if x[0] == 'data']
                for x in d:
                    z = subst(scalarise(x[2]), s)
                    wsz = [scalarise(y[2]) for y in w if y[0] == 'data'][-1]
                    csz = [scalarise(y[2]) for y in w if y[0] == 'compact'][-1]
                    ctx.require(wsz == csz, 'blob:length', f, 'blob length written (%s) differs from the payload (%s)' % (term(csz), term(wsz)), 'blob length')
            else:
                if [c[1] for c in calls] != [name]:
                    ctx.bad('%s:%s:event' % (name, ops[op]), rf, 'opcode %s written by %s is replayed as %s' % (ops[op], name, [c[1] for c in calls]), tr + trace(r.st.ev))
                    continue
                args = calls[0][2]
                for i, (a, p) in enumerate(zip(args, f['ps'])):
                    a2 = subst(scalarise(a), s)
                    want = params[i]
                    good = equal(weng, both, a2, want) or same_struct(weng, both, a2, want, o.st, p) or payload(a, w, want, p)
                    ctx.require(good, '%s:%s:arg%d' % (name, ops[op], i), f, 'argument %d (%s) of %s encoded with opcode %s is replayed as %s'
                                % (i, p['n'], name, ops[op], term(a2)), '%s/%s: argument %s' % (name, ops[op], p['n']), tr + ['reader:'] + trace(r.st.ev))
            # context
            if not short:
                rctx = [subst(scalarise(x), s) for x in ctx_out(reng, r.st, ('this',))]
                for n, a, b in zip(CTX, wctx, rctx):
                    ctx.require(equal(weng, both, a, b), '%s:%s:%s' % (name, ops[op], n), f, 'after %s (opcode %s) the writer remembers %s = %s but the reader %s: later abbreviated records decode differently'
                                % (name, ops[op], n, term(a), term(b)), '%s/%s: %s agrees' % (name, ops[op], n), tr + ['reader:'] + trace(r.st.ev))
        ctx.require(compat > 0, '%s:%s:unread' % (name, ops[op]), f, 'no reader path accepts the records %s writes with opcode %s' % (name, ops[op]))
    # every live event method of the journal writes something
    names = {x[0] for x in wps}
    for m in db.cls('joedb::Writable')['methods']:
        n = m['n'].split('::')[-1]
        if m.get('virt') and m.get('kind') not in ('dtor', 'ctor') and n in EVENTS(db):
            ctx.require(n in names, n + ':not-written', 'src/joedb/journal/Writable_Journal.cpp', 'event %s is not recorded by the journal' % n, 'event %s recorded' % n)
    ctx.notes['writer_paths'] = len(wps)
    ctx.notes['opcodes_used'] = len(used)


def EVENTS(db):
    skip = {'get_position', 'start_writing', 'end_writing', 'flush', 'soft_checkpoint', 'hard_checkpoint', 'wants_blob_data', 'on_blob', 'write_blob'}
    return {m['n'].split('::')[-1] for m in db.cls('joedb::Writable')['methods'] if m.get('virt') and m.get('kind') not in ('dtor', 'ctor')
            and not m['n'].split('::')[-1].startswith('get_own_')} - skip | {'write_blob'}


def payload(a, w, want, p):
    """bulk data: the pointer argument of a vector event is compared by shape only (its bytes are the data token or loop)"""
    return p['t'].endswith('*') and w[-1][0] in ('data', 'loop')


def same_struct(eng, facts, a, want, st, p):
    """field-wise equality with a symbolic aggregate parameter"""
    if not (isinstance(a, tuple) and a and a[0] == 'struct'):
        return False
    isref = None
    for k, v in a[1]:
        fname = k[2]
        w = ('fldof', want, fname)
        if equal(eng, facts, scalarise(v), scalarise(w)):
            continue
        if fname == 'joedb::Type::table_id':
            # meaningful for references only
            tid = ('fldof', want, 'joedb::Type::type_id')
            items = dict(eng.db.enum('joedb::Type::Type_Id')['items'])
            if eng.decide(facts, ('op', '==', tid, I(items['reference']))) is False:
                continue
        return False
    return True


import json, os
from jsa.corpus import VERIF

GOLDEN = os.path.join(VERIF, 'golden', 'format.json')


def format_table(ctx):
    """the journal format as the current source implements it"""
    db = ctx.db
    t = {'opcodes': {k: v for k, v in opcodes(db).items()}}
    t['type_ids'] = {k: v for k, v in db.enum('joedb::Type::Type_Id')['items']}
    h = db.cls('joedb::Header')
    t['header'] = [[f['n'], f['t'], o] for f, o in zip(h['fields'], h.get('offs', []))]
    shapes = {}
    names = {v: k for k, v in opcodes(db).items()}
    for name, f, o, w, eng in writer_paths(ctx):
        op = w[0][2][1] if w[0][0] == 'raw' and is_int(w[0][2]) else None
        s = json.dumps([shape(x) for x in w])
        shapes.setdefault(names.get(op, '?'), {'event': name, 'layouts': []})
        if s not in shapes[names.get(op, '?')]['layouts']:
            shapes[names.get(op, '?')]['layouts'].append(s)
    for v in shapes.values():
        v['layouts'].sort()
    t['records'] = shapes
    return t


@check('J07', floor=80, rule='operation codes, type identifiers, header layout and the byte layout of every record written, extracted from the source, against the frozen format-5 table; every bit of the bytes that compact_write writes for each class of numbers, by bit-slice abstract interpretation')
def j07(ctx):
    db = ctx.db
    compact(ctx, True, False)
    g = json.load(open(GOLDEN))
    t = format_table(ctx)
    e = db.enum('joedb::Readonly_Journal::operation_t')
    for k, v in g['opcodes'].items():
        ctx.require(t['opcodes'].get(k) == v, 'opcode:' + k, e, 'operation code %s is %s, files contain %s' % (k, t['opcodes'].get(k), v), 'opcode %s = %d' % (k, v))
    new = [k for k in t['opcodes'] if k not in g['opcodes']]
    vals = list(t['opcodes'].values())
    ctx.require(len(vals) == len(set(vals)), 'opcode:dup', e, 'two operations share a code')
    e = db.enum('joedb::Type::Type_Id')
    for k, v in g['type_ids'].items():
        ctx.require(t['type_ids'].get(k) == v, 'type:' + k, e, 'type id of %s is %s, files contain %s' % (k, t['type_ids'].get(k), v), 'type %s = %d' % (k, v))
    h = db.cls('joedb::Header')
    ctx.require(t['header'] == g['header'], 'header', h, 'header layout is %s instead of %s' % (t['header'], g['header']), 'header layout')
    for op, r in g['records'].items():
        cur = t['records'].get(op)
        ctx.require(cur is not None and cur['layouts'] == r['layouts'], 'record:' + op, 'src/joedb/journal/Writable_Journal.cpp',
                    'records with code %s are laid out as %s instead of %s' % (op, cur and cur['layouts'], r['layouts']), 'layout of %s' % op)
    ctx.notes['new_opcodes'] = new


@check('J08', floor=200, rule='the replay step, interpreted once for each of the 256 possible operation bytes')
def j08(ctx):
    db = ctx.db
    ops = {v: k for k, v in opcodes(db).items()}
    g = json.load(open(GOLDEN))
    live = set(g['records'])
    for b in range(256):
        f, eng, outs = reader_paths(ctx, b)
        normal = [o for o in outs if o.k != T]
        nm = ops.get(b)
        if nm in live:
            ctx.require(bool(normal), 'unreadable:%s' % nm, f, 'records with operation code %s cannot be replayed' % nm, '%s replayable' % nm)
        elif nm is None or nm in ('updates',):
            ctx.require(not normal, 'accepted:%d' % b, f, 'byte 0x%02x, which is no operation, is accepted during replay' % b, 'byte 0x%02x refused' % b, trace(normal[0].st.ev) if normal else None)
        else:
            ctx.require(True, nm, f, '', None)


class AllocRule(Codec):
    """records container growth driven by decoded sizes"""
    def on_call(self, eng, st, call, obj, vs, e):
        n = call['n']
        if n.startswith('std::') and n.rsplit('::', 1)[1] in ('resize', 'reserve', 'assign') and obj is not None and vs:
            v = eng.value(st, vs[0]) if e.get('pk', 'v')[:1] in 'crm' else vs[0]
            st.ev += (('alloc', obj, v, tuple(sorted(st.facts.items(), key=repr)), e.get('l', 0)),)
            eng.touch(st, obj, ('sized', v, e.get('l', 0)))
            return [(st, ('void',))]
        if n.startswith('std::') and n.rsplit('::', 1)[1] in ('size', 'length') and obj is not None and not vs:
            held = eng.rd(st, obj)
            if isinstance(held, tuple) and held and held[0] == 'sized':
                return [(st, held[1])]
        return Codec.on_call(self, eng, st, call, obj, vs, e)

    def on_ctor(self, eng, st, node, cls, L, args):
        n = node.get('n', '')
        if n.startswith(('std::vector', 'std::basic_string', 'std::unique_ptr')) and args and node.get('pk', 'v')[:1] == 'v':
            v = args[0]
            if isinstance(v, tuple) and v and v[0] not in ('loc', 'null', 'str') and 'tok' in heads(v):
                st.ev += (('alloc', L, v, tuple(sorted(st.facts.items(), key=repr)), node.get('l', 0)),)
                eng.touch(st, L, ('sized', v, node.get('l', 0)))
                return [(st, ('obj', L))]
        return Codec.on_ctor(self, eng, st, node, cls, L, args)


def heads(t):
    out = set()
    def go(x):
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                out.add(x[0])
            for y in x:
                go(y)
    go(t)
    return out


class Strings(AllocRule):
    """string primitives are interpreted instead of modelled"""
    def on_call(self, eng, st, call, obj, vs, e):
        n = call['n']
        if n in (FB + 'write_string', FB + 'read_string', FB + 'safe_read_string'):
            return None
        return AllocRule.on_call(self, eng, st, call, obj, vs, e)


@check('J09', floor=20, rule='replay step, interpreted for every operation code: each allocation sized by a decoded number is preceded by a comparison of that number with the checkpoint, each read into existing storage by a range check')
def j09(ctx):
    db = ctx.db
    f = db.fn('joedb::Readonly_Journal::one_step')
    CP = ('cp',)
    total = 0
    for nm, b in sorted(opcodes(db).items(), key=lambda x: x[1]):
        eng = Engine(db, Strings(db, b))
        def setup(e2, st, L, vs):
            ctx_setup(st, L)
            st.store[fld(L, J + 'checkpoint_position')] = CP
        outs = eng.run(f, setup, this_cls='joedb::Readonly_Journal')
        ctx.use_engine(eng)
        for o in outs:
            for x in flat(o.st.ev):
                if x[0] == 'alloc' and 'tok' in heads(x[2]):
                    total += 1
                    at = State()
                    at.facts = dict(x[3])
                    v = scalarise(x[2])
                    good = any(eng.decide(at, ('op', c, v, CP)) is True for c in ('<', '<='))
                    ctx.require(good, '%s:alloc' % nm, '%s:%s' % (rel(f['file']), x[-1]), 'replaying %s allocates a size read from the file without comparing it to the checkpoint' % nm, '%s: allocation bounded' % nm, trace(o.st.ev))
                if x[0] == 'data' and x[1] is not None and x[1][0] == 'loc' and root_of(x[1][1])[0] in ('own',) or \
                   (x[0] == 'data' and x[1] is not None and x[1][0] == 'loc' and x[1][1][0] in ('elem0', 'ptr') and root_of(x[1][1][1])[0] == 'own'):
                    pass
            # storage lent by the receiver
            if any(x[0] == 'own' for x in o.st.ev):
                rd = [x for x in flat(o.st.ev) if x[0] in ('data',) or (x[0] in ('raw', 'compact', 'string') and x is not o.st.ev[0])]
                lent = any('own' in heads(x) for x in o.st.ev if x[0] == 'call' and x[1].startswith('update_vector'))
                if lent and o.k != T:
                    total += 1
                    st = o.st
                    caps = [k for k in fields_terms(st.facts) if k and k[0] == 'cap']
                    good = any(('cap' in heads(k)) and (k[0] == 'op' and k[1] == '<') and (eng_upper(eng, k, v)) for k, v in st.facts.items())
                    rid = o.st.store.get(('fld', fld(('this',), J + 'record_of_last_operation'), RID))
                    low = rid is not None and eng.decide(st, ('op', '<', rid, I(0))) is False
                    ctx.require(good, '%s:capacity' % nm, f, 'replaying %s writes into storage lent by the receiver without checking record + size against its capacity' % nm, '%s: capacity checked' % nm, trace(o.st.ev))
                    ctx.require(low, '%s:negative' % nm, f, 'replaying %s writes into storage lent by the receiver without refusing negative record ids' % nm, '%s: negative id refused' % nm, trace(o.st.ev))
    ctx.require(total >= 10, 'coverage', f, 'sized allocations not found')


def fields_terms(facts):
    out = []
    def go(x):
        if isinstance(x, tuple):
            out.append(x)
            for y in x:
                go(y)
    for k in facts:
        go(k)
    return out


def eng_upper(eng, k, v):
    """fact k==v states  sum <= capacity  where sum involves two decoded numbers"""
    lo, hi = k[2], k[3]
    if v:
        lo, hi = k[2], k[3]       # lo < hi
    else:
        lo, hi = k[3], k[2]       # hi' <= lo'  i.e. k[3] <= k[2]
    if hi[0] != 'cap':
        return False
    toks = {x for x in fields_terms({lo: 1}) if x and x[0] == 'tok'}
    return len(toks) >= 2


@check('J15', floor=6, rule='string primitives of the journal buffer: length prefix then exactly that many bytes, read into a buffer of exactly that size')
def j15(ctx):
    db = ctx.db
    f = db.fn('joedb::File_Buffer::write_string')
    eng = Engine(db, Strings(db))
    P = ('arg', f['ps'][0]['n']) if not f['ps'][0].get('ref') else ('rd', ('param', f['ps'][0]['n']), 0)
    outs = eng.run(f, this_cls='joedb::File_Buffer')
    ctx.use_engine(eng)
    for o in outs:
        if o.k == T:
            continue
        w = wire(o.st.ev)
        ctx.require([x[0] for x in w] == ['compact', 'data'], 'write:shape', f, 'a string is not written as a length followed by its bytes: %s' % [shape(x) for x in w], 'write: length, bytes', trace(o.st.ev))
        if [x[0] for x in w] == ['compact', 'data']:
            ctx.require(w[0][2] == w[1][2] and 'size' in repr(w[0][2]), 'write:length', f, 'the length written (%s) is not the number of bytes written (%s)' % (term(w[0][2]), term(w[1][2])), 'write: same length', trace(o.st.ev))
    for n in ('read_string', 'safe_read_string'):
        f = db.fn('joedb::File_Buffer::' + n)
        eng = Engine(db, Strings(db))
        outs = eng.run(f, this_cls='joedb::File_Buffer')
        ctx.use_engine(eng)
        got = 0
        for o in outs:
            if o.k == T:
                continue
            w = wire(o.st.ev)
            tr = trace(o.st.ev)
            ctx.require(bool(w) and w[0][0] == 'compact', n + ':prefix', f, 'a string is read without its length prefix', '%s: prefix' % n, tr)
            if [x[0] for x in w] == ['compact', 'data']:
                got += 1
                ctx.require(w[1][2] == w[0][2], n + ':length', f, '%s reads %s bytes for a length of %s' % (n, term(w[1][2]), term(w[0][2])), '%s: reads its length' % n, tr)
                al = [x for x in o.st.ev if x[0] == 'alloc']
                ctx.require(bool(al) and al[-1][2] == w[1][2], n + ':buffer', f, '%s reads %s bytes into a buffer of another size' % (n, term(w[1][2])), '%s: buffer sized' % n, tr)
                if n == 'safe_read_string':
                    mx = ('arg', f['ps'][0]['n'])
                    ctx.require(any(eng.decide(o.st, ('op', c, w[0][2], mx)) is True for c in ('<', '<=')), n + ':bound', f, 'the length is not compared with the maximum', '%s: bounded' % n, tr)
            else:
                ctx.require(len(w) == 1 and n == 'safe_read_string', n + ':shape', f, '%s reads %s' % (n, [shape(x) for x in w]), None, tr)
        ctx.require(got > 0, n + ':never', f, '%s never reads the bytes' % n)

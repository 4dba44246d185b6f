"""U01: what the text dump prints, the interpreter reads back as the same event."""
import re
from jsa.corpus import AnalysisError
from jsa.engine import Engine
from jsa.runner import check
from checks.common import sizes, DEEP, N, R, T, I, Rule, flat, trace
from checks.compiled import strip, show, arg, elem, CompiledRule
from checks.relays import events
from checks.buffers import plus

IW = 'joedb::Interpreter_Writable'
TOK, FAIL = ('ghost', 'tok'), ('ghost', 'fail')
TYPES = None
IDS = ('joedb::Record_Id', 'joedb::Table_Id', 'joedb::Field_Id')
ENOUGH = {'float': 9, 'double': 17}


WIDTH = {'a': 1, 'h': 1, 'c': 1, 's': 2, 't': 2, 'i': 4, 'j': 4, 'l': 8, 'm': 8, 'x': 8, 'y': 8, 'f': ('f', 4), 'd': ('f', 8)}
BYTES = {'int8': 1, 'int16': 2, 'int32': 4, 'int64': 8, 'reference': 4, 'boolean': 1, 'float32': ('f', 4), 'float64': ('f', 8), 'blob': 8}


def holds(w, need):
    """can a number type hold the values of another one?"""
    if w is None or need is None:
        return True
    if isinstance(w, tuple) != isinstance(need, tuple):
        return False
    return w >= need


class TextRule(Rule):
    merge = False
    max_states = 20000
    loop_unroll = 6 + DEEP
    wraps = ('joedb::Record_Id::id',)
    typeid = None          # of the type of the field
    tokens = ()            # what is read
    typed = True           # read_<type> and write_<type> are one token
    stream = 'parameters'
    need = None            # width of the values

    def inline(self, eng, f):
        n = f['n']
        if self.typed and re.match(r'joedb::(read|write)_\w+$', n):
            return False
        if n.startswith('joedb::operator') and f.get('ps') and 'stream' in f['ps'][0]['t']:
            return False
        return n.startswith(('joedb::Interpreter_Writable::', 'joedb::write_', 'joedb::read_', 'joedb::Blob::', 'joedb::Record_Id::', 'joedb::to_underlying', 'joedb::operator')) or '_Command_Processor::' in n or n.startswith('joedb::Command_Interpreter::process')

    def models(self, name):
        return name.startswith(('std::', 'joedb::Readable', 'joedb::Writable', 'joedb::Type', 'time'))

    def may_throw(self, eng, name, node):
        return False

    def ident(self, eng, st, v):
        return CompiledRule.ident(self, eng, st, v)

    def put(self, st, item):
        if item[0] == 'i':
            item = ('str', chr(item[1]))
        st.ev += (('out', item),)

    # -- reading
    def take(self, st, kinds):
        """the next token; None at the end of the line"""
        k = st.store.get(TOK, I(0))[1]
        if k >= len(self.tokens):
            st.store[FAIL] = I(1)
            return None
        st.store[TOK] = I(k + 1)
        t = self.tokens[k]
        if t[0] not in kinds:
            st.ev += (('mismatch', t, kinds[-1]),)
        return t

    def mine(self, eng, st, v):
        L = v[1] if isinstance(v, tuple) and v and v[0] == 'loc' else v
        for _ in range(6):
            while isinstance(L, tuple) and L and L[0] == 'refto':
                L = L[1]
            x = st.store.get(L)
            if isinstance(x, tuple) and x and x[0] == 'loc' and x[1] != L:
                L = x[1]
            else:
                break
        return isinstance(L, tuple) and L in (('param', 'parameters'), ('param', self.stream))

    def word(self, eng, st, v):
        """text of a string, when it is known"""
        x = v
        for _ in range(8):
            if isinstance(x, tuple) and x and x[0] == 'str':
                return x[1]
            if isinstance(x, tuple) and x and x[0] in ('loc', 'obj', 'rd'):
                L = x[1]
                while isinstance(L, tuple) and L and L[0] == 'refto':
                    L = L[1]
                x = st.store.get(L)
            else:
                break
        return None

    def source(self, eng, st, v):
        x = v
        for _ in range(8):
            if isinstance(x, tuple) and x and x[0] in ('tname', 'fname', 'name', 'str', 'w', 'num'):
                return x
            if isinstance(x, tuple) and x and x[0] in ('loc', 'obj', 'rd'):
                L = x[1]
                while isinstance(L, tuple) and L and L[0] == 'refto':
                    L = L[1]
                x = st.store.get(L)
            else:
                break
        return self.ident(eng, st, v)

    def given(self, eng, st, v):
        """an argument of an event"""
        x = self.source(eng, st, v)
        if isinstance(x, tuple) and x and x[0] in ('name',):
            return x[1]
        if isinstance(x, tuple) and x and x[0] == 'w':
            return x[2]
        return x

    def on_ctor(self, eng, st, node, cls, L, args):
        c = cls.replace('const ', '')
        if c.startswith('std::basic_string') and args:
            w = self.source(eng, st, args[0])
            st.store[L] = w
            return [(st, w if w[0] == 'str' else ('obj', L))]
        if c.startswith('std::basic_string'):
            st.store[L] = ('str', '')
            return [(st, ('obj', L))]
        if c.startswith('std::vector<'):
            if args:
                st.store[('ghost', 'vsize', L)] = self.ident(eng, st, args[0])
            return [(st, ('obj', L))]
        if c == 'joedb::Type' and len(args) == 1:
            return None
        if c.startswith('std::'):
            return [(st, ('obj', L))]
        return None

    def on_write(self, eng, st, L, v, node):
        L = self.bare(L)
        if isinstance(L, tuple) and L[0] in ('idx', 'elem0') and isinstance(v, tuple):
            st.store[('ghost', 'el', L[1], L[2] if L[0] == 'idx' else I(0))] = self.given(eng, st, v)

    def bare(self, L):
        while isinstance(L, tuple) and L and L[0] == 'refto':
            L = L[1]
        return L

    def on_call(self, eng, st, call, obj, vs, e):
        n = call['n']
        m = n.rsplit('::', 1)[-1]
        # events
        if n.startswith('joedb::Writable::') and not (self.bare(obj) == ('this',)):
            a = []
            for v in vs:
                x = self.given(eng, st, v)
                if isinstance(v, tuple) and v[0] == 'loc' and isinstance(self.bare(v[1]), tuple) and self.bare(v[1])[0] in ('idx', 'elem0', 'ptr'):
                    V = self.bare(v[1])[1]
                    x = ('vec', tuple(st.store.get(('ghost', 'el', V, I(j)), ('unset', j)) for j in range(16) if ('ghost', 'el', V, I(j)) in st.store), st.store.get(('ghost', 'vsize', V)))
                a.append(x)
            st.ev += (('call', m, tuple(a)),)
            return [(st, ('any',))]
        if n == 'joedb::Type::get_type_id':
            return [(st, I(self.typeid or 0))]
        if n == 'joedb::Type::get_table_id':
            return [(st, ('typetable',))]
        if n == 'joedb::Type::reference':
            return [(st, ('type', 'reference', self.ident(eng, st, vs[0])))]
        if n.startswith('joedb::Type::') and not vs and obj is None:
            return [(st, ('type', m, None))]
        if n.startswith(('joedb::Readable::', 'joedb::Database_Schema::')):
            a = [self.source(eng, st, v) for v in vs]
            if m == 'get_table_name':
                return [(st, ('tname', a[0]))]
            if m == 'get_field_name':
                return [(st, ('fname', a[0], a[1]))]
            if m == 'find_table':
                if a[0][0] == 'tname':
                    eng.set_bound(st, a[0][1], lo=1)
                    return [(st, a[0][1])]
                st.ev += (('mismatch', a[0], 'table'),)
                return [(st, ('any',))]
            if m == 'find_field':
                if a[1][0] == 'fname' and a[1][1] == a[0]:
                    eng.set_bound(st, a[1][2], lo=1)
                    return [(st, a[1][2])]
                st.ev += (('mismatch', a[1], 'field'),)
                return [(st, ('any',))]
            return [(st, ('call', m) + tuple(a))]
        if m in ('is_null', 'is_not_null') and n.startswith('joedb::Record_Id') and obj is not None:
            v = self.ident(eng, st, ('loc', obj))
            if any(t[0] == 'num' and t[1] == v for t in self.tokens):
                return [(st, I(int(m == 'is_not_null')))]
            z = st.copy()
            z.ev += (('limit',),)
            return [(st, I(0)), (z, I(1))]
        # values
        w = re.match(r'joedb::(read|write)_(\w+)$', n)
        if w and self.typed:
            if w.group(1) == 'write':
                self.put(st, ('w', w.group(2), self.ident(eng, st, vs[1])))
                return [(st, ('void',))]
            if not self.mine(eng, st, vs[0]):
                st.ev += (('mismatch', 'another stream', ''),)
            t = self.take(st, ('w', w.group(2)))
            if t is None:
                return [(st, ('nothing',))]
            if t[0] == 'w' and t[1] != w.group(2):
                st.ev += (('mismatch', t, w.group(2)),)
            return [(st, t[2] if t[0] == 'w' else ('any',))]
        # output
        if m == 'operator<<' and n.startswith(('std::', 'joedb::')):
            free = obj is None
            v = vs[1] if free else vs[0]
            return self.output(eng, st, call, n, v, vs[0] if free else ('loc', obj), free)
        if m == 'put' and 'ostream' in n:
            self.put(st, self.ident(eng, st, vs[0]))
            return [(st, ('loc', obj))]
        if m == 'write' and 'ostream' in n:
            x, size = vs[0], self.ident(eng, st, vs[1])
            b = elem(x)[0]
            done = st.store.get(('ghost', 'chars', b))
            if done and size == done[1]:
                self.put(st, done[0])
                return [(st, ('loc', obj))]
            self.put(st, ('unknown', show(size)))
            return [(st, ('loc', obj))]
        if n.startswith('std::to_chars') and len(vs) == 3:
            b = elem(vs[0])[0]
            st.ctr += 1
            size = ('tc', st.ctr)
            w = WIDTH.get(call.get('f', '')[-1:])
            st.store[('ghost', 'chars', b)] = (('num', self.ident(eng, st, vs[2]), w if isinstance(w, tuple) else None), size)
            L = ('tmp', 'tc%d' % st.ctr)
            st.store[('fld', L, 'std::to_chars_result::ptr')] = ('loc', ('ptr', vs[0][1], size)) if vs[0][0] == 'loc' else plus(vs[0], size)
            return [(st, ('obj', L))]
        if m == 'precision' and vs:
            st.store[('ghost', 'precision')] = self.ident(eng, st, vs[0])
            return [(st, ('any',))]
        if m == 'setprecision':
            return [(st, ('precision', self.ident(eng, st, vs[0])))]
        # input
        if m == 'operator>>' and n.startswith(('std::', 'joedb::')):
            s, L = (('loc', obj), vs[0]) if obj is not None else (vs[0], vs[1])
            if not self.mine(eng, st, s):
                st.ev += (('mismatch', 'another stream', ''),)
            word = n.startswith('std::operator>>')
            t = self.take(st, ('tname', 'fname', 'name', 'str', 'word') if word else ('num', 'number'))
            if t is not None and t[0] == 'num' and not holds(WIDTH.get(call.get('f', '')[-1:]), self.need or t[2]):
                st.ev += (('mismatch', t, 'a narrower number'),)
            if t is not None and L[0] == 'loc':
                X = self.bare(L[1])
                st.store = {K: v for K, v in st.store.items() if not (K[0] == 'fld' and K[1] == X)}
                st.store[X] = t if word else t[1]
            return [(st, s)]
        if m == 'ignore' and 'istream' in n:
            t = self.take(st, ('str', 'a character'))
            if t is not None and (t[0] != 'str' or len(t[1]) != 1):
                st.ev += (('mismatch', t, 'one character'),)
            return [(st, ('loc', obj))]
        if m in ('good', 'fail', 'eof', 'operator bool', 'operator!', 'setstate') and ('ios' in n or 'istream' in n):
            k, f = st.store.get(TOK, I(0))[1], st.store.get(FAIL, I(0))[1]
            if m == 'setstate':
                st.store[FAIL] = I(1)
                return [(st, ('void',))]
            v = {'good': not f and k < len(self.tokens), 'fail': f, 'operator!': f, 'operator bool': not f, 'eof': k >= len(self.tokens)}[m]
            return [(st, I(int(v)))]
        # strings
        if n.startswith('std::') and m in ('operator==', 'operator!=', 'compare') and len(vs) + (obj is not None) == 2:
            a, b = (self.source(eng, st, v) for v in (list(vs) if obj is None else [('loc', obj)] + list(vs)))
            if a[0] == 'str' and b[0] == 'str':
                eq = a[1] == b[1]
                return [(st, I(int(eq == (m == 'operator==')) if m != 'compare' else int(not eq)))]
        if n.startswith('std::basic_string') and obj is not None:
            a = self.source(eng, st, ('loc', obj))
            if 'operator basic_string_view' in n or m in ('operator basic_string_view', 'c_str', 'data', 'str'):
                return [(st, a if a[0] in ('str', 'tname', 'fname', 'name', 'w') else ('loc', obj))]
            if a[0] == 'str' and m == 'empty':
                return [(st, I(int(not a[1])))]
            if a[0] == 'str' and m in ('size', 'length'):
                return [(st, I(len(a[1])))]
            if a[0] == 'str' and m in ('operator[]', 'front', 'at'):
                i = self.ident(eng, st, vs[0]) if vs else I(0)
                if i[0] == 'i' and i[1] < len(a[1]):
                    return [(st, I(ord(a[1][i[1]])))]
            if m == 'operator=':
                X = self.bare(obj)
                st.store[X] = self.source(eng, st, vs[0])
                if isinstance(X, tuple) and X[0] in ('idx', 'elem0'):
                    self.on_write(eng, st, X, vs[0], e)
                return [(st, ('loc', obj))]
        if n.startswith('std::vector<') and obj is not None:
            if m in ('operator[]', 'at'):
                return [(st, ('loc', ('idx', self.bare(obj), self.ident(eng, st, vs[0]))))]
            if m in ('data', 'begin'):
                return [(st, ('loc', ('elem0', self.bare(obj))))]
            if m in ('resize', 'reserve'):
                st.store[('ghost', 'vsize', self.bare(obj))] = self.ident(eng, st, vs[0])
                return [(st, ('void',))]
            if m in ('push_back', 'emplace_back'):
                V = self.bare(obj)
                j = sum(1 for K in st.store if K[:3] == ('ghost', 'el', V))
                st.store[('ghost', 'el', V, I(j))] = self.given(eng, st, vs[0])
                st.store[('ghost', 'vsize', V)] = I(j + 1)
                return [(st, ('any',))]
            if m == 'size':
                return [(st, st.store.get(('ghost', 'vsize', self.bare(obj)), I(0)))]
        if m == 'operator=' and obj is not None and isinstance(self.bare(obj), tuple) and self.bare(obj)[0] in ('idx', 'elem0'):
            self.on_write(eng, st, self.bare(obj), vs[0], e)
            return [(st, ('loc', obj))]
        if n in ('joedb::get_time_string', 'joedb::about_joedb'):
            return [(st, ('name', ('text', m)))]
        return None

    def output(self, eng, st, call, n, v, s, free):
        if isinstance(v, tuple) and v and v[0] == 'precision':
            st.store[('ghost', 'precision')] = v[1]
            return [(st, s)]
        x = self.source(eng, st, v)
        if isinstance(x, tuple) and x and x[0] in ('str', 'tname', 'fname', 'name'):
            self.put(st, x)
        elif free and n.startswith('std::'):
            t = (call.get('pt') or [''])[-1] if isinstance(call.get('pt'), list) else ''
            if x[0] == 'i':
                self.put(st, ('str', chr(x[1])))
            else:
                self.put(st, ('name', x))
        elif isinstance(x, tuple) and x and x[0] in ('fn', 'fnp'):
            self.put(st, ('str', '\n' if 'endl' in str(x) else ''))
        else:
            self.put(st, self.number(st, call, x))
        return [(st, s)]

    def number(self, st, call, x):
        f = call.get('f', '')
        ty = 'float' if f.endswith('lsEf') else 'double' if f.endswith('lsEd') else ''
        p = st.store.get(('ghost', 'precision'), I(6))
        if ty and not (p[0] == 'i' and p[1] >= ENOUGH[ty]):
            return ('rounded', x)
        w = WIDTH.get(f[-1:])
        if not holds(w, self.need):
            return ('rounded', x)
        return ('num', x, w)


def line(ev):
    """what is printed, as tokens; None if it is not one line"""
    items = []
    for x in flat(ev):
        if x[0] == 'out':
            if x[1][0] == 'str':
                items += [('c', c) for c in x[1][1]]
            else:
                items.append(x[1])
    lines = 0
    toks, cur = [], []
    for it in items:
        if it[0] == 'c' and it[1] in ' \n\t':
            if cur:
                toks.append(cur)
                cur = []
            lines += it[1] == '\n'
        else:
            cur.append(it)
    if cur:
        toks.append(cur)
    out = []
    for t in toks:
        if all(x[0] == 'c' for x in t):
            out.append(('str', ''.join(x[1] for x in t)))
        elif len(t) == 1:
            out.append(t[0])
        else:
            out.append(('glued',) + tuple(t))
    return out, lines, bool(items) and items[-1] == ('c', '\n')


def pieces(ev):
    """what is printed, as characters and values"""
    out = []
    for x in flat(ev):
        if x[0] == 'out':
            if x[1][0] == 'str' and out and out[-1][0] == 'str':
                out[-1] = ('str', out[-1][1] + x[1][1])
            else:
                out.append(x[1])
    return out


def dump_lines(ctx, db, f, size=None, typeid=None):
    """[(tokens, lines, complete)] of every path of the function that prints an event"""
    rule = TextRule()
    rule.typeid = typeid
    eng = Engine(db, rule)
    args = {}
    if size is not None:
        j = [i for i, p in enumerate(f['ps']) if p['n'] == 'size' or p['t'].replace('const ', '') in ('size_t', 'unsigned long')]
        args = {j[0]: I(size)}
    outs = eng.run(f, None, IW, args=args)
    ctx.use_engine(eng)
    return [(o.k,) + line(o.st.ev) for o in outs]


def parses(ctx, db, processors, tokens, typeid):
    """[(processor, kind, calls, problems, status)] of every path"""
    word = tokens[0][1] if tokens else ''
    res = []
    for f in processors:
        rule = TextRule()
        rule.typeid = typeid
        rule.tokens = tuple(tokens[1:])
        eng = Engine(db, rule)
        outs = eng.run(f, None, f['n'].rsplit('::', 1)[0], args={0: ('str', word)})
        ctx.use_engine(eng)
        for o in outs:
            ev = list(flat(o.st.ev))
            res.append((f['n'].rsplit('::', 2)[-2], o.k, [x for x in ev if x[0] == 'call'],
                        [x for x in ev if x[0] == 'mismatch'],
                        any(x[0] == 'limit' for x in ev), o.v, o.st.store.get(TOK, I(0))[1]))
    return res


PROCESSORS = ('Command_Interpreter', 'Writable_Command_Processor', 'Readable_Writable_Command_Processor')
SILENT = ('wants_blob_data', 'get_name', 'soft_checkpoint', 'hard_checkpoint', 'flush', 'on_blob')


def tree(v):
    """names of the parameters that make a value"""
    v = strip(v)
    if isinstance(v, tuple):
        if v[:1] == ('arg',):
            return ('p', v[1])
        if v[:1] == ('rd',) and isinstance(v[1], tuple) and v[1][0] == 'param':
            return ('p', v[1][1])
        if v[:1] == ('rd',) and isinstance(v[1], tuple) and v[1][0] in ('idx', 'elem0') and isinstance(v[1][1], tuple) and v[1][1][0] == 'param':
            return ('e', v[1][1][1], v[1][2][1] if v[1][0] == 'idx' and isinstance(v[1][2], tuple) else 0)
    return v


@check('U01', parts=('src',), floor=400,
       rule='Each event printed by Interpreter_Writable is interpreted to the sequence of words it prints (table and field names, names given by the caller, numbers with the width and precision of the printed type, values printed by write_<type>); the process_command functions of the interpreter are then interpreted on exactly this sequence of words, stream extractions taking them one by one. For every event, every type of field and every enumerated vector size: what is printed is one line; exactly one command processor accepts it; it consumes the words with extractions of the kind that was printed; the first event that it makes is the printed event with the same arguments; nothing is refused, except vectors above the configured maximum. Comments and blank lines make no event. For every type but string, read_<type> on what write_<type> prints gives the same value: a number is extracted into a type at least as wide as the field, and a floating-point number is printed with enough digits to identify it.',
       trusted=['string literals: read_string undoes the escapes of write_string', 'names contain no space, names of live tables and fields are unique, record identifiers are not null', 'the istream and ostream operators print and read finite numbers as the C++ standard says', 'the schema seen by the dump and by the interpreter is the same after the same events'])
def u01(ctx):
    db = ctx.db
    items = db.enum('joedb::Type::Type_Id')['items']
    tid = {x[0].rsplit('::', 1)[-1]: x[1] for x in items}
    if len(tid) < 8:
        raise AnalysisError('types not found')
    procs = []
    for c in PROCESSORS:
        f = db.fn('joedb::' + c + '::process_command')
        procs.append(f)
        ctx.use(f)
    for name, mt in events(db):
        fs = [f for f in db.fns(IW + '::' + name) if f.get('body')]
        if not fs:
            continue
        f = fs[0]
        ctx.use(f)
        t = re.match(r'update_(vector_)?(\w+)$', name)
        vec = bool(t and t.group(1))
        ty = t.group(2) if t else None
        for x in ([i for n, i in tid.items() if n != 'null'] if name == 'add_field' else [tid.get(ty)]):
            for size in (sizes(ctx) if vec else [None]):
                event(ctx, db, procs, f, name, x, size, {v: k for k, v in tid.items()})
    for ty in sorted(tid):
        if ty not in ('null', 'string'):
            one_type(ctx, db, ty)


def event(ctx, db, procs, f, name, typeid, size, names):
    what = name + (' of a field of type %s' % names[typeid] if name == 'add_field' else '') + ('' if size is None else ' of %d elements' % size)
    key = 'U01 ' + name
    for k, toks, lines, complete in dump_lines(ctx, db, f, size, typeid):
        if k == T:
            ctx.bad(key, f, '%s: dumping this event throws' % what)
            continue
        if not toks and lines == 0:
            ctx.require(name in SILENT, key, f, '%s: prints nothing' % what)
            continue
        if not ctx.require(lines == 1 and complete, key, f, '%s: what is printed is not one complete line: %s' % (what, show_line(toks))):
            continue
        if not ctx.require(not toks or toks[0][0] == 'str', key, f, '%s: the line does not start with the name of a command: %s' % (what, show_line(toks))):
            continue
        for t in toks:
            if t[0] in ('rounded', 'glued', 'unknown', 'any'):
                ctx.bad(key, f, '%s: %s' % (what, {'rounded': 'a number is printed with a loss', 'glued': 'two values are printed without a space'}.get(t[0], 'a printed value is unknown')))
        taken = 0
        accepted = set()
        for p, k2, calls, problems, limit, v, used in parses(ctx, db, procs, toks, typeid):
            if k2 == T:
                ctx.require(limit, key, f, '%s: %s refuses the line that was printed: %s' % (what, p, show_line(toks)))
                continue
            if v == I(4):
                ctx.require(not calls, key, f, '%s: %s makes an event, but says that it does not know the command' % (what, p))
                continue
            accepted.add(p)
            taken += 1
            if name in SILENT:
                ctx.require(not calls, key, f, '%s: the line makes an event' % what, sample='%s: read back as nothing' % name)
                continue
            if not ctx.require(calls, key, f, '%s: %s reads the line that was printed without making an event: %s' % (what, p, show_line(toks))):
                continue
            if problems:
                ctx.bad(key, f, '%s: the line is read by other extractions than it was printed: %s is read as %s' % (what, problems[0][1], problems[0][2]))
                continue
            got = calls[0]
            want = [('p', x['n']) for x in f['ps']]
            have = [tree(x) for x in got[2]]
            if name == 'add_field' and len(have) == 3:
                want[2] = ('type', names[typeid], ('typetable',) if names[typeid] == 'reference' else None)
            if size is not None and len(have) == 5:
                want[3] = I(size)
                vn = f['ps'][4]['n']
                want[4] = ('vec', size)
                hv = got[2][4]
                have[4] = hv
                if isinstance(hv, tuple) and hv and hv[0] == 'vec' and [tree(x) for x in hv[1]] == [('e', vn, j) for j in range(size)]:
                    have[4] = ('vec', size)
                elif size == 0:
                    have[4] = ('vec', 0)
            ctx.require(got[1] == name and have == want, key, f, '%s: the line is read back as %s(%s)' % (what, got[1], ', '.join(show(x) if isinstance(x, tuple) else str(x) for x in got[2])),
                        sample='%s: printed as "%s", read back as the same event' % (what, show_line(toks)))
        ctx.require(len(accepted) == 1, key, f, '%s: the printed line is accepted by %s' % (what, ' and '.join(sorted(accepted)) or 'no command processor'))


def show_line(toks):
    return ' '.join(t[1] if t[0] == 'str' else '<%s>' % t[0] for t in toks)


def one_type(ctx, db, ty):
    w, r = db.fn('joedb::write_' + ty), db.fn('joedb::read_' + ty)
    ctx.use(w)
    ctx.use(r)
    key = 'U01 write_' + ty
    rule = TextRule()
    rule.typed = False
    rule.need = BYTES.get(ty)
    eng = Engine(db, rule)
    outs = eng.run(w, None, None)
    ctx.use_engine(eng)
    vn = w['ps'][1]['n']
    for o in outs:
        p = pieces(o.st.ev)
        if not ctx.require(o.k != T, key, w, 'write_%s throws' % ty):
            continue
        lost = [x for x in p if x[0] not in ('num', 'str')]
        if lost:
            ctx.bad(key, w, 'write_%s: %s' % (ty, 'the number is printed with a loss of precision' if lost[0][0] == 'rounded' else 'what is printed is not a number: %s' % (lost[0],)))
            continue
        rr = TextRule()
        rr.typed = False
        rr.need = rule.need
        rr.tokens = tuple(p)
        rr.stream = r['ps'][0]['n']
        reng = Engine(db, rr)
        for q in reng.run(r, None, None):
            x = q.v
            bad = [e for e in flat(q.st.ev) if e[0] == 'mismatch']
            if q.st.store.get(FAIL, I(0)) == I(1):
                bad.append(('mismatch', 'the end of the value', 'more'))
            good = False
            if isinstance(x, tuple) and x and x[0] == 'obj':
                B = 'joedb::Blob::'
                good = all(rr.ident(reng, q.st, q.st.store.get(('fld', x[1], B + n))) == ('fldof', ('arg', vn), B + n) for n in ('position', 'size'))
            elif isinstance(x, tuple) and x and x[0] == 'i':
                good = eng.decide(o.st, ('arg', vn)) == bool(x[1])
            else:
                good = tree(x) == ('p', vn)
            ctx.require(q.k != T and good and not bad, key, r, 'read_%s does not give the value that write_%s prints%s' % (ty, ty, '' if not bad else ': %s is read as %s' % (bad[0][1], bad[0][2])),
                        sample='write_%s: read_%s gives the same value' % (ty, ty))
        ctx.use_engine(reng)

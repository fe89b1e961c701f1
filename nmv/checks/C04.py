"""C04: the JSON and S-expression printers always emit well-formed text that decodes to the values given."""
import z3
import libc
from sym import Ptr, FPtr, NULL, State, bv, conc
from framework import Unit
from sink import Sink

TITLE = 'structured output is well formed and lossless'
SOURCES = ['sprinter-json.c', 'sprinter-sexp.c']
ASSUMPTIONS = ['stdio writes the bytes it is given (no I/O error is modelled)',
               'callers use the printer as its interface says (a map alternates keys and values, end closes what is open)',
               'strings are shorter than 2^32 bytes; talloc of a state frame succeeds']

WS = (32, 10, 9, 13)


def ci(c):
    return conc(c)


class Mon(Sink):
    """Ghost parser/decoder.  mode: V (a value must follow), E (first element or close), S (separator or close),
    K (a key must follow), str/esc/hex: inside a string, kw: inside a keyword, lit: inside a bare token, top: between
    top-level values.  pos: bytes of the expected string decoded so far.  stk: the kinds of the frames the parser has
    open, innermost last; '?' at the bottom stands for any number of further frames."""

    def __init__(self, ctx, eng, sexp):
        self.sexp = sexp
        self.expect = None

    def start(self, eng, st, mode, stk):
        st.ghost['m.mode'] = mode
        st.ghost['m.stk'] = stk
        st.ghost['m.acc'] = ()
        st.ghost['m.pos'] = z3.BitVecVal(0, 64)
        st.ghost['m.sp'] = False
        st.ghost['m.out'] = ()

    def bad(self, eng, st, what):
        eng.fail(st, what, 'post')
        return []

    def step(self, eng, st, c):
        m = st.ghost['m.mode']
        c = ci(c)
        if m == 'str':
            return self.in_str(eng, st, c)
        if m == 'esc':
            return self.in_esc(eng, st, c)
        if isinstance(m, tuple) and m[0] == 'num':
            return self.in_num(eng, st, c, m[1], m[2], m[3])
        if isinstance(m, tuple) and m[0] == 'kw':
            return self.in_kw(eng, st, c)
        if not isinstance(c, int):
            r = eng.concretize(st, z3.ZeroExt(56, c))
            if r is None:
                return self.bad(eng, st, 'only fixed punctuation outside strings')
            c = r
        return self.struct(eng, st, c)

    # -- inside strings
    def byte(self, eng, st, v, what):
        arr, n = self.expect
        pos = st.ghost['m.pos']
        eng.prove(st, z3.ULT(pos, n), 'no more bytes than the string has', 'post')
        b = eng.read_arr(st, arr, pos)
        eng.prove(st, bv(b, 8) == bv(v, 8), what, 'post')
        st.ghost['m.pos'] = pos + 1
        st.ghost['m.mode'] = 'str'
        return [st]

    def in_str(self, eng, st, c):
        c = bv(c, 8)
        out = []
        a, r = eng.branch(st, c == ord('"'))
        if a is not None:
            arr, n = self.expect
            eng.prove(a, a.ghost['m.pos'] == n, 'the closing quote comes after the last byte', 'post')
            out += self.value_done(eng, a, 'string')
        if r is None:
            return out
        a, r = eng.branch(r, c == ord('\\'))
        if a is not None:
            a.ghost['m.mode'] = 'esc'
            out.append(a)
        if r is not None:
            eng.prove(r, z3.UGE(c, 32), 'no raw control character inside a string', 'post')
            out += self.byte(eng, r, c, 'raw byte equals the byte of the string at its place')
        return out

    def in_esc(self, eng, st, c):
        tab = {'"': 34, '\\': 92, 'n': 10}
        if not self.sexp:
            tab.update({'/': 47, 'b': 8, 'f': 12, 't': 9, 'r': 13})
        c = bv(c, 8)
        out = []
        r = st
        if not self.sexp:
            a, r = eng.branch(r, c == ord('u'))
            if a is not None:
                a.ghost['m.mode'] = ('num', 4, 4, z3.BitVecVal(0, 16))
                out.append(a)
        else:
            a, r = eng.branch(r, z3.And(z3.UGE(c, 48), z3.ULE(c, 51)))
            if a is not None:
                a.ghost['m.mode'] = ('num', 2, 3, z3.ZeroExt(8, c - 48))
                out.append(a)
        for k, v in sorted(tab.items()):
            if r is None:
                return out
            a, r = eng.branch(r, c == ord(k))
            if a is not None:
                out += self.byte(eng, a, v, 'the escape stands for the byte of the string at its place')
        if r is not None:
            eng.fail(r, 'backslash is followed by a defined escape', 'post')
        return out

    def in_num(self, eng, st, c, left, bits, acc):
        c = bv(c, 8)
        if bits == 4:
            eng.prove(st, libc.is_xdigit(c), 'four hexadecimal digits after \\u', 'post')
            v = libc.hexval(c)
        else:
            eng.prove(st, z3.And(z3.UGE(c, 48), z3.ULE(c, 55)), 'three octal digits after the backslash', 'post')
            v = c - 48
        if z3.is_bv(v) and v.size() != 16:
            v = z3.ZeroExt(16 - v.size(), v)
        acc = z3.simplify((acc << bits) | v)
        if left > 1:
            st.ghost['m.mode'] = ('num', left - 1, bits, acc)
            return [st]
        eng.prove(st, z3.ULT(acc, 128 if bits == 4 else 256), 'the escape denotes a single byte', 'post')
        return self.byte(eng, st, z3.Extract(7, 0, acc), 'the escape stands for the byte of the string at its place')

    # -- structure
    def value_done(self, eng, st, kind):
        st.ghost['m.out'] = st.ghost['m.out'] + (kind,)
        stk = st.ghost['m.stk']
        top = stk[-1] if stk else None
        was = st.ghost.get('m.role', 'v')
        if top is None:
            st.ghost['m.mode'] = 'top'
        elif was == 'k':
            st.ghost['m.mode'] = 'colon'
        else:
            st.ghost['m.mode'] = 'S'
        st.ghost['m.sp'] = False
        return [st]

    def struct(self, eng, st, c):
        m = st.ghost['m.mode']
        stk = st.ghost['m.stk']
        if isinstance(m, tuple) and m[0] == 'lit':
            want, i = m[1], m[2]
            if c != want[i]:
                return self.bad(eng, st, 'a bare word is one of the defined ones')
            if i + 1 == len(want):
                return self.value_done(eng, st, want.decode())
            st.ghost['m.mode'] = ('lit', want, i + 1)
            return [st]
        if m == 'word':     # S-expression bare word, ended by a delimiter or by the end of the call
            pass
        if c in WS:
            st.ghost['m.sp'] = True
            return [st]
        if self.sexp:
            return self.struct_sexp(eng, st, c, m, stk)
        if m == 'S':
            if c == ord(','):
                st.ghost['m.mode'] = 'K' if stk[-1] == '{' else 'V'
                return [st]
            return self.close(eng, st, c, stk)
        if m == 'colon':
            if c != ord(':'):
                return self.bad(eng, st, 'a key is followed by a colon')
            st.ghost['m.mode'] = 'V'
            st.ghost['m.role'] = 'v'
            return [st]
        if m == 'E' and c in b']}':
            return self.close(eng, st, c, stk)
        if m == 'K' or (m == 'E' and stk[-1] == '{'):
            if c != ord('"'):
                return self.bad(eng, st, 'a map key is a string')
            st.ghost['m.mode'] = 'str'
            st.ghost['m.role'] = 'k'
            return [st]
        if m in ('V', 'E', 'top'):
            st.ghost['m.role'] = 'v'
            if c == ord('"'):
                st.ghost['m.mode'] = 'str'
                return [st]
            if c in b'{[':
                st.ghost['m.stk'] = stk + (chr(c),)
                st.ghost['m.mode'] = 'E'
                st.ghost['m.out'] = st.ghost['m.out'] + (chr(c),)
                return [st]
            for w in (b'true', b'false', b'null'):
                if c == w[0]:
                    st.ghost['m.mode'] = ('lit', w, 1)
                    return [st]
        return self.bad(eng, st, 'unexpected character %r where %s is due' % (chr(c), m))

    def close(self, eng, st, c, stk):
        if c not in b']})' or not stk:
            return self.bad(eng, st, 'values are separated by a comma')
        want = {'[': ']', '{': '}', '(': ')'}[stk[-1]]
        if chr(c) != want:
            return self.bad(eng, st, 'the closing bracket matches the open one')
        stk = stk[:-1]
        st.ghost['m.stk'] = stk
        st.ghost['m.out'] = st.ghost['m.out'] + (chr(c),)
        st.ghost['m.mode'] = 'S' if stk else 'top'
        st.ghost['m.sp'] = False
        return [st]

    def struct_sexp(self, eng, st, c, m, stk):
        # S: an element was just completed: a blank must come before the next one
        if c == ord(')'):
            return self.close(eng, st, c, stk)
        if m == 'S' and not st.ghost['m.sp']:
            return self.bad(eng, st, 'elements are separated by white space')
        st.ghost['m.role'] = 'v'
        if c == ord('('):
            st.ghost['m.stk'] = stk + ('(',)
            st.ghost['m.mode'] = 'E'
            st.ghost['m.out'] = st.ghost['m.out'] + ('(',)
            st.ghost['m.sp'] = False
            return [st]
        if c == ord('"'):
            st.ghost['m.mode'] = 'str'
            return [st]
        if c == ord(':'):
            st.ghost['m.mode'] = ('kw',)
            return [st]
        for w in (b'nil', b't'):
            if c == w[0]:
                st.ghost['m.mode'] = ('lit', w, 1)
                return [st] if len(w) > 1 else self.value_done(eng, st, w.decode())
        return self.bad(eng, st, 'unexpected character %r' % chr(c))

    def in_kw(self, eng, st, c):
        return self.bad(eng, st, 'keyword written as a whole')

    def span(self, eng, st, arr, off, n):
        m = st.ghost['m.mode']
        if not (isinstance(m, tuple) and m[0] == 'kw'):
            return self.bad(eng, st, 'text of unknown content only inside a keyword')
        ea, en = self.expect
        eng.prove(st, z3.And(z3.BoolVal(arr.eq(ea)), off == 0, n == en), 'the keyword is the key given', 'post')
        eng.read_arr(st, arr, self.k0)
        c = z3.Select(arr, self.k0)
        eng.prove(st, z3.Implies(z3.ULT(self.k0, n), z3.Or(libc.is_alpha(c), libc.is_digit(c), c == ord('-'), c == ord('_'))),
                  'every character of a keyword is a symbol character', 'post')
        return self.value_done(eng, st, 'key')

    def integer(self, eng, st, v, w, signed):
        m = st.ghost['m.mode']
        if m not in ('V', 'E', 'top', 'S') or (m == 'S' and not (self.sexp and st.ghost['m.sp'])) or (m == 'E' and st.ghost['m.stk'][-1] == '{'):
            return self.bad(eng, st, 'an integer where a value is due')
        x = bv(v, w)
        if w < 64:
            x = (z3.SignExt if signed else z3.ZeroExt)(64 - w, x)
        c = x == self.ival
        if not signed:
            c = z3.And(c, x >= 0)
        eng.prove(st, c, 'the integer printed is the one given', 'post')
        st.ghost['m.role'] = 'v'
        return self.value_done(eng, st, 'int')


CONTEXTS = ['top', 'list-first', 'list-next', 'map-value', 'map-value-next', 'map-key-first', 'map-key-next']


class Rig:
    """A printer created by the real constructor, put into an arbitrary state that satisfies the invariant."""

    def __init__(self, ctx, sexp):
        self.ctx = ctx
        self.sexp = sexp
        self.e = e = ctx.engine()
        self.mon = Mon(ctx, e, sexp)
        self.mon.install(e)
        e.ghost_havoc['m.pos'] = lambda eng, st, old: eng.fresh('pos', 64)
        st = State()
        nm = 'sprinter_sexp' if sexp else 'sprinter_json'
        db = e.alloc(st, 'opaque', 0, None, 'db')
        self.stream = e.alloc(st, 'opaque', 0, None, 'stream')
        self.mon.stream = self.stream
        outs = e.call(st, ctx.fn(nm + '_create'), [db, self.stream])
        assert len(outs) == 1
        self.st, _, self.sp = outs[0]
        P = ctx.prog
        self.f = {k: v[0] for k, v in P.fields(nm).items()}
        self.vt = {k: v[0] for k, v in P.fields('sprinter').items()}
        sn = 'sexp_state' if sexp else 'json_state'
        self.sf = {k: v[0] for k, v in P.fields(sn).items()}
        self.ssize = P.struct_size(sn)

    def frame(self, st, kind, first, parent):
        d = {self.sf['parent']: (8, parent), self.sf['first']: (1, first)}
        if 'close' in self.sf:
            d[self.sf['close']] = (1, ord({'[': ']', '{': '}'}[kind]))
        return self.e.alloc(st, 'cells', self.ssize, d, 'frame')

    def setcell(self, st, p, off, size, v):
        ob = self.e.obj(st, p.o)
        d = dict(ob.data)
        d[off] = (size, v)
        st.mem[p.o] = ob.copy(data=d)

    def cell(self, st, p, off):
        return self.e.obj(st, p.o).data[off][1]

    def put(self, c, deep=False):
        """State in context c.  deep: the frame's parent is another frame (its kind varies)."""
        e = self.e
        st = self.st.fork()
        sep = e.fresh('insert_separator', 1)
        self.setcell(st, self.sp, self.f['insert_separator'], 1, z3.If(sep, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
        b = '(' if self.sexp else None
        stk = ()
        par = NULL
        if deep:
            par = self.frame(st, deep, 0, NULL)
            stk = (b or deep,)
        if c == 'top':
            self.setcell(st, self.sp, self.f['state'], 8, NULL)
            self.mon.start(e, st, 'top', ())
            self.frames = ()
            return st
        kind = '[' if c.startswith('list') else '{'
        first = c in ('list-first', 'map-value', 'map-value-next', 'map-key-first')
        if self.sexp:
            first = c in ('list-first', 'map-key-first')
        fr = self.frame(st, kind, 1 if first else 0, par)
        self.setcell(st, self.sp, self.f['state'], 8, fr)
        stk = stk + (b or kind,)
        if self.sexp:
            mode = 'E' if first else 'S'
        else:
            mode = {'list-first': 'E', 'list-next': 'S', 'map-value': 'V', 'map-value-next': 'V', 'map-key-first': 'E',
                    'map-key-next': 'S'}[c]
        self.mon.start(e, st, mode, stk)
        return st

    def method(self, st, name):
        v = self.cell(st, self.sp, self.vt[name])
        assert isinstance(v, FPtr), 'vtable entry %s' % name
        return v.name

    def frames_of(self, st):
        out = []
        p = self.cell(st, self.sp, self.f['state'])
        while p.o != 0 and len(out) < 6:
            out.append(p)
            p = self.cell(st, p, self.sf['parent'])
        return out

    def check(self, s, before, what, depth, first, mode=None):
        """The representation invariant between the printer's stack and the parser's."""
        e = self.e
        fs = self.frames_of(s)
        stk = s.ghost['m.stk']
        e.prove(s, z3.BoolVal(len(fs) == depth and len(stk) == depth), 'nesting depth after ' + what, 'invariant')
        modes = mode or (('top',) if depth == 0 else ('S',))
        e.prove(s, z3.BoolVal(s.ghost['m.mode'] in modes), 'output is complete after ' + what, 'invariant',
                note='mode %r' % (s.ghost['m.mode'],))
        for i, f in enumerate(fs):
            e.prove(s, z3.BoolVal(e.obj(s, f.o).live), 'frame %d is live' % i, 'invariant')
            if not self.sexp and i < len(stk):
                close = {'[': ']', '{': '}'}[stk[-1 - i]]
                e.prove(s, bv(self.cell(s, f, self.sf['close']), 8) == ord(close), 'closing character of frame %d' % i, 'invariant')
            fv = self.cell(s, f, self.sf['first'])
            want = first if i == 0 else False
            e.prove(s, (bv(fv, 8) & 1) == (1 if want else 0), 'separator flag of frame %d' % i, 'invariant')


def run_value(ctx, sexp, method, mk):
    """Every context in which a value may be printed."""
    n = 0
    for c in CONTEXTS:
        if c.startswith('map-key'):
            continue
        for deep in (False, '[' if c.startswith('map') else '{') if c != 'top' else (False,):
            r = Rig(ctx, sexp)
            e = r.e
            st = r.put(c, deep)
            args, kinds = mk(r, st)
            d0 = len(r.frames_of(st))
            outs = e.call(st, r.method(st, method), [r.sp] + args)
            for s, k, v in outs:
                if k != 'ret':
                    e.fail(s, 'printer returns', 'post')
                    continue
                n += 1
                ks = s.ghost['m.out']
                e.prove(s, z3.BoolVal(len(ks) == 1 and ks[0] in kinds(s)), '%s prints exactly one value of its kind' % method, 'post',
                        note='%r' % (ks,))
                if ks and ks[-1] in ('{', '[', '('):
                    r.check(s, c, method, d0 + 1, True, ('E',))
                else:
                    r.check(s, c, method, d0, False)
    ctx.cover_any('%s returns' % method, n)


def hold_string(r, st, e):
    p, arr, n = libc.mk_cstr(e, st, 'val')
    setup_string(r, e, arr, n)
    return p, arr, n


def setup_string(r, e, arr, n):
    r.mon.expect = (arr, n)
    r.mon.k0 = k0 = z3.BitVec('k0', 64)

    def templ(entry):
        out = []
        run = entry.runner
        for x in run.ivars:
            ex = entry.int(x)
            if ex is None:
                continue
            for nm, sg in (('-', 1), ('+', -1)):
                d = conc(entry.ghosts['m.pos'] - ex * sg)
                out.append(('decoded%s%s const' % (nm, x), lambda v, x=x, d=d, sg=sg: None if v.int(x) is None else
                            v.ghosts['m.pos'] - v.int(x) * sg == bv(d)))
            out.append(('%s <= length' % (x,), lambda v, x=x: None if v.int(x) is None else z3.ULE(v.int(x), n)))
            if r.sexp:
                out.append(('%s: symbol characters so far' % (x,), lambda v, x=x: None if v.int(x) is None else z3.Implies(
                    z3.ULT(k0, v.int(x)), symchar(z3.Select(arr, k0)))))
        out.append(('decoded <= length', lambda v: z3.ULE(v.ghosts['m.pos'], n)))
        return out
    e.loop_templates.append(templ)


def symchar(c):
    return z3.Or(libc.is_alpha(c), libc.is_digit(c), c == ord('-'), c == ord('_'))


def u_string(ctx, sexp):
    def mk(r, st):
        p, arr, n = hold_string(r, st, r.e)
        if r.ctx.bounded:
            r.e.assume(st, z3.ULE(n, 2))
        return [p], lambda s: ('string',)
    run_value(ctx, sexp, 'string', mk)


def u_string_null(ctx, sexp):
    def mk(r, st):
        a = r.e.fresh_arr('none')
        setup_string(r, r.e, a, z3.BitVecVal(0, 64))
        return [NULL], lambda s: ('string',)
    run_value(ctx, sexp, 'string', mk)


def u_string_len(ctx, sexp):
    def mk(r, st):
        e = r.e
        n = e.fresh('len', 64)
        e.assume(st, z3.ULE(n, z3.BitVecVal(1 << 32 if not r.ctx.bounded else 2, 64)))
        arr = e.fresh_arr('val')
        p = e.alloc(st, 'bytes', n, arr, 'val')
        setup_string(r, e, arr, n)
        return [p, n], lambda s: ('string',)
    run_value(ctx, sexp, 'string_len', mk)


def u_integer(ctx, sexp):
    def mk(r, st):
        r.mon.ival = r.e.fresh('int', 64)
        return [r.mon.ival], lambda s: ('int',)
    run_value(ctx, sexp, 'integer', mk)


def u_boolean(ctx, sexp):
    for val in (0, 1):
        def mk(r, st):
            w = (('nil', 't') if sexp else ('false', 'true'))[val]
            return [val], lambda s: (w,)
        run_value(ctx, sexp, 'boolean', mk)


def u_null(ctx, sexp):
    run_value(ctx, sexp, 'null', lambda r, st: ([], lambda s: ('nil',) if sexp else ('null',)))


def u_begin(ctx, sexp):
    run_value(ctx, sexp, 'begin_map', lambda r, st: ([], lambda s: ('(',) if sexp else ('{',)))
    run_value(ctx, sexp, 'begin_list', lambda r, st: ([], lambda s: ('(',) if sexp else ('[',)))


def u_key(ctx, sexp):
    n = 0
    for c in ('map-key-first', 'map-key-next'):
        for deep in (False, '[', '{'):
            r = Rig(ctx, sexp)
            e = r.e
            if sexp:
                # the documented check of the key: an invalid one stops the program instead of printing garbage; a
                # key made of symbol characters must be printed
                def stop(eng, s, a, ins):
                    return [(s, 'halt', 1)]
                e.contracts['_internal_error'] = stop
            st = r.put(c, deep)
            p, arr, ln = hold_string(r, st, e)
            e.assume(st, z3.ULT(ln, 2 if ctx.bounded else 1 << 31))
            d0 = len(r.frames_of(st))
            for s, k, v in e.call(st, r.method(st, 'map_key'), [r.sp, p]):
                if k == 'halt' and sexp:
                    continue
                if k != 'ret':
                    e.fail(s, 'printer returns', 'post')
                    continue
                n += 1
                ks = s.ghost['m.out']
                e.prove(s, z3.BoolVal(ks == (('key',) if sexp else ('string',))), 'map_key prints exactly one key', 'post', note=repr(ks))
                if sexp:
                    r.check(s, c, 'map_key', d0, False)
                else:
                    r.check(s, c, 'map_key', d0, True, ('V',))
    ctx.cover_any('map_key returns', n)


def u_key_valid(ctx, sexp):
    r = Rig(ctx, sexp)
    e = r.e

    def stop(eng, s, a, ins):
        eng.fail(s, 'a key of symbol characters is printed', 'post')
        return []
    e.contracts['_internal_error'] = stop
    st = r.put('map-key-first')
    p, arr, n = hold_string(r, st, e)
    e.assume(st, z3.ULT(n, 2 if ctx.bounded else 1 << 31))
    e.add_rax(st, arr, lambda s, j: z3.Implies(z3.ULT(j, n), symchar(z3.Select(arr, j))))
    k = 0
    for s, kind, v in e.call(st, r.method(st, 'map_key'), [r.sp, p]):
        e.prove(s, z3.BoolVal(kind == 'ret'), 'a key of symbol characters is printed', 'post')
        k += 1
    ctx.cover_any('map_key returns', k)


def u_end(ctx, sexp):
    n = 0
    for c in ('list-first', 'list-next', 'map-key-first', 'map-key-next'):
        for deep in (False, '[', '{'):
            r = Rig(ctx, sexp)
            e = r.e
            st = r.put(c, deep)
            fs = r.frames_of(st)
            for s, k, v in e.call(st, r.method(st, 'end'), [r.sp]):
                if k != 'ret':
                    e.fail(s, 'printer returns', 'post')
                    continue
                n += 1
                e.prove(s, z3.BoolVal(len(s.ghost['m.out']) == 1), 'end prints exactly one closing bracket', 'post')
                r.check(s, c, 'end', len(fs) - 1, False)
                now = r.frames_of(s)
                e.prove(s, z3.BoolVal([x.o for x in now] == [x.o for x in fs[1:]]), 'the enclosing frame is current again', 'post')
    ctx.cover_any('end returns', n)


def u_quiet(ctx, sexp):
    """separator and set_prefix print nothing and leave the structure alone."""
    for c in CONTEXTS:
        for m in ('separator', 'set_prefix'):
            r = Rig(ctx, sexp)
            e = r.e
            st = r.put(c, False)
            g = dict(st.ghost)
            fs = r.frames_of(st)
            first = bv(r.cell(st, fs[0], r.sf['first']), 8) if fs else None
            args = [] if m == 'separator' else [libc.mk_cstr(e, st, 'p')[0]]
            for s, k, v in e.call(st, r.method(st, m), [r.sp] + args):
                e.prove(s, z3.BoolVal(s.ghost['m.out'] == () and s.ghost['m.mode'] == g['m.mode']), m + ' leaves the syntax alone', 'post')
                now = r.frames_of(s)
                e.prove(s, z3.BoolVal([x.o for x in now] == [x.o for x in fs]), m + ' keeps the stack', 'post')
                if fs:
                    e.prove(s, bv(r.cell(s, now[0], r.sf['first']), 8) == first, m + ' keeps the separator flag', 'post')


def units(prog):
    out = []
    for sexp in (False, True):
        t = 'sexp' if sexp else 'json'
        src = 'sprinter-%s.c' % t
        for nm, f, c in (
                ('string', u_string, 'any C string: one string token that decodes to exactly its bytes; no raw control characters; separators correct in every context'),
                ('string(NULL)', u_string_null, 'NULL prints the empty string'),
                ('string_len', u_string_len, 'any byte range, NULs included: as string'),
                ('integer', u_integer, 'any 64-bit value: its decimal numeral'),
                ('boolean', u_boolean, 'the defined word'), ('null', u_null, 'the defined word'),
                ('begin_map/begin_list', u_begin, 'opens one bracket, pushes a frame that closes it'),
                ('map_key', u_key, 'any key: one key token; a value is due next'),
                ('end', u_end, 'closes the innermost bracket with the matching character and pops it'),
                ('separator/set_prefix', u_quiet, 'no effect on the syntax')):
            out.append(Unit('%s: %s' % (t, nm), lambda c_, f=f, sexp=sexp: f(c_, sexp), ['%s_%s' % (t, nm.split('/')[0].split('(')[0])],
                            [src], contract=c))
    out.append(Unit('sexp: map_key(valid)', lambda c: u_key_valid(c, True), ['sexp_map_key', 'sexp_keyword'],
                    contract='a key made of letters, digits, - and _ is never rejected'))
    return out


CODE = r'''
#include "sprinter.h"
static void handle (const char *op, int n, char **a, size_t *l)
{
    char *buf = NULL; size_t len = 0; FILE *f = open_memstream (&buf, &len);
    void *ctx = talloc_new (NULL);
    struct sprinter *sp = op[0] == 'j' ? sprinter_json_create (ctx, f) : sprinter_sexp_create (ctx, f);
    for (int i = 0; i < n; i++) {
	switch (a[i][0]) {
	case '{': sp->begin_map (sp); break;
	case '[': sp->begin_list (sp); break;
	case 'E': sp->end (sp); break;
	case 'S': i++; sp->string (sp, a[i]); break;
	case 'L': i++; sp->string_len (sp, a[i], l[i]); break;
	case 'I': i++; sp->integer (sp, atoll (a[i])); break;
	case 'T': sp->boolean (sp, true); break;
	case 'F': sp->boolean (sp, false); break;
	case 'N': sp->null (sp); break;
	case 'K': i++; sp->map_key (sp, a[i]); break;
	case '|': sp->separator (sp); break;
	}
    }
    fclose (f);
    put (buf, len);
    free (buf);
    talloc_free (ctx);
}
'''


class Bad(Exception):
    pass


def parse_sexp(t):
    pos = 0

    def ws():
        nonlocal pos
        while pos < len(t) and t[pos] in b' \n\t\r':
            pos += 1

    def val():
        nonlocal pos
        ws()
        c = t[pos:pos + 1]
        if c == b'(':
            pos += 1
            out = []
            while True:
                p0 = pos
                ws()
                if t[pos:pos + 1] == b')':
                    pos += 1
                    return out
                if out and p0 == pos:
                    raise Bad('no space')
                out.append(val())
        if c == b'"':
            pos += 1
            o = b''
            while True:
                c = t[pos:pos + 1]
                if not c or c < b' ':
                    raise Bad('string')
                pos += 1
                if c == b'"':
                    return ('s', o)
                if c == b'\\':
                    c = t[pos:pos + 1]
                    if c in (b'"', b'\\'):
                        o += c
                        pos += 1
                    elif c == b'n':
                        o += b'\n'
                        pos += 1
                    else:
                        o += bytes([int(t[pos:pos + 3], 8)])
                        pos += 3
                else:
                    o += c
        p0 = pos
        while pos < len(t) and t[pos] not in b' \n()"':
            pos += 1
        if p0 == pos:
            raise Bad('empty')
        return t[p0:pos]
    v = val()
    ws()
    if pos != len(t):
        raise Bad('trailing')
    return v


def gen(rng, depth, strs, keys):
    k = rng.choice('SSLITFN[{' if depth else '[{')
    if k == 'S':
        s = rng.choice(strs).replace(b'\0', b'')
        return ['S', s], s
    if k == 'L':
        s = rng.choice(strs)
        return ['L', s], s
    if k == 'I':
        v = rng.choice([0, -1, 1, 2**31, -2**31 - 1, 2**63 - 1, -2**63, rng.randrange(10**6)])
        return ['I', v], v
    if k in 'TFN':
        return [k], {'T': True, 'F': False, 'N': None}[k]
    ops = [k]
    n = rng.randrange(0, 4) if depth < 4 else 0
    if k == '[':
        out = []
        for _ in range(n):
            o, v = gen(rng, depth + 1, strs, keys)
            if rng.random() < 0.3:
                ops.append('|')
            ops += o
            out.append(v)
    else:
        out = {}
        for i in range(n):
            o, v = gen(rng, depth + 1, strs, keys)
            key = rng.choice(keys)
            if key in out:
                continue
            ops += ['K', key] + o
            out[key] = v
    return ops + ['E'], out


def flat(v):
    if isinstance(v, bool):
        return b't' if v else b'nil'
    if v is None:
        return b'nil'
    if isinstance(v, int):
        return b'%d' % v
    if isinstance(v, bytes):
        return ('s', v)
    if isinstance(v, list):
        return [flat(x) for x in v]
    o = []
    for k, x in v.items():
        o += [b':' + k, flat(x)]
    return o


def uni(v):
    if isinstance(v, bytes):
        return v.decode('latin-1')
    if isinstance(v, list):
        return [uni(x) for x in v]
    if isinstance(v, dict):
        return {uni(k): uni(x) for k, x in v.items()}
    return v


def same_typed(a, b):
    return repr(a) == repr(b)


def witness(prog, failing, tier, seed):
    import json
    import random
    from native import Harness, jb
    rng = random.Random(seed)
    strs = [bytes([b]) for b in range(256)] + [b'', b'"\\"', b'a\nb', b'\x01f', b'\x1f0', b'\x7f\x80', b'\0\0z']
    strs += [bytes(rng.randrange(256) for _ in range(rng.randrange(1, 9))) for _ in range(300)]
    cases = []
    want = []
    for b in strs:
        for t in 'js':
            cases.append([t, '[', 'L', b, 'E'])
            want.append([b])
    jkeys = [b''] + [x.replace(b'\0', b'') for x in strs]
    skeys = [b'k%d' % i for i in range(9)] + [b'-', b'_', b'AZ-09_az', b'9']
    for i in range(3000):
        t = 'js'[i % 2]
        ops, v = gen(rng, 0, strs, jkeys + [b''] * 60 if t == 'j' else skeys)
        if True:
            cases.append([t] + ops)
            want.append(v)
    cases = [c for c in zip(cases, want) if len(c[0]) < 60]
    want = [c[1] for c in cases]
    cases = [c[0] for c in cases]
    with Harness(CODE, SOURCES + ['util/error_util.c'], ['talloc', 'gmime-3.0']) as h:
        got = h.run(cases)
    for c, w, g in zip(cases, want, got):
        ok = len(g) == 1 and isinstance(g[0], bytes)
        why = 'crash'
        if ok:
            try:
                if c[0] == 'j':
                    ok = same_typed(json.loads(g[0].decode('latin-1'), strict=True), uni(w))
                else:
                    ok = parse_sexp(g[0]) == flat(w)
                why = 'decodes to another value'
            except (Bad, ValueError, IndexError) as x:
                ok = False
                why = 'malformed: %s' % x
        if not ok:
            return {'printer': 'json' if c[0] == 'j' else 'sexp', 'operations': [jb(x) if isinstance(x, bytes) else x for x in c[1:]],
                    'output': [jb(x) if isinstance(x, bytes) else x for x in g], 'why': why}
    return None

"""C10: the tag command applies exactly the requested changes, in order, to every matching message."""
import z3
import cli
import strs
import libc
from sym import Ptr, NULL, State, Unsupported, Undef, Obj, bv, conc
from framework import Unit
from libc import guard, format_parts, fmt_of
from strs import astr, eq, lit, cat, new_str, new_sym_str, sym, is_lit, lit_val
from tags import Ops, Message, G, optag, opremove, ZB, B64
from xap import Struct

TITLE = 'The tag command makes exactly the requested changes to all matching messages'
SOURCES = ['tag-util.c', 'notmuch-tag.c', 'query-string.c', 'util/string-util.c']
ASSUMPTIONS = ['libnotmuch message and tag functions behave as proved in C11', 'fewer than 2^30 tag operations']


def flag(e, n):
    v = e.prog.enum('TAG_FLAG_' + n)
    if v is None:
        raise Unsupported('enum TAG_FLAG_' + n)
    return v


def has(flags, f):
    return (flags & f) != 0


def engine(ctx):
    e = ctx.engine()
    e.max_sym_iters = 0
    return e


# ---- tag_op_list_apply ---------------------------------------------------------------------------------------------
def u_apply(ctx):
    e = engine(ctx)
    st = State()
    m = Message(e, st)
    ops = Ops(e, st, m.T)
    e.max_rounds = 1
    flags = e.fresh('flags', 32)
    all_ = has(flags, flag(e, 'REMOVE_ALL'))
    base = z3.And(m.doc0, z3.Not(all_))
    target = ops.fin(base, z3.BitVecVal(0, 64))
    e.assume(st, z3.ULT(flags, 16))
    seen = set()

    def templ(entry):
        out = [('seen tags stay', lambda v: z3.Implies(z3.And(v.ghosts.get('it.seen', z3.BoolVal(False)), ZB(True)), target)),
               ('unchanged', lambda v: z3.And(v.ghosts['doc'] == m.doc0, v.ghosts['dbh'] == m.db0, v.ghosts['frozen'] == m.frozen0, z3.Not(v.ghosts['wrote']))),
               ('stored state', lambda v: z3.Implies(m.frozen0 == 0, v.ghosts['dbh'] == m.db0)),
               ('not bad', lambda v: z3.And(z3.Not(v.ghosts['bad']), z3.Not(v.ghosts['mdsync']))),
               ('listed', lambda v: v.ghosts['it.list'] == m.doc0 if 'it.list' in v.ghosts else z3.BoolVal(True)),
               ('seen is listed', lambda v: z3.Implies(v.ghosts['it.seen'], v.ghosts['it.list']) if 'it.seen' in v.ghosts else z3.BoolVal(True)),
               ('frozen', lambda v: v.ghosts['frozen'] == m.frozen0 + 1)]
        for k in [k for k in entry.vals if k[0] in ('phi', 'cell')]:
            def T1(v, k=k):
                x = v.int(k)
                return None if x is None else z3.Implies(z3.ULE(x, ops.n), ops.fin(v.ghosts['doc'], x) == target)

            def T2(v, k=k):
                x = v.int(k)
                cur = v.ghosts.get('it.cur')
                if x is None:
                    return None
                if not isinstance(cur, Ptr):
                    return z3.BoolVal(True)
                h = m.hit(e, v.st, cur)
                return z3.Implies(z3.And(h, z3.ULE(x, ops.n)), G(x) == 0)

            def T3(v, k=k):
                x = v.int(k)
                return None if x is None else z3.Implies(z3.And(z3.ULE(x, ops.n), G(z3.BitVecVal(0, 64)) == 1), z3.Or(m.doc0, G(x) == 1))

            def T4(v, k=k):
                x = v.int(k)
                return None if x is None else z3.ULE(x, ops.n)
            def T5(v, k=k):
                x = v.int(k)
                return None if x is None or 'it.seen' not in v.ghosts else z3.Implies(v.ghosts['it.seen'], z3.Or(target, z3.Extract(0, 0, x) == 1))
            out += [('seen tags stay or %s' % (k,), T5), ('applied so far %s' % (k,), T1), ('later operations leave the tag %s' % (k,), T2), ('adds seen exist %s' % (k,), T3), ('in range %s' % (k,), T4)]
        return out
    e.loop_templates.append(templ)
    for s, kind, v in e.call(st, ctx.fn('tag_op_list_apply'), [m.msg, ops.list, flags]):
        if kind == 'halt':
            continue
        if kind != 'ret':
            e.fail(s, 'tag_op_list_apply returns', 'post')
            continue
        v = bv(v, 32)
        g = s.ghost
        good, bad = e.branch(s, v == 0)
        if good is not None:
            g = good.ghost
            seen.add('ok')
            e.prove(good, z3.Not(g['bad']), 'success is reported only when nothing failed', 'post')
            e.prove(good, g['doc'] == target, 'the message has exactly the tags the operations leave, the last operation on a tag deciding', 'post')
            e.prove(good, z3.Implies(m.frozen0 == 0, g['dbh'] == target), 'the tags are stored', 'post')
            e.prove(good, g['frozen'] == m.frozen0, 'every freeze is matched by a thaw', 'post')
            e.prove(good, z3.Implies(g['mdsync'], has(flags, flag(e, 'MAILDIR_SYNC'))), 'flags are synchronised only when asked', 'post')
            if not isinstance(g.get('md.doc'), type(None)):
                e.prove(good, z3.Implies(g['mdsync'], z3.And(g['md.doc'] == target, g['md.frozen'] == m.frozen0)), 'flags are synchronised from the final tags', 'post')
            e.prove(good, z3.Implies(z3.And(has(flags, flag(e, 'MAILDIR_SYNC')), z3.Or(g['wrote'], has(flags, flag(e, 'PRE_OPTIMIZED')))), g['mdsync']), 'changed tags are synchronised when asked', 'post')
        if bad is not None:
            g = bad.ghost
            seen.add('bad')
            e.prove(bad, g['bad'], 'failure is reported only when a library call failed', 'post')
            e.prove(bad, z3.Implies(m.frozen0 == 0, z3.Or(g['dbh'] == m.db0, z3.And(g['mdbad'], g['dbh'] == target))), 'a failure stores none of the changes, or all of them when only the flag synchronisation failed', 'post')
    ctx.cover_any('success', 'ok' in seen)
    ctx.cover_any('failure', 'bad' in seen)


def u_append(ctx):
    e = engine(ctx)
    e.inject_oom = True
    cli.stdio(e)
    st = State()
    ops = Ops(e, st, stores=True)
    st.ghost['ops.cap'] = ops.size
    st.ghost['oom'] = z3.BoolVal(False)
    tag = new_sym_str(e, st, 'tag')
    rem = e.fresh('remove', 1)
    seen = set()

    @guard
    def realloc(en, s, a, ins):
        en.prove(s, z3.BoolVal(a[1].o == ops.arr.o), 'the array of the list is grown', 'memory')
        b = s.fork()
        b.ghost['oom'] = z3.BoolVal(True)
        n = z3.ZeroExt(64 - bv(a[3], 32).size(), bv(a[3], 32)) if not isinstance(a[3], int) else z3.BitVecVal(a[3], 64)
        if conc(a[2]) != 16:
            raise Unsupported('element size')
        s.ghost['ops.cap'] = n
        return [(b, NULL), (s, ops.arr)]
    e.contracts['_talloc_realloc_array'] = realloc
    for s, kind, v in e.call(st, ctx.fn('tag_op_list_append'), [ops.list, tag, rem]):
        if kind != 'ret':
            if kind != 'halt':
                e.fail(s, 'tag_op_list_append returns', 'post')
            continue
        good, bad = e.branch(s, bv(v, 32) == 0)
        n1 = lambda x: bv(ops.S.get(x, ops.list, 'count', ('i', 64)), 64)
        if good is not None:
            seen.add('ok')
            g = good.ghost
            e.prove(good, n1(good) == ops.n + 1, 'the list grows by one operation', 'post')
            e.prove(good, z3.And(bv(ops.S.get(good, ops.list, 'size', ('i', 64)), 64) == bv(g['ops.cap'], 64), z3.UGE(g['ops.cap'], ops.n + 1)), 'the recorded capacity is the real one', 'post')
            t, r = g.get('ops.tag'), g.get('ops.rem')
            if t is None or r is None:
                e.fail(good, 'the operation is recorded', 'post')
                continue
            e.prove(good, z3.And(t[0] == ops.n, z3.BoolVal(isinstance(t[1], Ptr) and t[1].o == tag.o and conc(t[1].off) == 0)), 'the tag is recorded at the end of the list', 'post')
            e.prove(good, z3.And(r[0] == ops.n, cli.truth(r[1]) == (rem if isinstance(rem, z3.BoolRef) else rem == 1)), 'the kind of change is recorded', 'post')
            p = ops.S.get(good, ops.list, 'ops', ('ptr',))
            e.prove(good, z3.BoolVal(p.o == ops.arr.o), 'the list keeps its operations', 'post')
        if bad is not None:
            seen.add('oom')
            e.prove(bad, bad.ghost['oom'], 'append fails only when memory runs out', 'post')
            e.prove(bad, n1(bad) == ops.n, 'a failed append adds nothing', 'post')
    ctx.cover_any('success', 'ok' in seen)
    ctx.cover_any('out of memory', 'oom' in seen)


argstr = z3.Function('argstr', B64, z3.IntSort())


class Argv:
    """An argument vector: the i-th element is an arbitrary string (identified by argstr(i))."""

    def __init__(self, e, st):
        self.argc = e.fresh('argc', 32)
        e.assume(st, z3.And(self.argc >= 0, self.argc < (1 << 28)))
        me = self

        def lazy(eng, s, p, rt):
            off = bv(p.off if isinstance(p, Ptr) else p)
            i = me.index(eng, s, off)
            eng.prove(s, z3.ULT(i, z3.ZeroExt(32, me.argc)), 'an argument within the vector is read', 'memory')
            return new_str(eng, s, sym(argstr(i)), 'argv')
        i = e.newid()
        st.mem[i] = Obj('lazy', None, None, 'argv', lazy=lazy, meta={'type': 'argv'})
        self.p = Ptr(i, 0)

    def index(self, eng, s, off):
        off = z3.simplify(bv(off))
        i = z3.simplify(z3.LShR(off, 3))
        r, _ = eng._check(s.pc + [z3.Extract(2, 0, off) != 0])
        if r != z3.unsat:
            raise Unsupported('misaligned argument access')
        todo = [off]
        while todo:
            t = todo.pop()
            if t.sort() == B64 and not t.eq(off) and not z3.is_bv_value(t):
                r, _ = eng._check(s.pc + [t != i])
                if r == z3.unsat:
                    return t
            todo += t.children()
        return i


def z64(v, w=32):
    return z3.SignExt(64 - w, bv(v, w))


def u_query_args(ctx):
    """query_string_from_args: the arguments joined by single blanks; monitored append by append."""
    e = engine(ctx)
    e.inject_oom = True
    st = State()
    av = Argv(e, st)
    # k: arguments appended, sep: a separator follows the last one
    st.ghost.update({'k': z3.BitVecVal(0, 64), 'sep': z3.BoolVal(False), 'oom': z3.BoolVal(False), 'q': None})
    seen = set()

    def text(en, s, parts):
        """Parts appended: literals of blanks and whole arguments."""
        for p in parts:
            g = s.ghost
            if p[0] == 'lit':
                if p[1] != b' ':
                    en.fail(s, 'the arguments are joined by single blanks', 'post')
                    raise libc.PathDead()
                en.prove(s, z3.And(z3.UGT(g['k'], 0), z3.Not(g['sep'])), 'one blank separates two arguments', 'post')
                g['sep'] = z3.BoolVal(True)
            else:
                en.prove(s, z3.Or(g['k'] == 0, g['sep']), 'a blank precedes each further argument', 'post')
                en.prove(s, p[1] == argstr(g['k']), 'the arguments appear in order', 'post')
                g['k'] = g['k'] + 1
                g['sep'] = z3.BoolVal(False)

    def qobj(en, s):
        if s.ghost['q'] is None:
            s.ghost['q'] = cli.opaque(en, s, 'query')
        return s.ghost['q']

    def bad(s):
        b = s.fork()
        b.ghost['oom'] = z3.BoolVal(True)
        return (b, NULL)

    @guard
    def strdup(en, s, a, ins):
        b = bad(s)
        text(en, s, astr(en, s, a[1]))
        return [b, (s, qobj(en, s))]

    @guard
    def append(en, s, a, ins):
        if s.ghost['q'] is None or a[0].o != s.ghost['q'].o:
            raise Unsupported('append to another string')
        b = bad(s)
        text(en, s, astr(en, s, a[1]))
        return [b, (s, qobj(en, s))]

    @guard
    def printf(en, s, a, ins):
        b = bad(s)
        text(en, s, libc.format_str(en, s, fmt_of(en, s, a[1]), a[2:]))
        return [b, (s, qobj(en, s))]
    C = e.contracts
    C['talloc_strdup'] = strdup
    C['talloc_strdup_append'] = C['talloc_strdup_append_buffer'] = append
    C['talloc_asprintf'] = C['talloc_asprintf_append'] = C['talloc_asprintf_append_buffer'] = printf

    def templ(entry):
        out = [('no separator pending', lambda v: z3.Not(v.ghosts['sep'])), ('no oom', lambda v: z3.Not(v.ghosts['oom']))]
        for k in [k for k in entry.vals if k[0] in ('phi', 'cell')]:
            out.append(('arguments so far %s' % (k,), lambda v, k=k: None if v.int(k) is None else v.ghosts['k'] == v.int(k)))
            out.append(('within %s' % (k,), lambda v, k=k: None if v.int(k) is None else z3.And(v.int(k) >= 0, v.int(k) <= z64(av.argc))))
        return out
    e.loop_templates.append(templ)
    for s, kind, v in e.call(st, ctx.fn('query_string_from_args'), [NULL, av.argc, av.p]):
        if kind != 'ret':
            e.fail(s, 'query_string_from_args returns', 'post')
            continue
        if v.o == 0:
            e.prove(s, s.ghost['oom'], 'joining the arguments fails only when memory runs out', 'post')
            continue
        seen.add('ok')
        e.prove(s, z3.And(s.ghost['k'] == z64(av.argc), z3.Not(s.ghost['sep']), z3.Not(s.ghost['oom']), z3.BoolVal(v.o == s.ghost['q'].o)), 'the query is all the arguments joined by blanks', 'post')
    ctx.cover_any('joined', 'ok' in seen)


def first(e, st, x):
    return bv(strs.sym_char(e, st, x, 0), 8)


def second(e, st, x):
    return bv(strs.sym_char(e, st, x, 1), 8)


def u_cmdline(ctx):
    """parse_tag_command_line: operations are argv[0..c), the rest (after an optional --) is the query."""
    e = engine(ctx)
    e.inject_oom = True
    cli.stdio(e)
    st = State()
    av = Argv(e, st)
    n = z64(av.argc)
    q = e.alloc(st, 'cells', 8, {}, 'query_str')
    ops = Ops(e, st)
    st.ghost.update({'c': z3.BitVecVal(0, 64), 'oom': z3.BoolVal(False), 'asked': None})
    seen = set()
    DASH2 = strs.lit_id(b'--')

    def is_op(s, x):
        return z3.And(z3.Or(first(e, s, x) == ord('+'), first(e, s, x) == ord('-')), x != DASH2)

    def legal(s, x):
        return z3.Or(first(e, s, x) == ord('-'), z3.And(second(e, s, x) != 0, second(e, s, x) != ord('-')))

    @guard
    def append(en, s, a, ins):
        c = s.ghost['c']
        x = argstr(c)
        en.assume(s, z3.Implies(x == DASH2, z3.And(first(e, s, x) == 45, second(e, s, x) == 45)))
        en.prove(s, z3.BoolVal(a[0].o == ops.list.o), 'the operation is added to the list given', 'post')
        en.prove(s, c < n, 'an operation comes from an argument', 'post')
        ob = en.obj(s, a[1].o)
        if ob.kind != 'str' or conc(a[1].off) != 1 or len(ob.data) != 1 or ob.data[0][0] != 'sym':
            raise Unsupported('tag of unknown origin')
        en.prove(s, ob.data[0][1] == x, 'operations are taken from the arguments in order, none left out', 'post')
        en.prove(s, is_op(s, x), 'an operation starts with + or -', 'post')
        en.prove(s, legal(s, x), 'an illegal tag is never added', 'post')
        en.prove(s, cli.truth(a[2]) == (first(e, s, x) == ord('-')), '- removes and + adds', 'post')
        b = s.fork()
        b.ghost['oom'] = z3.BoolVal(True)
        s.ghost['c'] = c + 1
        return [(b, 1), (s, 0)]

    @guard
    def query(en, s, a, ins):
        if a[2].o != av.p.o:
            raise Unsupported('query from other arguments')
        s.ghost['asked'] = (av.index(en, s, bv(a[2].off)), z64(a[1]))
        b = s.fork()
        b.ghost['oom'] = z3.BoolVal(True)
        p = cli.opaque(en, s, 'query text')
        s.ghost['qp'] = p.o
        return [(b, NULL), (s, p)]
    e.contracts['tag_op_list_append'] = append
    e.contracts['query_string_from_args'] = query

    def templ(entry):
        out = [('no oom', lambda v: z3.Not(v.ghosts['oom']))]
        for k in [k for k in entry.vals if k[0] in ('phi', 'cell')]:
            out.append(('operations so far %s' % (k,), lambda v, k=k: None if v.int(k) is None else v.ghosts['c'] == v.int(k)))
            out.append(('within %s' % (k,), lambda v, k=k: None if v.int(k) is None else z3.And(v.int(k) >= 0, v.int(k) <= n)))
        return out
    e.loop_templates.append(templ)
    OK, INV, OOM = (e.prog.enum('TAG_PARSE_' + x) & 0xffffffff for x in ('SUCCESS', 'INVALID', 'OUT_OF_MEMORY'))
    for s, kind, v in e.call(st, ctx.fn('parse_tag_command_line'), [NULL, av.argc, av.p, q, ops.list]):
        if kind != 'ret':
            if kind != 'halt':
                e.fail(s, 'parse_tag_command_line returns', 'post')
            continue
        v = bv(v, 32)
        c = s.ghost['c']
        x = argstr(c)
        e.assume(s, z3.Implies(x == DASH2, z3.And(first(e, s, x) == 45, second(e, s, x) == 45)))
        good, bad = e.branch(s, v == OK)
        if good is not None:
            seen.add('ok')
            e.prove(good, z3.Not(good.ghost['oom']), 'success is not reported when memory ran out', 'post')
            asked = good.ghost['asked']
            if asked is None:
                e.fail(good, 'the query is taken from the arguments', 'post')
                continue
            r = e.load(good, q, ('ptr',), e.prog.anymod())
            e.prove(good, z3.BoolVal(isinstance(r, Ptr) and r.o == good.ghost.get('qp')), 'the query is handed to the caller', 'post')
            sep = z3.And(c < n, x == DASH2)
            e.prove(good, asked[0] == c + z3.If(sep, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)), 'the query starts after the operations and an optional --', 'post')
            e.prove(good, asked[1] == n - asked[0], 'the query takes all remaining arguments', 'post')
            e.prove(good, z3.Or(c == n, sep, z3.Not(z3.Or(first(e, good, x) == 43, first(e, good, x) == 45))), 'every leading operation is applied', 'post')
        if bad is not None:
            seen.add('bad')
            e.prove(bad, z3.Implies(v == INV, z3.And(c < n, is_op(bad, x), z3.Not(legal(bad, x)))), 'only an illegal tag is refused', 'post')
            e.prove(bad, z3.Or(v == INV, z3.And(v == OOM, bad.ghost['oom'])), 'otherwise parsing fails only when memory runs out', 'post')
    ctx.cover_any('success', 'ok' in seen)
    ctx.cover_any('failure', 'bad' in seen)

lineC = z3.Function('lineC', B64, z3.BitVecSort(8))


def u_line(ctx, newline):
    """parse_tag_line: a line of any length, monitored token by token.

    The original text is lineC(0..L), NUL at L.  f is the first position that is not blank.  The ghost tokenizer state:
    t, len the current token (when has), nul: its terminator has been written, dec: its tag has been decoded, app: it
    has been appended, sep: a "--" token was passed."""
    e = engine(ctx)
    e.max_rounds = 0
    e.auto_inv = False
    cli.stdio(e)
    st = State()
    L0 = e.fresh('L0', 64)
    f = e.fresh('f', 64)
    flags = e.fresh('flags', 32)
    Z = z3.BitVecVal(0, 64)
    e.assume(st, z3.And(z3.ULT(L0, 1 << 40), lineC(L0) == 0))
    nl = z3.BoolVal(newline)
    e.assume(st, z3.And(L0 != 0, lineC(L0 - 1) == 10) == nl)
    L = L0 - 1 if newline else L0
    blank = lambda c: z3.Or(c == 32, c == 9)
    e.assume(st, z3.And(z3.ULE(f, L), z3.Or(f == L, z3.Not(blank(lineC(f)))), z3.Implies(f != L, lineC(f) != 0), z3.Implies(L0 != 0, lineC(L0 - 1) != 0)))
    F, T_ = z3.BoolVal(False), z3.BoolVal(True)
    st.ghost.update({'t': Z, 'len': Z, 'has': F, 'nul': F, 'dec': F, 'app': F, 'sep': F, 'chomped': F, 'hexbad': F, 'oom': F,
                     'reset': F, 'ended': F, 'n': Z})
    ops = Ops(e, st)
    q = e.alloc(st, 'cells', 8, {}, 'query_string')
    seen = set()

    def lazy(eng, s, p, rt):
        o = bv(p.off if isinstance(p, Ptr) else p)
        g = s.ghost
        end = z3.If(g['chomped'], L, L0)
        eng.prove(s, z3.ULE(o, end), 'the line is read within its text', 'memory')
        c = lineC(o)
        eng.assume(s, z3.And(z3.Implies(z3.ULT(o, L0), c != 0), z3.Implies(z3.ULT(o, f), blank(c))))
        cur = z3.If(o == end, z3.BitVecVal(0, 8), c)
        past = z3.And(g['has'], z3.ULE(o, g['t'] + g['len']))
        e1 = g['t'] + g['len']
        return z3.If(z3.And(g['has'], g['nul'], o == e1), z3.BitVecVal(0, 8),
                     z3.If(z3.And(g['has'], z3.ULT(o, g['t'])), eng.fresh('old', 8),
                           z3.If(z3.And(g['has'], g['dec'], z3.UGT(o, g['t']), z3.ULT(o, e1)), eng.fresh('decoded', 8), cur)))

    def store(eng, s, p, rt, v):
        o = bv(p.off)
        g = s.ghost
        if rt != ('i', 8) or conc(v) != 0:
            raise Unsupported('write into the line')
        tokens = z3.And(g['has'], o == g['t'] + g['len'])
        chomp = z3.And(z3.Not(g['has']), z3.Not(g['chomped']), nl, o == L0 - 1)
        eng.prove(s, z3.Or(z3.And(tokens, z3.ULT(o, L), z3.Not(g['nul'])), chomp), 'only a final newline and the blank after a tag are overwritten', 'post')
        g['nul'] = z3.Or(g['nul'], g['has'])
        g['chomped'] = z3.Or(g['chomped'], z3.Not(g['has']))
        return True
    i = e.newid()
    st.mem[i] = Obj('lazy', None, None, 'line', lazy=lazy, meta={'type': 'line', 'store': store})
    line = Ptr(i, 0)

    def own(p):
        if not isinstance(p, Ptr) or p.o != i:
            raise Unsupported('text other than the line')
        return bv(p.off)

    @guard
    def strlen_(en, s, a, ins):
        o = own(a[0])
        if conc(o) != 0:
            raise Unsupported('length of part of the line')
        return (z3.If(s.ghost['chomped'], L, L0),)

    @guard
    def strdup(en, s, a, ins):
        own(a[1])
        b = s.fork()
        b.ghost['oom'] = T_
        return [(b, NULL), (s, cli.opaque(en, s, 'copy'))]

    def pos(g):
        e1 = g['t'] + g['len']
        return z3.If(g['has'], z3.If(g['nul'], e1 + 1, e1), f)

    def first_(g):
        return lineC(g['t'])

    def dashes(g):
        return z3.And(g['len'] == 2, lineC(g['t']) == 45, lineC(g['t'] + 1) == 45)

    def plusminus(g):
        return z3.Or(first_(g) == 43, first_(g) == 45)

    def bad_tag(g):
        generous = has(flags, flag(e, 'BE_GENEROUS'))
        nxt = z3.If(g['len'] == 1, z3.BitVecVal(0, 8), lineC(g['t'] + 1))
        return z3.And(z3.Not(generous), first_(g) == 43, z3.Or(nxt == 0, nxt == 45))

    @guard
    def strtok(en, s, a, ins):
        o = own(a[0])
        g = s.ghost
        if strs.lit_val(astr(en, s, a[1])) != b' ':
            raise Unsupported('delimiter')
        en.prove(s, z3.Or(g['chomped'], z3.Not(nl)), 'the final newline is removed before the line is split', 'post')
        en.prove(s, o == pos(g), 'the line is split from where the last token ended', 'post')
        en.prove(s, z3.Or(z3.Not(g['has']), g['app'], z3.And(dashes(g), z3.Not(g['sep']))), 'no leading operation is left out', 'post')
        g['sep'] = z3.Or(g['sep'], z3.And(g['has'], z3.Not(g['app'])))
        t, n = en.fresh('t', 64), en.fresh('len', 64)
        end = s.fork()
        end.ghost['ended'] = T_
        end.ghost['has'] = z3.BoolVal(False)
        en.store(end, a[2], 0, ('i', 64), en.prog.anymod())
        en.assume(s, z3.And(z3.UGE(t, o), z3.UGT(n, 0), z3.ULE(n, L), z3.ULE(t, L - n), lineC(t) != 32, lineC(t) != 0,
                            z3.Or(t + n == L, lineC(t + n) == 32), z3.Implies(n == 2, z3.And(lineC(t + 1) != 0, lineC(t + 1) != 32)), z3.Implies(z3.ULT(f, t), t != f)))
        en.assume(s, z3.Implies(z3.UGT(n, 1), z3.And(lineC(t + 1) != 0, lineC(t + 1) != 32)))
        g.update({'t': t, 'len': n, 'has': T_, 'nul': F, 'dec': F, 'app': F})
        en.store(s, a[2], n, ('i', 64), en.prog.anymod())
        return [(end, NULL), (s, Ptr(i, t))]

    @guard
    def strncmp(en, s, a, ins):
        w = strs.lit_val(astr(en, s, a[1]))
        if w is None:
            raise Unsupported('strncmp')
        o = own(a[0])
        n = bv(a[2], 64)
        eqs = T_
        done = F
        for j, ch in enumerate(w + b'\0'):
            c = lazy(en, s, Ptr(i, o + j), ('i', 8)) if z3.is_true(z3.simplify(z3.ULT(z3.BitVecVal(j, 64), n))) else None
            if c is None:
                s2 = s.fork()
                en.assume(s2, z3.And(z3.ULT(z3.BitVecVal(j, 64), n), eqs))
                if en.feasible(s2):
                    c = lazy(en, s2, Ptr(i, o + j), ('i', 8))
                else:
                    break
            eqs = z3.And(eqs, z3.Or(z3.ULE(n, j), c == ch))
        r = en.fresh('cmp', 32)
        en.assume(s, (r == 0) == eqs)
        return (r,)

    @guard
    def hexdec(en, s, a, ins):
        o = own(a[0])
        g = s.ghost
        en.prove(s, z3.And(g['has'], o == g['t'] + 1, g['nul'], z3.Not(g['dec']), z3.Not(g['app'])), 'the tag of the current operation is decoded', 'post')
        b = s.fork()
        b.ghost['hexbad'] = T_
        s.ghost['dec'] = T_
        bad = en.fresh('hexstatus', 32)
        en.assume(b, bad != 0)
        return [(b, bad), (s, 0)]

    @guard
    def append(en, s, a, ins):
        g = s.ghost
        o = own(a[1])
        en.prove(s, z3.BoolVal(a[0].o == ops.list.o), 'the operation is added to the list given', 'post')
        en.prove(s, g['reset'], 'operations of the line before are dropped', 'post')
        en.prove(s, z3.And(g['has'], z3.Not(g['app']), o == g['t'] + 1, g['nul'], g['dec']), 'operations are taken from the line in order, decoded', 'post')
        en.prove(s, z3.And(plusminus(g), z3.Not(dashes(g)), z3.Not(g['sep'])), 'only a leading + or - word is an operation', 'post')
        en.prove(s, z3.Not(bad_tag(g)), 'an illegal tag is never added', 'post')
        en.prove(s, cli.truth(a[2]) == (first_(g) == 45), '- removes and + adds', 'post')
        b = s.fork()
        b.ghost['oom'] = T_
        g['app'] = T_
        g['n'] = g['n'] + 1
        ops.S.set(s, ops.list, 'count', g['n'], ('i', 64))
        return [(b, 1), (s, 0)]

    C = e.contracts
    C['strlen'], C['talloc_strdup'], C['strtok_len'], C['strncmp'], C['hex_decode_inplace'], C['tag_op_list_append'] = strlen_, strdup, strtok, strncmp, hexdec, append
    C['_talloc_free'] = lambda en, s, a, ins: (0,)
    for n in ('llvm.va_start', 'llvm.va_end', 'llvm.va_start.p0', 'llvm.va_end.p0'):
        C[n] = lambda en, s, a, ins: (None,)

    real_reset = ctx.fn('tag_op_list_reset')

    @guard
    def reset(en, s, a, ins):
        en.prove(s, z3.BoolVal(a[0].o == ops.list.o), 'the list given is emptied', 'post')
        s.ghost['reset'] = T_
        ops.S.set(s, ops.list, 'count', z3.BitVecVal(0, 64), ('i', 64))
        return (None,)
    C['tag_op_list_reset'] = reset

    def templ(entry):
        g0 = entry.ghosts
        out = [('no failure so far', lambda v: z3.Not(z3.Or(v.ghosts['oom'], v.ghosts['hexbad'], v.ghosts['ended'], v.ghosts['sep']))),
               ('chomped', lambda v: z3.Or(v.ghosts['chomped'], z3.Not(nl))),
               ('operations appended', lambda v: z3.Implies(v.ghosts['has'], v.ghosts['app'])),
               ('terminated', lambda v: z3.Implies(v.ghosts['has'], z3.And(v.ghosts['nul'], z3.ULT(v.ghosts['t'] + v.ghosts['len'], L)))),
               ('bounds', lambda v: z3.Implies(v.ghosts['has'], z3.And(z3.ULE(v.ghosts['len'], L), z3.ULE(v.ghosts['t'], L)))),
               ('no tokens', lambda v: z3.Not(v.ghosts['has']))]
        ks = [k for k in entry.vals if k[0] in ('phi', 'cell')]
        for k in ks:
            out.append(('leading blanks %s' % (k,), lambda v, k=k: None if v.int(k) is None else z3.ULE(v.int(k), f)))
            for k2 in ks:
                if k2 != k:
                    out.append(('next token %s+%s' % (k, k2), lambda v, k=k, k2=k2: None if v.int(k) is None or v.int(k2) is None else v.int(k) + v.int(k2) == pos(v.ghosts)))
            out.append(('next token %s' % (k,), lambda v, k=k: None if v.int(k) is None else v.int(k) == pos(v.ghosts)))
        return out
    e.loop_templates.append(templ)
    E = {x: e.prog.enum('TAG_PARSE_' + x) & 0xffffffff for x in ('SUCCESS', 'INVALID', 'OUT_OF_MEMORY', 'SKIPPED')}
    for s, kind, v in e.call(st, ctx.fn('parse_tag_line'), [NULL, line, flags, q, ops.list]):
        if kind != 'ret':
            if kind != 'halt':
                e.fail(s, 'parse_tag_line returns', 'post')
            continue
        v = bv(v, 32)
        for name, val in E.items():
            s1 = s.fork()
            e.assume(s1, v == val)
            if not e.feasible(s1):
                continue
            seen.add(name)
            g = s1.ghost
            empty = z3.Or(f == L, lineC(f) == 35)
            if name == 'SKIPPED':
                e.prove(s1, empty, 'only empty lines and comments are skipped', 'post')
            else:
                if name != 'OUT_OF_MEMORY':
                    e.prove(s1, z3.Not(empty), 'empty lines and comments are skipped', 'post')
            if name == 'OUT_OF_MEMORY':
                e.prove(s1, g['oom'], 'memory is reported to run out only when it does', 'post')
            if name == 'INVALID':
                e.prove(s1, z3.Or(g['ended'], g['hexbad'], z3.And(g['has'], plusminus(g), z3.Not(g['sep']), z3.Not(dashes(g)), z3.Or(g['t'] + g['len'] == L, bad_tag(g)))),
                        'a line is refused only for a missing query or an illegal tag', 'post')
            if name == 'SUCCESS':
                e.prove(s1, z3.Not(z3.Or(g['oom'], g['hexbad'], g['ended'])), 'a malformed line is not accepted', 'post')
                r = e.load(s1, q, ('ptr',), e.prog.anymod())
                ok = isinstance(r, Ptr) and r.o == i
                e.prove(s1, z3.And(g['has'], bv(r.off) == g['t'], z3.Not(g['app']), z3.Not(g['nul'])) if ok else z3.BoolVal(False), 'the query is the rest of the line from the current word on', 'post')
                e.prove(s1, z3.Or(g['sep'], z3.Not(plusminus(g))), 'the query follows -- or does not start with + or -', 'post')
                e.prove(s1, g['reset'], 'operations of the line before are dropped', 'post')
        other = s.fork()
        e.assume(other, z3.And(*[v != x for x in E.values()]))
        if e.feasible(other):
            e.fail(other, 'a documented status is returned', 'post')
    for k in E:
        ctx.cover_any(k, k in seen)


def u_strtok(ctx):
    """strtok_len: the next word, for any text and any delimiters strspn/strcspn may use."""
    e = engine(ctx)
    st = State()
    i = e.newid()
    st.mem[i] = Obj('lazy', None, None, 'text', lazy=None, meta={'type': 'text'})
    a0 = e.fresh('start', 64)
    sp, cs = e.fresh('span', 64), e.fresh('cspan', 64)
    ln = e.alloc(st, 'cells', 8, {}, 'len')
    d = new_sym_str(e, st, 'delim')

    def mk(ret, want):
        @guard
        def g(en, s, a, ins):
            en.prove(s, z3.And(z3.BoolVal(a[0].o == i and a[1].o == d.o), bv(a[0].off) == want), 'the text is scanned from the start, then from the first character of the word', 'post')
            return (ret,)
        return g
    e.contracts['strspn'], e.contracts['strcspn'] = mk(sp, a0), mk(cs, a0 + sp)
    seen = set()
    for s, kind, v in e.call(st, ctx.fn('strtok_len'), [Ptr(i, a0), d, ln]):
        if kind != 'ret':
            e.fail(s, 'strtok_len returns', 'post')
            continue
        e.prove(s, bv(e.load(s, ln, ('i', 64), e.prog.anymod()), 64) == cs, 'the length of the word is stored', 'post')
        if v.o == 0:
            seen.add('end')
            e.prove(s, cs == 0, 'no word is reported only at the end', 'post')
        else:
            seen.add('word')
            e.prove(s, z3.And(z3.BoolVal(v.o == i), bv(v.off) == a0 + sp, cs != 0), 'the word after the delimiters is returned', 'post')
    ctx.cover_any('word', 'word' in seen)
    ctx.cover_any('end', 'end' in seen)

boolterm = z3.Function('boolterm', z3.IntSort(), z3.IntSort(), z3.IntSort())
sexpq = z3.Function('sexpquoted', z3.IntSort(), z3.IntSort())


class Stream:
    """The text of a query, appended piece by piece, as tokens: words, parentheses, quotes and atoms (original query,
    quoted tag).  table: state -> {token: next state}; hooks are called on atoms."""

    def __init__(self, e, st, table, atom, end):
        self.e, self.table, self.atom, self.end = e, table, atom, end
        st.ghost.update({'ph': z3.BitVecVal(0, 32), 'glue': z3.BoolVal(False), 'k': z3.BitVecVal(0, 64), 'oom': z3.BoolVal(False), 'q': None})
        C = e.contracts

        def bad(s):
            b = s.fork()
            b.ghost['oom'] = z3.BoolVal(True)
            return (b, NULL)

        def obj(s):
            if s.ghost['q'] is None:
                s.ghost['q'] = cli.opaque(e, s, 'built query')
            return s.ghost['q']

        def same(s, p):
            if not isinstance(p, Ptr) or s.ghost['q'] is None or p.o != s.ghost['q'].o:
                raise Unsupported('append to another string')

        @guard
        def strdup(en, s, a, ins):
            if s.ghost['q'] is not None:
                raise Unsupported('a second string')
            b = bad(s)
            self.feed(s, astr(en, s, a[1]))
            return [b, (s, obj(s))]

        @guard
        def append(en, s, a, ins):
            same(s, a[0])
            b = bad(s)
            self.feed(s, astr(en, s, a[1]))
            return [b, (s, obj(s))]

        @guard
        def aprintf(en, s, a, ins):
            if s.ghost['q'] is not None:
                raise Unsupported('a second string')
            b = bad(s)
            self.feed(s, libc.format_str(en, s, fmt_of(en, s, a[1]), a[2:]))
            return [b, (s, obj(s))]

        @guard
        def append_f(en, s, a, ins):
            same(s, a[0])
            b = bad(s)
            self.feed(s, libc.format_str(en, s, fmt_of(en, s, a[1]), a[2:]))
            return [b, (s, obj(s))]
        C['talloc_strdup'], C['talloc_asprintf'] = strdup, aprintf
        C['talloc_strdup_append'] = C['talloc_strdup_append_buffer'] = append
        C['talloc_asprintf_append'] = C['talloc_asprintf_append_buffer'] = append_f
        C['_talloc_free'] = lambda en, s, a, ins: (0,)

    def feed(self, s, parts):
        for p in parts:
            if p[0] == 'lit':
                t = p[1].decode('latin1')
                i = 0
                while i < len(t):
                    c = t[i]
                    if c in ' \t\n':
                        s.ghost['glue'] = z3.BoolVal(False)
                        i += 1
                    elif c in '()"':
                        self.token(s, c)
                        s.ghost['glue'] = z3.BoolVal(False)
                        i += 1
                    else:
                        j = i
                        while j < len(t) and t[j] not in ' \t\n()"':
                            j += 1
                        self.e.prove(s, z3.Not(s.ghost['glue']), 'words of the query are separated', 'post')
                        self.token(s, t[i:j])
                        s.ghost['glue'] = z3.BoolVal(True)
                        i = j
            else:
                self.e.prove(s, z3.Not(s.ghost['glue']), 'words of the query are separated', 'post')
                self.token(s, p[1])
                s.ghost['glue'] = z3.BoolVal(True)

    def token(self, s, t):
        ph = s.ghost['ph']
        nxt = None
        ok = []
        if isinstance(t, str):
            for a, m in self.table.items():
                if t in m:
                    ok.append(ph == a)
                    nxt = z3.BitVecVal(m[t], 32) if nxt is None else z3.If(ph == a, z3.BitVecVal(m[t], 32), nxt)
            if nxt is None:
                self.e.fail(s, 'the query is built of known parts (%s)' % t, 'post')
                raise libc.PathDead()
        else:
            nxt, ok = self.atom(s, t, ph)
        self.e.prove(s, z3.Or(ok), 'the parts of the query are in order (%s)' % (t if isinstance(t, str) else 'text'), 'post')
        self.e.assume(s, z3.Or(ok))
        s.ghost['ph'] = z3.simplify(nxt)


def lit_ptr(e, v, key):
    """Literal text a loop variable points to."""
    x = v.raw(key)
    try:
        b = strs.lit_val(astr(e, v.st, x)) if isinstance(x, Ptr) and x.o and is_lit(astr(e, v.st, x)) else None
    except Exception:
        return None
    return b


def stream_templates(e, ops, first_ph, next_ph):
    def templ(entry):
        g = lambda v, n: v.ghosts[n]
        out = [('no oom', lambda v: z3.Not(g(v, 'oom'))), ('not glued', lambda v: z3.Not(g(v, 'glue'))),
               ('phase', lambda v: g(v, 'ph') == z3.If(g(v, 'k') == 0, z3.BitVecVal(first_ph, 32), z3.BitVecVal(next_ph, 32))),
               ('glued after a term', lambda v: g(v, 'glue') == (g(v, 'k') != 0)), ('k in range', lambda v: z3.ULE(g(v, 'k'), ops.n))]
        for k in [k for k in entry.vals if k[0] in ('phi', 'cell')]:
            out.append(('operations so far %s' % (k,), lambda v, k=k: None if v.int(k) is None or lit_ptr(e, v, k) is not None else g(v, 'k') == v.int(k)))

            def join(v, k=k):
                b = lit_ptr(e, v, k)
                return None if b is None else (g(v, 'k') == 0) if b == b'' else (g(v, 'k') != 0)
            out.append(('separator %s' % (k,), join))
        return out
    def weak(entry):
        out = [(n, (lambda v, f=f: None if f(v) is None else z3.Or(v.ghosts['oom'], f(v)))) for n, f in templ(entry)]
        for k in [k for k in entry.vals if k[0] in ('phi', 'cell')]:
            out.append(('null when out of memory %s' % (k,), lambda v, k=k: v.ghosts['oom'] == z3.BoolVal(v.raw(k).o == 0) if isinstance(v.raw(k), Ptr) else None))
        return out
    return weak


def u_infix(ctx):
    """The optimised query: ( ORIG ) and ( [not] tag:T or ... ), 'not' exactly for additions."""
    e = engine(ctx)
    e.max_rounds = 0
    e.inject_oom = True
    cli.stdio(e)
    st = State()
    ops = Ops(e, st)
    orig = new_sym_str(e, st, 'query')
    o = strs.part_id(astr(e, st, orig)[0])
    star = o == strs.lit_id(b'*')
    neg = lambda s: s.ghost['neg']
    # 0 start; '(' -> 1; ORIG -> 2; ')' -> 3; 'and' -> 4; '(' -> 5 (first term); 'not' -> 6; TERM -> 7; 'or' -> 8 (next term); ')' -> 9
    table = {0: {'(': 1}, 1: {'not': 6}, 2: {')': 3}, 3: {'and': 4}, 4: {'(': 5}, 5: {'not': 6}, 7: {'or': 8, ')': 9}, 8: {'not': 6}}

    def atom(s, x, ph):
        g = s.ghost
        is_orig = ph == 1
        s2 = s.fork()
        e.assume(s2, is_orig)
        k = g['k']
        if not isinstance(x, z3.ExprRef):
            raise Unsupported('atom')
        want = boolterm(z3.IntVal(strs.lit_id(b'tag')), optag(k))
        if x.eq(o):
            # the original query, verbatim, only when it is not "*"
            return z3.BitVecVal(2, 32), [z3.And(ph == 1, z3.Not(star))]
        e.prove(s, z3.Implies(ph == 1, star), 'the original query is part of the optimised one', 'post')
        e.prove(s, z3.And(z3.ULT(k, ops.n), x == want), 'the terms are those of the operations, in order, quoted', 'post')
        e.prove(s, (ph == 6) == z3.Not(opremove(k)), 'a message is left out only when no operation changes it', 'post')
        g['k'] = k + 1
        return z3.BitVecVal(7, 32), [ph == 1, ph == 5, ph == 6, ph == 8]
    S = Stream(e, st, table, atom, 9)

    @guard
    def term(en, s, a, ins):
        t, = (astr(en, s, a[2]),)
        pre = astr(en, s, a[1])
        b = s.fork()
        b.ghost['oom'] = z3.BoolVal(True)
        p = new_str(en, s, sym(boolterm(strs.to_id(pre), strs.to_id(t))), 'term')
        en.store(s, a[3], p, ('ptr',), en.prog.anymod())
        en.store(s, a[4], en.fresh('len', 64), ('i', 64), en.prog.anymod())
        return [(b, 0xffffffff), (s, 0)]
    e.contracts['make_boolean_term'] = term
    t0 = stream_templates(e, ops, 5, 7)

    def templ(entry):
        out = t0(entry)
        out.append(('phase (star)', lambda v: z3.Implies(z3.And(star, z3.Not(v.ghosts['oom'])), v.ghosts['ph'] == z3.If(v.ghosts['k'] == 0, z3.BitVecVal(1, 32), z3.BitVecVal(7, 32)))))
        out.append(('phase (query)', lambda v: z3.Implies(z3.And(z3.Not(star), z3.Not(v.ghosts['oom'])), v.ghosts['ph'] == z3.If(v.ghosts['k'] == 0, z3.BitVecVal(5, 32), z3.BitVecVal(7, 32)))))
        return out
    e.loop_templates.append(templ)
    finish_opt(ctx, e, st, ctx.fn('_optimize_tag_query_infix'), [NULL, orig, ops.list], ops, orig, o, 9)


def finish_opt(ctx, e, st, fn, args, ops, orig, o, end):
    seen = set()
    strdup0 = e.contracts['talloc_strdup']

    @guard
    def strdup(en, s, a, ins):
        if isinstance(a[1], Ptr) and a[1].o == orig.o and conc(a[1].off) == 0 and s.ghost['q'] is None:
            b = s.fork()
            b.ghost['oom'] = z3.BoolVal(True)
            s.ghost['copy'] = True
            return [(b, NULL), (s, new_str(en, s, sym(o), 'copy'))]
        return strdup0(en, s, a, ins)
    e.contracts['talloc_strdup'] = strdup
    for s, kind, v in e.call(st, fn, args):
        if kind != 'ret':
            if kind != 'halt':
                e.fail(s, 'building the query returns', 'post')
            continue
        if v.o == 0:
            seen.add('oom')
            e.prove(s, s.ghost['oom'], 'building the query fails only when memory runs out', 'post')
            continue
        g = s.ghost
        if g['q'] is not None and v.o == g['q'].o:
            seen.add('built')
            e.prove(s, z3.And(g['ph'] == end, g['k'] == ops.n, z3.Not(g['oom'])), 'every operation keeps the messages it changes in the query', 'post')
        elif g.get('copy') or v.o == orig.o:
            seen.add('copy')
            e.prove(s, z3.BoolVal(conc(v.off) == 0), 'the query is unchanged', 'post')
        else:
            e.fail(s, 'the query is built from the original', 'post')
    ctx.cover_any('built', 'built' in seen)


def u_sexp(ctx):
    """(and ORIG (or (tag "T") (not (tag "T")) ...)), 'not' exactly for additions."""
    e = engine(ctx)
    e.max_rounds = 0
    e.inject_oom = True
    cli.stdio(e)
    st = State()
    ops = Ops(e, st)
    orig = new_sym_str(e, st, 'query')
    o = strs.part_id(astr(e, st, orig)[0])
    table = {0: {'(': 1}, 1: {'and': 2}, 3: {'(': 4}, 4: {'or': 5}, 5: {'(': 6, ')': 20}, 6: {'tag': 7, 'not': 8}, 8: {'(': 9}, 9: {'tag': 10},
             7: {'"': 11}, 10: {'"': 12}, 13: {'"': 15}, 14: {'"': 16}, 15: {')': 5}, 16: {')': 17}, 17: {')': 5}, 20: {')': 21}}

    def atom(s, x, ph):
        g = s.ghost
        k = g['k']
        if x.eq(o):
            return z3.BitVecVal(3, 32), [ph == 2]
        e.prove(s, z3.And(z3.ULT(k, ops.n), x == sexpq(optag(k))), 'the terms are those of the operations, in order, quoted', 'post')
        e.prove(s, (ph == 12) == z3.Not(opremove(k)), 'a message is left out only when no operation changes it', 'post')
        g['k'] = k + 1
        return z3.If(ph == 11, z3.BitVecVal(13, 32), z3.BitVecVal(14, 32)), [ph == 11, ph == 12]
    S = Stream(e, st, table, atom, 21)
    infix = ctx.prog.enum('NOTMUCH_QUERY_SYNTAX_XAPIAN')
    stx = e.fresh('syntax', 32)
    e.assume(st, stx != infix)

    @guard
    def quote(en, s, a, ins):
        b = s.fork()
        b.ghost['oom'] = z3.BoolVal(True)
        return [(b, NULL), (s, new_str(en, s, sym(sexpq(strs.to_id(astr(en, s, a[1])))), 'quoted'))]
    if ctx.prog.find('_quote_sexp') is not None:
        e.contracts['_quote_sexp'] = quote

    def templ(entry):
        out = stream_templates(e, ops, 5, 5)(entry)
        return [x for x in out if x[0] != 'glued after a term'] + [('phase 5', lambda v: z3.Or(v.ghosts['oom'], v.ghosts['ph'] == 5)), ('glue first', lambda v: z3.Or(v.ghosts['oom'], v.ghosts['k'] == 0, z3.Not(v.ghosts['glue'])))]
    e.loop_templates.append(templ)
    finish_opt(ctx, e, st, ctx.fn('_optimize_tag_query'), [NULL, orig, stx, ops.list], ops, orig, o, 21)


def u_quote(ctx):
    """_quote_sexp: the input with a backslash before every quote and backslash; writes monitored one by one."""
    e = engine(ctx)
    e.max_rounds = 0
    e.inject_oom = True
    st = State()
    n = e.fresh('n', 64)
    e.assume(st, z3.And(z3.ULT(n, 1 << 30), lineC(n) == 0))
    F = z3.BoolVal(False)
    st.ghost.update({'i': z3.BitVecVal(0, 64), 'wp': z3.BitVecVal(0, 64), 'half': F, 'done': F, 'oom': F, 'out': None})
    esc = lambda c: z3.Or(c == 34, c == 92)

    def rd(eng, s, p, rt):
        o = bv(p.off if isinstance(p, Ptr) else p)
        eng.prove(s, z3.ULE(o, n), 'the text is read within its bounds', 'memory')
        eng.assume(s, z3.Implies(z3.ULT(o, n), lineC(o) != 0))
        return lineC(o)
    i = e.newid()
    st.mem[i] = Obj('lazy', None, None, 'tag', lazy=rd, meta={'type': 'tag'})
    inp = Ptr(i, 0)
    outid = [None]

    def alloc(size):
        @guard
        def g(en, s, a, ins):
            b = s.fork()
            b.ghost['oom'] = z3.BoolVal(True)
            j = en.newid()
            sz = size(a)

            def store(eng, s, p, rt, v):
                o = bv(p.off)
                g = s.ghost
                eng.prove(s, z3.ULT(o, sz), 'the copy is written within its bounds', 'memory')
                c = lineC(g['i'])
                v = bv(v, 8)
                last = z3.And(g['i'] == n, z3.Not(g['half']))
                first = z3.And(esc(c), z3.Not(g['half']), z3.Not(last))
                eng.prove(s, z3.And(o == g['wp'], z3.Not(g['done']), v == z3.If(last, z3.BitVecVal(0, 8), z3.If(first, z3.BitVecVal(92, 8), c))),
                          'quotes and backslashes get a backslash, everything else is copied', 'post')
                g.update({'wp': g['wp'] + 1, 'i': z3.If(z3.Or(last, first), g['i'], g['i'] + 1), 'half': first, 'done': last})
                return True
            s.mem[j] = Obj('lazy', None, None, 'copy', lazy=None, meta={'type': 'copy', 'store': store})
            s.ghost['out'] = j
            return [(b, NULL), (s, Ptr(j, 0))]
        return g
    C = e.contracts
    C['strlen'] = guard(lambda en, s, a, ins: (n,) if a[0].o == i and conc(a[0].off) == 0 else [][0])
    C['_talloc_array'] = alloc(lambda a: bv(a[1], 64) * z3.ZeroExt(32, bv(a[2], 32)) if not isinstance(a[2], int) else bv(a[1], 64) * a[2])
    C['talloc_size'] = C['_talloc'] = alloc(lambda a: bv(a[1], 64))

    def templ(entry):
        g = lambda v, n: v.ghosts[n]
        out = [('half', lambda v: z3.Not(g(v, 'half'))), ('done', lambda v: z3.Not(z3.Or(g(v, 'done'), g(v, 'oom')))),
               ('in range', lambda v: z3.ULE(g(v, 'i'), n)), ('room', lambda v: z3.ULE(g(v, 'wp'), 2 * g(v, 'i')))]
        for k in [k for k in entry.vals if k[0] in ('phi', 'cell')]:
            out.append(('read %s' % (k,), lambda v, k=k: None if v.int(k) is None else v.int(k) == g(v, 'i')))
            out.append(('written %s' % (k,), lambda v, k=k: None if v.int(k) is None else v.int(k) == g(v, 'wp')))
        return out
    e.loop_templates.append(templ)
    seen = set()
    for s, kind, v in e.call(st, ctx.fn('_quote_sexp'), [NULL, inp]):
        if kind != 'ret':
            e.fail(s, 'quoting returns', 'post')
            continue
        if v.o == 0:
            e.prove(s, s.ghost['oom'], 'quoting fails only when memory runs out', 'post')
            continue
        seen.add('ok')
        e.prove(s, z3.And(s.ghost['done'], z3.BoolVal(v.o == s.ghost['out'] and conc(v.off) == 0)), 'the whole text is quoted', 'post')
    ctx.cover_any('quoted', 'ok' in seen)


def volatile(e, st, p, ty):
    """The SIGINT flag: may be set at any read, stays set."""
    r = e.fresh('interrupted', ty[1])
    e.assume(st, z3.Implies(st.ghost['intr'], r != 0))
    st.ghost['intr'] = z3.Or(st.ghost['intr'], r != 0)
    return r


def status_fail(e, st, ghost='bad'):
    b = st.fork()
    r = e.fresh('status', 32)
    e.assume(b, z3.And(r != 0, z3.ULT(r, 64)))
    b.ghost[ghost] = z3.BoolVal(True)
    return b, r


def u_tag_query(ctx):
    e = engine(ctx)
    e.max_rounds = 0
    e.inject_oom = True
    cli.stdio(e)
    e.volatile_load = volatile
    st = State()
    F, T_ = z3.BoolVal(False), z3.BoolVal(True)
    db, ops = cli.opaque(e, st, 'notmuch'), cli.opaque(e, st, 'tag_ops')
    orig = cli.opaque(e, st, 'query string')
    msg = cli.opaque(e, st, 'message')
    flags = e.fresh('flags', 32)
    e.assume(st, z3.ULT(flags, 16))
    stx = e.fresh('syntax', 32)
    st.ghost.update({'intr': F, 'bad': F, 'ended': F, 'cur': F, 'applied': F, 'gotten': F, 'opt': F, 'q': None, 'm': None})
    all_ = has(flags, flag(e, 'REMOVE_ALL'))
    C = e.contracts

    @guard
    def optimize(en, s, a, ins):
        en.prove(s, z3.And(z3.BoolVal(a[1].o == orig.o and a[3].o == ops.o), bv(a[2], 32) == stx), 'the query given is optimised for the operations given', 'post')
        b = s.fork()
        b.ghost['bad'] = T_
        q = cli.opaque(en, s, 'optimised query')
        s.ghost['optq'] = q.o
        return [(b, NULL), (s, q)]

    @guard
    def create(en, s, a, ins):
        isopt = isinstance(a[1], Ptr) and s.ghost.get('optq') == a[1].o
        en.prove(s, z3.BoolVal(a[0].o == db.o and (isopt or a[1].o == orig.o)), 'the query given is run', 'post')
        en.prove(s, bv(a[2], 32) == stx, 'the query is read in the syntax chosen', 'post')
        s.ghost['opt'] = z3.BoolVal(isopt)
        en.prove(s, z3.Implies(all_, z3.Not(s.ghost['opt'])), 'with --remove-all no message is left out', 'post')
        b = status_fail(en, s)
        q = cli.opaque(en, s, 'query')
        s.ghost['q'] = q.o
        en.store(s, a[3], q, ('ptr',), en.prog.anymod())
        return [b, (s, 0)]

    @guard
    def search(en, s, a, ins):
        en.prove(s, z3.BoolVal(isinstance(a[0], Ptr) and a[0].o == s.ghost['q']), 'the query is searched', 'post')
        b = status_fail(en, s)
        m = cli.opaque(en, s, 'messages')
        s.ghost['m'] = m.o
        en.store(s, a[1], m, ('ptr',), en.prog.anymod())
        return [b, (s, 0)]

    def it(s, p):
        if not isinstance(p, Ptr) or p.o != s.ghost['m']:
            raise Unsupported('another list of messages')

    @guard
    def valid(en, s, a, ins):
        it(s, a[0])
        end = s.fork()
        en.assume(end, z3.Not(s.ghost['cur']))
        end.ghost['ended'] = T_
        s.ghost['cur'] = T_
        return [(end, 0), (s, 1)]

    @guard
    def get(en, s, a, ins):
        it(s, a[0])
        en.prove(s, s.ghost['cur'], 'a message is taken only when there is one', 'post')
        s.ghost['gotten'] = T_
        return (msg,)

    @guard
    def nxt(en, s, a, ins):
        it(s, a[0])
        en.prove(s, s.ghost['applied'], 'no matching message is passed over', 'post')
        s.ghost.update({'cur': F, 'applied': F, 'gotten': F})
        return (None,)

    @guard
    def apply_(en, s, a, ins):
        en.prove(s, z3.And(z3.BoolVal(isinstance(a[0], Ptr) and a[0].o == msg.o and a[1].o == ops.o), s.ghost['gotten']), 'the operations given are applied to the matching message', 'post')
        f = bv(a[2], 32)
        mask = z3.BitVecVal(flag(e, 'REMOVE_ALL') | flag(e, 'MAILDIR_SYNC'), 32)
        en.prove(s, (f & mask) == (flags & mask), 'the flags given are used', 'post')
        b = status_fail(en, s)
        s.ghost['applied'] = T_
        return [b, (s, 0)]
    C['_optimize_tag_query'] = optimize
    C['notmuch_query_create_with_syntax'], C['notmuch_query_search_messages'] = create, search
    C['notmuch_messages_valid'], C['notmuch_messages_get'], C['notmuch_messages_move_to_next'] = valid, get, nxt
    C['tag_op_list_apply'] = apply_
    C['shared_option_query_syntax'] = lambda en, s, a, ins: (stx,)
    C['print_status_database'] = C['print_status_query'] = lambda en, s, a, ins: (a[2],)
    cli.ignore(e, 'notmuch_query_set_sort', 'notmuch_message_destroy', 'notmuch_query_destroy', 'notmuch_messages_destroy')

    def templ(entry):
        return [('nothing failed', lambda v: z3.Not(z3.Or(v.ghosts['bad'], v.ghosts['ended']))), ('between messages', lambda v: z3.Not(v.ghosts['cur'])), ('none applied', lambda v: z3.Not(v.ghosts['applied']))]
    e.loop_templates.append(templ)
    seen = set()
    for s, kind, v in e.call(st, ctx.fn('tag_query', 'notmuch-tag.c'), [NULL, db, orig, ops, flags]):
        if kind != 'ret':
            if kind != 'halt':
                e.fail(s, 'tag_query returns', 'post')
            continue
        good, bad = e.branch(s, bv(v, 32) == 0)
        if good is not None:
            g = good.ghost
            seen.add('ok')
            e.prove(good, z3.And(g['ended'], z3.Not(g['bad']), z3.Not(g['cur'])), 'success means every matching message was changed', 'post')
        if bad is not None:
            seen.add('bad')
            e.prove(bad, z3.Or(bad.ghost['bad'], bad.ghost['intr']), 'failure is reported only when something failed', 'post')
    ctx.cover_any('success', 'ok' in seen)
    ctx.cover_any('failure', 'bad' in seen)


def u_tag_file(ctx):
    e = engine(ctx)
    e.max_rounds = 0
    e.inject_oom = True
    cli.stdio(e)
    e.volatile_load = volatile
    st = State()
    F, T_ = z3.BoolVal(False), z3.BoolVal(True)
    db, inp = cli.opaque(e, st, 'notmuch'), cli.opaque(e, st, 'input')
    flags = e.fresh('flags', 32)
    st.ghost.update({'intr': F, 'bad': F, 'eof': F, 'have': F, 'parsed': F, 'ops': None, 'line': None, 'q': None})
    C = e.contracts
    E = {x: e.prog.enum('TAG_PARSE_' + x) & 0xffffffff for x in ('SUCCESS', 'INVALID', 'OUT_OF_MEMORY', 'SKIPPED')}

    @guard
    def create(en, s, a, ins):
        b = s.fork()
        b.ghost['bad'] = T_
        p = cli.opaque(en, s, 'tag_ops')
        s.ghost['ops'] = p.o
        return [(b, NULL), (s, p)]

    @guard
    def getline(en, s, a, ins):
        en.prove(s, z3.BoolVal(a[2].o == inp.o), 'lines are read from the input', 'post')
        en.prove(s, z3.Not(s.ghost['have']), 'no line is left out', 'post')
        end = s.fork()
        end.ghost['eof'] = T_
        p = e_line
        en.store(s, a[0], p, ('ptr',), en.prog.anymod())
        en.store(s, a[1], en.fresh('cap', 64), ('i', 64), en.prog.anymod())
        s.ghost.update({'have': T_, 'parsed': F})
        n = en.fresh('len', 64)
        en.assume(s, n > 0)
        return [(end, (1 << 64) - 1), (s, n)]
    e_line = cli.opaque(e, st, 'line')
    e_q = cli.opaque(e, st, 'query')

    @guard
    def parse(en, s, a, ins):
        en.prove(s, z3.And(z3.BoolVal(isinstance(a[1], Ptr) and a[1].o == e_line.o and conc(a[1].off) == 0 and isinstance(a[4], Ptr) and a[4].o == s.ghost['ops']), s.ghost['have']), 'each line is parsed', 'post')
        en.prove(s, bv(a[2], 32) == 0, 'illegal tags are refused', 'post')
        outs = []
        for k, x in E.items():
            t = s.fork()
            if k == 'SUCCESS':
                en.store(t, a[3], e_q, ('ptr',), en.prog.anymod())
                t.ghost['parsed'] = T_
            elif k == 'SKIPPED':
                t.ghost['have'] = F
            elif k == 'INVALID':
                t.ghost['have'] = F
                t.ghost['bad'] = T_
            else:
                t.ghost['bad'] = T_
            t.event('line: ' + k)
            outs.append((t, x))
        return outs

    @guard
    def query(en, s, a, ins):
        en.prove(s, z3.And(s.ghost['have'], s.ghost['parsed'], z3.BoolVal(a[1].o == db.o and isinstance(a[2], Ptr) and a[2].o == e_q.o and conc(a[2].off) == 0 and isinstance(a[3], Ptr) and a[3].o == s.ghost['ops'])),
                 'the operations of the line are applied to the query of the line', 'post')
        en.prove(s, bv(a[4], 32) == flags, 'the flags given are used', 'post')
        b = status_fail(en, s)
        s.ghost.update({'have': F, 'parsed': F})
        return [b, (s, 0)]
    C['tag_op_list_create'], C['getline'], C['__getdelim'], C['parse_tag_line'], C['tag_query'] = create, getline, getline, parse, query
    cli.ignore(e, 'free')

    def templ(entry):
        out = [('no line pending', lambda v: z3.Not(z3.Or(v.ghosts['have'], v.ghosts['eof'])))]
        for k in [k for k in entry.vals if k[0] in ('phi', 'cell')]:
            out.append(('problems remembered %s' % (k,), lambda v, k=k: None if v.int(k) is None else v.ghosts['bad'] == (v.int(k) != 0)))
            out.append(('problems remembered (weak) %s' % (k,), lambda v, k=k: None if v.int(k) is None else z3.Implies(v.ghosts['bad'], (v.int(k) & 1) != 0)))
            out.append(('no failure %s' % (k,), lambda v, k=k: None if v.int(k) is None else v.int(k) == 0))
            out.append(('bool %s' % (k,), lambda v, k=k: None if v.int(k) is None else z3.ULE(v.int(k), 1)))
        return out
    e.loop_templates.append(templ)
    seen = set()
    for s, kind, v in e.call(st, ctx.fn('tag_file', 'notmuch-tag.c'), [NULL, db, flags, inp]):
        if kind != 'ret':
            if kind != 'halt':
                e.fail(s, 'tag_file returns', 'post')
            continue
        good, bad = e.branch(s, bv(v, 32) == 0)
        if good is not None:
            g = good.ghost
            seen.add('ok')
            e.prove(good, z3.And(z3.Or(g['eof'], g['intr']), z3.Not(g['bad'])), 'success means every line was applied', 'post')
        if bad is not None:
            seen.add('bad')
            e.prove(bad, z3.Or(bad.ghost['bad'], bad.ghost['intr']), 'failure is reported only when something failed', 'post')
    ctx.cover_any('success', 'ok' in seen)
    ctx.cover_any('failure', 'bad' in seen)


def u_command(ctx):
    e = engine(ctx)
    e.inject_oom = True
    cli.stdio(e)
    e.volatile_load = volatile
    st = State()
    F, T_ = z3.BoolVal(False), z3.BoolVal(True)
    db = cli.opaque(e, st, 'notmuch')
    argc = e.fresh('argc', 32)
    e.assume(st, z3.And(argc >= 1, argc < (1 << 20)))
    argv = e.alloc(st, 'cells', 1 << 24, {0: (8, new_sym_str(e, st, 'argv0'))}, 'argv')
    st.ghost.update({'intr': F, 'bad': F, 'worked': F, 'committed': F, 'ops': None, 'q': None, 'opened': None, 'sync': F})
    C = e.contracts
    C['parse_arguments'] = cli.parse_arguments
    cli.ignore(e, 'sigaction', 'sigemptyset', 'notmuch_process_shared_options', 'fclose', 'free')
    C['notmuch_status_to_string'] = guard(lambda en, st, a, ins: (new_sym_str(en, st, 'text'),))
    C['print_status_database'] = lambda en, s, a, ins: (a[2],)

    def fails(s):
        b = s.fork()
        b.ghost['bad'] = T_
        return b

    @guard
    def create(en, s, a, ins):
        b = fails(s)
        p = cli.opaque(en, s, 'tag_ops')
        s.ghost['ops'] = p.o
        return [(b, NULL), (s, p)]

    @guard
    def fopen(en, s, a, ins):
        b = fails(s)
        libc.set_errno(en, b)
        en.prove(s, z3.BoolVal(isinstance(a[0], Ptr) and a[0].o == s.ghost.get('opt:input')), 'the input file named is read', 'post')
        p = cli.opaque(en, s, 'FILE')
        s.ghost['opened'] = p.o
        return [(b, NULL), (s, p)]

    @guard
    def cmdline(en, s, a, ins):
        en.prove(s, z3.BoolVal(a[2].o == argv.o and isinstance(a[4], Ptr) and a[4].o == s.ghost['ops']), 'the arguments after the options are parsed', 'post')
        en.prove(s, bv(a[2].off) == z3.SignExt(32, argc - bv(a[1], 32)) * 8, 'all arguments after the options are parsed', 'post')
        b = fails(s)
        r = en.fresh('parse', 32)
        en.assume(b, r != 0)
        q = new_sym_str(en, s, 'query')
        s.ghost['q'] = q.o
        en.store(s, a[3], q, ('ptr',), en.prog.anymod())
        s.ghost['nops'] = en.fresh('nops', 64)
        return [(b, r), (s, 0)]

    def size(en, s, a, ins):
        return (s.ghost['nops'],)

    @guard
    def cfg(en, s, a, ins):
        b = status_fail(en, s)
        v = en.fresh('sync', 32)
        en.assume(s, z3.ULE(v, 1))
        en.prove(s, bv(a[1], 32) == e.prog.enum('NOTMUCH_CONFIG_SYNC_MAILDIR_FLAGS'), 'the maildir.synchronize_flags setting is read', 'post')
        en.store(s, a[2], v, ('i', 32), en.prog.anymod())
        s.ghost['sync'] = v != 0
        return [b, (s, 0)]

    def flags_ok(en, s, f):
        f = bv(f, 32)
        ra = s.ghost.get('opt:remove-all')
        want = z3.And(has(f, flag(e, 'MAILDIR_SYNC')) == s.ghost['sync'], has(f, flag(e, 'REMOVE_ALL')) == cli.truth(ra) if ra is not None else T_)
        en.prove(s, want, 'the options and the setting decide the flags', 'post')

    def worked(en, s, a):
        en.prove(s, z3.Not(z3.Or(s.ghost['bad'], s.ghost['worked'], s.ghost['committed'])), 'tagging starts once, after everything before succeeded', 'post')
        b, r = status_fail(en, s)
        s.ghost['worked'] = T_
        return [(b, r), (s, 0)]

    @guard
    def query(en, s, a, ins):
        en.prove(s, z3.BoolVal(a[1].o == db.o and isinstance(a[2], Ptr) and a[2].o == s.ghost['q'] and isinstance(a[3], Ptr) and a[3].o == s.ghost['ops']), 'the operations and the query of the command line are used', 'post')
        flags_ok(en, s, a[4])
        return worked(en, s, a)

    @guard
    def file_(en, s, a, ins):
        en.prove(s, z3.BoolVal(a[1].o == db.o and isinstance(a[3], Ptr) and (a[3].o == s.ghost['opened'] or s.ghost['opened'] is None)), 'the batch is read from the input', 'post')
        flags_ok(en, s, a[2])
        return worked(en, s, a)

    @guard
    def destroy(en, s, a, ins):
        en.prove(s, z3.BoolVal(a[0].o == db.o), 'the database is closed', 'post')
        b = status_fail(en, s)
        s.ghost['committed'] = T_
        return [b, (s, 0)]
    C['tag_op_list_create'], C['fopen'], C['fopen64'], C['parse_tag_command_line'], C['tag_op_list_size'] = create, fopen, fopen, cmdline, size
    C['notmuch_config_get_bool'], C['tag_query'], C['tag_file'], C['notmuch_database_destroy'] = cfg, query, file_, destroy
    seen = set()
    for s, kind, v in e.call(st, ctx.fn('notmuch_tag_command'), [db, argc, argv]):
        if kind != 'ret':
            if kind != 'halt':
                e.fail(s, 'notmuch tag exits', 'post')
            continue
        good, bad = e.branch(s, bv(v, 32) == 0)
        if good is not None:
            g = good.ghost
            seen.add('ok')
            e.prove(good, z3.And(g['worked'], g['committed'], z3.Not(g['bad']), z3.Not(g['intr'])), 'exit status 0 means all changes were made and stored', 'post')
        if bad is not None:
            seen.add('bad')
    ctx.cover_any('success', 'ok' in seen)
    ctx.cover_any('failure', 'bad' in seen)


def u_optimised(ctx):
    """Lemma: a message the optimised query leaves out (no operation changes it) already has the target tags."""
    e = engine(ctx)
    st = State()
    T = e.fresh_int('T')
    doc = e.fresh_bool('doc')
    n = e.fresh('n', 64)
    i = e.fresh('i', 64)
    e.assume(st, z3.And(z3.ULT(n, 1 << 40), z3.ULT(i, n), G(n) == 0))
    e.assume(st, G(i) == z3.If(G(i + 1) != 0, G(i + 1), z3.If(optag(i) == T, z3.If(opremove(i), 2, 1), 0)))
    e.assume(st, z3.Implies(optag(i) == T, doc == z3.Not(opremove(i))))
    I = lambda k: z3.And(z3.Implies(G(k) == 1, doc), z3.Implies(G(k) == 2, z3.Not(doc)))
    e.prove(st, I(n), 'a skipped message is unaffected by the operations (base)', 'lemma')
    s2 = st.fork()
    e.assume(s2, I(i + 1))
    e.prove(s2, I(i), 'a skipped message is unaffected by the operations (step)', 'lemma')
    ctx.cover('skipped', e, st)


def u_last(ctx):
    """Lemma: G(k) != 0 implies G(0) = G(k), by induction on k."""
    e = engine(ctx)
    st = State()
    n, i, T = e.fresh('n', 64), e.fresh('i', 64), e.fresh_int('T')
    Z = z3.BitVecVal(0, 64)
    e.assume(st, z3.And(z3.ULT(n, 1 << 40), z3.ULT(i, n)))
    e.assume(st, G(i) == z3.If(G(i + 1) != 0, G(i + 1), z3.If(optag(i) == T, z3.If(opremove(i), 2, 1), 0)))
    L = lambda k: z3.Implies(G(k) != 0, G(Z) == G(k))
    e.prove(st, L(Z), 'the last operation on a tag decides (base)', 'lemma')
    s2 = st.fork()
    e.assume(s2, L(i))
    e.prove(s2, L(i + 1), 'the last operation on a tag decides (step)', 'lemma')
    ctx.cover('list', e, st)


def units(prog):
    return [Unit('lemma: last operation', u_last, []),
            Unit('tag_op_list_apply', u_apply, ['tag_op_list_apply', 'makes_changes'], contract='tags := the operations applied in order; stored at once or not at all'),
            Unit('tag_op_list_append', u_append, ['tag_op_list_append']),
            Unit('query_string_from_args', u_query_args, ['query_string_from_args']),
            Unit('parse_tag_command_line', u_cmdline, ['parse_tag_command_line', 'illegal_tag']),
            Unit('parse_tag_line (newline)', lambda c: u_line(c, True), ['parse_tag_line', 'line_error', 'chomp_newline', 'illegal_tag']),
            Unit('parse_tag_line (no newline)', lambda c: u_line(c, False), ['parse_tag_line', 'line_error', 'chomp_newline', 'illegal_tag']),
            Unit('strtok_len', u_strtok, ['strtok_len']),
            Unit('_optimize_tag_query_infix', u_infix, ['_optimize_tag_query_infix']),
            Unit('_optimize_tag_query (sexp)', u_sexp, ['_optimize_tag_query']),
            Unit('_quote_sexp', u_quote, ['_quote_sexp']),
            Unit('tag_query', u_tag_query, ['tag_query']),
            Unit('tag_file', u_tag_file, ['tag_file']),
            Unit('notmuch_tag_command', u_command, ['notmuch_tag_command']),
            Unit('lemma: skipping', u_optimised, [])]


HARNESS = r'''
extern "C" {
int notmuch_tag_command (notmuch_database_t *notmuch, int argc, char *argv[]);
}
static const char *tagnames[] = { "a", "b", "a b", "q\"t", "p(x", "bs\\" };
static notmuch_database_t *open_ (void) {
    notmuch_database_t *db = NULL; char *e = NULL;
    if (notmuch_database_open_with_config (absp ("mail").c_str (), NOTMUCH_DATABASE_MODE_READ_WRITE, "", NULL, &db, &e)) { fprintf (stderr, "open: %s\n", e ? e : ""); exit (4); }
    return db;
}
static std::string id (int i) { return "m" + std::to_string (i) + "@x"; }
static void handle (const char *op, int n, char **arg, size_t *len) {
    static bool made;
    notmuch_database_t *db;
    if (! made) { db = mkdb ("mail"); for (int i = 0; i < 3; i++) addmsg (db, "mail", id (i).c_str ()); notmuch_database_destroy (db); made = true; if (! freopen ("/dev/null", "w", stderr)) exit (4); }
    fault_in = -1;
    db = open_ ();
    for (int i = 0; i < 3; i++) {
	notmuch_message_t *m;
	notmuch_database_find_message (db, id (i).c_str (), &m);
	notmuch_message_freeze (m);
	notmuch_message_remove_all_tags (m);
	for (int k = 0; k < 6; k++) if (atoi (arg[i]) & 1 << k) notmuch_message_add_tag (m, tagnames[k]);
	notmuch_message_thaw (m);
	notmuch_message_destroy (m);
    }
    notmuch_database_destroy (db);
    std::vector<char *> av;
    std::ofstream ("input", std::ios::binary) << std::string (arg[4], len[4]);
    av.push_back ((char *) "tag");
    for (int i = 5; i < n; i++) av.push_back (arg[i]);
    av.push_back (NULL);
    db = open_ ();
    fault_in = atoi (arg[3]);
    int w0 = writes, rc = notmuch_tag_command (db, av.size () - 1, av.data ());
    fault_in = -1;
    puti (rc != 0); puti (writes - w0);
    db = open_ ();
    for (int i = 0; i < 3; i++) {
	notmuch_message_t *m;
	int r = 0;
	notmuch_database_find_message (db, id (i).c_str (), &m);
	for (auto &t : tagsof (m)) { int k; for (k = 0; k < 6; k++) if (t == tagnames[k]) break; r |= 1 << k; }
	puti (r);
	notmuch_message_destroy (m);
    }
    notmuch_database_destroy (db);
}
'''
TAGS = [b'a', b'b', b'a b', b'q"t', b'p(x', b'bs\\']


def witness(prog, failing, tier, seed):
    """Random tag commands on a real database against the reference semantics."""
    import glob
    import os
    import random
    from libh import LibHarness, DBPRE
    from prog import REPO
    rnd = random.Random(seed)

    def hexenc(b):
        return b''.join(bytes([c]) if chr(c).isalnum() or c in b'@=.,_+-' else b'%%%02x' % c for c in b)

    def query(sx):
        k = rnd.randrange(6)
        s = lambda b: b'"' + b.replace(b'\\', b'\\\\').replace(b'"', b'\\"') + b'"'
        x = lambda b: b'"' + b.replace(b'"', b'""') + b'"'
        t = rnd.randrange(6)
        if rnd.random() < .3:
            return b'*', lambda i, m: True
        if rnd.random() < .4:
            j = rnd.randrange(3)
            return (b'(id m%d@x)' if sx else b'id:m%d@x') % j, lambda i, m: i == j
        if rnd.random() < .5:
            return (b'(tag ' + s(TAGS[t]) + b')' if sx else b'tag:' + x(TAGS[t])), lambda i, m: bool(m >> t & 1)
        u = rnd.randrange(6)
        return (b'(or (tag ' + s(TAGS[t]) + b') (tag ' + s(TAGS[u]) + b'))' if sx else b'tag:' + x(TAGS[t]) + b' or tag:' + x(TAGS[u])), lambda i, m: bool(m >> t & 1 or m >> u & 1)

    def run(ops, match, all_, msgs):
        out = []
        for i, m in enumerate(msgs):
            if match(i, m):
                if all_:
                    m = 0
                for r, t in ops:
                    m = m & ~(1 << t) if r else m | 1 << t
            out.append(m)
        return out
    cases, exps = [], []
    for _ in range(2500):
        msgs = [rnd.randrange(64) for _ in range(3)]
        batch, sx, all_ = rnd.random() < .5, rnd.random() < .4, rnd.random() < .2
        fault = rnd.choice([-1, -1, -1, 0, 1, 2, 3])
        argv = [b'--query=sexp' if sx else b'--query=infix'] + ([b'--remove-all'] if all_ else [])
        text = b''
        cur = msgs
        bad = False
        n = rnd.randrange(1, 4) if batch else 1
        for _k in range(n):
            ops = [(rnd.random() < .5, rnd.randrange(6)) for _ in range(rnd.choice([1, 1, 2, 2, 3, 5, 25]))]
            q, m = query(sx)
            sep = rnd.random() < .5 and not q.startswith((b'+', b'-'))
            if batch:
                kind = rnd.random()
                if kind < .1:
                    text += rnd.choice([b'\n', b'# x\n', b' \t\n', b'  # +a -- *\n'])
                if kind > .95:
                    bad = True
                    text += rnd.choice([b'+a\n', b'+ -- *\n', b'+-a -- *\n', b'+a%zz -- *\n', b'+a --\n', b'+a -b\n'])
                text += rnd.choice([b'', b' ', b'\t']) + b''.join((b'-' if r else b'+') + hexenc(TAGS[t]) + b' ' * rnd.choice([1, 1, 2]) for r, t in ops) + (b'-- ' if sep else b'') + q + b'\n'
            else:
                argv += [(b'-' if r else b'+') + TAGS[t] for r, t in ops] + ([b'--'] if sep or True else []) + [q]
            cur = run(ops, m, all_, cur)
        if batch:
            argv = argv + [b'--batch', b'--input=input']
            if rnd.random() < .3:
                text = text[:-1]
        else:
            argv.insert(len([a for a in argv if a.startswith(b'--') and a != b'--']), b'--') if rnd.random() < 0 else None
        cases.append(['t'] + [str(m).encode() for m in msgs] + [str(fault).encode(), text] + argv)
        exps.append((cur, bad, fault))
    cli_src = sorted(os.path.basename(f) for f in glob.glob(REPO + '/*.c') + glob.glob(REPO + '/notmuch*.cc'))
    with LibHarness(DBPRE + HARNESS, cli=cli_src) as h:
        got = h.run(cases, timeout=240)
    for c, (exp, bad, fault), g in zip(cases, exps, got):
        desc = {'initial': [int(x) for x in c[1:4]], 'fault_at_write': fault, 'input': c[5].decode('latin1'), 'argv': [a.decode('latin1') for a in c[6:]],
                'legend': 'tags are bit masks over ' + ' '.join(t.decode() for t in TAGS)}
        if g and g[0] == 'crash':
            return dict(desc, crash=g[1])
        rc, w, m = g[0], g[1], list(g[2:5])
        if fault < 0 or w <= fault:
            if bool(rc) != bad:
                return dict(desc, what='exit status %d, expected %d' % (rc, bad))
            if m != exp:
                return dict(desc, what='tags %s, expected %s' % (m, exp))
        elif rc == 0:
            return dict(desc, what='a failed write was not reported')
    return None

"""C03: a dump restored into the database gives back every tag, property and configuration value."""
import z3
import cli
import strs
import libc
import dumpio
from dumpio import Out, Items, table, hexenc, boolterm, encoders, buffers, F, T_
from sym import Ptr, NULL, State, Unsupported, Obj, bv, conc
from framework import Unit
from libc import guard, fmt_of
from strs import astr, eq, lit, new_str, new_sym_str, sym, is_lit, lit_val, to_id

TITLE = 'A dump restores every tag, property and configuration value exactly'
SOURCES = ['notmuch-dump.c', 'notmuch-restore.c', 'tag-util.c', 'status.c', 'util/zlib-extra.c', 'util/string-util.c']
ASSUMPTIONS = ['hex_encode / hex_decode are inverse (C01), make_boolean_term / parse_boolean_term are inverse (C02), parse_tag_line and tag_op_list_apply behave as proved in C10',
               'zlib reads back what it wrote; iterators list every item once', 'the database is opened for writing, so no call reports it as read-only']
SP, NL = ' ', '\n'


def newline(e, st, x):
    """Does the string x contain a newline?"""
    return hasnl(x)


hasnl = z3.Function('has_newline', z3.IntSort(), z3.BoolSort())


def message(e, st, msg, mid):
    """notmuch_message_get_message_id (may fail) and the newline test."""
    C = e.contracts

    @guard
    def getid(en, s, a, ins):
        if not isinstance(a[0], Ptr) or a[0].o != msg.o:
            raise Unsupported('another message')
        b = s.fork()
        b.ghost['bad'] = T_
        return [(b, NULL), (s, new_str(en, s, sym(mid), 'message-id'))]

    @guard
    def strchr(en, s, a, ins):
        c = conc(a[1])
        t = astr(en, s, a[0])
        if c != 10 or len(t) != 1 or t[0][0] != 'sym':
            raise Unsupported('search in a message-id')
        n = s.fork()
        en.assume(n, z3.Not(hasnl(t[0][1])))
        en.assume(s, hasnl(t[0][1]))
        return [(s, new_sym_str(en, s, 'rest')), (n, NULL)]
    C['notmuch_message_get_message_id'], C['strchr'] = getid, strchr
    C['print_status_database'] = C['print_status_query'] = lambda en, s, a, ins: (a[2],)
    C['notmuch_status_to_string'] = guard(lambda en, st, a, ins: (new_sym_str(en, st, 'text'),))


def setup(ctx, unit=None):
    e = ctx.engine()
    e.max_sym_iters = 0
    e.max_rounds = 0
    e.inject_oom = True
    cli.stdio(e)
    return e, State()


def loop_common(e, it):
    return [('nothing failed', lambda v: z3.Not(v.ghosts['bad'])), ('not at the end', lambda v: z3.Not(v.ghosts[it + '.ended'])),
            ('emitted what was seen', lambda v: v.ghosts['emitted'] == v.ghosts[it + '.seen']),
            ('seen is listed', lambda v: z3.Implies(v.ghosts[it + '.seen'], v.ghosts[it + '.has']))]


def u_dump_tags(ctx):
    e, st = setup(ctx)
    out, msg = cli.opaque(e, st, 'output'), cli.opaque(e, st, 'message')
    T, mid = e.fresh_int('T'), e.fresh_int('mid')
    has = e.fresh_bool('listed')
    bp, sp = buffers(e, st)
    st.ghost.update({'emitted': F, 'it.has': has, 'idout': F})
    # 0 line start, 1 after '+', 2 after a tag, 3 after a blank, 4 '-', 5 '--', 6 '-- ', 7 after the query, 8 done
    ch = table({0: {'+': 1, SP: 3}, 2: {SP: 3}, 3: {SP: 3, '+': 1, '-': 4}, 4: {'-': 5}, 5: {SP: 6}, 6: {SP: 6}, 7: {NL: 8}})

    def atom(s, x, ph):
        c = s.ghost['it.cur']
        isq = x == boolterm(z3.IntVal(strs.lit_id(b'id')), mid)
        tagok = F if c is None else x == hexenc(c[0])
        if c is not None:
            s.ghost['emitted'] = z3.Or(s.ghost['emitted'], z3.And(ph == 1, it.hit(c)))
        return z3.If(ph == 1, z3.BitVecVal(2, 32), z3.BitVecVal(7, 32)), z3.Or(z3.And(ph == 1, tagok), z3.And(ph == 6, isq))
    Out(e, st, out, ch, atom)
    encoders(e, st)
    it = Items(e, st, 'notmuch_tags', [('get', False)], (T,), has)
    message(e, st, msg, mid)

    @guard
    def tags(en, s, a, ins):
        if a[0].o != msg.o:
            raise Unsupported('another message')
        b = s.fork()
        b.ghost['bad'] = T_
        return [(b, NULL), (s, it.lst)]
    e.contracts['notmuch_message_get_tags'] = tags

    def templ(entry):
        r = loop_common(e, 'it') + [('phase', lambda v: z3.Or(v.ghosts['ph'] == 0, v.ghosts['ph'] == 2))]
        for k in [k for k in entry.vals if k[0] in ('phi', 'cell')]:
            r.append(('first %s' % (k,), lambda v, k=k: None if v.int(k) is None else (v.ghosts['ph'] == 0) == (v.int(k) != 0)))
            r.append(('flag %s' % (k,), lambda v, k=k: None if v.int(k) is None else (v.ghosts['ph'] == 0) == (v.int(k) == 0)))
        return r
    e.loop_templates.append(templ)
    fmt = e.prog.enum('DUMP_FORMAT_BATCH_TAG')
    seen = set()
    for s, kind, v in e.call(st, ctx.fn('dump_tags_message'), [NULL, msg, fmt, out, bp, sp]):
        if kind == 'halt':
            e.prove(s, s.ghost['bad'], 'the dump is given up only when something failed', 'post')
            continue
        if kind != 'ret':
            e.fail(s, 'dump_tags_message returns', 'post')
            continue
        good, bad = e.branch(s, bv(v, 32) == 0)
        if good is not None:
            g = good.ghost
            seen.add('ok')
            skipped = z3.And(g['ph'] == 0, hasnl(mid))
            e.prove(good, z3.Not(g['bad']), 'success is reported only when nothing failed', 'post')
            e.prove(good, z3.Or(skipped, g['ph'] == 8), 'the line of the message is complete', 'post')
            e.prove(good, z3.Implies(g['ph'] == 8, z3.And(g['emitted'] == has, g['it.ended'])), 'the line lists exactly the tags of the message', 'post')
            e.prove(good, z3.Implies(hasnl(mid), g['ph'] == 0), 'no line break gets into the line', 'post')
        if bad is not None:
            seen.add('bad')
            e.prove(bad, bad.ghost['bad'], 'failure is reported only when something failed', 'post')
    ctx.cover_any('success', 'ok' in seen)
    ctx.cover_any('failure', 'bad' in seen)


def u_dump_props(ctx):
    e, st = setup(ctx)
    out, msg = cli.opaque(e, st, 'output'), cli.opaque(e, st, 'message')
    K, V, mid = e.fresh_int('K'), e.fresh_int('V'), e.fresh_int('mid')
    has = e.fresh_bool('listed')
    bp, sp = buffers(e, st)
    st.ghost.update({'emitted': F, 'it.has': has, 'key': F})
    # 0 start, 1 '#', 2 '#=', 3 '#= ', 4 after id or value, 5 blank, 6 after key, 7 '=', 9 done
    ch = table({0: {'#': 1}, 1: {'=': 2}, 2: {SP: 3}, 3: {SP: 3}, 4: {SP: 5, NL: 9}, 5: {SP: 5}, 6: {'=': 7}})

    def atom(s, x, ph):
        c = s.ghost['it.cur']
        g = s.ghost
        kk, vv = (F, F) if c is None else (x == hexenc(c[0]), x == hexenc(c[1]))
        if c is not None:
            g['emitted'] = z3.Or(g['emitted'], z3.And(ph == 7, it.hit(c)))
        ok = z3.Or(z3.And(ph == 3, x == hexenc(mid)), z3.And(ph == 5, kk, z3.Not(g['key'])), z3.And(ph == 7, vv, g['key']))
        g['key'] = ph == 5
        return z3.If(ph == 5, z3.BitVecVal(6, 32), z3.BitVecVal(4, 32)), ok
    Out(e, st, out, ch, atom)
    encoders(e, st)
    it = Items(e, st, 'notmuch_message_properties', [('key', False), ('value', False)], (K, V), has)
    message(e, st, msg, mid)

    @guard
    def props(en, s, a, ins):
        k = astr(en, s, a[1])
        en.prove(s, z3.BoolVal(bool(a[0].o == msg.o and is_lit(k) and lit_val(k) == b'' and conc(a[2]) == 0)), 'all properties of the message are listed', 'post')
        return (it.lst,)
    e.contracts['notmuch_message_get_properties'] = props

    def templ(entry):
        r = loop_common(e, 'it') + [('phase', lambda v: z3.Or(v.ghosts['ph'] == 0, v.ghosts['ph'] == 4)), ('no key', lambda v: z3.Not(v.ghosts['key']))]
        r.append(('emitted means started', lambda v: z3.Implies(v.ghosts['it.seen'], v.ghosts['ph'] == 4)))
        for k in [k for k in entry.vals if k[0] in ('phi', 'cell')]:
            r.append(('first %s' % (k,), lambda v, k=k: None if v.int(k) is None else (v.ghosts['ph'] == 0) == (v.int(k) != 0)))
            r.append(('flag %s' % (k,), lambda v, k=k: None if v.int(k) is None else (v.ghosts['ph'] == 0) == (v.int(k) == 0)))
        return r
    e.loop_templates.append(templ)
    seen = set()
    for s, kind, v in e.call(st, ctx.fn('dump_properties_message'), [NULL, msg, out, bp, sp]):
        if kind == 'halt':
            e.prove(s, s.ghost['bad'], 'the dump is given up only when something failed', 'post')
            continue
        if kind != 'ret':
            e.fail(s, 'dump_properties_message returns', 'post')
            continue
        good, bad = e.branch(s, bv(v, 32) == 0)
        if good is not None:
            g = good.ghost
            seen.add('ok')
            e.prove(good, z3.Not(g['bad']), 'success is reported only when nothing failed', 'post')
            e.prove(good, z3.Or(g['ph'] == 0, g['ph'] == 9), 'the line of the message is complete', 'post')
            e.prove(good, z3.Or(hasnl(mid), z3.And(g['it.ended'], g['emitted'] == has)), 'the line lists exactly the properties of the message', 'post')
        if bad is not None:
            seen.add('bad')
            e.prove(bad, bad.ghost['bad'], 'failure is reported only when something failed', 'post')
    ctx.cover_any('success', 'ok' in seen)
    ctx.cover_any('failure', 'bad' in seen)


def u_dump_config(ctx):
    e, st = setup(ctx)
    out, db = cli.opaque(e, st, 'output'), cli.opaque(e, st, 'notmuch')
    K, V = e.fresh_int('K'), e.fresh_int('V')
    has = e.fresh_bool('listed')
    st.ghost.update({'emitted': F, 'it.has': has, 'key': F})
    # 0 line start, 1 '#', 2 '#@', 3 '#@ ', 4 after key, 5 blank, 6 after value
    ch = table({0: {'#': 1}, 1: {'@': 2}, 2: {SP: 3}, 3: {SP: 3}, 4: {SP: 5}, 5: {SP: 5}, 6: {NL: 0}})

    def atom(s, x, ph):
        c = s.ghost['it.cur']
        g = s.ghost
        kk, vv = (F, F) if c is None else (x == hexenc(c[0]), x == hexenc(c[1]))
        if c is not None:
            g['emitted'] = z3.Or(g['emitted'], z3.And(ph == 5, it.hit(c)))
        ok = z3.Or(z3.And(ph == 3, kk, z3.Not(g['key'])), z3.And(ph == 5, vv, g['key']))
        g['key'] = ph == 3
        return z3.If(ph == 3, z3.BitVecVal(4, 32), z3.BitVecVal(6, 32)), ok
    Out(e, st, out, ch, atom)
    encoders(e, st)
    it = Items(e, st, 'notmuch_config_list', [('key', False), ('value', True)], (K, V), has)
    message(e, st, db, K)

    @guard
    def getlist(en, s, a, ins):
        pre = None if a[1].o == 0 else astr(en, s, a[1])
        en.prove(s, z3.BoolVal(bool(a[0].o == db.o and (pre is None or is_lit(pre) and lit_val(pre) == b''))), 'all of the configuration is listed', 'post')
        b = s.fork()
        r = en.fresh('status', 32)
        en.assume(b, r != 0)
        b.ghost['bad'] = T_
        if conc(0) == 0:      # on failure the pointer is left alone or refers to a freed list
            en.store(b, a[2], Ptr(it.lst.o, 0), ('ptr',), en.prog.anymod())
            b.ghost['it.dead'] = T_
        en.store(s, a[2], it.lst, ('ptr',), en.prog.anymod())
        return [(b, r), (s, 0)]

    @guard
    def destroy(en, s, a, ins):
        if a[0].o != 0 and s.ghost.get('it.dead') is not None:
            en.fail(s, 'a list that was not made is not destroyed', 'post')
            raise libc.PathDead()
        return (None,)
    e.contracts['notmuch_database_get_config_list'] = getlist
    e.contracts['notmuch_config_list_destroy'] = destroy

    def templ(entry):
        return loop_common(e, 'it') + [('phase', lambda v: v.ghosts['ph'] == 0), ('no key', lambda v: z3.Not(v.ghosts['key']))]
    e.loop_templates.append(templ)
    seen = set()
    for s, kind, v in e.call(st, ctx.fn('database_dump_config'), [db, out]):
        if kind == 'halt':
            e.prove(s, s.ghost['bad'], 'the dump is given up only when something failed', 'post')
            continue
        if kind != 'ret':
            e.fail(s, 'database_dump_config returns', 'post')
            continue
        good, bad = e.branch(s, bv(v, 32) == 0)
        if good is not None:
            g = good.ghost
            seen.add('ok')
            e.prove(good, z3.Not(g['bad']), 'success is reported only when nothing failed', 'post')
            e.prove(good, g['ph'] == 0, 'every line is complete', 'post')
            e.prove(good, z3.And(g['it.ended'], g['emitted'] == has), 'the dump lists exactly the configuration of the database', 'post')
        if bad is not None:
            seen.add('bad')
            e.prove(bad, bad.ghost['bad'], 'failure is reported only when something failed', 'post')
    ctx.cover_any('success', 'ok' in seen)
    ctx.cover_any('failure', 'bad' in seen)


def status_fail(e, st):
    b = st.fork()
    r = e.fresh('status', 32)
    e.assume(b, z3.And(r != 0, z3.ULT(r, 64)))
    b.ghost['bad'] = T_
    return b, r


def u_dump_file(ctx):
    e, st = setup(ctx)
    out, db = cli.opaque(e, st, 'output'), cli.opaque(e, st, 'notmuch')
    qs = [new_sym_str(e, st, 'query'), NULL]
    form, incl = e.fresh('format', 32), e.fresh('include', 32)
    I = {x: e.prog.enum('DUMP_INCLUDE_' + x) for x in ('TAGS', 'CONFIG', 'PROPERTIES')}
    want = {x: (incl & I[x]) != 0 for x in I}
    B = e.prog.enum('DUMP_FORMAT_BATCH_TAG')
    e.assume(st, z3.Or(form == B, form == e.prog.enum('DUMP_FORMAT_SUP')))
    stx = e.fresh('syntax', 32)
    msg = cli.opaque(e, st, 'message')
    msgs = cli.opaque(e, st, 'messages')
    q = cli.opaque(e, st, 'query object')
    st.ghost.update({'config': F, 'cur': F, 'ended': F, 'gotten': F, 'tags': F, 'props': F, 'searched': F, 'q': None})
    # 0 line start, 1 within the header line, 2 header done
    letters = {chr(c): 1 for c in range(32, 127)}
    ch = table({0: {'#': 1}, 1: dict(letters, **{NL: 2})})

    def ch2(s, c, ph):
        return ch(s, c, ph)

    def atom(s, x, ph):
        return ph, ph == 1
    Out(e, st, out, ch2, atom)
    C = e.contracts
    message(e, st, msg, e.fresh_int('mid'))
    for query in qs:
        s0 = st.fork()

        @guard
        def config(en, s, a, ins):
            en.prove(s, z3.And(z3.BoolVal(a[0].o == db.o and a[1].o == out.o), s.ghost['ph'] == 2, z3.Not(s.ghost['searched'])), 'the configuration follows the header', 'post')
            b, r = status_fail(en, s)
            s.ghost['config'] = T_
            return [(b, 1), (s, 0)]

        @guard
        def create(en, s, a, ins):
            w = isinstance(a[1], Ptr) and (a[1].o == query.o if query.o else (a[1].o != 0 and is_lit(astr(en, s, a[1])) and lit_val(astr(en, s, a[1])) == b''))
            en.prove(s, z3.And(z3.BoolVal(bool(a[0].o == db.o and w)), bv(a[2], 32) == stx), 'the query given is run, everything by default', 'post')
            b, r = status_fail(en, s)
            s.ghost['q'] = q.o
            en.store(s, a[3], q, ('ptr',), en.prog.anymod())
            return [(b, r), (s, 0)]

        @guard
        def search(en, s, a, ins):
            en.prove(s, z3.BoolVal(isinstance(a[0], Ptr) and a[0].o == s.ghost['q']), 'the query is searched', 'post')
            b, r = status_fail(en, s)
            s.ghost['searched'] = T_
            en.store(s, a[1], msgs, ('ptr',), en.prog.anymod())
            return [(b, r), (s, 0)]

        def own(p):
            if not isinstance(p, Ptr) or p.o != msgs.o:
                raise Unsupported('another list of messages')

        @guard
        def valid(en, s, a, ins):
            own(a[0])
            if z3.is_true(s.ghost['cur']):
                return (1,)
            end = s.fork()
            en.assume(end, z3.Not(s.ghost['cur']))
            end.ghost['ended'] = T_
            s.ghost['cur'] = T_
            return [(end, 0), (s, 1)]

        @guard
        def get(en, s, a, ins):
            own(a[0])
            en.prove(s, s.ghost['cur'], 'a message is taken only when there is one', 'post')
            b = s.fork()
            b.ghost['bad'] = T_
            s.ghost['gotten'] = T_
            return [(b, NULL), (s, msg)]

        def done(s):
            g = s.ghost
            return z3.And(z3.Implies(want['TAGS'], g['tags']), z3.Implies(want['PROPERTIES'], g['props']))

        @guard
        def nxt(en, s, a, ins):
            own(a[0])
            en.prove(s, z3.And(s.ghost['gotten'], done(s)), 'the tags and properties of every message are dumped as asked for', 'post')
            s.ghost.update({'cur': F, 'gotten': F, 'tags': F, 'props': F})
            return (None,)

        def dumper(name, mi, oi):
            @guard
            def g(en, s, a, ins):
                en.prove(s, z3.And(z3.BoolVal(isinstance(a[mi], Ptr) and a[mi].o == msg.o and a[oi].o == out.o), s.ghost['gotten'], s.ghost['ph'] == 2, z3.Not(s.ghost[name])),
                         'the message at hand is dumped once', 'post')
                en.prove(s, want['TAGS' if name == 'tags' else 'PROPERTIES'], 'only what was asked for is dumped', 'post')
                if name == 'tags':
                    en.prove(s, bv(a[2], 32) == form, 'the format asked for is used', 'post')
                b = s.fork()
                b.ghost['bad'] = T_
                r = en.fresh('dumpstatus', 32)
                en.assume(b, r != 0)
                s.ghost[name] = T_
                return [(b, r), (s, 0)]
            return g
        C['database_dump_config'], C['notmuch_query_create_with_syntax'], C['notmuch_query_search_messages'] = config, create, search
        C['notmuch_messages_valid'], C['notmuch_messages_get'], C['notmuch_messages_move_to_next'] = valid, get, nxt
        C['dump_tags_message'], C['dump_properties_message'] = dumper('tags', 1, 3), dumper('props', 1, 2)
        C['shared_option_query_syntax'] = lambda en, s, a, ins: (stx,)
        cli.ignore(e, 'notmuch_query_set_sort', 'notmuch_message_destroy', 'notmuch_query_destroy', 'notmuch_messages_destroy', '_talloc_free')
        e.loop_templates[:] = [lambda entry: [('nothing failed', lambda v: z3.Not(z3.Or(v.ghosts['bad'], v.ghosts['ended']))), ('between messages', lambda v: z3.Not(z3.Or(v.ghosts['cur'], v.ghosts['tags'], v.ghosts['props'], v.ghosts['gotten'])))]]
        seen = set()
        for s, kind, v in e.call(s0, ctx.fn('database_dump_file'), [db, out, query, form, incl]):
            if kind == 'halt':
                e.prove(s, s.ghost['bad'], 'the dump is given up only when something failed', 'post')
                continue
            if kind != 'ret':
                e.fail(s, 'database_dump_file returns', 'post')
                continue
            good, bad = e.branch(s, bv(v, 32) == 0)
            if good is not None:
                g = good.ghost
                seen.add('ok')
                e.prove(good, z3.Not(g['bad']), 'success is reported only when nothing failed', 'post')
                e.prove(good, g['ph'] == 2, 'the dump starts with a header', 'post')
                e.prove(good, g['config'] == want['CONFIG'], 'the configuration is dumped as asked for', 'post')
                e.prove(good, z3.Implies(z3.Or(want['TAGS'], want['PROPERTIES']), z3.And(g['ended'], z3.Not(g['cur']))), 'success means every message was dumped', 'post')
            if bad is not None:
                seen.add('bad')
                e.prove(bad, bad.ghost['bad'], 'failure is reported only when something failed', 'post')
        ctx.cover_any('success', 'ok' in seen)
        ctx.cover_any('failure', 'bad' in seen)


def dump_units():
    return [Unit('dump_tags_message', u_dump_tags, ['dump_tags_message', 'print_status_gzbytes'], contract='one batch-tag line listing exactly the tags of the message'),
            Unit('dump_properties_message', u_dump_props, ['dump_properties_message', 'print_status_gzbytes']),
            Unit('database_dump_config', u_dump_config, ['database_dump_config', 'print_status_gzbytes']),
            Unit('database_dump_file', u_dump_file, ['database_dump_file', 'print_dump_header', 'print_status_gzbytes'])]


# ---- restore ----------------------------------------------------------------------------------------------------------
wordid = z3.Function('word', z3.IntSort(), z3.IntSort())
keyof = z3.Function('before_equals', z3.IntSort(), z3.IntSort())
valof = z3.Function('after_equals', z3.IntSort(), z3.IntSort())
hexdec = z3.Function('hexdec', z3.IntSort(), z3.IntSort())
B64 = z3.BitVecSort(64)


class Words:
    """A line seen as words: word i is text [t, t+n).  Contracts of strtok_len, strcspn, talloc_strndup and
    hex_decode_inplace in those terms."""

    def __init__(self, e, st):
        self.e = e
        C = e.contracts
        st.ghost.update({'w': z3.IntVal(0), 't': z3.BitVecVal(0, 64), 'n': z3.BitVecVal(0, 64), 'eq': z3.BitVecVal(0, 64), 'pt': z3.BitVecVal(0, 64), 'pn': z3.BitVecVal(0, 64), 'more': T_, 'bad': F, 'malformed': F})
        i = e.newid()
        chars = z3.Function('linebyte', B64, z3.BitVecSort(8))

        def lazy(en, s, p, rt):
            if rt != ('i', 8):
                raise Unsupported('access to the line')
            o, g = bv(p.off), s.ghost
            t, n, q = g['t'], g['n'], g['eq']
            c = chars(o)
            en.prove(s, z3.And(z3.UGE(o, t), z3.ULE(o, t + n)), 'the line is read within the current word', 'memory')
            d = z3.Or([c == x for x in (0, 32, 9, 10)])
            en.assume(s, z3.And(z3.Implies(z3.ULT(o - t, n), z3.Not(d)), z3.Implies(o == t + n, d), z3.Implies(z3.ULT(o - t, q), c != 61), z3.Implies(z3.And(z3.ULT(q, n), o == t + q), c == 61)))
            return c
        st.mem[i] = Obj('lazy', None, None, 'line', lazy=lazy, meta={'type': 'line'})
        self.line = Ptr(i, 0)

        def scan(entry):
            out = []
            for k in [k for k in entry.vals if k[0] in ('phi', 'cell')]:
                for nm, f in (('before =', lambda x, g: z3.ULE(x, g['eq'])), ('pointer before =', lambda x, g: z3.ULE(x - g['t'], g['eq'])),
                              ('within', lambda x, g: z3.ULE(x, g['n'])), ('pointer within', lambda x, g: z3.ULE(x - g['t'], g['n']))):
                    out.append(('%s %s' % (nm, k), lambda v, k=k, f=f: None if num(v, k) is None else f(num(v, k), v.ghosts)))
            return out

        def num(v, k):
            x = v.int(k)
            if x is None:
                x = v.raw(k)
                x = bv(x.off) if isinstance(x, Ptr) and x.o == i else None
            return x
        e.loop_templates.append(scan)

        def own(p):
            if isinstance(p, Ptr) and p.o == 0:
                e.fail(None, 'x', 'memory')
            if not isinstance(p, Ptr) or p.o != i:
                raise Unsupported('text other than the line')
            return bv(p.off)

        def null(s, p, what):
            if isinstance(p, Ptr) and p.o == 0:
                e.fail(s, what + ' of a null pointer', 'memory')
                raise libc.PathDead()

        @guard
        def strtok(en, s, a, ins):
            null(s, a[0], 'splitting')
            o = own(a[0])
            g = s.ghost
            d = lit_val(astr(en, s, a[1]))
            if d is None or b' ' not in d or any(c not in b' \t\n\r' for c in d):
                raise Unsupported('delimiters')
            en.prove(s, o == g['t'] + g['n'], 'the line is split from where the last word ended', 'post')
            end = s.fork()
            end.ghost['more'] = F
            en.store(end, a[2], 0, ('i', 64), en.prog.anymod())
            t, n, q = en.fresh('t', 64), en.fresh('n', 64), en.fresh('eq', 64)
            en.assume(s, z3.And(z3.UGE(t, o), z3.UGT(n, 0), z3.ULT(n, 1 << 40), z3.ULT(t, 1 << 40)))
            s.ghost.update({'w': g['w'] + 1, 't': t, 'n': n, 'eq': q, 'pt': g['t'], 'pn': g['n']})
            en.store(s, a[2], n, ('i', 64), en.prog.anymod())
            return [(end, NULL), (s, Ptr(i, t))]

        @guard
        def strcspn(en, s, a, ins):
            o = own(a[0])
            if lit_val(astr(en, s, a[1])) != b'=':
                raise Unsupported('delimiters')
            g = s.ghost
            en.prove(s, o == g['t'], 'the first = of the word is looked for', 'post')
            return (g['eq'],)

        @guard
        def strchr(en, s, a, ins):
            o = own(a[0])
            if conc(a[1]) != 61:
                raise Unsupported('search for another character')
            g = s.ghost
            en.prove(s, o == g['t'], 'the first = of the word is looked for', 'post')
            no = s.fork()
            en.assume(no, z3.UGE(g['eq'], g['n']))
            return [(no, NULL), (s, Ptr(i, g['t'] + g['eq']))]

        @guard
        def memchr(en, s, a, ins):
            o = own(a[0])
            if conc(a[1]) != 61:
                raise Unsupported('search for another character')
            g = s.ghost
            en.prove(s, z3.And(o == g['t'], z3.ULE(bv(a[2], 64), g['n'])), 'the first = of the word is looked for', 'post')
            no = s.fork()
            en.assume(no, z3.UGE(g['eq'], bv(a[2], 64)))
            en.assume(s, z3.ULT(g['eq'], bv(a[2], 64)))
            return [(no, NULL), (s, Ptr(i, g['t'] + g['eq']))]

        @guard
        def strndup(en, s, a, ins):
            null(s, a[1], 'copying')
            o, n, g = own(a[1]), bv(a[2], 64), s.ghost
            cases = [(z3.And(o == g['t'], n == g['n']), wordid(g['w'])),
                     (z3.And(g['w'] > 1, z3.UGT(g['pn'], 0), o == g['pt'], n == g['pn'], z3.Not(z3.And(o == g['t'], n == g['n']))), wordid(g['w'] - 1)),
                     (z3.And(o == g['t'], n == g['eq'], z3.ULT(g['eq'], g['n'])), keyof(wordid(g['w']))),
                     (z3.And(o == g['t'] + g['eq'] + 1, n == g['n'] - g['eq'] - 1, z3.ULT(g['eq'], g['n'])), valof(wordid(g['w'])))]
            outs = []
            rest = s.fork()
            for c, x in cases:
                t = s.fork()
                en.assume(t, c)
                en.assume(rest, z3.Not(c))
                if en.feasible(t):
                    outs.append((t, new_str(en, t, sym(x), 'copy')))
            if en.feasible(rest):
                outs.append((rest, new_sym_str(en, rest, 'other part of the line')))
            return outs

        @guard
        def hexd(en, s, a, ins):
            null(s, a[0], 'decoding')
            t = astr(en, s, a[0])
            ob = s.mem[a[0].o]
            if ob.kind != 'str' or conc(a[0].off) != 0:
                raise Unsupported('decoding in place')
            b = s.fork()
            b.ghost['malformed'] = T_
            s.mem[a[0].o] = ob.copy(data=sym(hexdec(to_id(t))))
            r = en.fresh('hexstatus', 32)
            en.assume(b, r != 0)
            return [(b, r), (s, 0)]
        C['strtok_len'], C['strcspn'], C['strchr'], C['talloc_strndup'], C['hex_decode_inplace'] = strtok, strcspn, strchr, strndup, hexd
        C['talloc_strndup_debug'], C['memchr'] = strndup, memchr
        cli.ignore(e, '_talloc_free')
        for n in ('talloc_named_const', '_talloc', 'talloc_new', 'talloc_named', '_talloc_named_const'):
            C[n] = guard(lambda en, s, a, ins: (cli.opaque(en, s, 'context'),))
        C['print_status_database'] = C['print_status_message'] = lambda en, s, a, ins: (a[2],)
        C['notmuch_status_to_string'] = guard(lambda en, st, a, ins: (new_sym_str(en, st, 'text'),))


def u_config_line(ctx):
    e, st = setup(ctx)
    db = cli.opaque(e, st, 'notmuch')
    W = Words(e, st)
    st.ghost['set'] = F

    @guard
    def setc(en, s, a, ins):
        k, v = astr(en, s, a[1]), astr(en, s, a[2])
        en.prove(s, z3.And(z3.BoolVal(a[0].o == db.o), s.ghost['w'] >= 2, to_id(k) == hexdec(wordid(z3.IntVal(1))), to_id(v) == hexdec(wordid(z3.IntVal(2)))),
                 'the first word names the setting and the second is its value, decoded', 'post')
        b, r = status_fail(en, s)
        s.ghost['set'] = T_
        return [(b, r), (s, 0)]
    e.contracts['notmuch_database_set_config'] = setc
    seen = set()
    for s, kind, v in e.call(st, ctx.fn('process_config_line'), [db, W.line]):
        if kind != 'ret':
            e.fail(s, 'process_config_line returns', 'post')
            continue
        good, bad = e.branch(s, bv(v, 32) == 0)
        if good is not None:
            seen.add('ok')
            e.prove(good, z3.And(good.ghost['set'], z3.Not(good.ghost['bad'])), 'success means the setting was made', 'post')
        if bad is not None:
            seen.add('bad')
            g = bad.ghost
            e.prove(bad, z3.Or(g['bad'], g['malformed'], z3.Not(g['more'])), 'a well formed line is not refused', 'post')
    ctx.cover_any('success', 'ok' in seen)
    ctx.cover_any('failure', 'bad' in seen)


def u_props_line(ctx):
    e, st = setup(ctx)
    db = cli.opaque(e, st, 'notmuch')
    msg = cli.opaque(e, st, 'message')
    W = Words(e, st)
    st.ghost.update({'found': F, 'missing': F, 'cleared': F, 'added': z3.IntVal(0)})
    C = e.contracts

    @guard
    def find(en, s, a, ins):
        en.prove(s, z3.And(z3.BoolVal(a[0].o == db.o), s.ghost['w'] == 1, to_id(astr(en, s, a[1])) == hexdec(wordid(z3.IntVal(1)))), 'the first word is the message-id, decoded', 'post')
        b, r = status_fail(en, s)
        en.store(b, a[2], NULL, ('ptr',), en.prog.anymod())
        m = s.fork()
        m.ghost['missing'] = T_
        en.store(m, a[2], NULL, ('ptr',), en.prog.anymod())
        s.ghost['found'] = T_
        en.store(s, a[2], msg, ('ptr',), en.prog.anymod())
        return [(b, r), (m, 0), (s, 0)]

    def own(s, p):
        if not isinstance(p, Ptr) or p.o != msg.o:
            e.fail(s, 'properties are restored to the message found', 'post')
            raise libc.PathDead()

    @guard
    def clear(en, s, a, ins):
        own(s, a[0])
        en.prove(s, z3.And(z3.BoolVal(isinstance(a[1], Ptr) and a[1].o == 0), s.ghost['added'] == 0), 'all old properties are removed first', 'post')
        b, r = status_fail(en, s)
        s.ghost['cleared'] = T_
        return [(b, r), (s, 0)]

    @guard
    def add(en, s, a, ins):
        own(s, a[0])
        g = s.ghost
        w = wordid(g['w'])
        en.prove(s, z3.And(g['cleared'], g['added'] == g['w'] - 2), 'every word after the message-id is a property', 'post')
        en.prove(s, z3.And(to_id(astr(en, s, a[1])) == hexdec(keyof(w)), to_id(astr(en, s, a[2])) == hexdec(valof(w))), 'a property is the key before and the value after the first =, decoded', 'post')
        b, r = status_fail(en, s)
        s.ghost['added'] = g['added'] + 1
        return [(b, r), (s, 0)]
    C['notmuch_database_find_message'], C['notmuch_message_remove_all_properties'], C['notmuch_message_add_property'] = find, clear, add
    cli.ignore(e, 'notmuch_message_destroy')

    def templ(entry):
        g0 = entry.ghosts
        r = [('no failure', lambda v: z3.Not(z3.Or(v.ghosts['bad'], v.ghosts['malformed']))), ('found', lambda v: z3.And(v.ghosts['found'], v.ghosts['cleared'], v.ghosts['more'])),
             ('all added', lambda v: z3.And(v.ghosts['w'] >= 1, v.ghosts['added'] == v.ghosts['w'] - 1)),
             ('missing', lambda v: z3.Not(v.ghosts['missing'])),
             ('bounds', lambda v: z3.And(z3.ULT(v.ghosts['n'], 1 << 40), z3.ULT(v.ghosts['t'], 1 << 40)))]
        ks = [k for k in entry.vals if k[0] in ('phi', 'cell')]
        for k in ks:
            r.append(('position %s' % (k,), lambda v, k=k: None if v.int(k) is None else v.int(k) == v.ghosts['t'] + v.ghosts['n']))
            for k2 in ks:
                if k2 != k:
                    r.append(('position %s+%s' % (k, k2), lambda v, k=k, k2=k2: None if v.int(k) is None or v.int(k2) is None else v.int(k) + v.int(k2) == v.ghosts['t'] + v.ghosts['n']))
        return r
    e.loop_templates.append(templ)
    seen = set()
    for s, kind, v in e.call(st, ctx.fn('process_properties_line'), [db, W.line]):
        if kind != 'ret':
            if kind != 'halt':
                e.fail(s, 'process_properties_line returns', 'post')
            continue
        good, bad = e.branch(s, bv(v, 32) == 0)
        g = s.ghost
        if good is not None:
            g = good.ghost
            seen.add('ok')
            e.prove(good, z3.Or(g['missing'], z3.And(g['found'], g['cleared'], z3.Not(g['more']), g['added'] == g['w'] - 1)), 'success means the message has exactly the properties of the line', 'post')
            e.prove(good, z3.Not(z3.Or(g['bad'], g['malformed'])), 'success means nothing failed', 'post')
        if bad is not None:
            seen.add('bad')
            g = bad.ghost
            e.prove(bad, z3.Or(g['bad'], g['malformed'], z3.And(g['w'] == 0, z3.Not(g['more'])), z3.And(g['w'] > 1, z3.UGE(g['eq'], g['n']))), 'a well formed line is not refused', 'post')
    ctx.cover_any('success', 'ok' in seen)
    ctx.cover_any('failure', 'bad' in seen)


def flag(e, n):
    return e.prog.enum('TAG_FLAG_' + n)


def u_tag_message(ctx):
    e, st = setup(ctx)
    db, ops, msg = cli.opaque(e, st, 'notmuch'), cli.opaque(e, st, 'tag_ops'), cli.opaque(e, st, 'message')
    mid = new_sym_str(e, st, 'message-id')
    flags = e.fresh('flags', 32)
    n = e.fresh('count', 64)
    st.ghost.update({'bad': F, 'missing': F, 'found': F, 'applied': F})
    C = e.contracts

    @guard
    def find(en, s, a, ins):
        en.prove(s, z3.BoolVal(a[0].o == db.o and a[1].o == mid.o), 'the message named is looked up', 'post')
        b, r = status_fail(en, s)
        en.store(b, a[2], NULL, ('ptr',), en.prog.anymod())
        m = s.fork()
        m.ghost['missing'] = T_
        en.store(m, a[2], NULL, ('ptr',), en.prog.anymod())
        s.ghost['found'] = T_
        en.store(s, a[2], msg, ('ptr',), en.prog.anymod())
        return [(b, r), (m, 0), (s, 0)]

    @guard
    def apply_(en, s, a, ins):
        en.prove(s, z3.And(z3.BoolVal(isinstance(a[0], Ptr) and a[0].o == msg.o and a[1].o == ops.o), bv(a[2], 32) == flags), 'the operations and flags given are applied to the message', 'post')
        b, r = status_fail(en, s)
        s.ghost['applied'] = T_
        return [(b, r), (s, 0)]
    C['notmuch_database_find_message'], C['tag_op_list_apply'] = find, apply_
    C['tag_op_list_size'] = lambda en, s, a, ins: (n,)
    C['notmuch_status_to_string'] = guard(lambda en, st, a, ins: (new_sym_str(en, st, 'text'),))
    cli.ignore(e, 'notmuch_message_destroy')
    seen = set()
    for s, kind, v in e.call(st, ctx.fn('tag_message', 'notmuch-restore.c'), [NULL, db, mid, ops, flags]):
        if kind != 'ret':
            e.fail(s, 'tag_message returns', 'post')
            continue
        good, bad = e.branch(s, bv(v, 32) == 0)
        if good is not None:
            g = good.ghost
            seen.add('ok')
            nothing = z3.And(n == 0, (flags & flag(e, 'REMOVE_ALL')) == 0)
            e.prove(good, z3.And(z3.Not(g['bad']), z3.Or(g['missing'], z3.And(g['found'], z3.Or(g['applied'], nothing)))), 'success means the message has the tags of the line, or does not exist', 'post')
        if bad is not None:
            seen.add('bad')
            e.prove(bad, bad.ghost['bad'], 'failure is reported only when something failed', 'post')
    ctx.cover_any('success', 'ok' in seen)
    ctx.cover_any('failure', 'bad' in seen)


lc = z3.Function('linechar', z3.IntSort(), B64, z3.BitVecSort(8))
ll = z3.Function('linelen', z3.IntSort(), B64)
blank = z3.Function('lineblank', z3.IntSort(), z3.BoolSort())
sp1 = z3.Function('firstblank', z3.IntSort(), B64)


def u_restore(ctx, fmt, named):
    e, st = setup(ctx)
    e.join_loops = 'all'
    e.auto_inv = False
    e.max_rounds = 0
    db = cli.opaque(e, st, 'notmuch')
    argc = e.fresh('argc', 32)
    e.assume(st, z3.And(argc >= 1, argc < (1 << 20)))
    av = e.newid()

    def argument(eng, s, p, rt):
        if rt != ('ptr',):
            raise Unsupported('access to argv')
        i = z3.LShR(bv(p.off), 3)
        eng.prove(s, z3.And(bv(p.off) & 7 == 0, i < z3.SignExt(32, argc), i >= 0), 'argv is read within its bounds', 'memory')
        return new_sym_str(eng, s, 'argv')
    st.mem[av] = Obj('lazy', None, None, 'argv', lazy=argument, meta={'type': 'argv'})
    argv = Ptr(av, 0)
    C = e.contracts
    eof = e.prog.enum('UTIL_EOF')
    I = {x: e.prog.enum('DUMP_INCLUDE_' + x) for x in ('TAGS', 'CONFIG', 'PROPERTIES')}
    FM = {x: e.prog.enum('DUMP_FORMAT_' + x) for x in ('AUTO', 'SUP', 'BATCH_TAG')}
    inp, ops, q, term, pre = (cli.opaque(e, st, n) for n in ('input', 'tag_ops', 'query string', 'term', 'prefix'))
    ob = e.newid()
    zero = z3.BitVecVal(0, 64)
    # line: id of the current line; have: it is pending; cfg/prop/tag: what was done with it; ph: 0 before the first tag line
    st.ghost.update({'line': z3.IntVal(0), 'have': F, 'cfg': F, 'prop': F, 'tag': F, 'parsed': F, 'quoted': F, 'isid': F, 'skip': F, 'sup': F, 'started': F, 'eof': F, 'bad': F,
                     'committed': F, 'closed': F, 'opened': F, 'sync': F, 'inc': z3.BitVecVal(7, 32), 'fmt': z3.BitVecVal(FM['AUTO'], 32), 'batch': F, 'usedsup': F, 'posargs': F})

    def ch(s, k):
        return lc(s.ghost['line'], z3.BitVecVal(k, 64))

    def lazy(eng, s, p, rt):
        if rt != ('i', 8):
            raise Unsupported('access to the line')
        o = bv(p.off)
        l = s.ghost['line']
        eng.prove(s, z3.And(s.ghost['have'], z3.ULE(o, ll(l))), 'the line is read within its bounds', 'memory')
        return lc(l, o)
    st.mem[ob] = Obj('lazy', None, None, 'line', lazy=lazy, meta={'type': 'line'})
    line = Ptr(ob, 0)
    inc = lambda s, x: (s.ghost['inc'] & I[x]) != 0
    two = lambda s, c: z3.And(z3.UGE(ll(s.ghost['line']), 2), ch(s, 0) == 35, ch(s, 1) == c)
    iscfg = lambda s: two(s, ord('@'))
    isprop = lambda s: two(s, ord('='))
    iscomment = lambda s: z3.Or(ll(s.ghost['line']) == 0, ch(s, 0) == 35, blank(s.ghost['line']))

    def handled(s):
        g = s.ghost
        return z3.Or(z3.Not(g['have']), z3.And(
            z3.Implies(z3.And(iscfg(s), inc(s, 'CONFIG'), z3.Not(g['started'])), g['cfg']),
            z3.Implies(z3.And(isprop(s), inc(s, 'PROPERTIES')), g['prop']),
            z3.Implies(z3.And(z3.Not(iscomment(s)), inc(s, 'TAGS')), g['tag'])))

    def own_line(p, off=None):
        ok = isinstance(p, Ptr) and p.o == ob
        if not ok:
            raise Unsupported('text other than the line')
        return bv(p.off)

    @guard
    def getline(en, s, a, ins):
        g = s.ghost
        en.prove(s, z3.BoolVal(a[3].o == inp.o), 'lines are read from the input', 'post')
        en.prove(s, handled(s), 'no line is left out', 'post')
        en.prove(s, z3.Not(g['eof']), 'reading stops at the end', 'post')
        end, b = s.fork(), s.fork()
        end.ghost['eof'] = T_
        b.ghost['bad'] = T_
        for x in (end, b):
            x.ghost['have'] = F
        r = en.fresh('gzstatus', 32)
        en.assume(b, z3.And(r != 0, r != eof))
        l = en.fresh_int('line')
        first_tag = z3.Or(g['started'], z3.And(g['have'], z3.Not(iscomment(s))))
        g.update({'started': first_tag})
        g.update({'line': l, 'have': T_, 'cfg': F, 'prop': F, 'tag': F, 'parsed': F, 'quoted': F, 'isid': F, 'skip': F})
        n = ll(l)
        en.assume(s, z3.And(z3.UGT(n, 0), z3.ULT(n, 1 << 31), lc(l, n) == 0, lc(l, zero) != 0))
        en.assume(s, z3.Implies(z3.UGT(n, 1), lc(l, z3.BitVecVal(1, 64)) != 0))
        en.assume(s, z3.And(z3.ULE(sp1(l), n), z3.Implies(lc(l, zero) == 32, sp1(l) == 0), z3.Implies(sp1(l) == 0, lc(l, zero) == 32), z3.Implies(z3.ULT(sp1(l), n), lc(l, sp1(l)) == 32)))
        en.store(s, a[1], line, ('ptr',), en.prog.anymod())
        en.store(s, a[2], n, ('i', 64), en.prog.anymod())
        return [(end, eof), (b, r), (s, 0)]

    @guard
    def strspn(en, s, a, ins):
        if conc(own_line(a[0])) != 0 or sorted(lit_val(astr(en, s, a[1]))) != sorted(b' \t\n'):
            raise Unsupported('span')
        n = en.fresh('span', 64)
        l = s.ghost['line']
        en.assume(s, z3.And(z3.ULE(n, ll(l)), (n == ll(l)) == blank(l)))
        return (n,)

    @guard
    def strchr(en, s, a, ins):
        if conc(own_line(a[0])) != 0 or conc(a[1]) != 32:
            raise Unsupported('search in the line')
        no = s.fork()
        l = s.ghost['line']
        en.assume(no, sp1(l) == ll(l))
        en.assume(s, z3.ULT(sp1(l), ll(l)))
        return [(no, NULL), (s, Ptr(ob, sp1(l)))]

    def processor(name, test, what):
        @guard
        def g(en, s, a, ins):
            en.prove(s, z3.And(z3.BoolVal(a[0].o == db.o), own_line(a[1]) == 2, test(s), inc(s, what), s.ghost['have'], z3.Not(s.ghost[name])), 'only a %s line asked for is applied, once' % name, 'post')
            b = s.fork()
            b.ghost['bad'] = T_
            r = en.fresh('linestatus', 32)
            en.assume(b, r != 0)
            s.ghost[name] = T_
            return [(b, r), (s, 0)]
        return g
    E = {x: e.prog.enum('TAG_PARSE_' + x) & 0xffffffff for x in ('SUCCESS', 'INVALID', 'OUT_OF_MEMORY', 'SKIPPED')}
    sp = lambda s: sp1(s.ghost['line'])

    def auto(s):
        """What the first space tells: (batch-tag certain, sup certain)."""
        l = s.ghost['line']
        nx = lc(l, sp1(l) + 1)
        inb = z3.ULT(sp1(l), ll(l))
        return z3.And(inb, z3.Or(nx == 43, nx == 45)), z3.And(inb, sp1(l) != 0, nx == 40)

    def detect(s, sup):
        g = s.ghost
        b, su = auto(s)
        first = z3.Not(z3.Or(g['batch'], g['usedsup']))
        F0 = g['fmt']
        e.prove(s, z3.Implies(F0 == FM['SUP'], sup), 'the format asked for is used', 'post')
        e.prove(s, z3.Implies(F0 == FM['BATCH_TAG'], z3.Not(sup)), 'the format asked for is used', 'post')
        e.prove(s, z3.Implies(z3.And(F0 == FM['AUTO'], first, b), z3.Not(sup)), 'the lines of a batch-tag dump are recognised', 'post')
        e.prove(s, z3.Implies(z3.And(F0 == FM['AUTO'], first, su), sup), 'the lines of a sup dump are recognised', 'post')
        e.prove(s, z3.Implies(g['batch'], z3.Not(sup)), 'one format is used throughout', 'post')
        e.prove(s, z3.Implies(g['usedsup'], sup), 'one format is used throughout', 'post')

    def may_parse(s, a):
        g = s.ghost
        e.prove(s, z3.And(own_line(a[1]) == 0, g['have'], inc(s, 'TAGS'), z3.Not(g['tag'])), 'tags are restored only when asked for, once a line', 'post')

    @guard
    def parse_tag(en, s, a, ins):
        may_parse(s, a)
        en.prove(s, z3.BoolVal(isinstance(a[4], Ptr) and a[4].o == ops.o), 'the operations are collected', 'post')
        en.prove(s, (bv(a[2], 32) & flag(e, 'BE_GENEROUS')) != 0, 'every tag a dump can hold is accepted', 'post')
        detect(s, F)
        outs = []
        for k, x in E.items():
            t = s.fork()
            t.ghost['batch'] = T_
            if k == 'SUCCESS':
                en.store(t, a[3], q, ('ptr',), en.prog.anymod())
                t.ghost['parsed'] = T_
            elif k == 'OUT_OF_MEMORY':
                t.ghost['bad'] = T_
            elif k == 'SKIPPED':
                en.assume(t, z3.Or(blank(t.ghost['line']), ch(t, 0) == 35, ch(t, 0) == 32, ch(t, 0) == 9))
                t.ghost['tag'] = T_
            else:
                t.ghost['tag'] = T_
            outs.append((t, x))
        return outs

    @guard
    def parse_sup(en, s, a, ins):
        may_parse(s, a)
        en.prove(s, z3.BoolVal(isinstance(a[3], Ptr) and a[3].o == ops.o), 'the operations are collected', 'post')
        detect(s, T_)
        outs = []
        for x in (0, 1, 0xffffffff):
            t = s.fork()
            t.ghost['usedsup'] = T_
            if x == 0:
                en.store(t, a[2], term, ('ptr',), en.prog.anymod())
                t.ghost.update({'parsed': T_, 'quoted': T_, 'isid': T_})
            elif x == 1:
                t.ghost['tag'] = T_
            else:
                t.ghost['bad'] = T_
            outs.append((t, x))
        return outs

    @guard
    def parse_bool(en, s, a, ins):
        en.prove(s, z3.And(z3.BoolVal(isinstance(a[1], Ptr) and a[1].o == q.o), s.ghost['parsed']), 'the query of the line names the message', 'post')
        inv, mem = s.fork(), s.fork()
        libc.set_errno(en, inv, 22)
        libc.set_errno(en, mem, 12)
        inv.ghost['tag'] = T_
        mem.ghost['bad'] = T_
        s.ghost['quoted'] = T_
        en.store(s, a[2], pre, ('ptr',), en.prog.anymod())
        en.store(s, a[3], term, ('ptr',), en.prog.anymod())
        r = (1 << 32) - 1
        return [(inv, r), (mem, r), (s, 0)]

    @guard
    def strcmp(en, s, a, ins):
        p = [x for x in a[:2] if isinstance(x, Ptr) and x.o == pre.o]
        o = [x for x in a[:2] if not (isinstance(x, Ptr) and x.o == pre.o)]
        if len(p) != 1 or lit_val(astr(en, s, o[0])) != b'id':
            raise Unsupported('comparison')
        d = s.fork()
        r = en.fresh('cmp', 32)
        en.assume(d, r != 0)
        d.ghost['tag'] = T_
        s.ghost['isid'] = T_
        return [(d, r), (s, 0)]

    @guard
    def tagm(en, s, a, ins):
        g = s.ghost
        en.prove(s, z3.And(z3.BoolVal(a[1].o == db.o and isinstance(a[2], Ptr) and a[2].o == term.o and a[3].o == ops.o), g['parsed'], g['quoted'], g['isid'], z3.Not(g['tag'])),
                 'the tags of the line go to the message it names', 'post')
        f = bv(a[4], 32)
        acc = g.get('opt:accumulate')
        en.prove(s, ((f & flag(e, 'MAILDIR_SYNC')) != 0) == g['sync'], 'flags are synchronised as configured', 'post')
        if acc is not None:
            en.prove(s, ((f & flag(e, 'REMOVE_ALL')) != 0) == z3.Not(cli.truth(acc)), 'old tags are dropped unless accumulating', 'post')
        b = s.fork()
        b.ghost['bad'] = T_
        r = en.fresh('tagstatus', 32)
        en.assume(b, z3.And(r != 0, r != eof, z3.ULT(r, 64)))
        s.ghost['tag'] = T_
        return [(b, r), (s, 0)]

    @guard
    def parse_args(en, s, a, ins):
        outs = cli.parse_arguments(en, s, a, ins)
        outs = [(t, r) for t, r in outs if isinstance(r, int) or (t.ghost.get('opt:input', 0) != 0) == named]
        for t, r in outs:
            if isinstance(r, int):
                t.ghost['bad'] = T_
                continue
            t.ghost['posargs'] = r < argc
            i, f = t.ghost.get('opt:include'), t.ghost.get('opt:format')
            if i is not None:
                en.assume(t, z3.ULT(i, 8))
                t.ghost['inc'] = z3.If(i == 0, z3.BitVecVal(7, 32), i)
            if f is not None:
                en.assume(t, f == FM[fmt])
                t.ghost['fmt'] = z3.BitVecVal(FM[fmt], 32)
        return outs

    @guard
    def cfg(en, s, a, ins):
        b, r = status_fail(en, s)
        v = en.fresh('sync', 32)
        en.assume(s, z3.ULE(v, 1))
        en.prove(s, bv(a[1], 32) == e.prog.enum('NOTMUCH_CONFIG_SYNC_MAILDIR_FLAGS'), 'the maildir.synchronize_flags setting is read', 'post')
        en.store(s, a[2], v, ('i', 32), en.prog.anymod())
        s.ghost['sync'] = v != 0
        return [(b, r), (s, 0)]

    def opener(byname):
        @guard
        def g(en, s, a, ins):
            if byname:
                en.prove(s, z3.BoolVal(isinstance(a[0], Ptr) and a[0].o == s.ghost.get('opt:input')), 'the input file named is read', 'post')
            b = s.fork()
            b.ghost['bad'] = T_
            libc.set_errno(en, b)
            s.ghost['opened'] = T_
            return [(b, NULL), (s, inp)]
        return g

    @guard
    def destroy(en, s, a, ins):
        b, r = status_fail(en, s)
        s.ghost['committed'] = T_
        return [(b, r), (s, 0)]

    @guard
    def gzclose(en, s, a, ins):
        en.prove(s, z3.And(z3.BoolVal(a[0].o == inp.o), z3.Not(s.ghost['closed'])), 'the input is closed once', 'post')
        b = s.fork()
        r = en.fresh('gzstatus', 32)
        en.assume(b, r != 0)
        b.ghost['bad'] = T_
        for x in (b, s):
            x.ghost['closed'] = T_
        return [(b, r), (s, 0)]

    @guard
    def create(en, s, a, ins):
        b = s.fork()
        b.ghost['bad'] = T_
        return [(b, NULL), (s, ops)]

    @guard
    def dup(en, s, a, ins):
        b = s.fork()
        b.ghost['bad'] = T_
        libc.set_errno(en, b)
        return [(b, (1 << 32) - 1), (s, 7)]
    C['gz_getline'], C['strspn'], C['strchr'] = getline, strspn, strchr
    C['process_config_line'], C['process_properties_line'] = processor('cfg', iscfg, 'CONFIG'), processor('prop', isprop, 'PROPERTIES')
    C['parse_tag_line'], C['parse_sup_line'], C['parse_boolean_term'], C['strcmp'], C['tag_message'] = parse_tag, parse_sup, parse_bool, strcmp, tagm
    C['parse_arguments'], C['notmuch_config_get_bool'], C['gzopen'], C['gzopen64'], C['gzdopen'] = parse_args, cfg, opener(True), opener(True), opener(False)
    C['notmuch_database_destroy'], C['gzclose_r'], C['gzclose'], C['tag_op_list_create'], C['dup'] = destroy, gzclose, gzclose, create, dup
    C['xregcomp'] = lambda en, s, a, ins: (0,)
    C['print_status_database'] = lambda en, s, a, ins: (a[2],)
    for n in ('notmuch_status_to_string', 'gz_error_string', 'strerror', 'gzerror_str'):
        C[n] = guard(lambda en, st, a, ins: (new_sym_str(en, st, 'text'),))
    cli.ignore(e, 'notmuch_process_shared_options', '_talloc_free', 'regfree', 'close', 'free')
    for n in ('talloc_named_const', '_talloc', 'talloc_named', '_talloc_named_const'):
        C[n] = guard(lambda en, s, a, ins: (cli.opaque(en, s, 'context'),))

    def templ(entry):
        def h(f):
            def g(v):
                x = f(v, v.ghosts['line'])
                return None if x is None else z3.Implies(v.ghosts['have'], x)
            return g
        r = [('nothing failed', lambda v: z3.Not(z3.Or(v.ghosts['bad'], v.ghosts['eof'], v.ghosts['committed'], v.ghosts['closed']))),
             ('opened', lambda v: v.ghosts['opened']), ('no positional arguments', lambda v: z3.Not(v.ghosts['posargs'])),
             ('no line pending', lambda v: z3.Not(v.ghosts['have'])),
             ('a fresh line', h(lambda v, l: z3.Not(z3.Or(v.ghosts['tag'], v.ghosts['parsed'], v.ghosts['quoted'], v.ghosts['isid'])))),
             ('not started', lambda v: z3.Not(z3.Or(v.ghosts['started'], v.ghosts['batch'], v.ghosts['usedsup']))),
             ('handled', lambda v: handled(V(v.ghosts))), ('only comments so far', h(lambda v, l: iscomment_v(v))),
             ('line pending', lambda v: v.ghosts['have']),
             ('started', lambda v: z3.Or(v.ghosts['started'], z3.And(v.ghosts['have'], z3.Not(iscomment_v(v))))),
             ('config handled', h(lambda v, l: z3.Implies(cfg_v(v), z3.Or(v.ghosts['started'], v.ghosts['cfg'])))),
             ('properties pending', h(lambda v, l: z3.Implies(prop_v(v), z3.Not(v.ghosts['prop'])))),
             ('properties handled', h(lambda v, l: z3.Implies(prop_v(v), v.ghosts['prop']))),
             ('something to do', lambda v: z3.Or(inc_v(v, 'TAGS'), inc_v(v, 'PROPERTIES'))),
             ('first line', lambda v: z3.Implies(v.ghosts['have'], z3.Implies(z3.Not(v.ghosts['started']), z3.Not(iscomment_v(v))))),
             ('bounds', h(lambda v, l: z3.And(z3.UGT(ll(l), 0), z3.ULT(ll(l), 1 << 31)))),
             ('nul', h(lambda v, l: z3.And(lc(l, ll(l)) == 0, lc(l, zero) != 0, z3.Implies(z3.UGT(ll(l), 1), lc(l, z3.BitVecVal(1, 64)) != 0)))),
             ('spaces', h(lambda v, l: z3.And(z3.ULE(sp1(l), ll(l)), (lc(l, zero) == 32) == (sp1(l) == 0), z3.Implies(z3.ULT(sp1(l), ll(l)), lc(l, sp1(l)) == 32))))]
        for k in [k for k in entry.vals if k[0] in ('phi', 'cell')]:
            r.append(('length %s' % (k,), h(lambda v, l, k=k: None if v.int(k) is None else v.int(k) == ll(l))))

        if 'format' in getattr(e, 'optcells', {}):
            fo, ff = e.optcells['format']

            def fm(v):
                ob_ = v.st.mem.get(fo)
                if ob_ is None or ff not in ob_.data:
                    return None
                x = bv(ob_.data[ff][1], 32)
                g = v.ghosts
                l = g['line']
                nx = lc(l, sp1(l) + 1)
                inb = z3.ULT(sp1(l), ll(l))
                return z3.And(z3.Implies(g['fmt'] != FM['AUTO'], x == g['fmt']), z3.Or(x == FM['SUP'], x == FM['BATCH_TAG']), z3.Implies(g['batch'], x == FM['BATCH_TAG']), z3.Implies(g['usedsup'], x == FM['SUP']),
                              z3.Implies(z3.And(g['have'], g['fmt'] == FM['AUTO'], z3.Not(z3.Or(g['batch'], g['usedsup'])), inc_v(v, 'TAGS')),
                                         z3.And(z3.Implies(z3.And(inb, z3.Or(nx == 43, nx == 45)), x == FM['BATCH_TAG']), z3.Implies(z3.And(inb, sp1(l) != 0, nx == 40), x == FM['SUP']))))
            r.append(('format', fm))
        return r

    class V:
        def __init__(self, g):
            self.ghost = g
    iscomment_v = lambda v: iscomment(V(v.ghosts))
    cfg_v = lambda v: z3.And(iscfg(V(v.ghosts)), inc(V(v.ghosts), 'CONFIG'))
    prop_v = lambda v: z3.And(isprop(V(v.ghosts)), inc(V(v.ghosts), 'PROPERTIES'))
    inc_v = lambda v, x: inc(V(v.ghosts), x)
    e.loop_templates.append(templ)
    seen = set()
    for s, kind, v in e.call(st, ctx.fn('notmuch_restore_command'), [db, argc, argv]):
        if kind != 'ret':
            if kind != 'halt':
                e.fail(s, 'notmuch restore exits', 'post')
            continue
        good, bad = e.branch(s, bv(v, 32) == 0)
        if good is not None:
            g = good.ghost
            seen.add('ok')
            e.prove(good, z3.Not(g['bad']), 'exit status 0 means nothing failed', 'post')
            e.prove(good, z3.And(g['committed'], g['closed']), 'exit status 0 means the changes are stored', 'post')
            e.prove(good, z3.Or(g['eof'], z3.Not(z3.Or(inc(good, 'TAGS'), inc(good, 'PROPERTIES')))), 'exit status 0 means the whole dump was restored', 'post')
        if bad is not None:
            seen.add('bad')
            e.prove(bad, z3.Or(bad.ghost['bad'], bad.ghost['posargs']), 'failure is reported only when something failed', 'post')
    ctx.cover_any('success', 'ok' in seen)
    ctx.cover_any('failure', 'bad' in seen)


def units(prog):
    return dump_units() + [
        Unit('process_config_line', u_config_line, ['process_config_line', 'strtok_len_c']),
        Unit('process_properties_line', u_props_line, ['process_properties_line', 'strtok_len_c']),
        Unit('tag_message', u_tag_message, ['tag_message']),
    ] + [Unit('notmuch_restore_command (%s format, input from %s)' % (f.lower().replace('_', '-'), 'a file' if n else 'standard input'),
                 lambda ctx, f=f, n=n: u_restore(ctx, f, n), ['notmuch_restore_command']) for f in ('AUTO', 'SUP', 'BATCH_TAG') for n in (False, True)]


HARNESS = r'''
extern "C" {
int notmuch_dump_command (notmuch_database_t *notmuch, int argc, char *argv[]);
int notmuch_restore_command (notmuch_database_t *notmuch, int argc, char *argv[]);
}
static std::vector<std::string> words[3];   /* tags, properties (key=value), configuration (key=value) */
static std::vector<std::string> ids;
static notmuch_database_t *open_ (void) {
    notmuch_database_t *db = NULL; char *e = NULL;
    if (notmuch_database_open_with_config (absp ("mail").c_str (), NOTMUCH_DATABASE_MODE_READ_WRITE, "", NULL, &db, &e)) { fprintf (stderr, "open: %s\n", e ? e : ""); exit (4); }
    return db;
}
static void key_value (const std::string &s, std::string &k, std::string &v) { size_t e = s.find ('='); k = s.substr (0, e); v = s.substr (e + 1); }
static void set (char **arg) {
    notmuch_database_t *db = open_ ();
    notmuch_database_begin_atomic (db);
    std::string k, v;
    for (size_t i = 0; i < ids.size (); i++) {
	notmuch_message_t *m;
	notmuch_database_find_message (db, ids[i].c_str (), &m);
	notmuch_message_freeze (m);
	notmuch_message_remove_all_tags (m);
	for (size_t j = 0; j < words[0].size (); j++) if (atoi (arg[i]) & 1 << j) notmuch_message_add_tag (m, words[0][j].c_str ());
	notmuch_message_thaw (m);
	notmuch_message_remove_all_properties (m, NULL);
	for (size_t j = 0; j < words[1].size (); j++) if (atoi (arg[3 + i]) & 1 << j) { key_value (words[1][j], k, v); notmuch_message_add_property (m, k.c_str (), v.c_str ()); }
	notmuch_message_destroy (m);
    }
    for (size_t j = 0; j < words[2].size (); j++) { key_value (words[2][j], k, v); notmuch_database_set_config (db, k.c_str (), ""); }
    for (size_t j = 0; j < words[2].size (); j++) if (atoi (arg[6]) & 1 << j) { key_value (words[2][j], k, v); notmuch_database_set_config (db, k.c_str (), v.c_str ()); }
    notmuch_database_end_atomic (db);
    notmuch_database_destroy (db);
}
static int idx (std::vector<std::string> &w, const std::string &s) { for (size_t j = 0; j < w.size (); j++) if (w[j] == s) return 1 << j; return 1 << 20; }
static void get (void) {
    notmuch_database_t *db = open_ ();
    int p[3];
    for (size_t i = 0; i < 3; i++) {
	notmuch_message_t *m;
	int r = 0;
	notmuch_database_find_message (db, ids[i].c_str (), &m);
	for (auto &t : tagsof (m)) r |= idx (words[0], t);
	puti (r);
	p[i] = 0;
	notmuch_message_properties_t *l;
	for (l = notmuch_message_get_properties (m, "", 0); notmuch_message_properties_valid (l); notmuch_message_properties_move_to_next (l))
	    p[i] |= idx (words[1], std::string (notmuch_message_properties_key (l)) + "=" + notmuch_message_properties_value (l));
	notmuch_message_destroy (m);
    }
    for (int i = 0; i < 3; i++) puti (p[i]);
    notmuch_config_list_t *l = NULL;
    int r = 0;
    notmuch_database_get_config_list (db, "", &l);
    for (; notmuch_config_list_valid (l); notmuch_config_list_move_to_next (l)) r |= idx (words[2], std::string (notmuch_config_list_key (l)) + "=" + notmuch_config_list_value (l));
    puti (r);
    notmuch_database_destroy (db);
}
static void handle (const char *op, int n, char **arg, size_t *len) {
    if (*op == 'w') {      /* w kind word... ; kind 3: message-ids */
	for (int i = 1; i < n; i++) if (atoi (arg[0]) == 3) ids.push_back (arg[i]); else words[atoi (arg[0])].push_back (arg[i]);
	if (atoi (arg[0]) == 3) {
	    notmuch_database_t *db = mkdb ("mail");
	    for (auto &i : ids) addmsg (db, "mail", i.c_str ());
	    notmuch_database_destroy (db);
	    if (! freopen ("/dev/null", "w", stderr)) exit (4);
	}
	return;
    }
    std::vector<char *> av[2];
    int k = 16;
    for (int j = 0; j < 2; j++) {
	av[j].push_back ((char *) "cmd");
	for (; k < n && strcmp (arg[k], ";"); k++) av[j].push_back (arg[k]);
	k++;
	av[j].push_back (NULL);
    }
    fault_in = -1;
    set (arg);
    if (arg[14]) { std::ofstream ("out", std::ios::binary) << std::string (arg[14], len[14]); puti (0); }
    else puti (notmuch_dump_command (open_ (), av[0].size () - 1, av[0].data ()));
    set (arg + 7);
    notmuch_database_t *db = open_ ();
    int w0 = writes;
    fault_in = atoi (arg[15]);
    puti (notmuch_restore_command (db, av[1].size () - 1, av[1].data ()));
    fault_in = -1;
    puti (writes - w0);
    get ();
    std::ifstream f ("out", std::ios::binary);
    std::string s ((std::istreambuf_iterator<char> (f)), std::istreambuf_iterator<char> ());
    put (s.data (), s.size ());
}
'''
WTAGS = [b'a', b'b c', b'q"t', b'p(x)', b'100%', b'-- id:x', b'\xc3\xa4', b'+']
WPROPS = [b'k=v', b'k=w', b'a b=c d', b'e== x=y', b'p%q=\nnew line', b'zz=%20']
WCFG = [b'user.x=1', b'user.y= a\nb ', b'query.q q=tag:a and (tag:b)', b'user.z=%41=b']
WIDS = [b'm0@x', b'a(b@y', b"p%zz)'@z"]


def witness(prog, failing, tier, seed):
    """Random databases dumped and restored by the real commands, against what a dump means."""
    import glob
    import os
    import random
    from libh import LibHarness, DBPRE
    from prog import REPO
    rnd = random.Random(seed)
    cases, exps = [['w', 0] + WTAGS, ['w', 1] + WPROPS, ['w', 2] + WCFG, ['w', 3] + WIDS], [None] * 4
    prev = []
    bits = lambda n: rnd.choice([0, rnd.randrange(1 << n), rnd.randrange(1 << n)])

    def mk():
        return [bits(len(WTAGS)) for _ in range(3)] + [bits(len(WPROPS)) for _ in range(3)] + [bits(len(WCFG))]
    names = ['config', 'properties', 'tags']
    for _ in range(1500):
        old, new = mk(), mk()
        di = rnd.choice([[], [], ['tags'], ['config', 'tags'], ['properties'], ['properties', 'tags'], names])
        ri = rnd.choice([[], [], ['tags'], ['config'], ['properties'], ['properties', 'tags']])
        sup = rnd.random() < .15
        acc = rnd.random() < .25
        if sup:
            old[:3] = [m & 1 for m in old[:3]]
        gz = rnd.random() < .3
        d = ['--output=out'] + ['--include=' + x for x in di] + (['--format=sup'] if sup else []) + (['--gzip'] if gz else [])
        r = ['--input=out'] + ['--include=' + x for x in ri] + (['--accumulate'] if acc else []) + ([rnd.choice(['--format=auto', '--format=' + ('sup' if sup else 'batch-tag')])] if rnd.random() < .5 else [])
        inc = set(di or names) & set(ri or names)
        exp = list(new)
        for i in range(3):
            if 'tags' in inc:
                exp[i] = old[i] | (new[i] if acc else 0)
            if 'properties' in inc and old[3 + i]:
                exp[3 + i] = old[3 + i]
        if 'config' in inc:
            exp[6] = old[6] | new[6]
        fault = rnd.choice([-1, -1, -1, 0, 1, 2, 4])
        cases.append(['t'] + [str(x).encode() for x in old + new] + [None, str(fault).encode()] + [x.encode() for x in d] + [b';'] + [x.encode() for x in r])
        exps.append((exp, False))

    def hexenc(b):
        return b''.join(bytes([c]) if chr(c).isalnum() and c < 128 or c in b'@=.,_+-' else b'%%%02x' % c for c in b)
    # dump texts written by hand
    for _ in range(2500):
        new = mk()
        exp = list(new)
        ri = rnd.choice([[], [], ['tags'], ['config'], ['properties'], ['properties', 'tags']])
        inc = set(ri or names)
        acc = rnd.random() < .3
        sup = rnd.random() < .3
        bad = started = False
        text = b''
        sep = lambda: rnd.choice([b' ', b' ', b'  ', b'\t'])
        ident = lambda i: b'id:' + (b'"' + WIDS[i] + b'"' if any(c in b'("\') ' for c in WIDS[i]) or rnd.random() < .3 else WIDS[i])
        for _k in range(rnd.choice([1, 2, 3, 5])):
            kind = rnd.random()
            i = rnd.randrange(4)
            damaged = bad
            if kind < .5:
                ops = [(not sup and rnd.random() < .3, rnd.randrange(1 if sup else len(WTAGS))) for _o in range(rnd.choice([0, 1, 2, 2, 3]))]
                mid = WIDS[i] if i < 3 else rnd.choice([b'missing@x', b'(@x'])
                if sup:
                    line = mid + b' (' + b' '.join(WTAGS[t] for _r, t in ops) + b')'
                else:
                    line = b''.join((b'-' if m else b'+') + hexenc(WTAGS[t]) + rnd.choice([b' ', b'  ']) for m, t in ops) + b'-- ' + (ident(i) if i < 3 else b'id:"' + mid + b'"' if b'(' in mid else b'id:' + mid)
                    if not ops and i < 3:
                        line = line if rnd.random() < .5 else b'-- ' + ident(i)
                q = rnd.random()
                if q < .15:
                    line = rnd.choice([b'nonsense', b'+a%zz -- id:m0@x', b'+a -- tag:a', b'+a -- id:"m0@x', b'+a --']) if not sup else rnd.choice([b'nonsense', b'm0@x a', b'm0@x (a', b'm0@x (a) b'])
                elif i < 3 and 'tags' in inc and not bad and (sup or ops or True):
                    m = exp[i] if acc else 0
                    for rem, t in ops:
                        m = m & ~(1 << t) if rem else m | 1 << t
                    exp[i] = m
                started = True
                text += line + b'\n'
            elif kind < .7:
                pr = [rnd.randrange(len(WPROPS)) for _o in range(rnd.choice([0, 1, 2, 3]))]
                mid = WIDS[i] if i < 3 else b'missing@x'
                line = b'#=' + sep() + hexenc(mid) + b''.join(sep() + b'='.join([hexenc(WPROPS[x].split(b'=', 1)[0]), hexenc(WPROPS[x].split(b'=', 1)[1])]) for x in pr)
                if i < 3 and 'properties' in inc and not bad:
                    exp[3 + i] = 0
                    for x in pr:
                        exp[3 + i] |= 1 << x
                if rnd.random() < .08 and 'properties' in inc:
                    line = rnd.choice([b'#=', b'#= ', b'#= m0@x%zz', b'#= m0@x noequals'])
                    if b'noequals' in line and not bad:
                        exp[3] = 0
                    elif not bad and i < 3:
                        exp[3 + i] = prev[3 + i]
                    bad = True
                text += line + b'\n'
            elif kind < .85 and not started:
                j = rnd.randrange(len(WCFG))
                kk, v = WCFG[j].split(b'=', 1)
                line = b'#@' + sep() + hexenc(kk) + sep() + hexenc(v)
                if rnd.random() < .08 and 'config' in inc:
                    line = rnd.choice([b'#@', b'#@ user.x', b'#@ user.x ', b'#@ user.x %zz'])
                    bad = True
                elif 'config' in inc and not bad:
                    exp[6] |= 1 << j
                text += line + b'\n'
            else:
                text += rnd.choice([b'\n', b'# comment\n', b' \t\n', b'#notmuch-dump batch-tag:3\n', b'#', b'\n']) if rnd.random() < .5 else b'#!\n'
                if not text.endswith(b'\n'):
                    text += b'\n'
            prev = list(exp)
        if rnd.random() < .3:
            text = text[:-1]
        if sup and not started:
            sup = False
        first = next((l for l in text.split(b'\n') if l.strip(b' \t') and not l.startswith(b'#')), b'')
        auto = b'sup' if b' (' in first[:first.find(b' ') + 2] else b'batch-tag'
        fmt = ['--format=auto'] if (auto == b'sup') == sup and rnd.random() < .6 else ['--format=sup' if sup else '--format=batch-tag']
        fault = rnd.choice([-1, -1, -1, 0, 1, 2])
        cases.append(['t'] + [str(x).encode() for x in new + new] + [text, str(fault).encode(), b';'] + [x.encode() for x in ['--input=out'] + ['--include=' + x for x in ri] + (['--accumulate'] if acc else []) + fmt])
        exps.append((exp, bad))
    cli_src = sorted(os.path.basename(f) for f in glob.glob(REPO + '/*.c') + glob.glob(REPO + '/notmuch*.cc'))
    with LibHarness(DBPRE + HARNESS, cli=cli_src) as h:
        got = h.run(cases, timeout=240)
    for c, e, g in zip(cases, exps, got):
        if e is None:
            continue
        exp, bad = e
        desc = {'dumped': [int(x) for x in c[1:8]], 'before restore': [int(x) for x in c[8:15]], 'arguments': [a.decode('latin1') for a in c[17:]], 'dump text': (c[15] or g[-1] if isinstance(g[-1], bytes) else b'').decode('latin1'),
                'legend': 'bit masks: tags of the 3 messages, properties of the 3 messages, configuration', 'fault_at_write': int(c[16]),
                'tags': [x.decode('latin1') for x in WTAGS], 'properties': [x.decode('latin1') for x in WPROPS], 'config': [x.decode('latin1') for x in WCFG], 'messages': [x.decode('latin1') for x in WIDS]}
        if g and g[0] == 'crash':
            return dict(desc, crash=g[1])
        drc, rc, w = g[:3]
        fault = int(c[16])
        if fault >= 0 and w > fault:
            if rc == 0:
                return dict(desc, what='a failed write was not reported')
            continue
        if drc or (rc != 0) != bad:
            return dict(desc, what='exit status of dump %d, of restore %d, expected %d' % (drc, rc, bad))
        if not bad and list(g[3:10]) != exp:
            return dict(desc, what='state after restore %s, expected %s' % (list(g[3:10]), exp))
    return None

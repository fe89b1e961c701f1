"""C11: tag changes, freeze and thaw."""
import z3
import cli
import strs
from sym import Ptr, NULL, State, Unsupported, bv, conc
from framework import Unit
from strs import new_sym_str, astr, cat, lit, to_id
from msg import Msg, B, on, ONE, ZERO

TITLE = 'Tag changes do exactly what they say, atomically under freeze and thaw'
SOURCES = ['lib/message.cc', 'lib/database.cc', 'lib/prefix.cc']
ASSUMPTIONS = ['Xapian documents are sets of terms; replace_document stores the document it is given or throws and stores nothing',
               'the tag list iterator visits exactly the tags in the list it was created for',
               'stored terms are at most 245 bytes (Xapian limit)']


def st_(e, n):
    v = e.prog.enum('NOTMUCH_STATUS_' + n)
    if v is None:
        raise Unsupported('enum ' + n)
    return v


def setup(ctx):
    e = ctx.engine()
    e.merge_returns = 'exact'
    e.max_sym_iters = 0
    st = State()
    m = Msg(e, st)
    return e, st, m


def starts(e, m, st):
    """Every state of the object: writable, read-only or closed handle, tag list cached or not."""
    out = []
    for ro in (None, 'READ_ONLY_DATABASE', 'CLOSED_DATABASE'):
        for tl in (False, True):
            s = st.fork()
            if ro == 'READ_ONLY_DATABASE':
                m.readonly(s)
            else:
                m.D.set(s, m.db, 'open', 0 if ro else 1, ('i', 8))
            if tl:
                m.with_tag_list(s)
            s.event(ro or 'writable')
            out.append((s, ro, tl))
    return out


def frame(e, m, s, what, doc=True):
    if doc:
        e.prove(s, s.ghost['doc'] == m.doc0, '%s: the message is unchanged' % what, 'post')
    e.prove(s, s.ghost['dbh'] == m.db0, '%s: the database is unchanged' % what, 'post')
    e.prove(s, z3.Not(s.ghost['writes']), '%s: nothing is written' % what, 'post')


def edit(name, spec):
    """A function (message, tag) that changes one tag."""
    def run(ctx):
        seen = set()
        e, st, m = setup(ctx)
        tagmax = 200
        for s0, ro, tl in starts(e, m, st):
            for null in (False, True):
                s1 = s0.fork()
                tag = NULL if null else new_sym_str(e, s1, 'tag')
                T = () if null else astr(e, s1, tag)
                ln = z3.BitVecVal(0, 64) if null else bv(strs.str_len(e, s1, T))
                for s, kind, v in e.call(s1, ctx.fn(name), [m.msg, tag]):
                    if kind == 'halt':
                        continue
                    if kind != 'ret':
                        e.fail(s, '%s returns' % name, 'post')
                        continue
                    m.invariant(s, name)
                    e.prove(s, m.frozen(s) == m.frozen0, '%s: the freeze count is unchanged' % name, 'post')
                    g = s.ghost
                    v = bv(v, 32)
                    if ro:
                        frame(e, m, s, '%s on a read-only or closed database' % name)
                        e.prove(s, v == st_(e, ro), '%s on a read-only or closed database is refused' % name, 'post')
                        seen.add('ro')
                        continue
                    if null:
                        frame(e, m, s, '%s of no tag' % name)
                        e.prove(s, v == st_(e, 'NULL_POINTER'), '%s of no tag is refused' % name, 'post')
                        continue
                    h = m.tagged(s, T)
                    good, bad = e.branch(s, v == 0)
                    if good is not None:
                        seen.add('ok')
                        g = good.ghost
                        e.prove(good, z3.ULE(ln, tagmax), '%s: an over-long tag is refused' % name, 'post')
                        e.prove(good, on(g['doc']) == spec(on(m.doc0), h), '%s: exactly this tag is changed' % name, 'post')
                        e.prove(good, z3.Implies(m.frozen0 == 0, g['dbh'] == g['doc']), '%s: the change is stored unless frozen' % name, 'post')
                        e.prove(good, z3.Implies(m.frozen0 == 0, z3.Not(m.modified(good))), '%s: once stored, no change is pending' % name, 'post')
                        e.prove(good, z3.Implies(m.frozen0 > 0, z3.And(g['dbh'] == m.db0, z3.Not(g['writes']))), '%s: nothing is stored while frozen' % name, 'post')
                    if bad is not None:
                        seen.add('bad')
                        g = bad.ghost
                        e.prove(bad, z3.And(g['dbh'] == m.db0), '%s: a failure changes nothing in the database' % name, 'post')
                        e.prove(bad, z3.Or(on(g['doc']) == on(m.doc0), on(g['doc']) == spec(on(m.doc0), h)), '%s: a failure changes no other tag' % name, 'post')
                        e.prove(bad, z3.Or(g['threw'], z3.UGT(ln, tagmax)), '%s fails only on a database error or an over-long tag' % name, 'post')
                        e.prove(bad, z3.Implies(z3.UGT(ln, tagmax), v == st_(e, 'TAG_TOO_LONG')), '%s reports an over-long tag' % name, 'post')
        ctx.cover_any('success', 'ok' in seen)
        ctx.cover_any('failure', 'bad' in seen)
        ctx.cover_any('read-only', 'ro' in seen)
    return run


def u_all(ctx):
    name = 'notmuch_message_remove_all_tags'
    e, st, m = setup(ctx)
    seen = set()

    def templ(entry):
        return [('tags seen are removed', lambda v: z3.Implies(v.ghosts['it.seen'], z3.Not(v.ghosts['doc']))),
                ('only tags are removed', lambda v: z3.Implies(z3.Not(m.istag), v.ghosts['doc'] == m.doc0)),
                ('nothing is added', lambda v: z3.Implies(v.ghosts['doc'], m.doc0)),
                ('nothing is stored', lambda v: z3.And(v.ghosts['dbh'] == m.db0, z3.Not(v.ghosts['writes']))),
                ('no error so far', lambda v: z3.Not(v.ghosts['threw'])),
                ('cached tag list', lambda v: z3.Implies(z3.BoolVal(m.get(v.st, 'tag_list').o != 0), v.ghosts['tl'] == z3.And(m.istag, v.ghosts['doc']))),
                ('unmodified: unchanged', lambda v: z3.Implies(z3.Not(m.modified(v.st)), v.ghosts['doc'] == m.db0))]
    e.loop_templates.append(templ)
    for s0, ro, tl in starts(e, m, st):
        for s, kind, v in e.call(s0, ctx.fn(name), [m.msg]):
            if kind == 'halt':
                continue
            if kind != 'ret':
                e.fail(s, '%s returns' % name, 'post')
                continue
            m.invariant(s, name)
            e.prove(s, m.frozen(s) == m.frozen0, '%s: the freeze count is unchanged' % name, 'post')
            v = bv(v, 32)
            if ro:
                frame(e, m, s, '%s on a read-only or closed database' % name)
                e.prove(s, v == st_(e, ro), '%s on a read-only or closed database is refused' % name, 'post')
                continue
            good, bad = e.branch(s, v == 0)
            if good is not None:
                seen.add('ok')
                g = good.ghost
                e.prove(good, on(g['doc']) == z3.And(on(m.doc0), z3.Not(m.istag)), '%s: every tag and nothing else is removed' % name, 'post')
                e.prove(good, z3.Implies(m.frozen0 == 0, g['dbh'] == g['doc']), '%s: the change is stored unless frozen' % name, 'post')
                e.prove(good, z3.Implies(m.frozen0 == 0, z3.Not(m.modified(good))), '%s: once stored, no change is pending' % name, 'post')
                e.prove(good, z3.Implies(m.frozen0 > 0, z3.And(g['dbh'] == m.db0, z3.Not(g['writes']))), '%s: nothing is stored while frozen' % name, 'post')
            if bad is not None:
                seen.add('bad')
                g = bad.ghost
                e.prove(bad, g['dbh'] == m.db0, '%s: a failure changes nothing in the database' % name, 'post')
                e.prove(bad, z3.Implies(z3.Not(m.istag), g['doc'] == m.doc0), '%s: a failure changes no other term' % name, 'post')
    ctx.cover_any('success', 'ok' in seen)
    ctx.cover_any('failure', 'bad' in seen)


def u_freeze(ctx):
    e, st, m = setup(ctx)
    seen = set()
    for s0, ro, tl in starts(e, m, st):
        for s, kind, v in e.call(s0, ctx.fn('notmuch_message_freeze'), [m.msg]):
            if kind != 'ret':
                e.fail(s, 'freeze returns', 'post')
                continue
            m.invariant(s, 'freeze')
            frame(e, m, s, 'freeze')
            v = bv(v, 32)
            if ro:
                e.prove(s, z3.And(v == st_(e, ro), m.frozen(s) == m.frozen0), 'freeze on a read-only or closed database is refused', 'post')
                continue
            seen.add('ok')
            e.prove(s, z3.And(v == 0, m.frozen(s) == m.frozen0 + 1), 'freeze nests', 'post')
    ctx.cover_any('frozen', 'ok' in seen)


def u_thaw(ctx):
    e, st, m = setup(ctx)
    seen = set()
    for s0, ro, tl in starts(e, m, st):
        for s, kind, v in e.call(s0, ctx.fn('notmuch_message_thaw'), [m.msg]):
            if kind != 'ret':
                e.fail(s, 'thaw returns', 'post')
                continue
            m.invariant(s, 'thaw')
            e.prove(s, s.ghost['doc'] == m.doc0, 'thaw: the message is unchanged', 'post')
            v = bv(v, 32)
            g = s.ghost
            if ro:
                frame(e, m, s, 'thaw on a read-only or closed database')
                e.prove(s, z3.And(v == st_(e, ro), m.frozen(s) == m.frozen0), 'thaw on a read-only or closed database is refused', 'post')
                continue
            z, nz = e.branch(s, m.frozen0 == 0)
            if z is not None:
                seen.add('unbalanced')
                frame(e, m, z, 'unbalanced thaw')
                e.prove(z, z3.And(v == st_(e, 'UNBALANCED_FREEZE_THAW'), m.frozen(z) == 0), 'an unbalanced thaw is reported', 'post')
            if nz is not None:
                seen.add('thaw')
                g = nz.ghost
                e.prove(nz, m.frozen(nz) == m.frozen0 - 1, 'thaw undoes one freeze', 'post')
                e.prove(nz, z3.Implies(m.frozen0 > 1, z3.And(v == 0, g['dbh'] == m.db0, z3.Not(g['writes']))), 'an inner thaw stores nothing', 'post')
                e.prove(nz, z3.Implies(z3.And(m.frozen0 == 1, v == 0), g['dbh'] == g['doc']), 'the last thaw stores the message as changed', 'post')
                e.prove(nz, z3.Implies(z3.And(m.frozen0 == 1, v == 0), z3.Not(m.modified(nz))), 'thaw: once stored, no change is pending', 'post')
                e.prove(nz, z3.Implies(v != 0, z3.And(g['threw'], g['dbh'] == m.db0)), 'thaw fails only on a database error, storing nothing', 'post')
                e.prove(nz, z3.Implies(z3.And(m.mod0 == 0), z3.Not(g['writes'])), 'an unchanged message is not written again', 'post')
    ctx.cover_any('balanced', 'thaw' in seen)
    ctx.cover_any('unbalanced', 'unbalanced' in seen)


def u_tags(ctx):
    e, st, m = setup(ctx)
    seen = set()
    for s0, ro, tl in starts(e, m, st):
        for s, kind, v in e.call(s0, ctx.fn('notmuch_message_get_tags'), [m.msg]):
            if kind != 'ret':
                e.fail(s, 'get_tags returns', 'post')
                continue
            m.invariant(s, 'get_tags')
            frame(e, m, s, 'get_tags')
            if isinstance(v, Ptr) and v.o:
                seen.add('list')
                e.prove(s, s.ghost['it.list'] == B(z3.And(m.istag, on(s.ghost['doc']))), 'the tags listed are the tags of the message, changes not yet stored included', 'post')
    ctx.cover_any('listed', 'list' in seen)


def units(prog):
    A, R = 'notmuch_message_add_tag', 'notmuch_message_remove_tag'
    return [Unit(A, edit(A, lambda d, h: z3.Or(d, h)), [A, '_notmuch_message_add_term', '_notmuch_message_sync', '_notmuch_message_invalidate_metadata'], contract='doc := doc + tag; stored unless frozen'),
            Unit(R, edit(R, lambda d, h: z3.And(d, z3.Not(h))), [R, '_notmuch_message_remove_term'], contract='doc := doc - tag; stored unless frozen'),
            Unit('notmuch_message_remove_all_tags', u_all, ['notmuch_message_remove_all_tags'], contract='doc := doc - all tags'),
            Unit('notmuch_message_freeze', u_freeze, ['notmuch_message_freeze']),
            Unit('notmuch_message_thaw', u_thaw, ['notmuch_message_thaw']),
            Unit('notmuch_message_get_tags', u_tags, ['notmuch_message_get_tags'])]


HARNESS = r'''
static notmuch_database_t *db;
static std::string tagname (int i) { return i == 3 ? std::string (200, 'x') : i == 4 ? std::string (201, 'y') : std::string (1, 'a' + i); }
static int mask (notmuch_message_t *m) {
    int r = 0;
    for (auto &t : tagsof (m)) { int i; for (i = 0; i < 5; i++) if (t == tagname (i)) break; r |= 1 << i; }
    return r;
}
static void handle (const char *op, int n, char **arg, size_t *len) {
    if (! db) { db = mkdb ("mail"); addmsg (db, "mail", "m@x"); }
    notmuch_message_t *m, *f;
    fault_in = -1;
    notmuch_database_find_message (db, "m@x", &m);
    notmuch_message_remove_all_tags (m);
    for (int i = 0; i < 4; i++) if (atoi (arg[0]) & 1 << i) notmuch_message_add_tag (m, tagname (i).c_str ());
    notmuch_message_destroy (m);
    notmuch_database_find_message (db, "m@x", &m);
    for (const char *p = arg[1]; *p; p++) {
	int s = 0, w0 = writes, d = -1;
	if (*p == '!') { fault_in = 0; continue; }
	if (*p >= '0' && *p <= '4') s = notmuch_message_add_tag (m, tagname (*p - '0').c_str ());
	else if (*p >= 'p' && *p <= 't') s = notmuch_message_remove_tag (m, tagname (*p - 'p').c_str ());
	else if (*p == 'N') s = notmuch_message_add_tag (m, NULL);
	else if (*p == 'x') s = notmuch_message_remove_all_tags (m);
	else if (*p == 'F') s = notmuch_message_freeze (m);
	else if (*p == 'T') s = notmuch_message_thaw (m);
	else if (*p == 'G') d = mask (m);
	fault_in = -1;
	int w = writes - w0;
	notmuch_database_find_message (db, "m@x", &f);
	puti (s); puti (d); puti (mask (f)); puti (w);
	notmuch_message_destroy (f);
    }
    notmuch_message_destroy (m);
}
'''


def witness(prog, failing, tier, seed):
    """Random histories of one message against a reference model of the object."""
    import random
    from libh import LibHarness, DBPRE
    rnd = random.Random(seed)
    cases = []
    for _ in range(6000):
        al = rnd.choice(['0123pqrsxFTG', '01pqFTG', '0134prstxGN', '01pqxFTG!', '0p!FTTG', '01pqFFTTG!'])
        cases.append(['h', rnd.randrange(16), ''.join(rnd.choice(al) for _ in range(rnd.randrange(1, 12))).encode()])
    with LibHarness(DBPRE + HARNESS) as h:
        got = h.run(cases, timeout=200)
    TOO_LONG, NULLP, UNBAL = (prog.enum('NOTMUCH_STATUS_' + x) for x in ('TAG_TOO_LONG', 'NULL_POINTER', 'UNBALANCED_FREEZE_THAW'))
    for c, g in zip(cases, got):
        if g and g[0] == 'crash':
            return {'history': c[2].decode(), 'initial': c[1], 'crash': g[1]}
        doc = dbs = c[1]
        frozen = fault = 0
        docs = None            # after a failure the pending document is one of these
        docs = {doc}
        i = 0
        dirty = False
        for ch in c[2].decode():
            if ch == '!':
                fault = 1
                continue
            s, d, stored, w = g[4 * i:4 * i + 4]
            i += 1
            err = None

            def step(f):
                return {f(x) for x in docs}
            if ch == 'G':
                if d not in docs:
                    err = 'tags read %d, expected %s' % (d, docs)
                docs = {d}
                new, store = docs, False
                exp = 0
            elif ch in '0123':
                new, store, exp = step(lambda x: x | 1 << int(ch)), frozen == 0, 0
            elif ch in 'pqrs':
                new, store, exp = step(lambda x: x & ~(1 << ord(ch) - ord('p'))), frozen == 0, 0
            elif ch in '4t':
                new, store, exp = docs, False, TOO_LONG
            elif ch == 'N':
                new, store, exp = docs, False, NULLP
            elif ch == 'x':
                new, store, exp = {0}, frozen == 0, 0
            elif ch == 'F':
                frozen += 1
                new, store, exp = docs, False, 0
            elif ch == 'T':
                new, store, exp = docs, frozen == 1, 0 if frozen else UNBAL
                frozen = max(0, frozen - 1)
            if err is None:
                if store and fault and s != 0 and w:
                    if stored != dbs:
                        err = 'a failed call changed the stored tags to %d' % stored
                    docs = docs | new
                elif s != exp:
                    err = 'status %d, expected %d' % (s, exp)
                elif store and stored not in new and (w or ch != 'T'):
                    err = 'stored tags %d, expected %s' % (stored, new)
                elif store and ch == 'T' and not w and docs != {dbs} and stored not in new:
                    err = 'thaw stored nothing: tags %d, expected %s' % (stored, new)
                elif store and ch == 'T' and w and not dirty:
                    err = 'an unchanged message was written'
                elif not store and (stored != dbs or w):
                    err = 'stored tags changed to %d (%d writes)' % (stored, w)
                elif store:
                    docs = {stored}
                    dbs = stored
                else:
                    docs = new
            dirty = (dirty or ch in '0123pqrsx') and not (store and s == 0)
            fault = 0
            if err:
                return {'function': 'notmuch_message_*_tag', 'initial_tags': c[1], 'history': c[2].decode(), 'at_call': i, 'what': err,
                        'legend': '0-4 add tag, p-t remove tag, x remove all, F freeze, T thaw, G read tags, ! database error next'}
    return None

"""C12: atomic sections and revisions."""
import re
import z3
import cli
import strs
import xap
import exc as E
from sym import Ptr, NULL, FP, State, Unsupported, bv, conc
from framework import Unit
from libc import guard
from strs import new_sym_str, astr
from msg import Msg, B, ONE, ZERO

TITLE = 'Atomic sections nest and commit as one; revisions mark committed changes'
from checks.C18 import SOURCES      # noqa: E402
ASSUMPTIONS = ['Xapian: changes made inside a transaction become visible together when it is committed and are discarded otherwise; '
               'commit_transaction throws outside a transaction',
               'indexing steps called by index_file either do their work or report an error (their own contracts)']


def st_(e, n):
    v = e.prog.enum('NOTMUCH_STATUS_' + n)
    if v is None:
        raise Unsupported('enum ' + n)
    return v


class Db:
    def __init__(self, ctx):
        e = self.e = ctx.engine()
        e.merge_returns = 'exact'
        e.max_sym_iters = 0
        st = self.st = State()
        m = self.m = Msg(e, st)
        D, db = m.D, m.db
        self.n0 = e.fresh('nesting', 32)
        self.rev0 = e.fresh('revision', 64)
        self.dirty0 = e.fresh('dirty', 8)
        self.tx0 = e.fresh_bool('in transaction')
        e.assume(st, z3.And(self.n0 >= 0, self.n0 < (1 << 30), z3.ULE(self.dirty0, 1), z3.ULT(self.rev0, 1 << 52)))
        # object invariant: dirty only inside a section; a transaction runs only inside a section
        e.assume(st, z3.Implies(self.n0 == 0, z3.And(self.dirty0 == 0, z3.Not(self.tx0))))
        D.set(st, db, 'atomic_nesting', self.n0, ('i', 32))
        D.set(st, db, 'revision', self.rev0, ('i', 64))
        D.set(st, db, 'atomic_dirty', self.dirty0, ('i', 8))
        D.set(st, db, 'open', 1, ('i', 8))
        st.ghost.update({'tx': self.tx0, 'begins': z3.IntVal(0), 'commits': z3.IntVal(0), 'cancels': z3.IntVal(0)})
        C = e.contracts
        C['notmuch_database_needs_upgrade'] = guard(lambda en, s, a, ins: (en.fresh('needs_upgrade', 32),))
        C['getenv'] = guard(lambda en, s, a, ins: [(s.fork(), NULL), (s, new_sym_str(en, s, 'environment'))])
        C['atoi'] = guard(lambda en, s, a, ins: (en.fresh('atoi', 32),))
        me = self

        def own(en, s, p):
            en.prove(s, z3.BoolVal(isinstance(p, Ptr) and p.o == m.wdb.o), 'the transaction is one of this database', 'memory')

        @guard
        def begin(en, s, a, ins):
            own(en, s, a[0])
            fl = a[1] if len(a) > 1 else 1
            f = cli.truth(fl) if not isinstance(fl, bool) else z3.BoolVal(fl)
            out = [m.threw(s, xap.DBERR, 'begin_transaction')]
            en.prove(s, z3.Not(s.ghost['tx']), 'a transaction is begun only outside one', 'post')
            s.ghost['tx'] = ONE
            s.ghost['begins'] = s.ghost['begins'] + 1
            s.event('begin_transaction')
            return out + [(s, None)]

        @guard
        def commit_tx(en, s, a, ins):
            own(en, s, a[0])
            inv = s.fork()
            en.assume(inv, z3.Not(inv.ghost['tx']))
            out = [m.threw(s, xap.DBERR, 'commit_transaction'), m.threw(inv, xap.xti('InvalidOperationError'), 'commit_transaction outside a transaction')]
            en.assume(s, s.ghost['tx'])
            s.ghost['tx'] = ZERO
            s.ghost['commits'] = s.ghost['commits'] + 1
            s.event('commit_transaction')
            return out + [(s, None)]

        @guard
        def commit(en, s, a, ins):
            own(en, s, a[0])
            en.prove(s, z3.Not(s.ghost['tx']), 'the database is not flushed inside a transaction', 'post')
            out = [m.threw(s, xap.DBERR, 'commit')]
            s.event('commit')
            return out + [(s, None)]

        @guard
        def cancel(en, s, a, ins):
            s.ghost['cancels'] = s.ghost['cancels'] + 1
            s.ghost['tx'] = ZERO
            return [m.threw(s.fork(), xap.DBERR, 'cancel_transaction'), (s, None)]
        W = 'Xapian::WritableDatabase::'
        C[W + 'begin_transaction'], C[W + 'commit_transaction'], C[W + 'commit'], C[W + 'cancel_transaction'] = begin, commit_tx, commit, cancel

    def n(self, s):
        return bv(self.m.D.get(s, self.m.db, 'atomic_nesting', ('i', 32)), 32)

    def rev(self, s):
        return bv(self.m.D.get(s, self.m.db, 'revision', ('i', 64)), 64)

    def dirty(self, s):
        return cli.truth(self.m.D.get(s, self.m.db, 'atomic_dirty', ('i', 8)))

    def invariant(self, s, why):
        self.e.prove(s, z3.Implies(self.n(s) == 0, z3.And(z3.Not(self.dirty(s)), z3.Not(s.ghost['tx']))),
                     '%s: outside sections nothing is pending and no transaction runs' % why, 'invariant')

    def quiet(self, s, why):
        g = s.ghost
        self.e.prove(s, z3.And(g['begins'] == 0, g['commits'] == 0, g['cancels'] == 0), '%s: no transaction is begun or ended' % why, 'post')
        self.e.prove(s, g['tx'] == self.tx0, '%s: the transaction goes on' % why, 'post')

    def same(self, s, why, nest=None):
        self.e.prove(s, z3.And(self.rev(s) == self.rev0, self.dirty(s) == (self.dirty0 == 1)), '%s: the revision is unchanged' % why, 'post')
        if nest is not None:
            self.e.prove(s, self.n(s) == nest, '%s: nesting' % why, 'post')


def u_begin(ctx):
    d = Db(ctx)
    e, m = d.e, d.m
    seen = set()
    for ro in (False, True):
        s0 = d.st.fork()
        if ro:
            m.readonly(s0)
            e.assume(s0, z3.Not(d.tx0))
        for s, kind, v in e.call(s0, ctx.fn('notmuch_database_begin_atomic'), [m.db]):
            if kind != 'ret':
                e.fail(s, 'begin_atomic returns', 'post')
                continue
            v = bv(v, 32)
            d.invariant(s, 'begin')
            d.same(s, 'begin')
            ok, bad = e.branch(s, v == 0)
            for t in (ok, bad):
                if t is None:
                    continue
                e.prove(t, z3.And(t.ghost['commits'] == 0, t.ghost['cancels'] == 0), 'begin ends no transaction', 'post')
            if bad is not None:
                seen.add('bad')
                e.prove(bad, d.n(bad) == d.n0, 'a failed begin enters no section', 'post')
                e.prove(bad, z3.And(d.n0 == 0, z3.BoolVal(not ro)), 'begin fails only for an outermost section of a writable database', 'post')
                e.prove(bad, z3.Or(bad.ghost['threw'], v == st_(e, 'UPGRADE_REQUIRED')), 'begin fails only when the database does', 'post')
                d.quiet(bad, 'failed begin')
            if ok is not None:
                e.prove(ok, d.n(ok) == d.n0 + 1, 'begin enters one section', 'post')
                e.prove(ok, z3.Not(ok.ghost['threw']), 'a failure to begin is reported', 'post')
                if ro:
                    d.quiet(ok, 'begin on a read-only database')
                    continue
                out, inn = e.branch(ok, d.n0 == 0)
                if out is not None:
                    seen.add('outer')
                    e.prove(out, z3.And(out.ghost['tx'], out.ghost['begins'] == 1), 'the outermost begin starts a transaction', 'post')
                if inn is not None:
                    seen.add('inner')
                    d.quiet(inn, 'inner begin')
    for x in ('bad', 'outer', 'inner'):
        ctx.cover_any(x, x in seen)


def u_end(ctx):
    d = Db(ctx)
    e, m = d.e, d.m
    seen = set()
    for ro in (False, True):
        s0 = d.st.fork()
        if ro:
            m.readonly(s0)
            e.assume(s0, z3.Not(d.tx0))
        for s, kind, v in e.call(s0, ctx.fn('notmuch_database_end_atomic'), [m.db]):
            if kind != 'ret':
                e.fail(s, 'end_atomic returns', 'post')
                continue
            v = bv(v, 32)
            e.prove(s, z3.And(s.ghost['begins'] == 0, s.ghost['cancels'] == 0), 'end begins and cancels nothing', 'post')
            un, bal = e.branch(s, d.n0 == 0)
            if un is not None:
                seen.add('unbalanced')
                e.prove(un, v == st_(e, 'UNBALANCED_ATOMIC'), 'an unbalanced end is reported', 'post')
                d.same(un, 'unbalanced end', d.n0)
                d.quiet(un, 'unbalanced end')
            if bal is None:
                continue
            ok, bad = e.branch(bal, v == 0)
            if bad is not None:
                seen.add('bad')
                e.prove(bad, z3.And(bad.ghost['threw'], d.n0 == 1, z3.BoolVal(not ro)), 'end fails only if committing the outermost section fails', 'post')
                d.same(bad, 'failed end', d.n0)
            if ok is not None:
                e.prove(ok, z3.Not(ok.ghost['threw']), 'a failure to commit is reported', 'post')
                e.prove(ok, d.n(ok) == d.n0 - 1, 'end leaves one section', 'post')
                if ro:
                    d.quiet(ok, 'end on a read-only database')
                    continue
                d.invariant(ok, 'end')
                out, inn = e.branch(ok, d.n0 == 1)
                if out is not None:
                    seen.add('outer')
                    e.prove(out, z3.And(z3.Not(out.ghost['tx']), out.ghost['commits'] == 1), 'the outermost end commits the transaction', 'post')
                    e.prove(out, d.rev(out) == z3.If(d.dirty0 == 1, d.rev0 + 1, d.rev0), 'the revision goes up by one if and only if something changed in the section', 'post')
                if inn is not None:
                    seen.add('inner')
                    d.quiet(inn, 'inner end')
                    d.same(inn, 'inner end')
    for x in ('bad', 'outer', 'inner', 'unbalanced'):
        ctx.cover_any(x, x in seen)


def u_rev(ctx):
    d = Db(ctx)
    e, m = d.e, d.m
    for null in (True, False):
        s0 = d.st.fork()
        p = NULL if null else e.alloc(s0, 'cells', 8, {0: (8, NULL)}, 'uuid')
        for s, kind, v in e.call(s0, ctx.fn('notmuch_database_get_revision'), [m.db, p]):
            if kind != 'ret':
                e.fail(s, 'get_revision returns', 'post')
                continue
            e.prove(s, bv(v, 64) == d.rev0, 'get_revision reports the committed revision', 'post')
            d.same(s, 'get_revision', d.n0)
            d.quiet(s, 'get_revision')
    ctx.cover_any('called', True)


def u_sync(ctx):
    """Storing a message: its last-modified value and the revision."""
    d = Db(ctx)
    e, m = d.e, d.m
    st = d.st
    C = e.contracts
    lm = e.prog.enum('NOTMUCH_FEATURE_LAST_MOD')
    slot = e.prog.enum('NOTMUCH_VALUE_LAST_MOD')
    if lm is None or slot is None:
        raise Unsupported('LAST_MOD')
    w = m.D.width('features')
    feat = bv(m.D.get(st, m.db, 'features', ('i', 8 * w)), 8 * w)
    st.ghost.update({'lm': z3.BitVecVal(0, 64), 'stored': z3.BitVecVal(0, 64), 'n.stored': z3.IntVal(0)})

    @guard
    def ser(en, s, a, ins):
        t = a[1]
        if not isinstance(t, FP) or not isinstance(t.t, tuple) or t.t[0] != 'uitofp':
            raise Unsupported('serialised value')
        xap.setstr(en, s, a[0], new_sym_str(en, s, 'serialised'))
        s.ghost['ser'] = (a[0].o, bv(t.t[1], 64))
        return (None,)

    @guard
    def add_value(en, s, a, ins):
        if not m.is_doc(a[0]):
            raise Unsupported('another document')
        out = [m.threw(s, xap.DBERR, 'add_value')]
        if conc(a[1]) == slot:
            q = s.ghost.get('ser')
            if q is None or q[0] != a[2].o:
                raise Unsupported('last-modified value of unknown origin')
            s.ghost['lm'] = q[1]
        return out + [(s, None)]
    base = C['Xapian::WritableDatabase::replace_document']

    def replace(en, s, a, ins):
        out = base(en, s, a, ins)
        for o in out:
            if len(o) == 2:
                o[0].ghost['stored'] = o[0].ghost['lm']
                o[0].ghost['n.stored'] = o[0].ghost['n.stored'] + 1
        return out
    C['Xapian::sortable_serialise'], C['Xapian::Document::add_value'], C['Xapian::WritableDatabase::replace_document'] = ser, add_value, replace
    seen = set()
    for ro in (False, True):
        s0 = st.fork()
        if ro:
            m.readonly(s0)
        for s, kind, v in e.call(s0, ctx.fn('_notmuch_message_sync'), [m.msg]):
            if kind not in ('ret', 'throw'):
                e.fail(s, 'sync returns', 'post')
                continue
            g = s.ghost
            d.quiet(s, 'storing a message')
            e.prove(s, d.n(s) == d.n0, 'storing a message: nesting', 'post')
            has = (feat & lm) != 0
            e.prove(s, z3.Or(d.rev(s) == d.rev0, z3.And(d.n0 == 0, d.rev(s) == d.rev0 + 1)), 'the revision moves by one, and only outside sections', 'post')
            e.prove(s, z3.Implies(d.n0 == 0, z3.Not(d.dirty(s))), 'outside sections nothing stays pending', 'invariant')
            e.prove(s, z3.Implies(d.dirty0 == 1, d.dirty(s)), 'a pending change stays pending', 'post')
            if kind == 'throw':
                e.prove(s, g['n.stored'] == 0, 'a failed store stores nothing', 'post')
                seen.add('throw')
                continue
            wr = g['n.stored'] == 1
            e.prove(s, z3.Or(wr, g['n.stored'] == 0), 'stored at most once', 'post')
            e.prove(s, wr == z3.And(z3.BoolVal(not ro), m.mod0 == 1), 'a message is stored if and only if it was modified', 'post')
            t, _ = e.branch(s, z3.And(wr, has))
            if t is not None:
                seen.add('stored')
                e.prove(t, t.ghost['stored'] == d.rev0 + 1, 'a stored message carries the revision after the one reported so far', 'post')
                e.prove(t, z3.Or(d.rev(t) == d.rev0 + 1, z3.And(d.n0 > 0, d.dirty(t), d.rev(t) == d.rev0)), 'the revision of a stored message is reported at once, or when its section is committed', 'post')
            t, _ = e.branch(s, z3.Not(wr))
            if t is not None:
                seen.add('skipped')
                d.same(t, 'nothing stored')
    for x in ('throw', 'stored', 'skipped'):
        ctx.cover_any(x, x in seen)


def u_index(ctx):
    """index_file is one balanced section."""
    d = Db(ctx)
    e, m = d.e, d.m
    st = d.st
    C = e.contracts
    e.max_items = 400
    F = z3.BoolVal(False)
    st.ghost.update({'named': F, 'linked': F, 'indexed': F, 'synced': F, 'fail': F, 'new': F, 'ghostm': F, 'mfile': 0, 'dead': F, 'typed': F, 'headers': F})
    NOTFOUND, OK = (e.prog.enum('NOTMUCH_PRIVATE_STATUS_' + x) for x in ('NO_DOCUMENT_FOUND', 'SUCCESS'))
    if NOTFOUND is None or OK is None:
        raise Unsupported('private status')
    LAST = st_(e, 'LAST_STATUS')
    GHOST = e.prog.enum('NOTMUCH_MESSAGE_FLAG_GHOST')
    DUP = st_(e, 'DUPLICATE_MESSAGE_ID')
    C['notmuch_database_get_default_indexopts'] = guard(lambda en, s, a, ins: (cli.opaque(en, s, 'indexopts'),))
    cli.ignore(e, 'notmuch_indexopts_destroy')

    @guard
    def fopen(en, s, a, ins):
        bad = s.fork()
        bad.ghost['fail'] = ONE
        p = cli.opaque(en, s, 'message_file')
        s.ghost['mfile'] = p.o
        return [(bad, NULL), (s, p)]

    def failing(name, ghost=None, throws=False, msg=None):
        @guard
        def f(en, s, a, ins):
            if msg is not None:
                live(en, s, a[msg])
            out = []
            bad = s.fork()
            r = en.fresh('status', 32)
            en.assume(bad, z3.And(r != 0, r != DUP, z3.ULT(r, 64)))
            bad.ghost['fail'] = ONE
            bad.event(name + ' fails')
            out.append((bad, r))
            if throws:
                o = m.threw(s, xap.DBERR, name)
                o[0].ghost['fail'] = ONE
                out.append(o)
            s.event(name)
            if ghost:
                s.ghost[ghost] = ONE
            return out + [(s, 0)]
        return f

    def live(en, s, p):
        en.prove(s, z3.And(z3.BoolVal(isinstance(p, Ptr) and p.o == m.msg.o), z3.Not(s.ghost['dead'])), 'index_file works on the message it looked up', 'memory')

    @guard
    def headers(en, s, a, ins):
        bad = s.fork()
        r = en.fresh('status', 32)
        en.assume(bad, z3.And(r != 0, r != DUP, z3.ULT(r, 64)))
        bad.ghost['fail'] = ONE
        for p in a[1:]:
            en.store(s, p, new_sym_str(en, s, 'header'), ('ptr',), en.prog.anymod())
        return [(bad, r), (s, 0)]

    @guard
    def create(en, s, a, ins):
        out = []
        bad = s.fork()
        r = en.fresh('status', 32)
        en.assume(bad, z3.And(r != OK, r != NOTFOUND, r != DUP, z3.ULT(r, LAST)))
        bad.ghost['fail'] = ONE
        en.store(bad, a[2], r, ('i', 32), en.prog.anymod())
        out.append((bad, NULL))
        old = s.fork()
        en.store(old, a[2], OK, ('i', 32), en.prog.anymod())
        old.event('a known message')
        out.append((old, m.msg))
        en.store(s, a[2], NOTFOUND, ('i', 32), en.prog.anymod())
        s.ghost['new'] = ONE
        s.event('a new message')
        return out + [(s, m.msg)]

    @guard
    def flag(en, s, a, ins):
        live(en, s, a[0])
        if conc(a[1]) != GHOST:
            raise Unsupported('another flag')
        bad = s.fork()
        r = en.fresh('status', 32)
        en.assume(bad, z3.And(r != 0, r != DUP, z3.ULT(r, 64)))
        bad.ghost['fail'] = ONE
        g = s.fork()
        en.store(g, a[2], 1, ('i', 32), en.prog.anymod())
        g.ghost['ghostm'] = ONE
        g.event('a ghost')
        en.store(s, a[2], 0, ('i', 32), en.prog.anymod())
        return [(bad, r), (g, 0), (s, 0)]

    def mayfail(name, ghost):
        @guard
        def f(en, s, a, ins):
            live(en, s, a[0])
            o = m.threw(s, xap.DBERR, name)
            o[0].ghost['fail'] = ONE
            s.ghost[ghost] = ONE
            s.event(name)
            return [o, (s, 0 if ins is not None and ins.res else None)]
        return f

    @guard
    def sync(en, s, a, ins):
        live(en, s, a[0])
        g = s.ghost
        en.prove(s, z3.And(g['named'], g['linked'], g['indexed'], z3.Implies(z3.Or(g['new'], g['ghostm']), z3.And(g['typed'], g['headers']))),
                 'a message is stored only when it is complete', 'post')
        en.prove(s, z3.Or(d.n(s) > 0), 'a message is stored inside a section', 'post')
        o = m.threw(s, xap.DBERR, 'sync')
        o[0].ghost['fail'] = ONE
        s.ghost['synced'] = ONE
        s.event('sync')
        return [o, (s, None)]

    @guard
    def close(en, s, a, ins):
        en.prove(s, z3.BoolVal(isinstance(a[0], Ptr) and a[0].o == s.ghost['mfile'] and a[0].o != 0), 'the open message file is closed', 'memory')
        s.ghost['mfile'] = 0
        return (None,)

    @guard
    def destroy(en, s, a, ins):
        live(en, s, a[0])
        s.ghost['dead'] = ONE
        return (None,)
    C['_notmuch_message_file_open'], C['_notmuch_message_file_get_headers'] = fopen, headers
    C['_notmuch_message_create_for_message_id'], C['notmuch_message_get_flag_st'] = create, flag
    C['_notmuch_message_add_filename'] = failing('add_filename', 'named', True, 0)
    C['_notmuch_message_add_term'] = mayfail('add_term', 'typed')
    C['_notmuch_message_remove_term'] = mayfail('remove_term', 'unghost')
    C['_notmuch_database_link_message'] = failing('link_message', 'linked', True, 1)
    C['_notmuch_message_set_header_values'] = mayfail('set_header_values', 'headers')
    C['_notmuch_message_index_file'] = failing('index', 'indexed', True, 0)
    C['_notmuch_message_sync'] = sync
    C['_notmuch_message_file_close'] = close
    C['notmuch_message_destroy'] = destroy
    old_free = C['_talloc_free']
    C['_talloc_free'] = guard(lambda en, s, a, ins: (0,)) if True else old_free
    seen = set()
    for mode in ('writable', 'ro', 'closed'):
        for ret in (True, False):
            s0 = st.fork()
            s0.ghost['unghost'] = F
            if mode == 'ro':
                m.readonly(s0)
                e.assume(s0, z3.Not(d.tx0))
            if mode == 'closed':
                m.D.set(s0, m.db, 'open', 0, ('i', 8))
            p = e.alloc(s0, 'cells', 8, {0: (8, NULL)}, 'message_ret') if ret else NULL
            if ret:
                e.store(s0, p, cli.opaque(e, s0, 'garbage'), ('ptr',), e.prog.anymod())
            f = new_sym_str(e, s0, 'filename')
            for s, kind, v in e.call(s0, ctx.fn('notmuch_database_index_file'), [m.db, f, NULL, p]):
                if kind != 'ret':
                    e.fail(s, 'index_file returns', 'post')
                    continue
                g = s.ghost
                v = bv(v, 32)
                good = z3.Or(v == 0, v == DUP)
                e.prove(s, z3.BoolVal(g['mfile'] == 0), 'the message file is closed', 'post')
                out = NULL
                if ret:
                    out = e.load(s, p, ('ptr',), e.prog.anymod())
                    has = isinstance(out, Ptr) and out.o == m.msg.o
                    e.prove(s, z3.BoolVal(has or (isinstance(out, Ptr) and out.o == 0)), 'the message returned is the one indexed', 'post')
                    e.prove(s, z3.Implies(good, z3.BoolVal(has)), 'the message indexed is returned', 'post')
                    e.prove(s, z3.Implies(z3.BoolVal(has), g['synced']), 'a message is returned only if it was stored', 'post')
                    e.prove(s, z3.Implies(z3.BoolVal(has), z3.Not(g['dead'])), 'the message returned is alive', 'post')
                if mode != 'writable':
                    d.quiet(s, 'index_file on a read-only or closed database')
                    d.same(s, 'index_file on a read-only or closed database', d.n0)
                    e.prove(s, v == st_(e, 'READ_ONLY_DATABASE' if mode == 'ro' else 'CLOSED_DATABASE'), 'index_file on a read-only or closed database is refused', 'post')
                    continue
                ok, bad = e.branch(s, good)
                if ok is not None:
                    seen.add('ok')
                    g = ok.ghost
                    e.prove(ok, z3.And(g['synced'], z3.Not(g['fail'])), 'index_file succeeds only when the message is stored and nothing failed', 'post')
                    e.prove(ok, z3.Implies(z3.And(g['ghostm']), g['unghost']), 'a ghost becomes a regular message', 'post')
                    e.prove(ok, d.n(ok) == d.n0, 'index_file is balanced', 'post')
                    e.prove(ok, z3.Implies(d.n0 == 0, z3.And(g['commits'] == 1, z3.Not(g['tx']), g['begins'] == 1)), 'index_file outside a section commits its own transaction', 'post')
                    e.prove(ok, z3.Implies(d.n0 > 0, z3.And(g['commits'] == 0, g['tx'] == d.tx0)), 'index_file inside a section leaves it to the section', 'post')
                    e.prove(ok, (v == DUP) == z3.And(z3.Not(g['new']), z3.Not(g['ghostm'])), 'a known message is reported as duplicate', 'post')
                if bad is not None:
                    seen.add('bad')
                    g = bad.ghost
                    e.prove(bad, z3.Or(g['fail'], g['threw'], v == st_(e, 'UPGRADE_REQUIRED')), 'index_file fails only if a step fails', 'post')
                    e.prove(bad, z3.Implies(g['synced'], g['threw']), 'a stored message is reported as a failure only if the commit fails', 'post')
                    e.prove(bad, z3.Implies(d.n0 > 0, z3.And(d.n(bad) == d.n0, g['commits'] == 0, g['tx'] == d.tx0)), 'a failing index_file leaves the section around it as it was', 'post')
                    e.prove(bad, z3.Implies(z3.And(d.n0 == 0, d.n(bad) != 0), z3.And(g['begins'] == 1, g['threw'])), 'a failing index_file leaves a section open only if its commit failed', 'post')
    for x in ('ok', 'bad'):
        ctx.cover_any(x, x in seen)


TX = re.compile(r'Xapian::WritableDatabase::(begin_transaction|commit_transaction|cancel_transaction|commit)\b')
OWN = ('notmuch_database_begin_atomic', 'notmuch_database_end_atomic', 'notmuch_database_upgrade')


def u_frame(ctx):
    """Frame over the call graph: no public function begins, commits or cancels a transaction except through the ones above."""
    from checks.C18 import public, Acc
    prog = ctx.prog
    x = E.Exc(prog, [])
    a = Acc(x)
    ctx.engines.append(a)
    pub = [prog.fnkey(prog.mods[prog.defs[n][0]], n) for n in public(prog)]
    calls, sites = {}, {}
    for k in x.keys:
        f = x.fns[k]
        calls[k] = set()
        for b in f.order:
            for ins in f.blocks[b]:
                if ins.op not in ('call', 'invoke') or ins.a[0][0] != 'glob':
                    continue
                n = ins.a[0][1]
                if TX.match(prog.pretty(n)):
                    sites.setdefault(k, []).append((prog.pretty(n).split('(')[0], x.where(f, ins)))
                elif n in f.mod.functions or n in prog.defs:
                    calls[k].add(prog.fnkey(f.mod if n in f.mod.functions else prog.mods[prog.defs[n][0]], n))
    own = {prog.fnkey(prog.mods[prog.defs[n][0]], n) for n in OWN if n in prog.defs}
    ctx.cover_any('transaction calls', bool(sites))
    ctx.cover_any('all of begin, end and upgrade', len(own) == 3)
    for k in pub:
        if k in own:
            continue
        seen, todo = {k: None}, [k]
        bad = None
        while todo and bad is None:
            c = todo.pop()
            if c in sites:
                bad = c
                break
            for n in sorted(calls.get(c, ())):
                if n not in seen and n not in own:
                    seen[n] = c
                    todo.append(n)
        path = []
        while bad is not None and bad:
            path.append('%s %s' % (prog.pretty(bad), sites.get(bad, '')))
            bad = seen[bad]
        a.ob('%s begins or ends no transaction by itself' % prog.pretty(k).split('(')[0], 'frame', x.fns[k].mod.src, not path, path)


def units(prog):
    U = [Unit('begin_atomic', u_begin, ['notmuch_database_begin_atomic'], contract='nesting + 1; the outermost begins a transaction, or fails and changes nothing'),
         Unit('end_atomic', u_end, ['notmuch_database_end_atomic'], contract='nesting - 1; the outermost commits, then the revision; unbalanced and failing ends are reported'),
         Unit('get_revision', u_rev, ['notmuch_database_get_revision'], contract='the committed revision'),
         Unit('_notmuch_message_sync', u_sync, ['_notmuch_message_sync', '_notmuch_database_new_revision'], contract='stores the message with revision + 1, reported at once or at the end of the section'),
         Unit('index_file', u_index, ['notmuch_database_index_file'], contract='one balanced section; stored only when complete; success only when stored and committed')]
    U.append(Unit('frame', u_frame, [], contract='no public function but begin_atomic, end_atomic and upgrade begins, commits or cancels a transaction'))
    return U


HARNESS = r'''
static int tx_fault;
namespace Xapian {
void WritableDatabase::begin_transaction (bool f) {
    if (tx_fault) { tx_fault = 0; throw DatabaseError ("begin"); }
    typedef void (*F) (WritableDatabase *, bool);
    ((F) dlsym (RTLD_NEXT, "_ZN6Xapian16WritableDatabase17begin_transactionEb")) (this, f);
}
void WritableDatabase::commit_transaction () {
    if (tx_fault) { tx_fault = 0; throw DatabaseError ("commit"); }
    typedef void (*F) (WritableDatabase *);
    ((F) dlsym (RTLD_NEXT, "_ZN6Xapian16WritableDatabase18commit_transactionEv")) (this);
}
}
static int count;
static void handle (const char *op, int n, char **arg, size_t *len) {
    std::string d = "mail" + std::to_string (count++);
    tx_fault = 0; fault_in = -1;
    setenv ("XAPIAN_FLUSH_THRESHOLD", "1", 1);
    notmuch_database_t *db = mkdb (d.c_str ());
    addmsg (db, d.c_str (), "m@x");
    notmuch_message_t *m;
    int k = 0, files = 0;
    notmuch_database_find_message (db, "m@x", &m);
    puti (notmuch_database_get_revision (db, NULL));
    for (const char *p = arg[0]; *p; p++) {
	int s = 0;
	if (*p == '!') { tx_fault = 1; continue; }
	if (*p == '?') { fault_in = 0; continue; }
	if (*p == 'b') s = notmuch_database_begin_atomic (db);
	else if (*p == 'e') s = notmuch_database_end_atomic (db);
	else if (*p == 't') s = notmuch_message_add_tag (m, std::string (1, 'a' + k++).c_str ());
	else if (*p == 'i') {
	    std::string f = absp (d.c_str ()) + "/cur/f" + std::to_string (files);
	    std::ofstream (f) << "From: a@b\nMessage-ID: <f" << files++ << "@x>\nSubject: s\nDate: Thu, 1 Jan 2015 00:00:00 +0000\n\nbody\n";
	    s = notmuch_database_index_file (db, f.c_str (), NULL, NULL);
	}
	tx_fault = 0; fault_in = -1;
	puti (s); puti (notmuch_database_get_revision (db, NULL));
    }
    notmuch_message_destroy (m);
    notmuch_database_destroy (db);
    db = NULL;
    char *err = NULL;
    int s = notmuch_database_open_with_config (absp (d.c_str ()).c_str (), NOTMUCH_DATABASE_MODE_READ_ONLY, "", NULL, &db, &err);
    if (s) { puti (-1); puti (s); puti (0); return; }
    int mask = 0, fm = 0;
    notmuch_database_find_message (db, "m@x", &m);
    if (m) for (auto &t : tagsof (m)) mask |= 1 << (t[0] - 'a');
    for (int i = 0; i < files; i++) {
	notmuch_message_t *q = NULL;
	notmuch_database_find_message (db, ("f" + std::to_string (i) + "@x").c_str (), &q);
	if (q) fm |= 1 << i;
    }
    puti (m ? mask : -2); puti (fm); puti (notmuch_database_get_revision (db, NULL));
    notmuch_database_destroy (db);
}
'''


def witness(prog, failing, tier, seed):
    """Histories of sections, tag changes, indexing and failing transactions against a reference model."""
    import random
    from libh import LibHarness, DBPRE
    rnd = random.Random(seed)
    hs = ['bt!e', '!be', '!bbee', 'bbtete', 'bi!et', 'btbee', 'ebte', 'bbet', 'bib', 'btietb']
    for _ in range(220):
        al = rnd.choice(['bet', 'bbeett', 'beti', 'bbeti', 'betti!', 'bbeet!', 'bti', 'bet?'])
        hs.append(''.join(rnd.choice(al) for _ in range(rnd.randrange(1, 11))))
    with LibHarness(DBPRE + HARNESS) as h:
        got = h.run([['h', x.encode()] for x in hs], timeout=240)
    UNBAL, XE = (prog.enum('NOTMUCH_STATUS_' + x) for x in ('UNBALANCED_ATOMIC', 'XAPIAN_EXCEPTION'))
    for hist, g in zip(hs, got):
        if g and g[0] == 'crash':
            return {'history': hist, 'crash': g[1]}
        base = rev = g[0]
        nest, dirty, tx = 0, False, False
        cur, stored = [0, 0, base], [0, 0, base]
        k = f = 0
        i = 1
        fault = store = False
        err = None
        for ch in hist:
            if ch == '!':
                fault = True
                continue
            if ch == '?':
                store = True
                continue
            s, r = g[i], g[i + 1]
            i += 2
            exp = 0
            if ch == 'b':
                if nest == 0 and fault:
                    exp = XE
                else:
                    if nest == 0:
                        tx = True
                    nest += 1
            elif ch == 'e':
                if nest == 0:
                    exp = UNBAL
                elif nest == 1 and (fault or not tx):
                    exp = XE
                else:
                    nest -= 1
                    if nest == 0:
                        tx = False
                        if dirty:
                            rev += 1
                        dirty = False
                        stored = list(cur)
            elif store or (ch == 'i' and fault and nest == 0):
                break                        # what a failing store or commit leaves behind is not modelled further
            else:
                if nest:
                    dirty = True
                else:
                    rev += 1
                if ch == 't':
                    cur[0] |= 1 << k
                    k += 1
                else:
                    cur[1] |= 1 << f
                    f += 1
                cur[2] = rev + (1 if nest else 0)
                if not nest:
                    stored = list(cur)
            fault = store = False
            if s != exp:
                err = '%s returned %d, expected %d' % (ch, s, exp)
            elif r != rev:
                err = 'after %s the revision is %d, expected %d' % (ch, r, rev)
            if err:
                break
        else:
            if g[i:i + 3] != stored:
                err = 'after reopening: tags, files, revision are %s, expected %s' % (g[i:i + 3], stored)
        if err:
            return {'history': hist, 'what': err, 'legend': 'b begin, e end, t add a tag, i index a file, ! the next transaction call fails, ? the next store fails'}
    return None

"""The message object of libnotmuch for units that execute lib/message.cc: its fields at the offsets of the current
debug information, and a ghost view of its Xapian document.

U is one arbitrary term.  Ghost bits: doc (the in-memory document has U), db (the stored document has U), tl (the cached
tag list has U's tag), istag(U).  Since U is arbitrary, what is proved holds for every term, so for every tag and for
every term that is not a tag."""
import z3
import libc
import strs
import cli
import xap
from sym import Ptr, NULL, Undef, Unsupported, Obj, bv, conc
from libc import guard
from strs import astr, new_str, new_sym_str, eq, cat, lit, sym, PathDead, to_id

ONE, ZERO = z3.BoolVal(True), z3.BoolVal(False)


def B(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def on(v):
    return v


def fbool(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


class Msg:
    """One message and its database handle."""

    def __init__(self, e, st, writable=None, tags=None):
        self.e = e
        self.M = xap.Struct(e, '_notmuch_message')
        self.D = xap.Struct(e, '_notmuch_database')
        self.U = e.fresh_int('U')
        self.Utag = e.fresh_int('Utag')      # the tag of U, when U is a tag term
        self.istag = z3.Bool('U is a tag')
        self.mod = e.prog.anymod()
        D = self.D
        self.wdb = cli.opaque(e, st, 'writable_xapian_db')
        self.rdb = cli.opaque(e, st, 'xapian_db')
        self.db = e.alloc(st, 'cells', D.size, {}, 'notmuch')
        self.msg = e.alloc(st, 'cells', self.M.size, {}, 'message')
        d = {}
        for n, (o, sz) in D.f.items():
            if sz == 8:
                d[o] = (8, NULL)
            elif sz in (1, 4):
                d[o] = (sz, e.fresh(n, 8 * sz))
        for n, w in (('revision', 64), ('view', 64), ('last_doc_id', 64), ('last_thread_id', 64)):
            if n in D.f:
                d[D.off(n)] = (8, e.fresh(n, w))
        d[D.off('xapian_db')] = (8, self.rdb)
        d[D.off('writable_xapian_db')] = (8, self.wdb)
        for n in ('open', 'exception_reported', 'atomic_dirty'):
            if n in D.f and D.f[n][1] == 1:
                v = e.fresh(n, 8)
                e.assume(st, z3.ULE(v, 1))
                d[D.off(n)] = (1, v)
        st.mem[self.db.o] = st.mem[self.db.o].copy(data=d)
        m = {}
        for n, (o, sz) in self.M.f.items():
            if sz == 8:
                m[o] = (8, NULL)
            elif sz in (1, 4):
                m[o] = (sz, e.fresh(n, 8 * sz))
        for n in ('thread_depth', 'flags', 'lazy_flags', 'last_view'):
            if n in self.M.f:
                m[self.M.off(n)] = (self.M.width(n), e.fresh(n, 64))
        m[self.M.off('notmuch')] = (8, self.db)
        self.frozen0 = e.fresh('frozen', 32)
        e.assume(st, z3.And(self.frozen0 >= 0, self.frozen0 < (1 << 30)))
        m[self.M.off('frozen')] = (4, self.frozen0)
        self.mod0 = e.fresh('modified', 8)
        e.assume(st, z3.ULE(self.mod0, 1))
        m[self.M.off('modified')] = (1, self.mod0)
        st.mem[self.msg.o] = st.mem[self.msg.o].copy(data=m)
        self.doc0, self.db0 = e.fresh_bool('doc'), e.fresh_bool('db')
        st.ghost.update({'doc': self.doc0, 'dbh': self.db0, 'tl': e.fresh_bool('tl'), 'threw': ZERO, 'writes': ZERO, 'rev': ZERO})
        e.assume(st, z3.Implies(self.mod0 == 0, self.doc0 == self.db0))
        e.assume(st, z3.Implies(self.istag, self.U == to_id(cat(lit(b'K'), sym(self.Utag)))))
        self.install()

    # ---- fields
    def get(self, st, n):
        w = self.M.width(n)
        return self.M.get(st, self.msg, n, ('ptr',) if w == 8 and n not in ('thread_depth', 'flags', 'lazy_flags', 'last_view') else ('i', 8 * w))

    def frozen(self, st):
        return bv(self.get(st, 'frozen'), 32)

    def modified(self, st):
        return cli.truth(self.get(st, 'modified'))

    def readonly(self, st):
        self.D.set(st, self.db, 'writable_xapian_db', NULL, ('ptr',))

    def with_tag_list(self, st):
        self.M.set(st, self.msg, 'tag_list', cli.opaque(self.e, st, 'tag_list'), ('ptr',))
        self.e.assume(st, st.ghost['tl'] == B(z3.And(self.istag, on(st.ghost['doc']))))

    # ---- the class invariant
    def invariant(self, st, why):
        e = self.e
        e.prove(st, z3.Implies(z3.Not(self.modified(st)), st.ghost['doc'] == st.ghost['dbh']),
                '%s: a message not marked modified equals its stored document' % why, 'invariant')
        t = self.get(st, 'tag_list')
        if isinstance(t, Ptr) and t.o:
            e.prove(st, st.ghost['tl'] == B(z3.And(self.istag, on(st.ghost['doc']))), '%s: the cached tag list shows the tags of the document' % why, 'invariant')

    def hit(self, parts):
        """The string is the term U."""
        return fbool(eq(parts, sym(self.U)))

    def tagged(self, st, t):
        """U is the term of tag t (and then U is a tag)."""
        h = self.hit(cat(lit(b'K'), t))
        self.e.assume(st, z3.Implies(h, z3.And(self.istag, to_id(t) == self.Utag)))
        return h

    def threw(self, st, ty, what):
        o = xap.throw(st, ty, what)
        o[0].ghost['threw'] = ONE
        return o

    def is_doc(self, p):
        return p.o == self.msg.o and conc(p.off) == self.M.off('doc')

    # ---- contracts
    def install(self):
        e = self.e
        xap.install(e)
        cli.stdio(e)
        C = e.contracts
        M = self

        def tagof(st, s):
            """Strings added or removed as terms: whether they are U, and U being a tag follows from the prefix."""
            h = M.hit(s)
            if s and s[0][0] == 'lit' and s[0][1][:1] == b'K' and not (len(s[0][1]) > 1 and s[0][1][1:2].isupper()):
                rest = strs.norm((('lit', s[0][1][1:]),) + s[1:])
                e.assume(st, z3.Implies(h, z3.And(M.istag, to_id(rest) == M.Utag)))
            elif s and s[0][0] == 'lit' and s[0][1][:1] != b'K':
                e.assume(st, z3.Implies(h, z3.Not(M.istag)))
            return h

        @guard
        def add_term(en, st, a, ins):
            if not M.is_doc(a[0]):
                raise Unsupported('another document')
            t = xap.sstr(en, st, a[1])
            out = [M.threw(st, xap.DBERR, 'add_term')]
            h = tagof(st, t)
            st.ghost['doc'] = z3.Or(st.ghost['doc'], h)
            st.event('add_term', str(t))
            return out + [(st, None)]

        @guard
        def remove_term(en, st, a, ins):
            if not M.is_doc(a[0]):
                raise Unsupported('another document')
            t = xap.sstr(en, st, a[1])
            out = [M.threw(st, xap.DBERR, 'remove_term')]
            h = tagof(st, t)
            absent = st.fork()
            en.assume(absent, z3.Implies(h, z3.Not(absent.ghost['doc'])))
            o = xap.throw(absent, xap.INVALID, 'remove_term (absent)')
            out.append(o)
            en.assume(st, z3.Implies(h, st.ghost['doc']))
            st.ghost['doc'] = z3.And(st.ghost['doc'], z3.Not(h))
            st.event('remove_term', str(t))
            return out + [(st, None)]

        @guard
        def add_value(en, st, a, ins):
            if not M.is_doc(a[0]):
                raise Unsupported('another document')
            out = [M.threw(st, xap.DBERR, 'add_value')]
            st.event('add_value')
            return out + [(st, None)]

        @guard
        def replace(en, st, a, ins):
            en.prove(st, z3.BoolVal(a[0].o == M.wdb.o), 'the database is written through its writable handle', 'memory')
            if not M.is_doc(a[-1]):
                raise Unsupported('another document')
            did = M.get(st, 'doc_id')
            en.prove(st, bv(a[1], 32) == bv(did, 32), 'a message is stored under its own document id', 'post')
            out = [M.threw(st, xap.DBERR, 'replace_document')]
            st.ghost['dbh'] = st.ghost['doc']
            st.ghost['writes'] = ONE
            st.event('replace_document')
            return out + [(st, None)]
        C['Xapian::Document::add_term'] = C['Xapian::Document::add_boolean_term'] = add_term
        C['Xapian::Document::remove_term'] = remove_term
        C['Xapian::Document::add_value'] = add_value
        C['Xapian::WritableDatabase::replace_document'] = replace

        def internal(en, st, a, ins):
            en.fail(st, 'an internal error (abort) is unreachable', 'post')
            return []
        C['_internal_error'] = internal
        C['talloc_unlink'] = cli.any_int()
        C['_talloc_free'] = libc_free(e)
        cli.ignore(e, '_notmuch_string_list_sort')

        @guard
        def tags_list(en, st, a, ins):
            """_notmuch_database_get_terms_with_prefix with the tag prefix."""
            st.ghost['tl'] = B(z3.And(M.istag, on(st.ghost['doc'])))
            return (cli.opaque(en, st, 'tag_list'),)

        @guard
        def ensure(en, st, a, ins):
            """Makes the tag list present and current (its own unit), or throws."""
            out = [M.threw(st, xap.DBERR, 'reading the document')]
            t = M.get(st, 'tag_list')
            if t.o == 0:
                M.M.set(st, M.msg, 'tag_list', cli.opaque(en, st, 'tag_list'), ('ptr',))
                st.ghost['tl'] = B(z3.And(M.istag, on(st.ghost['doc'])))
            return out + [(st, None)]
        C['_notmuch_message_ensure_metadata'] = ensure

        @guard
        def tags_create(en, st, a, ins):
            """An iterator over a tag list: seen: U's tag has been returned and passed; cur: it is the current one."""
            t = M.get(st, 'tag_list')
            en.prove(st, z3.BoolVal(isinstance(a[1], Ptr) and a[1].o != 0 and a[1].o == t.o), 'the iterator is over the tags of the message', 'post')
            st.ghost.update({'it.list': st.ghost['tl'], 'it.seen': ZERO, 'it.cur': None, 'it': 1})
            return [(st.fork(), NULL), (st, cli.opaque(en, st, 'tags'))]
        C['_notmuch_tags_create'] = tags_create
        C['_talloc_reference_loc'] = C['talloc_reference'] = lambda en, st, a, ins: [(st.fork(), NULL), (st, a[1])]

        @guard
        def tags_valid(en, st, a, ins):
            g = st.ghost
            if a[0].o == 0:
                return (0,)
            if 'it' not in g:
                raise Unsupported('tags iterator')
            end = st.fork()
            en.assume(end, z3.Implies(g['it.list'], g['it.seen']))
            end.event('no more tags')
            if g['it.cur'] is None:
                x = new_sym_str(en, st, 'tag', True)
                t = astr(en, st, x)
                en.assume(st, z3.ULE(strs.slen(t[0][1]), 244))
                h = M.tagged(st, t)
                en.assume(st, z3.Implies(h, z3.And(g['it.list'], z3.Not(g['it.seen']))))
                st.ghost['it.cur'] = x
            st.event('another tag')
            return [(end, 0), (st, 1)]

        @guard
        def tags_get(en, st, a, ins):
            if st.ghost.get('it.cur') is None:
                raise Unsupported('tags_get without tags_valid')
            return (st.ghost['it.cur'],)

        @guard
        def tags_next(en, st, a, ins):
            x = st.ghost.get('it.cur')
            if x is None:
                raise Unsupported('move_to_next without tags_valid')
            h = M.tagged(st, astr(en, st, x))
            st.ghost['it.seen'] = z3.Or(st.ghost['it.seen'], h)
            st.ghost['it.cur'] = None
            return (None,)
        C['notmuch_tags_valid'], C['notmuch_tags_get'], C['notmuch_tags_move_to_next'] = tags_valid, tags_get, tags_next


def libc_free(e):
    old = e.contracts.get('_talloc_free') or e.contracts.get('talloc_free')

    def f(en, st, a, ins):
        p = a[0]
        if isinstance(p, Ptr) and p.o and p.o in st.mem and st.mem[p.o].kind == 'opaque':
            return (0,)
        return old(en, st, a, ins)
    return f

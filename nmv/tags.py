"""Client side view of libnotmuch messages: the contracts proved for the library (C11), stated for one arbitrary tag T.

Ghost: doc (T is on the message object), dbh (T is stored), frozen (freeze depth), bad (a call failed), mdsync (flags were
synchronised to the maildir), it.* (a tag iterator).  Also the operation list: an array of arbitrary length whose i-th
entry has tag optag(i) and flag opremove(i); G(i) is what the operations from i on do to T (0 nothing, 1 add, 2 remove)."""
import z3
import cli
import strs
from sym import Ptr, NULL, Undef, Unsupported, Obj, bv, conc
from libc import guard
from strs import astr, new_str, new_sym_str, eq, sym, to_id
from xap import Struct

B64 = z3.BitVecSort(64)
optag = z3.Function('optag', B64, z3.IntSort())
opremove = z3.Function('opremove', B64, z3.BoolSort())
G = z3.Function('opsfrom', B64, z3.IntSort())


def ZB(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def index_of(eng, st, d):
    """d / 16, as the plain index variable when the offset is 16 * index without overflow."""
    i = z3.simplify(z3.LShR(d, 4))
    todo = [d]
    while todo:
        t = todo.pop()
        if t.sort() == B64 and not t.eq(d) and not z3.is_bv_value(t):
            r, _ = eng._check(st.pc + [t != i])
            if r == z3.unsat:
                return t
        todo += t.children()
    return i


def field_of(eng, st, off, size, offs):
    """Which field of an array element a symbolic offset addresses: (index, field offset)."""
    off = bv(off)
    for f in offs:
        d = z3.simplify(off - f)
        lo = z3.simplify(z3.Extract(3, 0, d)) if size == 16 else None
        if lo is not None and z3.is_bv_value(lo):
            if lo.as_long() == 0:
                return index_of(eng, st, d), f
            continue
        r, _ = eng._check(st.pc + [z3.URem(d, z3.BitVecVal(size, 64)) != 0])
        if r == z3.unsat:
            return z3.simplify(z3.UDiv(d, z3.BitVecVal(size, 64))), f
    raise Unsupported('access to an array element at an unknown field')


class Ops:
    """The operation list object."""

    def __init__(self, e, st, T=None, stores=False):
        self.e = e
        self.S = Struct(e, '_tag_op_list_t')
        self.el = Struct(e, '_tag_operation_t')
        if self.el.size != 16:
            raise Unsupported('tag operation layout')
        self.T = T
        self.n = e.fresh('count', 64)
        self.size = e.fresh('size', 64)
        e.assume(st, z3.And(z3.ULE(self.n, self.size), z3.ULT(self.size, 1 << 30), z3.UGT(self.size, 0)))
        me = self

        def lazy(eng, s, p, rt):
            off = p.off if isinstance(p, Ptr) else p
            i, f = field_of(eng, s, off, 16, [me.el.off('tag'), me.el.off('remove')])
            eng.prove(s, z3.ULT(i, bv(s.ghost.get('ops.n', me.n), 64)), 'an operation within the list is read', 'memory')
            me.axiom(s, i)
            if f == me.el.off('tag'):
                k = 'op!%s' % z3.simplify(i).sexpr()
                q = s.ghost.get(k)
                return new_str(eng, s, sym(optag(i)), 'optag')
            return z3.If(opremove(i), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if rt[0] == 'i' and rt[1] == 8 else opremove(i)

        def store(eng, s, p, rt, v):
            i, f = field_of(eng, s, p.off, 16, [me.el.off('tag'), me.el.off('remove')])
            eng.prove(s, z3.ULT(i, bv(s.ghost.get('ops.cap', me.size), 64)), 'an operation is written within the array', 'memory')
            s.ghost['ops.%s' % ('tag' if f == me.el.off('tag') else 'rem')] = (i, v)
            return True
        meta = {'store': store, 'type': 'ops'} if stores else {'type': 'ops'}
        i = e.newid()
        st.mem[i] = Obj('lazy', None, None, 'ops', lazy=lazy, meta=meta)
        self.arr = Ptr(i, 0)
        self.list = e.alloc(st, 'cells', self.S.size, {}, 'tag_ops')
        self.S.set(st, self.list, 'ops', self.arr, ('ptr',))
        self.S.set(st, self.list, 'count', self.n, ('i', 64))
        self.S.set(st, self.list, 'size', self.size, ('i', 64))
        if T is not None:
            e.assume(st, G(self.n) == 0)
            self.axiom(st, z3.BitVecVal(0, 64))

    def axiom(self, s, i):
        """The definition of G at i, for i in the list."""
        if self.T is None:
            return
        op = z3.If(optag(i) == self.T, z3.If(opremove(i), 2, 1), 0)
        self.e.assume(s, z3.And(G(i + 1) >= 0, G(i + 1) <= 2, G(i) >= 0, G(i) <= 2))
        Z = z3.BitVecVal(0, 64)
        for k in (i, i + 1):     # lemma: an operation with nothing after it on the tag decides (proved in its own unit)
            self.e.assume(s, z3.Implies(z3.And(z3.ULE(k, self.n), G(k) != 0), G(Z) == G(k)))
        self.e.assume(s, z3.Implies(z3.ULT(i, self.n), G(i) == z3.If(G(i + 1) != 0, G(i + 1), op)))

    def fin(self, base, i):
        return z3.If(G(i) == 1, z3.BoolVal(True), z3.If(G(i) == 2, z3.BoolVal(False), base))


class Message:
    """Contracts of the notmuch_message_* calls clients make."""

    def __init__(self, e, st):
        self.e = e
        self.T = e.fresh_int('T')
        e.assume(st, self.T != 0)
        self.msg = cli.opaque(e, st, 'message')
        self.doc0 = e.fresh_bool('doc')
        self.frozen0 = e.fresh('frozen', 32)
        self.db0 = e.fresh_bool('db')
        e.assume(st, z3.And(self.frozen0 >= 0, self.frozen0 < (1 << 30), z3.Implies(self.frozen0 == 0, self.db0 == self.doc0)))
        st.ghost.update({'doc': self.doc0, 'dbh': self.db0, 'frozen': self.frozen0, 'bad': z3.BoolVal(False), 'mdsync': z3.BoolVal(False), 'wrote': z3.BoolVal(False), 'mdbad': z3.BoolVal(False)})
        C = e.contracts
        me = self
        cli.stdio(e)
        for n in ('notmuch_message_get_message_id', 'notmuch_status_to_string'):
            C[n] = guard(lambda en, st, a, ins: (new_sym_str(en, st, 'text'),))
        for n in ('llvm.va_start', 'llvm.va_end', 'llvm.va_start.p0', 'llvm.va_end.p0'):
            C[n] = lambda en, st, a, ins: (None,)

        def err(st, what):
            s = st.fork()
            r = e.fresh('status', 32)
            e.assume(s, z3.And(r != 0, z3.ULT(r, 64)))
            s.ghost['bad'] = z3.BoolVal(True)
            s.event(what + ' fails')
            return s, r

        def edit(f, what):
            @guard
            def g(en, st, a, ins):
                me.own(en, st, a[0])
                h = me.hit(en, st, a[1]) if len(a) > 1 else None
                bad, r = err(st, what)
                # a failure leaves the stored tags alone; the object may or may not show the change
                c = e.fresh_bool('shown')
                bad.ghost['doc'] = z3.If(c, ZB(f(bad.ghost['doc'], h)), bad.ghost['doc'])
                st.ghost['doc'] = ZB(f(st.ghost['doc'], h))
                st.ghost['dbh'] = z3.If(st.ghost['frozen'] == 0, st.ghost['doc'], st.ghost['dbh'])
                st.ghost['wrote'] = z3.BoolVal(True)
                st.event(what)
                return [(bad, r), (st, 0)]
            return g
        C['notmuch_message_add_tag'] = edit(lambda d, h: z3.Or(d, h), 'add_tag')
        C['notmuch_message_remove_tag'] = edit(lambda d, h: z3.And(d, z3.Not(h)), 'remove_tag')
        C['notmuch_message_remove_all_tags'] = edit(lambda d, h: False, 'remove_all_tags')

        @guard
        def freeze(en, st, a, ins):
            me.own(en, st, a[0])
            bad, r = err(st, 'freeze')
            st.ghost['frozen'] = st.ghost['frozen'] + 1
            return [(bad, r), (st, 0)]

        @guard
        def thaw(en, st, a, ins):
            me.own(en, st, a[0])
            en.prove(st, st.ghost['frozen'] > 0, 'a thaw matches a freeze', 'post')
            bad, r = err(st, 'thaw')
            for s in (bad, st):
                s.ghost['frozen'] = s.ghost['frozen'] - 1
            st.ghost['dbh'] = z3.If(st.ghost['frozen'] == 0, st.ghost['doc'], st.ghost['dbh'])
            return [(bad, r), (st, 0)]

        @guard
        def sync(en, st, a, ins):
            me.own(en, st, a[0])
            bad, r = err(st, 'tags_to_maildir_flags')
            bad.ghost['mdbad'] = z3.BoolVal(True)
            for s in (bad, st):
                s.ghost['mdsync'] = z3.BoolVal(True)
                s.ghost['md.doc'] = s.ghost['doc']
                s.ghost['md.frozen'] = s.ghost['frozen']
            return [(bad, r), (st, 0)]
        C['notmuch_message_freeze'], C['notmuch_message_thaw'], C['notmuch_message_tags_to_maildir_flags'] = freeze, thaw, sync

        @guard
        def get_tags(en, st, a, ins):
            me.own(en, st, a[0])
            st.ghost.update({'it.list': st.ghost['doc'], 'it.seen': z3.BoolVal(False), 'it.cur': None})
            bad = st.fork()
            bad.event('get_tags fails')
            return [(bad, NULL), (st, cli.opaque(en, st, 'tags'))]
        C['notmuch_message_get_tags'] = get_tags
        self.iterator()

    def own(self, en, st, p):
        if not isinstance(p, Ptr) or p.o != self.msg.o:
            raise Unsupported('another message')

    def hit(self, en, st, p):
        return ZB(eq(astr(en, st, p), sym(self.T)))

    def iterator(self):
        me = self
        C = self.e.contracts

        @guard
        def valid(en, st, a, ins):
            if a[0].o == 0:
                return (0,)
            g = st.ghost
            end = st.fork()
            en.assume(end, z3.Implies(g['it.list'], g['it.seen']))
            end.event('no more tags')
            if g['it.cur'] is None:
                x = new_sym_str(en, st, 'tag', True)
                h = me.hit(en, st, x)
                en.assume(st, z3.Implies(h, z3.And(g['it.list'], z3.Not(g['it.seen']))))
                st.ghost['it.cur'] = x
            st.event('another tag')
            return [(end, 0), (st, 1)]

        @guard
        def get(en, st, a, ins):
            if a[0].o == 0:
                return (NULL,)
            if st.ghost.get('it.cur') is None:
                raise Unsupported('tags_get without tags_valid')
            return (st.ghost['it.cur'],)

        @guard
        def nxt(en, st, a, ins):
            x = st.ghost.get('it.cur')
            if x is None:
                raise Unsupported('move_to_next without tags_valid')
            st.ghost['it.seen'] = z3.Or(st.ghost['it.seen'], me.hit(en, st, x))
            st.ghost['it.cur'] = None
            return (None,)

        def destroy(en, st, a, ins):
            st.ghost['it.cur'] = None
            return (None,)
        C['notmuch_tags_valid'], C['notmuch_tags_get'], C['notmuch_tags_move_to_next'], C['notmuch_tags_destroy'] = valid, get, nxt, destroy

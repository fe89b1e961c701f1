"""Contracts shared by the dump units: the gz output stream as a monitor of text, hex encoding into a reused buffer."""
import z3
import cli
import libc
import strs
from sym import Ptr, NULL, Unsupported, bv, conc
from libc import guard, fmt_of
from strs import astr, new_str, new_sym_str, sym, to_id

hexenc = z3.Function('hexenc', z3.IntSort(), z3.IntSort())
boolterm = z3.Function('boolterm', z3.IntSort(), z3.IntSort(), z3.IntSort())
F, T_ = z3.BoolVal(False), z3.BoolVal(True)


class Out:
    """The output: ch(s, c, ph) and atom(s, x, ph) return (next phase, allowed) for a literal character / a string."""

    def __init__(self, e, st, out, ch, atom):
        self.e, self.out, self.ch, self.atom = e, out, ch, atom
        st.ghost.update({'ph': z3.BitVecVal(0, 32), 'bad': F})
        C = e.contracts
        me = self

        def put(s, p, parts):
            if not isinstance(p, Ptr) or p.o != out.o:
                e.fail(s, 'text is written to the output', 'post')
                raise libc.PathDead()
            b = s.fork()
            b.ghost['bad'] = T_
            r = e.fresh('gzbytes', 32)
            e.assume(b, r <= 0)
            me.feed(s, parts)
            n = e.fresh('gzbytes', 32)
            e.assume(s, n > 0)
            return [(b, r), (s, n)]

        @guard
        def gzprintf(en, s, a, ins):
            return put(s, a[0], libc.format_str(en, s, fmt_of(en, s, a[1]), a[2:]))

        @guard
        def gzputs(en, s, a, ins):
            return put(s, a[0], astr(en, s, a[1]))

        @guard
        def gzputc(en, s, a, ins):
            c = conc(a[1])
            if not isinstance(c, int):
                raise Unsupported('computed character written')
            return put(s, a[0], strs.lit(bytes([c & 255])))

        @guard
        def gzwrite(en, s, a, ins):
            p = astr(en, s, a[1])
            n = conc(a[2])
            if strs.is_lit(p) and isinstance(n, int):
                return put(s, a[0], strs.lit(strs.lit_val(p)[:n]))
            l = strs.str_len(en, s, p)
            en.prove(s, bv(l, 64) == z3.ZeroExt(32, bv(a[2], 32)), 'the whole text is written', 'post')
            return put(s, a[0], p)
        C['gzprintf'], C['gzputs'], C['gzputc'], C['gzwrite'] = gzprintf, gzputs, gzputc, gzwrite
        C['gzerror'] = C['gzerror_str'] = C['strerror'] = guard(lambda en, st, a, ins: (new_sym_str(en, st, 'text'),))

    def feed(self, s, parts):
        for p in parts:
            if p[0] == 'lit':
                for c in p[1]:
                    self.step(s, chr(c), self.ch(s, chr(c), s.ghost['ph']))
            else:
                self.step(s, 'text', self.atom(s, p[1], s.ghost['ph']))

    def step(self, s, what, r):
        nxt, ok = r
        self.e.prove(s, ok, 'the output has the format of a dump (%s)' % repr(what)[1:-1], 'post')
        self.e.assume(s, ok)
        s.ghost['ph'] = z3.simplify(nxt)


def table(t):
    """{phase: {char: next}} as a ch function."""
    def ch(s, c, ph):
        nxt, ok = z3.BitVecVal(99, 32), []
        for a, m in t.items():
            if c in m:
                ok.append(ph == a)
                nxt = z3.If(ph == a, z3.BitVecVal(m[c], 32), nxt)
        return nxt, z3.Or(ok) if ok else F
    return ch


def encoders(e, st, fail_ghost='bad'):
    """hex_encode and make_boolean_term into *out: C01, C02."""
    C = e.contracts

    def into(en, s, p, szp, parts):
        b = s.fork()
        b.ghost[fail_ghost] = T_
        c = s.mem[p.o].data.get(conc(p.off)) if p.o in s.mem and s.mem[p.o].kind == 'cells' else None
        if c is not None and isinstance(c[1], Ptr) and c[1].o in s.mem and s.mem[c[1].o].kind == 'str':
            s.mem[c[1].o] = s.mem[c[1].o].copy(live=False)      # the buffer is reused: what it held is gone
        q = new_str(en, s, parts, 'buffer')
        en.store(s, p, q, ('ptr',), en.prog.anymod())
        en.store(s, szp, en.fresh('size', 64), ('i', 64), en.prog.anymod())
        r = en.fresh('encstatus', 32)
        en.assume(b, r != 0)
        return [(b, r), (s, 0)]

    def notnull(en, s, p):
        if isinstance(p, Ptr) and p.o == 0:
            en.fail(s, 'text that could not be read is not encoded', 'post')
            raise libc.PathDead()

    @guard
    def hexe(en, s, a, ins):
        notnull(en, s, a[1])
        return into(en, s, a[2], a[3], sym(hexenc(to_id(astr(en, s, a[1])))))

    @guard
    def term(en, s, a, ins):
        notnull(en, s, a[2])
        return into(en, s, a[3], a[4], sym(boolterm(to_id(astr(en, s, a[1])), to_id(astr(en, s, a[2])))))
    C['hex_encode'], C['make_boolean_term'] = hexe, term
    cli.ignore(e, '_talloc_free')
    C['__errno_location'] = C.get('__errno_location') or guard(lambda en, s, a, ins: (libc.errno_ptr(en, s),))


def buffers(e, st):
    bp = e.alloc(st, 'cells', 8, {0: (8, NULL)}, 'buffer')
    sp = e.alloc(st, 'cells', 8, {0: (8, 0)}, 'buffer_size')
    return bp, sp


class Items:
    """An iterator over an arbitrary list; one arbitrary item X (a tuple of string ids) is tracked: 'has' says whether
    it is listed.  Names: prefix of the C functions."""

    def __init__(self, e, st, prefix, getters, X, has, getfn=None, ghost='it', destroy=None, nullable=True):
        self.e, self.X, self.has, self.g = e, X, has, ghost
        C = e.contracts
        me = self
        st.ghost.update({ghost + '.seen': F, ghost + '.cur': None, ghost + '.ended': F})
        self.lst = cli.opaque(e, st, prefix)

        def own(s, p):
            if isinstance(p, Ptr) and p.o == 0:
                e.fail(s, 'a list that could not be read is not used', 'post')
                raise libc.PathDead()
            if not isinstance(p, Ptr) or p.o != me.lst.o:
                raise Unsupported('another list')

        @guard
        def valid(en, s, a, ins):
            own(s, a[0])
            end = s.fork()
            if s.ghost[ghost + '.cur'] is not None:
                return (1,)
            en.assume(end, z3.Implies(me.has, end.ghost[ghost + '.seen']))
            end.ghost[ghost + '.ended'] = T_
            cur = tuple(en.fresh_int('item') for _ in X)
            h = me.hit(cur)
            en.assume(s, z3.Implies(h, z3.And(me.has, z3.Not(s.ghost[ghost + '.seen']))))
            s.ghost[ghost + '.cur'] = cur
            return [(end, 0), (s, 1)]

        def getter(i, can_fail):
            @guard
            def get(en, s, a, ins):
                own(s, a[0])
                c = s.ghost[ghost + '.cur']
                if c is None:
                    en.fail(s, 'an item is read only when there is one', 'post')
                    raise libc.PathDead()
                p = new_str(en, s, sym(c[i]), 'item')
                if can_fail:
                    b = s.fork()
                    b.ghost['bad'] = T_
                    return [(b, NULL), (s, p)]
                return (p,)
            return get

        @guard
        def nxt(en, s, a, ins):
            own(s, a[0])
            c = s.ghost[ghost + '.cur']
            if c is None:
                en.fail(s, 'the list is moved on only from an item', 'post')
                raise libc.PathDead()
            s.ghost[ghost + '.seen'] = z3.Or(s.ghost[ghost + '.seen'], me.hit(c))
            s.ghost[ghost + '.cur'] = None
            return (None,)
        C[prefix + '_valid'], C[prefix + '_move_to_next'] = valid, nxt
        for i, (n, f) in enumerate(getters):
            C[prefix + '_' + n] = getter(i, f)
        cli.ignore(e, prefix + '_destroy')

    def hit(self, cur):
        return z3.And([a == b for a, b in zip(cur, self.X)])

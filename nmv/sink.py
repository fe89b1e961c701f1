"""Ghost model of an output stream: every byte the code writes is fed, at once, to a monitor whose state is ghost
state of the proof.  Contracts of fputc, putc, fputs, fwrite, fprintf and friends are given in terms of it."""
import z3
import libc
import strs
from sym import Ptr, Undef, Unsupported, bv, conc
from libc import zx


class Sink:
    """Base class.  step(eng, st, c) -> list of states; c is an int or a BV8."""

    stream = None      # the monitored FILE object; None monitors every stream

    def step(self, eng, st, c):
        raise NotImplementedError

    def integer(self, eng, st, v, w, signed):
        raise Unsupported('integer written to the stream')

    def span(self, eng, st, arr, off, n):
        raise Unsupported('string of unknown length written to the stream')

    # ---- contracts
    def feed(self, eng, st, bs):
        sts = [st]
        for c in bs:
            nx = []
            for s in sts:
                nx += self.step(eng, s, c)
            sts = nx
        return sts

    def put_str(self, eng, st, p):
        lit = libc.lit_at(eng, st, p)
        if lit is not None:
            return self.feed(eng, st, list(lit))
        ob = eng.obj(st, p.o)
        if ob.kind != 'bytes':
            raise Unsupported('abstract string written to the stream')
        n = libc.c_strlen(eng, st, p)
        return self.span(eng, st, ob.data, bv(p.off), bv(n))

    def fmt(self, eng, st, f, args):
        sts = [st]
        for p in libc.format_parts(eng, st, f, args):
            nx = []
            for s in sts:
                if p[0] == 'lit':
                    nx += self.feed(eng, s, list(p[1]))
                elif p[0] == 'chr':
                    nx += self.step(eng, s, conc(z3.Extract(7, 0, bv(p[1], 32))))
                elif p[0] == 'str' and p[2] is None and not p[3]:
                    nx += self.put_str(eng, s, p[1])
                elif p[0] == 'int' and p[1] in ('d', 'i', 'u'):
                    nx += self.integer(eng, s, p[2], p[3], p[1] != 'u')
                elif p[0] == 'int' and p[1][-1] in 'xXo':
                    nx += self.digits(eng, s, p[1], p[2], p[3])
                else:
                    raise Unsupported('format conversion %r' % (p,))
            sts = nx
        return sts

    def digits(self, eng, st, spec, v, w):
        """%x/%o conversions: one path per number of digits."""
        v = bv(v, w)
        bits = 3 if spec[-1] == 'o' else 4
        flags = spec[:-1]
        zero = flags.startswith('0')
        width = int(flags or '0')
        out = []
        rest = st
        nmax = (w + bits - 1) // bits
        for nd in range(1, nmax + 1):
            if rest is None:
                break
            if nd * bits >= w:
                a, rest = rest, None
            else:
                a, rest = eng.branch(rest, z3.ULT(v, z3.BitVecVal(1 << (nd * bits), w)))
            if a is None:
                continue
            cs = []
            for d in range(nd - 1, -1, -1):
                hi = min(w - 1, bits * d + bits - 1)
                nb = z3.Extract(hi, bits * d, v)
                nb = z3.ZeroExt(8 - nb.size(), nb)
                cs.append(conc(nb + 48 if bits == 3 else libc.hex_digit(nb, spec[-1] == 'X')))
            pad = max(0, width - nd)
            cs = [48 if zero else 32] * pad + cs
            out += self.feed(eng, a, cs)
        return out

    def install(self, eng):
        def ret(sts, v=0):
            return [(s, v) for s in sts]

        def g(f):
            return libc.guard(f)

        def other(p):
            return self.stream is not None and isinstance(p, Ptr) and p.o != self.stream.o

        @g
        def fputc(e, st, a, ins):
            if other(a[1]):
                return [(st, 0)]
            c = a[0]
            c = c & 0xff if isinstance(c, int) else conc(z3.Extract(7, 0, bv(c, 32)))
            return ret(self.step(e, st, c))

        @g
        def fputs(e, st, a, ins):
            if other(a[1]):
                return [(st, 0)]
            return ret(self.put_str(e, st, a[0]))

        @g
        def fprintf(e, st, a, ins):
            if other(a[0]):
                return [(st, 0)]
            return ret(self.fmt(e, st, libc.fmt_of(e, st, a[1]), a[2:]))

        @g
        def fwrite(e, st, a, ins):
            if other(a[3]):
                return [(st, a[2])]
            n = conc(libc.mul(a[1], a[2]))
            ob = e.obj(st, a[0].o)
            if isinstance(n, int) and n <= 64:
                cs = [libc.rd(e, st, a[0], i) for i in range(n)]
                return ret(self.feed(e, st, cs), a[2])
            e.check_access_range(st, a[0], n, 'read')
            return ret(self.span(e, st, e.to_bytes(st, a[0].o).data, bv(a[0].off), bv(n)), a[2])

        for n in ('fputc', 'putc', '_IO_putc', 'fputc_unlocked', 'putc_unlocked'):
            eng.contracts[n] = fputc
        for n in ('fputs', 'fputs_unlocked'):
            eng.contracts[n] = fputs
        eng.contracts['fprintf'] = fprintf
        eng.contracts['fwrite'] = fwrite

"""C01: hex escaping is lossless and its output is made of safe characters only."""
import z3
import libc
from sym import Ptr, NULL, State, bv, conc
from framework import Unit
from loops import QInv

TITLE = 'hex escaping round-trips every byte string'
SOURCES = ['util/hex-escape.c']
ASSUMPTIONS = ['strings are shorter than 2^32 bytes', 'talloc_size/talloc_realloc return NULL or a block of the size asked for (both outcomes explored)']

B64 = z3.BitVecSort(64)


def safe(c):
    """The documented unescaped set [A-Za-z0-9@=.,_+-]."""
    return z3.Or(libc.is_alpha(c), libc.is_digit(c), *[c == ord(x) for x in '@=.,_+-'])


def C(n):
    return z3.BitVecVal(n, 64)


def enc_ok(arr, at, c):
    """The bytes of arr at `at` are the encoding of c."""
    return z3.If(safe(c), z3.Select(arr, at) == c,
                 z3.And(z3.Select(arr, at) == ord('%'), is_hexdigit_of(z3.Select(arr, at + 1), z3.LShR(c, 4)),
                        is_hexdigit_of(z3.Select(arr, at + 2), c & 15)))


def is_hexdigit_of(d, v):
    return z3.And(libc.is_xdigit(d), libc.hexval(d) == v)


def enc_len(c):
    return z3.If(safe(c), C(1), C(3))


def unit_encode(ctx, prealloc):
    e = ctx.engine()
    e.inject_oom = True
    st = State()
    inp, arr, n = libc.mk_cstr(e, st, 'in')
    tctx = e.alloc(st, 'opaque', 0, None, 'ctx')
    size0 = e.fresh('out_size', 64)
    if prealloc:
        e.assume(st, z3.ULE(size0, C(1 << 40)))
        e.assume(st, size0 != 0)
        buf = e.alloc(st, 'bytes', size0, None, 'buf')
        outp = e.alloc(st, 'cells', 8, {0: (8, buf)}, 'out')
    else:
        outp = e.alloc(st, 'cells', 8, {0: (8, NULL)}, 'out')
    osz = e.alloc(st, 'cells', 8, {0: (8, size0)}, 'out_size')
    L = z3.Function('L', B64, B64)
    k0 = z3.BitVec('k0', 64)
    e.assume(st, z3.ULT(k0, n))
    e.read_arr(st, arr, k0)
    e.assume(st, L(C(0)) == 0)
    e.assume(st, L(k0 + 1) == L(k0) + enc_len(z3.Select(arr, k0)))
    if ctx.bounded:
        # concrete unfolding: the strings are short, so every function value is determined
        e.assume(st, z3.ULE(n, C(4)))
        for i in range(6):
            e.read_arr(st, arr, C(i))
            e.assume(st, L(C(i + 1)) == L(C(i)) + enc_len(z3.Select(arr, C(i))))

    def unfold(eng, s, view):
        for k in view.runner.ivars:
            x = view.int(k)
            if x is None:
                continue
            eng.read_arr(s, arr, x)
            eng.assume(s, z3.Implies(z3.ULT(x, n), L(x + 1) == L(x) + enc_len(z3.Select(arr, x))))
            # lemma (proved in unit 'lemmas'): pieces do not overlap, and the total is at most 3n
            eng.assume(s, z3.Implies(z3.ULT(x, n), z3.ULE(L(x) + enc_len(z3.Select(arr, x)), L(n))))
            eng.assume(s, z3.And(z3.ULE(L(n), 3 * n), z3.ULE(n, L(n)), z3.Implies(z3.ULE(x, n), z3.ULE(L(x), 3 * x))))
    e.header_axioms.append(unfold)

    def templ(entry):
        r = []
        run = entry.runner
        iv = run.ivars
        for x in iv:
            r.append(('%s: L<=3x' % (x,), lambda v, x=x: None if v.int(x) is None else z3.ULE(L(v.int(x)), 3 * v.int(x))))
            r.append(('%s: x<=L' % (x,), lambda v, x=x: None if v.int(x) is None else z3.ULE(v.int(x), L(v.int(x)))))
            r.append(('%s: x<=n' % (x,), lambda v, x=x: None if v.int(x) is None else z3.ULE(v.int(x), n)))
            r.append(('%s: piece k0 ends before L(x)' % (x,), lambda v, x=x: None if v.int(x) is None else
                      z3.Implies(z3.ULT(k0, v.int(x)), z3.ULE(L(k0) + enc_len(z3.Select(arr, k0)), L(v.int(x))))))
            for o in run.modarr:
                r.append(('%s: piece k0 of the output is correct' % (x,), lambda v, x=x, o=o: None if v.int(x) is None else
                          z3.Implies(z3.ULT(k0, v.int(x)), enc_ok(v.arrs[o], L(k0), z3.Select(arr, k0)))))
            for y in iv:
                if x == y:
                    continue
                ey, ex = entry.int(y), entry.int(x)
                if ey is None or ex is None:
                    continue
                d = conc(ey - L(ex))
                r.append(('%s-L(%s) const' % (y, x), lambda v, x=x, y=y, d=d: None if v.int(x) is None or v.int(y) is None
                          else v.int(y) - L(v.int(x)) == bv(d)))
                d2 = conc(ey + L(ex))
                r.append(('%s>=L(%s)+const' % (y, x), lambda v, x=x, y=y, d=d: None if v.int(x) is None or v.int(y) is None
                          else z3.And(v.int(y) >= L(v.int(x)) + bv(d), v.int(y) <= 4 * v.int(x) + 64)))
                r.append(('%s+L(%s) const' % (y, x), lambda v, x=x, y=y, d=d2: None if v.int(x) is None or v.int(y) is None
                          else v.int(y) + L(v.int(x)) == bv(d)))
        return r
    e.loop_templates.append(templ)
    ctx.cover('precondition', e, st)
    outs = e.call(st, ctx.fn('hex_encode'), [tctx, inp, outp, osz])
    ok = oomn = 0
    for s, kind, v in outs:
        if kind != 'ret':
            e.fail(s, 'hex_encode returns', 'post')
            continue
        a, b = e.branch(s, bv(v, 32) == ctx.prog.enum('HEX_SUCCESS'))
        if a is not None:
            p = a.mem[outp.o].data[0][1]
            e.prove(a, z3.BoolVal(p.o != 0), 'success implies an output buffer', 'post')
            if p.o == 0:
                continue
            ob = e.to_bytes(a, p.o)
            out = ob.data
            e.prove(a, z3.BoolVal(conc(p.off) == 0), 'output starts at the buffer', 'post')
            e.read_arr(a, out, L(n))
            e.read_arr(a, out, L(k0))
            sz = bv(a.mem[osz.o].data[0][1])
            e.prove(a, z3.ULT(L(n), sz), 'reported size covers the encoded length and NUL', 'post')
            e.prove(a, z3.ULE(sz, bv(ob.size)), 'reported size does not exceed the allocation', 'post')
            e.prove(a, z3.Select(out, L(n)) == 0, 'output is terminated at the encoded length', 'post')
            e.prove(a, enc_ok(out, L(k0), z3.Select(arr, k0)), 'every input byte is encoded at its place', 'post')
            if ctx.cover('success', e, a) is not None:
                ok += 1
        if b is not None:
            oomn += 1
            e.prove(b, bv(v, 32) == ctx.prog.enum('HEX_OUT_OF_MEMORY'), 'only failure is out of memory', 'post')
            e.prove(b, z3.BoolVal(any(x[0] == 'oom' for x in b.log)), 'failure only when allocation failed', 'post')
        # frame: the input is untouched
        e.prove(s, z3.BoolVal(s.mem[inp.o].data.eq(arr)), 'input unchanged', 'frame')
    ctx.cover_any('a successful path', ok)
    ctx.cover_any('an out-of-memory path', oomn)


def lemmas(ctx):
    """Induction lemmas over the spec functions."""
    e = ctx.engine()
    e.where = 'lemma'
    L = z3.Function('L', B64, B64)
    K = z3.Function('K', B64, B64)
    arr = z3.Array('s', B64, z3.BitVecSort(8))
    k, i, n = z3.BitVecs('k i n', 64)
    st = State()
    # monotone: for k < i <= n: L(k)+len(k) <= L(i); induction on i, base i = k+1
    e.assume(st, z3.ULT(n, C(1 << 32)))
    s1 = st.fork()
    e.assume(s1, L(k + 1) == L(k) + enc_len(z3.Select(arr, k)))
    e.prove(s1, z3.ULE(L(k) + enc_len(z3.Select(arr, k)), L(k + 1)), 'L monotone: base', 'lemma')
    s2 = st.fork()
    e.assume(s2, z3.And(z3.ULT(k, i), z3.ULT(i, n), z3.ULE(L(k) + enc_len(z3.Select(arr, k)), L(i)), z3.ULE(L(i), 3 * i)))
    e.assume(s2, L(i + 1) == L(i) + enc_len(z3.Select(arr, i)))
    e.prove(s2, z3.And(z3.ULE(L(k) + enc_len(z3.Select(arr, k)), L(i + 1)), z3.ULE(L(i + 1), 3 * (i + 1))), 'L monotone: step', 'lemma')
    ctx.cover('lemma step hypotheses', e, s2)
    # decoding an encoding: with t the encoded text, P(k) == L(k) by induction
    t = z3.Array('t', B64, z3.BitVecSort(8))
    Pf = z3.Function('P', B64, B64)
    s3 = st.fork()
    c = z3.Select(arr, k)
    e.assume(s3, z3.And(z3.ULT(k, n), Pf(k) == L(k), enc_ok(t, L(k), c), L(k + 1) == L(k) + enc_len(c), c != 0))
    e.assume(s3, Pf(k + 1) == Pf(k) + step(t, Pf(k)))
    e.prove(s3, Pf(k + 1) == L(k + 1), 'decode positions of an encoding are the encode positions: step', 'lemma')
    e.prove(s3, good(t, Pf(k)), 'no position of an encoding is malformed', 'lemma')
    e.prove(s3, dec(t, Pf(k)) == c, 'decoding the piece gives the byte back', 'lemma')
    ctx.cover('decode lemma hypotheses', e, s3)


def esc(t, p):
    return z3.And(z3.Select(t, p) == ord('%'), libc.is_xdigit(z3.Select(t, p + 1)), libc.is_xdigit(z3.Select(t, p + 2)))


def good(t, p):
    return z3.Or(z3.Select(t, p) != ord('%'), esc(t, p))


def step(t, p):
    return z3.If(z3.Select(t, p) == ord('%'), C(3), C(1))


def dec(t, p):
    return z3.If(z3.Select(t, p) == ord('%'),
                 libc.hexval(z3.Select(t, p + 1)) * 16 + libc.hexval(z3.Select(t, p + 2)), z3.Select(t, p))


def dec_setup(ctx, e, st, arr, n, inp, useN):
    """Spec of decoding: P(k) is the input position after k output bytes; N the code-independent size bound."""
    Pf = z3.Function('P', B64, B64)
    N = z3.Function('N', B64, B64)
    k0 = z3.BitVec('k0', 64)
    e.assume(st, Pf(C(0)) == 0)
    if useN:
        e.assume(st, N(C(0)) == 1)

    def rd3(eng, s, x):
        for i in range(3):
            eng.read_arr(s, arr, x + i)

    def unfoldN(eng, s, x):
        rd3(eng, s, x)
        eng.assume(s, z3.Implies(z3.ULT(x, n), N(x + 1) == z3.If(esc(arr, x), N(x) - 1, N(x) + 1)))

    def unfoldP(eng, s, y):
        rd3(eng, s, Pf(y))
        eng.assume(s, Pf(y + 1) == Pf(y) + step(arr, Pf(y)))
    rd3(e, st, Pf(k0))
    e.assume(st, Pf(k0 + 1) == Pf(k0) + step(arr, Pf(k0)))
    if ctx.bounded:
        # concrete unfolding: the strings are short, so every function value is determined
        e.assume(st, z3.ULE(n, C(5)))
        e.assume(st, z3.ULE(k0, C(6)))
        for i in range(8):
            unfoldP(e, st, C(i))
            if useN:
                unfoldN(e, st, C(i))

    def outkeys(run):
        return [k for k in run.ivars if run.ptrobj.get(k) in run.modarr or run.ptrobj.get(k) is None]

    def inkeys(run):
        return [k for k in run.ivars if run.ptrobj.get(k) == inp.o or run.ptrobj.get(k) is None]

    def unfold(eng, s, view):
        run = view.runner
        if run.modarr:
            for k in outkeys(run):
                x = view.int(k)
                if x is not None:
                    unfoldP(eng, s, x)
        if useN:
            for k in inkeys(run):
                x = view.int(k)
                if x is None:
                    continue
                for i in range(3 if run.modarr else 1):
                    unfoldN(eng, s, x + i)
                # lemma (proved in unit 'lemma-size'): the size bound never shrinks from here to the end
                eng.assume(s, z3.Implies(z3.ULE(x, n), z3.ULE(N(x), N(n))))
    e.header_axioms.append(unfold)

    def templ(entry):
        r = []
        run = entry.runner

        def one(x, f):
            def g(v):
                i = v.int(x)
                return None if i is None else f(v, i)
            return g

        def two(x, y, f):
            def g(v):
                i, j = v.int(x), v.int(y)
                return None if i is None or j is None else f(i, j)
            return g
        for x in inkeys(run):
            r.append(('%s: x<=n' % (x,), one(x, lambda v, i: z3.ULE(i, n))))
            if useN:
                r.append(('%s: N bounded' % (x,), one(x, lambda v, i: z3.And(z3.ULE(N(i), i + 1)))))
        if run.modarr:
            for x in outkeys(run):
                for o in run.modarr:
                    r.append(('%s: byte k0 of the output is correct' % (x,), one(x, lambda v, i, o=o: z3.Implies(
                        z3.ULT(k0, i), z3.And(good(arr, Pf(k0)), z3.Select(v.arrs[o], k0) == dec(arr, Pf(k0)))))))
                r.append(('%s: position k0 well formed' % (x,), one(x, lambda v, i: z3.Implies(
                    z3.ULT(k0, i), z3.And(good(arr, Pf(k0)), z3.ULT(Pf(k0), n))))))
        for x in inkeys(run):
            for y in run.ivars:
                if x == y:
                    continue
                ex, ey = entry.int(x), entry.int(y)
                if ex is None or ey is None:
                    continue
                if run.modarr:
                    if y in outkeys(run):
                        r.append(('%s = P(%s)' % (x, y), two(x, y, lambda i, j: i == Pf(j))))
                        if useN:
                            r.append(('N(%s)=%s+1' % (x, y), two(x, y, lambda i, j: N(i) == j + 1)))
                elif useN:
                    d = conc(ey - N(ex))
                    r.append(('%s = N(%s)+c' % (y, x), two(x, y, lambda i, j, d=d: j == N(i) + bv(d))))
                    r.append(('%s >= N(%s)+c' % (y, x), two(x, y, lambda i, j, d=d: z3.And(j >= N(i) + bv(d), j <= 4 * i + 64))))
        return r
    e.loop_templates.append(templ)
    return Pf, N, k0


def lemma_size(ctx):
    e = ctx.engine()
    e.where = 'lemma'
    N = z3.Function('N', B64, B64)
    t = z3.Array('t', B64, z3.BitVecSort(8))
    p, n = z3.BitVecs('p n', 64)
    st = State()
    e.assume(st, z3.ULE(n, C(1 << 32)))
    nz = lambda x: z3.And(z3.Implies(z3.ULT(x, n), z3.Select(t, x) != 0), z3.Implies(x == n, z3.Select(t, x) == 0))
    for i in range(3):
        e.assume(st, nz(p + i))
        e.assume(st, z3.Implies(z3.ULT(p + i, n), N(p + i + 1) == z3.If(esc(t, p + i), N(p + i) - 1, N(p + i) + 1)))
        e.assume(st, z3.Implies(z3.ULE(p + i, n), z3.ULE(N(p + i), p + i + 1)))
    e.assume(st, z3.ULT(p, n))
    # strong induction backwards: the claim holds for p+1 and p+2
    e.assume(st, z3.Implies(z3.ULE(p + 1, n), z3.ULE(N(p + 1), N(n))))
    e.assume(st, z3.Implies(z3.ULE(p + 2, n), z3.ULE(N(p + 2), N(n))))
    e.assume(st, z3.UGE(N(p), C(1)))
    e.assume(st, z3.ULE(N(n), C(1 << 33)))
    e.prove(st, z3.ULE(N(p), N(n)), 'size bound: backward step', 'lemma')
    ctx.cover('size lemma hypotheses', e, st)


def unit_decode(ctx, mode):
    """mode: 'null' / 'prealloc' (hex_decode) or 'inplace' (hex_decode_inplace)."""
    e = ctx.engine()
    e.inject_oom = True
    st = State()
    inp, arr, n = libc.mk_cstr(e, st, 'in')
    Pf, N, k0 = dec_setup(ctx, e, st, arr, n, inp, mode != 'inplace')
    tctx = e.alloc(st, 'opaque', 0, None, 'ctx')
    size0 = e.fresh('out_size', 64)
    ctx.cover('precondition', e, st)
    if mode == 'inplace':
        outs = e.call(st, ctx.fn('hex_decode_inplace'), [inp])
    else:
        if mode == 'prealloc':
            e.assume(st, z3.ULE(size0, C(1 << 40)))
            e.assume(st, size0 != 0)
            buf = e.alloc(st, 'bytes', size0, None, 'buf')
            outp = e.alloc(st, 'cells', 8, {0: (8, buf)}, 'out')
        else:
            outp = e.alloc(st, 'cells', 8, {0: (8, NULL)}, 'out')
        osz = e.alloc(st, 'cells', 8, {0: (8, size0)}, 'out_size')
        outs = e.call(st, ctx.fn('hex_decode'), [tctx, inp, outp, osz])
    nok = nerr = 0
    m = z3.BitVec('m', 64)
    for s, kind, v in outs:
        if kind != 'ret':
            e.fail(s, 'hex_decode returns', 'post')
            continue
        code = bv(v, 32)
        a, b = e.branch(s, code == ctx.prog.enum('HEX_SUCCESS'))
        if a is not None:
            p = inp if mode == 'inplace' else a.mem[outp.o].data[0][1]
            if p.o == 0:
                e.fail(a, 'success implies an output buffer', 'post')
                continue
            ob = e.to_bytes(a, p.o)
            out = ob.data
            # the number of output bytes: the index of the final NUL store
            q = a_last_store(out)
            if q is None:
                e.fail(a, 'output is terminated', 'post', definite=False)
                continue
            e.read_arr(a, out, q)
            e.prove(a, z3.Select(out, q) == 0, 'output is terminated', 'post')
            e.prove(a, Pf(q) == n, 'the whole input is consumed', 'post')
            e.read_arr(a, out, k0)
            e.prove(a, z3.Implies(z3.ULT(k0, q), z3.And(good(arr, Pf(k0)), z3.Select(out, k0) == dec(arr, Pf(k0)))),
                    'every output byte is the decoding at its place', 'post')
            if ctx.cover('success', e, a) is not None:
                nok += 1
        if b is not None:
            nerr += 1
            c, d = e.branch(b, code == ctx.prog.enum('HEX_SYNTAX_ERROR'))
            if c is not None:
                # an error only for an input that has a malformed escape: show the decoder stands on one
                ok = z3.Or([z3.And(z3.ULT(x, n), z3.Not(good(arr, x)), x == Pf(y)) for x, y in pos_pairs(e, c, inp)] or [z3.BoolVal(False)])
                e.prove(c, ok, 'syntax error only at a malformed escape', 'post')
            if d is not None:
                e.prove(d, z3.BoolVal(mode != 'inplace' and any(x[0] == 'oom' for x in d.log)), 'failure only when allocation failed', 'post')
    ctx.cover_any('a successful path', nok)
    ctx.cover_any('an error path', nerr)


def a_last_store(arr):
    while z3.is_app_of(arr, z3.Z3_OP_STORE):
        v = conc(arr.arg(2))
        if isinstance(v, int) and v == 0:
            return arr.arg(1)
        arr = arr.arg(0)
    return None


def pos_pairs(e, s, inp):
    """Candidate (position, index) pairs: every 64-bit loop variable that occurs in the path condition."""
    vs = {}

    def walk(x, seen):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_bv(x) and x.size() == 64:
            vs[x.get_id()] = x
        for c in x.children():
            walk(c, seen)
    seen = set()
    for c in s.pc:
        walk(c, seen)
    zero = C(0)
    l = [x for x in vs.values() if '!' in x.decl().name()] + [zero]
    return [(x, y) for x in l for y in l if x is not y or x is zero]


def units(prog):
    return [
        Unit('hex_encode(out=NULL)', lambda c: unit_encode(c, False), ['hex_encode'],
             contract='for every string: success writes exactly the encoding of each byte at its place, NUL-terminated, within a buffer allocated large enough; failure only on OOM; input unchanged'),
        Unit('hex_encode(out=buffer)', lambda c: unit_encode(c, True), ['hex_encode'], contract='same, with an existing buffer of any size'),
        Unit('hex_decode(out=NULL)', lambda c: unit_decode(c, 'null'), ['hex_decode', 'hex_decode_internal'],
             contract='for every string: success iff no malformed escape, each output byte is the decoding at its place, no access outside the buffers'),
        Unit('hex_decode(out=buffer)', lambda c: unit_decode(c, 'prealloc'), ['hex_decode', 'hex_decode_internal'], contract='same, existing buffer'),
        Unit('hex_decode_inplace', lambda c: unit_decode(c, 'inplace'), ['hex_decode_inplace', 'hex_decode_internal'], contract='same, output over the input'),
        Unit('lemmas', lemmas, contract='encode lengths are monotone; decoding an encoding gives the source back (induction steps)'),
        Unit('lemma-size', lemma_size, contract='the decode size bound never shrinks towards the end'),
    ]


SAFE = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789@=.,_+-'


def o_enc(s):
    return b''.join(bytes([c]) if c in SAFE else b'%%%02x' % c for c in s)


def o_dec(s):
    out = b''
    i = 0
    while i < len(s):
        if s[i] == 0x25:
            h = s[i + 1:i + 3]
            if len(h) < 2 or any(c not in b'0123456789abcdefABCDEF' for c in h):
                return None
            out += bytes([int(h, 16)])
            i += 3
        else:
            out += s[i:i + 1]
            i += 1
    return out


def witness(prog, failing, tier, seed):
    """Replay on the real functions against the specification (exhaustive short strings, then random ones)."""
    from native import Harness, strings, jb
    code = r'''
#include "hex-escape.h"
static void handle (const char *op, int n, char **a, size_t *l)
{
    void *ctx = talloc_new (NULL);
    if (! strcmp (op, "inplace")) {
	char *s = malloc (l[0] + 1); memcpy (s, a[0], l[0] + 1);
	int r = hex_decode_inplace (s);
	puti (r); if (r == 0) puts_ (s); free (s);
    } else {
	size_t size = atol (a[1]); char *out = NULL; int r;
	if (atoi (a[2])) { out = talloc_size (ctx, size); memset (out, 'Z', size); }
	r = op[0] == 'e' ? hex_encode (ctx, a[0], &out, &size) : hex_decode (ctx, a[0], &out, &size);
	puti (r);
	if (r == 0) { puts_ (out); puti (size <= talloc_get_size (out)); puti (strlen (out) < size); }
    }
    talloc_free (ctx);
}
'''
    ss = list(strings(b'%4fFgz\x81 @', 4, 20000, seed))
    cases = []
    want = []
    for i, s in enumerate(ss):
        sz, pre = [(0, 0), (100000, 0), (1, 1), (3, 1), (len(s) + 1, 1), (200, 1)][i % 6]
        cases += [['e', s, sz, pre], ['d', s, sz, pre], ['inplace', s]]
        e, d = o_enc(s), o_dec(s)
        # a decoded NUL truncates what a C string shows
        dc = None if d is None else d.split(b'\0')[0]
        want += [[0, e, 1, 1], [1] if d is None else [0, dc, 1, 1], [1] if d is None else [0, dc]]
    for b in range(1, 256):
        s = bytes([b])
        cases.append(['e', s, 0, 0])
        want.append([0, o_enc(s), 1, 1])
    with Harness(code, ['util/hex-escape.c'], ['talloc']) as h:
        got = h.run(cases)
    for c, w, g in zip(cases, want, got):
        if g != w:
            return {'function': {'e': 'hex_encode', 'd': 'hex_decode'}.get(c[0], 'hex_decode_inplace'), 'input': jb(c[1]),
                    'buffer': c[2:], 'expected': [jb(x) for x in w], 'got': [jb(x) for x in g]}
    return None

"""C02: boolean terms (id:..., tag:..., thread:...) survive quoting and parsing."""
import z3
import libc
from sym import Ptr, NULL, State, bv, conc
from framework import Unit

TITLE = 'quoting a boolean term is lossless and injection-free'
SOURCES = ['util/string-util.c']
ASSUMPTIONS = ['terms and prefixes are shorter than 2^28 bytes (talloc_realloc takes a 32-bit count)']

B64 = z3.BitVecSort(64)
MAX = 1 << 28


def C(n):
    return z3.BitVecVal(n, 64)


def is_term(c):
    """Characters that end an unquoted term."""
    return z3.Or(z3.ULE(c, 32), c == ord(')'))


def plain(c):
    """Characters that may appear in an unquoted term."""
    return z3.And(z3.Not(is_term(c)), c != ord('"'), c != ord('('), z3.ULE(c, 127))


def qlen(c):
    return z3.If(c == ord('"'), C(2), C(1))


def piece(t, at, c):
    return z3.And(z3.Select(t, at) == c, z3.Implies(c == ord('"'), z3.Select(t, at + 1) == ord('"')))


def space(c):
    return libc.is_space(c)


def one(x, f):
    def g(v):
        i = v.int(x)
        return None if i is None else f(v, i)
    return g


def two(x, y, f):
    def g(v):
        i, j = v.int(x), v.int(y)
        return None if i is None or j is None else f(i, j)
    return g


def u_make(ctx, prealloc, prefix):
    e = ctx.engine()
    e.byte_mode = True
    e.inject_oom = True
    st = State()
    inp, arr, n = libc.mk_cstr(e, st, 'term', MAX)
    tctx = e.alloc(st, 'opaque', 0, None, 'ctx')
    if prefix:
        pre, parr, m = libc.mk_cstr(e, st, 'prefix', MAX)
        base = m + 1
    else:
        pre, parr, m = NULL, None, None
        base = C(0)
    size0 = e.fresh('len0', 64)
    if prealloc:
        e.assume(st, z3.ULE(size0, C(1 << 40)))
        buf = e.alloc(st, 'bytes', size0, None, 'buf')
        outp = e.alloc(st, 'cells', 8, {0: (8, buf)}, 'bufp')
    else:
        outp = e.alloc(st, 'cells', 8, {0: (8, NULL)}, 'bufp')
    lenp = e.alloc(st, 'cells', 8, {0: (8, size0)}, 'lenp')
    Q = z3.Function('Q', B64, B64)
    k0 = z3.BitVec('k0', 64)
    j0 = z3.BitVec('j0', 64)
    e.assume(st, z3.ULT(k0, n))
    e.read_arr(st, arr, k0)
    e.assume(st, Q(C(0)) == 0)
    e.assume(st, Q(k0 + 1) == Q(k0) + qlen(z3.Select(arr, k0)))
    if prefix:
        e.assume(st, z3.ULT(j0, m))
        e.read_arr(st, parr, j0)
    if ctx.bounded:
        e.assume(st, z3.ULE(n, C(2)))
        if prefix:
            e.assume(st, z3.ULE(m, C(1)))
        for i in range(4):
            e.read_arr(st, arr, C(i))
            e.assume(st, Q(C(i + 1)) == Q(C(i)) + qlen(z3.Select(arr, C(i))))

    def unfold(eng, s, view):
        for k in view.runner.ivars:
            x = view.int(k)
            if x is None:
                continue
            eng.read_arr(s, arr, x)
            eng.assume(s, z3.Implies(z3.ULT(x, n), Q(x + 1) == Q(x) + qlen(z3.Select(arr, x))))
            eng.assume(s, z3.Implies(z3.ULT(x, n), z3.ULE(Q(x) + qlen(z3.Select(arr, x)), Q(n))))
            eng.assume(s, z3.And(z3.ULE(Q(n), 2 * n), z3.ULE(n, Q(n)), z3.Implies(z3.ULE(x, n), z3.ULE(Q(x), 2 * x))))
    e.header_axioms.append(unfold)

    def templ(entry):
        r = []
        run = entry.runner
        for x in run.ivars:
            r.append(('%s<=n' % (x,), one(x, lambda v, i: z3.ULE(i, n))))
            r.append(('%s: Q<=2x' % (x,), one(x, lambda v, i: z3.And(z3.ULE(Q(i), 2 * i), z3.ULE(i, Q(i))))))
            r.append(('%s: only plain characters so far' % (x,), one(x, lambda v, i: z3.Implies(z3.ULT(k0, i), plain(z3.Select(arr, k0))))))
            r.append(('%s: piece k0 ends before Q(x)' % (x,), one(x, lambda v, i: z3.Implies(
                z3.ULT(k0, i), z3.ULE(Q(k0) + qlen(z3.Select(arr, k0)), Q(i))))))
            r.append(('%s: first character plain' % (x,), one(x, lambda v, i: z3.Implies(z3.ULT(C(0), i), plain(z3.Select(arr, C(0)))))))
            for w in run.ivars:
                if w != x:
                    r.append(('%s==0 or not first plain(%s)' % (w, x), two(x, w, lambda i, f: z3.Implies(z3.And(f == 0, z3.ULT(C(0), i)), plain(z3.Select(arr, C(0)))))))
                    # a flag that is only set by a character that needs quoting
                    r.append(('%s==0 or not plain(%s)' % (w, x), two(x, w, lambda i, f: z3.Implies(z3.And(f == 0, z3.ULT(k0, i)), plain(z3.Select(arr, k0))))))
            for o in run.modarr:
                r.append(('%s: piece k0 of the output is correct' % (x,), one(x, lambda v, i, o=o: z3.Implies(
                    z3.ULT(k0, i), piece(v.arrs[o], base + 1 + Q(k0), z3.Select(arr, k0))))))
                r.append(('opening quote %s' % o, one(x, lambda v, i, o=o: z3.Select(v.arrs[o], base) == ord('"'))))
                if prefix:
                    r.append(('prefix %s' % o, one(x, lambda v, i, o=o: z3.And(z3.Select(v.arrs[o], j0) == z3.Select(parr, j0),
                                                                             z3.Select(v.arrs[o], m) == ord(':')))))
            for y in run.ivars:
                if x == y:
                    continue
                ey, ex = entry.int(y), entry.int(x)
                if ey is None or ex is None:
                    continue
                d = conc(ey - Q(ex))
                r.append(('%s-Q(%s) const' % (y, x), two(x, y, lambda i, j, d=d: j - Q(i) == bv(d))))
                r.append(('%s-Q(%s) lower' % (y, x), two(x, y, lambda i, j, d=d: z3.And(j >= Q(i) + bv(d), j <= 4 * i + 64))))
        return r
    e.loop_templates.append(templ)
    ctx.cover('precondition', e, st)
    nok = noom = 0
    for s, kind, v in e.call(st, ctx.fn('make_boolean_term'), [tctx, pre, inp, outp, lenp]):
        if kind != 'ret':
            e.fail(s, 'make_boolean_term returns', 'post')
            continue
        a, b = e.branch(s, bv(v, 32) == 0)
        if b is not None:
            noom += 1
            e.prove(b, z3.BoolVal(any(x[0] == 'oom' for x in b.log)), 'failure only when allocation failed', 'post')
        if a is None:
            continue
        p = a.mem[outp.o].data[0][1]
        if p.o == 0:
            e.fail(a, 'success implies a buffer', 'post')
            continue
        ob = e.to_bytes(a, p.o)
        out = ob.data
        for x in (base, base + n, base + 1 + Q(n), base + 2 + Q(n), base + 1 + Q(k0), base + 2 + Q(k0), base + k0):
            e.read_arr(a, out, x)
        c = z3.Select(arr, k0)
        sz = bv(a.mem[lenp.o].data[0][1])
        e.prove(a, z3.ULE(sz, bv(ob.size)), 'reported size does not exceed the buffer', 'post')
        if prefix:
            e.read_arr(a, out, j0)
            e.read_arr(a, out, m)
            e.prove(a, z3.And(z3.Select(out, j0) == z3.Select(parr, j0), z3.Select(out, m) == ord(':')), 'prefix and colon come first', 'post')
        # either form
        q, u = e.branch(a, z3.Select(out, base) == ord('"'))
        if q is not None:
            e.prove(q, piece(out, base + 1 + Q(k0), c), 'quoted: every byte at its place, quotes doubled', 'post')
            e.prove(q, z3.Select(out, base + 1 + Q(n)) == ord('"'), 'quoted: closing quote after the last byte', 'post')
            e.prove(q, z3.Select(out, base + 2 + Q(n)) == 0, 'quoted: nothing after the closing quote', 'post')
            nok += ctx.cover('quoted', e, q) is not None
        if u is not None:
            e.prove(u, z3.Select(out, base + k0) == c, 'unquoted: every byte at its place', 'post')
            e.prove(u, plain(c), 'unquoted only when every character is safe', 'post')
            e.prove(u, z3.Select(out, base + n) == 0, 'unquoted: terminated after the last byte', 'post')
            nok += 1
        e.prove(s, z3.BoolVal(s.mem[inp.o].data.eq(arr)), 'input unchanged', 'frame')
    ctx.cover_any('success', nok)
    ctx.cover_any('out of memory', noom)


def u_make_empty(ctx):
    """The empty term is quoted (k0 does not exist for it)."""
    e = ctx.engine()
    e.byte_mode = True
    st = State()
    outp = e.alloc(st, 'cells', 8, {0: (8, NULL)}, 'bufp')
    lenp = e.alloc(st, 'cells', 8, {0: (8, 0)}, 'lenp')
    tctx = e.alloc(st, 'opaque', 0, None, 'ctx')
    t = e.alloc(st, 'cells', 1, {0: (1, 0)}, 'term')
    n = 0
    for s, kind, v in e.call(st, ctx.fn('make_boolean_term'), [tctx, NULL, t, outp, lenp]):
        n += 1
        e.prove(s, bv(v, 32) == 0, 'success', 'post')
        p = s.mem[outp.o].data[0][1]
        bs = [libc.rd(e, s, p, i) for i in range(3)]
        e.prove(s, z3.BoolVal(bs == [34, 34, 0]), 'the empty term becomes ""', 'post')
    ctx.cover_any('returns', n)


def lemmas(ctx):
    e = ctx.engine()
    e.where = 'lemma'
    Q = z3.Function('Q', B64, B64)
    arr = z3.Array('s', B64, z3.BitVecSort(8))
    k, i, n = z3.BitVecs('k i n', 64)
    st = State()
    e.assume(st, z3.ULT(n, C(MAX)))
    c = lambda x: z3.Select(arr, x)
    s1 = st.fork()
    e.assume(s1, Q(k + 1) == Q(k) + qlen(c(k)))
    e.prove(s1, z3.ULE(Q(k) + qlen(c(k)), Q(k + 1)), 'Q monotone: base', 'lemma')
    s2 = st.fork()
    e.assume(s2, z3.And(z3.ULT(k, i), z3.ULT(i, n), z3.ULE(Q(k) + qlen(c(k)), Q(i)), z3.ULE(Q(i), 2 * i), z3.ULE(i, Q(i)),
                        Q(i + 1) == Q(i) + qlen(c(i))))
    e.prove(s2, z3.And(z3.ULE(Q(k) + qlen(c(k)), Q(i + 1)), z3.ULE(Q(i + 1), 2 * (i + 1)), z3.ULE(i + 1, Q(i + 1))), 'Q monotone and bounded: step', 'lemma')
    ctx.cover('lemma step hypotheses', e, s2)


def parse_rig(ctx, e, st, arr, n, inp, P, start, k0, extra_unfold=None, extra_templ=None):
    """Loop templates for the de-quoting loop and the scanning loops; P(k) is the input position of output byte k."""
    k1 = z3.BitVec('k1', 64)
    e.read_arr(st, arr, k1)
    for d in range(3):
        e.read_arr(st, arr, P(k0) + d)

    def outs(run):
        return [k for k in run.ivars if run.ptrobj.get(k) in run.modarr or run.ptrobj.get(k) is None]

    def ins(run):
        return [k for k in run.ivars if run.ptrobj.get(k) == inp.o or run.ptrobj.get(k) is None]

    def unfold(eng, s, view):
        run = view.runner
        for k in run.ivars:
            x = view.int(k)
            if x is None:
                continue
            for d in range(2):
                eng.read_arr(s, arr, x + d)
            if run.modarr and k in outs(run):
                for d in range(3):
                    eng.read_arr(s, arr, P(x) + d)
                eng.assume(s, P(x + 1) == P(x) + qlen(z3.Select(arr, P(x))))
                if extra_unfold:
                    extra_unfold(eng, s, x)
    e.header_axioms.append(unfold)

    def templ(entry):
        r = []
        run = entry.runner
        for x in ins(run):
            r.append(('%s<=n' % (x,), one(x, lambda v, i: z3.ULE(i, n))))
            ex = entry.int(x)
            if ex is None:
                continue
            for nm, f in (('blank', space), ('not terminating', lambda c: z3.Not(is_term(c)))):
                r.append(('%s: only %s characters so far' % (x, nm), one(x, lambda v, i, ex=ex, f=f: z3.Implies(
                    z3.And(z3.UGE(k1, ex), z3.ULT(k1, i)), f(z3.Select(arr, k1))))))
        if run.modarr:
            for y in outs(run):
                for o in run.modarr:
                    r.append(('%s: byte k0 of the term is correct' % (y,), one(y, lambda v, j, o=o: z3.Implies(
                        z3.ULT(k0, j), z3.And(z3.Select(v.arrs[o], k0) == z3.Select(arr, P(k0)),
                                              z3.Implies(z3.Select(arr, P(k0)) == ord('"'), z3.Select(arr, P(k0) + 1) == ord('"')))))))
                if extra_templ:
                    r += extra_templ(run, y)
                for x in ins(run):
                    if x != y:
                        r.append(('%s = P(%s)' % (x, y), two(x, y, lambda i, j: i == P(j))))
                        r.append(('%s < %s' % (y, x), two(x, y, lambda i, j: z3.ULT(j, i))))
                        ey = entry.int(y)
                        ex = entry.int(x)
                        if ex is not None and ey is not None:
                            d = conc(ex - ey)
                            r.append(('%s - %s grows' % (x, y), two(x, y, lambda i, j, d=d: z3.UGE(i, j + bv(d)))))
        return r
    e.loop_templates.append(templ)
    return k1


def u_parse_any(ctx):
    """Arbitrary input: memory-safe, and what is returned is what the text denotes."""
    e = ctx.engine()
    e.byte_mode = True
    e.inject_oom = True
    st = State()
    inp, arr, n = libc.mk_cstr(e, st, 'str', MAX)
    tctx = e.alloc(st, 'opaque', 0, None, 'ctx')
    pp = e.alloc(st, 'cells', 8, {}, 'prefix_out')
    tp = e.alloc(st, 'cells', 8, {}, 'term_out')
    P = z3.Function('P', B64, B64)
    k0 = z3.BitVec('k0', 64)
    e.assume(st, P(k0 + 1) == P(k0) + qlen(z3.Select(arr, P(k0))))
    if ctx.bounded:
        e.assume(st, z3.ULE(n, C(4)))
        for i in range(5):
            for d in range(3):
                e.read_arr(st, arr, P(C(i)) + d)
            e.assume(st, P(C(i + 1)) == P(C(i)) + qlen(z3.Select(arr, P(C(i)))))
    k1 = parse_rig(ctx, e, st, arr, n, inp, P, None, k0)

    # P(0) is where the quoted text starts: one past the first quote after the colon; tied when the code finds it
    def hook(eng, s, view):
        run = view.runner
        if run.modarr:
            for x in run.ivars:
                if run.ptrobj.get(x) == inp.o and run.entry_view is not None and run.entry_view.int(x) is not None:
                    if view is run.entry_view:
                        eng.assume(s, P(C(0)) == run.entry_view.int(x))
    e.header_axioms.append(hook)
    nok = nbad = 0
    for s, kind, v in e.call(st, ctx.fn('parse_boolean_term'), [tctx, inp, pp, tp]):
        if kind != 'ret':
            e.fail(s, 'parse_boolean_term returns', 'post')
            continue
        a, b = e.branch(s, bv(v, 32) == 0)
        for x in (a, b):
            if x is None:
                continue
            e.prove(x, z3.BoolVal(x.mem[inp.o].data.eq(arr)), 'input unchanged', 'frame')
        if a is not None:
            nok += 1
            for nm, cell in (('prefix', pp), ('term', tp)):
                p = a.mem[cell.o].data[0][1]
                e.prove(a, z3.BoolVal(isinstance(p, Ptr) and p.o != 0 and e.obj(a, p.o).live), 'success gives a live %s' % nm, 'post')
        if b is not None:
            nbad += 1
    ctx.cover_any('success', nok)
    ctx.cover_any('failure', nbad)


def u_roundtrip(ctx, quoted):
    """Input = prefix ':' make_boolean_term(term): the parser gives prefix and term back."""
    e = ctx.engine()
    e.byte_mode = True
    st = State()
    inp, arr, n = libc.mk_cstr(e, st, 'str', MAX)
    tctx = e.alloc(st, 'opaque', 0, None, 'ctx')
    pp = e.alloc(st, 'cells', 8, {}, 'prefix_out')
    tp = e.alloc(st, 'cells', 8, {}, 'term_out')
    # the term and the prefix
    t = e.fresh_arr('term')
    tn = e.fresh('tn', 64)
    m = e.fresh('m', 64)
    e.assume(st, z3.ULE(tn, C(MAX)))
    libc.register_cstr(e, st, t, tn)
    e.assume(st, z3.And(z3.ULT(C(0), m), z3.ULE(m, C(MAX))))
    Q = z3.Function('Q', B64, B64)
    P = z3.Function('P', B64, B64)
    k0 = z3.BitVec('k0', 64)
    e.assume(st, Q(C(0)) == 0)

    def at(i):
        return m + 2 + Q(i)

    # definition of the text, by position of the reader
    e.add_rax(st, arr, lambda s, j: z3.Implies(z3.ULT(j, m), z3.And(z3.Select(arr, j) != ord(':'))))
    for x in (C(0), m, m + 1):
        e.read_arr(st, arr, x)
    e.assume(st, z3.Not(space(z3.Select(arr, C(0)))))
    e.assume(st, z3.Select(arr, m) == ord(':'))
    lem = lambda x: z3.And(z3.Implies(z3.ULT(x, tn), z3.ULE(Q(x) + qlen(z3.Select(t, x)), Q(tn))), z3.ULE(Q(tn), 2 * tn), z3.ULE(tn, Q(tn)),
                           z3.Implies(z3.ULE(x, tn), z3.And(z3.ULE(x, Q(x)), z3.ULE(Q(x), 2 * x))))

    def unfoldq(eng, s, x):
        eng.read_arr(s, t, x)
        for d in range(3):
            eng.read_arr(s, arr, at(x) + d)
        eng.assume(s, P(x) == at(x))
        eng.assume(s, z3.Implies(z3.ULT(x, tn), z3.And(piece(arr, at(x), z3.Select(t, x)), Q(x + 1) == Q(x) + qlen(z3.Select(t, x)))))
        eng.assume(s, P(x + 1) == at(x + 1))
        eng.assume(s, lem(x))
    if quoted:
        e.assume(st, n == m + 3 + Q(tn))
        e.assume(st, z3.Select(arr, m + 1) == ord('"'))
        e.read_arr(st, arr, m + 2 + Q(tn))
        e.read_arr(st, arr, m + 3 + Q(tn))
        e.assume(st, z3.Select(arr, m + 2 + Q(tn)) == ord('"'))
        unfoldq(e, st, C(0))
        unfoldq(e, st, tn)
        k1 = parse_rig(ctx, e, st, arr, n, inp, P, None, k0, extra_unfold=unfoldq,
                       extra_templ=lambda run, y: [('%s <= term length' % (y,), one(y, lambda v, j: z3.ULE(j, tn))),
                                                   ('byte k0 is the term\'s', one(y, lambda v, j: z3.And([z3.Implies(z3.ULT(k0, j), z3.Select(v.arrs[o], k0) == z3.Select(t, k0)) for o in run.modarr])))])
    else:
        e.assume(st, tn != 0)
        e.assume(st, n == m + 1 + tn)
        e.add_rax(st, arr, lambda s, j: z3.Implies(z3.And(z3.UGT(j, m), z3.ULT(j, n)), z3.And(
            z3.Select(arr, j) == bv(e.read_arr(s, t, j - m - 1), 8), plain(z3.Select(arr, j)))))
        k1 = parse_rig(ctx, e, st, arr, n, inp, P, None, k0)
    if ctx.bounded:
        e.assume(st, z3.And(z3.ULE(tn, C(2)), z3.ULE(m, C(1))))
        if quoted:
            for i in range(3):
                unfoldq(e, st, C(i))
    e.read_arr(st, t, k0)
    if quoted:
        unfoldq(e, st, k0)
    e.assume(st, z3.ULT(k0, tn) if not quoted else z3.Or(z3.ULT(k0, tn), tn == 0))
    k2 = z3.BitVec('k2', 64)
    e.read_arr(st, arr, k2)
    ctx.cover('precondition', e, st)
    nok = 0
    for s, kind, v in e.call(st, ctx.fn('parse_boolean_term'), [tctx, inp, pp, tp]):
        if kind != 'ret':
            e.fail(s, 'parse_boolean_term returns', 'post')
            continue
        e.prove(s, bv(v, 32) == 0, 'text made by make_boolean_term is accepted', 'post')
        if not e.feasible(s):
            continue
        nok += 1
        p = s.mem[pp.o].data[0][1]
        q = s.mem[tp.o].data[0][1]
        if not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.o and q.o):
            e.fail(s, 'prefix and term are returned', 'post')
            continue
        po, qo = e.to_bytes(s, p.o).data, e.to_bytes(s, q.o).data
        for o, x in ((po, k2), (po, m), (qo, k0), (qo, tn)):
            e.read_arr(s, o, x)
        e.prove(s, z3.Implies(z3.ULT(k2, m), z3.Select(po, k2) == z3.Select(arr, k2)), 'the prefix comes back', 'post')
        e.prove(s, z3.Select(po, m) == 0, 'the prefix ends where it ended', 'post')
        e.prove(s, z3.Implies(z3.ULT(k0, tn), z3.Select(qo, k0) == z3.Select(t, k0)), 'every byte of the term comes back', 'post')
        e.prove(s, z3.Select(qo, tn) == 0, 'the term ends where it ended', 'post')
    ctx.cover_any('success', nok)


def u_parse_accept(ctx, quoted):
    """Arbitrary input: accepted exactly when it is [blanks] prefix ':' term [blanks]."""
    e = ctx.engine()
    e.byte_mode = True
    e.proved_elsewhere = ('memory',)    # 'parse(any)' has no precondition this unit lacks
    st = State()
    inp, arr, n = libc.mk_cstr(e, st, 'str', MAX)
    tctx = e.alloc(st, 'opaque', 0, None, 'ctx')
    pp = e.alloc(st, 'cells', 8, {}, 'prefix_out')
    tp = e.alloc(st, 'cells', 8, {}, 'term_out')
    s0, m = e.fresh('s0', 64), e.fresh('m', 64)
    D = z3.Function('D', B64, z3.BitVecSort(2))     # reader state before position p: 0 in the term, 1 after a quote, 2 blanks after the term, 3 error
    a = lambda x: z3.Select(arr, x)
    e.assume(st, z3.And(z3.ULE(s0, m), z3.ULE(m, n)))
    e.add_rax(st, arr, lambda s, j: z3.And(z3.Implies(z3.ULT(j, s0), space(a(j))), z3.Implies(z3.And(z3.ULE(s0, j), z3.ULT(j, m)), a(j) != ord(':'))))
    for x in (s0, m, m + 1, C(0)):
        e.read_arr(st, arr, x)
    e.assume(st, z3.Not(space(a(s0))))
    e.assume(st, z3.Or(a(m) == ord(':'), m == n))
    q0 = m + (2 if quoted else 1)
    e.assume(st, z3.Implies(z3.ULT(m, n), (a(m + 1) == ord('"')) if quoted else (a(m + 1) != ord('"'))))
    e.assume(st, D(q0) == 0)
    b2 = lambda v: z3.BitVecVal(v, 2)

    def delta(d, c):
        q = c == ord('"')
        sp = z3.If(space(c), b2(2), b2(3))
        if quoted:
            return z3.If(d == 0, z3.If(q, b2(1), b2(0)), z3.If(d == 1, z3.If(q, b2(0), sp), z3.If(d == 2, sp, b2(3))))
        return z3.If(d == 0, z3.If(is_term(c), sp, b2(0)), z3.If(d == 2, sp, b2(3)))

    def unfold(eng, s, x):
        eng.read_arr(s, arr, x)
        eng.assume(s, z3.Implies(z3.And(z3.UGE(x, q0), z3.ULT(x, n)), D(x + 1) == delta(D(x), a(x))))
        # lemma 'accept: no way out of the error state'
        eng.assume(s, z3.Implies(z3.And(D(x) == 3, z3.ULE(x, n), z3.UGE(x, q0)), D(n) == 3))
        # lemma 'accept: states stay in range'
        if not quoted:
            eng.assume(s, z3.Implies(z3.UGE(x, q0), D(x) != 1))

    def header(eng, s, view):
        run = view.runner
        for k in run.ivars:
            x = view.int(k)
            if x is not None and (run.ptrobj.get(k) in (inp.o, None)):
                for d in range(3):
                    unfold(eng, s, x + d)
    e.header_axioms.append(header)
    for x in (q0, n):
        unfold(e, st, x)
    accept = lambda d: z3.Or(d == 1, d == 2) if quoted else z3.Or(d == 0, d == 2)

    def templ(entry):
        r = []
        run = entry.runner
        for x in run.ivars:
            if run.ptrobj.get(x) == inp.o:
                ex = entry.int(x)
                r.append(('%s<=n' % (x,), one(x, lambda v, i: z3.ULE(i, n))))
                r.append(('%s<=s0' % (x,), one(x, lambda v, i: z3.ULE(i, s0))))
                r.append(('%s>=q0' % (x,), one(x, lambda v, i: z3.UGE(i, q0))))
                for nm, f in (('in', lambda d: d == 0), ('not in error', lambda d: d != 3), ('after the term', lambda d: z3.Or(d == 1, d == 2)), ('accepting', accept)):
                    r.append(('%s: reader %s' % (x, nm), one(x, lambda v, i, f=f: f(D(i)))))
                if ex is not None:
                    r.append(('%s: reader past the term after the entry' % (x,), one(x, lambda v, i, ex=ex: z3.Or(i == bv(ex, 64), D(i) == 2))))
                    r.append(('%s>entry' % (x,), one(x, lambda v, i, ex=ex: z3.UGE(i, ex))))
        if run.modarr:
            for x in run.ivars:
                for y in run.ivars:
                    if run.ptrobj.get(x) == inp.o and run.ptrobj.get(y) in run.modarr:
                        ex, ey = entry.int(x), entry.int(y)
                        if ex is not None and ey is not None:
                            r.append(('%s - %s grows' % (x, y), two(x, y, lambda i, j, d=ex - ey: z3.UGE(i, j + bv(d)))))
        return r
    e.loop_templates.append(templ)
    if ctx.bounded:
        e.assume(st, z3.ULE(n, C(5)))
        for i in range(7):
            unfold(e, st, C(i))
    good = z3.And(z3.ULT(m, n), m != s0, accept(D(n)))
    ctx.cover('accepted text', e, st.fork_with(good) if hasattr(st, 'fork_with') else e.branch(st.fork(), good)[0])
    k2 = z3.BitVec('k2', 64)
    e.read_arr(st, arr, k2)
    nok = nbad = 0
    for s, kind, v in e.call(st, ctx.fn('parse_boolean_term'), [tctx, inp, pp, tp]):
        if kind != 'ret':
            e.fail(s, 'parse_boolean_term returns', 'post')
            continue
        ok, bad = e.branch(s, bv(v, 32) == 0)
        if ok is not None:
            nok += 1
            e.prove(ok, good, 'accepted text is blanks, prefix, colon, one term and blanks, with nothing after it', 'post')
            if quoted:
                continue        # the prefix is handled before the term: see the unquoted unit
            p = ok.mem[pp.o].data[0][1]
            if not (isinstance(p, Ptr) and p.o):
                e.fail(ok, 'the prefix is returned', 'post')
                continue
            po = e.to_bytes(ok, p.o).data
            for x in (k2, m - s0):
                e.read_arr(ok, po, x)
            e.read_arr(ok, arr, s0 + k2)
            e.prove(ok, z3.Implies(z3.ULT(k2, m - s0), z3.Select(po, k2) == a(s0 + k2)), 'the prefix is the text before the colon', 'post')
            e.prove(ok, z3.Select(po, m - s0) == 0, 'the prefix ends at the colon', 'post')
        if bad is not None:
            nbad += 1
            e.prove(bad, z3.Not(good), 'well-formed text is not rejected', 'post')
    ctx.cover_any('success', nok)
    ctx.cover_any('failure', nbad)


def accept_lemmas(ctx):
    """Induction steps of the two lemmas used by the accept units."""
    e = ctx.engine()
    e.where = 'lemma'
    d, c = z3.BitVec('d', 2), z3.BitVec('c', 8)
    st = State()
    b2 = lambda v: z3.BitVecVal(v, 2)
    q = c == ord('"')
    sp = z3.If(space(c), b2(2), b2(3))
    dq = z3.If(d == 0, z3.If(q, b2(1), b2(0)), z3.If(d == 1, z3.If(q, b2(0), sp), z3.If(d == 2, sp, b2(3))))
    du = z3.If(d == 0, z3.If(is_term(c), sp, b2(0)), z3.If(d == 2, sp, b2(3)))
    e.prove(st, z3.Implies(d == 3, z3.And(dq == 3, du == 3)), 'accept: no way out of the error state', 'lemma')
    e.prove(st, z3.Implies(d != 1, du != 1), 'accept: states stay in range', 'lemma')


def units(prog):
    out = []
    for pre in (False, True):
        for buf in (False, True):
            out.append(Unit('make(%s, %s)' % ('prefix' if pre else 'no prefix', 'buffer' if buf else 'NULL'),
                            lambda c, pre=pre, buf=buf: u_make(c, buf, pre), ['make_boolean_term'],
                            contract='any term and buffer: prefix, colon, then the term verbatim only if every character is safe, else quoted with quotes doubled; within the buffer; fails only on OOM'))
    out.append(Unit('make(empty)', u_make_empty, ['make_boolean_term'], contract='the empty term is quoted'))
    out.append(Unit('lemmas', lemmas, contract='positions of a quoted term are monotone and bounded'))
    out.append(Unit('parse(any)', u_parse_any, ['parse_boolean_term', 'skip_space'], contract='any text: memory-safe; success gives live results'))
    out.append(Unit('parse(make(term)) quoted', lambda c: u_roundtrip(c, True), ['parse_boolean_term', 'skip_space'], contract='returns exactly the prefix and term that were quoted'))
    out.append(Unit('parse(make(term)) unquoted', lambda c: u_roundtrip(c, False), ['parse_boolean_term', 'skip_space'], contract='returns exactly the prefix and term'))
    for q in (True, False):
        out.append(Unit('parse accepts exactly well-formed text (%s)' % ('quoted' if q else 'unquoted'), lambda c, q=q: u_parse_accept(c, q), ['parse_boolean_term', 'skip_space'],
                        contract='accepted if and only if the text is blanks, prefix, colon, one whole term, blanks; the prefix is the text before the colon'))
    out.append(Unit('accept lemmas', accept_lemmas, contract='the reader automaton used by the accept contracts'))
    return out


def o_make(prefix, term):
    q = term == b'' or any(c <= 32 or c > 127 or c in b')("' for c in term)
    return (b'' if prefix is None else prefix + b':') + (b'"' + term.replace(b'"', b'""') + b'"' if q else term)


def o_parse(s):
    sp = b' \t\n\v\f\r'
    s = s.lstrip(sp)
    p, colon, t = s.partition(b':')
    if not colon or not p:
        return [1]
    if t[:1] != b'"':
        i = 0
        while i < len(t) and t[i] > 32 and t[i] != 41:
            i += 1
        return [1] if t[i:].strip(sp) else [0, p, t[:i]]
    o, i = b'', 1
    while i < len(t):
        if t[i] == 34:
            i += 1
            if t[i:i + 1] != b'"':
                return [1] if t[i:].strip(sp) else [0, p, o]
        o += t[i:i + 1]
        i += 1
    return [1]


def witness(prog, failing, tier, seed):
    from native import Harness, strings, jb
    code = r'''
#include "string-util.h"
#include <errno.h>
static void handle (const char *op, int n, char **a, size_t *l)
{
    void *ctx = talloc_new (NULL);
    if (*op == 'p') {
	char *p, *t, *s = malloc (strlen (a[0]) + 1);
	strcpy (s, a[0]);
	int r = parse_boolean_term (ctx, s, &p, &t);
	puti (r != 0); if (r == 0) { puts_ (p); puts_ (t); }
	free (s); talloc_free (ctx);
	return;
    }
    size_t len = atol (a[2]); char *buf = NULL;
    if (atoi (a[3])) { buf = talloc_size (ctx, len); memset (buf, 'Z', len); } else len = 0;
    int r = make_boolean_term (ctx, a[0], a[1], &buf, &len);
    puti (r);
    if (r == 0) {
	char *p, *t;
	puts_ (buf); puti (len <= talloc_get_size (buf));
	char *s = malloc (strlen (buf) + 1); strcpy (s, buf);
	r = parse_boolean_term (ctx, s, &p, &t);
	puti (r); if (r == 0) { puts_ (p); puts_ (t); }
	free (s);
    }
    talloc_free (ctx);
}
'''
    cases, want = [], []
    for i, s in enumerate(strings(b'"() a:\x80', 4, 15000, seed)):
        pre = [b'id', b'tag', b'x', None][i % 4]
        sz, al = [(0, 0), (1, 1), (3, 1), (len(s) + 3, 1), (len(s) + 6, 1), (300, 1)][i % 6]
        cases.append(['m', pre, s, sz, al])
        m = o_make(pre, s)
        want.append([0, m, 1] + ([0, pre, s] if pre else []))
    for b in range(1, 256):
        for s in (bytes([b]), b'a' + bytes([b]), bytes([b]) + b'a'):
            cases.append(['m', b'id', s, 0, 0])
            want.append([0, o_make(b'id', s), 1, 0, b'id', s])
    for s in strings(b'":a )x', 6, 20000, seed):
        cases.append(['p', s])
        want.append(o_parse(s))
    with Harness(code, ['util/string-util.c'], ['talloc']) as h:
        got = h.run(cases)
    for c, w, g in zip(cases, want, got):
        if c[0] == 'p':
            if g != w:
                return {'function': 'parse_boolean_term', 'input': jb(c[1]), 'expected': [jb(x) for x in w], 'got': [jb(x) for x in g]}
            continue
        if c[1] is None and len(g) >= 3:
            g = g[:3]
        # any safe quoting is right: judge by the round trip when the text differs
        alt = b'"' + c[2].replace(b'"', b'""') + b'"'
        if c[1] is None and g == [0, alt, 1]:
            continue
        if g != w and not (c[1] is not None and len(g) == 6 and g[0] == 0 and g[2:] == w[2:]
                           and g[1] in (w[1], c[1] + b':"' + c[2].replace(b'"', b'""') + b'"')):
            return {'function': 'make_boolean_term / parse_boolean_term', 'prefix': jb(c[1]), 'term': jb(c[2]), 'buffer': c[3:],
                    'expected': [jb(x) for x in w], 'got': [jb(x) for x in g]}
    return None
